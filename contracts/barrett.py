from common import *
import wide
def specs(v, w):
    v.text("""
pub open spec fn wf_$T(m: BarrettModulus<$T>) -> bool { bratio($B, m.value as int, m.ratio[0] as int, m.ratio[1] as int) }
""", w)
INNER_HINT = ""
def add_new(v, w):
    v.include("barrett_new.rs", w)
    HB = "BarrettModulus_$T_new_HALF_BITS"
    hl = "lemma_hi_$T($0); lemma_digit($B, $0 as int, $1 as int); lemma_mod_bound($0 * $B, $1 as int);"
    inner = {
        "div_rem": dict(pre="$1 > 0", post="$r.0 == $0 / $1 && $r.1 == $0 % $1"),
        "div_wide": dict(pre="0 <= $0 < $1", post=["$r.0 as int == ($0 * $B) / ($1 as int)", "$r.1 as int == ($0 * $B) % ($1 as int)"], hints=hl),
        "div_half": dict(pre=["0 <= $0 < $1", "$1 < $H"], post=["$r.0 as int == ($0 * $B) / ($1 as int)", "$r.1 as int == ($0 * $B) % ($1 as int)"],
             hints="""let b = $H; let d = $1 as int; let r0 = $0 as int; let hi = (r0 * b) / d; let r1 = (r0 * b) % d; let lo = (r1 * b) / d; let r2 = (r1 * b) % d;
                lemma_two_digits(b, r0, d, hi, r1, lo, r2);
                lemma_half_$T($0, 0); lemma_half_$T(r1 as $T, 0); lemma_half_$T(hi as $T, lo as $T);"""),
        "div_inplace": dict(pre=["2 <= $0", "4 * $0 < $B"], post="bratio($B, $0 as int, $r.0[0] as int, $r.0[1] as int)",
             hints="""let m = $0 as int; let b = $B as int; lemma_mod_bound(1 * b, m); lemma_bratio(b, m, (1 * b) / m, (1 * b) % m, (((1 * b) % m) * b) / m);"""),
    }
    v.fn("BarrettModulus<$T>", "new", env=w, post=["wf_$T($r)", "$r.value == $0"], inner=inner, kconsts={"HALF_BITS": ("$HALFu32", "assert($BITSu32 >> 1u32 == $HALFu32) by (bit_vector);"), "HALF": ("($H - 1) as $T", "assert(($MAX as $T) >> $HALFu32 == ($H - 1) as $T) by (bit_vector);")}, panics="!(2 <= $0 < $Q)", hints="lemma_lzb_$T($0);")
    v.fn("BarrettModulus<$T>", "bit_count", env=w, post=["$r == $BITS - $T_leading_zeros($0.value)"], hints="lemma_lzb_$T($0.value);")
def add_reduce(v, w):
    v.fn("LazyReduce<BarrettModulus<$T>> for $T", "lazy_reduce", env=w, pre="wf_$T($1)",
         post=["($r as int) < 2 * $1.value", "$r as int % $1.value as int == $0 as int % $1.value as int", "$0 >= $r"],
         hints="lemma_lazy1($B, $1.value as int, $1.ratio[0] as int, $1.ratio[1] as int, $0 as int); lemma_mod_shift($0 as int, $0 - q1($B, $1.ratio[0] as int, $1.ratio[1] as int, $0 as int) * $1.value, q1($B, $1.ratio[0] as int, $1.ratio[1] as int, $0 as int), $1.value as int);")
    v.fn("Reduce<BarrettModulus<$T>> for $T", "reduce", env=w, pre="wf_$T($1)", post=["$r as int == $0 as int % $1.value as int"], hints="lemma_canon($1.value as int);")
    for ty, a, b in (("[$T;2]", "[0]", "[1]"), ("($T,$T)", ".0", ".1")):
        e = dict(w, V="($0%s + $0%s * $B)" % (a, b))
        v.fn("LazyReduce<BarrettModulus<$T>> for " + ty, "lazy_reduce", env=e, pre="wf_$T($1)",
             post=["($r as int) < 2 * $1.value", "$r as int % $1.value as int == $V % ($1.value as int)"],
             hints="lemma_lazy2($B, $1.value as int, $1.ratio[0] as int, $1.ratio[1] as int, $0%s as int, $0%s as int);" % (a, b))
        v.fn("Reduce<BarrettModulus<$T>> for " + ty, "reduce", env=e, pre="wf_$T($1)",
             post=["$r as int == $V % ($1.value as int)"], hints="lemma_canon($1.value as int);")
def build(widths=WIDTHS, name="c02_barrett"):
    v = VFile(name)
    std(v, widths)
    v.include("barrett.rs")
    v.struct("BarrettModulus", gens="<T: Copy>")
    v.fn("BarrettModulus<T>", "value", post="$r == $0.value", method_of="<T: Copy> BarrettModulus<T>")
    v.fn("BarrettModulus<T>", "ratio", post="$r == $0.ratio", method_of="<T: Copy> BarrettModulus<T>")
    for w in widths:
        wide.add_mul(v, w)
        specs(v, w)
        add_new(v, w)
        add_reduce(v, w)
        v.include("barrett_slice.rs", w)
        for nm, lz in (("lazy_reduce", 1), ("reduce", 0)):
            tr = "LazyReduce" if lz else "Reduce"
            inv = ["0 <= __i0 <= __n0", "__n0 == __g0.len() - 1", "__g0 == $0@", "other@ == __g0.subrange(0, __n0 as int)", "wf_$T($1)",
                   "__acc0 as int % $1.value as int == val_$T(__g0.subrange(__n0 - __i0, __g0.len() as int)) % ($1.value as int)",
                   "__i0 > 0 ==> (__acc0 as int) < %s$1.value" % ("2 * " if lz else "")]
            v.fn(tr + "<BarrettModulus<$T>> for &[$T]", nm, env=w, pre=["wf_$T($1)", "$0@.len() > 0"],
                 post=["($r as int) < %s$1.value" % ("2 * " if lz else ""), "$r as int % $1.value as int == val_$T($0@) % ($1.value as int)"],
                 hints="if __g0.len() == 1 { lemma_val_one2_$T(__g0); } lemma_canon($1.value as int); assert(__g0.subrange(0, __g0.len() as int) =~= __g0);",
                 loops={0: dict(inv=inv, before="lemma_val_one_$T(__g0, __n0 as int);",
                    tail="lemma_val_step_$T(__g0, __n0 - __i0); lemma_mod_comb(__g0[__n0 - __i0] as int, $B, __q0 as int, val_$T(__g0.subrange(__n0 - __i0 + 1, __g0.len() as int)), $1.value as int); lemma_canon($1.value as int);",
                    ghost="let ghost __q0 = __acc0;")})
        for tr, nm in (("LazyReduce", "lazy_reduce"), ("Reduce", "reduce")):
            v.fn(tr + "Assign<BarrettModulus<$T>> for $T", nm + "_assign", env=w, pre="wf_$T($1)",
                 post=["$n0 as int % $1.value as int == $o0 as int % $1.value as int", "($n0 as int) < %s$1.value" % ("2 * " if "Lazy" in tr else "")],
                 hints="lemma_canon($1.value as int);")
    return v
from vlib import VFile
