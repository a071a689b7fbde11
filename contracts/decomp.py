"""C11: gadget decomposition"""
from common import *
import derived
from vlib import VFile
WF = "wfb_$T(@, $MP)"
def pre(v, w):
    std(v, [w])
    v.include("decomp.rs")
    v.include("pow2_n.rs")
    v.include("pow2_sh.rs", w)
    v.include("decomp_w.rs", w)
TYS = [(r"<\s*F\s*::\s*Value as Bits\s*>\s*::\s*BITS", "$BITSu32"), (r"<\s*F\s*::\s*Value as ConstBounded\s*>\s*::\s*MAX", "($MAXV as $T)"), (r"<\s*F\s*::\s*Value as ConstOne\s*>\s*::\s*ONE", "(1 as $T)"),
       (r"num_traits\s*::\s*PrimInt\s*::\s*leading_zeros", "vlz_$T"), (r"num_traits\s*::\s*PrimInt\s*::\s*count_ones", "vones_$T"),
       (r"PrimInt\s*::\s*leading_zeros", "vlz_$T"), (r"PrimInt\s*::\s*count_ones", "vones_$T"), (r"\bF\s*::\s*MODULUS_VALUE", "modulus_value_$T()"),
       (r"\.\s*is_one\s*\(\s*\)", " == 1"), (r"(\w+)\s*\.\s*div_ceil\s*\(\s*(\w+)\s*\)", r"vdivceil32(\1, \2)"),
       (r"<\s*F as Field\s*>\s*::\s*Value", "$T"), (r"F\s*::\s*Value", "$T")]
def basis(v, e):
    v.struct("Basis", tysub=[(a, b.replace("$T", e["T"])) for a, b in TYS[-2:]])
    v.text("""
/// the modulus of the field: arbitrary
pub uninterp spec fn mv_$T() -> int;
#[verifier::external_body]
pub fn modulus_value_$T() -> (r: $T) ensures r as int == mv_$T(), 2 <= mv_$T() < $B, { 2 }
#[verifier::external_body]
proof fn axiom_mv_$T() ensures 2 <= mv_$T() < $B, { }
pub open spec fn wfb_$T(b: Basis) -> bool { 1 <= b.bits < $BITS && b.mask + 1 == pow2(b.bits as nat) && b.basis == pow2(b.bits as nat) && isdlen(mv_$T(), b.bits as nat, b.decompose_len as int) }
""", e)
    k = dict(env=e, free=True, method_of="Basis", tysub=TYS)
    v.fn("Basis<F>", "new", pre=["$0 >= 1", "$0 < $BITS"], post=["wfb_$T($r)", "$r.bits == $0", "pow2(($0 - 1) as nat) <= mv_$T()"], panics="mv_$T() < pow2(($0 - 1) as nat)", hints="axiom_mv_$T(); lemma_basis_$T(mv_$T() as $T, $0);", **k)
    v.fn("Basis<F>", "decompose_len", post="$r == $0.decompose_len", **k)
    v.fn("Basis<F>", "mask", post="$r == $0.mask", **k)
    v.fn("Basis<F>", "bits", post="$r == $0.bits", **k)
    v.fn("Basis<F>", "basis", post="$r == $0.basis", **k)
def digits(v, e):
    X = e["X"]
    v.struct(X, crate=e["CR"])
    ty = [(r"Basis\s*<\s*Self\s*>", "Basis"), (r"Self\s*::\s*Value", "$T"), (r"from_elem\s*\(", "vfrom_elem_$X(")]
    v.text("""
pub open spec fn ok_$X(x: $X) -> bool { x.0 < mv_$T() }
/// std: vec![e; n]
#[verifier::external_body]
pub fn vfrom_elem_$X(e: $X, n: usize) -> (r: Vec<$X>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == e, { vec![e; n] }
""", e)
    def m(name, **k):
        derived.method(v, e, "DecomposableField for $X", name, ty=ty, **k)
    B = "(%s.bits as nat)"
    def dg(x, b, j): return "dig(%s, %s, %s as nat)" % (x, b, j)
    W = ["wfb_$T($1)"]
    inv = ["0 <= __i0 <= __n0", "1 <= bits < $BITS", "bits == basis.bits", "mask + 1 == pow2(bits as nat)", "%s.len() == __n0"]
    ieb = ["temp as int == __g0.0 as int / (pow2((bits * __i0) as nat) as int)", "forall|j: int| 0 <= j < __i0 ==> (#[trigger] %s[j]).0 as int == dig(__g0.0 as int, bits as nat, j as nat)"]
    head = "lemma_mask_$T(mask, bits as nat); lemma_shr_$T(temp, bits); lemma_digstep(__g0.0 as int, bits as nat, __i0 as nat); if temp == 0 { assert forall|j: int| j >= __i0 implies #[trigger] dig(__g0.0 as int, bits as nat, j as nat) == 0 by { lemma_digz(__g0.0 as int, bits as nat, __i0 as nat, j as nat); } }"
    en = "forall|j: int| 0 <= j < __n0 ==> (#[trigger] %s[j]).0 as int == dig(__g0.0 as int, bits as nat, j as nat)"
    post = ["forall|j: int| 0 <= j < @.len() ==> (#[trigger] @[j]).0 as int == dig($0.0 as int, $1.bits as nat, j as nat) && @[j].0 < $1.basis"]
    rec = "lemma_dig0(__g0.0 as int, $1.bits as nat);"
    end = "assert forall|j: int| 0 <= j < %s.len() implies (#[trigger] %s[j]).0 < $1.basis by { lemma_digstep(__g0.0 as int, $1.bits as nat, j as nat); }"
    def lp(v0, z):
        return {0: dict(inv=[x.replace("%s", v0) for x in inv], invariant_except_break=[x.replace("%s", v0) for x in ieb] + (["forall|j: int| __i0 <= j < __n0 ==> (#[trigger] %s[j]).0 == 0" % v0] if z else []),
                        ensures=en.replace("%s", v0), head=head)}
    m("decompose", pre=W, post=["$r@.len() == $1.decompose_len"] + [x.replace("@", "$r@") for x in post] + ["ok_$X($0) ==> digsum($0.0 as int, $1.bits as nat, $1.decompose_len as nat) == $0.0"],
        hints=rec + " if ok_$X($0) { lemma_recompose(mv_$T(), $0.0 as int, $1.bits as nat, $1.decompose_len as nat); }", loops=lp("ret@", True), end=end.replace("%s", "$R@"))
    m("decompose_at", pre=W, post=["$n2.len() == $o2.len()"] + [x.replace("@", "$n2") for x in post] + ["ok_$X($0) && $n2.len() == $1.decompose_len ==> digsum($0.0 as int, $1.bits as nat, $1.decompose_len as nat) == $0.0"],
        hints=rec + " if ok_$X($0) { lemma_recompose(mv_$T(), $0.0 as int, $1.bits as nat, $1.decompose_len as nat); }", loops=lp("destination@", False), end=end.replace("%s", "destination@"))
    lsb = dict(pre=["1 <= $@ < $BITS", "$# + 1 == pow2($@ as nat)"])
    h = "lemma_mask_$T($#, $@ as nat); lemma_shr_$T((*old(self)).0, $@);"
    R = lambda s, a, b: s.replace("$#", a).replace("$@", b)
    m("decompose_lsb_bits", pre=[R(x, "$1", "$2") for x in lsb["pre"]], post=["$r.0 as int == $o0.0 as int % (pow2($2 as nat) as int)", "$n0.0 as int == $o0.0 as int / (pow2($2 as nat) as int)"], hints=R(h, "$1", "$2"))
    m("decompose_lsb_bits_at", pre=[R(x, "$2", "$3") for x in lsb["pre"]], post=["$n1.0 as int == $o0.0 as int % (pow2($3 as nat) as int)", "$n0.0 as int == $o0.0 as int / (pow2($3 as nat) as int)"], hints=R(h, "$2", "$3"))
LSB = ["forall|j: int| 0 <= j < $o0.len() ==> (#[trigger] %s[j])%s as int == $o0[j]%s as int % (pow2($1.bits as nat) as int)", "forall|j: int| 0 <= j < $o0.len() ==> (#[trigger] $n0[j])%s as int == $o0[j]%s as int / (pow2($1.bits as nat) as int)"]
def lattice(w, name):
    """the decomposition basis and vector form of the lattice crate, over plain words"""
    w = dict(w, MAXV=w["MAX"])
    v = VFile(name)
    pre(v, w)
    lattice_fns(v, w)
    return v
def lattice_fns(v, w):
    v.struct("Basis", crate="lattice", tysub=[(r"\bT\b", w["T"])])
    ty = [(r"\bT\b", "$T"), (r"\b$T\s*::\s*BITS", "$BITSu32"), (r"\b$T\s*::\s*ONE", "(1 as $T)"), (r"Basis\s*<\s*$T\s*>", "Basis"),
          (r"modulus\s*\.\s*leading_zeros\s*\(\s*\)", "vlz_$T(modulus)"), (r"modulus\s*\.\s*count_ones\s*\(\s*\)", "vones_$T(modulus)"), (r"(\w+)\s*\.\s*div_ceil\s*\(\s*(\w+)\s*\)", r"vdivceil32(\1, \2)")]
    ty = [(a.replace("$T", w["T"]), b) for a, b in ty]
    v.text("pub open spec fn wfl_$T(b: Basis, p: int) -> bool { 1 <= b.bits < $BITS && b.mask + 1 == pow2(b.bits as nat) && b.basis == pow2(b.bits as nat) && isdlen(p, b.bits as nat, b.decompose_len as int) }\n", w)
    k = dict(env=w, free=True, method_of="Basis", tysub=ty, crate="lattice")
    v.fn("Basis<T>", "new", pre=["$0 >= 1", "$1 >= 2"], post=["wfl_$T($r, $1 as int)", "$r.bits == $0"], panics="$0 == $BITS || $1 < pow2($0 as nat)", hints="if $0 < $BITS { lemma_basis_$T($1, $0); } lemma_bits_$T($1, $0);", **k)
    for f in ("decompose_len", "mask", "bits", "basis"):
        v.fn("Basis<T>", f, post="$r == $0." + f, **k)
    wf = "1 <= $1.bits < $BITS && $1.mask + 1 == pow2($1.bits as nat)"
    v.fn("", "decompose_lsb_bits_inplace", env=w, crate="lattice", subst={"T": "$T"}, tysub=ty, pre=[wf, "$0.len() == $2.len()"],
         post=["$n0.len() == $o0.len()", "$n2.len() == $o2.len()"] + [LSB[0].replace("%s[", "$n2[").replace("%s", ""), LSB[1].replace("%s", "")],
         loops={0: dict(inv=["0 <= __i0 <= __n0", "1 <= bits < $BITS", "bits == basis.bits", "mask + 1 == pow2(bits as nat)", "__n0 == __g0.len()", "data@.len() == __g0.len()", "destination@.len() == __g0.len()",
            "forall|j: int| 0 <= j < __i0 ==> (#[trigger] destination@[j]) as int == __g0[j] as int % (pow2(bits as nat) as int)", "forall|j: int| 0 <= j < __i0 ==> (#[trigger] data@[j]) as int == __g0[j] as int / (pow2(bits as nat) as int)",
            "forall|j: int| __i0 <= j < __n0 ==> #[trigger] data@[j] == __g0[j]"], head="lemma_mask_$T(mask, bits as nat); lemma_shr_$T(data@[__i0 as int], bits as u32); lemma_shus_$T(data@[__i0 as int], bits);")})
PS = [(r"\b((?:__)?self|d_poly)\s*\[", r"\1 . data ["), (r"\b((?:__)?self|d_poly)\s*\.\s*len\s*\(", r"\1 . data . len ("), (r"(self|d_poly)\s*\.\s*coeff_count\s*\(\s*\)", r"\1 . data . len ()"), (r"<\s*Polynomial\s*<\s*$X\s*>\s*>", "Polynomial"), (r"Polynomial\s*::\s*<\s*$X\s*>", "Polynomial"), (r"Polynomial\s*<\s*$X\s*>", "Polynomial"), (r"Basis\s*<\s*$X\s*>", "Basis"), (r"\b$X\s*::\s*Value", "$T")]
def poly_anchors(v, n="Polynomial"):
    """indexing and iteration over a polynomial is over its coefficient vector"""
    v.anchor(n + "<F>", "iter", "self.data.iter()")
    v.anchor(n + "<F>", "iter_mut", "self.data.iter_mut()")
    v.anchor(n + "<F>", "coeff_count", "self.data.len()")
    v.anchor("IntoIterator for &'aPolynomial<F>".replace("Polynomial", n), "into_iter", "self.data.iter()")
    v.anchor("IntoIterator for &'amutPolynomial<F>".replace("Polynomial", n), "into_iter", "self.data.iter_mut()")
def poly(v, e):
    poly_anchors(v)
    v.struct("Polynomial", tysub=[(r"\bF\b", e["X"])], attrs="")
    ty = [(a.replace("$X", e["X"]), b) for a, b in PS]
    k = dict(env=e, free=True, method_of="Polynomial", tysub=ty, subst={"F": "$X"})
    B = "basis.bits as nat"
    base = ["1 <= bits < $BITS", "bits == basis.bits", "mask == basis.mask", "mask + 1 == pow2(bits as nat)"]
    dd = "(#[trigger] %s[j]).0 as int == __g0.data@[j].0 as int %% (pow2(bits as nat) as int)"
    v.fn("Polynomial<$X>", "decompose_lsb_bits_inplace", pre=["wfb_$T($1)", "$o0.data@.len() == $2.len()"],
         post=["$n0.data@.len() == $o0.data@.len()", "$n2.len() == $o2.len()", "forall|j: int| 0 <= j < $n2.len() ==> (#[trigger] $n2[j]).0 as int == $o0.data@[j].0 as int % (pow2($1.bits as nat) as int)",
               "forall|j: int| 0 <= j < $n2.len() ==> (#[trigger] $n0.data@[j]).0 as int == $o0.data@[j].0 as int / (pow2($1.bits as nat) as int)"],
         loops={0: dict(inv=["0 <= __i0 <= __n0", "__n0 == __g0.data@.len()", "self.data@.len() == __n0", "destination@.len() == __n0"] + base + ["forall|j: int| 0 <= j < __i0 ==> " + dd % "destination@",
            "forall|j: int| 0 <= j < __i0 ==> (#[trigger] self.data@[j]).0 as int == __g0.data@[j].0 as int / (pow2(bits as nat) as int)", "forall|j: int| __i0 <= j < __n0 ==> #[trigger] self.data@[j] == __g0.data@[j]"])}, **k)
    inv0 = base + ["self.data@.len() == __g0.data@.len()", "__n0 == __g2.len()", "destination@.len() == __n0", "0 <= __i0 <= __n0", "forall|k: int| 0 <= k < __n0 ==> (#[trigger] __g2[k]).data@.len() == __g0.data@.len()",
        "forall|k: int| __i0 <= k < __n0 ==> #[trigger] destination@[k] == __g2[k]",
        "forall|k: int| 0 <= k < __i0 ==> (#[trigger] destination@[k]).data@.len() == __g0.data@.len()",
        "forall|k: int, j: int| 0 <= k < __i0 && 0 <= j < __g0.data@.len() ==> (#[trigger] destination@[k].data@[j]).0 as int == dig(__g0.data@[j].0 as int, bits as nat, k as nat)",
        "forall|j: int| 0 <= j < __g0.data@.len() ==> (#[trigger] self.data@[j]).0 as int == __g0.data@[j].0 as int / (pow2((bits * __i0) as nat) as int)"]
    x = "__g0.data@[j].0 as int"
    q0 = "(%s / (pow2((bits * __c0) as nat) as int))" % x
    inv1 = base + ["self.data@.len() == __g0.data@.len()", "__n1 == self.data@.len()", "d_poly.data@.len() == __n1", "0 <= __i1 <= __n1", "0 <= __c0",
        "forall|j: int| __i1 <= j < __n1 ==> (#[trigger] self.data@[j]).0 as int == " + q0,
        "forall|j: int| 0 <= j < __i1 ==> (#[trigger] self.data@[j]).0 as int == %s / (pow2(bits as nat) as int)" % q0,
        "forall|j: int| 0 <= j < __i1 ==> (#[trigger] d_poly.data@[j]).0 as int == %s %% (pow2(bits as nat) as int)" % q0]
    ds = lambda d, s, l, b: ["forall|k: int, j: int| 0 <= k < %s && 0 <= j < %s.data@.len() ==> (#[trigger] %s[k].data@[j]).0 as int == dig(%s.data@[j].0 as int, %s.bits as nat, k as nat)" % (l, s, d, s, b)]
    step = "assert forall|j: int| 0 <= j < __n1 implies %s / (pow2(bits as nat) as int) == #[trigger] (%s / (pow2((bits * (__c0 + 1)) as nat) as int)) by { lemma_digstep(%s, bits as nat, __c0 as nat); }" % (q0, x, x)
    v.fn("Polynomial<$X>", "decompose_inplace", pre=["wfb_$T($1)", "$2.len() == $1.decompose_len", "forall|k: int| 0 <= k < $2.len() ==> (#[trigger] $2[k]).data@.len() == $o0.data@.len()"],
         post=["$n2.len() == $o2.len()", "$n0.data@.len() == $o0.data@.len()", "forall|k: int| 0 <= k < $n2.len() ==> (#[trigger] $n2[k]).data@.len() == $o0.data@.len()"] + ds("$n2", "$o0", "$n2.len()", "$1"),
         loops={0: dict(inv=inv0, before="assert forall|j: int| 0 <= j < __g0.data@.len() implies #[trigger] self.data@[j].0 as int == %s / (pow2((bits * 0) as nat) as int) by { lemma_dig0(%s, bits as nat); }" % (x, x)),
                1: dict(inv=inv1, after="assert forall|j: int| 0 <= j < __n1 implies (#[trigger] self.data@[j]).0 as int == %s / (pow2((bits * __i0) as nat) as int) by { lemma_digstep(%s, bits as nat, __c0 as nat); }" % (x, x))}, **k)
    v.fn("Polynomial<$X>", "new", post="$r.data == $0", **k)
    me = lambda t: t.replace("self.", "__self.")
    inv0 = [me(t) for t in base] + ["__self.data@.len() == __g0.data@.len()", "__n0 == basis.decompose_len", "__acc0@.len() == __i0", "0 <= __i0 <= __n0",
        "forall|k: int| 0 <= k < __i0 ==> (#[trigger] __acc0@[k]).data@.len() == __g0.data@.len()",
        "forall|k: int, j: int| 0 <= k < __i0 && 0 <= j < __g0.data@.len() ==> (#[trigger] __acc0@[k].data@[j]).0 as int == dig(__g0.data@[j].0 as int, bits as nat, k as nat)",
        "forall|j: int| 0 <= j < __g0.data@.len() ==> (#[trigger] __self.data@[j]).0 as int == __g0.data@[j].0 as int / (pow2((bits * __i0) as nat) as int)"]
    inv1 = [me(t) for t in base] + ["__self.data@.len() == __g0.data@.len()", "__n1 == __g0.data@.len()", "__acc1@.len() == __i1", "0 <= __i1 <= __n1", "0 <= __c0",
        "forall|j: int| __i1 <= j < __n1 ==> (#[trigger] __self.data@[j]).0 as int == " + q0,
        "forall|j: int| 0 <= j < __i1 ==> (#[trigger] __self.data@[j]).0 as int == %s / (pow2(bits as nat) as int)" % q0,
        "forall|j: int| 0 <= j < __i1 ==> (#[trigger] __acc1@[j]).0 as int == %s %% (pow2(bits as nat) as int)" % q0]
    v.fn("Polynomial<$X>", "decompose", pre=["wfb_$T($1)"],
         post=["$r@.len() == $1.decompose_len", "forall|k: int| 0 <= k < $r@.len() ==> (#[trigger] $r@[k]).data@.len() == $0.data@.len()"] + ds("$r@", "$0", "$r@.len()", "$1"),
         loops={0: dict(inv=inv0, accty="Vec<Polynomial>", before="assert forall|j: int| 0 <= j < __g0.data@.len() implies #[trigger] __self.data@[j].0 as int == %s / (pow2((bits * 0) as nat) as int) by { lemma_dig0(%s, bits as nat); }" % (x, x)),
                1: dict(inv=inv1, accty="Vec<$X>", after="assert forall|j: int| 0 <= j < __n1 implies (#[trigger] __self.data@[j]).0 as int == %s / (pow2((bits * __i0) as nat) as int) by { lemma_digstep(%s, bits as nat, __c0 as nat); }" % (x, x))}, **k)
def file(w, name):
    w = dict(w, MAXV=w["MAX"])
    v = VFile(name)
    pre(v, w)
    basis(v, w)
    for e in derived.FIELDS:
        if e["T"] == w["T"]: digits(v, dict(w, X=e["X"], CR=e["CR"]))
    poly(v, dict(w, X=next(e["X"] for e in derived.FIELDS if e["T"] == w["T"])))
    return v
def build():
    return [file(w, "c11_" + w["T"]) for w in WIDTHS] + [lattice(w, "c11_lat_" + w["T"]) for w in WIDTHS]
