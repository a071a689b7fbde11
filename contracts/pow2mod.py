"""C07: power-of-two modulus"""
from common import *
import expdot, modops
from vlib import VFile
B64 = "(0x1_0000_0000_0000_0000 as int)"
W2 = [dict(w, BIGB=w["B"], MAXV=w["MAX"]) for w in WIDTHS] + [dict(T="u128", BITS=128, BIGB="(%s * %s)" % (B64, B64), MAXV=hex((1 << 128) - 1), B="(%s * %s)" % (B64, B64))]
def reqs(v, w):
    v.include("pow2_sh.rs", w)
    v.include("pow2mod.rs", w)
def fns(v, w):
    MOD = "PowOf2Modulus<$T>"
    def mm(i): return "($%d.mask + 1)" % i
    v.fn(MOD, "new", env=w, post=["wf2_$T($r)", "$r.mask + 1 == $0"], panics="!is2_$T($0 as int)",
         hints="lemma_is2_$T($0);")
    v.fn("Reduce<%s> for $T" % MOD, "reduce", env=w, pre="wf2_$T($1)", post="$r as int == $0 as int % " + mm(1), hints="lemma_pm_$T($1);")
    v.fn("ReduceAssign<%s> for $T" % MOD, "reduce_assign", env=w, pre="wf2_$T($1)", post="$n0 as int == $o0 as int % " + mm(1), hints="lemma_pm_$T($1);")
    for op, o in (("Add", "+"), ("Sub", "-"), ("Mul", "*")):
        m = op.lower() + "_reduce"
        post = ["$r as int == ($0 %s $1) %% %s" % (o, mm(2))]
        h = "lemma_pm_$T($2); "
        if op != "Mul":
            h += "let s = $a0 %s $1; lemma_pm_$T($2); let wr = s %% $BIGB; lemma_mod_bound(s, $BIGB); if s >= $BIGB { lemma_wrap_$T(s, s - $BIGB); } else if s < 0 { lemma_wrap_$T(s, s + $BIGB); } else { lemma_wrap_$T(s, s); }" % o
        else:
            h += "let wr = ($a0 * $1) % $BIGB; assert(wr % ($2.mask + 1) == ($a0 * $1) % ($2.mask + 1));"
        v.fn("%sReduce<%s> for $T" % (op, MOD), m, env=w, pre="wf2_$T($2)", post=post, hints=h)
        v.fn("%sReduceAssign<%s> for $T" % (op, MOD), m + "_assign", env=w, pre="wf2_$T($2)", post=modops.asg(post), hints=h.replace("$a0", "$o0"))
    post = ["$r as int == (-($0 as int)) % " + mm(1)]
    h = "lemma_pm_$T($1); let s = -($a0 as int); let wr = s % $BIGB; if s < 0 { lemma_wrap_$T(s, s + $BIGB); } else { lemma_wrap_$T(s, s); }"
    v.fn("NegReduce<%s> for $T" % MOD, "neg_reduce", env=w, pre="wf2_$T($1)", post=post, hints=h)
    v.fn("NegReduceAssign<%s> for $T" % MOD, "neg_reduce_assign", env=w, pre="wf2_$T($1)", post=modops.asg(post), hints=h.replace("$a0", "$o0"))
    expdot.exp_fns(v, w, MOD, "(@.mask + 1)", "wf2_$T(@)", unit_hint="lemma_pm_$T(@);")
    expdot.exp_pow2(v, w, MOD, "(@.mask + 1)", "wf2_$T(@)", unit_hint="lemma_pm_$T($2);")
    D = "dsum_$T(__g0, __g1, %s)"
    v.include("dsum.rs", w)
    v.fn("DotProductReduce<%s> for $T" % MOD, "dot_product_reduce", env=w,
       pre=["wf2_$T($2)", "$0.len() == $1.len()"], post=["$r as int == dsum_$T($0, $1, $0.len() as int) % ($2.mask + 1)"],
       hints="lemma_pm_$T($2); lemma_small_mod(0, $BIGB as nat);",
       loops={0: dict(inv=["0 <= __i0 <= __n0", "a@ == __g0", "b@ == __g1", "__g0.len() == __g1.len()", "__n0 == __g0.len()", "__acc0 as int == %s %% $BIGB" % (D % "__i0 as int")],
                      ghost="let ghost __q0 = __acc0;",
                      tail="let p = __g0[__i0 - 1] * __g1[__i0 - 1]; let s = %s; lemma_add_mod_noop(p, s, $BIGB); let t = p %% $BIGB + s %% $BIGB; lemma_mod_bound(p, $BIGB); lemma_mod_bound(s, $BIGB); if t >= $BIGB { lemma_wrap_$T(t, t - $BIGB); } else { lemma_wrap_$T(t, t); }" % (D % "__i0 - 1"),
                      after="let s = %s; assert((s %% $BIGB) %% ($2.mask + 1) == s %% ($2.mask + 1));" % (D % "__n0 as int"))})
def build(widths=W2, name="c07_pow2"):
    if len(widths) == 1: widths = [w for w in W2 if w["T"] == widths[0]["T"]]
    v = VFile(name)
    v.include("std.rs")
    v.include("barrett.rs")
    expdot.exp_lemmas(v)
    v.struct("PowOf2Modulus", gens="<T: Copy>")
    v.fn("PowOf2Modulus<T>", "mask", post="$r == $0.mask", method_of="<T: Copy> PowOf2Modulus<T>")
    for w in widths:
        v.include("pow2_w.rs", w)
        reqs(v, w)
        fns(v, w)
    return v
