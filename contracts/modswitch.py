"""C19: modulus switching"""
from common import *
import expdot
from vlib import VFile
def file(w):
    w = dict(w, BIGB=w["B"], MAXV=w["MAX"])
    v = VFile("c19_modswitch_" + w["T"])
    v.include("std.rs")
    v.include("barrett.rs")
    expdot.exp_lemmas(v)
    v.struct("PowOf2Modulus", gens="<T: Copy>")
    v.include("pow2_sh.rs", w)
    v.include("pow2mod.rs", w)
    v.anchor("AsFrom<f64> for " + w["T"], "as_from", "value as " + w["T"])
    v.anchor("AsFrom<%s> for f64" % w["T"], "as_from", "value as f64")
    v.include("modswitch.rs", w)
    v.struct("LWE", crate="lattice", tysub=[(r"\bT\b", w["T"])], attrs="")
    v.struct("LWE", crate="lattice", tysub=[(r"\bT\b", "Fe")], attrs="", out="LWEF")
    for T, L in ((w["T"], "LWE"), ("Fe", "LWEF")):
        k = dict(crate="lattice", subst={"T": T}, env=w, free=True, method_of=L, tysub=[(r"LWE\s*<\s*\w+\s*>", L), (r"self\s*\.\s*a\s*\.\s*as_ref\s*\(\s*\)", "self.a.as_slice()")])
        H = "LWE<%s>" % T
        v.fn(H, "new", post=["$r.a == $0", "$r.b == $1"], **k)
        v.fn(H, "a", post=["$r@ == $0.a@"], **k)
        v.fn(H, "b", post=["$r == $0.b"], **k)
        v.fn(H, "a_mut", post=["*$r == $o0.a", "*final($r) == $n0.a", "$n0.b == $o0.b"], **k)
        v.fn(H, "b_mut", post=["*$r == $o0.b", "*final($r) == $n0.b", "$n0.a == $o0.a"], **k)
    TY = [(r"\bf64\b", "Fl"), (r"LWE\s*<\s*%s\s*>" % w["T"], "LWE"), (r"LWE\s*<\s*Fe\s*>", "LWEF"), (r"LWECiphertext\s*<[^>]*>", "LWE"), (r"LWECiphertext\b", "LWE"), (r"\b(?:F|Fe)\s*::\s*MODULUS_VALUE", "modulus_value()"), (r"<\s*Fe\s*>\s*::\s*MODULUS_VALUE", "modulus_value()"), (r"\bC\s*::", w["T"] + " ::")]
    k = dict(crate="fhe_core", env=w, subst={"C": "$T", "F": "Fe"}, tysub=TY)
    def hint(v, q, d, exact=False):
        return ("let v = %s; let q = %s as int; let d = %s; lemma_okq(v, q, d); lemma_sw(v, q, d); assert forall|x: real| #[trigger] near(x, v * q, d)%s implies (x + 0.5real).floor() == (2 * (v * q) + d) / (2 * d) && 0 <= (2 * (v * q) + d) / (2 * d) <= q by { lemma_step(x, v, q, d); }" % (v, q, d, " && x * (d as real) == (v * q) as real" if exact else ""))
    SW = "sw(%s, $1 as int, P())"
    F53 = ["isint(fr(modulus_before_f64), P())", "isint(fr(modulus_after_f64), $1 as int)"]
    B = ["0 <= __i0 <= __n0", "okq($1 as int, P())", "P() % 2 == 1"] + F53
    HD = "axiom_fe(c.a@[__i0 as int]); " + hint("fv(c.a@[__i0 as int])", "$1", "P()")
    HF = "axiom_fe(c.b); axiom_p(); lemma_okq(0, $1 as int, P()); " + hint("fv(c.b)", "$1", "P()")
    def all_(a, b, i="i", n="$0.a@.len()"): return "forall|i: int| 0 <= i < %s ==> #[trigger] %s.a@[i] as int == sw(fv(%s.a@[i]), $1 as int, P())" % (n, a, b)
    v.fn("", "lwe_modulus_switch", pre=["okq($1 as int, P())"], hints=HF,
         loops={0: dict(inv=B + ["__n0 == c.a@.len()", "__s0_0@ == c.a@", "__acc0@.len() == __i0", "forall|i: int| 0 <= i < __i0 ==> #[trigger] __acc0@[i] as int == sw(fv(c.a@[i]), $1 as int, P())"], accty="Vec<$T>", head=HD)},
         post=["$r.a@.len() == $0.a@.len()", all_("$r", "$0"), "$r.b as int == sw(fv($0.b), $1 as int, P())"], **k)
    v.fn("", "lwe_modulus_switch_inplace", pre=["okq($1 as int, P())", "$2.a@.len() == $0.a@.len()"], hints=HF,
         loops={0: dict(inv=B + ["__n0 == c.a@.len()", "__s0_1@ == c.a@", "__s0_0@.len() == __n0", "forall|i: int| 0 <= i < __i0 ==> #[trigger] __s0_0@[i] as int == sw(fv(c.a@[i]), $1 as int, P())"], head=HD)},
         post=["$n2.a@.len() == $0.a@.len()", all_("$n2", "$0"), "$n2.b as int == sw(fv($0.b), $1 as int, P())"], **k)
    B2 = ["0 <= __i0 <= __n0", "okq($2 as int, $1 as int)", "is2_$T($1 as int)", "isint(fr(modulus_before_f64), $1 as int)", "isint(fr(modulus_after_f64), $2 as int)"]
    v.fn("", "lwe_modulus_switch_assign_between_modulus", pre=["okq($2 as int, $1 as int)", "is2_$T($1 as int)", "$0.b < $1", "forall|i: int| 0 <= i < $0.a@.len() ==> #[trigger] $0.a@[i] < $1"],
         hints="lemma_okq(0, $2 as int, $1 as int); " + hint("$0.b as int", "$2", "$1 as int", True),
         loops={0: dict(inv=B2 + ["__n0 == __g0.a@.len()", "__s0_0@.len() == __n0", "forall|i: int| 0 <= i < __g0.a@.len() ==> #[trigger] __g0.a@[i] < $1", "forall|i: int| __i0 <= i < __n0 ==> #[trigger] __s0_0@[i] == __g0.a@[i]",
                   "forall|i: int| 0 <= i < __i0 ==> #[trigger] __s0_0@[i] as int == sw(__g0.a@[i] as int, $2 as int, $1 as int)"], head=hint("__g0.a@[__i0 as int] as int", "$2", "$1 as int", True))},
         post=["$n0.a@.len() == $o0.a@.len()", "forall|i: int| 0 <= i < $o0.a@.len() ==> #[trigger] $n0.a@[i] as int == sw($o0.a@[i] as int, $2 as int, $1 as int)", "$n0.b as int == sw($o0.b as int, $2 as int, $1 as int)"], **k)
    return v
def build():
    return [file(w) for w in WIDTHS]
