"""C14: LWE ciphertexts over an arbitrary field or modulus"""
from common import *
import poly
from vlib import VFile
TY = [(r"self\s*\.\s*a\s*\.\s*as_ref\s*\(\s*\)", "self.a.as_slice()"), (r"LWE\s*<\s*Fe\s*>", "LWE")]
def lwe_fn(v, name, **k):
    return v.fn("LWE<Fe>", name, crate="lattice", subst={"T": "Fe", "M": "Md"}, tysub=TY, free=True, method_of="LWE", **k)
def accessors(v):
    v.struct("LWE", crate="lattice", tysub=[(r"\bT\b", "Fe")], attrs="")
    v.include("lwe.rs")
    lwe_fn(v, "new", post=["$r.a == $0", "$r.b == $1"])
    lwe_fn(v, "a", post=["$r@ == $0.a@"], )
    lwe_fn(v, "b", post=["$r == $0.b"])
    lwe_fn(v, "a_mut", post=["*$r == $o0.a", "*final($r) == $n0.a", "$n0.b == $o0.b"])
    lwe_fn(v, "b_mut", post=["*$r == $o0.b", "*final($r) == $n0.b", "$n0.a == $o0.a"])
PRE = ["lwf($0)", "lwf($1)", "$0.a@.len() == $1.a@.len()"]
def upd(elem, srcs=(), pres=()):
    inv = ["0 <= __i0 <= __n0", "__n0 == __g0.a@.len()", "self.a@.len() == __n0", "forall|j: int| __i0 <= j < __n0 ==> #[trigger] self.a@[j] == __g0.a@[j]", "lwf(__g0)", "self.b == __g0.b",
           "forall|j: int| 0 <= j < __i0 ==> canon(#[trigger] self.a@[j])", "forall|j: int| 0 <= j < __i0 ==> fv(#[trigger] self.a@[j]) == " + elem] + list(pres)
    for s in srcs: inv += ["lwf(%s)" % s, "%s.a@.len() == __n0" % s, "__s0_0@ == %s.a@" % s]
    return {0: dict(inv=inv)}
def coll(elem, srcs=()):
    inv = ["0 <= __i0 <= __n0", "__n0 == self.a@.len()", "__acc0@.len() == __i0", "lwf(*self)", "forall|j: int| 0 <= j < __i0 ==> canon(#[trigger] __acc0@[j])", "forall|j: int| 0 <= j < __i0 ==> fv(#[trigger] __acc0@[j]) == " + elem]
    for s in srcs: inv += ["lwf(%s)" % s, "%s.a@.len() == __n0" % s, "__s0_0@ == %s.a@" % s]
    return {0: dict(inv=inv, accty="Vec<Fe>")}
def arith(v):
    for o, al, be in (("add", "1", "1"), ("sub", "1", "-1")):
        e = "f%s(fv(@.a@[j]), fv($1.a@[j]))" % o
        post = "lin($r, $0, $1, %s, %s)" % (al, be)
        ip = "lin($n0, $o0, $1, %s, %s)" % (al, be)
        for red in ("", "_reduce"):
            lwe_fn(v, "%s%s_component_wise_ref" % (o, red), pre=PRE, post=post, loops=coll(e.replace("@.a", "$0.a", 1), ["$a1"]), end="lemma_lin($R, *$0, *$1, %s, %s);" % (al, be))
            lwe_fn(v, "%s%s_inplace_component_wise" % (o, red), pre=PRE, post=ip, loops=upd(e.replace("@.a", "__g0.a", 1), ["$a1"]), end="lemma_lin(*self, __g0, *$1, %s, %s);" % (al, be))
            lwe_fn(v, "%s%s_component_wise" % (o, red), pre=PRE, post=post)
    c = "fv($1)"
    lwe_fn(v, "scalar_mul_reduce_inplace", pre=["lwf($0)", "canon($1)"], post="lin($n0, $o0, $o0, fv($1), 0)",
           loops=upd("fmul(fv(__g0.a@[j]), fv($1))", pres=["canon($1)"]),
           end="assert forall|a: int, b: int| #![trigger a * b] a * b == b * a by (nonlinear_arith); assert forall|i: int| 0 <= i < self.a@.len() implies fv(#[trigger] self.a@[i]) == (fv($1) * fv(__g0.a@[i]) + 0 * fv(__g0.a@[i])) % P() by { assert(fv($1) * fv(__g0.a@[i]) == fv(__g0.a@[i]) * fv($1)) by (nonlinear_arith); } assert(fv($1) * fv(__g0.b) == fv(__g0.b) * fv($1)) by (nonlinear_arith); lemma_lin(*self, __g0, __g0, fv($1), 0);".replace("assert forall|a: int, b: int| #![trigger a * b] a * b == b * a by (nonlinear_arith); ", ""))
    lwe_fn(v, "add_assign_rhs_mul_scalar_reduce", pre=PRE + ["canon($2)"], post="lin($n0, $o0, $1, 1, fv($2))",
           loops=upd("fadd(fv(__g0.a@[j]), fmul(fv($1.a@[j]), fv($2)))", ["$a1"], ["canon($2)"]),
           end="assert forall|i: int| 0 <= i < self.a@.len() implies fv(#[trigger] self.a@[i]) == (1 * fv(__g0.a@[i]) + fv($2) * fv($1.a@[i])) % P() by { lemma_fma(fv(__g0.a@[i]), fv($1.a@[i]), fv($2)); } lemma_fma(fv(__g0.b), fv($1.b), fv($2)); lemma_lin(*self, __g0, *$1, 1, fv($2));")
    lwe_fn(v, "neg_reduce", pre=["lwf($0)"], post="lin($r, $0, $0, -1, 0)", loops=coll("fneg(fv($0.a@[j]))"), end="lemma_lin($R, *$0, *$0, -1, 0);")
    lwe_fn(v, "neg_reduce_assign", pre=["lwf($0)"], post="lin($n0, $o0, $o0, -1, 0)", loops=upd("fneg(fv(__g0.a@[j]))"), end="lemma_lin(*self, __g0, __g0, -1, 0);")
def file(name):
    v = VFile(name)
    poly.base(v)
    v.include("cong.rs")
    v.text("""
pub proof fn lemma_fma(x: int, y: int, c: int) ensures fadd(x, fmul(y, c)) == (1 * x + c * y) % P()
{ axiom_p(); lemma_add_mod_noop_right(x, y * c, P()); assert(y * c == c * y) by (nonlinear_arith); }
""")
    accessors(v)
    arith(v)
    return v
def build():
    return [file("c14_lwe")]
