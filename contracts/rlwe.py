"""C15: ring-LWE ciphertexts over an arbitrary field with a transform"""
from common import *
import poly, lwe
from vlib import VFile
OPF = [(r"(\bself(?:\s*\.\s*[ab](?:\s*\(\s*\))?))\s*\+\s*(rhs\s*\.\s*[ab]\s*\(\s*\))", r"Add::add(\1, \2)"), (r"(\bself(?:\s*\.\s*[ab](?:\s*\(\s*\))?))\s*-\s*(rhs\s*\.\s*[ab]\s*\(\s*\))", r"Sub::sub(\1, \2)")]
TY = poly.TY + OPF + [(r"copy_from\s*\(\s*self\s*\.\s*([ab])\s*\(\s*\)\s*\)", r"copy_from(self.\1().as_slice())"), (r"\b(RLWE|NTTRLWE|LWE)\s*(::\s*)?<\s*Fe\s*>", r"\1"), (r"<\s*(RLWE|NTTRLWE|LWE)\s*>\s*::", r"\1::"), (r"<\s*(NTTPolynomial|Polynomial)\s*>\s*::", r"\1::"),
      (r"\b(a|b)\s*\.\s*copy_from_slice\s*\(", r"vcopys(\1, "), (r"\ba\s*\[\s*1\s*\.\.\s*\]\s*\.\s*reverse\s*\(\s*\)", "vrev_from(&mut a, 1)"), (r"self\s*\.\s*b\s*\(\s*\)\s*\[\s*0\s*\]", "self.b().data[0]")]
def r(v, n, name, header=None, **k):
    vecs = dict(poly.VECS)
    if k.pop("bvec", None): vecs[""] = {"b": "data"}
    if k.pop("plain", None): vecs = {}
    return v.fn(header or n + "<Fe>", name, crate="lattice", subst=poly.SUB, env=dict(SELF=n), tysub=TY, vecs=vecs, free=True, method_of=n, **k)
def accessors(v, n):
    c = {"RLWE": "Polynomial", "NTTRLWE": "NTTPolynomial"}[n]
    v.struct(n, crate="lattice", tysub=[(r"\bF\b", "Fe"), (r"<\s*Fe\s*>", "")], attrs="")
    for p in "ab":
        r(v, n, p, post=["*$r == $0.%s" % p])
        r(v, n, p + "_mut", post=["*$r == $o0.%s" % p, "*final($r) == $n0.%s" % p, "$n0.%s == $o0.%s" % (("b", "b") if p == "a" else ("a", "a"))])
        r(v, n, p + "_slice", post=["$r@ == $0.%s.data@" % p])
        r(v, n, p + "_mut_slice", post=["$r@ == $o0.%s.data@" % p, "final($r)@ == $n0.%s.data@" % p, "$n0.%s == $o0.%s" % (("b", "b") if p == "a" else ("a", "a"))])
    r(v, n, "a_b_mut", post=["*$r.0 == $o0.a", "*$r.1 == $o0.b", "*final($r.0) == $n0.a", "*final($r.1) == $n0.b"])
    r(v, n, "a_b_mut_slices", post=["$r.0@ == $o0.a.data@", "$r.1@ == $o0.b.data@", "final($r.0)@ == $n0.a.data@", "final($r.1)@ == $n0.b.data@"])
    r(v, n, "dimension", post=["$r == $0.a.data@.len()"])
    r(v, n, "new", pre=["$0.data@.len() == $1.data@.len()"], post=["$r.a == $0", "$r.b == $1"])
    r(v, n, "from_ref", pre=["$0.data@.len() == $1.data@.len()"], post=["$r.a == *$0".replace("*", ""), "$r.b == $1"])
    w, ln = ("rwf", "rn") if n == "RLWE" else ("nwf", "nn")
    r(v, n, "zero", post=["%s($r, $0 as nat)" % w, "pv($r.a.data@) == pzero($0 as nat)", "pv($r.b.data@) == pzero($0 as nat)"])
    r(v, n, "set_zero", pre=["$0.a.data@.len() == $0.b.data@.len()"], post=["%s($n0, %s($o0))" % (w, ln), "pv($n0.a.data@) == pzero(%s($o0))" % ln, "pv($n0.b.data@) == pzero(%s($o0))" % ln])
def comp(f, args, out):
    return ["pv(%s.%s.data@) == %s(%s)" % (out, p, f, ", ".join("pv(%s.%s.data@)" % (a, p) for a in args)) for p in "ab"]
def arith(v, n):
    w, ln = ("rwf", "rn") if n == "RLWE" else ("nwf", "nn")
    for o, f in (("add", "padd"), ("sub", "psub")):
        pre = ["%s($0, %s($0))" % (w, ln), "%s($1, %s($0))" % (w, ln)]
        post = ["%s($r, %s($0))" % (w, ln)] + comp(f, ["$0", "$1"], "$r")
        r(v, n, o + "_element_wise_ref", pre=pre, post=post)
        r(v, n, o + "_element_wise", pre=pre, post=post)
        r(v, n, o + ("_assign_element_wise" if n == "RLWE" else "_element_wise_assign"), pre=pre, post=["%s($n0, %s($o0))" % (w, ln)] + comp(f, ["$o0", "$1"], "$n0"))
        r(v, n, o + "_inplace", pre=pre + ["$o2.a.data@.len() == %s($0)" % ln, "$o2.b.data@.len() == %s($0)" % ln], post=["%s($n2, %s($0))" % (w, ln)] + comp(f, ["$0", "$1"], "$n2"))
def rot_inner(kind, second):
    """the rotation helpers: x is overwritten by (or gets added) X^r y, r < n (first) or X^(n + r) y (second)"""
    n = "$1.data@.len()"
    R = "($2 as int)" if not second else "($2 + %s)" % n
    pre = ["wf($1.data@)", "$o0.data@.len() == %s" % n, "$2 <= %s" % n, "$3 == %s - $2" % n]
    if kind == "add": pre.append("wf($o0.data@)")
    def inv(k):
        lo, hi = ("0", "__lo0_0" if False else "$2 as int") if k == 0 else ("$2 as int", n)
        e = "xmul(pv($1.data@), %s)[j]" % R
        if kind == "add": e = "fadd(fv(__g0.data@[j]), %s)" % e
        base = ["0 <= __i%d <= __n%d" % (k, k), "wf($1.data@)", "$0.data@.len() == %s" % n, "__g0.data@.len() == %s" % n, "$2 <= %s" % n, "$3 == %s - $2" % n,
                "__lo%d_0 == %s" % (k, "0" if k == 0 else "$2"), "__lo%d_1 == %s" % (k, "$3" if k == 0 else "0"), "__n%d == %s" % (k, "$2" if k == 0 else "$3"), "__hi%d_0 == %s" % (k, "$2" if k == 0 else n), "__hi%d_1 == %s" % (k, n if k == 0 else "$3")]
        done = "__i0" if k == 0 else "$2 + __i1"
        if kind == "add": base.append("wf(__g0.data@)")
        base += ["forall|j: int| 0 <= j < %s ==> canon(#[trigger] $0.data@[j])" % done, "forall|j: int| 0 <= j < %s ==> fv(#[trigger] $0.data@[j]) == %s" % (done, e),
                 "forall|j: int| %s <= j < %s ==> #[trigger] $0.data@[j] == __g0.data@[j]" % (done, n)]
        src = ("$3 + __i0" if k == 0 else "__i1")
        return base
    spec = "xmul(pv($1.data@), %s)" % R
    neg = "assert(fneg(fv($1.data@[0])) == fneg(fv($1.data@[0])));"
    loops = {0: dict(inv=inv(0)), 1: dict(inv=inv(1))}
    if kind == "sub":
        loops[1]["after"] = "assert(pv($0.data@) =~= %s);" % spec
        post = ["wf($n0.data@)", "$n0.data@.len() == %s" % n, "pv($n0.data@) == psub(%s, pv($1.data@))" % spec]
    else:
        sg = "lemma_addneg(fv(__g0.data@[%s]), fv($1.data@[%s]));"
        if not second: loops[0]["head"] = sg % ("__i0 as int", "$3 + __i0")
        else: loops[1]["head"] = sg % ("$2 + __i1", "__i1 as int")
        loops[1]["after"] = "assert(pv($0.data@) =~= padd(pv(__g0.data@), %s));" % spec
        post = ["wf($n0.data@)", "$n0.data@.len() == %s" % n, "pv($n0.data@) == padd(pv($o0.data@), %s)" % spec]
    return dict(pre=pre, post=post, loops=loops, tysub=TY, vecs=poly.VECS)
def rotation(v):
    v.text("pub proof fn lemma_addneg(x: int, y: int) ensures fsub(x, y) == fadd(x, fneg(y)) { axiom_p(); lemma_add_mod_noop_right(x, -y, P()); }\n")
    n = "RLWE"
    both = lambda c, t: ["pv(%s.%s.data@) == %s" % (c, p, t.replace("@@", "pv($0.%s.data@)" % p).replace("##", "pv($1.%s.data@)" % p).replace("%%", "pv($o0.%s.data@)" % p)) for p in "ab"]
    lx = "lemma_pv($0.a.data@); lemma_pv($0.b.data@); lemma_xmul(pv($0.a.data@), $2 as int); lemma_xmul(pv($0.b.data@), $2 as int);"
    r(v, n, "mul_monic_monomial_sub_one_inplace", pre=["rwf($0, $1 as nat)", "0 < $1", "$1 <= 0x4000_0000_0000_0000", "$2 <= 2 * $1", "rn($o3) == $1", "$o3.b.data@.len() == $1"],
      post=["rwf($n3, $1 as nat)"] + both("$n3", "psub(negmul(mono($1 as nat, $2 as int), @@), @@)"), hints=lx,
      inner={"rotate_sub": rot_inner("sub", False), "rotate_sub2": rot_inner("sub", True)})
    ly = lx.replace("$0", "$1").replace("$2", "$3")
    r(v, n, "add_assign_rhs_mul_monic_monomial", pre=["rwf($0, $2 as nat)", "rwf($1, $2 as nat)", "0 < $2", "$2 <= 0x4000_0000_0000_0000", "$3 <= 2 * $2"],
      post=["rwf($n0, $2 as nat)"] + both("$n0", "padd(%%, negmul(mono($2 as nat, $3 as int), ##))"), hints=ly,
      inner={"rotate_add": rot_inner("add", False), "rotate_add2": rot_inner("add", True)})
def extract(v):
    n = "RLWE"
    pre = ["rwf($0, rn($0))", "rn($0) > 0"]
    S = "forall|s: Seq<int>| s.len() == rn($0) ==> "
    full = ["lwf($r)", "$r.a@.len() == rn($0)", S + "#[trigger] ph($r, s) == rph($0, s)[0]"]
    fin = "assert forall|s: Seq<int>| s.len() == rn($0) implies #[trigger] ph($R, s) == rph(%s, s)[0] by { lemma_extract($R, %s, s); }"
    neg = dict(inv=["0 <= __i0 <= __n0", "__lo0_0 == 1", "__n0 == a@.len() - 1", "a@.len() == __g0.a.data@.len()", "wf(__g0.a.data@)", "a@.len() > 0", "a@[0] == __g0.a.data@[0]",
                    "forall|j: int| 1 + __i0 <= j < a@.len() ==> #[trigger] a@[j] == __g0.a.data@[a@.len() - j]", "forall|j: int| 1 <= j < 1 + __i0 ==> canon(#[trigger] a@[j]) && fv(a@[j]) == fneg(fv(__g0.a.data@[a@.len() - j]))"])
    r(v, n, "extract_lwe", pre=pre, post=full, loops={0: dict(accty="Vec<Fe>", inv=["0 <= __i0 <= __n0", "__n0 == self.a.data@.len()", "__s0_0@ == self.a.data@", "wf(self.a.data@)", "__acc0@.len() == __i0",
        "forall|j: int| 0 <= j < __i0 ==> canon(#[trigger] __acc0@[j]) && fv(__acc0@[j]) == fneg(fv(self.a.data@[j]))"], after="axiom_p(); lemma_negneg(fv(self.a.data@[0]));")}, end=fin.replace("$0", "*self") % ("*self", "*self"))
    r(v, n, "extract_lwe_locally", bvec=True, pre=pre, post=full, loops={0: neg}, end=fin.replace("$0", "__g0") % ("__g0", "__g0"))
    r(v, n, "extract_lwe_reverse_locally", bvec=True, pre=pre, post=["lwf($r)", "$r.a@.len() == rn($0)", S + "ph($r, srev(s)) == #[trigger] rph($0, s)[0]"],
      end="assert forall|s: Seq<int>| s.len() == rn(__g0) implies ph($R, srev(s)) == #[trigger] rph(__g0, s)[0] by { lemma_extract_rev($R, __g0, s); }")
    D = "$1 <= rn($0)"
    r(v, n, "extract_partial_lwe_reverse_locally", bvec=True, pre=pre + [D], post=["lwf($r)", "$r.a@.len() == $1", "forall|s: Seq<int>| s.len() == rn($0) && (forall|i: int| $1 <= i < s.len() ==> #[trigger] srev(s)[i] == 0) ==> ph($r, srev(s).take($1 as int)) == #[trigger] rph($0, s)[0]"],
      hints="let full = LWE { a: self.a.data, b: self.b.data@[0] };",
      end="let f = LWE { a: __g0.a.data, b: __g0.b.data@[0] }; assert forall|s: Seq<int>| s.len() == rn(__g0) && (forall|i: int| $1 <= i < s.len() ==> #[trigger] srev(s)[i] == 0) implies ph($R, srev(s).take($1 as int)) == #[trigger] rph(__g0, s)[0] by { lemma_extract_rev(f, __g0, s); lemma_trunc($R, f, srev(s), $1 as nat); }")
    r(v, n, "extract_partial_lwe_locally", bvec=True, pre=pre + [D], post=["lwf($r)", "$r.a@.len() == $1", "forall|s: Seq<int>| #![trigger rph($0, s)] #![trigger s.take($1 as int)] s.len() == rn($0) && (forall|i: int| $1 <= i < s.len() ==> #[trigger] s[i] == 0) ==> ph($r, s.take($1 as int)) == rph($0, s)[0]"],
      loops={0: dict(neg, after="let f = LWE { a: a, b: __g0.b.data@[0] }; assert forall|l: LWE, s: Seq<int>| s.len() == rn(__g0) && (forall|i: int| $1 <= i < s.len() ==> #[trigger] s[i] == 0) && l.a@ == a@.take($1 as int) && l.b == f.b implies #[trigger] ph(l, s.take($1 as int)) == rph(__g0, s)[0] by { lemma_extract(f, __g0, s); lemma_trunc(l, f, s, $1 as nat); }")})
def transform(v):
    """products by a transformed polynomial and the conversions"""
    W = ["rwf($0, rn($0))", "ringn(rn($0))"]
    r(v, "RLWE", "mul_ntt_polynomial_inplace", pre=W + ["wf($1.data@)", "$1.data@.len() == rn($0)", "$o2.a.data@.len() == rn($0)", "$o2.b.data@.len() == rn($0)"],
      post=["nwf($n2, rn($0))"] + ["pv($n2.%s.data@) == pmul(ntt(pv($0.%s.data@)), pv($1.data@))" % (p, p) for p in "ab"])
    r(v, "NTTRLWE", "inverse_transform_inplace", pre=["nlz($0, nn($0))", "ringn(nn($0))", "rn($o1) == nn($0)", "$o1.b.data@.len() == nn($0)"], post=["rwf($n1, nn($0))"] + ["pv($n1.%s.data@) == intt(pv($0.%s.data@))" % (p, p) for p in "ab"])
    r(v, "RLWE", "from", header="From<NTTRLWE<Fe>> for RLWE<Fe>", cname="from_nttrlwe", pre=["nlz($0, nn($0))", "ringn(nn($0))"], post=["rwf($r, nn($0))"] + ["pv($r.%s.data@) == intt(pv($0.%s.data@))" % (p, p) for p in "ab"])
    r(v, "NTTRLWE", "from", header="From<RLWE<Fe>> for NTTRLWE<Fe>", cname="from_rlwe", pre=W, post=["nwf($r, rn($0))"] + ["pv($r.%s.data@) == ntt(pv($0.%s.data@))" % (p, p) for p in "ab"])
    for tr, n, c, w in (("RLWE", "RLWE", "Polynomial", None), ("RLWE", "RLWE", "NTTPolynomial", "intt"), ("NTTRLWE", "NTTRLWE", "Polynomial", "ntt")):
        f = lambda x: "pv(%s.data@)" % x if w is None else "%s(pv(%s.data@))" % (w, x)
        r(v, n, "from", header="From<(%s<Fe>, %s<Fe>)> for %s<Fe>" % (c, c, n), cname="from_pair_" + c.lower(), pre=["wf($0.0.data@)", "wf($0.1.data@)", "$0.0.data@.len() == $0.1.data@.len()"] + (["ringn($0.0.data@.len())"] if w else []),
          post=["%s($r, $0.0.data@.len())" % ("rwf" if n == "RLWE" else "nwf"), "pv($r.a.data@) == " + f("$0.0"), "pv($r.b.data@) == " + f("$0.1")])
    T = lambda x, y: [x % (p) + " == " + y % ((p,) * y.count("%s")) for p in "ab"]
    np = ["wf($1.data@)", "$1.data@.len() == nn($0)", "nwf($0, nn($0))"]
    r(v, "NTTRLWE", "mul_ntt_polynomial_assign", pre=np, post=["nwf($n0, nn($o0))"] + T("pv($n0.%s.data@)", "pmul(pv($o0.%s.data@), pv($1.data@))"))
    r(v, "NTTRLWE", "mul_ntt_polynomial_inplace", pre=np + ["$o2.a.data@.len() == nn($0)", "$o2.b.data@.len() == nn($0)"], post=["nwf($n2, nn($0))"] + T("pv($n2.%s.data@)", "pmul(pv($0.%s.data@), pv($1.data@))"))
    ad = ["nwf($1, nn($0))", "wf($2.data@)", "$2.data@.len() == nn($0)", "$0.b.data@.len() == nn($0)"]
    po = T("pv($n0.%s.data@)", "paddmul(pv($o0.%s.data@), pv($1.%s.data@), pv($2.data@))")
    r(v, "NTTRLWE", "add_ntt_rlwe_mul_ntt_polynomial_assign", pre=ad, post=["nwf($n0, nn($o0))"] + po)
    r(v, "NTTRLWE", "add_ntt_rlwe_mul_ntt_polynomial_assign_fast", pre=ad, post=["nlz($n0, nn($o0))"] + po)
    r(v, "NTTRLWE", "add_ntt_rlwe_mul_ntt_polynomial_inplace", pre=ad + ["nwf($0, nn($0))", "$o3.a.data@.len() == nn($0)", "$o3.b.data@.len() == nn($0)"], post=["nwf($n3, nn($0))"] + T("pv($n3.%s.data@)", "paddmul(pv($0.%s.data@), pv($1.%s.data@), pv($2.data@))"))
def base(v):
    poly.base(v)
    poly.elementwise(v, "Polynomial")
    poly.elementwise(v, "NTTPolynomial")
    v.include("absntt.rs")
    poly.nttonly(v)
    poly.products(v)
    v.include("cong.rs")
    v.include("ring.rs")
    v.text("""
pub proof fn lemma_negneg(x: int) requires 0 <= x < P() ensures fneg(fneg(x)) == x
{ axiom_p(); lemma_sub_mod_noop_right(0, -x, P()); lemma_small_mod(x as nat, P() as nat); }
#[verifier::external_body]
pub fn vcopys(d: &mut [Fe], s: &[Fe]) requires old(d)@.len() == s@.len(), ensures final(d)@ == s@, { d.copy_from_slice(s) }
pub fn vsub_ok(lo: usize, hi: usize, n: usize) requires lo <= hi, hi <= n { }
""")
    v.struct("LWE", crate="lattice", tysub=[(r"\bT\b", "Fe")], attrs="")
    v.include("lwe.rs")
    lwe.lwe_fn(v, "new", post=["$r.a == $0", "$r.b == $1"])
    accessors(v, "RLWE")
    accessors(v, "NTTRLWE")
    v.include("rlwe.rs")
def file(name):
    v = VFile(name)
    base(v)
    arith(v, "RLWE")
    arith(v, "NTTRLWE")
    rotation(v)
    extract(v)
    transform(v)
    return v
def build():
    return [file("c15_rlwe")]
