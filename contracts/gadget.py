"""C16: gadget and external products over an arbitrary field with a transform"""
from common import *
import poly, rlwe
from vlib import VFile
X = r"(NTTGadgetRLWE|GadgetRLWE|NTTRGSW|RGSW|DecompositionSpace|PolynomialSpace|NTTRLWESpace|RLWESpace|NTTRGSWSpace|Basis)"
TY = rlwe.TY + [(X + r"\s*(::\s*)?<\s*Fe\s*>", r"\1"), (r"<\s*" + X + r"\s*>\s*::", r"\1::"), (r"\bRLWE\s*::\s*from\s*\(", "RLWE::from_nttrlwe("), (r"\bNTTRLWE\s*::\s*from\b", "NTTRLWE::from_rlwe"), (r"\bNTTGadgetRLWE\s*::\s*from\s*\(", "NTTGadgetRLWE::from_gadget("), (r"\bNTTRGSW\s*::\s*from\s*\(", "NTTRGSW::from_rgsw("), (r"\. into \( \)", ". vinto ()"), (r"\.\s*into\s*\(\s*\)", ".vinto()"),
      (r"<\s*Fe\s+as\s+Field\s*>\s*::\s*Value\b", "Val"), (r"\b(F|Fe)\s*::\s*Value\b", "Val"), (r"\b(c_m|c_neg_s_m|c_m_mut|c_neg_s_m_mut)\s*\(\s*\)\s*\.\s*(iter|iter_mut)\s*\(", r"\1().data.\2("), (r"self\s*\.\s*basis\s*\.\s*basis\s*\(\s*\)\s*==\s*rhs\s*\.\s*basis\s*\.\s*basis\s*\(\s*\)", "veqv(self.basis.basis(), rhs.basis.basis())"), (r"self\s*\.\s*data\s*\.\s*as_ref\s*\(\s*\)", "self.data.as_slice()")]
SP = [(r"\bdecompose_space\s*\.\s*as_mut_slice", "decompose_space.space.as_mut_slice"), (r"\bpolynomial_space\s*\.\s*(copy_from|decompose_lsb_bits_inplace|coeff_count)", r"polynomial_space.space.\1"), (r"copy_from\s*\(\s*polynomial\s*\)", "copy_from(polynomial.as_slice())"),
      (r"(_assign|_assign_fast)\s*\(\s*(g_rlwe|g)\s*,\s*decompose_space\s*\)", r"\1(\2, &decompose_space.space)"),
      (r"\bmedian\s*\.\s*(add_assign|inverse)", r"median.space.\1"), (r",\s*median\s*,?\s*\)", ", &mut median.space)")]
VECS = dict(poly.VECS, GadgetRLWE="data", NTTGadgetRLWE="data")
CR = {"Basis": "algebra", "Polynomial": "algebra"}
def g(v, n, name, header=None, sp=False, src=False, **k):
    vecs = dict(VECS)
    if src: vecs[""] = {"__s0_0": "data", "__s1_0": "data"}
    return v.fn(header or n + "<Fe>", name, crate=CR.get(n, "lattice"), subst=poly.SUB, env=dict(SELF=n), tysub=TY + (SP if sp else []), vecs=vecs, free=True, method_of=n, **k)
N = "pv(polynomial.data@).len()"
def gl(pl, sp, acc, rows, gg, lazy=False, head=""):
    """the loop over the rows of a gadget ciphertext: polynomial pl loses a digit, its transform times the row is accumulated"""
    w = "nlz" if lazy else "nwf"
    av = "*" + acc if acc in ("self", "destination") else acc
    q = "p0, %s.basis.bits as nat, __i0 as nat" % gg
    inv = ["0 <= __i0 <= __n0", "__n0 == %s.data@.len()" % gg, "isres(p0)", "ringn(p0.len())", "p0.len() == pow2(tlog(ntt_table))", "a0.len() == p0.len()", "b0.len() == p0.len()", "wf(%s.data@)" % pl, "pv(%s.data@) == prem(%s)" % (pl, q), "%s.data@.len() == p0.len()" % pl, "%s.data@.len() == p0.len()" % sp,
           "%s(%s, p0.len())" % (w, av), "pv(%s.a.data@) == gacc(a0, %sa(%s.data@), %s)" % (acc, rows, gg, q), "pv(%s.b.data@) == gacc(b0, %sb(%s.data@), %s)" % (acc, rows, gg, q),
           ("ng(*%s, p0.len())" if rows == "n" else "rg(*%s, p0.len())") % gg]
    if gg == "gadget_rlwe": inv.append("basis == gadget_rlwe.basis")
    return dict(before="let ghost p0 = pv(%s.data@); let ghost a0 = pv(%s.a.data@); let ghost b0 = pv(%s.b.data@); proof { lemma_digit(p0, %s.basis.bits as nat, 0); assert(isres(p0)); }" % (pl, acc, acc, gg), inv=inv,
                head="lemma_digit(%s); lemma_digit(p0, %s.basis.bits as nat, (__i0 + 1) as nat); lemma_gacc_len(a0, %sa(%s.data@), %s); lemma_gacc_len(b0, %sb(%s.data@), %s); axiom_ntt(dpoly(%s), dpoly(%s));" % (q, gg, rows, gg, q, rows, gg, q, q, q) + head,
                tail="assert(%s(%s, p0.len()));" % (w, av))
def out(d, a0, b0, gg, p, rows="n", inv=False):
    f = "intt(%s)" if inv else "%s"
    return ["pv(%s.%s.data@) == %s" % (d, c, f % ("gacc(%s, %s%s(%s.data@), %s, %s.basis.bits as nat, %s.data@.len())" % (z, rows, c, gg, p, gg, gg))) for c, z in (("a", a0), ("b", b0))]
def structs(v):
    ts = [(r"F\s*::\s*Value", "Val"), (r"\bF\b", "Fe"), (r"<\s*Fe\s*>", "", ), (r"Vec\s+?(NTTRLWE|RLWE)", r"Vec<\1>")]
    ts = [(r"F\s*::\s*Value", "Val"), (r"(\w+)\s*<\s*F\s*>", r"\1")]
    v.struct("Basis", tysub=ts, attrs="#[derive(Clone, Copy)]")
    for n in ("GadgetRLWE", "NTTGadgetRLWE", "RGSW", "NTTRGSW", "DecompositionSpace", "PolynomialSpace", "NTTRLWESpace"):
        v.struct(n, crate="lattice", tysub=ts, attrs="")
        v.text("impl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: %s) ensures r == *self { unimplemented!() } }\n" % (n, n) if "Space" not in n else "")
def rows(v):
    for n, el, w in (("GadgetRLWE", "RLWE", "rg"), ("NTTGadgetRLWE", "NTTRLWE", "ng")):
        v.anchor(n + "<F>", "iter", "self.data.iter()", crate="lattice")
        v.anchor(n + "<F>", "iter_mut", "self.data.iter_mut()", crate="lattice")
        g(v, n, "new", pre=["$0@.len() == $1.decompose_len"], post=["$r.data == $0", "$r.basis == $1"])
        g(v, n, "data", post=["$r@ == $0.data@"])
        g(v, n, "basis", post=["$r == $0.basis"])
        k = "r" if el == "RLWE" else "n"
        W = ["%s(*%%s, %%s)" % w]
        for o, f in (("add", "padd"), ("sub", "psub")):
            sp = lambda c, a, b: "rowop%s(%s, %s, %s, n)" % (k + o, c, a, b)
            v.text("pub open spec fn rowop%s%s(c: %s, a: %s, b: %s) -> bool { %swf(c, a.a.data@.len()) && pv(c.a.data@) == %s(pv(a.a.data@), pv(b.a.data@)) && pv(c.b.data@) == %s(pv(a.b.data@), pv(b.b.data@)) }\n" % (k, o, el, el, el, k, f, f))
            n0 = "$0.data@[0].a.data@.len()"
            same = ["vv($0.basis.basis) == vv($1.basis.basis)", "$0.data@.len() == $1.data@.len()", "$o2.data@.len() == $0.data@.len()", "forall|j: int| 0 <= j < $0.data@.len() ==> %swf(#[trigger] $0.data@[j], $0.data@[j].a.data@.len())" % k,
                    "forall|j: int| 0 <= j < $0.data@.len() ==> %swf(#[trigger] $1.data@[j], $0.data@[j].a.data@.len())" % k, "forall|j: int| 0 <= j < $0.data@.len() ==> (#[trigger] $o2.data@[j]).a.data@.len() == $0.data@[j].a.data@.len() && $o2.data@[j].b.data@.len() == $0.data@[j].a.data@.len()"]
            g(v, n, o + "_inplace", pre=same, post=["$n2.data@.len() == $0.data@.len()", "$n2.basis == $o2.basis", "forall|j: int| 0 <= j < $0.data@.len() ==> rowop%s%s(#[trigger] $n2.data@[j], $0.data@[j], $1.data@[j])" % (k, o)],
              loops={0: dict(inv=["0 <= __i0 <= __n0", "__n0 == self.data@.len()", "destination.data@.len() == __n0", "destination.basis == __g2.basis", "forall|j: int| __i0 <= j < __n0 ==> #[trigger] destination.data@[j] == __g2.data@[j]"] + [s.replace("$o2", "__g2").replace("$0", "self").replace("$1", "rhs") for s in same] +
                                 ["forall|j: int| 0 <= j < __i0 ==> rowop%s%s(#[trigger] destination.data@[j], self.data@[j], rhs.data@[j])" % (k, o)])})
def ntt_rows(v):
    """construction, conversion and multiples of transformed gadget ciphertexts"""
    n = "NTTGadgetRLWE"
    v.text("""
/// c is the transform of r
pub open spec fn trow(c: NTTRLWE, r: RLWE) -> bool { nwf(c, rn(r)) && pv(c.a.data@) == ntt(pv(r.a.data@)) && pv(c.b.data@) == ntt(pv(r.b.data@)) }
pub open spec fn zrow(c: NTTRLWE, n: nat) -> bool { nwf(c, n) && pv(c.a.data@) == pzero(n) && pv(c.b.data@) == pzero(n) }
/// d = l + r * q, componentwise
pub open spec fn mrow(d: NTTRLWE, l: NTTRLWE, r: NTTRLWE, q: Seq<int>) -> bool { nwf(d, nn(l)) && pv(d.a.data@) == paddmul(pv(l.a.data@), pv(r.a.data@), q) && pv(d.b.data@) == paddmul(pv(l.b.data@), pv(r.b.data@), q) }
pub open spec fn prow(d: NTTRLWE, l: NTTRLWE, q: Seq<int>) -> bool { nwf(d, nn(l)) && pv(d.a.data@) == pmul(pv(l.a.data@), q) && pv(d.b.data@) == pmul(pv(l.b.data@), q) }
""")
    J = "forall|j: int| 0 <= j < %s ==> "
    pre = ["forall|j: int| 0 <= j < $0.data@.len() ==> rwf(#[trigger] $0.data@[j], rn($0.data@[j])) && ringn(rn($0.data@[j]))"]
    g(v, n, "from", header="From<GadgetRLWE<Fe>> for NTTGadgetRLWE<Fe>", cname="from_gadget", body_subst=[(r"from_rlwe\s*\(\s*__x\s*\)", "from_rlwe(vown(__x))")], pre=pre, post=["$r.basis == $0.basis", "$r.data@.len() == $0.data@.len()", J % "$r.data@.len()" + "trow(#[trigger] $r.data@[j], $0.data@[j])"],
      loops={0: dict(accty="Vec<NTTRLWE>", inv=["0 <= __i0 <= __n0", "__acc0@.len() == __i0", "__n0 == $0.data@.len()", J % "__i0" + "trow(#[trigger] __acc0@[j], $0.data@[j])"] + pre, head="let __g = $0.data@[__i0 as int]; assert(rwf(__g, rn(__g)));")})
    g(v, n, "zero", post=["$r.basis == $1", "$r.data@.len() == $1.decompose_len", J % "$r.data@.len()" + "zrow(#[trigger] $r.data@[j], $0 as nat)"],
      loops={0: dict(accty="Vec<NTTRLWE>", inv=["0 <= __i0 <= __n0", "__acc0@.len() == __i0", "__n0 == basis.decompose_len", J % "__i0" + "zrow(#[trigger] __acc0@[j], coeff_count as nat)"])})
    eq = "forall|j: int| 0 <= j < $0.data@.len() ==> (#[trigger] $0.data@[j]).a.data@.len() == $0.data@[j].b.data@.len()"
    g(v, n, "set_zero", pre=[eq], post=["$n0.basis == $o0.basis", "$n0.data@.len() == $o0.data@.len()", J % "$n0.data@.len()" + "zrow(#[trigger] $n0.data@[j], nn($o0.data@[j]))"],
      loops={0: dict(inv=["0 <= __i0 <= __n0", "__n0 == __g0.data@.len()", "self.data@.len() == __n0", "self.basis == __g0.basis", eq.replace("$0", "__g0"), J % "__i0" + "zrow(#[trigger] self.data@[j], nn(__g0.data@[j]))", "forall|j: int| __i0 <= j < __n0 ==> #[trigger] self.data@[j] == __g0.data@[j]"])})
    m = "$2.data@.len()"
    pre = ["wf($2.data@)", "$0.data@.len() == $1.data@.len()", "$o3.data@.len() == $0.data@.len()"] + [J % "$0.data@.len()" + x for x in ("nwf(#[trigger] $0.data@[j], %s)" % m, "nwf(#[trigger] $1.data@[j], %s)" % m, "(#[trigger] $o3.data@[j]).a.data@.len() == %s && $o3.data@[j].b.data@.len() == %s" % (m, m))]
    g(v, n, "add_ntt_gadget_rlwe_mul_ntt_polynomial_inplace", pre=pre, post=["$n3.basis == $o3.basis", "$n3.data@.len() == $0.data@.len()", J % "$0.data@.len()" + "mrow(#[trigger] $n3.data@[j], $0.data@[j], $1.data@[j], pv($2.data@))"],
      loops={0: dict(inv=["0 <= __i0 <= __n0", "__n0 == self.data@.len()", "destination.data@.len() == __n0", "destination.basis == __g3.basis"] + [x.replace("$o3", "__g3") for x in pre] + [J % "__i0" + "mrow(#[trigger] destination.data@[j], $0.data@[j], $1.data@[j], pv($2.data@))", "forall|j: int| __i0 <= j < __n0 ==> #[trigger] destination.data@[j] == __g3.data@[j]"],
                     )})
def rgsw_rest(v):
    v.text("""
pub open spec fn exta(c: RLWE, g: NTTRGSW) -> Seq<int> { intt(gacc(gacc(pzero(rn(c)), na(g.c_neg_s_m.data@), pv(c.a.data@), g.c_neg_s_m.basis.bits as nat, g.c_neg_s_m.data@.len()), na(g.c_m.data@), pv(c.b.data@), g.c_m.basis.bits as nat, g.c_m.data@.len())) }
pub open spec fn extb(c: RLWE, g: NTTRGSW) -> Seq<int> { intt(gacc(gacc(pzero(rn(c)), nb(g.c_neg_s_m.data@), pv(c.a.data@), g.c_neg_s_m.basis.bits as nat, g.c_neg_s_m.data@.len()), nb(g.c_m.data@), pv(c.b.data@), g.c_m.basis.bits as nat, g.c_m.data@.len())) }
pub open spec fn xrow(r: RLWE, c: RLWE, g: NTTRGSW) -> bool { rwf(r, rn(c)) && pv(r.a.data@) == exta(c, g) && pv(r.b.data@) == extb(c, g) }
pub open spec fn allx(r: Seq<RLWE>, c: Seq<RLWE>, g: NTTRGSW) -> bool { r.len() == c.len() && forall|j: int| 0 <= j < r.len() ==> xrow(#[trigger] r[j], c[j], g) }
pub open spec fn trg(t: NTTGadgetRLWE, s: GadgetRLWE) -> bool { t.basis == s.basis && t.data@.len() == s.data@.len() && forall|j: int| 0 <= j < s.data@.len() ==> trow(#[trigger] t.data@[j], s.data@[j]) }
""")
    J = "forall|j: int| 0 <= j < %s ==> "
    C = ("c_neg_s_m", "c_m")
    for n, k, el in (("RGSW", "r", "RLWE"), ("NTTRGSW", "n", "NTTRLWE")):
        same, post = [], {"add": [], "sub": []}
        for c in C:
            a, b, d, e = ["%s.%s.data@" % (x, c) for x in ("$0", "$1", "$o2", "$n2")]
            same += ["vv($0.%s.basis.basis) == vv($1.%s.basis.basis)" % (c, c), "%s.len() == %s.len()" % (a, b), "%s.len() == %s.len()" % (d, a)] + [J % (a + ".len()") + x for x in
                     ("%swf(#[trigger] %s[j], %s[j].a.data@.len())" % (k, a, a), "%swf(#[trigger] %s[j], %s[j].a.data@.len())" % (k, b, a), "(#[trigger] %s[j]).a.data@.len() == %s[j].a.data@.len() && %s[j].b.data@.len() == %s[j].a.data@.len()" % (d, a, d, a))]
            for o in post: post[o] += ["%s.len() == %s.len()" % (e, a), "$n2.%s.basis == $o2.%s.basis" % (c, c), J % (a + ".len()") + "rowop%s%s(#[trigger] %s[j], %s[j], %s[j])" % (k, o, e, a, b)]
        for o in post: g(v, n, o + "_inplace", pre=same, post=post[o])
    n = "NTTRGSW"
    g(v, n, "zero", post=sum([["$r.%s.basis == $1" % c, "$r.%s.data@.len() == $1.decompose_len" % c, J % ("$r.%s.data@.len()" % c) + "zrow(#[trigger] $r.%s.data@[j], $0 as nat)" % c] for c in C], []))
    eq = ["forall|j: int| 0 <= j < $0.%s.data@.len() ==> (#[trigger] $0.%s.data@[j]).a.data@.len() == $0.%s.data@[j].b.data@.len()" % (c, c, c) for c in C]
    g(v, n, "set_zero", pre=eq, post=sum([["$n0.%s.basis == $o0.%s.basis" % (c, c), "$n0.%s.data@.len() == $o0.%s.data@.len()" % (c, c), J % ("$n0.%s.data@.len()" % c) + "zrow(#[trigger] $n0.%s.data@[j], nn($o0.%s.data@[j]))" % (c, c)] for c in C], []))
    pre = ["forall|j: int| 0 <= j < $0.%s.data@.len() ==> rwf(#[trigger] $0.%s.data@[j], rn($0.%s.data@[j])) && ringn(rn($0.%s.data@[j]))" % (c, c, c, c) for c in C]
    g(v, n, "from", header="From<RGSW<Fe>> for NTTRGSW<Fe>", cname="from_rgsw", pre=pre, post=sum([["$r.%s.basis == $0.%s.basis" % (c, c), "$r.%s.data@.len() == $0.%s.data@.len()" % (c, c), J % ("$r.%s.data@.len()" % c) + "trow(#[trigger] $r.%s.data@[j], $0.%s.data@[j])" % (c, c)] for c in C], []) + ["trg($r.c_neg_s_m, $0.c_neg_s_m)", "trg($r.c_m, $0.c_m)", "forall|n: nat| rgsww($0, n) ==> #[trigger] nttrgsww($r, n)"],
      end="assert forall|n: nat| rgsww(r__p, n) implies #[trigger] nttrgsww($R, n) by { assert forall|j: int| 0 <= j < $R.c_m.data@.len() implies nwf(#[trigger] $R.c_m.data@[j], n) by { assert(trow($R.c_m.data@[j], r__p.c_m.data@[j])); assert(rwf(r__p.c_m.data@[j], n)); } assert forall|j: int| 0 <= j < $R.c_neg_s_m.data@.len() implies nwf(#[trigger] $R.c_neg_s_m.data@[j], n) by { assert(trow($R.c_neg_s_m.data@[j], r__p.c_neg_s_m.data@[j])); assert(rwf(r__p.c_neg_s_m.data@[j], n)); } }".replace("r__p", "$0"))
    m = "$2.data@.len()"
    pre = ["wf($2.data@)"]; post = []
    for c in C:
        a, b, d, e = ["%s.%s.data@" % (x, c) for x in ("$0", "$1", "$o3", "$n3")]
        pre += ["%s.len() == %s.len()" % (a, b), "%s.len() == %s.len()" % (d, a)] + [J % (a + ".len()") + x for x in ("nwf(#[trigger] %s[j], %s)" % (a, m), "nwf(#[trigger] %s[j], %s)" % (b, m), "(#[trigger] %s[j]).a.data@.len() == %s && %s[j].b.data@.len() == %s" % (d, m, d, m))]
        post += ["$n3.%s.basis == $o3.%s.basis" % (c, c), "%s.len() == %s.len()" % (e, a), J % (a + ".len()") + "mrow(#[trigger] %s[j], %s[j], %s[j], pv($2.data@))" % (e, a, b), J % (a + ".len()") + "nwf(#[trigger] %s[j], %s)" % (e, m)]
    g(v, n, "add_ntt_rgsw_mul_ntt_polynomial_inplace", pre=pre, post=post)
    lp = {}
    for k, c in ((0, "c_m"), (1, "c_neg_s_m")):
        S = "__s%d_0" % k
        lp[k] = dict(inv=["0 <= __i%d <= __n%d" % (k, k), "wf($1.data@)", "__n%d == __g0.%s.data@.len()" % (k, c), "%s.data@.len() == __n%d" % (S, k), "%s.basis == __g0.%s.basis" % (S, c),
            J % ("__n%d" % k) + "nwf(#[trigger] __g0.%s.data@[j], $1.data@.len())" % c, J % ("__i%d" % k) + "prow(#[trigger] %s.data@[j], __g0.%s.data@[j], pv($1.data@))" % (S, c), "forall|j: int| __i%d <= j < __n%d ==> #[trigger] %s.data@[j] == __g0.%s.data@[j]" % (k, k, S, c)])
    g(v, n, "mul_ntt_polynomial_assign", src=True, pre=["wf($1.data@)"] + [J % ("$0.%s.data@.len()" % c) + "nwf(#[trigger] $0.%s.data@[j], $1.data@.len())" % c for c in C],
      post=sum([["$n0.%s.basis == $o0.%s.basis" % (c, c), "$n0.%s.data@.len() == $o0.%s.data@.len()" % (c, c), J % ("$n0.%s.data@.len()" % c) + "prow(#[trigger] $n0.%s.data@[j], $o0.%s.data@[j], pv($1.data@))" % (c, c)] for c in C], []), loops=lp)
    # products of GSW ciphertexts: every row is multiplied by the small one
    pre = ["rgsww($0, nn($1.c_m.data@[0]))", "ringn(nn($1.c_m.data@[0]))", "$1.c_m.data@.len() > 0", "nttrgsww($1, nn($1.c_m.data@[0]))", "$0.c_neg_s_m.basis == $0.c_m.basis"]
    lp = {}
    for k, c in ((0, "c_neg_s_m"), (1, "c_m")):
        lp[k] = dict(accty="Vec<RLWE>", inv=["0 <= __i%d <= __n%d" % (k, k), "__n%d == self.%s.data@.len()" % (k, c), "*__s%d_0 == self.%s" % (k, c), "__acc%d@.len() == __i%d" % (k, k), J % ("__i%d" % k) + "xrow(#[trigger] __acc%d@[j], self.%s.data@[j], *$1)" % (k, c)] + [x.replace("rgsww($0", "rgsww(*$0").replace("nttrgsww($1", "nttrgsww(*$1") for x in pre],
                     head="assert(rwf(self.%s.data@[__i%d as int], nn($1.c_m.data@[0])));" % (c, k))
    post = sum([["$r.%s.basis == $0.c_m.basis" % c, "$r.%s.data@.len() == $0.%s.data@.len()" % (c, c), J % ("$r.%s.data@.len()" % c) + "xrow(#[trigger] $r.%s.data@[j], $0.%s.data@[j], %%s)" % (c, c)] for c in C], [])
    g(v, "RGSW", "mul_small_ntt_rgsw", src=True, pre=pre, post=[x.replace("%s", "$1") for x in post] + ["allx($r.%s.data@, $0.%s.data@, $1)" % (c, c) for c in C], loops=lp)
    n1 = "rn($1.c_m.data@[0])"
    pre = ["$1.c_m.data@.len() > 0", "ringn(%s)" % n1, "rgsww($0, %s)" % n1, "rgsww($1, %s)" % n1, "$0.c_neg_s_m.basis == $0.c_m.basis"]
    ex = "exists|t: NTTRGSW| trg(t.c_neg_s_m, $1.c_neg_s_m) && trg(t.c_m, $1.c_m) && " + " && ".join("#[trigger] allx($r.%s.data@, $0.%s.data@, t)" % (c, c) if c == "c_m" else "allx($r.%s.data@, $0.%s.data@, t)" % (c, c) for c in C)
    h = "assert forall|j: int| 0 <= j < $1.c_m.data@.len() implies rwf(#[trigger] $1.c_m.data@[j], rn($1.c_m.data@[j])) && ringn(rn($1.c_m.data@[j])) by { assert(rwf($1.c_m.data@[j], %s)); } assert forall|j: int| 0 <= j < $1.c_neg_s_m.data@.len() implies rwf(#[trigger] $1.c_neg_s_m.data@[j], rn($1.c_neg_s_m.data@[j])) && ringn(rn($1.c_neg_s_m.data@[j])) by { assert(rwf($1.c_neg_s_m.data@[j], %s)); } let __t = $1.c_m.data@[0]; assert(rwf(__t, %s)); assert forall|t: NTTRGSW| #[trigger] trg(t.c_m, $1.c_m) implies nn(t.c_m.data@[0]) == %s by { assert(trow(t.c_m.data@[0], $1.c_m.data@[0])); }" % (n1, n1, n1, n1)
    g(v, "RGSW", "mul_small_rgsw", pre=pre, post=["$r.c_m.basis == $0.c_m.basis", "$r.c_neg_s_m.basis == $0.c_m.basis", ex], hints=h)
def products(v):
    B = "Basis"
    for f in ("mask", "bits", "decompose_len", "basis"):
        g(v, B, f, post="$r == $0." + f)
    D = "fv(__g0.data@[j])"
    m = "(pow2(bits as nat) as int)"
    g(v, "Polynomial", "decompose_lsb_bits_inplace", pre=["wfb($1)", "wf($0.data@)", "$0.data@.len() == $2.len()"],
      post=["$n0.data@.len() == $o0.data@.len()", "$n2.len() == $o2.len()", "wf($n0.data@)", "wf($n2)", "forall|j: int| 0 <= j < $n2.len() ==> fv(#[trigger] $n2[j]) == fv($o0.data@[j]) % (pow2($1.bits as nat) as int)",
            "forall|j: int| 0 <= j < $n2.len() ==> fv(#[trigger] $n0.data@[j]) == fv($o0.data@[j]) / (pow2($1.bits as nat) as int)",
            "forall|p: Seq<int>, k: nat| #![trigger prem(p, $1.bits as nat, k)] isres(p) && pv($o0.data@) == prem(p, $1.bits as nat, k) ==> pv($n0.data@) == prem(p, $1.bits as nat, k + 1) && pv($n2) == dpoly(p, $1.bits as nat, k)"],
      loops={0: dict(inv=["0 <= __i0 <= __n0", "__n0 == __g0.data@.len()", "self.data@.len() == __n0", "destination@.len() == __n0", "vv(mask) + 1 == pow2(bits as nat)", "bits == basis.bits", "wf(__g0.data@)", "forall|j: int| 0 <= j < __i0 ==> canon(#[trigger] destination@[j]) && canon(self.data@[j])", "forall|j: int| 0 <= j < __i0 ==> canon(#[trigger] self.data@[j])",
            "forall|j: int| 0 <= j < __i0 ==> fv(#[trigger] destination@[j]) == %s %% %s" % (D, m), "forall|j: int| 0 <= j < __i0 ==> fv(#[trigger] self.data@[j]) == %s / %s" % (D, m), "forall|j: int| __i0 <= j < __n0 ==> #[trigger] self.data@[j] == __g0.data@[j]"],
            after="""assert forall|p: Seq<int>, k: nat| #![trigger prem(p, bits as nat, k)] isres(p) && pv(__g0.data@) == prem(p, bits as nat, k) implies pv(self.data@) == prem(p, bits as nat, k + 1) && pv(destination@) == dpoly(p, bits as nat, k) by {
                lemma_digit(p, bits as nat, k); lemma_digit(p, bits as nat, k + 1);
                assert forall|i: int| #![trigger dpoly(p, bits as nat, k)[i]] #![trigger prem(p, bits as nat, k + 1)[i]] 0 <= i < p.len() implies pv(self.data@)[i] == prem(p, bits as nat, k + 1)[i] && pv(destination@)[i] == dpoly(p, bits as nat, k)[i] by { assert(pv(__g0.data@)[i] == prem(p, bits as nat, k)[i]); assert(fv(self.data@[i]) == fv(__g0.data@[i]) / (pow2(bits as nat) as int)); assert(fv(destination@[i]) == fv(__g0.data@[i]) % (pow2(bits as nat) as int)); }
                assert(prem(p, bits as nat, k).len() == p.len()); assert(pv(self.data@).len() == p.len()); assert(prem(p, bits as nat, k + 1).len() == p.len()); assert(pv(destination@).len() == p.len()); assert(dpoly(p, bits as nat, k).len() == p.len()); assert(pv(self.data@) =~= prem(p, bits as nat, k + 1)); assert(pv(destination@) =~= dpoly(p, bits as nat, k)); }""")})
    S, PS = "DecompositionSpace", "PolynomialSpace"
    for s, c in ((S, "NTTPolynomial"), (PS, "Polynomial"), ("NTTRLWESpace", "NTTRLWE")):
        v.anchor("Deref for %s<F>" % s, "deref", "&self.space", crate="lattice")
        v.anchor("DerefMut for %s<F>" % s, "deref_mut", "&mut self.space", crate="lattice")
        g(v, s, "new", post=["$r.space.data@.len() == $0"] if c != "NTTRLWE" else ["nwf($r.space, $0 as nat)"])
        g(v, s, "get", post=["*$r == $0.space"])
        g(v, s, "get_mut", post=["*$r == $o0.space", "*final($r) == $n0.space"])
    n = "$1.data@.len()"
    pp = ["wf($1.data@)", "ringn(%s)" % n]
    p = "pv($1.data@)"
    z = "pzero(%s)" % n
    g(v, "NTTGadgetRLWE", "mul_polynomial", pre=["ng($0, %s)" % n] + pp, post=["nwf($r, %s)" % n] + out("$r", z, z, "$0", p), loops={0: gl("polynomial", "space", "ntt_rlwe", "n", "self")})
    spc = ["$o2.space.data@.len() == %s" % n, "$o3.space.data@.len() == %s" % n]
    spn = ["$n2.space.data@.len() == %s" % n, "$n3.space.data@.len() == %s" % n]
    dl = ["$o4.a.data@.len() == %s" % n, "$o4.b.data@.len() == %s" % n]
    for f, lazy in (("", False), ("_fast", True)):
        g(v, "NTTGadgetRLWE", "mul_polynomial_inplace" + f, sp=True, pre=["ng($0, %s)" % n] + pp + spc + dl, post=["%s($n4, %s)" % ("nlz" if lazy else "nwf", n)] + spn + out("$n4", z, z, "$0", p), loops={0: gl("polynomial_space.space", "decompose_space.space", "destination", "n", "self", lazy)})
    SPC = lambda i: ["$o%d.space.data@.len() == %s" % (i, n)]
    SPN = lambda i: ["$n%d.space.data@.len() == %s" % (i, n)]
    # accumulating forms of the transformed ciphertext
    n, p, NR = "$2.data@.len()", "pv($2.data@)", "NTTRLWE"
    P2 = ["wf($2.data@)", "ringn(%s)" % n, "ng($1, %s)" % n]
    z = lambda c: "pv($o0.%s.data@)" % c
    g(v, NR, "add_assign_gadget_rlwe_mul_polynomial", sp=True, pre=P2 + ["nwf($0, %s)" % n] + SPC(3) + SPC(4), post=["nwf($n0, %s)" % n] + SPN(3) + SPN(4) + out("$n0", z("a"), z("b"), "$1", p),
      loops={0: gl("polynomial_space.space", "decompose_space.space", "self", "n", "gadget_rlwe")})
    g(v, NR, "add_assign_gadget_rlwe_mul_polynomial_fast", sp=True, pre=P2 + ["nlz($0, %s)" % n] + SPC(3) + SPC(4), post=["nlz($n0, %s)" % n] + SPN(3) + SPN(4) + out("$n0", z("a"), z("b"), "$1", p),
      loops={0: gl("polynomial_space.space", "decompose_space.space", "self", "n", "gadget_rlwe", True)})
    g(v, NR, "add_gadget_rlwe_mul_polynomial", pre=P2 + ["nwf($0, %s)" % n], post=["nwf($r, %s)" % n] + out("$r", "pv($0.a.data@)", "pv($0.b.data@)", "$1", p))
    n, p = "$o2.data@.len()", "pv($o2.data@)"
    P3 = [x.replace("$2", "$o2") for x in P2]
    g(v, NR, "add_assign_gadget_rlwe_mul_polynomial_inplace_fast", sp=True, pre=P3 + ["nlz($0, %s)" % n] + SPC(3), post=["nlz($n0, %s)" % n, "$n2.data@.len() == " + n] + SPN(3) + out("$n0", z("a"), z("b"), "$1", p),
      loops={0: gl("polynomial", "decompose_space.space", "self", "n", "gadget_rlwe", True)})
    g(v, NR, "sub_assign_gadget_rlwe_mul_polynomial_inplace_fast", pre=P3 + ["nlz($0, %s)" % n] + SPC(3), post=["nlz($n0, %s)" % n, "$n2.data@.len() == " + n] + SPN(3) + out("$n0", z("a"), z("b"), "$1", "pneg(%s)" % p),
      loops={0: gl("polynomial", "decompose_space", "self", "n", "gadget_rlwe", True)})
    n, p = "$2.data@.len()", "pv($2.data@)"
    g(v, NR, "sub_assign_gadget_rlwe_mul_polynomial_inplace", pre=P2 + ["nwf($0, %s)" % n] + SPC(3), post=["nwf($n0, %s)" % n] + SPN(3) + out("$n0", z("a"), z("b"), "$1", "pneg(%s)" % p),
      loops={0: gl("polynomial", "decompose_space", "self", "n", "gadget_rlwe")})
    # native gadget ciphertexts
    n, p = "$1.data@.len()", "pv($1.data@)"
    hd = " lemma_addmul(pv(ntt_rlwe.a.data@), ntt(pv(g.a.data@)), ntt(dpoly(%s))); lemma_addmul(pv(ntt_rlwe.b.data@), ntt(pv(g.b.data@)), ntt(dpoly(%s)));" % (("p0, self.basis.bits as nat, __i0 as nat",) * 2)
    hd = " assert(rwf(self.data@[__i0 as int], p0.len())); lemma_pv(g.a.data@); lemma_pv(g.b.data@); axiom_ntt(pv(g.a.data@), pv(g.b.data@)); axiom_ntt(pv(g.b.data@), pv(g.a.data@));".replace("(g.", "(self.data@[__i0 as int].") + hd
    hd = hd.replace("pv(g.", "pv(self.data@[__i0 as int].")
    lp = gl("polynomial", "space", "ntt_rlwe", "r", "self", head=hd); lp["inv"] += ["temp.a.data@.len() == p0.len()", "temp.b.data@.len() == p0.len()"]
    pr = ["rg($0, %s)" % n, "wf($1.data@)", "ringn(%s)" % n]
    nz = "pzero(%s)" % n
    g(v, "GadgetRLWE", "mul_polynomial", pre=pr, post=["rwf($r, %s)" % n] + out("$r", nz, nz, "$0", p, "r", True), loops={0: lp})
    g(v, "GadgetRLWE", "mul_polynomial_add_rlwe", pre=pr + ["rwf($2, %s)" % n], post=["rwf($r, %s)" % n] + out("$r", "ntt(pv($2.a.data@))", "ntt(pv($2.b.data@))", "$0", p, "r", True), loops={0: lp})
    n, p = "$2.data@.len()", "pv($2.data@)"
    g(v, "RLWE", "add_gadget_rlwe_mul_polynomial", pre=["rg($1, %s)" % n, "wf($2.data@)", "ringn(%s)" % n, "rwf($0, %s)" % n], post=["rwf($r, %s)" % n] + out("$r", "ntt(pv($0.a.data@))", "ntt(pv($0.b.data@))", "$1", p, "r", True))
def rgsw(v):
    for n, el, k in (("RGSW", "GadgetRLWE", "r"), ("NTTRGSW", "NTTGadgetRLWE", "n")):
        g(v, n, "new", post=["$r.c_neg_s_m == $0", "$r.c_m == $1"])
        for c, o in (("c_neg_s_m", "c_m"), ("c_m", "c_neg_s_m")):
            g(v, n, c, post=["*$r == $0.%s" % c])
            g(v, n, c + "_mut", post=["*$r == $o0.%s" % c, "*final($r) == $n0.%s" % c, "$n0.%s == $o0.%s" % (o, o)])
        g(v, n, "basis", post=["$r == $0.c_neg_s_m.basis"])
        v.text("pub open spec fn %sw(r: %s, n: nat) -> bool { %sg(r.c_neg_s_m, n) && %sg(r.c_m, n) }\n" % (n.lower(), n, k, k))
    N = "$0.a.data@.len()"
    W = ["rwf($0, rn($0))", "ringn(rn($0))"]
    z = "pzero(%s)" % N
    # the two gadget products of an external product
    def ext(r, k, inv):
        f = "intt(%s)" if inv else "%s"
        return ["%s(%s, rn($0))" % ("rwf" if inv else "nlz", "$R"), ] + []
    def both(d, ct, gs, k):
        o = []
        for c in "ab":
            first = "gacc(pzero(rn(%s)), %s%s(%s.c_neg_s_m.data@), pv(%s.a.data@), %s.c_neg_s_m.basis.bits as nat, %s.c_neg_s_m.data@.len())" % (ct, k, c, gs, ct, gs, gs)
            o.append("pv(%s.%s.data@) == intt(gacc(%s, %s%s(%s.c_m.data@), pv(%s.b.data@), %s.c_m.basis.bits as nat, %s.c_m.data@.len()))" % (d, c, first, k, c, gs, ct, gs, gs))
        return o
    h = "lemma_pv($0.a.data@); lemma_pv($0.b.data@);"
    first = lambda c: "gacc(pzero(rn(*$0)), r%s($1.c_neg_s_m.data@), pv($0.a.data@), $1.c_neg_s_m.basis.bits as nat, $1.c_neg_s_m.data@.len())" % c
    hq = "".join("lemma_gacc_res(%s);" % first(c)[5:-1] for c in "ab") + "axiom_ntt(%s, %s); axiom_ntt(%s, %s);" % (first("a"), first("b"), first("b"), first("a"))
    g(v, "RLWE", "mul_rgsw", pre=W + ["rgsww($1, rn($0))"], post=["rwf($r, rn($0))"] + both("$r", "$0", "$1", "r"), hints=h + hq)
    g(v, "RLWE", "mul_ntt_rgsw", pre=W + ["nttrgsww($1, rn($0))"], post=["rwf($r, rn($0))"] + both("$r", "$0", "$1", "n"), hints=h)
    sp = lambda i, m: ["$%s%d.space.data@.len() == rn($o0)" % (m, i)]
    wk = ["$o4.space.a.data@.len() == rn($o0)", "$o4.space.b.data@.len() == rn($o0)"]
    wn = ["$n4.space.a.data@.len() == rn($o0)", "$n4.space.b.data@.len() == rn($o0)"]
    o0 = lambda l: [x.replace("$0", "$o0") for x in l]
    g(v, "RLWE", "mul_assign_ntt_rgsw", sp=True, pre=o0(W) + ["nttrgsww($1, rn($o0))"] + sp(2, "o") + sp(3, "o") + wk, post=["rwf($n0, rn($o0))"] + sp(2, "n") + sp(3, "n") + wn + both("$n0", "$o0", "$1", "n"))
    g(v, "RLWE", "mul_ntt_rgsw_inplace", sp=True, pre=W + ["nttrgsww($1, rn($0))"] + [x.replace("$o0", "$0") for x in sp(2, "o") + sp(3, "o") + wk] + ["$o5.a.data@.len() == rn($0)", "$o5.b.data@.len() == rn($0)"],
      post=["rwf($n5, rn($0))"] + [x.replace("$o0", "$0") for x in sp(2, "n") + sp(3, "n") + wn] + both("$n5", "$0", "$1", "n"))
def base(v):
    rlwe.base(v)
    rlwe.arith(v, "RLWE")
    rlwe.arith(v, "NTTRLWE")
    rlwe.transform(v)
    v.include("decomp.rs")
    structs(v)
    v.include("gadget.rs")
    rows(v)
    products(v)
    rgsw(v)
    ntt_rows(v)
    rgsw_rest(v)
def file(name):
    v = VFile(name)
    base(v)
    return v
def build():
    return [file("c16_gadget")]
