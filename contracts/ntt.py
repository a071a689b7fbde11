"""C12: the number theoretic transform"""
import os, re
from common import *
import wide, modops
from vlib import VFile
ROOT = r"<\s*(?:F|Fe) as NTTField\s*>\s*::\s*Root"
TY = [(ROOT + r"\s*::\s*default\s*\(\s*\)", "vroot0()"), (ROOT, "ShoupFactor<$T>"), (r"\bNTTTable\s*(?:::\s*)?<\s*(?:F|Fe)\s*>", "NTTTable"), (r"\bFe?\s*::\s*MODULUS_VALUE", "fmodulus()"), (r"\bFe?\s*::\s*Value\b", "$T"), (r"\bF\b", "Fe"),
      (r"(\w+)\s*\[\s*(\w+)\s*\.\.\s*\]\s*\.\s*iter\s*\(\s*\)\s*\.\s*copied\s*\(\s*\)", r"vcursor(\1, \2)"), (r"\b(\w+)\s*\.\s*split_at_mut\s*\(", r"vsplit_mut(\1, "), (r"(self\s*\.\s*\w+)\s*\.\s*as_ref\s*\(\s*\)", r"\1.as_slice()"),
      (r"\b(values)\s*\.\s*fill\s*\(", r"vfill(\1, "), (r"\bcoeff\s*==\s*Fe\s*::\s*(\w+)\s*\(\s*\)", r"coeff.value() == Fe::\1().value()"),
      (r"unsafe\s*\{\s*\*\s*self\s*\.\s*ordinal_root_powers\s*\.\s*get_unchecked\s*\(\s*index\s*\)\s*\}", "self.ordinal_root_powers[index]"),
      (r"\bfrom_elem\s*\(\s*vroot0\(\)\s*,", "vroots("), (r"\(\s*root\s*\*\s*inv_root\s*\)\s*==\s*Fe\s*::\s*one\s*\(\s*\)", "vfmul(root, inv_root).value() == Fe::one().value()"),
      (r"\*\s*ordinal_root_powers\s*\.\s*last\s*\(\s*\)\s*\.\s*unwrap\s*\(\s*\)", "ordinal_root_powers[ordinal_root_powers.len() - 1]"), (r"<\s*Fe as From\s*<\s*usize\s*>\s*>\s*::\s*from\s*\(", "Fe::from_usize("),
      (r"\(log_n - 1 - ", "(log_n as usize - 1 - "),
      (r"let (__n\d+) : usize = log_n\b", r"let \1 : usize = log_n as usize")]
AL = dict(crate="algebra")
def math(v, w):
    v.include("std.rs")
    v.include("ntt.rs", w)
def base(v, w):
    std(v, [w])
    v.include("ntt.rs", w)
    v.include("barrett.rs")
    v.text(modops.SHOUP)
    v.struct("ShoupFactor", gens="<T: Copy>", attrs="#[derive(Clone, Copy)]")
    v.fn("ShoupFactor<T>", "value", post="$r == $0.value", method_of="<T: Copy> ShoupFactor<T>")
    v.fn("ShoupFactor<T>", "quotient", post="$r == $0.quotient", method_of="<T: Copy> ShoupFactor<T>")
    wide.add_mul(v, w)
    v.struct("NTTTable", attrs="", tysub=[(a, b.replace("$T", w["T"])) for a, b in TY], **AL)
    v.include("pow2_n.rs", dict(U, BIGB=U["B"], MAXV=U["MAX"]))
    v.include("pow2_sh.rs", dict(U, BIGB=U["B"], MAXV=U["MAX"]))
    v.include("ntt_t.rs", w)
def theorems(v):
    """the statements other modules use are taken from their files, word for word, and proved here"""
    d = os.path.dirname(os.path.abspath(__file__))
    R = lambda f: open(os.path.join(d, f)).read()
    an, af, ri = R("absntt.rs"), R("absfield.rs"), R("ring.rs")
    fn = lambda t, n: re.search(r"pub open spec fn %s\(.*?\n(?=\S)" % n, t, re.S).group(0)
    ax = lambda n: re.search(r"pub (proof fn %s\(.*?)\n\{ \}" % n, an, re.S).group(1)
    t = R("ntt_thm.rs").replace("@THM_NTT", ax("axiom_ntt")).replace("@THM_SCALE", ax("axiom_nttscale"))
    m = re.search(r"pub open spec fn mono\(.*?\n\}\n", ri, re.S).group(0)
    v.text("".join(fn(af, n) for n in ("fadd", "fsub", "fmul", "fneg", "padd", "psub", "pneg", "pscale")) + fn(an, "ringn") + t.replace("@MONO", m))
    for n in ("nsum", "negmul", "isres"):
        norm = lambda x: "".join(re.search(r"pub open spec fn %s\(.*?\n(?=pub|///|//)" % n, x, re.S).group(0).split())
        assert norm(an) == norm(R("ntt.rs")), n
U = dict(T="usize", BITS=64, MAX="0xffffffffffffffff", B="0x10000000000000000")
def h(v, w, name, **k):
    return v.fn(k.pop("header", ""), name, env=w, subst={"F": "Fe"}, tysub=TY, free=True, **AL, **k)
def helpers(v, w):
    M = "%s.0 as int % P()"
    h(v, w, "guard", pre="$0.0 < 4 * P()", post=["$r.0 < 2 * P()", "cg($r.0 as int, $0.0 as int)"], hints="lemma_guard($0.0 as int);")
    h(v, w, "ntt_normalize_assign", pre="$o0.0 < 4 * P()", post="$n0.0 as int == $o0.0 as int % P()", hints="lemma_guard($o0.0 as int);")
    h(v, w, "intt_normalize_assign", pre="$o0.0 < 2 * P()", post="$n0.0 as int == $o0.0 as int % P()", hints="lemma_guard($o0.0 as int);")
    h(v, w, "add_no_reduce", pre="$0.0 + $1.0 < $B", post="$r.0 == $0.0 + $1.0")
    h(v, w, "add_fast", pre=["$0.0 < 2 * P()", "$1.0 < 2 * P()"], post=["$r.0 < 2 * P()", "cg($r.0 as int, $0.0 + $1.0)"], hints="axiom_p(); lemma_guard($0.0 + $1.0);")
    h(v, w, "sub_fast", pre=["$0.0 < 2 * P()", "$1.0 < 2 * P()"], post=["$r.0 == $0.0 + 2 * P() - $1.0"], hints="axiom_p();")
    h(v, w, "mul_root_fast", pre=["shwf($1)"], post=["$r.0 < 2 * P()", "cg($r.0 as int, $0.0 * $1.value)"], hints="axiom_p(); lemma_mulroot($a0.0 as int, $1.value as int, $1.quotient as int);")
def accessors(v, w):
    H = "NTTTable<Fe>"
    for f in ("root", "inv_root", "coeff_count_power", "coeff_count", "inv_degree"):
        h(v, w, f, header=H, method_of="NTTTable", post="$r == $0." + f)
    for f in ("root_powers", "inv_root_powers", "ordinal_root_powers"):
        h(v, w, f, header=H, method_of="NTTTable", post="$r@ == $0.%s@" % f)
X, LL, NN = "self.root.0 as int", "self.coeff_count_power as nat", "self.coeff_count as int"
def E(s): return s.replace("@X", X).replace("@L", LL).replace("@N", NN)
SHL = "assert forall|x: usize| x < 62 implies #[trigger] (1usize << x) == pow2(x as nat) by { lemma_one_shl_usize(x as nat); } assert forall|g: usize| g < 0x4000_0000_0000_0000 implies #[trigger] (g << 1) == 2 * g by { assert(g < 0x4000_0000_0000_0000 ==> g << 1 == mul(2, g)) by (bit_vector); } lemma_p2(0);"
def transforms(v, w):
    H = dict(header="AbstractNTT<Fe> for NTTTable<Fe>", method_of="NTTTable")
    A0 = "rs(__g1)"
    st = "stf(@X, @L, __c0 as nat, rs(vs))"
    fin = lambda k: ["0 <= __i%d <= __n%d" % (k, k), "values@.len() == @N", "forall|j: int| 0 <= j < __i%d ==> (#[trigger] values@[j]).0 < P()" % k]
    loops = {
        0: dict(inv=["0 <= __i0 <= __n0", "__n0 == self.coeff_count_power", "values@.len() == @N", "below(values@, 4)", "rs(values@) == fwd(@X, @L, __i0 as nat, rs(__g1))", "root_iter.s@ == self.root_powers@", "root_iter.i == pow2(__i0 as nat)"],
                head="lemma_blocks(@L, __i0 as nat);"),
        1: dict(before="let ghost vs = values@;", ghost="let ghost vb = values@;",
                inv=["0 <= __i1 <= __n1", "__n1 == pow2(__c0 as nat)", "gap == gp(@L, __c0 as nat)", "values@.len() == @N", "below(values@, 4)", "root_iter.s@ == self.root_powers@", "root_iter.i == pow2(__c0 as nat) + __i1",
                     "forall|j: int| 0 <= j < __i1 * (2 * gap) ==> (#[trigger] values@[j]).0 as int % P() == @S[j]".replace("@S", st), "forall|j: int| __i1 * (2 * gap) <= j < @N ==> #[trigger] values@[j] == vs[j]"],
                head="lemma_root_ix(@L, __c0 as nat, __i1 as int, gap as int);",
                tail="lemma_block_done(@X, @L, __c0 as nat, __c1 as int, gap as int, vs, vb, values@, root.value as int);",
                after="lemma_mul_is_commutative(pow2(__c0 as nat) as int, 2 * gap); assert(rs(values@) =~= @S);".replace("@S", st)),
        2: dict(before="let ghost (p0, p1) = (v0@, v1@);",
                inv=["0 <= __i2 <= __n2", "__n2 == gap", "v0@.len() == gap", "v1@.len() == gap", "below(p0, 4)", "below(p1, 4)", "shwf(root)",
                     "forall|k: int| 0 <= k < __i2 ==> bf_ok(p0[k], p1[k], root.value as int, #[trigger] v0@[k], v1@[k])", "forall|k: int| __i2 <= k < gap ==> #[trigger] v0@[k] == p0[k]", "forall|k: int| __i2 <= k < gap ==> #[trigger] v1@[k] == p1[k]"],
                tail="lemma_bfly(p0[__c2 as int], p1[__c2 as int], root.value as int, u, v, v0@[__c2 as int], v1@[__c2 as int]);"),
        3: dict(inv=["0 <= __i3 <= __n3", "__n3 == @N", "values@.len() == @N", "below(values@, 4)", "forall|j: int| 0 <= j < __i3 ==> (#[trigger] values@[j]).0 as int == nttx(@X, @L, rs(__g1))[j]", "forall|j: int| __i3 <= j < @N ==> (#[trigger] values@[j]).0 as int % P() == nttx(@X, @L, rs(__g1))[j]"]),
    }
    for k in loops:
        for f in loops[k]:
            q = loops[k][f]
            loops[k][f] = [E(x) for x in q] if isinstance(q, list) else E(q)
    h(v, w, "transform_slice", **H, pre=["twf($0)", "$o1.len() == $0.coeff_count", "below($o1, 4)"],
      post=["$n1.len() == $0.coeff_count", "below($n1, 1)", "vals($n1) == nttx($0.root.0 as int, $0.coeff_count_power as nat, rs($o1))"],
      hints=SHL + E("axiom_p(); lemma_p2(@L);"), loops=loops, opts="#[verifier::loop_isolation(false)]", end=E("assert(vals(values@) =~= nttx(@X, @L, rs(__g1)));"))

def inverse(v, w):
    H = dict(header="AbstractNTT<Fe> for NTTTable<Fe>", method_of="NTTTable")
    S = "(@L - 1 - __c1) as nat"
    st = "stg(@X, @L, %s, rs(vs))" % S
    FIN = "inttx(@X, @L, self.inv_degree.value as int, rs(__g1))"
    norm = lambda i: dict(inv=["0 <= __i%d <= __n%d" % (i, i), "__n%d == @N" % i, "values@.len() == @N", "below(values@, 2)", "forall|j: int| 0 <= j < __i%d ==> (#[trigger] values@[j]).0 as int == @F[j]" % i, "forall|j: int| __i%d <= j < @N ==> (#[trigger] values@[j]).0 as int %% P() == @F[j]" % i])
    loops = {
        0: dict(norm(0), before="lemma_inv_one(self.inv_degree.value as int); lemma_p2(0); lemma_bwd_step(@X, 0, 0, rs(__g1)); assert forall|j: int| 0 <= j < @N implies (#[trigger] values@[j]).0 as int % P() == @F[j] by { assert(rs(__g1)[j] * 1 == rs(__g1)[j]); lemma_mod_twice(values@[j].0 as int, P()); }", after="assert(vals(values@) =~= @F);"),
        1: dict(inv=["0 <= __i1 <= __n1", "__n1 == self.coeff_count_power - 1", "values@.len() == @N", "below(values@, 2)", "rs(values@) == bwd(@X, @L, (@L - __i1) as nat, rs(__g1))", "root_iter.s@ == self.inv_root_powers@", "root_iter.i == @N + 1 - pow2((@L - __i1) as nat)"],
                head="lemma_blocks(@L, (@L - 1 - __i1) as nat); lemma_bwd_step(@X, @L, (@L - 1 - __i1) as nat, rs(__g1));", after="lemma_blocks(@L, 0); lemma_p2(0); lemma_one_shl_usize((@L - 1) as nat); lemma_inv_ix(@X, @L, 0, 0, gp(@L, 0)); lemma_mul_is_commutative(2 * gp(@L, 0), 1);"),
        2: dict(before="let ghost vs = values@;", ghost="let ghost vb = values@;",
                inv=["0 <= __i2 <= __n2", "__n2 == pow2(@S)", "gap == gp(@L, @S)", "values@.len() == @N", "below(values@, 2)", "root_iter.s@ == self.inv_root_powers@", "root_iter.i == @N - 2 * pow2(@S) + 1 + __i2",
                     "forall|j: int| 0 <= j < __i2 * (2 * gap) ==> (#[trigger] values@[j]).0 as int % P() == @T[j]", "forall|j: int| __i2 * (2 * gap) <= j < @N ==> #[trigger] values@[j] == vs[j]"],
                head="lemma_inv_ix(@X, @L, @S, __i2 as int, gap as int);",
                tail="lemma_inv_block(@X, @L, @S, __c2 as int, gap as int, vs, vb, values@, root.value as int);",
                after="lemma_mul_is_commutative(pow2(@S) as int, 2 * gap); assert(rs(values@) =~= @T);"),
        3: dict(before="let ghost (p0, p1) = (v0@, v1@);",
                inv=["0 <= __i3 <= __n3", "__n3 == gap", "v0@.len() == gap", "v1@.len() == gap", "below(p0, 2)", "below(p1, 2)", "shwf(root)",
                     "forall|k: int| 0 <= k < __i3 ==> bg_ok(p0[k], p1[k], 1, root.value as int, #[trigger] v0@[k], v1@[k])", "forall|k: int| __i3 <= k < gap ==> #[trigger] v0@[k] == p0[k]", "forall|k: int| __i3 <= k < gap ==> #[trigger] v1@[k] == p1[k]"],
                tail="lemma_bfly_inv(p0[__c3 as int], p1[__c3 as int], root.value as int, Fe((u.0 + 2 * P() - v.0) as $T), v0@[__c3 as int], v1@[__c3 as int]);"),
        4: dict(before="let ghost (q0, q1) = (v0@, v1@);",
                inv=["0 <= __i4 <= __n4", "__n4 == gap", "v0@.len() == gap", "v1@.len() == gap", "below(q0, 2)", "below(q1, 2)", "shwf(scalar)", "shwf(scaled_r)",
                     "forall|k: int| 0 <= k < __i4 ==> bg_ok(q0[k], q1[k], scalar.value as int, scaled_r.value as int, #[trigger] v0@[k], v1@[k])", "forall|k: int| __i4 <= k < gap ==> #[trigger] v0@[k] == q0[k]", "forall|k: int| __i4 <= k < gap ==> #[trigger] v1@[k] == q1[k]"],
                tail="lemma_bfly_last(q0[__c4 as int], q1[__c4 as int], scalar.value as int, scaled_r.value as int, v0@[__c4 as int], v1@[__c4 as int]);",
                after="assert(rs(q0 + q1) =~= bwd(@X, @L, 1, rs(__g1))); lemma_bwd_step(@X, @L, 0, rs(__g1)); lemma_inv_last(@X, @L, scalar.value as int, q0 + q1, values@, scaled_r.value as int, gap as int);"),
        5: dict(norm(5), after="assert(vals(values@) =~= @F);"),
    }
    for k in loops:
        for f in loops[k]:
            q = loops[k][f]
            g = lambda x: E(x.replace("@F", FIN).replace("@S", S).replace("@T", st).replace("@S", S)).replace("$T", w["T"])
            loops[k][f] = [g(x) for x in q] if isinstance(q, list) else g(q)
    h(v, w, "inverse_transform_slice", **H, pre=["twf($0)", "$o1.len() == $0.coeff_count", "below($o1, 2)"],
      post=["$n1.len() == $0.coeff_count", "below($n1, 1)", "vals($n1) == inttx($0.root.0 as int, $0.coeff_count_power as nat, $0.inv_degree.value as int, rs($o1))"],
      hints=SHL + E("axiom_p(); lemma_p2(@L); lemma_bwd_step(@X, @L, @L, rs(__g1));"), loops=loops, opts="#[verifier::loop_isolation(false)]")

def monomials(v, w):
    H = dict(header="MonomialNTT<Fe> for NTTTable<Fe>", method_of="NTTTable")
    PRE = lambda d, f: ["twf($0)", "%s.len() == $0.coeff_count" % f, "(2 * $0.coeff_count) * %s <= usize::MAX" % d]
    def loop(i, c, d, sh="", neg=False):
        val = "(%s * rp(@X, (2 * rev(@L, j) + 1) * degree)) % P()".replace("%s", c)
        return dict(inv=["0 <= __i%d <= __n%d" % (i, i), "__n%d == @N" % i, "values@.len() == @N", E("forall|j: int| 0 <= j < __i%d ==> (#[trigger] values@[j]).0 as int == @V").replace("@V", val).replace("%d", str(i))],
                    head="lemma_rev_bound(@L, __i%d as int); { let i = self.reverse_lsbs@[__i%d as int] as int; let e = (2 * i + 1) * degree; lemma_p2(@L); lemma_le(i, @N, degree as int); let m = e as usize; lemma_mono_ix(@X, @L, i, degree as int, m, m & (usize::MAX >> (63 - @L) as usize)); %s }" % (i, i, "lemma_negc(P() - 1, rp(@X, e)); lemma_negc(-1, rp(@X, e)); lemma_rp(@X, e, 0); lemma_one(rp(@X, e));"), after="assert(vals(values@) =~= monon(@X, @L, %s, degree as int));" % c)
    ISO = dict(opts="#[verifier::loop_isolation(false)]")
    def fix(L):
        for k in L:
            for f in L[k]:
                q = L[k][f]
                L[k][f] = [E(x) for x in q] if isinstance(q, list) else E(q)
        return L
    HI = E("lemma_p2(@L); lemma_nbound(@L); lemma_one_shl_usize(@L); axiom_p(); lemma_rp_n(@X, @N, 0);")
    FILL = lambda c: E("lemma_const(@X, @L, @C, degree as int);").replace("@C", c)
    post = lambda c, d, f: ["%s.len() == $0.coeff_count" % f, "below(%s, 1)" % f, "vals(%s) == monon($0.root.0 as int, $0.coeff_count_power as nat, %s, %s as int)" % (f, c, d)]
    h(v, w, "transform_monomial", **H, pre=["$1.0 < P()"] + PRE("$2", "$o3"), post=post("$1.0 as int", "$2", "$n3"), hints=HI + FILL("coeff.0 as int"), **ISO, loops=fix({0: loop(0, "coeff.0 as int", "degree"), 1: loop(1, "coeff.0 as int", "degree"), 2: loop(2, "coeff.0 as int", "degree")}))
    h(v, w, "transform_coeff_one_monomial", **H, pre=PRE("$1", "$o2"), post=post("1", "$1", "$n2"), hints=HI + FILL("1"), **ISO, loops=fix({0: loop(0, "1int", "degree")}))
    h(v, w, "transform_coeff_neg_one_monomial", **H, pre=PRE("$1", "$o2"), post=post("-1", "$1", "$n2"), hints=HI + FILL("-1"), **ISO, loops=fix({0: loop(0, "-1int", "degree")}))
def new(v, w):
    v.fn("ReverseLsbs for usize", "reverse_lsbs", env=w, crate="algebra", pre="$1 < 64", post="$r == rev($1 as nat, $0 as int)", tysub=[(r"self\s*\.\s*reverse_bits\s*\(\s*\)", "vreverse_bits(self)"), (r"Self\s*::\s*BITS", "usize::BITS")],
         hints="lemma_rev0(bits as nat); lemma_p2(0); if 0 < bits < 64 { lemma_rev_bound(64, self as int); lemma2_to64(); lemma_revshift(self, bits, rev(64, self as int) as usize); }")
    V = "ordinal_root_powers@"
    loops = {
        0: dict(inv=["0 <= __i0 <= __n0", "__n0 == coeff_count", "__acc0@.len() == __i0", "forall|k: int| 0 <= k < __i0 ==> #[trigger] __acc0@[k] == rev(@L, k)"]),
        1: dict(inv=["0 <= __i1 <= __n1", "__n1 == coeff_count", "root_powers@.len() == coeff_count", "forall|k: int| 0 <= k < __i1 ==> root_powers@[rev(@L, k)] == #[trigger] @V[k]"],
                head="lemma_rev_bound(@L, __i1 as int); assert forall|k: int| 0 <= k < __i1 implies rev(@L, k) != rev(@L, __i1 as int) && 0 <= rev(@L, k) < coeff_count by { lemma_rev_inj(@L, k, __i1 as int); }",
                after="assert forall|k: int| 0 <= k < coeff_count implies #[trigger] root_powers@[k] == @V[rev(@L, k)] && 0 <= rev(@L, k) < coeff_count by { lemma_rev_inj(@L, k, 0); assert(root_powers@[rev(@L, rev(@L, k))] == @V[rev(@L, k)]); }"),
        2: dict(inv=["0 <= __i2 <= __n2", "__n2 == coeff_count - 1", "inv_root_powers@.len() == coeff_count", "forall|k: int| 0 <= k < __i2 && #[trigger] idx(k) ==> inv_root_powers@[rev(@L, k) + 1] == @V[2 * coeff_count - 1 - k]"],
                ghost="let ghost ib = inv_root_powers@;",
                head="lemma_rev_inj(@L, __i2 as int, 0); assert forall|k: int| 0 <= k < __i2 implies rev(@L, k) != rev(@L, __i2 as int) && 0 <= rev(@L, k) < coeff_count - 1 && #[trigger] idx(k) by { lemma_rev_inj(@L, k, __i2 as int); }",
                tail="assert(i == rev(@L, __c2 as int)); assert(inv_root_power == @V[2 * coeff_count - 1 - __c2]); assert(inv_root_powers@ == ib.update(i + 1, inv_root_power)); assert forall|k: int| 0 <= k < __i2 && #[trigger] idx(k) implies inv_root_powers@[rev(@L, k) + 1] == @V[2 * coeff_count - 1 - k] by { if k < __c2 { assert(idx(k)); assert(ib[rev(@L, k) + 1] == @V[2 * coeff_count - 1 - k]); assert(rev(@L, k) != rev(@L, __c2 as int)); } }",
                after="assert forall|k: int| 1 <= k < coeff_count implies #[trigger] inv_root_powers@[k] == @V[2 * coeff_count - (rev(@L, k - 1) + 1)] && 0 <= rev(@L, k - 1) < coeff_count - 1 by { lemma_rev_inj(@L, k - 1, 0); assert(idx(rev(@L, k - 1))); assert(inv_root_powers@[rev(@L, rev(@L, k - 1)) + 1] == @V[2 * coeff_count - 1 - rev(@L, k - 1)]); }"),
    }
    L = "coeff_count_power as nat"
    for k in loops:
        for f in loops[k]:
            q = loops[k][f]
            g = lambda x: x.replace("@L", L).replace("@V", V)
            loops[k][f] = [g(x) for x in q] if isinstance(q, list) else g(q)
    h(v, w, "new", header="NTTTable<Fe>", method_of="NTTTable", loops=loops, opts="#[verifier::loop_isolation(false)]",
      pre=["$1 < 62", "pow2($1 as nat) < P()", "$0.0 < P()", "isroot($0.0 as int, pow2($1 as nat) as int)", "ordinal($0.0 as int, pow2($1 as nat) as int, $2@)"],
      post=["twf($r)", "$r.root == $0", "$r.coeff_count_power == $1", "$r.inv_root.0 == rp($0.0 as int, 2 * pow2($1 as nat) - 1)"],
      hints="let l = coeff_count_power as nat; lemma_one_shl_usize(l); lemma_nbound(l); axiom_p(); lemma_p2(l); lemma_rootinv(root.0 as int, pow2(l) as int); lemma_rev0(l); lemma_small_mod(pow2(l), P() as nat);",
      end="assert($R.root_powers@.len() == __r.coeff_count); assert forall|k: int| 1 <= k < __r.coeff_count implies shwf(#[trigger] $R.root_powers@[k]) && $R.root_powers@[k].value == rp(root.0 as int, rev(coeff_count_power as nat, k)) by { assert($R.root_powers@[k] == $R.ordinal_root_powers@[rev(coeff_count_power as nat, k)]); } assert forall|k: int| 1 <= k < __r.coeff_count implies shwf(#[trigger] $R.inv_root_powers@[k]) && $R.inv_root_powers@[k].value == rp(root.0 as int, 2 * __r.coeff_count - (rev(coeff_count_power as nat, k - 1) + 1)) by { assert($R.inv_root_powers@[k] == $R.ordinal_root_powers@[2 * __r.coeff_count - (rev(coeff_count_power as nat, k - 1) + 1)]); }")
def derived_fns(v, w, X, CR, PP):
    T2 = [(r"Self\s*::\s*Root\s*::\s*default\s*\(\s*\)", "vroot0()"), (r"\b%d%s\b" % (PP, w["T"]), "fmodulus()"), (r"Self\s*::\s*Degree", "$T"), (r"Self\s*::\s*Table\b", "NTTTable"), (r"\bSelf\b", "Fe"),
          (r"AlgebraError\s*::\s*NoPrimitiveRoot\s*\{[^}]*\}", "AlgebraError::NoPrimitiveRoot"), (r"let mut rng\s*=\s*thread_rng\s*\(\s*\)\s*;", ""), (r"let distr\s*=\s*Uniform\s*::\s*new_inclusive\s*\(2\s*,\s*fmodulus\(\)\s*-\s*1\s*\)\s*;", ""),
          (r"Rng\s*::\s*sample\s*\(&\s*mut\s*rng\s*,\s*distr\s*\)", "vdraw()"), (r"\bPow\s*::\s*pow\s*\(", "vpow("), (r"\bdegree\s*\.\s*is_power_of_two\s*\(\s*\)", "vis_pow2(degree)"),
          (r"\(root\s*\*\s*root\)", "vfmul(root, root)"), (r"\bcurrent_generator\s*<\s*root\b", "current_generator.value() < root.value()"), (r"\(n\s*\*\s*2\)\s*\.\s*try_into\s*\(\s*\)\s*\.\s*unwrap\s*\(\s*\)", "vdeg(n * 2)")] + TY
    g = lambda f, **k: v.fn("NTTField for " + X, f, env=w, crate=CR, free=True, method_of="Fe", cname=f, tysub=T2, **k)
    HALF = "let d = $0; assert(d >> 1 == d / 2) by (bit_vector);"
    OK = ["$0 > 1", "ispow2($0 as int)"]
    D = "($0 as int) / 2"
    g("is_primitive_root", pre=["$0.0 < P()", "$1 > 1", "ispow2($1 as int)"], post="$r == (isroot($0.0 as int, ($1 as int) / 2))",
      hints="axiom_p(); let d = degree; assert(d >> 1 == d / 2) by (bit_vector); lemma_isroot(root.0 as int, d as int / 2); if root.0 == 0 { lemma0_pow((d / 2) as nat); lemma_small_mod(0, P() as nat); }")
    res = lambda extra: ["$r matches Ok(w) ==> w.0 < P() && isroot(w.0 as int, %s) && ($0 as int) <= P() - 1" % D + extra, "(P() - 1) % ($0 as int) != 0 ==> $r is Err"]
    g("try_primitive_root", pre=OK, post=res(""),
      hints="axiom_p(); lemma_fundamental_div_mod(P() - 1, degree as int); lemma_mod_bound(P() - 1, degree as int); let q = (P() - 1) / (degree as int); lemma_div_pos_is_pos(P() - 1, degree as int); lemma_mul_is_commutative(q, degree as int); lemma_qpos(q, degree as int); if (P() - 1) % (degree as int) == 0 && q == 0 { assert(degree as int * 0 == 0); }",
      loops={0: dict(inv=["__n0 == 100", "degree > 1", "ispow2(degree as int)", "w.0 < P()"], invariant_except_break=["!__acc0"], ensures=["__acc0 ==> isroot(w.0 as int, degree as int / 2)"])})
    g("try_minimal_primitive_root", pre=OK, post=res(" && (forall|i: int| i >= 0 ==> w.0 <= #[trigger] oddp(w.0 as int, i))"),
      loops={0: dict(before="let ghost r0 = root.0 as int;", inv=["0 <= __i0 <= __n0", "__n0 == degree", "degree > 1", "root.0 < P()", "0 <= r0 < P()", "isroot(r0, degree as int / 2)", "current_generator.0 as int == oddp(r0, __i0 as int)", "shwf(generator_sq)", "generator_sq.value == (r0 * r0) % P()",
             "exists|j: int| j >= 0 && root.0 as int == #[trigger] oddp(r0, j)", "forall|k: int| 0 <= k < __i0 ==> root.0 as int <= #[trigger] oddp(r0, k)"],
             head="lemma_oddstep(r0, __i0 as int, generator_sq.value as int); lemma_oddroot(r0, degree as int / 2, __i0 as int);",
             after="let j = choose|j: int| j >= 0 && root.0 as int == #[trigger] oddp(r0, j); lemma_oddroot(r0, degree as int / 2, j); assert forall|i: int| i >= 0 implies root.0 <= #[trigger] oddp(root.0 as int, i) by { lemma_oddmin(r0, degree as int / 2, j, root.0 as int, i); }")},
      hints="axiom_p(); assert forall|x: int| 0 <= x < P() implies #[trigger] oddp(x, 0) == x by { lemma_oddstep(x, 0, (x * x) % P()); } lemma_mod_all();")
    g("generate_ntt_table", pre=["$0 < 61", "2 * pow2($0 as nat) <= $MAX"], post=["$r matches Ok(t) ==> twf(t) && t.coeff_count_power == $0 && (forall|i: int| i >= 0 ==> t.root.0 <= #[trigger] oddp(t.root.0 as int, i))", "(P() - 1) % (2 * pow2($0 as nat) as int) != 0 ==> $r is Err"],
      hints="let l = $0 as nat; lemma_one_shl_usize(l); lemma_nbound(l); lemma_p2(l); axiom_p(); assert(pow2(l) * 2 == pow2(l + 1)); assert(ispow2(2 * pow2(l) as int));", opts="#[verifier::loop_isolation(false)]",
      loops={0: dict(inv=["0 <= __i0 <= __n0", "__lo0_0 == 2", "__n0 == 2 * n - 2", "ordinal_root_powers@.len() == 2 * n", "power.0 < P()", "power.0 == rp(root.0 as int, __i0 + 1)", "forall|k: int| 0 <= k < __i0 + 2 ==> shwf(#[trigger] ordinal_root_powers@[k]) && ordinal_root_powers@[k].value == rp(root.0 as int, k)"],
             before="lemma_rp_n(root.0 as int, n as int, 0); lemma_pow1(root.0 as int); lemma_small_mod(root.0 as nat, P() as nat);",
             head="lemma_rp(root.0 as int, __i0 + 1, 1); lemma_rp(root.0 as int, 1, 1); lemma_pow1(root.0 as int); lemma_small_mod(root.0 as nat, P() as nat);")})
def wrappers(v, w):
    """the provided methods of AbstractNTT on polynomials"""
    for n in ("Polynomial", "NTTPolynomial"):
        v.struct(n, tysub=[(r"\bF\b", "Fe")], attrs="", crate="algebra")
        P = [(r"\b%s\s*(::\s*)?<\s*(?:F|Fe)\s*>" % x, x) for x in ("NTTPolynomial", "Polynomial")] + [(r"Vec\s*<\s*F\s*>", "Vec<Fe>"), (r"\b(\w+)\s*\.\s*clone\s*\(\s*\)", r"\1.vclone()")]
        v.text("impl $N { #[verifier::external_body] pub fn vclone(&self) -> (r: $N) ensures r == *self { unimplemented!() } }\n", dict(N=n))
        f = lambda nm, **q: v.fn("%s<Fe>" % n, nm, env=w, subst={"F": "Fe"}, tysub=P + TY, free=True, method_of=n, crate="algebra", **q)
        f("new", post="$r.data == $0"); f("data", post="$r == $0.data"); f("as_mut_slice", post=["$r@ == $o0.data@", "final($r)@ == $n0.data@"])
    d = lambda nm, **q: v.fn("trait:AbstractNTT", nm, env=w, subst={"F": "Fe", "Self": "NTTTable"}, tysub=P + TY, free=True, method_of="NTTTable", crate="algebra", **q)
    T = "self.root.0 as int, self.coeff_count_power as nat"
    fw = lambda s: dict(pre=["twf($0)", "$1.data@.len() == $0.coeff_count", "below($1.data@, 4)"], post=["$r.data@.len() == $0.coeff_count", "below($r.data@, 1)", "vals($r.data@) == nttx($0.root.0 as int, $0.coeff_count_power as nat, rs($1.data@))"])
    bw = lambda s: dict(pre=["twf($0)", "$1.data@.len() == $0.coeff_count", "below($1.data@, 2)"], post=["$r.data@.len() == $0.coeff_count", "below($r.data@, 1)", "vals($r.data@) == inttx($0.root.0 as int, $0.coeff_count_power as nat, $0.inv_degree.value as int, rs($1.data@))"])
    for s in ("", "_inplace"): d("transform" + s, **fw(s)); d("inverse_transform" + s, **bw(s))
def file(w, part, *fns):
    v = VFile("c12_%s_%s" % (part, w["T"])); base(v, w); helpers(v, w); accessors(v, w)
    for f in fns: f(v, w)
    return v
def root(w, X, CR, P):
    v = file(w, "r" + X, new); derived_fns(v, w, X, CR, P); return v
def thm():
    v = VFile("c12_thm"); math(v, WIDTHS[3]); theorems(v); return v
def build():
    from derived import FIELDS
    fs = [thm()]
    for w in WIDTHS: fs += [file(w, "f", transforms), file(w, "i", inverse), file(w, "m", monomials)]
    fs.append(file(WIDTHS[2], "p", transforms, inverse, wrappers))
    for f in FIELDS: fs.append(root(WIDTHS[[x["T"] for x in WIDTHS].index(f["T"])], f["X"], f["CR"], f["P"]))
    return fs
