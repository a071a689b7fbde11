"""C20: key switching with ring rows over an arbitrary field with a transform"""
from common import *
import gadget, poly, rlwe, rows
from vlib import VFile
FC = dict(crate="fhe_core")
TY = gadget.TY + gadget.SP + rows.TY + [(r"ChunksExact\s*<[^>]*>", "Vec<&[Fe]>"), (r"(\w+\s*\.\s*a(?:_slice)?\s*\(\s*\))\s*\.\s*chunks_exact\s*\(", r"vchunks(\1, "), (r"copy_from\s*\(\s*a_i\s*\)", "copy_from(*a_i)"), (r"LWE\s*::\s*<\s*Fe\s*>", "LWE"),
   (r"self\s*\.\s*lwe_dimension\s*\.\s*next_power_of_two\s*\(\s*\)", "vnp2(self.lwe_dimension)"), (r"(?<![.\w])(\w+)\s*\.\s*next_power_of_two\s*\(\s*\)", r"vnp2(\1)"), (r"& mut polynomial_space\b(?!\s*\.)", "&mut polynomial_space.space"), (r"(ciphertext\s*\.\s*b\s*\(\s*\))\s*\[\s*0\s*\]", r"\1.data[0]"), (r"\bchunk\s*\[\s*1\s*\.\.\s*\]\s*\.\s*reverse\s*\(\s*\)", "vrevs(chunk, 1)"), (r"vrev_from\s*\(\s*&\s*mut a\s*, 1\s*\)", "vrevs(a, 1)")]
def h(v, name, **k):
    return v.fn("KeySwitchingRLWEKey<Fe>", name, subst={"Q": "Fe", "C": "Cm", "R": "Rn"}, tysub=TY, vecs=dict(gadget.VECS), free=True, method_of="KeySwitchingRLWEKey", **dict(FC, **k))
LW = [(r"\bvrevs\s*\(\s*a\s*,", "vrev_from(a,"), (r"\bvchunk_mut\s*\(\s*a\s*,", "vchunkv(a,")]
def switch(v):
    import lwe
    for f, p in (("a", ["$r@ == $0.a@"]), ("b", ["$r == $0.b"]), ("a_mut", ["*$r == $o0.a", "*final($r) == $n0.a", "$n0.b == $o0.b"])): lwe.lwe_fn(v, f, post=p)
    M = "kdim(*self)"
    K = "self.key@.len()"
    PS = "its(iter@)"
    h(v, "key_switch_inner", pre=["kwf($0)", "$1 == kdim($0)", "nlz($2, kdim($0))", "itw($3@, kdim($0))", "$3@.len() == $0.key@.len()"],
      post=["lwf($r)", "$r.a@.len() == $0.lwe_dimension", "forall|s: Seq<int>| s.len() == kdim($0) && (forall|i: int| $0.lwe_dimension <= i < s.len() ==> #[trigger] s[i] == 0) ==> ph($r, s.take($0.lwe_dimension as int)) == #[trigger] kph($0, pv($2.a.data@), pv($2.b.data@), its($3@), s)[0]"],
      loops={0: dict(before="let ghost i0 = init;", inv=["0 <= __i0 <= __n0", "__n0 == self.key@.len()", "iter@.len() == __n0", "kwf(*self)", "itw(iter@, %s)" % M, "nlz(init, %s)" % M, "polynomial_space.space.data@.len() == " + M, "decompose_space.space.data@.len() == " + M,
          "pv(init.a.data@) == kacca(*self, pv(i0.a.data@), its(iter@), __i0 as nat)", "pv(init.b.data@) == kaccb(*self, pv(i0.b.data@), its(iter@), __i0 as nat)"],
          head="assert(ng(self.key@[__i0 as int], %s)); assert(wf(iter@[__i0 as int]@)); lemma_kacc_len(*self, pv(i0.a.data@), pv(i0.b.data@), its(iter@), __i0 as nat);" % M)})
    W = ["kwf($0)", "$0.key@.len() >= 1"]
    RES = lambda x, b: ["swall($0, %s, %s, $r)" % (x, b)]
    end = lambda x, b: "assert forall|s: Seq<int>, zz: Seq<int>, e: Seq<Seq<Seq<int>>>| #[trigger] kenc(*self, s, zz, e) implies switched(*self, %s, %s, $R, s, zz, e) by { lemma_switch(*self, %s, %s, $R, s, zz, e); }" % (x, b, x, b)
    st = r"self \. key_switch_inner"
    x = "exm(pv(__g1.a.data@))"
    X = lambda y, **d: {k: [z.replace("~X", y) for z in q] if isinstance(q, list) else q.replace("~X", y) for k, q in d.items()}
    base = ["kwf(*self)", "0 <= __i0 <= __n0", "__n0 == " + K, "$l0 == " + M, "a@.len() == a1.len()", "a1.len() == %s * %s" % (K, M), "wf(a1)", "forall|c: int| __i0 <= c < __n0 ==> #[trigger] same(a@, a1, %s, c)" % M, "forall|c: int| 0 <= c < __i0 ==> #[trigger] chk(a@, ~X, %s, c)" % M]
    v.text("""
#[verifier::external_body]
pub fn vchunkv(v: &mut Vec<Fe>, i: usize, n: usize) -> (r: &mut [Fe])
    requires n > 0, (i + 1) * n <= old(v)@.len(),
    ensures r@ == old(v)@.subrange(i * n, (i + 1) * n), final(r)@.len() == n, final(v)@ == old(v)@.subrange(0, i * n) + final(r)@ + old(v)@.subrange((i + 1) * n, old(v)@.len() as int),
{ &mut v[i * n..(i + 1) * n] }
""")
    hd = "lemma_chunkin(__i0 as int, __n0 as int, %s as int); assert(same(a@, a1, %s, __i0 as int)); " % (M, M)
    hints = "lemma_div_multiples_vanish(%s as int, %s as int); assert(%s as int * (%s as int) == (%s * %s) as int) by (nonlinear_arith); " % (K, M, M, K, K, M)
    after = "lemma_allwf(a@, ~X, %s, %s);" % (M, K)
    fin = "lemma_allchk(%%s, ~X, %s, %s, iter@);" % (M, K)
    tail = lambda lem: "lemma_chunkset(ab, chunk@, a@, %s, %s, __i0 - 1); assert forall|c: int| __i0 <= c < __n0 implies #[trigger] same(a@, a1, %s, c) by { assert(same(ab, a1, %s, c)); } %s assert(chk(a@, ~X, %s, __i0 - 1)); assert forall|c: int| 0 <= c < __i0 implies #[trigger] chk(a@, ~X, %s, c) by { if c < __i0 - 1 { assert(chk(ab, ~X, %s, c)); } }" % (M, K, M, M, lem, M, M, M)
    N = "(%s * %s)" % (K, M)
    sw = "forall|s: Seq<int>, zz: Seq<int>, e: Seq<Seq<Seq<int>>>| #[trigger] kenc(self0, s, zz, e) ==> ph($r, s.take(self0.lwe_dimension as int)) == (rph($1, zz)[0] + knoise(self0, pchs(exm(pv($1.a.data@)), kdim(self0), self0.key@.len()), e, self0.key@.len())) % P()"
    IT = lambda c: [(r"self \. key_switch_inner", "proof {" + c + "} self . key_switch_inner")]
    ini = lambda b: "assert(pv(init.a.data@) =~= pzero(%s)); assert(pv(init.b.data@) =~= cst(%s, %s)); " % (M, M, b)
    one = "if __g1.a.data@.len() == %s { assert(%s == 1) by (nonlinear_arith) requires %s * %s == %s, %s >= 1; lemma_exm0(__g1.a.data@); } " % (M, K, K, M, M, M)
    e2 = " assert " + sw.replace("self0", "(*self)").replace("==>", "implies", 1).replace("$1", "__g1").replace("$r", "$R") + " by { assert(switched(*self, %s, fv(__g1.b.data@[0]), $R, s, zz, e)); lemma_exph(__g1, zz); }" % x
    h(v, "key_switch_for_rlwe", pre=W + ["rwf($1, $0.key@.len() * kdim($0))"], post=RES("exm(pv($1.a.data@))", "fv($1.b.data@[0])") + [sw.replace("self0", "$0")],
      hints=hints + "lemma_pos(%s as int, %s as int);" % (K, M), loops={0: X(x, before="let ghost a1 = a@; proof { lemma_exm1(__g1.a.data@, a1); }", inv=base + ["isres(~X)", "(~X).len() == a1.len()", "forall|j: int| 0 <= j < a1.len() ==> fv(#[trigger] a1[j]) == fneg((~X)[j])"], head=hd, ghost="let ghost ab = a@;", tail=tail("lemma_ringchunk(a1, chunk@, ~X, %s, %s, __i0 - 1);" % (M, K)), after=after)}, end=end(x, "fv(__g1.b.data@[0])") + e2, body_subst=IT(ini("fv(__g1.b.data@[0])") + one + fin.replace("~X", x) % "ciphertext.a.data@"))
    neg = lambda a, c: ["0 <= __i~K <= __n~K", "__lo~K_0 == 1", "__n~K == %s - 1" % M, "$l0 == " + M, "%s@.len() == %s" % (a, M), "%s.len() == %s" % (c, M), "wf(%s)" % c, "%s@[0] == %s[0]" % (a, c), "%s >= 1" % M,
        "forall|j: int| __i~K < j < %s ==> #[trigger] %s@[j] == %s[%s - j]" % (M, a, c, M), "forall|j: int| 1 <= j <= __i~K ==> canon(#[trigger] %s@[j]) && fv(%s@[j]) == fneg(fv(%s[%s - j]))" % (a, a, c, M)]
    L = lambda k, a, c, **d: dict(d, inv=[z.replace("~K", str(k)) for z in neg(a, c)])
    fin2 = "if __g1.a@.len() == %s { assert(%s == 1) by (nonlinear_arith) requires %s * %s == %s, %s >= 1; lemma_chunkone(ciphertext.a@, __g1.a@); } " % (M, K, K, M, M, M) + fin.replace("~X", "pv(__g1.a@)") % "ciphertext.a@"
    h(v, "key_switch_for_lwe", pre=W + ["lwf($1)", "$1.a@.len() == $0.key@.len() * kdim($0)"], post=RES("pv($1.a@)", "fv($1.b)"),
      hints=hints, loops={0: X("pv(__g1.a@)", before="let ghost a1 = a@;", inv=base + ["a1 == __g1.a@"], head=hd, ghost="let ghost ab = a@;", tail=tail("lemma_lwechunk(a1, chunk@, %s, %s, __i0 - 1);" % (M, K)), after=after), 1: L(1, "chunk", "c1", before="let ghost c1 = a1.subrange((__i0 - 1) * %s, __i0 * %s); proof { assert(wf(c1)); }" % (M, M)), 2: L(2, "a", "__g1.a@", after="lemma_lwechunk(__g1.a@, a@, %s, 1, 0); assert(wf(a@));" % M)}, end=end("pv(__g1.a@)", "fv(__g1.b)"), body_subst=LW + IT(ini("fv(__g1.b)") + fin2))
def gen(v):
    v.include("rgswgen.rs"); v.include("ksrgen.rs")
    ts = [(r"(\w+)\s*<\s*F\s*>", r"\1"), (r"\bNTTRingSecretKey\s*<[^<>]*>", "NTTPolynomial"), (r"\bRingSecretKey\s*<[^<>]*>", "Polynomial"), (r"(Parameters|BlindRotationParameters|LWEParameters|SecretKeyPack)\s*<[^<>]*>", r"\1"), (r"\bBasis\s*<[^<>]*>", "Basis"), (r"\bC\b", "Cm"), (r"\bQ\s*::\s*Value\b", "Val"), (r"<\s*Q\s+as\s+Field\s*>\s*::\s*Value", "Val")]
    A = "#[derive(Clone, Copy)]"
    v.struct("LWEParameters", crate="fhe_core", tysub=ts, attrs=A, drop=("secret_key_type",))
    v.struct("BlindRotationParameters", crate="fhe_core", tysub=ts, attrs=A, drop=("secret_key_type",))
    v.struct("KeySwitchingParameters", crate="fhe_core", tysub=ts, attrs=A)
    v.struct("Parameters", crate="fhe_core", tysub=ts, attrs=A, drop=("steps",))
    v.struct("SecretKeyPack", crate="fhe_core", tysub=ts, attrs="")
    k = dict(crate="fhe_core", subst={"C": "Cm", "Q": "Fe", "F": "Fe", "R": "Rn", "Rng": "Rn"}, tysub=TY + ts + GT + [(r"KeySwitchingRLWEKey\s*<[^>]*>", "KeySwitchingRLWEKey")], vecs=dict(gadget.VECS), free=True)
    Pm = "Parameters<Cm, Fe>"
    for f, e in (("lwe_dimension", "lwe_params.dimension"), ("ring_dimension", "blind_rotation_params.dimension"), ("key_switching_basis_bits", "key_switching_params.basis_bits"), ("key_switching_noise_standard_deviation", "key_switching_params.noise_standard_deviation")):
        v.fn(Pm, f, method_of="Parameters", post="$r == $0." + e, **k)
    v.fn(Pm, "key_switching_noise_distribution_for_ring", method_of="Parameters", post="$r == chif(0.0f64, $0.key_switching_params.noise_standard_deviation)", **k)
    SK = "SecretKeyPack<Cm, Fe>"
    v.fn(SK, "lwe_secret_key", method_of="SecretKeyPack", post="$r@ == $0.lwe_secret_key@", **k)
    v.fn(SK, "ring_secret_key", method_of="SecretKeyPack", post="*$r == $0.ring_secret_key", **k)
    v.fn(SK, "ntt_ring_secret_key", method_of="SecretKeyPack", post="*$r == $0.ntt_ring_secret_key", **k)
    v.fn(SK, "parameters", method_of="SecretKeyPack", post="*$r == $0.parameters", **k)
    v.fn("Polynomial<Fe>", "resize", crate="algebra", subst=poly.SUB, env=dict(SELF="Polynomial"), tysub=gadget.TY + [(r"self\s*\.\s*data\s*\.\s*resize\s*\(", "vresize(&mut self.data, ")], vecs=dict(gadget.VECS), free=True, method_of="Polynomial",
         post=["$n0.data@ == resized($o0.data@, $1 as nat, $2)"])
    D, L, RS, NS = "secret_key_pack.parameters.lwe_params.dimension", "secret_key_pack.lwe_secret_key@", "secret_key_pack.ring_secret_key.data@", "secret_key_pack.ntt_ring_secret_key.data@"
    p0 = lambda x: x.replace("secret_key_pack", "$0")
    M = "np2(%s as nat)" % D
    pre = ["ringn(%s)" % M, "1 <= %s <= %s" % (D, M), "%s.len() == %s" % (L, D), "wf(%s)" % RS, "%s.len() == secret_key_pack.parameters.blind_rotation_params.dimension" % RS, "%s.len() %% %s == 0" % (RS, M), "%s <= %s.len()" % (M, RS), "%s.len() == %s.len()" % (NS, RS), "wf(%s)" % NS, "pv(%s) == ntt(pv(%s))" % (NS, RS), "1 <= secret_key_pack.parameters.key_switching_params.basis_bits < 64"]
    S = "ntt(lsk(%s, %s))" % (L, M)
    B = "key_switching_basis.bits as nat"
    com = ["bok(key_switching_basis)", "len == key_switching_basis.decompose_len", "canon(basis)", "fv(basis) == vv(key_switching_basis.basis) % P()", "wf(lwe_sk.data@)", "lwe_sk.data@.len() == " + M, "pv(lwe_sk.data@) == " + S, "ringn(%s)" % M, "chi == kchi(*secret_key_pack)", "key_switching_basis.bits == secret_key_pack.parameters.key_switching_params.basis_bits"]
    def rows(k, sk, Z, more=()):
        a = "__acc%d" % k
        pos = "if __i%d < len { __i%d as nat } else { (len - 1) as nat }" % (k, k)
        t = "pv(sk0.data@)"
        return dict(accty="Vec<NTTRLWE>", ghost="let ghost sk0 = %s;" % sk,
            after="lemma_nall(%s@, %s, %s, chi, %s);" % (a, S, Z, B),
            inv=["0 <= __i%d <= __n%d" % (k, k), "__n%d == len" % k, "%s@.len() == __i%d" % (a, k), "wf(%s.data@)" % sk, "%s.data@.len() == %s" % (sk, M), "%s.len() == %s" % (Z, M), "pv(%s.data@) == bpow(%s, %s, %s)" % (sk, Z, B, pos), "nall(%s@, %s, %s, chi, %s)" % (a, S, Z, B)] + com + list(more),
            head="axiom_p();",
            tail="let y = %s@[__i%d - 1]; lemma_bnext(%s, %s, (__i%d - 1) as nat, vv(key_switching_basis.basis)); lemma_pv(sk0.data@); assert forall|x: NTTRLWE| #[trigger] nsmp(x, %s, pzero(%s), chi) && y.a == x.a && wf(y.b.data@) && y.b.data@.len() == x.b.data@.len() && pv(y.b.data@) == padd(pv(x.b.data@), %s) implies nsmp(y, %s, bpow(%s, %s, (__i%d - 1) as nat), chi) by { axiom_ntt(lsk(%s, %s), lsk(%s, %s)); lemma_row_body(pv(x.a.data@), pv(x.b.data@), pv(y.b.data@), %s, %s, chi); }" % (a, k, Z, B, k, S, M, t, S, Z, B, k, L, M, L, M, S, t))
    Z = lambda c: "ntt(pv(%s.subrange(%s * %s, (%s + 1) * %s)))" % (RS, c, M, c, M)
    one = "pv(%s)" % NS
    v.fn("KeySwitchingRLWEKey<Fe>", "generate", method_of="KeySwitchingRLWEKey", pre=[p0(x) for x in pre], post=["$r.lwe_dimension == $0.parameters.lwe_params.dimension", "kgen($r, $0)"],
        hints="axiom_p(); axiom_ntt(lsk(%s, %s), lsk(%s, %s)); lemma_lsk(%s, %s); lemma_div_pos_is_pos(%s.len() as int, %s as int); lemma_fundamental_div_mod(%s.len() as int, %s as int); lemma_qm(%s.len() as int, %s as int);" % (L, M, L, M, L, M, RS, M, RS, M, RS, M)
            + "assert forall|x: Seq<Fe>| skx(x, %s, %s) implies #[trigger] pv(x) == lsk(%s, %s) by { assert(pv(x) =~= lsk(%s, %s)); }" % (L, M, L, M, L, M),
        loops={0: dict(accty="Vec<Fe>", inv=["0 <= __i0 <= __n0", "__n0 == %s.len()" % L, "__s0_0@ == " + L, "__acc0@.len() == __i0", "forall|i: int| 0 <= i < __i0 ==> canon(#[trigger] __acc0@[i]) && fv(__acc0@[i]) == lift(%s[i])" % L], head="axiom_p();",
                 after="lemma_lskz(__acc0@, %s, %s);" % (L, M)),
               1: dict(rows(1, "sk", one), before="lemma_bnext(%s, %s, 0, vv(key_switching_basis.basis)); lemma_power(%s, len as nat, 0); axiom_ntt(pv(%s), pv(%s));" % (one, B, B, RS, RS)),
               2: dict(accty="Vec<Polynomial>", inv=["0 <= __i2 <= __n2", "extended_lwe_dimension == " + M, "extended_lwe_dimension >= 1", "__s2_0@ == " + RS, "wf(%s)" % RS, "__n2 == %s.len() / %s" % (RS, M), "%s.len() == __n2 * %s" % (RS, M), "__acc2@.len() == __i2", "forall|c: int| 0 <= c < __i2 ==> (#[trigger] __acc2@[c]).data@ == %s.subrange(c * %s, (c + 1) * %s) && wf(__acc2@[c].data@) && __acc2@[c].data@.len() == %s" % (RS, M, M, M)],
                     head="lemma_chunkin(__i2 as int, __n2 as int, %s as int);" % M),
               3: dict(accty="Vec<NTTGadgetRLWE>", inv=["0 <= __i3 <= __n3", "__n3 == key_chunks@.len()", "__acc3@.len() == __i3", "%s >= 1" % M, "__n3 == %s.len() / %s" % (RS, M), "%s.len() == __n3 * %s" % (RS, M), "wf(%s)" % RS, "forall|c: int| 0 <= c < __n3 ==> (#[trigger] key_chunks@[c]).data@ == %s.subrange(c * %s, (c + 1) * %s) && wf(key_chunks@[c].data@) && key_chunks@[c].data@.len() == %s" % (RS, M, M, M), "krows(__acc3@, %s, %s, %s, chi, secret_key_pack.parameters.key_switching_params.basis_bits as nat)" % (S, RS, M)] + com,
                   ghost="let ghost zc = %s;" % Z("__i3"), head="axiom_ntt(pv(key_chunks@[__i3 as int].data@), pv(key_chunks@[__i3 as int].data@)); lemma_pv(key_chunks@[__i3 as int].data@); lemma_bnext(zc, %s, 0, vv(key_switching_basis.basis)); lemma_power(%s, len as nat, 0);" % (B, B), tail="assert(krow(__acc3@[__i3 - 1], %s, zc, chi, %s));" % (S, B)), 4: rows(4, "ntt_z", "zc", ["zc.len() == " + M])},
        end="if %s.len() == %s { lemma_div_by_self(%s as int); assert($R.key@.len() == 1); assert(krow($R.key@[0], %s, ntt(pv(%s)), kchi(*secret_key_pack), secret_key_pack.parameters.key_switching_params.basis_bits as nat)); lemma_krow1($R.key@, %s, %s, %s, kchi(*secret_key_pack), secret_key_pack.parameters.key_switching_params.basis_bits as nat); } lemma_kgen($R, *secret_key_pack);" % (RS, M, M, S, RS, S, RS, M),
        body_subst=[(r"\*\s*(\w+)\s*==\s*Cm\s*::\s*ZERO", r"\1.is_zero()"), (r"\*\s*(\w+)\s*==\s*Cm\s*::\s*ONE", r"\1.is_one()"), (r"\b(\w+)\s*\.\s*into_ntt_polynomial", r"(\1.clone()).into_ntt_polynomial")], **k)
GT = [(r"(?:(?:::\s*)?alloc\s*::\s*)?boxed\s*::\s*box_assume_init_into_vec_unsafe\s*\(", "vlit("), (r"(?:(?:::\s*)?alloc\s*::\s*)?intrinsics\s*::\s*write_box_via_move\s*\(", "("), (r"\bwrite_box_via_move\s*\(", "("), (r"(?:(?:::\s*)?alloc\s*::\s*)?(?:boxed\s*::\s*)?Box\s*::\s*new_uninit\s*\(\s*\)\s*,", ""), (r"(?:(?:::\s*)?alloc\s*::\s*)?box_assume_init_into_vec_unsafe\s*\(", "vlit("), (r"FieldDiscreteGaussianSampler\s*::\s*new\s*\(", "vgaussf("), (r"\bGs\s*::\s*new\s*\(", "vgaussf("), (r"\.\s*unwrap\s*\(\s*\)", "")]
def build(generate=True):
    v = VFile("c20_rlwe"); gadget.base(v); rlwe.extract(v); rows.gen(v)
    v.struct("KeySwitchingRLWEKey", tysub=[(r"\bQ\b", "Fe"), (r"NTTGadgetRLWE\s*<\s*Fe\s*>", "NTTGadgetRLWE")], attrs="", **FC)
    v.include("ksrlwe.rs")
    switch(v)
    if generate: gen(v)
    v.roots = {"key_switch_inner", "key_switch_for_rlwe", "key_switch_for_lwe", "thm_exact"} | ({"generate", "generate_and_switch"} if generate else set()); return [v]
def t(): return build(True)[0]
