"""generation of gadget rows (C16), bootstrapping keys (C22): arbitrary random source"""
from common import *
import gadget, poly
from vlib import VFile
TY = [(r"\bFieldDiscreteGaussianSampler\b", "Gs"), (r"\b(r|e)\s*\.\s*([ab])_mut_slice\s*\(\s*\)\s*\[\s*0\s*\]", r"\1.\2.data[0]"), (r"\be\s*\[\s*0\s*\]", "e.data[0]")]
def h(v, n, name, ty=(), **k):
    return v.fn(n + "<Fe>", name, crate="lattice", subst=dict(poly.SUB, R="Rn"), env=dict(SELF=n), tysub=gadget.TY + TY + list(ty), vecs=dict(gadget.VECS), free=True, method_of=n, **k)
def gen(v):
    v.include("rows.rs")
    S = "pv($0.data@)"
    N = "$0.data@.len()"
    pre = ["wf($0.data@)", "ringn(%s)" % N]
    hints = "lemma_rp(%s); lemma_pv($0.data@); lemma_bzero(%s, 1, 0);" % (N, N)
    h(v, "RLWE", "generate_random_zero_sample", pre=pre, post=["rsmp($r, %s, pzero(%s), $1)" % (S, N)], hints=hints,
      end="assert forall|e: Seq<int>| #[trigger] esup($1, e, %s) && pv($R.b.data@) == padd(e, intt(pmul(ntt(pv($R.a.data@)), %s))) implies rsmp($R, %s, pzero(%s), $1) by { lemma_rzero($R, e, %s, $1); }" % (N, S, S, N, S))
    h(v, "NTTRLWE", "generate_random_zero_sample", pre=pre, post=["nsmp($r, %s, pzero(%s), $1)" % (S, N)], hints=hints,
      end="assert forall|e: Seq<int>| #[trigger] esup($1, e, %s) && pv($R.b.data@) == paddmul(ntt(e), pv($R.a.data@), %s) implies nsmp($R, %s, pzero(%s), $1) by { lemma_nzero($R, e, %s, $1); }" % (N, S, S, N, S))
    h(v, "NTTRLWE", "generate_random_value_sample", pre=pre + ["canon($1)"], post=["nsmp($r, %s, pscale(ones(%s), fv($1)), $2)" % (S, N)], hints=hints,
      end="assert forall|e: Polynomial, f: Polynomial| #![trigger esup($2, pv(e.data@), %s), ntt(pv(f.data@))] wf(e.data@) && e.data@.len() == %s && esup($2, pv(e.data@), %s) && bump(e.data, f.data, fv($1)) && pv($R.b.data@) == paddmul(ntt(pv(f.data@)), pv($R.a.data@), %s) implies nsmp($R, %s, pscale(ones(%s), fv($1)), $2) by { lemma_nvalue($R, e.data, f.data, %s, fv($1), $2); }" % (N, N, N, S, S, N, S))
    B = "$1.bits as nat"
    J = "len as nat"
    ok = pre + ["wfb($1)", "vv($1.basis) == pow2(%s)" % B, "$1.bits >= 1"]
    for n, el, k in (("GadgetRLWE", "RLWE", "r"), ("NTTGadgetRLWE", "NTTRLWE", "n")):
        smp, al = k + "smp", k + "all"
        h(v, n, "generate_random_zero_sample", pre=ok, post=["$r.basis == $1", "%sg($r, %s)" % (k, N), "%s($r.data@, %s, pzero(%s), $2, %s)" % (al, S, N, B)], hints=hints,
          loops={0: dict(accty="Vec<%s>" % el, inv=["0 <= __i0 <= __n0", "__n0 == $1.decompose_len", "__acc0@.len() == __i0", "%s(__acc0@, %s, pzero(%s), $2, %s)" % (al, S, N, B)] + ok, head="lemma_bzero(%s, %s, __i0 as nat);" % (N, B))},
          end="lemma_%s($R.data@, %s, pzero(%s), $2, %s);" % (al, S, N, B))
        for f, m, lem in (("one", "ones(%s)" % N, "body" if k == "r" else None), ("neg_secret", "pneg(%s)" % S, "mask")):
            C = "pow2((%s * ~) as nat) as int" % B
            row = "%s(~Y, %s, pscale(%s, ~C), $2)" % (smp, S, m)
            def step(y, j):
                c = C.replace("~", j)
                if lem is None: return ""
                upd = {"rbody": "y.a == x.a && bump(x.b.data, y.b.data, %s)", "rmask": "y.b == x.b && bump(x.a.data, y.a.data, %s)", "nmask": "y.b == x.b && shifted(x.a.data, y.a.data, %s)"}[k + lem] % c
                return "let y = %s; assert forall|x: %s| #[trigger] %s(x, %s, pzero(%s), $2) && (%s) implies %s by { lemma_%s%s(x, y, %s, %s, $2); }" % (y, el, smp, S, N, upd, row.replace("~C", c).replace("~Y", "y"), k, lem, S, c)
            pw = "lemma_power(%s, $1.decompose_len as nat, %s);"
            inner = {}
            if k == "n" and lem:
                for q in (1, 2):
                    inner[q] = dict(before="let ghost x%d = __s%d_0@;" % (q, q), inv=["0 <= __i@ <= __n@", "__n@ == x@.len()", "__s@_0~.len() == __n@", "canon(basis_power)", "wf(x@)", "forall|j: int| __i@ <= j < __n@ ==> #[trigger] __s@_0~[j] == x@[j]", "forall|j: int| 0 <= j < __i@ ==> canon(#[trigger] __s@_0~[j]) && fv(__s@_0~[j]) == fadd(fv(x@[j]), fv(basis_power))"])
                    inner[q]["inv"] = [z.replace("@", str(q)).replace("~", "@") for z in inner[q]["inv"]]
            h(v, n, "generate_random_%s_sample" % f, ty=[(r"let mut data = Vec ::", "let mut data : Vec<%s> = Vec ::" % el)], pre=ok, post=["$r.basis == $1", "%sg($r, %s)" % (k, N), "%s($r.data@, %s, %s, $2, %s)" % (al, S, m, B)], hints=hints + "axiom_vm(); " + pw % (B, "0"),
              loops={**inner, 0: dict(inv=["0 <= __i0 <= __n0", "__n0 == len - 1", "len == $1.decompose_len", "basis_value == $1.basis", "data@.len() == __i0", "canon(basis_power)", "fv(basis_power) == " + C.replace("~", "__i0"), "%s(data@, %s, %s, $2, %s)" % (al, S, m, B)] + ok,
                             head="axiom_vm(); lemma_rp(%s); " % N + pw % (B, "__i0 as nat") + pw % (B, "(__i0 + 1) as nat"), tail=step("data@[__i0 - 1]", "(__i0 - 1)"))},
              end=step("$R.data@[$R.data@.len() - 1]", "($R.data@.len() - 1)") + "lemma_%s($R.data@, %s, %s, $2, %s);" % (al, S, m, B))
def rgsw(v):
    v.include("rgswgen.rs")
    N, S = "$0.data@.len()", "pv($0.data@)"
    for n, k in (("RGSW", "r"), ("NTTRGSW", "n")):
        for f, on in (("zero", "false"), ("one", "true")):
            h(v, n, "generate_random_%s_sample" % f, pre=["wf($0.data@)", "ringn(%s)" % N, "bok($1)"], post=["%skey($r, %s, %s, $2, $1)" % (k, S, on)], hints="lemma_pv($0.data@);")
def keys(v):
    """needs blind.file"""
    import blind
    v.include("keygen.rs")
    ts = [(r"(\w+)\s*<\s*F\s*>", r"\1"), (r"\bNTTRingSecretKey\s*<[^<>]*>", "NTTPolynomial"), (r"\bRingSecretKey\s*<[^<>]*>", "Polynomial"), (r"(Parameters|BlindRotationParameters|LWEParameters|SecretKeyPack)\s*<[^<>]*>", r"\1"), (r"\bBasis\s*<[^<>]*>", "Basis"), (r"\bC\b", "Cm"), (r"\bQ\s*::\s*Value\b", "Val"), (r"<\s*Q\s+as\s+Field\s*>\s*::\s*Value", "Val")]
    A = "#[derive(Clone, Copy)]"
    v.text("#[derive(Clone, Copy)] pub enum LWESecretKeyType { Binary, Ternary }\n")
    v.struct("LWEParameters", crate="fhe_core", tysub=ts, attrs=A)
    v.struct("BlindRotationParameters", crate="fhe_core", tysub=ts, attrs=A, drop=("secret_key_type",))
    v.struct("Parameters", crate="fhe_core", tysub=ts, attrs=A, drop=("key_switching_params", "steps"))
    v.struct("SecretKeyPack", crate="fhe_core", tysub=ts, attrs="", drop=("ring_secret_key",))
    t2 = blind.TY + TY + ts + [(r"FieldDiscreteGaussianSampler\s*::\s*new\s*\(", "vgaussf("), (r"\bGs\s*::\s*new\s*\(", "vgaussf("), (r"\.\s*unwrap\s*\(\s*\)", "")]
    k = dict(crate="fhe_core", subst={"C": "Cm", "Q": "Fe", "F": "Fe", "R": "Rn", "Rng": "Rn"}, tysub=t2, vecs=dict(poly.VECS), free=True)
    Pm = "Parameters<Cm, Fe>"
    for f, e in (("lwe_secret_key_type", "lwe_params.secret_key_type"), ("blind_rotation_basis", "blind_rotation_params.basis"), ("ring_noise_standard_deviation", "blind_rotation_params.noise_standard_deviation")):
        v.fn(Pm, f, method_of="Parameters", post="$r == $0." + e, **k)
    v.fn(Pm, "ring_noise_distribution", method_of="Parameters", post="$r == chif(0.0f64, $0.blind_rotation_params.noise_standard_deviation)", **k)
    SK = "SecretKeyPack<Cm, Fe>"
    v.fn(SK, "lwe_secret_key", method_of="SecretKeyPack", post="$r@ == $0.lwe_secret_key@", **k)
    v.fn(SK, "ntt_ring_secret_key", method_of="SecretKeyPack", post="*$r == $0.ntt_ring_secret_key", **k)
    v.fn(SK, "parameters", method_of="SecretKeyPack", post="*$r == $0.parameters", **k)
    pre = ["wf($1.data@)", "ringn($1.data@.len())", "bok($2)"]
    S = "pv($1.data@)"
    for n, g, el, row in (("BinaryBlindRotationKey", "genb", "NTTRGSW", "nkey(#[trigger] __acc0@[i], %s, zbin($0@[i]) == 1, $3, $2)" % S), ("TernaryBlindRotationKey", "gent", "(NTTRGSW, NTTRGSW)", "nkey((#[trigger] __acc0@[i]).0, %s, ztern($0@[i]) == 1, $3, $2) && nkey(__acc0@[i].1, %s, ztern($0@[i]) == -1, $3, $2)" % (S, S))):
        if n[0] == "B": v.fn(n + "<Fe>", "new", method_of=n, post="$r.key == $0", **k)
        v.fn(n + "<Fe>", "generate", method_of=n, pre=pre, post=["%s($r.key@, $0@, %s, $3, $2)".replace("$0@", "$0") % (g, S)],
             loops={0: dict(accty="Vec<%s>" % el, inv=["0 <= __i0 <= __n0", "__n0 == $0@.len()", "__acc0@.len() == __i0", "forall|i: int| 0 <= i < __i0 ==> " + row] + pre)}, **k)
    P = "$0.parameters"
    v.text("""
/// the key generated for a pack: rows of the messages the secret prescribes, errors of the ring's distribution
pub open spec fn gena(k: BlindRotationKey, p: SecretKeyPack) -> bool {
    let (l, s, d, b) = (p.lwe_secret_key@, pv(p.ntt_ring_secret_key.data@), chif(0.0f64, p.parameters.blind_rotation_params.noise_standard_deviation), p.parameters.blind_rotation_params.basis);
    match p.parameters.lwe_params.secret_key_type {
        LWESecretKeyType::Binary => match k { BlindRotationKey::Binary(x) => genb(x.key@, l, s, d, b), _ => false },
        LWESecretKeyType::Ternary => match k { BlindRotationKey::Ternary(x) => gent(x.key@, l, s, d, b), _ => false },
    }
}
pub open spec fn zof(p: SecretKeyPack) -> Seq<int> { match p.parameters.lwe_params.secret_key_type { LWESecretKeyType::Binary => zb(p.lwe_secret_key@), LWESecretKeyType::Ternary => zt(p.lwe_secret_key@) } }
pub open spec fn chiof(p: SecretKeyPack) -> Gs { chif(0.0f64, p.parameters.blind_rotation_params.noise_standard_deviation) }
pub proof fn thm_akey(k: BlindRotationKey, p: SecretKeyPack, s: Seq<int>)
    requires gena(k, p), silent(chiof(p)), isres(s), ringn(s.len()), pv(p.ntt_ring_secret_key.data@) == ntt(s), bok(p.parameters.blind_rotation_params.basis),
    ensures akey(k, s, zof(p), s.len()), kok(k, s.len(), p.lwe_secret_key@.len(), p.parameters.blind_rotation_params.basis),
{
    let (l, d, b) = (p.lwe_secret_key@, chiof(p), p.parameters.blind_rotation_params.basis);
    axiom_ntt(s, s);
    match k {
        BlindRotationKey::Binary(x) => { thm_bkey(x.key@, l, s, d, b); assert forall|i: int| 0 <= i < x.key@.len() implies nttrgsww(#[trigger] x.key@[i], s.len()) by { assert(nkey(x.key@[i], ntt(s), zbin(l[i]) == 1, d, b)); } },
        BlindRotationKey::Ternary(x) => { thm_tkey(x.key@, l, s, d, b); },
    }
}
""")
    v.fn("BlindRotationKey<Fe>", "generate", method_of="BlindRotationKey", pre=["wf($0.ntt_ring_secret_key.data@)", "ringn($0.ntt_ring_secret_key.data@.len())", "bok(%s.blind_rotation_params.basis)" % P], post=["gena($r, $0)"], **k)
    v.text("""
/// generation followed by rotation, by the contracts alone: with errors that are all zero the look-up polynomial is rotated by the phase
pub fn generate_and_rotate(p: &SecretKeyPack, lut: Polynomial, lwe: &LWEC, rng: &mut Rn, Ghost(s): Ghost<Seq<int>>) -> (r: RLWE)
    requires wf(p.ntt_ring_secret_key.data@), isres(s), ringn(s.len()), pv(p.ntt_ring_secret_key.data@) == ntt(s), p.ntt_ring_secret_key.data@.len() == s.len(), bok(p.parameters.blind_rotation_params.basis), silent(chiof(*p)),
        wf(lut.data@), lut.data@.len() == s.len(), s.len() <= 0x2000_0000_0000_0000, lwe.a@.len() == p.lwe_secret_key@.len(), cv(lwe.b) < 2 * s.len(), forall|i: int| 0 <= i < lwe.a@.len() ==> cv(#[trigger] lwe.a@[i]) < 2 * s.len(),
    ensures rwf(r, s.len()), rph(r, s) == xmul(pv(lut.data@), rot(s.len() as int, cv(lwe.b) as int, lwe.a@, zof(*p), lwe.a@.len())),
{
    let k = BlindRotationKey::generate(p, rng);
    proof { thm_akey(k, *p, s); }
    k.blind_rotate(lut, lwe, p.parameters().blind_rotation_basis())
}
""")
ROOTS = {"generate_random_zero_sample", "generate_random_value_sample", "generate_random_one_sample", "generate_random_neg_secret_sample", "lemma_noiseless"}
def t():
    v = VFile("c16_rows_t"); gadget.base(v); gen(v); rgsw(v); v.roots = ROOTS; return v
def build():
    v = VFile("c16_rows"); gadget.base(v); gen(v); rgsw(v); v.roots = ROOTS; return [v]
def kt(name="c22_key_t"):
    import blind
    v = blind.file(name); gen(v); rgsw(v); keys(v)
    v.roots = {"blind_rotate", "lemma_const", "generate", "thm_akey", "generate_and_rotate"}
    return v
def kbuild():
    return [kt("c22_key")]
