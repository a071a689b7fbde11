"""C18: secret-key encryption and decryption"""
from common import *
import plain, pow2mod, expdot
from vlib import VFile
FC = dict(crate="fhe_core")
def lwe(v, w):
    v.struct("LWE", crate="lattice", tysub=[(r"\bT\b", w["T"])], attrs="")
    k = dict(crate="lattice", subst={"T": "$T"}, env=w, free=True, method_of="LWE", tysub=[(r"LWE\s*<\s*\w+\s*>", "LWE"), (r"self\s*\.\s*a\s*\.\s*as_ref\s*\(\s*\)", "self.a.as_slice()")])
    v.fn("LWE<$T>", "a", post=["$r@ == $0.a@"], **k)
    v.fn("LWE<$T>", "b", post=["$r == $0.b"], **k)
    v.fn("LWE<$T>", "b_mut", post=["*$r == $o0.b", "*final($r) == $n0.b", "$n0.a == $o0.a"], **k)
TY = [(r"Parameters\s*<[^>]*>", "Parameters"), (r"LWECiphertext\s*<[^>]*>", "LWE"), (r"LWECiphertext\b", "LWE"), (r"DiscreteGaussian\s*<[^>]*>", "Dg"), (r"DiscreteGaussian\s*::\s*new\s*\(", "vgauss ("), (r"\.\s*unwrap\s*\(\s*\)", ""),
      (r"SecretKeyPack\s*<[^>]*>", "SecretKeyPack"), (r"LWEParameters\s*<[^>]*>", "LWEParameters")]
def params(v, w, ks=False):
    c = [(r"\bC\b", w["T"])] + [(a, b) for a, b in TY]
    v.struct("LWEParameters", tysub=c, drop=("secret_key_type",), attrs="#[derive(Clone, Copy)]", **FC)
    if ks:
        v.struct("KeySwitchingParameters", tysub=c, attrs="#[derive(Clone, Copy)]", **FC)
        c += [(r"RingSecretKey\s*<[^>]*>", "RingPoly")]
        v.text("/// element of the ring's field, as far as key conversion looks at it\n#[verifier::external_body]\npub struct Qe { x: u64 }\npub uninterp spec fn qz(x: Qe) -> bool;\npub uninterp spec fn qo(x: Qe) -> bool;\nimpl Qe {\n#[verifier::external_body]\npub fn is_zero(&self) -> (r: bool) ensures r == qz(*self) { unimplemented!() }\n#[verifier::external_body]\npub fn is_one(&self) -> (r: bool) ensures r == qo(*self) { unimplemented!() }\n}\npub struct RingPoly { pub data: Vec<Qe> }\n")
    v.struct("Parameters", tysub=c, drop=("blind_rotation_params", "steps") + (() if ks else ("key_switching_params",)), attrs="#[derive(Clone, Copy)]", **FC)
    v.struct("SecretKeyPack", tysub=c, drop=("ntt_ring_secret_key",) + (() if ks else ("ring_secret_key",)), attrs="", **FC)
    v.include("secret.rs", w)
    v.fn("LWEModulusType for $T", "to_power_of_2_modulus", env=w, post=["wf2_$T($r)", "$r.mask + 1 == $0"], panics="!is2_$T($0 as int)", **FC)
    k = dict(env=w, subst={"C": "$T", "Q": "Qf"}, tysub=TY, free=True, method_of="Parameters", **FC)
    P = "Parameters<$T, Qf>"
    v.fn(P, "lwe_plain_modulus", post="$r == $0.lwe_params.plain_modulus", **k)
    v.fn(P, "lwe_cipher_modulus_value", post="$r == $0.lwe_params.cipher_modulus", **k)
    v.fn(P, "lwe_cipher_modulus", pre="par($0)", post=["wf2_$T($r)", "$r.mask + 1 == $0.lwe_params.cipher_modulus"], **k)
    v.fn(P, "lwe_noise_standard_deviation", post="$r == $0.lwe_params.noise_standard_deviation", **k)
    if ks:
        v.fn(P, "lwe_dimension", post="$r == $0.lwe_params.dimension", **k)
        v.fn(P, "key_switching_basis_bits", post="$r == $0.key_switching_params.basis_bits", **k)
        v.fn(P, "key_switching_noise_standard_deviation", post="$r == $0.key_switching_params.noise_standard_deviation", **k)
        v.fn(P, "key_switching_noise_distribution_for_lwe", post=["$r == chi($0.key_switching_params.noise_standard_deviation, pq($0))", "dmod($r) == pq($0)"], **k)
    v.fn(P, "lwe_noise_distribution", post=["$r == chi($0.lwe_params.noise_standard_deviation, pq($0))", "dmod($r) == pq($0)"], **k)
def key(v, w, ks=False):
    v.fn("LWE<$T>", "generate_random_zero_sample", env=w, crate="lattice", free=True, method_of="LWE", subst={"T": "$T", "M": "PowOf2Modulus<$T>", "R": "Rn"},
         tysub=TY + [(r"let\s+uniform\s*=\s*Uniform\s*::\s*new\s*\(\s*$T\s*::\s*ZERO\s*,\s*modulus_value\s*\)\s*;".replace("$T", w["T"]), ""), (r"uniform\s*\.\s*sample_iter\s*\(\s*&\s*mut\s*\*\s*rng\s*\)\s*\.\s*take\s*\(\s*len\s*\)\s*\.\s*collect\s*\(\s*\)", "vuniform(modulus_value, rng, len)")],
         pre=["wf2_$T($2)", "$2.mask + 1 == $1", "dmod($3) == $1"],
         post=["$r.a@.len() == $0.len()", "exists|e: int| #[trigger] sup($3, e) && phase($r, $0, $1 as int) == e % ($1 as int)"],
         end=("let q = $1 as int; let d = dsum_$T($R.a@, $0@, $0@.len() as int); assert forall|e: int| #[trigger] sup($3, e) implies phb((d % q + e % q) % q, d, q) == e % q by { lemma_gen(d, e, q); }"))
    k = dict(env=w, subst={"C": "$T", "Q": "Qf", "M": "Msg", "R": "Rn"}, free=True, method_of="SecretKeyPack", **FC)
    SK = "SecretKeyPack<$T, Qf>"
    v.fn(SK, "lwe_secret_key", post="$r@ == $0.lwe_secret_key@", tysub=TY, **k)
    v.fn(SK, "parameters", post="*$r == $0.parameters", tysub=TY, **k)
    ED = TY + [(r"\bencode\s*\(", "encode_%s(" % w["T"]), (r"\bdecode\s*\(", "decode_%s(" % w["T"])]
    k["tysub"] = ED
    if ks:
        v.fn(SK, "ring_secret_key", post="*$r == $0.ring_secret_key", **dict(k, tysub=TY + [(r"RingSecretKey\s*<[^>]*>", "RingPoly")]))
        return
    v.fn(SK, "encrypt", pre=["par($0.parameters)"],
         post=["mv($1) < $0.parameters.lwe_params.plain_modulus", "$r.a@.len() == $0.lwe_secret_key@.len()",
               "exists|e: int| #[trigger] sup(chi($0.parameters.lwe_params.noise_standard_deviation, pq($0.parameters)), e) && phase($r, $0.lwe_secret_key@, pq($0.parameters)) == (mv($1) * pst($0.parameters) + e) % pq($0.parameters)"],
         end="let p = self.parameters; let q = pq(p); let d = dsum_$T($R.a@, self.lwe_secret_key@, self.lwe_secret_key@.len() as int); let k = mv($1) * pst(p); assert forall|b: int, e: int| #![trigger phb(b, d, q), sup(chi(p.lwe_params.noise_standard_deviation, q), e)] phb(b, d, q) == e % q implies phb((b + k) % q, d, q) == (k + e) % q by { lemma_enc(b, d, e, k, q); }", **k)
    DH = "let p = self.parameters; let d = dsum_$T($1.a@, self.lwe_secret_key@, self.lwe_secret_key@.len() as int); lemma_dec($1.b as int, d, pq(p));"
    v.fn(SK, "decrypt", pre=["par($0.parameters)", "$1.a@.len() == $0.lwe_secret_key@.len()"],
         post=["mv($r) as int == pdec($0.parameters, phase($1, $0.lwe_secret_key@, pq($0.parameters)))", "fits(mv($r))"], hints=DH, **k)
    k["tysub"] = ED + [(r"\.\s*min\s*\(", ".vmin_(")]
    v.fn(SK, "decrypt_with_noise", pre=["par($0.parameters)", "$1.a@.len() == $0.lwe_secret_key@.len()"],
         post=["mv($r.0) as int == pdec($0.parameters, phase($1, $0.lwe_secret_key@, pq($0.parameters)))", "fits(mv($r.0))",
               "$r.1 as int == mag(phase($1, $0.lwe_secret_key@, pq($0.parameters)) - mv($r.0) * pst($0.parameters), pq($0.parameters))"], hints=DH, **k)
def wrap(v, w):
    c = [(r"\bC\b", w["T"])] + [(a, b) for a, b in TY]
    v.struct("Encryptor", crate="zkfhe", tysub=c, attrs="")
    v.struct("Decryptor", crate="zkfhe", tysub=c, attrs="")
    k = dict(env=w, crate="zkfhe", subst={"C": "$T", "Q": "Qf", "M": "Msg", "R": "Rn"}, tysub=TY, free=True)
    v.fn("Encryptor<$T, Qf>", "new", method_of="Encryptor", post="$r.sk == $0", **k)
    v.fn("Decryptor<$T, Qf>", "new", method_of="Decryptor", post="$r.sk == $0", **k)
    v.fn("Encryptor<$T, Qf>", "encrypt", method_of="Encryptor", pre=["par($0.sk.parameters)"],
         post=["mv($1) < $0.sk.parameters.lwe_params.plain_modulus", "$r.a@.len() == $0.sk.lwe_secret_key@.len()",
               "exists|e: int| #[trigger] sup(chi($0.sk.parameters.lwe_params.noise_standard_deviation, pq($0.sk.parameters)), e) && phase($r, $0.sk.lwe_secret_key@, pq($0.sk.parameters)) == (mv($1) * pst($0.sk.parameters) + e) % pq($0.sk.parameters)"], **k)
    pd = "mv(@) as int == pdec($0.sk.parameters, phase($1, $0.sk.lwe_secret_key@, pq($0.sk.parameters)))"
    pre = ["par($0.sk.parameters)", "$1.a@.len() == $0.sk.lwe_secret_key@.len()"]
    v.fn("Decryptor<$T, Qf>", "decrypt", method_of="Decryptor", pre=pre, post=[pd.replace("@)", "$r)", 1), "fits(mv($r))"], **k)
    v.fn("Decryptor<$T, Qf>", "decrypt_with_noise", method_of="Decryptor", pre=pre, post=[pd.replace("@)", "$r.0)", 1), "fits(mv($r.0))",
               "$r.1 as int == mag(phase($1, $0.sk.lwe_secret_key@, pq($0.sk.parameters)) - mv($r.0) * pst($0.sk.parameters), pq($0.sk.parameters))"], **k)
def file(w):
    w = dict(w, BIGB=w["B"], MAXV=w["MAX"])
    v = VFile("c18_secret_" + w["T"])
    v.supers["LWEModulusType"] = " + Copy"
    plain.base(v, w)
    plain.encdec(v, w)
    pow2mod.fns(v, w)
    lwe(v, w)
    params(v, w)
    key(v, w)
    wrap(v, w)
    return v
def build():
    return [file(w) for w in WIDTHS]
