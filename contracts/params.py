"""C25: parameter construction"""
from common import *
from vlib import VFile
FC = dict(crate="fhe_core")
def file(name="c25_params"):
    v = VFile(name)
    v.include("std.rs")
    c = [(r"\bC\b", "Cm"), (r"\bQ\s*::\s*Value\b", "Val"), (r"<\s*Q\s+as\s+\w+\s*>\s*::\s*Value", "Val"), (r"(\w*Parameters)\s*(::\s*)?<[^<>]*>", r"\1"), (r"\b(?:algebra\s*::\s*)?Basis\s*(::\s*)?<\s*Qf?\s*>", "Bas")]
    A = "#[derive(Clone, Copy)]"
    for n in ("LWEParameters", "BlindRotationParameters", "KeySwitchingParameters", "Parameters"):
        v.struct(n, tysub=c, attrs=A, **FC)
    v.struct("ConstParameters", tysub=[(r"\bQ\b", "Val")] + c, attrs=A, **FC)
    v.include("params.rs")
    ty = [(r"(\w+)\s*\.\s*into\s*\(\s*\)\s*\.\s*try_into\s*\(\s*\)\s*\.\s*unwrap\s*\(\s*\)", r"vtousize(\1)"), (r"ring_dimension\s*\.\s*is_power_of_two\s*\(\s*\)", "vp2u(ring_dimension)"), (r"\b([tq])\s*\.\s*is_power_of_two\s*\(\s*\)", r"vp2w(\1)"),
          (r"\bQf\s*::\s*MODULUS_VALUE\b", "vmodulus()"), (r"DiscreteGaussian\s*<[^>]*>", "Dg"), (r"FieldDiscreteGaussianSampler\s*::\s*new\s*\(", "vgaussf("), (r"DiscreteGaussian\s*::\s*new\s*\(", "vgauss("), (r"FieldDiscreteGaussianSampler\b", "Dg"), (r"\.\s*unwrap\s*\(\s*\)", ""), (r"PowOf2Modulus\s*<[^>]*>", "Pm"),
          (r"ConstParameters\s*<[^{;]*>(?=\s*(,|$|\)))", "ConstParameters"), (r"Qf\s*::\s*Value", "Val"), (r"<\s*Qf\s*(?:as\s+\w+\s*)?>\s*::\s*Value", "Val"), (r"<\s*Qf\s+as\s+Field\s*>\s*::\s*Value", "Val")] + c
    k = dict(subst={"C": "Cm", "Q": "Qf"}, tysub=ty, free=True, method_of="Parameters", **FC)
    P = "Parameters<Cm, Qf>"
    v.fn(P, "new", post=["verdict($r, $0)"], panics="p2($a0.ring_dimension as u64) && (!lweok($a0) || $a0.ring_dimension >= 0x8000_0000_0000_0000)",
         hints="axiom_p(); let n = $a0.ring_dimension; if p2(n as u64) { lemma_p2(n as u64); assert(n << 1 == (n as u64) << 1u64) by (bit_vector); if n < 0x8000_0000_0000_0000 { lemma_div(P() - 1, 2 * n); } }", **k)
    for f, e in (("lwe_dimension", "lwe_params.dimension"), ("lwe_plain_modulus", "lwe_params.plain_modulus"), ("lwe_cipher_modulus_value", "lwe_params.cipher_modulus"), ("lwe_noise_standard_deviation", "lwe_params.noise_standard_deviation"),
                 ("lwe_secret_key_type", "lwe_params.secret_key_type"), ("ring_dimension", "blind_rotation_params.dimension"), ("ring_modulus", "blind_rotation_params.modulus"), ("ring_noise_standard_deviation", "blind_rotation_params.noise_standard_deviation"),
                 ("ring_secret_key_type", "blind_rotation_params.secret_key_type"), ("blind_rotation_basis", "blind_rotation_params.basis"), ("key_switching_basis_bits", "key_switching_params.basis_bits"), ("key_switching_noise_standard_deviation", "key_switching_params.noise_standard_deviation"), ("steps", "steps"), ("lwe_params", "lwe_params")):
        v.fn(P, f, post="$r == $0." + e, **k)
    v.fn(P, "lwe_cipher_modulus", post="$r == pmof($0.lwe_params.cipher_modulus)", **k)
    v.fn(P, "lwe_noise_distribution", post="$r == chi($0.lwe_params.cipher_modulus, 0.0f64, $0.lwe_params.noise_standard_deviation)", **k)
    v.fn(P, "key_switching_noise_distribution_for_lwe", post="$r == chi($0.lwe_params.cipher_modulus, 0.0f64, $0.key_switching_params.noise_standard_deviation)", **k)
    v.fn(P, "ring_noise_distribution", post="$r == chif(0.0f64, $0.blind_rotation_params.noise_standard_deviation)", **k)
    v.fn(P, "key_switching_noise_distribution_for_ring", post="$r == chif(0.0f64, $0.key_switching_params.noise_standard_deviation)", **k)
    sk = ty + [(r"<\s*Polynomial\s*<[^<>]*>\s*>\s*::", "Poly::"), (r"\bPolynomial\s*(::\s*)?<[^<>]*>", "Poly"), (r"\bPolynomial\b", "Poly"), (r"\bQf\s*::\s*(zero|one|neg_one)\b", r"Fe::\1"), (r"NTTRingSecretKey\s*<[^<>]*>", "NttPoly"), (r"RingSecretKey\s*<[^<>]*>", "Poly"), (r"SecretKeyPack\s*<[^<>]*>", "SecretKeyPack"), (r"\bC\b", "Cm")]
    v.struct("SecretKeyPack", tysub=sk, attrs="", **FC)
    k = dict(subst={"C": "Cm", "Q": "Qf", "R": "Rn"}, tysub=sk, free=True, method_of="SecretKeyPack", **FC)
    SK = "SecretKeyPack<Cm, Qf>"
    v.fn(SK, "create_lwe_secret_key", post="lkey($r@, $0)", **k)
    D = "$a0.blind_rotation_params.dimension"
    v.fn(SK, "new", post=["$r.parameters == $0", "lkey($r.lwe_secret_key@, $0.lwe_params)", "rkey($r.ring_secret_key.data@, $r.lwe_secret_key@, $0)", "$r.ntt_ring_secret_key == nttof($r.ring_secret_key)", "!refuse($0)"], panics="refuse($a0)",
         loops={0: dict(accty="Vec<Fe>", inv=["0 <= __i0 <= __n0", "__n0 == lwe_secret_key@.len()", "__acc0@.len() == __i0", "forall|i: int| 0 <= i < __i0 ==> #[trigger] __acc0@[i] == conv(lwe_secret_key@[i])"])}, **k)
    return v
def t(): return file("c25_t")
def build(): return [file()]
