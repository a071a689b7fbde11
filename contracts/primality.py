"""C24: Miller-Rabin"""
from common import *
import wide, barrett, modops, expdot
from vlib import VFile
def file(w):
    v = VFile("c24_prime_" + w["T"])
    std(v, [w])
    v.include("barrett.rs")
    exps = [e for e in expdot.EXPS if e["E"] == w["T"]]
    expdot.exp_lemmas(v, exps)
    v.text(modops.MATH)
    modops.value_ratio(v)
    wide.add_mul(v, w)
    wide.add_carry(v, w)
    modops.addsubneg(v, w)
    modops.barrett_delegates(v, w)
    barrett.specs(v, w)
    barrett.add_reduce(v, w)
    modops.mul(v, w)
    expdot.exp_fns(v, w, "BarrettModulus<$T>", "(@.value as int)", "wf_$T(@)", subst={"T": "$T"}, exps=exps)
    v.include("prime.rs")
    v.include("prime_w.rs", w)
    n = "($0.value as int)"
    Q, R = "(q as nat)", "(r as nat)"
    facts = ["wf_$T(*self)".replace("*self", "$0"), "value == $0.value", "value >= 64", "value % 2 == 1", "value_sub_one == value - 1", "fac(%s, q as nat, r as nat)" % n, "r >= 1", "q < value"]
    v.fn("Prime for BarrettModulus<$T>", "probably_prime", env=w, pre="wf_$T($0)", opts="#[verifier::rlimit(60)]", body_subst=[(r"while __i1", "#[verifier::loop_isolation(false)] while __i1")],
         tysub=[(r"Uniform\s*<\s*%s\s*>" % w["T"], "Ud_" + w["T"]), (r"Uniform\s*::\s*from\s*\(\s*(\w+)\s*\.\.=\s*(\w+)\s*\)", r"vuni_%s(\1, \2)" % w["T"]), (r"StdRng\s*::\s*from_rng\s*\(\s*thread_rng\s*\(\s*\)\s*\)\s*\.\s*unwrap\s*\(\s*\)", "vseed()"), (r"\b1 << value\b", "1u64 << (value as u64)")],
         kconsts={"PRIME_BIT_MASK": ("0x28208a20a08a28acu64", "assert((1u64 << 2u64 | 1u64 << 3u64 | 1u64 << 5u64 | 1u64 << 7u64 | 1u64 << 11u64 | 1u64 << 13u64 | 1u64 << 17u64 | 1u64 << 19u64 | 1u64 << 23u64 | 1u64 << 29u64 | 1u64 << 31u64 | 1u64 << 37u64 | 1u64 << 41u64 | 1u64 << 43u64 | 1u64 << 47u64 | 1u64 << 53u64 | 1u64 << 59u64 | 1u64 << 61u64) == 0x28208a20a08a28acu64) by (bit_vector); assert((1u64 << 2i32 | 1u64 << 3i32 | 1u64 << 5i32 | 1u64 << 7i32 | 1u64 << 11i32 | 1u64 << 13i32 | 1u64 << 17i32 | 1u64 << 19i32 | 1u64 << 23i32 | 1u64 << 29i32 | 1u64 << 31i32 | 1u64 << 37i32 | 1u64 << 41i32 | 1u64 << 43i32 | 1u64 << 47i32 | 1u64 << 53i32 | 1u64 << 59i32 | 1u64 << 61i32) == 0x28208a20a08a28acu64) by (bit_vector);")},
         post=["prime(%s) ==> $r" % n, "%s < 64 ==> $r == prime(%s)" % (n, n), "%s %% 2 == 0 && %s > 2 ==> !$r" % (n, n),
               "$r && %s >= 64 ==> exists|s: int| #[trigger] allpass(%s, s, $1 as int)" % (n, n)],
         hints="let n = %s; lemma_half1_$T($0.value); if n < 64 { lemma_small(n); lemma_mask($0.value as u64); } if n > 61 && prime(n) { lemma_nots(n); } lemma_canon(n);" % n,
         loops={0: dict(inv=["0 <= __i0 <= __n0", "__n0 == $1"] + facts + ["distribution.lo == 3", "distribution.hi == value_sub_one", "rst(rng) == st(__s0, __i0 - 1)", "allpass(%s, __s0, __i0 as int)" % n],
                        after="assert(allpass(%s, __s0, $1 as int));" % n,
                        before="let ghost __s0 = rst(rng); proof { lemma_tz_$T(value_sub_one); let z = $T_trailing_zeros(value_sub_one); assert((value_sub_one >> r) == (value_sub_one >> z)) by (bit_vector) requires r == z as $T, z < $BITS; lemma_odd(value as int, q as int, r as nat); lemma_pow2_step(0); assert(fac(%s, q as nat, r as nat)); assert(q <= value_sub_one) by (nonlinear_arith) requires q * pow2(r as nat) == value_sub_one, pow2(r as nat) >= 1; }" % n,
                        head="let n = %s; assert forall|a: int| #![trigger pow(a, q as nat)] pow(a, q as nat) %% n == 1 || pow(a, q as nat) %% n == n - 1 implies passes(n, a) by { lemma_pass1(n, a, q as nat, r as nat); }" % n),
                1: dict(inv=["1 <= __i1 <= __n1 || __i1 == 1", "__n1 == r"] + facts + ["0 < a < value", "x < value", "x as int == pow(a as int, (q as nat) * pow2((__i1 - 1) as nat)) % " + n, "x != 1", "x != value_sub_one"],
                        ghost="let ghost __x = x;", head="let n = %s; lemma_sqr(n, a as int, q as nat, (__i1 - 1) as nat, x as int); if (x * x) %% n == 1 { lemma_root(n, x as int); } if (x * x) %% n == n - 1 { lemma_pass2(n, a as int, q as nat, r as nat, __i1 as nat); }" % n,
                        before="lemma_pow2_step(0); assert((q as nat) * pow2(0) == q as nat);",
                        after="lemma_last(%s, a as int, q as nat, r as nat, x as int);" % n)})
    return v
def build():
    return [file(w) for w in WIDTHS]
