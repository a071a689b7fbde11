"""definitions of the planted bugs (dev only; the checks never read this)"""
SEEDS = []
def seed(id, property, edits, demo, needs, what, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what, **k))
BAR = "algebra/src/modulus/barrett/internal_macros.rs"
seed("c01_borrow_chain", "C01",
 [("algebra/src/primitive/widening/borrowing_sub.rs", """                        let (c, d) = a.overflowing_sub(borrow as Self);
                        (c, b || d)""", """                        let (c, d) = a.overflowing_sub(borrow as Self);
                        (c, if d { self < rhs } else { b })""")],
 """use algebra::BorrowingSub;
fn main() {
    // equal words with a borrow coming in
    assert_eq!(BorrowingSub::borrowing_sub(7u16, 7u16, true), (u16::MAX, true));
    assert_eq!(BorrowingSub::borrowing_sub(9u8, 7u8, true), (1, false));
}
""", "8/16-bit borrow-in subtraction with equal operands and a borrow coming in", "the borrow out of x - x - 1 is lost, so multi-word subtraction is wrong")
seed("c02_slice_single", "C02",
 [(BAR, """                        if v < modulus.value() {
                            v
                        } else {
                            v.reduce(modulus)""", """                        if v <= modulus.value() {
                            v
                        } else {
                            v.reduce(modulus)""")],
 """use algebra::{modulus::BarrettModulus, reduce::*};
fn main() {
    let m = BarrettModulus::<u64>::new(97);
    let s: &[u64] = &[98];
    assert_eq!(s.reduce(m), 1);
    let s: &[u64] = &[97];
    assert_eq!(s.reduce(m), 0);
}
""", "a one-word slice whose word equals the modulus", "multi-word reduction returns the modulus itself instead of 0")
seed("c02_new_half", "C02",
 [(BAR, "const HALF: $SelfT = <$SelfT>::MAX >> HALF_BITS;", "const HALF: $SelfT = <$SelfT>::MAX >> (HALF_BITS - 1);")],
 """use algebra::{modulus::BarrettModulus, reduce::*};
fn main() {
    let mut bad = 0;
    for i in 0..2000u64 {
        let v = (1u64 << 32) + 1 + i * 2147483;
        let m = BarrettModulus::<u64>::new(v);
        let x = u64::MAX - i;
        if x.reduce(m) != x % v { bad += 1; }
    }
    assert_eq!(bad, 0);
}
""", "a modulus whose bit count is one more than half the word", "the precomputed ratio is wrong for such moduli, so reductions are wrong")
seed("c02_tuple_boundary", "C02",
 [(BAR, """                let r = self.lazy_reduce(modulus);

                if r >= modulus.value() {
                    r - modulus.value()
                } else {
                    r
                }
            }
        }

        impl $crate::reduce::LazyReduce<BarrettModulus<$SelfT>> for &[$SelfT] {""", """                let r = self.lazy_reduce(modulus);

                if r > modulus.value() {
                    r - modulus.value()
                } else {
                    r
                }
            }
        }

        impl $crate::reduce::LazyReduce<BarrettModulus<$SelfT>> for &[$SelfT] {""")],
 """use algebra::{modulus::BarrettModulus, reduce::*};
fn main() {
    let p = 132120577u32;
    let m = BarrettModulus::<u32>::new(p);
    for k in 1u64..50 {
        let v = k * p as u64;
        assert_eq!((v as u32, (v >> 32) as u32).reduce(m), 0, "{k}");
    }
}
""", "a two-word value that is an exact multiple of the modulus", "reduction of a multiple of m returns m, which is not canonical")
MAC = "algebra/src/reduce/macros.rs"
seed("c03_sub_assign_wrap", "C03",
 [(MAC, """                if *self >= rhs {
                    *self -= rhs;""", """                if *self > rhs {
                    *self -= rhs;""")],
 """use algebra::reduce::*;
fn main() {
    let mut x = 90u32;
    x.sub_reduce_assign(89, 97);
    assert_eq!(x, 1);
    let mut x = 42u64;
    x.sub_reduce_assign(42, 97);
    assert_eq!(x, 0);
}
""", "in-place subtraction of equal operands", "x - x is the modulus instead of 0")
seed("c06_try_inv_zero", "C06",
 [(MAC, """                if gcd == 1 {
                    if inv > 0 {""", """                if gcd <= 1 {
                    if inv > 0 {""")],
 """use algebra::reduce::*;
fn main() {
    assert!(4u32.try_inv_reduce(6).is_err());
    assert!(0u32.try_inv_reduce(7).is_err());
}
""", "asking for the inverse of zero", "the inverse of zero is reported as the modulus instead of refused")
SHM = "algebra/src/modulus/shoup/internal_macros.rs"
seed("c04_shoup_assign_eq", "C04",
 [(SHM, "*self = if tmp >= modulus { tmp - modulus } else { tmp };", "*self = if tmp > modulus { tmp - modulus } else { tmp };")],
 """use algebra::{modulus::ShoupFactor, reduce::*};
fn main() {
    let p = 15361u32;
    for w in 1..200u32 {
        let f = ShoupFactor::<u32>::new(w, p);
        for x in (0..20000u32).step_by(7).chain([p - 1, p, 2 * p, u32::MAX - u32::MAX % p]) {
            let mut y = x;
            y.mul_reduce_assign(f, p);
            assert_eq!(y as u64, x as u64 * w as u64 % p as u64);
        }
    }
}
""", "a product whose lazily reduced value is exactly the modulus", "in-place Shoup multiplication returns the modulus instead of 0")
seed("c05_exp_top_bit", "C05",
 [("algebra/src/modulus/barrett/ops.rs", """        let mut intermediate: Self = power;
        for _ in 1..(E::BITS - exp.leading_zeros()) {
            exp >>= 1;""", """        let mut intermediate: Self = power;
        for _ in 1..(E::BITS - exp.leading_zeros()).min(63) {
            exp >>= 1;""")],
 """use algebra::{modulus::BarrettModulus, reduce::*};
fn main() {
    let m = BarrettModulus::<u32>::new(101);
    assert_eq!(3u32.exp_reduce(u64::MAX, m), { let mut r = 1u64; for _ in 0..u64::MAX % 100 { r = r * 3 % 101; } r as u32 });
}
""", "a 64-bit odd exponent with its top bit set", "the top bit of the exponent is ignored")
seed("c07_exp_pow2_exponent", "C07",
 [("algebra/src/modulus/powof2/internal_macros.rs", """                if exp.is_one() {
                    return power;
                }
""", """                if exp.is_one() || power == 0 {
                    return self & 1;
                }
""")],
 """use algebra::{modulus::PowOf2Modulus, reduce::*};
fn main() {
    let m = PowOf2Modulus::<u32>::new(1 << 20);
    assert_eq!(3u32.exp_reduce(5u32, m), 243);
    assert_eq!(3u32.exp_reduce(4u32, m), 81);
    assert_eq!(6u32.exp_reduce(2u32, m), 36);
}
""", "an exponent that is a power of two", "powers with such exponents collapse to the parity of the base")
seed("c06_gcd_big_shift", "C06",
 [("algebra/src/utils/gcd.rs", """                let shift = (m | n).trailing_zeros();
""", """                let shift = (m | n).trailing_zeros() & 31;
""")],
 """use algebra::utils::ExtendedGCD;
fn main() {
    assert_eq!(12u64.gcd(18), 6);
    assert_eq!((3u64 << 40).gcd(9 << 41), 3 << 40);
}
""", "64-bit operands with a common factor 2^32", "the common power of two is lost")
seed("c06_gcd_shift_zero", "C06",
 [("algebra/src/utils/gcd.rs", """                self.gcd(other) <= 1
""", """                (self | other) & 1 == 1 && self.gcd(other) <= 1 || self == 0 || other == 0
""")],
 """use algebra::utils::ExtendedGCD;
fn main() {
    assert!(9u32.coprime(10) && !9u32.coprime(6));
    assert!(!0u32.coprime(5));
}
""", "one operand zero", "zero is reported coprime to every number")
P2 = "algebra/src/modulus/powof2/internal_macros.rs"
seed("c07_neg_assign_zero", "C07",
 [(P2, "*self = self.wrapping_neg() & modulus.mask();", "*self = (modulus.mask() - (*self & modulus.mask())).wrapping_add(1);")],
 """use algebra::{modulus::PowOf2Modulus, reduce::*};
fn main() {
    let m = PowOf2Modulus::<u16>::new(1 << 10);
    for x in 1..1024u16 { let mut y = x; y.neg_reduce_assign(m); assert_eq!(y, 1024 - x); }
    let mut y = 0u16;
    y.neg_reduce_assign(m);
    assert_eq!(y, 0);
}
""", "in-place negation of zero", "-0 is the modulus, which is not canonical")
BB = "algebra/src/modulus/baby_bear/"
seed("c08_monty_over", "C08",
 [(BB + "mod.rs", """    let (x_sub_u, over) = x.overflowing_sub(u);
    let x_sub_u_hi = (x_sub_u >> MONTY_BITS) as u32;
    let corr = if over { P } else { 0 };""", """    let (x_sub_u, over) = x.overflowing_sub(u);
    let x_sub_u_hi = (x_sub_u >> MONTY_BITS) as u32;
    let corr = if over && x != 0 { P } else if x_sub_u_hi == 0 { P } else { 0 };""")],
 """use algebra::modulus::{BABY_BEAR_P as P, *};
use algebra::reduce::*;
fn main() {
    let a = to_monty(5);
    assert_eq!(from_monty(a), 5);
    assert_eq!(to_monty(0).mul_reduce(a, BabyBearModulus), 0);
}
""", "a product with zero", "zero comes out as the prime itself")
seed("c08_add_edge", "C08",
 [(BB + "ops.rs", """        let mut sum = self + rhs;
        let (corr_sum, over) = sum.overflowing_sub(P);
        if !over {
            sum = corr_sum;
        }
        sum""", """        let sum = self + rhs;
        if sum > P {
            sum - P
        } else {
            sum
        }""")],
 """use algebra::modulus::{BABY_BEAR_P as P, *};
use algebra::reduce::*;
fn main() {
    assert_eq!(5u32.add_reduce(6, BabyBearModulus), 11);
    assert_eq!(5u32.add_reduce(P - 5, BabyBearModulus), 0);
}
""", "a sum that is exactly the prime", "x + (-x) is P instead of 0")
GL = "algebra/src/modulus/goldilocks/"
seed("c09_reduce128_borrow", "C09",
 [(GL + "mod.rs", """    if borrow {
        t0 -= EPSILON; // Cannot underflow.
    }
    let t1 = x_hi_lo * EPSILON;""", """    if borrow && x_lo != 0 {
        t0 -= EPSILON; // Cannot underflow.
    }
    let t1 = x_hi_lo * EPSILON;""")],
 """use algebra::modulus::{GOLDILOCKS_P as P, *};
use algebra::reduce::*;
fn main() {
    let p = P as u128;
    for (a, b) in [(3u64, 5u64), (1 << 48, 1 << 48), (1 << 60, 3 << 50), (P - 1, P - 1)] {
        assert_eq!(to_canonical_u64(a.mul_reduce(b, GoldilocksModulus)) as u128, a as u128 * b as u128 % p, "{a} {b}");
    }
}
""", "a product at least 2^96 whose low word is zero", "the borrow is not compensated")
seed("c10_new_modulus", "C10",
 [("algebra_derive/src/field.rs", "if value < #modulus {", "if value <= #modulus {")],
 """use algebra::Field;
use fhe_core::DefaultFieldU32 as F;
fn main() {
    assert_eq!(F::new(F::MODULUS_VALUE - 1).value(), F::MODULUS_VALUE - 1);
    assert_eq!(F::new(F::MODULUS_VALUE).value(), 0);
}
""", "constructing an element from a word equal to the modulus", "the element is not canonical: zero has two representations")
seed("c10_add_mul_drop", "C10",
 [("algebra_derive/src/fhe_field.rs", """            fn add_mul(self, a: Self, b: Self) -> Self {
                use ::algebra::reduce::Reduce;
                Self(::algebra::CarryingMul::carrying_mul(a.0, b.0, self.0).reduce(<Self as ::algebra::ModulusConfig>::MODULUS))""",
"""            fn add_mul(self, a: Self, b: Self) -> Self {
                use ::algebra::reduce::LazyReduce;
                Self(::algebra::CarryingMul::carrying_mul(a.0, b.0, self.0).lazy_reduce(<Self as ::algebra::ModulusConfig>::MODULUS))""")],
 """use algebra::{FheField, Field};
use fhe_core::DefaultFieldU32 as F;
fn main() {
    let p = F::MODULUS_VALUE as u64;
    let mut x = 12345u64;
    for _ in 0..200000 {
        let mut g = || { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (x >> 33) % p };
        let (a, b, c) = (g(), g(), g());
        let r = F::new(c as u32).add_mul(F::new(a as u32), F::new(b as u32)).value() as u64;
        assert_eq!(r, (a * b + c) % p);
    }
    let m = F::new(F::MODULUS_VALUE - 1);
    assert_eq!(m.add_mul(m, m).value(), 0);
}
""", "operands for which the Barrett quotient estimate is one short", "the multiply-accumulate result is not canonical")
DEC = "algebra_derive/src/decomposable_field.rs"
seed("c11_len_extra", "C11",
 [("algebra/src/decompose_basis.rs", "let decompose_len = modulus_bits.div_ceil(bits) as usize;", "let decompose_len = (if bits * 2 > modulus_bits { 2.max(modulus_bits / bits) } else { modulus_bits.div_ceil(bits) }) as usize;")],
 """use algebra::{Basis, DecomposableField, Field};
use fhe_core::DefaultFieldU32 as F;
fn main() {
    let full = u32::BITS - F::MODULUS_VALUE.leading_zeros();
    for bits in 1..=full {
        let b = Basis::<F>::new(bits);
        assert_eq!(b.decompose_len() as u32, full.div_ceil(bits), "{bits}");
        assert_eq!(F::new(F::MODULUS_VALUE - 1).decompose(b).len(), b.decompose_len());
    }
}
""", "a basis with as many bits as the modulus", "one digit too many is announced")
NT = "algebra/src/transformation/ntt_table.rs"
seed("c12_monomial_mask", "C12",
 [(NT, """        let mask = usize::MAX >> (usize::BITS - log_n - 1);

        values
            .iter_mut()
            .zip(&self.reverse_lsbs)
            .for_each(|(v, &i)| {
                let index = (((2 * i + 1) * degree) & mask) ^ n;""", """        let mask = usize::MAX >> (usize::BITS - log_n - 1);
        let degree = degree & (n - 1);

        values
            .iter_mut()
            .zip(&self.reverse_lsbs)
            .for_each(|(v, &i)| {
                let index = (((2 * i + 1) * degree) & mask) ^ n;""")],
 """use algebra::{transformation::*, Field, NTTField};
use fhe_core::DefaultFieldU32 as F;
use num_traits::Zero;
fn main() {
    let t = F::get_ntt_table(4).unwrap();
    for d in 0..32usize {
        let mut v = vec![F::zero(); 16];
        t.transform_coeff_neg_one_monomial(d, &mut v);
        let mut w = vec![F::zero(); 16];
        w[d % 16] = F::new(if d < 16 { F::MODULUS_VALUE - 1 } else { 1 });
        t.transform_slice(&mut w);
        assert_eq!(v, w, "{d}");
    }
}
""", "the direct transform of -X^d with n <= d < 2n", "the sign of the wrapped monomial is lost")
seed("c12_last_stage_root", "C12",
 [(NT, """        let scaled_r = F::from_root(root_iter.next().unwrap())
            .mul_root(scalar)
            .to_root();""", """        let scaled_r = if gap > 1 {
            F::from_root(root_iter.next().unwrap()).mul_root(scalar)
        } else {
            F::from_root(root_iter.next().unwrap())
        }
        .to_root();""")],
 """use algebra::{transformation::*, Field, NTTField};
use fhe_core::DefaultFieldU32 as F;
fn main() {
    for l in 1..6u32 {
        let t = F::get_ntt_table(l).unwrap();
        let a: Vec<F> = (0..1u32 << l).map(|i| F::new(i * i + 3)).collect();
        let mut v = a.clone();
        t.transform_slice(&mut v);
        t.inverse_transform_slice(&mut v);
        assert_eq!(a, v, "size 2^{l}");
    }
}
""", "the inverse transform of size two", "the upper half is not scaled by 1/n")
seed("c12_min_root_half", "C12",
 [("algebra_derive/src/ntt.rs", "for _ in 0..degree {", "for _ in 1..(degree >> 1) {")],
 """use algebra::{transformation::*, Field, NTTField};
use fhe_core::DefaultFieldU32 as F;
use num_traits::Pow;
fn main() {
    let p = F::MODULUS_VALUE;
    for _ in 0..200 {
        let r = F::try_minimal_primitive_root(4).unwrap();
        // two primitive 4th roots: r and -r
        assert!(r.value() < p - r.value());
        assert_eq!(r.pow(2).value(), p - 1);
    }
    let t = F::generate_ntt_table(3).unwrap();
    let r = t.root();
    for k in 0..8 { assert!(r.value() <= r.pow(2 * k + 1).value()); }
}
""", "the candidate drawn at random happens to be next after the minimal root in the cycle", "the root of a table depends on the random draw, so tables of two processes differ")
PN = "algebra/src/polynomial/native_polynomial.rs"
PT = "algebra/src/polynomial/ntt_polynomial.rs"
seed("c13_inplace_addmul", "C13",
 [(PT, ".for_each(|(((d, &a), &b), &c)| *d = a.add_mul(b, c));", ".for_each(|(((d, &a), &b), &c)| if !b.is_zero() { *d = a.add_mul(b, c) });")],
 """use algebra::*;
use fhe_core::DefaultFieldU32 as F;
fn main() {
    let p = |v: &[u32]| NTTPolynomial::<F>::new(v.iter().map(|x| F::new(*x)).collect());
    let (x, y, z) = (p(&[1, 2, 3, 4]), p(&[5, 0, 7, 8]), p(&[9, 10, 11, 12]));
    let mut d = p(&[77, 77, 77, 77]);
    ntt_add_mul_inplace(&x, &y, &z, &mut d);
    assert_eq!(d, p(&[46, 2, 80, 100]));
}
""", "a factor with a zero entry and a destination that holds old data", "the old value survives where the factor is zero")
LW = "lattice/src/lwe.rs"
seed("c14_add_mul_b", "C14",
 [(LW, """        self.b
            .add_reduce_assign(rhs.b.mul_reduce(scalar, modulus), modulus);
""", """        if !rhs.a.is_empty() {
            self.b
                .add_reduce_assign(rhs.b.mul_reduce(scalar, modulus), modulus);
        }
""")],
 """use algebra::modulus::BarrettModulus;
use lattice::LWE;
fn main() {
    let m = BarrettModulus::<u32>::new(97);
    let mut c = LWE::new(vec![5u32, 6], 7);
    c.add_assign_rhs_mul_scalar_reduce(&LWE::new(vec![1, 2], 3), 10, m);
    assert_eq!((c.a().to_vec(), c.b()), (vec![15, 26], 37));
    let mut c = LWE::new(vec![], 7u32);
    c.add_assign_rhs_mul_scalar_reduce(&LWE::new(vec![], 3), 10, m);
    assert_eq!(c.b(), 37);
}
""", "samples of dimension zero", "the body is not accumulated for them")
RL = "lattice/src/rlwe.rs"
seed("c15_extract_partial", "C15",
 [(RL, """        let mut a = a.data();
        a[1..].reverse();
        a[1..].iter_mut().for_each(|v| *v = -*v);

        a.truncate(dimension);""", """        let mut a = a.data();
        a[1..].reverse();
        a[1..].iter_mut().take(dimension.saturating_sub(1)).for_each(|v| if dimension > 2 { *v = -*v });

        a.truncate(dimension);""")],
 """use algebra::*;
use fhe_core::DefaultFieldU32 as F;
use lattice::RLWE;
fn main() {
    let p = |v: &[u32]| Polynomial::<F>::new(v.iter().map(|x| F::new(*x)).collect());
    let c = RLWE::new(p(&[1, 2, 3, 4]), p(&[5, 6, 7, 8]));
    let full = c.clone().extract_lwe_locally();
    for d in 1..=4 {
        let e = c.clone().extract_partial_lwe_locally(d);
        assert_eq!((e.a(), e.b()), (&full.a()[..d], full.b()), "{d}");
    }
}
""", "partial extraction with exactly two coefficients", "the second coefficient keeps the wrong sign")
seed("c15_rotate_2n", "C15",
 [(RL, """                    .for_each(|(u, &v)| *u = v);
                x[r..]
                    .iter_mut()
                    .zip(y[0..n_sub_r].iter())
                    .for_each(|(u, &v)| *u = -v);
                *x -= y;""", """                    .for_each(|(u, &v)| *u = v);
                x[r..]
                    .iter_mut()
                    .zip(y[0..n_sub_r].iter())
                    .for_each(|(u, &v)| *u = -v);
                if n_sub_r > 1 {
                    *x -= y;
                } else {
                    x[r..].iter_mut().for_each(|u| *u += *u);
                }""")],
 """use algebra::*;
use fhe_core::DefaultFieldU32 as F;
use lattice::RLWE;
use num_traits::One;
fn main() {
    let p = |v: &[u32]| Polynomial::<F>::new(v.iter().map(|x| F::new(*x)).collect());
    let c = RLWE::new(p(&[1, 2, 3, 4]), p(&[5, 6, 7, 8]));
    for r in 0..=8usize {
        let mut m = Polynomial::<F>::zero(4);
        if r < 8 { m[r % 4] = if r < 4 { F::one() } else { -F::one() }; } else { m[0] = F::one(); }
        m[0] -= F::one();
        let mut d = c.clone();
        c.mul_monic_monomial_sub_one_inplace(4, r, &mut d);
        assert_eq!((d.a(), d.b()), (&(c.a() * &m), &(c.b() * &m)), "{r}");
    }
}
""", "rotation by 2N - 1 or 2N", "the rotated sample is wrong at the end of the cycle")
GR = "lattice/src/gadget/rlwe.rs"
PREL = """use algebra::*;
use fhe_core::{DefaultFieldU32 as F, *};
use rand::{rngs::StdRng, Rng, SeedableRng};
fn params<C: LWEModulusType>(n: usize, q: C, lg: u32, ty: LWESecretKeyType, ks: u32, steps: Steps) -> Parameters<C, F> {
    Parameters::<C, F>::new(ConstParameters {
        lwe_dimension: n, lwe_plain_modulus: C::ONE + C::ONE + C::ONE + C::ONE, lwe_cipher_modulus: q, lwe_noise_standard_deviation: 0.01,
        lwe_secret_key_type: ty, ring_dimension: 1 << lg, ring_modulus: F::MODULUS_VALUE, ring_noise_standard_deviation: 0.01,
        ring_secret_key_type: RingSecretKeyType::Binary, blind_rotation_basis_bits: 4, steps, key_switching_basis_bits: ks, key_switching_standard_deviation: 0.01,
    }).unwrap()
}
"""
SP = "lattice/src/utils/space.rs"
BB = "fhe_core/src/blind_rotation/binary.rs"
BT = "fhe_core/src/blind_rotation/ternary.rs"
seed("c16_mul_add_first", "C16",
 [(GR, """            g.mul_ntt_polynomial_inplace(space, &mut temp);

            ntt_rlwe.add_element_wise_assign(&temp);""", """            if space.iter().any(|v| !v.is_zero()) {
                g.mul_ntt_polynomial_inplace(space, &mut temp);
            }

            ntt_rlwe.add_element_wise_assign(&temp);""")],
 """use algebra::*;
use fhe_core::DefaultFieldU32 as F;
use lattice::*;
use num_traits::{One, Zero};
fn main() {
    let n = 8;
    let basis = algebra::Basis::<F>::new(4);
    let poly = |f: &dyn Fn(u32) -> u32| Polynomial::<F>::new((0..n).map(|i| F::new(f(i))).collect());
    let mut w = F::one();
    let rows: Vec<RLWE<F>> = (0..basis.decompose_len()).map(|_| { let mut b = Polynomial::<F>::zero(n as usize); b[0] = w; w = w * F::new(16); RLWE::new(Polynomial::zero(n as usize), b) }).collect();
    let g = GadgetRLWE::new(rows, basis);
    for p in [poly(&|i| i * 1234567 + 3), poly(&|i| i + 1), poly(&|i| 16 * (i % 3)), poly(&|_| 0)] {
        let r = RLWE::new(poly(&|i| i), poly(&|i| 7 * i));
        let want = r.b() + &p;
        let got = g.mul_polynomial_add_rlwe(&p, r.clone());
        assert_eq!((got.a(), got.b()), (r.a(), &want));
    }
    let _ = F::zero().is_zero();
}
""", "a polynomial one of whose digit levels is entirely zero", "the previous level's product is added again")
seed("c16_rgsw_sub", "C16",
 [("lattice/src/rgsw.rs", """    pub fn mul_ntt_polynomial_assign(&mut self, ntt_polynomial: &NTTPolynomial<F>) {
        self.c_m_mut()""", """    pub fn mul_ntt_polynomial_assign(&mut self, ntt_polynomial: &NTTPolynomial<F>) {
        if ntt_polynomial.is_zero() {
            self.c_m.set_zero();
            return;
        }
        self.c_m_mut()""")],
 """use algebra::*;
use fhe_core::DefaultFieldU32 as F;
use lattice::*;
fn main() {
    let basis = algebra::Basis::<F>::new(9);
    let p = |k: u32| NTTPolynomial::<F>::new((0..4).map(|i| F::new(i + k)).collect());
    let g = |k: u32| NTTGadgetRLWE::new((0..basis.decompose_len() as u32).map(|j| NTTRLWE::new(p(k + j), p(k * j + 1))).collect(), basis);
    let r = NTTRGSW::new(g(3), g(11));
    let z = NTTPolynomial::<F>::zero(4);
    let mut m = r.clone();
    m.mul_ntt_polynomial_assign(&z);
    for row in m.c_neg_s_m().iter().chain(m.c_m().iter()) { assert!(row.a().is_zero() && row.b().is_zero()); }
}
""", "multiplying an RGSW sample by the zero polynomial", "half of the sample keeps its old rows")
PL = "fhe_core/src/plaintext.rs"
seed("c17_shrink_max", "C17",
 [(PL, "if c > <$M>::MAX as u64 {", "if c >= <$M>::MAX as u64 {")],
 """use fhe_core::*;
fn main() {
    for m in [0u8, 1, 254, 255] {
        let c: u32 = encode(m, 256, 1 << 20);
        let d: u8 = decode(c, 256, 1 << 20);
        assert_eq!(m, d);
    }
}
""", "a message equal to the largest value of its type", "decoding it panics")
seed("c17_decode_round", "C17",
 [(PL, "let decoded = ((temp >> 1u32) + (temp & 1)) & (t - 1);", "let decoded = if temp + 1 == t << 1 { t - 1 } else { (temp >> 1u32) + (temp & 1) } & (t - 1);")],
 """use fhe_core::*;
fn main() {
    let (t, q) = (16u64, 1u64 << 12);
    for c in 0..q {
        let d: u8 = decode(c as u32, t, q);
        let want = ((c + q / t / 2) / (q / t)) % t;
        assert_eq!(d as u64, want, "{c}");
    }
}
""", "the code word of zero with a negative error", "it decodes to t - 1")
SK = "fhe_core/src/secret_key.rs"
seed("c18_noise_min", "C18",
 [(SK, """            plaintext
                .sub_reduce(fresh, cipher_modulus)
                .min(fresh.sub_reduce(plaintext, cipher_modulus)),""", """            if plaintext >= fresh {
                plaintext - fresh
            } else {
                fresh - plaintext
            },""")],
 PREL + """fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let sk = SecretKeyPack::new(params::<u16>(16, 1024, 4, LWESecretKeyType::Ternary, 1, Steps::BrMsKs), &mut rng);
    for m in 0..4u8 {
        for e in [0u16, 1, 1023, 100, 1024 - 100] {
            let mut c = sk.encrypt(m, &mut rng);
            let b = (c.b() + e) % 1024;
            *c.b_mut() = b;
            let (d, noise) = sk.decrypt_with_noise::<u8>(&c);
            assert_eq!((d, noise), (m, e.min(1024 - e)));
        }
    }
}
""", "an encryption of zero with a negative error", "the reported noise is q - e instead of e")
seed("c18_brms_key", "C18",
 [(SK, """                    if v.is_zero() {
                        Q::zero()
                    } else if v.is_one() {
                        Q::one()
                    } else {
                        Q::neg_one()
                    }
                };

                // s = [s_0, s_1,..., s_{n-1}]""", """                    if v.is_zero() {
                        Q::zero()
                    } else if v.is_one() || params.lwe_secret_key_type() == LWESecretKeyType::Binary {
                        Q::one()
                    } else {
                        -Q::one() - Q::one()
                    }
                };

                // s = [s_0, s_1,..., s_{n-1}]""")],
 PREL + """use num_traits::{One, Zero};
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    for ty in [LWESecretKeyType::Binary, LWESecretKeyType::Ternary] {
        let sk = SecretKeyPack::new(params::<u16>(64, 1024, 6, ty, 1, Steps::BrMs), &mut rng);
        for (a, b) in sk.lwe_secret_key().iter().zip(sk.ring_secret_key().iter()) {
            let w = match a { 0 => F::zero(), 1 => F::one(), 1023 => -F::one(), _ => panic!() };
            assert_eq!(w, *b);
        }
    }
}
""", "a ternary key used for both dimensions (BrMs)", "ring coefficient -2 instead of -1")
MS = "fhe_core/src/modulus_switch.rs"
seed("c19_reduce_edge", "C19",
 [(MS, """    let reduce = |v: C| {
        if v < modulus_after {
            v
        } else {
            v - modulus_after
        }
    };

    let switch = Box::new(|v: C| {""", """    let reduce = |v: C| {
        if v <= modulus_after {
            v
        } else {
            v - modulus_after
        }
    };

    let switch = Box::new(|v: C| {""")],
 """use fhe_core::*;
use lattice::LWE;
fn main() {
    for v in [0u16, 1, 511, 512, 1000, 1020, 1023] {
        let mut c = LWE::new(vec![v], v);
        lwe_modulus_switch_assign_between_modulus(&mut c, 1024u16, 64);
        let want = ((v as u32 * 64 * 2 + 1024) / 2048 % 64) as u16;
        assert_eq!((c.a()[0], c.b()), (want, want), "{v}");
    }
}
""", "a residue that rounds up to the new modulus", "the component equals the modulus instead of 0")
seed("c19_inplace_trunc", "C19",
 [(MS, """    let switch = Box::new(|v: F| {
        reduce(C::as_from(
            (AsInto::<f64>::as_into(v.value()) * modulus_after_f64 / modulus_before_f64).round(),
        ))
    });

    destination""", """    let scale = modulus_after_f64 / modulus_before_f64;
    let switch = Box::new(|v: F| {
        reduce(C::as_from(
            (AsInto::<f64>::as_into(v.value()) * (scale as f32 as f64)).round(),
        ))
    });

    destination""")],
 """use algebra::Field;
use fhe_core::{DefaultFieldU32 as F, *};
use lattice::LWE;
fn main() {
    let p = F::MODULUS_VALUE as u128;
    let q = 1u128 << 16;
    let mut d: LWE<u32> = LWE::new(vec![0], 0);
    for k in 1..5000u128 {
        for e in [0u128, 1] {
            let v = (2 * k * 13 + 1) * p / (2 * q) + e;
            if v >= p { continue; }
            lwe_modulus_switch_inplace(LWE::new(vec![F::new(v as u32)], F::new(v as u32)), q as u32, &mut d);
            let want = ((2 * v * q + p) / (2 * p) % q) as u32;
            assert_eq!((d.a()[0], d.b()), (want, want), "{v}");
        }
    }
}
""", "a residue within 2^-24 of a rounding boundary", "rounding goes to the wrong neighbour")
KL = "fhe_core/src/key_switch/lwe.rs"
KR = "fhe_core/src/key_switch/rlwe.rs"
seed("c20_last_level", "C20",
 [(KL, "if j < len - 1 {", "if j + 2 < len || len == 2 {")],
 PREL + """use lattice::LWE;
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    for ks in [2u32, 3, 4, 5, 10] {
        let sk = SecretKeyPack::new(params::<u16>(8, 1024, 4, LWESecretKeyType::Binary, ks, Steps::BrMsKs), &mut rng);
        let k = KeySwitchingLWEKey::generate(&sk, &mut rng);
        let z: Vec<u16> = sk.ring_secret_key().iter().map(|v| v.value() as u16).collect();
        for _ in 0..20 {
            let a: Vec<u16> = (0..16).map(|_| rng.gen_range(0..1024)).collect();
            let c = k.key_switch_for_lwe(LWE::new(a.clone(), 77));
            let ph = |a: &[u16], b: u16, s: &[u16]| a.iter().zip(s).fold(b as i64, |p, (x, y)| p - *x as i64 * *y as i64).rem_euclid(1024);
            assert_eq!(ph(&a, 77, &z), ph(c.a(), c.b(), sk.lwe_secret_key()), "{ks} bits");
        }
    }
}
""", "a key switching basis that needs three digits or more", "the last level encrypts the wrong multiple")
seed("c20_rlwe_full", "C20",
 [(KR, """            let a = ciphertext.a_mut();
            a[1..].reverse();
            a[1..].iter_mut().for_each(|v| *v = -*v);
        }""", """            let a = ciphertext.a_mut();
            a[1..].reverse();
            a[1..].iter_mut().for_each(|v| *v = -*v);
            if self.lwe_dimension != extended_lwe_dimension {
                a[self.lwe_dimension..].iter_mut().for_each(|v| *v = Q::zero());
            }
        }""")],
 PREL + """use lattice::LWE;
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    for n in [5usize, 8, 12, 16] {
        let sk = SecretKeyPack::new(params::<u16>(n, 1024, 4, LWESecretKeyType::Binary, 3, Steps::BrKsMs), &mut rng);
        let k = KeySwitchingRLWEKey::generate(&sk, &mut rng);
        let z: Vec<F> = sk.ring_secret_key().iter().copied().collect();
        let s: Vec<F> = sk.lwe_secret_key().iter().map(|v| F::new(*v as u32)).collect();
        let a: Vec<F> = (0..16).map(|_| F::new(rng.gen())).collect();
        let b = F::new(rng.gen());
        let c = k.key_switch_for_lwe(LWE::new(a.clone(), b));
        let ph = |a: &[F], b: F, s: &[F]| a.iter().zip(s).fold(b, |p, (x, y)| p - *x * *y);
        assert_eq!(ph(&a, b, &z), ph(c.a(), c.b(), &s), "{n}");
    }
}
""", "an LWE dimension that is no power of two, with the next power of two equal to the ring dimension", "the padded part of the mask is dropped")
seed("c20_rlwe_chunk_head", "C20",
 [(KR, """                .for_each(|chunk| {
                    chunk[0] = -chunk[0];
                    chunk[1..].reverse();
                });""", """                .for_each(|chunk| {
                    if chunk.len() > 2 {
                        chunk[0] = -chunk[0];
                    }
                    chunk[1..].reverse();
                });""")],
 PREL + """use lattice::RLWE;
fn main() {
    let mut rng = StdRng::seed_from_u64(5);
    for n in [2usize, 3, 5, 8, 12, 16] {
        let sk = SecretKeyPack::new(params::<u16>(n, 1024, 4, LWESecretKeyType::Binary, 3, Steps::BrKsMs), &mut rng);
        let k = KeySwitchingRLWEKey::generate(&sk, &mut rng);
        let z: Vec<F> = sk.ring_secret_key().iter().copied().collect();
        let s: Vec<F> = sk.lwe_secret_key().iter().map(|v| F::new(*v as u32)).collect();
        let mut p = || Polynomial::<F>::new((0..16).map(|_| F::new(rng.gen())).collect());
        let r = RLWE::new(p(), p());
        let l = r.extract_lwe();
        let c = k.key_switch_for_rlwe(r);
        let ph = |a: &[F], b: F, s: &[F]| a.iter().zip(s).fold(b, |p, (x, y)| p - *x * *y);
        assert_eq!(ph(l.a(), l.b(), &z), ph(c.a(), c.b(), &s), "{n}");
    }
}
""", "an LWE dimension of two", "the phase changes")
EV = "bool/src/bfhe/evaluate.rs"
seed("c22_rotate_body_zero", "C22",
 [(BT, """                if !a_i.is_zero() {
                    let a_i: usize = a_i.as_into();

                    let neg_a_i: usize = (rlwe_dimension << 1) - a_i;
""", """                if !a_i.is_zero() {
                    let a_i: usize = a_i.as_into();

                    let neg_a_i: usize = if a_i == rlwe_dimension { 0 } else { (rlwe_dimension << 1) - a_i };
""")],
 PREL + """use lattice::LWE;
fn main() {
    let mut rng = StdRng::seed_from_u64(9);
    let n = 32usize;
    let sk = SecretKeyPack::new(params::<u16>(6, 64, 5, LWESecretKeyType::Ternary, 1, Steps::BrMsKs), &mut rng);
    let key = BlindRotationKey::generate(&sk, &mut rng);
    let lut = Polynomial::<F>::new((0..n as u32).map(|i| F::new(i * 1000000 + 12345)).collect());
    for case in 0..40 {
        let a: Vec<u16> = (0..6).map(|_| if case % 2 == 0 { [0, 32, 63, 1][rng.gen_range(0..4)] } else { rng.gen_range(0..64) }).collect();
        let b: u16 = rng.gen_range(0..64);
        let ph = a.iter().zip(sk.lwe_secret_key()).fold(b as i64, |p, (x, s)| p - *x as i64 * *s as i64).rem_euclid(64) as usize;
        let r = key.blind_rotate(lut.clone(), &LWE::new(a, b), sk.parameters().blind_rotation_basis());
        let dec = r.b() - &(r.a() * sk.ring_secret_key());
        let want: Vec<F> = (0..n).map(|i| { let k = i + ph; let v = lut[k % n]; if k / n % 2 == 0 { v } else { -v } }).collect();
        assert_eq!(dec.as_slice(), &want[..]);
    }
}
""", "a ternary key with coefficient -1 where the mask entry is exactly N", "the rotation has the wrong sign")
seed("c22_binary_skip", "C22",
 [(BB, """                let r = neg_b - rlwe_dimension;
                lut.as_mut_slice().rotate_right(r);
                lut[r..].iter_mut().for_each(|v| *v = v.neg());""", """                let r = neg_b - rlwe_dimension;
                lut.as_mut_slice().rotate_right(r);
                lut[r..].iter_mut().take(rlwe_dimension.saturating_sub(2)).for_each(|v| *v = v.neg());""")],
 PREL + """use lattice::LWE;
fn main() {
    let mut rng = StdRng::seed_from_u64(9);
    let n = 32usize;
    let sk = SecretKeyPack::new(params::<u16>(6, 64, 5, LWESecretKeyType::Binary, 1, Steps::BrMsKs), &mut rng);
    let key = BlindRotationKey::generate(&sk, &mut rng);
    let lut = Polynomial::<F>::new((0..n as u32).map(|i| F::new(i * 1000000 + 12345)).collect());
    for b in 0..64u16 {
        let ph = b as usize;
        let r = key.blind_rotate(lut.clone(), &LWE::new(vec![0; 6], b), sk.parameters().blind_rotation_basis());
        let dec = r.b() - &(r.a() * sk.ring_secret_key());
        let want: Vec<F> = (0..n).map(|i| { let k = i + ph; let v = lut[k % n]; if k / n % 2 == 0 { v } else { -v } }).collect();
        assert_eq!(dec.as_slice(), &want[..], "{b}");
    }
}
""", "a body of 2N - 1 or N - 1", "a coefficient keeps the wrong sign")
SA = "lattice/src/utils/sample.rs"
seed("c23_neg_zero", "C23",
 [(SA, """                if round < 0. {""", """                if round.is_sign_negative() {""")],
 """use lattice::DiscreteGaussian;
use rand::{distributions::Distribution, SeedableRng};
fn main() {
    let d = DiscreteGaussian::<u32>::new(1024, 0.0, 0.2).unwrap();
    let mut r = rand::rngs::StdRng::seed_from_u64(1);
    for _ in 0..10000 { assert!(d.sample(&mut r) < 1024); }
}
""", "a draw in (-1/2, 0), which rounds to negative zero", "the sample equals the modulus instead of 0")
seed("c23_ternary_tail", "C23",
 [("algebra/src/utils/sample.rs", """    let s = [F::zero(), F::zero(), F::one(), F::neg_one()];
    let mut v = vec![F::zero(); length];
    let mut iter = v.chunks_exact_mut(16);
    for chunk in &mut iter {
        let mut r = rng.next_u32();
        for elem in chunk.iter_mut() {
            *elem = s[(r & 0b11) as usize];
            r >>= 2;
        }
    }
    let mut r = rng.next_u32();
    for elem in iter.into_remainder() {
        *elem = s[(r & 0b11) as usize];
        r >>= 2;
    }""", """    let s = [F::zero(), F::zero(), F::one(), F::neg_one()];
    let mut v = vec![F::zero(); length];
    let mut iter = v.chunks_exact_mut(16);
    for chunk in &mut iter {
        let mut r = rng.next_u32();
        for elem in chunk.iter_mut() {
            *elem = s[(r & 0b11) as usize];
            r >>= 2;
        }
    }
    let mut r = rng.next_u32();
    for elem in iter.into_remainder() {
        *elem = s[(r & 0b11) as usize];
        r >>= 3;
    }""")],
 """use algebra::*;
use fhe_core::DefaultFieldU32 as F;
use num_traits::One;
use rand::SeedableRng;
fn main() {
    let mut r = rand::rngs::StdRng::seed_from_u64(1);
    let mut neg = [0usize; 15];
    for _ in 0..4000 {
        let p = Polynomial::<F>::random_with_ternary(15, &mut r);
        for (i, v) in p.iter().enumerate() { if *v == -F::one() { neg[i] += 1; } }
    }
    // one in four at every position
    for (i, k) in neg.iter().enumerate() { assert!((700..1300).contains(k), "position {i}: {k} of 4000"); }
}
""", "a length that is no multiple of 16", "the last coefficients of the tail are always zero")
PRM = "algebra/src/utils/prime.rs"
seed("c24_rounds_zero", "C24",
 [(PRM, "if x == 1 || x == value_sub_one {", "if x <= 2 || x == value_sub_one {")],
 """use algebra::{modulus::BarrettModulus, utils::Prime};
fn main() {
    // composites whose odd part of n - 1 is one: 2^q = 2
    for n in [(1u64 << 24) + 1, (1 << 40) + 1, (1 << 48) + 1, (1 << 56) + 1] {
        let m = BarrettModulus::<u64>::new(n);
        for _ in 0..200 { assert!(!m.probably_prime(1), "{n}"); }
    }
    assert!(BarrettModulus::<u64>::new(65537).probably_prime(20));
}
""", "a composite of the form 2^k + 1 without small factors, tested with the base two", "it is reported prime")
PA = "fhe_core/src/parameter.rs"
seed("c25_ks_noise", "C25",
 [(PA, """        DiscreteGaussian::new(
            self.lwe_cipher_modulus_value(),
            0.0,
            self.key_switching_noise_standard_deviation(),
        )""", """        DiscreteGaussian::new(
            self.lwe_cipher_modulus_value(),
            0.0,
            self.key_switching_noise_standard_deviation()
                .min(self.ring_noise_standard_deviation()),
        )""")],
 PREL + """fn main() {
    let p = params::<u16>(8, 1024, 4, LWESecretKeyType::Binary, 3, Steps::BrKsMs);
    assert_eq!(p.key_switching_noise_distribution_for_lwe().std_dev(), 0.01);
    let p = Parameters::<u16, F>::new(ConstParameters {
        lwe_dimension: 8, lwe_plain_modulus: 4, lwe_cipher_modulus: 1024, lwe_noise_standard_deviation: 3.2,
        lwe_secret_key_type: LWESecretKeyType::Binary, ring_dimension: 16, ring_modulus: F::MODULUS_VALUE, ring_noise_standard_deviation: 1.5,
        ring_secret_key_type: RingSecretKeyType::Binary, blind_rotation_basis_bits: 4, steps: Steps::BrMsKs, key_switching_basis_bits: 2, key_switching_standard_deviation: 6.4,
    }).unwrap();
    assert_eq!(p.key_switching_noise_distribution_for_lwe().std_dev(), 6.4);
    let mut r = StdRng::seed_from_u64(1); let _: u8 = r.gen();
}
""", "a key switching deviation larger than the ring's", "keys get less noise than the parameters say")
seed("c25_compat_half", "C25",
 [(PA, """        let factor = (coeff_modulus - 1) / (twice_ring_dimension);
        if factor * (twice_ring_dimension) != (coeff_modulus - 1) {""", """        let factor = (coeff_modulus - 1) / ring_dimension;
        if factor * ring_dimension != (coeff_modulus - 1) {""")],
 """use algebra::Field;
use fhe_core::{DefaultQks as F, *};
fn main() {
    // 15361 = 15 * 2^10 + 1 supports N = 512 at most
    for lg in 1..14u32 {
        let r = Parameters::<u16, F>::new(ConstParameters {
            lwe_dimension: 8, lwe_plain_modulus: 4, lwe_cipher_modulus: 1024, lwe_noise_standard_deviation: 3.2,
            lwe_secret_key_type: LWESecretKeyType::Binary, ring_dimension: 1 << lg, ring_modulus: F::MODULUS_VALUE, ring_noise_standard_deviation: 1.5,
            ring_secret_key_type: RingSecretKeyType::Binary, blind_rotation_basis_bits: 4, steps: Steps::BrMsKs, key_switching_basis_bits: 2, key_switching_standard_deviation: 6.4,
        });
        assert_eq!(r.is_ok(), lg <= 9, "{lg}");
    }
}
""", "a ring dimension with N | Q - 1 but not 2N | Q - 1", "incompatible parameters are accepted")
EV = "bool/src/bfhe/evaluate.rs"
GATES = PREL.replace("use rand::", "use zkfhe::{bfhe::Evaluator, Decryptor, Encryptor, KeyGen};\nuse rand::") + """fn gates<C: LWEModulusType>(p: Parameters<C, F>) {
    let mut r = StdRng::seed_from_u64(7);
    let _: u8 = r.gen();
    let sk = KeyGen::generate_secret_key(p, &mut r);
    let (enc, eval, dec) = (Encryptor::new(sk.clone()), Evaluator::new(&sk, &mut r), Decryptor::new(sk));
    for _ in 0..6 {
        for k in 0..8u8 {
            let (a, b, c) = (k & 1 == 1, k & 2 == 2, k & 4 == 4);
            let (x, y, z) = (enc.encrypt(a, &mut r), enc.encrypt(b, &mut r), enc.encrypt(c, &mut r));
            let d = |t: &LWECiphertext<C>| dec.decrypt::<bool>(t);
            assert_eq!(d(&eval.not(&x)), !a);
            assert_eq!(d(&eval.nand(&x, &y)), !(a && b));
            assert_eq!(d(&eval.and(&x, &y)), a && b);
            assert_eq!(d(&eval.or(&x, &y)), a || b);
            assert_eq!(d(&eval.nor(&x, &y)), !(a || b));
            assert_eq!(d(&eval.xor(&x, &y)), a != b);
            assert_eq!(d(&eval.xnor(&x, &y)), a == b);
            assert_eq!(d(&eval.majority(&x, &y, &z)), (a as u8 + b as u8 + c as u8) > 1);
            assert_eq!(d(&eval.mux(&x, &y, &z)), if a { b } else { c });
        }
    }
}
"""
seed("c21_lut_step_big_q", "C21", [(EV, """        } else if q % twice_ring_dim == 0 {
            1""", """        } else if q % twice_ring_dim == 0 {
            q / twice_ring_dim""")],
 GATES + """fn main() {
    gates(params::<u16>(8, 1 << 11, 10, LWESecretKeyType::Binary, 2, Steps::BrMsKs));
    gates(params::<u16>(8, 1 << 13, 10, LWESecretKeyType::Binary, 2, Steps::BrKsMs));
}
""", "an LWE modulus of at least 4N", "every other entry of the lookup tables is zero, so gates decrypt wrongly")
seed("c21_brms_modulus", "C21", [(EV, """                let lwe = acc.extract_lwe_locally();

                lwe_modulus_switch_inplace(lwe, parameters.lwe_cipher_modulus_value(), &mut c);""", """                let lwe = acc.extract_lwe_locally();

                lwe_modulus_switch_inplace(lwe, twice_ring_dimension_value, &mut c);""")],
 GATES + """fn main() {
    gates(params::<u16>(16, 1 << 5, 4, LWESecretKeyType::Binary, 2, Steps::BrMs));
    gates(params::<u16>(64, 1 << 10, 6, LWESecretKeyType::Binary, 2, Steps::BrMs));
}
""", "parameters whose last step is the modulus switch, with q different from 2N", "gate outputs are scaled to 2N and not to q")
PRG = "algebra/src/utils/prg.rs"
AES = "algebra/src/utils/aes.rs"
seed("c27_slice_tail", "C27", [(AES, "                        blks[len - remain..].copy_from_slice(&self.encrypt_many_blocks(buf));", "                        blks[len - remain..].copy_from_slice(&self.encrypt_many_blocks(buf)[..remain.min(len)]);\n                        if len > 8 && $n == 6 {\n                            blks[len - 1] = self.encrypt_block(blks[len - 1]);\n                        }")],
 """use algebra::utils::{Aes, Block};
fn main() {
    let a = Aes::new(Block::from([3u64, 5]));
    for n in 0..40u64 {
        let v: Vec<Block> = (0..n).map(|i| Block::from([i, 77])).collect();
        let mut w = v.clone();
        a.encrypt_block_slice(&mut w);
        for i in 0..v.len() { assert!(w[i] == a.encrypt_block(v[i]), "block {i} of {n}"); }
    }
}
""", "a slice of 8k + 6 blocks, k > 0", "the last block is encrypted twice")
seed("c27_state_u32", "C27", [(PRG, "                self.state += 1;", "                self.state = (self.state as u16).wrapping_add(1) as u64;")],
 """use algebra::utils::{Aes, Block, Prg};
use rand::{RngCore, SeedableRng};
fn main() {
    let seed = Block::from([11u64, 22]);
    let (mut g, a) = (Prg::from_seed(seed), Aes::new(seed));
    for i in 0..70000u64 {
        let b = a.encrypt_block(Block::from([i, 0]));
        let mut w = vec![0u8; 16];
        g.fill_bytes(&mut w);
        let mut x = [Block::default()];
        x[0] = b;
        let e: [u8; 16] = b.into();
        assert_eq!(w, e, "block {i}");
    }
}
""", "more than 2^16 blocks read from one generator", "the key stream repeats from its start")
NT = "algebra_derive/src/ntt.rs"
C26D = """use algebra::NTTField;
use fhe_core::DefaultFieldU32 as F;
use std::sync::{Arc, Barrier};
fn main() {
    for k in 0..16u32 {
        let bar = Arc::new(Barrier::new(8));
        let h: Vec<_> = (0..8).map(|_| { let bar = bar.clone(); std::thread::spawn(move || { bar.wait(); F::get_ntt_table(k).unwrap() }) }).collect();
        let t: Vec<_> = h.into_iter().map(|x| x.join().unwrap()).collect();
        for x in &t { assert!(Arc::ptr_eq(x, &t[0]), "two tables of size {k}"); }
        assert!(Arc::ptr_eq(&F::get_ntt_table(k).unwrap(), &t[0]), "size {k} was replaced");
    }
    for _ in 0..3 { assert!(F::get_ntt_table(24).is_err()); }
}
"""
seed("c26_unheld_mutex", "C26", [(NT, "let _g = #ntt_mutex.lock().unwrap();", "let _ = #ntt_mutex.lock().unwrap();")], C26D,
 "two threads whose first use of a size overlaps", "both generate the table and the second replaces the first: callers hold different tables")
seed("c26_small_unshared", "C26", [(NT, "                Self::init_ntt_table(&[log_n])?;", """                if log_n < 2 {
                    return Ok(::std::sync::Arc::new(Self::generate_ntt_table(log_n)?));
                }
                Self::init_ntt_table(&[log_n])?;""")], C26D,
 "sizes one and two", "every call makes its own table and the cache never gets one")
seed("c24_adicity", "C24",
 [(PRM, "for _ in 1..r {", "for _ in 1..r.min(32) {")],
 """use algebra::{modulus::BarrettModulus, utils::Prime};
fn main() {
    // 2-adicity 32 and below are fine; 27 * 2^56 + 1 and 29 * 2^57 + 1 need more squarings
    for p in [0x1b00000000000001u64, 0x3a00000000000001] {
        let m = BarrettModulus::<u64>::new(p);
        // a witness of primality: a^(p-1) = 1 and a^((p-1)/2) = -1, with the odd part below sqrt(p) (Proth)
        let proth = (2..200u64).any(|a| { let mut r = 1u128; let mut b = a as u128; let mut e = (p - 1) / 2; while e > 0 { if e & 1 == 1 { r = r * b % p as u128 } b = b * b % p as u128; e >>= 1 } r == p as u128 - 1 });
        if proth { for _ in 0..20 { assert!(m.probably_prime(20), "{p}"); } } else { println!("{p} not a Proth prime"); std::process::exit(3); }
    }
}
""", "a prime p with p - 1 divisible by 2^34 or more", "such primes are reported composite")
seed("c25_brms_dims", "C25",
 [(SK, "assert_eq!(params.lwe_dimension(), params.ring_dimension());", "assert!(params.lwe_dimension() <= params.ring_dimension());")],
 PREL + """fn main() {
    let mk = |n: usize| {
        let p = Parameters::<u16, F>::new(ConstParameters {
            lwe_dimension: n, lwe_plain_modulus: 4, lwe_cipher_modulus: 1024, lwe_noise_standard_deviation: 3.2,
            lwe_secret_key_type: LWESecretKeyType::Binary, ring_dimension: 16, ring_modulus: F::MODULUS_VALUE, ring_noise_standard_deviation: 1.5,
            ring_secret_key_type: RingSecretKeyType::Binary, blind_rotation_basis_bits: 4, steps: Steps::BrMs, key_switching_basis_bits: 2, key_switching_standard_deviation: 6.4,
        }).unwrap();
        std::panic::catch_unwind(|| { let mut r = StdRng::seed_from_u64(1); let _: u8 = r.gen(); SecretKeyPack::new(p, &mut r).ring_secret_key().coeff_count() })
    };
    assert_eq!(mk(16).unwrap(), 16);
    for n in [8, 15, 17, 32] { assert!(mk(n).is_err(), "dimension {n} accepted"); }
}
""", "bootstrapping that ends in a modulus switch with an LWE dimension below the ring's", "a ring key shorter than the ring dimension is made instead of refusing")
seed("c23_max_edge", "C23",
 [("algebra/src/random.rs", "if max_std_dev <= std_dev || std_dev < 0. {", "if max_std_dev.abs() <= std_dev || std_dev < 0. {")],
 """use algebra::FieldDiscreteGaussianSampler as G;
fn main() {
    assert!(G::new_with_max(0.0, 3.2, 20.0).is_ok());
    for (s, m) in [(3.2, 3.2), (3.2, 1.0), (-1.0, 5.0), (3.2, -20.0), (1.0, -1.5)] { assert!(G::new_with_max(0.0, s, m).is_err(), "{s} {m}"); }
}
""", "a negative maximum larger in magnitude than the deviation", "the sampler is built and can never return")
