import Mathlib.NumberTheory.LucasPrimality
import Mathlib.FieldTheory.Finite.Basic
import Mathlib.RingTheory.RootsOfUnity.PrimitiveRoots
import Mathlib.Tactic.NormNum.Prime
import Mathlib.Tactic.ReduceModChar
/-! The number-theoretic facts the Verus files take as axioms (`axiom_fermat_*`, `axiom_prime_*`),
    proved here and checked by Lean's kernel: they speak about constants only, not about the code. -/
theorem dv {q a b : ℕ} (hq : q.Prime) (h : q ∣ a * b) : q ∣ a ∨ q ∣ b := (Nat.Prime.dvd_mul hq).1 h
theorem dp {q a k : ℕ} (hq : q.Prime) (ha : a.Prime) (h : q ∣ a ^ k) : q = a :=
  (Nat.prime_dvd_prime_iff_eq hq ha).1 (hq.dvd_of_dvd_pow h)
theorem fermat {p : ℕ} (hp : p.Prime) (a : ℕ) (h : a % p ≠ 0) : a ^ (p - 1) % p = 1 := by
  have := Fact.mk hp
  have h0 : (a : ZMod p) ≠ 0 := by
    intro h1
    exact h (Nat.mod_eq_zero_of_dvd ((ZMod.natCast_eq_zero_iff a p).1 h1))
  have h2 := ZMod.pow_card_sub_one_eq_one h0
  have h3 : ((a ^ (p - 1) : ℕ) : ZMod p) = ((1 : ℕ) : ZMod p) := by push_cast; exact h2
  have h4 := (ZMod.natCast_eq_natCast_iff' _ _ _).1 h3
  rwa [Nat.mod_eq_of_lt hp.one_lt] at h4
theorem babybear_prime : Nat.Prime 2013265921 := by
  refine lucas_primality _ (31 : ZMod 2013265921) (by reduce_mod_char) ?_
  intro q hq hd
  have e : 2013265921 - 1 = 2 ^ 27 * (3 ^ 1 * (5 ^ 1)) := by norm_num
  rw [e] at hd
  rcases dv hq hd with h | h
  · rw [dp hq (by norm_num : Nat.Prime 2) h]; norm_num; reduce_mod_char; decide
  rcases dv hq h with h | h
  · rw [dp hq (by norm_num : Nat.Prime 3) h]; norm_num; reduce_mod_char; decide
  · rw [dp hq (by norm_num : Nat.Prime 5) h]; norm_num; reduce_mod_char; decide
/-- axiom_prime_babybear -/
theorem babybear_divisors (d : ℕ) (h : d ∣ 2013265921) : d = 1 ∨ d = 2013265921 := (Nat.dvd_prime babybear_prime).1 h
/-- axiom_fermat_babybear -/
theorem babybear_fermat (a : ℕ) (h : a % 2013265921 ≠ 0) : a ^ (2013265921 - 1) % 2013265921 = 1 := fermat babybear_prime a h
theorem goldilocks_prime : Nat.Prime 18446744069414584321 := by
  refine lucas_primality _ (7 : ZMod 18446744069414584321) (by reduce_mod_char) ?_
  intro q hq hd
  have e : 18446744069414584321 - 1 = 2 ^ 32 * (3 ^ 1 * (5 ^ 1 * (17 ^ 1 * (257 ^ 1 * (65537 ^ 1))))) := by norm_num
  rw [e] at hd
  rcases dv hq hd with h | h
  · rw [dp hq (by norm_num : Nat.Prime 2) h]; norm_num; reduce_mod_char; decide
  rcases dv hq h with h | h
  · rw [dp hq (by norm_num : Nat.Prime 3) h]; norm_num; reduce_mod_char; decide
  rcases dv hq h with h | h
  · rw [dp hq (by norm_num : Nat.Prime 5) h]; norm_num; reduce_mod_char; decide
  rcases dv hq h with h | h
  · rw [dp hq (by norm_num : Nat.Prime 17) h]; norm_num; reduce_mod_char; decide
  rcases dv hq h with h | h
  · rw [dp hq (by norm_num : Nat.Prime 257) h]; norm_num; reduce_mod_char; decide
  · rw [dp hq (by norm_num : Nat.Prime 65537) h]; norm_num; reduce_mod_char; decide
/-- axiom_prime_goldilocks -/
theorem goldilocks_divisors (d : ℕ) (h : d ∣ 18446744069414584321) : d = 1 ∨ d = 18446744069414584321 := (Nat.dvd_prime goldilocks_prime).1 h
/-- axiom_fermat_goldilocks -/
theorem goldilocks_fermat (a : ℕ) (h : a % 18446744069414584321 ≠ 0) : a ^ (18446744069414584321 - 1) % 18446744069414584321 = 1 := fermat goldilocks_prime a h
theorem field_u32_prime : Nat.Prime 132120577 := by
  refine lucas_primality _ (5 : ZMod 132120577) (by reduce_mod_char) ?_
  intro q hq hd
  have e : 132120577 - 1 = 2 ^ 21 * (3 ^ 2 * (7 ^ 1)) := by norm_num
  rw [e] at hd
  rcases dv hq hd with h | h
  · rw [dp hq (by norm_num : Nat.Prime 2) h]; norm_num; reduce_mod_char; decide
  rcases dv hq h with h | h
  · rw [dp hq (by norm_num : Nat.Prime 3) h]; norm_num; reduce_mod_char; decide
  · rw [dp hq (by norm_num : Nat.Prime 7) h]; norm_num; reduce_mod_char; decide
/-- axiom_prime_field_u32 -/
theorem field_u32_divisors (d : ℕ) (h : d ∣ 132120577) : d = 1 ∨ d = 132120577 := (Nat.dvd_prime field_u32_prime).1 h
/-- axiom_fermat_field_u32 -/
theorem field_u32_fermat (a : ℕ) (h : a % 132120577 ≠ 0) : a ^ (132120577 - 1) % 132120577 = 1 := fermat field_u32_prime a h
theorem qks_prime : Nat.Prime 15361 := by
  refine lucas_primality _ (7 : ZMod 15361) (by reduce_mod_char) ?_
  intro q hq hd
  have e : 15361 - 1 = 2 ^ 10 * (3 ^ 1 * (5 ^ 1)) := by norm_num
  rw [e] at hd
  rcases dv hq hd with h | h
  · rw [dp hq (by norm_num : Nat.Prime 2) h]; norm_num; reduce_mod_char; decide
  rcases dv hq h with h | h
  · rw [dp hq (by norm_num : Nat.Prime 3) h]; norm_num; reduce_mod_char; decide
  · rw [dp hq (by norm_num : Nat.Prime 5) h]; norm_num; reduce_mod_char; decide
/-- axiom_prime_qks -/
theorem qks_divisors (d : ℕ) (h : d ∣ 15361) : d = 1 ∨ d = 15361 := (Nat.dvd_prime qks_prime).1 h
/-- axiom_fermat_qks -/
theorem qks_fermat (a : ℕ) (h : a % 15361 ≠ 0) : a ^ (15361 - 1) % 15361 = 1 := fermat qks_prime a h
theorem v8_prime : Nat.Prime 17 := by
  norm_num
/-- axiom_prime_v8 -/
theorem v8_divisors (d : ℕ) (h : d ∣ 17) : d = 1 ∨ d = 17 := (Nat.dvd_prime v8_prime).1 h
/-- axiom_fermat_v8 -/
theorem v8_fermat (a : ℕ) (h : a % 17 ≠ 0) : a ^ (17 - 1) % 17 = 1 := fermat v8_prime a h
theorem v32_prime : Nat.Prime 1073479681 := by
  refine lucas_primality _ (11 : ZMod 1073479681) (by reduce_mod_char) ?_
  intro q hq hd
  have e : 1073479681 - 1 = 2 ^ 18 * (3 ^ 2 * (5 ^ 1 * (7 ^ 1 * (13 ^ 1)))) := by norm_num
  rw [e] at hd
  rcases dv hq hd with h | h
  · rw [dp hq (by norm_num : Nat.Prime 2) h]; norm_num; reduce_mod_char; decide
  rcases dv hq h with h | h
  · rw [dp hq (by norm_num : Nat.Prime 3) h]; norm_num; reduce_mod_char; decide
  rcases dv hq h with h | h
  · rw [dp hq (by norm_num : Nat.Prime 5) h]; norm_num; reduce_mod_char; decide
  rcases dv hq h with h | h
  · rw [dp hq (by norm_num : Nat.Prime 7) h]; norm_num; reduce_mod_char; decide
  · rw [dp hq (by norm_num : Nat.Prime 13) h]; norm_num; reduce_mod_char; decide
/-- axiom_prime_v32 -/
theorem v32_divisors (d : ℕ) (h : d ∣ 1073479681) : d = 1 ∨ d = 1073479681 := (Nat.dvd_prime v32_prime).1 h
/-- axiom_fermat_v32 -/
theorem v32_fermat (a : ℕ) (h : a % 1073479681 ≠ 0) : a ^ (1073479681 - 1) % 1073479681 = 1 := fermat v32_prime a h
theorem v64_prime : Nat.Prime 4611686018427322369 := by
  refine lucas_primality _ (7 : ZMod 4611686018427322369) (by reduce_mod_char) ?_
  intro q hq hd
  have e : 4611686018427322369 - 1 = 2 ^ 16 * (3 ^ 1 * (47 ^ 1 * (178481 ^ 1 * (2796203 ^ 1)))) := by norm_num
  rw [e] at hd
  rcases dv hq hd with h | h
  · rw [dp hq (by norm_num : Nat.Prime 2) h]; norm_num; reduce_mod_char; decide
  rcases dv hq h with h | h
  · rw [dp hq (by norm_num : Nat.Prime 3) h]; norm_num; reduce_mod_char; decide
  rcases dv hq h with h | h
  · rw [dp hq (by norm_num : Nat.Prime 47) h]; norm_num; reduce_mod_char; decide
  rcases dv hq h with h | h
  · rw [dp hq (by norm_num : Nat.Prime 178481) h]; norm_num; reduce_mod_char; decide
  · rw [dp hq (by norm_num : Nat.Prime 2796203) h]; norm_num; reduce_mod_char; decide
/-- axiom_prime_v64 -/
theorem v64_divisors (d : ℕ) (h : d ∣ 4611686018427322369) : d = 1 ∨ d = 4611686018427322369 := (Nat.dvd_prime v64_prime).1 h
/-- axiom_fermat_v64 -/
theorem v64_fermat (a : ℕ) (h : a % 4611686018427322369 ≠ 0) : a ^ (4611686018427322369 - 1) % 4611686018427322369 = 1 := fermat v64_prime a h

/-- axiom_fermat and axiom_sqrt1 of contracts/prime.rs: primality as the Verus file states it -/
theorem vprime {p : ℕ} (h2 : 2 ≤ p) (h : ∀ d, 2 ≤ d → d < p → p % d ≠ 0) : p.Prime := by
  rw [Nat.prime_def_lt]
  refine ⟨h2, fun m hm hd => ?_⟩
  by_contra h1
  have h0 : m ≠ 0 := by
    rintro rfl
    have := Nat.eq_zero_of_zero_dvd hd
    omega
  exact h m (by omega) hm (Nat.mod_eq_zero_of_dvd hd)
theorem vprime_fermat (p a : ℕ) (h2 : 2 ≤ p) (h : ∀ d, 2 ≤ d → d < p → p % d ≠ 0) (h0 : 0 < a) (hl : a < p) : a ^ (p - 1) % p = 1 :=
  fermat (vprime h2 h) a (by rw [Nat.mod_eq_of_lt hl]; omega)
theorem vprime_sqrt1 (p x : ℕ) (h2 : 2 ≤ p) (h : ∀ d, 2 ≤ d → d < p → p % d ≠ 0) (hl : x < p) (h1 : x * x % p = 1) : x = 1 ∨ x = p - 1 := by
  have hp := vprime h2 h
  have hx : 1 ≤ x := by
    rcases Nat.eq_zero_or_pos x with rfl | hx
    · simp at h1
    · exact hx
  have e : x * x = (x - 1) * (x + 1) + 1 := by
    obtain ⟨y, rfl⟩ := Nat.exists_eq_add_of_le hx
    simp only [Nat.add_sub_cancel_left]
    ring
  have hd : p ∣ (x - 1) * (x + 1) := by
    have h3 : x * x ≡ 1 [MOD p] := by
      show x * x % p = 1 % p
      rw [h1, Nat.mod_eq_of_lt hp.one_lt]
    have h4 := (Nat.modEq_iff_dvd' (by rw [e]; omega)).1 h3.symm
    rwa [e, Nat.add_sub_cancel] at h4
  rcases (Nat.Prime.dvd_mul hp).1 hd with h5 | h5
  · left
    have := Nat.eq_zero_of_dvd_of_lt h5 (by omega)
    omega
  · right
    have := Nat.le_of_dvd (by omega) h5
    omega
/-- axiom_oddroots of contracts/cache.rs: modulo an odd prime, the roots of X^(2^k) + 1 are the odd powers of any one of them -/
theorem odd_roots {p : ℕ} (hp : p.Prime) (h2 : 2 < p) (k w v : ℕ) (hw : w ^ 2 ^ k % p = p - 1) (hv : v ^ 2 ^ k % p = p - 1) (hl : v < p) :
    ∃ i, v = w ^ (2 * i + 1) % p := by
  have := Fact.mk hp
  have f2 : Fact (2 < p) := ⟨h2⟩
  have key : ∀ x : ℕ, x ^ 2 ^ k % p = p - 1 → ((x : ZMod p)) ^ 2 ^ k = -1 := by
    intro x hx
    have h : ((x ^ 2 ^ k : ℕ) : ZMod p) = ((p - 1 : ℕ) : ZMod p) :=
      (ZMod.natCast_eq_natCast_iff' _ _ _).2 (by rw [hx, Nat.mod_eq_of_lt (by omega)])
    rw [Nat.cast_sub (by omega)] at h
    push_cast at h
    rw [h]; simp
  have hw1 := key w hw
  have hv1 := key v hv
  have sq : ∀ x : ZMod p, x ^ 2 ^ k = -1 → x ^ 2 ^ (k + 1) = 1 := by
    intro x hx
    rw [pow_succ, pow_mul, hx]; ring
  have hne : (-1 : ZMod p) ≠ 1 := ZMod.neg_one_ne_one
  have ho : orderOf (w : ZMod p) = 2 ^ (k + 1) :=
    orderOf_eq_prime_pow (by rw [hw1]; exact hne) (sq _ hw1)
  have hr : IsPrimitiveRoot (w : ZMod p) (2 ^ (k + 1)) := by
    rw [← ho]; exact IsPrimitiveRoot.orderOf _
  obtain ⟨i, _, hi⟩ := hr.eq_pow_of_pow_eq_one (sq _ hv1)
  rcases Nat.even_or_odd i with ⟨j, hj⟩ | ⟨j, hj⟩
  · exfalso
    apply hne
    rw [← hv1, ← hi, hj, ← pow_mul, show (j + j) * 2 ^ k = 2 ^ (k + 1) * j by ring, pow_mul, sq _ hw1, one_pow]
  · refine ⟨j, ?_⟩
    rw [← hj, ← Nat.mod_eq_of_lt hl]
    rw [← ZMod.natCast_eq_natCast_iff']
    push_cast
    exact hi.symm
