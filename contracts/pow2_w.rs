pub assume_specification[ $T::wrapping_neg ](a: $T) -> (r: $T)
    ensures r as int == (if a == 0 { 0int } else { $BIGB - a });
pub assume_specification[ $T::is_power_of_two ](a: $T) -> (r: bool)
    ensures r == (exists|k: nat| k < $BITS && a == #[trigger] pow2(k));
proof fn lemma_is2_$T(a: $T)
    ensures a > 1 ==> ((exists|k: nat| k < $BITS && a == #[trigger] pow2(k)) <==> is2_$T(a as int)), a <= 1 ==> !is2_$T(a as int),
{
    lemma_pow2_step(0);
    if a <= 1 && is2_$T(a as int) {
        let k = choose|k: nat| 1 <= k < $BITS && a as int == #[trigger] pow2(k); lemma_pow2_step((k - 1) as nat);
    }
}
