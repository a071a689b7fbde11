// std contracts at $T
pub assume_specification[ $T::overflowing_add ](a: $T, b: $T) -> (r: ($T, bool))
    ensures r.0 as int == (if a + b < $B { a + b } else { a + b - $B }), r.1 == (a + b >= $B);
pub assume_specification[ $T::overflowing_sub ](a: $T, b: $T) -> (r: ($T, bool))
    ensures r.0 as int == (if a >= b { a - b } else { a - b + $B }), r.1 == (a < b);
pub assume_specification[ $T::wrapping_neg ](a: $T) -> (r: $T)
    ensures r as int == (if a == 0 { 0int } else { $B - a });
