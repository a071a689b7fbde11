// ---- dot products ------------------------------------------------------------------------
pub open spec fn dsum_$T(a: Seq<$T>, b: Seq<$T>, k: int) -> int
    decreases k,
{ if k <= 0 { 0 } else { dsum_$T(a, b, k - 1) + a[k - 1] * b[k - 1] } }
