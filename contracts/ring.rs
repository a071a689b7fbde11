// ---- the ring Z_P[X]/(X^n + 1) ---------------------------------------------------------------
/// sum of f over lo..hi
pub open spec fn sm(f: spec_fn(int) -> int, lo: int, hi: int) -> int decreases hi - lo { if hi <= lo { 0 } else { sm(f, lo, hi - 1) + f(hi - 1) } }
pub proof fn lemma_sm_split(f: spec_fn(int) -> int, lo: int, mid: int, hi: int) requires lo <= mid <= hi ensures sm(f, lo, hi) == sm(f, lo, mid) + sm(f, mid, hi) decreases hi - mid
{ if mid < hi { lemma_sm_split(f, lo, mid, hi - 1); } }
pub proof fn lemma_sm_rev(f: spec_fn(int) -> int, lo1: int, g: spec_fn(int) -> int, lo2: int, m: nat)
    requires forall|i: int| 0 <= i < m ==> #[trigger] g(lo2 + i) == f(lo1 + m - 1 - i),
    ensures sm(g, lo2, lo2 + m) == sm(f, lo1, lo1 + m), decreases m,
{
    if m > 0 {
        assert forall|i: int| 0 <= i < m - 1 implies #[trigger] g(lo2 + i) == f(lo1 + 1 + (m - 1) - 1 - i) by {}
        lemma_sm_rev(f, lo1 + 1, g, lo2, (m - 1) as nat);
        lemma_sm_split(f, lo1, lo1 + 1, lo1 + m);
        assert(sm(f, lo1, lo1 + 1) == sm(f, lo1, lo1) + f(lo1));
        assert(g(lo2 + (m - 1)) == f(lo1));
    }
}
/// term m of coefficient k
pub open spec fn nterm(a: Seq<int>, b: Seq<int>, k: int) -> spec_fn(int) -> int { |m: int| if m <= k { a[m] * b[k - m] } else { -(a[m] * b[a.len() + k - m]) } }
pub proof fn lemma_nsum_sm(a: Seq<int>, b: Seq<int>, k: int, m: nat) ensures nsum(a, b, k, m) == sm(nterm(a, b, k), 0, m as int) decreases m
{ if m > 0 { lemma_nsum_sm(a, b, k, (m - 1) as nat); } }
pub proof fn lemma_nsum_comm(a: Seq<int>, b: Seq<int>, k: int)
    requires a.len() == b.len(), 0 <= k < a.len(),
    ensures nsum(a, b, k, a.len()) == nsum(b, a, k, a.len()),
{
    let n = a.len();
    let (f, g) = (nterm(a, b, k), nterm(b, a, k));
    lemma_nsum_sm(a, b, k, n); lemma_nsum_sm(b, a, k, n);
    lemma_sm_split(f, 0, k + 1, n as int); lemma_sm_split(g, 0, k + 1, n as int);
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] g(0 + i) == f(0 + (k + 1) - 1 - i) by { assert(b[i] * a[k - i] == a[k - i] * b[i]) by (nonlinear_arith); }
    lemma_sm_rev(f, 0, g, 0, (k + 1) as nat);
    assert forall|i: int| 0 <= i < n - k - 1 implies #[trigger] g(k + 1 + i) == f(k + 1 + (n - k - 1) - 1 - i) by {
        let (u, v) = (b[k + 1 + i], a[n + k - (k + 1 + i)]);
        assert(u * v == v * u) by (nonlinear_arith);
    }
    lemma_sm_rev(f, k + 1, g, k + 1, (n - k - 1) as nat);
}
pub proof fn lemma_negmul_comm(a: Seq<int>, b: Seq<int>) requires a.len() == b.len() ensures negmul(a, b) == negmul(b, a)
{
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] negmul(a, b)[k] == negmul(b, a)[k] by { lemma_nsum_comm(a, b, k); }
    assert(negmul(a, b) =~= negmul(b, a));
}
/// coefficient vector of X^r modulo X^n + 1, 0 <= r <= 2n
pub open spec fn mono(n: nat, r: int) -> Seq<int> {
    Seq::new(n, |i: int| if r < n && i == r { 1int } else if n <= r < 2 * n && i == r - n { -1int } else if r == 2 * n && i == 0 { 1int } else { 0int })
}
/// the coefficients of X^r * a
pub open spec fn xmul(a: Seq<int>, r: int) -> Seq<int> {
    let n = a.len() as int;
    Seq::new(a.len(), |k: int| if r <= n { if k < r { fneg(a[n - r + k]) } else { a[k - r] } } else if k < r - n { a[2 * n - r + k] } else { fneg(a[k - (r - n)]) })
}
proof fn lemma_mono_sum(a: Seq<int>, r: int, k: int, m: nat)
    requires 0 <= r <= 2 * a.len(), 0 <= k < a.len(), m <= a.len(),
    ensures ({ let n = a.len() as int; let c = if r < n { r } else if r < 2 * n { r - n } else { 0 };
        nsum(mono(a.len(), r), a, k, m) == (if m <= c { 0 } else { mono(a.len(), r)[c] * (if c <= k { a[k - c] } else { -a[n + k - c] }) }) }),
    decreases m,
{
    let n = a.len() as int;
    let c = if r < n { r } else if r < 2 * n { r - n } else { 0 };
    let x = mono(a.len(), r);
    if m > 0 {
        lemma_mono_sum(a, r, k, (m - 1) as nat);
        let i = m - 1;
        let t = if i <= k { a[k - i] } else { a[n + k - i] };
        if i != c { assert(x[i] == 0); assert(0 * t == 0); }
        else { let q = x[c]; assert(-(q * t) == q * (-t)) by (nonlinear_arith); assert(nsum(x, a, k, (m - 1) as nat) == 0); }
    }
}
/// xmul is multiplication by X^r in the ring
pub proof fn lemma_xmul(a: Seq<int>, r: int)
    requires isres(a), a.len() > 0, 0 <= r <= 2 * a.len(),
    ensures xmul(a, r) == negmul(mono(a.len(), r), a),
{
    let n = a.len() as int;
    let x = mono(a.len(), r);
    axiom_p();
    assert forall|k: int| 0 <= k < n implies #[trigger] xmul(a, r)[k] == negmul(x, a)[k] by {
        lemma_mono_sum(a, r, k, a.len());
        let c = if r < n { r } else if r < 2 * n { r - n } else { 0 };
        let v = if c <= k { a[k - c] } else { -a[n + k - c] };
        assert(1 * v == v); assert(-1 * v == -v);
        assert(-(-a[if c <= k { 0 } else { n + k - c }]) == a[if c <= k { 0 } else { n + k - c }]);
        let j = if c <= k { k - c } else { n + k - c };
        lemma_small_mod(a[j] as nat, P() as nat);
    }
    assert(xmul(a, r) =~= negmul(x, a));
}
