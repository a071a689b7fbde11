"""C01: wide-word primitives"""
from common import *
def add_mul(v, w):
    """contracts of widening / carrying multiplication at one width"""
    lem = "lemma_wide_$T(%s);"
    v.text("""
pub open spec fn lo_$T(x: int) -> int { x % $B }
pub open spec fn hi_$T(x: int) -> int { x / $B }
proof fn lemma_split_$T(x: $W)
    ensures (x as $T) as int == x as int % $B, ((x >> $BITSu32) as $T) as int == x as int / $B,
{
    assert((x as $T) == x % ($B as $W) && ((x >> $BITSu32) as $T) as $W == x / ($B as $W)) by (bit_vector);
}
proof fn lemma_cast_$T(a: $T, b: $T, c: $T)
    ensures 0 <= a * b + c < $BB, 0 <= a * b < $BB,
       forall|x: $W| #![trigger x as $T] (x as $T) as int == x as int % $B,
       forall|x: $W| #![trigger (x >> $BITSu32)] ((x >> $BITSu32) as $T) as int == x as int / $B,
{
    assert(0 <= a * b <= ($B - 1) * ($B - 1)) by (nonlinear_arith) requires 0 <= a < $B, 0 <= b < $B;
    assert forall|x: $W| #![trigger x as $T] (x as $T) as int == x as int % $B by { lemma_split_$T(x); }
    assert forall|x: $W| #![trigger (x >> $BITSu32)] ((x >> $BITSu32) as $T) as int == x as int / $B by { lemma_split_$T(x); }
}
""", w)
    h = "lemma_cast_$T($0, $1, 0);"
    v.fn("WideningMul for $T", "widening_mul", env=w, post=["$r.0 as int == ($0 * $1) % $B", "$r.1 as int == ($0 * $1) / $B as int"], hints=h)
    v.fn("WideningMul for $T", "widening_mul_hw", env=w, post=["$r as int == ($0 * $1) / $B as int"], hints=h)
    h = "lemma_cast_$T($0, $1, $2);"
    v.fn("CarryingMul for $T", "carrying_mul", env=w, post=["$r.0 as int == ($0 * $1 + $2) % $B as int", "$r.1 as int == ($0 * $1 + $2) / $B as int"], hints=h)
    v.fn("CarryingMul for $T", "carrying_mul_hw", env=w, post=["$r as int == ($0 * $1 + $2) / $B as int"], hints=h)
def add_carry(v, w):
    b = w["BITS"]
    for nm, tr, intr in (("carrying_add", "CarryingAdd", "addcarry"), ("borrowing_sub", "BorrowingSub", "subborrow")):
        if nm == "carrying_add":
            post = ["$r.0 as int + (if $r.1 { $B as int } else { 0 }) == $0 + $1 + (if $2 { 1int } else { 0 })"]
        else:
            post = ["$r.0 as int - (if $r.1 { $B as int } else { 0 }) == $0 - $1 - (if $2 { 1int } else { 0 })"]
        if b in (32, 64):
            s = "+" if nm == "carrying_add" else "-"
            v.text("""
#[verifier::external_body]
pub unsafe fn _%(i)s_$T(c: u8, a: $T, b: $T, out: &mut $T) -> (r: u8)
    ensures r == 0 || r == 1, (*final(out)) as int %(s)s r * $B == a %(s)s b %(s)s (if c != 0 { 1int } else { 0 }),
{ unimplemented!() }
""" % dict(i=intr, s=s), w)
            v.fn("", intr + "_$T", env=w, post=post)
        v.fn(tr + " for $T", nm, env=w, post=post)
def rev(v, w):
    v.text("""
pub assume_specification[ $T::reverse_bits ](a: $T) -> (r: $T)
    ensures forall|i: $T| i < $BITS ==> #[trigger] ((r >> i) & 1) == (a >> sub(($BITS - 1) as $T, i)) & 1;
proof fn lemma_rev_$T(x: $T, v: $T, n: u32)
    requires 0 < n < $BITS, forall|i: $T| i < $BITS ==> #[trigger] ((v >> i) & 1) == (x >> sub(($BITS - 1) as $T, i)) & 1,
    ensures ({ let r = v >> sub($BITSu32, n) as $T; reversed_$T(x, n, r) }),
{
    let r = v >> sub($BITSu32, n) as $T;
    let nn = n as $T;
    assert forall|i: $T| i < n implies #[trigger] ((r >> i) & 1) == (x >> sub(sub(nn, 1), i)) & 1 by {
        let j = add(sub($BITS as $T, nn), i);
        assert(j < $BITS);
        assert((v >> j) & 1 == (x >> sub(($BITS - 1) as $T, j)) & 1);
        assert(((v >> sub($BITS as $T, nn)) >> i) & 1 == (v >> add(sub($BITS as $T, nn), i)) & 1) by (bit_vector) requires 0 < nn < $BITS, i < nn;
    }
    assert forall|i: $T| n <= i < $BITS implies #[trigger] ((r >> i) & 1) == 0 by {
        assert(((v >> sub($BITS as $T, nn)) >> i) & 1 == 0) by (bit_vector) requires 0 < nn < $BITS, nn <= i < $BITS;
    }
}
pub open spec fn reversed_$T(x: $T, n: u32, r: $T) -> bool {
    &&& forall|i: $T| i < n ==> #[trigger] ((r >> i) & 1) == (x >> sub(sub(n as $T, 1), i)) & 1
    &&& forall|i: $T| n <= i < $BITS ==> #[trigger] ((r >> i) & 1) == 0
}
proof fn lemma_rev0_$T(x: $T, n: u32, z: $T)
    requires n < $BITS, x == 0 || n == 0, z == 0, ensures reversed_$T(x, n, z),
{
    assert forall|i: $T| i < $BITS implies #[trigger] ((z >> i) & 1) == 0 by { assert((z >> i) & 1 == 0) by (bit_vector) requires z == 0, i < $BITS; }
    assert forall|i: $T| i < n implies #[trigger] ((z >> i) & 1) == (x >> sub(sub(n as $T, 1), i)) & 1 by {
        let j = sub(sub(n as $T, 1), i);
        assert((z >> i) & 1 == 0) by (bit_vector) requires z == 0, i < $BITS;
        if x == 0 { assert((x >> j) & 1 == 0) by (bit_vector) requires j < $BITS, x == 0; }
    }
}
""", w)
    v.fn("ReverseLsbs for $T", "reverse_lsbs", env=w, pre="$1 < $BITS", post="reversed_$T($0, $1, $r)",
         hints="if $0 == 0 || $1 == 0 { lemma_rev0_$T($0, $1, 0); } else { assert forall|v: $T| (forall|i: $T| i < $BITS ==> #[trigger] ((v >> i) & 1) == ($0 >> sub(($BITS - 1) as $T, i)) & 1) implies reversed_$T($0, $1, #[trigger] (v >> (sub($BITSu32, $1)))) by { lemma_rev_$T($0, v, $1); assert(v >> (sub($BITSu32, $1)) == v >> (sub($BITSu32, $1) as $T)) by (bit_vector) requires 0 < $1 < $BITS; } }")
from vlib import VFile
def build(widths=WIDTHS, name="c01_wide"):
    v = VFile(name)
    std(v, widths)
    for w in widths:
        add_mul(v, w)
        add_carry(v, w)
        rev(v, w)
    for e in (dict(T="u128", BITS=128), dict(T="usize", BITS=64)):
        rev(v, dict(widths[0], **e))
    return v
