"""C03 modular add/sub/neg; C04 multiplication + Shoup"""
from common import *
import wide, barrett
from vlib import VFile
MATH = """
proof fn lemma_mod_add_c(x: int, m: int)
    requires m > 0, 0 <= x < 2 * m, ensures x % m == (if x >= m { x - m } else { x }),
{ if x >= m { lemma_mod_shift(x, x - m, 1, m); lemma_small_mod((x - m) as nat, m as nat); } else { lemma_small_mod(x as nat, m as nat); } }
proof fn lemma_mod_sub_c(x: int, m: int)
    requires m > 0, -m <= x < m, ensures x % m == (if x >= 0 { x } else { if x == -m { 0 } else { x + m } }),
{ if x >= 0 { lemma_small_mod(x as nat, m as nat); } else if x == -m { lemma_mod_shift(0, x, 1, m); lemma_small_mod(0, m as nat); } else { lemma_mod_shift(x + m, x, 1, m); lemma_small_mod((x + m) as nat, m as nat); } }
"""
def asg(post):
    """in-place form of a postcondition over $0,$r"""
    return [p.replace("$0", "$o0").replace("$r", "$n0") for p in (post if isinstance(post, list) else [post])]
def addsubneg(v, w, plain_only=False):
    """plain modulus and the () (native wrapping) modulus"""
    pre2 = ["0 < $2", "2 * $2 <= $B", "$0 < $2", "$1 < $2"]
    pre1 = ["0 < $1", "$0 < $1"]
    ha = "lemma_mod_add_c($a0 + $1, $2 as int);"
    hs = "lemma_mod_sub_c($a0 - $1, $2 as int);"
    hn = "lemma_mod_sub_c(-($a0 as int), $1 as int);"
    for op, o, h in (("Add", "+", ha), ("Sub", "-", hs)):
        m = op.lower() + "_reduce"
        post = ["$r as int == ($0 %s $1) %% ($2 as int)" % o]
        v.fn("%sReduce for $T" % op if False else "%sReduce<$T> for $T" % op, m, env=w, pre=pre2, post=post, hints=h)
        v.fn("%sReduceAssign<$T> for $T" % op, m + "_assign", env=w, pre=[p.replace("$0", "$o0") for p in pre2], post=asg(post), hints=h.replace("$a0", "$o0"))
    post = ["$r as int == (-($0 as int)) % ($1 as int)"]
    v.fn("NegReduce<$T> for $T", "neg_reduce", env=w, pre=pre1, post=post, hints=hn)
    v.fn("NegReduceAssign<$T> for $T", "neg_reduce_assign", env=w, pre=[p.replace("$0", "$o0") for p in pre1], post=asg(post), hints=hn.replace("$a0", "$o0"))
def native(v, w):
    hm = "lemma_canon($B); lemma_sub_mod_noop_right(0, 0, $B);"
    for op, o in (("Add", "+"), ("Sub", "-"), ("Mul", "*")):
        m = op.lower() + "_reduce"
        post = ["$r as int == ($0 %s $1) %% $B" % o]
        h = "lemma_mod_add_c($a0 + $1, $B);" if op == "Add" else "lemma_mod_sub_c($a0 - $1, $B);" if op == "Sub" else ""
        v.fn("%sReduce<()> for $T" % op, m, env=w, post=post, hints=h)
        v.fn("%sReduceAssign<()> for $T" % op, m + "_assign", env=w, post=asg(post), hints=h.replace("$a0", "$o0"))
    post = ["$r as int == (-($0 as int)) % $B"]
    h = "lemma_mod_sub_c(-($a0 as int), $B);"
    v.fn("NegReduce<()> for $T", "neg_reduce", env=w, post=post, hints=h)
    v.fn("NegReduceAssign<()> for $T", "neg_reduce_assign", env=w, post=asg(post), hints=h.replace("$a0", "$o0"))
    v.fn("Reduce<()> for $T", "reduce", env=w, post="$r == $0")
    v.fn("ReduceAssign<()> for $T", "reduce_assign", env=w, post="$n0 == $o0")
def barrett_delegates(v, w):
    S = {"T": "$T"}
    M = "($2.value as int)"
    pre2 = ["wf_$T($2)", "$0 < $2.value", "$1 < $2.value"]
    for op, o in (("Add", "+"), ("Sub", "-")):
        m = op.lower() + "_reduce"
        post = ["$r as int == ($0 %s $1) %% ($2.value as int)" % o]
        v.fn("%sReduce<BarrettModulus<$T>> for $T" % op, m, env=w, subst=S, pre=pre2, post=post)
        v.fn("%sReduceAssign<BarrettModulus<$T>> for $T" % op, m + "_assign", env=w, subst=S, pre=[p.replace("$0", "$o0") for p in pre2], post=asg(post))
    post = ["$r as int == (-($0 as int)) % ($1.value as int)"]
    v.fn("NegReduce<BarrettModulus<$T>> for $T", "neg_reduce", env=w, subst=S, pre=["wf_$T($1)", "$0 < $1.value"], post=post)
    v.fn("NegReduceAssign<BarrettModulus<$T>> for $T", "neg_reduce_assign", env=w, subst=S, pre=["wf_$T($1)", "$o0 < $1.value"], post=asg(post))
def value_ratio(v):
    v.struct("BarrettModulus", gens="<T: Copy>")
    v.fn("BarrettModulus<T>", "value", post="$r == $0.value", method_of="<T: Copy> BarrettModulus<T>")
    v.fn("BarrettModulus<T>", "ratio", post="$r == $0.ratio", method_of="<T: Copy> BarrettModulus<T>")
def build(widths=WIDTHS, name="c03_modops"):
    v = VFile(name)
    std(v, widths)
    v.include("barrett.rs")
    v.text(MATH)
    value_ratio(v)
    for w in widths:
        barrett.specs(v, w)
        addsubneg(v, w)
        barrett_delegates(v, w)
        native(v, w)
    return v

SHOUP = """
/// Shoup: w = floor(v*b/m), hw = floor(w*x/b):  v*x - hw*m in [0, 2m)
proof fn lemma_shoup(b: int, m: int, v: int, x: int, w: int, hw: int)
    requires b > 0, 0 < m, 2 * m <= b, 0 <= v < m, 0 <= x < b, w == (v * b) / m, hw == (w * x) / b,
    ensures 0 <= v * x - hw * m < 2 * m, 0 <= hw, 0 <= w < b, (v * x - hw * m) % m == (v * x) % m,
{
    lemma_digit(b, v, m);
    lemma_fundamental_div_mod(v * b, m);
    lemma_mod_bound(v * b, m);
    assert(0 <= w * x) by (nonlinear_arith) requires 0 <= w, 0 <= x;
    lemma_fundamental_div_mod(w * x, b);
    lemma_mod_bound(w * x, b);
    lemma_div_pos_is_pos(w * x, b);
    let e = (v * b) % m;
    let f = (w * x) % b;
    // v*b == m*w + e ; w*x == b*hw + f
    // b*(v*x - hw*m) == x*(m*w+e) - m*(w*x - f) == x*e + m*f
    assert(b * (v * x - hw * m) == x * e + m * f) by {
        assert(b * (v * x - hw * m) == x * (v * b) - m * (b * hw)) by (nonlinear_arith);
        assert(x * (m * w + e) == m * (w * x) + x * e) by (nonlinear_arith);
        assert(m * (w * x - f) == m * (w * x) - m * f) by (nonlinear_arith);
    }
    assert(0 <= x * e < b * m) by (nonlinear_arith) requires 0 <= x < b, 0 <= e < m;
    assert(0 <= m * f < m * b) by (nonlinear_arith) requires 0 <= f < b, m > 0;
    let d = v * x - hw * m;
    assert(m * b == b * m) by (nonlinear_arith);
    assert(0 <= d) by (nonlinear_arith) requires b * d >= 0, b > 0;
    assert(d < 2 * m) by (nonlinear_arith) requires b * d < 2 * (b * m), b > 0;
    lemma_mod_shift(v * x, d, hw, m);
}
proof fn lemma_wrap_mul_sub(b: int, p: int, q: int, d: int)
    requires b > 0, p - q == d, 0 <= d < b,
    ensures (p % b - q % b) % b == d,
{
    lemma_sub_mod_noop(p, q, b);
    lemma_small_mod(d as nat, b as nat);
}
"""
def mul(v, w):
    S = {"T": "$T"}
    pre = ["wf_$T($2)"]
    exact = ["$r as int == ($0 * $1) % ($2.value as int)"]
    lazy = ["($r as int) < 2 * $2.value", "$r as int % $2.value as int == ($0 * $1) % ($2.value as int)"]
    h = "lemma_split2_$T($a0 as int, $1 as int);"
    v.text("""
proof fn lemma_split2_$T(a: int, b: int)
    requires 0 <= a < $B, 0 <= b < $B,
    ensures (a * b) % $B + ((a * b) / $B) * $B == a * b, 0 <= a * b,
{ lemma_fundamental_div_mod(a * b, $B); assert(0 <= a * b) by (nonlinear_arith) requires a >= 0, b >= 0; }
""", w)
    for tr, nm, po in (("MulReduce", "mul_reduce", exact), ("LazyMulReduce", "lazy_mul_reduce", lazy)):
        v.fn(tr + "<BarrettModulus<$T>> for $T", nm, env=w, subst=S, pre=pre, post=po, hints=h)
        v.fn(tr + "Assign<BarrettModulus<$T>> for $T", nm + "_assign", env=w, subst=S, pre=pre, post=asg(po), hints=h.replace("$a0", "$o0"))
def shoup(v, w):
    T = "ShoupFactor<$T>"
    v.text("""
pub open spec fn sh_wf_$T(f: ShoupFactor<$T>, m: int) -> bool { 0 < m && 2 * m <= $B && f.value < m && f.quotient as int == (f.value * $B) / m }
proof fn lemma_sh_new_$T(v: $T, m: $T)
    requires v < m,
    ensures ((v as $W) << $BITSu32) as int == v * $B, 0 <= (v * $B) / (m as int) < $B,
{
    lemma_shhi_$T(v);
    lemma_digit($B, v as int, m as int);
}
proof fn lemma_shhi_$T(x: $T)
    ensures ((x as $W) << $BITSu32) as int == x * $B,
{
    assert(((x as $W) << $BITSu32) == (x as $W) * ($B as $W)) by (bit_vector);
}
""", w)
    q = "$r.quotient as int == ($0 * $B) / ($1 as int)"
    v.fn(T, "new", env=w, pre=["$0 < $1"], post=["$r.value == $0", q], hints="lemma_sh_new_$T($0, $1);")
    v.fn(T, "set_modulus", env=w, pre=["$o0.value < $1"], post=["$n0.value == $o0.value", "$n0.quotient as int == ($o0.value * $B) / ($1 as int)"], hints="lemma_sh_new_$T($o0.value, $1);")
    v.fn(T, "set", env=w, pre=["$1 < $2"], post=["$n0.value == $1", "$n0.quotient as int == ($1 * $B) / ($2 as int)"])
    hs = "lemma_shoup($B, %(m)s as int, %(f)s.value as int, %(x)s as int, %(f)s.quotient as int, (%(f)s.quotient * %(x)s) / $B as int); lemma_wrap_mul_sub($B, %(f)s.value * %(x)s, ((%(f)s.quotient * %(x)s) / $B as int) * %(m)s, %(f)s.value * %(x)s - ((%(f)s.quotient * %(x)s) / $B as int) * %(m)s);"
    v.fn(T, "mul_reduce_lazy", env=w, pre=["sh_wf_$T($0, $2 as int)"], post=["($r as int) < 2 * $2", "$r as int % $2 as int == ($0.value * $1) % ($2 as int)"], hints=hs % dict(m="$2", f="$0", x="$1"))
    hc = "lemma_canon($2 as int); lemma_mul_is_commutative($a0 as int, $1.value as int);"
    v.fn("MulReduce<$T,ShoupFactor<$T>> for $T", "mul_reduce", env=w, pre=["sh_wf_$T($1, $2 as int)"], post=["$r as int == ($0 * $1.value) % ($2 as int)"], hints=hc)
    v.fn("MulReduce<$T,$T> for ShoupFactor<$T>", "mul_reduce", env=w, pre=["sh_wf_$T($0, $2 as int)"], post=["$r as int == ($0.value * $1) % ($2 as int)"], hints="lemma_canon($2 as int);")
    v.fn("MulReduceAssign<$T,ShoupFactor<$T>> for $T", "mul_reduce_assign", env=w, pre=["sh_wf_$T($1, $2 as int)"], post=["$n0 as int == ($o0 * $1.value) % ($2 as int)"], hints=hc.replace("$a0", "$o0"))
def build_mul(widths=WIDTHS, name="c04_mul"):
    v = VFile(name)
    std(v, widths)
    v.include("barrett.rs")
    v.text(SHOUP)
    v.struct("ShoupFactor", gens="<T: Copy>")
    v.fn("ShoupFactor<T>", "value", post="$r == $0.value", method_of="<T: Copy> ShoupFactor<T>")
    v.fn("ShoupFactor<T>", "quotient", post="$r == $0.quotient", method_of="<T: Copy> ShoupFactor<T>")
    value_ratio(v)
    for w in widths:
        wide.add_mul(v, w)
        barrett.specs(v, w)
        barrett.add_reduce(v, w)
        mul(v, w)
        shoup(v, w)
    return v
