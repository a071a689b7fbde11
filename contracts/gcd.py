"""C06: gcd, extended gcd, inverse, division"""
from common import *
import wide, barrett, modops, expdot
from vlib import VFile
def add_gcd(v, w):
    e = dict(w, E=w["T"], EBITS=w["BITS"], EMAX=w["MAX"])
    v.include("gcd_t.rs", e)
    G = "ExtendedGCD for $T"
    x, y = "__g0", "__g1"
    tz = "$T_trailing_zeros(%s)"
    st = "forall|g: int| #[trigger] isgcd(g, m as int, n as int) ==> isgcd(g * pow2(__s as nat), __g0 as int, __g1 as int)"
    v.fn(G, "gcd", env=e, post=["$0 != 0 && $1 != 0 ==> isgcd($r as int, $0 as int, $1 as int)", "$0 == 0 ==> $r == $1", "$1 == 0 ==> $r == $0"],
         hints="""assert(0 as $T | __g1 == __g1 && __g0 | 0 as $T == __g0) by (bit_vector);
            if __g0 != 0 && __g1 != 0 { lemma_or_tz_$T(__g0, __g1); lemma_odd_$T(__g0); lemma_odd_$T(__g1);
              let s = $T_trailing_zeros(__g0 | __g1) as nat; let a = __g0 >> $T_trailing_zeros(__g0); let b = __g1 >> $T_trailing_zeros(__g1);
              assert forall|g: int| #[trigger] isgcd(g, a as int, b as int) implies isgcd(g * pow2(s), __g0 as int, __g1 as int) by {
                let (t0, t1) = ($T_trailing_zeros(__g0) as nat, $T_trailing_zeros(__g1) as nat);
                if s == t1 { lemma_gcd_parts(g, a as int, b as int, s, t0); } else { lemma_gcd_sym(g, a as int, b as int); lemma_gcd_parts(g, b as int, a as int, s, t1); } } }""",
         loops={0: dict(inv=["m > 0", "n > 0", "m % 2 == 1", "n % 2 == 1", "__g0 > 0", "__g1 > 0", "shift == $T_trailing_zeros(__g0 | __g1)", "shift < $BITS", st.replace("__s", "shift")],
                        dec="m + n",
                        ghost="let ghost __m = m; let ghost __nn = n;",
                        head="if m > n { lemma_odd_$T((m - n) as $T); } else { lemma_odd_$T((n - m) as $T); }",
                        tail="""
                          assert forall|g: int| #[trigger] isgcd(g, m as int, n as int) implies isgcd(g * pow2(shift as nat), __g0 as int, __g1 as int) by {
                            if __m > __nn { let d = (__m - __nn) as $T; lemma_gcd_odd(g, m as int, n as int, $T_trailing_zeros(d) as nat); lemma_gcd_sub(g, __m as int, __nn as int); }
                            else { let d = (__nn - __m) as $T; lemma_gcd_sym(g, m as int, n as int); lemma_gcd_odd(g, n as int, m as int, $T_trailing_zeros(d) as nat); lemma_gcd_sub(g, __nn as int, __m as int); lemma_gcd_sym(g, __nn as int, __m as int); }
                          }
                        """,
                        after="lemma_gcd_self(m as int); lemma_gcd_le(m * pow2(shift as nat), __g0 as int, __g1 as int); lemma_shl_$T(m, shift as nat);")})
    v.fn(G, "coprime", env=e, pre=["$0 != 0", "$1 != 0"], post="$r == isgcd(1, $0 as int, $1 as int)", hints="if isgcd(1, $a0 as int, $1 as int) { lemma_uni_$T($a0, $1); }")
    v.fn(G, "not_coprime", env=e, pre=["$0 != 0", "$1 != 0"], post="$r == !isgcd(1, $0 as int, $1 as int)", hints="if isgcd(1, $a0 as int, $1 as int) { lemma_uni_$T($a0, $1); }")
    v.text("""proof fn lemma_uni_$T(a: $T, b: $T) ensures forall|g: int| #[trigger] isgcd(g, a as int, b as int) && isgcd(1, a as int, b as int) ==> g == 1
{ assert forall|g: int| #[trigger] isgcd(g, a as int, b as int) && isgcd(1, a as int, b as int) implies g == 1 by { lemma_gcd_unique(g, 1, a as int, b as int); } }
""", e)
    X, Y = "(x as int)", "(y as int)"
    base = ["0 < x < $Q", "0 < y < $Q", "x % 2 == 1 || y % 2 == 1", "a * x + b * y == u", "c * x + d * y == v",
            "-2 * y <= a <= 2 * y", "-2 * y <= c <= 2 * y", "-2 * x <= b <= 2 * x", "-2 * x <= d <= 2 * x", "0 < u <= x", "0 < v <= y",
            "u % 2 == 1 ==> -y <= a <= y && -x <= b <= x", "v % 2 == 1 ==> -y <= c <= y && -x <= d <= x",
            "g as int == pow2(__s)", "__g0 == x * pow2(__s)", "__g1 == y * pow2(__s)", "0 < __g0 < $Q", "0 < __g1 < $Q", "x <= __g0", "y <= __g1",
            "forall|k: int| #[trigger] isgcd(k, u as int, v as int) ==> isgcd(k, x as int, y as int)"]
    base = [z.replace("__s", "$T_trailing_zeros(__g0 | __g1) as nat") for z in base]
    odd = "u % 2 == 1 || v % 2 == 1"
    def half(u, v, a, b, sym):
        gs = "lemma_gcd_sym(k, u as int, v as int); " if sym else ""
        return dict(ghost="let ghost __u = %s; let ghost __a = %s; let ghost __b = %s;" % (u, a, b),
            head="lemma_half1_$T(%s); lemma_halve(%s as int, %s as int, x as int, y as int, %s as int / 2); if %s %% 2 == 0 { lemma_shalf_$T(%s); } if %s %% 2 == 0 { lemma_shalf_$T(%s); } lemma_evens_$T(%s, %s, x, y);" % (u, a, b, u, a, a, b, b, a, b),
            tail="""assert forall|k: int| #[trigger] isgcd(k, u as int, v as int) implies isgcd(k, x as int, y as int) by { %s }""" %
                  ("lemma_gcd_half(k, u as int, v as int);" if not sym else "lemma_gcd_sym(k, u as int, v as int); lemma_gcd_half(k, v as int, u as int); lemma_gcd_sym(k, __u as int, u as int);"),
            dec=u)
    v.text("""proof fn lemma_evens_$T(a: $S, b: $S, x: $T, y: $T)
    requires x < $Q, y < $Q, -2 * y <= a <= 2 * y, -2 * x <= b <= 2 * x,
    ensures a + y <= $HB - 1 && (a + y) % 2 == 0 ==> (((a + y) as $S) >> 1i32) as int == (a + y) / 2, -$HB <= a - y && (a - y) % 2 == 0 ==> (((a - y) as $S) >> 1i32) as int == (a - y) / 2,
        b + x <= $HB - 1 && (b + x) % 2 == 0 ==> (((b + x) as $S) >> 1i32) as int == (b + x) / 2, -$HB <= b - x && (b - x) % 2 == 0 ==> (((b - x) as $S) >> 1i32) as int == (b - x) / 2,
        (x as $S) as int == x, (y as $S) as int == y,
{
    if a + y <= $HB - 1 && (a + y) % 2 == 0 { lemma_shalf_$T((a + y) as $S); }
    if -$HB <= a - y && (a - y) % 2 == 0 { lemma_shalf_$T((a - y) as $S); }
    if b + x <= $HB - 1 && (b + x) % 2 == 0 { lemma_shalf_$T((b + x) as $S); }
    if -$HB <= b - x && (b - x) % 2 == 0 { lemma_shalf_$T((b - x) as $S); }
}
""", e)
    u1 = half("u", "v", "a", "b", False)
    u2 = half("v", "u", "c", "d", True)
    v.fn(G, "extended_gcd", env=e, opts="#[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::rlimit(80)]", pre=["$0 < $Q", "$1 < $Q"],
         post=["$0 != 0 && $1 != 0 ==> isgcd($r.2 as int, $0 as int, $1 as int) && $r.0 * $0 + $r.1 * $1 == $r.2 && -$0 <= $r.1 <= $0 && -$1 <= $r.0 <= $1", "$0 == 0 || $1 == 0 ==> $r.2 == 0"],
         hints="""let ghost __s: nat = 0; if __g0 != 0 && __g1 != 0 { lemma_or_tz_$T(__g0, __g1); lemma_half1_$T(__g0); let s = $T_trailing_zeros(__g0 | __g1) as nat; lemma_pow2_step(s);
               let a = (__g0 >> (s as u32)) as int; let b = (__g1 >> (s as u32)) as int; let p = pow2(s) as int;
               assert(a <= a * p) by (nonlinear_arith) requires a >= 0, p >= 1; assert(b <= b * p) by (nonlinear_arith) requires b >= 0, p >= 1;
               assert(p <= a * p) by (nonlinear_arith) requires a >= 1, p >= 1;
               assert(1 * pow2(s) == pow2(s)); lemma_shl_$T(1, s); assert(1 * a == a && 0 * b == 0 && 0 * a == 0 && 1 * b == b); }""".replace("let ghost __s: nat = 0;", ""),
         loops={0: dict(inv=base + [odd], dec="u + v", ghost="let ghost __u0 = u; let ghost __v0 = v;"),
                1: dict(inv=base + [odd, "u <= __u0", "v == __v0"], **u1),
                2: dict(inv=base + ["u % 2 == 1", "u <= __u0", "v <= __v0"], after="lemma_xstep(a as int, b as int, c as int, d as int, x as int, y as int, u as int, v as int, $T_trailing_zeros(__g0 | __g1) as nat, __g0 as int, __g1 as int);", **u2)})
def add_inv(v, w):
    S = {"T": "$T"}
    pre = ["2 <= $1 < $Q", "$0 < $1"]
    post = ["0 < $r < $1", "($0 * $r) % ($1 as int) == 1"]
    hi = """lemma_gcd0($1 as int); lemma_uni_$T($1, $a0);
        assert forall|c: int, d: int| -$1 <= d <= $1 && #[trigger] (c * $1) + #[trigger] (d * $a0) == 1 implies ({ let r = if d > 0 { d } else { d + $1 }; 0 < r < $1 && ($a0 * r) % ($1 as int) == 1 }) by { lemma_inv($1 as int, $a0 as int, c, d); }"""
    v.fn("InvReduce for $T", "inv_reduce", env=w, pre=pre, post=post, hints=hi, panics="!isgcd(1, $1 as int, $0 as int)")
    v.fn("TryInvReduce for $T", "try_inv_reduce", env=w, pre=pre, hints=hi,
         body_subst=[(r"Err\s*\(\s*AlgebraError :: NoReduceInverse\s*\{[^}]*\}\s*\)", "Err(AlgebraError)")],
         post=["$r is Ok <==> isgcd(1, $1 as int, $0 as int)", "$r is Ok ==> 0 < $r->Ok_0 < $1 && ($0 * $r->Ok_0) % ($1 as int) == 1"])
def add_inv_barrett(v, w):
    S = {"T": "$T"}
    BM = "BarrettModulus<$T>"
    pre = ["wf_$T($1)", "$0 < $1.value"]
    cop = "isgcd(1, $1.value as int, $0 as int)"
    v.fn("InvReduce<%s> for $T" % BM, "inv_reduce", env=w, subst=S, pre=pre + [cop], post=["0 < $r < $1.value", "($0 * $r) % ($1.value as int) == 1"])
    v.fn("InvReduceAssign<%s> for $T" % BM, "inv_reduce_assign", env=w, subst=S, pre=[p.replace("$0", "$o0") for p in pre + [cop]], post=["0 < $n0 < $1.value", "($o0 * $n0) % ($1.value as int) == 1"])
    pre = ["wf_$T($2)", "$0 < $2.value", "$1 < $2.value", "isgcd(1, $2.value as int, $1 as int)"]
    h = """assert forall|i: int| (#[trigger] ($1 * i)) % ($2.value as int) == 1 implies ((($a0 * i) % ($2.value as int)) * $1) % ($2.value as int) == $a0 by { assert($1 * i == i * $1) by (nonlinear_arith); lemma_div_undo($a0 as int, $1 as int, i, ($a0 * i) % ($2.value as int), $2.value as int); }"""
    v.fn("DivReduce<%s> for $T" % BM, "div_reduce", env=w, subst=S, pre=pre, post=["$r < $2.value", "($r * $1) % ($2.value as int) == $0"], hints=h)
    v.fn("DivReduceAssign<%s> for $T" % BM, "div_reduce_assign", env=w, subst=S, pre=[p.replace("$0", "$o0") for p in pre], post=["$n0 < $2.value", "($n0 * $1) % ($2.value as int) == $o0"], hints=h.replace("$a0", "$o0"))
def build(widths=WIDTHS, name="c06_gcd"):
    v = VFile(name)
    std(v, widths)
    v.include("barrett.rs")
    expdot.exp_lemmas(v, [x for x in expdot.EXPS if x["E"] in [w["T"] for w in widths]])
    v.include("gcd.rs")
    modops.value_ratio(v)
    for w in widths:
        add_gcd(v, w)
        wide.add_mul(v, w)
        barrett.specs(v, w)
        barrett.add_reduce(v, w)
        modops.mul(v, w)
        add_inv(v, w)
        add_inv_barrett(v, w)
    return v

def split(widths=WIDTHS):
    return [build([w], "c06_gcd_" + w["T"]) for w in widths]
