"""C05: exponentiation and dot products (Barrett); the exponentiation contract is shared with C07"""
from common import *
import wide, barrett, modops
from vlib import VFile
EXPS = [dict(E="u%d" % b, EBITS=b, EMAX=hex((1 << b) - 1)) for b in (8, 16, 32, 64)]
def exp_lemmas(v, exps=EXPS):
    v.include("pow.rs"); v.include("pow2_n.rs"); v.include("numtraits.rs")
    for e in exps:
        v.include("pow_e.rs", e)
        v.const("BITS", "Bits for " + e["E"], out="Bits_BITS_" + e["E"])
def exp_fns(v, w, MOD, M1, pre, exps=EXPS, subst=None, unit_hint="", V=lambda s: "(%s as int)" % s, ok=lambda s: "true", zero=True, red=None):
    """V: the residue a word stands for; ok: representation invariant; zero: exponent 0 included"""
    if red is None: red = lambda m: "$0 < " + m
    """M1: modulus value as int in terms of $1/$2 (the modulus parameter position is substituted)"""
    mm = M1.replace("@", "$2")
    b = V("$a0")
    for e in exps:
        env = dict(w, **e)
        tz = "$E_trailing_zeros(__g1)"
        inv0 = ["0 <= __i0 <= __n0", "__n0 == %s" % tz, "__n0 > 0 ==> __g1 != 0", "%s > 1" % mm, red(mm), "%s" % pre.replace("@", "$2"), "exp == __g1", ok("power"),
                "%s == pow(%s, pow2(__i0 as nat)) %% %s" % (V("power"), b, mm)]
        inv1 = ["1 <= __i1 <= __n1", "__n1 <= $EBITS", "%s > 1" % mm, "%s" % pre.replace("@", "$2"), "exp < pow2((__n1 - __i1 + 1) as nat)",
                "__g1 == __a + (exp as int / 2) * (2 * __p)", ok("power"), ok("intermediate"), "%s == pow(%s, __p) %% %s" % (V("power"), b, mm), "%s == pow(%s, __a) %% %s" % (V("intermediate"), b, mm)]
        tail1 = """
            let m = %(mm)s; let b = %(b)s;
            lemma_pow_mul_c(b, m, %(vpp)s, __p, %(vpp)s, __p, %(vp)s);
            lemma_half1_$E(__e); lemma_half1_$E(exp);
            lemma_pow2_step((__n1 - __i1 + 1) as nat);
            lemma_canon(m);
            let p2 = (2 * __p) as nat;
            let h = exp as int / 2;
            assert(exp as int * p2 == (h * 2 + exp as int %% 2) * p2);
            assert((h * 2 + exp as int %% 2) * p2 == h * (2 * p2) + (exp as int %% 2) * p2) by (nonlinear_arith);
            if exp %% 2 == 1 { lemma_pow_mul_c(b, m, %(vim)s, __a, %(vp)s, p2, %(vi)s); __a = (__a + p2) as nat; assert(exp as int %% 2 == 1); assert(1 * p2 == p2); }
            else { assert(exp as int %% 2 == 0); assert(0 * p2 == 0); }
            __p = p2;
            """ % dict(mm=mm, b=b, vpp=V("__pp"), vp=V("power"), vim=V("__im"), vi=V("intermediate"))
        v.fn("ExpReduce<%s,$E> for $T" % MOD, "exp_reduce", env=env, body_subst=[(r"<\s*%s as Bits\s*>\s*::\s*BITS|\b%s :: BITS" % (e["E"], e["E"]), "Bits_BITS_" + e["E"])], subst=dict(subst or {}, E="$E"), pre=[pre.replace("@", "$2"), red(mm)],
             post=([] if zero is True else [zero]) + [("" if zero is True else "$1 != 0 ==> ") + "%s && %s == pow(%s, $1 as nat) %% %s" % (ok("$r"), V("$r"), V("$0"), mm)],
             hints="""
                let m = %(mm)s; let b = %(b)s;
                %(uh)s
                lemma_pow0(b); lemma_pow1(b); lemma_pow2_step(0); lemma_small_mod(1, m as nat); lemma_small_mod(b as nat, m as nat); lemma_canon(m);
                if __g1 != 0 { lemma_tz_$E(__g1); lemma_lz_$E(__g1 >> %(tz)s); lemma_half1_$E(__g1 >> %(tz)s);
                    let k = pow2(%(tz)s as nat) as int; assert(1int * k == k); }
             """ % dict(mm=mm, b=b, tz=tz, uh=unit_hint.replace("@", "$2")),
             loops={0: dict(inv=inv0, tail="lemma_pow_mul_c(%s, %s, %s, pow2((__i0 - 1) as nat), %s, pow2((__i0 - 1) as nat), %s); lemma_pow2_step((__i0 - 1) as nat);" % (b, mm, V("__pp"), V("__pp"), V("power")), ghost="let ghost __pp = power;"),
                    1: dict(inv=inv1, ghost="let ghost __e = exp; let ghost __pp = power; let ghost __im = intermediate;",
                            before="""let ghost mut __p: nat = pow2(%(tz)s as nat); let ghost mut __a: nat = pow2(%(tz)s as nat);
                                proof { lemma_half1_$E(exp); let h = exp as int / 2; let p = __p as int;
                                  assert(exp as int == 2 * h + 1);
                                  assert((2 * h + 1) * p == p + h * (2 * p)) by (nonlinear_arith); }""" % dict(tz=tz),
                            tail=tail1,
                            after="lemma_pow2_step(0); assert(exp as int / 2 == 0); let p = __p as int; assert(0 * (2 * p) == 0); assert(__a == __g1 as nat);")})
def exp_pow2(v, w, MOD, M1, pre, subst=None, unit_hint="", V=lambda s: "(%s as int)" % s, ok=lambda s: "true", red=None):
    if red is None: red = lambda m: "$0 < " + m
    mm = M1.replace("@", "$2")
    b = V("$a0")
    v.fn("ExpPowOf2Reduce<%s> for $T" % MOD, "exp_power_of_2_reduce", env=w, subst=subst, pre=[pre.replace("@", "$2"), red(mm)],
         post=["%s && %s == pow(%s, pow2($1 as nat)) %% %s" % (ok("$r"), V("$r"), V("$0"), mm)],
         hints=unit_hint + "lemma_pow1(%s); lemma_pow2_step(0); lemma_small_mod(%s as nat, %s as nat);" % (b, b, mm),
         loops={0: dict(inv=["0 <= __i0 <= __n0", "__n0 == __g1", "%s > 1" % mm, red(mm), "%s" % pre.replace("@", "$2"), ok("power"), "%s == pow(%s, pow2(__i0 as nat)) %% %s" % (V("power"), b, mm)],
                        ghost="let ghost __pp = power;",
                        tail="lemma_pow_mul_c(%s, %s, %s, pow2((__i0 - 1) as nat), %s, pow2((__i0 - 1) as nat), %s); lemma_pow2_step((__i0 - 1) as nat); lemma_canon(%s);" % (b, mm, V("__pp"), V("__pp"), V("power"), mm))})
def dot(v, w):
    v.include("dsum.rs", w)
    D = "dsum_$T(__g0, __g1, %s)"
    m = "($2.value as int)"
    v.fn("DotProductReduce<BarrettModulus<$T>> for $T", "dot_product_reduce", env=w,
       pre=["wf_$T($2)", "$0.len() == $1.len()", "forall|i: int| 0 <= i < $0.len() ==> #[trigger] $0[i] < $2.value", "forall|i: int| 0 <= i < $1.len() ==> #[trigger] $1[i] < $2.value"],
       post=["$r as int == dsum_$T($0, $1, $0.len() as int) % ($2.value as int)"],
       hints="lemma_small_mod(0, %s as nat); lemma_canon(%s);" % (m, m),
       loops={0: dict(inv=["0 <= __i0 <= __n0", "a@ == __g0", "b@ == __g1", "__g0.len() == __g1.len()", "wf_$T($2)", "__n0 as int == (if __g0.len() % 16 == 0 { __g0.len() as int / 16 } else { __g0.len() as int / 16 + 1 })",
                           "forall|i: int| 0 <= i < __g0.len() ==> #[trigger] __g0[i] < $2.value", "forall|i: int| 0 <= i < __g1.len() ==> #[trigger] __g1[i] < $2.value",
                           "__acc0 < $2.value", "__acc0 as int == %s %% %s" % (D % "if __i0 * 16 <= __g0.len() { __i0 * 16 } else { __g0.len() as int }", m)],
                      head="lemma_fundamental_div_mod(__g0.len() as int, 16); lemma_mod_bound(__g0.len() as int, 16); assert(__i0 * 16 < __g0.len());",
                      ghost="let ghost __q0 = __acc0; let ghost __b0: int = __i0 * 16;",
                      tail="""let s0 = %s; let s1 = %s; let mm = %s; lemma_mod_bound(s0, mm); lemma_mod_bound(s1, mm); lemma_mod_bound(s1 - s0, mm); lemma_add_mod_noop(s0, s1 - s0, mm);""" % (D % "__b0", D % "if __b0 + 16 <= __g0.len() { __b0 + 16 } else { __g0.len() as int }", m)),
              1: dict(inv=["0 <= __i1 <= __n1", "__n1 <= 16", "__n1 == a_s@.len()", "a_s@.len() == b_s@.len()", "wf_$T($2)", "__b0 + __n1 <= __g0.len()", "0 <= __b0", "__g0.len() == __g1.len()",
                           "a_s@ == __g0.subrange(__b0, __b0 + __n1)", "b_s@ == __g1.subrange(__b0, __b0 + __n1)",
                           "forall|i: int| 0 <= i < __g0.len() ==> #[trigger] __g0[i] < $2.value", "forall|i: int| 0 <= i < __g1.len() ==> #[trigger] __g1[i] < $2.value",
                           "c[0] + c[1] * $B == %s - %s" % (D % "__b0 + __i1", D % "__b0"),
                           "0 <= c[0] + c[1] * $B <= __i1 * (($2.value - 1) * ($2.value - 1))"],
                      head="lemma_sq16(__g0[__b0 + __i1] as int, __g1[__b0 + __i1] as int, $2.value as int, $B, __i1 as int, c[0] + c[1] * $B);")},
       inner={"multiply_add": dict(pre=["$o0[0] + $o0[1] * $B + $1 * $2 < $BB"], post=["$n0[0] + $n0[1] * $B == $o0[0] + $o0[1] * $B + $1 * $2"],
                hints="lemma_split2_$T($1 as int, $2 as int); lemma_madd($B, $1 * $2, ($1 * $2) % $B, ($1 * $2) / $B as int, $o0[0] as int, $o0[1] as int);")})
def build(widths=WIDTHS, name="c05_exp"):
    v = VFile(name)
    std(v, widths)
    v.include("barrett.rs")
    exp_lemmas(v)
    v.text(modops.MATH)
    v.include("dsum_math.rs")
    modops.value_ratio(v)
    for w in widths:
        wide.add_mul(v, w)
        wide.add_carry(v, w)
        modops.addsubneg(v, w)
        modops.barrett_delegates(v, w)
        barrett.specs(v, w)
        barrett.add_reduce(v, w)
        modops.mul(v, w)
        S = {"T": "$T"}
        M = "(@.value as int)"
        exp_fns(v, w, "BarrettModulus<$T>", M, "wf_$T(@)", subst=S)
        dot(v, w)
        exp_pow2(v, w, "BarrettModulus<$T>", M.replace("@", "$2"), "wf_$T($2)".replace("$2", "@"), subst=S)
    return v
def split(widths=WIDTHS):
    return [build([w], "c05_exp_" + w["T"]) for w in widths]
