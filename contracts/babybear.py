"""C08 BabyBear (Montgomery), C09 Goldilocks: a constant prime modulus on one word type"""
from common import *
import expdot, modops
from vlib import VFile
import re
BB = dict(WIDTHS[2], F="babybear", PP="(0x78000001 as int)", M="BabyBearModulus")
GL = dict(WIDTHS[3], F="goldilocks", PP="(0xFFFF_FFFF_0000_0001 as int)", M="GoldilocksModulus")
P = 0x78000001
BB["RI"] = "(%d as int)" % pow(2**32, -1, P)
BS = [(r"\bmul \(", "fmul(")]
ERR = (r"(?:crate :: )?AlgebraError :: NoReduceInverse\s*\{[^}]*\}", "AlgebraError")
def V(F): return lambda s: "val_%s(%s)" % (F, s)
def OK(F): return lambda s: "ok_%s(%s)" % (F, s)
def common_ops(v, e, mod, add_h, sub_h, neg_h, mul_h):
    F, MOD, mm = e["F"], e["M"], e["PP"]
    val, ok = V(F), OK(F)
    T = e["T"]
    o2 = ["ok_$F($0)", "ok_$F($1)"]
    for op, o, h in (("Add", "+", add_h), ("Sub", "-", sub_h), ("Mul", "*", mul_h)):
        m = op.lower() + "_reduce"
        post = ["ok_$F($r)", "val_$F($r) == (val_$F($0) %s val_$F($1)) %% $PP" % o]
        v.fn("%sReduce<%s> for $T" % (op, MOD), m, env=e, pre=o2, post=post, hints=h)
        v.fn("%sReduceAssign<%s> for $T" % (op, MOD), m + "_assign", env=e, pre=[x.replace("$0", "$o0") for x in o2], post=modops.asg(post))
    post = ["ok_$F($r)", "val_$F($r) == (-val_$F($0)) % $PP"]
    v.fn("NegReduce<%s> for $T" % MOD, "neg_reduce", env=e, pre=["ok_$F($0)"], post=post, hints=neg_h)
    v.fn("NegReduceAssign<%s> for $T" % MOD, "neg_reduce_assign", env=e, pre=["ok_$F($o0)"], post=modops.asg(post))
    xs = [x for x in expdot.EXPS]
    uh = "lemma_range_$F($0);"
    expdot.exp_fns(v, e, MOD, mm, "true", exps=xs, V=val, ok=ok, zero=(True if F != "babybear" else "$1 == 0 ==> $r == 1 || ok_$F($r) && val_$F($r) == 1"), red=lambda m: "ok_$F($0)", unit_hint="lemma_range_$F($a0); lemma_unit_$F();")
    expdot.exp_pow2(v, e, MOD, mm, "true", V=val, ok=ok, red=lambda m: "ok_$F($0)", unit_hint="lemma_range_$F($a0);")
    powers = "forall|v: int, j: int, k: int| #[trigger] pw_$F($0, v, j) && #[trigger] pw_$F($1, v, k) ==> pw_$F($r, v, j + k)"
    v.fn("", "mul", env=e, mod=mod, cname="fmul", pre=o2, post=["ok_$F($r)", powers], end="lemma_pw_mul_$F($0, $1, $R);")
    v.fn("", "square", env=e, mod=mod, cname="square", pre=["ok_$F($0)"], post=["ok_$F($r)", "forall|v: int, j: int| #[trigger] pw_$F($0, v, j) ==> pw_$F($r, v, j + j)"], end="lemma_pw_mul_$F($0, $0, $R);", body_subst=BS)
    exps = [(n, 1 << n) for n in range(1, 33)]
    if F == "babybear":
        v.fn("", "exp", env=e, mod=mod, cname="exp", gens=True, pre=["ok_$F($0)", "1 <= N <= 32"],
             post=["ok_$F($r)"] + ["N == %d ==> forall|v: int, j: int| #[trigger] pw_$F($0, v, j) ==> pw_$F($r, v, j * %d)" % x for x in exps], end="lemma_sq_$F($0, $R, N); lemma2_to64();")
    else:
        v.fn("", "exp_acc", env=e, mod=mod, cname="exp_acc", gens=True, pre=["ok_$F($0)", "ok_$F($1)", "1 <= N <= 32"],
             post=["ok_$F($r)"] + ["N == %d ==> forall|v: int, j: int, k: int| #[trigger] pw_$F($0, v, j) && #[trigger] pw_$F($1, v, k) ==> pw_$F($r, v, j * %d + k)" % x for x in exps],
             end="""lemma2_to64();
               assert forall|v: int, j: int, k: int| #[trigger] pw_$F($0, v, j) && #[trigger] pw_$F($1, v, k) implies pw_$F($R, v, j * pow2(N as nat) + k) by {
                 lemma_pow_pow_mod_$F(v, j as nat, pow2(N as nat), val_$F($0));
                 assert(j * pow2(N as nat) >= 0) by (nonlinear_arith) requires j >= 0;
                 let p = pow(val_$F($0), pow2(N as nat)) % $PP;
                 lemma_pow_mul_c(v, $PP, p, (j * pow2(N as nat)) as nat, val_$F($1), k as nat, val_$F($R)); }""")
    v.fn("", "try_inverse", env=e, mod=mod, cname="try_inverse", body_subst=BS, pre=["ok_$F($0)"],
         hints="lemma_one_$F($a0); lemma_range_$F($a0); lemma_val0_$F($a0);" ,
         post=["$r is None <==> val_$F($0) == 0", "$r is Some ==> ok_$F($r->0) && pw_$F($r->0, val_$F($0), $PP - 2)"])
    ih = "assert forall|r: $T| #[trigger] pw_$F(r, val_$F($a0), $PP - 2) && val_$F($a0) != 0 implies (val_$F($a0) * val_$F(r)) % $PP == 1 && ok_$F(r) by { lemma_inv_$F($a0, r); }"
    pi = ["ok_$F($0)", "val_$F($0) != 0"]
    post = ["ok_$F($r)", "(val_$F($0) * val_$F($r)) % $PP == 1"]
    v.fn("InvReduce<%s> for $T" % MOD, "inv_reduce", env=e, pre=pi, post=post, hints=ih)
    v.fn("InvReduceAssign<%s> for $T" % MOD, "inv_reduce_assign", env=e, pre=[x.replace("$0", "$o0") for x in pi], post=modops.asg(post), hints=ih.replace("$a0", "__g0"))
    v.fn("TryInvReduce<%s> for $T" % MOD, "try_inv_reduce", env=e, pre=["ok_$F($0)"], body_subst=[ERR], hints=ih,
         post=["$r is Ok <==> val_$F($0) != 0", "$r is Ok ==> ok_$F($r->Ok_0) && (val_$F($0) * val_$F($r->Ok_0)) % $PP == 1"])
    pd = ["ok_$F($0)", "ok_$F($1)", "val_$F($1) != 0"]
    post = ["ok_$F($r)", "(val_$F($r) * val_$F($1)) % $PP == val_$F($0)"]
    dh = "lemma_range_$F($a0); lemma_range_$F($1); assert forall|i: int| #[trigger] (val_$F($1) * i) % $PP == 1 implies (((val_$F($a0) * i) % $PP) * val_$F($1)) % $PP == val_$F($a0) by { lemma_divc_$F(val_$F($a0), val_$F($1), i, (val_$F($a0) * i) % $PP); }"
    v.fn("DivReduce<%s> for $T" % MOD, "div_reduce", env=e, pre=pd, post=post, hints=dh)
    v.fn("DivReduceAssign<%s> for $T" % MOD, "div_reduce_assign", env=e, pre=[x.replace("$0", "$o0") for x in pd], post=modops.asg(post), hints=dh.replace("$a0", "__g0"))
    D = "dsum_$F(__g0, __g1, %s)"
    v.fn("DotProductReduce<%s> for $T" % MOD, "dot_product_reduce", env=e,
       pre=["$0.len() == $1.len()", "forall|i: int| 0 <= i < $0.len() ==> #[trigger] ok_$F($0[i])", "forall|i: int| 0 <= i < $1.len() ==> #[trigger] ok_$F($1[i])"],
       post=["ok_$F($r)", "val_$F($r) == dsum_$F($0, $1, $0.len() as int) % $PP"],
       hints="lemma_small_mod(0, $PP as nat); lemma_unit_$F();",
       loops={0: dict(inv=["0 <= __i0 <= __n0", "a@ == __g0", "b@ == __g1", "__g0.len() == __g1.len()", "__n0 == __g0.len()", "ok_$F(__acc0)", "val_$F(__acc0) == %s %% $PP" % (D % "__i0 as int"),
                           "forall|i: int| 0 <= i < __g0.len() ==> #[trigger] ok_$F(__g0[i])", "forall|i: int| 0 <= i < __g1.len() ==> #[trigger] ok_$F(__g1[i])"],
                      ghost="let ghost __q0 = __acc0;",
                      tail="let p = val_$F(__g0[__i0 - 1]) * val_$F(__g1[__i0 - 1]); let s = %s; lemma_add_mod_noop(p, s, $PP); lemma_mod_twice(s, $PP);" % (D % "__i0 - 1"))})
def base(name, e, mod):
    v = VFile(name)
    std(v, [e] if e is GL else [e, WIDTHS[3]])
    v.include("barrett.rs")
    v.text("pub struct AlgebraError;\n")
    expdot.exp_lemmas(v)
    v.struct(e["M"], mod=mod)
    v.const("P", "", mod=mod)
    return v
def baby(name="c08_babybear"):
    e, mod = BB, "modulus::baby_bear"
    v = base(name, e, mod)
    for c in ("MONTY_BITS", "MONTY_MU", "MONTY_MASK"):
        v.const(c, "", mod=mod)
    v.include("fastfield.rs", e)
    v.include("babybear.rs", e)
    v.fn("", "monty_reduce", env=e, mod=mod, cname="monty_reduce", pre=["($0 as int) < $PP * $B"], post=["$r < $PP", "($r * $B - $0) % $PP == 0", "$r as int == ($0 * $RI) % $PP"],
         hints="lemma_monty($0); lemma_mask($0);")
    v.fn("", "to_monty", env=e, mod=mod, cname="to_monty", post=["ok_$F($r)", "val_$F($r) == $0 as int % $PP"], hints="lemma_to($0);")
    v.fn("", "from_monty", env=e, mod=mod, cname="from_monty", post=["$r as int == val_$F($0)"])
    common_ops(v, e, mod, add_h="lemma_bb_add($a0, $1);", sub_h="lemma_bb_sub($a0, $1);", neg_h="lemma_bb_zero();", mul_h="lemma_bb_mul($a0, $1);")
    return v

def gold(name="c09_goldilocks"):
    e, mod = GL, "modulus::goldilocks"
    v = base(name, e, mod)
    v.const("EPSILON", "", mod=mod, ens="EPSILON == 0xffff_ffff", proof="assert(1u64 << 32i32 == 0x1_0000_0000u64) by (bit_vector); assert(1u64 << 32u32 == 0x1_0000_0000u64) by (bit_vector);")
    v.include("fastfield.rs", e)
    v.include("goldilocks.rs", e)
    v.fn("", "to_canonical_u64", env=e, mod=mod, cname="to_canonical_u64", post=["$r as int == val_$F($0)", "$r < $PP"], hints="lemma_canon($PP);")
    v.fn("Reduce<GoldilocksModulus> for $T", "reduce", env=e, post=["$r as int == val_$F($0)", "$r < $PP"], hints="lemma_canon($PP); lemma_range_$F($a0);")
    v.fn("ReduceAssign<GoldilocksModulus> for $T", "reduce_assign", env=e, post=["$n0 as int == val_$F($o0)", "$n0 < $PP"], hints="lemma_canon($PP); lemma_range_$F(__g0);")
    v.text("""/// trusted: the contract of the x86 assembly (add, sbb) as its comment states it
#[verifier::external_body]
pub unsafe fn add_no_canonicalize_trashing_input(x: u64, y: u64) -> (r: u64)
    requires x + y < $B + $PP,
    ensures r as int == (if x + y >= $B { x + y - $PP } else { x + y }),
{ unimplemented!() }
""".replace("$B", e["B"]).replace("$PP", e["PP"]))
    v.fn("", "reduce96", env=e, mod=mod, cname="reduce96", post=["$r as int % $PP == ($0.0 + $0.1 * $B) % $PP"], hints="lemma_r96($0.0 as int, $0.1 as int);")
    v.fn("", "split", env=e, mod=mod, cname="split", post=["$r.0 + $r.1 * $B == $0"], hints="lemma_split($0);")
    v.fn("", "reduce128", env=e, mod=mod, cname="reduce128", post=["val_$F($r) == $0 as int % $PP"], hints="lemma_r128();")
    common_ops(v, e, mod, add_h="lemma_gl_add($a0, $1);", sub_h="lemma_gl_sub($a0, $1);", neg_h="lemma_gl_neg($a0);", mul_h="lemma_gl_mul($a0, $1);")
    return v
