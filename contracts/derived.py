"""C10: prime fields generated by the derive macro, at every word width (V8..V64 are instances
expanded from the macro in tools/vfields; DefaultFieldU32 and DefaultQks are the shipped ones)"""
from common import *
import wide, barrett, modops, expdot, gcd
from modops import asg
from vlib import VFile
FIELDS = [
    dict(WIDTHS[2], X="DefaultFieldU32", CR="fhe_core", P=132120577, F="field_u32"),
    dict(WIDTHS[2], X="DefaultQks", CR="fhe_core", P=15361, F="qks"),
    dict(WIDTHS[0], X="V8", CR="vfields", P=17, F="v8"),
    dict(WIDTHS[1], X="V16", CR="vfields", P=15361, F="qks"),
    dict(WIDTHS[2], X="V32", CR="vfields", P=1073479681, F="v32"),
    dict(WIDTHS[3], X="V64", CR="vfields", P=4611686018427322369, F="v64"),
]
for f in FIELDS:
    f["PP"] = "(%d as int)" % f["P"]
TY = [(r"<\s*Self as ModulusConfig\s*>\s*::\s*MODULUS", "$X_MODULUS()"), (r"<\s*Self as Field\s*>\s*::\s*MODULUS_VALUE", "$X_MODULUS_VALUE"), (r"<\s*Self as Field\s*>\s*::\s*Order", "$T"), (r"<\s*Self as Field\s*>\s*::\s*Value", "$T"),
      (r"Self\s*::\s*Modulus\s*::\s*new", "BarrettModulus::new"), (r"Self\s*::\s*Output", "Self"), (r"Self\s*::\s*Value", "$T"), (r"Self\s*::\s*Root\b", "ShoupFactor::<$T>"), (r"Self\s*::\s*Degree", "$T"),
      (r"\bPow\s*::\s*pow\s*\(", "Self::pow("), (r"(?<!fn )\b$X \(", "$X(")]
def method(v, e, header, name, cname=None, ty=(), **k):
    crate = k.pop("crate", e["CR"])
    return v.fn(header, name, env=e, crate=crate, free=True, method_of="$X", cname=cname or name, tysub=list(ty) + [(a, b) for a, b in TY[:-1]], **k)
def core(v, e):
    """arithmetic of one derived field"""
    X = e["X"]
    v.struct(X, crate=e["CR"])
    v.include("derived.rs", e)
    v.const("MODULUS", "ModulusConfig for " + X, crate=e["CR"], out=X + "_MODULUS", as_fn=True, ty="BarrettModulus<%s>" % e["T"],
            ens="wf_%s(r), r.value == %d" % (e["T"], e["P"]), tysub=[(r"Self\s*::\s*Modulus\s*::\s*new", "BarrettModulus::new")])
    v.const("MODULUS_VALUE", "Field for " + X, crate=e["CR"], out=X + "_MODULUS_VALUE", ty=e["T"])
    for z, val in (("ConstZero.ZERO", 0), ("ConstOne.ONE", 1), ("ConstNegOne.NEG_ONE", e["P"] - 1)):
        tr, c = z.split(".")
        v.const(c, "%s for %s" % (tr, X), crate=e["CR"], out="%s_%s" % (X, c), as_fn=True, ty=X, ens="r.0 == %d" % val, tysub=[(r"\bSelf\b", X)])
    ok2 = ["ok_$X($0)", "ok_$X($1)"]
    neg1 = e["P"] - 1
    for op, o in (("Add", "+"), ("Sub", "-"), ("Mul", "*")):
        post = ["ok_$X($r)", "$r.0 as int == ($0.0 %s $1.0) %% $PP" % o]
        m = op.lower()
        for r, sfx in (("", "_v"), ("&", "_r")):
            method(v, e, "%s<%s$X> for $X" % (op, r), m, cname=m + sfx, pre=ok2, post=post)
            method(v, e, "%sAssign<%s$X> for $X" % (op, r), m + "_assign", cname=m + "_assign" + sfx, pre=[p.replace("$0", "$o0") for p in ok2], post=asg(post))
    method(v, e, "Neg for $X", "neg", pre=["ok_$X($0)"], post=["ok_$X($r)", "$r.0 as int == (-($0.0 as int)) % $PP"])
    method(v, e, "Pow<<$X as Field>::Order> for $X", "pow", pre=["ok_$X($0)"], post=["ok_$X($r)", "$r.0 as int == pow($0.0 as int, $1 as nat) % $PP"])
    method(v, e, "Inv for $X", "inv", pre=["ok_$X($0)", "$0.0 != 0"], post=["ok_$X($r)", "($0.0 * $r.0) % $PP == 1"],
           hints="lemma_inv_$X($0.0 as int, pow($0.0 as int, ($PP - 2) as nat) % $PP);")
    post = ["ok_$X($r)", "($r.0 * $1.0) % $PP == $0.0"]
    for r, sfx in (("", "_v"), ("&", "_r")):
        pre = ok2 + ["$1.0 != 0"]
        h = "lemma_coprime_$X($1.0);"
        method(v, e, "Div<%s$X> for $X" % r, "div", cname="div" + sfx, pre=pre, post=post, hints=h)
        method(v, e, "DivAssign<%s$X> for $X" % r, "div_assign", cname="div_assign" + sfx, pre=[p.replace("$0", "$o0") for p in pre], post=asg(post), hints=h)
    method(v, e, "Field for $X", "new", post=["ok_$X($r)", "$r.0 as int == $0 as int % $PP"], hints="if $0 < $PP { lemma_small_mod($0 as nat, $PP as nat); }")
    method(v, e, "Field for $X", "value", post=["$r == $0.0"])
    method(v, e, "FheField for $X", "lazy_new", post=["$r.0 == $0"])
    fma = "$1.0 * $2.0 + $0.0"
    lz = ["($r.0 as int) < 2 * $PP", "$r.0 as int % $PP == (@) % $PP"]
    hf = "lemma_fundamental_div_mod($1.0 * $2.0 + $a0.0, $B);"
    method(v, e, "FheField for $X", "add_mul", post=["ok_$X($r)", "$r.0 as int == (%s) %% $PP" % fma], hints=hf)
    method(v, e, "FheField for $X", "mul_fast", post=[x.replace("@", "$0.0 * $1.0") for x in lz])
    method(v, e, "FheField for $X", "add_mul_fast", post=[x.replace("@", fma) for x in lz], hints=hf)
    d = dict(crate="algebra", subst={"Self": "$X"})
    method(v, e, "trait:FheField", "add_mul_assign", post=["ok_$X($n0)", "$n0.0 as int == (%s) %% $PP" % fma.replace("$0", "$o0")], **d)
    method(v, e, "trait:FheField", "mul_assign_fast", post=asg([x.replace("@", "$0.0 * $1.0") for x in lz]), **d)
    method(v, e, "trait:FheField", "add_mul_assign_fast", post=asg([x.replace("@", fma) for x in lz]), **d)
def consts(v, e):
    """constants, conversions and comparisons"""
    X, n = e["X"], str(e["P"] - 1)
    method(v, e, "$X", "max", post="$r.0 == " + n)
    method(v, e, "$X", "neg_one", post="$r.0 == " + n)
    for tr, nm, val in (("Zero", "zero", "0"), ("One", "one", "1"), ("NegOne", "neg_one", n)):
        method(v, e, "%s for $X" % tr, nm, cname=nm + "_t", post="$r.0 == " + val)
        method(v, e, "%s for $X" % tr, "is_" + nm, post="$r == ($0.0 == %s)" % val)
        method(v, e, "%s for $X" % tr, "set_" + nm, post="$n0.0 == " + val)
    method(v, e, "PartialEq for $X", "eq", cname="eq_t", post="$r == ($0.0 == $1.0)")
    method(v, e, "Default for $X", "default", cname="default_t", post="$r.0 == 0")
    method(v, e, "Clone for $X", "clone", cname="clone_t", post="$r.0 == $0.0")
    v.fn("From<usize> for $X", "from", env=e, crate=e["CR"], free=True, method_of="$X", cname="from_usize", tysub=TY[:-1] + [(r"(\d+u\d+) \. try_into \(\) \. unwrap \(\)", r"vmod_usize_$T(\1)")],
         post=["ok_$X($r)", "$r.0 as int == $0 as int % $PP"], hints="lemma_mod_bound($0 as int, $PP); if ($0 as int) < $PP { lemma_small_mod($0 as nat, $PP as nat); }")
def roots(v, e):
    """root representation used by the transforms"""
    method(v, e, "NTTField for $X", "from_root", post="$r.0 == $0.value")
    method(v, e, "NTTField for $X", "to_root", pre=["ok_$X($0)"], post=["sh_wf_$T($r, $PP)", "$r.value == $0.0"])
    post = ["ok_$X($r)", "$r.0 as int == ($0.0 * $1.value) % $PP"]
    method(v, e, "NTTField for $X", "mul_root", pre=["sh_wf_$T($1, $PP)"], post=post)
    method(v, e, "NTTField for $X", "mul_root_assign", pre=["sh_wf_$T($1, $PP)"], post=asg(post))
def file(e, name):
    v = VFile(name)
    w = WIDTHS[[x["T"] for x in WIDTHS].index(e["T"])]
    std(v, [w])
    v.include("barrett.rs")
    x = dict(E=w["T"], EBITS=w["BITS"], EMAX=w["MAX"])
    expdot.exp_lemmas(v, [x])
    v.include("gcd.rs")
    v.text(modops.MATH); v.text(modops.SHOUP)
    modops.value_ratio(v)
    v.struct("ShoupFactor", gens="<T: Copy>")
    v.fn("ShoupFactor<T>", "value", post="$r == $0.value", method_of="<T: Copy> ShoupFactor<T>")
    v.fn("ShoupFactor<T>", "quotient", post="$r == $0.quotient", method_of="<T: Copy> ShoupFactor<T>")
    wide.add_mul(v, w)
    barrett.specs(v, w)
    barrett.add_new(v, w)
    barrett.add_reduce(v, w)
    modops.addsubneg(v, w)
    modops.mul(v, w)
    modops.shoup(v, w)
    expdot.exp_fns(v, w, "BarrettModulus<$T>", "(@.value as int)", "wf_$T(@)", subst={"T": "$T"}, exps=[x])
    gcd.add_gcd(v, w); gcd.add_inv(v, w); gcd.add_inv_barrett(v, w)
    v.text("pub fn vmod_usize_$T(m: $T) -> (r: usize) ensures r == m { m as usize }\n", w)
    core(v, e); consts(v, e); roots(v, e)
    return v
def build():
    return [file(e, "c10_" + e["X"]) for e in FIELDS]
