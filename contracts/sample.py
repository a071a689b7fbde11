"""C23: samplers"""
from common import *
import wide
from vlib import VFile
LT = dict(crate="lattice")
FL = [(r"\bNormal\s*<\s*f64\s*>", "Nrm"), (r"\bNormal\b", "Nrm"), (r"\bf64\b", "Fl"), (r"(?<![\w.])0\s*\.\s*0\s*f64\b", "f0()"), (r"(?<![\w.])3\.2f64\b", "f32_()"), (r"(?<![\w.])0\.0f64\b", "f0()"),
      (r"(?<![\w.])0\.0?(?!\w)", "f0()"), (r"(?<![\w.])6\.0?(?!\w)", "f6()"), (r"\b(?:algebra\s*::\s*)?AlgebraError\s*::\s*DistributionError", "AlgErr::DistributionError"), (r"\b(?:algebra\s*::\s*)?AlgebraError\b", "AlgErr")]
VEC = [(r"\bfrom_elem\s*\(", "vfill("), (r"\bvchunk_mut\s*\(\s*(\w+)\s*,", r"vchunkm(&mut \1,")]
def vec(v, cname, name, n, b, val, ent, m, pre=[], hint="", extra=[], ln="$0", **k):
    """a sampler filling pieces of n entries, b bits an entry; val: the entries as integers"""
    rng = "*$1" if ln == "$0" else "*$2"
    D0 = "draws(%s)" % rng.replace("*$", "__g")
    base = "%s.len()" % D0
    ds = "draws(%s)" % rng
    per = 32 // b
    done = lambda V, hi, lo="0": "forall|i: int| %s <= i < %s ==> #[trigger] %s[i] == %s" % (lo, hi, V, ent("b%d(%s[%s + i / %d], i %% %d)" % (b, ds, base, n, n)))
    V, C = val("v@"), val("chunk@")
    wf = ["__L == v@.len()"]
    E = extra
    rr = lambda i: "__i%d < %d ==> r == __d >> ((%d * __i%d) as u32)" % (i, per, b, i)
    sh = lambda i: "lemma_and(__r0); if __i%d < %d { lemma_shr%d(__d, (%d * (__i%d - 1)) as u32); }" % (i, per, b, b, i)
    v.fn("", name, cname=cname, pre=pre,
         hints=hint, loops={
        0: dict(before="lemma_fundamental_div_mod(%s as int, %d);" % (ln, n), ghost="let ghost __pre = v@; let ghost __dp = %s;" % ds, inv=["0 <= __i0 <= __n0", "__n0 == %s as int / %d" % (ln, n), "v@.len() == %s" % ln, "%s.len() == %s + __i0" % (ds, base), done(V, "%d * __i0" % n)] + [x.replace("@", "v@") for x in E],
                head="", tail="""assert forall|i: int| 0 <= i < %d * __i0 implies #[trigger] %s[i] == %s by {
                    if i < %d * (__i0 - 1) { assert(v@[i] == __pre[i]); assert(%s[i] == %s[i]); assert(%s[%s + i / %d] == __dp[%s + i / %d]); } else { lemma_piece(i, __i0 - 1, %d); assert(v@[i] == chunk@[i - %d * (__i0 - 1)]); assert(%s[i - %d * (__i0 - 1)] == %s[i]); }
                }""" % (n, V, ent("b%d(%s[%s + i / %d], i %% %d)" % (b, ds, base, n, n)), n, val("__pre"), V, ds, base, n, base, n, n, n, val("chunk@"), n, V)),
        1: dict(before="let ghost __d = r; proof { lemma_shr0(__d); }", head="lemma_and(r);", ghost="let ghost __r0 = r; let ghost __cp = chunk@;", inv=["0 <= __i1 <= __n1", "__n1 == %d" % n, "chunk@.len() == %d" % n, rr(1), done(C, "__i1").replace("b%d(%s[%s + i / %d], i %% %d)" % (b, ds, base, n, n), "b%d(__d, i)" % b)] + [x.replace("@", "chunk@") for x in E],
                tail=sh(1) + "assert(__r0 == __d >> ((@b * (__i1 - 1)) as u32)); assert(@C[__i1 - 1] == @E1); assert forall|i: int| 0 <= i < __i1 implies #[trigger] @C[i] == @E2 by { if i < __i1 - 1 { assert(chunk@[i] == __cp[i]); assert(@P[i] == @E2); } }".replace("@b", str(b)).replace("@C", C).replace("@P", val("__cp")).replace("@E1", ent("b%d(__d, __i1 - 1)" % b)).replace("@E2", ent("b%d(__d, i)" % b))),
        2: dict(before="let ghost __d = r; proof { lemma_shr0(__d); lemma_fundamental_div_mod(%s as int, %d); }" % (ln, n), head="lemma_and(r);", ghost="let ghost __r0 = r; let ghost __pre = v@;", inv=["0 <= __i2 <= __n2", "__lo2_0 == (%s as int / %d) * %d" % (ln, n, n), "__n2 == %s - __lo2_0" % ln, "__n2 < %d" % n, "v@.len() == %s" % ln, "%s.len() == %s + %s as int / %d + 1" % (ds, base, ln, n), "%s[%s + %s as int / %d] == __d" % (ds, base, ln, n), rr(2), done(V, "__lo2_0 + __i2")] + [x.replace("@", "v@") for x in E],
                tail=sh(2) + "lemma_piece(__lo2_0 + __i2 - 1, %s as int / %d, %d); assert forall|i: int| 0 <= i < __lo2_0 + __i2 - 1 implies #[trigger] %s[i] == %s[i] by { assert(v@[i] == __pre[i]); } assert(__r0 == __d >> ((%d * (__i2 - 1)) as u32)); assert(%s[__lo2_0 + __i2 - 1] == %s);" % (ln, n, n, V, val("__pre"), b, V, ent("b%d(__d, __i2 - 1)" % b)))},
         opts="#[verifier::loop_isolation(false)]", post=["$r@.len() == %s" % ln, "draws($n%s).len() == draws($o%s).len() + %s as int / %d + 1" % (rng[2], rng[2], ln, n), "drawn%d(%s, draws($n%s), draws($o%s).len() as int%s)" % (b, val("$r@"), rng[2], rng[2], m)] + [x.replace("@", "$r@") for x in E], **k)
def lattice_(v, w):
    """lattice::utils::sample at one word type"""
    T = w["T"]
    K = dict(env=w, subst={"T": T, "R": "Rn"}, **LT)
    ty = VEC + [(r"\b%s\s*::\s*ZERO\b" % T, "(0 as $T)"), (r"\b%s\s*::\s*ONE\b" % T, "(1 as $T)"), (r"\b%s\s*::\s*as_from\s*\(" % T, "vfrom_$T("), (r"DiscreteGaussian\s*<\s*%s\s*>" % T, "Dg"), (r"\bDiscreteGaussian\b", "Dg"), (r"TernarySampler\s*<\s*%s\s*>" % T, "Ts"), (r"\bTernarySampler\b", "Ts")] + FL
    val = lambda s: "wv(%s)" % s
    if T != "u32": v.anchor("AsFrom<u32> for " + T, "as_from", "value as " + T)
    vec(v, "sbv", "sample_binary_values", 32, 1, val, lambda x: x, "", tysub=ty, **K)
    vec(v, "stv", "sample_ternary_values", 16, 2, val, lambda x: "tern(%s, $0 as int)" % x, ", $0 as int", ln="$1", pre=["$0 > 0"], tysub=ty, **K)
    gauss(v, w, "DiscreteGaussian", "Dg", "normal", dict(tysub=ty, **K), lattice=True)
    v.fn("Distribution<%s> for BinarySampler" % T, "sample", free=True, method_of="BinarySampler", tysub=ty, hints="", post=["draws($n1) == draws($o1).push(draws($n1).last())", "$r as int == b1(draws($n1).last(), 0)"], **K)
    v.fn("TernarySampler<%s>" % T, "new", free=True, method_of="Ts", pre=["$0 > 0"], post="$r.neg_one == $0 - 1", tysub=ty, **K)
    v.fn("Distribution<%s> for TernarySampler<%s>" % (T, T), "sample", free=True, method_of="Ts", cname="tsample", tysub=ty, post=["draws($n1) == draws($o1).push(draws($n1).last())", "$r as int == tern(b2(draws($n1).last(), 0), $0.neg_one + 1)"], **K)
def gauss(v, w, name, out, fld, k, lattice):
    H = name + ("<%s>" % w["T"] if lattice else "")
    k = dict(k, free=True, method_of=out)
    m = "$r->Ok_0.modulus == $0" if lattice else "$r->Ok_0.cbd_enable == (fbits(@m) == fbits(F0()) && fbits(@s) == fbits(F32()))"
    mn, sd, mx = ("$1", "$2", "$3") if lattice else ("$0", "$1", "$2")
    ok = lambda M: "$r is Ok ==> nmean($r->Ok_0.%s) == %s && nsd($r->Ok_0.%s) == %s && $r->Ok_0.max_std_dev == %s && %s" % (fld, mn, fld, sd, M, m.replace("@m", mn).replace("@s", sd))
    v.fn(H, "new", cname=out + "_new", post=["($r is Ok) == (isfin(%s) && fr(%s) >= 0real)" % (sd, sd), ok("fmulr(%s, F6())" % sd)], **k)
    v.fn(H, "new_with_max_limit" if lattice else "new_with_max", cname=out + "_new_max", post=["($r is Ok) == (isfin(%s) && fr(%s) >= 0real && !xlt(fx(%s), fx(%s)) && !xeq(fx(%s), fx(%s)))" % (sd, sd, mx, sd, mx, sd), ok(mx)], **k)
    v.fn(H, "mean", post="$r == nmean($0.%s)" % fld, **k)
    v.fn(H, "std_dev", post="$r == nsd($0.%s)" % fld, **k)
    v.fn(H, "max_std_dev", post="$r == $0.max_std_dev", **k)
    if not lattice:
        v.fn(H, "gaussian", post="$r == $0.gaussian", **k)
        v.fn(H, "cbd_enable", post="$r == $0.cbd_enable", **k)
    M = "$0.modulus as int" if lattice else "P()"
    v.fn("Distribution<%s> for %s" % (w["T"] if lattice else "Fe", H), "sample", cname="dg_sample", pre=["fits(nmean($0.%s), $0.max_std_dev, %s)" % (fld, M)] + ([] if lattice else ["P() <= $MAX"]),
         opts="#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]", loops={0: dict(inv=[], dec=None)}, hints="assert forall|x: real| #![trigger rnd(x)] (rnd(x) as real) - x <= 0.5real && x - (rnd(x) as real) <= 0.5real by { lemma_rnd(x); } assert forall|v: Fl| #![trigger fsubr(v, nmean($0.@f))] xlt(xabs(fx(fsubr(v, nmean($0.@f)))), fx($0.max_std_dev)) implies isfin(v) && fr(v) - fr(nmean($0.@f)) < fr($0.max_std_dev) && fr(nmean($0.@f)) - fr(v) < fr($0.max_std_dev) by { lemma_accept(v, nmean($0.@f), $0.max_std_dev); }".replace("@f", fld) + ("" if lattice else "axiom_word(); axiom_p(); assert forall|v: int| #![trigger v % P()] 0 <= v < P() implies v % P() == v by { lemma_small_mod(v as nat, P() as nat); }"),
         post=["noisy(%s, nmean($0.%s), $0.max_std_dev, %s)" % ("$r as int" if lattice else "fv($r)", fld, M)] + ([] if lattice else ["canon($r)"]), **k)
def file(w, name="c23_sample_"):
    v = VFile(name + w["T"])
    v.include("std.rs"); v.include("std_w.rs", w)
    v.include("sample.rs", w)
    v.include("float.rs", w)
    v.include("sample_w.rs", w)
    sb = FL + [(r"\bT\b", w["T"])]
    A = "#[derive(Clone, Copy)]"
    v.struct("DiscreteGaussian", crate="lattice", tysub=sb, attrs=A, out="Dg")
    v.struct("TernarySampler", crate="lattice", tysub=sb, attrs=A, out="Ts")
    v.struct("BinarySampler", crate="lattice", tysub=sb, attrs=A)
    lattice_(v, w)
    return v
AL = dict(crate="algebra")
def field(w, name="c23_field_"):
    ws = WIDTHS[2] if w["BITS"] < 32 else w
    w = dict(w, SW=ws["T"], SB="(%s as int)" % ws["B"], SBITS=ws["BITS"])
    v = VFile(name + w["T"])
    std(v, [ws]); v.include("absfield.rs")
    v.text("broadcast use {absax::axiom_fv, absax::axiom_lazy};")
    v.include("sample.rs", w); v.include("float.rs", w)
    v.include("sample_w.rs", w)
    if w["T"] == "u64": v.text("impl Vcast_u64 for u64 { open spec fn cok(self) -> bool { true } open spec fn cval(self) -> int { self as int } fn cast(self) -> (r: u64) { self } }")
    v.include("sample_f.rs", w)
    wide.add_mul(v, ws)
    A = "#[derive(Clone, Copy)]"
    T, SW = w["T"], w["SW"]
    V = r"(?:Fe|F|Self)\s*::\s*Value"
    ty = VEC + FL + [(r"<\s*%s as UniformBase\s*>\s*::\s*gen_sample\s*\(" % V, "gen_sample("), (r"<\s*%s as UniformBase\s*>\s*::\s*Sample\s*::\s*as_from\s*\(" % V, "vwiden("), (r"<\s*%s as UniformBase\s*>\s*::\s*Sample" % V, SW),
         (r"\b(?:Fe|F|Self)\s*::\s*MODULUS_VALUE", "modulus_w()"), (r"(\w+|\(\s*-\s*\w+\s*\))\s*\.\s*as_into\s*\(\s*\)", r"vfrom_%s(\1)" % T), (r"NumCast\s*::\s*from\s*\(([^()]*)\)\s*\.\s*unwrap\s*\(\s*\)", r"vsmall(\1)"),
         (r"(x\s*\[\s*\d\s*\])\s*\.\s*count_ones\s*\(\s*\)", r"vcount(\1)"), (r"FieldUniformSampler\s*(::\s*)?<\s*Fe?\s*>", "FieldUniformSampler"), (r"\brng\s*\.\s*gen\s*::\s*<\s*\w+\s*>\s*\(\s*\)", "rng.gen_w()"), (r"Self\s*::\s*Sample", SW),
         (r"([\w:]+(?:\s*::\s*\w+)*(?:\s*\(\s*\))?)\s*\.\s*sample_iter\s*\(\s*(\w+)\s*\)\s*\.\s*take\s*\(\s*(\w+)\s*\)\s*\.\s*collect\s*\(\s*\)", r"\1.vtake(\2, \3)")]
    v.text("pub fn vwiden(x: $T) -> (r: $SW) ensures r == x { x as $SW }", w)
    for n in ("FieldUniformSampler", "FieldBinarySampler", "FieldTernarySampler", "FieldDiscreteGaussianSampler"):
        v.struct(n, tysub=ty, attrs=A, **AL)
    K = dict(env=w, subst={"F": "Fe", "R": "Rn"}, tysub=ty, **AL)
    val = lambda s: "pv(%s)" % s
    wfx = lambda s: "wf(%s@)" % s
    vec(v, "sample_binary_field_vec", "sample_binary_field_vec", 32, 1, val, lambda x: x, "", extra=["wf(@)"], **K)
    vec(v, "sample_ternary_field_vec", "sample_ternary_field_vec", 16, 2, val, lambda x: "tern(%s, P())" % x, ", P()", extra=["wf(@)"], **K)
    v.fn("", "sample_cbd_field_vec", pre=["P() > 21"], hints="axiom_word(); assert forall|x: u8| #![trigger vpop(x)] vpop(x) <= 8 by { lemma_pop(x); } assert forall|x: u8| #![trigger x & 0x1F] vpop(x & 0x1F) <= 5 by { lemma_pop(x); } assert forall|v: int| #![trigger v % P()] 0 <= v < P() implies v % P() == v by { lemma_small_mod(v as nat, P() as nat); } lemma_mod_self_0(P());",
         opts="#[verifier::loop_isolation(false)]", loops={0: dict(accty="Vec<Fe>", inv=["0 <= __i0 <= __n0", "__n0 == $0", "__acc0@.len() == __i0", "wf(__acc0@)", "forall|i: int| 0 <= i < __i0 ==> cbd21(fv(#[trigger] __acc0@[i]))"])},
         post=["$r@.len() == $0", "wf($r@)", "forall|i: int| 0 <= i < $r@.len() ==> cbd21(fv(#[trigger] $r@[i]))"], **K)
    k = dict(K, free=True)
    v.fn("Distribution<Fe> for FieldBinarySampler", "sample", method_of="FieldBinarySampler", cname="bin_sample", post=["canon($r)", "draws($n1) == draws($o1).push(draws($n1).last())", "fv($r) == b1(draws($n1).last(), 0)"], **k)
    v.fn("Distribution<Fe> for FieldTernarySampler", "sample", method_of="FieldTernarySampler", cname="ter_sample", post=["canon($r)", "draws($n1) == draws($o1).push(draws($n1).last())", "fv($r) == tern(b2(draws($n1).last(), 0), P())"], **k)
    v.fn("UniformBase for $T", "gen_sample", post="$r == lastw($n0)", **k)
    uw = "$0.range == P() && $0.thresh == thresh()"
    hu = "axiom_word(); axiom_p(); lemma_thresh();"
    v.fn("FieldUniformSampler<Fe>", "new", method_of="FieldUniformSampler", post=[uw.replace("$0", "$r")], hints=hu, **k)
    hl = "axiom_word(); axiom_p(); assert forall|x: int| #![trigger x * P()] 0 <= x < $SB implies 0 <= (x * P()) / $SB < P() && ((x * P()) / $SB) % P() == (x * P()) / $SB by { lemma_high(x); lemma_small_mod(((x * P()) / $SB) as nat, P() as nat); }"
    O = "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]"
    BK = lambda g: dict(inv=[], dec=None, ensures=["exists|x: int| #[trigger] unif(x, __b0 as int)"], brk="assert(unif(lastw(*%s) as int, __b0 as int));" % g)
    un = ["canon($r)", "exists|x: int| #[trigger] unif(x, fv($r))"]
    v.fn("Distribution<Fe> for FieldUniformSampler<Fe>", "sample", method_of="FieldUniformSampler", pre=uw, post=un, hints=hl, opts=O + " #[verifier::allow_complex_invariants]", loops={0: BK("$1")}, **k)
    v.fn("trait:Field", "random", method_of="Fe", cname="fe_random", post=un, hints=hu + hl, opts=O + " #[verifier::allow_complex_invariants]", loops={0: BK("$0")}, **dict(k, subst={"Self": "Fe", "R": "Rn"}))
    gauss(v, w, "FieldDiscreteGaussianSampler", "FieldDiscreteGaussianSampler", "gaussian", K, lattice=False)
    for P in ("Polynomial", "NTTPolynomial"):
        v.struct(P, tysub=[(r"\bF\b", "Fe")], attrs="", **AL)
        v.fn(P + "<Fe>", "new", method_of=P, post="$r.data@ == $0@", **k)
        each = lambda p: ["$r.data@.len() == $0", "forall|i: int| 0 <= i < $0 ==> %s" % p.replace("@", "(#[trigger] $r.data@[i])")]
        v.fn(P + "<Fe>", "random", method_of=P, post=each("uni@"), **k)
        for d in ("FieldUniformSampler", "FieldBinarySampler", "FieldTernarySampler", "FieldDiscreteGaussianSampler"):
            v.fn(P + "<Fe>", "random_with_distribution", method_of=P, cname="rwd_" + d, pre="$2.pre()", post=each("$2.ok@"), **dict(k, subst={"F": "Fe", "R": "Rn", "D": d}))
    P = "Polynomial"
    rw = lambda d, n, m: ["$r.data@.len() == $0", "draws($n1).len() == draws($o1).len() + $0 as int / %d + 1" % n, "drawn%d(pv($r.data@), draws($n1), draws($o1).len() as int%s)" % (d, m), "wf($r.data@)"]
    v.fn("Polynomial<Fe>", "random_with_binary", method_of=P, post=rw(1, 32, ""), **k)
    v.fn("Polynomial<Fe>", "random_with_ternary", method_of=P, post=rw(2, 16, ", P()"), **k)
    v.fn("Polynomial<Fe>", "random_with_gaussian", method_of=P, pre=["$2.pre()", "$2.cbd_enable ==> P() > 21"], post=each("canon@") + ["!$2.cbd_enable ==> forall|i: int| 0 <= i < $0 ==> $2.ok(#[trigger] $r.data@[i])", "$2.cbd_enable ==> forall|i: int| 0 <= i < $0 ==> cbd21(fv(#[trigger] $r.data@[i]))"], **k)
    return v
def t(): return file(WIDTHS[2], "c23_t_")
def tf(): return field(WIDTHS[0], "c23_tf_")
def build(): return [file(w) for w in WIDTHS] + [field(w) for w in WIDTHS]
