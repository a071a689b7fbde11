"""C21: gate look-up tables, gates and their bootstrapping"""
from common import *
import poly
from vlib import VFile
TY = poly.TY + [(r"\bFe\s*::\s*MODULUS_VALUE\b", "vmodulus()"), (r"\bq\s*>>\s*3u32", "vshr(q, 3u32)"), (r"\bq\s*-\s*(q_div_8\s*\.\s*value\s*\(\s*\))", r"vsubv(q, \1)")]
def fe(v):
    v.text("""
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Val { x: u64 }
pub uninterp spec fn vv(v: Val) -> int;
/// the field's value type: modulus, shift, difference, and the element of a value
#[verifier::external_body]
pub fn vmodulus() -> (r: Val) ensures vv(r) == P() { unimplemented!() }
#[verifier::external_body]
pub fn vshr(a: Val, k: u32) -> (r: Val) requires vv(a) >= 0, ensures vv(r) == vv(a) / (pow2(k as nat) as int) { unimplemented!() }
#[verifier::external_body]
pub fn vsubv(a: Val, b: Val) -> (r: Val) requires vv(a) >= vv(b), vv(b) >= 0, ensures vv(r) == vv(a) - vv(b) { unimplemented!() }
impl Fe {
    #[verifier::external_body]
    pub fn new(v: Val) -> (r: Fe) requires 0 <= vv(v) < P(), ensures canon(r), fv(r) == vv(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn value(self) -> (r: Val) requires canon(self), ensures vv(r) == fv(self) { unimplemented!() }
}
""")
    v.include("gates.rs")
    v.text("""
pub open spec fn sv(s: int) -> int { if s > 0 { P() / 8 } else { P() - P() / 8 } }
/// table l of dimension n: at every index a rotation of the given step can reach, an eighth of the modulus with the sign of ent
pub open spec fn lutp(l: Polynomial, n: int, step: int, qt: int, sg: int) -> bool { wf(l.data@) && l.data@.len() == n && forall|i: int| 0 <= i < n && i % step == 0 ==> fv(#[trigger] l.data@[i]) == sv(ent(n, qt, sg, i)) }
pub open spec fn seg(l: Seq<Fe>, step: int, lo: int, hi: int, x: Fe) -> bool { forall|i: int| lo <= i < hi && i < l.len() && (i - lo) % step == 0 ==> #[trigger] l[i] == x }
proof fn lemma_step(c: int, s: int) requires s > 0, c >= 0 ensures (c + 1) * s == c * s + s, c * s >= 0, forall|i: int| #![trigger i % s] i % s == 0 && c * s < i ==> i >= (c + 1) * s, (c * s) % s == 0
{
    assert((c + 1) * s == c * s + s && c * s >= 0) by (nonlinear_arith) requires s > 0, c >= 0;
    lemma_mod_multiples_basic(c, s);
    assert forall|i: int| #![trigger i % s] i % s == 0 && c * s < i implies i >= (c + 1) * s by { lemma_fundamental_div_mod(i, s); let d = i / s; assert(s * d == d * s) by (nonlinear_arith); assert(d >= c + 1) by (nonlinear_arith) requires d * s > c * s, s > 0; assert(d * s >= (c + 1) * s) by (nonlinear_arith) requires d >= c + 1, s > 0; }
}
proof fn lemma_ceil(m: int, s: int, n: int) requires s > 0, m >= 0, n == (m + s - 1) / s ensures n * s >= m, forall|c: int| #![trigger c * s] 0 <= c < n ==> c * s < m
{
    lemma_fundamental_div_mod(m + s - 1, s); lemma_mod_bound(m + s - 1, s);
    assert(s * n == n * s) by (nonlinear_arith);
    assert forall|c: int| #![trigger c * s] 0 <= c < n implies c * s < m by { assert(c * s <= (n - 1) * s) by (nonlinear_arith) requires c <= n - 1, s > 0; assert((n - 1) * s == n * s - s) by (nonlinear_arith); }
}
pub proof fn lemma_seg(l: Polynomial, n: int, step: int, qt: int, sg: int, mid: int, lo: Fe, hi: Fe)
    requires wf(l.data@), l.data@.len() == n, step > 0, mid % step == 0, 0 <= mid <= n, seg(l.data@, step, 0, mid, lo), seg(l.data@, step, mid, n, hi), mid == qt * (n / 4), n % 4 == 0, qt == 1 || qt == 2 || qt == 3, fv(lo) == sv(-sg), fv(hi) == sv(sg), sg == 1 || sg == -1,
    ensures lutp(l, n, step, qt, sg),
{
    let k = n / 4; assert(qt * n == 4 * mid) by (nonlinear_arith) requires n == 4 * k, mid == qt * k;
    assert forall|i: int| 0 <= i < n && i % step == 0 implies fv(#[trigger] l.data@[i]) == sv(ent(n, qt, sg, i)) by { if i >= mid { lemma_sub_mod_noop(i, mid, step); lemma_small_mod(0, step as nat); } }
}
""")
QT = {"nand_and_majority": 3, "or_nor": 1, "xor_xnor": 2}
def f(v, name, **k):
    return v.fn("", name, crate="zkfhe", subst=poly.SUB, tysub=TY, vecs=dict(poly.VECS, **{"": {"v": "data"}}), free=True, **k)
def luts(v):
    fe(v)
    for kind, qt in QT.items():
        def inv(k):
            L = ("0", "mid")[k]
            x, y = ("$2", "$3") if kind == "nand_and_majority" else ("$3", "$2")
            I = ["0 <= __i%d <= __n%d" % (k, k), "v.data@.len() == $0", "wf(v.data@)", "canon($2)", "canon($3)", "__st%d_1 == $1" % k, "$1 > 0", "mid <= $0", "__lo%d_0 == %s" % (k, "0" if k == 0 else "mid"), "__hi%d_0 == %s" % (k, "mid" if k == 0 else "$0"),
                 "__n%d as int == (__hi%d_0 - __lo%d_0 + $1 - 1) / ($1 as int)" % (k, k, k), "seg(v.data@, $1 as int, %s as int, %s + __i%d * $1, %s)" % (L, L, k, (x, y)[k])]
            if k == 1: I.append("seg(v.data@, $1 as int, 0, mid as int, %s)" % x)
            return dict(inv=I, head="lemma_step(__i%d as int, $1 as int); lemma_ceil(__hi%d_0 - __lo%d_0, $1 as int, __n%d as int);" % (k, k, k, k), after="lemma_ceil(__hi%d_0 - __lo%d_0, $1 as int, __n%d as int);" % (k, k, k) + ("" if k == 0 else ""))
        x, y = ("$2", "$3") if kind == "nand_and_majority" else ("$3", "$2")
        f(v, "init_%s_lut" % kind, pre=["$0 > 0", "$0 % 4 == 0", "$1 > 0", "(%d * ($0 / 4)) %% ($1 as int) == 0" % qt, "canon($2)", "canon($3)"] + ["fv($2) == sv(1) && fv($3) == sv(-1) || fv($2) == sv(-1) && fv($3) == sv(1)"],
          post=["fv(%s) == sv(1) ==> lutp($r, $0 as int, $1 as int, %d, 1)" % (y, qt), "fv(%s) == sv(-1) ==> lutp($r, $0 as int, $1 as int, %d, -1)" % (y, qt)],
          hints="lemma_shr4($0);", loops={0: inv(0), 1: inv(1)},
          end="assert forall|sg: int| (sg == 1 || sg == -1) && fv(%s) == sv(sg) && fv(%s) == sv(-sg) implies #[trigger] lutp($R, $0 as int, $1 as int, %d, sg) by { lemma_seg($R, $0 as int, $1 as int, %d, sg, %d * ($0 as int / 4), %s, %s); }" % (y, x, qt, qt, qt, x, y))
    for g, (qt, sg) in GATES.items():
        f(v, "init_%s_lut" % g, pre=["$0 > 0", "$0 % 4 == 0", "$1 > 0", "(%d * ($0 / 4)) %% ($1 as int) == 0" % qt, "P() >= 8"], post=["lutp($r, $0 as int, $1 as int, %d, %d)" % (qt, sg)], hints="lemma2_to64(); axiom_p();")
GATES = {"nand": (3, -1), "and_majority": (3, 1), "or": (1, 1), "nor": (1, -1), "xor": (2, 1), "xnor": (2, -1)}
def lutfile():
    v = VFile("c21_luts")
    poly.base(v)
    v.struct("Polynomial", tysub=[(r"\bF\b", "Fe")], attrs="") if False else None
    poly.elementwise(v, "Polynomial")
    v.text("pub fn vsub_ok(lo: usize, hi: usize, n: usize) requires lo <= hi, hi <= n { }\npub proof fn lemma_shr4(n: usize) ensures n >> 1 == n / 2, n >> 2 == n / 4 { assert(n >> 1 == n / 2) by (bit_vector); assert(n >> 2 == n / 4) by (bit_vector); }\n")
    luts(v)
    return v
def t():
    v = lutfile(); v.roots = {"init_%s_lut" % g for g in GATES} | {"thm_and", "thm_or", "thm_xor"}; return v
