"""C22: blind rotation over an arbitrary field with a transform"""
from common import *
import gadget, poly, rlwe
from vlib import VFile
SPACES = [(r"\bexternal_product\s*\.\s*mul_assign_ntt_rgsw", "external_product.space.mul_assign_ntt_rgsw"), (r",\s*external_product\s*,?\s*\)", ", &mut external_product.space)"), (r"add_assign_element_wise\s*\(\s*external_product\s*\)", "add_assign_element_wise(&external_product.space)"),
          (r"\bdecompose_space\s*\.\s*as_mut_slice", "decompose_space.space.as_mut_slice"), (r",\s*decompose_space\s*,\s*evaluation_key\s*,?\s*\)", ", &decompose_space.space, &mut evaluation_key.space)"), (r"mul_assign_ntt_rgsw\s*\(\s*evaluation_key\s*,", "mul_assign_ntt_rgsw(&evaluation_key.space,")]
TY = gadget.TY + SPACES + [(r"(RLWESpace|NTTRGSWSpace)\s*(::\s*)?<\s*Fe\s*>", r"\1"), (r"LWE\s*<\s*Cm\s*>", "LWEC"), (r"AsInto\s*::\s*<\s*usize\s*>\s*::\s*as_into\s*\(", "vidx("), (r"\ba_i\s*\.\s*as_into\s*\(\s*\)", "vidx(a_i)"), (r"\*\s*__x\s*\.\s*as_into\s*\(\s*\)", "vidx(*__x)"),
     (r"lut\s*\.\s*as_mut_slice\s*\(\s*\)\s*\.\s*rotate_right\s*\(", "vrotr(&mut lut.data, "), (r"\blut\s*\[", "lut.data[")]
def b(v, n, name, **k):
    return v.fn(n + "<Fe>", name, crate="fhe_core", subst=dict(poly.SUB, C="Cm"), tysub=TY, vecs=dict(poly.VECS, **{"": {"lut": "data", "__lut": "data"}}), free=True, method_of=n, **k)
def base(v):
    gadget.base(v)
    rlwe.rotation(v)
    v.text("/// the extraction of `LWE<C>` fixes the coefficient type")
    for n in ("RLWESpace", "NTTRGSWSpace"):
        v.struct(n, crate="lattice", tysub=[(r"(\w+)\s*<\s*F\s*>", r"\1")], attrs="")
        v.anchor("Deref for %s<F>" % n, "deref", "&self.space", crate="lattice")
        v.anchor("DerefMut for %s<F>" % n, "deref_mut", "&mut self.space", crate="lattice")
    gadget.g(v, "RLWESpace", "new", post=["rwf($r.space, $0 as nat)"])
    gadget.g(v, "NTTRGSWSpace", "new", post=sum([["$r.space.%s.basis == $1" % c, "$r.space.%s.data@.len() == $1.decompose_len" % c, "forall|j: int| 0 <= j < $1.decompose_len ==> zrow(#[trigger] $r.space.%s.data@[j], $0 as nat)" % c] for c in ("c_m", "c_neg_s_m")], []))
    v.include("blind.rs")
    v.struct("LWE", crate="lattice", tysub=[(r"\bT\b", "Cm")], attrs="", out="LWEC")
    k = dict(crate="lattice", subst={"T": "Cm"}, free=True, method_of="LWEC", tysub=[(r"LWE\s*<\s*\w+\s*>", "LWEC"), (r"self\s*\.\s*a\s*\.\s*as_ref\s*\(\s*\)", "self.a.as_slice()")])
    v.fn("LWE<Cm>", "a", post=["$r@ == $0.a@"], **k)
    v.fn("LWE<Cm>", "b", post=["$r == $0.b"], **k)
def file(name):
    v = VFile(name)
    base(v)
    v.struct("BinaryBlindRotationKey", crate="fhe_core", tysub=[(r"(\w+)\s*<\s*F\s*>", r"\1")], attrs="")
    n = "$1.data@.len()"
    Q = "forall|s: Seq<int>, z: Seq<int>| #[trigger] bkey(%s.key@, s, z, %s) ==> rph(%s, s) == xmul(pv(%s.data@), rot(%s as int, cv($2.b) as int, $2.a@, z, %s))"
    LW = ["cv($2.b) < 2 * %s" % n, "forall|i: int| 0 <= i < $2.a@.len() ==> cv(#[trigger] $2.a@[i]) < 2 * %s" % n]
    inv = ["0 <= __i0 <= __n0", "__n0 == self.key@.len()", "__n0 == $2.a@.len()", "rlwe_dimension as nat == __g1.data@.len()", "ringn(rlwe_dimension as nat)", "rlwe_dimension <= 0x2000_0000_0000_0000", "rwf(__acc0, rlwe_dimension as nat)",
           "forall|i: int| 0 <= i < self.key@.len() ==> nttrgsww(#[trigger] self.key@[i], rlwe_dimension as nat)", "forall|i: int| 0 <= i < $2.a@.len() ==> cv(#[trigger] $2.a@[i]) < 2 * rlwe_dimension",
           "rwf(external_product.space, rlwe_dimension as nat)", "decompose_space.space.data@.len() == rlwe_dimension", "polynomial_space.space.data@.len() == rlwe_dimension", "ntt_rlwe_space.space.a.data@.len() == rlwe_dimension", "ntt_rlwe_space.space.b.data@.len() == rlwe_dimension", "isres(pv(__g1.data@))",
           Q % ("self", "rlwe_dimension as nat", "__acc0", "__g1", "rlwe_dimension", "__i0 as nat")]
    inv = [x.replace("__i0", "__i2").replace("__n0", "__n2").replace("__acc0", "__acc2") for x in inv] + ["__s2_0@ == $2.a@"]
    rotl = ["rlwe_dimension == __g1.data@.len()", "lut.data@.len() == rlwe_dimension", "wf(__g1.data@)", "rlwe_dimension <= 0x2000_0000_0000_0000"]
    L0 = dict(inv=rotl + ["0 <= __i0 <= __n0", "__lo0_0 == 0", "__n0 == neg_b", "neg_b <= rlwe_dimension", "forall|j: int| 0 <= j < __i0 ==> canon(#[trigger] lut.data@[j]) && fv(lut.data@[j]) == fneg(fv(__g1.data@[rlwe_dimension - neg_b + j]))",
              "forall|j: int| __i0 <= j < rlwe_dimension ==> #[trigger] lut.data@[j] == __g1.data@[if j < neg_b { rlwe_dimension - neg_b + j } else { j - neg_b }]"], after="assert(wf(lut.data@)); assert(pv(lut.data@) =~= xmul(pv(__g1.data@), neg_b as int));")
    L1 = dict(inv=rotl + ["0 <= __i1 <= __n1", "__lo1_0 == r", "__n1 == rlwe_dimension - r", "r == neg_b - rlwe_dimension", "rlwe_dimension < neg_b", "r <= rlwe_dimension", "forall|j: int| r <= j < r + __i1 ==> canon(#[trigger] lut.data@[j]) && fv(lut.data@[j]) == fneg(fv(__g1.data@[j - r]))",
              "forall|j: int| (0 <= j < r || r + __i1 <= j < rlwe_dimension) ==> #[trigger] lut.data@[j] == __g1.data@[if j < r { rlwe_dimension - r + j } else { j - r }]"], after="assert(wf(lut.data@)); assert(pv(lut.data@) =~= xmul(pv(__g1.data@), neg_b as int));")
    st = "forall|s: Seq<int>, z: Seq<int>| #[trigger] bkey(self.key@, s, z, rlwe_dimension as nat) implies "
    L2 = dict(inv=inv, accty="RLWE",
              before="lemma_pv(__g1.data@); lemma_ringpos(rlwe_dimension as nat); lemma_xcomp(pv(__g1.data@), 0, 0); assert " + st + "rph(__acc2, s) == xmul(pv(__g1.data@), rot(rlwe_dimension as int, cv($2.b) as int, $2.a@, z, 0)) by { lemma_start(__acc2, s); lemma_rot(rlwe_dimension as int, cv($2.b) as int, $2.a@, z, 0); if cv($2.b) > 0 { lemma_small_mod((2 * rlwe_dimension - cv($2.b)) as nat, (2 * rlwe_dimension) as nat); } else { lemma_mod_self_0((2 * rlwe_dimension) as int); } }",
              ghost="let ghost acc0 = __acc2;",
              tail="assert " + st + "rph(__acc2, s) == xmul(pv(__g1.data@), rot(rlwe_dimension as int, cv($2.b) as int, $2.a@, z, __i2 as nat)) by { lemma_bin(pv(__g1.data@), acc0, __acc2, self.key@, s, z, cv($2.b) as int, $2.a@, (__i2 - 1) as nat); }")
    b(v, "BinaryBlindRotationKey", "blind_rotate", pre=["wf($1.data@)", "ringn(%s)" % n, n + " <= 0x2000_0000_0000_0000", "$0.key@.len() == $2.a@.len()", "forall|i: int| 0 <= i < $0.key@.len() ==> nttrgsww(#[trigger] $0.key@[i], %s)" % n] + LW,
      post=["rwf($r, %s)" % n, Q % ("$0", n, "$r", "$1", n, "$2.a@.len()")],
      hints="assert forall|x: usize| x <= 0x2000_0000_0000_0000 implies #[trigger] (x << 1) == 2 * x by { assert(x << 1 == 2 * x) by (bit_vector) requires x <= 0x2000_0000_0000_0000; }", loops={0: L0, 1: L1, 2: L2})
    # ternary keys: accumulate with the combined evaluation key
    v.struct("TernaryBlindRotationKey", crate="fhe_core", tysub=[(r"(\w+)\s*<\s*F\s*>", r"\1")], attrs="")
    R = lambda x: x.replace("bkey(", "tkey(")
    drop = "nttrgsww(#[trigger]"
    tinv = [R(x) for x in inv if drop not in x] + ["tok(self.key@, rlwe_dimension as nat, $3)", "wfb($3)", "ekdim(evaluation_key.space, rlwe_dimension as nat, $3)", "pow2(tlog(ntt_table)) == rlwe_dimension"]
    T2 = dict(inv=tinv, accty="RLWE", ghost=L2["ghost"], before=R(L2["before"]), head="let kk = self.key@[__i2 as int]; assert(nttrgsww(kk.0, rlwe_dimension as nat)); let _ = cv($2.a@[__i2 as int]); assert(rlwe_dimension << 1 == 2 * rlwe_dimension) by (bit_vector) requires rlwe_dimension <= 0x2000_0000_0000_0000;",
              tail="assert(ekdim(evaluation_key.space, rlwe_dimension as nat, $3)); assert " + R(st) + "rph(__acc2, s) == xmul(pv(__g1.data@), rot(rlwe_dimension as int, cv($2.b) as int, $2.a@, z, __i2 as nat)) by { lemma_tern(pv(__g1.data@), acc0, __acc2, evaluation_key.space, self.key@, s, z, cv($2.b) as int, $2.a@, (__i2 - 1) as nat, $3); }")
    b(v, "TernaryBlindRotationKey", "blind_rotate", pre=["wf($1.data@)", "ringn(%s)" % n, n + " <= 0x2000_0000_0000_0000", "$0.key@.len() == $2.a@.len()", "tok($0.key@, %s, $3)" % n, "wfb($3)"] + LW,
      post=["rwf($r, %s)" % n, R(Q % ("$0", n, "$r", "$1", n, "$2.a@.len()"))],
      hints="assert forall|x: usize| x <= 0x2000_0000_0000_0000 implies #[trigger] (x << 1) == 2 * x by { assert(x << 1 == 2 * x) by (bit_vector) requires x <= 0x2000_0000_0000_0000; }", loops={0: L0, 1: L1, 2: T2})
    # dispatch on the key kind
    v.text("pub enum BlindRotationKey { Binary(BinaryBlindRotationKey), Ternary(TernaryBlindRotationKey) }\npub open spec fn kok(k: BlindRotationKey, n: nat, c: nat, b: Basis) -> bool { match k { BlindRotationKey::Binary(x) => x.key@.len() == c && forall|i: int| 0 <= i < x.key@.len() ==> nttrgsww(#[trigger] x.key@[i], n), BlindRotationKey::Ternary(x) => x.key@.len() == c && tok(x.key@, n, b) && wfb(b) } }\npub open spec fn akey(k: BlindRotationKey, s: Seq<int>, z: Seq<int>, n: nat) -> bool { match k { BlindRotationKey::Binary(x) => bkey(x.key@, s, z, n), BlindRotationKey::Ternary(x) => tkey(x.key@, s, z, n) } }\n")
    b(v, "BlindRotationKey", "blind_rotate", pre=["wf($1.data@)", "ringn(%s)" % n, n + " <= 0x2000_0000_0000_0000", "kok($0, %s, $2.a@.len(), $3)" % n] + LW,
      post=["rwf($r, %s)" % n, Q.replace("bkey(%s.key@", "akey(%s") % ("$0", n, "$r", "$1", n, "$2.a@.len()")])
    return v
def t():
    v = file("c22_t"); v.roots = {"blind_rotate", "lemma_const"}; return v
def build():
    v = file("c22_blind")
    v.roots = {"blind_rotate", "lemma_const"}
    return [v]
