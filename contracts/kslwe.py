"""C20: key switching with scalar rows, over plain words and a power-of-two modulus"""
from common import *
import plain, pow2mod, decomp, secret
from vlib import VFile
FC = dict(crate="fhe_core")
def lwe(v, w):
    secret.lwe(v, w)
    T = w["T"]
    k = dict(crate="lattice", subst={"T": "$T", "M": "PowOf2Modulus<$T>"}, env=w, free=True, method_of="LWE", tysub=[(r"LWE\s*<\s*\w+\s*>", "LWE"), (r"self\s*\.\s*a\s*\.\s*as_ref\s*\(\s*\)", "self.a.as_slice()")])
    v.fn("LWE<$T>", "new", post=["$r.a == $0", "$r.b == $1"], **k)
    v.fn("LWE<$T>", "a_mut", post=["*$r == $o0.a", "*final($r) == $n0.a", "$n0.b == $o0.b"], **k)
    base = ["0 <= __i0 <= __n0", "__n0 == __g0.a@.len()", "self.a@.len() == __n0", "self.b == __g0.b", "wf2_$T(modulus)", "forall|j: int| __i0 <= j < __n0 ==> #[trigger] self.a@[j] == __g0.a@[j]"]
    v.fn("LWE<$T>", "add_reduce_inplace_component_wise", pre=["wf2_$T($2)", "$0.a@.len() == $1.a@.len()"], post=["sumof($n0, $o0, $1, $2.mask + 1)"],
         loops={0: dict(inv=base + ["__s0_0@ == $1.a@", "$1.a@.len() == __n0", "forall|j: int| 0 <= j < __i0 ==> (#[trigger] self.a@[j]) as int == (__g0.a@[j] + $1.a@[j]) % ($2.mask + 1)"])}, **k)
    v.fn("LWE<$T>", "neg_reduce_assign", pre=["wf2_$T($1)"], post=["negof($n0, $o0, $1.mask + 1)"],
         loops={0: dict(inv=base + ["forall|j: int| 0 <= j < __i0 ==> (#[trigger] self.a@[j]) as int == (-(__g0.a@[j] as int)) % ($1.mask + 1)"])}, **k)
def file(w, name=None):
    w = dict(w, BIGB=w["B"], MAXV=w["MAX"])
    T = w["T"]
    v = VFile(name or "c20_kslwe_" + T)
    v.supers["LWEModulusType"] = " + Copy"
    plain.base(v, w)
    pow2mod.fns(v, w)
    v.include("decomp.rs")
    v.include("decomp_w.rs", w)
    lwe0 = v
    TY = [(r"LWE\s*<\s*%s\s*>" % T, "LWE"), (r"Basis\s*<\s*%s\s*>" % T, "Basis")]
    decomp.lattice_fns(v, w)
    lwe(v, w)
    v.struct("KeySwitchingLWEKey", tysub=[(r"\bC\b", T)] + TY, attrs="", **FC)
    v.include("kslwe.rs", w)
    v.text("""
/// std: vec![e; n], TryInto of a word
#[verifier::external_body]
pub fn vzeros(e: $T, n: usize) -> (r: Vec<$T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == e, { vec![e; n] }
pub fn vtous(x: $T) -> (r: usize) ensures r == x { x as usize }
""", w)
    A = "__g1.a@"
    W = "self.basis.bits as nat"
    common = ["kwf(*self, %s.len())" % A, "result.a@.len() == self.lwe_dimension", "decomposed@.len() == %s.len()" % A]
    quo = "forall|i: int| 0 <= i < %s.len() ==> (#[trigger] a@[i]) as int == %s[i] as int / (pow2((%s * %%s) as nat) as int)" % (A, A, W)
    L0 = dict(inv=common + ["a@.len() == %s.len()" % A, "__n0 == self.key@.len()", "0 <= __i0 <= __n0", quo % "__i0", "accl(result, *self, %s, __i0 as nat, 0)" % A],
              before="lemma_acc0(result, *self, %s); assert forall|i: int| 0 <= i < %s.len() implies (#[trigger] a@[i]) as int == %s[i] as int / (pow2((%s * 0) as nat) as int) by { lemma_dig0(%s[i] as int, %s); }" % (A, A, A, W, A, W),
              after="assert forall|n: LWE, o: LWE| #![trigger negof(n, result, self.modulus.mask + 1), tag(o)] negof(n, result, self.modulus.mask + 1) && o.a == n.a && o.b as int == (n.b + __g1.b) % (self.modulus.mask + 1) implies swall(o, *self, __g1) by { lemma_accfin(result, n, o, *self, __g1); }", ghost="let ghost a0 = a@;",
              head="assert(lvl(self.key@[__i0 as int]@, %s.len(), self.basis.mask as int, self.lwe_dimension as nat));" % A,
              tail="lemma_accnext(result, *self, %s, (__i0 - 1) as nat); assert forall|i: int| 0 <= i < %s.len() implies (#[trigger] a@[i]) as int == %s[i] as int / (pow2((%s * __i0) as nat) as int) by { let _ = a0[i]; lemma_digstep(%s[i] as int, %s, (__i0 - 1) as nat); }" % (A, A, A, W, A, W))
    L1 = dict(inv=common + ["0 <= __c0 < self.key@.len()", "inner@ == self.key@[__c0 as int]@", "0 <= __i1 <= __n1", "__n1 == %s.len()" % A, "lvl(self.key@[__c0 as int]@, %s.len(), self.basis.mask as int, self.lwe_dimension as nat)" % A,
              "forall|i: int| 0 <= i < __n1 ==> (#[trigger] decomposed@[i]) as int == dig(%s[i] as int, %s, __c0 as nat)" % (A, W), "accl(result, *self, %s, __c0 as nat, __i1 as nat)" % A],
              ghost="let ghost r0 = result;", head="assert(rws(self.key@[__c0 as int]@[__i1 as int]@, self.basis.mask as int, self.lwe_dimension as nat)); lemma_digstep(%s[__i1 as int] as int, %s, __c0 as nat);" % (A, W),
              tail="lemma_accstep(r0, result, *self, %s, __c0 as nat, (__i1 - 1) as nat);" % A)
    v.fn("KeySwitchingLWEKey<$T>", "key_switch_for_lwe", env=w, subst={"C": "$T"}, free=True, method_of="KeySwitchingLWEKey", tysub=TY + [(r"\b%s\s*::\s*ZERO" % T, "(0 as $T)"), (r"\bfrom_elem\s*\(", "vzeros("), (r"\b(\w+)\s*\.\s*try_into\s*\(\s*\)\s*\.\s*ok\s*\(\s*\)\s*\.\s*unwrap\s*\(\s*\)", r"vtous(\1)")],
         pre=["kwf($0, $1.a@.len())", "forall|i: int| 0 <= i < $1.a@.len() ==> (#[trigger] $1.a@[i]) <= $0.modulus.mask"],
         post=["$r.a@.len() == $0.lwe_dimension", "forall|s: Seq<$T>, z: Seq<$T>| s.len() == $0.lwe_dimension && z.len() == $1.a@.len() ==> #[trigger] switched($0, $1, $r, s, z)"],
         loops={0: L0, 1: L1}, end="assert(tag($R)); assert(swall($R, *self, __g1));", **FC)
    gen(v, w, TY)
    return v
def gen(v, w, TY):
    secret.params(v, w, True)
    secret.key(v, w, True)
    P = "$0.parameters"
    Q = "pq(%s)" % P
    DD = "chi(%s.key_switching_params.noise_standard_deviation, %s)" % (P, Q)
    SK = "$0.lwe_secret_key@"
    RG = "$0.ring_secret_key.data@"
    W = "(%s.key_switching_params.basis_bits as nat)" % P
    T = w["T"]
    fix = ["par(%s)" % P, "sk@ == " + SK, "wf2_$T(lwe_cipher_modulus)", "lwe_cipher_modulus.mask + 1 == " + Q, "lwe_cipher_modulus_value == " + Q, "noise_distribution == " + DD, "dmod(noise_distribution) == " + Q, "basis == pow2(%s)" % W, "basis_usize == basis", "basis >= 2", "rings(ring_sk@, %s, pow2((%s * %%s) as nat) as int, %s)" % (RG, W, Q)]
    def F(j): return [x % j if "%s" in x else x for x in fix]
    ENC = [(r"let mut res = Vec ::", "let mut res : Vec<LWE> = Vec ::"), (r"lattice\s*::\s*Basis\s*::\s*<\s*%s\s*>" % T, "Basis"), (r"Basis\s*::\s*<\s*%s\s*>" % T, "Basis"), (r"\b%s\s*::\s*ONE\b" % T, "(1 as $T)"), (r"\b%s\s*::\s*ZERO\b" % T, "(0 as $T)"),
           (r"\b(\w+)\s*\.\s*try_into\s*\(\s*\)\s*\.\s*ok\s*\(\s*\)\s*\.\s*unwrap\s*\(\s*\)", r"vtous(\1)"), (r"secret_key_pack\s*\.\s*ring_secret_key\s*\(\s*\)", "secret_key_pack.ring_secret_key().data.as_slice()")]
    v.fn("KeySwitchingLWEKey<$T>", "generate", env=w, subst={"C": "$T", "Q": "Qf", "R": "Rn"}, free=True, method_of="KeySwitchingLWEKey", tysub=ENC + [(r"KeySwitchingLWEKey\s*<[^>]*>", "KeySwitchingLWEKey")] + TY + secret.TY,
         pre=["par(%s)" % P, "1 <= %s < $BITS" % W, "pow2(%s) <= %s" % (W, Q), "%s.lwe_params.dimension == %s.len()" % (P, SK)],
         post=["kwf($r, %s.len())" % RG, "$r.modulus.mask + 1 == " + Q, "genkey($r.key@, %s, %s, %s, %s, $r.basis.bits as nat)" % (SK, Q, DD, RG), "$r.lwe_dimension == %s.len()" % SK, "$r.basis.bits == %s.key_switching_params.basis_bits" % P],
         loops={0: dict(inv=["0 <= __i0 <= __n0", "__n0 == %s.len()" % RG, "__s0_0@ == " + RG, "neg_one == %s - 1" % Q, "%s >= 2" % Q, "__acc0@.len() == __i0", "forall|i: int| 0 <= i < __i0 ==> (#[trigger] __acc0@[i]) as int == (1 * kz(%s[i], %s)) %% %s" % (RG, Q, Q)],
                        head="let z = kz(%s[__i0 as int], %s); lemma_small_mod(z as nat, %s as nat);" % (RG, Q, Q), after="lemma_dig0(0, %s); lemma_basis2(%s);" % (W, W)),
                1: dict(accty="Vec<Vec<Vec<LWE>>>", inv=["0 <= __i1 <= __n1", "__n1 == len", "__acc1@.len() == __i1", "genkey(__acc1@, %s, %s, %s, %s, %s)" % (SK, Q, DD, RG, W), "forall|j: int| 0 <= j < __i1 ==> lvl(#[trigger] __acc1@[j]@, %s.len(), basis - 1, %s.len())" % (RG, SK)] + [x for x in F("0") if "rings" not in x] + ["ring_sk@.len() == %s.len()" % RG, "__i1 < __n1 ==> " + F("__i1")[-1]]),
                2: dict(accty="Vec<Vec<LWE>>", inv=["0 <= __i2 <= __n2", "__n2 == %s.len()" % RG, "__acc2@.len() == __i2", "forall|i: int| 0 <= i < __i2 ==> rws(#[trigger] __acc2@[i]@, basis - 1, %s.len())" % SK, "genlvl(__acc2@, %s, %s, %s, %s, pow2((%s * __c1) as nat) as int)" % (SK, Q, DD, RG, W)] + F("__c1")),
                3: dict(inv=["1 <= v <= basis", "res@.len() == v - 1", "0 <= __c2 < %s.len()" % RG, "z as int == (pow2((%s * __c1) as nat) * kz(%s[__c2 as int], %s)) %% %s" % (W, RG, Q, Q), "forall|i: int| 0 <= i < res@.len() ==> (#[trigger] res@[i]).a@.len() == %s.len()" % SK, "genrow(res@, %s, %s, %s, pow2((%s * __c1) as nat) * kz(%s[__c2 as int], %s))" % (SK, Q, DD, W, RG, Q)] + F("__c1"), dec="basis - v", ghost="let ghost v0 = v;",
                        tail="let y = pow2((%s * __c1) as nat) * kz(%s[__c2 as int], %s); let n = res@.last(); lemma_mod_twice(y, %s); assert forall|o: LWE| #![trigger phase(o, sk@, %s)] n.a == o.a && n.b as int == (o.b + (v0 * z) %% %s) %% %s && o.a@.len() == sk@.len() && (exists|e: int| #[trigger] sup(%s, e) && phase(o, sk@, %s) == e %% %s) implies rowenc(n, sk@, %s, %s, v0 * y) by { lemma_rowenc(o, n, sk@, %s, %s, v0 as int, y, z as int); }" % (W, RG, Q, Q, Q, Q, Q, DD, Q, Q, Q, DD, Q, DD)),
                4: dict(inv=["0 <= __i4 <= __n4", "__n4 == %s.len()" % RG, "ring_sk@.len() == __n4", "wf2_$T(lwe_cipher_modulus)", "lwe_cipher_modulus.mask + 1 == " + Q, "forall|i: int| 0 <= i < __i4 ==> (#[trigger] ring_sk@[i]) as int == (rs0[i] * basis) %% %s" % Q, "forall|i: int| __i4 <= i < __n4 ==> #[trigger] ring_sk@[i] == rs0[i]"],
                        before="let ghost rs0 = ring_sk@;", after="lemma_rings(rs0, ring_sk@, %s, %s, __c1 as nat, %s);" % (RG, W, Q))}, **FC)
def t(): 
    v = file(WIDTHS[2], "c20_t"); v.roots = {"key_switch_for_lwe", "generate", "thm_exact", "thm_switch"}; return v
def build():
    r = [file(w) for w in WIDTHS]
    for v in r: v.roots = {"key_switch_for_lwe", "generate", "thm_exact", "thm_switch"}
    return r
