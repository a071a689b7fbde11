"""C27: AES in counter mode"""
from common import *
from vlib import VFile
TY = [(r"(self\s*\.\s*encrypt_many_blocks)\s*\(\s*(buf|\w+)\s*\)", r"\1(vdup(&\2))"), (r"BlockRng\s*::\s*<\s*PrgCore\s*>\s*::", "BlockRng::"), (r"\bcast\s*\(", "vcast32("), (r"(\w+)\s*\.\s*copy_from_slice\s*\(\s*&\s*blks\s*\[([^\[\]]*?)\.\.\s*\]\s*\)", r"vcopy_in(&mut \1, blks, \2, blks.len())"), (r"(\w+)\s*\.\s*copy_from_slice\s*\(\s*&\s*blks\s*\[([^\[\]]*?)\.\.([^\[\]]*?)\]\s*\)", r"vcopy_in(&mut \1, blks, \2, \3)"), (r"blks\s*\[([^\[\]]*?)\.\.\s*\]\s*\.\s*copy_from_slice\s*\(", r"vcopy_out(blks, \1, blks.len(), "), (r"blks\s*\[([^\[\]]*?)\.\.([^\[\]]*?)\]\s*\.\s*copy_from_slice\s*\(", r"vcopy_out(blks, \1, \2, "), (r"Self\s*::\s*Results", "Vec<u32>"), (r"Self\s*::\s*Seed", "Block"), (r"\[\s*Block\s*::\s*(?:ZERO|default\s*\(\s*\))\s*;\s*(\w+)\s*\]", r"vzeros(\1)"), (r"::\s*<\s*N\s*>", ""), (r"\[\s*Block\s*;\s*\w+\s*\]", "Vec<Block>")]
def a(v, name, **k):
    return v.fn("Aes", name, free=True, method_of="Aes", tysub=TY, **k)
def build():
    v = VFile("c27_prg"); std(v, WIDTHS[3:]); v.include("prg.rs")
    v.struct("Block", tysub=[(r"__m128i", "Mm")])
    v.struct("Aes", tysub=TY, attrs="#[derive(Clone)]")
    K = "Seq::new(11, |n: int| $a0.0@[n].0)"
    a(v, "aes_init", post=["$r.wf()", "$r.ks() == rks($0.0)"], end="let kp = $R.0@; " + "".join("lemma_step(kp[%d].0, rotw(subw(kp[%d].0.w3)) ^ rcon(%d)); assert(nexts(kp[%d].0, kp[%d].0, rcon(%d))); lemma_next($0.0, %d, kp[%d].0);" % (i, i, i + 1, i, i + 1, i + 1, i, i + 1) for i in range(10)) + "assert($R.ks() =~= rks($0.0));")
    a(v, "new", post=["$r.wf()", "$r.ks() == rks($0.0)"])
    a(v, "encrypt_backend", pre="$0.wf()", post="$r.0 == cipher($0.ks(), $1.0)", hints="lemma_xcomm($1.0, $0.0@[0].0);", body_subst=[(r"while __i", "#[verifier::loop_isolation(false)] while __i")], loops={0: dict(inv=["__i0 <= __n0", "__n0 == 9", "$m0 == rnds(self.ks(), $1.0, __i0 as nat)"], head="lemma_shsub($m0);", after="lemma_shsub($m0);")})
    a(v, "encrypt_block", pre="$0.wf()", post="$r.0 == cipher($0.ks(), $1.0)")
    KS = "self.ks()"
    iso = [(r"while __i", "#[verifier::loop_isolation(false)] while __i")]
    n = "$1@.len()"
    fa = lambda c, e: "forall|j: int| #![trigger %s[j]] 0 <= j < %s ==> %s[j] == %s" % (c, n, c, e)
    C = "$m0@"
    R = lambda i: "rnds(self.ks(), $1@[j].0, (%s) as nat)" % i
    a(v, "unsafe_encrypt_many_blocks", pre="$0.wf()", post=["$r@.len() == $1@.len()", "forall|j: int| #![trigger $r@[j]] 0 <= j < $1@.len() ==> $r@[j].0 == cipher($0.ks(), $1@[j].0)"], body_subst=iso, loops={
        0: dict(accty="Vec<Mm>", inv=["__n0 == " + n, "__i0 <= __n0", "__acc0@.len() == __i0", "forall|j: int| #![trigger __acc0@[j]] 0 <= j < __i0 ==> __acc0@[j] == $1@[j].0"]),
        1: dict(inv=["__n1 == " + n, "__i1 <= __n1", C + ".len() == __n1", fa(C, "(if j < __i1 { %s } else { $1@[j].0 })" % R("0"))]),
        2: dict(inv=["__i2 <= __n2", C + ".len() == " + n, fa(C, R("__i2"))]),
        3: dict(inv=["1 <= __i2 <= __n2", "__n3 == " + n, "__i3 <= __n3", C + ".len() == __n3", fa(C, "(if j < __i3 { %s } else { %s })" % (R("__i2"), R("__i2 - 1")))], head="lemma_shsub(%s[__i3 as int]);" % C),
        4: dict(inv=["__n4 == " + n, "__i4 <= __n4", C + ".len() == __n4", fa(C, "(if j < __i4 { cipher(self.ks(), $1@[j].0) } else { %s })" % R("9"))], head="lemma_shsub(%s[__i4 as int]);" % C),
        5: dict(accty="Vec<Block>", inv=["__n5 == " + n, "__i5 <= __n5", "__acc5@.len() == __i5", "forall|j: int| #![trigger __acc5@[j]] 0 <= j < __i5 ==> __acc5@[j].0 == %s[j]" % C])})
    a(v, "encrypt_many_blocks", pre="$0.wf()", post=["$r@.len() == $1@.len()", "forall|j: int| #![trigger $r@[j]] 0 <= j < $1@.len() ==> $r@[j].0 == cipher($0.ks(), $1@[j].0)"])
    a(v, "encrypt_block_slice", pre="$0.wf()", body_subst=iso, post=["$n1.len() == $o1.len()", "forall|j: int| #![trigger $n1[j]] 0 <= j < $o1.len() ==> $n1[j].0 == cipher($0.ks(), $o1[j].0)"],
      loops={0: dict(inv=["__i0 <= __n0", "__n0 == $1@.len() / 8", "$1@.len() == old($1)@.len()", "$m0@.len() == 8", "forall|j: int| #![trigger $1@[j]] 0 <= j < $1@.len() ==> $1@[j].0 == (if j < 8 * __i0 { cipher(self.ks(), old($1)@[j].0) } else { old($1)@[j].0 })"])})
    v.struct("PrgCore", attrs=""); v.struct("Prg", attrs="", tysub=[(r"BlockRng\s*<\s*PrgCore\s*>", "BlockRng")])
    v.fn("From<[u64; 2]> for Block", "from", free=True, cname="from_64", method_of="Block", tysub=[(r"\bcast\s*\(", "vcast_64(")], post="$r.0 == of64($0[0], $0[1])")
    v.fn("From<u128> for Block", "from", free=True, cname="from_128", method_of="Block", tysub=[(r"\bcast\s*\(", "vcast_128(")], post="$r.0 == of128($0)")
    TG = [(r"Block\s*::\s*from\s*\(", "Block::from_64(")] + TY
    v.fn("BlockRngCore for PrgCore", "generate", free=True, method_of="PrgCore", tysub=TG, body_subst=iso, pre=["$0.aes.wf()", "$0.state + 8 <= u64::MAX"],
      post=["$n0.aes == $o0.aes", "$n0.state == $o0.state + 8", "$n1@.len() == 32", "forall|j: int| #![trigger $n1@[j]] 0 <= j < 32 ==> $n1@[j] == kword($o0.aes.ks(), 4 * $o0.state + j)"],
      loops={0: dict(accty="Vec<Block>", inv=["__i0 <= __n0", "__n0 == 8", "self.aes == old(self).aes", "self.state == old(self).state + __i0", "__acc0@.len() == __i0", "forall|j: int| #![trigger __acc0@[j]] 0 <= j < __i0 ==> __acc0@[j].0 == ctr((old(self).state + j) as u64)"], head="lemma_ctr(self.state);")})
    v.fn("SeedableRng for PrgCore", "from_seed", free=True, cname="core_from_seed", method_of="PrgCore", tysub=TY, post=["$r.aes.wf()", "$r.aes.ks() == rks($0.0)", "$r.state == 0"])
    v.fn("SeedableRng for Prg", "from_seed", free=True, cname="prg_from_seed", method_of="Prg", tysub=TY, post=["$r.0.ks() == rks($0.0)", "$r.0.pos() == 0"])
    K = "$o0.0.ks()"; P = "$o0.0.pos()"
    pre = "0 <= $0.0.pos() < LIM()"
    adv = lambda n: ["$n0.0.ks() == " + K, "$n0.0.pos() == %s + %s" % (P, n)]
    g = dict(free=True, method_of="Prg", pre=pre)
    v.fn("RngCore for Prg", "next_u32", tysub=TY, post=adv("1") + ["$r == kword(%s, %s)" % (K, P)], **g)
    v.fn("RngCore for Prg", "next_u64", tysub=TY, post=adv("2") + ["$r == j64(kword(%s, %s), kword(%s, %s + 1))" % (K, P, K, P)], **g)
    fb = adv("($o1.len() + 3) / 4") + ["$n1.len() == $o1.len()", "forall|j: int| #![trigger $n1[j]] 0 <= j < $o1.len() ==> $n1[j] == kbyte(%s, 4 * %s + j)" % (K, P)]
    v.fn("RngCore for Prg", "fill_bytes", tysub=TY, post=fb, **g)
    v.fn("Prg", "random_bytes", tysub=TY, post=fb, **g)
    v.fn("Distribution<Block> for Standard", "sample", free=True, method_of="Standard", subst={"R": "Prg"}, tysub=[(r"Block\s*::\s*from\s*\(", "Block::from_128("), (r"\.\s*gen\s*::\s*<\s*u128\s*>\s*\(", ".vgen128(")],
      pre="0 <= $1.0.pos() < LIM()", post=["$r.0 == kblk($o1.0.ks(), $o1.0.pos())", "$n1.0.ks() == $o1.0.ks()", "$n1.0.pos() == $o1.0.pos() + 4"])
    v.fn("Prg", "random_block", tysub=[(r"self\s*\.\s*gen\s*\(\s*\)", "Standard.sample(self)")], post=adv("4") + ["$r.0 == kblk(%s, %s)" % (K, P)], **g)
    v.fn("Prg", "random_blocks", tysub=[(r"let\s+(\w+)\s*:\s*&\s*mut\s*\[\s*u8\s*\]\s*=\s*cast_slice_mut\s*\(\s*(\w+)\s*\)\s*;\s*self\s*\.\s*fill_bytes\s*\(\s*\1\s*\)", r"self.vfill_blocks(\2)")], post=adv("4 * $o1.len()") + ["$n1.len() == $o1.len()", "forall|j: int| #![trigger $n1[j]] 0 <= j < $o1.len() ==> $n1[j].0 == kblk(%s, %s + 4 * j)" % (K, P)], **g)
    v.include("prg_client.rs")
    return v
