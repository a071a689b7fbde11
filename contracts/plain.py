"""C17: plaintext encoding"""
from common import *
import expdot
from vlib import VFile
CW = [w for w in WIDTHS]
def base(v, also=None):
    v.include("std.rs")
    v.include("barrett.rs")
    expdot.exp_lemmas(v)
    w = dict(WIDTHS[3], BIGB=WIDTHS[3]["B"], MAXV=WIDTHS[3]["MAX"])
    v.struct("PowOf2Modulus", gens="<T: Copy>")
    v.include("pow2_w.rs", w)
    v.include("pow2_sh.rs", w)
    v.include("pow2mod.rs", w)
    if also and also["T"] != "u64":
        v.include("pow2_w.rs", also)
        v.include("pow2_sh.rs", also)
        v.include("pow2mod.rs", also)
    if also: v.fn("PowOf2Modulus<T>", "mask", post="$r == $0.mask", method_of="<T: Copy> PowOf2Modulus<T>")
    v.include("plain.rs")
    for a in ("u8", "u16", "u32", "u64"):
        for b in ("u8", "u16", "u32", "u64"):
            if a == b or b == "u64" or a == "u64":
                v.text("impl AsInto<%s> for %s { open spec fn asi(self) -> %s { self as %s } fn as_into(self) -> (r: %s) { self as %s } }\n" % (b, a, b, b, b, b))
                if a != b: v.anchor("AsFrom<%s> for %s" % (a, b), "as_from", "value as %s" % b)
TY = [(r"\bM\s*::\s*shrink", "Msg::shrink")]
def encdec(v, w):
    v.fn("", "encode", crate="fhe_core", env=w, cname="encode_$T", subst={"M": "Msg", "C": "$T"}, tysub=TY, free=True,
         pre=["tq($1, $2)", "$2 - 1 <= $MAX"], post=["mv($0) < $1", "$r as int == mv($0) * step($1, $2)"], panics="mv(__g0) >= __g1",
         hints="lemma_tq($1, $2); let m = mv($0); if m < $1 { let k = u64_trailing_zeros(($2 / $1)) as nat; assert(m * step($1, $2) + step($1, $2) <= $1 * step($1, $2)) by (nonlinear_arith) requires m + 1 <= $1, step($1, $2) >= 2; lemma_shl(m, k); }")
    v.fn("", "decode", crate="fhe_core", env=w, cname="decode_$T", subst={"M": "Msg", "C": "$T"}, tysub=TY, free=True,
         pre=["tq($1, $2)"], post=["mv($r) as int == dec($0 as int, $1, $2)", "fits(mv($r))"],
         hints="""lemma_tq($1, $2); let c = $0 as u64; let k = (u64_trailing_zeros(($2 / $1)) - 1) as nat; lemma_pow2_pos(k); vstd::bits::lemma_u64_shr_is_div(c, k as u64);
            assert(c >> (k as u32) == c >> (k as u64)); lemma_round(c as int, pow2(k) as int);
            let tmp = c >> (k as u32); assert(tmp >> 1u32 == tmp / 2 && tmp & 1 == tmp % 2) by (bit_vector);
            let d = (tmp / 2 + tmp % 2) as u64; lemma_mask(d, $1);""")
def shrink(v):
    for T in ("u8", "u16", "u32", "u64", "bool"):
        v.fn("Shrink for " + T, "shrink", crate="fhe_core", free=True, cname="shrink_" + T, panics="!($0 <= 1)" if T == "bool" else "!($0 <= %s::MAX)" % T,
             post=["$0 <= 1", "$r == ($0 == 1)"] if T == "bool" else ["$0 <= %s::MAX" % T, "$r as int == $0 as int"])
def build():
    v = VFile("c17_plain")
    base(v)
    for w in CW: encdec(v, w)
    shrink(v)
    return [v]
