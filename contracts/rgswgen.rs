/// g is a fresh encryption of one (on) or zero: body rows encrypt the message, mask rows -s times it
pub open spec fn msgc(s: Seq<int>, on: bool) -> Seq<int> { if on { ones(s.len()) } else { pzero(s.len()) } }
pub open spec fn msgn(s: Seq<int>, on: bool) -> Seq<int> { if on { pneg(s) } else { pzero(s.len()) } }
pub open spec fn nkey(g: NTTRGSW, s: Seq<int>, on: bool, d: Gs, b: Basis) -> bool { g.c_m.basis == b && g.c_neg_s_m.basis == b && nttrgsww(g, s.len()) && nall(g.c_m.data@, s, msgc(s, on), d, b.bits as nat) && nall(g.c_neg_s_m.data@, s, msgn(s, on), d, b.bits as nat) }
pub open spec fn rkey(g: RGSW, s: Seq<int>, on: bool, d: Gs, b: Basis) -> bool { g.c_m.basis == b && g.c_neg_s_m.basis == b && rgsww(g, s.len()) && rall(g.c_m.data@, s, msgc(s, on), d, b.bits as nat) && rall(g.c_neg_s_m.data@, s, msgn(s, on), d, b.bits as nat) }
pub open spec fn bok(b: Basis) -> bool { wfb(b) && vv(b.basis) == pow2(b.bits as nat) && b.bits >= 1 }
/// rows generated with errors that are all zero are the noiseless rows of the product theorems
pub proof fn lemma_noiseless(ra: Seq<Seq<int>>, rb: Seq<Seq<int>>, s: Seq<int>, m: Seq<int>, d: Gs, bits: nat)
    requires gene(ra, rb, s, m, d, bits), silent(d), ringn(s.len()), m.len() == s.len(), ra.len() == rb.len(),
    ensures enc(ra, rb, s, m, Seq::new(ra.len(), |j: int| pzero(s.len())), bits),
{
    assert forall|j: int| 0 <= j < ra.len() implies (#[trigger] ra[j]).len() == s.len() && rb[j].len() == s.len() && nphs(ra[j], rb[j], s) == padd(bpow(m, bits, j as nat), pzero(s.len())) by {
        assert(rowe(ra[j], rb[j], s, bpow(m, bits, j as nat), d));
        lemma_silent(ra[j], rb[j], s, bpow(m, bits, j as nat), d);
    }
}
