/// the modulus argument of the modular forms; its operations on reduced words are those of C03, C04, C07-C09
#[verifier::external_body]
#[derive(Copy)]
pub struct Md { x: u64 }
impl Clone for Md { #[verifier::external_body] fn clone(&self) -> (r: Md) ensures r == *self { *self } }
impl Fe {
    #[verifier::external_body]
    pub fn add_reduce(self, o: Fe, m: Md) -> (r: Fe) requires canon(self), canon(o), ensures canon(r), fv(r) == fadd(fv(self), fv(o)), { unimplemented!() }
    #[verifier::external_body]
    pub fn add_reduce_assign(&mut self, o: Fe, m: Md) requires canon(*old(self)), canon(o), ensures canon(*final(self)), fv(*final(self)) == fadd(fv(*old(self)), fv(o)), { unimplemented!() }
    #[verifier::external_body]
    pub fn sub_reduce(self, o: Fe, m: Md) -> (r: Fe) requires canon(self), canon(o), ensures canon(r), fv(r) == fsub(fv(self), fv(o)), { unimplemented!() }
    #[verifier::external_body]
    pub fn sub_reduce_assign(&mut self, o: Fe, m: Md) requires canon(*old(self)), canon(o), ensures canon(*final(self)), fv(*final(self)) == fsub(fv(*old(self)), fv(o)), { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_reduce(self, o: Fe, m: Md) -> (r: Fe) requires canon(self), canon(o), ensures canon(r), fv(r) == fmul(fv(self), fv(o)), { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_reduce_assign(&mut self, o: Fe, m: Md) requires canon(*old(self)), canon(o), ensures canon(*final(self)), fv(*final(self)) == fmul(fv(*old(self)), fv(o)), { unimplemented!() }
    #[verifier::external_body]
    pub fn neg_reduce(self, m: Md) -> (r: Fe) requires canon(self), ensures canon(r), fv(r) == fneg(fv(self)), { unimplemented!() }
    #[verifier::external_body]
    pub fn neg_reduce_assign(&mut self, m: Md) requires canon(*old(self)), ensures canon(*final(self)), fv(*final(self)) == fneg(fv(*old(self))), { unimplemented!() }
}
pub open spec fn lwf(c: LWE) -> bool { wf(c.a@) && canon(c.b) }
/// the phase of c under s
pub open spec fn ph(c: LWE, s: Seq<int>) -> int { phase(pv(c.a@), fv(c.b), s) }
/// r is al x + be y: entry by entry, and therefore in phase under every secret
pub open spec fn ent(r: LWE, x: LWE, y: LWE, al: int, be: int) -> bool {
    r.a@.len() == x.a@.len() && (forall|i: int| 0 <= i < r.a@.len() ==> fv(#[trigger] r.a@[i]) == (al * fv(x.a@[i]) + be * fv(y.a@[i])) % P()) && fv(r.b) == (al * fv(x.b) + be * fv(y.b)) % P()
}
pub open spec fn lin(r: LWE, x: LWE, y: LWE, al: int, be: int) -> bool {
    lwf(r) && ent(r, x, y, al, be) && forall|s: Seq<int>| #[trigger] ph(r, s) == (al * ph(x, s) + be * ph(y, s)) % P()
}
pub proof fn lemma_lin(r: LWE, x: LWE, y: LWE, al: int, be: int)
    requires lwf(r), ent(r, x, y, al, be), y.a@.len() == x.a@.len(),
    ensures lin(r, x, y, al, be),
{
    assert forall|s: Seq<int>| #[trigger] ph(r, s) == (al * ph(x, s) + be * ph(y, s)) % P() by {
        let (ra, xa, ya) = (pv(r.a@), pv(x.a@), pv(y.a@));
        assert forall|i: int| 0 <= i < ra.len() implies cg(#[trigger] ra[i], al * xa[i] + be * ya[i]) by {
            assert(ra[i] == fv(r.a@[i]));
            cg_mod(al * xa[i] + be * ya[i]);
        }
        cg_mod(al * fv(x.b) + be * fv(y.b));
        lemma_phase_lin(ra, fv(r.b), xa, fv(x.b), ya, fv(y.b), al, be, s);
    }
}
