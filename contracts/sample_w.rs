pub open spec fn wv(s: Seq<$T>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
/// AsFrom<u32>, AsFrom<f64>: `as` (exact when the value fits)
pub trait Vcast_$T: Sized { spec fn cok(self) -> bool; spec fn cval(self) -> int; fn cast(self) -> (r: $T) ensures self.cok() ==> r == self.cval(); }
impl Vcast_$T for u32 { open spec fn cok(self) -> bool { self <= $MAX } open spec fn cval(self) -> int { self as int } fn cast(self) -> (r: $T) { let y = self as $T; proof { let x = self; assert(x <= $MAX ==> (x as $T) as u64 == x as u64) by (bit_vector); } y } }
impl Vcast_$T for Fl { open spec fn cok(self) -> bool { isint(self) && 0 <= fint(self) <= $MAX } open spec fn cval(self) -> int { fint(self) } #[verifier::external_body] fn cast(self) -> (r: $T) { self.x as $T } }
pub fn vfrom_$T<X: Vcast_$T>(x: X) -> (r: $T) ensures x.cok() ==> r == x.cval() { x.cast() }
