// ---- stand-ins for num_traits (dependency): the documented meaning of zero/one/is_zero/is_one ----
pub trait VxNum: Sized {
    spec fn n_int(self) -> int;
    fn is_zero(&self) -> (r: bool) ensures r == ((*self).n_int() == 0);
    fn is_one(&self) -> (r: bool) ensures r == ((*self).n_int() == 1);
    fn one() -> (r: Self) ensures r.n_int() == 1;
    fn zero() -> (r: Self) ensures r.n_int() == 0;
}
impl VxNum for u8 { open spec fn n_int(self) -> int { self as int } fn is_zero(&self) -> (r: bool) { *self == 0 } fn is_one(&self) -> (r: bool) { *self == 1 } fn one() -> (r: Self) { 1 } fn zero() -> (r: Self) { 0 } }
impl VxNum for u16 { open spec fn n_int(self) -> int { self as int } fn is_zero(&self) -> (r: bool) { *self == 0 } fn is_one(&self) -> (r: bool) { *self == 1 } fn one() -> (r: Self) { 1 } fn zero() -> (r: Self) { 0 } }
impl VxNum for u32 { open spec fn n_int(self) -> int { self as int } fn is_zero(&self) -> (r: bool) { *self == 0 } fn is_one(&self) -> (r: bool) { *self == 1 } fn one() -> (r: Self) { 1 } fn zero() -> (r: Self) { 0 } }
impl VxNum for u64 { open spec fn n_int(self) -> int { self as int } fn is_zero(&self) -> (r: bool) { *self == 0 } fn is_one(&self) -> (r: bool) { *self == 1 } fn one() -> (r: Self) { 1 } fn zero() -> (r: Self) { 0 } }
impl VxNum for u128 { open spec fn n_int(self) -> int { self as int } fn is_zero(&self) -> (r: bool) { *self == 0 } fn is_one(&self) -> (r: bool) { *self == 1 } fn one() -> (r: Self) { 1 } fn zero() -> (r: Self) { 0 } }
impl VxNum for usize { open spec fn n_int(self) -> int { self as int } fn is_zero(&self) -> (r: bool) { *self == 0 } fn is_one(&self) -> (r: bool) { *self == 1 } fn one() -> (r: Self) { 1 } fn zero() -> (r: Self) { 0 } }
