// ---- integers: operations the verifier has no model of, verified here where it can be
pub trait Num_: Sized {
    spec fn n_(self) -> int; spec fn lo_() -> int; spec fn hi_() -> int;
    fn min_(self, o: Self) -> (ret: Self) ensures ret == (if self.n_() <= o.n_() { self } else { o });
    fn max_(self, o: Self) -> (ret: Self) ensures ret == (if self.n_() > o.n_() { self } else { o });
    fn clamp_(self, a: Self, b: Self) -> (ret: Self) requires a.n_() <= b.n_(), ensures ret == (if self.n_() < a.n_() { a } else if self.n_() > b.n_() { b } else { self });
    fn saturating_add_(self, o: Self) -> (ret: Self) ensures ret.n_() == sat_(self.n_() + o.n_(), Self::lo_(), Self::hi_());
    fn saturating_sub_(self, o: Self) -> (ret: Self) ensures ret.n_() == sat_(self.n_() - o.n_(), Self::lo_(), Self::hi_());
    fn saturating_mul_(self, o: Self) -> (ret: Self) ensures ret.n_() == sat_(self.n_() * o.n_(), Self::lo_(), Self::hi_());
    fn overflowing_add_(self, o: Self) -> (ret: (Self, bool)) ensures ret.1 == !(Self::lo_() <= self.n_() + o.n_() <= Self::hi_()), !ret.1 ==> ret.0.n_() == self.n_() + o.n_();
    fn overflowing_sub_(self, o: Self) -> (ret: (Self, bool)) ensures ret.1 == !(Self::lo_() <= self.n_() - o.n_() <= Self::hi_()), !ret.1 ==> ret.0.n_() == self.n_() - o.n_();
}
pub open spec fn sat_(x: int, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }
impl Num_ for u8 {
    open spec fn n_(self) -> int { self as int } open spec fn lo_() -> int { u8::MIN as int } open spec fn hi_() -> int { u8::MAX as int }
    fn min_(self, o: u8) -> (ret: u8) { if self <= o { self } else { o } }
    fn max_(self, o: u8) -> (ret: u8) { if self > o { self } else { o } }
    fn clamp_(self, a: u8, b: u8) -> (ret: u8) { if self < a { a } else if self > b { b } else { self } }
    fn saturating_add_(self, o: u8) -> (ret: u8) { if self > u8::MAX - o { u8::MAX } else { self + o } }
    fn saturating_sub_(self, o: u8) -> (ret: u8) { if self < o { 0 } else { self - o } }
    fn saturating_mul_(self, o: u8) -> (ret: u8) { match self.checked_mul(o) { Some(v) => v, None => u8::MAX } }
    fn overflowing_add_(self, o: u8) -> (ret: (u8, bool)) { if self > u8::MAX - o { (self - (u8::MAX - o) - 1, true) } else { (self + o, false) } }
    fn overflowing_sub_(self, o: u8) -> (ret: (u8, bool)) { if self < o { (u8::MAX - (o - self) + 1, true) } else { (self - o, false) } }
}
impl Num_ for u16 {
    open spec fn n_(self) -> int { self as int } open spec fn lo_() -> int { u16::MIN as int } open spec fn hi_() -> int { u16::MAX as int }
    fn min_(self, o: u16) -> (ret: u16) { if self <= o { self } else { o } }
    fn max_(self, o: u16) -> (ret: u16) { if self > o { self } else { o } }
    fn clamp_(self, a: u16, b: u16) -> (ret: u16) { if self < a { a } else if self > b { b } else { self } }
    fn saturating_add_(self, o: u16) -> (ret: u16) { if self > u16::MAX - o { u16::MAX } else { self + o } }
    fn saturating_sub_(self, o: u16) -> (ret: u16) { if self < o { 0 } else { self - o } }
    fn saturating_mul_(self, o: u16) -> (ret: u16) { match self.checked_mul(o) { Some(v) => v, None => u16::MAX } }
    fn overflowing_add_(self, o: u16) -> (ret: (u16, bool)) { if self > u16::MAX - o { (self - (u16::MAX - o) - 1, true) } else { (self + o, false) } }
    fn overflowing_sub_(self, o: u16) -> (ret: (u16, bool)) { if self < o { (u16::MAX - (o - self) + 1, true) } else { (self - o, false) } }
}
impl Num_ for u32 {
    open spec fn n_(self) -> int { self as int } open spec fn lo_() -> int { u32::MIN as int } open spec fn hi_() -> int { u32::MAX as int }
    fn min_(self, o: u32) -> (ret: u32) { if self <= o { self } else { o } }
    fn max_(self, o: u32) -> (ret: u32) { if self > o { self } else { o } }
    fn clamp_(self, a: u32, b: u32) -> (ret: u32) { if self < a { a } else if self > b { b } else { self } }
    fn saturating_add_(self, o: u32) -> (ret: u32) { if self > u32::MAX - o { u32::MAX } else { self + o } }
    fn saturating_sub_(self, o: u32) -> (ret: u32) { if self < o { 0 } else { self - o } }
    fn saturating_mul_(self, o: u32) -> (ret: u32) { match self.checked_mul(o) { Some(v) => v, None => u32::MAX } }
    fn overflowing_add_(self, o: u32) -> (ret: (u32, bool)) { if self > u32::MAX - o { (self - (u32::MAX - o) - 1, true) } else { (self + o, false) } }
    fn overflowing_sub_(self, o: u32) -> (ret: (u32, bool)) { if self < o { (u32::MAX - (o - self) + 1, true) } else { (self - o, false) } }
}
impl Num_ for u64 {
    open spec fn n_(self) -> int { self as int } open spec fn lo_() -> int { u64::MIN as int } open spec fn hi_() -> int { u64::MAX as int }
    fn min_(self, o: u64) -> (ret: u64) { if self <= o { self } else { o } }
    fn max_(self, o: u64) -> (ret: u64) { if self > o { self } else { o } }
    fn clamp_(self, a: u64, b: u64) -> (ret: u64) { if self < a { a } else if self > b { b } else { self } }
    fn saturating_add_(self, o: u64) -> (ret: u64) { if self > u64::MAX - o { u64::MAX } else { self + o } }
    fn saturating_sub_(self, o: u64) -> (ret: u64) { if self < o { 0 } else { self - o } }
    fn saturating_mul_(self, o: u64) -> (ret: u64) { match self.checked_mul(o) { Some(v) => v, None => u64::MAX } }
    fn overflowing_add_(self, o: u64) -> (ret: (u64, bool)) { if self > u64::MAX - o { (self - (u64::MAX - o) - 1, true) } else { (self + o, false) } }
    fn overflowing_sub_(self, o: u64) -> (ret: (u64, bool)) { if self < o { (u64::MAX - (o - self) + 1, true) } else { (self - o, false) } }
}
impl Num_ for usize {
    open spec fn n_(self) -> int { self as int } open spec fn lo_() -> int { usize::MIN as int } open spec fn hi_() -> int { usize::MAX as int }
    fn min_(self, o: usize) -> (ret: usize) { if self <= o { self } else { o } }
    fn max_(self, o: usize) -> (ret: usize) { if self > o { self } else { o } }
    fn clamp_(self, a: usize, b: usize) -> (ret: usize) { if self < a { a } else if self > b { b } else { self } }
    fn saturating_add_(self, o: usize) -> (ret: usize) { if self > usize::MAX - o { usize::MAX } else { self + o } }
    fn saturating_sub_(self, o: usize) -> (ret: usize) { if self < o { 0 } else { self - o } }
    fn saturating_mul_(self, o: usize) -> (ret: usize) { match self.checked_mul(o) { Some(v) => v, None => usize::MAX } }
    fn overflowing_add_(self, o: usize) -> (ret: (usize, bool)) { if self > usize::MAX - o { (self - (usize::MAX - o) - 1, true) } else { (self + o, false) } }
    fn overflowing_sub_(self, o: usize) -> (ret: (usize, bool)) { if self < o { (usize::MAX - (o - self) + 1, true) } else { (self - o, false) } }
}
impl Num_ for i8 {
    open spec fn n_(self) -> int { self as int } open spec fn lo_() -> int { i8::MIN as int } open spec fn hi_() -> int { i8::MAX as int }
    fn min_(self, o: i8) -> (ret: i8) { if self <= o { self } else { o } }
    fn max_(self, o: i8) -> (ret: i8) { if self > o { self } else { o } }
    fn clamp_(self, a: i8, b: i8) -> (ret: i8) { if self < a { a } else if self > b { b } else { self } }
    fn saturating_add_(self, o: i8) -> (ret: i8) { if o >= 0 { if self > i8::MAX - o { i8::MAX } else { self + o } } else { if self < i8::MIN - o { i8::MIN } else { self + o } } }
    fn saturating_sub_(self, o: i8) -> (ret: i8) { if o >= 0 { if self < i8::MIN + o { i8::MIN } else { self - o } } else { if self > i8::MAX + o { i8::MAX } else { self - o } } }
    fn saturating_mul_(self, o: i8) -> (ret: i8) { match self.checked_mul(o) { Some(v) => v, None => { proof { if self < 0 { if o < 0 { assert(self * o > 0) by (nonlinear_arith) requires self < 0, o < 0; } else { assert(self * o <= 0) by (nonlinear_arith) requires self < 0, o >= 0; } } else { if o < 0 { assert(self * o <= 0) by (nonlinear_arith) requires self >= 0, o < 0; } else { assert(self * o >= 0) by (nonlinear_arith) requires self >= 0, o >= 0; } } } if (self < 0) == (o < 0) { i8::MAX } else { i8::MIN } } } }
    fn overflowing_add_(self, o: i8) -> (ret: (i8, bool)) { match self.checked_add(o) { Some(v) => (v, false), None => (self.wrapping_add(o), true) } }
    fn overflowing_sub_(self, o: i8) -> (ret: (i8, bool)) { match self.checked_sub(o) { Some(v) => (v, false), None => (self.wrapping_sub(o), true) } }
}
impl Num_ for i16 {
    open spec fn n_(self) -> int { self as int } open spec fn lo_() -> int { i16::MIN as int } open spec fn hi_() -> int { i16::MAX as int }
    fn min_(self, o: i16) -> (ret: i16) { if self <= o { self } else { o } }
    fn max_(self, o: i16) -> (ret: i16) { if self > o { self } else { o } }
    fn clamp_(self, a: i16, b: i16) -> (ret: i16) { if self < a { a } else if self > b { b } else { self } }
    fn saturating_add_(self, o: i16) -> (ret: i16) { if o >= 0 { if self > i16::MAX - o { i16::MAX } else { self + o } } else { if self < i16::MIN - o { i16::MIN } else { self + o } } }
    fn saturating_sub_(self, o: i16) -> (ret: i16) { if o >= 0 { if self < i16::MIN + o { i16::MIN } else { self - o } } else { if self > i16::MAX + o { i16::MAX } else { self - o } } }
    fn saturating_mul_(self, o: i16) -> (ret: i16) { match self.checked_mul(o) { Some(v) => v, None => { proof { if self < 0 { if o < 0 { assert(self * o > 0) by (nonlinear_arith) requires self < 0, o < 0; } else { assert(self * o <= 0) by (nonlinear_arith) requires self < 0, o >= 0; } } else { if o < 0 { assert(self * o <= 0) by (nonlinear_arith) requires self >= 0, o < 0; } else { assert(self * o >= 0) by (nonlinear_arith) requires self >= 0, o >= 0; } } } if (self < 0) == (o < 0) { i16::MAX } else { i16::MIN } } } }
    fn overflowing_add_(self, o: i16) -> (ret: (i16, bool)) { match self.checked_add(o) { Some(v) => (v, false), None => (self.wrapping_add(o), true) } }
    fn overflowing_sub_(self, o: i16) -> (ret: (i16, bool)) { match self.checked_sub(o) { Some(v) => (v, false), None => (self.wrapping_sub(o), true) } }
}
impl Num_ for i32 {
    open spec fn n_(self) -> int { self as int } open spec fn lo_() -> int { i32::MIN as int } open spec fn hi_() -> int { i32::MAX as int }
    fn min_(self, o: i32) -> (ret: i32) { if self <= o { self } else { o } }
    fn max_(self, o: i32) -> (ret: i32) { if self > o { self } else { o } }
    fn clamp_(self, a: i32, b: i32) -> (ret: i32) { if self < a { a } else if self > b { b } else { self } }
    fn saturating_add_(self, o: i32) -> (ret: i32) { if o >= 0 { if self > i32::MAX - o { i32::MAX } else { self + o } } else { if self < i32::MIN - o { i32::MIN } else { self + o } } }
    fn saturating_sub_(self, o: i32) -> (ret: i32) { if o >= 0 { if self < i32::MIN + o { i32::MIN } else { self - o } } else { if self > i32::MAX + o { i32::MAX } else { self - o } } }
    fn saturating_mul_(self, o: i32) -> (ret: i32) { match self.checked_mul(o) { Some(v) => v, None => { proof { if self < 0 { if o < 0 { assert(self * o > 0) by (nonlinear_arith) requires self < 0, o < 0; } else { assert(self * o <= 0) by (nonlinear_arith) requires self < 0, o >= 0; } } else { if o < 0 { assert(self * o <= 0) by (nonlinear_arith) requires self >= 0, o < 0; } else { assert(self * o >= 0) by (nonlinear_arith) requires self >= 0, o >= 0; } } } if (self < 0) == (o < 0) { i32::MAX } else { i32::MIN } } } }
    fn overflowing_add_(self, o: i32) -> (ret: (i32, bool)) { match self.checked_add(o) { Some(v) => (v, false), None => (self.wrapping_add(o), true) } }
    fn overflowing_sub_(self, o: i32) -> (ret: (i32, bool)) { match self.checked_sub(o) { Some(v) => (v, false), None => (self.wrapping_sub(o), true) } }
}
impl Num_ for i64 {
    open spec fn n_(self) -> int { self as int } open spec fn lo_() -> int { i64::MIN as int } open spec fn hi_() -> int { i64::MAX as int }
    fn min_(self, o: i64) -> (ret: i64) { if self <= o { self } else { o } }
    fn max_(self, o: i64) -> (ret: i64) { if self > o { self } else { o } }
    fn clamp_(self, a: i64, b: i64) -> (ret: i64) { if self < a { a } else if self > b { b } else { self } }
    fn saturating_add_(self, o: i64) -> (ret: i64) { if o >= 0 { if self > i64::MAX - o { i64::MAX } else { self + o } } else { if self < i64::MIN - o { i64::MIN } else { self + o } } }
    fn saturating_sub_(self, o: i64) -> (ret: i64) { if o >= 0 { if self < i64::MIN + o { i64::MIN } else { self - o } } else { if self > i64::MAX + o { i64::MAX } else { self - o } } }
    fn saturating_mul_(self, o: i64) -> (ret: i64) { match self.checked_mul(o) { Some(v) => v, None => { proof { if self < 0 { if o < 0 { assert(self * o > 0) by (nonlinear_arith) requires self < 0, o < 0; } else { assert(self * o <= 0) by (nonlinear_arith) requires self < 0, o >= 0; } } else { if o < 0 { assert(self * o <= 0) by (nonlinear_arith) requires self >= 0, o < 0; } else { assert(self * o >= 0) by (nonlinear_arith) requires self >= 0, o >= 0; } } } if (self < 0) == (o < 0) { i64::MAX } else { i64::MIN } } } }
    fn overflowing_add_(self, o: i64) -> (ret: (i64, bool)) { match self.checked_add(o) { Some(v) => (v, false), None => (self.wrapping_add(o), true) } }
    fn overflowing_sub_(self, o: i64) -> (ret: (i64, bool)) { match self.checked_sub(o) { Some(v) => (v, false), None => (self.wrapping_sub(o), true) } }
}
impl Num_ for isize {
    open spec fn n_(self) -> int { self as int } open spec fn lo_() -> int { isize::MIN as int } open spec fn hi_() -> int { isize::MAX as int }
    fn min_(self, o: isize) -> (ret: isize) { if self <= o { self } else { o } }
    fn max_(self, o: isize) -> (ret: isize) { if self > o { self } else { o } }
    fn clamp_(self, a: isize, b: isize) -> (ret: isize) { if self < a { a } else if self > b { b } else { self } }
    fn saturating_add_(self, o: isize) -> (ret: isize) { if o >= 0 { if self > isize::MAX - o { isize::MAX } else { self + o } } else { if self < isize::MIN - o { isize::MIN } else { self + o } } }
    fn saturating_sub_(self, o: isize) -> (ret: isize) { if o >= 0 { if self < isize::MIN + o { isize::MIN } else { self - o } } else { if self > isize::MAX + o { isize::MAX } else { self - o } } }
    fn saturating_mul_(self, o: isize) -> (ret: isize) { match self.checked_mul(o) { Some(v) => v, None => { proof { if self < 0 { if o < 0 { assert(self * o > 0) by (nonlinear_arith) requires self < 0, o < 0; } else { assert(self * o <= 0) by (nonlinear_arith) requires self < 0, o >= 0; } } else { if o < 0 { assert(self * o <= 0) by (nonlinear_arith) requires self >= 0, o < 0; } else { assert(self * o >= 0) by (nonlinear_arith) requires self >= 0, o >= 0; } } } if (self < 0) == (o < 0) { isize::MAX } else { isize::MIN } } } }
    fn overflowing_add_(self, o: isize) -> (ret: (isize, bool)) { match self.checked_add(o) { Some(v) => (v, false), None => (self.wrapping_add(o), true) } }
    fn overflowing_sub_(self, o: isize) -> (ret: (isize, bool)) { match self.checked_sub(o) { Some(v) => (v, false), None => (self.wrapping_sub(o), true) } }
}
pub trait AbsDiff_: Sized { type U; fn abs_diff_(self, o: Self) -> (ret: Self::U); }
impl AbsDiff_ for u8 { type U = u8; fn abs_diff_(self, o: u8) -> (ret: u8) ensures ret as int == (if self >= o { self - o } else { o - self }) { if self >= o { self - o } else { o - self } } }
impl AbsDiff_ for u16 { type U = u16; fn abs_diff_(self, o: u16) -> (ret: u16) ensures ret as int == (if self >= o { self - o } else { o - self }) { if self >= o { self - o } else { o - self } } }
impl AbsDiff_ for u32 { type U = u32; fn abs_diff_(self, o: u32) -> (ret: u32) ensures ret as int == (if self >= o { self - o } else { o - self }) { if self >= o { self - o } else { o - self } } }
impl AbsDiff_ for u64 { type U = u64; fn abs_diff_(self, o: u64) -> (ret: u64) ensures ret as int == (if self >= o { self - o } else { o - self }) { if self >= o { self - o } else { o - self } } }
impl AbsDiff_ for usize { type U = usize; fn abs_diff_(self, o: usize) -> (ret: usize) ensures ret as int == (if self >= o { self - o } else { o - self }) { if self >= o { self - o } else { o - self } } }
impl AbsDiff_ for i32 { type U = u32; fn abs_diff_(self, o: i32) -> (ret: u32) ensures ret as int == (if self >= o { self - o } else { o - self }) { if self >= o { (self as i64 - o as i64) as u32 } else { (o as i64 - self as i64) as u32 } } }
impl AbsDiff_ for i64 { type U = u64; fn abs_diff_(self, o: i64) -> (ret: u64) ensures ret as int == (if self >= o { self - o } else { o - self }) { if self >= o { (self as i128 - o as i128) as u64 } else { (o as i128 - self as i128) as u64 } } }
impl Into_<u16> for u8 { fn into_(self) -> (ret: u16) ensures as_ty_::<u16>(ret) as int == self as int { self as u16 } }
impl Into_<u32> for u8 { fn into_(self) -> (ret: u32) ensures as_ty_::<u32>(ret) as int == self as int { self as u32 } }
impl Into_<u64> for u8 { fn into_(self) -> (ret: u64) ensures as_ty_::<u64>(ret) as int == self as int { self as u64 } }
impl Into_<usize> for u8 { fn into_(self) -> (ret: usize) ensures as_ty_::<usize>(ret) as int == self as int { self as usize } }
impl Into_<i16> for u8 { fn into_(self) -> (ret: i16) ensures as_ty_::<i16>(ret) as int == self as int { self as i16 } }
impl Into_<i32> for u8 { fn into_(self) -> (ret: i32) ensures as_ty_::<i32>(ret) as int == self as int { self as i32 } }
impl Into_<i64> for u8 { fn into_(self) -> (ret: i64) ensures as_ty_::<i64>(ret) as int == self as int { self as i64 } }
impl Into_<isize> for u8 { fn into_(self) -> (ret: isize) ensures as_ty_::<isize>(ret) as int == self as int { self as isize } }
impl Into_<u32> for u16 { fn into_(self) -> (ret: u32) ensures as_ty_::<u32>(ret) as int == self as int { self as u32 } }
impl Into_<u64> for u16 { fn into_(self) -> (ret: u64) ensures as_ty_::<u64>(ret) as int == self as int { self as u64 } }
impl Into_<usize> for u16 { fn into_(self) -> (ret: usize) ensures as_ty_::<usize>(ret) as int == self as int { self as usize } }
impl Into_<i32> for u16 { fn into_(self) -> (ret: i32) ensures as_ty_::<i32>(ret) as int == self as int { self as i32 } }
impl Into_<i64> for u16 { fn into_(self) -> (ret: i64) ensures as_ty_::<i64>(ret) as int == self as int { self as i64 } }
impl Into_<u64> for u32 { fn into_(self) -> (ret: u64) ensures as_ty_::<u64>(ret) as int == self as int { self as u64 } }
impl Into_<i64> for u32 { fn into_(self) -> (ret: i64) ensures as_ty_::<i64>(ret) as int == self as int { self as i64 } }
impl Into_<i16> for i8 { fn into_(self) -> (ret: i16) ensures as_ty_::<i16>(ret) as int == self as int { self as i16 } }
impl Into_<i32> for i8 { fn into_(self) -> (ret: i32) ensures as_ty_::<i32>(ret) as int == self as int { self as i32 } }
impl Into_<i64> for i8 { fn into_(self) -> (ret: i64) ensures as_ty_::<i64>(ret) as int == self as int { self as i64 } }
impl Into_<isize> for i8 { fn into_(self) -> (ret: isize) ensures as_ty_::<isize>(ret) as int == self as int { self as isize } }
impl Into_<i32> for i16 { fn into_(self) -> (ret: i32) ensures as_ty_::<i32>(ret) as int == self as int { self as i32 } }
impl Into_<i64> for i16 { fn into_(self) -> (ret: i64) ensures as_ty_::<i64>(ret) as int == self as int { self as i64 } }
impl Into_<isize> for i16 { fn into_(self) -> (ret: isize) ensures as_ty_::<isize>(ret) as int == self as int { self as isize } }
impl Into_<i64> for i32 { fn into_(self) -> (ret: i64) ensures as_ty_::<i64>(ret) as int == self as int { self as i64 } }
impl Into_<u8> for bool { fn into_(self) -> (ret: u8) ensures as_ty_::<u8>(ret) == (if self { 1u8 } else { 0u8 }) { if self { 1 } else { 0 } } }
impl Into_<u32> for bool { fn into_(self) -> (ret: u32) ensures as_ty_::<u32>(ret) == (if self { 1u32 } else { 0u32 }) { if self { 1 } else { 0 } } }
impl Into_<u64> for bool { fn into_(self) -> (ret: u64) ensures as_ty_::<u64>(ret) == (if self { 1u64 } else { 0u64 }) { if self { 1 } else { 0 } } }
impl Into_<usize> for bool { fn into_(self) -> (ret: usize) ensures as_ty_::<usize>(ret) == (if self { 1usize } else { 0usize }) { if self { 1 } else { 0 } } }
/// a vector's length is a usize
pub broadcast proof fn vec_len_fits<T>(v: Vec<T>)
    ensures (#[trigger] v@.len()) <= usize::MAX,
{ vec_len_(&v); }
#[verifier::external_body]
proof fn vec_len_<T>(v: &Vec<T>) ensures v@.len() <= usize::MAX { unimplemented!() }

// ---- Option and Result taken apart and put together again
pub struct OptTag_;
pub struct ResTag_;
pub trait Split_: Sized { type T; type E; type G; fn split_(self) -> (ret: (Result<Self::T, Self::E>, Self::G)); }
impl<T> Split_ for Option<T> {
    type T = T; type E = (); type G = OptTag_;
    fn split_(self) -> (ret: (Result<T, ()>, OptTag_)) ensures ret.0 == (match self { Some(v) => Ok::<T, ()>(v), None => Err::<T, ()>(()) }) { match self { Some(v) => (Ok(v), OptTag_), None => (Err(()), OptTag_) } }
}
impl<T, E> Split_ for Result<T, E> {
    type T = T; type E = E; type G = ResTag_;
    fn split_(self) -> (ret: (Result<T, E>, ResTag_)) ensures ret.0 == self { (self, ResTag_) }
}
impl OptTag_ {
    pub fn good_<U>(self, v: U) -> (ret: Option<U>) ensures ret == Some(v) { Some(v) }
    pub fn bad_<U>(self, e: ()) -> (ret: Option<U>) ensures ret == None::<U> { None }
}
impl ResTag_ {
    pub fn good_<U, E>(self, v: U) -> (ret: Result<U, E>) ensures ret == Ok::<U, E>(v) { Ok(v) }
    pub fn bad_<U, E>(self, e: E) -> (ret: Result<U, E>) ensures ret == Err::<U, E>(e) { Err(e) }
}

pub trait Signed_ { type U; fn unsigned_abs_(self) -> (ret: Self::U); fn is_negative_(self) -> (ret: bool); fn is_positive_(self) -> (ret: bool); }
impl Signed_ for i8 { type U = u8; fn unsigned_abs_(self) -> (ret: u8) ensures ret as int == (if self < 0 { -(self as int) } else { self as int }) { if self < 0 { (-(self as i16)) as u8 } else { self as u8 } } fn is_negative_(self) -> (ret: bool) ensures ret == (self < 0) { self < 0 } fn is_positive_(self) -> (ret: bool) ensures ret == (self > 0) { self > 0 } }
impl Signed_ for i16 { type U = u16; fn unsigned_abs_(self) -> (ret: u16) ensures ret as int == (if self < 0 { -(self as int) } else { self as int }) { if self < 0 { (-(self as i32)) as u16 } else { self as u16 } } fn is_negative_(self) -> (ret: bool) ensures ret == (self < 0) { self < 0 } fn is_positive_(self) -> (ret: bool) ensures ret == (self > 0) { self > 0 } }
impl Signed_ for i32 { type U = u32; fn unsigned_abs_(self) -> (ret: u32) ensures ret as int == (if self < 0 { -(self as int) } else { self as int }) { if self < 0 { (-(self as i64)) as u32 } else { self as u32 } } fn is_negative_(self) -> (ret: bool) ensures ret == (self < 0) { self < 0 } fn is_positive_(self) -> (ret: bool) ensures ret == (self > 0) { self > 0 } }
impl Signed_ for i64 { type U = u64; fn unsigned_abs_(self) -> (ret: u64) ensures ret as int == (if self < 0 { -(self as int) } else { self as int }) { if self < 0 { (-(self as i128)) as u64 } else { self as u64 } } fn is_negative_(self) -> (ret: bool) ensures ret == (self < 0) { self < 0 } fn is_positive_(self) -> (ret: bool) ensures ret == (self > 0) { self > 0 } }
impl Signed_ for isize { type U = usize; fn unsigned_abs_(self) -> (ret: usize) ensures ret as int == (if self < 0 { -(self as int) } else { self as int }) { if self < 0 { (-(self as i128)) as usize } else { self as usize } } fn is_negative_(self) -> (ret: bool) ensures ret == (self < 0) { self < 0 } fn is_positive_(self) -> (ret: bool) ensures ret == (self > 0) { self > 0 } }
