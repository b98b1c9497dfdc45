// ===== the standard library and the two dependencies, as the code uses them =====
// Every item here that is external_body, uninterp or assume_specification is an
// assumption; tools/assumptions lists them mechanically.

pub fn vpanic<T>() -> (r: T) requires false { loop invariant false decreases 0int { } }
pub fn vpanic_() requires false { }

// ---- traits standing for std's, so that each use has a specification
pub trait XInto<T>: Sized { spec fn irel(self, r: T) -> bool; fn xinto(self) -> (r: T) ensures self.irel(r); }
pub trait XEq<R: ?Sized = Self> { spec fn eqspec(&self, o: &R) -> bool; fn xeq(&self, o: &R) -> (r: bool) ensures r == self.eqspec(o); }
pub trait XLen { spec fn slen(&self) -> int; fn xlen(&self) -> (r: usize) ensures r == self.slen(); }
pub trait XDefault: Sized { spec fn is_def(self) -> bool; fn xdefault() -> (r: Self) ensures r.is_def(); }
pub trait XClone: Sized { spec fn crel(&self, r: Self) -> bool; fn xclone(&self) -> (r: Self) ensures self.crel(r); }
pub trait XCopied: Sized { type O; spec fn cop(self) -> Self::O; fn xcopied(self) -> (r: Self::O) ensures r == self.cop(); }
pub trait XOwned { spec fn oview(&self) -> Seq<char>; fn xto_owned(&self) -> (r: String) ensures r@ == self.oview(); }
pub trait XNeg: Sized { spec fn nrel(self, r: Self) -> bool; fn xneg(self) -> (r: Self) ensures self.nrel(r); }
pub trait XRem: Sized { spec fn rreq(self, o: Self) -> bool; spec fn rrel(self, o: Self, r: Self) -> bool; fn xrem(self, o: Self) -> (r: Self) requires self.rreq(o) ensures self.rrel(o, r); }

// ---- f64
impl XNeg for f64 { open spec fn nrel(self, r: f64) -> bool { fv(r) == vneg(fv(self)) } #[verifier::external_body] fn xneg(self) -> (r: f64) { -self } }
impl XRem for f64 { open spec fn rreq(self, o: f64) -> bool { true } open spec fn rrel(self, o: f64, r: f64) -> bool { fv(r) == vrem(fv(self), fv(o)) }
    #[verifier::external_body] fn xrem(self, o: f64) -> (r: f64) { self % o } }
impl XEq for f64 { open spec fn eqspec(&self, o: &f64) -> bool { feq(fv(*self), fv(*o)) } #[verifier::external_body] fn xeq(&self, o: &f64) -> (r: bool) { *self == *o } }
impl XClone for f64 { open spec fn crel(&self, r: f64) -> bool { r == *self } fn xclone(&self) -> (r: f64) { *self } }
impl XInto<f64> for f64 { open spec fn irel(self, r: f64) -> bool { r == self } fn xinto(self) -> (r: f64) { self } }
pub assume_specification[ f64::powf ](a: f64, b: f64) -> (r: f64) ensures fv(r) == vpow(fv(a), fv(b));
pub assume_specification[ f64::min ](a: f64, b: f64) -> (r: f64) ensures fv(r) == vmin(fv(a), fv(b));
pub assume_specification[ f64::max ](a: f64, b: f64) -> (r: f64) ensures fv(r) == vmax(fv(a), fv(b));
pub assume_specification[ f64::is_sign_negative ](a: f64) -> (r: bool) ensures r == sign_bit(a), !is_nan(fv(a)) ==> r == neg_sign(fv(a));
pub uninterp spec fn sign_bit(a: f64) -> bool;
pub uninterp spec fn vsin(a: V) -> V;
pub uninterp spec fn vsinh(a: V) -> V;
pub uninterp spec fn vasin(a: V) -> V;
pub uninterp spec fn vasinh(a: V) -> V;
pub uninterp spec fn vcos(a: V) -> V;
pub uninterp spec fn vcosh(a: V) -> V;
pub uninterp spec fn vacos(a: V) -> V;
pub uninterp spec fn vacosh(a: V) -> V;
pub uninterp spec fn vtan(a: V) -> V;
pub uninterp spec fn vtanh(a: V) -> V;
pub uninterp spec fn vatan(a: V) -> V;
pub uninterp spec fn vatanh(a: V) -> V;
pub uninterp spec fn vatan2(a: V, b: V) -> V;
pub uninterp spec fn vln(a: V) -> V;
pub uninterp spec fn vlog10(a: V) -> V;
/// as std defines it: `self.ln() / base.ln()`
pub open spec fn vlog(a: V, b: V) -> V { vdiv(vln(a), vln(b)) }
pub uninterp spec fn vsqrt(a: V) -> V;
pub uninterp spec fn vcbrt(a: V) -> V;
pub uninterp spec fn vexp(a: V) -> V;
pub uninterp spec fn vabs(a: V) -> V;
pub uninterp spec fn vfloor(a: V) -> V;
pub uninterp spec fn vceil(a: V) -> V;
pub uninterp spec fn vround(a: V) -> V;
pub uninterp spec fn vtrunc(a: V) -> V;
/// as std defines it: `1.0 / self`
pub open spec fn vrecip(a: V) -> V { vdiv(V1(), a) }
pub uninterp spec fn vhypot(a: V, b: V) -> V;
/// as std defines it: `self - self.trunc()`
pub open spec fn vfract(a: V) -> V { vsub(a, vtrunc(a)) }
pub uninterp spec fn vgamma(a: V) -> V;
pub assume_specification[ f64::sin ](a: f64) -> (r: f64) ensures fv(r) == vsin(fv(a));
pub assume_specification[ f64::sinh ](a: f64) -> (r: f64) ensures fv(r) == vsinh(fv(a));
pub assume_specification[ f64::asin ](a: f64) -> (r: f64) ensures fv(r) == vasin(fv(a));
pub assume_specification[ f64::asinh ](a: f64) -> (r: f64) ensures fv(r) == vasinh(fv(a));
pub assume_specification[ f64::cos ](a: f64) -> (r: f64) ensures fv(r) == vcos(fv(a));
pub assume_specification[ f64::cosh ](a: f64) -> (r: f64) ensures fv(r) == vcosh(fv(a));
pub assume_specification[ f64::acos ](a: f64) -> (r: f64) ensures fv(r) == vacos(fv(a));
pub assume_specification[ f64::acosh ](a: f64) -> (r: f64) ensures fv(r) == vacosh(fv(a));
pub assume_specification[ f64::tan ](a: f64) -> (r: f64) ensures fv(r) == vtan(fv(a));
pub assume_specification[ f64::tanh ](a: f64) -> (r: f64) ensures fv(r) == vtanh(fv(a));
pub assume_specification[ f64::atan ](a: f64) -> (r: f64) ensures fv(r) == vatan(fv(a));
pub assume_specification[ f64::atanh ](a: f64) -> (r: f64) ensures fv(r) == vatanh(fv(a));
pub assume_specification[ f64::atan2 ](a: f64, b: f64) -> (r: f64) ensures fv(r) == vatan2(fv(a), fv(b));
pub assume_specification[ f64::ln ](a: f64) -> (r: f64) ensures fv(r) == vln(fv(a));
pub assume_specification[ f64::log10 ](a: f64) -> (r: f64) ensures fv(r) == vlog10(fv(a));
pub assume_specification[ f64::log ](a: f64, b: f64) -> (r: f64) ensures fv(r) == vlog(fv(a), fv(b));
pub assume_specification[ f64::sqrt ](a: f64) -> (r: f64) ensures fv(r) == vsqrt(fv(a));
pub assume_specification[ f64::cbrt ](a: f64) -> (r: f64) ensures fv(r) == vcbrt(fv(a));
pub assume_specification[ f64::exp ](a: f64) -> (r: f64) ensures fv(r) == vexp(fv(a));
pub assume_specification[ f64::abs ](a: f64) -> (r: f64) ensures fv(r) == vabs(fv(a));
pub assume_specification[ f64::floor ](a: f64) -> (r: f64) ensures fv(r) == vfloor(fv(a));
pub assume_specification[ f64::ceil ](a: f64) -> (r: f64) ensures fv(r) == vceil(fv(a));
pub assume_specification[ f64::round ](a: f64) -> (r: f64) ensures fv(r) == vround(fv(a));
pub assume_specification[ f64::trunc ](a: f64) -> (r: f64) ensures fv(r) == vtrunc(fv(a));
pub assume_specification[ f64::recip ](a: f64) -> (r: f64) ensures fv(r) == vrecip(fv(a));
pub assume_specification[ f64::hypot ](a: f64, b: f64) -> (r: f64) ensures fv(r) == vhypot(fv(a), fv(b));
pub assume_specification[ f64::fract ](a: f64) -> (r: f64) ensures fv(r) == vfract(fv(a));
// not used by the code as it stands: a body that comes to use one is judged, not refused
pub uninterp spec fn vexp2(a: V) -> V;
pub assume_specification[ f64::exp2 ](a: f64) -> (r: f64) ensures fv(r) == vexp2(fv(a));
pub uninterp spec fn vexp_m1(a: V) -> V;
pub assume_specification[ f64::exp_m1 ](a: f64) -> (r: f64) ensures fv(r) == vexp_m1(fv(a));
pub uninterp spec fn vln_1p(a: V) -> V;
pub assume_specification[ f64::ln_1p ](a: f64) -> (r: f64) ensures fv(r) == vln_1p(fv(a));
pub uninterp spec fn vlog2(a: V) -> V;
pub assume_specification[ f64::log2 ](a: f64) -> (r: f64) ensures fv(r) == vlog2(fv(a));
pub uninterp spec fn vsignum(a: V) -> V;
pub assume_specification[ f64::signum ](a: f64) -> (r: f64) ensures fv(r) == vsignum(fv(a));
pub uninterp spec fn vround_ties_even(a: V) -> V;
pub assume_specification[ f64::round_ties_even ](a: f64) -> (r: f64) ensures fv(r) == vround_ties_even(fv(a));
pub uninterp spec fn vto_degrees(a: V) -> V;
pub assume_specification[ f64::to_degrees ](a: f64) -> (r: f64) ensures fv(r) == vto_degrees(fv(a));
pub uninterp spec fn vto_radians(a: V) -> V;
pub assume_specification[ f64::to_radians ](a: f64) -> (r: f64) ensures fv(r) == vto_radians(fv(a));
pub uninterp spec fn vcopysign(a: V, b: V) -> V;
pub assume_specification[ f64::copysign ](a: f64, b: f64) -> (r: f64) ensures !is_nan(fv(b)) ==> fv(r) == vcopysign(fv(a), fv(b));
pub uninterp spec fn vrem_euclid(a: V, b: V) -> V;
pub assume_specification[ f64::rem_euclid ](a: f64, b: f64) -> (r: f64) ensures !is_nan(fv(b)) ==> fv(r) == vrem_euclid(fv(a), fv(b));
pub uninterp spec fn vdiv_euclid(a: V, b: V) -> V;
pub assume_specification[ f64::div_euclid ](a: f64, b: f64) -> (r: f64) ensures !is_nan(fv(b)) ==> fv(r) == vdiv_euclid(fv(a), fv(b));
pub uninterp spec fn vmul_add(a: V, b: V, c: V) -> V;
pub assume_specification[ f64::mul_add ](a: f64, b: f64, c: f64) -> (r: f64) ensures fv(r) == vmul_add(fv(a), fv(b), fv(c));
pub uninterp spec fn vpowi(a: V, n: int) -> V;
pub assume_specification[ f64::powi ](a: f64, n: i32) -> (r: f64) ensures fv(r) == vpowi(fv(a), n as int);
pub assume_specification[ f64::is_nan ](a: f64) -> (r: bool) ensures r == is_nan(fv(a));
pub assume_specification[ f64::is_finite ](a: f64) -> (r: bool) ensures r == finite(fv(a));
pub assume_specification[ f64::is_infinite ](a: f64) -> (r: bool) ensures r == (fv(a) == VINF() || fv(a) == VNINF());
pub assume_specification[ f64::is_sign_positive ](a: f64) -> (r: bool) ensures r == !sign_bit(a), !is_nan(fv(a)) ==> r == !neg_sign(fv(a));
#if NIGHTLY
pub assume_specification[ f64::gamma ](a: f64) -> (r: f64) ensures fv(r) == vgamma(fv(a));
#else
#[verifier::external_body] pub fn tgamma(a: f64) -> (r: f64) ensures fv(r) == vgamma(fv(a)) { unimplemented!() }
#endif
#[verifier::external_body] pub fn xnan() -> (r: f64) ensures fv(r) == VNAN() { f64::NAN }
#[verifier::external_body] pub fn xinf() -> (r: f64) ensures fv(r) == VINF() { f64::INFINITY }
#[verifier::external_body] pub fn xneginf() -> (r: f64) ensures fv(r) == VNINF() { f64::NEG_INFINITY }
#[verifier::external_body] pub fn xpi() -> (r: f64) ensures fv(r) == VPI() { core::f64::consts::PI }
#[verifier::external_body] pub fn xe() -> (r: f64) ensures fv(r) == VE() { core::f64::consts::E }
/// `iter().sum()` over f64
#[verifier::external_body] pub fn xsum(s: &[f64]) -> (r: f64) ensures fv(r) == vfold(|a: V, b: V| vadd(a, b), VSUM0(), fvs(s@)) { s.iter().sum() }
/// `n as f64`
#[verifier::external_body] pub fn xas_f64(n: usize) -> (r: f64) ensures fv(r) == vlen(n as int) { n as f64 }

// ---- small values
impl XEq for usize { open spec fn eqspec(&self, o: &usize) -> bool { *self == *o } fn xeq(&self, o: &usize) -> (r: bool) { *self == *o } }
impl XEq for u8 { open spec fn eqspec(&self, o: &u8) -> bool { *self == *o } fn xeq(&self, o: &u8) -> (r: bool) { *self == *o } }
impl XEq for bool { open spec fn eqspec(&self, o: &bool) -> bool { *self == *o } fn xeq(&self, o: &bool) -> (r: bool) { *self == *o } }
impl XEq for char { open spec fn eqspec(&self, o: &char) -> bool { *self == *o } fn xeq(&self, o: &char) -> (r: bool) { *self == *o } }
impl XEq for str { open spec fn eqspec(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn xeq(&self, o: &str) -> (r: bool) { self == o } }
impl XEq for String { open spec fn eqspec(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn xeq(&self, o: &String) -> (r: bool) { self == o } }
impl XEq for Vec<String> { open spec fn eqspec(&self, o: &Vec<String>) -> bool { self@.map_values(|s: String| s@) == o@.map_values(|s: String| s@) } #[verifier::external_body] fn xeq(&self, o: &Vec<String>) -> (r: bool) { self == o } }
impl XEq for Option<u8> { open spec fn eqspec(&self, o: &Option<u8>) -> bool { *self == *o }
    fn xeq(&self, o: &Option<u8>) -> (r: bool) { match (*self, *o) { (Some(a), Some(b)) => a == b, (None, None) => true, _ => false } } }
impl<'x, 'y> XEq<Option<&'y u8>> for Option<&'x u8> { open spec fn eqspec(&self, o: &Option<&'y u8>) -> bool { (match *self { Some(a) => Some(*a), None => None }) == (match *o { Some(a) => Some(*a), None => None }) }
    fn xeq(&self, o: &Option<&'y u8>) -> (r: bool) { match (*self, *o) { (Some(a), Some(b)) => *a == *b, (None, None) => true, _ => false } } }
impl<'x> XEq for Vec<Element<'x>> { open spec fn eqspec(&self, o: &Vec<Element<'x>>) -> bool { eqss(trees(self@), trees(o@)) }
    #[verifier::external_body] fn xeq(&self, o: &Vec<Element<'x>>) -> (r: bool) { unimplemented!() } }
pub fn xstr_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a.xeq(b) }
impl XClone for u8 { open spec fn crel(&self, r: u8) -> bool { r == *self } fn xclone(&self) -> (r: u8) { *self } }
impl XClone for usize { open spec fn crel(&self, r: usize) -> bool { r == *self } fn xclone(&self) -> (r: usize) { *self } }
impl XClone for char { open spec fn crel(&self, r: char) -> bool { r == *self } fn xclone(&self) -> (r: char) { *self } }
impl XClone for Option<u8> { open spec fn crel(&self, r: Option<u8>) -> bool { r == *self } fn xclone(&self) -> (r: Option<u8>) { *self } }
impl<'x> XClone for &'x str { open spec fn crel(&self, r: &'x str) -> bool { r@ == (*self)@ } fn xclone(&self) -> (r: &'x str) { *self } }
impl<'x, T: Copy> XCopied for Option<&'x T> { type O = Option<T>; open spec fn cop(self) -> Option<T> { match self { Some(a) => Some(*a), None => None } }
    fn xcopied(self) -> (r: Option<T>) { match self { Some(a) => Some(*a), None => None } } }
impl XInto<usize> for u8 { open spec fn irel(self, r: usize) -> bool { r == self as int } fn xinto(self) -> (r: usize) { self as usize } }
impl XInto<usize> for bool { open spec fn irel(self, r: usize) -> bool { r == if self { 1int } else { 0int } } fn xinto(self) -> (r: usize) { if self { 1 } else { 0 } } }
impl XInto<char> for u8 { open spec fn irel(self, r: char) -> bool { r == self as char } fn xinto(self) -> (r: char) { self as char } }
pub trait XCmp { fn xcmp(&self, o: &Self) -> (r: core::cmp::Ordering); }
impl XCmp for u8 { fn xcmp(&self, o: &u8) -> (r: core::cmp::Ordering)
    ensures (r is Less) == (*self < *o), (r is Equal) == (*self == *o), (r is Greater) == (*self > *o)
    { if *self < *o { core::cmp::Ordering::Less } else if *self == *o { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } } }
impl XCmp for usize { fn xcmp(&self, o: &usize) -> (r: core::cmp::Ordering)
    ensures (r is Less) == (*self < *o), (r is Equal) == (*self == *o), (r is Greater) == (*self > *o)
    { if *self < *o { core::cmp::Ordering::Less } else if *self == *o { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } } }

// ---- slices and vectors
impl<T> XLen for [T] { open spec fn slen(&self) -> int { self@.len() as int } fn xlen(&self) -> (r: usize) { self.len() } }
impl<T> XLen for Vec<T> { open spec fn slen(&self) -> int { self@.len() as int } fn xlen(&self) -> (r: usize) { self.len() } }
impl XLen for str { open spec fn slen(&self) -> int { sbytes(self@).len() as int } #[verifier::external_body] fn xlen(&self) -> (r: usize) { self.len() } }
pub trait XSlice { type Item; spec fn sview(&self) -> Seq<Self::Item>; fn xslice(&self) -> (r: &[Self::Item]) ensures r@ == self.sview(); }
impl<T> XSlice for Vec<T> { type Item = T; open spec fn sview(&self) -> Seq<T> { self@ } fn xslice(&self) -> (r: &[T]) { self.as_slice() } }
impl<'r, T> XSlice for &'r Vec<T> { type Item = T; open spec fn sview(&self) -> Seq<T> { (**self)@ } fn xslice(&self) -> (r: &[T]) { (*self).as_slice() } }
impl<T> XSlice for &[T] { type Item = T; open spec fn sview(&self) -> Seq<T> { (*self)@ } fn xslice(&self) -> (r: &[T]) { *self } }
pub fn xas_slice<S: XSlice>(s: &S) -> (r: &[S::Item]) ensures r@ == s.sview() { s.xslice() }
pub fn xget_from<'x>(s: &'x [u8], i: usize) -> (r: Option<&'x [u8]>)
    ensures r is Some == (i <= s@.len()), r is Some ==> r->0@ == s@.skip(i as int)
{ if i <= s.len() { Some(vstd::slice::slice_subrange(s, i, s.len())) } else { None } }
pub fn xsubslice<'x>(s: &'x [u8], i: usize, j: usize) -> (r: &'x [u8]) requires i <= j <= s@.len() ensures r@ == s@.subrange(i as int, j as int)
{ vstd::slice::slice_subrange(s, i, j) }
/// the owning iterator of a vector
#[verifier::reject_recursive_types(T)]
pub struct XIntoIter<T> { pub rest: Ghost<Seq<T>>, pub done: Ghost<Seq<T>>, pub it: XIt<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct XIt<T> { p: std::vec::IntoIter<T> }
impl<T> XIntoIter<T> {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self).rest@.len() == 0 ==> r is None && *final(self) == *old(self),
            old(self).rest@.len() > 0 ==> r == Some(old(self).rest@[0]) && final(self).rest@ == old(self).rest@.drop_first() && final(self).done@ == old(self).done@.push(old(self).rest@[0])
    { unimplemented!() }
}
#[verifier::external_body] pub fn xinto_iter<T>(v: Vec<T>) -> (r: XIntoIter<T>) ensures r.rest@ == v@, r.done@ == Seq::<T>::empty() { unimplemented!() }

// ---- text
pub open spec fn sbytes(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
impl XOwned for str { open spec fn oview(&self) -> Seq<char> { self@ } #[verifier::external_body] fn xto_owned(&self) -> (r: String) { self.to_owned() } }
impl XClone for String { open spec fn crel(&self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn xclone(&self) -> (r: String) { self.clone() } }
impl XClone for Vec<String> { open spec fn crel(&self, r: Vec<String>) -> bool { r@.map_values(|s: String| s@) == self@.map_values(|s: String| s@) } #[verifier::external_body] fn xclone(&self) -> (r: Vec<String>) { self.clone() } }
pub trait XBytes { fn xas_bytes(&self) -> &[u8]; }
impl XBytes for str { #[verifier::external_body] fn xas_bytes(&self) -> (r: &[u8]) ensures r@ == sbytes(self@), r@.len() <= isize::MAX { self.as_bytes() } }
#[verifier::external_body] pub unsafe fn xfrom_utf8_unchecked<'x>(v: &'x [u8]) -> (r: &'x str)
    requires vstd::utf8::valid_utf8(v@) ensures sbytes(r@) == v@, r@ == vstd::utf8::decode_utf8(v@) { core::str::from_utf8_unchecked(v) }
#[verifier::external_body] pub struct Utf8Error { }
#[verifier::external_body] pub fn xfrom_utf8<'x>(v: &'x [u8]) -> (r: Result<&'x str, Utf8Error>)
    ensures r is Ok == vstd::utf8::valid_utf8(v@), r is Ok ==> sbytes(r->Ok_0@) == v@ && r->Ok_0@ == vstd::utf8::decode_utf8(v@) { unimplemented!() }
#[verifier::external_body] pub struct XChars { }
impl XChars { pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<char>)
        ensures old(self)@.len() == 0 ==> r is None, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first() { unimplemented!() } }
pub trait XCharsT { fn xchars(&self) -> XChars; }
impl XCharsT for str { #[verifier::external_body] fn xchars(&self) -> (r: XChars) ensures r@ == self@ { unimplemented!() } }
/// `text.replace('_', "")`
pub trait XReplace { fn xreplace(&self, c: char, w: &str) -> String; }
pub open spec fn replaced(s: Seq<char>, c: char, w: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else { replaced(s.drop_last(), c, w) + (if s.last() == c { w } else { seq![s.last()] }) }
}
impl XReplace for str { #[verifier::external_body] fn xreplace(&self, c: char, w: &str) -> (r: String) ensures r@ == replaced(self@, c, w@) { self.replace(c, w) } }
/// Rust's own text-to-f64 conversion
pub uninterp spec fn f64_of(s: Seq<char>) -> Option<V>;
#[verifier::external_body] pub struct ParseFloatError { }
pub trait XParse { fn xparse(&self) -> Result<f64, ParseFloatError>; }
impl XParse for String { #[verifier::external_body] fn xparse(&self) -> (r: Result<f64, ParseFloatError>)
    ensures f64_of(self@) == (match r { Ok(v) => Some(fv(v)), Err(_) => None }) { unimplemented!() } }
impl XParse for str { #[verifier::external_body] fn xparse(&self) -> (r: Result<f64, ParseFloatError>)
    ensures f64_of(self@) == (match r { Ok(v) => Some(fv(v)), Err(_) => None }) { unimplemented!() } }
#[verifier::external_body] pub fn xstring_new() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
pub trait XPushStr { fn xpush_str(&mut self, s: &str); }
impl XPushStr for String { #[verifier::external_body] fn xpush_str(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { self.push_str(s) } }
pub fn xwrite_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.xpush_str(t) }
pub trait XJoin { fn xjoin(&self, sep: &str) -> String; }
impl XJoin for Vec<String> { #[verifier::external_body] fn xjoin(&self, sep: &str) -> (r: String) ensures r@ == joined(texts(self@), sep@) { self.join(sep) } }

// ---- formatting
#[verifier::external_body] pub struct Formatter { }
pub struct FmtError { }
pub type FmtResult = Result<(), FmtError>;
impl Formatter {
    /// what was written so far
    pub uninterp spec fn view(&self) -> Seq<char>;
    /// writes into memory: writing never fails
    pub uninterp spec fn sure(&self) -> bool;
    #[verifier::external_body] pub fn write_str(&mut self, s: &str) -> (r: FmtResult) ensures wrote(*old(self), *final(self), s@, r) { unimplemented!() }
    #[verifier::external_body] pub fn write_char(&mut self, c: char) -> (r: FmtResult) ensures wrote(*old(self), *final(self), seq![c], r) { unimplemented!() }
    /// formatting into a string
    #[verifier::external_body] pub fn over(s: &mut String) -> (r: Formatter) ensures r@ == old(s)@, r.sure() { unimplemented!() }
    #[verifier::external_body] pub fn done(self, s: &mut String) ensures final(s)@ == self@ { unimplemented!() }
}
pub open spec fn wrote(a: Formatter, b: Formatter, t: Seq<char>, r: FmtResult) -> bool { b.sure() == a.sure() && (a.sure() ==> r is Ok) && (r is Ok ==> b@ == a@ + t) }
pub uninterp spec fn int_text(a: int) -> Seq<char>;
pub trait XFmt { spec fn ftext(&self) -> Seq<char>; fn xfmt(&self, f: &mut Formatter) -> (r: FmtResult) ensures wrote(*old(f), *final(f), self.ftext(), r);
    fn xwrite(&self, s: &mut String) ensures final(s)@ == old(s)@ + self.ftext(); }
impl XFmt for f64 { open spec fn ftext(&self) -> Seq<char> { vtext(fv(*self)) } #[verifier::external_body] fn xfmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } #[verifier::external_body] fn xwrite(&self, s: &mut String) { unimplemented!() } }
impl XFmt for usize { open spec fn ftext(&self) -> Seq<char> { int_text(*self as int) } #[verifier::external_body] fn xfmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } #[verifier::external_body] fn xwrite(&self, s: &mut String) { unimplemented!() } }
impl XFmt for u8 { open spec fn ftext(&self) -> Seq<char> { int_text(*self as int) } #[verifier::external_body] fn xfmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } #[verifier::external_body] fn xwrite(&self, s: &mut String) { unimplemented!() } }
impl XFmt for char { open spec fn ftext(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn xfmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } #[verifier::external_body] fn xwrite(&self, s: &mut String) { unimplemented!() } }
impl XFmt for str { open spec fn ftext(&self) -> Seq<char> { self@ } #[verifier::external_body] fn xfmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } #[verifier::external_body] fn xwrite(&self, s: &mut String) { unimplemented!() } }
impl XFmt for String { open spec fn ftext(&self) -> Seq<char> { self@ } #[verifier::external_body] fn xfmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } #[verifier::external_body] fn xwrite(&self, s: &mut String) { unimplemented!() } }

/// `to_string()`: what Display writes
pub trait XToStr { spec fn strspec(&self) -> Seq<char>; fn xto_string(&self) -> (r: String) ensures r@ == self.strspec(); }
impl<T: XFmt + ?Sized> XToStr for T { open spec fn strspec(&self) -> Seq<char> { self.ftext() } fn xto_string(&self) -> (r: String) { let mut s = xstring_new(); self.xwrite(&mut s); s } }
impl<'y> XFmt for &'y str { open spec fn ftext(&self) -> Seq<char> { (*self)@ } #[verifier::external_body] fn xfmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } #[verifier::external_body] fn xwrite(&self, s: &mut String) { unimplemented!() } }
impl<'x> Element<'x> { pub fn xto_string(&self) -> (r: String) ensures tidy(self.tree()) ==> r@ == disp(self.tree()) { let mut s = xstring_new(); self.xwrite(&mut s); s } }

// ---- hash maps and sets keyed by text
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(T)]
pub struct HashMap<K, T> { m: core::marker::PhantomData<(K, T)> }
impl<'k, T> HashMap<&'k str, T> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, T>;
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&T>)
        ensures r is Some == self@.dom().contains(k@), r is Some ==> *(r->0) == self@[k@] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: &'k str, v: T) -> (r: Option<T>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (r: Option<T>)
        ensures final(self)@ == old(self)@.remove(k@), r is Some == old(self)@.dom().contains(k@), r is Some ==> r->0 == old(self)@[k@] { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<Seq<char>, T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<Seq<char>, T>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<Seq<char>, T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Map::<Seq<char>, T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn from<const N: usize>(a: [(&'k str, T); N]) -> (r: Self) ensures r@ == pairs_map(a@) { unimplemented!() }
}
impl<'k, T> XDefault for HashMap<&'k str, T> { open spec fn is_def(self) -> bool { self@ == Map::<Seq<char>, T>::empty() } #[verifier::external_body] fn xdefault() -> (r: Self) { unimplemented!() } }
impl<T> XDefault for Option<T> { open spec fn is_def(self) -> bool { self is None } fn xdefault() -> (r: Self) { None } }
pub open spec fn pairs_map<T>(s: Seq<(&str, T)>) -> Map<Seq<char>, T> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { pairs_map(s.drop_last()).insert(s.last().0@, s.last().1) }
}
impl<'k, T, const N: usize> XInto<HashMap<&'k str, T>> for [(&'k str, T); N] {
    open spec fn irel(self, r: HashMap<&'k str, T>) -> bool { r@ == pairs_map(self@) } #[verifier::external_body] fn xinto(self) -> (r: HashMap<&'k str, T>) { unimplemented!() } }
impl<'k> XEq for HashMap<&'k str, Symbol> {
    open spec fn eqspec(&self, o: &HashMap<&'k str, Symbol>) -> bool { self@.dom() == o@.dom() && forall|k: Seq<char>| self@.dom().contains(k) ==> sym_eq(#[trigger] self@[k], o@[k]) }
    #[verifier::external_body] fn xeq(&self, o: &HashMap<&'k str, Symbol>) -> (r: bool) { unimplemented!() } }
pub open spec fn sym_eq(a: Symbol, b: Symbol) -> bool {
    match (a, b) { (Symbol::Variable(x), Symbol::Variable(y)) => feq(fv(x), fv(y)), (Symbol::Function(f), Symbol::Function(g)) => f@ == g@, _ => false }
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { m: core::marker::PhantomData<K> }
impl<'k> HashSet<&'k str> {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn insert(&mut self, k: &'k str) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (r: bool) ensures final(self)@ == old(self)@.remove(k@), r == old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<Seq<char>>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn is_subset(&self, o: &HashSet<&str>) -> (r: bool) ensures r == self@.subset_of(o@) { unimplemented!() }
    #[verifier::external_body] pub fn is_superset(&self, o: &HashSet<&str>) -> (r: bool) ensures r == o@.subset_of(self@) { unimplemented!() }
    #[verifier::external_body] pub fn from<const N: usize>(a: [&'k str; N]) -> (r: Self) ensures r@ == strs(a@).to_set() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &str) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn difference<'s>(&'s self, o: &'s HashSet<&str>) -> (r: Difference<'s, &'k str, RandomState>)
        ensures r@.len() <= isize::MAX, strs(r@).no_duplicates(), strs(r@).to_set() == self@.difference(o@) { unimplemented!() }
    #[verifier::external_body] pub fn xelems(&self) -> (r: Vec<&'k str>) ensures strs(r@).no_duplicates(), strs(r@).to_set() == self@ { unimplemented!() }
}
pub open spec fn strs(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|k: &str| k@) }
impl<'k> XEq for HashSet<&'k str> { open spec fn eqspec(&self, o: &HashSet<&'k str>) -> bool { self@ == o@ } #[verifier::external_body] fn xeq(&self, o: &HashSet<&'k str>) -> (r: bool) { unimplemented!() } }
impl<'k> XEq for Option<HashSet<&'k str>> { open spec fn eqspec(&self, o: &Option<HashSet<&'k str>>) -> bool { match (*self, *o) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false } }
    fn xeq(&self, o: &Option<HashSet<&'k str>>) -> (r: bool) { match (self, o) { (Some(a), Some(b)) => a.xeq(b), (None, None) => true, _ => false } } }
pub struct RandomState { }
/// the first of the texts in Rust's order
pub uninterp spec fn least(s: Set<Seq<char>>) -> Seq<char>;
/// the texts in Rust's order
pub uninterp spec fn ordered(s: Set<Seq<char>>) -> Seq<Seq<char>>;
pub trait XSortT { spec fn stexts(&self) -> Seq<Seq<char>>; fn xsort(&mut self)
    ensures final(self).stexts().to_set() == old(self).stexts().to_set(), old(self).stexts().no_duplicates() ==> final(self).stexts().no_duplicates() && final(self).stexts() == ordered(old(self).stexts().to_set()); }
impl XSortT for Vec<String> { open spec fn stexts(&self) -> Seq<Seq<char>> { self@.map_values(|k: String| k@) } #[verifier::external_body] fn xsort(&mut self) { self.sort() } }
impl<'k> XSortT for Vec<&'k str> { open spec fn stexts(&self) -> Seq<Seq<char>> { strs(self@) } #[verifier::external_body] fn xsort(&mut self) { self.sort() } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(S)]
pub struct Difference<'s, K, S> { m: core::marker::PhantomData<&'s (K, S)> }
impl<'s, 'k> Difference<'s, &'k str, RandomState> {
    pub uninterp spec fn view(&self) -> Seq<&'k str>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'s &'k str>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r is Some && *(r->0) == old(self)@[0] && final(self)@ == old(self)@.drop_first() { unimplemented!() }
    #[verifier::external_body] pub fn peekable(self) -> (r: Peekable<'s, 'k>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn min(self) -> (r: Option<&'s &'k str>)
        ensures r is Some == (self@.len() > 0), r is Some ==> strs(self@).to_set().contains((*(r->0))@) && (*(r->0))@ == least(strs(self@).to_set()) { unimplemented!() }
    #[verifier::external_body] pub fn max(self) -> (r: Option<&'s &'k str>)
        ensures r is Some == (self@.len() > 0), r is Some ==> strs(self@).to_set().contains((*(r->0))@) { unimplemented!() }
}
#[verifier::external_body] pub struct Peekable<'s, 'k> { m: core::marker::PhantomData<&'s &'k u8> }
impl<'s, 'k> Peekable<'s, 'k> {
    pub uninterp spec fn view(&self) -> Seq<&'k str>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'s &'k str>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r is Some && *(r->0) == old(self)@[0] && final(self)@ == old(self)@.drop_first() { unimplemented!() }
    #[verifier::external_body] pub fn peek(&mut self) -> (r: Option<&&'s &'k str>)
        ensures final(self)@ == old(self)@, r is Some == (old(self)@.len() > 0) { unimplemented!() }
}

// ---- miette
#[derive(Clone, Copy)]
pub struct SourceSpan { pub off: usize, pub len: usize }
impl XInto<SourceSpan> for usize { open spec fn irel(self, r: SourceSpan) -> bool { r.off == self && r.len == 0 } fn xinto(self) -> (r: SourceSpan) { SourceSpan { off: self, len: 0 } } }
impl XInto<SourceSpan> for (usize, usize) { open spec fn irel(self, r: SourceSpan) -> bool { r.off == self.0 && r.len == self.1 } fn xinto(self) -> (r: SourceSpan) { SourceSpan { off: self.0, len: self.1 } } }
impl XInto<SourceSpan> for core::ops::Range<usize> { open spec fn irel(self, r: SourceSpan) -> bool { r.off == self.start && r.len == if self.start <= self.end { self.end - self.start } else { 0 } }
    fn xinto(self) -> (r: SourceSpan) { SourceSpan { off: self.start, len: if self.start <= self.end { self.end - self.start } else { 0 } } } }
pub struct LabeledSpan { pub label: Option<String>, pub span: SourceSpan }
impl LabeledSpan {
    pub fn new_with_span<T: XInto<SourceSpan>>(label: Option<String>, span: T) -> (r: LabeledSpan) ensures r.label == label, span.irel(r.span) { LabeledSpan { label, span: span.xinto() } }
    pub fn new_primary_with_span<T: XInto<SourceSpan>>(label: Option<String>, span: T) -> (r: LabeledSpan) ensures r.label == label, span.irel(r.span) { LabeledSpan { label, span: span.xinto() } }
    pub fn new(label: Option<String>, off: usize, len: usize) -> (r: LabeledSpan) ensures r.label == label, r.span == (SourceSpan { off, len }) { LabeledSpan { label, span: SourceSpan { off, len } } }
    pub fn underline<T: XInto<SourceSpan>>(span: T) -> (r: LabeledSpan) ensures span.irel(r.span) { LabeledSpan { label: None, span: span.xinto() } }
}
impl XInto<SourceSpan> for SourceSpan { open spec fn irel(self, r: SourceSpan) -> bool { r == self } fn xinto(self) -> (r: SourceSpan) { self } }
impl XEq for SourceSpan { open spec fn eqspec(&self, o: &SourceSpan) -> bool { *self == *o } fn xeq(&self, o: &SourceSpan) -> (r: bool) { self.off == o.off && self.len == o.len } }
impl XClone for Operator { open spec fn crel(&self, r: Operator) -> bool { r == *self } fn xclone(&self) -> (r: Operator) { *self } }
impl<'k> XClone for HashMap<&'k str, Symbol> {
    open spec fn crel(&self, r: HashMap<&'k str, Symbol>) -> bool { r@.dom() == self@.dom() && forall|n: Seq<char>| self@.dom().contains(n) ==> sym_same(#[trigger] self@[n], r@[n]) }
    #[verifier::external_body] fn xclone(&self) -> (r: HashMap<&'k str, Symbol>) { unimplemented!() } }
impl<'k> XClone for HashSet<&'k str> { open spec fn crel(&self, r: HashSet<&'k str>) -> bool { r@ == self@ } #[verifier::external_body] fn xclone(&self) -> (r: HashSet<&'k str>) { unimplemented!() } }
impl<'k> XClone for Option<HashSet<&'k str>> { open spec fn crel(&self, r: Option<HashSet<&'k str>>) -> bool { match (*self, r) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false } }
    fn xclone(&self) -> (r: Option<HashSet<&'k str>>) { match self { Some(a) => Some(a.xclone()), None => None } } }
impl<'x> XClone for Vec<Element<'x>> { open spec fn crel(&self, r: Vec<Element<'x>>) -> bool { trees(r@) == trees(self@) } #[verifier::external_body] fn xclone(&self) -> (r: Vec<Element<'x>>) { unimplemented!() } }
impl XClone for SourceSpan { open spec fn crel(&self, r: SourceSpan) -> bool { r == *self } fn xclone(&self) -> (r: SourceSpan) { SourceSpan { off: self.off, len: self.len } } }

// ---- what bodies may come to use: exact where it is simple, abstract otherwise
pub trait XIsEmpty { spec fn emptyspec(&self) -> bool; fn xis_empty(&self) -> (r: bool) ensures r == self.emptyspec(); }
impl XIsEmpty for str { open spec fn emptyspec(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn xis_empty(&self) -> (r: bool) { self.is_empty() } }
impl XIsEmpty for String { open spec fn emptyspec(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn xis_empty(&self) -> (r: bool) { self.is_empty() } }
impl<T> XIsEmpty for Vec<T> { open spec fn emptyspec(&self) -> bool { self@.len() == 0 } fn xis_empty(&self) -> (r: bool) { self.len() == 0 } }
impl<T> XIsEmpty for [T] { open spec fn emptyspec(&self) -> bool { self@.len() == 0 } fn xis_empty(&self) -> (r: bool) { self.len() == 0 } }
impl<'k, T> XIsEmpty for HashMap<&'k str, T> { open spec fn emptyspec(&self) -> bool { self@ == Map::<Seq<char>, T>::empty() } fn xis_empty(&self) -> (r: bool) { self.is_empty() } }
impl<'k> XIsEmpty for HashSet<&'k str> { open spec fn emptyspec(&self) -> bool { self@ == Set::<Seq<char>>::empty() } fn xis_empty(&self) -> (r: bool) { self.is_empty() } }
pub trait XEnds<P> { spec fn startspec(&self, p: P) -> bool; spec fn endspec(&self, p: P) -> bool;
    fn xstarts_with(&self, p: P) -> (r: bool) ensures r == self.startspec(p);
    fn xends_with(&self, p: P) -> (r: bool) ensures r == self.endspec(p); }
impl XEnds<char> for str { open spec fn startspec(&self, p: char) -> bool { self@.len() > 0 && self@[0] == p } open spec fn endspec(&self, p: char) -> bool { self@.len() > 0 && self@.last() == p }
    #[verifier::external_body] fn xstarts_with(&self, p: char) -> (r: bool) { self.starts_with(p) } #[verifier::external_body] fn xends_with(&self, p: char) -> (r: bool) { self.ends_with(p) } }
impl<'p> XEnds<&'p str> for str { open spec fn startspec(&self, p: &'p str) -> bool { p@.is_prefix_of(self@) } open spec fn endspec(&self, p: &'p str) -> bool { p@.is_suffix_of(self@) }
    #[verifier::external_body] fn xstarts_with(&self, p: &'p str) -> (r: bool) { self.starts_with(p) } #[verifier::external_body] fn xends_with(&self, p: &'p str) -> (r: bool) { self.ends_with(p) } }
impl<'p> XEnds<&'p [u8]> for [u8] { open spec fn startspec(&self, p: &'p [u8]) -> bool { p@.is_prefix_of(self@) } open spec fn endspec(&self, p: &'p [u8]) -> bool { p@.is_suffix_of(self@) }
    #[verifier::external_body] fn xstarts_with(&self, p: &'p [u8]) -> (r: bool) { self.starts_with(p) } #[verifier::external_body] fn xends_with(&self, p: &'p [u8]) -> (r: bool) { self.ends_with(p) } }
pub uninterp spec fn text_fn(which: int, s: Seq<char>, c: char) -> Seq<char>;
pub uninterp spec fn eq_ic(a: Seq<char>, b: Seq<char>) -> bool;
pub trait XText { spec fn tchars(&self) -> Seq<char>;
    fn xeq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == eq_ic(self.tchars(), o@), self.tchars() == o@ ==> r;
    fn xtrim(&self) -> (r: &str) ensures r@ == text_fn(0, self.tchars(), ' ');
    fn xtrim_start(&self) -> (r: &str) ensures r@ == text_fn(1, self.tchars(), ' ');
    fn xtrim_end(&self) -> (r: &str) ensures r@ == text_fn(2, self.tchars(), ' ');
    fn xtrim_matches(&self, c: char) -> (r: &str) ensures r@ == text_fn(3, self.tchars(), c);
    fn xtrim_start_matches(&self, c: char) -> (r: &str) ensures r@ == text_fn(4, self.tchars(), c);
    fn xtrim_end_matches(&self, c: char) -> (r: &str) ensures r@ == text_fn(5, self.tchars(), c);
    fn xto_lowercase(&self) -> (r: String) ensures r@ == text_fn(6, self.tchars(), ' ');
    fn xto_uppercase(&self) -> (r: String) ensures r@ == text_fn(7, self.tchars(), ' ');
}
impl XText for str { open spec fn tchars(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn xeq_ignore_ascii_case(&self, o: &str) -> (r: bool) { self.eq_ignore_ascii_case(o) }
    #[verifier::external_body] fn xtrim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body] fn xtrim_start(&self) -> (r: &str) { self.trim_start() }
    #[verifier::external_body] fn xtrim_end(&self) -> (r: &str) { self.trim_end() }
    #[verifier::external_body] fn xtrim_matches(&self, c: char) -> (r: &str) { self.trim_matches(c) }
    #[verifier::external_body] fn xtrim_start_matches(&self, c: char) -> (r: &str) { self.trim_start_matches(c) }
    #[verifier::external_body] fn xtrim_end_matches(&self, c: char) -> (r: &str) { self.trim_end_matches(c) }
    #[verifier::external_body] fn xto_lowercase(&self) -> (r: String) { self.to_lowercase() }
    #[verifier::external_body] fn xto_uppercase(&self) -> (r: String) { self.to_uppercase() } }

// ---- the function pointer
#[verifier::external_body] pub struct FnPointer { p: core::marker::PhantomData<u8> }
pub struct Arc<T> { pub t: T }
impl<T> Arc<T> { pub fn new(t: T) -> (r: Arc<T>) ensures r.t == t { Arc { t } } }
/// f may be called with n arguments
pub open spec fn fn_callable<F: Fn(&[f64]) -> f64>(f: F, n: int) -> bool { forall|s: &[f64]| s@.len() == n ==> #[trigger] call_requires(f, (s,)) }
/// what f returns depends on its arguments' values only (the assumption made on functions)
pub open spec fn fn_meaning<F: Fn(&[f64]) -> f64>(f: F, id: int) -> bool {
    forall|s: &[f64]| #[trigger] call_requires(f, (s,)) ==> exists|o: f64| #[trigger] call_ensures(f, (s,), o) && fv(o) == fcall(id, fvs(s@))
}
impl FnPointer {
    pub uninterp spec fn fid(self) -> int;
    #[allow(non_snake_case)] #[verifier::external_body] pub fn Static<F: Fn(&[f64]) -> f64>(f: F) -> (r: FnPointer)
        ensures fn_meaning(f, r.fid()), forall|n: int| #[trigger] fn_callable(f, n) ==> callable(r.fid(), n) { unimplemented!() }
    #[allow(non_snake_case)] #[verifier::external_body] pub fn Dyn<F: Fn(&[f64]) -> f64>(f: Arc<F>) -> (r: FnPointer)
        ensures fn_meaning(f.t, r.fid()), forall|n: int| #[trigger] fn_callable(f.t, n) ==> callable(r.fid(), n) { unimplemented!() }
    #[verifier::external_body] pub fn xcall(&self, args: &[f64]) -> (r: f64)
        requires callable(self.fid(), args@.len() as int) ensures fv(r) == fcall(self.fid(), fvs(args@)) { unimplemented!() }
}
impl XEq for FnPointer { open spec fn eqspec(&self, o: &FnPointer) -> bool { self.fid() == o.fid() } #[verifier::external_body] fn xeq(&self, o: &FnPointer) -> (r: bool) { unimplemented!() } }
impl XClone for FnPointer { open spec fn crel(&self, r: FnPointer) -> bool { r.fid() == self.fid() } #[verifier::external_body] fn xclone(&self) -> (r: FnPointer) { unimplemented!() } }

// ---- conversions between the crate's own types: the From impls of the crate, under contract themselves
impl XInto<Symbol> for f64 { open spec fn irel(self, r: Symbol) -> bool { r == Symbol::Variable(self) } fn xinto(self) -> (r: Symbol) { Symbol::from__f64(self) } }
impl XInto<Symbol> for Function { open spec fn irel(self, r: Symbol) -> bool { r == Symbol::Function(self) } fn xinto(self) -> (r: Symbol) { Symbol::from__Function(self) } }
impl<'x> XInto<Element<'x>> for f64 { open spec fn irel(self, r: Element<'x>) -> bool { r == Element::<'x>::Number(self) } fn xinto(self) -> (r: Element<'x>) { Element::from__T(self) } }
impl<'x> XInto<Element<'x>> for BinOp<'x> { open spec fn irel(self, r: Element<'x>) -> bool { r == Element::BinOp(Box::new(self)) } fn xinto(self) -> (r: Element<'x>) { Element::from__BinOp(self) } }
impl<'x> XInto<Element<'x>> for UnOp<'x> { open spec fn irel(self, r: Element<'x>) -> bool { r == Element::UnOp(Box::new(self)) } fn xinto(self) -> (r: Element<'x>) { Element::from__UnOp(self) } }
impl<'x> XInto<Element<'x>> for FunctionCall<'x> { open spec fn irel(self, r: Element<'x>) -> bool { r == Element::Function(Box::new(self)) } fn xinto(self) -> (r: Element<'x>) { Element::from__FunctionCall(self) } }
impl<'x> XInto<Identifier<'x>> for f64 { open spec fn irel(self, r: Identifier<'x>) -> bool { r == Identifier::<'x>::Constant(self) } fn xinto(self) -> (r: Identifier<'x>) { Identifier::from__T(self) } }
impl<'x> XInto<Identifier<'x>> for Function { open spec fn irel(self, r: Identifier<'x>) -> bool { r == Identifier::<'x>::Function(self) } fn xinto(self) -> (r: Identifier<'x>) { Identifier::from__Function(self) } }
impl<'x> XInto<Identifier<'x>> for Symbol { open spec fn irel(self, r: Identifier<'x>) -> bool { r == (match self { Symbol::Variable(v) => Identifier::<'x>::Constant(v), Symbol::Function(f) => Identifier::<'x>::Function(f) }) }
    fn xinto(self) -> (r: Identifier<'x>) { Identifier::from__Symbol(self) } }
impl<'x> XDefault for Context<'x> { open spec fn is_def(self) -> bool { self.symbols@ == Map::<Seq<char>, Symbol>::empty() && self.expected_vars is None } fn xdefault() -> (r: Self) { Context::default() } }
pub trait XCloned<T> { fn xcloned(self) -> Option<T>; }
impl<'x> XCloned<Symbol> for Option<&'x Symbol> { fn xcloned(self) -> (r: Option<Symbol>)
    ensures (r is Some) == (self is Some), r is Some ==> sym_same(*(self->0), r->0) { match self { Some(s) => Some(s.xclone()), None => None } } }
pub open spec fn sym_same(a: Symbol, b: Symbol) -> bool {
    match (a, b) { (Symbol::Variable(x), Symbol::Variable(y)) => x == y, (Symbol::Function(f), Symbol::Function(g)) => f@ == g@, _ => false }
}
/// `format!("{element}")`
impl<'x> Element<'x> { pub fn xwrite(&self, s: &mut String)
    ensures tidy(self.tree()) ==> final(s)@ == old(s)@ + disp(self.tree())
    decreases self, 1int
    { let mut f = Formatter::over(s); let r = self.xfmt(&mut f); f.done(s); } }

// ---- iterators where the code uses them as values
pub uninterp spec fn listing(s: Set<Seq<char>>) -> Seq<&'static str>;
impl<'r, 'k> XSlice for &'r HashSet<&'k str> { type Item = &'k str; open spec fn sview(&self) -> Seq<&'k str> { set_elems(**self) }
    #[verifier::external_body] fn xslice(&self) -> (r: &[&'k str]) { unimplemented!() } }
pub uninterp spec fn set_elems<'k>(s: HashSet<&'k str>) -> Seq<&'k str>;
pub broadcast axiom fn set_elems_ax<'k>(s: HashSet<&'k str>) ensures strs(#[trigger] set_elems(s)).no_duplicates(), strs(set_elems(s)).to_set() == s@;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct XIter<T> { p: core::marker::PhantomData<T> }
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub trait XIterT<'x, T> { fn xiter(&'x self) -> XIter<&'x T>; }
impl<'x, T> XIterT<'x, T> for [T] { #[verifier::external_body] fn xiter(&'x self) -> (r: XIter<&'x T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r@[i]) == self@[i], derefs(r@) == self@ { unimplemented!() } }
pub trait XSeqT<T> { spec fn qview(self) -> Seq<T>; }
impl<T, const N: usize> XSeqT<T> for [T; N] { open spec fn qview(self) -> Seq<T> { self@ } }
impl<T> XSeqT<T> for XIter<T> { open spec fn qview(self) -> Seq<T> { self@ } }
pub trait XIntoIterT<T> { fn xinto_iter(self) -> XIter<T>; }
impl<T, const N: usize> XIntoIterT<T> for [T; N] { #[verifier::external_body] fn xinto_iter(self) -> (r: XIter<T>) ensures r@ == self@ { unimplemented!() } }
pub open spec fn zipped<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> { Seq::new(if a.len() <= b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i])) }
impl<T> XIter<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn zip<U, S: XSeqT<U>>(self, o: S) -> (r: XIter<(T, U)>) ensures r@ == zipped(self@, o.qview()) { unimplemented!() }
    #[verifier::external_body] pub fn collect<C: XFromSeq<T>>(self) -> (r: C) ensures C::from_seq(self@, r) { unimplemented!() }
}
impl<'x, T: Copy> XIter<&'x T> { #[verifier::external_body] pub fn xcopied(self) -> (r: XIter<T>) ensures r@ == derefs(self@) { unimplemented!() } }
pub trait XFromSeq<T>: Sized { spec fn from_seq(s: Seq<T>, r: Self) -> bool; }
impl<'k, T> XFromSeq<(&'k str, T)> for HashMap<&'k str, T> { open spec fn from_seq(s: Seq<(&'k str, T)>, r: Self) -> bool { r@ == pairs_map(s) } }
impl<'k> XFromSeq<&'k str> for HashSet<&'k str> { open spec fn from_seq(s: Seq<&'k str>, r: Self) -> bool { r@ == strs(s).to_set() } }
pub open spec fn is_ws(b: u8) -> bool { b == 0x20 || b == 0x09 || b == 0x0a || b == 0x0c || b == 0x0d }
pub open spec fn is_digit(b: u8) -> bool { 0x30 <= b <= 0x39 }
pub open spec fn is_letter(b: u8) -> bool { 0x41 <= b <= 0x5a || 0x61 <= b <= 0x7a }
pub assume_specification[ u8::is_ascii_digit ](b: &u8) -> (r: bool) ensures r == is_digit(*b);
pub assume_specification[ u8::is_ascii_whitespace ](b: &u8) -> (r: bool) ensures r == is_ws(*b);
pub assume_specification[ u8::is_ascii_alphabetic ](b: &u8) -> (r: bool) ensures r == is_letter(*b);
pub assume_specification[ u8::is_ascii_alphanumeric ](b: &u8) -> (r: bool) ensures r == (is_letter(*b) || is_digit(*b));
pub assume_specification<T>[ core::mem::replace ](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub open spec fn vars_exact(x: Xprs) -> bool { forall|v: Seq<char>| #[trigger] x.vars@.contains(v) <==> occurs(x.root.tree(), v) }
pub open spec fn ident_eq(a: Identifier, b: Identifier) -> bool {
    match (a, b) {
        (Identifier::Function(f), Identifier::Function(g)) => f@ == g@,
        (Identifier::Constant(x), Identifier::Constant(y)) => feq(fv(x), fv(y)),
        (Identifier::Variable(x), Identifier::Variable(y)) => x@ == y@,
        _ => false,
    }
}
