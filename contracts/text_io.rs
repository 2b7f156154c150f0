/// in UTF-8 an ASCII byte is a whole character, so a string may be cut after it
pub broadcast axiom fn cut_after_ascii(s: &str, i: int) requires 0 <= i < str_bytes(s).len(), str_bytes(s)[i] < 128 ensures #[trigger] cut_ok(str_bytes(s), i + 1);
#[verifier::external_body] fn vx_lit(b: &[u8]) -> (r: &'static str) ensures str_bytes(r) == b@ { unimplemented!() }
#[verifier::external_body] fn vx_str_eq<A: VxStr + ?Sized, B: VxStr + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.sb() == b.sb()) { unimplemented!() }
impl<'a, T: VxStr + ?Sized> VxStr for &'a T { open spec fn sb(&self) -> Seq<u8> { (**self).sb() }
    #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
/// `&x[a..b]` of a string or a slice
pub trait VxSlicing { spec fn may_cut(&self, i: int) -> bool; spec fn is_part(&self, r: &Self, a: int, b: int) -> bool; spec fn cut_len(&self) -> nat; }
impl VxSlicing for str { open spec fn may_cut(&self, i: int) -> bool { cut_ok(str_bytes(self), i) }
    open spec fn is_part(&self, r: &Self, a: int, b: int) -> bool { str_bytes(r) == str_bytes(self).subrange(a, b) }
    open spec fn cut_len(&self) -> nat { str_bytes(self).len() } }
impl<T> VxSlicing for [T] { open spec fn may_cut(&self, i: int) -> bool { i <= self@.len() }
    open spec fn is_part(&self, r: &Self, a: int, b: int) -> bool { r@ == self@.subrange(a, b) }
    open spec fn cut_len(&self) -> nat { self@.len() } }
#[verifier::external_body] fn vx_str_slice<'x, T: VxSlicing + ?Sized>(s: &'x T, a: usize, b: usize) -> (r: &'x T)
    requires a <= b, s.may_cut(a as int), s.may_cut(b as int)
    ensures s.is_part(r, a as int, b as int)
{ unimplemented!() }
#[verifier::external_body] fn vx_str_from<'x, T: VxSlicing + ?Sized>(s: &'x T, a: usize) -> (r: &'x T)
    requires s.may_cut(a as int)
    ensures s.is_part(r, a as int, s.cut_len() as int)
{ unimplemented!() }
pub trait VxLen { spec fn bytes_len(&self) -> nat;
    /// no allocation exceeds `isize::MAX` bytes; stated for elements of at least one byte, which all are here
    fn vx_len(&self) -> (r: usize) ensures r == self.bytes_len(), r <= usize::MAX / 2;
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.bytes_len() == 0); }
impl VxLen for str { open spec fn bytes_len(&self) -> nat { str_bytes(self).len() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl VxLen for String { open spec fn bytes_len(&self) -> nat { string_bytes(*self).len() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl<T> VxLen for [T] { open spec fn bytes_len(&self) -> nat { self@.len() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl<T> VxLen for Vec<T> { open spec fn bytes_len(&self) -> nat { self@.len() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
// ---------- iteration over a slice's elements
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { v: Vec<T> }
impl<T> VxIter<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() }
    { unimplemented!() }
}
fn vx_none_of<T>(it: &VxIter<T>) -> (r: Option<T>) ensures r is None { None }
fn vx_into_iter<T>(it: VxIter<T>) -> (r: VxIter<T>) ensures r == it { it }
pub trait VxSliceIter<T> { fn vx_iter<'x>(&'x self) -> VxIter<&'x T>; }
impl<T> VxSliceIter<T> for [T] { #[verifier::external_body] fn vx_iter<'x>(&'x self) -> (it: VxIter<&'x T>)
    ensures it.rest().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] it.rest()[i]) == self@[i] { unimplemented!() } }

#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Arc<T: ?Sized> { p: core::marker::PhantomData<T> }
pub uninterp spec fn arc_str(a: Arc<str>) -> Seq<u8>;
pub broadcast axiom fn conv_arc(s: String) ensures #[trigger] arc_str(conv::<String, Arc<str>>(s)) == string_bytes(s);

/// `str::parse`
pub uninterp spec fn parsed_as<T>(s: Seq<u8>) -> Option<T>;
#[verifier::external_body] pub struct ParseErr { _p: () }
pub trait VxParse: VxStr { fn vx_parse<T>(&self) -> (r: Result<T, ParseErr>)
    ensures match r { Ok(x) => parsed_as::<T>(self.sb()) == Some(x), Err(_) => parsed_as::<T>(self.sb()) is None }; }
impl VxParse for str { #[verifier::external_body] fn vx_parse<T>(&self) -> (r: Result<T, ParseErr>) { unimplemented!() } }
fn vx_min_len(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
