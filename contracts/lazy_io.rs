
// ---------- more stand-ins
impl AsRef<[u8]> for Vec<u8> { uninterp spec fn as_ref_spec(&self) -> &[u8]; #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl AsRef<[u8]> for String { uninterp spec fn as_ref_spec(&self) -> &[u8]; #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
pub broadcast axiom fn vec_bytes(v: Vec<u8>) ensures #[trigger] v.as_ref_spec()@ == v@, v@.len() <= usize::MAX;
pub broadcast axiom fn string_bytes_ref(s: String) ensures #[trigger] AsRef::<[u8]>::as_ref_spec(&s)@ == string_bytes(s);
pub struct Cursor<T> { pub inner: T, pub pos: u64 }
impl<T: AsRef<[u8]>> Cursor<T> {
    pub open spec fn data(&self) -> Seq<u8> { self.inner.as_ref_spec()@ }
    pub fn new(inner: T) -> (r: Self) ensures r.inner == inner, r.pos == 0 { Cursor { inner, pos: 0 } }
    pub fn position(&self) -> (r: u64) ensures r == self.pos { self.pos }
    pub fn get_ref(&self) -> (r: &T) ensures r == self.inner { &self.inner }
}
impl<T: AsRef<[u8]>> Read for Cursor<T> {
    open spec fn rest(&self) -> Seq<u8> { self.data().skip(self.pos as int) }
    open spec fn readable(&self) -> bool { self.pos <= self.data().len() <= usize::MAX }
    #[verifier::external_body] fn read(&mut self, out: &mut [u8]) -> (r: io::Result<usize>)
        ensures r is Ok, final(self).inner == old(self).inner, r->Ok_0 == if old(self).rest().len() < old(out)@.len() { old(self).rest().len() } else { old(out)@.len() },
            final(self).pos == old(self).pos + r->Ok_0
    { unimplemented!() }
}
/// `Box<dyn Read + 'd>`
#[verifier::external_body]
pub struct DynRead<'d> { p: core::marker::PhantomData<&'d u8> }
impl<'d> DynRead<'d> {
    #[verifier::external_body] pub fn new<R: Read>(r: R) -> (b: DynRead<'d>) requires r.readable() ensures b.rest() == r.rest() { unimplemented!() }
}
impl<'d> Read for DynRead<'d> { uninterp spec fn rest(&self) -> Seq<u8>; open spec fn readable(&self) -> bool { true }
    #[verifier::external_body] fn read(&mut self, out: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() } }
pub trait VxDeref { spec fn dtext(&self) -> Seq<u8>; fn vx_deref(&self) -> (r: &str) ensures str_bytes(r) == self.dtext(); }
impl<'a> VxDeref for Cow<'a, str> { open spec fn dtext(&self) -> Seq<u8> { cow_str(*self) } #[verifier::external_body] fn vx_deref(&self) -> (r: &str) { unimplemented!() } }
pub uninterp spec fn cow_path<'a>(c: Cow<'a, Path>) -> &'a Path;
impl<'a> core::ops::Deref for Cow<'a, Path> { type Target = Path; #[verifier::external_body] fn deref(&self) -> (r: &Path) ensures *r == *cow_path(*self) { unimplemented!() } }
impl<'a> core::ops::Deref for Cow<'a, str> { type Target = str; #[verifier::external_body] fn deref(&self) -> (r: &str) ensures str_bytes(r) == cow_str(*self) { unimplemented!() } }

/// no allocation exceeds `isize::MAX` bytes
pub trait VxLen { spec fn bytes_len(&self) -> nat; fn vx_len(&self) -> (r: usize) ensures r == self.bytes_len(), r <= usize::MAX / 2; }
impl VxLen for String { open spec fn bytes_len(&self) -> nat { string_bytes(*self).len() } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } }
impl<T> VxLen for Vec<T> { open spec fn bytes_len(&self) -> nat { self@.len() } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } }
#[verifier::external_body] fn vx_str_slice<'x>(s: &'x String, a: usize, b: usize) -> (r: &'x str)
    requires a <= b, cut_ok(string_bytes(*s), a as int), cut_ok(string_bytes(*s), b as int)
    ensures str_bytes(r) == string_bytes(*s).subrange(a as int, b as int)
{ unimplemented!() }
// ---------- iteration over a vector's elements
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { v: Vec<T> }
impl<T> VxIter<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() }
    { unimplemented!() }
}
pub trait VxDrain<T> { fn vx_drain(&mut self, r: core::ops::RangeFull) -> VxIter<T>; }
impl<T> VxDrain<T> for Vec<T> { #[verifier::external_body] fn vx_drain(&mut self, r: core::ops::RangeFull) -> (it: VxIter<T>)
    ensures it.rest() == old(self)@, final(self)@.len() == 0 { unimplemented!() } }
fn vx_into_iter<T>(it: VxIter<T>) -> (r: VxIter<T>) ensures r == it { it }

//@rename-method io::copy vx_copy
//@rename-method as_bytes vx_as_bytes
//@rename-method comb:and_then Result
//@rename-method comb:map Option
//@rename-method into vx_into
//@rename-method drain vx_drain
//@rename-method push_str vx_push_str
//@rename-method format! content
//@rename-method &** deref
//@rename-method Box::new DynRead::new
//@rename-type Box<dyn Read + 'd> => DynRead<'d>
//@macros src/client/lazy.rs
//@source src/client/mod.rs
//@item const BOUNDARY_LEN
