// ---------- stand-ins
#[derive(PartialEq, Eq, Structural)]
pub enum IoErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other }
pub mod io {
    use vstd::prelude::*;
    pub use super::IoErrorKind as ErrorKind;
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct Error { _p: () }
    pub uninterp spec fn from_source(e: Error) -> bool;
    /// `e` was made around `cause`
    pub uninterp spec fn wraps<E>(e: Error, cause: E) -> bool;
    pub uninterp spec fn kind_of(e: Error) -> ErrorKind;
    impl Error {
        #[verifier::external_body]
        pub fn new<E>(kind: ErrorKind, e: E) -> (r: Error) ensures !from_source(r), kind_of(r) == kind, wraps(r, e) { unimplemented!() }
        #[verifier::external_body]
        pub fn kind(&self) -> (r: ErrorKind) ensures r == kind_of(*self) { unimplemented!() }
    }
    pub type Result<T> = core::result::Result<T, Error>;
    /// `std::io::Empty`: a source that is at its end
    #[verifier::external_body] pub struct Empty { _p: () }
    #[verifier::external_body] pub fn empty() -> (r: Empty) { unimplemented!() }
}
impl Read for io::Empty { open spec fn rest(&self) -> Seq<u8> { Seq::empty() } open spec fn readable(&self) -> bool { true }
    #[verifier::external_body] fn read(&mut self, out: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() } }
pub trait Read: Sized {
    /// the bytes that reading will yield
    spec fn rest(&self) -> Seq<u8>;
    /// the reader's own invariant
    spec fn readable(&self) -> bool;
    fn read(&mut self, out: &mut [u8]) -> (r: io::Result<usize>)
        requires old(self).readable()
        ensures final(self).readable(), final(out)@.len() == old(out)@.len(), r is Err ==> (*final(self)).rest() == old(self).rest(), r matches Ok(n) ==> n <= old(out)@.len() && n <= old(self).rest().len()
            && (*final(self)).rest() == old(self).rest().skip(n as int)
            && final(out)@ == old(self).rest().take(n as int) + old(out)@.skip(n as int)
            && (n == 0 ==> old(out)@.len() == 0 || old(self).rest().len() == 0);
}
impl<'a> Read for &'a [u8] {
    open spec fn rest(&self) -> Seq<u8> { self@ }
    open spec fn readable(&self) -> bool { true }
    #[verifier::external_body]
    fn read(&mut self, out: &mut [u8]) -> (r: io::Result<usize>) 
     ensures r is Ok, r->Ok_0 == if old(self)@.len() < old(out)@.len() { old(self)@.len() } else { old(out)@.len() }
    { unimplemented!() }
}
pub trait Into<T>: Sized {
    spec fn into_spec(self) -> T;
    fn into(self) -> (r: T) ensures r == self.into_spec();
}
pub mod cmp { use vstd::prelude::*;
  pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
  pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } } }

pub trait VxBytes { spec fn vb(&self) -> Seq<u8>; 
  fn vx_eq(&self, o: &[u8]) -> (r: bool) ensures r == (self.vb() =~= o@);
  fn vx_starts_with(&self, o: &[u8]) -> (r: bool) ensures r == o@.is_prefix_of(self.vb());
}
impl VxBytes for [u8] { open spec fn vb(&self) -> Seq<u8> { self@ }
  #[verifier::external_body] fn vx_eq(&self, o: &[u8]) -> (r: bool) { unimplemented!() } 
  #[verifier::external_body] fn vx_starts_with(&self, o: &[u8]) -> (r: bool) { unimplemented!() } }
impl VxBytes for Vec<u8> { open spec fn vb(&self) -> Seq<u8> { self@ }
  #[verifier::external_body] fn vx_eq(&self, o: &[u8]) -> (r: bool) { unimplemented!() } 
  #[verifier::external_body] fn vx_starts_with(&self, o: &[u8]) -> (r: bool) { unimplemented!() } }
fn vx_debug_assert(b: bool) requires b {}
fn vx_use<T: ?Sized>(t: &T) {}
#[verifier::external_body]
fn vx_format() -> String { unimplemented!() }

/// either value: `cfg!(..)` depends on the build
#[verifier::external_body]
fn vx_nondet_bool() -> bool { unimplemented!() }
/// `panic!`, `unreachable!`: must be shown unreachable
#[verifier::external_body]
fn vx_panic() -> !
    requires false
{ unimplemented!() }
#[verifier::external_body] fn vx_vec<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }
