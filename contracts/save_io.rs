// ---------- stand-ins: what std offers for saving
/// every string is valid UTF-8
pub axiom fn string_utf8(s: String) ensures is_utf8(string_bytes(s));
pub axiom fn utf8_concat(a: Seq<u8>, b: Seq<u8>) requires is_utf8(a) ensures is_utf8(a + b) <==> is_utf8(b);
pub axiom fn utf8_dead(a: Seq<u8>, b: Seq<u8>) requires dead_utf8(a), a.is_prefix_of(b) ensures !is_utf8(b);
pub axiom fn utf8_empty() ensures is_utf8(Seq::empty());
/// files and directories may be made
pub uninterp spec fn disk_ok() -> bool;
/// making or opening a file or directory failed with `e`
pub uninterp spec fn disk_error(e: io::Error) -> bool;
pub uninterp spec fn parent_of(p: Path) -> Option<Path>;
/// the directory was there or was made, with those above it
pub uninterp spec fn dir_made(p: Path) -> bool;
/// a file of that path can be made
pub open spec fn parent_made(p: Path) -> bool { match parent_of(p) { Some(d) => dir_made(d), None => true } }
/// `AsRef<Path>`
pub trait VxPath: Sized { spec fn pth(self) -> Path; }
impl VxPath for Path { open spec fn pth(self) -> Path { self } }
impl<'a, T: VxPath> VxPath for &'a T { open spec fn pth(self) -> Path { (*self).pth() } }
pub struct OpenOptions { pub read: bool, pub write: bool, pub append: bool, pub truncate: bool, pub create: bool, pub create_new: bool }
/// the path an open file was opened with, and how
pub uninterp spec fn file_path(id: int) -> Path;
pub uninterp spec fn file_opts(id: int) -> OpenOptions;
impl OpenOptions {
    pub fn new() -> (r: OpenOptions) ensures r == (OpenOptions { read: false, write: false, append: false, truncate: false, create: false, create_new: false })
    { OpenOptions { read: false, write: false, append: false, truncate: false, create: false, create_new: false } }
    pub fn write(&mut self, b: bool) -> (r: &mut OpenOptions) ensures *r == (OpenOptions { write: b, ..*old(self) }), *final(self) == *final(r) { self.write = b; self }
    pub fn create_new(&mut self, b: bool) -> (r: &mut OpenOptions) ensures *r == (OpenOptions { create_new: b, ..*old(self) }), *final(self) == *final(r) { self.create_new = b; self }
    pub fn create(&mut self, b: bool) -> (r: &mut OpenOptions) ensures *r == (OpenOptions { create: b, ..*old(self) }), *final(self) == *final(r) { self.create = b; self }
    pub fn append(&mut self, b: bool) -> (r: &mut OpenOptions) ensures *r == (OpenOptions { append: b, ..*old(self) }), *final(self) == *final(r) { self.append = b; self }
    pub fn truncate(&mut self, b: bool) -> (r: &mut OpenOptions) ensures *r == (OpenOptions { truncate: b, ..*old(self) }), *final(self) == *final(r) { self.truncate = b; self }
    pub fn read(&mut self, b: bool) -> (r: &mut OpenOptions) ensures *r == (OpenOptions { read: b, ..*old(self) }), *final(self) == *final(r) { self.read = b; self }
    #[verifier::external_body] pub fn clone(&self) -> (r: OpenOptions) ensures r == *self { unimplemented!() }
    /// the handle has written nothing yet
    #[verifier::external_body] pub fn open<P: VxPath>(&self, p: P) -> (r: io::Result<File>)
        requires disk_ok(), parent_made(p.pth())
        ensures r matches Ok(f) ==> f.out().len() == 0 && file_path(f.id()) == p.pth() && file_opts(f.id()) == *self, r matches Err(e) ==> disk_error(e) { unimplemented!() }
}
pub mod fs { use super::*;
    pub use super::File;
    /// only that directory, and only if it is not there
    #[verifier::external_body] pub fn create_dir<P: VxPath>(p: P) -> (r: io::Result<()>) requires disk_ok() { unimplemented!() }
    /// an empty one
    #[verifier::external_body] pub fn remove_dir<P: VxPath>(p: P) -> (r: io::Result<()>) requires may_remove(p.pth()) { unimplemented!() }
    #[verifier::external_body] pub fn remove_file<P: VxPath>(p: P) -> (r: io::Result<()>) requires may_remove(p.pth()) { unimplemented!() }
    #[verifier::external_body] pub fn create_dir_all<P: VxPath>(p: P) -> (r: io::Result<()>) requires disk_ok() ensures r is Ok ==> dir_made(p.pth()), r matches Err(e) ==> disk_error(e) { unimplemented!() }
}
impl Write for File {
    uninterp spec fn out(&self) -> Seq<u8>;
    uninterp spec fn broken(&self) -> bool;
    open spec fn infallible() -> bool { false }
    type Id = int; uninterp spec fn id(&self) -> int;
    uninterp spec fn patience(&self) -> nat;
    #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { unimplemented!() }
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body] fn vx_write_arg<T: VxDisplay + ?Sized>(&mut self, t: &T) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
}
impl Path {
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&Path>) ensures match r { Some(p) => parent_of(*self) == Some(*p), None => parent_of(*self) is None } { unimplemented!() }
    #[verifier::external_body] pub fn join<P>(&self, p: P) -> (r: Path) ensures r == path_join(*self, p) { unimplemented!() }
}
pub uninterp spec fn path_join<P>(d: Path, p: P) -> Path;
pub uninterp spec fn temp_dir_path() -> Path;
pub mod env { use super::*; #[verifier::external_body] pub fn temp_dir() -> (r: Path) ensures r == temp_dir_path() { unimplemented!() } }
pub trait VxExtend { fn vx_extend(&mut self, s: &[u8]); }
impl VxExtend for Vec<u8> { #[verifier::external_body] fn vx_extend(&mut self, s: &[u8]) ensures final(self)@ == old(self)@ + s@ { unimplemented!() } }
pub trait VxIntoBytes { fn vx_into_bytes(self) -> Vec<u8>; }
impl VxIntoBytes for String { #[verifier::external_body] fn vx_into_bytes(self) -> (r: Vec<u8>) ensures r@ == string_bytes(self) { unimplemented!() } }
fn vx_min_u64(a: u64, b: u64) -> (r: u64) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub open spec fn is_alnum(c: u8) -> bool { 48 <= c <= 57 || 65 <= c <= 90 || 97 <= c <= 122 }
/// `into()` where the bound on the parameter says what it makes
pub trait VxIntoU64: Sized { spec fn optional(self) -> Option<u64>; fn vx_into_u64(self) -> (r: Option<u64>) ensures r == self.optional(); }
impl VxIntoU64 for u64 { open spec fn optional(self) -> Option<u64> { Some(self) } fn vx_into_u64(self) -> (r: Option<u64>) { Some(self) } }
impl VxIntoU64 for Option<u64> { open spec fn optional(self) -> Option<u64> { self } fn vx_into_u64(self) -> (r: Option<u64>) { self } }
pub trait VxIntoU32: Sized { spec fn optional(self) -> Option<u32>; fn vx_into_u32(self) -> (r: Option<u32>) ensures r == self.optional(); }
impl VxIntoU32 for u32 { open spec fn optional(self) -> Option<u32> { Some(self) } fn vx_into_u32(self) -> (r: Option<u32>) { Some(self) } }
impl VxIntoU32 for Option<u32> { open spec fn optional(self) -> Option<u32> { self } fn vx_into_u32(self) -> (r: Option<u32>) { self } }
/// `std::io::BufReader`
#[verifier::external_body] #[verifier::reject_recursive_types(R)]
pub struct BufReader<R> { r: R }
impl<R: Read> BufReader<R> {
    #[verifier::external_body] pub fn new(r: R) -> (b: BufReader<R>) ensures b.readable(), b.rest() == r.rest() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize, r: R) -> (b: BufReader<R>) ensures b.readable(), b.rest() == r.rest() { unimplemented!() }
    #[verifier::external_body] pub fn capacity(&self) -> (n: usize) { unimplemented!() }
    #[verifier::external_body] pub fn buffer(&self) -> (r: &[u8]) ensures r@ == self.shown() { unimplemented!() }
    #[verifier::external_body] pub fn get_ref(&self) -> (r: &R) { unimplemented!() }
    /// (what reading `self` will yield is not known after this)
    #[verifier::external_body] pub fn get_mut(&mut self) -> (r: &mut R) { unimplemented!() }
}
/// `std::io::BufRead`, for data that was saved
pub trait StdBufRead: Read {
    /// what is in the buffer
    spec fn shown(&self) -> Seq<u8>;
    fn fill_buf(&mut self) -> (r: io::Result<&[u8]>)
        requires (*old(self)).readable()
        ensures (*final(self)).readable(), (*final(self)).rest() == (*old(self)).rest(),
            r matches Ok(b) ==> b@ == (*final(self)).shown() && b@.is_prefix_of((*old(self)).rest()) && (b@.len() == 0 ==> (*old(self)).rest().len() == 0);
    fn consume(&mut self, n: usize)
        requires (*old(self)).readable(), n <= (*old(self)).shown().len()
        ensures (*final(self)).readable(), (*final(self)).rest() == (*old(self)).rest().skip(n as int), (*final(self)).shown() == (*old(self)).shown().skip(n as int);
}
impl<R: Read> Read for BufReader<R> {
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn readable(&self) -> bool;
    #[verifier::external_body] fn read(&mut self, out: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() }
}
impl<R: Read> StdBufRead for BufReader<R> {
    uninterp spec fn shown(&self) -> Seq<u8>;
    #[verifier::external_body] fn fill_buf(&mut self) -> (r: io::Result<&[u8]>) { unimplemented!() }
    #[verifier::external_body] fn consume(&mut self, n: usize) { unimplemented!() }
}
impl<'a> StdBufRead for &'a [u8] {
    open spec fn shown(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn fill_buf(&mut self) -> (r: io::Result<&[u8]>) { unimplemented!() }
    #[verifier::external_body] fn consume(&mut self, n: usize) { unimplemented!() }
}
// ---------- directories; a `TempDir` that is dropped is removed with its contents, one that gave its path away is kept
#[verifier::external_body] #[derive(Debug)] pub struct TempDir { _p: () }
pub uninterp spec fn dir_path(t: TempDir) -> Path;
/// the temporary directory `t` was turned into a permanent one
pub uninterp spec fn kept(t: TempDir) -> bool;
/// the directory with its contents was removed by this
pub uninterp spec fn removed(p: Path) -> bool;
/// only a call that says so removes something
pub uninterp spec fn may_remove(p: Path) -> bool;
impl TempDir {
    #[verifier::external_body] pub fn path(&self) -> (r: &Path) ensures *r == dir_path(*self) { unimplemented!() }
    #[verifier::external_body] pub fn into_path(self) -> (r: Path) ensures r == dir_path(self), kept(self) { unimplemented!() }
    #[verifier::external_body] pub fn close(self) -> (r: io::Result<()>) requires may_remove(dir_path(self)) ensures r is Ok ==> removed(dir_path(self)) { unimplemented!() }
}
#[verifier::external_body] fn vx_path_new() -> (r: Path) { unimplemented!() }
#[verifier::external_body] fn vx_remove_dir_all<P: VxPath>(p: P) -> (r: io::Result<()>) requires may_remove(p.pth()) ensures r is Ok ==> removed(p.pth()) { unimplemented!() }
mod mem { use super::*;
    #[verifier::external_body] pub fn replace<T>(x: &mut T, y: T) -> (r: T) ensures r == *old(x), *final(x) == y { unimplemented!() }
}
