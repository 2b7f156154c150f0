// ---------- stand-ins used by the client units
/// UTF-8 of a string
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub open spec fn str_bytes(s: &str) -> Seq<u8> { utf8(s@) }
pub uninterp spec fn path_content(p: &Path) -> Seq<u8>;
pub uninterp spec fn path_filename(p: &Path) -> Option<&str>;
pub uninterp spec fn path_guess(p: &Path) -> Option<Mime>;
/// any conversion of one type into another (`From`, `Into`)
pub uninterp spec fn conv<A, B>(a: A) -> B;

pub trait VxDisplay { spec fn text(&self) -> Seq<u8>; }
pub trait VxStr { spec fn sb(&self) -> Seq<u8>;
    fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == self.sb(); }
impl VxStr for str { open spec fn sb(&self) -> Seq<u8> { str_bytes(self) }
    #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
impl VxStr for String { open spec fn sb(&self) -> Seq<u8> { utf8(self@) }
    #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
impl<'a> VxStr for Cow<'a, str> { open spec fn sb(&self) -> Seq<u8> { cow_str(*self) }
    #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
impl VxDisplay for String { open spec fn text(&self) -> Seq<u8> { string_bytes(*self) } }
impl VxDisplay for str { open spec fn text(&self) -> Seq<u8> { str_bytes(self) } }
impl<'a, T: VxDisplay + ?Sized> VxDisplay for &'a T { open spec fn text(&self) -> Seq<u8> { (**self).text() } }

pub trait Write: Sized {
    /// all the bytes this sink has accepted
    spec fn out(&self) -> Seq<u8>;
    /// a write, or the source that was copied into this sink, failed
    spec fn broken(&self) -> bool;
    /// writing never fails
    spec fn infallible() -> bool;
    /// which sink this is
    type Id;
    spec fn id(&self) -> Self::Id;
    /// how many more times an interruption may be reported before something else
    spec fn patience(&self) -> nat;
    fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>)
        ensures match r { Ok(n) => n <= buf@.len() && final(self).out() == old(self).out() + buf@.take(n as int) && final(self).broken() == old(self).broken(),
            Err(e) => final(self).out() == old(self).out() && final(self).broken() && (io::kind_of(e) == io::ErrorKind::Interrupted ==> final(self).patience() < old(self).patience()) },
            final(self).id() == old(self).id(), final(self).patience() <= old(self).patience(),
            Self::infallible() ==> r is Ok && r->Ok_0 == buf@.len();
    /// flushing writes nothing
    fn flush(&mut self) -> (r: io::Result<()>)
        ensures final(self).id() == old(self).id(), final(self).out() == old(self).out(), match r { Ok(_) => final(self).broken() == old(self).broken(), Err(_) => final(self).broken() },
            final(self).patience() <= old(self).patience(), Self::infallible() ==> r is Ok;
    fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>)
        ensures final(self).id() == old(self).id(), match r { Ok(_) => final(self).out() == old(self).out() + buf@ && final(self).broken() == old(self).broken(),
            Err(_) => final(self).broken() },
            Self::infallible() ==> r is Ok;
    fn vx_write_arg<T: VxDisplay + ?Sized>(&mut self, t: &T) -> (r: io::Result<()>)
        ensures final(self).id() == old(self).id(), match r { Ok(_) => final(self).out() == old(self).out() + t.text() && final(self).broken() == old(self).broken(),
            Err(_) => final(self).broken() },
            Self::infallible() ==> r is Ok;
}
impl Write for Vec<u8> {
    open spec fn out(&self) -> Seq<u8> { self@ }
    open spec fn broken(&self) -> bool { false }
    open spec fn infallible() -> bool { true }
    type Id = (); open spec fn id(&self) -> () { () }
    open spec fn patience(&self) -> nat { 0 }
    #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { unimplemented!() }
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body] fn vx_write_arg<T: VxDisplay + ?Sized>(&mut self, t: &T) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
}
#[verifier::external_body]
fn vx_copy<R: Read, W: Write>(r: &mut R, w: &mut W) -> (n: io::Result<u64>)
    requires old(r).readable()
    ensures final(w).id() == old(w).id(), match n { Ok(n) => final(w).out() == old(w).out() + old(r).rest() && n == old(r).rest().len() && final(r).rest().len() == 0 && final(w).broken() == old(w).broken(),
        Err(_) => final(w).broken() }
{ unimplemented!() }

#[verifier::external_body] pub struct Path { _p: () }
#[verifier::external_body] pub struct File { _p: () }
impl Read for File { uninterp spec fn rest(&self) -> Seq<u8>; open spec fn readable(&self) -> bool { true }
    #[verifier::external_body] fn read(&mut self, out: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() } }
pub struct Metadata { pub len: u64 }
impl Metadata { pub fn len(&self) -> (r: u64) ensures r == self.len { self.len } }
impl File {
    #[verifier::external_body] pub fn open(p: &Path) -> (r: io::Result<File>) ensures r matches Ok(f) ==> f.rest() == path_content(p) { unimplemented!() }
    /// the file is not changed while it is being sent
    #[verifier::external_body] pub fn metadata(&self) -> (r: io::Result<Metadata>) ensures r matches Ok(m) ==> m.len == self.rest().len() { unimplemented!() }
}
#[verifier::external_body] pub struct OsStr { _p: () }
pub uninterp spec fn os_str(s: &OsStr) -> Option<&str>;
pub uninterp spec fn path_last(p: &Path) -> Option<&OsStr>;
impl OsStr { #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r == os_str(self) { unimplemented!() } }
#[verifier::external_body] pub struct PathDisplay<'a> { p: &'a Path }
impl<'a> VxDisplay for PathDisplay<'a> { uninterp spec fn text(&self) -> Seq<u8>; }
impl Path {
    #[verifier::external_body] pub fn metadata(&self) -> (r: io::Result<Metadata>) ensures r matches Ok(m) ==> m.len == path_content(self).len() { unimplemented!() }
    /// of a link, where the path names one
    #[verifier::external_body] pub fn symlink_metadata(&self) -> (r: io::Result<Metadata>) { unimplemented!() }
    #[verifier::external_body] pub fn display<'a>(&'a self) -> (r: PathDisplay<'a>) { unimplemented!() }
    #[verifier::external_body] pub fn file_stem(&self) -> (r: Option<&OsStr>) { unimplemented!() }
    #[verifier::external_body] pub fn extension(&self) -> (r: Option<&OsStr>) { unimplemented!() }
    #[verifier::external_body] pub fn as_os_str(&self) -> (r: &OsStr) { unimplemented!() }
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&OsStr>) ensures r == path_last(self) { unimplemented!() }
}
pub struct Mime { pub id: u64 }
pub uninterp spec fn mime_text(m: Mime) -> Seq<u8>;
impl VxDisplay for Mime { open spec fn text(&self) -> Seq<u8> { mime_text(*self) } }
pub mod mime { use vstd::prelude::*; use super::*;
    pub const APPLICATION_OCTET_STREAM: Mime = Mime { id: 0 };
    pub const TEXT_PLAIN: Mime = Mime { id: 1 };
    pub const TEXT_PLAIN_UTF_8: Mime = Mime { id: 2 };
    pub const CHARSET: MimeName = MimeName { id: 4 };
    pub const UTF_8: MimeName = MimeName { id: 5 };
    pub const PLAIN: MimeName = MimeName { id: 6 };
    pub const TEXT: MimeName = MimeName { id: 0 };
    pub const MULTIPART: MimeName = MimeName { id: 1 };
    pub const FORM_DATA: MimeName = MimeName { id: 2 };
    pub const BOUNDARY: MimeName = MimeName { id: 3 };
}
#[derive(PartialEq, Eq, Structural)]
pub struct MimeName { pub id: u64 }
pub uninterp spec fn mime_type(m: Mime) -> MimeName;
pub uninterp spec fn mime_param(m: Mime, n: MimeName) -> Option<MimeName>;
pub uninterp spec fn mime_subtype(m: Mime) -> MimeName;
impl Mime {
    #[verifier::external_body] pub fn type_(&self) -> (r: MimeName) ensures r == mime_type(*self) { unimplemented!() }
    #[verifier::external_body] pub fn get_param(&self, n: MimeName) -> (r: Option<MimeName>) ensures r == mime_param(*self, n) { unimplemented!() }
    #[verifier::external_body] pub fn subtype(&self) -> (r: MimeName) ensures r == mime_subtype(*self) { unimplemented!() }
}
#[verifier::external_body] pub struct MimeGuess { _p: () }
pub uninterp spec fn guess_of(g: MimeGuess) -> Option<Mime>;
impl MimeGuess {
    #[verifier::external_body] pub fn first_or_octet_stream(&self) -> (r: Mime) ensures r == match guess_of(*self) { Some(m) => m, None => mime::APPLICATION_OCTET_STREAM } { unimplemented!() }
    #[verifier::external_body] pub fn first_or_text_plain(&self) -> (r: Mime) ensures r == match guess_of(*self) { Some(m) => m, None => mime::TEXT_PLAIN } { unimplemented!() }
    #[verifier::external_body] pub fn first_or(&self, d: Mime) -> (r: Mime) ensures r == match guess_of(*self) { Some(m) => m, None => d } { unimplemented!() }
    #[verifier::external_body] pub fn first(&self) -> (r: Option<Mime>) ensures r == guess_of(*self) { unimplemented!() }
}
pub mod mime_guess { use vstd::prelude::*; use super::*;
    #[verifier::external_body] pub fn from_path<P: VxGuessFrom>(p: P) -> (r: MimeGuess) ensures guess_of(r) == p.guessed() { unimplemented!() }
}
pub trait VxGuessFrom: Sized { spec fn guessed(self) -> Option<Mime>; }
impl<'a> VxGuessFrom for &'a Path { open spec fn guessed(self) -> Option<Mime> { path_guess(self) } }
impl<'a> VxGuessFrom for &'a str { uninterp spec fn guessed(self) -> Option<Mime>; }
pub trait AsRef<T: ?Sized> { spec fn as_ref_spec(&self) -> &T; fn as_ref(&self) -> (r: &T) ensures r == self.as_ref_spec(); }
impl<A, B> Into<B> for A {
    open spec fn into_spec(self) -> B { conv(self) }
    #[verifier::external_body] fn into(self) -> (r: B) { unimplemented!() }
}
pub trait VxInto: Sized {
    fn vx_into<B>(self) -> (r: B) ensures r == conv::<Self, B>(self);
}
impl<A> VxInto for A { #[verifier::external_body] fn vx_into<B>(self) -> (r: B) { unimplemented!() } }
#[verifier::external_body] fn vx_conv<A, B>(a: A) -> (r: B) ensures r == conv::<A, B>(a) { unimplemented!() }
pub open spec fn string_bytes(s: String) -> Seq<u8> { utf8(s@) }
/// conversions between kinds of strings keep the text
pub broadcast axiom fn conv_string<'a>(s: String) ensures #[trigger] cow_str(conv::<String, Cow<'a, str>>(s)) == string_bytes(s);
pub broadcast axiom fn conv_str<'a>(s: &'a str) ensures #[trigger] cow_str(conv::<&'a str, Cow<'a, str>>(s)) == str_bytes(s);
#[verifier::external_body] #[verifier::reject_recursive_types(B)]
pub struct Cow<'a, B: ?Sized> { p: core::marker::PhantomData<&'a B> }
pub uninterp spec fn cow_str<'a>(c: Cow<'a, str>) -> Seq<u8>;
impl<'a> VxDisplay for Cow<'a, str> { open spec fn text(&self) -> Seq<u8> { cow_str(*self) } }
pub broadcast axiom fn conv_same<A>(a: A) ensures #[trigger] conv::<A, A>(a) == a;
pub trait VxClear { spec fn cleared(&self) -> bool; fn vx_clear(&mut self) ensures final(self).cleared(); }
impl VxClear for Vec<u8> { open spec fn cleared(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vx_clear(&mut self) { unimplemented!() } }
impl VxClear for String { open spec fn cleared(&self) -> bool { string_bytes(*self).len() == 0 } #[verifier::external_body] fn vx_clear(&mut self) { unimplemented!() } }
pub trait VxPushStr { fn vx_push_str(&mut self, s: &str); }
pub broadcast axiom fn utf8_append(a: Seq<char>, b: Seq<char>) ensures #[trigger] utf8(a + b) == utf8(a) + utf8(b);
impl VxPushStr for String { #[verifier::external_body] fn vx_push_str(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() } }
pub trait VxPushLit { fn vx_push_lit(&mut self, s: &[u8]); }
impl VxPushLit for String { #[verifier::external_body] fn vx_push_lit(&mut self, s: &[u8]) ensures string_bytes(*final(self)) == string_bytes(*old(self)) + s@ { unimplemented!() } }
#[verifier::external_body] fn vx_string() -> (r: String) ensures string_bytes(r).len() == 0 { unimplemented!() }
#[verifier::external_body] fn vx_cat_lit(s: String, l: &[u8]) -> (r: String) ensures string_bytes(r) == string_bytes(s) + l@ { unimplemented!() }
#[verifier::external_body] fn vx_cat_arg<T: VxDisplay + ?Sized>(s: String, t: &T) -> (r: String) ensures string_bytes(r) == string_bytes(s) + t.text() { unimplemented!() }
