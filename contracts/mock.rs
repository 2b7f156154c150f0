use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include std_io.rs
//@include client_io.rs
//@include text_str.rs
//@include client_spec.rs
//@include client_req.rs
//@rename-method into vx_into
//@rename-method gen_range vx_gen_range
// ---------- stand-ins
#[verifier::external_body] pub struct ThreadRng { _p: () }
pub mod rand { use super::*;
    #[verifier::external_body] pub fn thread_rng() -> ThreadRng { unimplemented!() }
}
impl ThreadRng {
    /// any number of the range
    #[verifier::external_body] pub fn vx_gen_range(&mut self, r: core::ops::RangeInclusive<usize>) -> (n: usize)
        requires r@.start <= r@.end, !r@.exhausted ensures r@.start <= n <= r@.end { unimplemented!() }
}
#[verifier::external_body] pub struct StdoutLock<'s> { _p: core::marker::PhantomData<&'s u8> }
#[verifier::external_body] pub struct Stdout { _p: () }
impl Stdout { #[verifier::external_body] pub fn lock<'s>(&'s self) -> (r: StdoutLock<'s>) { unimplemented!() } }
impl<'s> Write for StdoutLock<'s> {
    uninterp spec fn out(&self) -> Seq<u8>;
    uninterp spec fn broken(&self) -> bool;
    open spec fn infallible() -> bool { false }
    type Id = int; uninterp spec fn id(&self) -> int;
    uninterp spec fn patience(&self) -> nat;
    #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { unimplemented!() }
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body] fn vx_write_arg<T: VxDisplay + ?Sized>(&mut self, t: &T) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
}
//@rename-type io::StdoutLock<'s> => StdoutLock<'s>
//@rename-type io::Stdout => Stdout
pub broadcast axiom fn conv_to_string<'a>(s: &'a str) ensures #[trigger] string_bytes(conv::<&'a str, String>(s)) == str_bytes(s);
//@macros src/mock.rs
//@source src/mock.rs
//@item struct ClientRequest
//@item struct HttpBuffer
//@item struct ServerRequest
//@item struct StdoutTee

impl HttpBuffer {
//@fn HttpBuffer::new_empty
//@sig fn new_empty(boundary: String, content_len: Option<u64>) -> HttpBuffer
    ensures r.buf@.len() == 0, r.boundary == boundary, r.content_len == content_len
//@end
//@fn HttpBuffer::with_buf
//@sig fn with_buf(buf: Vec<u8>, boundary: String, content_len: Option<u64>) -> Self
    ensures r.buf == buf, r.boundary == boundary, r.content_len == content_len
//@end
//@fn HttpBuffer::for_server
//@sig fn for_server(&self) -> ServerRequest
    ensures r.data@ == self.buf@, str_bytes(r.boundary) == string_bytes(self.boundary), r.content_len == self.content_len
//@end
}
impl Write for HttpBuffer {
    closed spec fn out(&self) -> Seq<u8> { self.buf@ }
    closed spec fn broken(&self) -> bool { false }
    closed spec fn infallible() -> bool { false }
    type Id = (Seq<u8>, Option<u64>);
    closed spec fn id(&self) -> (Seq<u8>, Option<u64>) { (string_bytes(self.boundary), self.content_len) }
    closed spec fn patience(&self) -> nat { 0 }
//@fn Write for HttpBuffer::write
//@sig fn write(&mut self, buf: &[u8]) -> io::Result<usize>
    ensures r matches Ok(n) && (n == 0 ==> buf@.len() == 0)
//@end
    // the library's loop over `write`
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body] fn vx_write_arg<T: VxDisplay + ?Sized>(&mut self, t: &T) -> (r: io::Result<()>) { unimplemented!() }
//@fn Write for HttpBuffer::flush
//@sig fn flush(&mut self) -> io::Result<()>
    ensures r is Ok
//@end
}
impl<'a> ServerRequest<'a> {
//@fn ServerRequest::new
//@sig fn new(data: &'a [u8], boundary: &'a str) -> Self
    ensures r.data == data, r.boundary == boundary, r.content_len is None
//@end
//@fn Read for ServerRequest::read
//@sig fn read(&mut self, out: &mut [u8]) -> io::Result<usize>
    ensures r matches Ok(n) && n <= old(out)@.len() && n <= old(self).data@.len() && final(self).data@ == old(self).data@.skip(n as int)
        && final(out)@ == old(self).data@.take(n as int) + old(out)@.skip(n as int) && (n == 0 ==> old(out)@.len() == 0 || old(self).data@.len() == 0),
        final(self).boundary == old(self).boundary
//@end
}
impl<'a> ServerRequest<'a> {
//@fn HttpRequest for ServerRequest::multipart_boundary
//@sig fn multipart_boundary(&self) -> Option<&str>
    ensures r == Some(self.boundary)
//@end
//@fn HttpRequest for ServerRequest::body
//@rename use-baseline-sig 1
//@sig fn body(self) -> Self
    ensures r == self
//@end
}
impl<'s, W: Write> StdoutTee<'s, W> {
//@fn StdoutTee::new
//@sig fn new(inner: W, stdout: &'s Stdout) -> Self
    ensures r.inner == inner
//@end
//@fn Write for StdoutTee::write
//@sig fn write(&mut self, buf: &[u8]) -> io::Result<usize>
    ensures r matches Ok(n) ==> n == buf@.len() && final(self).inner.out() == old(self).inner.out() + buf@ && final(self).stdout.out() == old(self).stdout.out() + buf@
//@end
//@fn Write for StdoutTee::flush
//@sig fn flush(&mut self) -> io::Result<()>
    ensures final(self).inner.out() == old(self).inner.out(), r is Ok ==> final(self).inner.broken() == old(self).inner.broken()
//@end
}
impl HttpRequest for ClientRequest {
    type Stream = HttpBuffer;
    type Error = io::Error;
    closed spec fn announces(&self, before: &Self, b: Seq<u8>, n: Option<u64>) -> bool { (self.boundary matches Some(x) && string_bytes(x) == b) && self.content_len == n }
    closed spec fn ready(&self) -> bool { self.boundary is Some }
    closed spec fn opened(self, s: HttpBuffer) -> bool { Some(s.boundary) == self.boundary && s.content_len == self.content_len }
//@fn HttpRequest for ClientRequest::apply_headers
//@sig fn apply_headers(&mut self, boundary: &str, content_len: Option<u64>) -> bool
    ensures r
//@prologue
broadcast use conv_to_string;
//@end
//@fn HttpRequest for ClientRequest::open_stream
//@sig fn open_stream(self) -> Result<HttpBuffer, io::Error>
    ensures r is Ok
//@end
}
impl HttpStream for HttpBuffer {
    type Response = HttpBuffer;
    type Error = io::Error;
    closed spec fn answers(self, x: HttpBuffer) -> bool { x == self }
//@fn HttpStream for HttpBuffer::finish
//@sig fn finish(self) -> Result<Self, io::Error>
    ensures r is Ok
//@end
}
}
fn main() {}
