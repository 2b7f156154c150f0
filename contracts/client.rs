use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include std_io.rs
//@include client_io.rs
//@include text_str.rs
//@include client_spec.rs
//@include client_req.rs
//@rename-method io::copy vx_copy
//@rename-method as_bytes vx_as_bytes
//@rename-method comb:and_then Result
//@rename-method into vx_into
//@rename-method clear vx_clear
//@rename-method push_str vx_push_str
//@rename-method io::Error::into vx_conv
//@rename-method comb:map Option
//@macros src/lib.rs
//@source src/client/mod.rs
//@item const BOUNDARY_LEN
//@item struct MultipartWriter
//@item struct Multipart

impl<'a, W: Write> MultipartWriter<'a, W> {
    spec fn b(&self) -> Seq<u8> { cow_str(self.boundary) }
    /// after the bytes `pre`, exactly these parts were written
    spec fn wrote(&self, pre: Seq<u8>, ps: Seq<Part>) -> bool {
        self.inner.out() == pre + framed(self.b(), ps) && self.data_written == (ps.len() > 0)
    }
    /// `p` was written after the parts of `o`
    spec fn grew(&self, o: &Self, p: Part) -> bool {
        &&& self.data_written && self.b() == o.b() && self.inner.broken() == o.inner.broken() && self.inner.id() == o.inner.id()
        &&& self.inner.out() == o.inner.out() + o.sep() + part(self.b(), p)
    }
    spec fn sep(&self) -> Seq<u8> { if self.data_written { crlf() } else { Seq::<u8>::empty() } }
    /// writing a part extends the sequence of parts by exactly that one
    proof fn grew_wrote(&self, o: &Self, p: Part, pre: Seq<u8>, ps: Seq<Part>)
        requires self.grew(o, p), o.wrote(pre, ps)
        ensures self.wrote(pre, ps.push(p))
    { framed_push(self.b(), ps, p); assert(pre + framed(self.b(), ps) + o.sep() + part(self.b(), p) =~= pre + (framed(self.b(), ps) + o.sep() + part(self.b(), p))); }

//@fn MultipartWriter::new
//@sig fn new<B: Into<Cow<'a, str>>>(inner: W, boundary: B) -> Self
        ensures r.inner == inner, r.b() == cow_str(conv::<B, Cow<'a, str>>(boundary)), r.wrote(inner.out(), Seq::<Part>::empty())
//@prologue
proof { assert(inner.out() + Seq::<u8>::empty() =~= inner.out()); }
//@end

//@fn MultipartWriter::write_boundary
//@sig fn write_boundary(&mut self) -> io::Result<()>
        ensures match r {
            Ok(_) => final(self).inner.out() == line_on(old(self).inner.out() + old(self).sep(), old(self).b()) && final(self).inner.broken() == old(self).inner.broken(),
            Err(_) => final(self).inner.broken() },
          final(self).data_written == old(self).data_written, final(self).boundary == old(self).boundary, final(self).inner.id() == old(self).inner.id()
//@prologue
broadcast use add_empty, empty_add; 
//@end

//@fn MultipartWriter::write_text
//@sig fn write_text(&mut self, name: &str, text: &str) -> io::Result<()>
        ensures match r { Ok(_) => final(self).grew(old(self), text_part(ss(name), ss(text))), Err(_) => final(self).inner.broken() }
//@prologue
broadcast use add_empty, empty_add; proof { part_is(old(self).inner.out() + old(self).sep(), old(self).b(), ss(name), None, None); }
//@end

//@fn MultipartWriter::write_file
//@sig fn write_file(&mut self, name: &str, path: &Path) -> io::Result<()>
        ensures r is Ok ==> final(self).grew(old(self), file_part(ss(name), path))
//@end

//@fn MultipartWriter::write_stream
//@sig fn write_stream<S: Read>(&mut self, stream: &mut S, name: &str, filename: Option<&str>, content_type: Option<Mime>) -> io::Result<()>
        requires old(stream).readable()
        ensures match r { Ok(_) => final(self).grew(old(self), stream_part(ss(name), opt_ss(filename), content_type, old(stream).rest())), Err(_) => final(self).inner.broken() }
//@prologue
broadcast use add_empty, empty_add, part_data; proof { part_is(old(self).inner.out() + old(self).sep(), old(self).b(), ss(name), opt_ss(filename), opt_mime(content_type)); }
//@end

//@fn MultipartWriter::write_field_headers
//@sig fn write_field_headers(&mut self, name: &str, filename: Option<&str>, content_type: Option<Mime>) -> io::Result<()>
        ensures match r {
            Ok(_) => final(self).grew(old(self), Part { name: ss(name), filename: opt_ss(filename), ctype: opt_mime(content_type), data: Seq::<u8>::empty() }),
            Err(_) => final(self).inner.broken() }
//@prologue
broadcast use add_empty, empty_add; proof { part_is(old(self).inner.out() + old(self).sep(), old(self).b(), ss(name), opt_ss(filename), opt_mime(content_type)); }
//@end

//@fn MultipartWriter::finish
//@sig fn finish(self) -> io::Result<W>
        ensures r matches Ok(w) ==> w.out() == self.inner.out() + self.sep() + closing(self.b()) && w.broken() == self.inner.broken() && w.id() == self.inner.id()
//@prologue
broadcast use g_add; proof { }
//@end
}

//@include client_fns.rs
//@fn open_stream
//@rename comb:map Result
//@sig fn open_stream<R: HttpRequest>(req: R, content_len: Option<u64>) -> Result<(String, R::Stream), R::Error>
    ensures r matches Ok((b, s)) ==> string_bytes(b).len() == 16 && (forall|i: int| 0 <= i < 16 ==> is_alnum(#[trigger] string_bytes(b)[i]))
        && s.out().len() == 0 && !s.broken()
        && exists|q: R| q.announces(&req, string_bytes(b), content_len) && #[trigger] q.opened(s)
//@end

impl Multipart<()> {
//@fn Multipart::from_request
//@sig fn from_request<R: HttpRequest>(req: R) -> Result<Multipart<R::Stream>, R::Error>
    ensures r matches Ok(m) ==> m.writer.b().len() == 16 && (forall|i: int| 0 <= i < 16 ==> is_alnum(#[trigger] m.writer.b()[i]))
        && m.writer.wrote(Seq::<u8>::empty(), Seq::<Part>::empty()) && !m.writer.inner.broken()
        && exists|q: R| q.announces(&req, m.writer.b(), None::<u64>) && #[trigger] q.opened(m.writer.inner)
//@prologue
broadcast use conv_string;
//@end
}

impl<S: HttpStream> Multipart<S> {
//@fn Multipart::write_text
//@sig fn write_text<N: AsRef<str>, V: AsRef<str>>(&mut self, name: N, val: V) -> Result<&mut Self, S::Error>
    ensures match r { Ok(m) => (*m).writer.grew(&old(self).writer, text_part(ss(name.as_ref_spec()), ss(val.as_ref_spec()))) && *final(m) == *final(self), Err(_) => final(self).writer.inner.broken() }
//@end
//@fn Multipart::write_file
//@sig fn write_file<N: AsRef<str>, P: AsRef<Path>>(&mut self, name: N, path: P) -> Result<&mut Self, S::Error>
    ensures r matches Ok(m) ==> (*m).writer.grew(&old(self).writer, file_part(ss(name.as_ref_spec()), path.as_ref_spec())) && *final(m) == *final(self)
//@end
//@fn Multipart::write_stream
//@sig fn write_stream<N: AsRef<str>, St: Read>(&mut self, name: N, stream: &mut St, filename: Option<&str>, content_type: Option<Mime>) -> Result<&mut Self, S::Error>
    requires old(stream).readable()
    ensures match r { Ok(m) => (*m).writer.grew(&old(self).writer, stream_part(ss(name.as_ref_spec()), opt_ss(filename), content_type, old(stream).rest())) && *final(m) == *final(self), Err(_) => final(self).writer.inner.broken() }
//@end
//@fn Multipart::send
//@sig fn send(self) -> Result<S::Response, S::Error>
    requires !self.writer.inner.broken()
    ensures forall|pre: Seq<u8>, ps: Seq<Part>| #![auto] self.writer.wrote(pre, ps) && r is Ok ==> exists|s: S| #[trigger] s.answers(r->Ok_0) && s.id() == self.writer.inner.id() && s.out() == pre + body(self.writer.b(), ps)
//@prologue
broadcast use g_add; proof { }
//@end
}

//@source src/client/sized.rs
//@item struct SizedRequest
impl<R> SizedRequest<R> {
    spec fn bound(&self) -> Seq<u8> { string_bytes(self.boundary) }
}
impl<R: HttpRequest> SizedRequest<R> {
//@fn SizedRequest::from_request
//@sig fn from_request(req: R) -> SizedRequest<R>
    ensures r.inner == req, r.buffer@.len() == 0
//@end
}
impl<R: HttpRequest> Write for SizedRequest<R> {
    closed spec fn out(&self) -> Seq<u8> { self.buffer@ }
    closed spec fn broken(&self) -> bool { false }
    closed spec fn infallible() -> bool { true }
    type Id = (Seq<u8>, R);
    closed spec fn id(&self) -> (Seq<u8>, R) { (self.bound(), self.inner) }
    closed spec fn patience(&self) -> nat { 0 }
//@fn Write for SizedRequest::write
//@sig fn write(&mut self, data: &[u8]) -> io::Result<usize>
    ensures r matches Ok(n) && n == data@.len()
//@prologue
proof { assert(data@.take(data@.len() as int) =~= data@); }
//@end
    // the library's loop over `write`
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body] fn vx_write_arg<T: VxDisplay + ?Sized>(&mut self, t: &T) -> (r: io::Result<()>) { unimplemented!() }
//@fn Write for SizedRequest::flush
//@sig fn flush(&mut self) -> io::Result<()>
//@end
}
impl<R: HttpRequest> HttpRequest for SizedRequest<R> where <R::Stream as HttpStream>::Error: From<R::Error> {
    type Stream = Self;
    type Error = R::Error;
    closed spec fn announces(&self, before: &Self, b: Seq<u8>, n: Option<u64>) -> bool { self.bound() == b && self.inner == before.inner && self.buffer == before.buffer }
    closed spec fn ready(&self) -> bool { true }
    closed spec fn opened(self, s: Self) -> bool { s.boundary == self.boundary && s.inner == self.inner }
//@fn HttpRequest for SizedRequest::apply_headers
//@sig fn apply_headers(&mut self, boundary: &str, _content_len: Option<u64>) -> bool
    ensures r
//@prologue
broadcast use utf8_append, empty_add, add_empty;
proof { assert forall|x: Seq<u8>| x.len() == 0 implies #[trigger] (x + ss(boundary)) =~= ss(boundary) by {} }
//@end
//@fn HttpRequest for SizedRequest::open_stream
//@sig fn open_stream(self) -> Result<Self, Self::Error>
    ensures r is Ok
//@end
}
impl<R: HttpRequest> HttpStream for SizedRequest<R> where <R::Stream as HttpStream>::Error: From<R::Error> {
    type Response = <<R as HttpRequest>::Stream as HttpStream>::Response;
    type Error = <<R as HttpRequest>::Stream as HttpStream>::Error;
    /// the request inside announced the boundary and the length of what was buffered, and carried it
    closed spec fn answers(self, x: Self::Response) -> bool {
        exists|q: R, s0: R::Stream, s: R::Stream| q.announces(&self.inner, self.bound(), Some(self.buffer@.len() as u64))
            && #[trigger] q.opened(s0) && s.out() == self.buffer@ && #[trigger] s.answers(x)
    }
//@fn HttpStream for SizedRequest::finish
//@rename ? conv
//@sig fn finish(self) -> Result<Self::Response, Self::Error>
//@prologue
broadcast use zero_add; proof { let b = self.buffer@; assert(b.subrange(0, b.len() as int) =~= b); assert(b.skip(0) =~= b); assert forall|x: Seq<u8>| x.len() == 0 implies #[trigger] (x + b) == b by { zero_add(x, b); } }
//@end
}
//@source src/client/mod.rs
impl<R: HttpRequest> Multipart<SizedRequest<R>> where <R::Stream as HttpStream>::Error: From<R::Error> {
//@fn Multipart::from_request_sized
//@rename use-baseline-sig 1
//@sig fn from_request_sized(req: R) -> Result<Self, R::Error>
    ensures r matches Ok(m) ==> m.writer.b().len() == 16 && (forall|i: int| 0 <= i < 16 ==> is_alnum(#[trigger] m.writer.b()[i]))
        && m.writer.wrote(Seq::<u8>::empty(), Seq::<Part>::empty()) && m.writer.inner.bound() == m.writer.b() && m.writer.inner.inner == req
//@end
}
/// sending a sized form: the request inside announced the boundary and the length of the body, and carried it
proof fn sized_sent<R: HttpRequest>(m: MultipartWriter<SizedRequest<R>>, s: SizedRequest<R>, ps: Seq<Part>, x: <SizedRequest<R> as HttpStream>::Response)
    where <R::Stream as HttpStream>::Error: From<R::Error>
    requires s.answers(x), s.id() == m.inner.id(), s.out() == body(m.b(), ps), m.inner.bound() == m.b()
    ensures exists|q: R, s0: R::Stream, t: R::Stream| q.announces(&m.inner.inner, m.b(), Some(body(m.b(), ps).len() as u64)) && #[trigger] q.opened(s0) && t.out() == body(m.b(), ps) && #[trigger] t.answers(x)
{}
}
fn main() {}
