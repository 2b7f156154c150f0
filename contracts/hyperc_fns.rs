#[verifier::external_body] fn vx_lit(b: &[u8]) -> (r: &'static str) ensures str_bytes(r) == b@ { unimplemented!() }
//@rename-method str-lit vx_lit
// ---------- stand-ins for hyper's client
pub open spec fn form_data_text() -> Seq<u8> { [102u8,111u8,114u8,109u8,45u8,100u8,97u8,116u8,97u8]@ }
pub uninterp spec fn sub_text(s: SubLevel) -> Seq<u8>;
pub broadcast axiom fn sub_form() ensures #[trigger] sub_text(SubLevel::FormData) == form_data_text();
pub broadcast axiom fn sub_ext(s: String) ensures #[trigger] sub_text(SubLevel::Ext(s)) == string_bytes(s);
pub broadcast axiom fn attr_ext(s: String) ensures #[trigger] attr_text(Attr::Ext(s)) == string_bytes(s);
pub broadcast axiom fn value_ext(s: String) ensures #[trigger] value_text(Value::Ext(s)) == string_bytes(s);
pub broadcast axiom fn conv_owned(s: &str) ensures #[trigger] string_bytes(conv::<&str, String>(s)) == str_bytes(s);
pub broadcast group g_mime { sub_form, sub_ext, attr_ext, value_ext, conv_owned, attr_boundary }
pub struct ContentLength(pub u64);
/// `b` is `a` with this header set
pub uninterp spec fn with_header<H>(a: Headers, h: H, b: Headers) -> bool;
pub broadcast axiom fn header_set<H>(a: Headers, h: H, b: Headers) ensures #[trigger] with_header(a, h, b) ==> header_of::<H>(b) == Some(h);
pub broadcast axiom fn length_keeps(a: Headers, h: ContentLength, b: Headers) ensures #[trigger] with_header(a, h, b) ==> header_of::<ContentType>(b) == header_of::<ContentType>(a);
pub broadcast axiom fn type_keeps(a: Headers, h: ContentType, b: Headers) ensures #[trigger] with_header(a, h, b) ==> header_of::<ContentLength>(b) == header_of::<ContentLength>(a);
pub broadcast group g_headers { header_set, length_keeps, type_keeps }
impl Headers { #[verifier::external_body] pub fn set<H>(&mut self, h: H) ensures with_header(*old(self), h, *final(self)) { unimplemented!() } }
#[verifier::external_body] pub struct Fresh { _p: () }
#[verifier::external_body] pub struct Streaming { _p: () }
#[verifier::external_body] pub struct HyperError { _p: () }
impl From<io::Error> for HyperError { #[verifier::external_body] fn from(e: io::Error) -> (r: HyperError) { unimplemented!() } }

type HyperResult<T> = Result<T, HyperError>;
#[verifier::external_body] pub struct Response { _p: () }
#[verifier::external_body] #[verifier::reject_recursive_types(W)] pub struct Request<W> { p: core::marker::PhantomData<W> }
impl<W> Request<W> {
    pub uninterp spec fn meth(&self) -> Method;
    pub uninterp spec fn hdrs(&self) -> Headers;
    pub uninterp spec fn sunk(&self) -> Seq<u8>;
    pub uninterp spec fn fault(&self) -> bool;
    #[verifier::external_body] pub fn method(&self) -> (r: Method) ensures r == self.meth() { unimplemented!() }
}
/// the response to a request with this method and these headers, after these bytes were written to it
pub uninterp spec fn answer_to(m: Method, h: Headers, sent: Seq<u8>, x: Response) -> bool;
impl Request<Fresh> {
    #[verifier::external_body] pub fn headers_mut(&mut self) -> (r: &mut Headers) ensures *r == old(self).hdrs(), *final(r) == final(self).hdrs(), final(self).meth() == old(self).meth() { unimplemented!() }
    #[verifier::external_body] pub fn start(self) -> (r: HyperResult<Request<Streaming>>)
        ensures r matches Ok(s) ==> s.meth() == self.meth() && s.hdrs() == self.hdrs() && s.sunk().len() == 0 && !s.fault() { unimplemented!() }
}
impl Request<Streaming> {
    #[verifier::external_body] pub fn send(self) -> (r: HyperResult<Response>) ensures r matches Ok(x) ==> answer_to(self.meth(), self.hdrs(), self.sunk(), x) { unimplemented!() }
}
impl Write for Request<Streaming> {
    open spec fn out(&self) -> Seq<u8> { self.sunk() }
    open spec fn broken(&self) -> bool { self.fault() }
    open spec fn infallible() -> bool { false }
    type Id = (Method, Headers); open spec fn id(&self) -> (Method, Headers) { (self.meth(), self.hdrs()) }
    uninterp spec fn patience(&self) -> nat;
    #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { unimplemented!() }
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body] fn vx_write_arg<T: VxDisplay + ?Sized>(&mut self, t: &T) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
}

// ---------- specification
/// `multipart/form-data; boundary=b` and nothing more
pub open spec fn form_mime(m: Mime, b: Seq<u8>) -> bool {
    m.0 is Multipart && sub_text(m.1) == form_data_text() && m.2@.len() == 1 && attr_text(m.2@[0].0) == boundary_attr() && value_text(m.2@[0].1) == b
}
pub open spec fn says_form(h: Headers, b: Seq<u8>) -> bool { header_of::<ContentType>(h) matches Some(c) && form_mime(c.0, b) }
/// what a request with the headers `h0` announces once `boundary` and the length were applied
pub open spec fn applied_to(h0: Headers, b: Seq<u8>, n: Option<u64>, h: Headers) -> bool {
    says_form(h, b) && header_of::<ContentLength>(h) == (match n { Some(n) => Some(ContentLength(n)), None => header_of::<ContentLength>(h0) })
}

//@source src/client/hyper.rs
//@fn multipart_mime
//@sig fn multipart_mime(bound: &str) -> Mime
    ensures form_mime(r, ss(bound))
//@prologue
broadcast use g_mime;
//@end
//@fn content_type
//@sig fn content_type(bound: &str) -> ContentType
    ensures form_mime(r.0, ss(bound))
//@end
impl HttpRequest for Request<Fresh> {
    type Stream = Request<Streaming>;
    type Error = HyperError;
    closed spec fn announces(&self, before: &Self, b: Seq<u8>, n: Option<u64>) -> bool { before.meth() == Method::Post && self.meth() == Method::Post && applied_to(before.hdrs(), b, n, self.hdrs()) }
    closed spec fn ready(&self) -> bool { true }
    closed spec fn opened(self, s: Self::Stream) -> bool { s.meth() == self.meth() && s.hdrs() == self.hdrs() }
//@fn HttpRequest for Request::apply_headers
//@sig fn apply_headers(&mut self, boundary: &str, content_len: Option<u64>) -> bool
    ensures r == (old(self).meth() == Method::Post), final(self).meth() == old(self).meth(),
        r ==> applied_to(old(self).hdrs(), ss(boundary), content_len, final(self).hdrs()),
        !r ==> final(self).hdrs() == old(self).hdrs()
//@prologue
broadcast use g_headers;
//@end
//@fn HttpRequest for Request::open_stream
//@sig fn open_stream(self) -> Result<Self::Stream, Self::Error>
//@end
}
impl HttpStream for Request<Streaming> {
    type Response = Response;
    type Error = HyperError;
    closed spec fn answers(self, x: Response) -> bool { answer_to(self.meth(), self.hdrs(), self.sunk(), x) }
//@fn HttpStream for Request::finish
//@sig fn finish(self) -> Result<Self::Response, Self::Error>
//@end
}

// ---------- the request builder
pub trait IntoUrl: Sized {}
#[verifier::external_body] pub struct Client { _p: () }
#[verifier::external_body] pub struct RequestBuilder { _p: () }
/// a body that is read while the request is sent
pub struct Load { pub bytes: Seq<u8>, pub size: Option<u64> }
enum Body<'b, 'd> { ChunkedBody(&'b mut PreparedFields<'d>), SizedBody(&'b mut PreparedFields<'d>, u64), BufBody(&'b [u8], usize) }
impl<'b, 'd> Body<'b, 'd> {
    spec fn load(&self) -> Load { match self { Body::ChunkedBody(p) => Load { bytes: (**p).bytes(), size: None }, Body::SizedBody(p, n) => Load { bytes: (**p).bytes(), size: Some(*n) }, Body::BufBody(b, n) => Load { bytes: b@, size: Some(*n as u64) } } }
    spec fn usable(&self) -> bool { match self { Body::ChunkedBody(p) => (**p).inv(), Body::SizedBody(p, _) => (**p).inv(), Body::BufBody(_, _) => true } }
}
impl RequestBuilder {
    pub uninterp spec fn meth(&self) -> Method;
    pub uninterp spec fn hdrs(&self) -> Headers;
    pub uninterp spec fn load(&self) -> Option<Load>;
    /// for this client and this URL
    pub uninterp spec fn to(&self, c: Client) -> bool;
    #[verifier::external_body] pub fn header<H>(self, h: H) -> (r: Self) ensures with_header(self.hdrs(), h, r.hdrs()), r.meth() == self.meth(), r.load() == self.load(), forall|c: Client| r.to(c) == self.to(c) { unimplemented!() }
    #[verifier::external_body] fn body<'b, 'd>(self, b: Body<'b, 'd>) -> (r: Self) requires b.usable() ensures r.load() == Some(b.load()), r.hdrs() == self.hdrs(), r.meth() == self.meth(), forall|c: Client| r.to(c) == self.to(c) { unimplemented!() }
    #[verifier::external_body] pub fn send(self) -> (r: HyperResult<Response>) ensures r matches Ok(x) ==> answered(self, x) { unimplemented!() }
}
/// the response to what this builder describes: its body was read to the end and written out, with its size announced if it has one
pub uninterp spec fn answered(q: RequestBuilder, x: Response) -> bool;
impl Client { #[verifier::external_body] pub fn post<U: IntoUrl>(&self, url: U) -> (r: RequestBuilder) ensures r.meth() == Method::Post, r.to(*self) { unimplemented!() } }
/// the caller's closure
pub trait BuilderFn: Sized {
    spec fn makes(self, a: RequestBuilder, b: RequestBuilder) -> bool;
    fn vx_call(self, a: RequestBuilder) -> (r: RequestBuilder) ensures self.makes(a, r);
}
/// the builder which was sent: POST of the fields, as `f` left the rest
spec fn described<F: BuilderFn>(fs: Seq<Field>, c: Client, f: F, q: RequestBuilder) -> bool {
    exists|b: Seq<u8>, q0: RequestBuilder, q1: RequestBuilder, h: ContentType| b.len() == 16 && (forall|i: int| 0 <= i < 16 ==> is_alnum(#[trigger] b[i]))
        && q0.meth() == Method::Post && q0.to(c) && #[trigger] f.makes(q0, q1) && q.meth() == q1.meth() && (forall|k: Client| q.to(k) == q1.to(k))
        && form_mime(h.0, b) && #[trigger] with_header(q1.hdrs(), h, q.hdrs())
        && q.load() == Some(Load { bytes: #[trigger] lbody(b, arranged(fs)), size: known_len(fs, lbody(b, arranged(fs)).len()) })
}
mod hyper { pub(super) use super::content_type; }
/// a POST to this client of exactly the fields, their boundary in the content type and their length, if known, as the size
spec fn posted(fs: Seq<Field>, c: Client, q: RequestBuilder) -> bool {
    exists|b: Seq<u8>| b.len() == 16 && (forall|i: int| 0 <= i < 16 ==> is_alnum(#[trigger] b[i])) && q.meth() == Method::Post && q.to(c) && says_form(q.hdrs(), b)
        && q.load() == Some(Load { bytes: #[trigger] lbody(b, arranged(fs)), size: known_len(fs, lbody(b, arranged(fs)).len()) })
}
struct AsIs {}
impl BuilderFn for AsIs {
    closed spec fn makes(self, a: RequestBuilder, b: RequestBuilder) -> bool { a == b }
    fn vx_call(self, a: RequestBuilder) -> (r: RequestBuilder) { self.call(a) }
}
//@source src/client/lazy.rs
impl AsIs {
//@fn Multipart::client_request{0} as call
//@captures
//@ret q
//@sig fn call(self, r: RequestBuilder) -> RequestBuilder
    ensures q == r
//@end
}
impl<'d> PreparedFields<'d> {
//@fn PreparedFields::to_body
//@rename use-baseline-sig 1
//@sig fn to_body<'b>(&'b mut self) -> Body<'b, 'd>
    requires old(self).inv()
    ensures r.usable(), r.load() == (Load { bytes: old(self).bytes(), size: old(self).content_len })
//@end
}
impl<'n, 'd> Multipart<'n, 'd> {
//@fn Multipart::client_request_mut
//@callable mut_fn
//@rename use-baseline-sig 1
//@sig fn client_request_mut<U: IntoUrl, F: BuilderFn>(&mut self, client: &Client, url: U, mut_fn: F) -> HyperResult<Response>
    requires forall|b: Seq<u8>| b.len() == 16 ==> #[trigger] lbody(b, arranged(old(self).fields@)).len() <= u64::MAX
    ensures r matches Ok(x) ==> exists|q: RequestBuilder| described(old(self).fields@, *client, mut_fn, q) && #[trigger] answered(q, x)
//@end
//@fn Multipart::client_request
//@closure 0 AsIs:
//@rename use-baseline-sig 1
//@sig fn client_request<U: IntoUrl>(&mut self, client: &Client, url: U) -> HyperResult<Response>
    requires forall|b: Seq<u8>| b.len() == 16 ==> #[trigger] lbody(b, arranged(old(self).fields@)).len() <= u64::MAX
    ensures r matches Ok(x) ==> exists|q: RequestBuilder| posted(old(self).fields@, *client, q) && #[trigger] answered(q, x)
//@prologue
broadcast use g_headers;
//@end
}
