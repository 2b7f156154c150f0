//@rename-method iter vx_iter
//@rename-method comb:and_then Option
//@rename-method comb:map Option
//@macros src/server/mod.rs
// ---------- hyper
spec fn params_of(h: Headers) -> Seq<(Attr, Value)> { match header_of::<ContentType>(h) { Some(c) => c.0.2@, None => Seq::empty() } }
#[verifier::external_body] pub struct IncomingBody { _p: () }
pub struct HyperRequest { pub method: Method, pub headers: Headers, pub body: IncomingBody }
impl Read for HyperRequest { uninterp spec fn rest(&self) -> Seq<u8>; open spec fn readable(&self) -> bool { true }
    #[verifier::external_body] fn read(&mut self, out: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() } }
impl<'r> Read for &'r mut HyperRequest { uninterp spec fn rest(&self) -> Seq<u8>; open spec fn readable(&self) -> bool { true }
    #[verifier::external_body] fn read(&mut self, out: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() } }
//@source src/server/hyper.rs
impl HttpRequest for HyperRequest {
    type Body = Self;
    closed spec fn announced(&self) -> Option<Seq<u8>> { announced_by(self.method, self.headers) }
    #[verifier::prophetic] closed spec fn body_is(self, b: HyperRequest) -> bool { b == self }
//@fn HttpRequest for HyperRequest::multipart_boundary
//@sig fn multipart_boundary(&self) -> Option<&str>
//@prologue
broadcast use attr_boundary;
proof { parsed_type(self.headers); mime02::attr_others(); }
let ghost all = params_of(self.headers);
assert(all.skip(0) =~= all);
//@loop 0
    invariant_except_break vx_found is None, param_of(all, boundary_attr()) == param_of(all.skip(all.len() - vx_it0.rest().len()), boundary_attr()),
    invariant vx_it0.rest().len() <= all.len(), forall|i: int| 0 <= i < all.len() ==> known_attr(#[trigger] all[i]),
      forall|i: int| 0 <= i < vx_it0.rest().len() ==> *(#[trigger] vx_it0.rest()[i]) == all[all.len() - vx_it0.rest().len() + i],
    ensures match vx_found { Some(x) => param_of(all, boundary_attr()) == Some(value_text(x.1)), None => param_of(all, boundary_attr()) is None }
    decreases vx_it0.rest().len()
//@body 0
broadcast use attr_boundary;
proof { let k = all.len() - vx_it0.rest().len(); if vx_it0.rest().len() > 0 { assert(*vx_it0.rest()[0] == all[k]); assert(known_attr(all[k])); assert(all.skip(k)[0] == all[k]); assert(all.skip(k).skip(1) =~= all.skip(k + 1)); } }
//@end
//@fn HttpRequest for HyperRequest::body
//@sig fn body(self) -> HyperRequest
//@end
}
impl<'r> HttpRequest for &'r mut HyperRequest {
    type Body = Self;
    closed spec fn announced(&self) -> Option<Seq<u8>> { announced_by(self.method, self.headers) }
    #[verifier::prophetic] closed spec fn body_is(self, b: &'r mut HyperRequest) -> bool { *b == *self && *final(b) == *final(self) }
//@fn HttpRequest for &HyperRequest::multipart_boundary
//@sig fn multipart_boundary(&self) -> Option<&str>
//@prologue
broadcast use attr_boundary;
proof { parsed_type(self.headers); mime02::attr_others(); }
let ghost all = params_of(self.headers);
assert(all.skip(0) =~= all);
//@loop 0
    invariant_except_break vx_found is None, param_of(all, boundary_attr()) == param_of(all.skip(all.len() - vx_it0.rest().len()), boundary_attr()),
    invariant vx_it0.rest().len() <= all.len(), forall|i: int| 0 <= i < all.len() ==> known_attr(#[trigger] all[i]),
      forall|i: int| 0 <= i < vx_it0.rest().len() ==> *(#[trigger] vx_it0.rest()[i]) == all[all.len() - vx_it0.rest().len() + i],
    ensures match vx_found { Some(x) => param_of(all, boundary_attr()) == Some(value_text(x.1)), None => param_of(all, boundary_attr()) is None }
    decreases vx_it0.rest().len()
//@body 0
broadcast use attr_boundary;
proof { let k = all.len() - vx_it0.rest().len(); if vx_it0.rest().len() > 0 { assert(*vx_it0.rest()[0] == all[k]); assert(known_attr(all[k])); assert(all.skip(k)[0] == all[k]); assert(all.skip(k).skip(1) =~= all.skip(k + 1)); } }
//@end
//@fn HttpRequest for &HyperRequest::body
//@sig fn body(self) -> &'r mut HyperRequest
//@end
}
#[verifier::external_body] pub struct Fresh { _p: () }
#[verifier::external_body] #[verifier::reject_recursive_types(W)] pub struct Response<W> { p: core::marker::PhantomData<W> }
trait Handler: Sized { 
    /// this handler was given the request and the response
    spec fn got(&self, q: HyperRequest, s: Response<Fresh>) -> bool;
    fn handle(&self, req: HyperRequest, res: Response<Fresh>) ensures self.got(req, res); }
trait MultipartHandler: Sized { spec fn got_form(&self, m: Multipart<HyperRequest>, s: Response<Fresh>) -> bool;
    fn handle_multipart(&self, multipart: Multipart<HyperRequest>, response: Response<Fresh>) ensures self.got_form(multipart, response); }
//@item struct Switch
spec fn form_given<M: MultipartHandler>(h: M, q: HyperRequest, s: Response<Fresh>) -> bool { exists|m: Multipart<HyperRequest>| #[trigger] h.got_form(m, s) && hyper_reads(m, q) }
spec fn hyper_reads(m: Multipart<HyperRequest>, q: HyperRequest) -> bool { q.announced() is Some && m.reader.inv() && m.reader.b() == dashes() + q.announced()->0 && !m.reader.at_end() && m.reader.s() == bytes_of(q) }
impl<H: Handler, M: MultipartHandler> Switch<H, M> {
//@fn Switch::new
//@sig fn new(normal: H, multipart: M) -> Switch<H, M>
    ensures r.normal == normal, r.multipart == multipart
//@end
//@fn Handler for Switch::handle
//@rename use-baseline-sig 1
//@sig fn handle(&self, req: HyperRequest, res: Response<Fresh>)
    requires fits(announced_by(req.method, req.headers))
    ensures match announced_by(req.method, req.headers) { Some(_) => form_given(self.multipart, req, res), None => self.normal.got(req, res) }
//@end
}
// ---------- nickel
pub struct NickelRequest { pub origin: HyperRequest }
//@source src/server/nickel.rs
pub struct Maybe<'r>(pub &'r mut NickelRequest);
impl<'r> HttpRequest for Maybe<'r> {
    type Body = &'r mut HyperRequest;
    closed spec fn announced(&self) -> Option<Seq<u8>> { announced_by(self.0.origin.method, self.0.origin.headers) }
    #[verifier::prophetic] closed spec fn body_is(self, b: &'r mut HyperRequest) -> bool { *b == self.0.origin && final(self.0).origin == *final(b) }
//@fn HttpRequest for Maybe::multipart_boundary
//@sig fn multipart_boundary(&self) -> Option<&str>
//@end
//@fn HttpRequest for Maybe::body
//@rename use-baseline-sig 1
//@sig fn body(self) -> &'r mut HyperRequest
//@end
}
/// the reader reads the body of the wrapped request; whatever it does happens to that request
#[verifier::prophetic] spec fn over_origin(q: NickelRequest, after: NickelRequest, m: Multipart<&mut HyperRequest>) -> bool {
    exists|b: &mut HyperRequest| m.reader.s() == #[trigger] bytes_of(b) && *b == q.origin && *final(b) == after.origin
}
impl NickelRequest {
//@fn MultipartBody for NickelRequest::multipart_body
//@rename use-baseline-sig 1
//@rename comb:ok Result
//@sig fn multipart_body(&mut self) -> Option<Multipart<&mut HyperRequest>>
    requires fits(announced_by(old(self).origin.method, old(self).origin.headers))
    ensures match r {
        Some(m) => ({ let b = announced_by(old(self).origin.method, old(self).origin.headers); b is Some && m.reader.inv() && m.reader.b() == dashes() + b->0 && !m.reader.at_end() && over_origin(*old(self), *final(self), m) }),
        None => announced_by(old(self).origin.method, old(self).origin.headers) is None && *final(self) == *old(self) }
//@end
}
// ---------- tiny_http
#[verifier::external_body] pub struct AsciiString { _p: () }
pub uninterp spec fn ascii_bytes(s: AsciiString) -> Seq<u8>;
impl AsciiString { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures str_bytes(r) == ascii_bytes(*self) { unimplemented!() } }
#[verifier::external_body] pub struct AsciiStr { _p: () }
pub uninterp spec fn ascii_text(s: &AsciiStr) -> Seq<u8>;
impl AsciiStr { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures str_bytes(r) == ascii_text(self) { unimplemented!() } }
#[verifier::external_body] pub struct HeaderField { _p: () }
pub uninterp spec fn field_name(f: HeaderField) -> Seq<u8>;
/// names are compared without regard to case
impl HeaderField { #[verifier::external_body] pub fn as_str(&self) -> (r: &AsciiStr) ensures ascii_text(r) == field_name(*self) { unimplemented!() }
    #[verifier::external_body] pub fn equiv(&self, o: &'static str) -> (r: bool) ensures r == (lower(field_name(*self)) == lower(str_bytes(o))) { unimplemented!() } }
pub struct TinyHeader { pub field: HeaderField, pub value: AsciiString }
#[verifier::external_body] pub struct TinyBody { _p: () }
#[verifier::external_body] pub struct TinyHttpRequest { _p: () }
impl<'r> Read for &'r mut TinyBody { uninterp spec fn rest(&self) -> Seq<u8>; open spec fn readable(&self) -> bool { true }
    #[verifier::external_body] fn read(&mut self, out: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() } }
impl TinyHttpRequest {
    pub uninterp spec fn method_is(&self) -> Method;
    pub uninterp spec fn heads(&self) -> Seq<TinyHeader>;
    pub uninterp spec fn incoming(&self) -> TinyBody;
    #[verifier::external_body] pub fn method(&self) -> (r: &Method) ensures *r == self.method_is() { unimplemented!() }
    #[verifier::external_body] pub fn headers(&self) -> (r: &[TinyHeader]) ensures r@ == self.heads() { unimplemented!() }
    /// `&mut dyn Read` in the library
    #[verifier::external_body] pub fn as_reader(&mut self) -> (r: &mut TinyBody) ensures *r == old(self).incoming(), final(self).incoming() == *final(r), final(self).heads() == old(self).heads(), final(self).method_is() == old(self).method_is() { unimplemented!() }
}
spec fn hname() -> Seq<u8> { [67u8,111u8,110u8,116u8,101u8,110u8,116u8,45u8,84u8,121u8,112u8,101u8]@ }
spec fn form_name() -> Seq<u8> { [109u8,117u8,108u8,116u8,105u8,112u8,97u8,114u8,116u8,47u8,102u8,111u8,114u8,109u8,45u8,100u8,97u8,116u8,97u8]@ }
spec fn type_header(h: Seq<TinyHeader>) -> Option<Seq<u8>> decreases h.len() {
    if h.len() == 0 { None } else if lower(field_name(h[0].field)) == lower(hname()) { Some(ascii_bytes(h[0].value)) } else { type_header(h.skip(1)) }
}
/// the value of the first parameter named `boundary` in `;`-preceded parameters
spec fn bparam(s: Seq<u8>) -> Option<Seq<u8>> decreases s.len() {
    if s.len() == 0 { None } else {
        let p = s.skip(1);
        let e = pend(p, 0, false);
        let v = p.take(e);
        let q = first_at(v, 61);
        if q < v.len() && lower(trimmed(v.take(q))) == lower(boundary_attr()) { Some(unquoted(trimmed(v.skip(q + 1)))) }
        else if 0 <= e <= p.len() { bparam(p.skip(e)) } else { None }
    }
}
spec fn typed_boundary(t: Seq<u8>) -> Option<Seq<u8>> {
    let i = first_at(t, 59);
    if lower(trimmed(t.take(i))) == lower(form_name()) { bparam(t.skip(i)) } else { None }
}
spec fn tiny_announced(m: Method, h: Seq<TinyHeader>) -> Option<Seq<u8>> {
    if m != Method::Post { None } else { match type_header(h) { None => None, Some(t) => typed_boundary(t) } }
}
//@source src/server/tiny_http.rs
impl<'r> HttpRequest for &'r mut TinyHttpRequest {
    type Body = &'r mut TinyBody;
    closed spec fn announced(&self) -> Option<Seq<u8>> { tiny_announced(self.method_is(), self.heads()) }
    #[verifier::prophetic] closed spec fn body_is(self, b: &'r mut TinyBody) -> bool { *b == self.incoming() && final(self).incoming() == *final(b) }
//@fn HttpRequest for &TinyHttpRequest::multipart_boundary
//@attr #[verifier::spinoff_prover]
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig fn multipart_boundary(&self) -> Option<&str>
//@prologue
let ghost all = self.heads(); assert(all.skip(0) =~= all);
//@loop 0
    invariant_except_break vx_found is None, type_header(all) == type_header(all.skip(all.len() - vx_it0.rest().len())),
    invariant all == self.heads(), vx_it0.rest().len() <= all.len(),
      forall|i: int| 0 <= i < vx_it0.rest().len() ==> *(#[trigger] vx_it0.rest()[i]) == all[all.len() - vx_it0.rest().len() + i],
    ensures match vx_found { Some(x) => type_header(all) == Some(ascii_bytes(x.value)), None => type_header(all) is None }
    decreases vx_it0.rest().len()
//@body 0
proof { let k = all.len() - vx_it0.rest().len(); if vx_it0.rest().len() > 0 { assert(*vx_it0.rest()[0] == all[k]); assert(all.skip(k)[0] == all[k]); assert(all.skip(k).skip(1) =~= all.skip(k + 1)); } }
//@loop 1
    invariant str_bytes(params).len() == 0 || str_bytes(params)[0] == 59, tiny_announced(self.method_is(), self.heads()) == bparam(str_bytes(params)),
    decreases str_bytes(params).len()
//@body 1
proof { let p = str_bytes(params).skip(1); pend_bound(p, 0, false); assert(str_bytes(params).subrange(1, str_bytes(params).len() as int) =~= p);
    let e = pend(p, 0, false); let v = p.take(e); assert(p.subrange(0, e) =~= v); assert(p.subrange(e, p.len() as int) =~= p.skip(e)); cut_after_ascii(params, 0);
    first_found(v, '='.pat(), 61);
    let q = first_at(v, 61); first_bound(v, 61);
    assert forall|s: &str, j: int| 0 < j <= str_bytes(s).len() && str_bytes(s)[j - 1] < 128 implies #[trigger] cut_ok(str_bytes(s), j) by { cut_after_ascii(s, j - 1); }
    if q < v.len() { assert(v.subrange(0, q) =~= v.take(q)); assert(v.subrange(q + 1, v.len() as int) =~= v.skip(q + 1)); }
    assert(0 <= e <= p.len());
    assert(bparam(str_bytes(params)) == if q < v.len() && lower(trimmed(v.take(q))) == lower(boundary_attr()) { Some(unquoted(trimmed(v.skip(q + 1)))) } else { bparam(p.skip(e)) });
}
//@before vx_eq_ignore_case
proof { let t = type_header(self.heads())->0; first_found(t, ';'.pat(), 59); first_bound(t, 59); let i = first_at(t, 59); if i <= t.len() { assert(t.subrange(0, i) =~= t.take(i)); assert(t.subrange(i, t.len() as int) =~= t.skip(i)); } }
//@end
//@fn HttpRequest for &TinyHttpRequest::body
//@rename use-baseline-sig 1
//@sig fn body(self) -> &'r mut TinyBody
//@end
}
