// ---------- iron
#[verifier::external_body] pub struct IronBody<'a, 'b> { p: core::marker::PhantomData<(&'a u8, &'b u8)> }
pub struct IronRequest<'a, 'b> { pub method: Method, pub headers: Headers, pub body: IronBody<'a, 'b>, pub extensions: TypeMap }
impl<'r, 'a, 'b> Read for &'r mut IronBody<'a, 'b> { uninterp spec fn rest(&self) -> Seq<u8>; open spec fn readable(&self) -> bool { true }
    #[verifier::external_body] fn read(&mut self, out: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() } }
/// a map from types to values
#[verifier::external_body] pub struct TypeMap { _p: () }
//@source src/server/iron.rs
impl<'r, 'a, 'b> HttpRequest for &'r mut IronRequest<'a, 'b> {
    type Body = &'r mut IronBody<'a, 'b>;
    closed spec fn announced(&self) -> Option<Seq<u8>> { announced_by(self.method, self.headers) }
    /// the request's own body, and nothing else of the request changes
    #[verifier::prophetic] closed spec fn body_is(self, b: &'r mut IronBody<'a, 'b>) -> bool { *b == self.body && *final(self) == (IronRequest { body: *final(b), ..*self }) }
//@fn HttpRequest for &IronRequest::multipart_boundary
//@sig fn multipart_boundary(&self) -> Option<&str>
//@end
//@fn HttpRequest for &IronRequest::body
//@sig fn body(self) -> &'r mut IronBody<'a, 'b>
//@end
}
