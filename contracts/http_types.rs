/// parsing gives known names by their variants
pub open spec fn known_attr(x: (Attr, Value)) -> bool { attr_text(x.0) == boundary_attr() ==> x.0 == Attr::Boundary }
pub axiom fn parsed_type(h: Headers) ensures header_of::<ContentType>(h) matches Some(c) ==> forall|i: int| 0 <= i < c.0.2@.len() ==> known_attr(#[trigger] c.0.2@[i]);
impl Headers { #[verifier::external_body] pub fn get<H>(&self) -> (r: Option<&H>)
    ensures match r { Some(x) => header_of::<H>(*self) == Some(*x), None => header_of::<H>(*self) is None } { unimplemented!() } }
impl<T> VxSliceIter<T> for Vec<T> { #[verifier::external_body] fn vx_iter<'x>(&'x self) -> (it: VxIter<&'x T>)
    ensures it.rest().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] it.rest()[i]) == self@[i] { unimplemented!() } }

// ---------- specification: which requests are multipart
spec fn form_type(c: ContentType) -> bool { c.0.0 is Multipart && c.0.1 is FormData }
/// the boundary of a POST request with a multipart/form-data body
spec fn announced_by(m: Method, h: Headers) -> Option<Seq<u8>> {
    if m != Method::Post { None } else { match header_of::<ContentType>(h) { None => None, Some(c) => if form_type(c) { param_of(c.0.2@, boundary_attr()) } else { None } } }
}
/// the boundary is within the reader's smallest buffer
spec fn fits(b: Option<Seq<u8>>) -> bool { match b { Some(b) => b.len() + 6 <= MIN_BUF_SIZE, None => true } }
