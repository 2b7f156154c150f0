use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include std_io.rs
//@include client_io.rs
//@include client_spec.rs
//@include client_req.rs
// ---------- stand-ins: rand's sampling, iterator adaptors over it
pub broadcast axiom fn utf8_ascii(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128
    ensures (#[trigger] utf8(s)).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] utf8(s)[i] as u32 == s[i] as u32;
#[verifier::external_body] pub struct ThreadRng { _p: () }
pub mod rand { use super::*;
    #[verifier::external_body] pub fn thread_rng() -> ThreadRng { unimplemented!() }
    pub mod distributions { pub struct Alphanumeric; }
}
/// what a distribution gives
pub trait VxDist: Sized { spec fn gives(c: u8) -> bool; }
impl VxDist for rand::distributions::Alphanumeric { open spec fn gives(c: u8) -> bool { is_alnum(c) } }
impl<'a, D: VxDist> VxDist for &'a D { open spec fn gives(c: u8) -> bool { D::gives(c) } }
/// samples; at most that many, if so
#[verifier::external_body] #[verifier::reject_recursive_types(D)] pub struct Samples<D> { d: D }
impl ThreadRng { #[verifier::external_body] pub fn sample_iter<D: VxDist>(self, d: D) -> (r: Samples<D>) ensures r.most() is None { unimplemented!() } }
pub trait CharFn: Sized { spec fn takes(&self, c: u8) -> bool; spec fn makes(&self, c: u8, r: char) -> bool;
    fn vx_call(&self, c: u8) -> (r: char) requires self.takes(c) ensures self.makes(c, r); }
impl<D: VxDist> Samples<D> {
    pub uninterp spec fn most(&self) -> Option<nat>;
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: Self) ensures r.most() == Some(match self.most() { Some(m) if m < n => m, _ => n as nat }) { unimplemented!() }
    #[verifier::external_body] pub fn map<F: CharFn>(self, f: F) -> (r: Chars)
        requires forall|c: u8| D::gives(c) ==> #[trigger] f.takes(c)
        ensures match self.most() { Some(n) => r.items().len() == n && r.ends(), None => !r.ends() },
            forall|i: int| 0 <= i < r.items().len() ==> made::<D, F>(f, #[trigger] r.items()[i]) { unimplemented!() }
}
pub open spec fn made<D: VxDist, F: CharFn>(f: F, x: char) -> bool { exists|c: u8| D::gives(c) && #[trigger] f.makes(c, x) }
#[verifier::external_body] pub struct Chars { _p: () }
impl Chars {
    pub uninterp spec fn items(&self) -> Seq<char>;
    pub uninterp spec fn ends(&self) -> bool;
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: Self)
        ensures r.ends(), self.ends() ==> r.items() == self.items().take(if n < self.items().len() { n as int } else { self.items().len() as int }) { unimplemented!() }
    #[verifier::external_body] pub fn collect(self) -> (r: String) requires self.ends() ensures r@ == self.items() { unimplemented!() }
}
//@source src/lib.rs
/// the closure of random_alphanumeric
struct AsChar {}
impl AsChar {
//@fn random_alphanumeric{0} as call
//@captures
//@sig fn call(&self, c: u8) -> char
    ensures r as u32 == c as u32
//@end
}
impl CharFn for AsChar {
    open spec fn takes(&self, c: u8) -> bool { true }
    open spec fn makes(&self, c: u8, r: char) -> bool { r as u32 == c as u32 }
    fn vx_call(&self, c: u8) -> (r: char) { self.call(c) }
}
//@fn random_alphanumeric
//@sig fn random_alphanumeric(len: usize) -> String
//@closure 0 AsChar:
    ensures string_bytes(r).len() == len, forall|i: int| 0 <= i < len ==> is_alnum(#[trigger] string_bytes(r)[i])
//@prologue
broadcast use utf8_ascii;
//@end
}
fn main() {}
