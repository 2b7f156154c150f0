/// valid UTF-8
pub uninterp spec fn is_utf8(s: Seq<u8>) -> bool;
/// no valid UTF-8 starts with these bytes
pub uninterp spec fn dead_utf8(s: Seq<u8>) -> bool;
pub uninterp spec fn utf8_stop(e: str::Utf8Error) -> int;
pub uninterp spec fn utf8_bad_len(e: str::Utf8Error) -> Option<usize>;
pub mod str { use super::*;
    #[verifier::external_body] #[derive(Debug)] pub struct Utf8Error { _p: () }
    #[verifier::external_body] pub fn from_utf8(b: &[u8]) -> (r: Result<&str, Utf8Error>)
        ensures match r { Ok(s) => is_utf8(b@) && str_bytes(s) == b@, Err(e) => !is_utf8(b@) && 0 <= utf8_stop(e) < b@.len() && is_utf8(b@.take(utf8_stop(e)))
            && match utf8_bad_len(e) { Some(_) => dead_utf8(b@), None => b@.len() - utf8_stop(e) <= 3 } }
    { unimplemented!() }
    impl Utf8Error {
        #[verifier::external_body] pub fn valid_up_to(&self) -> (r: usize) ensures r == utf8_stop(*self) { unimplemented!() }
        #[verifier::external_body] pub fn error_len(&self) -> (r: Option<usize>) ensures r == utf8_bad_len(*self) { unimplemented!() }
    }
}
/// what reading the data of the current field leaves alone: the delimiter, whether the body has ended,
/// the bytes after the data, and how much of the data a buffered read shows at least
pub struct Frame { pub b: Seq<u8>, pub ended: bool, pub after: Seq<u8>, pub floor: int }
pub trait BufRead: Sized {
    /// the unread data of the current field
    spec fn rest(&self) -> Seq<u8>;
    spec fn readable(&self) -> bool;
    /// what is in the buffer
    spec fn avail(&self) -> Seq<u8>;
    spec fn frame(&self) -> Frame;
    /// how many more times an interruption may be reported before something else
    spec fn patience(&self) -> nat;
    /// what a borrowed reader will be when it is given back
    type Root;
    #[verifier::prophetic]
    spec fn root(&self) -> Self::Root;
    fn read(&mut self, out: &mut [u8]) -> (r: io::Result<usize>)
        requires (*old(self)).readable()
        ensures (*final(self)).root() == (*old(self)).root(), (*final(self)).readable(), (*final(self)).frame() == (*old(self)).frame(), (*final(self)).patience() <= (*old(self)).patience(), match r {
            Ok(n) => n <= old(out)@.len() && n <= (*old(self)).rest().len() && (*final(self)).rest() == (*old(self)).rest().skip(n as int)
                && final(out)@ == (*old(self)).rest().take(n as int) + old(out)@.skip(n as int)
                && (n == 0 ==> old(out)@.len() == 0 || (*old(self)).rest().len() == 0),
            Err(e) => io::from_source(e) && (*final(self)).rest() == (*old(self)).rest() };
    fn fill_buf(&mut self) -> (r: io::Result<&[u8]>)
        requires (*old(self)).readable()
        ensures (*final(self)).root() == (*old(self)).root(), (*final(self)).readable(), (*final(self)).rest() == (*old(self)).rest(), (*final(self)).frame() == (*old(self)).frame(), (*final(self)).patience() <= (*old(self)).patience(), match r {
            Ok(b) => b@ == (*final(self)).avail() && (*old(self)).avail().is_prefix_of(b@) && b@.is_prefix_of((*old(self)).rest()) && (b@.len() == 0 ==> (*old(self)).rest().len() == 0)
                && (b@.len() == (*old(self)).rest().len() || b@.len() >= (*old(self)).frame().floor),
            Err(e) => io::from_source(e) && (io::kind_of(e) == io::ErrorKind::Interrupted ==> (*final(self)).patience() < (*old(self)).patience()) };
    fn consume(&mut self, n: usize)
        requires (*old(self)).readable(), n <= (*old(self)).avail().len()
        ensures (*final(self)).root() == (*old(self)).root(), (*final(self)).readable(), (*final(self)).rest() == (*old(self)).rest().skip(n as int), (*final(self)).avail() == (*old(self)).avail().skip(n as int), (*final(self)).frame() == (*old(self)).frame(), (*final(self)).patience() == (*old(self)).patience();
}

