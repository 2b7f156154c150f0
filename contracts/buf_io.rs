// ---------- stand-ins for buf_redux, safemem, twoway
pub struct MinBuffered(pub usize);
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
#[verifier::reject_recursive_types(P)]
pub struct BufReader<R, P> { r: R, p: P }
impl<R> BufReader<R, MinBuffered> {
    pub uninterp spec fn buffered(&self) -> Seq<u8>;
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    pub uninterp spec fn cap(&self) -> nat;
    pub uninterp spec fn min(&self) -> nat;
    /// how many more times the source may report an interruption before it does something else
    pub uninterp spec fn patience(&self) -> nat;
    pub open spec fn stream(&self) -> Seq<u8> { self.buffered() + self.rest() }
    pub open spec fn roomy(&self) -> bool { self.cap() >= 2 * self.min() && 4 * self.min() <= usize::MAX }
    #[verifier::external_body]
    pub fn fill_buf(&mut self) -> (r: io::Result<&[u8]>)
        ensures
            final(self).stream() == old(self).stream(),
            final(self).min() == old(self).min(),
            final(self).cap() >= old(self).cap(),
            old(self).buffered().is_prefix_of(final(self).buffered()),
            final(self).patience() <= old(self).patience(),
            match r {
                Ok(b) => b@ == final(self).buffered() && (old(self).roomy() ==> b@.len() >= final(self).min() || final(self).rest().len() == 0) && (final(self).rest().len() == 0 ==> b@ == final(self).stream()),
                Err(e) => io::from_source(e) && (io::kind_of(e) == io::ErrorKind::Interrupted ==> final(self).patience() < old(self).patience()),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn consume(&mut self, amt: usize)
        ensures ({ let k = if amt <= old(self).buffered().len() { amt as int } else { old(self).buffered().len() as int };
            final(self).buffered() == old(self).buffered().skip(k) }),
            final(self).stream() == old(self).stream().skip(if amt <= old(self).buffered().len() { amt as int } else { old(self).buffered().len() as int }),
            final(self).rest() == old(self).rest(), final(self).min() == old(self).min(), final(self).cap() == old(self).cap(), final(self).patience() == old(self).patience()
    { unimplemented!() }
}
pub struct StdPolicy;
/// the bytes a source will deliver until its first `Ok(0)`
pub uninterp spec fn bytes_of<R>(r: R) -> Seq<u8>;
impl<R> BufReader<R, StdPolicy> {
    pub uninterp spec fn inner(&self) -> R;
    #[verifier::external_body]
    pub fn new(r: R) -> (b: Self) ensures b.inner() == r { unimplemented!() }
    #[verifier::external_body]
    pub fn set_policy(self, p: MinBuffered) -> (b: BufReader<R, MinBuffered>)
        ensures b.buffered() == Seq::<u8>::empty(), b.rest() == bytes_of(self.inner()), b.min() == p.0, b.cap() == 8192
    { unimplemented!() }
}
impl<R> BufReader<R, MinBuffered> {
    #[verifier::external_body]
    pub fn policy_mut(&mut self) -> (p: &mut MinBuffered)
        ensures p.0 == old(self).min(), final(self).min() == final(p).0, final(self).buffered() == old(self).buffered(),
            final(self).rest() == old(self).rest(), final(self).cap() == old(self).cap()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn buffer(&self) -> (r: &[u8]) ensures r@ == self.buffered() { unimplemented!() }
    #[verifier::external_body]
    pub fn buf_len(&self) -> (r: usize) ensures r == self.buffered().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) ensures r == self.cap() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, additional: usize)
        ensures final(self).cap() >= old(self).buffered().len() + additional, final(self).cap() >= old(self).cap(), final(self).min() == old(self).min(), final(self).buffered() == old(self).buffered(),
            final(self).rest() == old(self).rest()
    { unimplemented!() }
}
pub mod safemem {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub fn prepend(src: &[u8], dest: &mut Vec<u8>) ensures final(dest)@ == src@ + old(dest)@ { unimplemented!() }
}
pub mod twoway {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub fn find_bytes(h: &[u8], n: &[u8]) -> (r: Option<usize>)
        ensures match r { Some(i) => super::first_occ(h@, n@, i as int), None => super::no_occ(h@, n@) }
    { unimplemented!() }
}
