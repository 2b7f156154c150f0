//@source src/server/boundary.rs
//@item const MIN_BUF_SIZE

#[derive(PartialEq, Eq, Structural)]
//@item enum State
use State::*;

#[verifier::reject_recursive_types(R)]
//@item struct BoundaryReader

broadcast proof fn prefix2(p: Seq<u8>, v: Seq<u8>) requires #[trigger] p.is_prefix_of(v), p.len() == 2 ensures v.len() >= 2, v[0] == p[0], v[1] == p[1]
{ let t = v.take(2); assert(t[0] == p[0] && t[1] == p[1]); }
broadcast proof fn tail_first(s: Seq<u8>, b: Seq<u8>, i: int) requires #[trigger] is_tail(s, b, i), b.len() > 0, i < s.len() ensures s[i] == b[0]
{ reveal(is_tail); reveal(tail_at); let t = s.skip(i); assert(t == b.take(t.len() as int)); assert(t[0] == s[i]); }
broadcast proof fn occ_first(s: Seq<u8>, b: Seq<u8>, i: int) requires #[trigger] first_occ(s, b, i), b.len() > 0 ensures 0 <= i < s.len(), s[i] == b[0]
{ reveal(first_occ); reveal(occ); assert(s.subrange(i, i + b.len())[0] == s[i]); }
/// what was yielded does not end in the middle of a CRLF that may belong to a delimiter
pub open spec fn settled(buf: Seq<u8>, i: int) -> bool {
    &&& (2 <= i <= buf.len() && buf[i - 2] == 13 && buf[i - 1] == 10 ==> i < buf.len() && buf[i] == 13)
    &&& (0 < i <= buf.len() && buf[i - 1] == 13 ==> i < buf.len() && buf[i] != 10)
}
impl<R> BoundaryReader<R> {
    /// the part of the request body that has not been consumed
    spec fn s(&self) -> Seq<u8> { self.source.stream() }
    /// the delimiter, including the leading dashes
    spec fn b(&self) -> Seq<u8> { self.boundary@ }
    /// how much of `s()` is data of the current part
    spec fn end(&self) -> int { if self.state == AtEnd { 0 } else { content_end(self.s(), self.b()) } }
    spec fn at_end(&self) -> bool { self.state == AtEnd }
    /// a delimiter with what surrounds it fits in the buffer
    spec fn can_step(&self) -> bool { self.b().len() + 4 <= self.source.min() }
    spec fn inv(&self) -> bool {
        &&& is_delim(self.b())
        &&& 8 * self.b().len() <= usize::MAX
        &&& self.b().len() + 2 <= self.source.min()
        &&& self.b().len() + 4 <= MIN_BUF_SIZE
        &&& self.source.roomy()
        &&& self.search_idx <= self.source.buffered().len()
        &&& (self.state == AtEnd ==> self.search_idx == 0)
        &&& (self.state == BoundaryRead ==> has_delim(self.s(), self.b()) && self.search_idx == content_end(self.s(), self.b()) && delim(self.s(), self.b()) + self.b().len() <= self.source.buffered().len())
        &&& (self.state == Searching ==> self.search_idx <= content_end(self.s(), self.b()))
        &&& settled(self.source.buffered(), self.search_idx as int)
    }
}
impl<R> BoundaryReader<R> where R: Read {
//@fn BoundaryReader::from_reader
//@sig fn from_reader<B: Into<Vec<u8>>>(reader: R, boundary: B) -> BoundaryReader<R>
        requires boundary.into_spec()@.len() + 6 <= MIN_BUF_SIZE
        ensures r.inv(), r.can_step(), r.s() == bytes_of(reader), r.b() =~= dashes() + boundary.into_spec()@, !r.at_end()
//@prologue
broadcast use end_bounds;
//@end

//@fn BoundaryReader::set_min_buf_size
//@sig fn set_min_buf_size(&mut self, min_buf_size: usize)
        requires old(self).inv(), 4 * min_buf_size <= usize::MAX
        ensures final(self).inv(), final(self).s() == old(self).s(), final(self).b() == old(self).b(), final(self).at_end() == old(self).at_end(),
            final(self).source.min() >= min_buf_size, min_buf_size == MIN_BUF_SIZE ==> final(self).can_step()
//@end

//@fn BoundaryReader::read_to_boundary
//@sig fn read_to_boundary(&mut self) -> io::Result<&[u8]>
//@attr #[verifier::loop_isolation(false)]
        requires old(self).inv()
        ensures final(self).inv(), final(self).s() == old(self).s(), final(self).b() == old(self).b(),
           final(self).at_end() == old(self).at_end(), final(self).search_idx >= old(self).search_idx, final(self).source.min() == old(self).source.min(), final(self).source.patience() <= old(self).source.patience(),
           match r {
             Ok(p) => (p@.len() + final(self).b().len() + 2 >= final(self).source.min() || p@.len() == final(self).end()) && p@ =~= final(self).s().take(final(self).search_idx as int) && final(self).search_idx <= final(self).end()
                     && (p@.len() == 0 ==> final(self).end() == 0)
                     && (p@.len() == 0 && final(self).state == Searching ==> !has_delim(final(self).s(), final(self).b())),
             Err(e) => io::from_source(e) && (io::kind_of(e) == io::ErrorKind::Interrupted ==> final(self).source.patience() < old(self).source.patience()) }
//@prologue
broadcast use g_bnd;
broadcast use prefix2; broadcast use tail_first; broadcast use occ_first;
//@end

//@fn BoundaryReader::consume_boundary
//@sig fn consume_boundary(&mut self) -> io::Result<bool>
        requires old(self).inv(), old(self).can_step()
        ensures final(self).inv(), final(self).b() == old(self).b(), final(self).source.min() == old(self).source.min(),
           match r {
             Ok(more) => if old(self).at_end() { !more && final(self).at_end() && final(self).s() == old(self).s() }
                else { has_delim(old(self).s(), old(self).b())
                    && final(self).s() == old(self).s().skip(delim(old(self).s(), old(self).b()) + old(self).b().len() + 2)
                    && delim(old(self).s(), old(self).b()) + old(self).b().len() + 2 <= old(self).s().len()
                    && after_delim(old(self).s(), old(self).b()) == (if more { crlf() } else { dashes() })
                    && final(self).at_end() == !more },
             Err(e) => !old(self).at_end() && (io::from_source(e) || malformed(old(self).s(), old(self).b()))
                && exists|k: int| 0 <= k <= content_end(old(self).s(), old(self).b()) && final(self).s() == #[trigger] old(self).s().skip(k),
           }
//@prologue
broadcast use end_bounds;
//@before fill_buf
proof { assert(self.s() =~= old(self).s().skip(content_end(old(self).s(), self.b()))); if has_delim(old(self).s(), self.b()) { at_delim(old(self).s(), self.s(), self.b()); } }
//@loop 0
    invariant self.inv(), self.can_step(), self.source.min() == old(self).source.min(), self.b() == old(self).b(), !old(self).at_end(), !self.at_end(),
       0 <= old(self).s().len() - self.s().len() <= content_end(old(self).s(), old(self).b()),
       self.s() =~= old(self).s().skip(old(self).s().len() - self.s().len()),
       has_delim(self.s(), self.b()) <==> has_delim(old(self).s(), self.b()),
       content_end(self.s(), self.b()) == content_end(old(self).s(), self.b()) - (old(self).s().len() - self.s().len()),
    decreases self.s().len(), (if self.state == Searching { 1int } else { 0 })
//@end
}

impl<R> BoundaryReader<R> where R: Read {
//@fn Read for BoundaryReader::read
//@sig fn read(&mut self, out: &mut [u8]) -> io::Result<usize>
        requires old(self).inv()
        ensures final(self).inv(), final(self).b() == old(self).b(), final(self).at_end() == old(self).at_end(), final(self).source.min() == old(self).source.min(), final(self).source.patience() <= old(self).source.patience(),
          match r {
            Ok(n) => n <= old(out)@.len() && n <= old(self).end() && final(self).s() == old(self).s().skip(n as int)
              && final(out)@ == old(self).s().take(n as int) + old(out)@.skip(n as int)
              && (n == 0 && old(out)@.len() > 0 ==> old(self).end() == 0),
            Err(e) => io::from_source(e) && final(self).s() == old(self).s(),
          }
//@prologue
broadcast use g_bnd;
//@end

//@fn BufRead for BoundaryReader::fill_buf
//@sig fn fill_buf(&mut self) -> io::Result<&[u8]>
        requires old(self).inv()
        ensures final(self).inv(), final(self).s() == old(self).s(), final(self).b() == old(self).b(), final(self).at_end() == old(self).at_end(), final(self).search_idx >= old(self).search_idx, final(self).source.min() == old(self).source.min(), final(self).source.patience() <= old(self).source.patience(),
          match r {
            Ok(p) => (p@.len() + final(self).b().len() + 2 >= final(self).source.min() || p@.len() == final(self).end()) && p@ == final(self).s().take(p@.len() as int) && p@.len() <= final(self).end() && p@.len() == final(self).search_idx
               && (p@.len() == 0 ==> final(self).end() == 0),
            Err(e) => io::from_source(e) && (io::kind_of(e) == io::ErrorKind::Interrupted ==> final(self).source.patience() < old(self).source.patience()),
          }
//@prologue
broadcast use g_bnd;
//@end

//@fn BufRead for BoundaryReader::consume
//@sig fn consume(&mut self, amt: usize)
        requires old(self).inv()
        ensures final(self).inv(), final(self).b() == old(self).b(), final(self).at_end() == old(self).at_end(),
          final(self).source.min() == old(self).source.min(),
          ({ let k = if amt <= old(self).search_idx { amt as int } else { old(self).search_idx as int };
             final(self).s() == old(self).s().skip(k) && final(self).search_idx == old(self).search_idx - k
             && k <= old(self).end() && final(self).end() == old(self).end() - k }),
          !old(self).at_end() ==> (has_delim(final(self).s(), final(self).b()) <==> has_delim(old(self).s(), old(self).b())),
          final(self).state == old(self).state, final(self).source.rest() == old(self).source.rest(), final(self).source.patience() == old(self).source.patience()
//@prologue
broadcast use g_bnd;
proof { if !self.at_end() { b_skip(self.s(), self.b(), if amt <= self.search_idx { amt as int } else { self.search_idx as int }); } }
//@end
}

//@fn find_boundary
//@sig fn find_boundary(buf: &[u8], boundary: &[u8]) -> Result<usize, usize>
//@attr #[verifier::loop_isolation(false)]
  requires boundary@.len() > 0
  ensures match r { Ok(i) => first_occ(buf@, boundary@, i as int), Err(i) => no_occ(buf@, boundary@) && is_tail(buf@, boundary@, i as int) && i <= buf@.len() }
//@prologue
broadcast use g_bnd; proof { reveal(is_tail); reveal(tail_at); assert(buf@.skip(buf@.len() as int) =~= Seq::empty()); }
//@loop 0
      invariant vx_end0 == buf@.len(), search_start as int == (if buf@.len() >= boundary@.len() { buf@.len() - boundary@.len() } else { 0 }), search_start <= vx_i0 <= vx_end0,
         search_start as int >= buf@.len() - boundary@.len(), forall|j: int| search_start <= j < vx_i0 ==> !tail_at(buf@, boundary@, j),
         no_occ(buf@, boundary@),
      decreases vx_end0 - vx_i0
//@end
