//@source src/server/field.rs

// ---------- entries
/// a position in the body: the unread data of the current field, what comes behind it
struct Pos { rest: Seq<u8>, f: Frame }
//@item struct MultipartData
//@item struct MultipartField
//@item enum ReadEntryResult
use ReadEntryResult::*;

spec fn same_place(a: Frame, b: Frame) -> bool { a.b == b.b && a.ended == b.ended && a.after == b.after }
/// a reader's unread data is what comes before the next delimiter
spec fn placed(rest: Seq<u8>, f: Frame) -> bool { if f.ended { rest.len() == 0 } else { rest.len() == content_end(rest + f.after, f.b) } }
/// one call of consume_boundary
spec fn boundary_step(rest: Seq<u8>, f: Frame, rest2: Seq<u8>, f2: Frame, r: io::Result<bool>) -> bool {
    let s = rest + f.after;
    let s2 = rest2 + f2.after;
    f2.b == f.b && f2.floor == f.floor && is_delim(f.b) && placed(rest2, f2) && match r {
        Ok(more) => if f.ended { !more && f2.ended && s2 == s } else {
            has_delim(s, f.b) && delim(s, f.b) + f.b.len() + 2 <= s.len() && s2 == s.skip(delim(s, f.b) + f.b.len() + 2)
            && after_delim(s, f.b) == (if more { crlf() } else { dashes() }) && f2.ended == !more },
        Err(e) => !f.ended && (io::from_source(e) || malformed(s, f.b)),
    }
}
/// the result has the reader that was read from, wherever it is borrowed from
#[verifier::prophetic]
spec fn same_reader<M: PrivReadEntry>(x: M::MRoot, r: ReadEntryResult<M>) -> bool {
    match r { Entry(e) => e.data.inner is Some ==> e.data.inner->0.mroot() == x, End(m) => m.mroot() == x, Error(m, _) => m.mroot() == x }
}
trait PrivReadEntry: Sized {
    type Source: BufRead;
    spec fn src(&self) -> Self::Source;
    /// what a borrowed reader will be when it is given back
    type MRoot;
    #[verifier::prophetic]
    spec fn mroot(&self) -> Self::MRoot;
    fn source_mut(&mut self) -> (r: &mut Self::Source)
        ensures *r == (*old(self)).src(), (*final(self)).src() == *final(r), (*final(self)).mroot() == (*old(self)).mroot();
    /// a delimiter fits in the buffer
    spec fn can_step(&self) -> bool;
    fn set_min_buf_size(&mut self, min_buf_size: usize)
        requires (*old(self)).src().readable(), 4 * min_buf_size <= usize::MAX
        ensures (*final(self)).mroot() == (*old(self)).mroot(), (*final(self)).src().readable(), min_buf_size == MIN_BUF_SIZE ==> (*final(self)).can_step() && (*final(self)).src().frame().floor >= MIN_BUF_SIZE - (*final(self)).src().frame().b.len() - 2, (*final(self)).src().rest() == (*old(self)).src().rest(), same_place((*old(self)).src().frame(), (*final(self)).src().frame());
    fn consume_boundary(&mut self) -> (r: io::Result<bool>)
        requires (*old(self)).src().readable(), (*old(self)).can_step()
        ensures (*final(self)).mroot() == (*old(self)).mroot(), (*final(self)).src().readable(), boundary_step((*old(self)).src().rest(), (*old(self)).src().frame(), (*final(self)).src().rest(), (*final(self)).src().frame(), r);
//@fn trait PrivReadEntry::read_headers
//@sig fn read_headers(&mut self) -> Result<FieldHeaders, io::Error>
    requires (*old(self)).src().readable()
    ensures (*final(self)).mroot() == (*old(self)).mroot(), (*final(self)).src().readable(), (*final(self)).src().frame() == (*old(self)).src().frame(), skipped((*old(self)).src().rest(), (*final(self)).src().rest()),
      match r { Ok(f) => exists|p: Seq<u8>| #[trigger] section(p, (*old(self)).src().rest()) && good_section(p, f, (*old(self)).src().rest(), (*final(self)).src().rest()),
        Err(x) => exists|pe: ParseHeaderError| io::wraps(x, pe) && #[trigger] header_failure(pe, (*old(self)).src().rest(), (*old(self)).src().frame().floor) }
//@end
}
trait ReadEntry: PrivReadEntry {
//@fn trait ReadEntry::read_entry
//@sig fn read_entry(self) -> ReadEntryResult<Self>
    requires self.src().readable(), placed(self.src().rest(), self.src().frame())
    ensures same_reader(self.mroot(), r), ({ let s = self.src(); match r {
        Entry(e) => e.data.inner is Some && e.data.inner->0.src().readable() && entry_at(s.rest(), s.frame(), e.headers, e.data.inner->0.src().rest(), e.data.inner->0.src().frame()),
        End(m) => m.src().readable() && end_at(s.rest(), s.frame(), m.src().rest(), m.src().frame()),
        Error(m, e) => m.src().readable() && m.src().frame().b == s.frame().b && entry_failure(e, s.rest(), s.frame()) } })
//@prologue
let ghost s0 = self.src();
//@before read_headers
let ghost m1 = vx_self.src();
proof {
    let s1 = (s0.rest() + s0.frame().after).skip(delim(s0.rest() + s0.frame().after, s0.frame().b) + s0.frame().b.len() + 2);
    assert(m1.rest() =~= s1.take(content_end(s1, s0.frame().b)));
    assert forall|pe: ParseHeaderError| #[trigger] header_failure(pe, m1.rest(), m1.frame().floor) implies header_failure(pe, s1.take(content_end(s1, s0.frame().b)), MIN_BUF_SIZE - s0.frame().b.len() - 2) by {}
}
//@before Entry
proof { headers_read(m1.rest(), m1.frame(), vx_self.src().rest(), field_headers); }
//@end
}
impl<'a, M: ReadEntry> PrivReadEntry for &'a mut M {
    type Source = M::Source;
    spec fn src(&self) -> M::Source { (**self).src() }
    type MRoot = (M, M::MRoot);
    #[verifier::prophetic] spec fn mroot(&self) -> (M, M::MRoot) { (*final(*self), (**self).mroot()) }
    spec fn can_step(&self) -> bool { (**self).can_step() }
//@fn PrivReadEntry for &M::source_mut
//@sig fn source_mut(&mut self) -> &mut M::Source
//@end
//@fn PrivReadEntry for &M::set_min_buf_size
//@sig fn set_min_buf_size(&mut self, min_buf_size: usize)
//@end
//@fn PrivReadEntry for &M::consume_boundary
//@sig fn consume_boundary(&mut self) -> io::Result<bool>
//@end
}
impl<T> ReadEntry for T where T: PrivReadEntry {}
/// the rest of `ReadEntry`, which is one trait in the source
trait ReadEntryMut: ReadEntry {
//@fn trait ReadEntry::read_entry_mut
//@sig fn read_entry_mut(&mut self) -> ReadEntryResult<&mut Self>
    requires (*old(self)).src().readable(), placed((*old(self)).src().rest(), (*old(self)).src().frame())
    ensures same_reader((*final(self), (*old(self)).mroot()), r), ({ let s = (*old(self)).src(); match r {
        Entry(e) => e.data.inner is Some && e.data.inner->0.src().readable() && entry_at(s.rest(), s.frame(), e.headers, e.data.inner->0.src().rest(), e.data.inner->0.src().frame()),
        End(m) => m.src().readable() && end_at(s.rest(), s.frame(), m.src().rest(), m.src().frame()),
        Error(m, e) => m.src().readable() && m.src().frame().b == s.frame().b && entry_failure(e, s.rest(), s.frame()) } })
//@end
}
impl<T> ReadEntryMut for T where T: PrivReadEntry {}
/// an entry was read from a body of which `rest` and the bytes after it are unread
spec fn entry_at(rest: Seq<u8>, f: Frame, h: FieldHeaders, rest2: Seq<u8>, f2: Frame) -> bool {
    let s = rest + f.after;
    let s1 = s.skip(delim(s, f.b) + f.b.len() + 2);
    &&& !f.ended && is_delim(f.b) && has_delim(s, f.b) && delim(s, f.b) + f.b.len() + 2 <= s.len() && after_delim(s, f.b) == crlf() && f2.b == f.b && !f2.ended && placed(rest2, f2) && f2.floor >= MIN_BUF_SIZE - f.b.len() - 2
    &&& exists|n: int, p: Seq<u8>| 0 <= n <= p.len() && #[trigger] headers_at(s1, p, n, h) && rest2 + f2.after == s1.skip(n)
}
/// why no entry could be read: the source failed, the delimiter is damaged, or the headers are
spec fn entry_failure(e: io::Error, rest: Seq<u8>, f: Frame) -> bool {
    let s = rest + f.after;
    let s1 = s.skip(delim(s, f.b) + f.b.len() + 2);
    !f.ended && (io::from_source(e) || malformed(s, f.b)
        || has_delim(s, f.b) && after_delim(s, f.b) == crlf() && exists|pe: ParseHeaderError| io::wraps(e, pe) && #[trigger] header_failure(pe, s1.take(content_end(s1, f.b)), MIN_BUF_SIZE - f.b.len() - 2))
}
spec fn headers_at(s1: Seq<u8>, p: Seq<u8>, n: int, h: FieldHeaders) -> bool {
    p.is_prefix_of(s1) && match parsed_headers(p, 4) { Parsed::Complete(m, x) => m == n && headers_are(h, x), _ => false }
}
/// reading the headers of a field leaves the reader at the data of that field
proof fn headers_read(rest: Seq<u8>, f: Frame, rest2: Seq<u8>, h: FieldHeaders)
    requires placed(rest, f), !f.ended, is_delim(f.b), exists|p: Seq<u8>| #[trigger] section(p, rest) && good_section(p, h, rest, rest2)
    ensures placed(rest2, f), exists|n: int, p: Seq<u8>| 0 <= n <= p.len() && #[trigger] headers_at(rest + f.after, p, n, h) && rest2 + f.after == (rest + f.after).skip(n)
{
    let p = choose|p: Seq<u8>| #[trigger] section(p, rest) && good_section(p, h, rest, rest2);
    let n = match parsed_headers(p, 4) { Parsed::Complete(n, x) => n as int, _ => 0 };
    let s1 = rest + f.after;
    assert(p.len() <= rest.len());
    assert(p.is_prefix_of(s1)) by { assert(s1.take(p.len() as int) =~= rest.take(p.len() as int)); }
    assert(rest2 + f.after =~= s1.skip(n));
    b_skip(s1, f.b, n);
    assert(headers_at(s1, p, n, h));
}
spec fn end_at(rest: Seq<u8>, f: Frame, rest2: Seq<u8>, f2: Frame) -> bool {
    let s = rest + f.after;
    f2.ended && (if f.ended { rest2 + f2.after == s } else { has_delim(s, f.b) && after_delim(s, f.b) == dashes() })
}

broadcast proof fn placed_after(rest: Seq<u8>, f: Frame, n: int)
    requires placed(rest, f), is_delim(f.b), 0 <= n <= rest.len()
    ensures #[trigger] placed(rest.skip(n), f)
{ if !f.ended { assert(rest.skip(n) + f.after =~= (rest + f.after).skip(n)); b_skip(rest + f.after, f.b, n); } }
broadcast proof fn entry_shrinks(rest: Seq<u8>, f: Frame, h: FieldHeaders, rest2: Seq<u8>, f2: Frame)
    requires #[trigger] entry_at(rest, f, h, rest2, f2)
    ensures rest2.len() + f2.after.len() < rest.len() + f.after.len()
{
    let s = rest + f.after; let s1 = s.skip(delim(s, f.b) + f.b.len() + 2);
    end_bounds(s, f.b);
    let (n, p) = choose|n: int, p: Seq<u8>| 0 <= n <= p.len() && #[trigger] headers_at(s1, p, n, h) && rest2 + f2.after == s1.skip(n);
    assert((rest2 + f2.after).len() == s1.len() - n);
}
// ---------- the data of an entry
//@source src/server/field.rs
//@item const DATA_INNER_ERR
impl<M: ReadEntry> MultipartData<M> {
    spec fn held(&self) -> M { self.inner->0 }
//@fn MultipartData::into_inner
//@sig fn into_inner(self) -> M
    requires self.inner is Some
    ensures r == self.held()
//@end
//@fn MultipartData::inner_mut
//@sig fn inner_mut(&mut self) -> &mut M
    requires old(self).inner is Some
    ensures *r == (*old(self)).held(), final(self).inner == Some(*final(r))
//@end
//@fn MultipartData::take_inner
//@sig fn take_inner(&mut self) -> M
    requires old(self).inner is Some
    ensures r == (*old(self)).held(), final(self).inner is None
//@end
//@fn MultipartData::give_inner
//@sig fn give_inner(&mut self, inner: M)
    ensures final(self).inner == Some(inner)
//@end
//@fn MultipartData::set_min_buf_size
//@sig fn set_min_buf_size(&mut self, min_buf_size: usize)
    requires old(self).inner is Some, (*old(self)).held().src().readable(), 4 * min_buf_size <= usize::MAX
    ensures final(self).inner is Some, (*final(self)).readable(), (*final(self)).rest() == (*old(self)).rest(), same_place((*old(self)).frame(), (*final(self)).frame())
//@end
}
impl<M: ReadEntry> BufRead for MultipartData<M> {
    closed spec fn rest(&self) -> Seq<u8> { self.held().src().rest() }
    closed spec fn readable(&self) -> bool { self.inner is Some && self.held().src().readable() }
    closed spec fn avail(&self) -> Seq<u8> { self.held().src().avail() }
    closed spec fn frame(&self) -> Frame { self.held().src().frame() }
    closed spec fn patience(&self) -> nat { self.held().src().patience() }
    type Root = M::MRoot;
    #[verifier::prophetic] closed spec fn root(&self) -> M::MRoot { self.held().mroot() }
//@fn Read for MultipartData::read
//@sig fn read(&mut self, buf: &mut [u8]) -> io::Result<usize>
//@end
//@fn BufRead for MultipartData::fill_buf
//@sig fn fill_buf(&mut self) -> io::Result<&[u8]>
//@end
//@fn BufRead for MultipartData::consume
//@sig fn consume(&mut self, amt: usize)
//@end
}
impl<M: ReadEntry> MultipartField<M> {
//@fn MultipartField::is_text
//@rename comb:map_or Option
//@sig fn is_text(&self) -> bool
    ensures r == match self.headers.content_type { None => true, Some(m) => mime_type(m) == mime::TEXT }
//@end
//@fn MultipartField::next_entry
//@sig fn next_entry(self) -> ReadEntryResult<M>
    requires self.data.readable(), placed(self.data.rest(), self.data.frame())
    ensures read_from(self.data.held(), r), same_reader(self.data.held().mroot(), r)
//@end
}
impl<M: ReadEntry> MultipartField<M> {
//@fn MultipartField::next_entry_inplace
//@sig fn next_entry_inplace(&mut self) -> io::Result<Option<&mut Self>>
    requires old(self).data.readable(), placed(old(self).data.rest(), old(self).data.frame())
    ensures match r {
        Ok(Some(e)) => e.data.readable() && entry_at(old(self).data.rest(), old(self).data.frame(), e.headers, e.data.rest(), e.data.frame()),
        Ok(None) => final(self).headers == old(self).headers && final(self).data.readable() && end_at(old(self).data.rest(), old(self).data.frame(), final(self).data.rest(), final(self).data.frame()),
        Err(e) => final(self).headers == old(self).headers && final(self).data.readable() && final(self).data.frame().b == old(self).data.frame().b && entry_failure(e, old(self).data.rest(), old(self).data.frame()) }
//@end
}
impl<M: ReadEntry, Entry> ReadEntryResult<M, Entry> {
//@fn ReadEntryResult::into_result
//@sig fn into_result(self) -> io::Result<Option<Entry>>
    ensures match self { Entry(e) => r == Ok::<_, io::Error>(Some(e)), End(m) => r == Ok::<Option<Entry>, io::Error>(None) && has_resolved(m), Error(m, x) => r == Err::<Option<Entry>, _>(x) && has_resolved(m) }
//@end
//@fn ReadEntryResult::unwrap_opt
//@sig fn unwrap_opt(self) -> Option<Entry>
    requires !(self is Error)
    ensures match self { Entry(e) => r == Some(e), _ => r is None }
//@end
//@fn ReadEntryResult::unwrap
//@sig fn unwrap(self) -> Entry
    requires self is Entry
    ensures self == ReadEntryResult::<M, Entry>::Entry(r)
//@end
//@fn ReadEntryResult::expect_alt
//@sig fn expect_alt(self, end_msg: &str, err_msg: &str) -> Entry
    requires self is Entry
    ensures self == ReadEntryResult::<M, Entry>::Entry(r)
//@end
//@fn ReadEntryResult::expect
//@sig fn expect(self, msg: &str) -> Entry
    requires self is Entry
    ensures self == ReadEntryResult::<M, Entry>::Entry(r)
//@end
//@fn ReadEntryResult::expect_opt
//@sig fn expect_opt(self, msg: &str) -> Option<Entry>
    requires !(self is Error)
    ensures match self { Entry(e) => r == Some(e), _ => r is None }
//@end
}

spec fn read_from<M: ReadEntry>(m: M, r: ReadEntryResult<M>) -> bool {
    let s = m.src();
    match r {
        Entry(e) => e.data.inner is Some && e.data.inner->0.src().readable() && entry_at(s.rest(), s.frame(), e.headers, e.data.inner->0.src().rest(), e.data.inner->0.src().frame()),
        End(m) => m.src().readable() && end_at(s.rest(), s.frame(), m.src().rest(), m.src().frame()),
        Error(m, e) => m.src().readable() && m.src().frame().b == s.frame().b && entry_failure(e, s.rest(), s.frame()) }
}
