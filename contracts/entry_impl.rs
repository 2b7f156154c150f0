// ---------- a boundary reader as the source of entries
impl<R> BoundaryReader<R> {
    spec fn place(&self) -> Frame { Frame { b: self.b(), ended: self.at_end(), after: self.s().skip(self.end()), floor: self.source.min() - self.b().len() - 2 } }
}
impl<R: Read> BufRead for BoundaryReader<R> {
    closed spec fn rest(&self) -> Seq<u8> { self.s().take(self.end()) }
    closed spec fn readable(&self) -> bool { self.inv() }
    closed spec fn avail(&self) -> Seq<u8> { self.s().take(self.search_idx as int) }
    closed spec fn frame(&self) -> Frame { self.place() }
    closed spec fn patience(&self) -> nat { self.source.patience() }
    type Root = ();
    #[verifier::prophetic] closed spec fn root(&self) -> () { () }
    fn read(&mut self, out: &mut [u8]) -> (r: io::Result<usize>) {
        broadcast use g_bnd;
        let ghost (s0, e0, b0) = (self.s(), self.end(), self.b());
        let r = BoundaryReader::read(self, out);
        proof { if let Ok(n) = r { b_skip(s0, b0, n as int); taken(s0, e0, n as int); } }
        r
    }
    fn fill_buf(&mut self) -> (r: io::Result<&[u8]>) {
        broadcast use g_bnd;
        BoundaryReader::fill_buf(self)
    }
    fn consume(&mut self, n: usize) {
        broadcast use g_bnd;
        let ghost (s0, e0) = (self.s(), self.end());
        BoundaryReader::consume(self, n);
        proof { taken(s0, e0, n as int); }
    }
}
proof fn taken(s: Seq<u8>, e: int, n: int)
    requires 0 <= n <= e <= s.len()
    ensures s.skip(n).take(e - n) == s.take(e).skip(n), s.skip(n).skip(e - n) == s.skip(e)
{ assert(s.skip(n).take(e - n) =~= s.take(e).skip(n)); assert(s.skip(n).skip(e - n) =~= s.skip(e)); }
//@source src/server/mod.rs
//@rename-method into into
broadcast axiom fn vec_of_string(s: String) ensures #[trigger] conv::<String, Vec<u8>>(s)@ == string_bytes(s);
#[verifier::reject_recursive_types(R)]
//@item struct Multipart
impl<R: Read> PrivReadEntry for Multipart<R> {
    type Source = BoundaryReader<R>;
    spec fn src(&self) -> BoundaryReader<R> { self.reader }
    type MRoot = ();
    #[verifier::prophetic] spec fn mroot(&self) -> () { () }
    spec fn can_step(&self) -> bool { self.reader.can_step() }
//@fn PrivReadEntry for Multipart::source_mut
//@sig fn source_mut(&mut self) -> &mut BoundaryReader<R>
//@end
//@fn PrivReadEntry for Multipart::set_min_buf_size
//@sig fn set_min_buf_size(&mut self, min_buf_size: usize)
//@prologue
let ghost (s0, e0) = (self.reader.s(), self.reader.end());
//@end
//@fn PrivReadEntry for Multipart::consume_boundary
//@sig fn consume_boundary(&mut self) -> io::Result<bool>
//@prologue
broadcast use g_bnd;
proof { joined(self.reader.s(), self.reader.end()); assert forall|s: Seq<u8>, e: int| 0 <= e <= s.len() implies #[trigger] s.take(e) + s.skip(e) == s by { joined(s, e); } }
//@end
}
proof fn joined(s: Seq<u8>, e: int) requires 0 <= e <= s.len() ensures s.take(e) + s.skip(e) == s { assert(s.take(e) + s.skip(e) =~= s); }
/// a request of one of the supported http libraries (its implementations: unit http)
trait HttpRequest: Sized {
    type Body: Read;
    /// the boundary of a multipart POST request
    spec fn announced(&self) -> Option<Seq<u8>>;
    #[verifier::prophetic] spec fn body_is(self, b: Self::Body) -> bool;
    fn multipart_boundary(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.announced() == Some(str_bytes(x)), None => self.announced() is None };
    fn body(self) -> (r: Self::Body) ensures self.body_is(r);
}
#[verifier::external_body] fn vx_string_from(s: &str) -> (r: String) ensures string_bytes(r) == str_bytes(s) { unimplemented!() }
impl Multipart<()> {
//@fn Multipart::from_request
//@rename comb:map Option
//@rename String::from vx_string_from
//@sig fn from_request<R: HttpRequest>(req: R) -> Result<Multipart<R::Body>, R>
    requires match req.announced() { Some(b) => b.len() + 6 <= MIN_BUF_SIZE, None => true }
    ensures match r {
        Ok(m) => req.announced() is Some && m.reader.inv() && m.reader.can_step() && m.reader.b() == dashes() + req.announced()->0 && !m.reader.at_end()
            && exists|body: R::Body| #[trigger] req.body_is(body) && m.reader.s() == bytes_of(body),
        Err(q) => q == req && req.announced() is None }
//@prologue
broadcast use conv_same;
//@end
}
spec fn reader_pos<R: Read>(m: Multipart<R>) -> Pos { Pos { rest: m.reader.rest(), f: m.reader.frame() } }
/// an entry that was presented: its headers, where its data begins, where the reader was left
struct Visit { h: FieldHeaders, data: Pos, left: Pos }
/// `q` is at `p` or behind it
spec fn behind(p: Pos, q: Pos) -> bool { q.f.b == p.f.b && q.rest.len() + q.f.after.len() <= p.rest.len() + p.f.after.len() }
/// what `foreach_entry` calls for each entry; it may read the entry's data, or the entries behind it, but not go back
trait EachFn<R: Read>: Sized {
    spec fn seen(&self) -> Seq<Visit>;
    fn vx_call(&mut self, e: MultipartField<&mut Multipart<R>>)
        requires e.data.inner is Some, e.data.inner->0.reader.inv()
        ensures (*final(e.data.inner->0)).reader.inv(), behind(reader_pos(*e.data.inner->0), reader_pos(*final(e.data.inner->0))),
            (*final(self)).seen() == (*old(self)).seen().push(Visit { h: e.headers, data: reader_pos(*e.data.inner->0), left: reader_pos(*final(e.data.inner->0)) });
}
/// where the reader was after these entries
spec fn left_at(p: Pos, t: Seq<Visit>) -> Pos { if t.len() == 0 { p } else { t.last().left } }
/// each entry is the one that follows where the reader was left
spec fn visits(p: Pos, t: Seq<Visit>) -> bool { forall|i: int| 0 <= i < t.len() ==> visit_at(left_at(p, t.take(i)), #[trigger] t[i]) }
spec fn visit_at(q: Pos, v: Visit) -> bool { entry_at(q.rest, q.f, v.h, v.data.rest, v.data.f) }
broadcast proof fn no_visit(p: Pos, a: Seq<Visit>)
    ensures #[trigger] went(p, a, a.len() as int, p)
{ reveal(went); assert(a.skip(a.len() as int) =~= Seq::empty()); }
/// the entries from the `n`th on, and where the reader was left after them
#[verifier::opaque]
spec fn went(p: Pos, a: Seq<Visit>, n: int, q: Pos) -> bool { 0 <= n <= a.len() && visits(p, a.skip(n)) && left_at(p, a.skip(n)) == q }
broadcast proof fn one_visit(p: Pos, a: Seq<Visit>, n: int, q: Pos, v: Visit)
    requires #[trigger] went(p, a, n, q), visit_at(q, v)
    ensures went(p, #[trigger] a.push(v), n, v.left)
{
    reveal(went);
    let t = a.skip(n); let u = a.push(v).skip(n);
    assert(u =~= t.push(v));
    assert forall|i: int| 0 <= i < u.len() implies visit_at(left_at(p, u.take(i)), #[trigger] u[i]) by {
        assert(u.take(i) =~= t.take(i));
        if i < t.len() { assert(visit_at(left_at(p, t.take(i)), t[i])); } else { assert(t.take(i) =~= t); }
    }
}
/// all entries, each once and in order, up to the end of the body or to an error
spec fn presented(p: Pos, seen0: Seq<Visit>, seen: Seq<Visit>, r: io::Result<()>, ended: bool) -> bool {
    seen0.is_prefix_of(seen) && exists|q: Pos| #[trigger] went(p, seen, seen0.len() as int, q) && match r { Ok(_) => ended && body_over(q.rest, q.f), Err(e) => entry_failure(e, q.rest, q.f) }
}
impl<R: Read> Multipart<R> {
//@fn Multipart::with_body
//@sig fn with_body<Bnd: Into<String>>(body: R, boundary: Bnd) -> Self
    requires string_bytes(boundary.into_spec()).len() + 6 <= MIN_BUF_SIZE
    ensures r.reader.inv(), r.reader.can_step(), r.reader.s() == bytes_of(body), r.reader.b() == dashes() + string_bytes(boundary.into_spec()), !r.reader.at_end()
//@prologue
broadcast use vec_of_string;
//@end
//@fn Multipart::read_entry
//@sig fn read_entry(&mut self) -> io::Result<Option<MultipartField<&mut Self>>>
    requires old(self).reader.inv()
    ensures match r { Ok(Some(e)) => e.data.inner is Some && e.data.inner->0.reader.inv() && entry_at((*old(self)).src().rest(), (*old(self)).src().frame(), e.headers, e.data.inner->0.reader.rest(), e.data.inner->0.reader.frame()),
       Ok(None) => body_over((*old(self)).src().rest(), (*old(self)).src().frame()), Err(e) => entry_failure(e, (*old(self)).src().rest(), (*old(self)).src().frame()) },
      match r { Ok(Some(e)) => *final(e.data.inner->0) == *final(self), Ok(None) => final(self).reader.inv() && final(self).reader.at_end(), Err(_) => final(self).reader.inv() }
//@prologue
proof { broadcast use end_bounds; joined(self.reader.s(), self.reader.end()); }
//@end
//@fn Multipart::foreach_entry
//@byref foreach
//@callable foreach
//@rename use-baseline-sig 1
//@sig fn foreach_entry<F: EachFn<R>>(&mut self, foreach: &mut F) -> io::Result<()>
    requires old(self).reader.inv()
    ensures final(self).reader.inv(), presented(reader_pos(*old(self)), old(foreach).seen(), final(foreach).seen(), r, final(self).reader.at_end())
//@attr #[verifier::loop_isolation(false)]
//@prologue
broadcast use no_visit, one_visit, entry_shrinks, end_bounds;
proof { let a = foreach.seen(); assert(went(reader_pos(*self), a, a.len() as int, reader_pos(*self))); }
//@loop 0
    invariant self.reader.inv(), old(foreach).seen().is_prefix_of(foreach.seen()), went(reader_pos(*old(self)), foreach.seen(), old(foreach).seen().len() as int, reader_pos(*self))
    decreases self.reader.s().len()
//@end
//@fn Multipart::into_entry
//@sig fn into_entry(self) -> ReadEntryResult<Self>
    requires self.reader.inv()
    ensures read_from(self, r)
//@prologue
proof { broadcast use end_bounds; joined(self.reader.s(), self.reader.end()); }
//@end
}
/// no entry follows
spec fn body_over(rest: Seq<u8>, f: Frame) -> bool { f.ended || has_delim(rest + f.after, f.b) && after_delim(rest + f.after, f.b) == dashes() }
