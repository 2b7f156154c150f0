//@source src/client/lazy.rs
//@item struct LazyError
type LazyIoError<'a> = LazyError<'a, io::Error>;
type LazyIoResult<'a, T> = Result<T, LazyIoError<'a>>;
//@item struct Multipart
//@item struct Field
//@item enum Data
//@item struct Stream
//@item struct PreparedFields
//@item struct PreparedField

// ---------- specification
/// a part with the CRLF before its delimiter
pub open spec fn lpart(b: Seq<u8>, p: Part) -> Seq<u8> { crlf() + part(b, p) }
pub open spec fn lparts(b: Seq<u8>, ps: Seq<Part>) -> Seq<u8> decreases ps.len() {
    if ps.len() == 0 { Seq::<u8>::empty() } else { lparts(b, ps.drop_last()) + lpart(b, ps.last()) }
}
/// the same, last part first
pub open spec fn lparts_rev(b: Seq<u8>, ps: Seq<Part>) -> Seq<u8> decreases ps.len() {
    if ps.len() == 0 { Seq::<u8>::empty() } else { lpart(b, ps.last()) + lparts_rev(b, ps.drop_last()) }
}
pub open spec fn lend(b: Seq<u8>) -> Seq<u8> { crlf() + dashes() + b + dashes() }
pub open spec fn lbody(b: Seq<u8>, ps: Seq<Part>) -> Seq<u8> { lparts(b, ps) + lend(b) }
/// a text part written token by token after `pre`, given the delimiter with its CRLF
pub open spec fn bline_on(pre: Seq<u8>, d: Seq<u8>) -> Seq<u8> { pre + d + crlf() }
pub proof fn lpart_is(pre: Seq<u8>, b: Seq<u8>, name: Seq<u8>, filename: Option<Seq<u8>>, ctype: Option<Seq<u8>>)
    ensures
        forall|data: Seq<u8>| #[trigger] (head_on(bline_on(pre, crlf() + dashes() + b), name, filename, ctype) + data) == pre + lpart(b, Part { name, filename, ctype, data }),
        head_on(bline_on(pre, crlf() + dashes() + b), name, filename, ctype) == pre + lpart(b, Part { name, filename, ctype, data: Seq::<u8>::empty() }),
{
    part_is(pre + crlf(), b, name, filename, ctype);
    assert(bline_on(pre, crlf() + dashes() + b) == line_on(pre + crlf(), b)) by { broadcast use add_assoc; }
    let h = head_on(bline_on(pre, crlf() + dashes() + b), name, filename, ctype);
    assert forall|data: Seq<u8>| #[trigger] (h + data) == pre + lpart(b, Part { name, filename, ctype, data }) by {
        add_assoc(pre, crlf(), part(b, Part { name, filename, ctype, data }));
    }
    add_assoc(pre, crlf(), part(b, Part { name, filename, ctype, data: Seq::<u8>::empty() }));
}
proof fn lparts_mono(b: Seq<u8>, fs: Seq<Field>, n: int)
    requires 0 <= n <= fs.len()
    ensures lparts(b, texts(fs.take(n))).len() <= lparts(b, texts(fs)).len(), lparts_rev(b, others(fs.take(n))).len() <= lparts_rev(b, others(fs)).len()
    decreases fs.len() - n
{
    if n == fs.len() { assert(fs.take(n) =~= fs); }
    else {
        lparts_mono(b, fs, n + 1);
        assert(fs.take(n + 1) =~= fs.take(n).push(fs[n]));
        texts_push(fs.take(n), fs[n]);
        lparts_push(b, texts(fs.take(n)), fs[n].part());
        lparts_push(b, others(fs.take(n)), fs[n].part());
    }
}
/// all the fields, arranged, in bytes
proof fn lparts_arranged(b: Seq<u8>, fs: Seq<Field>)
    ensures lparts(b, arranged(fs)) == lparts(b, texts(fs)) + lparts_rev(b, others(fs))
{ lparts_concat(b, texts(fs), others(fs).reverse()); lparts_reversed(b, others(fs)); }
/// the length is announced when no field is a stream of unknown length
spec fn known_len(fs: Seq<Field>, n: nat) -> Option<u64> { if exists|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).is_stream() { None::<u64> } else { Some(n as u64) } }
/// what handling field `n` does
proof fn step(b: Seq<u8>, fs: Seq<Field>, n: int)
    requires 0 <= n < fs.len()
    ensures
        fs.skip(n)[0] == fs[n], fs.skip(n).skip(1) == fs.skip(n + 1),
        lparts(b, texts(fs.take(n + 1))) == lparts(b, texts(fs.take(n))) + (if fs[n].is_text() { lpart(b, fs[n].part()) } else { Seq::<u8>::empty() }),
        lparts_rev(b, others(fs.take(n + 1))) == (if fs[n].is_text() { Seq::<u8>::empty() } else { lpart(b, fs[n].part()) }) + lparts_rev(b, others(fs.take(n))),
        lparts(b, texts(fs.take(n + 1))).len() + lparts_rev(b, others(fs.take(n + 1))).len() + lend(b).len() <= lbody(b, arranged(fs)).len(),
{
    assert(fs.skip(n).skip(1) =~= fs.skip(n + 1));
    assert(fs.take(n + 1) =~= fs.take(n).push(fs[n]));
    texts_push(fs.take(n), fs[n]);
    lparts_push(b, texts(fs.take(n)), fs[n].part());
    lparts_push(b, others(fs.take(n)), fs[n].part());
    lparts_mono(b, fs, n + 1);
    lparts_arranged(b, fs);
    add_empty(lparts(b, texts(fs.take(n))));
    empty_add(lparts_rev(b, others(fs.take(n))));
}
proof fn lparts_concat(b: Seq<u8>, ps: Seq<Part>, qs: Seq<Part>)
    ensures lparts(b, ps + qs) == lparts(b, ps) + lparts(b, qs) decreases qs.len()
{
    if qs.len() == 0 { assert(ps + qs =~= ps); add_empty(lparts(b, ps)); }
    else { lparts_concat(b, ps, qs.drop_last()); assert((ps + qs).drop_last() =~= ps + qs.drop_last()); assert((ps + qs).last() == qs.last()); add_assoc(lparts(b, ps), lparts(b, qs.drop_last()), lpart(b, qs.last())); }
}
proof fn lparts_reversed(b: Seq<u8>, qs: Seq<Part>)
    ensures lparts_rev(b, qs) == lparts(b, qs.reverse()) decreases qs.len()
{
    broadcast use g_add;
    if qs.len() > 0 {
        lparts_reversed(b, qs.drop_last());
        let one = seq![qs.last()];
        assert(qs.reverse() =~= one + qs.drop_last().reverse());
        lparts_concat(b, one, qs.drop_last().reverse());
        assert(one.drop_last() =~= Seq::<Part>::empty());
        assert(lparts(b, one.drop_last()) == Seq::<u8>::empty());
        assert(lparts(b, one) == lpart(b, qs.last()));
    }
}
impl<'n, 'd> Field<'n, 'd> {
    spec fn is_text(&self) -> bool { self.data is Text }
    spec fn is_stream(&self) -> bool { self.data is Stream }
    spec fn part(&self) -> Part { match self.data {
        Data::Text(t) => text_part(cow_str(self.name), cow_str(t)),
        Data::File(p) => file_part(cow_str(self.name), cow_path(p)),
        Data::Stream(s) => Part { name: cow_str(self.name), filename: (match s.filename { Some(f) => Some(cow_str(f)), None => None }), ctype: Some(mime_text(s.content_type)), data: s.stream.rest() },
    } }
}
spec fn texts(fs: Seq<Field>) -> Seq<Part> decreases fs.len() {
    if fs.len() == 0 { Seq::<Part>::empty() } else if fs.last().is_text() { texts(fs.drop_last()).push(fs.last().part()) } else { texts(fs.drop_last()) }
}
spec fn others(fs: Seq<Field>) -> Seq<Part> decreases fs.len() {
    if fs.len() == 0 { Seq::<Part>::empty() } else if !fs.last().is_text() { others(fs.drop_last()).push(fs.last().part()) } else { others(fs.drop_last()) }
}
/// every field exactly once: texts first, then the others, last one first
spec fn arranged(fs: Seq<Field>) -> Seq<Part> { texts(fs) + others(fs).reverse() }
proof fn texts_push(fs: Seq<Field>, f: Field) ensures texts(fs.push(f)) == (if f.is_text() { texts(fs).push(f.part()) } else { texts(fs) }), others(fs.push(f)) == (if f.is_text() { others(fs) } else { others(fs).push(f.part()) })
{ assert(fs.push(f).drop_last() =~= fs); }
proof fn lparts_push(b: Seq<u8>, ps: Seq<Part>, p: Part) ensures lparts(b, ps.push(p)) == lparts(b, ps) + lpart(b, p), lparts_rev(b, ps.push(p)) == lpart(b, p) + lparts_rev(b, ps)
{ assert(ps.push(p).drop_last() =~= ps); }

spec fn streams_rest(ss: Seq<PreparedField>) -> Seq<u8> decreases ss.len() {
    if ss.len() == 0 { Seq::<u8>::empty() } else { ss.last().bytes() + streams_rest(ss.drop_last()) }
}
broadcast proof fn streams_push(ss: Seq<PreparedField>, x: PreparedField) ensures #[trigger] streams_rest(ss.push(x)) == x.bytes() + streams_rest(ss)
{ assert(ss.push(x).drop_last() =~= ss); }
impl<'d> PreparedField<'d> {
    spec fn bytes(&self) -> Seq<u8> { self.header.rest() + self.stream.rest() }
    spec fn inv(&self) -> bool { self.header.readable() }
}
impl<'d> PreparedFields<'d> {
    spec fn bytes(&self) -> Seq<u8> { self.text_data.rest() + streams_rest(self.streams@) + self.end_boundary.rest() }
    spec fn inv(&self) -> bool {
        &&& self.text_data.readable() && self.end_boundary.readable() && self.end_boundary.data().len() > 0
        &&& forall|i: int| 0 <= i < self.streams@.len() ==> (#[trigger] self.streams@[i]).inv()
        &&& self.end_boundary.pos > 0 ==> self.text_data.rest().len() == 0 && self.streams@.len() == 0
    }
    /// the boundary the body was made with
    spec fn made_with(&self, b: Seq<u8>) -> bool { string_bytes(self.end_boundary.inner) == lend(b) }
}

//@fn cursor_at_end
//@sig fn cursor_at_end<T: AsRef<[u8]>>(cursor: &Cursor<T>) -> bool
    requires cursor.data().len() <= u64::MAX
    ensures r == (cursor.pos == cursor.data().len())
//@end

impl<'a, E> LazyError<'a, E> {
//@fn LazyError::without_field
//@sig fn without_field<E_: Into<E>>(error: E_) -> Self
    ensures r.field_name is None, r.error == conv::<E_, E>(error)
//@end
//@fn LazyError::with_field
//@sig fn with_field<E_: Into<E>>(field_name: Cow<'a, str>, error: E_) -> Self
    ensures r.field_name == Some(field_name), r.error == conv::<E_, E>(error)
//@end
//@fn LazyError::transform_err
//@sig fn transform_err<E_: From<E>>(self) -> LazyError<'a, E_>
    ensures r.field_name == self.field_name, r.error == conv::<E, E_>(self.error)
//@end
}

impl<'d> PreparedField<'d> {
//@fn PreparedField::from_path
//@sig fn from_path<'n>(name: Cow<'n, str>, path: &Path, boundary: &str) -> Result<(Self, u64), LazyIoError<'n>>
    requires lpart(str_bytes(boundary).skip(4), file_part(cow_str(name), path)).len() <= u64::MAX, str_bytes(boundary) == crlf() + dashes() + str_bytes(boundary).skip(4)
    ensures match r {
        Ok((p, n)) => p.inv() && p.bytes() == lpart(str_bytes(boundary).skip(4), file_part(cow_str(name), path)) && n == p.bytes().len(),
        Err(e) => e.field_name matches Some(f) && cow_str(f) == cow_str(name) }
//@prologue
broadcast use g_add, conv_same, vec_bytes;
//@end
//@fn PreparedField::from_stream
//@sig fn from_stream(name: &str, boundary: &str, content_type: &Mime, filename: Option<&str>, stream: DynRead<'d>) -> Self
    requires str_bytes(boundary) == crlf() + dashes() + str_bytes(boundary).skip(4)
    ensures r.inv(), r.header.pos == 0, r.stream == stream,
        r.header.data() + stream.rest() == lpart(str_bytes(boundary).skip(4), Part { name: ss(name), filename: opt_ss(filename), ctype: Some(mime_text(*content_type)), data: stream.rest() }),
        r.bytes() == r.header.data() + stream.rest()
//@prologue
broadcast use add_empty, empty_add, vec_bytes; proof { lpart_is(Seq::empty(), str_bytes(boundary).skip(4), ss(name), opt_ss(filename), Some(mime_text(*content_type))); assert forall|x: Seq<u8>| #[trigger] x.skip(0) == x by { assert(x.skip(0) =~= x); } }
//@end
//@fn Read for PreparedField::read
//@sig fn read(&mut self, buf: &mut [u8]) -> io::Result<usize>
    requires old(self).inv()
    ensures final(self).inv(), match r {
        Ok(n) => n <= old(buf)@.len() && n <= old(self).bytes().len() && final(self).bytes() == old(self).bytes().skip(n as int)
            && final(buf)@ == old(self).bytes().take(n as int) + old(buf)@.skip(n as int)
            && (n == 0 ==> old(buf)@.len() == 0 || old(self).bytes().len() == 0),
        Err(_) => final(self).bytes() == old(self).bytes() && final(buf)@.len() == old(buf)@.len() }
//@prologue
broadcast use g_cut;
//@end
}

impl<'d> PreparedFields<'d> {
//@fn PreparedFields::from_fields
//@rename len vx_len
//@sig fn from_fields<'n>(fields: &mut Vec<Field<'n, 'd>>) -> Result<Self, LazyIoError<'n>>
    requires forall|b: Seq<u8>| b.len() == 16 ==> #[trigger] lbody(b, arranged(old(fields)@)).len() <= u64::MAX
    ensures match r {
        Ok(p) => p.inv() && final(fields)@.len() == 0 && exists|b: Seq<u8>| p.made_with(b) && b.len() == 16 && (forall|i: int| 0 <= i < 16 ==> is_alnum(#[trigger] b[i]))
            && p.bytes() == #[trigger] lbody(b, arranged(old(fields)@))
            && p.content_len == known_len(old(fields)@, p.bytes().len()),
        Err(e) => exists|i: int| 0 <= i < old(fields)@.len() && #[trigger] old(fields)@[i].data is File && e.field_name is Some && cow_str(e.field_name->0) == cow_str(old(fields)@[i].name) }
//@prologue
broadcast use add_empty, empty_add, vec_bytes, string_bytes_ref, streams_push;
let ghost fs = old(fields)@;
proof {
    assert(fs.take(0) =~= Seq::empty()); assert(fs.skip(0) =~= fs); assert(fs.take(fs.len() as int) =~= fs);
    assert forall|b: Seq<u8>| #[trigger] lparts(b, arranged(fs)) == lparts(b, texts(fs)) + lparts_rev(b, others(fs)) by { lparts_arranged(b, fs); }
    assert forall|x: Seq<u8>| #[trigger] x.skip(0) == x by { assert(x.skip(0) =~= x); }
    assert forall|x: Seq<u8>| #[trigger] (crlf() + dashes() + x).skip(4) == x by { assert((crlf() + dashes() + x).skip(4) =~= x); }
}
//@loop 0
    invariant
        fs == old(fields)@, fields@.len() == 0,
        vx_it0.rest().len() <= fs.len(), vx_it0.rest() == fs.skip(fs.len() - vx_it0.rest().len()),
        string_bytes(boundary) == crlf() + dashes() + string_bytes(boundary).skip(4), string_bytes(boundary).skip(4).len() == 16,
        forall|i: int| 0 <= i < 16 ==> is_alnum(#[trigger] string_bytes(boundary).skip(4)[i]),
        lbody(string_bytes(boundary).skip(4), arranged(fs)).len() <= u64::MAX,
        text_data@ == lparts(string_bytes(boundary).skip(4), texts(fs.take(fs.len() - vx_it0.rest().len()))),
        streams_rest(streams@) == lparts_rev(string_bytes(boundary).skip(4), others(fs.take(fs.len() - vx_it0.rest().len()))),
        forall|i: int| 0 <= i < streams@.len() ==> (#[trigger] streams@[i]).inv(),
        use_len == (forall|i: int| 0 <= i < fs.len() - vx_it0.rest().len() ==> !(#[trigger] fs[i]).is_stream()),
        use_len ==> content_len == streams_rest(streams@).len(),
        content_len <= streams_rest(streams@).len(),
    ensures vx_it0.rest().len() == 0
    decreases vx_it0.rest().len()
//@body 0
proof {
    let b = string_bytes(boundary).skip(4);
    let n = fs.len() - vx_it0.rest().len();
    assert forall|x: PreparedField| #[trigger] streams_rest(streams@.push(x)) == x.bytes() + streams_rest(streams@) by { streams_push(streams@, x); }
    if n < fs.len() {
        step(b, fs, n);
        lpart_is(text_data@, b, cow_str(fs[n].name), None, None);
        assert(fs[n].is_stream() || fs[n].is_text() || fs[n].data is File);
    }
}
//@end
//@fn PreparedFields::content_len
//@sig fn content_len(&self) -> Option<u64>
    ensures r == self.content_len
//@end
//@fn PreparedFields::boundary
//@rename str-index str
//@rename len vx_len
//@sig fn boundary(&self) -> &str
    requires exists|b: Seq<u8>| #[trigger] self.made_with(b) && (forall|i: int| 0 <= i < b.len() ==> is_alnum(#[trigger] b[i]))
    ensures forall|b: Seq<u8>| #[trigger] self.made_with(b) ==> str_bytes(r) =~= b
//@end
//@fn Read for PreparedFields::read as vx_read
//@sig fn read(&mut self, buf: &mut [u8]) -> io::Result<usize>
    requires old(self).inv()
    ensures final(self).inv(), match r {
        Ok(n) => n <= old(buf)@.len() && n <= old(self).bytes().len() && final(self).bytes() == old(self).bytes().skip(n as int)
            && final(buf)@ == old(self).bytes().take(n as int) + old(buf)@.skip(n as int)
            && (n == 0 ==> old(buf)@.len() == 0 || old(self).bytes().len() == 0),
        Err(_) => final(self).bytes() == old(self).bytes() },
        final(buf)@.len() == old(buf)@.len(),
        final(self).end_boundary.inner == old(self).end_boundary.inner, final(self).content_len == old(self).content_len
//@prologue
proof { assert(old(self).bytes().skip(0) =~= old(self).bytes()); assert(old(self).bytes().take(0) + old(buf)@.skip(0) =~= old(buf)@); }
//@body 0
proof {
    let (t, s, e, o) = (self.text_data.rest(), streams_rest(self.streams@), self.end_boundary.rest(), old(self).bytes());
    assert forall|n: int| 0 <= n <= t.len() implies (#[trigger] t.skip(n)) + s + e == o.skip(n) && t.take(n) == o.take(n) by {
        assert(t.skip(n) + s + e =~= o.skip(n)); assert(t.take(n) =~= o.take(n));
    }
    if t.len() == 0 {
        if self.streams@.len() > 0 {
            let (f, l) = (self.streams@.last().bytes(), self.streams@.drop_last());
            let r = streams_rest(l);
            assert forall|n: int| 0 <= n <= f.len() implies t + ((#[trigger] f.skip(n)) + r) + e == o.skip(n) && f.take(n) == o.take(n) by {
                assert(t + (f.skip(n) + r) + e =~= o.skip(n)); assert(f.take(n) =~= o.take(n));
            }
            assert forall|x: PreparedField| #[trigger] streams_rest(l.push(x)) == x.bytes() + r by { streams_push(l, x); }
            if f.len() == 0 { assert(t + r + e =~= o); }
        } else {
            assert forall|n: int| 0 <= n <= e.len() implies t + s + (#[trigger] e.skip(n)) == o.skip(n) && e.take(n) == o.take(n) by {
                assert(t + s + e.skip(n) =~= o.skip(n)); assert(e.take(n) =~= o.take(n));
            }
        }
    }
}
//@loop 0
    invariant self.inv(), total_read <= old(buf)@.len(), old(buf)@.len() > 0, buf@.len() == old(buf)@.len(), total_read <= old(self).bytes().len(),
        self.end_boundary.inner == old(self).end_boundary.inner, self.content_len == old(self).content_len,
        self.bytes() == (if total_read == 0 { old(self).bytes() } else { old(self).bytes().skip(total_read as int) }),
        buf@ == (if total_read == 0 { old(buf)@ } else { old(self).bytes().take(total_read as int) + old(buf)@.skip(total_read as int) }),
    decreases (if total_read == 0 { self.streams@.len() + 1 } else { 0 })
//@end
}
impl<'d> Read for PreparedFields<'d> {
    closed spec fn rest(&self) -> Seq<u8> { self.bytes() }
    closed spec fn readable(&self) -> bool { self.inv() }
    fn read(&mut self, out: &mut [u8]) -> (r: io::Result<usize>) { self.vx_read(out) }
}

pub trait IntoCowPath<'a>: Sized { spec fn cow_path_spec(self) -> &'a Path; fn into_cow_path(self) -> (r: Cow<'a, Path>) ensures cow_path(r) == self.cow_path_spec(); }
#[verifier::external_body] pub struct PathBuf { _p: () }
/// the path that an owned one, or a text, denotes
pub uninterp spec fn buf_path(p: PathBuf) -> &'static Path;
pub uninterp spec fn named_path(s: Seq<u8>) -> &'static Path;
impl PathBuf { #[verifier::external_body] pub fn from(s: String) -> (r: PathBuf) ensures buf_path(r) == named_path(string_bytes(s)) { unimplemented!() } }
impl Path { #[verifier::external_body] pub fn new<'x>(s: &'x str) -> (r: &'x Path) ensures *r == *named_path(str_bytes(s)) { unimplemented!() } }
pub broadcast axiom fn conv_pathbuf<'a>(p: PathBuf) ensures #[trigger] cow_path(conv::<PathBuf, Cow<'a, Path>>(p)) == buf_path(p);
pub broadcast axiom fn conv_path<'a>(p: &'a Path) ensures #[trigger] cow_path(conv::<&'a Path, Cow<'a, Path>>(p)) == p;
impl<'a> IntoCowPath<'a> for Cow<'a, Path> {
    open spec fn cow_path_spec(self) -> &'a Path { cow_path(self) }
//@fn IntoCowPath for Cow::into_cow_path
//@sig fn into_cow_path(self) -> Cow<'a, Path>
//@end
}
impl IntoCowPath<'static> for PathBuf {
    open spec fn cow_path_spec(self) -> &'static Path { buf_path(self) }
//@fn IntoCowPath for PathBuf::into_cow_path
//@sig fn into_cow_path(self) -> Cow<'static, Path>
//@prologue
broadcast use conv_pathbuf;
//@end
}
impl<'a> IntoCowPath<'a> for &'a Path {
    open spec fn cow_path_spec(self) -> &'a Path { self }
//@fn IntoCowPath for &Path::into_cow_path
//@sig fn into_cow_path(self) -> Cow<'a, Path>
//@prologue
broadcast use conv_path;
//@end
}
impl IntoCowPath<'static> for String {
    open spec fn cow_path_spec(self) -> &'static Path { named_path(string_bytes(self)) }
//@fn IntoCowPath for String::into_cow_path
//@sig fn into_cow_path(self) -> Cow<'static, Path>
//@prologue
broadcast use conv_pathbuf;
//@end
}
impl<'a> IntoCowPath<'a> for &'a str {
    open spec fn cow_path_spec(self) -> &'a Path { named_path(str_bytes(self)) }
//@fn IntoCowPath for &str::into_cow_path
//@sig fn into_cow_path(self) -> Cow<'a, Path>
//@prologue
broadcast use conv_path;
//@end
}
//@rename-method io::Error::into vx_conv
/// the response is the one to a request that announced the boundary (and the length, when known) and carried exactly this body
spec fn sent<R: HttpRequest>(fs: Seq<Field>, req: R, x: <R::Stream as HttpStream>::Response) -> bool {
    exists|b: Seq<u8>, q: R, s0: R::Stream, s: R::Stream| b.len() == 16 && (forall|i: int| 0 <= i < 16 ==> is_alnum(#[trigger] b[i]))
        && q.announces(&req, b, known_len(fs, lbody(b, arranged(fs)).len()))
        && #[trigger] q.opened(s0) && s.out() == #[trigger] lbody(b, arranged(fs)) && #[trigger] s.answers(x)
}
impl<'n, 'd> Multipart<'n, 'd> {
    /// one more field, all others as they were
    spec fn added(&self, o: &Self, text: bool, stream: bool, p: Part) -> bool {
        self.fields@.len() == o.fields@.len() + 1 && self.fields@ == o.fields@.push(self.fields@.last())
            && self.fields@.last().is_text() == text && self.fields@.last().is_stream() == stream && self.fields@.last().part() == p
    }
//@fn Multipart::add_text
//@sig fn add_text<N: Into<Cow<'n, str>>, T: Into<Cow<'d, str>>>(&mut self, name: N, text: T) -> &mut Self
    ensures (*r).added(old(self), true, false, text_part(cow_str(conv::<N, Cow<'n, str>>(name)), cow_str(conv::<T, Cow<'d, str>>(text)))), *final(r) == *final(self)
//@end
//@fn Multipart::add_file
//@sig fn add_file<N: Into<Cow<'n, str>>, P: IntoCowPath<'d>>(&mut self, name: N, path: P) -> &mut Self
    ensures (*r).added(old(self), false, false, file_part(cow_str(conv::<N, Cow<'n, str>>(name)), path.cow_path_spec())), *final(r) == *final(self)
//@end
//@fn Multipart::add_stream
//@sig fn add_stream<N: Into<Cow<'n, str>>, R: Read + 'd, F: Into<Cow<'n, str>>>(&mut self, name: N, stream: R, filename: Option<F>, mime: Option<Mime>) -> &mut Self
    requires stream.readable()
    ensures (*r).added(old(self), false, true, stream_part(cow_str(conv::<N, Cow<'n, str>>(name)), (match filename { Some(f) => Some(cow_str(conv::<F, Cow<'n, str>>(f))), None => None }), mime, stream.rest())), *final(r) == *final(self)
//@end
//@fn Multipart::prepare
//@sig fn prepare(&mut self) -> LazyIoResult<'n, PreparedFields<'d>>
    requires forall|b: Seq<u8>| b.len() == 16 ==> #[trigger] lbody(b, arranged(old(self).fields@)).len() <= u64::MAX
    ensures r matches Ok(p) ==> p.inv() && final(self).fields@.len() == 0 && exists|b: Seq<u8>| p.made_with(b) && b.len() == 16 && (forall|i: int| 0 <= i < 16 ==> is_alnum(#[trigger] b[i]))
            && p.bytes() == #[trigger] lbody(b, arranged(old(self).fields@)) && p.content_len == known_len(old(self).fields@, p.bytes().len())
//@end
//@fn Multipart::send
//@sig fn send<R: HttpRequest>(&mut self, mut req: R) -> Result<<R::Stream as HttpStream>::Response, LazyError<'n, <R::Stream as HttpStream>::Error>>
    requires forall|b: Seq<u8>| b.len() == 16 ==> #[trigger] lbody(b, arranged(old(self).fields@)).len() <= u64::MAX
    ensures r matches Ok(x) ==> sent(old(self).fields@, req, x)
//@prologue
broadcast use zero_add;
//@end
}
