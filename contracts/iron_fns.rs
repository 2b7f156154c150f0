// ---------- the middleware
//@source src/server/iron.rs
//@item const DEFAULT_FILE_SIZE_LIMIT
//@item const DEFAULT_FILE_COUNT_LIMIT
//@item struct Intercept
#[derive(Clone, Copy)]
//@item enum LimitBehavior
//@item struct FileSizeLimitError
//@item struct FileCountLimitError
#[verifier::external_body] pub struct IronError { _p: () }
pub type IronResult<T> = Result<T, IronError>;
/// the error was made of that one
pub uninterp spec fn about<E>(x: IronError, e: E) -> bool;
impl IronError { #[verifier::external_body] pub fn new<E>(e: E, m: String) -> (r: IronError) ensures about(r, e) { unimplemented!() } }
impl VxDisplay for FileSizeLimitError { uninterp spec fn text(&self) -> Seq<u8>; }
impl VxDisplay for FileCountLimitError { uninterp spec fn text(&self) -> Seq<u8>; }
/// a map that has a value under its type, and otherwise what another one had
pub uninterp spec fn with_ext<V>(m: TypeMap, v: V) -> TypeMap;
impl TypeMap { #[verifier::external_body] pub fn insert<V>(&mut self, v: V) -> (r: Option<V>) ensures *final(self) == with_ext(*old(self), v) { unimplemented!() } }
type IronMultipart<'r, 'a, 'b> = Multipart<&'r mut IronBody<'a, 'b>>;
/// a body is shorter than 2^64 bytes
broadcast axiom fn body_bounded<'r, 'a, 'b>(b: &'r mut IronBody<'a, 'b>) ensures #[trigger] bytes_of(b).len() <= u64::MAX;
impl FileSizeLimitError {
//@fn Into<IronError> for FileSizeLimitError::into as vx_into_iron
//@sig fn vx_into_iron(self) -> IronError
    ensures about(r, self)
//@end
}
impl FileCountLimitError {
//@fn Into<IronError> for FileCountLimitError::into as vx_into_iron
//@sig fn vx_into_iron(self) -> IronError
    ensures about(r, self)
//@end
}
/// the error was made of an I/O error
spec fn names_io_error(x: IronError) -> bool { exists|e: io::Error| #[trigger] about(x, e) }
//@fn io_to_iron
//@sig fn io_to_iron<M: Into<String>>(err: io::Error, msg: M) -> IronError
    ensures about(r, err), names_io_error(r)
//@end
// ---------- what the middleware does with a request
spec fn write_new() -> OpenOptions { OpenOptions { read: false, write: true, append: false, truncate: false, create: false, create_new: true } }
impl Intercept {
    /// the settings of the saves
    spec fn field_limits(&self) -> Cfg { Cfg { opts: write_new(), size_limit: self.file_size_limit, threshold: 10240, policy: Try } }
    spec fn strict_cfg(&self) -> ReqCfg { ReqCfg { field: self.field_limits(), count: self.file_count_limit } }
    spec fn lenient_cfg(&self) -> ReqCfg { ReqCfg { field: self.field_limits(), count: u32::MAX } }
    /// the directory is in the configured one, which was made if it was not there
    spec fn dir_for(&self, t: TempDir) -> bool { match self.temp_dir_path { Some(p) => dir_made(p) && exists|x: &str| #[trigger] fresh_dir_in(t, x, p), None => exists|x: &str| #[trigger] fresh_dir(t, x) } }
}
/// a field of which only the first bytes were kept, because of the size limit; the rest of it is unread
spec fn cut_of(c: ReqCfg, a: (Pos, Entries), b: (Pos, Entries), h: FieldHeaders, rest: Seq<u8>, d: SavedData) -> bool {
    &&& entry_at(a.0.rest, a.0.f, h, rest, b.0.f) && 0 <= size_of(d) <= rest.len() && b.0.rest == rest.skip(size_of(d))
    &&& field_saved(field_cfg(c.field, h), a.1.save_dir.at(), Pos { rest, f: b.0.f }, Partial(d, PartialReason::SizeLimit)) && pushed(a.1, b.1, h, d)
}
spec fn cut(c: ReqCfg, a: (Pos, Entries), b: (Pos, Entries)) -> bool { exists|h: FieldHeaders, rest: Seq<u8>, d: SavedData| #[trigger] cut_of(c, a, b, h, rest, d) }
/// one field was read, saved completely or truncated, and added to the entries
spec fn lstep(c: ReqCfg, a: (Pos, Entries), b: (Pos, Entries)) -> bool { step(c, a, b) || cut(c, a, b) }
spec fn lrun(c: ReqCfg, t: Seq<(Pos, Entries)>, a: (Pos, Entries), b: (Pos, Entries)) -> bool { t.len() > 0 && t[0] == a && t.last() == b && forall|i: int| 0 < i < t.len() ==> lstep(c, #[trigger] t[i - 1], t[i]) }
/// from `a` to `b` by fields saved completely or truncated, none left out
spec fn kept_all(c: ReqCfg, a: (Pos, Entries), b: (Pos, Entries)) -> bool { exists|t: Seq<(Pos, Entries)>| #[trigger] lrun(c, t, a, b) }
proof fn kept_join(c: ReqCfg, a: (Pos, Entries), b: (Pos, Entries), d: (Pos, Entries))
    requires kept_all(c, a, b), kept_all(c, b, d)
    ensures kept_all(c, a, d)
{
    let t = choose|t: Seq<(Pos, Entries)>| #[trigger] lrun(c, t, a, b);
    let u = choose|u: Seq<(Pos, Entries)>| #[trigger] lrun(c, u, b, d);
    let w = t + u.skip(1);
    assert forall|i: int| 0 < i < w.len() implies lstep(c, #[trigger] w[i - 1], w[i]) by {
        if i < t.len() { assert(lstep(c, t[i - 1], t[i])); }
        else { let j = i - t.len() + 1; assert(w[i] == u[j]); assert(w[i - 1] == u[j - 1]); assert(lstep(c, u[j - 1], u[j])); }
    }
    assert(w.last() == d) by { if u.len() > 1 { assert(w.last() == u.last()); } }
    assert(lrun(c, w, a, d));
}
broadcast proof fn kept_saves(c: ReqCfg, a: (Pos, Entries), b: (Pos, Entries), d: (Pos, Entries))
    requires #[trigger] kept_all(c, a, b), #[trigger] saves(c, b, d)
    ensures kept_all(c, a, d)
{
    let t = choose|t: Seq<(Pos, Entries)>| #[trigger] run_between(c, t, b, d);
    assert forall|i: int| 0 < i < t.len() implies lstep(c, #[trigger] t[i - 1], t[i]) by { assert(step(c, t[i - 1], t[i])); }
    assert(lrun(c, t, b, d));
    kept_join(c, a, b, d);
}
broadcast proof fn field_facts(c: Cfg, dir: Path, d: Pos, r: FieldSaveResult)
    requires #[trigger] field_saved(c, dir, d, r)
    ensures r is Partial ==> 0 <= taken_by(r) <= d.rest.len(), r matches Partial(_, PartialReason::Utf8Error(_)) ==> c.policy == Force
{ reveal(field_saved); }
broadcast proof fn kept_cut(c: ReqCfg, a: (Pos, Entries), p: Pos, ea: Entries, eb: Entries, h: FieldHeaders, x: Pos, s: SavedData, reason: PartialReason)
    requires reason is SizeLimit, #[trigger] kept_all(c, a, (p, ea)), entry_at(p.rest, p.f, h, x.rest, x.f), #[trigger] pushed(ea, eb, h, s),
        #[trigger] field_saved(field_cfg(c.field, h), ea.save_dir.at(), x, Partial(s, reason))
    ensures kept_all(c, a, (Pos { rest: x.rest.skip(size_of(s)), f: x.f }, eb))
{
    let (b, d) = ((p, ea), (Pos { rest: x.rest.skip(size_of(s)), f: x.f }, eb));
    reveal(field_saved);
    assert(0 <= size_of(s));
    assert(cut_of(c, b, d, h, x.rest, s));
    let t = seq![b, d];
    assert forall|i: int| 0 < i < t.len() implies lstep(c, #[trigger] t[i - 1], t[i]) by { assert(i == 1); assert(t[0] == b && t[1] == d); }
    assert(lrun(c, t, b, d));
    kept_join(c, a, b, d);
}
broadcast proof fn kept_first(c: ReqCfg, a: (Pos, Entries), d: (Pos, Entries))
    requires #[trigger] saves(c, a, d)
    ensures kept_all(c, a, d)
{ assert(lrun(c, seq![a], a, a)); kept_saves(c, a, a, d); }
spec fn left(p: Pos) -> nat { p.rest.len() + p.f.after.len() }
/// fields are only added, and what is read is not read again
broadcast proof fn saves_grow(c: ReqCfg, a: (Pos, Entries), b: (Pos, Entries))
    requires #[trigger] saves(c, a, b)
    ensures a.1.fields_count <= b.1.fields_count, left(b.0) <= left(a.0), a.1.fields_count >= c.count ==> a == b, b.1.save_dir == a.1.save_dir
{
    let t = choose|t: Seq<(Pos, Entries)>| #[trigger] run_between(c, t, a, b);
    saves_counted(c, t, a, b);
    run_shrinks(c, t, a, b);
}
proof fn run_shrinks(c: ReqCfg, t: Seq<(Pos, Entries)>, a: (Pos, Entries), b: (Pos, Entries))
    requires run_between(c, t, a, b)
    ensures left(b.0) <= left(a.0), t.len() > 1 ==> a.1.fields_count < c.count, t.len() == 1 ==> a == b
    decreases t.len()
{
    if t.len() > 1 {
        let i = 1int; assert(step(c, t[i - 1], t[i]));
        let (h, rest, s) = choose|h: FieldHeaders, rest: Seq<u8>, s: SavedData| #[trigger] step_of(c, t[0], t[1], h, rest, s);
        entry_shrinks(t[0].0.rest, t[0].0.f, h, rest, t[1].0.f);
        let u = t.skip(1);
        assert forall|i: int| 0 < i < u.len() implies step(c, #[trigger] u[i - 1], u[i]) by { assert(u[i - 1] == t[i]); assert(u[i] == t[i + 1]); let j = i + 1; assert(step(c, t[j - 1], t[j])); }
        assert(u.last() == t.last());
        assert(run_between(c, u, t[1], b));
        run_shrinks(c, u, t[1], b);
    }
}
/// a save under the strict behaviour: everything, or an error that names the reason
spec fn strict_result<M: ReadEntry>(lim: Intercept, s: EntriesSaveResult<M>, r: IronResult<Option<Entries>>) -> bool {
    match s {
        Full(e) => r == Ok::<Option<Entries>, IronError>(Some(e)),
        Partial(pe, PartialReason::CountLimit) => r matches Err(x) && about(x, FileCountLimitError(lim.file_count_limit)),
        Partial(pe, PartialReason::SizeLimit) => pe.partial is Some && (r matches Err(x) && about(x, FileSizeLimitError { field: pe.partial->0.source.headers })),
        Partial(pe, PartialReason::IoError(e)) => r matches Err(x) && about(x, e),
        _ => false,
    }
}
impl<R: Read> Multipart<R> {
//@source src/server/mod.rs
//@fn Multipart::save
//@sig fn save(&mut self) -> SaveBuilder<&mut Self>
    ensures *r.savable == *old(self), *final(r.savable) == *final(self), r.open_opts == write_new(), r.size_limit == 8 * 1024 * 1024, r.count_limit == 256, r.memory_threshold == 10 * 1024, r.text_policy == Try
//@end
    spec fn startable(&self) -> bool { self.reader.inv() && self.reader.s().len() <= u64::MAX && disk_ok() }
}
broadcast proof fn can_begin<R: Read>(m: Multipart<R>)
    requires #[trigger] m.reader.inv()
    ensures m.src().readable(), placed(m.src().rest(), m.src().frame()), left(pos_of(m)) == m.reader.s().len(), m.src().rest() + m.src().frame().after == m.reader.s()
{ broadcast use end_bounds; joined(m.reader.s(), m.reader.end()); }
//@source src/server/iron.rs
//@item const EXPECT_PARTIAL_FILE
/// reading of this body has not begun yet
spec fn starts(p: Pos, body: Seq<u8>, b: Seq<u8>) -> bool { p.rest + p.f.after == body && p.f.b == dashes() + b && !p.f.ended && placed(p.rest, p.f) }
spec fn strict_outcome(lim: Intercept, t: TempDir, p0: Pos, r: IronResult<Option<Entries>>) -> bool {
    exists|e0: Entries, s: EntriesSaveResult<&mut IronMultipart>| e0.empty_in(SaveDir::Temp(t)) && #[trigger] request_saved(lim.strict_cfg(), p0, e0, s) && strict_result(lim, s, r)
}
/// (a count of 2^32 - 1 fields is as many as can be counted)
spec fn kept_whole(lim: Intercept, t: TempDir, p0: Pos, e: Entries) -> bool {
    e.fields_count == u32::MAX || exists|e0: Entries, p: Pos, rest2: Seq<u8>, f2: Frame| e0.empty_in(SaveDir::Temp(t)) && #[trigger] kept_all(lim.lenient_cfg(), (p0, e0), (p, e)) && #[trigger] end_at(p.rest, p.f, rest2, f2)
}
/// the entries of the whole request with its first bytes of those that are too long, or an I/O error
spec fn lenient_outcome(lim: Intercept, t: TempDir, p0: Pos, r: IronResult<Option<Entries>>) -> bool {
    match r { Ok(Some(e)) => e.save_dir == SaveDir::Temp(t) && kept_whole(lim, t, p0, e), Ok(None) => false, Err(x) => names_io_error(x) }
}
/// the request had this body and boundary: its entries are in a directory of the configured place
spec fn handled(lim: Intercept, body: IronBody, b: Seq<u8>, r: IronResult<Option<Entries>>) -> bool {
    (r matches Err(x) && names_io_error(x)) || match lim.limit_behavior {
        LimitBehavior::ThrowError => exists|t: TempDir, p0: Pos, m: &mut IronBody| lim.dir_for(t) && *m == body && starts(p0, #[trigger] bytes_of(m), b) && #[trigger] strict_outcome(lim, t, p0, r),
        LimitBehavior::Continue => exists|t: TempDir, p0: Pos, m: &mut IronBody| lim.dir_for(t) && *m == body && starts(p0, #[trigger] bytes_of(m), b) && #[trigger] lenient_outcome(lim, t, p0, r) }
}
impl Intercept {
//@fn Intercept::temp_dir_path as set_temp_dir_path
//@sig fn set_temp_dir_path<P: Into<PathBuf>>(self, path: P) -> Self
    ensures r == (Intercept { temp_dir_path: Some(conv::<P, Path>(path)), ..self })
//@end
//@fn Intercept::file_size_limit as set_file_size_limit
//@sig fn set_file_size_limit(self, limit: u64) -> Self
    ensures r == (Intercept { file_size_limit: limit, ..self })
//@end
//@fn Intercept::file_count_limit as set_file_count_limit
//@sig fn set_file_count_limit(self, limit: u32) -> Self
    ensures r == (Intercept { file_count_limit: limit, ..self })
//@end
//@fn Intercept::limit_behavior as set_limit_behavior
//@sig fn set_limit_behavior(self, behavior: LimitBehavior) -> Self
    ensures r == (Intercept { limit_behavior: behavior, ..self })
//@end
//@fn Default for Intercept::default as intercept_default
//@sig fn intercept_default() -> Self
    ensures r == (Intercept { temp_dir_path: None, file_size_limit: DEFAULT_FILE_SIZE_LIMIT, file_count_limit: DEFAULT_FILE_COUNT_LIMIT, limit_behavior: LimitBehavior::ThrowError })
//@end
//@fn Intercept::read_request_strict
//@rename into vx_into_iron
//@sig fn read_request_strict(&self, multipart: IronMultipart, tempdir: TempDir) -> IronResult<Option<Entries>>
    requires multipart.startable()
    ensures strict_outcome(*self, tempdir, pos_of(multipart), r)
//@prologue
broadcast use can_begin, field_facts;
//@end
//@fn Intercept::read_request_lenient
//@attr #[verifier::loop_isolation(false)]
//@sig fn read_request_lenient(&self, multipart: IronMultipart, tempdir: TempDir) -> IronResult<Option<Entries>>
    requires multipart.startable()
    ensures lenient_outcome(*self, tempdir, pos_of(multipart), r)
//@prologue
broadcast use can_begin, kept_saves, kept_cut, kept_first, saves_grow, placed_after, entry_shrinks, field_facts;
let ghost (c, p0) = (self.lenient_cfg(), pos_of(multipart));
//@loop 0
    invariant multipart.startable(), entries.counted(), entries.save_dir == SaveDir::Temp(tempdir), entries.fields_count == u32::MAX || exists|e0: Entries, p: Pos| e0.empty_in(SaveDir::Temp(tempdir)) && #[trigger] kept_all(c, (p0, e0), (p, entries)) && p == pos_of(multipart)
    decreases multipart.reader.s().len()
//@end
//@fn Intercept::read_request
//@rename comb:and_then Result
//@rename ? same
//@sig fn read_request(&self, req: &mut IronRequest) -> IronResult<Option<Entries>>
    requires fits(announced_by(old(req).method, old(req).headers)), disk_ok()
    ensures final(req).method == old(req).method, final(req).headers == old(req).headers, final(req).extensions == old(req).extensions,
        match announced_by(old(req).method, old(req).headers) { None => r matches Ok(None) && *final(req) == *old(req), Some(b) => handled(*self, old(req).body, b, r) }
//@prologue
broadcast use can_begin, body_bounded, conv_same;
//@end
//@fn BeforeMiddleware for Intercept::before
//@rename ? same
//@sig fn before(&self, req: &mut IronRequest) -> IronResult<()>
    requires fits(announced_by(old(req).method, old(req).headers)), disk_ok()
    ensures match announced_by(old(req).method, old(req).headers) {
        None => r is Ok && *final(req) == *old(req),
        Some(b) => final(req).method == old(req).method && final(req).headers == old(req).headers && match r {
            Ok(_) => exists|e: Entries| #[trigger] handled(*self, old(req).body, b, Ok(Some(e))) && final(req).extensions == with_ext(old(req).extensions, e),
            Err(x) => handled(*self, old(req).body, b, Err(x)) && final(req).extensions == old(req).extensions } }
//@prologue
broadcast use conv_same;
//@end
}
