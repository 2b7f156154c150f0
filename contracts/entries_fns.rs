// ---------- a reader that is borrowed
impl<'a, B: BufRead> BufRead for &'a mut B {
    open spec fn rest(&self) -> Seq<u8> { (**self).rest() }
    open spec fn readable(&self) -> bool { (**self).readable() }
    open spec fn avail(&self) -> Seq<u8> { (**self).avail() }
    open spec fn frame(&self) -> Frame { (**self).frame() }
    open spec fn patience(&self) -> nat { (**self).patience() }
    type Root = (B, B::Root);
    #[verifier::prophetic] open spec fn root(&self) -> (B, B::Root) { (*final(*self), (**self).root()) }
    fn read(&mut self, out: &mut [u8]) -> (r: io::Result<usize>) { (**self).read(out) }
    fn fill_buf(&mut self) -> (r: io::Result<&[u8]>) { (**self).fill_buf() }
    fn consume(&mut self, n: usize) { (**self).consume(n) }
}
axiom fn path_of_ref(p: &Path) ensures as_path::<&Path>(p) == *p;
impl<T: ?Sized> Arc<T> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// ---------- `HashMap`, keyed by names
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: K, v: V }
pub mod collections { pub mod hash_map { use vstd::prelude::*; use super::super::*;
    #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub enum Entry<'a, K, V> { Vacant(VacantEntry<'a, K, V>), Occupied(OccupiedEntry<'a, K, V>) }
    #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct VacantEntry<'a, K, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
    #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct OccupiedEntry<'a, K, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
    impl<'a, V> VacantEntry<'a, Arc<str>, V> {
        #[verifier::external_body] pub fn insert(self, v: V) -> (r: &'a mut V)
            ensures *r == v, final(self.map).map() == old(self.map).map().insert(arc_str(self.key), *final(r)) { unimplemented!() }
    }
    impl<'a, V> OccupiedEntry<'a, Arc<str>, V> {
        #[verifier::external_body] pub fn key(&self) -> (r: &Arc<str>) ensures arc_str(*r) == arc_str(self.key) { unimplemented!() }
        #[verifier::external_body] pub fn get(&self) -> (r: &V) ensures old(self.map).map().contains_key(arc_str(self.key)) ==> *r == old(self.map).map()[arc_str(self.key)] { unimplemented!() }
        #[verifier::external_body] pub fn get_mut(&mut self) -> (r: &mut V)
            ensures old(self).map.map().contains_key(arc_str(old(self).key)) ==> *r == old(self).map.map()[arc_str(old(self).key)], final(self).key == old(self).key, final(self).map.map() == old(self).map.map().insert(arc_str(old(self).key), *final(r)), *final(old(self).map) == *final(final(self).map) { unimplemented!() }
        #[verifier::external_body] pub fn into_mut(self) -> (r: &'a mut V)
            ensures old(self.map).map().contains_key(arc_str(self.key)) ==> *r == old(self.map).map()[arc_str(self.key)], final(self.map).map() == old(self.map).map().insert(arc_str(self.key), *final(r)) { unimplemented!() }
    }
} }
impl<V> HashMap<Arc<str>, V> {
    pub uninterp spec fn map(&self) -> Map<Seq<u8>, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.map() == Map::<Seq<u8>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_is_empty(&self) -> (r: bool) ensures r == (self.map().dom() == Set::<Seq<u8>>::empty()) { unimplemented!() }
    /// the number of keys
    #[verifier::external_body] pub fn vx_len(&self) -> (r: usize) ensures r == self.map().dom().len(), self.map().dom().finite() { unimplemented!() }
    #[verifier::external_body] pub fn vx_map_empty(&self) -> (r: bool) ensures r == (self.map().dom() == Set::<Seq<u8>>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn entry<'a>(&'a mut self, key: Arc<str>) -> (r: collections::hash_map::Entry<'a, Arc<str>, V>)
        ensures match r {
            collections::hash_map::Entry::Vacant(e) => !old(self).map().contains_key(arc_str(key)) && *e.map == *old(self) && *final(e.map) == *final(self) && e.key == key,
            collections::hash_map::Entry::Occupied(e) => old(self).map().contains_key(arc_str(key)) && *e.map == *old(self) && *final(e.map) == *final(self) && arc_str(e.key) == arc_str(key) } { unimplemented!() }
}
/// `values().map(Vec::len).sum()`: everything that is held fits in memory
#[verifier::external_body] fn vx_sum_lens(h: &HashMap<Arc<str>, Vec<SavedField>>) -> (r: usize) ensures r == total(h.map()) { unimplemented!() }
fn vx_min_usize(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
spec fn total(m: Map<Seq<u8>, Vec<SavedField>>) -> nat decreases m.dom().len() {
    if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); m[k]@.len() + total(m.remove(k)) }
}
proof fn total_without(m: Map<Seq<u8>, Vec<SavedField>>, k: Seq<u8>)
    requires m.dom().contains(k)
    ensures total(m) == m[k]@.len() + total(m.remove(k)) decreases m.dom().len()
{
    let c = m.dom().choose();
    assert(m.dom().len() > 0);
    assert(m.remove(c).dom() =~= m.dom().remove(c)); assert(m.remove(k).dom() =~= m.dom().remove(k));
    if c != k {
        total_without(m.remove(c), k);
        total_without(m.remove(k), c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    }
}
// ---------- the entries of a request
//@rename-method comb:and_then Result
//@source src/server/save.rs
//@item struct SavedField
//@item struct Entries
//@item struct PartialSavedField
//@item struct PartialEntries
type EntriesSaveResult<M> = SaveResult<Entries, PartialEntries<M>>;
spec fn capped(n: nat) -> u32 { if n > u32::MAX { u32::MAX } else { n as u32 } }
impl Entries {
    /// the fields held under a name, in order
    spec fn held(&self, name: Seq<u8>) -> Seq<SavedField> { if self.fields.map().contains_key(name) { self.fields.map()[name]@ } else { Seq::empty() } }
    spec fn has(&self, name: Seq<u8>) -> bool { self.fields.map().contains_key(name) }
    /// the reported count is the number of fields held
    spec fn counted(&self) -> bool { self.fields_count == capped(total(self.fields.map())) }
    /// no name has an empty list
    spec fn listed(&self) -> bool { forall|k: Seq<u8>| #[trigger] self.fields.map().dom().contains(k) ==> self.fields.map()[k]@.len() > 0 }
//@fn Entries::new
//@sig fn new(save_dir: SaveDir) -> Self
    ensures r.save_dir == save_dir, r.fields_count == 0, r.counted(), r.listed(), forall|k: Seq<u8>| !(#[trigger] r.has(k))
//@prologue
proof { let e = Map::<Seq<u8>, Vec<SavedField>>::empty(); assert(e.dom().len() == 0); assert(total(e) == 0); }
//@end
//@fn Entries::is_empty as vx_is_empty
//@rename is_empty vx_map_empty
//@sig fn is_empty(&self) -> bool
    ensures r == (forall|k: Seq<u8>| !(#[trigger] self.has(k)))
//@prologue
proof { let d = self.fields.map().dom(); assert(forall|k: Seq<u8>| #[trigger] self.has(k) == d.contains(k)); if forall|k: Seq<u8>| !(#[trigger] self.has(k)) { assert forall|k: Seq<u8>| !d.contains(k) by { assert(!self.has(k)); } assert(d =~= Set::empty()); } }
//@end
//@fn Entries::fields_count
//@sig fn fields_count(&self) -> u32
    ensures r == self.fields_count
//@end
//@fn Entries::recount_fields
//@rename cmp::min vx_min_usize
//@sig fn recount_fields(&mut self) -> u32
    ensures final(self).counted(), final(self).fields == old(self).fields, final(self).save_dir == old(self).save_dir, r == final(self).fields_count
//@end
//@fn Entries::push_field
//@sig fn push_field(&mut self, headers: FieldHeaders, data: SavedData)
    ensures pushed(*old(self), *final(self), headers, data), old(self).counted() ==> final(self).counted(), old(self).listed() ==> final(self).listed()
//@prologue
let ghost h0 = headers;
proof {
    let m = self.fields.map(); let name = arc_str(headers.name);
    assert forall|v: Vec<SavedField>| total(#[trigger] m.insert(name, v)) == total(m) - self.held(name).len() + v@.len() by {
        let m2 = m.insert(name, v);
        assert(m2.dom() =~= m.dom().insert(name));
        total_without(m2, name);
        if m.contains_key(name) { total_without(m, name); assert(m2.remove(name) =~= m.remove(name)); } else { assert(m2.remove(name) =~= m); }
    }
}
//@end
}
/// `f` is the field with these headers and this data
spec fn field_is(f: SavedField, h: FieldHeaders, d: SavedData) -> bool {
    f.data == d && arc_str(f.headers.name) == arc_str(h.name) && f.headers.filename == h.filename && f.headers.content_type == h.content_type
}
/// the field was added behind those of the same name
spec fn pushed(a: Entries, b: Entries, h: FieldHeaders, d: SavedData) -> bool {
    let name = arc_str(h.name);
    &&& b.save_dir == a.save_dir && b.fields_count == (if a.fields_count == u32::MAX { u32::MAX } else { (a.fields_count + 1) as u32 })
    &&& forall|k: Seq<u8>| k != name ==> #[trigger] b.has(k) == a.has(k)
    &&& forall|k: Seq<u8>| k != name ==> #[trigger] b.held(k) == a.held(k)
    &&& b.has(name) && b.held(name).len() == a.held(name).len() + 1 && b.held(name).drop_last() =~= a.held(name) && field_is(b.held(name).last(), h, d)
}
// ---------- saving a request
/// the settings of a request save: those of each field, and the count limit
struct ReqCfg { field: Cfg, count: u32 }
spec fn is_text_field(h: FieldHeaders) -> bool { match h.content_type { None => true, Some(m) => mime_type(m) == mime::TEXT } }
/// text is attempted only for fields that are declared as text
spec fn field_cfg(c: Cfg, h: FieldHeaders) -> Cfg { Cfg { policy: if is_text_field(h) { c.policy } else { Ignore }, ..c } }
/// what a save of the field at `d` gave (C09, C10, C11); its file, if any, is in the directory under a fresh name (C13)
#[verifier::opaque]
spec fn field_saved(c: Cfg, dir: Path, d: Pos, r: FieldSaveResult) -> bool {
    &&& stored_bytes(d.rest, r) && stored_size(c, d.rest, r) && stored_text(c, d.rest, d.f.floor, r)
    &&& exists|p: Path| fresh_in(dir, p) && #[trigger] stored_place(c, d.rest, p, r)
}
/// one field was read, saved completely, and added to the entries
spec fn step(c: ReqCfg, a: (Pos, Entries), b: (Pos, Entries)) -> bool {
    exists|h: FieldHeaders, rest: Seq<u8>, s: SavedData| #[trigger] step_of(c, a, b, h, rest, s)
}
spec fn step_of(c: ReqCfg, a: (Pos, Entries), b: (Pos, Entries), h: FieldHeaders, rest: Seq<u8>, s: SavedData) -> bool {
    &&& a.1.fields_count < c.count && entry_at(a.0.rest, a.0.f, h, rest, b.0.f) && b.0.rest.len() == 0
    &&& field_saved(field_cfg(c.field, h), a.1.save_dir.at(), Pos { rest, f: b.0.f }, Full(s)) && pushed(a.1, b.1, h, s)
}
/// the saves of some fields, one after the other
spec fn run(c: ReqCfg, t: Seq<(Pos, Entries)>) -> bool { t.len() > 0 && forall|i: int| 0 < i < t.len() ==> step(c, #[trigger] t[i - 1], t[i]) }
spec fn run_between(c: ReqCfg, t: Seq<(Pos, Entries)>, a: (Pos, Entries), b: (Pos, Entries)) -> bool { run(c, t) && t[0] == a && t.last() == b }
/// from `a` to `b` by complete saves of the fields between them
spec fn saves(c: ReqCfg, a: (Pos, Entries), b: (Pos, Entries)) -> bool { exists|t: Seq<(Pos, Entries)>| #[trigger] run_between(c, t, a, b) }
proof fn saves_none(c: ReqCfg, a: (Pos, Entries)) ensures saves(c, a, a) { assert(run_between(c, seq![a], a, a)); }
proof fn saves_one_more(c: ReqCfg, a: (Pos, Entries), b: (Pos, Entries), d: (Pos, Entries))
    requires saves(c, a, b), step(c, b, d)
    ensures saves(c, a, d)
{
    let t = choose|t: Seq<(Pos, Entries)>| #[trigger] run_between(c, t, a, b);
    let u = t.push(d);
    assert forall|i: int| 0 < i < u.len() implies step(c, #[trigger] u[i - 1], u[i]) by { if i < t.len() { assert(step(c, t[i - 1], t[i])); } }
    assert(run_between(c, u, a, d));
}
/// where a reader is
spec fn pos_of<M: ReadEntry>(m: M) -> Pos { Pos { rest: m.src().rest(), f: m.src().frame() } }
spec fn data_pos<M: ReadEntry>(d: MultipartData<M>) -> Pos { Pos { rest: d.rest(), f: d.frame() } }
/// the result of a request save that started at `p0` with the entries `e0`
spec fn request_saved<M: ReadEntry>(c: ReqCfg, p0: Pos, e0: Entries, r: EntriesSaveResult<M>) -> bool {
    match r {
        Full(e) => e.counted() && exists|p: Pos, rest2: Seq<u8>, f2: Frame| saves(c, (p0, e0), (p, e)) && #[trigger] end_at(p.rest, p.f, rest2, f2),
        Partial(pe, reason) => pe.entries.counted() && exists|p: Pos| #[trigger] saves(c, (p0, e0), (p, pe.entries)) && stopped_save(c, p, pe, reason),
        Error(_) => false,
    }
}
/// a partial result has the reader that was saved from
#[verifier::prophetic]
spec fn root_kept<M: ReadEntry>(x: M::MRoot, r: EntriesSaveResult<M>) -> bool {
    match r { Partial(pe, _) => match pe.partial { Some(ps) => ps.source.data.held().mroot() == x, None => true }, _ => true }
}
/// the save stopped at `p`: no entry could be read, the count limit was met, or the field was not saved completely
spec fn stopped_save<M: ReadEntry>(c: ReqCfg, p: Pos, pe: PartialEntries<M>, reason: PartialReason) -> bool {
    match pe.partial {
        None => reason matches PartialReason::IoError(e) && entry_failure(e, p.rest, p.f),
        Some(PartialSavedField { source, dest }) => source.data.readable() && match dest {
            None => entry_at(p.rest, p.f, source.headers, source.data.rest(), source.data.frame()) && match reason {
                PartialReason::CountLimit => pe.entries.fields_count >= c.count,
                PartialReason::IoError(e) => pe.entries.fields_count < c.count && io_or_disk(e),
                _ => false },
            Some(d) => pe.entries.fields_count < c.count && exists|rest: Seq<u8>| #[trigger] entry_at(p.rest, p.f, source.headers, rest, source.data.frame())
                && source.data.rest() == rest.skip(size_of(d)) && !(reason is CountLimit)
                && field_saved(field_cfg(c.field, source.headers), pe.entries.save_dir.at(), Pos { rest, f: source.data.frame() }, Partial(d, reason)),
        }
    }
}
spec fn req_cfg_of(open_opts: OpenOptions, count_limit: u32, size_limit: u64, memory_threshold: u64, text_policy: TextPolicy) -> ReqCfg {
    ReqCfg { field: Cfg { opts: open_opts, size_limit, threshold: memory_threshold, policy: text_policy }, count: count_limit }
}
impl<S> SaveBuilder<S> {
    spec fn req_cfg(&self) -> ReqCfg { ReqCfg { field: Cfg { opts: self.open_opts, size_limit: self.size_limit, threshold: self.memory_threshold, policy: self.text_policy }, count: self.count_limit } }
}
/// the same entries with the right count
spec fn recount(e: Entries) -> Entries { Entries { fields_count: capped(total(e.fields.map())), ..e } }
/// reading on from `p` gave this
spec fn res_at<M: ReadEntry>(p: Pos, r: ReadEntryResult<M>) -> bool {
    match r {
        ReadEntryResult::Entry(e) => e.data.readable() && entry_at(p.rest, p.f, e.headers, e.data.rest(), e.data.frame()),
        ReadEntryResult::End(m) => m.src().readable() && end_at(p.rest, p.f, m.src().rest(), m.src().frame()),
        ReadEntryResult::Error(m, e) => entry_failure(e, p.rest, p.f) }
}
broadcast proof fn one_more(c: ReqCfg, start: (Pos, Entries), p: Pos, ea: Entries, eb: Entries, h: FieldHeaders, d: Pos, s: SavedData)
    requires #[trigger] saves(c, start, (p, ea)), #[trigger] pushed(ea, eb, h, s), #[trigger] field_saved(field_cfg(c.field, h), ea.save_dir.at(), d, Full(s)),
        entry_at(p.rest, p.f, h, d.rest, d.f), ea.fields_count < c.count
    ensures saves(c, start, (Pos { rest: Seq::empty(), f: d.f }, eb))
{
    let b = (Pos { rest: Seq::<u8>::empty(), f: d.f }, eb);
    assert(step_of(c, (p, ea), b, h, d.rest, s));
    saves_one_more(c, start, (p, ea), b);
}
/// how much of the body can still be read
spec fn unread<M: ReadEntry>(r: ReadEntryResult<M>) -> int { match r { ReadEntryResult::Entry(f) => 1 + f.data.rest().len() as int + f.data.frame().after.len() as int, _ => 0 } }
/// the closure that saves a field
struct SaveField<'x> { text_policy: &'x TextPolicy, open_opts: &'x OpenOptions, count_limit: &'x u32, size_limit: &'x u64, memory_threshold: &'x u64 }
impl<'x> SaveField<'x> {
    spec fn cfg(&self) -> Cfg { Cfg { opts: *self.open_opts, size_limit: *self.size_limit, threshold: *self.memory_threshold, policy: *self.text_policy } }
//@fn SaveBuilder::with_entries{0} as save_field
//@captures text_policy, open_opts, count_limit, size_limit, memory_threshold
//@sig fn save_field<M: ReadEntry>(&self, field: &mut MultipartField<M>, entries: &Entries) -> FieldSaveResult
    requires old(field).data.readable(), old(field).data.rest().len() <= u64::MAX, disk_ok()
    ensures final(field).headers == old(field).headers, final(field).data.readable(), final(field).data.frame() == old(field).data.frame(), final(field).data.root() == old(field).data.root(),
        0 <= taken_by(r) <= old(field).data.rest().len(), r is Full ==> final(field).data.rest() =~= Seq::empty(), r is Error ==> final(field).data.rest() =~= old(field).data.rest(), final(field).data.rest() == old(field).data.rest().skip(taken_by(r)),
        r matches Error(e) ==> io_or_disk(e), r matches Partial(_, reason) ==> !(reason is CountLimit),
        stored_bytes(old(field).data.rest(), r), stored_size(field_cfg(self.cfg(), old(field).headers), old(field).data.rest(), r),
        stored_text(field_cfg(self.cfg(), old(field).headers), old(field).data.rest(), old(field).data.frame().floor, r),
        exists|p: Path| fresh_in(entries.save_dir.at(), p) && #[trigger] stored_place(field_cfg(self.cfg(), old(field).headers), old(field).data.rest(), p, r)
//@prologue
proof { path_of_ref(&entries.save_dir.at()); }
//@end
    /// the same, in one word
    fn vx_call<M: ReadEntry>(&self, field: &mut MultipartField<M>, entries: &Entries) -> (r: FieldSaveResult)
        requires old(field).data.readable(), old(field).data.rest().len() <= u64::MAX, disk_ok()
    ensures final(field).headers == old(field).headers, final(field).data.readable(), final(field).data.frame() == old(field).data.frame(), final(field).data.root() == old(field).data.root(),
        0 <= taken_by(r) <= old(field).data.rest().len(), r is Full ==> final(field).data.rest() =~= Seq::empty(), r is Error ==> final(field).data.rest() =~= old(field).data.rest(), final(field).data.rest() == old(field).data.rest().skip(taken_by(r)),
        r matches Error(e) ==> io_or_disk(e), r matches Partial(_, reason) ==> !(reason is CountLimit),
        field_saved(field_cfg(self.cfg(), old(field).headers), entries.save_dir.at(), data_pos(old(field).data), r)
    { proof { reveal(field_saved); } self.save_field(field, entries) }
}
impl Entries { spec fn empty_in(&self, d: SaveDir) -> bool { self.save_dir == d && self.fields_count == 0 && self.counted() && self.listed() && forall|k: Seq<u8>| !(#[trigger] self.has(k)) } }
/// a directory with that prefix which did not exist before
pub uninterp spec fn fresh_dir(t: TempDir, prefix: &str) -> bool;
/// such a directory directly in `d`
pub uninterp spec fn fresh_dir_in(t: TempDir, prefix: &str, d: Path) -> bool;
pub mod tempfile { use super::*;
    pub struct Builder<'p> { pub prefix: Option<&'p str> }
    impl<'p> Builder<'p> {
        pub fn new() -> (r: Builder<'p>) ensures r.prefix is None { Builder { prefix: None } }
        pub fn prefix(self, p: &'p str) -> (r: Builder<'p>) ensures r.prefix == Some(p) { Builder { prefix: Some(p) } }
        #[verifier::external_body] pub fn tempdir(&self) -> (r: io::Result<TempDir>)
            requires disk_ok()
            ensures r matches Ok(t) ==> (self.prefix matches Some(p) ==> fresh_dir(t, p)), r matches Err(e) ==> disk_error(e) { unimplemented!() }
        #[verifier::external_body] pub fn tempdir_in(&self, d: &Path) -> (r: io::Result<TempDir>)
            requires disk_ok(), dir_made(*d)
            ensures r matches Ok(t) ==> (self.prefix matches Some(p) ==> fresh_dir_in(t, p, *d)), r matches Err(e) ==> disk_error(e) { unimplemented!() }
    }
}
impl<M: ReadEntry> SaveBuilder<M> {
//@fn SaveBuilder::count_limit
//@rename into vx_into_u32
//@rename use-baseline-sig 1
//@sig fn count_limit<L: VxIntoU32>(self, count_limit: L) -> Self
    ensures r.count_limit == match count_limit.optional() { Some(n) => n, None => u32::MAX }, r.savable == self.savable, r.req_cfg() == (ReqCfg { count: r.count_limit, ..self.req_cfg() })
//@end
    spec fn can_start(&self) -> bool { self.savable.src().readable() && placed(self.savable.src().rest(), self.savable.src().frame()) && self.savable.src().rest().len() + self.savable.src().frame().after.len() <= u64::MAX && disk_ok() }
//@fn SaveBuilder::with_entries
//@attr #[verifier::loop_isolation(false)]
//@closure 0 SaveField: text_policy, open_opts, count_limit, size_limit, memory_threshold
//@callable save_field
//@sig fn with_entries(self, entries: Entries) -> EntriesSaveResult<M>
    requires self.can_start()
    ensures request_saved(self.req_cfg(), pos_of(self.savable), recount(entries), r), root_kept(self.savable.mroot(), r)
//@prologue
broadcast use one_more, placed_after, entry_shrinks, g_save;
let ghost (c, p0, e0) = (self.req_cfg(), pos_of(self.savable), recount(entries));
proof { saves_none(c, (p0, e0)); }
//@loop 0
    invariant entries.counted(), c == req_cfg_of(open_opts, count_limit, size_limit, memory_threshold, text_policy),
        exists|p: Pos| #[trigger] saves(c, (p0, e0), (p, entries)) && res_at(p, res), unread(res) <= u64::MAX + 1, same_reader(self.savable.mroot(), res)
    decreases unread(res)
//@end
//@fn SaveBuilder::with_temp_dir
//@sig fn with_temp_dir(self, tempdir: TempDir) -> EntriesSaveResult<M>
    requires self.can_start()
    ensures root_kept(self.savable.mroot(), r), exists|e0: Entries| e0.empty_in(SaveDir::Temp(tempdir)) && #[trigger] request_saved(self.req_cfg(), pos_of(self.savable), e0, r)
//@prologue
broadcast use g_save;
//@end
//@fn SaveBuilder::temp_with_prefix
//@sig fn temp_with_prefix(self, prefix: &str) -> EntriesSaveResult<M>
    requires self.can_start()
    ensures (r matches SaveResult::Error(e) && disk_error(e)) || exists|t: TempDir, e0: Entries| fresh_dir(t, prefix) && #[trigger] e0.empty_in(SaveDir::Temp(t)) && request_saved(self.req_cfg(), pos_of(self.savable), e0, r)
//@end
//@fn SaveBuilder<_>::temp as request_temp
//@sig fn request_temp(self) -> EntriesSaveResult<M>
    requires self.can_start()
    ensures (r matches SaveResult::Error(e) && disk_error(e)) || exists|t: TempDir, e0: Entries| #[trigger] e0.empty_in(SaveDir::Temp(t)) && request_saved(self.req_cfg(), pos_of(self.savable), e0, r)
//@end
//@fn SaveBuilder<_>::with_dir as request_with_dir
//@sig fn request_with_dir<P: Into<Path>>(self, dir: P) -> EntriesSaveResult<M>
    requires self.can_start()
    ensures (r matches SaveResult::Error(e) && disk_error(e)) || dir_made(conv::<P, Path>(dir)) && exists|e0: Entries| e0.empty_in(SaveDir::Perm(conv::<P, Path>(dir))) && #[trigger] request_saved(self.req_cfg(), pos_of(self.savable), e0, r)
//@prologue
broadcast use g_save;
//@end
}
// ---------- partial results
impl<M: ReadEntry> PartialEntries<M> {
//@fn Into<Entries> for PartialEntries::into as into_entries_only
//@sig fn into_entries_only(self) -> Entries
    ensures r == self.entries, self.partial matches Some(ps) ==> has_resolved(ps.source.data)
//@end
//@fn PartialEntries::keep_partial
//@sig fn keep_partial(self) -> Entries
    ensures self.partial matches Some(ps) ==> has_resolved(ps.source.data), match self.partial {
        Some(PartialSavedField { source, dest: Some(d) }) => pushed(self.entries, r, source.headers, d) && (self.entries.counted() ==> r.counted()) && (self.entries.listed() ==> r.listed()),
        _ => r == self.entries }
//@end
}
impl<M: ReadEntry> EntriesSaveResult<M> {
//@fn EntriesSaveResult::into_entries
//@sig fn into_entries(self) -> Option<Entries>
    ensures r == match self { Full(e) => Some(e), Partial(pe, _) => Some(pe.entries), Error(_) => None }
//@end
}
// ---------- theorems
/// a save that goes on where another one stopped, with at least the same limit, is one save
proof fn saves_join(c1: ReqCfg, c2: ReqCfg, a: (Pos, Entries), b: (Pos, Entries), d: (Pos, Entries))
    requires c1.field == c2.field, c1.count <= c2.count, saves(c1, a, b), saves(c2, b, d)
    ensures saves(c2, a, d)
{
    let t = choose|t: Seq<(Pos, Entries)>| #[trigger] run_between(c1, t, a, b);
    let u = choose|u: Seq<(Pos, Entries)>| #[trigger] run_between(c2, u, b, d);
    let w = t + u.skip(1);
    assert forall|i: int| 0 < i < w.len() implies step(c2, #[trigger] w[i - 1], w[i]) by {
        if i < t.len() { assert(step(c1, t[i - 1], t[i]));
            let (h, rest, s) = choose|h: FieldHeaders, rest: Seq<u8>, s: SavedData| #[trigger] step_of(c1, t[i - 1], t[i], h, rest, s);
            assert(step_of(c2, t[i - 1], t[i], h, rest, s)); }
        else { let j = i - t.len() + 1; assert(w[i] == u[j]); assert(w[i - 1] == u[j - 1]); assert(step(c2, u[j - 1], u[j])); }
    }
    assert(w.last() == d) by { if u.len() > 1 { assert(w.last() == u.last()); } }
    assert(run_between(c2, w, a, d));
}
/// as many fields are added as saves were made, and never more than the limit allows
proof fn saves_counted(c: ReqCfg, t: Seq<(Pos, Entries)>, a: (Pos, Entries), b: (Pos, Entries))
    requires run_between(c, t, a, b)
    ensures b.1.fields_count == a.1.fields_count + t.len() - 1, t.len() > 1 ==> b.1.fields_count <= c.count, b.1.save_dir == a.1.save_dir
    decreases t.len()
{
    if t.len() > 1 {
        let u = t.drop_last();
        assert forall|i: int| 0 < i < u.len() implies step(c, #[trigger] u[i - 1], u[i]) by { assert(step(c, t[i - 1], t[i])); }
        assert(run_between(c, u, a, u.last()));
        saves_counted(c, u, a, u.last());
        assert(step(c, t[t.len() - 2], t[t.len() - 1]));
    }
}
/// a save from no entries that stops because of the count limit has saved exactly that many fields
proof fn stopped_at_limit<M: ReadEntry>(c: ReqCfg, p0: Pos, e0: Entries, r: EntriesSaveResult<M>)
    requires request_saved(c, p0, e0, r), e0.fields_count == 0
    ensures r matches Partial(pe, PartialReason::CountLimit) ==> pe.entries.fields_count == c.count,
        match r { Full(e) => e.fields_count <= c.count, Partial(pe, _) => pe.entries.fields_count <= c.count, Error(_) => true }
{
    assert forall|p: Pos, e: Entries| #[trigger] saves(c, (p0, e0), (p, e)) implies e.fields_count <= c.count by {
        let t = choose|t: Seq<(Pos, Entries)>| #[trigger] run_between(c, t, (p0, e0), (p, e));
        saves_counted(c, t, (p0, e0), (p, e));
    }
}
