// ---------- saving the data of one field
//@rename-method as_bytes vx_as_bytes
//@rename-method into vx_into
//@rename-method len vx_len
//@rename-method is_empty vx_is_empty
//@rename-method extend_from_slice vx_extend
//@rename-method push_str vx_push_str
//@rename-method into_bytes vx_into_bytes
//@rename-method cmp::min vx_min_u64
//@rename-method comb:and_then Result
//@rename-type PathBuf => Path
//@rename-type env::temp_dir => env::temp_dir
//@macros src/server/save.rs
//@source src/lib.rs
//@fn random_alphanumeric
//@stub rand
//@sig fn random_alphanumeric(len: usize) -> String
    ensures string_bytes(r).len() == len, forall|i: int| 0 <= i < len ==> is_alnum(#[trigger] string_bytes(r)[i])
//@end
//@source src/server/save.rs
//@item const RANDOM_FILENAME_LEN
use TextPolicy::*;
//@item enum PartialReason
use PartialReason::*;
//@item enum SaveResult
use SaveResult::{Full, Partial, Error};
//@item enum SavedData
//@item struct SaveBuilder
type FieldSaveResult = SaveResult<SavedData, SavedData>;
spec fn fresh_name(s: Seq<u8>) -> bool { s.len() == 12 && forall|i: int| 0 <= i < 12 ==> is_alnum(#[trigger] s[i]) }
//@fn rand_filename
//@sig fn rand_filename() -> String
    ensures fresh_name(string_bytes(r))
//@end
broadcast axiom fn conv_reason_io(e: io::Error) ensures #[trigger] conv::<io::Error, PartialReason>(e) == PartialReason::IoError(e);
broadcast axiom fn conv_reason_utf8(e: str::Utf8Error) ensures #[trigger] conv::<str::Utf8Error, PartialReason>(e) == PartialReason::Utf8Error(e);
broadcast axiom fn conv_data_string(s: String) ensures #[trigger] conv::<String, SavedData>(s) == SavedData::Text(s);
broadcast axiom fn conv_data_vec(b: Vec<u8>) ensures #[trigger] conv::<Vec<u8>, SavedData>(b) == SavedData::Bytes(b);
broadcast group g_save { conv_reason_io, conv_reason_utf8, conv_data_string, conv_data_vec, conv_same }
// the conversions that these axioms describe
impl PartialReason {
//@fn From<io::Error> for PartialReason::from as from_io
//@sig fn from_io(e: io::Error) -> Self
    ensures r == PartialReason::IoError(e)
//@end
//@fn From<str::Utf8Error> for PartialReason::from as from_utf8
//@sig fn from_utf8(e: str::Utf8Error) -> Self
    ensures r == PartialReason::Utf8Error(e)
//@end
}
impl SavedData {
//@fn From<String> for SavedData::from as from_string
//@sig fn from_string(s: String) -> Self
    ensures r == SavedData::Text(s)
//@end
//@fn From<Vec<u8>> for SavedData::from as from_vec
//@sig fn from_vec(b: Vec<u8>) -> Self
    ensures r == SavedData::Bytes(b)
//@end
//@fn SavedData::size
//@sig fn size(&self) -> u64
    ensures r == match *self { SavedData::Text(t) => string_bytes(t).len(), SavedData::Bytes(b) => b@.len(), SavedData::File(_, n) => n as nat }
//@end
//@fn SavedData::is_memory
//@sig fn is_memory(&self) -> bool
    ensures r == !(self is File)
//@end
//@fn SavedData::add_size
//@sig fn add_size(self, add: u64) -> Self
    ensures match self { SavedData::File(p, n) => r == SavedData::File(p, if n + add > u64::MAX { u64::MAX } else { (n + add) as u64 }), _ => r == self }
//@end
}
/// the settings of a save
struct Cfg { opts: OpenOptions, size_limit: u64, threshold: u64, policy: TextPolicy }
impl Cfg { spec fn mem_limit(&self) -> u64 { if self.size_limit <= self.threshold { self.size_limit } else { self.threshold } } }
/// an open file of that path and with these options to which exactly these bytes were written
spec fn written(path: Path, opts: OpenOptions, content: Seq<u8>) -> bool { exists|f: File| #[trigger] file_path(f.id()) == path && file_opts(f.id()) == opts && f.out() == content }
spec fn in_file(path: Path, content: Seq<u8>) -> bool { exists|f: File| #[trigger] file_path(f.id()) == path && f.out() == content }
/// `d` holds exactly these bytes: in memory, or written to a file
spec fn holds(d: SavedData, content: Seq<u8>) -> bool {
    match d {
        SavedData::Text(t) => string_bytes(t) == content,
        SavedData::Bytes(b) => b@ == content,
        SavedData::File(p, n) => n == content.len() && in_file(p, content),
    }
}
spec fn size_of(d: SavedData) -> int { match d { SavedData::Text(t) => string_bytes(t).len() as int, SavedData::Bytes(b) => b@.len() as int, SavedData::File(_, n) => n as int } }
/// how much of the field a save took
spec fn taken_by(r: FieldSaveResult) -> int { match r { Full(d) => size_of(d), Partial(d, _) => size_of(d), Error(_) => 0 } }
/// what was saved is the data, or a prefix of it (C09, C16)
spec fn stored_bytes(data: Seq<u8>, r: FieldSaveResult) -> bool {
    match r {
        Full(d) => holds(d, data),
        Partial(d, reason) => size_of(d) <= data.len() && holds(d, data.take(size_of(d))) && match reason { PartialReason::IoError(e) => io_or_disk(e), PartialReason::CountLimit => false, _ => true },
        Error(e) => io_or_disk(e),
    }
}
/// in memory up to the threshold, beyond it in a file
spec fn kept_in(c: Cfg, data: Seq<u8>, d: SavedData) -> bool {
    match d { SavedData::File(..) => data.len() > c.threshold && c.threshold < c.size_limit, _ => size_of(d) <= c.mem_limit() }
}
/// the limits (C10)
spec fn stored_size(c: Cfg, data: Seq<u8>, r: FieldSaveResult) -> bool {
    match r {
        Full(d) => data.len() <= c.size_limit && kept_in(c, data, d),
        Partial(d, reason) => size_of(d) <= c.size_limit && kept_in(c, data, d) && (reason is SizeLimit ==> data.len() > c.size_limit),
        Error(e) => true,
    }
}
/// what is text (C11); a reader that shows at least 4 bytes, if there are that many, shows whole characters
spec fn stored_text(c: Cfg, data: Seq<u8>, floor: int, r: FieldSaveResult) -> bool {
    match r {
        Full(SavedData::Text(_)) => c.policy != Ignore,
        Full(SavedData::Bytes(_)) => c.policy == Ignore || c.policy == Try && (floor >= 4 ==> !is_utf8(data)),
        Full(SavedData::File(..)) => true,
        Partial(d, reason) => (d is Text ==> c.policy != Ignore) && (reason is Utf8Error ==> d is Text && c.policy == Force && (floor >= 4 ==> !is_utf8(data))),
        Error(e) => true,
    }
}
/// the file that holds the data has that path and was opened with those options (C13)
spec fn stored_place(c: Cfg, data: Seq<u8>, path: Path, r: FieldSaveResult) -> bool {
    match r {
        Full(SavedData::File(p, _)) => p == path && written(path, c.opts, data),
        Partial(SavedData::File(p, n), _) => p == path && n <= data.len() && written(path, c.opts, data.take(n as int)),
        _ => true,
    }
}
spec fn io_or_disk(e: io::Error) -> bool { io_fault(e) || disk_error(e) }
/// an error that may be given to the caller of a save: not an interruption, which is retried
spec fn io_fault(e: io::Error) -> bool { io::kind_of(e) != io::ErrorKind::Interrupted }
spec fn read_fault(e: io::Error) -> bool { io::from_source(e) && io_fault(e) }

// ---------- the functions that take the data: closures in the source
trait Sink: Sized {
    spec fn ready(&self) -> bool;
    /// the bytes taken so far
    spec fn got(&self) -> Seq<u8>;
    type Fixed;
    /// what no call changes; among it, what the borrowed variables will be when the closure is gone
    #[verifier::prophetic]
    spec fn fixed(&self) -> Self::Fixed;
    /// how many more bytes can be counted
    spec fn room(&self) -> int;
    /// what only a call that stops changes
    type Base;
    spec fn base(&self) -> Self::Base;
    /// why a call with `buf` may stop after `n` bytes
    spec fn stops(&self, buf: Seq<u8>, n: int, reason: PartialReason) -> bool;
    spec fn fails(e: io::Error) -> bool;
    fn vx_call(&mut self, buf: &[u8]) -> (r: SaveResult<usize, usize>)
        requires (*old(self)).ready(), 0 < buf@.len() <= (*old(self)).room()
        ensures (*final(self)).ready(), (*final(self)).fixed() == (*old(self)).fixed(), !(r is Partial) ==> (*final(self)).base() == (*old(self)).base(), match r {
            Full(n) => 0 < n <= buf@.len() && (*final(self)).room() >= (*old(self)).room() - n && (*final(self)).got() == (*old(self)).got() + buf@.take(n as int),
            Partial(n, reason) => n <= buf@.len() && (*final(self)).got() == (*old(self)).got() + buf@.take(n as int) && (*old(self)).stops(buf@, n as int, reason),
            Error(e) => (*final(self)).got() == (*old(self)).got() && Self::fails(e) };
}
/// the sink stopped with `reason` after `n` bytes of `rest`
#[verifier::prophetic]
spec fn stopped<Wb: Sink>(w0: Wb, rest: Seq<u8>, floor: int, n: int, reason: PartialReason) -> bool {
    exists|w: Wb, chunk: Seq<u8>, k: int| #[trigger] w.stops(chunk, k, reason) && stop_at(w0, w, rest, floor, n, chunk, k)
}
#[verifier::prophetic]
spec fn stop_at<Wb: Sink>(w0: Wb, w: Wb, rest: Seq<u8>, floor: int, n: int, chunk: Seq<u8>, k: int) -> bool {
    &&& w.fixed() == w0.fixed() && w.base() == w0.base() && w.ready() && 0 <= k <= chunk.len() && k <= n <= rest.len() && w.got() == w0.got() + rest.take(n - k)
    &&& chunk.is_prefix_of(rest.skip(n - k)) && (chunk.len() == rest.len() - (n - k) || chunk.len() >= floor)
}
proof fn taken2(s: Seq<u8>, n: int, m: int)
    requires 0 <= n, 0 <= m, n + m <= s.len()
    ensures s.skip(n).skip(m) == s.skip(n + m), s.take(n) + s.skip(n).take(m) == s.take(n + m)
{ assert(s.skip(n).skip(m) =~= s.skip(n + m)); assert(s.take(n) + s.skip(n).take(m) =~= s.take(n + m)); }
proof fn take_of_prefix(p: Seq<u8>, s: Seq<u8>, n: int)
    requires p.is_prefix_of(s), 0 <= n <= p.len()
    ensures p.take(n) == s.take(n), p.len() <= s.len()
{ assert(p.take(n) =~= s.take(n)); }

//@fn try_read_buf
//@byref src with_buf
//@callable with_buf
//@rename use-baseline-sig 1
//@sig fn try_read_buf<R: BufRead, Wb: Sink>(src: &mut R, with_buf: &mut Wb) -> SaveResult<u64, u64>
//@attr #[verifier::loop_isolation(false)]
    requires (*old(src)).readable(), (*old(with_buf)).ready(), (*old(src)).rest().len() <= u64::MAX, (*old(src)).rest().len() <= (*old(with_buf)).room()
    ensures (*final(src)).root() == (*old(src)).root(), (*final(src)).readable(), (*final(src)).frame() == (*old(src)).frame(), (*final(with_buf)).ready(), (*final(with_buf)).fixed() == (*old(with_buf)).fixed(), match r {
        Full(n) => n == (*old(src)).rest().len() && (*final(src)).rest() == (*old(src)).rest().skip(n as int) && (*final(with_buf)).got() == (*old(with_buf)).got() + (*old(src)).rest() && (*final(with_buf)).base() == (*old(with_buf)).base(),
        Partial(n, reason) => n <= (*old(src)).rest().len() && (*final(src)).rest() == (*old(src)).rest().skip(n as int) && (*final(with_buf)).got() == (*old(with_buf)).got() + (*old(src)).rest().take(n as int)
            && (match reason { PartialReason::IoError(e) => (read_fault(e) || Wb::fails(e)) && (*final(with_buf)).base() == (*old(with_buf)).base(), _ => false } || stopped(*old(with_buf), (*old(src)).rest(), (*old(src)).frame().floor, n as int, reason)),
        Error(e) => read_fault(e) && (*final(src)).rest() == (*old(src)).rest() && (*final(with_buf)).got() == (*old(with_buf)).got() }
//@prologue
broadcast use g_save;
let ghost (rest0, w0) = (src.rest(), *with_buf);
proof { assert(rest0.skip(0) =~= rest0); assert(w0.got() + rest0.take(0) =~= w0.got()); }
//@loop 0
    invariant (*src).root() == (*old(src)).root(), src.readable(), with_buf.room() >= src.rest().len(), src.frame() == (*old(src)).frame(), with_buf.ready(), with_buf.fixed() == (*old(with_buf)).fixed(), with_buf.base() == (*old(with_buf)).base(), total_copied <= rest0.len(),
        src.rest() == rest0.skip(total_copied as int), with_buf.got() == w0.got() + rest0.take(total_copied as int),
    decreases src.rest().len(), src.patience()
//@end
/// the closure of try_copy_limited
struct CopyLimited<'x, Wb> { copied: &'x mut u64, limit: &'x u64, with_buf: &'x mut Wb }
impl<'x, Wb> CopyLimited<'x, Wb> {
    spec fn count(&self) -> int { *self.copied as int }
    spec fn inner(&self) -> Wb { *self.with_buf }
}
impl<'x, Wb: Sink> Sink for CopyLimited<'x, Wb> {
    spec fn ready(&self) -> bool { self.with_buf.ready() && *self.copied <= *self.limit }
    spec fn got(&self) -> Seq<u8> { self.with_buf.got() }
    spec fn room(&self) -> int { if self.with_buf.room() < u64::MAX - *self.copied { self.with_buf.room() } else { u64::MAX - *self.copied } }
    type Base = (int, Wb::Base);
    spec fn base(&self) -> (int, Wb::Base) { (self.got().len() - *self.copied, self.with_buf.base()) }
    type Fixed = (Wb, u64, Wb::Fixed, u64);
    #[verifier::prophetic]
    spec fn fixed(&self) -> (Wb, u64, Wb::Fixed, u64) { (*final(self.with_buf), *self.limit, self.with_buf.fixed(), *final(self.copied)) }
    spec fn stops(&self, buf: Seq<u8>, n: int, reason: PartialReason) -> bool {
        n == 0 && reason == PartialReason::SizeLimit && *self.copied + buf.len() > *self.limit
            || self.with_buf.stops(buf, n, reason) && *self.copied + buf.len() <= *self.limit
    }
    spec fn fails(e: io::Error) -> bool { Wb::fails(e) }
//@fn try_copy_limited{0} as vx_call
//@captures copied mut, limit, with_buf mut
//@callable with_buf
//@sig fn vx_call(&mut self, buf: &[u8]) -> SaveResult<usize, usize>
//@end
}

/// a stop of this closure is one of the limit, or one of the function it calls
broadcast proof fn limited_stop<'x, Wb: Sink>(w0: CopyLimited<'x, Wb>, w: CopyLimited<'x, Wb>, rest: Seq<u8>, floor: int, n: int, chunk: Seq<u8>, k: int, reason: PartialReason)
    requires #[trigger] stop_at(w0, w, rest, floor, n, chunk, k), #[trigger] w.stops(chunk, k, reason)
    ensures w0.count() + n <= *w0.limit, reason == PartialReason::SizeLimit && rest.len() + w0.count() > *w0.limit || stopped(w0.inner(), rest, floor, n, reason)
{
    assert(*w.copied == *w0.copied + n - k);
    if w.with_buf.stops(chunk, k, reason) { assert(stop_at(*w0.with_buf, *w.with_buf, rest, floor, n, chunk, k)); }
}
//@fn try_copy_limited
//@byref src with_buf
//@closure 0 CopyLimited: copied mut, limit, with_buf mut
//@rename use-baseline-sig 1
//@sig fn try_copy_limited<R: BufRead, Wb: Sink>(src: &mut R, with_buf: &mut Wb, limit: u64) -> SaveResult<u64, u64>
    requires (*old(src)).readable(), (*old(with_buf)).ready(), (*old(src)).rest().len() <= u64::MAX, (*old(src)).rest().len() <= (*old(with_buf)).room()
    ensures (*final(src)).root() == (*old(src)).root(), (*final(src)).readable(), (*final(src)).frame() == (*old(src)).frame(), (*final(with_buf)).ready(), (*final(with_buf)).fixed() == (*old(with_buf)).fixed(),
        match r {
            Full(n) => n == (*old(src)).rest().len() && (*final(src)).rest() == (*old(src)).rest().skip(n as int) && (*final(with_buf)).got() == (*old(with_buf)).got() + (*old(src)).rest(),
            Partial(n, _) => n <= (*old(src)).rest().len() && (*final(src)).rest() == (*old(src)).rest().skip(n as int) && (*final(with_buf)).got() == (*old(with_buf)).got() + (*old(src)).rest().take(n as int),
            Error(e) => (*final(src)).rest() == (*old(src)).rest() && (*final(with_buf)).got() == (*old(with_buf)).got() },
        match r { Error(e) => read_fault(e), Partial(n, PartialReason::IoError(e)) => read_fault(e) || Wb::fails(e) || stopped(*old(with_buf), (*old(src)).rest(), (*old(src)).frame().floor, n as int, PartialReason::IoError(e)), _ => true },
        r matches Partial(n, reason) ==> reason is IoError || reason is SizeLimit || stopped(*old(with_buf), (*old(src)).rest(), (*old(src)).frame().floor, n as int, reason),
        match r { Full(n) => n <= limit, Partial(n, _) => n <= limit, Error(_) => true },
        r matches Partial(n, PartialReason::SizeLimit) ==> (*old(src)).rest().len() > limit || stopped(*old(with_buf), (*old(src)).rest(), (*old(src)).frame().floor, n as int, PartialReason::SizeLimit)
//@prologue
broadcast use limited_stop;
//@end
//@fn try_write_all
//@byref dest
//@sig fn try_write_all<W: Write>(buf: &[u8], dest: &mut W) -> SaveResult<usize, usize>
//@attr #[verifier::loop_isolation(false)]
    ensures (*final(dest)).id() == (*old(dest)).id(), match r {
        Full(n) => n == buf@.len() && (*final(dest)).out() == (*old(dest)).out() + buf@,
        Partial(n, reason) => n <= buf@.len() && (*final(dest)).out() == (*old(dest)).out() + buf@.take(n as int) && (reason matches PartialReason::IoError(e) && io_fault(e)),
        Error(e) => (*final(dest)).out() == (*old(dest)).out() && io_fault(e) }
//@prologue
broadcast use g_save;
let ghost (buf0, out0) = (buf@, dest.out());
proof { assert(spec_slice_len(buf) == buf0.len()); }
proof { assert(buf0.skip(0) =~= buf0); assert(out0 + buf0.take(0) =~= out0); assert(buf0.take(buf0.len() as int) =~= buf0); assert forall|a: int, b: int| 0 <= a && 0 <= b && a + b <= buf0.len() implies #[trigger] buf0.skip(a).take(b) == buf0.subrange(a, a + b) && buf0.skip(a).skip(b) == buf0.skip(a + b) && buf0.take(a) + buf0.subrange(a, a + b) == buf0.take(a + b) by { taken2(buf0, a, b); assert(buf0.skip(a).take(b) =~= buf0.subrange(a, a + b)); } }
//@loop 0
    invariant dest.id() == (*old(dest)).id(), total_copied <= buf0.len(), buf@ == buf0.skip(total_copied as int), dest.out() == out0 + buf0.take(total_copied as int),
    decreases buf@.len(), dest.patience()
//@end
/// the closures of write_limited
struct WriteSink<'x, W> { dest: &'x mut W }
impl<'x, W: Write> Sink for WriteSink<'x, W> {
    spec fn ready(&self) -> bool { true }
    spec fn got(&self) -> Seq<u8> { self.dest.out() }
    type Fixed = (W, W::Id);
    #[verifier::prophetic]
    spec fn fixed(&self) -> (W, W::Id) { (*final(self.dest), self.dest.id()) }
    spec fn room(&self) -> int { u64::MAX as int }
    type Base = ();
    spec fn base(&self) -> () { () }
    spec fn stops(&self, buf: Seq<u8>, n: int, reason: PartialReason) -> bool { reason matches PartialReason::IoError(e) && io_fault(e) }
    spec fn fails(e: io::Error) -> bool { io_fault(e) }
//@fn SaveBuilder::write_limited{0} as vx_call
//@captures dest mut
//@sig fn vx_call(&mut self, buf: &[u8]) -> SaveResult<usize, usize>
//@prologue
proof { assert(buf@.take(buf@.len() as int) =~= buf@); }
//@end
}
struct WriteSinkU<'x, W> { dest: &'x mut W }
impl<'x, W: Write> Sink for WriteSinkU<'x, W> {
    spec fn ready(&self) -> bool { true }
    spec fn got(&self) -> Seq<u8> { self.dest.out() }
    type Fixed = (W, W::Id);
    #[verifier::prophetic]
    spec fn fixed(&self) -> (W, W::Id) { (*final(self.dest), self.dest.id()) }
    spec fn room(&self) -> int { u64::MAX as int }
    type Base = ();
    spec fn base(&self) -> () { () }
    spec fn stops(&self, buf: Seq<u8>, n: int, reason: PartialReason) -> bool { reason matches PartialReason::IoError(e) && io_fault(e) }
    spec fn fails(e: io::Error) -> bool { io_fault(e) }
//@fn SaveBuilder::write_limited{1} as vx_call
//@captures dest mut
//@sig fn vx_call(&mut self, buf: &[u8]) -> SaveResult<usize, usize>
//@prologue
proof { assert(buf@.take(buf@.len() as int) =~= buf@); }
//@end
}
/// the closure of save_mem
struct MemSink<'x> { bytes: &'x mut Vec<u8> }
impl<'x> Sink for MemSink<'x> {
    spec fn ready(&self) -> bool { true }
    spec fn got(&self) -> Seq<u8> { self.bytes@ }
    type Fixed = Vec<u8>;
    #[verifier::prophetic]
    spec fn fixed(&self) -> Vec<u8> { *final(self.bytes) }
    spec fn room(&self) -> int { u64::MAX as int }
    type Base = ();
    spec fn base(&self) -> () { () }
    spec fn stops(&self, buf: Seq<u8>, n: int, reason: PartialReason) -> bool { false }
    spec fn fails(e: io::Error) -> bool { false }
//@fn SaveBuilder::save_mem{0} as vx_call
//@captures bytes mut
//@sig fn vx_call(&mut self, buf: &[u8]) -> SaveResult<usize, usize>
//@prologue
proof { assert(buf@.take(buf@.len() as int) =~= buf@); }
//@end
}
/// the closure of save_text
struct TextSink<'x> { string: &'x mut String }
impl<'x> Sink for TextSink<'x> {
    spec fn ready(&self) -> bool { true }
    spec fn got(&self) -> Seq<u8> { string_bytes(*self.string) }
    type Fixed = String;
    #[verifier::prophetic]
    spec fn fixed(&self) -> String { *final(self.string) }
    spec fn room(&self) -> int { u64::MAX as int }
    type Base = ();
    spec fn base(&self) -> () { () }
    /// what was read goes on with bytes that are not text
    spec fn stops(&self, buf: Seq<u8>, n: int, reason: PartialReason) -> bool { reason is Utf8Error && (dead_utf8(buf) || !is_utf8(buf) && buf.len() <= 3) }
    spec fn fails(e: io::Error) -> bool { false }
//@fn SaveBuilder::save_text{0} as vx_call
//@captures string mut
//@sig fn vx_call(&mut self, buf: &[u8]) -> SaveResult<usize, usize>
//@prologue
broadcast use g_save, utf8_append;
proof { assert(buf@.take(buf@.len() as int) =~= buf@); assert(buf@.take(0) =~= Seq::empty()); }
//@end
}
/// a stop of this closure means that the data is not text
broadcast proof fn text_stop<'x>(w0: TextSink<'x>, w: TextSink<'x>, rest: Seq<u8>, floor: int, n: int, chunk: Seq<u8>, k: int, reason: PartialReason)
    requires #[trigger] stop_at(w0, w, rest, floor, n, chunk, k), #[trigger] w.stops(chunk, k, reason)
    ensures reason is Utf8Error, w0.got().len() == 0 && floor >= 4 ==> !is_utf8(rest)
{
    if w0.got().len() == 0 && floor >= 4 {
        let t = rest.take(n - k);
        assert(w.got() =~= t);
        string_utf8(*w.string);
        assert(t + rest.skip(n - k) =~= rest);
        utf8_concat(t, rest.skip(n - k));
        if dead_utf8(chunk) { utf8_dead(chunk, rest.skip(n - k)); } else { assert(chunk =~= rest.skip(n - k)); }
    }
}
impl<S> SaveBuilder<S> {
    spec fn same_cfg(&self, o: &Self) -> bool {
        self.open_opts == o.open_opts && self.size_limit == o.size_limit && self.count_limit == o.count_limit && self.memory_threshold == o.memory_threshold && self.text_policy == o.text_policy
    }
    /// how much is kept in memory
    spec fn mem_limit(&self) -> u64 { if self.size_limit <= self.memory_threshold { self.size_limit } else { self.memory_threshold } }
    /// nothing but the savable and what is named differs
    spec fn only(&self, o: &Self, limit: u64, threshold: u64, policy: TextPolicy) -> bool {
        self.savable == o.savable && self.open_opts == o.open_opts && self.count_limit == o.count_limit && self.size_limit == limit && self.memory_threshold == threshold && self.text_policy == policy
    }
//@fn SaveBuilder::new
//@sig fn new(savable: S) -> SaveBuilder<S>
    ensures r.savable == savable, r.open_opts == (OpenOptions { read: false, write: true, append: false, truncate: false, create: false, create_new: true }),
        r.size_limit == 8 * 1024 * 1024, r.count_limit == 256, r.memory_threshold == 10 * 1024, r.text_policy == Try
//@end
//@fn SaveBuilder::size_limit
//@rename into vx_into_u64
//@rename use-baseline-sig 1
//@sig fn size_limit<L: VxIntoU64>(self, limit: L) -> Self
    ensures r.only(&self, match limit.optional() { Some(n) => n, None => u64::MAX }, self.memory_threshold, self.text_policy)
//@end
//@fn SaveBuilder::memory_threshold
//@sig fn memory_threshold(self, memory_threshold: u64) -> Self
    ensures r.only(&self, self.size_limit, memory_threshold, self.text_policy)
//@end
//@fn SaveBuilder::try_text
//@sig fn try_text(self) -> Self
    ensures r.only(&self, self.size_limit, self.memory_threshold, Try)
//@end
//@fn SaveBuilder::force_text
//@sig fn force_text(self) -> Self
    ensures r.only(&self, self.size_limit, self.memory_threshold, Force)
//@end
//@fn SaveBuilder::ignore_text
//@sig fn ignore_text(self) -> Self
    ensures r.only(&self, self.size_limit, self.memory_threshold, Ignore)
//@end
//@fn SaveBuilder::mod_open_opts
//@callable opts_fn
//@rename use-baseline-sig 1
//@sig fn mod_open_opts<F: OptsFn>(self, opts_fn: F) -> Self
    ensures r.open_opts.write, r.savable == self.savable, r.size_limit == self.size_limit, r.memory_threshold == self.memory_threshold, r.text_policy == self.text_policy, r.count_limit == self.count_limit
//@end
}
/// a caller's function on open options
trait OptsFn: Sized { fn vx_call(self, o: &mut OpenOptions); }

//@fn create_dir_all
//@sig fn create_dir_all(path: &Path) -> io::Result<()>
    requires disk_ok()
    ensures r is Ok ==> parent_made(*path), r matches Err(e) ==> disk_error(e)
//@end
impl<S: BufRead> SaveBuilder<S> {
    spec fn rest(&self) -> Seq<u8> { self.savable.rest() }
    /// reading took `n` bytes and changed nothing else
    #[verifier::prophetic]
    spec fn took(&self, o: &Self, n: int) -> bool {
        &&& self.savable.root() == o.savable.root() && self.savable.readable() && self.savable.frame() == o.savable.frame() && self.same_cfg(o)
        &&& 0 <= n <= o.rest().len() && self.rest() == o.rest().skip(n)
    }
    spec fn can_save(&self) -> bool { self.savable.readable() && self.rest().len() <= u64::MAX }
//@fn SaveBuilder::read_mem
//@byref with_buf
//@rename use-baseline-sig 1
//@sig fn read_mem<Wb: Sink>(&mut self, with_buf: &mut Wb, pre_read: u64) -> SaveResult<u64, u64>
    requires (*old(self)).can_save(), (*old(with_buf)).ready(), (*old(self)).rest().len() <= (*old(with_buf)).room()
    ensures (*final(with_buf)).ready(), (*final(with_buf)).fixed() == (*old(with_buf)).fixed(),
        match r {
            Full(n) => n == (*old(self)).rest().len() && (*final(self)).took(old(self), n as int) && (*final(with_buf)).got() == (*old(with_buf)).got() + (*old(self)).rest(),
            Partial(n, _) => (*final(self)).took(old(self), n as int) && (*final(with_buf)).got() == (*old(with_buf)).got() + (*old(self)).rest().take(n as int),
            Error(e) => (*final(self)).took(old(self), 0) && (*final(with_buf)).got() == (*old(with_buf)).got() },
        match r { Error(e) => read_fault(e), Partial(n, PartialReason::IoError(e)) => read_fault(e) || Wb::fails(e) || stopped(*old(with_buf), (*old(self)).rest(), old(self).savable.frame().floor, n as int, PartialReason::IoError(e)), _ => true },
        r matches Partial(n, reason) ==> reason is IoError || reason is SizeLimit || stopped(*old(with_buf), (*old(self)).rest(), old(self).savable.frame().floor, n as int, reason),
        match r { Full(n) => n == 0 || n <= (*old(self)).mem_limit() - pre_read, Partial(n, _) => n == 0 || n <= (*old(self)).mem_limit() - pre_read, Error(_) => true },
        r matches Partial(n, PartialReason::SizeLimit) ==> (*old(self)).rest().len() > (*old(self)).mem_limit() - pre_read || stopped(*old(with_buf), (*old(self)).rest(), old(self).savable.frame().floor, n as int, PartialReason::SizeLimit)
//@prologue
proof { assert(self.rest().skip(0) =~= self.rest()); }
//@end

//@fn SaveBuilder::save_mem
//@closure 0 MemSink: bytes mut
//@sig fn save_mem(&mut self, bytes: Vec<u8>) -> SaveResult<Vec<u8>, Vec<u8>>
    requires (*old(self)).can_save()
    ensures ({ let rest0 = (*old(self)).rest(); match r {
            Full(b) => b@ == bytes@ + rest0 && (*final(self)).took(old(self), rest0.len() as int),
            Partial(b, _) => ({ let n = b@.len() - bytes@.len(); 0 <= n && (*final(self)).took(old(self), n) && b@ == bytes@ + rest0.take(n) }),
            Error(e) => (*final(self)).took(old(self), 0) && bytes@.len() == 0 } }),
        match r { Error(e) => read_fault(e), Partial(_, PartialReason::IoError(e)) => read_fault(e), _ => true },
        r matches Partial(n, reason) ==> reason is IoError || reason is SizeLimit,
        ({ let limit = (*old(self)).mem_limit() - bytes@.len(); match r { Full(b) => (*old(self)).rest().len() == 0 || (*old(self)).rest().len() <= limit, Partial(b, _) => b@.len() == bytes@.len() || b@.len() - bytes@.len() <= limit, Error(_) => true } }),
        r matches Partial(n, PartialReason::SizeLimit) ==> (*old(self)).rest().len() > (*old(self)).mem_limit() - bytes@.len()
//@prologue
broadcast use g_save;
//@end

//@fn SaveBuilder::save_text
//@closure 0 TextSink: string mut
//@rename String::new vx_string
//@sig fn save_text(&mut self) -> SaveResult<String, String>
    requires (*old(self)).can_save()
    ensures ({ let rest0 = (*old(self)).rest(); match r {
            Full(s) => string_bytes(s) == rest0 && (*final(self)).took(old(self), rest0.len() as int),
            Partial(s, _) => ({ let n = string_bytes(s).len() as int; (*final(self)).took(old(self), n) && string_bytes(s) == rest0.take(n) }),
            Error(e) => (*final(self)).took(old(self), 0) } }),
        match r { Error(e) => read_fault(e), Partial(_, PartialReason::IoError(e)) => read_fault(e), _ => true },
        match r { Full(s) => string_bytes(s).len() <= (*old(self)).mem_limit(), Partial(s, _) => string_bytes(s).len() <= (*old(self)).mem_limit(), Error(_) => true },
        r matches Partial(s, PartialReason::SizeLimit) ==> (*old(self)).rest().len() > (*old(self)).mem_limit(),
        r matches Partial(s, reason) ==> reason is IoError || reason is SizeLimit || reason is Utf8Error && (old(self).savable.frame().floor >= 4 ==> !is_utf8((*old(self)).rest()))
//@prologue
broadcast use g_save, text_stop;
proof { assert forall|s: Seq<u8>, t: Seq<u8>| s.len() == 0 implies #[trigger] (s + t) == t by { assert(s + t =~= t); } }
//@end

//@fn SaveBuilder::write_limited
//@byref dest
//@closure 0 WriteSink: dest mut
//@closure 1 WriteSinkU: dest mut
//@sig fn write_limited<W: Write>(&mut self, dest: &mut W, limit: u64) -> SaveResult<u64, u64>
    requires (*old(self)).can_save()
    ensures (*final(dest)).id() == (*old(dest)).id(), ({ let rest0 = (*old(self)).rest(); match r {
            Full(n) => n == rest0.len() && (*final(self)).took(old(self), n as int) && (*final(dest)).out() == (*old(dest)).out() + rest0,
            Partial(n, reason) => (*final(self)).took(old(self), n as int) && (*final(dest)).out() == (*old(dest)).out() + rest0.take(n as int),
            Error(e) => (*final(self)).took(old(self), 0) && (*final(dest)).out() == (*old(dest)).out() } }),
        match r { Error(e) => read_fault(e), Partial(_, PartialReason::IoError(e)) => io_fault(e), _ => true },
        r matches Partial(n, reason) ==> reason is IoError || reason is SizeLimit,
        match r { Full(n) => old(self).size_limit < u64::MAX ==> n <= limit, Partial(n, _) => old(self).size_limit < u64::MAX ==> n <= limit, Error(_) => true },
        r matches Partial(n, PartialReason::SizeLimit) ==> old(self).size_limit < u64::MAX && (*old(self)).rest().len() > limit
//@prologue
proof { assert(self.rest().skip(0) =~= self.rest()); }
//@end

//@fn SaveBuilder::write_to
//@byref dest
//@sig fn write_to<W: Write>(&mut self, dest: &mut W) -> SaveResult<u64, u64>
    requires (*old(self)).can_save()
    ensures ({ let rest0 = (*old(self)).rest(); match r {
            Full(n) => n == rest0.len() && (*final(self)).took(old(self), n as int) && (*final(dest)).out() == (*old(dest)).out() + rest0,
            Partial(n, reason) => (*final(self)).took(old(self), n as int) && (*final(dest)).out() == (*old(dest)).out() + rest0.take(n as int),
            Error(e) => (*final(self)).took(old(self), 0) && (*final(dest)).out() == (*old(dest)).out() } }),
        match r { Error(e) => read_fault(e), Partial(_, PartialReason::IoError(e)) => io_fault(e), _ => true },
        r matches Partial(n, reason) ==> reason is IoError || reason is SizeLimit,
        match r { Full(n) => n <= old(self).size_limit, Partial(n, _) => n <= old(self).size_limit, Error(_) => true },
        r matches Partial(n, PartialReason::SizeLimit) ==> (*old(self)).rest().len() > old(self).size_limit
//@end

    broadcast proof fn took_twice(x: &Self, y: &Self, z: &Self, n: int, m: int)
        requires #[trigger] y.took(x, n), #[trigger] z.took(y, m)
        ensures z.took(x, n + m), x.rest().take(n) + y.rest().take(m) == x.rest().take(n + m), x.rest().take(n) + y.rest() == x.rest()
    { taken2(x.rest(), n, m); assert(x.rest().take(n) + y.rest() =~= x.rest()); }
    /// the disk is needed only for data that does not stay in memory
    spec fn disk_allowed(&self) -> bool { self.memory_threshold < self.size_limit && self.rest().len() > self.memory_threshold ==> disk_ok() }
    spec fn cfg(&self) -> Cfg { Cfg { opts: self.open_opts, size_limit: self.size_limit, threshold: self.memory_threshold, policy: self.text_policy } }
//@fn SaveBuilder::with_path
//@rename inline:map SaveResult::map
//@sig fn with_path<P: Into<Path>>(&mut self, path: P) -> FieldSaveResult
    requires (*old(self)).can_save(), (*old(self)).disk_allowed()
    ensures (*final(self)).took(old(self), taken_by(r)), stored_bytes((*old(self)).rest(), r), stored_size((*old(self)).cfg(), (*old(self)).rest(), r),
        stored_text((*old(self)).cfg(), (*old(self)).rest(), old(self).savable.frame().floor, r), stored_place((*old(self)).cfg(), (*old(self)).rest(), conv::<P, Path>(path), r)
//@prologue
broadcast use g_save, SaveBuilder::took_twice;
//@end
}
