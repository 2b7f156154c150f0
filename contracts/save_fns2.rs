/// a directory that `as_ref()` gives
pub uninterp spec fn as_path<P>(p: P) -> Path;
trait VxAsPath: Sized { fn vx_as_path(&self) -> (r: &Path) ensures *r == as_path::<Self>(*self); }
impl<P> VxAsPath for P { #[verifier::external_body] fn vx_as_path(&self) -> (r: &Path) { unimplemented!() } }
/// `p` is directly in `dir` under a generated name
spec fn fresh_in(dir: Path, p: Path) -> bool { exists|name: String| #[trigger] path_join(dir, name) == p && fresh_name(string_bytes(name)) }
impl<S: BufRead> SaveBuilder<S> {
//@fn SaveBuilder<&>::temp
//@sig fn temp(&mut self) -> FieldSaveResult
    requires (*old(self)).can_save(), (*old(self)).disk_allowed()
    ensures (*final(self)).took(old(self), taken_by(r)), stored_bytes((*old(self)).rest(), r), stored_size((*old(self)).cfg(), (*old(self)).rest(), r),
        stored_text((*old(self)).cfg(), (*old(self)).rest(), old(self).savable.frame().floor, r), exists|p: Path| fresh_in(temp_dir_path(), p) && #[trigger] stored_place((*old(self)).cfg(), (*old(self)).rest(), p, r)
//@prologue
broadcast use g_save;
//@end
//@fn SaveBuilder<&>::with_filename
//@sig fn with_filename(&mut self, filename: &str) -> FieldSaveResult
    requires (*old(self)).can_save(), (*old(self)).disk_allowed()
    ensures (*final(self)).took(old(self), taken_by(r)), stored_bytes((*old(self)).rest(), r), stored_size((*old(self)).cfg(), (*old(self)).rest(), r),
        stored_text((*old(self)).cfg(), (*old(self)).rest(), old(self).savable.frame().floor, r), stored_place((*old(self)).cfg(), (*old(self)).rest(), path_join(temp_dir_path(), filename), r)
//@prologue
broadcast use g_save;
//@end
//@fn SaveBuilder<&>::with_dir
//@rename as_ref vx_as_path
//@sig fn with_dir<P: VxAsPath>(&mut self, dir: P) -> FieldSaveResult
    requires (*old(self)).can_save(), (*old(self)).disk_allowed()
    ensures (*final(self)).took(old(self), taken_by(r)), stored_bytes((*old(self)).rest(), r), stored_size((*old(self)).cfg(), (*old(self)).rest(), r),
        stored_text((*old(self)).cfg(), (*old(self)).rest(), old(self).savable.frame().floor, r), exists|p: Path| fresh_in(as_path::<P>(dir), p) && #[trigger] stored_place((*old(self)).cfg(), (*old(self)).rest(), p, r)
//@prologue
broadcast use g_save;
//@end
}
// ---------- reading saved data
//@item enum DataReader
impl SavedData {
//@fn SavedData::readable
//@rename as_ref vx_as_bytes
//@rename ? same
//@sig fn readable(&self) -> io::Result<DataReader>
    ensures match *self {
        SavedData::Text(t) => r matches Ok(d) && d.readable() && d.rest() == string_bytes(t),
        SavedData::Bytes(b) => r matches Ok(d) && d.readable() && d.rest() == b@,
        SavedData::File(p, _) => r matches Ok(d) ==> d.readable() && d.rest() == path_content(&p) }
//@end
}
impl<'a> Read for DataReader<'a> {
    closed spec fn rest(&self) -> Seq<u8> { match *self { DataReader::Bytes(b) => b@, DataReader::File(f) => f.rest() } }
    closed spec fn readable(&self) -> bool { match *self { DataReader::Bytes(b) => true, DataReader::File(f) => f.readable() } }
//@fn Read for DataReader::read
//@sig fn read(&mut self, buf: &mut [u8]) -> io::Result<usize>
//@end
}
impl<'a> StdBufRead for DataReader<'a> {
    closed spec fn shown(&self) -> Seq<u8> { match *self { DataReader::Bytes(b) => b@, DataReader::File(f) => f.shown() } }
//@fn BufRead for DataReader::fill_buf
//@sig fn fill_buf(&mut self) -> io::Result<&[u8]>
//@end
//@fn BufRead for DataReader::consume
//@sig fn consume(&mut self, amt: usize)
//@end
}
// ---------- the directory of a request save
//@item enum SaveDir
impl SaveDir {
    spec fn at(&self) -> Path { match *self { SaveDir::Temp(t) => dir_path(t), SaveDir::Perm(p) => p } }
//@fn SaveDir::as_path
//@sig fn as_path(&self) -> &Path
    ensures *r == self.at()
//@end
//@fn SaveDir::is_temporary
//@sig fn is_temporary(&self) -> bool
    ensures r == (self is Temp)
//@end
//@fn SaveDir::into_path
//@sig fn into_path(self) -> Path
    ensures r == self.at(), self matches SaveDir::Temp(t) ==> kept(t)
//@end
//@fn SaveDir::keep
//@rename PathBuf::new vx_path_new
//@sig fn keep(&mut self)
    ensures *final(self) == SaveDir::Perm((*old(self)).at()), *old(self) matches SaveDir::Temp(t) ==> kept(t)
//@end
//@fn SaveDir::delete
//@rename fs::remove_dir_all vx_remove_dir_all
//@sig fn delete(self) -> io::Result<()>
    requires may_remove(self.at())
    ensures r is Ok ==> removed(self.at())
//@end
//@fn AsRef<Path> for SaveDir::as_ref
//@sig fn as_ref(&self) -> &Path
    ensures *r == self.at()
//@end
}
// ---------- results
impl PartialReason {
//@fn PartialReason::unwrap_err
//@sig fn unwrap_err(self) -> io::Error
    requires self is IoError
    ensures self == PartialReason::IoError(r)
//@end
//@fn PartialReason::expect_err
//@sig fn expect_err(self, msg: &str) -> io::Error
    requires self is IoError
    ensures self == PartialReason::IoError(r)
//@end
}
impl<S, P> SaveResult<S, P> {
//@fn SaveResult::okish
//@sig fn okish(self) -> Option<S>
    ensures r == match self { Full(x) => Some(x), Partial(p, _) => Some(conv::<P, S>(p)), Error(_) => None }
//@end
//@fn SaveResult::map
//@sig fn map<T, Map: FnOnce(S) -> T>(self, map: Map) -> SaveResult<T, T>
    requires forall|s: S| map.requires((s,))
    ensures match self { Full(x) => r matches Full(t) && map.ensures((x,), t), Partial(p, why) => r matches Partial(t, w) && w == why && map.ensures((conv::<P, S>(p),), t), Error(e) => r == SaveResult::<T, T>::Error(e) }
//@end
//@fn SaveResult::into_opt_both
//@sig fn into_opt_both(self) -> (Option<S>, Option<io::Error>)
    ensures match self { Full(x) => r == (Some(x), None::<io::Error>), Partial(p, PartialReason::IoError(e)) => r == (Some(conv::<P, S>(p)), Some(e)), Partial(p, _) => r == (Some(conv::<P, S>(p)), None::<io::Error>), Error(e) => r == (None::<S>, Some(e)) }
//@end
//@fn SaveResult::into_result
//@sig fn into_result(self) -> io::Result<S>
    ensures match self { Full(x) => r == Ok::<S, io::Error>(x), Partial(p, _) => r == Ok::<S, io::Error>(conv::<P, S>(p)), Error(e) => r == Err::<S, io::Error>(e) }
//@end
//@fn SaveResult::into_result_strict
//@sig fn into_result_strict(self) -> io::Result<S>
    ensures match self { Full(x) => r == Ok::<S, io::Error>(x), Partial(_, PartialReason::IoError(e)) => r == Err::<S, io::Error>(e), Partial(p, _) => r == Ok::<S, io::Error>(conv::<P, S>(p)), Error(e) => r == Err::<S, io::Error>(e) }
//@end
}
