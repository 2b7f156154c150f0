// ---------- strings, as their UTF-8 bytes
pub trait VxPat { spec fn pat(&self) -> Seq<u8>; }
impl VxPat for char { open spec fn pat(&self) -> Seq<u8> { if (*self as u32) < 128 { seq![*self as u8] } else { utf8(seq![*self]) } } }
impl<'a> VxPat for &'a str { open spec fn pat(&self) -> Seq<u8> { str_bytes(*self) } }
impl<'a> VxPat for &'a String { open spec fn pat(&self) -> Seq<u8> { string_bytes(**self) } }
/// `str::trim`
pub uninterp spec fn trimmed(s: Seq<u8>) -> Seq<u8>;
pub open spec fn graphic(c: u8) -> bool { 33 <= c <= 126 }
pub broadcast axiom fn trim_len(s: Seq<u8>) ensures (#[trigger] trimmed(s)).len() <= s.len();
/// a leading space goes away
pub axiom fn trim_space(s: Seq<u8>) requires s.len() > 0, s[0] == 32 ensures trimmed(s) == trimmed(s.skip(1));
/// text between two visible ASCII characters stays
pub axiom fn trim_graphic(s: Seq<u8>) requires s.len() > 0, graphic(s[0]), graphic(s.last()) ensures trimmed(s) == s;
pub axiom fn trim_first(s: Seq<u8>) requires s.len() > 0, graphic(s[0]) ensures trimmed(s).len() > 0, trimmed(s)[0] == s[0];
pub uninterp spec fn ltrimmed(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn rtrimmed(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn lower_uni(s: Seq<u8>) -> Seq<u8>;
/// the number of characters
pub uninterp spec fn char_count(s: Seq<u8>) -> nat;
/// `trim_matches(c)` for one ASCII character
pub open spec fn lstrip(s: Seq<u8>, c: u8) -> Seq<u8> decreases s.len() { if s.len() > 0 && s[0] == c { lstrip(s.skip(1), c) } else { s } }
pub open spec fn rstrip(s: Seq<u8>, c: u8) -> Seq<u8> decreases s.len() { if s.len() > 0 && s.last() == c { rstrip(s.drop_last(), c) } else { s } }
#[verifier::opaque]
pub open spec fn lower(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| if 65 <= s[i] <= 90 { (s[i] + 32) as u8 } else { s[i] }) }
pub open spec fn at(s: Seq<u8>, p: Seq<u8>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
/// a place where a string may be cut: not inside a multi-byte character
pub open spec fn cut_ok(s: Seq<u8>, i: int) -> bool { 0 <= i <= s.len() && (i == 0 || i == s.len() || s[i] < 128 || s[i] >= 192) }
pub trait VxText: VxStr {
    fn vx_trim(&self) -> (r: &str) ensures str_bytes(r) == trimmed(self.sb());
    fn vx_trim_matches(&self, c: char) -> (r: &str) requires (c as u32) < 128 ensures str_bytes(r) == rstrip(lstrip(self.sb(), c as u8), c as u8);
    fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>)
        ensures match r { Some(i) => at(self.sb(), p.pat(), i as int) && (forall|j: int| 0 <= j < i ==> !at(self.sb(), p.pat(), j)) && cut_ok(self.sb(), i as int), None => forall|j: int| !at(self.sb(), p.pat(), j) };
    fn vx_split_at(&self, i: usize) -> (r: (&str, &str)) requires cut_ok(self.sb(), i as int) ensures str_bytes(r.0) == self.sb().take(i as int), str_bytes(r.1) == self.sb().skip(i as int);
    fn vx_str_starts<P: VxPat>(&self, p: P) -> (r: bool) ensures r == p.pat().is_prefix_of(self.sb());
    fn vx_str_ends<P: VxPat>(&self, p: P) -> (r: bool) ensures r == p.pat().is_suffix_of(self.sb());
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) ensures r == exists|i: int| at(self.sb(), p.pat(), i);
    fn vx_rfind<P: VxPat>(&self, p: P) -> (r: Option<usize>)
        ensures match r { Some(i) => at(self.sb(), p.pat(), i as int) && (forall|j: int| j > i ==> !at(self.sb(), p.pat(), j)) && cut_ok(self.sb(), i as int), None => forall|j: int| !at(self.sb(), p.pat(), j) };
    fn vx_trim_start_matches(&self, c: char) -> (r: &str) requires (c as u32) < 128 ensures str_bytes(r) == lstrip(self.sb(), c as u8);
    fn vx_trim_end_matches(&self, c: char) -> (r: &str) requires (c as u32) < 128 ensures str_bytes(r) == rstrip(self.sb(), c as u8);
    fn vx_trim_start(&self) -> (r: &str) ensures str_bytes(r) == ltrimmed(self.sb());
    fn vx_trim_end(&self) -> (r: &str) ensures str_bytes(r) == rtrimmed(self.sb());
    fn vx_to_ascii_lowercase(&self) -> (r: String) ensures string_bytes(r) == lower(self.sb());
    fn vx_to_lowercase(&self) -> (r: String) ensures string_bytes(r) == lower_uni(self.sb());
    /// `chars().count()`
    fn vx_char_count(&self) -> (r: usize) ensures r == char_count(self.sb());
    /// `split(p).next()`
    fn vx_split_first<P: VxPat>(&self, p: P) -> (r: Option<&str>)
        ensures r matches Some(x) && str_bytes(x).is_prefix_of(self.sb()) && (forall|j: int| 0 <= j < str_bytes(x).len() ==> !at(self.sb(), p.pat(), j)) && (at(self.sb(), p.pat(), str_bytes(x).len() as int) || str_bytes(x) == self.sb());
    fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>)
        ensures match r { Some(x) => p.pat().is_suffix_of(self.sb()) && str_bytes(x) == self.sb().take(self.sb().len() - p.pat().len()), None => !p.pat().is_suffix_of(self.sb()) };
    fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>)
        ensures match r { Some(x) => p.pat().is_prefix_of(self.sb()) && str_bytes(x) == self.sb().skip(p.pat().len() as int), None => !p.pat().is_prefix_of(self.sb()) };
    fn vx_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>)
        ensures match r { Some((x, y)) => at(self.sb(), p.pat(), str_bytes(x).len() as int) && (forall|j: int| 0 <= j < str_bytes(x).len() ==> !at(self.sb(), p.pat(), j)) && str_bytes(x) == self.sb().take(str_bytes(x).len() as int) && str_bytes(y) == self.sb().skip(str_bytes(x).len() as int + p.pat().len() as int), None => forall|j: int| !at(self.sb(), p.pat(), j) };
    fn vx_eq_ignore_case(&self, o: &str) -> (r: bool) ensures r == (lower(self.sb()) == lower(str_bytes(o)));
}
impl VxText for str {
    #[verifier::external_body] fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_char_count(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_first<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_str_ends<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_at(&self, i: usize) -> (r: (&str, &str)) { unimplemented!() }
    #[verifier::external_body] fn vx_str_starts<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_eq_ignore_case(&self, o: &str) -> (r: bool) { unimplemented!() }
}
pub trait VxToOwned { type Owned; spec fn owned_as(&self, r: Self::Owned) -> bool; fn vx_to_owned(&self) -> (r: Self::Owned) ensures self.owned_as(r); }
impl VxToOwned for str { type Owned = String; open spec fn owned_as(&self, r: String) -> bool { string_bytes(r) == str_bytes(self) } #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() } }
impl VxToOwned for Path { type Owned = Path; open spec fn owned_as(&self, r: Path) -> bool { r == *self } #[verifier::external_body] fn vx_to_owned(&self) -> (r: Path) { unimplemented!() } }
impl VxToOwned for [u8] { type Owned = Vec<u8>; open spec fn owned_as(&self, r: Vec<u8>) -> bool { r@ == self@ } #[verifier::external_body] fn vx_to_owned(&self) -> (r: Vec<u8>) { unimplemented!() } }
/// the methods of slices that have a name in common with those of strings
pub trait VxSliceText<T> { spec fn sl(&self) -> Seq<T>;
    fn vx_split_at(&self, i: usize) -> (r: (&[T], &[T])) requires i <= self.sl().len() ensures r.0@ == self.sl().take(i as int), r.1@ == self.sl().skip(i as int);
    fn vx_str_starts(&self, p: &[T]) -> (r: bool) ensures r == p@.is_prefix_of(self.sl());
    fn vx_str_ends(&self, p: &[T]) -> (r: bool) ensures r == p@.is_suffix_of(self.sl());
    fn vx_contains(&self, x: &T) -> (r: bool) ensures r == self.sl().contains(*x); }
impl VxSliceText<u8> for [u8] { open spec fn sl(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_split_at(&self, i: usize) -> (r: (&[u8], &[u8])) { unimplemented!() }
    #[verifier::external_body] fn vx_str_starts(&self, p: &[u8]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_str_ends(&self, p: &[u8]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_contains(&self, x: &u8) -> (r: bool) { unimplemented!() } }
impl VxDisplay for io::Error { uninterp spec fn text(&self) -> Seq<u8>; }
/// `to_string`
pub trait VxToString { fn vx_to_string(&self) -> (r: String); }
impl<T: VxDisplay + ?Sized> VxToString for T { #[verifier::external_body] fn vx_to_string(&self) -> (r: String) ensures string_bytes(r) == self.text() { unimplemented!() } }
//@rename-method .starts_with vx_str_starts
//@rename-method .ends_with vx_str_ends
//@rename-method .contains vx_contains
//@rename-method .rfind vx_rfind
//@rename-method .trim vx_trim
//@rename-method .trim_matches vx_trim_matches
//@rename-method .find vx_find
//@rename-method .split_at vx_split_at
//@rename-method .eq_ignore_ascii_case vx_eq_ignore_case
//@rename-method .to_owned vx_to_owned
//@rename-method .to_string vx_to_string
//@rename-method .trim_start_matches vx_trim_start_matches
//@rename-method .trim_end_matches vx_trim_end_matches
//@rename-method .trim_start vx_trim_start
//@rename-method .trim_end vx_trim_end
//@rename-method .to_lowercase vx_to_lowercase
//@rename-method .to_ascii_lowercase vx_to_ascii_lowercase
//@rename-method .strip_prefix vx_strip_prefix
//@rename-method .strip_suffix vx_strip_suffix
//@rename-method .split_once vx_split_once
