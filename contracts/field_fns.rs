//@rename-method as_bytes vx_as_bytes
//@rename-method into vx_into
//@rename-method len vx_len
//@rename-method is_empty vx_is_empty
//@rename-method iter vx_iter
//@rename-method parse vx_parse
//@rename-method str-lit vx_lit
//@rename-method str-index str
//@rename-method comb:map Option
//@rename-method ? conv
//@macros src/server/field.rs
//@source src/server/field.rs
//@item const EMPTY_STR_HEADER
#[derive(Copy, Clone)]
//@item struct StrHeader
//@item struct DisplayHeaders
impl<'s, 'a> VxDisplay for DisplayHeaders<'s, 'a> { uninterp spec fn text(&self) -> Seq<u8>; }
//@item struct FieldHeaders
//@item struct ContentDisp

#[verifier::external_body] pub struct HttparseError { _p: () }
/// the variants declared with `quick_error!`
pub enum ParseHeaderError { MissingContentDisposition(String), InvalidContDisp(&'static str, String), TokenizeError(HttparseError), MimeError(String), TooLarge, Io(io::Error) }
pub broadcast axiom fn conv_io(e: io::Error) ensures #[trigger] conv::<io::Error, ParseHeaderError>(e) == ParseHeaderError::Io(e);
pub broadcast axiom fn conv_tok(e: HttparseError) ensures #[trigger] conv::<HttparseError, ParseHeaderError>(e) == ParseHeaderError::TokenizeError(e);

//@fn io_str_utf8
//@sig fn io_str_utf8(buf: &[u8]) -> io::Result<&str>
    ensures match r { Ok(s) => is_utf8(buf@) && str_bytes(s) == buf@, Err(_) => !is_utf8(buf@) }
//@end
#[derive(Copy, Clone)]
pub struct Header<'a> { pub name: &'a str, pub value: &'a [u8] }
#[verifier::external_body] pub const EMPTY_HEADER: Header<'static> = Header { name: "", value: &[] };
pub enum Status<T> { Partial, Complete(T) }
/// `httparse::parse_headers` on a buffer, with room for `n` headers
pub enum Parsed { Partial, Complete(int, Seq<(Seq<u8>, Seq<u8>)>), Error }
pub uninterp spec fn parsed_headers(buf: Seq<u8>, n: nat) -> Parsed;
pub open spec fn raw_view(h: Seq<Header>) -> Seq<(Seq<u8>, Seq<u8>)> { h.map_values(|x: Header| (str_bytes(x.name), x.value@)) }
pub mod httparse { use vstd::prelude::*; use super::*;
    #[verifier::external_body]
    pub fn parse_headers<'b: 'h, 'h>(src: &'b [u8], dst: &'h mut [Header<'b>]) -> (r: Result<Status<(usize, &'h [Header<'b>])>, HttparseError>)
        ensures match r {
            Ok(Status::Partial) => parsed_headers(src@, old(dst)@.len()) == Parsed::Partial,
            Ok(Status::Complete(x)) => parsed_headers(src@, old(dst)@.len()) == Parsed::Complete(x.0 as int, raw_view(x.1@)) && x.0 <= src@.len() && x.1@.len() <= old(dst)@.len(),
            Err(_) => parsed_headers(src@, old(dst)@.len()) == Parsed::Error }
    { unimplemented!() }
}
// ---------- specification: parameters of a header value
/// the first `;` outside a quoted value, from `i` on
spec fn pend(s: Seq<u8>, i: int, quoted: bool) -> int decreases s.len() - i {
    if i >= s.len() || i < 0 { s.len() as int }
    else if !quoted { if s[i] == 59 { i } else { pend(s, i + 1, s[i] == 34 && i > 0 && s[i - 1] == 61) } }
    else if s[i] == 34 { pend(s, i + 1, !ends_value(s.skip(i + 1))) }
    else { pend(s, i + 1, true) }
}
spec fn ends_value(rest: Seq<u8>) -> bool { trimmed(rest).len() == 0 || trimmed(rest)[0] == 59 }
proof fn pend_bound(s: Seq<u8>, i: int, q: bool)
    requires 0 <= i <= s.len()
    ensures i <= pend(s, i, q) <= s.len(), pend(s, i, q) < s.len() ==> s[pend(s, i, q)] == 59 decreases s.len() - i
{ if i < s.len() {
    if !q { if s[i] != 59 { pend_bound(s, i + 1, s[i] == 34 && i > 0 && s[i - 1] == 61); } }
    else if s[i] == 34 { pend_bound(s, i + 1, !ends_value(s.skip(i + 1))); }
    else { pend_bound(s, i + 1, true); } } }
/// the value of the first parameter that starts with `name`, in `;`-preceded parameters
spec fn gp(name: Seq<u8>, s: Seq<u8>) -> Option<Seq<u8>> decreases s.len() {
    if s.len() == 0 { None } else {
        let p = s.skip(1);
        let e = pend(p, 0, false);
        let v = trimmed(p.take(e));
        if name.is_prefix_of(v) { Some(v.skip(name.len() as int)) }
        else if 0 <= e <= p.len() { gp(name, p.skip(e)) } else { None }
    }
}
spec fn unquoted(s: Seq<u8>) -> Seq<u8> { rstrip(lstrip(s, 34), 34) }

// ---------- specification: the headers of a field
type Hdr = (Seq<u8>, Seq<u8>);
spec fn hv1(x: StrHeader) -> Hdr { (str_bytes(x.name), str_bytes(x.val)) }
spec fn hv(h: Seq<StrHeader>) -> Seq<Hdr> { h.map_values(|x: StrHeader| hv1(x)) }
/// the value of the first header of that name
spec fn named(h: Seq<Hdr>, name: Seq<u8>) -> Option<Seq<u8>> decreases h.len() {
    if h.len() == 0 { None } else if lower(h[0].0) == lower(name) { Some(h[0].1) } else { named(h.skip(1), name) }
}
/// the first place of a byte, or the length
spec fn first_at(s: Seq<u8>, c: u8) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + first_at(s.skip(1), c) }
}
proof fn first_bound(s: Seq<u8>, c: u8) ensures 0 <= first_at(s, c) <= s.len() decreases s.len()
{ if s.len() > 0 && s[0] != c { first_bound(s.skip(1), c); } }
proof fn first_is(s: Seq<u8>, c: u8, i: int)
    requires 0 <= i <= s.len(), i == s.len() || s[i] == c, forall|j: int| 0 <= j < i ==> s[j] != c
    ensures first_at(s, c) == i decreases s.len()
{ if s.len() > 0 && i > 0 { assert(s[0] != c); first_is(s.skip(1), c, i - 1); } }
spec fn form_data() -> Seq<u8> { [102u8,111u8,114u8,109u8,45u8,100u8,97u8,116u8,97u8]@ }
spec fn name_eq() -> Seq<u8> { [110u8,97u8,109u8,101u8,61u8]@ }
spec fn filename_eq() -> Seq<u8> { [102u8,105u8,108u8,101u8,110u8,97u8,109u8,101u8,61u8]@ }
spec fn cd_key() -> Seq<u8> { [67u8,111u8,110u8,116u8,101u8,110u8,116u8,45u8,68u8,105u8,115u8,112u8,111u8,115u8,105u8,116u8,105u8,111u8,110u8]@ }
spec fn ct_key() -> Seq<u8> { [67u8,111u8,110u8,116u8,101u8,110u8,116u8,45u8,84u8,121u8,112u8,101u8]@ }
/// name and filename of a Content-Disposition value
spec fn disposition(v: Seq<u8>) -> Option<(Seq<u8>, Option<Seq<u8>>)> {
    let i = first_at(v, 59);
    if i >= v.len() || trimmed(v.take(i)) != form_data() { None } else {
        match gp(name_eq(), v.skip(i)) {
            None => None,
            Some(n) => Some((unquoted(n), match gp(filename_eq(), v.skip(i)) { Some(f) => Some(unquoted(f)), None => None })),
        }
    }
}
spec fn cd_of(h: Seq<Hdr>) -> Option<(Seq<u8>, Option<Seq<u8>>)> {
    match named(h, cd_key()) { None => None, Some(x) => disposition(x) }
}
/// `None`: there is a Content-Type which is not a MIME type
spec fn ct_of(h: Seq<Hdr>) -> Option<Option<Mime>> {
    match named(h, ct_key()) { None => Some(None), Some(x) => match parsed_as::<Mime>(x) { Some(m) => Some(Some(m)), None => None } }
}
spec fn opt_string(f: Option<String>) -> Option<Seq<u8>> { match f { Some(x) => Some(string_bytes(x)), None => None } }
spec fn cd_is(c: ContentDisp, d: Option<(Seq<u8>, Option<Seq<u8>>)>) -> bool { d == Some((string_bytes(c.field_name), opt_string(c.filename))) }
spec fn headers_are(f: FieldHeaders, h: Seq<Hdr>) -> bool {
    cd_of(h) == Some((arc_str(f.name), opt_string(f.filename))) && ct_of(h) == Some(f.content_type)
}

proof fn first_found(v: Seq<u8>, d: Seq<u8>, c: u8)
    requires d == seq![c]
    ensures forall|i: int| #[trigger] at(v, d, i) && (forall|j: int| 0 <= j < i ==> !at(v, d, j)) ==> first_at(v, c) == i && 0 <= i < v.len() && v[i] == c,
        (forall|i: int| !at(v, d, i)) ==> first_at(v, c) == v.len()
{
    assert forall|j: int| #![trigger at(v, d, j)] at(v, d, j) == (0 <= j < v.len() && v[j] == c) by {
        if at(v, d, j) { assert(v.subrange(j, j + 1)[0] == d[0]); }
        if 0 <= j < v.len() && v[j] == c { assert(v.subrange(j, j + 1) =~= d); } }
    assert forall|i: int| #[trigger] at(v, d, i) && (forall|j: int| 0 <= j < i ==> !at(v, d, j)) implies first_at(v, c) == i && 0 <= i < v.len() && v[i] == c by {
        assert forall|j: int| 0 <= j < i implies v[j] != c by { assert(!at(v, d, j)); }
        first_is(v, c, i);
    }
    if forall|i: int| !at(v, d, i) {
        assert forall|j: int| 0 <= j < v.len() implies v[j] != c by { assert(!at(v, d, j)); }
        first_is(v, c, v.len() as int);
    }
}
//@fn split_once
//@sig fn split_once(s: &str, delim: char) -> Option<(&str, &str)>
    requires (delim as u32) < 128
    ensures ({ let v = str_bytes(s); let k = first_at(v, delim as u8); match r { Some((a, b)) => 0 <= k < v.len() && str_bytes(a) == v.take(k) && str_bytes(b) == v.skip(k) && v[k] == delim as u8, None => k == v.len() } })
//@prologue
proof { first_found(str_bytes(s), delim.pat(), delim as u8); }
//@end
//@fn trim_quotes
//@sig fn trim_quotes(s: &str) -> &str
    ensures str_bytes(r) == unquoted(str_bytes(s))
//@end
//@fn param_end
//@sig fn param_end(params: &str) -> usize
    ensures r == pend(str_bytes(params), 0, false)
//@loop 0
    invariant 0 <= vx_i0 <= vx_end0, vx_end0 == bytes@.len(), bytes@ == str_bytes(params), pend(bytes@, 0, false) == pend(bytes@, vx_i0 as int, quoted)
    ensures vx_i0 == vx_end0
    decreases vx_end0 - vx_i0
//@body 0
proof { if vx_i0 < bytes@.len() { if bytes@[vx_i0 as int] == 34 { cut_after_ascii(params, vx_i0 as int); }
    assert(str_bytes(params).subrange(vx_i0 + 1, str_bytes(params).len() as int) =~= bytes@.skip(vx_i0 + 1));
    let p = ';'.pat(); assert(p =~= seq![59u8]);
    assert forall|v: Seq<u8>| #[trigger] p.is_prefix_of(v) == (v.len() > 0 && v[0] == 59) by { if v.len() > 0 && v[0] == 59 { assert(v.take(1) =~= p); } if p.is_prefix_of(v) { assert(v.take(1)[0] == 59); } }
} }
//@end
//@fn get_param
//@attr #[verifier::loop_isolation(false)]
//@sig fn get_param<'a>(name: &str, params: &'a str) -> Option<&'a str>
    requires str_bytes(params).len() == 0 || str_bytes(params)[0] == 59, str_bytes(name).len() > 0, str_bytes(name).last() < 128
    ensures match r { Some(x) => gp(str_bytes(name), str_bytes(params)) == Some(str_bytes(x)), None => gp(str_bytes(name), str_bytes(params)) is None }
//@prologue
let ghost all = str_bytes(params);
//@loop 0
    invariant str_bytes(params).len() == 0 || str_bytes(params)[0] == 59, str_bytes(name).len() > 0, str_bytes(name).last() < 128,
      gp(str_bytes(name), str_bytes(params)) == gp(str_bytes(name), all),
    decreases str_bytes(params).len()
//@body 0
proof { let p = str_bytes(params).skip(1); pend_bound(p, 0, false); assert(str_bytes(params).subrange(1, str_bytes(params).len() as int) =~= p);
    let e = pend(p, 0, false); assert(p.subrange(0, e) =~= p.take(e)); assert(p.subrange(e, p.len() as int) =~= p.skip(e)); cut_after_ascii(params, 0);
    let n = str_bytes(name); assert(all.len() >= 0);
    assert forall|s: &str, j: int| 0 < j <= str_bytes(s).len() && str_bytes(s)[j - 1] < 128 implies #[trigger] cut_ok(str_bytes(s), j) by { cut_after_ascii(s, j - 1); }
    assert forall|v: Seq<u8>| #[trigger] n.is_prefix_of(v) implies v[n.len() - 1] == n.last() && v.subrange(n.len() as int, v.len() as int) == v.skip(n.len() as int) by { assert(v.take(n.len() as int)[n.len() - 1] == n.last()); assert(v.subrange(n.len() as int, v.len() as int) =~= v.skip(n.len() as int)); }
}
//@end
//@fn find_header
//@sig fn find_header<'a, 'b>(headers: &'a [StrHeader<'b>], name: &str) -> Option<&'a StrHeader<'b>>
    ensures match r { Some(x) => named(hv(headers@), str_bytes(name)) == Some(str_bytes(x.val)), None => named(hv(headers@), str_bytes(name)) is None }
//@prologue
let ghost all = hv(headers@); let ghost nm = str_bytes(name); assert(all.skip(0) =~= all);
//@loop 0
    invariant_except_break vx_found is None, named(all, nm) == named(all.skip(all.len() - vx_it0.rest().len()), nm),
    invariant nm == str_bytes(name), all == hv(headers@), vx_it0.rest().len() <= all.len(),
      forall|i: int| 0 <= i < vx_it0.rest().len() ==> hv1(*(#[trigger] vx_it0.rest()[i])) == all[all.len() - vx_it0.rest().len() + i],
    ensures match vx_found { Some(x) => named(all, nm) == Some(str_bytes(x.val)), None => named(all, nm) is None }
    decreases vx_it0.rest().len()
//@body 0
proof { let k = all.len() - vx_it0.rest().len(); if vx_it0.rest().len() > 0 { assert(hv1(*vx_it0.rest()[0]) == all[k]); assert(all.skip(k)[0] == all[k]); assert(all.skip(k).skip(1) =~= all.skip(k + 1)); } }
//@end
spec fn section(p: Seq<u8>, data: Seq<u8>) -> bool { p.is_prefix_of(data) }
spec fn io_or_large(e: ParseHeaderError) -> bool { e is Io || e is TooLarge }
spec fn skipped(a: Seq<u8>, b: Seq<u8>) -> bool { a == b || exists|k: int| 0 <= k <= a.len() && b == #[trigger] a.skip(k) }
/// the header section in `p` is not that of a field
spec fn bad_section(p: Seq<u8>) -> bool {
    match parsed_headers(p, 4) { Parsed::Partial => false, Parsed::Error => true, Parsed::Complete(n, h) => cd_of(h) is None || ct_of(h) is None || exists|i: int| 0 <= i < h.len() && !is_utf8((#[trigger] h[i]).1) }
}
spec fn good_section(p: Seq<u8>, f: FieldHeaders, data: Seq<u8>, rest: Seq<u8>) -> bool {
    match parsed_headers(p, 4) { Parsed::Complete(n, h) => 0 <= n <= p.len() && rest == data.skip(n) && headers_are(f, h), _ => false }
}
/// why no headers could be read from unread data `rest`
spec fn header_failure(e: ParseHeaderError, rest: Seq<u8>, floor: int) -> bool {
    match e {
        ParseHeaderError::Io(e) => io::from_source(e) || exists|p: Seq<u8>| #[trigger] section(p, rest) && bad_section(p),
        ParseHeaderError::TooLarge => rest.len() == 0 || exists|p: Seq<u8>| #[trigger] section(p, rest) && parsed_headers(p, 4) is Partial && (p.len() == rest.len() || p.len() >= floor),
        _ => exists|p: Seq<u8>| #[trigger] section(p, rest) && bad_section(p),
    }
}
impl ContentDisp {
//@fn ContentDisp::parse_required
//@rename comb:map Option
//@sig fn parse_required(headers: &[StrHeader]) -> Result<ContentDisp, ParseHeaderError>
    ensures match r { Ok(c) => cd_is(c, cd_of(hv(headers@))), Err(e) => !io_or_large(e) && cd_of(hv(headers@)) is None }
//@end
}
//@fn parse_content_type
//@sig fn parse_content_type(headers: &[StrHeader]) -> Result<Option<Mime>, ParseHeaderError>
    ensures match r { Ok(m) => ct_of(hv(headers@)) == Some(m), Err(e) => !io_or_large(e) && ct_of(hv(headers@)) is None }
//@prologue
broadcast use conv_same;
//@end
impl FieldHeaders {
//@fn FieldHeaders::parse
//@sig fn parse(headers: &[StrHeader]) -> Result<FieldHeaders, ParseHeaderError>
    ensures match r { Ok(f) => headers_are(f, hv(headers@)), Err(e) => !io_or_large(e) && (cd_of(hv(headers@)) is None || ct_of(hv(headers@)) is None) }
//@prologue
broadcast use conv_arc; broadcast use conv_same;
//@end

//@fn FieldHeaders::read_from
//@attr #[verifier::loop_isolation(false)]
//@sig fn read_from<R: BufRead>(src: &mut R) -> Result<Self, ParseHeaderError>
    requires (*old(src)).readable()
    ensures (*final(src)).readable(), (*final(src)).frame() == (*old(src)).frame(), skipped((*old(src)).rest(), (*final(src)).rest()),
      match r {
        Ok(f) => exists|p: Seq<u8>| #[trigger] section(p, (*old(src)).rest()) && good_section(p, f, (*old(src)).rest(), (*final(src)).rest()),
        Err(e) => header_failure(e, (*old(src)).rest(), (*old(src)).frame().floor),
      }
//@prologue
broadcast use conv_io; broadcast use conv_tok;
//@loop 0
    invariant src.readable(), src.frame() == (*old(src)).frame(), src.rest() == (*old(src)).rest(), last_len <= src.avail().len(), last_len == 0 || (last_len == src.avail().len() && parsed_headers(src.avail(), 4) is Partial && section(src.avail(), (*old(src)).rest()))
    decreases src.rest().len() - last_len
//@before parse_headers
proof { assert(section(buf@, (*old(src)).rest())); }
//@end
}
//@fn copy_headers
//@sig fn copy_headers<'h, 'b: 'h>(raw: &[Header<'b>], headers: &'h mut [StrHeader<'b>]) -> io::Result<&'h [StrHeader<'b>]>
    requires raw@.len() <= old(headers)@.len()
    ensures match r { Ok(h) => h@.len() == raw@.len() && hv(h@) == raw_view(raw@), Err(_) => exists|i: int| 0 <= i < raw@.len() && !is_utf8((#[trigger] raw_view(raw@)[i]).1) }
//@loop 0
    invariant vx_i0 <= vx_end0, vx_end0 == raw@.len(), vx_end0 <= headers@.len(), headers@.len() == old(headers)@.len(), forall|i: int| 0 <= i < vx_i0 ==> str_bytes((#[trigger] headers@[i]).name) == str_bytes(raw@[i].name) && str_bytes(headers@[i].val) == raw@[i].value@
    ensures vx_i0 == vx_end0
    decreases vx_end0 - vx_i0
//@body 0
proof { if vx_i0 < raw@.len() { assert(raw_view(raw@)[vx_i0 as int].1 == raw@[vx_i0 as int].value@); } }
//@before vx_str_slice
proof { let hh = headers@.subrange(0, raw@.len() as int); assert forall|i: int| 0 <= i < raw@.len() implies hv(hh)[i] == #[trigger] raw_view(raw@)[i] by { assert(hh[i] == headers@[i]); } assert(hv(headers@.subrange(0, raw@.len() as int)) =~= raw_view(raw@)); }
//@end

