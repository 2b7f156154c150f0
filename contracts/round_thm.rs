use wire::{Part, head, part, framed, body, closing, lit_disp, lit_fname, lit_ctype, quote};

// ---------- what a client sends is what the server reads
/// a section of header lines and the blank line after it
spec fn lines_text(hs: Seq<Hdr>) -> Seq<u8> decreases hs.len() {
    if hs.len() == 0 { Seq::empty() } else { hs[0].0 + seq![58u8, 32u8] + hs[0].1 + crlf() + lines_text(hs.skip(1)) }
}
spec fn section_text(hs: Seq<Hdr>) -> Seq<u8> { lines_text(hs) + crlf() }
/// bytes of a header value: no control characters
spec fn value_byte(c: u8) -> bool { c >= 32 && c != 127 }
spec fn good_value(v: Seq<u8>) -> bool { v.len() > 0 && graphic(v[0]) && graphic(v.last()) && forall|i: int| 0 <= i < v.len() ==> value_byte(#[trigger] v[i]) }
spec fn good_key(k: Seq<u8>) -> bool { k == cd_key() || k == ct_key() }
/// what httparse makes of header lines
axiom fn httparse_reads(hs: Seq<Hdr>, p: Seq<u8>)
    requires hs.len() <= 4, forall|i: int| 0 <= i < hs.len() ==> good_key((#[trigger] hs[i]).0) && good_value(hs[i].1)
    ensures section_text(hs).is_prefix_of(p) ==> parsed_headers(p, 4) == Parsed::Complete(section_text(hs).len() as int, hs),
        p.is_prefix_of(section_text(hs)) && p.len() < section_text(hs).len() ==> parsed_headers(p, 4) == Parsed::Partial;

spec fn calm(v: Seq<u8>) -> bool { forall|i: int| 0 <= i < v.len() ==> value_byte(#[trigger] v[i]) && v[i] != 34 }
spec fn nm_item(v: Seq<u8>) -> Item { Item { key: key_name(), val: v, quoted: true, sp: 1 } }
spec fn fn_item(v: Seq<u8>) -> Item { Item { key: key_filename(), val: v, quoted: true, sp: 1 } }
spec fn items_of(p: Part) -> Seq<Item> { match p.filename { Some(f) => seq![nm_item(p.name), fn_item(f)], None => seq![nm_item(p.name)] } }
spec fn cd_value(p: Part) -> Seq<u8> { form_data() + items_text(items_of(p)) }
spec fn hdrs_of(p: Part) -> Seq<Hdr> { match p.ctype { Some(c) => seq![(cd_key(), cd_value(p)), (ct_key(), c)], None => seq![(cd_key(), cd_value(p))] } }
spec fn head_of(p: Part) -> Seq<u8> { head(p.name, p.filename, p.ctype) }
/// a delimiter: dashes and a boundary without line breaks
spec fn good_delim(d: Seq<u8>) -> bool { is_delim(d) && forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] != 13 && d[i] != 10 }
/// a field that the format can carry: no quotes or control characters in the names, a MIME type as
/// content type, no delimiter inside, and headers within the size the parser accepts
spec fn good_part(p: Part, d: Seq<u8>) -> bool {
    &&& calm(p.name) && is_utf8(cd_value(p)) && (p.filename matches Some(f) ==> calm(f))
    &&& (p.ctype matches Some(c) ==> good_value(c) && is_utf8(c) && parsed_as::<Mime>(c) is Some)
    &&& no_occ(head_of(p) + p.data, d)
    &&& head_of(p).len() < MIN_BUF_SIZE - d.len() - 2
}
spec fn field_is(h: FieldHeaders, p: Part) -> bool {
    arc_str(h.name) == p.name && opt_string(h.filename) == p.filename && h.content_type == (match p.ctype { Some(c) => parsed_as::<Mime>(c), None => None })
}
spec fn delim_of(b: Seq<u8>) -> Seq<u8> { dashes() + b }
spec fn unread(d: Seq<u8>, ps: Seq<Part>, k: int) -> Seq<u8> decreases ps.len() - k {
    if k < 0 || k >= ps.len() { d + dashes() + crlf() } else { d + crlf() + head_of(ps[k]) + ps[k].data + crlf() + unread(d, ps, k + 1) }
}
/// what is unread of the current field, and the CRLF after it
spec fn lead(x: Option<Seq<u8>>) -> Seq<u8> { match x { Some(x) => x + crlf(), None => Seq::empty() } }

proof fn same_lits()
    ensures wire::dashes() == dashes(), wire::crlf() == crlf(),
        wire::colon() == seq![58u8, 32u8], wire::semi() == seq![59u8] + spaces(1), name_eq() == key_name() + seq![61u8], filename_eq() == key_filename() + seq![61u8], quote() == seq![34u8]
{
    assert(wire::dashes() =~= dashes()); assert(wire::crlf() =~= crlf()); assert(wire::colon() =~= seq![58u8, 32u8]);
    assert(wire::semi() =~= seq![59u8] + spaces(1)); assert(name_eq() =~= key_name() + seq![61u8]); assert(filename_eq() =~= key_filename() + seq![61u8]); assert(quote() =~= seq![34u8]);
}
proof fn body_from(b: Seq<u8>, ps: Seq<Part>, k: int)
    requires 0 <= k <= ps.len()
    ensures body(b, ps) == framed(b, ps.take(k)) + (if k > 0 { crlf() } else { Seq::empty() }) + unread(delim_of(b), ps, k)
    decreases ps.len() - k
{
    broadcast use wire::g_add;
    same_lits();
    if k == ps.len() {
        assert(ps.take(k) =~= ps);
        assert(closing(b) == unread(delim_of(b), ps, k));
    } else {
        body_from(b, ps, k + 1);
        let t = ps.take(k + 1);
        assert(t.drop_last() =~= ps.take(k));
        assert(t.last() == ps[k]);
        assert(framed(b, t) == framed(b, ps.take(k)) + (if k > 0 { crlf() } else { Seq::empty() }) + part(b, ps[k]));
        assert(part(b, ps[k]) + crlf() + unread(delim_of(b), ps, k + 1) == unread(delim_of(b), ps, k));
    }
}
/// a body that a client wrote, as the server finds it
proof fn body_unread(b: Seq<u8>, ps: Seq<Part>)
    ensures body(b, ps) == unread(delim_of(b), ps, 0)
{ body_from(b, ps, 0); assert(ps.take(0) =~= Seq::<Part>::empty()); assert(framed(b, ps.take(0)) + Seq::<u8>::empty() + unread(delim_of(b), ps, 0) =~= unread(delim_of(b), ps, 0)); }

proof fn delim_after(x: Seq<u8>, d: Seq<u8>, more: Seq<u8>)
    requires good_delim(d), no_occ(x, d)
    ensures first_occ(x + crlf() + d + more, d, x.len() as int + 2), content_end(x + crlf() + d + more, d) == x.len(), delim(x + crlf() + d + more, d) == x.len() + 2, has_delim(x + crlf() + d + more, d)
{
    reveal(occ); reveal(no_occ); reveal(first_occ); reveal(content_end);
    let s = x + crlf() + d + more;
    let n = x.len() as int;
    assert(s.subrange(n + 2, n + 2 + d.len()) =~= d);
    assert(s[n] == 13 && s[n + 1] == 10);
    assert forall|i: int| i < n + 2 implies !occ(s, d, i) by {
        if occ(s, d, i) {
            let w = s.subrange(i, i + d.len());
            if i + d.len() <= n { assert(x.subrange(i, i + d.len()) =~= w); assert(occ(x, d, i)); }
            else if i <= n { assert(w[n - i] == 13); assert(d[n - i] == 13); }
            else { assert(w[0] == 10); assert(d[0] == 10); }
        }
    }
    b_first_occ(s, d, n + 2);
}
proof fn delim_here(d: Seq<u8>, more: Seq<u8>)
    requires good_delim(d)
    ensures content_end(d + more, d) == 0, delim(d + more, d) == 0, has_delim(d + more, d)
{
    reveal(occ); reveal(first_occ); reveal(content_end);
    let s = d + more;
    assert(s.subrange(0, d.len() as int) =~= d);
    assert(first_occ(s, d, 0));
    b_first_occ(s, d, 0);
}
proof fn calm_part(x: Seq<u8>, d: Seq<u8>, n: int)
    requires no_occ(x, d), 0 <= n <= x.len()
    ensures no_occ(x.skip(n), d)
{ reveal(occ); reveal(no_occ); assert forall|i: int| !occ(x.skip(n), d, i) by { if occ(x.skip(n), d, i) { assert(x.skip(n).subrange(i, i + d.len()) =~= x.subrange(i + n, i + n + d.len())); assert(occ(x, d, i + n)); } } }
/// reading some of a field's data leaves what follows in its place
proof fn data_read(d: Seq<u8>, ps: Seq<Part>, k: int, x: Seq<u8>, rest: Seq<u8>, after: Seq<u8>, n: int)
    requires no_occ(x, d), rest == x, rest + after == lead(Some(x)) + unread(d, ps, k), 0 <= n <= x.len()
    ensures no_occ(x.skip(n), d), rest.skip(n) + after == lead(Some(x.skip(n))) + unread(d, ps, k)
{
    calm_part(x, d, n);
    assert((rest + after).skip(n) =~= rest.skip(n) + after);
    assert((x + crlf() + unread(d, ps, k)).skip(n) =~= x.skip(n) + crlf() + unread(d, ps, k));
}
/// the delimiter in front of the next field
proof fn at_lead(d: Seq<u8>, ps: Seq<Part>, k: int, x: Option<Seq<u8>>)
    requires good_delim(d), x matches Some(y) ==> no_occ(y, d), 0 <= k <= ps.len()
    ensures ({ let s = lead(x) + unread(d, ps, k);
        has_delim(s, d) && delim(s, d) == lead(x).len() && delim(s, d) + d.len() + 2 <= s.len() && after_delim(s, d) == (if k < ps.len() { crlf() } else { dashes() })
        && (k < ps.len() ==> s.skip(delim(s, d) + d.len() + 2) == head_of(ps[k]) + ps[k].data + crlf() + unread(d, ps, k + 1)) })
{
    let s = lead(x) + unread(d, ps, k);
    let more = if k < ps.len() { crlf() + head_of(ps[k]) + ps[k].data + crlf() + unread(d, ps, k + 1) } else { dashes() + crlf() };
    assert(unread(d, ps, k) =~= d + more);
    match x { Some(y) => { assert(s =~= y + crlf() + d + more); delim_after(y, d, more); }, None => { assert(s =~= d + more); delim_here(d, more); } }
    assert(after_delim(s, d) =~= (if k < ps.len() { crlf() } else { dashes() }));
    if k < ps.len() { assert(s.skip(delim(s, d) + d.len() + 2) =~= head_of(ps[k]) + ps[k].data + crlf() + unread(d, ps, k + 1)); }
}
proof fn items_written(p: Part)
    ensures items_text(items_of(p)) == seq![59u8] + spaces(1) + item_text(nm_item(p.name)) + (match p.filename { Some(f) => seq![59u8] + spaces(1) + item_text(fn_item(f)), None => Seq::empty() })
{
    let it = items_of(p);
    let e = Seq::<u8>::empty();
    assert(items_text(it) == seq![59u8] + spaces(it[0].sp) + item_text(it[0]) + items_text(it.skip(1)));
    match p.filename {
        Some(f) => {
            let r = seq![fn_item(f)];
            assert(it.skip(1) =~= r);
            assert(r.skip(1) =~= Seq::<Item>::empty());
            assert(items_text(r) == seq![59u8] + spaces(r[0].sp) + item_text(r[0]) + items_text(r.skip(1)));
            assert(items_text(r.skip(1)) == e);
            assert(items_text(r) =~= seq![59u8] + spaces(1) + item_text(fn_item(f)));
        }
        None => { assert(it.skip(1) =~= Seq::<Item>::empty()); assert(items_text(it.skip(1)) == e); }
    }
}
type By = Seq<u8>;
proof fn flat_item(s: By, sp: By, k: By, e: By, q: By, v: By)
    ensures s + sp + (k + e + (q + v + q)) == (s + sp) + (k + e) + q + v + q
{ broadcast use wire::add_assoc; }
proof fn flat_disp(kd: By, co: By, fd: By, s: By, k: By, q: By, n: By, f: By)
    ensures (kd + co + fd + s + k + q) + n + q + f == kd + co + (fd + (s + k + q + n + q + f))
{ broadcast use wire::add_assoc; }
proof fn flat_lines(a: By, kt: By, co: By, c: By, cr: By)
    ensures a + (cr + kt + co + c) + (cr + cr) == a + cr + (kt + co + c + cr) + cr
{ broadcast use wire::add_assoc; }
proof fn flat_end(a: By, cr: By)
    ensures a + Seq::<u8>::empty() + (cr + cr) == a + cr + Seq::<u8>::empty() + cr
{ broadcast use wire::g_add; }
/// the headers a client writes, as lines
proof fn head_lines(p: Part)
    ensures head_of(p) == section_text(hdrs_of(p))
{
    same_lits();
    let hs = hdrs_of(p);
    items_written(p);
    let (kd, co, fd, se, q, cr) = (cd_key(), seq![58u8, 32u8], form_data(), seq![59u8] + spaces(1), seq![34u8], crlf());
    let f = match p.filename { Some(f) => se + filename_eq() + q + f + q, None => Seq::empty() };
    flat_item(seq![59u8], spaces(1), key_name(), seq![61u8], q, p.name);
    match p.filename { Some(x) => { flat_item(seq![59u8], spaces(1), key_filename(), seq![61u8], q, x); }, None => {} }
    let it = items_text(items_of(p));
    assert(it == se + name_eq() + q + p.name + q + f);
    let a = kd + co + cd_value(p);
    flat_disp(kd, co, fd, se, name_eq(), q, p.name, f);
    assert(lit_disp() + p.name + quote() + f == a);
    let e = Seq::<u8>::empty();
    assert(lines_text(hs) == a + cr + lines_text(hs.skip(1)));
    match p.ctype {
        Some(c) => {
            assert(hs.skip(1) =~= seq![(ct_key(), c)]); assert(hs.skip(1).skip(1) =~= Seq::<Hdr>::empty());
            assert(lines_text(hs.skip(1)) == ct_key() + co + c + cr + lines_text(hs.skip(1).skip(1)));
            assert(ct_key() + co + c + cr + e =~= ct_key() + co + c + cr);
            flat_lines(a, ct_key(), co, c, cr);
            assert(head_of(p) == a + (cr + ct_key() + co + c) + (cr + cr));
        }
        None => {
            assert(hs.skip(1) =~= Seq::<Hdr>::empty()); assert(lines_text(hs.skip(1)) == e);
            flat_end(a, cr);
            assert(head_of(p) == a + e + (cr + cr));
        }
    }
}
proof fn hdrs_good(p: Part, d: Seq<u8>)
    requires good_part(p, d)
    ensures forall|i: int| 0 <= i < hdrs_of(p).len() ==> good_key((#[trigger] hdrs_of(p)[i]).0) && good_value(hdrs_of(p)[i].1), hdrs_of(p).len() <= 4
{
    let it = items_of(p);
    let v = cd_value(p);
    let t = items_text(it);
    items_written(p);
    text_good(nm_item(p.name));
    match p.filename { Some(f) => { text_good(fn_item(f)); }, None => {} }
    assert(good_value(v)) by {
        assert(v[0] == 102);
        assert(v.last() == 34);
        assert forall|i: int| 0 <= i < v.len() implies value_byte(#[trigger] v[i]) by { if i < 9 { assert(v[i] == form_data()[i]); } else { assert(v[i] == t[i - 9]); } }
    }
}
proof fn text_good(x: Item)
    requires x.quoted, x.key == key_name() || x.key == key_filename(), calm(x.val)
    ensures good_item(x), item_text(x).last() == 34, forall|i: int| 0 <= i < item_text(x).len() ==> value_byte(#[trigger] item_text(x)[i])
{
    let t = item_text(x);
    let k = x.key.len() as int;
    assert forall|i: int| 0 <= i < t.len() implies value_byte(#[trigger] t[i]) by { if i < k { assert(t[i] == x.key[i]); } else if i > k + 1 && i < t.len() - 1 { assert(t[i] == x.val[i - k - 2]); } }
}
/// the parsed headers are those of the field
proof fn hdrs_exact(p: Part, d: Seq<u8>, h: FieldHeaders)
    requires good_part(p, d), headers_are(h, hdrs_of(p))
    ensures field_is(h, p)
{
    let hs = hdrs_of(p);
    let it = items_of(p);
    text_good(nm_item(p.name));
    match p.filename { Some(f) => { text_good(fn_item(f)); }, None => {} }
    assert forall|i: int| 0 <= i < it.len() implies good_item(#[trigger] it[i]) by {}
    disposition_exact(it);
    key_lens();
    assert(value_of(it, key_name()) == Some(p.name));
    assert(value_of(it, key_filename()) == p.filename) by {
        match p.filename { Some(f) => { assert(it.skip(1)[0] == fn_item(f)); assert(value_of(it.skip(1), key_filename()) == Some(f)); assert(value_of(it, key_filename()) == value_of(it.skip(1), key_filename())); }, None => { assert(it.skip(1) =~= Seq::<Item>::empty()); assert(value_of(it.skip(1), key_filename()) is None); assert(value_of(it, key_filename()) == value_of(it.skip(1), key_filename())); } }
    }
    named_exact(hs, cd_key(), 0);
    match p.ctype {
        Some(c) => { assert(hs[1].0 == ct_key()); named_exact(hs, ct_key(), 1); }
        None => { named_absent(hs, ct_key()); }
    }
}
proof fn key_lens()
    ensures lower(cd_key()) != lower(ct_key()), key_name() != key_filename()
{ reveal(lower); assert(lower(cd_key()).len() == 19); assert(lower(ct_key()).len() == 12); assert(key_name().len() == 4); assert(key_filename().len() == 8); }
proof fn good_headers(p: Part, d: Seq<u8>)
    requires good_part(p, d)
    ensures cd_of(hdrs_of(p)) is Some, ct_of(hdrs_of(p)) is Some
{
    let hs = hdrs_of(p);
    let it = items_of(p);
    text_good(nm_item(p.name));
    match p.filename { Some(f) => { text_good(fn_item(f)); }, None => {} }
    assert forall|i: int| 0 <= i < it.len() implies good_item(#[trigger] it[i]) by {}
    disposition_exact(it);
    key_lens();
    assert(value_of(it, key_name()) == Some(p.name));
    named_exact(hs, cd_key(), 0);
    match p.ctype {
        Some(c) => { assert(hs[1].0 == ct_key()); named_exact(hs, ct_key(), 1); }
        None => { named_absent(hs, ct_key()); }
    }
}
/// the text after a delimiter: what httparse says to any part of it
proof fn section_there(p: Part, d: Seq<u8>, more: Seq<u8>, q: Seq<u8>)
    requires good_part(p, d), q.is_prefix_of(head_of(p) + more)
    ensures parsed_headers(q, 4) == (if q.len() < head_of(p).len() { Parsed::Partial } else { Parsed::Complete(head_of(p).len() as int, hdrs_of(p)) })
{
    let s1 = head_of(p) + more;
    head_lines(p);
    hdrs_good(p, d);
    httparse_reads(hdrs_of(p), q);
    let n = head_of(p).len() as int;
    assert(q == s1.take(q.len() as int));
    if q.len() < n { assert(q =~= head_of(p).take(q.len() as int)); assert(q.is_prefix_of(head_of(p))); }
    else { assert(q.take(n) =~= head_of(p)); assert(head_of(p).is_prefix_of(q)); }
}
/// the state of a reader in front of field `k`: `x` is the unread data of the field before
spec fn before_field(rest: Seq<u8>, f: Frame, d: Seq<u8>, ps: Seq<Part>, k: int, x: Option<Seq<u8>>) -> bool {
    &&& !f.ended && f.b == d && good_delim(d) && 0 <= k <= ps.len() && (x matches Some(y) ==> no_occ(y, d))
    &&& rest + f.after == lead(x) + unread(d, ps, k)
}
/// theorem: the next entry is the next field, with its exact names, type and data
proof fn next_field(rest: Seq<u8>, f: Frame, h: FieldHeaders, rest2: Seq<u8>, f2: Frame, d: Seq<u8>, ps: Seq<Part>, k: int, x: Option<Seq<u8>>)
    requires before_field(rest, f, d, ps, k, x), k < ps.len() ==> good_part(ps[k], d), entry_at(rest, f, h, rest2, f2)
    ensures k < ps.len(), field_is(h, ps[k]), rest2 == ps[k].data, before_field(rest2, f2, d, ps, k + 1, Some(ps[k].data))
{
    let s = rest + f.after;
    at_lead(d, ps, k, x);
    assert(dashes()[0] == 45 && crlf()[0] == 13);
    assert(k < ps.len());
    let p = ps[k];
    let s1 = s.skip(delim(s, d) + d.len() + 2);
    let tailp = p.data + crlf() + unread(d, ps, k + 1);
    assert(s1 =~= head_of(p) + tailp);
    let (n, q) = choose|n: int, q: Seq<u8>| 0 <= n <= q.len() && #[trigger] headers_at(s1, q, n, h) && rest2 + f2.after == s1.skip(n);
    section_there(p, d, tailp, q);
    assert(n == head_of(p).len());
    hdrs_exact(p, d, h);
    assert(s1.skip(n) =~= tailp);
    calm_part(head_of(p) + p.data, d, n);
    assert((head_of(p) + p.data).skip(n) =~= p.data);
    let more = if k + 1 < ps.len() { crlf() + head_of(ps[k + 1]) + ps[k + 1].data + crlf() + unread(d, ps, k + 2) } else { dashes() + crlf() };
    assert(unread(d, ps, k + 1) =~= d + more);
    delim_after(p.data, d, more);
    assert(tailp =~= p.data + crlf() + d + more);
    assert(rest2.len() == p.data.len());
    assert(rest2 =~= (rest2 + f2.after).take(rest2.len() as int));
    assert(tailp.take(p.data.len() as int) =~= p.data);
    assert(lead(Some(p.data)) + unread(d, ps, k + 1) =~= tailp);
}
/// theorem: the end is reported behind the last field only
proof fn at_last(rest: Seq<u8>, f: Frame, rest2: Seq<u8>, f2: Frame, d: Seq<u8>, ps: Seq<Part>, k: int, x: Option<Seq<u8>>)
    requires before_field(rest, f, d, ps, k, x), end_at(rest, f, rest2, f2)
    ensures k == ps.len()
{ at_lead(d, ps, k, x); assert(dashes()[0] == 45 && crlf()[0] == 13); }
/// theorem: and nothing but a failure of the source comes in between
proof fn no_failure(e: io::Error, rest: Seq<u8>, f: Frame, d: Seq<u8>, ps: Seq<Part>, k: int, x: Option<Seq<u8>>)
    requires before_field(rest, f, d, ps, k, x), k < ps.len() ==> good_part(ps[k], d), entry_failure(e, rest, f)
    ensures io::from_source(e) || exists|ie: io::Error| io::from_source(ie) && #[trigger] io::wraps(e, ParseHeaderError::Io(ie))
{
    at_lead(d, ps, k, x);
    assert(dashes()[0] == 45 && crlf()[0] == 13);
    let s = rest + f.after;
    if !io::from_source(e) {
        assert(!malformed(s, d));
        assert(k < ps.len());
        let p = ps[k];
        let s1 = s.skip(delim(s, d) + d.len() + 2);
        let tailp = p.data + crlf() + unread(d, ps, k + 1);
        assert(s1 =~= head_of(p) + tailp);
        let more = if k + 1 < ps.len() { crlf() + head_of(ps[k + 1]) + ps[k + 1].data + crlf() + unread(d, ps, k + 2) } else { dashes() + crlf() };
        assert(unread(d, ps, k + 1) =~= d + more);
        delim_after(head_of(p) + p.data, d, more);
        assert(s1 =~= head_of(p) + p.data + crlf() + d + more);
        let c = s1.take(content_end(s1, d));
        let pe = choose|pe: ParseHeaderError| io::wraps(e, pe) && #[trigger] header_failure(pe, c, MIN_BUF_SIZE - d.len() - 2);
        good_headers(p, d);
        assert forall|q: Seq<u8>| #[trigger] section(q, c) implies !bad_section(q) && (parsed_headers(q, 4) is Partial ==> q.len() < head_of(p).len()) by {
            assert(q.is_prefix_of(s1)) by { assert(s1.take(q.len() as int) =~= c.take(q.len() as int)); }
            section_there(p, d, tailp, q);
            if q.len() >= head_of(p).len() {
                let hs = hdrs_of(p);
                assert forall|i: int| 0 <= i < hs.len() implies is_utf8((#[trigger] hs[i]).1) by {}
            }
        }
        match pe { ParseHeaderError::Io(ie) => { assert(io::from_source(ie)); assert(io::wraps(e, ParseHeaderError::Io(ie))); }, _ => {} }
    }
}
proof fn at_start<R: Read>(m: Multipart<R>, b: Seq<u8>, ps: Seq<Part>)
    requires m.reader.inv(), !m.reader.at_end(), m.reader.b() == dashes() + b, m.reader.s() == body(b, ps), b.len() == 16, forall|i: int| 0 <= i < b.len() ==> graphic(#[trigger] b[i])
    ensures before_field(m.src().rest(), m.src().frame(), delim_of(b), ps, 0, None)
{
    broadcast use end_bounds;
    let d = delim_of(b);
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != 13 && d[i] != 10 by { if i >= 2 { assert(d[i] == b[i - 2]); } }
    body_unread(b, ps);
    joined(m.reader.s(), m.reader.end());
    assert(lead(None) + unread(d, ps, 0) =~= unread(d, ps, 0));
}
