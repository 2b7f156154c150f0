
// ---------- what the parser makes of a well-formed Content-Disposition value
/// `;`, spaces, `key=value` or `key="value"`
pub struct Item { pub key: Seq<u8>, pub val: Seq<u8>, pub quoted: bool, pub sp: nat }
spec fn plain(c: u8) -> bool { c != 59 && c != 34 }
spec fn val_text(x: Item) -> Seq<u8> { if x.quoted { seq![34u8] + x.val + seq![34u8] } else { x.val } }
spec fn item_text(x: Item) -> Seq<u8> { x.key + seq![61u8] + val_text(x) }
spec fn good_item(x: Item) -> bool {
    &&& x.key.len() > 0 && graphic(x.key[0]) && forall|i: int| 0 <= i < x.key.len() ==> plain(#[trigger] x.key[i]) && x.key[i] != 61
    &&& if x.quoted { forall|i: int| 0 <= i < x.val.len() ==> #[trigger] x.val[i] != 34 } else { forall|i: int| 0 <= i < x.val.len() ==> plain(#[trigger] x.val[i]) && graphic(x.val[i]) }
}
spec fn good_items(xs: Seq<Item>) -> bool { forall|i: int| 0 <= i < xs.len() ==> good_item(#[trigger] xs[i]) }
spec fn spaces(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 32u8) }
spec fn items_text(xs: Seq<Item>) -> Seq<u8> decreases xs.len() {
    if xs.len() == 0 { Seq::empty() } else { seq![59u8] + spaces(xs[0].sp) + item_text(xs[0]) + items_text(xs.skip(1)) }
}
spec fn value_of(xs: Seq<Item>, key: Seq<u8>) -> Option<Seq<u8>> decreases xs.len() {
    if xs.len() == 0 { None } else if xs[0].key == key { Some(xs[0].val) } else { value_of(xs.skip(1), key) }
}
proof fn scan_plain(s: Seq<u8>, i: int, n: int)
    requires 0 <= i <= n <= s.len(), forall|j: int| i <= j < n ==> plain(#[trigger] s[j])
    ensures pend(s, i, false) == pend(s, n, false)
    decreases n - i
{ if i < n { assert(plain(s[i])); scan_plain(s, i + 1, n); } }
proof fn scan_quoted(s: Seq<u8>, i: int, n: int)
    requires 0 <= i <= n <= s.len(), forall|j: int| i <= j < n ==> #[trigger] s[j] != 34
    ensures pend(s, i, true) == pend(s, n, true)
    decreases n - i
{ if i < n { assert(s[i] != 34); scan_quoted(s, i + 1, n); } }
/// a parameter ends where it should
proof fn item_end(x: Item, rest: Seq<u8>)
    requires good_item(x), rest.len() == 0 || rest[0] == 59
    ensures pend(spaces(x.sp) + item_text(x) + rest, 0, false) == x.sp + item_text(x).len()
{
    let t = item_text(x);
    let s = spaces(x.sp) + t + rest;
    let e = x.sp + t.len();
    let k = (x.sp + x.key.len()) as int;
    assert forall|j: int| 0 <= j < k implies plain(#[trigger] s[j]) by { if j >= x.sp { assert(s[j] == x.key[j - x.sp]); } }
    assert(s[k] == 61);
    if !x.quoted {
        assert forall|j: int| 0 <= j < e implies plain(#[trigger] s[j]) by { if j > k { assert(s[j] == x.val[j - k - 1]); } else if j < k { assert(plain(s[j])); } }
        scan_plain(s, 0, e as int);
    } else {
        scan_plain(s, 0, k);
        assert(pend(s, k, false) == pend(s, k + 1, false));
        assert(s[k + 1] == 34);
        assert(pend(s, k + 1, false) == pend(s, k + 2, true));
        let c = k + 2 + x.val.len();
        assert forall|j: int| k + 2 <= j < c implies #[trigger] s[j] != 34 by { assert(s[j] == x.val[j - k - 2]); }
        scan_quoted(s, k + 2, c);
        assert(s[c] == 34);
        assert(s.skip(c + 1) =~= rest);
        if rest.len() > 0 { trim_first(rest); } else { trim_len(rest); }
        assert(pend(s, c, true) == pend(s, c + 1, false));
        assert(e == c + 1);
    }
    if rest.len() > 0 { assert(s[e as int] == rest[0]); }
}
proof fn trim_spaces(n: nat, t: Seq<u8>)
    requires t.len() > 0, graphic(t[0]), graphic(t.last())
    ensures trimmed(spaces(n) + t) == t
    decreases n
{
    if n == 0 { assert(spaces(0) + t =~= t); trim_graphic(t); }
    else { let s = spaces(n) + t; trim_space(s); assert(s.skip(1) =~= spaces((n - 1) as nat) + t); trim_spaces((n - 1) as nat, t); }
}
proof fn item_graphic(x: Item) requires good_item(x) ensures item_text(x).len() > 0, graphic(item_text(x)[0]), graphic(item_text(x).last())
{ let t = item_text(x); assert(t[0] == x.key[0]); if !x.quoted && x.val.len() > 0 { assert(t.last() == x.val.last()); assert(plain(x.val[x.val.len() - 1])); } }
/// a parameter's name is the text before the first `=`
proof fn key_is(x: Item, key: Seq<u8>)
    requires good_item(x), forall|i: int| 0 <= i < key.len() ==> #[trigger] key[i] != 61
    ensures (key + seq![61u8]).is_prefix_of(item_text(x)) <==> key == x.key,
       key == x.key ==> item_text(x).skip(key.len() as int + 1) == val_text(x)
{
    let t = item_text(x);
    let p = key + seq![61u8];
    if key == x.key { assert(t.take(p.len() as int) =~= p); assert(t.skip(key.len() as int + 1) =~= val_text(x)); }
    if p.is_prefix_of(t) {
        assert(t.take(p.len() as int) == p);
        assert forall|i: int| 0 <= i < p.len() implies p[i] == t[i] by { assert(t.take(p.len() as int)[i] == t[i]); }
        assert(t[x.key.len() as int] == 61);
        if key.len() < x.key.len() { assert(p[key.len() as int] == 61); assert(t[key.len() as int] == x.key[key.len() as int]); }
        if key.len() > x.key.len() { assert(key[x.key.len() as int] == t[x.key.len() as int]); }
        assert(key =~= x.key) by { assert forall|i: int| 0 <= i < key.len() implies key[i] == x.key[i] by { assert(p[i] == t[i]); } }
    }
}
proof fn first_byte(xs: Seq<Item>) ensures items_text(xs).len() == 0 || items_text(xs)[0] == 59 {}
proof fn param_exact(xs: Seq<Item>, key: Seq<u8>)
    requires good_items(xs), forall|i: int| 0 <= i < key.len() ==> #[trigger] key[i] != 61
    ensures match value_of(xs, key) { None => gp(key + seq![61u8], items_text(xs)) is None, Some(v) => exists|x: Item| #![trigger val_text(x)] good_item(x) && x.val == v && gp(key + seq![61u8], items_text(xs)) == Some(val_text(x)) }
    decreases xs.len()
{
    let n = key + seq![61u8];
    if xs.len() > 0 {
        let x = xs[0];
        let more = items_text(xs.skip(1));
        let s = items_text(xs);
        let p = s.skip(1);
        assert(p =~= spaces(x.sp) + item_text(x) + more);
        first_byte(xs.skip(1));
        item_end(x, more);
        let e = pend(p, 0, false);
        assert(p.take(e) =~= spaces(x.sp) + item_text(x));
        item_graphic(x);
        trim_spaces(x.sp, item_text(x));
        key_is(x, key);
        assert(p.skip(e) =~= more);
        assert(n.len() == key.len() + 1);
        if key == x.key { assert(gp(n, s) == Some(val_text(x))); }
        else {
            assert(gp(n, s) == gp(n, more));
            assert(good_items(xs.skip(1))) by { assert forall|i: int| 0 <= i < xs.skip(1).len() implies good_item(#[trigger] xs.skip(1)[i]) by { assert(xs.skip(1)[i] == xs[i + 1]); assert(good_item(xs[i + 1])); } }
            param_exact(xs.skip(1), key);
        }
    }
}
proof fn strip_none(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 34 ensures unquoted(s) == s
{ if s.len() > 0 { assert(s[0] != 34); assert(s[s.len() - 1] != 34); } }
proof fn strip_quotes(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 34 ensures unquoted(seq![34u8] + s + seq![34u8]) == s
{
    let q = seq![34u8];
    let t = q + s + q;
    assert(t.skip(1) =~= s + q);
    if s.len() > 0 {
        assert((s + q)[0] == s[0]);
        assert(lstrip(t, 34) == lstrip(s + q, 34));
        assert(lstrip(s + q, 34) == s + q);
        assert((s + q).drop_last() =~= s);
        assert(s[s.len() - 1] != 34);
        assert(rstrip(s + q, 34) == rstrip(s, 34));
    } else {
        assert(s + q =~= q);
        assert(q.skip(1) =~= Seq::<u8>::empty());
        assert(lstrip(t, 34) == lstrip(q, 34));
        assert(lstrip(q, 34) == lstrip(q.skip(1), 34));
        assert(s =~= Seq::<u8>::empty());
    }
}
proof fn value_exact(x: Item) requires good_item(x) ensures unquoted(val_text(x)) == x.val
{ if x.quoted { strip_quotes(x.val); } else { assert forall|i: int| 0 <= i < x.val.len() implies #[trigger] x.val[i] != 34 by { assert(plain(x.val[i])); } strip_none(x.val); } }
spec fn key_name() -> Seq<u8> { [110u8,97u8,109u8,101u8]@ }
spec fn key_filename() -> Seq<u8> { [102u8,105u8,108u8,101u8,110u8,97u8,109u8,101u8]@ }
/// the theorem: whatever the order, quoting, spacing and other parameters, name and filename are the values given
proof fn disposition_exact(xs: Seq<Item>)
    requires good_items(xs), xs.len() > 0
    ensures disposition(form_data() + items_text(xs)) == match value_of(xs, key_name()) { None => None::<(Seq<u8>, Option<Seq<u8>>)>, Some(n) => Some((n, value_of(xs, key_filename()))) }
{
    let v = form_data() + items_text(xs);
    first_byte(xs);
    assert(items_text(xs).len() > 0);
    assert(v[9] == 59);
    assert forall|j: int| 0 <= j < 9 implies v[j] != 59 by { assert(v[j] == form_data()[j]); }
    first_is(v, 59, 9);
    assert(v.take(9) =~= form_data());
    assert(v.skip(9) =~= items_text(xs));
    trim_graphic(form_data());
    assert(key_name() + seq![61u8] =~= name_eq());
    assert(key_filename() + seq![61u8] =~= filename_eq());
    param_exact(xs, key_name());
    param_exact(xs, key_filename());
    assert forall|x: Item| #![trigger val_text(x)] good_item(x) implies unquoted(val_text(x)) == x.val by { value_exact(x); }
}
/// a value of another disposition, or without parameters, is refused
proof fn disposition_other(v: Seq<u8>)
    requires first_at(v, 59) == v.len() || trimmed(v.take(first_at(v, 59))) != form_data()
    ensures disposition(v) is None
{}
/// headers in any order and any case: the first of the name counts
proof fn named_exact(h: Seq<Hdr>, name: Seq<u8>, i: int)
    requires 0 <= i < h.len(), lower(h[i].0) == lower(name), forall|j: int| 0 <= j < i ==> lower((#[trigger] h[j]).0) != lower(name)
    ensures named(h, name) == Some(h[i].1)
    decreases h.len()
{ if i > 0 { assert(lower(h[0].0) != lower(name)); assert forall|j: int| 0 <= j < i - 1 implies lower((#[trigger] h.skip(1)[j]).0) != lower(name) by { assert(h.skip(1)[j] == h[j + 1]); assert(lower(h[j + 1].0) != lower(name)); } named_exact(h.skip(1), name, i - 1); } }
proof fn named_absent(h: Seq<Hdr>, name: Seq<u8>)
    requires forall|j: int| 0 <= j < h.len() ==> lower((#[trigger] h[j]).0) != lower(name)
    ensures named(h, name) is None
    decreases h.len()
{ if h.len() > 0 { assert(lower(h[0].0) != lower(name)); assert forall|j: int| 0 <= j < h.skip(1).len() implies lower((#[trigger] h.skip(1)[j]).0) != lower(name) by { assert(h.skip(1)[j] == h[j + 1]); assert(lower(h[j + 1].0) != lower(name)); } named_absent(h.skip(1), name); } }
