// ---------- what a request body is
pub struct Part { pub name: Seq<u8>, pub filename: Option<Seq<u8>>, pub ctype: Option<Seq<u8>>, pub data: Seq<u8> }
pub open spec fn ss(s: &str) -> Seq<u8> { str_bytes(s) }
pub broadcast proof fn add_assoc<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn add_empty<A>(a: Seq<A>) ensures #[trigger] (a + Seq::<A>::empty()) == a { assert(a + Seq::<A>::empty() =~= a); }
pub broadcast proof fn empty_add<A>(a: Seq<A>) ensures #[trigger] (Seq::<A>::empty() + a) == a { assert(Seq::<A>::empty() + a =~= a); }
pub broadcast proof fn skip_add<A>(a: Seq<A>, b: Seq<A>, n: int) requires 0 <= n <= a.len() + b.len() ensures #[trigger] (a + b).skip(n) == (if n <= a.len() { a.skip(n) + b } else { b.skip(n - a.len()) })
{ if n <= a.len() { assert((a + b).skip(n) =~= a.skip(n) + b); } else { assert((a + b).skip(n) =~= b.skip(n - a.len())); } }
pub broadcast proof fn take_add<A>(a: Seq<A>, b: Seq<A>, n: int) requires 0 <= n <= a.len() + b.len() ensures #[trigger] (a + b).take(n) == (if n <= a.len() { a.take(n) } else { a + b.take(n - a.len()) })
{ if n <= a.len() { assert((a + b).take(n) =~= a.take(n)); } else { assert((a + b).take(n) =~= a + b.take(n - a.len())); } }
pub broadcast proof fn skip_skip<A>(a: Seq<A>, n: int, m: int) requires 0 <= n, 0 <= m, n + m <= a.len() ensures #[trigger] a.skip(n).skip(m) == a.skip(n + m)
{ assert(a.skip(n).skip(m) =~= a.skip(n + m)); }
pub broadcast group g_cut { skip_add, take_add, skip_skip }
pub broadcast proof fn zero_add<A>(a: Seq<A>, b: Seq<A>) requires a.len() == 0 ensures #[trigger] (a + b) == b { assert(a + b =~= b); }
pub broadcast group g_add { add_assoc, add_empty, empty_add }
/// literal bytes come as tokens: CR LF, `"`, `--`, `: `, `; ` and the runs between them
pub open spec fn crlf() -> Seq<u8> { [13u8, 10u8]@ }
pub open spec fn crlf2() -> Seq<u8> { crlf() + crlf() }
pub open spec fn close2() -> Seq<u8> { dashes() + crlf() }
pub open spec fn dashes() -> Seq<u8> { [45u8, 45u8]@ }
pub open spec fn colon() -> Seq<u8> { [58u8, 32u8]@ }
pub open spec fn semi() -> Seq<u8> { [59u8, 32u8]@ }
/// `Content-Disposition: form-data; name="`
pub open spec fn lit_disp() -> Seq<u8> { [67u8,111u8,110u8,116u8,101u8,110u8,116u8,45u8,68u8,105u8,115u8,112u8,111u8,115u8,105u8,116u8,105u8,111u8,110u8]@ + colon() + [102u8,111u8,114u8,109u8,45u8,100u8,97u8,116u8,97u8]@ + semi() + [110u8,97u8,109u8,101u8,61u8]@ + quote() }
/// `; filename="`
pub open spec fn lit_fname() -> Seq<u8> { semi() + [102u8,105u8,108u8,101u8,110u8,97u8,109u8,101u8,61u8]@ + quote() }
/// `\r\nContent-Type: `
pub open spec fn lit_ctype() -> Seq<u8> { crlf() + [67u8,111u8,110u8,116u8,101u8,110u8,116u8,45u8,84u8,121u8,112u8,101u8]@ + colon() }
pub open spec fn quote() -> Seq<u8> { [34u8]@ }
/// the header section of a part and the blank line after it
pub open spec fn head(name: Seq<u8>, filename: Option<Seq<u8>>, ctype: Option<Seq<u8>>) -> Seq<u8> {
    lit_disp() + name + quote()
        + (match filename { Some(f) => lit_fname() + f + quote(), None => Seq::<u8>::empty() })
        + (match ctype { Some(c) => lit_ctype() + c, None => Seq::<u8>::empty() })
        + crlf2()
}
/// the same written token by token after `pre`
pub open spec fn disp_on(pre: Seq<u8>, name: Seq<u8>) -> Seq<u8> { pre + [67u8,111u8,110u8,116u8,101u8,110u8,116u8,45u8,68u8,105u8,115u8,112u8,111u8,115u8,105u8,116u8,105u8,111u8,110u8]@ + colon() + [102u8,111u8,114u8,109u8,45u8,100u8,97u8,116u8,97u8]@ + semi() + [110u8,97u8,109u8,101u8,61u8]@ + quote() + name + quote() }
pub open spec fn fname_on(pre: Seq<u8>, f: Seq<u8>) -> Seq<u8> { pre + semi() + [102u8,105u8,108u8,101u8,110u8,97u8,109u8,101u8,61u8]@ + quote() + f + quote() }
pub open spec fn ctype_on(pre: Seq<u8>, c: Seq<u8>) -> Seq<u8> { pre + crlf() + [67u8,111u8,110u8,116u8,101u8,110u8,116u8,45u8,84u8,121u8,112u8,101u8]@ + colon() + c }
pub open spec fn line_on(pre: Seq<u8>, b: Seq<u8>) -> Seq<u8> { pre + dashes() + b + crlf() }
pub open spec fn head_on(pre: Seq<u8>, name: Seq<u8>, filename: Option<Seq<u8>>, ctype: Option<Seq<u8>>) -> Seq<u8> {
    let d = disp_on(pre, name);
    let f = match filename { Some(f) => fname_on(d, f), None => d };
    let c = match ctype { Some(c) => ctype_on(f, c), None => f };
    c + crlf() + crlf()
}
pub proof fn disp_is(pre: Seq<u8>, name: Seq<u8>) ensures disp_on(pre, name) == pre + (lit_disp() + name + quote()) { broadcast use add_assoc; }
pub proof fn fname_is(pre: Seq<u8>, f: Seq<u8>) ensures fname_on(pre, f) == pre + (lit_fname() + f + quote()) { broadcast use add_assoc; }
pub proof fn ctype_is(pre: Seq<u8>, c: Seq<u8>) ensures ctype_on(pre, c) == pre + (lit_ctype() + c) { broadcast use add_assoc; }
pub proof fn line_is(pre: Seq<u8>, b: Seq<u8>) ensures line_on(pre, b) == pre + (dashes() + b + crlf()) { broadcast use add_assoc; }
pub proof fn head_is(pre: Seq<u8>, name: Seq<u8>, filename: Option<Seq<u8>>, ctype: Option<Seq<u8>>)
    ensures head_on(pre, name, filename, ctype) == pre + head(name, filename, ctype)
{
    let d = disp_on(pre, name);
    disp_is(pre, name);
    let df = lit_disp() + name + quote();
    let f = match filename { Some(f) => fname_on(d, f), None => d };
    let ff = match filename { Some(f) => lit_fname() + f + quote(), None => Seq::<u8>::empty() };
    match filename { Some(x) => { fname_is(d, x); }, None => { assert(d + ff =~= d); } }
    assert(f == d + ff);
    let c = match ctype { Some(c) => ctype_on(f, c), None => f };
    let cf = match ctype { Some(c) => lit_ctype() + c, None => Seq::<u8>::empty() };
    match ctype { Some(x) => { ctype_is(f, x); }, None => { assert(f + cf =~= f); } }
    assert(c == f + cf);
    assert(head(name, filename, ctype) == df + ff + cf + crlf2());
    add_assoc(c, crlf(), crlf());
    assert(pre + df + ff + cf + crlf2() =~= pre + (df + ff + cf + crlf2()));
}
/// the delimiter line and the headers of a part written after `pre`
pub proof fn part_is(pre: Seq<u8>, b: Seq<u8>, name: Seq<u8>, filename: Option<Seq<u8>>, ctype: Option<Seq<u8>>)
    ensures
        forall|data: Seq<u8>| #[trigger] (head_on(line_on(pre, b), name, filename, ctype) + data) == pre + part(b, Part { name, filename, ctype, data }),
        head_on(line_on(pre, b), name, filename, ctype) == pre + part(b, Part { name, filename, ctype, data: Seq::<u8>::empty() }),
        head_on(line_on(pre, b), name, filename, ctype) == pre + (dashes() + b + crlf() + head(name, filename, ctype)),
{
    let l = line_on(pre, b);
    line_is(pre, b);
    head_is(l, name, filename, ctype);
    let (x, h) = (dashes() + b + crlf(), head(name, filename, ctype));
    assert(pre + x + h =~= pre + (x + h));
    assert forall|data: Seq<u8>| #[trigger] (head_on(l, name, filename, ctype) + data) == pre + part(b, Part { name, filename, ctype, data }) by {
        assert(pre + (x + h) + data =~= pre + (x + h + data));
    }
    assert(x + h + Seq::<u8>::empty() =~= x + h);
}
/// delimiter line, headers, data
pub open spec fn part(b: Seq<u8>, p: Part) -> Seq<u8> { dashes() + b + crlf() + head(p.name, p.filename, p.ctype) + p.data }
/// data written after the headers is the data of the part
pub broadcast proof fn part_data(pre: Seq<u8>, b: Seq<u8>, p: Part, d: Seq<u8>)
    ensures #[trigger] (pre + part(b, p) + d) == pre + part(b, Part { data: p.data + d, ..p })
{ broadcast use add_assoc; }
/// the parts, each after the CRLF which ends the one before
pub open spec fn framed(b: Seq<u8>, ps: Seq<Part>) -> Seq<u8> decreases ps.len() {
    if ps.len() == 0 { Seq::<u8>::empty() } else { framed(b, ps.drop_last()) + (if ps.len() > 1 { crlf() } else { Seq::<u8>::empty() }) + part(b, ps.last()) }
}
pub open spec fn closing(b: Seq<u8>) -> Seq<u8> { dashes() + b + close2() }
pub open spec fn body(b: Seq<u8>, ps: Seq<Part>) -> Seq<u8> { framed(b, ps) + (if ps.len() > 0 { crlf() } else { Seq::<u8>::empty() }) + closing(b) }
pub proof fn framed_push(b: Seq<u8>, ps: Seq<Part>, p: Part)
    ensures framed(b, ps.push(p)) == framed(b, ps) + (if ps.len() > 0 { crlf() } else { Seq::<u8>::empty() }) + part(b, p)
{ assert(ps.push(p).drop_last() =~= ps); }
