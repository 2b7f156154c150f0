// ---------- spec
#[verifier::opaque]
pub open spec fn occ(s: Seq<u8>, b: Seq<u8>, i: int) -> bool { 0 <= i && i + b.len() <= s.len() && s.subrange(i, i + b.len()) == b }
#[verifier::opaque]
pub open spec fn no_occ(s: Seq<u8>, b: Seq<u8>) -> bool { forall|i: int| !occ(s, b, i) }
#[verifier::opaque]
pub open spec fn first_occ(s: Seq<u8>, b: Seq<u8>, i: int) -> bool { occ(s, b, i) && forall|j: int| j < i ==> !occ(s, b, j) }
#[verifier::opaque]
pub open spec fn has_delim(s: Seq<u8>, b: Seq<u8>) -> bool { exists|i: int| first_occ(s, b, i) }
#[verifier::opaque]
pub open spec fn delim(s: Seq<u8>, b: Seq<u8>) -> int { choose|i: int| first_occ(s, b, i) }
pub open spec fn crlf() -> Seq<u8> { seq![13u8, 10u8] }
pub open spec fn dashes() -> Seq<u8> { seq![45u8, 45u8] }
/// `i` without the CRLF that precedes it
pub open spec fn back(s: Seq<u8>, i: int) -> int { if i >= 2 && s[i - 2] == 13 && s[i - 1] == 10 { i - 2 } else { i } }
/// s[i..] could be the start of a delimiter
#[verifier::opaque]
pub open spec fn tail_at(s: Seq<u8>, b: Seq<u8>, i: int) -> bool { 0 <= i <= s.len() && s.skip(i).is_prefix_of(b) }
#[verifier::opaque]
pub open spec fn is_tail(s: Seq<u8>, b: Seq<u8>, i: int) -> bool { tail_at(s, b, i) && s.len() - b.len() <= i && forall|j: int| s.len() - b.len() <= j < i ==> !tail_at(s, b, j) }
#[verifier::opaque]
pub open spec fn tail(s: Seq<u8>, b: Seq<u8>) -> int { choose|i: int| is_tail(s, b, i) }
/// where the data before the first delimiter ends
#[verifier::opaque]
pub open spec fn content_end(s: Seq<u8>, b: Seq<u8>) -> int {
    if has_delim(s, b) { back(s, delim(s, b)) } else { hold(s, tail(s, b)) }
}
pub open spec fn hold(s: Seq<u8>, i: int) -> int {
    let i = back(s, i);
    if i > 0 && i == s.len() && s[i - 1] == 13 { i - 1 } else { i }
}
pub open spec fn is_delim(b: Seq<u8>) -> bool { b.len() >= 2 && b[0] == 45 && b[1] == 45 }

pub broadcast proof fn b_first_occ(s: Seq<u8>, b: Seq<u8>, i: int)
    requires #[trigger] first_occ(s, b, i)
    ensures has_delim(s, b), delim(s, b) == i
{
    reveal(occ); reveal(no_occ); reveal(first_occ); reveal(has_delim); reveal(delim); reveal(tail_at); reveal(is_tail); reveal(tail); reveal(content_end);
    let d = delim(s, b);
    assert(first_occ(s, b, d));
    if d < i { assert(!occ(s, b, d)); } else if i < d { assert(!occ(s, b, i)); }
}
pub broadcast proof fn b_no_occ(s: Seq<u8>, b: Seq<u8>)
    requires #[trigger] no_occ(s, b)
    ensures !has_delim(s, b)
{
    reveal(occ); reveal(no_occ); reveal(first_occ); reveal(has_delim); reveal(delim); reveal(tail_at); reveal(is_tail); reveal(tail); reveal(content_end);
}
pub broadcast proof fn b_is_tail(s: Seq<u8>, b: Seq<u8>, i: int)
    requires #[trigger] is_tail(s, b, i)
    ensures tail(s, b) == i
{
    reveal(occ); reveal(no_occ); reveal(first_occ); reveal(has_delim); reveal(delim); reveal(tail_at); reveal(is_tail); reveal(tail); reveal(content_end);
    let t = tail(s, b);
    assert(is_tail(s, b, t));
    if t < i { assert(!tail_at(s, b, t)); } else if i < t { assert(!tail_at(s, b, i)); }
}
proof fn find_tail(s: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i <= s.len(), s.len() - b.len() <= i, forall|j: int| s.len() - b.len() <= j < i ==> !tail_at(s, b, j)
    ensures exists|t: int| is_tail(s, b, t)
    decreases s.len() - i
{
    reveal(occ); reveal(no_occ); reveal(first_occ); reveal(has_delim); reveal(delim); reveal(tail_at); reveal(is_tail); reveal(tail); reveal(content_end);
    if tail_at(s, b, i) { assert(is_tail(s, b, i)); }
    else {
        if i == s.len() { assert(s.skip(i) =~= Seq::empty()); assert(tail_at(s, b, i)); }
        find_tail(s, b, i + 1);
    }
}
proof fn has_tail(s: Seq<u8>, b: Seq<u8>)
    ensures is_tail(s, b, tail(s, b)), 0 <= tail(s, b) <= s.len()
{
    reveal(occ); reveal(no_occ); reveal(first_occ); reveal(has_delim); reveal(delim); reveal(tail_at); reveal(is_tail); reveal(tail); reveal(content_end);
    find_tail(s, b, if s.len() >= b.len() { s.len() - b.len() } else { 0 });
}
proof fn occ_prefix(s: Seq<u8>, t: Seq<u8>, b: Seq<u8>, i: int)
    requires t.is_prefix_of(s), 0 <= i, i + b.len() <= t.len()
    ensures occ(s, b, i) <==> occ(t, b, i)
{
    reveal(occ); reveal(no_occ); reveal(first_occ); reveal(has_delim); reveal(delim); reveal(tail_at); reveal(is_tail); reveal(tail); reveal(content_end);
    assert(s.subrange(i, i + b.len()) =~= t.subrange(i, i + b.len()));
}
proof fn occ_sub(s: Seq<u8>, k: int, n: int, b: Seq<u8>, i: int)
    requires 0 <= k <= n <= s.len(), k <= i, i + b.len() <= n
    ensures occ(s, b, i) <==> occ(s.subrange(k, n), b, i - k)
{
    reveal(occ); reveal(no_occ); reveal(first_occ); reveal(has_delim); reveal(delim); reveal(tail_at); reveal(is_tail); reveal(tail); reveal(content_end);
    assert(s.subrange(i, i + b.len()) =~= s.subrange(k, n).subrange(i - k, i - k + b.len()));
}
proof fn no_delim_before(s: Seq<u8>, b: Seq<u8>, i: int)
    requires occ(s, b, i)
    ensures has_delim(s, b), delim(s, b) <= i
    decreases i
{
    reveal(occ); reveal(no_occ); reveal(first_occ); reveal(has_delim); reveal(delim); reveal(tail_at); reveal(is_tail); reveal(tail); reveal(content_end);
    if exists|j: int| j < i && occ(s, b, j) {
        let j = choose|j: int| j < i && occ(s, b, j);
        no_delim_before(s, b, j);
    } else {
        assert(first_occ(s, b, i));
        b_first_occ(s, b, i);
    }
}
/// the delimiter found in the unread part of the buffer is the one of the stream
pub broadcast proof fn b_scan_found(s: Seq<u8>, buf: Seq<u8>, b: Seq<u8>, k: int, n: int, i: int)
    requires buf.is_prefix_of(s), is_delim(b), 0 <= k <= content_end(s, b), n == buf.len(), k <= n, #[trigger] first_occ(buf.subrange(k, n), b, i)
    ensures has_delim(s, b), delim(s, b) == k + i, #[trigger] content_end(s, b) == back(s, k + i), k + i + b.len() <= n, buf[k + i] == 45, s[k + i] == 45
{
    reveal(occ); reveal(no_occ); reveal(first_occ); reveal(has_delim); reveal(delim); reveal(tail_at); reveal(is_tail); reveal(tail); reveal(content_end);
    let l = buf.subrange(k, n);
    assert(occ(l, b, i));
    occ_sub(buf, k, n, b, k + i);
    assert(buf.subrange(k + i, k + i + b.len())[0] == b[0]);
    occ_prefix(s, buf, b, k + i);
    no_delim_before(s, b, k + i);
    let d = delim(s, b);
    assert(first_occ(s, b, d));
    assert(k <= d);
    occ_prefix(s, buf, b, d);
    occ_sub(buf, k, n, b, d);
    if d < k + i { assert(!occ(l, b, d - k)); }
}
/// what can be yielded if there is no delimiter in the unread part of the buffer
pub broadcast proof fn b_scan_tail(s: Seq<u8>, buf: Seq<u8>, b: Seq<u8>, k: int, n: int, i: int)
    requires buf.is_prefix_of(s), is_delim(b), 0 <= k <= content_end(s, b), n == buf.len(), k <= n, #[trigger] is_tail(buf.subrange(k, n), b, i), no_occ(buf.subrange(k, n), b)
    ensures 0 <= hold(buf, k + i) <= #[trigger] content_end(s, b), buf == s ==> hold(buf, k + i) == content_end(s, b),
       k + i < n ==> buf[k + i] == 45,
       n - b.len() < k + i,
       has_delim(s, b) ==> delim(s, b) + b.len() > n,
{
    reveal(occ); reveal(no_occ); reveal(first_occ); reveal(has_delim); reveal(delim); reveal(tail_at); reveal(is_tail); reveal(tail); reveal(content_end);
    let l = buf.subrange(k, n);
    let x = k + i;
    assert(l.skip(i) =~= buf.skip(x));
    if x < n { assert(l.skip(i)[0] == b[0]); assert(buf.skip(x)[0] == buf[x]); }
    if n - b.len() == k + i { assert(l.skip(i) == b.take(b.len() as int)); assert(l.subrange(i, i + b.len()) =~= l.skip(i)); assert(b.take(b.len() as int) =~= b); assert(occ(l, b, i)); }
    if has_delim(s, b) {
        let d = delim(s, b);
        assert(first_occ(s, b, d));
        assert(k <= d);
        if d + b.len() <= n { occ_prefix(s, buf, b, d); occ_sub(buf, k, n, b, d); assert(!occ(l, b, d - k)); }
        if d < n {
            assert(l.skip(d - k) =~= s.subrange(d, d + b.len()).take(n - d));
            assert(tail_at(l, b, d - k));
            assert(x <= d);
        }
        assert(x <= d);
        if x < n { assert(s[x] == 45); }
    } else {
        has_tail(s, b);
        let t = tail(s, b);
        assert(k <= t);
        if t < n {
            assert(l.skip(t - k) =~= s.skip(t).take(n - t));
            assert(tail_at(l, b, t - k));
        }
        assert(x <= t);
        if x < n { assert(s[x] == 45); }
        if buf == s {
            if x < t { assert(tail_at(s, b, x)); }
        }
    }
}
pub broadcast proof fn b_skip(s: Seq<u8>, b: Seq<u8>, k: int)
    requires is_delim(b), 0 <= k <= content_end(s, b)
    ensures #[trigger] content_end(s.skip(k), b) == content_end(s, b) - k,
       has_delim(s.skip(k), b) <==> has_delim(s, b),
       has_delim(s, b) ==> delim(s.skip(k), b) == delim(s, b) - k,
{
    reveal(occ); reveal(no_occ); reveal(first_occ); reveal(has_delim); reveal(delim); reveal(tail_at); reveal(is_tail); reveal(tail); reveal(content_end);
    let z = s.skip(k);
    end_bounds(s, b);
    assert(z =~= s.subrange(k, s.len() as int));
    if has_delim(s, b) {
        let d = delim(s, b);
        assert(first_occ(s, b, d));
        occ_sub(s, k, s.len() as int, b, d);
        assert forall|j: int| j < d - k implies !occ(z, b, j) by {
            if occ(z, b, j) { occ_sub(s, k, s.len() as int, b, j + k); assert(!occ(s, b, j + k)); }
        }
        assert(first_occ(z, b, d - k));
        b_first_occ(z, b, d - k);
    } else {
        if has_delim(z, b) {
            let d = delim(z, b);
            assert(first_occ(z, b, d));
            occ_sub(s, k, s.len() as int, b, d + k);
            no_delim_before(s, b, d + k);
        }
        has_tail(s, b);
        let t = tail(s, b);
        assert(z.skip(t - k) =~= s.skip(t));
        assert(tail_at(z, b, t - k));
        assert forall|j: int| z.len() - b.len() <= j < t - k implies !tail_at(z, b, j) by {
            if tail_at(z, b, j) { assert(z.skip(j) =~= s.skip(j + k)); assert(tail_at(s, b, j + k)); }
        }
        assert(is_tail(z, b, t - k));
        b_is_tail(z, b, t - k);
    }
}
pub broadcast proof fn end_bounds(s: Seq<u8>, b: Seq<u8>)
    ensures 0 <= #[trigger] content_end(s, b) <= s.len(), has_delim(s, b) ==> content_end(s, b) <= delim(s, b) <= content_end(s, b) + 2 && delim(s, b) + b.len() <= s.len(),
  is_delim(b) && content_end(s, b) == s.len() ==> hold(s, s.len() as int) == s.len()
{
    reveal(occ); reveal(no_occ); reveal(first_occ); reveal(has_delim); reveal(delim); reveal(tail_at); reveal(is_tail); reveal(tail); reveal(content_end);
    has_tail(s, b);
    if has_delim(s, b) { assert(first_occ(s, b, delim(s, b))); }
}
broadcast group g_bnd {  b_first_occ, b_no_occ, b_is_tail, b_scan_found, b_scan_tail, b_skip, end_bounds }

/// the two bytes that follow the first delimiter
pub open spec fn after_delim(s: Seq<u8>, b: Seq<u8>) -> Seq<u8> {
    s.subrange(delim(s, b) + b.len(), delim(s, b) + b.len() + 2)
}
/// no delimiter, or one that is followed by neither CRLF nor `--`
pub open spec fn malformed(s: Seq<u8>, b: Seq<u8>) -> bool {
    !has_delim(s, b) || delim(s, b) + b.len() + 2 > s.len()
    || !(after_delim(s, b) =~= crlf() || after_delim(s, b) =~= dashes())
}

/// what the stream looks like when only the delimiter is left before the next part
proof fn at_delim(s0: Seq<u8>, s: Seq<u8>, b: Seq<u8>)
    requires has_delim(s0, b), is_delim(b), s == s0.skip(content_end(s0, b))
    ensures has_delim(s, b), content_end(s, b) == 0,
        delim(s, b) == (if s.len() >= 2 && s[0] == 13 && s[1] == 10 { 2int } else { 0 }),
        delim(s0, b) == content_end(s0, b) + delim(s, b),
        s.len() == s0.len() - content_end(s0, b),
        delim(s, b) + b.len() <= s.len(),
        forall|i: int| 0 <= i < b.len() ==> s[delim(s, b) + i] == #[trigger] b[i],
        forall|k: int| 0 <= k <= s.len() ==> #[trigger] s.skip(k) == s0.skip(content_end(s0, b) + k),
        delim(s, b) + b.len() + 2 <= s.len() ==> after_delim(s, b) == after_delim(s0, b),
        malformed(s, b) <==> malformed(s0, b),
{
    end_bounds(s0, b);
    b_skip(s0, b, content_end(s0, b));
    reveal(occ); reveal(first_occ); reveal(has_delim); reveal(delim); reveal(content_end);
    let d = delim(s, b);
    assert(first_occ(s, b, d));
    assert(occ(s, b, d));
    assert forall|i: int| 0 <= i < b.len() implies s[d + i] == #[trigger] b[i] by { assert(s.subrange(d, d + b.len())[i] == b[i]); }
    assert(b[0] == s[d + 0] && b[1] == s[d + 1]);
    let c = content_end(s0, b);
    assert forall|k: int| 0 <= k <= s.len() implies #[trigger] s.skip(k) == s0.skip(c + k) by { assert(s.skip(k) =~= s0.skip(c + k)); }
    if d + b.len() + 2 <= s.len() { assert(after_delim(s, b) =~= after_delim(s0, b)); }
}
