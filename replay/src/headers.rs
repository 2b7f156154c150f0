//! C04: field headers; C03: arbitrary bodies.
use crate::ensure;
use crate::util::*;
use multipart::server::{Multipart, MultipartData, MultipartField, ReadEntry, ReadEntryResult, SaveResult};
use multipart::server::save::{PartialReason, SavedData};
use std::io::{BufRead, Read};

fn any_case(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_string(),
        1 => s.to_lowercase(),
        2 => s.to_uppercase(),
        _ => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
    }
}

const PIECES: &[&str] = &[";", "; ", "=", " ", "name=", "filename=", "; name=", ";filename=", "a", "b.txt", "é", "日本", "\u{1F600}", "'", "\\", "/", "..", "%22", "form-data", ",", ":", "\t", "--", "x=y", "NAME=", "\u{a0}", "\u{3000}", "\u{feff}", "\u{200b}", "\u{85}", "\u{2028}", "%41", "%00", "&amp;", "+", "e\u{301}", "\u{130}", "~", "C:\\x", "//", "`", "$x", "{}", "[]", "*", "utf-8''", "=?utf-8?q?a?="];

/// A value without `"`, CR and LF.
fn quoted_value(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => "field".into(),
        2 => r.pick(PIECES).to_string(),
        _ => { let n = r.range(1, 8); (0..n).map(|_| *r.pick(PIECES)).collect() }
    }
}

fn token(r: &mut Rng) -> String {
    let n = r.range(1, 10);
    (0..n).map(|_| *r.pick(b"abcXYZ0189!#$%&'*+-.^_`|~=") as char).collect()
}

fn ctype(r: &mut Rng) -> String {
    r.pick(&["text/plain", "text/plain; charset=utf-8", "text/html", "text/x-foo", "application/octet-stream", "image/png", "application/json", "multipart/mixed; boundary=abc", "application/x-www-form-urlencoded",
        "text/plain;charset=ISO-8859-1", "TEXT/HTML", "application/vnd.ms-excel", "image/svg+xml", "textual/plain", "message/text", "*/*", "text/*"]).to_string()
}

/// One parameter `key` with `value`, quoted if it has to be.
fn param(r: &mut Rng, key: &str, value: &str, quote: bool) -> String {
    format!("{}{}={}", r.pick(&[" ", "", "  ", " \t"]), key, if quote { format!("\"{}\"", value) } else { value.to_string() }) + *r.pick(&["", "", " "])
}

pub fn c04(r: &mut Rng) -> Case {
    let nquote = r.chance(3, 4);
    let name = if nquote { quoted_value(r) } else { token(r) };
    let fquote = r.chance(3, 4);
    let filename = if r.chance(1, 2) { Some(if fquote { quoted_value(r) } else { token(r) }) } else { None };
    let ct = if r.chance(1, 2) { Some(ctype(r)) } else { None };

    // what is wrong with these headers, if anything
    let bad = if r.chance(1, 5) { r.range(1, 4) } else { 0 };

    let mut params = vec![];
    if bad != 3 { params.push(param(r, "name", &name, nquote)); }
    if let Some(ref f) = filename { params.push(param(r, "filename", f, fquote)); }
    if r.chance(1, 3) {
        let other = match r.below(5) {
            0 => { let v = quoted_value(r); param(r, "xname", &v, true) }
            1 => { let v = token(r); param(r, "size", &v, false) }
            2 => { let v = quoted_value(r); param(r, "description", &v, true) }
            3 => " filename*=UTF-8''x%20y.txt".to_string(),
            _ => { let v = quoted_value(r); param(r, "modification-date", &v, true) }
        };
        let at = r.below(params.len() + 1);
        params.insert(at, other);
    }
    if params.len() > 1 && r.chance(1, 2) { let i = r.below(params.len()); params.swap(0, i); }
    let disp = if bad == 2 { *r.pick(&["attachment", "form-dat", "form-data2", "inline", "xform-data", "", "form data"]) } else { "form-data" };
    let mut disp = format!("{}{}", disp, r.pick(&["", "", " "]));
    for p in &params { disp += ";"; disp += p; }
    if !params.is_empty() && r.chance(1, 10) { disp += ";"; }
    // without parameters there is no `;` either
    let ct_bad = *r.pick(&["text", "text/", "/plain", "text plain", "te xt/plain", ";", "text/plain; charset", "t\u{e9}xt/plain"]);

    if bad == 4 && ct_bad.parse::<mime::Mime>().is_ok() { return c04(r); }
    let mut lines: Vec<(String, String)> = vec![];
    if bad != 1 { let k = any_case(r, "Content-Disposition"); lines.push((k, disp.clone())); }
    if bad == 4 { let k = any_case(r, "Content-Type"); lines.push((k, ct_bad.to_string())); }
    else if let Some(ref c) = ct { let k = any_case(r, "Content-Type"); lines.push((k, c.clone())); }
    let more = r.below(4 - lines.len() + 1).min(if r.chance(1, 2) { 0 } else { 3 });
    for _ in 0..more {
        let k = *r.pick(&["Content-Length", "Content-Transfer-Encoding", "X-Content-Disposition", "Content-Dispositio", "Content-Type-X", "X-Name", "Content-Typ", "Name"]);
        let v = match r.below(4) { 0 => "form-data; name=\"evil\"".to_string(), 1 => "binary".into(), 2 => { let n = r.range(1, 120); "z".repeat(n) }, _ => "image/gif".into() };
        lines.push((k.into(), v));
    }
    for i in (1..lines.len()).rev() { let j = r.below(i + 1); lines.swap(i, j); }
    if lines.is_empty() { lines.push(("X-Other".into(), "1".into())); }
    let mut head = Vec::new();
    for (k, v) in &lines { head.extend(format!("{}:{}{}\r\n", k, r.pick(&[" ", " ", "", "  "]), v).into_bytes()); }
    if head.len() > 900 { return c04(r); }

    let boundary = gen_boundary(r);
    let delim = [b"--", boundary.as_bytes()].concat();
    if find(&head, &delim).is_some() { return c04(r); }
    let data = gen_data(r, &delim);
    let mut body = delim.clone();
    body.extend_from_slice(b"\r\n");
    body.extend_from_slice(&head);
    body.extend_from_slice(b"\r\n");
    body.extend_from_slice(&data);
    body.extend_from_slice(b"\r\n");
    body.extend_from_slice(&delim);
    body.extend_from_slice(b"\r\nContent-Disposition: form-data; name=\"next\"\r\n\r\nnext data\r\n");
    body.extend_from_slice(&delim);
    body.extend_from_slice(b"--");
    let steps = gen_steps(r, body.len());
    let what = format!("headers \"{}\" boundary={:?} reads={:?}", show(&head), boundary, &steps[..steps.len().min(6)]);
    let h = hash(&[&head]);
    let mut mp = Multipart::with_body(Sched::new(body, steps), boundary);

    let by = r.below(2);
    let mut check = |mut f: MultipartField<&mut Multipart<Sched>>| -> Result<(), String> {
        ensure!(bad == 0, "an entry is reported although {}: {:?}", ["", "there is no Content-Disposition", "the disposition is not form-data", "there is no name", "the content type cannot be parsed"][bad], f.headers);
        ensure!(&*f.headers.name == name, "the name is {:?}, should be {:?}", f.headers.name, name);
        ensure!(f.headers.filename == filename, "the filename is {:?}, should be {:?}", f.headers.filename, filename);
        let want = ct.as_ref().map(|c| c.parse::<mime::Mime>().unwrap());
        ensure!(f.headers.content_type == want && f.headers.content_type.as_ref().map(|c| c.to_string().to_lowercase()) == ct.as_ref().map(|c| c.to_lowercase()), "the content type is {:?}, should be {:?}", f.headers.content_type, ct);
        let text = ct.as_ref().map_or(true, |c| c.to_lowercase().starts_with("text/"));
        ensure!(f.is_text() == text, "is_text() is {} for the content type {:?}", f.is_text(), ct);
        let mut out = vec![];
        f.data.read_to_end(&mut out).map_err(|e| format!("the data cannot be read: {:?}", e))?;
        ensure!(out == data, "the data is \"{}\", should be \"{}\"", show(&out), show(&data));
        Ok(())
    };
    let got = if by == 0 {
        match Multipart::read_entry(&mut mp) {
            Ok(Some(f)) => { check(f).map_err(|m| format!("{}\n  {}", m, what))?; true }
            Ok(None) => return Err(format!("the end is reported instead of the entry\n  {}", what)),
            Err(e) => { ensure!(bad != 0, "error instead of the entry: {:?}\n  {}", e, what); false }
        }
    } else {
        match ReadEntry::read_entry(&mut mp) {
            ReadEntryResult::Entry(f) => { check(f).map_err(|m| format!("{}\n  {}", m, what))?; true }
            ReadEntryResult::End(_) => return Err(format!("the end is reported instead of the entry\n  {}", what)),
            ReadEntryResult::Error(_, e) => { ensure!(bad != 0, "error instead of the entry: {:?}\n  {}", e, what); false }
        }
    };
    if got {
        match Multipart::read_entry(&mut mp) {
            Ok(Some(f)) => ensure!(&*f.headers.name == "next", "the next entry is {:?}\n  {}", f.headers.name, what),
            other => return Err(format!("no next entry: {:?}\n  {}", other.map(|_| ()), what)),
        }
    }
    Ok(Info { nontrivial: true, hash: h, sample: format!("{}{}", if bad == 0 { "" } else { "(faulty) " }, what) })
}

// ---------- C03

fn soup(r: &mut Rng, delim: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    let n = r.range(0, 60);
    for _ in 0..n {
        match r.below(24) {
            0 => v.extend_from_slice(b"\r\n"),
            1 => v.extend_from_slice(b"\r\n\r\n"),
            2 => v.push(b'\r'),
            3 => v.push(b'\n'),
            4 | 5 => v.extend_from_slice(delim),
            6 => { v.extend_from_slice(b"\r\n"); v.extend_from_slice(delim); v.extend_from_slice(b"\r\n") }
            7 => { v.extend_from_slice(b"\r\n"); v.extend_from_slice(delim); v.extend_from_slice(b"--") }
            8 => v.extend_from_slice(b"--"),
            9 => v.push(b'-'),
            10 => { let k = r.below(delim.len() + 1); v.extend_from_slice(&delim[..k]) }
            11 => v.extend_from_slice(b"Content-Disposition: form-data; name=\"x\"\r\n\r\n"),
            12 => v.extend_from_slice(b"Content-Disposition: form-data"),
            13 => v.extend_from_slice(b"Content-Type: text/plain\r\n"),
            14 => v.extend_from_slice(*r.pick::<&[u8]>(&[&b"; name=\""[..], b"; name=", b";name", b"; filename=\"", b"\"", b"=", b";", b";;", b" ;\"", b"name=\"\";", b"=\"", b"=\"\";"])),
            15 => v.extend_from_slice("é日\u{1F600}\u{3000}".as_bytes()),
            16 => v.push(r.next() as u8),
            17 => { let n = r.range(1, 30); for _ in 0..n { v.push(r.next() as u8) } }
            18 => { let n = *r.pick(&[10usize, 100, 500, 1000, 1020, 1024, 1030, 2000, 8192, 9000]); let c = *r.pick(b"a\r\n-\0 :"); v.extend(std::iter::repeat(c).take(n)) }
            19 => v.extend_from_slice(*r.pick::<&[u8]>(&[&b":"[..], b": ", b" ", b"\t", b"\0", b"X:\r\n", b"A: b\r\n", b"\xff\xfe", b"content-disposition:"])),
            20 => v.extend_from_slice(b"Content-Type: multipart/mixed; boundary=b\r\n"),
            21 => { let t = gen_data(r, delim); v.extend(t) }
            _ => v.extend_from_slice(b"text"),
        }
    }
    v
}

/// A header value that is not what it should be, with characters of several bytes anywhere
fn odd_value(r: &mut Rng) -> String {
    let mut s = r.pick(&["form-data; name=\"n\"", "form-data; name=\"", "form-data; filename=\"", "form-data", "form-data; nome=\"", "attachment", "other; name=\"n\"; ", ";", "", "form-data; name=\"n\"; filename=\"", "text/", "text/plain; charset="]).to_string();
    for _ in 0..r.range(0, 4) {
        match r.below(4) {
            0 => s += &"x".repeat(r.range(0, 130)),
            1 => s += &r.pick(&["\u{e9}", "\u{65e5}", "\u{1F600}", "\u{3000}"]).repeat(r.range(1, 80)),
            2 => s += *r.pick(&["\"", ";", "=", "\";", " ", "\"; "]),
            _ => s += *r.pick(&["name=", "; filename=\"", "a=b"]),
        }
    }
    s
}

fn odd_boundary(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => "\r\n".into(),
        2 => "\r".into(),
        3 => "--".into(),
        4 => "-".repeat(r.range(1, 80)),
        5 => "\n".into(),
        6 => "é日本".into(),
        7 => { let n = *r.pick(&[900usize, 1000, 1016, 1018, 1019, 1020, 1021, 1022, 1024, 1030, 2000, 5000]); "ab-".chars().cycle().take(n).collect() }
        8 => "\r\n--".into(),
        9 => "\0".into(),
        _ => gen_boundary(r),
    }
}

struct Hostile<'a> { body: &'a [u8], delim: &'a [u8], pos: usize }

impl<'a> Hostile<'a> {
    /// `d` was yielded in one piece: it is a part of the body after the pieces so far, without a delimiter in it
    fn piece(&mut self, d: &[u8]) -> Result<(), String> {
        match find(&self.body[self.pos..], d) {
            Some(i) => self.pos += i + d.len(),
            None => return Err(format!("the data \"{}\" is no part of the body after byte {}", show(d), self.pos)),
        }
        ensure!(find(d, self.delim).is_none(), "the data \"{}\" contains the delimiter", show(d));
        Ok(())
    }
}

fn abuse<M: ReadEntry>(r: &mut Rng, d: &mut MultipartData<M>, h: &mut Hostile) -> Result<(), String> {
    let mut got: Vec<u8> = vec![];
    let n = r.below(12);
    let mut whole = true; // nothing was passed over
    for _ in 0..n {
        match r.below(9) {
            0 | 1 => { let k = *r.pick(&[0usize, 1, 2, 7, 64, 1000, 20000]); let mut out = vec![0; k]; if let Ok(k) = d.read(&mut out) { ensure!(k <= out.len(), "read() returned {} for a buffer of {}", k, out.len()); got.extend_from_slice(&out[..k]); } }
            2 => { let _ = d.read_to_end(&mut got); }
            3 => {
                let b = match d.fill_buf() { Ok(b) => b.to_vec(), Err(_) => continue };
                ensure!(find(&b, h.delim).is_none(), "fill_buf() returned \"{}\", which contains the delimiter", show(&b));
                let k = r.below(b.len() + 1);
                d.consume(k);
                got.extend_from_slice(&b[..k]);
            }
            4 => { d.consume(*r.pick(&[0, 1, 5, 10_000, usize::MAX])); whole = false; }
            5 => d.set_min_buf_size(*r.pick(&[0usize, 1, 2, 100, 1024, 10_000, 70_000])),
            6 => { let mut s = String::new(); match d.read_to_string(&mut s) { Ok(_) => got.extend_from_slice(s.as_bytes()), Err(_) => whole = false } }
            7 => { let mut v = vec![]; let c = *r.pick(b"\n-\r"); let _ = d.read_until(c, &mut v); got.extend(v); }
            _ => {
                let mut b = d.save();
                b = b.size_limit(*r.pick(&[0u64, 1, 100, 5000, u64::MAX]));
                b = b.memory_threshold(*r.pick(&[0u64, 1, 50, 10_000, u64::MAX]));
                b = match r.below(3) { 0 => b.force_text(), 1 => b.ignore_text(), _ => b.try_text() };
                if r.chance(1, 3) {
                    let mut w = vec![];
                    match b.write_to(&mut w) {
                        SaveResult::Full(n) | SaveResult::Partial(n, _) => ensure!(n == w.len() as u64, "write_to() reported {} bytes, but wrote {}", n, w.len()),
                        SaveResult::Error(_) => ensure!(w.is_empty(), "write_to() reported an error at the start, but wrote {} bytes", w.len()),
                    }
                    got.extend(w);
                } else {
                    let dir = scratch();
                    let res = b.with_dir(dir.path());
                    let saved = match res { SaveResult::Full(s) => Some(s), SaveResult::Partial(s, why) => { if let PartialReason::CountLimit = why { return Err("count limit for a field".into()) } Some(s) }, SaveResult::Error(_) => None };
                    match saved {
                        Some(SavedData::Text(t)) => got.extend_from_slice(t.as_bytes()),
                        Some(SavedData::Bytes(b)) => got.extend_from_slice(&b),
                        Some(SavedData::File(p, n)) => { let b = std::fs::read(p).unwrap(); ensure!(b.len() as u64 == n, "the file has {} bytes, {} are reported", b.len(), n); got.extend(b) }
                        None => {}
                    }
                }
            }
        }
    }
    if whole { h.piece(&got) } else { Ok(()) }
}

pub fn c03(r: &mut Rng) -> Case {
    log_here(r.chance(1, 4));
    let res = c03_(r);
    log_here(false);
    res
}

fn c03_(r: &mut Rng) -> Case {
    let boundary;
    let mut body;
    if r.chance(1, 2) {
        boundary = odd_boundary(r);
        let delim = [b"--", boundary.as_bytes()].concat();
        body = soup(r, &delim);
        if r.chance(1, 2) { let mut b = delim.clone(); b.extend_from_slice(b"\r\nContent-Disposition: form-data; name=\"n\"\r\n\r\n"); b.extend(body); body = b; }
        else if r.chance(1, 3) {
            let mut b = delim.clone();
            let ct = if r.chance(1, 2) { format!("Content-Type: {}\r\n", odd_value(r)) } else { String::new() };
            b.extend_from_slice(format!("\r\nContent-Disposition: {}\r\n{}\r\n", odd_value(r), ct).as_bytes());
            b.extend(body);
            body = b;
        }
    } else {
        let b = gen_body(r);
        boundary = b.boundary.clone();
        body = b.bytes.clone();
        // mangled
        for _ in 0..r.below(6) {
            if body.is_empty() { break; }
            let i = r.below(body.len());
            match r.below(6) {
                0 => body[i] = r.next() as u8,
                1 => { body.remove(i); }
                2 => { let s = soup(r, &b.delim); body.splice(i..i, s); }
                3 => body.truncate(i),
                4 => { let j = r.range(i, body.len()); body.drain(i..j); }
                _ => { let j = r.range(i, body.len().min(i + 300)); let s = body[i..j].to_vec(); body.splice(i..i, s); }
            }
        }
    }
    let delim = [b"--", boundary.as_bytes()].concat();
    let steps = gen_steps(r, body.len());
    let steps = if r.chance(1, 4) { add_faults(r, steps, crate::parse::FAULTS) } else { steps };
    if body.len() > 20_000 && steps.len() > 1 && steps.iter().all(|s| matches!(s, Step::Fail(_) | Step::Max(1))) { body.truncate(20_000); }
    let what = format!("boundary={:?} reads={:?} body=\"{}\"", if boundary.len() > 100 { format!("{}..({})", &boundary[..20], boundary.len()) } else { boundary.clone() }, &steps[..steps.len().min(6)], show(&body));
    let hsh = hash(&[&body, boundary.as_bytes()]);
    let mut h = Hostile { body: &body, delim: &delim, pos: 0 };
    let api = r.below(6);
    let mut entries = 0u64;
    let mut mp = Multipart::with_body(Sched::new(body.clone(), steps), boundary);
    let run = |r: &mut Rng, h: &mut Hostile, entries: &mut u64| -> Result<(), String> {
        match api {
            0 | 1 => for _ in 0..r.range(1, 40) {
                match Multipart::read_entry(&mut mp) {
                    Ok(Some(mut f)) => { *entries += 1; abuse(r, &mut f.data, h)? }
                    Ok(None) | Err(_) => {}
                }
            },
            2 => { let mut bad = None; for _ in 0..2 { let mut n = 0u64; let _ = mp.foreach_entry(|mut f| { n += 1; *entries += 1; if bad.is_none() { if let Err(m) = abuse(r, &mut f.data, h) { bad = Some(m) } } }); ensure!(n <= 2 + h.body.len() as u64, "more entries than bytes"); } if let Some(m) = bad { return Err(m) } }
            3 => {
                let mut res = mp.into_entry();
                for _ in 0..60 {
                    match res {
                        ReadEntryResult::Entry(mut f) => { *entries += 1; abuse(r, &mut f.data, h)?; res = f.next_entry() }
                        ReadEntryResult::End(mp) | ReadEntryResult::Error(mp, _) => res = mp.into_entry(),
                    }
                }
            }
            4 => if let ReadEntryResult::Entry(mut f) = mp.into_entry() {
                for _ in 0..40 {
                    *entries += 1;
                    abuse(r, &mut f.data, h)?;
                    if let Ok(Some(f)) = f.next_entry_inplace() { abuse(r, &mut f.data, h)?; }
                }
            },
            _ => for _ in 0..3 {
                let b = mp.save().size_limit(*r.pick(&[0u64, 1, 100, u64::MAX])).memory_threshold(*r.pick(&[0u64, 10, 10_000, u64::MAX])).count_limit(*r.pick(&[0u32, 1, 3, u32::MAX]));
                let b = match r.below(3) { 0 => b.force_text(), 1 => b.ignore_text(), _ => b };
                let dir = scratch();
                match b.with_dir(dir.path()) {
                    SaveResult::Full(e) => *entries += e.fields_count() as u64,
                    SaveResult::Partial(p, _) => *entries += p.keep_partial().fields_count() as u64,
                    SaveResult::Error(_) => {}
                }
            },
        }
        Ok(())
    };
    { let mut run = run; run(r, &mut h, &mut entries).map_err(|m| format!("{}\n  {}", m, what))?; }
    Ok(Info { nontrivial: true, hash: hsh, sample: format!("entries={} {}", entries, what) })
}
