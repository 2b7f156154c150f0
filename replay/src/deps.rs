//! Samples the contracts that the proofs assume of the libraries: what contracts/*.rs say of a stand-in is
//! checked here on the real thing.
use crate::util::*;
use buf_redux::{policy::MinBuffered, BufReader};
use std::io::{self, BufRead, Read, Write};

macro_rules! hold { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

pub fn deps(r: &mut Rng) -> Case {
    let k = r.below(9);
    let sample = match k {
        0 => text(r)?,
        1 => search(r)?,
        2 | 3 => buffered(r)?,
        4 => header_lines(r)?,
        5 => utf8(r)?,
        6 => std_io(r)?,
        7 => paths(r)?,
        _ => mimes(r)?,
    };
    Ok(Info { hash: hash(&[sample.as_bytes()]), nontrivial: true, sample })
}

fn string(r: &mut Rng, max: usize) -> String {
    const CS: &[char] = &[' ', ' ', 'a', 'b', 'A', 'Z', ';', '=', '"', '-', '\t', '\n', '\r', '\u{a0}', 'é', 'İ', '\u{3000}', '€', '\u{1d11e}', '\u{85}', '\u{0}', '\u{7f}', '~', '!'];
    (0..r.below(max + 1)).map(|_| *r.pick(CS)).collect()
}
fn at(s: &[u8], p: &[u8], i: usize) -> bool { i + p.len() <= s.len() && &s[i..i + p.len()] == p }
fn cut_ok(s: &[u8], i: usize) -> bool { i <= s.len() && (i == 0 || i == s.len() || s[i] < 128 || s[i] >= 192) }
fn graphic(c: u8) -> bool { (33..=126).contains(&c) }

fn text(r: &mut Rng) -> Result<String, String> {
    let s = string(r, 12);
    let b = s.as_bytes();
    let t = s.trim();
    hold!(t.len() <= s.len(), "trim_len {:?}", s);
    if s.starts_with(' ') { hold!(t == s[1..].trim(), "trim_space {:?}", s); }
    if b.len() > 0 && graphic(b[0]) {
        hold!(t.len() > 0 && t.as_bytes()[0] == b[0], "trim_first {:?}", s);
        if graphic(b[b.len() - 1]) { hold!(t == s, "trim_graphic {:?}", s); }
    }
    for i in 0..=b.len() {
        hold!(cut_ok(b, i) == s.is_char_boundary(i), "cut_ok {:?} {}", s, i);
        if i < b.len() && b[i] < 128 { hold!(cut_ok(b, i + 1), "cut_after_ascii {:?} {}", s, i); }
        if cut_ok(b, i) { let (x, y) = s.split_at(i); hold!(x.as_bytes() == &b[..i] && y.as_bytes() == &b[i..], "split_at {:?} {}", s, i); }
    }
    let p = if r.chance(1, 2) && b.len() > 0 { let cs: Vec<char> = s.chars().collect(); let i = r.below(cs.len()); cs[i..cs.len().min(i + 1 + r.below(2))].iter().collect() } else { string(r, 2) };
    let pb = p.as_bytes();
    let first = (0..=b.len()).find(|&i| at(b, pb, i));
    let last = (0..=b.len()).rev().find(|&i| at(b, pb, i));
    hold!(s.contains(&p[..]) == first.is_some(), "contains {:?} {:?}", s, p);
    // of the empty pattern the first match is 0, the last one the end: both places where it occurs
    hold!(s.find(&p[..]) == first && first.map_or(true, |i| cut_ok(b, i)), "find {:?} {:?}", s, p);
    hold!(s.rfind(&p[..]) == last && last.map_or(true, |i| cut_ok(b, i)), "rfind {:?} {:?}", s, p);
    hold!(s.starts_with(&p[..]) == b.starts_with(pb) && s.ends_with(&p[..]) == b.ends_with(pb), "starts {:?} {:?}", s, p);
    hold!(s.strip_prefix(&p[..]).map(|x| x.as_bytes()) == if b.starts_with(pb) { Some(&b[pb.len()..]) } else { None }, "strip_prefix {:?} {:?}", s, p);
    hold!(s.strip_suffix(&p[..]).map(|x| x.as_bytes()) == if b.ends_with(pb) { Some(&b[..b.len() - pb.len()]) } else { None }, "strip_suffix {:?} {:?}", s, p);
    hold!(s.split_once(&p[..]).map(|(x, y)| (x.as_bytes(), y.as_bytes())) == first.map(|i| (&b[..i], &b[i + pb.len()..])), "split_once {:?} {:?}", s, p);
    if !p.is_empty() { hold!(s.split(&p[..]).next().map(|x| x.as_bytes()) == Some(&b[..first.unwrap_or(b.len())]), "split_first {:?} {:?}", s, p); }
    let c = *r.pick(&['"', ' ', 'a', ';']);
    hold!(s.find(c) == (0..b.len()).find(|&i| b[i] == c as u8), "find char {:?} {:?}", s, c);
    let (mut lo, mut hi) = (0, b.len());
    while lo < hi && b[lo] == c as u8 { lo += 1; }
    while hi > lo && b[hi - 1] == c as u8 { hi -= 1; }
    hold!(s.trim_matches(c).as_bytes() == &b[lo..hi], "trim_matches {:?} {:?}", s, c);
    hold!(s.trim_start_matches(c).as_bytes() == &b[lo..], "trim_start_matches {:?} {:?}", s, c);
    let low: Vec<u8> = b.iter().map(|&x| if (65..=90).contains(&x) { x + 32 } else { x }).collect();
    hold!(s.to_ascii_lowercase().as_bytes() == &low[..], "to_ascii_lowercase {:?}", s);
    let o = string(r, 3);
    hold!(s.eq_ignore_ascii_case(&o) == (low == o.to_ascii_lowercase().as_bytes()), "eq_ignore_ascii_case {:?} {:?}", s, o);
    hold!(s.eq_ignore_ascii_case(&s.to_ascii_uppercase()), "eq_ignore_ascii_case {:?}", s);
    hold!(s.to_string() == s && format!("{}{}", s, p).as_bytes() == [b, pb].concat(), "display {:?}", s);
    Ok(format!("text {:?} {:?}", s, p))
}

fn search(r: &mut Rng) -> Result<String, String> {
    let al: &[u8] = if r.chance(1, 2) { b"-a" } else { b"-ab\r\n" };
    let n: Vec<u8> = (0..r.range(1, 6)).map(|_| *r.pick(al)).collect();
    let mut h: Vec<u8> = (0..r.below(60)).map(|_| *r.pick(al)).collect();
    if r.chance(1, 2) { let i = r.below(h.len() + 1); let t = h.split_off(i); h.extend_from_slice(&n); h.extend(t); }
    hold!(twoway::find_bytes(&h, &n) == find(&h, &n), "find_bytes {} in {}", show(&n), show(&h));
    let mut d = h.clone();
    safemem::prepend(&n, &mut d);
    hold!(d == [&n[..], &h[..]].concat(), "prepend {} {}", show(&n), show(&h));
    Ok(format!("search {} {}", show(&n), show(&h)))
}

/// a source that is cut into reads and may fail
struct Src { data: Vec<u8>, pos: usize, sizes: Vec<usize>, k: usize, fail: usize }
impl Read for Src {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        self.k += 1;
        if self.fail > 0 && self.k % self.fail == 0 { return Err(io::Error::new(io::ErrorKind::TimedOut, "source")); }
        let n = self.sizes[self.k % self.sizes.len()].min(out.len()).min(self.data.len() - self.pos);
        out[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// buf_io.rs, on a history of calls
fn buffered(r: &mut Rng) -> Result<String, String> {
    let data: Vec<u8> = (0..r.below(30000)).map(|i| (i * 7 + i / 251) as u8).collect();
    let sizes: Vec<usize> = (0..r.range(1, 4)).map(|_| *r.pick(&[1usize, 2, 7, 100, 1023, 1024, 1025, 5000, 9000])).collect();
    let fail = if r.chance(1, 3) { r.range(2, 9) } else { 0 };
    let src = Src { data: data.clone(), pos: 0, sizes: sizes.clone(), k: 0, fail };
    let start = r.range(2, 2000);
    let mut b = BufReader::new(src).set_policy(MinBuffered(start));
    hold!(b.buffer().is_empty() && b.capacity() == 8192, "a new reader holds {} bytes, capacity {}", b.buffer().len(), b.capacity());
    let mut min = start;
    let mut taken = 0;
    let mut log = format!("buffered {} bytes in {:?}, min {}, failing {}:", data.len(), sizes, start, fail);
    for _ in 0..r.range(1, 60) {
        let (before, cap) = (b.buffer().to_vec(), b.capacity());
        match r.below(8) {
            0 => {
                min = *r.pick(&[2usize, 64, 1000, 2000, 4096, 5000, 9000, 20000]);
                b.policy_mut().0 = min;
                log += &format!(" min {}", min);
                hold!(b.buffer() == &before[..] && b.capacity() == cap, "{}: policy_mut changed the buffer", log);
            }
            1 => {
                let add = r.below(20000);
                b.reserve(add);
                log += &format!(" reserve {}", add);
                hold!(b.capacity() >= before.len() + add && b.capacity() >= cap && b.buffer() == &before[..], "{}: capacity {}", log, b.capacity());
            }
            2 | 3 => {
                let n = if r.chance(1, 6) { before.len() + 3 } else if r.chance(1, 4) { before.len() } else { r.below(before.len() + 1) };
                b.consume(n);
                taken += n.min(before.len());
                log += &format!(" consume {}", n);
                hold!(b.buffer() == &before[n.min(before.len())..] && b.capacity() == cap, "{}: {} left", log, b.buffer().len());
            }
            _ => {
                let roomy = cap >= 2 * min;
                let res = b.fill_buf().map(|x| x.to_vec()).map_err(|e| e.kind());
                let pos = b.get_ref().pos;
                log += " fill";
                hold!(b.buffer().starts_with(&before), "{}: lost what was in the buffer", log);
                hold!(b.buffer() == &data[taken..pos], "{}: not the next bytes", log);
                hold!(b.capacity() >= cap, "{}: capacity {}", log, b.capacity());
                match res {
                    Ok(x) => {
                        hold!(x == b.buffer(), "{}: returned something else", log);
                        hold!(!roomy || x.len() >= min || pos == data.len(), "{}: {} bytes of {}", log, x.len(), min);
                    }
                    Err(k) => hold!(k == io::ErrorKind::TimedOut && fail > 0, "{}: {:?}", log, k),
                }
            }
        }
    }
    Ok(log)
}

/// the axiom `httparse_reads`
fn header_lines(r: &mut Rng) -> Result<String, String> {
    let mut t = vec![];
    let mut hs = vec![];
    for _ in 0..r.below(5) {
        let k = *r.pick(&["Content-Disposition", "Content-Type"]);
        let mut v: Vec<u8> = (0..r.below(20)).map(|_| loop { let c = r.below(256) as u8; if c >= 32 && c != 127 { break c; } }).collect();
        v.insert(0, r.range(33, 126) as u8);
        if r.chance(2, 3) { v.push(r.range(33, 126) as u8); } else { let n = v.len(); if !graphic(v[n - 1]) { v.push(b'x'); } }
        t.extend_from_slice(k.as_bytes());
        t.extend_from_slice(b": ");
        t.extend_from_slice(&v);
        t.extend_from_slice(b"\r\n");
        hs.push((k, v));
    }
    t.extend_from_slice(b"\r\n");
    let whole = t.len();
    let mut long = t.clone();
    for _ in 0..r.below(30) { long.push(r.below(256) as u8); }
    let cut = r.below(whole);
    for (buf, full) in [(&long[..], true), (&long[..whole], true), (&long[..cut], false), (&long[..whole - 1], false)] {
        let mut raw = [httparse::EMPTY_HEADER; 4];
        match httparse::parse_headers(buf, &mut raw) {
            Ok(httparse::Status::Complete((n, h))) => hold!(full && n == whole && h.len() == hs.len() && h.iter().zip(&hs).all(|(a, b)| a.name == b.0 && a.value == &b.1[..]), "complete after {}: {}", n, show(buf)),
            Ok(httparse::Status::Partial) => hold!(!full, "partial: {}", show(buf)),
            Err(e) => return Err(format!("{}: {}", e, show(buf))),
        }
    }
    Ok(format!("headers {}", show(&t)))
}

fn utf8(r: &mut Rng) -> Result<String, String> {
    let piece = |r: &mut Rng| -> Vec<u8> {
        let mut v = string(r, 5).into_bytes();
        if r.chance(1, 2) { let n = r.below(v.len() + 1); v.truncate(n); }
        if r.chance(1, 3) { v.push(*r.pick(&[0x80u8, 0xbf, 0xc0, 0xc3, 0xe2, 0xed, 0xa0, 0xf0, 0xf4, 0x90, 0xff])); }
        v
    };
    let (a, b) = (piece(r), piece(r));
    let ab = [&a[..], &b[..]].concat();
    let ok = |x: &[u8]| std::str::from_utf8(x).is_ok();
    hold!(ok(b""), "utf8_empty");
    if ok(&a) { hold!(ok(&ab) == ok(&b), "utf8_concat {} {}", show(&a), show(&b)); }
    if let Err(e) = std::str::from_utf8(&a) {
        hold!(e.valid_up_to() < a.len() && ok(&a[..e.valid_up_to()]), "from_utf8 {}", show(&a));
        match e.error_len() { Some(_) => hold!(!ok(&ab), "utf8_dead {} {}", show(&a), show(&b)), None => hold!(a.len() - e.valid_up_to() <= 3, "from_utf8 {}", show(&a)) }
    }
    let (x, y) = (string(r, 4), string(r, 4));
    let cat: String = x.chars().chain(y.chars()).collect();
    hold!(cat.as_bytes() == [x.as_bytes(), y.as_bytes()].concat(), "utf8_append {:?} {:?}", x, y);
    let asc: String = (0..r.below(20)).map(|_| r.below(128) as u8 as char).collect();
    hold!(asc.bytes().map(|c| c as u32).eq(asc.chars().map(|c| c as u32)), "utf8_ascii {:?}", asc);
    Ok(format!("utf8 {} {}", show(&a), show(&b)))
}

/// a sink that takes what it likes
struct Snk { out: Vec<u8>, sizes: Vec<usize>, k: usize }
impl Write for Snk {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.k += 1;
        let n = self.sizes[self.k % self.sizes.len()].min(b.len());
        if n == 0 && !b.is_empty() { return Err(io::ErrorKind::Interrupted.into()); }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn std_io(r: &mut Rng) -> Result<String, String> {
    let data: Vec<u8> = (0..r.below(20000)).map(|i| (i * 13 + i / 256) as u8).collect();
    let mut sizes: Vec<usize> = (0..r.range(1, 4)).map(|_| *r.pick(&[0usize, 1, 3, 1000, 9000])).collect();
    if sizes.iter().all(|&n| n == 0) { sizes.push(5); }
    let mut w = Snk { out: b"x".to_vec(), sizes: sizes.clone(), k: 0 };
    hold!(w.write_all(&data).is_ok() && w.out[1..] == data[..], "write_all {} {:?}", data.len(), sizes);
    let mut w = Snk { out: vec![], sizes: sizes.clone(), k: 0 };
    hold!(write!(w, "{}", show(&data)).is_ok() && w.out == show(&data).as_bytes(), "write! {} {:?}", data.len(), sizes);
    let rs: Vec<usize> = sizes.iter().map(|&n| n.max(1)).collect();
    let mut w = Snk { out: vec![], sizes: sizes.clone(), k: 0 };
    let mut s = Src { data: data.clone(), pos: 0, sizes: rs.clone(), k: 0, fail: 0 };
    hold!(matches!(io::copy(&mut s, &mut w), Ok(n) if n == data.len() as u64) && w.out == data && s.pos == data.len(), "copy {} {:?}", data.len(), sizes);
    let mut w = Snk { out: vec![], sizes: sizes.clone(), k: 0 };
    let mut s = Src { data: data.clone(), pos: 0, sizes: rs, k: 0, fail: 1 + r.below(4) };
    let (n, fail) = (data.len(), s.fail);
    if io::copy(&mut s, &mut w).is_ok() { hold!(s.pos == n && w.out == data, "copy of {} failing at {}", n, fail); }
    let mut b = &data[..];
    let mut o = vec![7u8; r.below(300)];
    let n = b.read(&mut o).unwrap();
    hold!(n == o.len().min(data.len()) && b == &data[n..] && o[..n] == data[..n] && o[n..].iter().all(|&c| c == 7), "slice read {}", n);
    let mut c = io::Cursor::new(&data);
    let at = r.below(data.len() + 1);
    c.set_position(at as u64);
    let mut o = vec![7u8; r.below(300)];
    let n = c.read(&mut o).unwrap();
    hold!(n == o.len().min(data.len() - at) && c.position() == (at + n) as u64 && o[..n] == data[at..at + n], "cursor read {}", n);
    let mut v = data.clone();
    hold!(v.write(&o).unwrap() == o.len() && v[data.len()..] == o[..], "vec write");
    Ok(format!("io {} {:?}", data.len(), sizes))
}

fn paths(r: &mut Rng) -> Result<String, String> {
    use std::path::{Path, PathBuf};
    let d = tempfile::Builder::new().prefix("deps").tempdir().map_err(|e| e.to_string())?;
    let p = d.path().to_path_buf();
    let name: String = (0..r.range(1, 12)).map(|_| *r.pick(&['a', 'Z', '0', '9'])).collect();
    let f = p.join(&name);
    hold!(f.parent() == Some(&p) && f.file_name() == Some(name.as_ref()), "join {:?} {:?}", p, name);
    hold!(Path::new(&name) == PathBuf::from(name.clone()), "path of {:?}", name);
    let deep = p.join("d-").join(&name).join("f");
    hold!(std::fs::create_dir_all(deep.parent().unwrap()).is_ok() && deep.parent().unwrap().is_dir(), "create_dir_all {:?}", deep);
    let mut o = std::fs::OpenOptions::new();
    o.write(true).create_new(true);
    hold!(o.open(&f).and_then(|mut x| x.write_all(b"one")).is_ok(), "open {:?}", f);
    hold!(o.open(&f).is_err() && std::fs::read(&f).unwrap() == b"one", "create_new over {:?}", f);
    let keep = r.chance(1, 2);
    if keep {
        let q = d.into_path();
        hold!(q == p && f.exists(), "into_path {:?}", p);
        hold!(std::fs::remove_dir_all(&q).is_ok() && !p.exists(), "remove_dir_all {:?}", p);
    } else if r.chance(1, 2) {
        hold!(d.close().is_ok() && !p.exists(), "close {:?}", p);
    } else {
        drop(d);
        hold!(!p.exists(), "dropped, but there is {:?}", p);
    }
    Ok(format!("paths {:?}", name))
}

fn mimes(r: &mut Rng) -> Result<String, String> {
    let t = format!("{}/{}{}", r.pick(&["text", "TEXT", "image", "multipart", "application"]), r.pick(&["plain", "form-data", "x", "octet-stream", "vnd.a+xml"]), r.pick(&["", "; charset=utf-8", "; boundary=aB9", "; a=\"b c\""]));
    if let Ok(m) = t.parse::<mime::Mime>() {
        hold!(m.to_string().parse::<mime::Mime>().ok().as_ref() == Some(&m), "mime {:?}", t);
        hold!((m.type_() == mime::TEXT) == t[..4].eq_ignore_ascii_case("text"), "type {:?}", t);
    }
    #[cfg(feature = "hyper")]
    {
        use hyper::mime::{Attr, Mime, SubLevel, TopLevel};
        let t = format!("multipart/form-data; {}={}; Boundary=Q; BOUNDARY=R", r.pick(&["boundary", "bOundary", "charset", "x", "q"]), r.pick(&["aB9", "utf-8", "x"]));
        if let Ok(Mime(a, b, ps)) = t.parse::<Mime>() {
            hold!(a == TopLevel::Multipart && b == SubLevel::FormData, "hyper mime {:?}", t);
            for (n, _) in &ps { hold!(n.as_str() != "boundary" || *n == Attr::Boundary, "known_attr {:?}", t); }
            hold!(Attr::Boundary.as_str() == "boundary" && Attr::Charset.as_str() != "boundary" && Attr::Q.as_str() != "boundary", "attr_text");
        }
        let b: String = (0..16).map(|_| *r.pick(&['a', 'Z', '7'])).collect();
        let m = Mime(TopLevel::Multipart, SubLevel::Ext("form-data".into()), vec![(Attr::Ext("boundary".into()), hyper::mime::Value::Ext(b.clone()))]);
        hold!(m.to_string() == format!("multipart/form-data; boundary={}", b), "{}", m);
        let mut h = hyper::header::Headers::new();
        h.set(hyper::header::ContentLength(7));
        h.set(hyper::header::ContentType(m.clone()));
        hold!(h.get::<hyper::header::ContentLength>().map(|x| x.0) == Some(7) && h.get::<hyper::header::ContentType>().map(|x| x.0.to_string()) == Some(m.to_string()), "headers {:?}", h);
    }
    Ok(format!("mime {:?}", t))
}
