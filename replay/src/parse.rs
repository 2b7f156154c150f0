//! C01, C02, C16: what the reader yields for well-formed, damaged and faulty bodies.
use crate::util::*;
use crate::ensure;
use multipart::server::{Multipart, MultipartData, MultipartField, ReadEntry, ReadEntryResult};
use std::io::{self, BufRead, Read};

/// Every kind is as good as any other, except `Interrupted`
pub const FAULTS: &[io::ErrorKind] = &[
    io::ErrorKind::Interrupted, io::ErrorKind::Interrupted, io::ErrorKind::Interrupted, io::ErrorKind::Interrupted, io::ErrorKind::WouldBlock, io::ErrorKind::WouldBlock, io::ErrorKind::Other, io::ErrorKind::ConnectionReset,
    io::ErrorKind::UnexpectedEof, io::ErrorKind::UnexpectedEof, io::ErrorKind::BrokenPipe, io::ErrorKind::ConnectionAborted, io::ErrorKind::TimedOut, io::ErrorKind::InvalidData, io::ErrorKind::InvalidInput, io::ErrorKind::WriteZero,
    io::ErrorKind::PermissionDenied, io::ErrorKind::NotFound, io::ErrorKind::NotConnected, io::ErrorKind::ConnectionRefused, io::ErrorKind::AddrInUse, io::ErrorKind::AlreadyExists, io::ErrorKind::Unsupported, io::ErrorKind::OutOfMemory,
];

/// Reads (part of) a field's data and compares it with what it should be.
pub fn consume<M: ReadEntry>(r: &mut Rng, data: &mut MultipartData<M>, expect: &[u8], partial: bool, over: bool, errors: &mut u64) -> Result<usize, String> {
    let stop = if partial && r.chance(2, 3) { r.range(0, expect.len()) } else { usize::MAX };
    let style = r.below(8);
    let mut pos = 0;
    let mut seen = 0; // how much of the rest fill_buf() has returned
    let mut faults = 0u64;
    loop {
        if pos >= stop { return Ok(pos); }
        if r.chance(1, 25) { data.set_min_buf_size(*r.pick(&[0, 1, 16, 100, 1024, 1500, 4096, 8192, 20000])); }
        match match style { 0 | 1 => 0, 2 => 1, 3 if stop == usize::MAX => 2, _ => r.below(5) } {
            0 | 3 => {
                let n = match style { 0 => 1, 1 => *r.pick(&[1000, 1024, 8192, 20000]), _ => r.range(1, 64) };
                let mut out = vec![0xEEu8; n];
                match data.read(&mut out) {
                    Ok(0) => {
                        ensure!(pos == expect.len(), "read() returned 0 after {} of {} bytes of the field's data", pos, expect.len());
                        break;
                    }
                    Ok(n) => {
                        ensure!(n <= out.len() && pos + n <= expect.len() && out[..n] == expect[pos..pos + n],
                            "read() yielded \"{}\" at offset {} of the field's data, which is \"{}\" there (length {})", show(&out[..n.min(out.len())]), pos, show(&expect[pos.min(expect.len())..]), expect.len());
                        ensure!(out[n..].iter().all(|&b| b == 0xEE), "read() returned {} but wrote more", n);
                        pos += n;
                        seen = 0;
                    }
                    Err(e) => { faults += 1; check_fault(&e, errors)?; }
                }
            }
            1 => {
                let take;
                match data.fill_buf() {
                    Ok(b) => {
                        if b.is_empty() {
                            ensure!(pos == expect.len(), "fill_buf() returned nothing after {} of {} bytes of the field's data", pos, expect.len());
                            break;
                        }
                        ensure!(pos + b.len() <= expect.len() && *b == expect[pos..pos + b.len()],
                            "fill_buf() yielded \"{}\" at offset {} of the field's data, which is \"{}\" there (length {})", show(b), pos, show(&expect[pos.min(expect.len())..]), expect.len());
                        ensure!(b.len() >= seen, "fill_buf() returned {} bytes, but it had returned {} before", b.len(), seen);
                        seen = b.len();
                        take = if over && r.chance(1, 10) { b.len() + r.range(1, 3000) } else { r.range(0, b.len()) };
                    }
                    Err(e) => { faults += 1; check_fault(&e, errors)?; continue; }
                }
                data.consume(take);
                let took = take.min(seen);
                pos += took;
                seen -= took;
            }
            2 if stop == usize::MAX => {
                let mut out = Vec::new();
                let res = data.read_to_end(&mut out);
                ensure!(pos + out.len() <= expect.len() && out[..] == expect[pos..pos + out.len()],
                    "read_to_end() yielded \"{}\" at offset {} of the field's data, which is \"{}\" there (length {})", show(&out), pos, show(&expect[pos.min(expect.len())..]), expect.len());
                pos += out.len();
                seen = 0;
                match res {
                    Ok(_) => { ensure!(pos == expect.len(), "read_to_end() stopped after {} of {} bytes of the field's data", pos, expect.len()); break; }
                    Err(e) => { faults += 1; check_fault(&e, errors)?; }
                }
            }
            4 => {
                let n = data.read(&mut []);
                match n {
                    Ok(n) => ensure!(n == 0, "read() of an empty buffer returned {}", n),
                    Err(e) => { faults += 1; check_fault(&e, errors)?; }
                }
            }
            _ => {}
        }
        if faults > 2_000_000 { return Err(format!("no progress at offset {} of {}", pos, expect.len())); }
    }
    // the end is final
    for _ in 0..3 {
        let mut out = [0u8; 8];
        match if r.chance(1, 2) { data.read(&mut out) } else { data.fill_buf().map(|b| b.len()) } {
            Ok(n) => ensure!(n == 0, "{} more bytes after the end of the field's data", n),
            Err(e) => check_fault(&e, errors)?,
        }
    }
    Ok(pos)
}

fn check_fault(e: &io::Error, errors: &mut u64) -> Result<(), String> {
    *errors += 1;
    ensure!(e.to_string() == "scheduled fault", "unexpected error while reading a field's data: {:?}", e);
    Ok(())
}

pub struct Expected<'a> { pub name: &'a str, pub filename: Option<&'a str>, pub ctype: Option<&'a str>, pub data: &'a [u8] }

pub fn check_headers<M: ReadEntry>(f: &MultipartField<M>, i: usize, e: &Expected) -> Result<(), String> {
    ensure!(&*f.headers.name == e.name, "entry {} is {:?}, should be {:?}", i, f.headers.name, e.name);
    ensure!(f.headers.filename.as_deref() == e.filename, "entry {} has the filename {:?}, should be {:?}", i, f.headers.filename, e.filename);
    ensure!(f.headers.content_type.as_ref().map(|m| m.to_string()) == e.ctype.map(|m| m.to_string()), "entry {} has the content type {:?}, should be {:?}", i, f.headers.content_type, e.ctype);
    let text = e.ctype.map_or(true, |m| m.starts_with("text/"));
    ensure!(f.is_text() == text, "entry {}: is_text() is {}", i, f.is_text());
    Ok(())
}

/// What should follow the entries.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tail { End, Error, Unknown }

pub struct Walk<'a> {
    pub entries: Vec<Expected<'a>>,
    /// the last entry is not complete: it may be an error, and its data is not compared
    pub cut_last: bool,
    pub tail: Tail,
    pub partial: bool,
    pub over: bool,
    pub faults: bool,
    /// all parts, in order: what is reported where the tail is not known comes from here
    pub names: Vec<&'a str>,
    /// nothing of what follows the closing delimiter may be reported
    pub no_ghost: bool,
}

struct Visitor<'a, 'b> { w: &'a Walk<'b>, r: &'a mut Rng, i: usize, errors: u64, consumed: usize, last: Option<usize>, inside: u64, told: std::cell::Cell<u64> }

impl<'a, 'b> Visitor<'a, 'b> {
    fn visit<M: ReadEntry>(&mut self, f: &mut MultipartField<M>) -> Result<(), String> {
        let before = met();
        let res = self.visit_(f);
        self.inside += met() - before;
        res
    }
    fn visit_<M: ReadEntry>(&mut self, f: &mut MultipartField<M>) -> Result<(), String> {
        let at = self.w.names.iter().position(|n| **n == *f.headers.name);
        if let (Some(a), Some(l)) = (at, self.last) { ensure!(a > l, "entry {:?} is reported after {:?}", f.headers.name, self.w.names[l]); }
        if at.is_some() { self.last = at; }
        ensure!(!self.w.no_ghost || *f.headers.name != *"ghost", "an entry from the text after the closing delimiter is reported");
        if self.i >= self.w.entries.len() && self.w.tail == Tail::Unknown { self.i += 1; return Ok(()); }
        ensure!(self.i < self.w.entries.len(), "entry {} ({:?}) after the {} entries of the body", self.i, f.headers.name, self.w.entries.len());
        let e = &self.w.entries[self.i];
        check_headers(f, self.i, e)?;
        if !(self.w.cut_last && self.i + 1 == self.w.entries.len()) && !(self.w.partial && self.r.chance(1, 4)) {
            self.consumed += consume(self.r, &mut f.data, e.data, self.w.partial, self.w.over, &mut self.errors).map_err(|m| format!("entry {} ({:?}): {}", self.i, e.name, m))?;
        }
        self.i += 1;
        Ok(())
    }
    fn end(&self) -> Result<(), String> {
        ensure!(self.w.tail != Tail::Error, "end of the body is reported after {} entries, but the body is damaged", self.i);
        ensure!(self.i >= self.w.entries.len(), "end of the body is reported after {} of {} entries", self.i, self.w.entries.len());
        Ok(())
    }
    /// `true`: the walk is over
    fn error(&self, e: &io::Error) -> Result<(), String> {
        self.told.set(self.told.get() + 1);
        if self.w.faults && e.to_string().contains("scheduled fault") { return Ok(()); }
        ensure!(self.w.tail != Tail::End, "unexpected error after {} of {} entries: {:?}", self.i, self.w.entries.len(), e);
        ensure!(self.i + (self.w.cut_last as usize) >= self.w.entries.len(), "unexpected error after {} of {} entries: {:?}", self.i, self.w.entries.len(), e);
        Ok(())
    }
}

/// Reads the body and compares what is yielded; returns the API used, the number of bytes compared and the faults met.
pub fn walk(r: &mut Rng, src: Sched, boundary: &str, w: &Walk) -> Result<(&'static str, usize, u64), String> {
    let api = r.below(5);
    let mut r2 = r.clone();
    let mut v = Visitor { w, r: &mut r2, i: 0, errors: 0, consumed: 0, last: None, inside: 0, told: Default::default() };
    let before = met();
    let mut mp = Multipart::with_body(src, boundary);
    let name = match api {
        0 | 1 => {
            let mut met = 0;
            loop {
                match Multipart::read_entry(&mut mp) {
                    Ok(Some(mut f)) => v.visit(&mut f)?,
                    Ok(None) => {
                        v.end()?;
                        for _ in 0..3 {
                            match Multipart::read_entry(&mut mp) {
                                Ok(None) => {}
                                Ok(Some(f)) => return Err(format!("entry {:?} after the end of the body was reported", f.headers.name)),
                                Err(e) => if !(w.faults && e.to_string().contains("scheduled fault")) { return Err(format!("error after the end of the body was reported: {:?}", e)) },
                            }
                        }
                        break;
                    }
                    Err(e) => {
                        v.error(&e)?;
                        met += 1;
                        // an interrupted search for the next delimiter can be resumed
                        if w.tail == Tail::Unknown && met < 20 { continue; }
                        if met > 50 || w.tail == Tail::Error || !w.faults || e.kind() == io::ErrorKind::InvalidData { break; }
                    }
                }
            }
            v.errors += met;
            "read_entry"
        }
        2 => {
            let mut res = mp.into_entry();
            loop {
                match res {
                    ReadEntryResult::Entry(mut f) => { v.visit(&mut f)?; res = f.next_entry(); }
                    ReadEntryResult::End(mut mp) => {
                        v.end()?;
                        match Multipart::read_entry(&mut mp) { Ok(None) => {}, Ok(Some(_)) => return Err("entry after the end of the body".into()), Err(e) => if !w.faults { return Err(format!("error after the end of the body was reported: {:?}", e)) } }
                        break;
                    }
                    ReadEntryResult::Error(mp, e) => {
                        v.error(&e)?;
                        v.errors += 1;
                        if w.tail != Tail::Unknown || v.errors > 20 { break; }
                        res = mp.into_entry();
                    }
                }
            }
            "into_entry/next_entry"
        }
        3 => {
            match mp.into_entry() {
                ReadEntryResult::Entry(mut f) => {
                    v.visit(&mut f)?;
                    let mut over = 0;
                    loop {
                        match f.next_entry_inplace() {
                            Ok(Some(f)) => { ensure!(over == 0, "entry after the end of the body"); v.visit(f)?; }
                            Ok(None) => { v.end()?; over += 1; if over == 3 { break; } }
                            Err(e) => { if over == 0 { v.error(&e)?; } else if !w.faults { return Err(format!("error after the end of the body was reported: {:?}", e)); } v.errors += 1; break; }
                        }
                    }
                }
                ReadEntryResult::End(_) => v.end()?,
                ReadEntryResult::Error(_, e) => { v.error(&e)?; v.errors += 1; }
            }
            "next_entry_inplace"
        }
        _ => {
            let mut bad = None;
            let res = mp.foreach_entry(|mut f| if bad.is_none() { if let Err(m) = v.visit(&mut f) { bad = Some(m); } });
            if let Some(m) = bad { return Err(m); }
            match res {
                Ok(()) => v.end()?,
                Err(e) => { v.error(&e)?; v.errors += 1; }
            }
            "foreach_entry"
        }
    };
    let (outside, told) = (met() - before - v.inside, v.told.get());
    ensure!(outside <= told, "{}: the body failed {} times while the next entry was looked for, but {} errors are reported", name, outside, told);
    Ok((name, v.consumed, v.errors))
}

fn expected(b: &Body) -> Vec<Expected<'_>> {
    b.parts.iter().map(|p| Expected { name: &p.name, filename: p.filename.as_deref(), ctype: p.ctype.as_deref(), data: &p.data }).collect()
}

fn describe(body: &[u8], boundary: &str, steps: &[Step], what: &str) -> String {
    let s: Vec<String> = steps.iter().take(12).map(|s| match s { Step::Max(usize::MAX) => "all".into(), Step::Max(n) => n.to_string(), Step::Fail(k) => format!("{:?}", k) }).collect();
    format!("boundary={:?} reads=[{}{}] {} body=\"{}\"", boundary, s.join(","), if steps.len() > 12 { ",.." } else { "" }, what, show(body))
}

fn run(r: &mut Rng, b: &Body, bytes: Vec<u8>, steps: Vec<Step>, w: &Walk) -> Case {
    let what = describe(&bytes, &b.boundary, &steps, "");
    let h = hash(&[&bytes, what.as_bytes()]);
    let (api, n, errs) = walk(r, Sched::new(bytes, steps), &b.boundary, w).map_err(|m| format!("{}\n  {}", m, what))?;
    Ok(Info { nontrivial: n > 0 || w.tail != Tail::End || w.partial, hash: h, sample: format!("{} entries={} compared={} errors={} {}", api, w.entries.len(), n, errs, what) })
}

pub fn c01(r: &mut Rng) -> Case {
    let b = gen_body(r);
    let steps = gen_steps(r, b.bytes.len());
    let w = Walk { entries: expected(&b), cut_last: false, tail: Tail::End, partial: false, over: false, faults: false, names: b.names(), no_ghost: false };
    run(r, &b, b.bytes.clone(), steps, &w)
}

pub fn c16(r: &mut Rng) -> Case {
    let b = gen_body(r);
    let steps = gen_steps(r, b.bytes.len());
    let steps = add_faults(r, steps, FAULTS);
    let w = Walk { entries: expected(&b), cut_last: false, tail: Tail::End, partial: r.chance(1, 3), over: false, faults: true, names: b.names(), no_ghost: false };
    if b.bytes.len() > 20000 && steps.iter().all(|s| matches!(s, Step::Fail(_) | Step::Max(1))) { return c16(r); }
    run(r, &b, b.bytes.clone(), steps, &w)
}

/// The reference reading of a body: entries and what follows them.
fn reference<'a>(b: &'a Body, bytes: &'a [u8]) -> (Vec<Expected<'a>>, bool, Tail) {
    let mut out: Vec<Expected> = Vec::new();
    let mut pos = 0;
    loop {
        let d = match find(&bytes[pos..], &b.delim) { Some(i) => pos + i, None => return (out, true, Tail::Error) };
        // the data of the previous entry
        if let Some(last) = out.last_mut() {
            // the headers' blank line is the delimiter's CRLF
            if d < pos + 2 && d == pos { return (out, true, Tail::Error); }
            let end = if d >= pos + 2 && &bytes[d - 2..d] == b"\r\n" { d - 2 } else { d };
            last.data = &bytes[pos..end];
        }
        let after = d + b.delim.len();
        if after + 2 > bytes.len() { return (out, false, Tail::Error); }
        match &bytes[after..after + 2] {
            b"--" => return (out, false, Tail::End),
            b"\r\n" => {}
            _ => return (out, false, Tail::Error),
        }
        pos = after + 2;
        let rest = &bytes[pos..];
        let p = b.parts.iter().find(|p| rest.starts_with(&p.head) && rest[p.head.len()..].starts_with(b"\r\n"));
        match p {
            Some(p) => {
                pos += p.head.len() + 2;
                out.push(Expected { name: &p.name, filename: p.filename.as_deref(), ctype: p.ctype.as_deref(), data: b"" });
            }
            // the body ends in the headers
            None if b.parts.iter().any(|p| [&p.head[..], b"\r\n"].concat().starts_with(rest)) => return (out, false, Tail::Error),
            None => return (out, false, Tail::Unknown),
        }
    }
}

pub fn c02(r: &mut Rng) -> Case {
    let b = gen_body(r);
    let mut bytes = b.bytes.clone();
    let damage = r.below(9);
    let mut no_ghost = false;
    match damage {
        0..=2 => {}
        // cut off, preferably at a delimiter
        3 | 4 => { let at = near(r, &b, &bytes); bytes.truncate(at); }
        // a changed, missing or extra byte, preferably at a delimiter
        5 | 6 if !bytes.is_empty() => {
            for _ in 0..r.range(1, 2) {
                let i = near(r, &b, &bytes).min(bytes.len() - 1);
                match r.below(3) {
                    0 => bytes[i] = *r.pick(b"-\r\nax\0"),
                    1 => { bytes.remove(i); if bytes.is_empty() { break } }
                    _ => bytes.insert(i, *r.pick(b"-\r\nax\0")),
                }
            }
        }
        // a delimiter line that is followed by another delimiter, or by a closing one
        7 if !b.boundary.contains(':') => {
            let mut at = Vec::new();
            let mut p = 0;
            while let Some(i) = find(&bytes[p..], &b.delim) { at.push(p + i); p += i + b.delim.len(); if bytes[p..].starts_with(b"--") { break } }
            let i = if r.chance(1, 2) { *at.last().unwrap() } else { *r.pick(&at) };
            let mut ins = b.delim.clone();
            ins.extend_from_slice(b"\r\n");
            bytes.splice(i..i, ins);
            no_ghost = true;
            if r.chance(1, 2) {
                // a part right behind the closing delimiter
                if let Some(e) = find(&bytes, &[&b.delim[..], b"--"].concat()) {
                    bytes.truncate(e + b.delim.len() + 2);
                    bytes.extend_from_slice(b"Content-Disposition: form-data; name=\"ghost\"\r\n\r\nboo\r\n");
                    bytes.extend_from_slice(&b.delim);
                    bytes.extend_from_slice(b"--\r\n");
                }
            }
        }
        // an extra delimiter
        _ => {
            let i = near(r, &b, &bytes);
            let mut ins = b.delim.clone();
            if r.chance(1, 2) { ins.splice(0..0, *b"\r\n"); }
            ins.extend_from_slice(*r.pick(&[&b"--"[..], b"\r\n", b"-", b"\r", b"", b"xx", b"\n\n", b"-\r", b"--\r\n"]));
            bytes.splice(i..i, ins);
        }
    }
    let steps = gen_steps(r, bytes.len());
    let (entries, cut_last, tail) = reference(&b, &bytes);
    let w = Walk { entries, cut_last, tail, partial: r.chance(3, 4), over: r.chance(1, 4), faults: false, names: b.names(), no_ghost };
    run(r, &b, bytes.clone(), steps, &w)
}

fn near(r: &mut Rng, b: &Body, bytes: &[u8]) -> usize {
    if r.chance(1, 4) { return r.below(bytes.len() + 1); }
    let mut at = Vec::new();
    let mut p = 0;
    while let Some(i) = find(&bytes[p..], &b.delim) { at.push(p + i); p += i + b.delim.len(); }
    if at.is_empty() { return r.below(bytes.len() + 1); }
    let a = *r.pick(&at);
    let lo = a.saturating_sub(4);
    let hi = (a + b.delim.len() + 6).min(bytes.len());
    match r.below(3) { 0 => r.range(lo, hi), 1 => r.range(lo, (a + 2).min(bytes.len())), _ => r.range((a + b.delim.len()).min(hi), hi) }
}
