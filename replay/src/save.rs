//! C09 to C13, C19 and the saving part of C16.
use crate::ensure;
use crate::util::*;
use multipart::server::save::{Entries, PartialReason, SaveBuilder, SaveDir, SavedData};
use multipart::server::{Multipart, MultipartData, MultipartField, ReadEntry, ReadEntryResult, SaveResult, SavedField};
use std::collections::HashMap;
use std::io::{self, BufRead, Read, Write};
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Text { Try, Force, Ignore }

#[derive(Clone, Copy, Debug)]
pub struct Conf { pub limit: u64, pub threshold: u64, pub text: Text }

fn near_len(r: &mut Rng, len: usize) -> u64 {
    match r.below(12) {
        0 => 0,
        1 => u64::MAX,
        2 | 3 => len as u64,
        4 => (len as u64).saturating_sub(1),
        5 => len as u64 + 1,
        6 => r.range(0, 20) as u64,
        7 => 1024,
        8 => 10 * 1024,
        _ => r.range(0, len + len / 4 + 8) as u64,
    }
}

fn gen_conf(r: &mut Rng, len: usize) -> Conf {
    let limit = if r.chance(1, 3) { u64::MAX } else { near_len(r, len) };
    let threshold = if r.chance(1, 8) { limit } else { near_len(r, len) };
    Conf { limit, threshold, text: *r.pick(&[Text::Try, Text::Try, Text::Force, Text::Ignore]) }
}

fn set<S>(b: SaveBuilder<S>, c: &Conf) -> SaveBuilder<S> {
    let b = if c.limit == u64::MAX { b.size_limit(None) } else { b.size_limit(c.limit) };
    let b = b.memory_threshold(c.threshold);
    match c.text { Text::Try => b.try_text(), Text::Force => b.force_text(), Text::Ignore => b.ignore_text() }
}

/// Text, valid or nearly so, and other data.
fn save_data(r: &mut Rng, delim: &[u8]) -> Vec<u8> {
    let mut v = match r.below(3) {
        0 => gen_data(r, delim),
        _ => {
            let n = match r.below(6) { 0 => r.range(0, 4), 1 | 2 => r.range(1, 60), 3 => r.range(300, 1200), 4 => r.range(3000, 12000), _ => r.range(0, 30000) };
            let set: &[&str] = match r.below(4) { 0 => &["a", "b", "\r\n"], 1 => &["é", "ü"], 2 => &["\u{1F600}", "\u{10FFFF}"], _ => &["x", "é", "日", "\u{1F600}", "\u{800}", "\u{7ff}", "\u{ffff}", "\u{0}", "\u{d7ff}", "\u{10000}"] };
            let mut s = String::new();
            if r.chance(1, 8) { s += *r.pick(SPECIAL); }
            while s.len() < n { s += *r.pick(set); }
            if r.chance(1, 8) { s += *r.pick(SPECIAL); }
            let mut v = s.into_bytes();
            if r.chance(1, 3) && !v.is_empty() {
                // nearly text
                match r.below(4) {
                    0 => { v.pop(); }
                    1 => { let i = r.below(v.len()); v[i] = *r.pick(&[0x80u8, 0xff, 0xc0, 0xe0, 0xed, 0xf4, 0xf5]); }
                    2 => v.extend_from_slice(*r.pick::<&[u8]>(&[&[0xc3][..], &[0xe6, 0x97], &[0xf0, 0x9f, 0x98], &[0xed, 0xa0, 0x80], &[0xc0, 0x80], &[0xff]])),
                    _ => { let i = r.below(v.len()); v.remove(i); }
                }
            }
            v
        }
    };
    while let Some(i) = find(&v, delim) { v[i] = b'x'; }
    v
}

struct One { boundary: String, data: Vec<u8>, body: Vec<u8> }

/// A body of one field, `f`, and one after it
fn one(r: &mut Rng) -> One {
    let boundary = gen_boundary(r);
    let delim = [b"--", boundary.as_bytes()].concat();
    let data = save_data(r, &delim);
    let head = *r.pick(&["name=\"f\"\r\n\r\n", "name=\"f\"; filename=\"../../etc/x.txt\"\r\nContent-Type: application/octet-stream\r\n\r\n"]);
    let mut body = delim.clone();
    body.extend_from_slice(b"\r\nContent-Disposition: form-data; ");
    body.extend_from_slice(head.as_bytes());
    if find(&body[delim.len()..], &delim).is_some() { return one(r); }
    body.extend_from_slice(&data);
    body.extend_from_slice(b"\r\n");
    body.extend_from_slice(&delim);
    body.extend_from_slice(b"\r\nContent-Disposition: form-data; name=\"next\"\r\n\r\nnext data\r\n");
    body.extend_from_slice(&delim);
    body.extend_from_slice(b"--\r\n");
    if find(&body[body.len() - delim.len() * 2 - 70..], b"next data").is_none() { return one(r); }
    One { boundary, data, body }
}

fn desc(c: &Conf, steps: &[Step], data: &[u8], how: &str) -> String {
    let s: Vec<String> = steps.iter().take(8).map(|s| match s { Step::Max(usize::MAX) => "all".into(), Step::Max(n) => n.to_string(), Step::Fail(k) => format!("{:?}", k) }).collect();
    format!("{} {:?} reads=[{}] data({})=\"{}\"", how, c, s.join(","), data.len(), show(data))
}

/// How a field save ended
#[derive(Debug)]
pub enum End { Full, Size, Utf8, Io(io::Error), Start(io::Error) }

fn split(res: SaveResult<SavedData, SavedData>) -> Result<(Option<SavedData>, End), String> {
    Ok(match res {
        SaveResult::Full(d) => (Some(d), End::Full),
        SaveResult::Partial(d, PartialReason::SizeLimit) => (Some(d), End::Size),
        SaveResult::Partial(d, PartialReason::Utf8Error(_)) => (Some(d), End::Utf8),
        SaveResult::Partial(d, PartialReason::IoError(e)) => (Some(d), End::Io(e)),
        SaveResult::Partial(_, PartialReason::CountLimit) => return Err("the count limit is reported for a single field".into()),
        SaveResult::Error(e) => (None, End::Start(e)),
    })
}

/// The contents of saved data, which agree with its size
pub fn contents(d: &SavedData) -> Result<Vec<u8>, String> {
    let bytes = match *d {
        SavedData::Text(ref t) => t.as_bytes().to_vec(),
        SavedData::Bytes(ref b) => b.clone(),
        SavedData::File(ref p, _) => std::fs::read(p).map_err(|e| format!("the saved file {:?} cannot be read: {}", p, e))?,
    };
    ensure!(d.size() == bytes.len() as u64, "{} bytes are stored, but the reported size is {}", bytes.len(), d.size());
    ensure!(d.is_memory() == !matches!(*d, SavedData::File(..)), "is_memory() is {} for {:?}", d.is_memory(), d);
    Ok(bytes)
}

fn readable(r: &mut Rng, d: &SavedData, bytes: &[u8]) -> Result<(), String> {
    let mut rd = d.readable().map_err(|e| format!("the saved data cannot be read: {}", e))?;
    let mut out = vec![];
    if r.chance(1, 2) {
        rd.read_to_end(&mut out).map_err(|e| e.to_string())?;
    } else {
        loop {
            if r.chance(1, 2) {
                let mut b = vec![0; if r.chance(1, 4) { r.range(8000, 20_000) } else { r.range(1, 3000) }];
                let n = rd.read(&mut b).map_err(|e| e.to_string())?;
                if n == 0 { break; }
                out.extend_from_slice(&b[..n]);
            } else {
                let n = { let b = rd.fill_buf().map_err(|e| e.to_string())?; if b.is_empty() { break; } let n = r.range(0, b.len()); out.extend_from_slice(&b[..n]); n };
                rd.consume(n);
            }
        }
    }
    ensure!(out == bytes, "reading the saved data gives \"{}\", stored is \"{}\"", show(&out), show(bytes));
    Ok(())
}

/// Reads the rest of a field; scheduled faults are passed over
fn rest<M: ReadEntry>(d: &mut MultipartData<M>) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let mut n = 0;
    loop {
        match d.read_to_end(&mut out) {
            Ok(_) => return Ok(out),
            Err(e) => { n += 1; if n > 1_000_000 || !e.to_string().contains("scheduled") { return Err(format!("the rest of the field cannot be read: {:?}", e)); } }
        }
    }
}

/// What a save of one field must be, whatever the transport does (no faults)
pub fn judge(c: &Conf, data: &[u8], saved: &Option<SavedData>, end: &End) -> Result<(), String> {
    let len = data.len() as u64;
    let saved = match saved { Some(s) => s, None => return Err(format!("the save failed: {:?}", end)) };
    let bytes = contents(saved)?;
    let text = std::str::from_utf8(data);
    ensure!(data.starts_with(&bytes), "saved is \"{}\", which is no prefix of the data", show(&bytes));
    if let SavedData::Text(_) = saved { ensure!(c.text != Text::Ignore, "the data was saved as text, but text is ignored"); }
    match end {
        End::Full => {
            ensure!(bytes == data, "a complete save stored {} of {} bytes", bytes.len(), len);
            ensure!(len <= c.limit, "{} bytes were saved completely, but the size limit is {}", len, c.limit);
            if len <= c.threshold {
                match saved {
                    SavedData::File(..) => return Err(format!("{} bytes were saved to a file, but the memory threshold is {}", len, c.threshold)),
                    SavedData::Text(_) => {}
                    SavedData::Bytes(_) => ensure!(c.text == Text::Ignore || text.is_err(), "valid UTF-8 was saved as bytes"),
                }
                ensure!(c.text != Text::Force || text.is_ok(), "data that is not valid UTF-8 was saved without an error");
            } else {
                ensure!(!saved.is_memory(), "{} bytes were kept in memory, but the memory threshold is {}", len, c.threshold);
            }
        }
        End::Size => {
            ensure!(len > c.limit, "the size limit is reported for {} bytes, but it is {}", len, c.limit);
            ensure!(bytes.len() as u64 <= c.limit, "{} bytes were stored, but the size limit is {}", bytes.len(), c.limit);
            ensure!(saved.is_memory() == (c.limit <= c.threshold), "the partial data is {} with size limit {} and memory threshold {}", if saved.is_memory() { "in memory" } else { "in a file" }, c.limit, c.threshold);
        }
        End::Utf8 => {
            ensure!(c.text == Text::Force, "a UTF-8 error is reported, but text is not forced");
            let valid = match text { Ok(_) => return Err("a UTF-8 error is reported for valid UTF-8".into()), Err(e) => e.valid_up_to() };
            ensure!(bytes.len() == valid, "the valid prefix has {} bytes, {} are kept", valid, bytes.len());
            ensure!(saved.is_memory() && bytes.len() as u64 <= c.threshold.min(c.limit), "more than the memory threshold or size limit is kept in memory");
        }
        End::Io(e) | End::Start(e) => return Err(format!("the save failed: {:?}", e)),
    }
    if saved.is_memory() { ensure!(bytes.len() as u64 <= c.threshold, "{} bytes are kept in memory, but the memory threshold is {}", bytes.len(), c.threshold); }
    Ok(())
}

fn field_of(mp: &mut Multipart<Sched>) -> Result<MultipartField<&mut Multipart<Sched>>, String> {
    match Multipart::read_entry(mp) {
        Ok(Some(f)) => Ok(f),
        other => Err(format!("no entry: {:?}", other.map(|f| f.map(|f| f.headers)))),
    }
}

fn next_ok(mp: &mut Multipart<Sched>) -> Result<(), String> {
    loop {
        match Multipart::read_entry(mp) {
            Ok(Some(mut f)) => {
                ensure!(&*f.headers.name == "next", "the next entry is {:?}", f.headers.name);
                ensure!(rest(&mut f.data)? == b"next data", "the next entry's data is wrong");
                return Ok(());
            }
            Ok(None) => return Err("the next entry is missing".into()),
            Err(e) if e.to_string() == "scheduled fault" => {}
            // (errors while the headers are read lose the field)
            Err(e) if e.to_string().contains("scheduled fault") => return Ok(()),
            Err(e) => return Err(format!("no next entry: {:?}", e)),
        }
    }
}

/// Saves a single field and judges it by `judge`; C09, C10, C11.
fn field_case(r: &mut Rng, mut conf: Conf, o: One) -> Case {
    let steps = gen_steps(r, o.body.len());
    let dir = scratch();
    let sub = dir.path().join("a/b");
    let how = r.below(5);
    let name = ["with_path", "with_dir", "write_to", "mod_open_opts+with_path", "temp/with_path"][how];
    if how == 2 { conf.text = Text::Try; }
    let what = desc(&conf, &steps, &o.data, name);
    let h = hash(&[what.as_bytes()]);
    let res = (|| -> Result<(), String> {
        let mut mp = Multipart::with_body(Sched::new(o.body.clone(), steps), o.boundary.clone());
        {
            let mut f = field_of(&mut mp)?;
            if how == 2 {
                let mut w = vec![];
                let res = set(f.data.save(), &conf).write_to(&mut w);
                ensure!(o.data.starts_with(&w), "written is \"{}\", which is no prefix of the data", show(&w));
                match res {
                    SaveResult::Full(n) => {
                        ensure!(n == w.len() as u64, "{} bytes are reported, {} were written", n, w.len());
                        ensure!(w == o.data, "a complete save wrote {} of {} bytes", w.len(), o.data.len());
                        ensure!(n <= conf.limit, "{} bytes were saved completely, but the size limit is {}", n, conf.limit);
                    }
                    SaveResult::Partial(n, PartialReason::SizeLimit) => {
                        ensure!(n == w.len() as u64, "{} bytes are reported, {} were written", n, w.len());
                        ensure!(o.data.len() as u64 > conf.limit, "the size limit is reported for {} bytes, but it is {}", o.data.len(), conf.limit);
                        ensure!(n <= conf.limit, "{} bytes were written, but the size limit is {}", n, conf.limit);
                    }
                    other => return Err(format!("the save failed: {:?}", other)),
                }
                let more = rest(&mut f.data)?;
                ensure!([w, more].concat() == o.data, "what was written and the rest of the field are not the field's data");
            } else {
                let path = sub.join("file");
                let mut b = set(f.data.save(), &conf);
                if how == 3 {
                    // an existing longer file, which may be overwritten
                    std::fs::create_dir_all(&sub).unwrap();
                    std::fs::write(&path, vec![b'#'; o.data.len() + 10]).unwrap();
                    b = b.mod_open_opts(|o| { o.write(false).create_new(false).create(true).truncate(true); });
                }
                let res = match how { 1 => b.with_dir(&sub), 4 if conf.threshold == u64::MAX || conf.limit <= conf.threshold => b.temp(), _ => b.with_path(path.clone()) };
                // a directory has to exist
                let (saved, end) = split(res)?;
                judge(&conf, &o.data, &saved, &end)?;
                let saved = saved.unwrap();
                let bytes = contents(&saved)?;
                readable(r, &saved, &bytes)?;
                if saved.is_memory() && how != 3 { ensure!(dir.list().is_empty(), "the data is in memory, but the disk was touched: {:?}", dir.list().iter().map(|x| x.0.clone()).collect::<Vec<_>>()); }
                let more = rest(&mut f.data)?;
                ensure!([bytes, more].concat() == o.data, "what was saved and the rest of the field are not the field's data");
            }
        }
        next_ok(&mut mp)
    })();
    res.map_err(|m| format!("{}\n  {}", m, what))?;
    Ok(Info { nontrivial: !o.data.is_empty(), hash: h, sample: what })
}

/// A sink which accepts `steps`, and fails
struct Out { got: Vec<u8>, steps: Vec<Step>, at: usize, zero: bool, full_at: usize, refused: u32 }
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let s = self.steps[self.at % self.steps.len()];
        self.at += 1;
        match s {
            Step::Max(n) => {
                let n = n.min(b.len()).min(self.full_at - self.got.len());
                if n == 0 && !b.is_empty() { self.refused += 1; assert!(self.refused < 1000, "a sink that takes no more is called for ever"); }
                self.got.extend_from_slice(&b[..n]);
                Ok(n)
            }
            Step::Fail(_) if self.zero => Ok(0),
            Step::Fail(k) => Err(io::Error::new(k, "scheduled sink fault")),
        }
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// write_to with sinks that write short and fail, and sources that fail
fn sink_case(r: &mut Rng) -> Case {
    let o = one(r);
    let conf = gen_conf(r, o.data.len());
    let mut steps = gen_steps(r, o.body.len());
    let faulty = r.chance(1, 2);
    if faulty { steps = add_faults(r, steps, crate::parse::FAULTS); }
    let osteps = gen_steps(r, o.data.len());
    let osteps = match r.below(3) { 0 => osteps, 1 => add_faults(r, osteps, &[io::ErrorKind::Interrupted]), _ => add_faults(r, osteps, crate::parse::FAULTS) };
    let what = desc(&conf, &steps, &o.data, &format!("write_to(sink {:?})", &osteps[..osteps.len().min(8)]));
    let h = hash(&[what.as_bytes()]);
    let mut zero = r.chance(1, 8);
    let full_at = if r.chance(1, 12) { zero = true; r.range(0, o.data.len()) } else { usize::MAX };
    let res = (|| -> Result<(), String> {
        let mut mp = Multipart::with_body(Sched::new(o.body.clone(), steps.clone()), o.boundary.clone());
        let mut tries = 0;
        let mut f = loop {
            match ReadEntry::read_entry(&mut mp) { ReadEntryResult::Entry(f) => break f, ReadEntryResult::Error(_, e) if faulty && e.to_string() == "scheduled fault" && tries < 50 => tries += 1, ReadEntryResult::Error(_, e) if faulty && e.to_string().contains("scheduled fault") => return Ok(()), ReadEntryResult::Error(_, e) => return Err(format!("{:?}", e)), _ => return Err("no entry".into()) }
        };
        let mut w = Out { got: vec![], steps: osteps.clone(), at: 0, zero, full_at, refused: 0 };
        let res = set(f.data.save(), &conf).write_to(&mut w);
        ensure!(o.data.starts_with(&w.got), "written is \"{}\", which is no prefix of the data", show(&w.got));
        match res {
            SaveResult::Full(n) => {
                ensure!(w.got == o.data, "a complete save wrote {} of {} bytes", w.got.len(), o.data.len());
                ensure!(n == w.got.len() as u64, "{} bytes are reported, {} were written", n, w.got.len());
                ensure!(n <= conf.limit, "{} bytes were saved completely, but the size limit is {}", n, conf.limit);
            }
            SaveResult::Partial(n, why) => {
                ensure!(n == w.got.len() as u64, "{} bytes are reported, {} were written (stopped by {:?})", n, w.got.len(), why);
                match why {
                    PartialReason::SizeLimit => ensure!(o.data.len() as u64 > conf.limit && n <= conf.limit, "the size limit {} is reported for {} bytes, of which {} were written", conf.limit, o.data.len(), n),
                    PartialReason::IoError(e) => stop_ok(&e, zero)?,
                    other => return Err(format!("stopped by {:?}", other)),
                }
            }
            SaveResult::Error(e) => {
                stop_ok(&e, zero)?;
                ensure!(w.got.is_empty(), "an error at the start is reported ({:?}), but {} bytes were written", e, w.got.len());
            }
        }
        let more = rest(&mut f.data)?;
        ensure!([w.got.clone(), more.clone()].concat() == o.data, "{} bytes were written, and the rest of the field has {}, but its data has {} bytes", w.got.len(), more.len(), o.data.len());
        Ok(())
    })();
    res.map_err(|m| format!("{}\n  {}", m, what))?;
    Ok(Info { nontrivial: !o.data.is_empty(), hash: h, sample: what })
}

fn stop_ok(e: &io::Error, zero: bool) -> Result<(), String> {
    if zero && e.kind() == io::ErrorKind::WriteZero { return Ok(()); }
    ensure!(e.to_string().starts_with("scheduled"), "stopped by an unexpected error: {:?}", e);
    ensure!(e.kind() != io::ErrorKind::Interrupted, "stopped by an interrupted call");
    Ok(())
}

/// Saves to a file with errors of the source or the file system, then goes on reading.
fn fault_case(r: &mut Rng) -> Case {
    let o = one(r);
    let conf = gen_conf(r, o.data.len());
    let steps = gen_steps(r, o.body.len());
    let src_faults = r.chance(2, 3);
    let kinds: &[io::ErrorKind] = if r.chance(1, 3) { &[io::ErrorKind::Interrupted] } else { crate::parse::FAULTS };
    let steps = if src_faults { add_faults(r, steps, kinds) } else { steps };
    if o.body.len() > 20000 && steps.iter().all(|s| matches!(s, Step::Fail(_) | Step::Max(1))) { return fault_case(r); }
    let dir = scratch();
    let fs = r.below(6);
    let path = match fs {
        0 => { std::fs::write(dir.path().join("exists"), b"old").unwrap(); dir.path().join("exists") }
        1 => { std::fs::write(dir.path().join("file"), b"old").unwrap(); dir.path().join("file/x") }
        2 => "/dev/full".into(),
        _ => dir.path().join("new/x"),
    };
    let what = desc(&conf, &steps, &o.data, &format!("with_path({})", ["existing file", "a file as directory", "/dev/full", "new", "new", "new"][fs]));
    let h = hash(&[what.as_bytes()]);
    let res = (|| -> Result<(), String> {
        let mut mp = Multipart::with_body(Sched::new(o.body.clone(), steps), o.boundary.clone());
        {
            let mut tries = 0;
            let mut f = loop {
                match ReadEntry::read_entry(&mut mp) { ReadEntryResult::Entry(f) => break f, ReadEntryResult::Error(_, e) if e.to_string() == "scheduled fault" && tries < 50 => tries += 1, ReadEntryResult::Error(_, e) if e.to_string().contains("scheduled fault") => return Ok(()), ReadEntryResult::Error(_, e) => return Err(format!("{:?}", e)), _ => return Err("no entry".into()) }
            };
            let mut b = set(f.data.save(), &conf);
            if fs == 2 { b = b.mod_open_opts(|o| { o.create_new(false); }); }
            let (saved, end) = split(b.with_path(path.clone()))?;
            let bytes = match saved {
                Some(SavedData::File(ref p, n)) if fs == 2 => { ensure!(p == &path && n == 0, "{} bytes are reported to be written to a full device", n); vec![] }
                Some(ref d) => contents(d)?,
                None => vec![],
            };
            ensure!(o.data.starts_with(&bytes), "saved is \"{}\", which is no prefix of the data", show(&bytes));
            match end {
                End::Io(ref e) | End::Start(ref e) => {
                    if e.to_string() == "scheduled fault" { ensure!(e.kind() != io::ErrorKind::Interrupted, "an interrupted read was not retried"); }
                    else {
                        ensure!(fs < 3, "unexpected error: {:?}", e);
                        ensure!(o.data.len() as u64 > conf.threshold, "the disk was used for {} bytes with threshold {}", o.data.len(), conf.threshold);
                    }
                }
                // the first piece was over the limit: nothing was written
                End::Size if fs == 2 && bytes.is_empty() => ensure!(o.data.len() as u64 > conf.limit, "the size limit is reported"),
                _ => {
                    ensure!(fs >= 3 || saved.as_ref().map_or(true, |s| s.is_memory()), "a file was written although that must fail");
                    judge(&conf, &o.data, &saved, &end)?;
                }
            }
            if let Some(SavedData::File(ref p, _)) = saved { ensure!(*p == path, "the path is {:?}, should be {:?}", p, path); }
            let more = rest(&mut f.data)?;
            ensure!([bytes.clone(), more.clone()].concat() == o.data, "{} bytes were saved, and the rest of the field has {}, but its data has {} bytes (end: {:?})", bytes.len(), more.len(), o.data.len(), end);
        }
        if fs < 2 { ensure!(std::fs::read(dir.path().join(["exists", "file"][fs])).unwrap() == b"old", "an existing file was changed"); }
        next_ok(&mut mp)
    })();
    res.map_err(|m| format!("{}\n  {}", m, what))?;
    Ok(Info { nontrivial: !o.data.is_empty(), hash: h, sample: what })
}

// ---------- whole requests

pub struct Req { pub boundary: String, pub fields: Vec<RField>, pub body: Vec<u8> }
pub struct RField { pub name: String, pub filename: Option<String>, pub ctype: Option<String>, pub data: Vec<u8> }

pub fn request(r: &mut Rng, max: usize) -> Req {
    let boundary = gen_boundary(r);
    let delim = [b"--", boundary.as_bytes()].concat();
    let n = r.range(0, max);
    let names = ["a", "b", "c", "é", "a b", ""];
    let k = r.range(1, names.len());
    let mut fields = vec![];
    let mut body = vec![];
    for _ in 0..n {
        let f = RField {
            name: names[r.below(k)].into(),
            filename: if r.chance(1, 3) { Some(r.pick(&["x.txt", "../../y", "/etc/passwd", "..", "", "a/b"]).to_string()) } else { None },
            ctype: if r.chance(1, 2) { Some(r.pick(&["text/plain", "application/octet-stream", "image/png", "text/html; charset=utf-8"]).to_string()) } else { None },
            data: { let mut d = save_data(r, &delim); if r.chance(1, 2) { d.truncate(40); } while let Some(i) = find(&d, &delim) { d[i] = b'x'; } d },
        };
        body.extend_from_slice(&delim);
        let mut head = format!("\r\nContent-Disposition: form-data; name=\"{}\"", f.name);
        if let Some(ref x) = f.filename { head += &format!("; filename=\"{}\"", x); }
        if let Some(ref x) = f.ctype { head += &format!("\r\nContent-Type: {}", x); }
        head += "\r\n\r\n";
        if find(head.as_bytes(), &delim).is_some() { return request(r, max); }
        body.extend_from_slice(head.as_bytes());
        body.extend_from_slice(&f.data);
        body.extend_from_slice(b"\r\n");
        fields.push(f);
    }
    body.extend_from_slice(&delim);
    body.extend_from_slice(b"--\r\n");
    Req { boundary, fields, body }
}

fn rdesc(c: &Conf, count: u32, steps: &[Step], q: &Req, how: &str) -> String {
    format!("{} {:?} count_limit={} reads={:?} boundary={:?} body=\"{}\"", how, c, count, &steps[..steps.len().min(8)], q.boundary, show(&q.body))
}

pub fn fconf(c: &Conf, f: &RField) -> Conf {
    let text = f.ctype.as_ref().map_or(true, |t| t.starts_with("text/"));
    Conf { text: if text { c.text } else { Text::Ignore }, ..*c }
}

pub fn heads_ok(h: &multipart::server::FieldHeaders, f: &RField) -> Result<(), String> {
    ensure!(*h.name == *f.name && h.filename == f.filename && h.content_type.as_ref().map(|m| m.to_string()) == f.ctype, "the headers {:?} are not those of the field {:?} {:?} {:?}", h, f.name, f.filename, f.ctype);
    Ok(())
}

/// The entries are the first fields of the request, each complete.
fn entries_ok(e: &Entries, fields: &[RField], c: &Conf, dir: &Path) -> Result<(), String> {
    let mut at: HashMap<&str, usize> = HashMap::new();
    for (i, f) in fields.iter().enumerate() {
        let k = at.entry(&f.name).or_insert(0);
        let v = match e.fields.get(&*f.name) { Some(v) => v, None => return Err(format!("field {} ({:?}) is missing", i, f.name)) };
        ensure!(*k < v.len(), "field {} ({:?}) is missing: there are only {} of that name", i, f.name, v.len());
        let s: &SavedField = &v[*k];
        heads_ok(&s.headers, f).map_err(|m| format!("field {}: {}", i, m))?;
        judge(&fconf(c, f), &f.data, &Some(clone(&s.data)), &End::Full).map_err(|m| format!("field {} ({:?}): {}", i, f.name, m))?;
        if let SavedData::File(ref p, _) = s.data { in_dir(p, dir)?; }
        *k += 1;
    }
    let n: usize = e.fields.values().map(|v| v.len()).sum();
    ensure!(n == fields.len(), "there are {} entries, should be {}", n, fields.len());
    ensure!(e.fields.values().all(|v| !v.is_empty()), "a name has an empty list");
    ensure!(e.fields_count() as usize == n, "the count is {}, but there are {} fields", e.fields_count(), n);
    ensure!(e.is_empty() == (n == 0), "is_empty() is {} for {} fields", e.is_empty(), n);
    ensure!(e.save_dir.as_path() == dir, "the save directory is {:?}, should be {:?}", e.save_dir, dir);
    let mut files: Vec<&PathBuf> = e.fields.values().flatten().filter_map(|s| if let SavedData::File(ref p, _) = s.data { Some(p) } else { None }).collect();
    let k = files.len();
    files.sort();
    files.dedup();
    ensure!(files.len() == k, "two fields are in the same file");
    Ok(())
}

pub fn clone(d: &SavedData) -> SavedData {
    match *d { SavedData::Text(ref t) => SavedData::Text(t.clone()), SavedData::Bytes(ref t) => SavedData::Bytes(t.clone()), SavedData::File(ref p, n) => SavedData::File(p.clone(), n) }
}

pub fn in_dir(p: &Path, dir: &Path) -> Result<(), String> {
    ensure!(p.parent() == Some(dir), "the file {:?} is not in {:?}", p, dir);
    let n = p.file_name().unwrap().to_string_lossy().into_owned();
    ensure!(n.len() >= 8 && n.bytes().all(|b| b.is_ascii_alphanumeric()), "the file's name is {:?}", n);
    Ok(())
}

/// A whole request is saved, with limits; what stops it is handled, and the save is resumed. C09, C12 and parts of C10, C11, C13.
fn request_case(r: &mut Rng, faults: bool) -> Case {
    let max = if r.chance(1, 10) { 40 } else { 7 };
    let q = request(r, max);
    let big = q.fields.iter().map(|f| f.data.len()).max().unwrap_or(0);
    let base = if r.chance(1, 2) { big } else { 60 };
    let mut conf = gen_conf(r, base);
    if r.chance(1, 2) { conf.limit = u64::MAX; }
    let n = q.fields.len();
    let count: u32 = match r.below(6) { 0 => 0, 1 => n as u32, 2 => (n as u32).saturating_sub(1), 3 => r.range(0, n + 2) as u32, 4 => n as u32 + 1, _ => u32::MAX };
    let steps = gen_steps(r, q.body.len());
    let kinds: &[io::ErrorKind] = if r.chance(1, 3) { &[io::ErrorKind::Interrupted] } else { crate::parse::FAULTS };
    let steps = if faults { add_faults(r, steps, kinds) } else { steps };
    if q.body.len() > 20000 && faults && steps.iter().all(|s| matches!(s, Step::Fail(_) | Step::Max(1))) { return request_case(r, faults); }
    let how = r.below(4);
    let scr = scratch();
    let what = rdesc(&conf, count, &steps, &q, ["with_dir", "with_temp_dir", "temp_with_prefix", "with_entries"][how]);
    let h = hash(&[what.as_bytes()]);
    let mut stopped = vec![];
    let res = (|| -> Result<(), String> {
        let mut mp = Multipart::with_body(Sched::new(q.body.clone(), steps), q.boundary.clone());
        let mut limit = count;
        let dir = scr.path().join("d");
        // the fields that `entries` holds are the first `done`
        let mut first = true;
        let mut kept: Option<Entries> = None;
        let mut removed: Vec<(String, SavedField)> = vec![];
        for _round in 0..10_000 {
            let b = set(mp.save(), &conf);
            let b = if limit == u32::MAX { b.count_limit(None) } else { b.count_limit(limit) };
            let res = if first {
                first = false;
                match how {
                    0 => b.with_dir(&dir),
                    1 => b.with_temp_dir(tempfile::Builder::new().prefix("vx").tempdir_in(scr.path()).unwrap()),
                    2 => b.temp_with_prefix("vxp"),
                    _ => { std::fs::create_dir(&dir).unwrap(); b.with_entries(Entries::new(SaveDir::Perm(dir.clone()))) }
                }
            } else { b.with_entries(kept.take().unwrap()) };
            let (mut entries, partial, why) = match res {
                SaveResult::Full(e) => {
                    let e = restore(e, &mut removed);
                    let d = e.save_dir.as_path().to_path_buf();
                    if how == 0 || how == 3 { ensure!(d == dir, "the save directory is {:?}", d); }
                    if how == 2 { ensure!(d.file_name().unwrap().to_string_lossy().starts_with("vxp") && d.parent() == Some(&std::env::temp_dir()), "the save directory is {:?}", d); }
                    entries_ok(&e, &q.fields, &conf, &d)?;
                    ensure!(limit as usize >= n || !stopped.is_empty(), "a request of {} fields was saved completely with the count limit {}", n, limit);
                    return Ok(());
                }
                SaveResult::Partial(p, why) => (p.entries, p.partial, why),
                SaveResult::Error(e) => return Err(format!("the save failed: {:?}", e)),
            };
            let d = entries.save_dir.as_path().to_path_buf();
            let done: usize = entries.fields.values().map(|v| v.len()).sum();
            let all = done + removed.len();
            ensure!(entries.fields_count() as usize == done, "the count is {}, but there are {} fields", entries.fields_count(), done);
            ensure!(all <= n, "there are {} entries of {} fields", all, n);
            stopped.push(format!("{}: {:?}", all, why));
            match why {
                PartialReason::CountLimit => {
                    ensure!(done as u32 == limit && all < n, "the count limit is reported after {} fields of {}, but it is {}", done, n, limit);
                    let mut p = match partial { Some(p) => p, None => return Err("the field over the limit is not handed back".into()) };
                    ensure!(p.dest.is_none(), "the field over the count limit was saved");
                    heads_ok(&p.source.headers, &q.fields[all])?;
                    entries_ok_removed(&mut entries, &mut removed, &q.fields[..all], &conf, &d)?;
                    // go on: save the field that was handed back, then the others
                    let f = &q.fields[all];
                    if r.chance(1, 3) {
                        let got = rest(&mut p.source.data)?;
                        ensure!(got == f.data, "the field over the count limit was read in part: \"{}\" is left of \"{}\"", show(&got), show(&f.data));
                        if r.chance(1, 2) || not_whole(&conf, f) { return Ok(()); }
                        entries.fields.entry(p.source.headers.name.clone()).or_insert_with(Vec::new).push(SavedField { headers: p.source.headers, data: whole(&fconf(&conf, f), got, &d) });
                    } else {
                        if f.data.len() as u64 > conf.limit { return Ok(()); }
                        let c = fconf(&conf, f);
                        let (saved, end) = split(set(p.source.data.save(), &c).with_dir(&d))?;
                        if faults { if let End::Io(_) | End::Start(_) = end { return Ok(()); } }
                        judge(&c, &f.data, &saved, &end)?;
                        if let End::Utf8 = end { return Ok(()); }
                        entries.fields.entry(p.source.headers.name.clone()).or_insert_with(Vec::new).push(SavedField { headers: p.source.headers, data: saved.unwrap() });
                    }
                    // a higher limit, or fewer entries
                    if r.chance(1, 2) && removed.is_empty() {
                        let mut names: Vec<_> = entries.fields.keys().cloned().collect();
                        names.sort();
                        let mut names = names.into_iter();
                        // all entries of the first names, in order
                        let mut cut = 0;
                        let want = r.range(1, names.len());
                        for _ in 0..want { let k = names.next().unwrap(); for s in entries.fields.remove(&k).unwrap() { removed.push((k.to_string(), s)); cut += 1; } }
                        if limit == 0 { limit = 1 }
                        let _ = cut;
                        // the name's fields that follow must come after those that were removed: see restore()
                    } else if limit < u32::MAX { limit += r.range(1, 3) as u32; }
                    kept = Some(entries);
                }
                PartialReason::SizeLimit | PartialReason::Utf8Error(_) => {
                    let mut p = match partial { Some(p) => p, None => return Err(format!("the field which was stopped by {:?} is not handed back", why)) };
                    ensure!(done < limit as usize, "field {} was saved with the count limit {}", done, limit);
                    let f = &q.fields[all];
                    heads_ok(&p.source.headers, f)?;
                    let c = fconf(&conf, f);
                    judge(&c, &f.data, &p.dest, &if let PartialReason::SizeLimit = why { End::Size } else { End::Utf8 })?;
                    let bytes = contents(p.dest.as_ref().unwrap())?;
                    if let Some(SavedData::File(ref path, _)) = p.dest { in_dir(path, &d)?; }
                    entries_ok_removed(&mut entries, &mut removed, &q.fields[..all], &conf, &d)?;
                    if r.chance(1, 2) {
                        let more = rest(&mut p.source.data)?;
                        ensure!([&bytes[..], &more].concat() == f.data, "what was saved and the rest of the field are not the field's data");
                    }
                    // keep_partial() keeps the prefix
                    let part = multipart::server::save::PartialEntries { entries, partial: Some(p) };
                    let kept_bytes = bytes;
                    let e = part.keep_partial();
                    let total: usize = e.fields.values().map(|v| v.len()).sum();
                    ensure!(total == done + 1 && e.fields_count() as usize == total, "keep_partial() gives {} entries (count {}), should be {}", total, e.fields_count(), done + 1);
                    let last = e.fields.get(&*f.name).and_then(|v| v.last()).ok_or("keep_partial() lost the field")?;
                    heads_ok(&last.headers, f)?;
                    ensure!(contents(&last.data)? == kept_bytes, "keep_partial() changed the data");
                    // resumes with the truncated field, which is then taken out: the rest must be as without it
                    return resume_truncated(r, &mut mp, e, &q, all, &conf, &d, faults, limit);
                }
                PartialReason::IoError(e) => {
                    ensure!(faults && e.to_string().contains("scheduled fault"), "the save was stopped by {:?}", e);
                    entries_ok_removed(&mut entries, &mut removed, &q.fields[..all], &conf, &d)?;
                    match partial {
                        None => {
                            // between fields; an error in the headers loses that field
                            if e.to_string() != "scheduled fault" { return Ok(()); }
                            kept = Some(entries);
                        }
                        Some(mut p) => {
                            ensure!(e.kind() != io::ErrorKind::Interrupted, "an interrupted read was not retried");
                            let f = &q.fields[all];
                            heads_ok(&p.source.headers, f)?;
                            let bytes = match p.dest { Some(ref d) => contents(d)?, None => vec![] };
                            let more = rest(&mut p.source.data)?;
                            ensure!([&bytes[..], &more].concat() == f.data, "what was saved (\"{}\") and the rest of the field (\"{}\") are not the field's data", show(&bytes), show(&more));
                            if not_whole(&conf, f) { return Ok(()); }
                            entries.fields.entry(p.source.headers.name.clone()).or_insert_with(Vec::new).push(SavedField { headers: p.source.headers, data: whole(&fconf(&conf, f), f.data.clone(), &d) });
                            kept = Some(entries);
                        }
                    }
                }
            }
        }
        Err("the save does not end".into())
    })();
    res.map_err(|m| format!("{}\n  stopped: {:?}\n  {}", m, stopped, what))?;
    Ok(Info { nontrivial: n > 0, hash: h, sample: format!("fields={} stopped={:?} {}", n, &stopped[..stopped.len().min(3)], what) })
}

/// A save of this field is not complete
fn not_whole(c: &Conf, f: &RField) -> bool {
    f.data.len() as u64 > c.limit || (fconf(c, f).text == Text::Force && std::str::from_utf8(&f.data).is_err())
}

/// Data that the caller saved
fn whole(c: &Conf, data: Vec<u8>, dir: &Path) -> SavedData {
    if data.len() as u64 > c.threshold {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let p = dir.join(format!("callersfile{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        std::fs::write(&p, &data).unwrap();
        return SavedData::File(p, data.len() as u64);
    }
    if c.text != Text::Ignore { match String::from_utf8(data) { Ok(s) => SavedData::Text(s), Err(e) => SavedData::Bytes(e.into_bytes()) } } else { SavedData::Bytes(data) }
}

/// Puts entries that were taken out back before the others of the same name
fn restore(mut e: Entries, removed: &mut Vec<(String, SavedField)>) -> Entries {
    if removed.is_empty() { return e; }
    for (k, s) in removed.drain(..).rev() {
        e.fields.entry(k.into()).or_insert_with(Vec::new).insert(0, s);
    }
    e.recount_fields();
    e
}

fn entries_ok_removed(e: &mut Entries, removed: &mut Vec<(String, SavedField)>, fields: &[RField], c: &Conf, d: &Path) -> Result<(), String> {
    if !removed.is_empty() { return Ok(()); }
    entries_ok(e, fields, c, d)
}

/// After a field was truncated by a limit: the save goes on with the next field.
fn resume_truncated(r: &mut Rng, mp: &mut Multipart<Sched>, mut e: Entries, q: &Req, mut all: usize, conf: &Conf, d: &Path, faults: bool, _limit: u32) -> Result<(), String> {
    let _ = r;
    let before: usize = e.fields.values().map(|v| v.len()).sum();
    let skipped = all + 1 - before;
    all += 1;
    for _ in 0..200 {
        match set(mp.save(), conf).count_limit(None).with_entries(e) {
            SaveResult::Full(e) => {
                let total: usize = e.fields.values().map(|v| v.len()).sum();
                ensure!(total + skipped == q.fields.len(), "{} fields after the save was resumed to its end, should be {}", total, q.fields.len() - skipped);
                ensure!(e.fields_count() as usize == total, "the count is {}, but there are {} fields", e.fields_count(), total);
                return Ok(());
            }
            SaveResult::Partial(p, why) => {
                let total: usize = p.entries.fields.values().map(|v| v.len()).sum();
                let at = total + skipped;
                ensure!(at >= all && at < q.fields.len() || (at == q.fields.len() && p.partial.is_none()), "the resumed save stopped after {} fields ({:?})", at, why);
                match why {
                    PartialReason::CountLimit => return Err("the count limit is reported, but none is set".into()),
                    PartialReason::IoError(ref x) => { ensure!(faults && x.to_string().contains("scheduled fault"), "the resumed save was stopped by {:?}", x); return Ok(()); }
                    _ => {}
                }
                let part = p.partial.as_ref().ok_or("the field that was stopped is not handed back")?;
                let f = &q.fields[at];
                heads_ok(&part.source.headers, f)?;
                judge(&fconf(conf, f), &f.data, &part.dest.as_ref().map(clone), &if let PartialReason::SizeLimit = why { End::Size } else { End::Utf8 })?;
                if let Some(SavedData::File(ref path, _)) = part.dest { in_dir(path, d)?; }
                all = at + 1;
                e = p.keep_partial();
            }
            SaveResult::Error(x) => return Err(format!("the resumed save failed: {:?}", x)),
        }
    }
    Err("the resumed save does not end".into())
}

pub fn c09(r: &mut Rng) -> Case {
    match r.below(8) {
        0 | 1 => sink_case(r),
        2 => fault_case(r),
        3 | 4 => request_case(r, false),
        _ => { let o = one(r); let c = gen_conf(r, o.data.len()); field_case(r, c, o) }
    }
}

pub fn c10(r: &mut Rng) -> Case {
    if r.chance(1, 5) { return request_case(r, false); }
    let o = one(r);
    let len = o.data.len();
    let mut c = gen_conf(r, len);
    if r.chance(1, 2) { c.limit = near_len(r, len); c.threshold = if r.chance(1, 2) { near_len(r, len) } else { near_len(r, c.limit.min(40_000) as usize) }; }
    field_case(r, c, o)
}

pub fn c11(r: &mut Rng) -> Case {
    if r.chance(1, 5) { return request_case(r, false); }
    let o = one(r);
    let mut c = gen_conf(r, o.data.len());
    if r.chance(2, 3) { c.threshold = *r.pick(&[u64::MAX, 40_000, o.data.len() as u64]); }
    if r.chance(2, 3) { c.limit = u64::MAX; }
    field_case(r, c, o)
}

/// More fields than a 16-bit count holds
fn many_fields(r: &mut Rng) -> Case {
    let n = 65_536 + r.below(3) as usize;
    let one = b"--b\r\nContent-Disposition: form-data; name=\"n\"\r\n\r\nx\r\n";
    let mut body = Vec::with_capacity((n + 1) * one.len());
    for _ in 0..n { body.extend_from_slice(one); }
    body.extend_from_slice(b"--b--\r\n");
    let limit = if r.chance(1, 2) { None } else { Some(n as u32) };
    let dir = scratch();
    let e = match Multipart::with_body(&body[..], "b").save().count_limit(limit).with_dir(dir.path()) {
        SaveResult::Full(e) => e,
        SaveResult::Partial(p, why) => return Err(format!("a save of {} fields with the count limit {:?} stops after {}: {:?}", n, limit, p.entries.fields_count(), why)),
        SaveResult::Error(e) => return Err(format!("a save of {} fields fails: {:?}", n, e)),
    };
    ensure!(e.fields_count() as usize == n && e.fields["n"].len() == n, "{} fields are saved as {} (count {})", n, e.fields["n"].len(), e.fields_count());
    Ok(Info { nontrivial: true, hash: n as u64, sample: format!("{} fields, limit {:?}", n, limit) })
}

pub fn c12(r: &mut Rng) -> Case { if r.chance(1, 12_000) { return many_fields(r); } let f = r.chance(1, 5); request_case(r, f) }

pub fn c16_save(r: &mut Rng) -> Case { if r.chance(1, 2) { fault_case(r) } else if r.chance(1, 3) { sink_case(r) } else { request_case(r, true) } }

// ---------- C13

pub fn c13(r: &mut Rng) -> Case {
    if r.chance(1, 3) { return c13_request(r); }
    let o = one(r);
    let mut conf = gen_conf(r, o.data.len());
    conf.threshold = *r.pick(&[0u64, 0, 5, 1000]);
    let steps = gen_steps(r, o.body.len());
    let dir = scratch();
    std::fs::write(dir.path().join("bystander"), b"untouched").unwrap();
    let how = r.below(7);
    let name = ["with_path(new)", "with_path(nested)", "with_path(existing)", "with_dir", "with_filename", "temp", "with_dir(missing)"][how];
    let what = desc(&conf, &steps, &o.data, name);
    let h = hash(&[what.as_bytes()]);
    let fname = format!("vxfile-{}", dir.path().file_name().unwrap().to_string_lossy());
    let existing = r.chance(1, 2);
    let res = (|| -> Result<(), String> {
        let mut mp = Multipart::with_body(Sched::new(o.body.clone(), steps), o.boundary.clone());
        let mut f = field_of(&mut mp)?;
        let mut b = set(f.data.save(), &conf);
        let tmp = std::env::temp_dir();
        let old = b"old contents, which are rather long".repeat(20);
        let (want, res): (Option<PathBuf>, _) = match how {
            0 => (Some(dir.path().join("new")), b.with_path(dir.path().join("new"))),
            1 => (Some(dir.path().join("p/q/r/new")), b.with_path(dir.path().join("p/q/r/new"))),
            2 => { let p = dir.path().join("exists"); std::fs::write(&p, &old).unwrap(); (Some(p.clone()), b.with_path(p)) }
            3 => (None, b.with_dir(dir.path())),
            4 => { let p = tmp.join(&fname); if existing { std::fs::write(&p, &old).unwrap(); } (Some(p), b.with_filename(&fname)) }
            5 => (None, b.temp()),
            _ => (None, b.with_dir(dir.path().join("m/n"))),
        };
        let parent: PathBuf = match how { 5 => tmp.clone(), 6 => dir.path().join("m/n"), _ => dir.path().into() };
        let (saved, end) = split(res)?;
        let exists = how == 2 || (how == 4 && existing);
        match saved {
            Some(SavedData::File(ref p, _)) => {
                ensure!(!exists, "saved to a file that exists");
                match want { Some(ref w) => ensure!(p == w, "the path is {:?}, should be {:?}", p, w), None => in_dir(p, &parent)? }
                judge(&conf, &o.data, &saved, &end)?;
                let list = dir.list();
                let files: Vec<_> = list.iter().filter(|x| x.1.is_some()).map(|x| dir.path().join(&x.0)).filter(|x| !x.ends_with("bystander")).collect();
                if how != 4 && how != 5 { ensure!(files == vec![p.clone()], "the files are {:?}, the reported path is {:?}", files, p); } else { ensure!(files.is_empty(), "files were made elsewhere: {:?}", files); let _ = std::fs::remove_file(p); }
            }
            Some(ref d) => {
                contents(d)?;
                match end { End::Io(ref e) => ensure!(exists && e.kind() == io::ErrorKind::AlreadyExists, "the save failed: {:?}", e), _ => judge(&conf, &o.data, &saved, &end)? }
            }
            None => match end { End::Start(ref e) => ensure!(exists && e.kind() == io::ErrorKind::AlreadyExists, "the save failed: {:?}", e), _ => unreachable!() },
        }
        if exists {
            let p = want.unwrap();
            ensure!(std::fs::read(&p).unwrap() == old, "an existing file was changed");
            if how == 4 { let _ = std::fs::remove_file(&p); }
        }
        ensure!(std::fs::read(dir.path().join("bystander")).unwrap() == b"untouched", "another file was changed");
        Ok(())
    })();
    let _ = std::fs::remove_file(std::env::temp_dir().join(&fname));
    res.map_err(|m| format!("{}\n  {}", m, what))?;
    Ok(Info { nontrivial: o.data.len() as u64 > conf.threshold, hash: h, sample: what })
}

/// All files of a request save are in its directory, and nowhere else.
fn c13_request(r: &mut Rng) -> Case {
    let q = request(r, 6);
    let mut conf = gen_conf(r, 60);
    conf.threshold = *r.pick(&[0u64, 0, 5]);
    let steps = gen_steps(r, q.body.len());
    let scr = scratch();
    let how = r.below(4);
    std::fs::create_dir(scr.path().join("e")).unwrap();
    std::fs::write(scr.path().join("e/bystander"), b"untouched").unwrap();
    let dir = match how { 0 => scr.path().join("new/deep"), _ => scr.path().join("e") };
    let what = rdesc(&conf, u32::MAX, &steps, &q, ["with_dir(new)", "with_dir(existing)", "with_temp_dir", "with_entries"][how]);
    let h = hash(&[what.as_bytes()]);
    let res = (|| -> Result<(), String> {
        let mut mp = Multipart::with_body(Sched::new(q.body.clone(), steps), q.boundary.clone());
        let b = set(mp.save(), &conf).count_limit(None);
        let (dir, res) = match how {
            0 | 1 => (dir.clone(), b.with_dir(&dir)),
            2 => { let t = tempfile::Builder::new().tempdir_in(scr.path().join("e")).unwrap(); (t.path().to_path_buf(), b.with_temp_dir(t)) }
            _ => (dir.clone(), b.with_entries(Entries::new(SaveDir::Perm(dir.clone())))),
        };
        let mut paths = vec![];
        let keep;
        let keep2;
        let e: &Entries = match res {
            SaveResult::Full(e) => { keep = e; &keep }
            SaveResult::Partial(p, _) => {
                if let Some(SavedData::File(ref x, _)) = p.partial.as_ref().and_then(|p| p.dest.as_ref()) { paths.push(x.clone()); }
                keep2 = p;
                &keep2.entries
            }
            SaveResult::Error(e) => return Err(format!("the save failed: {:?}", e)),
        };
        ensure!(e.save_dir.as_path() == dir, "the save directory is {:?}, should be {:?}", e.save_dir.as_path(), dir);
        for s in e.fields.values().flatten() { if let SavedData::File(ref p, _) = s.data { paths.push(p.clone()); } }
        for p in &paths { in_dir(p, &dir)?; }
        let n = paths.len();
        paths.sort();
        paths.dedup();
        ensure!(paths.len() == n, "two fields are in the same file");
        let mut files: Vec<_> = scr.list().into_iter().filter(|x| x.1.is_some()).map(|x| scr.path().join(x.0)).filter(|x| !x.ends_with("bystander")).collect();
        files.sort();
        ensure!(files == paths, "the files are {:?}, the reported ones {:?}", files, paths);
        ensure!(std::fs::read(scr.path().join("e/bystander")).unwrap() == b"untouched", "another file was changed");
        Ok(())
    })();
    res.map_err(|m| format!("{}\n  {}", m, what))?;
    Ok(Info { nontrivial: !q.fields.is_empty(), hash: h, sample: what })
}

// ---------- C19

pub fn c19(r: &mut Rng) -> Case {
    let q = request(r, 5);
    let mut conf = gen_conf(r, 60);
    conf.threshold = *r.pick(&[0u64, 0, 5]);
    let steps = gen_steps(r, q.body.len());
    let scr = scratch();
    let how = r.below(5);
    let then = r.below(7);
    let count = if r.chance(1, 4) { r.range(0, 3) as u32 } else { u32::MAX };
    let cut = r.chance(1, 6);
    let what = format!("then {} {}", ["drop", "keep and drop", "into_path", "delete", "keep, keep and delete", "drop without a look", "keep, into_path"][then], rdesc(&conf, count, &steps, &q, ["temp", "temp_with_prefix", "with_temp_dir", "with_dir", "with_entries(temporary)"][how]));
    let h = hash(&[what.as_bytes()]);
    let res = (|| -> Result<(), String> {
        let mut body = q.body.clone();
        if cut { let n = body.len(); body.truncate(n - n / 4 - 1); }
        let mut mp = Multipart::with_body(Sched::new(body, steps), q.boundary.clone());
        let b = set(mp.save(), &conf).count_limit(count);
        let res = match how {
            0 => b.temp(),
            1 => b.temp_with_prefix("vxq"),
            2 => b.with_temp_dir(tempfile::Builder::new().tempdir_in(scr.path()).unwrap()),
            3 => b.with_dir(scr.path().join("perm")),
            _ => b.with_entries(Entries::new(SaveDir::Temp(tempfile::Builder::new().tempdir_in(scr.path()).unwrap()))),
        };
        let temp = how != 3;
        let path = match res { SaveResult::Full(ref e) => e.save_dir.as_path().to_path_buf(), SaveResult::Partial(ref p, _) => p.entries.save_dir.as_path().to_path_buf(), SaveResult::Error(e) => return Err(format!("the save failed: {:?}", e)) };
        ensure!(path.is_dir(), "the save directory {:?} does not exist", path);
        std::fs::write(path.join("more"), b"x").unwrap();
        std::fs::create_dir(path.join("sub")).unwrap();
        std::fs::write(path.join("sub/x"), b"x").unwrap();
        let names = |p: &Path| { let mut v: Vec<_> = std::fs::read_dir(p).unwrap().map(|e| e.unwrap().file_name()).collect(); v.sort(); v };
        let before = names(&path);
        let nfiles = match res { SaveResult::Full(ref e) => count_files(e), SaveResult::Partial(ref p, _) => count_files(&p.entries) + p.partial.as_ref().map_or(0, |p| matches!(p.dest, Some(SavedData::File(..))) as usize), _ => 0 };
        ensure!(before.len() == nfiles + 2, "{} files were saved, the directory has {:?}", nfiles, before);
        let gone = |p: &Path, want: bool, when: &str| -> Result<(), String> {
            ensure!(p.exists() != want, "the {} directory {} {}", if temp { "temporary" } else { "permanent" }, if want { "still exists" } else { "is gone" }, when);
            if !want { ensure!(names(p) == before, "the directory's contents are not complete {}: {:?}, were {:?}", when, names(p), before); }
            Ok(())
        };
        if then == 5 {
            drop(res);
            gone(&path, temp, "after the result was dropped")?;
        } else {
            let mut e = match res { SaveResult::Full(e) => e, SaveResult::Partial(p, _) => if r.chance(1, 2) { p.keep_partial() } else { p.into() }, _ => unreachable!() };
            gone(&path, false, "while the entries exist")?;
            ensure!(e.save_dir.is_temporary() == temp && e.save_dir.as_path() == path && e.save_dir.as_ref() as &Path == path, "the directory is reported as {:?}", e.save_dir);
            match then {
                0 => { drop(e); gone(&path, temp, "after the entries were dropped")?; }
                1 => {
                    e.save_dir.keep();
                    ensure!(!e.save_dir.is_temporary() && e.save_dir.as_path() == path, "after keep() the directory is reported as {:?}", e.save_dir);
                    gone(&path, false, "after keep()")?;
                    drop(e);
                    gone(&path, false, "after keep() and drop")?;
                }
                2 => { let p = e.save_dir.into_path(); ensure!(p == path, "into_path() is {:?}, should be {:?}", p, path); gone(&path, false, "after into_path()")?; }
                3 => { e.save_dir.delete().map_err(|e| format!("delete() failed: {:?}", e))?; gone(&path, true, "after delete()")?; }
                4 => { e.save_dir.keep(); e.save_dir.keep(); ensure!(e.save_dir.as_path() == path, "keep() twice: {:?}", e.save_dir); gone(&path, false, "after keep() twice")?; e.save_dir.delete().map_err(|e| format!("delete() failed: {:?}", e))?; gone(&path, true, "after delete()")?; }
                _ => { e.save_dir.keep(); let p = e.save_dir.into_path(); ensure!(p == path, "into_path() is {:?}, should be {:?}", p, path); gone(&path, false, "after into_path()")?; }
            }
        }
        if path.exists() && path.starts_with(std::env::temp_dir()) { let _ = std::fs::remove_dir_all(&path); }
        Ok(())
    })();
    res.map_err(|m| format!("{}\n  {}", m, what))?;
    Ok(Info { nontrivial: true, hash: h, sample: what })
}

fn count_files(e: &Entries) -> usize { e.fields.values().flatten().filter(|s| matches!(s.data, SavedData::File(..))).count() }
