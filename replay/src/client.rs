//! C05 to C08, C17, C18.
use crate::ensure;
use crate::util::*;
use multipart::client::lazy;
use multipart::client::{HttpRequest, HttpStream, Multipart, SizedRequest};
use multipart::mock::{ClientRequest, HttpBuffer, ServerRequest, StdoutTee};
use multipart::server;
use std::io::{self, Read, Write};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

// ---------- a request which records what happens to it

#[derive(Clone, Debug, PartialEq)]
pub enum Event { Headers(String, Option<u64>), Open, Finish }

#[derive(Default)]
pub struct Log { events: Vec<Event>, got: Vec<u8> }

pub struct Req { log: Arc<Mutex<Log>>, refuse: bool, no_open: bool, no_finish: bool, steps: Vec<Step>, fail_at: usize, zero: bool, kind: io::ErrorKind }
pub struct Stream { req: Req, at: usize }

#[derive(Debug)]
pub struct Sent(Vec<u8>);

/// The error type of the request, to be told from `io::Error`
#[derive(Debug)]
pub struct ReqError(io::Error);
impl From<io::Error> for ReqError { fn from(e: io::Error) -> Self { ReqError(e) } }

impl HttpRequest for Req {
    type Stream = Stream;
    type Error = ReqError;
    fn apply_headers(&mut self, boundary: &str, content_len: Option<u64>) -> bool {
        self.log.lock().unwrap().events.push(Event::Headers(boundary.into(), content_len));
        !self.refuse
    }
    fn open_stream(self) -> Result<Stream, ReqError> {
        self.log.lock().unwrap().events.push(Event::Open);
        if self.no_open { return Err(ReqError(io::Error::new(self.kind, "scheduled fault: open"))); }
        Ok(Stream { req: self, at: 0 })
    }
}

impl Write for Stream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut l = self.req.log.lock().unwrap();
        let step = self.req.steps[self.at % self.req.steps.len()];
        self.at += 1;
        match step {
            Step::Fail(k) => Err(io::Error::new(k, "scheduled fault: sink")),
            Step::Max(n) => {
                let n = n.min(b.len()).min(self.req.fail_at - l.got.len());
                if n == 0 && !b.is_empty() {
                    return if self.req.zero { Ok(0) } else { Err(io::Error::new(self.req.kind, "scheduled fault: sink")) };
                }
                l.got.extend_from_slice(&b[..n]);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

impl HttpStream for Stream {
    type Request = Req;
    type Response = Sent;
    type Error = ReqError;
    fn finish(self) -> Result<Sent, ReqError> {
        let mut l = self.req.log.lock().unwrap();
        l.events.push(Event::Finish);
        if self.req.no_finish { return Err(ReqError(io::Error::new(self.req.kind, "scheduled fault: finish"))); }
        Ok(Sent(l.got.clone()))
    }
}

impl Req {
    fn new(steps: Vec<Step>) -> (Req, Arc<Mutex<Log>>) {
        let log = Arc::new(Mutex::new(Log::default()));
        (Req { log: log.clone(), refuse: false, no_open: false, no_finish: false, steps, fail_at: usize::MAX, zero: false, kind: io::ErrorKind::Other }, log)
    }
}

// ---------- fields

pub enum Kind { Text, File(PathBuf), Stream(Vec<Step>) }
pub struct Field { pub name: String, pub filename: Option<String>, pub ctype: Option<String>, given: Option<String>, pub data: Vec<u8>, pub kind: Kind, pub bad: bool, pub fault: io::ErrorKind }

const EXTS: &[(&str, &str)] = &[(".txt", "text/plain"), (".html", "text/html"), (".png", "image/png"), (".json", "application/json"), (".jpg", "image/jpeg"), (".pdf", "application/pdf"), (".zip", "application/zip"), (".vxunknown", "application/octet-stream"), ("", "application/octet-stream"), ("", "application/octet-stream"), (".", "application/octet-stream"), ("..", "application/octet-stream"), (".css", "text/css"), (".gif", "image/gif"), (".txt.png", "image/png"), (".png.txt", "text/plain"), (".mp3", "audio/mpeg"), (".xml", "text/xml"), (".TXT", "text/plain"), (".tar.vxunknown", "application/octet-stream")];
const NAMES: &[&str] = &["a", "b", "field one", "é", "x;y", "日本", "a=b", "name=", "; filename=", "", "a'b", "p%q", "{}", "{0}", "a, b", " pad ", "tab\there", "<b>", "\u{feff}", "e\u{301}", "\u{a0}x\u{a0}", "\\", "C:\\x", "%41", "+", "&amp;", "name[]", "\u{130}", "A"];

pub fn steps_for(r: &mut Rng, len: usize, faults: &[io::ErrorKind]) -> Vec<Step> {
    let s = gen_steps(r, len);
    if !faults.is_empty() && r.chance(1, 2) { add_faults(r, s, faults) } else { s }
}

pub fn gen_fields(r: &mut Rng, dir: &Scratch, faults: &[io::ErrorKind]) -> Vec<Field> {
    let n = match r.below(6) { 0 => 0, 1 => 1, 2 => 2, 3 => 3, _ => r.range(1, 8) };
    (0..n).map(|i| {
        let name = r.pick(NAMES).to_string();
        // (the boundary is not known yet; 16 random characters will not be in it)
        let mut data = if r.chance(1, 2) { gen_data(r, b"--AaB03x") } else { let n = r.range(0, 60); (0..n).map(|_| r.next() as u8).collect() };
        if r.chance(1, 20) { data = vec![b'z'; 100_000]; }
        match r.below(3) {
            0 => {
                let data = String::from_utf8_lossy(&data).into_owned().into_bytes();
                Field { name, filename: None, ctype: None, given: None, data, kind: Kind::Text, bad: false, fault: io::ErrorKind::Other }
            }
            1 => {
                let ext = r.pick(EXTS).0;
                let stem = match r.below(12) { 0 => "n".repeat(r.range(1, 200)), _ => r.pick(&["f", "my file", "é", "a;b", "x=y", "日本", "{}", ".hidden", ".", "..", ".a.vxb", " lead", "trail ", "'q'", "per%20cent", "tar.vxgz", "-", "~", "#1", "UPPER", "txt", "a,b", "a:b", "*"]).to_string() };
                let sub = dir.path().join(format!("d{}", i));
                std::fs::create_dir(&sub).unwrap();
                let fname = format!("{}{}", stem, ext);
                // what has no name is no file, and what has no stem has no extension
                let fname = if fname.chars().all(|c| c == '.') { format!("{}vxvx", fname) } else { fname };
                let ct = match fname.rfind('.') { None | Some(0) => "application/octet-stream".to_string(), Some(i) if i + 1 == fname.len() => "application/octet-stream".to_string(), Some(i) => EXTS.iter().find(|e| e.0 == &fname[i..]).map_or("application/octet-stream", |e| e.1).to_string() };
                let path = sub.join(&fname);
                if r.chance(1, 6) {
                    // what a link names is sent, with the name of the link
                    let at = sub.join("the file itself");
                    std::fs::write(&at, &data).unwrap();
                    std::os::unix::fs::symlink(&at, &path).unwrap();
                } else {
                    std::fs::write(&path, &data).unwrap();
                }
                Field { name, filename: Some(fname), ctype: Some(ct), given: None, data, kind: Kind::File(path), bad: false, fault: io::ErrorKind::Other }
            }
            _ => {
                let filename = if r.chance(1, 2) { Some(r.pick(&["s.bin", "a b", "é.txt", "", "x;y", "{}"]).to_string()) } else { None };
                let given = if r.chance(1, 2) { Some(r.pick(&["text/plain", "image/png", "text/plain; charset=utf-8", "application/x-foo"]).to_string()) } else { None };
                let steps = steps_for(r, data.len(), faults);
                Field { name, filename, ctype: Some(given.clone().unwrap_or_else(|| "application/octet-stream".into())), given, data, kind: Kind::Stream(steps), bad: false, fault: io::ErrorKind::Other }
            }
        }
    }).collect()
}

pub fn describe(fields: &[Field], how: &str) -> String {
    let f: Vec<String> = fields.iter().map(|f| format!("{:?} {} filename={:?} type={:?} data({})=\"{}\"", f.name, match f.kind { Kind::Text => "text".into(), Kind::File(_) => "file".to_string(), Kind::Stream(ref s) => format!("stream{:?}", &s[..s.len().min(4)]) }, f.filename, f.ctype, f.data.len(), show(&f.data))).collect();
    format!("{} fields=[{}]", how, f.join("; "))
}

/// The part's bytes, from the delimiter on
fn part(f: &Field, boundary: &str) -> Vec<u8> {
    let mut v = format!("--{}\r\nContent-Disposition: form-data; name=\"{}\"", boundary, f.name).into_bytes();
    if let Some(ref n) = f.filename { v.extend(format!("; filename=\"{}\"", n).into_bytes()); }
    if let Some(ref c) = f.ctype { v.extend(format!("\r\nContent-Type: {}", c).into_bytes()); }
    v.extend_from_slice(b"\r\n\r\n");
    v.extend_from_slice(&f.data);
    v
}

pub fn boundary_ok(b: &str) -> Result<(), String> {
    ensure!(b.len() == 16 && b.bytes().all(|c| c.is_ascii_alphanumeric()), "the boundary is {:?}", b);
    Ok(())
}

/// What the streaming client has to write
pub fn framed(fields: &[Field], boundary: &str) -> Vec<u8> {
    let mut v = vec![];
    for f in fields { v.extend(part(f, boundary)); v.extend_from_slice(b"\r\n"); }
    v.extend(format!("--{}--", boundary).into_bytes());
    v
}

fn same(got: &[u8], want: &[u8], what: &str) -> Result<(), String> {
    if got == want { return Ok(()); }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!("{} differs from byte {} of {} on: \"{}\", should be ({} bytes) \"{}\"", what, i, got.len(), show(&got[i..]), want.len(), show(&want[i..])))
}

/// The body is the fields, in order, and the closing delimiter
pub fn stream_body_ok(got: &[u8], fields: &[Field], boundary: &str) -> Result<(), String> {
    let want = framed(fields, boundary);
    same(&got[..got.len().min(want.len())], &want, "the body")?;
    ensure!(got.len() == want.len() || &got[want.len()..] == b"\r\n", "the closing delimiter is followed by \"{}\"", show(&got[want.len()..]));
    Ok(())
}

/// A source which fails hard when `bad`
struct Src { s: Sched, fail_after: Option<usize>, kind: io::ErrorKind }
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if let Some(n) = self.fail_after { if self.s.pos >= n { return Err(io::Error::new(self.kind, "scheduled fault: source")); } let k = b.len().min(n - self.s.pos); return self.s.read(&mut b[..k]); }
        self.s.read(b)
    }
}
fn src(f: &Field, steps: &[Step]) -> Src {
    Src { s: Sched::new(f.data.clone(), steps.to_vec()), fail_after: if f.bad { Some(f.data.len() / 2) } else { None }, kind: f.fault }
}

/// Writes the fields with the streaming client; `Err(i)`: the call for field `i` failed
pub fn write_all<S: HttpStream>(r: &mut Rng, mp: &mut Multipart<S>, fields: &[Field]) -> Result<(), (usize, S::Error)> {
    let _ = r;
    for (i, f) in fields.iter().enumerate() {
        let res = match f.kind {
            Kind::Text => mp.write_text(&f.name, std::str::from_utf8(&f.data).unwrap()).map(|_| ()),
            Kind::File(ref p) => mp.write_file(&f.name, p).map(|_| ()),
            Kind::Stream(ref s) => mp.write_stream(&f.name, &mut src(f, s), f.filename.as_deref(), f.given.as_ref().map(|c| c.parse().unwrap())).map(|_| ()),
        };
        if let Err(e) = res { return Err((i, e)); }
    }
    Ok(())
}

pub fn add_all<'n, 'd>(mp: &mut lazy::Multipart<'n, 'd>, fields: &'n [Field]) {
    for f in fields {
        match f.kind {
            Kind::Text => { mp.add_text(&f.name[..], String::from_utf8(f.data.clone()).unwrap()); }
            Kind::File(ref p) => { mp.add_file(&f.name[..], std::borrow::Cow::<std::path::Path>::Owned(p.clone())); }
            Kind::Stream(ref s) => { mp.add_stream(&f.name[..], src(f, s), f.filename.as_deref(), f.given.as_ref().map(|c| c.parse().unwrap())); }
        }
    }
}

pub const INT: &[io::ErrorKind] = &[io::ErrorKind::Interrupted];

pub fn c05(r: &mut Rng) -> Case {
    let dir = scratch();
    let fields = gen_fields(r, &dir, INT);
    let sized = r.chance(1, 3);
    let steps = steps_for(r, 500, INT);
    let what = describe(&fields, &format!("{} sink={:?}", if sized { "sized" } else { "streaming" }, &steps[..steps.len().min(5)]));
    let h = hash(&[what.as_bytes()]);
    let (req, log) = Req::new(steps);
    let res = (|| -> Result<(), String> {
        let sent = if sized {
            let mut mp = Multipart::from_request_sized(req).map_err(|e| format!("{:?}", e))?;
            write_all(r, &mut mp, &fields).map_err(|e| format!("field {}: {:?}", e.0, e.1))?;
            mp.send().map_err(|e| format!("{:?}", e))?
        } else {
            let mut mp = Multipart::from_request(req).map_err(|e| format!("{:?}", e))?;
            write_all(r, &mut mp, &fields).map_err(|e| format!("field {}: {:?}", e.0, e.1))?;
            mp.send().map_err(|e| format!("{:?}", e))?
        };
        let l = log.lock().unwrap();
        let boundary = match l.events[0] { Event::Headers(ref b, _) => b.clone(), _ => return Err(format!("events {:?}", l.events)) };
        boundary_ok(&boundary)?;
        stream_body_ok(&sent.0, &fields, &boundary)?;
        // another request has another boundary
        let (req2, log2) = Req::new(vec![Step::Max(usize::MAX)]);
        let _ = Multipart::from_request(req2).map_err(|e| format!("{:?}", e))?;
        let l2 = log2.lock().unwrap();
        if let Event::Headers(ref b, _) = l2.events[0] { ensure!(*b != boundary, "two requests have the same boundary {:?}", b); }
        Ok(())
    })();
    res.map_err(|m| format!("{}\n  {}", m, what))?;
    Ok(Info { nontrivial: !fields.is_empty(), hash: h, sample: what })
}

/// The body of the lazy client: the fields in some order (those of the same kind may be reordered), one closing delimiter
pub fn lazy_body_ok(got: &[u8], fields: &[Field], boundary: &str) -> Result<(), String> {
    let start = if got.starts_with(b"\r\n") { 2 } else { 0 };
    let mut rest = &got[start..];
    let mut left: Vec<(usize, Vec<u8>)> = fields.iter().enumerate().map(|(i, f)| { let mut p = part(f, boundary); p.extend_from_slice(format!("\r\n--{}", boundary).as_bytes()); (i, p) }).collect();
    let delim = format!("--{}", boundary).into_bytes();
    while !left.is_empty() {
        match left.iter().position(|p| rest.starts_with(&p.1)) {
            Some(i) => { let p = left.remove(i); rest = &rest[p.1.len() - delim.len()..]; }
            None => return Err(format!("at byte {} of the body none of the {} missing fields follows (first missing: {:?}): \"{}\"", got.len() - rest.len(), left.len(), fields[left[0].0].name, show(rest))),
        }
    }
    let end = [&delim[..], b"--"].concat();
    ensure!(rest == &end[..] || rest == &[&end[..], b"\r\n"].concat()[..], "the fields are followed by \"{}\"", show(rest));
    Ok(())
}

fn prepare<'n, 'd>(mp: &mut lazy::Multipart<'n, 'd>) -> Result<lazy::PreparedFields<'d>, String> {
    mp.prepare().map_err(|e| format!("prepare() failed: {:?}", e))
}

pub fn c06(r: &mut Rng) -> Case {
    let dir = scratch();
    let faults: &[io::ErrorKind] = if r.chance(1, 2) { crate::parse::FAULTS } else { &[] };
    let fields = gen_fields(r, &dir, faults);
    let style = r.below(5);
    let what = describe(&fields, &format!("lazy, read style {}", style));
    let h = hash(&[what.as_bytes()]);
    let res = (|| -> Result<(), String> {
        let mut mp = lazy::Multipart::new();
        add_all(&mut mp, &fields);
        let mut p = prepare(&mut mp)?;
        let boundary = p.boundary().to_string();
        boundary_ok(&boundary)?;
        let mut got = vec![];
        let mut zero = 0;
        let mut calls = 0u64;
        loop {
            calls += 1;
            ensure!(calls < 3_000_000, "the body does not end");
            let n = match style { 0 => 1, 1 => 8192, 2 => *r.pick(&[1, 2, 15, 16, 17, 60, 100]), 3 => r.range(0, 40), _ => r.range(1, 5000) };
            let mut b = vec![0xA5; n];
            match p.read(&mut b) {
                Ok(k) => {
                    ensure!(k <= n, "read() returned {} for a buffer of {}", k, n);
                    ensure!(b[k..].iter().all(|&x| x == 0xA5), "read() returned {}, but wrote more", k);
                    got.extend_from_slice(&b[..k]);
                    if k == 0 && n > 0 { zero += 1; if zero == 1 { lazy_body_ok(&got, &fields, &boundary).map_err(|m| format!("when end of file is reported: {}", m))?; } if zero == 4 { break; } }
                    else if k > 0 { ensure!(zero == 0, "{} bytes after end of file", k); }
                }
                Err(e) => ensure!(e.to_string() == "scheduled fault", "unexpected error: {:?}", e),
            }
        }
        lazy_body_ok(&got, &fields, &boundary)
    })();
    res.map_err(|m| format!("{}\n  {}", m, what))?;
    Ok(Info { nontrivial: !fields.is_empty(), hash: h, sample: what })
}

pub fn c07(r: &mut Rng) -> Case {
    let dir = scratch();
    let mut fields = gen_fields(r, &dir, INT);
    if r.chance(1, 2) { fields.retain(|f| !matches!(f.kind, Kind::Stream(_))); }
    let how = r.below(4);
    let what = describe(&fields, ["sized", "lazy, read", "lazy, send", "streaming"][how]);
    let h = hash(&[what.as_bytes()]);
    let streams = fields.iter().any(|f| matches!(f.kind, Kind::Stream(_)));
    let (req, log) = Req::new(steps_for(r, 500, INT));
    let res = (|| -> Result<(), String> {
        let (declared, body, lazy) = match how {
            0 => {
                let mut mp = Multipart::from_request_sized(req).map_err(|e| format!("{:?}", e))?;
                write_all(r, &mut mp, &fields).map_err(|e| format!("field {}: {:?}", e.0, e.1))?;
                let b = mp.send().map_err(|e| format!("{:?}", e))?.0;
                (None, b, false)
            }
            1 => {
                let mut mp = lazy::Multipart::new();
                add_all(&mut mp, &fields);
                let mut p = prepare(&mut mp)?;
                let n = p.content_len();
                let mut v = vec![];
                p.read_to_end(&mut v).map_err(|e| format!("{:?}", e))?;
                ensure!(p.content_len() == n, "the declared length changed");
                (Some(n), v, true)
            }
            2 => {
                let mut mp = lazy::Multipart::new();
                add_all(&mut mp, &fields);
                let b = mp.send(req).map_err(|e| format!("{:?}", e))?.0;
                (None, b, true)
            }
            _ => {
                let mut mp = Multipart::from_request(req).map_err(|e| format!("{:?}", e))?;
                write_all(r, &mut mp, &fields).map_err(|e| format!("field {}: {:?}", e.0, e.1))?;
                (None, mp.send().map_err(|e| format!("{:?}", e))?.0, false)
            }
        };
        let declared = match declared { Some(d) => d, None => {
            let l = log.lock().unwrap();
            let all: Vec<_> = l.events.iter().filter_map(|e| if let Event::Headers(_, n) = e { Some(*n) } else { None }).collect();
            ensure!(all.len() == 1, "headers were applied {} times", all.len());
            all[0]
        } };
        match declared {
            Some(n) => {
                ensure!(n == body.len() as u64, "the declared length is {}, the body has {} bytes", n, body.len());
                ensure!(!(lazy && streams), "a length is declared although a field is a stream");
            }
            None => ensure!(how == 3 || (lazy && streams), "no length is declared"),
        }
        Ok(())
    })();
    res.map_err(|m| format!("{}\n  {}", m, what))?;
    Ok(Info { nontrivial: true, hash: h, sample: what })
}

pub fn c08(r: &mut Rng) -> Case {
    let dir = scratch();
    let fields = gen_fields(r, &dir, INT);
    let how = r.below(5);
    let what = describe(&fields, ["streaming", "sized", "lazy", "lazy, read", "mock"][how]);
    let h = hash(&[what.as_bytes()]);
    let (req, log) = Req::new(steps_for(r, 500, INT));
    let res = (|| -> Result<(), String> {
        let mut bnd = None;
        let body = match how {
            0 => {
                let mut mp = Multipart::from_request(req).map_err(|e| format!("{:?}", e))?;
                write_all(r, &mut mp, &fields).map_err(|e| format!("field {}: {:?}", e.0, e.1))?;
                mp.send().map_err(|e| format!("{:?}", e))?.0
            }
            1 => {
                let mut mp = Multipart::from_request_sized(req).map_err(|e| format!("{:?}", e))?;
                write_all(r, &mut mp, &fields).map_err(|e| format!("field {}: {:?}", e.0, e.1))?;
                mp.send().map_err(|e| format!("{:?}", e))?.0
            }
            2 => {
                let mut mp = lazy::Multipart::new();
                add_all(&mut mp, &fields);
                mp.send(req).map_err(|e| format!("{:?}", e))?.0
            }
            3 => {
                let mut mp = lazy::Multipart::new();
                add_all(&mut mp, &fields);
                let mut p = prepare(&mut mp)?;
                bnd = Some(p.boundary().to_string());
                let mut v = vec![];
                p.read_to_end(&mut v).map_err(|e| format!("{:?}", e))?;
                v
            }
            _ => {
                let mut mp = Multipart::from_request(ClientRequest::default()).map_err(|e| format!("{:?}", e))?;
                write_all(r, &mut mp, &fields).map_err(|e| format!("field {}: {:?}", e.0, e.1))?;
                let b: HttpBuffer = mp.send().map_err(|e| format!("{:?}", e))?;
                bnd = Some(b.boundary.clone());
                b.buf
            }
        };
        let boundary = match bnd { Some(b) => b, None => match log.lock().unwrap().events[0] { Event::Headers(ref b, _) => b.clone(), _ => return Err("no headers".into()) } };
        let steps = gen_steps(r, body.len());
        let mut mp = server::Multipart::with_body(Sched::new(body.clone(), steps), boundary);
        let mut left: Vec<&Field> = fields.iter().collect();
        let lazy = how == 2 || how == 3;
        while let Some(mut f) = server::Multipart::read_entry(&mut mp).map_err(|e| format!("the server reports {:?} after {} of {} fields", e, fields.len() - left.len(), fields.len()))? {
            let mut data = vec![];
            f.data.read_to_end(&mut data).map_err(|e| format!("{:?}", e))?;
            let is = |x: &&Field| *f.headers.name == *x.name && f.headers.filename == x.filename && f.headers.content_type.as_ref().map(|c| c.to_string()) == x.ctype && data == x.data;
            let at = if lazy { left.iter().position(is) } else { left.first().filter(|x| is(x)).map(|_| 0) };
            match at {
                Some(i) => { left.remove(i); }
                None => return Err(format!("the server reads {:?} with the data \"{}\", which {} (next: {:?})", f.headers, show(&data), if lazy { "is none of the missing fields" } else { "is not the next field" }, left.first().map(|x| &x.name))),
            }
        }
        ensure!(left.is_empty(), "the server reports the end, but {} of {} fields are missing", left.len(), fields.len());
        Ok(())
    })();
    res.map_err(|m| format!("{}\n  {}", m, what))?;
    Ok(Info { nontrivial: !fields.is_empty(), hash: h, sample: what })
}

pub fn c17(r: &mut Rng) -> Case {
    let dir = scratch();
    let mut fields = gen_fields(r, &dir, INT);
    let how = r.below(3);
    let (mut req, log) = Req::new(steps_for(r, 500, INT));
    // what goes wrong
    let fault = r.below(9);
    let hard = loop { let k = *r.pick(crate::parse::FAULTS); if k != io::ErrorKind::Interrupted { break k; } };
    req.kind = hard;
    let mut name = "nothing fails";
    match fault {
        0 => { req.refuse = true; name = "the headers are refused" }
        1 => { req.no_open = true; name = "the stream cannot be opened" }
        2 => { req.no_finish = true; name = "the stream cannot be finished" }
        3 | 4 => {
            // somewhere in the body
            let total = framed(&fields, "0123456789abcdef").len();
            req.fail_at = match r.below(4) { 0 => r.range(0, 30).min(total - 1), 1 => total - 1 - r.below(30).min(total - 1), _ => r.below(total) };
            req.zero = r.chance(1, 4);
            name = "the sink fails";
        }
        5 => { if let Some(f) = fields.iter_mut().find(|f| matches!(f.kind, Kind::Stream(_))) { f.bad = true; f.fault = hard; name = "a source fails" } }
        6 => { let k = r.below(3); let mut n = 0; for f in fields.iter_mut() { if let Kind::File(ref p) = f.kind { if n == k || n == 0 { std::fs::remove_file(p).unwrap(); f.bad = true; name = "a file is missing"; if n == k { break } } n += 1; } } }
        7 => { if let Some(f) = fields.iter_mut().find(|f| matches!(f.kind, Kind::File(_))) { if let Kind::File(ref p) = f.kind { std::fs::remove_file(p).unwrap(); std::fs::create_dir(p).unwrap(); f.bad = true; name = "a file is a directory" } } }
        _ => {}
    }
    let fails = name != "nothing fails";
    let what = describe(&fields, &format!("{}, {}{}", ["streaming", "sized", "lazy"][how], name, if req.fail_at < usize::MAX { format!(" after {} bytes", req.fail_at) } else { String::new() }));
    let h = hash(&[what.as_bytes()]);
    let first_bad = fields.iter().position(|f| f.bad);
    let res = (|| -> Result<(), String> {
        // (did a call fail, name in the error, the response)
        let (err, lazy_name, resp): (Option<String>, Option<Option<String>>, Option<Sent>) = match how {
            0 => match Multipart::from_request(req) {
                Err(e) => { ensure!(matches!(fault, 0 | 1), "from_request() failed: {:?}", e); (Some(format!("{:?}", e)), None, None) }
                Ok(mut mp) => {
                    ensure!(!matches!(fault, 0 | 1), "from_request() succeeded, but {}", name);
                    match write_all(r, &mut mp, &fields) {
                        Err((i, e)) => { if let Some(b) = first_bad { ensure!(i == b, "the call for field {} failed, should be {}", i, b); } (Some(format!("{:?}", e)), None, None) }
                        Ok(()) => { ensure!(first_bad.is_none(), "all fields were written, but {}", name); match mp.send() { Ok(s) => (None, None, Some(s)), Err(e) => (Some(format!("{:?}", e)), None, None) } }
                    }
                }
            },
            1 => {
                let mut mp = Multipart::from_request_sized(req).map_err(|e| format!("{:?}", e))?;
                match write_all(r, &mut mp, &fields) {
                    Err((i, e)) => { ensure!(first_bad == Some(i), "the call for field {} failed, should be {:?}", i, first_bad); (Some(format!("{:?}", e)), None, None) }
                    Ok(()) => { ensure!(first_bad.is_none(), "all fields were written, but {}", name); match mp.send() { Ok(s) => (None, None, Some(s)), Err(e) => (Some(format!("{:?}", e)), None, None) } }
                }
            }
            _ => {
                let mut mp = lazy::Multipart::new();
                add_all(&mut mp, &fields);
                match mp.send(req) { Ok(s) => (None, None, Some(s)), Err(e) => (Some(format!("{:?}", e.error)), Some(e.field_name.map(|n| n.into_owned())), None) }
            }
        };
        let l = log.lock().unwrap();
        let nh = l.events.iter().filter(|e| matches!(e, Event::Headers(..))).count();
        let no = l.events.iter().filter(|e| **e == Event::Open).count();
        let nf = l.events.iter().filter(|e| **e == Event::Finish).count();
        ensure!(nh <= 1 && no <= 1 && nf <= 1, "events {:?}", l.events);
        ensure!(no == 0 || matches!(l.events[0], Event::Headers(..)), "the stream was opened before the headers were set: {:?}", l.events);
        if fault == 0 { ensure!(no == 0, "the stream was opened although the headers were refused"); }
        let order: Vec<u8> = l.events.iter().map(|e| match e { Event::Headers(..) => 0, Event::Open => 1, Event::Finish => 2 }).collect();
        ensure!(order.windows(2).all(|w| w[0] < w[1]), "events {:?}", l.events);
        match resp {
            Some(s) => {
                ensure!(!fails || (fault == 3 || fault == 4) && whole_body(&s.0, &l, &fields, how), "the request is reported as sent, but {}", name);
                let boundary = match l.events[0] { Event::Headers(ref b, _) => b.clone(), _ => return Err(format!("events {:?}", l.events)) };
                ensure!(nh == 1 && no == 1 && nf == 1, "events {:?}", l.events);
                same(&l.got, &s.0, "what was sent")?;
                if how == 2 { lazy_body_ok(&s.0, &fields, &boundary)? } else { stream_body_ok(&s.0, &fields, &boundary)? }
            }
            None => {
                ensure!(fails, "nothing failed, but an error is reported: {:?}", err);
                ensure!(nf == 0 || fault == 2, "the request was finished although {}", name);
                let e = err.unwrap();
                if (fault == 3 || fault == 4) && how != 1 { ensure!(e.contains("scheduled fault") || e.contains("WriteZero") || e.contains("Zero"), "the error is {}, but {}", e, name); }
                if matches!(fault, 1 | 2 | 5) { ensure!(e.contains("scheduled fault"), "the error is {}, but {}", e, name); }
                if how == 2 && fault == 6 { ensure!(lazy_name == Some(Some(fields[first_bad.unwrap()].name.clone())), "the error names the field {:?}, should be {:?}", lazy_name, fields[first_bad.unwrap()].name); ensure!(nh == 0 && no == 0, "the request was started although {}", name); }
            }
        }
        Ok(())
    })();
    res.map_err(|m| format!("{}\n  {}", m, what))?;
    Ok(Info { nontrivial: true, hash: h, sample: what })
}

/// (the sink's limit was not reached: bodies may end with CRLF or not)
fn whole_body(got: &[u8], l: &Log, fields: &[Field], how: usize) -> bool {
    let b = match l.events.first() { Some(Event::Headers(b, _)) => b, _ => return false };
    if how == 2 { lazy_body_ok(got, fields, b).is_ok() } else { stream_body_ok(got, fields, b).is_ok() }
}

// ---------- C18

struct Inner { got: Vec<u8>, steps: Vec<Step>, at: usize, flushed: bool }
impl<'a> Write for &'a mut Inner {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let s = self.steps[self.at % self.steps.len()];
        self.at += 1;
        match s { Step::Max(n) => { let n = n.min(b.len()); self.got.extend_from_slice(&b[..n]); Ok(n) } Step::Fail(k) => Err(io::Error::new(k, "scheduled fault")) }
    }
    fn flush(&mut self) -> io::Result<()> { self.flushed = true; Ok(()) }
}

pub fn c18(r: &mut Rng) -> Case {
    let n = match r.below(5) { 0 => 0, 1 => 1, 2 => r.range(1, 100), 3 => r.range(100, 5000), _ => r.range(5000, 40000) };
    let data: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
    let what;
    let h;
    match r.below(4) {
        0 | 1 => {
            let boundary = gen_boundary(r);
            let len = if r.chance(1, 2) { Some(r.next()) } else { None };
            let start: Vec<u8> = if r.chance(1, 2) { (0..r.below(20)).map(|_| r.next() as u8).collect() } else { vec![] };
            let via = r.below(3);
            what = format!("HttpBuffer({}) boundary={:?} len={:?} data({})=\"{}\"", ["with_buf", "new_empty", "ClientRequest"][via], boundary, len, n, show(&data));
            h = hash(&[what.as_bytes()]);
            (|| -> Result<(), String> {
                let (mut b, start) = match via {
                    0 => (HttpBuffer::with_buf(start.clone(), boundary.clone(), len), start),
                    1 => (HttpBuffer::new_empty(boundary.clone(), len), vec![]),
                    _ => { let mut q = ClientRequest::default(); if r.chance(1, 2) { q.apply_headers("old", Some(1)); } ensure!(q.apply_headers(&boundary, len), "apply_headers() refused"); (q.open_stream().map_err(|e| e.to_string())?, vec![]) }
                };
                let mut done = 0;
                while done < data.len() {
                    match r.below(5) {
                        0 => { let k = r.range(0, data.len() - done); b.write_all(&data[done..done + k]).map_err(|e| format!("write_all: {:?}", e))?; done += k; }
                        1 => { b.flush().map_err(|e| e.to_string())?; }
                        2 => { ensure!(b.write(&[]).map_err(|e| e.to_string())? == 0, "an empty write returned more than 0"); }
                        _ => {
                            let k = r.range(1, (data.len() - done).min(3000));
                            let w = b.write(&data[done..done + k]).map_err(|e| format!("write: {:?}", e))?;
                            ensure!(w >= 1 && w <= k, "write() of {} bytes returned {}", k, w);
                            done += w;
                        }
                    }
                    ensure!(b.buf.len() == start.len() + done, "{} bytes were reported as written, the buffer has {}", done, b.buf.len() - start.len());
                }
                same(&b.buf, &[&start[..], &data].concat(), "the buffer")?;
                ensure!(b.boundary == boundary && b.content_len == len, "boundary and length are {:?} {:?}", b.boundary, b.content_len);
                {
                    let s = b.for_server();
                    ensure!(s.data == &b.buf[..] && s.boundary == boundary && s.content_len == len, "the server's request differs");
                    read_mock(r, s, &b.buf)?;
                }
                let b = b.finish().map_err(|e| e.to_string())?;
                same(&b.buf, &[&start[..], &data].concat(), "the finished buffer")?;
                ensure!(b.boundary == boundary && b.content_len == len, "boundary and length are {:?} {:?} after finish()", b.boundary, b.content_len);
                Ok(())
            })()
        }
        2 => {
            what = format!("ServerRequest data({})=\"{}\"", n, show(&data));
            h = hash(&[what.as_bytes()]);
            let s = ServerRequest::new(&data, "bnd");
            (|| { ensure!(server::HttpRequest::multipart_boundary(&s) == Some("bnd") && s.content_len.is_none(), "the boundary is {:?}", s.boundary); let s = server::HttpRequest::body(s); read_mock(r, s, &data) })()
        }
        _ => {
            let data: Vec<u8> = data.iter().take(200).cloned().collect();
            let steps = steps_for(r, data.len(), INT);
            what = format!("StdoutTee inner={:?} data({})=\"{}\"", &steps[..steps.len().min(5)], data.len(), show(&data));
            h = hash(&[what.as_bytes()]);
            let mut w = Inner { got: vec![], steps, at: 0, flushed: false };
            (|| -> Result<(), String> {
                let out = io::stdout();
                {
                    let mut t = StdoutTee::new(&mut w, &out);
                    let mut done = 0;
                    let mut tries = 0;
                    while done < data.len() {
                        let k = r.range(0, data.len() - done);
                        match t.write(&data[done..done + k]) {
                            Ok(m) => { ensure!(m <= k, "write() of {} bytes returned {}", k, m); done += m; }
                            Err(e) => return Err(format!("write() failed: {:?}", e)),
                        }
                        tries += 1;
                        ensure!(tries < 100_000, "no progress");
                    }
                    t.flush().map_err(|e| e.to_string())?;
                }
                same(&w.got, &data, "what the wrapped writer got")?;
                ensure!(w.flushed, "flush() did not reach the wrapped writer");
                Ok(())
            })()
        }
    }.map_err(|m| format!("{}\n  {}", m, what))?;
    Ok(Info { nontrivial: n > 0, hash: h, sample: what })
}

fn read_mock(r: &mut Rng, mut s: ServerRequest, data: &[u8]) -> Result<(), String> {
    let mut got = vec![];
    let mut out = vec![0xA5u8; 4000];
    loop {
        let k = *r.pick(&[0usize, 1, 2, 10, 500, 4000]);
        for b in &mut out[..k] { *b = 0xA5; }
        let n = s.read(&mut out[..k]).map_err(|e| format!("read: {:?}", e))?;
        ensure!(n <= k, "read() returned {} for a buffer of {}", n, k);
        got.extend_from_slice(&out[..n]);
        if n == 0 && k > 0 { break; }
    }
    same(&got, data, "what was read")?;
    ensure!(s.read(&mut out).map_err(|e| e.to_string())? == 0, "more bytes after the end of file");
    Ok(())
}

#[allow(dead_code)]
fn uses(_: SizedRequest<Req>) {}
