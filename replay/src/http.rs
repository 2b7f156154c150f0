//! C14 and C15: the integrations with HTTP libraries.
use crate::ensure;
use crate::util::*;
use hyper::buffer::BufReader;
use hyper::header::Headers;
use hyper::net::{Fresh, NetworkStream};
use hyper::server::{Handler, Request as HyperRequest, Response as HyperResponse};
use multipart::server::hyper::Switch;
use multipart::server::nickel::{Maybe, MultipartBody};
use multipart::server::iron::{FileCountLimitError, FileSizeLimitError, Intercept, LimitBehavior};
use multipart::server::save::{Entries, SavedData};
use multipart::server::{HttpRequest, Multipart};
use crate::save::{clone, fconf, heads_ok, in_dir, judge, request, Conf, End, Req, Text};
use iron::BeforeMiddleware;
use std::io::{self, Read, Write};
use std::net::SocketAddr;
use std::sync::Mutex;
use std::time::Duration;

/// A connection whose peer has sent the given bytes
pub struct Conn { data: Vec<u8>, pos: usize, step: usize }

impl Read for Conn {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let n = self.step.min(out.len()).min(self.data.len() - self.pos);
        out[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Conn {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl NetworkStream for Conn {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> { Ok(addr()) }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> { Ok(()) }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> { Ok(()) }
}
fn addr() -> SocketAddr { "127.0.0.1:80".parse().unwrap() }

/// Calls `f` with a Hyper request made of these bytes
pub fn with_hyper<T>(bytes: &[u8], step: usize, f: impl FnOnce(HyperRequest) -> T) -> T {
    let mut c = Conn { data: bytes.to_vec(), pos: 0, step };
    let mut b = BufReader::new(&mut c as &mut dyn NetworkStream);
    f(HyperRequest::new(&mut b, addr()).unwrap())
}

struct Ct { text: Option<String>, boundary: Option<String> }

/// An HTTP token, in any case
fn case(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_ascii_uppercase(),
        1 => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
        _ => s.to_string(),
    }
}

const SAFE: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.+";

/// A boundary which needs no quotes, also by the rules of `mime` 0.2
fn plain_boundary(r: &mut Rng) -> String {
    match r.below(10) {
        0 => "utf-8".into(),
        1 => "boundary".into(),
        2 => r.pick(&["form-data", "multipart", "charset", "UTF-8", "b", "q"]).to_string(),
        3 => format!("----WebKitFormBoundary{}", r.below(1000)),
        4 => { let n = r.range(1, 70); (0..n).map(|_| *r.pick(SAFE) as char).collect() }
        _ => { let n = r.range(5, 20); (0..n).map(|_| *r.pick(SAFE) as char).collect() }
    }
}

/// A Content-Type header and the boundary it declares, if it is one of a multipart request.
/// `after_quoted`: parameters may follow a quoted one, and a quoted one may start with any character (`mime` 0.2 drops these)
fn content_type(r: &mut Rng, after_quoted: bool) -> Ct {
    if r.chance(1, 12) { return Ct { text: None, boundary: None }; }
    let good = r.chance(3, 4);
    let media = if good { "multipart/form-data" } else {
        r.pick(&["multipart/mixed", "multipart/form-data2", "multipart/form-dat", "xmultipart/form-data", "application/x-www-form-urlencoded", "text/plain", "text/form-data", "application/multipart", "multipart/x-form-data", "multipart/digest", "application/octet-stream", "multipart/plain"])
    };
    let mut text = case(r, media);
    let mut boundary: Option<String> = None;
    let n = match r.below(8) { 0 => 0, 1..=4 => 1, 5 | 6 => 2, _ => r.range(1, 4) };
    let at = r.below(n.max(1));
    let skip = r.chance(1, 8);
    let mut quoted_before = false;
    for i in 0..n {
        if quoted_before && !after_quoted { break; }
        text += *r.pick(&[";", "; ", "; "]);
        if i == at && !skip {
            let quoted = r.chance(1, 3);
            let v = if quoted && r.chance(1, 2) { let b = gen_boundary(r); if b.len() > 70 || (!after_quoted && !SAFE.contains(&b.as_bytes()[0])) { plain_boundary(r) } else { b } } else { plain_boundary(r) };
            text += &case(r, "boundary");
            text += "=";
            text += &if quoted { format!("\"{}\"", v) } else { v.clone() };
            if boundary.is_none() { boundary = Some(v); }
            quoted_before |= quoted;
        } else {
            let (k, v) = *r.pick(&[("charset", "utf-8"), ("foo", "bar"), ("xboundary", "evil"), ("boundaryx", "evil"), ("start", "boundary"), ("q", "1"), ("x-boundary", "a"), ("bound", "ary"), ("x", "form-data")]);
            let quoted = after_quoted && r.chance(1, 4);
            text += &case(r, k);
            text += "=";
            text += &if quoted && r.chance(1, 2) { format!("\"{}; {}=evil\"", v, "boundary") } else if quoted { format!("\"{}\"", v) } else { v.to_string() };
            quoted_before |= quoted;
        }
    }
    Ct { text: Some(text), boundary: if good { boundary } else { None } }
}

struct Raw { bytes: Vec<u8>, method: String, path: String, marker: String, body: Vec<u8>, fields: Vec<(String, Vec<u8>)>, expect: Option<String>, what: String }

/// The bytes of a request. `sized`: it has a body
fn raw(r: &mut Rng, after_quoted: bool) -> Raw {
    let ct = content_type(r, after_quoted);
    let method = if r.chance(3, 4) { "POST" } else { *r.pick(&["GET", "PUT", "PATCH", "DELETE", "OPTIONS", "POSTX", "FETCH"]) };
    // the body is one of the declared boundary, so that it shows which boundary is used
    let b = ct.text.as_ref().and_then(|_| ct.boundary.clone()).unwrap_or_else(|| "evil".into());
    let delim = format!("--{}", b);
    let mut body = vec![];
    let mut fields = vec![];
    for i in 0..r.range(0, 3) {
        let name = format!("f{}", i);
        let mut data = gen_data(r, delim.as_bytes());
        data.truncate(2000);
        let head = format!("{}\r\nContent-Disposition: form-data; name=\"{}\"\r\n\r\n", delim, name);
        if find(head[delim.len()..].as_bytes(), delim.as_bytes()).is_some() { continue; }
        body.extend_from_slice(head.as_bytes());
        body.extend_from_slice(&data);
        body.extend_from_slice(b"\r\n");
        fields.push((name, data));
    }
    body.extend_from_slice(delim.as_bytes());
    body.extend_from_slice(b"--\r\n");
    let marker = format!("m{}", r.next() % 100_000);
    let path = format!("/p{}", r.below(1000));
    let mut lines = vec![format!("Content-Length: {}", body.len()), format!("X-Marker: {}", marker), "Host: localhost".to_string(), "X-Content-Type: multipart/form-data; boundary=evil".to_string()];
    if let Some(ref t) = ct.text { let k = case(r, "Content-Type"); let at = r.below(lines.len() + 1); lines.insert(at, format!("{}: {}", k, t)); }
    let mut bytes = format!("{} {} HTTP/1.1\r\n{}\r\n\r\n", method, path, lines.join("\r\n")).into_bytes();
    let what = String::from_utf8_lossy(&bytes).into_owned();
    bytes.extend_from_slice(&body);
    let expect = if method == "POST" { ct.boundary } else { None };
    Raw { bytes, method: method.into(), path, marker, body, fields, expect, what }
}

fn fields_of<R: Read>(mp: &mut Multipart<R>) -> Result<Vec<(String, Vec<u8>)>, String> {
    let mut out = vec![];
    for _ in 0..20 {
        match mp.read_entry() {
            Ok(Some(mut f)) => { let mut d = vec![]; f.data.read_to_end(&mut d).map_err(|e| format!("the data cannot be read: {:?}", e))?; out.push((f.headers.name.to_string(), d)); }
            Ok(None) => return Ok(out),
            Err(e) => return Err(format!("reading with the boundary that was taken fails: {:?}", e)),
        }
    }
    Err("the body does not end".into())
}

fn taken<R: Read>(q: &Raw, mp: &mut Multipart<R>) -> Result<(), String> {
    ensure!(q.expect.is_some(), "it was taken as multipart");
    let got = fields_of(mp)?;
    ensure!(got == q.fields, "the fields read are not those of the body: {} instead of {}", got.len(), q.fields.len());
    Ok(())
}

fn unchanged(q: &Raw, method: &str, path: &str, marker: Option<&[u8]>, ct: Option<&[u8]>, body: &mut dyn Read) -> Result<(), String> {
    ensure!(q.expect.is_none(), "it was not taken as multipart");
    ensure!(method == q.method && path.ends_with(&q.path), "the request handed back is another: {} {}", method, path);
    ensure!(marker == Some(q.marker.as_bytes()), "the request handed back has other headers");
    let want = q.what.lines().find(|l| l.to_ascii_lowercase().starts_with("content-type: ")).map(|l| l["content-type: ".len()..].as_bytes());
    ensure!(ct == want, "the request handed back has another content type: {:?}", ct);
    let mut d = vec![];
    body.read_to_end(&mut d).map_err(|e| format!("the body of the request handed back cannot be read: {:?}", e))?;
    ensure!(d == q.body, "{} of {} bytes of the body are left in the request handed back", d.len(), q.body.len());
    Ok(())
}

fn raw_header<'a>(h: &'a Headers, name: &str) -> Option<&'a [u8]> { h.get_raw(name).map(|v| &v[0][..]) }

fn hyper_back(q: &Raw, req: &mut HyperRequest) -> Result<(), String> {
    let (m, p) = (req.method.to_string(), req.uri.to_string());
    let (a, b) = (raw_header(&req.headers, "X-Marker").map(|x| x.to_vec()), raw_header(&req.headers, "Content-Type").map(|x| x.to_vec()));
    unchanged(q, &m, &p, a.as_deref(), b.as_deref(), req)
}

struct Seen(Mutex<Vec<(&'static str, Result<(), String>)>>);

thread_local!(static NOW: std::cell::RefCell<Option<std::rc::Rc<(Raw, Seen)>>> = std::cell::RefCell::new(None));
struct Normal;
impl Handler for Normal {
    fn handle<'a, 'k>(&'a self, mut req: HyperRequest<'a, 'k>, _: HyperResponse<'a, Fresh>) {
        let now = NOW.with(|n| n.borrow().clone().unwrap());
        let res = hyper_back(&now.0, &mut req);
        (now.1).0.lock().unwrap().push(("normal", res));
    }
}
fn on_multipart(mut mp: Multipart<HyperRequest>, _: HyperResponse<Fresh>) {
    let now = NOW.with(|n| n.borrow().clone().unwrap());
    let res = taken(&now.0, &mut mp);
    (now.1).0.lock().unwrap().push(("multipart", res));
}

fn hyper_case(r: &mut Rng, q: Raw) -> Result<(), String> {
    let step = *r.pick(&[1usize, 7, 100, 100_000]);
    let how = r.below(4);
    let bytes = q.bytes.clone();
    match how {
        0 => with_hyper(&bytes, step, |req| {
            ensure!(req.multipart_boundary() == q.expect.as_deref(), "multipart_boundary() of the request is {:?}", req.multipart_boundary());
            match Multipart::from_request(req) { Ok(mut mp) => taken(&q, &mut mp), Err(mut req) => hyper_back(&q, &mut req) }
        }),
        1 => with_hyper(&bytes, step, |mut req| {
            ensure!((&mut req).multipart_boundary() == q.expect.as_deref(), "multipart_boundary() of the reference is {:?}", (&mut req).multipart_boundary());
            let back = match Multipart::from_request(&mut req) { Ok(mut mp) => { taken(&q, &mut mp)?; false } Err(_) => true };
            if back { hyper_back(&q, &mut req)?; }
            Ok(())
        }),
        _ => with_hyper(&bytes, step, |req| {
            let now = std::rc::Rc::new((q, Seen(Mutex::new(vec![]))));
            NOW.with(|n| *n.borrow_mut() = Some(now.clone()));
            let mut out = Vec::new();
            {
                let mut h = Headers::new();
                let res = HyperResponse::new(&mut out, &mut h);
                Switch::new(Normal, on_multipart).handle(req, res);
            }
            NOW.with(|n| *n.borrow_mut() = None);
            let seen = (now.1).0.lock().unwrap();
            ensure!(seen.len() == 1, "{} handlers were called", seen.len());
            let want = if now.0.expect.is_some() { "multipart" } else { "normal" };
            ensure!(seen[0].0 == want, "the {} handler was called", seen[0].0);
            seen[0].1.clone()
        }),
    }
}

/// Calls `f` with an Iron request made of these bytes
pub fn with_iron<T>(bytes: &[u8], step: usize, f: impl FnOnce(&mut iron::Request) -> T) -> T {
    with_hyper(bytes, step, |req| {
        let mut req = iron::Request::from_http(req, addr(), &iron::Protocol::http()).unwrap();
        f(&mut req)
    })
}

fn iron_case(r: &mut Rng, q: Raw) -> Result<(), String> {
    let step = *r.pick(&[1usize, 7, 100, 100_000]);
    with_iron(&q.bytes.clone(), step, |mut req| {
        ensure!((&mut *req).multipart_boundary() == q.expect.as_deref(), "multipart_boundary() is {:?}", (&mut *req).multipart_boundary());
        let back = match Multipart::from_request(&mut *req) { Ok(mut mp) => { taken(&q, &mut mp)?; false } Err(_) => true };
        if back {
            let (m, p) = (req.method.to_string(), req.url.to_string());
            let (a, b) = (raw_header(&req.headers, "X-Marker").map(|x| x.to_vec()), raw_header(&req.headers, "Content-Type").map(|x| x.to_vec()));
            unchanged(&q, &m, &p, a.as_deref(), b.as_deref(), &mut req.body)?;
        }
        Ok(())
    })
}

fn nickel_case(r: &mut Rng, q: Raw) -> Result<(), String> {
    let step = *r.pick(&[1usize, 7, 100, 100_000]);
    let how = r.below(2);
    with_hyper(&q.bytes.clone(), step, |req| {
        let data = ();
        let mut req = nickel::Request::from_internal(req, &data);
        {
            let m = Maybe(&mut req);
            ensure!(m.multipart_boundary() == q.expect.as_deref(), "multipart_boundary() is {:?}", m.multipart_boundary());
        }
        let back = if how == 0 {
            match req.multipart_body() { Some(mut mp) => { taken(&q, &mut mp)?; false } None => true }
        } else {
            match Multipart::from_request(Maybe(&mut req)) { Ok(mut mp) => { taken(&q, &mut mp)?; false } Err(_) => true }
        };
        if back { hyper_back(&q, &mut req.origin)?; }
        Ok(())
    })
}

thread_local!(static SERVER: tiny_http::Server = tiny_http::Server::http("127.0.0.1:0").expect("a server on the loopback interface"));
thread_local!(static CLIENT: std::cell::RefCell<Option<std::net::TcpStream>> = std::cell::RefCell::new(None));

fn tiny_case(q: Raw) -> Result<(), String> {
    SERVER.with(|s| {
        let mut c = CLIENT.with(|c| c.borrow_mut().take()).unwrap_or_else(|| std::net::TcpStream::connect(s.server_addr()).expect("a connection to the loopback interface"));
        c.write_all(&q.bytes).unwrap();
        let mut req = s.recv_timeout(Duration::from_secs(15)).unwrap().expect("the request that was sent");
        let res = (|| {
            ensure!((&mut req).multipart_boundary() == q.expect.as_deref(), "multipart_boundary() is {:?}", (&mut req).multipart_boundary());
            let back = match Multipart::from_request(&mut req) { Ok(mut mp) => { taken(&q, &mut mp)?; false } Err(_) => true };
            if back {
                let (m, p) = (req.method().to_string(), req.url().to_string());
                let h = |req: &tiny_http::Request, n: &'static str| req.headers().iter().find(|x| x.field.equiv(n)).map(|x| x.value.as_str().as_bytes().to_vec());
                let (a, b) = (h(&req, "X-Marker"), h(&req, "Content-Type"));
                unchanged(&q, &m, &p, a.as_deref(), b.as_deref(), req.as_reader())?;
            }
            Ok(())
        })();
        let _ = req.respond(tiny_http::Response::empty(200));
        // the connection is used again
        let mut got = vec![];
        let mut b = [0u8; 512];
        while find(&got, b"\r\n\r\n").is_none() {
            match c.read(&mut b) { Ok(n) if n > 0 => got.extend_from_slice(&b[..n]), _ => return res }
        }
        if res.is_ok() && find(&got, b"Connection: close").is_none() { CLIENT.with(|x| *x.borrow_mut() = Some(c)); }
        res
    })
}

pub fn c14(r: &mut Rng) -> Case {
    let k = r.below(13);
    let q = raw(r, k == 0);
    let (h, sample) = (hash(&[&q.bytes, &[k as u8]]), format!("{} {:?}", ["tiny_http", "hyper", "iron", "nickel"][if k == 0 { 0 } else { 1 + k % 3 }], q.what));
    let nontrivial = q.expect.is_some();
    match k {
        0 => tiny_case(q),
        _ => match k % 3 { 0 => hyper_case(r, q), 1 => iron_case(r, q), _ => nickel_case(r, q) },
    }.map_err(|m| format!("{}\n  {}", m, sample))?;
    Ok(Info { nontrivial, hash: h, sample })
}

// ---------- C15

fn entries_of(e: &Entries, q: &Req, c: &Conf, strict: bool) -> Result<(), String> {
    let dir = e.save_dir.as_path().to_path_buf();
    let mut at = std::collections::HashMap::new();
    for (i, f) in q.fields.iter().enumerate() {
        let k: &mut usize = at.entry(f.name.clone()).or_insert(0);
        let s = match e.fields.get(&*f.name).and_then(|v| v.get(*k)) { Some(s) => s, None => return Err(format!("field {} ({:?}) is missing", i, f.name)) };
        *k += 1;
        heads_ok(&s.headers, f)?;
        let over = f.data.len() as u64 > c.limit;
        ensure!(!(strict && over), "field {} is larger than the limit, but the request was accepted", i);
        judge(&fconf(c, f), &f.data, &Some(clone(&s.data)), &if over { End::Size } else { End::Full }).map_err(|m| format!("field {} ({:?}): {}", i, f.name, m))?;
        if let SavedData::File(ref p, _) = s.data { in_dir(p, &dir)?; }
    }
    let n: usize = e.fields.values().map(|v| v.len()).sum();
    ensure!(n == q.fields.len() && e.fields_count() as usize == n, "there are {} entries (count {}), should be {}", n, e.fields_count(), q.fields.len());
    Ok(())
}

pub fn c15(r: &mut Rng) -> Case {
    let mut q = request(r, 7);
    while q.boundary.len() > 70 || !SAFE.contains(&q.boundary.as_bytes()[0]) { q = request(r, 7); }
    let limit = match r.below(5) {
        0 => 2 * 1024 * 1024,
        1 => r.range(0, 60) as u64,
        2 => q.fields.get(0).map_or(5, |f| f.data.len() as u64),
        3 => q.fields.last().map_or(5, |f| (f.data.len() as u64).saturating_sub(1)),
        _ => r.range(0, 12000) as u64,
    };
    let count = match r.below(4) { 0 => 16, 1 => q.fields.len() as u32, 2 => q.fields.len().saturating_sub(1) as u32, _ => r.range(0, 8) as u32 };
    let lenient = r.chance(1, 2);
    let scr = scratch();
    let dir = match r.below(4) { 0 => None, 1 => Some(scr.path().join("there")), 2 => Some(scr.path().join("new")), _ => Some(scr.path().join("new/deep/er")) };
    std::fs::create_dir(scr.path().join("there")).unwrap();
    std::fs::write(scr.path().join("there/bystander"), b"untouched").unwrap();
    let other = r.chance(1, 8);
    let cut = !other && r.chance(1, 10);
    let defaults = r.chance(1, 12);
    let mut ic = Intercept::default();
    if !defaults {
        ic = ic.file_size_limit(limit).file_count_limit(count);
        ic = match r.below(3) {
            0 if !lenient => ic,
            _ => ic.limit_behavior(if lenient { LimitBehavior::Continue } else { LimitBehavior::ThrowError }),
        };
        if let Some(ref d) = dir { ic = ic.temp_dir_path(d.clone()); }
    }
    let (limit, count, lenient, dir) = if defaults { (2 * 1024 * 1024, 16, false, None) } else { (limit, count, lenient, dir) };
    let (method, ct) = match (other, r.below(3)) {
        (false, _) => ("POST", format!("multipart/form-data; boundary=\"{}\"", q.boundary)),
        (true, 0) => ("PUT", format!("multipart/form-data; boundary=\"{}\"", q.boundary)),
        (true, 1) => ("POST", format!("multipart/mixed; boundary=\"{}\"", q.boundary)),
        (true, _) => ("POST", "multipart/form-data".to_string()),
    };
    let body = if cut { let n = r.below(q.body.len() - 2); q.body[..n].to_vec() } else { q.body.clone() };
    let mut bytes = format!("{} /x HTTP/1.1\r\nHost: h\r\nContent-Type: {}\r\nContent-Length: {}\r\n\r\n", method, ct, body.len()).into_bytes();
    bytes.extend_from_slice(&body);
    let conf = Conf { limit, threshold: 10 * 1024, text: Text::Try };
    let what = format!("{} {:?} limit={} count={} lenient={} dir={:?} cut={} fields={} boundary={:?} body=\"{}\"", method, ct, limit, count, lenient, dir.as_ref().map(|d| d.strip_prefix(scr.path()).unwrap().to_path_buf()), cut, q.fields.len(), q.boundary, show(&body));
    let h = hash(&[what.as_bytes()]);
    // what stops a strict save: (field, by size)
    let stop = q.fields.iter().enumerate().find_map(|(i, f)| if i as u32 >= count { Some((i, false)) } else if f.data.len() as u64 > limit { Some((i, true)) } else { None });
    let step = *r.pick(&[1usize, 7, 100, 100_000]);
    let res = with_iron(&bytes, step, |req| -> Result<(), String> {
        let res = ic.before(req);
        let left = |why: &str| -> Result<(), String> {
            let l: Vec<_> = scr.list().into_iter().filter(|x| x.1.is_some() && x.0 != "there/bystander").collect();
            ensure!(l.is_empty(), "files are left behind {}: {:?}", why, l.iter().map(|x| &x.0).collect::<Vec<_>>());
            ensure!(std::fs::read(scr.path().join("there/bystander")).unwrap() == b"untouched", "another file was changed");
            Ok(())
        };
        if other {
            ensure!(res.is_ok(), "a request that is not multipart gives an error: {:?}", res);
            ensure!(req.extensions.get::<Entries>().is_none(), "entries are stored for a request that is not multipart");
            let mut b = vec![];
            req.body.read_to_end(&mut b).unwrap();
            ensure!(b == body, "the body of a request that is not multipart was read");
            return left("by a request that is not multipart");
        }
        match res {
            Ok(()) => {
                ensure!(!cut, "a body that is cut off was accepted");
                ensure!(lenient || stop.is_none(), "the request was accepted, but field {} exceeds the {} limit", stop.unwrap().0, if stop.unwrap().1 { "size" } else { "count" });
                let e = req.extensions.remove::<Entries>().ok_or("no entries are stored")?;
                entries_of(&e, &q, &conf, !lenient)?;
                let p = e.save_dir.as_path().to_path_buf();
                ensure!(e.save_dir.is_temporary(), "the save directory is not temporary");
                let parent = dir.clone().unwrap_or_else(|| std::env::temp_dir());
                ensure!(p.parent() == Some(&parent), "the save directory is {:?}, which is not in {:?}", p, parent);
                drop(e);
                ensure!(!p.exists(), "the save directory stays after the entries are dropped");
                left("after the entries are dropped")
            }
            Err(e) => {
                ensure!(req.extensions.get::<Entries>().is_none(), "entries are stored, but the request is rejected");
                left("by a rejected request")?;
                if let Some(x) = e.error.downcast_ref::<FileSizeLimitError>() {
                    ensure!(!lenient, "the size limit gives an error with the lenient behaviour");
                    ensure!(stop.map_or(false, |s| s.1), "the size limit is reported, but {:?}", stop);
                    return heads_ok(&x.field, &q.fields[stop.unwrap().0]).map_err(|m| format!("the error names the wrong field: {}", m));
                }
                if e.error.is::<FileCountLimitError>() {
                    ensure!(!lenient, "the count limit gives an error with the lenient behaviour");
                    ensure!(stop.map_or(false, |s| !s.1), "the count limit is reported, but {:?}", stop);
                    ensure!(e.error.to_string().contains(&count.to_string()), "the error does not name the limit: {}", e.error);
                    return Ok(());
                }
                ensure!(cut, "the request is rejected: {:?}", e.error);
                ensure!(e.error.is::<io::Error>(), "the error of a body that is cut off is {:?}", e.error);
                Ok(())
            }
        }
    });
    res.map_err(|m| format!("{}\n  {}", m, what))?;
    Ok(Info { nontrivial: stop.is_some() && !other, hash: h, sample: what })
}
