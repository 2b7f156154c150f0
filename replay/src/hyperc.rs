//! The clients over hyper's requests: C05, C07, C08, C17.
use crate::client::{add_all, boundary_ok, describe, gen_fields, lazy_body_ok, steps_for, stream_body_ok, write_all, Field, Kind, INT};
use crate::ensure;
use crate::util::*;
use hyper::client::{Client, Request, Response};
use hyper::header::{ContentLength, ContentType, Headers};
use hyper::method::Method;
use hyper::net::{Fresh, NetworkConnector, NetworkStream};
use multipart::client::{lazy, Multipart};
use multipart::server;
use std::io::{self, Read, Write};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// What goes over the connections
struct Wire { sent: Vec<u8>, back: Vec<u8>, pos: usize, opened: usize, steps: Vec<Step>, at: usize, fail_at: usize, failed: bool, refuse: bool, kind: io::ErrorKind }
struct Conn(Arc<Mutex<Wire>>);
impl Read for Conn {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let mut w = self.0.lock().unwrap();
        let n = out.len().min(w.back.len() - w.pos).min(1 + w.at % 50);
        let pos = w.pos;
        out[..n].copy_from_slice(&w.back[pos..pos + n]);
        w.pos += n;
        Ok(n)
    }
}
impl Write for Conn {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut w = self.0.lock().unwrap();
        let step = w.steps[w.at % w.steps.len()];
        w.at += 1;
        match step {
            Step::Fail(k) => Err(io::Error::new(k, "scheduled fault: sink")),
            Step::Max(n) => {
                let n = n.min(b.len()).min(w.fail_at - w.sent.len());
                if n == 0 && !b.is_empty() {
                    w.failed = true;
                    return Err(io::Error::new(w.kind, "scheduled fault: sink"));
                }
                w.sent.extend_from_slice(&b[..n]);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl NetworkStream for Conn {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> { Ok("127.0.0.1:80".parse().unwrap()) }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> { Ok(()) }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> { Ok(()) }
}
struct Peer(Arc<Mutex<Wire>>);
impl NetworkConnector for Peer {
    type Stream = Conn;
    fn connect(&self, _: &str, _: u16, _: &str) -> hyper::Result<Conn> {
        let mut w = self.0.lock().unwrap();
        w.opened += 1;
        if w.refuse { return Err(io::Error::new(w.kind, "scheduled fault: connect").into()); }
        Ok(Conn(self.0.clone()))
    }
}

/// A request as it went over the wire
struct Seen { line: String, heads: Vec<(String, String)>, body: Vec<u8>, length: Option<u64> }
impl Seen {
    fn all(&self, name: &str) -> Vec<&str> { self.heads.iter().filter(|h| h.0 == name).map(|h| &h.1[..]).collect() }
    fn boundary(&self) -> Result<String, String> {
        let ct = self.all("content-type");
        ensure!(ct.len() == 1, "the content types are {:?}", ct);
        let m: mime::Mime = ct[0].parse().map_err(|e| format!("content type {:?}: {:?}", ct[0], e))?;
        ensure!(m.essence_str() == "multipart/form-data" && m.params().count() == 1, "the content type is {:?}", ct[0]);
        Ok(m.get_param("boundary").ok_or_else(|| format!("the content type is {:?}", ct[0]))?.as_str().to_string())
    }
}
/// `None`: there is no complete request
fn seen(sent: &[u8]) -> Result<Option<Seen>, String> {
    let end = match sent.windows(4).position(|w| w == b"\r\n\r\n") { Some(e) => e, None => return Ok(None) };
    let head = std::str::from_utf8(&sent[..end]).map_err(|e| e.to_string())?;
    let mut lines = head.split("\r\n");
    let line = lines.next().unwrap().to_string();
    let heads: Vec<(String, String)> = lines.filter_map(|l| l.split_once(':')).map(|(a, b)| (a.trim().to_ascii_lowercase(), b.trim().to_string())).collect();
    let mut rest = &sent[end + 4..];
    let mut s = Seen { line, heads, body: vec![], length: None };
    let chunked = s.all("transfer-encoding").iter().any(|v| v.eq_ignore_ascii_case("chunked"));
    let lens: Vec<u64> = s.all("content-length").iter().map(|v| v.parse().map_err(|_| format!("content length {:?}", v))).collect::<Result<_, _>>()?;
    ensure!(lens.len() + chunked as usize == 1, "the content lengths are {:?}, chunked: {}", lens, chunked);
    if let Some(&n) = lens.first() {
        s.length = Some(n);
        if (rest.len() as u64) < n { return Ok(None); }
        s.body = rest[..n as usize].to_vec();
        rest = &rest[n as usize..];
    } else {
        loop {
            let e = match rest.windows(2).position(|w| w == b"\r\n") { Some(e) => e, None => return Ok(None) };
            let n = usize::from_str_radix(std::str::from_utf8(&rest[..e]).unwrap_or("?"), 16).map_err(|_| format!("chunk size \"{}\"", show(&rest[..e])))?;
            if rest.len() < e + 2 + n + 2 { return Ok(None); }
            s.body.extend_from_slice(&rest[e + 2..e + 2 + n]);
            rest = &rest[e + 4 + n..];
            if n == 0 { break; }
        }
    }
    ensure!(rest.is_empty(), "the request is followed by \"{}\"", show(rest));
    Ok(Some(s))
}

const HOW: &[&str] = &["streaming", "sized", "client_request", "client_request_mut", "lazy, send"];

fn case(r: &mut Rng, id: &str) -> Case {
    let dir = scratch();
    let mut fields = gen_fields(r, &dir, INT);
    if id == "C07" && r.chance(1, 2) { fields.retain(|f| !matches!(f.kind, Kind::Stream(_))); }
    let how = if id == "C05" { r.below(2) } else { r.below(5) };
    let lazy = how >= 2;
    let tag = format!("{}", r.next());
    let wire = Arc::new(Mutex::new(Wire { sent: vec![], back: format!("HTTP/1.1 200 OK\r\nX-Tag: {}\r\nContent-Length: 0\r\n\r\n", tag).into_bytes(), pos: 0, opened: 0, steps: steps_for(r, 500, INT), at: 0, fail_at: usize::MAX, failed: false, refuse: false, kind: io::ErrorKind::Other }));
    // what goes wrong
    let fault = if id == "C17" { r.below(8) } else { 99 };
    let hard = loop { let k = *r.pick(crate::parse::FAULTS); if k != io::ErrorKind::Interrupted { break k; } };
    let mut name = "nothing fails";
    let mut method = Method::Post;
    {
        let mut w = wire.lock().unwrap();
        w.kind = hard;
        match fault {
            0 if how != 2 && how != 3 => { method = r.pick(&[Method::Get, Method::Put, Method::Patch, Method::Extension("post".into())]).clone(); name = "the method is not POST"; }
            1 if how == 2 || how == 3 => { w.refuse = true; name = "the peer cannot be reached"; }
            2 | 3 => { let n = crate::client::framed(&fields, "0123456789abcdef").len(); w.fail_at = if r.chance(1, 3) { n + 200 - r.below(100) } else { r.below(n + 300) }; name = "the connection fails"; }
            4 => { if let Some(f) = fields.iter_mut().find(|f| matches!(f.kind, Kind::Stream(_))) { f.bad = true; f.fault = hard; name = "a source fails" } }
            5 => { if let Some(f) = fields.iter_mut().find(|f| matches!(f.kind, Kind::File(_))) { if let Kind::File(ref p) = f.kind { std::fs::remove_file(p).unwrap(); f.bad = true; name = "a file is missing" } } }
            6 => { w.back.truncate(10); name = "there is no response"; }
            _ => {}
        }
    }
    let plain = r.chance(1, 2);
    let what = describe(&fields, &format!("hyper, {}{}, {}{}", HOW[how], if plain { "" } else { " (headers set before)" }, name, if wire.lock().unwrap().fail_at < usize::MAX { format!(" after {} bytes", wire.lock().unwrap().fail_at) } else { String::new() }));
    let h = hash(&[what.as_bytes()]);
    let streams = fields.iter().any(|f| matches!(f.kind, Kind::Stream(_)));
    let res = (|| -> Result<(), String> {
        let request = || -> Result<Request<Fresh>, String> {
            let mut q = Request::with_connector(method.clone(), hyper::Url::parse("http://localhost/up").unwrap(), &Peer(wire.clone())).map_err(|e| format!("{:?}", e))?;
            q.headers_mut().set_raw("X-Mine", vec![b"mine".to_vec()]);
            if !plain { q.headers_mut().set(ContentType::json()); if how == 1 { q.headers_mut().set(ContentLength(3)); } }
            Ok(q)
        };
        let out: Result<Response, String> = match how {
            0 => Multipart::from_request(request()?).map_err(|e| format!("{:?}", e)).and_then(|mut mp| { write_all(r, &mut mp, &fields).map_err(|e| format!("field {}: {:?}", e.0, e.1))?; mp.send().map_err(|e| format!("{:?}", e)) }),
            1 => Multipart::from_request_sized(request()?).map_err(|e| format!("{:?}", e)).and_then(|mut mp| { write_all(r, &mut mp, &fields).map_err(|e| format!("field {}: {:?}", e.0, e.1))?; mp.send().map_err(|e| format!("{:?}", e)) }),
            4 => { let mut mp = lazy::Multipart::new(); add_all(&mut mp, &fields); mp.send(request()?).map_err(|e| format!("{:?}", e)) }
            _ => {
                let client = Client::with_connector(Peer(wire.clone()));
                let mut mp = lazy::Multipart::new();
                add_all(&mut mp, &fields);
                let res = if how == 2 { mp.client_request(&client, "http://localhost/up") } else {
                    mp.client_request_mut(&client, "http://localhost/up", |q| {
                        let mut h = Headers::new();
                        h.set_raw("X-Mine", vec![b"mine".to_vec()]);
                        if plain { q.headers(h) } else { h.set(ContentType::json()); if !streams { h.set(ContentLength(3)); } q.headers(h).body("other") }
                    })
                };
                res.map_err(|e| format!("{:?}", e))
            }
        };
        let w = wire.lock().unwrap();
        ensure!(w.opened <= 1, "{} connections were made", w.opened);
        let fails = w.failed || w.fail_at == usize::MAX && name != "nothing fails";
        let all = seen(&w.sent)?;
        match out {
            Err(e) => {
                ensure!(fails, "nothing failed, but an error is reported: {}", e);
                if fault == 0 { ensure!(w.sent.is_empty(), "\"{}\" was sent although {}", show(&w.sent), name); }
                if fault == 5 && lazy { ensure!(w.sent.is_empty(), "\"{}\" was sent although {}", show(&w.sent), name); }
                if matches!(fault, 4 | 5) { ensure!(all.map_or(true, |s| s.body.is_empty()), "the request was finished although {}", name); }
                Ok(())
            }
            Ok(x) => {
                ensure!(!fails, "the request is reported as sent, but {}", name);
                ensure!(x.status == hyper::status::StatusCode::Ok && x.headers.get_raw("X-Tag").map_or(false, |v| v[0] == tag.as_bytes()), "the response is {:?} {}", x.status, x.headers);
                let s = all.ok_or_else(|| format!("the request is incomplete: \"{}\"", show(&w.sent)))?;
                ensure!(s.line == "POST /up HTTP/1.1", "the request line is {:?}", s.line);
                if how != 2 { ensure!(s.all("x-mine") == ["mine"], "the request's own header was lost: {:?}", s.heads); }
                let b = s.boundary()?;
                boundary_ok(&b)?;
                if lazy { lazy_body_ok(&s.body, &fields, &b)?; } else { stream_body_ok(&s.body, &fields, &b)?; }
                match s.length {
                    Some(_) => ensure!(how != 0 && !(lazy && streams), "a length is declared"),
                    None => ensure!(how == 0 || lazy && streams, "no length is declared"),
                }
                if id == "C08" { read_back(r, &s.body, &b, &fields, lazy)?; }
                Ok(())
            }
        }
    })();
    res.map_err(|m| format!("{}\n  {}", m, what))?;
    Ok(Info { nontrivial: !fields.is_empty(), hash: h, sample: what })
}

fn read_back(r: &mut Rng, body: &[u8], boundary: &str, fields: &[Field], lazy: bool) -> Result<(), String> {
    let steps = gen_steps(r, body.len());
    let mut mp = server::Multipart::with_body(Sched::new(body.to_vec(), steps), boundary);
    let mut left: Vec<&Field> = fields.iter().collect();
    while let Some(mut f) = server::Multipart::read_entry(&mut mp).map_err(|e| format!("the server reports {:?} after {} of {} fields", e, fields.len() - left.len(), fields.len()))? {
        let mut data = vec![];
        f.data.read_to_end(&mut data).map_err(|e| format!("{:?}", e))?;
        let is = |x: &&Field| *f.headers.name == *x.name && f.headers.filename == x.filename && f.headers.content_type.as_ref().map(|c| c.to_string()) == x.ctype && data == x.data;
        let at = if lazy { left.iter().position(is) } else { left.first().filter(|x| is(x)).map(|_| 0) };
        match at { Some(i) => { left.remove(i); } None => return Err(format!("the server reads {:?} with the data \"{}\", which is not sent", f.headers, show(&data))) }
    }
    ensure!(left.is_empty(), "the server reports the end, but {} of {} fields are missing", left.len(), fields.len());
    Ok(())
}

pub fn c05(r: &mut Rng) -> Case { if r.chance(1, 4) { case(r, "C05") } else { crate::client::c05(r) } }
pub fn c07(r: &mut Rng) -> Case { if r.chance(1, 4) { case(r, "C07") } else { crate::client::c07(r) } }
pub fn c08(r: &mut Rng) -> Case { if r.chance(1, 4) { case(r, "C08") } else { crate::client::c08(r) } }
pub fn c17(r: &mut Rng) -> Case { if r.chance(1, 4) { case(r, "C17") } else { crate::client::c17(r) } }
