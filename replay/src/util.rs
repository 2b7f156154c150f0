//! Random cases, sources with a schedule of reads and faults, and bodies.
use std::io::{self, Read};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, case: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ case.wrapping_mul(0xD134_2543_DE82_EF95) ^ 0x1234_5678_9abc_def1);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// in `0..n`
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// in `a..=b`
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

pub fn hash(parts: &[&[u8]]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for p in parts {
        for &b in *p {
            h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        h = (h ^ 0x1ff).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

/// Printable form of bytes, shortened in the middle if it is long.
pub fn show(b: &[u8]) -> String {
    let esc = |b: &[u8]| b.iter().flat_map(|&c| std::ascii::escape_default(c)).map(|c| c as char).collect::<String>();
    if b.len() <= 600 {
        esc(b)
    } else {
        format!("{}...[{} bytes]...{}", esc(&b[..200]), b.len() - 400, esc(&b[b.len() - 200..]))
    }
}

pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    if n.is_empty() { return Some(0); }
    h.windows(n.len()).position(|w| w == n)
}

/// What one `read()` of a source does.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    /// at most this many bytes
    Max(usize),
    Fail(io::ErrorKind),
}

/// A source which delivers `data` in the given steps (used in a cycle).
thread_local!(pub static MET: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });

/// How many scheduled faults were met so far
pub fn met() -> u64 { MET.with(|m| m.get()) }

pub struct Sched {
    pub data: Vec<u8>,
    pub pos: usize,
    pub steps: Vec<Step>,
    pub at: usize,
    pub calls: u64,
}

impl Sched {
    pub fn new(data: Vec<u8>, steps: Vec<Step>) -> Sched {
        Sched { data, pos: 0, steps, at: 0, calls: 0 }
    }
}

impl Read for Sched {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        let step = self.steps[self.at % self.steps.len()];
        self.at += 1;
        match step {
            Step::Fail(kind) => { MET.with(|m| m.set(m.get() + 1)); Err(io::Error::new(kind, "scheduled fault")) }
            Step::Max(n) => {
                let n = n.min(out.len()).min(self.data.len() - self.pos);
                out[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
    }
}

/// Read sizes without faults.
pub fn gen_steps(r: &mut Rng, len: usize) -> Vec<Step> {
    match r.below(7) {
        0 => vec![Step::Max(1)],
        1 => vec![Step::Max(usize::MAX)],
        2 => { let k = r.range(1, 7); vec![Step::Max(k)] }
        3 => { let n = r.range(1, 40); let k = *r.pick(&[2usize, 5, 30, 300, 3000]); (0..n).map(|_| Step::Max(r.range(1, k))).collect() }
        4 => { let k = *r.pick(&[511usize, 512, 513, 1023, 1024, 1025, 1500, 2048, 4096, 8191, 8192, 8193]); vec![Step::Max(k)] }
        // one split, then all the rest
        5 => {
            let n = r.range(1, len.max(1));
            let mut v = vec![Step::Max(1); 0];
            let mut left = n;
            while left > 0 { let k = left.min(8192); v.push(Step::Max(k)); left -= k; if v.len() > 64 { break } }
            v.extend(std::iter::repeat(Step::Max(usize::MAX)).take(200));
            v
        }
        _ => { let n = r.range(1, 20); (0..n).map(|_| if r.chance(1, 2) { Step::Max(1) } else { Step::Max(r.range(1, 2000)) }).collect() }
    }
}

/// `steps` with faults in between; never two in a row at the cycle's ends, so that every read ends.
pub fn add_faults(r: &mut Rng, steps: Vec<Step>, kinds: &[io::ErrorKind]) -> Vec<Step> {
    let mut out = Vec::new();
    let den = *r.pick(&[2usize, 4, 12]);
    let steps = if steps.len() == 1 { vec![steps[0]; 16] } else { steps };
    for s in steps {
        if r.chance(1, den) { out.push(Step::Fail(*r.pick(kinds))); }
        out.push(s);
    }
    out
}

const BCHARS: &[u8] = b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'()+_,-./:=?";

pub fn gen_boundary(r: &mut Rng) -> String {
    let v: Vec<u8> = match r.below(8) {
        0 => vec![b'a'; r.range(1, 5)],
        1 => { let n = r.range(1, 6); (0..n).map(|_| *r.pick(b"-a")).collect() }
        2 => { let n = r.range(20, 26); let mut v = vec![b'-'; n]; for _ in 0..r.range(1, 16) { v.push(*r.pick(BCHARS)); } v }
        3 => { let p = r.range(1, 4); let w: Vec<u8> = (0..p).map(|_| *r.pick(b"ab-")).collect(); w.iter().cycle().take(r.range(4, 20)).cloned().collect() }
        4 => { let n = r.range(1, 70); (0..n).map(|_| *r.pick(BCHARS)).collect() }
        5 => b"boundary".to_vec(),
        6 => { let n = r.range(70, 500); (0..n).map(|_| *r.pick(b"-abc")).collect() }
        _ => { (0..16).map(|_| *r.pick(&BCHARS[..62])).collect() }
    };
    String::from_utf8(v).unwrap()
}

/// Data that looks like line breaks and delimiters but does not contain the delimiter.
/// What some code somewhere treats in a way of its own
pub const SPECIAL: &[&str] = &["\u{feff}", "\u{0}", "\u{1a}", "\u{85}", "\u{2028}", "\u{a0}", "\u{3000}", "\u{fffd}", "\u{200b}", "\u{1b}[0m", "\u{7f}", "\t", " ", "\n", "\r", "\r\n", "\n\n", "\r\n\r\n", "%41", "%00", "&amp;", "+", "e\u{301}", "\u{e9}", "\u{130}", "\u{df}", "\u{1c4}",
    "\\", "\\\"", "\"", "'", "`", "$x", "{}", "{0}", "..", "/", ".", "-", "--", "--\r\n", "\r\n--", "0", "=", "=\r\n", "=3D", "~", "#", "//", "<?xml ?>", "\u{1f}\u{8b}", "GIF89a", "true", "null"];

pub fn gen_data(r: &mut Rng, delim: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    if r.chance(1, 12) {
        // special text at the start and the end, in the middle, or alone
        if r.chance(2, 3) { v.extend_from_slice(r.pick(SPECIAL).as_bytes()); }
        for _ in 0..r.range(0, 3) { v.extend_from_slice(if r.chance(1, 2) { "text" } else { *r.pick(SPECIAL) }.as_bytes()); }
        if r.chance(1, 2) { v.extend_from_slice(r.pick(SPECIAL).as_bytes()); }
        while let Some(i) = find(&v, delim) { v[i] = b'x'; }
        return v;
    }
    let target = match r.below(12) {
        0 => 0,
        1 => r.range(1, 3),
        2..=5 => r.range(1, 80),
        6 | 7 => r.range(80, 700),
        8 => r.range(900, 1200),
        9 => r.range(1900, 2300),
        10 => r.range(7900, 8500),
        _ => r.range(0, 30000),
    };
    let kind = r.below(4);
    while v.len() < target {
        match if kind == 0 { r.below(7) } else { r.below(11) } {
            0 => v.push(b'\r'),
            1 => v.push(b'\n'),
            2 => v.extend_from_slice(b"\r\n"),
            3 => v.push(b'-'),
            4 => { let k = r.below(delim.len()); v.extend_from_slice(&delim[..k]) }
            5 => { v.extend_from_slice(b"\r\n"); let k = r.below(delim.len()); v.extend_from_slice(&delim[..k]) }
            6 => { let k = r.range(1, delim.len()); v.extend_from_slice(&delim[k..]) }
            7 => v.push(r.next() as u8),
            8 => { let n = r.range(1, 20); for _ in 0..n { v.push(r.next() as u8) } }
            9 => { let n = r.range(1, (target - v.len()).max(1)); let c = *r.pick(b"x\r\n-\0z"); v.extend(std::iter::repeat(c).take(n)) }
            _ => v.extend_from_slice(b"lorem ipsum"),
        }
    }
    // end with something interesting
    if target > 0 && r.chance(1, 2) {
        match r.below(6) {
            0 => v.push(b'\r'),
            1 => v.push(b'\n'),
            2 => v.extend_from_slice(b"\r\n"),
            3 => v.extend_from_slice(b"\r\n\r"),
            4 => { let k = r.below(delim.len()); v.extend_from_slice(&delim[..k]) }
            _ => { v.extend_from_slice(b"\r\n"); let k = r.below(delim.len()); v.extend_from_slice(&delim[..k]) }
        }
    }
    while let Some(i) = find(&v, delim) {
        v[i] = b'x';
    }
    v
}

pub struct Part {
    pub name: String,
    pub filename: Option<String>,
    pub ctype: Option<String>,
    pub head: Vec<u8>,
    pub data: Vec<u8>,
}

pub fn gen_part(r: &mut Rng, i: usize, delim: &[u8]) -> Part {
    let name = format!("f{}", i);
    let filename = if r.chance(1, 3) { Some(format!("file{}.bin", i)) } else { None };
    let ctype = if r.chance(1, 3) { Some(r.pick(&["text/plain", "application/octet-stream", "text/plain; charset=utf-8", "image/png"]).to_string()) } else { None };
    let mut head = format!("Content-Disposition: form-data; name=\"{}\"", name);
    if let Some(ref f) = filename { head += &format!("; filename=\"{}\"", f); }
    head += "\r\n";
    if let Some(ref c) = ctype { head += &format!("Content-Type: {}\r\n", c); }
    // a long header section, but shorter than the documented minimum of what is buffered
    if r.chance(1, 8) { let n = r.range(1, 500); head += &format!("X-Filler: {}\r\n", "y".repeat(n)); }
    let data = gen_data(r, delim);
    Part { name, filename, ctype, head: head.into_bytes(), data }
}

pub struct Body {
    pub boundary: String,
    pub delim: Vec<u8>,
    pub parts: Vec<Part>,
    pub bytes: Vec<u8>,
}

impl Body {
    pub fn names(&self) -> Vec<&str> { self.parts.iter().map(|p| &p.name[..]).collect() }
}

/// A well-formed body.
pub fn gen_body(r: &mut Rng) -> Body {
    let boundary = gen_boundary(r);
    let delim = [b"--", boundary.as_bytes()].concat();
    let n = match r.below(6) { 0 => 0, 1 | 2 => 1, 3 => 2, 4 => 3, _ => r.range(1, 7) };
    let parts: Vec<Part> = (0..n).map(|i| {
        let mut p = gen_part(r, i, &delim);
        while find(&p.head, &delim).is_some() { p = gen_part(r, i + 100, &delim); }
        p
    }).collect();
    let mut bytes = Vec::new();
    match r.below(6) {
        0 => bytes.extend_from_slice(b"\r\n"),
        1 => { let mut d = gen_data(r, &delim); if r.chance(1, 2) { d.extend_from_slice(b"\r\n") } bytes.extend(d); if find(&[&bytes[..], &delim[..delim.len() - 1]].concat(), &delim).is_some() { bytes.clear() } }
        _ => {}
    }
    for p in &parts {
        bytes.extend_from_slice(&delim);
        bytes.extend_from_slice(b"\r\n");
        bytes.extend_from_slice(&p.head);
        bytes.extend_from_slice(b"\r\n");
        bytes.extend_from_slice(&p.data);
        bytes.extend_from_slice(b"\r\n");
    }
    bytes.extend_from_slice(&delim);
    bytes.extend_from_slice(b"--");
    match r.below(5) {
        0 => {}
        1 | 2 => bytes.extend_from_slice(b"\r\n"),
        3 => { let d = gen_data(r, &delim); bytes.extend(d) }
        _ => { bytes.extend_from_slice(b"\r\n"); bytes.extend_from_slice(&delim); bytes.extend_from_slice(b"\r\n"); bytes.extend_from_slice(b"Content-Disposition: form-data; name=\"ghost\"\r\n\r\nboo\r\n"); bytes.extend_from_slice(&delim); bytes.extend_from_slice(b"--\r\n") }
    }
    Body { boundary, delim, parts, bytes }
}

/// What a case covered.
pub struct Info {
    pub nontrivial: bool,
    pub hash: u64,
    pub sample: String,
}

/// `Err`: the property is broken, and how.
pub type Case = Result<Info, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

/// A directory of one case in the run's scratch directory (the OS temporary directory), which is removed on drop.
pub struct Scratch(std::path::PathBuf);
impl Scratch {
    pub fn path(&self) -> &std::path::Path { &self.0 }
    /// Everything in it, as (path relative to it, contents; `None` for directories)
    pub fn list(&self) -> Vec<(String, Option<Vec<u8>>)> {
        fn go(base: &std::path::Path, p: &std::path::Path, out: &mut Vec<(String, Option<Vec<u8>>)>) {
            for e in std::fs::read_dir(p).into_iter().flatten() {
                let e = e.unwrap();
                let rel = e.path().strip_prefix(base).unwrap().to_string_lossy().into_owned();
                if e.file_type().unwrap().is_dir() { out.push((rel, None)); go(base, &e.path(), out); }
                else { out.push((rel, std::fs::read(e.path()).ok())); }
            }
        }
        let mut v = vec![];
        go(&self.0, &self.0, &mut v);
        v.sort();
        v
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        assert!(self.0.starts_with(std::env::temp_dir()) && self.0.file_name().unwrap().to_string_lossy().starts_with("vxcase-"));
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub fn scratch() -> Scratch {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let p = std::env::temp_dir().join(format!("vxcase-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    std::fs::create_dir(&p).unwrap();
    Scratch(p)
}

// messages of the crate's log macros are formatted (and dropped) while this is on
thread_local!(static LOG: std::cell::Cell<bool> = std::cell::Cell::new(false));
pub fn log_here(on: bool) { LOG.with(|l| l.set(on)); }
pub struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool { LOG.with(|l| l.get()) }
    fn log(&self, r: &log::Record) { if LOG.with(|l| l.get()) { std::hint::black_box(r.args().to_string()); } }
    fn flush(&self) {}
}
