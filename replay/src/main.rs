//! Runs the real code on generated cases. `replay ID --seed N --cases N --secs S --out FILE [--case K]`
mod client;
mod deps;
mod headers;
#[cfg(feature = "http")]
mod http;
#[cfg(feature = "hyper")]
mod hyperc;
mod parse;
mod save;
mod util;

use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::{Case, Rng};

fn property(id: &str) -> Option<fn(&mut Rng) -> Case> {
    Some(match id {
        "C01" => parse::c01,
        "C02" => parse::c02,
        "C03" => headers::c03,
        "C04" => headers::c04,
        #[cfg(feature = "hyper")]
        "C05" => hyperc::c05,
        #[cfg(not(feature = "hyper"))]
        "C05" => client::c05,
        "deps" => deps::deps,
        "C06" => client::c06,
        #[cfg(feature = "hyper")]
        "C07" => hyperc::c07,
        #[cfg(not(feature = "hyper"))]
        "C07" => client::c07,
        #[cfg(feature = "hyper")]
        "C08" => hyperc::c08,
        #[cfg(not(feature = "hyper"))]
        "C08" => client::c08,
        #[cfg(feature = "hyper")]
        "C17" => hyperc::c17,
        #[cfg(not(feature = "hyper"))]
        "C17" => client::c17,
        "C18" => client::c18,
        "C09" => save::c09,
        "C10" => save::c10,
        "C11" => save::c11,
        "C12" => save::c12,
        "C13" => save::c13,
        "C19" => save::c19,
        #[cfg(feature = "http")]
        "C14" => http::c14,
        #[cfg(feature = "http")]
        "C15" => http::c15,
        "C16" => |r| if r.chance(1, 3) { save::c16_save(r) } else { parse::c16(r) },
        _ => return None,
    })
}

const HANG: Duration = Duration::from_secs(20);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let id = args[1].clone();
    let case = property(&id).expect("no such property");
    let seed: u64 = get("--seed").map_or(1, |s| s.parse().unwrap());
    let cases: u64 = get("--cases").map_or(u64::MAX, |s| s.parse().unwrap());
    let secs: u64 = get("--secs").map_or(20, |s| s.parse().unwrap());
    let only: Option<u64> = get("--case").map(|s| s.parse().unwrap());
    let out = get("--out");
    let threads: u64 = get("--threads").map_or(8, |s| s.parse().unwrap());

    log::set_logger(&util::Logger).unwrap();
    log::set_max_level(log::LevelFilter::Trace);

    // everything the cases write goes here
    let tmp = std::env::temp_dir().join(format!("vxrun-{}", std::process::id()));
    std::fs::create_dir(&tmp).unwrap();
    std::env::set_var("TMPDIR", &tmp);

    let quiet = only.is_none();
    std::panic::set_hook(Box::new(move |i| {
        LAST_PANIC.with(|p| *p.borrow_mut() = i.to_string());
        if !quiet { eprintln!("{}", i); }
    }));

    let start = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let next = Arc::new(AtomicU64::new(0));
    let found: Arc<Mutex<Option<(u64, String)>>> = Arc::new(Mutex::new(None));
    let stats: Arc<Mutex<(u64, HashSet<u64>, Vec<String>)>> = Arc::new(Mutex::new((0, HashSet::new(), vec![])));
    let running: Arc<Mutex<Vec<Option<(u64, Instant)>>>> = Arc::new(Mutex::new(vec![None; threads as usize]));
    let mut handles = vec![];
    let nthreads = if only.is_some() { 1 } else { threads };
    for t in 0..nthreads as usize {
        let (stop, next, found, stats, running) = (stop.clone(), next.clone(), found.clone(), stats.clone(), running.clone());
        handles.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let mut n = 0;
            let mut seen = HashSet::new();
            let mut samples = vec![];
            while !stop.load(Ordering::Relaxed) {
                let k = match only { Some(k) => k, None => next.fetch_add(1, Ordering::Relaxed) };
                if only.is_none() && (k >= cases || start.elapsed().as_secs() >= secs) { break; }
                running.lock().unwrap()[t] = Some((k, Instant::now()));
                let res = std::panic::catch_unwind(|| case(&mut Rng::new(seed, k)))
                    .unwrap_or_else(|_| Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))));
                running.lock().unwrap()[t] = None;
                n += 1;
                match res {
                    Ok(info) => {
                        if info.nontrivial { seen.insert(info.hash); }
                        if samples.len() < 2 || only.is_some() { samples.push(format!("case {}: {}", k, info.sample)); }
                    }
                    Err(m) => {
                        let mut f = found.lock().unwrap();
                        if f.as_ref().map_or(true, |x| x.0 > k) { *f = Some((k, m)); }
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                if only.is_some() { break; }
            }
            let mut s = stats.lock().unwrap();
            s.0 += n;
            s.1.extend(seen);
            s.2.extend(samples);
        }).unwrap());
    }
    let mut hung = false;
    'wait: loop {
        if handles.iter().all(|h| h.is_finished()) { break; }
        std::thread::sleep(Duration::from_millis(20));
        for r in running.lock().unwrap().iter().flatten() {
            if r.1.elapsed() > HANG {
                *found.lock().unwrap() = Some((r.0, format!("no end after {} s", HANG.as_secs())));
                hung = true;
                break 'wait;
            }
        }
    }
    let _ = hung;
    let _ = std::fs::remove_dir_all(&tmp);
    let found = found.lock().unwrap().clone();
    let s = stats.lock().unwrap();
    let esc = |s: &str| s.chars().flat_map(|c| match c { '"' => "\\\"".chars().collect::<Vec<_>>(), '\\' => "\\\\".chars().collect(), '\n' => "\\n".chars().collect(), c if (c as u32) < 32 => format!("\\u{:04x}", c as u32).chars().collect(), c => vec![c] }).collect::<String>();
    let mut samples = s.2.clone();
    samples.truncate(6);
    let json = format!("{{\"property\":\"{}\",\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"secs\":{:.2},\"samples\":[{}],\"violation\":{}}}\n",
        id, seed, s.0, s.1.len(), start.elapsed().as_secs_f64(),
        samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
        match &found { None => "null".into(), Some((k, m)) => format!("{{\"case\":{},\"what\":\"{}\"}}", k, esc(m)) });
    if let Some(out) = out { std::fs::write(out, &json).unwrap(); } else { print!("{}", json); }
    if let Some((k, m)) = found {
        eprintln!("case {} (seed {}): {}", k, seed, m);
        std::process::exit(1);
    }
}

thread_local!(static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));
