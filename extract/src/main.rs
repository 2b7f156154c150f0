//! Mechanical extraction of the functions under contract from /repo/src into one Verus file.
//!
//! usage: extract --repo DIR --template FILE --out FILE --report FILE [--degrade fn,fn] [--probe]
//!
//! The template (contracts/<unit>.rs) holds specifications, lemmas and stand-ins for dependencies,
//! plus `//@` directives saying which items of the real source are merged in and under which
//! contract. Function bodies always come from /repo; the rewrites applied to them are listed in
//! `xform.rs` and in DESIGN.md.
mod early;
mod mac;
mod print;
mod xform;

use std::collections::{BTreeMap, HashMap, HashSet};
use std::fs;
use syn::spanned::Spanned;

pub struct Source {
    pub path: String,
    pub file: syn::File,
}

#[derive(Clone)]
pub struct Found {
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub lines: (usize, usize),
    pub src: String,
}

#[derive(Default, Clone)]
pub struct FnSpec {
    path: String,
    emit: Option<String>,
    attrs: Vec<String>,
    ret: Option<String>,
    sig: Option<String>,
    contract: Vec<String>,
    prologue: Vec<String>,
    loops: BTreeMap<usize, Vec<String>>,
    bodies: BTreeMap<usize, Vec<String>>,
    before: Vec<(String, Vec<String>)>,
    locals: Option<Vec<String>>,
    stub: bool,
    elsewhere: Option<String>,
    rename: Vec<(String, String)>,
    opts: xform::FnOpts,
    captures: Vec<(String, bool)>,
}

fn die(msg: &str) -> ! {
    eprintln!("extract: {}", msg);
    std::process::exit(3)
}

fn arg(args: &[String], n: &str) -> Option<String> {
    args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned()
}

fn cfg_off(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("test") {
            return true;
        }
        if !a.path().is_ident("cfg") {
            return false;
        }
        let s = quote::quote!(#a).to_string().replace(' ', "");
        s == "#[cfg(test)]" || s.contains("\"bench\"") || s.contains("\"nightly\"") || s.contains("\"clippy\"")
    })
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => format!("&{}", ty_name(&r.elem)),
        _ => String::new(),
    }
}

fn first_type_arg(t: &syn::Type) -> Option<&syn::Type> {
    match t {
        syn::Type::Path(p) => match &p.path.segments.last()?.arguments {
            syn::PathArguments::AngleBracketed(a) => a.args.iter().find_map(|x| match x {
                syn::GenericArgument::Type(t) => Some(t),
                _ => None,
            }),
            _ => None,
        },
        _ => None,
    }
}

/// all functions of a file, keyed `name`, `Type::name`, `Trait for Type::name`, `trait Trait::name`
pub fn functions(s: &Source) -> Vec<(String, Found)> {
    let mut out = vec![];
    walk(&s.file.items, s, &mut out);
    out
}
fn walk(items: &[syn::Item], s: &Source, out: &mut Vec<(String, Found)>) {
    for it in items {
        match it {
            syn::Item::Fn(f) if !cfg_off(&f.attrs) => out.push((
                f.sig.ident.to_string(),
                Found { sig: f.sig.clone(), block: (*f.block).clone(), lines: (f.span().start().line, f.span().end().line), src: s.path.clone() },
            )),
            syn::Item::Impl(i) if !cfg_off(&i.attrs) => {
                let t = ty_name(&i.self_ty);
                let pre = match &i.trait_ {
                    Some((_, p, _)) => format!("{} for {}", p.segments.last().unwrap().ident, t),
                    None => t.clone(),
                };
                for ii in &i.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if cfg_off(&f.attrs) {
                            continue;
                        }
                        if let Some((_, p, _)) = &i.trait_ {
                            // also under the full name of the trait: `From<String> for T::from`
                            let full = format!("{} for {}::{}", quote::quote!(#p).to_string().replace(' ', ""), t, f.sig.ident);
                            if full.contains('<') {
                                out.push((full, Found { sig: f.sig.clone(), block: f.block.clone(), lines: (f.span().start().line, f.span().end().line), src: s.path.clone() }));
                            }
                        }
                        // `T<&>::name` and `T<_>::name`: methods of `T<&X>` and of other `T<X>`
                        if let (None, Some(a)) = (&i.trait_, first_type_arg(&i.self_ty)) {
                            let a = if matches!(a, syn::Type::Reference(_)) { "&" } else { "_" };
                            out.push((
                                format!("{}<{}>::{}", t, a, f.sig.ident),
                                Found { sig: f.sig.clone(), block: f.block.clone(), lines: (f.span().start().line, f.span().end().line), src: s.path.clone() },
                            ));
                        }
                        out.push((
                            format!("{}::{}", pre, f.sig.ident),
                            Found { sig: f.sig.clone(), block: f.block.clone(), lines: (f.span().start().line, f.span().end().line), src: s.path.clone() },
                        ));
                    }
                }
            }
            syn::Item::Trait(t) => {
                for ti in &t.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        if let Some(b) = &f.default {
                            out.push((
                                format!("trait {}::{}", t.ident, f.sig.ident),
                                Found { sig: f.sig.clone(), block: b.clone(), lines: (f.span().start().line, f.span().end().line), src: s.path.clone() },
                            ));
                        }
                    }
                }
            }
            syn::Item::Mod(m) if !cfg_off(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    walk(items, s, out);
                }
            }
            _ => {}
        }
    }
}

fn find_item<'a>(items: &'a [syn::Item], kind: &str, name: &str) -> Option<&'a syn::Item> {
    for it in items {
        let ok = match (kind, it) {
            ("struct", syn::Item::Struct(s)) => s.ident == name,
            ("enum", syn::Item::Enum(s)) => s.ident == name && !cfg_off(&s.attrs),
            ("const", syn::Item::Const(s)) => s.ident == name && !cfg_off(&s.attrs),
            _ => false,
        };
        if ok {
            return Some(it);
        }
        if let syn::Item::Mod(m) = it {
            if !cfg_off(&m.attrs) {
                if let Some((_, items)) = &m.content {
                    if let Some(i) = find_item(items, kind, name) {
                        return Some(i);
                    }
                }
            }
        }
    }
    None
}

fn collect_macros(items: &[syn::Item], m: &mut mac::Macros) {
    for it in items {
        match it {
            syn::Item::Macro(x) if x.mac.path.is_ident("macro_rules") => {
                if let Some(id) = &x.ident {
                    m.insert(id.to_string(), mac::parse_rules(x.mac.tokens.clone()));
                }
            }
            syn::Item::Mod(x) => {
                if let Some((_, items)) = &x.content {
                    collect_macros(items, m)
                }
            }
            _ => {}
        }
    }
}

fn captures(s: &str) -> Vec<(String, bool)> {
    s.split(',')
        .map(|c| c.trim())
        .filter(|c| !c.is_empty())
        .map(|c| match c.strip_suffix(" mut") {
            Some(n) => (n.trim().to_string(), true),
            None => (c.to_string(), false),
        })
        .collect()
}

fn parse_fnspec(path: &str, lines: &[String]) -> FnSpec {
    let mut f = FnSpec::default();
    let mut it = path.splitn(2, " as ");
    f.path = it.next().unwrap().trim().to_string();
    f.emit = it.next().map(|s| s.trim().to_string());
    enum Sec {
        Contract,
        Prologue,
        Loop(usize),
        Body(usize),
        Before(usize),
    }
    let mut sec = Sec::Contract;
    for l in lines {
        let t = l.trim();
        if let Some(d) = t.strip_prefix("//@") {
            let (w, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            match w {
                "attr" => f.attrs.push(rest.to_string()),
                "ret" => f.ret = Some(rest.to_string()),
                "sig" => f.sig = Some(rest.to_string()),
                // `//@stub UNIT`: its contract is proved in that unit
                "stub" => {
                    f.stub = true;
                    if !rest.is_empty() {
                        f.elsewhere = Some(rest.to_string());
                    }
                }
                "rename" => {
                    let (a, b) = rest.split_once(' ').unwrap_or_else(|| die("bad rename"));
                    f.rename.push((a.trim().into(), b.trim().into()));
                }
                "contract" => sec = Sec::Contract,
                "prologue" => sec = Sec::Prologue,
                "loop" => {
                    let n = rest.parse().unwrap_or_else(|_| die("bad //@loop"));
                    f.loops.insert(n, vec![]);
                    sec = Sec::Loop(n)
                }
                "body" => {
                    let n = rest.parse().unwrap_or_else(|_| die("bad //@body"));
                    f.bodies.insert(n, vec![]);
                    sec = Sec::Body(n)
                }
                "before" => {
                    f.before.push((rest.to_string(), vec![]));
                    sec = Sec::Before(f.before.len() - 1)
                }
                "byref" => f.opts.byref.extend(rest.split_whitespace().map(String::from)),
                "callable" => f.opts.callables.extend(rest.split_whitespace().map(String::from)),
                "closure" => {
                    let (k, r) = rest.split_once(' ').unwrap_or_else(|| die("bad //@closure"));
                    let (env, caps) = r.split_once(':').unwrap_or_else(|| die("bad //@closure"));
                    f.opts.closures.push((k.parse().unwrap_or_else(|_| die("bad //@closure")), env.trim().into(), captures(caps)));
                }
                "captures" => f.captures = captures(rest),
                "locals" => f.locals = Some(rest.split_whitespace().map(String::from).collect()),
                _ => die(&format!("unknown directive {} in fn {}", w, path)),
            }
            continue;
        }
        match sec {
            Sec::Contract => f.contract.push(l.clone()),
            Sec::Prologue => f.prologue.push(l.clone()),
            Sec::Loop(n) => f.loops.get_mut(&n).unwrap().push(l.clone()),
            Sec::Body(n) => f.bodies.get_mut(&n).unwrap().push(l.clone()),
            Sec::Before(n) => f.before[n].1.push(l.clone()),
        }
    }
    f
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let repo = arg(&args, "--repo").unwrap_or_else(|| "/repo".into());
    let template = arg(&args, "--template").unwrap_or_else(|| die("--template"));
    let degrade: HashSet<String> = arg(&args, "--degrade").map(|s| s.split(',').map(String::from).collect()).unwrap_or_default();
    let probe = args.iter().any(|a| a == "--probe");
    let text = fs::read_to_string(&template).unwrap_or_else(|e| die(&format!("{}: {}", template, e)));
    // includes
    let dir = std::path::Path::new(&template).parent().unwrap().to_path_buf();
    let mut lines: Vec<String> = vec![];
    for l in text.lines() {
        if let Some(f) = l.trim().strip_prefix("//@include ") {
            let t = fs::read_to_string(dir.join(f.trim())).unwrap_or_else(|e| die(&format!("{}: {}", f, e)));
            lines.extend(t.lines().map(String::from));
        } else {
            lines.push(l.to_string());
        }
    }
    let mut known: HashSet<String> = HashSet::new();
    for l in &lines {
        let t = l.trim();
        if !t.starts_with("//") {
            let mut rest = t;
            while let Some(i) = rest.find("fn ") {
                let before_ok = i == 0 || !rest.as_bytes()[i - 1].is_ascii_alphanumeric();
                let name: String = rest[i + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                if before_ok && !name.is_empty() {
                    known.insert(name);
                }
                rest = &rest[i + 3..];
            }
        } else if let Some(p) = t.strip_prefix("//@fn ") {
            let p = p.split(" as ").next().unwrap().trim();
            known.insert(p.rsplit("::").next().unwrap().to_string());
        }
    }
    let mut sources: Vec<Source> = vec![];
    let mut macros = mac::Macros::new();
    let mut renames: HashMap<String, String> = HashMap::new();
    let mut load = |p: &str| -> Option<Source> {
        let full = format!("{}/{}", repo, p);
        let t = fs::read_to_string(&full).ok()?;
        let file = syn::parse_file(&t).ok()?;
        Some(Source { path: p.to_string(), file })
    };
    // first pass: sources, macros, renames
    for l in &lines {
        let t = l.trim();
        if let Some(p) = t.strip_prefix("//@source ") {
            let p = p.trim();
            if !sources.iter().any(|s| s.path == p) {
                match load(p) {
                    Some(s) => {
                        collect_macros(&s.file.items, &mut macros);
                        sources.push(s)
                    }
                    None => die(&format!("cannot read or parse {}", p)),
                }
            }
        } else if let Some(p) = t.strip_prefix("//@macros ") {
            for p in p.split_whitespace() {
                match load(p) {
                    Some(s) => collect_macros(&s.file.items, &mut macros),
                    None => die(&format!("cannot read or parse {}", p)),
                }
            }
        } else if let Some(r) = t.strip_prefix("//@rename-type ") {
            let (a, b) = r.trim().split_once(" => ").unwrap_or_else(|| die("bad rename-type"));
            xform::TYPES.with(|v| v.borrow_mut().push((a.replace(' ', ""), b.trim().into())));
        } else if let Some(r) = t.strip_prefix("//@rename-method ") {
            let (a, b) = r.trim().split_once(' ').unwrap_or_else(|| die("bad rename-method"));
            renames.insert(a.trim().into(), b.trim().into());
        }
    }
    let all: Vec<(String, Found)> = sources.iter().flat_map(functions).collect();
    // which parameters are emitted by reference
    let mut byref: HashMap<String, HashSet<usize>> = HashMap::new();
    let mut at = String::new();
    for l in &lines {
        let t = l.trim();
        if let Some(p) = t.strip_prefix("//@fn ") {
            at = p.split(" as ").next().unwrap().trim().to_string();
        } else if let Some(ps) = t.strip_prefix("//@byref ") {
            if let Some((_, f)) = all.iter().find(|(n, _)| *n == at) {
                let names: Vec<String> = xform::params(&f.sig);
                let set = byref.entry(at.rsplit("::").next().unwrap().to_string()).or_default();
                for p in ps.split_whitespace() {
                    if let Some(i) = names.iter().position(|n| n == p) {
                        set.insert(i);
                    }
                }
            }
        }
    }
    let mut out = String::new();
    let mut report: Vec<serde_json::Value> = vec![];
    let mut i = 0;
    let mut cur = 0usize;
    // contracts of callees that another unit proves
    let mut elsewhere: Option<String> = None;
    while i < lines.len() {
        let l = &lines[i];
        let t = l.trim();
        if let Some(p) = t.strip_prefix("//@source ") {
            cur = sources.iter().position(|s| s.path == p.trim()).unwrap();
            out.push_str(&format!("// ==== from {}\n", p.trim()));
        } else if t.starts_with("//@macros ") || t.starts_with("//@rename-method ") || t.starts_with("//@rename-type ") {
        } else if let Some(p) = t.strip_prefix("//@proved-in ") {
            elsewhere = if p.trim() == "here" { None } else { Some(p.trim().to_string()) };
        } else if let Some(p) = t.strip_prefix("//@item ") {
            let mut w = p.split_whitespace();
            let (kind, name) = (w.next().unwrap(), w.next().unwrap_or_else(|| die("bad //@item")));
            match find_item(&sources[cur].file.items, kind, name) {
                Some(it) => {
                    out.push_str(&xform::item(it, &w.map(String::from).collect::<Vec<_>>()));
                    report.push(serde_json::json!({"item": name, "kind": kind, "status": "ok", "src": sources[cur].path}));
                }
                None => {
                    report.push(serde_json::json!({"item": name, "kind": kind, "status": "missing", "src": sources[cur].path}));
                    eprintln!("extract: missing item {} {}", kind, name);
                }
            }
        } else if let Some(p) = t.strip_prefix("//@fn ") {
            let mut body = vec![];
            i += 1;
            while i < lines.len() && lines[i].trim() != "//@end" {
                body.push(lines[i].clone());
                i += 1;
            }
            if i >= lines.len() {
                die(&format!("//@fn {} without //@end", p));
            }
            let mut spec = parse_fnspec(p.trim(), &body);
            if elsewhere.is_some() {
                spec.stub = true;
                spec.elsewhere = spec.elsewhere.or(elsewhere.clone());
            }
            // `f{k}`: the k-th closure of f
            let (base, closure) = match spec.path.split_once('{') {
                Some((b, k)) => (b.to_string(), Some(k.trim_end_matches('}').parse::<usize>().unwrap_or_else(|_| die("bad closure")))),
                None => (spec.path.clone(), None),
            };
            let mut found = all.iter().find(|(n, f)| *n == base && f.src == sources[cur].path).map(|x| x.1.clone());
            if let (Some(f), Some(k)) = (&found, closure) {
                let b = spec.sig.as_ref().map(|s| syn::parse_str::<syn::Signature>(s).unwrap_or_else(|e| die(&format!("bad //@sig of {}: {}", spec.path, e))));
                match xform::closure_of(f, k, &macros, b.as_ref(), &spec.captures) {
                    Ok(f) => found = Some(f),
                    Err(e) => {
                        eprintln!("extract: {}: {}", spec.path, e);
                        found = None
                    }
                }
            }
            let forced = degrade.contains(&spec.path);
            emit_fn(&spec, found, forced, probe, &macros, &renames, &known, &all, &byref, &mut out, &mut report);
        } else if t.starts_with("//@") {
            die(&format!("unknown directive: {}", t));
        } else {
            out.push_str(l);
            out.push('\n');
        }
        i += 1;
    }
    if probe {
        out.push_str("verus! { pub uninterp spec fn vx_probe(k: int) -> bool; }\n");
    }
    if let Some(o) = arg(&args, "--out") {
        fs::write(&o, &out).unwrap_or_else(|e| die(&format!("{}: {}", o, e)));
    }
    if let Some(r) = arg(&args, "--report") {
        fs::write(&r, serde_json::to_string_pretty(&report).unwrap()).unwrap_or_else(|e| die(&format!("{}: {}", r, e)));
    }
}

#[allow(clippy::too_many_arguments)]
fn emit_fn(
    spec: &FnSpec,
    found: Option<Found>,
    forced: bool,
    probe: bool,
    macros: &mac::Macros,
    renames: &HashMap<String, String>,
    known: &HashSet<String>,
    all: &[(String, Found)],
    byref: &HashMap<String, HashSet<usize>>,
    out: &mut String,
    report: &mut Vec<serde_json::Value>,
) {
    let baseline: Option<syn::Signature> = spec.sig.as_ref().map(|s| {
        syn::parse_str::<syn::Signature>(s).unwrap_or_else(|e| die(&format!("bad //@sig of {}: {}", spec.path, e)))
    });
    let emit_name = spec.emit.clone().unwrap_or_else(|| spec.path.rsplit("::").next().unwrap().to_string());
    let mut status = "ok".to_string();
    let mut why = String::new();
    let mut rewrites: Vec<String> = vec![];
    let mut body: Option<String> = None;
    let mut sig_text = String::new();
    let mut src = (String::new(), (0, 0));
    if let Some(f) = &found {
        src = (f.src.clone(), f.lines);
        if forced {
            status = "unsupported".into();
            why = "not accepted by the verifier's front end".into();
        }
        let mut x = xform::Xform::new(macros, renames, known, all, byref);
        let anchors: Vec<(String, usize)> = spec
            .before
            .iter()
            .map(|(a, _)| match a.split_once('#') {
                Some((n, k)) => (n.to_string(), k.parse().unwrap_or(0)),
                None => (a.clone(), 0),
            })
            .collect();
        let owner = match spec.path.rsplit_once("::") {
            Some((o, _)) => o.rsplit(' ').next().unwrap_or("").to_string(),
            None => String::new(),
        };
        match x.function(f, baseline.as_ref(), spec.locals.as_deref(), &spec.rename, &anchors, &owner, &spec.opts) {
            Ok(r) => {
                let want: Vec<usize> = spec.loops.keys().cloned().collect();
                if want.iter().any(|n| *n >= r.loops) {
                    status = "anchor-lost".into();
                    why = format!("{} loops in the source, contract names loop {:?}", r.loops, want);
                }
                if r.loops > spec.loops.len() && status == "ok" {
                    status = "anchor-lost".into();
                    why = format!("{} loops in the source, {} under contract", r.loops, spec.loops.len());
                }
                rewrites = r.rewrites;
                sig_text = print::signature(&r.sig, &emit_name, spec.ret.as_deref().unwrap_or("r"));
                let p = print::Printer::new(&spec.loops, &spec.bodies, &spec.before);
                let txt = p.block(&r.block, &spec.prologue, &r.pre);
                body = Some(txt);
            }
            Err(e) => {
                status = "unsupported".into();
                why = e;
            }
        }
    } else {
        status = "missing".into();
        why = "no such function in the source".into();
    }
    if spec.stub {
        status = "assumed".into();
        why = match &spec.elsewhere {
            Some(u) => format!("contract proved in unit {}", u),
            None => "contract assumed (//@stub)".into(),
        };
    }
    // signature: the baseline one where the extracted one is not available
    if sig_text.is_empty() || status == "missing" || status == "unsupported" || status == "assumed" {
        if let Some(b) = &baseline {
            sig_text = print::signature(b, &emit_name, spec.ret.as_deref().unwrap_or("r"));
        } else if let (Some(f), true) = (&found, sig_text.is_empty()) {
            sig_text = print::signature(&xform::clean_sig(&f.sig), &emit_name, spec.ret.as_deref().unwrap_or("r"));
        }
    }
    let attrs = |out: &mut String| {
        for a in &spec.attrs {
            if status == "ok" || !a.contains("loop_isolation") {
                out.push_str(a);
                out.push('\n');
            }
        }
    };
    let contract = spec.contract.join("\n").trim_end().to_string();
    // the vacuity probe: the function promises, besides, something about which nothing is known
    let is_probe = probe && status == "ok";
    let start_line = out.matches('\n').count() + 1;
    out.push_str(&format!("//@@BEGIN {}\n", spec.path));
    attrs(out);
    if status != "ok" {
        out.push_str("#[verifier::external_body]\n");
    }
    out.push_str(&sig_text);
    out.push('\n');
    out.push_str(if is_probe { contract.trim_end_matches(',') } else { &contract });
    if is_probe {
        // (`ensures` is always the last clause of a contract)
        let has = contract.contains("ensures");
        out.push_str(&format!("{} crate::vx_probe({})", if has { "," } else { "\n    ensures" }, report.len()));
    }
    out.push('\n');
    match (&body, status.as_str()) {
        (Some(b), "ok") => out.push_str(b),
        _ => out.push_str("{ unimplemented!() }\n"),
    }
    out.push_str(&format!("//@@END {}\n", spec.path));
    let end_line = out.matches('\n').count();
    report.push(serde_json::json!({
        "fn": spec.path, "emit": emit_name, "status": status, "why": why, "src": src.0, "src_lines": [src.1.0, src.1.1],
        "out_lines": [start_line, end_line], "rewrites": rewrites,
        "contract": spec.contract.join("\n"),
    }));
}
