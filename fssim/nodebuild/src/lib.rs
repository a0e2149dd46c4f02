//! A simulated build script: a small program of CFG assignments and bridge calls around the real cxx-build.
use cxx_build::CFG;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

extern "C" {
    fn fssim_point();
    fn fssim_result(p: *const u8, n: usize);
    fn fssim_now() -> u64;
}
fn result(s: &str) {
    unsafe { fssim_result(s.as_ptr(), s.len()) }
}
fn now() -> u64 {
    unsafe { fssim_now() }
}

/// Allocations are scheduling points in multi-threaded nodes.
static POINTS: AtomicBool = AtomicBool::new(false);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if POINTS.load(Relaxed) {
            fssim_point();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if POINTS.load(Relaxed) {
            fssim_point();
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if POINTS.load(Relaxed) {
            fssim_point();
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: A = A;

fn list(v: &str) -> Vec<&str> {
    v.split(',').filter(|s| !s.is_empty()).collect()
}
fn leak(s: &str) -> &'static str {
    String::from(s).leak()
}
fn show_cfg() -> String {
    let dirs: Vec<String> = CFG.exported_header_dirs.iter().map(|d| d.display().to_string()).collect();
    format!("prefix={} dirs={} prefixes={} links={} doxygen={}", CFG.include_prefix, dirs.join(","), CFG.exported_header_prefixes.join(","), CFG.exported_header_links.join(","), CFG.doxygen)
}
/// Reads through a handle, and may then assign through it.
#[inline(never)]
fn handle(to: Option<&'static str>) -> (String, u64) {
    let mut h = CFG;
    let old = h.include_prefix.to_owned();
    let t = if to.is_some() { now() } else { 0 };
    if let Some(v) = to {
        h.include_prefix = v;
    }
    (old, t)
}
fn step(line: &str) {
    let (op, v) = line.split_once(' ').unwrap_or((line, ""));
    match op {
        "prefix" => CFG.include_prefix = leak(v),
        "dirs" => CFG.exported_header_dirs = list(leak(v)).into_iter().map(Path::new).collect(),
        "prefixes" => CFG.exported_header_prefixes = list(leak(v)),
        "links" => CFG.exported_header_links = list(leak(v)),
        "doxygen" => CFG.doxygen = v == "1",
        // several assignments through one handle
        "multi" => {
            let mut h = CFG;
            h.include_prefix = leak(v);
            h.exported_header_dirs = vec![Path::new(leak(v))];
            h.exported_header_links = vec![leak(v)];
        }
        // what most build scripts do
        "pushdir" => CFG.exported_header_dirs.push(Path::new(leak(v))),
        "pushprefix" => CFG.exported_header_prefixes.push(leak(v)),
        "pushlink" => CFG.exported_header_links.push(leak(v)),
        "extenddirs" => CFG.exported_header_dirs.extend(list(leak(v)).into_iter().map(Path::new)),
        "bridges" => {
            let files = list(v);
            let b = if files.len() == 1 { cxx_build::bridge(files[0]) } else { cxx_build::bridges(files) };
            result(&format!("build {b:?}"));
        }
        "show" => {
            let s = show_cfg();
            result(&format!("cfg {s}"));
        }
        "rw" => {
            let (old, _) = handle(Some(leak(v)));
            result(&format!("cfg {old}"));
        }
        "hread" => {
            let (old, _) = handle(None);
            result(&format!("cfg {old}"));
        }
        "debug" => {
            let s = format!("{CFG:?}");
            result(&format!("debug {s}"));
        }
        // steps of the CFG history: invocation and response times around each
        "timed" => {
            let a = now();
            let (op2, v2) = v.split_once(' ').unwrap_or((v, ""));
            if op2 == "rw" {
                // the read and the assignment are two operations
                let (old, t) = handle(Some(leak(v2)));
                let b = now();
                result(&format!("timed {a} {t} rprefix||{old}"));
                result(&format!("timed {t} {b} prefix|{v2}|"));
                return;
            }
            let got = match op2 {
                "rprefix" => CFG.include_prefix.to_owned(),
                "hread" => handle(None).0,
                "rdirs" => CFG.exported_header_dirs.iter().map(|d| d.display().to_string()).collect::<Vec<_>>().join(","),
                "rprefixes" => CFG.exported_header_prefixes.join(","),
                "rlinks" => CFG.exported_header_links.join(","),
                "rdoxygen" => (CFG.doxygen as u8).to_string(),
                "rdebug" => format!("{CFG:?}"),
                "rall" => {
                    // one handle: the values seen through it belong together
                    let c = &CFG;
                    let d: Vec<String> = c.exported_header_dirs.iter().map(|d| d.display().to_string()).collect();
                    format!("prefix={} dirs={} prefixes={} links={} doxygen={}", c.include_prefix, d.join(","), c.exported_header_prefixes.join(","), c.exported_header_links.join(","), c.doxygen as u8)
                }
                _ => {
                    step(v);
                    String::new()
                }
            };
            let b = now();
            result(&format!("timed {a} {b} {op2}|{v2}|{got}"));
        }
        "" => {}
        _ => panic!("bad step {line}"),
    }
}

#[no_mangle]
pub unsafe extern "C" fn node_main(p: *const u8, n: usize) -> i32 {
    let prog = std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap();
    match std::panic::catch_unwind(|| {
        for l in prog.lines() {
            step(l);
        }
    }) {
        Ok(()) => 0,
        Err(_) => 101,
    }
}
#[no_mangle]
pub extern "C" fn node_points(on: i32) {
    POINTS.store(on != 0, Relaxed);
}
/// Whether the real build scripts would look for a scratch directory here.
#[no_mangle]
pub unsafe extern "C" fn node_scratch(out: *mut u8, cap: usize) -> usize {
    let s = scratch::path("");
    let s = s.to_str().unwrap().trim_end_matches('/');
    std::ptr::copy_nonoverlapping(s.as_ptr(), out, s.len().min(cap));
    s.len()
}

// ---- the reference: cxx-gen, the third front end of the same generator, without any file or environment
struct Features(BTreeSet<String>);
impl cxx_gen::CfgEvaluator for Features {
    fn eval(&self, name: &str, value: Option<&str>) -> cxx_gen::CfgResult {
        let b = match value {
            Some(v) => self.0.contains(&format!("{name}={v}")),
            None => self.0.contains(name),
        };
        if b { cxx_gen::CfgResult::True } else { cxx_gen::CfgResult::False }
    }
}
type Out = extern "C" fn(ctx: *mut u8, which: i32, p: *const u8, n: usize);
/// opts: lines "cfg X", "include X", "annotations X"
#[no_mangle]
pub unsafe extern "C" fn ref_gen(src: *const u8, n: usize, opts: *const u8, on: usize, out: Out, ctx: *mut u8) -> i32 {
    let opts = std::str::from_utf8(std::slice::from_raw_parts(opts, on)).unwrap();
    let mut o = cxx_gen::Opt::default();
    let mut f = BTreeSet::new();
    for l in opts.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "cfg" => {
                f.insert(v.to_owned());
            }
            // <in brackets> as a whole, anything else in quotes
            "include" => o.include.push(match v.strip_prefix('<').and_then(|v| v.strip_suffix('>')) {
                Some(v) => cxx_gen::Include { path: v.to_owned(), kind: cxx_gen::IncludeKind::Bracketed },
                None => cxx_gen::Include { path: v.to_owned(), kind: cxx_gen::IncludeKind::Quoted },
            }),
            "annotations" => o.cxx_impl_annotations = Some(v.to_owned()),
            _ => {}
        }
    }
    o.cfg_evaluator = Box::new(Features(f));
    out(ctx, 2, cxx_gen::HEADER.as_ptr(), cxx_gen::HEADER.len());
    let src = match std::str::from_utf8(std::slice::from_raw_parts(src, n)) {
        Ok(s) => s,
        Err(e) => {
            let e = e.to_string();
            out(ctx, 3, e.as_ptr(), e.len());
            return 3;
        }
    };
    // every error with its place
    let tell = |span: proc_macro2::Span, msg: String| {
        let (a, b) = (span.start(), span.end());
        let s = format!("{} {} {} {} {msg}", a.line, a.column, b.line, b.column);
        out(ctx, 4, s.as_ptr(), s.len());
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let t: proc_macro2::TokenStream = match src.parse() {
            Ok(t) => t,
            Err(e) => {
                tell(e.span(), e.to_string());
                return Err(e.to_string());
            }
        };
        cxx_gen::generate_header_and_cc(t, &o).map_err(|e| {
            let s = e.to_string();
            for e in e {
                if let Some(span) = e.span() {
                    tell(span, e.to_string());
                }
            }
            s
        })
    }));
    match r {
        Ok(Ok(g)) => {
            out(ctx, 0, g.header.as_ptr(), g.header.len());
            out(ctx, 1, g.implementation.as_ptr(), g.implementation.len());
            0
        }
        Ok(Err(e)) => {
            out(ctx, 3, e.as_ptr(), e.len());
            1
        }
        Err(_) => 2,
    }
}
