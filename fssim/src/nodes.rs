//! Preloaded copies of the simulated programs; each simulated process uses a fresh one.
use libc::*;
use std::ffi::CString;

pub type Main = unsafe extern "C" fn(*const u8, usize) -> i32;
type Out = extern "C" fn(ctx: *mut u8, which: i32, p: *const u8, n: usize);
type RefGen = unsafe extern "C" fn(*const u8, usize, *const u8, usize, Out, *mut u8) -> i32;
type Scratch = unsafe extern "C" fn(*mut u8, usize) -> usize;

#[derive(Clone, Copy)]
pub struct Lib {
    pub main: Main,
    pub points: Option<unsafe extern "C" fn(i32)>,
}
pub struct Libs {
    pub build: Vec<Lib>,
    pub cli: Vec<Lib>,
    pub nbuild: usize,
    pub ncli: usize,
    refgen: RefGen,
    pub scratch: String,
}
pub static mut LIBS: *mut Libs = std::ptr::null_mut();
pub fn libs() -> &'static mut Libs {
    unsafe { &mut *LIBS }
}
unsafe fn sym<T: Copy>(h: *mut c_void, n: &str) -> Option<T> {
    let c = CString::new(n).unwrap();
    let p = dlsym(h, c.as_ptr());
    if p.is_null() {
        return None;
    }
    Some(std::mem::transmute_copy(&p))
}
pub fn load(dir: &str, nb: usize, nc: usize) {
    unsafe {
        let open = |n: String| {
            let c = CString::new(format!("{dir}/{n}.so")).unwrap();
            let h = dlopen(c.as_ptr(), RTLD_NOW | RTLD_LOCAL);
            if h.is_null() {
                eprintln!("fssim: {}", std::ffi::CStr::from_ptr(dlerror()).to_string_lossy());
                exit(2);
            }
            h
        };
        let mut build = vec![];
        let mut refgen: Option<RefGen> = None;
        let mut scratch = String::new();
        for i in 0..=nb {
            let h = open(format!("build{i}"));
            if i == 0 {
                refgen = sym(h, "ref_gen");
                let f: Scratch = sym(h, "node_scratch").unwrap();
                let mut b = [0u8; 4096];
                let n = f(b.as_mut_ptr(), b.len());
                scratch = String::from_utf8_lossy(&b[..n.min(4096)]).into_owned();
                continue;
            }
            build.push(Lib { main: sym(h, "node_main").unwrap(), points: sym(h, "node_points") });
        }
        let mut cli = vec![];
        for i in 0..nc {
            let h = open(format!("cli{i}"));
            cli.push(Lib { main: sym(h, "node_main").unwrap(), points: None });
        }
        LIBS = Box::into_raw(Box::new(Libs { build, cli, nbuild: 0, ncli: 0, refgen: refgen.unwrap(), scratch }));
    }
}
/// An error with its place: lines from 1, columns in characters from 0.
#[derive(Clone, Debug, Default)]
pub struct Diag {
    pub start: (usize, usize),
    pub end: (usize, usize),
    pub msg: String,
}
#[derive(Clone, Debug, Default)]
pub struct Ref {
    pub header: Vec<u8>,
    pub implementation: Vec<u8>,
    pub cxxh: Vec<u8>,
    pub error: String,
    pub diags: Vec<Diag>,
    pub utf8: bool, // not UTF-8
    pub panicked: bool,
    pub ok: bool,
    pub conditional: bool, // the source had cfg attributes
}
extern "C" fn collect(ctx: *mut u8, which: i32, p: *const u8, n: usize) {
    unsafe {
        let r = &mut *(ctx as *mut Ref);
        let v = std::slice::from_raw_parts(p, n).to_vec();
        match which {
            0 => r.header = v,
            1 => r.implementation = v,
            2 => r.cxxh = v,
            4 => {
                let s = String::from_utf8_lossy(&v).into_owned();
                let w: Vec<&str> = s.splitn(5, ' ').collect();
                let n = |i: usize| w[i].parse().unwrap();
                r.diags.push(Diag { start: (n(0), n(1)), end: (n(2), n(3)), msg: w[4].to_owned() });
            }
            _ => r.error = String::from_utf8_lossy(&v).into_owned(),
        }
    }
}
/// What the generator library makes of a source.
pub fn reference(src: &[u8], opts: &str) -> Ref {
    let mut r = Ref::default();
    // a shebang line is not part of the token stream the library takes
    let mut s = src;
    if std::str::from_utf8(s).is_err() {
        // (wherever that may be)
    } else if s.starts_with(b"#!") && !s.starts_with(b"#![") {
        s = &s[s.iter().position(|c| *c == b'\n').unwrap_or(s.len())..];
    }
    let code = unsafe { (libs().refgen)(s.as_ptr(), s.len(), opts.as_ptr(), opts.len(), collect, &mut r as *mut Ref as *mut u8) };
    r.ok = code == 0;
    r.panicked = code == 2;
    r.utf8 = code == 3;
    r.diags.sort_by_key(|d| d.start);
    if opts.lines().any(|l| l == "doxygen") {
        r.header = doxygen(&r.header);
        r.implementation = doxygen(&r.implementation);
    }
    r
}
/// The documentation of `CFG.doxygen`: doc comments come out with three slashes, and those of one line are extended,
/// as Doxygen takes only blocks of two. The doc comments of generated sources start with a known word.
fn doxygen(text: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let text = String::from_utf8_lossy(text).into_owned();
    let mut group = 0;
    let mut indent = String::new();
    for l in text.split_inclusive('\n') {
        let t = l.trim_start();
        let starts = t.starts_with("// Documentation");
        if starts || group > 0 && t.starts_with("//") {
            indent = l[..l.len() - t.len()].to_owned();
            group += 1;
            out.extend_from_slice(format!("{indent}/{t}").as_bytes());
            continue;
        }
        if group == 1 {
            out.extend_from_slice(format!("{indent}///\n").as_bytes());
        }
        group = 0;
        out.extend_from_slice(l.as_bytes());
    }
    out
}
