//! Workload "fmt": Display and Debug of everything the bridge provides, into sinks that fail at any byte.
use crate::sim::*;
use crate::spec::*;
use crate::user::{mix, text};
use crate::Work;
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};
use fb::{FKind, FObj, FRec, FUnit};
use std::fmt::{self, Debug, Display, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static WORK: Work = Work { name: "fmt", gen, name_of, fixup: |_| {}, setup: |_| {}, thread, finish: || {}, data_matters: true };

#[cxx::bridge(namespace = "rt")]
pub mod fb {
    #[derive(Debug, Clone, Copy)]
    struct FUnit {
        n: i16,
    }
    #[derive(Debug, Clone)]
    struct FRec {
        name: String,
        kind_: u8,
        list: Vec<i32>,
        unit: FUnit,
        kind: FKind,
        pair: [u16; 2],
    }
    #[derive(Debug)]
    #[repr(u8)]
    enum FKind {
        One = 1,
        Two,
        Nine = 9,
    }
    unsafe extern "C++" {
        include!("rtsim/cxx/fmt.h");
        type FObj;
        fn f_id(self: &FObj) -> u64;
        fn f_str(b: &[u8]) -> UniquePtr<CxxString>;
        fn f_shared(b: &[u8]) -> SharedPtr<CxxString>;
        fn f_vstr(b: &[u8], n: usize) -> UniquePtr<CxxVector<CxxString>>;
        fn f_obj(id: u64) -> UniquePtr<FObj>;
        fn f_sobj(id: u64) -> SharedPtr<FObj>;
        fn f_vobj(id: u64, n: usize) -> UniquePtr<CxxVector<FObj>>;
        fn f_su32(v: u32) -> SharedPtr<u32>;
        fn f_throw(b: &[u8]) -> Result<()>;
    }
    impl WeakPtr<FObj> {}
}
impl Display for FObj {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.pad(&format!("<{}>", self.f_id()))
    }
}
impl Debug for FObj {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_struct("FObj").field("id", &self.f_id()).field("text", &"a\nb").finish()
    }
}

/// Something that prints the given text.
struct Lit(String);
impl Debug for Lit {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
struct Obj(u64);
impl Display for Obj {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.pad(&format!("<{}>", self.0))
    }
}
impl Debug for Obj {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_struct("FObj").field("id", &self.0).field("text", &"a\nb").finish()
    }
}
mod twin {
    #[derive(Debug)]
    pub struct FUnit {
        #[allow(dead_code)]
        pub n: i16,
    }
    #[derive(Debug)]
    #[allow(dead_code)]
    pub struct FRec {
        pub name: String,
        pub kind_: u8,
        pub list: Vec<i32>,
        pub unit: FUnit,
        pub kind: super::Lit,
        pub pair: [u16; 2],
    }
    #[derive(Debug)]
    pub struct Exception {
        #[allow(dead_code)]
        pub what: String,
    }
}

const OPS: &[&str] = &[
    "str_display", "str_debug", "unique_str", "shared_str", "weak_str", "vec_str", "unique_vec_str", "vec_u8", "vec_i32", "vec_f64", "vec_obj", "unique_obj", "shared_obj",
    "weak_obj", "weak_dead", "null", "shared_u32", "exception", "record", "kind", "unit", "unique_vec_debug_pretty",
];
fn name_of(f: u32) -> String {
    OPS.get(f as usize).unwrap_or(&"?").to_string()
}
fn gen(r: &mut Rng, _check: &str) -> Spec {
    let n = 1 + r.below(30);
    let faults = [30, 80, 100][r.below(3) as usize];
    let ops = (0..n)
        .map(|_| {
            let mode = if r.chance(faults) { 1 + r.below(4) } else { 0 };
            OpSpec { thread: 0, parent: -1, f: r.below(OPS.len() as u64) as u32, outcome: 0, id: 1 + r.below(1 << 16), msg: r.below(1 << 10), a: [r.below(8) as i64, r.below(12) as i64, mode as i64, r.below(1 << 12) as i64] }
        })
        .collect();
    Spec { work: &WORK, nthreads: 1, ops, sched: Sched::None }
}

static mut CUR: u64 = 0;
fn bad(what: impl AsRef<str>) {
    let what = what.as_ref();
    outside(|| unsafe {
        let o = *h_ops.add(CUR as usize);
        viol(V_FMT, &format!("op {CUR} {}: {what}", name_of(o.f)))
    });
}
/// Fails once, in the middle of everything; accepts what comes later.
struct Sink {
    left: usize,
    mode: i64, // 0 never fails, 1 takes what fits and fails, 2 takes nothing of the failing piece, 3 fails at the n-th call, 4 panics
    text: Vec<u8>,
    failed: bool,
    after: bool,
}
impl Sink {
    fn put(&mut self, s: &[u8]) -> bool {
        if self.failed {
            self.after = true;
        }
        let cost = if self.mode == 3 { 1 } else { s.len() };
        if self.mode == 0 || self.failed || cost <= self.left {
            self.left = self.left.saturating_sub(cost);
            self.text.extend_from_slice(s);
            return true;
        }
        self.failed = true;
        if self.mode == 1 {
            self.text.extend_from_slice(&s[..self.left]);
        }
        if self.mode == 4 {
            unsafe { sim_probe(13) };
            panic!("sink");
        }
        unsafe { sim_probe(12) };
        false
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.put(s.as_bytes()) {
            Ok(())
        } else {
            Err(fmt::Error)
        }
    }
}
struct IoSink(Sink);
impl std::io::Write for IoSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0.put(b) {
            Ok(b.len())
        } else {
            Err(std::io::Error::from_raw_os_error(28))
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Formats once into a failing sink and then into one that does not fail.
fn case(h: &HOp, args: fmt::Arguments, want: &str) {
    let n = h.a[3] as usize;
    let left = if h.a[2] == 3 { n % 12 } else { n % (want.len() + 2) };
    let mut k = Sink { left, mode: h.a[2], text: vec![], failed: false, after: false };
    let r = if h.msg & 1 != 0 {
        let mut w = IoSink(k);
        let r = catch_unwind(AssertUnwindSafe(|| std::io::Write::write_fmt(&mut w, args)));
        k = w.0;
        match r {
            Ok(Err(e)) => {
                if e.raw_os_error() != Some(28) {
                    bad(format!("error of the sink became {e}"));
                }
                Some(false)
            }
            Ok(Ok(())) => Some(true),
            Err(_) => None,
        }
    } else {
        catch_unwind(AssertUnwindSafe(|| k.write_fmt(args))).ok().map(|r| r.is_ok())
    };
    let expected = if !k.failed { Some(true) } else if k.mode == 4 { None } else { Some(false) };
    if r != expected {
        bad(format!("outcome {r:?}, expected {expected:?}"));
    }
    if k.after {
        bad("written to after the sink failed");
    }
    if if k.failed { !want.as_bytes().starts_with(&k.text) } else { k.text != want.as_bytes() } {
        bad(format!("wrote {:?}, expected {:?}", String::from_utf8_lossy(&k.text), want));
    }
    let mut s = String::new();
    if s.write_fmt(args).is_err() || s != want {
        bad(format!("a later attempt wrote {s:?}, expected {want:?}"));
    }
}
fn debug_text(b: &[u8]) -> String {
    let mut o = String::from("\"");
    for c in b.utf8_chunks() {
        for ch in c.valid().chars() {
            if ch == '\'' {
                o.push(ch);
            } else {
                o.extend(ch.escape_debug());
            }
        }
        for x in c.invalid() {
            o += &format!("\\x{x:02x}");
        }
    }
    o + "\""
}
fn content(h: &HOp) -> Vec<u8> {
    let mut b = vec![];
    let mut s = h.id;
    let mut rnd = |n: u64| {
        s = mix(s);
        (s >> 8) % n
    };
    for _ in 0..[0, 1, 3, 8, 20, 60][rnd(6) as usize] {
        match rnd(10) {
            0 => b.push(rnd(256) as u8),
            1 => b.extend(["\u{e9}", "\u{20ac}", "\u{1f600}", "\u{0}", "\u{7f}", "\u{301}", "\u{200b}", "\u{10ffff}"][rnd(8) as usize].as_bytes()),
            2 => b.extend([&b"\xf0\x9f\x98"[..], b"\xed\xa0\x80", b"\xc0\xaf", b"\xff", b"\xe2\x82", b"\xf4\x90\x80\x80"][rnd(6) as usize]),
            3 => b.push(b"'\"\\\n\r\t"[rnd(6) as usize]),
            _ => b.push(b'a' + rnd(26) as u8),
        }
    }
    b
}
macro_rules! all {
    ($h:ident, $x:expr, $y:expr; $($f:literal)*) => {{
        let fs = [$($f),*];
        let (x, y) = (&$x, &$y);
        let mut k = 0;
        $(
            if $h.a[0] as usize % fs.len() == k {
                case($h, format_args!($f, x), &format!($f, y));
            }
            k += 1;
        )*
        let _ = k;
    }};
}
fn nums<T: Copy>(n: usize, f: impl Fn(usize) -> T) -> Vec<T> {
    (0..n).map(f).collect()
}
macro_rules! vec_of {
    ($t:ty, $h:ident, $n:ident) => {{
        let v: Vec<$t> = nums($n, |i| crate::user::Kind::make($h.id + i as u64));
        let mut c: UniquePtr<CxxVector<$t>> = CxxVector::new();
        for x in &v {
            c.pin_mut().push(*x);
        }
        (c, v)
    }};
}
fn op(h: &HOp) {
    let b = content(h);
    let n = h.a[1] as usize;
    let lossy = String::from_utf8_lossy(&b).into_owned();
    let lit = || Lit(debug_text(&b));
    let pieces = || -> Vec<Lit> { (0..n).map(|i| Lit(debug_text(&b[b.len() * i / n..b.len() * (i + 1) / n]))).collect() };
    match OPS[h.f as usize] {
        "str_display" => {
            let s = fb::f_str(&b);
            case(h, format_args!("{}", &*s), &lossy);
        }
        "str_debug" => {
            let s = fb::f_str(&b);
            let s: &CxxString = &s;
            all!(h, s, lit(); "{:?}" "{:#?}" "[{:?}]");
        }
        "unique_str" => {
            let s = fb::f_str(&b);
            if h.a[0] & 1 != 0 {
                case(h, format_args!("{s}"), &lossy);
            } else {
                all!(h, s, lit(); "{:?}" "{:#?}");
            }
        }
        "shared_str" => {
            let s = fb::f_shared(&b);
            if h.a[0] & 1 != 0 {
                case(h, format_args!("{s}"), &lossy);
            } else {
                all!(h, s, lit(); "{:?}" "{:#?}");
            }
        }
        "weak_str" => {
            let s = fb::f_shared(&b);
            let w = s.downgrade();
            all!(h, w, lit(); "{:?}" "{:#?}");
        }
        "vec_str" => {
            let v = fb::f_vstr(&b, n);
            let v: &CxxVector<CxxString> = &v;
            all!(h, v, pieces(); "{:?}" "{:#?}");
        }
        "unique_vec_str" => {
            let v = fb::f_vstr(&b, n);
            all!(h, v, pieces(); "{:?}" "{:#?}");
        }
        "unique_vec_debug_pretty" => {
            let v = [fb::f_vstr(&b, n), UniquePtr::null()];
            let w = [format!("{:#?}", pieces()), "nullptr".into()].map(Lit);
            case(h, format_args!("{v:#?}"), &format!("{w:#?}"));
        }
        "vec_u8" => {
            let (c, v) = vec_of!(u8, h, n);
            all!(h, c, v; "{:?}" "{:#?}" "{:5?}" "{:#x?}" "{:02X?}");
        }
        "vec_i32" => {
            let (c, v) = vec_of!(i32, h, n);
            all!(h, c, v; "{:?}" "{:#?}" "{:+?}" "{:<12?}");
        }
        "vec_f64" => {
            let (c, v) = vec_of!(f64, h, n);
            all!(h, c, v; "{:?}" "{:#?}" "{:.1?}" "{:9.2?}");
        }
        "vec_obj" => {
            let c = fb::f_vobj(h.id, n);
            let v: Vec<Obj> = (0..n as u64).map(|i| Obj(h.id + i)).collect();
            all!(h, c, v; "{:?}" "{:#?}" "{:x?}");
        }
        "unique_obj" => {
            let c = fb::f_obj(h.id);
            all!(h, c, Obj(h.id); "{:?}" "{:#?}" "{}" "{:>12}" "{:x?}" "{:^3}");
        }
        "shared_obj" => {
            let c = fb::f_sobj(h.id);
            all!(h, c, Obj(h.id); "{:?}" "{:#?}" "{}" "{:>12}" "{:x?}" "{:-<20}");
        }
        "weak_obj" => {
            let s = fb::f_sobj(h.id);
            let w = s.downgrade();
            all!(h, w, Obj(h.id); "{:?}" "{:#?}" "{:x?}");
        }
        "weak_dead" => {
            let s = fb::f_sobj(h.id);
            let w = s.downgrade();
            drop(s);
            case(h, format_args!("{w:?}"), "nullptr");
            case(h, format_args!("{:#?}", WeakPtr::<FObj>::null()), "nullptr");
        }
        "null" => match h.a[0] % 7 {
            0 => case(h, format_args!("{}", UniquePtr::<CxxString>::null()), "nullptr"),
            1 => case(h, format_args!("{:?}", UniquePtr::<CxxVector<u8>>::null()), "nullptr"),
            2 => case(h, format_args!("{}", SharedPtr::<FObj>::null()), "nullptr"),
            3 => case(h, format_args!("{:?}", SharedPtr::<u32>::null()), "nullptr"),
            4 => case(h, format_args!("{:?}", UniquePtr::<FObj>::null()), "nullptr"),
            5 => case(h, format_args!("{:?}", WeakPtr::<u32>::null()), "nullptr"),
            _ => case(h, format_args!("{}", UniquePtr::<FObj>::null()), "nullptr"),
        },
        "shared_u32" => {
            let x = h.id as u32;
            let s = fb::f_su32(x);
            if h.a[0] & 1 != 0 {
                let w = s.downgrade();
                all!(h, w, x; "{:?}" "{:#x?}" "{:08?}");
            } else {
                all!(h, s, x; "{:?}" "{}" "{:>8}" "{:+}" "{:#010?}");
            }
        }
        "exception" => {
            let b: Vec<u8> = b.iter().copied().filter(|c| *c != 0).collect();
            let lossy = String::from_utf8_lossy(&b).into_owned();
            match fb::f_throw(&b) {
                Ok(()) => bad("no exception"),
                Err(e) => {
                    if h.a[0] & 1 != 0 {
                        case(h, format_args!("{e}"), &lossy);
                    } else {
                        all!(h, e, twin::Exception { what: lossy }; "{:?}" "{:#?}");
                    }
                }
            }
        }
        "record" => {
            let k = mix(h.id) as u8 % 12;
            let r = FRec { name: text(h.id), kind_: k, list: vec![h.id as i32; n], unit: FUnit { n: -3 }, kind: FKind { repr: k }, pair: [1, h.id as u16] };
            let t = twin::FRec { name: text(h.id), kind_: k, list: vec![h.id as i32; n], unit: twin::FUnit { n: -3 }, kind: Lit(String::new()), pair: [1, h.id as u16] };
            let kind = || match k {
                1 => "One".to_string(),
                2 => "Two".into(),
                9 => "Nine".into(),
                _ => format!("FKind({k})"),
            };
            if h.a[0] & 1 != 0 {
                let t = twin::FRec { kind: Lit(kind()), ..t };
                case(h, format_args!("{r:#?}"), &format!("{t:#?}"));
            } else {
                let t = twin::FRec { kind: Lit(kind()), ..t };
                case(h, format_args!("{r:?}"), &format!("{t:?}"));
            }
        }
        "kind" => {
            let k = mix(h.id) as u8 % 12;
            let x = FKind { repr: k };
            match k {
                1 => all!(h, x, Lit("One".into()); "{:?}" "{:#?}"),
                2 => all!(h, x, Lit("Two".into()); "{:?}" "{:#?}"),
                9 => all!(h, x, Lit("Nine".into()); "{:?}" "{:#?}"),
                _ => all!(h, x, Lit(format!("FKind({k})")); "{:?}" "{:#?}"),
            }
        }
        _ => {
            let n = h.id as i16;
            all!(h, FUnit { n }, twin::FUnit { n }; "{:?}" "{:#?}" "{:x?}" "{:+?}");
        }
    }
}
fn thread(_: u32) {
    unsafe {
        sim_enter();
        for i in 0..h_nops {
            (*sim_sh).cur_op[0] = i as i32;
            CUR = i;
            let h = *h_ops.add(i as usize);
            op(&h);
            let q = sim_pause();
            sim_hist(i << 8 | h.f as u64);
            (*sim_sh).opsdone += 1;
            sim_resume(q);
        }
        sim_leave();
    }
}
