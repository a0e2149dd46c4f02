//! Workload "io": std::io through UniquePtr and CxxString while the object underneath stops short,
//! is interrupted or fails at any call.
use crate::sim::*;
use crate::spec::*;
use crate::user::{message, text};
use crate::Work;
use cxx::memory::UniquePtrTarget;
use cxx::{let_cxx_string, CxxString, UniquePtr};
use iob::{Full, Stream};
use std::fmt::{self, Write as _};
use std::io::{self, BufRead, Error, ErrorKind, IoSlice, IoSliceMut, Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;

pub static WORK: Work = Work { name: "io", gen, name_of, fixup: |_| {}, setup: |_| {}, thread, finish: || {}, data_matters: true };

#[cxx::bridge(namespace = "rt")]
pub mod iob {
    unsafe extern "C++" {
        include!("rtsim/cxx/io.h");
        type Stream;
        fn io_read(self: Pin<&mut Stream>, buf: &mut [u8]) -> i64;
        fn io_write(self: Pin<&mut Stream>, buf: &[u8]) -> i64;
        fn io_seek(self: Pin<&mut Stream>, whence: u8, off: i64) -> i64;
        fn io_flush(self: Pin<&mut Stream>) -> i64;
        fn io_state(self: &Stream) -> u64;
        fn io_pos(self: &Stream) -> usize;
        fn io_len(self: &Stream) -> usize;
        fn io_calls(self: &Stream) -> u64;
        fn io_stream(seed: u64, faults: u32) -> UniquePtr<Stream>;
        type Full;
        fn io_read(self: Pin<&mut Full>, buf: &mut [u8]) -> i64;
        fn io_write(self: Pin<&mut Full>, buf: &[u8]) -> i64;
        fn io_seek(self: Pin<&mut Full>, whence: u8, off: i64) -> i64;
        fn io_flush(self: Pin<&mut Full>) -> i64;
        fn io_plan(self: Pin<&mut Full>, call: u32) -> i64;
        fn io_note(self: Pin<&mut Full>, what: u64);
        fn io_state(self: &Full) -> u64;
        fn io_pos(self: &Full) -> usize;
        fn io_len(self: &Full) -> usize;
        fn io_calls(self: &Full) -> u64;
        fn io_full(seed: u64, faults: u32) -> UniquePtr<Full>;
    }
}

fn result(n: i64) -> io::Result<u64> {
    if n >= 0 {
        return Ok(n as u64);
    }
    Err(match n {
        -1 => Error::from(ErrorKind::Interrupted),
        -2 => Error::from_raw_os_error(28),
        -3 => Error::new(ErrorKind::InvalidInput, "bad position"),
        -4 => Error::new(ErrorKind::WouldBlock, "not now"),
        -5 => Error::new(ErrorKind::Other, "custom"),
        -6 => Error::from(ErrorKind::UnexpectedEof),
        -7 => Error::from_raw_os_error(5),
        _ => panic!("stream"),
    })
}
macro_rules! basic {
    () => {
        fn flush(&mut self) -> io::Result<()> {
            result(self.as_mut().io_flush()).map(|_| ())
        }
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            result(self.as_mut().io_write(b)).map(|n| n as usize)
        }
    };
}
macro_rules! seek {
    () => {
        fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
            result(match p {
                SeekFrom::Start(n) => self.as_mut().io_seek(0, n as i64),
                SeekFrom::Current(n) => self.as_mut().io_seek(1, n),
                SeekFrom::End(n) => self.as_mut().io_seek(2, n),
            })
        }
    };
}
// only what the traits require
impl Read for Pin<&mut Stream> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        result(self.as_mut().io_read(b)).map(|n| n as usize)
    }
}
impl Write for Pin<&mut Stream> {
    basic!();
}
impl Seek for Pin<&mut Stream> {
    seek!();
}
// a type with its own version of everything
impl Pin2 for Pin<&mut Full> {
    fn plan(&mut self, call: u32) -> io::Result<()> {
        result(self.as_mut().io_plan(call)).map(|_| ())
    }
}
trait Pin2 {
    fn plan(&mut self, call: u32) -> io::Result<()>;
}
impl Read for Pin<&mut Full> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        result(self.as_mut().io_read(b)).map(|n| n as usize)
    }
    fn read_vectored(&mut self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        let mut n = 0;
        for b in bufs {
            let k = self.read(b)?;
            n += k;
            if k < b.len() {
                break;
            }
        }
        Ok(n)
    }
    fn read_to_end(&mut self, v: &mut Vec<u8>) -> io::Result<usize> {
        self.plan(10)?;
        let mut n = 0;
        let mut b = [0; 7];
        loop {
            let k = self.read(&mut b)?;
            v.extend_from_slice(&b[..k]);
            n += k;
            if k == 0 {
                return Ok(n);
            }
        }
    }
    fn read_to_string(&mut self, s: &mut String) -> io::Result<usize> {
        self.plan(11)?;
        let mut n = 0;
        let mut b = [0; 5];
        loop {
            let k = self.read(&mut b)?;
            s.extend(b[..k].iter().map(|c| *c as char));
            n += k;
            if k == 0 {
                return Ok(n);
            }
        }
    }
    fn read_exact(&mut self, b: &mut [u8]) -> io::Result<()> {
        self.plan(12)?;
        if !b.is_empty() {
            let k = self.read(&mut b[..1])?;
            b[k..].fill(b'e');
        }
        Ok(())
    }
}
impl Write for Pin<&mut Full> {
    basic!();
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        self.plan(13)?;
        let mut n = 0;
        for b in bufs {
            let k = self.write(b)?;
            n += k;
            if k < b.len() {
                break;
            }
        }
        Ok(n)
    }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
        self.plan(14)?;
        for c in b.chunks(3) {
            self.write(c)?;
        }
        Ok(())
    }
    fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> io::Result<()> {
        self.plan(15)?;
        let s = format!("[{a}]");
        self.write(s.as_bytes()).map(|_| ())
    }
}
impl Seek for Pin<&mut Full> {
    seek!();
    fn rewind(&mut self) -> io::Result<()> {
        self.plan(16)?;
        self.as_mut().io_note(1);
        self.seek(SeekFrom::Start(1)).map(|_| ())
    }
    fn stream_position(&mut self) -> io::Result<u64> {
        self.plan(17)?;
        Ok(self.io_pos() as u64 + 1000)
    }
    fn seek_relative(&mut self, n: i64) -> io::Result<()> {
        self.plan(18)?;
        self.seek(SeekFrom::Current(n + 1)).map(|_| ())
    }
}

trait Target: UniquePtrTarget + 'static {
    fn make(seed: u64, faults: u32) -> UniquePtr<Self>
    where
        Self: Sized;
    fn state(&self) -> u64;
    fn pos(&self) -> usize;
    fn len(&self) -> usize;
    fn calls(&self) -> u64;
}
macro_rules! target {
    ($t:ident $f:ident) => {
        impl Target for $t {
            fn make(seed: u64, faults: u32) -> UniquePtr<Self> {
                iob::$f(seed, faults)
            }
            fn state(&self) -> u64 {
                self.io_state()
            }
            fn pos(&self) -> usize {
                self.io_pos()
            }
            fn len(&self) -> usize {
                self.io_len()
            }
            fn calls(&self) -> u64 {
                self.io_calls()
            }
        }
    };
}
target!(Stream io_stream);
target!(Full io_full);

const OPS: &[&str] = &[
    "read", "read_to_end", "read_to_string", "read_exact", "seek", "rewind", "stream_position", "seek_relative", "write", "write_vectored", "flush", "write_all",
    "write_fmt", "bytes", "take", "chain", "copy_out", "copy_in", "buf_read", "buf_write", "read_vectored", "by_ref", "null", "write_fmt_fail", "box_dyn",
    // CxxString
    "s_write", "s_write_all", "s_vectored", "s_io_fmt", "s_fmt", "s_fmt_fail", "s_char", "s_copy", "s_buffered", "s_unique", "s_line", "s_flush",
];
const NSTREAM: usize = 25;
fn name_of(f: u32) -> String {
    OPS.get(f as usize).unwrap_or(&"?").to_string()
}
fn gen(r: &mut Rng, _check: &str) -> Spec {
    let strings = r.chance(20);
    let faults = [0, 10, 30, 60][r.below(4) as usize];
    let seed = r.below(1 << 20) as i64;
    let full = r.below(2) as i64;
    let n = 1 + r.below(24);
    let ops = (0..n)
        .map(|_| {
            let f = if strings { NSTREAM as u64 + r.below((OPS.len() - NSTREAM) as u64) } else { r.below(NSTREAM as u64) };
            let size = match r.below(4) {
                0 => r.below(4),
                1 => r.below(40),
                2 => r.below(300),
                _ => r.below(10000),
            };
            OpSpec { thread: 0, parent: -1, f: f as u32, outcome: 0, id: 1 + r.below(1 << 16), msg: r.below(1 << 10), a: [full, size as i64, seed, faults] }
        })
        .collect();
    Spec { work: &WORK, nthreads: 1, ops, sched: Sched::None }
}

static mut CUR: u64 = 0;
fn bad(what: impl AsRef<str>) {
    let what = what.as_ref();
    outside(|| unsafe {
        let o = *h_ops.add(CUR as usize);
        viol(V_IO, &format!("op {CUR} {}: {what}", name_of(o.f)))
    });
}
fn fault_free(e: &Error) -> String {
    format!("{:?} {} {:?} {}", e.kind(), e, e.raw_os_error(), e.get_ref().is_some())
}
fn show<T: fmt::Debug>(r: io::Result<T>) -> String {
    match r {
        Ok(x) => format!("{x:?}"),
        Err(e) => format!("error {}", fault_free(&e)),
    }
}
struct FailFmt(u64);
impl fmt::Display for FailFmt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("some ")?;
        if self.0 & 1 != 0 {
            return Err(fmt::Error);
        }
        f.write_str("text")
    }
}
struct Out {
    result: String,
    data: Vec<u8>,
}
/// One operation on something that reads, writes and seeks; never depends on what that something is.
fn apply<S: Read + Write + Seek>(s: &mut S, h: &HOp) -> Out {
    let n = h.a[1] as usize;
    let mut data = vec![];
    let result = match OPS[h.f as usize] {
        "read" => {
            data = vec![0xAA; n];
            show(s.read(&mut data))
        }
        "read_to_end" => {
            data = text(h.id).into_bytes();
            show(s.read_to_end(&mut data))
        }
        "read_to_string" => {
            let mut t = text(h.id);
            let r = show(s.read_to_string(&mut t));
            data = t.into_bytes();
            r
        }
        "read_exact" => {
            data = vec![0xAA; n % 500];
            show(s.read_exact(&mut data))
        }
        "seek" => {
            let p = match h.msg % 3 {
                0 => SeekFrom::Start(h.id % 1000),
                1 => SeekFrom::Current(h.id as i64 % 200 - 100),
                _ => SeekFrom::End(h.id as i64 % 200 - 180),
            };
            show(s.seek(p))
        }
        "rewind" => show(s.rewind()),
        "stream_position" => show(s.stream_position()),
        "seek_relative" => show(s.seek_relative(h.id as i64 % 200 - 100)),
        "write" => show(s.write(&bytes(h.id, n))),
        "write_vectored" => {
            let (a, b, c) = (bytes(h.id, n % 50), bytes(h.id + 1, n % 7), bytes(h.id + 2, n % 90));
            show(s.write_vectored(&[IoSlice::new(&a), IoSlice::new(&b), IoSlice::new(&[]), IoSlice::new(&c)]))
        }
        "read_vectored" => {
            let (mut a, mut b, mut c) = (vec![0xAA; n % 9], vec![0xAA; n % 60], vec![0xAA; n % 3]);
            let r = show(s.read_vectored(&mut [IoSliceMut::new(&mut a), IoSliceMut::new(&mut []), IoSliceMut::new(&mut b), IoSliceMut::new(&mut c)]));
            data = [a, b, c].concat();
            r
        }
        "flush" => show(s.flush()),
        "write_all" => show(s.write_all(&bytes(h.id, n))),
        "write_fmt" => show(write!(s, "{}-{:>9}-{:?}", text(h.id), h.id, text(h.id + 1))),
        "write_fmt_fail" => {
            // std panics if formatting fails without an error of the writer
            show(write!(s, "{}{}", text(h.id), FailFmt(0)))
        }
        "bytes" => {
            let mut r = vec![];
            for x in Read::by_ref(s).bytes().take(n % 60) {
                match x {
                    Ok(c) => data.push(c),
                    Err(e) => r.push(fault_free(&e)),
                }
            }
            format!("{r:?}")
        }
        "take" => show(Read::by_ref(s).take(n as u64).read_to_end(&mut data)),
        "chain" => show(Read::by_ref(s).chain(&b"tail"[..]).read_to_end(&mut data)),
        "copy_out" => show(io::copy(s, &mut data)),
        "copy_in" => show(io::copy(&mut &bytes(h.id, n)[..], s)),
        "buf_read" => {
            let mut r = io::BufReader::with_capacity(1 + n % 64, s);
            let mut l = vec![];
            let x = show(r.read_until(b'e', &mut data));
            let y = show(r.read_until(b'a', &mut l));
            data.extend(l);
            format!("{x} {y}")
        }
        "buf_write" => {
            let mut w = io::BufWriter::with_capacity(1 + n % 64, s);
            let x = show(w.write_all(&bytes(h.id, n % 300)));
            let y = show(w.write(&bytes(h.id + 1, n % 20)));
            let z = show(w.flush());
            let (_, left) = w.into_parts();
            format!("{x} {y} {z} {:?}", left.map(|l| l.len()).map_err(|_| ()))
        }
        "by_ref" => {
            data = vec![0; n % 40];
            let x = show(Read::by_ref(s).read(&mut data));
            let y = show(Write::by_ref(s).write(b"by_ref"));
            format!("{x} {y}")
        }
        "box_dyn" => {
            data = vec![0; n % 40];
            let d: &mut dyn Read = s;
            let x = show(d.read(&mut data));
            let d: &mut dyn Write = s;
            let y = show(d.write_all(b"dyn"));
            let d: &mut dyn Seek = s;
            format!("{x} {y} {}", show(d.stream_position()))
        }
        _ => String::new(),
    };
    Out { result, data }
}
fn bytes(id: u64, n: usize) -> Vec<u8> {
    (0..n as u64).map(|i| (id + i * 7 + (i >> 5)) as u8).collect()
}
struct Pair<T: Target> {
    via: UniquePtr<T>,
    direct: UniquePtr<T>,
}
impl<T: Target> Pair<T>
where
    for<'a> Pin<&'a mut T>: Read + Write + Seek,
{
    fn op(&mut self, h: &HOp) {
        match OPS[h.f as usize] {
            "null" => {
                let mut n: UniquePtr<T> = UniquePtr::null();
                let r = catch_unwind(AssertUnwindSafe(|| match h.msg % 5 {
                    0 => n.read(&mut [0; 4]).is_ok(),
                    1 => n.write(b"x").is_ok(),
                    2 => n.seek(SeekFrom::Start(0)).is_ok(),
                    3 => n.flush().is_ok(),
                    _ => n.read_to_end(&mut vec![]).is_ok(),
                }));
                if r.is_ok() {
                    bad("no panic on null");
                }
                return;
            }
            _ => {}
        }
        let mut d = Out { result: "panic".into(), data: vec![] };
        let mut v = Out { result: "panic".into(), data: vec![] };
        let _ = catch_unwind(AssertUnwindSafe(|| d = apply(&mut self.direct.pin_mut(), h)));
        let _ = catch_unwind(AssertUnwindSafe(|| v = apply(&mut self.via, h)));
        if d.result != v.result {
            bad(format!("result {} instead of {}", v.result, d.result));
        }
        if d.data != v.data {
            bad(format!("{} bytes read that differ from the {} read directly", v.data.len(), d.data.len()));
        }
        self.same();
    }
    fn same(&self) {
        let (a, b) = (&*self.via, &*self.direct);
        if a.pos() != b.pos() || a.len() != b.len() || a.calls() != b.calls() || a.state() != b.state() {
            bad(format!("the object saw other calls or holds other data: position {} length {} calls {}, directly {} {} {}", a.pos(), a.len(), a.calls(), b.pos(), b.len(), b.calls()));
        }
    }
}

/// CxxString as a sink: everything is appended at once and nothing fails by itself.
fn string_op(mut s: Pin<&mut CxxString>, m: &mut Vec<u8>, h: &HOp) {
    let n = h.a[1] as usize;
    let b = bytes(h.id, n);
    let want = |ok: bool, what: &str| {
        if !ok {
            bad(what);
        }
    };
    match OPS[h.f as usize] {
        "s_write" => {
            want(matches!(s.write(&b), Ok(k) if k == n), "result of write");
            m.extend(b);
        }
        "s_write_all" => {
            want(s.write_all(&b).is_ok(), "result of write_all");
            m.extend(b);
        }
        "s_vectored" => {
            let c = message(h.id);
            let all = [&b[..], &c[..]].concat();
            match s.write_vectored(&[IoSlice::new(&[]), IoSlice::new(&b), IoSlice::new(&c)]) {
                // it may take less than everything
                Ok(k) if k <= all.len() && (k > 0 || all.is_empty()) => m.extend(&all[..k]),
                _ => bad("result of write_vectored"),
            }
        }
        "s_io_fmt" => {
            let t = text(h.id);
            want(io::Write::write_fmt(&mut s, format_args!("{t}|{:?}|{:08x}", t, h.id)).is_ok(), "result of write_fmt");
            m.extend(format!("{t}|{:?}|{:08x}", t, h.id).as_bytes());
        }
        "s_fmt" => {
            let t = text(h.id);
            want(fmt::Write::write_fmt(&mut s, format_args!("{t}|{:?}|{:08x}", t, h.id)).is_ok(), "result of write_fmt");
            m.extend(format!("{t}|{:?}|{:08x}", t, h.id).as_bytes());
        }
        "s_fmt_fail" => {
            let r = fmt::Write::write_fmt(&mut s, format_args!("<{}{}>", h.id, FailFmt(h.msg)));
            want(r.is_err() == (h.msg & 1 != 0), "result of a failing write_fmt");
            m.extend(format!("<{}some ", h.id).as_bytes());
            if r.is_ok() {
                m.extend(b"text>");
            } else {
                unsafe { sim_probe(11) };
            }
        }
        "s_char" => {
            for c in ['x', '\0', '\u{e9}', '\u{20ac}', '\u{10ffff}'] {
                want(s.write_char(c).is_ok(), "result of write_char");
                m.extend(c.to_string().as_bytes());
            }
        }
        "s_copy" => {
            // from a reader that is interrupted and stops short; copy ends at the first other error
            let mut src = iob::io_stream(h.a[2] as u64 + h.id, h.a[3] as u32);
            let mut twin = iob::io_stream(h.a[2] as u64 + h.id, h.a[3] as u32);
            let mut all = vec![];
            let x = catch_unwind(AssertUnwindSafe(|| show(io::copy(&mut twin.pin_mut(), &mut all)))).unwrap_or("panic".into());
            let y = catch_unwind(AssertUnwindSafe(|| show(io::copy(&mut src, &mut s)))).unwrap_or("panic".into());
            let got = s.len() - m.len();
            // the two sinks may be offered buffers of different sizes, which changes the script
            if h.a[3] == 0 {
                want(x == y && s.as_bytes()[m.len()..] == all[..], "bytes copied into a string");
            } else {
                want(got == src.pos(), "bytes lost between a stream and a string");
            }
            *m = s.as_bytes().to_vec();
        }
        "s_buffered" => {
            {
                let mut w = io::BufWriter::with_capacity(1 + n % 50, s.as_mut());
                want(w.write_all(&b).is_ok() && w.write_all(b"+").is_ok(), "result of a buffered write");
                if h.msg & 1 != 0 {
                    want(w.flush().is_ok(), "result of a flush");
                }
            }
            m.extend(b);
            m.push(b'+');
        }
        "s_line" => {
            {
                let mut w = io::LineWriter::new(s.as_mut());
                want(writeln!(w, "{}", text(h.id)).is_ok() && w.write_all(b"rest").is_ok(), "result of a line");
            }
            m.extend(format!("{}\nrest", text(h.id)).as_bytes());
        }
        "s_unique" => {
            let mut u = crate::ffi::mk_str(h.id);
            let mut um = text(h.id).into_bytes();
            want(matches!(u.write(&b), Ok(k) if k == n), "result of write through a pointer");
            want(u.write_all(b"all").is_ok() && write!(u, "{:?}", h.id).is_ok() && u.flush().is_ok(), "results through a pointer");
            um.extend(&b);
            um.extend(format!("all{:?}", h.id).as_bytes());
            want(u.as_bytes() == &um[..], "contents written through a pointer");
        }
        _ => want(s.flush().is_ok(), "result of flush"),
    }
    want(s.as_bytes() == &m[..], "contents of the string");
}

fn thread(_: u32) {
    unsafe {
        sim_enter();
        let first = if h_nops > 0 { *h_ops } else { return };
        let (seed, faults) = (first.a[2] as u64, first.a[3] as u32);
        let mut basic = Pair::<Stream> { via: UniquePtr::null(), direct: UniquePtr::null() };
        let mut full = Pair::<Full> { via: UniquePtr::null(), direct: UniquePtr::null() };
        if first.a[0] == 0 {
            (basic.via, basic.direct) = (Target::make(seed, faults), Target::make(seed, faults));
        } else {
            (full.via, full.direct) = (Target::make(seed, faults), Target::make(seed, faults));
        }
        let mut m = vec![];
        let_cxx_string!(s = "");
        for i in 0..h_nops {
            (*sim_sh).cur_op[0] = i as i32;
            CUR = i;
            let h = *h_ops.add(i as usize);
            if h.f as usize >= NSTREAM {
                string_op(s.as_mut(), &mut m, &h);
            } else if first.a[0] == 0 {
                basic.op(&h);
            } else {
                full.op(&h);
            }
            let q = sim_pause();
            sim_hist(i << 8 | h.f as u64);
            (*sim_sh).opsdone += 1;
            sim_resume(q);
        }
        drop((basic, full, m));
        sim_leave();
    }
}
