//! The simulator: nodes, their threads and clocks, the scheduler, faults, and the observed history.
use crate::rng::Rng;
use crate::vfs::*;
use std::arch::asm;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::{c_char, CString};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Op {
    Open,
    Create,
    Read,
    Write,
    Stat,
    Mkdir,
    Symlink,
    Unlink,
    Rmdir,
    Rename,
    Readlink,
    Realpath,
    Opendir,
    Readdir,
    Sync,
    Stdin,
    Stdout,
    Stderr,
    Other,
}
pub const NOPS: usize = 19;
pub const OPNAMES: [&str; NOPS] = [
    "open", "create", "read", "write", "stat", "mkdir", "symlink", "unlink", "rmdir", "rename", "readlink", "realpath", "opendir", "readdir", "sync", "stdin", "stdout", "stderr", "other",
];
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fk {
    Err(i32),    // this call fails
    Sticky(i32), // this call and every later call of the kind that errno belongs to fail
    Short,       // transfers part of the data
    Crash,       // the process is killed before the call takes effect
    CrashAfter,  // ... after it took effect
    CrashMid,    // ... in the middle of a write
}
impl Fk {
    pub fn name(self) -> String {
        match self {
            Fk::Err(e) => ename(e).into(),
            Fk::Sticky(e) => format!("{}...", ename(e)),
            Fk::Short => "short".into(),
            Fk::Crash => "crash".into(),
            Fk::CrashAfter => "crashafter".into(),
            Fk::CrashMid => "crashmid".into(),
        }
    }
    pub fn parse(s: &str) -> Option<Fk> {
        Some(match s {
            "short" => Fk::Short,
            "crash" => Fk::Crash,
            "crashafter" => Fk::CrashAfter,
            "crashmid" => Fk::CrashMid,
            _ => match s.strip_suffix("...") {
                Some(e) => Fk::Sticky(eparse(e)?),
                None => Fk::Err(eparse(s)?),
            },
        })
    }
    /// 0..: slot in the evidence counters
    pub fn slot(self) -> usize {
        match self {
            Fk::Err(e) => ENAMES.iter().position(|x| x.0 == e).unwrap(),
            Fk::Sticky(e) => 8 + ENAMES.iter().position(|x| x.0 == e).unwrap(),
            Fk::Short => 16,
            Fk::Crash => 17,
            Fk::CrashAfter => 18,
            Fk::CrashMid => 19,
        }
    }
    pub fn crash(self) -> bool {
        matches!(self, Fk::Crash | Fk::CrashAfter | Fk::CrashMid)
    }
    /// A fault no correct program lets show.
    pub fn transparent(self) -> bool {
        matches!(self, Fk::Short | Fk::Err(EINTR))
    }
}
pub const ENAMES: [(i32, &str); 7] = [(EIO, "EIO"), (ENOSPC, "ENOSPC"), (EACCES, "EACCES"), (EINTR, "EINTR"), (EMFILE, "EMFILE"), (EROFS, "EROFS"), (EPIPE, "EPIPE")];
pub fn ename(e: i32) -> &'static str {
    ENAMES.iter().find(|x| x.0 == e).map_or("E?", |x| x.1)
}
fn eparse(s: &str) -> Option<i32> {
    ENAMES.iter().find(|x| x.1 == s).map(|x| x.0)
}
fn applies(op: Op, k: Fk) -> bool {
    use Op::*;
    match k {
        Fk::Crash | Fk::CrashAfter => true,
        Fk::CrashMid => matches!(op, Write),
        Fk::Short => matches!(op, Read | Write | Stdin | Stdout | Stderr),
        Fk::Err(e) => match e {
            EINTR => matches!(op, Open | Create | Read | Write | Stdin | Stdout | Stderr),
            EIO => !matches!(op, Other),
            ENOSPC => matches!(op, Create | Write | Mkdir | Symlink | Rename | Stdout | Sync),
            EACCES => matches!(op, Open | Create | Stat | Mkdir | Symlink | Unlink | Rmdir | Rename | Readlink | Realpath | Opendir),
            EMFILE => matches!(op, Open | Create | Opendir),
            EROFS => matches!(op, Create | Mkdir | Symlink | Unlink | Rmdir | Rename),
            EPIPE => matches!(op, Stdout | Stderr),
            _ => false,
        },
        Fk::Sticky(e) => match e {
            ENOSPC | EROFS => applies(op, Fk::Err(e)) && op != Stdout,
            EPIPE => op == Stdout,
            EACCES => matches!(op, Create | Mkdir | Symlink | Unlink | Rmdir | Rename),
            EIO => matches!(op, Read | Write | Create | Mkdir | Symlink | Unlink),
            _ => false,
        },
    }
}

#[derive(Clone, Debug)]
pub struct Delivered {
    pub call: u32,
    pub op: Op,
    pub path: String,
    pub kind: Fk,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Exit {
    Code(i32),
    Killed,
    Abort,
}
#[derive(Clone)]
pub struct Fd {
    pub ino: Ino,
    pub pos: usize,
    pub append: bool,
    pub path: String, // resolved: directory path + name
}
pub struct NodeSt {
    pub name: String,
    pub env: Vec<(String, String)>,
    pub envc: Vec<CString>,
    pub envp: Vec<*mut c_char>,
    pub argc: Vec<CString>,
    pub argp: Vec<*mut c_char>,
    pub cwd: Ino,
    pub fds: BTreeMap<i32, Fd>,
    pub nextfd: i32,
    pub stdin: Vec<u8>,
    pub stdin_pos: usize,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub results: Vec<(u32, String)>,
    pub exit: Option<Exit>,
    pub calls: u32,
    pub faults: Vec<(u32, Fk)>,
    pub sticky: Vec<i32>,
    pub delivered: Vec<Delivered>,
    pub rng: Rng,
    pub pid: i32,
    pub clock: i64,
    /// Canonical paths below which this node may change things, and single files it may write.
    pub roots: Vec<String>,
    pub files: Vec<String>,
    pub nthreads: u32,
    pub mutations: Vec<(Op, String)>,
}
impl NodeSt {
    pub fn new(name: String) -> NodeSt {
        NodeSt {
            name,
            env: vec![],
            envc: vec![],
            envp: vec![],
            argc: vec![],
            argp: vec![],
            cwd: ROOT,
            fds: BTreeMap::new(),
            nextfd: 1000,
            stdin: vec![],
            stdin_pos: 0,
            stdout: vec![],
            stderr: vec![],
            results: vec![],
            exit: None,
            calls: 0,
            faults: vec![],
            sticky: vec![],
            delivered: vec![],
            rng: Rng::new(0, 0),
            pid: 4242,
            clock: 0,
            roots: vec![],
            files: vec![],
            nthreads: 1,
            mutations: vec![],
        }
    }
    pub fn ready(&mut self) {
        self.envc = self.env.iter().map(|(k, v)| CString::new(format!("{k}={v}").bytes().map(|b| if b == 1 { 0xff } else { b }).collect::<Vec<u8>>()).unwrap()).collect();
        self.envp = self.envc.iter().map(|c| c.as_ptr() as *mut c_char).chain([std::ptr::null_mut()]).collect();
        self.argp = self.argc.iter().map(|c| c.as_ptr() as *mut c_char).chain([std::ptr::null_mut()]).collect();
    }
    pub fn out(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn err(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TState {
    Ready,
    Blocked(usize),
    Done,
}
pub struct Thread {
    pub node: usize,
    pub state: TState,
    pub turn: AtomicU32,
}
#[derive(Clone, Debug)]
pub enum Sched {
    Random { seed: u64, gap: u64 },
    List(Vec<(u64, u32)>),
}
pub struct Sim {
    pub vfs: Vfs,
    pub nodes: Vec<NodeSt>,
    pub threads: Vec<Box<Thread>>,
    pub cur: usize,
    pub main_turn: AtomicU32,
    pub points: u64,
    pub sched: Sched,
    pub srng: Rng,
    pub switches: Vec<(u64, u32)>,
    pub viols: Vec<(crate::exec::Cls, String)>,
    pub sig: u64,
    pub trace: bool,
    pub log: Vec<String>,
    pub opcount: [u64; NOPS],
    /// Called after every change of the file system: (node, op, path).
    pub watch: Option<fn(&mut Sim, usize)>,
    pub hang: bool,
    pub argv_slot: *mut *mut c_char,
}

#[thread_local]
pub static TID: Cell<i32> = Cell::new(-1);

pub static mut SIM: *mut Sim = std::ptr::null_mut();
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
extern "C" {
    static mut environ: *mut *mut c_char;
}

unsafe fn futex(addr: *const AtomicU32, op: usize, val: u32) {
    let mut ret: isize = 202;
    asm!("syscall", inlateout("rax") ret, in("rdi") addr, in("rsi") op, in("rdx") val as usize, in("r10") 0usize, lateout("rcx") _, lateout("r11") _);
    let _ = ret;
}
fn wait(a: &AtomicU32) {
    while a.load(SeqCst) == 0 {
        unsafe { futex(a, 128, 0) };
    }
    a.store(0, SeqCst);
}
fn wake(a: &AtomicU32) {
    a.store(1, SeqCst);
    unsafe { futex(a, 129, 1) };
}
pub fn park() -> ! {
    let a = AtomicU32::new(0);
    loop {
        unsafe { futex(&a, 128, 0) };
    }
}

impl Sim {
    pub fn viol(&mut self, c: crate::exec::Cls, m: String) {
        if self.viols.len() < 16 {
            self.viols.push((c, m));
        }
    }
    fn mix(&mut self, x: u64) {
        self.sig = (self.sig ^ x).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23);
    }
    fn activate(&mut self, t: usize) {
        self.cur = t;
        let n = &self.nodes[self.threads[t].node];
        unsafe {
            environ = n.envp.as_ptr() as *mut *mut c_char;
            for (i, p) in n.argp.iter().enumerate() {
                *self.argv_slot.add(i) = *p;
            }
        }
    }
    /// Hands the processor to another thread; the caller's state is already set.
    fn switch(&mut self, to: usize) {
        let me = self.cur;
        self.activate(to);
        let w: *const AtomicU32 = &self.threads[me].turn;
        wake(&self.threads[to].turn);
        wait(unsafe { &*w });
    }
    fn ready_threads(&self) -> Vec<usize> {
        (0..self.threads.len()).filter(|t| self.threads[*t].state == TState::Ready).collect()
    }
    /// A scheduling point of the running thread.
    pub fn point(&mut self) {
        self.points += 1;
        if self.points > 400_000 {
            self.hang = true;
            self.finish_all();
        }
        let at = self.points;
        let to = match &self.sched {
            Sched::Random { gap, .. } => {
                if self.threads.len() < 2 || self.srng.below(*gap) != 0 {
                    return;
                }
                let r = self.ready_threads();
                r[self.srng.below(r.len() as u64) as usize]
            }
            Sched::List(l) => match l.iter().find(|x| x.0 == at) {
                Some(x) if (x.1 as usize) < self.threads.len() && self.threads[x.1 as usize].state == TState::Ready => x.1 as usize,
                _ => return,
            },
        };
        if to != self.cur {
            self.switches.push((at, to as u32));
            self.mix(at ^ (to as u64) << 40);
            self.switch(to);
        }
    }
    /// The running thread cannot go on.
    pub fn yield_blocked(&mut self) {
        let r = self.ready_threads();
        if r.is_empty() {
            if self.threads.iter().any(|t| matches!(t.state, TState::Blocked(_))) {
                self.hang = true;
            }
            self.finish_all();
        }
        let to = match &self.sched {
            Sched::Random { .. } => r[self.srng.below(r.len() as u64) as usize],
            Sched::List(l) => {
                // forced switches are recorded with the high bit set on the point number
                let at = self.points | 1 << 63;
                match l.iter().find(|x| x.0 == at) {
                    Some(x) if r.contains(&(x.1 as usize)) => x.1 as usize,
                    _ => r[0],
                }
            }
        };
        self.switches.push((self.points | 1 << 63, to as u32));
        self.mix(self.points ^ (to as u64) << 40);
        self.switch(to);
    }
    fn finish_all(&mut self) -> ! {
        wake(&self.main_turn);
        park()
    }
    /// Ends the running thread's node.
    pub fn node_exit(&mut self, e: Exit) -> ! {
        let n = self.threads[self.cur].node;
        if self.nodes[n].exit.is_none() {
            self.nodes[n].exit = Some(e);
        }
        for t in &mut self.threads {
            if t.node == n {
                t.state = TState::Done;
            }
        }
        if let Some(w) = self.watch {
            w(self, n);
        }
        if self.threads.iter().all(|t| t.state == TState::Done) {
            self.finish_all();
        }
        self.yield_blocked();
        park()
    }
    pub fn thread_done(&mut self, code: i32) -> ! {
        let n = self.threads[self.cur].node;
        self.threads[self.cur].state = TState::Done;
        if code != 0 || self.threads.iter().all(|t| t.node != n || t.state == TState::Done) {
            self.node_exit(Exit::Code(code));
        }
        self.yield_blocked();
        park()
    }
    /// Runs threads to their end; `threads` are (node, body).
    pub fn run(&mut self, bodies: Vec<(usize, Box<dyn FnOnce() -> i32 + Send>)>) {
        self.threads.clear();
        for (n, _) in &bodies {
            self.threads.push(Box::new(Thread { node: *n, state: TState::Ready, turn: AtomicU32::new(0) }));
        }
        for (t, (_, body)) in bodies.into_iter().enumerate() {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    wait(&sim().threads[t].turn);
                    TID.set(t as i32);
                    let code = body();
                    TID.set(-1);
                    sim().thread_done(code);
                })
                .expect("thread");
        }
        let first = match &self.sched {
            Sched::Random { .. } => self.srng.below(self.threads.len() as u64) as usize,
            Sched::List(l) => l.iter().find(|x| x.0 == self.points | 1 << 62).map_or(0, |x| (x.1 as usize).min(self.threads.len() - 1)),
        };
        self.switches.push((self.points | 1 << 62, first as u32));
        self.mix(first as u64);
        let env = unsafe { environ };
        self.activate(first);
        wake(&self.threads[first].turn);
        wait(&self.main_turn);
        unsafe { environ = env };
        for t in self.threads.drain(..) {
            Box::leak(t); // ended threads stay parked on it
        }
    }
    pub fn node(&mut self) -> usize {
        self.threads[self.cur].node
    }
    /// Entry of every simulated system call: scheduling, counting, faults.
    /// Returns the fault to apply, if any.
    pub fn enter(&mut self, op: Op, path: &str) -> Option<Fk> {
        self.point();
        self.vfs.now += 1_000;
        let n = self.node();
        self.opcount[op as usize] += 1;
        let h = crate::rng::hash(path.as_bytes());
        self.mix(h ^ (op as u64) << 56 ^ (n as u64) << 50);
        let nd = &mut self.nodes[n];
        if self.trace {
            self.log.push(format!("[{}.{}] {} {}", n, nd.calls, OPNAMES[op as usize], path));
        }
        let call = nd.calls;
        nd.calls += 1;
        let mut hit = None;
        if let Some(e) = nd.sticky.iter().copied().find(|e| applies(op, Fk::Sticky(*e))) {
            hit = Some(Fk::Err(e));
        } else if let Some(k) = nd.faults.iter().position(|f| f.0 <= call && applies(op, f.1)) {
            let f = nd.faults.remove(k).1;
            hit = Some(f);
            if let Fk::Sticky(e) = f {
                nd.sticky.push(e);
            }
        }
        if let Some(k) = hit {
            nd.delivered.push(Delivered { call, op, path: path.into(), kind: k });
            if self.trace {
                self.log.push(format!("    fault {}", k.name()));
            }
            self.mix(0xfa17 ^ k.slot() as u64);
            if k == Fk::Crash {
                self.node_exit(Exit::Killed);
            }
            if let Fk::Sticky(e) = k {
                return Some(Fk::Err(e));
            }
        }
        hit
    }
    pub fn leave(&mut self, f: Option<Fk>) {
        if f == Some(Fk::CrashAfter) || f == Some(Fk::CrashMid) {
            self.node_exit(Exit::Killed);
        }
    }
    /// A change of the file system by the running node at `dir`/`name`.
    pub fn mutate(&mut self, op: Op, dir: Ino, name: &str) {
        let n = self.node();
        let d = self.vfs.dir_path(dir);
        let p = if name == "." { d.clone() } else { format!("{}/{}", d.trim_end_matches('/'), name) };
        let nd = &mut self.nodes[n];
        let within = |root: &String| p == *root || p.starts_with(&format!("{root}/"));
        let above = |root: &String| op == Op::Mkdir && root.starts_with(&format!("{p}/"));
        let ok = nd.roots.iter().any(|r| within(r) || above(r)) || (nd.files.contains(&p) && matches!(op, Op::Write | Op::Create));
        // a whole output root is never removed or replaced from outside
        nd.mutations.push((op, p.clone()));
        if self.trace {
            self.log.push(format!("    {} {}", OPNAMES[op as usize], p));
        }
        if !ok {
            let m = format!("{} {} {p}, which is not one of its outputs", nd.name, match op {
                Op::Write => "changed",
                Op::Create => "created",
                Op::Unlink => "deleted",
                Op::Rmdir => "removed the directory",
                Op::Mkdir => "created the directory",
                Op::Symlink => "created the link",
                Op::Rename => "renamed",
                _ => "touched",
            });
            self.viol(crate::exec::Cls::Outside, m);
        }
    }
    pub fn changed(&mut self) {
        if let Some(w) = self.watch {
            let n = self.node();
            w(self, n);
        }
    }
}
