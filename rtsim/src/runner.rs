//! Seeds to runs, runs in forked processes, judging, minimising, replaying, evidence.
use crate::sim::*;
use crate::spec::*;
use crate::{run_here, works, Work};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn open(p: *const u8, f: i32, ...) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

pub struct Check {
    pub id: &'static str,
    pub works: &'static [(&'static str, u64)], // with weights
    pub classes: &'static [i32],
    pub quick: u64,
    pub thorough: u64,
}
include!("checks.rs");

#[derive(Clone)]
pub struct Verdict {
    pub cls: i32,
    pub msg: String,
    pub sched: Vec<Switch>,
}

fn shm() -> &'static mut Shm {
    unsafe { &mut *sim_sh }
}

/// One execution of spec; None means it held.
pub fn execute(spec: &Spec) -> Option<Verdict> {
    unsafe {
        sim_reset_shm();
        let pid = fork();
        if pid == 0 {
            setrlimit(0, &[20, 25]); // CPU seconds
            setrlimit(4, &[0, 0]); // no core files
            alarm(200);
            if std::env::var_os("RTSIM_STDERR").is_none() {
                let fd = open(c"/dev/null".as_ptr() as *const u8, 1);
                dup2(fd, 2);
            }
            run_here(spec);
            _exit(0);
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        judge(st)
    }
}
fn judge(st: i32) -> Option<Verdict> {
    let s = shm();
    let sched = s.sched[..(s.nsched as usize).min(MAXSCHED)].to_vec();
    let v = |cls, msg: String| Some(Verdict { cls, msg, sched: sched.clone() });
    if s.nviol > 0 {
        let x = &s.viol[0];
        let n = x.msg.iter().position(|c| *c == 0).unwrap_or(400);
        return v(x.cls, String::from_utf8_lossy(&x.msg[..n]).into_owned());
    }
    let sig = st & 0x7f;
    let code = (st >> 8) & 0xff;
    if s.fatal_expected != 0 {
        // a planned fault was raised: only abnormal termination is right
        if matches!(sig, 6 | 4 | 5) {
            return None;
        }
        let how = if sig != 0 { format!("the process died of signal {sig}") } else { format!("the process went on and ended with status {code}") };
        return v(V_FATAL, format!("op {}: after a fault that must abort the process, {how}", s.fatal_expected - 1));
    }
    if sig == 0 && code == 0 && s.finished == 1 {
        return None;
    }
    let ops: Vec<i32> = s.cur_op.iter().copied().filter(|x| *x >= 0).collect();
    match sig {
        14 | 24 | 9 => v(V_HANG, format!("no end after the time limit, in op {ops:?}")),
        0 => v(V_CRASH, format!("the process ended with status {code} in op {ops:?}")),
        _ => v(V_CRASH, format!("the process died of signal {sig} in op {ops:?}")),
    }
}

const NCOV: usize = 1 << 16;
const NSIG: usize = 1 << 22;
#[repr(C)]
struct Ctl {
    next: AtomicU64,
    minfail: AtomicU64,
    runs: AtomicU64,
    ops: AtomicU64,
    steps: AtomicU64,
    accesses: AtomicU64,
    allocs: AtomicU64,
    alloc_faults: AtomicU64,
    switches: AtomicU64,
    fatal: AtomicU64,
    multi: AtomicU64,
    nested: AtomicU64,
    distinct: AtomicU64,
    known: AtomicU64,
    stop: AtomicU64,
    outcomes: [AtomicU64; 32],
    probes: [AtomicU64; 96],
    cov: [AtomicU64; NCOV],  // (workload, op, outcome) counters by hash
    sigs: [AtomicU64; NSIG], // signatures of runs
    ssigs: [AtomicU64; NSIG], // signatures of schedules
    nsched: AtomicU64,
}
fn insert(set: &[AtomicU64], mut h: u64) -> bool {
    h |= 1;
    let n = set.len() as u64;
    let mut i = (h.wrapping_mul(0x9e3779b97f4a7c15) >> 20) % n;
    for _ in 0..64 {
        let c = set[i as usize].load(Relaxed);
        if c == h {
            return false;
        }
        if c == 0 {
            if set[i as usize].compare_exchange(0, h, Relaxed, Relaxed).is_ok() {
                return true;
            }
            continue;
        }
        i = (i + 1) % n;
    }
    false
}

fn spec_for(check: &Check, seed: u64, i: u64) -> Spec {
    let mut r = Rng::new(seed, i);
    let w: Vec<u64> = check.works.iter().map(|x| x.1).collect();
    let k = r.weighted(&w);
    let work: &'static Work = works().iter().copied().find(|w| w.name == check.works[k].0).unwrap();
    (work.gen)(&mut r, check.id)
}

fn worker(check: &Check, seed: u64, n: u64, ctl: &Ctl, known: &[String]) {
    loop {
        let i = ctl.next.fetch_add(1, Relaxed);
        if i >= n || i > ctl.minfail.load(Relaxed) || ctl.stop.load(Relaxed) != 0 {
            return;
        }
        let spec = spec_for(check, seed, i);
        let v = execute(&spec);
        let s = shm();
        ctl.runs.fetch_add(1, Relaxed);
        ctl.ops.fetch_add(s.opsdone, Relaxed);
        ctl.steps.fetch_add(s.steps, Relaxed);
        ctl.accesses.fetch_add(s.accesses, Relaxed);
        ctl.allocs.fetch_add(s.allocs, Relaxed);
        ctl.alloc_faults.fetch_add(s.alloc_faults, Relaxed);
        ctl.switches.fetch_add(s.nsched as u64, Relaxed);
        ctl.fatal.fetch_add((s.fatal_expected != 0) as u64, Relaxed);
        ctl.multi.fetch_add((spec.nthreads > 1) as u64, Relaxed);
        for (k, p) in s.probes.iter().enumerate() {
            ctl.probes[k].fetch_add(*p, Relaxed);
        }
        for o in &spec.ops {
            ctl.outcomes[(o.outcome & 31) as usize].fetch_add(1, Relaxed);
            ctl.nested.fetch_add((o.parent >= 0) as u64, Relaxed);
            let h = (o.f as u64).wrapping_mul(37).wrapping_add(o.outcome as u64).wrapping_mul(0x9e3779b97f4a7c15) ^ (o.parent >= 0) as u64 * 0x51f1;
            ctl.cov[(h >> 48) as usize % NCOV].fetch_add(1, Relaxed);
        }
        let sig = spec.hash() ^ s.sched_sig.rotate_left(17) ^ s.hist_sig;
        if s.opsdone > 0 && insert(&ctl.sigs, sig) {
            ctl.distinct.fetch_add(1, Relaxed);
        }
        if spec.nthreads > 1 && insert(&ctl.ssigs, s.sched_sig) {
            ctl.nsched.fetch_add(1, Relaxed);
        }
        if let Some(v) = v {
            if !check.classes.contains(&v.cls) {
                continue;
            }
            if known.iter().any(|k| v.msg.contains(k.as_str())) {
                ctl.known.fetch_add(1, Relaxed);
                continue;
            }
            ctl.minfail.fetch_min(i, Relaxed);
        }
    }
}

/// Smaller specification with the same kind of violation.
fn minimise(spec: &Spec, v: &Verdict, budget: u32, limit: Instant) -> (Spec, Verdict) {
    let mut best = spec.clone();
    let mut bv = v.clone();
    let mut left = budget;
    let mut attempt = |s: Spec, best: &mut Spec, bv: &mut Verdict, left: &mut u32| -> bool {
        if *left == 0 || Instant::now() > limit {
            return false;
        }
        *left -= 1;
        match execute(&s) {
            Some(x) if x.cls == v.cls => {
                *best = s;
                *bv = x;
                true
            }
            _ => false,
        }
    };
    // the schedule as an explicit list
    if best.nthreads > 1 {
        let s = Spec { sched: Sched::List(v.sched.clone()), ..best.clone() };
        attempt(s, &mut best, &mut bv, &mut left);
    } else {
        best.sched = Sched::None;
    }
    loop {
        let mut changed = false;
        let mut k = best.ops.len();
        while k > 0 {
            k -= 1;
            if k < best.ops.len() && best.ops.len() > 1 {
                let s = best.without(k);
                if !s.ops.is_empty() {
                    changed |= attempt(s, &mut best, &mut bv, &mut left);
                }
            }
        }
        // schedule entries, in halves, then single ones
        if let Sched::List(l) = best.sched.clone() {
            let mut chunk = l.len();
            let mut cur = l;
            while chunk > 0 {
                let mut i = 0;
                while i < cur.len() {
                    let mut t = cur.clone();
                    t.drain(i..(i + chunk).min(t.len()));
                    let s = Spec { sched: Sched::List(t.clone()), ..best.clone() };
                    if attempt(s, &mut best, &mut bv, &mut left) {
                        cur = t;
                        changed = true;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        if !changed || left == 0 || Instant::now() > limit {
            break;
        }
    }
    for k in 0..best.ops.len() {
        if best.ops[k].outcome != 0 && best.ops[k].outcome < 16 {
            let mut s = best.clone();
            s.ops[k].outcome = 0;
            attempt(s, &mut best, &mut bv, &mut left);
        }
    }
    (best, bv)
}

fn jesc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn replay_text(check: &str, seed: u64, run: u64, spec: &Spec, v: &Verdict) -> String {
    format!(
        "# rtsim replay file; run: rtsim replay THIS_FILE\nproperty {check}\nfound-by seed={seed} run={run}\nclass {}\nviolation {}\n{}",
        CLS[v.cls as usize],
        v.msg,
        spec.to_text()
    )
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

pub fn main() {
    unsafe {
        sim_setup_shm();
        sim_arena_init();
    }
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(),
        Some("replay") => replay(&a[2]),
        Some("show") => {
            let c = CHECKS.iter().find(|c| c.id == a[2]).expect("check");
            print!("{}", spec_for(c, a[3].parse().unwrap(), a[4].parse().unwrap()).to_text());
        }
        // executes one run several times and prints its fingerprint
        Some("fingerprint") => {
            let c = CHECKS.iter().find(|c| c.id == a[2]).expect("check");
            let seed: u64 = a[3].parse().unwrap();
            for i in a[4].parse::<u64>().unwrap()..a[5].parse().unwrap() {
                let spec = spec_for(c, seed, i);
                let v = execute(&spec);
                let s = shm();
                println!("{i} {:x} {:x} {} {} {} {} {:?}", s.sched_sig, s.hist_sig, s.steps, s.accesses, s.nsched, s.allocs, v.map(|v| v.msg));
            }
        }
        _ => {
            eprintln!("usage: rtsim run --check ID --seed N --tier T --evidence FILE --replays DIR | replay FILE");
            std::process::exit(2);
        }
    }
}

fn replay(path: &str) {
    let t = std::fs::read_to_string(path).expect("replay file");
    let spec = Spec::parse(&t).expect("replay file format");
    let prop = t.lines().find_map(|l| l.strip_prefix("property ")).unwrap_or("?");
    match execute(&spec) {
        Some(v) => {
            println!("VIOLATION property={prop} replay={path}");
            println!("class={} {}", CLS[v.cls as usize], v.msg);
            std::process::exit(1);
        }
        None => {
            println!("the replayed run held");
            std::process::exit(0);
        }
    }
}

fn run() {
    let t0 = Instant::now();
    let id = arg("--check").expect("--check");
    let check = CHECKS.iter().find(|c| c.id == id).expect("known check");
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = arg("--tier").unwrap_or("quick".into());
    let n: u64 = arg("--runs").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { check.thorough } else { check.quick });
    let cap: u64 = arg("--cap").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 3000 } else { 300 });
    let workers: usize = arg("--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let known: Vec<String> = arg("--known")
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|t| {
            t.lines()
                .filter_map(|l| l.strip_prefix("known: "))
                .filter_map(|l| l.strip_prefix(&format!("property={id} ")))
                .filter_map(|l| l.split_once("match=\"").and_then(|x| x.1.split_once('"')).map(|x| x.0.to_owned()))
                .collect()
        })
        .unwrap_or_default();
    let ctl: &Ctl = unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Ctl>(), 3, 0x21 | 0x4000, -1, 0);
        &*(p as *const Ctl)
    };
    ctl.minfail.store(u64::MAX, Relaxed);
    let mut pids = vec![];
    for _ in 0..workers {
        unsafe {
            let pid = fork();
            if pid == 0 {
                sim_setup_shm();
                worker(check, seed, n, ctl, &known);
                _exit(0);
            }
            pids.push(pid);
        }
    }
    let mut left = pids.len();
    while left > 0 {
        let mut st = 0;
        let r = unsafe { waitpid(-1, &mut st, 1) };
        if r > 0 {
            left -= 1;
            if st != 0 {
                eprintln!("rtsim: a worker ended with status {st:#x}");
                std::process::exit(2);
            }
        } else {
            std::thread::sleep(std::time::Duration::from_millis(5));
            if t0.elapsed().as_secs() > cap {
                ctl.stop.store(1, Relaxed);
            }
        }
    }
    let explore_s = t0.elapsed().as_secs_f64();
    let fail = ctl.minfail.load(Relaxed);
    let mut vline = None;
    if fail != u64::MAX {
        let spec = spec_for(check, seed, fail);
        let v = execute(&spec);
        if let Some(v) = v {
            let (ms, mv) = minimise(&spec, &v, 1500, Instant::now() + std::time::Duration::from_secs(90));
            let dir = arg("--replays").unwrap_or("/tmp".into());
            std::fs::create_dir_all(&dir).ok();
            let path = format!("{dir}/{id}-{seed}-{fail}.replay");
            std::fs::write(&path, replay_text(&id, seed, fail, &ms, &mv)).expect("replay file");
            println!("VIOLATION property={id} replay={path}");
            println!("{} ({} operations, {} switches)", mv.msg, ms.ops.len(), match &ms.sched { Sched::List(l) => l.len(), _ => 0 });
            vline = Some((path, mv.msg));
        } else {
            println!("VIOLATION property={id} replay=seed={seed},run={fail}");
            println!("not reproduced on a second execution");
            vline = Some((format!("seed={seed},run={fail}"), "not reproduced".into()));
        }
    }
    if ctl.known.load(Relaxed) > 0 {
        for k in &known {
            println!("KNOWN-FINDING: property={id} {k}");
        }
    }
    // ------------------------------------------------------------ evidence
    let runs = ctl.runs.load(Relaxed);
    let mut faults = String::new();
    for (k, name) in [
        (2, "callee failed (std::exception / Err)"),
        (3, "callee failed (own exception type / Err)"),
        (4, "error of one language propagated through the other"),
        (5, "allocation failure planned"),
        (6, "throwing element constructor planned"),
        (16, "fatal: exception or panic across the boundary"),
        (17, "fatal: non-std exception / panicking Display"),
        (18, "fatal: failing Display"),
        (19, "fatal: panic in a destructor"),
        (20, "fatal: resumed unwind"),
    ] {
        let n = ctl.outcomes[k].load(Relaxed);
        if n > 0 {
            let _ = write!(faults, "\"{name}\": {n}, ");
        }
    }
    let _ = write!(faults, "\"allocation failures delivered\": {}, \"thread switches forced\": {}", ctl.alloc_faults.load(Relaxed), ctl.switches.load(Relaxed));
    let cov = ctl.cov.iter().filter(|c| c.load(Relaxed) > 0).count();
    let mut samples = String::new();
    for i in 0..3u64 {
        let s = spec_for(check, seed, i);
        let _ = write!(samples, "{}\"run {i}: {}\"", if i > 0 { ", " } else { "" }, jesc(&s.to_text().lines().take(6).collect::<Vec<_>>().join("; ")));
    }
    let probes: Vec<String> = ctl.probes.iter().enumerate().filter(|p| p.1.load(Relaxed) > 0).map(|(i, p)| format!("\"{}\": {}", jesc(PROBES.get(i).copied().unwrap_or("probe")), p.load(Relaxed))).collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        r#"{{
  "property": "{id}", "tier": "{tier}", "seed": {seed}, "level": "exploration",
  "wall_s": {wall:.1},
  "violations": {nv},
  "coverage": {{
    "evaluations": {runs},
    "distinct_nontrivial": {distinct},
    "rule": "one evaluation is one simulated run in a process of its own; two runs count as distinct if they differ in their operations, planned faults, nesting or thread assignment, in the order of scheduled accesses, or in the observed events; runs in which no operation completed are not counted",
    "samples": [{samples}],
    "runs_per_hour": {rph:.0}, "seeds_per_hour": {rph:.0},
    "simulated_time": "{steps} scheduling points (the runtime reads no clock; simulated time is counted in scheduling points)",
    "operations": {ops}, "nested_operations": {nested},
    "checked_heap_accesses": {acc}, "tracked_allocations": {allocs},
    "multi_threaded_runs": {multi}, "distinct_schedules": {ns},
    "runs_ending_in_a_planned_fatal_fault": {fatal},
    "operation_outcome_nesting_combinations": {cov},
    "known_findings_seen": {known},
    "faults_injected": {{{faults}}},
    "probes": {{{probes}}},
    "real_components": "the cxx crate, include/cxx.h, src/cxx.cc, code generated by cxxbridge-macro and cxx-build from /repo, rustc/std and libstdc++ headers (instrumented)",
    "stubs": "heap allocator (malloc, operator new, Rust global allocator), thread scheduler, mutex and futex waits; user code on both sides of the bridge is the simulator's workload"
  }}
}}
"#,
        nv = vline.is_some() as u32,
        distinct = ctl.distinct.load(Relaxed),
        rph = runs as f64 / explore_s * 3600.0,
        steps = ctl.steps.load(Relaxed),
        ops = ctl.ops.load(Relaxed),
        nested = ctl.nested.load(Relaxed),
        acc = ctl.accesses.load(Relaxed),
        allocs = ctl.allocs.load(Relaxed),
        multi = ctl.multi.load(Relaxed),
        ns = ctl.nsched.load(Relaxed),
        fatal = ctl.fatal.load(Relaxed),
        known = ctl.known.load(Relaxed),
        probes = probes.join(", "),
    );
    if let Some(p) = arg("--evidence") {
        std::fs::write(p, ev).expect("evidence");
    }
    println!("{id}: {runs} runs, {} distinct, {:.1} s", ctl.distinct.load(Relaxed), wall);
    std::process::exit(if vline.is_some() { 1 } else { 0 });
}
