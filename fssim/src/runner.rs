//! Seeds to runs, runs in forked processes, judging, minimising, replaying, evidence.
use crate::exec::*;
use crate::rng::Rng;
use crate::sim::*;
use crate::spec::*;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Instant;

pub struct Check {
    pub id: &'static str,
    pub classes: &'static [Cls],
    pub quick: u64,
    pub thorough: u64,
}
pub static CHECKS: &[Check] = &[
    Check { id: "C11", classes: &[Cls::Stale, Cls::Hang, Cls::Crash], quick: 12_000, thorough: 1_000_000 },
    Check { id: "C12", classes: &[Cls::Conc, Cls::Hang, Cls::Crash], quick: 8_000, thorough: 1_000_000 },
    Check { id: "C13", classes: &[Cls::Outside], quick: 12_000, thorough: 1_000_000 },
    Check { id: "C14", classes: &[Cls::Fault, Cls::Hang, Cls::Crash], quick: 20_000, thorough: 1_000_000 },
    Check { id: "C15", classes: &[Cls::Touch], quick: 10_000, thorough: 1_000_000 },
    Check { id: "C16", classes: &[Cls::Det, Cls::Crash], quick: 20_000, thorough: 1_000_000 },
    Check { id: "C17", classes: &[Cls::Cli, Cls::Hang, Cls::Crash], quick: 30_000, thorough: 1_000_000 },
    Check { id: "C18", classes: &[Cls::Inc], quick: 10_000, thorough: 1_000_000 },
    Check { id: "C19", classes: &[Cls::Cfg, Cls::Hang, Cls::Crash], quick: 30_000, thorough: 1_000_000 },
    Check { id: "C24", classes: &[Cls::Eval], quick: 30_000, thorough: 1_000_000 },
    Check { id: "C25", classes: &[Cls::Diag, Cls::Hang, Cls::Crash], quick: 20_000, thorough: 1_000_000 },
];

const MAXV: usize = 8;
const MSG: usize = 4000;
const MAXS: usize = 60_000;
#[repr(C)]
struct Shm {
    finished: u64,
    nviol: usize,
    cls: [u8; MAXV],
    msg: [[u8; MSG]; MAXV],
    nsched: usize,
    sched: [(u64, u32); MAXS],
    sig: u64,
    points: u64,
    sim_ns: u64,
    switches: u64,
    stats: Stats,
    ops: [u64; NOPS],
    faults: [u64; 20],
    step: u64,
}
static mut SHM: *mut Shm = std::ptr::null_mut();
fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
fn map<T>() -> *mut T {
    unsafe { libc::mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), 3, 0x21 | 0x4000, -1, 0) as *mut T }
}
#[derive(Clone)]
pub struct Verdict {
    pub cls: Cls,
    pub msg: String,
    pub sched: Vec<(u64, u32)>,
}
fn cls_of(k: u8) -> Cls {
    use Cls::*;
    [Stale, Conc, Outside, Fault, Touch, Det, Cli, Inc, Cfg, Eval, Diag, Hang, Crash][k as usize]
}
/// In the forked child.
fn child(spec: &Spec, trace: bool) {
    let s = execute(spec, trace);
    let m = shm();
    for (c, t) in s.viols.iter().take(MAXV) {
        let k = m.nviol;
        m.cls[k] = *c as u8;
        let n = t.len().min(MSG - 1);
        m.msg[k][..n].copy_from_slice(&t.as_bytes()[..n]);
        m.msg[k][n] = 0;
        m.nviol += 1;
    }
    m.nsched = s.switches.len().min(MAXS);
    m.sched[..m.nsched].copy_from_slice(&s.switches[..m.nsched]);
    m.sig = s.sig;
    m.points = s.points;
    m.sim_ns = s.vfs.now.abs_diff(1_000_000_000_000_000_000);
    m.switches = s.switches.iter().filter(|x| x.0 >> 62 != 1).count() as u64;
    m.stats = stats();
    m.ops = s.opcount;
    for n in &s.nodes {
        for d in &n.delivered {
            m.faults[d.kind.slot()] += 1;
        }
    }
    m.finished = 1;
    if trace {
        for l in &s.log {
            println!("{l}");
        }
        for (c, t) in &s.viols {
            println!("!! {} {t}", CLS[*c as usize]);
        }
        for n in &s.nodes {
            println!("-- {} {:?} {} calls\n{}{}", n.name, n.exit, n.calls, n.out(), n.err());
        }
    }
}
/// One execution; None means it held (for these classes).
fn attempt(spec: &Spec, classes: &[Cls], trace: bool) -> Option<Verdict> {
    unsafe {
        let m = shm();
        m.finished = 0;
        m.nviol = 0;
        m.nsched = 0;
        m.sig = 0;
        m.points = 0;
        m.sim_ns = 0;
        m.switches = 0;
        m.stats = Stats::default();
        m.ops = [0; NOPS];
        m.faults = [0; 20];
        let pid = libc::fork();
        if pid == 0 {
            // whatever should get past the simulated system calls meets an unprivileged user
            libc::syscall(libc::SYS_setresgid, 65534, 65534, 65534);
            libc::syscall(libc::SYS_setresuid, 65534, 65534, 65534);
            let l = libc::rlimit { rlim_cur: 30, rlim_max: 40 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            libc::alarm(120);
            std::panic::set_hook(Box::new(|i| eprintln!("fssim: {i}")));
            child(spec, trace);
            use std::io::Write;
            std::io::stdout().flush().ok();
            libc::_exit(0);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let m = shm();
        let sched = m.sched[..m.nsched].to_vec();
        for k in 0..m.nviol {
            let c = cls_of(m.cls[k]);
            if classes.contains(&c) {
                let n = m.msg[k].iter().position(|x| *x == 0).unwrap_or(MSG);
                return Some(Verdict { cls: c, msg: String::from_utf8_lossy(&m.msg[k][..n]).into_owned(), sched });
            }
        }
        if m.finished == 1 && st == 0 {
            return None;
        }
        let sig = st & 0x7f;
        let c = if matches!(sig, 14 | 24 | 9) { Cls::Hang } else { Cls::Crash };
        if !classes.contains(&c) {
            return None;
        }
        Some(Verdict { cls: c, msg: if sig != 0 { format!("the simulated process died of signal {sig}") } else { format!("the simulated process ended with status {}", st >> 8) }, sched })
    }
}

const NSIG: usize = 1 << 21;
#[repr(C)]
struct Ctl {
    next: AtomicU64,
    minfail: AtomicU64,
    runs: AtomicU64,
    points: AtomicU64,
    sim_us: AtomicU64,
    switches: AtomicU64,
    distinct: AtomicU64,
    nsched: AtomicU64,
    known: AtomicU64,
    stop: AtomicU64,
    stats: [AtomicU64; 15],
    ops: [AtomicU64; NOPS],
    faults: [AtomicU64; 20],
    sigs: [AtomicU64; NSIG],
    ssigs: [AtomicU64; NSIG],
}
fn insert(set: &[AtomicU64], mut h: u64) -> bool {
    h |= 1;
    let n = set.len() as u64;
    let mut i = (h.wrapping_mul(0x9e3779b97f4a7c15) >> 20) % n;
    for _ in 0..64 {
        let c = set[i as usize].load(Relaxed);
        if c == h {
            return false;
        }
        if c == 0 {
            if set[i as usize].compare_exchange(0, h, Relaxed, Relaxed).is_ok() {
                return true;
            }
            continue;
        }
        i = (i + 1) % n;
    }
    false
}
fn spec_for(id: &str, seed: u64, i: u64) -> Spec {
    crate::gen::generate(id, &mut Rng::new(seed ^ crate::rng::hash(id.as_bytes()), i))
}
fn worker(check: &Check, seed: u64, n: u64, ctl: &Ctl, known: &[String]) {
    loop {
        let i = ctl.next.fetch_add(1, Relaxed);
        if i >= n || i > ctl.minfail.load(Relaxed) || ctl.stop.load(Relaxed) != 0 {
            return;
        }
        let spec = spec_for(check.id, seed, i);
        let v = attempt(&spec, check.classes, false);
        let m = shm();
        ctl.runs.fetch_add(1, Relaxed);
        ctl.points.fetch_add(m.points, Relaxed);
        ctl.sim_us.fetch_add(m.sim_ns / 1000, Relaxed);
        ctl.switches.fetch_add(m.switches, Relaxed);
        let st: [u64; 15] = unsafe { std::mem::transmute(m.stats) };
        for (k, x) in st.iter().enumerate() {
            ctl.stats[k].fetch_add(*x, Relaxed);
        }
        for (k, x) in m.ops.iter().enumerate() {
            ctl.ops[k].fetch_add(*x, Relaxed);
        }
        for (k, x) in m.faults.iter().enumerate() {
            ctl.faults[k].fetch_add(*x, Relaxed);
        }
        if m.points > 0 && insert(&ctl.sigs, spec.hash() ^ m.sig.rotate_left(17)) {
            ctl.distinct.fetch_add(1, Relaxed);
        }
        if m.switches > 0 && insert(&ctl.ssigs, m.sig) {
            ctl.nsched.fetch_add(1, Relaxed);
        }
        if let Some(v) = v {
            if known.iter().any(|k| v.msg.contains(k.as_str())) {
                ctl.known.fetch_add(1, Relaxed);
                continue;
            }
            ctl.minfail.fetch_min(i, Relaxed);
        }
    }
}
/// A smaller run with the same kind of violation.
fn minimise(spec: &Spec, v: &Verdict, limit: Instant) -> (Spec, Verdict) {
    let mut best = spec.clone();
    let mut bv = v.clone();
    let classes = [v.cls];
    let mut tryit = |s: Spec, best: &mut Spec, bv: &mut Verdict| -> bool {
        if Instant::now() > limit {
            return false;
        }
        match attempt(&s, &classes, false) {
            Some(x) => {
                *best = s;
                *bv = x;
                true
            }
            None => false,
        }
    };
    let s = Spec { sched: Sched::List(v.sched.clone()), ..best.clone() };
    tryit(s, &mut best, &mut bv);
    loop {
        let mut changed = false;
        // steps, in halves and then single ones
        let mut chunk = best.steps.len();
        while chunk > 0 {
            let mut i = 0;
            while i < best.steps.len() {
                let mut s = best.clone();
                s.steps.drain(i..(i + chunk).min(s.steps.len()));
                if tryit(s, &mut best, &mut bv) {
                    changed = true;
                } else {
                    i += chunk;
                }
            }
            chunk /= 2;
        }
        // packages out of a common run, files out of a list
        for i in 0..best.steps.len() {
            let mut k = 0;
            loop {
                let mut s = best.clone();
                match &mut s.steps[i] {
                    Step::Run { ps } if ps.len() > 1 && k < ps.len() => {
                        ps.remove(k);
                    }
                    Step::Bridges { files, .. } if files.len() > 1 && k < files.len() => {
                        files.remove(k);
                    }
                    Step::Cli { args, .. } if args.len() > 1 && k < args.len() => {
                        args.remove(k);
                    }
                    _ => break,
                }
                if tryit(s, &mut best, &mut bv) {
                    changed = true;
                } else {
                    k += 1;
                }
            }
        }
        for (k, w) in [World { mark: 0, ..best.world.clone() }, World { tenv: 0, ..best.world.clone() }, World { tlink: 0, ..best.world.clone() }, World { plink: 0, ..best.world.clone() }, World { outdots: 0, ..best.world.clone() }, World { nohdr: 0, ..best.world.clone() }].into_iter().enumerate() {
            let _ = k;
            if w != best.world {
                let mut w2 = best.world.clone();
                let a = [w.mark, w.tenv, w.tlink, w.plink, w.outdots, w.nohdr];
                match k {
                    0 => w2.mark = a[0],
                    1 => w2.tenv = a[1],
                    2 => w2.tlink = a[2],
                    3 => w2.plink = a[3],
                    4 => w2.outdots = a[4],
                    _ => w2.nohdr = a[5],
                }
                let s = Spec { world: w2, ..best.clone() };
                changed |= tryit(s, &mut best, &mut bv);
            }
        }
        if let Sched::List(l) = best.sched.clone() {
            let mut chunk = l.len();
            let mut cur = l;
            while chunk > 0 {
                let mut i = 0;
                while i < cur.len() {
                    let mut t = cur.clone();
                    t.drain(i..(i + chunk).min(t.len()));
                    let s = Spec { sched: Sched::List(t.clone()), ..best.clone() };
                    if tryit(s, &mut best, &mut bv) {
                        cur = t;
                        changed = true;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        if !changed || Instant::now() > limit {
            break;
        }
    }
    (best, bv)
}
fn jesc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}
fn replay_text(check: &str, seed: u64, run: u64, spec: &Spec, v: &Verdict) -> String {
    format!("# fssim replay file; run: /verif/replay THIS_FILE\n# property {check}\n# found-by seed={seed} run={run}\n# class {}\n# violation {}\n{}", CLS[v.cls as usize], v.msg.replace('\n', " / "), spec.text())
}

pub fn main(a: Vec<String>) {
    let arg = |name: &str| a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned());
    unsafe { SHM = map::<Shm>() };
    let dir = std::env::current_exe().unwrap();
    let dir = dir.parent().unwrap().parent().unwrap().join("nodes");
    crate::nodes::load(dir.to_str().unwrap(), 15, 8);
    let classes_of = |id: &str| CHECKS.iter().find(|c| c.id == id).expect("known check").classes;
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&arg),
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let t2: String = t.lines().filter(|l| !l.starts_with('#')).map(|l| format!("{l}\n")).collect();
            let spec = Spec::parse(&t2).expect("replay file format");
            let prop = t.lines().find_map(|l| l.strip_prefix("# property ")).unwrap_or("?");
            let all = a.get(3).is_some_and(|x| x == "trace");
            match attempt(&spec, classes_of(prop), all) {
                Some(v) => {
                    println!("VIOLATION property={prop} replay={}", a[2]);
                    println!("class={} {}", CLS[v.cls as usize], v.msg);
                    std::process::exit(1);
                }
                None => println!("the replayed run held"),
            }
        }
        Some("show") => print!("{}", spec_for(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()).text()),
        Some("trace") => {
            attempt(&spec_for(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()), classes_of(&a[2]), true);
        }
        // executes runs and prints their fingerprints
        Some("fingerprint") => {
            for i in a[4].parse::<u64>().unwrap()..a[5].parse().unwrap() {
                let v = attempt(&spec_for(&a[2], a[3].parse().unwrap(), i), classes_of(&a[2]), false);
                let m = shm();
                println!("{i} {:x} {} {} {} {:?}", m.sig, m.points, m.nsched, m.sim_ns, v.map(|v| v.msg));
            }
        }
        // which generated sources the generator rejects
        Some("sources") => {
            let (x, y): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            let mut bad = 0;
            for i in x..y {
                let t = format!("{}{i}", a.get(4).map_or("g", |s| s.as_str()));
                let r = if t.starts_with('f') {
                    let e = crate::srcgen::Env::default();
                    crate::nodes::reference(crate::srcgen::conditional(i, Some(&e)).0.as_bytes(), "")
                } else {
                    crate::nodes::reference(&crate::srcgen::source(&t), "")
                };
                if t.starts_with('r') {
                    // what is not said about it
                    let (_, told, from) = crate::srcgen::rejected(i);
                    for w in told {
                        if !r.diags.iter().any(|d| d.start.0 < from && d.start != (1, 0)) && !r.diags.iter().any(|d| d.start == (w.line, w.col) && d.msg.contains(&w.msg)) {
                            println!("{t}: {}:{} {}; said: {:?}", w.line, w.col, w.msg, r.diags.iter().map(|d| format!("{:?} {}", d.start, d.msg)).collect::<Vec<_>>());
                        }
                    }
                }
                if !r.ok {
                    bad += 1;
                    println!("{t}: {}", r.error);
                }
            }
            println!("{bad} of {} rejected", y - x);
        }
        Some("source") => print!("{}", String::from_utf8_lossy(&crate::srcgen::source(&a[2]))),
        _ => {
            eprintln!("usage: fssim run --check ID --seed N --tier T --evidence FILE --replays DIR | replay FILE");
            std::process::exit(2);
        }
    }
}
fn run(arg: &dyn Fn(&str) -> Option<String>) {
    let t0 = Instant::now();
    let id = arg("--check").expect("--check");
    let check = CHECKS.iter().find(|c| c.id == id).expect("known check");
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = arg("--tier").unwrap_or("quick".into());
    let n: u64 = arg("--runs").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { check.thorough } else { check.quick });
    let cap: u64 = arg("--cap").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 3000 } else { 300 });
    let workers: usize = arg("--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let known: Vec<String> = arg("--known")
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|t| {
            t.lines()
                .filter_map(|l| l.strip_prefix("known: "))
                .filter_map(|l| l.strip_prefix(&format!("property={id} ")))
                .filter_map(|l| l.split_once("match=\"").and_then(|x| x.1.split_once('"')).map(|x| x.0.to_owned()))
                .collect()
        })
        .unwrap_or_default();
    let ctl: &Ctl = unsafe { &*map::<Ctl>() };
    ctl.minfail.store(u64::MAX, Relaxed);
    let mut left = 0;
    for _ in 0..workers {
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                SHM = map::<Shm>();
                worker(check, seed, n, ctl, &known);
                libc::_exit(0);
            }
            left += 1;
        }
    }
    while left > 0 {
        let mut st = 0;
        if unsafe { libc::waitpid(-1, &mut st, 1) } > 0 {
            left -= 1;
            if st != 0 {
                eprintln!("fssim: a worker ended with status {st:#x}");
                std::process::exit(2);
            }
        } else {
            std::thread::sleep(std::time::Duration::from_millis(5));
            if t0.elapsed().as_secs() > cap {
                ctl.stop.store(1, Relaxed);
            }
        }
    }
    let explore_s = t0.elapsed().as_secs_f64();
    let fail = ctl.minfail.load(Relaxed);
    let mut nv = 0;
    if fail != u64::MAX {
        nv = 1;
        let spec = spec_for(&id, seed, fail);
        match attempt(&spec, check.classes, false) {
            Some(v) => {
                let (ms, mv) = minimise(&spec, &v, Instant::now() + std::time::Duration::from_secs(60));
                let dir = arg("--replays").unwrap_or("/tmp".into());
                std::fs::create_dir_all(&dir).ok();
                let path = format!("{dir}/{id}-{seed}-{fail}.replay");
                std::fs::write(&path, replay_text(&id, seed, fail, &ms, &mv)).expect("replay file");
                println!("VIOLATION property={id} replay={path}");
                println!("{} ({} steps, {} switches)", mv.msg, ms.steps.len(), match &ms.sched { Sched::List(l) => l.len(), _ => 0 });
            }
            None => {
                println!("VIOLATION property={id} replay=seed={seed},run={fail}");
                println!("not reproduced on a second execution");
            }
        }
    }
    if ctl.known.load(Relaxed) > 0 {
        for k in &known {
            println!("KNOWN-FINDING: property={id} {k}");
        }
    }
    // ------------------------------------------------------------ evidence
    let g = |x: &AtomicU64| x.load(Relaxed);
    let runs = g(&ctl.runs);
    let mut faults = vec![];
    for k in 0..20 {
        let c = g(&ctl.faults[k]);
        if c > 0 {
            let name = match k {
                0..=7 => format!("{} once", ENAMES[k].1),
                8..=15 => format!("{} from then on", ENAMES[k - 8].1),
                16 => "short transfer".into(),
                17 => "process killed before a call".into(),
                18 => "process killed after a call".into(),
                _ => "process killed in the middle of a write".into(),
            };
            faults.push(format!("\"{name}\": {c}"));
        }
    }
    const SN: [&str; 15] = ["build scripts run", "processes that succeeded", "processes that failed", "processes killed", "command line invocations", "steps with several processes at once", "power losses", "leftovers planted", "unchanged outputs re-examined", "outputs compared", "steps of CFG programs", "failures that hard faults caused", "hard faults survived", "wrong inputs rejected", "errors whose report was examined"];
    let st: Vec<String> = (0..15).filter(|k| g(&ctl.stats[*k]) > 0).map(|k| format!("\"{}\": {}", SN[k], g(&ctl.stats[k]))).collect();
    let ops: Vec<String> = (0..NOPS).filter(|k| g(&ctl.ops[*k]) > 0).map(|k| format!("\"{}\": {}", OPNAMES[k], g(&ctl.ops[k]))).collect();
    let mut samples = vec![];
    for i in 0..3u64 {
        let t = spec_for(&id, seed, i).text();
        samples.push(format!("\"run {i}: {}\"", jesc(&t.lines().take(14).collect::<Vec<_>>().join("; "))));
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        r#"{{
  "property": "{id}", "tier": "{tier}", "seed": {seed}, "level": "exploration",
  "wall_s": {wall:.1},
  "violations": {nv},
  "coverage": {{
    "evaluations": {runs},
    "distinct_nontrivial": {distinct},
    "rule": "one evaluation is one simulated run (a world, its steps, faults and schedule); two runs count as distinct if their steps or the order and kind of simulated system calls, faults and switches differ; runs that reached no scheduling point are not counted",
    "samples": [{samples}],
    "runs_per_hour": {rph:.0}, "seeds_per_hour": {rph:.0},
    "simulated_time_s": {simt:.1}, "scheduling_points": {points},
    "process_and_thread_switches": {switches}, "distinct_schedules": {nsched},
    "system_calls": {{{ops}}},
    "faults_injected": {{{faults}}},
    "counts": {{{st}}},
    "known_findings_seen": {known},
    "real_components": "cxx-build and cxx-gen from /repo as linked into build scripts, the sources of the cxxbridge program, syn, proc-macro2, clap, cc and std above the system call interface",
    "stubs": "file system and other system calls, scheduler, futex, clock, process ids, random bytes, environment and arguments; the build scripts' own main programs; the C++ compiler is never run"
  }}
}}
"#,
        distinct = g(&ctl.distinct),
        samples = samples.join(", "),
        rph = runs as f64 / explore_s * 3600.0,
        simt = g(&ctl.sim_us) as f64 / 1e6,
        points = g(&ctl.points),
        switches = g(&ctl.switches),
        nsched = g(&ctl.nsched),
        ops = ops.join(", "),
        faults = faults.join(", "),
        st = st.join(", "),
        known = g(&ctl.known),
    );
    if let Some(p) = arg("--evidence") {
        std::fs::write(p, ev).expect("evidence");
    }
    println!("{id}: {runs} runs, {} distinct, {wall:.1} s", g(&ctl.distinct));
    std::process::exit(if nv > 0 { 1 } else { 0 });
}
