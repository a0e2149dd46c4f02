//! Workload "calls": histories of calls through the bridge in both directions.
use crate::calls::*;
use crate::gen_drive::FUNS;
use crate::sim::*;
use crate::spec::*;
use crate::Work;

pub static WORK: Work = Work { name: "calls", gen, name_of, fixup, setup: |_| {}, thread, finish: || {}, data_matters: false };

fn name_of(f: u32) -> String {
    if f == H_CB {
        return "callback".into();
    }
    FUNS.get(f as usize).map_or("?".into(), |f| f.name.into())
}
fn fixup(s: &mut Spec) {
    // callbacks are found through their parent's a[3]
    for i in 0..s.ops.len() {
        let cb = s.ops.iter().position(|o| o.f == H_CB && o.parent == i as i32);
        if is_cb(s.ops[i].f) {
            match cb {
                Some(c) => s.ops[i].a[3] = c as i64,
                None => {
                    // the callback is gone: the function goes with it
                    let t = s.without(i);
                    *s = t;
                    return fixup(s);
                }
            }
        }
    }
}
fn is_cb(f: u32) -> bool {
    f != H_CB && (FUNS[f as usize].shape == "cb" || FUNS[f as usize].shape == "cbr")
}
struct Profile {
    fallible_only: u64, // percent
    w: [u64; 6],        // OK SAME FAIL FAIL2 RUSTERR ALLOC
    nested: u64,
    threads: u64, // percent of runs with several threads
    fatal: bool,
}
fn profile(check: &str) -> Profile {
    match check {
        "C02" => Profile { fallible_only: 85, w: [20, 10, 25, 20, 15, 10], nested: 20, threads: 10, fatal: false },
        "C03" => Profile { fallible_only: 30, w: [40, 20, 15, 10, 10, 5], nested: 50, threads: 5, fatal: true },
        "C10" => Profile { fallible_only: 60, w: [30, 10, 25, 15, 12, 8], nested: 30, threads: 100, fatal: false },
        _ => Profile { fallible_only: 50, w: [25, 20, 20, 10, 10, 15], nested: 25, threads: 15, fatal: false },
    }
}
fn add_op(r: &mut Rng, p: &Profile, pool: &[u32], ops: &mut Vec<OpSpec>, thread: u32, parent: i32, depth: u32) {
    let f = loop {
        if !pool.is_empty() && r.chance(80) {
            break *r.pick(pool);
        }
        let f = r.below(FUNS.len() as u64) as u32;
        if r.below(100) < p.fallible_only && FUNS[f as usize].fallible == 0 {
            continue;
        }
        break f;
    };
    let fun = &FUNS[f as usize];
    let me = ops.len();
    let mut outcome = if fun.fallible != 0 { r.weighted(&p.w) as u32 } else { r.weighted(&p.w[..2]) as u32 };
    let mut id = r.below(1 << 20);
    let smart = matches!(fun.kind, "obj" | "cstr" | "cvu8" | "cvstr" | "cvobj");
    if (fun.shape == "ref" || fun.shape == "mut") && smart && id % 7 == 3 {
        id += 1;
    }
    if outcome == O_SAME && !matches!(fun.shape, "x" | "take" | "cb") {
        outcome = O_OK;
    }
    if outcome == O_ALLOC && (fun.dir == 1 || !matches!(fun.shape, "x" | "take" | "ret" | "cb")) {
        outcome = O_FAIL;
    }
    let mut a = [0i64; 4];
    if outcome == O_ALLOC {
        a[0] = r.below(if fun.kind == "rec" { 24 } else { 6 }) as i64;
    }
    if outcome == O_FAIL2 && fun.fallible == 2 && r.chance(50) {
        a[1] = 2;
    }
    if r.chance(20) {
        a[1] |= 4;
    }
    // operations below a C++ callee are started by C++ itself if they call Rust
    a[2] = (fun.dir == 1) as i64;
    ops.push(OpSpec { thread, parent, f, outcome, id, msg: r.below(1 << 16), a });
    if is_cb(f) {
        let c = ops.len();
        ops[me].a[3] = c as i64;
        let o = if r.chance(40) { O_SAME } else { O_OK };
        ops.push(OpSpec { thread, parent: me as i32, f: H_CB, outcome: if fun.shape == "cb" { o } else { O_OK }, id: r.below(1 << 20), msg: 0, a: [0; 4] });
        if depth < 3 && r.below(100) < p.nested {
            add_op(r, p, pool, ops, thread, c as i32, depth + 1);
        }
    }
    if depth < 3 && fun.shape != "shim" {
        let mut k = 0;
        while k < 2 && r.below(100) < p.nested {
            add_op(r, p, pool, ops, thread, me as i32, depth + 1);
            k += 1;
        }
    }
}
/// The faults that must end the process, for a given function.
fn fatal_outcomes(ops: &[OpSpec], i: usize) -> Vec<u32> {
    let o = &ops[i];
    if o.f == H_CB {
        return vec![O_FATAL, O_FATAL5];
    }
    let fun = &FUNS[o.f as usize];
    let mut v = vec![];
    if fun.shape == "shim" {
        v.push(O_FATAL6);
    } else if fun.dir == 0 {
        if fun.fallible == 0 {
            v.push(O_FATAL);
        }
        if fun.fallible != 2 {
            v.push(O_FATAL2);
        }
    } else {
        v.push(O_FATAL);
        v.push(O_FATAL5);
        if fun.fallible == 1 {
            v.push(O_FATAL2);
            v.push(O_FATAL3);
        }
        if fun.kind == "box_robj" && matches!(fun.shape, "x" | "ret") {
            v.push(O_FATAL4);
        }
    }
    v
}
fn gen(r: &mut Rng, check: &str) -> Spec {
    let p = profile(check);
    let multi = r.below(100) < p.threads;
    let nthreads = if multi { 2 + r.below(3) as u32 } else { 1 };
    let mut ops = vec![];
    // threads that call the same few functions are what is interesting
    let mut pool = vec![];
    if multi && r.chance(65) {
        for _ in 0..1 + r.below(3) {
            pool.push(r.below(FUNS.len() as u64) as u32);
        }
    }
    for t in 0..nthreads {
        let n = if multi { 1 + r.below(6) } else { 1 + r.below(8) };
        for _ in 0..n {
            add_op(r, &p, &pool, &mut ops, t, -1, 0);
        }
    }
    if p.fatal {
        for _ in 0..50 {
            let i = r.below(ops.len() as u64) as usize;
            let v = fatal_outcomes(&ops, i);
            if !v.is_empty() {
                ops[i].outcome = *r.pick(&v);
                ops[i].a[1] &= !2;
                break;
            }
        }
    }
    let sched = if multi { Sched::Random { seed: r.next() >> 8, gap: [3, 8, 25, 80, 300, 1000][r.below(6) as usize] } } else { Sched::None };
    Spec { work: &WORK, nthreads, ops, sched }
}
fn thread(tid: u32) {
    let single = crate::nthreads() == 1;
    unsafe {
        rt_keeper_new(tid as u64 + 1);
        for i in 0..h_nops {
            let o = *h_ops.add(i as usize);
            if o.parent >= 0 || o.thread != tid {
                continue;
            }
            let before = sim_live_blocks();
            let objs: Vec<i64> = (1..5).map(|k| sim_obj_count(k)).collect();
            sim_scrub_stack();
            sim_enter();
            drive_one(i);
            sim_leave();
            if single {
                crate::check_leaks(i, before);
                for k in 1..5 {
                    let n = sim_obj_count(k) - objs[k as usize - 1];
                    if n != 0 {
                        viol(V_OWN, &format!("op {i} {}: {n} objects too many alive afterwards", name_of(o.f)));
                    }
                }
            }
        }
        rt_keeper_del();
    }
}
