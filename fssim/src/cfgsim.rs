//! CFG under threads: the history of assignments and reads must be that of one atomic configuration.
//! And CFG along one program: each bridge call uses what was assigned last.
use crate::exec::*;
use crate::nodes::*;
use crate::rng::Rng;
use crate::sim::*;
use crate::vfs::*;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

const F: [&str; 5] = ["prefix", "dirs", "prefixes", "links", "doxygen"];
type State = [String; 5];

#[derive(Debug, Clone)]
struct Ev {
    thread: u32,
    from: u64,
    to: u64,
    write: Vec<(usize, String)>,
    read: Vec<(usize, String)>,
}
fn parse(thread: u32, s: &str) -> Option<Ev> {
    let (head, rest) = s.strip_prefix("timed ")?.split_once('|')?;
    let (arg, got) = rest.split_once('|')?;
    let w: Vec<&str> = head.split(' ').collect();
    let mut e = Ev { thread, from: w[0].parse().ok()?, to: w[1].parse().ok()?, write: vec![], read: vec![] };
    let op = w[2];
    let dbg = |name: &str| -> String {
        // field of the Debug form
        let t = &got[got.find(&format!("{name}: ")).unwrap_or(got.len())..];
        let t = t.split_once(": ").map_or("", |x| x.1);
        let mut depth = 0;
        let mut q = false;
        let mut o = String::new();
        for c in t.chars() {
            match c {
                '"' => q = !q,
                '[' if !q => depth += 1,
                ']' if !q => depth -= 1,
                ' ' | '}' if !q && depth == 0 => break,
                ',' if !q && depth == 0 => break,
                ' ' if !q => {}
                c => o.push(c),
            }
        }
        o
    };
    match op {
        "rall" => {
            let mut rest = got;
            for (i, f) in F.iter().enumerate() {
                rest = rest.trim_start().strip_prefix(&format!("{f}="))?;
                let end = rest.find(' ').unwrap_or(rest.len());
                e.read.push((i, rest[..end].to_owned()));
                rest = &rest[end..];
            }
        }
        "rdebug" => {
            e.read.push((0, dbg("include_prefix")));
            e.read.push((1, dbg("exported_header_dirs")));
            e.read.push((2, dbg("exported_header_prefixes")));
            e.read.push((3, dbg("exported_header_links")));
            e.read.push((4, if dbg("doxygen") == "true" { "1".into() } else { "0".into() }));
        }
        _ => {
            if let Some(k) = F.iter().position(|f| *f == op) {
                e.write = vec![(k, arg.to_owned())];
            } else if op == "multi" {
                e.write = [0, 1, 3].map(|k| (k, arg.to_owned())).into();
            } else if op == "hread" {
                e.read.push((0, got.to_owned()));
            } else if let Some(k) = F.iter().position(|f| op.strip_prefix('r') == Some(f)) {
                e.read.push((k, got.to_owned()));
            } else {
                return None;
            }
        }
    }
    Some(e)
}
/// Whether the operations can be put in an order that respects time and explains every read.
fn linearizable(h: &[Vec<Ev>], init: State) -> bool {
    fn go(h: &[Vec<Ev>], pos: &mut Vec<usize>, st: &State, seen: &mut HashSet<(Vec<usize>, State)>) -> bool {
        if h.iter().enumerate().all(|(t, l)| pos[t] == l.len()) {
            return true;
        }
        if !seen.insert((pos.clone(), st.clone())) {
            return false;
        }
        // an operation may come next unless another one ended before it began
        let first_end = h.iter().enumerate().filter(|(t, l)| pos[*t] < l.len()).map(|(t, l)| l[pos[t]].to).min().unwrap();
        for t in 0..h.len() {
            let Some(e) = h[t].get(pos[t]) else { continue };
            if e.from > first_end || e.read.iter().any(|(k, v)| st[*k] != *v) {
                continue;
            }
            let mut n = st.clone();
            for (k, v) in &e.write {
                n[*k] = v.clone();
            }
            pos[t] += 1;
            if go(h, pos, &n, seen) {
                return true;
            }
            pos[t] -= 1;
        }
        false
    }
    go(h, &mut vec![0; h.len()], &init, &mut HashSet::new())
}
pub fn threads_step(c: &mut Ctx) {
    let progs = std::mem::take(&mut c.progs);
    if progs.is_empty() || c.pkgs.is_empty() || libs().nbuild >= libs().build.len() {
        return;
    }
    if progs.len() == 1 {
        sequence(c, progs.into_values().next().unwrap());
        return;
    }
    let s = sim();
    let mut r = rng_for(c);
    let n = node(c, &mut r);
    let lib = libs().build[libs().nbuild];
    libs().nbuild += 1;
    let mut bodies: Vec<(usize, Box<dyn FnOnce() -> i32 + Send>)> = vec![];
    for lines in progs.values() {
        let p: String = lines.iter().map(|l| format!("timed {l}\n")).collect();
        bodies.push((n, Box::new(move || unsafe { (lib.main)(p.as_ptr(), p.len()) })));
        c.stats.cfg_steps += lines.len() as u64;
    }
    let nt = bodies.len();
    unsafe { (lib.points.unwrap())(1) };
    s.run(bodies);
    unsafe { (lib.points.unwrap())(0) };
    if s.hang {
        return;
    }
    if s.nodes[n].exit != Some(Exit::Code(0)) {
        let m = format!("a thread of the build script that only used CFG ended with {:?}: {}", s.nodes[n].exit, s.nodes[n].err().trim());
        s.viol(Cls::Cfg, m);
        return;
    }
    s.nodes[n].exit = None;
    let p = "timed rall\n";
    s.run(vec![(n, Box::new(move || unsafe { (lib.main)(p.as_ptr(), p.len()) }))]);
    let mut h: Vec<Vec<Ev>> = vec![vec![]; nt + 1];
    let total = s.nodes[n].results.len();
    for (k, (t, l)) in s.nodes[n].results.iter().enumerate() {
        match parse(*t, l) {
            Some(e) => h[if k + 1 == total { nt } else { *t as usize }].push(e),
            None => {
                let m = format!("unexpected result {l}");
                s.viol(Cls::Crash, m);
                return;
            }
        }
    }
    let init: State = [c.pkgs[0].name.clone(), String::new(), String::new(), String::new(), "0".into()];
    if !linearizable(&h, init.clone()) {
        // the shortest failing beginning, for the report
        let mut all: Vec<Ev> = h.iter().flatten().cloned().collect();
        all.sort_by_key(|e| e.from);
        let mut msg = String::new();
        for e in &all {
            let what = e.write.iter().map(|(k, v)| format!("{} = {v:?}", F[*k])).chain(e.read.iter().map(|(k, v)| format!("{} is {v:?}", F[*k]))).collect::<Vec<_>>().join(" ");
            msg.push_str(&format!("; thread {} [{}-{}] {what}", e.thread, e.from, e.to));
        }
        s.viol(Cls::Cfg, format!("no order of the assignments explains what the threads read{msg}"));
    }
}
fn node(c: &mut Ctx, r: &mut Rng) -> usize {
    let s = sim();
    let mut nd = NodeSt::new(format!("the build script of `{}`", c.pkgs[0].name));
    nd.env = c.env(0, r.next());
    nd.ready();
    nd.cwd = s.vfs.get(ROOT, &c.manifest(0), true).unwrap();
    nd.rng = Rng::new(r.next(), 1);
    nd.pid = 1000 + r.below(30000) as i32;
    c.stats.procs += 1;
    s.nodes.push(nd);
    s.nodes.len() - 1
}
/// One thread: assignments, reads and bridge calls in program order.
fn sequence(c: &mut Ctx, lines: Vec<String>) {
    let s = sim();
    let mut r = rng_for(c);
    // the model first
    let keep = c.pkgs[0].clone();
    let mut stdout = String::new();
    let mut includes: Vec<Vec<String>> = vec![];
    let mut files: BTreeMap<String, Rc<Vec<u8>>> = BTreeMap::new();
    let mut reads: Vec<String> = vec![];
    let mut own = String::new();
    c.pkgs[0].times = 1;
    for l in &lines {
        let (op, v) = l.split_once(' ').unwrap_or((l, ""));
        let list = || v.split(',').filter(|x| !x.is_empty()).map(|x| x.to_owned()).collect::<Vec<_>>();
        let k = &mut c.pkgs[0];
        match op {
            "prefix" => k.prefix = Some(v.into()),
            "dirs" => k.dirs = list(),
            "multi" => {
                k.prefix = Some(v.into());
                k.dirs = vec![v.into()];
                k.plinks = vec![v.into()];
            }
            "rw" | "hread" => {
                reads.push(format!("cfg {}", k.prefix.clone().unwrap_or(k.name.clone())));
                if op == "rw" {
                    k.prefix = Some(v.into());
                }
            }
            "pushdir" => k.dirs.push(v.into()),
            "extenddirs" => k.dirs.extend(list()),
            "doxygen" => k.doxygen = v == "1",
            "show" => reads.push(format!("cfg prefix={} dirs={} prefixes= links= doxygen={}", k.prefix.clone().unwrap_or(k.name.clone()), k.dirs.join(","), k.doxygen)),
            "bridges" => {
                k.bridges = list();
                let x = c.expect(0);
                if x.err.is_some() || x.bad_source.is_some() {
                    c.pkgs[0] = keep;
                    return;
                }
                own = x.own.clone();
                stdout.push_str(&x.stdout);
                includes.push(x.includes.clone());
                for (f, d) in x.files {
                    files.insert(f, d);
                }
            }
            _ => {}
        }
    }
    let n = node(c, &mut r);
    c.pkgs[0] = keep;
    s.nodes[n].roots = vec![own, c.canon(&c.shared_dir(0)), libs().scratch.clone()];
    let lib = libs().build[libs().nbuild];
    libs().nbuild += 1;
    let p: String = lines.iter().map(|l| format!("{l}\n")).collect();
    c.stats.cfg_steps += lines.len() as u64;
    s.run(vec![(n, Box::new(move || unsafe { (lib.main)(p.as_ptr(), p.len()) }))]);
    if s.hang {
        return;
    }
    let nd = &sim().nodes[n];
    let mut viol = |m: String| s.viol(Cls::Cfg, m);
    if nd.exit != Some(Exit::Code(0)) {
        viol(format!("the program ended with {:?}: {}", nd.exit, nd.err().trim()));
        return;
    }
    let got: Vec<String> = nd.results.iter().filter(|r| r.1.starts_with("cfg ")).map(|r| r.1.clone()).collect();
    if got != reads {
        viol(format!("CFG read as {got:?} instead of {reads:?}"));
    }
    if nd.out() != stdout {
        viol(format!("the bridge calls told cargo\n{}instead of\n{stdout}", nd.out()));
    }
    let inc: Vec<Vec<String>> = nd.results.iter().filter_map(|r| r.1.strip_prefix("build ")).filter_map(|b| list_field(b, "include_directories")).collect();
    if inc != includes {
        viol(format!("the bridge calls returned include paths {inc:?} instead of {includes:?}"));
    }
    let v = &sim().vfs;
    for (f, d) in &files {
        let got = v.read(f);
        if got.as_ref().ok().map(|g| g.as_slice()) != Some(d.as_slice()) {
            viol(format!("{f} {}", describe(&got, d)));
            return;
        }
    }
}
