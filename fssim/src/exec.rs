//! Executes a run and judges it.
use crate::nodes::*;
use crate::rng::{hash, Rng};
use crate::sim::*;
use crate::spec::*;
use crate::srcgen;
use crate::vfs::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cls {
    Stale,   // C11
    Conc,    // C12
    Outside, // C13
    Fault,   // C14
    Touch,   // C15
    Det,     // C16
    Cli,     // C17
    Inc,     // C18
    Cfg,     // C19
    Eval,    // C24
    Diag,    // C25
    Hang,
    Crash,
}
pub const CLS: [&str; 13] = ["stale", "concurrent", "outside", "fault", "touched", "nondeterministic", "cli", "includes", "cfg", "cfg-eval", "diagnostics", "hang", "crash"];

#[derive(Clone, Debug, Default)]
pub struct Pkg {
    pub name: String,
    pub links: String,
    pub srcs: BTreeMap<String, String>,
    pub bridges: Vec<String>,
    pub prefix: Option<String>,
    pub dirs: Vec<String>,
    pub prefixes: Vec<String>,
    pub plinks: Vec<String>,
    pub doxygen: bool,
    pub features: BTreeSet<String>,
    pub uses: Vec<usize>,
    pub times: usize,
    pub meta: Option<Vec<(String, String)>>,
    pub ran: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Expect {
    pub err: Option<&'static str>,
    pub bad_source: Option<String>,
    pub bad_token: Option<(String, Rc<Ref>)>,
    pub files: Vec<(String, Rc<Vec<u8>>)>,  // regular files the script writes
    pub seen: Vec<(String, Rc<Vec<u8>>)>,   // contents seen through a link that must exist
    pub links: Vec<(String, String)>,       // where a link must lead
    pub shared: Vec<(String, Rc<Vec<u8>>)>, // entries of the shared directory
    pub includes: Vec<String>,
    pub sources: Vec<String>,
    pub stdout: String,
    pub own: String, // OUT_DIR/cxxbridge, canonical
    pub own_paths: BTreeSet<String>,
}
pub struct Ctx {
    pub w: World,
    pub seed: u64,
    pub pkgs: Vec<Pkg>,
    pub hdr: bool,
    pub hist_bad: bool, // crashes, faults or strange contents happened before
    pub obstacle: bool,
    pub pending: Vec<(usize, u32, Fk)>,
    pub outs: Vec<String>,
    pub progs: BTreeMap<usize, Vec<String>>,
    pub step: usize,
    pub nrun: u64,
    pub exps: Vec<(usize, usize, Expect)>, // (node, package, expectation) of the current run step
    pub judged: Vec<bool>,
    pub refs: BTreeMap<(String, String), Rc<Ref>>,
    pub clisrcs: BTreeMap<String, String>,
    pub stats: Stats,
}
#[derive(Clone, Copy, Default)]
#[repr(C)]
pub struct Stats {
    pub procs: u64,
    pub ok: u64,
    pub failed: u64,
    pub killed: u64,
    pub cli: u64,
    pub concurrent: u64,
    pub power: u64,
    pub dirty: u64,
    pub reruns_untouched: u64,
    pub outputs_checked: u64,
    pub cfg_steps: u64,
    pub fault_failures: u64,
    pub fault_survived: u64,
    pub rejected: u64,
    pub diags: u64,
}

const W: &str = "/sim/w";
const TARGET_FEATURES: &str = "fxsr,sse,sse2";
pub const HDR: &str = "/sim/home/.cargo/registry/src/cxx-1/include/cxx.h";

impl Ctx {
    fn pw(&self) -> &'static str {
        if self.w.plink != 0 { "/sim/pl/proj" } else { W }
    }
    pub fn manifest(&self, p: usize) -> String {
        format!("{}/{}", self.pw(), self.pkgs[p].name)
    }
    fn target(&self) -> String {
        format!("{}/target", self.pw())
    }
    fn out_dir(&self, p: usize) -> String {
        let t = self.target();
        let n = &self.pkgs[p].name;
        let mid = if self.w.outdots != 0 { "debug/../debug" } else { "debug" };
        format!("{t}/{mid}/build/{n}-{:08x}/out", hash(format!("{n}{p}").as_bytes()) as u32)
    }
    pub fn canon(&self, path: &str) -> String {
        let v = &sim().vfs;
        let mut head = path.to_owned();
        let mut tail: Vec<String> = vec![];
        loop {
            if let Ok(r) = v.realpath(ROOT, &head) {
                let mut r = r.trim_end_matches('/').to_owned();
                for t in tail.iter().rev() {
                    r.push('/');
                    r.push_str(t);
                }
                return r;
            }
            match head.rsplit_once('/') {
                Some((h, t)) => {
                    tail.push(t.to_owned());
                    head = if h.is_empty() { "/".into() } else { h.to_owned() };
                }
                None => return path.to_owned(),
            }
        }
    }
    /// The directory that collects links to everything generated, by the documented rules.
    pub fn shared_dir(&self, p: usize) -> String {
        if self.w.tenv == 1 {
            return format!("{}/cxxbridge", self.target());
        }
        if self.w.tenv == 2 {
            return format!("{}/cxxbridge", libs().scratch);
        }
        let v = &sim().vfs;
        let exists = |p: String| v.get(ROOT, &p, true).is_ok();
        let out = self.out_dir(p);
        for start in [out.clone(), self.canon(&out)] {
            let mut d = start.as_str();
            while !d.is_empty() {
                if exists(format!("{d}/.rustc_info.json")) || exists(format!("{d}/CACHEDIR.TAG")) || (d.ends_with("/target") && exists(format!("{}/Cargo.toml", d.strip_suffix("/target").unwrap()))) {
                    return format!("{d}/cxxbridge");
                }
                d = d.rsplit_once('/').map_or("", |x| x.0);
            }
        }
        format!("{}/cxxbridge", libs().scratch)
    }
    fn prefix(&self, p: usize) -> String {
        let s = self.pkgs[p].prefix.clone().unwrap_or(self.pkgs[p].name.clone());
        s.split('/').filter(|c| !c.is_empty() && *c != ".").collect::<Vec<_>>().join("/")
    }
    pub fn env(&self, p: usize, seed: u64) -> Vec<(String, String)> {
        let k = &self.pkgs[p];
        let mut e: Vec<(String, String)> = [
            ("CARGO_MANIFEST_DIR", self.manifest(p)),
            ("OUT_DIR", self.out_dir(p)),
            ("CARGO_PKG_NAME", k.name.clone()),
            ("CARGO_PKG_VERSION", "1.2.3".into()),
            ("CARGO_CFG_TARGET_OS", "linux".into()),
            ("CARGO_CFG_UNIX", "".into()),
            ("CARGO_CFG_TARGET_FEATURE", TARGET_FEATURES.into()),
            ("CARGO_CFG_TARGET_POINTER_WIDTH", "64".into()),
            ("TARGET", "x86_64-unknown-linux-gnu".into()),
            ("HOST", "x86_64-unknown-linux-gnu".into()),
            ("OPT_LEVEL", "0".into()),
            ("PATH", "/usr/bin:/bin".into()),
            ("HOME", "/sim/home".into()),
            ("DEP_Z_ROOT", "/sim/w/target/debug/build/z/out".into()),
            ("DEP_OTHER_INCLUDE", "/usr/include/other".into()),
            // (\x01 stands for a byte that is not UTF-8)
            ("ODD_VALUE", "\x01\x01".into()),
            ("ODD\x01NAME", "1".into()),
            ("DEP_ODD_PATH", "/x/\x01".into()),
            ("DEPENDENCY_CXXBRIDGE_DIR0", "/not/a/dependency".into()),
            ("CXXBRIDGE_DIR0", "/not/a/dependency/either".into()),
        ]
        .into_iter()
        .map(|(a, b)| (a.to_owned(), b))
        .collect();
        if !k.links.is_empty() {
            e.push(("CARGO_MANIFEST_LINKS".into(), k.links.clone()));
        }
        match self.w.tenv {
            1 => e.push(("CARGO_TARGET_DIR".into(), self.target())),
            2 => e.push(("CARGO_TARGET_DIR".into(), "target".into())),
            _ => {}
        }
        if self.hdr {
            e.push(("DEP_CXXBRIDGE1_HEADER".into(), HDR.into()));
        }
        let mut custom: Vec<&str> = vec![];
        for f in &k.features {
            match f.strip_prefix("cfg:") {
                Some("custom") => e.push(("CARGO_CFG_CUSTOM".into(), "".into())),
                Some(v) => custom.push(v),
                None => e.push((format!("CARGO_FEATURE_{}", f.to_uppercase().replace('-', "_")), "1".into())),
            }
        }
        if !custom.is_empty() {
            e.push(("CARGO_CFG_CUSTOM_KEY".into(), custom.join(",")));
        }
        for q in &k.uses {
            if let Some(m) = &self.pkgs[*q].meta {
                let l = self.pkgs[*q].links.to_uppercase().replace('-', "_");
                for (a, b) in m {
                    e.push((format!("DEP_{l}_{a}"), b.clone()));
                }
            }
        }
        Rng::new(seed, 77).shuffle(&mut e);
        e
    }
    /// The name under which a package's source file was put there.
    fn src_key(&self, p: usize, f: &str) -> String {
        rel_path(f.strip_prefix(&format!("{}/", self.manifest(p))).unwrap_or(f))
    }
    fn opts(&self, p: usize) -> String {
        if self.pkgs[p].doxygen { "doxygen\n".into() } else { String::new() }
    }
    fn cfg_env(&self, p: usize) -> srcgen::Env {
        let mut e = srcgen::Env::default();
        let mut v = |a: &str, b: &str| e.values.push((a.into(), b.into()));
        v("target_os", "linux");
        for f in TARGET_FEATURES.split(',') {
            v("target_feature", f);
        }
        v("target_pointer_width", "64");
        for f in &self.pkgs[p].features {
            match f.strip_prefix("cfg:") {
                Some("custom") => {}
                Some(x) => v("custom_key", x),
                None => v("feature", f),
            }
        }
        e.names.push(("unix".into(), true));
        if self.pkgs[p].features.contains("cfg:custom") {
            e.names.push(("custom".into(), true));
        }
        e
    }
    pub fn reference(&mut self, token: &str, opts: &str, env: &srcgen::Env) -> Rc<Ref> {
        let cond = token.starts_with('f');
        let key = (token.to_owned(), if cond { format!("{opts}{}", env.key()) } else { opts.to_owned() });
        if let Some(r) = self.refs.get(&key) {
            return r.clone();
        }
        let r = if cond {
            let (src, bad) = srcgen::conditional(srcgen::seed_of(token), Some(env));
            let mut r = if bad { Ref::default() } else { reference(src.as_bytes(), opts) };
            r.conditional = true;
            Rc::new(r)
        } else {
            // (the modules around a bridge make no difference; places are those in the text itself)
            let mut r = if token.starts_with('g') { reference(&srcgen::flat(token), opts) } else { Ref::default() };
            if !r.ok {
                r = reference(&srcgen::source(token), opts);
            }
            Rc::new(r)
        };
        self.refs.insert(key, r.clone());
        r
    }
    /// What a run of package p's build script must produce, by the documentation.
    pub fn expect(&mut self, p: usize) -> Expect {
        let mut x = Expect::default();
        let k = self.pkgs[p].clone();
        let prefix = self.prefix(p);
        let out = self.out_dir(p);
        let cxxb = format!("{out}/cxxbridge");
        let join = |a: &str, b: &str| if b.is_empty() { a.to_owned() } else { format!("{a}/{b}") };
        let inc = format!("{cxxb}/include");
        let shared = self.shared_dir(p);
        x.own = self.canon(&cxxb);
        let opts = self.opts(p);
        let cfgenv = self.cfg_env(p);
        // configuration errors, in order
        for d in &k.dirs {
            if !d.starts_with('/') {
                x.err = Some("must be absolute path");
            }
        }
        if x.err.is_none() && k.prefixes.iter().any(|s| s.is_empty()) {
            x.err = Some("must not be empty string");
        }
        if x.err.is_none() && k.links.is_empty() && (!k.dirs.is_empty() || !k.prefixes.is_empty() || !k.plinks.is_empty()) {
            x.err = Some("needs to be set in Cargo.toml");
        }
        // header directories
        let crate_dir = if prefix.is_empty() { self.manifest(p) } else { format!("{cxxb}/crate") };
        let mut dirs: Vec<(bool, String)> = vec![(true, inc.clone()), (true, crate_dir.clone())];
        for d in &k.dirs {
            dirs.push((true, d.clone()));
        }
        let mut deps: BTreeMap<String, (Option<String>, Option<String>, Vec<(usize, String)>)> = BTreeMap::new();
        for q in &k.uses {
            if let Some(m) = &self.pkgs[*q].meta {
                let key = format!("DEP_{}", self.pkgs[*q].links.to_uppercase().replace('-', "_"));
                let e = deps.entry(key).or_default();
                for (a, b) in m {
                    if a == "CXXBRIDGE_PREFIX" {
                        e.0 = Some(b.clone());
                    } else if a == "CXXBRIDGE_LINKS" {
                        e.1 = Some(b.clone());
                    } else if let Some(n) = a.strip_prefix("CXXBRIDGE_DIR").and_then(|n| n.parse().ok()) {
                        e.2.push((n, b.clone()));
                    }
                }
            }
        }
        let mut used_links = BTreeSet::new();
        let mut used_prefixes = BTreeSet::new();
        let first_dep = dirs.len();
        for (_, (pre, links, mut ds)) in deps {
            ds.sort();
            let mut exported = false;
            if let Some(l) = &links {
                if k.plinks.contains(l) {
                    exported = true;
                    used_links.insert(l.clone());
                }
            }
            if !exported {
                if let Some(pre) = &pre {
                    let comps = |s: &str| s.split('/').filter(|c| !c.is_empty() && *c != ".").map(|s| s.to_owned()).collect::<Vec<_>>();
                    for e in &k.prefixes {
                        if comps(pre).starts_with(&comps(e)) {
                            exported = true;
                            used_prefixes.insert(e.clone());
                            break;
                        }
                    }
                }
            }
            for (_, d) in ds {
                match dirs[first_dep..].iter_mut().find(|e| e.1 == d) {
                    Some(e) => e.0 |= exported,
                    None => dirs.push((exported, d)),
                }
            }
        }
        if x.err.is_none() && (k.plinks.iter().any(|l| !used_links.contains(l)) || k.prefixes.iter().any(|l| !used_prefixes.contains(l))) {
            x.err = Some("unused element");
        }
        x.includes = dirs.iter().map(|d| d.1.clone()).collect();
        let mut so = format!("cargo:CXXBRIDGE_PREFIX={prefix}\n");
        if !k.links.is_empty() {
            so.push_str(&format!("cargo:CXXBRIDGE_LINKS={}\n", k.links));
        }
        for (i, d) in dirs.iter().enumerate() {
            if d.0 {
                so.push_str(&format!("cargo:CXXBRIDGE_DIR{i}={}\n", d.1));
            }
        }
        x.stdout = so.repeat(k.times.max(1));
        // files
        let cxxh = if self.hdr {
            sim().vfs.read(HDR).unwrap()
        } else {
            Rc::new(self.reference("e", "", &Default::default()).cxxh.clone())
        };
        if !self.hdr {
            x.files.push((format!("{shared}/rust/cxx.h"), cxxh.clone()));
        }
        x.seen.push((format!("{inc}/rust/cxx.h"), cxxh.clone()));
        x.shared.push((format!("{shared}/rust/cxx.h"), cxxh));
        if !prefix.is_empty() {
            x.links.push((format!("{crate_dir}/{prefix}"), self.manifest(p)));
        }
        for f in &k.bridges {
            let rel = rel_path(f);
            let key = self.src_key(p, f);
            let token = k.srcs.get(&key).cloned();
            let r = match &token {
                Some(t) => self.reference(t, &opts, &cfgenv),
                None => Rc::new(Ref::default()),
            };
            if !r.ok {
                if x.bad_source.is_none() {
                    x.bad_source = Some(f.clone());
                    x.bad_token = token.map(|t| (t, r.clone()));
                }
                continue;
            }
            if x.bad_source.is_some() {
                continue;
            }
            let h = format!("{}/{rel}.h", join(&inc, &prefix));
            let cc = format!("{}/{rel}.cc", join(&format!("{cxxb}/sources"), &prefix));
            let header = Rc::new(r.header.clone());
            let imp = Rc::new(r.implementation.clone());
            x.links.push((format!("{}/{rel}", join(&inc, &prefix)), h.clone()));
            x.shared.push((format!("{}/{rel}.h", join(&shared, &prefix)), header.clone()));
            x.shared.push((format!("{}/{rel}.cc", join(&shared, &prefix)), imp.clone()));
            x.files.push((h, header));
            x.files.push((cc.clone(), imp));
            for _ in 0..k.times.max(1) {
                x.sources.push(cc.clone());
            }
        }
        let ownp = format!("{cxxb}/");
        for path in x.files.iter().map(|f| &f.0).chain(x.seen.iter().map(|f| &f.0)).chain(x.links.iter().map(|f| &f.0)) {
            if let Some(rest) = path.strip_prefix(&ownp) {
                let mut p = String::new();
                for c in rest.split('/') {
                    p.push('/');
                    p.push_str(c);
                    x.own_paths.insert(p.clone());
                }
            }
        }
        x
    }
}
pub fn rel_path(f: &str) -> String {
    let mut o: Vec<&str> = vec![];
    for c in f.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                o.pop();
            }
            c => o.push(c),
        }
    }
    o.join("/")
}
pub fn describe(got: &R<Rc<Vec<u8>>>, want: &[u8]) -> String {
    match got {
        Err(ENOENT) => "is missing".into(),
        Err(e) => format!("cannot be read (errno {e})"),
        Ok(g) if g.is_empty() => "is empty".into(),
        Ok(g) if g.len() < want.len() && want.starts_with(g) => format!("is truncated to {} of {} bytes", g.len(), want.len()),
        Ok(g) => {
            let at = g.iter().zip(want).position(|(a, b)| a != b).unwrap_or(g.len().min(want.len()));
            let l = want[..at].iter().filter(|c| **c == b'\n').count() + 1;
            format!("has wrong contents ({} bytes, expected {}; first difference at byte {at}, line {l})", g.len(), want.len())
        }
    }
}
/// The first required output that is not as it must be.
fn incomplete(v: &Vfs, x: &Expect, links: bool) -> Option<String> {
    for (p, want) in x.files.iter().chain(&x.seen) {
        // a lookup that failed may have moved the choice of the shared directory
        if !links && x.shared.iter().any(|s| s.0 == *p) {
            continue;
        }
        let got = v.read(p);
        if got.as_ref().ok().map(|g| g.as_slice()) != Some(want.as_slice()) {
            return Some(format!("{p} {}", describe(&got, want)));
        }
    }
    if links {
        for (p, to) in &x.links {
            match v.realpath(ROOT, p) {
                Ok(r) if v.realpath(ROOT, to).is_ok_and(|t| t == r) => {}
                Ok(r) => return Some(format!("{p} leads to {r} instead of {to}")),
                Err(e) => return Some(format!("{p} leads nowhere (errno {e}) instead of to {to}")),
            }
        }
    }
    None
}
/// Value of a list field in the Debug form of cc::Build.
pub fn list_field(d: &str, name: &str) -> Option<Vec<String>> {
    let s = &d[d.find(&format!(" {name}: ["))?..];
    let s = &s[s.find('[')? + 1..];
    let mut o = vec![];
    let mut it = s.chars();
    loop {
        match it.next()? {
            ']' => return Some(o),
            '"' => {
                let mut t = String::new();
                loop {
                    match it.next()? {
                        '"' => break,
                        '\\' => t.push(it.next()?),
                        c => t.push(c),
                    }
                }
                o.push(t);
            }
            _ => {}
        }
    }
}

static mut CTX: *mut Ctx = std::ptr::null_mut();
fn ctx() -> &'static mut Ctx {
    unsafe { &mut *CTX }
}
/// After every change made by one of several processes, and at the end of each: whoever has reported
/// success keeps complete outputs.
fn watch(s: &mut Sim, by: usize) {
    let c = ctx();
    for k in 0..c.exps.len() {
        let n = c.exps[k].0;
        if c.judged[k] || s.nodes[n].exit != Some(Exit::Code(0)) || c.exps[k].2.err.is_some() {
            continue;
        }
        let strict = s.nodes[n].delivered.iter().all(|d| d.kind.transparent());
        if let Some(m) = incomplete(&s.vfs, &c.exps[k].2, strict && !c.obstacle) {
            c.judged[k] = true;
            let who = if by == n { "reported success but".to_owned() } else { format!("reported success, then, because of {},", s.nodes[by].name) };
            let m = format!("{} {who} {m}", s.nodes[n].name);
            if by != n {
                // another process's planned failure may have left a shared file half written only if nothing protects readers
                s.viol(Cls::Conc, m);
            } else {
                s.viol(if strict { Cls::Conc } else { Cls::Fault }, m);
            }
        }
    }
}

pub fn execute(spec: &Spec, trace: bool) -> &'static mut Sim {
    let s = Sim {
        vfs: Vfs::new(),
        nodes: vec![],
        threads: vec![],
        cur: 0,
        main_turn: Default::default(),
        points: 0,
        sched: spec.sched.clone(),
        srng: match &spec.sched {
            Sched::Random { seed, .. } => Rng::new(*seed, 3),
            _ => Rng::new(0, 0),
        },
        switches: vec![],
        viols: vec![],
        sig: 0,
        trace,
        log: vec![],
        opcount: [0; NOPS],
        watch: None,
        hang: false,
        argv_slot: unsafe { crate::ARGV },
    };
    let c = Ctx {
        w: spec.world.clone(),
        seed: spec.seed,
        pkgs: vec![],
        hdr: spec.world.nohdr == 0,
        hist_bad: false,
        obstacle: false,
        pending: vec![],
        outs: vec![],
        progs: BTreeMap::new(),
        step: 0,
        nrun: 0,
        exps: vec![],
        judged: vec![],
        refs: BTreeMap::new(),
        clisrcs: BTreeMap::new(),
        stats: Stats::default(),
    };
    unsafe {
        SIM = Box::into_raw(Box::new(s));
        CTX = Box::into_raw(Box::new(c));
    }
    let s = sim();
    let c = ctx();
    let w = &spec.world;
    s.vfs.mkdirs(W);
    if w.plink != 0 {
        s.vfs.put_link("/sim/pl/proj", "../w");
    }
    if w.tlink != 0 {
        s.vfs.mkdirs("/sim/fast/tgt");
        s.vfs.put_link(&format!("{W}/target"), "../fast/tgt");
    } else {
        s.vfs.mkdirs(&format!("{W}/target"));
    }
    let t = format!("{W}/target");
    match w.mark {
        0 => s.vfs.put(&format!("{t}/.rustc_info.json"), b"{}"),
        1 => s.vfs.put(&format!("{t}/CACHEDIR.TAG"), b"Signature: 8a477f597d28d172789f06886806bc55\n"),
        2 => s.vfs.put(&format!("{W}/Cargo.toml"), b"[workspace]\n"),
        _ => {}
    }
    s.vfs.mkdirs(&libs().scratch.clone());
    let mut h = c.reference("e", "", &Default::default()).cxxh.clone();
    h.extend(b"// the copy in the registry\n");
    s.vfs.put(HDR, &h);
    for i in &mut s.vfs.inodes {
        i.dirty = false;
    }
    s.vfs.undo.clear();
    for (k, st) in spec.steps.iter().enumerate() {
        c.step = k;
        if trace {
            s.log.push(format!("== {}", st.text()));
        }
        step(c, st);
        if s.hang {
            s.viol(Cls::Hang, format!("step {k}: the processes never end"));
            break;
        }
        if !s.viols.is_empty() && !trace {
            break;
        }
    }
    s
}
pub fn stats() -> Stats {
    ctx().stats
}
fn harness(f: impl FnOnce(&mut Vfs)) {
    // what users and cargo write is durable
    let v = &mut sim().vfs;
    let n = v.undo.len();
    let k = v.inodes.len();
    f(v);
    v.undo.truncate(n);
    for i in &mut v.inodes[k..] {
        i.dirty = false;
    }
}
fn step(c: &mut Ctx, st: &Step) {
    let have = |c: &Ctx, p: usize| p < c.pkgs.len();
    match st {
        Step::Pkg { name, links } => {
            c.pkgs.push(Pkg { name: name.clone(), links: links.clone(), times: 1, ..Default::default() });
            let p = c.pkgs.len() - 1;
            let m = format!("{W}/{name}");
            let out = c.out_dir(p);
            harness(|v| {
                v.put(&format!("{m}/Cargo.toml"), format!("[package]\nname = \"{name}\"\n").as_bytes());
                v.put(&format!("{m}/build.rs"), b"fn main() {}\n");
                v.put(&format!("{m}/src/imp.cc"), b"// user code\n");
                v.put(&format!("{m}/src/inner/detail.h"), b"// user header\n");
                v.put(&format!("{m}/include/{name}.h"), b"// user header\n");
                v.put(&format!("{m}/include/deep/er/x.h"), b"// user header\n");
                v.put(&format!("{m}/to/file.txt"), b"user file\n");
                v.mkdirs(&out.replace("debug/../", ""));
                if v.get(ROOT, "/sim/fast", true).is_ok() {
                    // where a relative path out of the target directory would lead that overlooks its being elsewhere
                    let d = format!("/sim/fast/{name}");
                    v.put(&format!("{d}/Cargo.toml"), b"[package]\nname = \"another-project\"\n");
                    v.put(&format!("{d}/src/lib.rs"), b"// another project\n");
                    v.put(&format!("{d}/include/{name}.h"), b"// another project\n");
                }
            });
        }
        Step::Src { p: 99, file, content } => crate::cli::src_step(c, file, content),
        Step::Src { p, file, content } if have(c, *p) => {
            let f = if file.starts_with('/') { file.clone() } else { norm(&format!("{W}/{}/{file}", c.pkgs[*p].name)) };
            c.pkgs[*p].srcs.insert(rel_path(file), content.clone());
            harness(|v| v.put(&f, &srcgen::source(content)));
        }
        Step::RmSrc { p, file } if have(c, *p) => {
            let f = format!("{W}/{}/{file}", c.pkgs[*p].name);
            c.pkgs[*p].srcs.remove(file);
            harness(|v| v.wipe(&f));
        }
        Step::Bridges { p, files } if have(c, *p) => {
            let m = c.manifest(*p);
            c.pkgs[*p].bridges = files.iter().map(|f| f.replace("{m}", &m)).collect();
        }
        Step::Prefix { p, v } if have(c, *p) => c.pkgs[*p].prefix = Some(v.clone()),
        Step::Dirs { p, v } if have(c, *p) => {
            let m = c.manifest(*p);
            c.pkgs[*p].dirs = v.iter().map(|f| f.replace("{m}", &m)).collect();
        }
        Step::Prefixes { p, v } if have(c, *p) => c.pkgs[*p].prefixes = v.clone(),
        Step::Links { p, v } if have(c, *p) => c.pkgs[*p].plinks = v.clone(),
        Step::Doxygen { p, on } if have(c, *p) => c.pkgs[*p].doxygen = *on,
        Step::Feature { p, name, on } if have(c, *p) => {
            if *on {
                c.pkgs[*p].features.insert(name.clone());
            } else {
                c.pkgs[*p].features.remove(name);
            }
        }
        Step::Uses { p, q } if have(c, *p) && q < p => {
            if !c.pkgs[*q].links.is_empty() && !c.pkgs[*p].uses.contains(q) {
                c.pkgs[*p].uses.push(*q);
            }
        }
        Step::Hdr { on } => c.hdr = *on,
        Step::Twice { p, n } if have(c, *p) => c.pkgs[*p].times = *n,
        Step::Fault { n, call, kind } => c.pending.push((*n, *call, *kind)),
        Step::Run { ps } => run_step(c, ps),
        Step::Dirty { sel, kind } => dirty(c, *sel, *kind),
        Step::Power { seed } => power(c, *seed),
        Step::Tick { ns } => {
            let v = &mut sim().vfs;
            v.now = v.now.saturating_add_signed(*ns);
        }
        Step::Cli { args, stdin } => crate::cli::cli_step(c, args, stdin),
        Step::Out { path, kind } => crate::cli::out_step(c, path, *kind),
        Step::Prog { t, line } => c.progs.entry(*t).or_default().push(line.clone()),
        Step::Threads => crate::cfgsim::threads_step(c),
        _ => {}
    }
}
/// Everything in the output directories: path and whether it is a real directory.
fn outputs(c: &Ctx) -> Vec<String> {
    let v = &sim().vfs;
    let mut o = vec![];
    let mut tops: BTreeSet<String> = BTreeSet::new();
    for p in 0..c.pkgs.len() {
        tops.insert(c.canon(&format!("{}/cxxbridge", c.out_dir(p))));
        tops.insert(c.canon(&c.shared_dir(p)));
    }
    for t in tops {
        if let Ok(i) = v.get(ROOT, &t, true) {
            let mut l = vec![];
            v.tree(i, &t, &mut l);
            o.extend(l.into_iter().map(|x| x.0));
        }
    }
    o
}
const OBSTACLE: &[u8] = b"a file where a directory should be";
fn dirty(c: &mut Ctx, sel: u64, kind: u64) {
    let l = outputs(c);
    if l.is_empty() {
        return;
    }
    let path = l[sel as usize % l.len()].clone();
    let m = format!("{W}/{}", c.pkgs[0].name);
    let user = format!("{m}/include/{}.h", c.pkgs[0].name);
    c.hist_bad = true;
    c.stats.dirty += 1;
    let v = &mut sim().vfs;
    let i = v.get(ROOT, &path, false).unwrap();
    let isdir = v.dir(i).is_ok();
    let data = match &v.inodes[i].node {
        Node::File(d) => Some(d.to_vec()),
        _ => None,
    };
    // links that stand in for whole directories are nothing cxx-build ever leaves there
    if data.as_ref().is_some_and(|d| d == OBSTACLE) {
        return;
    }
    if sim().trace {
        sim().log.push(format!("    {path} kind {kind}"));
    }
    harness(|v| match (kind, data) {
        (1, Some(_)) => v.put(&path, b""),
        (2, Some(d)) => v.put(&path, &d[..d.len() / 2]),
        (3, Some(_)) => v.put(&path, b"garbage"),
        (10, Some(d)) => v.put(&path, &vec![0; d.len()]),
        (9, _) if isdir => {
            v.wipe(&path);
            v.put(&path, OBSTACLE);
            ctx().obstacle = true;
        }
        (4, _) if !isdir => {
            v.wipe(&path);
            v.put_link(&path, "/sim/nowhere/at/all");
        }
        (5, _) if !isdir => {
            v.wipe(&path);
            let name = path.rsplit_once('/').unwrap().1.to_owned();
            v.put_link(&path, &name);
        }
        (6, _) if !isdir => {
            v.wipe(&path);
            v.put_link(&path, &user);
        }
        (7, _) if !isdir => {
            v.wipe(&path);
            v.put(&format!("{path}/something/inside.h"), b"x");
        }
        (8, _) if !isdir => {
            v.wipe(&path);
            v.put_link(&path, &format!("{m}/include"));
        }
        _ => v.wipe(&path),
    });
}
/// Power loss: data not yet synced may be lost or torn, recent directory changes undone.
fn power(c: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed, 5);
    let mut tops = vec![];
    for p in 0..c.pkgs.len() {
        tops.push(c.canon(&format!("{}/cxxbridge", c.out_dir(p))));
        tops.push(c.canon(&c.shared_dir(p)));
    }
    c.hist_bad = true;
    c.stats.power += 1;
    let v = &mut sim().vfs;
    let tops: Vec<Ino> = tops.iter().filter_map(|t| v.get(ROOT, t, true).ok()).collect();
    let n = v.undo.len() as u64;
    let keep = if r.one_in(2) { n } else { n - r.below(n.min(40) + 1) };
    let mut undo = std::mem::take(&mut v.undo);
    while undo.len() as u64 > keep {
        let (d, name, old) = undo.pop().unwrap();
        if tops.iter().any(|t| v.below(d, *t)) {
            v.set_entry(d, &name, old);
        }
    }
    v.undo.clear();
    for t in tops {
        let mut l = vec![];
        v.tree(t, "", &mut l);
        for (_, i) in l {
            if !v.inodes[i].dirty {
                continue;
            }
            v.inodes[i].dirty = false;
            if let Node::File(d) = &mut v.inodes[i].node {
                let n = d.len();
                match r.below(5) {
                    0 => *d = Rc::new(vec![]),
                    1 => *d = Rc::new(d[..r.below(n as u64 + 1) as usize].to_vec()),
                    2 => *d = Rc::new(vec![0; n]),
                    3 => {
                        // blocks lost in the middle
                        let mut x = d.to_vec();
                        let a = r.below(n as u64 + 1) as usize;
                        let b = (a + r.below(512) as usize).min(n);
                        x[a..b].fill(0);
                        *d = Rc::new(x);
                    }
                    _ => {}
                }
            }
        }
    }
}
pub fn rng_for(c: &mut Ctx) -> Rng {
    c.nrun += 1;
    Rng::new(c.seed, c.nrun)
}
fn run_step(c: &mut Ctx, ps: &[usize]) {
    let faults = std::mem::take(&mut c.pending);
    let mut list: Vec<usize> = vec![];
    for p in ps {
        let Some(k) = c.pkgs.get(*p) else { continue };
        // cargo runs a build script after those of its dependencies
        if list.contains(p) || k.bridges.is_empty() || k.uses.iter().any(|q| c.pkgs[*q].meta.is_none() || ps.contains(q)) {
            continue;
        }
        list.push(*p);
    }
    if list.is_empty() || libs().nbuild + list.len() > libs().build.len() {
        return;
    }
    let s = sim();
    c.exps.clear();
    c.judged = vec![false; list.len()];
    let mut bodies: Vec<(usize, Box<dyn FnOnce() -> i32 + Send>)> = vec![];
    let mut before: Vec<Vec<Option<(Ino, u64)>>> = vec![];
    let mut own_before: Vec<BTreeSet<String>> = vec![];
    for (k, p) in list.iter().enumerate() {
        let x = c.expect(*p);
        let mut r = rng_for(c);
        let mut nd = NodeSt::new(format!("the build script of `{}`", c.pkgs[*p].name));
        nd.env = c.env(*p, r.next());
        nd.ready();
        nd.cwd = s.vfs.get(ROOT, &c.manifest(*p), true).unwrap();
        nd.rng = Rng::new(r.next(), 1);
        nd.pid = 1000 + r.below(30000) as i32;
        nd.clock = r.below(1 << 50) as i64 - (1 << 49);
        nd.faults = faults.iter().filter(|f| f.0 == k).map(|f| (f.1, f.2)).collect();
        nd.roots = vec![x.own.clone(), c.canon(&c.shared_dir(*p)), libs().scratch.clone()];
        if !nd.faults.is_empty() {
            // failing lookups may move the choice of the shared directory
            nd.roots.push(c.canon(&format!("{}/cxxbridge", c.target())));
        }
        // unchanged outputs, to see that they stay untouched
        before.push(
            x.files
                .iter()
                .map(|(f, want)| {
                    let i = s.vfs.get(ROOT, f, false).ok()?;
                    match &s.vfs.inodes[i].node {
                        Node::File(d) if **d == **want => Some((i, s.vfs.inodes[i].mtime)),
                        _ => None,
                    }
                })
                .collect(),
        );
        let mut t = vec![];
        if let Ok(i) = s.vfs.get(ROOT, &x.own, true) {
            s.vfs.tree(i, "", &mut t);
        }
        own_before.push(t.into_iter().map(|e| e.0).collect());
        let kk = &c.pkgs[*p];
        let mut prog = String::new();
        if let Some(v) = &kk.prefix {
            prog.push_str(&format!("prefix {v}\n"));
        }
        if !kk.dirs.is_empty() {
            prog.push_str(&format!("dirs {}\n", kk.dirs.join(",")));
        }
        for v in &kk.prefixes {
            prog.push_str(&format!("pushprefix {v}\n"));
        }
        if !kk.plinks.is_empty() {
            prog.push_str(&format!("links {}\n", kk.plinks.join(",")));
        }
        if kk.doxygen {
            prog.push_str("doxygen 1\n");
        }
        for _ in 0..kk.times.max(1) {
            prog.push_str(&format!("bridges {}\n", kk.bridges.join(",")));
        }
        let lib = libs().build[libs().nbuild];
        libs().nbuild += 1;
        s.nodes.push(nd);
        let n = s.nodes.len() - 1;
        c.exps.push((n, *p, x));
        bodies.push((n, Box::new(move || unsafe { (lib.main)(prog.as_ptr(), prog.len()) })));
        c.stats.procs += 1;
    }
    let several = list.len() > 1;
    if several {
        c.stats.concurrent += 1;
        s.watch = Some(watch);
    }
    s.run(bodies);
    s.watch = None;
    if s.hang {
        return;
    }
    let any_fault = c.exps.iter().any(|e| s.nodes[e.0].delivered.iter().any(|d| !d.kind.transparent()));
    let mut bad = any_fault;
    for k in 0..c.exps.len() {
        let (n, p, x) = c.exps[k].clone();
        judge_node(c, n, p, &x, several, c.judged[k], any_fault, &before[k], &own_before[k]);
        bad |= s.nodes[n].exit != Some(Exit::Code(0));
    }
    // the shared directory, at the end of the step
    if !any_fault {
        for k in 0..c.exps.len() {
            if s.nodes[c.exps[k].0].exit != Some(Exit::Code(0)) || c.obstacle {
                continue;
            }
            let x = c.exps[k].2.clone();
            for (path, want) in &x.shared {
                let got = s.vfs.read(path);
                let fits = |w: &[u8]| got.as_ref().is_ok_and(|g| g.as_slice() == w);
                if !fits(want) && !c.exps.iter().any(|e| e.2.shared.iter().any(|(q, w)| q == path && fits(w))) {
                    let m = format!("after {} succeeded the shared {path} {}", s.nodes[c.exps[k].0].name, describe(&got, want));
                    s.viol(if several { Cls::Conc } else { Cls::Stale }, m);
                    break;
                }
            }
        }
    }
    c.hist_bad |= bad;
}
#[allow(clippy::too_many_arguments)]
fn judge_node(c: &mut Ctx, n: usize, p: usize, x: &Expect, several: bool, judged: bool, any_fault: bool, before: &[Option<(Ino, u64)>], own_before: &BTreeSet<String>) {
    let s = sim();
    let nd = &s.nodes[n];
    let hard: Vec<Delivered> = nd.delivered.iter().filter(|d| !d.kind.transparent()).cloned().collect();
    let soft = !nd.delivered.is_empty() && hard.is_empty();
    let name = nd.name.clone();
    // which property a wrong outcome of a run without hard faults of its own breaks
    let cond = c.pkgs[p].bridges.iter().filter_map(|b| c.pkgs[p].srcs.get(&c.src_key(p, b))).any(|t| t.starts_with('f'));
    let ran = c.pkgs[p].ran;
    c.pkgs[p].ran = true;
    let cls: &[Cls] = if !hard.is_empty() || soft {
        &[Cls::Fault]
    } else if several {
        &[Cls::Conc]
    } else if c.hist_bad {
        &[Cls::Stale]
    } else if cond {
        &[Cls::Eval]
    } else if ran {
        &[Cls::Stale, Cls::Det]
    } else {
        &[Cls::Det]
    };
    let viol = |s: &mut Sim, m: String| {
        for c in cls {
            s.viol(*c, m.clone());
        }
    };
    let what = if hard.is_empty() && !soft { String::new() } else { format!(" (after {})", nd.delivered.iter().map(|d| format!("{} of {} {}", d.kind.name(), OPNAMES[d.op as usize], d.path)).collect::<Vec<_>>().join(", ")) };
    let err = nd.err();
    match nd.exit.clone() {
        Some(Exit::Killed) => {
            c.stats.killed += 1;
        }
        Some(Exit::Code(0)) => {
            c.stats.ok += 1;
            if !hard.is_empty() {
                c.stats.fault_survived += 1;
            }
            let times = c.pkgs[p].times.max(1);
            let builds: Vec<String> = nd.results.iter().filter_map(|r| r.1.strip_prefix("build ").map(|s| s.to_owned())).collect();
            let out = nd.out();
            let muts: Vec<(Op, String)> = nd.mutations.clone();
            if let Some(e) = x.err {
                s.viol(Cls::Inc, format!("{name} succeeded although its configuration is wrong ({e})"));
                return;
            }
            if let Some(f) = &x.bad_source {
                let m = format!("{name} succeeded although {f} is not a bridge it can generate from");
                s.viol(Cls::Diag, m.clone());
                s.viol(Cls::Fault, m.clone());
                s.viol(Cls::Eval, m);
                return;
            }
            c.stats.outputs_checked += (x.files.len() + x.seen.len() + x.links.len()) as u64;
            if !judged {
                if let Some(m) = incomplete(&s.vfs, x, hard.is_empty() && !c.obstacle) {
                    viol(s, format!("{name} reported success{what} but {m}"));
                    return;
                }
            }
            if out != x.stdout {
                let m = format!("{name} told cargo{what}\n{out}instead of\n{}", x.stdout);
                s.viol(Cls::Inc, m.clone());
                viol(s, m);
                return;
            }
            if builds.len() != times {
                viol(s, format!("{name} returned from {} of {times} calls", builds.len()));
                return;
            }
            let per = x.sources.len() / times;
            for b in &builds {
                let inc = list_field(b, "include_directories");
                let files = list_field(b, "files");
                if inc.as_ref() != Some(&x.includes) {
                    let m = format!("{name}: include path of the compiler is {inc:?} instead of {:?}", x.includes);
                    s.viol(Cls::Inc, m.clone());
                    viol(s, m);
                }
                let want: Vec<String> = x.sources.iter().step_by(times).take(per).cloned().collect();
                if files.as_ref() != Some(&want) {
                    let m = format!("{name}: sources for the compiler are {files:?} instead of {want:?}");
                    s.viol(Cls::Inc, m.clone());
                    viol(s, m);
                }
                if !b.contains(" cpp: true") {
                    viol(s, format!("{name}: the compiler is not asked for C++"));
                }
            }
            if hard.is_empty() {
                for (k, b) in before.iter().enumerate() {
                    if let Some((i, mt)) = b {
                        let f = &x.files[k].0;
                        c.stats.reruns_untouched += 1;
                        let now = s.vfs.get(ROOT, f, false).ok();
                        if now != Some(*i) || s.vfs.inodes[*i].mtime != *mt {
                            if !any_fault {
                                s.viol(Cls::Touch, format!("{name} rewrote {f} although its contents did not change"));
                            }
                        }
                    }
                }
                let mut t = vec![];
                if let Ok(i) = s.vfs.get(ROOT, &x.own, true) {
                    s.vfs.tree(i, "", &mut t);
                }
                for (f, _) in t {
                    if !own_before.contains(&f) && !x.own_paths.contains(&f) {
                        s.viol(Cls::Stale, format!("{name} left {}{f} behind, which is not one of its outputs", x.own));
                        break;
                    }
                }
            }
            let _ = muts;
            // cargo keeps the metadata of the last successful run
            c.pkgs[p].meta = Some(
                out.lines()
                    .filter_map(|l| l.strip_prefix("cargo:").and_then(|l| l.split_once('=')))
                    .map(|(a, b)| (a.to_owned(), b.to_owned()))
                    .collect(),
            );
        }
        Some(Exit::Code(code)) => {
            c.stats.failed += 1;
            let blind = nd.delivered.iter().any(|d| d.op == Op::Stderr && !d.kind.transparent());
            if let Some(e) = x.err {
                c.stats.rejected += 1;
                if hard.is_empty() && !err.contains(e) && !blind && x.bad_source.is_none() && !c.obstacle {
                    s.viol(Cls::Inc, format!("{name} failed with\n{err}instead of saying that an element {e}"));
                }
                return;
            }
            if let Some(f) = &x.bad_source {
                c.stats.rejected += 1;
                let muts = nd.mutations.clone();
                if hard.is_empty() && !blind && !c.obstacle && !err.contains(f.as_str()) {
                    s.viol(Cls::Fault, format!("{name} failed on {f} without naming it: {err}"));
                }
                if let Some((t, r)) = &x.bad_token {
                    if hard.is_empty() && !c.obstacle {
                        c.stats.diags += r.diags.len().max(1) as u64;
                        let rel = rel_path(f);
                        let rel = rel_path(rel.strip_prefix(&rel_path(&format!("{}/", c.manifest(p)))).unwrap_or(&rel));
                        let touched = muts.iter().find(|m| [".h", ".cc", ""].iter().any(|e| m.1.ends_with(&format!("/{rel}{e}"))));
                        let told = match touched {
                            Some(m) => Err(format!("{} of {} happened although nothing can be generated", OPNAMES[m.0 as usize], m.1)),
                            None => diagnosed(&err, code, t, r, f),
                        };
                        if let Err(m) = told {
                            s.viol(Cls::Diag, format!("{name}, given {t} as {f}{what}: {m}"));
                        }
                    }
                }
                return;
            }
            if hard.is_empty() {
                if !c.obstacle {
                    let m = format!("{name} failed with status {code}{what} although nothing was wrong: {}", err.trim());
                    viol(s, m.clone());
                    if cls.contains(&Cls::Det) {
                        s.viol(Cls::Inc, m);
                    }
                }
                return;
            }
            c.stats.fault_failures += 1;
            if !blind {
                if err.trim().is_empty() {
                    s.viol(Cls::Fault, format!("{name} failed{what} without a diagnostic"));
                } else {
                    let files: Vec<&Delivered> = hard.iter().filter(|d| d.path.starts_with('/')).collect();
                    if !files.is_empty() && files.len() == hard.len() && !c.obstacle && !files.iter().any(|d| names(&err, &d.path, &c.manifest(p))) {
                        s.viol(Cls::Fault, format!("{name} failed{what} without naming the file: {}", err.trim()));
                    }
                }
            }
        }
        Some(Exit::Abort) | None => {
            s.viol(Cls::Crash, format!("{name} aborted{what}: {}", err.trim()));
        }
    }
}
/// What is said about a source that is not accepted: every error in the order of their places, each with file, line
/// and column, the text of the line and a mark under what is meant.
const HINTS: &[(&str, &str)] = &[
    ("Box of a C++ type is not supported yet", "= hint: use UniquePtr<> or SharedPtr<>"),
    ("C++ string by value is not supported", "= hint: wrap it in a UniquePtr<>"),
    ("C++ type by value is not supported", "= hint: wrap it in a UniquePtr<> or SharedPtr<>"),
    ("opaque Rust type by value is not supported", "= hint: wrap it in a Box<>"),
    ("discriminant overflow on value after ", "= note: explicitly set `= 0` if that is desired outcome"),
    ("`use` items are not allowed within cxx bridge", "or types exported by the cxx"),
];
pub fn diagnosed(err: &str, code: i32, token: &str, r: &Ref, path: &str) -> std::result::Result<(), String> {
    let said = || err.trim().chars().take(600).collect::<String>();
    if code != 1 || r.panicked {
        return Err(format!("ended with status {code} instead of a diagnostic: {}", said()));
    }
    let src = srcgen::source(token);
    let path = if path == "-" { "/dev/stdin" } else { path };
    if r.utf8 || r.diags.is_empty() {
        let mut want = vec![if path == "/dev/stdin" { "-" } else { path }.to_owned(), if r.utf8 { "utf-8".into() } else { "no #[cxx::bridge] module found".into() }];
        if let (true, Err(e)) = (r.utf8, std::str::from_utf8(&src)) {
            want.push(format!("{}", e.valid_up_to()));
        }
        return match want.iter().find(|w| !err.contains(w.as_str())) {
            Some(w) => Err(format!("the diagnostic does not say {w:?}: {}", said())),
            None => Ok(()),
        };
    }
    let text = String::from_utf8_lossy(&src).into_owned();
    let lines: Vec<&str> = text.split('\n').collect();
    // what is ruled out by the documentation is known without the generator
    if token.starts_with('r') {
        let (_, told, from) = srcgen::rejected(srcgen::seed_of(token));
        // (if what stands before it is rejected first, the rest may not be looked at)
        let other = r.diags.iter().any(|d| d.start.0 < from && d.start != (1, 0));
        for w in told {
            if !other && !r.diags.iter().any(|d| d.start == (w.line, w.col) && d.msg.contains(&w.msg)) {
                let l: Vec<String> = r.diags.iter().map(|d| format!("{}:{} {}", d.start.0, d.start.1, d.msg)).collect();
                return Err(format!("nothing is said about {}:{} {:?} ({}), only {}", w.line, w.col, w.msg, lines[w.line - 1].trim(), l.join("; ")));
            }
        }
    }
    let mut rest = err;
    for d in &r.diags {
        let (line, col) = d.start;
        let head = format!("error[cxxbridge]: {}\n", d.msg);
        let Some(i) = rest.find(&head) else { return Err(format!("the error at {line}:{col}, {:?}, is missing, or out of order: {}", d.msg, said())) };
        if rest[..i].contains("error[cxxbridge]") {
            return Err(format!("an error is reported that does not belong there: {}", rest[..i].trim()));
        }
        rest = &rest[i + head.len()..];
        let end = rest.find("error[cxxbridge]: ").unwrap_or(rest.len());
        let body = &rest[..end];
        if lines.get(line - 1).is_none_or(|l| col > l.chars().count()) {
            return Err(format!("the error {:?} is placed at {line}:{}, where the source has nothing: {}", d.msg, col + 1, body.trim_end()));
        }
        let at = format!("\u{250c}\u{2500} {path}:{line}:{}\n", col + 1);
        if !body.contains(&at) {
            return Err(format!("the error {:?} is placed elsewhere than at {path}:{line}:{}: {}", d.msg, col + 1, body.trim_end()));
        }
        let l = lines.get(line - 1).copied().unwrap_or("").trim_end();
        if lines.get(line - 1).is_some_and(|l| l.strip_suffix('\r').unwrap_or(l).contains(|c: char| c.is_control())) {
            continue;
        }
        if !body.lines().any(|b| b.trim_start().strip_prefix(&format!("{line} \u{2502}")).is_some_and(|b| b.trim_end().ends_with(l))) {
            return Err(format!("line {line} is not shown for the error {:?}: {}", d.msg, body.trim_end()));
        }
        // as wide as it is shown
        let wide = |s: &str| {
            s.chars().try_fold(0, |w, c| match c {
                ' '..='~' | '\u{e9}' => Some(w + 1),
                '\u{4e16}' | '\u{754c}' | '\u{1f980}' => Some(w + 2),
                _ => None,
            })
        };
        // (the end of a line can be part of it)
        let upto = |l: &str, n: usize| l.chars().chain(std::iter::repeat(' ')).take(n).collect::<String>();
        if d.end.0 != line {
            let l = lines.get(d.end.0 - 1).copied().unwrap_or("");
            if !body.lines().any(|b| b.trim_start().starts_with(&format!("{} \u{2502}", d.end.0))) {
                return Err(format!("the end in line {} is not shown for the error {:?}: {}", d.end.0, d.msg, body.trim_end()));
            }
            let mark = wide(&upto(l, d.end.1)).map(|w| format!("\u{2570}{}^", "\u{2500}".repeat(w)));
            if mark.is_some_and(|m| !body.contains(&m)) {
                return Err(format!("the end at column {} of line {} is not marked for the error {:?}: {}", d.end.1, d.end.0, d.msg, body.trim_end()));
            }
        } else if let (Some(a), Some(b)) = (wide(&upto(l, col)), wide(&upto(l, d.end.1.max(col + 1)))) {
            let mark = format!(" \u{2502} {}{}", " ".repeat(a), "^".repeat((b - a).max(1)));
            if !body.lines().any(|b| b.find(&mark).is_some_and(|i| !b[i + mark.len()..].starts_with('^'))) {
                return Err(format!("columns {col} to {} of line {line} are not marked for the error {:?}: {}", d.end.1, d.msg, body.trim_end()));
            }
        }
        // what to do instead is said along with it
        for (m, hint) in HINTS {
            if d.msg.contains(m) && !body.contains(hint) {
                return Err(format!("the hint {hint:?} is missing for the error {:?}: {}", d.msg, body.trim_end()));
            }
        }
    }
    if rest.contains("error[cxxbridge]") {
        return Err(format!("more errors are reported than there are: {}", rest.trim()));
    }
    Ok(())
}
/// Whether a diagnostic names a path, or one the failing operation was done for.
pub fn names(err: &str, path: &str, cwd: &str) -> bool {
    err.split('`').any(|t| {
        if t.is_empty() || t.contains('\n') {
            return false;
        }
        let full = if t.starts_with('/') { t.to_owned() } else { format!("{cwd}/{t}") };
        let (a, b) = (norm(&full), norm(path));
        let (a2, b2) = (ctx().canon(&a), ctx().canon(&b));
        // (what is there may itself be a link)
        let place = |p: &str| p.rsplit_once('/').map_or(String::new(), |(d, f)| format!("{}/{f}", ctx().canon(d)));
        let (a3, b3) = (place(&a), place(&b));
        // a file may be written under another name first, beside its place
        let beside = |a: &str, b: &str| match (a.rsplit_once('/'), b.rsplit_once('/')) {
            (Some((d, f)), Some((e, g))) => d == e && (g.contains(f) || f.contains(g)),
            _ => false,
        };
        let rel = |a: &str, b: &str| a == b || beside(a, b) || a.starts_with(&format!("{b}/")) || b.starts_with(&format!("{a}/"));
        rel(&a, &b) || rel(&a2, &b2) || rel(&a3, &b3)
    })
}
fn norm(p: &str) -> String {
    format!("/{}", rel_path(p))
}
