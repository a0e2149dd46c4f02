//! Random runs, one generator per check.
use crate::rng::Rng;
use crate::sim::{Fk, Sched};
use crate::spec::*;
use crate::vfs::*;
use Step::*;

struct G {
    r: Rng,
    w: World,
    s: Vec<Step>,
    npkg: usize,
    links: Vec<String>,
    cond: bool,
    rejects: bool,
    nhdr: u64,
}
const NAMES: [&str; 4] = ["demo", "al-pha", "beta_2", "g"];
const PREFIXES: [&str; 14] = ["", "demo", "path", "path/to", "path/to/more", "other", "demo/src", "to", "rust", "a/./dot", "a//b/", "include", "src", "demo/include"];
const FILES: [&str; 10] = ["src/lib.rs", "src/main.rs", "src/inner/ffi.rs", "src/inner/deep/x.rs", "./src/dot.rs", "src/../src/up.rs", "{m}/src/abs.rs", "bridge.rs", "../ext-{n}/x.rs", "/sim/ext/{n}/y.rs"];
fn key(f: &str) -> String {
    if f.starts_with("../") || f.starts_with("/") {
        return f.into(); // not in the package
    }
    crate::exec::rel_path(f.strip_prefix("{m}/").unwrap_or(f))
}
impl G {
    fn new(r: &mut Rng) -> G {
        let w = World {
            mark: r.below(4),
            tenv: if r.one_in(3) { r.range(1, 2) } else { 0 },
            tlink: r.one_in(4) as u64,
            plink: r.one_in(5) as u64,
            outdots: r.one_in(8) as u64,
            nohdr: r.one_in(3) as u64,
        };
        G { r: r.clone(), w, s: vec![], npkg: 0, links: vec![], cond: false, rejects: false, nhdr: 0 }
    }
    fn done(mut self, r: &mut Rng, gap: u64) -> Spec {
        let seed = self.r.next();
        let sseed = self.r.next() >> 1;
        r.0 = self.r.0;
        Spec { world: self.w, seed, steps: self.s, sched: Sched::Random { seed: sseed, gap } }
    }
    fn token(&mut self) -> String {
        if self.rejects && self.r.one_in(2) {
            return self.bad_token();
        }
        if self.cond {
            return format!("f{}", self.r.below(100_000));
        }
        format!("g{}", self.r.below(100_000))
    }
    fn bad_token(&mut self) -> String {
        let k = *self.r.pick(&["s", "c", "n", "u", "e", "d", "r"]);
        if self.rejects && !self.r.one_in(8) {
            let k = *self.r.pick(&["d", "d", "r"]);
            return format!("{k}{}", self.r.below(1_000_000));
        }
        format!("{k}{}", self.r.below(1000))
    }
    fn pkg(&mut self, links: bool) -> usize {
        let p = self.npkg;
        let name = NAMES[p % 4].to_owned();
        let links = match (links, self.r.below(12)) {
            (false, _) => String::new(),
            // names that look like cxx-build's own variables
            (true, 0) => format!("{name}-cxxbridge-links"),
            (true, 1) => format!("my_cxxbridge_prefix_{name}"),
            (true, 2) => format!("cxxbridge_dir0-{name}"),
            (true, _) => format!("{name}-links"),
        };
        self.s.push(Pkg { links: links.clone(), name });
        self.npkg += 1;
        self.links.push(links);
        self.bridges(p);
        p
    }
    fn bridges(&mut self, p: usize) {
        let n = if self.r.one_in(3) { self.r.range(2, 3) } else { 1 };
        let mut f: Vec<String> = FILES.iter().map(|s| s.replace("{n}", NAMES[p % 4])).collect();
        if n == 1 && self.r.one_in(2) {
            f.truncate(1);
        }
        self.r.shuffle(&mut f);
        f.truncate(n as usize);
        for x in &f {
            let content = self.token();
            self.s.push(Src { p, file: key(x), content });
        }
        self.s.push(Bridges { p, files: f });
    }
    fn world(&mut self, npkg: u64) {
        for _ in 0..npkg {
            let l = self.r.one_in(3);
            self.pkg(l);
        }
        for p in 0..self.npkg {
            if self.r.one_in(3) {
                self.prefix(p);
            }
        }
    }
    fn prefix(&mut self, p: usize) {
        let v = self.r.pick(&PREFIXES).to_string();
        // packages with the same prefix share entries of the shared directory; the layout rules that out
        let v = if p == 0 { v } else { format!("{}{}", NAMES[p % 4], if v.is_empty() { String::new() } else { format!("/{v}") }) };
        self.s.push(Prefix { p, v });
    }
    /// A change of sources or configuration.
    fn edit(&mut self) {
        let p = self.r.below(self.npkg as u64) as usize;
        match self.r.below(14) {
            0..=4 => {
                let f = self.r.pick(&FILES[..2]).to_string();
                let content = self.token();
                self.s.push(Src { p, file: f, content });
            }
            12 | 13 => {
                // a small change, or none: the file is only written again
                let old: Vec<_> = self.s.iter().filter_map(|s| match s { Src { p: q, file, content } if *q == p => Some((file.clone(), content.clone())), _ => None }).collect();
                if old.is_empty() {
                    return;
                }
                let (file, _) = self.r.pick(&old).clone();
                let last = &old.iter().rev().find(|x| x.0 == file).unwrap().1;
                let content = if self.r.one_in(4) || !last.starts_with('g') { last.clone() } else { crate::srcgen::variant(last, &mut self.r) };
                self.s.push(Src { p, file, content });
            }
            5..=6 => self.bridges(p),
            7..=8 => self.prefix(p),
            9 => {
                let on = self.r.one_in(2);
                self.s.push(Doxygen { p, on });
            }
            10 => {
                // another version of cxx
                self.nhdr += 1;
                let on = self.r.one_in(2);
                self.s.push(Hdr { on });
            }
            _ => {
                let f = self.r.pick(&FILES[..2]).to_string();
                if self.r.one_in(2) {
                    let content = self.bad_token();
                    self.s.push(Src { p, file: f, content });
                } else {
                    self.s.push(RmSrc { p, file: f });
                }
            }
        }
    }
    fn all(&mut self) -> Vec<usize> {
        let mut v: Vec<usize> = (0..self.npkg).collect();
        self.r.shuffle(&mut v);
        v
    }
    fn run1(&mut self) {
        let p = self.r.below(self.npkg as u64) as usize;
        self.s.push(Run { ps: vec![p] });
    }
    fn crash(&mut self) {
        let kind = *self.r.pick(&[Fk::Crash, Fk::CrashAfter, Fk::CrashMid]);
        let call = self.call();
        self.s.push(Fault { n: 0, call, kind });
    }
    fn call(&mut self) -> u32 {
        match self.r.below(4) {
            0 => self.r.below(20) as u32,
            1 | 2 => self.r.below(110) as u32,
            _ => self.r.below(260) as u32,
        }
    }
    fn hard(&mut self, n: usize) {
        let e = *self.r.pick(&[EIO, EIO, EACCES, ENOSPC, ENOSPC, EMFILE, EROFS]);
        let kind = if self.r.one_in(4) { Fk::Sticky(*self.r.pick(&[EIO, ENOSPC, EROFS, EACCES])) } else { Fk::Err(e) };
        let call = self.call();
        self.s.push(Fault { n, call, kind });
    }
    fn soft(&mut self, n: usize) {
        let kind = if self.r.one_in(2) { Fk::Short } else { Fk::Err(EINTR) };
        let call = self.call();
        self.s.push(Fault { n, call, kind });
    }
    fn dirty(&mut self) {
        let (sel, kind) = (self.r.next() >> 40, self.r.below(11));
        self.s.push(Dirty { sel, kind });
    }
    fn tick(&mut self) {
        let ns = self.r.below(1 << 45) as i64 - (1 << 43);
        self.s.push(Tick { ns });
    }
}

/// Earlier builds, crashes and leftovers; then runs that must be right.
fn stale(r: &mut Rng) -> Spec {
    let mut g = G::new(r);
    let n = if g.r.one_in(3) { 2 } else { 1 };
    g.world(n);
    for _ in 0..g.r.range(1, 6) {
        match g.r.below(10) {
            0..=2 => {
                g.crash();
                g.run1();
            }
            3..=5 => {
                g.run1();
                g.edit();
            }
            6 => {
                g.hard(0);
                g.run1();
            }
            7 => {
                g.run1();
                let seed = g.r.next() >> 40;
                g.s.push(Power { seed });
            }
            _ => {
                g.run1();
                for _ in 0..g.r.range(1, 3) {
                    g.dirty();
                }
            }
        }
        if g.r.one_in(4) {
            g.tick();
        }
    }
    for p in g.all() {
        g.s.push(Run { ps: vec![p] });
    }
    g.done(r, 1)
}
/// Several build scripts at once.
fn concurrent(r: &mut Rng) -> Spec {
    let mut g = G::new(r);
    let n = g.r.range(2, 4);
    g.world(n);
    let rounds = g.r.range(1, 3);
    for k in 0..rounds {
        if k > 0 {
            if g.r.one_in(2) {
                g.edit();
            }
            if g.r.one_in(4) {
                g.dirty();
            }
            if g.r.one_in(6) {
                let seed = g.r.next() >> 40;
                g.s.push(Power { seed });
            }
        }
        let faulty = g.r.one_in(4);
        if faulty {
            match g.r.below(3) {
                0 => g.hard(0),
                1 => g.soft(0),
                _ => g.crash(),
            }
        }
        let ps = g.all();
        g.s.push(Run { ps });
        if faulty {
            let ps = g.all();
            g.s.push(Run { ps });
        }
    }
    let gap = *g.r.pick(&[1, 2, 4, 10, 30]);
    g.done(r, gap)
}
/// Anything that could make a program write where it must not.
fn outside(r: &mut Rng) -> Spec {
    if r.one_in(4) {
        return cli(r);
    }
    let mut g = G::new(r);
    let n = g.r.range(1, 3);
    g.world(n);
    for _ in 0..g.r.range(2, 6) {
        for _ in 0..g.r.below(3) {
            g.dirty();
        }
        if g.r.one_in(2) {
            let p = g.r.below(g.npkg as u64) as usize;
            g.prefix(p);
        }
        if g.r.one_in(3) {
            g.edit();
        }
        match g.r.below(4) {
            0 => g.hard(0),
            1 => g.crash(),
            _ => {}
        }
        if g.r.one_in(3) {
            let ps = g.all();
            g.s.push(Run { ps });
        } else {
            g.run1();
        }
    }
    g.done(r, 6)
}
fn faults(r: &mut Rng) -> Spec {
    let mut g = G::new(r);
    g.world(1);
    for _ in 0..g.r.range(1, 4) {
        for _ in 0..*g.r.pick(&[1, 1, 1, 2, 3]) {
            if g.r.one_in(4) {
                g.soft(0);
            } else {
                g.hard(0);
            }
        }
        g.run1();
        if g.r.one_in(2) {
            g.edit();
        }
        if g.r.one_in(5) {
            g.dirty();
        }
    }
    g.done(r, 1)
}
fn untouched(r: &mut Rng) -> Spec {
    let mut g = G::new(r);
    let n = g.r.range(1, 2);
    g.world(n);
    let ps = g.all();
    g.s.push(Run { ps });
    for _ in 0..g.r.range(1, 5) {
        match g.r.below(6) {
            0 | 1 => g.edit(),
            2 => g.crash(),
            3 => g.soft(0),
            _ => {}
        }
        if g.r.one_in(2) {
            g.tick();
        }
        if g.r.one_in(3) {
            let ps = g.all();
            g.s.push(Run { ps });
        } else {
            g.run1();
        }
    }
    let ps = g.all();
    g.s.push(Run { ps });
    g.done(r, 5)
}
fn determinism(r: &mut Rng) -> Spec {
    if r.one_in(3) {
        return includes(r);
    }
    let mut g = G::new(r);
    let n = g.r.range(1, 2);
    g.world(n);
    if g.r.one_in(2) {
        let p = g.r.below(g.npkg as u64) as usize;
        let n = g.r.range(2, 3) as usize;
        g.s.push(Twice { p, n });
    }
    for _ in 0..g.r.range(1, 3) {
        if g.r.one_in(2) {
            g.tick();
        }
        g.run1();
        if g.r.one_in(2) {
            g.edit();
        }
    }
    if g.r.one_in(3) {
        let content = g.token();
        g.s.push(Src { p: 99, file: "in.rs".into(), content });
        let args = vec!["in.rs".into(), "-o".into(), "out.h".into(), "-o".into(), "-".into()];
        g.s.push(Cli { args: args.clone(), stdin: String::new() });
        g.s.push(Cli { args, stdin: String::new() });
    }
    g.done(r, 1)
}
fn cli(r: &mut Rng) -> Spec {
    let mut g = G::new(r);
    cli_steps(&mut g, 3, true);
    g.done(r, 1)
}
fn cli_steps(g: &mut G, max: u64, faults: bool) {
    const OUTS: [&str; 12] = ["out.cc", "out.h", "out.hpp", "out.hh", "-", "sub/dir/out.h", "sub/dir/out.cc", "noext", "/sim/cli-abs/x.h", "out.h.cc", "./out.cc", "link.cc"];
    const ROOTS: [&str; 2] = ["in.rs", "dir/in2.rs"];
    for f in ROOTS {
        let content = if g.r.one_in(if g.rejects { 2 } else { 6 }) { g.bad_token() } else { g.token() };
        g.s.push(Src { p: 99, file: f.into(), content });
    }
    for _ in 0..g.r.range(1, max) {
        let mut a: Vec<Vec<String>> = vec![];
        let n = *g.r.pick(&[0, 1, 1, 2, 3, 5]);
        for _ in 0..n {
            let o = g.r.pick(&OUTS).to_string();
            if o != "-" {
                for k in [7, g.r.below(10)] {
                    if !g.r.one_in(5) || k == 7 {
                        g.s.push(Out { path: o.clone(), kind: if k == 7 && g.r.one_in(6) { 0 } else { k } });
                    }
                }
            }
            a.push(match g.r.below(3) {
                0 => vec!["-o".into(), o],
                1 => vec!["--output".into(), o],
                _ => vec![format!("--output={o}")],
            });
        }
        let noinput = g.r.one_in(6);
        if noinput || g.r.one_in(3) {
            a.push(vec!["--header".into()]);
        }
        for _ in 0..*g.r.pick(&[0, 0, 1, 2]) {
            let h = g.r.pick(&["<vector>", "my/header.h", "<a/b.h>", "x y.h", "<vector>", "my/header.h", "<odd", "odd>", "<>", "<", ">", "<<a>>", "a<b>"]).to_string();
            a.push(match g.r.below(2) {
                0 => vec!["-i".into(), h],
                _ => vec!["--include".into(), h],
            });
        }
        if g.r.one_in(3) {
            let v = g.r.pick(&["__attribute__((visibility(\"default\")))", "MY_EXPORT", "A", "", "A  B ", " A"]).to_string();
            a.push(vec!["--cxx-impl-annotations".into(), v]);
        }
        if g.cond || g.r.one_in(6) {
            let strict = g.r.one_in(5);
            for (n, vs) in [("unix", &["true", ""][..]), ("windows", &["false"]), ("custom", &["true", "false", ""]), ("unix", &["\"x\""]), ("custom", &["\"v9\"", "\"v9\"", "true", "false"]), ("debug_assertions", &["true", "false"]), ("test", &["true", "false", "\"x\""])] {
                // (the later ones: a name with a value as well, or said twice)
                if a.iter().any(|x| x[0] == "--cfg" && x[1].split('=').next() == Some(n)) && g.r.one_in(2) {
                    continue;
                }
                if !strict || g.r.one_in(2) {
                    let v = *g.r.pick(vs);
                    a.push(vec!["--cfg".into(), if v.is_empty() { n.into() } else { format!("{n}={v}") }]);
                }
            }
            for (n, vs) in [("target_os", &["linux"][..]), ("target_feature", &["sse2", "sse"]), ("target_pointer_width", &["64"]), ("custom_key", &["v1", "v2"]), ("feature", &["a", "b", "long-name", "snake_name"])] {
                for v in vs {
                    if (n != "feature" && !strict) || g.r.one_in(2) {
                        a.push(vec!["--cfg".into(), format!("{n}=\"{v}\"")]);
                    }
                }
            }
        }
        let mut stdin = String::new();
        if !noinput {
            let i = g.r.pick(&["in.rs", "in.rs", "in.rs", "dir/in2.rs", "-", "/sim/cli/in.rs", "missing.rs", "./dir/../in.rs"]).to_string();
            if i == "-" {
                stdin = if g.r.one_in(6) { g.bad_token() } else { g.token() };
            }
            a.push(vec![i]);
        }
        g.r.shuffle(&mut a);
        if faults && g.r.one_in(2) {
            for _ in 0..g.r.range(1, 2) {
                let kind = match g.r.below(10) {
                    0 => Fk::Short,
                    1 => Fk::Err(EINTR),
                    2 => Fk::Err(EPIPE),
                    3 => Fk::Sticky(*g.r.pick(&[EPIPE, EIO, ENOSPC])),
                    4 => Fk::CrashMid,
                    k => Fk::Err([EIO, EIO, ENOSPC, EACCES, EMFILE][k as usize - 5]),
                };
                let call = g.r.below(14) as u32;
                g.s.push(Fault { n: 0, call, kind });
            }
        }
        g.s.push(Cli { args: a.concat(), stdin });
        if g.r.one_in(3) {
            let content = g.token();
            g.s.push(Src { p: 99, file: "in.rs".into(), content });
        }
    }
}
/// Graphs of crates that export headers to each other.
fn includes(r: &mut Rng) -> Spec {
    let mut g = G::new(r);
    let n = g.r.range(2, 4) as usize;
    for _ in 0..n {
        let l = !g.r.one_in(5);
        g.pkg(l);
    }
    let mut uses: Vec<Vec<usize>> = vec![vec![]; n];
    for p in 1..n {
        for q in 0..p {
            if g.r.one_in(2) {
                g.s.push(Uses { p, q });
                uses[p].push(q);
            }
        }
    }
    for p in 0..n {
        if g.r.one_in(3) {
            g.prefix(p);
        }
        configure(&mut g, p, &uses[p]);
    }
    let order: Vec<usize> = (0..n).collect();
    for round in 0..g.r.range(1, 2) {
        if round > 0 {
            match g.r.below(4) {
                0 => g.edit(),
                1 => {
                    let p = g.r.below(n as u64) as usize;
                    configure(&mut g, p, &uses[p]);
                }
                2 => g.crash(),
                _ => {}
            }
        }
        if g.r.one_in(3) {
            g.s.push(Run { ps: order.clone() }); // as far as dependencies allow
        }
        for p in &order {
            g.s.push(Run { ps: vec![*p] });
        }
        if g.r.one_in(2) {
            let mut o = order.clone();
            g.r.shuffle(&mut o);
            for p in o {
                g.s.push(Run { ps: vec![p] });
            }
        }
    }
    g.done(r, 5)
}
fn configure(g: &mut G, p: usize, uses: &[usize]) {
    if g.links[p].is_empty() && !g.r.one_in(8) {
        return;
    }
    if g.r.one_in(2) {
        let mut v: Vec<String> = vec![];
        for _ in 0..g.r.range(0, 3) {
            v.push(g.r.pick(&["{m}/include", "{m}", "/usr/include/zlib", "/opt/x y", "/a", "/a", "relative/dir", "/usr/include/other"]).to_string());
        }
        if !g.r.one_in(6) {
            v.retain(|x| !x.starts_with("rel"));
        }
        if g.r.one_in(6) {
            // more than ten
            let n = if g.r.one_in(12) { g.r.range(257, 300) } else { g.r.range(9, 14) };
            for i in 0..n {
                v.push(format!("/many/{}", (i * 7) % (n | 1)));
            }
        }
        g.s.push(Dirs { p, v });
    }
    if g.r.one_in(2) {
        let mut v: Vec<String> = vec![];
        for q in uses {
            if g.r.one_in(2) {
                v.push(if g.links[*q].is_empty() { format!("{}-links", NAMES[*q]) } else { g.links[*q].clone() });
            }
        }
        if !v.is_empty() && g.r.one_in(12) {
            // nearly its name
            let l = v[0].clone();
            v[0] = match g.r.below(4) {
                0 => l.to_uppercase(),
                1 => l.replace('-', "_"),
                2 => format!("{}{}", l[..1].to_uppercase(), &l[1..]),
                _ => l[..l.len() - 1].to_owned(),
            };
        }
        if g.r.one_in(8) {
            v.push("nobody".into());
        }
        g.s.push(Links { p, v });
    }
    if g.r.one_in(2) {
        let mut v: Vec<String> = vec![];
        for q in uses {
            if g.r.one_in(2) {
                v.push(NAMES[*q].into());
            }
        }
        if g.r.one_in(6) {
            v.push(g.r.pick(&["", "path", "nobody", "al", "demo/"]).to_string());
        }
        g.s.push(Prefixes { p, v });
    }
}
fn cfg(r: &mut Rng) -> Spec {
    let mut g = G::new(r);
    let any_name = |g: &mut G| {
        let n = g.r.pick(&["demo", "demo", "al-pha", "Be-ta_Two", "x"]).to_string();
        if let Some(Pkg { name, .. }) = g.s.iter_mut().find(|s| matches!(s, Pkg { .. })) {
            *name = n;
        }
    };
    if g.r.one_in(4) {
        g.pkg(true);
        any_name(&mut g);
        g.s.push(Src { p: 0, file: "src/lib.rs".into(), content: "g7".into() });
        let content = g.token();
        g.s.push(Src { p: 0, file: "src/main.rs".into(), content });
        for _ in 0..g.r.range(3, 12) {
            let line = match g.r.below(12) {
                10 => format!("rw {}", g.r.pick(&PREFIXES)),
                11 => "hread".into(),
                0 | 1 => format!("prefix {}", g.r.pick(&PREFIXES)),
                2 => format!("dirs {}", g.r.pick(&["", "/a", "/a,/b", "/c"])),
                3 => format!("pushdir {}", g.r.pick(&["/p", "/q", "/a"])),
                4 => format!("extenddirs {}", g.r.pick(&["/x,/y", "/z"])),
                5 => format!("doxygen {}", g.r.below(2)),
                6 | 7 => format!("bridges {}", g.r.pick(&["src/lib.rs", "src/main.rs", "src/lib.rs,src/main.rs"])),
                _ => "show".into(),
            };
            g.s.push(Prog { t: 0, line });
        }
        g.s.push(Prog { t: 0, line: "bridges src/lib.rs".into() });
        g.s.push(Prog { t: 0, line: "show".into() });
        g.s.push(Threads);
        return g.done(r, 1);
    }
    g.pkg(false);
    any_name(&mut g);
    let n = g.r.range(2, 4);
    for t in 0..n as usize {
        for k in 0..g.r.range(1, 5) {
            let u = format!("t{t}w{k}");
            let line = match g.r.below(18) {
                14 => format!("rw {u}"),
                15 => "hread".into(),
                16 | 17 => format!("multi /{u}"),
                0 | 1 => format!("prefix {u}"),
                2 => format!("dirs /{u},/{u}x"),
                3 => format!("prefixes {u}"),
                4 => format!("links {u},{u}y,{u}z"),
                5 => format!("doxygen {}", g.r.below(2)),
                6 => "rprefix".into(),
                7 => "rdirs".into(),
                8 => "rprefixes".into(),
                9 => "rlinks".into(),
                10 => "rdoxygen".into(),
                11 => "rdebug".into(),
                _ => "rall".into(),
            };
            g.s.push(Prog { t, line });
        }
    }
    g.s.push(Threads);
    let gap = *g.r.pick(&[1, 2, 4, 8]);
    g.done(r, gap)
}
fn eval(r: &mut Rng) -> Spec {
    let mut g = G::new(r);
    g.cond = true;
    if g.r.one_in(3) {
        cli_steps(&mut g, 2, false);
        return g.done(r, 1);
    }
    let l = g.r.one_in(2);
    g.pkg(l);
    for _ in 0..g.r.range(1, 3) {
        for f in ["a", "b", "long-name", "snake_name", "a1", "cfg:custom", "cfg:v1", "cfg:v2"] {
            if g.r.one_in(2) {
                let on = g.r.one_in(2);
                g.s.push(Feature { p: 0, name: f.into(), on });
            }
        }
        if g.r.one_in(2) {
            g.bridges(0);
        }
        g.s.push(Run { ps: vec![0] });
    }
    g.done(r, 1)
}
/// Sources that cannot be accepted.
fn rejects(r: &mut Rng) -> Spec {
    let mut g = G::new(r);
    g.rejects = true;
    if g.r.one_in(2) {
        let f = g.r.one_in(4);
        cli_steps(&mut g, 5, f);
        return g.done(r, 1);
    }
    let l = g.r.one_in(4);
    g.pkg(l);
    for _ in 0..g.r.range(1, 5) {
        if g.r.one_in(4) {
            g.soft(0);
        }
        if g.r.one_in(6) {
            g.hard(0);
        }
        g.run1();
        if g.r.one_in(2) {
            g.bridges(0);
        } else {
            let files: Vec<String> = g.s.iter().filter_map(|s| match s { Src { file, .. } => Some(file.clone()), _ => None }).collect();
            let file = g.r.pick(&files).clone();
            let content = g.token();
            g.s.push(Src { p: 0, file, content });
        }
    }
    g.s.push(Run { ps: vec![0] });
    g.done(r, 1)
}
pub fn generate(id: &str, r: &mut Rng) -> Spec {
    match id {
        "C11" => stale(r),
        "C12" => concurrent(r),
        "C13" => outside(r),
        "C14" => faults(r),
        "C15" => untouched(r),
        "C16" => determinism(r),
        "C17" => cli(r),
        "C18" => includes(r),
        "C19" => cfg(r),
        "C25" => rejects(r),
        _ => eval(r),
    }
}
