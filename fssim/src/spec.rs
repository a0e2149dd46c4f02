//! A run: the world it starts in, its steps, and how its threads are scheduled.
use crate::rng::hash;
use crate::sim::{Fk, Sched};
use std::fmt::Write;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct World {
    pub mark: u64,    // how the target directory is recognised: 0 .rustc_info.json, 1 CACHEDIR.TAG, 2 Cargo.toml beside it, 3 not at all
    pub tenv: u64,    // CARGO_TARGET_DIR: 0 unset, 1 absolute, 2 relative
    pub tlink: u64,   // the target directory is a link to another volume
    pub plink: u64,   // the project is reached through a link
    pub outdots: u64, // OUT_DIR contains ".."
    pub nohdr: u64,   // DEP_CXXBRIDGE1_HEADER is not set
}
#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Pkg { name: String, links: String },
    Src { p: usize, file: String, content: String },
    RmSrc { p: usize, file: String },
    Bridges { p: usize, files: Vec<String> },
    Prefix { p: usize, v: String },
    Dirs { p: usize, v: Vec<String> },
    Prefixes { p: usize, v: Vec<String> },
    Links { p: usize, v: Vec<String> },
    Doxygen { p: usize, on: bool },
    Feature { p: usize, name: String, on: bool },
    Uses { p: usize, q: usize },
    Hdr { on: bool },
    Twice { p: usize, n: usize }, // the program calls bridges n times
    Fault { n: usize, call: u32, kind: Fk },
    Run { ps: Vec<usize> },
    Dirty { sel: u64, kind: u64 },
    Power { seed: u64 },
    Tick { ns: i64 },
    Cli { args: Vec<String>, stdin: String },
    Out { path: String, kind: u64 }, // prepares an output location of the command line program
    Prog { t: usize, line: String },
    Threads,
}
#[derive(Clone, Debug)]
pub struct Spec {
    pub world: World,
    pub seed: u64, // listing order, hash keys, environment order, clock
    pub steps: Vec<Step>,
    pub sched: Sched,
}
fn esc(s: &str) -> String {
    if s.is_empty() {
        return "-".into();
    }
    let mut o = String::new();
    for c in s.chars() {
        match c {
            ' ' => o.push_str("%20"),
            '%' => o.push_str("%25"),
            ',' => o.push_str("%2c"),
            '-' if s == "-" => o.push_str("%2d"),
            c => o.push(c),
        }
    }
    o
}
fn une(s: &str) -> String {
    if s == "-" {
        return String::new();
    }
    s.replace("%20", " ").replace("%2c", ",").replace("%2d", "-").replace("%25", "%")
}
fn l(v: &[String]) -> String {
    if v.is_empty() {
        return "-".into();
    }
    v.iter().map(|x| if x.is_empty() { "%e".into() } else { esc(x) }).collect::<Vec<_>>().join(",")
}
fn ul(s: &str) -> Vec<String> {
    if s == "-" {
        return vec![];
    }
    s.split(',').map(|x| if x == "%e" { String::new() } else { une(x) }).collect()
}
impl Step {
    pub fn text(&self) -> String {
        use Step::*;
        match self {
            Pkg { name, links } => format!("pkg {} {}", esc(name), esc(links)),
            Src { p, file, content } => format!("src {p} {} {content}", esc(file)),
            RmSrc { p, file } => format!("rmsrc {p} {}", esc(file)),
            Bridges { p, files } => format!("bridges {p} {}", l(files)),
            Prefix { p, v } => format!("prefix {p} {}", esc(v)),
            Dirs { p, v } => format!("dirs {p} {}", l(v)),
            Prefixes { p, v } => format!("prefixes {p} {}", l(v)),
            Links { p, v } => format!("links {p} {}", l(v)),
            Doxygen { p, on } => format!("doxygen {p} {}", *on as u8),
            Feature { p, name, on } => format!("feature {p} {} {}", esc(name), *on as u8),
            Uses { p, q } => format!("uses {p} {q}"),
            Hdr { on } => format!("hdr {}", *on as u8),
            Twice { p, n } => format!("twice {p} {n}"),
            Fault { n, call, kind } => format!("fault {n} {call} {}", kind.name()),
            Run { ps } => format!("run {}", l(&ps.iter().map(|p| p.to_string()).collect::<Vec<_>>())),
            Dirty { sel, kind } => format!("dirty {sel} {kind}"),
            Power { seed } => format!("power {seed}"),
            Tick { ns } => format!("tick {ns}"),
            Cli { args, stdin } => format!("cli {} {}", l(args), esc(stdin)),
            Out { path, kind } => format!("out {} {kind}", esc(path)),
            Prog { t, line } => format!("prog {t} {}", esc(line)),
            Threads => "threads".into(),
        }
    }
    pub fn parse(s: &str) -> Option<Step> {
        use Step::*;
        let w: Vec<&str> = s.split(' ').collect();
        let n = |i: usize| -> Option<u64> { w.get(i)?.parse().ok() };
        let u = |i: usize| -> Option<usize> { w.get(i)?.parse().ok() };
        let t = |i: usize| -> Option<String> { w.get(i).map(|x| une(x)) };
        Some(match w[0] {
            "pkg" => Pkg { name: t(1)?, links: t(2)? },
            "src" => Src { p: u(1)?, file: t(2)?, content: t(3)? },
            "rmsrc" => RmSrc { p: u(1)?, file: t(2)? },
            "bridges" => Bridges { p: u(1)?, files: ul(w.get(2)?) },
            "prefix" => Prefix { p: u(1)?, v: t(2)? },
            "dirs" => Dirs { p: u(1)?, v: ul(w.get(2)?) },
            "prefixes" => Prefixes { p: u(1)?, v: ul(w.get(2)?) },
            "links" => Links { p: u(1)?, v: ul(w.get(2)?) },
            "doxygen" => Doxygen { p: u(1)?, on: n(2)? == 1 },
            "feature" => Feature { p: u(1)?, name: t(2)?, on: n(3)? == 1 },
            "uses" => Uses { p: u(1)?, q: u(2)? },
            "hdr" => Hdr { on: n(1)? == 1 },
            "twice" => Twice { p: u(1)?, n: u(2)? },
            "fault" => Fault { n: u(1)?, call: n(2)? as u32, kind: Fk::parse(w.get(3)?)? },
            "run" => Run { ps: ul(w.get(1)?).iter().filter_map(|x| x.parse().ok()).collect() },
            "dirty" => Dirty { sel: n(1)?, kind: n(2)? },
            "power" => Power { seed: n(1)? },
            "tick" => Tick { ns: w.get(1)?.parse().ok()? },
            "cli" => Cli { args: ul(w.get(1)?), stdin: t(2)? },
            "out" => Out { path: t(1)?, kind: n(2)? },
            "prog" => Prog { t: u(1)?, line: t(2)? },
            "threads" => Threads,
            _ => return None,
        })
    }
}
impl Spec {
    pub fn body(&self) -> String {
        let w = &self.world;
        let mut o = format!("world mark={} tenv={} tlink={} plink={} outdots={} nohdr={} seed={}\n", w.mark, w.tenv, w.tlink, w.plink, w.outdots, w.nohdr, self.seed);
        for s in &self.steps {
            let _ = writeln!(o, "{}", s.text());
        }
        o
    }
    pub fn text(&self) -> String {
        let mut o = self.body();
        match &self.sched {
            Sched::Random { seed, gap } => {
                let _ = writeln!(o, "sched random {seed} {gap}");
            }
            Sched::List(l) => {
                let _ = writeln!(o, "sched list");
                for (at, to) in l {
                    let (k, at) = match at >> 62 {
                        0 => ("at", *at),
                        1 => ("first", at & !(1 << 62)),
                        _ => ("blocked", at & !(1 << 63)),
                    };
                    let _ = writeln!(o, "switch {k} {at} {to}");
                }
            }
        }
        o
    }
    pub fn parse(t: &str) -> Option<Spec> {
        let mut s = Spec { world: World::default(), seed: 0, steps: vec![], sched: Sched::List(vec![]) };
        for line in t.lines() {
            let w: Vec<&str> = line.split(' ').collect();
            match w[0] {
                "world" => {
                    for kv in &w[1..] {
                        let (k, v) = kv.split_once('=')?;
                        let v: u64 = v.parse().ok()?;
                        match k {
                            "mark" => s.world.mark = v,
                            "tenv" => s.world.tenv = v,
                            "tlink" => s.world.tlink = v,
                            "plink" => s.world.plink = v,
                            "outdots" => s.world.outdots = v,
                            "nohdr" => s.world.nohdr = v,
                            "seed" => s.seed = v,
                            _ => return None,
                        }
                    }
                }
                "sched" if w.get(1) == Some(&"random") => s.sched = Sched::Random { seed: w.get(2)?.parse().ok()?, gap: w.get(3)?.parse().ok()? },
                "switch" => {
                    if let Sched::List(l) = &mut s.sched {
                        let at: u64 = w.get(2)?.parse().ok()?;
                        let k = match w[1] {
                            "at" => 0,
                            "first" => 1 << 62,
                            _ => 1 << 63,
                        };
                        l.push((at | k, w.get(3)?.parse().ok()?));
                    }
                }
                _ => {
                    if let Some(st) = Step::parse(line) {
                        s.steps.push(st);
                    }
                }
            }
        }
        Some(s)
    }
    pub fn hash(&self) -> u64 {
        hash(self.body().as_bytes())
    }
}
