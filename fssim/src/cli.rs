//! The command line generator: one simulated process per invocation, judged against a model of its documentation.
use crate::exec::*;
use crate::nodes::*;
use crate::rng::Rng;
use crate::sim::*;
use crate::srcgen;
use crate::vfs::*;
use std::ffi::CString;
use std::rc::Rc;

pub const DIR: &str = "/sim/cli";

fn abs(p: &str) -> String {
    if p.starts_with('/') { p.into() } else { format!("{DIR}/{p}") }
}
/// Puts something at a place the program will be told to write to.
pub fn out_step(c: &mut Ctx, path: &str, kind: u64) {
    let path = abs(path);
    let parent = path.rsplit_once('/').unwrap().0.to_owned();
    c.stats.dirty += 1;
    let v = &mut sim().vfs;
    v.mkdirs(DIR);
    v.put("/sim/cli-user/other.h", b"// another file of the user\n");
    match kind {
        1 => v.put(&path, "an older, longer output\n".repeat(4000).as_bytes()),
        2 => v.put(&path, b"short"),
        3 => {
            v.wipe(&path);
            v.mkdirs(&path);
        }
        4 => {
            v.wipe(&path);
            v.put_link(&path, "/sim/cli-user/other.h");
        }
        5 => {
            v.wipe(&path);
            v.put_link(&path, "/sim/cli-user/not-there.h");
        }
        6 if parent != DIR => v.wipe(&parent),
        7 => {
            v.mkdirs(&parent);
        }
        8 => {
            v.wipe(&path);
            v.put_link(&path, path.rsplit_once('/').unwrap().1);
        }
        9 => v.put(&path, b""),
        _ => {}
    }
}
pub fn src_step(c: &mut Ctx, file: &str, token: &str) {
    c.clisrcs.insert(file.into(), token.into());
    let v = &mut sim().vfs;
    v.put(&format!("{DIR}/{file}"), &srcgen::source(token));
}

#[derive(Default)]
struct Cmd {
    input: Option<String>,
    header: bool,
    outs: Vec<String>,
    opts: String,
    env: srcgen::Env,
    bad: bool,
}
fn parse(args: &[String]) -> Cmd {
    let mut m = Cmd { env: srcgen::Env { strict: true, ..Default::default() }, ..Default::default() };
    let mut i = 0;
    let mut plain = false;
    let mut annotations = 0;
    while i < args.len() {
        let a = args[i].clone();
        i += 1;
        let value = |i: &mut usize, m: &mut Cmd| -> String {
            if let Some((_, v)) = a.split_once('=') {
                if a.starts_with("--") {
                    return v.to_owned();
                }
            }
            *i += 1;
            match args.get(*i - 1) {
                Some(v) if v == "-" || !v.starts_with('-') => v.clone(),
                _ => {
                    m.bad = true;
                    String::new()
                }
            }
        };
        let head = a.split_once('=').map_or(a.as_str(), |x| x.0);
        if plain || a == "-" || !a.starts_with('-') {
            if m.input.is_some() {
                m.bad = true;
            }
            m.input = Some(a);
        } else if a == "--" {
            plain = true;
        } else if a == "--header" {
            if m.header {
                m.bad = true;
            }
            m.header = true;
        } else if head == "-o" || head == "--output" {
            let v = value(&mut i, &mut m);
            m.outs.push(v);
        } else if head == "-i" || head == "--include" {
            let v = value(&mut i, &mut m);
            m.opts.push_str(&format!("include {v}\n"));
        } else if head == "--cxx-impl-annotations" {
            let v = value(&mut i, &mut m);
            annotations += 1;
            m.opts.push_str(&format!("annotations {v}\n"));
        } else if head == "--cfg" {
            let v = value(&mut i, &mut m);
            if !v.starts_with(|c: char| c.is_alphabetic() || c == '_') {
                m.bad = true;
            }
            match v.split_once('=') {
                None => m.env.names.push((v, true)),
                Some((n, "true")) => m.env.names.push((n.to_owned(), true)),
                Some((n, "false")) => m.env.names.push((n.to_owned(), false)),
                Some((n, t)) if t.starts_with('"') && t.ends_with('"') && t.len() > 1 => m.env.values.push((n.to_owned(), t[1..t.len() - 1].to_owned())),
                _ => m.bad = true,
            }
        } else {
            m.bad = true;
        }
    }
    if annotations > 1 || (m.input.is_none() && !m.header) {
        m.bad = true;
    }
    for (n, b) in &m.env.names {
        if m.env.names.iter().any(|x| x.0 == *n && x.1 != *b) {
            m.bad = true;
        }
    }
    if m.outs.is_empty() {
        m.outs.push("-".into());
    }
    m
}
pub fn cli_step(c: &mut Ctx, args: &[String], stdin: &str) {
    if libs().ncli >= libs().cli.len() || args.len() + 2 > crate::SLOTS {
        return;
    }
    let s = sim();
    s.vfs.mkdirs(DIR);
    let m = parse(args);
    // what it must produce
    let mut why = String::new(); // why it must fail
    let mut rf = Rc::new(Ref::default());
    let mut input_path = None;
    let mut given = None;
    if m.bad {
        why = "wrong arguments".into();
    } else if let Some(input) = &m.input {
        let token = if input == "-" {
            Some(stdin.to_owned())
        } else {
            input_path = Some(abs(input));
            let name = crate::exec::rel_path(input);
            match s.vfs.read(&abs(input)) {
                Ok(_) => c.clisrcs.get(&name).or_else(|| c.clisrcs.get(name.strip_prefix("sim/cli/").unwrap_or(""))).cloned(),
                Err(_) => None,
            }
        };
        match token {
            None => why = format!("no input {input}"),
            Some(t) => {
                rf = c.reference(&t, &m.opts, &m.env);
                given = Some(t);
                if !rf.ok {
                    why = format!("{input} is not a bridge it can generate from");
                }
            }
        }
    }
    let mut want_out: Vec<u8> = vec![];
    let mut files: Vec<(String, Rc<Vec<u8>>)> = vec![]; // resolved place and contents
    let mut allowed = vec![];
    let cxxh = c.reference("e", "", &srcgen::Env::default()).cxxh.clone();
    let mut bad_out: Option<String> = None;
    if why.is_empty() {
        for o in &m.outs {
            let data = if m.input.is_none() {
                cxxh.clone()
            } else if m.header || [".h", ".hh", ".hpp"].iter().any(|x| o != "-" && o.ends_with(x)) {
                rf.header.clone()
            } else {
                rf.implementation.clone()
            };
            if o == "-" {
                want_out.extend(data);
                continue;
            }
            match s.vfs.walk(ROOT, &abs(o), true) {
                Ok(f) if f.ino.map_or(true, |i| s.vfs.dir(i).is_err()) && !o.ends_with('/') => {
                    let p = format!("{}/{}", s.vfs.dir_path(f.dir).trim_end_matches('/'), f.name);
                    allowed.push(p.clone());
                    files.retain(|x| x.0 != p);
                    files.push((p, Rc::new(data)));
                }
                _ => {
                    bad_out = Some(o.clone());
                    why = format!("{o} cannot be written");
                    break;
                }
            }
        }
    }
    let mut r = rng_for(c);
    let mut nd = NodeSt::new("cxxbridge".into());
    nd.argc = std::iter::once("cxxbridge".to_owned()).chain(args.iter().cloned()).map(|a| CString::new(a).unwrap()).collect();
    nd.env = vec![("HOME".into(), "/sim/home".into()), ("PATH".into(), "/usr/bin".into())];
    if r.one_in(2) {
        nd.env.push(("RUST_BACKTRACE".into(), "0".into()));
    }
    nd.ready();
    nd.cwd = s.vfs.get(ROOT, DIR, true).unwrap();
    nd.rng = Rng::new(r.next(), 1);
    nd.pid = 1000 + r.below(30000) as i32;
    nd.stdin = srcgen::source(stdin);
    nd.faults = std::mem::take(&mut c.pending).into_iter().map(|f| (f.1, f.2)).collect();
    nd.files = allowed;
    let lib = libs().cli[libs().ncli];
    libs().ncli += 1;
    s.nodes.push(nd);
    let n = s.nodes.len() - 1;
    c.stats.cli += 1;
    s.run(vec![(n, Box::new(move || unsafe { (lib.main)(std::ptr::null(), 0) }))]);
    if s.hang {
        return;
    }
    let nd = &s.nodes[n];
    let err = nd.err();
    let hard: Vec<Delivered> = nd.delivered.iter().filter(|d| !d.kind.transparent()).cloned().collect();
    let what = if nd.delivered.is_empty() { String::new() } else { format!(" (after {})", nd.delivered.iter().map(|d| format!("{} of {} {}", d.kind.name(), OPNAMES[d.op as usize], d.path)).collect::<Vec<_>>().join(", ")) };
    let blind = hard.iter().any(|d| d.op == Op::Stderr);
    let cmd = format!("cxxbridge {}", args.join(" "));
    // nothing is generated from a source that is not accepted, whatever else happens
    if let (Some(t), false) = (&given, rf.ok) {
        let told = if let Some((op, p)) = nd.mutations.first() {
            Err(format!("{} of {p} happened although nothing can be generated", OPNAMES[*op as usize]))
        } else if !nd.stdout.is_empty() {
            Err("standard output is not empty although nothing can be generated".into())
        } else if let (Some(Exit::Code(code)), true) = (&nd.exit, hard.is_empty() && !rf.conditional) {
            c.stats.diags += rf.diags.len().max(1) as u64;
            diagnosed(&err, *code, t, &rf, m.input.as_ref().unwrap())
        } else {
            Ok(())
        };
        if let Err(e) = told {
            let msg = format!("{cmd}, given {t}{what}: {e}");
            sim().viol(Cls::Diag, msg);
        }
    }
    match nd.exit.clone() {
        Some(Exit::Killed) => c.stats.killed += 1,
        Some(Exit::Code(0)) => {
            c.stats.ok += 1;
            if !hard.is_empty() {
                c.stats.fault_survived += 1;
            }
            if !why.is_empty() {
                let msg = format!("{cmd}: succeeded{what} although {why}");
                if m.env.used(&rf) && hard.is_empty() {
                    s.viol(Cls::Eval, msg.clone());
                }
                if given.is_some() && !rf.ok {
                    s.viol(Cls::Diag, msg.clone());
                }
                s.viol(Cls::Cli, msg);
                return;
            }
            let got = nd.stdout.clone();
            if got != want_out {
                let cls = if m.env.used(&rf) && hard.is_empty() { Cls::Eval } else { Cls::Cli };
                let msg = format!("{cmd}: succeeded{what} but standard output {}", describe(&Ok(Rc::new(got)), &want_out));
                s.viol(cls, msg.clone());
                if cls != Cls::Cli {
                    s.viol(Cls::Cli, msg);
                }
                return;
            }
            c.stats.outputs_checked += 1 + files.len() as u64;
            for (p, want) in &files {
                let got = s.vfs.read(p);
                if got.as_ref().ok().map(|g| g.as_slice()) != Some(want.as_slice()) {
                    let cls = if m.env.used(&rf) && hard.is_empty() { Cls::Eval } else { Cls::Cli };
                    let msg = format!("{cmd}: succeeded{what} but {p} {}", describe(&got, want));
                    s.viol(cls, msg.clone());
                    if cls != Cls::Cli {
                        s.viol(Cls::Cli, msg);
                    }
                    return;
                }
            }
        }
        Some(Exit::Code(code)) => {
            c.stats.failed += 1;
            if !blind && err.trim().is_empty() {
                s.viol(Cls::Cli, format!("{cmd}: failed{what} with status {code} but no diagnostic"));
                return;
            }
            if hard.is_empty() {
                if why.is_empty() {
                    s.viol(if m.env.used(&rf) { Cls::Eval } else { Cls::Cli }, format!("{cmd}: failed{what} with status {code} although nothing was wrong: {}", err.trim()));
                    return;
                }
                c.stats.rejected += 1;
                let names_it = match (&bad_out, &input_path) {
                    (Some(o), _) => names(&err, &abs(o), DIR),
                    (None, Some(_)) if why.starts_with("no input") => names(&err, &abs(m.input.as_ref().unwrap()), DIR),
                    _ => true,
                };
                if !names_it {
                    s.viol(Cls::Cli, format!("{cmd}: failed because {why}, without naming the file: {}", err.trim()));
                }
                return;
            }
            c.stats.fault_failures += 1;
            let on: Vec<&Delivered> = hard.iter().filter(|d| d.path.starts_with('/')).collect();
            if !blind && on.len() == hard.len() && why.is_empty() && !on.iter().any(|d| names(&err, &d.path, DIR)) {
                s.viol(Cls::Cli, format!("{cmd}: failed{what} without naming the file: {}", err.trim()));
            }
        }
        Some(Exit::Abort) | None => s.viol(Cls::Crash, format!("{cmd}: aborted{what}: {}", err.trim())),
    }
}
