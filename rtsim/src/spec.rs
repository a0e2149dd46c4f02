//! A run's full description: what one seed expands to, and what a replay file holds.
use crate::sim::*;
use crate::Work;

#[derive(Clone, Debug, PartialEq)]
pub struct OpSpec {
    pub thread: u32,
    pub parent: i32,
    pub f: u32,
    pub outcome: u32,
    pub id: u64,
    pub msg: u64,
    pub a: [i64; 4],
}
#[derive(Clone, Debug, PartialEq)]
pub enum Sched {
    None,
    Random { seed: u64, gap: u64 },
    List(Vec<Switch>),
}
#[derive(Clone)]
pub struct Spec {
    pub work: &'static Work,
    pub nthreads: u32,
    pub ops: Vec<OpSpec>,
    pub sched: Sched,
}
pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64) -> Rng {
        let mut r = Rng(a.wrapping_mul(0x9e3779b97f4a7c15) ^ b.wrapping_mul(0xd1342543de82ef95) ^ 0x1234);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut r = self.below(w.iter().sum());
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= x;
        }
        w.len() - 1
    }
}
impl Spec {
    pub fn to_text(&self) -> String {
        let mut s = format!("workload {}\nthreads {}\n", self.work.name, self.nthreads);
        match &self.sched {
            Sched::None => s.push_str("schedule none\n"),
            Sched::Random { seed, gap } => s.push_str(&format!("schedule random {seed} {gap}\n")),
            Sched::List(l) => {
                s.push_str("schedule explicit\n");
                for w in l {
                    s.push_str(&format!("switch {} {} {}\n", w.tid, w.next, w.count));
                }
            }
        }
        for (i, o) in self.ops.iter().enumerate() {
            s.push_str(&format!(
                "op {i} thread={} parent={} {} outcome={} id={} msg={} a={},{},{},{}\n",
                o.thread,
                o.parent,
                (self.work.name_of)(o.f),
                o.outcome,
                o.id,
                o.msg,
                o.a[0],
                o.a[1],
                o.a[2],
                o.a[3]
            ));
        }
        s
    }
    pub fn parse(text: &str) -> Option<Spec> {
        let mut spec = Spec { work: crate::works()[0], nthreads: 1, ops: vec![], sched: Sched::None };
        for l in text.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w.first().copied() {
                Some("workload") => spec.work = crate::works().iter().copied().find(|x| x.name == w[1])?,
                Some("threads") => spec.nthreads = w[1].parse().ok()?,
                Some("schedule") => {
                    spec.sched = match w[1] {
                        "none" => Sched::None,
                        "random" => Sched::Random { seed: w[2].parse().ok()?, gap: w[3].parse().ok()? },
                        _ => Sched::List(vec![]),
                    }
                }
                Some("switch") => {
                    if let Sched::List(v) = &mut spec.sched {
                        v.push(Switch { tid: w[1].parse().ok()?, next: w[2].parse().ok()?, count: w[3].parse().ok()? });
                    }
                }
                Some("op") => {
                    let val = |s: &str| s.split_once('=').map(|x| x.1.to_owned());
                    let a: Vec<i64> = val(w[8])?.split(',').map(|x| x.parse().unwrap_or(0)).collect();
                    spec.ops.push(OpSpec {
                        thread: val(w[2])?.parse().ok()?,
                        parent: val(w[3])?.parse().ok()?,
                        f: (0..100000).chain([H_CB]).find(|f| (spec.work.name_of)(*f) == w[4])?,
                        outcome: val(w[5])?.parse().ok()?,
                        id: val(w[6])?.parse().ok()?,
                        msg: val(w[7])?.parse().ok()?,
                        a: [a[0], a[1], a[2], a[3]],
                    });
                }
                _ => {}
            }
        }
        Some(spec)
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64 ^ self.nthreads as u64;
        let mut add = |v: u64| {
            h = (h ^ v).wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        };
        for b in self.work.name.bytes() {
            add(b as u64);
        }
        for o in &self.ops {
            add(o.thread as u64);
            add(o.parent as u64);
            add(o.f as u64 | (o.outcome as u64) << 32);
            add(if self.work.data_matters { o.id } else { o.id & 7 });
            for a in o.a {
                add(a as u64);
            }
        }
        h
    }
    /// The specification without operation k and everything nested in it.
    pub fn without(&self, k: usize) -> Spec {
        let n = self.ops.len();
        let mut gone = vec![false; n];
        gone[k] = true;
        for i in k + 1..n {
            let p = self.ops[i].parent;
            if p >= 0 && gone[p as usize] {
                gone[i] = true;
            }
        }
        let mut map = vec![-1i64; n];
        let mut ops = vec![];
        for i in 0..n {
            if !gone[i] {
                map[i] = ops.len() as i64;
                ops.push(self.ops[i].clone());
            }
        }
        for o in &mut ops {
            if o.parent >= 0 {
                o.parent = map[o.parent as usize] as i32;
            }
        }
        let mut s = Spec { ops, ..self.clone() };
        (self.work.fixup)(&mut s);
        s
    }
}
