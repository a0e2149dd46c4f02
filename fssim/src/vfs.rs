//! The simulated file system: inodes, links, permissions are not modelled, times are.
use std::collections::BTreeMap;
use std::rc::Rc;

pub use libc::{EACCES, EBADF, EEXIST, EINTR, EINVAL, EIO, EISDIR, ELOOP, EMFILE, ENOENT, ENOSPC, ENOSYS, ENOTDIR, ENOTEMPTY, EPIPE, EROFS, EXDEV};

pub type Ino = usize;
pub type R<T> = Result<T, i32>;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    File(Rc<Vec<u8>>),
    Dir(BTreeMap<String, Ino>),
    Link(String),
}
#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    pub parent: Ino, // for directories
    pub mtime: u64,
    pub dirty: bool,     // written since it was last durable
    pub protected: bool, // belongs to the user: not an output location
    pub mode: u32,
}
/// What the last path component resolved to.
pub struct Found {
    pub dir: Ino,
    pub name: String,
    pub ino: Option<Ino>,
}
#[derive(Clone)]
pub struct Vfs {
    pub inodes: Vec<Inode>,
    pub now: u64,
    /// Directory entry changes since the last sync: (directory, name, what was there before).
    pub undo: Vec<(Ino, String, Option<Ino>)>,
}
pub const ROOT: Ino = 0;

impl Vfs {
    pub fn new() -> Vfs {
        let mut v = Vfs { inodes: vec![], now: 1_000_000_000_000_000_000, undo: vec![] };
        v.alloc(Node::Dir(BTreeMap::new()), ROOT);
        v
    }
    pub fn alloc(&mut self, node: Node, parent: Ino) -> Ino {
        self.inodes.push(Inode { node, parent, mtime: self.now, dirty: true, protected: false, mode: 0o644 });
        self.inodes.len() - 1
    }
    pub fn dir(&self, i: Ino) -> R<&BTreeMap<String, Ino>> {
        match &self.inodes[i].node {
            Node::Dir(d) => Ok(d),
            _ => Err(ENOTDIR),
        }
    }
    pub fn set_entry(&mut self, dir: Ino, name: &str, ino: Option<Ino>) {
        let now = self.now;
        let d = &mut self.inodes[dir];
        d.mtime = now;
        if let Node::Dir(m) = &mut d.node {
            let old = match ino {
                Some(i) => m.insert(name.into(), i),
                None => m.remove(name),
            };
            self.undo.push((dir, name.into(), old));
        }
    }
    /// Walks a path. `follow`: whether a link in the last component is followed.
    pub fn walk(&self, cwd: Ino, path: &str, follow: bool) -> R<Found> {
        let mut left = 40;
        self.walk_in(cwd, path, follow, &mut left)
    }
    fn walk_in(&self, cwd: Ino, path: &str, follow: bool, left: &mut u32) -> R<Found> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        let mut cur = if path.starts_with('/') { ROOT } else { cwd };
        let comps: Vec<&str> = path.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        let trailing = path.ends_with('/') || path.ends_with("/.");
        if comps.is_empty() {
            self.dir(cur)?;
            return Ok(Found { dir: cur, name: ".".into(), ino: Some(cur) });
        }
        for (k, c) in comps.iter().enumerate() {
            let last = k + 1 == comps.len();
            let d = self.dir(cur)?;
            if *c == ".." {
                cur = self.inodes[cur].parent;
                if last {
                    return Ok(Found { dir: cur, name: ".".into(), ino: Some(cur) });
                }
                continue;
            }
            if c.len() > 255 {
                return Err(36);
            }
            let e = d.get(*c).copied();
            if last {
                match e {
                    Some(i) if follow || trailing => {
                        if let Node::Link(t) = &self.inodes[i].node {
                            if *left == 0 {
                                return Err(ELOOP);
                            }
                            *left -= 1;
                            return self.walk_in(cur, t, true, left);
                        }
                        if trailing {
                            self.dir(i)?;
                        }
                    }
                    _ => {}
                }
                return Ok(Found { dir: cur, name: c.to_string(), ino: e });
            }
            let mut i = e.ok_or(ENOENT)?;
            if let Node::Link(t) = &self.inodes[i].node {
                if *left == 0 {
                    return Err(ELOOP);
                }
                *left -= 1;
                i = self.walk_in(cur, t, true, left)?.ino.ok_or(ENOENT)?;
            }
            self.dir(i)?;
            cur = i;
        }
        unreachable!()
    }
    pub fn get(&self, cwd: Ino, path: &str, follow: bool) -> R<Ino> {
        self.walk(cwd, path, follow)?.ino.ok_or(ENOENT)
    }
    /// The absolute path of a directory.
    pub fn dir_path(&self, mut i: Ino) -> String {
        let mut parts = vec![];
        while i != ROOT {
            let p = self.inodes[i].parent;
            let name = match &self.inodes[p].node {
                Node::Dir(m) => m.iter().find(|e| *e.1 == i).map(|e| e.0.clone()),
                _ => None,
            };
            parts.push(name.unwrap_or("(deleted)".into()));
            i = p;
        }
        parts.reverse();
        format!("/{}", parts.join("/"))
    }
    pub fn realpath(&self, cwd: Ino, path: &str) -> R<String> {
        let f = self.walk(cwd, path, true)?;
        let i = f.ino.ok_or(ENOENT)?;
        Ok(match &self.inodes[i].node {
            Node::Dir(_) => self.dir_path(i),
            _ => format!("{}/{}", self.dir_path(f.dir).trim_end_matches('/'), f.name),
        })
    }
    pub fn mkdir(&mut self, cwd: Ino, path: &str) -> R<Ino> {
        let f = self.walk(cwd, path.trim_end_matches('/'), false)?;
        if f.ino.is_some() {
            return Err(EEXIST);
        }
        let i = self.alloc(Node::Dir(BTreeMap::new()), f.dir);
        self.set_entry(f.dir, &f.name, Some(i));
        Ok(i)
    }
    pub fn symlink(&mut self, cwd: Ino, target: &str, path: &str) -> R<()> {
        if target.is_empty() {
            return Err(ENOENT);
        }
        let f = self.walk(cwd, path, false)?;
        if f.ino.is_some() {
            return Err(EEXIST);
        }
        let i = self.alloc(Node::Link(target.into()), f.dir);
        self.set_entry(f.dir, &f.name, Some(i));
        Ok(())
    }
    pub fn unlink(&mut self, cwd: Ino, path: &str) -> R<()> {
        let f = self.walk(cwd, path, false)?;
        let i = f.ino.ok_or(ENOENT)?;
        if matches!(self.inodes[i].node, Node::Dir(_)) {
            return Err(EISDIR);
        }
        self.set_entry(f.dir, &f.name, None);
        Ok(())
    }
    pub fn rmdir(&mut self, cwd: Ino, path: &str) -> R<()> {
        let f = self.walk(cwd, path, false)?;
        let i = f.ino.ok_or(ENOENT)?;
        if f.name == "." {
            return Err(EINVAL);
        }
        if !self.dir(i)?.is_empty() {
            return Err(ENOTEMPTY);
        }
        self.set_entry(f.dir, &f.name, None);
        Ok(())
    }
    pub fn rename(&mut self, cwd: Ino, from: &str, cwd2: Ino, to: &str) -> R<()> {
        let f = self.walk(cwd, from, false)?;
        let i = f.ino.ok_or(ENOENT)?;
        let t = self.walk(cwd2, to, false)?;
        let isdir = matches!(self.inodes[i].node, Node::Dir(_));
        if let Some(j) = t.ino {
            if i == j {
                return Ok(());
            }
            match &self.inodes[j].node {
                Node::Dir(m) if isdir => {
                    if !m.is_empty() {
                        return Err(ENOTEMPTY);
                    }
                }
                Node::Dir(_) => return Err(EISDIR),
                _ if isdir => return Err(ENOTDIR),
                _ => {}
            }
        }
        if isdir {
            let mut d = t.dir;
            while d != ROOT {
                if d == i {
                    return Err(EINVAL);
                }
                d = self.inodes[d].parent;
            }
            self.inodes[i].parent = t.dir;
        }
        self.set_entry(f.dir, &f.name, None);
        self.set_entry(t.dir, &t.name, Some(i));
        Ok(())
    }
    pub fn truncate(&mut self, i: Ino, n: usize) {
        let now = self.now;
        let x = &mut self.inodes[i];
        if let Node::File(d) = &mut x.node {
            if n == 0 {
                *d = Rc::new(vec![]);
            } else {
                Rc::make_mut(d).resize(n, 0);
            }
            x.mtime = now;
            x.dirty = true;
        }
    }
    pub fn write_at(&mut self, i: Ino, pos: usize, data: &[u8]) {
        let now = self.now;
        let x = &mut self.inodes[i];
        if let Node::File(d) = &mut x.node {
            let d = Rc::make_mut(d);
            if d.len() < pos + data.len() {
                d.resize(pos + data.len(), 0);
            }
            d[pos..pos + data.len()].copy_from_slice(data);
            x.mtime = now;
            x.dirty = true;
        }
    }
    // ---- used by the harness only
    pub fn mkdirs(&mut self, path: &str) -> Ino {
        let mut cur = ROOT;
        for c in path.split('/').filter(|c| !c.is_empty()) {
            cur = match self.walk(cur, c, true) {
                Ok(Found { ino: Some(i), .. }) => i,
                _ => {
                    let i = self.alloc(Node::Dir(BTreeMap::new()), cur);
                    self.set_entry(cur, c, Some(i));
                    i
                }
            };
        }
        cur
    }
    pub fn put(&mut self, path: &str, data: &[u8]) {
        let (d, name) = path.rsplit_once('/').unwrap();
        let dir = self.mkdirs(d);
        match self.dir(dir).unwrap().get(name).copied() {
            Some(i) if matches!(self.inodes[i].node, Node::File(_)) => {
                self.truncate(i, 0);
                self.write_at(i, 0, data);
            }
            _ => {
                let i = self.alloc(Node::File(Rc::new(data.to_vec())), dir);
                self.set_entry(dir, name, Some(i));
            }
        }
    }
    pub fn put_link(&mut self, path: &str, target: &str) {
        let (d, name) = path.rsplit_once('/').unwrap();
        let dir = self.mkdirs(d);
        let i = self.alloc(Node::Link(target.into()), dir);
        self.set_entry(dir, name, Some(i));
    }
    /// Removes whatever is at a path (not following a link there).
    pub fn wipe(&mut self, path: &str) {
        if let Ok(Found { dir, name, ino: Some(_) }) = self.walk(ROOT, path, false) {
            if name != "." {
                self.set_entry(dir, &name, None);
            }
        }
    }
    pub fn read(&self, path: &str) -> R<Rc<Vec<u8>>> {
        match &self.inodes[self.get(ROOT, path, true)?].node {
            Node::File(d) => Ok(d.clone()),
            _ => Err(EISDIR),
        }
    }
    pub fn sync(&mut self) {
        self.undo.clear();
        for i in &mut self.inodes {
            i.dirty = false;
        }
    }
    /// Every entry below a directory, links not followed: path and inode.
    pub fn tree(&self, at: Ino, prefix: &str, out: &mut Vec<(String, Ino)>) {
        if let Node::Dir(m) = &self.inodes[at].node {
            for (n, i) in m {
                let p = format!("{prefix}/{n}");
                out.push((p.clone(), *i));
                self.tree(*i, &p, out);
            }
        }
    }
    /// Whether a directory lies below (or is) another.
    pub fn below(&self, mut d: Ino, top: Ino) -> bool {
        loop {
            if d == top {
                return true;
            }
            if d == ROOT {
                return false;
            }
            d = self.inodes[d].parent;
        }
    }
}
