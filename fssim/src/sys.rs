//! The system calls of simulated processes. On threads that belong to no node they are the real ones.
use crate::sim::*;
use crate::vfs::*;
use libc::*;
use std::ffi::{CStr, CString};
use std::sync::atomic::{AtomicPtr, Ordering::Relaxed};

unsafe fn next(slot: &AtomicPtr<c_void>, name: &CStr) -> *mut c_void {
    let mut p = slot.load(Relaxed);
    if p.is_null() {
        p = dlsym(RTLD_NEXT, name.as_ptr());
        slot.store(p, Relaxed);
    }
    p
}
macro_rules! hook {
    ($($name:ident($($a:ident: $t:ty),*) -> $r:ty { $($body:tt)* })*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            if TID.get() < 0 {
                static REAL: AtomicPtr<c_void> = AtomicPtr::new(std::ptr::null_mut());
                let p = next(&REAL, CStr::from_bytes_with_nul_unchecked(concat!(stringify!($name), "\0").as_bytes()));
                let f: unsafe extern "C" fn($($t),*) -> $r = std::mem::transmute(p);
                return f($($a),*);
            }
            $($body)*
        }
    )*};
}
unsafe fn err(e: i32) {
    *__errno_location() = e;
}
unsafe fn ret<T: Into<i64>>(r: R<T>) -> i64 {
    match r {
        Ok(v) => v.into(),
        Err(e) => {
            err(e);
            -1
        }
    }
}
unsafe fn text(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}
fn cwd() -> Ino {
    let s = sim();
    let n = s.node();
    s.nodes[n].cwd
}
fn at(fd: i32) -> R<Ino> {
    if fd == AT_FDCWD {
        return Ok(cwd());
    }
    let s = sim();
    let n = s.node();
    Ok(s.nodes[n].fds.get(&fd).ok_or(EBADF)?.ino)
}
/// The path as the fault oracle sees it: absolute.
fn shown(base: Ino, p: &str) -> String {
    if p.starts_with('/') {
        p.into()
    } else {
        format!("{}/{}", sim().vfs.dir_path(base).trim_end_matches('/'), p)
    }
}
/// Runs one call: scheduling point, fault, effect, then a crash planned for after the effect.
fn call<T>(op: Op, base: R<Ino>, path: &str, f: impl FnOnce(&mut Sim, Ino) -> R<T>) -> R<T> {
    let base = base?;
    let fault = sim().enter(op, &shown(base, path));
    if let Some(Fk::Err(e)) = fault {
        return Err(e);
    }
    let r = f(sim(), base);
    sim().leave(fault);
    r
}

fn do_open(base: R<Ino>, path: &str, flags: i32) -> R<i32> {
    let creating = flags & (O_CREAT | O_TRUNC) != 0;
    call(if creating { Op::Create } else { Op::Open }, base, path, |s, base| {
        let f = s.vfs.walk(base, path, flags & O_NOFOLLOW == 0 && flags & (O_CREAT | O_EXCL) != O_CREAT | O_EXCL)?;
        let wr = flags & O_ACCMODE != O_RDONLY;
        let ino = match f.ino {
            Some(i) => {
                if flags & (O_CREAT | O_EXCL) == O_CREAT | O_EXCL {
                    return Err(EEXIST);
                }
                match &s.vfs.inodes[i].node {
                    Node::Link(_) => return Err(ELOOP),
                    Node::Dir(_) if wr || flags & O_CREAT != 0 => return Err(EISDIR),
                    Node::Dir(_) => {}
                    Node::File(_) if flags & O_DIRECTORY != 0 => return Err(ENOTDIR),
                    Node::File(d) => {
                        if flags & O_TRUNC != 0 && wr && !d.is_empty() {
                            s.mutate(Op::Write, f.dir, &f.name);
                            s.vfs.truncate(i, 0);
                            s.changed();
                        }
                    }
                }
                i
            }
            None => {
                if flags & O_CREAT == 0 {
                    return Err(ENOENT);
                }
                s.mutate(Op::Create, f.dir, &f.name);
                let i = s.vfs.alloc(Node::File(Default::default()), f.dir);
                s.vfs.set_entry(f.dir, &f.name, Some(i));
                s.changed();
                i
            }
        };
        let full = if f.name == "." { s.vfs.dir_path(f.dir) } else { format!("{}/{}", s.vfs.dir_path(f.dir).trim_end_matches('/'), f.name) };
        let n = s.node();
        let nd = &mut s.nodes[n];
        let fd = nd.nextfd;
        nd.nextfd += 1;
        nd.fds.insert(fd, Fd { ino, pos: 0, append: flags & O_APPEND != 0, path: full });
        Ok(fd)
    })
}
fn getfd(fd: i32) -> R<Fd> {
    let s = sim();
    let n = s.node();
    s.nodes[n].fds.get(&fd).cloned().ok_or(EBADF)
}
unsafe fn do_read(fd: i32, buf: *mut u8, n: usize, pos: Option<usize>) -> R<i64> {
    if fd == 0 {
        let k = sim().enter(Op::Stdin, "(stdin)");
        if let Some(Fk::Err(e)) = k {
            return Err(e);
        }
        let s = sim();
        let me = s.node();
        let nd = &mut s.nodes[me];
        let mut len = n.min(nd.stdin.len() - nd.stdin_pos);
        if k == Some(Fk::Short) && len > 1 {
            len = len.div_ceil(2);
        }
        std::ptr::copy_nonoverlapping(nd.stdin[nd.stdin_pos..].as_ptr(), buf, len);
        nd.stdin_pos += len;
        s.leave(k);
        return Ok(len as i64);
    }
    let f = getfd(fd)?;
    let k = sim().enter(Op::Read, &f.path);
    if let Some(Fk::Err(e)) = k {
        return Err(e);
    }
    let s = sim();
    let d = match &s.vfs.inodes[f.ino].node {
        Node::File(d) => d.clone(),
        _ => return Err(EISDIR),
    };
    let p = pos.unwrap_or(f.pos).min(d.len());
    let mut len = n.min(d.len() - p);
    if k == Some(Fk::Short) && len > 1 {
        len = len.div_ceil(2);
    }
    std::ptr::copy_nonoverlapping(d[p..].as_ptr(), buf, len);
    if pos.is_none() {
        let me = s.node();
        s.nodes[me].fds.get_mut(&fd).unwrap().pos += len;
    }
    s.leave(k);
    Ok(len as i64)
}
unsafe fn do_write(fd: i32, buf: *const u8, n: usize) -> R<i64> {
    let data = std::slice::from_raw_parts(buf, n);
    if fd == 1 || fd == 2 {
        let k = sim().enter(if fd == 1 { Op::Stdout } else { Op::Stderr }, if fd == 1 { "(stdout)" } else { "(stderr)" });
        if let Some(Fk::Err(e)) = k {
            return Err(e);
        }
        let len = if k == Some(Fk::Short) && n > 1 { n / 2 } else { n };
        let s = sim();
        let me = s.node();
        let nd = &mut s.nodes[me];
        if fd == 1 { &mut nd.stdout } else { &mut nd.stderr }.extend_from_slice(&data[..len]);
        s.leave(k);
        return Ok(len as i64);
    }
    let f = getfd(fd)?;
    let k = sim().enter(Op::Write, &f.path);
    if let Some(Fk::Err(e)) = k {
        return Err(e);
    }
    let len = if matches!(k, Some(Fk::Short) | Some(Fk::CrashMid)) && n > 1 { n / 2 } else { n };
    let s = sim();
    let cur = match &s.vfs.inodes[f.ino].node {
        Node::File(d) => d.len(),
        _ => return Err(EISDIR),
    };
    let pos = if f.append { cur } else { f.pos };
    let (d, name) = f.path.rsplit_once('/').unwrap();
    if let Ok(dir) = s.vfs.get(ROOT, if d.is_empty() { "/" } else { d }, true) {
        // only if the name still leads to this file
        if s.vfs.dir(dir).ok().and_then(|m| m.get(name).copied()) == Some(f.ino) {
            s.mutate(Op::Write, dir, name);
        }
    }
    s.vfs.write_at(f.ino, pos, &data[..len]);
    let me = s.node();
    s.nodes[me].fds.get_mut(&fd).unwrap().pos = pos + len;
    s.changed();
    s.leave(k);
    Ok(len as i64)
}
unsafe fn fill(i: Ino, st: *mut stat64) {
    let x = &sim().vfs.inodes[i];
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<stat64>());
    let st = &mut *st;
    st.st_ino = i as u64 + 2;
    st.st_nlink = 1;
    st.st_dev = 77;
    st.st_blksize = 4096;
    let (kind, len) = match &x.node {
        Node::File(d) => (S_IFREG | x.mode & 0o7777, d.len()),
        Node::Dir(_) => (S_IFDIR | 0o755, 4096),
        Node::Link(t) => (S_IFLNK | 0o777, t.len()),
    };
    st.st_mode = kind;
    st.st_size = len as i64;
    st.st_blocks = (len as i64 + 511) / 512;
    st.st_mtime = (x.mtime / 1_000_000_000) as i64;
    st.st_mtime_nsec = (x.mtime % 1_000_000_000) as i64;
    st.st_ctime = st.st_mtime;
    st.st_atime = st.st_mtime;
}
unsafe fn fill_std(fd: i32, st: *mut stat64) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<stat64>());
    (*st).st_mode = S_IFIFO | 0o600;
    (*st).st_ino = fd as u64 + 1;
}
unsafe fn do_stat(base: R<Ino>, path: &str, follow: bool, st: *mut stat64) -> R<i32> {
    let i = call(Op::Stat, base, path, |s, b| s.vfs.get(b, path, follow))?;
    fill(i, st);
    Ok(0)
}
unsafe fn do_fstat(fd: i32, st: *mut stat64) -> R<i32> {
    if fd <= 2 {
        fill_std(fd, st);
        return Ok(0);
    }
    let f = getfd(fd)?;
    if let Some(Fk::Err(e)) = sim().enter(Op::Stat, &f.path) {
        return Err(e);
    }
    fill(f.ino, st);
    Ok(0)
}
fn do_mkdir(base: R<Ino>, p: &str) -> R<i32> {
    call(Op::Mkdir, base, p, |s, b| {
        let f = s.vfs.walk(b, p.trim_end_matches('/'), false)?;
        if f.ino.is_some() {
            return Err(EEXIST);
        }
        s.mutate(Op::Mkdir, f.dir, &f.name);
        s.vfs.mkdir(b, p)?;
        s.changed();
        Ok(0)
    })
}
fn do_symlink(target: &str, base: R<Ino>, p: &str) -> R<i32> {
    call(Op::Symlink, base, p, |s, b| {
        let f = s.vfs.walk(b, p, false)?;
        if f.ino.is_none() {
            s.mutate(Op::Symlink, f.dir, &f.name);
        }
        s.vfs.symlink(b, target, p)?;
        s.changed();
        Ok(0)
    })
}
fn do_unlink(base: R<Ino>, p: &str) -> R<i32> {
    call(Op::Unlink, base, p, |s, b| {
        let f = s.vfs.walk(b, p, false)?;
        let i = f.ino.ok_or(ENOENT)?;
        if !matches!(s.vfs.inodes[i].node, Node::Dir(_)) {
            s.mutate(Op::Unlink, f.dir, &f.name);
        }
        s.vfs.unlink(b, p)?;
        s.changed();
        Ok(0)
    })
}
fn do_rmdir(base: R<Ino>, p: &str) -> R<i32> {
    call(Op::Rmdir, base, p, |s, b| {
        let f = s.vfs.walk(b, p, false)?;
        if let Some(i) = f.ino {
            if s.vfs.dir(i).is_ok_and(|d| d.is_empty()) {
                s.mutate(Op::Rmdir, f.dir, &f.name);
            }
        }
        s.vfs.rmdir(b, p)?;
        s.changed();
        Ok(0)
    })
}
fn do_rename(b1: R<Ino>, p: &str, b2: R<Ino>, q: &str) -> R<i32> {
    let b2 = b2?;
    call(Op::Rename, b1, p, |s, b| {
        let f = s.vfs.walk(b, p, false)?;
        f.ino.ok_or(ENOENT)?;
        let t = s.vfs.walk(b2, q, false)?;
        s.mutate(Op::Rename, f.dir, &f.name);
        s.mutate(Op::Rename, t.dir, &t.name);
        s.vfs.rename(b, p, b2, q)?;
        s.changed();
        Ok(0)
    })
}
fn do_link(b1: R<Ino>, p: &str, b2: R<Ino>, q: &str) -> R<i32> {
    let b2 = b2?;
    call(Op::Create, b1, p, |s, b| {
        let i = s.vfs.get(b, p, false)?;
        if s.vfs.dir(i).is_ok() {
            return Err(1);
        }
        let t = s.vfs.walk(b2, q, false)?;
        if t.ino.is_some() {
            return Err(EEXIST);
        }
        s.mutate(Op::Create, t.dir, &t.name);
        s.vfs.set_entry(t.dir, &t.name, Some(i));
        s.changed();
        Ok(0)
    })
}
unsafe fn do_readlink(base: R<Ino>, p: &str, buf: *mut c_char, n: usize) -> R<i64> {
    let t = call(Op::Readlink, base, p, |s, b| {
        let i = s.vfs.get(b, p, false)?;
        match &s.vfs.inodes[i].node {
            Node::Link(t) => Ok(t.clone()),
            _ => Err(EINVAL),
        }
    })?;
    let k = t.len().min(n);
    std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
    Ok(k as i64)
}
struct Dirp {
    fd: i32,
    list: Vec<(String, Ino)>,
    pos: usize,
    ent: dirent64,
}
unsafe fn new_dir(fd: i32) -> R<*mut DIR> {
    let s = sim();
    let ino = getfd(fd)?.ino;
    let mut list: Vec<(String, Ino)> = s.vfs.dir(ino)?.iter().map(|(a, b)| (a.clone(), *b)).collect();
    let n = s.node();
    s.nodes[n].rng.shuffle(&mut list); // listing order is nobody's guarantee
    let d = Box::new(Dirp { fd, list, pos: 0, ent: std::mem::zeroed() });
    Ok(Box::into_raw(d) as *mut DIR)
}
fn touch(i: R<Ino>, p: &str) -> R<i32> {
    call(Op::Other, i, p, |s, b| {
        let f = s.vfs.walk(b, p, true)?;
        f.ino.ok_or(ENOENT)?;
        s.mutate(Op::Write, f.dir, &f.name);
        Ok(0)
    })
}
fn fd_touch(fd: i32) -> R<i32> {
    let f = getfd(fd)?;
    let _ = f;
    Ok(0)
}

hook! {
    open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int { let _ = mode; ret(do_open(Ok(cwd()), &text(p), flags)) as c_int }
    open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int { let _ = mode; ret(do_open(Ok(cwd()), &text(p), flags)) as c_int }
    openat(fd: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int { let _ = mode; ret(do_open(at(fd), &text(p), flags)) as c_int }
    openat64(fd: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int { let _ = mode; ret(do_open(at(fd), &text(p), flags)) as c_int }
    creat64(p: *const c_char, mode: c_uint) -> c_int { let _ = mode; ret(do_open(Ok(cwd()), &text(p), O_CREAT | O_WRONLY | O_TRUNC)) as c_int }
    close(fd: c_int) -> c_int {
        let s = sim();
        let n = s.node();
        if fd > 2 && s.nodes[n].fds.remove(&fd).is_none() { err(EBADF); return -1; }
        0
    }
    read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t { ret(do_read(fd, b as *mut u8, n, None)) as ssize_t }
    pread64(fd: c_int, b: *mut c_void, n: size_t, o: off_t) -> ssize_t { ret(do_read(fd, b as *mut u8, n, Some(o as usize))) as ssize_t }
    readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
        let mut tot = 0;
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.iov_len == 0 { continue; }
            let r = ret(do_read(fd, x.iov_base as *mut u8, x.iov_len, None));
            if r < 0 { return if tot > 0 { tot } else { -1 }; }
            tot += r as ssize_t;
            if (r as usize) < x.iov_len { break; }
        }
        tot
    }
    write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t { ret(do_write(fd, b as *const u8, n)) as ssize_t }
    writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
        let mut tot = 0;
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.iov_len == 0 { continue; }
            let r = ret(do_write(fd, x.iov_base as *const u8, x.iov_len));
            if r < 0 { return if tot > 0 { tot } else { -1 }; }
            tot += r as ssize_t;
            if (r as usize) < x.iov_len { break; }
        }
        tot
    }
    lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
        let Ok(f) = getfd(fd) else { err(if fd <= 2 { ESPIPE } else { EBADF }); return -1 };
        let s = sim();
        let len = match &s.vfs.inodes[f.ino].node { Node::File(d) => d.len() as i64, _ => 0 };
        let p = match wh { SEEK_SET => off, SEEK_CUR => f.pos as i64 + off, _ => len + off };
        if p < 0 { err(EINVAL); return -1; }
        let n = s.node();
        s.nodes[n].fds.get_mut(&fd).unwrap().pos = p as usize;
        p
    }
    stat(p: *const c_char, st: *mut stat64) -> c_int { ret(do_stat(Ok(cwd()), &text(p), true, st)) as c_int }
    stat64(p: *const c_char, st: *mut stat64) -> c_int { ret(do_stat(Ok(cwd()), &text(p), true, st)) as c_int }
    lstat(p: *const c_char, st: *mut stat64) -> c_int { ret(do_stat(Ok(cwd()), &text(p), false, st)) as c_int }
    lstat64(p: *const c_char, st: *mut stat64) -> c_int { ret(do_stat(Ok(cwd()), &text(p), false, st)) as c_int }
    fstat(fd: c_int, st: *mut stat64) -> c_int { ret(do_fstat(fd, st)) as c_int }
    fstat64(fd: c_int, st: *mut stat64) -> c_int { ret(do_fstat(fd, st)) as c_int }
    fstatat64(fd: c_int, p: *const c_char, st: *mut stat64, fl: c_int) -> c_int {
        let p = text(p);
        ret(if p.is_empty() && fl & AT_EMPTY_PATH != 0 { do_fstat(fd, st) } else { do_stat(at(fd), &p, fl & AT_SYMLINK_NOFOLLOW == 0, st) }) as c_int
    }
    statx(fd: c_int, p: *const c_char, fl: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
        let _ = mask;
        if out.is_null() || p.is_null() { err(EFAULT); return -1; }
        let p = text(p);
        let mut st: stat64 = std::mem::zeroed();
        let r = if p.is_empty() && fl & AT_EMPTY_PATH != 0 { do_fstat(fd, &mut st) } else { do_stat(at(fd), &p, fl & AT_SYMLINK_NOFOLLOW == 0, &mut st) };
        if let Err(e) = r { err(e); return -1; }
        std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::statx>());
        let o = &mut *out;
        o.stx_mask = STATX_BASIC_STATS;
        o.stx_blksize = 4096;
        o.stx_nlink = 1;
        o.stx_mode = st.st_mode as u16;
        o.stx_ino = st.st_ino;
        o.stx_size = st.st_size as u64;
        o.stx_blocks = st.st_blocks as u64;
        o.stx_mtime.tv_sec = st.st_mtime;
        o.stx_mtime.tv_nsec = st.st_mtime_nsec as u32;
        o.stx_ctime = o.stx_mtime;
        o.stx_atime = o.stx_mtime;
        o.stx_dev_minor = 77;
        0
    }
    access(p: *const c_char, m: c_int) -> c_int { let _ = m; let mut st = std::mem::zeroed(); ret(do_stat(Ok(cwd()), &text(p), true, &mut st)) as c_int }
    faccessat(fd: c_int, p: *const c_char, m: c_int, f: c_int) -> c_int { let _ = (m, f); let mut st = std::mem::zeroed(); ret(do_stat(at(fd), &text(p), true, &mut st)) as c_int }
    mkdir(p: *const c_char, m: mode_t) -> c_int { let _ = m; ret(do_mkdir(Ok(cwd()), &text(p))) as c_int }
    mkdirat(fd: c_int, p: *const c_char, m: mode_t) -> c_int { let _ = m; ret(do_mkdir(at(fd), &text(p))) as c_int }
    symlink(t: *const c_char, p: *const c_char) -> c_int { ret(do_symlink(&text(t), Ok(cwd()), &text(p))) as c_int }
    symlinkat(t: *const c_char, fd: c_int, p: *const c_char) -> c_int { ret(do_symlink(&text(t), at(fd), &text(p))) as c_int }
    unlink(p: *const c_char) -> c_int { ret(do_unlink(Ok(cwd()), &text(p))) as c_int }
    rmdir(p: *const c_char) -> c_int { ret(do_rmdir(Ok(cwd()), &text(p))) as c_int }
    unlinkat(fd: c_int, p: *const c_char, fl: c_int) -> c_int { ret(if fl & AT_REMOVEDIR != 0 { do_rmdir(at(fd), &text(p)) } else { do_unlink(at(fd), &text(p)) }) as c_int }
    rename(p: *const c_char, q: *const c_char) -> c_int { ret(do_rename(Ok(cwd()), &text(p), Ok(cwd()), &text(q))) as c_int }
    renameat(a: c_int, p: *const c_char, b: c_int, q: *const c_char) -> c_int { ret(do_rename(at(a), &text(p), at(b), &text(q))) as c_int }
    renameat2(a: c_int, p: *const c_char, b: c_int, q: *const c_char, fl: c_uint) -> c_int { if fl != 0 { err(EINVAL); return -1; } ret(do_rename(at(a), &text(p), at(b), &text(q))) as c_int }
    link(p: *const c_char, q: *const c_char) -> c_int { ret(do_link(Ok(cwd()), &text(p), Ok(cwd()), &text(q))) as c_int }
    linkat(a: c_int, p: *const c_char, b: c_int, q: *const c_char, fl: c_int) -> c_int { let _ = fl; ret(do_link(at(a), &text(p), at(b), &text(q))) as c_int }
    readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t { ret(do_readlink(Ok(cwd()), &text(p), b, n)) as ssize_t }
    readlinkat(fd: c_int, p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t { ret(do_readlink(at(fd), &text(p), b, n)) as ssize_t }
    realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
        let t = text(p);
        match call(Op::Realpath, Ok(cwd()), &t, |s, b| s.vfs.realpath(b, &t)) {
            Ok(r) => {
                let c = CString::new(r).unwrap();
                if out.is_null() { strdup(c.as_ptr()) } else { strcpy(out, c.as_ptr()) }
            }
            Err(e) => { err(e); std::ptr::null_mut() }
        }
    }
    opendir(p: *const c_char) -> *mut DIR {
        let t = text(p);
        let r = do_open(Ok(cwd()), &t, O_RDONLY | O_DIRECTORY).and_then(|fd| new_dir(fd));
        match r { Ok(d) => d, Err(e) => { err(e); std::ptr::null_mut() } }
    }
    fdopendir(fd: c_int) -> *mut DIR { match new_dir(fd) { Ok(d) => d, Err(e) => { err(e); std::ptr::null_mut() } } }
    readdir64(d: *mut DIR) -> *mut dirent64 {
        let d = &mut *(d as *mut Dirp);
        let path = getfd(d.fd).map(|f| f.path).unwrap_or_default();
        if let Some(Fk::Err(e)) = sim().enter(Op::Readdir, &path) { err(e); return std::ptr::null_mut(); }
        let Some((name, ino)) = d.list.get(d.pos).cloned() else { return std::ptr::null_mut() };
        d.pos += 1;
        d.ent.d_ino = ino as u64 + 2;
        d.ent.d_off = d.pos as i64;
        d.ent.d_reclen = std::mem::size_of::<dirent64>() as u16;
        d.ent.d_type = match &sim().vfs.inodes[ino].node { Node::File(_) => DT_REG, Node::Dir(_) => DT_DIR, Node::Link(_) => DT_LNK };
        for (i, c) in name.bytes().chain([0]).enumerate() { d.ent.d_name[i] = c as c_char; }
        &mut d.ent
    }
    readdir(d: *mut DIR) -> *mut dirent64 { readdir64(d) }
    dirfd(d: *mut DIR) -> c_int { (*(d as *mut Dirp)).fd }
    closedir(d: *mut DIR) -> c_int { let d = Box::from_raw(d as *mut Dirp); close(d.fd); 0 }
    getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
        let c = CString::new(sim().vfs.dir_path(cwd())).unwrap();
        if b.is_null() { return strdup(c.as_ptr()); }
        if c.as_bytes_with_nul().len() > n { err(ERANGE); return std::ptr::null_mut(); }
        strcpy(b, c.as_ptr())
    }
    chdir(p: *const c_char) -> c_int {
        match sim().vfs.get(cwd(), &text(p), true) { Ok(i) => { let s = sim(); let n = s.node(); s.nodes[n].cwd = i; 0 } Err(e) => { err(e); -1 } }
    }
    fsync(fd: c_int) -> c_int {
        let Ok(f) = getfd(fd) else { return 0 };
        if let Some(Fk::Err(e)) = sim().enter(Op::Sync, &f.path) { err(e); return -1; }
        sim().vfs.inodes[f.ino].dirty = false;
        0
    }
    fdatasync(fd: c_int) -> c_int { fsync(fd) }
    ftruncate64(fd: c_int, n: i64) -> c_int {
        let Ok(f) = getfd(fd) else { err(EBADF); return -1 };
        if let Some(Fk::Err(e)) = sim().enter(Op::Write, &f.path) { err(e); return -1; }
        let s = sim();
        s.vfs.truncate(f.ino, n as usize);
        s.changed();
        0
    }
    fchmod(fd: c_int, m: mode_t) -> c_int { let _ = m; ret(fd_touch(fd)) as c_int }
    chmod(p: *const c_char, m: mode_t) -> c_int { let _ = m; ret(touch(Ok(cwd()), &text(p))) as c_int }
    futimens(fd: c_int, t: *const timespec) -> c_int { let _ = t; ret(fd_touch(fd)) as c_int }
    utimensat(fd: c_int, p: *const c_char, t: *const timespec, f: c_int) -> c_int { let _ = (t, f); ret(touch(at(fd), &text(p))) as c_int }
    fcntl(fd: c_int, c: c_int, a: c_ulong) -> c_int { let _ = (fd, a); if c == F_GETFD || c == F_SETFD || c == F_GETFL || c == F_SETFL { 0 } else { err(EINVAL); -1 } }
    fcntl64(fd: c_int, c: c_int, a: c_ulong) -> c_int { let _ = (fd, a); if c == F_GETFD || c == F_SETFD || c == F_GETFL || c == F_SETFL { 0 } else { err(EINVAL); -1 } }
    ioctl(fd: c_int, r: c_ulong, a: c_ulong) -> c_int { let _ = (fd, r, a); err(ENOTTY); -1 }
    isatty(fd: c_int) -> c_int { let _ = fd; err(ENOTTY); 0 }
    flock(fd: c_int, o: c_int) -> c_int { let _ = (fd, o); 0 }
    posix_fadvise64(fd: c_int, a: i64, b: i64, c: c_int) -> c_int { let _ = (fd, a, b, c); 0 }
    copy_file_range(a: c_int, b: *mut i64, c: c_int, d: *mut i64, e: size_t, f: c_uint) -> ssize_t { let _ = (a, b, c, d, e, f); err(ENOSYS); -1 }
    sendfile64(a: c_int, b: c_int, c: *mut i64, d: size_t) -> ssize_t { let _ = (a, b, c, d); err(EINVAL); -1 }
    splice(a: c_int, b: *mut i64, c: c_int, d: *mut i64, e: size_t, f: c_uint) -> ssize_t { let _ = (a, b, c, d, e, f); err(EINVAL); -1 }
    getpid() -> pid_t { let s = sim(); let n = s.node(); s.nodes[n].pid }
    getrandom(b: *mut c_void, n: size_t, f: c_uint) -> ssize_t {
        let _ = f;
        let s = sim();
        let me = s.node();
        for i in 0..n { *(b as *mut u8).add(i) = s.nodes[me].rng.next() as u8; }
        n as ssize_t
    }
    clock_gettime(c: clockid_t, t: *mut timespec) -> c_int {
        let _ = c;
        let s = sim();
        let n = s.node();
        let now = s.vfs.now as i64 + s.nodes[n].clock;
        (*t).tv_sec = now / 1_000_000_000;
        (*t).tv_nsec = now % 1_000_000_000;
        0
    }
    nanosleep(t: *const timespec, r: *mut timespec) -> c_int { let _ = r; sleep(&*t); 0 }
    clock_nanosleep(c: clockid_t, f: c_int, t: *const timespec, r: *mut timespec) -> c_int { let _ = (c, f, r); sleep(&*t); 0 }
    sched_yield() -> c_int { sim().point(); 0 }
    getenv(k: *const c_char) -> *mut c_char {
        let k = CStr::from_ptr(k).to_bytes();
        let s = sim();
        let n = s.node();
        for e in &s.nodes[n].envc {
            let b = e.to_bytes();
            if b.len() > k.len() && b[k.len()] == b'=' && &b[..k.len()] == k { return e.as_ptr().add(k.len() + 1) as *mut c_char; }
        }
        std::ptr::null_mut()
    }
    exit(c: c_int) -> ! { sim().node_exit(Exit::Code(c)) }
    _exit(c: c_int) -> ! { sim().node_exit(Exit::Code(c)) }
    abort() -> ! { sim().node_exit(Exit::Abort) }
    pause() -> c_int { park() }
    fork() -> pid_t { err(EAGAIN); -1 }
    posix_spawn(a: *mut pid_t, b: *const c_char, c: *const c_void, d: *const c_void, e: *const *mut c_char, f: *const *mut c_char) -> c_int { let _ = (a, b, c, d, e, f); EAGAIN }
    posix_spawnp(a: *mut pid_t, b: *const c_char, c: *const c_void, d: *const c_void, e: *const *mut c_char, f: *const *mut c_char) -> c_int { let _ = (a, b, c, d, e, f); EAGAIN }
    syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
        match n {
            SYS_futex => futex(a as usize, b, c as u32, d as *const timespec),
            SYS_getrandom => getrandom(a as *mut c_void, b as usize, c as c_uint) as c_long,
            SYS_gettid => { let s = sim(); 4242 + s.cur as c_long }
            SYS_statx => statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long,
            _ => { let _ = f; err(ENOSYS); -1 }
        }
    }
}
unsafe fn sleep(t: &timespec) {
    let s = sim();
    s.vfs.now += t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64;
    s.point();
}
unsafe fn futex(addr: usize, op: c_long, val: u32, _timeout: *const timespec) -> c_long {
    let s = sim();
    match op as i32 & 0x7f {
        0 | 9 => {
            s.point();
            if *(addr as *const u32) != val {
                err(EAGAIN);
                return -1;
            }
            let me = s.cur;
            s.threads[me].state = TState::Blocked(addr);
            s.yield_blocked();
            0
        }
        1 | 10 => {
            let mut left = val;
            let mut woken = 0;
            for t in &mut s.threads {
                if left > 0 && t.state == TState::Blocked(addr) {
                    t.state = TState::Ready;
                    left -= 1;
                    woken += 1;
                }
            }
            s.point();
            woken
        }
        _ => {
            err(ENOSYS);
            -1
        }
    }
}
/// Called by instrumented node code (allocations) and by the node's own program between its steps.
#[no_mangle]
pub extern "C" fn fssim_point() {
    if TID.get() >= 0 {
        sim().point();
    }
}
#[no_mangle]
pub unsafe extern "C" fn fssim_result(p: *const u8, n: usize) {
    if TID.get() >= 0 {
        let t = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
        let s = sim();
        let me = s.node();
        let c = s.cur as u32;
        if s.trace {
            s.log.push(format!("[{me}] result {t}"));
        }
        s.nodes[me].results.push((c, t));
    }
}
/// A logical clock for histories of threads.
#[no_mangle]
pub extern "C" fn fssim_now() -> u64 {
    if TID.get() >= 0 {
        let s = sim();
        s.points += 1;
        s.points
    } else {
        0
    }
}
