//! Interposed system calls. The functions below replace libc's for the whole process; they pass
//! everything through except on threads that have a session, and there only for files below the
//! session's root. A session can record an event log (crash exploration), make chosen calls fail
//! (fault exploration), call a scheduler before every call (interleaving exploration), and makes
//! getrandom deterministic.
use libc::{c_char, c_int, c_long, c_void, mode_t, size_t, ssize_t};
use std::cell::Cell;
use std::collections::HashMap;
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, Ordering};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Call {
    Open,
    Read,
    Write,
    Fsync,
    Trunc,
    Mkdir,
    Rmdir,
    Unlink,
    Rename,
    Link,
    Flock,
    Stat,
    Dup,
    Opendir,
    Readdir,
    Close,
}
pub type NodeId = u32;
#[derive(Clone, Debug)]
pub enum Ev {
    Create { dir: NodeId, name: String, node: NodeId },
    Mkdir { dir: NodeId, name: String, node: NodeId },
    Remove { dir: NodeId, name: String },
    Rename { dir: NodeId, name: String, dir2: NodeId, name2: String, node: NodeId },
    Link { dir: NodeId, name: String, node: NodeId },
    Write { node: NodeId, off: u64, data: Vec<u8> },
    Trunc { node: NodeId, len: u64 },
    Sync { node: NodeId },
    SyncDir { node: NodeId },
    /// harness markers
    Begin(usize),
    End(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind {
    /// fail with this errno
    Errno(c_int),
    /// transfer less than asked
    Short,
    /// fail this call and every later modifying call with this errno
    Sticky(c_int),
}
#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub at: u64,
    pub kind: FaultKind,
}
pub struct FdInfo {
    pub node: NodeId,
    pub path: Vec<u8>,
    pub dir: bool,
}
/// What a scheduler gets to see of a call.
pub struct Access<'a> {
    pub call: Call,
    pub path: &'a [u8],
    pub write: bool,
    /// the call also reads or changes the listing of the directory holding the path
    pub listing: bool,
    /// a lock is taken that others may hold too
    pub shared: bool,
}
pub struct Session {
    root: Vec<u8>,
    pub log: Vec<Ev>,
    pub record: bool,
    next_node: NodeId,
    pub paths: HashMap<Vec<u8>, NodeId>,
    pub fds: HashMap<c_int, FdInfo>,
    dirs: HashMap<usize, (Vec<u8>, bool)>,
    /// number of calls that could have been made to fail
    pub calls: u64,
    pub trace: Option<Vec<(Call, String)>>,
    pub faults: Vec<Fault>,
    pub faulted: Option<(Call, String)>,
    pub sched: Option<fn(&Access)>,
    /// called instead of sleeping in flock; the argument tells whether it could be taken now.
    /// Tells whether to try again
    pub wait: Option<fn(&dyn Fn() -> bool) -> bool>,
    /// calls that changed something others can see (files, file locks)
    pub changes: u64,
    flocked: std::collections::HashSet<c_int>,
    /// what the last call was: the call and the kind of file
    pub last: u64,
}
thread_local! {
    static CUR: Cell<*mut Session> = const { Cell::new(std::ptr::null_mut()) };
    static SHARED: Cell<bool> = const { Cell::new(false) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static RNG: Cell<u64> = const { Cell::new(0) };
}
impl Session {
    pub fn new(root: &std::path::Path) -> Box<Session> {
        let mut s = Box::new(Session {
            root: root.to_str().unwrap().as_bytes().to_vec(),
            log: vec![],
            record: false,
            next_node: 1,
            paths: HashMap::new(),
            fds: HashMap::new(),
            dirs: HashMap::new(),
            calls: 0,
            trace: None,
            faults: vec![],
            faulted: None,
            sched: None,
            wait: None,
            changes: 0,
            flocked: Default::default(),
            last: 0,
        });
        s.paths.insert(vec![], 0);
        s
    }
    fn rel<'a>(&self, p: &'a [u8]) -> Option<&'a [u8]> {
        let r = p.strip_prefix(&self.root[..])?;
        if r.is_empty() {
            return Some(r);
        }
        if r[0] != b'/' {
            return None;
        }
        let mut r = &r[1..];
        while r.last() == Some(&b'/') {
            r = &r[..r.len() - 1];
        }
        Some(r)
    }
    fn node(&mut self, rel: &[u8]) -> NodeId {
        if let Some(n) = self.paths.get(rel) {
            return *n;
        }
        let n = self.next_node;
        self.next_node += 1;
        self.paths.insert(rel.to_vec(), n);
        n
    }
    fn fresh(&mut self, rel: &[u8]) -> NodeId {
        let n = self.next_node;
        self.next_node += 1;
        self.paths.insert(rel.to_vec(), n);
        n
    }
    pub fn ev(&mut self, e: Ev) {
        if self.record {
            self.log.push(e)
        }
    }
}
fn split(rel: &[u8]) -> (&[u8], String) {
    match rel.iter().rposition(|c| *c == b'/') {
        Some(i) => (&rel[..i], String::from_utf8_lossy(&rel[i + 1..]).into_owned()),
        None => (&[], String::from_utf8_lossy(rel).into_owned()),
    }
}
/// Attaches a session to this thread while it lives.
pub struct Attach(*mut Session);
impl Attach {
    pub fn new(s: *mut Session, seed: u64) -> Attach {
        let old = CUR.with(|c| c.replace(s));
        RNG.with(|r| r.set(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1));
        Attach(old)
    }
}
impl Drop for Attach {
    fn drop(&mut self) {
        CUR.with(|c| c.set(self.0));
    }
}
pub fn current() -> Option<&'static mut Session> {
    let p = CUR.try_with(|c| c.get()).unwrap_or(std::ptr::null_mut());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}
/// Runs without the session: for the harness's own looks at the files.
pub fn aside<T>(f: impl FnOnce() -> T) -> T {
    struct R(*mut Session);
    impl Drop for R {
        fn drop(&mut self) {
            CUR.with(|c| c.set(self.0));
        }
    }
    let _r = R(CUR.with(|c| c.replace(std::ptr::null_mut())));
    f()
}
struct Inside;
impl Inside {
    fn enter() -> Option<(&'static mut Session, Inside)> {
        let s = current()?;
        if INSIDE.with(|i| i.replace(true)) {
            return None;
        }
        Some((s, Inside))
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        INSIDE.with(|i| i.set(false));
    }
}
macro_rules! real {
    ($name:literal, $t:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Ordering::Relaxed);
        if p == 0 {
            p = unsafe { libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) } as usize;
            if p == 0 {
                unsafe { libc::abort() }
            }
            P.store(p, Ordering::Relaxed);
        }
        unsafe { std::mem::transmute::<usize, $t>(p) }
    }};
}
fn errno() -> c_int {
    unsafe { *libc::__errno_location() }
}
fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}
enum Verdict {
    Go,
    Fail(c_int),
    Short,
}
/// Bookkeeping before a call: scheduling point, then fault decision.
fn before(s: &mut Session, call: Call, path: &[u8], write: bool, listing: bool, faultable: bool) -> Verdict {
    if let Some(f) = s.sched {
        INSIDE.with(|i| i.set(false));
        f(&Access { call, path, write, listing, shared: SHARED.with(|s| s.get()) });
        INSIDE.with(|i| i.set(true));
    }
    s.changes += match call {
        // counted there
        Call::Close => false,
        Call::Flock | Call::Fsync => true,
        _ => write || listing,
    } as u64;
    let base = path.iter().rposition(|c| *c == b'/').map(|i| &path[i + 1..]).unwrap_or(path);
    let kind: Vec<u8> = if base.len() >= 36 { vec![b'#'] } else { base.iter().copied().filter(|c| !c.is_ascii_digit()).collect() };
    s.last = crate::util::fnv(&kind).wrapping_mul(31).wrapping_add(call as u64);
    if !faultable {
        return Verdict::Go;
    }
    let n = s.calls;
    s.calls += 1;
    if let Some(t) = &mut s.trace {
        t.push((call, String::from_utf8_lossy(path).into_owned()));
    }
    for f in s.faults.clone() {
        if n == f.at {
            s.faulted = Some((call, String::from_utf8_lossy(path).into_owned()));
            return match f.kind {
                FaultKind::Errno(e) | FaultKind::Sticky(e) => Verdict::Fail(e),
                FaultKind::Short => Verdict::Short,
            };
        }
        if let FaultKind::Sticky(e) = f.kind {
            if n > f.at && matches!(call, Call::Write | Call::Fsync | Call::Mkdir | Call::Trunc | Call::Rename | Call::Link) {
                return Verdict::Fail(e);
            }
        }
    }
    Verdict::Go
}
unsafe fn cpath<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}
macro_rules! check {
    ($v:expr, $fail:expr) => {
        match $v {
            Verdict::Fail(e) => {
                set_errno(e);
                return $fail;
            }
            Verdict::Go | Verdict::Short => {}
        }
    };
}

fn do_open(dfd: c_int, path: *const c_char, flags: c_int, go: impl Fn() -> c_int) -> c_int {
    let Some((s, _g)) = Inside::enter() else { return go() };
    let Some(rel) = at(s, dfd, unsafe { cpath(path) }) else { return go() };
    let mut p = s.root.clone();
    p.push(b'/');
    p.extend(&rel);
    let creat = flags & libc::O_CREAT != 0;
    let trunc = flags & libc::O_TRUNC != 0;
    check!(before(s, Call::Open, &rel, creat || trunc, creat, true), -1);
    let existed = aside_exists(&p);
    let fd = go();
    if fd < 0 {
        return fd;
    }
    let mut st: libc::stat64 = unsafe { std::mem::zeroed() };
    let r = real_fstat(fd, &mut st);
    let dir = r == 0 && st.st_mode & libc::S_IFMT == libc::S_IFDIR;
    if !existed {
        let n = s.fresh(&rel);
        let (d, name) = split(&rel);
        let dn = s.node(d);
        s.ev(Ev::Create { dir: dn, name, node: n });
    }
    let n = s.node(&rel);
    if existed && trunc {
        s.ev(Ev::Trunc { node: n, len: 0 });
    }
    s.fds.insert(fd, FdInfo { node: n, path: rel, dir });
    fd
}
fn real_fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    real!("fstat64", extern "C" fn(c_int, *mut libc::stat64) -> c_int)(fd, st)
}
fn aside_exists(p: &[u8]) -> bool {
    let mut b = p.to_vec();
    b.push(0);
    let mut st: libc::stat64 = unsafe { std::mem::zeroed() };
    let e = errno();
    let r = real!("lstat64", extern "C" fn(*const c_char, *mut libc::stat64) -> c_int)(b.as_ptr() as *const c_char, &mut st);
    set_errno(e);
    r == 0
}

#[no_mangle]
pub extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let r = real!("open64", extern "C" fn(*const c_char, c_int, mode_t) -> c_int);
    do_open(libc::AT_FDCWD, path, flags, || r(path, flags, mode))
}
#[no_mangle]
pub extern "C" fn openat64(dfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let r = real!("openat64", extern "C" fn(c_int, *const c_char, c_int, mode_t) -> c_int);
    do_open(dfd, path, flags, || r(dfd, path, flags, mode))
}
/// Copies made inside the kernel are refused for our files, as a file system may, so that they
/// are made with reads and writes that are seen.
fn refused(a: c_int, b: c_int) -> bool {
    current().map_or(false, |s| s.fds.contains_key(&a) || s.fds.contains_key(&b))
}
#[no_mangle]
pub extern "C" fn copy_file_range(a: c_int, oa: *mut i64, b: c_int, ob: *mut i64, n: size_t, f: libc::c_uint) -> ssize_t {
    let r = real!("copy_file_range", extern "C" fn(c_int, *mut i64, c_int, *mut i64, size_t, libc::c_uint) -> ssize_t);
    if refused(a, b) {
        set_errno(libc::EXDEV);
        return -1;
    }
    r(a, oa, b, ob, n, f)
}
#[no_mangle]
pub extern "C" fn sendfile64(out: c_int, inp: c_int, off: *mut i64, n: size_t) -> ssize_t {
    let r = real!("sendfile64", extern "C" fn(c_int, c_int, *mut i64, size_t) -> ssize_t);
    if refused(out, inp) {
        set_errno(libc::EINVAL);
        return -1;
    }
    r(out, inp, off, n)
}
#[no_mangle]
pub extern "C" fn sendfile(out: c_int, inp: c_int, off: *mut i64, n: size_t) -> ssize_t {
    sendfile64(out, inp, off, n)
}
fn fd_path(s: &Session, fd: c_int) -> Option<(NodeId, Vec<u8>, bool)> {
    s.fds.get(&fd).map(|f| (f.node, f.path.clone(), f.dir))
}
#[no_mangle]
pub extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let r = real!("read", extern "C" fn(c_int, *mut c_void, size_t) -> ssize_t);
    let Some((s, _g)) = Inside::enter() else { return r(fd, buf, n) };
    let Some((_, p, _)) = fd_path(s, fd) else { return r(fd, buf, n) };
    match before(s, Call::Read, &p, false, false, true) {
        Verdict::Fail(e) => {
            set_errno(e);
            -1
        }
        Verdict::Short => r(fd, buf, if n > 1 { 1 } else { n }),
        Verdict::Go => r(fd, buf, n),
    }
}
fn logged_write(s: &mut Session, node: NodeId, off: i64, buf: *const c_void, done: ssize_t) {
    if done > 0 && s.record {
        let data = unsafe { std::slice::from_raw_parts(buf as *const u8, done as usize) }.to_vec();
        s.ev(Ev::Write { node, off: off as u64, data });
    }
}
fn tell(fd: c_int) -> i64 {
    real!("lseek64", extern "C" fn(c_int, i64, c_int) -> i64)(fd, 0, libc::SEEK_CUR)
}
#[no_mangle]
pub extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let r = real!("write", extern "C" fn(c_int, *const c_void, size_t) -> ssize_t);
    let Some((s, _g)) = Inside::enter() else { return r(fd, buf, n) };
    let Some((node, p, _)) = fd_path(s, fd) else { return r(fd, buf, n) };
    let n = match before(s, Call::Write, &p, true, false, true) {
        Verdict::Fail(e) => {
            set_errno(e);
            return -1;
        }
        Verdict::Short => (n + 1) / 2,
        Verdict::Go => n,
    };
    let d = r(fd, buf, n);
    if d > 0 && s.record {
        // also right for a file opened for appending
        let e = errno();
        let off = tell(fd) - d as i64;
        set_errno(e);
        logged_write(s, node, off, buf, d);
    }
    d
}
#[no_mangle]
pub extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    let r = real!("writev", extern "C" fn(c_int, *const libc::iovec, c_int) -> ssize_t);
    {
        let known = current().map_or(false, |s| s.fds.contains_key(&fd));
        if !known || n < 1 {
            return r(fd, iov, n);
        }
    }
    // a legal short write: only the first non empty buffer
    for i in 0..n as usize {
        let v = unsafe { &*iov.add(i) };
        if v.iov_len > 0 {
            return write(fd, v.iov_base, v.iov_len);
        }
    }
    0
}
#[no_mangle]
pub extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
    let r = real!("pwrite64", extern "C" fn(c_int, *const c_void, size_t, i64) -> ssize_t);
    let Some((s, _g)) = Inside::enter() else { return r(fd, buf, n, off) };
    let Some((node, p, _)) = fd_path(s, fd) else { return r(fd, buf, n, off) };
    let n = match before(s, Call::Write, &p, true, false, true) {
        Verdict::Fail(e) => {
            set_errno(e);
            return -1;
        }
        Verdict::Short => (n + 1) / 2,
        Verdict::Go => n,
    };
    let d = r(fd, buf, n, off);
    logged_write(s, node, off, buf, d);
    d
}
#[no_mangle]
pub extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    let r = real!("pread64", extern "C" fn(c_int, *mut c_void, size_t, i64) -> ssize_t);
    let Some((s, _g)) = Inside::enter() else { return r(fd, buf, n, off) };
    let Some((_, p, _)) = fd_path(s, fd) else { return r(fd, buf, n, off) };
    match before(s, Call::Read, &p, false, false, true) {
        Verdict::Fail(e) => {
            set_errno(e);
            -1
        }
        Verdict::Short => r(fd, buf, if n > 1 { 1 } else { n }, off),
        Verdict::Go => r(fd, buf, n, off),
    }
}
fn do_sync(fd: c_int, go: impl Fn() -> c_int) -> c_int {
    let Some((s, _g)) = Inside::enter() else { return go() };
    let Some((node, p, dir)) = fd_path(s, fd) else { return go() };
    check!(before(s, Call::Fsync, &p, false, false, true), -1);
    // the scratch directory is in memory: there is nothing to wait for
    if dir {
        s.ev(Ev::SyncDir { node });
    } else {
        s.ev(Ev::Sync { node });
    }
    0
}
#[no_mangle]
pub extern "C" fn fsync(fd: c_int) -> c_int {
    let r = real!("fsync", extern "C" fn(c_int) -> c_int);
    do_sync(fd, || r(fd))
}
#[no_mangle]
pub extern "C" fn fdatasync(fd: c_int) -> c_int {
    let r = real!("fdatasync", extern "C" fn(c_int) -> c_int);
    do_sync(fd, || r(fd))
}
#[no_mangle]
pub extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    let r = real!("ftruncate64", extern "C" fn(c_int, i64) -> c_int);
    let Some((s, _g)) = Inside::enter() else { return r(fd, len) };
    let Some((node, p, _)) = fd_path(s, fd) else { return r(fd, len) };
    check!(before(s, Call::Trunc, &p, true, false, true), -1);
    let d = r(fd, len);
    if d == 0 {
        s.ev(Ev::Trunc { node, len: len as u64 });
    }
    d
}
#[no_mangle]
pub extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    let r = real!("mkdir", extern "C" fn(*const c_char, mode_t) -> c_int);
    let Some((s, _g)) = Inside::enter() else { return r(path, mode) };
    let p = unsafe { cpath(path) };
    let Some(rel) = s.rel(p).map(|r| r.to_vec()) else { return r(path, mode) };
    check!(before(s, Call::Mkdir, &rel, true, true, true), -1);
    let d = r(path, mode);
    if d == 0 {
        let n = s.fresh(&rel);
        let (dir, name) = split(&rel);
        let dn = s.node(dir);
        s.ev(Ev::Mkdir { dir: dn, name, node: n });
    }
    d
}
/// The path a file has that is named relative to an open directory.
fn at(s: &Session, dfd: c_int, path: &[u8]) -> Option<Vec<u8>> {
    if path.first() == Some(&b'/') {
        return s.rel(path).map(|r| r.to_vec());
    }
    let d = &s.fds.get(&dfd)?.path;
    let mut p = d.clone();
    if !p.is_empty() {
        p.push(b'/');
    }
    p.extend(path);
    Some(p)
}
fn do_remove(dfd: c_int, path: *const c_char, call: Call, go: impl Fn() -> c_int) -> c_int {
    let Some((s, _g)) = Inside::enter() else { return go() };
    let Some(rel) = at(s, dfd, unsafe { cpath(path) }) else { return go() };
    check!(before(s, call, &rel, true, true, true), -1);
    let d = go();
    if d == 0 {
        s.paths.remove(&rel);
        let (dir, name) = split(&rel);
        let dn = s.node(dir);
        s.ev(Ev::Remove { dir: dn, name });
    }
    d
}
#[no_mangle]
pub extern "C" fn unlink(path: *const c_char) -> c_int {
    let r = real!("unlink", extern "C" fn(*const c_char) -> c_int);
    do_remove(libc::AT_FDCWD, path, Call::Unlink, || r(path))
}
#[no_mangle]
pub extern "C" fn rmdir(path: *const c_char) -> c_int {
    let r = real!("rmdir", extern "C" fn(*const c_char) -> c_int);
    do_remove(libc::AT_FDCWD, path, Call::Rmdir, || r(path))
}
#[no_mangle]
pub extern "C" fn unlinkat(dfd: c_int, path: *const c_char, flags: c_int) -> c_int {
    let r = real!("unlinkat", extern "C" fn(c_int, *const c_char, c_int) -> c_int);
    let call = if flags & libc::AT_REMOVEDIR != 0 { Call::Rmdir } else { Call::Unlink };
    do_remove(dfd, path, call, || r(dfd, path, flags))
}
#[no_mangle]
pub extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let r = real!("rename", extern "C" fn(*const c_char, *const c_char) -> c_int);
    let Some((s, _g)) = Inside::enter() else { return r(a, b) };
    let (pa, pb) = unsafe { (cpath(a), cpath(b)) };
    let (Some(ra), Some(rb)) = (s.rel(pa).map(|r| r.to_vec()), s.rel(pb).map(|r| r.to_vec())) else { return r(a, b) };
    check!(before(s, Call::Rename, &rb, true, true, true), -1);
    let d = r(a, b);
    if d == 0 {
        let n = s.node(&ra);
        s.paths.remove(&ra);
        s.paths.insert(rb.clone(), n);
        // a renamed directory takes its contents along
        let mut pre = ra.clone();
        pre.push(b'/');
        let inner: Vec<(Vec<u8>, NodeId)> = s.paths.iter().filter(|(k, _)| k.starts_with(&pre)).map(|(k, v)| (k.clone(), *v)).collect();
        for (k, v) in inner {
            s.paths.remove(&k);
            let mut k2 = rb.clone();
            k2.push(b'/');
            k2.extend(&k[pre.len()..]);
            s.paths.insert(k2, v);
        }
        let ((d1, n1), (d2, n2)) = (split(&ra), split(&rb));
        let (d1, d2) = (s.node(d1), s.node(d2));
        s.ev(Ev::Rename { dir: d1, name: n1, dir2: d2, name2: n2, node: n });
    }
    d
}
fn do_link(a: *const c_char, b: *const c_char, go: impl Fn() -> c_int) -> c_int {
    let Some((s, _g)) = Inside::enter() else { return go() };
    let (pa, pb) = unsafe { (cpath(a), cpath(b)) };
    let (Some(ra), Some(rb)) = (s.rel(pa).map(|r| r.to_vec()), s.rel(pb).map(|r| r.to_vec())) else { return go() };
    check!(before(s, Call::Link, &rb, true, true, true), -1);
    let d = go();
    if d == 0 {
        let n = s.node(&ra);
        s.paths.insert(rb.clone(), n);
        let (dir, name) = split(&rb);
        let dn = s.node(dir);
        s.ev(Ev::Link { dir: dn, name, node: n });
    }
    d
}
#[no_mangle]
pub extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    let r = real!("link", extern "C" fn(*const c_char, *const c_char) -> c_int);
    do_link(a, b, || r(a, b))
}
#[no_mangle]
pub extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, f: c_int) -> c_int {
    let r = real!("linkat", extern "C" fn(c_int, *const c_char, c_int, *const c_char, c_int) -> c_int);
    do_link(a, b, || r(d1, a, d2, b, f))
}
#[no_mangle]
pub extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    let r = real!("flock", extern "C" fn(c_int, c_int) -> c_int);
    let Some((s, _g)) = Inside::enter() else { return r(fd, op) };
    let Some((_, p, _)) = fd_path(s, fd) else { return r(fd, op) };
    let un = op & libc::LOCK_UN != 0;
    SHARED.with(|s| s.set(op & libc::LOCK_SH != 0));
    if un {
        s.changes += s.flocked.remove(&fd) as u64;
    } else {
        s.flocked.insert(fd);
    }
    check!(before(s, if un { Call::Close } else { Call::Flock }, &p, true, false, !un), -1);
    if un || op & libc::LOCK_NB != 0 {
        return r(fd, op);
    }
    let Some(wait) = s.wait else { return r(fd, op) };
    loop {
        if r(fd, op | libc::LOCK_NB) == 0 {
            return 0;
        }
        if errno() != libc::EWOULDBLOCK {
            return -1;
        }
        INSIDE.with(|i| i.set(false));
        let again = wait(&|| {
            if r(fd, op | libc::LOCK_NB) == 0 {
                r(fd, libc::LOCK_UN);
                true
            } else {
                false
            }
        });
        INSIDE.with(|i| i.set(true));
        if !again {
            set_errno(libc::EDEADLK);
            return -1;
        }
    }
}
#[no_mangle]
pub extern "C" fn statx(dfd: c_int, path: *const c_char, flags: c_int, mask: libc::c_uint, buf: *mut libc::statx) -> c_int {
    let r = real!("statx", extern "C" fn(c_int, *const c_char, c_int, libc::c_uint, *mut libc::statx) -> c_int);
    // std probes for the call with a null buffer
    if path.is_null() || buf.is_null() {
        return r(dfd, path, flags, mask, buf);
    }
    let Some((s, _g)) = Inside::enter() else { return r(dfd, path, flags, mask, buf) };
    let p = unsafe { cpath(path) };
    let rel = if p.is_empty() { s.fds.get(&dfd).map(|f| f.path.clone()) } else { s.rel(p).map(|r| r.to_vec()) };
    let Some(rel) = rel else { return r(dfd, path, flags, mask, buf) };
    check!(before(s, Call::Stat, &rel, false, false, true), -1);
    r(dfd, path, flags, mask, buf)
}
#[no_mangle]
pub extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let r = real!("fcntl", extern "C" fn(c_int, c_int, usize) -> c_int);
    if cmd != libc::F_DUPFD_CLOEXEC && cmd != libc::F_DUPFD {
        return r(fd, cmd, arg);
    }
    let Some((s, _g)) = Inside::enter() else { return r(fd, cmd, arg) };
    let Some((node, p, dir)) = fd_path(s, fd) else { return r(fd, cmd, arg) };
    check!(before(s, Call::Dup, &p, false, false, true), -1);
    let d = r(fd, cmd, arg);
    if d >= 0 {
        s.fds.insert(d, FdInfo { node, path: p, dir });
    }
    d
}
#[no_mangle]
pub extern "C" fn close(fd: c_int) -> c_int {
    let r = real!("close", extern "C" fn(c_int) -> c_int);
    let Some((s, _g)) = Inside::enter() else { return r(fd) };
    if let Some((_, p, _)) = fd_path(s, fd) {
        // closing may release a lock
        s.changes += s.flocked.remove(&fd) as u64;
        let _ = before(s, Call::Close, &p, true, false, false);
        s.fds.remove(&fd);
    }
    r(fd)
}
#[no_mangle]
pub extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    let r = real!("opendir", extern "C" fn(*const c_char) -> *mut libc::DIR);
    let Some((s, _g)) = Inside::enter() else { return r(path) };
    let p = unsafe { cpath(path) };
    let Some(rel) = s.rel(p).map(|r| r.to_vec()) else { return r(path) };
    check!(before(s, Call::Opendir, &rel, false, true, true), std::ptr::null_mut());
    let d = r(path);
    if !d.is_null() {
        s.dirs.insert(d as usize, (rel, false));
    }
    d
}
#[no_mangle]
pub extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    let r = real!("fdopendir", extern "C" fn(c_int) -> *mut libc::DIR);
    let Some((s, _g)) = Inside::enter() else { return r(fd) };
    let Some((_, rel, _)) = fd_path(s, fd) else { return r(fd) };
    check!(before(s, Call::Opendir, &rel, false, true, true), std::ptr::null_mut());
    let d = r(fd);
    if !d.is_null() {
        s.dirs.insert(d as usize, (rel, false));
    }
    d
}
#[no_mangle]
pub extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    let r = real!("readdir64", extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64);
    let Some((s, _g)) = Inside::enter() else { return r(d) };
    let Some((rel, again)) = s.dirs.get(&(d as usize)).cloned() else { return r(d) };
    // the first call reads everything
    check!(before(s, Call::Readdir, &rel, false, !again, true), std::ptr::null_mut());
    if let Some(x) = s.dirs.get_mut(&(d as usize)) {
        x.1 = true;
    }
    r(d)
}
#[no_mangle]
pub extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    let r = real!("closedir", extern "C" fn(*mut libc::DIR) -> c_int);
    if let Some((s, _g)) = Inside::enter() {
        if s.dirs.remove(&(d as usize)).is_some() && !d.is_null() {
            // closed inside libc, unseen
            let fd = unsafe { libc::dirfd(d) };
            s.fds.remove(&fd);
        }
    }
    r(d)
}
fn fill(buf: *mut u8, n: usize) {
    RNG.with(|r| {
        let mut x = r.get();
        for i in 0..n {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            unsafe { *buf.add(i) = (x >> 24) as u8 };
        }
        r.set(x);
    });
}
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: libc::c_uint) -> ssize_t {
    if current().is_some() {
        fill(buf as *mut u8, n);
        return n as ssize_t;
    }
    real!("getrandom", extern "C" fn(*mut c_void, size_t, libc::c_uint) -> ssize_t)(buf, n, flags)
}
#[no_mangle]
pub extern "C" fn syscall(num: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if num == libc::SYS_getrandom && current().is_some() {
        fill(a as *mut u8, b);
        return b as c_long;
    }
    real!("syscall", extern "C" fn(c_long, usize, usize, usize, usize, usize, usize) -> c_long)(num, a, b, c, d, e, f)
}
