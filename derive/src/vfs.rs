//! The simulated operating system: a file system in memory below `/simfs`, hash seeds, working
//! directories and directory orders. The functions of libc are replaced by those at the end of
//! this file; on threads which do not simulate anything they call the original ones.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::sync::{Arc, Mutex};

use serde::{Deserialize, Serialize};
use vsim::rng::{mix, mix_str};
use vsim::sched::Sched;

const FIRST_FD: c_int = 1_000_000;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    File(Arc<Vec<u8>>),
    Link(String),
}

/// All files; directories exist if anything is in them
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Fs {
    pub nodes: BTreeMap<String, Node>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Found {
    File(String, Arc<Vec<u8>>),
    Dir(String),
    Link(String),
}

impl Fs {
    pub fn is_dir(&self, path: &str) -> bool {
        let prefix = format!("{}/", path.trim_end_matches('/'));
        path == "/" || self.nodes.range(prefix.clone()..).next().is_some_and(|(k, _)| k.starts_with(&prefix))
    }

    /// Resolves links and dots like the kernel does
    pub fn resolve(&self, path: &str) -> Result<Found, c_int> {
        self.find(path, true)
    }

    /// If the last link is not to be followed, then it may be found itself
    pub fn find(&self, path: &str, follow: bool) -> Result<Found, c_int> {
        if path.len() > 4000 || path.split('/').any(|part| part.len() > 255) {
            return Err(libc::ENAMETOOLONG);
        }
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        let must_be_dir = path.ends_with('/') || path.ends_with("/.") || path.ends_with("/..");
        let mut todo: Vec<String> = path.split('/').rev().map(str::to_owned).collect();
        let mut at = String::new();
        let mut links = 0;
        while let Some(part) = todo.pop() {
            match part.as_str() {
                "" | "." => continue,
                ".." => {
                    if !self.is_dir(if at.is_empty() { "/" } else { &at }) {
                        return Err(libc::ENOTDIR);
                    }
                    let cut = at.rfind('/').unwrap_or(0);
                    at.truncate(cut);
                    continue;
                }
                _ => {}
            }
            if let Some(Node::File(_)) = self.nodes.get(&at) {
                return Err(libc::ENOTDIR);
            }
            at = format!("{at}/{part}");
            match self.nodes.get(&at) {
                Some(Node::Link(_)) if !follow && !must_be_dir && todo.iter().all(|p| p.is_empty()) => {
                    return Ok(Found::Link(at));
                }
                Some(Node::Link(to)) => {
                    links += 1;
                    if links > 40 {
                        return Err(libc::ELOOP);
                    }
                    todo.extend(to.split('/').rev().map(str::to_owned));
                    match to.starts_with('/') {
                        true => at.clear(),
                        false => at.truncate(at.rfind('/').unwrap()),
                    }
                }
                Some(Node::File(_)) => {}
                None if self.is_dir(&at) => {}
                None => return Err(libc::ENOENT),
            }
        }
        if at.is_empty() {
            at.push('/');
        }
        match self.nodes.get(&at) {
            Some(Node::File(_)) if must_be_dir => Err(libc::ENOTDIR),
            Some(Node::File(content)) => Ok(Found::File(at, content.clone())),
            _ => Ok(Found::Dir(at)),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Errno {
    Io,
    Access,
    ManyFiles,
    NoMemory,
    Interrupted,
    Stale,
    Again,
}

impl Errno {
    pub const ALL: [Errno; 5] = [Errno::Io, Errno::Access, Errno::ManyFiles, Errno::NoMemory, Errno::Stale];

    fn code(self) -> c_int {
        match self {
            Errno::Io => libc::EIO,
            Errno::Access => libc::EACCES,
            Errno::ManyFiles => libc::EMFILE,
            Errno::NoMemory => libc::ENOMEM,
            Errno::Interrupted => libc::EINTR,
            Errno::Stale => libc::ESTALE,
            Errno::Again => libc::EAGAIN,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    /// The call fails
    Fail(Errno),
    /// A read returns at most so many bytes
    Short(usize),
    /// Before the call, the file gets another content, or is removed
    Replace(String, Option<String>),
    /// Before the call, this is appended to a file, which is also seen by who has opened it already
    Append(String, String),
    /// The file does not exist at the time of the call, e.g. because an editor just replaces it
    Vanish(String),
    /// The length of an opened file is reported as zero, like some file systems do
    NoSize,
    /// The thread stops here until nobody else can go on
    Stall,
}

impl Fault {
    pub fn name(&self) -> String {
        match self {
            Fault::Fail(e) => format!("{e:?}"),
            Fault::Short(_) => "short read".into(),
            Fault::Replace(_, Some(_)) => "file replaced".into(),
            Fault::Replace(_, None) => "file removed".into(),
            Fault::Append(..) => "file appended to".into(),
            Fault::Vanish(_) => "file missing".into(),
            Fault::NoSize => "unknown size".into(),
            Fault::Stall => "stall".into(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub kind: &'static str,
    pub path: String,
}

pub struct Fd {
    content: Arc<Vec<u8>>,
    pos: usize,
    path: String,
    dir: bool,
}

struct Dir {
    entries: Vec<(String, bool)>,
    at: usize,
    buf: libc::dirent64,
}

/// One derive that is being simulated on this thread
#[derive(Default)]
pub struct Ctx {
    pub fs: Arc<Mutex<Fs>>,
    pub cwd: String,
    pub hash_seed: u64,
    pub ops: Vec<Op>,
    pub faults: Vec<(usize, Fault)>,
    pub fired: Vec<(usize, String)>,
    pub fds: HashMap<c_int, Fd>,
    pub next_fd: c_int,
    pub randoms: u64,
    pub leaked: usize,
}

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
    static SCHED: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

pub fn set_sched(sched: Option<(Arc<Sched>, usize)>) {
    SCHED.with(|s| *s.borrow_mut() = sched);
}

/// Runs the function on this thread, in the simulated system
pub fn simulate<R>(ctx: Ctx, f: impl FnOnce() -> R) -> (std::thread::Result<R>, Ctx) {
    CTX.with(|c| *c.borrow_mut() = Some(ctx));
    ACTIVE.with(|a| a.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ACTIVE.with(|a| a.set(false));
    let mut ctx = CTX.with(|c| c.borrow_mut().take().unwrap());
    ctx.leaked = ctx.fds.len();
    (r, ctx)
}

fn active() -> bool {
    ACTIVE.try_with(Cell::get).unwrap_or(false)
}

/// Runs the simulator's code, which uses the real system
fn inside<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    ACTIVE.with(|a| a.set(false));
    let r = CTX.with(|c| f(c.borrow_mut().as_mut().expect("no simulation")));
    ACTIVE.with(|a| a.set(true));
    r
}

enum Do {
    Go,
    NoSize,
    Fail(c_int),
    Short(usize),
}

fn op(kind: &'static str, path: &str) -> Do {
    ACTIVE.with(|a| a.set(false));
    let sched = SCHED.with(|s| s.borrow().clone());
    if let Some((sched, me)) = &sched {
        sched.step(*me);
    }
    ACTIVE.with(|a| a.set(true));
    let fault = inside(|c| {
        let at = c.ops.len();
        if at > 200_000 {
            eprintln!("the derive does not end");
            std::process::exit(22);
        }
        c.ops.push(Op { kind, path: path.to_owned() });
        let mut fault = None;
        while let Some(i) = c.faults.iter().position(|(n, _)| *n == at) {
            let f = c.faults.remove(i).1;
            let possible = match (&f, kind) {
                (Fault::Short(_), k) => k == "read",
                (Fault::NoSize, k) => k == "fstat",
                (Fault::Fail(Errno::Interrupted), k) => k == "read" || k == "open",
                (Fault::Vanish(p), k) => matches!(k, "open" | "stat" | "realpath") && p == path,
                (Fault::Fail(_), k) => k != "close" && k != "random" && k != "getcwd",
                _ => true,
            };
            if !possible {
                continue;
            }
            c.fired.push((at, format!("{} at {kind}", f.name())));
            match f {
                Fault::Replace(path, content) => {
                    let mut fs = c.fs.lock().unwrap();
                    match content {
                        Some(text) => fs.nodes.insert(path, Node::File(Arc::new(text.into_bytes()))),
                        None => fs.nodes.remove(&path),
                    };
                }
                Fault::Append(path, text) => {
                    if let Some(Node::File(content)) = c.fs.lock().unwrap().nodes.get_mut(&path) {
                        Arc::make_mut(content).extend_from_slice(text.as_bytes());
                        for fd in c.fds.values_mut().filter(|fd| fd.path == path && !fd.dir) {
                            fd.content = content.clone();
                        }
                    }
                }
                f => fault = Some(f),
            }
        }
        fault
    });
    match fault {
        None | Some(Fault::Replace(..) | Fault::Append(..)) => Do::Go,
        Some(Fault::NoSize) => Do::NoSize,
        Some(Fault::Vanish(_)) => Do::Fail(libc::ENOENT),
        Some(Fault::Fail(e)) => Do::Fail(e.code()),
        Some(Fault::Short(n)) => Do::Short(n),
        Some(Fault::Stall) => {
            if let Some((sched, me)) = &sched {
                ACTIVE.with(|a| a.set(false));
                sched.stall(*me);
                ACTIVE.with(|a| a.set(true));
            }
            Do::Go
        }
    }
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

macro_rules! original {
    ($name:literal, fn($($t:ty),*) -> $r:ty) => {{
        static PTR: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = PTR.load(std::sync::atomic::Ordering::Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr().cast()) as usize;
            assert!(p != 0, $name);
            PTR.store(p, std::sync::atomic::Ordering::Relaxed);
        }
        std::mem::transmute::<usize, unsafe extern "C" fn($($t),*) -> $r>(p)
    }};
}

/// The simulated path, if this one is simulated
fn simulated(path: *const c_char) -> Option<String> {
    if !active() || path.is_null() {
        return None;
    }
    let bytes = unsafe { CStr::from_ptr(path) }.to_bytes();
    let path = String::from_utf8_lossy(bytes).into_owned();
    match path.strip_prefix('/') {
        Some(rest) => (rest == "simfs" || rest.starts_with("simfs/")).then_some(path),
        // Relative to the simulated working directory
        None => inside(|c| Some(format!("{}/{path}", c.cwd))),
    }
}

fn resolve(path: &str) -> Result<Found, c_int> {
    inside(|c| c.fs.lock().unwrap().resolve(path))
}

fn find(path: &str, follow: bool) -> Result<Found, c_int> {
    inside(|c| c.fs.lock().unwrap().find(path, follow))
}

fn describe((found, size): &(Found, bool)) -> (libc::mode_t, usize, u64) {
    match found {
        Found::File(path, _) if !size => (libc::S_IFREG | 0o644, 0, mix_str(7, path)),
        Found::File(path, content) => (libc::S_IFREG | 0o644, content.len(), mix_str(7, path)),
        Found::Dir(path) => (libc::S_IFDIR | 0o755, 4096, mix_str(8, path)),
        Found::Link(path) => (libc::S_IFLNK | 0o777, 10, mix_str(9, path)),
    }
}

fn new_fd(fd: Fd) -> c_int {
    inside(|c| {
        c.next_fd += 1;
        let n = FIRST_FD + c.next_fd;
        c.fds.insert(n, fd);
        n
    })
}

fn is_ours(fd: c_int) -> bool {
    fd > FIRST_FD && active()
}

unsafe fn open_(path: String, flags: c_int) -> c_int {
    match op("open", &path) {
        Do::Fail(e) => {
            set_errno(e);
            return -1;
        }
        _ => {}
    }
    if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT) != 0 {
        set_errno(libc::EROFS);
        return -1;
    }
    match resolve(&path) {
        Ok(Found::File(path, content)) => new_fd(Fd { content, pos: 0, path, dir: false }),
        Ok(Found::Dir(path) | Found::Link(path)) => new_fd(Fd { content: Arc::default(), pos: 0, path, dir: true }),
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match simulated(path) {
        Some(path) => open_(path, flags),
        None => original!("open64", fn(*const c_char, c_int, c_uint) -> c_int)(path, flags, mode),
    }
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match simulated(path) {
        Some(path) => open_(path, flags),
        None => original!("open", fn(*const c_char, c_int, c_uint) -> c_int)(path, flags, mode),
    }
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match simulated(path) {
        Some(path) => open_(path, flags),
        None => original!("openat64", fn(c_int, *const c_char, c_int, c_uint) -> c_int)(dir, path, flags, mode),
    }
}

unsafe fn read_(fd: c_int, buf: *mut c_void, n: usize, at: Option<usize>) -> isize {
    let path = inside(|c| c.fds.get(&fd).map(|f| f.path.clone()));
    let Some(path) = path else {
        set_errno(libc::EBADF);
        return -1;
    };
    let max = match op("read", &path) {
        Do::Fail(e) => {
            set_errno(e);
            return -1;
        }
        Do::Short(max) => max.max(1),
        _ => usize::MAX,
    };
    let result = inside(|c| {
        let f = c.fds.get_mut(&fd).unwrap();
        if f.dir {
            return Err(libc::EISDIR);
        }
        let pos = at.unwrap_or(f.pos);
        let rest = f.content.get(pos..).unwrap_or_default();
        let n = rest.len().min(n).min(max);
        unsafe { std::ptr::copy_nonoverlapping(rest.as_ptr(), buf.cast(), n) };
        if at.is_none() {
            f.pos += n;
        }
        Ok(n)
    });
    match result {
        Ok(n) => n as isize,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if is_ours(fd) {
        return read_(fd, buf, n, None);
    }
    original!("read", fn(c_int, *mut c_void, usize) -> isize)(fd, buf, n)
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, at: i64) -> isize {
    if is_ours(fd) {
        return read_(fd, buf, n, Some(at as usize));
    }
    original!("pread64", fn(c_int, *mut c_void, usize, i64) -> isize)(fd, buf, n, at)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if is_ours(fd) {
        op("close", "");
        return match inside(|c| c.fds.remove(&fd).is_some()) {
            true => 0,
            false => {
                set_errno(libc::EBADF);
                -1
            }
        };
    }
    original!("close", fn(c_int) -> c_int)(fd)
}

/// The standard library asks whether a descriptor is open before closing it. Variadic, which makes no difference
/// for the caller.
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    match is_ours(fd) {
        true => fcntl_(fd, cmd),
        false => original!("fcntl", fn(c_int, c_int, usize) -> c_int)(fd, cmd, arg),
    }
}

#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    match is_ours(fd) {
        true => fcntl_(fd, cmd),
        false => original!("fcntl64", fn(c_int, c_int, usize) -> c_int)(fd, cmd, arg),
    }
}

fn fcntl_(fd: c_int, cmd: c_int) -> c_int {
    let copy = inside(|c| {
        c.fds.get(&fd).map(|f| Fd { content: f.content.clone(), pos: f.pos, path: f.path.clone(), dir: f.dir })
    });
    match (copy, cmd) {
        (None, _) => {
            set_errno(libc::EBADF);
            -1
        }
        (Some(fd), libc::F_DUPFD | libc::F_DUPFD_CLOEXEC) => new_fd(fd),
        (Some(_), libc::F_GETFD) => libc::FD_CLOEXEC,
        _ => 0,
    }
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, parts: *const libc::iovec, n: c_int) -> isize {
    if is_ours(fd) {
        // As many as fit into the first that is not empty
        for i in 0..n.max(0) as usize {
            let part = &*parts.add(i);
            if part.iov_len > 0 {
                return read_(fd, part.iov_base, part.iov_len, None);
            }
        }
        return 0;
    }
    original!("readv", fn(c_int, *const libc::iovec, c_int) -> isize)(fd, parts, n)
}

#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, out: *mut c_char, n: usize) -> isize {
    let Some(p) = simulated(path) else {
        return original!("readlink", fn(*const c_char, *mut c_char, usize) -> isize)(path, out, n);
    };
    let found = match op("readlink", &p) {
        Do::Fail(e) => Err(e),
        _ => find(&p, false),
    };
    let to = match found {
        Ok(Found::Link(at)) => inside(|c| match c.fs.lock().unwrap().nodes.get(&at) {
            Some(Node::Link(to)) => Ok(to.clone()),
            _ => Err(libc::EINVAL),
        }),
        Ok(_) => Err(libc::EINVAL),
        Err(e) => Err(e),
    };
    match to {
        Ok(to) => {
            let n = to.len().min(n);
            std::ptr::copy_nonoverlapping(to.as_ptr(), out.cast(), n);
            n as isize
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, offset: i64, whence: c_int) -> i64 {
    if is_ours(fd) {
        return inside(|c| {
            let f = c.fds.get_mut(&fd).expect("bad file descriptor");
            let base = match whence {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => f.pos as i64,
                _ => f.content.len() as i64,
            };
            f.pos = (base + offset).max(0) as usize;
            f.pos as i64
        });
    }
    original!("lseek64", fn(c_int, i64, c_int) -> i64)(fd, offset, whence)
}

/// What it is, and whether its size is known
fn stat_target(path: Option<String>, fd: c_int, follow: bool) -> Result<(Found, bool), c_int> {
    match path {
        Some(path) => {
            if let Do::Fail(e) = op("stat", &path) {
                return Err(e);
            }
            Ok((find(&path, follow)?, true))
        }
        None => {
            let found: Result<Found, c_int> = inside(|c| {
                let f = c.fds.get(&fd).ok_or(libc::EBADF)?;
                Ok(match f.dir {
                    true => Found::Dir(f.path.clone()),
                    false => Found::File(f.path.clone(), f.content.clone()),
                })
            });
            let found = found?;
            let (Found::File(p, _) | Found::Dir(p) | Found::Link(p)) = &found;
            match op("fstat", p) {
                Do::Fail(e) => Err(e),
                Do::NoSize => Ok((found, false)),
                _ => Ok((found, true)),
            }
        }
    }
}

/// Time stamps are arbitrary
fn stamp() -> i64 {
    inside(|c| 1_600_000_000 + (mix(c.hash_seed, c.ops.len() as u64) % 100_000_000) as i64)
}

#[no_mangle]
pub unsafe extern "C" fn statx(
    dir: c_int,
    path: *const c_char,
    flags: c_int,
    mask: c_uint,
    buf: *mut libc::statx,
) -> c_int {
    let empty = !path.is_null() && *path == 0;
    let target = if empty && is_ours(dir) {
        stat_target(None, dir, true)
    } else if let (false, Some(p)) = (empty, simulated(path)) {
        stat_target(Some(p), -1, flags & libc::AT_SYMLINK_NOFOLLOW == 0)
    } else {
        return original!("statx", fn(c_int, *const c_char, c_int, c_uint, *mut libc::statx) -> c_int)(
            dir, path, flags, mask, buf,
        );
    };
    match target {
        Ok(found) => {
            let (mode, len, ino) = describe(&found);
            *buf = std::mem::zeroed();
            (*buf).stx_mask = libc::STATX_BASIC_STATS;
            (*buf).stx_mode = mode as u16;
            (*buf).stx_size = len as u64;
            (*buf).stx_ino = ino;
            (*buf).stx_nlink = 1;
            (*buf).stx_blksize = 4096;
            (*buf).stx_mtime.tv_sec = stamp();
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

unsafe fn fill(buf: *mut libc::stat64, target: Result<(Found, bool), c_int>) -> c_int {
    match target {
        Ok(found) => {
            let (mode, len, ino) = describe(&found);
            *buf = std::mem::zeroed();
            (*buf).st_mode = mode;
            (*buf).st_size = len as i64;
            (*buf).st_ino = ino;
            (*buf).st_nlink = 1;
            (*buf).st_mtime = stamp();
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut libc::stat64) -> c_int {
    match simulated(path) {
        Some(p) => fill(buf, stat_target(Some(p), -1, true)),
        None => original!("stat64", fn(*const c_char, *mut libc::stat64) -> c_int)(path, buf),
    }
}

#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut libc::stat64) -> c_int {
    match simulated(path) {
        Some(p) => fill(buf, stat_target(Some(p), -1, false)),
        None => original!("lstat64", fn(*const c_char, *mut libc::stat64) -> c_int)(path, buf),
    }
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut libc::stat64) -> c_int {
    if is_ours(fd) {
        return fill(buf, stat_target(None, fd, true));
    }
    original!("fstat64", fn(c_int, *mut libc::stat64) -> c_int)(fd, buf)
}

#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    match simulated(path) {
        Some(p) => match stat_target(Some(p), -1, true) {
            Ok(_) => 0,
            Err(e) => {
                set_errno(e);
                -1
            }
        },
        None => original!("access", fn(*const c_char, c_int) -> c_int)(path, mode),
    }
}

#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    let Some(p) = simulated(path) else {
        return original!("realpath", fn(*const c_char, *mut c_char) -> *mut c_char)(path, out);
    };
    let found = match op("realpath", &p) {
        Do::Fail(e) => Err(e),
        _ => resolve(&p),
    };
    match found {
        Ok(Found::File(p, _) | Found::Dir(p) | Found::Link(p)) => {
            let p = CString::new(p).unwrap();
            match out.is_null() {
                true => libc::strdup(p.as_ptr()),
                false => libc::strcpy(out, p.as_ptr()),
            }
        }
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: usize) -> *mut c_char {
    if !active() {
        return original!("getcwd", fn(*mut c_char, usize) -> *mut c_char)(buf, n);
    }
    op("getcwd", "");
    let cwd = inside(|c| CString::new(c.cwd.clone()).unwrap());
    if cwd.as_bytes_with_nul().len() > n {
        set_errno(libc::ERANGE);
        return std::ptr::null_mut();
    }
    libc::strcpy(buf, cwd.as_ptr())
}

/// The environment holds whatever it holds, apart from what cargo sets
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    const VALUES: [&CStr; 8] =
        [c"/simfs/cwd", c"/simfs", c"/simfs/pkg/templates", c"/simfs/nowhere", c"1", c"0", c"", c"debug"];
    let real = || original!("getenv", fn(*const c_char) -> *mut c_char)(name);
    if name.is_null() || !active() {
        return real();
    }
    let text = CStr::from_ptr(name).to_string_lossy();
    let seed = inside(|c| c.hash_seed);
    if seed == 0 || text == "CARGO_MANIFEST_DIR" || text.starts_with("RUST_") {
        return real();
    }
    match mix_str(seed, &text) % 3 {
        0 => std::ptr::null_mut(),
        n => VALUES[(mix_str(seed ^ n, &text) / 3 % 8) as usize].as_ptr().cast_mut(),
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: c_uint) -> isize {
    if !active() {
        return original!("getrandom", fn(*mut c_void, usize, c_uint) -> isize)(buf, n, flags);
    }
    op("random", "");
    inside(|c| {
        let out = unsafe { std::slice::from_raw_parts_mut(buf.cast::<u8>(), n) };
        for b in out {
            c.randoms += 1;
            *b = mix(c.hash_seed, c.randoms) as u8;
        }
    });
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    let Some(p) = simulated(path) else {
        return original!("opendir", fn(*const c_char) -> *mut c_void)(path);
    };
    let found = match op("opendir", &p) {
        Do::Fail(e) => Err(e),
        _ => resolve(&p),
    };
    match found {
        Ok(Found::Dir(p)) => {
            let dir = inside(|c| {
                let prefix = format!("{}/", p.trim_end_matches('/'));
                let fs = c.fs.lock().unwrap();
                let mut entries: Vec<(String, bool)> = Vec::new();
                for name in fs.nodes.keys().filter_map(|k| k.strip_prefix(&prefix)) {
                    let (name, dir) = match name.split_once('/') {
                        Some((name, _)) => (name.to_owned(), true),
                        None => (name.to_owned(), false),
                    };
                    if !entries.iter().any(|e| e.0 == name) {
                        entries.push((name, dir));
                    }
                }
                // In an arbitrary order
                entries.sort_by_key(|e| mix_str(c.hash_seed, &e.0));
                Box::new(Dir { entries, at: 0, buf: unsafe { std::mem::zeroed() } })
            });
            // Marked, to tell it from a real one
            (Box::into_raw(dir) as usize | 1) as *mut c_void
        }
        Ok(_) => {
            set_errno(libc::ENOTDIR);
            std::ptr::null_mut()
        }
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(dir: *mut c_void) -> *mut libc::dirent64 {
    if dir as usize & 1 == 0 {
        return original!("readdir64", fn(*mut c_void) -> *mut libc::dirent64)(dir);
    }
    let dir = &mut *((dir as usize & !1) as *mut Dir);
    op("readdir", "");
    let Some((name, is_dir)) = dir.entries.get(dir.at) else {
        return std::ptr::null_mut();
    };
    dir.at += 1;
    dir.buf.d_ino = dir.at as u64;
    dir.buf.d_type = if *is_dir { libc::DT_DIR } else { libc::DT_REG };
    for (to, from) in dir.buf.d_name.iter_mut().zip(name.bytes().chain([0])) {
        *to = from as c_char;
    }
    dir.buf.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
    &mut dir.buf
}

#[no_mangle]
pub unsafe extern "C" fn closedir(dir: *mut c_void) -> c_int {
    if dir as usize & 1 == 0 {
        return original!("closedir", fn(*mut c_void) -> c_int)(dir);
    }
    drop(Box::from_raw((dir as usize & !1) as *mut Dir));
    0
}

#[no_mangle]
pub unsafe extern "C" fn dirfd(dir: *mut c_void) -> c_int {
    if dir as usize & 1 == 0 {
        return original!("dirfd", fn(*mut c_void) -> c_int)(dir);
    }
    set_errno(libc::ENOTSUP);
    -1
}
