//! The file system calls of model threads as scheduling points with faults.
//!
//! A seccomp filter traps every file system call of this process that does
//! not come from [`raw`]; the handler of the trap runs on the stack of the
//! calling coroutine, lets the explorer decide who goes on, whether the call
//! fails, is cut short or is the last one of its thread, and then issues it.
//! Outside of model threads the handler just issues the call. The calls
//! therefore work on real files.

use std::cell::{Cell, RefCell};
use std::ffi::CStr;
use std::path::{Path, PathBuf};

use libc::{c_long, c_void};
use mccore::rt;

std::arch::global_asm!(
    ".text",
    ".p2align 4",
    ".globl mcfs_raw",
    "mcfs_raw:",
    "mov rax, rdi",
    "mov rdi, rsi",
    "mov rsi, rdx",
    "mov rdx, rcx",
    "mov r10, r8",
    "mov r8, r9",
    "mov r9, [rsp + 8]",
    "syscall",
    ".globl mcfs_raw_ip",
    "mcfs_raw_ip:",
    "ret",
);

extern "C" {
    fn mcfs_raw(nr: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize;
    fn mcfs_raw_ip();
}

type Args = [usize; 6];

fn raw(nr: c_long, a: Args) -> isize {
    // SAFETY: the arguments are those of the caller's system call.
    unsafe { mcfs_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Open,
    Close,
    Read,
    Write,
    /// Moves data within the kernel.
    Transfer,
    Truncate,
    Stat,
    FStat,
    Rename,
    Link,
    Symlink,
    Unlink,
    Mkdir,
    Chmod,
    List,
    Lock,
    Sync,
    /// Concerns nobody else, and cannot fail in a way worth exploring.
    Local,
}

fn classify(nr: c_long) -> Option<Kind> {
    use libc::*;
    use Kind::*;
    #[allow(unreachable_patterns)]
    Some(match nr {
        SYS_open | SYS_openat | SYS_openat2 | SYS_creat => Open,
        SYS_close => Close,
        SYS_read | SYS_pread64 | SYS_readv | SYS_preadv => Read,
        SYS_write | SYS_pwrite64 | SYS_writev | SYS_pwritev => Write,
        SYS_copy_file_range | SYS_sendfile | SYS_splice => Transfer,
        SYS_ftruncate | SYS_truncate | SYS_fallocate => Truncate,
        SYS_stat | SYS_lstat | SYS_access | SYS_faccessat | SYS_faccessat2 | SYS_readlink | SYS_readlinkat | SYS_statfs => Stat,
        // By descriptor when the path is empty.
        SYS_newfstatat | SYS_statx => Stat,
        SYS_fstat | SYS_fstatfs => FStat,
        SYS_rename | SYS_renameat | SYS_renameat2 => Rename,
        SYS_link | SYS_linkat => Link,
        SYS_symlink | SYS_symlinkat => Symlink,
        SYS_unlink | SYS_unlinkat | SYS_rmdir => Unlink,
        SYS_mkdir | SYS_mkdirat => Mkdir,
        SYS_chmod | SYS_fchmod | SYS_fchmodat | 452 | SYS_chown | SYS_fchown | SYS_lchown | SYS_fchownat | SYS_utimensat => Chmod,
        SYS_getdents64 => List,
        SYS_flock => Lock,
        SYS_fsync | SYS_fdatasync => Sync,
        SYS_lseek | SYS_fcntl | SYS_dup | SYS_dup3 => Local,
        _ => return None,
    })
}

/// What the environment does to a call.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Act {
    Run,
    Fail(i32),
    /// Transfers less than asked for.
    Short,
    /// The thread dies before the call.
    Kill,
    /// The thread dies in the middle of the call.
    Torn,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub tid: usize,
    pub kind: Kind,
    pub path: Option<PathBuf>,
    pub act: Act,
    pub ret: isize,
}

/// What may happen to the calls of which threads (bit masks of thread ids).
#[derive(Clone, Copy, Debug, Default)]
pub struct Rules {
    pub fail: u64,
    pub short: u64,
    pub kill: u64,
}

type Monitor = Box<dyn FnMut() -> Result<(), String>>;

thread_local! {
    static RULES: Cell<Rules> = const { Cell::new(Rules { fail: 0, short: 0, kill: 0 }) };
    static SETTING: Cell<i32> = const { Cell::new(-1) };
    static PASS: Cell<bool> = const { Cell::new(false) };
    static EVENTS: RefCell<Vec<Event>> = const { RefCell::new(vec![]) };
    static OPEN: RefCell<Vec<(i32, usize)>> = const { RefCell::new(vec![]) };
    static MONITOR: RefCell<Option<Monitor>> = const { RefCell::new(None) };
    static BROKEN: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Prepares an execution.
pub fn arm(rules: Rules, monitor: Option<Monitor>) {
    RULES.with(|r| r.set(rules));
    EVENTS.with(|e| e.borrow_mut().clear());
    OPEN.with(|o| o.borrow_mut().clear());
    BROKEN.with(|b| *b.borrow_mut() = None);
    MONITOR.with(|m| *m.borrow_mut() = monitor);
}

/// Ends an execution: its calls, and what the monitor objected to.
pub fn disarm() -> (Vec<Event>, Option<String>) {
    RULES.with(|r| r.set(Rules::default()));
    MONITOR.with(|m| m.borrow_mut().take());
    // What dead threads had open is closed already; others close themselves.
    OPEN.with(|o| o.borrow_mut().clear());
    (EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut())), BROKEN.with(|b| b.borrow_mut().take()))
}

/// Looks at the files without being observed.
pub fn pass<T>(f: impl FnOnce() -> T) -> T {
    let old = PASS.with(|p| p.replace(true));
    let r = f();
    PASS.with(|p| p.set(old));
    r
}

/// Whether anything was done to the calls.
pub fn disturbed(events: &[Event]) -> bool {
    events.iter().any(|e| e.act != Act::Run)
}

fn path_of(kind: Kind, nr: c_long, a: &Args) -> Option<PathBuf> {
    use std::os::unix::ffi::OsStrExt;
    let at = match nr {
        libc::SYS_openat | libc::SYS_openat2 | libc::SYS_newfstatat | libc::SYS_statx | libc::SYS_unlinkat | libc::SYS_mkdirat
        | libc::SYS_fchmodat | libc::SYS_faccessat | libc::SYS_faccessat2 | libc::SYS_readlinkat | libc::SYS_utimensat | 452 => a[1],
        libc::SYS_linkat | libc::SYS_renameat | libc::SYS_renameat2 => a[3],
        libc::SYS_symlinkat => a[2],
        libc::SYS_rename | libc::SYS_link | libc::SYS_symlink => a[1],
        libc::SYS_fchmod | libc::SYS_fchown => 0,
        _ if matches!(kind, Kind::Open | Kind::Stat | Kind::Unlink | Kind::Mkdir | Kind::Chmod) => a[0],
        libc::SYS_truncate => a[0],
        _ => 0,
    };
    if at == 0 {
        return None;
    }
    // SAFETY: a path argument of a system call.
    let s = unsafe { CStr::from_ptr(at as *const _) };
    Some(Path::new(std::ffi::OsStr::from_bytes(s.to_bytes())).to_path_buf())
}

/// The length argument of a transfer, by position.
fn length_at(nr: c_long) -> Option<usize> {
    match nr {
        libc::SYS_read | libc::SYS_write | libc::SYS_pread64 | libc::SYS_pwrite64 => Some(2),
        libc::SYS_sendfile => Some(3),
        libc::SYS_copy_file_range | libc::SYS_splice => Some(4),
        _ => None,
    }
}

const ERR: isize = -1;

fn failures(kind: Kind, creates: bool) -> &'static [i32] {
    use libc::*;
    match kind {
        Kind::Open if creates => &[EINTR, EMFILE, ENOSPC],
        Kind::Open => &[EINTR, EMFILE],
        Kind::Read => &[EINTR, EIO],
        Kind::Write => &[EINTR, ENOSPC],
        Kind::Transfer => &[EXDEV, EIO],
        Kind::Truncate | Kind::Stat | Kind::FStat | Kind::Symlink | Kind::Chmod | Kind::List | Kind::Sync => &[EIO],
        Kind::Rename => &[EIO, EXDEV],
        Kind::Link => &[EXDEV, EMLINK],
        Kind::Unlink => &[EIO, EACCES],
        Kind::Mkdir => &[ENOSPC],
        Kind::Lock => &[EINTR, ENOLCK],
        Kind::Close | Kind::Local => &[],
    }
}

fn label(kind: Kind) -> &'static str {
    match kind {
        Kind::Open => "open",
        Kind::Close => "close",
        Kind::Read => "read",
        Kind::Write => "write",
        Kind::Transfer => "transfer",
        Kind::Truncate => "truncate",
        Kind::Stat | Kind::FStat => "stat",
        Kind::Rename => "rename",
        Kind::Link => "link",
        Kind::Symlink => "symlink",
        Kind::Unlink => "unlink",
        Kind::Mkdir => "mkdir",
        Kind::Chmod => "chmod",
        Kind::List => "list",
        Kind::Lock => "flock",
        Kind::Sync => "sync",
        Kind::Local => "local",
    }
}

fn die(tid: usize) -> ! {
    let mine: Vec<i32> = OPEN.with(|o| {
        let mut o = o.borrow_mut();
        let mine = o.iter().filter(|x| x.1 == tid).map(|x| x.0).collect();
        o.retain(|x| x.1 != tid);
        mine
    });
    for fd in mine {
        raw(libc::SYS_close, [fd as usize, 0, 0, 0, 0, 0]);
    }
    DYING.with(|d| d.set(d.get() | 1 << tid));
    monitor();
    rt::abandon()
}

thread_local! {
    static DYING: Cell<u64> = const { Cell::new(0) };
}

/// The threads that were killed since the last call.
pub fn take_dead() -> u64 {
    DYING.with(|d| d.replace(0))
}

/// The threads that were killed so far.
pub fn peek_dead() -> u64 {
    DYING.with(|d| d.get())
}

fn monitor() {
    let m = MONITOR.with(|m| m.borrow_mut().take());
    if let Some(mut m) = m {
        let r = pass(&mut m);
        if let Err(e) = r {
            rt::note(|| format!("monitor: {e}"));
            BROKEN.with(|b| {
                b.borrow_mut().get_or_insert(e);
            });
        }
        MONITOR.with(|slot| *slot.borrow_mut() = Some(m));
    }
}

fn dispatch(nr: c_long, mut a: Args) -> isize {
    let Some(mut kind) = classify(nr) else { return raw(nr, a) };
    if !rt::active() || PASS.with(|p| p.get()) || kind == Kind::Local {
        return raw(nr, a);
    }
    if matches!(kind, Kind::Read | Kind::Write | Kind::Close) && a[0] <= 2 {
        return raw(nr, a);
    }
    // The allocator reads a setting while it holds its lock: nothing may be
    // allocated here.
    // SAFETY: the path argument of the system call.
    if nr == libc::SYS_openat && unsafe { CStr::from_ptr(a[1] as *const _) }.to_bytes().starts_with(b"/proc/") {
        let r = raw(nr, a);
        SETTING.with(|s| s.set(r as i32));
        return r;
    }
    if matches!(kind, Kind::Read | Kind::Close | Kind::FStat) && SETTING.with(|s| s.get()) == a[0] as i32 {
        if kind == Kind::Close {
            SETTING.with(|s| s.set(-1));
        }
        return raw(nr, a);
    }
    let tid = rt::tid();
    let path = path_of(kind, nr, &a);
    if kind == Kind::Stat && path.as_ref().is_some_and(|p| p.as_os_str().is_empty()) {
        kind = Kind::FStat;
    }
    // Whoever is not of the scratch directory is none of our business.
    if path.as_ref().is_some_and(|p| p.is_absolute() && !p.starts_with(crate::root())) {
        return raw(nr, a);
    }
    if !rt::point_nounwind(label(kind)) {
        if kind == Kind::Lock {
            a[1] |= libc::LOCK_NB as usize;
        }
        return raw(nr, a);
    }
    let rules = RULES.with(|r| r.get());
    let on = |m: u64| m >> tid & 1 == 1;
    let mut acts = vec![Act::Run];
    let creates = match nr {
        libc::SYS_openat => a[2] & libc::O_CREAT as usize != 0,
        libc::SYS_open => a[1] & libc::O_CREAT as usize != 0,
        libc::SYS_creat => true,
        _ => false,
    };
    if on(rules.fail) {
        acts.extend(failures(kind, creates).iter().map(|e| Act::Fail(*e)));
    }
    let long = length_at(nr).is_some_and(|p| a[p] > 1);
    if on(rules.short) && long {
        acts.push(Act::Short);
    }
    if on(rules.kill) && kind != Kind::FStat {
        acts.push(Act::Kill);
        if kind == Kind::Write && long {
            acts.push(Act::Torn);
        }
    }
    let act = if acts.len() > 1 { acts[rt::deviate("what happens", acts.len())] } else { Act::Run };
    let note = |ret: isize| {
        rt::note(|| format!("{} {}: {act:?} -> {ret}", label(kind), path.as_ref().map_or(String::new(), |p| shown(p))));
        EVENTS.with(|e| e.borrow_mut().push(Event { tid, kind, path: path.clone(), act, ret }));
    };
    let cut = |mut a: Args| {
        let p = length_at(nr).unwrap();
        a[p] = if kind == Kind::Read { 1 } else { a[p].div_ceil(2).min(a[p] - 1) };
        a
    };
    let ret = match act {
        Act::Fail(e) => -(e as isize),
        Act::Short => raw(nr, cut(a)),
        Act::Run if kind == Kind::Lock && a[1] & libc::LOCK_NB as usize == 0 && a[1] & libc::LOCK_UN as usize == 0 => {
            a[1] |= libc::LOCK_NB as usize;
            loop {
                let r = raw(nr, a);
                if r != -(libc::EWOULDBLOCK as isize) {
                    break r;
                }
                let free = move || {
                    let ok = raw(libc::SYS_flock, a) == 0;
                    if ok {
                        raw(libc::SYS_flock, [a[0], libc::LOCK_UN as usize, 0, 0, 0, 0]);
                    }
                    ok
                };
                if !rt::block_nounwind("flock", free) {
                    return -(libc::EINTR as isize);
                }
            }
        }
        Act::Run => raw(nr, a),
        Act::Kill => {
            note(ERR);
            die(tid)
        }
        Act::Torn => {
            let r = raw(nr, cut(a));
            note(r);
            die(tid)
        }
    };
    if ret >= 0 {
        match kind {
            Kind::Open => OPEN.with(|o| o.borrow_mut().push((ret as i32, tid))),
            Kind::Close => OPEN.with(|o| o.borrow_mut().retain(|x| x.0 != a[0] as i32)),
            _ => {}
        }
    }
    note(ret);
    monitor();
    ret
}

/// A path below the scratch directory, for logs; the random ends of names are
/// masked.
pub fn shown(p: &Path) -> String {
    let mask = |c: &str| {
        if c.starts_with(".tmp") {
            return ".tmp*".to_string();
        }
        let random = c.bytes().rev().take_while(|b| b.is_ascii_alphanumeric()).count() >= 6;
        if random {
            format!("{}*", &c[..c.len() - 6])
        } else {
            c.to_string()
        }
    };
    let p = p.strip_prefix(crate::root()).unwrap_or(p).display().to_string();
    p.split('/').map(mask).collect::<Vec<_>>().join("/")
}

unsafe extern "C" fn on_trap(_sig: i32, info: *mut libc::siginfo_t, ctx: *mut c_void) {
    // SAFETY: the kernel fills both; a seccomp trap keeps the registers of
    // the call.
    unsafe {
        let uc = &mut *(ctx as *mut libc::ucontext_t);
        let r = &mut uc.uc_mcontext.gregs;
        // After si_signo, si_errno, si_code and padding: the address, then
        // the number of the call.
        let nr = *((info as *const u8).add(24) as *const i32) as c_long;
        let reg = |i: i32| r[i as usize] as usize;
        let args = [reg(libc::REG_RDI), reg(libc::REG_RSI), reg(libc::REG_RDX), reg(libc::REG_R10), reg(libc::REG_R8), reg(libc::REG_R9)];
        let errno = *libc::__errno_location();
        let ret = dispatch(nr, args);
        *libc::__errno_location() = errno;
        let r = &mut uc.uc_mcontext.gregs;
        r[libc::REG_RAX as usize] = ret as i64;
    }
}

/// Traps the file system calls of this thread and those it will start.
pub fn install() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        // The handler switches coroutines: no mask may stay behind.
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        assert_eq!(libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut()), 0);
    }
    let ins = |code: u32, jt: usize, jf: usize, k: u32| libc::sock_filter { code: code as u16, jt: jt as u8, jf: jf as u8, k };
    const LD: u32 = 0x20; // BPF_LD | BPF_W | BPF_ABS
    const JEQ: u32 = 0x15; // BPF_JMP | BPF_JEQ | BPF_K
    const RET: u32 = 0x06;
    const ALLOW: u32 = 0x7fff_0000;
    const TRAP: u32 = 0x0003_0000;
    let ip = mcfs_raw_ip as *const () as usize as u64;
    let calls: Vec<u32> = (0..500).filter(|n| classify(*n).is_some_and(|k| k != Kind::Local)).map(|n| n as u32).collect();
    let mut f = vec![ins(LD, 0, 0, 4), ins(JEQ, 1, 0, 0xc000_003e), ins(RET, 0, 0, ALLOW), ins(LD, 0, 0, 0)];
    for (i, c) in calls.iter().enumerate() {
        // To the check of the address, over the rest and the permission.
        f.push(ins(JEQ, calls.len() - i, 0, *c));
    }
    f.push(ins(RET, 0, 0, ALLOW));
    f.push(ins(LD, 0, 0, 8));
    f.push(ins(JEQ, 0, 3, ip as u32));
    f.push(ins(LD, 0, 0, 12));
    f.push(ins(JEQ, 0, 1, (ip >> 32) as u32));
    f.push(ins(RET, 0, 0, ALLOW));
    f.push(ins(RET, 0, 0, TRAP));
    let prog = libc::sock_fprog { len: f.len() as u16, filter: f.as_mut_ptr() };
    unsafe {
        assert_eq!(libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0), 0);
        assert_eq!(libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &prog), 0, "no seccomp filter");
    }
}
