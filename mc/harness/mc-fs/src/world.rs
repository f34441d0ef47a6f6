//! Scratch directories and pictures of them.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

static ROOT: OnceLock<PathBuf> = OnceLock::new();

/// The directory that everything happens in.
pub fn root() -> &'static Path {
    ROOT.get_or_init(|| {
        let name = format!("mc-fs-{}", std::process::id());
        let shm = Path::new("/dev/shm").join(&name);
        let r = if std::fs::create_dir(&shm).is_ok() { shm } else { std::env::temp_dir().join(&name) };
        std::fs::create_dir_all(&r).unwrap();
        r.canonicalize().unwrap()
    })
}

pub fn clean() {
    let _ = std::fs::remove_dir_all(root());
}

static SEQ: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static MINE: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}

/// An empty directory of this OS thread. Always the same path.
pub fn fresh() -> PathBuf {
    let d = MINE.with(|m| {
        m.borrow_mut().get_or_insert_with(|| root().join(format!("w{}", SEQ.fetch_add(1, Ordering::Relaxed)))).clone()
    });
    if d.exists() {
        std::fs::remove_dir_all(&d).unwrap();
    }
    std::fs::create_dir_all(&d).unwrap();
    d
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Node {
    File { mode: u32, content: Vec<u8> },
    Dir { mode: u32 },
    Link(PathBuf),
    Other,
}

impl std::fmt::Debug for Node {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Node::File { mode, content } => write!(f, "file {mode:o} {:?}", brief(content)),
            Node::Dir { mode } => write!(f, "dir {mode:o}"),
            Node::Link(p) => write!(f, "-> {}", crate::sys::shown(p)),
            Node::Other => write!(f, "other"),
        }
    }
}

pub fn brief(b: &[u8]) -> String {
    if b.len() > 40 {
        format!("{} bytes {}..{}", b.len(), String::from_utf8_lossy(&b[..8]).escape_default(), String::from_utf8_lossy(&b[b.len() - 8..]).escape_default())
    } else {
        String::from_utf8_lossy(b).into_owned()
    }
}

pub type Picture = BTreeMap<String, Node>;

/// Everything below a directory, by relative path.
pub fn picture(dir: &Path) -> Picture {
    fn walk(root: &Path, dir: &Path, at: &Path, out: &mut Picture) {
        let Ok(rd) = std::fs::read_dir(dir.join(at)) else { return };
        for e in rd.flatten() {
            let rel = at.join(e.file_name());
            let p = dir.join(&rel);
            let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
            let mode = m.mode() & 0o7777;
            let node = if m.is_symlink() {
                // The scratch directory differs between the workers.
                let to = std::fs::read_link(&p).unwrap();
                Node::Link(to.strip_prefix(root).map_or(to.clone(), |r| Path::new("@").join(r)))
            } else if m.is_dir() {
                walk(root, dir, &rel, out);
                Node::Dir { mode }
            } else if m.is_file() {
                Node::File { mode, content: std::fs::read(&p).unwrap_or_default() }
            } else {
                Node::Other
            };
            out.insert(rel.display().to_string(), node);
        }
    }
    let mut out = Picture::new();
    let mine = MINE.with(|m| m.borrow().clone());
    walk(mine.as_deref().unwrap_or(dir), dir, Path::new(""), &mut out);
    out
}

pub fn put(p: &Path, content: &[u8], mode: u32) {
    std::fs::write(p, content).unwrap();
    std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode)).unwrap();
}

/// What one execution did.
pub struct Did<T> {
    /// None if the main thread was killed.
    pub value: Option<T>,
    pub events: Vec<crate::sys::Event>,
    pub broken: Option<String>,
    pub dead: u64,
}

impl<T> Did<T> {
    /// What was done to the calls, for messages.
    pub fn disturbances(&self) -> Vec<String> {
        use crate::sys::Act;
        self.events.iter().filter(|e| e.act != Act::Run).map(|e| format!("{:?} {:?}", e.kind, e.act)).collect()
    }

    /// Whether nothing happened but what a caller need not notice: cut reads
    /// and writes, and interruptions of what is always repeated.
    pub fn gentle(&self) -> bool {
        use crate::sys::{Act, Kind};
        self.events.iter().all(|e| match e.act {
            Act::Run | Act::Short => true,
            Act::Fail(libc::EINTR) => matches!(e.kind, Kind::Read | Kind::Write),
            _ => false,
        })
    }
}

/// Runs `f` as the main model thread under the rules.
pub fn act<T: Send + 'static>(
    ch: &mut mccore::explore::Chooser,
    rules: crate::sys::Rules,
    monitor: Option<Box<dyn FnMut() -> Result<(), String>>>,
    what: &str,
    f: impl FnOnce() -> T + Send + 'static,
) -> Result<Did<T>, mccore::explore::Fail> {
    use mccore::rt::{self, End};
    crate::sys::arm(rules, monitor);
    let r = rt::run(ch, rt::Opts::default(), f);
    let (events, broken) = crate::sys::disarm();
    let dead = crate::sys::take_dead();
    match &r.end {
        End::Done { leaked } if leaked.is_empty() => {}
        e => return Err(mccore::explore::Fail::new(format!("{what} does not return"), format!("{e:?} {:?}", r.panics))),
    }
    Ok(Did { value: r.value, events, broken, dead })
}
