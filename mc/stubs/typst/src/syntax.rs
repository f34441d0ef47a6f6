use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::ops::Range;
use std::path::{Component, Path, PathBuf};
use std::sync::{Arc, Mutex};

use package::PackageSpec;

pub mod package {
    use ecow::EcoString;
    use std::fmt;
    use std::str::FromStr;

    use serde::Deserialize;

    #[derive(Debug, Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
    pub struct PackageVersion {
        pub major: u32,
        pub minor: u32,
        pub patch: u32,
    }
    impl fmt::Display for PackageVersion {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{}.{}.{}", self.major, self.minor, self.patch)
        }
    }
    impl FromStr for PackageVersion {
        type Err = EcoString;
        fn from_str(s: &str) -> Result<Self, EcoString> {
            let mut v = s.split('.').map(|n| n.parse().ok());
            let mut next = || v.next().flatten().ok_or("bad version");
            let r = PackageVersion { major: next()?, minor: next()?, patch: next()? };
            match v.next() {
                None => Ok(r),
                Some(_) => Err("bad version".into()),
            }
        }
    }
    impl<'de> serde::Deserialize<'de> for PackageVersion {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let s = String::deserialize(d)?;
            s.parse().map_err(serde::de::Error::custom)
        }
    }
    #[derive(Clone, Eq, PartialEq, Hash)]
    pub struct VersionlessPackageSpec {
        pub namespace: EcoString,
        pub name: EcoString,
    }
    impl fmt::Display for VersionlessPackageSpec {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "@{}/{}", self.namespace, self.name)
        }
    }
    #[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
    pub struct PackageSpec {
        pub namespace: EcoString,
        pub name: EcoString,
        pub version: PackageVersion,
    }
    impl fmt::Display for PackageSpec {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "@{}/{}:{}", self.namespace, self.name, self.version)
        }
    }
    impl fmt::Debug for PackageSpec {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            fmt::Display::fmt(self, f)
        }
    }
    impl FromStr for PackageSpec {
        type Err = EcoString;
        fn from_str(s: &str) -> Result<Self, EcoString> {
            let parse = || {
                let (ns, rest) = s.strip_prefix('@')?.split_once('/')?;
                let (name, v) = rest.split_once(':')?;
                let mut v = v.split('.').map(|n| n.parse().ok());
                Some(PackageSpec {
                    namespace: ns.into(),
                    name: name.into(),
                    version: PackageVersion { major: v.next()??, minor: v.next()??, patch: v.next()?? },
                })
            };
            parse().ok_or_else(|| "bad package".into())
        }
    }
}

/// An absolute path in the virtual file system of a project or package.
#[derive(Clone, Eq, PartialEq, Hash, Ord, PartialOrd)]
pub struct VirtualPath(PathBuf);

impl VirtualPath {
    pub fn new(path: impl AsRef<Path>) -> Self {
        let mut out = Path::new(&Component::RootDir).to_path_buf();
        for component in path.as_ref().components() {
            match component {
                Component::Prefix(_) | Component::RootDir => {}
                Component::CurDir => {}
                Component::ParentDir => match out.components().next_back() {
                    Some(Component::Normal(_)) => {
                        out.pop();
                    }
                    _ => out.push(component),
                },
                Component::Normal(_) => out.push(component),
            }
        }
        Self(out)
    }
    pub fn within_root(path: &Path, root: &Path) -> Option<Self> {
        path.strip_prefix(root).ok().map(Self::new)
    }
    pub fn as_rooted_path(&self) -> &Path {
        &self.0
    }
    pub fn as_rootless_path(&self) -> &Path {
        self.0.strip_prefix(Component::RootDir).unwrap_or(&self.0)
    }
    pub fn resolve(&self, root: &Path) -> Option<PathBuf> {
        let root_len = root.as_os_str().len();
        let mut out = root.to_path_buf();
        for component in self.0.components() {
            match component {
                Component::Prefix(_) | Component::RootDir | Component::CurDir => {}
                Component::ParentDir => {
                    out.pop();
                    if out.as_os_str().len() < root_len {
                        return None;
                    }
                }
                Component::Normal(_) => out.push(component),
            }
        }
        Some(out)
    }
    pub fn join(&self, path: impl AsRef<Path>) -> Self {
        if let Some(parent) = self.0.parent() {
            Self::new(parent.join(path))
        } else {
            Self::new(path)
        }
    }
    pub fn with_extension(&self, ext: impl AsRef<std::ffi::OsStr>) -> Self {
        Self(self.0.with_extension(ext))
    }
}
impl fmt::Debug for VirtualPath {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(&self.0.display(), f)
    }
}

type Pair = (Option<PackageSpec>, VirtualPath);

/// Every pair ever used lives for ever.
static POOL: Mutex<Option<HashMap<Pair, &'static Pair>>> = Mutex::new(None);

fn pooled(p: Pair) -> &'static Pair {
    let mut g = POOL.lock().unwrap_or_else(|e| e.into_inner());
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(r) = m.get(&p) {
        return r;
    }
    let r: &'static Pair = Box::leak(Box::new(p.clone()));
    m.insert(p, r);
    r
}

#[derive(Default)]
struct Ids {
    to: HashMap<&'static Pair, FileId>,
    from: Vec<&'static Pair>,
}

#[cfg(feature = "mc")]
fn with_ids<T>(f: impl FnOnce(&mut Ids) -> T) -> T {
    thread_local!(static IDS: RefCell<Ids> = RefCell::default());
    IDS.with(|i| f(&mut i.borrow_mut()))
}
#[cfg(not(feature = "mc"))]
fn with_ids<T>(f: impl FnOnce(&mut Ids) -> T) -> T {
    static IDS: Mutex<Option<Ids>> = Mutex::new(None);
    let _ = RefCell::new(());
    f(IDS.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(Ids::default))
}

/// Forgets all file ids.
#[doc(hidden)]
pub fn reset_file_ids() {
    with_ids(|i| *i = Ids::default());
}

#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub struct FileId(u16);

impl FileId {
    pub fn new(package: Option<PackageSpec>, path: VirtualPath) -> Self {
        let p = pooled((package, path));
        with_ids(|i| {
            if let Some(id) = i.to.get(p) {
                return *id;
            }
            i.from.push(p);
            let id = FileId(u16::try_from(i.from.len()).expect("out of file ids"));
            i.to.insert(p, id);
            id
        })
    }
    fn pair(&self) -> &'static Pair {
        with_ids(|i| i.from[self.0 as usize - 1])
    }
    pub fn package(&self) -> Option<&'static PackageSpec> {
        self.pair().0.as_ref()
    }
    pub fn vpath(&self) -> &'static VirtualPath {
        &self.pair().1
    }
    pub fn join(self, path: &str) -> Self {
        Self::new(self.package().cloned(), self.vpath().join(path))
    }
}
impl fmt::Debug for FileId {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let (package, path) = self.pair();
        match package {
            Some(package) => write!(f, "{package:?}{path:?}"),
            None => write!(f, "{path:?}"),
        }
    }
}

/// A place in a file.
#[derive(Debug, Clone, Copy, Eq, PartialEq, Hash)]
pub struct Span(Option<(FileId, usize)>);
impl Span {
    pub const fn detached() -> Self {
        Span(None)
    }
    pub fn line(id: FileId, line: usize) -> Self {
        Span(Some((id, line)))
    }
    pub fn is_detached(self) -> bool {
        self.0.is_none()
    }
    pub fn id(self) -> Option<FileId> {
        self.0.map(|s| s.0)
    }
}

pub fn is_newline(c: char) -> bool {
    matches!(c, '\n' | '\x0B' | '\x0C' | '\r' | '\u{0085}' | '\u{2028}' | '\u{2029}')
}

#[derive(Clone)]
pub struct Source(Arc<Inner>);
#[derive(Clone, Hash, PartialEq, Eq)]
struct Inner {
    id: FileId,
    text: String,
    /// The byte and UTF-16 offsets of the starts of the lines.
    lines: Vec<(usize, usize)>,
}

fn line_starts(text: &str) -> Vec<(usize, usize)> {
    let mut v = vec![(0, 0)];
    let (mut b, mut u) = (0, 0);
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        b += c.len_utf8();
        u += c.len_utf16();
        if is_newline(c) && !(c == '\r' && it.peek() == Some(&'\n')) {
            v.push((b, u));
        }
    }
    v
}

impl Source {
    pub fn new(id: FileId, text: String) -> Self {
        let lines = line_starts(&text);
        Source(Arc::new(Inner { id, text, lines }))
    }
    pub fn detached(text: impl Into<String>) -> Self {
        Self::new(FileId::new(None, VirtualPath::new("main.typ")), text.into())
    }
    pub fn id(&self) -> FileId {
        self.0.id
    }
    pub fn text(&self) -> &str {
        &self.0.text
    }
    pub fn get(&self, range: Range<usize>) -> Option<&str> {
        self.text().get(range)
    }
    /// Replaces the text where it differs and returns the changed range.
    pub fn replace(&mut self, new: &str) -> Range<usize> {
        let old = self.text();
        let mut prefix = old.bytes().zip(new.bytes()).take_while(|(x, y)| x == y).count();
        if prefix == old.len() && prefix == new.len() {
            return 0..0;
        }
        while !old.is_char_boundary(prefix) || !new.is_char_boundary(prefix) {
            prefix -= 1;
        }
        let mut suffix = old[prefix..].bytes().rev().zip(new[prefix..].bytes().rev()).take_while(|(x, y)| x == y).count();
        while !old.is_char_boundary(old.len() - suffix) || !new.is_char_boundary(new.len() - suffix) {
            suffix -= 1;
        }
        *self = Source::new(self.id(), new.to_string());
        prefix..new.len() - suffix
    }
    pub fn edit(&mut self, replace: Range<usize>, with: &str) -> Range<usize> {
        let mut t = self.text().to_string();
        let start = replace.start;
        t.replace_range(replace, with);
        *self = Source::new(self.id(), t);
        start..start + with.len()
    }
    pub fn len_bytes(&self) -> usize {
        self.text().len()
    }
    pub fn len_utf16(&self) -> usize {
        self.text().chars().map(char::len_utf16).sum()
    }
    pub fn len_lines(&self) -> usize {
        self.0.lines.len()
    }
    pub fn byte_to_utf16(&self, byte: usize) -> Option<usize> {
        Some(self.text().get(..byte)?.chars().map(char::len_utf16).sum())
    }
    pub fn byte_to_line(&self, byte: usize) -> Option<usize> {
        (byte <= self.len_bytes()).then(|| match self.0.lines.binary_search_by_key(&byte, |l| l.0) {
            Ok(i) => i,
            Err(i) => i - 1,
        })
    }
    pub fn byte_to_column(&self, byte: usize) -> Option<usize> {
        let line = self.byte_to_line(byte)?;
        let start = self.line_to_byte(line)?;
        Some(self.get(start..byte)?.chars().count())
    }
    pub fn utf16_to_byte(&self, utf16: usize) -> Option<usize> {
        let i = match self.0.lines.binary_search_by_key(&utf16, |l| l.1) {
            Ok(i) => i,
            Err(i) => i - 1,
        };
        let (start, mut k) = self.0.lines[i];
        for (j, c) in self.text()[start..].char_indices() {
            if k >= utf16 {
                return Some(start + j);
            }
            k += c.len_utf16();
        }
        (k == utf16).then_some(self.len_bytes())
    }
    pub fn line_to_byte(&self, line: usize) -> Option<usize> {
        self.0.lines.get(line).map(|l| l.0)
    }
    pub fn line_to_range(&self, line: usize) -> Option<Range<usize>> {
        let start = self.line_to_byte(line)?;
        let end = self.line_to_byte(line + 1).unwrap_or(self.len_bytes());
        Some(start..end)
    }
    pub fn line_column_to_byte(&self, line: usize, column: usize) -> Option<usize> {
        let range = self.line_to_range(line)?;
        let text = self.get(range.clone())?;
        let mut chars = text.chars();
        for _ in 0..column {
            chars.next();
        }
        Some(range.start + (text.len() - chars.as_str().len()))
    }
}
impl fmt::Debug for Source {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Source({:?})", self.id().vpath())
    }
}
impl std::hash::Hash for Source {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl PartialEq for Source {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl AsRef<str> for Source {
    fn as_ref(&self) -> &str {
        self.text()
    }
}
