//! S04: the main file is the one that the user means.

use std::path::Path;

use mccore::explore::{Chooser, Fail};
use mccore::report::Ctx;
use mccore::rt;
use tinymist::project::EntryReader;
use tinymist_query::PositionEncoding;

use crate::rest::{text, A, M, PATHS};
use crate::srv::{self, Srv};

const TEXTS: [&str; 2] = ["m", "a"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Pin(Option<usize>),
    /// The path isn't absolute.
    PinRelative,
    Focus(Option<usize>),
    FocusRelative,
    Open(usize),
    /// `foldingRange`, `hover` or `semanticTokens`.
    Ask(usize, char),
    /// A preview of a file (or of no particular one) that may follow the focus.
    Preview(usize, bool),
    PreviewEnds,
    Default(Option<usize>),
    Reload,
    Drain,
}

#[derive(Default)]
struct Model {
    pinned: Option<usize>,
    /// Whether the preview holds the main file.
    held: bool,
    default: Option<usize>,
    focused: Option<usize>,
    asked: bool,
    manual: bool,
    main: Option<usize>,
}

fn path(f: Option<usize>) -> Option<std::sync::Arc<Path>> {
    f.map(|f| Path::new(PATHS[f]).into())
}

fn main_of(s: &Srv) -> Option<std::sync::Arc<Path>> {
    let main = s.state.project.compiler.primary.verse.entry_state().main()?;
    Some(Path::new("/w").join(main.vpath().as_rootless_path()).into())
}

impl Model {
    fn focus(&mut self, f: Option<usize>) {
        self.focused = f;
        if self.pinned.is_none() && !self.held && self.default.is_none() {
            self.main = f;
        }
    }
    fn reload(&mut self, s: &mut Srv) -> Result<(), Fail> {
        s.state.reload_projects().map_err(|e| Fail::new("reload", e.to_string()))?;
        if self.default.is_some() && (self.main.is_none() || self.pinned.is_none() && !self.held) {
            self.main = self.default;
        }
        Ok(())
    }
    fn run(&mut self, s: &mut Srv, op: Op) -> Result<(), Fail> {
        let fine = |r: tinymist_std::Result<()>| r.map_err(|e| Fail::new("refused", format!("{op:?}: {e}")));
        match op {
            Op::Pin(f) => {
                fine(s.state.pin_main_file(path(f)))?;
                self.pinned = f;
                self.main = f.or(self.default).or(self.focused);
            }
            Op::PinRelative => {
                if s.state.pin_main_file(Some(Path::new("m.typ").into())).is_ok() {
                    return Err(Fail::new("relative", format!("{op:?} succeeds")));
                }
            }
            Op::Focus(f) => {
                s.state.ever_manual_focusing = true;
                self.manual = true;
                fine(s.state.focus_main_file(path(f)).map(drop))?;
                self.focus(f);
            }
            Op::FocusRelative => {
                s.state.ever_manual_focusing = true;
                self.manual = true;
                if s.state.focus_main_file(Some(Path::new("m.typ").into())).is_ok() {
                    return Err(Fail::new("relative", format!("{op:?} succeeds")));
                }
            }
            Op::Open(f) => {
                fine(s.state.create_source(path(Some(f)).unwrap(), TEXTS[f].into()))?;
                s.state.implicit_focus_entry(|| path(Some(f)), 'o');
                if !self.manual && !self.asked {
                    self.focus(Some(f));
                }
            }
            Op::Ask(f, site) => {
                s.state.implicit_focus_entry(|| path(Some(f)), site);
                if !self.manual {
                    self.asked = true;
                    self.focus(Some(f));
                }
            }
            Op::Preview(f, browsing) => {
                fine(s.state.change_main_file(path(Some(f))).map(drop))?;
                s.state.set_pin_by_preview(true, browsing);
                self.main = Some(f);
                self.held = !browsing;
                // It isn't started this way while the user pins another file.
                self.pinned = self.pinned.and(Some(f));
            }
            Op::PreviewEnds => {
                s.state.set_pin_by_preview(false, false);
                self.held = false;
            }
            Op::Default(f) => {
                let cfg = &mut s.state.config;
                cfg.entry_resolver.entry = path(f);
                cfg.has_default_entry_path = f.is_some();
                self.default = f;
                self.reload(s)?;
            }
            Op::Reload => self.reload(s)?,
            Op::Drain => s.drain(),
        }
        // While a preview holds the main file, unpinning another one isn't specified.
        if op == Op::Pin(None) && self.held {
            self.main = (0..2).find(|f| main_of(s) == path(Some(*f)));
        }
        if main_of(s) != path(self.main) {
            return Err(Fail::new("other-main", format!("the main file is {:?}, not {:?} (after {op:?})", main_of(s), path(self.main))));
        }
        Ok(())
    }
}

fn history(ch: &mut Chooser, ops: &'static [Op], len: usize) -> Result<(), Fail> {
    let mut steps = vec![];
    for _ in 0..len {
        steps.push(*ch.pick("step", ops));
    }
    let told = format!("{steps:?}");
    let disk = PATHS.iter().zip(TEXTS).map(|(p, t)| (p.into(), t.to_string())).collect();
    srv::run(ch, srv::config(PositionEncoding::Utf16), disk, move |s| {
        let mut m = Model::default();
        for op in steps {
            rt::note(|| format!("{op:?}"));
            m.run(s, op)?;
        }
        s.drain();
        // That is what is compiled, too.
        let compiled = s.state.project.compiler.primary.ext.last_compilation.as_ref();
        let doc = compiled.and_then(|a| a.doc.as_ref()).map(text);
        if let Some(f) = m.main {
            if !doc.as_ref().is_some_and(|d| d.contains(PATHS[f].rsplit('/').next().unwrap())) {
                return Err(Fail::new("other-document", format!("{doc:?} is compiled, not {}", PATHS[f])));
            }
        }
        Ok(format!("{:?} {doc:?}", m.main))
    })
    .map_err(|f| Fail::new(&f.sig, format!("{told}: {}", f.msg)))
}

const OPS: [Op; 16] = [
    Op::Pin(Some(M)),
    Op::Pin(Some(A)),
    Op::Pin(None),
    Op::PinRelative,
    Op::Focus(Some(M)),
    Op::Focus(Some(A)),
    Op::Focus(None),
    Op::FocusRelative,
    Op::Preview(M, false),
    Op::Preview(A, true),
    Op::PreviewEnds,
    Op::Default(Some(A)),
    Op::Default(None),
    Op::Reload,
    Op::Open(A),
    Op::Ask(M, 'h'),
];
const IMPLICIT: [Op; 9] = [
    Op::Open(M),
    Op::Open(A),
    Op::Ask(M, 'f'),
    Op::Ask(A, 'h'),
    Op::Ask(A, 't'),
    Op::Focus(Some(M)),
    Op::Pin(Some(A)),
    Op::Pin(None),
    Op::Drain,
];

pub fn mains(ctx: &mut Ctx) {
    for (name, ops, len) in [("explicit", &OPS[..], ctx.by(4, 5)), ("implicit", &IMPLICIT[..], ctx.by(5, 6))] {
        ctx.explore(
            name,
            "histories",
            &format!("every sequence of {len} of {} requests that concern the main file", ops.len()),
            0,
            |ch| history(ch, ops, len),
        );
    }
}
