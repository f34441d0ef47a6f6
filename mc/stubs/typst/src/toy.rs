//! The toy language. A line of a source is
//!
//! * `#include PATH`: the text of another source,
//! * `#read PATH`: the bytes of a file,
//! * `#import @NS/NAME:VERSION`: the text of the package's `lib.typ`,
//! * `#input KEY`: one of the inputs,
//! * `#title TEXT`: the title of the document,
//! * `#warn TEXT` and `#panic TEXT`: a warning and an error,
//!
//! or text. The document says for everything it shows where it is from.

use ecow::{eco_format, eco_vec, EcoVec};

use crate::diag::{At, SourceDiagnostic, SourceResult, Warned};
use crate::foundations::Value;
use crate::model::DocumentInfo;
use crate::syntax::package::PackageSpec;
use crate::syntax::{FileId, Span, VirtualPath};
use crate::{Document, World};

struct Vm<'a> {
    world: &'a dyn World,
    out: String,
    info: DocumentInfo,
    warnings: EcoVec<SourceDiagnostic>,
    route: Vec<FileId>,
}

pub fn compile<D: Document>(world: &dyn World) -> Warned<SourceResult<D>> {
    let mut vm = Vm { world, out: String::new(), info: DocumentInfo::default(), warnings: eco_vec![], route: vec![] };
    let res = vm.eval(world.main(), Span::detached());
    Warned { output: res.map(|()| D::made(vm.out, vm.info)), warnings: vm.warnings }
}

impl Vm<'_> {
    fn eval(&mut self, id: FileId, at: Span) -> SourceResult<()> {
        if self.route.contains(&id) {
            return Err(eco_format!("cyclic import")).at(at);
        }
        let source = self.world.source(id).at(at)?;
        self.route.push(id);
        self.out += &format!("[{id:?}|");
        for (i, line) in source.text().lines().enumerate() {
            let at = Span::line(id, i);
            let (word, arg) = line.split_once(' ').unwrap_or((line, ""));
            match word {
                "#include" => self.eval(id.join(arg), at)?,
                "#read" => {
                    let f = id.join(arg);
                    let bytes = self.world.file(f).at(at)?;
                    self.out += &format!("<{f:?}|{}>", String::from_utf8_lossy(&bytes));
                }
                "#import" => {
                    let spec: PackageSpec = arg.parse().at(at)?;
                    self.eval(FileId::new(Some(spec), VirtualPath::new("lib.typ")), at)?;
                }
                "#input" => {
                    let v = self.world.library().inputs.get(arg).cloned().unwrap_or(Value::None);
                    self.out += &format!("{v:?}");
                }
                "#title" => self.info.title = Some(arg.into()),
                "#warn" => self.warnings.push(SourceDiagnostic::warning(at, arg)),
                "#panic" => return Err(eco_format!("{arg}")).at(at),
                _ => {
                    self.out += line;
                    self.out.push(';');
                }
            }
        }
        self.out.push(']');
        self.route.pop();
        Ok(())
    }
}
