use std::fmt;
use std::io;
use std::path::{Path, PathBuf};
use std::str::Utf8Error;
use std::string::FromUtf8Error;

pub use ecow::{eco_format, EcoString};
use ecow::{eco_vec, EcoVec};

use crate::syntax::package::{PackageSpec, PackageVersion};
use crate::syntax::Span;

pub type SourceResult<T> = Result<T, EcoVec<SourceDiagnostic>>;
pub type StrResult<T> = Result<T, EcoString>;
pub type FileResult<T> = Result<T, FileError>;
pub type PackageResult<T> = Result<T, PackageError>;

#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub struct Warned<T> {
    pub output: T,
    pub warnings: EcoVec<SourceDiagnostic>,
}

#[derive(Debug, Clone, Copy, Eq, PartialEq, Hash)]
pub enum Severity {
    Error,
    Warning,
}

#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub struct SourceDiagnostic {
    pub severity: Severity,
    pub span: Span,
    pub message: EcoString,
    pub trace: EcoVec<()>,
    pub hints: EcoVec<EcoString>,
}
impl SourceDiagnostic {
    pub fn error(span: Span, message: impl Into<EcoString>) -> Self {
        Self { severity: Severity::Error, span, message: message.into(), trace: eco_vec![], hints: eco_vec![] }
    }
    pub fn warning(span: Span, message: impl Into<EcoString>) -> Self {
        Self { severity: Severity::Warning, span, message: message.into(), trace: eco_vec![], hints: eco_vec![] }
    }
}

pub trait At<T> {
    fn at(self, span: Span) -> SourceResult<T>;
}
impl<T, S: Into<EcoString>> At<T> for Result<T, S> {
    fn at(self, span: Span) -> SourceResult<T> {
        self.map_err(|message| eco_vec![SourceDiagnostic::error(span, message)])
    }
}

#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub enum FileError {
    NotFound(PathBuf),
    AccessDenied,
    IsDirectory,
    NotSource,
    InvalidUtf8,
    Package(PackageError),
    Other(Option<EcoString>),
}
impl FileError {
    pub fn from_io(err: io::Error, path: &Path) -> Self {
        match err.kind() {
            io::ErrorKind::NotFound => Self::NotFound(path.into()),
            io::ErrorKind::PermissionDenied => Self::AccessDenied,
            io::ErrorKind::InvalidData if err.to_string().contains("stream did not contain valid UTF-8") => {
                Self::InvalidUtf8
            }
            _ => Self::Other(Some(eco_format!("{err}"))),
        }
    }
}
impl std::error::Error for FileError {}
impl fmt::Display for FileError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Self::NotFound(path) => write!(f, "file not found (searched at {})", path.display()),
            Self::AccessDenied => f.pad("failed to load file (access denied)"),
            Self::IsDirectory => f.pad("failed to load file (is a directory)"),
            Self::NotSource => f.pad("not a typst source file"),
            Self::InvalidUtf8 => f.pad("file is not valid utf-8"),
            Self::Package(error) => error.fmt(f),
            Self::Other(Some(err)) => write!(f, "failed to load file ({err})"),
            Self::Other(None) => f.pad("failed to load file"),
        }
    }
}
impl From<Utf8Error> for FileError {
    fn from(_: Utf8Error) -> Self {
        Self::InvalidUtf8
    }
}
impl From<FromUtf8Error> for FileError {
    fn from(_: FromUtf8Error) -> Self {
        Self::InvalidUtf8
    }
}
impl From<PackageError> for FileError {
    fn from(err: PackageError) -> Self {
        Self::Package(err)
    }
}
impl From<FileError> for EcoString {
    fn from(err: FileError) -> Self {
        eco_format!("{err}")
    }
}

#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub enum PackageError {
    NotFound(PackageSpec),
    VersionNotFound(PackageSpec, PackageVersion),
    NetworkFailed(Option<EcoString>),
    MalformedArchive(Option<EcoString>),
    Other(Option<EcoString>),
}
impl std::error::Error for PackageError {}
impl fmt::Display for PackageError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "package error {self:?}")
    }
}
impl From<PackageError> for EcoString {
    fn from(err: PackageError) -> Self {
        eco_format!("{err}")
    }
}

#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return Err($crate::ecow::eco_format!($($t)*).into()) };
}
pub use bail;
