//! A small stand-in for the `typst` crate: the types the language server's
//! virtual file system, worlds and project compiler are written against, and a
//! compiler for a toy language whose documents show exactly which files were
//! read with which contents.
//!
//! Types and functions of typst 0.13 keep their names, signatures and
//! semantics here; what the code under test does not use is left out.

pub extern crate comemo;
pub extern crate ecow;

pub mod diag;
pub mod foundations;
pub mod syntax;
mod toy;
pub mod utils;

pub use toy::compile;

use std::collections::BTreeSet;

use diag::FileResult;
use foundations::{Bytes, Datetime, Dict};
use syntax::{FileId, Source};
use utils::LazyHash;

pub trait World: Send + Sync {
    fn library(&self) -> &LazyHash<Library>;
    fn book(&self) -> &LazyHash<text::FontBook>;
    fn main(&self) -> FileId;
    fn source(&self, id: FileId) -> FileResult<Source>;
    fn file(&self, id: FileId) -> FileResult<Bytes>;
    fn font(&self, index: usize) -> Option<text::Font>;
    fn today(&self, offset: Option<i64>) -> Option<Datetime>;
}

pub trait WorldExt {
    fn range(&self, span: syntax::Span) -> Option<std::ops::Range<usize>>;
}

pub trait Document: Sized {
    fn info(&self) -> &model::DocumentInfo;
    #[doc(hidden)]
    fn made(text: String, info: model::DocumentInfo) -> Self;
}

#[derive(Debug, Clone, Hash)]
pub struct Library {
    pub inputs: Dict,
    pub features: Features,
}
impl Library {
    pub fn builder() -> LibraryBuilder {
        LibraryBuilder::default()
    }
}
#[derive(Debug, Clone, Default)]
pub struct LibraryBuilder {
    inputs: Option<Dict>,
    features: Features,
}
impl LibraryBuilder {
    pub fn with_inputs(mut self, inputs: Dict) -> Self {
        self.inputs = Some(inputs);
        self
    }
    pub fn with_features(mut self, features: Features) -> Self {
        self.features = features;
        self
    }
    pub fn build(self) -> Library {
        Library { inputs: self.inputs.unwrap_or_default(), features: self.features }
    }
}

#[derive(Debug, Copy, Clone, Hash, Eq, PartialEq, Ord, PartialOrd)]
#[non_exhaustive]
pub enum Feature {
    Html,
}
#[derive(Debug, Default, Clone, Hash)]
pub struct Features(BTreeSet<Feature>);
impl Features {
    pub fn is_enabled(&self, f: Feature) -> bool {
        self.0.contains(&f)
    }
}
impl FromIterator<Feature> for Features {
    fn from_iter<T: IntoIterator<Item = Feature>>(iter: T) -> Self {
        Self(iter.into_iter().collect())
    }
}

pub mod layout {
    use crate::introspection::Introspector;
    use crate::model::DocumentInfo;

    #[derive(Debug, Copy, Clone, PartialEq, PartialOrd, Default)]
    pub struct Abs(pub f64);
    impl Abs {
        pub fn pt(v: f64) -> Self {
            Abs(v)
        }
        pub fn to_pt(self) -> f64 {
            self.0
        }
    }
    #[derive(Debug, Copy, Clone, PartialEq, Default)]
    pub struct Point {
        pub x: Abs,
        pub y: Abs,
    }
    #[derive(Debug, Copy, Clone, PartialEq)]
    pub struct Position {
        pub page: std::num::NonZeroUsize,
        pub point: Point,
    }

    #[derive(Debug, Clone, Default)]
    pub struct Page {
        pub text: String,
    }
    #[derive(Debug, Clone, Default)]
    pub struct PagedDocument {
        pub pages: Vec<Page>,
        pub info: DocumentInfo,
        pub introspector: Introspector,
    }
    impl crate::Document for PagedDocument {
        fn info(&self) -> &DocumentInfo {
            &self.info
        }
        fn made(text: String, info: DocumentInfo) -> Self {
            PagedDocument { pages: vec![Page { text }], info, introspector: Introspector }
        }
    }
}

pub mod html {
    use crate::introspection::Introspector;
    use crate::model::DocumentInfo;

    #[derive(Debug, Clone, Default)]
    pub struct HtmlDocument {
        pub text: String,
        pub info: DocumentInfo,
        pub introspector: Introspector,
    }
    impl crate::Document for HtmlDocument {
        fn info(&self) -> &DocumentInfo {
            &self.info
        }
        fn made(text: String, info: DocumentInfo) -> Self {
            HtmlDocument { text, info, introspector: Introspector }
        }
    }
}

pub mod model {
    use ecow::EcoString;
    #[derive(Debug, Default, Clone, PartialEq, Hash)]
    pub struct DocumentInfo {
        pub title: Option<EcoString>,
        pub author: Vec<EcoString>,
        pub keywords: Vec<EcoString>,
    }
}

pub mod introspection {
    #[derive(Debug, Clone, Default)]
    pub struct Introspector;
}

pub mod text {
    #[derive(Debug, Clone, Hash, PartialEq, Eq)]
    pub struct Font(pub usize);
    #[derive(Debug, Clone, Hash, PartialEq, Eq, Default)]
    pub struct FontInfo {
        pub family: String,
    }
    #[derive(Debug, Clone, Hash, Default)]
    pub struct FontBook {
        pub infos: Vec<FontInfo>,
    }
    impl FontBook {
        pub fn new() -> Self {
            Self::default()
        }
    }
}

pub mod visualize {
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Color(pub u32);
    impl Color {
        pub const BLACK: Self = Color(0);
        pub const WHITE: Self = Color(0xffffff);
        pub const RED: Self = Color(0xff0000);
        pub const GREEN: Self = Color(0xff00);
        pub const BLUE: Self = Color(0xff);
    }
    impl std::str::FromStr for Color {
        type Err = std::num::ParseIntError;
        fn from_str(s: &str) -> Result<Self, Self::Err> {
            u32::from_str_radix(s, 16).map(Color)
        }
    }
}
