//! The interface of the font resolvers.
use std::num::NonZeroUsize;
use std::sync::Arc;

use typst::text::{Font, FontBook};
use typst::utils::LazyHash;

pub trait FontResolver {
    fn revision(&self) -> Option<NonZeroUsize> {
        None
    }
    fn font_book(&self) -> &LazyHash<FontBook>;
    fn font(&self, index: usize) -> Option<Font>;
}
impl<T: FontResolver> FontResolver for Arc<T> {
    fn font_book(&self) -> &LazyHash<FontBook> {
        self.as_ref().font_book()
    }
    fn font(&self, index: usize) -> Option<Font> {
        self.as_ref().font(index)
    }
}
