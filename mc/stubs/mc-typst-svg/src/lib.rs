use typst::layout::{Abs, Page, PagedDocument};
pub fn svg(p: &Page) -> String {
    p.text.clone()
}
pub fn svg_merged(d: &PagedDocument, _: Abs) -> String {
    d.pages.iter().map(|p| p.text.as_str()).collect()
}
