use typst::layout::{Abs, Page, PagedDocument};
use typst::visualize::Color;
pub struct Pixmap(String);
impl Pixmap {
    pub fn encode_png(&self) -> Result<Vec<u8>, String> {
        Ok(self.0.clone().into_bytes())
    }
}
pub fn render(p: &Page, _: f32) -> Pixmap {
    Pixmap(p.text.clone())
}
pub fn render_merged(d: &PagedDocument, _: f32, _: Abs, _: Option<Color>) -> Pixmap {
    Pixmap(d.pages.iter().map(|p| p.text.as_str()).collect())
}
