use tinymist_std::typst::TypstPagedDocument;
pub struct DefaultExportFeature;
pub fn render_svg_html<F>(d: &TypstPagedDocument) -> String {
    d.pages.iter().map(|p| p.text.as_str()).collect()
}
