use typst::html::HtmlDocument;
pub fn html(d: &HtmlDocument) -> Result<String, String> {
    Ok(d.text.clone())
}
