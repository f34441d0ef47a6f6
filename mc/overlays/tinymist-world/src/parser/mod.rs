//! Semantic tokens need the syntax trees of typst.
pub enum OffsetEncoding {
    Utf8,
    Utf16,
}
#[derive(Debug)]
pub struct SemanticToken;
pub struct SemanticTokensLegend;
pub fn get_semantic_tokens_full(_: &typst::syntax::Source, _: OffsetEncoding) -> Vec<SemanticToken> {
    vec![]
}
pub fn get_semantic_tokens_legend() -> SemanticTokensLegend {
    SemanticTokensLegend
}
