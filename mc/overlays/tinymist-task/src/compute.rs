//! Exporters of the stand-in for typst: an exported document is its text.
use std::sync::Arc;

use tinymist_std::error::prelude::*;
use tinymist_std::typst::{TypstDocument, TypstPagedDocument};
use tinymist_world::{CompilerFeat, ExportComputation, WorldComputeGraph};
use typst::foundations::Bytes;
use typst::layout::Abs;

use crate::{ExportPdfTask, ExportTask};

pub struct PdfExport;
impl<F: CompilerFeat> ExportComputation<F, TypstPagedDocument> for PdfExport {
    type Output = Bytes;
    type Config = ExportPdfTask;
    fn run(_: &Arc<WorldComputeGraph<F>>, doc: &Arc<TypstPagedDocument>, _: &ExportPdfTask) -> Result<Bytes> {
        Ok(Bytes::from_string(doc.pages.iter().map(|p| p.text.as_str()).collect::<String>()))
    }
}
pub struct TextExport;
impl TextExport {
    pub fn run_on_doc(doc: &TypstDocument) -> Result<String> {
        Ok(match doc {
            TypstDocument::Paged(d) => d.pages.iter().map(|p| p.text.as_str()).collect(),
            TypstDocument::Html(d) => d.text.clone(),
        })
    }
}
pub fn get_page_selection(_: &ExportTask) -> Result<(bool, Abs)> {
    Ok((true, Abs(0.)))
}
