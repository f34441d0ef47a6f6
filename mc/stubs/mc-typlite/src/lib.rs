pub struct Typlite<W>(W);
impl<W> Typlite<W> {
    pub fn new(w: W) -> Self {
        Self(w)
    }
    pub fn convert(self) -> Result<String, String> {
        Ok(String::new())
    }
}
