//! Stand-in for `qrcode`: keeps the payload so that a simulated camera can read it back.
//! Same capacity limit as a version-40-L byte-mode symbol.
use std::fmt;
#[derive(Clone, Debug)]
pub struct QrCode(Vec<u8>);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum QrError { DataTooLong }
impl fmt::Display for QrError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("data too long") } }
impl std::error::Error for QrError {}
pub type QrResult<T> = Result<T, QrError>;
impl QrCode {
    pub fn new<D: AsRef<[u8]>>(data: D) -> QrResult<Self> {
        let d = data.as_ref().to_vec();
        if d.len() > 2331 { return Err(QrError::DataTooLong); }
        Ok(Self(d))
    }
    pub fn render<P>(&self) -> Renderer { Renderer(self.0.clone()) }
}
pub struct Renderer(Vec<u8>);
impl Renderer { pub fn build(&self) -> image::ImageBuffer { image::ImageBuffer(self.0.clone()) } }
