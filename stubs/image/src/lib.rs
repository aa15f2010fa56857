//! Stand-in for `image` (rendering of QR codes only): the "picture" is the encoded text itself.
use std::io::{Seek, Write};
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Luma<T>(pub [T; 1]);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ImageFormat { Png }
#[derive(Debug)]
pub struct ImageError(std::io::Error);
impl std::fmt::Display for ImageError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
impl std::error::Error for ImageError {}
pub type ImageResult<T> = Result<T, ImageError>;
#[derive(Clone, Debug)]
pub struct ImageBuffer(pub Vec<u8>);
impl ImageBuffer {
    pub fn write_to<W: Write + Seek>(&self, w: &mut W, _f: ImageFormat) -> ImageResult<()> {
        w.write_all(b"\x89SIMPNG").and_then(|()| w.write_all(&self.0)).map_err(ImageError)
    }
}
