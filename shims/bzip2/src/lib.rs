//! Stand-in for `bzip2` 0.4 writers: a checked container of the same shape (zlib inside).
use std::io::{self, Write};
#[derive(Debug, Clone, Copy, Default)]
pub struct Compression(u32);
impl Compression {
    pub fn new(l: u32) -> Self {
        Self(l)
    }
}
pub mod write {
    use super::*;
    pub struct BzEncoder<W: Write> {
        out: W,
        data: Vec<u8>,
    }
    impl<W: Write> BzEncoder<W> {
        pub fn new(out: W, _: Compression) -> Self {
            Self { out, data: vec![] }
        }
        pub fn finish(mut self) -> io::Result<W> {
            let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::fast());
            e.write_all(&self.data)?;
            self.out.write_all(b"BZh9")?;
            self.out.write_all(&e.finish()?)?;
            Ok(self.out)
        }
    }
    impl<W: Write> Write for BzEncoder<W> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.data.write(b)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    pub struct BzDecoder<W: Write> {
        out: W,
        data: Vec<u8>,
    }
    impl<W: Write> BzDecoder<W> {
        pub fn new(out: W) -> Self {
            Self { out, data: vec![] }
        }
        pub fn finish(mut self) -> io::Result<W> {
            let bad = || io::Error::new(io::ErrorKind::InvalidInput, "data");
            let body = self.data.strip_prefix(b"BZh9".as_slice()).ok_or_else(bad)?;
            let mut d = flate2::write::ZlibDecoder::new(vec![]);
            d.write_all(body)?;
            self.out.write_all(&d.finish()?)?;
            Ok(self.out)
        }
    }
    impl<W: Write> Write for BzDecoder<W> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.data.write(b)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
}
