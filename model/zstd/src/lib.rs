//! Model of `zstd` by its contract: a frame that is complete only after
//! `finish`, and decodes to exactly the bytes written; frames may follow each
//! other.  The compression itself (C code behind FFI) is outside the encoding.
use std::io::{self, BufRead, BufReader, Read, Write};

pub const DEFAULT_COMPRESSION_LEVEL: i32 = 3;
const MAGIC: [u8; 4] = [0x28, 0xB5, 0x2F, 0xFD];
pub fn compression_level_range() -> std::ops::RangeInclusive<i32> {
    -131072..=22
}
fn frame(b: &[u8]) -> Vec<u8> {
    let mut out = MAGIC.to_vec();
    out.extend_from_slice(&(b.len() as u64).to_le_bytes());
    out.extend_from_slice(b);
    out
}
/// the content of the first frame, and what follows it
fn first(raw: &[u8]) -> io::Result<(&[u8], &[u8])> {
    if raw.len() < 12 {
        return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
    }
    if raw[..4] != MAGIC {
        return Err(io::Error::from(io::ErrorKind::Other));
    }
    let mut n = [0u8; 8];
    n.copy_from_slice(&raw[4..12]);
    let n = u64::from_le_bytes(n);
    if n > (raw.len() - 12) as u64 {
        return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
    }
    Ok(raw[12..].split_at(n as usize))
}

pub mod stream {
    pub use crate::{copy_decode, copy_encode, decode_all, encode_all, Decoder, Encoder};
    pub mod write {
        pub use crate::{AutoFinishEncoder, Encoder};
    }
    pub mod read {
        pub use crate::Decoder;
    }
}
pub mod bulk {
    use super::*;
    pub fn compress(d: &[u8], _level: i32) -> io::Result<Vec<u8>> {
        Ok(frame(d))
    }
    pub fn decompress(d: &[u8], capacity: usize) -> io::Result<Vec<u8>> {
        let o = decode_all(d)?;
        if o.len() > capacity {
            return Err(io::Error::from(io::ErrorKind::Other));
        }
        Ok(o)
    }
}

pub struct Encoder<'a, W: Write> {
    w: W,
    buf: Vec<u8>,
    _m: std::marker::PhantomData<&'a ()>,
}
impl<W: Write> Encoder<'static, W> {
    pub fn new(w: W, _level: i32) -> io::Result<Self> {
        Ok(Encoder { w, buf: Vec::new(), _m: std::marker::PhantomData })
    }
}
impl<'a, W: Write> Encoder<'a, W> {
    pub fn try_finish(mut self) -> Result<W, (Self, io::Error)> {
        match self.w.write_all(&frame(&self.buf)) {
            Ok(()) => Ok(self.w),
            Err(e) => Err((self, e)),
        }
    }
    pub fn do_finish(&mut self) -> io::Result<()> {
        self.w.write_all(&frame(&self.buf))
    }
    pub fn finish(self) -> io::Result<W> {
        self.try_finish().map_err(|(_, e)| e)
    }
    pub fn auto_finish(self) -> AutoFinishEncoder<'a, W> {
        AutoFinishEncoder(self)
    }
    pub fn get_ref(&self) -> &W {
        &self.w
    }
    pub fn get_mut(&mut self) -> &mut W {
        &mut self.w
    }
    pub fn include_checksum(&mut self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn include_contentsize(&mut self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn long_distance_matching(&mut self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn window_log(&mut self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn set_pledged_src_size(&mut self, _: Option<u64>) -> io::Result<()> {
        Ok(())
    }
    pub fn recommended_input_size() -> usize {
        131072
    }
}
impl<W: Write> Write for Encoder<'_, W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.buf.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub struct AutoFinishEncoder<'a, W: Write>(Encoder<'a, W>);
impl<W: Write> Write for AutoFinishEncoder<'_, W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl<W: Write> Drop for AutoFinishEncoder<'_, W> {
    fn drop(&mut self) {
        let _ = self.0.do_finish();
    }
}

pub struct Decoder<'a, R> {
    r: R,
    out: Option<Vec<u8>>,
    pos: usize,
    single: bool,
    _m: std::marker::PhantomData<&'a ()>,
}
impl<R: Read> Decoder<'static, BufReader<R>> {
    pub fn new(r: R) -> io::Result<Self> {
        Self::with_buffer(BufReader::with_capacity(512, r))
    }
}
impl<R: BufRead> Decoder<'static, R> {
    pub fn with_buffer(r: R) -> io::Result<Self> {
        Ok(Decoder { r, out: None, pos: 0, single: false, _m: std::marker::PhantomData })
    }
}
impl<R: BufRead> Decoder<'_, R> {
    pub fn single_frame(mut self) -> Self {
        self.single = true;
        self
    }
    pub fn window_log_max(&mut self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn get_ref(&self) -> &R {
        &self.r
    }
    pub fn get_mut(&mut self) -> &mut R {
        &mut self.r
    }
    pub fn finish(self) -> R {
        self.r
    }
    pub fn recommended_output_size() -> usize {
        131072
    }
}
impl<R: BufRead> Read for Decoder<'_, R> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.out.is_none() {
            let mut raw = Vec::new();
            self.r.read_to_end(&mut raw)?;
            let (d, mut rest) = first(&raw)?;
            let mut out = d.to_vec();
            while !self.single && !rest.is_empty() {
                let (d, r) = first(rest)?;
                out.extend_from_slice(d);
                rest = r;
            }
            self.out = Some(out);
        }
        let o = self.out.as_ref().unwrap();
        let n = (o.len() - self.pos).min(b.len());
        b[..n].copy_from_slice(&o[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub fn copy_encode<R: Read, W: Write>(mut r: R, mut w: W, _level: i32) -> io::Result<()> {
    let mut d = Vec::new();
    r.read_to_end(&mut d)?;
    w.write_all(&frame(&d))
}
pub fn copy_decode<R: Read, W: Write>(r: R, mut w: W) -> io::Result<()> {
    w.write_all(&decode_all(r)?)
}
pub fn encode_all<R: Read>(r: R, level: i32) -> io::Result<Vec<u8>> {
    let mut o = Vec::new();
    copy_encode(r, &mut o, level)?;
    Ok(o)
}
pub fn decode_all<R: Read>(r: R) -> io::Result<Vec<u8>> {
    let mut o = Vec::new();
    Decoder::new(r)?.read_to_end(&mut o)?;
    Ok(o)
}
