//! Model of the `sha2` crate: SHA-256 as an uninterpreted, collision-free
//! function of the whole message (the engine computes the real digest when
//! the message is concrete).
pub use digest::{self, Digest};
use digest::{
    consts::U32, generic_array::GenericArray, FixedOutput, FixedOutputReset, HashMarker, Output,
    OutputSizeUser, Reset, Update,
};

#[derive(Clone, Default, Debug)]
pub struct Sha256 {
    buf: Vec<u8>,
}
impl HashMarker for Sha256 {}
impl OutputSizeUser for Sha256 {
    type OutputSize = U32;
}
impl Update for Sha256 {
    fn update(&mut self, data: &[u8]) {
        self.buf.extend_from_slice(data);
    }
}
impl Reset for Sha256 {
    fn reset(&mut self) {
        self.buf.clear();
    }
}
impl FixedOutput for Sha256 {
    fn finalize_into(self, out: &mut Output<Self>) {
        *out = GenericArray::from(symrt::sha256(&self.buf));
    }
}
impl FixedOutputReset for Sha256 {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        *out = GenericArray::from(symrt::sha256(&self.buf));
        self.buf.clear();
    }
}
impl std::io::Write for Sha256 {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.buf.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
