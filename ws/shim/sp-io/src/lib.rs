//! `sp-io` with the simulated state behind its storage functions.
pub use real::*;
pub mod storage {
    /// How much there is behind `offset`, of which as much as there is room for is read.
    pub fn read(key: &[u8], out: &mut [u8], offset: u32) -> Option<u32> {
        let v = frame_support::state::get(key)?;
        let rest = v.get(offset as usize..).unwrap_or(&[]);
        let n = rest.len().min(out.len());
        out[..n].copy_from_slice(&rest[..n]);
        Some(rest.len() as u32)
    }
}
