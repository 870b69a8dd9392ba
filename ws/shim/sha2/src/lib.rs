//! sha2 0.8 as the repository uses it, with one seam: proof-of-work search.
//!
//! A simulated miner cannot spend 2^32 hashes per block, so `mined::register` lets it declare
//! that the double hash of one particular 80-byte header is a given small number. Every other
//! input hashes as usual, so nothing but a registered header can meet a target.
pub use digest::{self, Digest};
use digest::{generic_array::GenericArray, FixedOutput, Input, Reset};
pub use real::{Sha224, Sha384, Sha512};

#[derive(Clone, Default)]
pub struct Sha256(real::Sha256);

impl Input for Sha256 {
    fn input<B: AsRef<[u8]>>(&mut self, data: B) {
        Input::input(&mut self.0, data)
    }
}

impl digest::BlockInput for Sha256 {
    type BlockSize = <real::Sha256 as digest::BlockInput>::BlockSize;
}

impl Reset for Sha256 {
    fn reset(&mut self) {
        Reset::reset(&mut self.0)
    }
}

impl FixedOutput for Sha256 {
    type OutputSize = <real::Sha256 as FixedOutput>::OutputSize;
    fn fixed_result(self) -> GenericArray<u8, Self::OutputSize> {
        let r = FixedOutput::fixed_result(self.0);
        mined::override_of(r)
    }
}

pub mod mined {
    use super::*;
    use std::{cell::RefCell, collections::HashMap};

    thread_local! {
        static BASE: RefCell<HashMap<[u8; 32], [u8; 32]>> = RefCell::new(HashMap::new());
        static TABLE: RefCell<HashMap<[u8; 32], [u8; 32]>> = RefCell::new(HashMap::new());
    }

    fn sha(b: &[u8]) -> [u8; 32] {
        let mut h = real::Sha256::default();
        Input::input(&mut h, b);
        let mut o = [0; 32];
        o.copy_from_slice(&FixedOutput::fixed_result(h));
        o
    }

    /// Double SHA-256 without the table.
    pub fn sha256d(b: &[u8]) -> [u8; 32] {
        sha(&sha(b))
    }

    /// From now on the double hash of `header` is `out`.
    pub fn register(header: &[u8], out: [u8; 32]) {
        let natural = sha256d(header);
        TABLE.with(|t| t.borrow_mut().insert(natural, out));
    }

    /// Keeps everything registered so far across `clear`.
    pub fn keep() {
        BASE.with(|b| TABLE.with(|t| b.borrow_mut().extend(t.borrow_mut().drain())));
    }

    /// Forgets what was registered since `keep`.
    pub fn clear() {
        TABLE.with(|t| t.borrow_mut().clear());
    }

    pub(super) fn override_of<N: digest::generic_array::ArrayLength<u8>>(r: GenericArray<u8, N>) -> GenericArray<u8, N> {
        TABLE.with(|t| {
            let t = t.borrow();
            if let Some(o) = t.get(&r[..]) {
                return GenericArray::clone_from_slice(&o[..]);
            }
            BASE.with(|b| match b.borrow().get(&r[..]) {
                Some(o) => GenericArray::clone_from_slice(&o[..]),
                None => r,
            })
        })
    }
}
