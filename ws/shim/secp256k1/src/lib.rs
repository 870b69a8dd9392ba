//! The 0.20 API the repository uses, over the real libsecp256k1 (crate version 0.27).
pub use real::{constants, ffi, AllPreallocated, Error, Secp256k1, SecretKey, Verification};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct PublicKey(pub real::PublicKey);

fn scalar(b: &[u8]) -> Result<real::Scalar, Error> {
    let mut a = [0u8; 32];
    if b.len() != 32 {
        return Err(Error::InvalidTweak);
    }
    a.copy_from_slice(b);
    real::Scalar::from_be_bytes(a).map_err(|_| Error::InvalidTweak)
}

impl PublicKey {
    pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
        real::PublicKey::from_slice(b).map(Self)
    }
    pub fn serialize(&self) -> [u8; 33] {
        self.0.serialize()
    }
    pub fn mul_assign<C: Verification>(&mut self, secp: &Secp256k1<C>, other: &[u8]) -> Result<(), Error> {
        self.0 = self.0.mul_tweak(secp, &scalar(other)?)?;
        Ok(())
    }
    pub fn add_exp_assign<C: Verification>(&mut self, secp: &Secp256k1<C>, other: &[u8]) -> Result<(), Error> {
        self.0 = self.0.add_exp_tweak(secp, &scalar(other)?)?;
        Ok(())
    }
}
