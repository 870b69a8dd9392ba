//! Stand-in for `pallet-contracts`: only what a chain extension sees.
use core::marker::PhantomData;

pub trait Config: frame_system::Config {
    type Time;
    type Randomness;
    type Currency;
    type RuntimeEvent;
    type RuntimeCall;
    type CallFilter;
    type WeightPrice;
    type WeightInfo;
    type ChainExtension: chain_extension::ChainExtension<Self> + Default;
    type Schedule;
    type CallStack;
    type DepositPerByte;
    type DepositPerItem;
    type DefaultDepositLimit;
    type AddressGenerator;
    type MaxCodeLen;
    type MaxStorageKeyLen;
    type UnsafeUnstableInterface;
    type MaxDebugBufferLen;
    type Migrations;
}
pub struct Frame<T>(PhantomData<T>);
pub struct Schedule<T>(PhantomData<T>);
impl<T> Default for Schedule<T> {
    fn default() -> Self {
        Schedule(PhantomData)
    }
}
pub struct DefaultAddressGenerator;

pub mod chain_extension {
    use super::*;
    use codec::{Decode, DecodeLimit};
    pub use frame_system::Config as SysConfig;
    use sp_runtime::DispatchError;
    use sp_weights::Weight;

    pub type Result<T> = core::result::Result<T, DispatchError>;

    pub enum RetVal {
        Converging(u32),
        Diverging { flags: u32, data: Vec<u8> },
    }
    /// The contract's side of the call.
    pub trait Ext {
        type T: Config;
    }
    pub struct SimExt<T>(PhantomData<T>);
    impl<T: Config> Ext for SimExt<T> {
        type T = T;
    }
    pub trait ChainExtension<C: Config> {
        fn call<E: Ext<T = C>>(&mut self, env: Environment<E, InitState>) -> Result<RetVal>;
        fn enabled() -> bool {
            true
        }
    }
    pub struct InitState;
    pub struct BufInBufOutState;
    /// The input buffer of the contract and the output written back to it.
    pub struct Environment<'a, E, S> {
        id: u32,
        input: &'a [u8],
        output: &'a mut Option<Vec<u8>>,
        _p: PhantomData<(E, S)>,
    }
    impl<'a, E> Environment<'a, E, InitState> {
        pub fn new(id: u32, input: &'a [u8], output: &'a mut Option<Vec<u8>>) -> Self {
            Environment { id, input, output, _p: PhantomData }
        }
        pub fn buf_in_buf_out(self) -> Environment<'a, E, BufInBufOutState> {
            Environment { id: self.id, input: self.input, output: self.output, _p: PhantomData }
        }
    }
    impl<'a, E, S> Environment<'a, E, S> {
        pub fn func_id(&self) -> u16 {
            (self.id & 0xffff) as u16
        }
        pub fn ext_id(&self) -> u16 {
            (self.id >> 16) as u16
        }
    }
    impl<'a, E> Environment<'a, E, BufInBufOutState> {
        pub fn in_len(&self) -> u32 {
            self.input.len() as u32
        }
        pub fn read(&self, max_len: u32) -> Result<Vec<u8>> {
            Ok(self.input[..self.input.len().min(max_len as usize)].to_vec())
        }
        pub fn read_as_unbounded<T: Decode>(&mut self, len: u32) -> Result<T> {
            let b = self.read(len)?;
            // the pallet: decode_all_with_depth_limit(MAX_DECODE_NESTING), error DecodingFailed
            T::decode_all_with_depth_limit(256, &mut &b[..]).map_err(|_| DispatchError::Other("DecodingFailed"))
        }
        pub fn write(&mut self, buffer: &[u8], _allow_skip: bool, _weight_per_byte: Option<Weight>) -> Result<()> {
            *self.output = Some(buffer.to_vec());
            Ok(())
        }
    }
}
