pub use sp_weights::*;
pub mod constants {
    pub use sp_weights::constants::*;
    use sp_weights::RuntimeDbWeight;
    crate::parameter_types! {
        pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 25_000_000, write: 100_000_000 };
    }
}
