//! The simulated runtime: the real relay and security pallets.
use frame_support::traits::Get;
use std::cell::Cell;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Rt;

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    Relay(btc_relay::Event<Rt>),
    Security(security::Event<Rt>),
}
impl From<btc_relay::Event<Rt>> for Ev {
    fn from(e: btc_relay::Event<Rt>) -> Self {
        Ev::Relay(e)
    }
}
impl From<security::Event<Rt>> for Ev {
    fn from(e: security::Event<Rt>) -> Self {
        Ev::Security(e)
    }
}
impl From<Ev> for () {
    fn from(_: Ev) {}
}

sim_node::system_config!(Rt, u64, Ev);

impl security::Config for Rt {
    type RuntimeEvent = Ev;
    type WeightInfo = ();
}

thread_local! {
    pub static PBPB: Cell<u32> = Cell::new(100);
}
pub struct BlocksPerBlock;
impl Get<u32> for BlocksPerBlock {
    fn get() -> u32 {
        PBPB.with(|x| x.get())
    }
}
impl btc_relay::Config for Rt {
    type RuntimeEvent = Ev;
    type WeightInfo = ();
    type ParachainBlocksPerBitcoinBlock = BlocksPerBlock;
}

pub type Relay = btc_relay::Pallet<Rt>;
pub type Security = security::Pallet<Rt>;
pub type System = frame_system::Pallet<Rt>;
