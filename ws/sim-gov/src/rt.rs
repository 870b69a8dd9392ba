//! The simulated runtime: vote escrow, democracy, emissions, farming, collators and the pause
//! switch, wired as in the Interlay runtime.
use codec::{Decode, Encode};
use frame_support::{
    dispatch::{DispatchInfo, GetDispatchInfo},
    parameter_types,
    storage::types::StorageInstance,
    traits::{
        schedule::{v3::Named, DispatchTime, Period, Priority},
        Bounded, CallMetadata, ConstU32, ConstU64, Contains, Currency, ExistenceRequirement, Get, GetCallMetadata, IsSubType, QueryPreimage,
        StorePreimage, ValidatorRegistration,
    },
    PalletId,
};
use orml_tokens::CurrencyAdapter;
use primitives::{CurrencyId, CurrencyId::*, LpToken, TokenSymbol};
use reward::RewardsApi;
use scale_info::TypeInfo;
use sp_core::H256;
use sp_runtime::{traits::Dispatchable, DispatchError, DispatchResult, FixedI128, FixedU128};
use std::borrow::Cow;
use std::cell::Cell;

pub type Acc = u128;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Rt;
pub enum Instance1 {}
pub enum Instance2 {}

macro_rules! events {
    ($($n:ident($t:ty)),*) => {
        #[derive(Clone, PartialEq, Debug)]
        pub enum Ev { $($n($t)),* }
        $(impl From<$t> for Ev { fn from(e: $t) -> Self { Ev::$n(e) } })*
        impl From<Ev> for () { fn from(_: Ev) {} }
    };
}
events!(
    Tokens(orml_tokens::Event<Rt>),
    EscrowRewards(reward::Event<Rt, Instance1>),
    FarmingRewards(reward::Event<Rt, Instance2>),
    Escrow(escrow::Event<Rt>),
    EscrowAnnuity(annuity::Event<Rt, Instance1>),
    VaultAnnuity(annuity::Event<Rt, Instance2>),
    Supply(supply::Event<Rt>),
    Farming(farming::Event<Rt>),
    Democracy(democracy::Event<Rt>),
    Collators(collator_selection::Event<Rt>),
    TxPause(tx_pause::Event<Rt>),
    Clients(clients_info::Event<Rt>)
);

/// What changes from run to run.
#[derive(Clone, Copy, Debug, Default)]
pub struct Params {
    pub span: u32,
    pub max: u32,
    pub voting: u32,
    pub fast: u32,
    pub enact: u32,
    pub launch: u64,
    pub deposit: u128,
    pub emission: u32,
    pub inflation: u32,
    pub reward: u32,
    pub kick: u32,
    pub min_cand: u32,
    /// who has session keys, one bit each
    pub keys: u32,
    pub too_long: bool,
}
thread_local! {
    static PARAMS: Cell<Params> = Cell::new(Params::default());
}
pub fn set_params(p: Params) {
    PARAMS.with(|x| x.set(p))
}
pub fn params() -> Params {
    PARAMS.with(|x| x.get())
}
macro_rules! param {
    ($($n:ident: $t:ty = $f:ident),*) => {
        $(pub struct $n; impl Get<$t> for $n { fn get() -> $t { params().$f } })*
    };
}
param!(Span: u32 = span, MaxPeriod: u32 = max, Voting: u32 = voting, Fast: u32 = fast, Enact: u32 = enact, Launch: u64 = launch,
    MinDeposit: u128 = deposit, Emission: u32 = emission, InflationPeriod: u32 = inflation, RewardPeriod: u32 = reward, Kick: u32 = kick,
    MinCandidates: u32 = min_cand, TooLong: bool = too_long);

pub const MAX_VOTES: u32 = 3;
pub const MAX_PROPOSALS: u32 = 4;
pub const MAX_DEPOSITS: u32 = 4;
pub const MAX_CANDIDATES: u32 = 4;
pub const MAX_INVULNERABLES: u32 = 3;
pub const MAX_NAME: usize = 22;

// ------------------------------------------------------------ calls

/// All calls there are, by pallet and name.
pub const CALLS: &[(&str, &str)] = &[
    ("tokens", "transfer"),
    ("escrow", "create_lock"),
    ("escrow", "increase_amount"),
    ("escrow", "increase_unlock_height"),
    ("escrow", "withdraw"),
    ("escrow", "set_account_limit"),
    ("escrow", "set_account_block"),
    ("escrow", "update_user_stake"),
    ("escrow-annuity", "withdraw_rewards"),
    ("escrow-annuity", "update_rewards"),
    ("escrow-annuity", "set_reward_per_wrapped"),
    ("vault-annuity", "withdraw_rewards"),
    ("vault-annuity", "update_rewards"),
    ("vault-annuity", "set_reward_per_wrapped"),
    ("supply", "set_start_height_and_inflation"),
    ("farming", "update_reward_schedule"),
    ("farming", "remove_reward_schedule"),
    ("farming", "deposit"),
    ("farming", "withdraw"),
    ("farming", "claim"),
    ("democracy", "propose"),
    ("democracy", "second"),
    ("democracy", "vote"),
    ("democracy", "fast_track"),
    ("democracy", "table_proposal"),
    ("democracy", "fast_track_referendum"),
    ("democracy", "cancel_referendum"),
    ("democracy", "clear_public_proposals"),
    ("democracy", "cancel_proposal"),
    ("democracy", "remove_vote"),
    ("democracy", "spend_from_treasury"),
    ("collators", "set_invulnerables"),
    ("collators", "set_desired_candidates"),
    ("collators", "set_candidacy_bond"),
    ("collators", "register_as_candidate"),
    ("collators", "leave_intent"),
    ("tx-pause", "pause"),
    ("tx-pause", "unpause"),
    ("clients", "set_current_client_release"),
    ("clients", "set_pending_client_release"),
];
/// A call as the filter sees it.
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, TypeInfo)]
pub struct RuntimeCall(pub u8);
impl GetCallMetadata for RuntimeCall {
    fn get_module_names() -> &'static [&'static str] {
        &[]
    }
    fn get_call_names(_: &str) -> &'static [&'static str] {
        &[]
    }
    fn get_call_metadata(&self) -> CallMetadata {
        let (pallet_name, function_name) = CALLS[self.0 as usize];
        CallMetadata { function_name, pallet_name }
    }
}
impl GetDispatchInfo for RuntimeCall {
    fn get_dispatch_info(&self) -> DispatchInfo {
        Default::default()
    }
}
impl Dispatchable for RuntimeCall {
    type RuntimeOrigin = frame_system::SimOrigin<Acc>;
    type Config = ();
    type Info = DispatchInfo;
    type PostInfo = frame_support::dispatch::PostDispatchInfo;
    fn dispatch(self, _: Self::RuntimeOrigin) -> sp_runtime::DispatchResultWithInfo<Self::PostInfo> {
        unreachable!()
    }
}
impl From<frame_system::Call<Rt>> for RuntimeCall {
    fn from(_: frame_system::Call<Rt>) -> Self {
        unreachable!()
    }
}
impl IsSubType<tx_pause::Call<Rt>> for RuntimeCall {
    fn is_sub_type(&self) -> Option<&tx_pause::Call<Rt>> {
        None
    }
}

impl frame_system::Config for Rt {
    type BaseCallFilter = ();
    type RuntimeOrigin = frame_system::SimOrigin<Acc>;
    type RuntimeCall = RuntimeCall;
    type Nonce = u32;
    type Hash = H256;
    type Hashing = sp_runtime::traits::BlakeTwo256;
    type AccountId = Acc;
    type Lookup = sp_runtime::traits::IdentityLookup<Acc>;
    type BlockNumber = u32;
    type Block = sp_runtime::generic::Block<sp_runtime::generic::Header<u32, sp_runtime::traits::BlakeTwo256>, sp_runtime::OpaqueExtrinsic>;
    type RuntimeEvent = Ev;
    type BlockHashCount = ConstU32<250>;
    type DbWeight = ();
    type BlockWeights = ();
    type BlockLength = ();
    type Version = ();
    type PalletInfo = ();
    type AccountData = ();
    type OnNewAccount = ();
    type OnKilledAccount = ();
    type SystemWeightInfo = ();
    type SS58Prefix = ();
    type OnSetCode = ();
    type MaxConsumers = ();
}

// ------------------------------------------------------------ preimages and the scheduler

/// In the state below a prefix of its own.
macro_rules! storage {
    ($p:ident, $n:ident, $k:ty, $v:ty) => {
        pub struct $p;
        impl StorageInstance for $p {
            fn pallet_prefix() -> &'static str {
                "sim"
            }
            fn instance_prefix() -> &'static str {
                ""
            }
            const STORAGE_PREFIX: &'static str = stringify!($p);
        }
        pub type $n = frame_support::storage::types::StorageMap<$p, frame_support::Blake2_128Concat, $k, $v>;
    };
}
#[derive(Encode, Decode, Clone, Debug, PartialEq, Default)]
pub struct Noted {
    pub bytes: Vec<u8>,
    /// by a user, who may take it back
    pub owned: bool,
    pub holds: u32,
}
storage!(PNoted, Preimages, H256, Noted);
#[derive(Encode, Decode, Clone, Debug, PartialEq)]
pub struct Task {
    pub root: bool,
    pub call: Bounded<RuntimeCall>,
}
storage!(PAgenda, Agenda, (u32, u32), Task);

pub struct SimPreimages;
impl SimPreimages {
    pub fn note(bytes: Vec<u8>) {
        let h: H256 = sp_core::hashing::blake2_256(&bytes).into();
        let mut n = Preimages::get(h).unwrap_or_default();
        n.bytes = bytes;
        n.owned = true;
        Preimages::insert(h, n);
    }
    pub fn unnote(h: H256) -> bool {
        match Preimages::get(h) {
            Some(n) if n.owned && n.holds == 0 => Preimages::remove(h),
            Some(mut n) if n.owned => {
                n.owned = false;
                Preimages::insert(h, n)
            }
            _ => return false,
        }
        true
    }
}
impl QueryPreimage for SimPreimages {
    fn len(hash: &H256) -> Option<u32> {
        Preimages::get(hash).map(|n| n.bytes.len() as u32)
    }
    fn fetch(hash: &H256, _: Option<u32>) -> Result<Cow<'static, [u8]>, DispatchError> {
        Preimages::get(hash).filter(|n| !n.bytes.is_empty()).map(|n| Cow::Owned(n.bytes)).ok_or(DispatchError::Unavailable)
    }
    fn is_requested(hash: &H256) -> bool {
        Preimages::get(hash).map_or(false, |n| n.holds > 0)
    }
    fn request(hash: &H256) {
        let mut n = Preimages::get(hash).unwrap_or_default();
        n.holds += 1;
        Preimages::insert(hash, n);
    }
    fn unrequest(hash: &H256) {
        if let Some(mut n) = Preimages::get(hash) {
            n.holds = n.holds.saturating_sub(1);
            if n.holds == 0 && !n.owned {
                Preimages::remove(hash);
            } else {
                Preimages::insert(hash, n);
            }
        }
    }
    fn hold<T>(b: &Bounded<T>) {
        if b.lookup_needed() {
            Self::request(&b.hash())
        }
    }
    fn drop<T>(b: &Bounded<T>) {
        if b.lookup_needed() {
            Self::unrequest(&b.hash())
        }
    }
    fn have<T>(b: &Bounded<T>) -> bool {
        !b.lookup_needed() || Self::len(&b.hash()).map_or(false, |l| l > 0)
    }
    fn peek<T: Decode>(b: &Bounded<T>) -> Result<(T, Option<u32>), DispatchError> {
        let d = call_bytes(b).ok_or(DispatchError::Unavailable)?;
        T::decode(&mut &d[..]).map(|t| (t, None)).map_err(|_| DispatchError::Corruption)
    }
}
impl StorePreimage for SimPreimages {
    fn note(bytes: Cow<[u8]>) -> Result<H256, DispatchError> {
        let h = sp_core::hashing::blake2_256(&bytes).into();
        Self::note(bytes.into_owned());
        Ok(h)
    }
}
pub fn call_bytes<T>(b: &Bounded<T>) -> Option<Vec<u8>> {
    match b {
        Bounded::Inline(d) => Some(d.to_vec()),
        b => SimPreimages::fetch(&b.hash(), None).ok().map(|d| d.into_owned()),
    }
}

pub struct SimScheduler;
impl Named<u32, RuntimeCall, frame_system::SimOrigin<Acc>> for SimScheduler {
    type Address = (u32, u32);
    fn schedule_named(
        id: [u8; 32],
        when: DispatchTime<u32>,
        _: Option<Period<u32>>,
        _: Priority,
        origin: frame_system::SimOrigin<Acc>,
        call: Bounded<RuntimeCall>,
    ) -> Result<Self::Address, DispatchError> {
        let now = frame_system::Pallet::<Rt>::block_number();
        let when = match when {
            DispatchTime::At(x) => x,
            DispatchTime::After(x) => now + 1 + x,
        };
        let name = u32::from_le_bytes(id[8..12].try_into().unwrap());
        if when <= now || Agenda::iter().any(|((_, n), _)| n == name) {
            return Err(DispatchError::Other("can not be scheduled"));
        }
        Agenda::insert((when, name), Task { root: matches!(origin.0, frame_system::RawOrigin::Root), call });
        Ok((when, name))
    }
    fn cancel_named(_: [u8; 32]) -> Result<(), DispatchError> {
        Err(DispatchError::Unavailable)
    }
    fn reschedule_named(_: [u8; 32], _: DispatchTime<u32>) -> Result<Self::Address, DispatchError> {
        Err(DispatchError::Unavailable)
    }
    fn next_dispatch_time(_: [u8; 32]) -> Result<u32, DispatchError> {
        Err(DispatchError::Unavailable)
    }
}

// ------------------------------------------------------------ pallets

pub const WRAPPED: CurrencyId = Token(TokenSymbol::IBTC);
pub const NATIVE: CurrencyId = Token(TokenSymbol::INTR);
pub const OTHER: CurrencyId = Token(TokenSymbol::KSM);
pub const LP: [CurrencyId; 2] = [
    CurrencyId::LpToken(LpToken::Token(TokenSymbol::DOT), LpToken::Token(TokenSymbol::IBTC)),
    CurrencyId::LpToken(LpToken::Token(TokenSymbol::KSM), LpToken::StableLpToken(0)),
];

parameter_types! {
    pub const Native: CurrencyId = NATIVE;
    pub const TreasuryId: PalletId = PalletId(*b"mod/trsy");
    pub const SupplyId: PalletId = PalletId(*b"mod/supl");
    pub const EscrowAnnuityId: PalletId = PalletId(*b"esc/annu");
    pub const VaultAnnuityId: PalletId = PalletId(*b"vlt/annu");
    pub const FeeId: PalletId = PalletId(*b"mod/fees");
    pub const FarmingId: PalletId = PalletId(*b"mod/farm");
    pub const PotId: PalletId = PalletId(*b"col/slct");
}
macro_rules! account_of {
    ($($n:ident = $id:ident),*) => {
        $(pub struct $n; impl Get<Acc> for $n { fn get() -> Acc { sp_runtime::traits::AccountIdConversion::into_account_truncating(&$id::get()) } })*
    };
}
account_of!(Treasury = TreasuryId, Fees = FeeId, Pot = PotId);

pub struct ToBalance;
impl sp_runtime::traits::Convert<u32, u128> for ToBalance {
    fn convert(n: u32) -> u128 {
        n.into()
    }
}

impl pallet_timestamp::Config for Rt {
    type Moment = u64;
    type OnTimestampSet = ();
    type MinimumPeriod = ConstU64<1>;
    type WeightInfo = ();
}
impl orml_tokens::Config for Rt {
    type RuntimeEvent = Ev;
    type Balance = u128;
    type Amount = i128;
    type CurrencyId = CurrencyId;
    type WeightInfo = ();
    type ExistentialDeposits = ();
    type CurrencyHooks = ();
    type MaxLocks = ConstU32<10>;
    type MaxReserves = ConstU32<0>;
    type ReserveIdentifier = ();
    type DustRemovalWhitelist = ();
}
pub type NativeCurrency = CurrencyAdapter<Rt, Native>;

impl reward::Config<Instance1> for Rt {
    type RuntimeEvent = Ev;
    type SignedFixedPoint = FixedI128;
    type PoolId = ();
    type StakeId = Acc;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<1>;
}
impl reward::Config<Instance2> for Rt {
    type RuntimeEvent = Ev;
    type SignedFixedPoint = FixedI128;
    type PoolId = CurrencyId;
    type StakeId = Acc;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<3>;
}
impl escrow::Config for Rt {
    type RuntimeEvent = Ev;
    type BlockNumberToBalance = ToBalance;
    type Currency = NativeCurrency;
    type Span = Span;
    type MaxPeriod = MaxPeriod;
    type EscrowRewards = EscrowRewards;
    type WeightInfo = ();
}
pub struct TotalWrapped;
impl Get<u128> for TotalWrapped {
    fn get() -> u128 {
        <orml_tokens::Pallet<Rt> as orml_traits::MultiCurrency<Acc>>::total_issuance(WRAPPED)
    }
}
pub struct EscrowProvider;
impl annuity::BlockRewardProvider<Acc> for EscrowProvider {
    type Currency = NativeCurrency;
    fn distribute_block_reward(_: &Acc, amount: u128) -> DispatchResult {
        <EscrowRewards as RewardsApi<(), Acc, u128>>::distribute_reward(&(), NATIVE, amount)
    }
    fn withdraw_reward(who: &Acc) -> Result<u128, DispatchError> {
        <EscrowRewards as RewardsApi<(), Acc, u128>>::withdraw_reward(&(), who, NATIVE)
    }
}
pub struct VaultProvider;
impl annuity::BlockRewardProvider<Acc> for VaultProvider {
    type Currency = NativeCurrency;
    fn distribute_block_reward(from: &Acc, amount: u128) -> DispatchResult {
        Self::Currency::transfer(from, &Fees::get(), amount, ExistenceRequirement::KeepAlive)
    }
    fn withdraw_reward(_: &Acc) -> Result<u128, DispatchError> {
        Err(DispatchError::Other("Unsupported"))
    }
}
impl annuity::Config<Instance1> for Rt {
    type AnnuityPalletId = EscrowAnnuityId;
    type RuntimeEvent = Ev;
    type Currency = NativeCurrency;
    type BlockRewardProvider = EscrowProvider;
    type BlockNumberToBalance = ToBalance;
    type EmissionPeriod = Emission;
    type TotalWrapped = TotalWrapped;
    type WeightInfo = ();
}
impl annuity::Config<Instance2> for Rt {
    type AnnuityPalletId = VaultAnnuityId;
    type RuntimeEvent = Ev;
    type Currency = NativeCurrency;
    type BlockRewardProvider = VaultProvider;
    type BlockNumberToBalance = ToBalance;
    type EmissionPeriod = Emission;
    type TotalWrapped = TotalWrapped;
    type WeightInfo = ();
}
pub const VAULT_PERCENT: u128 = 30;
pub const ESCROW_PERCENT: u128 = 10;
pub struct DealWithRewards;
impl supply::OnInflation<Acc> for DealWithRewards {
    type Currency = NativeCurrency;
    fn on_inflation(from: &Acc, amount: u128) {
        let (v, e) = (amount * VAULT_PERCENT / 100, amount * ESCROW_PERCENT / 100);
        let give = |to: Acc, x: u128| {
            let _ = Self::Currency::transfer(from, &to, x, ExistenceRequirement::KeepAlive);
        };
        give(VaultAnnuity::account_id(), v);
        VaultAnnuity::update_reward_per_block();
        give(EscrowAnnuity::account_id(), e);
        EscrowAnnuity::update_reward_per_block();
        give(Treasury::get(), amount - v - e);
    }
}
impl supply::Config for Rt {
    type SupplyPalletId = SupplyId;
    type RuntimeEvent = Ev;
    type UnsignedFixedPoint = FixedU128;
    type Currency = NativeCurrency;
    type InflationPeriod = InflationPeriod;
    type OnInflation = DealWithRewards;
    type WeightInfo = ();
}
impl farming::Config for Rt {
    type RuntimeEvent = Ev;
    type FarmingPalletId = FarmingId;
    type TreasuryAccountId = Treasury;
    type RewardPeriod = RewardPeriod;
    type RewardPools = FarmingRewards;
    type MultiCurrency = Tokens;
    type WeightInfo = ();
}
impl democracy::Config for Rt {
    type RuntimeEvent = Ev;
    type Scheduler = SimScheduler;
    type Preimages = SimPreimages;
    type Currency = Escrow;
    type EnactmentPeriod = Enact;
    type VotingPeriod = Voting;
    type FastTrackVotingPeriod = Fast;
    type MinimumDeposit = MinDeposit;
    type MaxVotes = ConstU32<MAX_VOTES>;
    type MaxProposals = ConstU32<MAX_PROPOSALS>;
    type MaxDeposits = ConstU32<MAX_DEPOSITS>;
    type FastTrackOrigin = frame_system::EnsureRoot<Acc>;
    type PalletsOrigin = frame_system::SimOrigin<Acc>;
    type WeightInfo = ();
    type UnixTime = Timestamp;
    type LaunchPeriod = Launch;
    type TreasuryAccount = Treasury;
    type TreasuryCurrency = NativeCurrency;
}
pub struct Keys;
impl ValidatorRegistration<Acc> for Keys {
    fn is_registered(id: &Acc) -> bool {
        (1..=32).contains(id) && params().keys >> (id - 1) & 1 == 1
    }
}
impl pallet_authorship::Config for Rt {}
impl collator_selection::Config for Rt {
    type RuntimeEvent = Ev;
    type StakingCurrency = Escrow;
    type RewardsCurrency = NativeCurrency;
    type UpdateOrigin = frame_system::EnsureRoot<Acc>;
    type PotId = PotId;
    type MaxCandidates = ConstU32<MAX_CANDIDATES>;
    type MinCandidates = MinCandidates;
    type MaxInvulnerables = ConstU32<MAX_INVULNERABLES>;
    type KickThreshold = Kick;
    type ValidatorId = Acc;
    type ValidatorIdOf = collator_selection::IdentityCollator;
    type ValidatorRegistration = Keys;
    type WeightInfo = ();
}
pub struct Whitelist;
/// One call which can not be paused.
pub const WHITE: (&str, &str) = ("escrow", "withdraw");
impl Contains<tx_pause::FullNameOf<Rt>> for Whitelist {
    fn contains(n: &tx_pause::FullNameOf<Rt>) -> bool {
        n.0.as_slice() == WHITE.0.as_bytes() && n.1.as_ref().map_or(false, |c| c.as_slice() == WHITE.1.as_bytes())
    }
}
impl tx_pause::Config for Rt {
    type RuntimeEvent = Ev;
    type RuntimeCall = RuntimeCall;
    type PauseOrigin = frame_system::EnsureRoot<Acc>;
    type UnpauseOrigin = frame_system::EnsureRoot<Acc>;
    type WhitelistCallNames = Whitelist;
    type MaxNameLen = ConstU32<{ MAX_NAME as u32 }>;
    type PauseTooLongNames = TooLong;
    type WeightInfo = ();
}
impl clients_info::Config for Rt {
    type RuntimeEvent = Ev;
    type WeightInfo = ();
    type MaxNameLength = ConstU32<8>;
    type MaxUriLength = ConstU32<16>;
}

pub type System = frame_system::Pallet<Rt>;
pub type Timestamp = pallet_timestamp::Pallet<Rt>;
pub type Tokens = orml_tokens::Pallet<Rt>;
pub type EscrowRewards = reward::Pallet<Rt, Instance1>;
pub type FarmingRewards = reward::Pallet<Rt, Instance2>;
pub type Escrow = escrow::Pallet<Rt>;
pub type EscrowAnnuity = annuity::Pallet<Rt, Instance1>;
pub type VaultAnnuity = annuity::Pallet<Rt, Instance2>;
pub type Supply = supply::Pallet<Rt>;
pub type Farming = farming::Pallet<Rt>;
pub type Democracy = democracy::Pallet<Rt>;
pub type Collators = collator_selection::Pallet<Rt>;
pub type TxPause = tx_pause::Pallet<Rt>;
pub type Clients = clients_info::Pallet<Rt>;
