use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_arithmetic::traits::AtLeast32BitUnsigned;
use sp_runtime::{ArithmeticError, DispatchError, DispatchResult, RuntimeDebug, TokenError};
use sp_std::fmt::Debug;

pub mod currency;
pub mod fungible;
pub mod fungibles;

#[derive(Copy, Clone, RuntimeDebug, Eq, PartialEq)]
pub enum ExistenceRequirement {
    KeepAlive,
    AllowDeath,
}
#[derive(Copy, Clone, RuntimeDebug, Eq, PartialEq)]
pub enum Provenance {
    Minted,
    Extant,
}
#[derive(Copy, Clone, RuntimeDebug, Eq, PartialEq)]
pub enum Restriction {
    Free,
    OnHold,
}
#[derive(Copy, Clone, RuntimeDebug, Eq, PartialEq)]
pub enum Preservation {
    Expendable,
    Protect,
    Preserve,
}
#[derive(Copy, Clone, RuntimeDebug, Eq, PartialEq)]
pub enum Fortitude {
    Polite,
    Force,
}
#[derive(Copy, Clone, RuntimeDebug, Eq, PartialEq)]
pub enum Precision {
    Exact,
    BestEffort,
}
#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, RuntimeDebug, TypeInfo, MaxEncodedLen)]
pub enum BalanceStatus {
    Free,
    Reserved,
}
bitflags::bitflags! {
    #[derive(Encode, Decode, MaxEncodedLen)]
    pub struct WithdrawReasons: u8 {
        const TRANSACTION_PAYMENT = 0b00000001;
        const TRANSFER = 0b00000010;
        const RESERVE = 0b00000100;
        const FEE = 0b00001000;
        const TIP = 0b00010000;
    }
}
impl WithdrawReasons {
    pub fn except(one: WithdrawReasons) -> WithdrawReasons {
        let mut flags = Self::all();
        flags.toggle(one);
        flags
    }
}
#[derive(RuntimeDebug, Eq, PartialEq)]
pub enum WithdrawConsequence<Balance> {
    BalanceLow,
    WouldDie,
    UnknownAsset,
    Underflow,
    Overflow,
    Frozen,
    ReducedToZero(Balance),
    Success,
}
impl<Balance: AtLeast32BitUnsigned + Copy> WithdrawConsequence<Balance> {
    pub fn into_result(self, keep_nonzero: bool) -> Result<Balance, DispatchError> {
        use WithdrawConsequence::*;
        match self {
            BalanceLow => Err(TokenError::FundsUnavailable.into()),
            WouldDie => Err(TokenError::OnlyProvider.into()),
            UnknownAsset => Err(TokenError::UnknownAsset.into()),
            Underflow => Err(ArithmeticError::Underflow.into()),
            Overflow => Err(ArithmeticError::Overflow.into()),
            Frozen => Err(TokenError::Frozen.into()),
            ReducedToZero(_) if keep_nonzero => Err(TokenError::NotExpendable.into()),
            ReducedToZero(r) => Ok(r),
            Success => Ok(num_zero()),
        }
    }
}
fn num_zero<B: AtLeast32BitUnsigned>() -> B {
    sp_arithmetic::traits::Zero::zero()
}
#[derive(RuntimeDebug, Eq, PartialEq)]
pub enum DepositConsequence {
    BelowMinimum,
    CannotCreate,
    UnknownAsset,
    Overflow,
    Success,
    Blocked,
}
impl DepositConsequence {
    pub fn into_result(self) -> DispatchResult {
        use DepositConsequence::*;
        Err(match self {
            BelowMinimum => TokenError::BelowMinimum.into(),
            CannotCreate => TokenError::CannotCreate.into(),
            UnknownAsset => TokenError::UnknownAsset.into(),
            Overflow => ArithmeticError::Overflow.into(),
            Blocked => TokenError::Blocked.into(),
            Success => return Ok(()),
        })
    }
}
pub trait AssetId: codec::FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen {}
impl<T: codec::FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen> AssetId for T {}
pub trait Balance:
    AtLeast32BitUnsigned + codec::FullCodec + Copy + Default + Debug + scale_info::TypeInfo + MaxEncodedLen + Send + Sync + sp_runtime::FixedPointOperand + 'static
{
}
impl<T: AtLeast32BitUnsigned + codec::FullCodec + Copy + Default + Debug + scale_info::TypeInfo + MaxEncodedLen + Send + Sync + sp_runtime::FixedPointOperand + 'static>
    Balance for T
{
}
