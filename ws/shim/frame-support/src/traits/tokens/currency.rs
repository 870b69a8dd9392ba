use super::*;
use codec::FullCodec;
use sp_arithmetic::traits::Zero;
use sp_runtime::traits::MaybeSerializeDeserialize;

pub type LockIdentifier = [u8; 8];

pub enum SameOrOther<A, B> {
    None,
    Same(A),
    Other(B),
}
pub trait TryDrop: Sized {
    fn try_drop(self) -> Result<(), Self>;
}
pub trait Imbalance<Balance>: Sized + Default {
    type Opposite: Imbalance<Balance>;
    fn zero() -> Self;
    fn drop_zero(self) -> Result<(), Self>;
    fn split(self, amount: Balance) -> (Self, Self);
    fn ration(self, first: u32, second: u32) -> (Self, Self)
    where
        Balance: From<u32> + sp_runtime::traits::Saturating + core::ops::Div<Output = Balance>,
    {
        let total: u32 = first.saturating_add(second);
        if total == 0 {
            return (Self::zero(), Self::zero());
        }
        let amount1 = self.peek().saturating_mul(first.into()) / total.into();
        self.split(amount1)
    }
    fn merge(self, other: Self) -> Self;
    fn subsume(&mut self, other: Self);
    fn maybe_merge(self, other: Option<Self>) -> Self {
        match other {
            Some(x) => self.merge(x),
            None => self,
        }
    }
    fn maybe_subsume(&mut self, other: Option<Self>) {
        if let Some(x) = other {
            self.subsume(x)
        }
    }
    fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite>;
    fn peek(&self) -> Balance;
}
pub enum SignedImbalance<B, PositiveImbalance: Imbalance<B>> {
    Positive(PositiveImbalance),
    Negative(PositiveImbalance::Opposite),
}
impl<P: Imbalance<B, Opposite = N>, N: Imbalance<B, Opposite = P>, B: Zero> SignedImbalance<B, P> {
    pub fn zero() -> Self {
        SignedImbalance::Positive(P::zero())
    }
}

pub trait Currency<AccountId> {
    type Balance: Balance + MaybeSerializeDeserialize;
    type PositiveImbalance: Imbalance<Self::Balance, Opposite = Self::NegativeImbalance>;
    type NegativeImbalance: Imbalance<Self::Balance, Opposite = Self::PositiveImbalance>;
    fn total_balance(who: &AccountId) -> Self::Balance;
    fn can_slash(who: &AccountId, value: Self::Balance) -> bool;
    fn total_issuance() -> Self::Balance;
    fn active_issuance() -> Self::Balance {
        Self::total_issuance()
    }
    fn deactivate(_: Self::Balance) {}
    fn reactivate(_: Self::Balance) {}
    fn pair(amount: Self::Balance) -> (Self::PositiveImbalance, Self::NegativeImbalance) {
        (Self::burn(amount), Self::issue(amount))
    }
    fn minimum_balance() -> Self::Balance;
    fn burn(amount: Self::Balance) -> Self::PositiveImbalance;
    fn issue(amount: Self::Balance) -> Self::NegativeImbalance;
    fn free_balance(who: &AccountId) -> Self::Balance;
    fn ensure_can_withdraw(
        who: &AccountId,
        amount: Self::Balance,
        reasons: WithdrawReasons,
        new_balance: Self::Balance,
    ) -> DispatchResult;
    fn transfer(
        source: &AccountId,
        dest: &AccountId,
        value: Self::Balance,
        existence_requirement: ExistenceRequirement,
    ) -> DispatchResult;
    fn slash(who: &AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
    fn deposit_into_existing(who: &AccountId, value: Self::Balance) -> Result<Self::PositiveImbalance, DispatchError>;
    fn resolve_into_existing(who: &AccountId, value: Self::NegativeImbalance) -> Result<(), Self::NegativeImbalance> {
        let v = value.peek();
        match Self::deposit_into_existing(who, v) {
            Ok(opposite) => {
                let _ = value.offset(opposite);
                Ok(())
            }
            _ => Err(value),
        }
    }
    fn deposit_creating(who: &AccountId, value: Self::Balance) -> Self::PositiveImbalance;
    fn resolve_creating(who: &AccountId, value: Self::NegativeImbalance) {
        let v = value.peek();
        let _ = value.offset(Self::deposit_creating(who, v));
    }
    fn withdraw(
        who: &AccountId,
        value: Self::Balance,
        reasons: WithdrawReasons,
        liveness: ExistenceRequirement,
    ) -> Result<Self::NegativeImbalance, DispatchError>;
    fn settle(
        who: &AccountId,
        value: Self::PositiveImbalance,
        reasons: WithdrawReasons,
        liveness: ExistenceRequirement,
    ) -> Result<(), Self::PositiveImbalance> {
        let v = value.peek();
        match Self::withdraw(who, v, reasons, liveness) {
            Ok(o) => {
                let _ = value.offset(o);
                Ok(())
            }
            _ => Err(value),
        }
    }
    fn make_free_balance_be(
        who: &AccountId,
        balance: Self::Balance,
    ) -> SignedImbalance<Self::Balance, Self::PositiveImbalance>;
}
pub trait ReservableCurrency<AccountId>: Currency<AccountId> {
    fn can_reserve(who: &AccountId, value: Self::Balance) -> bool;
    fn slash_reserved(who: &AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
    fn reserved_balance(who: &AccountId) -> Self::Balance;
    fn reserve(who: &AccountId, value: Self::Balance) -> DispatchResult;
    fn unreserve(who: &AccountId, value: Self::Balance) -> Self::Balance;
    fn repatriate_reserved(
        slashed: &AccountId,
        beneficiary: &AccountId,
        value: Self::Balance,
        status: BalanceStatus,
    ) -> Result<Self::Balance, DispatchError>;
}
pub trait LockableCurrency<AccountId>: Currency<AccountId> {
    type Moment;
    type MaxLocks: crate::traits::Get<u32>;
    fn set_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons);
    fn extend_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons);
    fn remove_lock(id: LockIdentifier, who: &AccountId);
}
#[allow(unused)]
fn _u<T: FullCodec>() {}
