//! Stand-in for `orml-tokens` at the pinned revision: free, reserved and locked balances, total
//! issuance, the hooks around deposits, transfers and slashes, and the single-currency adapter.
//! Existential deposits are zero, as in the repository's runtimes.
pub use imbalances::{NegativeImbalance, PositiveImbalance};
pub use module::*;

use frame_support::traits::tokens::{fungible, fungibles, BalanceStatus, Fortitude, Preservation, Provenance};
use frame_support::traits::tokens::{DepositConsequence, WithdrawConsequence};
use frame_support::traits::{Currency, ExistenceRequirement, Get, LockIdentifier, LockableCurrency, ReservableCurrency, SignedImbalance, WithdrawReasons};
use orml_traits::currency::{MutationHooks, OnDeposit, OnSlash, OnTransfer};
use orml_traits::{MultiCurrency, MultiLockableCurrency, MultiReservableCurrency};
use sp_runtime::traits::{Bounded, CheckedAdd, CheckedSub, MaybeSerializeDeserialize, Member, Saturating, Zero};
use sp_runtime::{ArithmeticError, DispatchError, DispatchResult};
use std::marker::PhantomData;

#[derive(codec::Encode, codec::Decode, Clone, PartialEq, Eq, Debug, scale_info::TypeInfo, codec::MaxEncodedLen)]
pub struct BalanceLock<Balance> {
    pub id: LockIdentifier,
    pub amount: Balance,
}
#[derive(codec::Encode, codec::Decode, Clone, PartialEq, Eq, Default, Debug, scale_info::TypeInfo, codec::MaxEncodedLen)]
pub struct AccountData<Balance> {
    pub free: Balance,
    pub reserved: Balance,
    pub frozen: Balance,
}
impl<B: Saturating + Copy> AccountData<B> {
    pub fn total(&self) -> B {
        self.free.saturating_add(self.reserved)
    }
}

#[frame_support::pallet]
pub mod module {
    use super::*;
    use frame_support::pallet_prelude::*;
    use sp_runtime::traits::AtLeast32BitUnsigned;

    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent: From<Event<Self>> + Into<<Self as frame_system::Config>::RuntimeEvent>;
        type Balance: Parameter
            + Member
            + AtLeast32BitUnsigned
            + Default
            + Copy
            + MaybeSerializeDeserialize
            + MaxEncodedLen
            + TypeInfo;
        type Amount;
        type CurrencyId: Parameter + Member + Copy + MaybeSerializeDeserialize + Ord + TypeInfo + MaxEncodedLen;
        type WeightInfo;
        type ExistentialDeposits;
        type CurrencyHooks: MutationHooks<Self::AccountId, Self::CurrencyId, Self::Balance>;
        type MaxLocks: Get<u32>;
        type MaxReserves: Get<u32>;
        type ReserveIdentifier;
        type DustRemovalWhitelist;
    }

    #[pallet::error]
    pub enum Error<T> {
        BalanceTooLow,
        AmountIntoBalanceFailed,
        LiquidityRestrictions,
        MaxLocksExceeded,
        KeepAlive,
        ExistentialDeposit,
        DeadAccount,
        TooManyReserves,
    }

    #[pallet::event]
    #[pallet::generate_deposit(pub(crate) fn deposit_event)]
    pub enum Event<T: Config> {
        Transfer { currency_id: T::CurrencyId, from: T::AccountId, to: T::AccountId, amount: T::Balance },
        Reserved { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Unreserved { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Deposited { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Withdrawn { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
        Slashed { currency_id: T::CurrencyId, who: T::AccountId, free_amount: T::Balance, reserved_amount: T::Balance },
    }

    #[pallet::storage]
    #[pallet::getter(fn total_issuance)]
    pub type TotalIssuance<T: Config> = StorageMap<_, Twox64Concat, T::CurrencyId, T::Balance, ValueQuery>;

    #[pallet::storage]
    #[pallet::getter(fn locks)]
    pub type Locks<T: Config> = StorageDoubleMap<
        _,
        Blake2_128Concat,
        T::AccountId,
        Twox64Concat,
        T::CurrencyId,
        Vec<BalanceLock<T::Balance>>,
        ValueQuery,
    >;

    #[pallet::storage]
    #[pallet::getter(fn accounts)]
    pub type Accounts<T: Config> = StorageDoubleMap<
        _,
        Blake2_128Concat,
        T::AccountId,
        Twox64Concat,
        T::CurrencyId,
        AccountData<T::Balance>,
        ValueQuery,
    >;

    #[pallet::pallet]
    pub struct Pallet<T>(_);
}

type Hooks<T> = <T as Config>::CurrencyHooks;
type PreTransfer<T> =
    <Hooks<T> as MutationHooks<<T as frame_system::Config>::AccountId, <T as Config>::CurrencyId, <T as Config>::Balance>>::PreTransfer;
type PostTransfer<T> =
    <Hooks<T> as MutationHooks<<T as frame_system::Config>::AccountId, <T as Config>::CurrencyId, <T as Config>::Balance>>::PostTransfer;
type PreDeposit<T> =
    <Hooks<T> as MutationHooks<<T as frame_system::Config>::AccountId, <T as Config>::CurrencyId, <T as Config>::Balance>>::PreDeposit;
type PostDeposit<T> =
    <Hooks<T> as MutationHooks<<T as frame_system::Config>::AccountId, <T as Config>::CurrencyId, <T as Config>::Balance>>::PostDeposit;
type SlashHook<T> =
    <Hooks<T> as MutationHooks<<T as frame_system::Config>::AccountId, <T as Config>::CurrencyId, <T as Config>::Balance>>::OnSlash;

impl<T: Config> Pallet<T> {
    /// Simulator interface: what the `set_balance` root call does to the free balance.
    pub fn sim_set_free(who: &T::AccountId, currency: T::CurrencyId, free: T::Balance) {
        let old = Accounts::<T>::get(who, currency).free;
        Accounts::<T>::mutate(who, currency, |a| a.free = free);
        TotalIssuance::<T>::mutate(currency, |t| *t = *t - old + free);
    }
    /// The `set_balance` root call.
    pub fn set_balance(
        _origin: impl Into<Result<frame_system::RawOrigin<T::AccountId>, T::RuntimeOrigin>>,
        who: T::AccountId,
        currency: T::CurrencyId,
        free: T::Balance,
        reserved: T::Balance,
    ) -> DispatchResult {
        let old = Accounts::<T>::get(&who, currency);
        Accounts::<T>::mutate(&who, currency, |a| {
            a.free = free;
            a.reserved = reserved
        });
        TotalIssuance::<T>::mutate(currency, |t| *t = *t - old.free - old.reserved + free + reserved);
        Ok(())
    }

    fn do_transfer(currency: T::CurrencyId, from: &T::AccountId, to: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() || from == to {
            return Ok(());
        }
        PreTransfer::<T>::on_transfer(currency, from, to, amount)?;
        let mut f = Accounts::<T>::get(from, currency);
        let mut t = Accounts::<T>::get(to, currency);
        f.free = f.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
        t.free = t.free.checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
        <Self as MultiCurrency<_>>::ensure_can_withdraw(currency, from, amount)?;
        Accounts::<T>::insert(from, currency, f);
        Accounts::<T>::insert(to, currency, t);
        PostTransfer::<T>::on_transfer(currency, from, to, amount)?;
        Self::deposit_event(Event::Transfer { currency_id: currency, from: from.clone(), to: to.clone(), amount });
        Ok(())
    }
    fn do_withdraw(currency: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        <Self as MultiCurrency<_>>::ensure_can_withdraw(currency, who, amount)?;
        let mut a = Accounts::<T>::get(who, currency);
        a.free = a.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
        Accounts::<T>::insert(who, currency, a);
        TotalIssuance::<T>::mutate(currency, |v| *v -= amount);
        Self::deposit_event(Event::Withdrawn { currency_id: currency, who: who.clone(), amount });
        Ok(())
    }
    fn do_deposit(currency: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        PreDeposit::<T>::on_deposit(currency, who, amount)?;
        let issuance = TotalIssuance::<T>::get(currency).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
        TotalIssuance::<T>::insert(currency, issuance);
        Accounts::<T>::mutate(who, currency, |a| a.free += amount);
        PostDeposit::<T>::on_deposit(currency, who, amount)?;
        Self::deposit_event(Event::Deposited { currency_id: currency, who: who.clone(), amount });
        Ok(())
    }
    fn update_locks(currency: T::CurrencyId, who: &T::AccountId, locks: Vec<BalanceLock<T::Balance>>) -> DispatchResult {
        if locks.len() > T::MaxLocks::get() as usize {
            return Err(Error::<T>::MaxLocksExceeded.into());
        }
        let frozen = locks.iter().map(|l| l.amount).max().unwrap_or_else(Zero::zero);
        Accounts::<T>::mutate(who, currency, |a| a.frozen = frozen);
        if locks.is_empty() {
            Locks::<T>::remove(who, currency);
        } else {
            Locks::<T>::insert(who, currency, locks);
        }
        Ok(())
    }
}

impl<T: Config> MultiCurrency<T::AccountId> for Pallet<T> {
    type CurrencyId = T::CurrencyId;
    type Balance = T::Balance;
    fn minimum_balance(_: T::CurrencyId) -> T::Balance {
        Zero::zero()
    }
    fn total_issuance(currency: T::CurrencyId) -> T::Balance {
        TotalIssuance::<T>::get(currency)
    }
    fn total_balance(currency: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Accounts::<T>::get(who, currency).total()
    }
    fn free_balance(currency: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Accounts::<T>::get(who, currency).free
    }
    fn ensure_can_withdraw(currency: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        let a = Accounts::<T>::get(who, currency);
        let new = a.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
        if new < a.frozen {
            return Err(Error::<T>::LiquidityRestrictions.into());
        }
        Ok(())
    }
    fn transfer(currency: T::CurrencyId, from: &T::AccountId, to: &T::AccountId, amount: T::Balance) -> DispatchResult {
        Self::do_transfer(currency, from, to, amount)
    }
    fn deposit(currency: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        Self::do_deposit(currency, who, amount)
    }
    fn withdraw(currency: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        Self::do_withdraw(currency, who, amount)
    }
    fn can_slash(currency: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> bool {
        value.is_zero() || Self::free_balance(currency, who) >= value
    }
    fn slash(currency: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> T::Balance {
        if amount.is_zero() {
            return amount;
        }
        SlashHook::<T>::on_slash(currency, who, amount);
        let mut a = Accounts::<T>::get(who, currency);
        let free = a.free.min(amount);
        let rest = amount - free;
        let reserved = a.reserved.min(rest);
        a.free -= free;
        a.reserved -= reserved;
        Accounts::<T>::insert(who, currency, a);
        TotalIssuance::<T>::mutate(currency, |v| *v -= free + reserved);
        Self::deposit_event(Event::Slashed { currency_id: currency, who: who.clone(), free_amount: free, reserved_amount: reserved });
        rest - reserved
    }
}

impl<T: Config> MultiReservableCurrency<T::AccountId> for Pallet<T> {
    fn can_reserve(currency: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> bool {
        value.is_zero() || Self::ensure_can_withdraw(currency, who, value).is_ok()
    }
    fn slash_reserved(currency: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> T::Balance {
        if value.is_zero() {
            return value;
        }
        SlashHook::<T>::on_slash(currency, who, value);
        let reserved = Self::reserved_balance(currency, who);
        let actual = reserved.min(value);
        Accounts::<T>::mutate(who, currency, |a| a.reserved = reserved - actual);
        TotalIssuance::<T>::mutate(currency, |v| *v -= actual);
        Self::deposit_event(Event::Slashed { currency_id: currency, who: who.clone(), free_amount: Zero::zero(), reserved_amount: actual });
        value - actual
    }
    fn reserved_balance(currency: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Accounts::<T>::get(who, currency).reserved
    }
    fn reserve(currency: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> DispatchResult {
        if value.is_zero() {
            return Ok(());
        }
        Self::ensure_can_withdraw(currency, who, value)?;
        Accounts::<T>::mutate(who, currency, |a| {
            a.free -= value;
            a.reserved += value;
        });
        Self::deposit_event(Event::Reserved { currency_id: currency, who: who.clone(), amount: value });
        Ok(())
    }
    fn unreserve(currency: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> T::Balance {
        if value.is_zero() {
            return value;
        }
        let reserved = Self::reserved_balance(currency, who);
        let actual = reserved.min(value);
        Accounts::<T>::mutate(who, currency, |a| {
            a.reserved -= actual;
            a.free += actual;
        });
        Self::deposit_event(Event::Unreserved { currency_id: currency, who: who.clone(), amount: actual });
        value - actual
    }
    fn repatriate_reserved(
        currency: T::CurrencyId,
        slashed: &T::AccountId,
        beneficiary: &T::AccountId,
        value: T::Balance,
        status: BalanceStatus,
    ) -> Result<T::Balance, DispatchError> {
        if value.is_zero() {
            return Ok(value);
        }
        if slashed == beneficiary {
            return Ok(match status {
                BalanceStatus::Free => Self::unreserve(currency, slashed, value),
                BalanceStatus::Reserved => value.saturating_sub(Self::reserved_balance(currency, slashed)),
            });
        }
        let actual = Self::reserved_balance(currency, slashed).min(value);
        Accounts::<T>::mutate(slashed, currency, |a| a.reserved -= actual);
        Accounts::<T>::mutate(beneficiary, currency, |a| match status {
            BalanceStatus::Free => a.free += actual,
            BalanceStatus::Reserved => a.reserved += actual,
        });
        Ok(value - actual)
    }
}

impl<T: Config> MultiLockableCurrency<T::AccountId> for Pallet<T> {
    type Moment = frame_system::pallet_prelude::BlockNumberFor<T>;
    fn set_lock(id: LockIdentifier, currency: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        let mut locks = Locks::<T>::get(who, currency);
        match locks.iter_mut().find(|l| l.id == id) {
            Some(l) => l.amount = amount,
            None => locks.push(BalanceLock { id, amount }),
        }
        Self::update_locks(currency, who, locks)
    }
    fn extend_lock(id: LockIdentifier, currency: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        let mut locks = Locks::<T>::get(who, currency);
        match locks.iter_mut().find(|l| l.id == id) {
            Some(l) => l.amount = l.amount.max(amount),
            None => locks.push(BalanceLock { id, amount }),
        }
        Self::update_locks(currency, who, locks)
    }
    fn remove_lock(id: LockIdentifier, currency: T::CurrencyId, who: &T::AccountId) -> DispatchResult {
        let mut locks = Locks::<T>::get(who, currency);
        locks.retain(|l| l.id != id);
        Self::update_locks(currency, who, locks)
    }
}

impl<T: Config> fungibles::Inspect<T::AccountId> for Pallet<T>
where
    T::Balance: Send + Sync + sp_runtime::FixedPointOperand + 'static,
{
    type AssetId = T::CurrencyId;
    type Balance = T::Balance;
    fn total_issuance(c: T::CurrencyId) -> T::Balance {
        TotalIssuance::<T>::get(c)
    }
    fn minimum_balance(_: T::CurrencyId) -> T::Balance {
        Zero::zero()
    }
    fn total_balance(c: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Accounts::<T>::get(who, c).total()
    }
    fn balance(c: T::CurrencyId, who: &T::AccountId) -> T::Balance {
        Accounts::<T>::get(who, c).total()
    }
    fn reducible_balance(c: T::CurrencyId, who: &T::AccountId, _p: Preservation, _f: Fortitude) -> T::Balance {
        let a = Accounts::<T>::get(who, c);
        a.free.saturating_sub(a.frozen)
    }
    fn can_deposit(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance, _: Provenance) -> DepositConsequence {
        if TotalIssuance::<T>::get(c).checked_add(&amount).is_none()
            || Accounts::<T>::get(who, c).total().checked_add(&amount).is_none()
        {
            return DepositConsequence::Overflow;
        }
        DepositConsequence::Success
    }
    fn can_withdraw(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
        let a = Accounts::<T>::get(who, c);
        match a.free.checked_sub(&amount) {
            None => WithdrawConsequence::BalanceLow,
            Some(n) if n < a.frozen => WithdrawConsequence::Frozen,
            Some(_) => WithdrawConsequence::Success,
        }
    }
    fn asset_exists(c: T::CurrencyId) -> bool {
        TotalIssuance::<T>::contains_key(c)
    }
}

mod imbalances {
    use super::*;
    use frame_support::traits::{Imbalance, SameOrOther};
    /// Opaque, move-only: issuance is adjusted when it is dropped.
    pub struct PositiveImbalance<T: Config, C: Get<T::CurrencyId>>(T::Balance, PhantomData<C>);
    pub struct NegativeImbalance<T: Config, C: Get<T::CurrencyId>>(T::Balance, PhantomData<C>);
    macro_rules! imb {
        ($a:ident, $b:ident, $drop:expr) => {
            impl<T: Config, C: Get<T::CurrencyId>> $a<T, C> {
                pub fn new(x: T::Balance) -> Self {
                    $a(x, PhantomData)
                }
            }
            impl<T: Config, C: Get<T::CurrencyId>> Default for $a<T, C> {
                fn default() -> Self {
                    Self::new(Zero::zero())
                }
            }
            impl<T: Config, C: Get<T::CurrencyId>> Imbalance<T::Balance> for $a<T, C> {
                type Opposite = $b<T, C>;
                fn zero() -> Self {
                    Self::new(Zero::zero())
                }
                fn drop_zero(self) -> Result<(), Self> {
                    if self.0.is_zero() {
                        Ok(())
                    } else {
                        Err(self)
                    }
                }
                fn split(self, amount: T::Balance) -> (Self, Self) {
                    let first = self.0.min(amount);
                    let second = self.0 - first;
                    core::mem::forget(self);
                    (Self::new(first), Self::new(second))
                }
                fn merge(mut self, other: Self) -> Self {
                    self.0 = self.0.saturating_add(other.0);
                    core::mem::forget(other);
                    self
                }
                fn subsume(&mut self, other: Self) {
                    self.0 = self.0.saturating_add(other.0);
                    core::mem::forget(other);
                }
                fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite> {
                    let (a, b) = (self.0, other.0);
                    core::mem::forget((self, other));
                    if a > b {
                        SameOrOther::Same(Self::new(a - b))
                    } else if b > a {
                        SameOrOther::Other($b::new(b - a))
                    } else {
                        SameOrOther::None
                    }
                }
                fn peek(&self) -> T::Balance {
                    self.0
                }
            }
            impl<T: Config, C: Get<T::CurrencyId>> Drop for $a<T, C> {
                fn drop(&mut self) {
                    if !self.0.is_zero() {
                        let f: fn(&mut T::Balance, T::Balance) = $drop;
                        TotalIssuance::<T>::mutate(C::get(), |v| f(v, self.0));
                    }
                }
            }
        };
    }
    imb!(PositiveImbalance, NegativeImbalance, |v, x| *v = v.saturating_add(x));
    imb!(NegativeImbalance, PositiveImbalance, |v, x| *v = v.saturating_sub(x));
}

pub struct CurrencyAdapter<T, GetCurrencyId>(PhantomData<(T, GetCurrencyId)>);
impl<T: Config, C: Get<T::CurrencyId>> Currency<T::AccountId> for CurrencyAdapter<T, C>
where
    T::Balance: Send + Sync + sp_runtime::FixedPointOperand + 'static,
{
    type Balance = T::Balance;
    type PositiveImbalance = PositiveImbalance<T, C>;
    type NegativeImbalance = NegativeImbalance<T, C>;
    fn total_balance(who: &T::AccountId) -> T::Balance {
        <Pallet<T> as MultiCurrency<_>>::total_balance(C::get(), who)
    }
    fn can_slash(who: &T::AccountId, value: T::Balance) -> bool {
        <Pallet<T> as MultiCurrency<_>>::can_slash(C::get(), who, value)
    }
    fn total_issuance() -> T::Balance {
        TotalIssuance::<T>::get(C::get())
    }
    fn minimum_balance() -> T::Balance {
        Zero::zero()
    }
    fn burn(mut amount: T::Balance) -> Self::PositiveImbalance {
        TotalIssuance::<T>::mutate(C::get(), |i| {
            *i = i.checked_sub(&amount).unwrap_or_else(|| {
                amount = *i;
                Zero::zero()
            })
        });
        PositiveImbalance::new(amount)
    }
    fn issue(mut amount: T::Balance) -> Self::NegativeImbalance {
        TotalIssuance::<T>::mutate(C::get(), |i| {
            *i = i.checked_add(&amount).unwrap_or_else(|| {
                amount = T::Balance::max_value() - *i;
                T::Balance::max_value()
            })
        });
        NegativeImbalance::new(amount)
    }
    fn free_balance(who: &T::AccountId) -> T::Balance {
        <Pallet<T> as MultiCurrency<_>>::free_balance(C::get(), who)
    }
    fn ensure_can_withdraw(who: &T::AccountId, amount: T::Balance, _: WithdrawReasons, _: T::Balance) -> DispatchResult {
        <Pallet<T> as MultiCurrency<_>>::ensure_can_withdraw(C::get(), who, amount)
    }
    fn transfer(source: &T::AccountId, dest: &T::AccountId, value: T::Balance, _: ExistenceRequirement) -> DispatchResult {
        Pallet::<T>::do_transfer(C::get(), source, dest, value)
    }
    fn slash(who: &T::AccountId, value: T::Balance) -> (Self::NegativeImbalance, T::Balance) {
        if value.is_zero() {
            return (NegativeImbalance::new(Zero::zero()), value);
        }
        let c = C::get();
        SlashHook::<T>::on_slash(c, who, value);
        let mut a = Accounts::<T>::get(who, c);
        let free = a.free.min(value);
        let reserved = a.reserved.min(value - free);
        a.free -= free;
        a.reserved -= reserved;
        Accounts::<T>::insert(who, c, a);
        (NegativeImbalance::new(free + reserved), value - free - reserved)
    }
    fn deposit_into_existing(who: &T::AccountId, value: T::Balance) -> Result<Self::PositiveImbalance, DispatchError> {
        if value.is_zero() {
            return Ok(PositiveImbalance::new(Zero::zero()));
        }
        // issuance is not changed here: the returned imbalance does
        let c = C::get();
        PreDeposit::<T>::on_deposit(c, who, value)?;
        if !Accounts::<T>::contains_key(who, c) {
            return Err(Error::<T>::DeadAccount.into());
        }
        Accounts::<T>::mutate(who, c, |a| a.free += value);
        PostDeposit::<T>::on_deposit(c, who, value)?;
        Ok(PositiveImbalance::new(value))
    }
    fn deposit_creating(who: &T::AccountId, value: T::Balance) -> Self::PositiveImbalance {
        if value.is_zero() {
            return PositiveImbalance::new(Zero::zero());
        }
        let c = C::get();
        if PreDeposit::<T>::on_deposit(c, who, value).is_err() {
            return PositiveImbalance::new(Zero::zero());
        }
        let r = Accounts::<T>::try_mutate(who, c, |a| -> Result<(), ()> {
            a.free = a.free.checked_add(&value).ok_or(())?;
            Ok(())
        });
        if r.is_err() {
            return PositiveImbalance::new(Zero::zero());
        }
        let _ = PostDeposit::<T>::on_deposit(c, who, value);
        PositiveImbalance::new(value)
    }
    fn withdraw(
        who: &T::AccountId,
        value: T::Balance,
        _: WithdrawReasons,
        _: ExistenceRequirement,
    ) -> Result<Self::NegativeImbalance, DispatchError> {
        if value.is_zero() {
            return Ok(NegativeImbalance::new(Zero::zero()));
        }
        let c = C::get();
        <Pallet<T> as MultiCurrency<_>>::ensure_can_withdraw(c, who, value)?;
        Accounts::<T>::mutate(who, c, |a| a.free -= value);
        Ok(NegativeImbalance::new(value))
    }
    fn make_free_balance_be(who: &T::AccountId, value: T::Balance) -> SignedImbalance<T::Balance, Self::PositiveImbalance> {
        let c = C::get();
        let old = Accounts::<T>::mutate(who, c, |a| core::mem::replace(&mut a.free, value));
        if old <= value {
            SignedImbalance::Positive(PositiveImbalance::new(value - old))
        } else {
            SignedImbalance::Negative(NegativeImbalance::new(old - value))
        }
    }
}
impl<T: Config, C: Get<T::CurrencyId>> ReservableCurrency<T::AccountId> for CurrencyAdapter<T, C>
where
    T::Balance: Send + Sync + sp_runtime::FixedPointOperand + 'static,
{
    fn can_reserve(who: &T::AccountId, value: T::Balance) -> bool {
        Pallet::<T>::can_reserve(C::get(), who, value)
    }
    fn slash_reserved(who: &T::AccountId, value: T::Balance) -> (Self::NegativeImbalance, T::Balance) {
        let c = C::get();
        SlashHook::<T>::on_slash(c, who, value);
        let reserved = Pallet::<T>::reserved_balance(c, who);
        let actual = reserved.min(value);
        Accounts::<T>::mutate(who, c, |a| a.reserved = reserved - actual);
        (NegativeImbalance::new(actual), value - actual)
    }
    fn reserved_balance(who: &T::AccountId) -> T::Balance {
        Pallet::<T>::reserved_balance(C::get(), who)
    }
    fn reserve(who: &T::AccountId, value: T::Balance) -> DispatchResult {
        Pallet::<T>::reserve(C::get(), who, value)
    }
    fn unreserve(who: &T::AccountId, value: T::Balance) -> T::Balance {
        Pallet::<T>::unreserve(C::get(), who, value)
    }
    fn repatriate_reserved(a: &T::AccountId, b: &T::AccountId, value: T::Balance, s: BalanceStatus) -> Result<T::Balance, DispatchError> {
        Pallet::<T>::repatriate_reserved(C::get(), a, b, value, s)
    }
}
impl<T: Config, C: Get<T::CurrencyId>> LockableCurrency<T::AccountId> for CurrencyAdapter<T, C>
where
    T::Balance: Send + Sync + sp_runtime::FixedPointOperand + 'static,
{
    type Moment = frame_system::pallet_prelude::BlockNumberFor<T>;
    type MaxLocks = ();
    fn set_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, _: WithdrawReasons) {
        let _ = Pallet::<T>::set_lock(id, C::get(), who, amount);
    }
    fn extend_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, _: WithdrawReasons) {
        let _ = Pallet::<T>::extend_lock(id, C::get(), who, amount);
    }
    fn remove_lock(id: LockIdentifier, who: &T::AccountId) {
        let _ = Pallet::<T>::remove_lock(id, C::get(), who);
    }
}

impl<T: Config, C: Get<T::CurrencyId>> fungible::Inspect<T::AccountId> for CurrencyAdapter<T, C>
where
    T::Balance: Send + Sync + sp_runtime::FixedPointOperand + 'static,
{
    type Balance = T::Balance;
    fn total_issuance() -> T::Balance {
        <Pallet<T> as fungibles::Inspect<_>>::total_issuance(C::get())
    }
    fn minimum_balance() -> T::Balance {
        <Pallet<T> as fungibles::Inspect<_>>::minimum_balance(C::get())
    }
    fn total_balance(who: &T::AccountId) -> T::Balance {
        <Pallet<T> as fungibles::Inspect<_>>::total_balance(C::get(), who)
    }
    fn balance(who: &T::AccountId) -> T::Balance {
        <Pallet<T> as fungibles::Inspect<_>>::balance(C::get(), who)
    }
    fn reducible_balance(who: &T::AccountId, p: Preservation, f: Fortitude) -> T::Balance {
        <Pallet<T> as fungibles::Inspect<_>>::reducible_balance(C::get(), who, p, f)
    }
    fn can_deposit(who: &T::AccountId, amount: T::Balance, p: Provenance) -> DepositConsequence {
        <Pallet<T> as fungibles::Inspect<_>>::can_deposit(C::get(), who, amount, p)
    }
    fn can_withdraw(who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
        <Pallet<T> as fungibles::Inspect<_>>::can_withdraw(C::get(), who, amount)
    }
}
