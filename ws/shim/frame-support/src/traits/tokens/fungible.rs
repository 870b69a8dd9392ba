use super::*;
pub trait Inspect<AccountId> {
    type Balance: Balance;
    fn total_issuance() -> Self::Balance;
    fn active_issuance() -> Self::Balance {
        Self::total_issuance()
    }
    fn minimum_balance() -> Self::Balance;
    fn total_balance(who: &AccountId) -> Self::Balance;
    fn balance(who: &AccountId) -> Self::Balance;
    fn reducible_balance(who: &AccountId, preservation: Preservation, force: Fortitude) -> Self::Balance;
    fn can_deposit(who: &AccountId, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
    fn can_withdraw(who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
}
