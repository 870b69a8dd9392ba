use super::*;
pub trait Inspect<AccountId> {
    type AssetId: AssetId;
    type Balance: Balance;
    fn total_issuance(asset: Self::AssetId) -> Self::Balance;
    fn active_issuance(asset: Self::AssetId) -> Self::Balance {
        Self::total_issuance(asset)
    }
    fn minimum_balance(asset: Self::AssetId) -> Self::Balance;
    fn total_balance(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
    fn balance(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
    fn reducible_balance(
        asset: Self::AssetId,
        who: &AccountId,
        preservation: Preservation,
        force: Fortitude,
    ) -> Self::Balance;
    fn can_deposit(
        asset: Self::AssetId,
        who: &AccountId,
        amount: Self::Balance,
        provenance: Provenance,
    ) -> DepositConsequence;
    fn can_withdraw(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
    fn asset_exists(asset: Self::AssetId) -> bool;
}
pub trait Mutate<AccountId>: Inspect<AccountId> {
    fn mint_into(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError>;
    fn burn_from(
        asset: Self::AssetId,
        who: &AccountId,
        amount: Self::Balance,
        precision: Precision,
        force: Fortitude,
    ) -> Result<Self::Balance, DispatchError>;
    fn transfer(
        asset: Self::AssetId,
        source: &AccountId,
        dest: &AccountId,
        amount: Self::Balance,
        preservation: Preservation,
    ) -> Result<Self::Balance, DispatchError>;
}
