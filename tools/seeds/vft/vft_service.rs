use sails_rs::prelude::*;
pub mod utils {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Error { InsufficientAllowance, InsufficientBalance, NumericOverflow, Underflow }
    pub type Result<T, E = Error> = core::result::Result<T, E>;
    pub type BalancesMap = std::collections::HashMap<ActorId, U256>;
}
pub mod funcs {
    use super::*;
    pub fn balance_of(b: &utils::BalancesMap, a: ActorId) -> U256 { b.get(&a).copied().unwrap_or_default() }
}
pub struct Storage { balances: utils::BalancesMap, supply: U256 }
static mut STORAGE: Option<Storage> = None;
#[allow(static_mut_refs)]
impl Storage {
    pub fn balances() -> &'static mut utils::BalancesMap { unsafe { &mut STORAGE.as_mut().unwrap().balances } }
    pub fn total_supply() -> &'static mut U256 { unsafe { &mut STORAGE.as_mut().unwrap().supply } }
}
#[derive(Clone)]
pub struct Service;
impl Service {
    pub fn seed(_: String, _: String, _: u8) -> Self { unsafe { STORAGE = Some(Storage { balances: Default::default(), supply: U256(0) }) }; Service }
    pub fn new() -> Self { Service }
    pub fn transfer(&mut self, to: ActorId, v: U256) -> bool { self.transfer_from(gstd::msg::source(), to, v) }
    pub fn transfer_from(&mut self, from: ActorId, to: ActorId, v: U256) -> bool {
        if from == to || v.is_zero() { return false; }
        let b = Storage::balances();
        let (f, t) = (funcs::balance_of(b, from).checked_sub(v).unwrap(), funcs::balance_of(b, to).checked_add(v).unwrap());
        b.insert(from, f); b.insert(to, t);
        true
    }
}
