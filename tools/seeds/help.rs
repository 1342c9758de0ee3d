// Runs the contract built by build.sh (the wasm program) in gtest, with recording token stand-ins.
#![allow(dead_code)]
pub use contracts::*;
pub use decimal::*;
use gtest::{Program, RunResult, System, WasmProgram};
pub use io::*;
pub use math::{MAX_SQRT_PRICE, MIN_SQRT_PRICE};
pub use math::{fee_growth::FeeGrowth, liquidity::Liquidity, percentage::Percentage, sqrt_price::*, token_amount::TokenAmount};
pub use sails_rs::{Decode, Encode};
use sails_rs::ActorId;
pub use sails_rs::U256;
use std::cell::RefCell;
use std::rc::Rc;

pub const ADMIN: u64 = 100;
pub const A: u64 = 101;
pub const B: u64 = 102;
pub const C: u64 = 103;
pub const X: u64 = 10;
pub const Y: u64 = 11;
pub const Z: u64 = 12;
const DEX: u64 = 99;

/// What a token answers to the next transfers; true again when the list is used up.
#[derive(Debug, Clone)]
pub enum Answer { Yes, No, Trap, Bytes(Vec<u8>) }
#[derive(Debug)]
struct Token { next: Rc<RefCell<Vec<Answer>>> }
impl WasmProgram for Token {
    fn init(&mut self, _: Vec<u8>) -> Result<Option<Vec<u8>>, &'static str> { Ok(None) }
    fn handle(&mut self, _: Vec<u8>) -> Result<Option<Vec<u8>>, &'static str> {
        let mut q = self.next.borrow_mut();
        let a = if q.is_empty() { Answer::Yes } else { q.remove(0) };
        let reply = |b: bool| ("Vft".to_string(), "TransferFrom".to_string(), b).encode();
        match a { Answer::Yes => Ok(Some(reply(true))), Answer::No => Ok(Some(reply(false))), Answer::Trap => Err("trap"), Answer::Bytes(b) => Ok(Some(b)) }
    }
    fn handle_reply(&mut self, _: Vec<u8>) -> Result<(), &'static str> { Ok(()) }
    fn handle_signal(&mut self, _: Vec<u8>) -> Result<(), &'static str> { Ok(()) }
    fn state(&mut self) -> Result<Vec<u8>, &'static str> { Ok(vec![]) }
}

pub struct Dex { pub sys: &'static System, pub answers: Rc<RefCell<Vec<Answer>>> }
pub fn id(n: u64) -> ActorId { ActorId::from(n) }
pub fn tier(fee: u128, sp: u16) -> FeeTier { FeeTier { fee: Percentage::new(fee), tick_spacing: sp } }
pub fn key(a: u64, b: u64, t: FeeTier) -> PoolKey { PoolKey::new(id(a), id(b), t).unwrap() }
pub const PCT: u128 = 10_000_000_000; // one percent
pub fn amount(n: u128) -> TokenAmount { TokenAmount::new(U256::from(n)) }
pub fn liq(n: u128) -> Liquidity { Liquidity::new(U256::from(n) * U256::from(100_000u32)) }
pub fn num(t: TokenAmount) -> u128 { t.get().as_u128() }

impl Dex {
    pub fn new(protocol_fee: u128) -> Dex {
        let sys: &'static System = Box::leak(Box::new(System::new()));
        let answers = Rc::new(RefCell::new(vec![]));
        for t in [X, Y, Z] {
            let p = Program::mock_with_id(sys, t, Token { next: answers.clone() });
            p.send_bytes(ADMIN, b"new");
        }
        for u in [ADMIN, A, B, C] { sys.mint_to(u, 1_000_000_000_000_000_000); }
        let wasm = std::fs::read("/opt/vara-ws/target/wasm32-unknown-unknown/release/invariant_wasm.opt.wasm").expect("contract built by build.sh");
        let p = Program::from_binary_with_id(sys, DEX, wasm);
        let r = p.send_bytes(ADMIN, ("New".to_string(), InvariantConfig { admin: id(ADMIN), protocol_fee: Percentage::new(protocol_fee) }).encode());
        assert!(!r.main_failed(), "init");
        Dex { sys, answers }
    }
    pub fn program(&self) -> Program<'static> { self.sys.get_program(DEX).unwrap() }
    pub fn run(&self, who: u64, method: &str, args: impl Encode, value: u128) -> RunResult {
        let p = [("Service".to_string(), method.to_string()).encode(), args.encode()].concat();
        self.program().send_bytes_with_value(who, p, value)
    }
    /// The reply's value, or the panic text.
    pub fn ask<T: Decode>(&self, who: u64, method: &str, args: impl Encode) -> Result<T, String> {
        let r = self.run(who, method, args, 0);
        self.reply(&r, who, method)
    }
    pub fn reply<T: Decode>(&self, r: &RunResult, who: u64, method: &str) -> Result<T, String> {
        let l = r.log().iter().filter(|l| l.destination() == who.into() && l.reply_code().is_some()).last().ok_or("no reply")?;
        let mut b = l.payload();
        if r.main_failed() || !l.reply_code().unwrap().is_success() { return Err(String::from_utf8_lossy(b).to_string()); }
        let (s, m) = <(String, String)>::decode(&mut b).map_err(|_| "reply route")?;
        assert_eq!((s.as_str(), m.as_str()), ("Service", method));
        T::decode(&mut b).map_err(|e| e.to_string())
    }
    pub fn events(&self, r: &RunResult) -> Vec<Vec<u8>> { r.log().iter().filter(|l| l.destination() == 0u64.into()).map(|l| l.payload().to_vec()).collect() }

    pub fn fund(&self, who: u64, token: u64, n: u128) -> Result<TokenAmount, String> { self.ask(who, "DepositSingleToken", (id(token), amount(n))) }
    pub fn unfund(&self, who: u64, token: u64, n: Option<u128>) -> Result<TokenAmount, String> { self.ask(who, "WithdrawSingleToken", (id(token), n.map(amount))) }
    pub fn balance(&self, who: u64, token: u64) -> u128 {
        let v: Vec<(ActorId, TokenAmount)> = self.ask(who, "GetUserBalances", id(who)).unwrap();
        v.iter().find(|x| x.0 == id(token)).map(|x| num(x.1)).unwrap_or(0)
    }
    pub fn add_tier(&self, t: FeeTier) { self.ask::<FeeTier>(ADMIN, "AddFeeTier", t).unwrap(); }
    pub fn pool(&self, k: PoolKey, tick: i32) { self.ask::<()>(ADMIN, "CreatePool", (k.token_x, k.token_y, k.fee_tier, SqrtPrice::from_tick(tick).unwrap(), tick)).unwrap(); }
    pub fn open(&self, who: u64, k: PoolKey, lo: i32, hi: i32, l: Liquidity) -> Result<Position, String> {
        self.ask(who, "CreatePosition", (k, lo, hi, l, SqrtPrice::new(MIN_SQRT_PRICE), SqrtPrice::new(MAX_SQRT_PRICE)))
    }
    pub fn close(&self, who: u64, i: u32) -> Result<(TokenAmount, TokenAmount), String> { self.ask(who, "RemovePosition", i) }
    pub fn claim(&self, who: u64, i: u32) -> Result<(TokenAmount, TokenAmount), String> { self.ask(who, "ClaimFee", i) }
    pub fn swap(&self, who: u64, k: PoolKey, x_to_y: bool, n: u128, by_in: bool) -> Result<CalculateSwapResult, String> {
        self.swap_to(who, k, x_to_y, n, by_in, SqrtPrice::new(if x_to_y { MIN_SQRT_PRICE } else { MAX_SQRT_PRICE }))
    }
    pub fn swap_to(&self, who: u64, k: PoolKey, x_to_y: bool, n: u128, by_in: bool, limit: SqrtPrice) -> Result<CalculateSwapResult, String> { self.ask(who, "Swap", (k, x_to_y, amount(n), by_in, limit)) }
    pub fn get_pool(&self, k: PoolKey) -> Pool { self.ask::<Result<Pool, InvariantError>>(A, "GetPool", (k.token_x, k.token_y, k.fee_tier)).unwrap().unwrap() }
    pub fn positions(&self, who: u64) -> Vec<Position> { self.ask(who, "GetAllPositions", id(who)).unwrap() }
}

/// Tokens 20 and 21 hold transfer requests back until they are answered here, in any order.
pub const HELD_X: u64 = 20;
pub const HELD_Y: u64 = 21;
impl Dex {
    pub fn held_tokens(&self) {
        let code = std::fs::read(std::env::var("TOKEN_WASM").expect("TOKEN_WASM")).unwrap();
        for t in [HELD_X, HELD_Y] {
            let p = Program::from_binary_with_id(self.sys, t, code.clone());
            assert!(!p.send_bytes(ADMIN, b"").main_failed());
            assert!(!p.send_bytes(ADMIN, [1u8, 1]).main_failed());
        }
    }
    pub fn hold(&self, token: u64, on: bool) { assert!(!self.sys.get_program(token).unwrap().send_bytes(ADMIN, [1u8, on as u8]).main_failed()); }
    pub fn send(&self, who: u64, method: &str, args: impl Encode) -> RunResult { self.run(who, method, args, 0) }
    /// Answers the token's `n`-th held request and runs what this sets off.
    pub fn answer(&self, token: u64, n: u8, reply: Option<bool>) -> RunResult {
        let mut v = vec![2, n, reply.is_none() as u8];
        if let Some(b) = reply { v.extend(("Vft".to_string(), "TransferFrom".to_string(), b).encode()); }
        self.sys.get_program(token).unwrap().send_bytes(ADMIN, v)
    }
}
