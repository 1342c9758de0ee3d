//! Reference model of the exchange: unbounded integers, ordered maps, no shared code with the
//! implementation. One function per operation, written from the protocol's rules.
use crate::num::*;
use num_traits::Zero;
use sails_rs::ActorId;
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub const MAX_TICK: i32 = 221_818;
pub const PRICE_ONE: u128 = 1_000_000_000_000_000_000_000_000;
pub const PCT_ONE: u128 = 1_000_000_000_000;
pub const LIQ_ONE: u128 = 100_000;
pub const FG_ONE: u128 = 10_000_000_000_000_000_000_000_000_000;
pub const MAX_PRICE: u128 = 65535383934512647000000000000;
pub const MIN_PRICE: u128 = 15258932000000000000;
pub const SEARCH: i32 = 256;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Tier { pub fee: u128, pub sp: u16 }
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Key { pub x: ActorId, pub y: ActorId, pub tier: Tier }
impl Key {
    pub fn new(a: ActorId, b: ActorId, tier: Tier) -> Option<Key> {
        if a == b { return None; }
        Some(if a < b { Key { x: a, y: b, tier } } else { Key { x: b, y: a, tier } })
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Pool {
    pub liq: N, pub price: N, pub tick: i32, pub fgx: N, pub fgy: N, pub px: N, pub py: N,
    pub start: u64, pub last: u64, pub receiver: ActorId,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Tick {
    pub index: i32,
    /// signed net liquidity added when the price moves up through the tick
    pub net: N, pub gross: N, pub price: N, pub ox: N, pub oy: N, pub secs: u64,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Pos {
    pub key: Key, pub liq: N, pub lo: i32, pub hi: i32, pub fx: N, pub fy: N, pub block: u64, pub owed_x: N, pub owed_y: N,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct State {
    pub admin: ActorId,
    pub protocol_fee: u128,
    pub tiers: Vec<Tier>,
    pub keys: Vec<Key>,
    pub pools: BTreeMap<Key, Pool>,
    pub ticks: BTreeMap<(Key, i32), Tick>,
    pub flags: std::collections::BTreeSet<(Key, i32)>,
    pub positions: BTreeMap<ActorId, Vec<Pos>>,
    pub balances: BTreeMap<(ActorId, ActorId), N>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ev {
    Created { time: u64, who: ActorId, key: Key, liq: N, lo: i32, hi: i32, price: N },
    Removed { time: u64, who: ActorId, key: Key, liq: N, lo: i32, hi: i32, price: N },
    Cross { time: u64, who: ActorId, key: Key, idx: Vec<i32> },
    Swap { time: u64, who: ActorId, key: Key, a_in: N, a_out: N, fee: N, start: N, target: N, x_to_y: bool },
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SwapOut { pub a_in: N, pub a_out: N, pub start: N, pub target: N, pub fee: N, pub pool: Pool, pub ticks: Vec<Tick> }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ret {
    Unit,
    Pct(u128),
    Tier(Tier),
    Pos(Pos),
    Pair(N, N),
    One(N),
    Swap(Box<SwapOut>),
    /// native withdrawal: reply value
    Vara(N),
}
/// Names of the errors that may be reported (any of them when several rules are broken at once).
/// An empty list: it must fail, without a documented reason.
pub type Fail = Vec<&'static str>;
pub type Res<T> = Result<T, Fail>;
fn fail<T>(k: &'static str) -> Res<T> { Err(vec![k]) }

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Hop { pub key: Key, pub x_to_y: bool }

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Op {
    ChangeProtocolFee(u128),
    AddFeeTier(Tier),
    RemoveFeeTier(Tier),
    CreatePool { t0: ActorId, t1: ActorId, tier: Tier, price: N, tick: i32 },
    ChangeFeeReceiver(Key, ActorId),
    CreatePosition { key: Key, lo: i32, hi: i32, liq: N, slo: N, shi: N },
    RemovePosition(u32),
    TransferPosition(u32, ActorId),
    Swap { key: Key, x_to_y: bool, amount: N, by_in: bool, limit: N },
    SwapRoute { amount: N, expected: N, slippage: u128, hops: Vec<Hop> },
    ClaimFee(u32),
    WithdrawProtocolFee(Key),
    DepositVara(u128),
    WithdrawVara(Option<N>),
    /// A token deposit (withdrawal) whose transfer the token contract confirms at once.
    Fund { token: ActorId, amount: N },
    Unfund { token: ActorId, amount: Option<N> },
    /// Time passes.
    Advance { blocks: u32, ms: u64 },
}

// ---- prices -----------------------------------------------------------------------------------

fn price_table() -> &'static Vec<u128> {
    static T: OnceLock<Vec<u128>> = OnceLock::new();
    T.get_or_init(|| {
        // sqrt(1.0001^(2^k)) with 12 decimals, the protocol's price constants
        const F: [u128; 18] = [
            1000049998750, 1000100000000, 1000200010000, 1000400060004, 1000800280056, 1001601200560,
            1003204964963, 1006420201726, 1012881622442, 1025929181080, 1052530684591, 1107820842005,
            1227267017980, 1506184333421, 2268591246242, 5146506242525, 26486526504348, 701536086265529];
        let one = 1_000_000_000_000u128;
        let mut v = vec![0u128; (2 * MAX_TICK + 1) as usize];
        for t in 0..=MAX_TICK {
            let mut p = one;
            for (k, f) in F.iter().enumerate() { if t >> k & 1 == 1 { p = p * f / one; } }
            v[(t + MAX_TICK) as usize] = p * one;
            v[(MAX_TICK - t) as usize] = one * one / p * one;
        }
        v
    })
}
pub fn tick_price(t: i32) -> N { n(tick_price_u(t)) }
pub fn tick_price_u(t: i32) -> u128 { price_table()[(t + MAX_TICK) as usize] }
pub fn max_tick(sp: u16) -> i32 { MAX_TICK / sp as i32 * sp as i32 }
/// Greatest multiple of the spacing whose price does not exceed `p`.
pub fn tick_at(p: u128, sp: u16) -> i32 {
    let t = price_table();
    let i = t.partition_point(|x| *x <= p) as i32 - 1; // first index has price MIN
    let tick = i - MAX_TICK;
    tick.div_euclid(sp as i32) * sp as i32
}

// ---- swap mathematics ---------------------------------------------------------------------------

/// Token x between two prices.
pub fn delta_x(a: &N, b: &N, l: &N, up: bool) -> Res<N> {
    let d = if a > b { a - b } else { b - a };
    // |a-b| * l / (a*b), in the protocol's staged rounding
    let nom = fdiv(&(d * l), &n(LIQ_ONE));
    let r = if up {
        let den = fdiv(&(a * b), &n(PRICE_ONE));
        if den.is_zero() { return Err(vec![]); }
        cdiv(&cdiv(&(nom * n(PRICE_ONE)), &den), &n(PRICE_ONE))
    } else {
        let den = cdiv(&(a * b), &n(PRICE_ONE));
        if den.is_zero() { return Err(vec![]); }
        fdiv(&fdiv(&(nom * n(PRICE_ONE)), &den), &n(PRICE_ONE))
    };
    if r.bits() > 256 { return Err(vec![]); }
    Ok(r)
}
pub fn delta_y(a: &N, b: &N, l: &N, up: bool) -> Res<N> {
    let d = if a > b { a - b } else { b - a };
    let r = if up { cdiv(&cdiv(&(d * l), &n(LIQ_ONE)), &n(PRICE_ONE)) } else { fdiv(&fdiv(&(d * l), &n(LIQ_ONE)), &n(PRICE_ONE)) };
    if r.bits() > 256 { return Err(vec![]); }
    Ok(r)
}
pub fn next_price_x(p: &N, l: &N, x: &N, add: bool) -> Res<N> {
    if x.is_zero() { return Ok(p.clone()); }
    let big_l = l * n(PRICE_ONE) / n(LIQ_ONE);
    let px = p * x;
    let den = if add { big_l + px } else { big_l - px };
    if den <= zero() { return Err(vec![]); }
    let r = cdiv(&(cdiv(&(p * l), &n(LIQ_ONE)) * n(PRICE_ONE)), &den);
    if r.bits() > 128 { return Err(vec![]); }
    Ok(r)
}
pub fn next_price_y(p: &N, l: &N, y: &N, add: bool) -> Res<N> {
    let num = y * n(PRICE_ONE);
    let den = l * n(PRICE_ONE) / n(LIQ_ONE);
    if den.is_zero() { return Err(vec![]); }
    let r = if add { p + fdiv(&(num * n(PRICE_ONE)), &den) } else { p - cdiv(&(num * n(PRICE_ONE)), &den) };
    if r.bits() > 128 || neg(&r) { return Err(vec![]); }
    Ok(r)
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Step { pub next: N, pub a_in: N, pub a_out: N, pub fee: N }
pub fn swap_step(cur: &N, target: &N, l: &N, amount: &N, by_in: bool, fee: u128) -> Res<Step> {
    if l.is_zero() { return Ok(Step { next: target.clone(), a_in: zero(), a_out: zero(), fee: zero() }); }
    let x_to_y = cur >= target;
    let din = |a: &N, b: &N| if x_to_y { delta_x(a, b, l, true) } else { delta_y(a, b, l, true) };
    let dout = |a: &N, b: &N| if x_to_y { delta_y(a, b, l, false) } else { delta_x(a, b, l, false) };
    let next = if by_in {
        let net = fdiv(&(amount * n(PCT_ONE - fee)), &n(PCT_ONE));
        if net >= din(cur, target)? { target.clone() }
        else if x_to_y { next_price_x(cur, l, &net, true)? } else { next_price_y(cur, l, &net, true)? }
    } else if *amount >= dout(cur, target)? { target.clone() }
    else if x_to_y { next_price_y(cur, l, amount, false)? } else { next_price_x(cur, l, amount, false)? };
    let mut a_in = din(cur, &next)?;
    if by_in && a_in > *amount { a_in = amount.clone(); }
    let mut a_out = dout(cur, &next)?;
    if !by_in && a_out > *amount { a_out = amount.clone(); }
    let fee = if by_in && next != *target { amount - &a_in } else { cdiv(&(&a_in * n(fee)), &n(PCT_ONE)) };
    Ok(Step { next, a_in, a_out, fee })
}
pub fn moves_price(amount: &N, p: &N, l: &N, fee: u128, by_in: bool, x_to_y: bool) -> Res<bool> {
    if l.is_zero() { return Ok(true); }
    let next = if by_in {
        let net = fdiv(&(amount * n(PCT_ONE - fee)), &n(PCT_ONE));
        if x_to_y { next_price_x(p, l, &net, true) } else { next_price_y(p, l, &net, true) }
    } else if x_to_y { next_price_y(p, l, amount, false) } else { next_price_x(p, l, amount, false) };
    next.map(|x| x != *p)
}
pub fn max_liq_per_tick(sp: u16) -> N { ((one() << 256u32) - 1) / (n(2 * MAX_TICK + 1) / n(sp)) }

pub fn wrap(a: N) -> N { let m = one() << 128u32; ((a % &m) + &m) % &m }

/// Fee growth accumulated between two ticks.
pub fn fee_inside(lo: &Tick, hi: &Tick, pool: &Pool) -> (N, N) {
    let f = |g: &N, l: &N, h: &N| {
        let below = if pool.tick >= lo.index { l.clone() } else { g - l };
        let above = if pool.tick < hi.index { h.clone() } else { g - h };
        wrap(g - below - above)
    };
    (f(&pool.fgx, &lo.ox, &hi.ox), f(&pool.fgy, &lo.oy, &hi.oy))
}
/// Tokens for a liquidity range at the pool's current price.
pub fn range_amounts(tick: i32, price: &N, l: &N, up: bool, lo: i32, hi: i32) -> Res<(N, N, bool)> {
    if hi < lo { return Err(vec![]); }
    let (pl, ph) = (tick_price(lo), tick_price(hi));
    Ok(if tick < lo { (delta_x(&pl, &ph, l, up)?, zero(), false) }
    else if tick < hi { (delta_x(price, &ph, l, up)?, delta_y(&pl, price, l, up)?, true) }
    else { (zero(), delta_y(&pl, &ph, l, up)?, false) })
}

fn add_fee(pool: &mut Pool, amount: &N, in_x: bool, protocol: u128) -> Res<()> {
    let prot = cdiv(&(amount * n(protocol)), &n(PCT_ONE));
    let rest = amount - &prot;
    if neg(&rest) { return Err(vec![]); }
    if amount.is_zero() || pool.liq.is_zero() { return Ok(()); }
    let growth = fdiv(&(rest * n(FG_ONE) * n(LIQ_ONE)), &pool.liq);
    if growth.bits() > 128 { return Err(vec![]); }
    if in_x { pool.fgx = wrap(&pool.fgx + growth); pool.px += prot; } else { pool.fgy = wrap(&pool.fgy + growth); pool.py += prot; }
    Ok(())
}

pub fn invalid_tick(t: i32, sp: u16) -> bool { t % sp as i32 != 0 || t.unsigned_abs() > max_tick(sp) as u32 }

impl State {
    pub fn new(admin: ActorId, protocol_fee: u128) -> State {
        State { admin, protocol_fee, tiers: vec![], keys: vec![], pools: Default::default(), ticks: Default::default(), flags: Default::default(), positions: Default::default(), balances: Default::default() }
    }
    pub fn bal(&self, who: ActorId, token: ActorId) -> N { self.balances.get(&(who, token)).cloned().unwrap_or_default() }
    pub fn credit(&mut self, who: ActorId, token: ActorId, amount: &N) -> Res<()> {
        if amount.is_zero() { return Ok(()); }
        let b = self.balances.entry((who, token)).or_default();
        *b += amount;
        if b.bits() > 256 { return fail("FailedToChangeTokenBalance"); }
        Ok(())
    }
    /// Takes `amount`, or everything.
    pub fn debit(&mut self, who: ActorId, token: ActorId, amount: Option<&N>) -> Res<N> {
        if amount.map_or(false, |a| a.is_zero()) { return Ok(zero()); }
        match self.balances.get_mut(&(who, token)) {
            None => fail("NoBalanceForTheToken"),
            Some(b) => {
                let a = amount.cloned().unwrap_or(b.clone());
                if a > *b { return fail("FailedToChangeTokenBalance"); }
                *b -= &a;
                if b.is_zero() { self.balances.remove(&(who, token)); }
                Ok(a)
            }
        }
    }
    fn next_tick(&self, key: Key, from: i32, up: bool) -> (i32, bool) {
        let sp = key.tier.sp as i32;
        let i = from / sp;
        if up {
            let lim = (i + SEARCH).min(MAX_TICK / sp) * sp;
            match self.flags.range((key, from + 1)..=(key, lim.max(from + 1))).next() { Some((_, t)) if *t <= lim => (*t, true), _ => (lim, false) }
        } else {
            let lim = (i - SEARCH).max(-(MAX_TICK / sp)) * sp;
            match self.flags.range((key, lim)..=(key, from)).next_back() { Some((_, t)) => (*t, true), _ => (lim, false) }
        }
    }
    pub fn calc_swap(&self, key: Key, x_to_y: bool, amount: &N, by_in: bool, limit: &N, now: u64) -> Res<SwapOut> { self.calc(key, x_to_y, amount, by_in, limit, now, &mut (zero(), zero())) }
    /// What a trade takes and gives to arrive at a price, if liquidity gets it there.
    pub fn way_to(&self, key: Key, x_to_y: bool, price: &N, now: u64) -> Option<(N, N)> {
        let mut spent = (zero(), zero());
        match self.calc(key, x_to_y, &p10(36), true, price, now, &mut spent) { Err(e) if e == ["PriceLimitReached"] => Some(spent), _ => None }
    }
    #[allow(clippy::too_many_arguments)]
    fn calc(&self, key: Key, x_to_y: bool, amount: &N, by_in: bool, limit: &N, now: u64, spent: &mut (N, N)) -> Res<SwapOut> {
        if amount.is_zero() { return fail("AmountIsZero"); }
        let mut pool = match self.pools.get(&key) { Some(p) => p.clone(), None => return fail("PoolNotFound") };
        let bad = if x_to_y { pool.price <= *limit || *limit > n(MAX_PRICE) } else { pool.price >= *limit || *limit < n(MIN_PRICE) };
        if bad { return fail("WrongLimit"); }
        let (sp, fee) = (key.tier.sp, key.tier.fee);
        let start = pool.price.clone();
        let (mut rem, mut tin, mut tout, mut tfee) = (amount.clone(), zero(), zero(), zero());
        let mut crossed: Vec<Tick> = vec![];
        let mut work: BTreeMap<i32, Tick> = BTreeMap::new();
        while !rem.is_zero() {
            // the nearest boundary in the direction of the trade
            let (t, init) = self.next_tick(key, pool.tick, !x_to_y);
            let tp = tick_price(t);
            if !init && t == pool.tick { return fail("TickLimitReached"); }
            // buying x up to the price of a tick enters the tick, selling x down to it does not leave it
            let closer = if x_to_y { tp > *limit } else { tp < *limit || init && tp == *limit };
            let (target, boundary) = if closer { (tp, Some((t, init))) } else { (limit.clone(), None) };
            let s = swap_step(&pool.price, &target, &pool.liq, &rem, by_in, fee)?;
            rem -= if by_in { &s.a_in + &s.fee } else { s.a_out.clone() };
            if neg(&rem) { return Err(vec![]); }
            add_fee(&mut pool, &s.fee, x_to_y, self.protocol_fee)?;
            tfee += &s.fee;
            let before = pool.price.clone();
            pool.price = s.next.clone();
            tin += &s.a_in + &s.fee;
            tout += &s.a_out;
            if pool.price == *limit && !rem.is_zero() { *spent = (tin, tout); return fail("PriceLimitReached"); }
            match boundary {
                Some((t, init)) if s.next == target => {
                    // an amount that the liquidity cannot take or give at any price moves the price for certain
                    let enough = moves_price(&rem, &pool.price, &pool.liq, fee, by_in, x_to_y).unwrap_or(true);
                    if init {
                        if !x_to_y || enough {
                            let mut k = work.get(&t).cloned().unwrap_or_else(|| self.ticks[&(key, t)].clone());
                            k.ox = wrap(&pool.fgx - &k.ox);
                            k.oy = wrap(&pool.fgy - &k.oy);
                            k.secs = (now - pool.start).wrapping_sub(k.secs);
                            pool.last = now;
                            if x_to_y { pool.liq -= &k.net } else { pool.liq += &k.net }
                            if neg(&pool.liq) { return Err(vec![]); }
                            work.insert(t, k.clone());
                            crossed.push(k);
                        } else if !rem.is_zero() {
                            if by_in { add_fee(&mut pool, &rem, x_to_y, self.protocol_fee)?; tin += &rem; }
                            rem = zero();
                        }
                    }
                    pool.tick = if x_to_y && enough { t - sp as i32 } else { t };
                }
                _ => {
                    // selling x never raises the tick: a price resting on a crossed tick stays below it
                    let nt = tick_at(to128(&pool.price).unwrap(), sp);
                    pool.tick = if x_to_y { pool.tick.min(nt) } else { nt };
                }
            }
            let out_of_ticks = if x_to_y { pool.tick <= -max_tick(sp) } else { pool.tick >= max_tick(sp) };
            if out_of_ticks { return fail("TickLimitReached"); }
        }
        if tout.is_zero() { return fail("NoGainSwap"); }
        Ok(SwapOut { a_in: tin, a_out: tout, start, target: pool.price.clone(), fee: tfee, pool, ticks: crossed })
    }
    fn do_swap(&mut self, who: ActorId, key: Key, x_to_y: bool, amount: &N, by_in: bool, limit: &N, now: u64, ev: &mut Vec<Ev>) -> Res<SwapOut> {
        let r = self.calc_swap(key, x_to_y, amount, by_in, limit, now)?;
        for t in &r.ticks { self.ticks.insert((key, t.index), t.clone()); }
        self.pools.insert(key, r.pool.clone());
        let (tin, tout) = if x_to_y { (key.x, key.y) } else { (key.y, key.x) };
        self.debit(who, tin, Some(&r.a_in))?;
        self.credit(who, tout, &r.a_out)?;
        if !r.ticks.is_empty() { ev.push(Ev::Cross { time: now, who, key, idx: r.ticks.iter().map(|t| t.index).collect() }); }
        ev.push(Ev::Swap { time: now, who, key, a_in: r.a_in.clone(), a_out: r.a_out.clone(), fee: r.fee.clone(), start: r.start.clone(), target: r.target.clone(), x_to_y });
        Ok(r)
    }
    pub fn quote_route(&self, amount: &N, hops: &[Hop], now: u64) -> Res<N> {
        let mut a = amount.clone();
        let mut s = self.clone();
        for h in hops {
            let r = s.calc_swap(h.key, h.x_to_y, &a, true, &if h.x_to_y { n(MIN_PRICE) } else { n(MAX_PRICE) }, now)?;
            for t in &r.ticks { s.ticks.insert((h.key, t.index), t.clone()); }
            s.pools.insert(h.key, r.pool);
            a = r.a_out;
        }
        Ok(a)
    }
    fn new_tick(&self, key: Key, index: i32, now: u64) -> Tick {
        let p = &self.pools[&key];
        let below = index <= p.tick;
        Tick { index, net: zero(), gross: zero(), price: tick_price(index),
            ox: if below { p.fgx.clone() } else { zero() }, oy: if below { p.fgy.clone() } else { zero() },
            secs: if below { now - p.start } else { 0 } }
    }
    /// Brings a position's owed fees up to date and changes its liquidity by `delta` (signed).
    fn touch(&mut self, pos: &mut Pos, delta: &N, now: u64) -> Res<(N, N)> {
        let key = pos.key;
        let (lo, hi) = (pos.lo, pos.hi);
        let mut pool = self.pools[&key].clone();
        pool.last = now;
        let mut tl = self.ticks[&(key, lo)].clone();
        let mut th = self.ticks[&(key, hi)].clone();
        tl.gross += delta; th.gross += delta;
        tl.net += delta; th.net -= delta;
        if *delta >= zero() && (tl.gross >= max_liq_per_tick(key.tier.sp) || th.gross >= max_liq_per_tick(key.tier.sp)) { return fail("InvalidTickLiquidity"); }
        let (ix, iy) = fee_inside(&tl, &th, &pool);
        let owe = |inside: &N, last: &N| fdiv(&(wrap(inside - last) * &pos.liq), &(n(LIQ_ONE) * n(FG_ONE)));
        let (wx, wy) = (owe(&ix, &pos.fx), owe(&iy, &pos.fy));
        pos.liq += delta;
        pos.fx = ix; pos.fy = iy;
        pos.owed_x += wx; pos.owed_y += wy;
        let (x, y, active) = range_amounts(pool.tick, &pool.price, &if neg(delta) { -delta } else { delta.clone() }, *delta >= zero(), lo, hi)?;
        if active { pool.liq += delta; }
        self.ticks.insert((key, lo), tl);
        self.ticks.insert((key, hi), th);
        self.pools.insert(key, pool);
        Ok((x, y))
    }
    fn admin_only(&self, who: ActorId) -> Res<()> { if who == self.admin { Ok(()) } else { fail("NotAdmin") } }
    fn take_position(&mut self, who: ActorId, i: u32) -> Option<Pos> {
        let v = self.positions.get_mut(&who)?;
        if i as usize >= v.len() { return None; }
        let p = v.swap_remove(i as usize);
        if v.is_empty() { self.positions.remove(&who); }
        Some(p)
    }

    /// Applies an operation; on Err the caller discards `self`.
    pub fn apply(&mut self, who: ActorId, op: &Op, now: u64, block: u32, ev: &mut Vec<Ev>) -> Res<Ret> {
        match op {
            Op::Advance { .. } => Ok(Ret::Unit),
            Op::ChangeProtocolFee(f) => { self.admin_only(who)?; self.protocol_fee = *f; Ok(Ret::Pct(*f)) }
            Op::AddFeeTier(t) => {
                let mut why = vec![];
                if t.sp == 0 || t.sp > 100 { why.push("InvalidTickSpacing") }
                if t.fee >= PCT_ONE { why.push("InvalidFee") }
                if who != self.admin { why.push("NotAdmin") }
                if self.tiers.contains(t) { why.push("FeeTierAlreadyExist") }
                if !why.is_empty() { return Err(why); }
                self.tiers.push(*t);
                Ok(Ret::Tier(*t))
            }
            Op::RemoveFeeTier(t) => {
                let mut why = vec![];
                if who != self.admin { why.push("NotAdmin") }
                if !self.tiers.contains(t) { why.push("FeeTierNotFound") }
                if !why.is_empty() { return Err(why); }
                self.tiers.retain(|u| u != t);
                Ok(Ret::Tier(*t))
            }
            Op::CreatePool { t0, t1, tier, price, tick } => {
                let mut why = vec![];
                if !self.tiers.contains(tier) { why.push("FeeTierNotFound") }
                if t0 == t1 { why.push("TokensAreSame") }
                if tier.sp == 0 || invalid_tick(*tick, tier.sp) { why.push("InvalidInitTick") }
                else {
                    let ok = if tick + tier.sp as i32 > MAX_TICK { *price == tick_price(max_tick(tier.sp)) }
                        else { *price >= tick_price(*tick) && *price < tick_price(tick + tier.sp as i32) };
                    if !ok { why.push("InvalidInitSqrtPrice") }
                }
                let key = Key::new(*t0, *t1, *tier);
                if let Some(k) = key { if self.pools.contains_key(&k) { why.push("PoolAlreadyExist") } }
                if !why.is_empty() { return Err(why); }
                let key = key.unwrap();
                self.pools.insert(key, Pool { liq: zero(), price: price.clone(), tick: *tick, fgx: zero(), fgy: zero(), px: zero(), py: zero(), start: now, last: now, receiver: self.admin });
                self.keys.push(key);
                Ok(Ret::Unit)
            }
            Op::ChangeFeeReceiver(k, to) => {
                let mut why = vec![];
                if who != self.admin { why.push("NotAdmin") }
                if !self.pools.contains_key(k) { why.push("PoolNotFound") }
                if !why.is_empty() { return Err(why); }
                self.pools.get_mut(k).unwrap().receiver = *to;
                Ok(Ret::Unit)
            }
            Op::CreatePosition { key, lo, hi, liq, slo, shi } => {
                let mut why = vec![];
                if liq.is_zero() { why.push("ZeroLiquidity") }
                if lo == hi { why.push("InvalidTickIndex") }
                match self.pools.get(key) {
                    None => why.push("PoolNotFound"),
                    Some(p) => if p.price < *slo || p.price > *shi { why.push("PriceLimitReached") },
                }
                if key.tier.sp == 0 || [lo, hi].iter().any(|t| invalid_tick(**t, key.tier.sp)) { why.push("InvalidTickIndexOrTickSpacing") }
                if lo > hi { why.push("upper_tick is not greater than lower_tick") }
                if !why.is_empty() { return Err(why); }
                for t in [lo, hi] {
                    if !self.ticks.contains_key(&(*key, *t)) { let k = self.new_tick(*key, *t, now); self.ticks.insert((*key, *t), k); self.flags.insert((*key, *t)); }
                }
                let mut pos = Pos { key: *key, liq: zero(), lo: *lo, hi: *hi, fx: zero(), fy: zero(), block: block as u64, owed_x: zero(), owed_y: zero() };
                let (x, y) = self.touch(&mut pos, liq, now)?;
                let dx = self.debit(who, key.x, Some(&x));
                let dy = self.debit(who, key.y, Some(&y));
                match (dx, dy) { (Err(mut a), Err(b)) => { a.extend(b); return Err(a) } (Err(a), _) | (_, Err(a)) => return Err(a), _ => {} }
                self.positions.entry(who).or_default().push(pos.clone());
                ev.push(Ev::Created { time: now, who, key: *key, liq: liq.clone(), lo: *lo, hi: *hi, price: self.pools[key].price.clone() });
                Ok(Ret::Pos(pos))
            }
            Op::RemovePosition(i) => {
                let mut pos = match self.take_position(who, *i) { Some(p) => p, None => return fail("PositionNotFound") };
                let l = pos.liq.clone();
                let (x, y) = self.touch(&mut pos, &-&l, now)?;
                for t in [pos.lo, pos.hi] {
                    if self.ticks[&(pos.key, t)].gross.is_zero() { self.ticks.remove(&(pos.key, t)); self.flags.remove(&(pos.key, t)); }
                }
                let (x, y) = (x + &pos.owed_x, y + &pos.owed_y);
                self.credit(who, pos.key.x, &x)?;
                self.credit(who, pos.key.y, &y)?;
                ev.push(Ev::Removed { time: now, who, key: pos.key, liq: l, lo: pos.lo, hi: pos.hi, price: self.pools[&pos.key].price.clone() });
                Ok(Ret::Pair(x, y))
            }
            Op::TransferPosition(i, to) => {
                let pos = match self.take_position(who, *i) { Some(p) => p, None => return fail("PositionNotFound") };
                self.positions.entry(*to).or_default().push(pos);
                Ok(Ret::Unit)
            }
            Op::ClaimFee(i) => {
                let mut pos = match self.positions.get(&who).and_then(|v| v.get(*i as usize)) { Some(p) => p.clone(), None => return fail("PositionNotFound") };
                self.touch(&mut pos, &zero(), now)?;
                let (x, y) = (std::mem::take(&mut pos.owed_x), std::mem::take(&mut pos.owed_y));
                let key = pos.key;
                self.positions.get_mut(&who).unwrap()[*i as usize] = pos;
                self.credit(who, key.x, &x)?;
                self.credit(who, key.y, &y)?;
                Ok(Ret::Pair(x, y))
            }
            Op::Swap { key, x_to_y, amount, by_in, limit } => Ok(Ret::Swap(Box::new(self.do_swap(who, *key, *x_to_y, amount, *by_in, limit, now, ev)?))),
            Op::SwapRoute { amount, expected, slippage, hops } => {
                let mut a = amount.clone();
                for h in hops { a = self.do_swap(who, h.key, h.x_to_y, &a, true, &if h.x_to_y { n(MIN_PRICE) } else { n(MAX_PRICE) }, now, ev)?.a_out; }
                if *slippage > PCT_ONE { return Err(vec![]); }
                let min = cdiv(&(expected * n(PCT_ONE - slippage)), &n(PCT_ONE));
                if a < min { return fail("AmountUnderMinimumAmountOut"); }
                Ok(Ret::One(a))
            }
            Op::WithdrawProtocolFee(k) => {
                let p = match self.pools.get_mut(k) { Some(p) => p, None => return fail("PoolNotFound") };
                if p.receiver != who { return fail("NotFeeReceiver"); }
                let (x, y) = (std::mem::take(&mut p.px), std::mem::take(&mut p.py));
                self.credit(who, k.x, &x)?;
                self.credit(who, k.y, &y)?;
                Ok(Ret::Unit)
            }
            Op::DepositVara(v) => { self.credit(who, ActorId::zero(), &n(*v))?; Ok(Ret::One(n(*v))) }
            Op::WithdrawVara(v) => {
                if let Some(v) = v { if v.is_zero() { return fail("AmountIsZero"); } }
                let a = match (self.debit(who, ActorId::zero(), v.as_ref()), v) { (Ok(a), _) => a, (Err(_), None) => zero(), (Err(e), _) => return Err(e) };
                Ok(Ret::Vara(a))
            }
            Op::Fund { token, amount } => {
                if token.is_zero() { return fail("InvalidVaraDepositAttempt"); }
                if amount.is_zero() { return fail("TransferError"); }
                self.credit(who, *token, amount)?; Ok(Ret::One(amount.clone())) }
            Op::Unfund { token, amount } => {
                if let Some(v) = amount { if v.is_zero() { return fail("AmountIsZero"); } }
                let a = match (self.debit(who, *token, amount.as_ref()), amount) { (Ok(a), _) => a, (Err(_), None) => zero(), (Err(e), _) => return Err(e) };
                if token.is_zero() && !a.is_zero() { return fail("InvalidVaraWithdrawAttempt"); }
                Ok(Ret::One(a))
            }
        }
    }
}
