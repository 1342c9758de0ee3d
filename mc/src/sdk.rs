//! The SDK's computing core (/repo/sdk/src/wasm), judged against the reference model and against the
//! contract in every explored state.
use crate::bridge;
use crate::explore::{kind, Act, Finding, Node, Scenario, Step};
use crate::model::{self as m, Op};
use crate::num::*;
use crate::rt;
use sdk_decimal::{Decimal, U256};
use sdk_wasm as sdk;

pub fn big(x: U256) -> N { N::from_bytes_le(num_bigint::Sign::Plus, &x.0.iter().flat_map(|l| l.to_le_bytes()).collect::<Vec<_>>()) }
fn u256(a: &N) -> U256 { let v = limbs(a, 4).expect("harness: fits 256 bits"); U256([v[0], v[1], v[2], v[3]]) }
fn u128(a: &N) -> u128 { to128(a).expect("harness: fits 128 bits") }
pub fn token(a: &N) -> sdk::token_amount::TokenAmount { Decimal::new(u256(a)) }
pub fn liquidity(a: &N) -> sdk::liquidity::Liquidity { Decimal::new(u256(a)) }
pub fn price(a: &N) -> sdk::sqrt_price::SqrtPrice { Decimal::new(u128(a)) }
pub fn growth(a: &N) -> sdk::fee_growth::FeeGrowth { Decimal::new(u128(a)) }
pub fn percent(a: u128) -> sdk::percentage::Percentage { Decimal::new(a) }
fn fee_tier(t: m::Tier) -> sdk::FeeTier { sdk::FeeTier { fee: percent(t.fee), tick_spacing: t.sp as u64 } }
fn pool(p: &m::Pool) -> sdk::Pool {
    sdk::Pool { liquidity: liquidity(&p.liq), sqrt_price: price(&p.price), current_tick_index: p.tick as i64, fee_growth_global_x: growth(&p.fgx), fee_growth_global_y: growth(&p.fgy),
        fee_protocol_token_x: token(&p.px), fee_protocol_token_y: token(&p.py), start_timestamp: p.start, last_timestamp: p.last, fee_receiver: String::new() }
}

/// What the SDK says about a trade.
#[derive(Debug, PartialEq)]
struct Simulated { a_in: N, a_out: N, fee: N, start: N, target: N, crossed: Vec<i32>, short: bool, steps: bool, outdated: bool }

/// The SDK's simulation, fed with what the contract's queries return.
fn simulated(key: m::Key, p: &m::Pool, x_to_y: bool, amount: &N, by_in: bool, limit: &N) -> Result<Simulated, String> {
    let svc = rt::program().service();
    let map = svc.get_tickmap(bridge::ckey(key));
    let sp = key.tier.sp as i32;
    let ticks: Vec<i32> = map.iter().flat_map(|(c, w)| (0..64).filter(move |b| w >> b & 1 == 1).map(move |b| (*c as i32 * 64 + b) * sp - m::max_tick(sp as u16))).collect();
    let listed = svc.get_liquidity_ticks(bridge::ckey(key), ticks).map_err(|e| format!("{e:?}"))?;
    let ticks = listed.iter().map(|t| sdk::LiquidityTick { index: t.index as i64, liquidity_change: liquidity(&t.liquidity_change.n()), sign: t.sign }).collect();
    let tickmap = sdk::Tickmap { bitmap: map.iter().map(|(c, w)| (*c as u64, *w)).collect() };
    let r = rt::guarded(|| sdk::simulate_invariant_swap(tickmap, fee_tier(key.tier), pool(p), ticks, x_to_y, token(amount), by_in, price(limit)))?.map_err(|e| e.get().0)?;
    Ok(Simulated { a_in: big(r.amount_in.get()), a_out: big(r.amount_out.get()), fee: big(r.fee.get()), start: r.start_sqrt_price.get().into(), target: r.target_sqrt_price.get().into(),
        crossed: r.crossed_ticks.iter().map(|t| t.index as i32).collect(), short: r.global_insufficient_liquidity, steps: r.max_swap_steps_reached, outdated: r.state_outdated })
}

/// The simulation of a trade agrees with the trade.
pub fn simulation(_: &Scenario, from: &Node, act: &Act, st: &Step, f: &mut Vec<Finding>) {
    let Op::Swap { key, x_to_y, amount, by_in, limit } = &act.1 else { return };
    let Some(p) = from.st.pools.get(key) else { return };
    let mut bad = |d: String| f.push(Finding { op: kind(&act.1), group: "sdk.simulation".into(), detail: d });
    from.activate();
    let sim = simulated(*key, p, *x_to_y, amount, *by_in, limit);
    let want = from.st.calc_swap(*key, *x_to_y, amount, *by_in, limit, from.now);
    if let Ok(s) = &sim { if s.steps { return; } }
    match (&sim, bridge::ret(&act.1, &st.out)) {
        (Ok(s), Ok(m::Ret::Swap(r))) => {
            let w = Simulated { a_in: r.a_in, a_out: r.a_out, fee: r.fee, start: r.start, target: r.target, crossed: r.ticks.iter().map(|t| t.index).collect(), short: false, steps: false, outdated: false };
            if *s != w { bad(format!("simulated {s:?}, traded {w:?}")); }
        }
        (Err(e), Ok(_)) => bad(format!("the simulation fails with {e}, the trade succeeds")),
        // the trade may fail for want of money only
        (Ok(s), _) => {
            let clean = !s.short && !s.outdated && s.a_out != zero();
            match &want {
                Ok(w) => if !clean || s.a_in != w.a_in || s.a_out != w.a_out { bad(format!("simulated {s:?}, expected {} for {}", w.a_in, w.a_out)); },
                Err(e) => if clean { bad(format!("simulated {s:?}, but the trade is impossible: {e:?} {}", st.out.trap())); },
            }
        }
        (Err(e), _) => if let Ok(w) = &want { bad(format!("the simulation fails with {e}, expected {} for {}", w.a_in, w.a_out)); },
    }
}

/// The SDK's view of a position: the fees and the tokens it shows are what claiming and closing pay.
pub fn holdings(_: &Scenario, node: &Node, f: &mut Vec<Finding>) {
    let none = Op::ClaimFee(0);
    let mut bad = |d: String| f.push(Finding { op: kind(&none), group: "sdk.position".into(), detail: d });
    for (a, v) in &node.st.positions {
        for (i, p) in v.iter().enumerate() {
            let (Some(q), Some(l), Some(h)) = (node.st.pools.get(&p.key), node.st.ticks.get(&(p.key, p.lo)), node.st.ticks.get(&(p.key, p.hi))) else { continue };
            let fee = rt::guarded(|| sdk::calculate_fee(p.lo, growth(&l.ox), growth(&l.oy), p.hi, growth(&h.ox), growth(&h.oy), q.tick, growth(&q.fgx), growth(&q.fgy), growth(&p.fx), growth(&p.fy), liquidity(&p.liq)));
            let fee = match fee { Ok(Ok((x, y))) => Ok((big(x.get()) + &p.owed_x, big(y.get()) + &p.owed_y)), Ok(Err(e)) => Err(e.get().0), Err(e) => Err(e) };
            node.activate();
            let paid = bridge::exec(*a, &Op::ClaimFee(i as u32));
            match (&fee, bridge::ret(&Op::ClaimFee(i as u32), &paid)) {
                (Ok(x), Ok(m::Ret::Pair(c, d))) => if *x != (c.clone(), d.clone()) { bad(format!("position {i} of {}: fees shown {}/{}, claimed {c}/{d}", crate::explore::name(*a), x.0, x.1)); },
                (Err(e), Ok(_)) => bad(format!("position {i} of {}: fees not shown ({e}) but claimed", crate::explore::name(*a))),
                _ => {}
            }
            let r = rt::guarded(|| sdk::calculate_amount_delta(q.tick, price(&q.price), liquidity(&p.liq), false, p.hi, p.lo));
            let value = match r { Ok(Ok((x, y, _))) => Ok((big(x.get()), big(y.get()))), Ok(Err(e)) => Err(e.get().0), Err(e) => Err(e) };
            node.activate();
            let paid = bridge::exec(*a, &Op::RemovePosition(i as u32));
            match (&value, &fee, bridge::ret(&Op::RemovePosition(i as u32), &paid)) {
                (Ok(v), Ok(x), Ok(m::Ret::Pair(c, d))) => if (&v.0 + &x.0, &v.1 + &x.1) != (c.clone(), d.clone()) { bad(format!("position {i} of {}: shown {}/{} with fees {}/{}, closing paid {c}/{d}", crate::explore::name(*a), v.0, v.1, x.0, x.1)); },
                (Err(e), _, Ok(_)) => bad(format!("position {i} of {}: value not shown ({e}) but closed", crate::explore::name(*a))),
                _ => {}
            }
        }
    }
}

pub fn simulation_at_edges(s: &Scenario, from: &Node, act: &Act, st: &Step, f: &mut Vec<Finding>) {
    if let Op::Swap { .. } = &act.1 { crate::checks::at_edges(s, from, act, st, f, Some(simulation)) }
}
