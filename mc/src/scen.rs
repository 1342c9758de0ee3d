//! Scenarios: alphabets of operations, start states and bounds.
use crate::bridge::Universe;
use crate::explore::{Act, Scenario, ADMIN};
use crate::model::*;
use crate::num::*;
use crate::rt::actor;
use sails_rs::ActorId;

pub const A: u8 = 2;
pub const B: u8 = 3;
pub const C: u8 = 4;
pub const X: u8 = 10;
pub const Y: u8 = 11;
pub const Z: u8 = 12;

pub fn tier(fee: u128, sp: u16) -> Tier { Tier { fee, sp } }
pub fn key(a: u8, b: u8, t: Tier) -> Key { Key::new(actor(a), actor(b), t).unwrap() }
pub fn fund(w: u8, t: u8, a: impl Into<N>) -> Act { (actor(w), Op::Fund { token: actor(t), amount: a.into() }) }
pub fn unfund(w: u8, t: u8, a: Option<u128>) -> Act { (actor(w), Op::Unfund { token: actor(t), amount: a.map(n) }) }
pub fn add_tier(t: Tier) -> Act { (actor(ADMIN), Op::AddFeeTier(t)) }
pub fn pool_at(k: Key, tick: i32) -> Act { (actor(ADMIN), Op::CreatePool { t0: k.x, t1: k.y, tier: k.tier, price: tick_price(tick), tick }) }
pub fn pfee(f: u128) -> Act { (actor(ADMIN), Op::ChangeProtocolFee(f)) }
pub fn cp(w: u8, k: Key, lo: i32, hi: i32, liq: impl Into<N>) -> Act { (actor(w), Op::CreatePosition { key: k, lo, hi, liq: liq.into(), slo: n(MIN_PRICE), shi: n(MAX_PRICE) }) }
pub fn rm(w: u8, i: u32) -> Act { (actor(w), Op::RemovePosition(i)) }
pub fn tp(w: u8, i: u32, to: u8) -> Act { (actor(w), Op::TransferPosition(i, actor(to))) }
pub fn claim(w: u8, i: u32) -> Act { (actor(w), Op::ClaimFee(i)) }
pub fn wpf(w: u8, k: Key) -> Act { (actor(w), Op::WithdrawProtocolFee(k)) }
pub fn far(x_to_y: bool) -> N { if x_to_y { n(MIN_PRICE) } else { n(MAX_PRICE) } }
pub fn sw(w: u8, k: Key, x_to_y: bool, amount: impl Into<N>, by_in: bool) -> Act { swl(w, k, x_to_y, amount, by_in, far(x_to_y)) }
pub fn swl(w: u8, k: Key, x_to_y: bool, amount: impl Into<N>, by_in: bool, limit: N) -> Act { (actor(w), Op::Swap { key: k, x_to_y, amount: amount.into(), by_in, limit }) }
pub fn route(w: u8, amount: impl Into<N>, expected: impl Into<N>, slippage: u128, hops: &[(Key, bool)]) -> Act {
    (actor(w), Op::SwapRoute { amount: amount.into(), expected: expected.into(), slippage, hops: hops.iter().map(|h| Hop { key: h.0, x_to_y: h.1 }).collect() })
}
pub fn adv(blocks: u32, ms: u64) -> Act { (actor(ADMIN), Op::Advance { blocks, ms }) }

pub fn universe(actors: &[u8], tokens: &[u8], tiers: &[Tier], keys: &[Key], ticks: &[i32]) -> Universe {
    let mut ticks = ticks.to_vec();
    ticks.sort(); ticks.dedup();
    Universe { admin: actor(ADMIN), actors: actors.iter().map(|a| actor(*a)).collect(), tokens: tokens.iter().map(|a| actor(*a)).collect(), tiers: tiers.to_vec(), keys: keys.to_vec(), ticks }
}
/// Every tick a position of the scenario may use.
fn ticks_of(acts: &[&[Act]]) -> Vec<i32> {
    let mut v = vec![];
    for l in acts { for (_, o) in l.iter() { if let Op::CreatePosition { lo, hi, .. } = o { v.push(*lo); v.push(*hi); } } }
    v
}
pub fn scenario(name: &str, keys: &[Key], setup: Vec<Act>, starts: Vec<Vec<Act>>, ops: Vec<Act>, depth: usize) -> Scenario {
    let mut ticks = ticks_of(&[&setup, &ops]);
    for s in &starts { ticks.extend(ticks_of(&[s])); }
    let mut tiers: Vec<Tier> = keys.iter().map(|k| k.tier).collect();
    tiers.sort(); tiers.dedup();
    let u = universe(&[ADMIN, A, B, C], &[0, X, Y, Z], &tiers, keys, &ticks);
    Scenario { name: name.into(), u, setup, starts, ops, depth, t0: 1_000_000, b0: 10 }
}

pub const L: u128 = 100_000; // one unit of liquidity
pub const PCT: u128 = 10_000_000_000;

fn basics(k: Key, protocol: u128, amount: u128, who: &[u8]) -> Vec<Act> {
    let mut v = vec![pfee(protocol), add_tier(k.tier), pool_at(k, 0)];
    for w in who { v.push(fund(*w, X, amount)); v.push(fund(*w, Y, amount)); }
    v
}

/// One pool, two liquidity providers, a trader, protocol fee, time.
pub fn core(depth: usize) -> Scenario {
    let k = key(X, Y, tier(PCT, 10));
    let l = 1_000_000 * L;
    scenario("core", &[k], basics(k, 10 * PCT, 1_000_000_000, &[A, B, C]),
        vec![vec![], vec![cp(A, k, -20, 20, l), cp(B, k, -10, 10, 2 * l)], vec![cp(A, k, 0, 10, l), cp(B, k, -10, 0, 3 * l), sw(C, k, false, 200u32, true)]],
        vec![cp(A, k, -10, 10, l), cp(B, k, 0, 20, 2 * l), cp(B, k, -20, 0, 3 * l), cp(A, k, -10, 0, l),
            sw(C, k, true, 300u32, true), sw(C, k, false, 300u32, true), sw(C, k, true, 200u32, false), sw(C, k, false, 200u32, false),
            sw(C, k, true, 3000u32, true), sw(C, k, false, 3000u32, true),
            rm(A, 0), rm(B, 0), claim(A, 0), claim(B, 0), wpf(ADMIN, k), tp(A, 0, B), adv(1, 3000)], depth)
}

/// Every amount in a range, through a tick boundary into a zone of other liquidity.
pub fn sweep(max: u32, depth: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for (fee, protocol) in [(PCT, 10 * PCT), (0, 0), (PCT / 10, 0)] {
        let k = key(X, Y, tier(fee, 10));
        let small = 40_000 * L;
        let huge = p10(25) * n(L); // one token hardly moves it: the remainder cannot leave the boundary
        let mut ops = vec![];
        for a in (1..=max).rev() { for d in [true, false] { for i in [true, false] { ops.push(sw(C, k, d, a, i)); } } }
        ops.push(claim(A, 0));
        ops.push(rm(B, 0));
        let mut setup = basics(k, protocol, 10u128.pow(30), &[A, B, C]);
        setup.push(cp(A, k, 0, 10, small));
        setup.push(sw(C, k, false, 11u32, true));
        let starts = vec![
            vec![cp(B, k, -10, 0, small)], vec![cp(B, k, -10, 0, huge.clone())], vec![cp(B, k, -10, 0, 3u128)], vec![cp(B, k, -20, -10, small)],
            vec![cp(B, k, 10, 20, huge.clone())], vec![cp(B, k, -20, 20, small), cp(A, k, -10, 0, huge.clone())],
            vec![cp(B, k, -10, 10, small / 2), cp(A, k, -20, 20, huge)],
        ];
        v.push(scenario(&format!("sweep-fee{}-protocol{}", fee / (PCT / 10), protocol / PCT), &[k], setup, starts, ops, depth));
    }
    v
}

/// No fees, tiny liquidity and amounts: every rounding is visible. Only the attacker C acts.
pub fn dust(depth: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for (sp, l, other) in [(1u16, 3 * L, 5 * L), (1, 70_000 * L, 50_000 * L), (10, 7 * L / 3, 40_000 * L)] {
        let k = key(X, Y, tier(0, sp));
        let s = sp as i32;
        let mut ops = vec![cp(C, k, -s, s, l), cp(C, k, 0, s, 1u32), cp(C, k, -2 * s, -s, l), rm(C, 0), claim(C, 0)];
        for a in [1u32, 2, 3, 7, 40] { for d in [true, false] { ops.push(sw(C, k, d, a, true)); ops.push(sw(C, k, d, a, false)); } }
        let mut setup = basics(k, 0, 10u128.pow(12), &[A, B, C]);
        setup.push(cp(A, k, -2 * s, 2 * s, other));
        v.push(scenario(&format!("dust-sp{sp}-l{l}"), &[k], setup, vec![vec![], vec![cp(B, k, 0, s, 9 * other)], vec![cp(B, k, -s, 0, 9 * other)], vec![cp(B, k, -s, 0, p10(19))]], ops, depth));
    }
    v
}

/// Ranges far away from the price, at word boundaries of the tick bitmap, and at the ends of the price range.
pub fn wide(depth: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for (sp, fee) in [(1u16, PCT / 100), (10, PCT), (100, 0)] {
        let k = key(X, Y, tier(fee, sp));
        let m = max_tick(sp);
        let s = sp as i32;
        // index of the bitmap word holding the start tick, and its edges
        let word = 64 * s;
        let w0 = (m / s % 64) * s; // distance from tick 0 to its word's first bit
        let l = 1_000_000_000 * L;
        let big = 10u128.pow(30);
        let ops = vec![
            cp(A, k, -m, m, l), cp(A, k, -w0, word - w0, l), cp(A, k, -w0 - s, -w0, 2 * l), cp(B, k, 256 * s, 257 * s, l), cp(B, k, -257 * s, -256 * s, l),
            cp(A, k, m - s, m, l), cp(A, k, -m, -m + s, l), cp(B, k, -300 * s, 300 * s, l),
            sw(C, k, true, 1000u32, true), sw(C, k, false, 1000u32, true), sw(C, k, true, big, true), sw(C, k, false, big, true), sw(C, k, true, 10u128.pow(12), false), sw(C, k, false, 10u128.pow(12), false),
            sw(C, k, true, 10u128.pow(13), true), sw(C, k, false, 10u128.pow(13), true),
            swl(C, k, true, 10u128.pow(13), true, tick_price(-257 * s)), swl(C, k, false, 10u128.pow(13), true, tick_price(257 * s)),
            rm(A, 0), rm(B, 0)];
        let setup = |t: i32| {
            let mut v = vec![pfee(PCT), add_tier(k.tier), pool_at(k, t)];
            for w in [A, B, C] { v.push(fund(w, X, p10(40))); v.push(fund(w, Y, p10(40))); }
            v
        };
        for (n, t) in [("mid", 0), ("low", -m), ("high", m - s), ("edge", -w0)] {
            v.push(scenario(&format!("wide-sp{sp}-{n}"), &[k], setup(t), vec![vec![], vec![cp(A, k, -m, m, l), cp(B, k, -m + s, m - s, 2 * l)]], ops.clone(), depth));
        }
    }
    v
}

/// Three tokens, pools sharing tokens, two tiers for one pair; multi-hop trades.
pub fn multi(depth: usize) -> Scenario {
    let t1 = tier(PCT, 10);
    let t2 = tier(PCT / 2, 1);
    let (xy, xy2, yz, xz) = (key(X, Y, t1), key(X, Y, t2), key(Y, Z, t1), key(X, Z, t2));
    let l = 10_000_000 * L;
    let mut setup = vec![pfee(20 * PCT), add_tier(t1), add_tier(t2), pool_at(xy, 0), pool_at(xy2, 5), pool_at(yz, -10), pool_at(xz, 0)];
    for w in [A, B, C] { for t in [X, Y, Z] { setup.push(fund(w, t, 1_000_000_000u32)); } }
    setup.extend([cp(A, xy, -20, 20, l), cp(A, xy2, -3, 9, l), cp(B, yz, -30, 10, l), cp(B, xz, -5, 5, l)]);
    scenario("multi", &[xy, xy2, yz, xz], setup, vec![vec![], vec![cp(B, xy, -10, 0, 5 * l), sw(C, xy, true, 2000u32, true)]],
        vec![route(C, 1000u32, 0u32, 0, &[(xy, true), (yz, true)]), route(C, 1000u32, 960u32, 0, &[(xy, true), (yz, true)]), route(C, 1000u32, 1000u32, 5 * PCT, &[(xy, true), (xy2, false)]),
            route(C, 700u32, 700u32, 2 * PCT, &[(xy2, true)]), route(A, 3000u32, 0u32, 0, &[(xz, true), (yz, false), (xy, false)]), route(C, 100_000u32, 0u32, 0, &[(xy2, true), (yz, true)]),
            route(C, 500u32, 400u32, 0, &[(yz, true), (yz, false)]), route(C, 1u32, 0u32, 0, &[(xy, true), (yz, true)]), route(C, 50u32, 50u32, 0, &[]), route(C, 500u32, 470u32, PCT, &[(xy, false), (xy, true)]), route(A, 20_000u32, 0u32, 0, &[(xy, true), (xy2, false), (xy, true)]),
            route(C, 800u32, 0u32, 2 * PCT_ONE, &[(xy, true)]), route(C, 800u32, 1u32, PCT_ONE, &[(xy, true)]), route(C, 400u32, 0u32, 0, &[(xy, true), (key(Y, Z, t2), true)]),
            sw(C, xy, true, 800u32, true), sw(B, yz, false, 800u32, false), sw(A, xy2, false, 2000u32, true), sw(C, xz, true, 300u32, false),
            rm(A, 0), rm(B, 1), claim(A, 1), claim(B, 0), wpf(ADMIN, xy), wpf(ADMIN, yz), cp(A, yz, -10, 0, l), tp(B, 0, A)], depth)
}

/// Administration: every privileged operation by every role, tiers and pool creation in all forms.
pub fn roles(depth: usize) -> Scenario {
    let t1 = tier(PCT, 10);
    let t2 = tier(PCT, 5);
    let t3 = tier(2 * PCT, 10);
    let (k1, k2, k3, k4) = (key(X, Y, t1), key(X, Y, t2), key(X, Z, t1), key(X, Y, t3));
    let mk = |w: u8, a: u8, b: u8, t: Tier, price: N, tick: i32| -> Act { (actor(w), Op::CreatePool { t0: actor(a), t1: actor(b), tier: t, price, tick }) };
    let recv = |w: u8, k: Key, to: u8| -> Act { (actor(w), Op::ChangeFeeReceiver(k, actor(to))) };
    let pf = |w: u8, f: u128| -> Act { (actor(w), Op::ChangeProtocolFee(f)) };
    let at = |w: u8, t: Tier| -> Act { (actor(w), Op::AddFeeTier(t)) };
    let rt = |w: u8, t: Tier| -> Act { (actor(w), Op::RemoveFeeTier(t)) };
    let mut setup = vec![];
    for w in [A, C] { for t in [X, Y] { setup.push(fund(w, t, 1_000_000u32)); } }
    scenario("roles", &[k1, k2, k3, k4], setup, vec![vec![], vec![add_tier(t1), pool_at(k1, 0), cp(A, k1, -10, 10, 1_000_000 * L), sw(C, k1, true, 100u32, true)], vec![add_tier(t1), add_tier(t2), add_tier(t3), pool_at(k4, 0), recv(ADMIN, k4, B)]],
        vec![at(ADMIN, t1), at(ADMIN, t2), at(ADMIN, t3), at(A, t2), rt(ADMIN, t1), rt(ADMIN, t2), rt(A, t1), rt(B, t2),
            pf(ADMIN, 0), pf(ADMIN, PCT_ONE), pf(A, 0), pf(B, 3),
            recv(ADMIN, k1, B), recv(ADMIN, k4, A), recv(A, k1, A), recv(B, k1, B), wpf(ADMIN, k1), wpf(B, k1), wpf(A, k1), wpf(B, k4),
            mk(A, X, Y, t1, tick_price(0), 0), mk(B, Y, X, t1, tick_price(10), 10), mk(ADMIN, Y, X, t2, tick_price(-5), -5), mk(A, X, Z, t1, tick_price(0), 0), mk(A, X, Y, t3, tick_price(0), 0),
            sw(C, k1, true, 100u32, true), rm(A, 0)], depth)
}
/// Parameter edges of the privileged and of the creating operations.
pub fn params(depth: usize) -> Scenario {
    let t1 = tier(PCT, 10);
    let k1 = key(X, Y, t1);
    let mk = |a: u8, b: u8, t: Tier, price: N, tick: i32| -> Act { (actor(A), Op::CreatePool { t0: actor(a), t1: actor(b), tier: t, price, tick }) };
    let mut tiers = vec![t1];
    let mut keys = vec![k1];
    let mut ops = vec![];
    for sp in [0u16, 1, 100, 101, u16::MAX] { for fee in [0u128, 1, PCT_ONE - 1, PCT_ONE, PCT_ONE + 1] { let t = tier(fee, sp); tiers.push(t); ops.push((actor(ADMIN), Op::AddFeeTier(t))); } }
    for sp in [1u16, 10, 100] {
        let t = tier(0, sp);
        tiers.push(t);
        keys.push(key(X, Z, t));
        let (s, m) = (sp as i32, max_tick(sp));
        for tick in [-m - s, -m, -s, 0, s, m - s, m, m + s, s / 2, -221818, 221818, 221819, i32::MIN, i32::MAX] {
            let mut ps = vec![n(0), n(MIN_PRICE) - 1, n(MIN_PRICE), n(MAX_PRICE), n(MAX_PRICE) + 1, n(u128::MAX)];
            for t in [tick, tick.saturating_add(s)] { if t.unsigned_abs() <= MAX_TICK as u32 { let p = tick_price(t); ps.extend([&p - 1, p.clone(), &p + 1]); } }
            for p in ps { ops.push(mk(Z, X, t, p, tick)); }
        }
    }
    ops.push(mk(X, X, t1, tick_price(0), 0));
    ops.push(mk(X, Y, tier(3, 3), tick_price(0), 0));
    let l = 1000 * L;
    let pos = |lo: i32, hi: i32, liq: N, slo: N, shi: N| -> Act { (actor(A), Op::CreatePosition { key: k1, lo, hi, liq, slo, shi }) };
    let p0 = tick_price(0);
    for (lo, hi) in [(-10, 10), (10, -10), (0, 0), (-5, 10), (-10, 5), (-221810, 221810), (-221820, 0), (0, 221820), (-221818, 10), (10, 20), (-20, -10), (i32::MIN, 10), (-10, i32::MAX)] {
        for q in [n(0), n(l)] { ops.push(pos(lo, hi, q, n(MIN_PRICE), n(MAX_PRICE))); }
    }
    for (slo, shi) in [(p0.clone(), p0.clone()), (&p0 + 1, n(MAX_PRICE)), (n(0), &p0 - 1), (&p0 - 1, &p0 + 1), (&p0 + 1, &p0 - 1), (n(0), n(u128::MAX))] { ops.push(pos(-10, 10, n(l), slo, shi)); }
    for q in [1u128, 10u128.pow(30)] { ops.push(pos(-10, 10, n(q), n(MIN_PRICE), n(MAX_PRICE))); }
    ops.push((actor(A), Op::CreatePosition { key: key(X, Z, t1), lo: -10, hi: 10, liq: n(l), slo: n(0), shi: n(MAX_PRICE) }));
    // a key whose tokens are in the wrong order names no pool
    ops.push((actor(A), Op::CreatePosition { key: Key { x: k1.y, y: k1.x, tier: t1 }, lo: -10, hi: 10, liq: n(l), slo: n(0), shi: n(MAX_PRICE) }));
    for lim in [n(0), n(MIN_PRICE), &p0 - 1, p0.clone(), &p0 + 1, n(MAX_PRICE), n(MAX_PRICE) + 1, n(u128::MAX)] { for d in [true, false] { for a in [0u32, 5] { ops.push(swl(C, k1, d, a, true, lim.clone())); } } }
    ops.extend([rm(A, 0), rm(A, 1), rm(A, u32::MAX), claim(A, 0), claim(A, 7), tp(A, 0, B), tp(A, 1, B), tp(C, 0, B), wpf(A, k1), wpf(ADMIN, key(X, Z, t1))]);
    for a in [0u32, 999_999_999, 1_000_000_000, 1_000_000_001] { ops.push(unfund(A, X, Some(a as u128))); }
    ops.push(unfund(A, X, None)); ops.push(unfund(A, Z, None)); ops.push(unfund(A, Z, Some(1)));
    ops.push((actor(A), Op::DepositVara(0))); ops.push((actor(A), Op::WithdrawVara(Some(n(0))))); ops.push((actor(A), Op::WithdrawVara(Some(n(1))))); ops.push((actor(A), Op::WithdrawVara(None)));
    let mut s = scenario("params", &keys, basics(k1, 10 * PCT, 1_000_000_000, &[A, C]), vec![vec![], vec![cp(A, k1, -10, 10, 1_000_000 * L), sw(C, k1, true, 50u32, true)]], ops, depth);
    tiers.sort(); tiers.dedup();
    s.u.tiers = tiers;
    s.u.ticks = vec![-221810, -20, -10, 0, 10, 20, 221810];
    s
}

/// Ownership bookkeeping: creation, removal by index, transfers (also to oneself).
pub fn ledger(depth: usize) -> Scenario {
    let k = key(X, Y, tier(PCT, 10));
    let k2 = key(X, Z, tier(PCT, 10));
    let l = 1_000_000 * L;
    let mut setup = basics(k, 10 * PCT, 1_000_000_000, &[A, B, C]);
    setup.push(pool_at(k2, 0));
    for w in [A, B] { setup.push(fund(w, Z, 1_000_000_000u32)); }
    scenario("ledger", &[k, k2], setup,
        vec![vec![], vec![cp(A, k, -10, 10, l), cp(A, k2, -20, 10, 2 * l), cp(A, k, -20, 20, 3 * l), cp(B, k, 0, 10, 4 * l)],
            vec![cp(A, k, -10, 10, l), cp(A, k, -10, 10, l), cp(B, k2, -10, 10, l), sw(C, k, true, 700u32, true)]],
        vec![cp(A, k, -10, 10, 5 * l), cp(A, k2, -20, 0, 6 * l), cp(B, k, 10, 20, 7 * l), rm(A, 0), rm(A, 1), rm(A, 2), rm(B, 0), rm(C, 0), tp(A, 0, B), tp(A, 1, B), tp(A, 0, A), tp(A, 1, A), tp(B, 0, A), tp(B, 1, C), tp(C, 0, A),
            claim(A, 0), claim(A, 1), claim(B, 0), claim(C, 0), sw(C, k, false, 900u32, true)], depth)
}

/// Balances: deposits, withdrawals, native currency.
pub fn bank(depth: usize) -> Scenario {
    let k = key(X, Y, tier(PCT, 10));
    let dv = |w: u8, v: u128| -> Act { (actor(w), Op::DepositVara(v)) };
    let wv = |w: u8, v: Option<u128>| -> Act { (actor(w), Op::WithdrawVara(v.map(n))) };
    let kv = key(0, X, tier(PCT, 10));
    let setup = vec![add_tier(k.tier), pool_at(k, 0), pool_at(kv, 0)];
    scenario("bank", &[k, kv], setup, vec![vec![], vec![fund(A, X, 50u32), dv(A, 70), cp(A, kv, -10, 10, 10_000 * L)]],
        vec![fund(A, X, 5u32), fund(A, Y, 7u32), fund(B, X, 5u32), unfund(A, X, Some(5)), unfund(A, X, Some(4)), unfund(A, X, Some(6)), unfund(A, X, None), unfund(A, Y, None), unfund(B, X, Some(5)), unfund(A, X, Some(0)), unfund(B, Y, None), unfund(B, Y, Some(1)),
            dv(A, 9), dv(B, 1), dv(A, 0), dv(A, u128::MAX / 8), wv(A, Some(9)), wv(A, Some(10)), wv(A, None), wv(B, None), wv(B, Some(1)), wv(C, None), wv(A, Some(0)),
            cp(A, kv, -10, 10, 10_000 * L), rm(A, 0), sw(B, kv, true, 1u32, true), unfund(A, 0, None), fund(A, 0, 3u32), (actor(A), Op::Fund { token: actor(X), amount: n(0) })], depth)
}

/// Clock dependence.
pub fn clock(depth: usize) -> Scenario {
    let k = key(X, Y, tier(PCT, 10));
    let l = 1_000_000 * L;
    scenario("clock", &[k], basics(k, 10 * PCT, 1_000_000_000, &[A, B, C]), vec![vec![], vec![adv(5, 15_000), cp(A, k, -20, 20, l)], vec![cp(A, k, -20, 20, l), adv(1, 1), cp(B, k, -10, 0, l), adv(7, 21_001)]],
        vec![adv(1, 3000), adv(1, 1), adv(2, 0), cp(A, k, -10, 10, l), cp(B, k, 0, 10, l), cp(B, k, 10, 20, l), sw(C, k, true, 1500u32, true), sw(C, k, false, 1500u32, true), sw(C, k, true, 10u32, true), rm(A, 0), rm(B, 0), claim(A, 0), wpf(ADMIN, k)], depth)
}

/// Extreme protocol fees and tier fees, changing along the way.
pub fn fees(depth: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for (fee, l) in [(PCT_ONE - 1, 1_000_000 * L), (30 * PCT, 1_000_000 * L), (1, 5 * L), (PCT, 100_000_000 * L)] {
        let k = key(X, Y, tier(fee, 10));
        v.push(scenario(&format!("fees-{fee}"), &[k], basics(k, PCT, 10u128.pow(24), &[A, B, C]), vec![vec![cp(A, k, -20, 20, l)], vec![cp(A, k, -20, 20, l), cp(B, k, -10, 0, 2 * l), cp(B, k, 0, 10, l)]],
            vec![pfee(0), pfee(1), pfee(50 * PCT), pfee(PCT_ONE), sw(C, k, true, 777u32, true), sw(C, k, false, 777u32, true), sw(C, k, true, 100_000_000u32, true), sw(C, k, false, 500u32, false), sw(C, k, true, 500u32, false), sw(C, k, true, 1u32, true), sw(C, k, false, 3u32, true),
                claim(A, 0), claim(B, 0), rm(A, 0), rm(B, 1), cp(B, k, -10, 10, 3 * l), wpf(ADMIN, k)], depth));
    }
    v
}

/// Fee growth counters going round: a tiny pool, a tier that takes nearly everything, huge trades.
pub fn growth(depth: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for protocol in [0, 10 * PCT] {
        let k = key(X, Y, tier(PCT_ONE - 1, 1));
        let l = 1000 * L;
        let t: u128 = 10u128.pow(13);
        let up = |a: u128| sw(C, k, false, a, true);
        let down = |a: u128| sw(C, k, true, a, true);
        let ops = vec![up(t), down(t), up(t / 2), down(12 * t / 10), up(30 * t), cp(B, k, -100, 100, l), cp(B, k, 100, 300, l), cp(A, k, -300, 20, l / 2), claim(A, 0), claim(B, 0), rm(A, 0), rm(B, 0), wpf(ADMIN, k)];
        let mut setup = basics(k, protocol, 10u128.pow(20), &[A, B, C]);
        setup.push(cp(A, k, -2000, 2000, l));
        v.push(scenario(&format!("growth-protocol{}", protocol / PCT), &[k], setup, vec![
            vec![], vec![up(t), up(t), up(t), down(t), down(t), down(t)], vec![cp(B, k, -400, 400, l), up(t), up(t), down(t), down(t), down(t), cp(A, k, -300, 20, l)], vec![cp(B, k, 100, 300, l), up(t), up(t), up(t), down(t), down(t), claim(A, 0)],
        ], ops, depth));
    }
    v
}
#[allow(dead_code)]
fn _unused(_: ActorId) {}
/// Trades through more ticks than the step limit of the SDK, in one message: `gap` as in a ladder whose every
/// second rung is left out, `full` where every tick changes the liquidity.
pub fn long(depth: usize) -> Vec<Scenario> {
    let mut v = vec![];
    for (name, sp, step) in [("full", 1u16, 1i32), ("gaps", 1, 2), ("sp10", 10, 10)] {
        const RUNGS: i32 = 80;
        let k = key(X, Y, tier(PCT / 10, sp));
        let mut setup = basics(k, 10 * PCT, 10u128.pow(30), &[A, B, C]);
        let s = sp as i32;
        setup.push(cp(A, k, -2000, 2000, 1_000_000 * L));
        for i in 0..RUNGS {
            // two ticks each, all different
            let lo = (2 * i + 1) * step;
            setup.push(cp(B, k, lo, lo + step, (1_000 + 7 * i as u128) * L));
            setup.push(cp(A, k, -lo - step, -lo, (1_000 + 11 * i as u128) * L));
        }
        let mut st = State { admin: actor(ADMIN), protocol_fee: 0, tiers: vec![], keys: vec![], pools: Default::default(), ticks: Default::default(), flags: Default::default(), positions: Default::default(), balances: Default::default() };
        for (who, o) in &setup { st.apply(*who, o, 1_000_000, 10, &mut vec![]).map(|_| ()).unwrap_or(()); }
        let mut ops = vec![];
        for d in [true, false] {
            for c in [1usize, 63, 64, 65, 127, 128, 129, 140, 141, 142, 143, 144, 160] {
                // the least exact input that crosses c ticks, and the output it gives
                let crossed = |a: &N| st.calc_swap(k, d, a, true, &far(d), 1_000_000).map(|r| r.ticks.len()).unwrap_or(usize::MAX);
                let (mut a, mut b) = (n(1u32), n(10u128.pow(28)));
                while a < b { let mid = (&a + &b) / n(2u32); if crossed(&mid) >= c { b = mid } else { a = mid + n(1u32) } }
                let out = st.calc_swap(k, d, &a, true, &far(d), 1_000_000).map(|r| r.a_out).unwrap_or_default();
                ops.push(sw(C, k, d, a.clone(), true));
                ops.push(sw(C, k, d, &a - n(1u32), true));
                ops.push(sw(C, k, d, out.clone(), false));
                let t = if d { -(c as i32) } else { c as i32 } * s;
                ops.push(swl(C, k, d, a * n(2u32), true, tick_price(t)));
            }
        }
        ops.push(rm(A, 0)); ops.push(rm(A, 40)); ops.push(rm(B, 79)); ops.push(claim(A, 0)); ops.push(claim(B, 30)); ops.push(wpf(ADMIN, k));
        v.push(scenario(&format!("long-{name}"), &[k], setup, vec![vec![]], ops, depth));
    }
    v
}
pub fn vara(w: u8, a: u128) -> Act { (actor(w), Op::DepositVara(a)) }

/// Long lists: many positions of one user over several pools, many pools, ticks in many bitmap words.
pub fn paging(depth: usize) -> Vec<Scenario> {
    let mut v = vec![];
    // mixed pools, a few and a few hundred positions
    let t = tier(PCT, 10);
    let ks = [key(X, Y, t), key(X, Z, t), key(Y, Z, t)];
    let mut setup = vec![add_tier(t)];
    for k in ks { setup.push(pool_at(k, 0)); }
    for w in [A, B] { for x in [X, Y, Z] { setup.push(fund(w, x, p10(20))); } }
    let mk = |i: usize| { let k = ks[(i * i + i / 3) % 3]; let lo = -10 * (1 + (i as i32 * 7) % 5); cp(A, k, lo, lo + 10 * (1 + (i as i32 * 3) % 9), L * (1000 + i as u128)) };
    let many = |n: usize| -> Vec<Act> { (0..n).map(mk).collect() };
    v.push(scenario("paging-positions", &ks, setup.clone(), vec![vec![], many(1), many(5), many(7), many(13), many(300)],
        vec![cp(A, ks[1], -10, 10, L), rm(A, 0), rm(A, 2), rm(A, 4), rm(A, 255), rm(A, 256), rm(A, 299), tp(A, 1, B), tp(A, 256, B), cp(B, ks[0], -10, 0, L), sw(B, ks[0], true, 40u32, true), claim(A, 256)], depth));
    // pools
    let tiers: Vec<Tier> = (1..=9u16).map(|s| tier(PCT * s as u128 / 10, s)).collect();
    let mut keys = vec![];
    for (i, t) in tiers.iter().enumerate() { for (j, (a, b)) in [(X, Y), (Z, X), (Y, Z)].iter().enumerate() { if (i + j) % 4 != 3 { keys.push(key(*a, *b, *t)); } } }
    let mut s1: Vec<Act> = tiers.iter().map(|t| add_tier(*t)).collect();
    let s0 = s1.clone();
    s1.extend(keys.iter().map(|k| pool_at(*k, 0)));
    let extra = key(X, Y, tiers[3]);
    let mut all = keys.clone();
    all.push(extra);
    all.sort(); all.dedup();
    let ops: Vec<Act> = vec![pool_at(extra, 0), pool_at(keys[0], 0), pool_at(keys[5], 0), (actor(ADMIN), Op::RemoveFeeTier(tiers[2])), (actor(ADMIN), Op::RemoveFeeTier(tiers[8])), (actor(ADMIN), Op::RemoveFeeTier(tiers[0]))];
    v.push(scenario("paging-pools", &all, vec![], vec![s0, s1], ops, depth));
    // ticks: around every bitmap word edge near the price, at both ends, for spacings that do and do not divide the range
    for sp in [1u16, 2, 5, 10, 100] {
        let k = key(X, Y, tier(PCT, sp));
        let s = sp as i32;
        let m = max_tick(sp);
        let mut setup = vec![add_tier(k.tier), pool_at(k, 0)];
        for w in [A, B] { for x in [X, Y] { setup.push(fund(w, x, p10(40))); } }
        let mut some = vec![];
        for i in 0..70 { some.push(cp(A, k, s * (i - 35), s * (i - 34 + (i % 3) * 20), L)); }
        let ends = vec![cp(A, k, -m, m, L), cp(A, k, m - s, m, L), cp(B, k, -m, -m + s, L), cp(B, k, -m + 63 * s, m - 63 * s, L), cp(B, k, -m + 64 * s, m - 64 * s, L)];
        v.push(scenario(&format!("paging-ticks-sp{sp}"), &[k], setup, vec![vec![], some, ends],
            vec![rm(A, 0), rm(B, 0), rm(A, 1), rm(B, 1), cp(A, k, -m, -m + 2 * s, L), cp(B, k, m - 2 * s, m, L), cp(A, k, -s, s, L), sw(B, k, true, 5u32, true)], depth));
    }
    v
}
