//! Histories so long that counters and listing limits matter. Each case builds one contract state by
//! calling the service message by message (without the per-message comparison of the explorations)
//! and compares every listing with the list of what was created.
use crate::bridge;
use crate::enumer::{Enumeration, Tally};
use crate::model as m;
use crate::num::*;
use crate::rt::{self, actor};
use crate::scen::{A, X, Y};
use contracts::PoolKey;
use decimal::*;
use math::{liquidity::Liquidity, sqrt_price::SqrtPrice};
use sails_rs::{ActorId, U256};

/// One call, as the given user; a trap ends it (its effects are not undone here).
fn call<R>(t: &mut Tally, who: ActorId, f: impl FnOnce() -> R) -> Result<R, String> {
    let e = gsys::mock::env();
    e.sent.clear(); e.reply = None; e.wakes.clear(); e.reply_deposits.clear();
    e.source = rt::hash(who); e.value = 0; e.msg_id = gsys::mock::fresh_id(); e.reply_to = None; e.reply_code = None;
    t.call(|| rt::guarded(f))
}
fn token(i: usize) -> ActorId {
    let mut a = [0u8; 32];
    a[0] = 0x40 + (i >> 8) as u8; a[1] = i as u8; a[31] = 7;
    ActorId::from(a)
}
fn tier(i: usize) -> m::Tier { m::Tier { fee: i as u128 + 1, sp: 1 } }
const ADMIN: u8 = crate::explore::ADMIN;

fn pools(t: &mut Tally, want_pools: usize) {
    const TIERS: usize = 100;
    for i in 0..TIERS { call(t, actor(ADMIN), || rt::program().service().add_fee_tier(bridge::ctier(tier(i)))).expect("harness: tier"); }
    let mut made: Vec<PoolKey> = vec![];
    let p0 = SqrtPrice::new(m::tick_price_u(0));
    let mut refused = None;
    for i in 0..want_pools {
        let (q, f) = (i / TIERS, tier(i % TIERS));
        let (a, b) = (token(2 * q), token(2 * q + 1));
        let before = (i > 65_530).then(invariant::verif::snapshot);
        let r = call(t, actor(A), || rt::program().service().create_pool(a, b, bridge::ctier(f), p0, 0));
        if let Err(e) = r {
            if let Some(b) = before { invariant::verif::restore(&b); }
            // refusing is only right where the listing could not show one more
            if made.len() < u16::MAX as usize { t.bad("keys", format!("pool number {i} is refused: {e}")); return; }
            refused = Some((a, b, f));
            break;
        }
        made.push(PoolKey::new(a, b, bridge::ctier(f)).expect("harness: key"));
    }
    if refused.is_some() { t.saw("refused at the limit"); } else { t.saw("all created"); }
    let svc = rt::program().service();
    let mut listed: Vec<PoolKey> = vec![];
    let n = made.len();
    for size in [u16::MAX, 9_999] {
        listed.clear();
        let mut off = 0usize;
        while off <= u16::MAX as usize {
            let (l, total) = t.call(|| svc.get_pool_keys(size, off as u16));
            if total as usize != n { t.bad("q.pools", format!("total {total} with {n} pools")); return; }
            if l.is_empty() { break; }
            off += l.len();
            listed.extend(l);
        }
        if listed != made { t.bad("q.pools", format!("pages of {size} list {} of {n} pools, or in another order", listed.len())); return; }
    }
    for i in [0, 1, n / 2, n - 2, n - 1] {
        let k = made[i];
        if t.call(|| svc.get_pool(k.token_y, k.token_x, k.fee_tier)).is_err() { t.bad("keys", format!("pool {i} of {n} is not found")); }
        let l = t.call(|| svc.get_all_pools_for_pair(k.token_x, k.token_y)).map(|l| l.len()).unwrap_or(0);
        let want = made.iter().filter(|q| q.token_x == k.token_x && q.token_y == k.token_y).count();
        if l != want { t.bad("inv.pair", format!("{l} of {want} pools listed for the pair of pool {i} of {n}")); }
        let before = invariant::verif::snapshot();
        if call(t, actor(A), || rt::program().service().create_pool(k.token_y, k.token_x, k.fee_tier, p0, 0)).is_ok() { t.bad("keys", format!("pool {i} of {n} can be created again")); return; }
        invariant::verif::restore(&before);
    }
    if let Some((a, b, f)) = refused {
        if t.call(|| svc.get_pool(a, b, bridge::ctier(f))).is_ok() { t.bad("keys", "a refused pool exists".into()); }
    }
}

/// A pool at tick 0 with `count` positions of user A, position i in its own range of ticks, all below
/// the price except the last.
fn positions(t: &mut Tally, count: usize, odd: bool) -> Option<(PoolKey, Vec<(i32, i32)>)> {
    let f = tier(0);
    let k = PoolKey::new(actor(X), actor(Y), bridge::ctier(f)).expect("harness: key");
    call(t, actor(ADMIN), || rt::program().service().add_fee_tier(k.fee_tier)).expect("harness: tier");
    call(t, actor(ADMIN), || rt::program().service().create_pool(k.token_x, k.token_y, k.fee_tier, SqrtPrice::new(m::tick_price_u(0)), 0)).expect("harness: pool");
    for x in [X, Y] { bridge::exec(actor(A), &m::Op::Fund { token: actor(x), amount: p10(30) }); }
    let mut v = vec![];
    for i in 0..count as i32 {
        // two new ticks each; an odd total ends with a range sharing one tick
        let lo = -2 * (i + 1);
        let hi = if odd && i == count as i32 - 1 { lo + 2 } else { lo + 1 };
        let r = call(t, actor(A), || rt::program().service().create_position(k, lo, hi, Liquidity::new(U256::from(1_000_000u64 + i as u64)), SqrtPrice::new(m::MIN_PRICE), SqrtPrice::new(m::MAX_PRICE)));
        if let Err(e) = r { t.bad("rejects", format!("position {i} is refused: {e}")); return None; }
        v.push((lo, hi));
    }
    Some((k, v))
}
const LIQ_TICKS: usize = 21_544;
const POS_TICKS: usize = 17_872;

fn liquidity_ticks(t: &mut Tally, ticks: usize) {
    let Some((k, v)) = positions(t, ticks.div_ceil(2), ticks % 2 == 1) else { return };
    let svc = rt::program().service();
    let mut want: std::collections::BTreeMap<i32, N> = Default::default();
    for (i, (lo, hi)) in v.iter().enumerate() { *want.entry(*lo).or_default() += 1_000_000 + i as i64; *want.entry(*hi).or_default() -= 1_000_000 + i as i64; }
    if want.len() != ticks { panic!("harness: {} ticks", want.len()); }
    let got = t.call(|| svc.get_liquidity_ticks_amount(k));
    if got as usize != ticks { t.bad("q.tickcount", format!("{got} ticks counted of {ticks}")); }
    let mut map = vec![];
    for (c, w) in t.call(|| svc.get_tickmap(k)) { for b in 0..64 { if w >> b & 1 == 1 { map.push(c as i32 * 64 + b - m::MAX_TICK); } } }
    if !map.iter().eq(want.keys()) { t.bad("q.tickmap", format!("the tick map shows {} of {ticks} ticks, or others", map.len())); }
    for (ask, name) in [(want.keys().copied().collect::<Vec<i32>>(), "up"), (want.keys().rev().copied().collect(), "down")] {
        match t.call(|| svc.get_liquidity_ticks(k, ask.clone())) {
            Ok(l) => {
                t.saw("liquidity ticks listed");
                let ok = l.len() == ask.len() && l.iter().zip(&ask).all(|(g, i)| g.index == *i && want[i] == if g.sign { g.liquidity_change.n() } else { -g.liquidity_change.n() });
                if !ok { t.bad("q.liqticks", format!("{ticks} ticks asked {name}: {} answered, or others", l.len())); }
            }
            Err(e) if ticks <= LIQ_TICKS => t.bad("q.liqticks", format!("{ticks} ticks asked {name}: refused with {e:?}")),
            Err(_) => t.saw("more than the limit refused"),
        }
    }
}
fn position_ticks(t: &mut Tally, count: usize) {
    let Some((_, v)) = positions(t, count, false) else { return };
    let svc = rt::program().service();
    let mut off = 0usize;
    let mut pages = 0;
    while off <= count {
        let l: Vec<i32> = t.call(|| svc.get_position_ticks(actor(A), off as u32)).iter().map(|t| t.index).collect();
        let want: Vec<i32> = v[off..].iter().flat_map(|(a, b)| [*a, *b]).collect();
        let least = want.len().min(POS_TICKS);
        if l.len() < least || l.len() > want.len() || l[..] != want[..l.len()] { t.bad("q.posticks", format!("position ticks from {off} of {count}: {} ticks, expected at least {least}, the first of the list", l.len())); return; }
        if l.is_empty() { break; }
        off += l.len() / 2;
        pages += 1;
    }
    t.saw(match pages { 0 => "no page", 1 => "one page", _ => "more pages" });
    // position pages over the same list
    for size in [1usize, 255, 256, 257, 4096, 65_535, 65_536, 100_000] { for off in [0usize, 1, 255, 256, count.saturating_sub(1), count, 65_536] {
        let Ok((l, total)) = t.call(|| svc.get_positions(actor(A), size as u32, off as u32)) else { t.bad("q.page", format!("page size {size} offset {off} of {count} fails")); continue };
        let got: Vec<(i32, u32)> = l.iter().flat_map(|(_, l)| l.iter().map(|(p, i)| (p.lower_tick_index, *i))).collect();
        let want: Vec<(i32, u32)> = v.iter().enumerate().skip(off).take(size).map(|(i, p)| (p.0, i as u32)).collect();
        if total as usize != count || got != want { t.bad("q.page", format!("page size {size} offset {off} of {count}: {} positions, total {total}", got.len())); }
    } }
    let all: Vec<i32> = t.call(|| svc.get_all_positions(actor(A))).iter().map(|p| p.lower_tick_index).collect();
    if !all.iter().eq(v.iter().map(|p| &p.0)) || svc.get_user_position_amount(actor(A)) as usize != count { t.bad("q.count", format!("{} positions of {count} listed", all.len())); }
}

pub fn many_pools() -> Enumeration {
    let sizes = [255usize, 256, 257, 65_534, 65_535, 65_536, 65_537];
    Enumeration {
        name: "many pools".into(), rule: "registries of 255 to 65537 pools, around the powers of two of the index width".into(), size: sizes.len() as u64,
        case: Box::new(move |i, t| { crate::explore::blank(); pools(t, sizes[i as usize]) }),
        show: Box::new(move |i| format!("{} pools", sizes[i as usize])),
    }
}
pub fn many_ticks() -> Enumeration {
    let sizes = [LIQ_TICKS - 1, LIQ_TICKS, LIQ_TICKS + 1, LIQ_TICKS + 2];
    let users = [0usize, 1, POS_TICKS / 2 - 1, POS_TICKS / 2, POS_TICKS / 2 + 1, POS_TICKS, POS_TICKS + 1];
    Enumeration {
        name: "many ticks".into(), rule: "pools with a number of ticks around the listing limit; users with a number of positions around the page limit and its double".into(), size: (sizes.len() + users.len()) as u64,
        case: Box::new(move |i, t| { crate::explore::blank(); let i = i as usize; if i < sizes.len() { liquidity_ticks(t, sizes[i]) } else { position_ticks(t, users[i - sizes.len()]) } }),
        show: Box::new(move |i| { let i = i as usize; if i < sizes.len() { format!("{} ticks", sizes[i]) } else { format!("{} positions", users[i - sizes.len()]) } }),
    }
}
