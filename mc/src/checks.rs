//! Invariants evaluated in states and on transitions, next to the step-by-step comparison.
use std::hash::{Hash, Hasher};
use crate::bridge;
use crate::explore::{self, kind, Act, Finding, Node, Scenario, Step};
use crate::model::{self as m, Op};
use crate::num::*;
use crate::rt;
use num_traits::Zero;
use std::collections::BTreeMap;

fn put(f: &mut Vec<Finding>, group: &str, detail: String) { f.push(Finding { op: "state", group: group.into(), detail }); }

/// Active liquidity is the sum of the positions in range; every tick mirrors the positions using it.
pub fn liquidity(_: &Scenario, node: &Node, f: &mut Vec<Finding>) {
    let st = &node.st;
    for (k, p) in &st.pools {
        let mut sum = zero();
        for q in st.positions.values().flatten() { if q.key == *k && q.lo <= p.tick && p.tick < q.hi { sum += &q.liq; } }
        if sum != p.liq { put(f, "inv.liquidity", format!("active liquidity {} but positions in range at tick {} hold {sum}", p.liq, p.tick)); }
    }
}
pub fn ticks(_: &Scenario, node: &Node, f: &mut Vec<Finding>) {
    let st = &node.st;
    let mut want: BTreeMap<(m::Key, i32), (N, N)> = BTreeMap::new();
    for q in st.positions.values().flatten() {
        let e = want.entry((q.key, q.lo)).or_default(); e.0 += &q.liq; e.1 += &q.liq;
        let e = want.entry((q.key, q.hi)).or_default(); e.0 -= &q.liq; e.1 += &q.liq;
    }
    for (id, t) in &st.ticks {
        match want.get(id) {
            None => put(f, "inv.ticks", format!("tick {} exists without a position", id.1)),
            Some(w) => if *w != (t.net.clone(), t.gross.clone()) { put(f, "inv.ticks", format!("tick {} has net/gross {}/{} but positions give {}/{}", id.1, t.net, t.gross, w.0, w.1)); }
        }
        if t.price != m::tick_price(id.1) || t.index != id.1 { put(f, "inv.ticks", format!("tick {} is stored as {} at price {}", id.1, t.index, t.price)); }
    }
    for id in want.keys() { if !st.ticks.contains_key(id) { put(f, "inv.ticks", format!("tick {} of an open position is missing", id.1)); } }
    for id in &st.flags { if !st.ticks.contains_key(id) { put(f, "inv.flags", format!("tick {} is flagged but does not exist", id.1)); } }
    for id in st.ticks.keys() { if !st.flags.contains(id) { put(f, "inv.flags", format!("tick {} exists but is not flagged", id.1)); } }
}
/// The pool's tick is the tick of its price (or the one below, right after crossing downwards).
pub fn price_tick(_: &Scenario, node: &Node, f: &mut Vec<Finding>) {
    for (k, p) in &node.st.pools {
        let sp = k.tier.sp as i32;
        let max = m::max_tick(k.tier.sp);
        if p.price < n(m::MIN_PRICE) || p.price > n(m::MAX_PRICE) { put(f, "inv.price", format!("price {} out of range", p.price)); continue; }
        if p.tick % sp != 0 || p.tick.abs() > max { put(f, "inv.price", format!("tick {} not admissible", p.tick)); continue; }
        let lo = m::tick_price(p.tick);
        let hi = if p.tick + sp > max { n(m::MAX_PRICE) } else { m::tick_price(p.tick + sp) };
        if p.price < lo || p.price > hi { put(f, "inv.price", format!("price {} outside its tick {} [{lo}, {hi}]", p.price, p.tick)); }
    }
}
pub fn times(_: &Scenario, node: &Node, f: &mut Vec<Finding>) {
    for p in node.st.pools.values() {
        if p.start > p.last || p.last > node.now { put(f, "inv.time", format!("start {} last {} now {}", p.start, p.last, node.now)); }
    }
    for ((k, i), t) in &node.st.ticks {
        if let Some(p) = node.st.pools.get(k) { if t.secs > node.now - p.start { put(f, "inv.time", format!("tick {i} spent {} of {} outside", t.secs, node.now - p.start)); } }
    }
    for q in node.st.positions.values().flatten() { if q.block > node.block as u64 { put(f, "inv.time", format!("position block {} now {}", q.block, node.block)); } }
}
pub fn registries(s: &Scenario, node: &Node, f: &mut Vec<Finding>) {
    let st = &node.st;
    for (i, k) in st.keys.iter().enumerate() {
        if k.x >= k.y { put(f, "inv.keys", format!("pool key {k:?} not in canonical order")); }
        if st.keys[..i].contains(k) { put(f, "inv.keys", format!("pool {k:?} listed twice")); }
    }
    for (i, t) in st.tiers.iter().enumerate() {
        if st.tiers[..i].contains(t) { put(f, "inv.tiers", format!("tier {t:?} listed twice")); }
        if t.sp == 0 || t.sp > 100 || t.fee >= m::PCT_ONE { put(f, "inv.tiers", format!("inadmissible tier {t:?}")); }
    }
    node.activate();
    let svc = rt::program().service();
    for a in &s.u.tokens { for b in &s.u.tokens {
        let r = svc.get_all_pools_for_pair(*a, *b);
        if a == b { if r.is_ok() && !st.tiers.is_empty() { put(f, "inv.pair", "pools for a token with itself".into()); } continue; }
        let mut got: Vec<(m::Tier, m::Pool)> = r.unwrap_or_default().iter().map(|(t, p)| (bridge::mtier(*t), bridge::mpool(p))).collect();
        got.sort_by_key(|x| x.0);
        let mut want: Vec<(m::Tier, m::Pool)> = st.tiers.iter().filter_map(|t| st.pools.get(&m::Key::new(*a, *b, *t).unwrap()).map(|p| (*t, p.clone()))).collect();
        want.sort_by_key(|x| x.0);
        if got != want { put(f, "inv.pair", format!("pools for pair {got:?} expected {want:?}")); }
        for t in &s.u.tiers {
            let g = svc.get_pool(*a, *b, bridge::ctier(*t)).ok().map(|p| bridge::mpool(&p));
            if g.as_ref() != st.pools.get(&m::Key::new(*a, *b, *t).unwrap()) { put(f, "inv.pair", format!("pool lookup {a:?}/{b:?} {t:?} gives {g:?}")); }
        }
    } }
}

/// Everybody leaves: all positions close, all fees and balances are paid, out of what is held.
pub fn drain(s: &Scenario, node: &Node, f: &mut Vec<Finding>) {
    let mut cur = node.clone();
    let go = |cur: &mut Node, who, op: Op, f: &mut Vec<Finding>| {
        cur.activate();
        let o = bridge::exec(who, &op);
        if !o.ok() { put(f, "inv.closable", format!("{} by {} fails: {}", kind(&op), crate::explore::name(who), o.trap())); return false; }
        cur.snap = invariant::verif::snapshot();
        true
    };
    // which user closes first, and from which end of the list: varies with the state
    let mut order: Vec<_> = node.st.positions.iter().map(|(a, v)| (*a, v.len() as u32)).collect();
    let pick = node.st.pools.values().fold(order.len() as u64, |h, p| h.wrapping_mul(31).wrapping_add(p.price.iter_u64_digits().next().unwrap_or(0)).wrapping_add(p.liq.iter_u64_digits().next().unwrap_or(0) / 7));
    let pick = pick ^ pick >> 7 ^ pick >> 23;
    if pick & 1 == 1 { order.reverse(); }
    for (a, n) in order { for i in 0..n { if !go(&mut cur, a, Op::RemovePosition(if pick & 2 == 2 { n - 1 - i } else { 0 }), f) { return; } } }
    for (k, p) in &node.st.pools { if !go(&mut cur, p.receiver, Op::WithdrawProtocolFee(*k), f) { return; } }
    cur.activate();
    let mut odd = vec![];
    let end = bridge::observe(&s.u, &mut odd);
    let mut sum: BTreeMap<_, N> = BTreeMap::new();
    for ((_, t), b) in &end.balances { *sum.entry(*t).or_default() += b; }
    for (t, b) in &sum { if *b > node.held(*t) { put(f, "inv.solvent", format!("users are owed {b} of token {} but {} is held", crate::explore::name(*t), node.held(*t))); } }
    for (k, p) in &end.pools { if !p.liq.is_zero() { put(f, "inv.residue", format!("liquidity {} remains in {:?} without positions", p.liq, k.tier)); } if !p.px.is_zero() || !p.py.is_zero() { put(f, "inv.residue", "protocol fees remain".into()); } }
    if !end.ticks.is_empty() || !end.flags.is_empty() { put(f, "inv.residue", "ticks remain without positions".into()); }
    if end.positions.values().any(|v| !v.is_empty()) { put(f, "inv.residue", "positions remain".into()); }
    // and the money really leaves
    for ((a, t), b) in &end.balances {
        let op = if *t == sails_rs::ActorId::zero() { Op::WithdrawVara(None) } else { Op::Unfund { token: *t, amount: None } };
        cur.activate();
        let o = bridge::exec(*a, &op);
        match bridge::ret(&op, &o) {
            Ok(m::Ret::One(v)) | Ok(m::Ret::Vara(v)) if v == *b => {}
            r => put(f, "inv.closable", format!("withdrawal of {b} by {} gave {r:?}", crate::explore::name(*a))),
        }
        cur.snap = invariant::verif::snapshot();
    }
}

/// The attacker (the only one acting since the start state) cannot end strictly richer.
pub fn no_profit(_: &Scenario, node: &Node, f: &mut Vec<Finding>) {
    let c = rt::actor(crate::scen::C);
    let mut cur = node.clone();
    for _ in 0..node.st.positions.get(&c).map_or(0, |v| v.len()) {
        cur.activate();
        let o = bridge::exec(c, &Op::RemovePosition(0));
        if !o.ok() { return; }
        cur.snap = invariant::verif::snapshot();
    }
    cur.activate();
    let bal: BTreeMap<_, N> = rt::program().service().get_user_balances(c).into_iter().map(|(t, b)| (t, b.n())).collect();
    let (x, y) = (rt::actor(crate::scen::X), rt::actor(crate::scen::Y));
    let z = zero();
    let base = p10(12);
    let (bx, by) = (bal.get(&x).unwrap_or(&z), bal.get(&y).unwrap_or(&z));
    if *bx >= base && *by >= base && (*bx > base || *by > base) { put(f, "inv.profit", format!("attacker gained {} x and {} y", bx - &base, by - &base)); }
}

/// Round trips from any state: trading there and back, opening and closing, never gains.
pub fn round_trip(_: &Scenario, from: &Node, act: &Act, st: &Step, f: &mut Vec<Finding>) {
    if !st.out.ok() { return; }
    let mut bad = |d: String| f.push(Finding { op: kind(&act.1), group: "inv.roundtrip".into(), detail: d });
    match (&act.1, bridge::ret(&act.1, &st.out)) {
        (Op::Swap { key, x_to_y, .. }, Ok(m::Ret::Swap(r))) => {
            st.node.activate();
            let back = Op::Swap { key: *key, x_to_y: !x_to_y, amount: r.a_out.clone(), by_in: true, limit: if *x_to_y { n(m::MAX_PRICE) } else { n(m::MIN_PRICE) } };
            let o = bridge::exec(act.0, &back);
            if let Ok(m::Ret::Swap(b)) = bridge::ret(&back, &o) { if b.a_out > r.a_in { bad(format!("paid {} got {} back for the proceeds {}", r.a_in, b.a_out, r.a_out)); } }
        }
        (Op::CreatePosition { key, .. }, Ok(_)) => {
            st.node.activate();
            let i = st.node.st.positions.get(&act.0).map_or(0, |v| v.len()) as u32;
            if i == 0 { return; }
            let o = bridge::exec(act.0, &Op::RemovePosition(i - 1));
            if !o.ok() { return; }
            let bal: BTreeMap<_, N> = rt::program().service().get_user_balances(act.0).into_iter().map(|(t, b)| (t, b.n())).collect();
            for t in [key.x, key.y] {
                let b = bal.get(&t).cloned().unwrap_or_default();
                if b > from.st.bal(act.0, t) { bad(format!("opening and closing a position turned {} into {b}", from.st.bal(act.0, t))); }
            }
        }
        _ => {}
    }
}

/// An operation touches only its caller's money and positions, and only the pools it names.
pub fn isolation(_: &Scenario, from: &Node, act: &Act, st: &Step, f: &mut Vec<Finding>) {
    let (a, b) = (&from.st, &st.node.st);
    let mut bad = |d: String| f.push(Finding { op: kind(&act.1), group: "inv.isolation".into(), detail: d });
    let mut users = vec![act.0];
    let mut keys: Vec<m::Key> = vec![];
    let own = |i: &u32| a.positions.get(&act.0).and_then(|v| v.get(*i as usize)).map(|p| p.key);
    let (mut money, mut cfg) = (true, false);
    match &act.1 {
        Op::CreatePool { t0, t1, tier, .. } => { keys.extend(m::Key::new(*t0, *t1, *tier)); money = false; }
        Op::ChangeFeeReceiver(k, _) => { keys.push(*k); money = false; }
        Op::CreatePosition { key, .. } | Op::Swap { key, .. } | Op::WithdrawProtocolFee(key) => keys.push(*key),
        Op::SwapRoute { hops, .. } => keys.extend(hops.iter().map(|h| h.key)),
        Op::RemovePosition(i) | Op::ClaimFee(i) => keys.extend(own(i)),
        Op::TransferPosition(_, to) => { users.push(*to); money = false; }
        Op::ChangeProtocolFee(_) | Op::AddFeeTier(_) | Op::RemoveFeeTier(_) => { cfg = true; money = false; }
        Op::Advance { .. } => { users.clear(); }
        _ => {}
    }
    for (k, p) in &a.pools { if !keys.contains(k) && b.pools.get(k) != Some(p) { bad(format!("pool {k:?} changed")); } }
    for k in b.pools.keys() { if !keys.contains(k) && !a.pools.contains_key(k) { bad(format!("pool {k:?} appeared")); } }
    for (id, t) in &a.ticks { if !keys.contains(&id.0) && b.ticks.get(id) != Some(t) { bad(format!("tick {} of pool {:?} changed", id.1, id.0)); } }
    for id in b.ticks.keys() { if !keys.contains(&id.0) && !a.ticks.contains_key(id) { bad(format!("tick {} of pool {:?} appeared", id.1, id.0)); } }
    for id in a.flags.symmetric_difference(&b.flags) { if !keys.contains(&id.0) { bad(format!("tick flag {} of pool {:?} changed", id.1, id.0)); } }
    for u in a.positions.keys().chain(b.positions.keys()) { if !users.contains(u) && a.positions.get(u) != b.positions.get(u) { bad(format!("positions of {} changed", crate::explore::name(*u))); } }
    for id in a.balances.keys().chain(b.balances.keys()) { if (id.0 != act.0 || !money) && a.balances.get(id) != b.balances.get(id) { bad(format!("balance of {} changed", crate::explore::name(id.0))); } }
    if !cfg && (a.protocol_fee != b.protocol_fee || a.tiers != b.tiers) { bad("configuration changed".into()); }
}

/// A quote taken just before a trade is what the trade delivers, and changes nothing.
pub fn quote(s: &Scenario, from: &Node, act: &Act, st: &Step, f: &mut Vec<Finding>) {
    let mut bad = |d: String| f.push(Finding { op: kind(&act.1), group: "inv.quote".into(), detail: d });
    match &act.1 {
        Op::Swap { key, x_to_y, amount, by_in, limit } => {
            from.activate();
            let q = rt::guarded(|| rt::program().service().quote(bridge::ckey(*key), *x_to_y, tok(amount), *by_in, prc(limit)));
            let mut odd = vec![];
            if bridge::observe(&s.u, &mut odd) != from.st { bad("a quote changed the state".into()); }
            match (&q, bridge::ret(&act.1, &st.out)) {
                (Ok(Ok(q)), Ok(m::Ret::Swap(r))) => {
                    if q.amount_in.n() != r.a_in || q.amount_out.n() != r.a_out || q.target_sqrt_price.n() != r.target || q.ticks.iter().map(bridge::mtick).collect::<Vec<_>>() != r.ticks { bad(format!("quoted {}->{} at {} ticks {}, traded {}->{} at {} ticks {}", q.amount_in.n(), q.amount_out.n(), q.target_sqrt_price.n(), q.ticks.len(), r.a_in, r.a_out, r.target, r.ticks.len())); }
                }
                // the trader may lack the money; the quote does not know
                (Ok(Ok(q)), _) => {
                    let tin = if *x_to_y { key.x } else { key.y };
                    if st.out.ok() || from.st.bal(act.0, tin) >= q.amount_in.n() { bad(format!("quoted {}->{} but the trade failed: {}", q.amount_in.n(), q.amount_out.n(), st.out.trap())); }
                }
                (Ok(Err(e)), Ok(_)) => bad(format!("quote failed with {e:?} but the trade succeeded")),
                (Err(e), Ok(_)) => bad(format!("quote trapped with {e} but the trade succeeded")),
                (Ok(Err(e)), Err(_)) => { if !st.out.ok() && st.out.trap().starts_with("InvariantError") && !st.out.trap().contains(&format!("{e:?}")) && !matches!(st.model, Err(ref v) if v.len() > 1) { bad(format!("quote says {e:?}, the trade {}", st.out.trap())); } }
                (Err(_), Err(_)) => {}
            }
        }
        Op::SwapRoute { amount, hops, expected, slippage } => {
            from.activate();
            let q = rt::guarded(|| rt::program().service().quote_route(tok(amount), hops.iter().map(|h| io::SwapHop { pool_key: bridge::ckey(h.key), x_to_y: h.x_to_y }).collect()));
            let mut odd = vec![];
            if bridge::observe(&s.u, &mut odd) != from.st { bad("a route quote changed the state".into()); }
            let want = from.st.quote_route(amount, hops, from.now);
            match (&q, &want) {
                (Ok(Ok(a)), Ok(b)) => if a.n() != *b { bad(format!("route quoted at {} expected {b}", a.n())); },
                (Ok(Err(_)) | Err(_), Err(_)) => {}
                (a, b) => bad(format!("route quote {a:?} expected {b:?}")),
            }
            if let (Ok(Ok(a)), Ok(m::Ret::One(r))) = (&q, bridge::ret(&act.1, &st.out)) { if a.n() != r { bad(format!("route quoted at {} traded at {r}", a.n())); } }
            if let Ok(m::Ret::One(r)) = bridge::ret(&act.1, &st.out) {
                if *slippage <= m::PCT_ONE && &r * n(m::PCT_ONE) < expected * n(m::PCT_ONE - slippage) { bad(format!("route delivered {r} below the minimum")); }
            }
        }
        _ => {}
    }
}

/// A few numbers up to a length and around it.
fn marks(len: usize) -> Vec<usize> {
    if len <= 6 { return (0..=len + 1).collect(); }
    let mut v = vec![0, 1, 2, len / 2, len - 1, len, len + 1, 255, 256, 257];
    v.retain(|x| *x <= len + 1);
    v.sort(); v.dedup();
    v
}
/// Position and pool pages return exactly the requested slice of what exists.
pub fn pages(s: &Scenario, node: &Node, f: &mut Vec<Finding>) {
    node.activate();
    let svc = rt::program().service();
    let st = &node.st;
    let none = vec![];
    for a in &s.u.actors {
        let v = st.positions.get(a).unwrap_or(&none);
        let n = v.len();
        if svc.get_user_position_amount(*a) as usize != n { put(f, "q.count", format!("position count {} of {n}", svc.get_user_position_amount(*a))); }
        for i in marks(n).into_iter().chain([u32::MAX as usize]) {
            let got = svc.get_position(*a, i as u32).ok().map(|p| bridge::mpos(&p));
            if got.as_ref() != v.get(i) { put(f, "q.position", format!("position {i} of {n} is {got:?}")); }
            let got = svc.get_position_with_associates(*a, i as u32).ok().map(|(p, q, l, h)| (bridge::mpos(&p), bridge::mpool(&q), bridge::mtick(&l), bridge::mtick(&h)));
            let want = v.get(i).and_then(|p| Some((p.clone(), st.pools.get(&p.key)?.clone(), st.ticks.get(&(p.key, p.lo))?.clone(), st.ticks.get(&(p.key, p.hi))?.clone())));
            if got != want { put(f, "q.position", format!("position {i} of {n} with associates is {got:?} expected {want:?}")); }
        }
        for size in marks(n).into_iter().chain([u32::MAX as usize]) { for off in marks(n).into_iter().chain([u32::MAX as usize]) {
            let end = (off + size).min(n);
            let mut want: Vec<(m::Pool, Vec<(m::Pos, u32)>)> = vec![];
            let mut at: BTreeMap<m::Key, usize> = BTreeMap::new();
            for i in off..end {
                let Some(pool) = st.pools.get(&v[i].key) else { continue };
                let g = *at.entry(v[i].key).or_insert_with(|| { want.push((pool.clone(), vec![])); want.len() - 1 });
                want[g].1.push((v[i].clone(), i as u32));
            }
            match svc.get_positions(*a, size as u32, off as u32) {
                Ok((got, total)) => {
                    let got: Vec<(m::Pool, Vec<(m::Pos, u32)>)> = got.iter().map(|(p, l)| (bridge::mpool(p), l.iter().map(|(q, i)| (bridge::mpos(q), *i)).collect())).collect();
                    if total as usize != n { put(f, "q.count", format!("page total {total} of {n}")); }
                    if got != want { put(f, "q.page", format!("page size {size} offset {off} of {n} positions is {got:?} expected {want:?}")); }
                }
                Err(e) => put(f, "q.page", format!("page size {size} offset {off} of {n} positions fails with {e:?}")),
            }
        } }
    }
    let n = st.keys.len();
    for size in marks(n).into_iter().chain([u16::MAX as usize]) { for off in marks(n).into_iter().chain([u16::MAX as usize]) {
        let (got, total) = svc.get_pool_keys(size as u16, off as u16);
        let got: Vec<m::Key> = got.into_iter().map(bridge::mkey).collect();
        let want: Vec<m::Key> = st.keys.iter().skip(off).take(size).cloned().collect();
        if total as usize != n || got != want { put(f, "q.pools", format!("pool page size {size} offset {off} of {n}: {} keys, total {total}", got.len())); }
    } }
    for a in &s.u.actors {
        let mut seen = vec![];
        for (t, b) in svc.get_user_balances(*a) {
            if seen.contains(&t) { put(f, "q.balances", "a token is listed twice".into()); }
            seen.push(t);
            if b.n() != st.bal(*a, t) { put(f, "q.balances", format!("balance {} expected {}", b.n(), st.bal(*a, t))); }
        }
    }
}
/// The tick map and tick queries describe exactly the ticks of the open positions.
pub fn tick_queries(s: &Scenario, node: &Node, f: &mut Vec<Finding>) {
    node.activate();
    let svc = rt::program().service();
    let st = &node.st;
    for k in &s.u.keys {
        let mut want: Vec<i32> = st.positions.values().flatten().filter(|p| p.key == *k).flat_map(|p| [p.lo, p.hi]).collect();
        want.sort(); want.dedup();
        let key = bridge::ckey(*k);
        let sp = k.tier.sp as i32;
        let (mut got, mut last) = (vec![], -1);
        for (c, w) in svc.get_tickmap(key) {
            if c as i32 <= last { put(f, "q.tickmap", format!("chunk {c} out of order")); }
            last = c as i32;
            for b in 0..64 { if w >> b & 1 == 1 { got.push((c as i32 * 64 + b) * sp - m::max_tick(k.tier.sp)); } }
        }
        if got != want { put(f, "q.tickmap", format!("tick map shows {got:?} but positions use {want:?}")); }
        if svc.get_liquidity_ticks_amount(key) as usize != want.len() { put(f, "q.tickcount", format!("{} ticks counted of {}", svc.get_liquidity_ticks_amount(key), want.len())); }
        let mut asks = vec![want.clone(), want.iter().rev().cloned().collect(), vec![]];
        if let Some(t) = want.first() { asks.push(vec![*t, *t]); }
        for ask in asks {
            match svc.get_liquidity_ticks(key, ask.clone()) {
                Ok(l) => {
                    let got: Vec<(i32, N)> = l.iter().map(|t| (t.index, if t.sign { t.liquidity_change.n() } else { -t.liquidity_change.n() })).collect();
                    let exp: Vec<(i32, N)> = ask.iter().filter_map(|i| st.ticks.get(&(*k, *i)).map(|t| (*i, t.net.clone()))).collect();
                    if got != exp { put(f, "q.liqticks", format!("liquidity ticks for {ask:?}: {got:?} expected {exp:?}")); }
                }
                Err(e) => put(f, "q.liqticks", format!("liquidity ticks for {ask:?} fail with {e:?}")),
            }
        }
        for i in want.iter().flat_map(|t| [t - sp, *t, t + sp]).filter(|t| !m::invalid_tick(*t, k.tier.sp)) {
            if svc.is_tick_initialized(key, i) != want.contains(&i) { put(f, "q.flag", format!("tick {i} initialized: {}", svc.is_tick_initialized(key, i))); }
            match (svc.get_tick(key, i), want.contains(&i)) {
                (Ok(t), true) if t.index == i => {}
                (Err(_), false) => {}
                (r, w) => put(f, "q.tick", format!("tick {i} lookup {:?}, in use {w}", r.map(|t| t.index))),
            }
        }
    }
    let none = vec![];
    for a in &s.u.actors {
        let v = st.positions.get(a).unwrap_or(&none);
        for off in marks(v.len()).into_iter().chain([u32::MAX as usize]) {
            let got: Vec<(i32, N, N, u64)> = svc.get_position_ticks(*a, off as u32).iter().map(|t| (t.index, t.fee_growth_outside_x.n(), t.fee_growth_outside_y.n(), t.seconds_outside)).collect();
            let want: Vec<(i32, N, N, u64)> = v.iter().skip(off).flat_map(|p| [st.ticks.get(&(p.key, p.lo)), st.ticks.get(&(p.key, p.hi))]).flatten().map(|t| (t.index, t.ox.clone(), t.oy.clone(), t.secs)).collect();
            if got != want { put(f, "q.posticks", format!("position ticks from {off} of {}: {got:?} expected {want:?}", v.len())); }
        }
    }
}

/// Repeats an accepted operation from the same state with arguments exactly at, and one unit past, the
/// boundaries this state gives it: the price at which it ended, the amount it delivered, the balance it used up.
/// Trades that end exactly at the price of the nearest ticks, by the amount alone and by a limit on top, and a trade back.
/// Once for each constellation of a pool's price, tick, liquidity and ticks (accumulators and owners aside) a worker meets.
pub fn stops(s: &Scenario, node: &Node, f: &mut Vec<Finding>) {
    thread_local!(static SEEN: std::cell::RefCell<std::collections::HashSet<u64>> = Default::default());
    let one = n(1u32);
    for (k, p) in &node.st.pools { for x_to_y in [true, false] {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (&s.name, k, x_to_y, &p.price, p.tick, &p.liq, node.st.protocol_fee).hash(&mut h);
        for ((q, i), t) in &node.st.ticks { if q == k { (i, &t.net).hash(&mut h); } }
        if !SEEN.with(|x| x.borrow_mut().insert(h.finish())) { continue; }
        let tin = if x_to_y { k.x } else { k.y };
        let Some(who) = s.u.actors.iter().copied().max_by_key(|w| node.st.bal(*w, tin)) else { continue };
        let near: Vec<i32> = if x_to_y { node.st.flags.range((*k, i32::MIN)..=(*k, p.tick)).rev().map(|t| t.1).filter(|t| m::tick_price(*t) < p.price).take(2).collect() }
            else { node.st.flags.range((*k, p.tick + 1)..=(*k, i32::MAX)).map(|t| t.1).filter(|t| m::tick_price(*t) > p.price).take(2).collect() };
        for t in near {
            // an empty stretch costs one step for every 256 spacings
            if (t - p.tick).abs() > 4_000 * k.tier.sp as i32 { continue; }
            let price = m::tick_price(t);
            let Some((a, b)) = node.st.way_to(*k, x_to_y, &price, node.now) else { continue };
            let far = n(if x_to_y { m::MIN_PRICE } else { m::MAX_PRICE });
            let mut tries = vec![];
            for (amount, by_in) in [(a.clone(), true), (&a + &one, true), (&a - &one, true), (b.clone(), false)] { for limit in [&price, &far] {
                if amount > zero() { tries.push((amount.clone(), by_in, limit.clone())); }
            } }
            for (amount, by_in, limit) in tries {
                let act = (who, Op::Swap { key: *k, x_to_y, amount, by_in, limit });
                let mut at = node.clone();
                for (i, act) in [act, (who, Op::Swap { key: *k, x_to_y: !x_to_y, amount: n(1000u32), by_in: true, limit: n(if x_to_y { m::MAX_PRICE } else { m::MIN_PRICE }) })].iter().enumerate() {
                    let mut r = explore::extra(&s.u, &at, act);
                    let mut found = std::mem::take(&mut r.findings);
                    if r.out.ok() { for c in [liquidity as explore::NodeCheck, ticks, price_tick] { c(s, &r.node, &mut found); } }
                    f.extend(found.into_iter().map(|x| Finding { detail: format!("after {}{}: {}", explore::show(act), if i > 0 { " (having come to the tick)" } else { "" }, x.detail), ..x }));
                    if !r.out.ok() { break; }
                    at = r.node;
                }
            }
        }
    } }
}
pub fn edges(s: &Scenario, from: &Node, act: &Act, st: &Step, f: &mut Vec<Finding>) { at_edges(s, from, act, st, f, None) }
pub fn quote_at_edges(s: &Scenario, from: &Node, act: &Act, st: &Step, f: &mut Vec<Finding>) { at_edges(s, from, act, st, f, Some(quote)) }
pub fn at_edges(s: &Scenario, from: &Node, act: &Act, st: &Step, f: &mut Vec<Finding>, also: Option<explore::StepCheck>) {
    let Ok(ret) = &st.model else { return };
    if !st.out.ok() { return; }
    let one = n(1u32);
    let run = |acts: &[Act], f: &mut Vec<Finding>| {
        let mut at = from.clone();
        for a in acts {
            let mut r = explore::extra(&s.u, &at, a);
            let mut found = std::mem::take(&mut r.findings);
            if let Some(c) = also { c(s, &at, a, &r, &mut found); }
            f.extend(found.into_iter().map(|x| Finding { detail: format!("with {}: {}", acts.iter().map(explore::show).collect::<Vec<_>>().join("; "), x.detail), ..x }));
            at = r.node;
        }
    };
    let who = act.0;
    match (&act.1, ret) {
        (Op::Swap { key, x_to_y, amount, by_in, .. }, m::Ret::Swap(r)) => {
            let swap = |amount: &N, by_in: bool, limit: &N| (who, Op::Swap { key: *key, x_to_y: *x_to_y, amount: amount.clone(), by_in, limit: limit.clone() });
            for limit in [r.target.clone(), &r.target + &one, &r.target - &one] {
                if limit >= n(m::MIN_PRICE) && limit <= n(m::MAX_PRICE) { run(&[swap(amount, *by_in, &limit)], f); }
            }
            let far = n(if *x_to_y { m::MIN_PRICE } else { m::MAX_PRICE });
            run(&[swap(&r.a_in, true, &far)], f);
            if r.a_out > zero() { run(&[swap(&r.a_out, false, &far)], f); }
        }
        (Op::SwapRoute { amount, hops, .. }, m::Ret::One(r)) => {
            for (expected, slippage) in [(r.clone(), 0), (r + &one, 0), (r.clone(), m::PCT_ONE / 100), (r * n(100u32) / n(99u32), m::PCT_ONE / 100), (r * n(100u32) / n(99u32) + &one, m::PCT_ONE / 100), (r * n(2u32), m::PCT_ONE / 2), (r * n(2u32) + &one, m::PCT_ONE / 2)] {
                run(&[(who, Op::SwapRoute { amount: amount.clone(), expected, slippage, hops: hops.clone() })], f);
            }
        }
        (Op::CreatePosition { key, lo, hi, liq, .. }, _) => {
            let p = &from.st.pools[key].price;
            for (slo, shi) in [(p.clone(), p.clone()), (p + &one, p + &one), (p - &one, p - &one), (n(m::MIN_PRICE), p - &one), (p + &one, n(m::MAX_PRICE))] {
                run(&[(who, Op::CreatePosition { key: *key, lo: *lo, hi: *hi, liq: liq.clone(), slo, shi })], f);
            }
        }
        _ => {}
    }
    if let Op::Swap { .. } | Op::SwapRoute { .. } | Op::CreatePosition { .. } | Op::Unfund { .. } = &act.1 {
        for t in &s.u.tokens {
            if t.is_zero() { continue; }
            let (had, has) = (from.st.bal(who, *t), st.node.st.bal(who, *t));
            if has >= had { continue; }
            // exactly enough, then one short
            if has > zero() { run(&[(who, Op::Unfund { token: *t, amount: Some(has.clone()) }), act.clone()], f); }
            run(&[(who, Op::Unfund { token: *t, amount: Some(&has + &one) }), act.clone()], f);
        }
    }
}
