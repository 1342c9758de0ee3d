//! Abstraction from the real contract to the model, wire encoding of operations, and comparison.
use crate::model as m;
use crate::num::*;
use crate::rt::{self, End, Outcome};
use contracts::{FeeTier, PoolKey};
use decimal::*;
use io::{CalculateSwapResult, InvariantEvent, SwapHop};
use math::{percentage::Percentage, token_amount::TokenAmount};
use parity_scale_codec::{Decode, Encode};
use sails_rs::ActorId;
use std::collections::BTreeSet;

pub fn ctier(t: m::Tier) -> FeeTier { FeeTier { fee: Percentage::new(t.fee), tick_spacing: t.sp } }
pub fn ckey(k: m::Key) -> PoolKey { PoolKey { token_x: k.x, token_y: k.y, fee_tier: ctier(k.tier) } }
pub fn mtier(t: FeeTier) -> m::Tier { m::Tier { fee: t.fee.get(), sp: t.tick_spacing } }
pub fn mkey(k: PoolKey) -> m::Key { m::Key { x: k.token_x, y: k.token_y, tier: mtier(k.fee_tier) } }
pub fn mpool(p: &contracts::Pool) -> m::Pool {
    m::Pool { liq: p.liquidity.n(), price: p.sqrt_price.n(), tick: p.current_tick_index, fgx: p.fee_growth_global_x.n(), fgy: p.fee_growth_global_y.n(),
        px: p.fee_protocol_token_x.n(), py: p.fee_protocol_token_y.n(), start: p.start_timestamp, last: p.last_timestamp, receiver: p.fee_receiver }
}
pub fn mtick(t: &contracts::Tick) -> m::Tick {
    let c = t.liquidity_change.n();
    m::Tick { index: t.index, net: if t.sign { c } else { -c }, gross: t.liquidity_gross.n(), price: t.sqrt_price.n(), ox: t.fee_growth_outside_x.n(), oy: t.fee_growth_outside_y.n(), secs: t.seconds_outside }
}
pub fn mpos(p: &contracts::Position) -> m::Pos {
    m::Pos { key: mkey(p.pool_key), liq: p.liquidity.n(), lo: p.lower_tick_index, hi: p.upper_tick_index, fx: p.fee_growth_inside_x.n(), fy: p.fee_growth_inside_y.n(),
        block: p.last_block_number, owed_x: p.tokens_owed_x.n(), owed_y: p.tokens_owed_y.n() }
}
pub fn mswap(r: &CalculateSwapResult) -> m::SwapOut {
    m::SwapOut { a_in: r.amount_in.n(), a_out: r.amount_out.n(), start: r.start_sqrt_price.n(), target: r.target_sqrt_price.n(), fee: r.fee.n(), pool: mpool(&r.pool), ticks: r.ticks.iter().map(mtick).collect() }
}

/// Every identity a scenario may touch; what the abstraction enumerates.
#[derive(Debug, Clone, Default)]
pub struct Universe {
    pub admin: ActorId,
    pub actors: Vec<ActorId>,
    pub tokens: Vec<ActorId>,
    pub tiers: Vec<m::Tier>,
    pub keys: Vec<m::Key>,
    pub ticks: Vec<i32>,
}

/// Reads the whole observable state through the public queries.
/// Structural disagreements between queries are reported in `odd`.
pub fn observe(u: &Universe, odd: &mut Vec<(&'static str, String)>) -> m::State {
    let s = rt::program().service();
    let mut st = m::State::new(u.admin, s.get_protocol_fee().get());
    st.tiers = s.get_fee_tiers().into_iter().map(mtier).collect();
    for t in &u.tiers {
        if s.fee_tier_exists(ctier(*t)) != st.tiers.contains(t) { odd.push(("tiers", format!("fee_tier_exists({t:?}) disagrees with get_fee_tiers"))); }
    }
    let (keys, cnt) = s.get_pool_keys(u16::MAX, 0);
    st.keys = keys.into_iter().map(mkey).collect();
    if cnt as usize != st.keys.len() { odd.push(("keys", format!("pool key count {cnt} but {} listed", st.keys.len()))); }
    for k in &u.keys {
        match s.get_pool(k.x, k.y, ctier(k.tier)) {
            Ok(p) => {
                if !st.keys.contains(k) { odd.push(("keys", format!("pool {k:?} exists but is not enumerated"))); }
                st.pools.insert(*k, mpool(&p));
            }
            Err(_) => if st.keys.contains(k) { odd.push(("keys", format!("enumerated pool {k:?} does not exist"))) },
        }
        let mut flags = 0;
        for t in &u.ticks {
            if m::invalid_tick(*t, k.tier.sp) { continue; }
            if s.is_tick_initialized(ckey(*k), *t) { st.flags.insert((*k, *t)); flags += 1; }
            if let Ok(tk) = s.get_tick(ckey(*k), *t) { st.ticks.insert((*k, *t), mtick(&tk)); }
        }
        let _ = flags;
    }
    for a in &u.actors {
        let v: Vec<m::Pos> = s.get_all_positions(*a).iter().map(mpos).collect();
        let c = s.get_user_position_amount(*a) as usize;
        if c != v.len() { odd.push(("positions", format!("user {a:?} position amount {c} but {} listed", v.len()))); }
        if !v.is_empty() { st.positions.insert(*a, v); }
        let mut seen = BTreeSet::new();
        for (t, b) in s.get_user_balances(*a) {
            if !seen.insert(t) { odd.push(("balances", "token listed twice".into())); }
            let b = b.n();
            if b != zero() { st.balances.insert((*a, t), b); }
        }
    }
    st
}

/// Method name and wire input of an operation (None for the ones that are not a single message).
pub fn encode(op: &m::Op) -> Option<(&'static str, Vec<u8>, u128)> {
    use m::Op::*;
    Some(match op {
        ChangeProtocolFee(f) => ("ChangeProtocolFee", Percentage::new(*f).encode(), 0),
        AddFeeTier(t) => ("AddFeeTier", ctier(*t).encode(), 0),
        RemoveFeeTier(t) => ("RemoveFeeTier", ctier(*t).encode(), 0),
        CreatePool { t0, t1, tier, price, tick } => ("CreatePool", (*t0, *t1, ctier(*tier), prc(price), *tick).encode(), 0),
        ChangeFeeReceiver(k, a) => ("ChangeFeeReceiver", (ckey(*k), *a).encode(), 0),
        CreatePosition { key, lo, hi, liq: l, slo, shi } => ("CreatePosition", (ckey(*key), *lo, *hi, liq(l), prc(slo), prc(shi)).encode(), 0),
        RemovePosition(i) => ("RemovePosition", i.encode(), 0),
        TransferPosition(i, a) => ("TransferPosition", (*i, *a).encode(), 0),
        Swap { key, x_to_y, amount, by_in, limit } => ("Swap", (ckey(*key), *x_to_y, tok(amount), *by_in, prc(limit)).encode(), 0),
        SwapRoute { amount, expected, slippage, hops } => ("SwapRoute", (tok(amount), tok(expected), Percentage::new(*slippage),
            hops.iter().map(|h| SwapHop { pool_key: ckey(h.key), x_to_y: h.x_to_y }).collect::<Vec<_>>()).encode(), 0),
        ClaimFee(i) => ("ClaimFee", i.encode(), 0),
        WithdrawProtocolFee(k) => ("WithdrawProtocolFee", ckey(*k).encode(), 0),
        DepositVara(v) => ("DepositVara", vec![], *v),
        WithdrawVara(v) => ("WithdrawVara", v.as_ref().map(tok).encode(), 0),
        Fund { .. } | Unfund { .. } | Advance { .. } => return None,
    })
}

pub const REPLY_OK: [u8; 4] = [0, 1, 0, 0];
/// ErrorReplyReason::Execution(UserspacePanic)
pub const REPLY_PANIC: [u8; 4] = [1, 0, 3, 0];
/// ErrorReplyReason::Execution(RanOutOfGas)
pub const REPLY_GAS: [u8; 4] = [1, 0, 0, 0];

pub fn vft_reply(ok: bool) -> Vec<u8> { ("Vft".to_string(), "TransferFrom".to_string(), ok).encode() }

/// The transfer request a token contract must receive.
pub fn vft_request(from: ActorId, to: ActorId, amount: &N) -> Vec<u8> {
    [("Vft".to_string(), "TransferFrom".to_string()).encode(), from.encode(), to.encode(), tok(amount).encode()].concat()
}

/// Executes an operation on the real contract.
pub fn exec(who: ActorId, op: &m::Op) -> Outcome {
    match op {
        m::Op::Advance { .. } => Outcome { end: End::Done(vec![]), msg_id: [0; 32], events: vec![], sent: vec![], reply: None, woken: vec![] },
        m::Op::Fund { token, amount } => transfer(who, "DepositSingleToken", (*token, tok(amount)).encode(), *token),
        m::Op::Unfund { token, amount } => transfer(who, "WithdrawSingleToken", (*token, amount.as_ref().map(tok)).encode(), *token),
        _ => {
            let (name, args, value) = encode(op).unwrap();
            rt::call(who, value, &[name.to_string().encode(), args].concat())
        }
    }
}
fn transfer(who: ActorId, method: &str, args: Vec<u8>, token: ActorId) -> Outcome {
    let inp = [method.to_string().encode(), args].concat();
    let id = gsys::mock::fresh_id();
    let first = rt::call_async(who, id, &inp);
    if !matches!(first.end, End::Waiting(_)) { return first; }
    let sent = first.sent.clone();
    if sent.len() != 1 { return Outcome { end: End::Trap(format!("asked the token for {} transfers", sent.len())), ..first }; }
    rt::deliver_reply(token, sent[0].id, REPLY_OK, &vft_reply(true));
    let mut second = rt::call_async(who, id, &inp);
    second.sent.splice(0..0, sent);
    second
}

/// Decodes the reply of an operation into the model's vocabulary.
pub fn ret(op: &m::Op, o: &Outcome) -> Result<m::Ret, String> {
    use m::Op::*;
    let body: Vec<u8> = match (&o.end, op) {
        (End::Left, WithdrawVara(_)) => {
            let (p, v) = o.reply.clone().ok_or("no reply")?;
            let (svc, meth, amt) = <(String, String, TokenAmount)>::decode(&mut &p[..]).map_err(|e| e.to_string())?;
            if svc != "Service" || meth != "WithdrawVara" { return Err(format!("reply route {svc}/{meth}")); }
            if amt.n() != n(v) { return Err(format!("replied amount {} but sent value {v}", amt.n())); }
            return Ok(m::Ret::Vara(n(v)));
        }
        (End::Done(b), Fund { .. } | Unfund { .. }) => { let _ = b; o.reply.clone().ok_or("no reply")?.0 }
        (End::Done(b), _) => b.clone(),
        (e, _) => return Err(format!("unexpected end {e:?}")),
    };
    if !o.sent.is_empty() && !matches!(op, Fund { .. } | Unfund { .. }) { return Err(format!("unexpected messages sent: {:?}", o.sent)); }
    let r = |m: &str| m.to_string();
    Ok(match op {
        Advance { .. } => m::Ret::Unit,
        ChangeProtocolFee(_) => m::Ret::Pct(rt::decode_reply::<Percentage>(&r("ChangeProtocolFee"), &body)?.get()),
        AddFeeTier(_) => m::Ret::Tier(mtier(rt::decode_reply::<FeeTier>("AddFeeTier", &body)?)),
        RemoveFeeTier(_) => m::Ret::Tier(mtier(rt::decode_reply::<FeeTier>("RemoveFeeTier", &body)?)),
        CreatePool { .. } => { rt::decode_reply::<()>("CreatePool", &body)?; m::Ret::Unit }
        ChangeFeeReceiver(..) => { rt::decode_reply::<()>("ChangeFeeReceiver", &body)?; m::Ret::Unit }
        CreatePosition { .. } => m::Ret::Pos(mpos(&rt::decode_reply::<contracts::Position>("CreatePosition", &body)?)),
        RemovePosition(_) => { let (x, y) = rt::decode_reply::<(TokenAmount, TokenAmount)>("RemovePosition", &body)?; m::Ret::Pair(x.n(), y.n()) }
        TransferPosition(..) => { rt::decode_reply::<()>("TransferPosition", &body)?; m::Ret::Unit }
        Swap { .. } => m::Ret::Swap(Box::new(mswap(&rt::decode_reply::<CalculateSwapResult>("Swap", &body)?))),
        SwapRoute { .. } => m::Ret::One(rt::decode_reply::<TokenAmount>("SwapRoute", &body)?.n()),
        ClaimFee(_) => { let (x, y) = rt::decode_reply::<(TokenAmount, TokenAmount)>("ClaimFee", &body)?; m::Ret::Pair(x.n(), y.n()) }
        WithdrawProtocolFee(_) => { rt::decode_reply::<()>("WithdrawProtocolFee", &body)?; m::Ret::Unit }
        DepositVara(_) => m::Ret::One(rt::decode_reply::<TokenAmount>("DepositVara", &body)?.n()),
        WithdrawVara(_) => return Err("native withdrawal did not reply explicitly".into()),
        Fund { .. } => m::Ret::One(rt::decode_reply::<TokenAmount>("DepositSingleToken", &body)?.n()),
        Unfund { .. } => m::Ret::One(rt::decode_reply::<TokenAmount>("WithdrawSingleToken", &body)?.n()),
    })
}

pub fn event(bytes: &[u8]) -> Result<m::Ev, String> {
    let mut b = bytes;
    let e = |x: parity_scale_codec::Error| x.to_string();
    let svc = String::decode(&mut b).map_err(e)?;
    if svc != "Service" { return Err(format!("event prefix {svc}")); }
    let name = String::decode(&mut b).map_err(e)?;
    let idx = match name.as_str() { "PositionCreatedEvent" => 0u8, "PositionRemovedEvent" => 1, "CrossTickEvent" => 2, "SwapEvent" => 3, x => return Err(format!("event {x}")) };
    let full = [&[idx], b].concat();
    let mut b = &full[..];
    let ev = InvariantEvent::decode(&mut b).map_err(e)?;
    if !b.is_empty() { return Err("trailing event bytes".into()); }
    Ok(match ev {
        InvariantEvent::PositionCreatedEvent { timestamp, address, pool_key, liquidity_delta, lower_tick, upper_tick, current_sqrt_price } =>
            m::Ev::Created { time: timestamp, who: address, key: mkey(pool_key), liq: liquidity_delta.n(), lo: lower_tick, hi: upper_tick, price: current_sqrt_price.n() },
        InvariantEvent::PositionRemovedEvent { timestamp, address, pool_key, liquidity, lower_tick_index, upper_tick_index, sqrt_price } =>
            m::Ev::Removed { time: timestamp, who: address, key: mkey(pool_key), liq: liquidity.n(), lo: lower_tick_index, hi: upper_tick_index, price: sqrt_price.n() },
        InvariantEvent::CrossTickEvent { timestamp, address, pool_key, indexes } => m::Ev::Cross { time: timestamp, who: address, key: mkey(pool_key), idx: indexes },
        InvariantEvent::SwapEvent { timestamp, address, pool_key, amount_in, amount_out, fee, start_sqrt_price, target_sqrt_price, x_to_y } =>
            m::Ev::Swap { time: timestamp, who: address, key: mkey(pool_key), a_in: amount_in.n(), a_out: amount_out.n(), fee: fee.n(), start: start_sqrt_price.n(), target: target_sqrt_price.n(), x_to_y },
    })
}

/// An event as the contract sends it.
pub fn event_bytes(e: &m::Ev) -> Vec<u8> {
    let l = |x: &N| to256(x).map(|_| liq(x)).expect("harness: liquidity");
    let (name, ev) = match e {
        m::Ev::Created { time, who, key, liq, lo, hi, price } => ("PositionCreatedEvent", InvariantEvent::PositionCreatedEvent { timestamp: *time, address: *who, pool_key: ckey(*key), liquidity_delta: l(liq), lower_tick: *lo, upper_tick: *hi, current_sqrt_price: prc(price) }),
        m::Ev::Removed { time, who, key, liq, lo, hi, price } => ("PositionRemovedEvent", InvariantEvent::PositionRemovedEvent { timestamp: *time, address: *who, pool_key: ckey(*key), liquidity: l(liq), lower_tick_index: *lo, upper_tick_index: *hi, sqrt_price: prc(price) }),
        m::Ev::Cross { time, who, key, idx } => ("CrossTickEvent", InvariantEvent::CrossTickEvent { timestamp: *time, address: *who, pool_key: ckey(*key), indexes: idx.clone() }),
        m::Ev::Swap { time, who, key, a_in, a_out, fee, start, target, x_to_y } => ("SwapEvent", InvariantEvent::SwapEvent { timestamp: *time, address: *who, pool_key: ckey(*key), amount_in: tok(a_in), amount_out: tok(a_out), fee: tok(fee), start_sqrt_price: prc(start), target_sqrt_price: prc(target), x_to_y: *x_to_y }),
    };
    ["Service".to_string().encode(), name.to_string().encode(), ev.encode()[1..].to_vec()].concat()
}

/// Observable groups in which a step can disagree with the model.
pub type Diff = (&'static str, String);

pub fn compare_states(model: &m::State, real: &m::State, out: &mut Vec<Diff>) {
    if model == real { return; }
    if model.protocol_fee != real.protocol_fee { out.push(("config", format!("protocol fee {} expected {}", real.protocol_fee, model.protocol_fee))); }
    if model.tiers != real.tiers {
        let (mut a, mut b) = (model.tiers.clone(), real.tiers.clone()); a.sort(); b.sort();
        if a != b { out.push(("tiers", format!("fee tiers {b:?} expected {a:?}"))); } else { out.push(("order", "fee tier order changed".into())); }
    }
    if model.keys != real.keys {
        out.push(("keys", format!("pool keys {:?} expected {:?}", real.keys, model.keys)));
    }
    for k in model.pools.keys().chain(real.pools.keys()).collect::<BTreeSet<_>>() {
        match (model.pools.get(k), real.pools.get(k)) {
            (Some(a), Some(b)) => {
                if a.liq != b.liq { out.push(("pool.liquidity", format!("liquidity {} expected {}", b.liq, a.liq))); }
                if a.price != b.price { out.push(("pool.price", format!("price {} expected {}", b.price, a.price))); }
                if a.tick != b.tick { out.push(("pool.tick", format!("tick {} expected {}", b.tick, a.tick))); }
                if (&a.fgx, &a.fgy) != (&b.fgx, &b.fgy) { out.push(("pool.fees", format!("fee growth {}/{} expected {}/{}", b.fgx, b.fgy, a.fgx, a.fgy))); }
                if (&a.px, &a.py) != (&b.px, &b.py) { out.push(("pool.protocol", format!("protocol fees {}/{} expected {}/{}", b.px, b.py, a.px, a.py))); }
                if (a.start, a.last) != (b.start, b.last) { out.push(("pool.time", format!("times {}/{} expected {}/{}", b.start, b.last, a.start, a.last))); }
                if a.receiver != b.receiver { out.push(("pool.receiver", format!("fee receiver {:?} expected {:?}", b.receiver, a.receiver))); }
            }
            (a, b) => out.push(("keys", format!("pool {k:?} present={} expected {}", b.is_some(), a.is_some()))),
        }
    }
    for k in model.ticks.keys().chain(real.ticks.keys()).collect::<BTreeSet<_>>() {
        match (model.ticks.get(k), real.ticks.get(k)) {
            (Some(a), Some(b)) => {
                if a.net != b.net || a.gross != b.gross { out.push(("tick.liquidity", format!("tick {} net/gross {}/{} expected {}/{}", k.1, b.net, b.gross, a.net, a.gross))); }
                if a.price != b.price || a.index != b.index { out.push(("tick.price", format!("tick {} price {} expected {}", k.1, b.price, a.price))); }
                if a.ox != b.ox || a.oy != b.oy { out.push(("tick.fees", format!("tick {} outside fees {}/{} expected {}/{}", k.1, b.ox, b.oy, a.ox, a.oy))); }
                if a.secs != b.secs { out.push(("tick.time", format!("tick {} seconds outside {} expected {}", k.1, b.secs, a.secs))); }
            }
            (a, b) => out.push(("tick.exists", format!("tick {} present={} expected {}", k.1, b.is_some(), a.is_some()))),
        }
    }
    if model.flags != real.flags { out.push(("tick.flags", format!("initialized ticks {:?} expected {:?}", real.flags.iter().map(|x| x.1).collect::<Vec<_>>(), model.flags.iter().map(|x| x.1).collect::<Vec<_>>()))); }
    for a in model.positions.keys().chain(real.positions.keys()).collect::<BTreeSet<_>>() {
        let e = vec![];
        let (x, y) = (model.positions.get(a).unwrap_or(&e), real.positions.get(a).unwrap_or(&e));
        if x == y { continue; }
        if x.len() != y.len() { out.push(("positions", format!("user {a:?} has {} positions expected {}", y.len(), x.len()))); continue; }
        for (i, (p, q)) in x.iter().zip(y).enumerate() {
            if (p.key, &p.liq, p.lo, p.hi) != (q.key, &q.liq, q.lo, q.hi) { out.push(("positions", format!("user {a:?} position {i} is {q:?} expected {p:?}"))); }
            else {
                if (&p.fx, &p.fy, &p.owed_x, &p.owed_y) != (&q.fx, &q.fy, &q.owed_x, &q.owed_y) { out.push(("pos.fees", format!("user {a:?} position {i} is {q:?} expected {p:?}"))); }
                if p.block != q.block { out.push(("pos.block", format!("position block {} expected {}", q.block, p.block))); }
            }
        }
    }
    for k in model.balances.keys().chain(real.balances.keys()).collect::<BTreeSet<_>>() {
        let z = zero();
        let (a, b) = (model.balances.get(k).unwrap_or(&z), real.balances.get(k).unwrap_or(&z));
        if a != b { out.push(("balances", format!("balance of {:?} in {:?} is {b} expected {a}", k.0, k.1))); }
    }
}
