//! The TypeScript client (/repo/sdk/src), run by node with its imports replaced (/verif/client): its messages go to the
//! natively executed contract, its calculations to the SDK's computing core. What it asks for and what it hands
//! back is judged here.
use crate::bridge;
use crate::explore::{kind, Act, Finding, Node, Scenario, Step};
use crate::model::{self as m, Op};
use crate::num::*;
use crate::rt::{self, End, Outcome};
use crate::sdk as core;
use num_traits::ToPrimitive;
use parity_scale_codec::{Decode, Encode};
use sails_rs::ActorId;
use sdk_decimal::{Decimal, Factories};
use sdk_wasm as sdk;
use serde_json::{json, Value as V};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

// ---- values on the wire: big integers are "#…", identities and bytes "0x…"

pub fn big(x: impl Into<N>) -> V { V::String(format!("#{}", x.into())) }
pub fn id(a: ActorId) -> V { V::String(hex(&rt::hash(a))) }
pub fn hex(b: &[u8]) -> String { b.iter().fold("0x".to_string(), |s, x| s + &format!("{x:02x}")) }
fn unhex(s: &str) -> Option<Vec<u8>> {
    let s = s.strip_prefix("0x")?;
    if s.len() % 2 == 1 || !s.is_ascii() { return None; }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
pub fn signer(a: ActorId) -> V { json!({ "$signer": hex(&rt::hash(a)) }) }
pub fn tier(t: m::Tier) -> V { json!({ "fee": big(t.fee), "tickSpacing": big(t.sp) }) }
pub fn key(k: m::Key) -> V { json!({ "tokenX": id(k.x), "tokenY": id(k.y), "feeTier": tier(k.tier) }) }
pub fn opt(a: &Option<N>) -> V { a.as_ref().map_or(V::Null, |x| big(x.clone())) }

/// The integer a value stands for, in any of the forms in which the client has integers.
pub fn int(v: &V) -> Option<N> {
    match v {
        V::Number(x) => x.as_i64().map(n).or_else(|| x.as_u64().map(n)),
        V::String(s) => match s.strip_prefix("0x") {
            Some(h) => N::parse_bytes(h.as_bytes(), 16),
            None => s.strip_prefix('#').unwrap_or(s).parse().ok(),
        },
        _ => None,
    }
}
/// Both say the same: big integers by value, texts as they are, objects with at least what is expected.
pub fn same(got: &V, want: &V) -> bool {
    match (got, want) {
        (V::Array(a), V::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (V::Object(a), V::Object(b)) => b.iter().all(|(k, y)| a.get(k).is_some_and(|x| same(x, y))),
        (V::String(a), V::String(b)) if b.starts_with("0x") => a.eq_ignore_ascii_case(b),
        // big integers are to be big integers
        (V::String(a), V::String(b)) if b.starts_with('#') => a.starts_with('#') && int(got).is_some() && int(got) == int(want),
        (a, b) => a == b,
    }
}
pub fn cut(v: &V) -> String { let s = v.to_string(); if s.len() > 300 { s.chars().take(300).collect::<String>() + "..." } else { s } }

// ---- what the contract holds, in the client's words

pub fn pool(p: &m::Pool) -> V {
    json!({ "liquidity": big(p.liq.clone()), "sqrtPrice": big(p.price.clone()), "currentTickIndex": big(p.tick), "feeGrowthGlobalX": big(p.fgx.clone()), "feeGrowthGlobalY": big(p.fgy.clone()),
        "feeProtocolTokenX": big(p.px.clone()), "feeProtocolTokenY": big(p.py.clone()), "startTimestamp": big(p.start), "lastTimestamp": big(p.last), "feeReceiver": id(p.receiver) })
}
fn sign(x: &N) -> bool { !neg(x) }
fn abs(x: &N) -> N { if neg(x) { -x } else { x.clone() } }
/// The sign of a change of nothing says nothing.
fn signed(mut v: V, net: &N) -> V { if *net != zero() { v["sign"] = json!(sign(net)); } v }
pub fn tick(t: &m::Tick) -> V {
    signed(json!({ "index": big(t.index), "liquidityChange": big(abs(&t.net)), "liquidityGross": big(t.gross.clone()), "sqrtPrice": big(t.price.clone()),
        "feeGrowthOutsideX": big(t.ox.clone()), "feeGrowthOutsideY": big(t.oy.clone()), "secondsOutside": big(t.secs) }), &t.net)
}
pub fn liquidity_tick(t: &m::Tick) -> V { signed(json!({ "index": big(t.index), "liquidityChange": big(abs(&t.net)) }), &t.net) }
pub fn position(p: &m::Pos) -> V {
    json!({ "poolKey": key(p.key), "liquidity": big(p.liq.clone()), "lowerTickIndex": big(p.lo), "upperTickIndex": big(p.hi), "feeGrowthInsideX": big(p.fx.clone()), "feeGrowthInsideY": big(p.fy.clone()),
        "lastBlockNumber": big(p.block), "tokensOwedX": big(p.owed_x.clone()), "tokensOwedY": big(p.owed_y.clone()) })
}
pub fn event(e: &m::Ev) -> V {
    match e {
        m::Ev::Created { time, who, key: k, liq, lo, hi, price } => json!(["PositionCreatedEvent", { "timestamp": big(*time), "address": id(*who), "poolKey": key(*k), "liquidityDelta": big(liq.clone()), "lowerTick": big(*lo), "upperTick": big(*hi), "sqrtPrice": big(price.clone()) }]),
        m::Ev::Removed { time, who, key: k, liq, lo, hi, price } => json!(["PositionRemovedEvent", { "timestamp": big(*time), "address": id(*who), "poolKey": key(*k), "liquidityDelta": big(liq.clone()), "lowerTick": big(*lo), "upperTick": big(*hi), "sqrtPrice": big(price.clone()) }]),
        m::Ev::Cross { time, who, key: k, idx } => json!(["CrossTickEvent", { "timestamp": big(*time), "address": id(*who), "poolKey": key(*k), "indexes": idx.iter().map(|i| big(*i)).collect::<Vec<_>>() }]),
        m::Ev::Swap { time, who, key: k, a_in, a_out, fee, start, target, x_to_y } => json!(["SwapEvent", { "timestamp": big(*time), "address": id(*who), "poolKey": key(*k), "amountIn": big(a_in.clone()), "amountOut": big(a_out.clone()),
            "fee": big(fee.clone()), "startSqrtPrice": big(start.clone()), "targetSqrtPrice": big(target.clone()), "xToY": x_to_y }]),
    }
}
fn outcome(r: &m::Ret) -> V {
    match r {
        m::Ret::Unit => V::Null,
        m::Ret::Pct(x) => big(*x),
        m::Ret::Tier(t) => tier(*t),
        m::Ret::Pos(p) => position(p),
        m::Ret::Pair(x, y) => json!([big(x.clone()), big(y.clone())]),
        m::Ret::One(x) | m::Ret::Vara(x) => big(x.clone()),
        m::Ret::Swap(s) => json!({ "amountIn": big(s.a_in.clone()), "amountOut": big(s.a_out.clone()), "startSqrtPrice": big(s.start.clone()), "targetSqrtPrice": big(s.target.clone()), "fee": big(s.fee.clone()),
            "pool": pool(&s.pool), "ticks": s.ticks.iter().map(tick).collect::<Vec<_>>() }),
    }
}

// ---- the client's process

/// A message the client sent, and what became of it.
#[derive(Default)]
pub struct Message { pub kind: String, pub from: Vec<u8>, pub to: Vec<u8>, pub payload: Vec<u8>, pub value: N, pub out: Option<Outcome> }
pub struct Answer { pub res: Result<V, String>, pub events: Vec<V>, pub sent: Vec<Message>, pub asked: Vec<Message> }
/// What becomes of messages and queries that are not for the exchange, and of replies on the way back.
#[derive(Clone, Default)]
pub struct World {
    /// the reply of any other program, as bytes
    pub reply: Vec<u8>,
    /// messages whose reply is lost on the way (the message is executed), by their number
    pub cut: Vec<usize>,
}
static WORLD: std::sync::Mutex<World> = std::sync::Mutex::new(World { reply: vec![], cut: vec![] });
pub fn world(w: World) { *WORLD.lock().unwrap() = w; }
struct Run { pid: u32, child: Child, tx: ChildStdin, rx: BufReader<ChildStdout> }
static mut RUN: Option<Run> = None;

fn start() -> Run {
    let mut c = Command::new("node");
    c.arg("--stack-size=4000").arg("/verif/client/run.js").stdin(Stdio::piped()).stdout(Stdio::piped());
    if std::env::var_os("MC_TRACE_PANIC").is_none() { c.stderr(Stdio::null()); }
    let mut child = c.spawn().expect("harness: node starts");
    let (tx, rx) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
    Run { pid: std::process::id(), child, tx, rx }
}
#[allow(static_mut_refs)]
fn running() -> &'static mut Run {
    let r = unsafe { &mut RUN };
    if r.as_ref().map(|x| x.pid) != Some(std::process::id()) {
        // a handle inherited from the process before the fork is not ours to close
        if let Some(old) = r.take() { std::mem::forget(old); }
        *r = Some(start());
        let loaded = ask_in(r.as_mut().unwrap(), "", "$load", vec![id(rt::actor(rt::PROGRAM_ID))]);
        if let Err(e) = loaded.res { if e.contains("esbuild'") { panic!("harness: the bundler is missing: {e}"); } }
    }
    r.as_mut().unwrap()
}
/// Calls a function of the client; serves what it needs meanwhile.
#[allow(static_mut_refs)]
pub fn ask(on: &str, f: &str, args: Vec<V>) -> Answer {
    let a = ask_in(running(), on, f, args);
    if a.res == Err(GONE.to_string()) { if let Some(mut r) = unsafe { RUN.take() } { let _ = r.child.kill(); let _ = r.child.wait(); } }
    a
}
const GONE: &str = "the client ended without an answer";
fn ask_in(r: &mut Run, on: &str, f: &str, args: Vec<V>) -> Answer {
    let mut sent = vec![];
    let mut asked: Vec<Message> = vec![];
    let gone = |sent| Answer { res: Err(GONE.into()), events: vec![], sent, asked: vec![] };
    if writeln!(r.tx, "{}", json!({ "on": on, "fn": f, "a": args })).is_err() { return gone(sent); }
    loop {
        let mut l = String::new();
        if r.rx.read_line(&mut l).unwrap_or(0) == 0 { return gone(sent); }
        let v: V = serde_json::from_str(&l).unwrap_or_else(|e| panic!("harness: the client said {l:?}: {e}"));
        let reply = match v["q"].as_str() {
            None => return Answer {
                res: match v.get("e") { Some(e) => Err(e.as_str().unwrap_or("?").to_string()), None => Ok(v["r"].clone()) },
                events: v["ev"].as_array().cloned().unwrap_or_default(), sent, asked,
            },
            Some("core") => match rt::guarded(|| compute(v["f"].as_str().unwrap_or(""), v["a"].as_array().map_or(&[], |x| x))) {
                Ok(Ok(x)) => json!({ "r": x }),
                Ok(Err(e)) => json!({ "t": e }),
                Err(e) => json!({ "t": format!("unreachable: {e}") }),
            },
            Some(q @ ("query" | "send")) => {
                let get = |k: &str| v[k].as_str().and_then(unhex).unwrap_or_default();
                let mut msg = Message { kind: v["kind"].as_str().unwrap_or("").into(), from: get("from"), to: get("to"), payload: get("payload"), value: int(&v["value"]).unwrap_or_default(), out: None };
                let w = WORLD.lock().unwrap().clone();
                let here = msg.to == rt::hash(rt::actor(rt::PROGRAM_ID));
                let mut reply = match (here, q) {
                    (false, _) => json!({ "ok": hex(&w.reply), "events": [] }),
                    (true, "send") => deliver(&mut msg),
                    (true, _) => match msg.payload.strip_prefix(SERVICE) {
                        None => json!({ "err": "no such service" }),
                        Some(input) => match rt::peek(input) { Ok(b) => json!({ "ok": hex(&[SERVICE, &b].concat()) }), Err(e) => json!({ "err": e }) },
                    },
                };
                let l = if q == "send" { &mut sent } else { &mut asked };
                if q == "send" && w.cut.contains(&l.len()) && reply.get("ok").is_some() { reply["ok"] = V::String(hex(SERVICE)); }
                l.push(msg);
                reply
            }
            Some(x) => panic!("harness: the client asks {x:?}"),
        };
        if writeln!(r.tx, "{reply}").is_err() { return gone(sent); }
    }
}
/// The same calls, made at once, under every order in which their replies can arrive (up to a number of orders).
pub fn orders(calls: &[V], most: usize, each: &mut dyn FnMut(&[usize], Answer)) -> usize {
    let (mut choices, mut ran): (Vec<usize>, usize) = (vec![], 0);
    loop {
        let a = ask("", "$all", vec![V::Array(calls.to_vec()), choices.iter().map(|c| big(*c)).collect()]);
        ran += 1;
        let widths: Vec<usize> = a.res.as_ref().ok().and_then(|v| v["widths"].as_array()).map_or(vec![], |w| w.iter().filter_map(|x| x.as_u64().map(|x| x as usize)).collect());
        choices.resize(widths.len(), 0);
        each(&choices, a);
        while choices.last().is_some_and(|c| c + 1 >= widths[choices.len() - 1]) { choices.pop(); }
        match choices.last_mut() { Some(c) => *c += 1, None => return ran }
        if ran >= most { return ran; }
    }
}
pub const SERVICE: &[u8] = b"\x1cService";

/// Executes a message of the client on the contract; token contracts confirm every transfer at once.
fn deliver(msg: &mut Message) -> V {
    let Ok(from) = <[u8; 32]>::try_from(msg.from.as_slice()) else { return json!({ "fatal": "no sender" }) };
    let Some(input) = msg.payload.strip_prefix(SERVICE) else { return json!({ "err": "no such service", "events": [] }) };
    let who = ActorId::from(from);
    let name = String::decode(&mut &input[..]).unwrap_or_default();
    let Some(value) = to128(&msg.value) else { return json!({ "fatal": "no such value" }) };
    let asks = ["DepositSingleToken", "WithdrawSingleToken", "DepositTokenPair", "WithdrawTokenPair"].contains(&name.as_str());
    let out = if asks { confirmed(who, input) } else { rt::call(who, value, input) };
    let events: Vec<V> = out.events.iter().map(|e| V::String(hex(e))).collect();
    let reply = match (&out.end, &out.reply) {
        (End::Trap(e), _) => json!({ "err": e, "events": [] }),
        (_, Some((p, _))) if p.starts_with(SERVICE) => json!({ "ok": hex(p), "events": events }),
        (_, Some((p, _))) => json!({ "ok": hex(&[SERVICE, p].concat()), "events": events }),
        (End::Done(b), None) => json!({ "ok": hex(&[SERVICE, b].concat()), "events": events }),
        (e, None) => json!({ "err": format!("no reply: {e:?}"), "events": events }),
    };
    msg.out = Some(out);
    reply
}
/// An asynchronous message whose transfer requests are confirmed in the order in which they were sent.
fn confirmed(who: ActorId, input: &[u8]) -> Outcome {
    let id = gsys::mock::fresh_id();
    let mut out = rt::call_async(who, id, input);
    let mut sent = out.sent.clone();
    let mut k = 0;
    while matches!(out.end, End::Waiting(_)) {
        if k == sent.len() { return Outcome { end: End::Trap("waits for nothing".into()), ..out }; }
        while k < sent.len() { rt::deliver_reply(ActorId::from(sent[k].dest), sent[k].id, bridge::REPLY_OK, &bridge::vft_reply(true)); k += 1; }
        out = rt::call_async(who, id, input);
        sent.extend(out.sent.clone());
    }
    out.sent = sent;
    out
}

// ---- the computing core

/// The number of entries the client asks for at once, instead of thousands.
pub const LIMIT: usize = 2;

pub fn compute(f: &str, a: &[V]) -> Result<V, String> {
    let arg = |i: usize| a.get(i).ok_or("missing argument".to_string());
    let i = |i: usize| arg(i).and_then(|v| int(v).and_then(|x| x.to_i64()).ok_or(format!("invalid type: {v}, expected i64")));
    let u = |i: usize| arg(i).and_then(|v| int(v).and_then(|x| x.to_u64()).ok_or(format!("invalid type: {v}, expected u64")));
    let b = |i: usize| arg(i).and_then(|v| v.as_bool().ok_or(format!("invalid type: {v}, expected a boolean")));
    // 256-bit values travel as texts
    let w = |v: &V| v.as_str().filter(|s| !s.starts_with('#')).and_then(|_| int(v)).filter(|x| to256(x).is_some()).ok_or(format!("invalid type: {v}, expected a string"));
    let q = |v: &V| int(v).filter(|x| to128(x).is_some()).ok_or(format!("invalid type: {v}, expected u128"));
    let text = |x: N| V::String(x.to_string());
    macro_rules! at { ($f:ident, $i:expr) => { $f(arg($i)?)? } }
    macro_rules! decimals { ($t:ty, $by:expr) => {{
        let one = <$t>::from_integer(1u8);
        match $by { "Scale" => big(<$t>::scale()), "Denominator" => V::String(format!("#{}", one.get())), _ => V::String(format!("#{}", <$t>::from_scale(u(0)?, u(1)? as u8).get())) }
    }} }
    for (name, how) in [("get", "Scale"), ("get", "Denominator"), ("_to", "")] {
        let Some(t) = f.strip_prefix(name).and_then(|x| x.strip_suffix(how)) else { continue };
        return Ok(match t {
            "FeeGrowth" => decimals!(sdk::fee_growth::FeeGrowth, how), "FixedPoint" => decimals!(sdk::fixed_point::FixedPoint, how), "Liquidity" => decimals!(sdk::liquidity::Liquidity, how),
            "Percentage" => decimals!(sdk::percentage::Percentage, how), "Price" => decimals!(sdk::price::Price, how), "SecondsPerLiquidity" => decimals!(sdk::seconds_per_liquidity::SecondsPerLiquidity, how),
            "SqrtPrice" => decimals!(sdk::sqrt_price::SqrtPrice, how), "TokenAmount" => decimals!(sdk::token_amount::TokenAmount, how),
            _ => continue,
        });
    }
    Ok(match f {
        "getGlobalMaxSqrtPrice" => big(sdk::get_global_max_sqrt_price()),
        "getGlobalMinSqrtPrice" => big(sdk::get_global_min_sqrt_price()),
        "getTickSearchRange" => big(sdk::get_tick_search_range()),
        "getChunkSize" => big(sdk::get_chunk_size()),
        "getMaxSwapStep" => big(sdk::get_max_swap_step()),
        "getPositionTickLimit" => big(sdk::get_position_tick_limit()),
        "getMaxPoolKeysReturned" => big(LIMIT),
        "getPositionEntriesLimit" => big(LIMIT),
        "getMaxPoolPairsReturned" => big(sdk::get_max_pool_pairs_returned()),
        "getLiquidityTickLimit" => big(LIMIT),
        "_getMaxChunk" => json!(sdk::get_max_chunk(u(0)? as u16).map_err(|e| e.get().0)?),
        "_getMaxTick" => json!(sdk::sqrt_price::get_max_tick(u(0)? as u16).map_err(|e| e.get().0)?),
        "_getMinTick" => json!(sdk::sqrt_price::get_min_tick(u(0)? as u16).map_err(|e| e.get().0)?),
        "_getMaxSqrtPrice" => big(sdk::sqrt_price::get_max_sqrt_price(u(0)? as u16).map_err(|e| e.get().0)?.get()),
        "_getMinSqrtPrice" => big(sdk::sqrt_price::get_min_sqrt_price(u(0)? as u16).map_err(|e| e.get().0)?.get()),
        "_calculateSqrtPrice" => big(sdk::sqrt_price::calculate_sqrt_price(i(0)? as i32).map_err(|e| e.get().0)?.get()),
        "_calculateTick" => json!(sdk::get_tick_at_sqrt_price(core::price(&at!(q, 0)), u(1)? as u16).map_err(|e| e.get().0)?),
        "_alignTickToSpacing" => {
            let (t, s) = (i(0)? as i32, i(1)? as i32);
            big(if t > 0 { t - t % s } else { t - t.rem_euclid(s) })
        }
        "_isTokenX" => json!(sdk::is_token_x(arg(0)?.as_str().ok_or("expected a string")?.into(), arg(1)?.as_str().ok_or("expected a string")?.into()).map_err(|e| e.get().0)?),
        "_isValidTick" => json!(sdk::check_tick_to_sqrt_price_relationship(i(0)? as i32, u(1)? as u16, core::price(&at!(q, 2))).map_err(|e| e.get().0)?),
        "_newFeeTier" => {
            let t = sdk::FeeTier::new(core::percent(to128(&at!(q, 0)).unwrap()), u(1)? as u16).map_err(|e| e.to_string())?;
            json!({ "fee": big(t.fee.get()), "tickSpacing": t.tick_spacing })
        }
        "_newPoolKey" => {
            let k = sdk::PoolKey::new(arg(0)?.as_str().ok_or("expected a string")?.into(), arg(1)?.as_str().ok_or("expected a string")?.into(), fee_tier(arg(2)?)?).map_err(|e| e.to_string())?;
            json!({ "tokenX": k.token_x, "tokenY": k.token_y, "feeTier": { "fee": big(k.fee_tier.fee.get()), "tickSpacing": k.fee_tier.tick_spacing } })
        }
        "tickIndexToPosition" => { let (c, b) = sdk::tickmap::tick_to_position_js(i(0)? as i32, u(1)? as u16).map_err(|e| e.get().0)?; json!([c, b]) }
        "_positionToTick" => json!(sdk::tickmap::position_to_tick(u(0)? as u16, u(1)? as u8, u(2)? as u16).map_err(|e| e.get().0)?),
        "_calculateAmountDelta" => {
            let (x, y, _) = sdk::calculate_amount_delta(i(0)? as i32, core::price(&at!(q, 1)), core::liquidity(&at!(w, 2)), b(3)?, i(4)? as i32, i(5)? as i32).map_err(|e| e.get().0)?;
            json!([text(core::big(x.get())), text(core::big(y.get()))])
        }
        "_calculateFee" => {
            let g = |v: &V| q(v).map(|x| core::growth(&x));
            let (x, y) = sdk::calculate_fee(i(0)? as i32, at!(g, 1), at!(g, 2), i(3)? as i32, at!(g, 4), at!(g, 5), i(6)? as i32, at!(g, 7), at!(g, 8), at!(g, 9), at!(g, 10), core::liquidity(&at!(w, 11))).map_err(|e| e.get().0)?;
            json!([text(core::big(x.get())), text(core::big(y.get()))])
        }
        "_getLiquidityByX" | "_getLiquidityByY" => {
            let g = if f == "_getLiquidityByX" { sdk::get_liquidity_by_x } else { sdk::get_liquidity_by_y };
            let r = g(core::token(&at!(w, 0)), i(1)? as i32, i(2)? as i32, core::price(&at!(q, 3)), b(4)?).map_err(|e| e.get().0)?;
            json!({ "l": text(core::big(r.l.get())), "amount": text(core::big(r.amount.get())) })
        }
        "_calculateMinAmountOut" => text(core::big(sdk::calculate_min_amount_out(core::token(&at!(w, 0)), core::percent(to128(&at!(q, 1)).unwrap())).get())),
        "_simulateInvariantSwap" => {
            let map = arg(0)?["bitmap"]["$map"].as_array().ok_or("expected a map")?.iter()
                .map(|e| Ok((int(&e[0]).and_then(|x| x.to_u64()).ok_or("expected u64")?, int(&e[1]).and_then(|x| x.to_u64()).ok_or("expected u64")?))).collect::<Result<_, String>>()?;
            let p = arg(2)?;
            let (g, t) = (|k: &str| q(&p[k]), |k: &str| w(&p[k]));
            let z = |k: &str| int(&p[k]).ok_or(format!("missing field {k}"));
            let pool = sdk::Pool { liquidity: core::liquidity(&t("liquidity")?), sqrt_price: core::price(&g("sqrtPrice")?), current_tick_index: z("currentTickIndex")?.to_i64().ok_or("expected i64")?,
                fee_growth_global_x: core::growth(&g("feeGrowthGlobalX")?), fee_growth_global_y: core::growth(&g("feeGrowthGlobalY")?), fee_protocol_token_x: core::token(&t("feeProtocolTokenX")?), fee_protocol_token_y: core::token(&t("feeProtocolTokenY")?),
                start_timestamp: z("startTimestamp")?.to_u64().ok_or("expected u64")?, last_timestamp: z("lastTimestamp")?.to_u64().ok_or("expected u64")?, fee_receiver: p["feeReceiver"].as_str().ok_or("expected a string")?.into() };
            let ticks = arg(3)?.as_array().ok_or("expected a sequence")?.iter().map(|t| Ok(sdk::LiquidityTick { index: int(&t["index"]).and_then(|x| x.to_i64()).ok_or("expected i64")?,
                liquidity_change: core::liquidity(&w(&t["liquidityChange"])?), sign: t["sign"].as_bool().ok_or("expected a boolean")? })).collect::<Result<_, String>>()?;
            let r = sdk::simulate_invariant_swap(sdk::Tickmap { bitmap: map }, fee_tier(arg(1)?)?, pool, ticks, b(4)?, core::token(&at!(w, 5)), b(6)?, core::price(&at!(q, 7))).map_err(|e| e.get().0)?;
            json!({ "amountIn": text(core::big(r.amount_in.get())), "amountOut": text(core::big(r.amount_out.get())), "fee": text(core::big(r.fee.get())), "startSqrtPrice": big(r.start_sqrt_price.get()), "targetSqrtPrice": big(r.target_sqrt_price.get()),
                "crossedTicks": r.crossed_ticks.iter().map(|t| json!({ "index": t.index, "liquidityChange": text(core::big(t.liquidity_change.get())), "sign": t.sign })).collect::<Vec<_>>(),
                "globalInsufficientLiquidity": r.global_insufficient_liquidity, "maxSwapStepsReached": r.max_swap_steps_reached, "stateOutdated": r.state_outdated })
        }
        x => panic!("harness: the computing core has no {x}"),
    })
}
fn fee_tier(v: &V) -> Result<sdk::FeeTier, String> {
    let fee = int(&v["fee"]).and_then(|x| to128(&x)).ok_or("missing field `fee`")?;
    Ok(sdk::FeeTier { fee: core::percent(fee), tick_spacing: int(&v["tickSpacing"]).and_then(|x| x.to_u64()).ok_or("missing field `tickSpacing`")? })
}

// ---- operations

/// What the client refuses to send, as the node would refuse it.
pub const EXISTENTIAL: u128 = 10;

/// The client's call for an operation; None where it has none.
fn calls(op: &Op, spot: &dyn Fn(m::Key) -> Option<N>) -> Option<(&'static str, Vec<V>)> {
    use Op::*;
    Some(match op {
        ChangeProtocolFee(f) => ("changeProtocolFee", vec![big(*f)]),
        AddFeeTier(t) => ("addFeeTier", vec![tier(*t)]),
        RemoveFeeTier(t) => ("removeFeeTier", vec![tier(*t)]),
        CreatePool { t0, t1, tier: t, price, .. } => ("createPool", vec![json!({ "tokenX": id(*t0), "tokenY": id(*t1), "feeTier": tier(*t) }), big(price.clone())]),
        ChangeFeeReceiver(k, a) => ("changeFeeReceiver", vec![key(*k), id(*a)]),
        CreatePosition { key: k, lo, hi, liq, .. } => ("createPosition", vec![key(*k), big(*lo), big(*hi), big(liq.clone()), big(spot(*k)?), big(0)]),
        RemovePosition(i) => ("removePosition", vec![big(*i)]),
        TransferPosition(i, a) => ("transferPosition", vec![big(*i), id(*a)]),
        Swap { key: k, x_to_y, amount, by_in, limit } => ("swap", vec![key(*k), json!(x_to_y), big(amount.clone()), json!(by_in), big(limit.clone())]),
        SwapRoute { amount, expected, slippage, hops } => ("swapRoute", vec![big(amount.clone()), big(expected.clone()), big(*slippage), hops.iter().map(|h| json!({ "poolKey": key(h.key), "xToY": h.x_to_y })).collect()]),
        ClaimFee(i) => ("claimFee", vec![big(*i)]),
        WithdrawProtocolFee(k) => ("withdrawProtocolFee", vec![key(*k)]),
        DepositVara(v) => ("depositVara", vec![big(*v)]),
        WithdrawVara(v) => ("withdrawVara", vec![opt(v)]),
        Fund { token, amount } => ("depositSingleToken", vec![id(*token), big(amount.clone())]),
        Unfund { token, amount } => ("withdrawSingleToken", vec![id(*token), opt(amount)]),
        Advance { .. } => return None,
    })
}
/// The message an operation is.
fn wire(op: &Op) -> Option<(Vec<u8>, u128)> {
    let (name, args, value) = match op {
        Op::Fund { token, amount } => ("DepositSingleToken", (*token, tok(amount)).encode(), 0),
        Op::Unfund { token, amount } => ("WithdrawSingleToken", (*token, amount.as_ref().map(tok)).encode(), 0),
        _ => bridge::encode(op)?,
    };
    Some(([SERVICE, &name.to_string().encode(), &args].concat(), value))
}

/// The same operation through the client: the message it sends is the operation, what it returns and reports is what
/// the contract returned and reported.
pub fn through(_: &Scenario, from: &Node, act: &Act, st: &Step, f: &mut Vec<Finding>) {
    let mut bad = |g: &str, d: String| f.push(Finding { op: kind(&act.1), group: format!("client.{g}"), detail: d });
    let mut op = act.1.clone();
    let spot = |k: m::Key| from.st.pools.get(&k).map(|p| p.price.clone());
    let mut out = st.out.clone();
    match &mut op {
        // the client works out the tick itself, and the bounds from a tolerance
        Op::CreatePool { price, tick, tier, .. } => {
            let Some(p) = to128(price).filter(|p| (m::MIN_PRICE..=m::MAX_PRICE).contains(p) && tier.sp > 0) else { return };
            if *tick != m::tick_at(p, tier.sp) { return; }
        }
        Op::CreatePosition { key, slo, shi, .. } => {
            let Some(p) = spot(*key) else { return };
            if *slo != p || *shi != p {
                (*slo, *shi) = (p.clone(), p);
                from.activate();
                out = bridge::exec(act.0, &op);
            }
        }
        _ => {}
    }
    let Some((name, mut args)) = calls(&op, &spot) else { return };
    let Some((payload, value)) = wire(&op) else { return };
    from.activate();
    args.insert(0, signer(act.0));
    let a = ask("inv", name, args);
    let refused = matches!(&op, Op::DepositVara(v) if *v < EXISTENTIAL) || matches!(&op, Op::WithdrawVara(Some(v)) if *v != zero() && *v < n(EXISTENTIAL));
    if refused {
        if a.res.is_ok() || !a.sent.is_empty() { bad("request", format!("sent {} below the existential deposit", name)); }
        return;
    }
    judge(&a, act.0, &payload, value, name, &mut bad);
    match (&a.res, bridge::ret(&op, &out)) {
        (Ok(v), Ok(r)) => { let w = outcome(&r); if !same(v, &w) { bad("result", format!("{name} returned {}, expected {}", cut(v), cut(&w))); } }
        (Ok(v), Err(e)) => if out.ok() { bad("result", format!("{name} returned {} though the contract did not: {e}", cut(v))) } else { bad("result", format!("{name} returned {} though the contract refused: {}", cut(v), out.trap())) },
        (Err(e), Ok(_)) => bad("result", format!("{name} failed with {e} though the contract accepted")),
        (Err(_), Err(_)) => {}
    }
    if let Ok(m::Ret::Swap(r)) = bridge::ret(&op, &out) { foreseen(from, act, &r, &mut bad); }
    let want: Vec<V> = if out.ok() { out.events.iter().filter_map(|e| bridge::event(e).ok()).map(|e| event(&e)).collect() } else { vec![] };
    let (got, want) = (V::Array(a.events), V::Array(want));
    if !same(&got, &want) { bad("events", format!("{name} reported {}, expected {}", cut(&got), cut(&want))); }
}
/// A trade whose outcome was foreseen exactly still goes through with the foreseen price as its limit.
fn foreseen(from: &Node, act: &Act, r: &Box<m::SwapOut>, bad: &mut dyn FnMut(&str, String)) {
    let Op::Swap { key: k, x_to_y, amount, by_in, .. } = &act.1 else { return };
    for slippage in [0, m::PCT_ONE / 100] {
        from.activate();
        let a = ask("inv", "swapWithSlippage", vec![signer(act.0), key(*k), json!(x_to_y), big(amount.clone()), json!(by_in), big(r.target.clone()), big(slippage)]);
        let limit = a.sent.first().and_then(|x| x.payload.len().checked_sub(16).map(|i| N::from_bytes_le(num_bigint::Sign::Plus, &x.payload[i..]))).unwrap_or_default();
        // no limit beyond the price range is accepted
        if slippage == 0 && limit >= n(m::MIN_PRICE) && limit <= n(m::MAX_PRICE) {
            if let Err(e) = &a.res { bad("request", format!("a trade that ends at {} fails with that price as its estimate: {e}", r.target)); }
        }
        let Some((want, _)) = wire(&Op::Swap { key: *k, x_to_y: *x_to_y, amount: amount.clone(), by_in: *by_in, limit: limit.clone() }) else { return };
        judge(&a, act.0, &want, 0, "swapWithSlippage", bad);
        // one unit is left for the rounding of the price itself
        if !slipped(&r.target, slippage, !*x_to_y, &limit) { bad("request", format!("swapWithSlippage from {} with tolerance {slippage} limits the price to {limit}", r.target)); }
    }
}
/// The price is where a tolerance from another price leads, as far as prices tell it.
pub fn slipped(from: &N, slippage: u128, up: bool, got: &N) -> bool {
    let one = n(m::PCT_ONE);
    let f = if up { &one + n(slippage) } else { &one - n(slippage) };
    let margin = from / p10(13) + n(3);
    let (lo, hi) = (got - &margin, got + &margin);
    let square = |x: &N| x * x * &one;
    let w = from * from * &f;
    (neg(&lo) || square(&lo) <= w) && !neg(&hi) && square(&hi) >= w
}
pub fn judge(a: &Answer, who: ActorId, payload: &[u8], value: u128, name: &str, bad: &mut dyn FnMut(&str, String)) {
    if a.sent.len() != 1 { bad("request", format!("{name} sent {} messages: {:?}", a.sent.len(), a.res.as_ref().err())); return; }
    let s = &a.sent[0];
    if s.payload != payload { bad("request", format!("{name} sent {} instead of {}", hex(&s.payload), hex(payload))); }
    if s.value != n(value) { bad("request", format!("{name} attached {} instead of {value}", s.value)); }
    if s.from != rt::hash(who) { bad("request", format!("{name} was signed by {}", hex(&s.from))); }
    if s.to != rt::hash(rt::actor(rt::PROGRAM_ID)) { bad("request", format!("{name} went to {}", hex(&s.to))); }
}

// ---- views

/// Everything the client shows of a state is what the contract holds.
pub fn views(s: &Scenario, node: &Node, f: &mut Vec<Finding>) {
    node.activate();
    let st = &node.st;
    let f = std::cell::RefCell::new(f);
    let see_as = |name: &str, args: Vec<V>, want: Option<V>, as_shown: fn(V) -> V| {
        let shown = args.iter().map(cut).collect::<Vec<_>>().join(", ");
        let a = ask("inv", name, args);
        let bad = |d: String| f.borrow_mut().push(Finding { op: "View", group: format!("client.view.{name}"), detail: d });
        if !a.sent.is_empty() { bad(format!("{name} sent a message")); }
        match (a.res.map(as_shown), want) {
            (Ok(v), Some(w)) => if !same(&v, &w) { bad(format!("{name}({shown}) shows {}, expected {}", cut(&v), cut(&w))); },
            (Ok(v), None) => bad(format!("{name}({shown}) shows {} of what does not exist", cut(&v))),
            (Err(e), Some(w)) => bad(format!("{name}({shown}) fails with {e}, expected {}", cut(&w))),
            (Err(_), None) => {}
        }
    };
    let see = |name: &str, args: Vec<V>, want: Option<V>| see_as(name, args, want, |v| v);
    // a listing fetched in several parts is the same in whatever order the parts arrive
    let any_order = |name: &str, args: Vec<V>, want: &V| {
        orders(&[json!(["inv", name, args])], 24, &mut |o, a| {
            let got = a.res.as_ref().map(|v| v["done"][0]["r"].clone());
            let bad = |d: String| f.borrow_mut().push(Finding { op: "View", group: format!("client.view.{name}"), detail: d });
            match got { Ok(v) if same(&v, want) => {} v => bad(format!("{name}({}) with replies in order {o:?} shows {v:?}, expected {}", cut(&V::Array(args.clone())), cut(want))) }
        });
    };
    see("getProtocolFee", vec![], Some(big(st.protocol_fee)));
    see("getFeeTiers", vec![], Some(st.tiers.iter().map(|t| tier(*t)).collect()));
    for t in &s.u.tiers { see("feeTierExists", vec![tier(*t)], Some(json!(st.tiers.contains(t)))); }
    let keys: Vec<V> = st.keys.iter().map(|k| key(*k)).collect();
    see("getAllPoolKeys", vec![], Some(V::Array(keys.clone())));
    if keys.len() > LIMIT { any_order("getAllPoolKeys", vec![], &V::Array(keys.clone())); }
    for size in 1..=2usize {
        for off in 0..=keys.len() { see("getPoolKeys", vec![big(size), big(off)], Some(json!([keys[off..(off + size).min(keys.len())], big(keys.len())]))); }
    }
    for k in &s.u.keys {
        let p = st.pools.get(k);
        see("getPool", vec![id(k.x), id(k.y), tier(k.tier)], p.map(pool));
        see("getPool", vec![id(k.y), id(k.x), tier(k.tier)], p.map(pool));
        if p.is_none() { continue; }
        let pools: Vec<V> = st.tiers.iter().filter_map(|t| st.pools.get(&m::Key { tier: *t, ..*k }).map(|p| json!([tier(*t), pool(p)]))).collect();
        see("getAllPoolsForPair", vec![id(k.x), id(k.y)], Some(V::Array(pools)));
        let ticks: Vec<&m::Tick> = st.ticks.range((*k, i32::MIN)..=(*k, i32::MAX)).map(|x| x.1).collect();
        let map = bitmap(k.tier.sp, &ticks);
        see_as("getTickmap", vec![key(*k)], Some(map.clone()), |mut v| {
            // a part of the map without a tick says nothing
            if let Some(l) = v["bitmap"]["$map"].as_array_mut() { l.retain(|e| int(&e[1]) != Some(zero())); }
            v
        });
        let listed: V = ticks.iter().map(|t| liquidity_tick(t)).collect();
        see("getAllLiquidityTicks", vec![key(*k), map.clone()], Some(listed.clone()));
        if ticks.len() > LIMIT { any_order("getAllLiquidityTicks", vec![key(*k), map], &listed); }
        see("getLiquidityTicks", vec![key(*k), ticks.iter().map(|t| big(t.index)).collect()], Some(listed));
        see("getLiquidityTicksAmount", vec![key(*k)], Some(big(ticks.len())));
        for t in &s.u.ticks {
            if m::invalid_tick(*t, k.tier.sp) { continue; }
            let tk = st.ticks.get(&(*k, *t));
            see("isTickInitialized", vec![key(*k), big(*t)], Some(json!(tk.is_some())));
            see("getTick", vec![key(*k), big(*t)], tk.map(tick));
        }
        for x_to_y in [true, false] {
            for (amount, by_in) in [(n(1000), true), (n(1_000_000), true), (n(100), false)] {
                let far = m::tick_price(if x_to_y { -m::max_tick(k.tier.sp) } else { m::max_tick(k.tier.sp) });
                let w = st.calc_swap(*k, x_to_y, &amount, by_in, &far, node.now).ok();
                let w = w.map(|r| json!({ "amountIn": big(r.a_in), "amountOut": big(r.a_out), "targetSqrtPrice": big(r.target), "ticks": r.ticks.iter().map(tick).collect::<Vec<_>>() }));
                see("quote", vec![key(*k), json!(x_to_y), big(amount), json!(by_in)], w);
            }
        }
    }
    for a in &s.u.actors {
        let own = st.positions.get(a).map_or(&[][..], |v| v);
        let entry = |p: &m::Pos| json!([position(p), pool(&st.pools[&p.key])]);
        see("_getAllPositions", vec![id(*a)], Some(own.iter().map(position).collect()));
        see("getUserPositionAmount", vec![id(*a)], Some(big(own.len())));
        // of long lists, the places around their ends and around the contract's own page size
        let places: Vec<usize> = (0..=own.len()).filter(|i| own.len() <= 14 || [0, 1, 2, 99, 100, 254, 255, 256, 257].contains(i) || *i + 2 > own.len()).collect();
        for off in places.iter().copied() {
            see("getPositionTicks", vec![id(*a), big(off)], Some(own[off..].iter().flat_map(|p| [p.lo, p.hi].map(|t| { let t = &st.ticks[&(p.key, t)];
                json!({ "index": big(t.index), "feeGrowthOutsideX": big(t.ox.clone()), "feeGrowthOutsideY": big(t.oy.clone()), "secondsOutside": big(t.secs) }) })).collect()));
        }
        for i in places.iter().copied() {
            let p = own.get(i);
            see("getPosition", vec![id(*a), big(i)], p.map(position));
            see("getPositionWithAssociates", vec![id(*a), big(i)], p.map(|p| json!([position(p), pool(&st.pools[&p.key]), tick(&st.ticks[&(p.key, p.lo)]), tick(&st.ticks[&(p.key, p.hi)])])));
        }
        for size in 1..=3usize {
            for off in places.iter().copied() {
                let w = json!([own[off..(off + size).min(own.len())].iter().map(entry).collect::<Vec<_>>(), big(own.len())]);
                see("getPositions", vec![id(*a), big(size), big(off)], Some(w));
            }
        }
        let mut bal: Vec<(String, N)> = st.balances.iter().filter(|(k, v)| k.0 == *a && **v != zero()).map(|(k, v)| (hex(&rt::hash(k.1)), v.clone())).collect();
        bal.sort();
        see_as("getUserBalances", vec![id(*a)], Some(bal.into_iter().map(|(t, b)| json!([t, big(b)])).collect()), |v| {
            let mut l: Vec<V> = v["$map"].as_array().map_or(vec![], |x| x.iter().filter(|e| int(&e[1]) != Some(zero())).cloned().collect());
            l.sort_by_key(|e| e[0].to_string());
            V::Array(l)
        });
        if own.len() > LIMIT {
            let parts: V = own.chunks(LIMIT).enumerate().map(|(i, l)| json!({ "index": i, "entries": l.iter().map(entry).collect::<Vec<_>>() })).collect();
            any_order("getAllPositions", vec![id(*a)], &parts);
        }
        // whole listings, with and without the number known, with any set of pages left out
        for size in if own.len() <= 14 { vec![1, 2, 3] } else { vec![100, 128, 200] } {
            let pages = own.len().div_ceil(size);
            for skip in 0..1u32 << pages.min(3) {
                let out: Vec<usize> = (0..pages.min(3)).filter(|i| skip >> i & 1 == 1).collect();
                let want: V = (0..pages).filter(|i| !out.contains(i)).map(|i| json!({ "index": i, "entries": own[i * size..((i + 1) * size).min(own.len())].iter().map(entry).collect::<Vec<_>>() })).collect();
                for count in [V::Null, big(own.len())] {
                    see_as("getAllPositions", vec![id(*a), count, if skip == 0 { V::Null } else { json!(out) }, big(size)], Some(want.clone()), |v| {
                        let mut l: Vec<V> = v.as_array().map_or(vec![], |x| x.iter().filter(|p| p["entries"].as_array().map_or(true, |e| !e.is_empty())).cloned().collect());
                        l.sort_by_key(|p| p["index"].as_i64());
                        V::Array(l)
                    });
                }
            }
        }
    }
}
/// A tick map as the client has it.
fn bitmap(sp: u16, ticks: &[&m::Tick]) -> V {
    let mut chunks = std::collections::BTreeMap::<i32, u64>::new();
    for t in ticks {
        let at = (t.index + m::max_tick(sp)) / sp as i32;
        *chunks.entry(at / 64).or_default() |= 1 << (at % 64);
    }
    json!({ "bitmap": { "$map": chunks.iter().map(|(c, w)| json!([big(*c), big(*w)])).collect::<Vec<_>>() } })
}

// ---- helpers on what the views show

/// A tick with its sign, as a calculation needs it.
fn ticked(t: &m::Tick) -> V { let mut v = liquidity_tick(t); v["sign"] = json!(sign(&t.net)); v }
fn bits(map: &V) -> std::collections::BTreeSet<(N, u32)> {
    let mut out = std::collections::BTreeSet::new();
    for e in map["bitmap"]["$map"].as_array().map_or(&[][..], |l| l) {
        let (Some(c), Some(w)) = (int(&e[0]), int(&e[1])) else { continue };
        for b in 0..64 { if w.bit(b) { out.insert((c.clone(), b as u32)); } }
    }
    out
}
/// The helpers agree with the contract about every pool and position of a state.
pub fn helpers(s: &Scenario, node: &Node, f: &mut Vec<Finding>) {
    let st = &node.st;
    let f = std::cell::RefCell::new(f);
    let bad = |d: String| f.borrow_mut().push(Finding { op: "Helper", group: "client.helper".into(), detail: d });
    let utils = |name: &str, args: Vec<V>| -> Result<V, String> {
        let a = ask("utils", name, args);
        if !a.sent.is_empty() || !a.asked.is_empty() { bad(format!("{name} sent a message")); }
        a.res
    };
    for k in &s.u.keys {
        let Some(p) = st.pools.get(k) else { continue };
        let sp = k.tier.sp;
        let ticks: Vec<&m::Tick> = st.ticks.range((*k, i32::MIN)..=(*k, i32::MAX)).map(|x| x.1).collect();
        let all: V = ticks.iter().map(|t| ticked(t)).collect();
        let map = bitmap(sp, &ticks);
        let mut sum = zero();
        let levels: V = ticks.iter().map(|t| { sum += &t.net; json!({ "index": big(t.index), "liquidity": big(sum.clone()) }) }).collect();
        match utils("calculateLiquidityBreakpoints", vec![all.clone()]) {
            Ok(v) => {
                if !same(&v, &levels) { bad(format!("calculateLiquidityBreakpoints gives {}, expected {}", cut(&v), cut(&levels))); }
                let here = v.as_array().and_then(|l| l.iter().filter(|b| int(&b["index"]).is_some_and(|i| i <= n(p.tick))).last().and_then(|b| int(&b["liquidity"]))).unwrap_or_default();
                if here != p.liq { bad(format!("the breakpoints show {here} at tick {}, the pool has {}", p.tick, p.liq)); }
            }
            Err(e) => bad(format!("calculateLiquidityBreakpoints fails with {e}")),
        }
        for x_to_y in [true, false] {
            let ahead = |i: i32| if x_to_y { i <= p.tick } else { i > p.tick };
            let behind = |i: i32| if x_to_y { i > p.tick } else { i < p.tick };
            let some_ticks = utils("filterTicks", vec![all.clone(), big(p.tick), json!(x_to_y)]);
            let some_map = utils("filterTickmap", vec![map.clone(), big(sp), big(p.tick), json!(x_to_y)]);
            let (some_ticks, some_map) = match (some_ticks, some_map) { (Ok(a), Ok(b)) => (a, b), (a, b) => { bad(format!("filtering fails with {a:?} {b:?}")); continue } };
            let keep = |index: &dyn Fn(&V) -> Option<i32>, got: &[V], what: &str| {
                let got: Vec<i32> = got.iter().filter_map(index).collect();
                for t in &ticks {
                    if ahead(t.index) && !got.contains(&t.index) { bad(format!("{what} at tick {} x to y {x_to_y} leaves out tick {}", p.tick, t.index)); }
                    if what == "filterTicks" && behind(t.index) && got.contains(&t.index) { bad(format!("{what} at tick {} x to y {x_to_y} keeps tick {}", p.tick, t.index)); }
                }
                if got.iter().any(|i| !ticks.iter().any(|t| t.index == *i)) { bad(format!("{what} made up ticks: {got:?}")); }
            };
            let empty = vec![];
            keep(&|v| int(&v["index"]).and_then(|x| x.to_i32()), some_ticks.as_array().unwrap_or(&empty), "filterTicks");
            let left: Vec<V> = bits(&some_map).iter().map(|(c, b)| big((c * n(64) + n(*b)) * n(sp) - n(m::max_tick(sp)))).collect();
            keep(&|v| int(v).and_then(|x| x.to_i32()), &left, "filterTickmap");
            let here = (p.tick + m::max_tick(sp)).div_euclid(sp as i32 * 64);
            for e in some_map["bitmap"]["$map"].as_array().unwrap_or(&empty) {
                if int(&e[0]).is_some_and(|c| if x_to_y { c > n(here) } else { c < n(here) }) { bad(format!("filterTickmap at chunk {here} x to y {x_to_y} keeps chunk {}", e[0])); }
            }
            let far = m::tick_price(if x_to_y { -m::max_tick(sp) } else { m::max_tick(sp) });
            for (amount, by_in) in [(n(1), true), (n(1000), true), (n(1_000_000), true), (n(100), false), (n(50_000), false)] {
                let want = st.calc_swap(*k, x_to_y, &amount, by_in, &far, node.now);
                for (map, ticks, how) in [(&map, &all, "everything"), (&some_map, &some_ticks, "what was filtered")] {
                    let got = utils("simulateInvariantSwap", vec![map.clone(), tier(k.tier), pool(p), ticks.clone(), json!(x_to_y), big(amount.clone()), json!(by_in), big(far.clone())]);
                    match (&got, &want) {
                        (Ok(v), _) if v["maxSwapStepsReached"] == json!(true) => {}
                        (Ok(v), Ok(r)) => {
                            // how the computing core hands out these numbers is its own business
                            let crossed: Vec<Option<N>> = v["crossedTicks"].as_array().map_or(vec![], |l| l.iter().map(|t| int(&t["index"])).collect());
                            if crossed != r.ticks.iter().map(|t| Some(n(t.index))).collect::<Vec<_>>() { bad(format!("simulating {amount} by in {by_in} x to y {x_to_y} with {how} crosses {crossed:?}")); }
                            let w = json!({ "amountIn": big(r.a_in.clone()), "amountOut": big(r.a_out.clone()), "fee": big(r.fee.clone()), "startSqrtPrice": big(r.start.clone()), "targetSqrtPrice": big(r.target.clone()),
                                "globalInsufficientLiquidity": false, "stateOutdated": false });
                            if !same(v, &w) { bad(format!("simulating {amount} by in {by_in} x to y {x_to_y} with {how} gives {}, expected {}", cut(v), cut(&w))); }
                        }
                        (Ok(v), Err(e)) => if v["globalInsufficientLiquidity"] != json!(true) && v["stateOutdated"] != json!(true) && int(&v["amountOut"]) != Some(zero()) { bad(format!("simulating {amount} by in {by_in} x to y {x_to_y} with {how} gives {} of an impossible trade: {e:?}", cut(v))); },
                        (Err(e), Ok(_)) => bad(format!("simulating {amount} by in {by_in} x to y {x_to_y} with {how} fails with {e}")),
                        (Err(_), Err(_)) => {}
                    }
                }
            }
        }
    }
    for (a, v) in &st.positions {
        for (i, p) in v.iter().enumerate() {
            let (Some(q), Some(l), Some(h)) = (st.pools.get(&p.key), st.ticks.get(&(p.key, p.lo)), st.ticks.get(&(p.key, p.hi))) else { continue };
            let who = format!("position {i} of {}", crate::explore::name(*a));
            let fee = utils("calculateFee", vec![pool(q), position(p), tick(l), tick(h)]);
            let pair = |v: &Result<V, String>| v.as_ref().ok().filter(|v| v.as_array().is_some_and(|l| l.len() == 2 && l.iter().all(|x| x.as_str().is_some_and(|s| s.starts_with('#'))))).and_then(|v| Some((int(&v[0])?, int(&v[1])?)));
            node.activate();
            let paid = bridge::ret(&Op::ClaimFee(i as u32), &bridge::exec(*a, &Op::ClaimFee(i as u32)));
            if let Ok(m::Ret::Pair(x, y)) = paid {
                let shown = pair(&fee).map(|(c, d)| (c + &p.owed_x, d + &p.owed_y));
                if shown != Some((x.clone(), y.clone())) { bad(format!("{who}: calculateFee shows {fee:?} with {}/{} owed, claimed {x}/{y}", p.owed_x, p.owed_y)); }
            }
            let value = utils("calculateTokenAmounts", vec![pool(q), position(p)]);
            let split = |v: &Result<V, String>| v.as_ref().ok().and_then(|v| pair(&Ok(json!([v["x"], v["y"]]))).or_else(|| pair(&Ok(v.clone()))));
            node.activate();
            let paid = bridge::ret(&Op::RemovePosition(i as u32), &bridge::exec(*a, &Op::RemovePosition(i as u32)));
            if let Ok(m::Ret::Pair(x, y)) = paid {
                let shown = split(&value).zip(pair(&fee)).map(|((a, b), (c, d))| (a + c + &p.owed_x, b + d + &p.owed_y));
                if shown != Some((x.clone(), y.clone())) { bad(format!("{who}: calculateTokenAmounts shows {value:?} with fees {fee:?}, closing paid {x}/{y}")); }
            }
            let sp = p.key.tier.sp;
            for up in [false, true] { for tolerance in [0, m::PCT_ONE / 100, m::PCT_ONE / 10, m::PCT_ONE / 2] {
                let bound = |up: bool| utils("calculateSqrtPriceAfterSlippage", vec![big(q.price.clone()), big(tolerance), json!(up)]).ok().as_ref().and_then(int).map(|b| b.clamp(n(m::MIN_PRICE), n(m::MAX_PRICE)));
                let at = |b: Option<N>| b.and_then(|b| m::range_amounts(m::tick_at(to128(&b)?, sp), &b, &p.liq, up, p.lo, p.hi).ok());
                let (Some(lo), Some(hi)) = (at(bound(false)), at(bound(true))) else { continue };
                let want = (lo.0.max(hi.0), lo.1.max(hi.1));
                let got = utils("calculateTokenAmountsWithSlippage", vec![big(sp), big(q.price.clone()), big(p.liq.clone()), big(p.lo), big(p.hi), big(tolerance), json!(up)]);
                if pair(&got).as_ref() != Some(&want) { bad(format!("{who}: at {} with tolerance {tolerance} rounding up {up} at most {got:?}, expected {}/{}", q.price, want.0, want.1)); }
                let got = utils("calculateAmountDelta", vec![big(q.tick), big(q.price.clone()), big(p.liq.clone()), json!(up), big(p.hi), big(p.lo)]);
                if let Ok((x, y, _)) = m::range_amounts(q.tick, &q.price, &p.liq, up, p.lo, p.hi) {
                    if pair(&got) != Some((x.clone(), y.clone())) { bad(format!("{who}: calculateAmountDelta rounding up {up} gives {got:?}, expected {x}/{y}")); }
                }
                for (name, by_x) in [("getLiquidityByX", true), ("getLiquidityByY", false)] { for amount in [1u64, 1000, 123_456_789] {
                    let native = rt::guarded(|| (if by_x { sdk::get_liquidity_by_x } else { sdk::get_liquidity_by_y })(core::token(&n(amount)), p.lo, p.hi, core::price(&q.price), up).map(|r| json!({ "l": big(core::big(r.l.get())), "amount": big(core::big(r.amount.get())) })).map_err(|e| e.get().0));
                    let got = utils(name, vec![big(amount), big(p.lo), big(p.hi), big(q.price.clone()), json!(up)]);
                    match (&got, &native) {
                        (Ok(v), Ok(Ok(w))) => if !same(v, w) { bad(format!("{who}: {name}({amount}) gives {}, expected {}", cut(v), cut(w))); },
                        (Err(e), Ok(Ok(_))) => bad(format!("{who}: {name}({amount}) fails with {e}")),
                        (Ok(v), _) => bad(format!("{who}: {name}({amount}) gives {} of what cannot be computed", cut(v))),
                        _ => {}
                    }
                } }
            } }
        }
    }
}
