//! The client's requests and helpers, enumerated: every listed combination of arguments, sequence of requests and
//! order of replies.
use crate::bridge;
use crate::client::*;
use crate::enumer::{digits, Enumeration, Tally};
use crate::grids::{FEES, SPACINGS};
use crate::model as m;
use crate::num::*;
use crate::rt::{self, actor};
use crate::scen::{A, B, X, Y};
use parity_scale_codec::Encode;
use sails_rs::{ActorId, U256};
use serde_json::{json, Value as V};

const ADMIN: u8 = crate::explore::ADMIN;
fn amounts() -> Vec<N> { vec![n(0), n(1), n(10), n(1_000_000_007u64), n(u64::MAX), n(u64::MAX) + n(1), n(u128::MAX), n(u128::MAX) + n(1), (n(1) << 255u32) + n(12345), (n(1) << 256u32) - n(1)] }
fn u(a: &N) -> U256 { let l = limbs(a, 4).expect("harness: 256 bits"); U256([l[0], l[1], l[2], l[3]]) }
fn people() -> Vec<ActorId> { vec![actor(A), actor(B), ActorId::from([0xff; 32]), ActorId::from([0x5a; 32])] }
fn tokens() -> Vec<ActorId> { vec![actor(X), actor(Y), ActorId::from([0xab; 32])] }

/// A call of the token client: the function, its arguments, the message it is, the reply, what the reply says.
struct TokenCall { name: &'static str, args: Vec<V>, from: Option<ActorId>, payload: Vec<u8>, reply: Vec<u8>, says: V }
const TOKEN_CALLS: usize = 12;
fn token_call(k: usize, a: ActorId, b: ActorId, token: ActorId, x: &N, yes: bool) -> TokenCall {
    let route = |s: &str, rest: Vec<u8>| ["Vft".to_string().encode(), s.to_string().encode(), rest].concat();
    let sent = |name: &'static str, on: &str, args: Vec<V>, from: ActorId, p: Vec<u8>| TokenCall { name, args, from: Some(from), payload: route(on, p), reply: route(on, yes.encode()), says: json!(yes) };
    let asked = |name: &'static str, on: &str, args: Vec<V>, p: Vec<u8>, r: Vec<u8>, says: V| TokenCall { name, args, from: None, payload: route(on, p), reply: route(on, r), says };
    match k {
        0 => sent("approve", "Approve", vec![signer(a), id(b), big(x.clone()), id(token)], a, (b, u(x)).encode()),
        1 => sent("transfer", "Transfer", vec![signer(a), id(b), big(x.clone()), id(token)], a, (b, u(x)).encode()),
        2 => sent("transferFrom", "TransferFrom", vec![signer(actor(ADMIN)), id(a), id(b), big(x.clone()), id(token)], actor(ADMIN), (a, b, u(x)).encode()),
        3 => sent("mint", "Mint", vec![id(a), big(x.clone()), id(token)], actor(ADMIN), (a, u(x)).encode()),
        4 => sent("burn", "Burn", vec![id(a), big(x.clone()), id(token)], actor(ADMIN), (a, u(x)).encode()),
        5 => { let mut c = sent("setTransferFail", "SetTransferFail", vec![json!(yes), id(token)], actor(ADMIN), yes.encode()); c.reply = route("SetTransferFail", vec![]); c.says = V::Null; c }
        6 => asked("allowance", "Allowance", vec![id(a), id(b), id(token)], (a, b).encode(), u(x).encode(), big(x.clone())),
        7 => asked("balanceOf", "BalanceOf", vec![id(a), id(token)], a.encode(), u(x).encode(), big(x.clone())),
        8 => { let d = (x % n(256)).try_into().unwrap_or(0u8); asked("decimals", "Decimals", vec![id(token)], vec![], d.encode(), big(d)) }
        9 => asked("name", "Name", vec![id(token)], vec![], x.to_string().encode(), V::String(x.to_string())),
        10 => asked("symbol", "Symbol", vec![id(token)], vec![], x.to_string().encode(), V::String(x.to_string())),
        _ => asked("totalSupply", "TotalSupply", vec![id(token)], vec![], u(x).encode(), big(x.clone())),
    }
}
/// The message or query went out once, as it should, to the token it was meant for.
fn token_request(t: &mut Tally, c: &TokenCall, token: ActorId, a: &Answer) {
    let (msgs, others) = if c.from.is_some() { (&a.sent, &a.asked) } else { (&a.asked, &a.sent) };
    if !others.is_empty() || msgs.iter().filter(|x| x.payload == c.payload && x.to == rt::hash(token)).count() != 1 {
        t.bad("client.request", format!("{} for {} sent {:?}, expected {}", c.name, id(token), msgs.iter().chain(others).map(|x| format!("{} to {}", hex(&x.payload), hex(&x.to))).collect::<Vec<_>>(), hex(&c.payload)));
    }
    if let Some(f) = c.from { for x in &a.sent { if x.from != rt::hash(f) || x.value != zero() { t.bad("client.request", format!("{} was signed by {} with {}", c.name, hex(&x.from), x.value)); } } }
}
/// Every call of the token client.
pub fn token_calls() -> Enumeration {
    let radix = vec![TOKEN_CALLS, people().len(), people().len(), tokens().len(), amounts().len(), 2];
    let size = radix.iter().map(|x| *x as u64).product();
    let r2 = radix.clone();
    let of = |d: &[usize]| (token_call(d[0], people()[d[1]], people()[d[2]], tokens()[d[3]], &amounts()[d[4]], d[5] == 1), tokens()[d[3]]);
    Enumeration {
        name: "token requests".into(), rule: "all calls of the token client with all combinations of listed accounts, tokens and amounts, accepted and refused: request, signer, destination, result".into(), size,
        case: Box::new(move |i, t| {
            let (c, token) = of(&digits(i, &radix));
            world(World { reply: c.reply.clone(), cut: vec![] });
            t.call(|| ask("token", "setAdmin", vec![signer(actor(ADMIN))]));
            let a = t.call(|| ask("token", c.name, c.args.clone()));
            token_request(t, &c, token, &a);
            match &a.res { Ok(v) if same(v, &c.says) => t.saw("as replied"), r => t.bad("client.result", format!("{} returned {r:?}, expected {}", c.name, c.says)) }
            if let Some(yes) = c.says.as_bool() {
                let r = t.call(|| ask("utils", "validateFungibleTokenResponse", vec![json!({ "data": { "message": { "payload": { "$raw": hex(&c.reply) } } } })]));
                if !r.res.as_ref().is_ok_and(|v| v.is_null() == yes) { t.bad("client.result", format!("a token's reply {yes} is judged {:?}", r.res)); }
            }
            world(World::default());
        }),
        show: Box::new(move |i| { let (c, token) = of(&digits(i, &r2)); format!("{}({}) for {}", c.name, V::Array(c.args.clone()), id(token)) }),
    }
}
/// Two calls of the token client at once, for two tokens, under every order of their replies.
pub fn token_races() -> Enumeration {
    let radix = vec![TOKEN_CALLS, TOKEN_CALLS, 2];
    let size = radix.iter().map(|x| *x as u64).product();
    let r2 = radix.clone();
    let of = |d: &[usize]| { let ts = if d[2] == 0 { [actor(X), actor(Y)] } else { [actor(Y), actor(X)] }; (token_call(d[0], actor(A), actor(B), ts[0], &n(7), true), token_call(d[1], actor(B), actor(A), ts[1], &n(8), true), ts) };
    Enumeration {
        name: "token requests at once".into(), rule: "all pairs of calls of the token client made at once for two tokens, under every order of replies: each request reaches its own token".into(), size,
        case: Box::new(move |i, t| {
            let (c, e, ts) = of(&digits(i, &radix));
            // replies cannot be told apart here: only the requests are judged
            world(World { reply: vec![], cut: vec![] });
            ask("token", "setAdmin", vec![signer(actor(ADMIN))]);
            let calls = [json!(["token", c.name, c.args]), json!(["token", e.name, e.args])];
            let ran = orders(&calls, 100, &mut |o, a| {
                for (c, token) in [(&c, ts[0]), (&e, ts[1])] {
                    let l = if c.from.is_some() { &a.sent } else { &a.asked };
                    if !l.iter().any(|x| x.payload == c.payload && x.to == rt::hash(token) && c.from.map_or(true, |f| x.from == rt::hash(f))) { t.bad("client.request", format!("{} for {} at once with another call (order {o:?}) sent {:?}", c.name, id(token), l.iter().map(|x| format!("{} to {}", hex(&x.payload), hex(&x.to))).collect::<Vec<_>>())); }
                }
                if a.sent.len() + a.asked.len() != 2 { t.bad("client.request", format!("{} requests instead of 2", a.sent.len() + a.asked.len())); }
            });
            t.calls += 2 * ran as u64;
            t.saw("each to its own");
        }),
        show: Box::new(move |i| { let (c, e, ts) = of(&digits(i, &r2)); format!("{} for {} with {} for {}", c.name, id(ts[0]), e.name, id(ts[1])) }),
    }
}

fn wire(name: &str, args: Vec<u8>) -> Vec<u8> { [SERVICE, &name.to_string().encode(), &args].concat() }

/// Deposits and withdrawals of pairs.
pub fn pairs() -> Enumeration {
    let asks = || -> Vec<Option<N>> { vec![None, Some(n(0)), Some(n(1)), Some(n(400)), Some(n(1000)), Some(n(1001)), Some(n(u128::MAX) + n(1))] };
    let radix = vec![2, asks().len(), asks().len(), 3, 3];
    let size = radix.iter().map(|x| *x as u64).product();
    let r2 = radix.clone();
    let of = move |d: &[usize]| (d[0] == 1, tokens()[d[3]], tokens()[d[4]], asks()[d[1]].clone(), asks()[d[2]].clone());
    let of2 = of.clone();
    Enumeration {
        name: "pair requests".into(), rule: "all deposits and withdrawals of two tokens in all combinations of listed tokens and amounts, including everything: request and result".into(), size,
        case: Box::new(move |i, t| {
            let (out, x, y, a, b) = of(&digits(i, &radix));
            crate::explore::blank();
            world(World::default());
            // what there is to withdraw
            for k in [0, 1] { ask("inv", "depositSingleToken", vec![signer(actor(A)), id(tokens()[k]), big(1000)]); }
            let one = |x: &Option<N>| x.clone().unwrap_or_else(|| n(3));
            let (name, req, args) = if out {
                ("withdrawTokenPair", wire("WithdrawTokenPair", ((x, a.as_ref().map(u)), (y, b.as_ref().map(u))).encode()), json!([[id(x), opt(&a)], [id(y), opt(&b)]]))
            } else {
                ("depositTokenPair", wire("DepositTokenPair", ((x, u(&one(&a))), (y, u(&one(&b)))).encode()), json!([[id(x), big(one(&a))], [id(y), big(one(&b))]]))
            };
            let mut l = vec![signer(actor(A))];
            l.extend(args.as_array().unwrap().clone());
            let r = t.call(|| ask("inv", name, l));
            judge(&r, actor(A), &req, 0, name, &mut |g, d| t.bad(if g == "request" { "client.request" } else { "client.result" }, d));
            let reply = r.sent.first().and_then(|x| x.out.as_ref()).and_then(|o| o.reply.as_ref()).map(|x| x.0.clone());
            let said = reply.and_then(|p| { let p = p.strip_prefix(SERVICE).unwrap_or(&p).to_vec(); rt::decode_reply::<(U256, U256)>(if out { "WithdrawTokenPair" } else { "DepositTokenPair" }, &p).ok() });
            let num = |v: U256| v.to_string();
            match (&r.res, said) {
                (Ok(v), Some((c, d))) => if same(v, &json!([format!("#{}", num(c)), format!("#{}", num(d))])) { t.saw("as replied") } else { t.bad("client.result", format!("{name} returned {v}, the contract replied {} and {}", num(c), num(d))) },
                (Err(_), None) => t.saw("refused"),
                (a, b) => t.bad("client.result", format!("{name} returned {a:?}, the contract replied {b:?}")),
            }
        }),
        show: Box::new(move |i| { let (out, x, y, a, b) = of2(&digits(i, &r2)); format!("{} {a:?} of {} and {b:?} of {}", if out { "withdraw" } else { "deposit" }, id(x), id(y)) }),
    }
}

fn prices() -> Vec<u128> {
    let mut v = vec![m::MIN_PRICE, m::MIN_PRICE + 1, m::MIN_PRICE * 3, 10u128.pow(22), 10u128.pow(24) - 1, 10u128.pow(24), 10u128.pow(24) + 1, 10u128.pow(24) * 7 / 3, 10u128.pow(27), m::MAX_PRICE / 3, m::MAX_PRICE - 1, m::MAX_PRICE];
    v.extend([-200_000, -100_000, -20_000, -100, -1, 1, 10, 5_000, 120_000, 221_818].iter().map(|t| m::tick_price_u(*t)));
    v
}
fn tolerances() -> Vec<u128> { let p = m::PCT_ONE; vec![0, 1, 1000, p / 10_000, p / 1000, p / 100, p / 33, p / 10, p / 4, p / 2, p * 9 / 10, p] }

/// Prices a tolerance away, and the requests that carry them.
pub fn slippage() -> Enumeration {
    let radix = vec![prices().len(), tolerances().len()];
    let size = radix.iter().map(|x| *x as u64).product();
    let r2 = radix.clone();
    Enumeration {
        name: "price tolerances".into(), rule: "all combinations of listed prices and tolerances, up and down: the price a tolerance away, and the bounds that new positions and trades are sent with".into(), size,
        case: Box::new(move |i, t| {
            let d = digits(i, &radix);
            let (p, s) = (n(prices()[d[0]]), tolerances()[d[1]]);
            let mut bound = vec![];
            for up in [false, true] {
                let r = t.call(|| ask("utils", "calculateSqrtPriceAfterSlippage", vec![big(p.clone()), big(s), json!(up)]));
                let got = r.res.as_ref().ok().and_then(int);
                match &got {
                    Some(g) if slipped(&p, s, up, g) && (s != 0 || *g == p) && (*g <= p || up) && (*g >= p || !up) => t.saw("price"),
                    _ => t.bad("client.slippage", format!("{p} with tolerance {s} up {up} gives {:?}", r.res)),
                }
                bound.push(got);
            }
            let k = m::Key { x: actor(X), y: actor(Y), tier: m::Tier { fee: FEES[1], sp: 10 } };
            let [Some(lo), Some(hi)] = &bound[..] else { return };
            if to128(hi).is_none() { return; }
            let r = t.call(|| ask("inv", "createPosition", vec![signer(actor(B)), key(k), big(-10), big(20), big(12345), big(p.clone()), big(s)]));
            let want = wire("CreatePosition", (bridge::ckey(k), -10i32, 20i32, liq(&n(12345)), prc(lo), prc(hi)).encode());
            judge(&r, actor(B), &want, 0, "createPosition", &mut |_, d| t.bad("client.request", d));
            for x_to_y in [true, false] { for by_in in [true, false] {
                let limit = if x_to_y { lo - n(1) } else { hi + n(1) };
                let r = t.call(|| ask("inv", "swapWithSlippage", vec![signer(actor(B)), key(k), json!(x_to_y), big(777), json!(by_in), big(p.clone()), big(s)]));
                if neg(&limit) { if !r.sent.is_empty() { t.bad("client.request", "a trade was sent with no limit".into()); } continue; }
                let want = wire("Swap", (bridge::ckey(k), x_to_y, tok(&n(777)), by_in, prc(&limit)).encode());
                judge(&r, actor(B), &want, 0, "swapWithSlippage", &mut |_, d| t.bad("client.request", d));
            } }
            t.saw("requests");
        }),
        show: Box::new(move |i| { let d = digits(i, &r2); format!("price {} tolerance {}", prices()[d[0]], tolerances()[d[1]]) }),
    }
}

/// Requests put into one transaction.
const BATCH: usize = 9;
fn batched(k: usize) -> (V, Vec<u8>, u128, bool) {
    let t = m::Tier { fee: FEES[1], sp: 10 };
    match k {
        0 => (json!(["addFeeTier", [tier(t)]]), wire("AddFeeTier", bridge::ctier(t).encode()), 0, false),
        1 => (json!(["depositSingleToken", [id(actor(X)), big(1000)]]), wire("DepositSingleToken", (actor(X), u(&n(1000))).encode()), 0, true),
        2 => (json!(["withdrawSingleToken", [id(actor(X)), big(600)]]), wire("WithdrawSingleToken", (actor(X), Some(u(&n(600)))).encode()), 0, true),
        3 => (json!(["claimFee", [big(0)]]), wire("ClaimFee", 0u32.encode()), 0, false),
        4 => (json!(["depositVara", [big(5000)]]), wire("DepositVara", vec![]), 5000, true),
        5 => (json!(["withdrawVara", [big(4000)]]), wire("WithdrawVara", Some(u(&n(4000))).encode()), 0, true),
        6 => (json!(["changeProtocolFee", [big(77)]]), wire("ChangeProtocolFee", pct(77).encode()), 0, false),
        7 => (json!(["depositTokenPair", [[id(actor(X)), big(1)], [id(actor(Y)), big(2)]]]), wire("DepositTokenPair", ((actor(X), u(&n(1))), (actor(Y), u(&n(2)))).encode()), 0, true),
        _ => (json!(["withdrawTokenPair", [[id(actor(X)), V::Null], [id(actor(Y)), big(1)]]]), wire("WithdrawTokenPair", ((actor(X), None::<U256>), (actor(Y), Some(u(&n(1))))).encode()), 0, true),
    }
}
pub fn batches(most: u32) -> Enumeration {
    let b = BATCH as u64;
    // every length up to the bound, then which replies are lost
    let lengths: Vec<(u32, u64)> = (1..=most).map(|l| (l, b.pow(l) << l)).collect();
    let size = lengths.iter().map(|x| x.1).sum();
    let of = move |mut i: u64| {
        for (l, count) in &lengths {
            if i < *count { let cut: Vec<usize> = (0..*l as usize).filter(|k| i >> k & 1 == 1).collect(); return (digits(i >> l, &vec![BATCH; *l as usize]), cut); }
            i -= count;
        }
        (vec![], vec![])
    };
    let of2 = of.clone();
    Enumeration {
        name: "batches".into(), rule: format!("all sequences of up to {most} of {BATCH} requests sent as one transaction, each reply arriving or lost: requests in order, and exactly the failed ones reported"), size,
        case: Box::new(move |i, t| {
            let (l, cut) = of(i);
            crate::explore::blank();
            world(World { reply: vec![], cut: cut.clone() });
            let calls: Vec<(V, Vec<u8>, u128, bool)> = l.iter().map(|k| batched(*k)).collect();
            let who = actor(ADMIN);
            let a = t.call(|| ask("", "$batch", vec![signer(who), calls.iter().map(|c| c.0.clone()).collect()]));
            world(World::default());
            let sent: Vec<(&[u8], N)> = a.sent.iter().map(|x| (&x.payload[..], x.value.clone())).collect();
            let want: Vec<(&[u8], N)> = calls.iter().map(|c| (&c.1[..], n(c.2))).collect();
            if sent != want || a.sent.iter().any(|x| x.from != rt::hash(who) || x.to != rt::hash(actor(rt::PROGRAM_ID))) {
                t.bad("client.request", format!("a batch of {} sent {:?}", V::Array(calls.iter().map(|c| c.0.clone()).collect()), a.sent.iter().map(|x| hex(&x.payload)).collect::<Vec<_>>()));
                return;
            }
            // money that moved without a readable reply is a failure to be told
            let failed: Vec<V> = a.sent.iter().enumerate().filter(|(i, x)| x.out.as_ref().map_or(true, |o| !o.ok()) || cut.contains(i) && calls[*i].3).map(|x| json!(x.0)).collect();
            match &a.res {
                Ok(v) if *v == V::Array(failed.clone()) => t.saw(if failed.is_empty() { "all done" } else { "failures reported" }),
                r => t.bad("client.result", format!("a batch of {} with replies {cut:?} lost reported {r:?}, failed {failed:?}", V::Array(calls.iter().map(|c| c.0.clone()).collect()))),
            }
        }),
        show: Box::new(move |i| { let (l, cut) = of2(i); format!("{} with replies {cut:?} lost", V::Array(l.iter().map(|k| batched(*k).0).collect())) }),
    }
}

/// Events and listeners: registrations come and go.
const LISTEN: usize = 11;
fn heard(k: usize) -> m::Ev {
    let key = m::Key { x: actor(X), y: actor(Y), tier: m::Tier { fee: FEES[1], sp: 10 } };
    match k {
        0 => m::Ev::Swap { time: 5, who: actor(A), key, a_in: n(u128::MAX) + n(9), a_out: n(3), fee: n(1), start: n(m::MAX_PRICE), target: n(m::MIN_PRICE), x_to_y: true },
        _ => m::Ev::Cross { time: u64::MAX, who: actor(B), key, idx: vec![-30, 20] },
    }
}
pub fn listeners(depth: u32) -> Enumeration {
    let size = (LISTEN as u64).pow(depth);
    let kinds = ["SwapEvent", "CrossTickEvent"];
    let show = move |i: u64| digits(i, &vec![LISTEN; depth as usize]).into_iter().map(|k| match k {
        0..=3 => format!("on {} #{}", kinds[k % 2], k / 2),
        4..=7 => format!("off {} #{}", kinds[k % 2], k / 2 - 2),
        8 => "off SwapEvent".into(),
        _ => format!("a {}", kinds[k - 9]),
    }).collect::<Vec<_>>().join("; ");
    Enumeration {
        name: "listeners".into(), rule: format!("all sequences of {depth} of: two listeners for two kinds of event registered or removed, all listeners of a kind removed, events of either kind (then both once more, and the same from another program and to another account): exactly the registered listeners hear exactly what happened"), size,
        case: Box::new(move |i, t| {
            let (here, nobody, other) = (id(actor(rt::PROGRAM_ID)), id(ActorId::zero()), id(actor(B)));
            let mut l: [Vec<usize>; 2] = [vec![], vec![]];
            let (mut ops, mut want) = (vec![], vec![]);
            for k in digits(i, &vec![LISTEN; depth as usize]).into_iter().chain([9, 10, 11, 12]) {
                match k {
                    0..=3 => { l[k % 2].push(k / 2); ops.push(json!(["on", kinds[k % 2], big(k / 2)])); }
                    4..=7 => { l[k % 2].retain(|x| *x != k / 2 - 2); ops.push(json!(["off", kinds[k % 2], big(k / 2 - 2)])); }
                    8 => { l[0].clear(); ops.push(json!(["off", kinds[0], V::Null])); }
                    9 | 10 => {
                        let ev = heard(k - 9);
                        for c in &l[k - 9] { let e = event(&ev); want.push(json!([c, e[0], e[1]])); }
                        ops.push(json!(["emit", kinds[k - 9], hex(&bridge::event_bytes(&ev)), [here, nobody]]));
                    }
                    11 => ops.push(json!(["emit", kinds[0], hex(&bridge::event_bytes(&heard(0))), [other, nobody]])),
                    _ => ops.push(json!(["emit", kinds[1], hex(&bridge::event_bytes(&heard(1))), [here, other]])),
                }
            }
            match t.call(|| ask("", "$listen", vec![here, V::Array(ops)])).res {
                Ok(v) if same(&v, &V::Array(want.clone())) => t.saw("as registered"),
                r => t.bad("client.events", format!("heard {r:?}, expected {}", V::Array(want))),
            }
        }),
        show: Box::new(show),
    }
}

/// Deployment of the exchange and of tokens.
pub fn deployments() -> Enumeration {
    let fees = || [0u128, 1, m::PCT_ONE / 100, m::PCT_ONE, u64::MAX as u128];
    let radix = vec![people().len(), fees().len(), 2];
    let size = radix.iter().map(|x| *x as u64).product();
    let r2 = radix.clone();
    Enumeration {
        name: "deployments".into(), rule: "deployment of the exchange and of a token with all combinations of listed accounts and parameters: the code, the initial message, the signer".into(), size,
        case: Box::new(move |i, t| {
            let d = digits(i, &radix);
            let (who, fee) = (people()[d[1 - 1]], fees()[d[1]]);
            world(World { reply: "New".to_string().encode(), cut: vec![] });
            let (want, r) = if d[2] == 0 {
                (["New".to_string().encode(), (who, pct(fee)).encode()].concat(), t.call(|| ask("Invariant", "deploy", vec![json!({ "$api": true }), signer(who), big(fee)])))
            } else {
                let dec = (fee % 100) as u8;
                (["New".to_string().encode(), ("Coin".to_string(), "C".to_string(), dec).encode()].concat(), t.call(|| ask("FungibleToken", "deploy", vec![json!({ "$api": true }), signer(who), json!("Coin"), json!("C"), big(dec)])))
            };
            world(World::default());
            if let Err(e) = &r.res { t.bad("client.request", format!("deployment fails with {e}")); }
            match &r.sent[..] {
                [x] if x.kind == "upload_program" && x.from == rt::hash(who) && x.payload == want => t.saw("deployed"),
                l => t.bad("client.request", format!("deployment by {} with {fee} sent {:?}, expected {}", id(who), l.iter().map(|x| hex(&x.payload)).collect::<Vec<_>>(), hex(&want))),
            }
        }),
        show: Box::new(move |i| { let d = digits(i, &r2); format!("{} by {} with {}", ["exchange", "token"][d[2]], id(people()[d[0]]), fees()[d[1]]) }),
    }
}

fn isqrt(x: &N) -> N { x.sqrt() }
fn addresses() -> Vec<String> {
    let f = |a: [u8; 32]| hex(&a);
    let mut lo = [0u8; 32]; lo[31] = 1;
    let mut hi = [0u8; 32]; hi[0] = 0xa0;
    let mut mid = [0x0f; 32]; mid[5] = 0xf0;
    vec![f([0; 32]), f(lo), f(hi), f(mid), f([0x9f; 32]), f([0xff; 32])]
}
/// Helpers on prices, tiers, keys and conversions.
pub fn helpers() -> Enumeration {
    let p = prices();
    let radix = vec![p.len(), p.len()];
    let size = radix.iter().map(|x| *x as u64).product();
    let r2 = radix.clone();
    let (p2, n_prices) = (p.clone(), p.len());
    Enumeration {
        name: "helpers".into(), rule: "price helpers on all pairs of listed prices; tiers, keys, limits and conversions on all listed values".into(), size,
        case: Box::new(move |i, t| {
            let d = digits(i, &radix);
            let (a, b) = (n(p[d[0]]), n(p[d[1]]));
            let mut see = |t: &mut Tally, f: &'static str, args: Vec<V>, want: Option<V>| {
                let shown = V::Array(args.clone());
                let r = t.call(|| ask("utils", f, args));
                match (r.res, want) {
                    (Ok(v), Some(w)) if same(&v, &w) => t.saw("as defined"),
                    (Err(_), None) => t.saw("refused"),
                    (v, w) => t.bad("client.helper", format!("{f}{shown} is {v:?}, expected {w:?}")),
                }
            };
            let (qa, qb) = (&a * &a, &b * &b);
            let (big_q, diff) = (qa.clone().max(qb.clone()), if qa > qb { &qa - &qb } else { &qb - &qa });
            see(t, "calculatePriceImpact", vec![big(a.clone()), big(b.clone())], Some(big(diff * n(m::PCT_ONE) / big_q)));
            if d[1] == 0 {
                let price = &qa / p10(24);
                see(t, "sqrtPriceToPrice", vec![big(a.clone())], Some(big(price.clone())));
                for q in [price.clone(), &price + n(1), a.clone()] { see(t, "priceToSqrtPrice", vec![big(q.clone())], Some(big(isqrt(&(&q * p10(24)))))); }
                for sp in SPACINGS { see(t, "calculateTick", vec![big(a.clone()), big(sp)], Some(big(m::tick_at(p[d[0]], sp)))); }
            }
            // the rest once each
            let k = d[0] + d[1] * n_prices;
            if let Some(sp) = SPACINGS.get(k) {
                let sp = *sp;
                see(t, "getMaxTick", vec![big(sp)], Some(big(m::max_tick(sp))));
                see(t, "getMinTick", vec![big(sp)], Some(big(-m::max_tick(sp))));
                see(t, "getMaxSqrtPrice", vec![big(sp)], Some(big(m::tick_price(m::max_tick(sp)))));
                see(t, "getMinSqrtPrice", vec![big(sp)], Some(big(m::tick_price(-m::max_tick(sp)))));
                see(t, "calculateFeeTierWithLinearRatio", vec![big(sp)], (sp <= 100).then(|| json!({ "fee": big(sp as u128 * m::PCT_ONE / 10_000), "tickSpacing": big(sp) })));
                for fee in FEES.into_iter().filter(|f| *f != m::PCT_ONE) { see(t, "newFeeTier", vec![big(fee), big(sp)], (fee < m::PCT_ONE && sp <= 100).then(|| json!({ "fee": big(fee), "tickSpacing": big(sp) }))); }
                for c in 0..4u64 { for bit in [0u64, 1, 31, 63] {
                    let tick = (c * 64 + bit) as i64 * sp as i64 - m::max_tick(sp) as i64;
                    see(t, "positionToTick", vec![big(c), big(bit), big(sp)], Some(big(tick)));
                } }
            }
            let l = addresses();
            if k < l.len() * l.len() {
                let (x, y) = (&l[k % l.len()], &l[k / l.len()]);
                for spell in [|s: &str| s.to_string()] {
                    let (x, y) = (spell(x), spell(y));
                    let ft = m::Tier { fee: FEES[1], sp: 10 };
                    let first = x < y;
                    if x != y { see(t, "isTokenX", vec![json!(x), json!(y)], Some(json!(first))); }
                    see(t, "newPoolKey", vec![json!(x), json!(y), tier(ft)], (x != y).then(|| json!({ "tokenX": if first { &x } else { &y }, "tokenY": if first { &y } else { &x }, "feeTier": tier(ft) })));
                }
            }
            if k < 26 {
                for (f, scale, bits) in [("toFeeGrowth", 28u32, 128u32), ("toLiquidity", 5, 256), ("toFixedPoint", 12, 128), ("toPercentage", 12, 128), ("toPrice", 24, 128), ("toSecondsPerLiquidity", 25, 128), ("toSqrtPrice", 24, 128), ("toTokenAmount", 0, 256)] {
                    for v in [0u64, 1, 15, 999_999_999] {
                        let s = k as u32;
                        let want = if scale >= s { n(v) * p10(scale - s) } else { n(v) / p10(s - scale) };
                        if want.bits() < bits as u64 { see(t, f, vec![big(v), big(s)], Some(big(want))); }
                    }
                }
            }
        }),
        show: Box::new(move |i| { let d = digits(i, &r2); format!("prices {} and {}", p2[d[0]], p2[d[1]]) }),
    }
}
