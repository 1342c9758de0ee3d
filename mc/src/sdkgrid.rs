//! The SDK's computing core against the reference of the contract's, point by point.
use crate::enumer::{digits, Enumeration, Tally};
use crate::grids::{amount_list, edges, judge, liq_list, more_ticks, price_list, tried, tried_r, FEES, SPACINGS};
use crate::model as m;
use crate::num::*;
use crate::sdk::*;
use sdk_decimal::Decimal;
use sdk_wasm as sdk;

/// What the reference computes, the SDK computes; where the reference has no value nothing is said.
fn judged<R: PartialEq + std::fmt::Debug>(t: &mut Tally, kind: &'static str, what: impl FnOnce() -> String, got: Option<R>, want: Option<R>) {
    match want {
        Some(w) => if got.as_ref() == Some(&w) { t.saw(kind) } else { t.bad(kind, format!("{}: SDK {got:?}, contract {w:?}", what())) },
        None => t.saw("no value"),
    }
}

macro_rules! agree { ($t:ident, $k:expr, $w:expr, $g:expr, $e:expr) => {{ let got = $g; let want = $e; judged($t, $k, $w, got, want) }} }

pub fn moves(deep: bool) -> Enumeration {
    let (p, l, a) = (price_list(deep), liq_list(deep), amount_list(deep));
    let radix = vec![p.len(), p.len(), l.len(), a.len()];
    let size = radix.iter().map(|x| *x as u64).product();
    let (r2, p2, l2, a2) = (radix.clone(), p.clone(), l.clone(), a.clone());
    Enumeration {
        name: "SDK swap steps".into(), rule: "all combinations of listed start and target prices, liquidity, amounts and fees, exact in and out: step, token amounts, next price, price impact".into(), size,
        case: Box::new(move |i, t| {
            let d = digits(i, &radix);
            let (q, r, l, x) = (n(p[d[0]]), n(p[d[1]]), &l[d[2]], &a[d[3]]);
            for fee in FEES { for by_in in [true, false] {
                let got = tried_r(t, || sdk::compute_swap_step(price(&q), price(&r), liquidity(l), token(x), by_in, percent(fee)));
                let got = got.map(|s| m::Step { next: n(s.next_sqrt_price.get()), a_in: big(s.amount_in.get()), a_out: big(s.amount_out.get()), fee: big(s.fee_amount.get()) });
                agree!(t, "step", || format!("step from {q} to {r} at {l}, {x}, by_in {by_in}, fee {fee}"), got, m::swap_step(&q, &r, l, x, by_in, fee).ok());
            } }
            if d[3] == 0 { for up in [false, true] {
                let got = tried_r(t, || sdk::get_delta_x(price(&q), price(&r), liquidity(l), up)).map(|v| big(v.get()));
                agree!(t, "delta x", || format!("x between {q} and {r} for {l}, up {up}"), got, m::delta_x(&q, &r, l, up).ok());
                let got = tried_r(t, || sdk::get_delta_y(price(&q), price(&r), liquidity(l), up)).map(|v| big(v.get()));
                agree!(t, "delta y", || format!("y between {q} and {r} for {l}, up {up}"), got, m::delta_y(&q, &r, l, up).ok());
            } }
            if d[1] == 0 { for add in [false, true] {
                let got = tried_r(t, || sdk::get_next_sqrt_price_x_up(price(&q), liquidity(l), token(x), add)).map(|v| n(v.get()));
                agree!(t, "next price", || format!("price after {x} of x at {q} with {l}, adding {add}"), got, m::next_price_x(&q, l, x, add).ok());
                for fee in [0, 10_000_000_000, 999_999_999_999u128] { for x_to_y in [false, true] {
                    let got = tried_r(t, || sdk::is_enough_amount_to_change_price(token(x), price(&q), liquidity(l), percent(fee), add, x_to_y));
                    agree!(t, "moves", || format!("{x} moves {q} at {l}, fee {fee}, by_in {add}, x_to_y {x_to_y}"), got, m::moves_price(x, &q, l, fee, add, x_to_y).ok());
                } }
            } }
        }),
        show: Box::new(move |i| { let d = digits(i, &r2); format!("prices {} and {}, liquidity {}, amount {}", p2[d[0]], p2[d[1]], l2[d[2]], a2[d[3]]) }),
    }
}
/// Token amounts of ranges, and the liquidity that amounts can open.
pub fn ranges(deep: bool) -> Enumeration {
    let ticks: Vec<i32> = if deep { vec![-221_818, -200_000, -100_000, -20_000, -1000, -100, -20, -10, -1, 0, 1, 10, 20, 100, 1000, 20_000, 100_000, 200_000, 221_818] } else { vec![-221_818, -20_000, -100, -10, 0, 10, 100, 20_000, 221_818] };
    let ticks = more_ticks(ticks);
    let (l, a) = (liq_list(deep), amount_list(false));
    let k = l.len().max(a.len());
    let radix = vec![ticks.len(), ticks.len(), ticks.len(), 4, k];
    let size = radix.iter().map(|x| *x as u64).product();
    let dec = move |i: u64| {
        let d = digits(i, &radix);
        let cur = ticks[d[2]];
        let (x, y) = (m::tick_price_u(cur), if cur < m::MAX_TICK { m::tick_price_u(cur + 1) } else { m::MAX_PRICE + 1 });
        let p = [x, x + 1, x + (y - x) / 2, y - 1][d[3]].min(m::MAX_PRICE);
        (ticks[d[0]], ticks[d[1]], cur, p, l.get(d[4]).cloned(), a.get(d[4]).cloned())
    };
    let dec2 = dec.clone();
    Enumeration {
        name: "SDK ranges".into(), rule: "all ranges between listed ticks, prices at the edges and inside of every listed tick, every listed liquidity and amount".into(), size,
        case: Box::new(move |i, t| {
            let (lo, hi, cur, p, l, a) = dec(i);
            for up in [true, false] {
                if let Some(l) = &l {
                    let got = tried_r(t, || sdk::calculate_amount_delta(cur, price(&n(p)), liquidity(l), up, hi, lo)).map(|(x, y, u)| (big(x.get()), big(y.get()), u));
                    agree!(t, "tokens", || format!("tokens of {l} in {lo}..{hi} at tick {cur}, price {p}, opening {up}"), got, m::range_amounts(cur, &n(p), l, up, lo, hi).ok());
                }
                if let Some(a) = &a {
                    use math::{sqrt_price::SqrtPrice, token_amount::TokenAmount};
                    let (s, x) = (<SqrtPrice as decimal::Decimal>::new(p), <TokenAmount as decimal::Decimal>::new(crate::grids::Wide::of(a).unwrap()));
                    for of_x in [true, false] {
                        let want = tried_r(t, || if of_x { contracts::get_liquidity_by_x(x, lo, hi, s, up) } else { contracts::get_liquidity_by_y(x, lo, hi, s, up) }).map(|r| (r.l.n(), r.amount.n()));
                        let got = tried_r(t, || if of_x { sdk::get_liquidity_by_x(token(a), lo, hi, price(&n(p)), up) } else { sdk::get_liquidity_by_y(token(a), lo, hi, price(&n(p)), up) }).map(|r| (big(r.l.get()), big(r.amount.get())));
                        agree!(t, "liquidity", || format!("liquidity of {a} {} in {lo}..{hi} at price {p}, up {up}", if of_x { "x" } else { "y" }), got, want);
                    }
                }
            }
        }),
        show: Box::new(move |i| format!("{:?}", dec2(i))),
    }
}
pub fn ticks(deep: bool) -> Enumeration {
    let sps: Vec<u16> = if deep { (1..=100).chain([128, 255, 256, 1000, 4096, 10_000, 65_535]).collect() } else { SPACINGS.into() };
    let ticks = 2 * m::MAX_TICK as u64 + 1;
    let sp2 = sps.clone();
    Enumeration {
        name: "SDK ticks".into(), rule: "every tick with every listed spacing: price, ticks of the prices around it, place in the map, admissibility".into(), size: ticks * sps.len() as u64,
        case: Box::new(move |i, t| {
            let (k, sp) = ((i % ticks) as i32 - m::MAX_TICK, sps[(i / ticks) as usize]);
            let p = m::tick_price_u(k);
            if sp == sps[0] {
                let got = tried_r(t, || sdk::sqrt_price::calculate_sqrt_price(k)).map(|v| v.get());
                agree!(t, "price", || format!("price of tick {k}"), got, Some(p));
            }
            let mut v = vec![p - 1, p, p + 1];
            if k < m::MAX_TICK { v.push(p + (m::tick_price_u(k + 1) - p) / 2); }
            for q in v {
                if q < m::MIN_PRICE || q > m::MAX_PRICE { continue; }
                let want = m::tick_at(q, sp);
                if want >= -m::max_tick(sp) {
                    let got = tried_r(t, || sdk::get_tick_at_sqrt_price(price(&n(q)), sp));
                    agree!(t, "tick", || format!("tick of price {q} with spacing {sp}"), got, Some(want));
                }
                if k % sp as i32 == 0 {
                    let next = k + sp as i32;
                    let want = if next > m::MAX_TICK { q == m::tick_price_u(m::max_tick(sp)) } else { q >= p && q < m::tick_price_u(next) };
                    let got = tried_r(t, || sdk::check_tick_to_sqrt_price_relationship(k, sp, price(&n(q))));
                    agree!(t, "relation", || format!("price {q} belongs to tick {k} with spacing {sp}"), got, Some(want));
                }
            }
            let valid = k % sp as i32 == 0 && k.abs() <= m::max_tick(sp);
            if t.call(|| sdk::check_tick(k, sp).is_ok()) != valid { t.bad("admissible", format!("tick {k} with spacing {sp}: expected {valid}")); }
            if k % sp as i32 == 0 {
                let idx = k / sp as i32 + m::MAX_TICK / sp as i32;
                let want = ((idx / 64) as u16, (idx % 64) as u8);
                agree!(t, "place", || format!("place of tick {k} with spacing {sp}"), tried(t, || sdk::tick_to_position(k, sp)), Some(want));
                agree!(t, "place", || format!("place of tick {k} with spacing {sp} (exported)"), tried_r(t, || sdk::tick_to_position_js(k, sp)), Some(want));
                agree!(t, "place", || format!("tick at place {want:?} with spacing {sp}"), tried_r(t, || sdk::position_to_tick(want.0, want.1, sp)), Some(k));
            }
        }),
        show: Box::new(move |i| format!("tick {} with spacing {}", (i % ticks) as i32 - m::MAX_TICK, sp2[(i / ticks) as usize])),
    }
}
pub fn spacings() -> Enumeration {
    Enumeration {
        name: "SDK tick limits".into(), rule: "every tick spacing".into(), size: 65_535,
        case: Box::new(|i, t| {
            let sp = i as u16 + 1;
            let got = tried(t, || sdk::calculate_max_liquidity_per_tick(sp)).map(|v| big(v.get()));
            agree!(t, "limit", || format!("largest liquidity per tick with spacing {sp}"), got, Some(m::max_liq_per_tick(sp)));
            let want = (m::max_tick(sp) + m::MAX_TICK) / sp as i32 / 64;
            agree!(t, "chunk", || format!("last chunk with spacing {sp}"), tried_r(t, || sdk::get_max_chunk(sp)), Some(want as u16));
            let k = m::max_tick(sp);
            agree!(t, "end", || format!("ends of the range with spacing {sp}"), tried_r(t, || sdk::sqrt_price::get_max_tick(sp)).zip(tried_r(t, || sdk::sqrt_price::get_min_tick(sp))), Some((k, -k)));
            agree!(t, "end", || format!("prices at the ends with spacing {sp}"), tried_r(t, || sdk::sqrt_price::get_max_sqrt_price(sp)).zip(tried_r(t, || sdk::sqrt_price::get_min_sqrt_price(sp))).map(|(a, b)| (a.get(), b.get())), Some((m::tick_price_u(k), m::tick_price_u(-k))));
        }),
        show: Box::new(|i| format!("spacing {}", i + 1)),
    }
}
/// Fees of a position, for every place of the current tick and wrapped counters.
pub fn fees(deep: bool) -> Enumeration {
    let g: Vec<u128> = if deep { vec![0, 1, 1000, 10u128.pow(28), 1 << 64, u128::MAX / 2, u128::MAX / 2 + 1, u128::MAX - 1, u128::MAX] } else { vec![0, 1, 1000, 10u128.pow(28), u128::MAX / 2 + 1, u128::MAX] };
    let cur = [-3i32, -2, 0, 1, 2, 3];
    let l: Vec<N> = [0u128, 1, 100_000, 12_345_678, 10u128.pow(23), u128::MAX].into_iter().map(n).chain([(one() << 256u32) - 1]).collect();
    let radix = vec![g.len(), g.len(), g.len(), cur.len(), g.len(), l.len()];
    let size = radix.iter().map(|x| *x as u64).product();
    let (r2, g2, l2) = (radix.clone(), g.clone(), l.clone());
    Enumeration {
        name: "SDK fees".into(), rule: "all combinations of listed counters (lower, upper, global, at opening) for every position of the current tick, every listed liquidity".into(), size,
        case: Box::new(move |i, t| {
            let d = digits(i, &radix);
            let (lx, ux, gx, c, px) = (g[d[0]], g[d[1]], g[d[2]], cur[d[3]], g[d[4]]);
            let (ly, uy, gy, py) = (px, lx, ux, gx);
            let f = |x: u128| growth(&n(x));
            let got = tried_r(t, || sdk::calculate_fee(-2, f(lx), f(ly), 2, f(ux), f(uy), c, f(gx), f(gy), f(px), f(py), liquidity(&l[d[5]]))).map(|(a, b)| (big(a.get()), big(b.get())));
            let one = |l: u128, u: u128, gl: u128| m::wrap(n(gl) - (if c >= -2 { n(l) } else { m::wrap(n(gl) - n(l)) }) - (if c < 2 { n(u) } else { m::wrap(n(gl) - n(u)) }));
            let owed = |inside: N, at: u128| fdiv(&(m::wrap(inside - n(at)) * &l[d[5]]), &(n(m::FG_ONE) * n(m::LIQ_ONE)));
            agree!(t, "fee", || "fee of a position".into(), got, Some((owed(one(lx, ux, gx), px), owed(one(ly, uy, gy), py))).filter(|v| v.0.bits() <= 256 && v.1.bits() <= 256));
            if d[5] == 0 {
                let s = |x: u128| -> sdk::seconds_per_liquidity::SecondsPerLiquidity { Decimal::new(x) };
                let got = tried_r(t, || sdk::seconds_per_liquidity::calculate_seconds_per_liquidity_inside(-2, 2, c, s(lx), s(ux), s(gx))).map(|v| n(v.get()));
                agree!(t, "seconds", || format!("seconds inside -2..2 at {c}: {lx} {ux} {gx}"), got, Some(one(lx, ux, gx)));
            }
        }),
        show: Box::new(move |i| { let d = digits(i, &r2); format!("lower {} upper {} global {} current {} at opening {} liquidity {}", g2[d[0]], g2[d[1]], g2[d[2]], cur[d[3]], g2[d[4]], l2[d[5]]) }),
    }
}
pub fn minimum(deep: bool) -> Enumeration {
    let (a, s) = (edges(256, 0, deep), edges(128, 12, deep));
    let radix = vec![a.len(), s.len()];
    let size = (a.len() * s.len()) as u64;
    let (r2, a2, s2) = (radix.clone(), a.clone(), s.clone());
    Enumeration {
        name: "SDK minimum output".into(), rule: "all pairs of boundary amounts and slippages".into(), size,
        case: Box::new(move |i, t| {
            let d = digits(i, &radix);
            let (x, s) = (&a[d[0]], &s[d[1]]);
            let rest = n(m::PCT_ONE) - s;
            let r = tried(t, || sdk::calculate_min_amount_out(token(x), percent(to128(s).unwrap()))).map(|v| big(v.get()));
            judge(t, &format!("minimum of {x} with slippage {s}"), r, (!neg(&rest)).then(|| cdiv(&(x * &rest), &n(m::PCT_ONE))), 256, true);
        }),
        show: Box::new(move |i| { let d = digits(i, &r2); format!("amount {} slippage {}", a2[d[0]], s2[d[1]]) }),
    }
}
