//! Exhaustive grids over the pure parts of the repository: fixed-point arithmetic, integer
//! conversions, tick prices, swap steps, token amounts of ranges, fee growth, the tick map.
use crate::enumer::{digits, Enumeration, Tally};
use crate::model as m;
use crate::num::*;
use crate::rt::guarded;
use decimal::*;
use math::{fee_growth::*, fixed_point::FixedPoint, liquidity::Liquidity, percentage::Percentage, seconds_per_liquidity::SecondsPerLiquidity, sqrt_price::*, token_amount::TokenAmount};
use num_traits::Zero;
use sails_rs::{U128, U256, U512};
use std::collections::BTreeSet;
use std::rc::Rc;

static MORE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// The thorough tier's grids on top of the deep ones.
pub fn thorough(on: bool) { MORE.store(on, std::sync::atomic::Ordering::SeqCst); }
fn more() -> bool { MORE.load(std::sync::atomic::Ordering::SeqCst) }

/// Some(value) when the call returned normally, None when it reported a failure (panic or Err).
pub fn tried<R>(t: &mut Tally, f: impl FnOnce() -> R) -> Option<R> { t.call(|| guarded(f).ok()) }
pub fn tried_r<R, E>(t: &mut Tally, f: impl FnOnce() -> Result<R, E>) -> Option<R> { t.call(|| guarded(f).ok().and_then(|r| r.ok())) }

/// Judges one call: `want` is the exact result (None: must be refused); `bits` what the result type
/// holds; `must` whether a result that fits has to be delivered.
pub fn judge(t: &mut Tally, what: &str, got: Option<N>, want: Option<N>, bits: u64, must: bool) {
    let want = want.filter(|w| !neg(w) && w.bits() <= bits);
    match (&got, &want) {
        (Some(g), Some(w)) if g == w => t.saw("exact"),
        (None, None) => t.saw("refused"),
        (None, Some(_)) if !must => t.saw("refused, intermediate too wide"),
        (Some(g), Some(w)) => t.bad("wrong", format!("{what} = {g}, exact result {w}")),
        (Some(g), None) => t.bad("wrong", format!("{what} = {g}, but the result is not representable")),
        (None, Some(w)) => t.bad("refused", format!("{what} fails, exact result {w}")),
    }
}

// ---- A01: fixed-point numbers and wide integers -------------------------------------------------

pub trait Wide: Copy { const BITS: u64; fn of(a: &N) -> Option<Self>; fn to(self) -> N; }
macro_rules! prim { ($($t:ty),*) => {$(impl Wide for $t {
    const BITS: u64 = <$t>::BITS as u64;
    fn of(a: &N) -> Option<Self> { <$t>::try_from(a).ok() }
    fn to(self) -> N { N::from(self) }
})*} }
prim!(u8, u16, u32, u64, u128);
macro_rules! wide { ($($t:ident $k:literal),*) => {$(impl Wide for $t {
    const BITS: u64 = 64 * $k;
    fn of(a: &N) -> Option<Self> { limbs(a, $k).map(|v| { let mut x = [0u64; $k]; x.copy_from_slice(&v); $t(x) }) }
    fn to(self) -> N { N::from_bytes_le(num_bigint::Sign::Plus, &self.0.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()) }
})*} }
wide!(U128 2, U192 3, U256 4, U320 5, U384 6, U448 7, U512 8);

/// Boundary values of a `bits` wide number with a decimal point after `scale` digits.
pub fn edges(bits: u64, scale: u32, deep: bool) -> Vec<N> {
    let mut s: BTreeSet<N> = BTreeSet::new();
    let max = (one() << bits) - 1;
    let mut add = |v: N| { for d in -1i32..=1 { let w: N = &v + d; if !neg(&w) && w <= max { s.insert(w); } } };
    add(one());
    add(n(3));
    add(p10(scale));
    add(p10(scale) * 2);
    add(max.clone());
    add(max.sqrt());
    add(&max / p10(scale));
    add(n(m::MAX_PRICE));
    add(n(m::MIN_PRICE));
    for k in (32..bits).step_by(if deep && more() { 1 } else if deep { 8 } else { 64 }) { add(one() << k); }
    for k in (1..78).step_by(if deep && more() { 1 } else if deep { 3 } else { 13 }) { add(p10(k)); }
    if deep { for k in [7u64, 97, 1_000_003] { add(n(k)); add(&max / k); add(p10(scale) * k); add(p10(scale) / k); } }
    s.into_iter().collect()
}

type Case2 = Box<dyn Fn(&N, &N, &mut Tally)>;
struct Pairs { name: String, a: Rc<Vec<N>>, b: Rc<Vec<N>>, case: Case2 }

macro_rules! same_type { ($v:ident, $deep:ident, $($t:ident, $u:ty, $big:ident);*) => {$({
    let g = Rc::new(edges(<$u>::BITS_, <$t>::scale() as u32, $deep));
    let o = p10(<$t>::scale() as u32);
    $v.push(Pairs { name: stringify!($t).into(), a: g.clone(), b: g, case: Box::new(move |a, b, t| {
        let bits = <$u as Wide>::BITS;
        let (x, y) = (<$t>::new(<$u as Wide>::of(a).unwrap()), <$t>::new(<$u as Wide>::of(b).unwrap()));
        let f = |d: $t| d.get().to();
        let nm = stringify!($t);
        let r = tried(t, || x + y).map(f); judge(t, &format!("{nm} {a} + {b}"), r, Some(a + b), bits, true);
        let r = tried(t, || x - y).map(f); judge(t, &format!("{nm} {a} - {b}"), r, Some(a - b), bits, true);
        let r = tried_r(t, || x.checked_add(y)).map(f); judge(t, &format!("{nm} {a} checked_add {b}"), r, Some(a + b), bits, true);
        let r = tried_r(t, || x.checked_sub(y)).map(f); judge(t, &format!("{nm} {a} checked_sub {b}"), r, Some(a - b), bits, true);
        let r = tried_r(t, || CheckedOps::checked_div(x, y)).map(f);
        judge(t, &format!("{nm} {a} checked_div {b}"), r, (!b.is_zero()).then(|| fdiv(&(a * &o), b)), bits, (a * &o).bits() <= bits);
        let r = tried(t, || x.sub_abs(y)).map(f); judge(t, &format!("{nm} {a} sub_abs {b}"), r, Some(if a > b { a - b } else { b - a }), bits, true);
        let (mut p, mut q) = (x, x);
        let r = tried(t, || { p += y; p }).map(f); judge(t, &format!("{nm} {a} += {b}"), r, Some(a + b), bits, true);
        let r = tried(t, || { q -= y; q }).map(f); judge(t, &format!("{nm} {a} -= {b}"), r, Some(a - b), bits, true);
        if (x == y) != (a == b) || (x < y) != (a < b) { t.bad("wrong", format!("{nm} comparison of {a} and {b}")); }
    })});
})*} }
macro_rules! mixed { ($v:ident, $deep:ident, [$($a:ident $ua:ty, $ba:ident);*], $bs:tt) => {$( mixed!(@ $v, $deep, $a, $ua, $ba, $bs); )*};
    (@ $v:ident, $deep:ident, $a:ident, $ua:ty, $ba:ident, [$($b:ident $ub:ty);*]) => {$({
        let (ga, gb) = (Rc::new(edges(<$ua>::BITS_, <$a>::scale() as u32, $deep)), Rc::new(edges(<$ub>::BITS_, <$b>::scale() as u32, $deep)));
        let (oa, ob) = (p10(<$a>::scale() as u32), p10(<$b>::scale() as u32));
        $v.push(Pairs { name: format!("{} with {}", stringify!($a), stringify!($b)), a: ga, b: gb, case: Box::new(move |a, b, t| {
            let (w, big) = (<$ua as Wide>::BITS, <$ba as Wide>::BITS);
            let (x, y) = (<$a>::new(<$ua as Wide>::of(a).unwrap()), <$b>::new(<$ub as Wide>::of(b).unwrap()));
            let f = |d: $a| d.get().to();
            let nm = format!("{} {a} with {} {b}", stringify!($a), stringify!($b));
            let nz = !b.is_zero();
            // narrow operations
            let prod = a * b; let wide_a = a * &ob;
            let fits = |z: &N| z.bits() <= w && b.bits() <= w && ob.bits() <= w;
            let r = tried(t, || x * y).map(f); judge(t, &format!("mul {nm}"), r, Some(fdiv(&prod, &ob)), w, fits(&prod));
            let r = tried(t, || x.mul_up(y)).map(f); judge(t, &format!("mul_up {nm}"), r, Some(cdiv(&prod, &ob)), w, fits(&(&prod + &ob)));
            let r = tried(t, || x / y).map(f); judge(t, &format!("div {nm}"), r, nz.then(|| fdiv(&wide_a, b)), w, fits(&wide_a));
            let r = tried(t, || x.div_up(y)).map(f); judge(t, &format!("div_up {nm}"), r, nz.then(|| cdiv(&wide_a, b)), w, fits(&(&wide_a + b)));
            // wide operations
            let fits = |z: &N| z.bits() <= big;
            let r = tried(t, || x.big_mul(y)).map(f); judge(t, &format!("big_mul {nm}"), r, Some(fdiv(&prod, &ob)), w, fits(&prod));
            let r = tried(t, || x.big_mul_up(y)).map(f); judge(t, &format!("big_mul_up {nm}"), r, Some(cdiv(&prod, &ob)), w, fits(&(&prod + &ob)));
            let r = tried(t, || x.big_div(y)).map(f); judge(t, &format!("big_div {nm}"), r, nz.then(|| fdiv(&wide_a, b)), w, fits(&wide_a));
            let r = tried(t, || x.big_div_up(y)).map(f); judge(t, &format!("big_div_up {nm}"), r, nz.then(|| cdiv(&wide_a, b)), w, fits(&(&wide_a + b)));
            let r = tried_r(t, || x.checked_big_div(y)).map(f); judge(t, &format!("checked_big_div {nm}"), r, nz.then(|| fdiv(&wide_a, b)), w, fits(&wide_a));
            let r = tried(t, || x.big_mul_to_value(y)).map(|v: $ba| v.to()); judge(t, &format!("big_mul_to_value {nm}"), r, Some(fdiv(&prod, &ob)), big, fits(&prod));
            let r = tried(t, || x.big_mul_to_value_up(y)).map(|v: $ba| v.to()); judge(t, &format!("big_mul_to_value_up {nm}"), r, Some(cdiv(&prod, &ob)), big, fits(&(&prod + &ob)));
            // division by a raw number
            let raw = <$ba as Wide>::of(b).unwrap();
            let own = a * &oa;
            let r = tried(t, || x.big_div_by_number(raw)).map(f); judge(t, &format!("big_div_by_number {nm}"), r, nz.then(|| fdiv(&own, b)), w, fits(&own));
            let r = tried(t, || x.big_div_by_number_up(raw)).map(f); judge(t, &format!("big_div_by_number_up {nm}"), r, nz.then(|| cdiv(&own, b)), w, fits(&(&own + b)));
            let r = tried_r(t, || x.checked_big_div_by_number(raw)).map(f); judge(t, &format!("checked_big_div_by_number {nm}"), r, nz.then(|| fdiv(&own, b)), w, fits(&own));
            let r = tried_r(t, || x.checked_big_div_by_number_up(raw)).map(f); judge(t, &format!("checked_big_div_by_number_up {nm}"), r, nz.then(|| cdiv(&own, b)), w, fits(&(&own + b)));
        })});
    })*};
}
trait Bits_ { const BITS_: u64; }
impl Bits_ for u128 { const BITS_: u64 = 128; }
impl Bits_ for U256 { const BITS_: u64 = 256; }

pub fn pairs_enum(name: &str, rule: &str, v: Vec<Pairs>) -> Enumeration {
    let v = Rc::new(v);
    let mut starts = vec![0u64];
    for p in v.iter() { starts.push(starts.last().unwrap() + (p.a.len() * p.b.len()) as u64); }
    let size = *starts.last().unwrap();
    let at = move |i: u64| { let k = starts.partition_point(|s| *s <= i) - 1; (k, i - starts[k]) };
    let (v2, at2) = (v.clone(), at.clone());
    Enumeration {
        name: name.into(), rule: rule.into(), size,
        case: Box::new(move |i, t| { let (k, j) = at(i); let p = &v[k]; (p.case)(&p.a[j as usize % p.a.len()], &p.b[j as usize / p.a.len()], t) }),
        show: Box::new(move |i| { let (k, j) = at2(i); let p = &v2[k]; format!("{} on {} and {}", p.name, p.a[j as usize % p.a.len()], p.b[j as usize / p.a.len()]) }),
    }
}

pub fn arithmetic(deep: bool) -> Enumeration {
    let mut v: Vec<Pairs> = vec![];
    same_type!(v, deep, Percentage, u128, U256; Liquidity, U256, U512; SqrtPrice, u128, U384; TokenAmount, U256, U512; FeeGrowth, u128, U256; FixedPoint, u128, U192; SecondsPerLiquidity, u128, U256);
    mixed!(v, deep, [Percentage u128, U256; Liquidity U256, U512; SqrtPrice u128, U384; TokenAmount U256, U512; FeeGrowth u128, U256],
        [Percentage u128; Liquidity U256; SqrtPrice u128; TokenAmount U256; FeeGrowth u128]);
    mixed!(v, deep, [FixedPoint u128, U192; SecondsPerLiquidity u128, U256], [Percentage u128; FixedPoint u128; SqrtPrice u128]);
    pairs_enum("fixed-point arithmetic", "every operation of every pair of decimal types on all pairs of boundary values", v)
}

macro_rules! scale_case { ($v:ident, $deep:ident, $($a:ident $ua:ty, $ba:ident);*) => {$({
    let s = <$a>::scale() as u32;
    let mut ga = edges(<$ua>::BITS_, s, $deep);
    ga.extend(edges(256, s, false)); ga.sort(); ga.dedup();
    let gb: Vec<N> = (0..=(s + 60)).map(n).collect();
    $v.push(Pairs { name: format!("scaling into {}", stringify!($a)), a: Rc::new(ga), b: Rc::new(gb), case: Box::new(move |a, b, t| {
        let (w, big) = (<$ua as Wide>::BITS, <$ba as Wide>::BITS);
        let k = u32::try_from(b).unwrap();
        let f = |d: $a| d.get().to();
        let nm = format!("{} from {a} with {k} decimals", stringify!($a));
        let (lo, hi) = if s > k { let v = a * p10(s - k); (v.clone(), v) } else { (fdiv(a, &p10(k - s)), cdiv(a, &p10(k - s))) };
        // the multiplier or divisor itself has to be representable
        let pw = p10(s.abs_diff(k));
        let must = a.bits() <= w && pw.bits() <= w;
        if let Some(x) = <U256 as Wide>::of(a) {
            let r = tried(t, || <$a as Factories<U256>>::from_scale(x, k as u8)).map(f); judge(t, &format!("from_scale {nm}"), r, Some(lo.clone()), w, must);
            let r = tried_r(t, || <$a as Factories<U256>>::checked_from_scale(x, k as u8)).map(f); judge(t, &format!("checked_from_scale {nm}"), r, Some(lo.clone()), w, must);
            let r = tried(t, || <$a as Factories<U256>>::from_scale_up(x, k as u8)).map(f); judge(t, &format!("from_scale_up {nm}"), r, Some(hi.clone()), w, must && (a + &pw).bits() <= w);
            let r = tried_r(t, || <$a as FactoriesToValue<U256, $ba>>::checked_from_scale_to_value(x, k as u8)).map(|v| v.to());
            judge(t, &format!("checked_from_scale_to_value {nm}"), r, Some(lo.clone()), big, pw.bits() <= 128 && pw.bits() <= big && a.bits() <= big);
            if k == 0 { let r = tried(t, || <$a as Factories<U256>>::from_integer(x)).map(f); judge(t, &format!("from_integer {nm}"), r, Some(a * p10(s)), w, a.bits() <= w); }
        }
        if let Some(x) = <u128 as Wide>::of(a) {
            let r = tried(t, || <$a as Factories<u128>>::from_scale(x, k as u8)).map(f); judge(t, &format!("from_scale u128 {nm}"), r, Some(lo.clone()), w, must);
            let r = tried_r(t, || <$a as Factories<u128>>::checked_from_scale(x, k as u8)).map(f); judge(t, &format!("checked_from_scale u128 {nm}"), r, Some(lo.clone()), w, must);
        }
        if k == 0 { if let Some(x) = <$ua as Wide>::of(a) {
            let d = <$a>::new(x);
            // the printed form denotes the value
            let text = t.call(|| format!("{d}"));
            let (i, fr) = text.split_once('.').unwrap_or((&text, ""));
            let back = (i.parse::<N>(), if fr.is_empty() { Ok(zero()) } else { fr.parse::<N>() });
            let ok = matches!(&back, (Ok(i), Ok(fv)) if i * p10(fr.len() as u32) * p10(s) + fv * p10(s) == a * p10(fr.len() as u32));
            if !ok { t.bad("shown", format!("{} {a} is printed as {text}", stringify!($a))); }
            if <$a>::one().get().to() != p10(s) || <$a>::almost_one().get().to() != p10(s) - 1 || <$a>::max_instance().get().to() != (one() << w) - 1 { t.bad("wrong", format!("constants of {}", stringify!($a))); }
        } }
    })});
})*} }
macro_rules! between { ($v:ident, $deep:ident, [$($a:ident $ua:ty, $ba:ident);*], $bs:tt) => {$( between!(@ $v, $deep, $a, $ua, $ba, $bs); )*};
    (@ $v:ident, $deep:ident, $a:ident, $ua:ty, $ba:ident, [$($b:ident $ub:ty);*]) => {$({
        let g = edges(<$ub>::BITS_, <$b>::scale() as u32, $deep);
        let (sa, sb) = (<$a>::scale() as u32, <$b>::scale() as u32);
        $v.push(Pairs { name: format!("{} into {}", stringify!($b), stringify!($a)), a: Rc::new(g), b: Rc::new(vec![zero()]), case: Box::new(move |b, _, t| {
            let (w, big) = (<$ua as Wide>::BITS, <$ba as Wide>::BITS);
            let y = <$b>::new(<$ub as Wide>::of(b).unwrap());
            let f = |d: $a| d.get().to();
            let nm = format!("{} {b} into {}", stringify!($b), stringify!($a));
            let (lo, hi) = if sa > sb { let v = b * p10(sa - sb); (v.clone(), v) } else { (fdiv(b, &p10(sb - sa)), cdiv(b, &p10(sb - sa))) };
            let must = b.bits() <= w && p10(sa.abs_diff(sb)).bits() <= w;
            let r = tried(t, || <$a>::from_decimal(y)).map(f); judge(t, &format!("from_decimal {nm}"), r, Some(lo.clone()), w, must);
            let r = tried_r(t, || <$a>::checked_from_decimal(y)).map(f); judge(t, &format!("checked_from_decimal {nm}"), r, Some(lo.clone()), w, must);
            let r = tried(t, || <$a>::from_decimal_up(y)).map(f); judge(t, &format!("from_decimal_up {nm}"), r, Some(hi.clone()), w, must && (b + p10(sa.abs_diff(sb))).bits() <= w);
            let r = tried_r(t, || <$a>::checked_from_decimal_to_value(y)).map(|v: $ba| v.to()); judge(t, &format!("checked_from_decimal_to_value {nm}"), r, Some(lo.clone()), big, true);
        })});
    })*};
}
pub fn scaling(deep: bool) -> Enumeration {
    let mut v: Vec<Pairs> = vec![];
    scale_case!(v, deep, Percentage u128, U256; Liquidity U256, U512; SqrtPrice u128, U384; TokenAmount U256, U512; FeeGrowth u128, U256; FixedPoint u128, U192; SecondsPerLiquidity u128, U256);
    between!(v, deep, [Percentage u128, U256; Liquidity U256, U512; SqrtPrice u128, U384; TokenAmount U256, U512; FeeGrowth u128, U256],
        [Percentage u128; Liquidity U256; SqrtPrice u128; TokenAmount U256; FeeGrowth u128; FixedPoint u128]);
    pairs_enum("scales and conversions", "every decimal type from boundary values with every number of decimals, every conversion between decimal types, the printed form", v)
}

macro_rules! cast_case { ($v:ident, $g:ident, $from:ident, [$($to:ident),*]) => {$({
    $v.push(Pairs { name: format!("{} to {}", stringify!($from), stringify!($to)), a: $g.clone(), b: Rc::new(vec![zero()]), case: Box::new(|a, _, t| {
        let Some(x) = <$from as Wide>::of(a) else { return };
        let w = <$to as Wide>::BITS;
        let r = tried(t, || <$to as UintCast<$from>>::uint_cast(x)).map(|v| v.to());
        judge(t, &format!("cast {a} from {} to {}", stringify!($from), stringify!($to)), r, Some(a.clone()), w, true);
        let r = tried_r(t, || <$to as UintCheckedCast<$from>>::uint_checked_cast(x)).map(|v| v.to());
        judge(t, &format!("checked cast {a} from {} to {}", stringify!($from), stringify!($to)), r, Some(a.clone()), w, true);
    })});
})*} }
pub fn casts(deep: bool) -> Enumeration {
    let mut s: BTreeSet<N> = edges(512, 24, deep).into_iter().collect();
    for k in [8u64, 16, 32, 64, 128, 192, 256, 320, 384, 448, 512] { for d in -2i32..=2 { let w: N = (one() << k) + d; if w.bits() <= 512 { s.insert(w); } } }
    // every combination of filled and empty 64-bit limbs
    for mask in 0u32..256 { for fill in [1u64, u64::MAX, 0x0123_4567_89ab_cdef] {
        let mut v = zero();
        for l in 0..8 { if mask >> l & 1 == 1 { v += n(fill) << (64 * l); } }
        s.insert(v);
    } }
    let g = Rc::new(s.into_iter().collect::<Vec<N>>());
    let mut v: Vec<Pairs> = vec![];
    cast_case!(v, g, U128, [u8, u16, u32, u64, u128, U192, U256, U320, U384, U448, U512]);
    cast_case!(v, g, U192, [u8, u16, u32, u64, u128, U128, U256, U320, U384, U448, U512]);
    cast_case!(v, g, U256, [u8, u16, u32, u64, u128, U128, U192, U320, U384, U448, U512]);
    cast_case!(v, g, U320, [u8, u16, u32, u64, u128, U128, U192, U256, U384, U448, U512]);
    cast_case!(v, g, U384, [u8, u16, u32, u64, u128, U128, U192, U256, U320, U448, U512]);
    cast_case!(v, g, U448, [u8, u16, u32, u64, u128, U128, U192, U256, U320, U384, U512]);
    cast_case!(v, g, U512, [u8, u16, u32, u64, u128, U128, U192, U256, U320, U384, U448]);
    cast_case!(v, g, u128, [U128, U192, U256, U320, U384, U448, U512]);
    cast_case!(v, g, u64, [u128, U128, U192, U256, U320, U384, U448, U512]);
    cast_case!(v, g, u32, [u128, U128, U192, U256, U320, U384, U448, U512]);
    cast_case!(v, g, u16, [u128, U128, U192, U256, U320, U384, U448, U512]);
    cast_case!(v, g, u8, [u128, U128, U192, U256, U320, U384, U448, U512]);
    v.push(Pairs { name: "limb helpers".into(), a: g.clone(), b: Rc::new(vec![zero()]), case: Box::new(|a, _, t| {
        if let Some(x) = <u128 as Wide>::of(a) { let r = tried(t, || to_u256(x)).map(|v| v.to()); judge(t, &format!("to_u256({a})"), r, Some(a.clone()), 256, true); }
        if let Some(x) = <U256 as Wide>::of(a) { let r = tried(t, || u256_to_u320(x)).map(|v| v.to()); judge(t, &format!("u256_to_u320({a})"), r, Some(a.clone()), 320, true); }
        if let Some(x) = <U320 as Wide>::of(a) { let r = tried_r(t, || checked_u320_to_u256(x).ok_or(())).map(|v| v.to()); judge(t, &format!("checked_u320_to_u256({a})"), r, Some(a.clone()), 256, true); }
    })});
    pairs_enum("integer conversions", "every conversion between integer widths on boundary values and every pattern of filled limbs", v)
}

// ---- A02: tick prices -----------------------------------------------------------------------------

/// sqrt(1.0001^t) for t = 0..=MAX_TICK with 60 decimals
fn true_prices() -> Vec<N> {
    let s = p10(60);
    let root = (n(10001) * p10(120 - 4)).sqrt();
    let mut v = vec![s.clone()];
    for _ in 0..m::MAX_TICK { let l = v.last().unwrap(); v.push(l * &root / &s); }
    v
}
pub fn tick_prices() -> Enumeration {
    let exact = true_prices();
    let size = 2 * m::MAX_TICK as u64 + 1 + 2000;
    let tick = |i: u64| -> i32 {
        let k = i as i64 - m::MAX_TICK as i64 - 1000;
        // beyond the range: the nearest thousand on both sides, and the ends of the type
        match k { _ if k == -(m::MAX_TICK as i64) - 1000 => i32::MIN + 1, _ if k == m::MAX_TICK as i64 + 1000 => i32::MAX, _ => k as i32 }
    };
    Enumeration {
        name: "tick prices".into(), rule: "every tick of the range and a thousand beyond on both sides".into(), size,
        case: Box::new(move |i, t| {
            let k = tick(i);
            let got = tried_r(t, || calculate_sqrt_price(k)).map(|p| p.get());
            if k.abs() > m::MAX_TICK {
                if let Some(p) = got { t.bad("range", format!("tick {k} is out of range but has price {p}")); } else { t.saw("refused"); }
                return;
            }
            let Some(p) = got else { t.bad("refused", format!("tick {k} has no price")); return };
            let got2 = tried_r(t, || SqrtPrice::from_tick(k)).map(|p| p.get());
            if got2 != Some(p) { t.bad("wrong", format!("from_tick({k}) = {got2:?}, calculate_sqrt_price {p}")); }
            // sqrt(1.0001^k) at 60 decimals
            let e = &exact[k.unsigned_abs() as usize];
            let e = if k >= 0 { e.clone() } else { p10(120) / e };
            let d = n(p) * p10(36) - &e;
            let d = if neg(&d) { -d } else { d };
            // at most 2 units of the 12th decimal, or 5e-9 of the value
            if d > p10(48) * 2 && &d * p10(9) > &e * 5 { t.bad("inaccurate", format!("tick {k} has price {p}, true value {} / 10^24", &e / p10(36))); }
            if p != m::tick_price_u(k) { t.bad("wrong", format!("tick {k} has price {p}, the protocol's constants give {}", m::tick_price_u(k))); }
            if k < m::MAX_TICK {
                let up = tried_r(t, || calculate_sqrt_price(k + 1)).map(|p| p.get());
                if up.map_or(true, |u| u <= p) { t.bad("order", format!("price {p} of tick {k} is not below the next, {up:?}")); }
            }
            if k == m::MAX_TICK && p != m::MAX_PRICE || k == -m::MAX_TICK && p != m::MIN_PRICE { t.bad("range", format!("end of the price range: {p}")); }
            t.saw("price");
        }),
        show: Box::new(move |i| format!("tick {}", tick(i))),
    }
}
pub const SPACINGS: [u16; 12] = [1, 2, 3, 5, 7, 10, 30, 60, 64, 99, 100, 128];
pub fn price_ticks(deep: bool) -> Enumeration {
    let sps: Vec<u16> = if deep { (1..=100).chain([128, 255, 256, 1000, 4096, 10_000, 65_535]).collect() } else { SPACINGS.into() };
    let ticks = 2 * m::MAX_TICK as u64 + 1;
    let size = ticks * sps.len() as u64;
    let sp2 = sps.clone();
    Enumeration {
        name: "ticks of prices".into(), rule: "every tick with every listed spacing: the price just below, at, just above and in the middle of the tick".into(), size,
        case: Box::new(move |i, t| {
            let (k, sp) = ((i % ticks) as i32 - m::MAX_TICK, sps[(i / ticks) as usize]);
            let p = m::tick_price_u(k);
            let mut v = vec![p - 1, p, p + 1];
            if k < m::MAX_TICK { v.push(p + (m::tick_price_u(k + 1) - p) / 2); }
            for q in v {
                let got = tried_r(t, || math::get_tick_at_sqrt_price(SqrtPrice::new(q), sp));
                let want = (q >= m::MIN_PRICE && q <= m::MAX_PRICE).then(|| m::tick_at(q, sp));
                // below the lowest multiple of the spacing there is no tick: nothing is specified
                if want.is_some_and(|w| w < -m::max_tick(sp)) { t.saw("below the lowest tick"); continue; }
                if got != want { t.bad("wrong", format!("price {q} with spacing {sp}: tick {got:?}, expected {want:?}")); } else { t.saw("tick"); }
                if k % sp as i32 == 0 {
                    let got = tried_r(t, || check_tick_to_sqrt_price_relationship(k, sp, SqrtPrice::new(q)));
                    let next = k + sp as i32;
                    let want = if next > m::MAX_TICK { q == m::tick_price_u(m::max_tick(sp)) } else { q >= p && q < m::tick_price_u(next) };
                    if got != Some(want) { t.bad("relation", format!("price {q} belongs to tick {k} with spacing {sp}: {got:?}, expected {want}")); }
                }
            }
            let valid = k % sp as i32 == 0 && k.abs() <= m::max_tick(sp);
            if t.call(|| math::check_tick(k, sp).is_ok()) != valid { t.bad("admissible", format!("tick {k} with spacing {sp}: expected {valid}")); }
            if k.abs() < 3 || k.abs() > m::MAX_TICK - 2 * sp as i32 {
                for (lo, hi) in [(k, k), (k, 0), (0, k), (k, k + sp as i32), (k + sp as i32, k), (k, m::max_tick(sp)), (-m::max_tick(sp), k)] {
                    let ok = |x: i32| x % sp as i32 == 0 && x.abs() <= m::max_tick(sp);
                    let want = lo <= hi && ok(lo) && ok(hi);
                    if t.call(|| math::check_ticks(lo, hi, sp).is_ok()) != want { t.bad("admissible", format!("range {lo}..{hi} with spacing {sp}: expected {want}")); }
                }
                let e = (get_max_tick(sp), get_min_tick(sp), get_max_sqrt_price(sp).get(), get_min_sqrt_price(sp).get());
                let w = (m::max_tick(sp), -m::max_tick(sp), m::tick_price_u(m::max_tick(sp)), m::tick_price_u(-m::max_tick(sp)));
                if e != w { t.bad("ends", format!("ends of the range with spacing {sp}: {e:?}, expected {w:?}")); }
            }
        }),
        show: Box::new(move |i| format!("tick {} with spacing {}", (i % ticks) as i32 - m::MAX_TICK, sp2[(i / ticks) as usize])),
    }
}

// ---- A03: swap steps ------------------------------------------------------------------------------

pub fn price_list(deep: bool) -> Vec<u128> {
    let one = m::PRICE_ONE;
    let mut v = vec![m::MIN_PRICE, m::MIN_PRICE + 1, one - 1, one, one + 1, m::MAX_PRICE - 1, m::MAX_PRICE];
    let ticks: &[i32] = if deep { &[-221_000, -200_000, -100_000, -50_000, -20_000, -1_000, -100, -10, -2, -1, 1, 2, 10, 100, 1_000, 20_000, 50_000, 100_000, 200_000, 221_000] } else { &[-200_000, -20_000, -10, -1, 1, 10, 20_000, 200_000] };
    for t in ticks { v.push(m::tick_price_u(*t)); }
    if deep { for t in [-200_000, 1, 200_000] { v.push(m::tick_price_u(t) + 1); v.push(m::tick_price_u(t) - 1); } v.push(one * 2); v.push(one / 3); }
    if more() { for k in -11i32..=11 { v.push(m::tick_price_u(k * 20_000 + 3)); } }
    v.sort(); v.dedup(); v
}
pub fn liq_list(deep: bool) -> Vec<N> {
    let mut v: Vec<N> = [0u128, 1, 2, 99_999, 100_000, 100_001, 100_000_000_000, 10u128.pow(23), u128::MAX].into_iter().map(n).collect();
    v.push(m::max_liq_per_tick(1)); v.push(one() << 200u32);
    if deep { for x in [3u128, 7, 50_000, 200_000, 300_000, 12_345_678, 10u128.pow(15), 10u128.pow(30)] { v.push(n(x)); } v.push((one() << 128u32) + 1); v.push(m::max_liq_per_tick(100)); v.push((one() << 256u32) - 1); }
    if more() { for k in 6..40 { v.push(p10(k)); } }
    v.sort(); v.dedup(); v
}
pub fn amount_list(deep: bool) -> Vec<N> {
    let mut v: Vec<N> = [0u128, 1, 2, 3, 10, 100, 999_999, 10u128.pow(12), 10u128.pow(18), u128::MAX].into_iter().map(n).collect();
    v.push(one() << 128u32); v.push(one() << 175u32); v.push((one() << 256u32) - 1);
    if deep { for x in [4u128, 5, 7, 50, 1000, 65_535, 65_536, 10u128.pow(6), 10u128.pow(9), 10u128.pow(24), 10u128.pow(30)] { v.push(n(x)); } v.push(one() << 150u32); v.push(one() << 200u32); v.push(one() << 255u32); }
    if more() { for k in 1..40 { v.push(p10(k) * 3); } }
    v.sort(); v.dedup(); v
}
pub const FEES: [u128; 9] = [0, 1, 6_000_000_000, 10_000_000_000, 300_000_000_000, 500_000_000_000, 999_999_999_999, 1_000_000_000_000, 100_000_000];

/// A swap step against the reference, and against the exact curve independently of it.
fn step_case(cur: u128, target: u128, l: &N, amount: &N, by_in: bool, fee: u128, t: &mut Tally) {
    let what = || format!("step from {cur} to {target}, liquidity {l}, {} {amount}, fee {fee}", if by_in { "input" } else { "output" });
    let (a, b) = (SqrtPrice::new(cur), SqrtPrice::new(target));
    let got = tried_r(t, || math::compute_swap_step(a, b, liq(l), tok(amount), by_in, pct(fee)));
    let want = m::swap_step(&n(cur), &n(target), l, amount, by_in, fee);
    let g = got.map(|s| m::Step { next: s.next_sqrt_price.n(), a_in: s.amount_in.n(), a_out: s.amount_out.n(), fee: s.fee_amount.n() });
    match (&g, &want) {
        (Some(x), Ok(y)) if x == y => t.saw("step"),
        (None, Err(_)) => { t.saw("refused"); return; }
        _ => t.bad("wrong", format!("{}: {g:?}, expected {want:?}", what())),
    }
    let Some(s) = g else { return };
    if l.is_zero() { return; }
    let (cur, target) = (n(cur), n(target));
    let down = cur >= target;
    // never past the target, never backwards
    let between = if down { s.next <= cur && s.next >= target } else { s.next >= cur && s.next <= target };
    if !between { t.bad("target", format!("{}: next price {}", what(), s.next)); }
    // exact amounts along the curve: x = d*L/(a*b), y = d*L (scaled); in rounded up, out rounded down
    let d = if s.next > cur { &s.next - &cur } else { &cur - &s.next };
    let (xn, xd) = (&d * l * n(m::PRICE_ONE), &s.next * &cur * n(m::LIQ_ONE));
    let (yn, yd) = (&d * l, n(m::LIQ_ONE) * n(m::PRICE_ONE));
    let (i, o) = if down { ((&xn, &xd), (&yn, &yd)) } else { ((&yn, &yd), (&xn, &xd)) };
    // the price difference times the liquidity is held with 24 decimals, its last digit may be lost
    let ulp = if down { n(m::LIQ_ONE) * n(m::PRICE_ONE) } else { zero() };
    if &s.a_in * i.1 + &ulp < *i.0 { t.bad("favour", format!("{}: input {} below the curve's", what(), s.a_in)); }
    if &s.a_out * o.1 > *o.0 { t.bad("favour", format!("{}: output {} above the curve's", what(), s.a_out)); }
    if by_in && &s.a_in + &s.fee > *amount { t.bad("amount", format!("{}: takes {} + {}", what(), s.a_in, s.fee)); }
    if by_in && s.next != target && &s.a_in + &s.fee != *amount { t.bad("amount", format!("{}: stops early with {} + {}", what(), s.a_in, s.fee)); }
    if !by_in && s.a_out > *amount { t.bad("amount", format!("{}: gives {}", what(), s.a_out)); }
    // stopping early the fee is all that the price does not take; otherwise the full rate, rounded up
    if (s.next == target || !by_in) && &s.fee * n(m::PCT_ONE) < &s.a_in * n(fee) { t.bad("fee", format!("{}: fee {} on {}", what(), s.fee, s.a_in)); }
}
pub fn steps(deep: bool) -> Enumeration {
    let (p, l, a) = (price_list(deep), liq_list(deep), amount_list(deep));
    let radix = vec![p.len(), p.len(), l.len(), a.len(), FEES.len(), 2];
    let size = radix.iter().map(|x| *x as u64).product();
    let (r2, p2, l2, a2) = (radix.clone(), p.clone(), l.clone(), a.clone());
    Enumeration {
        name: "swap steps, wide".into(), rule: "all combinations of listed start and target prices over the whole range, liquidity, amounts, fees, exact in and out".into(), size,
        case: Box::new(move |i, t| { let d = digits(i, &radix); step_case(p[d[0]], p[d[1]], &l[d[2]], &a[d[3]], d[5] == 0, FEES[d[4]], t); }),
        show: Box::new(move |i| { let d = digits(i, &r2); format!("from {} to {}, liquidity {}, amount {}, fee {}, by_in {}", p2[d[0]], p2[d[1]], l2[d[2]], a2[d[3]], FEES[d[4]], d[5] == 0) }),
    }
}
/// Small numbers, without gaps: every amount around the target of a narrow step.
pub fn small_steps(deep: bool) -> Enumeration {
    let starts = [m::PRICE_ONE, m::tick_price_u(20_000), m::tick_price_u(-20_000), m::tick_price_u(100) + 12345];
    let ticks: Vec<i32> = if deep { vec![-300, -100, -60, -20, -10, -5, -3, -2, -1, 1, 2, 3, 5, 10, 20, 60, 100, 300] } else { vec![-100, -10, -2, -1, 1, 2, 10, 100] };
    let ls: Vec<N> = [100_000u128, 300_000, 1_234_567, 10_000_000, 100_000_000_000, 700_000_000_000].into_iter().map(n).collect();
    let amounts = if more() { 5000 } else if deep { 600 } else { 200 };
    let radix = vec![starts.len(), ticks.len(), ls.len(), amounts, FEES.len(), 2];
    let size = radix.iter().map(|x| *x as u64).product();
    let dec = move |i: u64| {
        let d = digits(i, &radix);
        let cur = starts[d[0]];
        // the target this many ticks away from the start
        let k = m::tick_at(cur, 1) + ticks[d[1]];
        (cur, m::tick_price_u(k), ls[d[2]].clone(), n(d[3] as u32), d[5] == 0, FEES[d[4]])
    };
    let dec2 = dec.clone();
    Enumeration {
        name: "swap steps, narrow".into(), rule: "every amount from 0 without gaps, small liquidity, targets 1 to 300 ticks away".into(), size,
        case: Box::new(move |i, t| { let (c, g, l, a, b, f) = dec(i); step_case(c, g, &l, &a, b, f, t); }),
        show: Box::new(move |i| format!("{:?}", dec2(i))),
    }
}
pub fn deltas(deep: bool) -> Enumeration {
    let (p, l, a) = (price_list(deep), liq_list(deep), amount_list(deep));
    let radix = vec![p.len(), p.len(), l.len(), a.len()];
    let size = radix.iter().map(|x| *x as u64).product();
    let (r2, p2, l2, a2) = (radix.clone(), p.clone(), l.clone(), a.clone());
    Enumeration {
        name: "token amounts and price moves".into(), rule: "all pairs of listed prices with every liquidity; every price with every liquidity and amount".into(), size,
        case: Box::new(move |i, t| {
            let d = digits(i, &radix);
            let (q, r, l, x) = (p[d[0]], p[d[1]], &l[d[2]], &a[d[3]]);
            let (sq, sr) = (SqrtPrice::new(q), SqrtPrice::new(r));
            if d[3] == 0 {
                for up in [false, true] {
                    for (nm, got, want, num, den) in [
                        ("x", tried_r(t, || math::get_delta_x(sq, sr, liq(l), up)), m::delta_x(&n(q), &n(r), l, up), n(q.abs_diff(r)) * l * n(m::PRICE_ONE), n(q) * n(r) * n(m::LIQ_ONE)),
                        ("y", tried_r(t, || math::get_delta_y(sq, sr, liq(l), up)), m::delta_y(&n(q), &n(r), l, up), n(q.abs_diff(r)) * l, n(m::LIQ_ONE) * n(m::PRICE_ONE))] {
                        let g = got.map(|v| v.n());
                        judge(t, &format!("amount of {nm} between {q} and {r} for {l}, up {up}"), g.clone(), want.ok(), 256, true);
                        if let Some(g) = g { if up && &g * &den + (if nm == "x" { n(m::LIQ_ONE) * n(m::PRICE_ONE) } else { zero() }) < num || !up && &g * &den > num { t.bad("favour", format!("amount of {nm} between {q} and {r} for {l}, up {up}: {g}")); } }
                    }
                }
            }
            if d[1] == 0 {
                for add in [false, true] {
                    let got = tried_r(t, || math::get_next_sqrt_price_x_up(sq, liq(l), tok(x), add)).map(|v| v.n());
                    let want = m::next_price_x(&n(q), l, x, add).ok();
                    // a price beyond the range may or may not be reported as a failure: swaps never ask for it
                    judge(t, &format!("price after {} {x} of x at {q} with {l}", if add { "adding" } else { "removing" }), got, want, 128, true);
                    for fee in [0, 10_000_000_000, 999_999_999_999u128] { for x_to_y in [false, true] {
                        let got = tried_r(t, || math::is_enough_amount_to_change_price(tok(x), sq, liq(l), pct(fee), add, x_to_y));
                        let want = m::moves_price(x, &n(q), l, fee, add, x_to_y).ok();
                        if want.is_some() && got != want { t.bad("moves", format!("{x} moves the price {q} at {l}, fee {fee}, by_in {add}, x_to_y {x_to_y}: {got:?}, expected {want:?}")); } else { t.saw("moves"); }
                    } }
                }
            }
        }),
        show: Box::new(move |i| { let d = digits(i, &r2); format!("prices {} and {}, liquidity {}, amount {}", p2[d[0]], p2[d[1]], l2[d[2]], a2[d[3]]) }),
    }
}

// ---- A04: amounts of ranges -------------------------------------------------------------------------

pub fn more_ticks(mut v: Vec<i32>) -> Vec<i32> {
    if more() { for k in -11i32..=11 { v.push(k * 20_000 + 7 * k); } v.sort(); v.dedup(); }
    v
}
pub fn ranges(deep: bool) -> Enumeration {
    let ticks: Vec<i32> = if deep { vec![-221_818, -221_817, -200_000, -100_000, -20_000, -1000, -100, -20, -10, -1, 0, 1, 10, 20, 100, 1000, 20_000, 100_000, 200_000, 221_817, 221_818] } else { vec![-221_818, -200_000, -20_000, -100, -10, -1, 0, 1, 10, 100, 20_000, 200_000, 221_818] };
    let ticks = more_ticks(ticks);
    let l = liq_list(deep);
    let radix = vec![ticks.len(), ticks.len(), ticks.len(), 4, l.len()];
    let size = radix.iter().map(|x| *x as u64).product();
    let dec = move |i: u64| {
        let d = digits(i, &radix);
        let cur = ticks[d[2]];
        // the price somewhere inside the current tick
        let (a, b) = (m::tick_price_u(cur), if cur < m::MAX_TICK { m::tick_price_u(cur + 1) } else { m::MAX_PRICE + 1 });
        let p = [a, a + 1, a + (b - a) / 2, b - 1][d[3]].min(m::MAX_PRICE);
        (ticks[d[0]], ticks[d[1]], cur, p, l[d[4]].clone())
    };
    let dec2 = dec.clone();
    Enumeration {
        name: "tokens of ranges".into(), rule: "all ranges between listed ticks, prices at the edges and inside of every listed tick, every listed liquidity, opening and closing".into(), size,
        case: Box::new(move |i, t| {
            let (lo, hi, cur, p, l) = dec(i);
            let mut both = vec![];
            for up in [true, false] {
                let got = tried_r(t, || math::calculate_amount_delta(cur, SqrtPrice::new(p), liq(&l), up, hi, lo)).map(|(x, y, u)| (x.n(), y.n(), u));
                let want = m::range_amounts(cur, &n(p), &l, up, lo, hi).ok();
                if got != want { t.bad("wrong", format!("tokens of {l} in {lo}..{hi} at tick {cur}, price {p}, opening {up}: {got:?}, expected {want:?}")); } else { t.saw("amounts"); }
                both.extend(got);
            }
            if let [a, b] = &both[..] {
                if b.0 > a.0 || b.1 > a.1 { t.bad("favour", format!("closing {l} in {lo}..{hi} at {p} returns {b:?}, opening costs {a:?}")); }
            }
        }),
        show: Box::new(move |i| format!("{:?}", dec2(i))),
    }
}
/// Liquidity for given token amounts: it can be opened with at most these amounts.
pub fn liquidity_for(deep: bool) -> Enumeration {
    let ticks: Vec<i32> = if deep { vec![-221_818, -200_000, -100_000, -20_000, -1000, -100, -20, -10, -1, 0, 1, 10, 20, 100, 1000, 20_000, 100_000, 200_000, 221_818] } else { vec![-221_818, -20_000, -100, -10, 0, 10, 100, 20_000, 221_818] };
    let amounts: Vec<N> = if deep { [0u128, 1, 2, 3, 10, 100, 12_345, 10u128.pow(6), 10u128.pow(9), 10u128.pow(12), 10u128.pow(18), 10u128.pow(24), u128::MAX].into_iter().map(n).collect() } else { [0u128, 1, 3, 100, 12_345, 10u128.pow(9), 10u128.pow(18), 10u128.pow(24)].into_iter().map(n).collect() };
    let ticks = more_ticks(ticks);
    let radix = vec![ticks.len(), ticks.len(), ticks.len(), 3, amounts.len(), amounts.len()];
    let size = radix.iter().map(|x| *x as u64).product();
    let dec = move |i: u64| {
        let d = digits(i, &radix);
        let cur = ticks[d[2]];
        let (a, b) = (m::tick_price_u(cur), if cur < m::MAX_TICK { m::tick_price_u(cur + 1) } else { m::MAX_PRICE + 1 });
        let p = [a, a + (b - a) / 2, b - 1][d[3]].min(m::MAX_PRICE);
        (ticks[d[0]], ticks[d[1]], cur, p, amounts[d[4]].clone(), amounts[d[5]].clone())
    };
    let dec2 = dec.clone();
    Enumeration {
        name: "liquidity of amounts".into(), rule: "all ranges between listed ticks, prices at the edges and inside of every listed tick, every pair of listed amounts".into(), size,
        case: Box::new(move |i, t| {
            let (lo, hi, cur, p, x, y) = dec(i);
            if lo >= hi { return; }
            let price = SqrtPrice::new(p);
            let (pl, ph) = (n(m::tick_price_u(lo)), n(m::tick_price_u(hi)));
            let what = format!("liquidity of {x} x and {y} y in {lo}..{hi} at price {p}");
            let need = |l: &N, up: bool| m::range_amounts(cur, &n(p), l, up, lo, hi).ok();
            // what the curve allows for each amount alone, as a fraction; None: no bound
            let (np, nl) = (n(p), n(m::LIQ_ONE));
            let by_x = (np < ph).then(|| { let a = if np > pl { &np } else { &pl }; (&x * a * &ph * &nl, (&ph - a) * n(m::PRICE_ONE)) });
            let by_y = (np > pl).then(|| { let b = if np < ph { &np } else { &ph }; (&y * n(m::PRICE_ONE) * &nl, b - &pl) });
            // not above it, and not needlessly below: 10^-13 of it at most
            let tight = |l: &N, f: &(N, N)| l * &f.1 <= f.0 && (l + 1) * &f.1 * p10(13) >= &f.0 * (p10(13) - 1);
            let loose = |l: &N, f: &(N, N)| l * &f.1 <= f.0;
            let check = |t: &mut Tally, fname: &str, l: N, rx: N, ry: N, has_x: Option<&N>, has_y: Option<&N>, up: bool| {
                let Some((nx, ny, _)) = need(&l, true) else { t.saw("needs more than representable"); return };
                if has_x.is_some_and(|x| nx > *x) || has_y.is_some_and(|y| ny > *y) { t.bad("unaffordable", format!("{fname}: {what}: {l} needs {nx} x and {ny} y")); return; }
                if has_x.is_some_and(|x| rx > *x) || has_y.is_some_and(|y| ry > *y) { t.bad("exceeds", format!("{fname}: {what}: {l} is reported to take {rx} x and {ry} y")); return; }
                // rounded up, the reported amounts suffice
                if up && (rx < nx || ry < ny) { t.bad("short", format!("{fname}: {what}: {l} needs {nx} x and {ny} y, reported {rx} and {ry}")); return; }
                t.saw("affordable");
            };
            for up in [true, false] {
                // beyond 2^120 of liquidity it may be refused as too large
                let must = by_x.iter().chain(by_y.iter()).all(|f| f.0.bits() < f.1.bits() + 120);
                let got = tried_r(t, || contracts::get_liquidity(tok(&x), tok(&y), lo, hi, price, up));
                if got.is_none() { if must { t.bad("refused", format!("get_liquidity: {what} fails")); } else { t.saw("refused"); } }
                if let Some(r) = got {
                    let l = r.l.n();
                    let ok = match (&by_x, &by_y) { (Some(a), Some(b)) => loose(&l, a) && loose(&l, b) && (tight(&l, a) || tight(&l, b)), (Some(a), None) | (None, Some(a)) => tight(&l, a), _ => true };
                    if !ok { t.bad("amount", format!("get_liquidity: {what}: {l}")); }
                    check(t, "get_liquidity", r.l.n(), r.x.n(), r.y.n(), Some(&x), Some(&y), up);
                }
                if let Some(r) = tried_r(t, || contracts::get_liquidity_by_x(tok(&x), lo, hi, price, up)) {
                    if by_x.as_ref().is_some_and(|f| !tight(&r.l.n(), f)) { t.bad("amount", format!("get_liquidity_by_x: {what}: {}", r.l.n())); }
                    check(t, "get_liquidity_by_x", r.l.n(), x.clone(), r.amount.n(), Some(&x), None, up); }
                if let Some(r) = tried_r(t, || contracts::get_liquidity_by_y(tok(&y), lo, hi, price, up)) {
                    if by_y.as_ref().is_some_and(|f| !tight(&r.l.n(), f)) { t.bad("amount", format!("get_liquidity_by_y: {what}: {}", r.l.n())); }
                    check(t, "get_liquidity_by_y", r.l.n(), r.amount.n(), y.clone(), None, Some(&y), up); }
            }
        }),
        show: Box::new(move |i| format!("{:?}", dec2(i))),
    }
}

// ---- A05: fee accounting -------------------------------------------------------------------------

pub fn growths(deep: bool) -> Vec<N> { edges(128, 28, deep) }
pub fn growth(deep: bool) -> Enumeration {
    let mut v: Vec<Pairs> = vec![];
    let g = Rc::new(growths(deep));
    v.push(Pairs { name: "wrapping growth".into(), a: g.clone(), b: g.clone(), case: Box::new(|a, b, t| {
        let (x, y) = (FeeGrowth::new(to128(a).unwrap()), FeeGrowth::new(to128(b).unwrap()));
        let r = tried(t, || x.unchecked_add(y)).map(|v| v.n()); judge(t, &format!("growth {a} + {b}"), r, Some(m::wrap(a + b)), 128, true);
        let r = tried(t, || x.unchecked_sub(y)).map(|v| v.n()); judge(t, &format!("growth {a} - {b}"), r, Some(m::wrap(a - b)), 128, true);
        let (x, y) = (SecondsPerLiquidity::new(x.get()), SecondsPerLiquidity::new(y.get()));
        let r = tried(t, || x.unchecked_add(y)).map(|v| n(v.get())); judge(t, &format!("seconds {a} + {b}"), r, Some(m::wrap(a + b)), 128, true);
        let r = tried(t, || x.unchecked_sub(y)).map(|v| n(v.get())); judge(t, &format!("seconds {a} - {b}"), r, Some(m::wrap(a - b)), 128, true);
    }) });
    let ls = Rc::new(edges(256, 5, deep));
    let fees = Rc::new(edges(256, 0, deep));
    v.push(Pairs { name: "growth of a fee".into(), a: ls.clone(), b: fees.clone(), case: Box::new(|l, fee, t| {
        let num = fee * n(m::FG_ONE) * n(m::LIQ_ONE);
        let r = tried_r(t, || FeeGrowth::from_fee(liq(l), tok(fee))).map(|v| v.n());
        judge(t, &format!("growth of fee {fee} on {l}"), r, (!l.is_zero()).then(|| fdiv(&num, l)), 128, num.bits() <= 384);
    }) });
    v.push(Pairs { name: "fee of a growth".into(), a: g.clone(), b: ls, case: Box::new(|g, l, t| {
        let r = tried_r(t, || FeeGrowth::new(to128(g).unwrap()).to_fee(liq(l))).map(|v| v.n());
        judge(t, &format!("fee of growth {g} on {l}"), r, Some(fdiv(&(g * l), &(n(m::FG_ONE) * n(m::LIQ_ONE)))), 256, true);
        // what a fee adds to the growth never pays out more than the fee
    }) });
    v.push(Pairs { name: "minimum output".into(), a: fees, b: Rc::new(edges(128, 12, deep)), case: Box::new(|x, s, t| {
        let rest = n(m::PCT_ONE) - s;
        let num = x * &rest;
        let r = tried(t, || math::calculate_min_amount_out(tok(x), pct(to128(s).unwrap()))).map(|v| v.n());
        judge(t, &format!("minimum of {x} with slippage {s}"), r, (!neg(&rest)).then(|| cdiv(&num, &n(m::PCT_ONE))), 256, true);
    }) });
    pairs_enum("growth and fees", "all pairs of boundary values: wrapping sums and differences, fee to growth and back, minimum output", v)
}
/// Growth inside a range, for every position of the current tick and wrapped counters.
pub fn inside(deep: bool) -> Enumeration {
    let g: Vec<u128> = if deep { vec![0, 1, 2, 1000, 10u128.pow(28), 1 << 64, u128::MAX / 2, u128::MAX / 2 + 1, u128::MAX - 1000, u128::MAX - 1, u128::MAX] } else { vec![0, 1, 1000, 10u128.pow(28), u128::MAX / 2 + 1, u128::MAX - 1, u128::MAX] };
    let cur = [-3i32, -2, -1, 0, 1, 2, 3, 221_818, -221_818];
    let radix = vec![g.len(), g.len(), g.len(), cur.len(), g.len()];
    let size = radix.iter().map(|x| *x as u64).product();
    let (r2, g2) = (radix.clone(), g.clone());
    Enumeration {
        name: "growth inside a range".into(), rule: "all combinations of listed counters (lower, upper, global; small, middle, about to wrap) for every position of the current tick".into(), size,
        case: Box::new(move |i, t| {
            let d = digits(i, &radix);
            // y uses a different combination of the same values, so that mixing up the tokens shows
            let (lx, ux, gx, c) = (g[d[0]], g[d[1]], g[d[2]], cur[d[3]]);
            let (ly, uy, gy) = (g[d[4]], g[d[0]], g[d[1]]);
            let f = FeeGrowth::new;
            let got = tried(t, || calculate_fee_growth_inside(-2, f(lx), f(ly), 2, f(ux), f(uy), c, f(gx), f(gy))).map(|(a, b)| (a.n(), b.n()));
            let one = |l: u128, u: u128, gl: u128| {
                let below = if c >= -2 { n(l) } else { n(gl) - n(l) };
                let above = if c < 2 { n(u) } else { n(gl) - n(u) };
                m::wrap(n(gl) - below - above)
            };
            let want = Some((one(lx, ux, gx), one(ly, uy, gy)));
            if got != want { t.bad("wrong", format!("growth inside -2..2 at {c}: lower {lx}/{ly}, upper {ux}/{uy}, global {gx}/{gy}: {got:?}, expected {want:?}")); } else { t.saw("inside"); }
        }),
        show: Box::new(move |i| { let d = digits(i, &r2); format!("lower {} upper {} global {} current {}", g2[d[0]], g2[d[1]], g2[d[2]], cur[d[3]]) }),
    }
}
pub fn tick_limits() -> Enumeration {
    Enumeration {
        name: "liquidity per tick".into(), rule: "every tick spacing".into(), size: 65_535,
        case: Box::new(|i, t| {
            let sp = i as u16 + 1;
            let got = tried(t, || math::calculate_max_liquidity_per_tick(sp)).map(|v| v.n());
            let ticks = n(2 * m::MAX_TICK + 1) / n(sp);
            judge(t, &format!("largest liquidity per tick with spacing {sp}"), got, Some(m::max_liq_per_tick(sp)), 256, true);
            // all ticks of the spacing together cannot overflow the pool's liquidity
            if m::max_liq_per_tick(sp) * ticks > (one() << 256u32) - 1 { t.bad("overflow", format!("spacing {sp}")); }
            let chunk = tried(t, || contracts::get_max_chunk(sp));
            let want = (m::max_tick(sp) + m::MAX_TICK) / sp as i32 / 64;
            if chunk != Some(want as u16) { t.bad("chunk", format!("last chunk with spacing {sp}: {chunk:?}, expected {want}")); }
        }),
        show: Box::new(|i| format!("spacing {}", i + 1)),
    }
}

// ---- A06: the tick map -----------------------------------------------------------------------------

fn some_key(k: u8) -> contracts::PoolKey {
    contracts::PoolKey { token_x: sails_rs::ActorId::from([1u8; 32]), token_y: sails_rs::ActorId::from([2u8; 32]), fee_tier: contracts::FeeTier { fee: Percentage::new(k as u128), tick_spacing: 1 } }
}
/// Every tick has one place in the map and no other tick shares it.
pub fn places(deep: bool) -> Enumeration {
    let sps: Vec<u16> = if deep { (1..=100).chain([128, 1000, 4096, 65_535]).collect() } else { SPACINGS.into() };
    let ticks = 2 * m::MAX_TICK as u64 + 1;
    let sp2 = sps.clone();
    Enumeration {
        name: "places of ticks".into(), rule: "every tick with every listed spacing".into(), size: ticks * sps.len() as u64,
        case: Box::new(move |i, t| {
            let (k, sp) = ((i % ticks) as i32 - m::MAX_TICK, sps[(i / ticks) as usize]);
            let got = tried(t, || contracts::tick_to_position(k, sp));
            if k % sp as i32 != 0 { if let Some(p) = got { t.bad("divisible", format!("tick {k} with spacing {sp} has place {p:?}")); } return; }
            let idx = k / sp as i32 + m::MAX_TICK / sp as i32;
            let want = ((idx / 64) as u16, (idx % 64) as u8);
            if got != Some(want) { t.bad("place", format!("tick {k} with spacing {sp}: place {got:?}, expected {want:?}")); }
            let back = tried(t, || contracts::position_to_tick(want.0, want.1, sp));
            if back != Some(k) { t.bad("back", format!("place {want:?} with spacing {sp}: tick {back:?}, expected {k}")); }
            for up in [true, false] {
                let got = tried(t, || contracts::get_search_limit(k, sp, up));
                let q = k / sp as i32;
                let want = if up { (q + 256).min(m::MAX_TICK / sp as i32) } else { (q - 256).max(-(m::MAX_TICK / sp as i32)) } * sp as i32;
                if got != Some(want) { t.bad("limit", format!("search limit from {k} with spacing {sp}, up {up}: {got:?}, expected {want}")); }
            }
            t.saw("place");
        }),
        show: Box::new(move |i| format!("tick {} with spacing {}", (i % ticks) as i32 - m::MAX_TICK, sp2[(i / ticks) as usize])),
    }
}
/// All sets of up to three initialized ticks among the interesting distances from a start tick.
pub fn searches(deep: bool) -> Enumeration {
    let dist: Vec<i32> = if deep { vec![0, 1, 2, 3, 30, 31, 32, 33, 61, 62, 63, 64, 65, 66, 126, 127, 128, 129, 190, 191, 192, 193, 254, 255, 256, 257, 258, 300, 320] } else { vec![0, 1, 2, 31, 62, 63, 64, 65, 127, 128, 129, 192, 254, 255, 256, 257, 320] };
    let mut off: Vec<i32> = dist.iter().flat_map(|d| [*d, -*d]).collect();
    off.sort(); off.dedup();
    let sps: Vec<i32> = if deep { vec![1, 2, 3, 5, 10, 64, 100, 200] } else { vec![1, 2, 10, 100] };
    // start positions relative to a chunk boundary, to tick zero and to both ends (in units of the spacing)
    let starts: Vec<i32> = if deep { (-66..=66).collect() } else { vec![-65, -64, -63, -32, -2, -1, 0, 1, 2, 31, 63, 64, 65] };
    let mut sets: Vec<Vec<i32>> = vec![vec![]];
    for i in 0..off.len() { sets.push(vec![off[i]]); for j in i + 1..off.len() { sets.push(vec![off[i], off[j]]); if deep { for k in (j + 1..off.len()).step_by(if more() { 1 } else { 10 }) { sets.push(vec![off[i], off[j], off[k]]); } } } }
    let radix = vec![sets.len(), starts.len(), 3, sps.len()];
    let size = radix.iter().map(|x| *x as u64).product();
    let dec = move |i: u64| {
        let d = digits(i, &radix);
        let sp = sps[d[3]];
        let end = m::MAX_TICK / sp;
        // anchored at zero, at the lowest and at the highest tick
        let at = match d[2] { 0 => starts[d[1]], 1 => -end + (starts[d[1]] - starts[0]), _ => end - (starts[d[1]] - starts[0]) };
        let set: Vec<i32> = sets[d[0]].iter().map(|o| at + o).filter(|x| x.abs() <= end).collect();
        (sp, at, set)
    };
    let dec2 = dec.clone();
    Enumeration {
        name: "searches in the tick map".into(), rule: "all sets of up to two (thorough: three) initialized ticks at listed distances, start ticks around chunk boundaries and both ends, listed spacings, both directions, price limits at and next to the found tick".into(), size,
        case: Box::new(move |i, t| {
            let (sp, at, set) = dec(i);
            let (key, other) = (some_key(1), some_key(2));
            let mut map = contracts::Tickmap::default();
            // the other pool's ticks must not be seen
            for k in -3..=3 { let x = at + k; if x.abs() <= m::MAX_TICK / sp && !set.contains(&x) { map.flip(true, x * sp, sp as u16, other); } }
            for x in &set { if tried(t, || map.flip(true, x * sp, sp as u16, key)).is_none() { t.bad("flip", format!("setting tick {} with spacing {sp}", x * sp)); return; } }
            for o in -1..=1 { let x = at + o; if x.abs() <= m::MAX_TICK / sp {
                if t.call(|| map.get(x * sp, sp as u16, key)) != set.contains(&x) { t.bad("get", format!("tick {} with spacing {sp}, set {set:?}", x * sp)); }
            } }
            let tick = at * sp;
            let what = format!("from tick {tick}, spacing {sp}, initialized (in spacings) {set:?}");
            let end = m::MAX_TICK / sp;
            let up = set.iter().copied().filter(|x| *x > at && *x <= (at + 256).min(end)).min().map(|x| x * sp);
            let down = set.iter().copied().filter(|x| *x <= at && *x >= (at - 256).max(-end)).max().map(|x| x * sp);
            let g = tried(t, || map.next_initialized(tick, sp as u16, key)); if g != Some(up) { t.bad("next", format!("next {what}: {g:?}, expected {up:?}")); }
            let g = tried(t, || map.prev_initialized(tick, sp as u16, key)); if g != Some(down) { t.bad("prev", format!("previous {what}: {g:?}, expected {down:?}")); }
            for x_to_y in [false, true] {
                let (found, lim) = if x_to_y { (down, (at - 256).max(-end) * sp) } else { (up, (at + 256).min(end) * sp) };
                let k = found.unwrap_or(lim);
                let p = m::tick_price_u(k);
                for limit in [p - 1, p, p + 1, m::MIN_PRICE, m::MAX_PRICE] {
                    let got = tried(t, || map.get_closer_limit(SqrtPrice::new(limit), x_to_y, tick, sp as u16, key).map(|(p, b)| (p.get(), b)));
                    let want = if found.is_none() && lim == tick { None } else if x_to_y && p > limit || !x_to_y && (p < limit || p == limit && found.is_some()) { Some((p, Some((k, found.is_some())))) } else { Some((limit, None)) };
                    if got.clone().and_then(|r| r.ok()) != want { t.bad("closer", format!("boundary {what}, x_to_y {x_to_y}, limit {limit}: {got:?}, expected {want:?}")); }
                }
            }
            for x in &set { if tried(t, || map.flip(false, x * sp, sp as u16, key)).is_none() { t.bad("flip", format!("clearing tick {} with spacing {sp}", x * sp)); } }
            let g = tried(t, || map.next_initialized(tick, sp as u16, key)); if g != Some(None) { t.bad("next", format!("next {what} after clearing: {g:?}")); }
            t.saw("search");
        }),
        show: Box::new(move |i| format!("{:?}", dec2(i))),
    }
}
