//! Unbounded arithmetic used by the reference model, and conversions from contract types.
use decimal::{Decimal, U256};
use math::{fee_growth::FeeGrowth, liquidity::Liquidity, percentage::Percentage, sqrt_price::SqrtPrice, token_amount::TokenAmount};
use num_bigint::{BigInt, Sign};
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};

pub type N = BigInt;
pub fn n<T: Into<BigInt>>(x: T) -> N { x.into() }
pub fn p10(k: u32) -> N { BigInt::from(10).pow(k) }
pub fn fdiv(a: &N, b: &N) -> N { a.div_floor(b) }
pub fn cdiv(a: &N, b: &N) -> N { -((-a).div_floor(b)) }
pub fn zero() -> N { BigInt::zero() }
pub fn one() -> N { BigInt::one() }
pub fn neg(a: &N) -> bool { a.is_negative() }

pub fn of256(x: U256) -> N {
    let mut b = [0u8; 32];
    for i in 0..4 { b[i * 8..i * 8 + 8].copy_from_slice(&x.0[i].to_le_bytes()); }
    BigInt::from_bytes_le(Sign::Plus, &b)
}
pub fn limbs(a: &N, k: usize) -> Option<Vec<u64>> {
    if a.is_negative() { return None; }
    let mut v: Vec<u64> = a.iter_u64_digits().collect();
    if v.len() > k { return None; }
    v.resize(k, 0);
    Some(v)
}
pub fn to256(a: &N) -> Option<U256> { limbs(a, 4).map(|v| U256([v[0], v[1], v[2], v[3]])) }
pub fn to128(a: &N) -> Option<u128> { a.to_u128() }
pub fn tok(a: &N) -> TokenAmount { TokenAmount::new(to256(a).expect("token amount in range")) }
pub fn liq(a: &N) -> Liquidity { Liquidity::new(to256(a).expect("liquidity in range")) }
pub fn prc(a: &N) -> SqrtPrice { SqrtPrice::new(to128(a).expect("price in range")) }
pub fn pct(a: u128) -> Percentage { Percentage::new(a) }

pub trait ToN { fn n(&self) -> N; }
impl ToN for TokenAmount { fn n(&self) -> N { of256(self.get()) } }
impl ToN for Liquidity { fn n(&self) -> N { of256(self.get()) } }
impl ToN for SqrtPrice { fn n(&self) -> N { BigInt::from(self.get()) } }
impl ToN for FeeGrowth { fn n(&self) -> N { BigInt::from(self.get()) } }
impl ToN for Percentage { fn n(&self) -> N { BigInt::from(self.get()) } }
impl ToN for U256 { fn n(&self) -> N { of256(*self) } }
impl ToN for u128 { fn n(&self) -> N { BigInt::from(*self) } }
