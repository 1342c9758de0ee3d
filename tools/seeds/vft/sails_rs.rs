pub use std::collections;
pub mod gstd { pub fn service() {} }
pub mod prelude {
    pub use std::{string::String, vec::Vec};
    pub type ActorId = u64;
    #[derive(Clone, Copy, PartialEq, Eq, Default, Debug, PartialOrd, Ord)]
    pub struct U256(pub u128);
    impl U256 {
        pub const MAX: U256 = U256(u128::MAX);
        pub fn zero() -> Self { U256(0) }
        pub fn is_zero(&self) -> bool { self.0 == 0 }
        pub fn checked_add(self, o: U256) -> Option<U256> { self.0.checked_add(o.0).map(U256) }
        pub fn checked_sub(self, o: U256) -> Option<U256> { self.0.checked_sub(o.0).map(U256) }
        pub fn saturating_add(self, o: U256) -> U256 { U256(self.0.saturating_add(o.0)) }
        pub fn saturating_sub(self, o: U256) -> U256 { U256(self.0.saturating_sub(o.0)) }
    }
    impl std::ops::Add for U256 { type Output = U256; fn add(self, o: U256) -> U256 { U256(self.0 + o.0) } }
    impl std::ops::Sub for U256 { type Output = U256; fn sub(self, o: U256) -> U256 { U256(self.0 - o.0) } }
    pub trait Notify { fn notify_on<E>(&mut self, _: E) -> Result<(), ()> { Ok(()) } }
    impl<T> Notify for T {}
}
