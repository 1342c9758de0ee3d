pub use std::format;
pub mod msg {
    use std::cell::Cell;
    thread_local! { static WHO: Cell<u64> = const { Cell::new(0) }; }
    pub fn source() -> u64 { WHO.with(|w| w.get()) }
    pub fn set_source(w: u64) { WHO.with(|x| x.set(w)) }
}
pub mod ext { pub fn panic(s: &str) -> ! { panic!("{s}") } }
