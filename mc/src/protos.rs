//! Bounds of the token transfer explorations.
use crate::num::*;
use crate::rt::actor;
use crate::scen::*;
use crate::vft::{Ans, Proto, Req};
use sails_rs::ActorId;

const G: u64 = 42_400_200_000; // gas a transfer and the handling of its reply take
fn t(x: u8) -> ActorId { actor(x) }
fn dep(w: u8, x: u8, a: u128) -> (ActorId, Req, u64) { (actor(w), Req::DepSingle(t(x), n(a)), 4 * G) }
fn wd(w: u8, x: u8, a: Option<u128>) -> (ActorId, Req, u64) { (actor(w), Req::WdSingle(t(x), a.map(n)), 4 * G) }
fn dep2(w: u8, x: u8, a: u128, y: u8, b: u128) -> (ActorId, Req, u64) { (actor(w), Req::DepPair((t(x), n(a)), (t(y), n(b))), 4 * G) }
fn wd2(w: u8, x: u8, a: Option<u128>, y: u8, b: Option<u128>) -> (ActorId, Req, u64) { (actor(w), Req::WdPair((t(x), a.map(n)), (t(y), b.map(n))), 4 * G) }
fn gas(mut r: (ActorId, Req, u64), g: u64) -> (ActorId, Req, u64) { r.2 = g; r }
fn base(name: &str, depth: usize) -> Proto {
    Proto { name: name.into(), u: universe(&[crate::explore::ADMIN, A, B], &[0, X, Y, Z], &[], &[], &[]), setup: vec![fund(A, X, 100u32), fund(A, Y, 70u32), fund(B, X, 50u32)],
        starts: vec![], answers: vec![Ans::True, Ans::False, Ans::Panic, Ans::Gas], syncs: vec![], stray: false, timeouts: 0, max_msgs: 2, max_inflight: 2, depth }
}
/// Two messages at a time, all interleavings of single transfers.
pub fn singles(depth: usize, msgs: usize) -> Proto {
    Proto { starts: vec![dep(A, X, 10), wd(A, X, Some(30)), wd(A, X, None), dep(B, X, 7), wd(B, X, Some(50))], max_msgs: msgs, max_inflight: msgs, ..base("transfer-singles", depth) }
}
pub fn pairs(depth: usize) -> Proto {
    Proto { starts: vec![dep2(A, X, 10, Y, 20), wd2(A, X, Some(30), Y, None), wd2(A, Y, Some(5), X, Some(100))], max_msgs: 1, max_inflight: 1, ..base("transfer-pairs", depth) }
}
pub fn mixed(depth: usize) -> Proto {
    Proto { starts: vec![dep2(A, X, 10, Y, 20), wd2(A, X, None, Y, Some(70)), wd(A, X, Some(30)), dep(A, Y, 3)], answers: vec![Ans::True, Ans::False, Ans::Gas], ..base("transfer-mixed", depth) }
}
/// What each request asks for and which requests are refused, including the gas thresholds.
pub fn requests(depth: usize) -> Proto {
    let big = 1u128 << 127;
    let near = (actor(A), Req::DepSingle(t(Z), (n(1) << 256u32) - 1), 4 * G);
    let starts = vec![dep(A, X, 0), dep(A, 0, 5), dep(A, 0, 0), wd(A, X, Some(0)), wd(A, X, Some(101)), wd(A, X, Some(100)), wd(A, Z, Some(1)), wd(A, Z, None), wd(B, Y, None), wd(A, 0, None), wd(A, 0, Some(5)),
        near, dep(A, Z, big), dep(A, Z, 1), dep2(A, X, 0, Y, 0), dep2(A, X, 3, Y, 0), dep2(A, X, 0, Y, 4), dep2(A, X, 1, X, 1), dep2(A, 0, 1, X, 1), dep2(A, X, 1, 0, 1), dep2(A, 0, 1, X, 0), dep2(A, 0, 0, X, 2),
        dep2(A, Y, 6, X, 2), wd2(A, X, Some(0), Y, Some(0)), wd2(A, X, Some(1), Y, Some(0)), wd2(A, X, Some(0), Y, Some(2)), wd2(A, X, Some(101), Y, Some(1)), wd2(A, X, Some(1), Y, Some(71)), wd2(A, X, None, Z, None),
        wd2(A, Z, None, X, Some(2)), wd2(A, Z, Some(1), X, Some(2)), wd2(A, X, Some(1), X, Some(1)), wd2(B, X, None, Y, None), wd2(B, Y, None, X, Some(9)), wd2(B, Y, None, Z, None), wd2(A, Y, Some(1), X, Some(2)),
        wd2(A, 0, None, X, None), wd2(A, X, Some(4), 0, Some(4)), wd2(A, 0, Some(4), X, None),
        gas(dep(A, X, 1), G - 1), gas(dep(A, X, 1), G), gas(wd(A, X, Some(1)), G - 1), gas(wd(A, X, Some(1)), G),
        gas(dep2(A, X, 1, Y, 1), 2 * G - 1), gas(dep2(A, X, 1, Y, 1), 2 * G), gas(wd2(A, X, Some(1), Y, Some(1)), 2 * G - 1), gas(wd2(A, X, Some(1), Y, Some(1)), 2 * G), gas(dep2(A, X, 1, Y, 0), G), gas(dep2(A, X, 0, Y, 1), G - 1),
        gas(wd2(A, X, None, Z, None), G), gas(wd2(A, X, None, Z, None), G - 1)];
    let mut p = Proto { starts, answers: vec![Ans::True, Ans::Panic], max_msgs: 2, max_inflight: 2, ..base("transfer-requests", depth) };
    p.setup.push(crate::scen::vara(A, 40));
    p
}
/// Balances at the brim of the number range: which half of a deposit has room is told apart from the other.
pub fn brim(depth: usize) -> Proto {
    let mut p = base("transfer-brim", depth);
    p.setup = vec![fund(A, X, (n(1) << 256u32) - 5), fund(A, Y, 70u32)];
    p.starts = vec![dep2(A, X, 4, Y, 9), dep2(A, X, 5, Y, 1), dep2(A, Y, 9, X, 4), dep2(A, Y, 1, X, 5), dep2(A, X, 5, Y, 0), dep2(A, X, 0, Y, 6), dep2(A, Y, 6, X, 0), dep2(A, Y, 0, X, 5), dep2(A, X, 4, Z, 1u128 << 127),
        dep2(A, Z, 1, X, 5), dep(A, X, 4), dep(A, X, 5), dep(B, X, 5), wd(A, X, Some(3)), wd2(A, Y, None, X, Some(1))];
    p.answers = vec![Ans::True, Ans::Panic];
    p.max_msgs = 2; p.max_inflight = 1;
    p
}
/// Replies that are not an answer, answers of every kind, replies nobody waits for.
pub fn authentic(depth: usize) -> Proto {
    Proto { starts: vec![dep(A, X, 10), wd(A, X, Some(30)), dep2(A, X, 10, Y, 20), wd2(A, X, Some(20), Y, None)],
        answers: vec![Ans::True, Ans::Inactive, Ans::LyingError, Ans::WrongService, Ans::WrongMethod, Ans::Garbage, Ans::Empty], stray: true, max_msgs: 2, max_inflight: 2, ..base("transfer-authentic", depth) }
}
/// Waits that expire, answers that come too late.
pub fn late(depth: usize) -> Proto {
    Proto { starts: vec![dep(A, X, 10), wd(A, X, Some(30)), dep2(A, X, 10, Y, 20), wd2(A, X, Some(20), Y, None)], answers: vec![Ans::True, Ans::False, Ans::Gas], timeouts: 1, ..base("transfer-late", depth) }
}
/// Transfers interleaved with other messages that use the same balances.
pub fn busy(depth: usize) -> Proto {
    let k = key(X, Y, tier(PCT, 10));
    let mut p = base("transfer-busy", depth);
    p.u = universe(&[crate::explore::ADMIN, A, B], &[0, X, Y, Z], &[k.tier], &[k], &[-10, 10]);
    p.setup.extend([pfee(10 * PCT), add_tier(k.tier), pool_at(k, 0), fund(B, X, 100_000u32), fund(B, Y, 100_000u32), cp(B, k, -10, 10, 10_000_000 * L)]);
    p.starts = vec![dep(A, X, 10), wd(A, X, Some(30)), wd(A, Y, None), wd2(A, X, None, Y, Some(70))];
    p.answers = vec![Ans::True, Ans::Gas];
    p.syncs = vec![sw(A, k, true, 40u32, true), sw(A, k, false, 40u32, true), cp(A, k, -10, 10, 10_000 * L), sw(B, k, true, 500u32, true), fund(A, X, 5u32), unfund(A, X, Some(1))];
    p.max_msgs = 2;
    p
}
