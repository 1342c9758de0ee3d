//! The token program (extended-vft) itself: every sequence of requests up to a depth is executed on the
//! real service, message by message, and compared with a model of roles, supply and balances.
//! The service it extends (a git dependency, not in the repository) is replaced by vendor/vft-service.
use crate::enumer::{digits, Enumeration, Tally};
use crate::num::*;
use crate::rt::{self, actor};
use futures::FutureExt;
use parity_scale_codec::{Decode, Encode};
use sails_rs::{ActorId, U256};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

const D: u8 = 21; // deploys the token
const A: u8 = 22;
const B: u8 = 23;
const WHO: [u8; 3] = [D, A, B];
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role { Admin, Minter, Burner }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Req { Mint(u8, U256), Burn(u8, U256), Transfer(u8, U256), TransferFrom(u8, u8, U256), Approve(u8, U256), Grant(Role, u8), Revoke(Role, u8), Fail(bool) }
type Act = (u8, Req);

#[derive(Clone, Default, PartialEq, Eq)]
struct Model { bal: BTreeMap<u8, U256>, allow: BTreeMap<(u8, u8), U256>, supply: U256, roles: [BTreeSet<u8>; 3] }
fn role(r: Role) -> usize { match r { Role::Admin => 0, Role::Minter => 1, Role::Burner => 2 } }
/// Expected outcome: None where the request is refused, otherwise the reply's truth value (None: no value) and the event.
type Want = Option<(Option<bool>, Option<(&'static str, Vec<u8>)>)>;
impl Model {
    fn new() -> Self { let s: BTreeSet<u8> = [D].into(); Model { roles: [s.clone(), s.clone(), s], ..Default::default() } }
    fn b(&self, a: u8) -> U256 { self.bal.get(&a).copied().unwrap_or_default() }
    fn set(&mut self, a: u8, v: U256) { if v.is_zero() { self.bal.remove(&a); } else { self.bal.insert(a, v); } }
    fn shift(&mut self, from: u8, to: u8, v: U256) -> Option<bool> {
        if from == to || v.is_zero() { return Some(false); }
        let (f, t) = (self.b(from).checked_sub(v)?, self.b(to).checked_add(v)?);
        self.set(from, f); self.set(to, t);
        Some(true)
    }
    fn apply(&mut self, (who, r): Act) -> Want {
        let e = |name: &'static str, v: Vec<u8>| Some((name, v));
        match r {
            Req::Mint(to, v) => {
                if !self.roles[1].contains(&who) { return None; }
                if v.is_zero() { return Some((Some(false), None)); }
                let s = self.supply.checked_add(v)?;
                self.supply = s;
                let n = self.b(to) + v;
                self.set(to, n);
                Some((Some(true), e("Minted", (actor(to), v).encode())))
            }
            Req::Burn(from, v) => {
                if !self.roles[2].contains(&who) { return None; }
                if v.is_zero() { return Some((Some(false), None)); }
                let left = self.b(from).checked_sub(v)?;
                self.supply -= v;
                self.set(from, left);
                Some((Some(true), e("Burned", (actor(from), v).encode())))
            }
            Req::Transfer(to, v) => { let m = self.shift(who, to, v)?; Some((Some(m), if m { e("Transfer", (actor(who), actor(to), v).encode()) } else { None })) }
            Req::TransferFrom(from, to, v) => {
                if who != from && from != to && !v.is_zero() {
                    let left = self.allow.get(&(from, who)).copied().unwrap_or_default().checked_sub(v)?;
                    if v > self.b(from) { return None; }
                    self.allow.insert((from, who), left);
                }
                let m = self.shift(from, to, v)?;
                Some((Some(m), if m { e("Transfer", (actor(from), actor(to), v).encode()) } else { None }))
            }
            Req::Approve(sp, v) => {
                if who == sp || self.allow.get(&(who, sp)).copied().unwrap_or_default() == v { return Some((Some(false), None)); }
                self.allow.insert((who, sp), v);
                Some((Some(true), e("Approval", (actor(who), actor(sp), v).encode())))
            }
            Req::Grant(r, to) => { if !self.roles[0].contains(&who) { return None; } self.roles[role(r)].insert(to); Some((None, None)) }
            Req::Revoke(r, to) => { if !self.roles[0].contains(&who) { return None; } self.roles[role(r)].remove(&to); Some((None, None)) }
            Req::Fail(_) => Some((None, None)),
        }
    }
}

thread_local! { static TOKEN: RefCell<Option<extended_vft_app::Program>> = const { RefCell::new(None) }; }
fn from(who: u8) {
    let e = gsys::mock::env();
    e.sent.clear(); e.reply = None; e.wakes.clear(); e.reply_deposits.clear();
    e.source = rt::hash(actor(who)); e.value = 0; e.msg_id = gsys::mock::fresh_id(); e.reply_to = None; e.reply_code = None;
}
fn deploy() {
    from(D);
    let p = extended_vft_app::Program::new("Name".into(), "SYM".into(), 12);
    TOKEN.with(|t| *t.borrow_mut() = Some(p));
}
/// One message to the token: the reply's bytes, or the text of the trap.
fn send(who: u8, method: &str, args: Vec<u8>) -> Result<Vec<u8>, String> {
    from(who);
    let input = [method.to_string().encode(), args].concat();
    gsys::mock::env().payload = [b"\x0cVft".as_slice(), &input].concat();
    rt::guarded(|| TOKEN.with(|t| {
        let t = t.borrow();
        let mut svc = t.as_ref().expect("harness: deployed").vft();
        let out = svc.handle(&input).now_or_never().unwrap_or_else(|| panic!("harness: token waited"));
        out
    }))
}
fn wire(r: Req) -> (&'static str, Vec<u8>) {
    match r {
        Req::Mint(a, v) => ("Mint", (actor(a), v).encode()),
        Req::Burn(a, v) => ("Burn", (actor(a), v).encode()),
        Req::Transfer(a, v) => ("Transfer", (actor(a), v).encode()),
        Req::TransferFrom(a, b, v) => ("TransferFrom", (actor(a), actor(b), v).encode()),
        Req::Approve(a, v) => ("Approve", (actor(a), v).encode()),
        Req::Grant(Role::Admin, a) => ("GrantAdminRole", actor(a).encode()),
        Req::Grant(Role::Minter, a) => ("GrantMinterRole", actor(a).encode()),
        Req::Grant(Role::Burner, a) => ("GrantBurnerRole", actor(a).encode()),
        Req::Revoke(Role::Admin, a) => ("RevokeAdminRole", actor(a).encode()),
        Req::Revoke(Role::Minter, a) => ("RevokeMinterRole", actor(a).encode()),
        Req::Revoke(Role::Burner, a) => ("RevokeBurnerRole", actor(a).encode()),
        Req::Fail(f) => ("SetTransferFail", f.encode()),
    }
}
fn ask<T: Decode>(method: &str, args: Vec<u8>) -> Result<T, String> { send(A, method, args).and_then(|b| rt::decode_reply(method, &b)) }
fn list(method: &str) -> Result<BTreeSet<ActorId>, String> {
    let v: Vec<ActorId> = ask(method, vec![])?;
    let s: BTreeSet<ActorId> = v.iter().copied().collect();
    if s.len() != v.len() { return Err(format!("{method} lists somebody twice")); }
    Ok(s)
}
fn observe(m: &Model, t: &mut Tally, at: &str) {
    let mut eq = |g: &'static str, what: String, got: Result<bool, String>| { t.calls += 1; match got { Ok(true) => {} Ok(false) => t.bad(g, format!("{what} {at}")), Err(e) => t.bad(g, format!("{what} {at}: {e}")) } };
    for (i, q) in ["Admins", "Minters", "Burners"].iter().enumerate() {
        let want: BTreeSet<ActorId> = m.roles[i].iter().map(|a| actor(*a)).collect();
        eq("roles", format!("{q} differ from {:?}", m.roles[i]), list(q).map(|g| g == want));
    }
    eq("supply", format!("total supply is not {}", m.supply), ask::<U256>("TotalSupply", vec![]).map(|s| s == m.supply));
    for a in WHO { eq("balances", format!("balance of {a} is not {}", m.b(a)), ask::<U256>("BalanceOf", actor(a).encode()).map(|s| s == m.b(a))); }
    for a in WHO { for b in WHO {
        let w = m.allow.get(&(a, b)).copied().unwrap_or_default();
        eq("allowances", format!("allowance of {a} to {b} is not {w}"), ask::<U256>("Allowance", (actor(a), actor(b)).encode()).map(|s| s == w));
    } }
    let sum = WHO.iter().try_fold(U256::zero(), |s, a| s.checked_add(ask::<U256>("BalanceOf", actor(*a).encode()).unwrap_or_default()));
    eq("supply", "total supply is not the sum of the balances".into(), ask::<U256>("TotalSupply", vec![]).map(|s| Some(s) == sum));
}
fn run(start: &[Act], path: &[Act], t: &mut Tally) {
    let mut m = Model::new();
    deploy();
    let mut done: Vec<Act> = vec![];
    for (i, &(who, r)) in start.iter().chain(path).enumerate() {
        let (method, args) = wire(r);
        let mut n = m.clone();
        let want = n.apply((who, r));
        let got = { t.calls += 1; send(who, method, args) };
        let events: Vec<Vec<u8>> = gsys::mock::env().sent.drain(..).map(|s| s.payload).collect();
        let at = format!("after {who}: {r:?}");
        let free = matches!(r, Req::Grant(..) | Req::Revoke(..) | Req::Fail(_));
        match (&got, &want) {
            (Err(e), Some(_)) => t.bad(if free { "permission" } else { "rejects" }, format!("{who}: {r:?} is refused: {e}")),
            (Ok(_), None) => {
                let denied = match r { Req::Mint(..) => !m.roles[1].contains(&who), Req::Burn(..) => !m.roles[2].contains(&who), _ => free };
                t.bad(if denied { "permission" } else { "accepts" }, format!("{who}: {r:?} is accepted"))
            }
            (Err(_), None) => t.saw("refused"),
            (Ok(b), Some((v, e))) => {
                t.saw(match v { Some(false) => "changed nothing", _ => "done" });
                match v {
                    Some(v) => if rt::decode_reply::<bool>(method, b) != Ok(*v) { t.bad("reply", format!("{who}: {r:?} answered {b:?}, expected {v}")); },
                    None => if *b != method.to_string().encode() { t.bad("reply", format!("{who}: {r:?} answered {b:?}")); },
                }
                let want: Vec<Vec<u8>> = e.iter().map(|(n, v)| ["Vft".to_string().encode(), n.to_string().encode(), v.clone()].concat()).collect();
                if events != want { t.bad("events", format!("events {events:?} expected {want:?} {at}")); }
            }
        }
        if !t.bad.is_empty() { return; }
        if got.is_ok() { m = n; done.push((who, r)); } else {
            // the chain undoes what a trapped message did: replay the others
            deploy();
            for &(who, r) in &done { let (method, args) = wire(r); if send(who, method, args).is_err() { panic!("harness: replay differs"); } }
        }
        if i + 1 >= start.len() { observe(&m, t, &at); }
        if !t.bad.is_empty() { return; }
    }
}
fn sequences(name: &str, rule: &str, starts: Vec<Vec<Act>>, acts: Vec<Act>, depth: u32, keep: fn(&str) -> bool) -> Enumeration {
    let per = (acts.len() as u64).pow(depth);
    let (s2, a2) = (starts.clone(), acts.clone());
    let pick = move |i: u64, starts: &Vec<Vec<Act>>, acts: &Vec<Act>| { let (s, k) = ((i / per) as usize, i % per); (starts[s].clone(), digits(k, &vec![acts.len(); depth as usize]).into_iter().map(|d| acts[d]).collect::<Vec<_>>()) };
    let p2 = pick.clone();
    Enumeration {
        name: name.into(), rule: format!("all sequences of {depth} of {} requests ({rule}) from {} start states", acts.len(), starts.len()), size: per * starts.len() as u64,
        case: Box::new(move |i, t| { let (s, p) = pick(i, &starts, &acts); run(&s, &p, t); t.bad.retain(|b| keep(b.0)); }),
        show: Box::new(move |i| { let (s, p) = p2(i, &s2, &a2); format!("{s:?} then {p:?}") }),
    }
}
fn starts() -> Vec<Vec<Act>> {
    let max = U256::MAX;
    vec![vec![], vec![(D, Req::Mint(A, 7.into())), (D, Req::Mint(B, max - 10)), (D, Req::Grant(Role::Minter, A)), (D, Req::Grant(Role::Burner, B)), (B, Req::Approve(A, 4.into()))],
        vec![(D, Req::Grant(Role::Admin, A)), (A, Req::Revoke(Role::Admin, D)), (D, Req::Mint(D, 3.into()))]]
}
/// Who may mint, burn, and change roles.
pub fn roles(depth: u32) -> Enumeration {
    let mut v = vec![];
    for who in WHO {
        for r in [Role::Admin, Role::Minter, Role::Burner] { for to in [D, A] { v.push((who, Req::Grant(r, to))); v.push((who, Req::Revoke(r, to))); } }
        v.push((who, Req::Mint(A, 1.into()))); v.push((who, Req::Burn(A, 1.into()))); v.push((who, Req::Mint(A, 0.into()))); v.push((who, Req::Burn(A, 0.into()))); v.push((who, Req::Fail(true)));
    }
    sequences("token roles", "three users granting, revoking, minting and burning", starts(), v, depth, |g| ["permission", "roles"].contains(&g))
}
/// What minting, burning and transfers do to balances and supply.
pub fn supply(depth: u32) -> Enumeration {
    let max = U256::MAX;
    let mut v = vec![];
    for x in [A, B] { for n in [0.into(), 1.into(), 7.into(), max - 7, max] { v.push((D, Req::Mint(x, n))); v.push((D, Req::Burn(x, n))); } }
    for n in [0.into(), 3.into(), 7.into(), max] { v.push((A, Req::Transfer(B, n))); v.push((B, Req::Transfer(A, n))); v.push((A, Req::TransferFrom(B, A, n))); v.push((A, Req::TransferFrom(B, D, n))); v.push((A, Req::TransferFrom(A, B, n))); v.push((B, Req::Approve(A, n))); }
    v.push((A, Req::Transfer(A, 2.into()))); v.push((D, Req::Fail(true)));
    sequences("token supply", "minting, burning, moving and approving amounts from zero to the largest", starts(), v, depth, |g| !["permission", "roles"].contains(&g))
}
/// The token's description is the one it was deployed with.
pub fn description() -> Enumeration {
    let v: Vec<(String, String, u8)> = ["", "N", "Wrapped Vara"].iter().flat_map(|n| ["", "S", "wVARA"].into_iter().flat_map(move |s| [0u8, 1, 12, 18, 255].map(|d| (n.to_string(), s.to_string(), d)))).collect();
    let w = v.clone();
    Enumeration {
        name: "token description".into(), rule: "names, symbols and decimals".into(), size: v.len() as u64,
        case: Box::new(move |i, t| {
            let (n, s, d) = &v[i as usize];
            from(D);
            let p = extended_vft_app::Program::new(n.clone(), s.clone(), *d);
            TOKEN.with(|t| *t.borrow_mut() = Some(p));
            t.calls += 4;
            t.saw("deployed");
            if ask::<String>("Name", vec![]).as_ref() != Ok(n) || ask::<String>("Symbol", vec![]).as_ref() != Ok(s) || ask::<u8>("Decimals", vec![]).as_ref() != Ok(d) { t.bad("description", "name, symbol or decimals differ".into()); }
            observe(&Model::new(), t, "after deployment");
        }),
        show: Box::new(move |i| format!("{:?}", w[i as usize])),
    }
}
