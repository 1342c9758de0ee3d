//! Stateless exploration of the token transfer protocol: every interleaving, up to a length, of
//! message starts, token answers (in any order, of any kind, also after the wait has timed out),
//! resumptions of waiting messages, other users' messages and stray replies. Every schedule is
//! executed from the beginning on the real contract under the real asynchronous runtime; after
//! every event the balances are compared with a ledger that only follows confirmed transfers.
use crate::bridge::{self, Universe};
use crate::explore::{self as x, Act, Finding, Violation};
use crate::model::{self as m, Op};
use crate::num::*;
use crate::rt::{self, End, Outcome};
use invariant::verif;
use parity_scale_codec::{Decode, Encode};
use sails_rs::ActorId;
use math::token_amount::TokenAmount;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Req {
    DepSingle(ActorId, N), WdSingle(ActorId, Option<N>),
    DepPair((ActorId, N), (ActorId, N)), WdPair((ActorId, Option<N>), (ActorId, Option<N>)),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Ans {
    True, False,
    /// the token program panicked / ran out of gas / is not active
    Panic, Gas, Inactive,
    /// a failure whose payload looks like a positive answer
    LyingError,
    /// successful replies that do not answer the transfer
    WrongService, WrongMethod, Garbage, Empty,
}
impl Ans {
    fn wire(self) -> ([u8; 4], Vec<u8>) {
        let ok = bridge::REPLY_OK;
        match self {
            Ans::True => (ok, bridge::vft_reply(true)),
            Ans::False => (ok, bridge::vft_reply(false)),
            Ans::Panic => (bridge::REPLY_PANIC, b"Panic occurred: panicked with 'insufficient balance'".to_vec()),
            Ans::Gas => (bridge::REPLY_GAS, b"Not enough gas to continue execution".to_vec()),
            Ans::Inactive => ([1, 2, 0, 0], b"Destination is not active".to_vec()),
            Ans::LyingError => (bridge::REPLY_PANIC, bridge::vft_reply(true)),
            Ans::WrongService => (ok, ("Other".to_string(), "TransferFrom".to_string(), true).encode()),
            Ans::WrongMethod => (ok, ("Vft".to_string(), "Transfer".to_string(), true).encode()),
            Ans::Garbage => (ok, vec![0xff; 7]),
            Ans::Empty => (ok, vec![]),
        }
    }
    fn decided(self) -> Option<bool> {
        match self { Ans::True => Some(true), Ans::False | Ans::Panic | Ans::Gas | Ans::Inactive | Ans::LyingError => Some(false), _ => None }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Ev { Start(usize), Answer(usize, Ans), Resume(usize), Timeout, Sync(usize), Stray(usize) }

pub struct Proto {
    pub name: String,
    pub u: Universe,
    pub setup: Vec<Act>,
    pub starts: Vec<(ActorId, Req, u64)>,
    pub answers: Vec<Ans>,
    pub syncs: Vec<Act>,
    pub stray: bool,
    pub timeouts: usize,
    pub max_msgs: usize,
    pub max_inflight: usize,
    pub depth: usize,
}

#[derive(Debug, Clone)]
struct Msg { who: ActorId, req: usize, id: [u8; 32], input: Vec<u8>, xfers: Vec<usize>, woken: bool, done: bool, deadline: u32, expired: bool }
#[derive(Debug, Clone)]
struct Xfer { token: ActorId, id: [u8; 32], user: ActorId, dep: bool, amount: N, answer: Option<Ans>, answered_at: u32 }

pub struct World { model: m::State, now: u64, block: u32, msgs: Vec<Msg>, xfers: Vec<Xfer>, custody: BTreeMap<ActorId, N>, strays: usize, timeouts: usize, syncs: usize }

const GAS1: u64 = 42_400_200_000; // gas a transfer and the handling of its reply take

fn bal(s: &m::State, a: ActorId, t: ActorId) -> N { s.balances.get(&(a, t)).cloned().unwrap_or_default() }
fn set(s: &mut m::State, a: ActorId, t: ActorId, v: N) { if v == zero() { s.balances.remove(&(a, t)); } else { s.balances.insert((a, t), v); } }
fn u256max() -> N { (n(1) << 256u32) - 1 }

/// What the start of a request must do: the transfers to ask for, or an immediate amount, or a refusal.
enum Plan { Wait(Vec<(ActorId, N, bool)>), Now(Vec<N>), Refuse(Vec<&'static str>) }
fn plan(s: &mut m::State, who: ActorId, r: &Req, gas: u64) -> Plan {
    use Plan::*;
    let vara = ActorId::zero();
    let one = |t: ActorId, a: &N, dep: bool, gas: u64| -> Plan {
        if t == vara { return Refuse(vec![if dep { "InvalidVaraDepositAttempt" } else { "InvalidVaraWithdrawAttempt" }]); }
        if gas < GAS1 { return Refuse(vec!["NotEnoughGasToExecute"]); }
        if *a == zero() { return Refuse(vec!["TransferError"]); }
        Wait(vec![(t, a.clone(), dep)])
    };
    let two = |tx: ActorId, ax: &N, ty: ActorId, ay: &N, dep: bool| -> Plan {
        match (*ax == zero(), *ay == zero()) {
            (true, true) => Now(vec![zero(), zero()]),
            (false, true) => one(tx, ax, dep, gas),
            (true, false) => one(ty, ay, dep, gas),
            _ => {
                if tx == vara || ty == vara { return Refuse(vec![if dep { "InvalidVaraDepositAttempt" } else { "InvalidVaraWithdrawAttempt" }]); }
                if gas < 2 * GAS1 { return Refuse(vec!["NotEnoughGasToExecute"]); }
                Wait(vec![(tx, ax.clone(), dep), (ty, ay.clone(), dep)])
            }
        }
    };
    // amount actually withdrawn, or refusal
    let take = |s: &m::State, t: ActorId, a: &Option<N>| -> Option<N> {
        let b = bal(s, who, t);
        match a { None => Some(b), Some(a) if *a <= b => Some(a.clone()), _ => None }
    };
    match r {
        Req::DepSingle(t, a) => { if bal(s, who, *t) + a > u256max() { return Refuse(vec![]); } one(*t, a, true, gas) }
        Req::DepPair((tx, ax), (ty, ay)) => {
            if tx == ty { return Refuse(vec!["TokensAreSame"]); }
            if bal(s, who, *tx) + ax > u256max() || bal(s, who, *ty) + ay > u256max() { return Refuse(vec![]); }
            two(*tx, ax, *ty, ay, true)
        }
        Req::WdSingle(t, a) => {
            if a.as_ref() == Some(&zero()) { return Refuse(vec!["AmountIsZero"]); }
            let Some(v) = take(s, *t, a) else { return Refuse(vec![]) };
            if v == zero() { return Now(vec![v]); }
            let p = one(*t, &v, false, gas);
            if let Wait(_) = p { let b = bal(s, who, *t); set(s, who, *t, b - v); }
            p
        }
        Req::WdPair((tx, ax), (ty, ay)) => {
            if tx == ty { return Refuse(vec!["TokensAreSame"]); }
            let (Some(vx), Some(vy)) = (take(s, *tx, ax), take(s, *ty, ay)) else { return Refuse(vec![]) };
            let p = two(*tx, &vx, *ty, &vy, false);
            if let Wait(_) = p { for (t, v) in [(tx, &vx), (ty, &vy)] { let b = bal(s, who, *t); set(s, who, *t, b - v); } }
            p
        }
    }
}
fn wire(r: &Req) -> (&'static str, Vec<u8>) {
    let o = |a: &Option<N>| a.as_ref().map(tok);
    match r {
        Req::DepSingle(t, a) => ("DepositSingleToken", (*t, tok(a)).encode()),
        Req::WdSingle(t, a) => ("WithdrawSingleToken", (*t, o(a)).encode()),
        Req::DepPair(a, b) => ("DepositTokenPair", ((a.0, tok(&a.1)), (b.0, tok(&b.1))).encode()),
        Req::WdPair(a, b) => ("WithdrawTokenPair", ((a.0, o(&a.1)), (b.0, o(&b.1))).encode()),
    }
}
fn label(r: &Req) -> &'static str { match r { Req::DepSingle(..) => "Deposit", Req::WdSingle(..) => "Withdraw", Req::DepPair(..) => "DepositPair", Req::WdPair(..) => "WithdrawPair" } }
fn amounts(method: &str, pair: bool, b: &[u8]) -> Result<Vec<N>, String> {
    Ok(if pair { let (x, y) = rt::decode_reply::<(TokenAmount, TokenAmount)>(method, b)?; vec![x.n(), y.n()] } else { vec![rt::decode_reply::<TokenAmount>(method, b)?.n()] })
}

impl World {
    fn root(p: &Proto, found: &mut Vec<Finding>) -> Option<World> {
        let s = x::Scenario { name: p.name.clone(), u: p.u.clone(), setup: p.setup.clone(), starts: vec![vec![]], ops: vec![], depth: 0, t0: 1_000_000, b0: 100 };
        let mut pre = vec![];
        gsys::mock::env().gas_available = 4 * GAS1;
        let node = x::start_node(&s, 0, &mut pre);
        found.extend(pre.into_iter().map(|f| f.1));
        let node = node?;
        node.activate();
        Some(World { model: node.st.clone(), now: node.now, block: node.block, msgs: vec![], xfers: vec![], custody: node.custody.clone(), strays: 0, timeouts: 0, syncs: 0 })
    }
    fn enabled(&self, p: &Proto) -> Vec<Ev> {
        let mut v = vec![];
        let live = self.msgs.iter().filter(|m| !m.done).count();
        for (i, m) in self.msgs.iter().enumerate() { if m.woken && !m.done { v.push(Ev::Resume(i)); } }
        for (i, t) in self.xfers.iter().enumerate() { if t.answer.is_none() { for a in &p.answers { v.push(Ev::Answer(i, *a)); } } }
        if self.msgs.len() < p.max_msgs && live < p.max_inflight { for i in 0..p.starts.len() { v.push(Ev::Start(i)); } }
        if self.timeouts < p.timeouts && self.msgs.iter().any(|m| !m.done && !m.expired) { v.push(Ev::Timeout); }
        if !self.msgs.is_empty() && self.syncs < 2 { for i in 0..p.syncs.len() { v.push(Ev::Sync(i)); } }
        if p.stray && self.strays < 1 { for i in 0..4 { v.push(Ev::Stray(i)); } }
        v
    }
    fn key(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new_with_keys(3, 5);
        self.model.hash(&mut h); self.now.hash(&mut h); self.block.hash(&mut h); self.custody.hash(&mut h);
        for m in &self.msgs { (m.req, m.woken, m.done, m.expired, &m.xfers).hash(&mut h); }
        for t in &self.xfers { (t.token, t.user, t.dep, &t.amount, t.answer.map(|a| a as u8)).hash(&mut h); }
        h.finish()
    }
    fn of(&self, x: usize) -> usize { self.msgs.iter().position(|m| m.xfers.contains(&x)).unwrap() }

    /// Executes one event on the contract and in the ledger.
    fn step(&mut self, p: &Proto, e: Ev, judge: bool, out: &mut Vec<Finding>) -> String {
        let op: &'static str;
        let mut f: Vec<(&'static str, String)> = vec![];
        rt::set_clock(self.block, self.now);
        gsys::mock::env().gas_available = 4 * GAS1;
        let tag;
        match e {
            Ev::Start(i) => {
                let (who, req, gas) = &p.starts[i];
                op = label(req);
                let (method, args) = wire(req);
                let input = [method.to_string().encode(), args].concat();
                let id = gsys::mock::fresh_id();
                gsys::mock::env().gas_available = *gas;
                let want = plan(&mut self.model, *who, req, *gas);
                let o = rt::call_async(*who, id, &input);
                let deposits = gsys::mock::env().reply_deposits.clone();
                if !o.events.is_empty() { f.push(("events", format!("{} events", o.events.len()))); }
                match want {
                    Plan::Refuse(k) => {
                        tag = "refused";
                        if o.ok() { f.push(("accepts", format!("{:?} must be refused ({})", o.end, k.join("/")))); }
                        else if !k.is_empty() && !k.iter().any(|y| o.trap().contains(y)) { f.push(("error.kind", format!("failed with {:?}, expected {k:?}", o.trap()))); }
                    }
                    Plan::Now(v) => {
                        tag = "done at once";
                        match &o.end {
                            End::Done(_) => match o.reply.as_ref().ok_or("no reply".to_string()).and_then(|r| amounts(method, v.len() == 2, &r.0)) {
                                Ok(a) if a == v => {}
                                r => f.push(("result", format!("answered {r:?}, expected {v:?}"))),
                            },
                            z => f.push(("rejects", format!("ended {z:?}, expected an immediate answer"))),
                        }
                        if !o.sent.is_empty() { f.push(("messages", format!("sent {:?}", o.sent))); }
                    }
                    Plan::Wait(tr) => {
                        tag = "waiting";
                        match o.end { End::Waiting(k) => {
                            let base = self.xfers.len();
                            if o.sent.len() != tr.len() { f.push(("messages", format!("{} transfers requested, expected {}", o.sent.len(), tr.len()))); }
                            let mut used = vec![];
                            for (t, a, dep) in &tr {
                                let me = rt::actor(rt::PROGRAM_ID);
                                let (from, to) = if *dep { (*who, me) } else { (me, *who) };
                                let body = bridge::vft_request(from, to, a);
                                match o.sent.iter().position(|s| s.dest == rt::hash(*t) && s.payload == body && s.value == 0 && s.delay == 0 && !used.contains(&s.id)) {
                                    Some(j) => {
                                        let s = &o.sent[j];
                                        used.push(s.id);
                                        if s.gas_limit.unwrap_or(0) == 0 || !deposits.iter().any(|d| d.0 == s.id && d.1 > 0) { f.push(("messages", format!("transfer has gas {:?}, reply deposits {deposits:?}", s.gas_limit))); }
                                        self.xfers.push(Xfer { token: *t, id: s.id, user: *who, dep: *dep, amount: a.clone(), answer: None, answered_at: 0 });
                                    }
                                    None => f.push(("messages", format!("no request to move {a} of {t:?} (deposit {dep}): sent {:?}", o.sent))),
                                }
                            }
                            self.msgs.push(Msg { who: *who, req: i, id, input, xfers: (base..self.xfers.len()).collect(), woken: false, done: false, deadline: self.block + k, expired: false });
                        }
                        ref z => f.push(("rejects", format!("ended {z:?}, expected to wait for {} transfers", tr.len()))) }
                    }
                }
            }
            Ev::Answer(i, a) => {
                let mi = self.of(i);
                op = label(&p.starts[self.msgs[mi].req].1);
                let (code, payload) = a.wire();
                let t = self.xfers[i].clone();
                if a == Ans::True { let c = self.custody.entry(t.token).or_default(); if t.dep { *c += &t.amount } else { *c -= &t.amount } }
                let credit = match (a.decided(), t.dep) { (Some(true), true) | (Some(false), false) => true, _ => false };
                if credit { let b = bal(&self.model, t.user, t.token); set(&mut self.model, t.user, t.token, b + &t.amount); }
                let o = rt::deliver_reply(t.token, t.id, code, &payload);
                tag = "answered";
                if !o.ok() { f.push(("reply.trap", format!("reply {a:?} trapped: {}", o.trap()))); }
                if !o.sent.is_empty() || !o.events.is_empty() || o.reply.is_some() { f.push(("messages", format!("reply handling sent messages {:?}", o.sent))); }
                self.xfers[i].answer = Some(a);
                self.xfers[i].answered_at = self.block;
                if !self.msgs[mi].done {
                    if o.woken.contains(&self.msgs[mi].id) { self.msgs[mi].woken = true; } else { f.push(("wake", "the waiting message was not woken by the reply".into())); }
                }
            }
            Ev::Resume(i) => {
                let mm = self.msgs[i].clone();
                let req = &p.starts[mm.req].1;
                op = label(req);
                let o = rt::call_async(mm.who, mm.id, &mm.input);
                self.msgs[i].woken = false;
                let open = mm.xfers.iter().any(|t| self.xfers[*t].answer.is_none());
                let late = mm.expired;
                if !o.sent.is_empty() || !o.events.is_empty() { f.push(("messages", format!("resumed message sent {:?}", o.sent))); }
                match &o.end {
                    End::Waiting(k) => {
                        tag = "waits on";
                        if late || !open { f.push(("stuck", "message keeps waiting although nothing is outstanding".into())); self.msgs[i].done = true; }
                        self.msgs[i].deadline = self.block + k;
                    }
                    end => {
                        self.msgs[i].done = true;
                        let all_ok = mm.xfers.iter().all(|t| self.xfers[*t].answer == Some(Ans::True));
                        let undecided = mm.xfers.iter().any(|t| self.xfers[*t].answer.map_or(true, |a| a.decided().is_none()));
                        let (method, _) = wire(req);
                        let pair = matches!(req, Req::DepPair(..) | Req::WdPair(..));
                        let success = match end { End::Done(_) => o.reply.as_ref().map(|r| amounts(method, pair, &r.0)), _ => None };
                        tag = match (&success, end) { (Some(_), _) => "reports success", (None, End::Trap(_)) => "reports failure", _ => "reports unknown" };
                        if open && !late { f.push(("early", format!("message finished ({end:?}) before every transfer was answered"))); }
                        match &success {
                            Some(Err(x)) => f.push(("result", format!("undecodable answer: {x}"))),
                            Some(Ok(v)) => {
                                if !all_ok { f.push(("false.success", format!("reported success {v:?} but transfers ended {:?}", mm.xfers.iter().map(|t| self.xfers[*t].answer).collect::<Vec<_>>()))); }
                                let moved: N = mm.xfers.iter().map(|t| self.xfers[*t].amount.clone()).sum();
                                if v.iter().sum::<N>() != moved { f.push(("result", format!("reported {v:?}, moved {moved}"))); }
                                if pair { let (Req::DepPair((tx, _), (ty, _)) | Req::WdPair((tx, _), (ty, _))) = (match req { Req::DepPair(a, b) => Req::DepPair(a.clone(), b.clone()), Req::WdPair(a, b) => Req::WdPair(a.clone(), b.clone()), _ => unreachable!() }) else { unreachable!() };
                                    for (k, t) in [tx, ty].iter().enumerate() { let mv: N = mm.xfers.iter().filter(|q| self.xfers[**q].token == *t).map(|q| self.xfers[*q].amount.clone()).sum(); if v[k] != mv { f.push(("result", format!("reported {v:?} but moved {mv} of token {k}"))); } } }
                            }
                            None => {
                                if all_ok && !late { f.push(("false.failure", format!("reported {end:?} although every transfer succeeded"))); }
                                if !late && !undecided && !all_ok {
                                    let fails = mm.xfers.iter().filter(|t| self.xfers[**t].answer != Some(Ans::True)).count();
                                    let want = match req { Req::DepSingle(..) => "UnrecoverableTransferError", Req::DepPair(..) if fails == mm.xfers.len() => "UnrecoverableTransferError", _ => "RecoverableTransferError" };
                                    let ok = matches!(end, End::Trap(s) if s.split(|c: char| !c.is_alphanumeric()).any(|w| w == want));
                                    if !ok { f.push(("error.kind", format!("ended {end:?}, expected {want}"))); }
                                }
                            }
                        }
                    }
                }
            }
            Ev::Timeout => {
                op = "Timeout"; tag = "expires";
                self.timeouts += 1;
                let d = self.msgs.iter().filter(|m| !m.done).map(|m| m.deadline).max().unwrap();
                self.block = self.block.max(d); self.now += 300_000;
                for m in self.msgs.iter_mut() { if !m.done { m.woken = true; m.expired = true; } }
            }
            Ev::Sync(i) => {
                self.syncs += 1;
                let (who, o) = &p.syncs[i];
                op = x::kind(o);
                gsys::mock::env().value_available = to128(&self.custody.get(&ActorId::zero()).cloned().unwrap_or_default()).unwrap_or(0);
                let mut ev = vec![];
                let mut next = self.model.clone();
                let want = next.apply(*who, o, self.now, self.block, &mut ev);
                if want.is_ok() { self.model = next; }
                let r = bridge::exec(*who, o);
                if r.ok() != want.is_ok() { f.push((if r.ok() { "accepts" } else { "rejects" }, format!("{:?} vs expected {:?}", r.end, want.as_ref().err()))); }
                tag = if r.ok() { "ok" } else { "rejected" };
                match (o, r.ok()) {
                    (Op::Fund { token, amount }, true) => *self.custody.entry(*token).or_default() += amount,
                    (Op::DepositVara(v), true) => *self.custody.entry(ActorId::zero()).or_default() += n(*v),
                    (Op::WithdrawVara(_), true) => if let Some((_, v)) = r.reply { *self.custody.entry(ActorId::zero()).or_default() -= n(v) },
                    _ => {}
                }
            }
            Ev::Stray(k) => {
                op = "Stray"; tag = "stray";
                self.strays += 1;
                // a reply to a message that is not one of the transfers: never sent, or not sent by the exchange
                let to = match k { 0 | 1 => gsys::mock::fresh_id(), _ => self.msgs.first().map(|m| m.id).unwrap_or_else(gsys::mock::fresh_id) };
                let from = if k % 2 == 0 { p.u.tokens[0] } else { rt::actor(77) };
                let o = rt::deliver_reply(from, to, bridge::REPLY_OK, &bridge::vft_reply(true));
                let _: Outcome = o;
            }
        }
        if judge {
            let mut odd = vec![];
            let real = match rt::guarded(|| bridge::observe(&p.u, &mut odd)) {
                Ok(r) => r,
                Err(e) => { f.push(("balances", format!("queries trap: {e}"))); self.model.clone() }
            };
            f.extend(odd);
            bridge::compare_states(&self.model, &real, &mut f);
            // custody covers what users are owed plus what is on its way out
            for t in &p.u.tokens {
                if real.pools.keys().any(|k| k.x == *t || k.y == *t) { continue; }
                let owed: N = real.balances.iter().filter(|(k, _)| k.1 == *t).map(|(_, v)| v.clone()).sum();
                let out: N = self.xfers.iter().filter(|q| q.token == *t && !q.dep && q.answer.map_or(true, |a| a.decided().is_none())).map(|q| q.amount.clone()).sum();
                let has = self.custody.get(t).cloned().unwrap_or_default();
                if has != &owed + &out { f.push(("custody", format!("holds {has} of {t:?}, owes {owed} and {out} on the way out"))); }
            }
            if let Some(h) = f.iter().find(|q| q.1.contains("harness:")) { panic!("harness error: {h:?}"); }
            out.extend(f.into_iter().map(|(g, d)| Finding { op, group: g.into(), detail: d }));
        }
        format!("{op} {tag}")
    }
}

pub fn ev_text(p: &Proto, e: Ev) -> String {
    match e {
        Ev::Start(i) => format!("{} starts {:?} gas {}", x::name(p.starts[i].0), p.starts[i].1, p.starts[i].2),
        Ev::Answer(i, a) => format!("transfer {i} answered {a:?}"),
        Ev::Resume(i) => format!("message {i} resumes"),
        Ev::Timeout => "waits expire".into(),
        Ev::Sync(i) => x::show(&p.syncs[i]),
        Ev::Stray(k) => format!("stray reply {k}"),
    }
}
pub fn path_text(p: &Proto, path: &[usize]) -> String {
    let Some(mut w) = World::root(p, &mut vec![]) else { return format!("{}: setup", p.name) };
    let mut v = vec![];
    for i in path { let e = w.enabled(p)[*i]; v.push(ev_text(p, e)); w.step(p, e, false, &mut vec![]); }
    format!("{}: {}", p.name, v.join("; "))
}

/// Re-executes one schedule; findings of its last event.
pub fn run_path(p: &Proto, path: &[usize], tags: Option<&mut BTreeMap<String, u64>>) -> (Vec<Finding>, usize, u64) {
    let mut f = vec![];
    let Some(mut w) = World::root(p, &mut f) else { return (f, 0, 0) };
    let mut last = String::new();
    for (k, i) in path.iter().enumerate() {
        if k + 1 == path.len() { f.clear(); }
        let en = w.enabled(p);
        assert!(*i < en.len(), "harness: schedule {path:?} diverged at {k}: {:?} {:?}", f, last);
        let e = en[*i];
        x::beat(0, &path[..k + 1]);
        last = w.step(p, e, k + 1 == path.len(), &mut f);
    }
    if let Some(t) = tags { if !path.is_empty() { *t.entry(last).or_default() += 1; } }
    let (k, h) = (w.enabled(p).len(), w.key());
    (f, k, h)
}

pub fn explore(p: &Proto, filter: fn(&Finding) -> bool, cap_secs: u64) -> x::Report {
    let t = Instant::now();
    let deadline = t + Duration::from_secs(cap_secs);
    let sh = x::Shared::new(24);
    let mut rep = x::Report { scenario: p.name.clone(), depth: p.depth, starts: 1, alphabet: p.starts.len() + p.answers.len() + p.syncs.len(), ..Default::default() };
    let mut tags = BTreeMap::new();
    let mut found: Vec<Violation> = vec![];
    let rec = |found: &mut Vec<Violation>, path: &[usize], fs: &[Finding]| {
        for f in fs {
            if !filter(f) { continue; }
            if found.iter().any(|v| v.op == f.op && v.group == f.group && v.path.len() <= path.len()) { continue; }
            found.push(Violation { scenario: p.name.clone(), start: 0, path: path.to_vec(), op: f.op.into(), group: f.group.clone(), detail: f.detail.clone() });
        }
    };
    let mut jobs: Vec<(Vec<usize>, usize)> = vec![];
    let (f, k, h) = run_path(p, &[], None);
    sh.claim(h, 0);
    if k == 0 { rep.skipped = 1; }
    let seen = |h: u64| if sh.claim(h, 0).0 { sh.ctr(x::C_STATES).fetch_add(1, SeqCst); };
    rec(&mut found, &[], &f);
    jobs.push((vec![], k));
    let mut d = 0;
    while d < p.depth && jobs.len() < 200 {
        let mut next = vec![];
        for (path, k) in &jobs {
            for i in 0..*k {
                let mut q = path.clone(); q.push(i);
                let (f, k2, h) = run_path(p, &q, Some(&mut tags));
                    seen(h);
                sh.ctr(x::C_TRANS).fetch_add(1, SeqCst);
                if !f.is_empty() { rec(&mut found, &q, &f); }
                if k2 == 0 || d + 1 == p.depth { sh.ctr(x::C_LEAF).fetch_add(1, SeqCst); }
                if f.is_empty() { next.push((q, k2)); }
            }
        }
        jobs = next; d += 1;
    }
    let left = p.depth - d;
    if left > 0 {
        // one process per subtree: what the asynchronous runtime keeps of abandoned schedules goes with it
        let dir = x::scratch();
        x::pool(jobs.len(), &mut found, &p.name, &|j| {
            let mut tags = BTreeMap::new();
            let mut found: Vec<Violation> = vec![];
            let mut sample = None;
            let mut stack: Vec<(Vec<usize>, usize)> = vec![jobs[j].clone()];
            while let Some((path, k)) = stack.pop() {
                if path.len() == p.depth { continue; }
                if Instant::now() > deadline { sh.ctr(x::C_CAP).store(1, SeqCst); break; }
                if sh.ctr(x::C_STOP).load(SeqCst) > 40 { break; }
                for i in 0..k {
                    let mut q = path.clone(); q.push(i);
                    let (f, k2, h) = run_path(p, &q, Some(&mut tags));
                    seen(h);
                    sh.ctr(x::C_TRANS).fetch_add(1, SeqCst);
                    if k2 == 0 || q.len() == p.depth { sh.ctr(x::C_LEAF).fetch_add(1, SeqCst); if sample.is_none() { sample = Some(path_text(p, &q)); } }
                    if !f.is_empty() { let b = found.len(); rec(&mut found, &q, &f); sh.ctr(x::C_STOP).fetch_add((found.len() - b) as u64, SeqCst); }
                    if f.is_empty() { stack.push((q, k2)); }
                }
            }
            let mut o = String::new();
            for (k, v) in &tags { o.push_str(&format!("o\t{v}\t{k}\n")); }
            for v in &found { o.push_str(&format!("v\t0\t{}\t{}\t{}\t{}\n", v.path.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), v.op, v.group, v.detail.replace(['\t', '\n'], " "))); }
            if let Some(z) = sample { o.push_str(&format!("s\t{z}\n")); }
            std::fs::write(dir.join(format!("w{j}")), o).is_ok()
        });
        for k in 0..jobs.len() {
            let Ok(t) = std::fs::read_to_string(dir.join(format!("w{k}"))) else { continue };
            for l in t.lines() {
                let q: Vec<&str> = l.split('\t').collect();
                match q[0] {
                    "o" => *tags.entry(q[2].into()).or_default() += q[1].parse::<u64>().unwrap(),
                    "s" => if rep.samples.is_empty() { rep.samples.push(q[1].into()) },
                    _ => found.push(Violation { scenario: p.name.clone(), start: 0, path: q[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(), op: q[3].into(), group: q[4].into(), detail: q[5].into() }),
                }
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    } else if let Some(j) = jobs.first() { rep.samples.push(path_text(p, &j.0)); }
    found.sort_by_key(|v| v.path.len());
    let mut seen = std::collections::BTreeSet::new();
    rep.violations = found.into_iter().filter(|v| seen.insert((v.op.clone(), v.group.clone()))).collect();
    rep.outcomes = tags;
    rep.states = sh.ctr(x::C_STATES).load(SeqCst);
    rep.traces = sh.ctr(x::C_LEAF).load(SeqCst);
    rep.transitions = sh.ctr(x::C_TRANS).load(SeqCst);
    rep.capped = sh.ctr(x::C_CAP).load(SeqCst) != 0 || sh.ctr(x::C_STOP).load(SeqCst) > 40;
    rep.secs = t.elapsed().as_secs_f64();
    x::quiet();
    rep
}
