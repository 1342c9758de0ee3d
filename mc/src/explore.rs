//! Explicit-state exploration of the real contract: every sequence of operations of an alphabet up
//! to a depth, from given start states. Each transition restores the storage of the source state,
//! executes the operation on the contract, abstracts the result through the public queries and
//! compares it with one step of the reference model taken from the same abstract state.
use crate::bridge::{self, Diff, Universe};
use crate::model::{self as m, Op, State};
use crate::num::*;
use crate::rt::{self, Outcome};
use invariant::verif;
use sails_rs::ActorId;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::Instant;

pub type Act = (ActorId, Op);

#[derive(Clone)]
pub struct Node {
    pub snap: verif::State,
    pub st: State,
    pub now: u64,
    pub block: u32,
    /// What the contract really holds of each token (transfers confirmed in minus out).
    pub custody: BTreeMap<ActorId, N>,
    /// The contract went another way than the model on the way here: its state may make no sense any more.
    pub strayed: bool,
}
impl Node {
    pub fn activate(&self) { 
        verif::restore(&self.snap);
        rt::set_clock(self.block, self.now);
        gsys::mock::env().value_available = to128(&self.held(ActorId::zero())).unwrap_or(0);
    }
    pub fn key(&self) -> u64 {
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new_with_keys(0x5151, 0x9e37);
        self.st.hash(&mut h); self.now.hash(&mut h); self.block.hash(&mut h); self.custody.hash(&mut h);
        h.finish()
    }
    pub fn held(&self, t: ActorId) -> N { self.custody.get(&t).cloned().unwrap_or_default() }
}

pub struct Scenario {
    pub name: String,
    pub u: Universe,
    pub setup: Vec<Act>,
    pub starts: Vec<Vec<Act>>,
    pub ops: Vec<Act>,
    pub depth: usize,
    pub t0: u64,
    pub b0: u32,
}

pub fn kind(op: &Op) -> &'static str {
    match op {
        Op::ChangeProtocolFee(..) => "ChangeProtocolFee", Op::AddFeeTier(..) => "AddFeeTier", Op::RemoveFeeTier(..) => "RemoveFeeTier",
        Op::CreatePool { .. } => "CreatePool", Op::ChangeFeeReceiver(..) => "ChangeFeeReceiver", Op::CreatePosition { .. } => "CreatePosition",
        Op::RemovePosition(..) => "RemovePosition", Op::TransferPosition(..) => "TransferPosition", Op::Swap { .. } => "Swap",
        Op::SwapRoute { .. } => "SwapRoute", Op::ClaimFee(..) => "ClaimFee", Op::WithdrawProtocolFee(..) => "WithdrawProtocolFee",
        Op::DepositVara(..) => "DepositVara", Op::WithdrawVara(..) => "WithdrawVara", Op::Fund { .. } => "Fund", Op::Unfund { .. } => "Unfund",
        Op::Advance { .. } => "Advance",
    }
}

/// A disagreement found on a transition or in a state.
#[derive(Debug, Clone)]
pub struct Finding { pub op: &'static str, pub group: String, pub detail: String }

pub struct Step { pub node: Node, pub out: Outcome, pub model: m::Res<m::Ret>, pub findings: Vec<Finding>, pub changed: bool }

fn cmp_ret(model: &m::Ret, real: &m::Ret, out: &mut Vec<(String, String)>) {
    if model == real { return; }
    match (model, real) {
        (m::Ret::Swap(a), m::Ret::Swap(b)) => {
            if a.a_in != b.a_in || a.a_out != b.a_out { out.push(("result.amounts".into(), format!("in/out {}/{} expected {}/{}", b.a_in, b.a_out, a.a_in, a.a_out))); }
            if a.fee != b.fee { out.push(("result.fee".into(), format!("fee {} expected {}", b.fee, a.fee))); }
            if a.start != b.start || a.target != b.target { out.push(("result.price".into(), format!("prices {}..{} expected {}..{}", b.start, b.target, a.start, a.target))); }
            if a.pool != b.pool { out.push(("result.pool".into(), format!("returned pool {:?} expected {:?}", b.pool, a.pool))); }
            if a.ticks != b.ticks { out.push(("result.ticks".into(), format!("returned ticks {:?} expected {:?}", b.ticks, a.ticks))); }
        }
        _ => out.push(("result".into(), format!("returned {real:?} expected {model:?}"))),
    }
}

/// Runs the machinery's own code; on a state that makes no sense it may fail.
fn sane<R>(strayed: bool, f: impl FnOnce() -> R) -> Option<R> {
    if !strayed { return Some(f()); }
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

/// One transition of the real contract, judged against the model.
pub fn step(u: &Universe, from: &Node, who: ActorId, op: &Op) -> Step {
    let mut next = from.clone();
    let k = kind(op);
    let mut f: Vec<(String, String)> = vec![];
    if let Op::Advance { blocks, ms } = op {
        next.block += blocks; next.now += ms;
        return Step { node: next, out: bridge::exec(who, op), model: Ok(m::Ret::Unit), findings: vec![], changed: true };
    }
    from.activate();
    let out = bridge::exec(who, op);
    let mut model = from.st.clone();
    let mut mev = vec![];
    let Some(want) = sane(from.strayed, || model.apply(who, op, from.now, from.block, &mut mev)) else {
        return Step { node: from.clone(), out, model: Err(vec![]), findings: vec![], changed: false };
    };
    let mut changed = false;
    if out.ok() {
        let mut odd: Vec<Diff> = vec![];
        next.snap = verif::snapshot();
        match rt::guarded(|| bridge::observe(u, &mut odd)) {
            Ok(st) => next.st = st,
            Err(e) => return Step { node: from.clone(), out, model: want, changed: false, findings: vec![Finding { op: k, group: "query.trap".into(), detail: format!("queries trap afterwards: {e}") }] },
        }
        f.extend(odd.into_iter().map(|(g, d)| (g.to_string(), d)));
        changed = next.st != from.st;
        match &want {
            Ok(w) => {
                match bridge::ret(op, &out) {
                    Ok(r) => cmp_ret(w, &r, &mut f),
                    Err(e) => f.push(("result".into(), e)),
                }
                let mut rev = vec![];
                for e in &out.events { match bridge::event(e) { Ok(v) => rev.push(v), Err(x) => f.push(("events".into(), x)) } }
                if rev != mev { f.push(("events".into(), format!("emitted {rev:?} expected {mev:?}"))); }
                let mut d = vec![];
                bridge::compare_states(&model, &next.st, &mut d);
                f.extend(d.into_iter().map(|(g, x)| (g.to_string(), x)));
            }
            Err(e) => f.push(("accepts".into(), format!("succeeded but must be rejected ({})", e.join("/")))),
        }
        match op {
            Op::Fund { token, amount } => { *next.custody.entry(*token).or_default() += amount; }
            Op::DepositVara(v) => { *next.custody.entry(ActorId::zero()).or_default() += n(*v); }
            Op::Unfund { token, .. } => {
                // what the token contract was asked to pay out
                for s in &out.sent {
                    if s.payload.len() >= 32 {
                        let l = s.payload.len();
                        let mut b = [0u64; 4];
                        for i in 0..4 { b[i] = u64::from_le_bytes(s.payload[l - 32 + i * 8..l - 24 + i * 8].try_into().unwrap()); }
                        *next.custody.entry(*token).or_default() -= of256(decimal::U256(b));
                    }
                }
            }
            Op::WithdrawVara(_) => { if let Some((_, v)) = &out.reply { *next.custody.entry(ActorId::zero()).or_default() -= n(*v); } }
            _ => {}
        }
    } else {
        match &want {
            Ok(_) => f.push(("rejects".into(), format!("failed with {:?} but must succeed", out.trap()))),
            Err(e) if !e.is_empty() && !e.iter().any(|x| out.trap().contains(x)) =>
                f.push(("error.kind".into(), format!("failed with {:?}, expected one of {e:?}", out.trap()))),
            _ => {}
        }
    }
    next.strayed |= f.iter().any(|x| !matches!(x.0.as_str(), "error.kind" | "events"));
    if f.iter().any(|x| x.1.contains("harness:")) { panic!("harness error: {f:?}"); }
    Step { node: next, out, model: want, changed, findings: f.into_iter().map(|(group, detail)| Finding { op: k, group, detail }).collect() }
}

thread_local!(static EXTRA: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
/// A transition outside the alphabet, executed by a check.
pub fn extra(u: &Universe, from: &Node, act: &Act) -> Step {
    EXTRA.with(|e| e.set(e.get() + 1));
    step(u, from, act.0, &act.1)
}

pub type NodeCheck = fn(&Scenario, &Node, &mut Vec<Finding>);
pub type StepCheck = fn(&Scenario, &Node, &Act, &Step, &mut Vec<Finding>);

#[derive(Clone)]
pub struct Check {
    pub filter: fn(&Finding) -> bool,
    pub nodes: Vec<NodeCheck>,
    pub steps: Vec<StepCheck>,
}

// ---- shared memory -------------------------------------------------------------------------------

pub struct Shared { base: *mut u8, cells: usize }
const HEAD: usize = 64;
impl Shared {
    pub fn new(log2: u32) -> Shared {
        let cells = 1usize << log2;
        let len = (HEAD + cells) * 8;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        assert!(p != libc::MAP_FAILED, "harness: mmap");
        Shared { base: p as *mut u8, cells }
    }
    fn at(&self, i: usize) -> &AtomicU64 { unsafe { &*(self.base.add(i * 8) as *const AtomicU64) } }
    pub fn ctr(&self, i: usize) -> &AtomicU64 { assert!(i < HEAD); self.at(i) }
    /// (first visit of the state, must be explored from here)
    pub fn claim(&self, hash: u64, left: usize) -> (bool, bool) {
        let tag = (hash & !0xF) | ((left as u64 + 1).min(15));
        let mut i = (hash >> 4) as usize % self.cells;
        for _ in 0..self.cells {
            let c = self.at(HEAD + i);
            let mut v = c.load(SeqCst);
            loop {
                if v == 0 {
                    match c.compare_exchange(0, tag, SeqCst, SeqCst) { Ok(_) => return (true, true), Err(x) => { v = x; continue } }
                }
                if v & !0xF == hash & !0xF {
                    if v & 0xF >= tag & 0xF { return (false, false); }
                    match c.compare_exchange(v, tag, SeqCst, SeqCst) { Ok(_) => return (false, true), Err(x) => { v = x; continue } }
                }
                break;
            }
            i = (i + 1) % self.cells;
        }
        panic!("harness: state table full");
    }
    pub fn clear(&self) { for i in 0..self.cells { let c = self.at(HEAD + i); if c.load(SeqCst) != 0 { c.store(0, SeqCst) } } }
}
impl Drop for Shared { fn drop(&mut self) { unsafe { libc::munmap(self.base as *mut _, (HEAD + self.cells) * 8); } } }

pub const C_STATES: usize = 0;
pub const C_TRANS: usize = 1;
pub const C_OK: usize = 2;
pub const C_STOP: usize = 3;
pub const C_NEXT: usize = 4;
pub const C_CHANGED: usize = 5;
pub const C_CAP: usize = 6;
pub const C_LEAF: usize = 7;

#[derive(Debug, Clone, Default)]
pub struct Report {
    pub scenario: String,
    pub states: u64,
    pub transitions: u64,
    pub accepted: u64,
    pub depth: usize,
    pub starts: usize,
    pub alphabet: usize,
    pub capped: bool,
    pub skipped: usize,
    /// complete executions (to the depth bound, or to where nothing can follow)
    pub traces: u64,
    pub rule: String,
    pub outcomes: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub samples: Vec<String>,
    pub secs: f64,
}
#[derive(Debug, Clone)]
pub struct Violation { pub scenario: String, pub start: usize, pub path: Vec<usize>, pub op: String, pub group: String, pub detail: String }

/// Runs a check; the contract trapping in one of its queries is a finding.
fn judged(fs: &mut Vec<Finding>, op: &'static str, strayed: bool, f: impl FnOnce(&mut Vec<Finding>)) {
    if let Some(Err(m)) = sane(strayed, || rt::guarded(|| f(fs))) { fs.push(Finding { op, group: "query.trap".into(), detail: format!("trapped: {m}") }); }
}
struct Worker<'a> {
    s: &'a Scenario, c: &'a Check, sh: &'a Shared,
    outcomes: BTreeMap<String, u64>, found: Vec<Violation>, deadline: Instant, sample: Option<String>, start: usize,
}
impl Worker<'_> {
    fn record(&mut self, path: &[usize], fs: &[Finding]) {
        for f in fs {
            if !(self.c.filter)(f) && f.group != "query.trap" { continue; }
            if self.found.iter().any(|v| v.op == f.op && v.group == f.group && v.path.len() <= path.len()) { continue; }
            self.found.push(Violation { scenario: self.s.name.clone(), start: self.start, path: path.to_vec(), op: f.op.into(), group: f.group.clone(), detail: f.detail.clone() });
            self.sh.ctr(C_STOP).fetch_add(1, SeqCst);
        }
    }
    fn enter(&mut self, node: &Node, left: usize, path: &[usize]) -> bool {
        let (new, go) = self.sh.claim(node.key(), left);
        if new {
            self.sh.ctr(C_STATES).fetch_add(1, SeqCst);
            let mut fs = vec![];
            for c in &self.c.nodes { judged(&mut fs, "state", node.strayed, |f| c(self.s, node, f)); }
            if !fs.is_empty() { self.record(path, &fs); }
        }
        go
    }
    fn edge(&mut self, node: &Node, i: usize, path: &[usize]) -> Node {
        let act = &self.s.ops[i];
        beat(self.start, path);
        let mut st = step(&self.s.u, node, act.0, &act.1);
        self.sh.ctr(C_TRANS).fetch_add(1, SeqCst);
        if path.len() == self.s.depth { self.sh.ctr(C_LEAF).fetch_add(1, SeqCst); }
        if st.out.ok() { self.sh.ctr(C_OK).fetch_add(1, SeqCst); }
        if st.changed { self.sh.ctr(C_CHANGED).fetch_add(1, SeqCst); }
        let o = match &st.model { Ok(_) => format!("{} ok", kind(&act.1)), Err(e) => format!("{} {}", kind(&act.1), if e.is_empty() { "rejected" } else { e[0] }) };
        // for development: where the contract gives up without naming a rule
        if o.ends_with(" rejected") && std::env::var_os("MC_TRAPS").is_some() && !self.outcomes.contains_key(&o) { eprintln!("{} traps: {}", describe(self.s, self.start, path), st.out.trap()); }
        *self.outcomes.entry(o).or_default() += 1;
        let mut fs = std::mem::take(&mut st.findings);
        for c in &self.c.steps { judged(&mut fs, kind(&act.1), st.node.strayed, |f| c(self.s, node, act, &st, f)); }
        self.sh.ctr(C_TRANS).fetch_add(EXTRA.with(|e| e.take()), SeqCst);
        if !fs.is_empty() { self.record(path, &fs); }
        st.node
    }
    fn dfs(&mut self, node: &Node, left: usize, path: &mut Vec<usize>) {
        if left == 0 { return; }
        if self.sh.ctr(C_STOP).load(SeqCst) > 40 { return; }
        if Instant::now() > self.deadline { self.sh.ctr(C_CAP).store(1, SeqCst); return; }
        for i in 0..self.s.ops.len() {
            path.push(i);
            let next = self.edge(node, i, path);
            if self.enter(&next, left - 1, path) {
                if left == 1 && self.sample.is_none() { self.sample = Some(describe(self.s, self.start, path)); }
                self.dfs(&next, left - 1, path);
            }
            path.pop();
        }
    }
}

pub fn show(act: &Act) -> String { format!("{}: {}", name(act.0), shorten(&format!("{:?}", act.1))) }
pub fn name(a: ActorId) -> String { let b: [u8; 32] = a.into(); format!("#{}", b[0]) }
fn shorten(s: &str) -> String {
    // actor ids print as 0x..; keep the first byte
    let mut o = String::new();
    let mut i = 0;
    let b = s.as_bytes();
    while i < b.len() {
        if s[i..].starts_with("0x") && s[i + 2..].bytes().take_while(|c| c.is_ascii_hexdigit()).count() >= 8 {
            o.push_str(&format!("#{}", u8::from_str_radix(&s[i + 2..i + 4], 16).unwrap_or(0)));
            i += 2 + s[i + 2..].bytes().take_while(|c| c.is_ascii_hexdigit()).count();
        } else { o.push(b[i] as char); i += 1; }
    }
    o
}
pub fn describe(s: &Scenario, start: usize, path: &[usize]) -> String {
    format!("{} start {}: {}", s.name, start, path.iter().map(|i| show(&s.ops[*i])).collect::<Vec<_>>().join("; "))
}

thread_local!(static BLANK: std::cell::RefCell<Option<verif::State>> = std::cell::RefCell::new(None));

pub const ADMIN: u8 = 1;
pub fn boot() {
    rt::install(io::InvariantConfig { admin: rt::actor(ADMIN), protocol_fee: pct(10_000_000_000) });
    BLANK.with(|b| *b.borrow_mut() = Some(verif::snapshot()));
}

/// Back to the freshly installed contract.
pub fn blank() { BLANK.with(|b| verif::restore(b.borrow().as_ref().expect("boot"))); rt::set_clock(10, 1_000_000); }

/// Executes the setup and a start prefix. Findings on the way count like any others. None when the
/// contract has strayed so far that the rest of the setup makes no sense any more.
pub fn start_node(s: &Scenario, start: usize, found: &mut Vec<(usize, Finding)>) -> Option<Node> {
    BLANK.with(|b| verif::restore(b.borrow().as_ref().expect("boot")));
    rt::set_clock(s.b0, s.t0);
    let mut odd = vec![];
    let st = bridge::observe(&s.u, &mut odd);
    let mut node = Node { snap: verif::snapshot(), st, now: s.t0, block: s.b0, custody: BTreeMap::new(), strayed: false };
    for (i, a) in s.setup.iter().chain(&s.starts[start]).enumerate() {
        beat(start, &[]);
        let r = step(&s.u, &node, a.0, &a.1);
        found.extend(r.findings.into_iter().map(|f| (i, f)));
        if r.model.is_err() {
            if found.is_empty() { panic!("harness: setup of {} step {i} {} is rejected by the model: {:?}", s.name, show(a), r.model.err()); }
            return None;
        }
        node = r.node;
    }
    Some(node)
}

pub fn workers() -> usize { std::env::var("MC_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8) }

pub fn explore(s: &Scenario, c: &Check, cap_secs: u64) -> Report {
    let t = Instant::now();
    let deadline = t + std::time::Duration::from_secs(cap_secs);
    let sh = Shared::new(26);
    let mut rep = Report { scenario: s.name.clone(), depth: s.depth, starts: s.starts.len(), alphabet: s.ops.len(), ..Default::default() };
    let mut jobs: Vec<(usize, Vec<usize>, Node)> = vec![];
    let mut w = Worker { s, c, sh: &sh, outcomes: BTreeMap::new(), found: vec![], deadline, sample: None, start: 0 };
    for b in 0..s.starts.len() {
        w.start = b;
        let mut pre = vec![];
        let root = start_node(s, b, &mut pre);
        sh.ctr(C_TRANS).fetch_add((s.setup.len() + s.starts[b].len()) as u64, SeqCst);
        for (i, f) in pre { let _ = i; w.record(&[], &[f]); }
        let Some(root) = root else { rep.skipped += 1; continue };
        w.enter(&root, s.depth, &[]);
        jobs.push((b, vec![], root));
    }
    // widen until there is enough to share out
    let mut left = s.depth;
    while left > 0 && jobs.len() < 64 {
        let mut next = vec![];
        for (b, path, node) in &jobs {
            w.start = *b;
            for i in 0..s.ops.len() {
                let mut p = path.clone(); p.push(i);
                let nx = w.edge(node, i, &p);
                if w.enter(&nx, left - 1, &p) { next.push((*b, p, nx)); }
            }
        }
        jobs = next;
        left -= 1;
    }
    if left == 0 { if let Some(j) = jobs.first() { w.sample = Some(describe(s, j.0, &j.1)); } }
    if left > 0 {
        let nw = workers();
        let dir = scratch();
        pool(nw, &mut w.found, &s.name, &|k| {
            let mut w = Worker { s, c, sh: &sh, outcomes: BTreeMap::new(), found: vec![], deadline, sample: None, start: 0 };
            loop {
                let j = sh.ctr(C_NEXT).fetch_add(1, SeqCst) as usize;
                if j >= jobs.len() { break; }
                let (b, path, node) = &jobs[j];
                w.start = *b;
                let mut p = path.clone();
                w.dfs(node, left, &mut p);
            }
            let mut o = String::new();
            for (k, v) in &w.outcomes { o.push_str(&format!("o\t{v}\t{k}\n")); }
            for v in &w.found { o.push_str(&format!("v\t{}\t{}\t{}\t{}\t{}\n", v.start, v.path.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), v.op, v.group, v.detail.replace(['\t', '\n'], " "))); }
            if let Some(x) = &w.sample { o.push_str(&format!("s\t{x}\n")); }
            std::fs::write(dir.join(format!("w{k}")), o).is_ok()
        });
        for k in 0..nw {
            let Ok(t) = std::fs::read_to_string(dir.join(format!("w{k}"))) else { continue };
            for l in t.lines() {
                let p: Vec<&str> = l.split('\t').collect();
                match p[0] {
                    "o" => *w.outcomes.entry(p[2].into()).or_default() += p[1].parse::<u64>().unwrap(),
                    "s" => if w.sample.is_none() { w.sample = Some(p[1].into()) },
                    _ => w.found.push(Violation { scenario: s.name.clone(), start: p[1].parse().unwrap(), path: p[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(), op: p[3].into(), group: p[4].into(), detail: p[5].into() }),
                }
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
    w.found.sort_by_key(|v| v.path.len());
    let mut seen = BTreeSet::new();
    rep.violations = w.found.into_iter().filter(|v| seen.insert((v.op.clone(), v.group.clone()))).collect();
    rep.outcomes = w.outcomes;
    rep.samples = w.sample.into_iter().collect();
    rep.states = sh.ctr(C_STATES).load(SeqCst);
    rep.transitions = sh.ctr(C_TRANS).load(SeqCst);
    rep.accepted = sh.ctr(C_OK).load(SeqCst);
    rep.traces = sh.ctr(C_LEAF).load(SeqCst);
    rep.capped = sh.ctr(C_CAP).load(SeqCst) != 0 || (sh.ctr(C_STOP).load(SeqCst) > 40);
    rep.secs = t.elapsed().as_secs_f64();
    quiet();
    rep
}

/// Re-executes one path; the findings of its last step and final state.
pub fn replay(s: &Scenario, c: &Check, start: usize, path: &[usize], verbose: bool) -> Vec<Finding> {
    let mut pre = vec![];
    let node = start_node(s, start, &mut pre);
    if verbose { for a in s.setup.iter().chain(&s.starts[start]) { println!("  setup {}", show(a)); } }
    let mut fs: Vec<Finding> = pre.into_iter().map(|x| x.1).collect();
    if verbose { for f in &fs { println!("      {} {}: {}", f.op, f.group, f.detail); } }
    let Some(mut node) = node else { fs.retain(|f| (c.filter)(f)); return fs };
    if path.is_empty() { for k in &c.nodes { judged(&mut fs, "state", node.strayed, |f| k(s, &node, f)); } }
    for i in path {
        fs.clear();
        beat(start, path);
        let a = &s.ops[*i];
        let st = step(&s.u, &node, a.0, &a.1);
        fs.extend(st.findings.iter().cloned());
        for k in &c.steps { judged(&mut fs, kind(&a.1), st.node.strayed, |f| k(s, &node, a, &st, f)); }
        for k in &c.nodes { judged(&mut fs, "state", st.node.strayed, |f| k(s, &st.node, f)); }
        if verbose { println!("  {} -> {}", show(a), if st.out.ok() { "ok".to_string() } else { format!("trap {}", st.out.trap()) }); for f in &fs { println!("      {} {}: {}", f.op, f.group, f.detail); } }
        node = st.node;
    }
    fs.retain(|f| (c.filter)(f) || f.group == "query.trap");
    fs
}

// ---- supervision ---------------------------------------------------------------------------------
// Every process writes the path it is about to execute to shared memory. An execution that does not
// end within STEP_SECS, or that brings its process down, is a violation of its own ("hang", "crash"):
// on chain it would run out of gas or memory.
pub const STEP_SECS: u32 = 30;
const SLOT: usize = 64;
static mut BEATS: *mut u32 = std::ptr::null_mut();
static mut MINE: usize = 63;
/// Call once, before any fork.
pub fn beats() {
    let p = unsafe { libc::mmap(std::ptr::null_mut(), 64 * SLOT * 4, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
    assert!(p != libc::MAP_FAILED, "harness: mmap");
    unsafe { BEATS = p as *mut u32; }
}
pub fn beat(start: usize, path: &[usize]) {
    unsafe {
        if BEATS.is_null() { return; }
        let b = BEATS.add(MINE * SLOT);
        b.write_volatile(start as u32); b.add(1).write_volatile(path.len().min(SLOT - 2) as u32);
        for (i, p) in path.iter().take(SLOT - 2).enumerate() { b.add(2 + i).write_volatile(*p as u32); }
        libc::alarm(STEP_SECS);
    }
}
extern "C" fn hung(_: i32) { unsafe { libc::_exit(9) } }
pub fn watch(slot: usize) {
    unsafe {
        MINE = slot;
        libc::signal(libc::SIGALRM, hung as extern "C" fn(i32) as libc::sighandler_t);
        libc::alarm(0);
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
}
/// How a supervised process ended: fine, a violation at the last path it announced, or an error of the check.
pub fn settle(slot: usize, st: i32, scenario: &str) -> Option<Violation> {
    if st == 0 { return None; }
    let what = if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 9 { ("hang", format!("execution did not end within {STEP_SECS} s")) }
        else if libc::WIFSIGNALED(st) && [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&libc::WTERMSIG(st)) { ("crash", format!("execution brought the process down with signal {}", libc::WTERMSIG(st))) }
        else { eprintln!("harness: a worker process failed (status {st})"); std::process::exit(3); };
    let w: Vec<usize> = unsafe { let b = BEATS.add(slot * SLOT); (0..SLOT).map(|i| b.add(i).read_volatile() as usize).collect() };
    Some(Violation { scenario: scenario.into(), start: w[0], path: w[2..2 + w[1]].to_vec(), op: "any".into(), group: what.0.into(), detail: what.1 })
}
pub fn quiet() { unsafe { libc::alarm(0); } }
/// Runs jobs in forked processes, a bounded number at a time.
pub fn pool(jobs: usize, found: &mut Vec<Violation>, scenario: &str, run: &dyn Fn(usize) -> bool) {
    unsafe { libc::alarm(0); }
    let mut next = 0;
    let mut live: Vec<(i32, usize)> = vec![];
    while next < jobs || !live.is_empty() {
        if next < jobs && live.len() < workers() {
            let slot = (0..63).find(|s| live.iter().all(|l| l.1 != *s)).unwrap();
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0, "harness: fork");
            if pid == 0 {
                watch(slot);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(next)));
                let ok = matches!(r, Ok(true));
                if !ok { eprintln!("harness: worker failed: {:?}", rt::last_panic()); }
                unsafe { libc::_exit(if ok { 0 } else { 7 }) };
            }
            live.push((pid, slot));
            next += 1;
            continue;
        }
        let mut st = 0;
        let pid = unsafe { libc::waitpid(-1, &mut st, 0) };
        if let Some(i) = live.iter().position(|l| l.0 == pid) { found.extend(settle(live.remove(i).1, st, scenario)); }
    }
}

static SCRATCH: AtomicUsize = AtomicUsize::new(0);
pub fn scratch() -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("mc-{}-{}", std::process::id(), SCRATCH.fetch_add(1, SeqCst)));
    std::fs::create_dir_all(&d).expect("harness: scratch");
    d
}
