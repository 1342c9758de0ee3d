//! Exhaustive enumeration of a finite input space: every case is executed on the implementation and
//! judged against the reference.
use crate::explore::{self as x, Report, Violation};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Tally {
    /// calls into the implementation
    pub calls: u64,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub bad: Vec<(&'static str, String)>,
}
impl Tally {
    pub fn call<R>(&mut self, f: impl FnOnce() -> R) -> R { self.calls += 1; f() }
    pub fn saw(&mut self, o: &'static str) { *self.outcomes.entry(o).or_default() += 1; }
    pub fn bad(&mut self, g: &'static str, d: String) { self.bad.push((g, d)); }
}
pub struct Enumeration {
    pub name: String,
    pub rule: String,
    pub size: u64,
    pub case: Box<dyn Fn(u64, &mut Tally)>,
    pub show: Box<dyn Fn(u64) -> String>,
}
/// Mixed-radix digits of a case number.
pub fn digits(mut i: u64, radix: &[usize]) -> Vec<usize> {
    radix.iter().map(|r| { let d = (i % *r as u64) as usize; i /= *r as u64; d }).collect()
}
pub fn run_case(e: &Enumeration, i: u64) -> Tally {
    let mut t = Tally::default();
    x::beat(0, &[(i >> 32) as usize, (i & 0xffff_ffff) as usize]);
    if let Err(m) = crate::rt::guarded(|| (e.case)(i, &mut t)) { t.bad("trap", format!("trapped: {m}")); }
    t
}
pub fn index_of(path: &[usize]) -> u64 { if path.len() == 2 { ((path[0] as u64) << 32) | path[1] as u64 } else { 0 } }

pub fn explore(e: &Enumeration, cap_secs: u64) -> Report {
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(cap_secs);
    let mut rep = Report { scenario: e.name.clone(), rule: e.rule.clone(), depth: 1, starts: 1, alphabet: e.size as usize, ..Default::default() };
    let sh = x::Shared::new(4);
    let block = (e.size / 2048).clamp(1, 1 << 16);
    let blocks = e.size.div_ceil(block);
    let dir = x::scratch();
    let mut found = vec![];
    x::pool(x::workers().min(blocks.max(1) as usize), &mut found, &e.name, &|k| {
        let mut outcomes: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut found: Vec<Violation> = vec![];
        let (mut calls, mut cases, mut fine) = (0u64, 0u64, 0u64);
        'all: loop {
            let b = sh.ctr(x::C_NEXT).fetch_add(1, SeqCst);
            if b >= blocks { break; }
            for i in b * block..((b + 1) * block).min(e.size) {
                if sh.ctr(x::C_STOP).load(SeqCst) > 40 { break 'all; }
                if Instant::now() > deadline { sh.ctr(x::C_CAP).store(1, SeqCst); break 'all; }
                let t = run_case(e, i);
                calls += t.calls; cases += 1;
                if t.bad.is_empty() { fine += 1; }
                for (k, v) in t.outcomes { *outcomes.entry(k).or_default() += v; }
                for (g, d) in t.bad {
                    if found.iter().any(|v| v.group == g) { continue; }
                    found.push(Violation { scenario: e.name.clone(), start: 0, path: vec![(i >> 32) as usize, (i & 0xffff_ffff) as usize], op: "case".into(), group: g.into(), detail: d });
                    sh.ctr(x::C_STOP).fetch_add(1, SeqCst);
                }
            }
        }
        sh.ctr(x::C_STATES).fetch_add(cases, SeqCst);
        sh.ctr(x::C_TRANS).fetch_add(calls, SeqCst);
        sh.ctr(x::C_LEAF).fetch_add(fine, SeqCst);
        let mut o = String::new();
        for (k, v) in &outcomes { o.push_str(&format!("o\t{v}\t{k}\n")); }
        for v in &found { o.push_str(&format!("v\t{},{}\t{}\t{}\n", v.path[0], v.path[1], v.group, v.detail.replace(['\t', '\n'], " "))); }
        std::fs::write(dir.join(format!("w{k}")), o).is_ok()
    });
    for k in 0..x::workers() {
        let Ok(t) = std::fs::read_to_string(dir.join(format!("w{k}"))) else { continue };
        for l in t.lines() {
            let q: Vec<&str> = l.split('\t').collect();
            if q[0] == "o" { *rep.outcomes.entry(q[2].into()).or_default() += q[1].parse::<u64>().unwrap(); continue; }
            found.push(Violation { scenario: e.name.clone(), start: 0, path: q[1].split(',').map(|x| x.parse().unwrap()).collect(), op: "case".into(), group: q[2].into(), detail: q[3].into() });
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    found.sort_by_key(|v| index_of(&v.path));
    let mut seen = std::collections::BTreeSet::new();
    rep.violations = found.into_iter().filter(|v| seen.insert(v.group.clone())).collect();
    if e.size > 0 { rep.samples.push(format!("{}: {}", e.name, (e.show)(e.size * 2 / 3))); }
    rep.states = sh.ctr(x::C_STATES).load(SeqCst);
    rep.transitions = sh.ctr(x::C_TRANS).load(SeqCst);
    rep.traces = sh.ctr(x::C_LEAF).load(SeqCst);
    rep.capped = sh.ctr(x::C_CAP).load(SeqCst) != 0 || sh.ctr(x::C_STOP).load(SeqCst) > 40;
    rep.secs = t0.elapsed().as_secs_f64();
    x::quiet();
    rep
}
