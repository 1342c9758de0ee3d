mod rt; mod num; mod model; mod bridge; mod explore; mod enumer;
#[cfg(feature = "sdk")] mod sdk;
#[cfg(feature = "sdk")] mod sdkgrid;
#[cfg(feature = "sdk")] mod client;
#[cfg(feature = "sdk")] mod clientgrid;
#[cfg(feature = "token")] mod token;
mod grids; mod bulk; mod scen; mod checks; mod vft; mod protos; mod props;
use explore::{Report, Violation};
use props::Job;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::time::Instant;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}
fn run(j: &Job, cap: u64) -> Report {
    match j {
        Job::Explore(s, c) => explore::explore(s, c, cap),
        Job::Proto(p, f) => vft::explore(p, *f, cap),
        Job::Enum(e) => enumer::explore(e, cap),
    }
}
fn text(j: &Job, v: &Violation) -> String {
    match j {
        Job::Explore(s, _) => explore::describe(s, v.start, &v.path),
        Job::Proto(p, _) => if v.group == "hang" || v.group == "crash" { format!("{}: schedule {:?}", p.name, v.path) } else { vft::path_text(p, &v.path) },
        Job::Enum(e) => format!("{}: {}", e.name, (e.show)(enumer::index_of(&v.path))),
    }
}
/// Findings (operation, group) of one path, re-executed.
fn again(j: &Job, start: usize, path: &[usize], verbose: bool) -> Vec<(String, String, String)> {
    match j {
        Job::Explore(s, c) => explore::replay(s, c, start, path, verbose).into_iter().map(|f| (f.op.to_string(), f.group, f.detail)).collect(),
        Job::Proto(p, f) => {
            if verbose { println!("  {}", vft::path_text(p, path)); }
            vft::run_path(p, path, None).0.into_iter().filter(|x| f(x)).map(|f| (f.op.to_string(), f.group, f.detail)).collect()
        }
        Job::Enum(e) => enumer::run_case(e, enumer::index_of(path)).bad.into_iter().map(|(g, d)| ("case".to_string(), g.to_string(), d)).collect(),
    }
}
/// Re-executes a violation in a process of its own; whether it shows again.
fn confirm(j: &Job, v: &Violation) -> bool {
    let dir = explore::scratch();
    let mut found = vec![];
    explore::pool(1, &mut found, &v.scenario, &|_| {
        let hit = again(j, v.start, &v.path, false).iter().any(|(o, g, _)| *o == v.op && *g == v.group);
        explore::quiet();
        std::fs::write(dir.join("r"), if hit { "1" } else { "0" }).is_ok()
    });
    let r = found.iter().any(|f| f.group == v.group) || std::fs::read_to_string(dir.join("r")).map_or(false, |x| x == "1");
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn known() -> Vec<(String, String)> {
    std::fs::read_to_string("/verif/known-findings.txt").unwrap_or_default().lines()
        .filter_map(|l| l.strip_prefix("known: property=")).filter_map(|l| l.split_once(' ')).map(|(a, b)| (a.to_string(), b.trim().to_string())).collect()
}

fn out() -> String { std::env::var("MC_OUT").unwrap_or("/verif/evidence".into()) }
struct Summary { states: u64, transitions: u64, traces: u64, capped: bool, skipped: usize }

fn evidence(id: &str, tier: &str, reps: &[Report], secs: f64, violations: usize) -> std::io::Result<()> {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    let s = sum(reps);
    let mut parts = vec![];
    let mut samples = vec![];
    let mut rules = vec![];
    for r in reps {
        let oc = r.outcomes.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",");
        parts.push(format!("{{\"name\":{},\"alphabet\":{},\"starts\":{},\"depth\":{},\"states\":{},\"transitions\":{},\"complete_traces\":{},\"capped\":{},\"wall_s\":{:.1},\"outcomes\":{{{oc}}}}}", js(&r.scenario), r.alphabet, r.starts, r.depth, r.states, r.transitions, r.traces, r.capped, r.secs));
        if samples.len() < 12 { samples.extend(r.samples.iter().map(|x| js(x))); }
        if !r.rule.is_empty() { rules.push(format!("{}: {}", r.scenario, r.rule)); }
    }
    let expl = "Every sequence of the alphabet up to the depth, from every start state, was executed on the contract compiled from the working tree, and every transition compared with the reference model (exchange and transfer scenarios); or every case of the named finite input grid was executed and compared (enumerations). states: distinct states (or grid cases); transitions: operations executed on the implementation; traces_validated_against_impl: complete executions whose every step was replayed against the implementation.";
    let e = format!("{{\n\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":\"model_checking\",\n\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{},\n\"samples\":[{}],\n\"rule\":{},\n\"explanation\":{},\n\"explorations\":[\n{}\n]}},\n\"assumptions\":[\"the message runtime is modelled: atomic messages, revert on trap, wait list, replies in any order\",\"nothing beyond the bounds listed per exploration was executed\"],\n\"wall_s\":{secs:.1},\"violations\":{violations}\n}}\n",
        js(id), js(tier), s.states, s.transitions, s.traces, !s.capped && s.skipped == 0, samples.join(",\n"), js(&rules.join(" | ")), js(expl), parts.join(",\n"));
    std::fs::create_dir_all(out())?;
    std::fs::write(format!("{}/{id}.json", out()), e)
}
fn sum(reps: &[Report]) -> Summary {
    Summary { states: reps.iter().map(|r| r.states).sum(), transitions: reps.iter().map(|r| r.transitions).sum(), traces: reps.iter().map(|r| r.traces).sum(), capped: reps.iter().any(|r| r.capped), skipped: reps.iter().map(|r| r.skipped).sum() }
}

/// `only`: restrict to the explorations whose name starts so (for development; writes no evidence).
fn check(id: &str, tier: &str, only: &str) -> i32 {
    let t = Instant::now();
    let deep = tier == "thorough";
    let Some(jobs) = props::jobs(id, deep) else { eprintln!("no property {id}"); return 2 };
    let jobs: Vec<Job> = jobs.into_iter().filter(|j| j.name().starts_with(only)).collect();
    let budget = if deep { 780 } else { 600 };
    let known = known();
    let mut reps = vec![];
    let (mut news, mut flaky) = (0, 0);
    for (ji, j) in jobs.iter().enumerate() {
        let left = (budget as f64 - t.elapsed().as_secs_f64()).max(5.0);
        let cap = if deep { (left / (jobs.len() - ji) as f64 * 2.0).min(left) } else { left };
        let r = run(j, cap as u64);
        println!("{}: {} states, {} transitions, {} complete traces, depth {}, {} outcomes{}, {:.1} s", r.scenario, r.states, r.transitions, r.traces, r.depth, r.outcomes.len(), if r.capped { ", CAPPED" } else { "" }, r.secs);
        for v in r.violations.iter().take(5) {
            let what = text(j, v);
            if known.iter().any(|k| k.0 == id && k.1 == what) { println!("KNOWN-FINDING: property={id} {what}: {}", v.detail); continue; }
            if !(confirm(j, v) && confirm(j, v)) { println!("not reproduced: {what}: {} {}", v.op, v.group); flaky += 1; continue; }
            news += 1;
            if news <= 8 {
                let _ = std::fs::create_dir_all(out());
                let f = format!("{}/{id}-{news}.replay", out());
                let _ = std::fs::write(&f, format!("property {id}\ntier {tier}\njob {}\nstart {}\npath {}\nat {what}\nwhat {} {}: {}\n", v.scenario, v.start, v.path.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), v.op, v.group, v.detail));
                println!("VIOLATION property={id} replay={f}");
                println!("   {} {}: {}", v.op, v.group, cut(&v.detail));
                println!("   after {}", cut(&what));
            }
        }
        reps.push(r);
        if news > 0 && !deep { break; }
    }
    let s = sum(&reps);
    let w = if only.is_empty() { evidence(id, tier, &reps, t.elapsed().as_secs_f64(), news) } else { Ok(()) };
    println!("{id} {tier}: {} states, {} transitions, {} complete traces in {:.1} s", s.states, s.transitions, s.traces, t.elapsed().as_secs_f64());
    if let Err(e) = w { eprintln!("harness: evidence: {e}"); return 3; }
    if news > 0 { return 1; }
    if flaky > 0 { eprintln!("harness: {flaky} findings could not be reproduced"); return 3; }
    if s.skipped > 0 { eprintln!("harness: {} start states could not be set up", s.skipped); return 3; }
    0
}
fn cut(s: &str) -> String { if s.len() > 600 { format!("{}...", s.chars().take(600).collect::<String>()) } else { s.to_string() } }

fn replay(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let m: BTreeMap<&str, &str> = t.lines().filter_map(|l| l.split_once(' ')).collect();
    let jobs = props::jobs(m["property"], m["tier"] == "thorough").expect("property");
    let j = jobs.iter().find(|j| j.name() == m["job"]).expect("exploration");
    let path: Vec<usize> = m.get("path").unwrap_or(&"").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    println!("{}", m["at"]);
    let r = again(j, m["start"].parse().unwrap(), &path, true);
    for f in &r { println!("  !! {} {}: {}", f.0, f.1, f.2); }
    if r.is_empty() { println!("  no violation"); 0 } else { 1 }
}

/// Everything runs in a child, so that a hang or a crash outside the workers is noticed as well.
fn supervised(id: &str, tier: &str, only: &str) -> i32 {
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0);
    if pid == 0 {
        explore::watch(63);
        let r = std::panic::catch_unwind(|| check(id, tier, only));
        use std::io::Write;
        let _ = std::io::stdout().flush();
        if r.is_err() { eprintln!("harness: check failed: {:?}", rt::last_panic()); }
        unsafe { libc::_exit(r.unwrap_or(3)) };
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) != 9 { return libc::WEXITSTATUS(st); }
    match explore::settle(63, st, "setup") {
        None => 3,
        Some(v) => {
            let _ = std::fs::create_dir_all(out());
            let f = format!("/verif/evidence/{id}-0.replay");
            let _ = std::fs::write(&f, format!("property {id}\ntier {tier}\njob setup\nstart {}\npath {:?}\nwhat {}\n", v.start, v.path, v.detail));
            let _ = evidence(id, tier, &[], 0.0, 1);
            println!("VIOLATION property={id} replay={f}\n   {}", v.detail);
            1
        }
    }
}

fn main() {
    explore::beats();
    explore::boot();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    std::process::exit(match a[..] {
        ["check", id, tier @ ("quick" | "thorough")] => supervised(id, tier, ""),
        ["check", id, tier @ ("quick" | "thorough"), only] => supervised(id, tier, only),
        ["replay", f] => replay(f),
        _ => { eprintln!("usage: mc check <property> quick|thorough | mc replay <file>"); 2 }
    });
}
