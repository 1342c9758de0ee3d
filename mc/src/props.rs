//! Which explorations decide which property, and within which bounds.
use crate::bulk;
use crate::checks;
use crate::enumer::Enumeration;
use crate::grids;
use crate::explore::{Check, Finding, NodeCheck, Scenario, StepCheck};
use crate::protos;
use crate::scen;
#[cfg(feature = "sdk")]
use crate::{client, clientgrid, sdk, sdkgrid};
use crate::vft::Proto;

pub enum Job { Explore(Scenario, Check), Proto(Proto, fn(&Finding) -> bool), Enum(Enumeration) }
impl Job {
    pub fn name(&self) -> &str { match self { Job::Explore(s, _) => &s.name, Job::Proto(p, _) => &p.name, Job::Enum(e) => &e.name } }
}

type F = fn(&Finding) -> bool;
fn g(f: &Finding, l: &[&str]) -> bool { l.iter().any(|x| f.group == *x || (x.ends_with('.') && f.group.starts_with(x))) }
fn o(f: &Finding, l: &[&str]) -> bool { l.contains(&f.op) }
const MONEY: &[&str] = &["Swap", "SwapRoute", "CreatePosition", "RemovePosition", "ClaimFee", "WithdrawProtocolFee"];

/// The exploration of the exchange: scenario family with the depth of the quick and the thorough tier.
fn exchange(names: &[&str], deep: bool, filter: F, nodes: &[NodeCheck], steps: &[StepCheck]) -> Vec<Job> {
    let names: Vec<_> = names.iter().map(|n| (*n, 0, 0)).collect();
    exchange_at(&names, deep, filter, nodes, steps)
}
/// The same with depths of its own where they are not zero.
fn exchange_at(names: &[(&str, usize, usize)], deep: bool, filter: F, nodes: &[NodeCheck], steps: &[StepCheck]) -> Vec<Job> {
    let c = Check { filter, nodes: nodes.to_vec(), steps: steps.to_vec() };
    let mut v: Vec<Scenario> = vec![];
    for (n, quick, thorough) in names {
        let d = |q: usize, t: usize| match if deep { *thorough } else { *quick } { 0 => if deep { t } else { q }, x => x };
        match *n {
            "core" => v.push(scen::core(d(4, 6))),
            "sweep" => v.extend(scen::sweep(60, d(2, 3))),
            "dust" => v.extend(scen::dust(d(3, 4))),
            "wide" => v.extend(scen::wide(d(3, 4))),
            "multi" => v.push(scen::multi(d(3, 5))),
            "roles" => v.push(scen::roles(d(3, 5))),
            "params" => v.push(scen::params(d(2, 3))),
            "ledger" => v.push(scen::ledger(d(4, 6))),
            "bank" => v.push(scen::bank(d(4, 6))),
            "clock" => v.push(scen::clock(d(4, 6))),
            "fees" => v.extend(scen::fees(d(4, 6))),
            "growth" => v.extend(scen::growth(d(5, 6))),
            "long" => v.extend(scen::long(d(1, 2))),
            "paging" => v.extend(scen::paging(d(2, 3))),
            x => panic!("harness: no scenario {x}"),
        }
    }
    v.into_iter().map(|s| Job::Explore(s, c.clone())).collect()
}
fn and(mut v: Vec<Job>, e: Vec<Enumeration>) -> Vec<Job> { v.extend(e.into_iter().map(Job::Enum)); v }
const EVERY: &[&str] = &["core", "sweep", "dust", "wide", "multi", "roles", "params", "ledger", "bank", "clock", "fees", "growth", "long"];
const ALL: &[&str] = &["core", "sweep", "dust", "wide", "multi", "roles", "params", "ledger", "bank", "clock", "fees", "growth"];

pub fn jobs(id: &str, deep: bool) -> Option<Vec<Job>> {
    grids::thorough(deep);
    let d = |q: usize, t: usize| if deep { t } else { q };
    let ex = |names: &[&str], f: F, n: &[NodeCheck], s: &[StepCheck]| exchange(names, deep, f, n, s);
    Some(match id {
        "C01" => ex(ALL, |f| g(f, &["inv.solvent", "inv.residue", "balances", "custody"]), &[checks::drain], &[checks::edges]),
        "C02" => ex(ALL, |f| g(f, &["accepts", "rejects"]), &[], &[checks::edges]),
        "C03" => ex(&["core", "sweep", "wide", "ledger", "clock", "multi", "dust", "long"], |f| g(f, &["pool.liquidity", "tick.liquidity", "tick.exists", "tick.flags", "inv.liquidity", "inv.ticks", "inv.flags", "inv.residue"]), &[checks::liquidity, checks::ticks, checks::drain, checks::stops], &[]),
        "C04" => ex(&["core", "sweep", "wide", "dust", "fees", "multi", "params", "long"], |f| g(f, &["pool.price", "pool.tick", "tick.price", "inv.price"]), &[checks::price_tick, checks::stops], &[checks::edges]),
        "C05" => ex(&["core", "sweep", "wide", "dust", "fees", "params", "multi", "long"], |f| o(f, &["Swap"]) && !g(f, &["events", "pool.time", "tick.time", "error.kind", "inv."]), &[checks::stops], &[checks::edges]),
        "C06" => {
            let f: F = |f| g(f, &["inv.roundtrip", "inv.profit"]) || o(f, MONEY) && g(f, &["result", "result.amounts", "balances"]);
            let mut v = ex(&["dust"], f, &[checks::no_profit], &[checks::round_trip]);
            v.extend(ex(&["core", "sweep", "wide", "multi"], f, &[], &[checks::round_trip]));
            v
        }
        "C07" => ex(&["growth", "fees", "core", "sweep", "multi", "clock", "ledger", "long"], |f| g(f, &["pool.fees", "pool.protocol", "pos.fees", "tick.fees", "result.fee", "config", "inv.solvent"]) || o(f, &["ClaimFee", "WithdrawProtocolFee"]) && !g(f, &["error.kind", "events"]), &[checks::drain], &[]),
        "C08" => ex(&["core", "sweep", "dust", "wide", "fees", "params", "multi", "long"], |f| g(f, &["inv.quote"]), &[], &[checks::quote, checks::quote_at_edges]),
        "C09" => ex(&["multi"], |f| o(f, &["SwapRoute"]) && !g(f, &["error.kind", "events"]), &[], &[checks::quote, checks::edges]),
        "C10" => ex(&["roles", "params", "fees", "multi"], |f| o(f, &["ChangeProtocolFee", "AddFeeTier", "RemoveFeeTier", "ChangeFeeReceiver", "WithdrawProtocolFee"]) && !g(f, &["error.kind"]) || g(f, &["config", "pool.receiver"]), &[], &[checks::isolation]),
        "C11" => and(ex(&["roles", "params", "multi"], |f| g(f, &["tiers", "keys", "inv.keys", "inv.tiers", "inv.pair"]) || o(f, &["CreatePool", "AddFeeTier", "RemoveFeeTier"]) && !g(f, &["error.kind"]), &[checks::registries], &[]), vec![bulk::many_pools()]),
        "C12" => ex(&["ledger", "core", "multi"], |f| g(f, &["positions"]) || o(f, &["TransferPosition", "RemovePosition"]) && !g(f, &["error.kind", "events"]), &[], &[checks::isolation]),
        "C13" => and(ex(&["paging", "ledger", "roles", "multi", "bank", "core"], |f| g(f, &["q.count", "q.position", "q.page", "q.pools", "q.balances"]), &[checks::pages], &[]), vec![bulk::many_pools(), bulk::many_ticks()]),
        "C14" => and(ex(&["paging", "wide", "core", "ledger", "multi"], |f| g(f, &["q.tickmap", "q.tickcount", "q.liqticks", "q.flag", "q.tick", "q.posticks", "tick.flags"]), &[checks::tick_queries], &[]), vec![bulk::many_ticks()]),
        "C15" => ex(EVERY, |f| g(f, &["events"]), &[], &[]),
        "C16" => ex(&["clock", "core", "ledger", "multi"], |f| g(f, &["pool.time", "tick.time", "pos.block", "inv.time"]), &[checks::times], &[]),
        "C17" => ex(&["params", "core", "wide", "dust", "clock", "ledger"], |f| o(f, &["CreatePosition"]) && !g(f, &["error.kind", "events", "pool.time", "tick.time"]), &[], &[checks::round_trip, checks::edges]),
        "C18" => ex(ALL, |f| g(f, &["inv.closable", "rejects"]), &[checks::drain], &[]),
        "C19" => ex(&["multi", "ledger", "roles", "bank", "core"], |f| g(f, &["inv.isolation"]), &[], &[checks::isolation]),
        "D01" => {
            let f: F = |f| o(f, &["Deposit"]) && !g(f, &["error.kind"]) || g(f, &["custody"]);
            vec![Job::Proto(protos::singles(d(6, 8), 2), f), Job::Proto(protos::busy(d(5, 6)), f), Job::Proto(protos::requests(d(3, 3)), f), Job::Proto(protos::brim(d(5, 6)), f)]
        }
        "D02" => {
            let f: F = |f| o(f, &["Withdraw"]) && !g(f, &["error.kind"]) || g(f, &["custody"]);
            vec![Job::Proto(protos::singles(d(6, 8), 2), f), Job::Proto(protos::busy(d(5, 6)), f), Job::Proto(protos::requests(d(3, 3)), f), Job::Proto(protos::brim(d(5, 6)), f)]
        }
        "D03" => {
            let f: F = |f| o(f, &["DepositPair", "WithdrawPair"]) && !g(f, &["error.kind"]) || g(f, &["custody"]);
            vec![Job::Proto(protos::pairs(d(6, 8)), f), Job::Proto(protos::mixed(d(6, 8)), f), Job::Proto(protos::requests(d(3, 3)), f), Job::Proto(protos::brim(d(5, 6)), f)]
        }
        "D04" => ex(&["bank"], |f| o(f, &["DepositVara", "WithdrawVara"]) && !g(f, &["error.kind"]) || g(f, &["inv.solvent", "inv.closable"]), &[checks::drain], &[]),
        "D05" => vec![Job::Proto(protos::authentic(d(5, 6)), |f| !g(f, &["error.kind"]))],
        "D06" => vec![Job::Proto(protos::late(d(6, 8)), |f| !g(f, &["error.kind"])), Job::Proto(protos::busy(d(5, 6)), |f| !g(f, &["error.kind"]))],
        #[cfg(feature = "sdk")]
        "E01" => ex(&["core", "sweep", "dust", "wide", "fees", "params", "multi", "growth", "long"], |f| g(f, &["sdk.simulation"]), &[], &[sdk::simulation, sdk::simulation_at_edges]),
        #[cfg(feature = "sdk")]
        "E02" => ex(&["core", "ledger", "wide", "fees", "dust", "multi", "growth", "clock"], |f| g(f, &["sdk.position"]), &[sdk::holdings], &[]),
        #[cfg(feature = "sdk")]
        "E03" => vec![Job::Enum(sdkgrid::moves(true)), Job::Enum(sdkgrid::ranges(true)), Job::Enum(sdkgrid::ticks(true)), Job::Enum(sdkgrid::spacings()), Job::Enum(sdkgrid::fees(true)), Job::Enum(sdkgrid::minimum(true))],
        #[cfg(feature = "sdk")]
        "E04" => and(exchange_at(&[("core", 4, 5), ("roles", 4, 6), ("multi", 3, 5), ("ledger", 4, 6), ("bank", 5, 6), ("params", 2, 3), ("clock", 4, 6)], deep, |f| g(f, &["client.request", "client.result", "client.events"]), &[], &[client::through]),
            vec![clientgrid::token_calls(), clientgrid::token_races(), clientgrid::pairs(), clientgrid::slippage(), clientgrid::batches(d(2, 3) as u32), clientgrid::listeners(d(3, 5) as u32), clientgrid::deployments()]),
        #[cfg(feature = "sdk")]
        "E05" => exchange_at(&[("core", 2, 4), ("roles", 2, 3), ("multi", 2, 3), ("ledger", 2, 4), ("bank", 2, 4), ("paging", 1, 2), ("wide", 2, 3)], deep, |f| g(f, &["client.view."]), &[client::views], &[]),
        #[cfg(feature = "sdk")]
        "E06" => and(exchange_at(&[("core", 2, 3), ("multi", 2, 3), ("fees", 2, 3), ("wide", 2, 3), ("growth", 2, 4)], deep, |f| g(f, &["client.helper"]), &[client::helpers], &[]), vec![clientgrid::helpers()]),
        #[cfg(feature = "token")]
        "T01" => vec![Job::Enum(crate::token::roles(d(3, 4) as u32))],
        #[cfg(feature = "token")]
        "T02" => vec![Job::Enum(crate::token::supply(d(3, 4) as u32)), Job::Enum(crate::token::description())],
        "A01" => vec![Job::Enum(grids::arithmetic(true)), Job::Enum(grids::scaling(true)), Job::Enum(grids::casts(true))],
        "A02" => vec![Job::Enum(grids::tick_prices()), Job::Enum(grids::price_ticks(deep))],
        "A03" => vec![Job::Enum(grids::steps(deep)), Job::Enum(grids::small_steps(true)), Job::Enum(grids::deltas(true))],
        "A04" => vec![Job::Enum(grids::ranges(true)), Job::Enum(grids::liquidity_for(true))],
        "A05" => vec![Job::Enum(grids::growth(true)), Job::Enum(grids::inside(true)), Job::Enum(grids::tick_limits())],
        "A06" => vec![Job::Enum(grids::places(deep)), Job::Enum(grids::searches(true))],
        // everything at once, for trying out changes by hand
        "ANYC" => {
            let any: F = |f| !g(f, &["error.kind"]);
            let steps: &[StepCheck] = &[checks::round_trip, checks::isolation, checks::quote, checks::edges];
            let nodes: &[NodeCheck] = &[checks::liquidity, checks::ticks, checks::price_tick, checks::times, checks::registries, checks::drain, checks::pages, checks::tick_queries, checks::stops];
            let mut v = ex(&["roles", "params", "core", "multi", "ledger", "bank", "clock"], any, nodes, steps);
            v.extend([protos::singles(5, 2), protos::pairs(5), protos::mixed(5), protos::requests(3), protos::brim(5), protos::authentic(4), protos::late(6), protos::busy(4)].into_iter().map(|p| Job::Proto(p, any)));
            v.extend(ex(&["paging", "fees", "dust", "wide", "growth", "sweep"], any, nodes, steps));
            v.extend(ex(&["dust"], any, &[checks::no_profit], &[]));
            and(v, vec![bulk::many_pools(), bulk::many_ticks()])
        }
        "ANYA" => ["A01", "A02", "A03", "A04", "A05", "A06"].iter().flat_map(|i| jobs(i, deep).unwrap()).collect(),
        "ANYE" => ["E03", "E01", "E02"].iter().filter_map(|i| jobs(i, deep)).flatten().collect(),
        #[cfg(feature = "sdk")]
        "ANYU" => {
            let any: F = |f| g(f, &["client."]);
            let mut v = vec![Job::Enum(clientgrid::helpers()), Job::Enum(clientgrid::token_calls()), Job::Enum(clientgrid::token_races()), Job::Enum(clientgrid::pairs()), Job::Enum(clientgrid::slippage()), Job::Enum(clientgrid::batches(2)), Job::Enum(clientgrid::listeners(2)), Job::Enum(clientgrid::deployments())];
            v.extend(exchange_at(&[("core", 2, 2), ("roles", 1, 1), ("multi", 1, 1), ("ledger", 1, 1), ("bank", 1, 1), ("params", 1, 1), ("clock", 1, 1), ("wide", 1, 1), ("fees", 1, 1), ("growth", 1, 1), ("paging", 1, 1)], deep, any, &[client::views, client::helpers], &[client::through]));
            v
        }
        "ANYL" => and(ex(&["long"], |f| !g(f, &["error.kind"]), &[checks::liquidity, checks::ticks, checks::price_tick, checks::times, checks::stops], &[checks::quote, checks::edges, sdk::simulation]), vec![]),
        "ANYT" => ["T01", "T02"].iter().filter_map(|i| jobs(i, deep)).flatten().collect(),
        _ => return None,
    })
}
