//! Upgrading contracts in place: what the older code stored is still there, and
//! still honoured, under the current code (C26).
use crate::c01::{passes, pct, Tally};
use crate::common::*;
use crate::single as s;
use cosmwasm_std::*;
use cw_core_v1 as core1;
use cw_proposal_single_v1 as prop1;
use cw_utils::Duration;
use dao_voting::{
    pre_propose::{PreProposeInfo, PreProposeSubmissionPolicy as Policy, ProposalCreationPolicy},
    status::Status,
    threshold::{PercentageThreshold as P, Threshold},
    voting::Vote,
};

const MAXP: u128 = 1 << 120;
const MAXS: u128 = 1 << 60;

/// Through JSON: the older crates have types of their own for the same things.
fn conv<T: serde::de::DeserializeOwned>(v: &impl serde::Serialize) -> T {
    from_json(to_json_vec(v).unwrap()).unwrap()
}
fn old_prop_code(w: &mut W) -> u64 {
    code!(w, prop1::contract, reply)
}
/// A DAO made with the first version; the chain lets "chain" upgrade its core.
fn old_dao(w: &mut W, props: &[prop1::msg::InstantiateMsg], admin: Option<&str>, items: Vec<(&str, &str)>) -> Vec<Addr> {
    let core = code!(w, core1::contract, reply);
    let vm = w.store(Box::new(StubVm));
    let pc = old_prop_code(w);
    let info = |code: u64, msg: Binary| core1::msg::ModuleInstantiateInfo { code_id: code, msg, admin: core1::msg::Admin::CoreContract {}, label: "m".into() };
    let m = core1::msg::InstantiateMsg {
        admin: admin.map(|a| a.to_string()),
        name: "dao".into(),
        description: "a dao".into(),
        image_url: Some("url".into()),
        automatically_add_cw20s: flag("auto20"),
        automatically_add_cw721s: flag("auto721"),
        voting_module_instantiate_info: info(vm, to_json_binary(&Empty {}).unwrap()),
        proposal_modules_instantiate_info: props.iter().map(|p| info(pc, to_json_binary(p).unwrap())).collect(),
        initial_items: Some(items.iter().map(|i| core1::msg::InitialItem { key: i.0.into(), value: i.1.into() }).collect()),
    };
    let a = w.inst_full(core, "creator", &m, &[], Some("chain".into())).unwrap();
    let vm: Addr = w.q(&a, &core1::msg::QueryMsg::VotingModule {});
    let p: Vec<Addr> = w.q(&a, &core1::msg::QueryMsg::ProposalModules { start_at: None, limit: None });
    [vec![a, vm], p].concat()
}
fn old_cfg(t: &Threshold, period: u64, min: Option<u64>, revoting: bool) -> prop1::msg::InstantiateMsg {
    prop1::msg::InstantiateMsg {
        threshold: conv(t),
        max_voting_period: cw_utils_v1::Duration::Time(period),
        min_voting_period: min.map(cw_utils_v1::Duration::Time),
        only_members_execute: flag("members_only"),
        allow_revoting: revoting,
        deposit_info: None,
    }
}
fn to_v2(w: &mut W, core: &Addr, prop: &Addr, close: bool) -> bool {
    let c = s::single_code(w);
    let m = dao_proposal_single::msg::MigrateMsg::FromV1 {
        close_proposal_on_execution_failure: close,
        pre_propose_info: PreProposeInfo::AnyoneMayPropose {},
        veto: None,
    };
    w.migrate(core.as_str(), prop, &m, c).is_ok()
}
fn core_to_v2(w: &mut W, core: &Addr, uri: Option<&str>) -> bool {
    let c = core_code(w);
    let m = dao_interface::msg::MigrateMsg::FromV1 { dao_uri: uri.map(|u| u.to_string()), params: None };
    w.migrate("chain", core, &m, c).is_ok()
}
fn old_propose(w: &mut W, prop: &Addr, who: &str, msgs: Vec<CosmosMsg>) -> bool {
    w.exec(who, prop, &prop1::msg::ExecuteMsg::Propose { title: "t".into(), description: "d".into(), msgs }, &[]).is_ok()
}
fn old_vote(w: &mut W, prop: &Addr, who: &str, id: u64, v: Vote) {
    let _ = w.exec(who, prop, &prop1::msg::ExecuteMsg::Vote { proposal_id: id, vote: conv(&v) }, &[]);
}
fn old_proposal(w: &W, prop: &Addr, id: u64) -> prop1::proposal::Proposal {
    w.q::<prop1::query::ProposalResponse>(prop, &prop1::msg::QueryMsg::Proposal { proposal_id: id }).proposal
}
fn same_proposal(w: &W, d: &Dao, id: u64, o: &prop1::proposal::Proposal) {
    let p = s::prop(w, d, id);
    let same = p.title == o.title
        && p.description == o.description
        && p.proposer == o.proposer
        && p.start_height == o.start_height
        && p.allow_revoting == o.allow_revoting
        && p.msgs == o.msgs
        && p.veto.is_none();
    check("proposal-kept", same, "the upgrade changed a proposal");
    check("expiry-kept", to_json_vec(&p.expiration) == to_json_vec(&o.expiration), "the upgrade changed when a proposal ends");
    check("min-kept", to_json_vec(&p.min_voting_period) == to_json_vec(&o.min_voting_period), "the upgrade changed how long a proposal stays open");
    check("threshold-kept", to_json_vec(&p.threshold) == to_json_vec(&o.threshold), "the upgrade changed what a proposal needs to pass");
    check("status-kept", to_json_vec(&p.status) == to_json_vec(&o.status), "the upgrade changed a proposal's status");
    check_eq("yes-kept", p.votes.yes.u128(), &Z::from(o.votes.yes.u128()), "the upgrade changed the votes");
    check_eq("no-kept", p.votes.no.u128(), &Z::from(o.votes.no.u128()), "the upgrade changed the votes");
    check_eq("abstain-kept", p.votes.abstain.u128(), &Z::from(o.votes.abstain.u128()), "the upgrade changed the votes");
    check_eq("total-kept", p.total_power.u128(), &Z::from(o.total_power.u128()), "the upgrade changed the power counted against");
}

fn old_threshold() -> Threshold {
    match sym::choose("threshold", 4) {
        0 => Threshold::AbsolutePercentage { percentage: P::Majority {} },
        1 => Threshold::AbsolutePercentage { percentage: pct("pass", 1_000_000_000) },
        2 => Threshold::ThresholdQuorum { threshold: P::Majority {}, quorum: pct("quorum", 0) },
        _ => Threshold::AbsoluteCount { threshold: Uint128::new(sym::u128("count", 1, MAXP)) },
    }
}
/// One proposal caught by the upgrade in any state, voting going on across it.
fn old_proposals() {
    let mut w = W::new();
    let t = old_threshold();
    let revoting = flag("revoting");
    let period = sym::u64("period", 1, 1_000_000_000);
    let min = if flag("has_min") {
        let m = sym::u64("min", 0, 1_000_000_000);
        sym::assume_le(m, period);
        Some(m)
    } else {
        None
    };
    let cfg = old_cfg(&t, period, min, revoting);
    let a = old_dao(&mut w, &[cfg.clone()], None, vec![]);
    let d = Dao { core: a[0].clone(), vm: a[1].clone(), prop: a[2].clone() };
    let p: Vec<u128> = ["y1", "n1", "late"].iter().map(|n| sym::u128(n, 1, MAXP)).collect();
    if let Threshold::AbsoluteCount { threshold } = &t {
        // the older code refuses counts no vote can reach
        let sum: Z = p.iter().map(|x| Z::from(*x)).sum();
        sym::assume(Z::from(threshold.u128()).le(&sum));
    }
    w.set_powers(&d.vm, &[("yy1", p[0]), ("nn1", p[1]), ("late", p[2])]);
    let rec = w.new_rec();
    w.advance(1, 0);
    let m: CosmosMsg = WasmMsg::Execute { contract_addr: rec.to_string(), msg: Binary::from(b"[7]"), funds: vec![] }.into();
    check("old-works", old_propose(&mut w, &d.prop, "yy1", vec![m]), "the older contract refused a proposal");
    let e = sym::u64("elapsed", 0, 1_000_000_000);
    sym::assume_lt(e, period);
    old_vote(&mut w, &d.prop, "yy1", 1, Vote::Yes);
    old_vote(&mut w, &d.prop, "nn1", 1, Vote::No);
    w.set_time(T0 + e);
    let before = old_proposal(&w, &d.prop, 1);
    let core_first = flag("core_first");
    if core_first {
        check("upgraded", core_to_v2(&mut w, &d.core, None), "the upgrade of the core was refused");
    }
    let close = flag("close_on_failure");
    check("upgraded", to_v2(&mut w, &d.core, &d.prop, close), "the upgrade was refused although no deposit is outstanding");
    cover("upgraded");
    check("once", !to_v2(&mut w, &d.core, &d.prop, close), "an upgrade from the first version was accepted twice");
    same_proposal(&w, &d, 1, &before);
    for (who, v, x) in [("yy1", Vote::Yes, p[0]), ("nn1", Vote::No, p[1])] {
        match s::ballot(&w, &d, 1, who) {
            Some(b) => {
                check("ballot-kept", b.vote == v, "the upgrade changed a ballot");
                check_eq("ballot-power-kept", b.power.u128(), &Z::from(x), "the upgrade changed a ballot's power");
            }
            None => check("ballot-kept", before.status != old_status(Status::Open) && who == "nn1", "the upgrade lost a ballot"),
        }
    }
    let n: dao_proposal_single::state::Config = w.q(&d.prop, &dao_proposal_single::msg::QueryMsg::Config {});
    check("rules-kept", to_json_vec(&n.threshold) == to_json_vec(&t), "the upgrade changed the threshold of new proposals");
    let rules = n.max_voting_period == Duration::Time(period)
        && n.min_voting_period == min.map(Duration::Time)
        && n.only_members_execute == cfg.only_members_execute
        && n.allow_revoting == revoting
        && n.dao == d.core
        && n.close_proposal_on_execution_failure == close
        && n.veto.is_none();
    check("rules-kept", rules, "the upgrade changed the rules of new proposals");
    // voting goes on
    let lv = pick("late_vote", &[Vote::Yes, Vote::No, Vote::Abstain]);
    let voted = s::vote(&mut w, &d, "late", 1, lv).is_ok();
    check("late-voter", voted, "the upgrade kept a member from voting on a proposal that had not ended");
    if flag("twice") {
        let again = s::vote(&mut w, &d, "nn1", 1, Vote::No).is_ok();
        let had = s::ballot(&w, &d, 1, "nn1").is_some();
        if had && before.votes.no.u128() != 0 {
            check("no-second-vote", !again, "a ballot cast before the upgrade was forgotten");
        }
    }
    w.set_time(T0 + period);
    let f = s::prop(&w, &d, 1);
    let z = |x: u128| Z::from(x);
    let zero = || Z::from(0u128);
    let nn = if s::ballot(&w, &d, 1, "nn1").is_some() { z(p[1]) } else { zero() };
    let v = Tally {
        y: if lv == Vote::Yes { z(p[0]) + z(p[2]) } else { z(p[0]) },
        n: if lv == Vote::No { nn + z(p[2]) } else { nn },
        a: if lv == Vote::Abstain { z(p[2]) } else { zero() },
        total: p.iter().map(|x| Z::from(*x)).sum(),
    };
    check_eq("tally", f.votes.yes.u128(), &v.y, "yes votes");
    check_eq("tally", f.votes.no.u128(), &v.n, "no votes");
    let (exact, tol) = passes(&t, &v);
    let members_only = cfg.only_members_execute;
    match f.status {
        Status::Passed => {
            cover("passed");
            check("passed-means-threshold", tol, "passed although the votes cast do not reach the threshold");
            let st = s::execute(&mut w, &d, "stranger", 1).is_ok();
            check("who-executes", st == !members_only, "the upgrade changed who may execute");
            if !st {
                check("executes", s::execute(&mut w, &d, "yy1", 1).is_ok(), "a passed proposal cannot be executed after the upgrade");
            }
            check("executed-once", w.rec(&rec).len() == 1 && s::execute(&mut w, &d, "yy1", 1).is_err(), "not executed exactly once");
        }
        Status::Rejected => {
            cover("rejected");
            check("rejected-means-short", !exact, "rejected although the votes cast reach the threshold");
            check("no-execution", s::execute(&mut w, &d, "yy1", 1).is_err(), "a rejected proposal was executed");
            check("closes", s::close(&mut w, &d, "yy1", 1).is_ok(), "a rejected proposal cannot be closed after the upgrade");
        }
        _ => sym::fail("decided-at-end", "neither passed nor rejected at the end of voting"),
    }
    check("new-proposal", w.exec("late", &d.prop, &s::propose_msg(vec![], None), &[]).is_ok(), "no proposal can be made after the upgrade");
    check("numbering", s::prop(&w, &d, 2).proposer == "late", "the upgrade changed how proposals are numbered");
}
fn old_status(st: Status) -> voting_v1::Status {
    conv(&st)
}
/// Proposals that have ended, and deposits the older contract still holds.
fn old_deposits() {
    let mut w = W::new();
    let token = w.new_cw20(&[("alice", 1 << 127)]);
    let dep = sym::u128("deposit", 0, MAXP);
    let refund = flag("refund_failed");
    let t = Threshold::AbsoluteCount { threshold: Uint128::new(5) };
    let mut cfg = old_cfg(&t, 1000, None, false);
    let has = flag("deposit_asked");
    if has {
        cfg.deposit_info = Some(prop1::msg::DepositInfo {
            token: prop1::msg::DepositToken::Token { address: token.to_string() },
            deposit: Uint128::new(dep),
            refund_failed_proposals: refund,
        });
    }
    let a = old_dao(&mut w, &[cfg], None, vec![]);
    let d = Dao { core: a[0].clone(), vm: a[1].clone(), prop: a[2].clone() };
    w.set_powers(&d.vm, &[("voter", 10), ("alice", 1)]);
    w.exec("alice", &token, &cw20::Cw20ExecuteMsg::IncreaseAllowance { spender: d.prop.to_string(), amount: Uint128::new(1 << 127), expires: None }, &[]).unwrap();
    let rec = w.new_rec();
    for h in [&rec, &d.core] {
        let _ = w.exec(d.core.as_str(), &d.prop, &prop1::msg::ExecuteMsg::AddProposalHook { address: h.to_string() }, &[]);
    }
    let _ = w.exec(d.core.as_str(), &d.prop, &prop1::msg::ExecuteMsg::RemoveProposalHook { address: d.core.to_string() }, &[]);
    w.exec(d.core.as_str(), &d.prop, &prop1::msg::ExecuteMsg::AddVoteHook { address: rec.to_string() }, &[]).unwrap();
    w.advance(1, 0);
    let ok = [old_propose(&mut w, &d.prop, "alice", vec![]), old_propose(&mut w, &d.prop, "alice", vec![])];
    check("old-works", ok == [true, true], "the older contract refused a proposal");
    let held = |w: &W| w.cw20(&token, &d.prop);
    // the second is always over
    old_vote(&mut w, &d.prop, "voter", 2, Vote::Yes);
    w.exec("voter", &d.prop, &prop1::msg::ExecuteMsg::Execute { proposal_id: 2 }, &[]).unwrap();
    let st = sym::choose("state", 6);
    match st {
        1 => old_vote(&mut w, &d.prop, "voter", 1, Vote::Yes),
        2 => {
            old_vote(&mut w, &d.prop, "voter", 1, Vote::Yes);
            w.exec("voter", &d.prop, &prop1::msg::ExecuteMsg::Execute { proposal_id: 1 }, &[]).unwrap();
        }
        3 => w.advance(1, 1000),
        4 => {
            w.advance(1, 1000);
            w.exec("voter", &d.prop, &prop1::msg::ExecuteMsg::Close { proposal_id: 1 }, &[]).unwrap();
        }
        5 => old_vote(&mut w, &d.prop, "voter", 1, Vote::No),
        _ => {}
    }
    let before = [old_proposal(&w, &d.prop, 1), old_proposal(&w, &d.prop, 2)];
    let had = held(&w);
    let settled = st == 2 || st == 4;
    let got = to_v2(&mut w, &d.core, &d.prop, false);
    let z = dep == 0;
    check("deposit-not-stranded", got == (settled || !has || z), "an upgrade strands deposits, or was refused without any");
    check_eq("nothing-moved", held(&w), &Z::from(had), "the upgrade moved tokens");
    if !got {
        cover("refused");
        check("unchanged", [old_proposal(&w, &d.prop, 1), old_proposal(&w, &d.prop, 2)] == before, "a refused upgrade changed something");
        return;
    }
    cover("upgraded");
    for i in 0..2 {
        same_proposal(&w, &d, i as u64 + 1, &before[i]);
    }
    let hooks: cw_hooks::HooksResponse = w.q(&d.prop, &dao_proposal_single::msg::QueryMsg::ProposalHooks {});
    check("hooks-kept", hooks.hooks == [rec.to_string()], "the upgrade changed the proposal hooks");
    let hooks: cw_hooks::HooksResponse = w.q(&d.prop, &dao_proposal_single::msg::QueryMsg::VoteHooks {});
    check("hooks-kept", hooks.hooks == [rec.to_string()], "the upgrade changed the vote hooks");
    let pol: ProposalCreationPolicy = w.q(&d.prop, &dao_proposal_single::msg::QueryMsg::ProposalCreationPolicy {});
    check("policy", pol == ProposalCreationPolicy::Anyone {}, "who may propose after the upgrade is not what was asked");
    check("once", s::execute(&mut w, &d, "voter", 2).is_err(), "executed again after the upgrade");
    check("once", s::close(&mut w, &d, "voter", 2).is_err(), "closed after execution");
    let ex = s::execute(&mut w, &d, "voter", 1).is_ok();
    check("execute-iff-passed", ex == (st == 1), "executable after the upgrade although not passed, or the reverse");
    let cl = s::close(&mut w, &d, "voter", 1).is_ok();
    check("close-iff-failed", cl == (st == 3 || st == 5), "closable after the upgrade although not rejected, or the reverse");
}

/// The core: modules, settings, admin, items, treasury lists, a pause.
fn old_core() {
    let mut w = W::new();
    let n = 1 + sym::choose("modules", 3) as usize;
    let t = Threshold::AbsoluteCount { threshold: Uint128::new(1) };
    let cfg = old_cfg(&t, 1000, None, false);
    let admin = if flag("admin") { Some("boss") } else { None };
    let a = old_dao(&mut w, &vec![cfg; n], admin, vec![("k1", "v1"), ("k2", "v2")]);
    let core = a[0].clone();
    let boss = admin.map(|a| a.to_string()).unwrap_or(core.to_string());
    let t20 = w.new_cw20(&[("alice", 5)]);
    let me = core.to_string();
    use core1::msg::ExecuteMsg as E1;
    w.exec(&me, &core, &E1::UpdateCw20List { to_add: vec![t20.to_string()], to_remove: vec![] }, &[]).unwrap();
    w.exec(&me, &core, &E1::RemoveItem { key: "k1".into() }, &[]).unwrap();
    if n > 1 && flag("removed") {
        w.exec(&me, &core, &E1::UpdateProposalModules { to_add: vec![], to_remove: vec![a[2].to_string()] }, &[]).unwrap();
    }
    let nominee = flag("nominee");
    if nominee {
        w.exec(&boss, &core, &E1::NominateAdmin { admin: Some("heir".into()) }, &[]).unwrap();
    }
    let pause = sym::u64("pause", 0, 1_000_000_000);
    let paused = flag("paused");
    if paused {
        // the older core can only be paused by itself
        w.exec(&me, &core, &E1::Pause { duration: cw_utils_v1::Duration::Time(pause) }, &[]).unwrap();
    }
    let e = sym::u64("elapsed", 0, 1_000_000_000);
    w.set_time(T0 + e);
    let mods: Vec<Addr> = w.q(&core, &core1::msg::QueryMsg::ProposalModules { start_at: None, limit: None });
    let oc: core1::state::Config = w.q(&core, &core1::msg::QueryMsg::Config {});
    let uri = if flag("uri") { Some("uri") } else { None };
    check("upgraded", core_to_v2(&mut w, &core, uri), "the upgrade was refused");
    cover("upgraded");
    check("once", !core_to_v2(&mut w, &core, uri), "an upgrade from the first version was accepted twice");
    use dao_interface::{msg::{ExecuteMsg as E2, QueryMsg as Q}, query as r, state as st};
    let ds: r::DumpStateResponse = w.q(&core, &Q::DumpState {});
    check("admin-kept", ds.admin == boss, "the upgrade changed the admin");
    let c = &ds.config;
    let same = c.name == oc.name
        && c.description == oc.description
        && c.image_url == oc.image_url
        && c.automatically_add_cw20s == oc.automatically_add_cw20s
        && c.automatically_add_cw721s == oc.automatically_add_cw721s;
    check("settings-kept", same, "the upgrade changed the DAO's settings");
    check("uri", c.dao_uri.as_deref() == uri, "the upgrade did not set the address given");
    check("voting-module-kept", ds.voting_module == a[1], "the upgrade changed the voting module");
    let left = mods.len();
    check_eq("counts", ds.active_proposal_module_count as u128, &Z::from(left as u128), "active modules miscounted");
    check_eq("counts", ds.total_proposal_module_count as u128, &Z::from(left as u128), "modules miscounted");
    let mut got: Vec<Addr> = ds.proposal_modules.iter().map(|m| m.address.clone()).collect();
    let mut prefixes: Vec<String> = ds.proposal_modules.iter().map(|m| m.prefix.clone()).collect();
    let enabled = ds.proposal_modules.iter().all(|m| m.status == st::ProposalModuleStatus::Enabled);
    got.sort();
    let mut want = mods.clone();
    want.sort();
    check("modules-kept", got == want && enabled, "the upgrade changed which proposal modules act for the DAO");
    prefixes.sort();
    check("prefixes", prefixes == ["A", "B", "C"][..left], "the modules' prefixes are not A, B, ...");
    let items: Vec<(String, String)> = w.q(&core, &Q::ListItems { start_after: None, limit: None });
    check("items-kept", items == [("k2".to_string(), "v2".to_string())], "the upgrade changed the items");
    let l: Vec<Addr> = w.q(&core, &Q::Cw20TokenList { start_after: None, limit: None });
    check("treasury-kept", l == [t20.clone()], "the upgrade changed the treasury list");
    let nom: r::AdminNominationResponse = w.q(&core, &Q::AdminNomination {});
    check("nominee-kept", nom.nomination.map(|n| n.to_string()) == nominee.then(|| "heir".to_string()), "the upgrade changed the nominated admin");
    // nothing acts for a paused DAO, and only its own modules for an unpaused one
    let still = paused && e < pause;
    let shown = matches!(w.q::<r::PauseInfoResponse>(&core, &Q::PauseInfo {}), r::PauseInfoResponse::Paused { .. });
    check("pause-kept", shown == still, "the upgrade lifted or added a pause");
    let act = E2::ExecuteProposalHook { msgs: vec![] };
    for m in &a[2..] {
        let ok = w.exec(m.as_str(), &core, &act, &[]).is_ok();
        check("modules-act", ok == (!still && mods.contains(m)), "a module acts for the DAO that should not, or the reverse");
    }
    check("only-modules", w.exec("stranger", &core, &act, &[]).is_err(), "anyone acts for the DAO");
    let adm = E2::ExecuteAdminMsgs { msgs: vec![] };
    check("admin-acts", w.exec(&boss, &core, &adm, &[]).is_ok(), "the admin can no longer act");
    check("admin-only", admin.is_none() || w.exec(&me, &core, &adm, &[]).is_err(), "another than the admin acts");
    // a module added later goes on from there
    if !still {
        let c = s::single_code(&mut w);
        let add = E2::UpdateProposalModules { to_add: vec![module(c, &s::cfg(t))], to_disable: vec![mods[0].to_string()] };
        check("modules-change", w.exec(&me, &core, &add, &[]).is_ok(), "modules cannot be changed after the upgrade");
        let ds: r::DumpStateResponse = w.q(&core, &Q::DumpState {});
        check_eq("counts", ds.active_proposal_module_count as u128, &Z::from(left as u128), "active modules miscounted");
        check_eq("counts", ds.total_proposal_module_count as u128, &Z::from(left as u128 + 1), "modules miscounted");
        let mut ps: Vec<String> = ds.proposal_modules.iter().map(|m| m.prefix.clone()).collect();
        ps.sort();
        check("prefixes", ps == ["A", "B", "C", "D"][..left + 1], "two modules share a prefix");
    }
}

/// Stakes, claims and hooks of the older token-staking contract.
fn old_stakes() {
    use cw20_stake::msg as m;
    use cw20_stake_v1 as v1;
    let mut w = W::new();
    let x = sym::u128("alice", 1, MAXS);
    let y = sym::u128("bob", 1, MAXS);
    let f = sym::u128("fund", 0, MAXS);
    let token = w.new_cw20(&[("alice", x), ("bob", y), ("funder", f)]);
    let dur = if flag("waiting") { Some(cw_utils_v1::Duration::Time(sym::u64("duration", 1, 1_000_000_000))) } else { None };
    let owner = if flag("owner") { Some("owner".to_string()) } else { None };
    let old = code!(w, v1::contract);
    let i = v1::msg::InstantiateMsg {
        owner: owner.clone(),
        manager: Some("manager".into()),
        token_address: token.to_string(),
        unstaking_duration: dur,
    };
    let st = w.inst_full(old, "creator", &i, &[], Some("chain".into())).unwrap();
    let send = |w: &mut W, who: &str, n: u128, msg: &v1::msg::ReceiveMsg| {
        let m = cw20::Cw20ExecuteMsg::Send { contract: st.to_string(), amount: Uint128::new(n), msg: to_json_binary(msg).unwrap() };
        w.exec(who, &token, &m, &[]).is_ok()
    };
    let rec = w.new_rec();
    let hooked = owner.is_some() && flag("hooked");
    if hooked {
        w.exec("owner", &st, &v1::msg::ExecuteMsg::AddHook { addr: rec.to_string() }, &[]).unwrap();
    }
    let a = send(&mut w, "alice", x, &v1::msg::ReceiveMsg::Stake {});
    sym::assume(a);
    w.advance(1, 5);
    if f > 0 {
        send(&mut w, "funder", f, &v1::msg::ReceiveMsg::Fund {});
    }
    let b = send(&mut w, "bob", y, &v1::msg::ReceiveMsg::Stake {});
    sym::assume(b);
    w.advance(1, 5);
    let u = sym::u128("unstake", 1, MAXS);
    sym::assume_le(u, x);
    let unstaked = w.exec("alice", &st, &v1::msg::ExecuteMsg::Unstake { amount: Uint128::new(u) }, &[]).is_ok();
    sym::assume(unstaked);
    w.advance(1, 5);
    let hs = [Some(100), Some(101), Some(102), Some(103), None];
    type Snap = (Vec<u128>, Vec<u128>, Vec<u128>, Vec<(u128, String)>);
    let snap = |w: &W| -> Snap {
        let mut bal = vec![];
        let mut tot = vec![];
        let mut val = vec![w.q::<m::TotalValueResponse>(&st, &m::QueryMsg::TotalValue {}).total.u128()];
        let mut cl = vec![];
        for h in hs {
            tot.push(w.q::<m::TotalStakedAtHeightResponse>(&st, &m::QueryMsg::TotalStakedAtHeight { height: h }).total.u128());
        }
        for who in ["alice", "bob"] {
            for h in hs {
                bal.push(w.q::<m::StakedBalanceAtHeightResponse>(&st, &m::QueryMsg::StakedBalanceAtHeight { address: who.into(), height: h }).balance.u128());
            }
            val.push(w.q::<m::StakedValueResponse>(&st, &m::QueryMsg::StakedValue { address: who.into() }).value.u128());
            let c: cw_controllers::ClaimsResponse = w.q(&st, &m::QueryMsg::Claims { address: who.into() });
            cl.extend(c.claims.iter().map(|c| (c.amount.u128(), format!("{:?}", c.release_at))));
        }
        (bal, tot, val, cl)
    };
    let before = snap(&w);
    let code = code!(w, cw20_stake::contract, migr);
    check("upgraded", w.migrate("chain", &st, &m::MigrateMsg::FromV1 {}, code).is_ok(), "the upgrade was refused");
    check("once", w.migrate("chain", &st, &m::MigrateMsg::FromV1 {}, code).is_err(), "an upgrade from the first version was accepted twice");
    cover("upgraded");
    let after = snap(&w);
    for (o, n, what) in [(&before.0, &after.0, "stakes"), (&before.1, &after.1, "total stake"), (&before.2, &after.2, "value")] {
        check("same-count", o.len() == n.len(), what);
        for (o, n) in o.iter().zip(n.iter()) {
            check_eq("stakes-kept", *n, &Z::from(*o), "the upgrade changed a stake, now or in the past");
        }
    }
    check("claims-kept", before.3.len() == after.3.len(), "the upgrade lost a claim");
    for (o, n) in before.3.iter().zip(after.3.iter()) {
        check_eq("claims-kept", n.0, &Z::from(o.0), "the upgrade changed a claim");
        check("claims-kept", o.1 == n.1, "the upgrade changed when a claim is paid");
    }
    let c: cw20_stake::state::Config = w.q(&st, &m::QueryMsg::GetConfig {});
    let d2 = dur.map(|d| conv::<Duration>(&d));
    check("settings-kept", c.token_address == token && c.unstaking_duration == d2, "the upgrade changed the token or the waiting time");
    let o: cw_ownable::Ownership<String> = w.q(&st, &m::QueryMsg::Ownership {});
    check("owner-kept", o.owner == owner, "the upgrade changed the owner");
    let hk: m::GetHooksResponse = w.q(&st, &m::QueryMsg::GetHooks {});
    check("hooks-kept", hk.hooks.len() == hooked as usize, "the upgrade changed the hooks");
    for who in ["manager", "owner", "stranger"] {
        let ok = w.exec(who, &st, &m::ExecuteMsg::UpdateConfig { duration: d2.clone() }, &[]).is_ok();
        check("owner-only", ok == (owner.is_some() && who == "owner"), "after the upgrade another than the owner changes the settings");
    }
    // what was staked and claimed is paid
    let bob = before.2[2];
    let bobs = w.q::<m::StakedBalanceAtHeightResponse>(&st, &m::QueryMsg::StakedBalanceAtHeight { address: "bob".into(), height: None }).balance;
    let had = w.cw20(&token, "alice");
    if let Some(d) = dur {
        let cw_utils_v1::Duration::Time(d) = d else { unreachable!() };
        check("claim-waits", w.exec("alice", &st, &m::ExecuteMsg::Claim {}, &[]).is_err() == (before.3[0].0 == 0 || 5 < d), "a claim was paid at another time after the upgrade");
        w.advance(1, d);
        if w.cw20(&token, "alice") == had {
            let ok = w.exec("alice", &st, &m::ExecuteMsg::Claim {}, &[]).is_ok();
            check("claim-paid", ok == (before.3[0].0 != 0), "a claim cannot be paid after the upgrade");
        }
        check_eq("claim-paid", w.cw20(&token, "alice"), &(Z::from(had) + Z::from(before.3[0].0)), "a claim was not paid in full after the upgrade");
    }
    if bobs.u128() == 0 {
        return;
    }
    let ok = w.exec("bob", &st, &m::ExecuteMsg::Unstake { amount: bobs }, &[]).is_ok();
    if bob == 0 {
        return;
    }
    check("unstakes", ok, "a stake cannot be withdrawn after the upgrade");
    let got = if dur.is_none() {
        w.cw20(&token, "bob")
    } else {
        let c: cw_controllers::ClaimsResponse = w.q(&st, &m::QueryMsg::Claims { address: "bob".into() });
        c.claims[0].amount.u128()
    };
    check_eq("stake-paid", got, &Z::from(bob), "a stake made before the upgrade is worth something else after it");
    if hooked {
        let r = w.rec(&rec);
        check("hooks-called", r.len() == 4, "hooks were not told about a change after the upgrade");
    }
}

/// Rewards of the older contracts: streamed to stakers, and paid into staking.
fn old_rewards() {
    use cw20_stake_external_rewards::msg as m;
    use cw20_stake_external_rewards_v1 as v1;
    let mut w = W::new();
    let x = sym::u128("alice", 1, MAXP);
    let y = sym::u128("bob", 1, MAXP);
    let token = w.new_cw20(&[("alice", x), ("bob", y)]);
    let sc = code!(w, cw20_stake_v1::contract);
    let i = cw20_stake_v1::msg::InstantiateMsg { owner: Some("owner".into()), manager: None, token_address: token.to_string(), unstaking_duration: None };
    let st = w.inst_full(sc, "creator", &i, &[], Some("chain".into())).unwrap();
    let old = code!(w, v1::contract);
    let native = flag("native");
    let fund = sym::u128("fund", 0, 1 << 100);
    let rt = w.new_cw20(&[("owner", fund)]);
    w.mint("owner", fund, "ujuno");
    let i = v1::msg::InstantiateMsg {
        owner: if flag("owner") { Some("owner".into()) } else { None },
        manager: Some("manager".into()),
        staking_contract: st.to_string(),
        reward_token: if native { cw20_v1::Denom::Native("ujuno".into()) } else { cw20_v1::Denom::Cw20(rt.clone()) },
        reward_duration: 10,
    };
    let owned = i.owner.is_some();
    let r = w.inst_full(old, "creator", &i, &[], Some("chain".into())).unwrap();
    w.exec("owner", &st, &cw20_stake_v1::msg::ExecuteMsg::AddHook { addr: r.to_string() }, &[]).unwrap();
    let stake = |w: &mut W, who: &str, n: u128| {
        let m = cw20::Cw20ExecuteMsg::Send { contract: st.to_string(), amount: Uint128::new(n), msg: to_json_binary(&cw20_stake_v1::msg::ReceiveMsg::Stake {}).unwrap() };
        w.exec(who, &token, &m, &[]).is_ok()
    };
    let pending = |w: &W, who: &str| w.q::<m::PendingRewardsResponse>(&r, &m::QueryMsg::GetPendingRewards { address: who.into() }).pending_rewards.u128();
    sym::assume(stake(&mut w, "alice", x));
    let funded = if native {
        w.exec("owner", &r, &v1::msg::ExecuteMsg::Fund {}, &coins(fund, "ujuno")).is_ok()
    } else {
        let m = cw20::Cw20ExecuteMsg::Send { contract: r.to_string(), amount: Uint128::new(fund), msg: to_json_binary(&v1::msg::ReceiveMsg::Fund {}).unwrap() };
        w.exec("owner", &rt, &m, &[]).is_ok()
    };
    sym::assume(funded == owned || !funded);
    w.advance(3, 1);
    sym::assume(stake(&mut w, "bob", y));
    w.advance(2, 1);
    let before = [pending(&w, "alice"), pending(&w, "bob")];
    let code = code!(w, cw20_stake_external_rewards::contract, migr);
    check("upgraded", w.migrate("chain", &r, &m::MigrateMsg::FromV1 {}, code).is_ok(), "the upgrade was refused");
    check("once", w.migrate("chain", &r, &m::MigrateMsg::FromV1 {}, code).is_err(), "an upgrade from the first version was accepted twice");
    if flag("staking_too") {
        let code = code!(w, cw20_stake::contract, migr);
        check("upgraded", w.migrate("chain", &st, &cw20_stake::msg::MigrateMsg::FromV1 {}, code).is_ok(), "the upgrade was refused");
    }
    cover("upgraded");
    for (k, who) in ["alice", "bob"].iter().enumerate() {
        check_eq("rewards-kept", pending(&w, who), &Z::from(before[k]), "the upgrade changed the rewards due");
    }
    let i: m::InfoResponse = w.q(&r, &m::QueryMsg::Info {});
    let tok = if native { cw20::Denom::Native("ujuno".into()) } else { cw20::Denom::Cw20(rt.clone()) };
    check("settings-kept", i.config.reward_token == tok && i.config.staking_contract == st, "the upgrade changed the reward token or the staking contract");
    let o: cw_ownable::Ownership<String> = w.q(&r, &m::QueryMsg::Ownership {});
    check("owner-kept", o.owner.is_some() == owned && o.owner.map_or(true, |o| o == "owner"), "the upgrade changed the owner");
    w.advance(20, 1);
    let due = [pending(&w, "alice"), pending(&w, "bob")];
    for (k, who) in ["alice", "bob"].iter().enumerate() {
        check_le("keep-earning", before[k], due[k], "rewards shrank");
        let ok = w.exec(who, &r, &m::ExecuteMsg::Claim {}, &[]).is_ok();
        let got = if native { w.bal(who, "ujuno") } else { w.cw20(&rt, who) };
        check("rewards-paid", ok == (due[k] != 0), "rewards cannot be claimed after the upgrade");
        check_eq("rewards-paid", got, &Z::from(due[k]), "rewards paid after the upgrade are not those shown");
    }
    // all that was streamed until the end, up to rounding, and never more
    if funded {
        cover("funded");
        let rate = fund / 10;
        let sum = Z::from(due[0]) + Z::from(due[1]);
        check("all-streamed", sum.le(&Z::from(rate * 10)), "more was paid than funded");
        check("all-streamed", (sum + Z::from(5u128)).ge(&Z::from(rate * 10)), "rewards promised before the upgrade were not paid after it");
    }
    for who in ["manager", "stranger", "owner"] {
        let ok = w.exec(who, &r, &m::ExecuteMsg::UpdateRewardDuration { new_duration: 7 }, &[]).is_ok();
        check("owner-only", ok == (owned && who == "owner"), "after the upgrade another than the owner changes the settings");
    }
}
fn old_distributor() {
    use cw20_stake_reward_distributor::msg as m;
    use cw20_stake_reward_distributor_v1 as v1;
    let mut w = W::new();
    let fund = sym::u128("fund", 0, MAXP);
    let token = w.new_cw20(&[("alice", 10)]);
    let sc = code!(w, cw20_stake_v1::contract);
    let i = cw20_stake_v1::msg::InstantiateMsg { owner: None, manager: None, token_address: token.to_string(), unstaking_duration: None };
    let st = w.inst_full(sc, "creator", &i, &[], Some("chain".into())).unwrap();
    let stake = cw20::Cw20ExecuteMsg::Send { contract: st.to_string(), amount: Uint128::new(10), msg: to_json_binary(&cw20_stake_v1::msg::ReceiveMsg::Stake {}).unwrap() };
    w.exec("alice", &token, &stake, &[]).unwrap();
    let old = code!(w, v1::contract);
    let rate = sym::u128("rate", 0, 1 << 100);
    let i = v1::msg::InstantiateMsg { owner: "owner".into(), staking_addr: st.to_string(), reward_rate: Uint128::new(rate), reward_token: token.to_string() };
    let r = w.inst_full(old, "creator", &i, &[], Some("chain".into())).unwrap();
    w.exec("minter", &token, &cw20::Cw20ExecuteMsg::Mint { recipient: r.to_string(), amount: Uint128::new(fund) }, &[]).ok();
    w.advance(2, 1);
    if flag("paid_before") {
        let _ = w.exec("anyone", &r, &v1::msg::ExecuteMsg::Distribute {}, &[]);
    }
    w.advance(3, 1);
    let o: v1::msg::InfoResponse = w.q(&r, &v1::msg::QueryMsg::Info {});
    let code = code!(w, cw20_stake_reward_distributor::contract, migr);
    check("upgraded", w.migrate("chain", &r, &m::MigrateMsg::FromV1 {}, code).is_ok(), "the upgrade was refused");
    check("once", w.migrate("chain", &r, &m::MigrateMsg::FromV1 {}, code).is_err(), "an upgrade from the first version was accepted twice");
    cover("upgraded");
    if flag("staking_too") {
        let code = code!(w, cw20_stake::contract, migr);
        check("upgraded", w.migrate("chain", &st, &cw20_stake::msg::MigrateMsg::FromV1 {}, code).is_ok(), "the upgrade was refused");
    }
    let n: m::InfoResponse = w.q(&r, &m::QueryMsg::Info {});
    let same = n.config.staking_addr == st && n.config.reward_token == token && n.last_payment_block == o.last_payment_block;
    check("settings-kept", same, "the upgrade changed the settings");
    check_eq("rate-kept", n.config.reward_rate.u128(), &Z::from(rate), "the upgrade changed the rate");
    let ow: cw_ownable::Ownership<String> = w.q(&r, &m::QueryMsg::Ownership {});
    check("owner-kept", ow.owner.as_deref() == Some("owner"), "the upgrade changed the owner");
    w.advance(4, 1);
    let had = w.cw20(&token, &r);
    let staked = w.cw20(&token, &st);
    let blocks = (w.block().height - o.last_payment_block) as u128;
    let ok = w.exec("anyone", &r, &m::ExecuteMsg::Distribute {}, &[]).is_ok();
    let due = Z::from(rate) * blocks;
    let due = if due.le(&Z::from(had)) { due } else { Z::from(had) };
    check("pays", ok == !due.is_zero(), "rewards due across the upgrade cannot be paid");
    check_eq("paid", w.cw20(&token, &st), &(Z::from(staked) + due), "rewards paid across the upgrade are wrong");
    for who in ["stranger", "owner"] {
        let ok = w.exec(who, &r, &m::ExecuteMsg::Withdraw {}, &[]).is_ok();
        check("owner-only", !ok || who == "owner", "another than the owner withdraws");
    }
}

/// Submission modules of the last version before rules on who may submit.
#[derive(Clone, Copy, PartialEq)]
enum Pre {
    Single,
    Multi,
    Approval,
}
fn old_pre(kind: Pre) {
    use dao_pre_propose_approval_single::msg as am;
    use dao_pre_propose_base::msg as bm;
    use dao_pre_propose_base_v241::msg as bo;
    use dao_voting_v241::deposit as dp;
    let mut w = W::new();
    let dep = sym::u128("deposit", 1, MAXP);
    let token = w.new_cw20(&[]);
    let native = flag("native");
    let refund = [dp::DepositRefundPolicy::Always, dp::DepositRefundPolicy::OnlyPassed, dp::DepositRefundPolicy::Never][sym::choose("refund", 3) as usize].clone();
    let has = flag("deposit_asked");
    let di = has.then(|| dp::UncheckedDepositInfo {
        denom: dp::DepositToken::Token {
            denom: if native { cw_denom_v241::UncheckedDenom::Native("ujuno".into()) } else { cw_denom_v241::UncheckedDenom::Cw20(token.to_string()) },
        },
        amount: Uint128::new(dep),
        refund_policy: refund.clone(),
    });
    let open = flag("open");
    let (old, new) = match kind {
        Pre::Single => (code!(w, dao_pre_propose_single_v241::contract), code!(w, dao_pre_propose_single::contract, migr)),
        Pre::Multi => (code!(w, dao_pre_propose_multiple_v241::contract), code!(w, dao_pre_propose_multiple::contract, migr)),
        Pre::Approval => (code!(w, dao_pre_propose_approval_single_v241::contract), code!(w, dao_pre_propose_approval_single::contract, migr)),
    };
    let pm = if kind == Pre::Approval {
        let ext = dao_pre_propose_approval_single_v241::msg::InstantiateExt { approver: "appr".into() };
        module(old, &bo::InstantiateMsg { deposit_info: di, open_proposal_submission: open, extension: ext })
    } else {
        module(old, &bo::InstantiateMsg { deposit_info: di, open_proposal_submission: open, extension: Empty {} })
    };
    let mut c = crate::pm::Cfg::new(kind == Pre::Multi);
    c.pre = PreProposeInfo::ModuleMayPropose { info: pm };
    let d = c.dao(&mut w).unwrap();
    w.set_powers(&d.vm, &[("alice", 1), ("voter", 10)]);
    w.advance(1, 1);
    let pol: ProposalCreationPolicy = w.q(&d.prop, &dao_proposal_single::msg::QueryMsg::ProposalCreationPolicy {});
    let ProposalCreationPolicy::Module { addr: pp } = pol else { panic!("no module") };
    let submit = |w: &mut W, who: &str| {
        let mut funds = vec![];
        if has {
            if native {
                w.mint(who, dep, "ujuno");
                funds = coins(dep, "ujuno");
            } else {
                w.exec("minter", &token, &cw20::Cw20ExecuteMsg::Mint { recipient: who.into(), amount: Uint128::new(dep) }, &[]).unwrap();
                w.exec(who, &token, &cw20::Cw20ExecuteMsg::IncreaseAllowance { spender: pp.to_string(), amount: Uint128::new(dep), expires: None }, &[]).unwrap();
            }
        }
        let (t, ds) = (String::from("t"), String::from("d"));
        let m = match kind {
            Pre::Single => {
                use dao_pre_propose_single::contract::{ExecuteMsg, ProposeMessage};
                to_json_binary(&ExecuteMsg::Propose { msg: ProposeMessage::Propose { title: t, description: ds, msgs: vec![], vote: None } })
            }
            Pre::Multi => {
                use dao_pre_propose_multiple::contract::{ExecuteMsg, ProposeMessage};
                let m = crate::pm::multi_propose(vec![], vec![], None);
                to_json_binary(&ExecuteMsg::Propose { msg: ProposeMessage::Propose { title: t, description: ds, choices: m.choices, vote: None } })
            }
            Pre::Approval => to_json_binary(&am::ExecuteMsg::Propose { msg: am::ProposeMessage::Propose { title: t, description: ds, msgs: vec![], vote: None } }),
        }
        .unwrap();
        w.msg(who, WasmMsg::Execute { contract_addr: pp.to_string(), msg: m, funds }.into()).is_ok()
    };
    let bal = |w: &W, who: &str| if native { w.bal(who, "ujuno") } else { w.cw20(&token, who) };
    check("old-works", submit(&mut w, "alice"), "the older contract refused a submission");
    let rec = w.new_rec();
    let hk: cw_hooks::HooksResponse = {
        let add = bm::ExecuteMsg::<Empty, Empty>::AddProposalSubmittedHook { address: rec.to_string() };
        w.exec(d.core.as_str(), &pp, &add, &[]).unwrap();
        w.q(&pp, &bm::QueryMsg::<Empty>::ProposalSubmittedHooks {})
    };
    let decided_before = kind == Pre::Approval && flag("approved_before");
    let ext = |w: &mut W, who: &str, e: am::ExecuteExt| w.exec(who, &pp, &am::ExecuteMsg::Extension { msg: e }, &[]).is_ok();
    if decided_before {
        check("old-works", ext(&mut w, "appr", am::ExecuteExt::Approve { id: 1 }), "the older contract refused an approval");
    }
    let policies = [
        None,
        Some(Policy::Anyone { denylist: vec![Addr::unchecked("bob")] }),
        Some(Policy::Specific { dao_members: false, allowlist: vec![Addr::unchecked("bob")], denylist: vec![] }),
    ];
    let k = sym::choose("policy", 3) as usize;
    let policy = policies[k].clone();
    let mig = |w: &mut W, p: Option<Policy>| w.migrate(d.core.as_str(), &pp, &bm::MigrateMsg::<Empty>::FromUnderV250 { policy: p }, new).is_ok();
    check("upgraded", mig(&mut w, policy.clone()), "the upgrade was refused");
    cover("upgraded");
    check("once", !mig(&mut w, policy.clone()), "an upgrade from the older version was accepted twice");
    let cfg: dao_pre_propose_base::state::Config = w.q(&pp, &bm::QueryMsg::<Empty>::Config {});
    let want = policy.unwrap_or(if open {
        Policy::Anyone { denylist: vec![] }
    } else {
        Policy::Specific { dao_members: true, allowlist: vec![], denylist: vec![] }
    });
    check("policy", cfg.submission_policy == want, "who may submit after the upgrade is not what was asked or what it was");
    check("deposit-kept", cfg.deposit_info.is_some() == has, "the upgrade changed whether a deposit is asked");
    if let Some(i) = &cfg.deposit_info {
        check_eq("deposit-kept", i.amount.u128(), &Z::from(dep), "the upgrade changed the deposit asked");
        let den = if native { cw_denom::CheckedDenom::Native("ujuno".into()) } else { cw_denom::CheckedDenom::Cw20(token.clone()) };
        check("deposit-kept", i.denom == den && to_json_vec(&i.refund_policy) == to_json_vec(&refund), "the upgrade changed the deposit asked");
    }
    let a: Addr = w.q(&pp, &bm::QueryMsg::<Empty>::ProposalModule {});
    let b: Addr = w.q(&pp, &bm::QueryMsg::<Empty>::Dao {});
    check("belongs", a == d.prop && b == d.core, "the upgrade changed what the module belongs to");
    let h2: cw_hooks::HooksResponse = w.q(&pp, &bm::QueryMsg::<Empty>::ProposalSubmittedHooks {});
    check("hooks-kept", h2.hooks == hk.hooks && hk.hooks.len() == 1, "the upgrade changed the hooks");
    // who may submit now: alice is a member, bob is not
    let n0 = w.rec(&rec).len();
    for who in ["alice", "bob"] {
        let may = match k {
            0 => open || who == "alice",
            1 => who == "alice",
            _ => who == "bob",
        };
        check("who-submits", submit(&mut w, who) == may, "who may submit after the upgrade is not what was asked or what it was");
    }
    check("hooks-called", w.rec(&rec).len() > n0, "hooks were not told of a submission after the upgrade");
    // the submission made before is decided, and its deposit settled by the rules it was made under
    let had = bal(&w, "alice");
    let daohad = bal(&w, d.core.as_str());
    let mut outcome = sym::choose("outcome", 2); // passed, rejected
    if kind == Pre::Approval && !decided_before {
        check("approver-kept", !ext(&mut w, "stranger", am::ExecuteExt::Approve { id: 1 }), "anyone approves after the upgrade");
        if flag("refused") {
            outcome = 2;
            check("approver-kept", ext(&mut w, "appr", am::ExecuteExt::Reject { id: 1 }), "the approver cannot reject after the upgrade");
        } else {
            check("approver-kept", ext(&mut w, "appr", am::ExecuteExt::Approve { id: 1 }), "the approver cannot approve after the upgrade");
        }
        check("once-approved", !ext(&mut w, "appr", am::ExecuteExt::Approve { id: 1 }), "a submission was approved twice");
    }
    if outcome < 2 {
        if kind == Pre::Multi {
            let v = dao_proposal_multiple::msg::ExecuteMsg::Vote { proposal_id: 1, vote: dao_voting::multiple_choice::MultipleChoiceVote { option_id: outcome }, rationale: None };
            check("votes", w.exec("voter", &d.prop, &v, &[]).is_ok(), "no vote on a proposal from before the upgrade");
        } else {
            let v = if outcome == 0 { Vote::Yes } else { Vote::No };
            check("votes", s::vote(&mut w, &d, "voter", 1, v).is_ok(), "no vote on a proposal from before the upgrade");
        }
        let passes = outcome == 0 || kind == Pre::Multi;
        w.advance(1, 1000);
        let x = if passes { crate::pm::js::X::Execute { proposal_id: 1 } } else { crate::pm::js::X::Close { proposal_id: 1 } };
        // in a multiple-choice vote the last option is "none of the above"
        let ok = w.exec("voter", &d.prop, &x, &[]).is_ok();
        check("ends", ok, "a proposal from before the upgrade cannot be ended");
        outcome = if passes { 0 } else { 1 };
    }
    let back = match refund {
        dp::DepositRefundPolicy::Always => true,
        dp::DepositRefundPolicy::OnlyPassed => outcome == 0,
        dp::DepositRefundPolicy::Never => false,
    };
    if has {
        let (x, y) = if back { (dep, 0) } else { (0, dep) };
        check_eq("deposit-settled", bal(&w, "alice"), &(Z::from(had) + Z::from(x)), "a deposit from before the upgrade was not settled by its rules");
        check_eq("deposit-settled", bal(&w, d.core.as_str()), &(Z::from(daohad) + Z::from(y)), "a deposit from before the upgrade was not settled by its rules");
        cover(if back { "refunded" } else { "kept" });
    }
}

pub const ALL: &[sym::Scenario] = &[
    sym::Scenario { prop: "C26", name: "old_proposals", bounds: "a proposal of the first version upgraded at any time before its end; majority, any percentage, any quorum, any count; any voting and minimum period; 3 voters of any power <= 2^120, the third voting after the upgrade; core upgraded before or not", covers: &["upgraded", "passed", "rejected"], run: old_proposals },
    sym::Scenario { prop: "C26", name: "old_deposits", bounds: "two proposals of the first version in each state, with or without a deposit of any amount <= 2^120", covers: &["upgraded", "refused"], run: old_deposits },
    sym::Scenario { prop: "C26", name: "old_core", bounds: "a core of the first version with 1-3 proposal modules (one removed or not), items, a listed token, with or without an admin, a nominee and a pause of any length", covers: &["upgraded"], run: old_core },
    sym::Scenario { prop: "C26", name: "old_stakes", bounds: "token staking of the first version: two stakes, a funding and an unstaking of any amounts <= 2^60, any waiting time or none", covers: &["upgraded"], run: old_stakes },
    sym::Scenario { prop: "C26", name: "old_rewards", bounds: "streamed rewards of the first version, native or token: any amount <= 2^100 over 10 blocks, two stakes <= 2^120, upgraded after 5 blocks", covers: &["upgraded", "funded"], run: old_rewards },
    sym::Scenario { prop: "C26", name: "old_distributor", bounds: "the first version of the distributor into staking: any rate <= 2^100, any balance <= 2^120", covers: &["upgraded"], run: old_distributor },
    sym::Scenario { prop: "C26", name: "old_pre_single", bounds: "version 2.4.1 of the submission module: any deposit <= 2^120, native or token, each refund rule; open or members only; each kind of new rule", covers: &["upgraded", "refunded", "kept"], run: || old_pre(Pre::Single) },
    sym::Scenario { prop: "C26", name: "old_pre_multiple", bounds: "the same with multiple-choice proposals", covers: &["upgraded", "refunded", "kept"], run: || old_pre(Pre::Multi) },
    sym::Scenario { prop: "C26", name: "old_pre_approval", bounds: "the same with approval before proposing, decided before or after the upgrade", covers: &["upgraded", "refunded", "kept"], run: || old_pre(Pre::Approval) },
];
