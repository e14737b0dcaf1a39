//! Multiple-choice outcomes.
use crate::c01::{pct, reached};
use crate::common::*;
use crate::pm::js::X;
use cosmwasm_std::*;
use dao_proposal_multiple::msg::{ExecuteMsg, QueryMsg};
use dao_voting::{
    multiple_choice::{MultipleChoiceOption, MultipleChoiceOptions, MultipleChoiceVote, VotingStrategy},
    proposal::MultipleChoiceProposeMsg,
    status::Status,
    threshold::PercentageThreshold as P,
};

const MAXP: u128 = 1 << 120;
const NAMES: [&str; 6] = ["first0", "first1", "first2", "first3", "first4", "first5"];

/// `n` options and "none of the above"; one voter for each, then a later voter for any
/// of them, and power that never votes
fn outcome(n: usize, q: P, revoting: bool, min: bool) {
    let mut w = W::new();
    let max = sym::u64("period", 1, 1_000_000_000);
    let mut c = crate::pm::Cfg::new(true);
    c.revoting = revoting;
    c.period = max;
    let mut minp = 0;
    if min {
        minp = sym::u64("min", 0, 1_000_000_000);
        sym::assume_le(minp, max);
        c.min = Some(minp);
    }
    let mut m = c.multiple();
    m.voting_strategy = VotingStrategy::SingleChoice { quorum: q };
    let code = code!(w, dao_proposal_multiple::contract, reply, migrate);
    let d = dao_with(&mut w, None, module(code, &m)).unwrap();
    let rec = w.new_rec();
    let powers: Vec<(&str, u128)> = (0..=n)
        .map(|i| (NAMES[i], sym::u128(&format!("p{i}"), 0, MAXP)))
        .chain([("late", sym::u128("late", 0, MAXP)), ("idle", sym::u128("idle", 0, MAXP))])
        .collect();
    w.set_powers(&d.vm, &powers);
    let call = |i: usize| -> CosmosMsg {
        WasmMsg::Execute { contract_addr: rec.to_string(), msg: Binary(format!("{{\"option{i}\":{{}}}}").into_bytes()), funds: vec![] }.into()
    };
    let options = (0..n).map(|i| MultipleChoiceOption { title: "o".into(), description: "d".into(), msgs: vec![call(i)] }).collect();
    let p = MultipleChoiceProposeMsg { title: "t".into(), description: "d".into(), choices: MultipleChoiceOptions { options }, proposer: None, vote: None };
    w.exec("anyone", &d.prop, &ExecuteMsg::Propose(p), &[]).unwrap();
    let e = sym::u64("elapsed", 0, 1_000_000_000);
    sym::assume_lt(e, max);
    w.set_time(T0 + e);
    let vote = |w: &mut W, who: &str, i: usize| {
        let v = ExecuteMsg::Vote { proposal_id: 1, vote: MultipleChoiceVote { option_id: i as u32 }, rationale: None };
        let _ = w.exec(who, &d.prop, &v, &[]);
    };
    let get = |w: &W| w.q::<dao_proposal_multiple::query::ProposalResponse>(&d.prop, &QueryMsg::Proposal { proposal_id: 1 }).proposal;
    for i in 0..=n {
        vote(&mut w, NAMES[i], i);
    }
    let mid = get(&w).status;
    match mid {
        Status::Passed => {
            cover("passed-early");
            check("revoting-not-early", !revoting, "decided before the end although votes may still change");
            check_le("min-period", minp, e, "passed before the minimum voting period was over");
        }
        Status::Rejected => {
            cover("rejected-early");
            check("revoting-not-early", !revoting, "decided before the end although votes may still change");
        }
        _ => check("early-status", mid == Status::Open, "status before the end"),
    }
    let late = sym::choose("late_vote", n as u32 + 1) as usize;
    vote(&mut w, "late", late);
    w.set_time(T0 + max);
    let fin = get(&w);
    let mut tally: Vec<Z> = (0..=n).map(|i| Z::from(powers[i].1)).collect();
    tally[late] = &tally[late] + Z::from(powers[n + 1].1);
    check("tally-size", fin.votes.vote_weights.len() == n + 1, "");
    for i in 0..=n {
        check_eq("tally", fin.votes.vote_weights[i].u128(), &tally[i], "the tally differs from the votes cast");
    }
    let total: Z = powers.iter().map(|p| Z::from(p.1)).sum();
    check_eq("total", fin.total_power.u128(), &total, "total power");
    let cast: Z = tally.iter().cloned().sum();
    let quorum = reached(&cast, &total, &q);
    let lead = (0..=n).find(|i| (0..=n).all(|j| j == *i || tally[*i].gt(&tally[j])));
    match fin.status {
        Status::Passed => {
            cover("passed");
            check("passed-means-quorum", quorum.1, "passed although too few voted");
            check("passed-means-winner", matches!(lead, Some(i) if i < n), "passed although no option leads");
            check("no-flip", mid != Status::Rejected, "rejected, then passed");
            let r = w.exec("anyone", &d.prop, &X::Execute { proposal_id: 1 }, &[]);
            check("winner-executes", r.is_ok(), "a passed proposal cannot be executed");
            let r = w.rec(&rec);
            let want = format!("{{\"option{}\":{{}}}}", lead.unwrap());
            check("winner-messages", r.len() == 1 && r[0].msg.as_slice() == want.as_bytes(), "other messages ran than the winning option's");
        }
        Status::Rejected => {
            cover("rejected");
            check("rejected-means-no-winner", !quorum.0 || !matches!(lead, Some(i) if i < n), "rejected although an option won");
            check("no-flip", mid != Status::Passed, "passed, then rejected");
            let r = w.exec("anyone", &d.prop, &X::Execute { proposal_id: 1 }, &[]);
            check("rejected-stays", r.is_err() && w.rec(&rec).is_empty(), "a rejected proposal was executed");
        }
        _ => sym::fail("decided-at-end", "neither passed nor rejected at the end of voting"),
    }
}
fn majority() {
    outcome(2, P::Majority {}, flag("revoting"), flag("has_min"))
}
fn percent() {
    let q = pick("q", &[0, 333_333_333_333_333_333, 1_000_000_000_000_000_000]);
    outcome(2, P::Percent(Decimal::new(Uint128::new(q))), false, false)
}
fn any_percent() {
    outcome(2, pct("q", 1_000_000_000), false, false)
}
fn three() {
    outcome(3, P::Majority {}, false, false)
}
fn three_percent() {
    outcome(3, pct("q", 1_000_000_000), flag("revoting"), true)
}
const B2: &str = "2 options and none of the above, one vote on each before and one after an instant within the period, powers 0..2^120, period to 10^9 s, quorum a majority, 0, 1/3 or all (thorough: any percentage)";
const B3: &str = "3 options and none of the above, one vote on each before and one after an instant within the period, powers 0..2^120, period to 10^9 s";
const C: &[&str] = &["passed-early", "rejected-early", "passed", "rejected"];
pub const ALL: &[sym::Scenario] = &[
    sym::Scenario { prop: "C02", name: "multi_majority", bounds: B2, covers: C, run: majority },
    sym::Scenario { prop: "C02", name: "multi_percent", bounds: B2, covers: C, run: percent },
    sym::Scenario { prop: "C02+", name: "multi_any_percent", bounds: B2, covers: C, run: any_percent },
    sym::Scenario { prop: "C02+", name: "multi_three", bounds: B3, covers: C, run: three },
    sym::Scenario { prop: "C02+", name: "multi_three_percent", bounds: B3, covers: &["passed", "rejected"], run: three_percent },
];
