//! Ranked-choice (Condorcet) proposals.
use crate::c01::{pct, reached};
use crate::common::*;
use crate::pm::js::X;
use cosmwasm_std::*;
use cw_utils::Duration;
use dao_proposal_condorcet::{
    config::UncheckedConfig,
    msg::{Choice, ExecuteMsg, QueryMsg},
    proposal::{ProposalResponse, Status},
};
use dao_voting::threshold::PercentageThreshold as P;

const MAXP: u128 = 1 << 120;

fn perms(n: u32) -> Vec<Vec<u32>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in perms(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r
}
/// the candidate that beats every other one
fn winner(n: usize, votes: &[(Z, Vec<u32>)]) -> Option<usize> {
    let mut beats = vec![vec![false; n]; n];
    for a in 0..n {
        for b in a + 1..n {
            let mut net = Z::from(0u128);
            for (p, v) in votes {
                let pos = |c: usize| v.iter().position(|x| *x == c as u32).unwrap();
                net = if pos(a) < pos(b) { net + p } else { net - p };
            }
            if !net.is_zero() {
                let fwd = net.gt(&Z::from(0u128));
                beats[a][b] = fwd;
                beats[b][a] = !fwd;
            }
        }
    }
    (0..n).find(|a| (0..n).all(|b| b == *a || beats[*a][b]))
}

struct C {
    w: W,
    d: Dao,
    rec: Addr,
}
fn setup(q: P, max: u64, min: Option<u64>, close: bool, powers: &[(&str, u128)]) -> C {
    let mut w = W::new();
    let code = code!(w, dao_proposal_condorcet::contract, reply);
    let m = UncheckedConfig {
        quorum: q,
        voting_period: Duration::Time(max),
        min_voting_period: min.map(Duration::Time),
        close_proposals_on_execution_failure: close,
    };
    let d = dao_with(&mut w, None, module(code, &m)).unwrap();
    let rec = w.new_rec();
    w.set_powers(&d.vm, powers);
    C { w, d, rec }
}
impl C {
    fn call(&self, i: u32) -> CosmosMsg {
        WasmMsg::Execute { contract_addr: self.rec.to_string(), msg: Binary(format!("{{\"option{i}\":{{}}}}").into_bytes()), funds: vec![] }.into()
    }
    fn propose(&mut self, who: &str, n: u32) -> R<()> {
        let choices = (0..n).map(|i| Choice { msgs: vec![self.call(i)] }).collect();
        self.w.exec(who, &self.d.prop, &ExecuteMsg::Propose { choices }, &[]).map(|_| ())
    }
    fn status(&self) -> Status {
        let r: ProposalResponse = self.w.q(&self.d.prop, &QueryMsg::Proposal { id: 1 });
        let s = r.proposal.status(&self.w.block(), &r.tally);
        sym::note("status", &format!("{s:?}").chars().take(4).collect::<String>());
        s
    }
    fn vote(&mut self, who: &str, v: &[u32]) -> R<()> {
        self.w.exec(who, &self.d.prop, &ExecuteMsg::Vote { proposal_id: 1, vote: v.to_vec() }, &[]).map(|_| ())
    }
    fn x(&mut self, who: &str, m: X) -> R<()> {
        self.w.exec(who, &self.d.prop, &m, &[]).map(|_| ())
    }
}

/// `early` voters before an instant within the period, one after
fn outcome(choices: u32, early: usize, q: P, min: bool) {
    let n = choices + 1;
    let all = perms(n);
    let max = sym::u64("period", 1, 1_000_000_000);
    let minp = if min { sym::u64("min", 0, 1_000_000_000) } else { 0 };
    sym::assume_le(minp, max);
    const NAMES: [&str; 3] = ["ann", "ben", "cat"];
    let mut powers: Vec<(&str, u128)> = (0..early).map(|i| (NAMES[i], sym::u128(NAMES[i], 1, MAXP))).collect();
    powers.push(("late", sym::u128("late", 0, MAXP)));
    powers.push(("idle", sym::u128("idle", 0, MAXP)));
    let mut c = setup(q, max, if min { Some(minp) } else { None }, true, &powers);
    c.propose("ann", choices).unwrap();
    let e = sym::u64("elapsed", 0, 1_000_000_000);
    sym::assume_lt(e, max);
    c.w.set_time(T0 + e);
    let mut votes = vec![];
    for i in 0..early {
        // candidates are alike up to their order, so the first ballot is fixed
        // up to where it ranks "none of the above"
        let k = if i == 0 { pick("v0", &[0usize, 2, 4]) } else { sym::choose(&format!("v{i}"), all.len() as u32) as usize };
        let v = all[k % all.len()].clone();
        check("vote-ok", c.vote(NAMES[i], &v).is_ok(), "a member's vote was refused");
        votes.push((Z::from(powers[i].1), v));
    }
    let mid = c.status();
    match mid {
        Status::Passed { .. } => {
            cover("passed-early");
            check_le("min-period", minp, e, "passed before the minimum voting period was over");
        }
        Status::Rejected => {
            cover("rejected-early");
            check_le("min-period", minp, e, "rejected before the minimum voting period was over");
        }
        _ => check("early-status", mid == Status::Open, "status before the end"),
    }
    let v = all[sym::choose("late_vote", all.len() as u32) as usize].clone();
    if c.vote("late", &v).is_ok() {
        votes.push((Z::from(powers[early].1), v));
        cover("late-vote");
    } else {
        check("vote-ok", powers[early].1 == 0, "a member's vote was refused");
    }
    c.w.set_time(T0 + max);
    let total: Z = powers.iter().map(|p| Z::from(p.1)).sum();
    let cast: Z = votes.iter().map(|v| v.0.clone()).sum();
    let quorum = reached(&cast, &total, &q);
    let win = winner(n as usize, &votes);
    match c.status() {
        Status::Passed { winner } => {
            cover("passed");
            check("passed-means-quorum", quorum.1, "passed although too few voted");
            check("passed-means-winner", win == Some(winner as usize), "passed for a choice that does not beat every other");
            check("no-flip", mid == Status::Open || mid == Status::Passed { winner }, "the outcome changed after it was decided");
            check("executes", c.x("ann", X::Execute { proposal_id: 1 }).is_ok(), "a passed proposal cannot be executed");
            let r = c.w.rec(&c.rec);
            if winner == choices {
                check("none-runs-nothing", r.is_empty(), "messages ran although none of the above won");
                cover("none-wins");
            } else {
                let want = format!("{{\"option{winner}\":{{}}}}");
                check("winner-messages", r.len() == 1 && r[0].msg.as_slice() == want.as_bytes() && r[0].sender == c.d.core, "other messages ran than the winner's");
            }
        }
        Status::Rejected => {
            cover("rejected");
            check("rejected-means-no-winner", win.is_none() || !quorum.0, "rejected although a choice beats every other");
            check("no-flip", mid == Status::Open || mid == Status::Rejected, "the outcome changed after it was decided");
            let r = c.x("ann", X::Execute { proposal_id: 1 });
            check("rejected-stays", r.is_err() && c.w.rec(&c.rec).is_empty(), "a rejected proposal was executed");
        }
        _ => sym::fail("decided-at-end", "neither passed nor rejected at the end of voting"),
    }
}
fn two() {
    let q = pick("q", &[P::Majority {}, P::Percent(Decimal::percent(0)), P::Percent(Decimal::percent(100))]);
    outcome(1, 2, q, flag("has_min"))
}
fn three() {
    outcome(2, 2, P::Majority {}, false)
}
fn three_any() {
    outcome(2, 2, pct("q", 1_000_000_000), true)
}
fn three_wide() {
    outcome(2, 3, P::Percent(Decimal::percent(20)), false)
}
fn four() {
    outcome(3, 2, P::Majority {}, false)
}
/// Who may do what, and what a ballot may be.
fn rules(steps: u32) {
    let powers = [("ann", sym::u128("ann", 1, MAXP)), ("ben", sym::u128("ben", 0, MAXP))];
    let max = sym::u64("period", 1, 1_000_000_000);
    let close = flag("close_on_fail");
    let mut c = setup(P::Majority {}, max, None, close, &powers);
    check("propose-members-only", c.propose("out", 2).is_err(), "one without power made a proposal");
    check("propose-members-only", c.propose("ann", 0).is_err(), "a proposal without choices");
    check("propose", c.propose("ann", 2).is_ok(), "a member may propose");
    c.w.advance(1, 0);
    c.w.set_powers(&c.d.vm.clone(), &[("out", 9), ("ann", 1)]);
    let fails = flag("messages_fail");
    c.w.rec_fail(&c.rec.clone(), fails);
    let (mut voted, mut tally, mut done): (Vec<&str>, Vec<(Z, Vec<u32>)>, Option<Status>) = (vec![], vec![], None);
    let total = Z::from(powers[0].1) + Z::from(powers[1].1);
    let power = |who: &str| powers.iter().find(|p| p.0 == who).map_or(0, |p| p.1);
    for i in 0..steps {
        let now = c.w.block().time.seconds();
        let over = now >= T0 + max;
        let cast: Z = tally.iter().map(|v| v.0.clone()).sum();
        let quorum = (&cast * 2).gt(&total);
        let win = winner(3, &tally);
        // undisputed when those who have not voted cannot change it
        let state = done.unwrap_or_else(|| c.status());
        match sym::choose(&format!("act{i}"), 4) {
            0 => {
                let (who, b): (&str, &[u32]) = pick(
                    &format!("ballot{i}"),
                    &[
                        ("ann", &[0u32, 1, 2][..]),
                        ("ann", &[2, 1, 0]),
                        ("ben", &[0, 1, 2]),
                        ("out", &[0, 1, 2]),
                        ("ann", &[0, 1]),
                        ("ann", &[0, 0, 1]),
                        ("ben", &[0, 1, 3]),
                        ("ann", &[0, 1, 2, 2]),
                    ],
                );
                let valid = b.len() == 3 && b.iter().all(|x| *x < 3) && b[0] != b[1];
                let want = power(who) > 0 && !voted.contains(&who) && !over && valid;
                check("vote-iff-due", c.vote(who, b).is_ok() == want, "a ballot was accepted or refused against the rules");
                if want {
                    voted.push(who);
                    tally.push((Z::from(power(who)), b.to_vec()));
                    cover("voted");
                } else if !valid {
                    cover("bad-ballot");
                }
            }
            1 => {
                let who = pick(&format!("who{i}"), &["ben", "out"]);
                let passed = matches!(state, Status::Passed { .. });
                let none = matches!(state, Status::Passed { winner: 2 });
                let works = !fails || none;
                let want = power(who) > 0 && passed && (works || close);
                check("execute-iff-due", c.x(who, X::Execute { proposal_id: 1 }).is_ok() == want, "execution was accepted or refused against the rules");
                if passed {
                    check("passed-for-winner", quorum && matches!((state, win), (Status::Passed { winner }, Some(w)) if winner as usize == w), "passed for a choice that does not win");
                }
                if want {
                    let s = if works { Status::Executed } else { Status::ExecutionFailed };
                    cover(if works { "executed" } else { "failed" });
                    done = Some(s);
                    check("executed-once", c.w.rec(&c.rec).len() == if works && !none { 1 } else { 0 }, "");
                }
            }
            2 => {
                let want = state == Status::Rejected;
                check("close-iff-rejected", c.x("out", X::Close { proposal_id: 1 }).is_ok() == want, "closing was accepted or refused against the rules");
                if want {
                    done = Some(Status::Closed);
                    cover("closed");
                }
            }
            _ => {
                let dt = sym::u64(&format!("wait{i}"), 0, 2_000_000_000);
                c.w.advance(1, dt);
            }
        }
        let s = c.status();
        if let Some(d) = done {
            check("final", s == d, "a finished proposal changed");
        } else if c.w.block().time.seconds() >= T0 + max {
            check("decided-at-end", s != Status::Open, "neither passed nor rejected at the end of voting");
        }
    }
    check("executed-once", c.w.rec(&c.rec).len() <= 1, "messages ran twice");
}
fn rules3() {
    rules(3)
}
fn rules4() {
    rules(4)
}
const B: &str = "2 choices (thorough 3) and none of the above, every ranking of 2 early voters (thorough 3) and a late one, powers 0..2^120, period to 10^9 s";
const BR: &str = "3 actions (thorough 4) out of voting (two rankings, four malformed ballots), executing, closing and waiting, by 2 members and an outsider";
const C4: &[&str] = &["passed-early", "rejected-early", "passed", "rejected", "late-vote", "none-wins"];
pub const ALL: &[sym::Scenario] = &[
    sym::Scenario { prop: "C03", name: "ranked_two", bounds: B, covers: C4, run: two },
    sym::Scenario { prop: "C03", name: "ranked_three", bounds: B, covers: C4, run: three },
    sym::Scenario { prop: "C03", name: "ranked_rules", bounds: BR, covers: &["voted", "bad-ballot", "executed", "failed", "closed"], run: rules3 },
    sym::Scenario { prop: "C03+", name: "ranked_rules4", bounds: BR, covers: &["voted", "bad-ballot", "executed", "failed", "closed"], run: rules4 },
    sym::Scenario { prop: "C03+", name: "ranked_three_any", bounds: B, covers: &["passed", "rejected"], run: three_any },
    sym::Scenario { prop: "C03+", name: "ranked_three_wide", bounds: B, covers: &["passed", "rejected"], run: three_wide },
    sym::Scenario { prop: "C03+", name: "ranked_four", bounds: B, covers: &["passed", "rejected"], run: four },
];
