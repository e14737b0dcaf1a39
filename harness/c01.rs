//! Single-choice outcomes.
use crate::common::*;
use crate::single as s;
use cosmwasm_std::*;
use cw_utils::Duration;
use dao_voting::{status::Status, threshold::{PercentageThreshold as P, Threshold}, voting::Vote};

const MAXP: u128 = 1 << 120;
const E18: u128 = 1_000_000_000_000_000_000;

/// (reached exactly, reached up to a billionth of a vote)
pub fn reached(votes: &Z, of: &Z, p: &P) -> (bool, bool) {
    if of.is_zero() {
        return (false, false);
    }
    match p {
        P::Majority {} => {
            let b = (votes * 2).gt(of);
            (b, b)
        }
        P::Percent(d) => {
            let l = votes * E18;
            let r = of * d.atomics().u128();
            if l.ge(&r) {
                (true, true)
            } else {
                (false, (l + Z::from(1_000_000_000u128)).gt(&r))
            }
        }
    }
}
pub struct Tally {
    pub y: Z,
    pub n: Z,
    pub a: Z,
    pub total: Z,
}
pub fn passes(t: &Threshold, v: &Tally) -> (bool, bool) {
    match t {
        Threshold::AbsolutePercentage { percentage } => reached(&v.y, &(&v.total - &v.a), percentage),
        Threshold::ThresholdQuorum { threshold, quorum } => {
            let q = reached(&(&v.y + &v.n + &v.a), &v.total, quorum);
            if !q.1 {
                return (false, false);
            }
            let t = reached(&v.y, &(&v.y + &v.n), threshold);
            (q.0 && t.0, q.1 && t.1)
        }
        Threshold::AbsoluteCount { threshold } => {
            let b = v.y.ge(&Z::from(threshold.u128()));
            (b, b)
        }
    }
}
pub fn pct(name: &str, lo: u128) -> P {
    P::Percent(Decimal::new(Uint128::new(sym::u128(name, lo, E18))))
}

/// `wide`: three later voters, one of each kind; otherwise one of any kind
fn outcome(t: Threshold, revoting: bool, min: bool, wide: bool) {
    let mut w = W::new();
    let max = sym::u64("period", 1, 1_000_000_000);
    let mut c = s::cfg(t.clone());
    c.max_voting_period = Duration::Time(max);
    c.allow_revoting = revoting;
    let mut minp = 0;
    if min {
        minp = sym::u64("min", 0, 1_000_000_000);
        sym::assume_le(minp, max);
        c.min_voting_period = Some(Duration::Time(minp));
    }
    let d = s::dao(&mut w, &c).unwrap();
    let mut later = vec![("y2", Vote::Yes), ("n2", Vote::No), ("a2", Vote::Abstain)];
    if !wide {
        later = vec![later[sym::choose("later", 3) as usize]];
    }
    let p: Vec<u128> = ["y1", "n1", "a1", "y2", "n2", "a2", "idle"]
        .iter()
        .map(|n| if n.ends_with('2') && !later.iter().any(|l| l.0 == *n) { 0 } else { sym::u128(n, 0, MAXP) })
        .collect();
    w.set_powers(&d.vm, &[("y1", p[0]), ("n1", p[1]), ("a1", p[2]), ("y2", p[3]), ("n2", p[4]), ("a2", p[5]), ("idle", p[6])]);
    w.exec("anyone", &d.prop, &s::propose_msg(vec![], None), &[]).unwrap();
    let e = sym::u64("elapsed", 0, 1_000_000_000);
    sym::assume_lt(e, max);
    w.set_time(T0 + e);
    for (who, v) in [("y1", Vote::Yes), ("n1", Vote::No), ("a1", Vote::Abstain)] {
        let _ = s::vote(&mut w, &d, who, 1, v);
    }
    let mid = s::status(&w, &d, 1);
    if mid == Status::Passed {
        cover("passed-early");
        check("revoting-not-early", !revoting, "decided before the end although votes may still change");
        if min {
            check_le("min-period", minp, e, "passed before the minimum voting period was over");
        }
    } else if mid == Status::Rejected {
        cover("rejected-early");
        check("revoting-not-early", !revoting, "decided before the end although votes may still change");
    } else {
        check("early-status", mid == Status::Open, "status before the end");
    }
    for (who, v) in &later {
        let _ = s::vote(&mut w, &d, who, 1, *v);
    }
    w.set_time(T0 + max);
    let fin = s::prop(&w, &d, 1);
    let z = |a: usize| Z::from(p[a]);
    let v = Tally { y: z(0) + z(3), n: z(1) + z(4), a: z(2) + z(5), total: p.iter().map(|x| Z::from(*x)).sum() };
    check_eq("tally-yes", fin.votes.yes.u128(), &v.y, "yes votes");
    check_eq("tally-no", fin.votes.no.u128(), &v.n, "no votes");
    check_eq("tally-abstain", fin.votes.abstain.u128(), &v.a, "abstentions");
    check_eq("total", fin.total_power.u128(), &v.total, "total power");
    let (exact, tol) = passes(&t, &v);
    match fin.status {
        Status::Passed => {
            cover("passed");
            check("passed-means-threshold", tol, "passed although the votes cast do not reach the threshold");
            check("no-flip", mid != Status::Rejected, "rejected, then passed");
        }
        Status::Rejected => {
            cover("rejected");
            check("rejected-means-short", !exact, "rejected although the votes cast reach the threshold");
            check("no-flip", mid != Status::Passed, "passed, then rejected");
        }
        _ => sym::fail("decided-at-end", "neither passed nor rejected at the end of voting"),
    }
}
fn abs_majority() {
    outcome(Threshold::AbsolutePercentage { percentage: P::Majority {} }, false, flag("has_min"), true)
}
fn abs_percent() {
    outcome(Threshold::AbsolutePercentage { percentage: pct("p", LOW) }, false, false, true)
}
const QUORUMS: &[u128] = &[0, 333_333_333_333_333_333, E18];
fn quorum_majority() {
    let q = P::Percent(Decimal::new(Uint128::new(pick("q", QUORUMS))));
    outcome(Threshold::ThresholdQuorum { threshold: P::Majority {}, quorum: q }, false, false, true)
}
fn quorum_percent() {
    outcome(Threshold::ThresholdQuorum { threshold: pct("p", LOW), quorum: P::Majority {} }, false, false, false)
}
fn quorum_any() {
    outcome(Threshold::ThresholdQuorum { threshold: P::Majority {}, quorum: pct("q", 0) }, false, false, false)
}
fn quorum_percent_wide() {
    outcome(Threshold::ThresholdQuorum { threshold: pct("p", LOW), quorum: P::Majority {} }, false, true, true)
}
fn quorum_both() {
    outcome(Threshold::ThresholdQuorum { threshold: pct("p", LOW), quorum: pct("q", 0) }, false, false, false)
}
fn count() {
    outcome(Threshold::AbsoluteCount { threshold: Uint128::new(sym::u128("count", 1, MAXP)) }, false, flag("has_min"), true)
}
fn revoting() {
    let t = match sym::choose("kind", 3) {
        0 => Threshold::AbsolutePercentage { percentage: P::Majority {} },
        1 => Threshold::ThresholdQuorum { threshold: P::Majority {}, quorum: P::Majority {} },
        _ => Threshold::AbsoluteCount { threshold: Uint128::new(sym::u128("count", 1, MAXP)) },
    };
    outcome(t, true, flag("has_min"), true)
}
/// Thresholds below a billionth of a vote.
fn tiny_percent() {
    outcome(Threshold::AbsolutePercentage { percentage: P::Percent(Decimal::new(Uint128::new(sym::u128("p", 1, LOW)))) }, false, false, false)
}
/// Which thresholds and periods an instance accepts.
fn config() {
    let mut w = W::new();
    let any = |n: &str| P::Percent(Decimal::new(Uint128::new(sym::u128(n, 0, 3 * E18))));
    let ok_t = |p: &P| match p {
        P::Percent(d) => Z::from(d.atomics().u128()).gt(&Z::from(0u128)) && Z::from(d.atomics().u128()).le(&Z::from(E18)),
        _ => true,
    };
    let ok_q = |p: &P| match p {
        P::Percent(d) => Z::from(d.atomics().u128()).le(&Z::from(E18)),
        _ => true,
    };
    let (t, mut good) = match sym::choose("kind", 5) {
        0 => {
            let p = any("p");
            (Threshold::AbsolutePercentage { percentage: p }, ok_t(&p))
        }
        1 => {
            let (p, q) = (any("p"), any("q"));
            (Threshold::ThresholdQuorum { threshold: p, quorum: q }, ok_t(&p) && ok_q(&q))
        }
        2 => {
            let p = any("p");
            (Threshold::ThresholdQuorum { threshold: p, quorum: P::Majority {} }, ok_t(&p))
        }
        3 => {
            let q = any("q");
            (Threshold::ThresholdQuorum { threshold: P::Majority {}, quorum: q }, ok_q(&q))
        }
        _ => {
            let c = sym::u128("count", 0, MAXP);
            (Threshold::AbsoluteCount { threshold: Uint128::new(c) }, c > 0)
        }
    };
    let mut c = s::cfg(t);
    let (max, min) = (sym::u64("max", 0, 1 << 40), sym::u64("min", 0, 1 << 40));
    let dur = |h: bool, x: u64| if h { Duration::Height(x) } else { Duration::Time(x) };
    let units = sym::choose("units", 4);
    c.max_voting_period = dur(units & 1 == 1, max);
    c.min_voting_period = Some(dur(units & 2 == 2, min));
    // both have to be of one kind, and the minimum not beyond the maximum
    good &= units == 0 || units == 3;
    good &= Z::from(min).le(&Z::from(max));
    let bad_update = c.clone();
    let r = s::dao(&mut w, &c);
    check("config-validated", r.is_ok() == good, "a configuration was accepted or refused wrongly");
    if good {
        cover("accepted");
        return;
    }
    cover("refused");
    // the same rules bind a later update
    let d = s::dao(&mut w, &s::cfg(Threshold::AbsoluteCount { threshold: Uint128::new(1) })).unwrap();
    let r = w.exec(
        d.core.as_str(),
        &d.prop,
        &dao_proposal_single::msg::ExecuteMsg::UpdateConfig {
            threshold: bad_update.threshold,
            max_voting_period: bad_update.max_voting_period,
            min_voting_period: bad_update.min_voting_period,
            only_members_execute: false,
            allow_revoting: false,
            dao: d.core.to_string(),
            close_proposal_on_execution_failure: true,
            veto: None,
        },
        &[],
    );
    check("update-validated", r.is_err(), "an update to a configuration that is not allowed was accepted");
}
const LOW: u128 = 1_000_000_000;
const B: &str = "7 voters each with power 0..2^120, voting before and after an early status; period, minimum period and vote time 0..10^9 s; percentages 10^-9..1";
const CV: &[&str] = &["passed-early", "rejected-early", "passed", "rejected"];
const fn sc(prop: &'static str, name: &'static str, covers: &'static [&'static str], run: fn()) -> sym::Scenario {
    sym::Scenario { prop, name, bounds: B, covers, run }
}
pub const ALL: &[sym::Scenario] = &[
    sc("C01", "abs_majority", CV, abs_majority),
    sc("C01", "abs_percent", CV, abs_percent),
    sc("C01", "quorum_majority", CV, quorum_majority),
    sc("C01", "quorum_percent", CV, quorum_percent),
    sc("C01", "count", CV, count),
    sc("C01", "revoting", &["passed", "rejected"], revoting),
    sc("C01", "config", &["accepted", "refused"], config),
    sc("C01+", "quorum_any", CV, quorum_any),
    sc("C01+", "quorum_percent_wide", CV, quorum_percent_wide),
    sc("C01+", "quorum_both", CV, quorum_both),
];
