//! One face for the single- and the multiple-choice proposal modules, and a
//! reference model of a proposal's life.
use crate::common::*;
use crate::single as s;
use cosmwasm_std::*;
use cw_utils::Duration;
use dao_voting::{
    multiple_choice::{MultipleChoiceAutoVote, MultipleChoiceOption, MultipleChoiceOptions, MultipleChoiceVote, VotingStrategy},
    pre_propose::PreProposeInfo,
    proposal::MultipleChoiceProposeMsg,
    status::Status,
    threshold::{PercentageThreshold as P, Threshold},
    veto::VetoConfig,
    voting::Vote,
};
pub use serde_cw as js;
pub mod serde_cw {
    use cosmwasm_schema::cw_serde;
    /// messages both modules understand
    #[cw_serde]
    pub enum X {
        Execute { proposal_id: u64 },
        Close { proposal_id: u64 },
        Veto { proposal_id: u64 },
        UpdateRationale { proposal_id: u64, rationale: Option<String> },
        AddProposalHook { address: String },
        RemoveProposalHook { address: String },
        AddVoteHook { address: String },
        RemoveVoteHook { address: String },
    }
}
use js::X;

#[derive(Clone)]
pub struct Cfg {
    pub multi: bool,
    pub revoting: bool,
    pub only_members: bool,
    pub close_on_fail: bool,
    pub period: u64,
    pub min: Option<u64>,
    pub veto: Option<(u64, bool, bool)>,
    /// single: votes needed (None: a majority of all); multiple: always a majority quorum
    pub count: Option<u128>,
    pub pre: PreProposeInfo,
}
impl Cfg {
    pub fn new(multi: bool) -> Cfg {
        Cfg {
            multi,
            revoting: false,
            only_members: false,
            close_on_fail: true,
            period: 1000,
            min: None,
            veto: None,
            count: None,
            pre: PreProposeInfo::AnyoneMayPropose {},
        }
    }
    pub fn veto(&self) -> Option<VetoConfig> {
        self.veto.map(|(t, e, b)| s::veto_cfg(Duration::Time(t), e, b))
    }
    pub fn single(&self) -> dao_proposal_single::msg::InstantiateMsg {
        let mut c = s::cfg(match self.count {
            Some(c) => Threshold::AbsoluteCount { threshold: Uint128::new(c) },
            None => Threshold::AbsolutePercentage { percentage: P::Majority {} },
        });
        c.max_voting_period = Duration::Time(self.period);
        c.min_voting_period = self.min.map(Duration::Time);
        c.only_members_execute = self.only_members;
        c.allow_revoting = self.revoting;
        c.close_proposal_on_execution_failure = self.close_on_fail;
        c.veto = self.veto();
        c.pre_propose_info = self.pre.clone();
        c
    }
    pub fn multiple(&self) -> dao_proposal_multiple::msg::InstantiateMsg {
        dao_proposal_multiple::msg::InstantiateMsg {
            voting_strategy: VotingStrategy::SingleChoice { quorum: P::Majority {} },
            min_voting_period: self.min.map(Duration::Time),
            max_voting_period: Duration::Time(self.period),
            only_members_execute: self.only_members,
            allow_revoting: self.revoting,
            pre_propose_info: self.pre.clone(),
            close_proposal_on_execution_failure: self.close_on_fail,
            veto: self.veto(),
        }
    }
    pub fn module(&self, w: &mut W) -> dao_interface::state::ModuleInstantiateInfo {
        if self.multi {
            let c = code!(w, dao_proposal_multiple::contract, reply, migrate);
            module(c, &self.multiple())
        } else {
            let c = s::single_code(w);
            module(c, &self.single())
        }
    }
    pub fn dao(&self, w: &mut W) -> R<Dao> {
        let m = self.module(w);
        dao_with(w, None, m)
    }
    /// the same configuration, sent as an update
    pub fn update(&self, w: &mut W, from: &str, d: &Dao) -> R<()> {
        if self.multi {
            let c = self.multiple();
            w.exec(
                from,
                &d.prop,
                &dao_proposal_multiple::msg::ExecuteMsg::UpdateConfig {
                    voting_strategy: c.voting_strategy,
                    min_voting_period: c.min_voting_period,
                    max_voting_period: c.max_voting_period,
                    only_members_execute: c.only_members_execute,
                    allow_revoting: c.allow_revoting,
                    dao: d.core.to_string(),
                    close_proposal_on_execution_failure: c.close_proposal_on_execution_failure,
                    veto: c.veto,
                },
                &[],
            )
        } else {
            let c = self.single();
            w.exec(
                from,
                &d.prop,
                &dao_proposal_single::msg::ExecuteMsg::UpdateConfig {
                    threshold: c.threshold,
                    max_voting_period: c.max_voting_period,
                    min_voting_period: c.min_voting_period,
                    only_members_execute: c.only_members_execute,
                    allow_revoting: c.allow_revoting,
                    dao: d.core.to_string(),
                    close_proposal_on_execution_failure: c.close_proposal_on_execution_failure,
                    veto: c.veto,
                },
                &[],
            )
        }
        .map(|_| ())
    }
    /// choices: single 0 yes, 1 no, 2 abstain; multiple 0 and 1 options, 2 none of the above.
    /// `msgs` belong to yes / to option 0, `other` to option 1.
    pub fn propose(&self, w: &mut W, d: &Dao, who: &str, msgs: Vec<CosmosMsg>, other: Vec<CosmosMsg>, vote: Option<u32>) -> R<()> {
        if self.multi {
            w.exec(who, &d.prop, &dao_proposal_multiple::msg::ExecuteMsg::Propose(multi_propose(msgs, other, vote)), &[])
        } else {
            w.exec(who, &d.prop, &s::propose_msg(msgs, vote.map(sv)), &[])
        }
        .map(|_| ())
    }
    pub fn vote(&self, w: &mut W, d: &Dao, who: &str, id: u64, v: u32) -> R<()> {
        if self.multi {
            w.exec(
                who,
                &d.prop,
                &dao_proposal_multiple::msg::ExecuteMsg::Vote { proposal_id: id, vote: MultipleChoiceVote { option_id: v }, rationale: None },
                &[],
            )
            .map(|_| ())
        } else {
            s::vote(w, d, who, id, sv(v))
        }
    }
    pub fn view(&self, w: &W, d: &Dao, id: u64) -> View {
        if self.multi {
            let p = w
                .q::<dao_proposal_multiple::query::ProposalResponse>(&d.prop, &dao_proposal_multiple::msg::QueryMsg::Proposal { proposal_id: id })
                .proposal;
            let v = |i: usize| p.votes.vote_weights[i].u128();
            View { status: p.status, tally: [v(0), v(1), v(2)], total: p.total_power.u128() }
        } else {
            let p = s::prop(w, d, id);
            View { status: p.status, tally: [p.votes.yes.u128(), p.votes.no.u128(), p.votes.abstain.u128()], total: p.total_power.u128() }
        }
    }
    pub fn ballot(&self, w: &W, d: &Dao, id: u64, who: &str) -> Option<(u32, u128)> {
        if self.multi {
            w.q::<dao_proposal_multiple::query::VoteResponse>(
                &d.prop,
                &dao_proposal_multiple::msg::QueryMsg::GetVote { proposal_id: id, voter: who.into() },
            )
            .vote
            .map(|v| (v.vote.option_id, v.power.u128()))
        } else {
            s::ballot(w, d, id, who).map(|v| {
                (
                    match v.vote {
                        Vote::Yes => 0,
                        Vote::No => 1,
                        Vote::Abstain => 2,
                    },
                    v.power.u128(),
                )
            })
        }
    }
}
pub fn multi_propose(msgs: Vec<CosmosMsg>, other: Vec<CosmosMsg>, vote: Option<u32>) -> MultipleChoiceProposeMsg {
    let o = |msgs| MultipleChoiceOption { title: "o".into(), description: "d".into(), msgs };
    MultipleChoiceProposeMsg {
        title: "t".into(),
        description: "d".into(),
        choices: MultipleChoiceOptions { options: vec![o(msgs), o(other)] },
        proposer: None,
        vote: vote.map(|v| MultipleChoiceAutoVote { vote: MultipleChoiceVote { option_id: v }, rationale: None }),
    }
}
pub fn sv(v: u32) -> Vote {
    [Vote::Yes, Vote::No, Vote::Abstain][v as usize]
}
pub fn x(w: &mut W, d: &Dao, who: &str, m: X) -> R<()> {
    w.exec(who, &d.prop, &m, &[]).map(|_| ())
}
pub struct View {
    pub status: Status,
    pub tally: [u128; 3],
    pub total: u128,
}

/// What a proposal is, by the rules alone.
#[derive(Clone)]
pub struct Model {
    pub c: Cfg,
    pub start: u64,
    pub total: u128,
    /// powers when the proposal was made
    pub powers: Vec<(&'static str, u128)>,
    pub ballots: Vec<(&'static str, u32)>,
    pub status: Status,
    pub execs: u32,
}
fn z(a: u128) -> Z {
    Z::from(a)
}
impl Model {
    pub fn new(c: &Cfg, now: u64, powers: &[(&'static str, u128)]) -> Model {
        let mut m = Model {
            c: c.clone(),
            start: now,
            total: powers.iter().fold(0, |a, p| a + p.1),
            powers: powers.to_vec(),
            ballots: vec![],
            status: Status::Open,
            execs: 0,
        };
        m.refresh(now);
        m
    }
    pub fn power(&self, who: &str) -> u128 {
        self.powers.iter().find(|p| p.0 == who).map_or(0, |p| p.1)
    }
    pub fn tally(&self) -> [Z; 3] {
        let mut t = [z(0), z(0), z(0)];
        for (w, v) in &self.ballots {
            t[*v as usize] = &t[*v as usize] + Z::from(self.power(w));
        }
        t
    }
    pub fn expired(&self, now: u64) -> bool {
        now >= self.start + self.c.period
    }
    fn decided(&self, now: u64) -> Option<bool> {
        let exp = self.expired(now);
        if self.c.revoting && !exp {
            return None;
        }
        let min = self.c.min.map_or(true, |m| now >= self.start + m);
        let t = self.tally();
        let total = z(self.total);
        let cast = &t[0] + &t[1] + &t[2];
        let (pass, fail);
        if self.c.multi {
            let quorum = (&cast * 2).gt(&total);
            let rest = &total - &cast;
            // the one option ahead of all others, if there is one
            let lead = (0..3).find(|i| (0..3).all(|j| j == *i || t[*i].gt(&t[j])));
            let second = |i: usize| {
                let (a, b) = (&t[(i + 1) % 3], &t[(i + 2) % 3]);
                a.max(b)
            };
            pass = match lead {
                Some(i) if i < 2 && quorum => exp || t[i].gt(&(second(i) + &rest)),
                _ => false,
            };
            fail = match lead {
                None => exp || rest.is_zero(),
                Some(2) => exp || t[2].ge(&(second(2) + &rest)),
                Some(_) => exp && !quorum,
            };
        } else if let Some(c) = self.c.count {
            pass = t[0].ge(&z(c));
            fail = (&t[0] + (&total - &cast)).lt(&z(c));
        } else {
            let opts = &total - &t[2];
            pass = (&t[0] * 2).gt(&opts) && !opts.is_zero();
            fail = opts.is_zero() || (&t[1] * 2).ge(&opts);
        }
        if pass && min {
            Some(true)
        } else if exp || fail {
            Some(false)
        } else {
            None
        }
    }
    pub fn refresh(&mut self, now: u64) {
        self.status = self.at(now);
    }
    /// the status at a time, if nothing happens until then
    pub fn at(&self, now: u64) -> Status {
        match self.status {
            Status::Open => match self.decided(now) {
                Some(true) => match self.c.veto {
                    Some((t, _, _)) => {
                        let end = self.start + self.c.period + t;
                        if now >= end {
                            Status::Passed
                        } else {
                            Status::VetoTimelock { expiration: cw_utils::Expiration::AtTime(Timestamp::from_seconds(end)) }
                        }
                    }
                    None => Status::Passed,
                },
                Some(false) => Status::Rejected,
                None => Status::Open,
            },
            Status::VetoTimelock { .. } => {
                let (t, _, _) = self.c.veto.unwrap();
                if now >= self.start + self.c.period + t {
                    Status::Passed
                } else {
                    self.status
                }
            }
            s => s,
        }
    }
    pub fn vote(&mut self, now: u64, who: &'static str, v: u32) -> bool {
        if self.expired(now) || self.power(who) == 0 || v > 2 {
            return false;
        }
        let old = self.ballots.iter().position(|b| b.0 == who);
        match old {
            Some(i) => {
                if !self.c.revoting || self.ballots[i].1 == v {
                    return false;
                }
                self.ballots[i].1 = v;
            }
            None => self.ballots.push((who, v)),
        }
        self.refresh(now);
        true
    }
    /// `works`: whether the proposal's messages succeed
    pub fn execute(&mut self, now: u64, who: &str, works: bool) -> bool {
        let may = match self.at(now) {
            Status::Passed => !self.c.only_members || self.power(who) != 0,
            Status::VetoTimelock { .. } => who == "vetoer" && self.c.veto.unwrap().1,
            _ => false,
        };
        if !may || (!works && !self.c.close_on_fail) {
            return false;
        }
        if works {
            self.execs += 1;
        }
        self.status = if works { Status::Executed } else { Status::ExecutionFailed };
        true
    }
    pub fn close(&mut self, now: u64) -> bool {
        if self.at(now) != Status::Rejected {
            return false;
        }
        self.status = Status::Closed;
        true
    }
    pub fn veto(&mut self, now: u64, who: &str) -> bool {
        let ok = who == "vetoer"
            && match (self.c.veto, self.at(now)) {
                (Some((_, _, before)), Status::Open) => before,
                (Some(_), Status::VetoTimelock { .. }) => true,
                _ => false,
            };
        if ok {
            self.status = Status::Vetoed;
        }
        ok
    }
}
pub fn same(what: &str, w: &W, d: &Dao, id: u64, m: &Model) {
    let now = w.block().time.seconds();
    let v = m.c.view(w, d, id);
    let t = m.tally();
    for i in 0..3 {
        sym::observe(&format!("tally{i}"), v.tally[i]);
        check_eq("tally-is-sum-of-ballots", v.tally[i], &t[i], "tally differs from the sum of the counted ballots");
    }
    check_eq("total-power", v.total, m.total, "total power differs from that at creation");
    sym::note("status", &format!("{:?}", std::mem::discriminant(&v.status)));
    let want = m.at(now);
    let eq = v.status == want;
    if !eq {
        sym::note("want", &want.to_string().chars().take(8).collect::<String>());
    }
    check(what, eq, "the proposal's status is not what its votes, times and history imply");
}
