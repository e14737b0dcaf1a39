//! Helpers around dao-proposal-single.
use crate::common::*;
use cosmwasm_std::*;
use cw_utils::Duration;
use dao_proposal_single::{msg as m, query as q};
use dao_voting::{
    pre_propose::PreProposeInfo, proposal::SingleChoiceProposeMsg, status::Status, threshold::Threshold, veto::VetoConfig,
    voting::{SingleChoiceAutoVote, Vote},
};

pub fn cfg(threshold: Threshold) -> m::InstantiateMsg {
    m::InstantiateMsg {
        threshold,
        max_voting_period: Duration::Time(1000),
        min_voting_period: None,
        only_members_execute: false,
        allow_revoting: false,
        pre_propose_info: PreProposeInfo::AnyoneMayPropose {},
        close_proposal_on_execution_failure: true,
        veto: None,
    }
}
pub fn single_code(w: &mut W) -> u64 {
    code!(w, dao_proposal_single::contract, reply, migrate)
}
pub fn dao(w: &mut W, cfg: &m::InstantiateMsg) -> R<Dao> {
    let c = single_code(w);
    dao_with(w, None, module(c, cfg))
}
pub fn propose_msg(msgs: Vec<CosmosMsg>, vote: Option<Vote>) -> m::ExecuteMsg {
    m::ExecuteMsg::Propose(SingleChoiceProposeMsg {
        title: "t".into(),
        description: "d".into(),
        msgs,
        proposer: None,
        vote: vote.map(|vote| SingleChoiceAutoVote { vote, rationale: None }),
    })
}
pub fn vote(w: &mut W, d: &Dao, who: &str, id: u64, vote: Vote) -> R<()> {
    w.exec(who, &d.prop, &m::ExecuteMsg::Vote { proposal_id: id, vote, rationale: None }, &[]).map(|_| ())
}
pub fn execute(w: &mut W, d: &Dao, who: &str, id: u64) -> R<()> {
    w.exec(who, &d.prop, &m::ExecuteMsg::Execute { proposal_id: id }, &[]).map(|_| ())
}
pub fn close(w: &mut W, d: &Dao, who: &str, id: u64) -> R<()> {
    w.exec(who, &d.prop, &m::ExecuteMsg::Close { proposal_id: id }, &[]).map(|_| ())
}
pub fn veto(w: &mut W, d: &Dao, who: &str, id: u64) -> R<()> {
    w.exec(who, &d.prop, &m::ExecuteMsg::Veto { proposal_id: id }, &[]).map(|_| ())
}
pub fn prop(w: &W, d: &Dao, id: u64) -> dao_proposal_single::proposal::SingleChoiceProposal {
    w.q::<q::ProposalResponse>(&d.prop, &m::QueryMsg::Proposal { proposal_id: id }).proposal
}
pub fn status(w: &W, d: &Dao, id: u64) -> Status {
    prop(w, d, id).status
}
pub fn ballot(w: &W, d: &Dao, id: u64, voter: &str) -> Option<q::VoteInfo> {
    w.q::<q::VoteResponse>(&d.prop, &m::QueryMsg::GetVote { proposal_id: id, voter: voter.into() }).vote
}
pub fn veto_cfg(t: Duration, early: bool, before: bool) -> VetoConfig {
    VetoConfig { timelock_duration: t, vetoer: "vetoer".into(), early_execute: early, veto_before_passed: before }
}
