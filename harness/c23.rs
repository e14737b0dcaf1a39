//! Those who watch proposals and votes (C23).
use crate::common::*;
use crate::pm::{js::X, sv, x, Cfg};
use cosmwasm_std::*;
use dao_hooks::{proposal as ph, vote as vh};
use dao_voting::{
    multiple_choice::MultipleChoiceVote,
    pre_propose::{PreProposeInfo, ProposalCreationPolicy},
    status::Status,
};

/// 3 watchers of proposals and of votes; each may fail from some time on
struct Watch {
    w: W,
    c: Cfg,
    d: Dao,
    o: Vec<Addr>,
    /// watchers still there
    props: Vec<usize>,
    votes: Vec<usize>,
    /// fails with the stage of this number and later
    from: Vec<u32>,
    stage: u32,
    /// messages each should have got
    want: Vec<Vec<Binary>>,
    /// the module that may propose, if there is one
    pre: Option<Addr>,
}
fn new_proposal(id: u64, by: &str) -> Binary {
    to_json_binary(&ph::ProposalHookExecuteMsg::ProposalHook(ph::ProposalHookMsg::NewProposal { id, proposer: by.into() })).unwrap()
}
fn changed(id: u64, a: Status, b: Status) -> Binary {
    let m = ph::ProposalHookMsg::ProposalStatusChanged { id, old_status: a.to_string(), new_status: b.to_string() };
    to_json_binary(&ph::ProposalHookExecuteMsg::ProposalHook(m)).unwrap()
}
fn voted(multi: bool, id: u64, by: &str, v: u32) -> Binary {
    let vote = if multi { MultipleChoiceVote { option_id: v }.to_string() } else { sv(v).to_string() };
    to_json_binary(&vh::VoteHookExecuteMsg::VoteHook(vh::VoteHookMsg::NewVote { proposal_id: id, voter: by.into(), vote })).unwrap()
}
impl Watch {
    fn new(n: usize, c: Cfg, from: Vec<u32>) -> Watch {
        let mut w = W::new();
        let d = c.dao(&mut w).unwrap();
        let o: Vec<Addr> = (0..n).map(|_| w.new_rec()).collect();
        let dao = d.core.to_string();
        for a in &o {
            x(&mut w, &d, &dao, X::AddProposalHook { address: a.to_string() }).unwrap();
            x(&mut w, &d, &dao, X::AddVoteHook { address: a.to_string() }).unwrap();
        }
        let pre = if let PreProposeInfo::ModuleMayPropose { .. } = &c.pre {
            match w.q(&d.prop, &dao_proposal_single::msg::QueryMsg::ProposalCreationPolicy {}) {
                ProposalCreationPolicy::Module { addr } => Some(addr),
                _ => None,
            }
        } else {
            None
        };
        let mut r = Watch { w, c, d, o, props: (0..n).collect(), votes: (0..n).collect(), from, stage: 0, want: vec![vec![]; n], pre };
        r.stage(0);
        r
    }
    fn stage(&mut self, s: u32) {
        self.stage = s;
        for i in 0..self.o.len() {
            self.w.rec_fail(&self.o[i].clone(), self.fails(i));
        }
    }
    fn fails(&self, i: usize) -> bool {
        self.from[i] <= self.stage
    }
    fn fire_props(&mut self, m: Binary) {
        for i in self.props.clone() {
            if self.fails(i) {
                cover("dropped");
                self.props.retain(|j| *j != i)
            } else {
                self.want[i].push(m.clone())
            }
        }
    }
    fn fire_votes(&mut self, m: Binary) {
        for i in self.votes.clone() {
            if self.fails(i) {
                self.votes.retain(|j| *j != i)
            } else {
                self.want[i].push(m.clone())
            }
        }
    }
    fn all(&mut self) {
        use dao_proposal_single::msg::QueryMsg as Q;
        let names = |l: &[usize]| l.iter().map(|i| self.o[*i].to_string()).collect::<Vec<_>>();
        let l: cw_hooks::HooksResponse = self.w.q(&self.d.prop, &Q::ProposalHooks {});
        check("proposal-watchers", l.hooks == names(&self.props), "a watcher of proposals that failed stays, or another was dropped");
        let l: cw_hooks::HooksResponse = self.w.q(&self.d.prop, &Q::VoteHooks {});
        check("vote-watchers", l.hooks == names(&self.votes), "a watcher of votes that failed stays, or another was dropped");
        for i in 0..self.o.len() {
            let got: Vec<Rec> = self.w.rec(&self.o[i]);
            check("told", got.iter().map(|r| r.msg.clone()).collect::<Vec<_>>() == self.want[i], "a watcher was not told exactly what happened, in order");
            check("told-by", got.iter().all(|r| r.sender == self.d.prop.as_str()), "a watcher was told by someone else");
        }
    }
}
const STAGES: &[u32] = &[0, 1, 2, 9];
fn froms(n: usize) -> Vec<u32> {
    (0..n).map(|i| pick(&format!("fails_from{i}"), STAGES)).collect()
}
/// a proposal from beginning to end
fn life(n: usize) {
    let multi = flag("multiple");
    let mut c = Cfg::new(multi);
    c.revoting = flag("revoting");
    let end = pick("end", &["execute", "close", "veto"]);
    if end == "veto" {
        c.veto = Some((100, false, true));
    }
    let mut t = Watch::new(n, c, froms(n));
    let p = sym::u128("power", 1, 1000);
    let vm = t.d.vm.clone();
    t.w.set_powers_total(&vm, &[("ann", p)], 1000, true);
    t.w.advance(1, 1);
    let (c, d) = (t.c.clone(), Dao { core: t.d.core.clone(), vm, prop: t.d.prop.clone() });
    check("proposed", c.propose(&mut t.w, &d, "ann", vec![], vec![], None).is_ok(), "a proposal was refused because of a watcher");
    t.fire_props(new_proposal(1, "ann"));
    t.all();
    t.stage(1);
    let mut status = c.view(&t.w, &d, 1).status;
    check("open", status == Status::Open, "a new proposal is not open");
    // with close, against it; with veto, for or against
    let v = match end {
        "execute" => 0,
        "close" => 1 + multi as u32,
        _ => pick("vote", &[0, 1 + multi as u32]),
    };
    check("voted", c.vote(&mut t.w, &d, "ann", 1, v).is_ok(), "a vote was refused because of a watcher");
    let now = c.view(&t.w, &d, 1).status;
    if now != status {
        cover("decided");
        t.fire_props(changed(1, status, now));
        status = now;
    }
    t.fire_votes(voted(multi, 1, "ann", v));
    t.all();
    t.stage(2);
    t.w.advance(10, if end == "veto" { 10 } else { 2000 });
    let before = c.view(&t.w, &d, 1).status;
    let (r, to) = match end {
        "execute" => (x(&mut t.w, &d, "ann", X::Execute { proposal_id: 1 }), Status::Executed),
        "close" => (x(&mut t.w, &d, "ann", X::Close { proposal_id: 1 }), Status::Closed),
        _ => (x(&mut t.w, &d, "vetoer", X::Veto { proposal_id: 1 }), Status::Vetoed),
    };
    let may = match end {
        "execute" => before == Status::Passed,
        "close" => before == Status::Rejected,
        _ => before == Status::Open || matches!(before, Status::VetoTimelock { .. }),
    };
    check("ended", r.is_ok() == may, "the end of a proposal was refused because of a watcher, or came too early");
    if r.is_ok() {
        cover("ended");
        t.fire_props(changed(1, before, to));
        let _ = status;
        check("end", c.view(&t.w, &d, 1).status == to, "a proposal has not ended as it did");
    }
    t.all();
}
fn hooks_life() {
    life(2)
}
fn hooks_life_more() {
    life(3)
}
/// a ballot with the proposal
fn hooks_ballot() {
    let multi = flag("multiple");
    let c = Cfg::new(multi);
    let n = 3;
    let mut t = Watch::new(n, c, (0..n).map(|i| pick(&format!("fails_from{i}"), &[0, 9])).collect());
    let p = sym::u128("power", 1, 1000);
    let vm = t.d.vm.clone();
    t.w.set_powers_total(&vm, &[("ann", p)], 1000, true);
    t.w.advance(1, 1);
    let (c, d) = (t.c.clone(), Dao { core: t.d.core.clone(), vm, prop: t.d.prop.clone() });
    let v = pick("vote", &[0, 1, 2]);
    let failing = (0..n).any(|i| t.fails(i));
    let r = c.propose(&mut t.w, &d, "ann", vec![], vec![], Some(v)).is_ok();
    let decided = !r || c.view(&t.w, &d, 1).status != Status::Open;
    // what is told twice at once is told apart in known_findings.json
    let l = |a: &'static str, b: &'static str| if decided && failing { b } else { a };
    check(l("ballot-proposed", "decided-proposed"), r, "a proposal with a ballot was refused because of a watcher");
    if !r {
        return;
    }
    t.fire_props(new_proposal(1, "ann"));
    if decided {
        cover("decided");
        let now = c.view(&t.w, &d, 1).status;
        t.fire_props(changed(1, Status::Open, now));
    }
    t.fire_votes(voted(multi, 1, "ann", v));
    if decided && failing {
        use dao_proposal_single::msg::QueryMsg as Q;
        let lp: cw_hooks::HooksResponse = t.w.q(&t.d.prop, &Q::ProposalHooks {});
        let names: Vec<String> = t.props.iter().map(|i| t.o[*i].to_string()).collect();
        check("decided-watchers", lp.hooks == names, "a watcher of proposals that failed stays, or another was dropped");
    }
    t.all();
}
/// who may add and remove watchers
fn hooks_authority() {
    let multi = flag("multiple");
    let mut t = Watch::new(2, Cfg::new(multi), vec![9, 9]);
    let dao = t.d.core.to_string();
    let from = pick("from", &["dao", "ann", "watcher", "module"]);
    let sender = match from {
        "dao" => dao.clone(),
        "watcher" => t.o[0].to_string(),
        "module" => t.d.prop.to_string(),
        a => a.to_string(),
    };
    let known = pick("which", &[0usize, 1, 2]);
    let address = t.o.get(known).map_or("stranger".to_string(), |a| a.to_string());
    let (add, votes) = (flag("add"), flag("votes"));
    let m = match (add, votes) {
        (true, false) => X::AddProposalHook { address },
        (true, true) => X::AddVoteHook { address },
        (false, false) => X::RemoveProposalHook { address },
        (false, true) => X::RemoveVoteHook { address },
    };
    let d = Dao { core: t.d.core.clone(), vm: t.d.vm.clone(), prop: t.d.prop.clone() };
    let r = x(&mut t.w, &d, &sender, m);
    let may = from == "dao" && (known < 2) != add;
    check("changed-iff-dao", r.is_ok() == may, "someone else than the DAO changed who watches, or a watcher was added twice, or it was refused");
    if may {
        if add {
            let a = Addr::unchecked("stranger");
            t.o.push(a);
            let l = if votes { &mut t.votes } else { &mut t.props };
            l.push(2);
            use dao_proposal_single::msg::QueryMsg as Q;
            let h: cw_hooks::HooksResponse = t.w.q(&t.d.prop, &if votes { Q::VoteHooks {} } else { Q::ProposalHooks {} });
            check("added", h.hooks.len() == 3 && h.hooks[2] == "stranger", "a watcher was not added");
            return;
        }
        let l = if votes { &mut t.votes } else { &mut t.props };
        l.retain(|i| *i != known);
    }
    t.all();
}
/// A proposal module whose own pre-propose module fails falls back to letting
/// anyone propose; the proposal ends all the same.
fn hooks_module() {
    let multi = flag("multiple");
    let mut c = Cfg::new(multi);
    let n = 2;
    let end = pick("end", &["execute", "close", "veto"]);
    if end == "veto" {
        c.veto = Some((100, false, true));
    }
    let mut w0 = Watch::new(n, c, (0..n).map(|i| pick(&format!("fails_from{i}"), &[2, 9])).collect());
    // the recorder in place of a pre-propose module
    let code = w0.w.store(Box::new(Recorder));
    let dao = w0.d.core.to_string();
    let info = PreProposeInfo::ModuleMayPropose { info: module(code, &Empty {}) };
    let ok = if multi {
        w0.w.exec(&dao, &w0.d.prop.clone(), &dao_proposal_multiple::msg::ExecuteMsg::UpdatePreProposeInfo { info }, &[]).is_ok()
    } else {
        w0.w.exec(&dao, &w0.d.prop.clone(), &dao_proposal_single::msg::ExecuteMsg::UpdatePreProposeInfo { info }, &[]).is_ok()
    };
    check("module-set", ok, "the module that may propose could not be set");
    let policy = |t: &Watch| t.w.q::<ProposalCreationPolicy>(&t.d.prop, &dao_proposal_single::msg::QueryMsg::ProposalCreationPolicy {});
    let ProposalCreationPolicy::Module { addr } = policy(&w0) else {
        check("module-there", false, "the module that may propose was not set");
        return;
    };
    w0.pre = Some(addr.clone());
    let mut t = w0;
    let p = sym::u128("power", 1, 1000);
    let vm = t.d.vm.clone();
    t.w.set_powers_total(&vm, &[("ann", p)], 1000, true);
    t.w.advance(1, 1);
    let (c, d) = (t.c.clone(), Dao { core: t.d.core.clone(), vm, prop: t.d.prop.clone() });
    check("only-module", c.propose(&mut t.w, &d, "ann", vec![], vec![], None).is_err(), "someone proposed past the module that alone may");
    // the module proposes for ann
    let r = if multi {
        let mut m = crate::pm::multi_propose(vec![], vec![], None);
        m.proposer = Some("ann".into());
        t.w.exec(&addr, &d.prop, &dao_proposal_multiple::msg::ExecuteMsg::Propose(m), &[])
    } else {
        let m = dao_voting::proposal::SingleChoiceProposeMsg { title: "t".into(), description: "d".into(), msgs: vec![], proposer: Some("ann".into()), vote: None };
        t.w.exec(&addr, &d.prop, &dao_proposal_single::msg::ExecuteMsg::Propose(m), &[])
    };
    check("proposed", r.is_ok(), "the module could not propose");
    t.fire_props(new_proposal(1, "ann"));
    let v = if end == "close" { 1 + multi as u32 } else { 0 };
    c.vote(&mut t.w, &d, "ann", 1, v).unwrap();
    let now = c.view(&t.w, &d, 1).status;
    if now != Status::Open {
        t.fire_props(changed(1, Status::Open, now));
    }
    t.fire_votes(voted(multi, 1, "ann", v));
    t.stage(2);
    let broken = flag("module_fails");
    t.w.rec_fail(&addr, broken);
    t.w.advance(10, if end == "veto" { 10 } else { 2000 });
    let before = c.view(&t.w, &d, 1).status;
    let (r, to) = match end {
        "execute" => (x(&mut t.w, &d, "ann", X::Execute { proposal_id: 1 }), Status::Executed),
        "close" => (x(&mut t.w, &d, "ann", X::Close { proposal_id: 1 }), Status::Closed),
        _ => (x(&mut t.w, &d, "vetoer", X::Veto { proposal_id: 1 }), Status::Vetoed),
    };
    let may = match end {
        "execute" => before == Status::Passed,
        "close" => before == Status::Rejected,
        _ => before == Status::Open || matches!(before, Status::VetoTimelock { .. }),
    };
    check("ended", r.is_ok() == may, "the end of a proposal was refused because of a watcher, or came too early");
    if !may {
        return;
    }
    t.fire_props(changed(1, before, to));
    t.all();
    let told: Vec<Rec> = t.w.rec(&addr);
    if broken {
        cover("module dropped");
        check("module-dropped", matches!(policy(&t), ProposalCreationPolicy::Anyone {}), "a module that failed may still alone propose");
        check("anyone", c.propose(&mut t.w, &d, "ann", vec![], vec![], None).is_ok(), "nobody can propose after the module failed");
    } else {
        cover("module told");
        let m: ph::PreProposeHookMsg = dao_pre_propose_base::msg::ExecuteMsg::ProposalCompletedHook { proposal_id: 1, new_status: to };
        check("module-told", told.len() == 1 && told[0].msg == to_json_binary(&m).unwrap(), "the module that proposed was not told of the end");
        check("module-stays", policy(&t) == ProposalCreationPolicy::Module { addr }, "a module that did not fail was dropped");
    }
}
pub const ALL: &[sym::Scenario] = &[
    sym::Scenario {
        prop: "C23",
        name: "hooks_life",
        bounds: "2 watchers, each failing from the proposal, the vote or the end on or never; any power of 1 to 1000 out of 1000; executed, closed or vetoed; both proposal modules",
        covers: &["dropped", "decided", "ended"],
        run: hooks_life,
    },
    sym::Scenario {
        prop: "C23",
        name: "hooks_ballot",
        bounds: "3 watchers, failing or not, of a proposal made with a ballot of any power of 1 to 1000 out of 1000; both proposal modules",
        covers: &["dropped", "decided"],
        run: hooks_ballot,
    },
    sym::Scenario { prop: "C23", name: "hooks_authority", bounds: "watchers of proposals or votes added or removed, there or not, by the DAO, a watcher, the module or anyone", covers: &[], run: hooks_authority },
    sym::Scenario {
        prop: "C23",
        name: "hooks_module",
        bounds: "a module that may propose, failing at the end or not, with 2 watchers failing at the end or not; executed, closed or vetoed; both proposal modules",
        covers: &["module dropped", "module told"],
        run: hooks_module,
    },
    sym::Scenario { prop: "C23+", name: "hooks_life_more", bounds: "as hooks_life, 3 watchers", covers: &["dropped", "decided", "ended"], run: hooks_life_more },
];
