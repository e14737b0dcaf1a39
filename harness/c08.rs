//! Proposal deposits, who may submit, and approval before proposing (C08-C10).
use crate::common::*;
use crate::pm::{js::X, x, Cfg};
use cosmwasm_std::*;
use cw_denom::UncheckedDenom;
use dao_pre_propose_approval_single::msg as am;
use dao_pre_propose_base::msg as bm;
use dao_voting::{
    deposit::{DepositRefundPolicy, DepositToken, UncheckedDepositInfo},
    pre_propose::{PreProposeInfo, PreProposeSubmissionPolicy as Policy, ProposalCreationPolicy},
    status::Status,
};

const MAXP: u128 = 1 << 120;
const TMAX: u64 = 1_000_000_000;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Single,
    Multi,
    Approval,
}
#[derive(Clone, Copy)]
pub struct Dep {
    native: bool,
    amount: u128,
    policy: u32, // 0 always, 1 only passed, 2 never
}
pub struct Pp {
    pub w: W,
    pub c: Cfg,
    pub d: Dao,
    pub pp: Addr,
    pub kind: Kind,
    token: Addr,
    /// expected balances: native then cw20, of the accounts in ACC and then the deposit contract
    want: [[Z; 4]; 2],
}
const ACC: [&str; 3] = ["alice", "bob", "dao"];
fn anyone() -> Policy {
    Policy::Anyone { denylist: vec![] }
}
impl Pp {
    /// Members: the voter, who decides alone.
    pub fn new(kind: Kind, mut c: Cfg, dep: Option<Dep>, policy: Policy, approver: &str) -> Pp {
        let mut w = W::new();
        let token = w.new_cw20(&[]);
        let pre = match kind {
            Kind::Single => code!(w, dao_pre_propose_single::contract),
            Kind::Multi => code!(w, dao_pre_propose_multiple::contract),
            Kind::Approval => code!(w, dao_pre_propose_approval_single::contract),
        };
        let info = dep.map(|d| unchecked(&d, &token));
        let m = if kind == Kind::Approval {
            module(pre, &am::InstantiateMsg { deposit_info: info, submission_policy: policy, extension: am::InstantiateExt { approver: approver.into() } })
        } else {
            module(pre, &bm::InstantiateMsg::<Empty> { deposit_info: info, submission_policy: policy, extension: Empty {} })
        };
        c.multi = kind == Kind::Multi;
        c.pre = PreProposeInfo::ModuleMayPropose { info: m };
        let d = c.dao(&mut w).unwrap();
        w.set_powers(&d.vm, &[("voter", 10)]);
        let pp = creation_module(&w, &d).unwrap();
        Pp { w, c, d, pp, kind, token, want: std::array::from_fn(|_| std::array::from_fn(|_| Z::from(0u128))) }
    }
    pub fn propose_msg(&self, msgs: Vec<CosmosMsg>, vote: bool) -> Binary {
        use dao_voting::voting::{SingleChoiceAutoVote, Vote};
        let v = if vote { Some(SingleChoiceAutoVote { vote: Vote::Yes, rationale: None }) } else { None };
        let (t, d) = (String::from("t"), String::from("d"));
        match self.kind {
            Kind::Single => {
                use dao_pre_propose_single::contract::{ExecuteMsg, ProposeMessage};
                to_json_binary(&ExecuteMsg::Propose { msg: ProposeMessage::Propose { title: t, description: d, msgs, vote: v } })
            }
            Kind::Multi => {
                use dao_pre_propose_multiple::contract::{ExecuteMsg, ProposeMessage};
                let m = crate::pm::multi_propose(msgs, vec![], None);
                to_json_binary(&ExecuteMsg::Propose { msg: ProposeMessage::Propose { title: t, description: d, choices: m.choices, vote: None } })
            }
            Kind::Approval => {
                to_json_binary(&am::ExecuteMsg::Propose { msg: am::ProposeMessage::Propose { title: t, description: d, msgs, vote: v } })
            }
        }
        .unwrap()
    }
    pub fn submit(&mut self, who: &str, msgs: Vec<CosmosMsg>, vote: bool, funds: Vec<Coin>) -> bool {
        let m = self.propose_msg(msgs, vote);
        let m = WasmMsg::Execute { contract_addr: self.pp.to_string(), msg: m, funds };
        self.w.msg(who, m.into()).is_ok()
    }
    fn acc(&self, i: usize) -> String {
        match i {
            2 => self.d.core.to_string(),
            3 => self.pp.to_string(),
            i => ACC[i].to_string(),
        }
    }
    fn fund(&mut self, i: usize, native: bool, amount: u128) {
        let a = self.acc(i);
        if native {
            self.w.mint(&a, amount, "ujuno");
        } else {
            self.w
                .exec("minter", &self.token.clone(), &cw20::Cw20ExecuteMsg::Mint { recipient: a, amount: Uint128::new(amount) }, &[])
                .unwrap();
        }
        let k = if native { 0 } else { 1 };
        self.want[k][i] = &self.want[k][i] + Z::from(amount);
    }
    fn allow(&mut self, who: &str, amount: u128) {
        let m = cw20::Cw20ExecuteMsg::IncreaseAllowance { spender: self.pp.to_string(), amount: Uint128::new(amount), expires: None };
        self.w.exec(who, &self.token.clone(), &m, &[]).unwrap();
    }
    fn moved(&mut self, native: bool, from: usize, to: usize, amount: u128) {
        let k = if native { 0 } else { 1 };
        self.want[k][from] = &self.want[k][from] - Z::from(amount);
        self.want[k][to] = &self.want[k][to] + Z::from(amount);
    }
    /// pays exactly what is asked and submits
    fn paid_submit(&mut self, i: usize, dep: &Option<Dep>, msgs: Vec<CosmosMsg>) {
        let mut funds = vec![];
        if let Some(d) = dep {
            self.fund(i, d.native, d.amount);
            if d.native {
                funds = coins(d.amount, "ujuno");
            } else {
                self.allow(ACC[i], d.amount);
            }
            self.moved(d.native, i, 3, d.amount);
        }
        let ok = self.submit(ACC[i], msgs, false, funds);
        check("paid-submission-accepted", ok, "a submission with its deposit paid was refused");
    }
    fn balances(&self) {
        for i in 0..4 {
            let a = self.acc(i);
            check_eq("native-balance", self.w.bal(&a, "ujuno"), &self.want[0][i], "a deposit was taken or returned wrongly");
            check_eq("token-balance", self.w.cw20(&self.token, &a), &self.want[1][i], "a deposit was taken or returned wrongly");
        }
        sym::observe("held", self.w.bal(self.acc(3), "ujuno") + self.w.cw20(&self.token, self.acc(3)));
    }
    fn status(&self, id: u64) -> Status {
        self.c.view(&self.w, &self.d, id).status
    }
    /// outcome 0 executed, 1 execution failed, 2 rejected and closed, 3 vetoed, 4 vetoed late, 5 left open, 6 rejected but not closed
    fn finish(&mut self, id: u64, outcome: u32, i: usize, dep: &Option<Dep>) {
        let (d, c) = (self.d_clone(), self.c.clone());
        let vote = match outcome {
            0 | 1 | 4 => Some(0),
            2 | 6 => Some(if self.c.multi { 2 } else { 1 }),
            _ => None,
        };
        if let Some(v) = vote {
            c.vote(&mut self.w, &d, "voter", id, v).unwrap();
        }
        match outcome {
            0 | 1 => x(&mut self.w, &d, "vetoer", X::Execute { proposal_id: id }).unwrap(),
            2 => x(&mut self.w, &d, "anyone", X::Close { proposal_id: id }).unwrap(),
            3 | 4 => x(&mut self.w, &d, "vetoer", X::Veto { proposal_id: id }).unwrap(),
            _ => (),
        }
        let want = match outcome {
            0 => Status::Executed,
            1 => Status::ExecutionFailed,
            2 => Status::Closed,
            3 | 4 => Status::Vetoed,
            5 => Status::Open,
            _ => Status::Rejected,
        };
        check("outcome", self.status(id) == want, "the proposal did not end as its votes say");
        if let (Some(dp), true) = (dep, outcome < 5) {
            let back = dp.policy == 0 || (dp.policy == 1 && outcome < 2);
            self.moved(dp.native, 3, if back { i } else { 2 }, dp.amount);
            cover(if back { "refunded" } else { "kept" });
        }
        check("module-kept", creation_module(&self.w, &self.d).as_ref() == Some(&self.pp), "the deposit contract lost its place");
    }
    fn d_clone(&self) -> Dao {
        Dao { core: self.d.core.clone(), vm: self.d.vm.clone(), prop: self.d.prop.clone() }
    }
    fn set_deposit(&mut self, who: &str, dep: &Option<Dep>) -> bool {
        let info = dep.map(|d| unchecked(&d, &self.token));
        let m: bm::ExecuteMsg<Empty, Empty> = bm::ExecuteMsg::UpdateConfig { deposit_info: info, submission_policy: None };
        self.w.exec(who, &self.pp.clone(), &m, &[]).is_ok()
    }
}
pub fn creation_module(w: &W, d: &Dao) -> Option<Addr> {
    match w.q(&d.prop, &dao_proposal_single::msg::QueryMsg::ProposalCreationPolicy {}) {
        ProposalCreationPolicy::Module { addr } => Some(addr),
        ProposalCreationPolicy::Anyone {} => None,
    }
}
fn unchecked(d: &Dep, token: &Addr) -> UncheckedDepositInfo {
    UncheckedDepositInfo {
        denom: DepositToken::Token {
            denom: if d.native { UncheckedDenom::Native("ujuno".into()) } else { UncheckedDenom::Cw20(token.to_string()) },
        },
        amount: Uint128::new(d.amount),
        refund_policy: match d.policy {
            0 => DepositRefundPolicy::Always,
            1 => DepositRefundPolicy::OnlyPassed,
            _ => DepositRefundPolicy::Never,
        },
    }
}
fn cfg() -> Cfg {
    let mut c = Cfg::new(false);
    c.veto = Some((1000, true, true));
    c
}
fn any_dep(n: &str) -> Dep {
    Dep { native: flag(&format!("{n}native")), amount: sym::u128(&format!("{n}amount"), 1, MAXP), policy: sym::choose(&format!("{n}policy"), 3) }
}
fn fails() -> Vec<CosmosMsg> {
    vec![BankMsg::Send { to_address: "x".into(), amount: coins(5, "none") }.into()]
}

/// Two proposals with different deposits, finishing in either order in any way.
fn deposits(kind: Kind) {
    let a = any_dep("a");
    let mut p = Pp::new(kind, cfg(), Some(a), anyone(), "");
    let o1 = sym::choose("end1", 7);
    p.paid_submit(0, &Some(a), if o1 == 1 { fails() } else { vec![] });
    p.balances();
    // the terms change; the first proposal keeps its own
    let b = match sym::choose("then", 3) {
        0 => None,
        1 => Some(Dep { native: !a.native, amount: sym::u128("bamount", 1, MAXP), policy: (a.policy + 1) % 3 }),
        _ => Some(Dep { native: a.native, amount: sym::u128("bamount", 1, MAXP), policy: (a.policy + 2) % 3 }),
    };
    let dao = p.d.core.to_string();
    check("dao-updates", p.set_deposit(&dao, &b), "the DAO could not change the deposit");
    let early = flag("first_ends_early");
    if early {
        p.finish(1, o1, 0, &Some(a));
        p.balances();
    }
    let o2 = pick("end2", &[0, 2, 3]);
    p.paid_submit(1, &b, vec![]);
    p.finish(2, o2, 1, &b);
    if !early {
        p.finish(1, o1, 0, &Some(a));
    }
    p.balances();
    // nobody but the proposal module settles deposits
    let m: bm::ExecuteMsg<Empty, Empty> = bm::ExecuteMsg::ProposalCompletedHook { proposal_id: 1, new_status: Status::Executed };
    let r = p.w.exec("alice", &p.pp.clone(), &m, &[]);
    check("settles-for-module-only", r.is_err(), "an outsider settled a deposit");
}
fn deposits_single() {
    deposits(Kind::Single)
}
fn deposits_multi() {
    deposits(Kind::Multi)
}
/// What has to be paid for a submission to be taken.
fn payment() {
    let kind = if flag("multi") { Kind::Multi } else { Kind::Single };
    let a = any_dep("a");
    let mut p = Pp::new(kind, cfg(), Some(a), anyone(), "");
    let ok;
    let got;
    if a.native {
        let sent = sym::u128("sent", 0, MAXP);
        let other = sym::u128("other", 0, 1000);
        p.fund(0, true, sent);
        p.w.mint("alice", other, "uatom");
        let mut funds = vec![];
        if other > 0 {
            funds.push(coin(other, "uatom"));
        }
        if sent > 0 {
            funds.push(coin(sent, "ujuno"));
        }
        ok = sent == a.amount && other == 0;
        got = p.submit("alice", vec![], false, funds);
        if ok {
            p.moved(true, 0, 3, sent);
        }
    } else {
        let (have, allowed) = (sym::u128("have", 1, MAXP), sym::u128("allowed", 1, MAXP));
        p.fund(0, false, have);
        if flag("allow") {
            p.allow("alice", allowed);
            ok = have >= a.amount && allowed >= a.amount;
        } else {
            ok = false;
        }
        // somebody else's allowance is of no use
        p.fund(1, false, a.amount);
        p.allow("bob", a.amount);
        got = p.submit("alice", vec![], false, vec![]);
        if ok {
            p.moved(false, 0, 3, a.amount);
        }
    }
    check("taken-iff-paid", got == ok, "a submission was taken unpaid or refused though paid");
    cover(if got { "taken" } else { "refused" });
    p.balances();
    let n: u64 = p.w.q(&p.d.prop, &dao_proposal_single::msg::QueryMsg::ProposalCount {});
    check("proposal-iff-taken", n == got as u64, "a proposal exists without its submission or the reverse");
    // outsiders change nothing, and there is no deposit of nothing
    let who = pick("who", &["alice", "voter", "dao"]);
    let zero = Dep { amount: sym::u128("new", 0, 1), ..a };
    let from = if who == "dao" { p.d.core.to_string() } else { who.to_string() };
    let r = p.set_deposit(&from, &Some(zero));
    check("update-by-dao-only", r == (who == "dao" && zero.amount > 0), "the deposit was changed against the rules");
}

// ---- C09 ----
#[derive(Clone, PartialEq)]
struct Rules {
    specific: bool,
    members: bool,
    allow: Vec<&'static str>,
    deny: Vec<&'static str>,
}
const WHO: [&str; 2] = ["alice", "bob"];
fn subset(n: &str) -> Vec<&'static str> {
    let k = sym::choose(n, 4);
    (0..2).filter(|i| k >> i & 1 == 1).map(|i| WHO[i as usize]).collect()
}
fn addrs(l: &[&str]) -> Vec<Addr> {
    l.iter().map(|a| Addr::unchecked(*a)).collect()
}
fn strs(l: &[&str]) -> Option<Vec<String>> {
    if l.is_empty() {
        None
    } else {
        Some(l.iter().map(|a| a.to_string()).collect())
    }
}
impl Rules {
    fn any(n: &str) -> Rules {
        let specific = flag(&format!("{n}specific"));
        Rules {
            specific,
            members: specific && flag(&format!("{n}members")),
            allow: if specific { subset(&format!("{n}allow")) } else { vec![] },
            deny: subset(&format!("{n}deny")),
        }
    }
    fn valid(&self) -> bool {
        !self.specific || (!self.deny.iter().any(|a| self.allow.contains(a)) && (self.members || !self.allow.is_empty()))
    }
    fn may(&self, who: &str, power: u128) -> bool {
        if self.deny.iter().any(|a| *a == who) {
            return false;
        }
        !self.specific || self.allow.iter().any(|a| *a == who) || (self.members && power > 0)
    }
    fn policy(&self) -> Policy {
        if self.specific {
            Policy::Specific { dao_members: self.members, allowlist: addrs(&self.allow), denylist: addrs(&self.deny) }
        } else {
            Policy::Anyone { denylist: addrs(&self.deny) }
        }
    }
}
fn settle(l: &mut Vec<&'static str>, add: &[&'static str], rem: &[&'static str]) {
    for a in add {
        if !l.contains(a) {
            l.push(a);
        }
    }
    l.retain(|a| !rem.contains(a));
}
fn sub_kind() -> Kind {
    pick("kind", &[Kind::Single, Kind::Multi, Kind::Approval])
}
fn who_may(p: &mut Pp, r: &Rules) {
    let pw = sym::u128("power", 0, MAXP);
    p.w.advance(1, 1);
    p.w.set_powers(&p.d.vm.clone(), &[("voter", 1), ("alice", pw)]);
    let who = pick("who", &WHO);
    let want = r.may(who, if who == "alice" { pw } else { 0 });
    let said: bool = p.w.q(&p.pp, &bm::QueryMsg::<Empty>::CanPropose { address: who.into() });
    check("query-says-so", said == want, "the contract's answer is not what its policy says");
    let got = p.submit(who, vec![], false, vec![]);
    check("submits-iff-allowed", got == want, "a submission was taken or refused against the policy");
    cover(if got { "allowed" } else { "denied" });
    // nobody goes around it
    let d = p.d_clone();
    let r = p.c.clone().propose(&mut p.w, &d, who, vec![], vec![], None);
    check("no-way-around", r.is_err(), "a proposal was made past the submission rules");
}
/// Policies set as a whole.
fn policy() {
    let r = Rules::any("");
    let mut p = Pp::new(sub_kind(), cfg(), None, anyone(), "appr");
    let from = pick("from", &["dao", "voter"]);
    let f = if from == "dao" { p.d.core.to_string() } else { from.to_string() };
    let m: bm::ExecuteMsg<Empty, Empty> = bm::ExecuteMsg::UpdateConfig { deposit_info: None, submission_policy: Some(r.policy()) };
    let ok = p.w.exec(f, &p.pp.clone(), &m, &[]).is_ok();
    check("policy-set-iff-valid", ok == (from == "dao" && r.valid()), "a policy was set or refused against the rules");
    let r = if ok { r } else { Rules { specific: false, members: false, allow: vec![], deny: vec![] } };
    who_may(&mut p, &r);
}
/// Policies edited step by step.
fn edits_n(kind: Kind, steps: u32) {
    let mut r = Rules::any("i");
    if !r.valid() {
        return;
    }
    let mut p = Pp::new(kind, cfg(), None, r.policy(), "appr");
    for i in 0..steps {
        let (da, dr) = (subset(&format!("da{i}")), subset(&format!("dr{i}")));
        let (aa, ar) = if r.specific || i == 0 { (subset(&format!("aa{i}")), subset(&format!("ar{i}"))) } else { (vec![], vec![]) };
        let set = pick(&format!("set{i}"), &[None, Some(false), Some(true)]);
        let m: bm::ExecuteMsg<Empty, Empty> = bm::ExecuteMsg::UpdateSubmissionPolicy {
            denylist_add: strs(&da),
            denylist_remove: strs(&dr),
            set_dao_members: set,
            allowlist_add: strs(&aa),
            allowlist_remove: strs(&ar),
        };
        let mut n = r.clone();
        settle(&mut n.deny, &da, &dr);
        settle(&mut n.allow, &aa, &ar);
        n.members = set.unwrap_or(n.members);
        let ok = n.valid() && (n.specific || (set.is_none() && aa.is_empty() && ar.is_empty()));
        let dao = p.d.core.to_string();
        let got = p.w.exec(dao, &p.pp.clone(), &m, &[]).is_ok();
        check("edit-iff-valid", got == ok, "an edit of the policy was made or refused against the rules");
        if got {
            r = n;
            cover("edited");
        } else {
            cover("edit-refused");
        }
    }
    who_may(&mut p, &r);
    let m: bm::ExecuteMsg<Empty, Empty> = bm::ExecuteMsg::UpdateSubmissionPolicy {
        denylist_add: strs(&["bob"]),
        denylist_remove: None,
        set_dao_members: None,
        allowlist_add: None,
        allowlist_remove: None,
    };
    check("edit-by-dao-only", p.w.exec("alice", &p.pp.clone(), &m, &[]).is_err(), "an outsider edited the policy");
}
fn edits() {
    edits_n(Kind::Single, 1)
}
fn edits_kinds() {
    edits_n(pick("kind", &[Kind::Multi, Kind::Approval]), 1)
}
/// Longer lists in any order: each edit adds and removes just the addresses it names.
fn lists() {
    let names = ["ann", "ben", "cyd", "dan"];
    let mut left = names.to_vec();
    let mut list = vec![];
    for i in 0..3 {
        let k = sym::choose(&format!("o{i}"), left.len() as u32) as usize;
        list.push(left.remove(k));
    }
    let allow = flag("allow");
    let pol = if allow {
        Policy::Specific { dao_members: true, allowlist: addrs(&list), denylist: vec![] }
    } else {
        Policy::Anyone { denylist: addrs(&list) }
    };
    let mut p = Pp::new(Kind::Single, cfg(), None, pol, "appr");
    let dao = p.d.core.to_string();
    for i in 0..2 {
        let some = |n: &str| match sym::choose(n, 6) {
            0 => vec![],
            5 => vec![names[3], names[0]],
            k => vec![names[k as usize - 1]],
        };
        let (add, rem) = if i == 0 { (some("add"), some("rem")) } else { (vec![], vec![pick("rem1", &names)]) };
        settle(&mut list, &add, &rem);
        let m: bm::ExecuteMsg<Empty, Empty> = bm::ExecuteMsg::UpdateSubmissionPolicy {
            denylist_add: if allow { None } else { strs(&add) },
            denylist_remove: if allow { None } else { strs(&rem) },
            set_dao_members: None,
            allowlist_add: if allow { strs(&add) } else { None },
            allowlist_remove: if allow { strs(&rem) } else { None },
        };
        check("edit-iff-valid", p.w.exec(&dao, &p.pp.clone(), &m, &[]).is_ok(), "a proper edit was refused");
        for who in names {
            let said: bool = p.w.q(&p.pp, &bm::QueryMsg::<Empty>::CanPropose { address: who.into() });
            check("edits-do-as-they-say", said == (list.contains(&who) == allow), "an edit added or removed other than it named");
        }
    }
    cover("edited");
}

// ---- C10 ----
fn ext(p: &mut Pp, who: &str, m: am::ExecuteExt) -> bool {
    p.w.exec(who, &p.pp.clone(), &am::ExecuteMsg::Extension { msg: m }, &[]).is_ok()
}
fn proposals(p: &Pp) -> u64 {
    p.w.q(&p.d.prop, &dao_proposal_single::msg::QueryMsg::ProposalCount {})
}
fn pre(p: &Pp, id: u64) -> Option<dao_pre_propose_approval_single::state::Proposal> {
    p.w.try_q(&p.pp, &am::QueryMsg::QueryExtension { msg: am::QueryExt::Proposal { id } }).ok()
}
/// Submissions wait for the approver, and are approved or rejected once.
fn approval(steps: u32) {
    let a = any_dep("a");
    let mut p = Pp::new(Kind::Approval, cfg(), Some(a), anyone(), "appr");
    let rec = p.w.new_rec();
    let call: CosmosMsg = WasmMsg::Execute { contract_addr: rec.to_string(), msg: Binary(b"{\"go\":{}}".to_vec()), funds: vec![] }.into();
    p.paid_submit(0, &Some(a), vec![call]);
    let b = Some(Dep { native: !a.native, amount: sym::u128("bamount", 1, MAXP), policy: (a.policy + 1) % 3 });
    let dao = p.d.core.to_string();
    p.set_deposit(&dao, &b);
    p.paid_submit(1, &b, vec![]);
    check("waits", proposals(&p) == 0, "a proposal was made before its approval");
    p.balances();
    let deps = [Some(a), b];
    // 0 pending, 1 approved, 2 rejected
    let mut st = [0u32; 2];
    let mut made: Vec<usize> = vec![];
    let mut approver = "appr";
    for i in 0..steps {
        let who = pick(&format!("who{i}"), &["appr", "next", "alice"]);
        let what = sym::choose(&format!("what{i}"), 3);
        let k = sym::choose(&format!("id{i}"), 2) as usize;
        let may = who == approver;
        match what {
            0 => {
                let ok = may && st[k] == 0;
                let got = ext(&mut p, who, am::ExecuteExt::Approve { id: k as u64 + 1 });
                check("approve-iff-due", got == ok, "an approval was taken or refused against the rules");
                if ok {
                    st[k] = 1;
                    made.push(k);
                    cover("approved");
                }
            }
            1 => {
                let ok = may && st[k] == 0;
                let got = ext(&mut p, who, am::ExecuteExt::Reject { id: k as u64 + 1 });
                check("reject-iff-due", got == ok, "a rejection was taken or refused against the rules");
                if ok {
                    st[k] = 2;
                    let d = deps[k].unwrap();
                    p.moved(d.native, 3, if d.policy == 0 { k } else { 2 }, d.amount);
                    cover("rejected");
                }
            }
            _ => {
                let got = ext(&mut p, who, am::ExecuteExt::UpdateApprover { address: "next".into() });
                check("approver-handed-on-by-itself", got == may, "the approver was changed against the rules");
                if got {
                    approver = "next";
                    cover("handed-on");
                }
            }
        }
    }
    p.balances();
    check("proposals-iff-approved", proposals(&p) == made.len() as u64, "the proposals are not the approved submissions");
    use dao_pre_propose_approval_single::state::ProposalStatus as S;
    for k in 0..2 {
        let s = pre(&p, k as u64 + 1).unwrap();
        let ok = match s.status {
            S::Pending {} => st[k] == 0,
            S::Approved { created_proposal_id: id } => {
                st[k] == 1 && made.iter().position(|m| *m == k) == Some(id as usize - 1) && {
                    let pr = crate::single::prop(&p.w, &p.d, id);
                    pr.proposer == ACC[k] && pr.msgs.len() == 1 - k
                }
            }
            S::Rejected {} => st[k] == 2,
        };
        check("state", ok, "a submission's state or the proposal made from it is wrong");
    }
    // what was approved goes on as any proposal does
    if let Some(k) = made.first() {
        let o = pick("end", &[0, 2, 3]);
        p.finish(1, o, *k, &deps[*k]);
        p.balances();
        let ran = p.w.rec(&rec).len();
        check("runs-once", ran == (o == 0 && *k == 0) as usize, "the approved messages did not run exactly once");
    }
    let r = p.c.clone().propose(&mut p.w, &Dao { core: p.d.core.clone(), vm: p.d.vm.clone(), prop: p.d.prop.clone() }, "appr", vec![], vec![], None);
    check("no-way-around", r.is_err(), "a proposal was made past the approval");
}
/// Nobody but the approver decides, whatever their part in the DAO.
fn strangers() {
    let a = Some(any_dep("a"));
    let mut p = Pp::new(Kind::Approval, cfg(), a, anyone(), "appr");
    p.paid_submit(0, &a, vec![]);
    p.paid_submit(1, &a, vec![]);
    // the DAO, its modules and the proposers have no say
    for who in [p.d.core.clone(), p.d.prop.clone(), p.d.vm.clone(), p.pp.clone(), Addr::unchecked("bob")] {
        for id in [1, 2] {
            check("approve-iff-due", !ext(&mut p, who.as_str(), am::ExecuteExt::Approve { id }), "another than the approver approved");
            check("reject-iff-due", !ext(&mut p, who.as_str(), am::ExecuteExt::Reject { id }), "another than the approver rejected");
        }
        let u = am::ExecuteExt::UpdateApprover { address: "next".into() };
        check("approver-handed-on-by-itself", !ext(&mut p, who.as_str(), u), "another than the approver changed the approver");
    }
    p.balances();
    check("proposals-iff-approved", proposals(&p) == 0, "a proposal was made without its approver");
    cover("refused");
}
fn approval3() {
    approval(3)
}
fn approval4() {
    approval(4)
}
struct Two {
    p: Pp,
    d: Dao,
    c: Cfg,
    approver: Addr,
}
/// a DAO whose members approve the submissions to another DAO
fn two(dep: Option<Dep>) -> Two {
    let mut p = Pp::new(Kind::Approval, cfg(), dep, anyone(), "appr");
    let code = code!(p.w, dao_pre_propose_approver::contract);
    let c = cfg();
    let m = dao_pre_propose_approver::msg::InstantiateMsg { pre_propose_approval_contract: p.pp.to_string() };
    let d = c.dao(&mut p.w).unwrap();
    p.w.set_powers(&d.vm, &[("judge", 10)]);
    // hand the approval over to the new DAO
    let hook = am::ExecuteMsg::AddProposalSubmittedHook { address: "x".into() };
    check("outsider-adds-no-hook", p.w.exec("alice", &p.pp.clone(), &hook, &[]).is_err(), "an outsider registered a hook");
    check("handed-on", ext(&mut p, "appr", am::ExecuteExt::UpdateApprover { address: d.core.to_string() }), "the approver could not hand on");
    let mut c = c;
    c.pre = PreProposeInfo::ModuleMayPropose { info: module(code, &m) };
    let info = c.module(&mut p.w);
    let up = dao_interface::msg::ExecuteMsg::UpdateProposalModules { to_add: vec![info], to_disable: vec![] };
    p.w.exec(&d.core, &d.core, &up, &[]).unwrap();
    let all: Vec<dao_interface::state::ProposalModule> =
        p.w.q(&d.core, &dao_interface::msg::QueryMsg::ProposalModules { start_after: None, limit: None });
    let prop = all.into_iter().find(|m| m.address != d.prop).unwrap().address;
    let d = Dao { prop, ..d };
    let approver = creation_module(&p.w, &d).unwrap();
    Two { p, d, c, approver }
}
/// The approving DAO's vote decides about the submission.
fn approving_dao() {
    let a = any_dep("a");
    let mut t = two(Some(a));
    t.p.paid_submit(0, &Some(a), vec![]);
    let s = crate::single::prop(&t.p.w, &t.d, 1);
    check("asks", s.status == Status::Open && s.msgs.is_empty(), "the submission was not put to the approving DAO");
    // nobody else asks it to approve
    use dao_pre_propose_approver::msg::ExecuteMsg as AE;
    let fake = AE::Propose { msg: am::ApproverProposeMessage::Propose { title: "t".into(), description: "d".into(), approval_id: 1 } };
    check("asked-by-contract-only", t.p.w.exec("judge", &t.approver.clone(), &fake, &[]).is_err(), "an outsider asked for an approval");
    let o = sym::choose("decision", 6);
    let v = match o {
        0 => Some(0),
        1 | 2 => Some(1),
        5 => Some(0),
        _ => None,
    };
    let c = t.c.clone();
    if let Some(v) = v {
        c.vote(&mut t.p.w, &t.d, "judge", 1, v).unwrap();
    }
    match o {
        0 => x(&mut t.p.w, &t.d, "vetoer", X::Execute { proposal_id: 1 }).unwrap(),
        1 => x(&mut t.p.w, &t.d, "anyone", X::Close { proposal_id: 1 }).unwrap(),
        4 | 5 => x(&mut t.p.w, &t.d, "vetoer", X::Veto { proposal_id: 1 }).unwrap(),
        _ => (),
    }
    use dao_pre_propose_approval_single::state::ProposalStatus as S;
    let got = pre(&t.p, 1).unwrap().status;
    let want = match o {
        0 => S::Approved { created_proposal_id: 1 },
        1 | 4 | 5 => S::Rejected {},
        _ => S::Pending {},
    };
    check("decides", got == want, "the approving DAO's decision was not carried out");
    check("approver-stays", creation_module(&t.p.w, &t.d).as_ref() == Some(&t.approver), "the approver contract lost its place");
    check("proposal", proposals(&t.p) == (o == 0) as u64, "a proposal without approval or the reverse");
    if want == (S::Rejected {}) {
        t.p.moved(a.native, 3, if a.policy == 0 { 0 } else { 2 }, a.amount);
        cover("dao-rejects");
    }
    if o == 0 {
        cover("dao-approves");
    }
    t.p.balances();
    // taking the approval back
    let reset = AE::Extension { msg: dao_pre_propose_approver::msg::ExecuteExt::ResetApprover {} };
    let dao = flag("by_dao");
    let from = if dao { t.d.core.to_string() } else { "judge".into() };
    let r = t.p.w.exec(from, &t.approver.clone(), &reset, &[]).is_ok();
    check("reset-by-dao-only", r == dao, "the approver was reset against the rules");
    let now: Addr = t.p.w.q(&t.p.pp, &am::QueryMsg::QueryExtension { msg: am::QueryExt::Approver {} });
    check("approver", now == if dao { t.d.core.clone() } else { t.approver.clone() }, "the approver is not who it should be");
}
/// A submission that carries its proposer's vote.
fn auto_vote() {
    let mut t = two(None);
    let pw = sym::u128("power", 0, MAXP);
    let vm = t.p.d.vm.clone();
    t.p.w.set_powers(&vm, &[("voter", 1), ("alice", pw)]);
    let ok = t.p.submit("alice", vec![], true, vec![]);
    check("taken", ok, "a submission was refused");
    t.c.clone().vote(&mut t.p.w, &t.d, "judge", 1, 0).unwrap();
    x(&mut t.p.w, &t.d, "vetoer", X::Execute { proposal_id: 1 }).unwrap();
    let stays = creation_module(&t.p.w, &t.d).as_ref() == Some(&t.approver);
    if pw > 0 {
        check("approver-stays", stays, "the approver contract lost its place");
        check("made", proposals(&t.p) == 1, "no proposal was made from an approved submission");
    } else {
        check("powerless-voter", stays, "a submission with the vote of a powerless proposer costs the approver contract its place");
    }
}

macro_rules! s {
    ($p:expr, $n:ident, $b:expr, $c:expr) => {
        sym::Scenario { prop: $p, name: stringify!($n), bounds: $b, covers: $c, run: $n }
    };
}
pub const ALL: &[sym::Scenario] = &[
    s!("C08", deposits_single, "two proposals with deposits of 1..2^120 in native coins or tokens, every refund policy, terms changed in between; ends: executed, failed, closed, vetoed early or late, open, unclosed", &["refunded", "kept"]),
    s!("C08", deposits_multi, "the same over multiple choice", &["refunded", "kept"]),
    s!("C08", payment, "native: any amount to 2^120 and another coin; tokens: any balance and allowance to 2^120; changes of terms by anyone", &["taken", "refused"]),
    s!("C09", policy, "every policy over two addresses, set by the DAO or not; submitters with power to 2^120; the three submission contracts", &["allowed", "denied"]),
    s!("C09", edits, "every valid policy over two addresses and every edit of it", &["allowed", "denied", "edited", "edit-refused"]),
    s!("C09", lists, "an allowlist or denylist of three out of four addresses in any order, an edit adding and removing up to two, another removing one", &["edited"]),
    s!("C09+", edits_kinds, "the same over the two other submission contracts", &["allowed", "denied", "edited", "edit-refused"]),
    s!("C10", approval3, "two submissions with different deposits; three actions of approver, next approver or outsider", &["approved", "rejected", "handed-on"]),
    s!("C10", strangers, "two submissions with deposits; decisions by the DAO, its modules, the submission contract, another proposer", &["refused"]),
    s!("C10+", approval4, "four actions", &["approved", "rejected", "handed-on"]),
    s!("C10", approving_dao, "every decision of an approving DAO: executed, closed, rejected, open, vetoed early or late; any deposit", &["dao-approves", "dao-rejects"]),
    s!("C10", auto_vote, "a submission carrying a vote; proposer's power to 2^120", &[]),
];
