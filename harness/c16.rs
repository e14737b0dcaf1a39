//! Rewards to the members of a DAO by voting power (C16).
use crate::common::*;
use crate::single as s;
use cosmwasm_std::*;
use cw20::UncheckedDenom;
use cw_utils::Duration;
use dao_rewards_distributor::msg as m;
use dao_rewards_distributor::state::EmissionRate;
use dao_voting::threshold::Threshold;
use dao_voting_token_staked::msg::ExecuteMsg as V;

const MAXP: u128 = 1 << 90;
const TMAX: u64 = 1_000_000_000;
const WHO: [&str; 2] = ["alice", "bob"];
const DEN: &str = "ureward";
/// rewards per unit of power are kept to this part of a token
const SCALE: u128 = 1_000_000_000_000_000_000;

fn z(v: u128) -> Z {
    Z::from(v)
}
fn scale() -> Z {
    z(SCALE) * z(SCALE) * z(1000)
}
#[derive(Clone)]
pub enum Rate {
    Paused,
    Immediate,
    /// amount, seconds
    Linear(u128, u64, bool),
}
impl Rate {
    fn msg(&self) -> EmissionRate {
        match self {
            Rate::Paused => EmissionRate::Paused {},
            Rate::Immediate => EmissionRate::Immediate {},
            Rate::Linear(a, d, c) => EmissionRate::Linear { amount: Uint128::new(*a), duration: Duration::Time(*d), continuous: *c },
        }
    }
}
pub struct Rd {
    w: W,
    vm: Addr,
    rd: Addr,
    token: Option<Addr>,
    // model
    now: Z,
    rate: Rate,
    /// of the current epoch: funded, when it began, when it ends, periods counted
    funded: Z,
    began: Option<(Z, Z)>,
    counted: Z,
    /// given per unit of power so far, times 10^39
    given: Z,
    own: [Z; 2],
    seen: [Z; 2],
    owed: [Z; 2],
    got: [Z; 2],
    held: Z,
    returned: Z,
    hard: bool,
}
impl Rd {
    pub fn new(rate: Rate, cw20: bool) -> Rd {
        let mut w = W::new();
        w.mint("someone", 1, "ustake");
        let c = code!(w, dao_voting_token_staked::contract, reply);
        use dao_voting_token_staked::msg as v;
        let vm = module(c, &v::InstantiateMsg { token_info: v::TokenInfo::Existing { denom: "ustake".into() }, unstaking_duration: None, active_threshold: None });
        let p = s::single_code(&mut w);
        let p = module(p, &s::cfg(Threshold::AbsoluteCount { threshold: Uint128::new(1) }));
        let core = core_code(&mut w);
        let a = w.inst(core, "creator", &core_msg(None, vm, vec![p])).unwrap();
        let d = dao_parts(&w, a);
        let c = code!(w, dao_rewards_distributor::contract);
        let rd = w.inst(c, "owner", &m::InstantiateMsg { owner: None }).unwrap();
        w.exec(d.core.as_str(), &d.vm, &V::AddHook { addr: rd.to_string() }, &[]).unwrap();
        let token = cw20.then(|| w.new_cw20(&[]));
        let mut k = Rd {
            w, vm: d.vm, rd, token, now: z(0), rate: rate.clone(), funded: z(0), began: None, counted: z(0), given: z(0),
            own: [z(0), z(0)], seen: [z(0), z(0)], owed: [z(0), z(0)], got: [z(0), z(0)], held: z(0), returned: z(0), hard: false,
        };
        let denom = match &k.token {
            Some(t) => UncheckedDenom::Cw20(t.to_string()),
            None => UncheckedDenom::Native(DEN.into()),
        };
        let c = m::CreateMsg {
            denom,
            emission_rate: rate.msg(),
            vp_contract: k.vm.to_string(),
            hook_caller: k.vm.to_string(),
            open_funding: None,
            withdraw_destination: Some("treasury".into()),
        };
        k.exec("owner", &m::ExecuteMsg::Create(c)).unwrap();
        k
    }
    fn exec(&mut self, from: &str, msg: &m::ExecuteMsg) -> R<()> {
        self.w.exec(from, &self.rd.clone(), msg, &[]).map(|_| ())
    }
    fn bal(&self, a: &str) -> u128 {
        match &self.token {
            Some(t) => self.w.cw20(t, a),
            None => self.w.bal(a, DEN),
        }
    }
    fn total(&self) -> Z {
        &self.own[0] + &self.own[1]
    }
    /// a new block, some time later: stakes and fundings are in blocks of their own
    pub fn next(&mut self, secs: u64) {
        self.w.advance(1, secs);
        self.now = &self.now + Z::from(secs);
    }
    /// everything earned by now is given to those who have power now
    fn count(&mut self) {
        let Rate::Linear(a, d, _) = self.rate else { return };
        let Some((start, end)) = &self.began else { return };
        let until = self.now.min(end);
        let last = start + self.counted.clone() * Z::from(d);
        if until.le(&last) {
            return;
        }
        let n = (until - &last).div(&Z::from(d));
        self.counted = &self.counted + &n;
        let t = self.total();
        if !t.is_zero() {
            self.given = &self.given + (z(a) * &n * &scale()).div(&t);
        }
    }
    fn earned(&self, i: usize) -> Z {
        &self.owed[i] + (&self.own[i] * &(&self.given - &self.seen[i])).div(&scale())
    }
    fn settle(&mut self, i: usize) {
        self.count();
        self.owed[i] = self.earned(i);
        self.seen[i] = self.given.clone();
    }
    /// what the rate gives to all, in the current epoch, until t
    fn given_out(&self) -> Z {
        match (&self.rate, &self.began) {
            (Rate::Immediate, _) => self.funded.clone(),
            (Rate::Linear(a, d, _), Some((start, end))) => (self.now.min(end) - start).div(&Z::from(*d)) * z(*a),
            _ => z(0),
        }
    }
    fn expired(&self) -> bool {
        match &self.began {
            Some((_, end)) => self.now.ge(end),
            None => false,
        }
    }
    /// how long the funds last
    fn lasts(&self) -> Z {
        let Rate::Linear(a, d, _) = self.rate else { unreachable!() };
        (Z::from(d) * (&self.funded * &z(SCALE)).div(&z(a))).div(&z(SCALE))
    }
    /// funds for at most some 30 years
    fn bounded(&self, more: &Z) {
        if let Rate::Linear(a, d, _) = self.rate {
            sym::assume_le((&self.funded + more) * Z::from(d), z(a) * Z::from(TMAX));
        }
    }
    pub fn stake(&mut self, i: usize, x: u128) {
        self.w.mint(WHO[i], x, "ustake");
        self.settle(i);
        self.own[i] = &self.own[i] + z(x);
        let ok = self.w.exec(WHO[i], &self.vm.clone(), &V::Stake {}, &coins(x, "ustake")).is_ok();
        check("stake-accepted", ok, "a stake was refused because of the rewards");
    }
    pub fn unstake(&mut self, i: usize, x: u128) {
        sym::assume_le(z(x), &self.own[i]);
        self.settle(i);
        self.own[i] = &self.own[i] - z(x);
        let ok = self.w.exec(WHO[i], &self.vm.clone(), &V::Unstake { amount: Uint128::new(x) }, &[]).is_ok();
        check("unstake-accepted", ok, "unstaking was refused because of the rewards");
    }
    fn pay_in(&mut self, from: &str, x: u128) -> bool {
        let f = m::FundMsg { id: 1 };
        match self.token.clone() {
            Some(t) => {
                let mint = cw20::Cw20ExecuteMsg::Mint { recipient: from.into(), amount: Uint128::new(x) };
                self.w.exec("minter", &t, &mint, &[]).unwrap();
                let msg = to_json_binary(&m::ReceiveCw20Msg::Fund(f)).unwrap();
                let send = cw20::Cw20ExecuteMsg::Send { contract: self.rd.to_string(), amount: Uint128::new(x), msg };
                self.w.exec(from, &t, &send, &[]).is_ok()
            }
            None => {
                self.w.mint(from, x, DEN);
                self.w.exec(from, &self.rd.clone(), &m::ExecuteMsg::Fund(f), &coins(x, DEN)).is_ok()
            }
        }
    }
    pub fn fund(&mut self, x: u128) {
        self.bounded(&z(x));
        let ok = self.pay_in("funder", x);
        let may = !matches!(self.rate, Rate::Immediate) || !self.total().is_zero();
        check("funding-accepted", ok == may, "funding was refused, or accepted although nobody can receive it");
        if !ok {
            return;
        }
        self.held = &self.held + z(x);
        let expired = self.expired();
        let linear = if let Rate::Linear(_, _, c) = self.rate { Some(c) } else { None };
        match linear {
            None => {
                self.funded = &self.funded + z(x);
                if let Rate::Immediate = self.rate {
                    self.given = &self.given + (z(x) * &scale()).div(&self.total());
                }
            }
            Some(continuous) => {
                let fresh = self.funded.is_zero();
                if fresh || (!continuous && expired) {
                    self.count();
                    if !fresh {
                        cover("restarted");
                    }
                    self.funded = &self.funded - self.given_out() + z(x);
                    self.counted = z(0);
                    self.began = None;
                    self.began = Some((self.now.clone(), &self.now + self.lasts()));
                } else {
                    self.funded = &self.funded + z(x);
                    let start = self.began.clone().unwrap().0;
                    self.began = Some((start.clone(), start + self.lasts()));
                    if continuous && expired {
                        cover("backfilled");
                        self.count();
                    }
                }
            }
        }
    }
    pub fn set_rate(&mut self, r: Rate) {
        let msg = m::ExecuteMsg::Update { id: 1, emission_rate: Some(r.msg()), vp_contract: None, hook_caller: None, open_funding: None, withdraw_destination: None };
        if let Rate::Linear(a, d, _) = r {
            // funds for at most some 30 years
            sym::assume_le((&self.funded - self.given_out()) * Z::from(d), z(a) * Z::from(TMAX));
        }
        let ok = self.exec("owner", &msg).is_ok();
        let may = !matches!(r, Rate::Immediate) || matches!(self.rate, Rate::Immediate) || !self.total().is_zero();
        check("rate-accepted", ok == may, "a change of the rate was refused, or accepted although nobody can receive what is due");
        if !ok {
            return;
        }
        if self.rate.msg() == r.msg() {
            return;
        }
        self.count();
        self.funded = &self.funded - self.given_out();
        self.rate = r.clone();
        self.counted = z(0);
        self.began = None;
        match r {
            Rate::Paused => (),
            Rate::Immediate => self.given = &self.given + (&self.funded * &scale()).div(&self.total()),
            Rate::Linear(..) => {
                self.began = Some((self.now.clone(), &self.now + self.lasts()))
            }
        }
    }
    pub fn withdraw(&mut self) {
        let ok = self.exec("owner", &m::ExecuteMsg::Withdraw { id: 1 }).is_ok();
        let back = &self.funded - self.given_out();
        let over = self.expired();
        // a withdrawal of nothing may be refused
        check("withdraw-iff-left", if ok { !over } else { over || back.is_zero() }, "withdrawing what is left was refused, or accepted after the end");
        if !ok {
            return;
        }
        cover("withdrawn");
        self.returned = &self.returned + &back;
        self.held = &self.held - &back;
        self.funded = &self.funded - &back;
        let n = self.now.clone();
        if let Some((_, end)) = &mut self.began {
            *end = n;
        }
    }
    pub fn claim(&mut self, i: usize) {
        let ok = self.exec(WHO[i], &m::ExecuteMsg::Claim { id: 1 }).is_ok();
        let before = (self.given.clone(), self.counted.clone());
        let old = (self.owed[i].clone(), self.seen[i].clone());
        self.settle(i);
        if self.owed[i].is_zero() {
            check("nothing-to-claim", !ok, "a claim was paid to someone owed nothing");
            (self.given, self.counted) = before;
            (self.owed[i], self.seen[i]) = old;
            return;
        }
        cover("claimed");
        check("claim-paid", ok, "a claim was refused");
        self.got[i] = &self.got[i] + &self.owed[i];
        self.held = &self.held - &self.owed[i];
        self.owed[i] = z(0);
    }
    fn pending(&self, i: usize) -> u128 {
        let r: m::PendingRewardsResponse = self.w.q(&self.rd, &m::QueryMsg::PendingRewards { address: WHO[i].into(), start_after: None, limit: None });
        check("pending-listed", !r.pending_rewards.is_empty() && r.pending_rewards[0].id == 1, "the distribution is not listed");
        r.pending_rewards[0].pending_rewards.u128()
    }
    /// settles the model: only at the end of a scenario
    pub fn all(&mut self) {
        let mut sum = z(0);
        let p = [self.pending(0), self.pending(1)];
        let u: Uint128 = self.w.q(&self.rd, &m::QueryMsg::UndistributedRewards { id: 1 });
        check_eq("undistributed", u.u128(), &self.funded - self.given_out(), "what is left to distribute is not what was funded less what the rate has given");
        self.count();
        for i in 0..2 {
            check_eq("pending", p[i], self.earned(i), "the rewards of a member are not the share of their power in what was given");
            check_eq("paid", self.bal(WHO[i]), &self.got[i], "a member was not paid exactly what was due");
            sum = sum + z(p[i]);
        }
        check_eq("held", self.bal(self.rd.as_str()), &self.held, "tokens went somewhere else than to claims and withdrawals");
        check_eq("returned", self.bal("treasury"), &self.returned, "the withdrawal was not exactly what was left");
        if self.hard {
            return;
        }
        check_le("solvent", sum + z(u.u128()), self.bal(self.rd.as_str()), "members are promised more than the contract holds");
    }
    fn any(&mut self, k: usize, kinds: &[u32]) {
        let n = |s: &str| format!("{s}{k}");
        self.next(sym::u64(&n("wait"), 0, TMAX));
        match pick(&n("action"), kinds) {
            0 => self.stake(1, sym::u128(&n("stake"), 1, MAXP)),
            1 => self.unstake(0, sym::u128(&n("unstake"), 1, MAXP)),
            2 => {
                let i = sym::choose(&n("who"), 2) as usize;
                self.claim(i)
            }
            3 => self.fund(sym::u128(&n("fund"), 1, MAXP)),
            4 => self.withdraw(),
            5 => self.set_rate(Rate::Paused),
            6 => self.set_rate(Rate::Immediate),
            _ => self.set_rate(Rate::Linear(sym::u128(&n("amount"), 1, MAXP), sym::u64(&n("period"), 1, TMAX), flag(&n("continuous")))),
        }
    }
}
fn immediate() {
    let mut k = Rd::new(Rate::Immediate, flag("cw20"));
    k.stake(0, sym::u128("alice", 1, MAXP));
    k.next(1);
    k.fund(sym::u128("fund", 1, MAXP));
    k.any(1, &[0, 1, 2]);
    k.any(2, &[2, 3, 4]);
    k.next(1);
    k.all();
}
fn linear_with(amount: u128, period: u64, n: usize, hard: bool) {
    let c = flag("continuous");
    let mut k = Rd::new(Rate::Linear(amount, period, c), false);
    // with any amount, that the shares add up is beyond the solver
    k.hard = hard;
    k.stake(0, sym::u128("alice", 1, MAXP));
    k.next(1);
    k.fund(sym::u128("fund", 1, MAXP));
    for i in 1..n {
        k.any(i, &[0, 1, 2, 3]);
    }
    k.any(n, &[0, 2, 3, 4]);
    k.next(sym::u64("wait", 0, TMAX));
    k.all();
}
fn linear() {
    linear_with(1000, 100, 2, false)
}
fn linear_any() {
    let a = sym::u128("amount", 1, MAXP);
    linear_with(a, pick("period", &[1, 86_400]), 1, true)
}
fn linear_more() {
    linear_with(pick("amount", &[1, 1000]), pick("period", &[1, 86_400]), 2, false)
}
fn linear3() {
    linear_with(10, 1, 3, false)
}
fn any_rate(name: &str) -> Rate {
    match sym::choose(name, 4) {
        0 => Rate::Paused,
        1 => Rate::Immediate,
        2 => Rate::Linear(1000, 100, false),
        _ => Rate::Linear(7, 60, true),
    }
}
fn rates() {
    let mut k = Rd::new(any_rate("rate"), false);
    k.stake(0, sym::u128("alice", 1, MAXP));
    k.next(1);
    k.fund(sym::u128("fund", 1, MAXP));
    k.next(sym::u64("wait1", 0, TMAX));
    if flag("withdraw1") {
        k.withdraw()
    } else {
        k.set_rate(any_rate("rate1"))
    }
    k.next(sym::u64("wait2", 0, TMAX));
    if flag("stake") {
        k.stake(1, sym::u128("bob", 1, MAXP))
    } else {
        k.claim(0)
    }
    k.next(1);
    k.fund(sym::u128("fund2", 1, MAXP));
    k.next(sym::u64("wait", 0, TMAX));
    k.all();
}
fn rates3() {
    let mut k = Rd::new(any_rate("rate"), false);
    k.stake(0, sym::u128("alice", 1, MAXP));
    k.next(1);
    k.fund(sym::u128("fund", 1, MAXP));
    for i in 1..=2 {
        k.next(sym::u64(&format!("wait{i}"), 0, TMAX));
        match sym::choose(&format!("action{i}"), 3) {
            0 => k.set_rate(any_rate(&format!("rate{i}"))),
            1 => k.withdraw(),
            _ => k.fund(sym::u128(&format!("fund{i}"), 1, MAXP)),
        }
        if i == 1 {
            k.any(9, &[0, 1, 2]);
        }
    }
    k.next(sym::u64("wait", 0, TMAX));
    k.all();
}
/// a member who stakes in the block in which rewards are handed out
fn same_block() {
    let mut k = Rd::new(Rate::Immediate, false);
    k.stake(0, sym::u128("alice", 1, 1 << 60));
    k.next(1);
    let x = sym::u128("fund", 1, 1 << 60);
    let first = flag("bob_first");
    if first {
        k.stake(1, sym::u128("stake", 1, 1 << 60));
        k.fund(x);
    } else {
        k.fund(x);
        k.stake(1, sym::u128("stake", 1, 1 << 60));
    }
    k.next(1);
    let sum = z(k.pending(0)) + z(k.pending(1));
    let l = if first { "solvent-same-block" } else { "solvent-funded-first" };
    check_le(l, sum, k.bal(k.rd.as_str()), "members are promised more than the contract holds");
}
fn rewards_authority() {
    use m::ExecuteMsg as E;
    let mut k = Rd::new(Rate::Linear(1000, 100, false), flag("cw20"));
    k.stake(0, sym::u128("alice", 1, MAXP));
    k.next(1);
    let f = sym::u128("fund", 1, MAXP);
    k.fund(f);
    k.next(sym::u64("wait", 0, TMAX));
    let from = pick("from", &["owner", "alice", "treasury", "vm"]);
    let sender = if from == "vm" { k.vm.to_string() } else { from.to_string() };
    let owner = from == "owner";
    let upd = |r: Option<EmissionRate>, vp: Option<String>, h: Option<String>, o: Option<bool>, d: Option<String>| E::Update { id: 1, emission_rate: r, vp_contract: vp, hook_caller: h, open_funding: o, withdraw_destination: d };
    match sym::choose("action", 9) {
        0 => {
            let c = m::CreateMsg {
                denom: UncheckedDenom::Native(DEN.into()),
                emission_rate: EmissionRate::Paused {},
                vp_contract: k.vm.to_string(),
                hook_caller: k.vm.to_string(),
                open_funding: None,
                withdraw_destination: None,
            };
            let ok = k.exec(&sender, &E::Create(c)).is_ok();
            check("create-iff-owner", ok == owner, "someone else than the owner created a distribution, or the owner could not");
            if ok {
                // it is independent of the first
                k.w.mint("funder", 5, DEN);
                k.w.exec("funder", &k.rd.clone(), &E::Fund(m::FundMsg { id: 2 }), &coins(5, DEN)).unwrap();
                let u: Uint128 = k.w.q(&k.rd, &m::QueryMsg::UndistributedRewards { id: 1 });
                check_eq("separate", u.u128(), &k.funded - k.given_out(), "funding one distribution changed another");
                let ok = k.exec("owner", &E::Withdraw { id: 2 }).is_ok();
                check("second-withdrawn", ok && k.w.bal("owner", DEN) == 5, "the second distribution did not return exactly its own funds to its owner");
            }
        }
        1 => {
            let ok = k.exec(&sender, &upd(Some(EmissionRate::Paused {}), None, None, None, None)).is_ok();
            check("update-iff-owner", ok == owner, "someone else than the owner changed the rate, or the owner could not");
            if ok {
                k.set_rate(Rate::Paused);
            }
        }
        2 => {
            let rec = k.w.new_vm();
            let ok = k.exec(&sender, &upd(None, Some(rec.to_string()), None, None, None)).is_ok();
            check("update-iff-owner", ok == owner, "someone else than the owner changed the source of power");
            if ok {
                return;
            }
        }
        3 => {
            // once somebody else announces changes, the old one cannot
            let ok = k.exec(&sender, &upd(None, None, Some("other".into()), None, None)).is_ok();
            check("update-iff-owner", ok == owner, "someone else than the owner changed who announces stakes");
            if ok {
                let h = E::StakeChangeHook(dao_hooks::stake::StakeChangedHookMsg::Stake { addr: Addr::unchecked("bob"), amount: Uint128::new(1) });
                let vm = k.vm.to_string();
                check("old-caller-refused", k.exec(&vm, &h).is_err(), "a change of stake was announced by someone replaced");
                check("new-caller-heard", k.exec("other", &h).is_ok(), "the new announcer of stakes is refused");
                k.settle(1);
            }
        }
        4 => {
            let ok = k.exec(&sender, &upd(None, None, None, Some(false), None)).is_ok();
            check("update-iff-owner", ok == owner, "someone else than the owner closed the funding");
            if ok {
                check("closed-funding", !k.pay_in("funder", 1), "a stranger funded a distribution closed to them");
                check("owner-funds", k.pay_in("owner", 1), "the owner could not fund");
                return;
            }
        }
        5 => {
            let ok = k.exec(&sender, &upd(None, None, None, None, Some("vault".into()))).is_ok();
            check("update-iff-owner", ok == owner, "someone else than the owner chose where withdrawals go");
            if ok {
                let back = &k.funded - k.given_out();
                let expired = k.expired();
                let ok = k.exec("owner", &E::Withdraw { id: 1 }).is_ok();
                check_eq("to-the-new-place", k.bal("vault"), if ok { back } else { z(0) }, "the withdrawal did not go where it should");
                check("withdraw-after", ok || expired || k.token.is_none(), "the owner could not withdraw");
                return;
            }
        }
        6 => {
            let back = &k.funded - k.given_out();
            if owner {
                return;
            }
            let ok = k.exec(&sender, &E::Withdraw { id: 1 }).is_ok();
            check("withdraw-iff-owner", !ok, "someone else than the owner withdrew the funds");
            drop(back);
        }
        7 => {
            let s = Addr::unchecked("alice");
            let x = Uint128::new(sym::u128("forged", 1, MAXP));
            let h = match sym::choose("hook", 3) {
                0 => E::StakeChangeHook(dao_hooks::stake::StakeChangedHookMsg::Stake { addr: s, amount: x }),
                1 => E::NftStakeChangeHook(dao_hooks::nft_stake::NftStakeChangedHookMsg::Unstake { addr: s, token_ids: vec![] }),
                _ => E::MemberChangedHook(cw4::MemberChangedHookMsg { diffs: vec![cw4::MemberDiff::new("alice", None, Some(9))] }),
            };
            let ok = k.exec(&sender, &h).is_ok();
            check("hook-iff-caller", ok == (from == "vm"), "changes of stake were announced by someone not entitled to");
            if ok {
                k.settle(0);
            }
        }
        _ => {
            // funds nobody sent
            let msg = to_json_binary(&m::ReceiveCw20Msg::Fund(m::FundMsg { id: 1 })).unwrap();
            let forged = E::Receive(cw20::Cw20ReceiveMsg { sender: "alice".into(), amount: Uint128::new(sym::u128("forged", 1, MAXP)), msg });
            check("forged-funds-refused", k.exec(&sender, &forged).is_err(), "funds were booked without tokens");
            k.w.mint("alice", 9, "uother");
            let ok = k.w.exec("alice", &k.rd.clone(), &E::Fund(m::FundMsg { id: 1 }), &coins(9, "uother")).is_ok();
            check("foreign-funds-refused", !ok, "tokens of another kind were booked");
        }
    }
    k.next(1);
    k.all();
}
/// where the members' powers come from
#[derive(Clone, Copy, PartialEq)]
enum Src {
    Native,
    Cw20,
    Group,
    Nft,
    Roles,
}
/// one of several distributions
struct Dist {
    denom: &'static str,
    /// tokens per blocks; else at once
    linear: Option<(u128, u64)>,
    /// first and last block, periods counted
    span: Option<(u64, Z)>,
    counted: Z,
    given: Z,
    seen: [Z; 2],
    owed: [Z; 2],
    held: Z,
}
/// several distributions over one source of powers
struct Many {
    w: W,
    src: Src,
    d: Dao,
    /// announces changes of power
    caller: Addr,
    token: Addr,
    rd: Addr,
    own: [Z; 2],
    l: Vec<Dist>,
    paid: Vec<(usize, &'static str, Z)>,
}
const MANY: u128 = 1 << 60;
impl Many {
    fn new(src: Src) -> Many {
        use crate::c13::{mint_nft, new_nft};
        let mut w = W::new();
        let (a, b) = match src {
            Src::Nft => (2, 1),
            _ => (sym::u128("alice", 1, MANY), sym::u128("bob", 0, MANY)),
        };
        let member = |n: &str, x: u128| cw4::Member { addr: n.into(), weight: x as u64 };
        let none = Addr::unchecked("none");
        let mut token = none.clone();
        let vm = match src {
            Src::Native => {
                w.mint("someone", 1, "ustake");
                let c = code!(w, dao_voting_token_staked::contract, reply);
                use dao_voting_token_staked::msg as v;
                module(c, &v::InstantiateMsg { token_info: v::TokenInfo::Existing { denom: "ustake".into() }, unstaking_duration: None, active_threshold: None })
            }
            Src::Cw20 => {
                token = w.new_cw20(&[("alice", a), ("bob", b), ("bobs", MANY)]);
                let c = code!(w, dao_voting_cw20_staked::contract, reply);
                let sc = code!(w, cw20_stake::contract);
                use dao_voting_cw20_staked::msg as v;
                let t = v::TokenInfo::Existing { address: token.to_string(), staking_contract: v::StakingInfo::New { staking_code_id: sc, unstaking_duration: None } };
                module(c, &v::InstantiateMsg { token_info: t, active_threshold: None })
            }
            Src::Group => {
                let g = code!(w, cw4_group::contract);
                let c = code!(w, dao_voting_cw4::contract, reply);
                use dao_voting_cw4::msg as v;
                module(c, &v::InstantiateMsg { group_contract: v::GroupContract::New { cw4_group_code_id: g, initial_members: vec![member("alice", a), member("bob", b)] } })
            }
            Src::Nft => {
                token = new_nft(&mut w);
                for (t, o) in [("n1", "alice"), ("n2", "alice"), ("n3", "bob"), ("n4", "bob")] {
                    mint_nft(&mut w, &token, t, o);
                }
                let c = code!(w, dao_voting_cw721_staked::contract, reply);
                use dao_voting_cw721_staked::msg as v;
                module(c, &v::InstantiateMsg { nft_contract: v::NftContract::Existing { address: token.to_string() }, unstaking_duration: None, active_threshold: None })
            }
            Src::Roles => {
                let rc = code!(w, cw721_roles::contract);
                let c = code!(w, dao_voting_cw721_roles::contract, reply);
                use dao_voting_cw721_roles::msg as v;
                let nft = |t: &str, o: &str, x: u128| v::NftMintMsg {
                    token_id: t.into(),
                    owner: o.into(),
                    token_uri: None,
                    extension: dao_cw721_extensions::roles::MetadataExt { role: None, weight: x as u64 },
                };
                let initial_nfts = vec![nft("n1", "alice", a), nft("n2", "bob", b)];
                module(c, &v::InstantiateMsg { nft_contract: v::NftContract::New { code_id: rc, label: "l".into(), name: "r".into(), symbol: "R".into(), initial_nfts } })
            }
        };
        let p = s::single_code(&mut w);
        let p = module(p, &s::cfg(Threshold::AbsoluteCount { threshold: Uint128::new(1) }));
        let core = core_code(&mut w);
        let core = w.inst(core, "creator", &core_msg(None, vm, vec![p])).unwrap();
        let d = dao_parts(&w, core);
        let dao = d.core.to_string();
        let c = code!(w, dao_rewards_distributor::contract);
        let rd = w.inst(c, "owner", &m::InstantiateMsg { owner: None }).unwrap();
        let addr = rd.to_string();
        let caller = match src {
            Src::Native | Src::Nft => d.vm.clone(),
            Src::Cw20 => w.q(&d.vm, &dao_voting_cw20_staked::msg::QueryMsg::StakingContract {}),
            Src::Group => w.q(&d.vm, &dao_voting_cw4::msg::QueryMsg::GroupContract {}),
            Src::Roles => w.q::<dao_voting_cw721_roles::state::Config>(&d.vm, &dao_voting_cw721_roles::msg::QueryMsg::Config {}).nft_address,
        };
        if src == Src::Roles {
            token = caller.clone();
            use cw721_roles::msg::ExecuteMsg as X;
            w.exec(&dao, &caller, &X::UpdateOwnership(cw721_base::Action::AcceptOwnership), &[]).unwrap();
            w.exec(&dao, &caller, &X::Extension { msg: dao_cw721_extensions::roles::ExecuteExt::AddHook { addr } }, &[]).unwrap();
        } else {
            // the others take the same message
            w.exec(&dao, &caller, &V::AddHook { addr }, &[]).unwrap();
        }
        let mut l = vec![];
        for (denom, linear) in [(DEN, None), ("uother", Some((10u128, 2u64))), (DEN, None)] {
            let c = m::CreateMsg {
                denom: UncheckedDenom::Native(denom.into()),
                emission_rate: match linear {
                    None => EmissionRate::Immediate {},
                    Some((a, h)) => EmissionRate::Linear { amount: Uint128::new(a), duration: Duration::Height(h), continuous: false },
                },
                vp_contract: d.vm.to_string(),
                hook_caller: caller.to_string(),
                open_funding: None,
                withdraw_destination: None,
            };
            w.exec("owner", &rd, &m::ExecuteMsg::Create(c), &[]).unwrap();
            let zz = || [z(0), z(0)];
            l.push(Dist { denom, linear, span: None, counted: z(0), given: z(0), seen: zz(), owed: zz(), held: z(0) });
        }
        let mut k = Many { w, src, d, caller, token, rd, own: [z(0), z(0)], l, paid: vec![] };
        match src {
            Src::Native | Src::Cw20 => {
                k.stake(0, a);
                if b > 0 {
                    k.stake(1, b);
                }
            }
            Src::Nft => {
                for (o, t) in [(0, "n1"), (0, "n2"), (1, "n3")] {
                    k.stake_nft(o, t);
                }
            }
            _ => k.own = [z(a), z(b)],
        }
        k.w.advance(1, 1);
        k
    }
    fn total(&self) -> Z {
        &self.own[0] + &self.own[1]
    }
    fn count(&mut self, id: usize) {
        let t = self.total();
        let now = Z::from(self.w.block().height);
        let d = &mut self.l[id];
        let (Some((a, h)), Some((start, end))) = (d.linear, &d.span) else { return };
        let last = Z::from(*start) + &d.counted * &Z::from(h);
        let until = now.min(end);
        if until.le(&last) {
            return;
        }
        let n = (until - last).div(&Z::from(h));
        d.counted = &d.counted + &n;
        if !t.is_zero() {
            d.given = &d.given + (z(a) * n * scale()).div(&t);
        }
    }
    fn earned(&self, id: usize, i: usize) -> Z {
        let d = &self.l[id];
        &d.owed[i] + (&self.own[i] * &(&d.given - &d.seen[i])).div(&scale())
    }
    fn settle(&mut self, id: usize, i: usize) {
        self.count(id);
        self.l[id].owed[i] = self.earned(id, i);
        self.l[id].seen[i] = self.l[id].given.clone();
    }
    /// before a change of power
    fn hear(&mut self, i: usize) {
        for id in 0..3 {
            self.settle(id, i);
        }
    }
    fn x<T: serde::Serialize + std::fmt::Debug>(&mut self, from: &str, to: &Addr, msg: &T, funds: &[Coin]) {
        let r = self.w.exec(from, to, msg, funds);
        let ok = r.is_ok();
        check("change-accepted", ok, "a change of power was refused because of the rewards");
    }
    fn stake(&mut self, i: usize, x: u128) {
        self.hear(i);
        self.own[i] = &self.own[i] + z(x);
        if self.src == Src::Native {
            self.w.mint(WHO[i], x, "ustake");
            self.x(WHO[i], &self.caller.clone(), &V::Stake {}, &coins(x, "ustake"));
        } else {
            let msg = to_json_binary(&cw20_stake::msg::ReceiveMsg::Stake {}).unwrap();
            let send = cw20::Cw20ExecuteMsg::Send { contract: self.caller.to_string(), amount: Uint128::new(x), msg };
            self.x(WHO[i], &self.token.clone(), &send, &[]);
        }
    }
    fn stake_nft(&mut self, i: usize, t: &str) {
        self.hear(i);
        self.own[i] = &self.own[i] + z(1);
        let m = cw721::Cw721ExecuteMsg::SendNft { contract: self.caller.to_string(), token_id: t.into(), msg: Binary::default() };
        self.x(WHO[i], &self.token.clone(), &m, &[]);
    }
    /// a change of powers
    fn change(&mut self, k: usize) {
        let n = |s: &str| format!("{s}{k}");
        let caller = self.caller.clone();
        let token = self.token.clone();
        let less = flag(&n("less"));
        match self.src {
            Src::Native | Src::Cw20 => {
                let x = sym::u128(&n("change"), 1, MANY);
                if less {
                    sym::assume_le(z(x), &self.own[0]);
                    self.hear(0);
                    self.own[0] = &self.own[0] - z(x);
                    self.x("alice", &caller, &V::Unstake { amount: Uint128::new(x) }, &[]);
                } else {
                    if self.src == Src::Cw20 {
                        let give = cw20::Cw20ExecuteMsg::Transfer { recipient: "bob".into(), amount: Uint128::new(x) };
                        self.x("bobs", &token, &give, &[]);
                    }
                    self.stake(1, x);
                }
            }
            Src::Group => {
                self.hear(0);
                self.hear(1);
                let new = [sym::u64(&n("new_alice"), 1, MANY as u64), sym::u64(&n("new_bob"), 0, MANY as u64)];
                let member = |i: usize| cw4::Member { addr: WHO[i].into(), weight: new[i] };
                let dao = self.d.core.to_string();
                let msg = if less {
                    self.own = [Z::from(new[0]), z(0)];
                    cw4_group::msg::ExecuteMsg::UpdateMembers { remove: vec!["bob".into()], add: vec![member(0)] }
                } else {
                    self.own = [Z::from(new[0]), Z::from(new[1])];
                    cw4_group::msg::ExecuteMsg::UpdateMembers { remove: vec![], add: vec![member(0), member(1)] }
                };
                self.x(&dao, &caller, &msg, &[]);
            }
            Src::Nft => {
                if less {
                    self.hear(0);
                    let both = flag(&n("both"));
                    let token_ids = if both { vec!["n1".into(), "n2".into()] } else { vec!["n2".to_string()] };
                    self.own[0] = &self.own[0] - z(if both { 2 } else { 1 });
                    self.x("alice", &caller, &dao_voting_cw721_staked::msg::ExecuteMsg::Unstake { token_ids }, &[]);
                } else {
                    self.stake_nft(1, "n4");
                }
            }
            Src::Roles => {
                use cw721_roles::msg::ExecuteMsg as X;
                let dao = self.d.core.to_string();
                self.hear(0);
                if less {
                    let weight = sym::u64(&n("weight"), 1, MANY as u64);
                    // not the same as before: refused
                    sym::assume(!Z::from(weight).is(&self.own[0]));
                    self.own[0] = Z::from(weight);
                    let msg = dao_cw721_extensions::roles::ExecuteExt::UpdateTokenWeight { token_id: "n1".into(), weight };
                    self.x(&dao, &caller, &X::Extension { msg }, &[]);
                } else {
                    self.hear(1);
                    self.own = [z(0), self.total()];
                    self.x(&dao, &caller, &X::TransferNft { recipient: "bob".into(), token_id: "n1".into() }, &[]);
                }
            }
        }
    }
    fn fund(&mut self, id: usize, x: u128, latest: bool) {
        let denom = self.l[id].denom;
        self.w.mint("funder", x, denom);
        let msg = if latest { m::ExecuteMsg::FundLatest {} } else { m::ExecuteMsg::Fund(m::FundMsg { id: id as u64 + 1 }) };
        let ok = self.w.exec("funder", &self.rd.clone(), &msg, &coins(x, denom)).is_ok();
        let t = self.total();
        let now = self.w.block().height;
        let d = &mut self.l[id];
        check("funding-accepted", ok == (d.linear.is_some() || !t.is_zero()), "funding was refused, or accepted although nobody can receive it");
        if !ok {
            return;
        }
        d.held = &d.held + z(x);
        match d.linear {
            None => d.given = &d.given + (z(x) * scale()).div(&t),
            Some((a, h)) => {
                let lasts = (Z::from(h) * (z(x) * z(SCALE)).div(&z(a))).div(&z(SCALE));
                d.span = Some((now, Z::from(now) + lasts));
            }
        }
    }
    fn claim(&mut self, id: usize, i: usize) {
        let ok = self.w.exec(WHO[i], &self.rd.clone(), &m::ExecuteMsg::Claim { id: id as u64 + 1 }, &[]).is_ok();
        let before = (self.l[id].counted.clone(), self.l[id].given.clone());
        self.count(id);
        check("claim-iff-owed", ok != self.earned(id, i).is_zero(), "a claim was refused, or paid to someone owed nothing");
        if !ok {
            (self.l[id].counted, self.l[id].given) = before;
        } else {
            self.settle(id, i);
            let d = &mut self.l[id];
            cover("claimed");
            d.held = &d.held - &d.owed[i];
            self.paid.push((i, d.denom, d.owed[i].clone()));
            d.owed[i] = z(0);
        }
    }
    /// except the distribution no longer told of changes
    fn all(&mut self, except: Option<usize>) {
        for i in 0..2 {
            let r: m::PendingRewardsResponse = self.w.q(&self.rd, &m::QueryMsg::PendingRewards { address: WHO[i].into(), start_after: None, limit: None });
            check("pending-listed", r.pending_rewards.iter().map(|p| p.id).eq(1..=3), "a distribution is not listed");
            for id in 0..3 {
                self.count(id);
                if except != Some(id) {
                    check_eq("pending", r.pending_rewards[id].pending_rewards.u128(), self.earned(id, i), "the rewards of a member are not the share of their power in what was given");
                }
            }
            for denom in [DEN, "uother"] {
                let mut got = z(0);
                for p in &self.paid {
                    if p.0 == i && p.1 == denom {
                        got = got + &p.2;
                    }
                }
                check_eq("paid", self.w.bal(WHO[i], denom), got, "a member was not paid exactly what was due");
            }
        }
        check_eq("held", self.w.bal(self.rd.as_str(), DEN), &self.l[0].held + &self.l[2].held, "tokens went somewhere else than to claims");
        check_eq("held", self.w.bal(self.rd.as_str(), "uother"), &self.l[1].held, "tokens went somewhere else than to claims");
    }
}
fn many_n(changes: usize) {
    let src = pick("powers", &[Src::Native, Src::Cw20, Src::Group, Src::Nft, Src::Roles]);
    let mut k = Many::new(src);
    for id in 0..3 {
        k.fund(id, sym::u128(&format!("fund{id}"), 1, MANY), false);
    }
    k.w.advance(sym::choose("blocks", 3) as u64 + 1, 1);
    // one of them is no longer told of changes
    let except = if flag("moved") { Some(sym::choose("moved_one", 3) as usize) } else { None };
    if let Some(id) = except {
        let u = m::ExecuteMsg::Update {
            id: id as u64 + 1,
            emission_rate: None,
            vp_contract: None,
            hook_caller: Some("other".into()),
            open_funding: None,
            withdraw_destination: None,
        };
        k.w.exec("owner", &k.rd.clone(), &u, &[]).unwrap();
    }
    for c in 0..changes {
        k.change(c);
        k.w.advance(1, 1);
    }
    k.fund(2, sym::u128("more", 1, MANY), true);
    k.w.advance(1, 1);
    let id = sym::choose("claim", 3) as usize;
    if except != Some(id) {
        k.claim(id, sym::choose("claimer", 2) as usize);
    }
    k.w.advance(1, 1);
    k.all(except);
}
fn many() {
    many_n(1)
}
fn many2() {
    many_n(2)
}
pub const ALL: &[sym::Scenario] = &[
    sym::Scenario {
        prop: "C16",
        name: "rewards_at_once",
        bounds: "rewards handed out at once, native and cw20; 2 members staking up to 2^90, 2 fundings of up to 2^90, a change of stake and claims between",
        covers: &["claimed"],
        run: immediate,
    },
    sym::Scenario {
        prop: "C16",
        name: "rewards_over_time",
        bounds: "1000 tokens per 100 s, continuous or not; 2 members staking up to 2^90, fundings up to 2^90 lasting up to 10^9 s, waits up to 10^9 s, 2 steps",
        covers: &["claimed", "restarted", "backfilled", "withdrawn"],
        run: linear,
    },
    sym::Scenario {
        prop: "C16",
        name: "rewards_any_amount",
        bounds: "up to 2^90 tokens per second or day, continuous or not; as above, 1 step",
        covers: &["backfilled", "withdrawn"],
        run: linear_any,
    },
    sym::Scenario {
        prop: "C16",
        name: "rewards_rates",
        bounds: "a change of the rate among none, at once, 1000 per 100 s, 7 per 60 s continuously, or a withdrawal; a stake or claim after it, another funding; amounts up to 2^90, waits up to 10^9 s",
        covers: &["claimed", "withdrawn"],
        run: rates,
    },
    sym::Scenario {
        prop: "C16",
        name: "rewards_same_block",
        bounds: "a second member stakes up to 2^60 in the block of a funding of up to 2^60",
        covers: &[],
        run: same_block,
    },
    sym::Scenario {
        prop: "C16",
        name: "rewards_authority",
        bounds: "owner, member, treasury or voting contract tries each action at any time up to 10^9 s",
        covers: &[],
        run: rewards_authority,
    },
    sym::Scenario {
        prop: "C16",
        name: "rewards_many",
        bounds: "three distributions, two at once and one of 10 tokens per 2 blocks, of two kinds of tokens, over powers from staked native or cw20 tokens or NFTs, a group or role tokens, up to 2^60; one of them moved to another announcer or not; a change of powers, two fundings of up to 2^60, a claim",
        covers: &["claimed"],
        run: many,
    },
    sym::Scenario {
        prop: "C16+",
        name: "rewards_over_time_more",
        bounds: "1 or 1000 tokens per second or day, otherwise as rewards_over_time",
        covers: &["claimed", "restarted", "backfilled", "withdrawn"],
        run: linear_more,
    },
    sym::Scenario { prop: "C16+", name: "rewards_over_time3", bounds: "10 tokens per second, 3 steps", covers: &["claimed"], run: linear3 },
    sym::Scenario { prop: "C16+", name: "rewards_many2", bounds: "as rewards_many, 2 changes of powers", covers: &["claimed"], run: many2 },
    sym::Scenario { prop: "C16+", name: "rewards_rates3", bounds: "2 changes of the rate, fundings or withdrawals, a stake, unstake or claim between", covers: &["claimed"], run: rates3 },
];
