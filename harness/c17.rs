//! Rewards to stakers from outside (C17) and funds shared out by power (C18).
use crate::common::*;
use cosmwasm_std::*;
use cw20::{Cw20ExecuteMsg as T, Denom};

const MAXP: u128 = 1 << 90;
const WHO: [&str; 2] = ["alice", "bob"];

fn z(v: u128) -> Z {
    Z::from(v)
}
fn scale() -> Z {
    let e = z(1_000_000_000_000_000_000);
    &e * &e * z(1000)
}
fn send(w: &mut W, from: &str, token: &Addr, to: &Addr, amount: u128, msg: &impl serde::Serialize) -> bool {
    let m = T::Send { contract: to.to_string(), amount: Uint128::new(amount), msg: to_json_binary(msg).unwrap() };
    w.exec(from, token, &m, &[]).is_ok()
}
fn mint(w: &mut W, token: &Addr, to: &str, amount: u128) {
    w.exec("minter", token, &T::Mint { recipient: to.into(), amount: Uint128::new(amount) }, &[]).unwrap();
}

/// stakers of a cw20 token, and a pot paying them so much a block
struct Pot {
    w: W,
    token: Addr,
    st: Addr,
    rw: Addr,
    /// rewards are the staked token itself, another cw20, or native
    reward: Option<Addr>,
    // model, in blocks
    now: u64,
    rate: Z,
    len: u64,
    end: u64,
    counted: u64,
    given: Z,
    total: Z,
    own: [Z; 2],
    seen: [Z; 2],
    owed: [Z; 2],
    got: [Z; 2],
    held: Z,
}
impl Pot {
    fn new(kind: u32, len: u64) -> Pot {
        let mut w = W::new();
        let token = w.new_cw20(&[]);
        let c = code!(w, cw20_stake::contract);
        let st = w
            .inst(c, "dao", &cw20_stake::msg::InstantiateMsg { owner: Some("dao".into()), token_address: token.to_string(), unstaking_duration: None })
            .unwrap();
        let reward = if kind == 0 { None } else { Some(w.new_cw20(&[])) };
        let c = code!(w, cw20_stake_external_rewards::contract);
        use cw20_stake_external_rewards::msg as m;
        let rw = w
            .inst(c, "dao", &m::InstantiateMsg {
                owner: Some("dao".into()),
                staking_contract: st.to_string(),
                reward_token: match &reward {
                    Some(t) => Denom::Cw20(t.clone()),
                    None => Denom::Native("ureward".into()),
                },
                reward_duration: len,
            })
            .unwrap();
        w.exec("dao", &st, &cw20_stake::msg::ExecuteMsg::AddHook { addr: rw.to_string() }, &[]).unwrap();
        Pot {
            w, token, st, rw, reward, now: 0, rate: z(0), len, end: 0, counted: 0, given: z(0), total: z(0),
            own: [z(0), z(0)], seen: [z(0), z(0)], owed: [z(0), z(0)], got: [z(0), z(0)], held: z(0),
        }
    }
    fn next(&mut self, blocks: u64) {
        self.w.advance(blocks, 5 * blocks);
        self.now += blocks;
    }
    fn count(&mut self) {
        let until = self.now.min(self.end);
        if !self.total.is_zero() && until > self.counted {
            self.given = &self.given + (&self.rate * &Z::from(until - self.counted) * &scale()).div(&self.total);
        }
        self.counted = self.counted.max(until);
    }
    fn earned(&self, i: usize) -> Z {
        &self.owed[i] + (&self.own[i] * &(&self.given - &self.seen[i])).div(&scale())
    }
    fn settle(&mut self, i: usize) {
        self.count();
        self.owed[i] = self.earned(i);
        self.seen[i] = self.given.clone();
    }
    fn stake(&mut self, i: usize, x: u128) {
        mint(&mut self.w, &self.token.clone(), WHO[i], x);
        self.settle(i);
        self.total = &self.total + z(x);
        self.own[i] = &self.own[i] + z(x);
        let ok = send(&mut self.w, WHO[i], &self.token.clone(), &self.st.clone(), x, &cw20_stake::msg::ReceiveMsg::Stake {});
        check("stake-accepted", ok, "a stake was refused because of the rewards");
    }
    fn unstake(&mut self, i: usize, x: u128) {
        sym::assume_le(z(x), &self.own[i]);
        self.settle(i);
        self.total = &self.total - z(x);
        self.own[i] = &self.own[i] - z(x);
        let ok = self.w.exec(WHO[i], &self.st.clone(), &cw20_stake::msg::ExecuteMsg::Unstake { amount: Uint128::new(x) }, &[]).is_ok();
        check("unstake-accepted", ok, "unstaking was refused because of the rewards");
    }
    fn pay_in(&mut self, from: &str, x: u128) -> bool {
        use cw20_stake_external_rewards::msg as m;
        match self.reward.clone() {
            Some(t) => {
                mint(&mut self.w, &t, from, x);
                send(&mut self.w, from, &t, &self.rw.clone(), x, &m::ReceiveMsg::Fund {})
            }
            None => {
                self.w.mint(from, x, "ureward");
                self.w.exec(from, &self.rw.clone(), &m::ExecuteMsg::Fund {}, &coins(x, "ureward")).is_ok()
            }
        }
    }
    fn fund(&mut self, from: &str, x: u128) {
        let ok = self.pay_in(from, x);
        let may = from == "dao" && self.now >= self.end && !z(x).lt(&Z::from(self.len));
        check("fund-iff-allowed", ok == may, "funding was accepted from a stranger, during a period or of less than one a block, or refused otherwise");
        if !ok {
            if from == WHO[0] {
                // keeps it
                self.got[0] = &self.got[0] + z(x);
            }
            return;
        }
        cover("funded");
        self.count();
        self.rate = z(x).div(&Z::from(self.len));
        self.end = self.now + self.len;
        self.counted = self.now;
        self.held = &self.held + z(x);
    }
    fn duration(&mut self, from: &str, len: u64) {
        let m = cw20_stake_external_rewards::msg::ExecuteMsg::UpdateRewardDuration { new_duration: len };
        let ok = self.w.exec(from, &self.rw.clone(), &m, &[]).is_ok();
        check("duration-iff-allowed", ok == (from == "dao" && self.now >= self.end && len > 0), "the length of a period was changed by a stranger, during a period or to zero, or refused otherwise");
        if ok {
            self.len = len;
        }
    }
    fn claim(&mut self, i: usize) {
        let ok = self.w.exec(WHO[i], &self.rw.clone(), &cw20_stake_external_rewards::msg::ExecuteMsg::Claim {}, &[]).is_ok();
        let before = (self.given.clone(), self.counted);
        self.count();
        let due = self.earned(i);
        if due.is_zero() {
            check("nothing-to-claim", !ok, "a claim was paid to someone owed nothing");
            (self.given, self.counted) = before;
            return;
        }
        cover("claimed");
        check("claim-paid", ok, "a claim was refused");
        self.seen[i] = self.given.clone();
        self.owed[i] = z(0);
        self.held = &self.held - &due;
        self.got[i] = &self.got[i] + due;
    }
    fn bal(&self, a: &str) -> u128 {
        match &self.reward {
            Some(t) => self.w.cw20(t, a),
            None => self.w.bal(a, "ureward"),
        }
    }
    fn all(&mut self) {
        use cw20_stake_external_rewards::msg as m;
        self.count();
        let mut sum = z(0);
        for i in 0..2 {
            let p: m::PendingRewardsResponse = self.w.q(&self.rw, &m::QueryMsg::GetPendingRewards { address: WHO[i].into() });
            check_eq("pending", p.pending_rewards.u128(), self.earned(i), "the rewards of a staker are not the share of their stake in what each block gave");
            check_eq("paid", self.bal(WHO[i]), &self.got[i], "a staker was not paid exactly what was due");
            sum = sum + z(p.pending_rewards.u128());
        }
        check_eq("held", self.bal(self.rw.as_str()), &self.held, "rewards went somewhere else than to claims");
        check_le("solvent", sum, self.bal(self.rw.as_str()), "stakers are promised more than the contract holds");
    }
    fn any(&mut self, k: usize, waits: &[u64], kinds: &[u32]) {
        let n = |s: &str| format!("{s}{k}");
        self.next(pick(&n("blocks"), waits));
        match pick(&n("action"), kinds) {
            0 => self.stake(1, sym::u128(&n("stake"), 1, MAXP)),
            1 => self.unstake(0, sym::u128(&n("unstake"), 1, MAXP)),
            2 => {
                let i = sym::choose(&n("who"), 2) as usize;
                self.claim(i)
            }
            3 => self.fund("dao", sym::u128(&n("fund"), 1, MAXP)),
            _ => self.duration("dao", 3),
        }
    }
}
fn pot_with(len: u64, waits: &[u64], n: usize) {
    let mut p = Pot::new(sym::choose("token", 2), len);
    p.stake(0, sym::u128("alice", 1, MAXP));
    p.next(1);
    p.fund("dao", sym::u128("fund", 1, MAXP));
    for k in 1..=n {
        p.any(k, waits, &[0, 1, 2, 3]);
    }
    p.next(pick("blocks", waits));
    p.all();
}
fn pot() {
    pot_with(10, &[1, 10], 2)
}
fn pot_more() {
    pot_with(pick("length", &[1, 7]), &[1, 3, 7], 2)
}
fn pot3() {
    pot_with(10, &[2, 10], 3)
}
/// several changes within a block
fn pot_same_block() {
    let mut p = Pot::new(0, 10);
    let x = sym::u128("fund", 1, MAXP);
    p.stake(0, sym::u128("alice", 1, MAXP));
    p.next(1);
    let first = sym::choose("first", 3);
    let y = sym::u128("stake", 1, MAXP);
    // the block of the funding earns nothing, so whoever stakes in it is in from the next
    if first == 0 {
        p.stake(1, y)
    }
    p.fund("dao", x);
    match first {
        1 => p.stake(1, y),
        2 => {
            sym::assume_le(z(y), &p.own[0]);
            p.unstake(0, y)
        }
        _ => (),
    }
    p.claim(0);
    p.next(1);
    p.claim(0);
    // stakes, then claims, in one block: what the new stake earns begins with the next
    let y = sym::u128("stake2", 1, MAXP);
    p.stake(0, y);
    p.claim(0);
    p.next(pick("blocks", &[1, 20]));
    p.all();
}
fn pot_authority() {
    use cw20_stake_external_rewards::msg::{ExecuteMsg as E, ReceiveMsg};
    let kind = sym::choose("token", 2);
    let mut p = Pot::new(kind, 10);
    p.stake(0, sym::u128("alice", 1, MAXP));
    p.next(1);
    let from = pick("from", &["dao", "alice", "staking"]);
    let sender = if from == "staking" { p.st.to_string() } else { from.to_string() };
    match sym::choose("action", 5) {
        0 => p.fund(&sender, sym::u128("fund", 1, MAXP)),
        1 => {
            p.fund("dao", sym::u128("fund", 10, MAXP));
            p.next(pick("blocks", &[1, 9, 10]));
            let l = pick("length", &[0, 1, 20]);
            p.duration(&sender, l);
            p.fund(&sender, sym::u128("fund2", 1, MAXP));
        }
        2 => {
            p.fund("dao", sym::u128("fund", 10, MAXP));
            p.next(1);
            let h = dao_hooks::stake::StakeChangedHookMsg::Stake { addr: Addr::unchecked("bob"), amount: Uint128::new(sym::u128("forged", 1, MAXP)) };
            let ok = p.w.exec(&sender, &p.rw.clone(), &E::StakeChangeHook(h), &[]).is_ok();
            check("hook-iff-staking", ok == (from == "staking"), "a change of stake was announced by someone else than the staking contract");
            if ok {
                p.settle(1);
            }
        }
        3 => {
            // funds nobody sent, or of another kind
            let m = cw20::Cw20ReceiveMsg { sender: "dao".into(), amount: Uint128::new(sym::u128("forged", 10, MAXP)), msg: to_json_binary(&ReceiveMsg::Fund {}).unwrap() };
            check("forged-funds-refused", p.w.exec(&sender, &p.rw.clone(), &E::Receive(m), &[]).is_err(), "funds were booked without tokens");
            p.w.mint("dao", 50, "uother");
            check("foreign-funds-refused", p.w.exec("dao", &p.rw.clone(), &E::Fund {}, &coins(50, "uother")).is_err(), "tokens of another kind were booked");
            mint(&mut p.w, &p.token.clone(), "dao", 50);
            let ok = send(&mut p.w, "dao", &p.token.clone(), &p.rw.clone(), 50, &ReceiveMsg::Fund {});
            check("foreign-funds-refused", !ok, "tokens of another kind were booked");
        }
        _ => {
            p.fund("dao", sym::u128("fund", 10, MAXP));
            let a = cw_ownable::Action::TransferOwnership { new_owner: "heir".into(), expiry: None };
            let ok = p.w.exec(&sender, &p.rw.clone(), &E::UpdateOwnership(a), &[]).is_ok();
            check("transfer-iff-owner", ok == (from == "dao"), "someone else than the owner gave the pot away");
            let ok2 = p.w.exec(&sender, &p.rw.clone(), &E::UpdateOwnership(cw_ownable::Action::AcceptOwnership), &[]).is_ok();
            check("accept-iff-nominee", !ok2, "someone else than the nominee took the pot");
            p.next(10);
            if ok {
                let ok = p.w.exec("heir", &p.rw.clone(), &E::UpdateOwnership(cw_ownable::Action::AcceptOwnership), &[]).is_ok();
                check("heir-accepts", ok, "the nominee could not accept");
                check("old-owner-out", !p.pay_in("dao", 100), "the former owner can still fund");
            }
        }
    }
    p.next(1);
    p.all();
}

/// a pot topping the stakes up with so much a block
fn top_up() {
    use cw20_stake_reward_distributor::msg as m;
    let mut w = W::new();
    let token = w.new_cw20(&[]);
    let c = code!(w, cw20_stake::contract);
    let mut stc = |w: &mut W| {
        w.inst(c, "dao", &cw20_stake::msg::InstantiateMsg { owner: None, token_address: token.to_string(), unstaking_duration: None }).unwrap()
    };
    let st = stc(&mut w);
    let st2 = stc(&mut w);
    let c = code!(w, cw20_stake_reward_distributor::contract);
    let rate = sym::u128("rate", 0, MAXP);
    let i = m::InstantiateMsg { owner: "dao".into(), staking_addr: st.to_string(), reward_rate: Uint128::new(rate), reward_token: token.to_string() };
    let d = w.inst(c, "dao", &i).unwrap();
    mint(&mut w, &token, "alice", 100);
    check("stake", send(&mut w, "alice", &token, &st, 100, &cw20_stake::msg::ReceiveMsg::Stake {}), "");
    let funds = sym::u128("funds", 0, MAXP);
    if !z(funds).is_zero() {
        mint(&mut w, &token, d.as_str(), funds);
    }
    let mut rate = z(rate);
    let mut to = 0;
    let mut held = z(funds);
    let mut got = [z(0), z(0)];
    let mut back = z(0);
    let mut since = 0u64;
    for k in 1..=3 {
        let n = |s: &str| format!("{s}{k}");
        let b = pick(&n("blocks"), &[0, 1, 100]);
        w.advance(b, 5 * b);
        since += b;
        let from = if flag(&n("dao")) { "dao" } else { "alice" };
        match pick(&n("action"), if k == 2 { &[0, 1, 2] } else { &[0] }) {
            0 => {
                let due = (&rate * &Z::from(since)).min(&held);
                let ok = w.exec(from, &d, &m::ExecuteMsg::Distribute {}, &[]).is_ok();
                check("distribute-iff-due", ok == !due.is_zero(), "a payment was made when none was due, or refused when one was");
                if ok {
                    cover("paid");
                    since = 0;
                    held = &held - &due;
                    got[to] = &got[to] + due;
                }
            }
            1 => {
                let r = sym::u128(&n("rate"), 0, MAXP);
                let e = m::ExecuteMsg::UpdateConfig { staking_addr: st2.to_string(), reward_rate: Uint128::new(r), reward_token: token.to_string() };
                let ok = w.exec(from, &d, &e, &[]).is_ok();
                check("update-iff-owner", ok == (from == "dao"), "someone else than the owner changed the payments, or the owner could not");
                if ok {
                    // nothing, or what was due under the old terms, is paid to the old place
                    let g = z(w.cw20(&token, st.as_str())) - z(100);
                    let more = &g - &got[0];
                    check("nothing-extra", more.is_zero() || more.is(&(&rate * &Z::from(since)).min(&held)), "a change of terms paid something else than was due");
                    held = &held - &more;
                    got[0] = g;
                    cover("updated");
                    since = 0;
                    rate = z(r);
                    to = 1;
                }
            }
            _ => {
                let ok = w.exec(from, &d, &m::ExecuteMsg::Withdraw {}, &[]).is_ok();
                // nothing cannot be sent
                check("withdraw-iff-owner", if from == "dao" { ok || held.is_zero() } else { !ok }, "someone else than the owner withdrew, or the owner could not");
                if ok {
                    back = held;
                    held = z(0);
                }
            }
        }
    }
    check_eq("held", w.cw20(&token, d.as_str()), held, "what is left is not the funds less the payments");
    check_eq("first", w.cw20(&token, st.as_str()), &got[0] + z(100), "the stakers did not get the rate times the blocks passed");
    check_eq("second", w.cw20(&token, st2.as_str()), &got[1], "the new stakers did not get the rate times the blocks passed");
    check_eq("returned", w.cw20(&token, "dao"), back, "the owner did not get exactly what was left");
    let v: cw20_stake::msg::TotalValueResponse = w.q(&st, &cw20_stake::msg::QueryMsg::TotalValue {});
    check_eq("stakes-worth-more", v.total.u128(), &got[0] + z(100), "the payments did not go to the stakers");
}

// ---- funds shared out by power ----
struct Fd {
    w: W,
    vm: Addr,
    fd: Addr,
    token: Addr,
    /// powers at the height of the distribution: alice, bob, others
    own: [u128; 2],
    total: Z,
    pool: [Z; 2],
    /// each member's claims of each kind of fund
    got: [[Z; 2]; 2],
    before: [[Z; 2]; 2],
}
const E18: u128 = 1_000_000_000_000_000_000;
impl Fd {
    /// powers at two heights; the distribution is by the first, the second or the current
    fn new(at: u32) -> Fd {
        let mut w = W::new();
        let vm = w.new_vm();
        let p = |n: &str| sym::u128(n, 0, MAXP);
        let (a, b, o) = (p("alice"), p("bob"), p("others"));
        let (a2, b2, o2) = (p("alice2"), p("bob2"), p("others2"));
        sym::assume_le(z(1), z(a) + z(b) + z(o));
        sym::assume_le(z(1), z(a2) + z(b2) + z(o2));
        let h = w.block().height;
        w.set_powers(&vm, &[("alice", a), ("bob", b), ("carol", o)]);
        w.advance(10, 50);
        w.set_powers(&vm, &[("alice", a2), ("bob", b2), ("carol", o2)]);
        let token = w.new_cw20(&[]);
        let c = code!(w, cw_fund_distributor::contract, migr);
        let height = [h, h + 10][at as usize];
        let i = cw_fund_distributor::msg::InstantiateMsg {
            voting_contract: vm.to_string(),
            funding_period: cw_utils::Duration::Height(10),
            distribution_height: height,
        };
        let fd = w.inst_full(c, "dao", &i, &[], Some("dao".into())).unwrap();
        let (own, total) = if at == 0 { ([a, b], z(a) + z(b) + z(o)) } else { ([a2, b2], z(a2) + z(b2) + z(o2)) };
        let zz = || [[z(0), z(0)], [z(0), z(0)]];
        Fd { w, vm, fd, token, own, total, pool: [z(0), z(0)], got: zz(), before: zz() }
    }
    fn fund(&mut self, kind: usize, x: u128, open: bool) {
        let ok = if kind == 0 {
            self.w.mint("funder", x, "udist");
            self.w.exec("funder", &self.fd.clone(), &cw_fund_distributor::msg::ExecuteMsg::FundNative {}, &coins(x, "udist")).is_ok()
        } else {
            mint(&mut self.w, &self.token.clone(), "funder", x);
            send(&mut self.w, "funder", &self.token.clone(), &self.fd.clone(), x, &Empty {})
        };
        check("fund-iff-open", ok == open, "funds were accepted after the funding period, or refused in it");
        if ok {
            self.pool[kind] = &self.pool[kind] + z(x);
        }
    }
    fn share(&self, kind: usize, i: usize) -> Z {
        // shares are kept to 18 decimals, rounded down
        let s = (z(self.own[i]) * z(E18)).div(&self.total);
        (&self.pool[kind] * &s).div(&z(E18))
    }
    fn claim(&mut self, i: usize, what: u32, open: bool) {
        use cw_fund_distributor::msg::ExecuteMsg as E;
        let (d, t) = ("udist".to_string(), self.token.to_string());
        let (m, kinds): (E, &[usize]) = match what {
            0 => (E::ClaimNatives { denoms: vec![d] }, &[0]),
            1 => (E::ClaimCW20 { tokens: vec![t] }, &[1]),
            2 => (E::ClaimNatives { denoms: vec![d.clone(), d] }, &[0]),
            3 => (E::ClaimCW20 { tokens: vec![t.clone(), t] }, &[1]),
            _ => (E::ClaimAll {}, &[0, 1]),
        };
        let ok = self.w.exec(WHO[i], &self.fd.clone(), &m, &[]).is_ok();
        check("claim-iff-closed", ok == !open, "a claim was paid during the funding period, or refused after it");
        if ok {
            cover("claimed");
            for k in kinds {
                self.got[*k][i] = self.share(*k, i);
            }
        }
    }
    fn all(&self) {
        use cw_fund_distributor::msg as m;
        for k in 0..2 {
            let mut left = self.pool[k].clone();
            for i in 0..2 {
                let b = if k == 0 { self.w.bal(WHO[i], "udist") } else { self.w.cw20(&self.token, WHO[i]) };
                check_eq("paid", b, &self.got[k][i] + &self.before[k][i], "a member was not paid the share of their power at the height of the distribution, once");
                left = left - &self.got[k][i];
                let e = if k == 0 {
                    self.w.q::<m::NativeEntitlementResponse>(&self.fd, &m::QueryMsg::NativeEntitlement { sender: Addr::unchecked(WHO[i]), denom: "udist".into() }).amount
                } else {
                    self.w.q::<m::CW20EntitlementResponse>(&self.fd, &m::QueryMsg::CW20Entitlement { sender: Addr::unchecked(WHO[i]), token: self.token.to_string() }).amount
                };
                check_eq("entitled", e.u128(), self.share(k, i) - &self.got[k][i], "what a member may still claim is misreported");
            }
            let b = if k == 0 { self.w.bal(self.fd.as_str(), "udist") } else { self.w.cw20(&self.token, self.fd.as_str()) };
            check_eq("held", b, left, "funds went somewhere else than to claims");
            check_le("solvent", self.share(k, 0) + self.share(k, 1), &self.pool[k], "members are promised more than was funded");
        }
        let t: m::TotalPowerResponse = self.w.q(&self.fd, &m::QueryMsg::TotalPower {});
        check_eq("total-power", t.total_power.u128(), &self.total, "shares are not of the total power at the height of the distribution");
    }
}
fn shares() {
    let mut f = Fd::new(sym::choose("height", 2));
    let x = sym::u128("native", 1, MAXP);
    f.fund(0, x, true);
    f.fund(1, sym::u128("cw20", 1, MAXP), true);
    let b = pick("blocks", &[0, 9, 10, 11]);
    f.w.advance(b, b);
    let open = b < 10;
    f.fund(0, 7, open);
    let c = sym::choose("claim", 5);
    f.claim(0, c, open);
    f.w.advance(10, 10);
    let c = sym::choose("claim2", 5);
    f.claim(0, c, false);
    f.claim(1, 4, false);
    f.claim(0, 4, false);
    f.all();
}
/// what is left is shared out anew, by the power at another height
fn shares_again() {
    let mut f = Fd::new(0);
    let k = sym::choose("kind", 2);
    f.fund(k as usize, sym::u128("funds", 1, MAXP), true);
    f.w.advance(10, 10);
    let i = sym::choose("who", 2) as usize;
    f.claim(i, k, false);
    // powers once more
    let p = |n: &str| sym::u128(n, 0, MAXP);
    let (a, b, o) = (p("alice3"), p("bob3"), p("others3"));
    sym::assume_le(z(1), z(a) + z(b) + z(o));
    let h = f.w.block().height;
    f.w.set_powers(&f.vm.clone(), &[("alice", a), ("bob", b), ("carol", o)]);
    let c = code!(f.w, cw_fund_distributor::contract, migr);
    let m = cw_fund_distributor::msg::MigrateMsg::RedistributeUnclaimedFunds { distribution_height: h };
    let migrate = |f: &mut Fd, from: &str| {
        f.w.msg(from, WasmMsg::Migrate { contract_addr: f.fd.to_string(), new_code_id: c, msg: to_json_binary(&m).unwrap() }.into()).is_ok()
    };
    check("redistribute-iff-admin", !migrate(&mut f, "alice"), "a stranger shared the funds out anew");
    check("redistribute", migrate(&mut f, "dao"), "the admin could not share the funds out anew");
    cover("redistributed");
    for k in 0..2 {
        f.pool[k] = &f.pool[k] - &f.got[k][0] - &f.got[k][1];
        for i in 0..2 {
            f.before[k][i] = f.got[k][i].clone();
            f.got[k][i] = z(0);
        }
    }
    f.own = [a, b];
    f.total = z(a) + z(b) + z(o);
    f.claim(0, 4, false);
    let b = flag("both");
    if b {
        f.claim(1, 4, false);
    }
    f.all();
}
pub const ALL: &[sym::Scenario] = &[
    sym::Scenario {
        prop: "C17",
        name: "pot",
        bounds: "native or cw20 rewards over 10 blocks; 2 stakers of up to 2^90, fundings of up to 2^90, 2 steps of stake, unstake, claim or funding, 1 or 10 blocks apart",
        covers: &["funded", "claimed"],
        run: pot,
    },
    sym::Scenario {
        prop: "C17",
        name: "pot_same_block",
        bounds: "stakes, unstaking, funding and claims within a block, amounts up to 2^90",
        covers: &["funded", "claimed"],
        run: pot_same_block,
    },
    sym::Scenario { prop: "C17", name: "pot_authority", bounds: "owner, staker or staking contract tries each action, amounts up to 2^90", covers: &["funded"], run: pot_authority },
    sym::Scenario {
        prop: "C17",
        name: "top_up",
        bounds: "any rate and funds up to 2^90, 3 steps 0, 1 or 100 blocks apart of distributing, and once changing the terms or withdrawing",
        covers: &["paid", "updated"],
        run: top_up,
    },
    sym::Scenario { prop: "C17+", name: "pot_more", bounds: "as pot, over 1 or 7 blocks, 1, 3 or 7 blocks apart", covers: &["funded", "claimed"], run: pot_more },
    sym::Scenario { prop: "C17+", name: "pot3", bounds: "as pot, 3 steps 2 or 10 blocks apart", covers: &["funded", "claimed"], run: pot3 },
    sym::Scenario {
        prop: "C18",
        name: "shares",
        bounds: "2 members and others with powers up to 2^90 at two heights, native and cw20 funds up to 2^90, claims 0, 9, 10 or 11 blocks later",
        covers: &["claimed"],
        run: shares,
    },
    sym::Scenario {
        prop: "C18",
        name: "shares_again",
        bounds: "as shares, with a claim, then what is left shared out by the powers at another height",
        covers: &["claimed", "redistributed"],
        run: shares_again,
    },
];
