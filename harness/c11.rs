//! Staking of tokens for voting power: cw20 tokens (C11), native tokens (C12).
use crate::common::*;
use crate::single as s;
use cosmwasm_std::*;
use cw_utils::{Duration, Expiration};
use dao_hooks::stake::{StakeChangedExecuteMsg, StakeChangedHookMsg};
use dao_voting::threshold::Threshold;

const MAXP: u128 = 1 << 118;
const TMAX: u64 = 1_000_000_000;
const WHO: [&str; 2] = ["alice", "bob"];

pub struct Stk {
    pub w: W,
    pub d: Dao,
    native: bool,
    token: Addr,
    /// the contract holding the tokens
    st: Addr,
    hook: Addr,
    heard: usize,
    /// model
    total: Z,
    pool: Z,
    own: [Z; 2],
    free: [Z; 2],
    claims: [Vec<(Z, Z)>; 2],
    duration: Option<u64>,
    now: Z,
    /// powers at the beginning of each block passed: height, total, each
    past: Vec<(u64, Z, [Z; 2])>,
}
fn z(v: u128) -> Z {
    Z::from(v)
}
impl Stk {
    pub fn new(native: bool, duration: Option<u64>) -> Stk {
        let mut k = Self::lasting(native, duration.map(Duration::Time));
        k.duration = duration;
        k
    }
    fn lasting(native: bool, dur: Option<Duration>) -> Stk {
        let mut w = W::new();
        let token = w.new_cw20(&[]);
        w.mint("someone", 1, "ustake");
        let vm = if native {
            let c = code!(w, dao_voting_token_staked::contract, reply);
            use dao_voting_token_staked::msg as m;
            module(c, &m::InstantiateMsg { token_info: m::TokenInfo::Existing { denom: "ustake".into() }, unstaking_duration: dur, active_threshold: None })
        } else {
            let c = code!(w, dao_voting_cw20_staked::contract, reply);
            let sc = code!(w, cw20_stake::contract);
            use dao_voting_cw20_staked::msg as m;
            let t = m::TokenInfo::Existing {
                address: token.to_string(),
                staking_contract: m::StakingInfo::New { staking_code_id: sc, unstaking_duration: dur },
            };
            module(c, &m::InstantiateMsg { token_info: t, active_threshold: None })
        };
        let p = s::single_code(&mut w);
        let p = module(p, &s::cfg(Threshold::AbsoluteCount { threshold: Uint128::new(1) }));
        let core = core_code(&mut w);
        let a = w.inst(core, "creator", &core_msg(None, vm, vec![p])).unwrap();
        let d = dao_parts(&w, a);
        let st: Addr = if native { d.vm.clone() } else { w.q(&d.vm, &dao_voting_cw20_staked::msg::QueryMsg::StakingContract {}) };
        let hook = w.new_rec();
        let add = cw20_stake::msg::ExecuteMsg::AddHook { addr: hook.to_string() };
        w.exec(d.core.as_str(), &st, &add, &[]).unwrap();
        let zz = || [z(0), z(0)];
        Stk {
            w, d, native, token, st, hook, heard: 0,
            total: z(0), pool: z(0), own: zz(), free: zz(), claims: [vec![], vec![]], duration: None, now: z(0),
            past: vec![],
        }
    }
    /// staking without the model, for lists
    pub fn raw_stake(&mut self, who: &str, amount: u128) {
        if self.native {
            self.w.mint(who, amount, "ustake");
            self.w.exec(who, &self.st.clone(), &dao_voting_token_staked::msg::ExecuteMsg::Stake {}, &coins(amount, "ustake")).unwrap();
            return;
        }
        let amount = Uint128::new(amount);
        self.w.exec("minter", &self.token.clone(), &cw20::Cw20ExecuteMsg::Mint { recipient: who.into(), amount }, &[]).unwrap();
        let msg = to_json_binary(&cw20_stake::msg::ReceiveMsg::Stake {}).unwrap();
        self.w.exec(who, &self.token.clone(), &cw20::Cw20ExecuteMsg::Send { contract: self.st.to_string(), amount, msg }, &[]).unwrap();
    }
    pub fn raw_unstake(&mut self, who: &str, amount: u128) {
        let m = cw20_stake::msg::ExecuteMsg::Unstake { amount: Uint128::new(amount) };
        self.w.exec(who, &self.st.clone(), &m, &[]).unwrap();
    }
    pub fn q<R: serde::de::DeserializeOwned>(&self, m: &impl serde::Serialize) -> R {
        self.w.q(&self.st, m)
    }
    fn give(&mut self, i: usize, amount: u128) {
        if self.native {
            self.w.mint(WHO[i], amount, "ustake");
        } else {
            let m = cw20::Cw20ExecuteMsg::Mint { recipient: WHO[i].into(), amount: Uint128::new(amount) };
            self.w.exec("minter", &self.token.clone(), &m, &[]).unwrap();
        }
        self.free[i] = &self.free[i] + z(amount);
    }
    fn send(&mut self, i: usize, msg: &cw20_stake::msg::ReceiveMsg, amount: u128) -> bool {
        let m = cw20::Cw20ExecuteMsg::Send { contract: self.st.to_string(), amount: Uint128::new(amount), msg: to_json_binary(msg).unwrap() };
        self.w.exec(WHO[i], &self.token.clone(), &m, &[]).is_ok()
    }
    fn hooked(&mut self, want: StakeChangedHookMsg) {
        let r = self.w.rec(&self.hook);
        check("hook-called", r.len() == self.heard + 1 && r[self.heard].sender == self.st.as_str(), "a change of stake was not announced exactly once");
        let got: StakeChangedExecuteMsg = from_json(&r[self.heard].msg).unwrap();
        let StakeChangedExecuteMsg::StakeChangeHook(got) = got;
        use StakeChangedHookMsg::*;
        match (&got, &want) {
            (Stake { addr: a, amount: x }, Stake { addr: b, amount: y }) | (Unstake { addr: a, amount: x }, Unstake { addr: b, amount: y }) => {
                check("hook-address", a == b, "a change of stake was announced for the wrong address");
                check_eq("hook-amount", x.u128(), y.u128(), "a change of stake was announced with a wrong amount");
            }
            _ => check("hook-kind", false, "staking was announced as unstaking or the reverse"),
        }
        self.heard += 1;
    }
    pub fn stake(&mut self, i: usize, amount: u128) {
        let ok = if self.native {
            self.w.exec(WHO[i], &self.st.clone(), &dao_voting_token_staked::msg::ExecuteMsg::Stake {}, &coins(amount, "ustake")).is_ok()
        } else {
            self.send(i, &cw20_stake::msg::ReceiveMsg::Stake {}, amount)
        };
        check("stake-accepted", ok, "staking one's own tokens was refused");
        let x = z(amount);
        let k = if self.total.is_zero() || self.pool.is_zero() || self.native { x.clone() } else { (&self.total * &x).div(&self.pool) };
        let before = (self.total.clone(), self.pool.clone());
        self.total = &self.total + &k;
        self.pool = &self.pool + &x;
        self.own[i] = &self.own[i] + &k;
        self.free[i] = &self.free[i] - &x;
        self.no_dilution(before);
        let amount = self.last_amount(&k);
        self.hooked(StakeChangedHookMsg::Stake { addr: Addr::unchecked(WHO[i]), amount });
    }
    /// The amount announced has to equal k; used to build the message to compare with.
    fn last_amount(&self, k: &Z) -> Uint128 {
        let r = self.w.rec(&self.hook);
        let StakeChangedExecuteMsg::StakeChangeHook(m) = from_json(&r.last().unwrap().msg).unwrap();
        let a = match m {
            StakeChangedHookMsg::Stake { amount, .. } | StakeChangedHookMsg::Unstake { amount, .. } => amount,
        };
        check_eq("announced-amount", a.u128(), k, "a change of stake was announced with a wrong amount");
        a
    }
    /// what each unit of stake is worth never falls
    fn no_dilution(&self, (t, b): (Z, Z)) {
        if self.native || t.is_zero() || self.total.is_zero() {
            return;
        }
        check_le("no-dilution", &b * &self.total, &self.pool * &t, "someone's action made the others' stake worth less");
    }
    pub fn fund(&mut self, i: usize, amount: u128) {
        let ok = self.send(i, &cw20_stake::msg::ReceiveMsg::Fund {}, amount);
        check("fund-accepted", ok, "funding the stakers was refused");
        self.pool = &self.pool + z(amount);
        self.free[i] = &self.free[i] - z(amount);
    }
    pub fn unstake(&mut self, i: usize, amount: u128) {
        let m = cw20_stake::msg::ExecuteMsg::Unstake { amount: Uint128::new(amount) };
        let ok = self.w.exec(WHO[i], &self.st.clone(), &m, &[]).is_ok();
        let a = z(amount);
        let may = a.le(&self.own[i]) && !self.total.is_zero() && !(self.native && a.is_zero());
        check("unstake-iff-due", ok == may, "unstaking was accepted beyond the sender's stake, or refused within it");
        if !may {
            return;
        }
        cover("unstaked");
        let pay = if self.native { a.clone() } else { (&a * &self.pool).div(&self.total) };
        let before = (self.total.clone(), self.pool.clone());
        self.total = &self.total - &a;
        self.pool = &self.pool - &pay;
        self.own[i] = &self.own[i] - &a;
        self.no_dilution(before);
        match self.duration {
            None => self.free[i] = &self.free[i] + &pay,
            Some(t) => {
                cover("claim-made");
                self.claims[i].push((pay, &self.now + Z::from(t)));
            }
        }
        self.hooked(StakeChangedHookMsg::Unstake { addr: Addr::unchecked(WHO[i]), amount: Uint128::new(amount) });
    }
    pub fn claim(&mut self, i: usize) {
        let ok = self.w.exec(WHO[i], &self.st.clone(), &cw20_stake::msg::ExecuteMsg::Claim {}, &[]).is_ok();
        let (mut due, mut rest) = (z(0), vec![]);
        let all = self.claims[i].clone();
        for (x, at) in std::mem::take(&mut self.claims[i]) {
            if self.now.ge(&at) {
                due = due + x;
            } else {
                rest.push((x, at));
            }
        }
        if due.is_zero() {
            // a claim of nothing is refused, and nothing changes
            check("claim-only-when-due", !ok, "a claim was paid before its time or twice");
            // worthless claims that are due stay
            self.claims[i] = all;
            return;
        }
        cover("claimed");
        check("due-claim-paid", ok, "a claim that is due was refused");
        self.free[i] = &self.free[i] + due;
        self.claims[i] = rest;
    }
    /// a new block, some time later
    pub fn next_block(&mut self, secs: u64) {
        self.w.advance(1, secs);
        self.now = &self.now + Z::from(secs);
        self.past.push((self.w.block().height, self.total.clone(), self.own.clone()));
    }
    fn power(&self, who: &str, h: Option<u64>) -> u128 {
        use dao_interface::voting::VotingPowerAtHeightResponse as P;
        self.w.q::<P>(&self.d.core, &dao_interface::msg::QueryMsg::VotingPowerAtHeight { address: who.into(), height: h }).power.u128()
    }
    fn total_power(&self, h: Option<u64>) -> u128 {
        use dao_interface::voting::TotalPowerAtHeightResponse as P;
        self.w.q::<P>(&self.d.core, &dao_interface::msg::QueryMsg::TotalPowerAtHeight { height: h }).power.u128()
    }
    pub fn all(&self) {
        // powers
        for (h, t, own) in &self.past {
            check_eq("total-power", self.total_power(Some(*h)), t, "the total voting power at a height is not the stake at its beginning");
            for i in 0..2 {
                check_eq("power", self.power(WHO[i], Some(*h)), &own[i], "the voting power at a height is not the stake at its beginning");
            }
            check_eq("total-is-sum", self.total_power(Some(*h)), Z::from(self.power("alice", Some(*h))) + Z::from(self.power("bob", Some(*h))), "the total voting power is not the sum of all");
        }
        if let Some((h, t, own)) = self.past.last() {
            if *h == self.w.block().height {
                check_eq("total-power-now", self.total_power(None), t, "the current total power is wrong");
                check_eq("power-now", self.power("alice", None), &own[0], "the current power is wrong");
            }
        }
        // money
        let bal = |a: &str| if self.native { self.w.bal(a, "ustake") } else { self.w.cw20(&self.token, a) };
        let mut owed = self.pool.clone();
        for i in 0..2 {
            check_eq("balance", bal(WHO[i]), &self.free[i], "tokens were not paid out as due");
            let c: cw_controllers::ClaimsResponse = self.w.q(&self.st, &cw20_stake::msg::QueryMsg::Claims { address: WHO[i].into() });
            let want = self.claims[i].iter().map(|c| c.0.clone()).sum::<Z>();
            check("claims-listed", c.claims.len() == self.claims[i].len(), "a claim is missing or doubled");
            for (c, (x, at)) in c.claims.iter().zip(&self.claims[i]) {
                check_eq("claims", c.amount.u128(), x, "the claims listed are not those made");
                match c.release_at {
                    Expiration::AtTime(t) => check_eq("release", t.seconds(), at + Z::from(T0 as u128), "a claim is released at a wrong time"),
                    _ => check("release", false, "a claim is not released by time"),
                }
            }
            owed = owed + want;
        }
        check_eq("fully-backed", bal(self.st.as_str()), &owed, "the contract does not hold exactly the stakes and claims it owes");
        if !self.native {
            use cw20_stake::msg::*;
            let t: TotalValueResponse = self.w.q(&self.st, &QueryMsg::TotalValue {});
            check_eq("total-value", t.total.u128(), &self.pool, "the value of all stakes is misreported");
            for i in 0..2 {
                let v: R<StakedValueResponse> = self.w.try_q(&self.st, &QueryMsg::StakedValue { address: WHO[i].into() });
                match v {
                    Ok(v) => {
                        let want = if self.total.is_zero() { z(0) } else { (&self.own[i] * &self.pool).div(&self.total) };
                        check_eq("staked-value", v.value.u128(), want, "the value of a stake is not what unstaking it pays");
                    }
                    Err(_) => check("staked-value-answered", false, "the value of a stake cannot be queried"),
                }
            }
        }
        sym::observe("held", bal(self.st.as_str()));
    }
    fn step(&mut self, k: usize, kinds: &[u32]) {
        let n = |s: &str| format!("{s}{k}");
        let amt = |s: &str| sym::u128(&n(s), 1, MAXP);
        match pick(&n("action"), kinds) {
            0 => {
                let (i, x) = (sym::choose(&n("who"), 2) as usize, amt("stake"));
                self.give(i, x);
                self.stake(i, x)
            }
            1 => {
                let (i, x) = (sym::choose(&n("who"), 2) as usize, sym::u128(&n("unstake"), 0, MAXP));
                self.unstake(i, x)
            }
            2 => {
                let i = sym::choose(&n("who"), 2) as usize;
                self.claim(i)
            }
            3 => {
                let t = sym::u64(&n("wait"), 0, TMAX);
                self.next_block(t)
            }
            4 => {
                let x = amt("fund");
                self.give(1, x);
                self.fund(1, x)
            }
            _ => {
                let dao = flag(&n("by_dao"));
                let d = if flag(&n("timed")) { Some(sym::u64(&n("duration"), 0, TMAX)) } else { None };
                let m = cw20_stake::msg::ExecuteMsg::UpdateConfig { duration: d.map(Duration::Time) };
                let from = if dao { self.d.core.to_string() } else { "bob".into() };
                let ok = self.w.exec(from, &self.st.clone(), &m, &[]).is_ok();
                check("config-iff-dao", ok == (dao && d.map_or(true, |d| d > 0)), "the waiting time was changed by someone else than the DAO, or to zero");
                if ok {
                    self.duration = d;
                }
            }
        }
    }
}
fn start(native: bool) -> Stk {
    let timed = flag("waiting");
    let d = if timed { Some(sym::u64("duration", 1, TMAX)) } else { None };
    Stk::new(native, d)
}
fn stake20() {
    let mut k = start(false);
    let (a, b) = (sym::u128("alice", 1, MAXP), sym::u128("bob", 1, MAXP));
    k.give(0, a);
    k.stake(0, a);
    k.give(1, b);
    k.next_block(0);
    if flag("funded") {
        cover("funded");
        let f = sym::u128("funds", 1, MAXP);
        k.give(1, f);
        k.fund(1, f);
    }
    k.step(1, &[0, 1, 4, 5]);
    k.step(2, &[0, 1, 2, 3]);
    k.next_block(sym::u64("later", 0, TMAX));
    k.claim(0);
    k.next_block(1);
    k.all();
}
/// who may change what, and what counts as a stake
fn authority20() {
    authority(false)
}
fn authority_native() {
    authority(true)
}
fn authority(native: bool) {
    let mut k = Stk::new(native, Some(100));
    let x = sym::u128("stake", 1, MAXP);
    k.give(0, x);
    k.stake(0, x);
    let from = pick("from", &["alice", "dao", "hook"]);
    let dao = from == "dao";
    let sender = match from {
        "dao" => k.d.core.to_string(),
        "hook" => k.hook.to_string(),
        a => a.into(),
    };
    let (st, hook) = (k.st.clone(), k.hook.to_string());
    use cw20_stake::msg::{ExecuteMsg as E, GetHooksResponse, QueryMsg};
    let hooks = |k: &Stk| k.w.q::<GetHooksResponse>(&k.st, &QueryMsg::GetHooks {}).hooks;
    match sym::choose("action", 5) {
        0 => {
            let ok = k.w.exec(sender, &st, &E::RemoveHook { addr: hook.clone() }, &[]).is_ok();
            check("unhook-iff-dao", ok == dao && hooks(&k).is_empty() == dao, "someone else than the DAO removed a hook, or the DAO could not");
            if ok {
                let n = k.w.rec(&k.hook).len();
                let m = E::Unstake { amount: Uint128::new(1) };
                k.w.exec("alice", &st, &m, &[]).unwrap();
                check("unhooked-silent", k.w.rec(&k.hook).len() == n, "a removed hook is still called");
                return;
            }
        }
        1 => {
            let ok = k.w.exec(sender, &st, &E::AddHook { addr: "newhook".into() }, &[]).is_ok();
            check("hook-iff-dao", ok == dao && (hooks(&k).len() == 2) == dao, "someone else than the DAO added a hook, or the DAO could not");
            return;
        }
        2 => {
            // a stake announced by someone who is not the token
            let m = E::Receive(cw20::Cw20ReceiveMsg { sender: "alice".into(), amount: Uint128::new(sym::u128("forged", 1, MAXP)), msg: to_json_binary(&cw20_stake::msg::ReceiveMsg::Stake {}).unwrap() });
            let ok = k.w.exec(sender, &st, &m, &[]).is_ok();
            check("forged-stake-refused", !ok, "a stake was booked without tokens");
        }
        3 => {
            // tokens of another kind
            let y = sym::u128("other", 1, MAXP);
            let ok = if native {
                k.w.mint("alice", y, "uother");
                let m = dao_voting_token_staked::msg::ExecuteMsg::Stake {};
                k.w.exec("alice", &st, &m, &coins(y, "uother")).is_ok()
            } else {
                let t = k.w.new_cw20(&[("alice", y)]);
                let m = cw20::Cw20ExecuteMsg::Send { contract: st.to_string(), amount: Uint128::new(y), msg: to_json_binary(&cw20_stake::msg::ReceiveMsg::Stake {}).unwrap() };
                k.w.exec("alice", &t, &m, &[]).is_ok()
            };
            check("foreign-stake-refused", !ok, "tokens of another kind were staked");
        }
        _ => {
            // as many claims as allowed, and one more
            for _ in 0..100 {
                k.give(0, 1);
                k.stake(0, 1);
                k.unstake(0, 1);
            }
            let ok = k.w.exec("alice", &st, &E::Unstake { amount: Uint128::new(1) }, &[]).is_ok();
            check("claims-limited", !ok, "more claims than can be handled were made");
            k.w.advance(1, 100);
            let ok = k.w.exec("alice", &st, &E::Claim {}, &[]).is_ok();
            check("many-claims-paid", ok, "claims could not be paid");
            let bal = if native { k.w.bal("alice", "ustake") } else { k.w.cw20(&k.token, "alice") };
            check_eq("many-claims-amount", bal, 100u128, "claims were not paid in full");
            return;
        }
    }
    k.next_block(1);
    k.all();
}
/// several claims, each due in its own time, whatever the waiting time is changed to
fn claims(native: bool) {
    let mut k = Stk::new(native, Some(sym::u64("duration", 1, TMAX)));
    let a = sym::u128("alice", 1, MAXP);
    k.give(0, a);
    k.stake(0, a);
    let b = sym::u128("bob", 1, MAXP);
    k.give(1, b);
    k.stake(1, b);
    k.next_block(0);
    let two = sym::choose("again", 3);
    k.unstake(0, sym::u128("unstake0", 1, MAXP));
    k.next_block(sym::u64("wait0", 0, TMAX));
    if two == 1 {
        let d = sym::u64("duration1", 1, TMAX);
        let m = cw20_stake::msg::ExecuteMsg::UpdateConfig { duration: Some(Duration::Time(d)) };
        k.w.exec(k.d.core.to_string(), &k.st.clone(), &m, &[]).unwrap();
        k.duration = Some(d);
    }
    k.unstake((two == 2) as usize, sym::u128("unstake1", 1, MAXP));
    k.all();
    k.next_block(sym::u64("wait1", 0, TMAX));
    k.claim(0);
    k.all();
    k.next_block(sym::u64("wait2", 0, TMAX));
    k.claim((two == 2) as usize);
    k.all();
}
fn claims20() {
    claims(false)
}
fn claims_native() {
    claims(true)
}
/// a waiting time counted in blocks
fn blocks(native: bool) {
    let mut k = Stk::lasting(native, Some(Duration::Height(3)));
    let x = [sym::u128("first", 1, MAXP), sym::u128("second", 1, MAXP)];
    let all = x[0] + x[1];
    k.give(0, all);
    k.stake(0, all);
    let h0 = k.w.block().height;
    let m = |x: u128| cw20_stake::msg::ExecuteMsg::Unstake { amount: Uint128::new(x) };
    let mut made = vec![];
    let mut paid = z(0);
    for i in 0..2 {
        k.w.exec("alice", &k.st.clone(), &m(x[i]), &[]).unwrap();
        made.push((Z::from(x[i]), k.w.block().height + 3));
        k.w.advance(sym::choose(&format!("blocks{i}"), 5) as u64, sym::u64(&format!("wait{i}"), 0, TMAX));
        let now = k.w.block().height;
        let c: cw_controllers::ClaimsResponse = k.w.q(&k.st, &cw20_stake::msg::QueryMsg::Claims { address: "alice".into() });
        check("claims-listed", c.claims.len() == made.len(), "a claim is missing or doubled");
        for (c, (x, at)) in c.claims.iter().zip(&made) {
            check_eq("claims", c.amount.u128(), x, "the claims listed are not those made");
            check("release", c.release_at == Expiration::AtHeight(*at), "a claim is released at a wrong height");
        }
        let due: Vec<_> = made.iter().filter(|m| now >= m.1).cloned().collect();
        made.retain(|m| now < m.1);
        let ok = k.w.exec("alice", &k.st.clone(), &cw20_stake::msg::ExecuteMsg::Claim {}, &[]).is_ok();
        check("claim-iff-due", ok == !due.is_empty(), "a claim was paid before its time, or refused when due");
        for (x, _) in due {
            paid = paid + x;
            cover("claimed");
        }
        let bal = if native { k.w.bal("alice", "ustake") } else { k.w.cw20(&k.token, "alice") };
        check_eq("balance", bal, &paid, "tokens were not paid out as due");
    }
    check("power-then", k.power("alice", Some(h0)) == 0, "a stake counted at once");
}
fn blocks20() {
    blocks(false)
}
fn blocks_native() {
    blocks(true)
}
fn stake20_more() {
    let mut k = start(false);
    let a = sym::u128("alice", 1, MAXP);
    k.give(0, a);
    k.stake(0, a);
    k.next_block(0);
    let f = sym::u128("funds", 0, MAXP);
    if f > 0 {
        k.give(1, f);
        k.fund(1, f);
    }
    for i in 0..3 {
        k.step(i, &[0, 1, 2, 3, 4]);
    }
    k.next_block(1);
    k.all();
}
/// without gains, so that a unit of stake is a token
fn stake20_plain() {
    let mut k = start(false);
    for i in 0..4 {
        k.step(i, &[0, 1, 2, 3]);
    }
    k.next_block(1);
    k.all();
}
fn native(n: usize) {
    let mut k = start(true);
    let a = sym::u128("alice", 1, MAXP);
    k.give(0, a);
    k.stake(0, a);
    for i in 0..n {
        k.step(i, &[0, 1, 2, 3, 5]);
    }
    k.next_block(1);
    k.all();
}
fn native3() {
    native(3)
}
fn native4() {
    native(4)
}
pub const ALL: &[sym::Scenario] = &[
    sym::Scenario { prop: "C11", name: "stake_gains", bounds: "two stakers, gains before or between, two further actions out of staking, unstaking, claiming, funding, changing the waiting time; amounts to 2^118, times to 10^9 s", covers: &["unstaked", "claimed", "funded", "claim-made"], run: stake20 },
    sym::Scenario { prop: "C11", name: "stake_plain", bounds: "four actions out of staking, unstaking, claiming and a new block by two stakers; amounts to 2^118, times to 10^9 s", covers: &["unstaked", "claimed", "claim-made"], run: stake20_plain },
    sym::Scenario { prop: "C11", name: "stake_authority", bounds: "hooks, forged and foreign stakes, the limit on claims, by staker, DAO and another contract; amounts to 2^118", covers: &[], run: authority20 },
    sym::Scenario { prop: "C11", name: "stake_claims", bounds: "two stakers, two unstakings by one or both, the waiting time changed between or not, claims between and after; amounts to 2^118, times to 10^9 s", covers: &["unstaked", "claimed", "claim-made"], run: claims20 },
    sym::Scenario { prop: "C11", name: "stake_blocks", bounds: "a waiting time of three blocks, two unstakings, each followed by up to four blocks and a claim; amounts to 2^118", covers: &["claimed"], run: blocks20 },
    sym::Scenario { prop: "C12", name: "native_claims", bounds: "two stakers, two unstakings by one or both, the waiting time changed between or not, claims between and after; amounts to 2^118, times to 10^9 s", covers: &["unstaked", "claimed", "claim-made"], run: claims_native },
    sym::Scenario { prop: "C12", name: "native_blocks", bounds: "a waiting time of three blocks, two unstakings, each followed by up to four blocks and a claim; amounts to 2^118", covers: &["claimed"], run: blocks_native },
    sym::Scenario { prop: "C12", name: "native_authority", bounds: "hooks, forged and foreign stakes, the limit on claims, by staker, DAO and another contract; amounts to 2^118", covers: &[], run: authority_native },
    sym::Scenario { prop: "C11+", name: "stake_gains_more", bounds: "a stake with gains, then three actions", covers: &["unstaked", "claimed", "claim-made"], run: stake20_more },
    sym::Scenario { prop: "C12", name: "native", bounds: "a stake, then three actions out of staking, unstaking, claiming, a new block, changing the waiting time; amounts to 2^118, times to 10^9 s", covers: &["unstaked", "claimed", "claim-made"], run: native3 },
    sym::Scenario { prop: "C12+", name: "native_more", bounds: "four actions", covers: &["unstaked", "claimed", "claim-made"], run: native4 },
];
