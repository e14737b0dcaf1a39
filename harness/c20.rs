//! Payments that vest over time (C20), and what is staked where (C21).
use crate::common::*;
use crate::stubs::*;
use cosmwasm_std::*;
use cw_denom::UncheckedDenom;
use cw_vesting::msg as m;
use cw_vesting::vesting::{Schedule, Status};
use m::ExecuteMsg as E;

const MAXP: u128 = 1 << 90;
const TMAX: u64 = 1_000_000_000;

fn z(v: u128) -> Z {
    Z::from(v)
}
#[derive(Clone)]
enum Plan {
    Even(u64),
    Steps(Vec<(u64, u128)>),
}
struct V {
    w: W,
    v: Addr,
    token: Option<Addr>,
    denom: &'static str,
    plan: Plan,
    total: Z,
    /// seconds, from T0
    start: Z,
    now: Z,
    // model
    funded: bool,
    stopped: Option<Z>,
    got: Z,
    back: Z,
    slashed: Z,
    owed: Z,
    left: Z,
    /// bonded or unbonding
    staked: Z,
    /// tokens sent by nobody's plan
    owner: bool,
}
fn msg_of(total: u128, denom: UncheckedDenom, plan: &Plan, start: Option<u64>, owner: bool) -> m::InstantiateMsg {
    let (schedule, dur) = match plan {
        Plan::Even(d) => (Schedule::SaturatingLinear, *d),
        Plan::Steps(s) => (Schedule::PiecewiseLinear(s.iter().map(|(t, a)| (*t, Uint128::new(*a))).collect()), s.last().map_or(1, |s| s.0)),
    };
    m::InstantiateMsg {
        owner: owner.then(|| "owner".into()),
        recipient: "vestee".into(),
        title: "pay".into(),
        description: None,
        total: Uint128::new(total),
        denom,
        schedule,
        start_time: start.map(Timestamp::from_seconds),
        vesting_duration_seconds: dur,
        unbonding_duration_seconds: UNBONDING,
    }
}
impl V {
    /// a funded payment; start in seconds after T0 - past
    fn new(kind: u32, total: u128, plan: Plan, start: Option<(u64, u64)>, owner: bool) -> R<V> {
        let mut w = W::new();
        let c = code!(w, cw_vesting::contract);
        let token = (kind == 2).then(|| w.new_cw20(&[]));
        let denom = if kind == 0 { BONDED } else { "ucoin" };
        let d = match &token {
            Some(t) => UncheckedDenom::Cw20(t.to_string()),
            None => UncheckedDenom::Native(denom.into()),
        };
        let st = start.map(|(a, p)| T0 - p + a);
        let i = msg_of(total, d, &plan, st, owner);
        let funds = if kind < 2 { coins(total, denom) } else { vec![] };
        if kind < 2 {
            w.mint("funder", total, denom);
        }
        let v = w.inst_full(c, "funder", &i, &funds, None)?;
        let start = start.map_or(z(0), |(a, p)| Z::from(a) - Z::from(p));
        let mut v = V {
            w, v, token, denom, plan, total: z(total), start, now: z(0), funded: kind < 2, stopped: None, got: z(0), back: z(0),
            slashed: z(0), owed: z(0), left: z(0), staked: z(0), owner,
        };
        if kind == 2 {
            v.fund(total, "vest_funder");
            v.funded = true;
        }
        Ok(v)
    }
    fn fund(&mut self, x: u128, from: &str) -> bool {
        let t = self.token.clone().unwrap();
        self.w.exec("minter", &t, &cw20::Cw20ExecuteMsg::Mint { recipient: from.into(), amount: Uint128::new(x) }, &[]).unwrap();
        let s = cw20::Cw20ExecuteMsg::Send { contract: self.v.to_string(), amount: Uint128::new(x), msg: to_json_binary(&m::ReceiveMsg::Fund {}).unwrap() };
        self.w.exec(from, &t, &s, &[]).is_ok()
    }
    fn exec(&mut self, from: &str, e: &E) -> bool {
        self.w.exec(from, &self.v.clone(), e, &[]).is_ok()
    }
    fn wait(&mut self, s: u64) {
        self.w.advance(1, s);
        // what has unbonded is paid when time moves on
        self.w.advance(0, 0);
        self.now = &self.now + Z::from(s);
        self.sync();
    }
    fn bal(&self, a: &str) -> u128 {
        match &self.token {
            Some(t) => self.w.cw20(t, a),
            None => self.w.bal(a, self.denom),
        }
    }
    /// what the plan has vested by now
    fn vested(&self) -> Z {
        if let Some(v) = &self.stopped {
            return v.clone();
        }
        if self.now.le(&self.start) {
            return z(0);
        }
        let x = &self.now - &self.start;
        match &self.plan {
            Plan::Even(d) => {
                if x.gt(&Z::from(*d)) {
                    self.total.clone()
                } else {
                    (&self.total * &x).div(&Z::from(*d))
                }
            }
            Plan::Steps(s) => {
                let mut v = z(0);
                for p in s.windows(2) {
                    let (a, b) = (p[0], p[1]);
                    if x.ge(&Z::from(b.0)) {
                        v = z(b.1);
                    } else if x.gt(&Z::from(a.0)) {
                        v = z(a.1) + ((z(b.1) - z(a.1)) * (&x - &Z::from(a.0))).div(&(Z::from(b.0) - Z::from(a.0)));
                    }
                }
                v
            }
        }
    }
    fn free(&self) -> Z {
        &self.total - &self.got - &self.back - &self.staked - &self.slashed
    }
    fn less(a: Z, b: &Z) -> Z {
        if a.le(b) { z(0) } else { a - b }
    }
    fn due(&self) -> Z {
        if !self.funded {
            return z(0);
        }
        let owed = if self.stopped.is_some() { self.owed.clone() } else { V::less(&self.vested() - &self.got, &self.slashed) };
        owed.min(&self.free())
    }
    fn distribute(&mut self, from: &str, amount: Option<u128>) {
        let due = self.due();
        let ok = self.exec(from, &E::Distribute { amount: amount.map(Uint128::new) });
        let want = amount.map_or(due.clone(), z);
        let may = want.le(&due) && !want.is_zero();
        check("paid-iff-vested", ok == may, "more than has vested was paid out, or what has vested was refused");
        if ok {
            cover("distributed");
            self.got = &self.got + &want;
            if self.stopped.is_some() {
                self.owed = &self.owed - &want;
            }
        }
    }
    fn cancel(&mut self, from: &str) {
        let (due, v, free) = (self.due(), self.vested(), self.free());
        let ok = self.exec(from, &E::Cancel {});
        check("cancel-iff-owner", ok == (from == "owner" && self.owner && self.stopped.is_none()), "someone else than the owner cancelled, or the owner could not");
        if !ok {
            return;
        }
        cover("cancelled");
        let owed = V::less(&v - &self.got, &self.slashed);
        self.got = &self.got + &due;
        self.back = &self.back + (&free - &due);
        self.owed = owed - &due;
        self.left = &self.staked - &self.owed;
        self.stopped = Some(v);
    }
    fn withdraw(&mut self, from: &str, amount: Option<u128>) {
        let due = if self.stopped.is_some() { self.left.min(&self.free()) } else { z(0) };
        let ok = self.exec(from, &E::WithdrawCanceledPayment { amount: amount.map(Uint128::new) });
        let want = amount.map_or(due.clone(), z);
        let may = want.le(&due) && !want.is_zero();
        check("returned-iff-left", ok == may, "more was returned to the owner than is the owner's, or that was refused");
        if ok {
            cover("returned");
            self.back = &self.back + &want;
            self.left = &self.left - &want;
        }
    }
    // staking
    fn bonded(&self, v: &str) -> Uint128 {
        let mut b = Uint128::zero();
        let a = self.v.to_string();
        self.w.app.read_module(|_, _, s| b = *Stakes::load(s).of(&a, v));
        b
    }
    fn stakes(&mut self, f: impl FnOnce(&mut Stakes, &str)) {
        let a = self.v.to_string();
        self.w.app.init_modules(|_, _, s| {
            let mut k = Stakes::load(s);
            f(&mut k, &a);
            k.save(s);
        })
    }
    fn sync(&mut self) {
        let a = self.v.to_string();
        let mut t = z(0);
        self.w.app.read_module(|_, _, s| {
            let s = Stakes::load(s);
            for b in s.bonded.iter().filter(|b| b.0 == a) {
                t = &t + z(b.2.u128());
            }
            for b in s.unbonding.iter().filter(|b| b.0 == a) {
                t = &t + z(b.2.u128());
            }
        });
        self.staked = t;
    }
    fn delegate(&mut self, from: &str, v: &str, x: u128) {
        let free = self.free();
        let ok = self.exec(from, &E::Delegate { validator: v.into(), amount: Uint128::new(x) });
        let may = from == "vestee" && self.stopped.is_none() && self.funded && self.denom == BONDED && z(x).le(&free) && !z(x).is_zero();
        check("delegate-iff-vestee", ok == may, "tokens were staked by someone else than the recipient, or beyond those there, or refused otherwise");
        if ok {
            cover("staked");
        }
        self.sync();
    }
    fn undelegate(&mut self, from: &str, v: &str, x: u128) {
        let b = self.bonded(v);
        let ok = self.exec(from, &E::Undelegate { validator: v.into(), amount: Uint128::new(x) });
        let may = (from == "vestee" || self.stopped.is_some()) && z(x).le(&z(b.u128())) && !z(x).is_zero();
        check("undelegate-iff-allowed", ok == may, "tokens were unstaked by someone not entitled to, or beyond those staked, or refused otherwise");
        if ok {
            cover("unstaked");
        }
    }
    fn redelegate(&mut self, from: &str, v: &str, to: &str, x: u128) {
        let b = self.bonded(v);
        let ok = self.exec(from, &E::Redelegate { src_validator: v.into(), dst_validator: to.into(), amount: Uint128::new(x) });
        let may = from == "vestee" && self.stopped.is_none() && z(x).le(&z(b.u128())) && !z(x).is_zero();
        check("redelegate-iff-vestee", ok == may, "a stake was moved by someone else than the recipient, or beyond it, or refused otherwise");
    }
    /// a slash, and the owner making a note of it
    fn slash(&mut self, v: &str, x: u128, unbonding: bool) {
        let mut hit = false;
        self.stakes(|s, a| {
            if !unbonding {
                let b = s.of(a, v);
                sym::assume_le(z(x), z(b.u128()));
                *b -= Uint128::new(x);
                hit = true;
            } else if let Some(u) = s.unbonding.iter_mut().find(|u| u.0 == a && u.1 == v) {
                sym::assume_le(z(x), z(u.2.u128()));
                u.2 -= Uint128::new(x);
                hit = true;
            }
        });
        if !hit {
            return;
        }
        let time = self.w.block().time;
        let ok = self.exec("owner", &E::RegisterSlash { validator: v.into(), time, amount: Uint128::new(x), during_unbonding: unbonding });
        check("slash-noted", ok, "a slash could not be registered");
        cover("slashed");
        if self.stopped.is_some() {
            // the owner bears it first
            if z(x).le(&self.left) {
                self.left = &self.left - z(x);
            } else {
                self.owed = &self.owed - (z(x) - &self.left);
                self.left = z(0);
            }
        }
        self.slashed = &self.slashed + z(x);
        self.sync();
    }
    fn all(&mut self) {
        let got = |v: &V, a: &str| v.bal(a);
        self.sync();
        check_eq("vestee-paid", got(self, "vestee"), &self.got, "the recipient was not paid exactly what had vested");
        check_eq("owner-paid", got(self, "owner"), &self.back, "the owner did not get back exactly what was left");
        check_eq("held", got(self, self.v.clone().as_str()), self.free(), "tokens of the payment went elsewhere");
        check_le("never-more", &self.got, V::less(self.vested(), &z(0)), "the recipient was paid more than has vested");
        let v: Uint128 = self.w.q(&self.v, &m::QueryMsg::Vested { t: None });
        check_eq("vested", v.u128(), self.vested(), "what has vested is misreported");
        let d: Uint128 = self.w.q(&self.v, &m::QueryMsg::Distributable { t: None });
        check_eq("distributable", d.u128(), self.due(), "what can be distributed is misreported");
        let t: Uint128 = self.w.q(&self.v, &m::QueryMsg::TotalToVest {});
        check_eq("total", t.u128(), self.stopped.clone().unwrap_or(self.total.clone()), "what will vest in the end is misreported");
        let t = self.w.block().time;
        let s: Uint128 = self.w.q(&self.v, &m::QueryMsg::Stake(cw_stake_tracker::StakeTrackerQuery::TotalStaked { t }));
        check_eq("staked", s.u128(), &self.staked, "what is staked is misreported");
        let i: cw_vesting::vesting::Vest = self.w.q(&self.v, &m::QueryMsg::Info {});
        check("status", matches!((&i.status, self.funded, self.stopped.is_some()), (Status::Unfunded, false, _) | (Status::Funded, true, false) | (Status::Canceled { .. }, _, true)), "the state of the payment is misreported");
    }
}
/// when it begins: at once, later or earlier than now
fn start_of(name: &str) -> Option<(u64, u64)> {
    match sym::choose(name, 3) {
        0 => None,
        1 => Some((700, 0)),
        _ => Some((0, 700)),
    }
}
/// for any plan and time, how much has vested
fn vest_curve() {
    let past = flag("past");
    let d = sym::u64("duration", 0, TMAX);
    let by = sym::u64("by", 0, TMAX);
    let start = if past { (0, by) } else { (by, 0) };
    let total = sym::u128("total", 0, MAXP);
    let v = V::new(1, total, Plan::Even(d), Some(start), true);
    let ends_later = d > 0 && !z(total).is_zero() && (Z::from(start.0) + Z::from(d)).gt(&Z::from(by * past as u64));
    check("made-iff-sound", v.is_ok() == ends_later, "a payment of nothing or that is over at once was accepted, or another refused");
    let Ok(v) = v else { return };
    let at = |t: u64| {
        let x: Uint128 = v.w.q(&v.v, &m::QueryMsg::Vested { t: Some(Timestamp::from_seconds(T0 - TMAX + t)) });
        x.u128()
    };
    let t1 = sym::u64("t1", 0, 4 * TMAX);
    // from the beginning
    let x = Z::from(t1) - Z::from(TMAX) - &v.start;
    let want = if x.le(&z(0)) {
        z(0)
    } else if x.ge(&Z::from(d)) {
        z(total)
    } else {
        cover("part");
        (z(total) * x).div(&Z::from(d))
    };
    let v1 = at(t1);
    check_eq("in-proportion", v1, want, "what has vested is not in proportion to the time");
    check_le("at-most-all", v1, total, "more than all has vested");
}
fn request(name: &str) -> Option<u128> {
    flag(name).then(|| sym::u128(&format!("{name}_amount"), 0, MAXP))
}
fn vest() {
    let kind = pick("token", &[1, 2]);
    let d = pick("duration", &[1, 1000]);
    let start = start_of("start");
    let total = sym::u128("total", 1, MAXP);
    let v = V::new(kind, total, Plan::Even(d), start, true);
    let Ok(mut v) = v else { return };
    v.wait(pick("wait1", &[0, 333, 1700]));
    v.distribute("anyone", request("request1"));
    v.wait(pick("wait2", &[1, 500]));
    match sym::choose("action", 3) {
        0 => v.distribute("vestee", request("request2")),
        1 => {
            v.cancel(if flag("by_owner") { "owner" } else { "vestee" });
            v.wait(pick("wait3", &[500]));
            v.distribute("vestee", None);
            v.withdraw("anyone", None);
        }
        _ => v.withdraw("owner", request("request2")),
    }
    v.all();
}
fn vest_steps() {
    let n = pick("steps", &[1, 2, 3]);
    let mut s = vec![];
    let total = sym::u128("total", 1, MAXP);
    for i in 0..n {
        let t = pick(&format!("at{i}"), &[[1, 0], [100, 1], [1000, 100]][i]);
        s.push((t, if i + 1 == n && flag("whole") { total } else { sym::u128(&format!("amount{i}"), 0, MAXP) }));
    }
    let plan = Plan::Steps(s.clone());
    let mut sound = n > 1 && z(s[0].1).is_zero() && z(s[n - 1].1).is(&z(total)) && s[0].0 > 0;
    for p in s.windows(2) {
        sound = sound && p[0].0 < p[1].0 && z(p[0].1).le(&z(p[1].1));
    }
    let v = V::new(1, total, plan, None, true);
    if s[0].0 > 0 {
        // a first step at zero may be refused
        check("plan-iff-sound", v.is_ok() == sound, "a plan that does not rise from nothing to all was accepted, or a sound one refused");
    }
    let Ok(mut v) = v else { return };
    cover("sound");
    v.wait(pick("wait1", &[0, 50, 700]));
    v.distribute("anyone", None);
    v.wait(pick("wait2", &[51, 1000]));
    if flag("cancel") {
        v.cancel("owner")
    } else {
        v.distribute("anyone", request("request"))
    }
    v.all();
}
fn vest_authority() {
    let kind = sym::choose("token", 3);
    let owner = flag("owned");
    let total = sym::u128("total", 1, MAXP);
    let mut v = V::new(kind, total, Plan::Even(1000), None, owner).unwrap();
    v.wait(500);
    let from = pick("from", &["owner", "vestee", "anyone"]);
    let stop = flag("cancelled");
    let x = sym::u128("amount", 1, MAXP);
    match sym::choose("action", 8) {
        0 => v.cancel(from),
        1 => {
            if stop {
                v.cancel("owner")
            }
            v.delegate(from, "val1", x)
        }
        2 => {
            if kind != 0 {
                return;
            }
            let y = sym::u128("staked", 1, MAXP);
            sym::assume_le(z(y), z(total));
            v.delegate("vestee", "val1", y);
            if stop {
                v.cancel("owner")
            }
            if flag("move") {
                v.redelegate(from, "val1", "val2", x)
            } else {
                v.undelegate(from, "val1", x)
            }
        }
        3 => {
            if stop {
                v.cancel("owner")
            }
            let to = pick("to", &["vault", "itself"]);
            let a = if to == "itself" { v.v.to_string() } else { to.into() };
            let ok = v.exec(from, &E::SetWithdrawAddress { address: a });
            let may = to != "itself" && from == if v.stopped.is_some() { "owner" } else { "vestee" };
            check("yield-iff-entitled", ok == may, "where the rewards of staking go was set by someone not entitled to, or to the payment itself");
        }
        4 => {
            // rewards go to the recipient, and after the end to the owner
            if kind != 0 {
                return;
            }
            if stop {
                v.cancel("owner")
            }
            check("yield", v.exec("anyone", &E::WithdrawDelegatorReward { validator: "val1".into() }), "rewards of staking could not be withdrawn");
            let to = if v.stopped.is_some() { "owner" } else { "vestee" };
            check("yield-to", v.w.bal(to, "uyield") == 1, "rewards of staking went to someone not entitled to them");
        }
        5 => {
            if kind != 0 {
                return;
            }
            let y = sym::u128("staked", 1, MAXP);
            sym::assume_le(z(y), z(total));
            v.delegate("vestee", "val1", y);
            let late = flag("future");
            let t = v.w.block().time.plus_seconds(late as u64);
            sym::assume_le(z(x), z(y));
            if from == "owner" && owner && !late {
                v.slash("val1", x, false);
                return v.all();
            }
            let ok = v.exec(from, &E::RegisterSlash { validator: "val1".into(), time: t, amount: Uint128::new(x), during_unbonding: false });
            check("slash-iff-owner", !ok, "a slash was registered by someone else than the owner, or in the future");
        }
        6 => {
            // funded once, with exactly the sum and token promised
            if kind != 2 {
                return;
            }
            check("funded-once", !v.fund(total, "anyone"), "a payment was funded twice");
        }
        _ => {
            if stop {
                v.cancel("owner")
            }
            let a = cw_ownable::Action::TransferOwnership { new_owner: "heir".into(), expiry: None };
            let ok = v.exec(from, &E::UpdateOwnership(a));
            check("transfer-iff-owner", ok == (owner && from == "owner"), "someone else than the owner gave the payment away");
            if ok {
                check("heir-accepts", v.exec("heir", &E::UpdateOwnership(cw_ownable::Action::AcceptOwnership)), "the new owner could not accept");
                check("old-owner-out", !v.exec("owner", &E::Cancel {}), "the former owner can still cancel");
            }
        }
    }
    v.all();
}
/// how a payment comes to be funded
fn vest_funding() {
    let total = sym::u128("total", 1, MAXP);
    let paid = sym::u128("paid", 1, MAXP);
    let mut w = W::new();
    let c = code!(w, cw_vesting::contract);
    let p = Plan::Even(1000);
    match sym::choose("token", 3) {
        0 => {
            w.mint("funder", paid, "ucoin");
            let r = w.inst_full(c, "funder", &msg_of(total, UncheckedDenom::Native("ucoin".into()), &p, None, true), &coins(paid, "ucoin"), None);
            check("funded-exactly", r.is_ok() == z(paid).is(&z(total)), "a payment was accepted with another sum than promised, or refused with it");
        }
        1 => {
            w.mint("funder", paid, "uother");
            let r = w.inst_full(c, "funder", &msg_of(total, UncheckedDenom::Native("ucoin".into()), &p, None, true), &coins(paid, "uother"), None);
            check("funded-in-kind", r.is_err(), "a payment was accepted in another token than promised");
        }
        _ => {
            let token = w.new_cw20(&[("funder", paid)]);
            let other = w.new_cw20(&[("funder", total)]);
            let v = w.inst(c, "funder", &msg_of(total, UncheckedDenom::Cw20(token.to_string()), &p, None, true)).unwrap();
            w.advance(1, 400);
            check("unfunded-unpaid", w.exec("vestee", &v, &E::Distribute { amount: None }, &[]).is_err(), "an unfunded payment paid out");
            let d: Uint128 = w.q(&v, &m::QueryMsg::Distributable { t: None });
            check("unfunded-none", d.is_zero(), "an unfunded payment promises tokens");
            let s = |x: u128| cw20::Cw20ExecuteMsg::Send { contract: v.to_string(), amount: Uint128::new(x), msg: to_json_binary(&m::ReceiveMsg::Fund {}).unwrap() };
            check("funded-in-kind", w.exec("funder", &other, &s(total), &[]).is_err(), "a payment was accepted in another token than promised");
            let forged = E::Receive(cw20::Cw20ReceiveMsg { sender: "funder".into(), amount: Uint128::new(total), msg: to_json_binary(&m::ReceiveMsg::Fund {}).unwrap() });
            check("forged-funds-refused", w.exec("funder", &v, &forged, &[]).is_err(), "a payment was marked as funded without tokens");
            let ok = w.exec("funder", &token, &s(paid), &[]).is_ok();
            check("funded-exactly", ok == z(paid).is(&z(total)), "a payment was accepted with another sum than promised, or refused with it");
            if ok {
                cover("funded");
                w.advance(1, 100);
                check("funded-paid", w.exec("anyone", &v, &E::Distribute { amount: None }, &[]).is_ok() == !(z(total).div(&z(2))).is_zero(), "what has vested was not paid");
                check_eq("half", w.cw20(&token, "vestee"), z(total).div(&z(2)), "half way, not half was paid");
            }
        }
    }
}
const VALS: [&str; 2] = ["val1", "val2"];
fn staked_with(n: usize, cancel_at: &[usize], waits: &[u64]) {
    let total = sym::u128("total", 1, MAXP);
    let mut v = V::new(0, total, Plan::Even(1000), None, true).unwrap();
    let c = pick("cancel", cancel_at);
    v.delegate("vestee", "val1", sym::u128("first", 1, MAXP));
    v.wait(pick("wait", waits));
    for k in 0..n {
        let nm = |s: &str| format!("{s}{k}");
        if k == c {
            v.cancel("owner");
        }
        let kinds: &[u32] = if v.stopped.is_some() { &[1, 2, 4, 5] } else { &[0, 1, 2, 4] };
        match pick(&nm("action"), kinds) {
            0 => v.delegate("vestee", pick(&nm("validator"), &VALS), sym::u128(&nm("stake"), 1, MAXP)),
            1 => v.undelegate("vestee", "val1", sym::u128(&nm("unstake"), 1, MAXP)),
            2 => v.distribute("vestee", None),
            4 => v.slash("val1", sym::u128(&nm("slash"), 1, MAXP), false),
            _ => v.withdraw("owner", None),
        }
        v.wait(pick(&nm("wait"), waits));
    }
    v.sync();
    v.all();
    // everything comes back in the end
    let vals = VALS;
    for a in vals {
        let b = v.bonded(a);
        if !b.is_zero() {
            v.undelegate("vestee", a, b.u128());
        }
    }
    v.wait(2000);
    v.sync();
    v.distribute("vestee", None);
    v.withdraw("owner", None);
    v.all();
    let rest = v.free();
    check("paid-out", rest.is_zero() || (v.stopped.is_none() && v.slashed.gt(&z(0))), "tokens are stuck in the payment after all is due");
}
fn vest_staked() {
    staked_with(2, &[1, 9], &[99, 300])
}
fn vest_staked_more() {
    staked_with(3, &[1, 2, 9], &[99])
}
/// tokens slashed while they are unbonding
fn vest_unbonding() {
    let total = sym::u128("total", 1, MAXP);
    let mut v = V::new(0, total, Plan::Even(1000), None, true).unwrap();
    v.delegate("vestee", "val1", sym::u128("first", 1, MAXP));
    v.wait(300);
    v.undelegate("vestee", "val1", sym::u128("unstake", 1, MAXP));
    let c = sym::choose("cancel", 3);
    v.wait(50);
    if c == 0 {
        v.cancel("owner");
    }
    v.slash("val1", sym::u128("slash", 1, MAXP), true);
    if c == 1 {
        v.cancel("owner");
    }
    v.all();
    v.wait(50);
    v.sync();
    v.distribute("vestee", None);
    v.withdraw("owner", None);
    v.all();
}

// ---- what is staked where ----
struct Ev {
    at: u64,
    v: usize,
    amount: Z,
}
fn tracker_with(n: usize, vals: &[usize], dts: &[u64]) {
    use cw_stake_tracker::StakeTracker;
    let mut s = cosmwasm_std::testing::MockStorage::new();
    let t = StakeTracker::new("s", "v", "c");
    let name = |v: usize| ["val1", "val2", "val3"][v].to_string();
    let mut ev: Vec<Ev> = vec![];
    // can be unstaked, by validator
    let mut bonded = [z(0), z(0), z(0)];
    let mut now = 1000u64;
    let ts = Timestamp::from_seconds;
    let x0 = sym::u128("first", 1, MAXP);
    t.on_delegate(&mut s, ts(now), name(0), Uint128::new(x0)).unwrap();
    ev.push(Ev { at: now, v: 0, amount: z(x0) });
    bonded[0] = z(x0);
    for k in 0..n {
        let nm = |s: &str| format!("{s}{k}");
        now += pick(&nm("after"), dts);
        let x = sym::u128(&nm("amount"), 1, MAXP);
        let a = sym::choose(&nm("action"), 4);
        let v = pick(&nm("validator"), vals);
        let r = sym::catch(|| match a {
            0 => t.on_delegate(&mut s, ts(now), name(v), Uint128::new(x)),
            _ => {
                sym::assume_le(z(x), &bonded[v]);
                match a {
                    1 => t.on_undelegate(&mut s, ts(now), name(v), Uint128::new(x), UNBONDING),
                    2 => t.on_redelegate(&mut s, ts(now), name(v), name(1 - v), Uint128::new(x)),
                    _ => t.on_bonded_slash(&mut s, ts(now), name(v), Uint128::new(x)),
                }
            }
        });
        check("noted", matches!(r, Ok(Ok(()))), "a change of stake could not be recorded");
        match a {
            0 => {
                bonded[v] = &bonded[v] + z(x);
                ev.push(Ev { at: now, v, amount: z(x) });
            }
            1 => {
                bonded[v] = &bonded[v] - z(x);
                ev.push(Ev { at: now + UNBONDING, v, amount: z(0) - z(x) });
            }
            2 => {
                bonded[v] = &bonded[v] - z(x);
                bonded[1 - v] = &bonded[1 - v] + z(x);
                ev.push(Ev { at: now, v, amount: z(0) - z(x) });
                ev.push(Ev { at: now, v: 1 - v, amount: z(x) });
            }
            _ => {
                bonded[v] = &bonded[v] - z(x);
                ev.push(Ev { at: now, v, amount: z(0) - z(x) });
            }
        }
    }
    let mut times: Vec<u64> = ev.iter().flat_map(|e| [e.at - 1, e.at]).collect();
    times.push(now + 10_000);
    times.sort();
    times.dedup();
    for at in times {
        let mut count = 0u64;
        let mut total = z(0);
        for v in 0..2 {
            let want = ev.iter().filter(|e| e.at <= at && e.v == v).map(|e| e.amount.clone()).sum::<Z>();
            if !want.is_zero() {
                count += 1;
            }
            let got = t.validator_staked(&s, ts(at), name(v)).unwrap();
            check_eq("with-validator", got.u128(), &want, "what is staked with a validator at a time is not the sum of what came and went");
            total = total + want;
        }
        check_eq("total", t.total_staked(&s, ts(at)).unwrap().u128(), total, "what is staked at a time is not the sum over the validators");
        check("count", t.validator_cardinality(&s, ts(at)).unwrap() == count, "the number of validators with a stake at a time is wrong");
    }
}
fn tracker() {
    tracker_with(4, &[0, 1], &[60])
}
fn tracker_more() {
    tracker_with(5, &[0, 1], &[60])
}
fn tracker_apart() {
    tracker_with(3, &[0, 1], &[0, 100])
}
pub const ALL: &[sym::Scenario] = &[
    sym::Scenario {
        prop: "C20",
        name: "vest_curve",
        bounds: "even payments up to 2^90 over up to 10^9 s, beginning up to 10^9 s earlier or later; asked about any time up to 10^9 s before and 3*10^9 s after",
        covers: &["part"],
        run: vest_curve,
    },
    sym::Scenario {
        prop: "C20",
        name: "vest",
        bounds: "native or cw20 payments up to 2^90, even, over 1 or 1000 s, beginning now or 700 s earlier or later; 3 actions of paying any sum, cancelling, returning, 0 to 1700 s apart",
        covers: &["distributed", "cancelled"],
        run: vest,
    },
    sym::Scenario {
        prop: "C20",
        name: "vest_steps",
        bounds: "plans of up to 3 steps at 0 to 1000 s and of up to 2^90 tokens, 2 actions up to 1700 s apart",
        covers: &["sound", "distributed", "cancelled"],
        run: vest_steps,
    },
    sym::Scenario {
        prop: "C20",
        name: "vest_authority",
        bounds: "owner, recipient or anyone tries each action, with or without an owner, cancelled or not, on up to 2^90 tokens",
        covers: &["cancelled", "staked"],
        run: vest_authority,
    },
    sym::Scenario { prop: "C20", name: "vest_funding", bounds: "any sums up to 2^90 promised and paid, native or cw20", covers: &["funded"], run: vest_funding },
    sym::Scenario {
        prop: "C21",
        name: "vest_staked",
        bounds: "up to 2^90 tokens over 1000 s, staked with 2 validators, unbonding in 100 s; 2 actions of staking, unstaking, paying, slashing, returning, 99 or 300 s apart, cancelled before the second or not",
        covers: &["staked", "unstaked", "slashed", "cancelled", "returned"],
        run: vest_staked,
    },
    sym::Scenario { prop: "C21", name: "vest_unbonding", bounds: "as vest_staked, a slash of tokens unbonding, before or after a cancellation", covers: &["slashed", "cancelled", "returned"], run: vest_unbonding },
    sym::Scenario {
        prop: "C21",
        name: "tracker",
        bounds: "2 validators, a stake and 4 further changes of up to 2^90 tokens, 60 s apart, unbonding in 100 s; every time at or just before a change, and later",
        covers: &[],
        run: tracker,
    },
    sym::Scenario { prop: "C21+", name: "vest_staked_more", bounds: "as vest_staked, 3 actions 99 s apart", covers: &["slashed", "cancelled"], run: vest_staked_more },
    sym::Scenario { prop: "C21+", name: "tracker_more", bounds: "as tracker, 5 changes", covers: &[], run: tracker_more },
    sym::Scenario { prop: "C21", name: "tracker_apart", bounds: "as tracker, 3 changes, 0 or 100 s apart", covers: &[], run: tracker_apart },
];
