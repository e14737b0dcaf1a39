//! Voting, execution, veto: the life of a proposal against its model (C04-C06).
use crate::common::*;
use crate::pm::{js::X, same, x, Cfg, Model};
use cosmwasm_std::*;

const MAXP: u128 = 1 << 120;
const TMAX: u64 = 1_000_000_000;

/// Two proposals, powers changing between them; votes of two members and an outsider.
fn votes(multi: bool, steps: u32) {
    let mut w = W::new();
    let mut c = Cfg::new(multi);
    c.revoting = flag("revoting");
    c.period = sym::u64("period", 1, TMAX);
    let d = c.dao(&mut w).unwrap();
    let p1 = [("alice", sym::u128("a1", 1, MAXP)), ("bob", sym::u128("b1", 0, MAXP)), ("rest", sym::u128("rest", 0, MAXP))];
    w.set_powers(&d.vm, &p1);
    c.propose(&mut w, &d, "anyone", vec![], vec![], None).unwrap();
    let t1 = w.block().time.seconds();
    let mut m1 = Model::new(&c, t1, &p1);
    let dt = sym::u64("dt", 0, TMAX);
    w.advance(1, dt);
    let p2 = [("alice", sym::u128("a2", 0, MAXP)), ("bob", p1[1].1), ("rest", 7)];
    w.set_powers(&d.vm, &p2);
    let second = flag("second");
    let mut m2 = None;
    if second {
        let t2 = w.block().time.seconds();
        // the proposer may vote along with proposing
        let auto = flag("auto_vote");
        let r = c.propose(&mut w, &d, "alice", vec![], vec![], if auto { Some(0) } else { None });
        let mut m = Model::new(&c, t2, &p2);
        let ok = !auto || m.vote(t2, "alice", 0);
        check("propose-with-vote", r.is_ok() == ok, "proposing with a vote");
        if ok {
            m2 = Some(m);
        }
    }
    for i in 0..steps {
        let now = w.block().time.seconds();
        let id = if m2.is_some() && flag(&format!("id{i}")) { 2 } else { 1 };
        let m = if id == 2 { m2.as_mut().unwrap() } else { &mut m1 };
        let who = pick(&format!("who{i}"), &["alice", "bob", "out"]);
        let v = if who == "out" { 0 } else { sym::choose(&format!("vote{i}"), if multi { 4 } else { 3 }) };
        let want = m.vote(now, who, v);
        let got = c.vote(&mut w, &d, who, id, v).is_ok();
        if got && m.ballots.len() == 1 && i == 1 {
            cover("revote");
        }
        check("vote-accepted-iff-due", got == want, "a vote was accepted or refused against the rules");
        if got {
            cover("vote-ok");
        } else {
            cover("vote-refused");
        }
        let (m, id) = (if id == 2 { m2.as_ref().unwrap() } else { &m1 }, id);
        let b = c.ballot(&w, &d, id, who);
        let mb = m.ballots.iter().find(|b| b.0 == who);
        check("ballot", b.map(|b| b.0) == mb.map(|b| b.1), "the recorded ballot is not the one cast");
        if let Some(b) = b {
            check_eq("ballot-power", b.1, m.power(who), "the ballot's power is not that at the proposal's creation");
        }
        if i == 0 {
            let k = sym::u64("dt0", 0, TMAX);
            w.advance(1, k);
        }
    }
    same("status", &w, &d, 1, &m1);
    if let Some(m) = &m2 {
        same("status", &w, &d, 2, m);
    }
}
fn votes_single() {
    votes(false, 2)
}
fn votes_multi() {
    votes(true, 2)
}
fn votes_single3() {
    votes(false, 3)
}
fn votes_multi3() {
    votes(true, 3)
}

struct Life {
    w: W,
    d: Dao,
    m: Model,
    rec: Addr,
    other: Addr,
    works: bool,
    amount: u128,
}
impl Life {
    fn now(&self) -> u64 {
        self.w.block().time.seconds()
    }
    /// messages: a transfer out of the treasury, which may hold too little, then a call
    fn new(c: Cfg, powers: &[(&'static str, u128)]) -> Life {
        let mut w = W::new();
        let d = c.dao(&mut w).unwrap();
        w.set_powers(&d.vm, powers);
        let (rec, other) = (w.new_rec(), w.new_rec());
        let (have, amount) = (sym::u128("treasury", 1, MAXP), sym::u128("amount", 1, MAXP));
        w.mint(d.core.as_str(), have, "ujuno");
        let call = |r: &Addr, b: &[u8]| -> CosmosMsg { WasmMsg::Execute { contract_addr: r.to_string(), msg: Binary(b.to_vec()), funds: vec![] }.into() };
        let msgs = vec![
            call(&rec, b"{\"first\":{}}"),
            BankMsg::Send { to_address: "payee".into(), amount: vec![coin(amount, "ujuno")] }.into(),
            call(&rec, b"{\"second\":{}}"),
        ];
        c.propose(&mut w, &d, "anyone", msgs, vec![call(&other, b"{}")], None).unwrap();
        let m = Model::new(&c, w.block().time.seconds(), powers);
        let works = amount <= have;
        Life { w, d, m, rec, other, works, amount }
    }
    fn vote(&mut self, who: &'static str, v: u32) {
        let now = self.now();
        let want = self.m.vote(now, who, v);
        let got = self.m.c.clone().vote(&mut self.w, &self.d, who, 1, v).is_ok();
        check("vote", got == want, "a vote was accepted or refused against the rules");
    }
    fn execute(&mut self, who: &'static str) {
        let now = self.now();
        let winner = if self.m.c.multi {
            let t = self.m.tally();
            if t[1].gt(&t[0]) { 1 } else { 0 }
        } else {
            0
        };
        let works = winner == 1 || self.works;
        let want = self.m.execute(now, who, works);
        let got = x(&mut self.w, &self.d, who, X::Execute { proposal_id: 1 }).is_ok();
        check("executes-iff-due", got == want, "execution was accepted or refused against the rules");
        if got {
            cover(if works { "executed" } else { "execution-failed" });
        } else {
            cover("execute-refused");
        }
        self.effects(winner);
    }
    fn effects(&mut self, winner: u32) {
        let r = self.w.rec(&self.rec);
        let o = self.w.rec(&self.other);
        let paid = self.w.bal("payee", "ujuno");
        sym::observe("paid", paid);
        sym::observe("calls", (r.len() + o.len()) as u128);
        let n = self.m.execs;
        check("executed-at-most-once", n <= 1, "");
        let (w0, w1) = if winner == 0 { (n, 0) } else { (0, n) };
        check("messages-once", r.len() as u32 == 2 * w0 && o.len() as u32 == w1, "the proposal's messages did not run exactly once");
        check_eq("paid-once", paid, if w0 == 1 { self.amount } else { 0 }, "the transfer did not happen exactly once");
        if w0 == 1 {
            check(
                "messages-exact",
                r[0].msg.as_slice() == b"{\"first\":{}}" && r[1].msg.as_slice() == b"{\"second\":{}}" && r.iter().all(|r| r.sender == self.d.core),
                "the messages, their order or their sender changed",
            );
        }
    }
    fn close(&mut self) {
        let now = self.now();
        let want = self.m.close(now);
        let got = x(&mut self.w, &self.d, "anyone", X::Close { proposal_id: 1 }).is_ok();
        check("closes-iff-rejected", got == want, "closing was accepted or refused against the rules");
        if got {
            cover("closed");
        }
    }
    fn veto(&mut self, who: &'static str) {
        let now = self.now();
        let want = self.m.veto(now, who);
        let got = x(&mut self.w, &self.d, who, X::Veto { proposal_id: 1 }).is_ok();
        check("veto-iff-due", got == want, "a veto was accepted or refused against the rules");
        if got {
            cover("vetoed");
        } else {
            cover("veto-refused");
        }
    }
    fn wait(&mut self, n: &str) {
        let dt = sym::u64(n, 0, 3 * TMAX);
        self.w.advance(1, dt);
    }
    fn same(&self) {
        same("status", &self.w, &self.d, 1, &self.m)
    }
}
fn basic(multi: bool) -> Cfg {
    let mut c = Cfg::new(multi);
    c.period = sym::u64("period", 1, TMAX);
    if !multi {
        c.count = Some(sym::u128("count", 1, MAXP));
    }
    c
}
/// Execution and closing: who, when, how often, with what effects.
fn exec(multi: bool, steps: u32) {
    let mut c = basic(multi);
    c.only_members = flag("only_members");
    c.close_on_fail = flag("close_on_fail");
    let powers = [("alice", sym::u128("pa", 1, MAXP)), ("bob", sym::u128("pb", 0, MAXP))];
    let mut l = Life::new(c, &powers);
    let v = sym::choose("v", 3);
    l.vote("alice", v);
    for i in 0..steps {
        if i == 1 {
            // power that comes later gives no say over this proposal
            l.w.advance(1, 0);
            l.w.set_powers(&l.d.vm.clone(), &[("out", 50)]);
        }
        match sym::choose(&format!("act{i}"), 6) {
            0 => l.execute("alice"),
            1 => l.execute("bob"),
            2 => l.execute("out"),
            3 => l.close(),
            4 => l.vote("bob", if multi { 1 } else { 0 }),
            _ => l.wait(&format!("wait{i}")),
        }
        l.same();
    }
    l.effects(if l.m.c.multi && l.m.tally()[1].gt(&l.m.tally()[0]) { 1 } else { 0 });
}
fn exec_single() {
    exec(false, 3)
}
fn exec_multi() {
    exec(true, 3)
}
fn exec_single4() {
    exec(false, 4)
}
fn exec_multi4() {
    exec(true, 4)
}
/// Proposals that try to run again, from inside their own execution.
fn reenter() {
    let multi = flag("multi");
    let mut c = Cfg::new(multi);
    c.close_on_fail = flag("close_on_fail");
    let mut w = W::new();
    let d = c.dao(&mut w).unwrap();
    w.set_powers(&d.vm, &[("alice", 5)]);
    let rec = w.new_rec();
    let call: CosmosMsg = WasmMsg::Execute { contract_addr: rec.to_string(), msg: Binary(b"{}".to_vec()), funds: vec![] }.into();
    let again: CosmosMsg =
        WasmMsg::Execute { contract_addr: d.prop.to_string(), msg: to_json_binary(&X::Execute { proposal_id: 1 }).unwrap(), funds: vec![] }.into();
    c.propose(&mut w, &d, "alice", vec![call, again], vec![], Some(0)).unwrap();
    let r = x(&mut w, &d, "alice", X::Execute { proposal_id: 1 });
    check("reentry-stopped", w.rec(&rec).is_empty(), "messages of a proposal that executes itself took effect");
    check("reentry-result", r.is_ok() == c.close_on_fail, "");
    let _ = x(&mut w, &d, "alice", X::Execute { proposal_id: 1 });
    check("reentry-stopped", w.rec(&rec).is_empty(), "messages of a proposal that executes itself took effect");
    cover("reenter");
}
/// Vetoes and the timelock.
fn veto(multi: bool, steps: u32) {
    let mut c = basic(multi);
    c.only_members = flag("only_members");
    let has = flag("has_veto");
    if has {
        c.veto = Some((sym::u64("timelock", 0, TMAX), flag("early"), flag("before")));
        if flag("has_min") {
            let min = sym::u64("min", 1, TMAX);
            sym::assume_le(min as u128, c.period as u128);
            c.min = Some(min);
        }
    }
    let powers = [("alice", sym::u128("pa", 1, MAXP)), ("bob", sym::u128("pb", 0, MAXP))];
    let mut l = Life::new(c, &powers);
    let v = sym::choose("v", 2);
    l.vote("alice", if multi { v * 2 } else { v });
    for i in 0..steps {
        match sym::choose(&format!("act{i}"), 6) {
            0 => l.execute("alice"),
            1 => l.execute("vetoer"),
            2 => l.veto("vetoer"),
            3 => l.veto("alice"),
            4 => l.close(),
            _ => l.wait(&format!("wait{i}")),
        }
        l.same();
    }
    if matches!(l.m.status, dao_voting::status::Status::Vetoed) {
        // a veto is final
        l.wait("late");
        l.execute("alice");
        l.execute("vetoer");
        l.close();
        l.same();
    }
    l.effects(0);
}
fn veto_single() {
    veto(false, 3)
}
fn veto_multi() {
    veto(true, 3)
}
fn veto_single4() {
    veto(false, 4)
}
fn veto_multi4() {
    veto(true, 4)
}
/// A change of configuration reaches neither open proposals' terms nor anyone but the DAO.
fn config() {
    let multi = flag("multi");
    let mut c = basic(multi);
    c.veto = if flag("veto0") { Some((sym::u64("tl", 1, TMAX), false, false)) } else { None };
    c.revoting = flag("rv0");
    let powers = [("alice", sym::u128("pa", 1, MAXP)), ("bob", sym::u128("pb", 0, MAXP))];
    let mut l = Life::new(c.clone(), &powers);
    let mut n = Cfg::new(multi);
    n.period = 5;
    n.count = Some(1);
    n.revoting = !c.revoting;
    n.veto = match c.veto {
        None => Some((77, true, true)),
        _ => None,
    };
    n.only_members = flag("om");
    let by = pick("by", &["dao", "alice", "vetoer"]);
    let who = if by == "dao" { l.d.core.to_string() } else { by.to_string() };
    let got = n.update(&mut l.w, &who, &l.d);
    check("config-only-by-dao", got.is_ok() == (by == "dao"), "");
    if got.is_ok() {
        // who may execute follows the current configuration; all else is fixed at creation
        l.m.c.only_members = n.only_members;
        cover("changed");
    }
    l.vote("alice", 0);
    l.same();
    l.wait("w");
    l.vote("bob", 1);
    l.same();
    l.execute(pick("ex", &["alice", "vetoer"]));
    l.same();
}
const B: &str = "2 members and an outsider, powers 0..2^120 changing between two proposals, 2 votes (thorough 3) in any order, each choice, times to 10^9 s";
const BE: &str = "2 members and an outsider, powers 0..2^120, treasury and transfer 1..2^120, 3 actions (thorough 4) out of vote, execute by member or outsider, close, wait up to 3*10^9 s";
const BV: &str = "2 members, vetoer, 3 actions (thorough 4) out of execute, veto, close, wait; timelock and periods 0..10^9 s; every veto flag; any minimum voting period";
const fn sc(prop: &'static str, name: &'static str, bounds: &'static str, covers: &'static [&'static str], run: fn()) -> sym::Scenario {
    sym::Scenario { prop, name, bounds, covers, run }
}
const CX: &[&str] = &["executed", "execution-failed", "execute-refused", "closed"];
const CV: &[&str] = &["executed", "execute-refused", "closed", "vetoed", "veto-refused"];
pub const ALL: &[sym::Scenario] = &[
    sc("C04", "votes_single", B, &["vote-ok", "vote-refused", "revote"], votes_single),
    sc("C04", "votes_multi", B, &["vote-ok", "vote-refused", "revote"], votes_multi),
    sc("C04+", "votes_single3", B, &["vote-ok", "vote-refused"], votes_single3),
    sc("C04+", "votes_multi3", B, &["vote-ok", "vote-refused"], votes_multi3),
    sc("C05", "exec_single", BE, CX, exec_single),
    sc("C05", "exec_multi", BE, CX, exec_multi),
    sc("C05", "reenter", BE, &["reenter"], reenter),
    sc("C05", "config_change", BE, &["changed"], config),
    sc("C05+", "exec_single4", BE, CX, exec_single4),
    sc("C05+", "exec_multi4", BE, CX, exec_multi4),
    sc("C06", "veto_single", BV, CV, veto_single),
    sc("C06", "veto_multi", BV, CV, veto_multi),
    sc("C06+", "veto_single4", BV, CV, veto_single4),
    sc("C06+", "veto_multi4", BV, CV, veto_multi4),
];
