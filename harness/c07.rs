//! Who may act for a DAO.
use crate::common::*;
use cosmwasm_std::*;
use cw_utils::Duration;
use dao_interface::{
    msg::{ExecuteMsg as E, QueryMsg as Q},
    query::*,
    state::{Config, ProposalModule, ProposalModuleStatus},
};

const MAXP: u128 = 1 << 120;
const TMAX: u64 = 1_000_000_000;

struct C {
    w: W,
    core: Addr,
    mods: Vec<Addr>,
    rec: Addr,
    vm_code: u64,
    // what should be so
    admin: String,
    nominee: Option<String>,
    paused: Option<u64>,
    on: Vec<bool>,
    item: Option<String>,
    name: String,
    sub: bool,
    calls: Vec<String>,
    paid: u128,
    treasury: u128,
    vm: Addr,
}
const ACTORS: &[&str] = &["admin", "next", "out", "dao", "mod0", "mod1"];
impl C {
    fn new(ext: bool, n: usize) -> C {
        let mut w = W::new();
        let core = core_code(&mut w);
        let vm_code = w.store(Box::new(StubVm));
        let mut m = core_msg(if ext { Some("admin") } else { None }, module(vm_code, &Empty {}), vec![module(vm_code, &Empty {}); n]);
        m.initial_items = Some(vec![dao_interface::msg::InitialItem { key: "key".into(), value: "first".into() }]);
        let core = w.inst(core, "creator", &m).unwrap();
        let p: Vec<ProposalModule> = w.q(&core, &Q::ProposalModules { start_after: None, limit: None });
        let mods: Vec<Addr> = p.iter().map(|p| p.address.clone()).collect();
        let treasury = sym::u128("treasury", 0, MAXP);
        w.mint(core.as_str(), treasury, "ujuno");
        let rec = w.new_rec();
        let vm = w.q(&core, &Q::VotingModule {});
        C {
            admin: if ext { "admin".into() } else { core.to_string() },
            nominee: None,
            paused: None,
            on: vec![true; n],
            item: Some("first".into()),
            name: "dao".into(),
            sub: false,
            calls: vec![],
            paid: 0,
            treasury,
            w,
            core,
            mods,
            rec,
            vm_code,
            vm,
        }
    }
    fn addr(&self, who: &str) -> String {
        match who {
            "dao" => self.core.to_string(),
            "mod0" => self.mods[0].to_string(),
            "mod1" => self.mods[1].to_string(),
            _ => who.to_string(),
        }
    }
    fn is_paused(&self) -> bool {
        self.paused.map_or(false, |t| self.w.block().time.seconds() < t)
    }
    fn act(&mut self, i: u32) {
        let who = pick(&format!("who{i}"), ACTORS);
        let a = sym::choose(&format!("act{i}"), 15);
        self.step(i, who, a)
    }
    fn step(&mut self, i: u32, who: &str, a: u32) {
        let from = self.addr(who);
        let dao = from == self.core.as_str();
        let adm = from == self.admin;
        let blocked = self.is_paused() && !dao && !adm;
        let now = self.w.block().time.seconds();
        let tag = format!("call{i}");
        let msgs = |c: &C| -> (Vec<CosmosMsg>, u128) {
            let x = sym::u128(&format!("pay{i}"), 1, MAXP);
            let m = vec![
                BankMsg::Send { to_address: "payee".into(), amount: vec![coin(x, "ujuno")] }.into(),
                WasmMsg::Execute { contract_addr: c.rec.to_string(), msg: Binary(format!("{{\"{tag}\":{{}}}}").into_bytes()), funds: vec![] }.into(),
            ];
            (m, x)
        };
        // what is sent, whether it must work, and what it does
        let mut ran = None;
        let mut next: Box<dyn FnOnce(&mut C)> = Box::new(|_| ());
        let (m, ok) = match a {
            0 | 1 => {
                let (m, x) = msgs(self);
                let afford = x <= self.treasury;
                ran = Some(x);
                if a == 0 {
                    (E::ExecuteAdminMsgs { msgs: m }, adm && afford)
                } else {
                    let i = self.mods.iter().position(|m| m.as_str() == from);
                    (E::ExecuteProposalHook { msgs: m }, i.map_or(false, |i| self.on[i]) && afford)
                }
            }
            2 => {
                let d = sym::u64(&format!("dur{i}"), 1, TMAX);
                next = Box::new(move |c| c.paused = Some(now + d));
                (E::Pause { duration: Duration::Time(d) }, dao)
            }
            3 => {
                next = Box::new(|c| c.paused = None);
                (E::Unpause {}, adm)
            }
            4 => {
                let v = tag.clone();
                next = Box::new(move |c| c.item = Some(v));
                (E::SetItem { key: "key".into(), value: tag.clone() }, dao)
            }
            5 => {
                next = Box::new(|c| c.item = None);
                (E::RemoveItem { key: "key".into() }, dao && self.item.is_some())
            }
            6 => {
                let v = tag.clone();
                next = Box::new(move |c| c.name = v);
                let config = Config {
                    name: tag.clone(),
                    description: "d".into(),
                    image_url: None,
                    automatically_add_cw20s: false,
                    automatically_add_cw721s: false,
                    dao_uri: None,
                };
                (E::UpdateConfig { config }, dao)
            }
            7 => {
                next = Box::new(|c| c.vm = Addr::unchecked(""));
                (E::UpdateVotingModule { module: module(self.vm_code, &Empty {}) }, dao)
            }
            8 => {
                let k = sym::choose(&format!("which{i}"), 3) as usize;
                let which: Vec<usize> = match k {
                    2 => vec![0, 1],
                    k => vec![k],
                };
                let left = (0..self.on.len()).filter(|j| self.on[*j] && !which.contains(j)).count();
                let ok = dao && which.iter().all(|j| self.on[*j]) && left > 0;
                let to_disable = which.iter().map(|j| self.mods[*j].to_string()).collect();
                next = Box::new(move |c| which.iter().for_each(|j| c.on[*j] = false));
                (E::UpdateProposalModules { to_add: vec![], to_disable }, ok)
            }
            9 => {
                // a module is added and another one disabled at once
                let ok = dao && self.on[0];
                let d = self.mods[0].to_string();
                next = Box::new(|c| {
                    c.on[0] = false;
                    c.on.push(true)
                });
                (E::UpdateProposalModules { to_add: vec![module(self.vm_code, &Empty {})], to_disable: vec![d] }, ok)
            }
            10 => {
                next = Box::new(|c| c.nominee = Some("next".into()));
                (E::NominateAdmin { admin: Some("next".into()) }, adm && self.nominee.is_none())
            }
            11 => {
                next = Box::new(|c| c.admin = c.core.to_string());
                (E::NominateAdmin { admin: None }, adm && self.nominee.is_none())
            }
            12 => {
                next = Box::new(|c| c.admin = c.nominee.take().unwrap());
                (E::AcceptAdminNomination {}, self.nominee.as_deref() == Some(&from))
            }
            13 => {
                next = Box::new(|c| c.nominee = None);
                (E::WithdrawAdminNomination {}, adm && self.nominee.is_some())
            }
            _ => {
                next = Box::new(|c| c.sub = true);
                let to_add = vec![SubDao { addr: "subdao".into(), charter: None }];
                (E::UpdateSubDaos { to_add, to_remove: vec![] }, dao)
            }
        };
        let want = ok && !blocked;
        let got = self.w.exec(&from, &self.core.clone(), &m, &[]).is_ok();
        check("acts-iff-authorised", got == want, "an action was accepted or refused against the rules");
        if got {
            cover(&format!("ok{a}"));
            if let Some(x) = ran {
                self.treasury -= x;
                self.paid += x;
                self.calls.push(format!("{{\"{tag}\":{{}}}}"));
            }
            next(self);
            self.adopt();
        } else if blocked {
            cover("paused");
        }
        self.same();
    }
    /// learn the addresses of newly made modules
    fn adopt(&mut self) {
        if self.vm.as_str().is_empty() {
            self.vm = self.w.q(&self.core, &Q::VotingModule {});
        }
        let p: Vec<ProposalModule> = self.w.q(&self.core, &Q::ProposalModules { start_after: None, limit: None });
        for p in p {
            if !self.mods.contains(&p.address) {
                self.mods.push(p.address);
            }
        }
    }
    fn same(&mut self) {
        let s: DumpStateResponse = self.w.q(&self.core, &Q::DumpState {});
        check("admin", s.admin.as_str() == self.admin, "the admin is not who it should be");
        let n: AdminNominationResponse = self.w.q(&self.core, &Q::AdminNomination {});
        check("nomination", n.nomination.map(|a| a.to_string()) == self.nominee, "the nomination is not what it should be");
        check("config", s.config.name == self.name, "the configuration is not what it should be");
        check("voting-module", s.voting_module == self.vm, "the voting module is not what it should be");
        check("modules", s.proposal_modules.len() == self.mods.len() && self.on.len() == self.mods.len(), "the proposal modules are not what they should be");
        for p in &s.proposal_modules {
            let i = self.mods.iter().position(|m| *m == p.address).unwrap();
            check("module-status", (p.status == ProposalModuleStatus::Enabled) == self.on[i], "a proposal module's status is not what it should be");
        }
        let active = self.on.iter().filter(|x| **x).count();
        check("active-count", s.active_proposal_module_count as usize == active, "the active module count differs from the modules enabled");
        check("total-count", s.total_proposal_module_count as usize == self.on.len(), "the module count differs from the modules there are");
        check("one-active", active > 0, "no proposal module is left");
        let act: Vec<ProposalModule> = self.w.q(&self.core, &Q::ActiveProposalModules { start_after: None, limit: None });
        check("active-list", act.len() == active && act.iter().all(|p| p.status == ProposalModuleStatus::Enabled), "");
        let paused = matches!(s.pause_info, PauseInfoResponse::Paused { .. });
        check("pause", paused == self.is_paused(), "the pause is not what it should be");
        let it: GetItemResponse = self.w.q(&self.core, &Q::GetItem { key: "key".into() });
        check("item", it.item == self.item, "the item is not what it should be");
        let sub: Vec<SubDao> = self.w.q(&self.core, &Q::ListSubDaos { start_after: None, limit: None });
        check("subdaos", (sub.len() == 1) == self.sub, "");
        check_eq("treasury", self.w.bal(&self.core, "ujuno"), self.treasury, "the treasury is not what it should be");
        check_eq("paid", self.w.bal("payee", "ujuno"), self.paid, "");
        let r = self.w.rec(&self.rec);
        let got: Vec<String> = r.iter().map(|r| String::from_utf8(r.msg.to_vec()).unwrap()).collect();
        check("messages", got == self.calls && r.iter().all(|r| r.sender == self.core), "the messages the DAO sent are not those authorised");
    }
}
/// any action by anyone, from every kind of state
fn step() {
    let mut c = C::new(flag("external"), 2);
    let core = c.core.to_string();
    let admin = c.admin.clone();
    if flag("nominated") {
        c.w.exec(&admin, &c.core.clone(), &E::NominateAdmin { admin: Some("next".into()) }, &[]).unwrap();
        c.nominee = Some("next".into());
    }
    if flag("disabled") {
        let d = c.mods[1].to_string();
        c.w.exec(&core, &c.core.clone(), &E::UpdateProposalModules { to_add: vec![], to_disable: vec![d] }, &[]).unwrap();
        c.on[1] = false;
    }
    if flag("paused") {
        let d = sym::u64("pause", 1, TMAX);
        c.paused = Some(c.w.block().time.seconds() + d);
        c.w.exec(&core, &c.core.clone(), &E::Pause { duration: Duration::Time(d) }, &[]).unwrap();
        let dt = sym::u64("wait", 0, 2 * TMAX);
        c.w.advance(1, dt);
    }
    c.same();
    c.act(0);
}
fn history(n: u32) {
    let mut c = C::new(flag("external"), 2);
    for i in 0..n {
        c.act(i);
        if i == 0 {
            let dt = sym::u64("wait", 0, 2 * TMAX);
            c.w.advance(1, dt);
        }
    }
}
fn two() {
    history(2)
}
fn three() {
    history(3)
}
/// power queries go to the current voting module
fn power() {
    let mut c = C::new(false, 1);
    let (a, b, t) = (sym::u128("a", 0, MAXP), sym::u128("b", 0, MAXP), sym::u128("rest", 0, MAXP));
    let core = c.core.clone();
    let vm = c.vm.clone();
    c.w.set_powers(&vm, &[("alice", a), ("rest", t)]);
    let h = c.w.block().height;
    c.w.advance(1, 1);
    c.w.set_powers(&vm, &[("alice", b)]);
    let pow = |w: &W, h: Option<u64>| -> (u128, u128) {
        let p: dao_interface::voting::VotingPowerAtHeightResponse = w.q(&core, &Q::VotingPowerAtHeight { address: "alice".into(), height: h });
        let t: dao_interface::voting::TotalPowerAtHeightResponse = w.q(&core, &Q::TotalPowerAtHeight { height: h });
        (p.power.u128(), t.power.u128())
    };
    let p = pow(&c.w, None);
    check_eq("power-now", p.0, b, "");
    check_eq("total-now", p.1, b, "");
    let p = pow(&c.w, Some(h));
    check_eq("power-then", p.0, a, "");
    check_eq("total-then", Z::from(p.1), Z::from(a) + t, "");
    c.w.exec(core.as_str(), &core, &E::UpdateVotingModule { module: module(c.vm_code, &Empty {}) }, &[]).unwrap();
    c.vm = Addr::unchecked("");
    c.adopt();
    check("replaced", c.vm != vm, "");
    let n = sym::u128("new", 0, MAXP);
    let vm = c.vm.clone();
    c.w.set_powers(&vm, &[("alice", n), ("rest", t)]);
    let p = pow(&c.w, None);
    check_eq("power-new-module", p.0, n, "");
    check_eq("total-new-module", Z::from(p.1), Z::from(n) + t, "");
    cover("done");
}
const B: &str = "every one of 15 actions by every one of 6 parties from every combination of external admin, pending nomination, disabled module and a pause of any length up to 10^9 s; payments 1..2^120";
const BH: &str = "sequences of 2 (thorough 3) of 15 actions by 6 parties; waits to 2*10^9 s";
pub const ALL: &[sym::Scenario] = &[
    sym::Scenario {
        prop: "C07",
        name: "core_step",
        bounds: B,
        covers: &["ok0", "ok1", "ok2", "ok3", "ok4", "ok5", "ok6", "ok7", "ok8", "ok9", "ok10", "ok11", "ok12", "ok13", "ok14", "paused"],
        run: step,
    },
    sym::Scenario { prop: "C07", name: "core_two", bounds: BH, covers: &["ok0", "ok1", "ok8", "ok12", "paused"], run: two },
    sym::Scenario { prop: "C07", name: "core_power", bounds: "powers 0..2^120, two heights, one replacement", covers: &["done"], run: power },
    sym::Scenario { prop: "C07+", name: "core_three", bounds: BH, covers: &["ok0", "ok1", "ok8", "ok12", "paused"], run: three },
];
