//! Swaps between two parties (C19), and what factories make (C22).
use crate::common::*;
use crate::stubs::UNBONDING;
use cosmwasm_std::*;
use cw_denom::UncheckedDenom;

const MAXS: u128 = 1 << 100;
const RICH: u128 = 1 << 110;
fn z(v: u128) -> Z {
    Z::from(v)
}

// ---- swaps ----
use cw_token_swap::msg as sw;
const ASSETS: usize = 4;
/// two native tokens and two cw20s
struct Swap {
    w: W,
    s: Addr,
    tokens: [Addr; 2],
    /// what each of the two promised: token and sum
    promise: [(usize, Z); 2],
    provided: [bool; 2],
    done: bool,
    /// what each of the parties and a third have, by token
    have: [[Z; ASSETS]; 3],
}
const WHO: [&str; 3] = ["alice", "bob", "carol"];
const DENOM: [&str; 2] = ["uone", "utwo"];
impl Swap {
    fn new(promise: [(usize, u128); 2]) -> R<Swap> {
        let mut w = W::new();
        let rich: Vec<(&str, u128)> = WHO.iter().map(|a| (*a, RICH)).collect();
        let tokens = [w.new_cw20(&rich), w.new_cw20(&rich)];
        for a in WHO {
            for d in DENOM {
                w.mint(a, RICH, d);
            }
        }
        let c = code!(w, cw_token_swap::contract);
        let party = |i: usize| sw::Counterparty {
            address: WHO[i].into(),
            promise: {
                let (t, amount) = (promise[i].0, Uint128::new(promise[i].1));
                if t < 2 {
                    sw::TokenInfo::Native { denom: DENOM[t].into(), amount }
                } else {
                    sw::TokenInfo::Cw20 { contract_addr: tokens[t - 2].to_string(), amount }
                }
            },
        };
        let s = w.inst(c, "carol", &sw::InstantiateMsg { counterparty_one: party(0), counterparty_two: party(1) })?;
        let all = || std::array::from_fn(|_| z(RICH));
        Ok(Swap { w, s, tokens, promise: promise.map(|p| (p.0, z(p.1))), provided: [false; 2], done: false, have: [all(), all(), all()] })
    }
    fn pay(&mut self, who: usize, token: usize, x: u128) {
        let s = self.s.clone();
        let r = if token < 2 {
            self.w.exec(WHO[who], &s, &sw::ExecuteMsg::Fund {}, &[coin(x, DENOM[token])])
        } else {
            let t = self.tokens[token - 2].clone();
            let m = cw20::Cw20ExecuteMsg::Send { contract: s.to_string(), amount: Uint128::new(x), msg: to_json_binary(&Empty {}).unwrap() };
            self.w.exec(WHO[who], &t, &m, &[])
        };
        let may = who < 2 && !self.provided[who] && token == self.promise[who].0 && z(x).is(&self.promise[who].1);
        check("paid-iff-promised", r.is_ok() == may, "a party paid in something else than it promised, or could not pay that");
        if !may {
            return;
        }
        cover("paid");
        self.have[who][token] = &self.have[who][token] - z(x);
        self.provided[who] = true;
        if self.provided == [true, true] {
            cover("swapped");
            self.done = true;
            for i in 0..2 {
                let (t, x) = self.promise[i].clone();
                self.have[1 - i][t] = &self.have[1 - i][t] + x;
            }
        }
    }
    fn withdraw(&mut self, who: usize) {
        let r = self.w.exec(WHO[who], &self.s.clone(), &sw::ExecuteMsg::Withdraw {}, &[]);
        let may = who < 2 && self.provided[who] && !self.done;
        check("back-iff-open", r.is_ok() == may, "something was taken back after the swap or by someone who had not paid, or could not be before");
        if may {
            cover("taken back");
            let (t, x) = self.promise[who].clone();
            self.have[who][t] = &self.have[who][t] + x;
            self.provided[who] = false;
        }
    }
    fn all(&mut self) {
        for i in 0..3 {
            for t in 0..ASSETS {
                let b = if t < 2 { self.w.bal(WHO[i], DENOM[t]) } else { self.w.cw20(&self.tokens[t - 2], WHO[i]) };
                check_eq("whole", b, &self.have[i][t], "someone has other than what it had, less what it paid, and what it swapped that for");
            }
        }
        let s: sw::StatusResponse = self.w.q(&self.s, &sw::QueryMsg::Status {});
        check("status", [s.counterparty_one.provided, s.counterparty_two.provided] == self.provided, "who has paid is misreported");
    }
}
fn swap_with(n: usize) {
    // first a native token or a cw20, then the same, another of its kind, or one of the other
    let a = pick("first_token", &[0, 2]);
    let b = pick("second_token", &[a, a + 1, 2 - a]);
    let (x, y) = (sym::u128("first", 0, MAXS), sym::u128("second", 0, MAXS));
    let s = Swap::new([(a, x), (b, y)]);
    check("offered-iff-sound", s.is_ok() == (x > 0 && y > 0), "a swap for nothing was opened, or another refused");
    let Ok(mut s) = s else { return };
    for k in 0..n {
        let nm = |s: &str| format!("{s}{k}");
        let who = pick(&nm("who"), &[0usize, 1, 2]);
        if flag(&nm("withdraw")) {
            s.withdraw(who)
        } else {
            // what was promised, or any sum of something
            let (t, x) = match sym::choose(&nm("what"), 4) {
                0 if who < 2 => (s.promise[who].0, [x, y][who]),
                1 if who < 2 => (s.promise[1 - who].0, [x, y][1 - who]),
                2 => (a, sym::u128(&nm("sum"), 1, MAXS)),
                3 => (pick(&nm("token"), &[1, 3]), sym::u128(&nm("sum"), 1, MAXS)),
                _ => return,
            };
            s.pay(who, t, x)
        }
    }
    s.all();
}
fn swap() {
    swap_with(3)
}
fn swap_more() {
    swap_with(4)
}
/// what is no payment at all
fn swap_forged() {
    let (x, y) = (sym::u128("first", 1, MAXS), sym::u128("second", 1, MAXS));
    let kind = pick("kind", &[0, 2]);
    let mut s = Swap::new([(kind, x), (1, y)]).unwrap();
    let v = s.s.clone();
    match sym::choose("how", 5) {
        0 => {
            // as if a token told of a payment
            let sender = pick("sender", &["alice", "bob", "carol"]);
            let m = cw20::Cw20ReceiveMsg { sender: "alice".into(), amount: Uint128::new(x), msg: to_json_binary(&Empty {}).unwrap() };
            check("forged", s.w.exec(sender, &v, &sw::ExecuteMsg::Receive(m), &[]).is_err(), "a payment was noted that no token told of");
        }
        1 => {
            check("nothing", s.w.exec("alice", &v, &sw::ExecuteMsg::Fund {}, &[]).is_err(), "a payment of nothing was noted");
        }
        2 => {
            let f = [coin(x, DENOM[0]), coin(1, DENOM[1])];
            check("more-kinds", s.w.exec("alice", &v, &sw::ExecuteMsg::Fund {}, &f).is_err(), "a payment with another token added was noted");
        }
        3 => {
            // with oneself
            let p = sw::Counterparty { address: "alice".into(), promise: sw::TokenInfo::Native { denom: DENOM[0].into(), amount: Uint128::new(x) } };
            let c = code!(s.w, cw_token_swap::contract);
            let r = s.w.inst(c, "carol", &sw::InstantiateMsg { counterparty_one: p.clone(), counterparty_two: p });
            check("two-parties", r.is_err(), "a swap of a party with itself was opened");
        }
        _ => {
            // for what is not a token
            let p = |a: &str, t: &Addr| sw::Counterparty { address: a.into(), promise: sw::TokenInfo::Cw20 { contract_addr: t.to_string(), amount: Uint128::new(x) } };
            let c = code!(s.w, cw_token_swap::contract);
            let (a, b) = (p("alice", &s.tokens[0]), p("bob", &v));
            check("tokens", s.w.inst(c, "carol", &sw::InstantiateMsg { counterparty_one: a, counterparty_two: b }).is_err(), "a swap for what is not a token was opened");
        }
    }
    s.all();
}

// ---- payroll ----
use cw_payroll_factory::msg as pf;
use cw_vesting::vesting::{Schedule, Status, Vest};
fn vest_msg(total: u128, denom: UncheckedDenom, owner: Option<&str>, to: &str) -> cw_vesting::msg::InstantiateMsg {
    cw_vesting::msg::InstantiateMsg {
        owner: owner.map(|o| o.into()),
        recipient: to.into(),
        title: "pay".into(),
        description: None,
        total: Uint128::new(total),
        denom,
        schedule: Schedule::SaturatingLinear,
        start_time: None,
        vesting_duration_seconds: 1000,
        unbonding_duration_seconds: UNBONDING,
    }
}
struct Pay {
    w: W,
    f: Addr,
    token: Addr,
    other: Addr,
    n: u64,
}
impl Pay {
    fn new(owner: Option<&str>) -> Pay {
        let mut w = W::new();
        let token = w.new_cw20(&[("boss", RICH), ("else", RICH)]);
        let other = w.new_cw20(&[("boss", RICH)]);
        for a in ["boss", "else"] {
            for d in DENOM {
                w.mint(a, RICH, d);
            }
        }
        let v = code!(w, cw_vesting::contract);
        let c = code!(w, cw_payroll_factory::contract, reply);
        let f = w.inst(c, "anyone", &pf::InstantiateMsg { owner: owner.map(|o| o.into()), vesting_code_id: v }).unwrap();
        Pay { w, f, token, other, n: v }
    }
    fn list(&self, m: &pf::QueryMsg) -> Vec<cw_payroll_factory::state::VestingContract> {
        self.w.q(&self.f, m)
    }
    fn native(&mut self, from: &str, m: cw_vesting::msg::InstantiateMsg, funds: &[Coin]) -> bool {
        let e = pf::ExecuteMsg::InstantiateNativePayrollContract { instantiate_msg: m, label: "pay".into() };
        self.w.exec(from, &self.f.clone(), &e, funds).is_ok()
    }
    fn cw20(&mut self, from: &str, token: &Addr, m: cw_vesting::msg::InstantiateMsg, x: u128) -> bool {
        let r = pf::ReceiveMsg::InstantiatePayrollContract { instantiate_msg: m, label: "pay".into() };
        let e = cw20::Cw20ExecuteMsg::Send { contract: self.f.to_string(), amount: Uint128::new(x), msg: to_json_binary(&r).unwrap() };
        self.w.exec(from, token, &e, &[]).is_ok()
    }
}
const ALLP: pf::QueryMsg = pf::QueryMsg::ListVestingContracts { start_after: None, limit: None };
fn payroll() {
    let owned = flag("owned");
    let mut p = Pay::new(owned.then_some("boss"));
    let from = pick("from", &["boss", "else"]);
    let (total, paid) = (sym::u128("total", 1, MAXS), sym::u128("paid", 1, MAXS));
    let admin = flag("cancellable").then_some("dao");
    let entitled = !owned || from == "boss";
    let exact = z(total).is(&z(paid));
    let (token, other) = (p.token.clone(), p.other.clone());
    let how = sym::choose("how", 6);
    let cw = |t: &Addr| vest_msg(total, UncheckedDenom::Cw20(t.to_string()), admin, "clerk");
    let nat = vest_msg(total, UncheckedDenom::Native(DENOM[0].into()), admin, "clerk");
    let (ok, may) = match how {
        0 => (p.native(from, nat, &coins(paid, DENOM[0])), entitled && exact),
        // in another token
        1 => (p.native(from, nat, &coins(paid, DENOM[1])), false),
        2 => (p.cw20(from, &token, cw(&token), paid), entitled && exact),
        3 => (p.cw20(from, &token, cw(&other), paid), false),
        4 => (p.cw20(from, &token, nat, paid), false),
        // nothing paid
        _ => (p.native(from, cw(&token), &[]), false),
    };
    check("made-iff-funded", ok == may, "a payment was made by someone not entitled to or without the sum, or refused");
    let l = p.list(&ALLP);
    check("listed", l.len() == ok as usize, "a payment is not listed, or one that was not made is");
    let gone = if ok { z(total) } else { z(0) };
    let got = |p: &Pay, a: &str| if how == 0 { p.w.bal(a, DENOM[0]) } else { p.w.cw20(&token, a) };
    check_eq("payer", got(&p, from), z(RICH) - &gone, "the payer paid other than what was promised");
    check_eq("factory", got(&p, p.f.clone().as_str()), z(0), "the factory kept tokens");
    if ok {
        cover("made");
        let c = &l[0];
        check("of", c.instantiator == from && c.recipient == "clerk", "a payment is listed for someone else");
        check_eq("held", got(&p, &c.contract), &gone, "the payment does not hold what was promised");
        let a = Addr::unchecked(&c.contract);
        let v: Vest = p.w.q(&a, &cw_vesting::msg::QueryMsg::Info {});
        check("funded", v.status == Status::Funded && v.recipient == "clerk", "the payment was made but not funded, or for someone else");
        let o: cw_ownable::Ownership<Addr> = p.w.q(&a, &cw_vesting::msg::QueryMsg::Ownership {});
        check("owner", o.owner == admin.map(Addr::unchecked), "the payment has another owner than said");
        let i = p.w.app.wrap().query_wasm_contract_info(a).unwrap();
        check("admin", i.admin == admin.map(|a| a.to_string()), "someone else than its owner can replace the payment's code");
    }
}
fn payroll_authority() {
    let owned = flag("owned");
    let mut p = Pay::new(owned.then_some("boss"));
    let from = pick("from", &["boss", "else"]);
    let id = sym::u64("code", 1, 1000);
    match sym::choose("how", 3) {
        0 => {
            let ok = p.w.exec(from, &p.f.clone(), &pf::ExecuteMsg::UpdateCodeId { vesting_code_id: id }, &[]).is_ok();
            check("code-iff-owner", ok == (owned && from == "boss"), "someone else than the owner changed what payments are made of, or the owner could not");
            let c: u64 = p.w.q(&p.f, &pf::QueryMsg::CodeId {});
            check("code", c == if ok { id } else { p.n }, "what payments are made of is not what was last set");
        }
        1 => {
            let a = cw_ownable::Action::TransferOwnership { new_owner: "heir".into(), expiry: None };
            let ok = p.w.exec(from, &p.f.clone(), &pf::ExecuteMsg::UpdateOwnership(a), &[]).is_ok();
            check("transfer-iff-owner", ok == (owned && from == "boss"), "someone else than the owner gave the factory away, or the owner could not");
        }
        _ => {
            // as if a token told of a payment
            let x = sym::u128("total", 1, MAXS);
            let m = vest_msg(x, UncheckedDenom::Cw20(p.token.to_string()), None, "clerk");
            let r = pf::ReceiveMsg::InstantiatePayrollContract { instantiate_msg: m, label: "pay".into() };
            let e = pf::ExecuteMsg::Receive(cw20::Cw20ReceiveMsg { sender: "boss".into(), amount: Uint128::new(x), msg: to_json_binary(&r).unwrap() });
            check("forged", p.w.exec(from, &p.f.clone(), &e, &[]).is_err(), "a payment was made without tokens");
            check("forged-listed", p.list(&ALLP).is_empty(), "a payment that was not made is listed");
        }
    }
}
/// which payments are listed for whom
fn payroll_lists() {
    let mut p = Pay::new(None);
    let n = 4;
    let mut made: Vec<(String, &str, &str)> = vec![];
    for k in 0..n {
        let by = if k == 0 { "boss" } else { pick(&format!("by{k}"), &["boss", "else"]) };
        let to = pick(&format!("to{k}"), &["clerk", "guard"]);
        let x = sym::u128(&format!("total{k}"), 1, MAXS);
        check("made", p.native(by, vest_msg(x, UncheckedDenom::Native(DENOM[0].into()), None, to), &coins(x, DENOM[0])), "a payment was refused");
        // the newest is the one not known before
        let new: Vec<_> = p.list(&ALLP).into_iter().filter(|c| !made.iter().any(|m| m.0 == c.contract)).collect();
        check("one-more", new.len() == 1, "not exactly one payment more is listed");
        made.push((new[0].contract.clone(), by, to));
    }
    let mut want = made.clone();
    want.sort();
    let limit = pick("limit", &[None, Some(0), Some(1), Some(2), Some(5)]);
    let from = match pick("from", &[0, 1, 2, 3, 4]) {
        0 => None,
        k => Some(want[k - 1].0.clone()),
    };
    let rev = flag("backwards");
    let of = sym::choose("of", 5);
    let w = want.iter().filter(|m| match of {
        0 => true,
        1 => m.1 == "boss",
        2 => m.1 == "else",
        3 => m.2 == "clerk",
        _ => m.2 == "guard",
    });
    let w: Vec<_> = w.filter(|m| from.as_ref().map_or(true, |f| if rev { m.0 < *f } else { m.0 > *f })).collect();
    let mut w: Vec<String> = w.into_iter().map(|m| m.0.clone()).collect();
    if rev {
        w.reverse()
    }
    w.truncate(limit.unwrap_or(30) as usize);
    use pf::QueryMsg::*;
    let (a, b) = (["", "boss", "else", "", ""][of as usize].to_string(), ["", "", "", "clerk", "guard"][of as usize].to_string());
    let q = match (of, rev) {
        (0, false) => ListVestingContracts { start_after: from, limit },
        (0, true) => ListVestingContractsReverse { start_before: from, limit },
        (1 | 2, false) => ListVestingContractsByInstantiator { instantiator: a, start_after: from, limit },
        (1 | 2, true) => ListVestingContractsByInstantiatorReverse { instantiator: a, start_before: from, limit },
        (_, false) => ListVestingContractsByRecipient { recipient: b, start_after: from, limit },
        (_, true) => ListVestingContractsByRecipientReverse { recipient: b, start_before: from, limit },
    };
    let got = p.list(&q);
    for c in &got {
        let m = made.iter().find(|m| m.0 == c.contract).unwrap();
        check("entry", c.instantiator == m.1 && c.recipient == m.2, "a payment is listed for someone else");
    }
    check("lists", got.into_iter().map(|c| c.contract).collect::<Vec<_>>() == w, "payments are missing from a list, or others are on it, or in another order");
}

// ---- contracts that are their own admin ----
use cw_admin_factory::msg as af;
fn admin_factory() {
    let mut w = W::new();
    let c = code!(w, cw_admin_factory::contract, reply);
    let owned = flag("owned");
    let f = w.inst(c, "anyone", &af::InstantiateMsg { admin: owned.then(|| "boss".into()) }).unwrap();
    let from = pick("from", &["boss", "else"]);
    let x = sym::u128("funds", 1, MAXS);
    w.mint(from, RICH, DENOM[0]);
    let rec = w.store(Box::new(Recorder));
    // what is made may refuse to be
    let bad = flag("fails");
    let id = if bad { 999 } else { rec };
    let m = to_json_binary(&Empty {}).unwrap();
    let e = af::ExecuteMsg::InstantiateContractWithSelfAdmin { instantiate_msg: m, code_id: id, label: "made".into() };
    let r = w.exec(from, &f, &e, &coins(x, DENOM[0]));
    check("made-iff-entitled", r.is_ok() == ((!owned || from == "boss") && !bad), "a contract was made by someone not entitled to, or refused");
    let gone = if r.is_ok() { z(x) } else { z(0) };
    check_eq("payer", w.bal(from, DENOM[0]), z(RICH) - &gone, "the sender paid other than what it sent along");
    check_eq("factory", w.bal(&f, DENOM[0]), z(0), "the factory kept what was sent along");
    let Ok(r) = r else { return };
    cover("made");
    let a = r
        .events
        .iter()
        .filter(|e| e.ty == "instantiate")
        .flat_map(|e| e.attributes.iter())
        .find(|a| a.key.contains("contract_addr"))
        .unwrap()
        .value
        .clone();
    check_eq("given", w.bal(&a, DENOM[0]), &gone, "the contract was not given what was sent along");
    let i = w.app.wrap().query_wasm_contract_info(&a).unwrap();
    check("self-admin", i.admin.as_deref() == Some(a.as_str()), "someone else than the contract itself can replace its code");
    check("creator", i.creator == f.as_str() && i.code_id == rec, "the contract was made of something else");
}
pub const ALL: &[sym::Scenario] = &[
    sym::Scenario {
        prop: "C19",
        name: "swap",
        bounds: "two parties, up to 2^100 of two native tokens or two cw20s, the same or others; 3 payments or withdrawals, in any token and of any sum, by either or by a third",
        covers: &["paid", "swapped", "taken back"],
        run: swap,
    },
    sym::Scenario { prop: "C19", name: "swap_forged", bounds: "payments that are none, up to 2^100; swaps with oneself or for no token", covers: &[], run: swap_forged },
    sym::Scenario { prop: "C19+", name: "swap_more", bounds: "as swap, 4 actions", covers: &["paid", "swapped", "taken back"], run: swap_more },
    sym::Scenario {
        prop: "C22",
        name: "payroll",
        bounds: "any sums up to 2^100 promised and paid, native or cw20, in the token promised or another, by the owner or another, of an owned factory or not",
        covers: &["made"],
        run: payroll,
    },
    sym::Scenario { prop: "C22", name: "payroll_authority", bounds: "the owner or another; any code, sums up to 2^100", covers: &[], run: payroll_authority },
    sym::Scenario {
        prop: "C22",
        name: "payroll_lists",
        bounds: "4 payments of up to 2^100 by 2 payers to 2 recipients; each list from any place, in either direction, with limits 0, 1, 2, 5 or none",
        covers: &[],
        run: payroll_lists,
    },
    sym::Scenario { prop: "C22", name: "admin_factory", bounds: "an owned factory or not, any funds up to 2^100, by the owner or another, a contract that can be made or not", covers: &["made"], run: admin_factory },
];
