//! The token issuer (C24) and tokens made with a DAO (C25).
use crate::common::*;
use crate::single as s;
use crate::stubs::Tokens;
use cosmwasm_std::*;
use cw_tokenfactory_issuer::msg::{ExecuteMsg as X, InstantiateMsg, QueryMsg as Q};
use cw_tokenfactory_issuer::msg as im;
use dao_voting::threshold::Threshold;

const MAXT: u128 = 1 << 118;
fn z(v: u128) -> Z {
    Z::from(v)
}
pub fn issuer_code(w: &mut W) -> u64 {
    code!(w, cw_tokenfactory_issuer::contract, reply, sudo)
}
const WHO: [&str; 4] = ["alice", "bob", "mint", "boss"];
struct Iss {
    w: W,
    i: Addr,
    denom: String,
    /// of alice, bob, mint, boss and the issuer
    bal: Vec<Z>,
    mint: Vec<Z>,
    burn: Vec<Z>,
    owner: &'static str,
    heir: Option<&'static str>,
    /// admin of the token on the chain
    admin: bool,
    /// asked before transfers
    hook: Option<String>,
    frozen: bool,
    allow: Vec<bool>,
    deny: Vec<bool>,
}
impl Iss {
    fn new() -> Iss {
        let mut w = W::new();
        let c = issuer_code(&mut w);
        let i = w.inst(c, "boss", &InstantiateMsg::NewToken { subdenom: "gold".into() }).unwrap();
        let denom = format!("factory/{i}/gold");
        Iss::with(w, i, denom)
    }
    /// a token there before, someone else's until given to the issuer
    fn existing(given: bool) -> Iss {
        let mut w = W::new();
        let c = issuer_code(&mut w);
        let denom = "factory/maker/gold".to_string();
        let mut tk = Tokens::default();
        tk.denoms.push((denom.clone(), "maker".into(), "".into()));
        tk.save(w.app.storage_mut());
        let i = w.inst(c, "boss", &InstantiateMsg::ExistingToken { denom: denom.clone() }).unwrap();
        let x = sym::u128("before", 0, MAXT);
        w.mint("alice", x, &denom);
        if given {
            let mut tk = Tokens::load(w.app.storage());
            tk.denoms[0].1 = i.to_string();
            tk.save(w.app.storage_mut());
        }
        let mut t = Iss::with(w, i, denom);
        t.admin = given;
        t.bal[0] = z(x);
        t
    }
    fn with(w: W, i: Addr, denom: String) -> Iss {
        check("denom", w.q::<im::DenomResponse>(&i, &Q::Denom {}).denom == denom, "the issuer names another token than it made");
        Iss {
            w,
            i,
            denom,
            bal: vec![z(0); 5],
            mint: vec![z(0); 4],
            burn: vec![z(0); 4],
            owner: "boss",
            heir: None,
            admin: true,
            hook: None,
            frozen: false,
            allow: vec![false; 5],
            deny: vec![false; 5],
        }
    }
    fn name(&self, k: usize) -> String {
        if k == 4 {
            self.i.to_string()
        } else {
            WHO[k].into()
        }
    }
    fn ours(&self) -> bool {
        self.hook.as_deref() == Some(self.i.as_str())
    }
    /// whether the issuer lets a transfer through
    fn passes(&self, from: usize, to: usize) -> bool {
        !self.ours() || ((!self.frozen || self.allow[from] || self.allow[to]) && !self.deny[from] && !self.deny[to])
    }
    fn x(&mut self, from: &str, m: &X) -> bool {
        let i = self.i.clone();
        self.w.exec(from, &i, m, &[]).is_ok()
    }
    fn do_mint(&mut self, k: usize, to: usize, a: u128) {
        let m = X::Mint { to_address: self.name(to), amount: Uint128::new(a) };
        let ok = self.x(WHO[k], &m);
        let open = !self.frozen || self.allow[k] || self.allow[to];
        let may = a > 0 && self.mint[k].ge(&z(a)) && self.admin && open && self.passes(4, to);
        check("mint-iff-allowed", ok == may, "tokens were made beyond an allowance or past a freeze, or refused within it");
        if ok {
            self.mint[k] = &self.mint[k] - z(a);
            self.bal[to] = &self.bal[to] + z(a);
            cover("minted");
        }
    }
    fn do_burn(&mut self, k: usize, from: usize, a: u128) {
        let m = X::Burn { from_address: self.name(from), amount: Uint128::new(a) };
        let ok = self.x(WHO[k], &m);
        let may = a > 0 && self.burn[k].ge(&z(a)) && self.admin && self.bal[from].ge(&z(a));
        check("burn-iff-allowed", ok == may, "tokens were destroyed beyond an allowance, or this was refused within it");
        if ok {
            self.burn[k] = &self.burn[k] - z(a);
            self.bal[from] = &self.bal[from] - z(a);
            cover("burned");
        }
    }
    fn send(&mut self, from: usize, to: usize, a: u128) {
        let m = BankMsg::Send { to_address: self.name(to), amount: coins(a, &self.denom) };
        let n = self.name(from);
        let ok = self.w.msg(n, m.into()).is_ok();
        let may = a > 0 && self.bal[from].ge(&z(a)) && self.passes(from, to);
        check("send-iff-allowed", ok == may, "a transfer went through against the rules, or was refused within them");
        if ok {
            self.moved(from, to, a);
        }
        cover(if ok { "sent" } else { "held" });
    }
    fn moved(&mut self, from: usize, to: usize, a: u128) {
        self.bal[from] = &self.bal[from] - z(a);
        self.bal[to] = &self.bal[to] + z(a);
    }
    fn force(&mut self, by: &str, from: usize, to: usize, a: u128) {
        let m = X::ForceTransfer { amount: Uint128::new(a), from_address: self.name(from), to_address: self.name(to) };
        let ok = self.x(by, &m);
        let may = by == self.owner && self.admin && a > 0 && self.bal[from].ge(&z(a)) && self.passes(from, to);
        check("force-iff-owner", ok == may, "tokens were moved by someone else than the owner, or the owner could not");
        if ok {
            self.moved(from, to, a);
        }
    }
    fn allowance(&mut self, by: &str, k: usize, a: u128, mint: bool) {
        let m = if mint {
            X::SetMinterAllowance { address: WHO[k].into(), allowance: Uint128::new(a) }
        } else {
            X::SetBurnerAllowance { address: WHO[k].into(), allowance: Uint128::new(a) }
        };
        let ok = self.x(by, &m);
        check("allowance-iff-owner", ok == (by == self.owner), "someone else than the owner set an allowance, or the owner could not");
        if ok {
            let v = if mint { &mut self.mint } else { &mut self.burn };
            v[k] = z(a);
        }
    }
    fn set_hook(&mut self, by: &str, to: &str) {
        let a = match to {
            "self" => self.i.to_string(),
            a => a.to_string(),
        };
        let ok = self.x(by, &X::SetBeforeSendHook { cosmwasm_address: a.clone() });
        check("hook-iff-owner", ok == (by == self.owner && self.admin), "someone else than the owner decided who is asked before transfers, or the owner could not");
        if ok {
            self.hook = if a.is_empty() { None } else { Some(a) };
        }
        let h: cw_tokenfactory_issuer::state::BeforeSendHookInfo = self.w.q(&self.i, &Q::BeforeSendHookInfo {});
        check("hook-kept", h.hook_contract_address == self.hook && h.advanced_features_enabled == self.ours(), "the issuer names someone else to be asked before transfers");
    }
    fn freeze(&mut self, by: &str, status: bool) {
        let ok = self.x(by, &X::Freeze { status });
        check("freeze-iff-owner", ok == (by == self.owner && self.ours()), "transfers were frozen or freed by someone else than the owner, or the owner could not");
        if ok {
            self.frozen = status;
            self.allow[4] = status;
        }
    }
    fn list(&mut self, by: &str, k: usize, allow: bool, status: bool) {
        let address = self.name(k);
        let m = if allow { X::Allow { address, status } } else { X::Deny { address, status } };
        let ok = self.x(by, &m);
        check(
            "lists-iff-owner",
            ok == (by == self.owner && self.ours() && (allow || k != 4)),
            "the lists were changed by someone else than the owner, or the issuer itself denied, or the owner could not",
        );
        if ok {
            let v = if allow { &mut self.allow } else { &mut self.deny };
            v[k] = status;
        }
    }
    fn give_up(&mut self, by: &str) {
        let ok = self.x(by, &X::UpdateTokenFactoryAdmin { new_admin: "nobody".into() });
        check("admin-iff-owner", ok == (by == self.owner && self.admin), "someone else than the owner gave the token away, or the owner could not");
        if ok {
            self.admin = false;
        }
    }
    fn succeed(&mut self, by: &'static str, act: u32) {
        use cw_ownable::Action::*;
        let (m, may) = match act {
            0 => (TransferOwnership { new_owner: "bob".into(), expiry: None }, by == self.owner),
            1 => (AcceptOwnership, self.heir == Some(by)),
            _ => (RenounceOwnership, by == self.owner),
        };
        let ok = self.x(by, &X::UpdateOwnership(m));
        check("ownership-iff-owner", ok == may, "the issuer changed hands without its owner and the heir, or could not");
        if ok {
            match act {
                0 => self.heir = Some("bob"),
                1 => {
                    self.owner = by;
                    self.heir = None;
                }
                _ => {
                    self.owner = "";
                    self.heir = None;
                }
            }
        }
    }
    /// a payment of another token, for which the issuer is asked too
    fn foreign(&mut self, from: usize, to: usize) {
        let mut tk = Tokens::load(self.w.app.storage());
        tk.denoms.push(("factory/maker/other".into(), "maker".into(), self.i.to_string()));
        tk.save(self.w.app.storage_mut());
        let (f, o) = (self.name(from), self.name(to));
        self.w.mint(&f, 9, "factory/maker/other");
        let ok = self.w.msg(f, BankMsg::Send { to_address: o, amount: coins(9, "factory/maker/other") }.into()).is_ok();
        check("foreign-iff-not-denied", ok == (!self.deny[from] && !self.deny[to]), "another token was held up by the freeze of this one, or reached someone denied");
    }
    fn all(&self) {
        let mut sum = z(0);
        for k in 0..5 {
            let n = self.name(k);
            check_eq("balance", self.w.bal(&n, &self.denom), &self.bal[k], "someone has other than made for, sent to, or taken from them");
            sum = sum + &self.bal[k];
            let st = |q: &Q| self.w.q::<im::StatusResponse>(&self.i, q).status;
            check("allow-list", st(&Q::IsAllowed { address: n.clone() }) == self.allow[k], "the list of those allowed is not as set");
            check("deny-list", st(&Q::IsDenied { address: n.clone() }) == self.deny[k], "the list of those denied is not as set");
        }
        check_eq("supply", self.w.app.wrap().query_supply(&self.denom).unwrap().amount.u128(), sum, "there are other than the tokens made and not destroyed");
        let (mut m, mut b) = (vec![], vec![]);
        for k in [0, 1, 3, 2] {
            let q = |q: &Q| self.w.q::<im::AllowanceResponse>(&self.i, q).allowance.u128();
            check_eq("mint-allowance", q(&Q::MintAllowance { address: WHO[k].into() }), &self.mint[k], "an allowance is not what was set less what was used");
            check_eq("burn-allowance", q(&Q::BurnAllowance { address: WHO[k].into() }), &self.burn[k], "an allowance is not what was set less what was used");
            if !self.mint[k].is_zero() {
                m.push(WHO[k]);
            }
            if !self.burn[k].is_zero() {
                b.push(WHO[k]);
            }
        }
        let names = |q: &Q| self.w.q::<im::AllowancesResponse>(&self.i, q).allowances.into_iter().map(|a| a.address).collect::<Vec<_>>();
        m.sort();
        b.sort();
        check("mint-allowances", names(&Q::MintAllowances { start_after: None, limit: None }) == m, "those allowed to make tokens are not listed");
        check("burn-allowances", names(&Q::BurnAllowances { start_after: None, limit: None }) == b, "those allowed to destroy tokens are not listed");
        check("frozen", self.w.q::<im::IsFrozenResponse>(&self.i, &Q::IsFrozen {}).is_frozen == self.frozen, "the token is frozen when it is not, or the reverse");
        let names = |l: Vec<im::StatusInfo>| l.into_iter().map(|s| s.address).collect::<Vec<_>>();
        let want = |v: &[bool]| {
            let mut l: Vec<String> = (0..5).filter(|k| v[*k]).map(|k| self.name(k)).collect();
            l.sort();
            l
        };
        let a: im::AllowlistResponse = self.w.q(&self.i, &Q::Allowlist { start_after: None, limit: None });
        check("allow-listed", names(a.allowlist) == want(&self.allow), "those allowed are not listed");
        let d: im::DenylistResponse = self.w.q(&self.i, &Q::Denylist { start_after: None, limit: None });
        check("deny-listed", names(d.denylist) == want(&self.deny), "those denied are not listed");
        let o: cw_ownable::Ownership<Addr> = self.w.q(&self.i, &Q::Ownership {});
        check("owner", o.owner.map(|o| o.to_string()).unwrap_or_default() == self.owner, "the issuer has another owner");
        let t = Tokens::load(self.w.app.storage());
        check("chain", (t.denoms[0].1 == self.i.as_str()) == self.admin && t.denoms[0].2 == self.hook.clone().unwrap_or_default(), "the chain was told other than the issuer keeps");
    }
}
fn amount(n: String) -> u128 {
    sym::u128(&n, 0, MAXT)
}
fn issuer() {
    issuer_n(Iss::new(), 2)
}
fn issuer_more() {
    issuer_n(Iss::new(), 3)
}
fn issuer_existing() {
    let mut t = Iss::existing(flag("given"));
    if flag("asked") {
        t.set_hook("boss", "self");
    }
    issuer_n(t, 1)
}
fn issuer_n(mut t: Iss, steps: usize) {
    t.allowance("boss", 2, sym::u128("may_mint", 0, MAXT), true);
    t.allowance("boss", 2, sym::u128("may_burn", 0, MAXT), false);
    t.do_mint(2, 0, sym::u128("first", 0, MAXT));
    for k in 0..steps {
        let n = |s: &str| format!("{s}{k}");
        let by = |s: &str, l: &[&'static str]| pick(&n(s), l);
        match sym::choose(&n("action"), 7) {
            0 => {
                let (by, to) = (pick(&n("by"), &[2, 0]), pick(&n("to"), &[0, 1, 4]));
                t.do_mint(by, to, amount(n("amount")))
            }
            1 => {
                let (by, from) = (pick(&n("by"), &[2, 0]), pick(&n("of"), &[0, 4]));
                t.do_burn(by, from, amount(n("amount")))
            }
            2 => {
                let (by, who, mint) = (by("by", &["boss", "mint"]), pick(&n("who"), &[0, 2]), flag(&n("minting")));
                t.allowance(by, who, amount(n("amount")), mint)
            }
            3 => t.force(by("by", &["boss", "bob"]), 0, 1, amount(n("amount"))),
            4 => t.give_up(by("by", &["boss", "mint"])),
            5 => {
                let b = by("by", &["boss", "bob", "mint"]);
                t.succeed(b, sym::choose(&n("how"), 3))
            }
            _ => t.send(0, 4, amount(n("amount"))),
        }
    }
    t.all();
}
/// freezes and lists
fn rules_n(steps: usize) {
    let mut t = Iss::new();
    t.allowance("boss", 2, 1000, true);
    t.do_mint(2, 0, 500);
    if flag("asked") {
        t.set_hook("boss", "self");
    }
    for k in 0..steps {
        let n = |s: &str| format!("{s}{k}");
        let by = if flag(&n("not_owner")) { "mint" } else { "boss" };
        match sym::choose(&n("action"), 4) {
            0 => t.freeze(by, flag(&n("on"))),
            1 => {
                let k = pick(&n("who"), &[0, 1, 2, 4]);
                t.list(by, k, true, flag(&n("on")))
            }
            2 => {
                let k = pick(&n("who"), &[0, 1, 4]);
                t.list(by, k, false, flag(&n("on")))
            }
            _ => t.set_hook(by, pick(&n("hook"), &["", "self", "stranger"])),
        }
    }
    t.all();
    let x = sym::u128("amount", 0, 1000);
    if t.hook.as_deref() == Some("stranger") {
        return;
    }
    match sym::choose("then", 5) {
        0 => t.send(0, 1, x),
        3 => t.foreign(0, pick("to", &[1, 4])),
        1 => t.send(0, 4, x),
        2 => {
            let to = pick("to", &[1, 4]);
            t.do_mint(2, to, x)
        }
        _ => t.force("boss", 0, 1, x),
    }
    t.all();
}
fn rules() {
    rules_n(2)
}
fn rules_more() {
    rules_n(3)
}

// ---- C25 ----
fn prop_module(w: &mut W) -> dao_interface::state::ModuleInstantiateInfo {
    let p = s::single_code(w);
    module(p, &s::cfg(Threshold::AbsoluteCount { threshold: Uint128::new(1) }))
}
fn make(w: &mut W, vm: dao_interface::state::ModuleInstantiateInfo) -> R<Dao> {
    let p = prop_module(w);
    let core = core_code(w);
    let a = w.inst(core, "creator", &core_msg(None, vm, vec![p]))?;
    Ok(dao_parts(w, a))
}
use dao_voting::threshold::ActiveThreshold;
struct Want {
    have: Vec<u128>,
    dao: Option<u128>,
    count: Option<u128>,
}
impl Want {
    fn any(max: u128) -> Want {
        let n = sym::choose("holders", 3) as usize;
        let have = WHO[..n].iter().map(|w| sym::u128(w, 0, max)).collect();
        let dao = if flag("for_dao") { Some(sym::u128("dao", 0, max)) } else { None };
        let count = if flag("count") { Some(sym::u128("active", 0, max)) } else { None };
        Want { have, dao, count }
    }
    fn held(&self) -> Z {
        self.have.iter().fold(z(0), |a, b| a + z(*b))
    }
    fn dao(&self) -> Z {
        z(self.dao.unwrap_or(0))
    }
    fn active(&self) -> Option<ActiveThreshold> {
        self.count.map(|c| ActiveThreshold::AbsoluteCount { count: Uint128::new(c) })
    }
}
fn new_native() {
    let mut w = W::new();
    let t = Want::any(MAXT);
    let ic = issuer_code(&mut w);
    let c = code!(w, dao_voting_token_staked::contract, reply);
    use dao_voting_token_staked::msg as m;
    use dao_interface::token as tk;
    let metadata = flag("metadata");
    let i = m::InstantiateMsg {
        token_info: m::TokenInfo::New(tk::NewTokenInfo {
            token_issuer_code_id: ic,
            subdenom: "gold".into(),
            metadata: metadata.then(|| tk::NewDenomMetadata {
                name: "Gold".into(),
                description: "of gold".into(),
                symbol: "GLD".into(),
                display: "ingot".into(),
                additional_denom_units: Some(vec![
                    tk::DenomUnit { denom: "ingot".into(), exponent: 6, aliases: vec![] },
                    tk::DenomUnit { denom: "crumb".into(), exponent: 3, aliases: vec![] },
                ]),
            }),
            initial_balances: t.have.iter().zip(WHO).map(|(a, n)| tk::InitialBalance { amount: Uint128::new(*a), address: n.into() }).collect(),
            initial_dao_balance: t.dao.map(Uint128::new),
        }),
        unstaking_duration: None,
        active_threshold: t.active(),
    };
    let r = make(&mut w, module(c, &i));
    let may = !t.have.is_empty() && t.have.iter().all(|a| *a > 0) && t.count.map_or(true, |c| c > 0 && t.held().ge(&z(c)));
    check("made-iff-proper", r.is_ok() == may, "a DAO nobody can vote in was made, or a proper one refused");
    let Ok(d) = r else {
        cover("refused");
        return;
    };
    cover("made");
    let dv = w.q::<dao_interface::voting::DenomResponse>(&d.vm, &m::QueryMsg::Denom {}).denom;
    let iss = w.q::<Option<Addr>>(&d.vm, &m::QueryMsg::TokenContract {}).unwrap();
    check("denom", dv == format!("factory/{iss}/gold"), "the DAO votes with another token than it made");
    for (a, n) in t.have.iter().zip(WHO) {
        check_eq("initial", w.bal(n, &dv), *a, "a holder was not given what was agreed");
    }
    check_eq("initial-dao", w.bal(&d.core, &dv), t.dao(), "the DAO was not given what was agreed");
    check_eq("supply", w.app.wrap().query_supply(&dv).unwrap().amount.u128(), t.held() + t.dao(), "more tokens were made than agreed");
    let o: cw_ownable::Ownership<Addr> = w.q(&iss, &Q::Ownership {});
    check("owned-by-dao", o.owner.as_ref() == Some(&d.core) && o.pending_owner.is_none(), "the token is not the DAO's");
    let l: im::AllowancesResponse = w.q(&iss, &Q::MintAllowances { start_after: None, limit: None });
    check("no-allowance", l.allowances.is_empty(), "someone may make more tokens");
    let i = w.app.wrap().query_wasm_contract_info(&iss).unwrap();
    check("code", i.admin.as_deref() == Some(d.core.as_str()), "someone else than the DAO can replace the issuer's code");
    let tk = Tokens::load(w.app.storage());
    check("metadata", tk.metadata.len() == metadata as usize, "the token was not described, or described unasked");
    if metadata {
        let m = &tk.metadata[0];
        let at = |s: &str| m.find(s).unwrap_or(usize::MAX);
        let ok = m.contains(&format!("base: \"{dv}\"")) && at("exponent: 0") < at("exponent: 3") && at("exponent: 3") < at("exponent: 6") && m.contains("\"GLD\"");
        check("metadata", ok && at("exponent: 6") < usize::MAX, "the token's description is not the one given");
    }
    // it can be voted with
    let x = sym::u128("stake", 1, MAXT);
    sym::assume_le(x, t.have[0]);
    w.exec("alice", &d.vm, &m::ExecuteMsg::Stake {}, &coins(x, &dv)).unwrap();
    // and only the DAO makes more
    let more = X::SetMinterAllowance { address: "bob".into(), allowance: Uint128::new(7) };
    for by in ["alice", "creator", d.vm.as_str()] {
        check("more-by-dao", w.exec(by, &iss, &more, &[]).is_err(), "someone else than the DAO let more tokens be made");
    }
    w.exec(&d.core, &iss, &more, &[]).unwrap();
    w.exec("bob", &iss, &X::Mint { to_address: "bob".into(), amount: Uint128::new(7) }, &[]).unwrap();
    w.advance(1, 1);
    let p: dao_interface::voting::VotingPowerAtHeightResponse =
        w.q(&d.core, &dao_interface::msg::QueryMsg::VotingPowerAtHeight { address: "alice".into(), height: None });
    check_eq("power", p.power.u128(), x, "a stake does not give its power");
}
fn new_cw20() {
    let mut w = W::new();
    let t = Want::any(MAXT);
    let tc = code!(w, cw20_base::contract);
    let sc = code!(w, cw20_stake::contract);
    let c = code!(w, dao_voting_cw20_staked::contract, reply);
    use dao_voting_cw20_staked::msg as m;
    let dur = if flag("waiting") { Some(sym::u64("wait", 1, 1_000_000_000)) } else { None };
    let i = m::InstantiateMsg {
        token_info: m::TokenInfo::New {
            code_id: tc,
            label: "token".into(),
            name: "Gold".into(),
            symbol: "GLD".into(),
            decimals: 6,
            initial_balances: t.have.iter().zip(WHO).map(|(a, n)| cw20::Cw20Coin { amount: Uint128::new(*a), address: n.into() }).collect(),
            marketing: None,
            staking_code_id: sc,
            unstaking_duration: dur.map(cw_utils::Duration::Time),
            initial_dao_balance: t.dao.map(Uint128::new),
        },
        active_threshold: t.active(),
    };
    let r = make(&mut w, module(c, &i));
    let may = !t.held().is_zero() && t.count.map_or(true, |c| c > 0 && (t.held() + t.dao()).ge(&z(c)));
    check("made-iff-proper", r.is_ok() == may, "a DAO nobody can vote in was made, or a proper one refused");
    let Ok(d) = r else {
        cover("refused");
        return;
    };
    cover("made");
    let token: Addr = w.q(&d.vm, &m::QueryMsg::TokenContract {});
    let st: Addr = w.q(&d.vm, &m::QueryMsg::StakingContract {});
    for (a, n) in t.have.iter().zip(WHO) {
        check_eq("initial", w.cw20(&token, n), *a, "a holder was not given what was agreed");
    }
    check_eq("initial-dao", w.cw20(&token, &d.core), t.dao(), "the DAO was not given what was agreed");
    let ti: cw20::TokenInfoResponse = w.q(&token, &cw20_base::msg::QueryMsg::TokenInfo {});
    check_eq("supply", ti.total_supply.u128(), t.held() + t.dao(), "more tokens were made than agreed");
    let mi: Option<cw20::MinterResponse> = w.q(&token, &cw20_base::msg::QueryMsg::Minter {});
    check("owned-by-dao", mi.map(|m| m.minter) == Some(d.core.to_string()), "someone else than the DAO can make more tokens");
    let o: cw_ownable::Ownership<Addr> = w.q(&st, &cw20_stake::msg::QueryMsg::Ownership {});
    check("staking-owned-by-dao", o.owner.as_ref() == Some(&d.core), "the stakes are not in the DAO's care");
    let cfg: cw20_stake::state::Config = w.q(&st, &cw20_stake::msg::QueryMsg::GetConfig {});
    check("staking-terms", cfg.token_address == token && cfg.unstaking_duration == dur.map(cw_utils::Duration::Time), "the stakes are of another token or under other terms");
    for a in [&token, &st] {
        let i = w.app.wrap().query_wasm_contract_info(a).unwrap();
        check("code", i.admin.as_deref() == Some(d.core.as_str()), "someone else than the DAO can replace the code");
    }
    let x = sym::u128("stake", 1, MAXT);
    sym::assume_le(x, t.have[0]);
    let sm = to_json_binary(&cw20_stake::msg::ReceiveMsg::Stake {}).unwrap();
    w.exec("alice", &token, &cw20::Cw20ExecuteMsg::Send { contract: st.to_string(), amount: Uint128::new(x), msg: sm }, &[]).unwrap();
    w.advance(1, 1);
    let p: dao_interface::voting::VotingPowerAtHeightResponse =
        w.q(&d.core, &dao_interface::msg::QueryMsg::VotingPowerAtHeight { address: "alice".into(), height: None });
    check_eq("power", p.power.u128(), x, "a stake does not give its power");
}
/// tokens, stakes or a group there before
fn adopted() {
    let mut w = W::new();
    let x = sym::u128("held", 1, 1 << 60);
    let member = |n: &str, x: u128| cw4::Member { addr: n.into(), weight: x as u64 };
    let power = |w: &W, d: &Dao, a: &str| {
        let p: dao_interface::voting::VotingPowerAtHeightResponse =
            w.q(&d.core, &dao_interface::msg::QueryMsg::VotingPowerAtHeight { address: a.into(), height: None });
        p.power.u128()
    };
    let what = sym::choose("what", 4);
    let (vm, may, have) = match what {
        0 => {
            // stakes in a contract there before, of this or another token
            let token = w.new_cw20(&[("alice", x)]);
            let wrong = flag("wrong");
            let of = if wrong { w.new_cw20(&[("alice", x)]) } else { token.clone() };
            let c = code!(w, cw20_stake::contract);
            let st = w
                .inst(c, "owner", &cw20_stake::msg::InstantiateMsg { owner: Some("owner".into()), token_address: of.to_string(), unstaking_duration: None })
                .unwrap();
            let y = sym::u128("stake", 1, 1 << 60);
            sym::assume_le(y, x);
            let sm = to_json_binary(&cw20_stake::msg::ReceiveMsg::Stake {}).unwrap();
            w.exec("alice", &of, &cw20::Cw20ExecuteMsg::Send { contract: st.to_string(), amount: Uint128::new(y), msg: sm }, &[]).unwrap();
            let c = code!(w, dao_voting_cw20_staked::contract, reply);
            use dao_voting_cw20_staked::msg as v;
            let staking_contract = v::StakingInfo::Existing { staking_contract_address: st.to_string() };
            let t = v::TokenInfo::Existing { address: token.to_string(), staking_contract };
            (module(c, &v::InstantiateMsg { token_info: t, active_threshold: None }), !wrong, y)
        }
        1 => {
            // a new staking contract for a token there before
            let token = w.new_cw20(&[("alice", x)]);
            let sc = code!(w, cw20_stake::contract);
            let c = code!(w, dao_voting_cw20_staked::contract, reply);
            use dao_voting_cw20_staked::msg as v;
            let staking_contract = v::StakingInfo::New { staking_code_id: sc, unstaking_duration: None };
            let t = v::TokenInfo::Existing { address: token.to_string(), staking_contract };
            (module(c, &v::InstantiateMsg { token_info: t, active_threshold: None }), true, 0)
        }
        2 => {
            // a group there before, perhaps of nobody
            let g = code!(w, cw4_group::contract);
            let empty = flag("empty");
            let members = if empty { vec![] } else { vec![member("alice", x)] };
            let g = w.inst(g, "owner", &cw4_group::msg::InstantiateMsg { admin: Some("owner".into()), members }).unwrap();
            let c = code!(w, dao_voting_cw4::contract, reply);
            use dao_voting_cw4::msg as v;
            (module(c, &v::InstantiateMsg { group_contract: v::GroupContract::Existing { address: g.to_string() } }), !empty, x)
        }
        _ => {
            // a new group
            let g = code!(w, cw4_group::contract);
            let c = code!(w, dao_voting_cw4::contract, reply);
            use dao_voting_cw4::msg as v;
            let n = sym::choose("members", 4) as usize;
            let x0 = sym::u128("weight", 0, 1 << 60);
            let twice = n > 1 && flag("twice");
            let mut l = vec![];
            for k in 0..n {
                l.push(member(if k == 1 && !twice { "bob" } else if k == 2 { "carol" } else { "alice" }, if k == 0 { x0 } else { sym::u128(&format!("weight{k}"), 0, 1 << 60) }));
            }
            let some = l.iter().fold(z(0), |a, m| a + Z::from(m.weight));
            let may = n > 0 && !twice && !some.is_zero();
            (module(c, &v::InstantiateMsg { group_contract: v::GroupContract::New { cw4_group_code_id: g, initial_members: l } }), may, x0)
        }
    };
    let r = make(&mut w, vm);
    check("made-iff-proper", r.is_ok() == may, "a DAO nobody can vote in, or whose stakes are of another token, was made, or a proper one refused");
    let Ok(d) = r else {
        cover("refused");
        return;
    };
    cover("made");
    w.advance(1, 1);
    check_eq("power", power(&w, &d, "alice"), have, "what was there before does not give its power");
    match what {
        1 => {
            use dao_voting_cw20_staked::msg as v;
            let st: Addr = w.q(&d.vm, &v::QueryMsg::StakingContract {});
            let o: cw_ownable::Ownership<Addr> = w.q(&st, &cw20_stake::msg::QueryMsg::Ownership {});
            check("staking-owned-by-dao", o.owner.as_ref() == Some(&d.core), "the stakes are not in the DAO's care");
            let i = w.app.wrap().query_wasm_contract_info(&st).unwrap();
            check("code", i.admin.as_deref() == Some(d.core.as_str()), "someone else than the DAO can replace the code");
        }
        3 => {
            use dao_voting_cw4::msg as v;
            let g: Addr = w.q(&d.vm, &v::QueryMsg::GroupContract {});
            let a: cw_controllers::AdminResponse = w.q(&g, &cw4_group::msg::QueryMsg::Admin {});
            check("owned-by-dao", a.admin.as_deref() == Some(d.core.as_str()), "the group is not the DAO's");
            let i = w.app.wrap().query_wasm_contract_info(&g).unwrap();
            check("code", i.admin.as_deref() == Some(d.core.as_str()), "someone else than the DAO can replace the code");
        }
        _ => {}
    }
}
/// a contract that makes what is needed, or claims to
struct Maker;
#[cosmwasm_schema::cw_serde]
struct Order {
    data: Option<Binary>,
}
impl cw_multi_test::Contract<Empty> for Maker {
    fn execute(&self, _d: DepsMut, _e: Env, _i: MessageInfo, m: Vec<u8>) -> anyhow::Result<Response> {
        let o: Order = from_json(m)?;
        let r = Response::new();
        Ok(match o.data {
            Some(d) => r.set_data(d),
            None => r,
        })
    }
    fn instantiate(&self, _d: DepsMut, _e: Env, _i: MessageInfo, _m: Vec<u8>) -> anyhow::Result<Response> {
        Ok(Response::new())
    }
    fn query(&self, _d: Deps, _e: Env, _m: Vec<u8>) -> anyhow::Result<Binary> {
        Err(anyhow::anyhow!("no"))
    }
    fn sudo(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> anyhow::Result<Response> {
        Err(anyhow::anyhow!("no"))
    }
    fn reply(&self, _d: DepsMut, _e: Env, _m: Reply) -> anyhow::Result<Response> {
        Err(anyhow::anyhow!("no"))
    }
    fn migrate(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> anyhow::Result<Response> {
        Ok(Response::new())
    }
}
/// the token comes from a factory
fn by_factory() {
    use dao_interface::state::ModuleInstantiateCallback;
    let mut w = W::new();
    let mc = w.store(Box::new(Maker));
    let maker = w.inst(mc, "owner", &Empty {}).unwrap();
    let rec = w.new_rec();
    let back = flag("callback");
    let then = back.then(|| ModuleInstantiateCallback {
        msgs: vec![WasmMsg::Execute { contract_addr: rec.to_string(), msg: to_json_binary(&"accept").unwrap(), funds: vec![] }.into()],
    });
    let silent = flag("silent");
    let call = |data: Binary| {
        let o = Order { data: if silent { None } else { Some(data) } };
        to_json_binary(&WasmMsg::Execute { contract_addr: maker.to_string(), msg: to_json_binary(&o).unwrap(), funds: vec![] }).unwrap()
    };
    let nft = flag("nft");
    let (r, may) = if nft {
        let n = sym::choose("supply", 3);
        let real = crate::c13::new_nft(&mut w);
        for i in 0..n {
            crate::c13::mint_nft(&mut w, &real, &format!("x{i}"), "alice");
        }
        let wrong = flag("wrong");
        let a = if wrong { rec.to_string() } else { real.to_string() };
        let data = to_json_binary(&dao_interface::nft::NftFactoryCallback { nft_contract: a, module_instantiate_callback: then }).unwrap();
        let c = code!(w, dao_voting_cw721_staked::contract, reply);
        use dao_voting_cw721_staked::msg as m;
        let i = m::InstantiateMsg { nft_contract: m::NftContract::Factory(call(data)), unstaking_duration: None, active_threshold: None };
        (make(&mut w, module(c, &i)), !wrong && !silent)
    } else {
        let (a, dao) = (sym::u128("alice", 0, MAXT), sym::u128("dao", 0, MAXT));
        w.mint("alice", a, "ugold");
        let count = if flag("count") { Some(sym::u128("active", 0, MAXT)) } else { None };
        // the DAO's own tokens cannot vote; its address is known beforehand
        let core = {
            let mut v = W::new();
            let mc = v.store(Box::new(Maker));
            let mk = v.inst(mc, "owner", &Empty {}).unwrap();
            v.new_rec();
            let _ = mk;
            let vm = v.store(Box::new(StubVm));
            make(&mut v, module(vm, &Empty {})).unwrap().core
        };
        w.mint(core.as_str(), dao, "ugold");
        let data = dao_interface::token::TokenFactoryCallback {
            denom: "ugold".into(),
            token_contract: Some("sometoken".into()),
            module_instantiate_callback: then,
        };
        let c = code!(w, dao_voting_token_staked::contract, reply);
        use dao_voting_token_staked::msg as m;
        let i = m::InstantiateMsg {
            token_info: m::TokenInfo::Factory(call(to_json_binary(&data).unwrap())),
            unstaking_duration: None,
            active_threshold: count.map(|c| ActiveThreshold::AbsoluteCount { count: Uint128::new(c) }),
        };
        let r = make(&mut w, module(c, &i));
        if let Ok(d) = &r {
            check("same-address", d.core == core, "harness: the DAO's address is not as foreseen");
            let t: Option<Addr> = w.q(&d.vm, &m::QueryMsg::TokenContract {});
            check("token-contract", t.as_ref() == Some(&Addr::unchecked("sometoken")), "the token's contract is not the one the factory named");
        }
        let may = !silent && a > 0 && count.map_or(true, |c| c > 0 && z(a).ge(&z(c)));
        (r, may)
    };
    check("made-iff-proper", r.is_ok() == may, "a DAO was made with what a factory did not make, or nobody can vote with, or a proper one refused");
    if let Ok(d) = r {
        cover("made");
        let l = w.rec(&rec);
        check("called-back", l.len() == back as usize && l.iter().all(|r| r.sender == d.core.as_str()), "the DAO did not do what the factory asked for");
    } else {
        cover("refused");
    }
}
/// a new collection of NFTs
fn new_nft() {
    use dao_voting_cw721_staked::msg as m;
    type NftX = cw721_base::msg::ExecuteMsg<Option<Empty>, Empty>;
    let mut w = W::new();
    let nc = code!(w, cw721_base::entry);
    let c = code!(w, dao_voting_cw721_staked::contract, reply);
    let n = sym::choose("number", 3);
    let twice = n == 2 && flag("twice");
    let other = flag("other");
    let mut l: Vec<Binary> = (0..n)
        .map(|i| {
            let id = if twice { "x0".to_string() } else { format!("x{i}") };
            let owner = if i == 0 { "alice" } else { "bob" };
            to_json_binary(&NftX::Mint { token_id: id, owner: owner.into(), token_uri: None, extension: None }).unwrap()
        })
        .collect();
    if other {
        // something that makes no token
        let o = NftX::UpdateOwnership(cw721_base::Action::TransferOwnership { new_owner: "mallory".into(), expiry: None });
        l.push(to_json_binary(&o).unwrap());
    }
    let count = if flag("count") { Some(sym::u128("active", 0, 5)) } else { None };
    let i = m::InstantiateMsg {
        nft_contract: m::NftContract::New {
            code_id: nc,
            label: "nfts".into(),
            msg: to_json_binary(&cw721_base::InstantiateMsg { name: "n".into(), symbol: "N".into(), minter: "mallory".into() }).unwrap(),
            initial_nfts: l,
        },
        unstaking_duration: None,
        active_threshold: count.map(|c| ActiveThreshold::AbsoluteCount { count: Uint128::new(c) }),
    };
    let r = make(&mut w, module(c, &i));
    let may = n > 0 && !twice && count.map_or(true, |c| c > 0 && c <= n as u128);
    check("made-iff-proper", r.is_ok() == may, "a DAO nobody can vote in was made, or a proper one refused");
    let Ok(d) = r else {
        cover("refused");
        return;
    };
    cover("made");
    let cfg: dao_voting_cw721_staked::state::Config = w.q(&d.vm, &m::QueryMsg::Config {});
    for i in 0..n {
        check("initial", crate::c13::nft_owner(&w, &cfg.nft_address, &format!("x{i}")) == if i == 0 { "alice" } else { "bob" }, "a holder was not given what was agreed");
    }
    let o: cw_ownable::Ownership<Addr> = w.q(&cfg.nft_address, &cw721_base::QueryMsg::<Empty>::Ownership {});
    check("owned-by-dao", o.owner.as_ref() == Some(&d.core) && o.pending_owner.is_none(), "the collection is not the DAO's");
    let i = w.app.wrap().query_wasm_contract_info(&cfg.nft_address).unwrap();
    check("code", i.admin.as_deref() == Some(d.core.as_str()), "someone else than the DAO can replace the collection's code");
    let m = NftX::Mint { token_id: "new".into(), owner: "carol".into(), token_uri: None, extension: None };
    for by in ["alice", "mallory", d.vm.as_str()] {
        check("more-by-dao", w.exec(by, &cfg.nft_address, &m, &[]).is_err(), "someone else than the DAO made a token");
    }
    check("more-by-dao", w.exec(&d.core, &cfg.nft_address, &m, &[]).is_ok(), "the DAO cannot make a token");
}
const fn sc(prop: &'static str, name: &'static str, bounds: &'static str, covers: &'static [&'static str], run: fn()) -> sym::Scenario {
    sym::Scenario { prop, name, bounds, covers, run }
}
const MB: &[&str] = &["minted", "burned", "sent"];
const MR: &[&str] = &["made", "refused"];
pub const ALL: &[sym::Scenario] = &[
    sc("C24", "issuer", "allowances and a first issue of up to 2^118, then 2 actions out of making, destroying, allowing, moving by force, paying, giving up the token, changing the owner, by several parties, of up to 2^118", MB, issuer),
    sc("C24", "issuer_rules", "2 changes out of freezing, allowing, denying, and choosing who is asked, by owner or another, then a payment, an issue or a move of up to 1000, or a payment of another token under the issuer's watch", &["sent", "held"], rules),
    sc("C24", "issuer_existing", "a token there before, up to 2^118 of it held, given to the issuer or not, asked before transfers or not; 1 action as above", MB, issuer_existing),
    sc("C24+", "issuer_more", "3 actions", MB, issuer_more),
    sc("C24+", "issuer_rules_more", "3 changes", &["sent", "held"], rules_more),
    sc("C25", "new_native", "up to 2 holders, the DAO or not, any count for activity, all up to 2^118", MR, new_native),
    sc("C25", "new_cw20", "up to 2 holders, the DAO or not, any count for activity, all up to 2^118; any waiting time to 10^9 s", MR, new_cw20),
    sc("C25", "new_nft", "up to 2 tokens, the same twice, a message that makes none; any count for activity up to 5", MR, new_nft),
    sc("C25", "adopted", "a CW20 token or a group there before, stakes of this or another token, or a new group of up to 3, one twice; all up to 2^60", MR, adopted),
    sc("C25", "by_factory", "a token with up to 2^118 held and up to 2^118 of the DAO's, or a collection of up to 2, from a factory that answers or not", MR, by_factory),
];
