//! A chain with the real contracts on it, plus two stand-ins: a voting module
//! whose powers the harness sets, and a contract that records what it is sent.
#![allow(dead_code)]
use anyhow::{anyhow, Result as AnyResult};
use cosmwasm_schema::cw_serde;
use cosmwasm_std::*;
use crate::stubs::{StubBank, StubDistribution, StubStaking, StubStargate};
use cosmwasm_std::testing::{MockApi, MockStorage};
use cw_multi_test::{App, AppBuilder, AppResponse, BankKeeper, BankSudo, Contract, ContractWrapper, Executor, FailingModule, GovFailingModule, IbcFailingModule, SudoMsg, WasmKeeper};
use serde::{de::DeserializeOwned, Serialize};
pub use sym::{check, check_eq, check_le, check_lt, cover, flag, pick, Z};

pub const T0: u64 = 1_700_000_000;

/// A panic in a contract is an error, as it is on chain.
pub struct Guard(pub Box<dyn Contract<Empty>>);
fn g<R>(f: impl FnOnce() -> AnyResult<R>) -> AnyResult<R> {
    match sym::catch(f) {
        Ok(r) => r,
        Err(e) => Err(anyhow!(e)),
    }
}
impl Contract<Empty> for Guard {
    fn execute(&self, d: DepsMut, e: Env, i: MessageInfo, m: Vec<u8>) -> AnyResult<Response> {
        g(|| self.0.execute(d, e, i, m))
    }
    fn instantiate(&self, d: DepsMut, e: Env, i: MessageInfo, m: Vec<u8>) -> AnyResult<Response> {
        g(|| self.0.instantiate(d, e, i, m))
    }
    fn query(&self, d: Deps, e: Env, m: Vec<u8>) -> AnyResult<Binary> {
        g(|| self.0.query(d, e, m))
    }
    fn sudo(&self, d: DepsMut, e: Env, m: Vec<u8>) -> AnyResult<Response> {
        g(|| self.0.sudo(d, e, m))
    }
    fn reply(&self, d: DepsMut, e: Env, m: Reply) -> AnyResult<Response> {
        g(|| self.0.reply(d, e, m))
    }
    fn migrate(&self, d: DepsMut, e: Env, m: Vec<u8>) -> AnyResult<Response> {
        g(|| self.0.migrate(d, e, m))
    }
}

#[macro_export]
macro_rules! code {
    ($w:expr, $m:path) => {{
        use $m as m;
        $w.store(Box::new(cw_multi_test::ContractWrapper::new(m::execute, m::instantiate, m::query)))
    }};
    ($w:expr, $m:path, reply, sudo) => {{
        use $m as m;
        $w.store(Box::new(
            cw_multi_test::ContractWrapper::new(m::execute, m::instantiate, m::query).with_reply(m::reply).with_sudo(m::sudo),
        ))
    }};
    ($w:expr, $m:path, migr) => {{
        use $m as m;
        $w.store(Box::new(cw_multi_test::ContractWrapper::new(m::execute, m::instantiate, m::query).with_migrate(m::migrate)))
    }};
    ($w:expr, $m:path, reply) => {{
        use $m as m;
        $w.store(Box::new(cw_multi_test::ContractWrapper::new(m::execute, m::instantiate, m::query).with_reply(m::reply)))
    }};
    ($w:expr, $m:path, reply, migrate) => {{
        use $m as m;
        $w.store(Box::new(
            cw_multi_test::ContractWrapper::new(m::execute, m::instantiate, m::query).with_reply(m::reply).with_migrate(m::migrate),
        ))
    }};
}

pub type Chain =
    App<StubBank, MockApi, MockStorage, FailingModule<Empty, Empty, Empty>, WasmKeeper<Empty, Empty>, StubStaking, StubDistribution, IbcFailingModule, GovFailingModule, StubStargate>;
pub struct W {
    pub app: Chain,
    n: u32,
}
pub type R<T> = Result<T, String>;

impl W {
    pub fn new() -> W {
        let mut app = AppBuilder::new()
            .with_bank(StubBank(BankKeeper::new()))
            .with_staking(StubStaking)
            .with_distribution(StubDistribution)
            .with_stargate(StubStargate)
            .build(|_, _, _| {});
        app.update_block(|b| {
            b.height = 100;
            b.time = Timestamp::from_seconds(T0);
        });
        W { app, n: 0 }
    }
    pub fn store(&mut self, c: Box<dyn Contract<Empty>>) -> u64 {
        self.app.store_code(Box::new(Guard(c)))
    }
    pub fn inst(&mut self, code: u64, from: &str, msg: &impl Serialize) -> R<Addr> {
        self.inst_full(code, from, msg, &[], None)
    }
    pub fn inst_full(&mut self, code: u64, from: &str, msg: &impl Serialize, funds: &[Coin], admin: Option<String>) -> R<Addr> {
        let app = &mut self.app;
        flat(sym::catch(|| app.instantiate_contract(code, Addr::unchecked(from), msg, funds, "l", admin)))
    }
    /// A transaction; its outcome is part of what a replay has to reproduce.
    pub fn exec(&mut self, from: impl AsRef<str>, to: &Addr, msg: &(impl Serialize + std::fmt::Debug), funds: &[Coin]) -> R<AppResponse> {
        let app = &mut self.app;
        let r = flat(sym::catch(|| app.execute_contract(Addr::unchecked(from.as_ref()), to.clone(), msg, funds)));
        self.n += 1;
        if std::env::var_os("SYM_SHOW").is_some() {
            eprintln!("tx{} {} {:?}", self.n, from.as_ref(), r.as_ref().map(|_| ()));
        }
        sym::note(&format!("tx{}", self.n), if r.is_ok() { "ok" } else { "err" });
        r
    }
    /// A message sent by an account or contract itself.
    pub fn msg(&mut self, from: impl AsRef<str>, msg: CosmosMsg) -> R<AppResponse> {
        let app = &mut self.app;
        let r = flat(sym::catch(|| app.execute(Addr::unchecked(from.as_ref()), msg)));
        self.n += 1;
        sym::note(&format!("tx{}", self.n), if r.is_ok() { "ok" } else { "err" });
        r
    }
    /// An upgrade by the account or contract the chain lets upgrade this one.
    pub fn migrate(&mut self, from: &str, to: &Addr, msg: &impl Serialize, code: u64) -> R<AppResponse> {
        let app = &mut self.app;
        let r = flat(sym::catch(|| app.migrate_contract(Addr::unchecked(from), to.clone(), msg, code)));
        self.n += 1;
        sym::note(&format!("tx{}", self.n), if r.is_ok() { "ok" } else { "err" });
        r
    }
    pub fn q<T: DeserializeOwned>(&self, to: &Addr, msg: &impl Serialize) -> T {
        self.try_q(to, msg).unwrap()
    }
    pub fn try_q<T: DeserializeOwned>(&self, to: &Addr, msg: &impl Serialize) -> R<T> {
        match sym::catch(|| self.app.wrap().query_wasm_smart::<T>(to.clone(), msg)) {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(e)) => Err(e.to_string()),
            Err(e) => Err(e),
        }
    }
    pub fn mint(&mut self, to: &str, amount: u128, denom: &str) {
        if amount == 0 {
            return;
        }
        self.app
            .sudo(SudoMsg::Bank(BankSudo::Mint { to_address: to.into(), amount: vec![coin(amount, denom)] }))
            .unwrap();
    }
    pub fn bal(&self, a: impl AsRef<str>, denom: &str) -> u128 {
        self.app.wrap().query_balance(a.as_ref(), denom).unwrap().amount.u128()
    }
    pub fn cw20(&self, token: &Addr, a: impl AsRef<str>) -> u128 {
        self.q::<cw20::BalanceResponse>(token, &cw20::Cw20QueryMsg::Balance { address: a.as_ref().into() }).balance.u128()
    }
    pub fn block(&self) -> BlockInfo {
        self.app.block_info()
    }
    /// dh must be concrete when contracts keep state by height
    pub fn advance(&mut self, dh: u64, ds: u64) {
        self.app.update_block(|b| {
            b.height += dh;
            b.time = b.time.plus_seconds(ds);
        });
    }
    pub fn set_time(&mut self, secs: u64) {
        self.app.update_block(|b| b.time = Timestamp::from_seconds(secs));
    }
    pub fn new_cw20(&mut self, balances: &[(&str, u128)]) -> Addr {
        let code = self.store(Box::new(ContractWrapper::new(
            cw20_base::contract::execute,
            cw20_base::contract::instantiate,
            cw20_base::contract::query,
        )));
        self.inst(
            code,
            "owner",
            &cw20_base::msg::InstantiateMsg {
                name: "token".into(),
                symbol: "TOK".into(),
                decimals: 6,
                initial_balances: balances
                    .iter()
                    .map(|(a, b)| cw20::Cw20Coin { address: a.to_string(), amount: Uint128::new(*b) })
                    .collect(),
                mint: Some(cw20::MinterResponse { minter: "minter".into(), cap: None }),
                marketing: None,
            },
        )
        .unwrap()
    }
    pub fn new_vm(&mut self) -> Addr {
        let c = self.store(Box::new(StubVm));
        self.inst(c, "owner", &Empty {}).unwrap()
    }
    pub fn new_rec(&mut self) -> Addr {
        let c = self.store(Box::new(Recorder));
        self.inst(c, "owner", &Empty {}).unwrap()
    }
    pub fn rec_fail(&mut self, rec: &Addr, fail: bool) {
        self.exec("owner", rec, &RecCtl { rec_fail: fail }, &[]).unwrap();
    }
    pub fn rec(&self, rec: &Addr) -> Vec<Rec> {
        self.q(rec, &Empty {})
    }
    /// powers apply from the current height on
    pub fn set_powers(&mut self, vm: &Addr, powers: &[(&str, u128)]) {
        self.set_powers_total(vm, powers, powers.iter().map(|p| p.1).fold(0, |a, b| a + b), true)
    }
    pub fn set_powers_total(&mut self, vm: &Addr, powers: &[(&str, u128)], total: u128, active: bool) {
        let h = self.block().height;
        let c = Checkpoint {
            height: h,
            total: Uint128::new(total),
            active,
            powers: powers.iter().map(|(a, p)| (a.to_string(), Uint128::new(*p))).collect(),
        };
        self.app.execute_contract(Addr::unchecked("owner"), vm.clone(), &c, &[]).unwrap();
    }
}
fn flat<T>(r: Result<AnyResult<T>, String>) -> R<T> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(e) => Err(e),
    }
}

#[cw_serde]
pub struct Checkpoint {
    pub height: u64,
    pub total: Uint128,
    pub active: bool,
    pub powers: Vec<(String, Uint128)>,
}
/// Voting module with powers set by the harness: a query for height h sees the
/// last change made at or before h.
pub struct StubVm;
impl Contract<Empty> for StubVm {
    fn execute(&self, d: DepsMut, _e: Env, _i: MessageInfo, m: Vec<u8>) -> AnyResult<Response> {
        let c: Checkpoint = from_json(m)?;
        let mut v: Vec<Checkpoint> = from_json(d.storage.get(b"c").unwrap())?;
        v.push(c);
        d.storage.set(b"c", &to_json_vec(&v)?);
        Ok(Response::new())
    }
    fn instantiate(&self, d: DepsMut, _e: Env, i: MessageInfo, _m: Vec<u8>) -> AnyResult<Response> {
        d.storage.set(b"c", b"[]");
        d.storage.set(b"dao", i.sender.as_bytes());
        Ok(Response::new())
    }
    fn query(&self, d: Deps, e: Env, m: Vec<u8>) -> AnyResult<Binary> {
        use dao_interface::voting::*;
        let q: Query = from_json(m)?;
        let v: Vec<Checkpoint> = from_json(d.storage.get(b"c").unwrap())?;
        let at = |h: u64| v.iter().rev().find(|c| c.height <= h);
        Ok(match q {
            Query::VotingPowerAtHeight { address, height } => {
                let h = height.unwrap_or(e.block.height);
                let p = at(h).and_then(|c| c.powers.iter().find(|p| p.0 == address)).map(|p| p.1).unwrap_or_default();
                to_json_binary(&VotingPowerAtHeightResponse { power: p, height: h })?
            }
            Query::TotalPowerAtHeight { height } => {
                let h = height.unwrap_or(e.block.height);
                to_json_binary(&TotalPowerAtHeightResponse { power: at(h).map(|c| c.total).unwrap_or_default(), height: h })?
            }
            Query::Info {} => to_json_binary(&InfoResponse { info: cw2::ContractVersion { contract: "stub".into(), version: "0".into() } })?,
            Query::IsActive {} => to_json_binary(&IsActiveResponse { active: v.last().map_or(true, |c| c.active) })?,
            Query::Dao {} => to_json_binary(&Addr::unchecked(String::from_utf8(d.storage.get(b"dao").unwrap())?))?,
            _ => return Err(anyhow!("unsupported")),
        })
    }
    fn sudo(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> AnyResult<Response> {
        Err(anyhow!("no"))
    }
    fn reply(&self, _d: DepsMut, _e: Env, _m: Reply) -> AnyResult<Response> {
        Err(anyhow!("no"))
    }
    fn migrate(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> AnyResult<Response> {
        Ok(Response::new())
    }
}

#[cw_serde]
pub struct Rec {
    pub sender: String,
    pub funds: Vec<Coin>,
    pub msg: Binary,
}
#[cw_serde]
pub struct RecCtl {
    pub rec_fail: bool,
}
/// Accepts any message and keeps it; can be told to fail.
pub struct Recorder;
impl Contract<Empty> for Recorder {
    fn execute(&self, d: DepsMut, _e: Env, i: MessageInfo, m: Vec<u8>) -> AnyResult<Response> {
        if let Ok(c) = from_json::<RecCtl>(&m) {
            d.storage.set(b"fail", if c.rec_fail { b"1" } else { b"0" });
            return Ok(Response::new());
        }
        if d.storage.get(b"fail").unwrap() == b"1" {
            return Err(anyhow!("told to fail"));
        }
        let mut v: Vec<Rec> = from_json(d.storage.get(b"r").unwrap())?;
        v.push(Rec { sender: i.sender.to_string(), funds: i.funds, msg: m.into() });
        d.storage.set(b"r", &to_json_vec(&v)?);
        Ok(Response::new())
    }
    fn instantiate(&self, d: DepsMut, _e: Env, _i: MessageInfo, _m: Vec<u8>) -> AnyResult<Response> {
        d.storage.set(b"r", b"[]");
        d.storage.set(b"fail", b"0");
        Ok(Response::new())
    }
    fn query(&self, d: Deps, _e: Env, _m: Vec<u8>) -> AnyResult<Binary> {
        Ok(d.storage.get(b"r").unwrap().into())
    }
    fn sudo(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> AnyResult<Response> {
        Err(anyhow!("no"))
    }
    fn reply(&self, _d: DepsMut, _e: Env, _m: Reply) -> AnyResult<Response> {
        Err(anyhow!("no"))
    }
    fn migrate(&self, _d: DepsMut, _e: Env, _m: Vec<u8>) -> AnyResult<Response> {
        Ok(Response::new())
    }
}

// ---- DAOs ----
use dao_interface::state::{Admin, ModuleInstantiateInfo};
pub fn module(code_id: u64, msg: &impl Serialize) -> ModuleInstantiateInfo {
    ModuleInstantiateInfo {
        code_id,
        msg: to_json_binary(msg).unwrap(),
        admin: Some(Admin::CoreModule {}),
        funds: vec![],
        label: "module".into(),
    }
}
pub struct Dao {
    pub core: Addr,
    pub vm: Addr,
    pub prop: Addr,
}
pub fn core_code(w: &mut W) -> u64 {
    code!(w, dao_dao_core::contract, reply, migrate)
}
pub fn core_msg(admin: Option<&str>, vm: ModuleInstantiateInfo, props: Vec<ModuleInstantiateInfo>) -> dao_interface::msg::InstantiateMsg {
    dao_interface::msg::InstantiateMsg {
        admin: admin.map(|a| a.to_string()),
        name: "dao".into(),
        description: "a dao".into(),
        image_url: None,
        automatically_add_cw20s: true,
        automatically_add_cw721s: true,
        voting_module_instantiate_info: vm,
        proposal_modules_instantiate_info: props,
        initial_items: None,
        dao_uri: None,
    }
}
/// the modules of a DAO
pub fn dao_parts(w: &W, core: Addr) -> Dao {
    let vm: Addr = w.q(&core, &dao_interface::msg::QueryMsg::VotingModule {});
    let p: Vec<dao_interface::state::ProposalModule> =
        w.q(&core, &dao_interface::msg::QueryMsg::ProposalModules { start_after: None, limit: None });
    Dao { core, vm, prop: p[0].address.clone() }
}
/// A DAO over the stand-in voting module with one proposal module.
pub fn dao_with(w: &mut W, admin: Option<&str>, prop: ModuleInstantiateInfo) -> R<Dao> {
    let core = core_code(w);
    let vm = w.store(Box::new(StubVm));
    let a = w.inst(core, "creator", &core_msg(admin, module(vm, &Empty {}), vec![prop]))?;
    Ok(dao_parts(w, a))
}
