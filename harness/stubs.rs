//! Stand-ins for the chain's own modules: staking and its rewards.
use anyhow::{anyhow, bail, Result as AnyResult};
use cosmwasm_schema::cw_serde;
use cosmwasm_std::*;
use cw_multi_test::{AppResponse, BankSudo, CosmosRouter, Distribution, Module, Staking, StakingSudo, SudoMsg};
use cosmwasm_schema::schemars::JsonSchema;
use serde::de::DeserializeOwned;
use std::fmt::Debug;

pub const BONDED: &str = "ustake";
pub const POOL: &str = "bonded_pool";
/// seconds
pub const UNBONDING: u64 = 100;

#[cw_serde]
#[derive(Default)]
pub struct Stakes {
    /// delegator, validator, amount
    pub bonded: Vec<(String, String, Uint128)>,
    /// delegator, validator, amount, when
    pub unbonding: Vec<(String, String, Uint128, u64)>,
}
impl Stakes {
    pub fn load(s: &dyn Storage) -> Stakes {
        s.get(b"stub_staking").map(|b| from_json(b).unwrap()).unwrap_or_default()
    }
    pub fn save(&self, s: &mut dyn Storage) {
        s.set(b"stub_staking", &to_json_vec(self).unwrap())
    }
    pub fn of(&mut self, d: &str, v: &str) -> &mut Uint128 {
        if let Some(i) = self.bonded.iter().position(|b| b.0 == d && b.1 == v) {
            return &mut self.bonded[i].2;
        }
        self.bonded.push((d.into(), v.into(), Uint128::zero()));
        &mut self.bonded.last_mut().unwrap().2
    }
}
pub struct StubStaking;
impl Module for StubStaking {
    type ExecT = StakingMsg;
    type QueryT = StakingQuery;
    type SudoT = StakingSudo;
    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        msg: StakingMsg,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        let mut s = Stakes::load(storage);
        let ok = |c: &Coin| if c.denom != BONDED || c.amount.is_zero() { Err(anyhow!("invalid coin")) } else { Ok(()) };
        match msg {
            StakingMsg::Delegate { validator, amount } => {
                ok(&amount)?;
                *s.of(sender.as_str(), &validator) += amount.amount;
                s.save(storage);
                let m = BankMsg::Send { to_address: POOL.into(), amount: vec![amount] };
                router.execute(api, storage, block, sender, m.into())?;
            }
            StakingMsg::Undelegate { validator, amount } => {
                ok(&amount)?;
                let b = s.of(sender.as_str(), &validator);
                *b = b.checked_sub(amount.amount)?;
                s.unbonding.push((sender.to_string(), validator, amount.amount, block.time.seconds() + UNBONDING));
                s.save(storage);
            }
            StakingMsg::Redelegate { src_validator, dst_validator, amount } => {
                ok(&amount)?;
                let b = s.of(sender.as_str(), &src_validator);
                *b = b.checked_sub(amount.amount)?;
                *s.of(sender.as_str(), &dst_validator) += amount.amount;
                s.save(storage);
            }
            _ => bail!("unsupported"),
        }
        Ok(AppResponse::default())
    }
    fn query(&self, _api: &dyn Api, storage: &dyn Storage, _querier: &dyn Querier, _block: &BlockInfo, q: StakingQuery) -> AnyResult<Binary> {
        Ok(match q {
            StakingQuery::BondedDenom {} => to_json_binary(&BondedDenomResponse { denom: BONDED.into() })?,
            StakingQuery::Delegation { delegator, validator } => {
                let b = *Stakes::load(storage).of(&delegator, &validator);
                let c = coin(b.u128(), BONDED);
                #[derive(serde::Serialize)]
                struct R {
                    delegation: Option<D>,
                }
                #[derive(serde::Serialize)]
                struct D {
                    delegator: String,
                    validator: String,
                    amount: Coin,
                    can_redelegate: Coin,
                    accumulated_rewards: Vec<Coin>,
                }
                let d = D { delegator, validator, amount: c.clone(), can_redelegate: c, accumulated_rewards: vec![] };
                to_json_binary(&R { delegation: if b.is_zero() { None } else { Some(d) } })?
            }
            _ => bail!("unsupported"),
        })
    }
    fn sudo<ExecC, QueryC>(
        &self,
        _api: &dyn Api,
        _storage: &mut dyn Storage,
        _router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        _block: &BlockInfo,
        _msg: StakingSudo,
    ) -> AnyResult<AppResponse> {
        bail!("unsupported")
    }
}
impl Staking for StubStaking {
    fn process_queue<ExecC, QueryC: CustomQuery>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
    ) -> AnyResult<AppResponse> {
        let mut s = Stakes::load(storage);
        if s.unbonding.is_empty() {
            return Ok(AppResponse::default());
        }
        let (due, rest): (Vec<_>, Vec<_>) = s.unbonding.into_iter().partition(|u| u.3 <= block.time.seconds());
        s.unbonding = rest;
        s.save(storage);
        for (d, _, a, _) in due {
            if !a.is_zero() {
                let m = BankMsg::Send { to_address: d, amount: vec![coin(a.u128(), BONDED)] };
                router.execute(api, storage, block, Addr::unchecked(POOL), m.into())?;
            }
        }
        Ok(AppResponse::default())
    }
}
/// Withdrawing rewards pays one token each time, to the address set.
pub struct StubDistribution;
impl Module for StubDistribution {
    type ExecT = DistributionMsg;
    type QueryT = Empty;
    type SudoT = Empty;
    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        msg: DistributionMsg,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        let key = format!("stub_withdraw_{sender}");
        match msg {
            DistributionMsg::SetWithdrawAddress { address } => storage.set(key.as_bytes(), address.as_bytes()),
            DistributionMsg::WithdrawDelegatorReward { .. } => {
                let to = storage.get(key.as_bytes()).map(|b| String::from_utf8(b).unwrap()).unwrap_or(sender.to_string());
                router.sudo(api, storage, block, SudoMsg::Bank(BankSudo::Mint { to_address: to, amount: coins(1, "uyield") }))?;
            }
            _ => bail!("unsupported"),
        }
        Ok(AppResponse::default())
    }
    fn query(&self, _api: &dyn Api, _storage: &dyn Storage, _querier: &dyn Querier, _block: &BlockInfo, _q: Empty) -> AnyResult<Binary> {
        bail!("unsupported")
    }
    fn sudo<ExecC, QueryC>(
        &self,
        _api: &dyn Api,
        _storage: &mut dyn Storage,
        _router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        _block: &BlockInfo,
        _msg: Empty,
    ) -> AnyResult<AppResponse> {
        bail!("unsupported")
    }
}
impl Distribution for StubDistribution {}

/// Tokens made by contracts, and the chain's own NFTs.
#[cw_serde]
#[derive(Default)]
pub struct Tokens {
    /// denom, admin, contract asked before each transfer
    pub denoms: Vec<(String, String, String)>,
    pub metadata: Vec<String>,
    /// token, owner
    pub onfts: Vec<(String, String)>,
}
impl Tokens {
    pub fn load(s: &dyn Storage) -> Tokens {
        s.get(b"stub_tokens").map(|b| from_json(b).unwrap()).unwrap_or_default()
    }
    pub fn save(&self, s: &mut dyn Storage) {
        s.set(b"stub_tokens", &to_json_vec(self).unwrap())
    }
    fn admin(&mut self, denom: &str, sender: &Addr) -> AnyResult<&mut (String, String, String)> {
        self.denoms.iter_mut().find(|d| d.0 == denom && d.1 == sender.as_str()).ok_or_else(|| anyhow!("not the admin of {denom}"))
    }
}
pub const COLLECTION: &str = "onfts";
use cw_tokenfactory_issuer::msg::SudoMsg as IssuerSudo;
use cw_tokenfactory_types::osmosis as tf;
use omniflix_std::types::omniflix::onft::v1beta1 as onft;
type PbCoin = osmosis_std::types::cosmos::base::v1beta1::Coin;
fn pb(c: Option<PbCoin>) -> AnyResult<Coin> {
    let c = c.ok_or_else(|| anyhow!("no coin"))?;
    Ok(Coin { amount: c.amount.parse::<Uint128>()?, denom: c.denom })
}
pub struct StubStargate;
impl cw_multi_test::Stargate for StubStargate {
    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        type_url: String,
        value: Binary,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        let mut t = Tokens::load(storage);
        let by = |s: &str| if s == sender.as_str() { Ok(()) } else { Err(anyhow!("not signed by {s}")) };
        if type_url == tf::MsgCreateDenom::TYPE_URL {
            let m = tf::MsgCreateDenom::try_from(value)?;
            by(&m.sender)?;
            let d = format!("factory/{}/{}", sender, m.subdenom);
            if t.denoms.iter().any(|x| x.0 == d) {
                bail!("exists");
            }
            t.denoms.push((d.clone(), sender.to_string(), String::new()));
            t.save(storage);
            let r = tf::MsgCreateDenomResponse { new_token_denom: d };
            return Ok(AppResponse { events: vec![], data: Some(r.to_proto_bytes().into()) });
        } else if type_url == tf::MsgMint::TYPE_URL {
            let m = tf::MsgMint::try_from(value)?;
            by(&m.sender)?;
            let c = pb(m.amount)?;
            t.admin(&c.denom, &sender)?;
            router.sudo(api, storage, block, SudoMsg::Bank(BankSudo::Mint { to_address: m.mint_to_address, amount: vec![c] }))?;
        } else if type_url == tf::MsgBurn::TYPE_URL {
            let m = tf::MsgBurn::try_from(value)?;
            by(&m.sender)?;
            let c = pb(m.amount)?;
            t.admin(&c.denom, &sender)?;
            router.execute(api, storage, block, Addr::unchecked(m.burn_from_address), BankMsg::Burn { amount: vec![c] }.into())?;
        } else if type_url == tf::MsgForceTransfer::TYPE_URL {
            let m = tf::MsgForceTransfer::try_from(value)?;
            by(&m.sender)?;
            let c = pb(m.amount)?;
            t.admin(&c.denom, &sender)?;
            let to_address = m.transfer_to_address;
            router.execute(api, storage, block, Addr::unchecked(m.transfer_from_address), BankMsg::Send { to_address, amount: vec![c] }.into())?;
        } else if type_url == tf::MsgChangeAdmin::TYPE_URL {
            let m = tf::MsgChangeAdmin::try_from(value)?;
            by(&m.sender)?;
            t.admin(&m.denom, &sender)?.1 = m.new_admin;
            t.save(storage);
        } else if type_url == tf::MsgSetBeforeSendHook::TYPE_URL {
            let m = tf::MsgSetBeforeSendHook::try_from(value)?;
            by(&m.sender)?;
            t.admin(&m.denom, &sender)?.2 = m.cosmwasm_address;
            t.save(storage);
        } else if type_url == tf::MsgSetDenomMetadata::TYPE_URL {
            let m = tf::MsgSetDenomMetadata::try_from(value)?;
            by(&m.sender)?;
            let d = m.metadata.ok_or_else(|| anyhow!("no metadata"))?;
            t.admin(&d.base, &sender)?;
            t.metadata.push(format!("{d:?}"));
            t.save(storage);
        } else if type_url == onft::MsgTransferOnft::TYPE_URL {
            let m = onft::MsgTransferOnft::try_from(value)?;
            by(&m.sender)?;
            let o = t.onfts.iter_mut().find(|o| o.0 == m.id && m.denom_id == COLLECTION && o.1 == m.sender);
            o.ok_or_else(|| anyhow!("not the owner"))?.1 = m.recipient;
            t.save(storage);
        } else {
            bail!("unsupported {type_url}");
        }
        Ok(AppResponse::default())
    }
    fn query(&self, _api: &dyn Api, storage: &dyn Storage, _querier: &dyn Querier, _block: &BlockInfo, path: String, data: Binary) -> AnyResult<Binary> {
        let t = Tokens::load(storage);
        Ok(match path.as_str() {
            "/OmniFlix.onft.v1beta1.Query/ONFT" => {
                let r = onft::QueryOnftRequest::try_from(data)?;
                let o = t.onfts.iter().find(|o| o.0 == r.id && r.denom_id == COLLECTION).ok_or_else(|| anyhow!("no such token"))?;
                let o = onft::Onft {
                    id: o.0.clone(),
                    owner: o.1.clone(),
                    metadata: None,
                    data: String::new(),
                    transferable: true,
                    extensible: true,
                    created_at: None,
                    nsfw: false,
                    royalty_share: String::new(),
                };
                to_json_binary(&onft::QueryOnftResponse { onft: Some(o) })?
            }
            "/OmniFlix.onft.v1beta1.Query/Supply" => {
                let r = onft::QuerySupplyRequest::try_from(data)?;
                let n = if r.denom_id == COLLECTION { t.onfts.len() as u64 } else { 0 };
                to_json_binary(&onft::QuerySupplyResponse { amount: n })?
            }
            _ => bail!("unsupported {path}"),
        })
    }
}
/// The chain's bank; it asks the contract set for a token before each transfer.
pub struct StubBank(pub cw_multi_test::BankKeeper);
impl Module for StubBank {
    type ExecT = BankMsg;
    type QueryT = BankQuery;
    type SudoT = BankSudo;
    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        msg: BankMsg,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        if let BankMsg::Send { to_address, amount } = &msg {
            for c in amount.iter().filter(|c| c.denom.starts_with("factory/")) {
                let hook = Tokens::load(storage).denoms.into_iter().find(|d| d.0 == c.denom).map(|d| d.2).unwrap_or_default();
                if !hook.is_empty() {
                    let m = IssuerSudo::BlockBeforeSend { from: sender.to_string(), to: to_address.clone(), amount: c.clone() };
                    router.sudo(api, storage, block, cw_multi_test::WasmSudo::new(&Addr::unchecked(hook), &m)?.into())?;
                }
            }
        }
        self.0.execute(api, storage, router, block, sender, msg)
    }
    fn query(&self, api: &dyn Api, storage: &dyn Storage, querier: &dyn Querier, block: &BlockInfo, q: BankQuery) -> AnyResult<Binary> {
        self.0.query(api, storage, querier, block, q)
    }
    fn sudo<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        msg: BankSudo,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        self.0.sudo(api, storage, router, block, msg)
    }
}
impl cw_multi_test::Bank for StubBank {}
