//! Staking of NFTs (C13), active thresholds (C14), powers by membership (C15).
use crate::common::*;
use crate::single as s;
use cosmwasm_std::*;
use cw_utils::{Duration, Expiration};
use dao_voting::threshold::{ActiveThreshold, Threshold};

const TMAX: u64 = 1_000_000_000;
const WHO: [&str; 2] = ["alice", "bob"];
const TOK: [&str; 3] = ["n1", "n2", "n3"];

fn z(v: u128) -> Z {
    Z::from(v)
}
type NftX = cw721_base::msg::ExecuteMsg<Option<Empty>, Empty>;
pub fn new_nft(w: &mut W) -> Addr {
    let c = code!(w, cw721_base::entry);
    w.inst(c, "minter", &cw721_base::InstantiateMsg { name: "n".into(), symbol: "N".into(), minter: "minter".into() }).unwrap()
}
pub fn mint_nft(w: &mut W, nft: &Addr, id: &str, owner: &str) {
    let m = NftX::Mint { token_id: id.into(), owner: owner.into(), token_uri: None, extension: None };
    w.exec("minter", nft, &m, &[]).unwrap();
}
pub fn nft_owner(w: &W, nft: &Addr, id: &str) -> String {
    let q = cw721_base::QueryMsg::<Empty>::OwnerOf { token_id: id.into(), include_expired: None };
    w.q::<cw721::OwnerOfResponse>(nft, &q).owner
}
fn power(w: &W, d: &Dao, who: &str, h: Option<u64>) -> u128 {
    use dao_interface::voting::VotingPowerAtHeightResponse as P;
    w.q::<P>(&d.core, &dao_interface::msg::QueryMsg::VotingPowerAtHeight { address: who.into(), height: h }).power.u128()
}
fn total_power(w: &W, d: &Dao, h: Option<u64>) -> u128 {
    use dao_interface::voting::TotalPowerAtHeightResponse as P;
    w.q::<P>(&d.core, &dao_interface::msg::QueryMsg::TotalPowerAtHeight { height: h }).power.u128()
}
fn dao_of(w: &mut W, vm: dao_interface::state::ModuleInstantiateInfo) -> R<Dao> {
    let p = s::single_code(w);
    let p = module(p, &s::cfg(Threshold::AbsoluteCount { threshold: Uint128::new(1) }));
    let p2 = code!(w, dao_proposal_multiple::contract, reply, migrate);
    let p2 = module(p2, &crate::pm::Cfg::new(true).multiple());
    let core = core_code(w);
    let a = w.inst(core, "creator", &core_msg(None, vm, vec![p, p2]))?;
    Ok(dao_parts(w, a))
}

// ---- C13 ----
use dao_hooks::nft_stake::{NftStakeChangedExecuteMsg, NftStakeChangedHookMsg};
use dao_voting_cw721_staked::msg as nm;
#[derive(Clone)]
enum At {
    With(usize),
    Staked(usize),
    Claim(usize, Z),
}
impl At {
    fn with(&self, i: usize) -> bool {
        matches!(self, At::With(j) if *j == i)
    }
    fn staked(&self, i: usize) -> bool {
        matches!(self, At::Staked(j) if *j == i)
    }
}
struct Nfts {
    w: W,
    d: Dao,
    nft: Addr,
    hook: Addr,
    heard: Vec<NftStakeChangedHookMsg>,
    at: Vec<At>,
    duration: Option<u64>,
    now: Z,
    past: Vec<(u64, [u128; 2])>,
}
impl Nfts {
    fn new(duration: Option<u64>) -> Nfts {
        let mut w = W::new();
        let nft = new_nft(&mut w);
        for (i, t) in TOK.iter().enumerate() {
            mint_nft(&mut w, &nft, t, WHO[if i == 2 { 1 } else { 0 }]);
        }
        let c = code!(w, dao_voting_cw721_staked::contract, reply);
        let vm = module(
            c,
            &nm::InstantiateMsg {
                nft_contract: nm::NftContract::Existing { address: nft.to_string() },
                unstaking_duration: duration.map(Duration::Time),
                active_threshold: None,
            },
        );
        let d = dao_of(&mut w, vm).unwrap();
        let hook = w.new_rec();
        w.exec(d.core.as_str(), &d.vm, &nm::ExecuteMsg::AddHook { addr: hook.to_string() }, &[]).unwrap();
        let at = vec![At::With(0), At::With(0), At::With(1)];
        Nfts { w, d, nft, hook, heard: vec![], at, duration, now: z(0), past: vec![] }
    }
    fn stake(&mut self, i: usize, t: usize) {
        let m = NftX::SendNft { contract: self.d.vm.to_string(), token_id: TOK[t].into(), msg: Binary::default() };
        let ok = self.w.exec(WHO[i], &self.nft.clone(), &m, &[]).is_ok();
        let may = self.at[t].with(i);
        check("stake-iff-own", ok == may, "a token was staked by someone other than its holder, or not for its holder");
        if may {
            self.at[t] = At::Staked(i);
            self.heard.push(NftStakeChangedHookMsg::Stake { addr: Addr::unchecked(WHO[i]), token_id: TOK[t].into() });
            cover("staked");
        }
    }
    fn unstake(&mut self, i: usize, l: &[usize]) {
        let ids: Vec<String> = l.iter().map(|t| TOK[*t].to_string()).collect();
        let ok = self.w.exec(WHO[i], &self.d.vm.clone(), &nm::ExecuteMsg::Unstake { token_ids: ids.clone() }, &[]).is_ok();
        let twice = (0..l.len()).any(|a| (0..a).any(|b| l[a] == l[b]));
        let may = !l.is_empty() && !twice && l.iter().all(|t| self.at[*t].staked(i));
        check("unstake-iff-own", ok == may, "unstaking was accepted for tokens not staked by the sender, or refused for those that are");
        if may {
            for t in l {
                self.at[*t] = match self.duration {
                    None => At::With(i),
                    Some(d) => At::Claim(i, &self.now + Z::from(d)),
                };
            }
            self.heard.push(NftStakeChangedHookMsg::Unstake { addr: Addr::unchecked(WHO[i]), token_ids: ids });
            cover("unstaked");
        }
    }
    fn claim(&mut self, i: usize) {
        let ok = self.w.exec(WHO[i], &self.d.vm.clone(), &nm::ExecuteMsg::ClaimNfts {}, &[]).is_ok();
        let mut any = false;
        for a in self.at.iter_mut() {
            if let At::Claim(j, t) = a {
                if *j == i && self.now.ge(t) {
                    any = true;
                    *a = At::With(i);
                }
            }
        }
        check("claim-iff-due", ok == any, "a claim was paid before its time or twice, or refused when due");
        if any {
            cover("claimed");
        }
    }
    fn staked(&self, i: usize) -> Vec<&'static str> {
        (0..3).filter(|t| self.at[*t].staked(i)).map(|t| TOK[t]).collect()
    }
    fn next_block(&mut self, secs: u64) {
        self.w.advance(1, secs);
        self.now = &self.now + Z::from(secs);
        self.past.push((self.w.block().height, [self.staked(0).len() as u128, self.staked(1).len() as u128]));
    }
    fn all(&self) {
        let vm = &self.d.vm;
        for t in 0..3 {
            let o = nft_owner(&self.w, &self.nft, TOK[t]);
            let want = match self.at[t] {
                At::With(i) => WHO[i],
                _ => vm.as_str(),
            };
            check("holder", o == want, "a token is not where its owner's actions put it");
        }
        for i in 0..2 {
            let l: Vec<String> = self.w.q(vm, &nm::QueryMsg::StakedNfts { address: WHO[i].into(), start_after: None, limit: None });
            check("staked-list", l == self.staked(i), "the tokens listed as staked are not those staked");
            let c: cw721_controllers::NftClaimsResponse = self.w.q(vm, &nm::QueryMsg::NftClaims { address: WHO[i].into() });
            for t in 0..3 {
                let got: Vec<_> = c.nft_claims.iter().filter(|c| c.token_id == TOK[t]).collect();
                match &self.at[t] {
                    At::Claim(j, at) if *j == i => {
                        let ok = got.len() == 1;
                        check("claims-listed", ok, "a claim is missing or doubled");
                        match got[0].release_at {
                            Expiration::AtTime(x) => check_eq("release", x.seconds(), at + Z::from(T0 as u128), "a claim is released at a wrong time"),
                            _ => check("release", false, "a claim is not released by time"),
                        }
                    }
                    _ => check("claims-listed", got.is_empty(), "a claim is listed that nobody has"),
                }
            }
        }
        for (h, p) in &self.past {
            for i in 0..2 {
                check("power", power(&self.w, &self.d, WHO[i], Some(*h)) == p[i], "the voting power at a height is not the number of tokens staked at its beginning");
            }
            check("total-power", total_power(&self.w, &self.d, Some(*h)) == p[0] + p[1], "the total voting power is not the sum of all");
        }
        let r: Vec<NftStakeChangedHookMsg> = self
            .w
            .rec(&self.hook)
            .iter()
            .map(|r| {
                let NftStakeChangedExecuteMsg::NftStakeChangeHook(m) = from_json(&r.msg).unwrap();
                m
            })
            .collect();
        check("announced", r == self.heard, "stakes and unstakes were not announced exactly as they happened");
    }
    fn step(&mut self, k: usize, kinds: &[u32]) {
        let n = |s: &str| format!("{s}{k}");
        match pick(&n("action"), kinds) {
            0 => {
                let (i, t) = (sym::choose(&n("who"), 2) as usize, sym::choose(&n("token"), 3) as usize);
                self.stake(i, t)
            }
            1 => {
                let i = sym::choose(&n("who"), 2) as usize;
                let l: &[usize] = pick(&n("tokens"), &[&[0], &[0, 1], &[1, 1], &[1, 2]]);
                self.unstake(i, l)
            }
            2 => {
                let i = sym::choose(&n("who"), 2) as usize;
                self.claim(i)
            }
            3 => {
                let t = sym::u64(&n("wait"), 0, TMAX);
                self.next_block(t)
            }
            _ => {
                let dao = flag(&n("by_dao"));
                let d = if flag(&n("timed")) { Some(sym::u64(&n("duration"), 0, TMAX)) } else { None };
                let m = nm::ExecuteMsg::UpdateConfig { duration: d.map(Duration::Time) };
                let from = if dao { self.d.core.to_string() } else { "bob".into() };
                let ok = self.w.exec(from, &self.d.vm.clone(), &m, &[]).is_ok();
                check("config-iff-dao", ok == (dao && d.map_or(true, |d| d > 0)), "the waiting time was changed by someone else than the DAO, or to zero");
                if ok {
                    self.duration = d;
                }
            }
        }
    }
}
fn nfts(n: usize) {
    let timed = flag("waiting");
    let d = if timed { Some(sym::u64("duration", 1, TMAX)) } else { None };
    let mut k = Nfts::new(d);
    k.stake(0, 0);
    if flag("both") {
        k.stake(0, 1);
        k.stake(1, 2);
    }
    k.next_block(0);
    for i in 0..n {
        k.step(i, &[0, 1, 2, 3, 4]);
    }
    k.next_block(1);
    k.all();
}
fn nfts3() {
    nfts(3)
}
fn nfts4() {
    nfts(4)
}
/// several claims, each due in its own time, whatever the waiting time is changed to
fn nft_claims() {
    let mut k = Nfts::new(Some(sym::u64("duration", 1, TMAX)));
    k.stake(0, 0);
    k.stake(0, 1);
    k.stake(1, 2);
    k.next_block(0);
    let l: &[(usize, usize)] = pick("order", &[&[(0, 0), (0, 1)], &[(0, 1), (0, 0)], &[(1, 2), (0, 0)]]);
    k.unstake(l[0].0, &[l[0].1]);
    k.next_block(sym::u64("wait0", 0, TMAX));
    if flag("changed") {
        let d = sym::u64("duration1", 1, TMAX);
        k.w.exec(k.d.core.to_string(), &k.d.vm.clone(), &nm::ExecuteMsg::UpdateConfig { duration: Some(Duration::Time(d)) }, &[]).unwrap();
        k.duration = Some(d);
    }
    k.unstake(l[1].0, &[l[1].1]);
    for i in 1..3 {
        k.next_block(sym::u64(&format!("wait{i}"), 0, TMAX));
        k.claim(l[0].0);
        k.all();
    }
}
/// a waiting time counted in blocks
fn nft_blocks() {
    let mut k = Nfts::new(None);
    k.w.exec(k.d.core.to_string(), &k.d.vm.clone(), &nm::ExecuteMsg::UpdateConfig { duration: Some(Duration::Height(3)) }, &[]).unwrap();
    k.stake(0, 0);
    k.stake(0, 1);
    let vm = k.d.vm.clone();
    let mut due = vec![];
    for t in 0..2 {
        k.w.advance(1, 5);
        k.w.exec("alice", &vm, &nm::ExecuteMsg::Unstake { token_ids: vec![TOK[t].into()] }, &[]).unwrap();
        due.push(k.w.block().height + 3);
        k.w.advance(sym::choose(&format!("blocks{t}"), 5) as u64, sym::u64(&format!("wait{t}"), 0, TMAX));
        let now = k.w.block().height;
        let held: Vec<bool> = (0..2).map(|t| nft_owner(&k.w, &k.nft, TOK[t]) == "alice").collect();
        let ok = k.w.exec("alice", &vm, &nm::ExecuteMsg::ClaimNfts {}, &[]).is_ok();
        let any = due.iter().enumerate().any(|(i, d)| now >= *d && !held[i]);
        check("claim-iff-due", ok == any, "a claim was paid before its time, or refused when due");
        for (i, d) in due.iter().enumerate() {
            let with = nft_owner(&k.w, &k.nft, TOK[i]) == "alice";
            check("holder", with == (now >= *d), "a token was returned before its time, or kept");
            if with {
                cover("claimed");
            }
        }
    }
}
/// several claims on tokens of the chain's own kind
fn onft_claims() {
    let mut k = Onfts::new(Some(sym::u64("duration", 1, TMAX)));
    k.prepare(0, &[0]);
    k.send(0, false);
    k.confirm(0, &[0]);
    let own = k.at[1].clone();
    let o = match own {
        Place::With(i) => i,
        _ => unreachable!(),
    };
    k.prepare(o, &[1]);
    k.send(1, false);
    k.confirm(o, &[1]);
    k.next_block(0);
    let l: [(usize, usize); 2] = if flag("reverse") { [(o, 1), (0, 0)] } else { [(0, 0), (o, 1)] };
    k.unstake(l[0].0, &[l[0].1]);
    k.next_block(sym::u64("wait0", 0, TMAX));
    if flag("changed") {
        let d = sym::u64("duration1", 1, TMAX);
        let dao = k.d.core.to_string();
        check("dao-may-change", k.x(&dao, &om::ExecuteMsg::UpdateConfig { duration: Some(Duration::Time(d)) }), "the DAO could not change the waiting time");
        k.duration = Some(d);
    }
    k.unstake(l[1].0, &[l[1].1]);
    for i in 1..3 {
        k.next_block(sym::u64(&format!("wait{i}"), 0, TMAX));
        k.claim(0);
        k.all();
    }
}
fn nft_authority() {
    let mut k = Nfts::new(Some(100));
    k.stake(0, 0);
    let from = pick("from", &["alice", "dao", "hook", "minter"]);
    let dao = from == "dao";
    let sender = match from {
        "dao" => k.d.core.to_string(),
        "hook" => k.hook.to_string(),
        a => a.into(),
    };
    let vm = k.d.vm.clone();
    use nm::ExecuteMsg as E;
    let hooks = |k: &Nfts| k.w.q::<cw_controllers::HooksResponse>(&k.d.vm, &nm::QueryMsg::Hooks {}).hooks;
    match sym::choose("action", 6) {
        0 => {
            let a = k.hook.to_string();
            let ok = k.w.exec(sender, &vm, &E::RemoveHook { addr: a }, &[]).is_ok();
            check("unhook-iff-dao", ok == dao && hooks(&k).is_empty() == dao, "someone else than the DAO removed a hook, or the DAO could not");
            if ok {
                let n = k.w.rec(&k.hook).len();
                k.w.exec("alice", &vm, &E::Unstake { token_ids: vec!["n1".into()] }, &[]).unwrap();
                check("unhooked-silent", k.w.rec(&k.hook).len() == n, "a removed hook is still called");
                return;
            }
        }
        1 => {
            let ok = k.w.exec(sender, &vm, &E::AddHook { addr: "newhook".into() }, &[]).is_ok();
            check("hook-iff-dao", ok == dao && (hooks(&k).len() == 2) == dao, "someone else than the DAO added a hook, or the DAO could not");
            return;
        }
        2 => {
            let m = E::ReceiveNft(cw721::Cw721ReceiveMsg { sender: "alice".into(), token_id: "n2".into(), msg: Binary::default() });
            check("forged-stake-refused", k.w.exec(sender, &vm, &m, &[]).is_err(), "a stake was booked without a token");
        }
        3 => {
            let other = new_nft(&mut k.w);
            mint_nft(&mut k.w, &other, "n2", "alice");
            let m = NftX::SendNft { contract: vm.to_string(), token_id: "n2".into(), msg: Binary::default() };
            check("foreign-stake-refused", k.w.exec("alice", &other, &m, &[]).is_err(), "a token of another collection was staked");
        }
        4 => {
            // someone allowed to move a token stakes it for themselves
            let m = NftX::Approve { spender: "bob".into(), token_id: "n2".into(), expires: None };
            k.w.exec("alice", &k.nft.clone(), &m, &[]).unwrap();
            let m = NftX::SendNft { contract: vm.to_string(), token_id: "n2".into(), msg: Binary::default() };
            k.w.exec("bob", &k.nft.clone(), &m, &[]).unwrap();
            k.at[1] = At::Staked(1);
            k.heard.push(NftStakeChangedHookMsg::Stake { addr: Addr::unchecked("bob"), token_id: "n2".into() });
        }
        _ => {
            // as many claims as allowed, and one more
            for i in 0..71 {
                let id = format!("x{i}");
                mint_nft(&mut k.w, &k.nft.clone(), &id, "alice");
                let m = NftX::SendNft { contract: vm.to_string(), token_id: id.clone(), msg: Binary::default() };
                k.w.exec("alice", &k.nft.clone(), &m, &[]).unwrap();
            }
            let ids = |a: u32, b: u32| (a..b).map(|i| format!("x{i}")).collect::<Vec<_>>();
            k.w.exec("alice", &vm, &E::Unstake { token_ids: ids(0, 69) }, &[]).unwrap();
            check("claims-limited", k.w.exec("alice", &vm, &E::Unstake { token_ids: ids(69, 71) }, &[]).is_err(), "more claims than can be handled were made");
            k.w.exec("alice", &vm, &E::Unstake { token_ids: ids(69, 70) }, &[]).unwrap();
            k.w.advance(1, 100);
            check("many-claims-paid", k.w.exec("alice", &vm, &E::ClaimNfts {}, &[]).is_ok(), "claims could not be paid");
            for id in ids(0, 70) {
                check("holder", nft_owner(&k.w, &k.nft, &id) == "alice", "a claim was not paid");
            }
            return;
        }
    }
    k.next_block(1);
    k.all();
}

// ---- C13: tokens of the chain's own kind ----
use crate::stubs::{Tokens, COLLECTION};
use dao_voting_onft_staked::msg as om;
use omniflix_std::types::omniflix::onft::v1beta1::MsgTransferOnft;
pub fn onft_give(w: &mut W, id: &str, owner: &str) {
    let mut t = Tokens::load(w.app.storage());
    t.onfts.push((id.into(), owner.into()));
    t.save(w.app.storage_mut());
}
pub fn onft_send(w: &mut W, id: &str, from: &str, to: &str) -> bool {
    let m = MsgTransferOnft { denom_id: COLLECTION.into(), id: id.into(), sender: from.into(), recipient: to.into() };
    w.msg(from, m.into()).is_ok()
}
#[derive(Clone)]
enum Place {
    With(usize),
    /// sent to the contract, not confirmed
    Sent,
    Staked(usize),
    Claim(usize, Z),
}
impl PartialEq for Place {
    fn eq(&self, o: &Place) -> bool {
        match (self, o) {
            (Place::With(i), Place::With(j)) | (Place::Staked(i), Place::Staked(j)) => i == j,
            (Place::Sent, Place::Sent) => true,
            _ => false,
        }
    }
}
struct Onfts {
    w: W,
    d: Dao,
    hook: Addr,
    heard: Vec<NftStakeChangedHookMsg>,
    at: Vec<Place>,
    ready: Vec<Option<usize>>,
    duration: Option<u64>,
    now: Z,
    past: Vec<(u64, [u128; 2])>,
}
fn ids(l: &[usize]) -> Vec<String> {
    l.iter().map(|t| TOK[*t].to_string()).collect()
}
impl Onfts {
    fn new(duration: Option<u64>) -> Onfts {
        let mut w = W::new();
        for t in 0..2 {
            onft_give(&mut w, TOK[t], WHO[t]);
        }
        let c = code!(w, dao_voting_onft_staked::contract);
        let i = om::InstantiateMsg {
            onft_collection: om::OnftCollection::Existing { id: COLLECTION.into() },
            unstaking_duration: duration.map(Duration::Time),
            active_threshold: None,
        };
        let d = dao_of(&mut w, module(c, &i)).unwrap();
        let hook = w.new_rec();
        w.exec(d.core.as_str(), &d.vm, &om::ExecuteMsg::AddHook { addr: hook.to_string() }, &[]).unwrap();
        Onfts { w, d, hook, heard: vec![], at: vec![Place::With(0), Place::With(1)], ready: vec![None, None], duration, now: z(0), past: vec![] }
    }
    fn x(&mut self, by: &str, m: &om::ExecuteMsg) -> bool {
        let vm = self.d.vm.clone();
        self.w.exec(by, &vm, m, &[]).is_ok()
    }
    fn prepare(&mut self, i: usize, l: &[usize]) {
        let ok = self.x(WHO[i], &om::ExecuteMsg::PrepareStake { token_ids: ids(l) });
        let may = l.iter().all(|t| self.at[*t] == Place::With(i));
        check("prepare-iff-own", ok == may, "a token was announced for staking by someone other than its holder, or not for its holder");
        if may {
            for t in l {
                self.ready[*t] = Some(i);
            }
        }
    }
    fn send(&mut self, t: usize, away: bool) {
        let Place::With(i) = self.at[t] else { return };
        let vm = self.d.vm.to_string();
        let to = if away { WHO[1 - i] } else { vm.as_str() };
        check("token-sent", onft_send(&mut self.w, TOK[t], WHO[i], to), "harness: a holder cannot send a token");
        self.at[t] = if away { Place::With(1 - i) } else { Place::Sent };
    }
    fn confirm(&mut self, i: usize, l: &[usize]) {
        let ok = self.x(WHO[i], &om::ExecuteMsg::ConfirmStake { token_ids: ids(l) });
        let may = l.iter().all(|t| self.ready[*t] == Some(i) && self.at[*t] == Place::Sent);
        check("stake-iff-own", ok == may, "a token was staked by someone other than who announced and sent it, or not for them");
        if may {
            let mut l = l.to_vec();
            l.sort();
            l.dedup();
            for t in l {
                self.ready[t] = None;
                self.at[t] = Place::Staked(i);
                self.heard.push(NftStakeChangedHookMsg::Stake { addr: Addr::unchecked(WHO[i]), token_id: TOK[t].into() });
                cover("staked");
            }
        }
    }
    /// by a holder or the DAO
    fn cancel(&mut self, by: usize, l: &[usize], to: Option<usize>) {
        let dao = by == 2;
        if dao && l.iter().any(|t| !matches!(self.at[*t], Place::With(_) | Place::Sent)) {
            // the DAO may take tokens that are staked
            return;
        }
        let from = if dao { self.d.core.to_string() } else { WHO[by].into() };
        let m = om::ExecuteMsg::CancelStake { token_ids: ids(l), recipient: to.map(|i| WHO[i].into()) };
        let ok = self.x(&from, &m);
        let may = l.iter().all(|t| {
            if dao {
                self.at[*t] != Place::Sent || to.or(self.ready[*t]).is_some()
            } else {
                self.ready[*t] == Some(by) || self.at[*t] == Place::With(by)
            }
        });
        check("cancel-iff-own", ok == may, "a token was sent back for someone it does not belong to, or not for them");
        if may {
            for t in l {
                let r = self.ready[*t].take();
                if self.at[*t] == Place::Sent {
                    let to = if dao { to.or(r) } else { r };
                    self.at[*t] = Place::With(to.unwrap());
                    cover("sent back");
                }
            }
        }
    }
    fn unstake(&mut self, i: usize, l: &[usize]) {
        let ok = self.x(WHO[i], &om::ExecuteMsg::Unstake { token_ids: ids(l) });
        let twice = (0..l.len()).any(|a| (0..a).any(|b| l[a] == l[b]));
        let may = !l.is_empty() && !twice && l.iter().all(|t| self.at[*t] == Place::Staked(i));
        check("unstake-iff-own", ok == may, "unstaking was accepted for tokens not staked by the sender, or refused for those that are");
        if may {
            for t in l {
                self.at[*t] = match self.duration {
                    None => Place::With(i),
                    Some(d) => Place::Claim(i, &self.now + Z::from(d)),
                };
            }
            self.heard.push(NftStakeChangedHookMsg::Unstake { addr: Addr::unchecked(WHO[i]), token_ids: ids(l) });
            cover("unstaked");
        }
    }
    fn claim(&mut self, i: usize) {
        let ok = self.x(WHO[i], &om::ExecuteMsg::ClaimNfts {});
        let mut any = false;
        for a in self.at.iter_mut() {
            if let Place::Claim(j, t) = a {
                if *j == i && self.now.ge(t) {
                    any = true;
                    *a = Place::With(i);
                }
            }
        }
        check("claim-iff-due", ok == any, "a claim was paid before its time or twice, or refused when due");
        if any {
            cover("claimed");
        }
    }
    fn staked(&self, i: usize) -> Vec<&'static str> {
        (0..2).filter(|t| self.at[*t] == Place::Staked(i)).map(|t| TOK[t]).collect()
    }
    fn next_block(&mut self, secs: u64) {
        self.w.advance(1, secs);
        self.now = &self.now + Z::from(secs);
        self.past.push((self.w.block().height, [self.staked(0).len() as u128, self.staked(1).len() as u128]));
    }
    fn all(&self) {
        let vm = &self.d.vm;
        let tokens = Tokens::load(self.w.app.storage());
        for t in 0..2 {
            let o = &tokens.onfts[t].1;
            let want = match self.at[t] {
                Place::With(i) => WHO[i],
                _ => vm.as_str(),
            };
            check("holder", o == want, "a token is not where its owner's actions put it");
        }
        for i in 0..2 {
            let l: Vec<String> = self.w.q(vm, &om::QueryMsg::StakedNfts { address: WHO[i].into(), start_after: None, limit: None });
            check("staked-list", l == self.staked(i), "the tokens listed as staked are not those staked");
            let c: cw721_controllers::NftClaimsResponse = self.w.q(vm, &om::QueryMsg::NftClaims { address: WHO[i].into() });
            for t in 0..2 {
                let got: Vec<_> = c.nft_claims.iter().filter(|c| c.token_id == TOK[t]).collect();
                match &self.at[t] {
                    Place::Claim(j, at) if *j == i => {
                        check("claims-listed", got.len() == 1, "a claim is missing or doubled");
                        match got[0].release_at {
                            Expiration::AtTime(x) => check_eq("release", x.seconds(), at + Z::from(T0 as u128), "a claim is released at a wrong time"),
                            _ => check("release", false, "a claim is not released by time"),
                        }
                    }
                    _ => check("claims-listed", got.is_empty(), "a claim is listed that nobody has"),
                }
            }
        }
        for (h, p) in &self.past {
            for i in 0..2 {
                check("power", power(&self.w, &self.d, WHO[i], Some(*h)) == p[i], "the voting power at a height is not the number of tokens staked at its beginning");
            }
            check("total-power", total_power(&self.w, &self.d, Some(*h)) == p[0] + p[1], "the total voting power is not the sum of all");
        }
        let r: Vec<NftStakeChangedHookMsg> = self
            .w
            .rec(&self.hook)
            .iter()
            .map(|r| {
                let NftStakeChangedExecuteMsg::NftStakeChangeHook(m) = from_json(&r.msg).unwrap();
                m
            })
            .collect();
        check("announced", r == self.heard, "stakes and unstakes were not announced exactly as they happened");
    }
    fn step(&mut self, k: usize) {
        let n = |s: &str| format!("{s}{k}");
        let who = || sym::choose(&n("who"), 2) as usize;
        match sym::choose(&n("action"), 8) {
            0 => {
                let i = who();
                self.prepare(i, pick(&n("tokens"), &[&[0], &[0, 1]]))
            }
            1 => self.send(sym::choose(&n("token"), 2) as usize, flag(&n("away"))),
            2 => {
                let i = who();
                self.confirm(i, pick(&n("tokens"), &[&[0], &[0, 0], &[0, 1]]))
            }
            3 => {
                let i = sym::choose(&n("canceller"), 3) as usize;
                let l: &[usize] = pick(&n("tokens"), &[&[0], &[1, 0]]);
                let to = if i != 0 && flag(&n("named")) { Some(1) } else { None };
                self.cancel(i, l, to)
            }
            4 => {
                let i = who();
                self.unstake(i, pick(&n("tokens"), &[&[0], &[0, 0], &[0, 1]]))
            }
            5 => self.claim(who()),
            6 => {
                let t = sym::u64(&n("wait"), 0, TMAX);
                self.next_block(t)
            }
            _ => {
                let dao = flag(&n("by_dao"));
                let d = if flag(&n("timed")) { Some(sym::u64(&n("duration"), 0, TMAX)) } else { None };
                let from = if dao { self.d.core.to_string() } else { "bob".into() };
                let ok = self.x(&from, &om::ExecuteMsg::UpdateConfig { duration: d.map(Duration::Time) });
                check("config-iff-dao", ok == (dao && d.map_or(true, |d| d > 0)), "the waiting time was changed by someone else than the DAO, or to zero");
                if ok {
                    self.duration = d;
                }
            }
        }
    }
}
fn onfts_n(n: usize) {
    let timed = flag("waiting");
    let d = if timed { Some(sym::u64("duration", 1, TMAX)) } else { None };
    let mut k = Onfts::new(d);
    let start = sym::choose("start", 8);
    if start > 0 {
        k.prepare(0, &[0]);
    }
    if (4..7).contains(&start) {
        // sold meanwhile, to someone who may announce it too
        k.send(0, true);
        if start > 4 {
            k.prepare(1, &[0, 1]);
        }
        if start > 5 {
            k.send(0, false);
            k.send(1, false);
        }
    } else if start > 1 {
        k.send(0, false);
    }
    if start == 3 || start == 7 {
        k.confirm(0, &[0]);
        k.prepare(1, &[1]);
        k.send(1, false);
        k.confirm(1, &[1]);
        if start == 7 {
            k.unstake(0, &[0]);
        }
    }
    k.next_block(0);
    for i in 0..n {
        k.step(i);
    }
    k.next_block(1);
    k.all();
}
fn onfts() {
    onfts_n(2)
}
fn onfts3() {
    onfts_n(3)
}

// ---- C14 ----
const MAXS: u128 = 1 << 120;
#[derive(Clone, Copy, PartialEq)]
enum Vm {
    Cw20,
    Native,
    Nft,
    Onft,
}
impl Vm {
    fn counts(self) -> bool {
        self == Vm::Nft || self == Vm::Onft
    }
}
enum Thr {
    None,
    Count(u128),
    Pct(u128),
}
impl Thr {
    fn any(n: &str, max: u128) -> Thr {
        match sym::choose(n, 3) {
            0 => Thr::None,
            1 => Thr::Count(sym::u128(&format!("{n}_count"), 0, max)),
            _ => Thr::Pct(sym::u128(&format!("{n}_pct"), 0, 2_000_000_000_000_000_000)),
        }
    }
    fn msg(&self) -> Option<ActiveThreshold> {
        match self {
            Thr::None => None,
            Thr::Count(c) => Some(ActiveThreshold::AbsoluteCount { count: Uint128::new(*c) }),
            Thr::Pct(p) => Some(ActiveThreshold::Percentage { percent: Decimal::new(Uint128::new(*p)) }),
        }
    }
    fn valid(&self, supply: u128) -> bool {
        match *self {
            Thr::None => true,
            Thr::Count(c) => c > 0 && c <= supply,
            Thr::Pct(p) => p > 0 && p <= 1_000_000_000_000_000_000,
        }
    }
}
/// a DAO over one kind of staking; None if it is refused
fn active_dao(w: &mut W, kind: Vm, supply: u128, thr: &Thr) -> R<(Dao, Addr)> {
    let (vm, t) = match kind {
        Vm::Cw20 => {
            let token = w.new_cw20(&[("alice", supply)]);
            let c = code!(w, dao_voting_cw20_staked::contract, reply);
            let sc = code!(w, cw20_stake::contract);
            use dao_voting_cw20_staked::msg as m;
            let t = m::TokenInfo::Existing {
                address: token.to_string(),
                staking_contract: m::StakingInfo::New { staking_code_id: sc, unstaking_duration: None },
            };
            (module(c, &m::InstantiateMsg { token_info: t, active_threshold: thr.msg() }), token)
        }
        Vm::Native => {
            w.mint("alice", supply, "ustake");
            let c = code!(w, dao_voting_token_staked::contract, reply);
            use dao_voting_token_staked::msg as m;
            let i = m::InstantiateMsg {
                token_info: m::TokenInfo::Existing { denom: "ustake".into() },
                unstaking_duration: None,
                active_threshold: thr.msg(),
            };
            (module(c, &i), Addr::unchecked("none"))
        }
        Vm::Nft => {
            let nft = new_nft(w);
            for i in 0..supply {
                mint_nft(w, &nft, &format!("x{i}"), "alice");
            }
            let c = code!(w, dao_voting_cw721_staked::contract, reply);
            let i = nm::InstantiateMsg {
                nft_contract: nm::NftContract::Existing { address: nft.to_string() },
                unstaking_duration: None,
                active_threshold: thr.msg(),
            };
            (module(c, &i), nft)
        }
        Vm::Onft => {
            for i in 0..supply {
                onft_give(w, &format!("x{i}"), "alice");
            }
            let c = code!(w, dao_voting_onft_staked::contract);
            let i = om::InstantiateMsg {
                onft_collection: om::OnftCollection::Existing { id: COLLECTION.into() },
                unstaking_duration: None,
                active_threshold: thr.msg(),
            };
            (module(c, &i), Addr::unchecked("none"))
        }
    };
    dao_of(w, vm).map(|d| (d, t))
}
fn active_stake(w: &mut W, d: &Dao, t: &Addr, kind: Vm, amount: u128) {
    match kind {
        Vm::Cw20 => {
            let st: Addr = w.q(&d.vm, &dao_voting_cw20_staked::msg::QueryMsg::StakingContract {});
            let m = to_json_binary(&cw20_stake::msg::ReceiveMsg::Stake {}).unwrap();
            let m = cw20::Cw20ExecuteMsg::Send { contract: st.to_string(), amount: Uint128::new(amount), msg: m };
            w.exec("alice", t, &m, &[]).unwrap();
        }
        Vm::Native => {
            w.exec("alice", &d.vm, &dao_voting_token_staked::msg::ExecuteMsg::Stake {}, &coins(amount, "ustake")).unwrap();
        }
        Vm::Nft => {
            for i in 0..amount {
                let m = NftX::SendNft { contract: d.vm.to_string(), token_id: format!("x{i}"), msg: Binary::default() };
                w.exec("alice", t, &m, &[]).unwrap();
            }
        }
        Vm::Onft => {
            let token_ids: Vec<String> = (0..amount).map(|i| format!("x{i}")).collect();
            w.exec("alice", &d.vm, &om::ExecuteMsg::PrepareStake { token_ids: token_ids.clone() }, &[]).unwrap();
            for t in &token_ids {
                onft_send(w, t, "alice", d.vm.as_str());
            }
            w.exec("alice", &d.vm, &om::ExecuteMsg::ConfirmStake { token_ids }, &[]).unwrap();
        }
    }
}
fn active_unstake(w: &mut W, d: &Dao, kind: Vm, amount: u128) {
    match kind {
        Vm::Cw20 => {
            let st: Addr = w.q(&d.vm, &dao_voting_cw20_staked::msg::QueryMsg::StakingContract {});
            w.exec("alice", &st, &cw20_stake::msg::ExecuteMsg::Unstake { amount: Uint128::new(amount) }, &[]).unwrap();
        }
        Vm::Native => {
            w.exec("alice", &d.vm, &dao_voting_token_staked::msg::ExecuteMsg::Unstake { amount: Uint128::new(amount) }, &[]).unwrap();
        }
        Vm::Nft | Vm::Onft => {
            let token_ids = (0..amount).map(|i| format!("x{i}")).collect();
            w.exec("alice", &d.vm, &nm::ExecuteMsg::Unstake { token_ids }, &[]).unwrap();
        }
    }
}
/// what the contract answers is right to a billionth of a token, and proposals follow it
fn active_check(w: &mut W, d: &Dao, thr: &Thr, staked: Z, supply: u128) {
    use dao_interface::voting::{IsActiveResponse, Query};
    let a = w.q::<IsActiveResponse>(&d.vm, &Query::IsActive {}).active;
    match *thr {
        Thr::None => check("active-without-threshold", a, "a DAO without threshold is not active"),
        Thr::Count(c) => check("active-iff-count", a == staked.ge(&z(c)), "a DAO is active below its count, or not active above it"),
        Thr::Pct(p) => {
            let need = z(supply) * z(p);
            let have = &staked * z(1_000_000_000_000_000_000);
            if a {
                check_lt("not-active-below", need, have + z(1_000_000_000), "a DAO is active although too little is staked");
            } else if !staked.is_zero() {
                check_lt("active-above", have, need, "a DAO is not active although enough is staked");
            }
        }
    }
    cover(if a { "active" } else { "inactive" });
    // with no power at all a proposal is refused for that
    let mods: Vec<dao_interface::state::ProposalModule> =
        w.q(&d.core, &dao_interface::msg::QueryMsg::ProposalModules { start_after: None, limit: None });
    if staked.is_zero() {
        return;
    }
    let r = w.exec("alice", &mods[0].address, &s::propose_msg(vec![], None), &[]);
    check("proposals-iff-active", r.is_ok() == a, "a proposal was made while inactive, or refused while active");
    let m = dao_proposal_multiple::msg::ExecuteMsg::Propose(crate::pm::multi_propose(vec![], vec![], None));
    let r = w.exec("alice", &mods[1].address, &m, &[]);
    check("proposals-iff-active", r.is_ok() == a, "a proposal was made while inactive, or refused while active");
}
fn any_amounts(kind: Vm) -> (u128, u128) {
    if kind.counts() {
        (sym::choose("supply", 4) as u128 + 1, sym::choose("staked", 4) as u128)
    } else {
        (sym::u128("supply", 1, MAXS), sym::u128("staked", 0, MAXS))
    }
}
fn any_vm() -> Vm {
    pick("kind", &[Vm::Cw20, Vm::Native, Vm::Nft, Vm::Onft])
}
/// set at the start, before and after stakes change
fn active() {
    let kind = any_vm();
    let (supply, staked) = any_amounts(kind);
    sym::assume_le(staked, supply);
    let thr = Thr::any("thr", if kind.counts() { 6 } else { MAXS + 1 });
    let mut w = W::new();
    let r = active_dao(&mut w, kind, supply, &thr);
    check("accepted-iff-valid", r.is_ok() == thr.valid(supply), "a threshold out of reach or out of range was accepted, or a proper one refused");
    let Ok((d, t)) = r else {
        cover("refused");
        return;
    };
    if staked > 0 {
        active_stake(&mut w, &d, &t, kind, staked);
    }
    w.advance(1, 1);
    active_check(&mut w, &d, &thr, z(staked), supply);
    if staked > 0 {
        let back = if kind.counts() { 1 } else { sym::u128("back", 1, MAXS) };
        sym::assume_le(back, staked);
        active_unstake(&mut w, &d, kind, back);
        w.advance(1, 1);
        active_check(&mut w, &d, &thr, z(staked) - z(back), supply);
    }
}
/// changed later, by the DAO or not; a proposal made while active stays votable
fn active_update() {
    let kind = any_vm();
    let (supply, staked) = any_amounts(kind);
    sym::assume_le(staked, supply);
    if staked == 0 {
        return;
    }
    let mut w = W::new();
    let (d, t) = active_dao(&mut w, kind, supply, &Thr::None).unwrap();
    active_stake(&mut w, &d, &t, kind, staked);
    w.advance(1, 1);
    w.exec("alice", &d.prop, &s::propose_msg(vec![], None), &[]).unwrap();
    let dao = flag("dao");
    let thr = Thr::any("thr", if kind.counts() { 6 } else { MAXS + 1 });
    let from = if dao { d.core.to_string() } else { "alice".into() };
    // all these contracts take the same message
    let m = nm::ExecuteMsg::UpdateActiveThreshold { new_threshold: thr.msg() };
    let ok = w.exec(from, &d.vm, &m, &[]).is_ok();
    check("changed-iff-dao-and-valid", ok == (dao && thr.valid(supply)), "a threshold was changed by someone else than the DAO or to a value out of reach, or a proper change refused");
    let thr = if ok { thr } else { Thr::None };
    let got: dao_voting::threshold::ActiveThresholdResponse = w.q(&d.vm, &nm::QueryMsg::ActiveThreshold {});
    check("kept", got.active_threshold == thr.msg(), "the threshold kept is not the one set");
    active_check(&mut w, &d, &thr, z(staked), supply);
    check("votable", s::vote(&mut w, &d, "alice", 1, dao_voting::voting::Vote::Yes).is_ok(), "a vote on an open proposal was refused");
}

// ---- C15 ----
const MAXW: u64 = 1 << 61;
/// Members of a group hold their weight.
fn group() {
    let mut w = W::new();
    let g = code!(w, cw4_group::contract);
    let c = code!(w, dao_voting_cw4::contract, reply);
    let mut wt = [sym::u64("alice", 0, MAXW), sym::u64("bob", 0, MAXW)];
    let same = flag("same");
    let m = |a: &str, weight| cw4::Member { addr: a.into(), weight };
    let members = if same { vec![m("alice", wt[0]), m("bob", wt[1]), m("alice", wt[0])] } else { vec![m("alice", wt[0]), m("bob", wt[1])] };
    use dao_voting_cw4::msg as v;
    let vm = module(c, &v::InstantiateMsg { group_contract: v::GroupContract::New { cw4_group_code_id: g, initial_members: members } });
    let r = dao_of(&mut w, vm);
    let ok = !same && (wt[0] > 0 || wt[1] > 0);
    check("group-iff-proper", r.is_ok() == ok, "a group without power or with doubled members was accepted, or a proper one refused");
    let Ok(d) = r else {
        cover("refused");
        return;
    };
    let group: Addr = w.q(&d.vm, &v::QueryMsg::GroupContract {});
    let mut past = vec![];
    w.advance(1, 1);
    past.push((w.block().height, wt));
    for k in 0..2 {
        let i = sym::choose(&format!("who{k}"), 2) as usize;
        let by = pick(&format!("by{k}"), &["dao", "vm", "alice"]);
        let from = match by {
            "dao" => d.core.to_string(),
            "vm" => d.vm.to_string(),
            a => a.into(),
        };
        let n = if flag(&format!("rm{k}")) { None } else { Some(sym::u64(&format!("weight{k}"), 0, MAXW)) };
        let msg = cw4_group::msg::ExecuteMsg::UpdateMembers {
            remove: if n.is_none() { vec![WHO[i].to_string()] } else { vec![] },
            add: n.map_or(vec![], |n| vec![m(WHO[i], n)]),
        };
        let ok = w.exec(from, &group, &msg, &[]).is_ok();
        check("members-by-dao-only", ok == (by == "dao"), "someone else than the DAO changed its members, or it could not");
        if ok {
            wt[i] = n.unwrap_or(0);
            cover("changed");
        }
        if flag(&format!("block{k}")) {
            w.advance(1, 1);
            past.push((w.block().height, wt));
        }
    }
    w.advance(1, 1);
    past.push((w.block().height, wt));
    powers_were(&w, &d, &past);
}
fn powers_were(w: &W, d: &Dao, past: &[(u64, [u64; 2])]) {
    for (h, p) in past {
        for i in 0..2 {
            check_eq("power", power(w, d, WHO[i], Some(*h)), p[i] as u128, "the power at a height is not the member's weight at its beginning");
        }
        check_eq("total-power", total_power(w, d, Some(*h)), z(p[0] as u128) + z(p[1] as u128), "the total power is not the sum of all");
        check("no-power", power(w, d, "carol", Some(*h)) == 0, "someone else has power");
    }
    let p = past.last().unwrap().1;
    for i in 0..2 {
        check_eq("power-now", power(w, d, WHO[i], None), p[i] as u128, "the current power is not the member's weight");
    }
    check_eq("total-power-now", total_power(w, d, None), z(p[0] as u128) + z(p[1] as u128), "the current total power is not the sum of all");
}
type RoleX = cw721_roles::msg::ExecuteMsg;
type RoleQ = cw721_roles::msg::QueryMsg;
use dao_cw721_extensions::roles as rx;
/// Holders of role tokens hold the tokens' weight.
fn roles_n(steps: usize) {
    let mut w = W::new();
    let rc = code!(w, cw721_roles::contract);
    let c = code!(w, dao_voting_cw721_roles::contract, reply);
    use dao_voting_cw721_roles::msg as v;
    let ext = |weight| rx::MetadataExt { role: None, weight };
    // token: holder and weight, while it exists
    let mut tok: [Option<(usize, u64)>; 3] =
        [Some((0, sym::u64("w1", 0, MAXW))), Some((sym::choose("owner2", 2) as usize, sym::u64("w2", 0, MAXW))), None];
    let nfts = (0..2)
        .map(|t| {
            let (o, wt) = tok[t].unwrap();
            v::NftMintMsg { token_id: TOK[t].into(), owner: WHO[o].into(), token_uri: None, extension: ext(wt) }
        })
        .collect();
    let vm = module(
        c,
        &v::InstantiateMsg {
            nft_contract: v::NftContract::New { code_id: rc, label: "l".into(), name: "r".into(), symbol: "R".into(), initial_nfts: nfts },
        },
    );
    let d = dao_of(&mut w, vm).unwrap();
    let cfg: dao_voting_cw721_roles::state::Config = w.q(&d.vm, &v::QueryMsg::Config {});
    let nft = cfg.nft_address;
    let dao = d.core.to_string();
    w.exec(&dao, &nft, &RoleX::UpdateOwnership(cw721_base::Action::AcceptOwnership), &[]).unwrap();
    let hook = w.new_rec();
    w.exec(&dao, &nft, &RoleX::Extension { msg: rx::ExecuteExt::AddHook { addr: hook.to_string() } }, &[]).unwrap();
    let sum = |tok: &[Option<(usize, u64)>; 3]| {
        let mut p = [0u64; 2];
        for x in tok.iter().flatten() {
            p[x.0] = p[x.0] + x.1;
        }
        p
    };
    w.advance(1, 1);
    let mut past = vec![(w.block().height, sum(&tok))];
    // what listeners have been told
    let mut told = sum(&tok);
    let mut heard = 0;
    for k in 0..steps {
        let n = |s: &str| format!("{s}{k}");
        let from = if flag(&n("dao")) { dao.clone() } else { pick(&n("from"), &["alice", d.vm.as_str()]).to_string() };
        let by_dao = from == dao;
        let t = sym::choose(&n("token"), 2) as usize;
        let before = sum(&tok);
        let (msg, ok, after): (RoleX, bool, _) = match sym::choose(&n("action"), 5) {
            0 => {
                let (o, wt) = (sym::choose(&n("to"), 2) as usize, sym::u64(&n("weight"), 0, MAXW));
                // a new token, or one that exists
                let t = if tok[2].is_none() { 2 } else { t };
                let m = RoleX::Mint { token_id: TOK[t].into(), owner: WHO[o].into(), token_uri: None, extension: ext(wt) };
                let mut a = tok;
                a[t] = Some((o, wt));
                (m, tok[t].is_none(), a)
            }
            1 => {
                let mut a = tok;
                a[t] = None;
                (RoleX::Burn { token_id: TOK[t].into() }, tok[t].is_some(), a)
            }
            2 => {
                let o = sym::choose(&n("to"), 2) as usize;
                let mut a = tok;
                a[t] = tok[t].map(|x| (o, x.1));
                (RoleX::TransferNft { recipient: WHO[o].into(), token_id: TOK[t].into() }, tok[t].is_some(), a)
            }
            3 => {
                let wt = sym::u64(&n("weight"), 0, MAXW);
                let mut a = tok;
                a[t] = tok[t].map(|x| (x.0, wt));
                let m = RoleX::Extension { msg: rx::ExecuteExt::UpdateTokenWeight { token_id: TOK[t].into(), weight: wt } };
                (m, tok[t].map_or(false, |x| x.1 != wt), a)
            }
            _ => {
                let m = RoleX::Extension { msg: rx::ExecuteExt::UpdateTokenRole { token_id: TOK[t].into(), role: Some("r".into()) } };
                (m, tok[t].is_some(), tok)
            }
        };
        let got = w.exec(from, &nft, &msg, &[]).is_ok();
        check("changed-iff-dao", got == (by_dao && ok), "a role was changed by someone else than the DAO, or a proper change refused");
        if got {
            tok = after;
            cover("changed");
        }
        let now = sum(&tok);
        for r in &w.rec(&hook)[heard..] {
            let m: cw4::MemberChangedHookMsg = match from_json(&r.msg).unwrap() {
                Hooked::MemberChangedHook(m) => m,
            };
            for df in m.diffs {
                let i = WHO.iter().position(|a| *a == df.key).unwrap();
                check_eq("hook-old", df.old.unwrap_or(0) as u128, told[i] as u128, "listeners were told a wrong earlier weight");
                told[i] = df.new.unwrap_or(0);
            }
        }
        heard = w.rec(&hook).len();
        for i in 0..2 {
            check_eq("hook-new", told[i] as u128, now[i] as u128, "listeners were not told of a change of weight");
        }
        let _ = before;
        if flag(&n("block")) {
            w.advance(1, 1);
            past.push((w.block().height, now));
        }
    }
    w.advance(1, 1);
    past.push((w.block().height, sum(&tok)));
    powers_were(&w, &d, &past);
    for t in 0..3 {
        let q = RoleQ::OwnerOf { token_id: TOK[t].into(), include_expired: None };
        let o = w.try_q::<cw721::OwnerOfResponse>(&nft, &q).ok().map(|o| o.owner);
        check("holder", o.as_deref() == tok[t].map(|x| WHO[x.0]), "a token is not with its holder");
    }
}
#[cosmwasm_schema::cw_serde]
enum Hooked {
    MemberChangedHook(cw4::MemberChangedHookMsg),
}
fn roles() {
    roles_n(2)
}
fn roles3() {
    roles_n(3)
}

const fn sc(prop: &'static str, name: &'static str, bounds: &'static str, covers: &'static [&'static str], run: fn()) -> sym::Scenario {
    sym::Scenario { prop, name, bounds, covers, run }
}
const CN: &[&str] = &["staked", "unstaked", "claimed"];
pub const ALL: &[sym::Scenario] = &[
    sc("C13", "nfts", "three tokens of two holders; some staked, then three actions out of staking, unstaking any of them, claiming, a new block after up to 10^9 s, changing the waiting time", CN, nfts3),
    sc("C13", "nft_claims", "three staked tokens of two holders; two unstaked one after the other in any order by one or both, the waiting time changed between or not; claims after each of two waits of up to 10^9 s", &["staked", "unstaked", "claimed"], nft_claims),
    sc("C13", "nft_blocks", "a waiting time of three blocks, two unstakings, each followed by up to four blocks and a claim", &["claimed"], nft_blocks),
    sc("C13", "onft_claims", "two tokens of the chain's own kind unstaked one after the other, the waiting time changed between or not; claims after each of two waits of up to 10^9 s", &["staked", "unstaked", "claimed"], onft_claims),
    sc("C13", "nft_authority", "hooks, forged and foreign stakes, approved movers, the limit on claims, by holder, DAO, minter and another contract", &[], nft_authority),
    sc("C13", "onfts", "two tokens of the chain's own kind of two holders, announced, sent, sold, announced again or staked or not; then two actions out of announcing, sending away or in, confirming, taking back by holders or DAO, unstaking, claiming, a new block after up to 10^9 s, changing the waiting time; the DAO takes no token that is staked", &["staked", "unstaked", "claimed", "sent back"], onfts),
    sc("C13+", "onfts3", "three actions", &["staked", "unstaked", "claimed", "sent back"], onfts3),
    sc("C13+", "nfts4", "four actions", CN, nfts4),
    sc("C14", "active", "cw20 and native stakes with supply and stake to 2^120, NFTs to 4; any count, any percentage to 200 % in steps of 10^-18; an unstake afterwards", &["active", "inactive", "refused"], active),
    sc("C14", "active_update", "the same set later, by the DAO or a member", &["active", "inactive"], active_update),
    sc("C15", "group", "two members with weights to 2^61, two changes of members by DAO, voting module or member, at the same or different heights", &["changed", "refused"], group),
    sc("C15", "roles", "two or three role tokens of two holders with weights to 2^61; two actions out of minting, burning, transferring, changing weight or role, by DAO, voting module or member", &["changed"], roles),
    sc("C15+", "roles3", "three actions", &["changed"], roles3),
];
