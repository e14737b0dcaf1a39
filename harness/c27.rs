//! Lists: every entry once, in order, from any place, in both directions, with any limit (C27).
use crate::c08::{Kind, Pp};
use crate::common::*;
use crate::pm::Cfg;
use crate::single as s;
use cosmwasm_std::*;
use cw_utils::Duration;
use dao_interface::msg::{ExecuteMsg as X, QueryMsg as Q};
use dao_voting::pre_propose::PreProposeSubmissionPolicy as Policy;

/// One page of a list: from after a place, in the order of the list, up to the limit. `want` is the whole list in that
/// order, `other` are places that are not in the list; `before` tells the order of two places.
fn page<K: Clone + PartialEq + std::fmt::Debug>(want: &[K], other: &[K], before: impl Fn(&K, &K) -> bool, get: impl Fn(Option<K>, Option<u64>) -> Vec<K>) {
    check("all-listed", get(None, None) == want, "a list without limit does not show just what there is");
    let places: Vec<K> = want.iter().chain(other).cloned().collect();
    let k = sym::choose("from", places.len() as u32 + 1) as usize;
    let from = (k > 0).then(|| places[k - 1].clone());
    let rest: Vec<K> = match &from {
        None => want.to_vec(),
        Some(f) => want.iter().filter(|e| before(f, e)).cloned().collect(),
    };
    let limit = pick("limit", &[0, 1, 2, 3, 5, 30, u32::MAX as u64]);
    let got = get(from.clone(), Some(limit));
    check("in-order", rest.starts_with(&got), "a page of a list does not show the entries that follow in order");
    check("within-limit", got.len() as u64 <= limit, "a page is longer than its limit");
    if got.len() < rest.len() {
        cover("cut");
        check("up-to-limit", got.len() as u64 == limit, "a page is cut before its limit");
    } else {
        cover("last-page");
    }
    check("no-limit", get(from, None) == rest, "a list from a place on does not show all that follows");
}
fn up<K: Ord>(a: &K, b: &K) -> bool {
    a < b
}
fn down<K: Ord>(a: &K, b: &K) -> bool {
    a > b
}
fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
/// the entries of a list after some are put in and some taken out again
fn kept<'a>(all: &[&'a str]) -> (Vec<&'a str>, Vec<&'a str>, Vec<&'a str>) {
    let (mut put, mut out, mut kept) = (vec![], vec![], vec![]);
    for (i, a) in all.iter().enumerate() {
        match sym::choose(&format!("entry{i}"), 3) {
            0 => {}
            1 => {
                put.push(*a);
                kept.push(*a);
            }
            _ => {
                put.push(*a);
                out.push(*a);
            }
        }
    }
    (put, out, kept)
}
fn some_dao(w: &mut W) -> Dao {
    let c = s::cfg(dao_voting::threshold::Threshold::AbsoluteCount { threshold: Uint128::new(1) });
    s::dao(w, &c).unwrap()
}

/// What the DAO's core lists.
fn core_items() {
    let mut w = W::new();
    let d = some_dao(&mut w);
    let me = d.core.to_string();
    let (put, out, mut left) = kept(&["b", "a", "ab"]);
    for k in &put {
        w.exec(&me, &d.core, &X::SetItem { key: k.to_string(), value: format!("old {k}") }, &[]).unwrap();
    }
    let again = flag("again");
    for k in &put {
        if again {
            w.exec(&me, &d.core, &X::SetItem { key: k.to_string(), value: format!("new {k}") }, &[]).unwrap();
        }
    }
    for k in &out {
        w.exec(&me, &d.core, &X::RemoveItem { key: k.to_string() }, &[]).unwrap();
    }
    left.sort();
    left.reverse();
    let age = if again { "new" } else { "old" };
    page(&strs(&left), &strs(&["aa", "zz"]), down, |start_after, limit| {
        let l: Vec<(String, String)> = w.q(&d.core, &Q::ListItems { start_after, limit: limit.map(|l| l as u32) });
        check("values", l.iter().all(|(k, v)| *v == format!("{age} {k}")), "a list shows a value that was replaced");
        l.into_iter().map(|(k, _)| k).collect()
    });
}
fn core_subdaos() {
    let mut w = W::new();
    let d = some_dao(&mut w);
    let me = d.core.to_string();
    let (put, out, mut left) = kept(&["bob", "alice", "alicea"]);
    use dao_interface::query::SubDao;
    let sub = |k: &&str| SubDao { addr: k.to_string(), charter: Some(format!("of {k}")) };
    w.exec(&me, &d.core, &X::UpdateSubDaos { to_add: put.iter().map(sub).collect(), to_remove: vec![] }, &[]).unwrap();
    w.exec(&me, &d.core, &X::UpdateSubDaos { to_add: vec![], to_remove: strs(&out) }, &[]).unwrap();
    left.sort();
    page(&strs(&left), &strs(&["aaa", "zzz"]), up, |start_after, limit| {
        let l: Vec<SubDao> = w.q(&d.core, &Q::ListSubDaos { start_after, limit: limit.map(|l| l as u32) });
        check("values", l.iter().all(|s| *s == sub(&&*s.addr)), "a sub-DAO is listed with another's charter");
        l.into_iter().map(|s| s.addr).collect()
    });
}
fn core_tokens() {
    let mut w = W::new();
    let d = some_dao(&mut w);
    let me = d.core.to_string();
    let nft = flag("nft");
    let mut all = vec![];
    let mut held = vec![];
    for i in 0..3 {
        if nft {
            all.push(crate::c13::new_nft(&mut w).to_string());
        } else {
            held.push(sym::u128(&format!("held{i}"), 0, 1 << 120));
            all.push(w.new_cw20(&[(me.as_str(), held[i])]).to_string());
        }
    }
    let (put, out, left) = kept(&all.iter().map(|a| a.as_str()).collect::<Vec<_>>());
    let (to_add, to_remove) = (strs(&put), vec![]);
    w.exec(&me, &d.core, &if nft { X::UpdateCw721List { to_add, to_remove } } else { X::UpdateCw20List { to_add, to_remove } }, &[]).unwrap();
    let (to_add, to_remove) = (vec![], strs(&out));
    w.exec(&me, &d.core, &if nft { X::UpdateCw721List { to_add, to_remove } } else { X::UpdateCw20List { to_add, to_remove } }, &[]).unwrap();
    let mut left = strs(&left);
    left.sort();
    left.reverse();
    let balances = !nft && flag("balances");
    page(&left, &strs(&["aaa", "contract2z", "zzz"]), down, |start_after, limit| {
        let limit = limit.map(|l| l as u32);
        if balances {
            let l: Vec<dao_interface::query::Cw20BalanceResponse> = w.q(&d.core, &Q::Cw20Balances { start_after, limit });
            for b in &l {
                let i = all.iter().position(|a| b.addr == a.as_str());
                check("no-others", i.is_some(), "a token is listed that was never put on the list");
                check_eq("values", Z::from(b.balance.u128()), Z::from(held[i.unwrap()]), "a token is listed with another balance than the DAO's");
            }
            return l.into_iter().map(|b| b.addr.to_string()).collect();
        }
        let l: Vec<Addr> = w.q(&d.core, &if nft { Q::Cw721TokenList { start_after, limit } } else { Q::Cw20TokenList { start_after, limit } });
        l.into_iter().map(|a| a.to_string()).collect()
    });
}
fn core_modules() {
    use dao_interface::state::{ProposalModule, ProposalModuleStatus as S};
    let mut w = W::new();
    let vm = w.store(Box::new(StubVm));
    let c = s::single_code(&mut w);
    let n = sym::choose("modules", 4) as usize + 1;
    let cfg = s::cfg(dao_voting::threshold::Threshold::AbsoluteCount { threshold: Uint128::new(1) });
    let core = core_code(&mut w);
    let m = (0..n).map(|_| module(c, &cfg)).collect();
    let core = w.inst(core, "creator", &core_msg(None, module(vm, &Empty {}), m)).unwrap();
    let mut all: Vec<ProposalModule> = w.q(&core, &Q::ProposalModules { start_after: None, limit: None });
    check("all-modules", all.len() == n, "a proposal module is missing from the list");
    let off: Vec<String> = all.iter().enumerate().skip(1).filter(|(i, _)| flag(&format!("off{i}"))).map(|(_, m)| m.address.to_string()).collect();
    w.exec(core.as_str(), &core, &X::UpdateProposalModules { to_add: vec![], to_disable: off.clone() }, &[]).unwrap();
    for m in all.iter_mut() {
        if off.contains(&m.address.to_string()) {
            m.status = S::Disabled;
        }
    }
    let active = flag("active");
    let want: Vec<ProposalModule> = all.into_iter().filter(|m| !active || m.status == S::Enabled).collect();
    let p = |a: &str| ProposalModule { address: Addr::unchecked(a), prefix: "".into(), status: S::Enabled };
    page(&want, &[p("aaa"), p("contract2z"), p("zzz")], |a, b| a.address < b.address, |from, limit| {
        let (start_after, limit) = (from.map(|m| m.address.to_string()), limit.map(|l| l as u32));
        w.q(&core, &if active { Q::ActiveProposalModules { start_after, limit } } else { Q::ProposalModules { start_after, limit } })
    });
}

/// Proposals, in both directions, with the status of today.
fn proposals_of(multi: bool) {
    use dao_voting::status::Status;
    let mut w = W::new();
    let mut c = Cfg::new(multi);
    c.only_members = false;
    let d = c.dao(&mut w).unwrap();
    w.set_powers(&d.vm, &[("alice", 10)]);
    let n = sym::choose("proposals", 4) as u64;
    let late = sym::u64("late", 0, 1_000_000);
    for id in 1..=n {
        c.propose(&mut w, &d, "alice", vec![], vec![], None).unwrap();
        if id == 2 {
            w.advance(1, late);
        }
    }
    let gone = n > 0 && flag("closed");
    if gone {
        w.advance(1, 2_000_000);
        let m = dao_proposal_single::msg::ExecuteMsg::Close { proposal_id: 1 };
        w.exec("alice", &d.prop, &m, &[]).unwrap();
    }
    let rev = flag("reverse");
    let mut want: Vec<u64> = (1..=n).collect();
    if rev {
        want.reverse();
    }
    let q = |from: Option<u64>, limit: Option<u64>| -> Vec<(u64, Status)> {
        if multi {
            use dao_proposal_multiple::{msg::QueryMsg as M, query::ProposalListResponse as L};
            let m = if rev { M::ReverseProposals { start_before: from, limit } } else { M::ListProposals { start_after: from, limit } };
            w.q::<L>(&d.prop, &m).proposals.into_iter().map(|p| (p.id, p.proposal.status)).collect()
        } else {
            use dao_proposal_single::{msg::QueryMsg as M, query::ProposalListResponse as L};
            let m = if rev { M::ReverseProposals { start_before: from, limit } } else { M::ListProposals { start_after: from, limit } };
            w.q::<L>(&d.prop, &m).proposals.into_iter().map(|p| (p.id, p.proposal.status)).collect()
        }
    };
    page(&want, &[0, 7], |a, b| if rev { a > b } else { a < b }, |from, limit| {
        let l = q(from, limit);
        for (id, st) in &l {
            check("current-status", *st == c.view(&w, &d, *id).status, "a list shows a proposal with another status than it has");
            check("closed", !gone || (*id == 1) == (*st == Status::Closed), "a list shows another proposal as closed");
        }
        l.into_iter().map(|p| p.0).collect()
    });
}
fn proposals() {
    proposals_of(flag("multi"))
}
/// The ballots of one proposal.
fn votes() {
    let multi = flag("multi");
    let mut w = W::new();
    let mut c = Cfg::new(multi);
    c.revoting = true;
    let d = c.dao(&mut w).unwrap();
    let who = ["bob", "alice", "alicea"];
    let x: Vec<u128> = (0..3).map(|i| sym::u128(&format!("power{i}"), 1, 1 << 100)).collect();
    w.set_powers(&d.vm, &[("bob", x[0]), ("alice", x[1]), ("alicea", x[2])]);
    for _ in 0..2 {
        c.propose(&mut w, &d, "alice", vec![], vec![], None).unwrap();
    }
    let mut want = vec![];
    for (i, a) in who.iter().enumerate() {
        let v = sym::choose(&format!("vote{i}"), 4);
        if v > 0 {
            c.vote(&mut w, &d, a, 1, v - 1).unwrap();
            want.push(a.to_string());
        }
        if i != 0 {
            c.vote(&mut w, &d, a, 2, 0).unwrap();
        }
    }
    want.sort();
    page(&want, &strs(&["aaa", "alicz", "zzz"]), up, |start_after, limit| {
        let l: Vec<(String, Uint128)> = if multi {
            use dao_proposal_multiple::{msg::QueryMsg as M, query::VoteListResponse as L};
            w.q::<L>(&d.prop, &M::ListVotes { proposal_id: 1, start_after, limit }).votes.into_iter().map(|v| (v.voter.to_string(), v.power)).collect()
        } else {
            use dao_proposal_single::{msg::QueryMsg as M, query::VoteListResponse as L};
            w.q::<L>(&d.prop, &M::ListVotes { proposal_id: 1, start_after, limit }).votes.into_iter().map(|v| (v.voter.to_string(), v.power)).collect()
        };
        for (a, p) in &l {
            let i = who.iter().position(|w| w == a);
            check("voter", i.is_some(), "a ballot is listed of someone else");
            check_eq("values", Z::from(p.u128()), Z::from(x[i.unwrap()]), "a ballot is listed with another power than its voter's");
        }
        l.into_iter().map(|v| v.0).collect()
    });
}

/// Submissions that wait for an approver, and those decided.
fn submissions() {
    use dao_pre_propose_approval_single::{msg as am, state as st};
    let mut p = Pp::new(Kind::Approval, Cfg::new(false), None, Policy::Anyone { denylist: vec![] }, "appr");
    let n = sym::choose("submissions", 4) as u64;
    let done = flag("decided");
    let mut want = vec![];
    for id in 1..=n {
        check("submitted", p.submit("alice", vec![], false, vec![]), "a submission was refused");
    }
    for id in 1..=n {
        let k = sym::choose(&format!("outcome{id}"), 3);
        let m = match k {
            0 => None,
            1 => Some(am::ExecuteExt::Approve { id }),
            _ => Some(am::ExecuteExt::Reject { id }),
        };
        if let Some(m) = m {
            let m = am::ExecuteMsg::Extension { msg: m };
            check("decided", p.w.exec("appr", &p.pp.clone(), &m, &[]).is_ok(), "the approver could not decide");
        }
        if (k > 0) == done {
            want.push(id);
        }
    }
    let rev = flag("reverse");
    if rev {
        want.reverse();
    }
    page(&want, &[0, 7], |a, b| if rev { a > b } else { a < b }, |from, limit| {
        use am::QueryExt as E;
        let limit = limit.map(|l| l as u32);
        let m = match (done, rev) {
            (false, false) => E::PendingProposals { start_after: from, limit },
            (false, true) => E::ReversePendingProposals { start_before: from, limit },
            (true, false) => E::CompletedProposals { start_after: from, limit },
            (true, true) => E::ReverseCompletedProposals { start_before: from, limit },
        };
        let l: Vec<st::Proposal> = p.w.q(&p.pp, &am::QueryMsg::QueryExtension { msg: m });
        check("values", l.iter().all(|s| (s.status != st::ProposalStatus::Pending {}) == done), "a submission is in the wrong list");
        l.into_iter().map(|s| s.approval_id).collect()
    });
}

/// Stakers of both kinds of tokens: those who took all back may be listed with nothing.
fn stakers() {
    let native = flag("native");
    let mut t = crate::c11::Stk::new(native, None);
    let who = ["bob", "alice", "alicea"];
    let mut own: Vec<(String, Z)> = vec![];
    for (i, a) in who.iter().enumerate() {
        let k = sym::choose(&format!("staked{i}"), 4);
        if k > 0 {
            let x = sym::u128(&format!("stake{i}"), 2, 1 << 100);
            t.raw_stake(a, x);
            let mut left = Z::from(x);
            if k == 2 {
                t.raw_unstake(a, x);
                left = Z::from(0u64);
            } else if k == 3 {
                let y = sym::u128(&format!("unstake{i}"), 1, 1 << 100);
                sym::assume_lt(Z::from(y), Z::from(x));
                t.raw_unstake(a, y);
                left = left - Z::from(y);
            }
            own.push((a.to_string(), left));
        }
    }
    own.sort_by(|a, b| a.0.cmp(&b.0));
    let get = |start_after: Option<String>, limit: Option<u64>| -> Vec<String> {
        let limit = limit.map(|l| l as u32);
        let l: Vec<(String, u128)> = if native {
            use dao_voting_token_staked::msg as m;
            let l: m::ListStakersResponse = t.q(&m::QueryMsg::ListStakers { start_after, limit });
            l.stakers.into_iter().map(|s| (s.address, s.balance.u128())).collect()
        } else {
            use cw20_stake::msg as m;
            let l: m::ListStakersResponse = t.q(&m::QueryMsg::ListStakers { start_after, limit });
            l.stakers.into_iter().map(|s| (s.address, s.balance.u128())).collect()
        };
        for (a, x) in &l {
            let o = own.iter().find(|o| o.0 == *a);
            check("no-others", o.is_some(), "someone is listed as a staker who never was");
            check_eq("values", Z::from(*x), &o.unwrap().1, "a staker is listed with another stake than theirs");
        }
        l.into_iter().map(|s| s.0).collect()
    };
    let all = get(None, None);
    check("stakers", own.iter().all(|o| o.1.is_zero() || all.contains(&o.0)), "a staker is not listed");
    page(&all, &strs(&["aaa", "alicz", "zzz"]), up, get);
}
/// NFTs staked by one member, of either kind.
fn nfts() {
    let own = flag("chain_own");
    let mut w = W::new();
    use dao_voting_cw721_staked::msg as m;
    use dao_voting_onft_staked::msg as om;
    let unstaking_duration = Some(Duration::Height(1));
    let nft = crate::c13::new_nft(&mut w);
    let vm = if own {
        crate::c13::onft_give(&mut w, "other", "bob");
        let c = code!(w, dao_voting_onft_staked::contract);
        w.inst(c, "dao", &om::InstantiateMsg { onft_collection: om::OnftCollection::Existing { id: crate::stubs::COLLECTION.into() }, unstaking_duration, active_threshold: None }).unwrap()
    } else {
        let c = code!(w, dao_voting_cw721_staked::contract, reply);
        w.inst(c, "dao", &m::InstantiateMsg { nft_contract: m::NftContract::Existing { address: nft.to_string() }, unstaking_duration, active_threshold: None }).unwrap()
    };
    let ids = ["b", "a", "ab"];
    let (put, out, mut left) = kept(&ids);
    for (i, k) in ids.iter().enumerate() {
        let o = if put.contains(k) { "alice" } else { "bob" };
        let stakes = o == "alice" || flag(&format!("bobs{i}"));
        if own {
            crate::c13::onft_give(&mut w, k, o);
            if stakes {
                let token_ids = strs(&[k]);
                w.exec(o, &vm, &om::ExecuteMsg::PrepareStake { token_ids: token_ids.clone() }, &[]).unwrap();
                check("sent", crate::c13::onft_send(&mut w, k, o, vm.as_str()), "harness: a token was not sent");
                w.exec(o, &vm, &om::ExecuteMsg::ConfirmStake { token_ids }, &[]).unwrap();
            }
        } else {
            crate::c13::mint_nft(&mut w, &nft, k, o);
            if stakes {
                let m = cw721_base::msg::ExecuteMsg::<Option<Empty>, Empty>::SendNft { contract: vm.to_string(), token_id: k.to_string(), msg: Binary::default() };
                w.exec(o, &nft, &m, &[]).unwrap();
            }
        }
    }
    if !out.is_empty() {
        w.exec("alice", &vm, &m::ExecuteMsg::Unstake { token_ids: strs(&out) }, &[]).unwrap();
    }
    left.sort();
    page(&strs(&left), &strs(&["aa", "zz"]), up, |start_after, limit| {
        w.q(&vm, &m::QueryMsg::StakedNfts { address: "alice".into(), start_after, limit: limit.map(|l| l as u32) })
    });
}
/// Those who hold role tokens.
fn roles() {
    use cw721_roles::msg as m;
    use dao_cw721_extensions::roles::{ExecuteExt, MetadataExt, QueryExt};
    let mut w = W::new();
    let c = code!(w, cw721_roles::contract);
    let nft = w.inst(c, "dao", &m::InstantiateMsg { name: "r".into(), symbol: "R".into(), minter: "dao".into() }).unwrap();
    let who = ["bob", "alice", "alicea"];
    let mut own: Vec<(String, Z)> = vec![];
    for (i, a) in who.iter().enumerate() {
        let id = format!("n{i}");
        let k = sym::choose(&format!("token{i}"), 5);
        let x = sym::u64(&format!("weight{i}"), 1, 1 << 60);
        if k > 0 {
            let mint = m::ExecuteMsg::Mint { token_id: id.clone(), owner: a.to_string(), token_uri: None, extension: MetadataExt { role: None, weight: x } };
            w.exec("dao", &nft, &mint, &[]).unwrap();
        }
        let (to, weight) = match k {
            0 => continue,
            1 => (Some(*a), x),
            2 => {
                w.exec("dao", &nft, &m::ExecuteMsg::Burn { token_id: id }, &[]).unwrap();
                (None, 0)
            }
            3 => {
                w.exec("dao", &nft, &m::ExecuteMsg::TransferNft { recipient: "alice".into(), token_id: id }, &[]).unwrap();
                (Some("alice"), x)
            }
            _ => {
                let y = sym::u64(&format!("new_weight{i}"), 1, 1 << 60);
                sym::assume(!Z::from(x).is(&Z::from(y)));
                w.exec("dao", &nft, &m::ExecuteMsg::Extension { msg: ExecuteExt::UpdateTokenWeight { token_id: id, weight: y } }, &[]).unwrap();
                (Some(*a), y)
            }
        };
        if let Some(to) = to {
            match own.iter_mut().find(|o| o.0 == to) {
                Some(o) => o.1 = &o.1 + Z::from(weight),
                None => own.push((to.to_string(), Z::from(weight))),
            }
        }
    }
    own.sort_by(|a, b| a.0.cmp(&b.0));
    let keys: Vec<String> = own.iter().map(|o| o.0.clone()).collect();
    page(&keys, &strs(&["aaa", "alicz", "zzz"]), up, |start_after, limit| {
        let e = QueryExt::ListMembers { start_after, limit: limit.map(|l| l as u32) };
        let l: cw4::MemberListResponse = w.q(&nft, &m::QueryMsg::Extension { msg: e });
        for m in &l.members {
            if let Some(o) = own.iter().find(|o| o.0 == m.addr) {
                check_eq("values", Z::from(m.weight), &o.1, "a member is listed with another weight than their tokens have");
            }
        }
        l.members.into_iter().map(|m| m.addr).collect()
    });
}

/// Distributions and what is due of each.
fn distributions() {
    use cw20::UncheckedDenom;
    use dao_rewards_distributor::{msg as m, state::EmissionRate};
    let mut w = W::new();
    let vm = w.new_vm();
    w.set_powers(&vm, &[("alice", 1), ("bob", 1)]);
    let c = code!(w, dao_rewards_distributor::contract);
    let rd = w.inst(c, "owner", &m::InstantiateMsg { owner: None }).unwrap();
    let n = sym::choose("distributions", 4) as u64;
    for id in 1..=n {
        let den = format!("u{id}");
        let c = m::CreateMsg {
            denom: UncheckedDenom::Native(den.clone()),
            emission_rate: EmissionRate::Linear { amount: Uint128::new(10), duration: Duration::Time(10), continuous: id == 2 },
            vp_contract: vm.to_string(),
            hook_caller: "hooker".into(),
            open_funding: None,
            withdraw_destination: None,
        };
        w.exec("owner", &rd, &m::ExecuteMsg::Create(c), &[]).unwrap();
        w.mint("owner", 1000 * id as u128, &den);
        w.exec("owner", &rd, &m::ExecuteMsg::Fund(m::FundMsg { id }), &coins(1000 * id as u128, &den)).unwrap();
    }
    let secs = sym::u64("time", 0, 100_000);
    w.advance(1, secs);
    let due = flag("due");
    let want: Vec<u64> = (1..=n).collect();
    let all: m::PendingRewardsResponse = w.q(&rd, &m::QueryMsg::PendingRewards { address: "alice".into(), start_after: None, limit: None });
    page(&want, &[0, 7], up, |start_after, limit| {
        let limit = limit.map(|l| l as u32);
        if due {
            let r: m::PendingRewardsResponse = w.q(&rd, &m::QueryMsg::PendingRewards { address: "alice".into(), start_after, limit });
            for p in &r.pending_rewards {
                let a = all.pending_rewards.iter().find(|a| a.id == p.id).unwrap();
                check_eq("same-due", Z::from(p.pending_rewards.u128()), &Z::from(a.pending_rewards.u128()), "what is due differs by the page it is on");
                check("denom", p.denom == cw20::Denom::Native(format!("u{}", p.id)), "a distribution is listed with another's token");
            }
            return r.pending_rewards.into_iter().map(|p| p.id).collect();
        }
        let r: m::DistributionsResponse = w.q(&rd, &m::QueryMsg::Distributions { start_after, limit });
        check("denom", r.distributions.iter().all(|p| p.denom == cw20::Denom::Native(format!("u{}", p.id))), "a distribution is listed with another's token");
        r.distributions.into_iter().map(|d| d.id).collect()
    });
}
/// What a member is entitled to in each fund of a one-time distribution.
fn entitlements() {
    use cw_fund_distributor::msg as m;
    let mut w = W::new();
    let vm = w.new_vm();
    w.set_powers(&vm, &[("alice", 1), ("bob", 1)]);
    let c = code!(w, cw_fund_distributor::contract, migr);
    let h = w.block().height;
    let i = m::InstantiateMsg { voting_contract: vm.to_string(), funding_period: Duration::Height(10), distribution_height: h };
    let fd = w.inst_full(c, "dao", &i, &[], Some("dao".into())).unwrap();
    w.advance(1, 0);
    let native = flag("native");
    let mut want: Vec<(String, u128)> = vec![];
    for k in 0..3u128 {
        let x = 2 * sym::u128(&format!("fund{k}"), 1, 1 << 60);
        let put = flag(&format!("put{k}"));
        if native {
            let den = ["ub", "ua", "uab"][k as usize];
            w.mint("funder", x, den);
            if put {
                w.exec("funder", &fd, &m::ExecuteMsg::FundNative {}, &coins(x, den)).unwrap();
                want.push((den.into(), x / 2));
            }
        } else {
            let t = w.new_cw20(&[("funder", x)]);
            if put {
                let s = cw20::Cw20ExecuteMsg::Send { contract: fd.to_string(), amount: Uint128::new(x), msg: to_json_binary(&Empty {}).unwrap() };
                w.exec("funder", &t, &s, &[]).unwrap();
                want.push((t.to_string(), x / 2));
            }
        }
    }
    want.sort_by(|a, b| b.0.cmp(&a.0));
    w.advance(20, 0);
    if !want.is_empty() && flag("claimed") {
        let k = sym::choose("which", want.len() as u32) as usize;
        let l = vec![want[k].0.clone()];
        w.exec("alice", &fd, &if native { m::ExecuteMsg::ClaimNatives { denoms: l } } else { m::ExecuteMsg::ClaimCW20 { tokens: l } }, &[]).unwrap();
        want[k].1 = 0;
    }
    let keys: Vec<String> = want.iter().map(|e| e.0.clone()).collect();
    page(&keys, &strs(&["aaa", "contract2z", "uaa", "zzz"]), down, |start_at, limit| {
        let (limit, sender) = (limit.map(|l| l as u32), Addr::unchecked("alice"));
        let l: Vec<(String, u128)> = if native {
            let l: Vec<m::NativeEntitlementResponse> = w.q(&fd, &m::QueryMsg::NativeEntitlements { sender, start_at, limit });
            l.into_iter().map(|e| (e.denom, e.amount.u128())).collect()
        } else {
            let l: Vec<m::CW20EntitlementResponse> = w.q(&fd, &m::QueryMsg::CW20Entitlements { sender, start_at, limit });
            l.into_iter().map(|e| (e.token_contract.to_string(), e.amount.u128())).collect()
        };
        for (k, x) in &l {
            let e = want.iter().find(|e| e.0 == *k);
            check("listed-fund", e.is_some(), "a fund is listed that was never put in");
            check_eq("entitlement", Z::from(*x), &Z::from(e.unwrap().1), "a list shows another entitlement than is left");
        }
        l.into_iter().map(|e| e.0).collect()
    });
}
/// A token issuer's lists.
fn issuer() {
    use cw_tokenfactory_issuer::msg as im;
    let mut w = W::new();
    let c = crate::c24::issuer_code(&mut w);
    let i = w.inst(c, "boss", &im::InstantiateMsg::NewToken { subdenom: "gold".into() }).unwrap();
    w.exec("boss", &i, &im::ExecuteMsg::SetBeforeSendHook { cosmwasm_address: i.to_string() }, &[]).unwrap();
    let which = sym::choose("which", 4);
    let (put, out, mut left) = kept(&["bob", "alice", "alicea"]);
    let amounts: Vec<u128> = if which < 2 { (0..3).map(|i| sym::u128(&format!("allowance{i}"), 1, u128::MAX)).collect() } else { vec![0; 3] };
    let x = |k: &str| Uint128::new(amounts[["bob", "alice", "alicea"].iter().position(|w| *w == k).unwrap()]);
    let set = |w: &mut W, k: &str, on: bool| {
        let (address, allowance) = (k.to_string(), if on { x(k) } else { Uint128::zero() });
        let m = match which {
            0 => im::ExecuteMsg::SetMinterAllowance { address, allowance },
            1 => im::ExecuteMsg::SetBurnerAllowance { address, allowance },
            2 => im::ExecuteMsg::Allow { address, status: on },
            _ => im::ExecuteMsg::Deny { address, status: on },
        };
        w.exec("boss", &i, &m, &[]).unwrap();
    };
    for k in &put {
        set(&mut w, k, true);
    }
    for k in &out {
        set(&mut w, k, false);
    }
    if which > 1 {
        // the other list does not show in this one
        let m = if which == 2 { im::ExecuteMsg::Deny { address: "other".into(), status: true } } else { im::ExecuteMsg::Allow { address: "other".into(), status: true } };
        w.exec("boss", &i, &m, &[]).unwrap();
    } else {
        let (address, allowance) = ("other".to_string(), Uint128::one());
        let m = if which == 1 { im::ExecuteMsg::SetMinterAllowance { address, allowance } } else { im::ExecuteMsg::SetBurnerAllowance { address, allowance } };
        w.exec("boss", &i, &m, &[]).unwrap();
    }
    if which == 2 {
        left.push(i.as_str());
    }
    left.sort();
    let mut want = strs(&left);
    let first: Vec<String> = {
        let l: im::AllowlistResponse = w.q(&i, &im::QueryMsg::Allowlist { start_after: None, limit: None });
        l.allowlist.into_iter().map(|s| s.address).collect()
    };
    if which == 2 && !first.contains(&i.to_string()) {
        want.retain(|k| k != i.as_str());
    }
    page(&want, &strs(&["aaa", "alicz", "zzz"]), up, |start_after, limit| {
        let limit = limit.map(|l| l as u32);
        use im::QueryMsg as M;
        let status = |l: Vec<im::StatusInfo>| {
            check("values", l.iter().all(|s| s.status), "someone is listed who is not on the list");
            l.into_iter().map(|s| s.address).collect()
        };
        let amount = |l: Vec<im::AllowanceInfo>| {
            for a in &l {
                check("no-others", put.contains(&&*a.address), "an allowance is listed of someone who has none");
                check_eq("values", Z::from(a.allowance.u128()), Z::from(x(&a.address).u128()), "an allowance is listed as another's");
            }
            l.into_iter().map(|s| s.address).collect()
        };
        match which {
            0 => amount(w.q::<im::AllowancesResponse>(&i, &M::MintAllowances { start_after, limit }).allowances),
            1 => amount(w.q::<im::AllowancesResponse>(&i, &M::BurnAllowances { start_after, limit }).allowances),
            2 => status(w.q::<im::AllowlistResponse>(&i, &M::Allowlist { start_after, limit }).allowlist),
            _ => status(w.q::<im::DenylistResponse>(&i, &M::Denylist { start_after, limit }).denylist),
        }
    });
}

const C: &[&str] = &["cut", "last-page"];
const B3: &str = "up to 3 entries, each put in, taken out again or neither; any place, limits 0 to 3, 5, 30, 2^32 - 1";
pub const ALL: &[sym::Scenario] = &[
    sym::Scenario { prop: "C27", name: "core_items", bounds: B3, covers: C, run: core_items },
    sym::Scenario { prop: "C27", name: "core_subdaos", bounds: B3, covers: C, run: core_subdaos },
    sym::Scenario { prop: "C27", name: "core_tokens", bounds: B3, covers: C, run: core_tokens },
    sym::Scenario { prop: "C27", name: "core_modules", bounds: "1 to 4 modules, any of them but one disabled; any place, limits 0 to 3, 5, 30, 2^32 - 1", covers: C, run: core_modules },
    sym::Scenario { prop: "C27", name: "proposal_list", bounds: "up to 3 proposals of either kind at any times, the first closed or not; any place, limits 0 to 3, 5, 30, 2^32 - 1", covers: C, run: proposals },
    sym::Scenario { prop: "C27", name: "vote_list", bounds: "ballots of up to 3 voters among two proposals of either kind; any place, limits 0 to 3, 5, 30, 2^32 - 1", covers: C, run: votes },
    sym::Scenario { prop: "C27", name: "submission_list", bounds: "up to 3 submissions, each pending, approved or rejected; any place, limits 0 to 3, 5, 30, 2^32 - 1", covers: C, run: submissions },
    sym::Scenario { prop: "C27", name: "staker_list", bounds: "up to 3 stakers of either token, who keep all, some or none; any place, limits 0 to 3, 5, 30, 2^32 - 1", covers: C, run: stakers },
    sym::Scenario { prop: "C27", name: "nft_list", bounds: "of either kind; up to 3 tokens of alice, each unstaked again or not, others of bob; any place, limits 0 to 3, 5, 30, 2^32 - 1", covers: C, run: nfts },
    sym::Scenario { prop: "C27", name: "role_list", bounds: "up to 3 role tokens, each kept, burnt, moved or of another weight; any place, limits 0 to 3, 5, 30, 2^32 - 1", covers: C, run: roles },
    sym::Scenario { prop: "C27", name: "distribution_list", bounds: "up to 3 distributions, at any time; any place, limits 0 to 3, 5, 30, 2^32 - 1", covers: C, run: distributions },
    sym::Scenario { prop: "C27", name: "entitlement_list", bounds: "up to 3 funds of any sums <= 2^61 in native tokens or CW20, one claimed or none; any place, limits 0 to 3, 5, 30, 2^32 - 1", covers: C, run: entitlements },
    sym::Scenario { prop: "C27", name: "issuer_list", bounds: B3, covers: C, run: issuer },
];
