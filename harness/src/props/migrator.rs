//! A version 1 DAO upgrades itself through the migrator: all of it or nothing.

use std::cell::RefCell;
use std::collections::BTreeMap;

use cosmwasm_std::{
    coins, from_json, to_json_binary, Addr, Binary, Deps, DepsMut, Empty, Env, Reply, Response, StdResult, Uint128,
};
use cw_multi_test::{Contract, ContractWrapper, Executor};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use super::common::*;
use crate::env::*;
use crate::fw::*;
use crate::{ensure, ensure_eq};

const T: &[&str] = &["M02"];
const USERS: usize = 4;
const DENOM: &str = "utok";
type C = Box<dyn Contract<Empty>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Vot {
    Cw4,
    Cw20,
    /// one of the DAO's own making
    Custom,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Module {
    /// a code that is not the DAO's ordinary one
    pub custom: bool,
    /// which kind, and a percentage or count
    pub thr: (u8, u8),
    pub time: bool,
    pub max: u8,
    pub min: Option<u8>,
    pub members: bool,
    pub revote: bool,
    /// proposals it has to start with
    pub seeds: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Propose { m: u8, by: u8, pay: u8 },
    Vote { m: u8, id: u8, by: u8, vote: u8 },
    /// everybody
    Pass { m: u8, id: u8 },
    Execute { m: u8, id: u8, by: u8 },
    Close { m: u8, id: u8 },
    /// stake, or join
    More { by: u8, n: u8 },
    Less { by: u8, n: u8 },
    Item(u8, u8),
    Advance(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Param {
    pub close_fail: bool,
    pub pre: bool,
    /// (period, its unit fits, who, early)
    pub veto: Option<(u8, bool, u8, bool)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Code {
    Single,
    Cw4,
    Stake,
    Cw20,
}

/// What is wrong with the new code.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Loss {
    Missing,
    Count,
    Title,
    Votes,
    Status,
    Total,
    Member,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub voting: Vot,
    pub powers: Vec<u8>,
    pub unstaking: Option<(bool, u8)>,
    pub modules: Vec<Module>,
    pub ops: Vec<Op>,
    /// by a proposal of this module, or by the admin
    pub via: Option<u8>,
    /// the core's own upgrade brings the migrator along
    pub direct: bool,
    pub params: Vec<Param>,
    /// in another order
    pub reverse: bool,
    /// one module left out; named twice (in place of another or besides); another named too
    pub omit: Option<u8>,
    pub dup: Option<(u8, bool)>,
    pub extra: Option<u8>,
    pub flag: Option<bool>,
    pub wrong: Option<Code>,
    pub loss: Option<(Code, Loss, u8)>,
    pub subs: Vec<(u8, Option<u8>)>,
    pub stranger: u8,
}

thread_local! {
    static LOSS: RefCell<Option<(Loss, String)>> = const { RefCell::new(None) };
}
fn hit(a: &Addr) -> Option<Loss> {
    LOSS.with(|l| l.borrow().as_ref().filter(|(_, at)| a.as_str() == at).map(|x| x.0))
}

mod lossy {
    use super::*;

    pub fn migrate_single(
        mut deps: DepsMut,
        env: Env,
        msg: dao_proposal_single::msg::MigrateMsg,
    ) -> Result<Response, dao_proposal_single::ContractError> {
        use dao_proposal_single::state::{PROPOSALS, PROPOSAL_COUNT};
        let at = env.contract.address.clone();
        let r = dao_proposal_single::contract::migrate(deps.branch(), env, msg)?;
        let n = PROPOSAL_COUNT.may_load(deps.storage)?.unwrap_or_default();
        match hit(&at) {
            Some(Loss::Count) => PROPOSAL_COUNT.save(deps.storage, &(n + 1))?,
            Some(l) if n > 0 => {
                let mut p = PROPOSALS.load(deps.storage, n)?;
                match l {
                    Loss::Title => p.title.push('!'),
                    Loss::Votes => p.votes.abstain += Uint128::one(),
                    // as different from any it can have
                    _ => p.status = dao_voting::status::Status::ExecutionFailed,
                }
                PROPOSALS.save(deps.storage, n, &p)?
            }
            _ => (),
        }
        Ok(r)
    }

    fn spoil(env: &Env, msg: &Value, total: &[&str], member: &[&str], field: &str, r: Binary) -> StdResult<Binary> {
        let is = |names: &[&str]| names.iter().any(|n| !msg[n].is_null());
        let which = match hit(&env.contract.address) {
            Some(Loss::Total) => is(total),
            Some(Loss::Member) => is(member),
            _ => false,
        };
        if !which {
            return Ok(r);
        }
        let mut v: Value = from_json(&r)?;
        let n: u128 = v[field].as_str().unwrap().parse().unwrap();
        v[field] = json!((n + 1).to_string());
        to_json_binary(&v)
    }
    fn read<M: serde::de::DeserializeOwned>(m: &Value) -> StdResult<M> {
        from_json(to_json_binary(m)?)
    }
    const TOTAL: &[&str] = &["total_power_at_height"];
    const MEMBER: &[&str] = &["voting_power_at_height"];
    pub fn cw4(deps: Deps, env: Env, msg: Value) -> StdResult<Binary> {
        let done = deps.storage.get(b"lossy").is_some();
        let r = dao_voting_cw4::contract::query(deps, env.clone(), read(&msg)?)?;
        if done { spoil(&env, &msg, TOTAL, MEMBER, "power", r) } else { Ok(r) }
    }
    pub fn cw4_migrate(
        mut deps: DepsMut,
        env: Env,
        msg: dao_voting_cw4::msg::MigrateMsg,
    ) -> Result<Response, dao_voting_cw4::ContractError> {
        let r = dao_voting_cw4::contract::migrate(deps.branch(), env, msg)?;
        deps.storage.set(b"lossy", b"1");
        Ok(r)
    }
    pub fn cw20(deps: Deps, env: Env, msg: Value) -> StdResult<Binary> {
        let done = deps.storage.get(b"lossy").is_some();
        let r = dao_voting_cw20_staked::contract::query(deps, env.clone(), read(&msg)?)?;
        if done { spoil(&env, &msg, TOTAL, MEMBER, "power", r) } else { Ok(r) }
    }
    pub fn cw20_migrate(
        mut deps: DepsMut,
        env: Env,
        msg: dao_voting_cw20_staked::msg::MigrateMsg,
    ) -> Result<Response, dao_voting_cw20_staked::ContractError> {
        let r = dao_voting_cw20_staked::contract::migrate(deps.branch(), env, msg)?;
        deps.storage.set(b"lossy", b"1");
        Ok(r)
    }
    pub fn stake(deps: Deps, env: Env, msg: Value) -> StdResult<Binary> {
        let done = deps.storage.get(b"lossy").is_some();
        let r = cw20_stake::contract::query(deps, env.clone(), read(&msg)?)?;
        if !done {
            return Ok(r);
        }
        let r = spoil(&env, &msg, &["total_staked_at_height"], &[], "total", r)?;
        spoil(&env, &msg, &[], &["staked_balance_at_height"], "balance", r)
    }
    pub fn stake_migrate(
        mut deps: DepsMut,
        env: Env,
        msg: cw20_stake::msg::MigrateMsg,
    ) -> Result<Response, cw20_stake::ContractError> {
        let r = cw20_stake::contract::migrate(deps.branch(), env, msg)?;
        deps.storage.set(b"lossy", b"1");
        Ok(r)
    }
}

fn single_v1() -> C {
    use cw_proposal_single_v1::contract::*;
    Box::new(ContractWrapper::new(execute, instantiate, query).with_reply(reply).with_migrate(migrate))
}
fn single_v2(lossy: bool) -> C {
    use dao_proposal_single::contract::*;
    let w = ContractWrapper::new(execute, instantiate, query).with_reply(reply);
    if lossy { Box::new(w.with_migrate(lossy::migrate_single)) } else { Box::new(w.with_migrate(migrate)) }
}
fn cw4(lossy: bool) -> C {
    use dao_voting_cw4::contract::*;
    if lossy {
        return Box::new(
            ContractWrapper::new(execute, instantiate, lossy::cw4).with_reply(reply).with_migrate(lossy::cw4_migrate),
        );
    }
    Box::new(ContractWrapper::new(execute, instantiate, query).with_reply(reply).with_migrate(migrate))
}
fn cw20(lossy: bool) -> C {
    use dao_voting_cw20_staked::contract::*;
    if lossy {
        return Box::new(
            ContractWrapper::new(execute, instantiate, lossy::cw20).with_reply(reply).with_migrate(lossy::cw20_migrate),
        );
    }
    Box::new(ContractWrapper::new(execute, instantiate, query).with_reply(reply).with_migrate(migrate))
}
fn stake_v1() -> C {
    use cw20_stake_v1::contract::*;
    Box::new(ContractWrapper::new(execute, instantiate, query).with_migrate(migrate))
}
fn stake_v2(lossy: bool) -> C {
    use cw20_stake::contract::*;
    if lossy {
        return Box::new(
            ContractWrapper::new(execute, instantiate, lossy::stake).with_migrate(lossy::stake_migrate),
        );
    }
    Box::new(ContractWrapper::new(execute, instantiate, query).with_migrate(migrate))
}
fn core_v1() -> C {
    use cw_core_v1::contract::*;
    Box::new(ContractWrapper::new(execute, instantiate, query).with_reply(reply).with_migrate(migrate))
}
fn core_v2() -> C {
    use dao_dao_core::contract::*;
    Box::new(ContractWrapper::new(execute, instantiate, query).with_reply(reply).with_migrate(migrate))
}
fn migrator() -> C {
    use dao_migrator::contract::*;
    fn answer(d: DepsMut, e: Env, r: Reply) -> Result<Response, dao_migrator::ContractError> {
        reply(d, e, r)
    }
    Box::new(ContractWrapper::new(execute, instantiate, query).with_reply(answer))
}

struct W {
    app: VApp,
    core: Addr,
    voting: Addr,
    /// group, or staking contract and token
    group: Option<Addr>,
    stake: Option<(Addr, Addr)>,
    mods: Vec<Addr>,
    heights: Vec<u64>,
}

impl W {
    fn code_of(&self, a: &Addr) -> R<u64> {
        self.app.wrap().query_wasm_contract_info(a.as_str()).map(|i| i.code_id).map_err(|e| Fail::new(e.to_string()))
    }
    fn all(&self) -> Vec<Addr> {
        let mut v = vec![self.core.clone(), self.voting.clone()];
        v.extend(self.group.clone());
        if let Some((a, b)) = &self.stake {
            v.extend([a.clone(), b.clone()]);
        }
        v.extend(self.mods.iter().cloned());
        v
    }
    fn admin(&mut self, msgs: Vec<Value>) -> Result<(), String> {
        let core = self.core.clone();
        exec(&mut self.app, "boss", &core, &json!({"execute_admin_msgs": {"msgs": msgs}}), &[]).map(|_| ())
    }
    fn ask(&self, a: &Addr, m: Value) -> R<Value> {
        q(&self.app, a, &m)
    }
    /// all the proposals and their ballots
    fn listing(&self, m: &Addr) -> R<Vec<(Value, Vec<Value>)>> {
        let mut out = vec![];
        loop {
            let after = out.last().map(|(p, _): &(Value, Vec<Value>)| p["id"].clone());
            let l = self.ask(m, json!({"list_proposals": {"start_after": after, "limit": 10}}))?;
            let l = l["proposals"].as_array().cloned().unwrap_or_default();
            if l.is_empty() {
                return Ok(out);
            }
            for p in l {
                let v = self.ask(m, json!({"list_votes": {"proposal_id": p["id"]}}))?;
                let v = v["votes"].as_array().cloned().unwrap_or_default();
                out.push((p, v));
            }
        }
    }
    fn powers(&self) -> R<BTreeMap<String, Value>> {
        let mut out = BTreeMap::new();
        for h in self.heights.iter().map(|h| json!(h)).chain([Value::Null]) {
            for u in 0..USERS {
                let m = json!({"voting_power_at_height": {"address": user(u), "height": h}});
                out.insert(format!("power of {} at {h}", user(u)), self.ask(&self.voting, m)?);
            }
            out.insert(format!("total power at {h}"), self.ask(&self.voting, json!({"total_power_at_height": {"height": h}}))?);
        }
        Ok(out)
    }
    fn total(&self) -> u128 {
        query::<Value, _>(&self.app, &self.voting, &json!({"total_power_at_height": {}}))
            .ok()
            .and_then(|v| v["power"].as_str().and_then(|p| p.parse().ok()))
            .unwrap_or(0)
    }
    fn advance(&mut self, n: u64) {
        self.heights.push(self.app.block_info().height);
        advance(&mut self.app, n, n * 5);
    }
}

fn pay(n: u8) -> Vec<Value> {
    if n == 0 {
        vec![]
    } else {
        vec![json!({"bank": {"send": {"to_address": "payee", "amount": coins(n as u128, DENOM)}}})]
    }
}

fn vote_name(v: u8) -> &'static str {
    ["yes", "no", "abstain"][v as usize % 3]
}

fn threshold(thr: (u8, u8), total: u128) -> Value {
    let pct = |n: u8| json!({"percent": format!("0.{:02}", n % 99 + 1)});
    match thr.0 % 4 {
        0 => json!({"absolute_percentage": {"percentage": {"majority": {}}}}),
        1 => json!({"absolute_percentage": {"percentage": pct(thr.1)}}),
        2 => json!({"threshold_quorum": {"threshold": if thr.1 % 3 == 0 { json!({"majority": {}}) } else { pct(thr.1) }, "quorum": pct(thr.1 / 3)}}),
        _ => json!({"absolute_count": {"threshold": (thr.1 as u128 % total.max(1) + 1).to_string()}}),
    }
}

pub struct Migrator;

impl Migrator {
    /// The DAO as version 1.
    fn old(&self, c: &Case, codes: &BTreeMap<&'static str, u64>, app: VApp) -> R<W> {
        let mut app = app;
        let bad = |e: String| Fail::new(format!("setting up: {e}"));
        let total: u128 = c.powers.iter().map(|n| *n as u128).sum();
        let voting = match c.voting {
            Vot::Cw20 => json!({
                "token_info": {"new": {
                    "code_id": codes["token"],
                    "label": "token", "name": "token", "symbol": "TOK", "decimals": 6,
                    "initial_balances": (0..USERS).map(|u| json!({"address": user(u), "amount": "100000"})).collect::<Vec<_>>(),
                    "marketing": null,
                    "staking_code_id": codes["stake1"],
                    "unstaking_duration": c.unstaking.map(|(t, n)| dur(t, n as u64 + 1)),
                    "initial_dao_balance": "50",
                }},
                "active_threshold": null,
            }),
            _ => json!({"group_contract": {"new": {
                "cw4_group_code_id": codes["group"],
                "initial_members": c.powers.iter().enumerate().filter(|(_, n)| **n > 0)
                    .map(|(u, n)| json!({"addr": user(u), "weight": n})).collect::<Vec<_>>(),
            }}}),
        };
        let of = match c.voting {
            Vot::Cw4 => "cw4-1",
            Vot::Cw20 => "cw20-1",
            Vot::Custom => "cw4-own",
        };
        let info = |code: u64, msg: &Value| {
            json!({"code_id": code, "msg": to_json_binary(msg).unwrap(), "admin": {"core_contract": {}}, "label": "m"})
        };
        let modules: Vec<Value> = c
            .modules
            .iter()
            .map(|m| {
                let init = json!({
                    "threshold": threshold(m.thr, total),
                    "max_voting_period": dur(m.time, m.max as u64 + 2),
                    "min_voting_period": m.min.map(|n| dur(m.time, n as u64 % (m.max as u64 + 2) + 1)),
                    "only_members_execute": m.members,
                    "allow_revoting": m.revote,
                    "deposit_info": null,
                });
                info(codes[if m.custom { "single-own" } else { "single1" }], &init)
            })
            .collect();
        let init = json!({
            "admin": "boss",
            "name": "dao", "description": "of version 1", "image_url": "pic",
            "automatically_add_cw20s": true, "automatically_add_cw721s": false,
            "voting_module_instantiate_info": info(codes[of], &voting),
            "proposal_modules_instantiate_info": modules,
            "initial_items": [{"key": "k", "value": "v"}],
        });
        let core = inst(&mut app, codes["core1"], "boss", &init, &coins(1000, DENOM), Some("boss")).map_err(bad)?;
        // chain-level control goes to the DAO
        exec_msg(
            &mut app,
            "boss",
            cosmwasm_std::WasmMsg::UpdateAdmin { contract_addr: core.to_string(), admin: core.to_string() }.into(),
        )
        .map_err(bad)?;
        let voting: Addr = q(&app, &core, &json!({"voting_module": {}}))?;
        let mut mods: Vec<Addr> = q(&app, &core, &json!({"proposal_modules": {}}))?;
        mods.sort_by_key(|a| a.as_str().trim_start_matches("contract").parse::<u32>().unwrap());
        ensure_eq!(mods.len(), c.modules.len(), "modules of the old DAO");
        let mut w = W { app, core, voting, group: None, stake: None, mods, heights: vec![] };
        if c.voting == Vot::Cw20 {
            let s: Addr = q(&w.app, &w.voting, &json!({"staking_contract": {}}))?;
            let t: Addr = q(&w.app, &w.voting, &json!({"token_contract": {}}))?;
            w.stake = Some((s, t));
            for (u, n) in c.powers.iter().enumerate().filter(|(_, n)| **n > 0) {
                w.stake(u, *n).map_err(bad)?;
            }
        } else {
            w.group = Some(q(&w.app, &w.voting, &json!({"group_contract": {}}))?);
        }
        w.advance(1);
        Ok(w)
    }
}

impl W {
    fn stake(&mut self, u: usize, n: u8) -> Result<(), String> {
        let (s, t) = self.stake.clone().unwrap();
        let msg = json!({"send": {"contract": s, "amount": n.to_string(), "msg": to_json_binary(&json!({"stake": {}})).unwrap()}});
        exec(&mut self.app, &user(u), &t, &msg, &[]).map(|_| ())
    }
    fn propose(&mut self, m: usize, by: &str, msgs: Vec<Value>) -> Result<(), String> {
        let a = self.mods[m].clone();
        exec(&mut self.app, by, &a, &json!({"propose": {"title": format!("by {by}"), "description": format!("{}", msgs.len()), "msgs": msgs}}), &[])
            .map(|_| ())
    }
    fn last(&self, m: usize) -> R<u64> {
        q(&self.app, &self.mods[m], &json!({"proposal_count": {}}))
    }
    fn step(&mut self, c: &Case, op: &Op, cx: &mut Cx) -> R {
        let pick = |m: &u8| *m as usize % self.mods.len();
        let id = |m: usize, id: &u8| -> R<u64> {
            let n = self.last(m)?;
            Ok(if n == 0 { 1 } else { n - (*id as u64 % n.min(4)) })
        };
        let who = |u: &u8| user(*u as usize % USERS);
        let r = match op {
            Op::Propose { m, by, pay: n } => self.propose(pick(m), &who(by), pay(*n)),
            Op::Vote { m, id: i, by, vote } => {
                let (a, i) = (self.mods[pick(m)].clone(), id(pick(m), i)?);
                exec(&mut self.app, &who(by), &a, &json!({"vote": {"proposal_id": i, "vote": vote_name(*vote)}}), &[]).map(|_| ())
            }
            Op::Pass { m, id: i } => {
                let (a, i) = (self.mods[pick(m)].clone(), id(pick(m), i)?);
                for u in 0..USERS {
                    let _ = exec(&mut self.app, &user(u), &a, &json!({"vote": {"proposal_id": i, "vote": "yes"}}), &[]);
                }
                Ok(())
            }
            Op::Execute { m, id: i, by } => {
                let (a, i) = (self.mods[pick(m)].clone(), id(pick(m), i)?);
                exec(&mut self.app, &who(by), &a, &json!({"execute": {"proposal_id": i}}), &[]).map(|_| cx.label("executed before"))
            }
            Op::Close { m, id: i } => {
                let (a, i) = (self.mods[pick(m)].clone(), id(pick(m), i)?);
                exec(&mut self.app, "user0", &a, &json!({"close": {"proposal_id": i}}), &[]).map(|_| cx.label("closed before"))
            }
            Op::More { by, n } if c.voting == Vot::Cw20 => self.stake(*by as usize % USERS, *n),
            Op::Less { by, n } if c.voting == Vot::Cw20 => {
                let s = self.stake.clone().unwrap().0;
                exec(&mut self.app, &who(by), &s, &json!({"unstake": {"amount": n.to_string()}}), &[]).map(|_| ())
            }
            Op::More { by, n } | Op::Less { by, n } => {
                let g = self.group.clone().unwrap();
                let m = if matches!(op, Op::More { .. }) {
                    json!({"update_members": {"remove": [], "add": [{"addr": who(by), "weight": n}]}})
                } else {
                    json!({"update_members": {"remove": [who(by)], "add": []}})
                };
                let m = json!({"wasm": {"execute": {"contract_addr": g, "msg": to_json_binary(&m).unwrap(), "funds": []}}});
                self.admin(vec![m])
            }
            Op::Item(k, v) => {
                let core = self.core.clone();
                let m = json!({"set_item": {"key": format!("k{k}"), "addr": format!("v{v}")}});
                self.admin(vec![json!({"wasm": {"execute": {"contract_addr": core, "msg": to_json_binary(&m).unwrap(), "funds": []}}})])
            }
            Op::Advance(n) => {
                self.advance(*n as u64 % 6 + 1);
                Ok(())
            }
        };
        cx.log(|| format!("{op:?}: {r:?}"));
        Ok(())
    }
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        4 => (0u8..4, 0u8..4, 0u8..4).prop_map(|(m, by, pay)| Op::Propose { m, by, pay }),
        5 => (0u8..4, 0u8..4, 0u8..4, 0u8..3).prop_map(|(m, id, by, vote)| Op::Vote { m, id, by, vote }),
        3 => (0u8..4, 0u8..4).prop_map(|(m, id)| Op::Pass { m, id }),
        2 => (0u8..4, 0u8..4, 0u8..4).prop_map(|(m, id, by)| Op::Execute { m, id, by }),
        1 => (0u8..4, 0u8..4).prop_map(|(m, id)| Op::Close { m, id }),
        2 => (0u8..4, 1u8..60).prop_map(|(by, n)| Op::More { by, n }),
        2 => (0u8..4, 1u8..60).prop_map(|(by, n)| Op::Less { by, n }),
        1 => (0u8..4, 0u8..4).prop_map(|(k, v)| Op::Item(k, v)),
        3 => (0u8..6).prop_map(Op::Advance),
    ]
    .boxed()
}

impl Scenario for Migrator {
    type Case = Case;
    fn name(&self) -> &'static str {
        "migrator"
    }
    fn rule(&self) -> &'static str {
        "a DAO of version 1 with a history asked to be upgraded through the migrator; half of those that were are whole again"
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let module = (
            prop::bool::weighted(0.04),
            (any::<u8>(), any::<u8>()),
            any::<bool>(),
            4u8..40,
            option::weighted(0.3, 0u8..6),
            any::<bool>(),
            any::<bool>(),
            prop_oneof![1 => Just(0u8), 20 => 1u8..3],
        )
            .prop_map(|(custom, thr, time, max, min, members, revote, seeds)| Module {
                custom,
                thr,
                time,
                max,
                min,
                members,
                revote,
                seeds,
            });
        let param = (any::<bool>(), prop::bool::weighted(0.3), option::weighted(0.3, (1u8..20, prop::bool::weighted(0.9), 0u8..4, any::<bool>())))
            .prop_map(|(close_fail, pre, veto)| Param { close_fail, pre, veto });
        let code = || {
            prop_oneof![Just(Code::Single), Just(Code::Cw4), Just(Code::Stake), Just(Code::Cw20)]
        };
        let loss = prop_oneof![
            Just(Loss::Missing),
            Just(Loss::Count),
            Just(Loss::Title),
            Just(Loss::Votes),
            Just(Loss::Status),
            Just(Loss::Total),
            Just(Loss::Member),
        ];
        let flaws = (
            option::weighted(0.06, 0u8..4),
            option::weighted(0.06, (0u8..4, any::<bool>())),
            option::weighted(0.06, 0u8..4),
            prop_oneof![12 => Just(Some(true)), 1 => Just(Some(false)), 1 => Just(None)],
            option::weighted(0.12, code()),
            option::weighted(0.3, (code(), loss, 0u8..4)),
        );
        (
            (
                prop_oneof![10 => Just(Vot::Cw4), 14 => Just(Vot::Cw20), 1 => Just(Vot::Custom)],
                vec(prop_oneof![1 => Just(0u8), 5 => 1u8..50], USERS).prop_map(|mut v| {
                    v[0] = v[0].max(1);
                    v
                }),
                option::weighted(0.6, (any::<bool>(), 0u8..20)),
                vec(module, 1..5),
                vec(op(), 0..30),
            ),
            (option::weighted(0.6, 0u8..4), any::<bool>(), vec(param, 4), any::<bool>()),
            flaws,
            vec((0u8..6, option::weighted(0.6, 0u8..4)), 0..4),
            0u8..5,
        )
            .prop_map(|((voting, powers, unstaking, modules, ops), (via, direct, params, reverse), (omit, dup, extra, flag, wrong, loss), subs, stranger)| Case {
                voting,
                powers,
                unstaking,
                modules,
                ops,
                via,
                direct,
                params,
                reverse,
                omit,
                dup,
                extra,
                flag,
                wrong,
                loss,
                subs,
                stranger,
            })
            .boxed()
    }

    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        LOSS.with(|l| *l.borrow_mut() = None);
        let mut app = new_app();
        fund_account(&mut app, "boss", 1000, DENOM);
        let (loss_code, loss) = match c.loss {
            Some((code, Loss::Missing, _)) => (Some(code), Some(Loss::Missing)),
            Some((code, l, _)) => (Some(code), Some(l)),
            None => (None, None),
        };
        // kinds of loss that apply to the kind of contract
        let fits = match (loss_code, loss) {
            (_, Some(Loss::Missing)) => true,
            (Some(Code::Single), Some(l)) => matches!(l, Loss::Count | Loss::Title | Loss::Votes | Loss::Status),
            (Some(_), Some(l)) => matches!(l, Loss::Total | Loss::Member),
            _ => false,
        };
        let bad = |code: Code| fits && loss_code == Some(code) && loss != Some(Loss::Missing);
        let mut codes: BTreeMap<&'static str, u64> = BTreeMap::new();
        for (k, v) in [
            ("token", code::cw20()),
            ("group", code::cw4_group()),
            ("core1", core_v1()),
            ("single1", single_v1()),
            ("single-own", single_v1()),
            ("cw4-1", cw4(false)),
            ("cw4-own", cw4(false)),
            ("cw20-1", cw20(false)),
            ("stake1", stake_v1()),
            ("core2", core_v2()),
            ("single2", single_v2(bad(Code::Single))),
            ("cw4-2", cw4(bad(Code::Cw4))),
            ("cw20-2", cw20(bad(Code::Cw20))),
            ("stake2", stake_v2(bad(Code::Stake))),
            ("migrator", migrator()),
            ("pre", code::pre_single()),
        ] {
            codes.insert(k, app.store_code(v));
        }
        let mut w = self.old(c, &codes, app)?;
        for (i, m) in c.modules.iter().enumerate() {
            for s in 0..m.seeds {
                let _ = w.propose(i, &user(s as usize), pay(s));
            }
        }
        for op in &c.ops {
            w.step(c, op, cx)?;
        }

        // what is asked for
        let n = w.mods.len();
        let mut named: Vec<(Addr, Param)> =
            w.mods.iter().enumerate().map(|(i, a)| (a.clone(), c.params[i % c.params.len()].clone())).collect();
        if c.direct {
            // the core's own message says nothing of a veto
            named.iter_mut().for_each(|x| x.1.veto = None);
        }
        let asked = named.clone();
        let mut want: Result<(), &'static str> = Ok(());
        let mut refuse = |why: &'static str| {
            if want.is_ok() {
                want = Err(why);
            }
        };
        if let Some((i, besides)) = c.dup {
            let x = named[i as usize % n].clone();
            if besides || n == 1 {
                named.push(x);
            } else {
                let j = (i as usize + 1) % n;
                named[j] = x;
            }
        }
        if let Some(i) = c.omit {
            named.remove(i as usize % named.len());
        }
        if let Some(i) = c.extra {
            named.push((Addr::unchecked(format!("other{i}")), c.params[0].clone()));
            refuse("an address that is no module of the DAO");
        }
        for a in &w.mods {
            match named.iter().filter(|x| x.0 == *a).count() {
                0 => refuse("a module not named"),
                1 => (),
                _ => refuse("a module named twice"),
            }
        }
        if c.reverse {
            named.reverse();
        }
        match c.voting {
            Vot::Custom => refuse("a voting module of the DAO's own"),
            Vot::Cw4 if c.wrong == Some(Code::Cw4) => refuse("another voting code"),
            Vot::Cw20 if c.wrong == Some(Code::Cw20) => refuse("another voting code"),
            Vot::Cw20 if c.wrong == Some(Code::Stake) => refuse("another staking code"),
            Vot::Cw20 if c.flag != Some(true) => refuse("the staking contract is to stay"),
            _ => (),
        }
        if c.wrong == Some(Code::Single) {
            refuse("another proposal code");
        }
        if c.modules.iter().any(|m| m.custom) {
            refuse("a proposal module of the DAO's own");
        }
        for (i, m) in c.modules.iter().enumerate() {
            // the one that asks has at least the asking
            if w.last(i)? == 0 && c.via.map(|v| v as usize % n) != Some(i) {
                refuse("a module without proposals");
            }
            if matches!(named.iter().find(|x| x.0 == w.mods[i]), Some((_, Param { veto: Some((_, false, ..)), .. }))) {
                refuse("the veto's period is of another kind");
            }
            let _ = m;
        }
        if c.subs.iter().any(|(a, _)| *a == 5) {
            refuse("a sub-DAO whose address is none");
        }
        if fits {
            let touched = match loss_code.unwrap() {
                Code::Single => true,
                Code::Cw4 => c.voting == Vot::Cw4,
                _ => c.voting == Vot::Cw20,
            };
            if touched {
                refuse("the new code is not there, or what it reports is not what was");
            }
            let at = match loss_code.unwrap() {
                Code::Single => w.mods[c.loss.unwrap().2 as usize % n].clone(),
                Code::Stake => w.stake.as_ref().map(|s| s.0.clone()).unwrap_or_else(|| w.core.clone()),
                _ => w.voting.clone(),
            };
            LOSS.with(|l| *l.borrow_mut() = Some((loss.unwrap(), at.to_string())));
        }
        drop(refuse);

        let v1 = |k: Code, at: &str| if c.wrong == Some(k) { 77 } else { codes[at] };
        let v2 = |k: Code, at: &str| if c.loss.map(|l| (l.0, l.1)) == Some((k, Loss::Missing)) { 99 } else { codes[at] };
        let sub = |a: u8| if a == 5 { "X".to_string() } else { format!("sub{a}") };
        let veto = |m: &Module, v: (u8, bool, u8, bool)| {
            json!({
                "timelock_duration": dur(m.time == v.1, v.0 as u64),
                "vetoer": user(v.2 as usize),
                "early_execute": v.3,
                "veto_before_passed": false,
            })
        };
        let of = |a: &Addr| w.mods.iter().position(|x| x == a);
        let pre_init = json!({"deposit_info": null, "extension": {}, "submission_policy": {"anyone": {"denylist": []}}});
        let told = json!({
            "sub_daos": c.subs.iter().map(|(a, t)| json!({"addr": sub(*a), "charter": t.map(|t| format!("charter {t}"))})).collect::<Vec<_>>(),
            "migration_params": {
                "migrate_stake_cw20_manager": c.flag,
                "proposal_params": named.iter().map(|(a, p)| {
                    let mut x = json!({
                        "close_proposal_on_execution_failure": p.close_fail,
                        "pre_propose_info": if p.pre {
                            json!({"module_may_propose": {"info": module(codes["pre"], to_json_binary(&pre_init).unwrap())}})
                        } else {
                            json!({"anyone_may_propose": {}})
                        },
                    });
                    if !c.direct {
                        x["veto"] = match (p.veto, of(a)) {
                            (Some(v), Some(i)) => veto(&c.modules[i], v),
                            _ => Value::Null,
                        };
                    }
                    json!([a, x])
                }).collect::<Vec<_>>(),
            },
            "v1_code_ids": {
                "proposal_single": v1(Code::Single, "single1"), "cw4_voting": v1(Code::Cw4, "cw4-1"),
                "cw20_stake": v1(Code::Stake, "stake1"), "cw20_staked_balances_voting": v1(Code::Cw20, "cw20-1"),
            },
            "v2_code_ids": {
                "proposal_single": v2(Code::Single, "single2"), "cw4_voting": v2(Code::Cw4, "cw4-2"),
                "cw20_stake": v2(Code::Stake, "stake2"), "cw20_staked_balances_voting": v2(Code::Cw20, "cw20-2"),
            },
        });
        let core = w.core.clone();
        let up = |params: Value| {
            let m = json!({"from_v1": {"dao_uri": "here", "params": params}});
            json!({"wasm": {"migrate": {"contract_addr": core, "new_code_id": codes["core2"], "msg": to_json_binary(&m).unwrap()}}})
        };
        let msgs = if c.direct {
            vec![up(json!({"migrator_code_id": codes["migrator"], "params": told}))]
        } else {
            let m = json!({"update_proposal_modules": {
                "to_add": [{
                    "code_id": codes["migrator"], "msg": to_json_binary(&told).unwrap(),
                    "admin": {"core_module": {}}, "funds": [], "label": "migrator",
                }],
                "to_disable": [],
            }});
            vec![up(Value::Null), json!({"wasm": {"execute": {"contract_addr": core, "msg": to_json_binary(&m).unwrap(), "funds": []}}})]
        };

        // asking
        let asking = match c.via {
            None => None,
            Some(v) => {
                let i = v as usize % n;
                let mut by: Vec<String> = (0..USERS).map(user).collect();
                by.rotate_left(c.stranger as usize % USERS);
                if !by.iter().any(|u| w.propose(i, u, msgs.clone()).is_ok()) {
                    cx.label("nobody could ask");
                    return Ok(());
                }
                let id = w.last(i)?;
                let a = w.mods[i].clone();
                for u in &by {
                    let _ = exec(&mut w.app, u, &a, &json!({"vote": {"proposal_id": id, "vote": "yes"}}), &[]);
                }
                for _ in 0..60 {
                    let p = w.ask(&a, json!({"proposal": {"proposal_id": id}}))?;
                    if p["proposal"]["status"] != "open" {
                        break;
                    }
                    w.advance(1);
                }
                let p = w.ask(&a, json!({"proposal": {"proposal_id": id}}))?;
                if p["proposal"]["status"] != "passed" {
                    cx.label("the asking did not pass");
                    return Ok(());
                }
                let by = by.iter().find(|u| {
                    let m = json!({"voting_power_at_height": {"address": u}});
                    matches!(query::<Value, _>(&w.app, &w.voting, &m), Ok(v) if v["power"] != "0")
                });
                let Some(by) = by else {
                    cx.label("nobody left to execute");
                    return Ok(());
                };
                Some((i, id, by.clone()))
            }
        };
        w.heights.sort();
        w.heights.dedup();
        let keep = w.heights.len().saturating_sub(5);
        w.heights.drain(..keep);
        for a in &w.mods {
            for (p, _) in w.listing(a)? {
                w.heights.extend(p["proposal"]["start_height"].as_u64());
            }
        }
        w.heights.sort();
        w.heights.dedup();

        // as it is
        let listing: Vec<_> = w.mods.iter().map(|m| w.listing(m)).collect::<R<_>>()?;
        let configs: Vec<Value> = w.mods.iter().map(|m| w.ask(m, json!({"config": {}}))).collect::<R<_>>()?;
        let powers = w.powers()?;
        let items: Vec<(String, String)> = q(&w.app, &core, &json!({"list_items": {}}))?;
        let config = w.ask(&core, json!({"config": {}}))?;
        let raw: Vec<_> = w.all().iter().map(|a| w.app.dump_wasm_raw(a)).collect();
        let ids: Vec<u64> = w.all().iter().map(|a| w.code_of(a)).collect::<R<_>>()?;
        let claims = |w: &W| -> R<Vec<Value>> {
            let Some((s, _)) = &w.stake else { return Ok(vec![]) };
            (0..USERS).map(|u| w.ask(s, json!({"claims": {"address": user(u)}}))).collect()
        };
        let old_claims = claims(&w)?;

        let r = match &asking {
            None => w.admin(msgs),
            Some((i, id, by)) => {
                let a = w.mods[*i].clone();
                exec(&mut w.app, by, &a, &json!({"execute": {"proposal_id": id}}), &[]).map(|_| ())
            }
        };
        cx.log(|| format!("upgrade through the migrator with {told}: {r:?}"));
        if let Err(why) = want {
            cx.label(why);
        }
        agree("upgrading through the migrator", &r, &want, T)?;
        if want.is_err() {
            let now: Vec<_> = w.all().iter().map(|a| w.app.dump_wasm_raw(a)).collect();
            ensure!(now == raw, @T, "a refused upgrade left something changed");
            let now: Vec<u64> = w.all().iter().map(|a| w.code_of(a)).collect::<R<_>>()?;
            ensure_eq!(@T, now, ids, "codes after a refused upgrade");
            // and the old one works on
            advance(&mut w.app, 1, 5);
            if w.total() > 0 && w.last(0)? > 0 {
                let before = w.last(0)?;
                // version 1 takes proposals of members
                let mut r = Err("no member".into());
                for u in 0..USERS {
                    r = w.propose(0, &user(u), vec![]);
                    if r.is_ok() {
                        break;
                    }
                }
                agree("a proposal after a refused upgrade", &r, &Ok(()), T)?;
                ensure_eq!(@T, w.last(0)?, before + 1, "proposals after a refused upgrade");
                cx.nontrivial = true;
            }
            return Ok(());
        }
        cx.label("upgraded");
        cx.label(if c.direct { "along with the core" } else { "after the core" });
        cx.label(if asking.is_some() { "by a proposal" } else { "by the admin" });
        if n > 1 {
            cx.label("several modules");
        }

        // every part is of the new version
        let mut expect: Vec<u64> = vec![codes["core2"]];
        match c.voting {
            Vot::Cw20 => expect.extend([codes["cw20-2"], codes["stake2"], codes["token"]]),
            _ => expect.extend([codes["cw4-2"], codes["group"]]),
        }
        expect.extend(vec![codes["single2"]; n]);
        let now: Vec<u64> = w.all().iter().map(|a| w.code_of(a)).collect::<R<_>>()?;
        ensure_eq!(@T, now, expect, "codes after the upgrade");
        // the DAO is what it was, and has the sub-DAOs
        let mut cfg = config.clone();
        cfg["dao_uri"] = json!("here");
        ensure_eq!(@T, w.ask(&core, json!({"config": {}}))?, cfg, "the DAO's configuration");
        let now: Vec<(String, String)> = q(&w.app, &core, &json!({"list_items": {}}))?;
        ensure_eq!(@T, now, items, "the DAO's items");
        ensure_eq!(@T, w.ask(&core, json!({"admin": {}}))?, json!("boss"), "the DAO's admin");
        let subs: BTreeMap<String, Option<String>> =
            c.subs.iter().map(|(a, t)| (sub(*a), t.map(|t| format!("charter {t}")))).collect();
        let subs: Vec<Value> = subs.iter().map(|(a, t)| json!({"addr": a, "charter": t})).collect();
        ensure_eq!(@T, w.ask(&core, json!({"list_sub_daos": {}}))?, json!(subs), "the DAO's sub-DAOs");
        let active = w.ask(&core, json!({"active_proposal_modules": {}}))?;
        let mut active: Vec<String> =
            active.as_array().unwrap().iter().map(|m| m["address"].as_str().unwrap().to_string()).collect();
        active.sort();
        let mut mods: Vec<String> = w.mods.iter().map(|a| a.to_string()).collect();
        mods.sort();
        ensure_eq!(@T, active, mods, "modules that may act");
        let all = w.ask(&core, json!({"proposal_modules": {}}))?;
        let gone: Vec<&Value> = all.as_array().unwrap().iter().filter(|m| m["status"] == "disabled").collect();
        ensure_eq!(@T, gone.len(), 1, "modules that may not");
        let at = Addr::unchecked(gone[0]["address"].as_str().unwrap());
        ensure_eq!(@T, w.code_of(&at)?, codes["migrator"], "the module that may not act any more");
        ensure_eq!(@T, all.as_array().unwrap().len(), n + 1, "modules known");
        // votes weigh what they weighed
        let now = w.powers()?;
        for (k, v) in &powers {
            ensure_eq!(@T, &now[k], v, "{k}");
        }
        ensure_eq!(@T, claims(&w)?, old_claims, "claims");
        // each module and its proposals
        let mut total_votes = 0;
        for i in 0..n {
            let a = w.mods[i].clone();
            let p = &asked[i].1;
            let mut cfg = configs[i].clone();
            cfg.as_object_mut().unwrap().remove("deposit_info");
            cfg["close_proposal_on_execution_failure"] = json!(p.close_fail);
            cfg["veto"] = p.veto.map(|v| veto(&c.modules[i], v)).unwrap_or_default();
            let mut now = w.ask(&a, json!({"config": {}}))?;
            if now["veto"].is_null() {
                now["veto"] = Value::Null;
            }
            ensure_eq!(@T, now, cfg, "configuration of module {i}");
            let policy = w.ask(&a, json!({"proposal_creation_policy": {}}))?;
            ensure_eq!(@T, policy["module"].is_null(), !p.pre, "who may propose to module {i}: {policy}");
            let new = w.listing(&a)?;
            ensure_eq!(@T, new.len(), listing[i].len(), "proposals of module {i}");
            for ((o, ov), (x, xv)) in listing[i].iter().zip(&new) {
                let id = o["id"].as_u64().unwrap();
                ensure_eq!(@T, x["id"].as_u64(), Some(id), "a proposal's id");
                for k in [
                    "title", "description", "proposer", "start_height", "min_voting_period", "expiration", "threshold",
                    "total_power", "msgs", "status", "votes", "allow_revoting",
                ] {
                    let mut before = o["proposal"][k].clone();
                    if k == "status" && asking.as_ref().map(|a| (a.0, a.1)) == Some((i, id)) {
                        before = json!("executed");
                    }
                    ensure_eq!(@T, x["proposal"][k], before, "{k} of proposal {id} of module {i}");
                }
                ensure_eq!(@T, xv.len(), ov.len(), "ballots on proposal {id} of module {i}");
                for (o, x) in ov.iter().zip(xv) {
                    for k in ["voter", "vote", "power"] {
                        ensure_eq!(@T, x[k], o[k], "{k} of a ballot on proposal {id} of module {i}");
                    }
                    total_votes += 1;
                }
            }
        }
        if total_votes > 0 {
            cx.label("ballots carried over");
        }

        // nobody upgrades anything with it any more
        let who = match c.stranger {
            0 => "boss".to_string(),
            1 => w.mods[0].to_string(),
            4 => core.to_string(),
            u => user(u as usize),
        };
        let r = if who == core.as_str() {
            w.admin(vec![json!({"wasm": {"execute": {"contract_addr": at, "msg": to_json_binary(&told).unwrap(), "funds": []}}})])
        } else {
            exec(&mut w.app, &who, &at, &told, &[]).map(|_| ())
        };
        agree(format!("{who} asking the migrator again"), &r, &Err("it is done"), T)?;

        // and each module works on
        advance(&mut w.app, 1, 5);
        if w.total() == 0 {
            cx.label("nobody to go on");
            return Ok(());
        }
        for i in 0..n {
            let a = w.mods[i].clone();
            let before = bank(&w.app, "payee", DENOM);
            let purse = bank(&w.app, core.as_str(), DENOM);
            let id = w.last(i)? + 1;
            let prop = json!({"title": "t", "description": "d", "msgs": pay(1), "vote": null});
            let (to, msg) = if asked[i].1.pre {
                let policy = w.ask(&a, json!({"proposal_creation_policy": {}}))?;
                let to = Addr::unchecked(policy["module"]["addr"].as_str().unwrap_or(""));
                (to, json!({"propose": {"msg": {"propose": prop}}}))
            } else {
                (a.clone(), json!({"propose": prop}))
            };
            let r = exec(&mut w.app, "user0", &to, &msg, &[]);
            agree(format!("proposing to module {i} after the upgrade"), &r, &Ok(()), T)?;
            let mut voter = None;
            for u in 0..USERS {
                let m = json!({"voting_power_at_height": {"address": user(u)}});
                let has = w.ask(&w.voting, m)?["power"] != "0";
                let r = exec(&mut w.app, &user(u), &a, &json!({"vote": {"proposal_id": id, "vote": "yes"}}), &[]);
                if has {
                    agree(format!("voting on module {i} after the upgrade"), &r, &Ok(()), T)?;
                    voter = Some(user(u));
                } else if r.is_ok() {
                    return Err(Fail::new("a ballot without weight").tag(T));
                }
            }
            // until it is over
            let mut st = Value::Null;
            for _ in 0..90 {
                st = w.ask(&a, json!({"proposal": {"proposal_id": id}}))?["proposal"]["status"].clone();
                if st != "open" && st["veto_timelock"].is_null() {
                    break;
                }
                advance(&mut w.app, 1, 5);
            }
            if st != "passed" {
                ensure!(c.modules[i].thr.0 % 4 == 3, @T, "a proposal all voted for ended {st}");
                cx.label("out of reach");
                continue;
            }
            let r = exec(&mut w.app, &voter.unwrap(), &a, &json!({"execute": {"proposal_id": id}}), &[]);
            agree(format!("executing on module {i} after the upgrade"), &r, &Ok(()), T)?;
            let st = w.ask(&a, json!({"proposal": {"proposal_id": id}}))?["proposal"]["status"].clone();
            let (end, paid) = match (purse > 0, asked[i].1.close_fail) {
                (true, _) => ("executed", 1),
                (false, true) => ("execution_failed", 0),
                (false, false) => ("executed", 0),
            };
            ensure_eq!(@T, st, json!(end), "status of an executed proposal");
            ensure_eq!(@T, bank(&w.app, "payee", DENOM), before + paid, "what it paid");
            cx.label("worked on");
            cx.nontrivial = true;
        }
        Ok(())
    }
}
