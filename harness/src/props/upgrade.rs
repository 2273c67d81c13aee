//! Upgrading deployed contracts in place: what was there before is there after, and
//! works on as if it had always been the new version.

use std::collections::BTreeMap;

use cosmwasm_std::{coin, to_json_binary, Addr, Coin, CosmosMsg, Empty, WasmMsg};
use cw_multi_test::{Contract, ContractWrapper};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use super::common::*;
use crate::env::*;
use crate::fw::*;
use crate::ensure_eq;

const T: &[&str] = &["M01"];
const USERS: u8 = 4;

type C = Box<dyn Contract<Empty>>;

pub fn migrate_to(app: &mut VApp, by: &str, c: &Addr, code: u64, msg: &Value) -> Result<(), String> {
    exec_msg(
        app,
        by,
        CosmosMsg::Wasm(WasmMsg::Migrate {
            contract_addr: c.to_string(),
            new_code_id: code,
            msg: to_json_binary(msg).unwrap(),
        }),
    )
    .map(|_| ())
}

// ------------------------------------------------------------------ staking, rewards

/// the three contracts that stand together
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Which {
    Stake,
    Ext,
    Dist,
}
use Which::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Who {
    Owner,
    Manager,
    User(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    Stake { u: u8, n: u128 },
    Fund { u: u8, n: u128 },
    /// this share (per 8) of what one has, plus so much
    Unstake { u: u8, part: u8, plus: i8 },
    Claim(u8),
    Duration(Who, Option<(bool, u8)>),
    /// who owns it from now on
    Owner(Which, Who, Option<u8>),
    Manager(Which, Who, Option<u8>),
    Hook { by: Who, add: bool, what: u8 },
    ExtFund { by: Who, n: u128 },
    ExtClaim(u8),
    ExtDuration(Who, u8),
    Distribute,
    DistGive(u8, u128),
    DistWithdraw(Who),
    DistRate(Who, u128),
    Advance { blocks: u8, secs: u16 },
    Upgrade(Which),
    /// by somebody who may not
    Seize(Which, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SCase {
    pub owner: bool,
    pub manager: bool,
    pub unstaking: Option<(bool, u8)>,
    /// native or cw20 rewards, the length of a period
    pub ext: Option<(bool, u8)>,
    pub dist: Option<u128>,
    pub ops: Vec<SOp>,
}

pub struct StakeUp;

fn who() -> BoxedStrategy<Who> {
    prop_oneof![6 => Just(Who::Owner), 2 => Just(Who::Manager), 1 => (0..USERS).prop_map(Who::User)].boxed()
}
fn which() -> BoxedStrategy<Which> {
    prop_oneof![3 => Just(Stake), 2 => Just(Ext), 2 => Just(Dist)].boxed()
}

/// One of the two worlds.
struct World {
    app: VApp,
    token: Addr,
    stake: Addr,
    ext: Option<Addr>,
    dist: Option<Addr>,
    mocks: Vec<Addr>,
    codes: BTreeMap<Which, u64>,
}

impl StakeUp {
    fn world(&self, c: &SCase) -> R<World> {
        let mut app = new_app();
        let all: Vec<_> = (0..USERS as usize).map(user).chain(["owner".into(), "manager".into()]).collect();
        let token = new_cw20(&mut app, &all.iter().map(|u| (u.clone(), 1u128 << 60)).collect::<Vec<_>>());
        for u in &all {
            fund_account(&mut app, u, 1 << 60, "ucoin");
        }
        let old: [C; 3] = [
            {
                use cw20_stake_v1::contract::*;
                Box::new(ContractWrapper::new(execute, instantiate, query))
            },
            {
                use cw20_stake_external_rewards_v1::contract::*;
                Box::new(ContractWrapper::new(execute, instantiate, query))
            },
            {
                use cw20_stake_reward_distributor_v1::contract::*;
                Box::new(ContractWrapper::new(execute, instantiate, query))
            },
        ];
        let old: Vec<u64> = old.into_iter().map(|x| app.store_code(x)).collect();
        let new: [(Which, C); 3] = [
            (Stake, {
                use cw20_stake::contract::*;
                Box::new(ContractWrapper::new(execute, instantiate, query).with_migrate(migrate))
            }),
            (Ext, {
                use cw20_stake_external_rewards::contract::*;
                Box::new(ContractWrapper::new(execute, instantiate, query).with_migrate(migrate))
            }),
            (Dist, {
                use cw20_stake_reward_distributor::contract::*;
                Box::new(ContractWrapper::new(execute, instantiate, query).with_migrate(migrate))
            }),
        ];
        let codes = new.into_iter().map(|(w, x)| (w, app.store_code(x))).collect();
        let owner = c.owner.then_some("owner");
        let manager = c.manager.then_some("manager");
        let stake = harness(inst(
            &mut app,
            old[0],
            "deployer",
            &json!({
                "owner": owner, "manager": manager, "token_address": token,
                "unstaking_duration": c.unstaking.map(|(t, n)| dur(t, n as u64 + 1)),
            }),
            &[],
            Some("admin"),
        ))?;
        let ext = match c.ext {
            None => None,
            Some((native, len)) => Some(harness(inst(
                &mut app,
                old[1],
                "deployer",
                &json!({
                    "owner": owner, "manager": manager, "staking_contract": stake,
                    "reward_token": if native { json!({"native": "ucoin"}) } else { json!({"cw20": token}) },
                    "reward_duration": len as u64 + 1,
                }),
                &[],
                Some("admin"),
            ))?),
        };
        let dist = match c.dist {
            None => None,
            Some(rate) => Some(harness(inst(
                &mut app,
                old[2],
                "deployer",
                &json!({"owner": "owner", "staking_addr": stake, "reward_rate": rate.to_string(), "reward_token": token}),
                &[],
                Some("admin"),
            ))?),
        };
        let mocks = (0..2).map(|_| new_mock(&mut app)).collect();
        if let (Some(e), true) = (&ext, c.owner) {
            harness(exec(&mut app, "owner", &stake, &json!({"add_hook": {"addr": e}}), &[]))?;
        }
        Ok(World { app, token, stake, ext, dist, mocks, codes })
    }
}

impl World {
    fn at(&self, w: Which) -> Option<&Addr> {
        match w {
            Stake => Some(&self.stake),
            Ext => self.ext.as_ref(),
            Dist => self.dist.as_ref(),
        }
    }
    fn send(&mut self, by: &str, to: &Addr, n: u128, msg: Value) -> Result<(), String> {
        let token = self.token.clone();
        exec(
            &mut self.app,
            by,
            &token,
            &json!({"send": {"contract": to, "amount": n.to_string(), "msg": to_json_binary(&msg).unwrap()}}),
            &[],
        )
        .map(|_| ())
    }
    fn call(&mut self, by: &str, to: &Addr, msg: Value, funds: &[Coin]) -> Result<(), String> {
        exec(&mut self.app, by, to, &msg, funds).map(|_| ())
    }
    /// All that can be seen of it, in the terms both versions share.
    fn see(&self, heights: &[u64]) -> R<Value> {
        let a = &self.app;
        let mut out = serde_json::Map::new();
        let get = |c: &Addr, m: Value| query::<Value, _>(a, c, &m).map_err(|e| format!("no answer: {}", e.len() > 0));
        let put = |out: &mut serde_json::Map<String, Value>, k: String, v: Result<Value, String>| {
            out.insert(k, json!(v.unwrap_or_else(Value::String)));
        };
        let all = (0..USERS as usize)
            .map(user)
            .chain(["owner".into(), "manager".into(), self.stake.to_string()])
            .chain(self.ext.iter().chain(&self.dist).map(|a| a.to_string()));
        for u in all {
            put(&mut out, format!("value of {u}"), get(&self.stake, json!({"staked_value": {"address": u}})));
            put(&mut out, format!("claims of {u}"), get(&self.stake, json!({"claims": {"address": u}})));
            for h in heights {
                let m = json!({"staked_balance_at_height": {"address": u, "height": h}});
                put(&mut out, format!("stake of {u} at {h}"), get(&self.stake, m));
            }
            put(&mut out, format!("stake of {u}"), get(&self.stake, json!({"staked_balance_at_height": {"address": u}})));
            if let Some(e) = &self.ext {
                put(&mut out, format!("rewards of {u}"), get(e, json!({"get_pending_rewards": {"address": u}})));
            }
            out.insert(format!("tokens of {u}"), json!(cw20_balance(a, &self.token, &u).to_string()));
            out.insert(format!("coins of {u}"), json!(bank(a, &u, "ucoin").to_string()));
        }
        for h in heights {
            put(&mut out, format!("total at {h}"), get(&self.stake, json!({"total_staked_at_height": {"height": h}})));
        }
        put(&mut out, "total".into(), get(&self.stake, json!({"total_staked_at_height": {}})));
        put(&mut out, "worth".into(), get(&self.stake, json!({"total_value": {}})));
        put(&mut out, "hooks".into(), get(&self.stake, json!({"get_hooks": {}})));
        let strip = |v: Result<Value, String>| {
            v.map(|mut v| {
                for m in [&mut v["config"], &mut Value::Null] {
                    if let Some(m) = m.as_object_mut() {
                        m.remove("owner");
                        m.remove("manager");
                    }
                }
                if let Some(m) = v.as_object_mut() {
                    m.remove("owner");
                    m.remove("manager");
                    m.retain(|_, v| !v.is_null());
                }
                v
            })
        };
        put(&mut out, "config".into(), strip(get(&self.stake, json!({"get_config": {}}))));
        for (k, c) in [("ext", &self.ext), ("dist", &self.dist)] {
            if let Some(c) = c {
                put(&mut out, k.into(), strip(get(c, json!({"info": {}}))));
            }
        }
        for (i, m) in self.mocks.iter().enumerate() {
            out.insert(format!("told to hook {i}"), json!(mock_log(a, m)));
        }
        Ok(Value::Object(out))
    }
}

fn same(what: &str, a: &Value, b: &Value) -> R {
    let (Some(x), Some(y)) = (a.as_object(), b.as_object()) else {
        return Err(Fail::new("not objects"));
    };
    for (k, v) in x {
        ensure_eq!(y[k], *v, @T, "{what}: {k}, upgraded and not");
    }
    Ok(())
}

impl Scenario for StakeUp {
    type Case = SCase;
    fn name(&self) -> &'static str {
        "staking-upgrade"
    }
    fn rule(&self) -> &'static str {
        "the staking contract was upgraded, and staking, unstaking or funding worked before and after"
    }
    fn strategy(&self) -> BoxedStrategy<SCase> {
        let small = prop_oneof![3 => 1u128..20, 4 => 1u128..2000, 1 => 1u128..1_000_000_000_000];
        let op = prop_oneof![
            5 => (0..USERS, small.clone()).prop_map(|(u, n)| SOp::Stake { u, n }),
            2 => (0..USERS, small.clone()).prop_map(|(u, n)| SOp::Fund { u, n }),
            4 => (0..USERS, 0u8..9, -1i8..2).prop_map(|(u, part, plus)| SOp::Unstake { u, part, plus }),
            6 => (0..USERS).prop_map(SOp::Claim),
            1 => (who(), option::weighted(0.7, (any::<bool>(), 0u8..30))).prop_map(|(w, d)| SOp::Duration(w, d)),
            1 => (which(), who(), option::weighted(0.8, 0u8..6)).prop_map(|(w, by, to)| SOp::Owner(w, by, to)),
            1 => (which(), who(), option::weighted(0.7, 0u8..6)).prop_map(|(w, by, to)| SOp::Manager(w, by, to)),
            1 => (who(), any::<bool>(), 0u8..3).prop_map(|(by, add, what)| SOp::Hook { by, add, what }),
            3 => (who(), small.clone()).prop_map(|(by, n)| SOp::ExtFund { by, n: n * 10 }),
            5 => (0..USERS).prop_map(SOp::ExtClaim),
            1 => (who(), 0u8..40).prop_map(|(w, n)| SOp::ExtDuration(w, n)),
            2 => Just(SOp::Distribute),
            2 => (0..USERS, small.clone()).prop_map(|(u, n)| SOp::DistGive(u, n)),
            1 => who().prop_map(SOp::DistWithdraw),
            1 => (who(), small).prop_map(|(w, n)| SOp::DistRate(w, n)),
            8 => (1u8..20, 0u16..200).prop_map(|(blocks, secs)| SOp::Advance { blocks, secs }),
            3 => which().prop_map(SOp::Upgrade),
            1 => (which(), 0u8..6).prop_map(|(w, u)| SOp::Seize(w, u)),
        ];
        (
            prop::bool::weighted(0.85),
            any::<bool>(),
            option::weighted(0.8, (any::<bool>(), 0u8..20)),
            option::weighted(0.7, (any::<bool>(), 0u8..30)),
            option::weighted(0.6, 0u128..500),
            vec(op, 4..60),
        )
            .prop_map(|(owner, manager, unstaking, ext, dist, ops)| SCase { owner, manager, unstaking, ext, dist, ops })
            .boxed()
    }
    fn run(&self, c: &SCase, cx: &mut Cx) -> R {
        let mut a = self.world(c)?;
        let mut b = self.world(c)?;
        ensure_eq!(a.stake, b.stake, "two worlds set up alike");
        let mut owner: BTreeMap<Which, Option<String>> = BTreeMap::new();
        let mut manager: BTreeMap<Which, Option<String>> = BTreeMap::new();
        for w in [Stake, Ext] {
            owner.insert(w, c.owner.then(|| "owner".into()));
            manager.insert(w, c.manager.then(|| "manager".into()));
        }
        owner.insert(Dist, Some("owner".into()));
        manager.insert(Dist, None);
        let mut up: BTreeMap<Which, bool> = [(Stake, false), (Ext, false), (Dist, false)].into();
        let person = |i: u8| match i {
            4 => "owner".to_string(),
            5 => "manager".to_string(),
            i => user(i as usize),
        };
        let mut duration = c.unstaking.map(|(t, n)| dur(t, n as u64 + 1));
        let mut rate = c.dist.unwrap_or_default();
        let mut heights: Vec<u64> = vec![];
        let (mut before, mut after) = (0, 0);
        for (step, op) in c.ops.iter().enumerate() {
            cx.log(|| format!("{step}: {op:?}"));
            let by = |w: Which, who: &Who| match who {
                Who::Owner => owner[&w].clone().unwrap_or_else(|| "nobody".into()),
                Who::Manager => manager[&w].clone().unwrap_or_else(|| "nobody".into()),
                Who::User(u) => user(*u as usize),
            };
            // a manager is nobody any more once upgraded
            let lost = |w: Which, s: &str| up[&w] && owner[&w].as_deref() != Some(s) && manager[&w].as_deref() == Some(s);
            // (what to do, to which contract, by whom) as each version wants it
            let mut moved = false;
            match op {
                SOp::Stake { u, n } | SOp::Fund { u, n } => {
                    let m = if matches!(op, SOp::Stake { .. }) { json!({"stake": {}}) } else { json!({"fund": {}}) };
                    let stake = a.stake.clone();
                    let x = a.send(&user(*u as usize), &stake, *n, m.clone());
                    let y = b.send(&user(*u as usize), &stake, *n, m);
                    moved = x.is_ok();
                    agree(format!("{op:?}"), &y, &x.map_err(|_| "refused before the upgrade"), T)?;
                    if moved {
                        cx.label(if matches!(op, SOp::Stake { .. }) { "stake" } else { "fund" });
                    }
                }
                SOp::Unstake { u, part, plus } => {
                    let who = user(*u as usize);
                    let has: Value = query(&a.app, &a.stake, &json!({"staked_balance_at_height": {"address": who}})).map_err(Fail::new)?;
                    let has: u128 = has["balance"].as_str().unwrap_or("0").parse().unwrap_or(0);
                    let n = (has * *part as u128 / 8) as i128 + *plus as i128;
                    let m = json!({"unstake": {"amount": n.max(0).to_string()}});
                    let stake = a.stake.clone();
                    let x = a.call(&who, &stake, m.clone(), &[]);
                    let y = b.call(&who, &stake, m, &[]);
                    moved = x.is_ok();
                    agree(format!("{op:?} ({n} of {has})"), &y, &x.map_err(|_| "refused before the upgrade"), T)?;
                    if moved {
                        cx.label("unstake");
                    }
                }
                SOp::Claim(u) => {
                    let stake = a.stake.clone();
                    let x = a.call(&user(*u as usize), &stake, json!({"claim": {}}), &[]);
                    let y = b.call(&user(*u as usize), &stake, json!({"claim": {}}), &[]);
                    if x.is_ok() {
                        cx.label(if up[&Stake] { "claim-after" } else { "claim-before" });
                    }
                    agree(format!("{op:?}"), &y, &x.map_err(|_| "refused before the upgrade"), T)?;
                }
                SOp::Duration(w, d) => {
                    let s = by(Stake, w);
                    let d = d.map(|(t, n)| dur(t, n as u64 + 1));
                    let v1 = json!({"update_config": {"owner": owner[&Stake], "manager": manager[&Stake], "duration": d}});
                    let v2 = if up[&Stake] { json!({"update_config": {"duration": d}}) } else { v1.clone() };
                    let stake = a.stake.clone();
                    if lost(Stake, &s) {
                        let y = b.call(&s, &stake, v2, &[]);
                        agree("configured by who managed it", &y, &Err("there are no managers"), T)?;
                        cx.label("manager-lost");
                    } else {
                        let x = a.call(&s, &stake, v1, &[]);
                        let y = b.call(&s, &stake, v2, &[]);
                        if x.is_ok() {
                            duration = d;
                        }
                        agree(format!("{op:?} by {s}"), &y, &x.map_err(|_| "refused before the upgrade"), T)?;
                    }
                }
                SOp::Owner(w, who, to) => {
                    let Some(at) = a.at(*w).cloned() else { continue };
                    let s = by(*w, who);
                    let to = to.map(person);
                    if *w == Dist && to.is_none() {
                        continue;
                    }
                    let msg = match w {
                        Stake => json!({"update_config": {"owner": to, "manager": manager[w], "duration": duration}}),
                        Ext => json!({"update_owner": {"new_owner": to}}),
                        Dist => json!({"update_config": {
                            "owner": to, "staking_addr": a.stake, "reward_rate": rate.to_string(), "reward_token": a.token
                        }}),
                    };
                    let x = a.call(&s, &at, msg.clone(), &[]);
                    if !up[w] {
                        let y = b.call(&s, &at, msg, &[]);
                        agree(format!("{op:?} by {s}"), &y, &x.clone().map_err(|_| "refused before the upgrade"), T)?;
                    } else {
                        // the same by the new version's ways
                        let ok = owner[w].as_deref() == Some(s.as_str());
                        ensure_eq!(x.is_ok(), ok || (*w == Stake && manager[w].as_deref() == Some(s.as_str()) && to == owner[w]), "the old version");
                        let want: Result<(), &str> = if ok { Ok(()) } else { Err("not the owner") };
                        if *w == Dist && ok {
                            let m = json!({"update_config": {
                                "staking_addr": a.stake, "reward_rate": rate.to_string(), "reward_token": a.token
                            }});
                            agree("the same configuration", &b.call(&s, &at, m, &[]), &Ok(()), T)?;
                        }
                        match &to {
                            None => {
                                let y = b.call(&s, &at, json!({"update_ownership": "renounce_ownership"}), &[]);
                                agree("renounced", &y, &want, T)?;
                            }
                            Some(to) => {
                                let m = json!({"update_ownership": {"transfer_ownership": {"new_owner": to, "expiry": null}}});
                                let y = b.call(&s, &at, m, &[]);
                                agree("passed on", &y, &want, T)?;
                                if ok {
                                    let y = b.call(to, &at, json!({"update_ownership": "accept_ownership"}), &[]);
                                    agree("accepted", &y, &Ok(()), T)?;
                                    cx.label("passed-on-after");
                                }
                            }
                        }
                    }
                    if x.is_ok() {
                        owner.insert(*w, to);
                    }
                }
                SOp::Manager(w, who, to) => {
                    let Some(at) = a.at(*w).cloned() else { continue };
                    if up[w] || *w == Dist {
                        continue;
                    }
                    let s = by(*w, who);
                    let to = to.map(person);
                    let msg = match w {
                        Stake => json!({"update_config": {"owner": owner[w], "manager": to, "duration": duration}}),
                        _ => json!({"update_manager": {"new_manager": to}}),
                    };
                    let x = a.call(&s, &at, msg.clone(), &[]);
                    let y = b.call(&s, &at, msg, &[]);
                    agree(format!("{op:?} by {s}"), &y, &x.clone().map_err(|_| "refused"), &[])?;
                    if x.is_ok() {
                        manager.insert(*w, to);
                    }
                }
                SOp::Hook { by: who, add, what } => {
                    let s = by(Stake, who);
                    let addr = match (what, &a.ext) {
                        (0, Some(e)) => e.clone(),
                        (i, _) => a.mocks[*i as usize % 2].clone(),
                    };
                    let m = if *add { json!({"add_hook": {"addr": addr}}) } else { json!({"remove_hook": {"addr": addr}}) };
                    let stake = a.stake.clone();
                    if lost(Stake, &s) {
                        let y = b.call(&s, &stake, m, &[]);
                        agree("hooks by who managed it", &y, &Err("there are no managers"), T)?;
                    } else {
                        let x = a.call(&s, &stake, m.clone(), &[]);
                        let y = b.call(&s, &stake, m, &[]);
                        agree(format!("{op:?} by {s}"), &y, &x.map_err(|_| "refused before the upgrade"), T)?;
                    }
                }
                SOp::ExtFund { by: who, n } => {
                    let Some(at) = a.ext.clone() else { continue };
                    let s = by(Ext, who);
                    let native = matches!(c.ext, Some((true, _)));
                    let f = |w: &mut World| match native {
                        true => w.call(&s, &at, json!({"fund": {}}), &[coin(*n, "ucoin")]),
                        false => w.send(&s, &at, *n, json!({"fund": {}})),
                    };
                    if lost(Ext, &s) {
                        agree("rewards by who managed it", &f(&mut b), &Err("there are no managers"), T)?;
                        cx.label("manager-lost");
                    } else {
                        let x = f(&mut a);
                        let y = f(&mut b);
                        if x.is_ok() {
                            cx.label(if up[&Ext] { "rewards-after" } else { "rewards-before" });
                        }
                        agree(format!("{op:?} by {s}"), &y, &x.map_err(|_| "refused before the upgrade"), T)?;
                    }
                }
                SOp::ExtClaim(u) => {
                    let Some(at) = a.ext.clone() else { continue };
                    let x = a.call(&user(*u as usize), &at, json!({"claim": {}}), &[]);
                    let y = b.call(&user(*u as usize), &at, json!({"claim": {}}), &[]);
                    if x.is_ok() {
                        cx.label(if up[&Ext] { "rewards-claimed-after" } else { "rewards-claimed-before" });
                    }
                    agree(format!("{op:?}"), &y, &x.map_err(|_| "refused before the upgrade"), T)?;
                }
                SOp::ExtDuration(who, n) => {
                    let Some(at) = a.ext.clone() else { continue };
                    let s = by(Ext, who);
                    let m = json!({"update_reward_duration": {"new_duration": *n as u64}});
                    if lost(Ext, &s) {
                        agree("the period by who managed it", &b.call(&s, &at, m, &[]), &Err("there are no managers"), T)?;
                    } else {
                        let x = a.call(&s, &at, m.clone(), &[]);
                        let y = b.call(&s, &at, m, &[]);
                        agree(format!("{op:?} by {s}"), &y, &x.map_err(|_| "refused before the upgrade"), T)?;
                    }
                }
                SOp::Distribute => {
                    let Some(at) = a.dist.clone() else { continue };
                    let x = a.call("user0", &at, json!({"distribute": {}}), &[]);
                    let y = b.call("user0", &at, json!({"distribute": {}}), &[]);
                    if x.is_ok() {
                        cx.label(if up[&Dist] { "distributed-after" } else { "distributed-before" });
                    }
                    agree(format!("{op:?}"), &y, &x.map_err(|_| "refused before the upgrade"), T)?;
                }
                SOp::DistGive(u, n) => {
                    let Some(at) = a.dist.clone() else { continue };
                    let m = json!({"transfer": {"recipient": at, "amount": n.to_string()}});
                    let token = a.token.clone();
                    let x = a.call(&user(*u as usize), &token, m.clone(), &[]);
                    let y = b.call(&user(*u as usize), &token, m, &[]);
                    agree(format!("{op:?}"), &y, &x.map_err(|_| "refused"), T)?;
                }
                SOp::DistWithdraw(who) => {
                    let Some(at) = a.dist.clone() else { continue };
                    let s = by(Dist, who);
                    let x = a.call(&s, &at, json!({"withdraw": {}}), &[]);
                    let y = b.call(&s, &at, json!({"withdraw": {}}), &[]);
                    agree(format!("{op:?} by {s}"), &y, &x.map_err(|_| "refused before the upgrade"), T)?;
                }
                SOp::DistRate(who, n) => {
                    let Some(at) = a.dist.clone() else { continue };
                    let s = by(Dist, who);
                    let v1 = json!({"update_config": {
                        "owner": owner[&Dist], "staking_addr": a.stake, "reward_rate": n.to_string(), "reward_token": a.token
                    }});
                    let v2 = json!({"update_config": {
                        "staking_addr": a.stake, "reward_rate": n.to_string(), "reward_token": a.token
                    }});
                    let x = a.call(&s, &at, v1.clone(), &[]);
                    let y = b.call(&s, &at, if up[&Dist] { v2 } else { v1 }, &[]);
                    if x.is_ok() {
                        rate = *n;
                    }
                    agree(format!("{op:?} by {s}"), &y, &x.map_err(|_| "refused before the upgrade"), T)?;
                }
                SOp::Advance { blocks, secs } => {
                    heights.push(a.app.block_info().height);
                    if heights.len() > 4 {
                        heights.remove(step % 4);
                    }
                    for w in [&mut a, &mut b] {
                        advance(&mut w.app, *blocks as u64, *secs as u64);
                    }
                }
                SOp::Upgrade(w) => {
                    let Some(at) = b.at(*w).cloned() else { continue };
                    let code = b.codes[w];
                    let m = json!({"from_v1": {}});
                    let y = migrate_to(&mut b.app, "user0", &at, code, &m);
                    agree("upgraded by just anybody", &y, &Err("only the contract's admin"), &[])?;
                    let y = migrate_to(&mut b.app, "admin", &at, code, &m);
                    if up[w] {
                        agree("upgraded once more", &y, &Err("already done"), T)?;
                        cx.label("upgrade-again");
                    } else {
                        agree(format!("upgrading {w:?}"), &y, &Ok(()), T)?;
                        up.insert(*w, true);
                        cx.label(match w {
                            Stake => "upgraded-staking",
                            Ext => "upgraded-rewards",
                            Dist => "upgraded-distributor",
                        });
                        if *w == Stake && before == 0 {
                            cx.label("upgraded-unused");
                        }
                    }
                }
                SOp::Seize(w, u) => {
                    let Some(at) = b.at(*w).cloned() else { continue };
                    let who = person(*u);
                    if !up[w] || owner[w].as_deref() == Some(who.as_str()) {
                        continue;
                    }
                    for m in [
                        json!("accept_ownership"),
                        json!("renounce_ownership"),
                        json!({"transfer_ownership": {"new_owner": who, "expiry": null}}),
                    ] {
                        let y = b.call(&who, &at, json!({"update_ownership": m}), &[]);
                        agree(format!("ownership seized by {who}"), &y, &Err("not the owner"), T)?;
                    }
                }
            }
            if moved {
                *(if up[&Stake] { &mut after } else { &mut before }) += 1;
            }
            // what can be seen
            same(&format!("after step {step} {op:?}"), &a.see(&heights)?, &b.see(&heights)?)?;
            for w in [Stake, Ext, Dist] {
                let Some(at) = b.at(w) else { continue };
                if up[&w] {
                    let o: Value = q(&b.app, at, &json!({"ownership": {}}))?;
                    ensure_eq!(o, Owned::new(owner[&w].clone()).json(), @T, "who owns {w:?}");
                }
            }
            if up[&Stake] {
                let l: Value = q(&b.app, &b.stake, &json!({"list_stakers": {"limit": 30}}))?;
                let mut sum = 0u128;
                // the list is of this moment, heights are as their block begins
                let next = a.app.block_info().height + 1;
                for e in l["stakers"].as_array().cloned().unwrap_or_default() {
                    let one: Value = q(&a.app, &a.stake, &json!({"staked_balance_at_height": {"address": e["address"], "height": next}}))?;
                    ensure_eq!(e["balance"], one["balance"], @T, "listed stake of {}", e["address"]);
                    sum += e["balance"].as_str().unwrap_or("0").parse::<u128>().unwrap_or(0);
                }
                let t: Value = q(&a.app, &a.stake, &json!({"total_staked_at_height": {"height": next}}))?;
                ensure_eq!(Value::String(sum.to_string()), t["total"], @T, "sum of the listed stakes");
            }
        }
        cx.nontrivial = up[&Stake] && before > 0 && after > 0;
        Ok(())
    }
}
