//! Vesting payments, driven directly (entry points against a model of the chain): the schedule,
//! payouts, cancellation, and staking of the vesting funds with slashes.

use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

use cosmwasm_std::testing::{mock_dependencies, mock_env, mock_info, MockApi, MockQuerier, MockStorage};
use cosmwasm_std::{
    coin, coins, from_json, to_json_binary, to_json_vec, Addr, BankMsg, ContractResult, CosmosMsg, Decimal, DistributionMsg, Env,
    FullDelegation, MessageInfo, Order, OwnedDeps, Response, StakingMsg, Storage, SystemError, SystemResult, Timestamp,
    Uint128, Uint256, Validator, WasmMsg, WasmQuery,
};
use cw_vesting::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use super::common::*;
use crate::env::{user, T0};
use crate::fw::*;
use crate::{ensure, ensure_eq, fail};

const VALS: usize = 3;
const SELF: &str = "vesting";
const TOKEN: &str = "token";
const BOND: &str = "ubond";
const NO: &str = "nobody";
const UNBONDING_SLASH: &str = "slash-of-unbonding-tokens-while-unbondings-with-different-ends-are-pending";

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Money {
    Bond,
    Native,
    Cw20,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Fund { how: u8 },
    /// nothing named, or that share (in 64ths) of what is due, or of everything
    Distribute { by: u8, share: Option<u8>, of_all: bool },
    Cancel { by: u8 },
    Withdraw { by: u8, share: Option<u8> },
    Owner { by: u8, to: u8, accept: bool, renounce: bool },
    Delegate { by: u8, v: u8, share: u8 },
    Redelegate { by: u8, from: u8, to: u8, share: u8 },
    Undelegate { by: u8, v: u8, share: u8 },
    Rewards { by: u8, v: u8 },
    Receiver { by: u8, to: u8 },
    /// the validator loses this share; told to the contract at once or not
    Slash { v: u8, share: u8, unbonding: bool, late: bool },
    Register { by: u8, i: u8 },
    WrongRegister { by: u8, how: u8 },
    Advance { secs: u16 },
    /// to a point of the schedule, give or take
    ToPoint { i: u8, off: i8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub money: Money,
    pub total: u64,
    pub unit: u8,
    pub owner: bool,
    /// steps of a piecewise schedule: seconds and amount after the one before
    pub steps: Option<Vec<(u16, u16)>>,
    pub duration: u16,
    pub start: i16,
    pub unbonding: u16,
    pub spoil: u8,
    pub ops: Vec<Op>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Payout,
    Staking,
}
pub struct Vesting(pub Focus);

fn op(f: Focus) -> BoxedStrategy<Op> {
    let s = f == Focus::Staking;
    let u = || 0u8..4;
    let owner = || prop_oneof![15 => Just(9u8), 1 => u()];
    let rec = || prop_oneof![15 => Just(8u8), 1 => u(), 1 => Just(9u8)];
    let anyone = || prop_oneof![4 => u(), 1 => Just(8u8), 1 => Just(9u8)];
    let v = || 0u8..VALS as u8;
    let share = || prop_oneof![3 => Just(64u8), 6 => 1u8..64, 1 => Just(0u8), 1 => Just(65u8)];
    let w = |n: u32| if s { n } else { 0 };
    let mut l: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (if s { 0 } else { 3 }, (0u8..5).prop_map(|how| Op::Fund { how: how.saturating_sub(1) }).boxed()),
        (8, (anyone(), prop::option::of(share()), prop::bool::weighted(0.1)).prop_map(|(by, share, of_all)| Op::Distribute { by, share, of_all }).boxed()),
        (if s { 2 } else { 1 }, owner().prop_map(|by| Op::Cancel { by }).boxed()),
        (4, (anyone(), prop::option::of(share())).prop_map(|(by, share)| Op::Withdraw { by, share }).boxed()),
        (1, (owner(), u(), any::<bool>(), prop::bool::weighted(0.15)).prop_map(|(by, to, accept, renounce)| Op::Owner { by, to, accept, renounce }).boxed()),
        (w(10), (rec(), v(), share()).prop_map(|(by, v, share)| Op::Delegate { by, v, share }).boxed()),
        (w(4), (rec(), v(), v(), share()).prop_map(|(by, from, to, share)| Op::Redelegate { by, from, to, share }).boxed()),
        (w(10), (prop_oneof![4 => rec(), 1 => anyone()], v(), share()).prop_map(|(by, v, share)| Op::Undelegate { by, v, share }).boxed()),
        (w(1), (anyone(), v()).prop_map(|(by, v)| Op::Rewards { by, v }).boxed()),
        (w(2), (prop_oneof![3 => rec(), 2 => owner()], 0u8..5).prop_map(|(by, to)| Op::Receiver { by, to }).boxed()),
        (w(5), (v(), 1u8..65, any::<bool>(), prop::bool::weighted(0.3)).prop_map(|(v, share, unbonding, late)| Op::Slash { v, share, unbonding, late }).boxed()),
        (w(2), (owner(), u()).prop_map(|(by, i)| Op::Register { by, i }).boxed()),
        (w(1), (owner(), 0u8..3).prop_map(|(by, how)| Op::WrongRegister { by, how }).boxed()),
        (8, prop_oneof![3 => 0u16..20, 3 => 0u16..400].prop_map(|secs| Op::Advance { secs }).boxed()),
        (4, (0u8..6, -1i8..2).prop_map(|(i, off)| Op::ToPoint { i, off }).boxed()),
    ];
    l.retain(|x| x.0 > 0);
    prop::strategy::Union::new_weighted(l).boxed()
}

// ------------------------------------------------------------------ the chain

#[derive(Clone)]
struct Unbonding {
    v: usize,
    n: u128,
    until: u64,
}

#[derive(Clone)]
struct Chain {
    now: u64,
    height: u64,
    /// what the contract holds
    bal: u128,
    bonded: [u128; VALS],
    unbonding: Vec<Unbonding>,
    /// redelegated to a validator, not to be redelegated further until then
    moved: Vec<Unbonding>,
    paid: BTreeMap<String, u128>,
    receiver: String,
    /// of whom rewards were withdrawn
    rewarded: Vec<String>,
    /// whole unbonding time of the chain
    ub: u64,
}

impl Chain {
    fn staked(&self) -> u128 {
        self.bonded.iter().sum::<u128>() + self.unbonding.iter().map(|u| u.n).sum::<u128>()
    }
    fn redelegatable(&self, v: usize) -> u128 {
        let m: u128 = self.moved.iter().filter(|m| m.v == v).map(|m| m.n).sum();
        self.bonded[v].saturating_sub(m)
    }
    fn go(&mut self, secs: u64) {
        self.now += secs;
        self.height += 1;
        let now = self.now;
        for u in self.unbonding.iter().filter(|u| u.until <= now) {
            self.bal += u.n;
        }
        self.unbonding.retain(|u| u.until > now);
        self.moved.retain(|u| u.until > now);
    }
    fn apply(&mut self, m: &CosmosMsg, money: Money) -> Result<(), String> {
        let mut pay = |s: &mut Self, to: &str, n: u128| {
            if n == 0 || n > s.bal {
                return Err(format!("cannot send {n}, only {} held", s.bal));
            }
            s.bal -= n;
            *s.paid.entry(to.to_string()).or_default() += n;
            Ok(())
        };
        match m {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                let want = if money == Money::Bond { BOND } else { "uvest" };
                if money == Money::Cw20 || amount.len() != 1 || amount[0].denom != want {
                    return Err(format!("a payment in another token: {amount:?}"));
                }
                pay(self, to_address, amount[0].amount.u128())
            }
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                let v: Value = from_json(msg).map_err(|e| e.to_string())?;
                if money != Money::Cw20 || contract_addr != TOKEN || !funds.is_empty() {
                    return Err("a call of something else than its token".into());
                }
                let (to, n) = (v["transfer"]["recipient"].as_str(), v["transfer"]["amount"].as_str());
                let (Some(to), Some(n)) = (to, n) else { return Err(format!("not a transfer: {v}")) };
                pay(self, to, n.parse().unwrap())
            }
            CosmosMsg::Distribution(DistributionMsg::SetWithdrawAddress { address }) => {
                self.receiver = address.clone();
                Ok(())
            }
            CosmosMsg::Distribution(DistributionMsg::WithdrawDelegatorReward { validator }) => {
                self.rewarded.push(validator.clone());
                Ok(())
            }
            CosmosMsg::Staking(s) => {
                let idx = |v: &str| v.strip_prefix("val").and_then(|x| x.parse::<usize>().ok()).filter(|x| *x < VALS).ok_or("unknown validator".to_string());
                let amt = |c: &cosmwasm_std::Coin| {
                    if c.denom != BOND || c.amount.is_zero() {
                        Err("cannot stake that".to_string())
                    } else {
                        Ok(c.amount.u128())
                    }
                };
                match s {
                    StakingMsg::Delegate { validator, amount } => {
                        let (v, n) = (idx(validator)?, amt(amount)?);
                        if n > self.bal {
                            return Err("not enough to delegate".into());
                        }
                        self.bal -= n;
                        self.bonded[v] += n;
                    }
                    StakingMsg::Undelegate { validator, amount } => {
                        let (v, n) = (idx(validator)?, amt(amount)?);
                        if n > self.bonded[v] {
                            return Err("not that much delegated".into());
                        }
                        self.bonded[v] -= n;
                        self.unbonding.push(Unbonding { v, n, until: self.now + self.ub });
                        if self.ub == 0 {
                            self.go(0);
                            self.height -= 1;
                        }
                    }
                    StakingMsg::Redelegate { src_validator, dst_validator, amount } => {
                        let (a, b, n) = (idx(src_validator)?, idx(dst_validator)?, amt(amount)?);
                        if n > self.redelegatable(a) || a == b {
                            return Err("cannot redelegate that".into());
                        }
                        self.bonded[a] -= n;
                        self.bonded[b] += n;
                        self.moved.push(Unbonding { v: b, n, until: self.now + self.ub });
                    }
                    m => return Err(format!("{m:?}")),
                }
                Ok(())
            }
            m => Err(format!("an unexpected message {m:?}")),
        }
    }
}

struct Slashed {
    v: usize,
    at: u64,
    n: u128,
}

#[derive(Clone, Copy, PartialEq)]
enum Status {
    Unfunded,
    Funded,
    Canceled,
}

struct World {
    deps: OwnedDeps<MockStorage, MockApi, MockQuerier>,
    chain: Chain,
    money: Money,
    total: u128,
    status: Status,
    start: u64,
    /// (second, amount) of the schedule, from the start time
    steps: Vec<(u64, u128)>,
    /// what has vested is fixed at this when cancelled
    fixed: Option<u128>,
    owner: Option<String>,
    pending: Option<String>,
    claimed: u128,
    slashed: u128,
    /// what the owner is still to get after cancelling
    outstanding: u128,
    expect: BTreeMap<String, u128>,
    receiver: String,
    unknown: Vec<Slashed>,
    /// the contract's idea of what is unbonding is inexact until then
    blur_until: u64,
    blurred: bool,
    finding: Option<String>,
    lost: u128,
    lost_unknown: u128,
}

fn val(v: usize) -> String {
    format!("val{v}")
}

impl World {
    fn env(&self) -> Env {
        let mut e = mock_env();
        e.block.time = Timestamp::from_seconds(self.chain.now);
        e.block.height = self.chain.height;
        e.contract.address = Addr::unchecked(SELF);
        e
    }
    fn chain_view(&mut self) {
        let vals: Vec<_> = (0..VALS)
            .map(|v| Validator { address: val(v), commission: Decimal::zero(), max_commission: Decimal::one(), max_change_rate: Decimal::one() })
            .collect();
        let dels: Vec<_> = (0..VALS)
            .filter(|v| self.chain.bonded[*v] > 0)
            .map(|v| FullDelegation {
                delegator: Addr::unchecked(SELF),
                validator: val(v),
                amount: coin(self.chain.bonded[v], BOND),
                can_redelegate: coin(self.chain.redelegatable(v), BOND),
                accumulated_rewards: vec![],
            })
            .collect();
        self.deps.querier.update_staking(BOND, &vals, &dels);
    }
    /// One transaction: all of it or nothing.
    fn tx(&mut self, info: MessageInfo, msg: &Value) -> Result<(), String> {
        self.chain_view();
        let msg: ExecuteMsg = from_json(to_json_vec(msg).unwrap()).map_err(|e| e.to_string())?;
        let env = self.env();
        self.atomically(|d| cw_vesting::contract::execute(d.as_mut(), env, info, msg).map_err(|e| e.to_string()))
    }
    fn atomically(&mut self, f: impl FnOnce(&mut OwnedDeps<MockStorage, MockApi, MockQuerier>) -> Result<Response, String>) -> Result<(), String> {
        let before: Vec<_> = self.deps.storage.range(None, None, Order::Ascending).collect();
        let chain = self.chain.clone();
        let r = match catch_unwind(AssertUnwindSafe(|| f(&mut self.deps))) {
            Ok(r) => r,
            Err(_) => Err("panic".into()),
        };
        let money = self.money;
        let r = r.and_then(|r| r.messages.iter().try_for_each(|m| self.chain.apply(&m.msg, money)));
        if r.is_err() {
            self.chain = chain;
            let now: Vec<_> = self.deps.storage.range(None, None, Order::Ascending).collect();
            for (k, _) in now {
                self.deps.storage.remove(&k);
            }
            for (k, v) in before {
                self.deps.storage.set(&k, &v);
            }
        }
        r
    }
    fn ex(&mut self, who: &str, msg: &Value) -> Result<(), String> {
        self.tx(mock_info(who, &[]), msg)
    }
    fn ask<T: serde::de::DeserializeOwned>(&self, m: Value) -> Result<T, Fail> {
        let m: QueryMsg = from_json(to_json_vec(&m).unwrap()).unwrap();
        let env = self.env();
        let r = catch_unwind(AssertUnwindSafe(|| cw_vesting::contract::query(self.deps.as_ref(), env, m.clone())));
        match r {
            Ok(Ok(b)) => from_json(b).map_err(|e| Fail::new(e.to_string())),
            Ok(Err(e)) => Err(Fail::new(format!("query {m:?} failed: {e}"))),
            Err(_) => Err(Fail::new(format!("query {m:?} panicked"))),
        }
    }
    fn vested_by_schedule(&self, t: u64) -> u128 {
        let x = t.saturating_sub(self.start);
        let i = self.steps.iter().rposition(|s| s.0 <= x);
        let Some(i) = i else { return self.steps[0].1 };
        if i + 1 == self.steps.len() {
            return self.steps[i].1;
        }
        let (a, b) = (self.steps[i], self.steps[i + 1]);
        let d = Uint256::from(b.1 - a.1) * Uint256::from(x - a.0) / Uint256::from(b.0 - a.0);
        a.1 + Uint128::try_from(d).unwrap().u128()
    }
    fn vested(&self) -> u128 {
        self.fixed.unwrap_or_else(|| self.vested_by_schedule(self.chain.now))
    }
    fn owed(&self) -> u128 {
        (self.vested() - self.claimed).saturating_sub(self.slashed)
    }
    fn due(&self) -> u128 {
        if self.status == Status::Unfunded {
            0
        } else {
            self.owed().min(self.chain.bal)
        }
    }
    fn actor(&self, by: u8) -> String {
        match by {
            9 => self.owner.clone().unwrap_or(NO.into()),
            8 => "recipient".into(),
            b => user(b as usize),
        }
    }
    fn blurry(&self) -> bool {
        self.blurred && self.chain.now < self.blur_until
    }
}

fn part(share: u8, of: u128) -> u128 {
    match share {
        64 => of,
        65 => of + 1,
        s => Uint128::new(of).multiply_ratio(s as u128, 64u128).u128(),
    }
}

impl Scenario for Vesting {
    type Case = Case;
    fn name(&self) -> &'static str {
        match self.0 {
            Focus::Payout => "vesting",
            Focus::Staking => "vesting-staked",
        }
    }
    fn rule(&self) -> &'static str {
        match self.0 {
            Focus::Payout => "the recipient was paid at least twice, or once before a cancellation that returned funds to the owner",
            Focus::Staking => "funds were delegated, some came back unbonded, and the recipient was paid or the payment cancelled while funds were staked",
        }
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let f = self.0;
        let money = if f == Focus::Staking {
            Just(Money::Bond).boxed()
        } else {
            prop_oneof![1 => Just(Money::Bond), 2 => Just(Money::Native), 3 => Just(Money::Cw20)].boxed()
        };
        let steps = prop::option::weighted(0.4, prop::collection::vec((prop_oneof![1 => 0u16..3, 3 => 1u16..300], prop_oneof![1 => Just(0u16), 3 => 0u16..2000]), 1..6));
        let unbonding = prop_oneof![1 => Just(0u16), 8 => 1u16..300];
        (
            (money, prop_oneof![1 => 0u64..4, 6 => 1u64..100_000], 0u8..4, prop::bool::weighted(0.9), steps, 0u16..900),
            (-300i16..300, unbonding, 0u8..40, prop::collection::vec(op(f), 10..60)),
        )
            .prop_map(|((money, total, unit, owner, steps, duration), (start, unbonding, spoil, ops))| Case {
                money,
                total,
                unit,
                owner,
                steps,
                duration,
                start: if start < -150 { i16::MIN } else { start },
                unbonding,
                spoil,
                ops,
            })
            .boxed()
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        let t: &[&str] = self.tags();
        let unit = [1u128, 1_000_000, 1_000_000_000_000, 1_000_000_000_000_000_000][c.unit as usize];
        let mut total = c.total as u128 * unit;
        let start = if c.start == i16::MIN { None } else { Some((T0 as i64 + c.start as i64) as u64) };
        let (schedule, steps, sound) = match &c.steps {
            None => (json!("saturating_linear"), vec![(0, 0), (c.duration as u64, total)], true),
            Some(s) => {
                let (mut x, mut y) = (1u64, 0u128);
                let mut l = vec![(x, y)];
                for (dx, dy) in s {
                    x += *dx as u64;
                    y += *dy as u128 * unit;
                    l.push((x, y));
                }
                total = y;
                match c.spoil {
                    0 => l[0].1 = 1,
                    1 => l.truncate(1),
                    2 => l.last_mut().unwrap().1 += 1,
                    3 if l.len() > 2 => l[1].1 = l[l.len() - 1].1 + 1,
                    4 if l.len() > 2 => l.swap(1, 2),
                    _ => {}
                }
                let sound = l.len() >= 2
                    && l[0].1 == 0
                    && l.last().unwrap().1 == total
                    && l.windows(2).all(|w| w[0].0 < w[1].0 && w[0].1 <= w[1].1);
                (json!({"piecewise_linear": l.iter().map(|s| json!([s.0, s.1.to_string()])).collect::<Vec<_>>()}), l, sound)
            }
        };
        let denom = match c.money {
            Money::Bond => json!({"native": BOND}),
            Money::Native => json!({"native": "uvest"}),
            Money::Cw20 => json!({"cw20": TOKEN}),
        };
        let m = json!({
            "owner": if c.owner { json!("owner") } else { Value::Null }, "recipient": "recipient", "title": "t", "description": null,
            "total": total.to_string(), "denom": denom, "schedule": schedule,
            "start_time": start.map(|s| Timestamp::from_seconds(s)), "vesting_duration_seconds": c.duration, "unbonding_duration_seconds": c.unbonding
        });
        let mut deps = mock_dependencies();
        deps.querier.update_wasm(|q| match q {
            WasmQuery::Smart { contract_addr, .. } if contract_addr == TOKEN => {
                SystemResult::Ok(ContractResult::Ok(to_json_binary(&json!({"name": "n", "symbol": "s", "decimals": 6, "total_supply": "1"})).unwrap()))
            }
            WasmQuery::Smart { contract_addr, .. } => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr.clone() }),
            _ => SystemResult::Err(SystemError::Unknown {}),
        });
        let chain = Chain {
            now: T0,
            height: 10,
            bal: 0,
            bonded: [0; VALS],
            unbonding: vec![],
            moved: vec![],
            paid: BTreeMap::new(),
            receiver: SELF.into(),
            rewarded: vec![],
            ub: c.unbonding as u64,
        };
        let mut w = World {
            deps,
            chain,
            money: c.money,
            total,
            status: Status::Unfunded,
            start: start.unwrap_or(T0),
            steps,
            fixed: None,
            owner: c.owner.then(|| "owner".to_string()),
            pending: None,
            claimed: 0,
            slashed: 0,
            outstanding: 0,
            expect: BTreeMap::new(),
            receiver: SELF.into(),
            unknown: vec![],
            blur_until: 0,
            blurred: false,
            finding: None,
            lost: 0,
            lost_unknown: 0,
        };
        w.chain_view();
        let native = c.money != Money::Cw20;
        let d = if c.money == Money::Bond { BOND } else { "uvest" };
        let (funds, paid_right) = match (native, c.spoil) {
            (true, 10) => (vec![], false),
            (true, 11) => (coins(total + 1, d), false),
            (true, 12) => (coins(total.max(1), "uother"), false),
            (true, 13) if total > 1 => (coins(total - 1, d), false),
            (true, _) if total == 0 => (vec![], false),
            (true, _) => (coins(total, d), true),
            (false, 10) => (coins(1, "uother"), false),
            (false, _) => (vec![], true),
        };
        let init: InstantiateMsg = from_json(to_json_vec(&m).unwrap()).map_err(|e| Fail::new(e.to_string()))?;
        let env = w.env();
        let r = w.atomically(|deps| {
            cw_vesting::contract::instantiate(deps.as_mut(), env, mock_info("creator", &funds), init).map_err(|e| e.to_string())
        });
        let want = if w.start + c.duration as u64 <= T0 {
            Err("it is over already")
        } else if total == 0 || c.duration == 0 {
            Err("nothing to vest")
        } else if !sound {
            Err("not a schedule")
        } else if !paid_right {
            Err("not funded exactly")
        } else {
            Ok(())
        };
        agree(format!("creating {m} with {funds:?}"), &r, &want, t)?;
        if want.is_err() {
            cx.label("refused-at-creation");
            return Ok(());
        }
        if native {
            w.status = Status::Funded;
            w.chain.bal = total;
        }
        if c.money == Money::Bond {
            w.receiver = "recipient".into();
        }
        self.compare(&mut w, "[created]", cx)?;
        for (step, o) in c.ops.iter().enumerate() {
            cx.log(|| format!("[{step}] {o:?} t={} bal={} bonded={:?}", w.chain.now - T0, w.chain.bal, w.chain.bonded));
            let at = format!("[{step}]");
            self.step(&mut w, o, &at, cx)?;
            self.compare(&mut w, &at, cx)?;
        }
        // in the end everything comes out
        if w.status == Status::Funded && w.chain.staked() == 0 && w.unknown.is_empty() && !w.blurry() {
            let d = w.start + w.steps.last().unwrap().0;
            if d > w.chain.now {
                let d = d - w.chain.now;
                w.chain.go(d);
            }
            if w.due() > 0 {
                let r = w.ex(NO, &json!({"distribute": {"amount": null}}));
                agree("[end] the last payment", &r, &Ok(()), t)?;
            }
            let got = w.chain.paid.get("recipient").copied().unwrap_or(0);
            ensure_eq!(got, w.total - w.slashed.min(w.total), @t, "[end] paid to the recipient when everything has vested");
        }
        if w.status == Status::Canceled && w.unknown.is_empty() {
            for v in 0..VALS {
                if w.chain.bonded[v] > 0 {
                    let n = w.chain.bonded[v];
                    let r = w.ex(NO, &json!({"undelegate": {"validator": val(v), "amount": n.to_string()}}));
                    agree(format!("[end] anyone undelegates {n} from {v}"), &r, &Ok(()), t)?;
                }
            }
            let ub = w.chain.ub;
            w.chain.go(ub);
            let owner = w.owner.clone();
            let (mut a, mut b) = (w.due(), w.outstanding);
            if a > 0 {
                let r = w.ex(NO, &json!({"distribute": {"amount": null}}));
                agree(format!("[end] the last {a} is paid"), &r, &Ok(()), t)?;
                w.claimed += a;
                *w.expect.entry("recipient".into()).or_default() += a;
            }
            if b > 0 && owner.is_some() {
                let r = w.ex(NO, &json!({"withdraw_canceled_payment": {"amount": null}}));
                agree(format!("[end] the rest of {b} is returned"), &r, &Ok(()), t)?;
                *w.expect.entry(owner.unwrap()).or_default() += b;
                w.outstanding = 0;
            }
            (a, b) = (w.due(), w.outstanding);
            ensure_eq!(w.chain.paid, w.expect, @t, "[end] paid");
            ensure_eq!(w.chain.bal, a + b, @t, "[end] left in the contract");
            cx.label("wound-up");
        }
        if let Some(f) = w.finding {
            return Err(Fail::new(f).tag(t).sig(UNBONDING_SLASH));
        }
        cx.nontrivial = match self.0 {
            Focus::Payout => cx.count("paid") >= 2 || (cx.has("paid") && cx.has("returned")),
            Focus::Staking => cx.has("came-back") && (cx.has("paid") || cx.has("cancelled-staked")),
        };
        Ok(())
    }
}

impl Vesting {
    fn tags(&self) -> &'static [&'static str] {
        match self.0 {
            Focus::Payout => &["E01"],
            Focus::Staking => &["E02"],
        }
    }
    fn step(&self, w: &mut World, o: &Op, at: &str, cx: &mut Cx) -> R {
        let t = self.tags();
        match o {
            Op::Fund { how } => {
                let (token, n) = match how {
                    1 => ("othertoken", w.total),
                    2 => (TOKEN, w.total + 1),
                    3 => (TOKEN, w.total - 1),
                    _ => (TOKEN, w.total),
                };
                let m = json!({"receive": {"sender": "anyone", "amount": n.to_string(), "msg": to_json_binary(&json!({"fund": {}})).unwrap()}});
                let r = w.ex(token, &m);
                let want = if w.money != Money::Cw20 || *how == 1 {
                    Err("not its token")
                } else if n != w.total {
                    Err("not the total")
                } else if w.status != Status::Unfunded {
                    Err("no longer to be funded")
                } else {
                    Ok(())
                };
                agree(format!("{at} funding with {n} {token}"), &r, &want, t)?;
                if want.is_ok() {
                    w.status = Status::Funded;
                    w.chain.bal += n;
                }
            }
            Op::Distribute { by, share, of_all } => {
                let who = w.actor(*by);
                let due = w.due();
                let n = match share {
                    None => due,
                    Some(s) if *of_all => part(*s, w.total),
                    Some(s) => part(*s, due),
                };
                let r = w.ex(&who, &json!({"distribute": {"amount": share.map(|_| n.to_string())}}));
                let want = if n == 0 {
                    Err("nothing to pay")
                } else if n > due {
                    Err("more than is due")
                } else {
                    Ok(())
                };
                if w.blurry() && r.is_err() {
                    return Ok(());
                }
                if w.blurry() && share.is_none() {
                    // what the contract takes to be liquid may be less
                    let got = w.chain.paid.get("recipient").copied().unwrap_or(0) - w.expect.get("recipient").copied().unwrap_or(0);
                    ensure!(got <= due, @t, "{at} {got} paid, only {due} due");
                    w.claimed += got;
                    *w.expect.entry("recipient".into()).or_default() += got;
                    return Ok(());
                }
                agree(format!("{at} {who} distributes {n} ({due} due)"), &r, &want, t)?;
                if want.is_ok() {
                    w.claimed += n;
                    *w.expect.entry("recipient".into()).or_default() += n;
                    cx.label("paid");
                    if due < w.owed() {
                        cx.label("paid-while-staked");
                    }
                }
            }
            Op::Cancel { by } => {
                let who = w.actor(*by);
                if w.status == Status::Unfunded && w.vested() > 0 {
                    return Ok(());
                }
                let (due, owed, staked) = (w.due(), w.owed(), w.chain.staked() + w.lost_unknown);
                let r = w.ex(&who, &json!({"cancel": {}}));
                let want = if w.owner.as_ref() != Some(&who) {
                    Err("not the owner")
                } else if w.status == Status::Canceled {
                    Err("cancelled before")
                } else {
                    Ok(())
                };
                if w.blurry() && want.is_ok() && r.is_err() {
                    return Ok(());
                }
                agree(format!("{at} {who} cancels"), &r, &want, t)?;
                if want.is_ok() {
                    if w.blurry() {
                        // liquid is what the contract takes it to be; the rest is checked at the end
                        let got = w.chain.paid.get("recipient").copied().unwrap_or(0) - w.expect.get("recipient").copied().unwrap_or(0);
                        let back = w.chain.paid.get(&who).copied().unwrap_or(0) - w.expect.get(&who).copied().unwrap_or(0);
                        if who != "recipient" {
                            ensure!(got <= due, @t, "{at} {got} paid, only {due} due");
                            ensure!(back == 0 || got == owed, @t, "{at} {back} returned before {owed} was paid");
                        }
                        w.fixed = Some(w.vested());
                        w.claimed += got;
                        *w.expect.entry("recipient".into()).or_default() += got;
                        *w.expect.entry(who.clone()).or_default() += back;
                        w.outstanding = w.chain.bal + staked - w.owed();
                    } else {
                        let back = w.chain.bal + *w.chain.paid.get("recipient").unwrap_or(&0) + *w.chain.paid.get(&who).unwrap_or(&0);
                        let before = *w.expect.get("recipient").unwrap_or(&0) + *w.expect.get(&who).unwrap_or(&0);
                        let liquid = back - before;
                        w.fixed = Some(w.vested());
                        w.claimed += due;
                        if due > 0 {
                            *w.expect.entry("recipient".into()).or_default() += due;
                        }
                        if liquid > due {
                            *w.expect.entry(who.clone()).or_default() += liquid - due;
                            cx.label("returned");
                        }
                        w.outstanding = staked - w.owed();
                    }
                    w.expect.retain(|_, v| *v > 0);
                    w.status = Status::Canceled;
                    w.receiver = who;
                    cx.label(if staked > 0 { "cancelled-staked" } else { "cancelled" });
                    if w.slashed > 0 {
                        cx.label("cancelled-slashed");
                    }
                    let _ = owed;
                }
            }
            Op::Withdraw { by, share } => {
                let who = w.actor(*by);
                let have = if w.status == Status::Canceled { w.outstanding.min(w.chain.bal) } else { 0 };
                let n = share.map_or(have, |s| part(s, have));
                let r = w.ex(&who, &json!({"withdraw_canceled_payment": {"amount": share.map(|_| n.to_string())}}));
                let want = if w.owner.is_none() {
                    Err("no owner")
                } else if w.status != Status::Canceled {
                    Err("not cancelled")
                } else if n == 0 {
                    Err("nothing to withdraw")
                } else if n > have {
                    Err("more than there is")
                } else {
                    Ok(())
                };
                if w.blurry() && r.is_err() {
                    return Ok(());
                }
                let owner = w.owner.clone().unwrap_or_default();
                if w.blurry() && share.is_none() {
                    let got = w.chain.paid.get(&owner).copied().unwrap_or(0) - w.expect.get(&owner).copied().unwrap_or(0);
                    ensure!(got <= have, @t, "{at} {got} returned, only {have} to be");
                    w.outstanding -= got;
                    *w.expect.entry(owner).or_default() += got;
                    return Ok(());
                }
                agree(format!("{at} {who} returns {n} to the owner ({have} there)"), &r, &want, t)?;
                if want.is_ok() {
                    *w.expect.entry(owner).or_default() += n;
                    w.outstanding -= n;
                    cx.label("returned");
                    cx.label("returned-later");
                }
            }
            Op::Owner { by, to, accept, renounce } => {
                let (who, a, want) = if *accept {
                    let who = user(*to as usize);
                    let ok = w.pending.as_ref() == Some(&who);
                    (who, json!("accept_ownership"), if ok { Ok(()) } else { Err("not the nominee") })
                } else {
                    let who = w.actor(*by);
                    let want = if w.owner.as_ref() != Some(&who) {
                        Err("not the owner")
                    } else if *renounce && w.status == Status::Canceled && w.outstanding > 0 {
                        Err("there are funds to be returned")
                    } else {
                        Ok(())
                    };
                    let a = if *renounce { json!("renounce_ownership") } else { json!({"transfer_ownership": {"new_owner": user(*to as usize), "expiry": null}}) };
                    (who, a, want)
                };
                let r = w.ex(&who, &json!({"update_ownership": a}));
                agree(format!("{at} {who} {a}"), &r, &want, t)?;
                if want.is_ok() {
                    if *accept {
                        w.owner = Some(who);
                        w.pending = None;
                        cx.label("new-owner");
                    } else if *renounce {
                        w.owner = None;
                        w.pending = None;
                    } else {
                        w.pending = Some(user(*to as usize));
                    }
                }
            }
            Op::Delegate { by, v, share } => {
                let who = w.actor(*by);
                let v = *v as usize;
                let n = part(*share, w.chain.bal);
                let before = w.chain.clone();
                let r = w.ex(&who, &json!({"delegate": {"validator": val(v), "amount": n.to_string()}}));
                let want = match self.manager(w, &who) {
                    Ok(()) if n == 0 || n > before.bal => Err("not that much to delegate"),
                    x => x,
                };
                agree(format!("{at} {who} delegates {n} to {v}"), &r, &want, t)?;
                if want.is_ok() {
                    ensure_eq!(w.chain.bonded[v], before.bonded[v] + n, @t, "{at} delegated to {v}");
                    cx.label("delegated");
                }
            }
            Op::Redelegate { by, from, to, share } => {
                let who = w.actor(*by);
                let (a, b) = (*from as usize, *to as usize);
                let can = w.chain.redelegatable(a);
                let n = part(*share, can);
                let before = w.chain.clone();
                let r = w.ex(&who, &json!({"redelegate": {"src_validator": val(a), "dst_validator": val(b), "amount": n.to_string()}}));
                let want = match self.manager(w, &who) {
                    Ok(()) if n == 0 || n > can || a == b => Err("the chain refuses"),
                    x => x,
                };
                agree(format!("{at} {who} redelegates {n} from {a} to {b}"), &r, &want, t)?;
                if want.is_ok() {
                    ensure_eq!(w.chain.bonded[b], before.bonded[b] + n, @t, "{at} redelegated to {b}");
                    cx.label("redelegated");
                }
            }
            Op::Undelegate { by, v, share } => {
                let who = w.actor(*by);
                let v = *v as usize;
                let n = part(*share, w.chain.bonded[v]);
                let bonded = w.chain.bonded[v];
                let r = w.ex(&who, &json!({"undelegate": {"validator": val(v), "amount": n.to_string()}}));
                let allowed = match w.status {
                    Status::Unfunded => Err("not funded"),
                    Status::Canceled => Ok(()),
                    Status::Funded if who == "recipient" => Ok(()),
                    _ => Err("not the recipient"),
                };
                let want = match allowed {
                    Ok(()) if n == 0 || n > bonded => Err("not that much delegated"),
                    x => x,
                };
                agree(format!("{at} {who} undelegates {n} of {bonded} from {v}"), &r, &want, t)?;
                if want.is_ok() {
                    ensure_eq!(w.chain.bonded[v], bonded - n, @t, "{at} left with {v}");
                    cx.label("undelegated");
                }
            }
            Op::Rewards { by, v } => {
                let who = w.actor(*by);
                let r = w.ex(&who, &json!({"withdraw_delegator_reward": {"validator": val(*v as usize)}}));
                agree(format!("{at} {who} withdraws rewards"), &r, &Ok(()), t)?;
                let asked = std::mem::take(&mut w.chain.rewarded);
                ensure_eq!(asked, [val(*v as usize)], @t, "{at} whose rewards are withdrawn");
            }
            Op::Receiver { by, to } => {
                let who = w.actor(*by);
                let to = if *to == 4 { SELF.to_string() } else { user(*to as usize) };
                let r = w.ex(&who, &json!({"set_withdraw_address": {"address": to}}));
                let entitled = if w.status == Status::Canceled { w.owner.as_ref() == Some(&who) } else { who == "recipient" };
                let want = if !entitled {
                    Err("not the one who gets the rewards")
                } else if to == SELF {
                    Err("the contract itself")
                } else {
                    Ok(())
                };
                agree(format!("{at} {who} sends rewards to {to}"), &r, &want, t)?;
                if want.is_ok() {
                    w.receiver = to;
                }
            }
            Op::Slash { v, share, unbonding, late } => {
                let v = *v as usize;
                let Some(owner) = w.owner.clone() else { return Ok(()) };
                if w.status == Status::Unfunded || w.blurry() {
                    return Ok(());
                }
                let mut n = 0;
                if *unbonding {
                    if w.unknown.iter().any(|s| s.v == v) {
                        return Ok(());
                    }
                    let ends: BTreeSet<u64> = w.chain.unbonding.iter().map(|u| u.until).collect();
                    for u in w.chain.unbonding.iter_mut().filter(|u| u.v == v) {
                        let x = part(*share, u.n);
                        u.n -= x;
                        n += x;
                    }
                    if ends.len() > 1 {
                        w.blur_until = *ends.last().unwrap();
                        cx.label("slashed-unbonding-with-several-pending");
                    }
                } else {
                    n = part(*share, w.chain.bonded[v]);
                    w.chain.bonded[v] -= n;
                }
                if n == 0 {
                    return Ok(());
                }
                w.lost += n;
                cx.label("slashed");
                let s = Slashed { v, at: w.chain.now, n };
                w.lost_unknown += n;
                if *late && !*unbonding {
                    w.unknown.push(s);
                } else {
                    self.register(w, &owner, s, *unbonding, at, cx)?;
                }
            }
            Op::Register { by, i } => {
                if w.unknown.is_empty() {
                    return Ok(());
                }
                let who = w.actor(*by);
                let i = *i as usize % w.unknown.len();
                let s = w.unknown.remove(i);
                if w.owner.as_ref() != Some(&who) {
                    let m = json!({"register_slash": {"validator": val(s.v), "time": Timestamp::from_seconds(s.at), "amount": s.n.to_string(), "during_unbonding": false}});
                    let r = w.ex(&who, &m);
                    agree(format!("{at} {who} registers a slash"), &r, &Err("not the owner"), t)?;
                    w.unknown.push(s);
                } else {
                    cx.label("slash-registered-late");
                    self.register(w, &who, s, false, at, cx)?;
                }
            }
            Op::WrongRegister { by, how } => {
                let who = if *how == 0 { "recipient".to_string() } else { w.actor(*by) };
                let now = w.chain.now;
                let (n, time) = match how {
                    0 => (1u128, now),
                    1 => (0, now),
                    _ => (1, now + 1),
                };
                let m = json!({"register_slash": {"validator": val(0), "time": Timestamp::from_seconds(time), "amount": n.to_string(), "during_unbonding": false}});
                let r = w.ex(&who, &m);
                agree(format!("{at} {who} registers nonsense {m}"), &r, &Err("refused"), t)?;
            }
            Op::Advance { secs } => {
                let n = w.chain.unbonding.len();
                w.chain.go(*secs as u64);
                if w.chain.unbonding.len() < n {
                    cx.label("came-back");
                }
            }
            Op::ToPoint { i, off } => {
                let i = *i as usize % w.steps.len();
                let to = (w.start + w.steps[i].0) as i64 + *off as i64;
                if to > w.chain.now as i64 {
                    let n = w.chain.unbonding.len();
                    let d = to as u64 - w.chain.now;
                    w.chain.go(d);
                    if w.chain.unbonding.len() < n {
                        cx.label("came-back");
                    }
                }
            }
        }
        Ok(())
    }
    fn manager(&self, w: &World, who: &str) -> Result<(), &'static str> {
        match w.status {
            Status::Unfunded => Err("not funded"),
            Status::Canceled => Err("cancelled"),
            Status::Funded if who != "recipient" => Err("not the recipient"),
            _ if w.money != Money::Bond => Err("not the staked token"),
            _ => Ok(()),
        }
    }
    fn register(&self, w: &mut World, who: &str, s: Slashed, unbonding: bool, at: &str, cx: &mut Cx) -> R {
        let m = json!({"register_slash": {"validator": val(s.v), "time": Timestamp::from_seconds(s.at), "amount": s.n.to_string(), "during_unbonding": unbonding}});
        let r = w.ex(who, &m);
        agree(format!("{at} the owner registers {m}"), &r, &Ok(()), self.tags())?;
        w.lost_unknown -= s.n;
        if w.status == Status::Funded {
            w.slashed += s.n;
        } else {
            let o = s.n.min(w.outstanding);
            w.outstanding -= o;
            w.slashed += s.n - o;
            cx.label(if s.n > o { "slash-spills-over-to-recipient" } else { "slash-borne-by-owner" });
        }
        Ok(())
    }
    fn compare(&self, w: &mut World, at: &str, cx: &mut Cx) -> R {
        let t = self.tags();
        let _ = cx;
        // nobody was paid but those to be paid, and nothing is lost
        ensure_eq!(w.chain.paid, w.expect.iter().filter(|x| *x.1 > 0).map(|(a, b)| (a.clone(), *b)).collect::<BTreeMap<_, _>>(), @t, "{at} paid");
        let paid: u128 = w.chain.paid.values().sum();
        let funded = if w.status == Status::Unfunded || (w.status == Status::Canceled && paid + w.chain.bal == 0 && w.chain.staked() + w.lost == 0) { 0 } else { w.total };
        ensure_eq!(paid + w.chain.bal + w.chain.staked() + w.lost, funded, @t, "{at} all of the funds");
        ensure!(w.claimed <= w.vested(), @t, "{at} {} paid, {} vested", w.claimed, w.vested());
        // what it says
        let v: Value = w.ask(json!({"vested": {"t": null}}))?;
        ensure_eq!(v, json!(w.vested().to_string()), @t, "{at} vested");
        if w.fixed.is_none() {
            for (i, s) in w.steps.iter().enumerate() {
                for t0 in [w.start + s.0, w.start + s.0 + i as u64 * 7 + 3, (w.start + s.0).saturating_sub(1)] {
                    let v: Value = w.ask(json!({"vested": {"t": Timestamp::from_seconds(t0)}}))?;
                    ensure_eq!(v, json!(w.vested_by_schedule(t0).to_string()), @t, "{at} vested at {t0}");
                }
            }
            let v: Value = w.ask(json!({"vest_duration": {}}))?;
            ensure_eq!(v, json!((w.steps.last().unwrap().0 - w.steps[0].0).to_string()), @t, "{at} duration");
        }
        let v: Value = w.ask(json!({"total_to_vest": {}}))?;
        ensure_eq!(v, json!(w.fixed.unwrap_or(w.total).to_string()), @t, "{at} total to vest");
        let v: Value = w.ask(json!({"info": {}}))?;
        ensure_eq!(v["claimed"], json!(w.claimed.to_string()), @t, "{at} claimed");
        ensure_eq!(v["slashed"], json!(w.slashed.to_string()), @t, "{at} slashed");
        ensure_eq!(v["recipient"], json!("recipient"), @t, "{at} recipient");
        let status = match w.status {
            Status::Unfunded => json!("unfunded"),
            Status::Funded => json!("funded"),
            Status::Canceled => json!({"canceled": {"owner_withdrawable": w.outstanding.to_string()}}),
        };
        ensure_eq!(v["status"], status, @t, "{at} status");
        let v: Value = w.ask(json!({"ownership": {}}))?;
        ensure_eq!(v["owner"], json!(w.owner), @t, "{at} owner");
        if w.money == Money::Bond {
            ensure_eq!(w.chain.receiver, w.receiver, @t, "{at} receiver of staking rewards");
        }
        match self.tracked(w, at) {
            Err(f) if w.chain.now < w.blur_until => {
                w.blurred = true;
                w.finding.get_or_insert(f.msg);
                Ok(())
            }
            r => r,
        }
    }
    /// What it says of its stake, and what follows from it.
    fn tracked(&self, w: &World, at: &str) -> R {
        let t = self.tags();
        let v: Value = w.ask(json!({"distributable": {"t": null}}))?;
        ensure_eq!(v, json!(w.due().to_string()), @t, "{at} distributable");
        let now = Timestamp::from_seconds(w.chain.now);
        let v: Value = w.ask(json!({"stake": {"total_staked": {"t": now}}}))?;
        ensure_eq!(v, json!((w.chain.staked() + w.lost_unknown).to_string()), @t, "{at} staked");
        let mut card = 0;
        for i in 0..VALS {
            let n = w.chain.bonded[i]
                + w.chain.unbonding.iter().filter(|u| u.v == i).map(|u| u.n).sum::<u128>()
                + w.unknown.iter().filter(|s| s.v == i).map(|s| s.n).sum::<u128>();
            card += (n > 0) as u64;
            let v: Value = w.ask(json!({"stake": {"validator_staked": {"validator": val(i), "t": now}}}))?;
            ensure_eq!(v, json!(n.to_string()), @t, "{at} staked with {i}");
        }
        let v: Value = w.ask(json!({"stake": {"cardinality": {"t": now}}}))?;
        ensure_eq!(v, json!(card.to_string()), @t, "{at} number of validators staked with");
        Ok(())
    }
}
