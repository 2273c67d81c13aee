//! The payroll factory, the token swap and the admin factory.

use std::collections::{BTreeMap, BTreeSet};

use cosmwasm_std::{coin, to_json_binary, Addr, Binary, Coin, Empty, Timestamp, Uint128};
use cw_multi_test::Executor;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use super::common::*;
use crate::env::*;
use crate::fw::*;
use crate::{ensure, ensure_eq};

/// Names that start alike; the last is no address.
const NAMES: [&str; 6] = ["ann", "anna", "ann1", "bob", "b0b", "NOBODY"];
const NATIVES: [&str; 3] = ["uaaa", "ubbb", "no denom"];
fn name(i: u8) -> String {
    NAMES[i as usize % NAMES.len()].into()
}
fn sound(i: u8) -> bool {
    i as usize % NAMES.len() != 5
}
const RICH: u128 = 1 << 40;

/// An app in which everybody has both native and both cw20 tokens.
fn rich_app() -> (VApp, [Addr; 2]) {
    let mut app = new_app();
    let tokens = [0, 1].map(|_| {
        new_cw20(&mut app, &NAMES[..5].iter().map(|n| (n.to_string(), RICH)).collect::<Vec<_>>())
    });
    for n in &NAMES[..5] {
        for d in &NATIVES[..2] {
            fund_account(&mut app, n, RICH, d);
        }
    }
    (app, tokens)
}

/// Balances of everybody, by (who, 0/1 native 2/3 cw20).
#[derive(Clone, Default)]
struct Purse(BTreeMap<(String, usize), u128>);
impl Purse {
    fn new() -> Self {
        let mut p = Purse::default();
        for n in &NAMES[..5] {
            for k in 0..4 {
                p.0.insert((n.to_string(), k), RICH);
            }
        }
        p
    }
    fn get(&self, who: &str, k: usize) -> u128 {
        self.0.get(&(who.to_string(), k)).copied().unwrap_or(0)
    }
    fn pay(&mut self, from: &str, to: &str, k: usize, n: u128) -> bool {
        if self.get(from, k) < n {
            return false;
        }
        *self.0.entry((from.to_string(), k)).or_default() -= n;
        *self.0.entry((to.to_string(), k)).or_default() += n;
        true
    }
    fn check(&self, app: &VApp, tokens: &[Addr; 2], t: &'static [&'static str]) -> R {
        for ((who, k), n) in &self.0 {
            let got = if *k < 2 { bank(app, who, NATIVES[*k]) } else { cw20_balance(app, &tokens[*k - 2], who) };
            ensure_eq!(got, *n, @t, "balance of {who} in token {k}");
        }
        Ok(())
    }
}

/// Funds sent with a message, relative to what is asked.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Funds {
    Exact,
    Off(i8),
    Other,
    Both,
    None,
}
fn funds() -> BoxedStrategy<Funds> {
    prop_oneof![
        8 => Just(Funds::Exact),
        2 => prop_oneof![Just(-1i8), Just(1), any::<i8>()].prop_map(Funds::Off),
        1 => Just(Funds::Other),
        1 => Just(Funds::Both),
        1 => Just(Funds::None),
    ]
    .boxed()
}
impl Funds {
    /// What is sent when `n` of native token `k` is due (token 2 does not exist).
    fn resolve(&self, k: usize, n: u128) -> Vec<(usize, u128)> {
        let k = k % 2;
        let v = match self {
            Funds::Exact => vec![(k, n)],
            Funds::Off(d) => vec![(k, (n as i128 + *d as i128).max(0) as u128)],
            Funds::Other => vec![(1 - k, n)],
            Funds::Both => vec![(0, n), (1, n)],
            Funds::None => vec![],
        };
        v.into_iter().filter(|x| x.1 > 0).collect()
    }
}
fn coins_of(v: &[(usize, u128)]) -> Vec<Coin> {
    v.iter().map(|(k, n)| coin(*n, NATIVES[*k])).collect()
}

// ================================================================== payroll factory

const E3: &[&str] = &["E03"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VestSpec {
    pub owner: Option<u8>,
    pub recipient: u8,
    pub total: u32,
    /// 0, 1, 2: native (2 ill-formed); 3, 4: cw20; 5: no token
    pub denom: u8,
    /// seconds from now
    pub start: Option<i16>,
    pub duration: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum POp {
    Native { by: u8, v: VestSpec, funds: Funds },
    /// with the token asked for, or another, and so many too many
    Cw20 { by: u8, v: VestSpec, other: bool, off: i8 },
    /// claims to be a token that was sent
    Forge { by: u8, from: u8, v: VestSpec },
    Stray { by: u8, token: u8, n: u8 },
    Many { by: u8, recipient: u8, n: u8 },
    Code { by: u8, code: u8 },
    Own { by: u8, act: OwnAct },
    Advance(u8),
    Page { by: u8, who: u8, start: Option<u8>, limit: Option<u8> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PCase {
    pub owner: Option<u8>,
    pub ops: Vec<POp>,
}

pub struct Payroll;

fn vest_spec() -> BoxedStrategy<VestSpec> {
    (
        option::of(prop_oneof![12 => 0u8..5, 1 => Just(5u8)]),
        prop_oneof![20 => 0u8..5, 1 => Just(5u8)],
        prop_oneof![1 => Just(0u32), 20 => 1u32..1000, 3 => any::<u32>()],
        prop_oneof![10 => 0u8..2, 10 => 3u8..5, 1 => Just(2u8), 1 => Just(5u8)],
        option::of(prop_oneof![-50i16..50, any::<i16>()]),
        prop_oneof![1 => 0u16..60, 4 => 30u16..5000],
    )
        .prop_map(|(owner, recipient, total, denom, start, duration)| VestSpec { owner, recipient, total, denom, start, duration })
        .boxed()
}

struct Listed {
    addr: String,
    by: String,
    recipient: String,
}

impl Scenario for Payroll {
    type Case = PCase;
    fn name(&self) -> &'static str {
        "payroll-factory"
    }
    fn rule(&self) -> &'static str {
        "at least three contracts were created, for two instantiators or recipients, and a creation was refused"
    }
    fn strategy(&self) -> BoxedStrategy<PCase> {
        let native = |v: BoxedStrategy<VestSpec>| v.prop_map(|mut v| {
            if v.denom > 2 {
                v.denom %= 2;
            }
            v
        });
        let cw20 = |v: BoxedStrategy<VestSpec>| v.prop_map(|mut v| {
            if v.denom < 3 {
                v.denom = 3 + v.denom % 2;
            }
            v
        });
        let op = prop_oneof![
            8 => (0u8..5, prop_oneof![12 => native(vest_spec()).boxed(), 1 => vest_spec()], funds())
                .prop_map(|(by, v, funds)| POp::Native { by, v, funds }),
            8 => (0u8..5, prop_oneof![12 => cw20(vest_spec()).boxed(), 1 => vest_spec()], prop_oneof![9 => Just(false), 1 => Just(true)], prop_oneof![8 => Just(0i8), 1 => any::<i8>(), 1 => Just(-1i8)])
                .prop_map(|(by, v, other, off)| POp::Cw20 { by, v, other, off }),
            2 => (0u8..5, 0u8..5, cw20(vest_spec())).prop_map(|(by, from, v)| POp::Forge { by, from, v }),
            1 => (0u8..5, 0u8..2, 1u8..=255).prop_map(|(by, token, n)| POp::Stray { by, token, n }),
            1 => (0u8..5, 0u8..5, prop_oneof![5 => 5u8..14, 1 => 45u8..56]).prop_map(|(by, recipient, n)| POp::Many { by, recipient, n }),
            1 => (0u8..5, 0u8..4).prop_map(|(by, code)| POp::Code { by, code }),
            2 => (0u8..5, own_act()).prop_map(|(by, act)| POp::Own { by, act }),
            1 => (1u8..20).prop_map(POp::Advance),
            5 => (0u8..6, 0u8..6, option::of(any::<u8>()), option::of(prop_oneof![4 => 0u8..6, 1 => any::<u8>()]))
                .prop_map(|(by, who, start, limit)| POp::Page { by, who, start, limit }),
        ];
        (option::of(0u8..5), vec(op, 1..24)).prop_map(|(owner, ops)| PCase { owner, ops }).boxed()
    }

    fn run(&self, case: &PCase, cx: &mut Cx) -> R {
        let (mut app, tokens) = rich_app();
        let codes = [app.store_code(code::vesting()), app.store_code(code::vesting()), 99u64];
        let fcode = app.store_code(code::payroll_factory());
        let factory = harness(inst(
            &mut app,
            fcode,
            "deployer",
            &json!({"owner": case.owner.map(name), "vesting_code_id": codes[0]}),
            &[],
            None,
        ))?;
        let me = factory.to_string();
        let mut own = Owned::new(case.owner.map(name));
        let mut code_id = codes[0];
        let mut purse = Purse::new();
        for k in 0..4 {
            purse.0.insert((me.clone(), k), 0);
        }
        let mut next = 3;
        let mut listed: BTreeMap<String, Listed> = BTreeMap::new();
        let (mut made, mut refused) = (0, 0);

        for (at, op) in case.ops.iter().enumerate() {
            let b = app.block_info();
            let body = |v: &VestSpec| -> Value {
                json!({
                    "owner": v.owner.map(name),
                    "recipient": name(v.recipient),
                    "title": format!("t{at}"),
                    "description": if v.total % 2 == 0 { Some(format!("d{at}")) } else { None },
                    "total": Uint128::new(v.total as u128),
                    "denom": match v.denom {
                        0..=2 => json!({"native": NATIVES[v.denom as usize]}),
                        3 | 4 => json!({"cw20": tokens[v.denom as usize - 3]}),
                        _ => json!({"cw20": factory}),
                    },
                    "schedule": "saturating_linear",
                    "start_time": v.start.map(|s| Timestamp::from_seconds((b.time.seconds() as i64 + s as i64) as u64)),
                    "vesting_duration_seconds": v.duration as u64,
                    "unbonding_duration_seconds": 7,
                })
            };
            // could a vesting contract with these terms exist?
            let terms = |v: &VestSpec| -> Result<(), &'static str> {
                if code_id == 99 {
                    return Err("there is no such code");
                }
                if v.owner.map(sound) == Some(false) || !sound(v.recipient) {
                    return Err("not an address");
                }
                if matches!(v.denom, 2 | 5) {
                    return Err("not a denomination");
                }
                if v.total == 0 {
                    return Err("nothing vests");
                }
                if v.start.unwrap_or(0) as i64 + v.duration as i64 <= 0 || v.duration == 0 {
                    return Err("vests at once");
                }
                Ok(())
            };
            let mut created: Vec<(VestSpec, String)> = vec![];
            match op {
                POp::Native { by, v, funds } => {
                    let by = name(*by);
                    let n = v.total as u128;
                    let sent = funds.resolve(v.denom as usize, n);
                    let funded = if v.denom < 3 {
                        sent == vec![(v.denom as usize % 2, n)] && v.denom != 2
                    } else {
                        // what the factory happens to have
                        sent.is_empty() && v.denom < 5 && purse.get(&me, v.denom as usize - 1) >= n
                    };
                    let want = if own.owner.is_some() && !own.is(&by) {
                        Err("not the owner")
                    } else if !funded {
                        Err("not funded as it should be")
                    } else {
                        terms(v)
                    };
                    let msg = json!({"instantiate_native_payroll_contract": {"instantiate_msg": body(v), "label": "l"}});
                    let r = exec(&mut app, &by, &factory, &msg, &coins_of(&sent));
                    cx.log(|| format!("[{at}] {by} {msg} with {sent:?}: {r:?}, expected {want:?}"));
                    agree(format!("[{at}] {by} creates {v:?} with {sent:?}"), &r, &want, E3)?;
                    if want.is_ok() {
                        let addr = format!("contract{next}");
                        let (k, from) = if v.denom < 3 { (v.denom as usize, by.clone()) } else { (v.denom as usize - 1, me.clone()) };
                        ensure!(purse.pay(&from, &addr, k, n), @E3, "[{at}] the contract could not be funded");
                        created.push((v.clone(), by));
                    } else {
                        refused += 1;
                    }
                }
                POp::Cw20 { by, v, other, off } => {
                    let by = name(*by);
                    let n = v.total as u128;
                    let t = if v.denom >= 3 { (v.denom as usize - 3) % 2 } else { 0 };
                    let t = if *other { 1 - t } else { t };
                    let sent = (n as i128 + *off as i128).max(0) as u128;
                    let want = if own.owner.is_some() && !own.is(&by) {
                        Err("not the owner")
                    } else if sent != n {
                        Err("not the amount that vests")
                    } else if v.denom as usize != t + 3 {
                        Err("not the token that vests")
                    } else {
                        terms(v)
                    };
                    let inner = json!({"instantiate_payroll_contract": {"instantiate_msg": body(v), "label": "l"}});
                    let msg = json!({"send": {"contract": factory, "amount": Uint128::new(sent), "msg": to_json_binary(&inner).unwrap()}});
                    let r = exec(&mut app, &by, &tokens[t], &msg, &[]);
                    cx.log(|| format!("[{at}] {by} sends {sent} of {t} for {inner}: {r:?}, expected {want:?}"));
                    agree(format!("[{at}] {by} creates {v:?} with {sent} of token {t}"), &r, &want, E3)?;
                    if want.is_ok() {
                        purse.pay(&by, &format!("contract{next}"), t + 2, n);
                        created.push((v.clone(), by));
                        cx.label("created with cw20");
                    } else {
                        refused += 1;
                    }
                }
                POp::Forge { by, from, v } => {
                    let by = name(*by);
                    let inner = json!({"instantiate_payroll_contract": {"instantiate_msg": body(v), "label": "l"}});
                    let msg = json!({"receive": {"sender": name(*from), "amount": Uint128::new(v.total as u128), "msg": to_json_binary(&inner).unwrap()}});
                    let r = exec(&mut app, &by, &factory, &msg, &[]);
                    cx.log(|| format!("[{at}] {by} forges {msg}: {r:?}"));
                    let want = Err("no token was sent");
                    agree(format!("[{at}] {by} claims that {} sent tokens for {v:?}", name(*from)), &r, &want, E3)?;
                    cx.label("forged receipt");
                    refused += 1;
                }
                POp::Stray { by, token, n } => {
                    let (by, n) = (name(*by), *n as u128);
                    if purse.pay(&by, &me, *token as usize + 2, n) {
                        harness(exec(&mut app, &by, &tokens[*token as usize], &json!({"transfer": {"recipient": factory, "amount": Uint128::new(n)}}), &[]))?;
                    }
                }
                POp::Many { by, recipient, n } => {
                    let by = own.owner.clone().unwrap_or(name(*by));
                    if code_id == 99 {
                        continue;
                    }
                    let v = VestSpec { owner: None, recipient: *recipient, total: 2, denom: 0, start: None, duration: 100 };
                    for i in 0..*n as usize {
                        let msg = json!({"instantiate_native_payroll_contract": {"instantiate_msg": body(&v), "label": "l"}});
                        let r = exec(&mut app, &by, &factory, &msg, &[coin(2, NATIVES[0])]);
                        agree(format!("[{at}] {by} creates {v:?}"), &r, &Ok(()), E3)?;
                        purse.pay(&by, &format!("contract{}", next + i), 0, 2);
                        created.push((v.clone(), by.clone()));
                    }
                    cx.label("many");
                }
                POp::Code { by, code } => {
                    let by = if *code == 3 { own.owner.clone().unwrap_or(name(*by)) } else { name(*by) };
                    let new = codes[*code as usize % 3];
                    let want = if own.is(&by) { Ok(()) } else { Err("not the owner") };
                    let r = exec(&mut app, &by, &factory, &json!({"update_code_id": {"vesting_code_id": new}}), &[]);
                    agree(format!("[{at}] {by} sets the code to {new}"), &r, &want, E3)?;
                    if want.is_ok() {
                        code_id = new;
                        cx.label("code changed");
                    }
                }
                POp::Own { by, act } => {
                    let by = match (act, &own.pending) {
                        (OwnAct::Accept, Some((p, _))) if by % 2 == 0 => p.clone(),
                        (OwnAct::Accept, _) => name(*by),
                        _ if by % 2 == 0 => own.owner.clone().unwrap_or(name(*by)),
                        _ => name(*by),
                    };
                    let want = own.act(&by, act, name, &b);
                    let r = exec(&mut app, &by, &factory, &json!({"update_ownership": act.json(name, &b)}), &[]);
                    agree(format!("[{at}] {by} {act:?}"), &r, &want, E3)?;
                    if want.is_ok() {
                        cx.label("ownership changed");
                    }
                }
                POp::Advance(n) => advance(&mut app, *n as u64, *n as u64),
                POp::Page { by, who, start, limit } => {
                    let all: Vec<&Listed> = listed.values().collect();
                    let start: Option<String> = start.map(|s| match all.len() {
                        0 => "contract4".into(),
                        _ if s >= 230 => ["contract", "contract1z", "zz", "ann"][s as usize % 4].into(),
                        n => all[s as usize % n].addr.clone(),
                    });
                    let who_ = name(*who);
                    let (q_, key, rev) = match by {
                        0 => ("list_vesting_contracts", "", false),
                        1 => ("list_vesting_contracts_reverse", "", true),
                        2 => ("list_vesting_contracts_by_instantiator", "instantiator", false),
                        3 => ("list_vesting_contracts_by_instantiator_reverse", "instantiator", true),
                        4 => ("list_vesting_contracts_by_recipient", "recipient", false),
                        _ => ("list_vesting_contracts_by_recipient_reverse", "recipient", true),
                    };
                    let mut args = json!({"limit": limit});
                    args[if rev { "start_before" } else { "start_after" }] = json!(start);
                    if !key.is_empty() {
                        args[key] = json!(who_);
                    }
                    let msg = json!({q_: args});
                    let got: Result<Value, String> = query(&app, &factory, &msg);
                    if !key.is_empty() && !sound(*who) {
                        continue;
                    }
                    let mut want: Vec<&Listed> = all
                        .into_iter()
                        .filter(|l| match key {
                            "instantiator" => l.by == who_,
                            "recipient" => l.recipient == who_,
                            _ => true,
                        })
                        .filter(|l| match &start {
                            Some(s) => if rev { l.addr < *s } else { l.addr > *s },
                            None => true,
                        })
                        .collect();
                    if rev {
                        want.reverse();
                    }
                    want.truncate(limit.unwrap_or(10).min(50) as usize);
                    let want = json!(want
                        .iter()
                        .map(|l| json!({"contract": l.addr, "instantiator": l.by, "recipient": l.recipient}))
                        .collect::<Vec<_>>());
                    let got = got.map_err(|e| Fail::new(format!("[{at}] {msg} fails: {e}")).tag(E3))?;
                    ensure!(got == want, @E3, "[{at}] {msg}: code {got}, oracle {want}");
                    cx.label(if want.as_array().unwrap().len() > 10 { "long page" } else { "page" });
                    continue;
                }
            }
            for (v, by) in created {
                let addr = Addr::unchecked(format!("contract{next}"));
                next += 1;
                made += 1;
                let get = |msg: Value| -> R<Value> { query(&app, &addr, &msg).map_err(|e| Fail::new(format!("[{at}] the new contract does not answer: {e}")).tag(E3)) };
                let info = get(json!({"info": {}}))?;
                let ask = body(&v);
                for f in ["recipient", "title", "description"] {
                    ensure_eq!(info[f], ask[f], @E3, "[{at}] {f} of the new contract");
                }
                ensure_eq!(info["denom"], ask["denom"], @E3, "[{at}] denomination of the new contract");
                ensure_eq!(info["status"], json!("funded"), @E3, "[{at}] status of the new contract");
                let start = if v.start.is_some() { ask["start_time"].clone() } else { json!(b.time) };
                ensure_eq!(info["start_time"], start, @E3, "[{at}] start of the new contract");
                ensure_eq!(get(json!({"total_to_vest": {}}))?, ask["total"], @E3, "[{at}] total of the new contract");
                ensure_eq!(get(json!({"vest_duration": {}}))?, json!(v.duration.to_string()), @E3, "[{at}] duration of the new contract");
                ensure_eq!(get(json!({"ownership": {}}))?["owner"], ask["owner"], @E3, "[{at}] owner of the new contract");
                let d = app.contract_data(&addr).map_err(|e| Fail::new(format!("{e:#}")).tag(E3))?;
                ensure_eq!(d.code_id, code_id, @E3, "[{at}] code of the new contract");
                ensure_eq!(d.admin.map(|a| a.to_string()), v.owner.map(name), @E3, "[{at}] chain admin of the new contract");
                listed.insert(addr.to_string(), Listed { addr: addr.to_string(), by, recipient: name(v.recipient) });
            }
            purse.check(&app, &tokens, E3)?;
            let o: Value = q(&app, &factory, &json!({"ownership": {}}))?;
            ensure_eq!(o, own.json(), @E3, "[{at}] ownership of the factory");
            let c: u64 = q(&app, &factory, &json!({"code_id": {}}))?;
            ensure_eq!(c, code_id, @E3, "[{at}] code of the factory");
            // every contract exactly once, read to the end by pages of three
            let mut seen: Vec<Value> = vec![];
            loop {
                let start = seen.last().map(|v| v["contract"].clone());
                let p: Vec<Value> = q(&app, &factory, &json!({"list_vesting_contracts": {"start_after": start, "limit": 30}}))?;
                if p.is_empty() {
                    break;
                }
                seen.extend(p);
                ensure!(seen.len() <= listed.len(), @E3, "[{at}] the listing repeats itself or lists what was never made: {seen:?}");
            }
            ensure_eq!(seen.len(), listed.len(), @E3, "[{at}] number of contracts listed");
            for (s, l) in seen.iter().zip(listed.values()) {
                ensure_eq!(*s, json!({"contract": l.addr, "instantiator": l.by, "recipient": l.recipient}), @E3, "[{at}] listed");
            }
        }
        let by: BTreeSet<&String> = listed.values().map(|l| &l.by).collect();
        let to: BTreeSet<&String> = listed.values().map(|l| &l.recipient).collect();
        cx.nontrivial = made >= 3 && refused > 0 && (by.len() > 1 || to.len() > 1);
        Ok(())
    }
}

// ================================================================== token swap

const E4: &[&str] = &["E04"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Side {
    pub who: u8,
    /// 0, 1: native; 2, 3: cw20; 4: no token
    pub token: u8,
    pub n: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum By {
    One,
    Two,
    Other(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    /// as promised, by whatever route
    Pay(By),
    Fund { by: By, funds: Funds },
    Send { by: By, other: bool, off: i8 },
    /// tells the contract that tokens came
    Forge { by: By, from: By },
    Withdraw(By),
    /// a gift nobody asked for
    Stray { by: u8, token: u8, n: u8 },
    /// as much as a side has promised, sent without saying so
    Gift { by: u8, side: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SCase {
    pub sides: [Side; 2],
    pub ops: Vec<SOp>,
}

pub struct Swap;

fn side() -> BoxedStrategy<Side> {
    (
        prop_oneof![20 => 0u8..5, 1 => Just(5u8)],
        prop_oneof![20 => 0u8..4, 1 => Just(4u8)],
        prop_oneof![1 => Just(0u32), 15 => 1u32..5000, 2 => any::<u32>()],
    )
        .prop_map(|(who, token, n)| Side { who, token, n })
        .boxed()
}

impl Scenario for Swap {
    type Case = SCase;
    fn name(&self) -> &'static str {
        "token-swap"
    }
    fn rule(&self) -> &'static str {
        "the swap was made, and before it or after it a payment or withdrawal was refused"
    }
    fn strategy(&self) -> BoxedStrategy<SCase> {
        let by = || prop_oneof![5 => Just(By::One), 5 => Just(By::Two), 1 => (0u8..5).prop_map(By::Other)];
        let off = prop_oneof![6 => Just(0i8), 2 => Just(-1i8), 2 => Just(1i8), 1 => any::<i8>()];
        let op = prop_oneof![
            5 => by().prop_map(SOp::Pay),
            3 => (by(), funds()).prop_map(|(by, funds)| SOp::Fund { by, funds }),
            3 => (by(), prop_oneof![4 => Just(false), 1 => Just(true)], off).prop_map(|(by, other, off)| SOp::Send { by, other, off }),
            1 => (by(), by()).prop_map(|(by, from)| SOp::Forge { by, from }),
            4 => by().prop_map(SOp::Withdraw),
            1 => (0u8..5, 0u8..4, 1u8..=255).prop_map(|(by, token, n)| SOp::Stray { by, token, n }),
            2 => (0u8..5, any::<bool>()).prop_map(|(by, side)| SOp::Gift { by, side }),
        ];
        let sides = (side(), side(), any::<u8>()).prop_map(|(a, mut b, x)| {
            // mostly two people; sometimes one token
            if a.who == b.who && x > 20 {
                b.who = (b.who + 1) % 5;
            }
            if x % 4 == 0 {
                b.token = a.token;
            }
            if x % 3 == 0 {
                b.n = a.n;
            }
            [a, b]
        });
        (sides, vec(op, 1..20)).prop_map(|(sides, ops)| SCase { sides, ops }).boxed()
    }

    fn run(&self, case: &SCase, cx: &mut Cx) -> R {
        let (mut app, tokens) = rich_app();
        let dud = new_mock(&mut app);
        let c = app.store_code(code::token_swap());
        let s = &case.sides;
        let promise = |x: &Side| {
            let n = Uint128::new(x.n as u128);
            match x.token {
                0 | 1 => json!({"native": {"denom": NATIVES[x.token as usize], "amount": n}}),
                2 | 3 => json!({"cw20": {"contract_addr": tokens[x.token as usize - 2], "amount": n}}),
                _ => json!({"cw20": {"contract_addr": dud, "amount": n}}),
            }
        };
        let party = |x: &Side| json!({"address": name(x.who), "promise": promise(x)});
        let want = if s.iter().any(|x| !sound(x.who)) {
            Err("not an address")
        } else if name(s[0].who) == name(s[1].who) {
            Err("one and the same party")
        } else if s.iter().any(|x| x.n == 0) {
            Err("nothing is promised")
        } else if s.iter().any(|x| x.token == 4) {
            Err("not a token")
        } else {
            Ok(())
        };
        let msg = json!({"counterparty_one": party(&s[0]), "counterparty_two": party(&s[1])});
        let got = inst(&mut app, c, "deployer", &msg, &[], None);
        agree(format!("a swap {msg}"), &got, &want, E4)?;
        if want.is_err() {
            cx.label("refused at the start");
            return Ok(());
        }
        let swap = got.unwrap();
        let me = swap.to_string();
        let mut purse = Purse::new();
        for k in 0..4 {
            purse.0.insert((me.clone(), k), 0);
        }
        let mut paid = [false; 2];
        let mut refused = 0;
        for (at, op) in case.ops.iter().enumerate() {
            let who = |b: &By| match b {
                By::One => name(s[0].who),
                By::Two => name(s[1].who),
                By::Other(i) => NAMES[*i as usize % 5].to_string(),
            };
            let side_of = |w: &str| (0..2).find(|i| name(s[*i].who) == w);
            let done = paid == [true; 2];
            // accept a payment and, if it is the second, swap
            let mut take = |i: usize, purse: &mut Purse, paid: &mut [bool; 2]| {
                purse.pay(&name(s[i].who), &me, s[i].token as usize, s[i].n as u128);
                paid[i] = true;
                if *paid == [true; 2] {
                    for j in 0..2 {
                        purse.pay(&me, &name(s[1 - j].who), s[j].token as usize, s[j].n as u128);
                    }
                    cx.label("swapped");
                } else {
                    cx.label("first payment");
                }
            };
            let (r, want, what) = match op {
                SOp::Pay(by) | SOp::Fund { by, .. } | SOp::Send { by, .. } => {
                    let w = who(by);
                    // by which route, and what
                    let i = side_of(&w);
                    let due = i.map(|i| (s[i].token as usize, s[i].n as u128)).unwrap_or((0, 7));
                    let (k, sent): (usize, Vec<(usize, u128)>) = match op {
                        SOp::Fund { funds, .. } => (0, funds.resolve(due.0, due.1)),
                        SOp::Pay(_) if due.0 < 2 => (0, vec![due]),
                        SOp::Send { other, off, .. } => {
                            let t = if due.0 >= 2 { due.0 } else { 2 };
                            let t = if *other { 5 - t } else { t };
                            (t, vec![(t, (due.1 as i128 + *off as i128).max(0) as u128)])
                        }
                        _ => (due.0, vec![due]),
                    };
                    let want = match i {
                        None => Err("not a party"),
                        Some(i) if paid[i] => Err("has paid already"),
                        Some(_) if sent != vec![due] => Err("not what was promised"),
                        _ => Ok(()),
                    };
                    let r = if k >= 2 {
                        let msg = json!({"send": {"contract": swap, "amount": Uint128::new(sent[0].1), "msg": ""}});
                        exec(&mut app, &w, &tokens[k - 2], &msg, &[])
                    } else {
                        exec(&mut app, &w, &swap, &json!({"fund": {}}), &coins_of(&sent))
                    };
                    if want.is_ok() {
                        take(i.unwrap(), &mut purse, &mut paid);
                    }
                    (r, want, format!("{w} pays {sent:?}"))
                }
                SOp::Forge { by, from } => {
                    let (w, f) = (who(by), who(from));
                    let n = side_of(&f).map(|i| s[i].n).unwrap_or(1);
                    let msg = json!({"receive": {"sender": f, "amount": Uint128::new(n as u128), "msg": ""}});
                    (exec(&mut app, &w, &swap, &msg, &[]), Err("no tokens were sent"), format!("{w} claims {f} paid"))
                }
                SOp::Withdraw(by) => {
                    let w = who(by);
                    let want = match side_of(&w) {
                        None => Err("not a party"),
                        Some(_) if done => Err("the swap was made"),
                        Some(i) if !paid[i] => Err("has not paid"),
                        _ => Ok(()),
                    };
                    if want.is_ok() {
                        let i = side_of(&w).unwrap();
                        purse.pay(&me, &w, s[i].token as usize, s[i].n as u128);
                        paid[i] = false;
                        cx.label("withdrawn");
                    }
                    (exec(&mut app, &w, &swap, &json!({"withdraw": {}}), &[]), want, format!("{w} withdraws"))
                }
                SOp::Stray { .. } | SOp::Gift { .. } => {
                    let (by, k, n) = match op {
                        SOp::Stray { by, token, n } => (by, *token as usize, *n as u128),
                        SOp::Gift { by, side } => (by, s[*side as usize].token as usize, s[*side as usize].n as u128),
                        _ => unreachable!(),
                    };
                    let w = NAMES[*by as usize % 5].to_string();
                    if done {
                        cx.label("gift after the swap");
                    }
                    if !purse.pay(&w, &me, k, n) {
                        continue;
                    }
                    let r = if k < 2 {
                        app.send_tokens(Addr::unchecked(&w), swap.clone(), &[coin(n, NATIVES[k])]).map_err(|e| format!("{e:#}"))
                    } else {
                        exec(&mut app, &w, &tokens[k - 2], &json!({"transfer": {"recipient": swap, "amount": Uint128::new(n)}}), &[])
                    };
                    (r, Ok(()), format!("{w} gives {n} of {k}"))
                }
            };
            cx.log(|| format!("[{at}] {what}: {r:?}, expected {want:?}"));
            agree(format!("[{at}] {what}"), &r, &want, E4)?;
            if want.is_err() {
                refused += 1;
            }
            purse.check(&app, &tokens, E4)?;
            let st: Value = q(&app, &swap, &json!({"status": {}}))?;
            for (i, f) in ["counterparty_one", "counterparty_two"].iter().enumerate() {
                let mut w = party(&s[i]);
                w["provided"] = json!(paid[i]);
                ensure_eq!(st[f], w, @E4, "[{at}] status of {f}");
            }
        }
        cx.nontrivial = paid == [true; 2] && refused > 0;
        Ok(())
    }
}

// ================================================================== admin factory

const E7: &[&str] = &["E07"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Make {
    /// 0: works, 1: fails, 2: no such code
    pub code: u8,
    /// instantiate2 with this salt, expecting 0: nothing, 1: the right address, 2: another one, 3: no address
    pub two: Option<(u8, u8)>,
    /// what the new contract asks the factory for while it is made
    pub then: Vec<Make>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FOp {
    pub by: u8,
    pub make: Make,
    pub funds: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FCase {
    /// a name, or (from 6) the contract made with a salt
    pub admin: Option<u8>,
    pub ops: Vec<FOp>,
}

pub struct Factory;

fn make(depth: u32) -> BoxedStrategy<Make> {
    let then = if depth == 0 {
        Just(vec![]).boxed()
    } else {
        prop_oneof![4 => Just(vec![]).boxed(), 2 => vec(make(depth - 1), 1..3).boxed()].boxed()
    };
    (
        prop_oneof![12 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
        prop_oneof![2 => Just(None), 3 => (0u8..12, prop_oneof![3 => Just(0u8), 4 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8)]).prop_map(Some)],
        then,
    )
        .prop_map(|(code, two, then)| Make { code, two, then })
        .boxed()
}

fn salt(i: u8) -> Binary {
    Binary::from([0xab, i])
}
fn salted(i: u8) -> String {
    format!("contractab{i:02x}")
}

#[derive(Clone)]
struct FModel {
    me: String,
    admin: Option<String>,
    count: usize,
    made: BTreeMap<String, u128>,
}

impl FModel {
    fn make(&mut self, by: &str, m: &Make, funds: u128) -> Result<(), &'static str> {
        if self.admin.is_some() && self.admin.as_deref() != Some(by) {
            return Err("not the admin");
        }
        if let Some((_, 3)) = m.two {
            return Err("expects no address");
        }
        if m.code == 2 {
            return Err("there is no such code");
        }
        let addr = match m.two {
            Some((s, _)) => salted(s),
            None => format!("contract{}", self.count),
        };
        self.count += 1;
        if self.made.insert(addr.clone(), funds).is_some() {
            return Err("the address is taken");
        }
        if m.code == 1 {
            return Err("it fails");
        }
        for t in &m.then {
            self.make(&addr, t, 0)?;
        }
        if let Some((_, 2)) = m.two {
            return Err("another address was expected");
        }
        Ok(())
    }
}

fn make_json(m: &Make, factory: &Addr, code: u64) -> Value {
    let id = if m.code == 2 { 99 } else { code };
    let inner = if m.code == 1 {
        MockMsg::Fail {}
    } else {
        MockMsg::Spawn { msgs: m.then.iter().map(|t| wasm_msg(factory, &make_json(t, factory, code))).collect() }
    };
    let inner = to_json_binary(&inner).unwrap();
    match m.two {
        None => json!({"instantiate_contract_with_self_admin": {"instantiate_msg": inner, "code_id": id, "label": "l"}}),
        Some((s, e)) => json!({"instantiate2_contract_with_self_admin": {
            "instantiate_msg": inner, "code_id": id, "label": "l", "salt": salt(s),
            "expect": match e {
                0 => None,
                1 => Some(salted(s)),
                2 => Some(salted(s + 1)),
                _ => Some("NOBODY".into()),
            },
        }}),
    }
}

impl Scenario for Factory {
    type Case = FCase;
    fn name(&self) -> &'static str {
        "admin-factory"
    }
    fn rule(&self) -> &'static str {
        "at least two contracts were made and a request was refused"
    }
    fn strategy(&self) -> BoxedStrategy<FCase> {
        let op = (0u8..8, make(2), prop_oneof![2 => Just(0u8), 1 => any::<u8>()]).prop_map(|(by, make, funds)| FOp { by, make, funds });
        (prop_oneof![3 => Just(None), 3 => (0u8..5).prop_map(Some), 1 => (6u8..10).prop_map(Some)], vec(op, 1..10))
            .prop_map(|(admin, ops)| FCase { admin, ops })
            .boxed()
    }
    fn run(&self, case: &FCase, cx: &mut Cx) -> R {
        let (mut app, _) = rich_app();
        let mock = app.store_code(code::mock());
        let c = app.store_code(Box::new(
            cw_multi_test::ContractWrapper::new(
                cw_admin_factory::contract::execute,
                cw_admin_factory::contract::instantiate,
                cw_admin_factory::contract::query,
            )
            .with_reply(cw_admin_factory::contract::reply)
            .with_migrate(cw_admin_factory::contract::migrate),
        ));
        let admin = case.admin.map(|a| if a < 6 { name(a) } else { salted(a - 6) });
        let factory = harness(inst(&mut app, c, "deployer", &json!({"admin": admin}), &[], Some("migrator")))?;
        let mut m = FModel { me: factory.to_string(), admin: admin.clone(), count: 3, made: BTreeMap::new() };
        let mut refused = 0;
        for (at, op) in case.ops.iter().enumerate() {
            // the admin more often than not
            let by = match (&admin, op.by) {
                (Some(a), 4..) => a.clone(),
                (_, i) => NAMES[i as usize % 5].to_string(),
            };
            let by_name = NAMES.contains(&by.as_str());
            let funds = if by_name { op.funds as u128 } else { 0 };
            let before = m.clone();
            let want = m.make(&by, &op.make, funds);
            let msg = make_json(&op.make, &factory, mock);
            let sent: Vec<Coin> = if funds > 0 { vec![coin(funds, NATIVES[0])] } else { vec![] };
            let r = exec(&mut app, &by, &factory, &msg, &sent);
            cx.log(|| format!("[{at}] {by} {:?}: {r:?}, expected {want:?}", op.make));
            agree(format!("[{at}] {by} asks for {:?}", op.make), &r, &want, E7)?;
            if let Err(why) = want {
                m = before;
                refused += 1;
                cx.label(why);
            } else if op.make.two.is_some() {
                cx.label("made at a predicted address");
            } else {
                cx.label("made");
            }
            if want.is_ok() && !op.make.then.is_empty() {
                cx.label("made one from another");
            }
            if at == 2 {
                let r = app.migrate_contract(Addr::unchecked("migrator"), factory.clone(), &Empty {}, c);
                agree("migrate", &r.map_err(|e| format!("{e:#}")), &Ok(()), E7)?;
            }
            let a: Value = q(&app, &factory, &json!({"admin": {}}))?;
            ensure_eq!(a, json!({"admin": m.admin}), @E7, "[{at}] who may use the factory");
            for (addr, n) in &m.made {
                let d = app.contract_data(&Addr::unchecked(addr)).map_err(|e| Fail::new(format!("[{at}] {addr}: {e:#}")).tag(E7))?;
                ensure_eq!(d.admin.as_ref().map(|a| a.as_str()), Some(addr.as_str()), @E7, "[{at}] chain admin of {addr}");
                ensure_eq!(d.creator.as_str(), m.me.as_str(), @E7, "[{at}] creator of {addr}");
                ensure_eq!(bank(&app, addr, NATIVES[0]), *n, @E7, "[{at}] funds of {addr}");
            }
            ensure_eq!(bank(&app, &m.me, NATIVES[0]), 0, @E7, "[{at}] left with the factory");
            for s in 0..13 {
                if !m.made.contains_key(&salted(s)) {
                    ensure!(app.contract_data(&Addr::unchecked(salted(s))).is_err(), @E7, "[{at}] {} exists", salted(s));
                }
            }
        }
        cx.nontrivial = m.made.len() >= 2 && refused > 0;
        Ok(())
    }
}
