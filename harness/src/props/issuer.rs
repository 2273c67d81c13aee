//! The token issuer: allowances, freezing, deny list and ownership.

use std::collections::BTreeMap;

use cosmwasm_std::{coin, to_json_binary, Addr, CosmosMsg, Uint128};
use cw_multi_test::Executor;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use super::common::*;
use crate::env::*;
use crate::fw::*;
use crate::{ensure, ensure_eq};

const T: &[&str] = &["E05"];
/// Those who hold tokens and speak; more are only ever listed.
const N: u8 = 6;
/// Addresses, of which the last two are the issuer's and no address at all.
const ALL: u8 = N + 2;
const OTHER: &str = "uother";

/// What a list request names: (start after, page size)
type Page = (Option<u8>, Option<u32>);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Amount {
    Just(u64),
    /// the allowance that is left, and so much more
    Allowance(i8),
    /// the balance of the account concerned, and so much more
    Balance(i8),
    Huge,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum By {
    Owner,
    Anyone(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Mint { by: u8, to: u8, n: Amount },
    Burn { by: u8, from: u8, n: Amount },
    Grant { by: By, minter: bool, to: u8, n: Amount },
    /// many small allowances, or entries of a list (0, 1: allowances, 2: deny, 3: allow)
    Many { what: u8, from: u8, n: u8, on: bool },
    Freeze { by: By, on: bool },
    Deny { by: By, who: u8, on: bool },
    Allow { by: By, who: u8, on: bool },
    /// the hook is set to nothing, the issuer, or another address
    Hook { by: By, to: Option<u8> },
    Force { by: By, from: u8, to: u8, n: Amount },
    Admin { by: By, to: u8 },
    /// the token's admin on the chain, if a person, hands it to somebody
    Handover { to: u8 },
    Metadata { by: By, other: bool, n: u8 },
    Own { by: By, act: OwnAct },
    /// the chain asks before a transfer: of the token or another
    Ask { from: u8, to: u8, other: bool },
    Give { from: u8, n: u8 },
    Advance(u8),
    List { what: u8, page: Page },
    Migrate,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// the issuer takes on a token that exists
    pub existing: bool,
    pub ops: Vec<Op>,
}

pub struct Issuer;

fn amount() -> BoxedStrategy<Amount> {
    prop_oneof![
        1 => Just(Amount::Just(0)),
        6 => (1u64..200).prop_map(Amount::Just),
        4 => prop_oneof![3 => Just(0i8), 1 => Just(1), 1 => Just(-1), 1 => -100i8..100].prop_map(Amount::Allowance),
        2 => prop_oneof![3 => Just(0i8), 1 => Just(1), 1 => Just(-1)].prop_map(Amount::Balance),
        1 => Just(Amount::Huge),
    ]
    .boxed()
}

fn by() -> BoxedStrategy<By> {
    prop_oneof![6 => Just(By::Owner), 1 => (0u8..N).prop_map(By::Anyone)].boxed()
}

fn op() -> BoxedStrategy<Op> {
    let who = || prop_oneof![12 => 0u8..N, 2 => Just(N), 1 => Just(N + 1)].boxed();
    let user = || 0u8..N;
    let holder = || prop_oneof![1 => 0u8..N, 3 => 100u8..110].boxed();
    let on = || prop_oneof![3 => Just(true), 2 => Just(false)];
    prop_oneof![
        10 => (holder(), who(), amount()).prop_map(|(by, to, n)| Op::Mint { by, to, n }),
        8 => (holder(), prop_oneof![1 => Just(N), 3 => 200u8..220, 2 => who()], amount()).prop_map(|(by, from, n)| Op::Burn { by, from, n }),
        10 => (by(), any::<bool>(), who(), amount()).prop_map(|(by, minter, to, n)| Op::Grant { by, minter, to, n }),
        2 => (0u8..4, 0u8..60, prop_oneof![3u8..12, 25u8..40], on()).prop_map(|(what, from, n, on)| Op::Many { what, from, n, on }),
        3 => (by(), on()).prop_map(|(by, on)| Op::Freeze { by, on }),
        5 => (by(), who(), on()).prop_map(|(by, who, on)| Op::Deny { by, who, on }),
        5 => (by(), who(), on()).prop_map(|(by, who, on)| Op::Allow { by, who, on }),
        4 => (by(), prop_oneof![1 => Just(None), 5 => Just(Some(N)), 1 => who().prop_map(Some)]).prop_map(|(by, to)| Op::Hook { by, to }),
        4 => (by(), prop_oneof![1 => user(), 2 => 200u8..220], user(), amount()).prop_map(|(by, from, to, n)| Op::Force { by, from, to, n }),
        1 => (by(), who()).prop_map(|(by, to)| Op::Admin { by, to }),
        3 => prop_oneof![4 => Just(N), 1 => user()].prop_map(|to| Op::Handover { to }),
        2 => (by(), prop_oneof![4 => Just(false), 1 => Just(true)], any::<u8>()).prop_map(|(by, other, n)| Op::Metadata { by, other, n }),
        3 => (by(), own_act()).prop_map(|(by, act)| Op::Own { by, act }),
        12 => (who(), who(), prop_oneof![5 => Just(false), 1 => Just(true)]).prop_map(|(from, to, other)| Op::Ask { from, to, other }),
        1 => (user(), any::<u8>()).prop_map(|(from, n)| Op::Give { from, n }),
        1 => (1u8..20).prop_map(Op::Advance),
        6 => (0u8..4, (option::of(0u8..66), option::of(prop_oneof![4 => 0u32..12, 1 => 25u32..40]))).prop_map(|(what, page)| Op::List { what, page }),
        1 => Just(Op::Migrate),
    ]
    .boxed()
}

struct Model {
    me: String,
    denom: String,
    own: Owned,
    /// minters' and burners' allowances
    grants: [BTreeMap<String, u128>; 2],
    denied: BTreeMap<String, bool>,
    allowed: BTreeMap<String, bool>,
    frozen: bool,
    hook: Option<String>,
    /// the token's admin on the chain, and its hook and metadata there
    admin: String,
    chain_hook: String,
    metadata: Option<Value>,
    bal: BTreeMap<String, u128>,
}

impl Model {
    fn name(&self, i: u8) -> String {
        match i {
            N => self.me.clone(),
            i if i == N + 1 => "NOBODY".into(),
            i => format!("user{i}"),
        }
    }
    /// somebody, or (from 100) somebody who has an allowance
    fn holder(&self, which: usize, i: u8) -> String {
        let h: Vec<_> = self.grants[which].keys().cloned().collect();
        match i {
            100.. if !h.is_empty() => h[(i - 100) as usize % h.len()].clone(),
            i => self.name(i % N),
        }
    }
    /// somebody, or (from 200) somebody who has tokens
    fn rich(&self, i: u8) -> String {
        let h: Vec<_> = self.bal.iter().filter(|x| *x.1 > 0).collect();
        match i {
            200.. if !h.is_empty() => h[(i - 200) as usize % h.len()].0.clone(),
            200.. => self.name(i % N),
            i => self.name(i),
        }
    }
    fn bal(&self, w: &str) -> u128 {
        self.bal.get(w).copied().unwrap_or(0)
    }
    fn features(&self) -> bool {
        self.hook.as_deref() == Some(self.me.as_str())
    }
    fn thawed(&self, from: &str, to: &str) -> bool {
        !self.frozen || self.allowed.contains_key(from) || self.allowed.contains_key(to)
    }
    fn amount(&self, a: &Amount, allowance: u128, balance: u128) -> u128 {
        match a {
            Amount::Just(n) => *n as u128,
            Amount::Allowance(d) => (allowance as i128 + *d as i128).clamp(0, 1 << 60) as u128,
            Amount::Balance(d) => (balance as i128 + *d as i128).max(0) as u128,
            Amount::Huge => u128::MAX,
        }
    }
    fn put(map: &mut BTreeMap<String, bool>, who: String, on: bool) {
        if on {
            map.insert(who, true);
        } else {
            map.remove(&who);
        }
    }
}

const LISTS: [(&str, &str); 4] = [
    ("mint_allowances", "allowances"),
    ("burn_allowances", "allowances"),
    ("denylist", "denylist"),
    ("allowlist", "allowlist"),
];

impl Scenario for Issuer {
    type Case = Case;
    fn name(&self) -> &'static str {
        "token-issuer"
    }
    fn rule(&self) -> &'static str {
        "tokens were minted or burned, the chain's question was answered while the token was frozen or somebody denied, and something was refused"
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let start = vec((0u8..5, 0u8..N, any::<bool>(), 1u64..300), 0..7).prop_map(|l| {
            l.into_iter()
                .map(|(k, w, on, n)| match k {
                    0 | 1 => Op::Grant { by: By::Owner, minter: on, to: w, n: Amount::Just(n) },
                    2 => Op::Hook { by: By::Owner, to: Some(N) },
                    3 => Op::Handover { to: N },
                    _ => Op::Give { from: w, n: n as u8 },
                })
                .collect::<Vec<_>>()
        });
        (prop_oneof![2 => Just(false), 1 => Just(true)], start, vec(op(), 3..40))
            .prop_map(|(existing, mut first, ops)| {
                first.extend(ops);
                Case { existing, ops: first }
            })
            .boxed()
    }

    fn run(&self, case: &Case, cx: &mut Cx) -> R {
        let mut app = new_app();
        let c = app.store_code(Box::new(
            cw_multi_test::ContractWrapper::new(
                cw_tokenfactory_issuer::contract::execute,
                cw_tokenfactory_issuer::contract::instantiate,
                cw_tokenfactory_issuer::contract::query,
            )
            .with_reply(cw_tokenfactory_issuer::contract::reply)
            .with_sudo(cw_tokenfactory_issuer::contract::sudo)
            .with_migrate(cw_tokenfactory_issuer::contract::migrate),
        ));
        let create = |who: &str, sub: &str| -> CosmosMsg {
            osmosis_std::types::osmosis::tokenfactory::v1beta1::MsgCreateDenom { sender: who.into(), subdenom: sub.into() }.into()
        };
        let msg = if case.existing {
            harness(exec_msg(&mut app, "user1", create("user1", "tok")))?;
            json!({"existing_token": {"denom": "factory/user1/tok"}})
        } else {
            json!({"new_token": {"subdenom": "tok"}})
        };
        let issuer = harness(inst(&mut app, c, "user0", &msg, &[], Some("migrator")))?;
        let me = issuer.to_string();
        let mut m = Model {
            denom: if case.existing { "factory/user1/tok".into() } else { format!("factory/{me}/tok") },
            own: Owned::new(Some("user0".into())),
            grants: Default::default(),
            denied: Default::default(),
            allowed: Default::default(),
            frozen: false,
            hook: None,
            admin: if case.existing { "user1".into() } else { me.clone() },
            chain_hook: String::new(),
            metadata: None,
            bal: Default::default(),
            me,
        };
        fund_account(&mut app, "user2", 1000, &m.denom);
        m.bal.insert("user2".into(), 1000);
        let (mut moved, mut asked, mut refused) = (false, false, false);

        for (at, op) in case.ops.iter().enumerate() {
            let b = app.block_info();
            let speaker = |m: &Model, by: &By| match by {
                By::Owner => m.own.owner.clone().unwrap_or("user0".into()),
                By::Anyone(i) => m.name(*i),
            };
            let is_owner = |m: &Model, w: &str| if m.own.is(w) { Ok(()) } else { Err("not the owner") };
            let is_admin = |m: &Model| if m.admin == m.me { Ok(()) } else { Err("the issuer does not administer the token") };
            let sound = |w: &str| if w == "NOBODY" { Err("not an address") } else { Ok(()) };
            let on_hook = |m: &Model| if m.features() { Ok(()) } else { Err("the chain does not ask the issuer") };
            let (who, msg, want): (String, Value, Result<(), &'static str>) = match op {
                Op::Mint { by, to, n } => {
                    let (by, to) = (m.holder(0, *by), m.name(*to));
                    let left = m.grants[0].get(&by).copied().unwrap_or(0);
                    let mut n = m.amount(n, left, m.bal(&to));
                    if n <= left {
                        // no more than a chain can hold
                        n = n.min(1 << 100);
                    }
                    let want = sound(&to)
                        .and(if n == 0 { Err("nothing") } else { Ok(()) })
                        .and(if n > left { Err("more than is allowed") } else { Ok(()) })
                        .and(if m.thawed(&by, &to) { Ok(()) } else { Err("frozen") })
                        .and(is_admin(&m));
                    let msg = json!({"mint": {"to_address": to, "amount": Uint128::new(n)}});
                    if want.is_ok() {
                        if n == left {
                            m.grants[0].remove(&by);
                        } else {
                            m.grants[0].insert(by.clone(), left - n);
                        }
                        *m.bal.entry(to).or_default() += n;
                        cx.label("minted");
                        moved = true;
                    }
                    (by, msg, want)
                }
                Op::Burn { by, from, n } => {
                    let (by, from) = (m.holder(1, *by), m.rich(*from));
                    let left = m.grants[1].get(&by).copied().unwrap_or(0);
                    let n = m.amount(n, left, m.bal(&from));
                    let want = sound(&from)
                        .and(if n == 0 { Err("nothing") } else { Ok(()) })
                        .and(if n > left { Err("more than is allowed") } else { Ok(()) })
                        .and(is_admin(&m))
                        .and(if n > m.bal(&from) { Err("more than there is") } else { Ok(()) });
                    let msg = json!({"burn": {"from_address": from, "amount": Uint128::new(n)}});
                    if want.is_ok() {
                        if n == left {
                            m.grants[1].remove(&by);
                        } else {
                            m.grants[1].insert(by.clone(), left - n);
                        }
                        *m.bal.entry(from).or_default() -= n;
                        cx.label("burned");
                        moved = true;
                    }
                    (by, msg, want)
                }
                Op::Grant { by, minter, to, n } => {
                    let (by, to, i) = (speaker(&m, by), m.name(*to), !*minter as usize);
                    let had = m.grants[i].get(&to).copied().unwrap_or(0);
                    let n = m.amount(n, had, m.bal(&to));
                    let want = is_owner(&m, &by).and(sound(&to));
                    let msg = json!({"address": to, "allowance": Uint128::new(n)});
                    if want.is_ok() {
                        if n == 0 {
                            m.grants[i].remove(&to);
                        } else {
                            m.grants[i].insert(to, n);
                        }
                    }
                    (by, json!({if *minter { "set_minter_allowance" } else { "set_burner_allowance" }: msg}), want)
                }
                Op::Many { what, from, n, on } => {
                    let by = speaker(&m, &By::Owner);
                    if !m.own.is(&by) || (*what > 1 && !m.features()) {
                        continue;
                    }
                    for i in *from..*from + *n {
                        let w = format!("user{i}");
                        let msg = match what {
                            0 | 1 => {
                                let x = if *on { i as u128 + 1 } else { 0 };
                                if *on {
                                    m.grants[*what as usize].insert(w.clone(), x);
                                } else {
                                    m.grants[*what as usize].remove(&w);
                                }
                                json!({if *what == 0 { "set_minter_allowance" } else { "set_burner_allowance" }: {"address": w, "allowance": Uint128::new(x)}})
                            }
                            2 => {
                                Model::put(&mut m.denied, w.clone(), *on);
                                json!({"deny": {"address": w, "status": on}})
                            }
                            _ => {
                                Model::put(&mut m.allowed, w.clone(), *on);
                                json!({"allow": {"address": w, "status": on}})
                            }
                        };
                        let r = exec(&mut app, &by, &issuer, &msg, &[]);
                        agree(format!("[{at}] {by}: {msg}"), &r, &Ok(()), T)?;
                    }
                    cx.label("many");
                    continue;
                }
                Op::Freeze { by, on } => {
                    let by = speaker(&m, by);
                    let want = on_hook(&m).and(is_owner(&m, &by));
                    if want.is_ok() {
                        m.frozen = *on;
                        let me = m.me.clone();
                        Model::put(&mut m.allowed, me, *on);
                        cx.label(if *on { "frozen" } else { "thawed" });
                    }
                    (by, json!({"freeze": {"status": on}}), want)
                }
                Op::Deny { by, who, on } => {
                    let (by, who) = (speaker(&m, by), m.name(*who));
                    let want = on_hook(&m)
                        .and(is_owner(&m, &by))
                        .and(sound(&who))
                        .and(if who == m.me { Err("denies itself") } else { Ok(()) });
                    if want.is_ok() {
                        Model::put(&mut m.denied, who.clone(), *on);
                    }
                    (by, json!({"deny": {"address": who, "status": on}}), want)
                }
                Op::Allow { by, who, on } => {
                    let (by, who) = (speaker(&m, by), m.name(*who));
                    let want = on_hook(&m).and(is_owner(&m, &by)).and(sound(&who));
                    if want.is_ok() {
                        Model::put(&mut m.allowed, who.clone(), *on);
                    }
                    (by, json!({"allow": {"address": who, "status": on}}), want)
                }
                Op::Hook { by, to } => {
                    let by = speaker(&m, by);
                    let to = to.map(|t| m.name(t)).unwrap_or_default();
                    let want = is_owner(&m, &by).and(sound(&to)).and(is_admin(&m));
                    if want.is_ok() {
                        m.hook = if to.is_empty() { None } else { Some(to.clone()) };
                        m.chain_hook = to.clone();
                        cx.label(if m.features() { "hook set" } else { "hook elsewhere" });
                    }
                    (by, json!({"set_before_send_hook": {"cosmwasm_address": to}}), want)
                }
                Op::Force { by, from, to, n } => {
                    let (by, from, to) = (speaker(&m, by), m.rich(*from), m.name(*to));
                    let n = m.amount(n, m.bal(&from), m.bal(&from));
                    let want = is_owner(&m, &by)
                        .and(is_admin(&m))
                        .and(if n == 0 { Err("nothing") } else { Ok(()) })
                        .and(if n > m.bal(&from) { Err("more than there is") } else { Ok(()) });
                    let msg = json!({"force_transfer": {"from_address": from, "to_address": to, "amount": Uint128::new(n)}});
                    if want.is_ok() {
                        *m.bal.entry(from).or_default() -= n;
                        *m.bal.entry(to).or_default() += n;
                        cx.label("forced");
                    }
                    (by, msg, want)
                }
                Op::Admin { by, to } => {
                    let (by, to) = (speaker(&m, by), m.name(*to));
                    let want = is_owner(&m, &by).and(sound(&to)).and(is_admin(&m));
                    let msg = json!({"update_token_factory_admin": {"new_admin": to}});
                    if want.is_ok() {
                        m.admin = to;
                        cx.label("administration passed on");
                    }
                    (by, msg, want)
                }
                Op::Handover { to } => {
                    if m.admin != m.me {
                        let to = m.name(*to);
                        let msg: CosmosMsg = osmosis_std::types::osmosis::tokenfactory::v1beta1::MsgChangeAdmin {
                            sender: m.admin.clone(),
                            denom: m.denom.clone(),
                            new_admin: to.clone(),
                        }
                        .into();
                        harness(exec_msg(&mut app, &m.admin, msg))?;
                        m.admin = to;
                    }
                    continue;
                }
                Op::Metadata { by, other, n } => {
                    let by = speaker(&m, by);
                    let base = if *other { OTHER.to_string() } else { m.denom.clone() };
                    let md = json!({
                        "description": format!("d{n}"), "base": base, "display": format!("x{n}"), "name": format!("n{n}"), "symbol": format!("S{n}"),
                        "denom_units": [{"denom": base, "exponent": "0", "aliases": []}, {"denom": format!("x{n}"), "exponent": (n % 20).to_string(), "aliases": [format!("a{n}")]}],
                    });
                    let want = is_owner(&m, &by).and(is_admin(&m)).and(if *other { Err("not the issuer's token") } else { Ok(()) });
                    let msg = json!({"set_denom_metadata": {"metadata": md}});
                    if want.is_ok() {
                        m.metadata = Some(md);
                        cx.label("metadata");
                    }
                    (by, msg, want)
                }
                Op::Own { by, act } => {
                    let by = match (by, act, &m.own.pending) {
                        // who it is passed to, more often than not
                        (By::Owner, OwnAct::Accept, Some((p, _))) => p.clone(),
                        _ => speaker(&m, by),
                    };
                    let names = |i: u8| if i == 5 { "NOBODY".to_string() } else { format!("user{i}") };
                    let msg = json!({"update_ownership": act.json(names, &b)});
                    let want = m.own.act(&by, act, names, &b);
                    if want.is_ok() {
                        cx.label("ownership changed");
                    }
                    (by, msg, want)
                }
                Op::Ask { from, to, other } => {
                    let (from, to) = (m.name(*from), m.name(*to));
                    let denom = if *other { OTHER } else { &m.denom };
                    let msg = json!({"block_before_send": {"from": from, "to": to, "amount": coin(5, denom)}});
                    let r = sudo(&mut app, &issuer, &msg);
                    let want = if !*other && !m.thawed(&from, &to) {
                        Err("frozen")
                    } else if m.denied.contains_key(&from) || m.denied.contains_key(&to) {
                        Err("denied")
                    } else {
                        sound(&from).and(sound(&to))
                    };
                    cx.log(|| format!("[{at}] the chain asks {msg}: {r:?}, expected {want:?}"));
                    if *other && want == Err("denied") {
                        // only transfers of its token are the issuer's business
                        cx.label("asked about another token");
                        continue;
                    }
                    agree(format!("[{at}] the chain asks {msg}"), &r, &want, T)?;
                    if m.frozen || !m.denied.is_empty() {
                        asked = true;
                        cx.label(match want {
                            Ok(()) => "let through",
                            Err(e) => e,
                        });
                    }
                    continue;
                }
                Op::Give { from, n } => {
                    let (from, n) = (m.name(*from), *n as u128);
                    if n > 0 && m.bal(&from) >= n {
                        harness(app.send_tokens(Addr::unchecked(&from), issuer.clone(), &[coin(n, &m.denom)]).map_err(|e| e.to_string()))?;
                        *m.bal.entry(from).or_default() -= n;
                        *m.bal.entry(m.me.clone()).or_default() += n;
                    }
                    continue;
                }
                Op::Advance(n) => {
                    advance(&mut app, *n as u64, 5 * *n as u64);
                    continue;
                }
                Op::List { what, page } => {
                    let (query, field) = LISTS[*what as usize];
                    let after = page.0.map(|i| format!("user{i}"));
                    let got: Value = q(&app, &issuer, &json!({query: {"start_after": after, "limit": page.1}}))?;
                    let rows: Vec<Value> = match what {
                        0 | 1 => m.grants[*what as usize]
                            .iter()
                            .map(|(a, n)| (a, json!({"address": a, "allowance": Uint128::new(*n)})))
                            .collect::<Vec<_>>(),
                        2 => m.denied.keys().map(|a| (a, json!({"address": a, "status": true}))).collect(),
                        _ => m.allowed.keys().map(|a| (a, json!({"address": a, "status": true}))).collect(),
                    }
                    .into_iter()
                    .filter(|(a, _)| after.as_ref().map_or(true, |s| *a > s))
                    .map(|x| x.1)
                    .take(page.1.unwrap_or(10).min(30) as usize)
                    .collect();
                    if rows.len() >= 5 {
                        cx.label("long page");
                    }
                    ensure_eq!(got[field], json!(rows), @T, "[{at}] page {page:?} of {query}");
                    continue;
                }
                Op::Migrate => {
                    let r = app.migrate_contract(Addr::unchecked("migrator"), issuer.clone(), &json!({}), c);
                    agree(format!("[{at}] migrate"), &r.map_err(|e| format!("{e:#}")), &Ok(()), T)?;
                    continue;
                }
            };
            let r = exec(&mut app, &who, &issuer, &msg, &[]);
            cx.log(|| format!("[{at}] {who} {msg}: {r:?}, expected {want:?}"));
            agree(format!("[{at}] {who}: {msg}"), &r, &want, T)?;
            if want.is_err() {
                refused = true;
            }
            self.look(&app, &issuer, &m, at)?;
        }
        cx.nontrivial = moved && asked && refused;
        let _ = to_json_binary(&());
        Ok(())
    }
}

impl Issuer {
    fn look(&self, app: &VApp, issuer: &Addr, m: &Model, at: usize) -> R {
        let ask = |v: Value| -> R<Value> { q(app, issuer, &v) };
        for i in 0..ALL - 1 {
            let w = m.name(i);
            ensure_eq!(bank(app, &w, &m.denom), m.bal(&w), @T, "[{at}] tokens of {w}");
            for (k, f) in ["mint_allowance", "burn_allowance"].iter().enumerate() {
                let want = Uint128::new(m.grants[k].get(&w).copied().unwrap_or(0));
                ensure_eq!(ask(json!({*f: {"address": w}}))?, json!({"allowance": want}), @T, "[{at}] {f} of {w}");
            }
            ensure_eq!(ask(json!({"is_denied": {"address": w}}))?, json!({"status": m.denied.contains_key(&w)}), @T, "[{at}] is {w} denied");
            ensure_eq!(ask(json!({"is_allowed": {"address": w}}))?, json!({"status": m.allowed.contains_key(&w)}), @T, "[{at}] is {w} allowed");
        }
        ensure_eq!(ask(json!({"is_frozen": {}}))?, json!({"is_frozen": m.frozen}), @T, "[{at}] is the token frozen");
        ensure_eq!(ask(json!({"denom": {}}))?, json!({"denom": m.denom}), @T, "[{at}] the token");
        ensure_eq!(ask(json!({"ownership": {}}))?, m.own.json(), @T, "[{at}] the owner");
        ensure_eq!(
            ask(json!({"before_send_hook_info": {}}))?,
            json!({"advanced_features_enabled": m.features(), "hook_contract_address": m.hook}),
            @T, "[{at}] the hook"
        );
        let d = tf_denom(app, &m.denom).ok_or_else(|| Fail::new(format!("[{at}] no such token")).tag(T))?;
        ensure_eq!(d.admin, m.admin, @T, "[{at}] the token's admin");
        ensure_eq!(d.hook, m.chain_hook, @T, "[{at}] whom the chain asks");
        let md = d.metadata.map(|x| {
            json!({
                "description": x.description, "base": x.base, "display": x.display, "name": x.name, "symbol": x.symbol,
                "denom_units": x.denom_units.iter().map(|u| json!({"denom": u.denom, "exponent": u.exponent.to_string(), "aliases": u.aliases})).collect::<Vec<_>>(),
            })
        });
        ensure_eq!(md, m.metadata, @T, "[{at}] metadata");
        Ok(())
    }
}
