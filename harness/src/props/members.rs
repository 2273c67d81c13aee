//! Membership: groups of members and collections of role NFTs, and the voting modules on them.

use std::collections::{BTreeMap, BTreeSet};

use cosmwasm_std::{Addr, Binary, Uint128};
use cw_multi_test::Executor;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use super::common::*;
use crate::env::*;
use crate::fw::*;
use crate::{ensure, ensure_eq};

const V5: &[&str] = &["V05"];
const E6: &[&str] = &["E06"];
const VE: &[&str] = &["V05", "E06"];
const N: u8 = 6;
const DAO: &str = "dao";

/// The last is no address.
fn name(i: u8) -> String {
    if i >= N {
        "NOBODY".into()
    } else {
        // some names start alike
        ["ann", "anna", "ann1", "bob", "b0b", "zed"][i as usize].into()
    }
}

fn weight() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => Just(0u64),
        12 => 1u64..10,
        2 => any::<u32>().prop_map(|x| x as u64),
        1 => prop_oneof![Just(u64::MAX), Just(u64::MAX / 2), Just(u64::MAX - 3), Just(u64::MAX / 2 + 1)],
    ]
    .boxed()
}
fn who() -> BoxedStrategy<u8> {
    prop_oneof![40 => 0u8..N, 1 => Just(N)].boxed()
}

/// Weights by member and in total as they were at the end of each block.
#[derive(Clone, Default)]
struct Weights {
    now: BTreeMap<String, u64>,
    ends: BTreeMap<u64, BTreeMap<String, u64>>,
}
impl Weights {
    fn settle(&mut self, h: u64) {
        self.ends.insert(h, self.now.clone());
    }
    fn at(&self, h: Option<u64>) -> BTreeMap<String, u64> {
        match h {
            None => self.now.clone(),
            Some(h) => self.ends.range(..h).next_back().map(|x| x.1.clone()).unwrap_or_default(),
        }
    }
    fn sum(m: &BTreeMap<String, u64>) -> u128 {
        m.values().map(|x| *x as u128).sum()
    }
    /// Heights worth asking about.
    fn heights(&self, now: u64, all: bool) -> Vec<Option<u64>> {
        if !all {
            return vec![Some(now), Some(now + 1), None];
        }
        let mut h: BTreeSet<u64> = self.ends.keys().rev().take(4).flat_map(|h| [*h, h + 1]).collect();
        h.extend(self.ends.keys().take(2).flat_map(|h| [h - 1, *h, h + 1]));
        h.extend([now, now + 1]);
        h.into_iter().map(Some).chain([None]).collect()
    }
    fn check_module(&self, app: &VApp, module: &Addr, at: &str, all: bool, tags: &'static [&'static str]) -> R {
        let now = app.block_info().height;
        for h in self.heights(now, all) {
            let w = self.at(h);
            let answered = h.unwrap_or(now);
            for i in 0..=N {
                let who = if i == N { DAO.into() } else { name(i) };
                let got: Value = q(app, module, &json!({"voting_power_at_height": {"address": who, "height": h}}))?;
                let want = json!({"power": Uint128::new(w.get(&who).copied().unwrap_or(0) as u128), "height": answered});
                ensure_eq!(got, want, @tags, "{at} power of {who} at {h:?}");
            }
            let got: Value = q(app, module, &json!({"total_power_at_height": {"height": h}}))?;
            ensure_eq!(got, json!({"power": Uint128::new(Self::sum(&w)), "height": answered}), @tags, "{at} total power at {h:?}");
        }
        let dao: String = q(app, module, &json!({"dao": {}}))?;
        ensure_eq!(dao, DAO, @tags, "{at} whose module this is");
        Ok(())
    }
}

// ================================================================== groups

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum GSetup {
    New(Vec<(u8, u64)>),
    Existing(Vec<(u8, u64)>),
    /// 0: an account, 1: another contract, 2: no address
    Wrong(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum GOp {
    Update { admin: bool, by: u8, add: Vec<(u8, u64)>, remove: Vec<u8> },
    Admin { by: u8, to: Option<u8> },
    Advance(u8),
    Migrate,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GCase {
    pub setup: GSetup,
    pub ops: Vec<GOp>,
}

pub struct Group;

impl Scenario for Group {
    type Case = GCase;
    fn name(&self) -> &'static str {
        "group-voting"
    }
    fn rule(&self) -> &'static str {
        "weights changed in two blocks or more after the module was made"
    }
    fn strategy(&self) -> BoxedStrategy<GCase> {
        let list = || vec((who(), weight()), 0..6);
        // mostly without duplicates
        let tidy = list().prop_map(|l| l.into_iter().collect::<BTreeMap<_, _>>().into_iter().collect::<Vec<_>>()).prop_shuffle();
        let setup = prop_oneof![
            4 => tidy.clone().prop_map(GSetup::New),
            2 => list().prop_map(GSetup::New),
            4 => tidy.prop_map(GSetup::Existing),
            1 => (0u8..3).prop_map(GSetup::Wrong),
        ];
        let op = prop_oneof![
            8 => (prop_oneof![8 => Just(true), 1 => Just(false)], 0u8..N, vec((who(), weight()), 0..4), vec(who(), 0..3))
                .prop_map(|(admin, by, add, remove)| GOp::Update { admin, by, add, remove }),
            1 => (0u8..N, option::of(0u8..N)).prop_map(|(by, to)| GOp::Admin { by, to }),
            5 => (1u8..4).prop_map(GOp::Advance),
            1 => Just(GOp::Migrate),
        ];
        (setup, vec(op, 1..20)).prop_map(|(setup, ops)| GCase { setup, ops }).boxed()
    }
    fn run(&self, case: &GCase, cx: &mut Cx) -> R {
        let mut app = new_app();
        let gc = app.store_code(code::cw4_group());
        let vc = app.store_code(Box::new(
            cw_multi_test::ContractWrapper::new(dao_voting_cw4::contract::execute, dao_voting_cw4::contract::instantiate, dao_voting_cw4::contract::query)
                .with_reply(dao_voting_cw4::contract::reply)
                .with_migrate(dao_voting_cw4::contract::migrate),
        ));
        let h0 = app.block_info().height;
        let members = |l: &[(u8, u64)]| l.iter().map(|(w, n)| json!({"addr": name(*w), "weight": n})).collect::<Vec<_>>();
        let distinct = |l: &[(u8, u64)]| l.iter().map(|x| x.0).collect::<BTreeSet<_>>().len() == l.len();
        let sum = |l: &[(u8, u64)]| l.iter().map(|x| x.1 as u128).sum::<u128>();
        let mut w = Weights::default();
        let mut admin = Some(DAO.to_string());
        let (msg, want) = match &case.setup {
            GSetup::New(l) => {
                let want = if l.is_empty() {
                    Err("no members")
                } else if !distinct(l) {
                    Err("a member twice")
                } else if l.iter().any(|x| x.0 >= N) {
                    Err("not an address")
                } else if sum(l) == 0 {
                    Err("no weight")
                } else if sum(l) > u64::MAX as u128 {
                    Err("too much weight")
                } else {
                    Ok(())
                };
                w.now = l.iter().map(|(a, n)| (name(*a), *n)).collect();
                w.settle(h0);
                (json!({"new": {"cw4_group_code_id": gc, "initial_members": members(l)}}), want)
            }
            GSetup::Existing(l) => {
                let l: Vec<_> = l.iter().filter(|x| x.0 < N).map(|x| (x.0, x.1.min(1 << 40))).collect();
                admin = Some(name(0));
                let g = harness(inst(&mut app, gc, "x", &json!({"admin": admin, "members": members(&l)}), &[], None))?;
                w.now = l.iter().map(|(a, n)| (name(*a), *n)).collect();
                w.settle(h0);
                advance(&mut app, 1, 5);
                (json!({"existing": {"address": g}}), if l.is_empty() { Err("no members") } else { Ok(()) })
            }
            GSetup::Wrong(i) => {
                let a = match i {
                    0 => name(0),
                    1 => new_mock(&mut app).to_string(),
                    _ => name(N),
                };
                (json!({"existing": {"address": a}}), Err("no group"))
            }
        };
        let msg = json!({"group_contract": msg});
        let r = inst(&mut app, vc, DAO, &msg, &[], Some("migrator"));
        agree(format!("a voting module {msg}"), &r, &want, V5)?;
        if let Err(why) = want {
            cx.label(why);
            return Ok(());
        }
        let module = r.unwrap();
        let group: Addr = q(&app, &module, &json!({"group_contract": {}}))?;
        if let Some(a) = msg["group_contract"]["existing"]["address"].as_str() {
            ensure_eq!(group, a, @V5, "the module's group");
        } else {
            let d = app.contract_data(&group).map_err(|e| Fail::new(e.to_string()).tag(V5))?;
            ensure_eq!(d.admin.as_ref().map(|x| x.as_str()), Some(DAO), @V5, "chain admin of the new group");
            let a: Value = q(&app, &group, &json!({"admin": {}}))?;
            ensure_eq!(a, json!({"admin": DAO}), @V5, "admin of the new group");
            let got: Value = q(&app, &group, &json!({"list_members": {"limit": 30}}))?;
            let want: Vec<_> = w.now.iter().map(|(a, n)| json!({"addr": a, "weight": n})).collect();
            ensure_eq!(got["members"], json!(want), @V5, "members of the new group");
        }
        w.check_module(&app, &module, "[new]", true, V5)?;
        let mut changed = BTreeSet::new();
        for (at, op) in case.ops.iter().enumerate() {
            match op {
                GOp::Update { admin: as_admin, by, add, remove } => {
                    let by = if *as_admin { admin.clone().unwrap_or(DAO.into()) } else { name(*by) };
                    let mut next = w.now.clone();
                    for (a, n) in add {
                        next.insert(name(*a), *n);
                    }
                    for a in remove {
                        next.remove(&name(*a));
                    }
                    let msg = json!({"update_members": {"add": members(add), "remove": remove.iter().map(|a| name(*a)).collect::<Vec<_>>()}});
                    let r = exec(&mut app, &by, &group, &msg, &[]);
                    cx.log(|| format!("[{at}] {by} {msg}: {r:?}"));
                    // the group is not under test: whether it takes the update is its own business, what the module makes of it is ours
                    if r.is_ok() {
                        if next != w.now {
                            changed.insert(app.block_info().height);
                        }
                        w.now = next;
                        w.settle(app.block_info().height);
                        cx.label("updated");
                    }
                }
                GOp::Admin { by, to } => {
                    let by = if *by == 0 { admin.clone().unwrap_or(DAO.into()) } else { name(*by) };
                    let to = to.map(name);
                    if exec(&mut app, &by, &group, &json!({"update_admin": {"admin": to}}), &[]).is_ok() {
                        admin = to;
                    }
                }
                GOp::Advance(n) => advance(&mut app, *n as u64, 5),
                GOp::Migrate => {
                    let r = app.migrate_contract(Addr::unchecked("migrator"), module.clone(), &json!({}), vc);
                    agree(format!("[{at}] migrate"), &r.map_err(|e| format!("{e:#}")), &Ok(()), V5)?;
                }
            }
            w.check_module(&app, &module, &format!("[{at}]"), at % 8 == 7, V5)?;
        }
        w.check_module(&app, &module, "[end]", true, V5)?;
        let g: Addr = q(&app, &module, &json!({"group_contract": {}}))?;
        ensure_eq!(g, group, @V5, "the module's group at the end");
        cx.nontrivial = changed.len() >= 2;
        Ok(())
    }
}

// ================================================================== roles

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Role {
    pub id: u8,
    pub owner: u8,
    pub weight: u64,
    pub uri: Option<u8>,
    pub role: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Mint(Role),
    Burn(u8),
    Weigh(u8, u64),
    Role(u8, Option<u8>),
    Uri(u8, Option<u8>),
    Transfer(u8, u8),
    /// to a contract (0, 1: the subscribers) or (2) an account
    Send(u8, u8),
    /// subscribers: 0, 1: contracts, 2: an account
    AddHook(u8),
    RemoveHook(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ROp {
    Do { by: Option<u8>, act: Act },
    /// what only the base collection knows
    Base { by: u8, id: u8, kind: u8 },
    Own { by: Option<u8>, act: OwnAct },
    SetFail { hook: u8, on: bool },
    Advance(u8),
    Page { members: bool, after: Option<u8>, limit: Option<u32> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RCase {
    /// a collection made by the voting module with these roles
    pub new: Option<Vec<Role>>,
    pub ops: Vec<ROp>,
}

pub struct Roles;

const IDS: u8 = 10;
fn id(i: u8) -> String {
    ["a", "ab", "b", "b1", "c", "1", "10", "2", "x y", "é"][(i % IDS) as usize].into()
}
fn some(p: &str, i: &Option<u8>) -> Option<String> {
    i.map(|i| format!("{p}{i}"))
}

fn role() -> BoxedStrategy<Role> {
    (0u8..IDS, who(), weight(), option::of(0u8..4), option::of(0u8..4))
        .prop_map(|(id, owner, weight, uri, role)| Role { id, owner, weight, uri, role })
        .boxed()
}

#[derive(Clone)]
struct Nft {
    owner: String,
    weight: u64,
    uri: Option<String>,
    role: Option<String>,
}

struct RModel {
    own: Owned,
    nfts: BTreeMap<String, Nft>,
    w: Weights,
    hooks: Vec<String>,
    failing: [bool; 2],
    /// what each subscribing contract was told
    told: [Vec<Value>; 2],
    names: [String; 3],
}

impl RModel {
    fn total(&self) -> u128 {
        Weights::sum(&self.w.now)
    }
    fn member(&self, who: &str) -> Option<u64> {
        self.w.now.get(who).copied()
    }
    /// Apply an act of the minter, or say why it cannot be. Diffs told to subscribers are collected.
    fn act(&mut self, me: &str, a: &Act) -> Result<(), &'static str> {
        let nft = |m: &Self, i: &u8| m.nfts.get(&id(*i)).cloned().ok_or("no such token");
        let mut diffs = vec![];
        let diff = |k: &str, old: Option<u64>, new: Option<u64>| json!({"key": k, "old": old, "new": new});
        let mut last: Option<(usize, Value)> = None;
        match a {
            Act::Mint(r) => {
                let owner = name(r.owner);
                if r.owner >= N {
                    return Err("not an address");
                }
                if self.nfts.contains_key(&id(r.id)) {
                    return Err("minted already");
                }
                if self.total() + r.weight as u128 > u64::MAX as u128 {
                    return Err("too much weight");
                }
                let old = self.member(&owner);
                let new = old.unwrap_or(0) + r.weight;
                self.w.now.insert(owner.clone(), new);
                diffs.push(diff(&owner, old, Some(new)));
                self.nfts.insert(id(r.id), Nft { owner, weight: r.weight, uri: some("ipfs", &r.uri), role: some("role", &r.role) });
            }
            Act::Burn(i) => {
                let t = nft(self, i)?;
                let old = self.member(&t.owner);
                let new = Some(old.unwrap_or(0) - t.weight).filter(|n| *n > 0);
                match new {
                    Some(n) => self.w.now.insert(t.owner.clone(), n),
                    None => self.w.now.remove(&t.owner),
                };
                diffs.push(diff(&t.owner, old, new));
                self.nfts.remove(&id(*i));
            }
            Act::Weigh(i, n) => {
                let t = nft(self, i)?;
                if t.weight == *n {
                    return Err("no change");
                }
                if self.total() - t.weight as u128 + *n as u128 > u64::MAX as u128 {
                    return Err("too much weight");
                }
                let old = self.member(&t.owner);
                let new = (old.unwrap_or(0) as u128 - t.weight as u128 + *n as u128) as u64;
                self.w.now.insert(t.owner.clone(), new);
                diffs.push(diff(&t.owner, old, Some(new)));
                self.nfts.get_mut(&id(*i)).unwrap().weight = *n;
            }
            Act::Role(i, r) => {
                nft(self, i)?;
                self.nfts.get_mut(&id(*i)).unwrap().role = some("role", r);
            }
            Act::Uri(i, u) => {
                nft(self, i)?;
                self.nfts.get_mut(&id(*i)).unwrap().uri = some("ipfs", u);
            }
            Act::Transfer(i, _) | Act::Send(i, _) => {
                let t = nft(self, i)?;
                let to = match a {
                    Act::Transfer(_, N..) => return Err("not an address"),
                    Act::Transfer(_, to) => name(*to),
                    Act::Send(_, 2..) => return Err("not a contract"),
                    Act::Send(_, c) => {
                        let got = json!({"receive_nft": {"sender": me, "token_id": id(*i), "msg": Binary::from(b"hi")}});
                        last = Some((*c as usize, got));
                        self.names[*c as usize].clone()
                    }
                    _ => unreachable!(),
                };
                if to != t.owner {
                    let old = self.member(&t.owner);
                    let new = Some(old.unwrap_or(0) - t.weight).filter(|n| *n > 0);
                    match new {
                        Some(n) => self.w.now.insert(t.owner.clone(), n),
                        None => self.w.now.remove(&t.owner),
                    };
                    diffs.push(diff(&t.owner, old, new));
                    let old = self.member(&to);
                    let new = old.unwrap_or(0) + t.weight;
                    self.w.now.insert(to.clone(), new);
                    diffs.push(diff(&to, old, Some(new)));
                }
                self.nfts.get_mut(&id(*i)).unwrap().owner = to;
            }
            Act::AddHook(h) => {
                let h = self.names[*h as usize].clone();
                if self.hooks.contains(&h) {
                    return Err("subscribed already");
                }
                self.hooks.push(h);
            }
            Act::RemoveHook(h) => {
                let h = self.names[*h as usize].clone();
                if !self.hooks.contains(&h) {
                    return Err("not subscribed");
                }
                self.hooks.retain(|x| *x != h);
            }
        }
        if !diffs.is_empty() {
            for h in self.hooks.clone() {
                match self.names.iter().position(|x| *x == h) {
                    Some(i) if i < 2 && !self.failing[i] => {
                        self.told[i].push(json!({"member_changed_hook": {"diffs": diffs}}))
                    }
                    _ => return Err("a subscriber fails"),
                }
            }
        }
        if let Some((i, v)) = last {
            if self.failing[i] {
                return Err("the recipient fails");
            }
            self.told[i].push(v);
        }
        Ok(())
    }
}

fn act_json(m: &RModel, a: &Act) -> Value {
    let ext = |v: Value| json!({"extension": {"msg": v}});
    match a {
        Act::Mint(r) => json!({"mint": {
            "token_id": id(r.id), "owner": name(r.owner), "token_uri": some("ipfs", &r.uri),
            "extension": {"role": some("role", &r.role), "weight": r.weight},
        }}),
        Act::Burn(i) => json!({"burn": {"token_id": id(*i)}}),
        Act::Weigh(i, n) => ext(json!({"update_token_weight": {"token_id": id(*i), "weight": n}})),
        Act::Role(i, r) => ext(json!({"update_token_role": {"token_id": id(*i), "role": some("role", r)}})),
        Act::Uri(i, u) => ext(json!({"update_token_uri": {"token_id": id(*i), "token_uri": some("ipfs", u)}})),
        Act::Transfer(i, to) => json!({"transfer_nft": {"token_id": id(*i), "recipient": name(*to)}}),
        Act::Send(i, to) => json!({"send_nft": {"token_id": id(*i), "contract": m.names[*to as usize], "msg": Binary::from(b"hi")}}),
        Act::AddHook(h) => ext(json!({"add_hook": {"addr": m.names[*h as usize]}})),
        Act::RemoveHook(h) => ext(json!({"remove_hook": {"addr": m.names[*h as usize]}})),
    }
}

impl Scenario for Roles {
    type Case = RCase;
    fn name(&self) -> &'static str {
        "role-nfts"
    }
    fn rule(&self) -> &'static str {
        "weights changed in two blocks or more, a subscriber was told, and something was refused"
    }
    fn strategy(&self) -> BoxedStrategy<RCase> {
        // an id that is likely to be there
        let i = || prop_oneof![3 => 0u8..4, 1 => 0u8..IDS];
        let act = prop_oneof![
            10 => (i(), role()).prop_map(|(id, r)| Act::Mint(Role { id, ..r })),
            5 => i().prop_map(Act::Burn),
            7 => (i(), weight()).prop_map(|(i, n)| Act::Weigh(i, n)),
            1 => (i(), option::of(0u8..4)).prop_map(|(i, r)| Act::Role(i, r)),
            1 => (i(), option::of(0u8..4)).prop_map(|(i, r)| Act::Uri(i, r)),
            4 => (i(), who()).prop_map(|(i, w)| Act::Transfer(i, w)),
            2 => (i(), prop_oneof![4 => 0u8..2, 1 => Just(2u8)]).prop_map(|(i, w)| Act::Send(i, w)),
            4 => prop_oneof![9 => 0u8..2, 1 => Just(2u8)].prop_map(Act::AddHook),
            2 => (0u8..3).prop_map(Act::RemoveHook),
        ];
        let op = prop_oneof![
            24 => (option::weighted(0.07, 0u8..N), act).prop_map(|(by, act)| ROp::Do { by, act }),
            1 => (0u8..N, i(), 0u8..4).prop_map(|(by, id, kind)| ROp::Base { by, id, kind }),
            2 => (option::of(0u8..N), own_act()).prop_map(|(by, act)| ROp::Own { by, act }),
            1 => (0u8..2, any::<bool>()).prop_map(|(hook, on)| ROp::SetFail { hook, on }),
            8 => (1u8..4).prop_map(ROp::Advance),
            2 => (any::<bool>(), option::of(0u8..12), option::of(prop_oneof![4 => 0u32..6, 1 => 25u32..40])).prop_map(|(members, after, limit)| ROp::Page { members, after, limit }),
        ];
        let tidy = vec(role(), 0..6).prop_map(|l| l.into_iter().map(|r| (r.id, r)).collect::<BTreeMap<_, _>>().into_values().collect::<Vec<_>>());
        let new = prop_oneof![3 => Just(None), 2 => tidy.prop_map(Some), 1 => vec(role(), 0..4).prop_map(Some)];
        (new, vec(op, 1..30)).prop_map(|(new, ops)| RCase { new, ops }).boxed()
    }
    fn run(&self, case: &RCase, cx: &mut Cx) -> R {
        let mut app = new_app();
        let rc = app.store_code(code::cw721_roles());
        let vc = app.store_code(code::voting_cw721_roles());
        let mocks = [new_mock(&mut app), new_mock(&mut app)];
        let mut m = RModel {
            own: Owned::new(Some(DAO.into())),
            nfts: Default::default(),
            w: Default::default(),
            hooks: vec![],
            failing: [false; 2],
            told: Default::default(),
            names: [mocks[0].to_string(), mocks[1].to_string(), name(0)],
        };
        m.w.settle(app.block_info().height);
        let (msg, mut want) = match &case.new {
            None => {
                let c = harness(inst(&mut app, rc, "x", &json!({"name": "Roles", "symbol": "R", "minter": DAO}), &[], None))?;
                (json!({"existing": {"address": c}}), Ok(()))
            }
            Some(l) => {
                let l: Vec<_> = l
                    .iter()
                    .map(|r| json!({"token_id": id(r.id), "owner": name(r.owner), "token_uri": some("ipfs", &r.uri), "extension": {"role": some("role", &r.role), "weight": r.weight}}))
                    .collect();
                let want = if l.is_empty() { Err("no roles") } else { Ok(()) };
                (json!({"new": {"code_id": rc, "label": "l", "name": "Roles", "symbol": "R", "initial_nfts": l}}), want)
            }
        };
        for r in case.new.iter().flatten() {
            if want.is_ok() {
                want = m.act(DAO, &Act::Mint(r.clone()));
            }
        }
        m.w.settle(app.block_info().height);
        let msg = json!({"nft_contract": msg});
        let r = inst(&mut app, vc, DAO, &msg, &[], None);
        agree(format!("a voting module {msg}"), &r, &want, V5)?;
        if let Err(why) = want {
            cx.label(why);
            return Ok(());
        }
        let module = r.unwrap();
        let cfg: Value = q(&app, &module, &json!({"config": {}}))?;
        let roles = Addr::unchecked(cfg["nft_address"].as_str().unwrap_or_default());
        if case.new.is_some() {
            m.own = Owned { owner: Some(module.to_string()), pending: Some((DAO.into(), None)) };
            let d = app.contract_data(&roles).map_err(|e| Fail::new(e.to_string()).tag(V5))?;
            ensure_eq!(d.admin.as_ref().map(|x| x.as_str()), Some(DAO), @V5, "chain admin of the new collection");
            self.look(&app, &roles, &module, &m, "[new]", true)?;
            let r = exec(&mut app, DAO, &roles, &json!({"update_ownership": "accept_ownership"}), &[]);
            agree("the DAO takes over its new collection", &r, &Ok(()), VE)?;
            m.own = Owned::new(Some(DAO.into()));
            cx.label("new collection");
        } else {
            ensure_eq!(msg["nft_contract"]["existing"]["address"], json!(roles), @V5, "the module's collection");
        }
        let (mut refused, mut changed) = (false, BTreeSet::new());
        for (n, op) in case.ops.iter().enumerate() {
            let at = format!("[{n}]");
            let b = app.block_info();
            match op {
                ROp::Do { by, act } => {
                    let by = by.map(name).or(m.own.owner.clone()).unwrap_or(DAO.into());
                    let msg = act_json(&m, act);
                    let (was, told, hooks, nfts) = (m.w.clone(), m.told.clone(), m.hooks.clone(), m.nfts.clone());
                    let want = if m.own.is(&by) { m.act(&by, act) } else { Err("not the minter") };
                    let r = exec(&mut app, &by, &roles, &msg, &[]);
                    cx.log(|| format!("{at} {by} {msg}: {r:?}, expected {want:?}"));
                    agree(format!("{at} {by} {msg}"), &r, &want, E6)?;
                    if let Err(why) = want {
                        (m.w, m.told, m.hooks, m.nfts) = (was, told, hooks, nfts);
                        refused = true;
                        cx.label(why);
                    } else {
                        if was.now != m.w.now {
                            changed.insert(b.height);
                        }
                        m.w.settle(b.height);
                        cx.label(match act {
                            Act::Mint(_) => "minted",
                            Act::Burn(_) => "burned",
                            Act::Weigh(..) => "re-weighed",
                            Act::Transfer(..) | Act::Send(..) => "passed on",
                            _ => "other",
                        });
                    }
                }
                ROp::Base { by, id: i, kind } => {
                    let by = name(*by);
                    if m.own.is(&by) {
                        continue;
                    }
                    let msg = match kind {
                        0 => json!({"approve": {"spender": name(1), "token_id": id(*i), "expires": null}}),
                        1 => json!({"approve_all": {"operator": name(1), "expires": null}}),
                        2 => json!({"revoke_all": {"operator": name(1)}}),
                        _ => json!({"revoke": {"spender": name(1), "token_id": id(*i)}}),
                    };
                    let r = exec(&mut app, &by, &roles, &msg, &[]);
                    agree(format!("{at} {by} {msg}"), &r, &Err("not the minter"), E6)?;
                    refused = true;
                }
                ROp::Own { by, act } => {
                    let by = match (by, act, &m.own.pending) {
                        (None, OwnAct::Accept, Some((p, _))) => p.clone(),
                        (None, _, _) => m.own.owner.clone().unwrap_or(DAO.into()),
                        (Some(i), _, _) => name(*i),
                    };
                    let names = |i: u8| name(if i == 5 { N } else { i });
                    let msg = json!({"update_ownership": act.json(names, &b)});
                    let want = m.own.act(&by, act, names, &b);
                    let r = exec(&mut app, &by, &roles, &msg, &[]);
                    cx.log(|| format!("{at} {by} {msg}: {r:?}, expected {want:?}"));
                    agree(format!("{at} {by} {msg}"), &r, &want, E6)?;
                    if want.is_ok() {
                        cx.label("minter changed");
                    }
                }
                ROp::SetFail { hook, on } => {
                    let h = *hook as usize;
                    harness(exec(&mut app, "x", &mocks[h], &MockMsg::SetFail { fail: *on }, &[]))?;
                    m.failing[h] = *on;
                }
                ROp::Advance(n) => advance(&mut app, *n as u64, 5),
                ROp::Page { members, after, limit } => {
                    let take = |d: usize, max: usize| limit.map(|l| l as usize).unwrap_or(d).min(max);
                    if *members {
                        let after = after.map(|i| if i < N { name(i) } else { m.names[(i % 2) as usize].clone() });
                        let got: Value = q(&app, &roles, &json!({"extension": {"msg": {"list_members": {"start_after": after, "limit": limit}}}}))?;
                        let want: Vec<_> = m
                            .w
                            .now
                            .iter()
                            .filter(|(a, _)| after.as_ref().map_or(true, |s| *a > s))
                            .take(take(10, 30))
                            .map(|(a, n)| json!({"addr": a, "weight": n}))
                            .collect();
                        ensure_eq!(got["members"], json!(want), @E6, "{at} members after {after:?} up to {limit:?}");
                    } else {
                        let after = after.map(id);
                        let got: Value = q(&app, &roles, &json!({"all_tokens": {"start_after": after, "limit": limit}}))?;
                        let want: Vec<_> = m.nfts.keys().filter(|a| after.as_ref().map_or(true, |s| *a > s)).take(take(10, 1000)).collect();
                        ensure_eq!(got["tokens"], json!(want), @E6, "{at} tokens after {after:?} up to {limit:?}");
                    }
                    continue;
                }
            }
            self.look(&app, &roles, &module, &m, &at, n % 8 == 7)?;
        }
        self.look(&app, &roles, &module, &m, "[end]", true)?;
        cx.nontrivial = changed.len() >= 2 && refused && m.told.iter().any(|t| !t.is_empty());
        Ok(())
    }
}

impl Roles {
    fn look(&self, app: &VApp, roles: &Addr, module: &Addr, m: &RModel, at: &str, all: bool) -> R {
        let ask = |v: Value| -> R<Value> { q(app, roles, &v) };
        // the model itself: a member's weight is the weight of what it holds
        let mut sums: BTreeMap<String, u64> = BTreeMap::new();
        for n in m.nfts.values() {
            *sums.entry(n.owner.clone()).or_default() += n.weight;
        }
        for (who, n) in &sums {
            ensure_eq!(m.member(who).unwrap_or(0), *n, "{at} the model lost count of {who}");
        }
        for i in 0..IDS {
            let t = id(i);
            match m.nfts.get(&t) {
                None => {
                    ensure!(ask(json!({"owner_of": {"token_id": t}})).is_err(), @E6, "{at} token {t} exists");
                }
                Some(n) => {
                    ensure_eq!(ask(json!({"owner_of": {"token_id": t}}))?, json!({"owner": n.owner, "approvals": []}), @E6, "{at} owner of {t}");
                    let want = json!({"token_uri": n.uri, "extension": {"role": n.role, "weight": n.weight}});
                    ensure_eq!(ask(json!({"nft_info": {"token_id": t}}))?, want, @E6, "{at} token {t}");
                }
            }
        }
        ensure_eq!(ask(json!({"num_tokens": {}}))?, json!({"count": m.nfts.len()}), @E6, "{at} number of tokens");
        ensure_eq!(ask(json!({"ownership": {}}))?, m.own.json(), @E6, "{at} the minter");
        ensure_eq!(ask(json!({"extension": {"msg": {"hooks": {}}}}))?, json!({"hooks": m.hooks}), @E6, "{at} subscribers");
        let now = app.block_info().height;
        for h in m.w.heights(now, all) {
            let w = m.w.at(h);
            for who in (0..N).map(name).chain(m.names[..2].iter().cloned()) {
                let got = ask(json!({"extension": {"msg": {"member": {"addr": who, "at_height": h}}}}))?;
                ensure_eq!(got, json!({"weight": w.get(&who)}), @E6, "{at} weight of {who} at {h:?}");
            }
            let got = ask(json!({"extension": {"msg": {"total_weight": {"at_height": h}}}}))?;
            ensure_eq!(got, json!({"weight": Weights::sum(&w) as u64}), @E6, "{at} total weight at {h:?}");
        }
        for i in 0..2 {
            let log = mock_log(app, &Addr::unchecked(&m.names[i]));
            let got: Vec<&Value> = log.iter().map(|x| &x["msg"]).collect();
            ensure_eq!(json!(got), json!(m.told[i]), @E6, "{at} what subscriber {i} was told");
            ensure!(log.iter().all(|x| x["from"] == json!(roles)), @E6, "{at} subscriber {i} was told by another");
        }
        m.w.check_module(app, module, at, all, VE)?;
        Ok(())
    }
}
