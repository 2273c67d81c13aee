//! The DAO's core contract: who may act for it, and what its registries hold.

use std::collections::{BTreeMap, BTreeSet};

use cosmwasm_std::{coins, to_json_binary, Addr, BankMsg, CosmosMsg, Empty, Uint128};
use cw_multi_test::Executor;
use cw_utils::Expiration;
use dao_interface::query::DumpStateResponse;
use dao_interface::state::{Config, ProposalModule, ProposalModuleStatus};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use super::common::*;
use crate::env::*;
use crate::fw::*;
use crate::{ensure, ensure_eq};

const G1: &[&str] = &["G01"];
const G2: &[&str] = &["G02"];
const G12: &[&str] = &["G01", "G02"];
const DENOM: &str = "utok";
/// What the DAO has to start with.
const PURSE: u128 = 100;

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Authority,
    Registry,
    /// the same after an upgrade from version 1
    Upgrade,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Who {
    User(u8),
    Module(u8),
    /// a module that nobody has disabled
    Enabled(u8),
    Token(u8),
    Voting,
    /// the current admin
    Admin,
    /// the nominated admin
    Nominee,
    /// the chain-level admin, who has no say
    Migrator,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    Plain,
    /// the reply carries data that is no callback
    Data,
    Fails,
    NoCode,
    Callback(Vec<Msg>),
    /// a proposal module by which this user acts for the DAO
    Sudo(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inst {
    pub kind: Kind,
    /// 0: the DAO, 1: nobody, 2: a user
    pub admin: u8,
    pub funds: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conf {
    pub name: u8,
    pub image: Option<u8>,
    pub uri: Option<u8>,
    pub cw20s: bool,
    pub cw721s: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Msg {
    Pause { time: bool, n: u8 },
    Unpause,
    SetItem(u8, u8),
    RemoveItem(u8),
    Config(Conf),
    Cw20s { add: Vec<u8>, remove: Vec<u8> },
    Cw721s { add: Vec<u8>, remove: Vec<u8> },
    Voting(Inst, u8),
    Modules { add: Vec<Inst>, many: u8, disable: Vec<u8> },
    /// a member of the pool of addresses, or nobody
    Nominate(Option<u8>),
    Accept,
    Withdraw,
    SubDaos { add: Vec<(u8, Option<u8>)>, remove: Vec<u8> },
    AdminMsgs(Vec<Msg>),
    Hook(Vec<Msg>),
    Receive,
    ReceiveNft,
    Bump,
    Fail,
    Pay { to: u8, n: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Do(Who, Msg),
    Sudo { module: u8, by: u8, rooted: bool, msgs: Vec<Msg> },
    Cw20 { token: u8, by: u8, n: u8, send: bool },
    Nft { id: u8, send: bool },
    Migrate { v1: bool },
    Advance(u8),
    Page { list: u8, start: Option<u8>, limit: Option<u8> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub admin: Option<u8>,
    pub conf: Conf,
    pub voting: (Inst, u8),
    pub modules: Vec<Inst>,
    pub items: Option<Vec<(u8, u8)>>,
    /// it was a DAO of version 1 first, and this happened then
    #[serde(default)]
    pub past: Option<Past>,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Past {
    pub ops: Vec<Op>,
    pub uri: Option<u8>,
    /// whether a contract is to upgrade the modules, and what the DAO sets as it asks
    pub migrator: Option<(u8, u8)>,
}

pub struct Core(pub Focus);

fn conf() -> BoxedStrategy<Conf> {
    (any::<u8>(), any::<Option<u8>>(), any::<Option<u8>>(), any::<bool>(), any::<bool>())
        .prop_map(|(name, image, uri, cw20s, cw721s)| Conf { name, image, uri, cw20s, cw721s })
        .boxed()
}

fn inst_of(kind: BoxedStrategy<Kind>) -> BoxedStrategy<Inst> {
    (kind, 0u8..3, prop_oneof![5 => Just(0u8), 2 => 0u8..40])
        .prop_map(|(kind, admin, funds)| Inst { kind, admin, funds })
        .boxed()
}

fn good_inst() -> BoxedStrategy<Inst> {
    inst_of(prop_oneof![3 => Just(Kind::Plain), 1 => Just(Kind::Data), 2 => (0u8..4).prop_map(Kind::Sudo)].boxed())
}

fn any_inst(inner: BoxedStrategy<Msg>) -> BoxedStrategy<Inst> {
    inst_of(
        prop_oneof![
            5 => Just(Kind::Plain),
            1 => Just(Kind::Data),
            3 => (0u8..4).prop_map(Kind::Sudo),
            1 => Just(Kind::Fails),
            1 => Just(Kind::NoCode),
            2 => vec(inner, 0..3).prop_map(Kind::Callback),
        ]
        .boxed(),
    )
}

fn leaf(f: Focus) -> BoxedStrategy<Msg> {
    let (a, r) = if f == Focus::Authority { (3, 1) } else { (1, 3) };
    let names = || prop_oneof![4 => vec(0u8..9, 0..4), 1 => vec(0u8..10, 0..3)];
    let tokens = |r: std::ops::Range<u8>| prop_oneof![6 => vec(r, 0..3), 1 => vec(0u8..10, 0..3)];
    prop_oneof![
        a => (any::<bool>(), prop_oneof![Just(0u8), 1u8..4, 1u8..40]).prop_map(|(time, n)| Msg::Pause { time, n }),
        1 => Just(Msg::Unpause),
        a => prop_oneof![2 => (0u8..10).prop_map(Some), 1 => Just(None)].prop_map(Msg::Nominate),
        1 => Just(Msg::Accept),
        1 => Just(Msg::Withdraw),
        a * 2 => Just(Msg::Bump),
        1 => Just(Msg::Fail),
        a => (0u8..5, 1u8..60).prop_map(|(to, n)| Msg::Pay { to, n }),
        r * 2 => (prop_oneof![9 => 0u8..5, 1 => Just(5u8)], any::<u8>()).prop_map(|(k, v)| Msg::SetItem(k, v)),
        1 => (0u8..6).prop_map(Msg::RemoveItem),
        r => conf().prop_map(Msg::Config),
        r * 2 => (tokens(0..2), prop_oneof![vec(0u8..2, 0..2), names()]).prop_map(|(add, remove)| Msg::Cw20s { add, remove }),
        r => (tokens(2..4), prop_oneof![vec(2u8..4, 0..2), names()]).prop_map(|(add, remove)| Msg::Cw721s { add, remove }),
        r * 2 => (vec((0u8..10, any::<Option<u8>>()), 0..4), names()).prop_map(|(add, remove)| Msg::SubDaos { add, remove }),
        r => (good_inst(), any::<u8>()).prop_map(|(i, n)| Msg::Voting(i, n)),
        r * 3 => (vec(good_inst(), 0..3), prop_oneof![30 => Just(0u8), 1 => 20u8..30], prop_oneof![3 => vec(0u8..240, 0..2), 1 => vec(any::<u8>(), 0..4)])
            .prop_map(|(add, many, disable)| Msg::Modules { add, many, disable }),
        1 => Just(Msg::Receive),
        1 => Just(Msg::ReceiveNft),
    ]
    .boxed()
}

fn msg(f: Focus) -> BoxedStrategy<Msg> {
    let wrap = prop_oneof![
        3 => vec(leaf(f), 0..3).prop_map(Msg::AdminMsgs),
        1 => vec(leaf(f), 0..2).prop_map(Msg::Hook),
        2 => (vec(any_inst(leaf(f)), 1..3), vec(any::<u8>(), 0..3))
            .prop_map(|(add, disable)| Msg::Modules { add, many: 0, disable }),
        1 => (any_inst(Just(Msg::Bump).boxed()), any::<u8>()).prop_map(|(i, n)| Msg::Voting(i, n)),
    ];
    prop_oneof![5 => leaf(f), 1 => wrap].boxed()
}

/// Mostly what can succeed: one failing message undoes them all.
fn hooked(f: Focus) -> BoxedStrategy<Vec<Msg>> {
    prop_oneof![4 => vec(msg(f), 1..2), 2 => vec(msg(f), 2..3), 1 => vec(msg(f), 0..5)].boxed()
}

fn who() -> BoxedStrategy<Who> {
    prop_oneof![
        3 => (0u8..5).prop_map(Who::User),
        2 => any::<u8>().prop_map(Who::Module),
        6 => any::<u8>().prop_map(Who::Enabled),
        1 => (0u8..4).prop_map(Who::Token),
        1 => Just(Who::Voting),
        6 => Just(Who::Admin),
        2 => Just(Who::Nominee),
        1 => Just(Who::Migrator),
    ]
    .boxed()
}

fn op(f: Focus) -> BoxedStrategy<Op> {
    let d = |w: BoxedStrategy<Who>, m: BoxedStrategy<Msg>| (w, m).prop_map(|(w, m)| Op::Do(w, m));
    let (a, r) = if f == Focus::Authority { (2, 1) } else { (1, 2) };
    prop_oneof![
        // anybody tries anything
        3 * a => d(who(), msg(f)),
        // the ways that work
        6 => d(any::<u8>().prop_map(Who::Enabled).boxed(), hooked(f).prop_map(Msg::Hook).boxed()),
        3 => d(Just(Who::Admin).boxed(), hooked(f).prop_map(Msg::AdminMsgs).boxed()),
        // and those that may not
        2 * a => d(who(), vec(msg(f), 0..3).prop_map(Msg::Hook).boxed()),
        2 * a => d(who(), vec(msg(f), 0..3).prop_map(Msg::AdminMsgs).boxed()),
        2 * a => d(
            prop_oneof![3 => Just(Who::Admin), 3 => Just(Who::Nominee), 1 => who()].boxed(),
            prop_oneof![
                Just(Msg::Unpause), Just(Msg::Accept), Just(Msg::Withdraw),
                (0u8..10).prop_map(|i| Msg::Nominate(Some(i))), Just(Msg::Nominate(None))
            ].boxed()
        ),
        2 => (any::<u8>(), 0u8..5, any::<bool>(), hooked(f))
            .prop_map(|(module, by, rooted, msgs)| Op::Sudo { module, by, rooted, msgs }),
        r => (0u8..2, 0u8..4, 1u8..20, any::<bool>()).prop_map(|(token, by, n, send)| Op::Cw20 { token, by, n, send }),
        r => (0u8..4, any::<bool>()).prop_map(|(id, send)| Op::Nft { id, send }),
        1 => any::<bool>().prop_map(|v1| Op::Migrate { v1 }),
        3 => prop_oneof![1u8..3, 1u8..30].prop_map(Op::Advance),
        3 * r => (0u8..7, any::<Option<u8>>(), proptest::option::of(0u8..5))
            .prop_map(|(list, start, limit)| Op::Page { list, start, limit }),
    ]
    .boxed()
}

// ------------------------------------------------------------------ model

type V = Result<(), (&'static str, &'static [&'static str])>;

#[derive(Clone)]
struct Model {
    core: String,
    admin: String,
    nominee: Option<String>,
    paused: Option<Expiration>,
    config: Config,
    items: BTreeMap<String, String>,
    cw20s: BTreeSet<String>,
    cw721s: BTreeSet<String>,
    subs: BTreeMap<String, Option<String>>,
    modules: BTreeMap<String, (bool, String)>,
    created: u32,
    voting: Option<(String, u128)>,
    /// number of contracts on the chain
    next: usize,
    /// users that act through a module
    roots: BTreeMap<String, String>,
    chain_admin: BTreeMap<String, Option<String>>,
    count: u64,
    purse: BTreeMap<String, u128>,
    held: [u128; 2],
    nfts: [bool; 4],
}

/// Everything a message refers to, fixed when it is composed.
struct World {
    core: Addr,
    target: Addr,
    pool: Vec<String>,
    modules: Vec<String>,
    mock: u64,
    sudo: u64,
    /// speak as to version 1
    old: bool,
}

impl World {
    fn name(&self, i: u8) -> String {
        self.pool[i as usize % self.pool.len()].clone()
    }
    fn names(&self, v: &[u8]) -> Vec<String> {
        v.iter().map(|i| self.name(*i)).collect()
    }
    fn module(&self, i: u8) -> String {
        if self.modules.is_empty() || i >= 250 {
            return "nobody".into();
        }
        self.modules[i as usize % self.modules.len()].clone()
    }
    fn inst(&self, i: &Inst, power: Option<u8>) -> Value {
        let m = |m: MockMsg| to_json_binary(&m).unwrap();
        let (code, msg) = match &i.kind {
            Kind::Plain => match power {
                Some(p) => (
                    self.mock,
                    m(powers_msg(&[("user0".into(), p as u128)])),
                ),
                None => (self.mock, to_json_binary(&Empty {}).unwrap()),
            },
            Kind::Data => (self.mock, m(MockMsg::Bump {})),
            Kind::Fails => (self.mock, m(MockMsg::Fail {})),
            Kind::NoCode => (99, to_json_binary(&Empty {}).unwrap()),
            Kind::Callback(v) => (
                self.mock,
                m(MockMsg::Run { msgs: v.iter().map(|x| self.cosmos(x)).collect() }),
            ),
            Kind::Sudo(u) => (self.sudo, to_json_binary(&json!({"root": user(*u as usize)})).unwrap()),
        };
        if self.old {
            return json!({
                "code_id": code,
                "msg": msg,
                "admin": match i.admin {
                    0 => json!({"core_contract": {}}),
                    1 => json!({"none": {}}),
                    _ => json!({"address": {"addr": "user2"}}),
                },
                "label": "module",
            });
        }
        json!({
            "code_id": code,
            "msg": msg,
            "admin": match i.admin {
                0 => json!({"core_module": {}}),
                1 => json!(null),
                _ => json!({"address": {"addr": "user2"}}),
            },
            "funds": if i.funds == 0 { json!([]) } else { json!(coins(i.funds as u128, DENOM)) },
            "label": "module",
        })
    }
    /// The DAO does this.
    fn cosmos(&self, m: &Msg) -> CosmosMsg<Empty> {
        match m {
            Msg::Bump => wasm_msg(&self.target, &MockMsg::Bump {}),
            Msg::Fail => wasm_msg(&self.target, &MockMsg::Fail {}),
            Msg::Pay { to, n } => BankMsg::Send {
                to_address: user(*to as usize),
                amount: coins(*n as u128, DENOM),
            }
            .into(),
            m => wasm_msg(&self.core, &self.json(m)),
        }
    }
    /// The DAO is asked for this.
    fn json(&self, m: &Msg) -> Value {
        let all = |v: &[Msg]| v.iter().map(|x| self.cosmos(x)).collect::<Vec<_>>();
        match m {
            Msg::SetItem(k, v) if self.old => json!({"set_item": {"key": key(*k), "addr": text(*v)}}),
            Msg::Config(c) if self.old => {
                let mut c = json!(config(c));
                c.as_object_mut().unwrap().remove("dao_uri");
                json!({"update_config": {"config": c}})
            }
            Msg::Modules { add, many, disable } if self.old => json!({"update_proposal_modules": {
                "to_add": added(add, *many).iter().map(|i| self.inst(i, None)).collect::<Vec<_>>(),
                "to_remove": disable.iter().map(|i| self.module(*i)).collect::<Vec<_>>(),
            }}),
            Msg::Pause { time, n } => json!({"pause": {"duration": dur(*time, *n as u64)}}),
            Msg::Unpause => json!({"unpause": {}}),
            Msg::SetItem(k, v) => json!({"set_item": {"key": key(*k), "value": text(*v)}}),
            Msg::RemoveItem(k) => json!({"remove_item": {"key": key(*k)}}),
            Msg::Config(c) => json!({"update_config": {"config": config(c)}}),
            Msg::Cw20s { add, remove } => {
                json!({"update_cw20_list": {"to_add": self.names(add), "to_remove": self.names(remove)}})
            }
            Msg::Cw721s { add, remove } => {
                json!({"update_cw721_list": {"to_add": self.names(add), "to_remove": self.names(remove)}})
            }
            Msg::Voting(i, p) => json!({"update_voting_module": {"module": self.inst(i, Some(*p))}}),
            Msg::Modules { add, many, disable } => json!({"update_proposal_modules": {
                "to_add": added(add, *many).iter().map(|i| self.inst(i, None)).collect::<Vec<_>>(),
                "to_disable": disable.iter().map(|i| self.module(*i)).collect::<Vec<_>>(),
            }}),
            Msg::Nominate(n) => json!({"nominate_admin": {"admin": n.map(|i| self.name(i))}}),
            Msg::Accept => json!({"accept_admin_nomination": {}}),
            Msg::Withdraw => json!({"withdraw_admin_nomination": {}}),
            Msg::SubDaos { add, remove } => json!({"update_sub_daos": {
                "to_add": add.iter().map(|(i, c)| json!({"addr": self.name(*i), "charter": c.map(text)})).collect::<Vec<_>>(),
                "to_remove": self.names(remove),
            }}),
            Msg::AdminMsgs(v) => json!({"execute_admin_msgs": {"msgs": all(v)}}),
            Msg::Hook(v) => json!({"execute_proposal_hook": {"msgs": all(v)}}),
            Msg::Receive => json!({"receive": {"sender": "user0", "amount": "5", "msg": ""}}),
            Msg::ReceiveNft => json!({"receive_nft": {"sender": "user0", "token_id": "1", "msg": ""}}),
            Msg::Bump | Msg::Fail | Msg::Pay { .. } => json!({"unknown": {}}),
        }
    }
}

fn added(add: &[Inst], many: u8) -> Vec<Inst> {
    let mut v = add.to_vec();
    v.extend((0..many).map(|_| Inst { kind: Kind::Plain, admin: 0, funds: 0 }));
    v
}
/// Keys that are prefixes of one another, and an empty one.
fn key(k: u8) -> String {
    ["a", "aa", "ab", "b", "é", ""][k as usize % 6].into()
}
fn text(v: u8) -> String {
    if v == 0 { String::new() } else { format!("v{v}") }
}
fn config(c: &Conf) -> Config {
    Config {
        // an attribute may not be empty
        name: format!("n{}", c.name),
        description: format!("d{}", c.name / 7),
        image_url: c.image.map(|i| format!("i{i}")),
        automatically_add_cw20s: c.cw20s,
        automatically_add_cw721s: c.cw721s,
        dao_uri: c.uri.map(text),
    }
}
fn valid(a: &str) -> bool {
    a != "NOT AN ADDRESS"
}

/// A, B, .. Z, AA, AB, ..
fn prefix(i: u32) -> String {
    let mut names = vec![String::new()];
    let mut level: Vec<String> = vec![String::new()];
    while names.len() <= i as usize + 1 {
        level = level
            .iter()
            .flat_map(|p| (b'A'..=b'Z').map(move |c| format!("{p}{}", c as char)))
            .collect();
        names.extend(level.iter().cloned());
    }
    names[i as usize + 1].clone()
}

impl Model {
    fn is_paused(&self, b: &cosmwasm_std::BlockInfo) -> bool {
        matches!(&self.paused, Some(e) if !e.is_expired(b))
    }
    fn active(&self) -> usize {
        self.modules.values().filter(|m| m.0).count()
    }

    /// The DAO runs a message.
    fn act(&mut self, w: &World, b: &cosmwasm_std::BlockInfo, m: &Msg) -> V {
        match m {
            Msg::Bump => self.count += 1,
            Msg::Fail => return Err(("the message fails", G12)),
            Msg::Pay { to, n } => {
                let n = *n as u128;
                let have = self.purse.entry(self.core.clone()).or_default();
                if *have < n {
                    return Err(("the DAO has not so much", G1));
                }
                *have -= n;
                *self.purse.entry(user(*to as usize)).or_default() += n;
            }
            m => return self.ask(w, b, &self.core.clone(), m),
        }
        Ok(())
    }

    fn run(&mut self, w: &World, b: &cosmwasm_std::BlockInfo, v: &[Msg]) -> V {
        v.iter().try_for_each(|m| self.act(w, b, m))
    }

    fn spawn(&mut self, i: &Inst) -> Result<String, (&'static str, &'static [&'static str])> {
        if matches!(i.kind, Kind::Fails | Kind::NoCode) {
            return Err(("the module cannot be made", G2));
        }
        let addr = format!("contract{}", self.next);
        self.next += 1;
        let n = i.funds as u128;
        let have = self.purse.entry(self.core.clone()).or_default();
        if *have < n {
            return Err(("the DAO cannot fund the module", G2));
        }
        *have -= n;
        *self.purse.entry(addr.clone()).or_default() += n;
        let admin = match i.admin {
            0 => Some(self.core.clone()),
            1 => None,
            _ => Some(user(2)),
        };
        self.chain_admin.insert(addr.clone(), admin);
        if let Kind::Sudo(u) = i.kind {
            self.roots.insert(addr.clone(), user(u as usize));
        }
        Ok(addr)
    }

    fn add_module(&mut self, w: &World, b: &cosmwasm_std::BlockInfo, i: &Inst) -> V {
        let addr = self.spawn(i)?;
        self.modules.insert(addr, (true, prefix(self.created)));
        self.created += 1;
        if let Kind::Callback(v) = &i.kind {
            self.run(w, b, v)?;
        }
        Ok(())
    }

    /// Somebody asks the DAO for something.
    fn ask(&mut self, w: &World, b: &cosmwasm_std::BlockInfo, by: &str, m: &Msg) -> V {
        if self.is_paused(b) && by != self.core && by != self.admin {
            return Err(("the DAO is paused", G1));
        }
        let only_dao: V = if by == self.core { Ok(()) } else { Err(("only the DAO itself may", G1)) };
        let only_admin: V = if by == self.admin { Ok(()) } else { Err(("only the admin may", G1)) };
        match m {
            Msg::Pause { time, n } => {
                only_dao?;
                let now = now(*time, b);
                self.paused = Some(exp_at(*time, now + *n as u64));
            }
            Msg::Unpause => {
                only_admin?;
                self.paused = None;
            }
            Msg::SetItem(k, v) => {
                only_dao?;
                if text(*v).is_empty() {
                    // the simulated chain refuses the event this would give
                    return Err(("the chain refuses an empty value", G2));
                }
                if key(*k).is_empty() {
                    return Err(("the chain refuses an empty key", G2));
                }
                self.items.insert(key(*k), text(*v));
            }
            Msg::RemoveItem(k) => {
                only_dao?;
                if self.items.remove(&key(*k)).is_none() || key(*k).is_empty() {
                    return Err(("there is no such item", G2));
                }
            }
            Msg::Config(c) => {
                only_dao?;
                self.config = config(c);
            }
            Msg::Cw20s { add, remove } | Msg::Cw721s { add, remove } => {
                only_dao?;
                let (add, remove) = (w.names(add), w.names(remove));
                if add.iter().chain(&remove).any(|a| !valid(a)) {
                    return Err(("not an address", G2));
                }
                let cw20 = matches!(m, Msg::Cw20s { .. });
                let tokens = if cw20 { &w.pool[..2] } else { &w.pool[2..4] };
                if add.iter().any(|a| !tokens.contains(a)) {
                    return Err(("not a token of this kind", G2));
                }
                let set = if cw20 { &mut self.cw20s } else { &mut self.cw721s };
                set.extend(add);
                for a in remove {
                    set.remove(&a);
                }
            }
            Msg::Voting(i, p) => {
                only_dao?;
                let addr = self.spawn(i)?;
                let p = if matches!(i.kind, Kind::Plain) { *p as u128 } else { 0 };
                self.voting = Some((addr, p));
            }
            Msg::Modules { add, many, disable } => {
                only_dao?;
                for d in disable {
                    match self.modules.get_mut(&w.module(*d)) {
                        None => return Err(("there is no such module", G2)),
                        Some((on, _)) if !*on => return Err(("already disabled", G2)),
                        Some((on, _)) => *on = false,
                    }
                }
                let add = added(add, *many);
                if self.active() == 0 && add.is_empty() {
                    return Err(("no module would be left", G2));
                }
                for i in &add {
                    self.add_module(w, b, i)?;
                }
            }
            Msg::Nominate(n) => {
                let n = n.map(|i| w.name(i));
                only_admin?;
                if self.nominee.is_some() {
                    return Err(("a nomination is pending", G1));
                }
                match n {
                    Some(n) if !valid(&n) => return Err(("not an address", G1)),
                    Some(n) => self.nominee = Some(n),
                    None => self.admin = self.core.clone(),
                }
            }
            Msg::Accept => match self.nominee.take() {
                Some(n) if n == by => self.admin = n,
                _ => return Err(("only the nominee may", G1)),
            },
            Msg::Withdraw => {
                only_admin?;
                if self.nominee.take().is_none() {
                    return Err(("nobody is nominated", G1));
                }
            }
            Msg::SubDaos { add, remove } => {
                only_dao?;
                for a in w.names(remove) {
                    if !valid(&a) {
                        return Err(("not an address", G2));
                    }
                    self.subs.remove(&a);
                }
                for (i, c) in add {
                    if !valid(&w.name(*i)) {
                        return Err(("not an address", G2));
                    }
                    self.subs.insert(w.name(*i), c.map(text));
                }
            }
            Msg::AdminMsgs(v) => {
                only_admin?;
                self.run(w, b, v)?;
            }
            Msg::Hook(v) => {
                if !matches!(self.modules.get(by), Some((true, _))) {
                    return Err(("not an enabled proposal module", G1));
                }
                self.run(w, b, v)?;
            }
            Msg::Receive => {
                if self.config.automatically_add_cw20s {
                    self.cw20s.insert(by.into());
                }
            }
            Msg::ReceiveNft => {
                if self.config.automatically_add_cw721s {
                    self.cw721s.insert(by.into());
                }
            }
            Msg::Bump | Msg::Fail | Msg::Pay { .. } => return Err(("no such request", G1)),
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ run

fn verdict<T>(what: String, got: &Result<T, String>, want: &V) -> R {
    match want {
        Ok(()) => agree(what, got, &Ok(()), G12),
        Err((why, tags)) => agree(what, got, &Err(*why), tags),
    }
}

fn page<T: Clone, K: PartialOrd>(
    all: &[T],
    k: impl Fn(&T) -> K,
    start: Option<K>,
    limit: Option<u32>,
    desc: bool,
) -> Vec<T> {
    let mut v: Vec<T> = all.to_vec();
    if desc {
        v.reverse();
    }
    v.into_iter()
        .filter(|x| match &start {
            Some(s) => if desc { k(x) < *s } else { k(x) > *s },
            None => true,
        })
        .take(limit.map(|l| l as usize).unwrap_or(usize::MAX))
        .collect()
}

struct Sut {
    app: VApp,
    w: World,
    tokens: [Addr; 2],
    nft: Addr,
    m: Model,
}

impl Sut {
    fn list(&self, i: u8, start: Option<String>, limit: Option<u32>) -> (&'static str, Value, Value) {
        let m = &self.m;
        let args = json!({"start_after": start, "limit": limit});
        let set = |s: &BTreeSet<String>| -> Vec<String> { s.iter().cloned().collect() };
        let modules: Vec<Value> = m
            .modules
            .iter()
            .map(|(a, (on, p))| {
                json!(ProposalModule {
                    address: Addr::unchecked(a),
                    prefix: p.clone(),
                    status: if *on { ProposalModuleStatus::Enabled } else { ProposalModuleStatus::Disabled },
                })
            })
            .collect();
        let by = |f: &'static str| move |v: &Value| v[f].as_str().unwrap().to_string();
        match i {
            0 => ("items", json!({"list_items": args}), {
                let all: Vec<(String, String)> = m.items.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
                json!(page(&all, |x| x.0.clone(), start, limit, true))
            }),
            1 => ("cw20 tokens", json!({"cw20_token_list": args}), {
                json!(page(&set(&m.cw20s), |x| x.clone(), start, limit, true))
            }),
            2 => ("cw721 tokens", json!({"cw721_token_list": args}), {
                json!(page(&set(&m.cw721s), |x| x.clone(), start, limit, true))
            }),
            3 => ("sub-DAOs", json!({"list_sub_daos": args}), {
                let all: Vec<Value> = m.subs.iter().map(|(a, c)| json!({"addr": a, "charter": c})).collect();
                json!(page(&all, by("addr"), start, limit, false))
            }),
            4 => ("proposal modules", json!({"proposal_modules": args}), {
                json!(page(&modules, by("address"), start, limit, false))
            }),
            5 => ("active proposal modules", json!({"active_proposal_modules": args}), {
                let on: Vec<Value> = modules.into_iter().filter(|v| v["status"] == json!("enabled")).collect();
                json!(page(&on, by("address"), start, limit, false))
            }),
            _ => ("cw20 balances", json!({"cw20_balances": args}), {
                let addrs = page(&set(&m.cw20s), |x| x.clone(), start, limit, true);
                // something that is no token may list itself; then there is no answer
                if addrs.iter().any(|a| !self.w.pool[..2].contains(a)) {
                    Value::Null
                } else {
                    json!(addrs
                        .iter()
                        .map(|a| {
                            let i = self.tokens.iter().position(|t| t == a).unwrap();
                            json!({"addr": a, "balance": Uint128::new(m.held[i])})
                        })
                        .collect::<Vec<_>>())
                }
            }),
        }
    }

    fn check_list(&self, i: u8, start: Option<String>, limit: Option<u32>) -> R {
        let (what, msg, want) = self.list(i, start, limit);
        if want.is_null() {
            return Ok(());
        }
        let got: Value = query(&self.app, &self.w.core, &msg)
            .map_err(|e| Fail::new(format!("{what}: {msg} fails: {e}")).tag(G2))?;
        ensure!(got == want, @G2, "{what}, asked {msg}: code {got}, oracle {want}");
        Ok(())
    }

    fn check(&self) -> R {
        let (m, app, core) = (&self.m, &self.app, &self.w.core);
        let b = app.block_info();
        let pause = match (&m.paused, m.is_paused(&b)) {
            (Some(e), true) => json!({"paused": {"expiration": e}}),
            _ => json!({"unpaused": {}}),
        };
        let d: DumpStateResponse = q(app, core, &json!({"dump_state": {}}))?;
        ensure_eq!(@G1, d.admin.as_str(), m.admin.as_str(), "the admin");
        ensure_eq!(@G1, json!(d.pause_info), pause, "whether paused");
        ensure_eq!(@G2, d.config, m.config, "the configuration");
        let (voting, power) = m.voting.clone().unwrap();
        ensure_eq!(@G2, d.voting_module.as_str(), voting.as_str(), "the voting module");
        ensure_eq!(@G2, d.active_proposal_module_count as usize, m.active(), "number of enabled modules");
        ensure_eq!(@G2, d.total_proposal_module_count as usize, m.modules.len(), "number of modules");
        ensure!(d.active_proposal_module_count >= 1, @G2, "no proposal module is left");
        let (_, _, mods) = self.list(4, None, None);
        ensure_eq!(@G2, json!(d.proposal_modules), mods, "the modules");

        let get = |msg: Value| -> R<Value> { q(app, core, &msg) };
        ensure_eq!(@G1, get(json!({"admin": {}}))?, json!(m.admin), "the admin");
        ensure_eq!(@G1, get(json!({"admin_nomination": {}}))?, json!({"nomination": m.nominee}), "the nomination");
        ensure_eq!(@G1, get(json!({"pause_info": {}}))?, pause, "whether paused");
        ensure_eq!(@G2, get(json!({"config": {}}))?, json!(m.config), "the configuration");
        ensure_eq!(@G2, get(json!({"dao_u_r_i": {}}))?, json!({"dao_uri": m.config.dao_uri}), "the URI");
        ensure_eq!(@G2, get(json!({"voting_module": {}}))?, json!(voting), "the voting module");
        ensure_eq!(
            @G2,
            get(json!({"proposal_module_count": {}}))?,
            json!({"active_proposal_module_count": m.active(), "total_proposal_module_count": m.modules.len()}),
            "number of modules"
        );
        let h = b.height;
        if !m.roots.contains_key(&voting) {
            for (msg, p) in [
                (json!({"voting_power_at_height": {"address": "user0", "height": null}}), power),
                (json!({"voting_power_at_height": {"address": "user1", "height": null}}), 0),
                (json!({"total_power_at_height": {"height": null}}), power),
            ] {
                ensure_eq!(@G2, get(msg.clone())?, json!({"power": Uint128::new(p), "height": h}), "{msg}");
            }
        }
        for k in 0..6u8 {
            if !key(k).is_empty() {
                let got = get(json!({"get_item": {"key": key(k)}}))?;
                ensure_eq!(@G2, got, json!({"item": m.items.get(&key(k))}), "item {}", key(k));
            }
        }
        for i in [0, 1, 2, 3, 4, 5, 6] {
            self.check_list(i, None, None)?;
        }
        // what the DAO did
        ensure_eq!(@G1, mock_count(app, &self.w.target), m.count, "messages run by the DAO");
        for (a, n) in &m.purse {
            ensure_eq!(@G12, bank(app, a, DENOM), *n, "funds of {a}");
        }
        for (i, t) in self.tokens.iter().enumerate() {
            ensure_eq!(@G2, cw20_balance(app, t, core.as_str()), m.held[i], "tokens of the DAO");
        }
        for (a, admin) in &m.chain_admin {
            let c = app.contract_data(&Addr::unchecked(a));
            let c = c.map_err(|e| Fail::new(format!("no contract {a}: {e:#}")).tag(G2))?;
            ensure_eq!(@G2, c.admin.map(|x| x.to_string()), admin.clone(), "chain admin of {a}");
            ensure_eq!(@G2, c.creator.to_string(), m.core, "creator of {a}");
        }
        Ok(())
    }
}

fn core_v1() -> Box<dyn cw_multi_test::Contract<Empty>> {
    use cw_core_v1::contract::*;
    Box::new(cw_multi_test::ContractWrapper::new(execute, instantiate, query).with_reply(reply).with_migrate(migrate))
}

/// The contract that is to upgrade the modules: it keeps what it is told and has the DAO set an item.
fn migrator() -> Box<dyn cw_multi_test::Contract<Empty>> {
    use cosmwasm_std::{Binary, Deps, DepsMut, Env, MessageInfo, Response, StdResult};
    fn init(deps: DepsMut, _: Env, info: MessageInfo, msg: Value) -> StdResult<Response> {
        deps.storage.set(b"told", msg.to_string().as_bytes());
        let item = |k: &str| msg["sub_daos"][0][k].as_str().unwrap_or("none").to_string();
        let set = json!({"set_item": {"key": item("addr"), "value": item("charter")}});
        Ok(Response::new().set_data(to_json_binary(&json!({"msgs": [wasm_msg(&info.sender, &set)]}))?))
    }
    fn exec(_: DepsMut, _: Env, _: MessageInfo, _: Value) -> StdResult<Response> {
        Ok(Response::new())
    }
    fn query(deps: Deps, _: Env, _: Value) -> StdResult<Binary> {
        let v = deps.storage.get(b"told").unwrap_or_default();
        to_json_binary(&String::from_utf8_lossy(&v))
    }
    Box::new(cw_multi_test::ContractWrapper::new(exec, init, query))
}

impl Sut {
    /// The DAO as version 1, with a history, and upgraded. The model takes over what the
    /// old version said of itself. None if there never was a DAO.
    fn upgraded(mut self, case: &Case, p: &Past, core_code: u64, cx: &mut Cx) -> R<Option<Sut>> {
        let old = self.app.store_code(core_v1());
        let code = self.app.store_code(migrator());
        let core = self.w.core.clone();
        self.w.old = true;
        let mut init = json!({
            "admin": case.admin.map(|i| self.w.name(i)),
            "voting_module_instantiate_info": self.w.inst(&case.voting.0, Some(case.voting.1)),
            "proposal_modules_instantiate_info": case.modules.iter().map(|i| self.w.inst(i, None)).collect::<Vec<_>>(),
            "initial_items": case.items.as_ref().map(|v| v.iter()
                .map(|(k, v)| json!({"key": key(*k), "value": text(*v)})).collect::<Vec<_>>()),
        });
        for (k, v) in json!(config(&case.conf)).as_object().unwrap() {
            if k != "dao_uri" {
                init[k] = v.clone();
            }
        }
        let got = inst(&mut self.app, old, "deployer", &init, &coins(PURSE, DENOM), Some("migrator"));
        cx.log(|| format!("instantiate version 1 with {init}: {got:?}"));
        let Ok(got) = got else {
            cx.label("instantiation refused");
            return Ok(None);
        };
        ensure_eq!(got, core, "address of the DAO");

        // its history, as it may
        for op in &p.ops {
            let mods: Vec<String> = q(&self.app, &core, &json!({"proposal_modules": {}}))?;
            self.w.modules = mods.clone();
            self.w.modules.reverse();
            let mods = &self.w.modules;
            let (by, to, msg) = match op {
                Op::Do(who, msg) => {
                    let by: String = match who {
                        Who::User(i) => user(*i as usize),
                        Who::Module(i) | Who::Enabled(i) => mods[*i as usize % mods.len()].clone(),
                        Who::Token(i) => self.w.pool[*i as usize % 4].clone(),
                        Who::Voting => q(&self.app, &core, &json!({"voting_module": {}}))?,
                        Who::Admin => q(&self.app, &core, &json!({"admin": {}}))?,
                        Who::Nominee => {
                            let n: Value = q(&self.app, &core, &json!({"admin_nomination": {}}))?;
                            n["nomination"].as_str().unwrap_or("nobody").into()
                        }
                        Who::Migrator => "migrator".into(),
                    };
                    if by == core {
                        (mods[0].clone(), core.clone(), self.w.json(&Msg::Hook(vec![msg.clone()])))
                    } else {
                        (by, core.clone(), self.w.json(msg))
                    }
                }
                Op::Cw20 { token, by, n, send } => {
                    let n = Uint128::new(*n as u128);
                    (user(*by as usize), self.tokens[*token as usize].clone(), match send {
                        true => json!({"send": {"contract": core, "amount": n, "msg": ""}}),
                        false => json!({"transfer": {"recipient": core, "amount": n}}),
                    })
                }
                Op::Nft { id, send } => (user(*id as usize), self.nft.clone(), match send {
                    true => json!({"send_nft": {"contract": core, "token_id": format!("{id}"), "msg": ""}}),
                    false => json!({"transfer_nft": {"recipient": core, "token_id": format!("{id}")}}),
                }),
                Op::Advance(n) => {
                    advance(&mut self.app, *n as u64, *n as u64 * 5);
                    continue;
                }
                Op::Sudo { .. } | Op::Migrate { .. } | Op::Page { .. } => continue,
            };
            let r = exec(&mut self.app, &by, &to, &msg, &[]);
            cx.log(|| format!("before: {by} asks {to} for {msg}: {:?}", r.as_ref().map(|_| ())));
            if r.is_ok() {
                if let Op::Nft { id, .. } = op {
                    self.m.nfts[*id as usize] = true;
                }
                if matches!(op, Op::Do(..)) {
                    cx.label("acted-before");
                }
            }
        }

        // what it says of itself
        let app = &self.app;
        let get = |m: Value| -> R<Value> { q(app, &core, &m) };
        let m = &mut self.m;
        let read = |v: Value| v.as_str().map(|s| s.to_string());
        m.admin = read(get(json!({"admin": {}}))?).unwrap();
        m.nominee = read(get(json!({"admin_nomination": {}}))?["nomination"].clone());
        let pause = get(json!({"pause_info": {}}))?;
        // version 1 spells it with a capital
        let e = [&pause["Paused"]["expiration"], &pause["paused"]["expiration"]].into_iter().find(|e| !e.is_null());
        m.paused = match e {
            Some(e) => serde_json::from_value(e.clone()).map_err(|e| Fail::new(e.to_string()))?,
            None => None,
        };
        let mut c = get(json!({"config": {}}))?;
        c["dao_uri"] = json!(p.uri.map(text));
        m.config = serde_json::from_value(c).map_err(|e| Fail::new(e.to_string()))?;
        m.items = q::<Vec<(String, String)>, _>(app, &core, &json!({"list_items": {}}))?.into_iter().collect();
        m.cw20s = q::<Vec<String>, _>(app, &core, &json!({"cw20_token_list": {}}))?.into_iter().collect();
        m.cw721s = q::<Vec<String>, _>(app, &core, &json!({"cw721_token_list": {}}))?.into_iter().collect();
        let mods: BTreeSet<String> = q::<Vec<String>, _>(app, &core, &json!({"proposal_modules": {}}))?.into_iter().collect();
        m.created = mods.len() as u32;
        m.modules = mods.iter().enumerate().map(|(i, a)| (a.clone(), (true, prefix(i as u32)))).collect();
        let v = read(get(json!({"voting_module": {}}))?).unwrap();
        for a in mods.iter().chain([&v]) {
            // one that somebody acts through
            if let Ok(root) = query::<String, _>(app, &Addr::unchecked(a), &json!({"admin": {}})) {
                m.roots.insert(a.clone(), root);
            }
        }
        let power = query::<Value, _>(app, &Addr::unchecked(&v), &json!({"total_power_at_height": {}})).unwrap_or_default();
        m.voting = Some((v, power["power"].as_str().and_then(|p| p.parse().ok()).unwrap_or(0)));
        m.count = mock_count(app, &self.w.target);
        for (a, n) in m.purse.iter_mut() {
            *n = bank(app, a, DENOM);
        }
        for i in 0..2 {
            m.held[i] = cw20_balance(app, &self.tokens[i], core.as_str());
        }
        if m.modules.len() > 26 {
            cx.label("beyond prefix Z");
        }
        if m.nominee.is_some() {
            cx.label("nomination carried over");
        }
        if m.paused.is_some() {
            cx.label("pause carried over");
        }
        if !m.items.is_empty() {
            cx.label("items carried over");
        }
        if !m.cw20s.is_empty() || !m.cw721s.is_empty() {
            cx.label("token lists carried over");
        }
        // how many contracts there are
        let probe = new_mock(&mut self.app);
        self.m.next = probe.as_str().trim_start_matches("contract").parse::<usize>().unwrap() + 1;

        // the upgrade
        self.w.old = false;
        let told = p.migrator.map(|(k, v)| {
            let one = json!({"code_id": 7, "msg": "e30=", "admin": null, "funds": [], "label": "pre"});
            json!({
                "sub_daos": [{"addr": key(k % 5), "charter": text(v | 1)}],
                "migration_params": {
                    "migrate_stake_cw20_manager": ([json!(null), json!(true), json!(false)][v as usize % 3]),
                    "proposal_params": [["p", {
                        "close_proposal_on_execution_failure": v % 2 == 0,
                        "pre_propose_info": if v % 5 < 2 {
                            json!({"anyone_may_propose": {}})
                        } else {
                            json!({"module_may_propose": {"info": one}})
                        },
                    }]],
                },
                "v1_code_ids": {"proposal_single": 11, "cw4_voting": 12, "cw20_stake": 13, "cw20_staked_balances_voting": v},
                "v2_code_ids": {"proposal_single": 21, "cw4_voting": 22, "cw20_stake": k, "cw20_staked_balances_voting": 24},
            })
        });
        let msg = json!({"from_v1": {
            "dao_uri": p.uri.map(text),
            "params": told.as_ref().map(|t| json!({"migrator_code_id": code, "params": t})),
        }});
        let r = self.app.migrate_contract(Addr::unchecked("migrator"), core.clone(), &msg, core_code);
        let r = r.map_err(|e| format!("{e:#}"));
        cx.log(|| format!("upgrade with {msg}: {r:?}"));
        agree("upgrading", &r, &Ok(()), &["M01"])?;
        cx.label("upgrading");
        if let Some((k, v)) = p.migrator {
            let b = self.app.block_info();
            let i = Inst { kind: Kind::Callback(vec![]), admin: 0, funds: 0 };
            let at = Addr::unchecked(format!("contract{}", self.m.next));
            verdict("the migrator".to_string(), &Ok::<_, String>(()), &self.m.add_module(&self.w, &b, &i))?;
            self.m.items.insert(key(k % 5), text(v | 1));
            let s: String = q(&self.app, &at, &json!({}))?;
            let s: Value = serde_json::from_str(&s).map_err(|e| Fail::new(e.to_string()))?;
            ensure_eq!(Some(s), told, "what the migrator is told");
            cx.label("with a migrator");
        }
        Ok(Some(self))
    }
}

fn past() -> BoxedStrategy<Past> {
    let m = |w: BoxedStrategy<Who>, m: BoxedStrategy<Msg>| (w, m).prop_map(|(w, m)| Op::Do(w, m));
    let f = Focus::Upgrade;
    let pages = |i: u8| prop_oneof![Just(0u8), 1u8..i];
    let op = prop_oneof![
        8 => m(any::<u8>().prop_map(Who::Enabled).boxed(), prop_oneof![5 => leaf(f).prop_map(|x| vec![x]), 1 => hooked(f)].prop_map(Msg::Hook).boxed()),
        2 => m(Just(Who::Admin).boxed(), prop_oneof![
            Just(Msg::Withdraw), (0u8..10).prop_map(|i| Msg::Nominate(Some(i))), Just(Msg::Nominate(None))
        ].boxed()),
        1 => m(Just(Who::Nominee).boxed(), Just(Msg::Accept).boxed()),
        1 => (0u8..2, 0u8..4, pages(20), any::<bool>()).prop_map(|(token, by, n, send)| Op::Cw20 { token, by, n, send }),
        1 => (0u8..4, any::<bool>()).prop_map(|(id, send)| Op::Nft { id, send }),
        2 => (1u8..30).prop_map(Op::Advance),
    ];
    (vec(op, 0..12), any::<Option<u8>>(), proptest::option::weighted(0.3, any::<(u8, u8)>()))
        .prop_map(|(ops, uri, migrator)| Past { ops, uri, migrator })
        .boxed()
}

impl Scenario for Core {
    type Case = Case;
    fn name(&self) -> &'static str {
        match self.0 {
            Focus::Authority => "core-authority",
            Focus::Registry => "core-registry",
            Focus::Upgrade => "core-upgrade",
        }
    }
    fn rule(&self) -> &'static str {
        match self.0 {
            Focus::Authority => {
                "the DAO acted at least twice, an attempt was refused for want of authority, and the DAO was paused or an admin was nominated"
            }
            Focus::Upgrade => {
                "a DAO of version 1 that had acted was upgraded, acted again, and an attempt was refused for want of authority"
            }
            Focus::Registry => {
                "the DAO acted at least twice, a module was added or disabled and another registry was changed after instantiation"
            }
        }
    }

    fn strategy(&self) -> BoxedStrategy<Case> {
        let f = self.0;
        let mods = prop_oneof![
            20 => vec(good_inst(), 1..4),
            3 => vec(any_inst(leaf(f)), 0..4),
        ];
        let voting = prop_oneof![
            20 => good_inst(),
            3 => any_inst(leaf(f)),
        ];
        (
            prop_oneof![3 => Just(None), 6 => (4u8..9).prop_map(Some), 1 => (0u8..10).prop_map(Some)],
            conf(),
            (voting, any::<u8>()),
            mods,
            prop_oneof![2 => Just(None), 2 => (0u8..6, any::<u8>()).prop_map(|x| Some(vec![x])), 1 => vec((0u8..6, any::<u8>()), 0..4).prop_map(Some)],
            if f == Focus::Upgrade { past().prop_map(Some).boxed() } else { Just(None).boxed() },
            vec(op(f), 1..if f == Focus::Upgrade { 16 } else { 26 }),
        )
            .prop_map(|(admin, conf, voting, modules, items, past, ops)| Case { admin, conf, voting, modules, items, past, ops })
            .boxed()
    }

    fn run(&self, case: &Case, cx: &mut Cx) -> R {
        let r = self.go(case, cx);
        if self.0 == Focus::Upgrade {
            return r.map_err(|f| f.tag(&["M01"]));
        }
        r
    }
}

impl Core {
    fn go(&self, case: &Case, cx: &mut Cx) -> R {
        let mut app = new_app();
        let tokens = [0, 1].map(|_| {
            new_cw20(&mut app, &(0..4).map(|i| (user(i), 1000)).collect::<Vec<_>>())
        });
        let nft_code = app.store_code(code::cw721());
        let nft = harness(inst(
            &mut app,
            nft_code,
            "deployer",
            &json!({"name": "n", "symbol": "n", "minter": "deployer"}),
            &[],
            None,
        ))?;
        // a second collection
        let nft2 = harness(inst(
            &mut app,
            nft_code,
            "deployer",
            &json!({"name": "n", "symbol": "n", "minter": "deployer"}),
            &[],
            None,
        ))?;
        for id in 0..4 {
            harness(exec(
                &mut app,
                "deployer",
                &nft,
                &json!({"mint": {"token_id": format!("{id}"), "owner": user(id), "token_uri": null, "extension": {}}}),
                &[],
            ))?;
        }
        let target = new_mock(&mut app);
        let mock = app.store_code(code::mock());
        let sudo_code = app.store_code(code::prop_sudo());
        let core_code = app.store_code(Box::new(
            cw_multi_test::ContractWrapper::new(
                dao_dao_core::contract::execute,
                dao_dao_core::contract::instantiate,
                dao_dao_core::contract::query,
            )
            .with_reply(dao_dao_core::contract::reply)
            .with_migrate(dao_dao_core::contract::migrate),
        ));
        // tokens, collections and the target come first
        let core = Addr::unchecked("contract5");
        let w = World {
            core: core.clone(),
            target: target.clone(),
            pool: vec![
                tokens[0].to_string(),
                tokens[1].to_string(),
                nft.to_string(),
                nft2.to_string(),
                user(0),
                user(1),
                user(2),
                user(3),
                core.to_string(),
                "NOT AN ADDRESS".into(),
            ],
            modules: vec![],
            mock,
            sudo: sudo_code,
            old: false,
        };
        fund_account(&mut app, "deployer", PURSE, DENOM);
        let b = app.block_info();

        // ---- instantiate
        let mut m = Model {
            core: core.to_string(),
            admin: case.admin.map(|i| w.name(i)).unwrap_or(core.to_string()),
            nominee: None,
            paused: None,
            config: config(&case.conf),
            items: BTreeMap::new(),
            cw20s: BTreeSet::new(),
            cw721s: BTreeSet::new(),
            subs: BTreeMap::new(),
            modules: BTreeMap::new(),
            created: 0,
            voting: None,
            next: 6,
            roots: BTreeMap::new(),
            chain_admin: BTreeMap::new(),
            count: 0,
            purse: (0..5).map(|i| (user(i), 0)).chain([(core.to_string(), PURSE)]).collect(),
            held: [0, 0],
            nfts: [false; 4],
        };
        if let Some(p) = &case.past {
            let s = Sut { app, w, tokens, nft, m };
            let Some(s) = s.upgraded(case, p, core_code, cx)? else { return Ok(()) };
            return self.history(s, case, core_code, cx);
        }
        let c = config(&case.conf);
        let init = json!({
            "admin": case.admin.map(|i| w.name(i)),
            "name": c.name,
            "description": c.description,
            "image_url": c.image_url,
            "automatically_add_cw20s": c.automatically_add_cw20s,
            "automatically_add_cw721s": c.automatically_add_cw721s,
            "voting_module_instantiate_info": w.inst(&case.voting.0, Some(case.voting.1)),
            "proposal_modules_instantiate_info": case.modules.iter().map(|i| w.inst(i, None)).collect::<Vec<_>>(),
            "initial_items": case.items.as_ref().map(|v| v.iter()
                .map(|(k, v)| json!({"key": key(*k), "value": text(*v)})).collect::<Vec<_>>()),
            "dao_uri": c.dao_uri,
        });
        let mut expect = || -> V {
            if !valid(&m.admin) {
                return Err(("the admin is no address", G1));
            }
            if case.modules.is_empty() {
                return Err(("there is no proposal module", G2));
            }
            for (k, v) in case.items.iter().flatten() {
                if m.items.insert(key(*k), text(*v)).is_some() {
                    return Err(("an item is given twice", G2));
                }
            }
            let addr = m.spawn(&case.voting.0)?;
            let p = if matches!(case.voting.0.kind, Kind::Plain) { case.voting.1 as u128 } else { 0 };
            m.voting = Some((addr, p));
            if let Kind::Callback(v) = &case.voting.0.kind {
                m.run(&w, &b, v)?;
            }
            for i in &case.modules {
                m.add_module(&w, &b, i)?;
            }
            Ok(())
        };
        let want = expect();
        let got = inst(&mut app, core_code, "deployer", &init, &coins(PURSE, DENOM), Some("migrator"));
        cx.log(|| format!("instantiate {init}: {got:?}, expected {want:?}"));
        verdict(format!("instantiate with {init}"), &got, &want)?;
        if want.is_err() {
            cx.label("instantiation refused");
            return Ok(());
        }
        ensure_eq!(got.unwrap(), core, "address of the DAO");
        let s = Sut { app, w, tokens, nft, m };
        self.history(s, case, core_code, cx)
    }

    fn history(&self, mut s: Sut, case: &Case, core_code: u64, cx: &mut Cx) -> R {
        s.check()?;
        let core = s.w.core.clone();
        let (mut acted, mut denied, mut ruled, mut modules, mut registry) = (0, 0, 0, 0, 0);
        for op in &case.ops {
            // modules in the order of their making
            let mut v: Vec<(usize, String)> = s
                .m
                .modules
                .keys()
                .map(|a| (a.trim_start_matches("contract").parse().unwrap(), a.clone()))
                .collect();
            v.sort();
            s.w.modules = v.into_iter().map(|x| x.1).collect();
            let b = s.app.block_info();
            let before = s.m.clone();
            match op {
                Op::Advance(n) => advance(&mut s.app, *n as u64, *n as u64 * 5),
                Op::Page { list, start, limit } => {
                    let start = start.map(|i| match list {
                        0 => ["a", "aa", "ab", "b", "é", "a\u{0}", "zz", "B"][i as usize % 8].to_string(),
                        1 | 2 | 3 | 6 => s.w.pool[i as usize % 9].clone(),
                        _ => s.w.module(i),
                    });
                    if start.is_some() || limit.is_some() {
                        cx.label("page");
                    }
                    s.check_list(*list, start, limit.map(|l| l as u32))?;
                    continue;
                }
                Op::Migrate { v1 } => {
                    let msg = if *v1 {
                        json!({"from_v1": {"dao_uri": "x", "params": null}})
                    } else {
                        json!({"from_compatible": {}})
                    };
                    let r = s.app.migrate_contract(Addr::unchecked("migrator"), core.clone(), &msg, core_code);
                    let r = r.map_err(|e| format!("{e:#}"));
                    let want = if *v1 { Err("already at this version") } else { Ok(()) };
                    agree("migrate", &r, &want, G12)?;
                    cx.label("migrate");
                }
                Op::Cw20 { token, by, n, send } => {
                    let (i, n) = (*token as usize, *n as u128);
                    let by = user(*by as usize);
                    if cw20_balance(&s.app, &s.tokens[i], &by) < n {
                        continue;
                    }
                    let (msg, want) = if *send {
                        let t = s.tokens[i].to_string();
                        let want = s.m.ask(&s.w, &b, &t, &Msg::Receive);
                        (json!({"send": {"contract": core, "amount": Uint128::new(n), "msg": ""}}), want)
                    } else {
                        (json!({"transfer": {"recipient": core, "amount": Uint128::new(n)}}), Ok(()))
                    };
                    if want.is_ok() {
                        s.m.held[i] += n;
                        cx.label(if *send { "tokens sent" } else { "tokens transferred" });
                    }
                    let r = exec(&mut s.app, &by, &s.tokens[i].clone(), &msg, &[]);
                    cx.log(|| format!("{by} {msg}: {r:?}, expected {want:?}"));
                    verdict(format!("{by}: {msg}"), &r, &want)?;
                    if want.is_err() {
                        s.m = before.clone();
                    }
                }
                Op::Nft { id, send } => {
                    let i = *id as usize;
                    if s.m.nfts[i] {
                        continue;
                    }
                    let (msg, want) = if *send {
                        let t = s.nft.to_string();
                        let want = s.m.ask(&s.w, &b, &t, &Msg::ReceiveNft);
                        (json!({"send_nft": {"contract": core, "token_id": format!("{i}"), "msg": ""}}), want)
                    } else {
                        (json!({"transfer_nft": {"recipient": core, "token_id": format!("{i}")}}), Ok(()))
                    };
                    if want.is_ok() {
                        s.m.nfts[i] = true;
                    }
                    let r = exec(&mut s.app, &user(i), &s.nft.clone(), &msg, &[]);
                    verdict(format!("user{i}: {msg}"), &r, &want)?;
                    if want.is_err() {
                        s.m = before.clone();
                    }
                }
                Op::Do(..) | Op::Sudo { .. } => {
                    let (by, to, json, want, what) = match op {
                        Op::Do(who, msg) => {
                            let on: Vec<&String> = s.m.modules.iter().filter(|m| m.1 .0).map(|m| m.0).collect();
                            let by = match who {
                                Who::User(i) => user(*i as usize),
                                Who::Module(i) => s.w.module(*i),
                                Who::Enabled(i) => on[*i as usize % on.len()].clone(),
                                Who::Token(i) => s.w.pool[*i as usize % 4].clone(),
                                Who::Voting => s.m.voting.clone().unwrap().0,
                                Who::Admin => s.m.admin.clone(),
                                Who::Nominee => s.m.nominee.clone().unwrap_or("nobody".into()),
                                Who::Migrator => "migrator".into(),
                            };
                            // the DAO itself acts only through one of its modules
                            let (by, msg) = if by == s.m.core {
                                (on[0].clone(), Msg::Hook(vec![msg.clone()]))
                            } else {
                                (by, msg.clone())
                            };
                            let want = s.m.ask(&s.w, &b, &by, &msg);
                            (by, core.clone(), s.w.json(&msg), want, msg)
                        }
                        Op::Sudo { module, by, rooted, msgs } => {
                            if s.m.roots.is_empty() {
                                continue;
                            }
                            let at = *module as usize % s.m.roots.len();
                            let (addr, root) = s.m.roots.iter().nth(at).unwrap();
                            let (addr, root) = (addr.clone(), root.clone());
                            let by = if *rooted { root.clone() } else { user(*by as usize) };
                            let want = if by != root {
                                Err(("only the root may", G1))
                            } else {
                                s.m.ask(&s.w, &b, &addr, &Msg::Hook(msgs.clone()))
                            };
                            let v: Vec<_> = msgs.iter().map(|x| s.w.cosmos(x)).collect();
                            cx.label("through a sudo module");
                            (by, Addr::unchecked(addr), json!({"execute": {"msgs": v}}), want, Msg::Hook(msgs.clone()))
                        }
                        _ => unreachable!(),
                    };
                    let r = exec(&mut s.app, &by, &to, &json, &[]);
                    cx.log(|| format!("{by} asks {to} for {json}: {:?}, expected {want:?}", r.as_ref().map(|_| ())));
                    verdict(format!("{by} asks {to} for {json}"), &r, &want)?;
                    match want {
                        Err((why, tags)) => {
                            s.m = before.clone();
                            if tags == G1 {
                                denied += 1;
                            }
                            if why == "the DAO is paused" {
                                cx.label("refused for the pause");
                            }
                            if why == "no module would be left" {
                                cx.label("refused to disable the last module");
                            }
                            if why == "the module cannot be made" {
                                cx.label("failed module rolled back");
                            }
                        }
                        Ok(()) => {
                            if matches!(what, Msg::Hook(_) | Msg::AdminMsgs(_)) {
                                acted += 1;
                                if before.is_paused(&b) {
                                    cx.label("admin acted while paused");
                                }
                            }
                            let n = &s.m;
                            if n.is_paused(&b) || n.nominee != before.nominee {
                                ruled += 1;
                            }
                            if n.is_paused(&b) && !before.is_paused(&b) {
                                cx.label("paused");
                            }
                            if before.is_paused(&b) && !n.is_paused(&b) {
                                cx.label("unpaused");
                            }
                            if n.nominee.is_none() && before.nominee.as_ref() == Some(&n.admin) {
                                cx.label("nomination accepted");
                            }
                            if n.modules != before.modules {
                                modules += 1;
                                cx.label("modules changed");
                                if n.active() < before.active() {
                                    cx.label("modules disabled");
                                }
                            }
                            if n.created > 26 {
                                cx.label("beyond prefix Z");
                            }
                            if n.items != before.items || n.cw20s != before.cw20s || n.cw721s != before.cw721s || n.subs != before.subs {
                                registry += 1;
                                cx.label("registry changed");
                            }
                        }
                    }
                }
            }
            if before.paused.is_some() && !before.is_paused(&s.app.block_info()) {
                cx.label("pause ran out");
            }
            s.check()?;
        }
        cx.nontrivial = match self.0 {
            Focus::Authority => acted >= 2 && denied >= 1 && ruled >= 1,
            Focus::Registry => acted >= 2 && modules >= 1 && registry >= 1,
            Focus::Upgrade => cx.has("acted-before") && acted >= 1 && denied >= 1,
        };
        Ok(())
    }
}
