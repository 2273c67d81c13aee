//! Pre-propose modules: deposits and submission policy, against an exact model of
//! balances, policies and configuration.

use cosmwasm_std::{coin, coins, to_json_binary, Addr, BankMsg, Coin, CosmosMsg, Empty};
use cw_multi_test::{Contract, ContractWrapper};
use cw_denom::{CheckedDenom, UncheckedDenom};
use dao_pre_propose_base::msg::DepositInfoResponse;
use dao_pre_propose_base::state::Config as PreConfig;
use dao_voting::deposit::{CheckedDepositInfo, DepositRefundPolicy};
use dao_voting::pre_propose::PreProposeSubmissionPolicy;
use dao_voting::status::Status;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

use super::common::*;
use super::upgrade::migrate_to;
use crate::env::*;
use crate::fw::*;

/// 0,1 native; 2,3 cw20; 4 the voting module's native token, 5 its cw20;
/// 6 malformed native, 7 not a cw20
pub type Tok = u8;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DepSpec {
    pub tok: Tok,
    pub amount: u128,
    /// 0 always, 1 only passed, 2 never
    pub refund: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PolSpec {
    Anyone { deny: u8 },
    Specific { members: bool, allow: u8, deny: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Bump,
    Fail,
    Send(u8),
    Withdraw { pre: u8, tok: Option<Tok> },
    Config { pre: u8, dep: Option<DepSpec>, pol: Option<PolSpec> },
    /// what `Config` becomes when it is put to a module of version 2.4.1
    OldConfig { pre: u8, dep: Option<DepSpec>, open: bool },
    Policy { pre: u8, deny_add: Option<u8>, deny_rm: Option<u8>, members: Option<bool>, allow_add: Option<u8>, allow_rm: Option<u8> },
    /// subscribe to, or unsubscribe from, submissions
    Hook { pre: u8, add: bool, which: u8 },
    /// None: anyone may propose
    Module(Option<(Option<DepSpec>, PolSpec)>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Funds {
    Exact,
    Less,
    More,
    Other,
    Extra,
    Nothing,
    Stray,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Submit { by: u8, pre: u8, funds: Funds, vote: Option<bool>, msgs: Vec<Act> },
    /// a wallet submits twice in one transaction
    Twice { pre: u8, msgs: Vec<Act> },
    Direct { by: u8, named: Option<u8>, msgs: Vec<Act> },
    Vote { by: u8, prop: u8, yes: bool },
    Decide { prop: u8, yes: bool },
    Execute { by: u8, prop: u8 },
    Close { by: u8, prop: u8 },
    Veto { prop: u8 },
    Admin { by: u8, act: Act },
    Fake { by: u8, pre: u8, prop: u8, status: u8 },
    Extension { by: u8, pre: u8 },
    Allowance { by: u8, pre: u8, tok: bool, amount: u32 },
    Power { who: u8, power: u8 },
    Active(bool),
    /// the voting module does not know the question whether the DAO is active
    Mute(bool),
    Break { which: u8, fail: bool },
    Advance(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub multi: bool,
    pub close_fail: bool,
    pub veto: Option<u8>,
    pub pre: Option<(Option<DepSpec>, PolSpec)>,
    pub powers: [u8; 4],
    pub ops: Vec<Op>,
    #[serde(default)]
    pub past: Option<Past>,
}

/// The first module is of version 2.4.1, and is upgraded before the given operation.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Past {
    pub at: u8,
    pub pol: Option<PolSpec>,
}
fn past() -> BoxedStrategy<Past> {
    (0u8..24, prop::option::weighted(0.6, pol())).prop_map(|(at, pol)| Past { at, pol }).boxed()
}

const USERS: usize = 5; // user4 is the wallet contract
const START: u128 = 1000;

fn dep() -> BoxedStrategy<DepSpec> {
    (
        prop_oneof![5 => 0u8..2, 5 => 2u8..4, 2 => 4u8..6],
        prop_oneof![8 => 1u128..=40, 1 => Just(1u128), 1 => 990u128..=1010],
        0u8..3,
    )
        .prop_map(|(tok, amount, refund)| DepSpec { tok, amount, refund })
        .boxed()
}
fn dep_any() -> BoxedStrategy<DepSpec> {
    prop_oneof![
        12 => dep(),
        1 => (dep(), 6u8..8).prop_map(|(mut d, t)| { d.tok = t; d }),
        1 => dep().prop_map(|mut d| { d.amount = 0; d }),
    ]
    .boxed()
}
fn mask() -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(0u8), 4 => (0u8..5).prop_map(|i| 1 << i), 2 => 0u8..32].boxed()
}
fn pol() -> BoxedStrategy<PolSpec> {
    prop_oneof![
        3 => mask().prop_map(|deny| PolSpec::Anyone { deny }),
        4 => (any::<bool>(), mask(), mask()).prop_map(|(members, allow, deny)| PolSpec::Specific { members: members || allow == 0, allow, deny: deny & !allow }),
        1 => (any::<bool>(), mask(), mask()).prop_map(|(members, allow, deny)| PolSpec::Specific { members, allow, deny }),
    ]
    .boxed()
}
fn pre_i() -> BoxedStrategy<u8> {
    prop_oneof![14 => Just(0u8), 2 => 0u8..3].boxed()
}
fn act(f: Focus) -> BoxedStrategy<Act> {
    let (w, p, h) = match f {
        Focus::Deposits => (6, 3, 1),
        Focus::Policy => (1, 10, 5),
        Focus::Upgrade => (4, 4, 2),
    };
    prop_oneof![
        3 => Just(Act::Bump),
        1 => Just(Act::Fail),
        2 => (1u8..=30).prop_map(Act::Send),
        w => (pre_i(), prop::option::weighted(0.7, 0u8..4)).prop_map(|(pre, tok)| Act::Withdraw { pre, tok }),
        4 => (pre_i(), prop::option::weighted(0.8, dep_any()), prop::option::weighted(0.4, pol())).prop_map(|(pre, dep, pol)| Act::Config { pre, dep, pol }),
        p => (pre_i(), prop::option::of(mask()), prop::option::weighted(0.4, mask()), prop::option::weighted(0.3, any::<bool>()), prop::option::weighted(0.4, mask()), prop::option::weighted(0.3, mask()))
            .prop_map(|(pre, deny_add, deny_rm, members, allow_add, allow_rm)| Act::Policy { pre, deny_add, deny_rm, members, allow_add, allow_rm }),
        h => (pre_i(), prop::bool::weighted(0.6), prop_oneof![4 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)]).prop_map(|(pre, add, which)| Act::Hook { pre, add, which }),
        2 => prop::option::weighted(0.75, (prop::option::weighted(0.8, dep_any()), pol())).prop_map(Act::Module),
    ]
    .boxed()
}
fn msgs(f: Focus) -> BoxedStrategy<Vec<Act>> {
    prop_oneof![
        4 => prop::collection::vec(Just(Act::Bump), 0..2),
        2 => Just(vec![Act::Bump, Act::Fail]),
        4 => prop::collection::vec(act(f), 1..3),
    ]
    .boxed()
}
fn funds() -> BoxedStrategy<Funds> {
    prop_oneof![
        30 => Just(Funds::Exact),
        1 => Just(Funds::Less),
        1 => Just(Funds::More),
        1 => Just(Funds::Other),
        1 => Just(Funds::Extra),
        1 => Just(Funds::Nothing),
        1 => Just(Funds::Stray),
    ]
    .boxed()
}
fn op(f: Focus) -> BoxedStrategy<Op> {
    let pi = || prop_oneof![20 => 0u8..4, 1 => Just(77u8)];
    let (ws, wd, wa) = match f {
        Focus::Deposits => (9, 1, 2),
        Focus::Policy => (9, 4, 6),
        Focus::Upgrade => (9, 1, 3),
    };
    prop_oneof![
        ws => (0u8..4, prop_oneof![12 => Just(0u8), 1 => 1u8..3], funds(), prop::option::weighted(0.2, any::<bool>()), msgs(f))
            .prop_map(|(by, pre, funds, vote, msgs)| Op::Submit { by, pre, funds, vote, msgs }),
        1 => (pre_i(), msgs(f)).prop_map(|(pre, msgs)| Op::Twice { pre, msgs }),
        wd => (0u8..4, prop::option::weighted(0.3, 0u8..4), msgs(f)).prop_map(|(by, named, msgs)| Op::Direct { by, named, msgs }),
        1 => (0u8..5, pi(), any::<bool>()).prop_map(|(by, prop, yes)| Op::Vote { by, prop, yes }),
        10 => (0u8..4, prop::bool::weighted(0.6)).prop_map(|(prop, yes)| Op::Decide { prop, yes }),
        11 => (0u8..5, pi()).prop_map(|(by, prop)| Op::Execute { by, prop }),
        7 => (0u8..5, pi()).prop_map(|(by, prop)| Op::Close { by, prop }),
        3 => pi().prop_map(|prop| Op::Veto { prop }),
        wa => (prop_oneof![5 => Just(9u8), 1 => 0u8..5], act(f)).prop_map(|(by, act)| Op::Admin { by, act }),
        1 => (0u8..5, pre_i(), pi(), 0u8..3).prop_map(|(by, pre, prop, status)| Op::Fake { by, pre, prop, status }),
        1 => (0u8..5, pre_i()).prop_map(|(by, pre)| Op::Extension { by, pre }),
        1 => (0u8..5, pre_i(), any::<bool>(), 0u32..60).prop_map(|(by, pre, tok, amount)| Op::Allowance { by, pre, tok, amount }),
        1 => (0u8..4, prop_oneof![Just(0u8), 1u8..5]).prop_map(|(who, power)| Op::Power { who, power }),
        1 => prop::bool::weighted(0.7).prop_map(Op::Active),
        1 => any::<bool>().prop_map(Op::Mute),
        1 => (0u8..2, prop::bool::weighted(0.4)).prop_map(|(which, fail)| Op::Break { which, fail }),
        3 => (1u8..4).prop_map(Op::Advance),
    ]
    .boxed()
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Deposits,
    Policy,
    Upgrade,
}

pub struct Pre(pub Focus);

#[derive(Clone, Debug)]
struct Dep {
    /// token 0..4
    tok: usize,
    amount: u128,
    refund: u8,
}

#[derive(Clone, Debug)]
struct Module {
    addr: Option<Addr>,
    dep: Option<Dep>,
    pol: PolSpec,
    deposits: BTreeMap<u64, (Option<Dep>, usize)>,
    /// still of version 2.4.1
    old: bool,
    /// proposals whose deposits it took then
    before: Vec<u64>,
    /// who is told of submissions
    hooks: Vec<u8>,
}

#[derive(Clone, Debug)]
struct Prop {
    proposer: usize,
    msgs: Vec<Act>,
    targets: Vec<usize>,
    done: bool,
}

#[derive(Clone, Debug)]
struct Model {
    mods: Vec<Module>,
    current: Option<usize>,
    props: Vec<Prop>,
    /// account -> balances of tokens 0..4; accounts: users 0..5, DAO, sink, then modules
    bal: Vec<[u128; 4]>,
    /// (user, module, cw20 0/1) -> allowance
    allow: BTreeMap<(usize, usize, usize), u128>,
    bumps: u64,
    active: bool,
    mute: bool,
    tok: [Option<u8>; 2],
    /// what the two subscribers were told, and whether they refuse it
    told: [Vec<Value>; 2],
    refuse: [bool; 2],
}

const DAO: usize = USERS;
const SINK: usize = USERS + 1;
const MODS: usize = USERS + 2;

struct World {
    app: VApp,
    core: Addr,
    voting: Addr,
    pm: Pm,
    pre_code: u64,
    /// while the first module is being made: the code of version 2.4.1
    old_code: Option<u64>,
    cw20: [Addr; 2],
    target: Addr,
    wallet: Addr,
    recv: [Addr; 2],
}

const DEN: [&str; 2] = ["uaa", "ubb"];

impl World {
    fn user(&self, i: usize) -> String {
        if i == 4 {
            self.wallet.to_string()
        } else {
            user(i)
        }
    }
    fn addr(&self, md: &Model, acc: usize) -> String {
        match acc {
            DAO => self.core.to_string(),
            SINK => "sink".into(),
            i if i >= MODS => md.mods[i - MODS].addr.clone().unwrap().to_string(),
            i => self.user(i),
        }
    }
    /// Subscriber 2 is a wallet's address: it understands nothing.
    fn subscriber(&self, which: u8) -> String {
        self.recv.get(which as usize).map_or("sink".into(), |a| a.to_string())
    }
    fn names(&self, mask: u8) -> Vec<Addr> {
        (0..5).filter(|i| mask >> i & 1 == 1).map(|i| Addr::unchecked(self.user(i))).collect()
    }
    fn denom(&self, tok: Tok) -> Value {
        match tok {
            0 | 1 => json!({"token": {"denom": {"native": DEN[tok as usize]}}}),
            2 | 3 => json!({"token": {"denom": {"cw20": self.cw20[tok as usize - 2]}}}),
            4 => json!({"voting_module_token": {"token_type": "native"}}),
            5 => json!({"voting_module_token": {"token_type": "cw20"}}),
            6 => json!({"token": {"denom": {"native": "1!"}}}),
            _ => json!({"token": {"denom": {"cw20": self.target}}}),
        }
    }
    fn dep(&self, d: &DepSpec) -> Value {
        json!({
            "denom": self.denom(d.tok),
            "amount": d.amount.to_string(),
            "refund_policy": (["always", "only_passed", "never"][d.refund as usize]),
        })
    }
    fn pol(&self, p: &PolSpec) -> PreProposeSubmissionPolicy {
        match p {
            PolSpec::Anyone { deny } => PreProposeSubmissionPolicy::Anyone { denylist: self.names(*deny) },
            PolSpec::Specific { members, allow, deny } => PreProposeSubmissionPolicy::Specific {
                dao_members: *members,
                allowlist: self.names(*allow),
                denylist: self.names(*deny),
            },
        }
    }
    fn pre_init(&self, d: &Option<DepSpec>, p: &PolSpec) -> Value {
        if let Some(code) = self.old_code {
            let m = json!({
                "deposit_info": d.as_ref().map(|d| self.dep(d)),
                "open_proposal_submission": matches!(p, PolSpec::Anyone { .. }),
                "extension": {},
            });
            return pre_info(code, to_json_binary(&m).unwrap());
        }
        let m = json!({
            "deposit_info": d.as_ref().map(|d| self.dep(d)),
            "submission_policy": self.pol(p),
            "extension": {},
        });
        pre_info(self.pre_code, to_json_binary(&m).unwrap())
    }
    fn power(&self, who: usize) -> u128 {
        let r: dao_interface::voting::VotingPowerAtHeightResponse = self
            .app
            .wrap()
            .query_wasm_smart(&self.voting, &MockQuery::VotingPowerAtHeight { address: self.user(who), height: None })
            .unwrap();
        r.power.u128()
    }
    /// The message by which the DAO does this; `pre` fields already resolved.
    fn act_msg(&self, md: &Model, a: &Act, target: usize) -> CosmosMsg {
        let pre = |v: Value| {
            match md.mods.get(target).and_then(|m| m.addr.clone()) {
                Some(to) => wasm_msg(&to, &v),
                None => wasm_msg(&self.target, &MockMsg::Fail {}),
            }
        };
        let names = |m: &Option<u8>| m.map(|m| self.names(m));
        match a {
            Act::Bump => wasm_msg(&self.target, &MockMsg::Bump {}),
            Act::Fail => wasm_msg(&self.target, &MockMsg::Fail {}),
            Act::Send(n) => BankMsg::Send { to_address: "sink".into(), amount: coins(*n as u128, DEN[0]) }.into(),
            Act::Withdraw { tok, .. } => pre(json!({"withdraw": {"denom": tok.map(|t| self.denom(t)["token"]["denom"].clone())}})),
            Act::OldConfig { dep, open, .. } => pre(json!({"update_config": {
                "deposit_info": dep.as_ref().map(|d| self.dep(d)),
                "open_proposal_submission": open,
            }})),
            Act::Config { dep, pol, .. } => pre(json!({"update_config": {
                "deposit_info": dep.as_ref().map(|d| self.dep(d)),
                "submission_policy": pol.as_ref().map(|p| self.pol(p)),
            }})),
            Act::Policy { deny_add, deny_rm, members, allow_add, allow_rm, .. } => pre(json!({"update_submission_policy": {
                "denylist_add": names(deny_add),
                "denylist_remove": names(deny_rm),
                "set_dao_members": members,
                "allowlist_add": names(allow_add),
                "allowlist_remove": names(allow_rm),
            }})),
            Act::Hook { add, which, .. } => {
                let to = json!({"address": self.subscriber(*which)});
                pre(if *add { json!({"add_proposal_submitted_hook": to}) } else { json!({"remove_proposal_submitted_hook": to}) })
            }
            Act::Module(None) => wasm_msg(&self.pm.addr, &json!({"update_pre_propose_info": {"info": {"anyone_may_propose": {}}}})),
            Act::Module(Some((d, p))) => wasm_msg(&self.pm.addr, &json!({"update_pre_propose_info": {"info": self.pre_init(d, p)}})),
        }
    }
}

type V<T = ()> = Result<T, &'static str>;

impl Model {
    fn checked(&self, d: &Option<DepSpec>) -> V<Option<Dep>> {
        let Some(d) = d else { return Ok(None) };
        if d.amount == 0 {
            return Err("zero deposit");
        }
        let tok = match d.tok {
            t @ 0..=3 => t,
            4 => self.tok[0].ok_or("voting module has no native token")?,
            5 => self.tok[1].ok_or("voting module has no cw20")?,
            6 => return Err("malformed denomination"),
            _ => return Err("not a cw20"),
        };
        Ok(Some(Dep { tok: tok as usize, amount: d.amount, refund: d.refund }))
    }
    fn valid(p: &PolSpec) -> V {
        if let PolSpec::Specific { members, allow, deny } = p {
            if allow & deny != 0 {
                return Err("allow and deny list overlap");
            }
            if !members && *allow == 0 {
                return Err("nobody could submit");
            }
        }
        Ok(())
    }
    fn transfer(&mut self, from: usize, to: usize, tok: usize, n: u128) -> V {
        if self.bal[from][tok] < n {
            return Err("balance too small");
        }
        self.bal[from][tok] -= n;
        self.bal[to][tok] += n;
        Ok(())
    }
    /// What a policy comes to in version 2.4.1: anybody, or members only.
    fn coarse(open: bool) -> PolSpec {
        match open {
            true => PolSpec::Anyone { deny: 0 },
            false => PolSpec::Specific { members: true, allow: 0, deny: 0 },
        }
    }
    fn act(&mut self, a: &Act, target: usize) -> V {
        let no = "no such module";
        let old = self.mods.get(target).is_some_and(|m| m.old);
        match a {
            Act::Policy { .. } if old => return Err("no policies yet"),
            Act::OldConfig { .. } if !old => return Err("a message for the version of before"),
            Act::OldConfig { dep, open, .. } => {
                let d = self.checked(dep)?;
                let m = &mut self.mods[target];
                m.dep = d;
                m.pol = Self::coarse(*open);
            }
            Act::Bump => self.bumps += 1,
            Act::Fail => return Err("message fails"),
            Act::Send(n) => self.transfer(DAO, SINK, 0, *n as u128)?,
            Act::Withdraw { tok, .. } => {
                let m = self.mods.get(target).ok_or(no)?;
                let t = match tok {
                    Some(t) => *t as usize,
                    None => m.dep.as_ref().ok_or("no denomination to withdraw")?.tok,
                };
                let n = self.bal[MODS + target][t];
                if n == 0 {
                    return Err("nothing to withdraw");
                }
                self.transfer(MODS + target, DAO, t, n)?;
            }
            Act::Config { dep, pol, .. } => {
                let d = self.checked(dep)?;
                if let Some(p) = pol {
                    Self::valid(p)?;
                }
                let m = self.mods.get_mut(target).ok_or(no)?;
                m.dep = d;
                if let Some(p) = pol {
                    m.pol = p.clone();
                }
            }
            Act::Policy { deny_add, deny_rm, members, allow_add, allow_rm, .. } => {
                let m = self.mods.get_mut(target).ok_or(no)?;
                let ed = |l: &mut u8, add: &Option<u8>, rm: &Option<u8>| {
                    *l = (*l | add.unwrap_or(0)) & !rm.unwrap_or(0);
                };
                let mut p = m.pol.clone();
                match &mut p {
                    PolSpec::Anyone { deny } => {
                        if members.is_some() || allow_add.is_some() || allow_rm.is_some() {
                            return Err("anyone may submit: only a deny list applies");
                        }
                        ed(deny, deny_add, deny_rm);
                    }
                    PolSpec::Specific { members: mm, allow, deny } => {
                        if let Some(x) = members {
                            *mm = *x;
                        }
                        ed(allow, allow_add, allow_rm);
                        ed(deny, deny_add, deny_rm);
                    }
                }
                Self::valid(&p)?;
                m.pol = p;
            }
            Act::Hook { add, which, .. } => {
                let m = self.mods.get_mut(target).ok_or(no)?;
                match (m.hooks.iter().position(|x| x == which), add) {
                    (Some(_), true) => return Err("subscribed already"),
                    (None, false) => return Err("not subscribed"),
                    (Some(i), false) => {
                        m.hooks.remove(i);
                    }
                    (None, true) => m.hooks.push(*which),
                }
            }
            Act::Module(None) => self.current = None,
            Act::Module(Some((d, p))) => {
                let d = self.checked(d)?;
                Self::valid(p)?;
                self.mods.push(Module { addr: None, dep: d, pol: p.clone(), deposits: BTreeMap::new(), old: false, before: vec![], hooks: vec![] });
                self.bal.push([0; 4]);
                self.current = Some(self.mods.len() - 1);
            }
        }
        Ok(())
    }
    fn may_submit(&self, w: &World, m: usize, who: usize) -> bool {
        let bit = 1u8 << who;
        match &self.mods[m].pol {
            PolSpec::Anyone { deny } => deny & bit == 0,
            PolSpec::Specific { members, allow, deny } => {
                deny & bit == 0 && (allow & bit != 0 || (*members && w.power(who) > 0))
            }
        }
    }
    /// One submission through module m, native coins `paid` already checked for balance.
    fn submit(&mut self, w: &World, m: usize, who: usize, paid: &[(usize, u128)], vote: bool, p: Prop, told: Value) -> V {
        for (t, n) in paid {
            self.transfer(who, MODS + m, *t, *n)?;
        }
        if !self.may_submit(w, m, who) {
            return Err("policy forbids");
        }
        let dep = self.mods[m].dep.clone();
        if let Some(d) = &dep {
            if d.tok < 2 && paid != [(d.tok, d.amount)] {
                return Err("deposit not paid exactly");
            }
        }
        if self.current != Some(m) {
            return Err("module not installed");
        }
        if !self.active && !self.mute {
            return Err("DAO inactive");
        }
        if vote && w.power(who) == 0 {
            return Err("no power to vote");
        }
        if let Some(d) = &dep {
            if d.tok >= 2 {
                let a = self.allow.entry((who, m, d.tok - 2)).or_default();
                if *a < d.amount {
                    return Err("allowance too small");
                }
                *a -= d.amount;
                self.transfer(who, MODS + m, d.tok, d.amount)?;
            }
        }
        for h in self.mods[m].hooks.clone() {
            match self.refuse.get(h as usize) {
                Some(false) => self.told[h as usize].push(json!({
                    "from": self.mods[m].addr, "funds": [], "height": w.app.block_info().height, "msg": {"propose": told},
                })),
                _ => return Err("a subscriber refuses"),
            }
        }
        self.props.push(p);
        let id = self.props.len() as u64;
        self.mods[m].deposits.insert(id, (dep, who));
        Ok(())
    }
    /// The deposit of a completed proposal is settled by the module installed when it
    /// completed; if that module cannot, it is dropped. Returns whether it was dropped.
    fn settle(&mut self, installed: Option<usize>, id: u64, passed: bool, cx: &mut Cx) -> bool {
        let Some(m) = installed else { return false };
        if let Some((Some(d), who)) = self.mods[m].deposits.get(&id).cloned() {
            let refund = match d.refund {
                0 => true,
                1 => passed,
                _ => false,
            };
            let to = if refund { who } else { DAO };
            if self.transfer(MODS + m, to, d.tok, d.amount).is_err() {
                cx.label("deposit-gone");
                if self.current == Some(m) {
                    self.current = None;
                }
                return true;
            }
            cx.label(if refund { "refunded" } else { "deposit-to-dao" });
            if m == 0 && cx.has("upgrading") && self.mods[0].before.contains(&id) {
                cx.label("old-deposit-settled");
            }
            if d.tok >= 2 {
                cx.label("cw20-deposit-settled");
            }
            if self.mods[m].dep.as_ref().map(|x| (x.tok, x.amount, x.refund)) != Some((d.tok, d.amount, d.refund)) {
                cx.label("settled-after-config-change");
            }
        }
        false
    }
}

impl Scenario for Pre {
    type Case = Case;
    fn name(&self) -> &'static str {
        match self.0 {
            Focus::Upgrade => "prepropose-upgrade",
            _ => "prepropose",
        }
    }
    fn rule(&self) -> &'static str {
        match self.0 {
            Focus::Upgrade => "a pre-propose module of version 2.4.1 was upgraded, and a deposit made before was settled afterwards, or submissions were made both before and after",
            Focus::Deposits => "at least two deposits were settled, or one after a configuration change or with others open",
            Focus::Policy => "submissions were both accepted and refused, and the policy or the module changed",
        }
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let f = self.0;
        (
            any::<bool>(),
            any::<bool>(),
            prop::option::weighted(0.3, 0u8..3),
            prop::option::weighted(0.9, (prop::option::weighted(0.85, dep()), pol())),
            [1u8..5, 0u8..5, 0u8..5, 0u8..2],
            prop::collection::vec(op(f), 12..45),
            if f == Focus::Upgrade { past().prop_map(Some).boxed() } else { Just(None).boxed() },
        )
            .prop_map(move |(multi, close_fail, veto, mut pre, powers, ops, past)| {
                if f == Focus::Upgrade {
                    let (_, p) = pre.get_or_insert((None, PolSpec::Anyone { deny: 0 }));
                    *p = Model::coarse(matches!(p, PolSpec::Anyone { .. }));
                }
                Case { multi, close_fail, veto, pre, powers, ops, past }
            })
            .boxed()
    }

    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        let r = self.go(c, cx);
        if self.0 == Focus::Upgrade && cx.has("upgrading") {
            return r.map_err(|f| if f.sig.is_some() || f.tags.is_empty() { f } else { f.tag(&["M01"]) });
        }
        r
    }
}

impl Pre {
    fn go(&self, c: &Case, cx: &mut Cx) -> R {
        let mut app = new_app();
        let wallet = new_mock(&mut app);
        let name = |i: usize| if i == 4 { wallet.to_string() } else { user(i) };
        let balances: Vec<_> = (0..USERS).map(|i| (name(i), START)).collect();
        let cw20 = [new_cw20(&mut app, &balances), new_cw20(&mut app, &balances)];
        for i in 0..USERS {
            for d in DEN {
                fund_account(&mut app, &name(i), START, d);
            }
        }
        let target = new_mock(&mut app);
        let recv = [new_mock(&mut app), new_mock(&mut app)];
        let powers: Vec<_> = (0..4).map(|i| (user(i), c.powers[i] as u128)).collect();
        let voting = mock_voting(&mut app, &powers);
        let pm_code = app.store_code(Pm::code(c.multi));
        let pre_code = app.store_code(Pm::pre_code(c.multi));
        let mut w = World {
            app,
            core: target.clone(),
            voting: target.clone(),
            pm: Pm { multi: c.multi, addr: target.clone() },
            pre_code,
            old_code: None,
            cw20,
            target,
            wallet,
            recv,
        };
        let mut md = Model {
            mods: vec![],
            current: None,
            props: vec![],
            bal: vec![[0; 4]; MODS],
            allow: BTreeMap::new(),
            bumps: 0,
            active: true,
            mute: false,
            tok: [None, None],
            told: [vec![], vec![]],
            refuse: [false; 2],
        };
        for i in 0..USERS {
            md.bal[i] = [START; 4];
        }
        let veto = c.veto.map(|d| json!({
            "timelock_duration": {"height": d}, "vetoer": "vetoer", "early_execute": true, "veto_before_passed": true,
        }));
        let mut want = Ok(());
        let info = match &c.pre {
            None => json!({"anyone_may_propose": {}}),
            Some((d, p)) => {
                // the voting module cannot have been told about its token yet
                want = md.act(&Act::Module(Some((d.clone(), p.clone()))), 0);
                if c.past.is_some() {
                    w.old_code = Some(w.app.store_code(pre_v241(c.multi)));
                    md.mods.iter_mut().for_each(|m| m.old = true);
                }
                let v = w.pre_init(d, p);
                w.old_code = None;
                v
            }
        };
        let init = Pm::init(c.multi, c.close_fail, 8, false, info, veto);
        let r = new_dao(&mut w.app, voting, vec![module(pm_code, init)]);
        agree(format!("creating the DAO with {:?}", c.pre), &r, &want, &["P07", "P08"])?;
        let Ok(dao) = r else {
            cx.label("bad-setup");
            return Ok(());
        };
        w.core = dao.core.clone();
        w.voting = dao.voting.clone();
        w.pm.addr = dao.modules[0].clone();
        fund_account(&mut w.app, dao.core.as_str(), 100, DEN[0]);
        md.bal[DAO][0] = 100;
        // from now on the voting module answers for ub and the second cw20
        let tok = MockMsg::SetToken { cw20: Some(w.cw20[1].to_string()), denom: Some(DEN[1].into()) };
        harness(exec(&mut w.app, "x", &dao.voting, &tok, &[]))?;
        md.tok = [Some(1), Some(3)];
        self.learn(&mut w, &mut md, None)?;
        self.compare(&w, &md, 0)?;

        for (step, o) in c.ops.iter().enumerate() {
            let step = step + 1;
            if let (Some(p), Some(m)) = (&c.past, md.mods.first()) {
                if m.old && step > p.at as usize {
                    self.upgrade(&mut w, &mut md, p, cx)?;
                    self.compare(&w, &md, step)?;
                }
            }
            cx.log(|| format!("[{step}] {o:?}"));
            self.step(&mut w, &mut md, o, step, c, cx)?;
            self.compare(&w, &md, step)?;
        }
        let settled = cx.count("refunded") + cx.count("deposit-to-dao");
        cx.nontrivial = match self.0 {
            Focus::Upgrade => {
                cx.has("old-deposit-settled") || (cx.has("submitted-to-the-old") && cx.has("submitted-to-the-upgraded"))
            }
            Focus::Deposits => {
                settled >= 2 || cx.has("settled-after-config-change") || (settled == 1 && cx.count("submitted") >= 2)
            }
            Focus::Policy => {
                cx.has("submitted") && cx.has("submission-refused") && (cx.has("policy-changed") || cx.has("module-changed"))
            }
        };
        Ok(())
    }
}

fn pre_v241(multi: bool) -> Box<dyn Contract<Empty>> {
    if multi {
        use dao_pre_propose_multiple_v241::contract::*;
        Box::new(ContractWrapper::new(execute, instantiate, query))
    } else {
        use dao_pre_propose_single_v241::contract::*;
        Box::new(ContractWrapper::new(execute, instantiate, query))
    }
}
fn pre_new(multi: bool) -> Box<dyn Contract<Empty>> {
    if multi {
        use dao_pre_propose_multiple::contract::*;
        Box::new(ContractWrapper::new(execute, instantiate, query).with_migrate(migrate))
    } else {
        use dao_pre_propose_single::contract::*;
        Box::new(ContractWrapper::new(execute, instantiate, query).with_migrate(migrate))
    }
}

impl Pre {
    /// Upgrade the first module: only once, and to a policy that makes sense.
    fn upgrade(&self, w: &mut World, md: &mut Model, p: &Past, cx: &mut Cx) -> R {
        const M: &[&str] = &["M01"];
        let code = w.app.store_code(pre_new(w.pm.multi));
        let a = md.mods[0].addr.clone().unwrap();
        let to = |pol: Option<PreProposeSubmissionPolicy>| json!({"from_under_v250": {"policy": pol}});
        let dao = w.core.to_string();
        let r = migrate_to(&mut w.app, &dao, &a, code, &json!({"extension": {"msg": {}}}));
        agree("an upgrade with an unknown extension", &r, &Err("there are none"), M)?;
        let pol = p.pol.as_ref().map(|p| w.pol(p));
        let want = p.pol.as_ref().map_or(Ok(()), Model::valid);
        cx.label("upgrading");
        let r = migrate_to(&mut w.app, &dao, &a, code, &to(pol));
        agree(format!("upgrading with policy {:?}", p.pol), &r, &want, M)?;
        match (r.is_ok(), &p.pol) {
            (true, Some(p)) => {
                md.mods[0].pol = p.clone();
                cx.label("policy-given-at-upgrade");
            }
            (true, None) => cx.label("policy-kept-at-upgrade"),
            (false, _) => {
                cx.label("upgrade-refused");
                let r = migrate_to(&mut w.app, &dao, &a, code, &to(None));
                agree("upgrading with the old policy", &r, &Ok(()), M)?;
            }
        }
        md.mods[0].old = false;
        md.mods[0].before = md.mods[0].deposits.keys().copied().collect();
        if md.mods[0].deposits.values().any(|d| d.0.is_some()) {
            cx.label("deposits-at-upgrade");
        }
        let r = migrate_to(&mut w.app, &dao, &a, code, &to(None));
        agree("upgrading again", &r, &Err("it is of the current version"), M)
    }
    fn target(md: &Model, pre: u8) -> usize {
        // 0: the current one, else by index
        let cur = md.current.unwrap_or(0);
        let t = if pre == 0 || md.mods.is_empty() { cur } else { (pre as usize - 1) % md.mods.len() };
        // a module installed and replaced within one transaction is not addressed
        match md.mods.get(t) {
            Some(m) if m.addr.is_some() => t,
            _ => usize::MAX,
        }
    }
    /// The acts as they are worded for the modules they are put to today.
    fn worded(md: &Model, acts: &[Act]) -> Vec<Act> {
        acts.iter()
            .map(|a| match (a, md.mods.get(Self::target_of(md, a))) {
                (Act::Config { pre, dep, pol }, Some(m)) if m.old => Act::OldConfig {
                    pre: *pre,
                    dep: dep.clone(),
                    open: matches!(pol.as_ref().unwrap_or(&m.pol), PolSpec::Anyone { .. }),
                },
                _ => a.clone(),
            })
            .collect()
    }
    fn target_of(md: &Model, a: &Act) -> usize {
        match a {
            _ if md.mods.is_empty() => usize::MAX,
            Act::Withdraw { pre, .. } | Act::Config { pre, .. } | Act::OldConfig { pre, .. } | Act::Policy { pre, .. } | Act::Hook { pre, .. } => Self::target(md, *pre),
            _ => 0,
        }
    }
    /// Note the address of a module installed by the last operation.
    fn learn(&self, w: &mut World, md: &mut Model, _step: Option<usize>) -> R {
        if let Some(m) = md.current {
            if md.mods[m].addr.is_none() {
                match w.pm.policy(&w.app)? {
                    Some(a) => {
                        let dao: Addr = q(&w.app, &a, &json!({"dao": {}}))?;
                        let pm: Addr = q(&w.app, &a, &json!({"proposal_module": {}}))?;
                        ensure_eq!(dao, w.core, ["P07", "P08"], "DAO of the new module");
                        ensure_eq!(pm, w.pm.addr, ["P07", "P08"], "proposal module of the new module");
                        md.mods[m].addr = Some(a.clone());
                        // everybody is willing to pay cw20 deposits
                        for u in 0..USERS {
                            for t in 0..2 {
                                let msg = json!({"increase_allowance": {"spender": a, "amount": "1000", "expires": null}});
                                if u == 4 {
                                    let run = MockMsg::Run { msgs: vec![wasm_msg(&w.cw20[t], &msg)] };
                                    let wallet = w.wallet.clone();
                                    harness(exec(&mut w.app, "x", &wallet, &run, &[]))?;
                                } else {
                                    let c = w.cw20[t].clone();
                                    harness(exec(&mut w.app, &user(u), &c, &msg, &[]))?;
                                }
                                md.allow.insert((u, m, t), 1000);
                            }
                        }
                    }
                    None => fail!(["P08"], "module installed by the DAO is not in force"),
                }
            }
        }
        Ok(())
    }

    fn step(&self, w: &mut World, md: &mut Model, o: &Op, step: usize, c: &Case, cx: &mut Cx) -> R {
        let both: &[&'static str] = &["P07", "P08"];
        let prop_id = |p: u8, n: usize| if p == 77 || n == 0 { n as u64 + 1 } else { p as u64 % n as u64 + 1 };
        match o {
            Op::Submit { by, pre, funds, vote, msgs } => {
                let m = Self::target(md, *pre);
                if m >= md.mods.len() {
                    return Ok(());
                }
                let who = *by as usize;
                let dep = md.mods[m].dep.clone();
                let mut paid: Vec<(usize, u128)> = vec![];
                let native = dep.as_ref().filter(|d| d.tok < 2);
                match (funds, native) {
                    (Funds::Nothing, _) | (Funds::Exact, None) => (),
                    (Funds::Exact, Some(d)) => paid.push((d.tok, d.amount)),
                    (Funds::Less, Some(d)) => paid.push((d.tok, d.amount - 1)),
                    (Funds::More, Some(d)) => paid.push((d.tok, d.amount + 1)),
                    (Funds::Other, Some(d)) => paid.push((1 - d.tok, d.amount)),
                    (Funds::Extra, Some(d)) => {
                        paid.push((d.tok, d.amount));
                        paid.push((1 - d.tok, 1));
                    }
                    (Funds::Stray, Some(d)) => paid.push((d.tok, 1)),
                    (_, None) => paid.push((0, 3)),
                }
                paid.retain(|x| x.1 > 0);
                paid.sort();
                let coins: Vec<Coin> = paid.iter().map(|(t, n)| coin(*n, DEN[*t])).collect();
                let msgs = &Self::worded(md, msgs);
                let targets: Vec<_> = msgs.iter().map(|a| Self::target_of(md, a)).collect();
                let cm: Vec<_> = msgs.iter().zip(&targets).map(|(a, t)| w.act_msg(md, a, *t)).collect();
                let title = format!("t{step}");
                let body = w.pm.pre_body(&title, &cm, *vote);
                let mut next = md.clone();
                let p = Prop { proposer: who, msgs: msgs.clone(), targets, done: false };
                let told = w.pm.body(&title, &cm, *vote, Some(&w.user(who)));
                let want = next.submit(w, m, who, &paid, vote.is_some(), p, told);
                if want == Err("a subscriber refuses") {
                    cx.label("subscriber-refuses");
                }
                let can: bool = md.mods[m].old
                    || q(&w.app, &md.mods[m].addr.clone().unwrap(), &json!({"can_propose": {"address": w.user(who)}}))?;
                let by = w.user(who);
                let r = exec(&mut w.app, &by, &md.mods[m].addr.clone().unwrap(), &body, &coins);
                let tags: &[&'static str] = match want {
                    Err(e) if e.contains("deposit") || e.contains("balance") || e.contains("allowance") => &["P07"],
                    Err(_) => &["P08"],
                    Ok(()) => both,
                };
                agree(format!("[{step}] user {who} submitting through module {m} with {coins:?}"), &r, &want, tags)?;
                if r.is_ok() {
                    *md = next;
                    cx.label("submitted");
                    if c.past.is_some() && m == 0 {
                        cx.label(if md.mods[0].old { "submitted-to-the-old" } else { "submitted-to-the-upgraded" });
                    }
                    ensure!(can, ["P08"], "[{step}] accepted although CanPropose says no");
                    if *pre != 0 && md.mods.len() > 1 {
                        cx.label("submitted-after-module-change");
                    }
                } else {
                    cx.label("submission-refused");
                    if want == Err("policy forbids") {
                        cx.label("policy-forbids");
                    }
                }
            }
            Op::Twice { pre, msgs } => {
                let m = Self::target(md, *pre);
                if m >= md.mods.len() {
                    return Ok(());
                }
                let msgs = &Self::worded(md, msgs);
                let targets: Vec<_> = msgs.iter().map(|a| Self::target_of(md, a)).collect();
                let cm: Vec<_> = msgs.iter().zip(&targets).map(|(a, t)| w.act_msg(md, a, *t)).collect();
                let paid: Vec<_> = md.mods[m].dep.iter().filter(|d| d.tok < 2).map(|d| (d.tok, d.amount)).collect();
                let coins: Vec<Coin> = paid.iter().map(|(t, n)| coin(*n, DEN[*t])).collect();
                let mut next = md.clone();
                let mut want = Ok(());
                let mut out: Vec<CosmosMsg> = vec![];
                for (i, cm) in [cm, vec![]].into_iter().enumerate() {
                    let p = if i == 0 {
                        Prop { proposer: 4, msgs: msgs.clone(), targets: targets.clone(), done: false }
                    } else {
                        Prop { proposer: 4, msgs: vec![], targets: vec![], done: false }
                    };
                    if want.is_ok() {
                        let told = w.pm.body(&format!("t{step}-{i}"), &cm, None, Some(&w.user(4)));
                        want = next.submit(w, m, 4, &paid, false, p, told);
                    }
                    out.push(
                        cosmwasm_std::WasmMsg::Execute {
                            contract_addr: md.mods[m].addr.clone().unwrap().to_string(),
                            msg: to_json_binary(&w.pm.pre_body(&format!("t{step}-{i}"), &cm, None)).unwrap(),
                            funds: coins.clone(),
                        }
                        .into(),
                    );
                }
                let wallet = w.wallet.clone();
                let r = exec(&mut w.app, "x", &wallet, &MockMsg::Run { msgs: out }, &[]);
                agree(format!("[{step}] two submissions at once"), &r, &want, both)?;
                if r.is_ok() {
                    *md = next;
                    cx.label("submitted-twice-at-once");
                }
            }
            Op::Direct { by, named, msgs } => {
                let who = *by as usize;
                let msgs = &Self::worded(md, msgs);
                let targets: Vec<_> = msgs.iter().map(|a| Self::target_of(md, a)).collect();
                let cm: Vec<_> = msgs.iter().zip(&targets).map(|(a, t)| w.act_msg(md, a, *t)).collect();
                let named = named.map(|n| user(n as usize));
                let body = json!({"propose": w.pm.body(&format!("t{step}"), &cm, None, named.as_deref())});
                let want = if md.current.is_some() {
                    Err("proposals must come through the module")
                } else if named.is_some() {
                    Err("in somebody else's name")
                } else if !md.active && !md.mute {
                    Err("DAO inactive")
                } else {
                    Ok(())
                };
                let (by, a) = (w.user(who), w.pm.addr.clone());
                let r = exec(&mut w.app, &by, &a, &body, &[]);
                agree(format!("[{step}] user {who} proposing directly"), &r, &want, &["P08"])?;
                if r.is_ok() {
                    md.props.push(Prop { proposer: who, msgs: msgs.clone(), targets, done: false });
                    cx.label("direct");
                } else {
                    cx.label("submission-refused");
                }
            }
            Op::Vote { by, prop, yes } => {
                let id = prop_id(*prop, md.props.len());
                let (by, a, m) = (w.user(*by as usize), w.pm.addr.clone(), w.pm.vote(id, *yes));
                let _ = exec(&mut w.app, &by, &a, &m, &[]);
            }
            Op::Decide { prop, yes } => {
                let id = prop_id(*prop, md.props.len());
                advance(&mut w.app, 1, 5);
                for i in 0..4 {
                    let (by, a, m) = (w.user(i), w.pm.addr.clone(), w.pm.vote(id, *yes));
                    let _ = exec(&mut w.app, &by, &a, &m, &[]);
                }
            }
            Op::Execute { by, prop } => {
                let id = prop_id(*prop, md.props.len());
                let known = id <= md.props.len() as u64;
                let st = if known { Some(w.pm.status(&w.app, id)?) } else { None };
                let (by, a, m) = (w.user(*by as usize), w.pm.addr.clone(), w.pm.act("execute", id));
                let r = exec(&mut w.app, &by, &a, &m, &[]);
                let mut next = md.clone();
                let mut failed = false;
                let want = if st == Some(Status::Passed) {
                    let p = md.props[id as usize - 1].clone();
                    let mut x = md.clone();
                    let mut ok = Ok(());
                    for (a, t) in p.msgs.iter().zip(&p.targets) {
                        ok = x.act(a, *t);
                        if ok.is_err() {
                            break;
                        }
                    }
                    if ok.is_ok() {
                        next = x;
                    } else {
                        failed = true;
                    }
                    if c.close_fail {
                        Ok(())
                    } else {
                        ok
                    }
                } else {
                    Err("not passed")
                };
                let opened = want.is_ok() && next.current.is_none();
                let dropped = want.is_ok() && next.settle(md.current, id, true, cx);
                if dropped && opened && r.as_ref().err().map_or(false, |e| e.contains("invalid ID: (4)")) {
                    return Err(Fail::new(format!(
                        "[{step}] proposal {id}, which opens proposal creation to anyone, cannot be executed because the old pre-propose module fails"
                    ))
                    .tag(&["P07", "P08", "P10"])
                    .sig("execution-reverts-when-it-opened-proposal-creation-and-old-pre-propose-module-fails"));
                }
                if dropped && next.current.is_some() {
                    // the module that failed had just been replaced
                    if r.is_ok() && w.pm.policy(&w.app)?.is_none() {
                        return Err(Fail::new(format!(
                            "[{step}] a pre-propose module installed by proposal {id} was dropped because its predecessor failed"
                        ))
                        .tag(&["P07", "P08", "P10"])
                        .sig("new-pre-propose-module-dropped-for-predecessor"));
                    }
                }
                agree(format!("[{step}] executing {id} (status {st:?})"), &r, &want, &["P07", "P08", "P10"])?;
                if r.is_ok() {
                    next.props[id as usize - 1].done = true;
                    *md = next;
                    let now = w.pm.status(&w.app, id)?;
                    ensure_eq!(now == Status::ExecutionFailed, failed, ["P07"], "[{step}] proposal {id} status {now:?}");
                    cx.label(if failed { "execution-failed" } else { "executed" });
                    if md.props[id as usize - 1].msgs.iter().any(|a| matches!(a, Act::Module(_))) && !failed {
                        cx.label("module-changed");
                    }
                    self.learn(w, md, Some(step))?;
                }
            }
            Op::Close { by, prop } => {
                let id = prop_id(*prop, md.props.len());
                let st = if id <= md.props.len() as u64 { Some(w.pm.status(&w.app, id)?) } else { None };
                let (by, a, m) = (w.user(*by as usize), w.pm.addr.clone(), w.pm.act("close", id));
                let r = exec(&mut w.app, &by, &a, &m, &[]);
                let want = if st == Some(Status::Rejected) { Ok(()) } else { Err("not rejected") };
                agree(format!("[{step}] closing {id} (status {st:?})"), &r, &want, &["P07", "P10"])?;
                if r.is_ok() {
                    let cur = md.current;
                    md.settle(cur, id, false, cx);
                    md.props[id as usize - 1].done = true;
                    cx.label("closed");
                }
            }
            Op::Veto { prop } => {
                let id = prop_id(*prop, md.props.len());
                let (a, m) = (w.pm.addr.clone(), w.pm.act("veto", id));
                let r = exec(&mut w.app, "vetoer", &a, &m, &[]);
                if r.is_ok() {
                    let st = w.pm.status(&w.app, id)?;
                    ensure_eq!(st, Status::Vetoed, ["P07"], "[{step}] status after a veto of {id}");
                    let cur = md.current;
                    md.settle(cur, id, false, cx);
                    md.props[id as usize - 1].done = true;
                    cx.label("vetoed");
                }
            }
            Op::Admin { by, act } => {
                let act = &Self::worded(md, std::slice::from_ref(act))[0];
                let t = Self::target_of(md, act);
                let msg = w.act_msg(md, act, t);
                let mut next = md.clone();
                let dao_only = !matches!(act, Act::Bump | Act::Fail | Act::Send(_));
                let (r, want) = if *by == 9 {
                    let core = w.core.clone();
                    (as_dao(&mut w.app, &core, vec![msg]), next.act(act, t))
                } else if dao_only {
                    let by = w.user(*by as usize);
                    (exec_msg(&mut w.app, &by, msg).map(|_| ()), Err("only the DAO may"))
                } else {
                    return Ok(());
                };
                let tags: &[&'static str] = match act {
                    Act::Withdraw { .. } => &["P07"],
                    Act::Policy { .. } | Act::Hook { .. } => &["P08"],
                    _ => both,
                };
                agree(format!("[{step}] {act:?} by {by}"), &r, &want, tags)?;
                if r.is_ok() {
                    *md = next;
                    match act {
                        Act::Module(_) => cx.label("module-changed"),
                        Act::Policy { .. } => cx.label("policy-changed"),
                        Act::Config { .. } => cx.label("config-changed"),
                        Act::Withdraw { .. } => cx.label("withdrawn"),
                        Act::Hook { add, .. } => cx.label(if *add { "subscribed" } else { "unsubscribed" }),
                        _ => (),
                    }
                    self.learn(w, md, Some(step))?;
                }
            }
            Op::Fake { by, pre, prop, status } => {
                let m = Self::target(md, *pre);
                if m >= md.mods.len() {
                    return Ok(());
                }
                let id = prop_id(*prop, md.props.len());
                let msg = json!({"proposal_completed_hook": {"proposal_id": id, "new_status": (["executed", "closed", "vetoed"][*status as usize])}});
                let (by, a) = (w.user(*by as usize), md.mods[m].addr.clone().unwrap());
                let r = exec(&mut w.app, &by, &a, &msg, &[]);
                agree(format!("[{step}] forged completion of {id}"), &r, &Err("only the proposal module reports completion"), &["P07"])?;
                let core = w.core.clone();
                let r = as_dao(&mut w.app, &core, vec![wasm_msg(&a, &msg)]);
                agree(format!("[{step}] forged completion of {id} by the DAO"), &r, &Err("only the proposal module reports completion"), &["P07"])?;
            }
            Op::Extension { by, pre } => {
                let m = Self::target(md, *pre);
                if m >= md.mods.len() {
                    return Ok(());
                }
                let (by, a) = (w.user(*by as usize), md.mods[m].addr.clone().unwrap());
                let _ = exec(&mut w.app, &by, &a, &json!({"extension": {"msg": {}}}), &[]);
            }
            Op::Allowance { by, pre, tok, amount } => {
                let m = Self::target(md, *pre);
                let who = *by as usize;
                if m >= md.mods.len() || who == 4 {
                    return Ok(());
                }
                let t = *tok as usize;
                let cur = md.allow.get(&(who, m, t)).copied().unwrap_or(0);
                let a = md.mods[m].addr.clone().unwrap();
                let c = w.cw20[t].clone();
                if cur > 0 {
                    let msg = json!({"decrease_allowance": {"spender": a, "amount": cur.to_string(), "expires": null}});
                    harness(exec(&mut w.app, &user(who), &c, &msg, &[]))?;
                }
                if *amount > 0 {
                    let msg = json!({"increase_allowance": {"spender": a, "amount": amount.to_string(), "expires": null}});
                    harness(exec(&mut w.app, &user(who), &c, &msg, &[]))?;
                }
                md.allow.insert((who, m, t), *amount as u128);
            }
            Op::Power { who, power } => {
                let mut p: Vec<_> = (0..4).map(|i| (user(i), w.power(i))).collect();
                p[*who as usize].1 = *power as u128;
                p[0].1 = p[0].1.max(1);
                let v = w.voting.clone();
                harness(exec(&mut w.app, "x", &v, &powers_msg(&p), &[]))?;
                advance(&mut w.app, 1, 5);
            }
            Op::Active(a) => {
                let v = w.voting.clone();
                harness(exec(&mut w.app, "x", &v, &MockMsg::SetActive { active: *a }, &[]))?;
                md.active = *a;
            }
            Op::Mute(m) => {
                let v = w.voting.clone();
                harness(exec(&mut w.app, "x", &v, &MockMsg::SetMute { mute: *m }, &[]))?;
                md.mute = *m;
                if *m && !md.active {
                    cx.label("inactive-but-mute");
                }
            }
            Op::Break { which, fail } => {
                let a = w.recv[*which as usize].clone();
                harness(exec(&mut w.app, "x", &a, &MockMsg::SetFail { fail: *fail }, &[]))?;
                md.refuse[*which as usize] = *fail;
            }
            Op::Advance(n) => advance(&mut w.app, *n as u64, 5),
        }
        Ok(())
    }

    fn compare(&self, w: &World, md: &Model, step: usize) -> R {
        let got = w.pm.policy(&w.app)?;
        let want = md.current.map(|m| md.mods[m].addr.clone().unwrap());
        ensure_eq!(got, want, ["P08", "P10"], "[{step}] who may create proposals");
        for acc in 0..md.bal.len() {
            if acc >= MODS && md.mods[acc - MODS].addr.is_none() {
                continue;
            }
            let a = w.addr(md, acc);
            for t in 0..4 {
                let got = if t < 2 { bank(&w.app, &a, DEN[t]) } else { cw20_balance(&w.app, &w.cw20[t - 2], &a) };
                ensure_eq!(got, md.bal[acc][t], ["P07"], "[{step}] balance of account {acc} in token {t}");
            }
        }
        ensure_eq!(mock_count(&w.app, &w.target), md.bumps, ["P07", "P08"], "[{step}] executed messages");
        ensure_eq!(w.pm.count(&w.app)?, md.props.len() as u64, ["P08"], "[{step}] number of proposals");
        for (i, p) in md.props.iter().enumerate() {
            let g = w.pm.proposal(&w.app, i as u64 + 1)?;
            ensure_eq!(g["proposer"].as_str().unwrap_or(""), w.user(p.proposer), ["P08"], "[{step}] proposer of {}", i + 1);
        }
        let checked = |d: &Option<Dep>| {
            d.as_ref().map(|d| CheckedDepositInfo {
                denom: if d.tok < 2 {
                    CheckedDenom::Native(DEN[d.tok].into())
                } else {
                    CheckedDenom::Cw20(w.cw20[d.tok - 2].clone())
                },
                amount: d.amount.into(),
                refund_policy: match d.refund {
                    0 => DepositRefundPolicy::Always,
                    1 => DepositRefundPolicy::OnlyPassed,
                    _ => DepositRefundPolicy::Never,
                },
            })
        };
        for (i, told) in md.told.iter().enumerate() {
            ensure_eq!(&mock_log(&w.app, &w.recv[i]), told, ["P08"], "[{step}] submissions subscriber {i} was told of");
        }
        for (i, m) in md.mods.iter().enumerate() {
            let Some(a) = &m.addr else { continue };
            let h: cw_hooks::HooksResponse = q(&w.app, a, &json!({"proposal_submitted_hooks": {}}))?;
            let want: Vec<_> = m.hooks.iter().map(|h| w.subscriber(*h)).collect();
            ensure_eq!(h.hooks, want, ["P08"], "[{step}] subscribers to module {i}");
            if m.old {
                let cfg: Value = q(&w.app, a, &json!({"config": {}}))?;
                let want = json!({
                    "deposit_info": checked(&m.dep),
                    "open_proposal_submission": matches!(m.pol, PolSpec::Anyone { .. }),
                });
                ensure_eq!(cfg, want, "[{step}] configuration of the module of before");
            } else {
                let cfg: PreConfig = q(&w.app, a, &json!({"config": {}}))?;
                ensure_eq!(cfg.deposit_info, checked(&m.dep), ["P07"], "[{step}] deposit asked by module {i}");
                ensure_eq!(norm(&cfg.submission_policy), norm(&w.pol(&m.pol)), ["P08"], "[{step}] policy of module {i}");
            }
            for u in (0..USERS).filter(|_| !m.old) {
                let can: bool = q(&w.app, a, &json!({"can_propose": {"address": w.user(u)}}))?;
                ensure_eq!(can, md.may_submit(w, i, u), ["P08"], "[{step}] whether user {u} may submit to module {i}");
            }
            for id in 1..=md.props.len() as u64 {
                let r: Result<DepositInfoResponse, _> = query(&w.app, a, &json!({"deposit_info": {"proposal_id": id}}));
                match (m.deposits.get(&id), r) {
                    (None, Err(_)) => (),
                    (Some((d, who)), Ok(r)) => {
                        ensure_eq!(r.deposit_info, checked(d), ["P07"], "[{step}] deposit recorded for {id}");
                        ensure_eq!(r.proposer.to_string(), w.user(*who), ["P07"], "[{step}] depositor of {id}");
                    }
                    (want, got) => fail!(["P07"], "[{step}] module {i} deposit of {id}: code {got:?}, oracle {want:?}"),
                }
            }
        }
        Ok(())
    }
}

fn norm(p: &PreProposeSubmissionPolicy) -> PreProposeSubmissionPolicy {
    let mut p = p.clone();
    match &mut p {
        PreProposeSubmissionPolicy::Anyone { denylist } => denylist.sort(),
        PreProposeSubmissionPolicy::Specific { allowlist, denylist, .. } => {
            allowlist.sort();
            denylist.sort();
        }
    }
    p
}
