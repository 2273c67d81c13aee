//! Proposals that need approval: an approval module in front of one DAO, decided by an
//! account, by a DAO directly or by a second DAO through its approver module.

use cosmwasm_std::{coins, to_json_binary, Addr, CosmosMsg, Empty};
use cw_multi_test::{Contract, ContractWrapper};
use dao_voting::status::Status;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

use super::common::*;
use super::upgrade::migrate_to;
use crate::env::*;
use crate::fw::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Dep {
    /// cw20 rather than native
    pub cw20: bool,
    pub amount: u128,
    /// 0 always, 1 only passed, 2 never
    pub refund: u8,
}

/// Something an account or a DAO may ask for. Ids are taken modulo what exists.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Bump,
    Fail,
    Config(Option<Dep>),
    /// the same, worded for version 2.4.1
    OldConfig(Option<Dep>),
    Approve(u8),
    Reject(u8),
    SetApprover(u8),
    AddHook(u8),
    RemoveHook(u8),
    /// approver module, by age
    Reset(u8),
    /// an account speaks to the approver module as if it were the approval module
    FakeSubmit(u8),
    FakeComplete { approver: bool, prop: u8, executed: bool },
    /// configuration the approver module must refuse
    ApproverConfig(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Submit { by: u8, vote: Option<bool>, msgs: Vec<Act> },
    Do { who: u8, act: Act },
    /// by the current approver, unless that is a module
    Rule { act: Act },
    Connect,
    Main { prop: u8, what: What },
    Appr { module: u8, prop: u8, what: What },
    BreakHook { hook: bool, fail: bool },
    Advance(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    Decide(bool),
    Execute,
    Close,
    Veto,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub anyone: bool,
    pub close_fail: bool,
    pub powers: [u8; 3],
    pub deposit: Option<Dep>,
    /// approver at the start
    pub approver: u8,
    pub connect: bool,
    pub veto: bool,
    pub ops: Vec<Op>,
    /// the approval module is of version 2.4.1 until this operation
    #[serde(default)]
    pub past: Option<u8>,
}

const START: u128 = 1000;
const MAIN: usize = 4;
const APPR: usize = 5;
const RECV: usize = 6; // two hook receivers
const PRE: usize = 8; // approver modules, by age

fn dep() -> BoxedStrategy<Option<Dep>> {
    prop::option::weighted(0.8, (any::<bool>(), 1u128..=30, 0u8..3).prop_map(|(cw20, amount, refund)| Dep { cw20, amount, refund })).boxed()
}
fn act() -> BoxedStrategy<Act> {
    let id = || prop_oneof![20 => 0u8..5, 1 => Just(99u8)];
    let who = || prop_oneof![6 => Just(3u8), 2 => Just(4u8), 6 => Just(5u8), 1 => 0u8..10];
    prop_oneof![
        1 => Just(Act::Bump),
        1 => Just(Act::Fail),
        3 => dep().prop_map(Act::Config),
        5 => id().prop_map(Act::Approve),
        4 => id().prop_map(Act::Reject),
        4 => who().prop_map(Act::SetApprover),
        2 => (4u8..11).prop_map(Act::AddHook),
        2 => (4u8..11).prop_map(Act::RemoveHook),
        2 => (0u8..2).prop_map(Act::Reset),
        1 => id().prop_map(Act::FakeSubmit),
        1 => (any::<bool>(), id(), any::<bool>()).prop_map(|(approver, prop, executed)| Act::FakeComplete { approver, prop, executed }),
        1 => (0u8..2).prop_map(Act::ApproverConfig),
    ]
    .boxed()
}
fn what() -> BoxedStrategy<What> {
    prop_oneof![
        9 => prop::bool::weighted(0.65).prop_map(What::Decide),
        8 => Just(What::Execute),
        5 => Just(What::Close),
        1 => Just(What::Veto),
    ]
    .boxed()
}
fn op() -> BoxedStrategy<Op> {
    let msgs = prop_oneof![
        4 => prop::collection::vec(Just(Act::Bump), 0..2),
        1 => Just(vec![Act::Bump, Act::Fail]),
        3 => prop::collection::vec(act(), 1..3),
    ];
    prop_oneof![
        9 => (0u8..4, prop::option::weighted(0.15, any::<bool>()), msgs).prop_map(|(by, vote, msgs)| Op::Submit { by, vote, msgs }),
        7 => prop_oneof![6 => (0u8..6).prop_map(Act::Approve), 5 => (0u8..6).prop_map(Act::Reject), 3 => act()].prop_map(|act| Op::Rule { act }),
        7 => (0u8..6, act()).prop_map(|(who, act)| Op::Do { who, act }),
        2 => Just(Op::Connect),
        16 => (0u8..4, what()).prop_map(|(prop, what)| Op::Main { prop, what }),
        20 => (prop_oneof![1 => 0u8..2, 5 => Just(255u8)], 0u8..4, what()).prop_map(|(module, prop, what)| Op::Appr { module, prop, what }),
        1 => (any::<bool>(), any::<bool>()).prop_map(|(hook, fail)| Op::BreakHook { hook, fail }),
        3 => (1u8..5).prop_map(Op::Advance),
    ]
    .boxed()
}

#[derive(Clone, Debug)]
struct Sub {
    by: usize,
    title: String,
    vote: Option<bool>,
    msgs: Vec<(Act, CosmosMsg<Empty>)>,
    deposit: Option<Dep>,
    /// None pending, Some(None) rejected, Some(Some(id)) created as id
    outcome: Option<Option<u64>>,
}

#[derive(Clone, Debug)]
struct Module {
    pm: Pm,
    pre: Addr,
    alive: bool,
    /// approval id per proposal
    props: Vec<u64>,
}

#[derive(Clone, Debug)]
struct Model {
    deposit: Option<Dep>,
    approver: usize,
    hooks: Vec<usize>,
    subs: Vec<Sub>,
    /// submission per created proposal, and whether its deposit is paid out
    created: Vec<(u64, bool)>,
    mods: Vec<Module>,
    logs: [Vec<Value>; 2],
    fails: [bool; 2],
    /// native, cw20: users 0..4, main DAO, module
    bal: [[u128; 2]; 6],
    bumps: u64,
    /// still of version 2.4.1
    old: bool,
}

const POOL: usize = 5;

struct World {
    app: VApp,
    main: Addr,
    pm: Pm,
    pre: Addr,
    appr: Addr,
    appr0: Addr,
    cw20: Addr,
    target: Addr,
    recv: [Addr; 2],
    pm_code: u64,
    approver_code: u64,
    powers: [u8; 3],
    /// anybody may submit, as version 2.4.1 puts it
    open: bool,
}

impl Model {
    fn id(&self, n: u8) -> u64 {
        if n >= 99 {
            return if n == 99 { 99 } else { n as u64 - 128 };
        }
        n as u64 % (self.subs.len() as u64).max(1) + 1
    }
    fn pay(&mut self, d: &Option<Dep>, from: usize, to: usize) -> Result<(), &'static str> {
        if let Some(d) = d {
            let t = d.cw20 as usize;
            self.bal[from][t] = self.bal[from][t].checked_sub(d.amount).ok_or("not enough tokens")?;
            self.bal[to][t] += d.amount;
        }
        Ok(())
    }
    fn act(&mut self, who: usize, a: &Act, powers: &[u8; 3]) -> Result<(), &'static str> {
        match a {
            Act::Bump => self.bumps += 1,
            Act::Fail => return Err("message fails"),
            Act::Config(_) if self.old => return Err("a message for a later version"),
            Act::OldConfig(_) if !self.old => return Err("a message for an earlier version"),
            Act::Config(d) | Act::OldConfig(d) => {
                if who != MAIN {
                    return Err("only the DAO configures");
                }
                self.deposit = d.clone();
            }
            Act::Approve(n) => return self.approve(who, self.id(*n), powers),
            Act::Reject(n) => return self.reject(who, self.id(*n)),
            Act::SetApprover(n) => {
                if who != self.approver {
                    return Err("only the approver appoints another");
                }
                self.approver = self.resolve(*n);
            }
            Act::AddHook(n) => {
                let h = self.resolve(*n);
                if who != MAIN && who != self.approver {
                    return Err("only approver or DAO");
                }
                if self.hooks.contains(&h) {
                    return Err("already there");
                }
                self.hooks.push(h);
            }
            Act::RemoveHook(n) => {
                let h = self.resolve(*n);
                if who != MAIN && who != self.approver {
                    return Err("only approver or DAO");
                }
                let i = self.hooks.iter().position(|x| *x == h).ok_or("not there")?;
                self.hooks.remove(i);
            }
            Act::Reset(m) => {
                if self.mods.is_empty() {
                    return Err("no approver module");
                }
                let m = if *m >= 128 { *m as usize - 128 } else { *m as usize % self.mods.len() };
                if who != APPR {
                    return Err("only the approver DAO resets");
                }
                if self.approver != PRE + m {
                    return Err("not the approver");
                }
                let i = self.hooks.iter().position(|x| *x == PRE + m).ok_or("not there")?;
                self.hooks.remove(i);
                self.approver = APPR;
            }
            Act::FakeSubmit(_) | Act::FakeComplete { .. } | Act::ApproverConfig(_) => return Err("not possible for anybody"),
        }
        Ok(())
    }
    fn resolve(&self, n: u8) -> usize {
        if n >= 128 {
            return n as usize - 128;
        }
        let n = n as usize;
        if n < PRE {
            n
        } else if self.mods.is_empty() {
            3
        } else {
            PRE + (n - PRE) % self.mods.len()
        }
    }
    fn approve(&mut self, who: usize, id: u64, powers: &[u8; 3]) -> Result<(), &'static str> {
        if who != self.approver {
            return Err("only the approver approves");
        }
        let s = self.subs.get_mut(id.wrapping_sub(1) as usize).ok_or("no such submission")?;
        if s.outcome.is_some() {
            return Err("already decided");
        }
        if s.vote.is_some() && (s.by >= 3 || powers[s.by] == 0) {
            return Err("the automatic vote has no power");
        }
        self.created.push((id, false));
        s.outcome = Some(Some(self.created.len() as u64));
        Ok(())
    }
    fn reject(&mut self, who: usize, id: u64) -> Result<(), &'static str> {
        if who != self.approver {
            return Err("only the approver rejects");
        }
        let s = self.subs.get_mut(id.wrapping_sub(1) as usize).ok_or("no such submission")?;
        if s.outcome.is_some() {
            return Err("already decided");
        }
        s.outcome = Some(None);
        let (d, by) = (s.deposit.clone(), s.by);
        let to = if d.as_ref().map_or(false, |d| d.refund == 0) { by } else { MAIN };
        self.pay(&d, POOL, to)
    }
}

impl World {
    fn addr(&self, md: &Model, who: usize) -> String {
        match who {
            MAIN => self.main.to_string(),
            APPR => self.appr.to_string(),
            6 | 7 => self.recv[who - RECV].to_string(),
            w if w >= PRE => md.mods[w - PRE].pre.to_string(),
            w => user(w),
        }
    }
    fn dep(&self, d: &Option<Dep>) -> Value {
        match d {
            None => Value::Null,
            Some(d) => json!({
                "denom": {"token": {"denom": if d.cw20 { json!({"cw20": self.cw20}) } else { json!({"native": "uaa"}) }}},
                "amount": d.amount.to_string(),
                "refund_policy": (["always", "only_passed", "never"][d.refund as usize]),
            }),
        }
    }
    /// as stored
    fn checked(&self, d: &Option<Dep>) -> Value {
        match d {
            None => Value::Null,
            Some(d) => json!({
                "denom": if d.cw20 { json!({"cw20": self.cw20}) } else { json!({"native": "uaa"}) },
                "amount": d.amount.to_string(),
                "refund_policy": (["always", "only_passed", "never"][d.refund as usize]),
            }),
        }
    }
    fn msg(&self, md: &Model, a: &Act) -> CosmosMsg<Empty> {
        let ext = |v: Value| wasm_msg(&self.pre, &json!({"extension": {"msg": v}}));
        let module = |m: u8| match md.mods.len() {
            0 => self.target.clone(),
            _ if m >= 128 => md.mods[m as usize - 128].pre.clone(),
            n => md.mods[m as usize % n].pre.clone(),
        };
        let fail = || wasm_msg(&self.target, &MockMsg::Fail {});
        match a {
            Act::Bump => wasm_msg(&self.target, &MockMsg::Bump {}),
            Act::Fail => fail(),
            Act::OldConfig(d) => wasm_msg(&self.pre, &json!({"update_config": {"deposit_info": self.dep(d), "open_proposal_submission": self.open}})),
            Act::Config(d) => wasm_msg(&self.pre, &json!({"update_config": {"deposit_info": self.dep(d), "submission_policy": null}})),
            Act::Approve(n) => ext(json!({"approve": {"id": md.id(*n)}})),
            Act::Reject(n) => ext(json!({"reject": {"id": md.id(*n)}})),
            Act::SetApprover(n) => ext(json!({"update_approver": {"address": self.addr(md, md.resolve(*n))}})),
            Act::AddHook(n) => wasm_msg(&self.pre, &json!({"add_proposal_submitted_hook": {"address": self.addr(md, md.resolve(*n))}})),
            Act::RemoveHook(n) => wasm_msg(&self.pre, &json!({"remove_proposal_submitted_hook": {"address": self.addr(md, md.resolve(*n))}})),
            _ if md.mods.is_empty() => fail(),
            Act::Reset(m) => wasm_msg(&module(*m), &json!({"extension": {"msg": {"reset_approver": {}}}})),
            Act::FakeSubmit(n) => wasm_msg(
                &module(0),
                &json!({"propose": {"msg": {"propose": {"title": "fake", "description": "d", "approval_id": md.id(*n)}}}}),
            ),
            Act::FakeComplete { approver, prop, executed } => wasm_msg(
                &if *approver { module(0) } else { self.pre.clone() },
                &json!({"proposal_completed_hook": {"proposal_id": *prop as u64 % 3 + 1, "new_status": if *executed { "executed" } else { "closed" }}}),
            ),
            Act::ApproverConfig(0) => wasm_msg(&module(0), &json!({"update_config": {"deposit_info": null, "submission_policy": {"anyone": {"denylist": []}}}})),
            Act::ApproverConfig(_) => wasm_msg(&module(0), &json!({"update_submission_policy": {"denylist_add": ["someone"]}})),
        }
    }
    fn run(&mut self, who: usize, m: CosmosMsg<Empty>) -> Result<(), String> {
        match who {
            MAIN => as_dao(&mut self.app, &self.main.clone(), vec![m]),
            APPR => as_dao(&mut self.app, &self.appr.clone(), vec![m]),
            w => exec_msg(&mut self.app, &user(w), m).map(|_| ()),
        }
    }
}

const T: &[&'static str] = &["P09"];
/// where a deposit is taken or paid out
const D: &[&'static str] = &["P09", "P07"];

/// With an approval module that is upgraded, or not.
pub struct Approval(pub bool);

impl Scenario for Approval {
    type Case = Case;
    fn name(&self) -> &'static str {
        if self.0 {
            "approval-upgrade"
        } else {
            "approval"
        }
    }
    fn rule(&self) -> &'static str {
        if self.0 {
            return "an approval module of version 2.4.1 was upgraded, and a submission made before was approved or rejected afterwards";
        }
        "at least one submission was approved and one rejected, or the second DAO decided one"
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        (
            prop::bool::weighted(0.4),
            any::<bool>(),
            [1u8..6, 0u8..4, 0u8..4],
            dep(),
            prop_oneof![3 => Just(3u8), 1 => Just(4u8), 6 => Just(5u8)],
            (prop::bool::weighted(0.8), prop::bool::weighted(0.25)),
            prop::collection::vec(op(), 10..45),
            if self.0 { (0u8..24).prop_map(Some).boxed() } else { Just(None).boxed() },
        )
            .prop_map(|(anyone, close_fail, powers, deposit, approver, (connect, veto), ops, past)| Case { anyone, close_fail, powers, deposit, approver, connect, veto, ops, past })
            .boxed()
    }

    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        let r = self.go(c, cx);
        if cx.has("upgrading") {
            return r.map_err(|f| if f.sig.is_some() || f.tags.is_empty() { f } else { f.tag(&["M01"]) });
        }
        r
    }
}

impl Approval {
    fn go(&self, c: &Case, cx: &mut Cx) -> R {
        let mut app = new_app();
        let target = new_mock(&mut app);
        let recv = [new_mock(&mut app), new_mock(&mut app)];
        let balances: Vec<_> = (0..4).map(|i| (user(i), START)).collect();
        let cw20 = new_cw20(&mut app, &balances);
        for i in 0..4 {
            fund_account(&mut app, &user(i), START, "uaa");
        }
        let pm_code = app.store_code(code::single());
        let pre_code = app.store_code(if c.past.is_some() { pre_v241() } else { code::pre_approval() });
        let approver_code = app.store_code(code::pre_approver());
        let veto = Some(json!({"timelock_duration": {"height": 1}, "vetoer": "vetoer", "early_execute": true, "veto_before_passed": true}));
        let mut w = World {
            app,
            main: target.clone(),
            pm: Pm { multi: false, addr: target.clone() },
            pre: target.clone(),
            appr: target.clone(),
            appr0: target.clone(),
            cw20,
            target,
            recv,
            pm_code,
            approver_code,
            powers: c.powers,
            open: false,
        };
        // the second DAO
        let powers = [("m0".to_string(), 2u128), ("m1".to_string(), 1)];
        let voting = mock_voting(&mut w.app, &powers);
        let init = Pm::init(false, true, 12, false, json!({"anyone_may_propose": {}}), None);
        let dao = harness(new_dao(&mut w.app, voting, vec![module(pm_code, init)]))?;
        w.appr = dao.core;
        w.appr0 = dao.modules[0].clone();
        // the first
        let powers: Vec<_> = (0..3).map(|i| (user(i), c.powers[i] as u128)).collect();
        let voting = mock_voting(&mut w.app, &powers);
        let approver = match c.approver {
            5 => w.appr.to_string(),
            _ => user(3),
        };
        let policy = if c.anyone {
            json!({"anyone": {"denylist": [user(2)]}})
        } else {
            json!({"specific": {"dao_members": true, "allowlist": [], "denylist": []}})
        };
        let pre = match c.past {
            None => json!({"deposit_info": w.dep(&c.deposit), "submission_policy": policy, "extension": {"approver": approver}}),
            Some(_) => json!({"deposit_info": w.dep(&c.deposit), "open_proposal_submission": c.anyone, "extension": {"approver": approver}}),
        };
        w.open = c.anyone;
        let init = Pm::init(false, c.close_fail, 12, false, pre_info(pre_code, to_json_binary(&pre).unwrap()), if c.veto { veto } else { None });
        let dao = harness(new_dao(&mut w.app, voting, vec![module(pm_code, init)]))?;
        w.main = dao.core;
        w.pm.addr = dao.modules[0].clone();
        w.pre = w.pm.policy(&w.app)?.ok_or_else(|| Fail::new("no approval module"))?;
        for i in 0..4 {
            let m = json!({"increase_allowance": {"spender": w.pre, "amount": "100000", "expires": null}});
            let t = w.cw20.clone();
            harness(exec(&mut w.app, &user(i), &t, &m, &[]))?;
        }
        let mut md = Model {
            deposit: c.deposit.clone(),
            approver: if c.approver == 5 { APPR } else { 3 },
            hooks: vec![],
            subs: vec![],
            created: vec![],
            mods: vec![],
            logs: [vec![], vec![]],
            fails: [false; 2],
            bal: [[START; 2], [START; 2], [START; 2], [START; 2], [0; 2], [0; 2]],
            bumps: 0,
            old: c.past.is_some(),
        };
        advance(&mut w.app, 1, 5);
        let mut pre_ops = vec![];
        if c.approver == 4 {
            pre_ops.push(Op::Do { who: 3, act: Act::SetApprover(4) });
        }
        if c.connect && c.approver == 5 {
            pre_ops.push(Op::Connect);
        }
        let mut waiting: Vec<String> = vec![];
        for (step, o) in pre_ops.iter().chain(&c.ops).enumerate() {
            if md.old && c.past.is_some_and(|p| step >= p as usize + pre_ops.len()) {
                let code = w.app.store_code(pre_new());
                let (dao, a) = (w.main.to_string(), w.pre.clone());
                let to = |pol: &Value| json!({"from_under_v250": {"policy": pol}});
                // a policy that says no more than before need not be given
                let pol = if c.anyone { policy.clone() } else { json!(null) };
                cx.label("upgrading");
                agree("upgrading", &migrate_to(&mut w.app, &dao, &a, code, &to(&pol)), &Ok(()), &["M01"])?;
                agree("upgrading again", &migrate_to(&mut w.app, &dao, &a, code, &to(&pol)), &Err("it is of the current version"), &["M01"])?;
                md.old = false;
                let cfg: Value = q(&w.app, &a, &json!({"config": {}}))?;
                let want = json!({"deposit_info": w.checked(&md.deposit), "submission_policy": policy});
                ensure_eq!(cfg, want, ["M01"], "[{step}] configuration after the upgrade");
                waiting = md.subs.iter().filter(|s| s.outcome.is_none()).map(|s| s.title.clone()).collect();
                self.compare(&w, &md, c, &format!("[{step}] just upgraded"))?;
            }
            cx.log(|| format!("[{step}] {o:?}"));
            self.step(&mut w, &mut md, o, step, c, cx)?;
            self.compare(&w, &md, c, &format!("[{step}]"))?;
        }
        if self.0 {
            cx.nontrivial = md.subs.iter().any(|s| s.outcome.is_some() && waiting.contains(&s.title));
            return Ok(());
        }
        cx.nontrivial = (cx.has("approved") && cx.has("rejected")) || cx.has("approved-by-second-dao") || cx.has("rejected-by-second-dao");
        Ok(())
    }
}

impl Approval {
    fn note(before: &Model, after: &Model, by_dao: bool, cx: &mut Cx) {
        for (a, b) in before.subs.iter().zip(&after.subs) {
            if a.outcome != b.outcome {
                let s = match (b.outcome.unwrap().is_some(), by_dao) {
                    (true, false) => "approved",
                    (false, false) => "rejected",
                    (true, true) => "approved-by-second-dao",
                    (false, true) => "rejected-by-second-dao",
                };
                cx.label(s);
                if b.deposit.is_some() && b.deposit != after.deposit {
                    cx.label("settled-after-config-change");
                }
            }
        }
        if before.approver != after.approver {
            cx.label("approver-changed");
        }
    }

    fn step(&self, w: &mut World, md: &mut Model, o: &Op, step: usize, c: &Case, cx: &mut Cx) -> R {
        let at = format!("[{step}]");
        match o {
            Op::Submit { by, vote, msgs } => {
                let by = *by as usize;
                let cm: Vec<_> = msgs.iter().map(|a| fixed(md, a)).map(|a| (a.clone(), w.msg(md, &a))).collect();
                let title = format!("t{step}");
                let body = w.pm.pre_body(&title, &cm.iter().map(|m| m.1.clone()).collect::<Vec<_>>(), *vote);
                let funds = match &md.deposit {
                    Some(d) if !d.cw20 => coins(d.amount.min(md.bal[by][0]), "uaa"),
                    _ => vec![],
                };
                let funds: Vec<_> = funds.into_iter().filter(|c| !c.amount.is_zero()).collect();
                let pre = w.pre.clone();
                let r = exec(&mut w.app, &user(by), &pre, &body, &funds);
                let mut x = md.clone();
                let id = md.subs.len() as u64 + 1;
                let want = (|| {
                    let member = by < 3 && c.powers[by] > 0;
                    if (c.anyone && by == 2 && !x.old) || (!c.anyone && !member) {
                        return Err("the policy does not allow it");
                    }
                    let d = x.deposit.clone();
                    x.pay(&d, by, POOL)?;
                    x.subs.push(Sub { by, title: title.clone(), vote: *vote, msgs: cm, deposit: d, outcome: None });
                    for h in x.hooks.clone() {
                        match h {
                            6 | 7 => {
                                if x.fails[h - RECV] {
                                    return Err("a receiver fails");
                                }
                                x.logs[h - RECV].push(json!({"from": w.pre, "funds": [], "height": w.app.block_info().height,
                                    "msg": {"propose": {"msg": {"propose": {"title": title, "description": "d", "approval_id": id}}}}}));
                            }
                            h if h >= PRE => {
                                let m = &mut x.mods[h - PRE];
                                if !m.alive {
                                    return Err("the approver module is disconnected");
                                }
                                m.props.push(id);
                            }
                            _ => return Err("the receiver does not understand"),
                        }
                    }
                    Ok(())
                })();
                let t = if want == Err("the policy does not allow it") { T } else { D };
                agree(format!("{at} user{by} submits"), &r, &want, t)?;
                if want.is_ok() {
                    *md = x;
                    cx.label("submitted");
                } else {
                    cx.label("submission-refused");
                }
            }
            Op::Do { .. } | Op::Rule { .. } => {
                let (who, act) = match o {
                    Op::Do { who, act } => (*who as usize, act),
                    Op::Rule { act } if md.approver < 6 => (md.approver, act),
                    _ => return Ok(()),
                };
                let act = &match act {
                    Act::Config(d) if md.old => Act::OldConfig(d.clone()),
                    a => a.clone(),
                };
                let m = w.msg(md, act);
                let r = w.run(who, m);
                let mut x = md.clone();
                let want = x.act(who, act, &c.powers);
                agree(format!("{at} {who} asks for {act:?}"), &r, &want, T)?;
                if want.is_ok() {
                    Self::note(md, &x, false, cx);
                    *md = x;
                } else if matches!(act, Act::Approve(_) | Act::Reject(_)) {
                    cx.label("ruling-refused");
                }
            }
            Op::Connect => {
                let init = to_json_binary(&json!({"pre_propose_approval_contract": w.pre})).unwrap();
                let veto = Some(json!({"timelock_duration": {"height": 1}, "vetoer": "vetoer", "early_execute": true, "veto_before_passed": true}));
                let pm = Pm::init(false, true, 12, false, pre_info(w.approver_code, init), if step % 4 == 1 { veto } else { None });
                let m = json!({"update_proposal_modules": {"to_add": [module(w.pm_code, pm)], "to_disable": []}});
                let a = w.appr.clone();
                let r = as_dao(&mut w.app, &a, vec![wasm_msg(&a, &m)]);
                let want = if md.approver == APPR { Ok(()) } else { Err("the second DAO is not the approver") };
                agree(format!("{at} connecting the second DAO"), &r, &want, T)?;
                if want.is_ok() {
                    let l: Vec<dao_interface::state::ProposalModule> = q(&w.app, &a, &json!({"proposal_modules": {"limit": 100}}))?;
                    let known: Vec<_> = md.mods.iter().map(|m| m.pm.addr.clone()).collect();
                    let new: Vec<_> = l.into_iter().filter(|m| !known.contains(&m.address) && m.address != w.appr0).collect();
                    let p = Pm { multi: false, addr: new.last().ok_or_else(|| Fail::new("no new module"))?.address.clone() };
                    let pre = p.policy(&w.app)?.ok_or_else(|| Fail::new("no approver module"))?;
                    md.hooks.push(PRE + md.mods.len());
                    md.approver = PRE + md.mods.len();
                    md.mods.push(Module { pm: p, pre, alive: true, props: vec![] });
                    cx.label("connected");
                }
            }
            Op::Main { prop, what } => {
                if md.created.is_empty() {
                    return Ok(());
                }
                let id = *prop as u64 % md.created.len() as u64 + 1;
                let pm = w.pm.clone();
                let (name, by, done) = match what {
                    What::Decide(yes) => {
                        for i in 0..3 {
                            let m = pm.vote(id, *yes);
                            let _ = exec(&mut w.app, &user(i), &pm.addr, &m, &[]);
                        }
                        return Ok(());
                    }
                    What::Execute => ("execute", "x", Status::Executed),
                    What::Close => ("close", "x", Status::Closed),
                    What::Veto => ("veto", "vetoer", Status::Vetoed),
                };
                let before = pm.status(&w.app, id)?;
                let mut want = match (what, before) {
                    (What::Execute, Status::Passed) | (What::Close, Status::Rejected) => Ok(()),
                    (What::Veto, Status::Open | Status::VetoTimelock { .. }) if c.veto => Ok(()),
                    _ => Err("wrong status"),
                };
                let r = exec(&mut w.app, by, &pm.addr, &pm.act(name, id), &[]);
                let mut x = md.clone();
                if want.is_ok() {
                    let (sid, _) = x.created[id as usize - 1];
                    let s = x.subs[sid as usize - 1].clone();
                    if name == "execute" {
                                                let mut y = x.clone();
                        let res = s.msgs.iter().try_for_each(|(a, _)| y.act(MAIN, a, &c.powers));
                        match res {
                            Ok(()) => {
                                Self::note(&x, &y, false, cx);
                                x = y;
                                cx.label("created-executed");
                            }
                            Err(e) if !c.close_fail => want = Err(e),
                            Err(_) => cx.label("created-failed"),
                        }
                    } else {
                        cx.label("created-closed");
                    }
                    if want.is_ok() {
                        x.created[id as usize - 1].1 = true;
                        let refund = match &s.deposit {
                            Some(d) => d.refund == 0 || (d.refund == 1 && name == "execute"),
                            None => false,
                        };
                        let _ = x.pay(&s.deposit, POOL, if refund { s.by } else { MAIN });
                    }
                }
                agree(format!("{at} {name} proposal {id}"), &r, &want, D)?;
                if want.is_ok() {
                    *md = x;
                }
            }
            Op::Appr { module, prop, what } => {
                if md.mods.is_empty() {
                    return Ok(());
                }
                let i = if *module == 255 { md.mods.len() - 1 } else { *module as usize % md.mods.len() };
                if md.mods[i].props.is_empty() {
                    return Ok(());
                }
                let id = *prop as u64 % md.mods[i].props.len() as u64 + 1;
                let pm = md.mods[i].pm.clone();
                let (name, by) = match what {
                    What::Decide(yes) => {
                        for who in ["m0", "m1"] {
                            let m = pm.vote(id, *yes);
                            let _ = exec(&mut w.app, who, &pm.addr, &m, &[]);
                        }
                        return Ok(());
                    }
                    What::Execute => ("execute", "m0"),
                    What::Close => ("close", "x"),
                    What::Veto => ("veto", "vetoer"),
                };
                let before = pm.status(&w.app, id)?;
                let r = exec(&mut w.app, by, &pm.addr, &pm.act(name, id), &[]);
                let vetoable = pm.proposal(&w.app, id)?["veto"].is_object();
                let want = match (what, before) {
                    (What::Execute, Status::Passed) | (What::Close, Status::Rejected) => Ok(()),
                    (What::Veto, Status::Open | Status::VetoTimelock { .. }) if vetoable => Ok(()),
                    _ => Err("wrong status"),
                };
                agree(format!("{at} {name} proposal {id} of approver module {i}"), &r, &want, T)?;
                if want.is_ok() && md.mods[i].alive {
                    let aid = md.mods[i].props[id as usize - 1];
                    let mut x = md.clone();
                    let res = match what {
                        What::Execute => x.approve(PRE + i, aid, &c.powers),
                        What::Close => x.reject(PRE + i, aid),
                        _ => Err("a veto is no decision"),
                    };
                    match res {
                        Ok(()) => {
                            Self::note(md, &x, true, cx);
                            *md = x;
                        }
                        // the proposal module lets go of a pre-propose module that fails
                        Err(_) => {
                            md.mods[i].alive = false;
                            cx.label("approver-module-dropped");
                        }
                    }
                }
            }
            Op::BreakHook { hook, fail } => {
                let a = w.recv[*hook as usize].clone();
                harness(exec(&mut w.app, "x", &a, &MockMsg::SetFail { fail: *fail }, &[]))?;
                md.fails[*hook as usize] = *fail;
            }
            Op::Advance(n) => advance(&mut w.app, *n as u64, 5),
        }
        Ok(())
    }

    fn compare(&self, w: &World, md: &Model, c: &Case, at: &str) -> R {
        let ext = |v: Value| json!({"query_extension": {"msg": v}});
        for i in 0..6 {
            let who = match i {
                POOL => w.pre.to_string(),
                i => w.addr(md, i),
            };
            ensure_eq!(
                [bank(&w.app, &who, "uaa"), cw20_balance(&w.app, &w.cw20, &who)],
                md.bal[i],
                @D,
                "{at} balances of {who}"
            );
        }
        for (i, (sid, _)) in md.created.iter().enumerate() {
            let (id, s) = (i + 1, &md.subs[*sid as usize - 1]);
            let Ok(d) = query::<Value, _>(&w.app, &w.pre, &json!({"deposit_info": {"proposal_id": id}})) else {
                return Err(Fail::new(format!("{at} no deposit of proposal {id}")).tag(D));
            };
            ensure_eq!(d, json!({"deposit_info": w.checked(&s.deposit), "proposer": user(s.by)}), @D, "{at} deposit of proposal {id}");
        }
        let a: Addr = q(&w.app, &w.pre, &ext(json!({"approver": {}})))?;
        ensure_eq!(a.to_string(), w.addr(md, md.approver), ["P09"], "{at} approver");
        let h: cw_hooks::HooksResponse = q(&w.app, &w.pre, &json!({"proposal_submitted_hooks": {}}))?;
        let want: Vec<_> = md.hooks.iter().map(|h| w.addr(md, *h)).collect();
        ensure_eq!(h.hooks, want, ["P09"], "{at} receivers of submissions");

        // submissions
        let full = |i: usize, s: &Sub| {
            let msgs: Vec<_> = s.msgs.iter().map(|m| m.1.clone()).collect();
            let mut m = w.pm.body(&s.title, &msgs, s.vote, Some(&user(s.by)));
            json!({
                "status": match s.outcome {
                    None => json!({"pending": {}}),
                    Some(None) => json!({"rejected": {}}),
                    Some(Some(id)) => json!({"approved": {"created_proposal_id": id}}),
                },
                "approval_id": i + 1, "proposer": user(s.by), "msg": m, "deposit": w.checked(&s.deposit),
            })
        };
        let all: Vec<(bool, Value)> = md.subs.iter().enumerate().map(|(i, s)| (s.outcome.is_none(), full(i, s))).collect();
        let list = |pending: bool| all.iter().filter(|x| x.0 == pending).map(|x| x.1.clone()).collect::<Vec<_>>();
        for (pending, fwd, rev) in [(true, "pending_proposals", "reverse_pending_proposals"), (false, "completed_proposals", "reverse_completed_proposals")] {
            let want = list(pending);
            let got: Vec<Value> = q(&w.app, &w.pre, &ext(json!({fwd: {"start_after": null, "limit": 100}})))?;
            ensure_eq!(got, want, ["P09"], "{at} {fwd}");
            let got: Vec<Value> = q(&w.app, &w.pre, &ext(json!({rev: {"start_before": null, "limit": 100}})))?;
            ensure_eq!(got, want.iter().rev().cloned().collect::<Vec<_>>(), ["P09"], "{at} {rev}");
        }
        for (i, (pending, v)) in all.iter().enumerate() {
            let id = i as u64 + 1;
            ensure_eq!(q::<bool, _>(&w.app, &w.pre, &ext(json!({"is_pending": {"id": id}})))?, *pending, ["P09"], "{at} is {id} pending");
            ensure_eq!(q::<Value, _>(&w.app, &w.pre, &ext(json!({"proposal": {"id": id}})))?, *v, ["P09"], "{at} submission {id}");
        }
        let next = md.subs.len() + 1;
        ensure!(query::<Value, _>(&w.app, &w.pre, &ext(json!({"proposal": {"id": next}}))).is_err(), ["P09"], "{at} submission {next} exists");

        // what reached the DAO
        ensure_eq!(w.pm.count(&w.app)?, md.created.len() as u64, ["P09"], "{at} proposals in the DAO");
        ensure_eq!(w.pm.policy(&w.app)?, Some(w.pre.clone()), ["P09"], "{at} the DAO's pre-propose module");
        for (i, (sid, _)) in md.created.iter().enumerate() {
            let id = i as u64 + 1;
            let s = &md.subs[*sid as usize - 1];
            let p = w.pm.proposal(&w.app, id)?;
            let msgs: Vec<_> = s.msgs.iter().map(|m| m.1.clone()).collect();
            ensure_eq!(
                json!([p["title"], p["description"], p["proposer"], p["msgs"]]),
                json!([s.title, "d", user(s.by), msgs]),
                ["P09"],
                "{at} proposal {id} in the DAO"
            );
            let b: Option<u64> = q(&w.app, &w.pre, &ext(json!({"completed_proposal_id_for_created_proposal_id": {"id": id}})))?;
            ensure_eq!(b, Some(*sid), ["P09"], "{at} submission of proposal {id}");
            if let Some(yes) = s.vote {
                let v: Value = q(&w.app, &w.pm.addr, &json!({"get_vote": {"proposal_id": id, "voter": user(s.by)}}))?;
                ensure_eq!(v["vote"]["vote"], json!(if yes { "yes" } else { "no" }), ["P09"], "{at} automatic vote on {id}");
            }
        }
        // and the second DAO
        for (m, x) in md.mods.iter().enumerate() {
            ensure_eq!(x.pm.count(&w.app)?, x.props.len() as u64, ["P09"], "{at} proposals of approver module {m}");
            ensure_eq!(x.pm.policy(&w.app)?, x.alive.then(|| x.pre.clone()), ["P09"], "{at} approver module {m} in force");
            let mut last = BTreeMap::new();
            for (i, aid) in x.props.iter().enumerate() {
                let id = i as u64 + 1;
                last.insert(*aid, id);
                let p = x.pm.proposal(&w.app, id)?;
                ensure_eq!(
                    json!([p["title"], p["proposer"], p["msgs"]]),
                    json!([md.subs[*aid as usize - 1].title, w.pre, []]),
                    ["P09"],
                    "{at} proposal {id} of approver module {m}"
                );
                let b: Option<u64> = q(&w.app, &x.pre, &ext(json!({"pre_propose_approval_id_for_approver_proposal_id": {"id": id}})))?;
                ensure_eq!(b, Some(*aid), ["P09"], "{at} submission behind proposal {id} of approver module {m}");
            }
            for aid in 1..=md.subs.len() as u64 {
                let b: Option<u64> = q(&w.app, &x.pre, &ext(json!({"approver_proposal_id_for_pre_propose_approval_id": {"id": aid}})))?;
                ensure_eq!(b, last.get(&aid).copied(), ["P09"], "{at} approver proposal for submission {aid}");
            }
            for who in [w.pre.to_string(), "m0".into(), w.appr.to_string()] {
                let b: bool = q(&w.app, &x.pre, &json!({"can_propose": {"address": who}}))?;
                ensure_eq!(b, who == w.pre.as_str(), ["P09"], "{at} may {who} propose through approver module {m}");
            }
        }
        for i in 0..2 {
            ensure_eq!(mock_log(&w.app, &w.recv[i]), md.logs[i], ["P09"], "{at} what receiver {i} was told");
        }
        ensure_eq!(mock_count(&w.app, &w.target), md.bumps, ["P09"], "{at} executed messages");
        Ok(())
    }
}

fn pre_v241() -> Box<dyn Contract<Empty>> {
    use dao_pre_propose_approval_single_v241::contract::*;
    Box::new(ContractWrapper::new(execute, instantiate, query))
}
fn pre_new() -> Box<dyn Contract<Empty>> {
    use dao_pre_propose_approval_single::contract::*;
    Box::new(ContractWrapper::new(execute, instantiate, query).with_migrate(migrate))
}

/// References in a message are settled when it is written.
fn fixed(md: &Model, a: &Act) -> Act {
    match a {
        Act::Config(d) if md.old => Act::OldConfig(d.clone()),
        Act::Approve(n) => Act::Approve(128 + md.id(*n) as u8),
        Act::Reject(n) => Act::Reject(128 + md.id(*n) as u8),
        Act::SetApprover(n) => Act::SetApprover(128 + md.resolve(*n) as u8),
        Act::AddHook(n) => Act::AddHook(128 + md.resolve(*n) as u8),
        Act::RemoveHook(n) => Act::RemoveHook(128 + md.resolve(*n) as u8),
        Act::Reset(_) if md.mods.is_empty() => Act::Fail,
        Act::Reset(m) => Act::Reset((*m as usize % md.mods.len()) as u8 + 128),
        a => a.clone(),
    }
}
