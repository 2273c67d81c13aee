//! Proposal and vote hooks, and a pre-propose module, any of which may fail at any time.

use cosmwasm_std::{to_json_binary, Addr, CosmosMsg, Empty};
use dao_voting::status::Status;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

use super::common::*;
use crate::env::*;
use crate::fw::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Bump,
    Fail,
    Add { vote: bool, hook: u8 },
    Remove { vote: bool, hook: u8 },
    /// true: install a new pre-propose module, false: anyone may propose
    Pre(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Propose { by: u8, vote: Option<bool>, msgs: Vec<Act> },
    Vote { by: u8, prop: u8, yes: bool },
    Decide { prop: u8, yes: bool },
    Execute { prop: u8 },
    Close { prop: u8 },
    Veto { prop: u8 },
    Admin { by_dao: bool, act: Act },
    Break { hook: u8, fail: bool },
    BreakPre(bool),
    Advance(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub multi: bool,
    pub close_fail: bool,
    pub pre: bool,
    pub veto: Option<u8>,
    pub powers: [u8; 3],
    /// who is subscribed to proposals / votes at the start
    pub subs: (Vec<u8>, Vec<u8>),
    pub ops: Vec<Op>,
}

/// hooks 0..4 are contracts, 4 is an address with no contract behind it
const HOOKS: usize = 5;

fn act() -> BoxedStrategy<Act> {
    let h = || prop_oneof![12 => 0u8..4, 1 => Just(4u8)];
    prop_oneof![
        3 => Just(Act::Bump),
        1 => Just(Act::Fail),
        4 => (any::<bool>(), h()).prop_map(|(vote, hook)| Act::Add { vote, hook }),
        3 => (any::<bool>(), h()).prop_map(|(vote, hook)| Act::Remove { vote, hook }),
        2 => prop::bool::weighted(0.7).prop_map(Act::Pre),
    ]
    .boxed()
}

fn op() -> BoxedStrategy<Op> {
    let p = || 0u8..4;
    prop_oneof![
        6 => (0u8..3, prop::option::weighted(0.4, any::<bool>()), prop::collection::vec(act(), 0..3)).prop_map(|(by, vote, msgs)| Op::Propose { by, vote, msgs }),
        6 => (0u8..3, p(), any::<bool>()).prop_map(|(by, prop, yes)| Op::Vote { by, prop, yes }),
        4 => (p(), prop::bool::weighted(0.65)).prop_map(|(prop, yes)| Op::Decide { prop, yes }),
        6 => p().prop_map(|prop| Op::Execute { prop }),
        4 => p().prop_map(|prop| Op::Close { prop }),
        2 => p().prop_map(|prop| Op::Veto { prop }),
        5 => (prop::bool::weighted(0.8), act()).prop_map(|(by_dao, act)| Op::Admin { by_dao, act }),
        3 => (0u8..4, prop::bool::weighted(0.6)).prop_map(|(hook, fail)| Op::Break { hook, fail }),
        1 => any::<bool>().prop_map(Op::BreakPre),
        3 => (1u8..4).prop_map(Op::Advance),
    ]
    .boxed()
}

#[derive(Clone, Debug, PartialEq)]
struct Lists {
    prop: Vec<usize>,
    vote: Vec<usize>,
}

#[derive(Clone, Debug)]
struct Prop {
    msgs: Vec<Act>,
    recorded: String,
    voted: BTreeSet<usize>,
    expiry: u64,
}

#[derive(Clone, Debug)]
struct Model {
    lists: Lists,
    fails: Vec<bool>,
    logs: Vec<Vec<Value>>,
    props: Vec<Prop>,
    pre: Option<usize>,
    pres: Vec<Option<Addr>>,
    pre_fails: Vec<bool>,
    pre_logs: Vec<Vec<Value>>,
    bumps: u64,
}

impl Model {
    fn act(&mut self, a: &Act) -> Result<(), &'static str> {
        let list = |l: &mut Lists, vote: bool| -> *mut Vec<usize> { if vote { &mut l.vote } else { &mut l.prop } };
        match a {
            Act::Bump => self.bumps += 1,
            Act::Fail => return Err("message fails"),
            Act::Add { vote, hook } => {
                let l = if *vote { &mut self.lists.vote } else { &mut self.lists.prop };
                let h = *hook as usize;
                if l.contains(&h) {
                    return Err("already subscribed");
                }
                l.push(h);
            }
            Act::Remove { vote, hook } => {
                let l = if *vote { &mut self.lists.vote } else { &mut self.lists.prop };
                let h = *hook as usize;
                let Some(i) = l.iter().position(|x| *x == h) else { return Err("not subscribed") };
                l.remove(i);
            }
            Act::Pre(true) => {
                self.pres.push(None);
                self.pre_fails.push(false);
                self.pre_logs.push(vec![]);
                self.pre = Some(self.pres.len() - 1);
            }
            Act::Pre(false) => self.pre = None,
        }
        let _ = list;
        Ok(())
    }
}

struct World {
    app: VApp,
    core: Addr,
    pm: Pm,
    mock_code: u64,
    target: Addr,
    hooks: Vec<Addr>,
}

impl World {
    fn msg(&self, a: &Act) -> CosmosMsg<Empty> {
        let hook = |verb: &str, vote: bool, h: u8| {
            let k = format!("{verb}_{}_hook", if vote { "vote" } else { "proposal" });
            wasm_msg(&self.pm.addr, &json!({k: {"address": self.hooks[h as usize]}}))
        };
        match a {
            Act::Bump => wasm_msg(&self.target, &MockMsg::Bump {}),
            Act::Fail => wasm_msg(&self.target, &MockMsg::Fail {}),
            Act::Add { vote, hook: h } => hook("add", *vote, *h),
            Act::Remove { vote, hook: h } => hook("remove", *vote, *h),
            Act::Pre(true) => wasm_msg(&self.pm.addr, &json!({"update_pre_propose_info": {"info": pre_info(self.mock_code, to_json_binary(&json!({})).unwrap())}})),
            Act::Pre(false) => wasm_msg(&self.pm.addr, &json!({"update_pre_propose_info": {"info": {"anyone_may_propose": {}}}})),
        }
    }
}

/// What a transaction makes the module announce, in order.
enum Ev {
    /// to these proposal subscribers
    Prop(Vec<usize>, Value),
    Vote(Vec<usize>, Value),
    Pre(usize, Value),
}

pub struct Hooks;

impl Scenario for Hooks {
    type Case = Case;
    fn name(&self) -> &'static str {
        "hooks"
    }
    fn rule(&self) -> &'static str {
        "a subscriber or the pre-propose module failed and the operation went through, with other subscribers told"
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let subs = || prop::collection::vec(0u8..4, 0..4);
        (
            any::<bool>(),
            any::<bool>(),
            prop::bool::weighted(0.5),
            prop::option::weighted(0.3, 0u8..3),
            [1u8..6, 0u8..4, 0u8..4],
            (subs(), subs()),
            prop::collection::vec(op(), 8..40),
        )
            .prop_map(|(multi, close_fail, pre, veto, powers, subs, ops)| Case { multi, close_fail, pre, veto, powers, subs, ops })
            .boxed()
    }

    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        let mut app = new_app();
        let target = new_mock(&mut app);
        let mut hooks: Vec<Addr> = (0..4).map(|_| new_mock(&mut app)).collect();
        hooks.push(Addr::unchecked("nobody"));
        let powers: Vec<_> = (0..3).map(|i| (user(i), c.powers[i] as u128)).collect();
        let voting = mock_voting(&mut app, &powers);
        let pm_code = app.store_code(Pm::code(c.multi));
        let mock_code = app.store_code(code::mock());
        let veto = c.veto.map(|d| json!({
            "timelock_duration": {"height": d}, "vetoer": "vetoer", "early_execute": true, "veto_before_passed": true,
        }));
        let info = if c.pre {
            pre_info(mock_code, to_json_binary(&json!({})).unwrap())
        } else {
            json!({"anyone_may_propose": {}})
        };
        let dao = harness(new_dao(
            &mut app,
            voting,
            vec![module(pm_code, Pm::init(c.multi, c.close_fail, 8, false, info, veto))],
        ))?;
        let mut w = World { app, core: dao.core, pm: Pm { multi: c.multi, addr: dao.modules[0].clone() }, mock_code, target, hooks };
        let mut md = Model {
            lists: Lists { prop: vec![], vote: vec![] },
            fails: vec![false, false, false, false, true],
            logs: vec![vec![]; HOOKS],
            props: vec![],
            pre: None,
            pres: vec![],
            pre_fails: vec![],
            pre_logs: vec![],
            bumps: 0,
        };
        if c.pre {
            let _ = md.act(&Act::Pre(true));
        }
        self.learn(&w, &mut md)?;
        let ops = c
            .subs
            .0
            .iter()
            .map(|h| Act::Add { vote: false, hook: *h })
            .chain(c.subs.1.iter().map(|h| Act::Add { vote: true, hook: *h }))
            .map(|act| Op::Admin { by_dao: true, act })
            .chain(c.ops.iter().cloned())
            .collect::<Vec<_>>();
        for (step, o) in ops.iter().enumerate() {
            cx.log(|| format!("[{step}] {o:?}"));
            match o {
                // decide is many votes
                Op::Decide { prop, yes } => {
                    for by in 0..3 {
                        self.step(&mut w, &mut md, &Op::Vote { by, prop: *prop, yes: *yes }, step, c, cx)?;
                    }
                }
                o => self.step(&mut w, &mut md, o, step, c, cx)?,
            }
        }
        cx.nontrivial = (cx.has("dropped-one") || cx.has("pre-propose-dropped")) && cx.has("told");
        Ok(())
    }
}

impl Hooks {
    fn learn(&self, w: &World, md: &mut Model) -> R {
        if let Some(m) = md.pre {
            if md.pres[m].is_none() {
                let a = w.pm.policy(&w.app)?;
                ensure!(a.is_some(), ["P10", "P08"], "the pre-propose module the DAO installed is not in force");
                md.pres[m] = a;
            }
        }
        Ok(())
    }

    fn step(&self, w: &mut World, md: &mut Model, o: &Op, step: usize, c: &Case, cx: &mut Cx) -> R {
        let t: &[&'static str] = &["P10"];
        let h = w.app.block_info().height;
        let id_of = |p: u8, n: usize| p as u64 % n.max(1) as u64 + 1;
        let pm = w.pm.addr.clone();
        match o {
            Op::Propose { by, vote, msgs } => {
                let who = *by as usize;
                let cm: Vec<_> = msgs.iter().map(|a| w.msg(a)).collect();
                let title = format!("t{step}");
                let id = md.props.len() as u64 + 1;
                let power = c.powers[who] > 0;
                let ok = if vote.is_some() && !power { Err("no power to vote") } else { Ok(()) };
                let r = match md.pre {
                    None => {
                        let b = json!({"propose": w.pm.body(&title, &cm, *vote, None)});
                        exec(&mut w.app, &user(who), &pm, &b, &[])
                    }
                    Some(m) => {
                        let b = json!({"propose": w.pm.body(&title, &cm, *vote, Some(&user(who)))});
                        let a = md.pres[m].clone().unwrap();
                        exec(&mut w.app, "x", &a, &MockMsg::Run { msgs: vec![wasm_msg(&pm, &b)] }, &[])
                    }
                };
                let mut evs = vec![Ev::Prop(md.lists.prop.clone(), json!({"proposal_hook": {"new_proposal": {"id": id, "proposer": user(who)}}}))];
                let mut next = md.clone();
                let mut p = Prop { msgs: msgs.clone(), recorded: "open".into(), voted: BTreeSet::new(), expiry: h + 8 };
                if ok.is_ok() {
                    if let Some(yes) = vote {
                        p.voted.insert(who);
                        let now = if reverted(&r) { "?".into() } else { w.pm.status(&w.app, id).map(|s| s.to_string()).unwrap_or("open".into()) };
                        self.vote_events(w, md, id, who, *yes, &mut p, now, &mut evs);
                    }
                    next.props.push(p);
                }
                self.settle(w, md, next, r.map(|_| ()), ok, evs, &format!("[{step}] proposing"), cx)?;
            }
            Op::Vote { by, prop, yes } => {
                let who = *by as usize;
                if md.props.is_empty() {
                    return Ok(());
                }
                let id = id_of(*prop, md.props.len());
                let mut p = md.props[id as usize - 1].clone();
                let ok = if h >= p.expiry {
                    Err("expired")
                } else if c.powers[who] == 0 {
                    Err("no power")
                } else if p.voted.contains(&who) {
                    Err("voted")
                } else {
                    Ok(())
                };
                let m = w.pm.vote(id, *yes);
                let r = exec(&mut w.app, &user(who), &pm, &m, &[]);
                let mut evs = vec![];
                let mut next = md.clone();
                if ok.is_ok() {
                    p.voted.insert(who);
                    let now = if reverted(&r) { "?".into() } else { w.pm.status(&w.app, id)?.to_string() };
                    self.vote_events(w, md, id, who, *yes, &mut p, now, &mut evs);
                    next.props[id as usize - 1] = p;
                }
                self.settle(w, md, next, r.map(|_| ()), ok, evs, &format!("[{step}] voting on {id}"), cx)?;
            }
            Op::Execute { prop } | Op::Close { prop } | Op::Veto { prop } => {
                if md.props.is_empty() {
                    return Ok(());
                }
                let id = id_of(*prop, md.props.len());
                let before = w.pm.status(&w.app, id)?;
                let (what, by, done) = match o {
                    Op::Execute { .. } => ("execute", "user0", Status::Executed),
                    Op::Close { .. } => ("close", "user0", Status::Closed),
                    _ => ("veto", "vetoer", Status::Vetoed),
                };
                let m = w.pm.act(what, id);
                let r = exec(&mut w.app, by, &pm, &m, &[]);
                let mut ok = match (o, before) {
                    (Op::Execute { .. }, Status::Passed) | (Op::Close { .. }, Status::Rejected) => Ok(()),
                    (Op::Veto { .. }, Status::Open | Status::VetoTimelock { .. }) if c.veto.is_some() => Ok(()),
                    _ => Err("wrong status"),
                };
                let mut next = md.clone();
                let mut evs = vec![];
                let mut recorded = done.clone();
                if ok.is_ok() {
                    evs.push(Ev::Prop(
                        md.lists.prop.clone(),
                        json!({"proposal_hook": {"proposal_status_changed": {"id": id, "old_status": before.to_string(), "new_status": done.to_string()}}}),
                    ));
                    if let Some(m) = md.pre {
                        evs.push(Ev::Pre(m, json!({"proposal_completed_hook": {"proposal_id": id, "new_status": what_status(&done)}})));
                    }
                    if what == "execute" {
                        let mut x = md.clone();
                        let res = md.props[id as usize - 1].msgs.iter().try_for_each(|a| x.act(a));
                        match res {
                            Ok(()) => {
                                next = x;
                                cx.label("executed");
                            }
                            Err(e) if !c.close_fail => ok = Err(e),
                            Err(_) => {
                                cx.label("execution-failed");
                                recorded = Status::ExecutionFailed;
                            }
                        }
                    } else {
                        cx.label(if what == "close" { "closed" } else { "vetoed" });
                    }
                    next.props[id as usize - 1].recorded = recorded.to_string();
                }
                self.settle(w, md, next, r.map(|_| ()), ok, evs, &format!("[{step}] {what} {id}"), cx)?;
                if ok.is_ok() {
                    let after = w.pm.status(&w.app, id)?;
                    ensure!(
                        after == done || (what == "execute" && c.close_fail && after == Status::ExecutionFailed),
                        ["P10"],
                        "[{step}] {what} {id} left it {after:?}"
                    );
                }
            }
            Op::Admin { by_dao, act } => {
                let mut next = md.clone();
                let m = w.msg(act);
                if *by_dao {
                    let ok = next.act(act);
                    let core = w.core.clone();
                    let r = as_dao(&mut w.app, &core, vec![m]);
                    self.settle(w, md, next, r, ok, vec![], &format!("[{step}] DAO {act:?}"), cx)?;
                } else if !matches!(act, Act::Bump | Act::Fail) {
                    let by = if matches!(act, Act::Add { .. }) { "admin" } else { "user0" };
                    let r = exec_msg(&mut w.app, by, m).map(|_| ());
                    self.settle(w, md, next, r, Err("only the DAO may"), vec![], &format!("[{step}] {by} {act:?}"), cx)?;
                }
            }
            Op::Break { hook, fail } => {
                let a = w.hooks[*hook as usize].clone();
                harness(exec(&mut w.app, "x", &a, &MockMsg::SetFail { fail: *fail }, &[]))?;
                md.fails[*hook as usize] = *fail;
            }
            Op::BreakPre(fail) => {
                if let Some(m) = md.pre {
                    let a = md.pres[m].clone().unwrap();
                    harness(exec(&mut w.app, "x", &a, &MockMsg::SetFail { fail: *fail }, &[]))?;
                    md.pre_fails[m] = *fail;
                }
            }
            Op::Advance(n) => advance(&mut w.app, *n as u64, 5),
            Op::Decide { .. } => unreachable!(),
        }
        let _ = t;
        Ok(())
    }

    fn vote_events(&self, w: &World, md: &Model, id: u64, who: usize, yes: bool, p: &mut Prop, now: String, evs: &mut Vec<Ev>) {
        if now != p.recorded {
            evs.push(Ev::Prop(
                md.lists.prop.clone(),
                json!({"proposal_hook": {"proposal_status_changed": {"id": id, "old_status": p.recorded, "new_status": now}}}),
            ));
            p.recorded = now;
        }
        let vote = match (w.pm.multi, yes) {
            (false, true) => "yes",
            (false, false) => "no",
            (true, true) => "0",
            (true, false) => "2",
        };
        evs.push(Ev::Vote(
            md.lists.vote.clone(),
            json!({"vote_hook": {"new_vote": {"proposal_id": id, "voter": user(who), "vote": vote}}}),
        ));
    }

    /// Judge the transaction: `next` is the state without any announcement's effect.
    fn settle(&self, w: &World, md: &mut Model, mut next: Model, got: Result<(), String>, ok: Result<(), &'static str>, evs: Vec<Ev>, what: &str, cx: &mut Cx) -> R {
        if let Err(e) = ok {
            agree(what, &got, &Err(e), &["P10"])?;
            return self.compare(w, md, what);
        }
        // the lists as they come out when failed receivers are removed by stale index
        let mut by_index = Some(next.lists.clone());
        let (mut fp, mut fv) = (0, 0);
        let mut told = false;
        let installed = next.pre;
        let mut pre_failed = None;
        for e in &evs {
            match e {
                Ev::Prop(to, v) | Ev::Vote(to, v) => {
                    let is_vote = matches!(e, Ev::Vote(..));
                    for (i, h) in to.iter().enumerate() {
                        if !next.fails[*h] {
                            next.logs[*h].push(json!({"from": w.pm.addr, "msg": v, "funds": [], "height": w.app.block_info().height}));
                            told = true;
                            continue;
                        }
                        let l = if is_vote { &mut next.lists.vote } else { &mut next.lists.prop };
                        l.retain(|x| x != h);
                        *(if is_vote { &mut fv } else { &mut fp }) += 1;
                        if let Some(b) = &mut by_index {
                            let l = if is_vote { &mut b.vote } else { &mut b.prop };
                            if i < l.len() {
                                l.remove(i);
                            } else {
                                by_index = None;
                            }
                        }
                    }
                }
                Ev::Pre(m, v) => {
                    if next.pre_fails[*m] {
                        if next.pre == Some(*m) {
                            next.pre = None;
                        }
                        pre_failed = Some(*m);
                        cx.label("pre-propose-dropped");
                    } else {
                        next.pre_logs[*m].push(json!({"from": w.pm.addr, "msg": v, "funds": [], "height": w.app.block_info().height}));
                    }
                }
            }
        }
        if fp + fv > 0 {
            cx.label(if fp + fv > 1 { "dropped-several" } else { "dropped-one" });
        }
        if told && fp + fv > 0 {
            cx.label("told");
        }
        // known: the failing pre-propose module was replaced by the very proposal executed
        if pre_failed.is_some() && installed != pre_failed {
            let opened = w.pm.policy(&w.app)?;
            if installed.is_none() && got.as_ref().err().map_or(false, |e| e.contains("invalid ID: (4)")) {
                return Err(Fail::new(format!("{what}: reverted because the replaced pre-propose module failed"))
                    .tag(&["P10"])
                    .sig("execution-reverts-when-it-opened-proposal-creation-and-old-pre-propose-module-fails"));
            }
            if installed.is_some() && got.is_ok() && opened.is_none() {
                return Err(Fail::new(format!("{what}: the newly installed pre-propose module was dropped for its predecessor"))
                    .tag(&["P10"])
                    .sig("new-pre-propose-module-dropped-for-predecessor"));
            }
        }
        if by_index.as_ref() != Some(&next.lists) {
            // Removal by position goes wrong here; is that what happened?
            cx.label("stale-index");
            let sig = if fp > 1 || fv > 1 {
                "several-failing-hook-calls-in-one-transaction-removed-by-stale-index"
            } else {
                "hook-list-changed-by-executed-proposal-then-failing-hook-removed-by-stale-index"
            };
            let bad = match (&by_index, &got) {
                (None, Err(e)) => e.contains("panic") && e.contains("removal index"),
                (Some(l), Ok(())) => self.lists(w)? == self.names(w, l),
                _ => false,
            };
            if bad {
                return Err(Fail::new(format!(
                    "{what}: {fp} proposal and {fv} vote hook calls failed; {}",
                    match &got {
                        Err(e) => format!("the transaction was reverted: {}", &e[e.len().saturating_sub(120)..]),
                        Ok(()) => format!("subscribers left {:?}, expected {:?}", self.lists(w)?, self.names(w, &next.lists)),
                    }
                ))
                .tag(&["P10"])
                .sig(sig));
            }
        }
        agree(what, &got, &Ok(()), &["P10"])?;
        *md = next;
        self.learn(w, md)?;
        self.compare(w, md, what)
    }

    fn names(&self, w: &World, l: &Lists) -> (Vec<String>, Vec<String>) {
        let n = |v: &Vec<usize>| v.iter().map(|h| w.hooks[*h].to_string()).collect();
        (n(&l.prop), n(&l.vote))
    }
    fn lists(&self, w: &World) -> R<(Vec<String>, Vec<String>)> {
        let a: cw_hooks::HooksResponse = q(&w.app, &w.pm.addr, &json!({"proposal_hooks": {}}))?;
        let b: cw_hooks::HooksResponse = q(&w.app, &w.pm.addr, &json!({"vote_hooks": {}}))?;
        Ok((a.hooks, b.hooks))
    }

    fn compare(&self, w: &World, md: &Model, what: &str) -> R {
        let sort = |mut x: (Vec<String>, Vec<String>)| {
            x.0.sort();
            x.1.sort();
            x
        };
        ensure_eq!(sort(self.lists(w)?), sort(self.names(w, &md.lists)), ["P10"], "{what}: subscribers");
        for i in 0..4 {
            ensure_eq!(mock_log(&w.app, &w.hooks[i]), md.logs[i], ["P10"], "{what}: what subscriber {i} was told");
        }
        for (i, a) in md.pres.iter().enumerate() {
            if let Some(a) = a {
                ensure_eq!(mock_log(&w.app, a), md.pre_logs[i], ["P10"], "{what}: what pre-propose module {i} was told");
            }
        }
        let want = md.pre.and_then(|m| md.pres[m].clone());
        ensure_eq!(w.pm.policy(&w.app)?, want, ["P10"], "{what}: pre-propose module in force");
        ensure_eq!(mock_count(&w.app, &w.target), md.bumps, ["P10"], "{what}: executed messages");
        ensure_eq!(w.pm.count(&w.app)?, md.props.len() as u64, ["P10"], "{what}: proposals");
        for (i, p) in md.props.iter().enumerate() {
            for u in 0..3 {
                let v: Value = q(&w.app, &w.pm.addr, &json!({"get_vote": {"proposal_id": i + 1, "voter": user(u)}}))?;
                ensure_eq!(!v["vote"].is_null(), p.voted.contains(&u), ["P10"], "{what}: vote of user {u} on {} counted", i + 1);
            }
        }
        Ok(())
    }
}

/// A subscriber's removal reverted the transaction, so the status it led to can no longer be
/// seen: suppose that it changed.
fn reverted<T>(r: &Result<T, String>) -> bool {
    r.as_ref().err().map_or(false, |e| e.contains("removal index"))
}

fn what_status(s: &Status) -> Value {
    serde_json::to_value(s).unwrap()
}
