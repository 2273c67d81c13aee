//! Multiple-choice proposals: an exact model of decisions, ballots and life cycle.

use cosmwasm_std::{coins, to_json_binary, Addr, BankMsg, BlockInfo, CosmosMsg, Uint128};
use cw_utils::Expiration;
use dao_proposal_multiple::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use dao_proposal_multiple::query::{
    ProposalListResponse, ProposalResponse, VoteInfo, VoteListResponse, VoteResponse,
};
use dao_voting::pre_propose::PreProposeInfo;
use dao_voting::multiple_choice::{MultipleChoiceAutoVote, MultipleChoiceOption, MultipleChoiceOptionType, MultipleChoiceOptions, MultipleChoiceVote, VotingStrategy};
use dao_voting::proposal::MultipleChoiceProposeMsg;
use dao_voting::status::Status;
use dao_voting::threshold::PercentageThreshold;
use dao_voting::veto::VetoConfig;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

use super::common::*;
use crate::env::*;
use crate::fw::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VetoSpec {
    pub dur: u8,
    pub early: bool,
    pub before: bool,
    /// the vetoer is user0 instead of an outside address
    pub is_user: bool,
    pub wrong_unit: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CfgSpec {
    pub thr: PctSpec,
    pub time: bool,
    pub max: u8,
    pub min: Option<u8>,
    pub min_wrong_unit: bool,
    pub members: bool,
    pub revote: bool,
    pub close_fail: bool,
    pub veto: Option<VetoSpec>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Msg {
    Bump,
    Fail,
    Send(u8),
    /// execute another (or the same) proposal of this module, as the DAO
    Execute(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Propose { by: u8, vote: Option<u8>, choices: Vec<Vec<Msg>>, huge: bool, named: bool },
    Vote { prop: u8, by: u8, vote: u8, rationale: Option<u8> },
    Rationale { prop: u8, by: u8, r: Option<u8> },
    Execute { prop: u8, by: u8 },
    Close { prop: u8, by: u8 },
    Veto { prop: u8, by: u8 },
    /// every user votes this way
    AllVote { prop: u8, vote: u8 },
    Advance(u8),
    SetPower { who: u8, power: u128 },
    Config { by_dao: bool, cfg: CfgSpec },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub cfg: CfgSpec,
    pub powers: Vec<u128>,
    pub ops: Vec<Op>,
    pub page: u8,
}

fn thr() -> BoxedStrategy<PctSpec> {
    prop_oneof![6 => pct(), 2 => Just(PctSpec::Zero), 3 => (1u16..500).prop_map(PctSpec::Permille)].boxed()
}

fn veto() -> BoxedStrategy<VetoSpec> {
    (0u8..=5, any::<bool>(), any::<bool>(), prop::bool::weighted(0.2))
        .prop_map(|(dur, early, before, is_user)| VetoSpec {
            dur,
            early,
            before,
            is_user,
            wrong_unit: false,
        })
        .boxed()
}

pub fn cfg_valid(veto_p: f64) -> BoxedStrategy<CfgSpec> {
    (
        thr(),
        any::<bool>(),
        prop_oneof![1 => 1u8..=3, 3 => 3u8..=14],
        prop::option::weighted(0.3, 0u8..=8),
        prop::bool::weighted(0.4),
        prop::bool::weighted(0.35),
        any::<bool>(),
        prop::option::weighted(veto_p, veto()),
    )
        .prop_map(|(thr, time, max, min, members, revote, close_fail, veto)| CfgSpec {
            thr,
            time,
            max,
            min: min.map(|m| m.min(max)),
            min_wrong_unit: false,
            members,
            revote,
            close_fail,
            veto,
        })
        .boxed()
}

fn cfg_any(veto_p: f64) -> BoxedStrategy<CfgSpec> {
    let bad = (cfg_valid(0.6), 0u8..6).prop_map(|(mut c, k)| {
        match k {
            0..=2 => c.thr = PctSpec::Over,
            3 => c.min = Some(c.max + 1),
            4 => {
                c.min = Some(1);
                c.min_wrong_unit = true
            }
            _ => {
                if let Some(v) = &mut c.veto {
                    v.wrong_unit = true
                } else {
                    c.thr = PctSpec::Over
                }
            }
        }
        c
    });
    prop_oneof![4 => cfg_valid(veto_p), 1 => bad].boxed()
}

fn msgs() -> BoxedStrategy<Vec<Msg>> {
    prop::collection::vec(
        prop_oneof![
            5 => Just(Msg::Bump),
            2 => Just(Msg::Fail),
            3 => (0u8..=30).prop_map(Msg::Send),
            1 => (0u8..4).prop_map(Msg::Execute),
        ],
        0..4,
    )
    .boxed()
}

fn choices() -> BoxedStrategy<Vec<Vec<Msg>>> {
    prop_oneof![
        8 => prop::collection::vec(msgs(), 2..5),
        2 => prop::collection::vec(prop::collection::vec(Just(Msg::Bump), 0..2), 0..23),
    ]
    .boxed()
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Decision,
    Ballots,
    Life,
}

fn op(f: Focus) -> BoxedStrategy<Op> {
    let (wv, wx, wa, wp, wc) = match f {
        Focus::Decision => (14, 2, 3, 0, 0),
        Focus::Ballots => (12, 1, 3, 3, 2),
        Focus::Life => (8, 9, 4, 1, 1),
    };
    let prop_i = || prop_oneof![30 => 0u8..4, 1 => Just(9u8)];
    let by_i = || prop_oneof![30 => 0u8..18, 1 => Just(18u8), 1 => Just(19u8), 4 => Just(20u8), 1 => Just(22u8)];
    let veto_by = prop_oneof![3 => 0u8..18, 1 => Just(18u8), 9 => Just(20u8), 1 => Just(22u8)];
    prop_oneof![
        2 => (by_i(), prop::option::weighted(0.4, prop_oneof![3 => 0u8..5, 1 => any::<u8>()]), choices(), prop::bool::weighted(0.02), prop::bool::weighted(0.05))
            .prop_map(|(by, vote, choices, huge, named)| Op::Propose { by, vote, choices, huge, named }),
        wv => (prop_i(), by_i(), prop_oneof![4 => Just(0u8), 4 => Just(1u8), 2 => Just(2u8), 2 => Just(254u8), 1 => 0u8..25], prop::option::weighted(0.2, 0u8..3))
            .prop_map(|(prop, by, vote, rationale)| Op::Vote { prop, by, vote, rationale }),
        (if f == Focus::Life { 6 } else { 1 }) => (prop_i(), prop_oneof![4 => Just(0u8), 2 => Just(1u8), 1 => Just(254u8)])
            .prop_map(|(prop, vote)| Op::AllVote { prop, vote }),
        1 => (prop_i(), by_i(), prop::option::of(0u8..3)).prop_map(|(prop, by, r)| Op::Rationale { prop, by, r }),
        wx => (prop_i(), by_i()).prop_map(|(prop, by)| Op::Execute { prop, by }),
        (wx / 2).max(1) => (prop_i(), by_i()).prop_map(|(prop, by)| Op::Close { prop, by }),
        (wx / 2).max(1) => (prop_i(), veto_by).prop_map(|(prop, by)| Op::Veto { prop, by }),
        wa => prop_oneof![5 => 1u8..=2, 1 => 1u8..=9].prop_map(Op::Advance),
        wp.max(1) => (0u8..6, amount()).prop_map(|(who, power)| Op::SetPower { who, power }),
        wc.max(1) => (prop::bool::weighted(0.85), cfg_any(0.4)).prop_map(|(by_dao, cfg)| Op::Config { by_dao, cfg }),
    ]
    .boxed()
}

pub struct Multi(pub Focus);

// ------------------------------------------------------------------ model

#[derive(Clone, Debug, PartialEq)]
struct MCfg {
    thr: PercentageThreshold,
    time: bool,
    max: u64,
    min: Option<u64>,
    members: bool,
    revote: bool,
    close_fail: bool,
    veto: Option<(u64, String, bool, bool)>,
}

#[derive(Clone, Debug)]
struct MProp {
    proposer: String,
    start: u64,
    time: bool,
    expiry: u64,
    min: Option<u64>,
    thr: PercentageThreshold,
    total: u128,
    powers: BTreeMap<String, u128>,
    choices: Vec<Vec<Msg>>,
    status: Status,
    revote: bool,
    veto: Option<(u64, String, bool, bool)>,
    ballots: BTreeMap<String, (u32, u128, Option<String>)>,
}

impl MProp {
    /// weight per option; the last one is "none of the above"
    fn tally(&self) -> Vec<u128> {
        let mut t = vec![0u128; self.choices.len() + 1];
        for (v, p, _) in self.ballots.values() {
            t[*v as usize] += p;
        }
        t
    }
    /// The option that wins were voting to end with this tally.
    fn final_winner(&self, t: &[u128]) -> Option<usize> {
        let cast: u128 = t.iter().sum();
        if !meets(cast, self.total, &self.thr) {
            return None;
        }
        let top = *t.iter().max().unwrap();
        let winners: Vec<usize> = (0..t.len()).filter(|i| t[*i] == top).collect();
        if winners.len() != 1 || winners[0] == t.len() - 1 {
            return None;
        }
        Some(winners[0])
    }
    fn expired(&self, b: &BlockInfo) -> bool {
        now(self.time, b) >= self.expiry
    }
    /// Decision by looking at how the remaining votes could still fall.
    fn decide(&self, b: &BlockInfo) -> Option<bool> {
        let t = self.tally();
        let now_wins = self.final_winner(&t);
        if self.expired(b) {
            return Some(now_wins.is_some());
        }
        if self.revote {
            return None;
        }
        let rest = self.total - t.iter().sum::<u128>();
        // extreme completions: nobody else votes, or everybody else votes for one option
        let mut ends = vec![now_wins];
        for i in 0..t.len() {
            let mut x = t.clone();
            x[i] += rest;
            ends.push(self.final_winner(&x));
        }
        if now_wins.is_some()
            && ends.iter().all(|x| *x == now_wins)
            && self.min.map(|m| now(self.time, b) >= m).unwrap_or(true)
        {
            return Some(true);
        }
        if ends.iter().all(|x| x.is_none()) {
            return Some(false);
        }
        None
    }
    fn current(&self, b: &BlockInfo) -> Status {
        match self.status {
            Status::Open => match self.decide(b) {
                None => Status::Open,
                Some(false) => Status::Rejected,
                Some(true) => match &self.veto {
                    None => Status::Passed,
                    Some((d, ..)) => {
                        let until = self.expiry + d;
                        if now(self.time, b) >= until {
                            Status::Passed
                        } else {
                            Status::VetoTimelock { expiration: exp_at(self.time, until) }
                        }
                    }
                },
            },
            Status::VetoTimelock { expiration } => {
                if expiration.is_expired(b) {
                    Status::Passed
                } else {
                    self.status
                }
            }
            s => s,
        }
    }
}

#[derive(Clone)]
struct Model {
    cfg: MCfg,
    props: Vec<MProp>,
    powers: BTreeMap<String, u128>,
    /// powers as of the start of the current block
    eff: BTreeMap<String, u128>,
    /// (first height at which in effect, powers)
    history: Vec<(u64, BTreeMap<String, u128>)>,
    bumps: u64,
    dao_bal: u128,
    sink_bal: u128,
    depth: u32,
}

const DENOM: &str = "ugov";

/// 254: none of the above; others taken modulo one more than the options there are, now and then
/// one past the end.
fn option_of(v: u8, p: &MProp) -> u32 {
    let n = p.choices.len() as u32;
    match v {
        254 => n,
        v if v > 20 => n + 1,
        v => v as u32 % (n + 1),
    }
}

fn resolve_cfg(c: &CfgSpec, powers: &[u128]) -> (MCfg, bool) {
    let thr = c.thr.resolve(powers);
    let mut ok = match &thr {
        PercentageThreshold::Majority {} => true,
        PercentageThreshold::Percent(d) => d.atomics().u128() <= ONE18,
    };
    if let Some(m) = c.min {
        ok &= m <= c.max && !c.min_wrong_unit;
    }
    if let Some(v) = &c.veto {
        ok &= !v.wrong_unit;
    }
    (
        MCfg {
            thr,
            time: c.time,
            max: c.max as u64,
            min: c.min.map(|m| m as u64),
            members: c.members,
            revote: c.revote,
            close_fail: c.close_fail,
            veto: c.veto.as_ref().map(|v| {
                let who = if v.is_user { user(0) } else { "vetoer".to_string() };
                (v.dur as u64, who, v.early, v.before)
            }),
        },
        ok,
    )
}

fn veto_cfg(c: &CfgSpec, m: &MCfg) -> Option<VetoConfig> {
    let s = c.veto.as_ref()?;
    let (d, who, early, before) = m.veto.clone()?;
    Some(VetoConfig {
        timelock_duration: dur(c.time ^ s.wrong_unit, d),
        vetoer: who,
        early_execute: early,
        veto_before_passed: before,
    })
}

fn who(i: u8, n: usize, vetoer: &str, core: &Addr) -> String {
    match i {
        0..=17 => user(i as usize % n),
        18 => user(5),
        19 => "outsider".into(),
        20 | 21 => vetoer.to_string(),
        _ => core.to_string(),
    }
}

impl Model {
    fn can_member(&self, p: &MProp, sender: &str) -> bool {
        p.powers.get(sender).copied().unwrap_or(0) > 0
    }

    /// The effect of executing proposal i by `sender`.
    fn execute(&mut self, i: usize, sender: &str, core: &Addr, b: &BlockInfo) -> Result<(), &'static str> {
        let Some(p) = self.props.get(i) else { return Err("no such proposal") };
        let p = p.clone();
        let can = !self.cfg.members || self.can_member(&p, sender);
        match p.current(b) {
            Status::Passed => {
                if !can {
                    return Err("only members execute");
                }
            }
            Status::VetoTimelock { .. } => {
                let (_, vetoer, early, _) = p.veto.clone().unwrap();
                if vetoer != sender || !early {
                    return Err("timelocked");
                }
            }
            _ => return Err("not passed"),
        }
        self.props[i].status = Status::Executed;
        let win = p.final_winner(&p.tally()).expect("model: passed without winner");
        let msgs = p.choices[win].clone();
        if msgs.is_empty() {
            return Ok(());
        }
        let save = self.clone();
        let mut failed = false;
        self.depth += 1;
        for m in &msgs {
            let ok = match m {
                Msg::Bump => {
                    self.bumps += 1;
                    true
                }
                Msg::Fail => false,
                Msg::Send(n) => {
                    let n = *n as u128;
                    if n == 0 || self.dao_bal < n {
                        false
                    } else {
                        self.dao_bal -= n;
                        self.sink_bal += n;
                        true
                    }
                }
                Msg::Execute(j) => {
                    let j = *j as usize;
                    self.execute(j, core.as_str(), core, b).is_ok()
                }
            };
            if !ok {
                failed = true;
                break;
            }
        }
        self.depth -= 1;
        if failed {
            if self.cfg.close_fail {
                *self = save;
                self.props[i].status = Status::ExecutionFailed;
                Ok(())
            } else {
                Err("a message fails")
            }
        } else {
            Ok(())
        }
    }

    fn powers_at(&self, h: u64) -> BTreeMap<String, u128> {
        self.history.iter().filter(|(x, _)| *x <= h).next_back().map(|x| x.1.clone()).unwrap_or_default()
    }
}

impl Scenario for Multi {
    type Case = Case;
    fn name(&self) -> &'static str {
        match self.0 {
            Focus::Decision => "multiple-decision",
            Focus::Ballots => "multiple-ballots",
            Focus::Life => "multiple-lifecycle",
        }
    }
    fn rule(&self) -> &'static str {
        match self.0 {
            Focus::Decision => "DAO with freely chosen powers; propose and vote over blocks. Non-trivial: at least two counted votes on one proposal and a proposal that was decided (passed/rejected/timelocked) before or at expiry.",
            Focus::Ballots => "as above with revotes, power changes and config updates. Non-trivial: at least two counted votes and (a replaced ballot, or a power/config change after a proposal was made, or a refused second ballot).",
            Focus::Life => "full life cycle with failing messages, vetoes and closes. Non-trivial: at least one proposal reached Executed, ExecutionFailed, Closed or Vetoed and at least one execute/close/veto attempt was refused.",
        }
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let f = self.0;
        let veto_p = match f {
            Focus::Decision => 0.1,
            Focus::Ballots => 0.2,
            Focus::Life => 0.6,
        };
        let n = match f {
            Focus::Life => 6..34usize,
            _ => 4..26usize,
        };
        let powers = prop_oneof![
            4 => prop::collection::vec(0u128..=6, 1..6),
            3 => prop::collection::vec(0u128..=1000, 1..6),
            2 => prop::collection::vec(amount(), 1..6),
        ];
        (prop_oneof![40 => cfg_valid(veto_p), 1 => cfg_any(veto_p)], powers, prop::collection::vec(op(f), n), 1u8..5)
            .prop_map(move |(cfg, powers, mut ops, page)| {
                // a proposal always exists before the rest
                ops.insert(0, Op::Propose { by: 0, vote: None, choices: vec![vec![Msg::Bump], vec![Msg::Send(3)]], huge: false, named: false });
                Case { cfg, powers, ops, page }
            })
            .boxed()
    }

    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        let mut app = new_app();
        let users: Vec<String> = (0..c.powers.len()).map(user).collect();
        let powers: BTreeMap<String, u128> =
            users.iter().cloned().zip(c.powers.iter().copied()).collect();
        let (cfg, ok) = resolve_cfg(&c.cfg, &c.powers);
        let v = mock_voting(&mut app, &powers.clone().into_iter().collect::<Vec<_>>());
        let single = app.store_code(code::multiple());
        let init = InstantiateMsg {
            voting_strategy: VotingStrategy::SingleChoice { quorum: cfg.thr },
            max_voting_period: dur(c.cfg.time, cfg.max),
            min_voting_period: cfg.min.map(|m| dur(c.cfg.time ^ c.cfg.min_wrong_unit, m)),
            only_members_execute: cfg.members,
            allow_revoting: cfg.revote,
            pre_propose_info: PreProposeInfo::AnyoneMayPropose {},
            close_proposal_on_execution_failure: cfg.close_fail,
            veto: veto_cfg(&c.cfg, &cfg),
        };
        let dao = new_dao(&mut app, v, vec![module(single, to_json_binary(&init).unwrap())]);
        agree("creating the DAO", &dao, &if ok { Ok(()) } else { Err("invalid configuration") }, &["P05", "P04"])?;
        let Ok(dao) = dao else {
            cx.label("bad-setup");
            return Ok(());
        };
        let m = dao.modules[0].clone();
        let core = dao.core.clone();
        let target = new_mock(&mut app);
        fund_account(&mut app, core.as_str(), 100, DENOM);
        let mut md = Model {
            cfg,
            props: vec![],
            eff: powers.clone(),
            history: vec![(0, powers.clone())],
            powers,
            bumps: 0,
            dao_bal: 100,
            sink_bal: 0,
            depth: 0,
        };
        let mut voted = 0u64;
        let nu = users.len();
        let ops = expand(&c.ops, nu);
        let to_cosmos = |x: &Msg| -> CosmosMsg {
            match x {
                Msg::Bump => wasm_msg(&target, &MockMsg::Bump {}),
                Msg::Fail => wasm_msg(&target, &MockMsg::Fail {}),
                Msg::Send(n) => {
                    BankMsg::Send { to_address: "sink".into(), amount: coins(*n as u128, DENOM) }.into()
                }
                Msg::Execute(j) => wasm_msg(&m, &ExecuteMsg::Execute { proposal_id: *j as u64 + 1 }),
            }
        };
        for (step, op) in ops.iter().enumerate() {
            let b = app.block_info();
            let np = md.props.len();
            let vetoer_of = |i: usize| {
                md.props.get(i).and_then(|p| p.veto.as_ref().map(|v| v.1.clone())).unwrap_or("vetoer".into())
            };
            cx.log(|| format!("[{step}] h={} t={} {:?}", b.height, b.time.seconds(), op));
            match op {
                Op::Propose { by, vote, choices, huge, named } => {
                    if np >= 4 {
                        continue;
                    }
                    let by = who(*by, nu, "vetoer", &core);
                    let eff = md.powers_at(b.height);
                    let total: u128 = eff.values().sum();
                    let power = eff.get(&by).copied().unwrap_or(0);
                    let mut p = MProp {
                        proposer: by.clone(),
                        start: b.height,
                        time: md.cfg.time,
                        expiry: now(md.cfg.time, &b) + md.cfg.max,
                        min: md.cfg.min.map(|x| now(md.cfg.time, &b) + x),
                        thr: md.cfg.thr.clone(),
                        total,
                        powers: eff,
                        choices: choices.clone(),
                        status: Status::Open,
                        revote: md.cfg.revote,
                        veto: md.cfg.veto.clone(),
                        ballots: BTreeMap::new(),
                    };
                    p.status = p.current(&b);
                    let choice = vote.map(|v| option_of(v, &p));
                    let msg = MultipleChoiceProposeMsg {
                        title: format!("p{np}"),
                        description: if *huge { "x".repeat(31_000) } else { "d".into() },
                        choices: MultipleChoiceOptions {
                            options: choices
                                .iter()
                                .enumerate()
                                .map(|(i, c)| MultipleChoiceOption {
                                    title: format!("t{i}"),
                                    description: format!("o{i}"),
                                    msgs: c.iter().map(to_cosmos).collect(),
                                })
                                .collect(),
                        },
                        proposer: if *named { Some(user(1)) } else { None },
                        vote: choice.map(|option_id| MultipleChoiceAutoVote { vote: MultipleChoiceVote { option_id }, rationale: Some("auto".into()) }),
                    };
                    let mut want = Ok(());
                    if !(2..=20).contains(&choices.len()) {
                        cx.label("bad-choice-count");
                        want = Err("number of choices");
                    } else if choice.map_or(false, |x| x as usize > choices.len()) {
                        want = Err("no such option");
                    } else if *named {
                        want = Err("cannot name another proposer");
                    } else if *huge {
                        want = Err("too large");
                    } else if vote.is_some() && power == 0 {
                        want = Err("proposer cannot vote");
                    }
                    let got = exec(&mut app, &by, &m, &ExecuteMsg::Propose(msg), &[]);
                    agree(format!("[{step}] propose by {by}"), &got, &want, &["P05"])?;
                    if want.is_ok() {
                        if let Some(v) = choice {
                            p.ballots.insert(by, (v, power, Some("auto".into())));
                            p.status = p.current(&b);
                            voted += 1;
                        }
                        md.props.push(p);
                        cx.label("proposed");
                    }
                }
                Op::Vote { prop, by, vote, rationale } => {
                    let i = pick(*prop, np);
                    let by = who(*by, nu, "vetoer", &core);
                    let mut want = Ok(());
                    let mut option_id = 0;
                    if let Some(p) = md.props.get_mut(i) {
                        option_id = option_of(*vote, p);
                        let power = p.powers.get(&by).copied().unwrap_or(0);
                        if option_id as usize > p.choices.len() {
                            want = Err("no such option");
                            cx.label("no-such-option");
                        } else if p.expired(&b) {
                            want = Err("voting ended");
                            cx.label("late-vote");
                        } else if power == 0 {
                            want = Err("no power at start");
                        } else if let Some(old) = p.ballots.get(&by) {
                            if !p.revote {
                                want = Err("already voted");
                                cx.label("second-ballot");
                            } else if old.0 == option_id {
                                want = Err("same vote again");
                            } else {
                                cx.label("revote");
                            }
                        }
                        if want.is_ok() {
                            p.ballots.insert(by.clone(), (option_id, power, rationale.map(|r| r.to_string())));
                            p.status = p.current(&b);
                            voted += 1;
                            if matches!(p.status, Status::Executed | Status::Closed | Status::Vetoed | Status::ExecutionFailed) {
                                cx.label("vote-after-end");
                            }
                        }
                    } else {
                        want = Err("no such proposal");
                    }
                    let got = exec(
                        &mut app,
                        &by,
                        &m,
                        &ExecuteMsg::Vote {
                            proposal_id: i as u64 + 1,
                            vote: MultipleChoiceVote { option_id },
                            rationale: rationale.map(|r| r.to_string()),
                        },
                        &[],
                    );
                    agree(format!("[{step}] vote by {by} on {}", i + 1), &got, &want, &["P05"])?;
                }
                Op::Rationale { prop, by, r } => {
                    let i = pick(*prop, np);
                    let by = who(*by, nu, "vetoer", &core);
                    let mut want = Err("no ballot");
                    if let Some(bal) = md.props.get_mut(i).and_then(|p| p.ballots.get_mut(&by)) {
                        bal.2 = r.map(|x| x.to_string());
                        want = Ok(());
                    }
                    let got = exec(
                        &mut app,
                        &by,
                        &m,
                        &ExecuteMsg::UpdateRationale { proposal_id: i as u64 + 1, rationale: r.map(|x| x.to_string()) },
                        &[],
                    );
                    agree(format!("[{step}] rationale"), &got, &want, &["P05"])?;
                }
                Op::Execute { prop, by } => {
                    let i = pick(*prop, np);
                    let by = who(*by, nu, &vetoer_of(i), &core);
                    let mut next = md.clone();
                    let before = next.props.get(i).map(|p| p.current(&b));
                    let want = next.execute(i, &by, &core, &b);
                    let got = exec(&mut app, &by, &m, &ExecuteMsg::Execute { proposal_id: i as u64 + 1 }, &[]);
                    agree(format!("[{step}] execute {} by {by} ({before:?})", i + 1), &got, &want, &["P05"])?;
                    if want.is_ok() {
                        md = next;
                        cx.label(match md.props[i].status {
                            Status::ExecutionFailed => "execution-failed",
                            _ => "executed",
                        });
                        if matches!(before, Some(Status::VetoTimelock { .. })) {
                            cx.label("early-executed");
                        }
                    } else {
                        cx.label("refused-action");
                        if matches!(before, Some(Status::Passed)) {
                            cx.label("refused-execute-of-passed");
                        }
                        if matches!(before, Some(Status::VetoTimelock { .. })) {
                            cx.label("refused-execute-of-timelocked");
                        }
                        if matches!(before, Some(Status::Executed)) {
                            cx.label("refused-second-execute");
                        }
                    }
                }
                Op::Close { prop, by } => {
                    let i = pick(*prop, np);
                    let by = who(*by, nu, &vetoer_of(i), &core);
                    let mut want = Err("not rejected");
                    if let Some(p) = md.props.get_mut(i) {
                        if p.current(&b) == Status::Rejected {
                            p.status = Status::Closed;
                            want = Ok(());
                        }
                    }
                    cx.label(if want.is_ok() { "closed" } else { "refused-action" });
                    let got = exec(&mut app, &by, &m, &ExecuteMsg::Close { proposal_id: i as u64 + 1 }, &[]);
                    agree(format!("[{step}] close {}", i + 1), &got, &want, &["P05"])?;
                }
                Op::Veto { prop, by } => {
                    let i = pick(*prop, np);
                    let by = who(*by, nu, &vetoer_of(i), &core);
                    let mut want = Err("not vetoable");
                    if let Some(p) = md.props.get_mut(i) {
                        if let Some((_, vetoer, _, before)) = p.veto.clone() {
                            let st = p.current(&b);
                            let may = match st {
                                Status::Open => before,
                                Status::VetoTimelock { .. } => true,
                                _ => false,
                            };
                            if vetoer == by && may {
                                p.status = Status::Vetoed;
                                want = Ok(());
                            }
                        }
                    }
                    cx.label(if want.is_ok() { "vetoed" } else { "refused-action" });
                    let got = exec(&mut app, &by, &m, &ExecuteMsg::Veto { proposal_id: i as u64 + 1 }, &[]);
                    agree(format!("[{step}] veto {} by {by}", i + 1), &got, &want, &["P05"])?;
                }
                Op::AllVote { .. } => {}
                Op::Advance(n) => {
                    advance(&mut app, *n as u64, *n as u64);
                    md.eff = md.powers_at(app.block_info().height);
                }
                Op::SetPower { who: w, power } => {
                    md.powers.insert(user(*w as usize), *power);
                    let at = b.height + 1;
                    md.history.retain(|(h, _)| *h != at);
                    md.history.push((at, md.powers.clone()));
                    let list: Vec<_> = md.powers.clone().into_iter().collect();
                    harness(exec(&mut app, "x", &dao.voting, &powers_msg(&list), &[]))?;
                    if np > 0 {
                        cx.label("power-change-after-proposal");
                    }
                }
                Op::Config { by_dao, cfg } => {
                    let pw: Vec<u128> = md.powers.values().copied().collect();
                    let (n, ok) = resolve_cfg(cfg, &pw);
                    let msg = ExecuteMsg::UpdateConfig {
                        voting_strategy: VotingStrategy::SingleChoice { quorum: n.thr },
                        max_voting_period: dur(cfg.time, n.max),
                        min_voting_period: n.min.map(|x| dur(cfg.time ^ cfg.min_wrong_unit, x)),
                        only_members_execute: n.members,
                        allow_revoting: n.revote,
                        dao: core.to_string(),
                        close_proposal_on_execution_failure: n.close_fail,
                        veto: veto_cfg(cfg, &n),
                    };
                    let got = if *by_dao {
                        as_dao(&mut app, &core, vec![wasm_msg(&m, &msg)])
                    } else {
                        exec(&mut app, &user(0), &m, &msg, &[]).map(|_| ())
                    };
                    let want = if !*by_dao {
                        Err("not the DAO")
                    } else if !ok {
                        Err("invalid configuration")
                    } else {
                        Ok(())
                    };
                    agree(format!("[{step}] config update"), &got, &want, &["P05"])?;
                    if want.is_ok() {
                        md.cfg = n;
                        if np > 0 {
                            cx.label("config-change-after-proposal");
                        }
                    }
                }
            }
            self.compare(&app, &md, &m, &core, &target, step, cx)?;
        }
        self.listings(&app, &md, &m, c.page)?;
        let l = |x: &str| cx.has(x);
        cx.nontrivial = match self.0 {
            Focus::Decision => voted >= 2 && (l("decided-early") || l("decided-at-expiry")),
            Focus::Ballots => {
                voted >= 2
                    && (l("revote")
                        || l("second-ballot")
                        || l("power-change-after-proposal")
                        || l("config-change-after-proposal"))
            }
            Focus::Life => {
                l("refused-action")
                    && (l("executed") || l("execution-failed") || l("closed") || l("vetoed"))
            }
        };
        Ok(())
    }
}

fn pick(i: u8, n: usize) -> usize {
    if i == 9 || n == 0 {
        n
    } else {
        i as usize % n
    }
}

fn expand(ops: &[Op], users: usize) -> Vec<Op> {
    let mut out = vec![];
    for o in ops {
        match o {
            Op::AllVote { prop, vote } => out.extend((0..users).map(|i| Op::Vote {
                prop: *prop,
                by: i as u8,
                vote: *vote,
                rationale: None,
            })),
            o => out.push(o.clone()),
        }
    }
    out
}

fn same_exp(e: &Expiration, time: bool, at: u64) -> bool {
    *e == exp_at(time, at)
}

impl Multi {
    fn compare(&self, app: &VApp, md: &Model, m: &Addr, core: &Addr, target: &Addr, step: usize, cx: &mut Cx) -> R {
        let b = app.block_info();
        for (i, p) in md.props.iter().enumerate() {
            let id = i as u64 + 1;
            let r: ProposalResponse = q(app, m, &QueryMsg::Proposal { proposal_id: id })?;
            let g = r.proposal;
            let t = p.tally();
            let got: Vec<u128> = g.votes.vote_weights.iter().map(|x| x.u128()).collect();
            ensure_eq!(got, t, ["P05"], "[{step}] proposal {id} tally");
            // the choices are the proposed ones, in order, with "none" last
            let got: Vec<_> = g.choices.iter().map(|c| (c.index, c.msgs.len(), c.option_type == MultipleChoiceOptionType::None)).collect();
            let mut want: Vec<_> = p.choices.iter().enumerate().map(|(i, c)| (i as u32, c.len(), false)).collect();
            want.push((p.choices.len() as u32, 0, true));
            ensure_eq!(got, want, ["P05", "P04"], "[{step}] proposal {id} choices");
            let n = p.choices.len();
            let got: Vec<_> = g.choices.iter().take(n).map(|c| (c.title.clone(), c.description.clone())).collect();
            let want: Vec<_> = (0..n).map(|i| (format!("t{i}"), format!("o{i}"))).collect();
            ensure_eq!(got, want, ["P05"], "[{step}] what the choices of proposal {id} say");
            let want = p.current(&b);
            let kind = |s: &Status| match s {
                Status::Open | Status::Passed | Status::Rejected => 0,
                _ => 1,
            };
            if g.status != want {
                let f = Fail::new(format!(
                    "[{step}] proposal {id} (thr {:?}, total {}, votes {:?}, expiry {} now {} revote {}) status: code {:?}, oracle {:?}",
                    p.thr, p.total, t, p.expiry, now(p.time, &b), p.revote, g.status, want
                ));
                let timelock = |s: &Status| matches!(s, Status::VetoTimelock { .. });
                let tags: &[&'static str] = if kind(&g.status) == 0 && kind(&want) == 0 && p.veto.is_none() {
                    &["P04"]
                } else if (kind(&g.status) == 0 || timelock(&g.status)) && (kind(&want) == 0 || timelock(&want)) {
                    &["P04", "P05"]
                } else {
                    &["P05"]
                };
                return Err(f.tag(tags));
            }
            if !p.expired(&b) && want != Status::Open {
                cx.label("decided-early");
            } else if want != Status::Open && !p.ballots.is_empty() {
                cx.label("decided-at-expiry");
            }
            ensure_eq!(g.proposer.to_string(), p.proposer, ["P05"], "[{step}] proposal {id} proposer");
            ensure_eq!(g.total_power.u128(), p.total, ["P05", "P04"], "[{step}] proposal {id} total power");
            ensure_eq!(g.start_height, p.start, ["P05"], "[{step}] proposal {id} start");
            ensure!(same_exp(&g.expiration, p.time, p.expiry), ["P05", "P04"], "[{step}] proposal {id} expiration {:?}", g.expiration);
            ensure!(
                match (&g.min_voting_period, p.min) {
                    (None, None) => true,
                    (Some(e), Some(x)) => same_exp(e, p.time, x),
                    _ => false,
                },
                ["P05", "P04"],
                "[{step}] proposal {id} minimum voting period"
            );
            ensure_eq!(g.voting_strategy.get_quorum(), p.thr, ["P05", "P04"], "[{step}] proposal {id} quorum");
            ensure_eq!(g.allow_revoting, p.revote, ["P05", "P04"], "[{step}] proposal {id} revoting");
            let gv = g.veto.map(|v| (v.timelock_duration, v.vetoer, v.early_execute, v.veto_before_passed));
            let wv = p.veto.clone().map(|v| (dur(p.time, v.0), v.1, v.2, v.3));
            ensure_eq!(gv, wv, ["P05"], "[{step}] proposal {id} veto rules");
            for u in 0..6usize {
                let v = user(u);
                let r: VoteResponse = q(app, m, &QueryMsg::GetVote { proposal_id: id, voter: v.clone() })?;
                let got = r.vote.map(|x| (x.vote, x.power.u128(), x.rationale));
                let want = p.ballots.get(&v).map(|x| (MultipleChoiceVote { option_id: x.0 }, x.1, x.2.clone()));
                ensure_eq!(got, want, ["P05"], "[{step}] ballot of {v} on {id}");
            }
        }
        ensure_eq!(mock_count(app, target), md.bumps, ["P04", "P05"], "[{step}] number of executed messages");
        ensure_eq!(bank(app, core.as_str(), DENOM), md.dao_bal, ["P04", "P05"], "[{step}] DAO balance");
        ensure_eq!(bank(app, "sink", DENOM), md.sink_bal, ["P04", "P05"], "[{step}] receiver balance");
        Ok(())
    }

    fn listings(&self, app: &VApp, md: &Model, m: &Addr, page: u8) -> R {
        let n: u64 = q(app, m, &QueryMsg::ProposalCount {})?;
        ensure_eq!(n, md.props.len() as u64, ["P05"], "proposal count");
        let n: u64 = q(app, m, &QueryMsg::NextProposalId {})?;
        ensure_eq!(n, md.props.len() as u64 + 1, ["P05"], "next proposal id");
        let r: dao_proposal_multiple::state::Config = q(app, m, &QueryMsg::Config {})?;
        ensure_eq!(r.voting_strategy.get_quorum(), md.cfg.thr, ["P05"], "configured threshold");
        ensure_eq!(r.allow_revoting, md.cfg.revote, ["P05"], "configured revoting");
        for rev in [false, true] {
            let mut seen = vec![];
            let mut after: Option<u64> = None;
            loop {
                let msg = if rev {
                    QueryMsg::ReverseProposals { start_before: after, limit: Some(page as u64) }
                } else {
                    QueryMsg::ListProposals { start_after: after, limit: Some(page as u64) }
                };
                let r: ProposalListResponse = q(app, m, &msg)?;
                ensure!(r.proposals.len() <= page as usize, ["P05"], "page longer than its limit");
                if r.proposals.is_empty() {
                    break;
                }
                for p in &r.proposals {
                    let one: ProposalResponse = q(app, m, &QueryMsg::Proposal { proposal_id: p.id })?;
                    ensure_eq!(p, &one, ["P05"], "listing entry {}", p.id);
                }
                seen.extend(r.proposals.iter().map(|p| p.id));
                after = seen.last().copied();
                ensure!(seen.len() <= md.props.len() + 1, ["P05"], "listing does not end");
            }
            let mut want: Vec<u64> = (1..=md.props.len() as u64).collect();
            if rev {
                want.reverse();
            }
            ensure_eq!(seen, want, ["P05"], "paged proposals (reverse {rev})");
        }
        for (i, p) in md.props.iter().enumerate() {
            let mut seen: Vec<VoteInfo> = vec![];
            let mut after: Option<String> = None;
            loop {
                let r: VoteListResponse = q(
                    app,
                    m,
                    &QueryMsg::ListVotes { proposal_id: i as u64 + 1, start_after: after, limit: Some(page as u64) },
                )?;
                ensure!(r.votes.len() <= page as usize, ["P05"], "page longer than its limit");
                if r.votes.is_empty() {
                    break;
                }
                seen.extend(r.votes);
                after = seen.last().map(|v| v.voter.to_string());
                ensure!(seen.len() <= p.ballots.len() + 1, ["P05"], "vote listing does not end");
            }
            let got: Vec<_> = seen.into_iter().map(|v| (v.voter.to_string(), v.vote, v.power.u128(), v.rationale)).collect();
            let want: Vec<_> =
                p.ballots.iter().map(|(w, x)| (w.clone(), MultipleChoiceVote { option_id: x.0 }, x.1, x.2.clone())).collect();
            ensure_eq!(got, want, ["P05"], "paged votes of {}", i + 1);
        }
        Ok(())
    }
}
