//! Single-choice proposals: an exact model of decisions, ballots and life cycle.

use cosmwasm_std::{coins, to_json_binary, Addr, BankMsg, BlockInfo, CosmosMsg, Uint128};
use cw_utils::Expiration;
use dao_proposal_single::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use dao_proposal_single::query::{
    ProposalListResponse, ProposalResponse, VoteInfo, VoteListResponse, VoteResponse,
};
use dao_voting::pre_propose::PreProposeInfo;
use dao_voting::proposal::SingleChoiceProposeMsg;
use dao_voting::status::Status;
use dao_voting::threshold::{PercentageThreshold, Threshold};
use dao_voting::veto::VetoConfig;
use dao_voting::voting::{SingleChoiceAutoVote, Vote};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;

use super::common::*;
use crate::env::*;
use crate::fw::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ThrSpec {
    Abs(PctSpec),
    Quorum(PctSpec, PctSpec),
    Count { mask: u8, delta: i8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VetoSpec {
    pub dur: u8,
    pub early: bool,
    pub before: bool,
    /// the vetoer is user0 instead of an outside address
    pub is_user: bool,
    pub wrong_unit: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CfgSpec {
    pub thr: ThrSpec,
    pub time: bool,
    pub max: u8,
    pub min: Option<u8>,
    pub min_wrong_unit: bool,
    pub members: bool,
    pub revote: bool,
    pub close_fail: bool,
    pub veto: Option<VetoSpec>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Msg {
    Bump,
    Fail,
    Send(u8),
    /// execute another (or the same) proposal of this module, as the DAO
    Execute(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Propose { by: u8, vote: Option<u8>, msgs: Vec<Msg>, huge: bool, named: bool },
    Vote { prop: u8, by: u8, vote: u8, rationale: Option<u8> },
    Rationale { prop: u8, by: u8, r: Option<u8> },
    Execute { prop: u8, by: u8 },
    Close { prop: u8, by: u8 },
    Veto { prop: u8, by: u8 },
    /// every user votes this way
    AllVote { prop: u8, vote: u8 },
    Advance(u8),
    SetPower { who: u8, power: u128 },
    Config { by_dao: bool, cfg: CfgSpec },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub cfg: CfgSpec,
    pub powers: Vec<u128>,
    pub ops: Vec<Op>,
    pub page: u8,
    /// the module starts out as an older version and is upgraded on the way
    #[serde(default)]
    pub past: Option<Past>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Past {
    /// version 1, else 2.4.1
    pub v1: bool,
    /// upgraded before this step
    pub n: u8,
    pub close_fail: bool,
    pub veto: Option<VetoSpec>,
    /// a pre-propose module comes with the upgrade
    pub pre: bool,
    /// what a proposal costs under version 1
    pub dep: Option<u8>,
    pub hooks: u8,
}

fn thr() -> BoxedStrategy<ThrSpec> {
    prop_oneof![
        4 => pct().prop_map(ThrSpec::Abs),
        6 => (pct(), prop_oneof![
                4 => pct(),
                1 => Just(PctSpec::Zero),
            ]).prop_map(|(a, b)| ThrSpec::Quorum(a, b)),
        3 => (any::<u8>(), -1i8..=1).prop_map(|(mask, delta)| ThrSpec::Count { mask, delta }),
    ]
    .boxed()
}

fn veto() -> BoxedStrategy<VetoSpec> {
    (0u8..=5, any::<bool>(), any::<bool>(), prop::bool::weighted(0.2))
        .prop_map(|(dur, early, before, is_user)| VetoSpec {
            dur,
            early,
            before,
            is_user,
            wrong_unit: false,
        })
        .boxed()
}

pub fn cfg_valid(veto_p: f64) -> BoxedStrategy<CfgSpec> {
    (
        thr(),
        any::<bool>(),
        prop_oneof![1 => 1u8..=3, 3 => 3u8..=14],
        prop::option::weighted(0.3, 0u8..=8),
        prop::bool::weighted(0.4),
        prop::bool::weighted(0.35),
        any::<bool>(),
        prop::option::weighted(veto_p, veto()),
    )
        .prop_map(|(thr, time, max, min, members, revote, close_fail, veto)| CfgSpec {
            thr,
            time,
            max,
            min: min.map(|m| m.min(max)),
            min_wrong_unit: false,
            members,
            revote,
            close_fail,
            veto,
        })
        .boxed()
}

fn cfg_any(veto_p: f64) -> BoxedStrategy<CfgSpec> {
    let bad = (cfg_valid(0.6), 0u8..6).prop_map(|(mut c, k)| {
        match k {
            0 => c.thr = ThrSpec::Abs(PctSpec::Zero),
            1 => c.thr = ThrSpec::Quorum(PctSpec::Over, PctSpec::Majority),
            2 => c.thr = ThrSpec::Quorum(PctSpec::Majority, PctSpec::Over),
            3 => c.min = Some(c.max + 1),
            4 => {
                c.min = Some(1);
                c.min_wrong_unit = true
            }
            _ => {
                if let Some(v) = &mut c.veto {
                    v.wrong_unit = true
                } else {
                    c.thr = ThrSpec::Count { mask: 0, delta: 0 }
                }
            }
        }
        c
    });
    prop_oneof![4 => cfg_valid(veto_p), 1 => bad].boxed()
}

fn msgs() -> BoxedStrategy<Vec<Msg>> {
    prop::collection::vec(
        prop_oneof![
            5 => Just(Msg::Bump),
            2 => Just(Msg::Fail),
            3 => (0u8..=30).prop_map(Msg::Send),
            1 => (0u8..4).prop_map(Msg::Execute),
        ],
        0..4,
    )
    .boxed()
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Decision,
    Ballots,
    Life,
    Upgrade,
}

fn past() -> BoxedStrategy<Past> {
    (
        (prop::bool::weighted(0.75), 3u8..16, any::<bool>()),
        (
            prop::option::weighted(0.4, (veto(), prop::bool::weighted(0.06))),
            prop::bool::weighted(0.15),
            prop::option::weighted(0.2, 0u8..3),
            any::<u8>(),
        ),
    )
        .prop_map(|((v1, n, close_fail), (veto, pre, dep, hooks))| Past {
            v1,
            n,
            close_fail,
            veto: veto.map(|(v, bad)| VetoSpec { wrong_unit: bad, ..v }),
            pre,
            dep,
            hooks,
        })
        .boxed()
}

fn op(f: Focus) -> BoxedStrategy<Op> {
    let (wv, wx, wa, wp, wc) = match f {
        Focus::Decision => (14, 2, 3, 0, 0),
        Focus::Ballots => (12, 1, 3, 3, 2),
        Focus::Life | Focus::Upgrade => (8, 9, 4, 1, 1),
    };
    let prop_i = || prop_oneof![30 => 0u8..4, 1 => Just(9u8)];
    let by_i = || prop_oneof![30 => 0u8..18, 1 => Just(18u8), 1 => Just(19u8), 4 => Just(20u8), 1 => Just(22u8)];
    let veto_by = prop_oneof![3 => 0u8..18, 1 => Just(18u8), 9 => Just(20u8), 1 => Just(22u8)];
    prop_oneof![
        2 => (by_i(), prop::option::weighted(0.5, prop_oneof![3 => Just(0u8), 1 => 0u8..3]), msgs(), prop::bool::weighted(0.02), prop::bool::weighted(0.05))
            .prop_map(|(by, vote, msgs, huge, named)| Op::Propose { by, vote, msgs, huge, named }),
        wv => (prop_i(), by_i(), prop_oneof![5 => Just(0u8), 3 => Just(1u8), 2 => Just(2u8)], prop::option::weighted(0.2, 0u8..3))
            .prop_map(|(prop, by, vote, rationale)| Op::Vote { prop, by, vote, rationale }),
        (if matches!(f, Focus::Life | Focus::Upgrade) { 6 } else { 1 }) => (prop_i(), prop_oneof![4 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)])
            .prop_map(|(prop, vote)| Op::AllVote { prop, vote }),
        1 => (prop_i(), by_i(), prop::option::of(0u8..3)).prop_map(|(prop, by, r)| Op::Rationale { prop, by, r }),
        wx => (prop_i(), by_i()).prop_map(|(prop, by)| Op::Execute { prop, by }),
        (wx / 2).max(1) => (prop_i(), by_i()).prop_map(|(prop, by)| Op::Close { prop, by }),
        (wx / 2).max(1) => (prop_i(), veto_by).prop_map(|(prop, by)| Op::Veto { prop, by }),
        wa => prop_oneof![5 => 1u8..=2, 1 => 1u8..=9].prop_map(Op::Advance),
        wp.max(1) => (0u8..6, amount()).prop_map(|(who, power)| Op::SetPower { who, power }),
        wc.max(1) => (prop::bool::weighted(0.85), cfg_any(0.4)).prop_map(|(by_dao, cfg)| Op::Config { by_dao, cfg }),
    ]
    .boxed()
}

pub struct Single(pub Focus);

// ------------------------------------------------------------------ model

#[derive(Clone, Debug, PartialEq)]
struct MCfg {
    thr: Threshold,
    time: bool,
    max: u64,
    min: Option<u64>,
    members: bool,
    revote: bool,
    close_fail: bool,
    veto: Option<(u64, String, bool, bool)>,
}

#[derive(Clone, Debug)]
struct MProp {
    proposer: String,
    start: u64,
    time: bool,
    expiry: u64,
    min: Option<u64>,
    thr: Threshold,
    total: u128,
    powers: BTreeMap<String, u128>,
    msgs: Vec<Msg>,
    status: Status,
    revote: bool,
    veto: Option<(u64, String, bool, bool)>,
    ballots: BTreeMap<String, (u8, u128, Option<String>)>,
}

impl MProp {
    fn tally(&self) -> (u128, u128, u128) {
        let mut t = [0u128; 3];
        for (v, p, _) in self.ballots.values() {
            t[*v as usize] += p;
        }
        (t[0], t[1], t[2])
    }
    /// The outcome were voting to end with this tally.
    fn final_pass(&self, y: u128, n: u128, a: u128) -> bool {
        match &self.thr {
            Threshold::AbsolutePercentage { percentage } => meets(y, self.total - a, percentage),
            Threshold::ThresholdQuorum { threshold, quorum } => {
                meets(y + n + a, self.total, quorum) && meets(y, y + n, threshold)
            }
            Threshold::AbsoluteCount { threshold } => y >= threshold.u128(),
        }
    }
    fn expired(&self, b: &BlockInfo) -> bool {
        now(self.time, b) >= self.expiry
    }
    /// Decision by looking at how the remaining votes could still fall.
    fn decide(&self, b: &BlockInfo) -> Option<bool> {
        let (y, n, a) = self.tally();
        if self.expired(b) {
            return Some(self.final_pass(y, n, a));
        }
        if self.revote {
            return None;
        }
        let rest = self.total - (y + n + a);
        // extreme completions: nobody else votes, all yes, all no, all abstain
        let ends = [
            self.final_pass(y, n, a),
            self.final_pass(y + rest, n, a),
            self.final_pass(y, n + rest, a),
            self.final_pass(y, n, a + rest),
        ];
        if ends.iter().all(|x| *x) && self.min.map(|m| now(self.time, b) >= m).unwrap_or(true) {
            return Some(true);
        }
        if ends.iter().all(|x| !*x) {
            return Some(false);
        }
        None
    }
    fn current(&self, b: &BlockInfo) -> Status {
        match self.status {
            Status::Open => match self.decide(b) {
                None => Status::Open,
                Some(false) => Status::Rejected,
                Some(true) => match &self.veto {
                    None => Status::Passed,
                    Some((d, ..)) => {
                        let until = self.expiry + d;
                        if now(self.time, b) >= until {
                            Status::Passed
                        } else {
                            Status::VetoTimelock { expiration: exp_at(self.time, until) }
                        }
                    }
                },
            },
            Status::VetoTimelock { expiration } => {
                if expiration.is_expired(b) {
                    Status::Passed
                } else {
                    self.status
                }
            }
            s => s,
        }
    }
}

#[derive(Clone)]
struct Model {
    cfg: MCfg,
    props: Vec<MProp>,
    powers: BTreeMap<String, u128>,
    /// powers as of the start of the current block
    eff: BTreeMap<String, u128>,
    /// (first height at which in effect, powers)
    history: Vec<(u64, BTreeMap<String, u128>)>,
    bumps: u64,
    dao_bal: u128,
    sink_bal: u128,
    depth: u32,
}

const DENOM: &str = "ugov";
const T_ALL: [&str; 3] = ["P01", "P02", "P03"];

fn vote_of(v: u8) -> Vote {
    match v % 3 {
        0 => Vote::Yes,
        1 => Vote::No,
        _ => Vote::Abstain,
    }
}

fn resolve_cfg(c: &CfgSpec, powers: &[u128]) -> (MCfg, bool) {
    let total: u128 = powers.iter().sum();
    let thr = match &c.thr {
        ThrSpec::Abs(p) => Threshold::AbsolutePercentage { percentage: p.resolve(powers) },
        ThrSpec::Quorum(p, q) => {
            Threshold::ThresholdQuorum { threshold: p.resolve(powers), quorum: q.resolve(powers) }
        }
        ThrSpec::Count { mask, delta } => {
            let s = mask_sum(powers, *mask) as i128 + *delta as i128;
            Threshold::AbsoluteCount {
                threshold: Uint128::new((s.max(0) as u128).min(total.saturating_add(1))),
            }
        }
    };
    let valid_pct = |p: &PercentageThreshold, zero_ok: bool| match p {
        PercentageThreshold::Majority {} => true,
        PercentageThreshold::Percent(d) => {
            (zero_ok || d.atomics().u128() > 0) && d.atomics().u128() <= ONE18
        }
    };
    let mut ok = match &thr {
        Threshold::AbsolutePercentage { percentage } => valid_pct(percentage, false),
        Threshold::ThresholdQuorum { threshold, quorum } => {
            valid_pct(threshold, false) && valid_pct(quorum, true)
        }
        Threshold::AbsoluteCount { threshold } => !threshold.is_zero(),
    };
    if let Some(m) = c.min {
        ok &= m <= c.max && !c.min_wrong_unit;
    }
    if let Some(v) = &c.veto {
        ok &= !v.wrong_unit;
    }
    (
        MCfg {
            thr,
            time: c.time,
            max: c.max as u64,
            min: c.min.map(|m| m as u64),
            members: c.members,
            revote: c.revote,
            close_fail: c.close_fail,
            veto: c.veto.as_ref().map(|v| {
                let who = if v.is_user { user(0) } else { "vetoer".to_string() };
                (v.dur as u64, who, v.early, v.before)
            }),
        },
        ok,
    )
}

fn veto_cfg(c: &CfgSpec, m: &MCfg) -> Option<VetoConfig> {
    let s = c.veto.as_ref()?;
    let (d, who, early, before) = m.veto.clone()?;
    Some(VetoConfig {
        timelock_duration: dur(c.time ^ s.wrong_unit, d),
        vetoer: who,
        early_execute: early,
        veto_before_passed: before,
    })
}

fn who(i: u8, n: usize, vetoer: &str, core: &Addr) -> String {
    match i {
        0..=17 => user(i as usize % n),
        18 => user(5),
        19 => "outsider".into(),
        20 | 21 => vetoer.to_string(),
        _ => core.to_string(),
    }
}

impl Model {
    fn can_member(&self, p: &MProp, sender: &str) -> bool {
        p.powers.get(sender).copied().unwrap_or(0) > 0
    }

    /// The effect of executing proposal i by `sender`.
    fn execute(&mut self, i: usize, sender: &str, core: &Addr, b: &BlockInfo) -> Result<(), &'static str> {
        let Some(p) = self.props.get(i) else { return Err("no such proposal") };
        let p = p.clone();
        let can = !self.cfg.members || self.can_member(&p, sender);
        match p.current(b) {
            Status::Passed => {
                if !can {
                    return Err("only members execute");
                }
            }
            Status::VetoTimelock { .. } => {
                let (_, vetoer, early, _) = p.veto.clone().unwrap();
                if vetoer != sender || !early {
                    return Err("timelocked");
                }
            }
            _ => return Err("not passed"),
        }
        self.props[i].status = Status::Executed;
        if p.msgs.is_empty() {
            return Ok(());
        }
        let save = self.clone();
        let mut failed = false;
        self.depth += 1;
        for m in &p.msgs {
            let ok = match m {
                Msg::Bump => {
                    self.bumps += 1;
                    true
                }
                Msg::Fail => false,
                Msg::Send(n) => {
                    let n = *n as u128;
                    if n == 0 || self.dao_bal < n {
                        false
                    } else {
                        self.dao_bal -= n;
                        self.sink_bal += n;
                        true
                    }
                }
                Msg::Execute(j) => {
                    let j = *j as usize;
                    self.execute(j, core.as_str(), core, b).is_ok()
                }
            };
            if !ok {
                failed = true;
                break;
            }
        }
        self.depth -= 1;
        if failed {
            if self.cfg.close_fail {
                *self = save;
                self.props[i].status = Status::ExecutionFailed;
                Ok(())
            } else {
                Err("a message fails")
            }
        } else {
            Ok(())
        }
    }

    fn powers_at(&self, h: u64) -> BTreeMap<String, u128> {
        self.history.iter().filter(|(x, _)| *x <= h).next_back().map(|x| x.1.clone()).unwrap_or_default()
    }
}

impl Scenario for Single {
    type Case = Case;
    fn name(&self) -> &'static str {
        match self.0 {
            Focus::Decision => "single-decision",
            Focus::Ballots => "single-ballots",
            Focus::Life => "single-lifecycle",
            Focus::Upgrade => "single-upgrade",
        }
    }
    fn rule(&self) -> &'static str {
        match self.0 {
            Focus::Decision => "DAO with freely chosen powers; propose and vote over blocks. Non-trivial: at least two counted votes on one proposal and a proposal that was decided (passed/rejected/timelocked) before or at expiry.",
            Focus::Ballots => "as above with revotes, power changes and config updates. Non-trivial: at least two counted votes and (a replaced ballot, or a power/config change after a proposal was made, or a refused second ballot).",
            Focus::Upgrade => "a module of version 1 (or 2.4.1) with proposals, ballots, hooks and deposits is upgraded midway and used on. Non-trivial: it was upgraded, a proposal of before had ballots, and afterwards one of those was voted on, executed, closed or vetoed.",
            Focus::Life => "full life cycle with failing messages, vetoes and closes. Non-trivial: at least one proposal reached Executed, ExecutionFailed, Closed or Vetoed and at least one execute/close/veto attempt was refused.",
        }
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let f = self.0;
        let veto_p = match f {
            Focus::Decision => 0.1,
            Focus::Ballots => 0.2,
            Focus::Life | Focus::Upgrade => 0.6,
        };
        let n = match f {
            Focus::Life | Focus::Upgrade => 6..34usize,
            _ => 4..26usize,
        };
        let powers = prop_oneof![
            4 => prop::collection::vec(0u128..=6, 1..6),
            3 => prop::collection::vec(0u128..=1000, 1..6),
            2 => prop::collection::vec(amount(), 1..6),
        ];
        let past = if f == Focus::Upgrade { past().prop_map(Some).boxed() } else { Just(None).boxed() };
        let start = if f == Focus::Upgrade { cfg_valid(veto_p) } else { prop_oneof![40 => cfg_valid(veto_p), 1 => cfg_any(veto_p)].boxed() };
        (start, powers, prop::collection::vec(op(f), n), 1u8..5, past)
            .prop_map(move |(cfg, powers, mut ops, page, past)| {
                // a proposal always exists before the rest
                ops.insert(0, Op::Propose { by: 0, vote: None, msgs: vec![Msg::Bump], huge: false, named: false });
                Case { cfg, powers, ops, page, past }
            })
            .boxed()
    }

    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        let r = self.go(c, cx);
        if self.0 == Focus::Upgrade && cx.has("upgrading") {
            return r.map_err(|f| if f.tags.is_empty() { f } else { f.tag(&["M01"]) });
        }
        r
    }
}

impl Single {
    fn go(&self, c: &Case, cx: &mut Cx) -> R {
        let mut app = new_app();
        let users: Vec<String> = (0..c.powers.len()).map(user).collect();
        let powers: BTreeMap<String, u128> =
            users.iter().cloned().zip(c.powers.iter().copied()).collect();
        let (mut cfg, ok) = resolve_cfg(&c.cfg, &c.powers);
        let v1 = matches!(&c.past, Some(p) if p.v1);
        if v1 {
            cfg.veto = None;
            cfg.close_fail = false;
        }
        let v = mock_voting(&mut app, &powers.clone().into_iter().collect::<Vec<_>>());
        let single = app.store_code(single_code());
        let old = match &c.past {
            None => single,
            Some(p) if p.v1 => app.store_code(single_v1()),
            Some(_) => app.store_code(single_v241()),
        };
        let mut coin = None;
        let deposit = match &c.past {
            Some(Past { v1: true, dep: Some(n), .. }) => {
                let token = new_cw20(&mut app, &users.iter().map(|u| (u.clone(), 50)).collect::<Vec<_>>());
                coin = Some(token.clone());
                json!({"token": {"token": {"address": token}}, "deposit": n.to_string(), "refund_failed_proposals": true})
            }
            _ => json!(null),
        };
        let init = InstantiateMsg {
            threshold: cfg.thr.clone(),
            max_voting_period: dur(c.cfg.time, cfg.max),
            min_voting_period: cfg.min.map(|m| dur(c.cfg.time ^ c.cfg.min_wrong_unit, m)),
            only_members_execute: cfg.members,
            allow_revoting: cfg.revote,
            pre_propose_info: PreProposeInfo::AnyoneMayPropose {},
            close_proposal_on_execution_failure: cfg.close_fail,
            veto: veto_cfg(&c.cfg, &cfg),
        };
        let mut init = serde_json::to_value(&init).unwrap();
        if v1 {
            let m = init.as_object_mut().unwrap();
            for k in ["pre_propose_info", "close_proposal_on_execution_failure", "veto"] {
                m.remove(k);
            }
            m.insert("deposit_info".into(), deposit.clone());
        }
        let dao = new_dao(&mut app, v, vec![module(old, to_json_binary(&init).unwrap())]);
        agree("creating the DAO", &dao, &if ok { Ok(()) } else { Err("invalid configuration") }, &["P03", "P01"])?;
        let Ok(dao) = dao else {
            cx.label("bad-setup");
            return Ok(());
        };
        let m = dao.modules[0].clone();
        let core = dao.core.clone();
        let target = new_mock(&mut app);
        fund_account(&mut app, core.as_str(), 100, DENOM);
        let mut md = Model {
            cfg,
            props: vec![],
            eff: powers.clone(),
            history: vec![(0, powers.clone())],
            powers,
            bumps: 0,
            dao_bal: 100,
            sink_bal: 0,
            depth: 0,
        };
        let mut voted = 0u64;
        let mut pre = false;
        // the proposals of before the upgrade: what they do, and who had what
        let mut born: Vec<(Vec<Msg>, BTreeMap<String, u128>)> = vec![];
        if let Some(p) = &c.past {
            if let Some(t) = &coin {
                for u in &users {
                    let allow = cw20::Cw20ExecuteMsg::IncreaseAllowance {
                        spender: m.to_string(),
                        amount: 50u128.into(),
                        expires: None,
                    };
                    harness(exec(&mut app, u, t, &allow, &[]))?;
                }
            }
            for (bit, what) in [(1, "add_proposal_hook"), (2, "add_vote_hook"), (4, "add_proposal_hook")] {
                if p.hooks & bit != 0 {
                    let h = new_mock(&mut app);
                    harness(as_dao(&mut app, &core, vec![wasm_msg(&m, &json!({what: {"address": h}}))]))?;
                }
            }
        }
        let nu = users.len();
        let ops = expand(&c.ops, nu);
        let to_cosmos = |x: &Msg| -> CosmosMsg {
            match x {
                Msg::Bump => wasm_msg(&target, &MockMsg::Bump {}),
                Msg::Fail => wasm_msg(&target, &MockMsg::Fail {}),
                Msg::Send(n) => {
                    BankMsg::Send { to_address: "sink".into(), amount: coins(*n as u128, DENOM) }.into()
                }
                Msg::Execute(j) => wasm_msg(&m, &ExecuteMsg::Execute { proposal_id: *j as u64 + 1 }),
            }
        };
        let mut at = c.past.as_ref().map(|p| (p.n as usize).min(ops.len()));
        for step in 0..=ops.len() {
            let op = ops.get(step);
            if at == Some(step) {
                at = None;
                let p = c.past.as_ref().unwrap();
                match self.upgrade(&mut app, p, &m, &core, single, &born, &mut md, cx)? {
                    false => return Ok(()),
                    true => pre = p.v1 && p.pre,
                }
                md.bumps = mock_count(&app, &target);
                md.dao_bal = bank(&app, core.as_str(), DENOM);
                md.sink_bal = bank(&app, "sink", DENOM);
                voted = md.props.iter().map(|p| p.ballots.len() as u64).sum();
                if voted > 0 {
                    cx.label("ballots-carried-over");
                }
                self.compare(&app, &md, &m, &core, &target, step, cx)?;
            }
            let Some(op) = op else { break };
            let b = app.block_info();
            if at.is_some() && !matches!(op, Op::Advance(_) | Op::SetPower { .. }) {
                cx.log(|| format!("[{step}] before the upgrade: h={} t={} {:?}", b.height, b.time.seconds(), op));
                let n = born.len();
                let i = |p: u8| pick(p, n) as u64 + 1;
                let by_of = |x: u8| who(x, nu, "vetoer", &core);
                let mut doing: Option<(String, serde_json::Value)> = None;
                match op {
                    Op::Propose { by, vote: None, msgs, huge: false, named: false } if n < 4 => {
                        let msgs: Vec<CosmosMsg> = msgs.iter().map(to_cosmos).collect();
                        doing = Some((by_of(*by), json!({"propose": {"title": format!("p{n}"), "description": "d", "msgs": msgs}})));
                    }
                    Op::Vote { prop, by, vote, rationale } => {
                        let mut v = json!({"vote": {"proposal_id": i(*prop), "vote": vote_of(*vote)}});
                        if !v1 {
                            v["vote"]["rationale"] = json!(rationale.map(|r| r.to_string()));
                        }
                        doing = Some((by_of(*by), v));
                    }
                    Op::Execute { prop, by } => doing = Some((by_of(*by), json!({"execute": {"proposal_id": i(*prop)}}))),
                    Op::Close { prop, by } => doing = Some((by_of(*by), json!({"close": {"proposal_id": i(*prop)}}))),
                    Op::Veto { prop, by } if !v1 => doing = Some((by_of(*by), json!({"veto": {"proposal_id": i(*prop)}}))),
                    Op::Config { cfg, .. } => {
                        let pw: Vec<u128> = md.powers.values().copied().collect();
                        let (n, _) = resolve_cfg(cfg, &pw);
                        let mut v = json!({
                            "threshold": n.thr,
                            "max_voting_period": dur(cfg.time, n.max),
                            "min_voting_period": n.min.map(|x| dur(cfg.time ^ cfg.min_wrong_unit, x)),
                            "only_members_execute": n.members,
                            "allow_revoting": n.revote,
                            "dao": core,
                        });
                        if v1 {
                            v["deposit_info"] = deposit.clone();
                        } else {
                            v["close_proposal_on_execution_failure"] = json!(n.close_fail);
                            v["veto"] = json!(veto_cfg(cfg, &n));
                        }
                        doing = Some((core.to_string(), json!({"update_config": v})));
                    }
                    _ => {}
                }
                if let Some((by, v)) = doing {
                    let r = exec(&mut app, &by, &m, &v, &[]);
                    if let (Ok(_), Op::Propose { msgs, .. }) = (&r, op) {
                        born.push((msgs.clone(), md.powers_at(b.height)));
                    }
                    cx.log(|| format!("    {}", r.map(|_| "done".into()).unwrap_or_else(|e| e)));
                }
                continue;
            }
            let np = md.props.len();
            let vetoer_of = |i: usize| {
                md.props.get(i).and_then(|p| p.veto.as_ref().map(|v| v.1.clone())).unwrap_or("vetoer".into())
            };
            cx.log(|| format!("[{step}] h={} t={} {:?}", b.height, b.time.seconds(), op));
            match op {
                Op::Propose { by, vote, msgs, huge, named } => {
                    if np >= 4 {
                        continue;
                    }
                    let by = who(*by, nu, "vetoer", &core);
                    let msg = SingleChoiceProposeMsg {
                        title: format!("p{np}"),
                        description: if *huge { "x".repeat(31_000) } else { "d".into() },
                        msgs: msgs.iter().map(to_cosmos).collect(),
                        proposer: if *named { Some(user(1)) } else { None },
                        vote: vote.map(|v| SingleChoiceAutoVote { vote: vote_of(v), rationale: Some("auto".into()) }),
                    };
                    let eff = md.powers_at(b.height);
                    let total: u128 = eff.values().sum();
                    let power = eff.get(&by).copied().unwrap_or(0);
                    let mut p = MProp {
                        proposer: by.clone(),
                        start: b.height,
                        time: md.cfg.time,
                        expiry: now(md.cfg.time, &b) + md.cfg.max,
                        min: md.cfg.min.map(|x| now(md.cfg.time, &b) + x),
                        thr: md.cfg.thr.clone(),
                        total,
                        powers: eff,
                        msgs: msgs.clone(),
                        status: Status::Open,
                        revote: md.cfg.revote,
                        veto: md.cfg.veto.clone(),
                        ballots: BTreeMap::new(),
                    };
                    p.status = p.current(&b);
                    let mut want = Ok(());
                    if pre {
                        want = Err("only the pre-propose module may");
                    } else if *named {
                        want = Err("cannot name another proposer");
                    } else if *huge {
                        want = Err("too large");
                    } else if vote.is_some() && power == 0 {
                        want = Err("proposer cannot vote");
                    }
                    let got = exec(&mut app, &by, &m, &ExecuteMsg::Propose(msg), &[]);
                    agree(format!("[{step}] propose by {by}"), &got, &want, &["P02"])?;
                    if want.is_ok() {
                        if let Some(v) = vote {
                            p.ballots.insert(by, (*v % 3, power, Some("auto".into())));
                            p.status = p.current(&b);
                            voted += 1;
                        }
                        md.props.push(p);
                        cx.label("proposed");
                    }
                }
                Op::Vote { prop, by, vote, rationale } => {
                    let i = pick(*prop, np);
                    let by = who(*by, nu, "vetoer", &core);
                    let mut want = Ok(());
                    if let Some(p) = md.props.get_mut(i) {
                        let power = p.powers.get(&by).copied().unwrap_or(0);
                        if p.expired(&b) {
                            want = Err("voting ended");
                            cx.label("late-vote");
                        } else if power == 0 {
                            want = Err("no power at start");
                        } else if let Some(old) = p.ballots.get(&by) {
                            if !p.revote {
                                want = Err("already voted");
                                cx.label("second-ballot");
                            } else if old.0 == vote % 3 {
                                want = Err("same vote again");
                            } else {
                                cx.label("revote");
                            }
                        }
                        if want.is_ok() {
                            p.ballots.insert(by.clone(), (vote % 3, power, rationale.map(|r| r.to_string())));
                            p.status = p.current(&b);
                            voted += 1;
                            cx.label("voted");
                            if matches!(p.status, Status::Executed | Status::Closed | Status::Vetoed | Status::ExecutionFailed) {
                                cx.label("vote-after-end");
                            }
                        }
                    } else {
                        want = Err("no such proposal");
                    }
                    let got = exec(
                        &mut app,
                        &by,
                        &m,
                        &ExecuteMsg::Vote {
                            proposal_id: i as u64 + 1,
                            vote: vote_of(*vote),
                            rationale: rationale.map(|r| r.to_string()),
                        },
                        &[],
                    );
                    agree(format!("[{step}] vote by {by} on {}", i + 1), &got, &want, &["P02"])?;
                }
                Op::Rationale { prop, by, r } => {
                    let i = pick(*prop, np);
                    let by = who(*by, nu, "vetoer", &core);
                    let mut want = Err("no ballot");
                    if let Some(bal) = md.props.get_mut(i).and_then(|p| p.ballots.get_mut(&by)) {
                        bal.2 = r.map(|x| x.to_string());
                        want = Ok(());
                    }
                    let got = exec(
                        &mut app,
                        &by,
                        &m,
                        &ExecuteMsg::UpdateRationale { proposal_id: i as u64 + 1, rationale: r.map(|x| x.to_string()) },
                        &[],
                    );
                    agree(format!("[{step}] rationale"), &got, &want, &["P02"])?;
                }
                Op::Execute { prop, by } => {
                    let i = pick(*prop, np);
                    let by = who(*by, nu, &vetoer_of(i), &core);
                    let mut next = md.clone();
                    let before = next.props.get(i).map(|p| p.current(&b));
                    let want = next.execute(i, &by, &core, &b);
                    let got = exec(&mut app, &by, &m, &ExecuteMsg::Execute { proposal_id: i as u64 + 1 }, &[]);
                    agree(format!("[{step}] execute {} by {by} ({before:?})", i + 1), &got, &want, &["P03"])?;
                    if want.is_ok() {
                        md = next;
                        cx.label(match md.props[i].status {
                            Status::ExecutionFailed => "execution-failed",
                            _ => "executed",
                        });
                        if matches!(before, Some(Status::VetoTimelock { .. })) {
                            cx.label("early-executed");
                        }
                    } else {
                        cx.label("refused-action");
                        if matches!(before, Some(Status::Passed)) {
                            cx.label("refused-execute-of-passed");
                        }
                        if matches!(before, Some(Status::VetoTimelock { .. })) {
                            cx.label("refused-execute-of-timelocked");
                        }
                        if matches!(before, Some(Status::Executed)) {
                            cx.label("refused-second-execute");
                        }
                    }
                }
                Op::Close { prop, by } => {
                    let i = pick(*prop, np);
                    let by = who(*by, nu, &vetoer_of(i), &core);
                    let mut want = Err("not rejected");
                    if let Some(p) = md.props.get_mut(i) {
                        if p.current(&b) == Status::Rejected {
                            p.status = Status::Closed;
                            want = Ok(());
                        }
                    }
                    cx.label(if want.is_ok() { "closed" } else { "refused-action" });
                    let got = exec(&mut app, &by, &m, &ExecuteMsg::Close { proposal_id: i as u64 + 1 }, &[]);
                    agree(format!("[{step}] close {}", i + 1), &got, &want, &["P03"])?;
                }
                Op::Veto { prop, by } => {
                    let i = pick(*prop, np);
                    let by = who(*by, nu, &vetoer_of(i), &core);
                    let mut want = Err("not vetoable");
                    if let Some(p) = md.props.get_mut(i) {
                        if let Some((_, vetoer, _, before)) = p.veto.clone() {
                            let st = p.current(&b);
                            let may = match st {
                                Status::Open => before,
                                Status::VetoTimelock { .. } => true,
                                _ => false,
                            };
                            if vetoer == by && may {
                                p.status = Status::Vetoed;
                                want = Ok(());
                            }
                        }
                    }
                    cx.label(if want.is_ok() { "vetoed" } else { "refused-action" });
                    let got = exec(&mut app, &by, &m, &ExecuteMsg::Veto { proposal_id: i as u64 + 1 }, &[]);
                    agree(format!("[{step}] veto {} by {by}", i + 1), &got, &want, &["P03"])?;
                }
                Op::AllVote { .. } => {}
                Op::Advance(n) => {
                    advance(&mut app, *n as u64, *n as u64);
                    md.eff = md.powers_at(app.block_info().height);
                }
                Op::SetPower { who: w, power } => {
                    md.powers.insert(user(*w as usize), *power);
                    let at = b.height + 1;
                    md.history.retain(|(h, _)| *h != at);
                    md.history.push((at, md.powers.clone()));
                    let list: Vec<_> = md.powers.clone().into_iter().collect();
                    harness(exec(&mut app, "x", &dao.voting, &powers_msg(&list), &[]))?;
                    if np > 0 {
                        cx.label("power-change-after-proposal");
                    }
                }
                Op::Config { by_dao, cfg } => {
                    let pw: Vec<u128> = md.powers.values().copied().collect();
                    let (n, ok) = resolve_cfg(cfg, &pw);
                    let msg = ExecuteMsg::UpdateConfig {
                        threshold: n.thr.clone(),
                        max_voting_period: dur(cfg.time, n.max),
                        min_voting_period: n.min.map(|x| dur(cfg.time ^ cfg.min_wrong_unit, x)),
                        only_members_execute: n.members,
                        allow_revoting: n.revote,
                        dao: core.to_string(),
                        close_proposal_on_execution_failure: n.close_fail,
                        veto: veto_cfg(cfg, &n),
                    };
                    let got = if *by_dao {
                        as_dao(&mut app, &core, vec![wasm_msg(&m, &msg)])
                    } else {
                        exec(&mut app, &user(0), &m, &msg, &[]).map(|_| ())
                    };
                    let want = if !*by_dao {
                        Err("not the DAO")
                    } else if !ok {
                        Err("invalid configuration")
                    } else {
                        Ok(())
                    };
                    agree(format!("[{step}] config update"), &got, &want, &["P03"])?;
                    if want.is_ok() {
                        md.cfg = n;
                        if np > 0 {
                            cx.label("config-change-after-proposal");
                        }
                    }
                }
            }
            if at.is_none() {
                self.compare(&app, &md, &m, &core, &target, step, cx)?;
            }
        }
        self.listings(&app, &md, &m, c.page)?;
        let l = |x: &str| cx.has(x);
        cx.nontrivial = match self.0 {
            Focus::Decision => voted >= 2 && (l("decided-early") || l("decided-at-expiry")),
            Focus::Ballots => {
                voted >= 2
                    && (l("revote")
                        || l("second-ballot")
                        || l("power-change-after-proposal")
                        || l("config-change-after-proposal"))
            }
            Focus::Upgrade => {
                l("ballots-carried-over") && (l("executed") || l("execution-failed") || l("closed") || l("vetoed") || l("voted"))
            }
            Focus::Life => {
                l("refused-action")
                    && (l("executed") || l("execution-failed") || l("closed") || l("vetoed"))
            }
        };
        Ok(())
    }
}

fn pick(i: u8, n: usize) -> usize {
    if i == 9 || n == 0 {
        n
    } else {
        i as usize % n
    }
}

fn expand(ops: &[Op], users: usize) -> Vec<Op> {
    let mut out = vec![];
    for o in ops {
        match o {
            Op::AllVote { prop, vote } => out.extend((0..users).map(|i| Op::Vote {
                prop: *prop,
                by: i as u8,
                vote: *vote,
                rationale: None,
            })),
            o => out.push(o.clone()),
        }
    }
    out
}

fn same_exp(e: &Expiration, time: bool, at: u64) -> bool {
    *e == exp_at(time, at)
}

fn single_code() -> Box<dyn cw_multi_test::Contract<cosmwasm_std::Empty>> {
    use dao_proposal_single::contract::*;
    Box::new(cw_multi_test::ContractWrapper::new(execute, instantiate, query).with_reply(reply).with_migrate(migrate))
}
fn single_v1() -> Box<dyn cw_multi_test::Contract<cosmwasm_std::Empty>> {
    use cw_proposal_single_v1::contract::*;
    Box::new(cw_multi_test::ContractWrapper::new(execute, instantiate, query).with_reply(reply).with_migrate(migrate))
}
fn single_v241() -> Box<dyn cw_multi_test::Contract<cosmwasm_std::Empty>> {
    use dao_proposal_single_v241::contract::*;
    Box::new(cw_multi_test::ContractWrapper::new(execute, instantiate, query).with_reply(reply).with_migrate(migrate))
}

fn at_of(e: &Expiration) -> R<(bool, u64)> {
    match e {
        Expiration::AtHeight(h) => Ok((false, *h)),
        Expiration::AtTime(t) => Ok((true, t.seconds())),
        Expiration::Never {} => Err(Fail::new("a proposal that never expires")),
    }
}
fn read<T: serde::de::DeserializeOwned>(v: &serde_json::Value) -> R<T> {
    serde_json::from_value(v.clone()).map_err(|e| Fail::new(format!("unreadable {v}: {e}")))
}

const M: &[&str] = &["M01"];

impl Single {
    /// Upgrade the module, and take over as the model's state what the old one said of itself.
    /// False if the upgrade has to be refused.
    #[allow(clippy::too_many_arguments)]
    fn upgrade(
        &self,
        app: &mut VApp,
        p: &Past,
        m: &Addr,
        core: &Addr,
        code: u64,
        born: &[(Vec<Msg>, BTreeMap<String, u128>)],
        md: &mut Model,
        cx: &mut Cx,
    ) -> R<bool> {
        use serde_json::Value;
        let b = app.block_info();
        let ask = |app: &VApp, v: Value| -> R<Value> { q(app, m, &v) };
        let all = |app: &VApp| -> R<(Vec<Value>, Vec<Vec<Value>>)> {
            let l = ask(app, json!({"list_proposals": {}}))?;
            let l: Vec<Value> = read(&l["proposals"])?;
            let mut votes = vec![];
            for x in &l {
                let v = ask(app, json!({"list_votes": {"proposal_id": x["id"]}}))?;
                votes.push(read(&v["votes"])?);
            }
            Ok((l, votes))
        };
        let hooks = |app: &VApp| -> R<[Value; 2]> {
            Ok([ask(app, json!({"proposal_hooks": {}}))?, ask(app, json!({"vote_hooks": {}}))?])
        };
        let (old, votes) = all(app)?;
        let old_cfg = ask(app, json!({"config": {}}))?;
        let old_hooks = hooks(app)?;
        let old_count = ask(app, json!({"proposal_count": {}}))?;
        ensure_eq!(old.len(), born.len(), "proposals of before the upgrade");

        // the configuration carried over
        let (time, max) = match read(&old_cfg["max_voting_period"])? {
            cw_utils::Duration::Height(n) => (false, n),
            cw_utils::Duration::Time(n) => (true, n),
        };
        md.cfg = MCfg {
            thr: read(&old_cfg["threshold"])?,
            time,
            max,
            min: match read(&old_cfg["min_voting_period"])? {
                None => None,
                Some(cw_utils::Duration::Height(n) | cw_utils::Duration::Time(n)) => Some(n),
            },
            members: read(&old_cfg["only_members_execute"])?,
            revote: read(&old_cfg["allow_revoting"])?,
            close_fail: false,
            veto: None,
        };
        let veto_of = |v: &VetoConfig| {
            let (cw_utils::Duration::Height(n) | cw_utils::Duration::Time(n)) = v.timelock_duration;
            (n, v.vetoer.clone(), v.early_execute, v.veto_before_passed)
        };
        let veto_in = |v: &Value| -> R<Option<(u64, String, bool, bool)>> {
            let v: Option<VetoConfig> = read(v)?;
            Ok(v.as_ref().map(veto_of))
        };
        let mut want = Ok(());
        let msg = if p.v1 {
            let veto = p.veto.as_ref().map(|v| VetoConfig {
                timelock_duration: dur(time ^ v.wrong_unit, v.dur as u64),
                vetoer: if v.is_user { user(0) } else { "vetoer".into() },
                early_execute: v.early,
                veto_before_passed: v.before,
            });
            md.cfg.veto = veto.as_ref().map(veto_of);
            md.cfg.close_fail = p.close_fail;
            if matches!(&p.veto, Some(v) if v.wrong_unit) {
                want = Err("the veto's period is of another kind");
            }
            if p.dep.unwrap_or(0) > 0
                && old.iter().any(|x| x["proposal"]["status"] != "closed" && x["proposal"]["status"] != "executed")
            {
                want = Err("deposits are outstanding");
            }
            let pre = if p.pre {
                let code = app.store_code(code::pre_single());
                let init = json!({"deposit_info": null, "extension": {}, "submission_policy": {"anyone": {"denylist": []}}});
                json!({"module_may_propose": {"info": module(code, to_json_binary(&init).unwrap())}})
            } else {
                json!({"anyone_may_propose": {}})
            };
            json!({"from_v1": {
                "close_proposal_on_execution_failure": p.close_fail,
                "pre_propose_info": pre,
                "veto": veto,
            }})
        } else {
            md.cfg.close_fail = read(&old_cfg["close_proposal_on_execution_failure"])?;
            md.cfg.veto = veto_in(&old_cfg["veto"])?;
            json!({"from_compatible": {}})
        };
        for (x, v) in old.iter().zip(&votes) {
            let (g, i) = (&x["proposal"], md.props.len());
            ensure_eq!(x["id"], json!(i + 1), "ids of before the upgrade");
            let (time, expiry) = at_of(&read(&g["expiration"])?)?;
            let min: Option<Expiration> = read(&g["min_voting_period"])?;
            let mut pr = MProp {
                proposer: read(&g["proposer"])?,
                start: read(&g["start_height"])?,
                time,
                expiry,
                min: min.map(|e| at_of(&e)).transpose()?.map(|x| x.1),
                thr: read(&g["threshold"])?,
                total: read::<Uint128>(&g["total_power"])?.u128(),
                powers: born[i].1.clone(),
                msgs: born[i].0.clone(),
                status: Status::Open,
                revote: read(&g["allow_revoting"])?,
                veto: if p.v1 { None } else { veto_in(&g["veto"])? },
                ballots: BTreeMap::new(),
            };
            for b in v {
                let vote = match read::<Vote>(&b["vote"])? {
                    Vote::Yes => 0,
                    Vote::No => 1,
                    Vote::Abstain => 2,
                };
                let why = if p.v1 { None } else { read(&b["rationale"])? };
                pr.ballots.insert(read(&b["voter"])?, (vote, read::<Uint128>(&b["power"])?.u128(), why));
            }
            let st: Status = read(&g["status"])?;
            if pr.current(&b) != st {
                pr.status = st;
            }
            cx.label(match st {
                Status::Open => "open-carried-over",
                Status::Passed => "passed-carried-over",
                Status::Rejected => "rejected-carried-over",
                _ => "done-carried-over",
            });
            md.props.push(pr);
        }
        let migrate = |v: &Value| -> CosmosMsg {
            cosmwasm_std::WasmMsg::Migrate {
                contract_addr: m.to_string(),
                new_code_id: code,
                msg: to_json_binary(v).unwrap(),
            }
            .into()
        };
        cx.log(|| format!("h={} upgrade with {msg}", b.height));
        cx.label("upgrading");
        let got = as_dao(app, core, vec![migrate(&msg)]);
        agree("upgrading the proposal module", &got, &want, M)?;
        if want.is_err() {
            cx.label("upgrade-refused");
            ensure_eq!(@M, all(app)?, (old, votes), "after a refused upgrade");
            ensure_eq!(@M, ask(app, json!({"config": {}}))?, old_cfg, "after a refused upgrade");
            return Ok(false);
        }
        cx.label(if p.v1 { "from-v1" } else { "from-2.4.1" });
        for round in 0..2 {
            let (new, new_votes) = all(app)?;
            ensure_eq!(@M, new.len(), old.len(), "proposals after the upgrade");
            for (o, n) in old.iter().zip(&new) {
                ensure_eq!(@M, n["id"], o["id"], "a proposal's id");
                for k in [
                    "title", "description", "proposer", "start_height", "min_voting_period", "expiration", "threshold",
                    "total_power", "msgs", "status", "votes", "allow_revoting",
                ] {
                    ensure_eq!(@M, n["proposal"][k], o["proposal"][k], "{k} of proposal {} after the upgrade", o["id"]);
                }
                let veto = if p.v1 { &Value::Null } else { &o["proposal"]["veto"] };
                ensure_eq!(@M, &n["proposal"]["veto"], veto, "veto rules of proposal {}", o["id"]);
            }
            for (o, n) in votes.iter().zip(&new_votes) {
                ensure_eq!(@M, n.len(), o.len(), "ballots after the upgrade");
                for (o, n) in o.iter().zip(n) {
                    for k in ["voter", "vote", "power"] {
                        ensure_eq!(@M, n[k], o[k], "a ballot's {k} after the upgrade");
                    }
                }
            }
            let cfg = ask(app, json!({"config": {}}))?;
            for k in ["threshold", "max_voting_period", "min_voting_period", "only_members_execute", "allow_revoting", "dao"] {
                ensure_eq!(@M, cfg[k], old_cfg[k], "configured {k} after the upgrade");
            }
            ensure_eq!(@M, cfg["close_proposal_on_execution_failure"], json!(md.cfg.close_fail), "what becomes of failing proposals");
            ensure_eq!(@M, veto_in(&cfg["veto"])?, md.cfg.veto, "configured veto after the upgrade");
            ensure_eq!(@M, hooks(app)?, old_hooks, "hooks after the upgrade");
            ensure_eq!(@M, ask(app, json!({"proposal_count": {}}))?, old_count, "number of proposals after the upgrade");
            let policy = ask(app, json!({"proposal_creation_policy": {}}))?;
            if p.v1 && p.pre {
                let Some(a) = policy["module"]["addr"].as_str() else {
                    fail!(@M, "no pre-propose module came with the upgrade: {policy}")
                };
                let d: Value = q(app, &Addr::unchecked(a), &json!({"proposal_module": {}}))?;
                ensure_eq!(@M, d, json!(m), "the proposal module of the new pre-propose module");
            } else {
                ensure_eq!(@M, policy, json!({"anyone": {}}), "who may propose after the upgrade");
            }
            if round == 0 {
                // a second time changes nothing
                let again = as_dao(app, core, vec![migrate(&msg)]);
                agree("upgrading once more", &again, &if p.v1 { Err("already done") } else { Ok(()) }, M)?;
                let again = as_dao(app, core, vec![migrate(&json!({"from_compatible": {}}))]);
                agree("upgrading from a compatible version", &again, &Ok(()), M)?;
            }
        }
        Ok(true)
    }

    fn compare(&self, app: &VApp, md: &Model, m: &Addr, core: &Addr, target: &Addr, step: usize, cx: &mut Cx) -> R {
        let b = app.block_info();
        for (i, p) in md.props.iter().enumerate() {
            let id = i as u64 + 1;
            let r: ProposalResponse = q(app, m, &QueryMsg::Proposal { proposal_id: id })?;
            let g = r.proposal;
            let (y, n, a) = p.tally();
            ensure_eq!(
                (g.votes.yes.u128(), g.votes.no.u128(), g.votes.abstain.u128()),
                (y, n, a),
                ["P02"],
                "[{step}] proposal {id} tally"
            );
            let want = p.current(&b);
            let kind = |s: &Status| match s {
                Status::Open | Status::Passed | Status::Rejected => 0,
                _ => 1,
            };
            if g.status != want {
                let f = Fail::new(format!(
                    "[{step}] proposal {id} (thr {:?}, total {}, votes {:?}, expiry {} now {} revote {}) status: code {:?}, oracle {:?}",
                    p.thr, p.total, (y, n, a), p.expiry, now(p.time, &b), p.revote, g.status, want
                ));
                let timelock = |s: &Status| matches!(s, Status::VetoTimelock { .. });
                let tags: &[&'static str] = if kind(&g.status) == 0 && kind(&want) == 0 && p.veto.is_none() {
                    &["P01"]
                } else if (kind(&g.status) == 0 || timelock(&g.status)) && (kind(&want) == 0 || timelock(&want)) {
                    &["P01", "P03"]
                } else {
                    &["P03"]
                };
                return Err(f.tag(tags));
            }
            if !p.expired(&b) && want != Status::Open {
                cx.label("decided-early");
            } else if want != Status::Open && !p.ballots.is_empty() {
                cx.label("decided-at-expiry");
            }
            ensure_eq!(g.proposer.to_string(), p.proposer, ["P02"], "[{step}] proposal {id} proposer");
            ensure_eq!(g.total_power.u128(), p.total, ["P02", "P01"], "[{step}] proposal {id} total power");
            ensure_eq!(g.start_height, p.start, ["P02"], "[{step}] proposal {id} start");
            ensure!(same_exp(&g.expiration, p.time, p.expiry), ["P03", "P02", "P01"], "[{step}] proposal {id} expiration {:?}", g.expiration);
            ensure!(
                match (&g.min_voting_period, p.min) {
                    (None, None) => true,
                    (Some(e), Some(x)) => same_exp(e, p.time, x),
                    _ => false,
                },
                ["P03", "P02", "P01"],
                "[{step}] proposal {id} minimum voting period"
            );
            ensure_eq!(g.threshold, p.thr, ["P03", "P02", "P01"], "[{step}] proposal {id} threshold");
            ensure_eq!(g.allow_revoting, p.revote, ["P03", "P02", "P01"], "[{step}] proposal {id} revoting");
            let gv = g.veto.map(|v| (v.timelock_duration, v.vetoer, v.early_execute, v.veto_before_passed));
            let wv = p.veto.clone().map(|v| (dur(p.time, v.0), v.1, v.2, v.3));
            ensure_eq!(gv, wv, ["P03", "P02"], "[{step}] proposal {id} veto rules");
            ensure_eq!(g.msgs.len(), p.msgs.len(), ["P03", "P02"], "[{step}] proposal {id} messages");
            for u in 0..6usize {
                let v = user(u);
                let r: VoteResponse = q(app, m, &QueryMsg::GetVote { proposal_id: id, voter: v.clone() })?;
                let got = r.vote.map(|x| (x.vote, x.power.u128(), x.rationale));
                let want = p.ballots.get(&v).map(|x| (vote_of(x.0), x.1, x.2.clone()));
                ensure_eq!(got, want, ["P02"], "[{step}] ballot of {v} on {id}");
            }
        }
        ensure_eq!(mock_count(app, target), md.bumps, ["P03"], "[{step}] number of executed messages");
        ensure_eq!(bank(app, core.as_str(), DENOM), md.dao_bal, ["P03"], "[{step}] DAO balance");
        ensure_eq!(bank(app, "sink", DENOM), md.sink_bal, ["P03"], "[{step}] receiver balance");
        Ok(())
    }

    fn listings(&self, app: &VApp, md: &Model, m: &Addr, page: u8) -> R {
        let n: u64 = q(app, m, &QueryMsg::ProposalCount {})?;
        ensure_eq!(n, md.props.len() as u64, ["P02"], "proposal count");
        let n: u64 = q(app, m, &QueryMsg::NextProposalId {})?;
        ensure_eq!(n, md.props.len() as u64 + 1, ["P02"], "next proposal id");
        let r: dao_proposal_single::state::Config = q(app, m, &QueryMsg::Config {})?;
        ensure_eq!(r.threshold, md.cfg.thr, ["P03"], "configured threshold");
        ensure_eq!(r.allow_revoting, md.cfg.revote, ["P03"], "configured revoting");
        for rev in [false, true] {
            let mut seen = vec![];
            let mut after: Option<u64> = None;
            loop {
                let msg = if rev {
                    QueryMsg::ReverseProposals { start_before: after, limit: Some(page as u64) }
                } else {
                    QueryMsg::ListProposals { start_after: after, limit: Some(page as u64) }
                };
                let r: ProposalListResponse = q(app, m, &msg)?;
                ensure!(r.proposals.len() <= page as usize, ["P02"], "page longer than its limit");
                if r.proposals.is_empty() {
                    break;
                }
                for p in &r.proposals {
                    let one: ProposalResponse = q(app, m, &QueryMsg::Proposal { proposal_id: p.id })?;
                    ensure_eq!(p, &one, ["P02"], "listing entry {}", p.id);
                }
                seen.extend(r.proposals.iter().map(|p| p.id));
                after = seen.last().copied();
                ensure!(seen.len() <= md.props.len() + 1, ["P02"], "listing does not end");
            }
            let mut want: Vec<u64> = (1..=md.props.len() as u64).collect();
            if rev {
                want.reverse();
            }
            ensure_eq!(seen, want, ["P02"], "paged proposals (reverse {rev})");
        }
        for (i, p) in md.props.iter().enumerate() {
            let mut seen: Vec<VoteInfo> = vec![];
            let mut after: Option<String> = None;
            loop {
                let r: VoteListResponse = q(
                    app,
                    m,
                    &QueryMsg::ListVotes { proposal_id: i as u64 + 1, start_after: after, limit: Some(page as u64) },
                )?;
                ensure!(r.votes.len() <= page as usize, ["P02"], "page longer than its limit");
                if r.votes.is_empty() {
                    break;
                }
                seen.extend(r.votes);
                after = seen.last().map(|v| v.voter.to_string());
                ensure!(seen.len() <= p.ballots.len() + 1, ["P02"], "vote listing does not end");
            }
            let got: Vec<_> = seen.into_iter().map(|v| (v.voter.to_string(), v.vote, v.power.u128(), v.rationale)).collect();
            let want: Vec<_> =
                p.ballots.iter().map(|(w, x)| (w.clone(), vote_of(x.0), x.1, x.2.clone())).collect();
            ensure_eq!(got, want, ["P02"], "paged votes of {}", i + 1);
        }
        let _ = T_ALL;
        Ok(())
    }
}
