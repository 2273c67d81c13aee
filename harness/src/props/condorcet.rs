//! Condorcet proposals against a direct pairwise count and completion argument.

use cosmwasm_std::{coins, to_json_binary, Addr, BankMsg, BlockInfo, CosmosMsg};
use dao_proposal_condorcet::config::UncheckedConfig;
use dao_proposal_condorcet::msg::{Choice, ExecuteMsg, QueryMsg};
use dao_proposal_condorcet::proposal::Status;
use dao_proposal_condorcet::tally::Winner;
use dao_voting::threshold::PercentageThreshold;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

use super::common::*;
use crate::env::*;
use crate::fw::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CfgSpec {
    quorum: PctSpec,
    time: bool,
    period: u8,
    min: Option<u8>,
    min_wrong_unit: bool,
    close_fail: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Msg {
    Bump,
    Fail,
    Send(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Propose { by: u8, choices: Vec<Vec<Msg>> },
    /// rank: keys sorted to give a permutation; bad: how the ballot is malformed
    Vote { prop: u8, by: u8, rank: Vec<u8>, bad: u8 },
    Execute { prop: u8, by: u8 },
    Close { prop: u8, by: u8 },
    Advance(u8),
    SetPower { who: u8, power: u128 },
    Config { by_dao: bool, cfg: CfgSpec },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cfg: CfgSpec,
    powers: Vec<u128>,
    ops: Vec<Op>,
}

fn cfg() -> BoxedStrategy<CfgSpec> {
    (
        prop_oneof![4 => pct(), 2 => Just(PctSpec::Zero), 3 => (1u16..400).prop_map(PctSpec::Permille)],
        any::<bool>(),
        prop_oneof![1 => 1u8..=3, 3 => 3u8..=12],
        prop::option::weighted(0.25, 0u8..=6),
        any::<bool>(),
    )
        .prop_map(|(quorum, time, period, min, close_fail)| CfgSpec {
            quorum,
            time,
            period,
            min: min.map(|m| m.min(period)),
            min_wrong_unit: false,
            close_fail,
        })
        .boxed()
}

fn cfg_any() -> BoxedStrategy<CfgSpec> {
    prop_oneof![
        5 => cfg(),
        1 => (cfg(), 0u8..3).prop_map(|(mut c, k)| {
            match k {
                0 => c.quorum = PctSpec::Over,
                1 => c.min = Some(c.period + 1),
                _ => {
                    c.min = Some(1);
                    c.min_wrong_unit = true;
                }
            }
            c
        }),
    ]
    .boxed()
}

fn op() -> BoxedStrategy<Op> {
    let prop_i = || prop_oneof![30 => 0u8..3, 1 => Just(9u8)];
    let by_i = || prop_oneof![20 => 0u8..18, 1 => Just(18u8), 1 => Just(19u8), 1 => Just(20u8)];
    let msgs = prop::collection::vec(
        prop_oneof![4 => Just(Msg::Bump), 1 => Just(Msg::Fail), 3 => (0u8..=30).prop_map(Msg::Send)],
        0..3,
    );
    prop_oneof![
        2 => (by_i(), prop::collection::vec(msgs, 0..6))
            .prop_map(|(by, choices)| Op::Propose { by, choices }),
        16 => (prop_i(), by_i(), prop::collection::vec(any::<u8>(), 6), prop_oneof![25 => Just(0u8), 1 => 1u8..=4])
            .prop_map(|(prop, by, rank, bad)| Op::Vote { prop, by, rank, bad }),
        4 => (prop_i(), by_i()).prop_map(|(prop, by)| Op::Execute { prop, by }),
        2 => (prop_i(), by_i()).prop_map(|(prop, by)| Op::Close { prop, by }),
        3 => prop_oneof![5 => 1u8..=2, 1 => 1u8..=9].prop_map(Op::Advance),
        1 => (0u8..6, amount()).prop_map(|(who, power)| Op::SetPower { who, power }),
        1 => (prop::bool::weighted(0.8), cfg_any()).prop_map(|(by_dao, cfg)| Op::Config { by_dao, cfg }),
    ]
    .boxed()
}

#[derive(Clone)]
struct MCfg {
    quorum: PercentageThreshold,
    time: bool,
    period: u64,
    min: Option<u64>,
    close_fail: bool,
}

fn resolve(c: &CfgSpec, powers: &[u128]) -> (MCfg, bool) {
    let quorum = c.quorum.resolve(powers);
    let mut ok = match &quorum {
        PercentageThreshold::Majority {} => true,
        PercentageThreshold::Percent(d) => d.atomics().u128() <= ONE18,
    };
    if let Some(m) = c.min {
        ok &= m <= c.period && !c.min_wrong_unit;
    }
    (
        MCfg {
            quorum,
            time: c.time,
            period: c.period as u64,
            min: c.min.map(|m| m as u64),
            close_fail: c.close_fail,
        },
        ok,
    )
}

fn unchecked(c: &CfgSpec, m: &MCfg) -> UncheckedConfig {
    UncheckedConfig {
        quorum: m.quorum,
        voting_period: dur(c.time, m.period),
        min_voting_period: m.min.map(|x| dur(c.time ^ c.min_wrong_unit, x)),
        close_proposals_on_execution_failure: m.close_fail,
    }
}

#[derive(Clone)]
struct MProp {
    proposer: String,
    start: u64,
    time: bool,
    expiry: u64,
    min: Option<u64>,
    quorum: PercentageThreshold,
    close_fail: bool,
    total: u128,
    powers: BTreeMap<String, u128>,
    choices: Vec<Vec<Msg>>,
    fin: Option<Status>,
    ballots: BTreeMap<String, (Vec<u32>, u128)>,
}

impl MProp {
    /// power preferring a over b
    fn prefer(&self, a: u32, b: u32) -> u128 {
        self.ballots
            .values()
            .filter(|(r, _)| {
                r.iter().position(|x| *x == a).unwrap() < r.iter().position(|x| *x == b).unwrap()
            })
            .map(|x| x.1)
            .sum()
    }
    fn cast(&self) -> u128 {
        self.ballots.values().map(|x| x.1).sum()
    }
    /// Does `a` beat every other option if `extra` more power ranks it first (or, with
    /// `against`, last)?
    fn beats_all(&self, a: u32, extra: u128, against: bool) -> bool {
        let n = self.choices.len() as u32 + 1;
        (0..n).filter(|b| *b != a).all(|b| {
            let (mut f, mut g) = (self.prefer(a, b), self.prefer(b, a));
            if against {
                g += extra
            } else {
                f += extra
            }
            f > g
        })
    }
    fn winner(&self, block: &BlockInfo) -> (Winner, Status) {
        let n = self.choices.len() as u32 + 1;
        let rest = self.total - self.cast();
        let leader = (0..n).find(|a| self.beats_all(*a, 0, false));
        let w = match leader {
            Some(a) if self.beats_all(a, rest, true) => Winner::Undisputed(a),
            Some(a) => Winner::Some(a),
            None if (0..n).any(|a| self.beats_all(a, rest, false)) => Winner::None,
            None => Winner::Never,
        };
        let t = now(self.time, block);
        let quorum = meets(self.cast(), self.total, &self.quorum);
        let st = if let Some(s) = self.fin {
            s
        } else if self.min.map_or(false, |m| t < m) {
            Status::Open
        } else if t >= self.expiry {
            match leader {
                Some(winner) if quorum => Status::Passed { winner },
                _ => Status::Rejected,
            }
        } else {
            match w {
                // more participation can only help quorum, so the outcome is settled
                Winner::Undisputed(winner) if quorum => Status::Passed { winner },
                Winner::Never => Status::Rejected,
                _ => Status::Open,
            }
        };
        (w, st)
    }
    fn status(&self, b: &BlockInfo) -> Status {
        self.winner(b).1
    }
}

pub struct Condorcet;
const DENOM: &str = "ugov";

fn who(i: u8, n: usize, core: &Addr) -> String {
    match i {
        0..=17 => user(i as usize % n),
        18 => user(5),
        19 => "outsider".into(),
        _ => core.to_string(),
    }
}
fn pick(i: u8, n: usize) -> usize {
    if i == 9 || n == 0 {
        n
    } else {
        i as usize % n
    }
}

impl Scenario for Condorcet {
    type Case = Case;
    fn name(&self) -> &'static str {
        "condorcet"
    }
    fn rule(&self) -> &'static str {
        "DAO with freely chosen powers; ranked ballots on proposals of 1-5 options plus none. Non-trivial: some proposal got at least two ballots and was decided, and it had at least 3 candidates or was decided before expiry."
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let powers = prop_oneof![
            5 => prop::collection::vec(1u128..=5, 2..7),
            2 => prop::collection::vec(0u128..=1000, 1..7),
            2 => prop::collection::vec(amount(), 1..7),
        ];
        (prop_oneof![40 => cfg(), 1 => cfg_any()], powers, prop::collection::vec(op(), 4..30))
            .prop_map(|(cfg, powers, mut ops)| {
                if !matches!(ops[0], Op::Propose { .. }) {
                    ops.insert(0, Op::Propose { by: 0, choices: vec![vec![Msg::Bump], vec![Msg::Send(7)]] });
                }
                Case { cfg, powers, ops }
            })
            .boxed()
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        let mut app = new_app();
        let nu = c.powers.len();
        let mut powers: BTreeMap<String, u128> =
            c.powers.iter().enumerate().map(|(i, p)| (user(i), *p)).collect();
        let (mut cfg, ok) = resolve(&c.cfg, &c.powers);
        let v = mock_voting(&mut app, &powers.clone().into_iter().collect::<Vec<_>>());
        let code = app.store_code(code::condorcet());
        let dao = new_dao(
            &mut app,
            v,
            vec![module(code, to_json_binary(&unchecked(&c.cfg, &cfg)).unwrap())],
        );
        agree("creating the DAO", &dao, &if ok { Ok(()) } else { Err("invalid configuration") }, &["P06"])?;
        let Ok(dao) = dao else {
            cx.label("bad-setup");
            return Ok(());
        };
        let (m, core) = (dao.modules[0].clone(), dao.core.clone());
        let target = new_mock(&mut app);
        fund_account(&mut app, core.as_str(), 100, DENOM);
        let (mut bumps, mut dao_bal, mut sink) = (0u64, 100u128, 0u128);
        let mut props: Vec<MProp> = vec![];
        let mut hist = vec![(0u64, powers.clone())];
        for (step, op) in c.ops.iter().enumerate() {
            let b = app.block_info();
            let np = props.len();
            cx.log(|| format!("[{step}] h={} {:?}", b.height, op));
            match op {
                Op::Propose { by, choices } => {
                    if np >= 3 {
                        continue;
                    }
                    let by = who(*by, nu, &core);
                    let eff = hist.iter().filter(|x| x.0 <= b.height).next_back().unwrap().1.clone();
                    let want = if eff.get(&by).copied().unwrap_or(0) == 0 {
                        Err("no power")
                    } else if choices.is_empty() {
                        Err("no choices")
                    } else {
                        Ok(())
                    };
                    let ch = choices
                        .iter()
                        .map(|ms| Choice {
                            msgs: ms
                                .iter()
                                .map(|x| -> CosmosMsg {
                                    match x {
                                        Msg::Bump => wasm_msg(&target, &MockMsg::Bump {}),
                                        Msg::Fail => wasm_msg(&target, &MockMsg::Fail {}),
                                        Msg::Send(n) => BankMsg::Send {
                                            to_address: "sink".into(),
                                            amount: coins(*n as u128, DENOM),
                                        }
                                        .into(),
                                    }
                                })
                                .collect(),
                        })
                        .collect();
                    let got = exec(&mut app, &by, &m, &ExecuteMsg::Propose { choices: ch }, &[]);
                    agree(format!("[{step}] propose by {by}"), &got, &want, &["P06"])?;
                    if want.is_ok() {
                        let t = now(cfg.time, &b);
                        props.push(MProp {
                            proposer: by,
                            start: b.height,
                            time: cfg.time,
                            expiry: t + cfg.period,
                            min: cfg.min.map(|x| t + x),
                            quorum: cfg.quorum,
                            close_fail: cfg.close_fail,
                            total: eff.values().sum(),
                            powers: eff,
                            choices: choices.clone(),
                            fin: None,
                            ballots: BTreeMap::new(),
                        });
                        cx.label("proposed");
                    }
                }
                Op::Vote { prop, by, rank, bad } => {
                    let i = pick(*prop, np);
                    let by = who(*by, nu, &core);
                    let mut want = Err("no such proposal");
                    let mut vote = vec![0u32];
                    if let Some(p) = props.get_mut(i) {
                        let n = p.choices.len() as u32 + 1;
                        vote = (0..n).collect();
                        vote.sort_by_key(|x| (rank[*x as usize % rank.len()], *x));
                        match bad {
                            1 => {
                                vote.pop();
                            }
                            2 => vote.push(0),
                            3 => vote[0] = n,
                            4 => vote[0] = vote[1],
                            _ => {}
                        }
                        let power = p.powers.get(&by).copied().unwrap_or(0);
                        want = if power == 0 {
                            Err("no power at start")
                        } else if p.ballots.contains_key(&by) {
                            cx.label("second-ballot");
                            Err("already voted")
                        } else if now(p.time, &b) >= p.expiry {
                            cx.label("late-vote");
                            Err("expired")
                        } else if *bad != 0 {
                            cx.label("malformed-ballot");
                            Err("malformed ballot")
                        } else {
                            p.ballots.insert(by.clone(), (vote.clone(), power));
                            cx.label("ballot");
                            Ok(())
                        };
                    }
                    let got = exec(&mut app, &by, &m, &ExecuteMsg::Vote { proposal_id: i as u32 + 1, vote }, &[]);
                    agree(format!("[{step}] vote by {by} on {}", i + 1), &got, &want, &["P06"])?;
                }
                Op::Execute { prop, by } => {
                    let i = pick(*prop, np);
                    let by = who(*by, nu, &core);
                    let mut want = Err("no such proposal");
                    let mut apply = None;
                    if let Some(p) = props.get(i) {
                        want = Err("not passed");
                        if p.powers.get(&by).copied().unwrap_or(0) == 0 {
                            want = Err("no power");
                        } else if let Status::Passed { winner } = p.status(&b) {
                            let none = vec![];
                            let msgs = p.choices.get(winner as usize).unwrap_or(&none);
                            let (mut nb, mut nd, mut ns, mut okk) = (bumps, dao_bal, sink, true);
                            for x in msgs {
                                match x {
                                    Msg::Bump => nb += 1,
                                    Msg::Fail => okk = false,
                                    Msg::Send(k) => {
                                        let k = *k as u128;
                                        if k == 0 || k > nd {
                                            okk = false
                                        } else {
                                            nd -= k;
                                            ns += k;
                                        }
                                    }
                                }
                                if !okk {
                                    break;
                                }
                            }
                            if okk {
                                apply = Some((Status::Executed, nb, nd, ns));
                                want = Ok(());
                            } else if p.close_fail {
                                apply = Some((Status::ExecutionFailed, bumps, dao_bal, sink));
                                want = Ok(());
                            } else {
                                want = Err("a message fails");
                            }
                        }
                    }
                    if let Some((st, nb, nd, ns)) = apply {
                        props[i].fin = Some(st);
                        (bumps, dao_bal, sink) = (nb, nd, ns);
                        cx.label("executed");
                    }
                    let got = exec(&mut app, &by, &m, &ExecuteMsg::Execute { proposal_id: i as u32 + 1 }, &[]);
                    agree(format!("[{step}] execute {} by {by}", i + 1), &got, &want, &["P06"])?;
                }
                Op::Close { prop, by } => {
                    let i = pick(*prop, np);
                    let by = who(*by, nu, &core);
                    let mut want = Err("not rejected");
                    if let Some(p) = props.get_mut(i) {
                        if p.status(&b) == Status::Rejected {
                            p.fin = Some(Status::Closed);
                            want = Ok(());
                            cx.label("closed");
                        }
                    }
                    let got = exec(&mut app, &by, &m, &ExecuteMsg::Close { proposal_id: i as u32 + 1 }, &[]);
                    agree(format!("[{step}] close {}", i + 1), &got, &want, &["P06"])?;
                }
                Op::Advance(n) => advance(&mut app, *n as u64, *n as u64),
                Op::SetPower { who: w, power } => {
                    powers.insert(user(*w as usize), *power);
                    let at = b.height + 1;
                    hist.retain(|x| x.0 != at);
                    hist.push((at, powers.clone()));
                    let list: Vec<_> = powers.clone().into_iter().collect();
                    harness(exec(&mut app, "x", &dao.voting, &powers_msg(&list), &[]))?;
                }
                Op::Config { by_dao, cfg: cs } => {
                    let pw: Vec<u128> = powers.values().copied().collect();
                    let (n, ok) = resolve(cs, &pw);
                    let msg = ExecuteMsg::SetConfig(unchecked(cs, &n));
                    let got = if *by_dao {
                        as_dao(&mut app, &core, vec![wasm_msg(&m, &msg)])
                    } else {
                        exec(&mut app, &user(0), &m, &msg, &[]).map(|_| ())
                    };
                    let want = if !*by_dao {
                        Err("not the DAO")
                    } else if !ok {
                        Err("invalid configuration")
                    } else {
                        cfg = n;
                        Ok(())
                    };
                    agree(format!("[{step}] config update"), &got, &want, &["P06"])?;
                }
            }
            let b = app.block_info();
            for (i, p) in props.iter().enumerate() {
                let id = i as u32 + 1;
                let r: serde_json::Value = q(&app, &m, &QueryMsg::Proposal { id })?;
                let (w, st) = p.winner(&b);
                let get = |a: &str, x: &str| r[a][x].clone();
                let code_w: Winner = serde_json::from_value(get("tally", "winner")).unwrap();
                let code_s: Status = serde_json::from_value(get("proposal", "last_status")).unwrap();
                ensure_eq!(
                    get("tally", "power_outstanding"),
                    serde_json::json!((p.total - p.cast()).to_string()),
                    "[{step}] proposal {id} power outstanding"
                );
                ensure!(
                    code_s == st,
                    "[{step}] proposal {id}: status {code_s:?}, oracle {st:?}; ballots {:?} total {} quorum {:?} now {} expiry {}",
                    p.ballots, p.total, p.quorum, now(p.time, &b), p.expiry
                );
                ensure!(
                    code_w == w,
                    "[{step}] proposal {id}: winner {code_w:?}, oracle {w:?}; ballots {:?} total {}",
                    p.ballots, p.total
                );
                ensure_eq!(get("proposal", "proposer"), serde_json::json!(p.proposer), "[{step}] proposer of {id}");
                ensure_eq!(get("proposal", "total_power"), serde_json::json!(p.total.to_string()), "[{step}] total power of {id}");
                ensure_eq!(get("tally", "start_height"), serde_json::json!(p.start), "[{step}] start of {id}");
                ensure_eq!(
                    get("tally", "expiration"),
                    serde_json::to_value(exp_at(p.time, p.expiry)).unwrap(),
                    "[{step}] expiry of {id}"
                );
                ensure_eq!(get("proposal", "choices").as_array().unwrap().len(), p.choices.len() + 1, "[{step}] choices of {id}");
                if p.ballots.len() >= 2 && st != Status::Open {
                    cx.label("decided");
                    let early = now(p.time, &b) < p.expiry;
                    if early {
                        cx.label("decided-early");
                    }
                    if early || p.choices.len() >= 2 {
                        cx.nontrivial = true;
                    }
                }
                if p.ballots.len() >= 3 && matches!(w, Winner::None | Winner::Never) {
                    cx.label("no-condorcet-winner");
                }
            }
            ensure_eq!(mock_count(&app, &target), bumps, "[{step}] number of executed messages");
            ensure_eq!(bank(&app, core.as_str(), DENOM), dao_bal, "[{step}] DAO balance");
            ensure_eq!(bank(&app, "sink", DENOM), sink, "[{step}] receiver balance");
            let n: u64 = q(&app, &m, &QueryMsg::NextProposalId {})?;
            ensure_eq!(n, props.len() as u64 + 1, "[{step}] next proposal id");
        }
        let got: UncheckedConfig = q(&app, &m, &QueryMsg::Config {})?;
        ensure_eq!(got.quorum, cfg.quorum, "configured quorum");
        ensure_eq!(got.voting_period, dur(cfg.time, cfg.period), "configured period");
        Ok(())
    }
}
