//! Rewards of cw20 stakers: the external rewards contract (earned block by block) and the
//! distributor that feeds a staking contract at a fixed rate.

use cosmwasm_std::{coins, to_json_binary, Addr, Uint128, Uint256};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use super::common::*;
use crate::env::*;
use crate::fw::*;
use crate::{ensure, ensure_eq};

const USERS: usize = 4;
const FP: u32 = 64;

// ------------------------------------------------------------------ external rewards

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Stake { by: u8, n: u8 },
    Unstake { by: u8, n: u8 },
    Claim { by: u8 },
    /// by the owner unless told; so much per block and a rest
    Fund { by: u8, rate: u8, rest: u8 },
    WrongFund { how: u8 },
    Duration { by: u8, n: u8 },
    Forged { by: u8, stake: bool },
    Owner { by: u8, to: u8, accept: bool, renounce: bool },
    /// to the block at which the period ends, and so many before or after
    ToEnd { off: i8 },
    Advance { blocks: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub cw20: bool,
    pub duration: u8,
    pub unit: u8,
    pub stake_unit: u8,
    pub unstaking: bool,
    pub early: [u8; 4],
    pub ops: Vec<Op>,
}

pub struct External;

const T: &[&str] = &["R02"];

fn op() -> BoxedStrategy<Op> {
    let u = || 0u8..4;
    let who = || prop_oneof![12 => Just(9u8), 1 => u()];
    prop_oneof![
        8 => (u(), 1u8..20).prop_map(|(by, n)| Op::Stake { by, n }),
        6 => (u(), 0u8..24).prop_map(|(by, n)| Op::Unstake { by, n }),
        7 => u().prop_map(|by| Op::Claim { by }),
        5 => (who(), 0u8..20, 0u8..20).prop_map(|(by, rate, rest)| Op::Fund { by, rate, rest }),
        1 => (0u8..5).prop_map(|how| Op::WrongFund { how }),
        2 => (who(), 0u8..30).prop_map(|(by, n)| Op::Duration { by, n }),
        1 => (u(), any::<bool>()).prop_map(|(by, stake)| Op::Forged { by, stake }),
        1 => (who(), u(), any::<bool>(), prop::bool::weighted(0.03)).prop_map(|(by, to, accept, renounce)| Op::Owner { by, to, accept, renounce }),
        4 => (-2i8..3).prop_map(|off| Op::ToEnd { off }),
        10 => prop_oneof![6 => 0u8..8, 1 => 8u8..60].prop_map(|blocks| Op::Advance { blocks }),
    ]
    .boxed()
}

struct World {
    app: VApp,
    cw20: bool,
    ext: Addr,
    staking: Addr,
    token: Addr,
    rtoken: Addr,
    owner: Option<String>,
    pending: Option<String>,
    unit: u128,
    sunit: u128,
    duration: u64,
    rate: u128,
    finish: u64,
    seen: u64,
    /// at the start of the present block, and now
    start: [u128; USERS],
    stake: [u128; USERS],
    wallet: [u128; USERS],
    earned: [Uint256; USERS],
    events: u64,
    settled: [u64; USERS],
    claimed: [u128; USERS],
    funded: u128,
}

impl World {
    fn h(&self) -> u64 {
        self.app.block_info().height
    }
    /// moves the clock, earning every block's rewards
    fn go(&mut self, blocks: u64) {
        for _ in 0..blocks {
            self.start = self.stake;
            advance(&mut self.app, 1, 5);
            let total: u128 = self.start.iter().sum();
            if self.h() <= self.finish && total > 0 {
                self.events += 1;
                for i in 0..USERS {
                    self.earned[i] += Uint256::from(self.rate) * Uint256::from(self.start[i]) * Uint256::from(1u128 << FP) / Uint256::from(total);
                }
            }
        }
    }
    fn held(&self, who: &str) -> u128 {
        if self.cw20 {
            cw20_balance(&self.app, &self.rtoken, who)
        } else {
            bank(&self.app, who, "urew")
        }
    }
    fn pend(&self, u: usize) -> Result<u128, Fail> {
        let v: Value = q(&self.app, &self.ext, &json!({"get_pending_rewards": {"address": user(u)}}))?;
        Ok(v["pending_rewards"].as_str().unwrap().parse().unwrap())
    }
    fn actor(&self, by: u8) -> String {
        if by == 9 {
            self.owner.clone().unwrap_or("nobody".into())
        } else {
            user(by as usize)
        }
    }
    fn ex(&mut self, who: &str, m: &Value) -> Result<(), String> {
        let a = self.ext.clone();
        exec(&mut self.app, who, &a, m, &[]).map(|_| ())
    }
    fn send(&mut self, who: &str, token: &Addr, n: u128, m: &Value) -> Result<(), String> {
        let m = json!({"send": {"contract": self.ext, "amount": n.to_string(), "msg": to_json_binary(m).unwrap()}});
        exec(&mut self.app, who, token, &m, &[]).map(|_| ())
    }
}

impl Scenario for External {
    type Case = Case;
    fn name(&self) -> &'static str {
        "staking-rewards"
    }
    fn rule(&self) -> &'static str {
        "at least two members earned rewards, a stake changed while a period ran, and a claim was paid"
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        (any::<bool>(), 1u8..20, 0u8..4, 0u8..3, any::<bool>(), prop::array::uniform4(0u8..6), prop::collection::vec(op(), 12..60))
            .prop_map(|(cw20, duration, unit, stake_unit, unstaking, early, ops)| Case { cw20, duration, unit, stake_unit, unstaking, early, ops })
            .boxed()
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        let mut app = new_app();
        let boss = "boss";
        let rich = 1u128 << 110;
        let bal: Vec<_> = (0..4).map(|i| (user(i), rich)).chain([("owner".to_string(), rich)]).collect();
        let token = new_cw20(&mut app, &bal);
        let rtoken = new_cw20(&mut app, &bal);
        for (a, n) in &bal {
            fund_account(&mut app, a, *n, "urew");
            fund_account(&mut app, a, 1_000, "uother");
        }
        let code = app.store_code(code::cw20_stake());
        let dur = if c.unstaking { json!({"height": 3}) } else { Value::Null };
        let staking = inst(&mut app, code, boss, &json!({"owner": boss, "token_address": token, "unstaking_duration": dur}), &[], None).unwrap();
        let code = app.store_code(code::cw20_stake_external_rewards());
        let denom = if c.cw20 { json!({"cw20": rtoken}) } else { json!({"native": "urew"}) };
        let m = |d: u64| json!({"owner": "owner", "staking_contract": staking, "reward_token": denom, "reward_duration": d});
        ensure!(inst(&mut app, code, boss, &m(0), &[], None).is_err(), @T, "a period of no blocks");
        let ext = inst(&mut app, code, boss, &m(c.duration as u64), &[], None).unwrap();
        let mut w = World {
            app,
            cw20: c.cw20,
            ext,
            staking,
            token,
            rtoken,
            owner: Some("owner".into()),
            pending: None,
            unit: [1, 1_000, 1_000_000, 1_000_000_000_000_000_000][c.unit as usize],
            sunit: [1, 1_000_000, 1_000_000_000_000_000_000][c.stake_unit as usize],
            duration: c.duration as u64,
            rate: 0,
            finish: 0,
            seen: 0,
            start: [0; 4],
            stake: [0; 4],
            wallet: [rich; 4],
            earned: [Uint256::zero(); 4],
            events: 0,
            settled: [0; 4],
            claimed: [0; 4],
            funded: 0,
        };
        for u in 0..4 {
            if c.early[u] > 0 {
                self.step(&mut w, &Op::Stake { by: u as u8, n: c.early[u] }, "early", cx)?;
            }
        }
        let (s, e) = (w.staking.clone(), w.ext.clone());
        exec(&mut w.app, boss, &s, &json!({"add_hook": {"addr": e}}), &[]).unwrap();
        w.go(1);
        for (step, o) in c.ops.iter().enumerate() {
            cx.log(|| format!("[{step}] {o:?} @{}", w.h()));
            let at = format!("[{step}]");
            self.step(&mut w, o, &at, cx)?;
            self.compare(&w, &at)?;
        }
        cx.nontrivial = cx.has("claimed") && cx.has("stake-changed-while-running") && w.earned.iter().filter(|e| !e.is_zero()).count() >= 2;
        Ok(())
    }
}

impl External {
    fn step(&self, w: &mut World, o: &Op, at: &str, cx: &mut Cx) -> R {
        let running = w.finish > w.h();
        match o {
            Op::Stake { by, n } => {
                let u = *by as usize;
                let n = *n as u128 * w.sunit;
                let (s, t) = (w.staking.clone(), w.token.clone());
                let m = json!({"send": {"contract": s, "amount": n.to_string(), "msg": to_json_binary(&json!({"stake": {}})).unwrap()}});
                let r = exec(&mut w.app, &user(u), &t, &m, &[]);
                agree(format!("{at} user{u} stakes {n}"), &r, &Ok(()), T)?;
                w.stake[u] += n;
                w.settled[u] += 1;
                if running {
                    cx.label("stake-changed-while-running");
                }
            }
            Op::Unstake { by, n } => {
                let u = *by as usize;
                let n = (*n as u128 * w.sunit).min(w.stake[u]);
                if n == 0 {
                    return Ok(());
                }
                let s = w.staking.clone();
                let r = exec(&mut w.app, &user(u), &s, &json!({"unstake": {"amount": n.to_string()}}), &[]);
                // claims waiting elsewhere are not this property's business
                if r.is_err() && format!("{r:?}").contains("claims") {
                    return Ok(());
                }
                agree(format!("{at} user{u} unstakes {n}"), &r, &Ok(()), T)?;
                w.stake[u] -= n;
                w.settled[u] += 1;
                if running {
                    cx.label("stake-changed-while-running");
                }
                if w.stake[u] == 0 {
                    cx.label("left");
                }
            }
            Op::Claim { by } => {
                let u = *by as usize;
                let due = w.pend(u)?;
                let before = w.held(&user(u));
                let r = w.ex(&user(u), &json!({"claim": {}}));
                let want = if due > 0 { Ok(()) } else { Err("nothing to claim") };
                agree(format!("{at} user{u} claims {due}"), &r, &want, T)?;
                if want.is_ok() {
                    ensure_eq!(w.held(&user(u)) - before, due, @T, "{at} user{u} was paid");
                    w.claimed[u] += due;
                    w.settled[u] += 1;
                    ensure_eq!(w.pend(u)?, 0, @T, "{at} rewards of user{u} right after claiming");
                    cx.label("claimed");
                }
            }
            Op::Fund { by, rate, rest } => {
                let who = w.actor(*by);
                let n = (*rate as u128 * w.duration as u128 + *rest as u128) * w.unit;
                if n == 0 {
                    return Ok(());
                }
                let r = if w.cw20 {
                    let t = w.rtoken.clone();
                    fund_rich(w, &who, n);
                    w.send(&who, &t, n, &json!({"fund": {}}))
                } else {
                    fund_rich(w, &who, n);
                    let a = w.ext.clone();
                    exec(&mut w.app, &who, &a, &json!({"fund": {}}), &coins(n, "urew")).map(|_| ())
                };
                let want = if w.owner.as_ref() != Some(&who) {
                    Err("not the owner")
                } else if running {
                    Err("a period is running")
                } else if n / (w.duration as u128) == 0 {
                    Err("less than one per block")
                } else {
                    Ok(())
                };
                agree(format!("{at} {who} funds {n}"), &r, &want, T)?;
                if want.is_ok() {
                    cx.label(if w.funded > 0 { "refunded" } else { "funded" });
                    w.funded += n;
                    w.rate = n / w.duration as u128;
                    w.finish = w.h() + w.duration;
                    w.seen += 1;
                }
            }
            Op::WrongFund { how } => {
                let who = w.actor(9);
                fund_rich(w, &who, 10_000);
                let n = w.duration as u128 * 10;
                let a = w.ext.clone();
                let m = json!({"fund": {}});
                let r = match how {
                    0 => exec(&mut w.app, &who, &a, &m, &coins(5, "uother")).map(|_| ()),
                    1 => {
                        let t = w.token.clone();
                        w.send(&who, &t, n, &m)
                    }
                    2 if w.cw20 => exec(&mut w.app, &who, &a, &m, &coins(n, "urew")).map(|_| ()),
                    2 => {
                        let t = w.rtoken.clone();
                        w.send(&who, &t, n, &m)
                    }
                    3 => w.ex(&who, &m),
                    _ => w.ex(&who, &json!({"receive": {"sender": who, "amount": n.to_string(), "msg": to_json_binary(&m).unwrap()}})),
                };
                agree(format!("{at} {who} funds wrongly ({how})"), &r, &Err("not its token"), T)?;
            }
            Op::Duration { by, n } => {
                let who = w.actor(*by);
                let r = w.ex(&who, &json!({"update_reward_duration": {"new_duration": n}}));
                let want = if w.owner.as_ref() != Some(&who) {
                    Err("not the owner")
                } else if running {
                    Err("a period is running")
                } else if *n == 0 {
                    Err("no blocks")
                } else {
                    Ok(())
                };
                agree(format!("{at} {who} sets the duration {n}"), &r, &want, T)?;
                if want.is_ok() {
                    w.duration = *n as u64;
                }
            }
            Op::Forged { by, stake } => {
                let who = user(*by as usize);
                let k = if *stake { "stake" } else { "unstake" };
                let r = w.ex(&who, &json!({"stake_change_hook": {k: {"addr": who, "amount": "7"}}}));
                agree(format!("{at} {who} calls the hook"), &r, &Err("not the staking contract"), T)?;
            }
            Op::Owner { by, to, accept, renounce } => {
                let (who, a, want) = if *accept {
                    let who = user(*to as usize);
                    let ok = w.pending.as_ref() == Some(&who);
                    (who, json!("accept_ownership"), if ok { Ok(()) } else { Err("not the nominee") })
                } else {
                    let who = w.actor(*by);
                    let ok = w.owner.as_ref() == Some(&who);
                    let a = if *renounce { json!("renounce_ownership") } else { json!({"transfer_ownership": {"new_owner": user(*to as usize), "expiry": null}}) };
                    (who, a, if ok { Ok(()) } else { Err("not the owner") })
                };
                let r = w.ex(&who, &json!({"update_ownership": a}));
                agree(format!("{at} {who} {a}"), &r, &want, T)?;
                if want.is_ok() {
                    if *accept {
                        w.owner = Some(who);
                        w.pending = None;
                    } else if *renounce {
                        w.owner = None;
                        w.pending = None;
                    } else {
                        w.pending = Some(user(*to as usize));
                    }
                }
            }
            Op::ToEnd { off } => {
                let to = (w.finish as i64 + *off as i64).max(0) as u64;
                let h = w.h();
                if to > h {
                    cx.label("near-the-end");
                    w.go(to - h);
                }
            }
            Op::Advance { blocks } => w.go(*blocks as u64),
        }
        Ok(())
    }
    fn compare(&self, w: &World, at: &str) -> R {
        let mut owed = 0u128;
        for u in 0..USERS {
            let p = w.pend(u)?;
            owed += p;
            let got = p + w.claimed[u];
            let most = Uint128::try_from((w.earned[u] + Uint256::from(w.events)) >> FP).unwrap().u128();
            let least = Uint128::try_from(w.earned[u] >> FP).unwrap().u128().saturating_sub(w.settled[u] as u128 + 1);
            ensure!(got <= most && got >= least, @T, "{at} user{u} has earned {got} ({} claimed), should be {least} to {most}", w.claimed[u]);
        }
        let paid: u128 = w.claimed.iter().sum();
        ensure!(paid + owed <= w.funded, @T, "{at} {paid} paid and {owed} promised of {} funded", w.funded);
        ensure_eq!(w.held(w.ext.as_str()), w.funded - paid, @T, "{at} tokens held");
        let v: Value = q(&w.app, &w.ext, &json!({"info": {}}))?;
        ensure_eq!(v["reward"], json!({"period_finish": w.finish, "reward_rate": w.rate.to_string(), "reward_duration": w.duration}), @T, "{at} the period");
        let v: Value = q(&w.app, &w.ext, &json!({"ownership": {}}))?;
        ensure_eq!(v["owner"], json!(w.owner), @T, "{at} owner");
        Ok(())
    }
}

fn fund_rich(w: &mut World, who: &str, n: u128) {
    if w.cw20 {
        let t = w.rtoken.clone();
        exec(&mut w.app, "minter", &t, &json!({"mint": {"recipient": who, "amount": n.to_string()}}), &[]).unwrap();
    }
    fund_account(&mut w.app, who, n, "urew");
    if n == 10_000 {
        fund_account(&mut w.app, who, n, "uother");
        let t = w.token.clone();
        exec(&mut w.app, "minter", &t, &json!({"mint": {"recipient": who, "amount": n.to_string()}}), &[]).unwrap();
    }
}

// ------------------------------------------------------------------ the feeding distributor

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum DOp {
    Deposit { token: u8, n: u16 },
    Distribute { by: u8 },
    Config { by: u8, staking: u8, token: u8, rate: u16 },
    Withdraw { by: u8 },
    Owner { by: u8, to: u8, accept: bool, renounce: bool },
    Advance { blocks: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DCase {
    pub staking: u8,
    pub token: u8,
    pub rate: u16,
    pub unit: u8,
    pub ops: Vec<DOp>,
}

pub struct Feeder;

const TD: &[&str] = &["R03"];

fn dop() -> BoxedStrategy<DOp> {
    let who = || prop_oneof![10 => Just(9u8), 1 => 0u8..4];
    let tok = || prop_oneof![20 => Just(0u8), 4 => Just(1u8), 1 => Just(2u8)];
    prop_oneof![
        6 => (prop_oneof![8 => Just(0u8), 1 => Just(1u8)], 1u16..2000).prop_map(|(token, n)| DOp::Deposit { token, n }),
        10 => (0u8..4).prop_map(|by| DOp::Distribute { by }),
        3 => (who(), tok(), tok(), prop_oneof![1 => Just(0u16), 6 => 1u16..300]).prop_map(|(by, staking, token, rate)| DOp::Config { by, staking, token, rate }),
        2 => who().prop_map(|by| DOp::Withdraw { by }),
        1 => (who(), 0u8..4, any::<bool>(), prop::bool::weighted(0.05)).prop_map(|(by, to, accept, renounce)| DOp::Owner { by, to, accept, renounce }),
        10 => prop_oneof![6 => 0u8..6, 1 => 6u8..60].prop_map(|blocks| DOp::Advance { blocks }),
    ]
    .boxed()
}

impl Scenario for Feeder {
    type Case = DCase;
    fn name(&self) -> &'static str {
        "staking-feeder"
    }
    fn rule(&self) -> &'static str {
        "at least two distributions were paid, one of them over more than one block or limited by the balance"
    }
    fn strategy(&self) -> BoxedStrategy<DCase> {
        let tok = || prop_oneof![9 => Just(0u8), 1 => Just(1u8)];
        (tok(), tok(), prop_oneof![1 => Just(0u16), 9 => 1u16..300], 0u8..3, prop::collection::vec(dop(), 8..50))
            .prop_map(|(staking, token, rate, unit, ops)| DCase { staking, token, rate, unit, ops })
            .boxed()
    }
    fn run(&self, c: &DCase, cx: &mut Cx) -> R {
        let mut app = new_app();
        let boss = "boss";
        let unit = [1u128, 1_000_000, 1_000_000_000_000_000_000][c.unit as usize];
        let bal = vec![("rich".to_string(), 1u128 << 120)];
        let tokens = [new_cw20(&mut app, &bal), new_cw20(&mut app, &bal)];
        let code = app.store_code(code::cw20_stake());
        let stakings: Vec<_> = (0..2)
            .map(|i| inst(&mut app, code, boss, &json!({"owner": boss, "token_address": tokens[i], "unstaking_duration": null}), &[], None).unwrap())
            .collect();
        let code = app.store_code(code::cw20_stake_reward_distributor());
        // 2 stands for a contract of the wrong kind
        let st = |i: u8| if i == 2 { tokens[0].clone() } else { stakings[i as usize].clone() };
        let tk = |i: u8| if i == 2 { stakings[0].clone() } else { tokens[i as usize].clone() };
        for (s, t) in [(2, 0), (0, 2)] {
            let m = json!({"owner": "owner", "staking_addr": st(s), "reward_rate": "1", "reward_token": tk(t)});
            ensure!(inst(&mut app, code, boss, &m, &[], None).is_err(), @TD, "instantiated with contracts of the wrong kind");
        }
        let m = json!({"owner": "owner", "staking_addr": st(c.staking), "reward_rate": (c.rate as u128 * unit).to_string(), "reward_token": tk(c.token)});
        let rd = inst(&mut app, code, boss, &m, &[], None).unwrap();
        let (mut staking, mut token, mut rate) = (c.staking, c.token, c.rate as u128 * unit);
        let mut owner = Some("owner".to_string());
        let mut pending: Option<String> = None;
        let mut last = app.block_info().height;
        let mut held = [0u128; 2];
        let mut pool = [[0u128; 2]; 2];
        let mut got = std::collections::BTreeMap::<String, [u128; 2]>::new();
        for (step, o) in c.ops.iter().enumerate() {
            cx.log(|| format!("[{step}] {o:?}"));
            let at = format!("[{step}]");
            let h = app.block_info().height;
            let actor = |by: u8| if by == 9 { owner.clone().unwrap_or("nobody".into()) } else { user(by as usize) };
            match o {
                DOp::Deposit { token, n } => {
                    let t = *token as usize;
                    let n = *n as u128 * unit;
                    harness(exec(&mut app, "rich", &tokens[t], &json!({"transfer": {"recipient": rd, "amount": n.to_string()}}), &[]))?;
                    held[t] += n;
                }
                DOp::Distribute { by } => {
                    let r = exec(&mut app, &user(*by as usize), &rd, &json!({"distribute": {}}), &[]);
                    let t = token as usize;
                    let due = (rate * (h - last) as u128).min(held[t]);
                    let want = if due == 0 {
                        Err("nothing is due")
                    } else if staking != token {
                        Err("another token than the one staked")
                    } else {
                        Ok(())
                    };
                    agree(format!("{at} a distribution of {due}"), &r, &want, TD)?;
                    if want.is_ok() {
                        if due < rate * (h - last) as u128 {
                            cx.label("limited");
                        } else if h - last > 1 {
                            cx.label("several-blocks");
                        }
                        cx.label("paid");
                        last = h;
                        held[t] -= due;
                        pool[staking as usize][t] += due;
                    }
                }
                DOp::Config { by, staking: s, token: t, rate: n } => {
                    let who = actor(*by);
                    let n = *n as u128 * unit;
                    let m = json!({"update_config": {"staking_addr": st(*s), "reward_rate": n.to_string(), "reward_token": tk(*t)}});
                    let r = exec(&mut app, &who, &rd, &m, &[]);
                    let want = if owner.as_ref() != Some(&who) {
                        Err("not the owner")
                    } else if *s == 2 || *t == 2 {
                        Err("contracts of the wrong kind")
                    } else {
                        Ok(())
                    };
                    agree(format!("{at} {who} sets {m}"), &r, &want, TD)?;
                    if want.is_ok() {
                        (staking, token, rate) = (*s, *t, n);
                        last = h;
                        cx.label("new-settings");
                    }
                }
                DOp::Withdraw { by } => {
                    let who = actor(*by);
                    let r = exec(&mut app, &who, &rd, &json!({"withdraw": {}}), &[]);
                    let t = token as usize;
                    let want = if owner.as_ref() != Some(&who) { Err("not the owner") } else { Ok(()) };
                    // whether withdrawing nothing is accepted is not stated
                    if want.is_err() || held[t] > 0 {
                        agree(format!("{at} {who} withdraws"), &r, &want, TD)?;
                        if want.is_ok() {
                            got.entry(who).or_default()[t] += held[t];
                            held[t] = 0;
                            cx.label("withdrawn");
                        }
                    }
                }
                DOp::Owner { by, to, accept, renounce } => {
                    let (who, a, ok) = if *accept {
                        let who = user(*to as usize);
                        let ok = pending.as_ref() == Some(&who);
                        (who, json!("accept_ownership"), ok)
                    } else {
                        let who = actor(*by);
                        let ok = owner.as_ref() == Some(&who);
                        let a = if *renounce { json!("renounce_ownership") } else { json!({"transfer_ownership": {"new_owner": user(*to as usize), "expiry": null}}) };
                        (who, a, ok)
                    };
                    let r = exec(&mut app, &who, &rd, &json!({"update_ownership": a}), &[]);
                    agree(format!("{at} {who} {a}"), &r, &if ok { Ok(()) } else { Err("not for them") }, TD)?;
                    if ok {
                        if *accept {
                            owner = Some(who);
                            pending = None;
                        } else if *renounce {
                            owner = None;
                            pending = None;
                        } else {
                            pending = Some(user(*to as usize));
                        }
                    }
                }
                DOp::Advance { blocks } => advance(&mut app, *blocks as u64, *blocks as u64 * 5),
            }
            for t in 0..2 {
                ensure_eq!(cw20_balance(&app, &tokens[t], rd.as_str()), held[t], @TD, "{at} held of token {t}");
                for s in 0..2 {
                    ensure_eq!(cw20_balance(&app, &tokens[t], stakings[s].as_str()), pool[s][t], @TD, "{at} staking contract {s} has of token {t}");
                }
                for (who, g) in &got {
                    ensure_eq!(cw20_balance(&app, &tokens[t], who), g[t], @TD, "{at} {who} has withdrawn of token {t}");
                }
            }
            let v: Value = q(&app, &rd, &json!({"info": {}}))?;
            ensure_eq!(v["config"], json!({"staking_addr": st(staking), "reward_rate": rate.to_string(), "reward_token": tk(token)}), @TD, "{at} settings");
            ensure_eq!(v["balance"], json!(held[token as usize].to_string()), @TD, "{at} reported balance");
            let v: Value = q(&app, &rd, &json!({"ownership": {}}))?;
            ensure_eq!(v["owner"], json!(owner), @TD, "{at} owner");
        }
        cx.nontrivial = cx.count("paid") >= 2 && (cx.has("several-blocks") || cx.has("limited"));
        Ok(())
    }
}
