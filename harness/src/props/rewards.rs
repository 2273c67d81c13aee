//! Streamed DAO rewards: the oracle accrues every completed emission period exactly, by the
//! voting power in force when the period completed, for each member and distribution.

use cosmwasm_std::{coins, to_json_binary, Addr, Decimal, Uint128, Uint256};
use cw_utils::Duration;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use super::common::*;
use crate::env::*;
use crate::fw::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Rate {
    Paused,
    Immediate,
    Linear { amount: u8, time: bool, every: u8, continuous: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// voting power of one or (for groups) two members becomes this
    Power { set: Vec<(u8, u8)> },
    Create { by: u8, cw20: bool, rate: Rate, open: Option<bool>, fund: Option<(u8, u8)>, dest: Option<u8> },
    /// so many emissions and a bit
    Fund { by: u8, dist: u8, times: u8, rest: u8, latest: bool, same_block: bool },
    WrongFund { by: u8, dist: u8, how: u8 },
    Update { by: u8, dist: u8, rate: Option<Rate>, open: Option<bool>, dest: Option<u8>, same_block: bool },
    Claim { by: u8, dist: u8 },
    Withdraw { by: u8, dist: u8 },
    ForgedHook { by: u8, kind: u8 },
    Rehook { dist: u8 },
    Source { dist: u8, bad: bool },
    Owner { to: u8, accept: bool },
    Advance { blocks: u8, secs: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// staked token, group, staked NFT
    pub source: u8,
    pub powers: [u8; 4],
    /// one token is so many
    pub unit: u8,
    pub ops: Vec<Op>,
}

pub struct Rewards;

const USERS: usize = 4;
const FP: u32 = 64;

fn rate() -> BoxedStrategy<Rate> {
    prop_oneof![
        1 => Just(Rate::Paused),
        2 => Just(Rate::Immediate),
        7 => (prop_oneof![1 => Just(0u8), 30 => 1u8..40], any::<bool>(), prop_oneof![1 => Just(0u8), 15 => 1u8..8, 15 => 8u8..40], any::<bool>())
            .prop_map(|(amount, time, every, continuous)| Rate::Linear { amount, time, every, continuous }),
    ]
    .boxed()
}
fn op() -> BoxedStrategy<Op> {
    let u = || 0u8..4;
    let who = || prop_oneof![12 => Just(9u8), 1 => u()];
    let dest = || prop::option::weighted(0.5, 0u8..4);
    let d = || 0u8..3;
    let same = || prop::bool::weighted(0.01);
    prop_oneof![
        10 => prop::collection::vec((u(), prop_oneof![2 => Just(0u8), 6 => 1u8..9, 1 => Just(200u8)]), 1..3).prop_map(|set| Op::Power { set }),
        3 => (who(), prop::bool::weighted(0.4), rate(), prop::option::of(any::<bool>()), prop::option::of((0u8..6, 0u8..40)), dest())
            .prop_map(|(by, cw20, rate, open, fund, dest)| Op::Create { by, cw20, rate, open, fund, dest }),
        9 => (prop_oneof![3 => Just(9u8), 1 => u()], d(), 0u8..8, prop_oneof![2 => Just(0u8), 1 => 0u8..40], prop::bool::weighted(0.2), same())
            .prop_map(|(by, dist, times, rest, latest, same_block)| Op::Fund { by, dist, times, rest, latest, same_block }),
        1 => (u(), d(), 0u8..4).prop_map(|(by, dist, how)| Op::WrongFund { by, dist, how }),
        4 => (who(), d(), prop::option::weighted(0.8, rate()), prop::option::of(any::<bool>()), dest(), same())
            .prop_map(|(by, dist, rate, open, dest, same_block)| Op::Update { by, dist, rate, open, dest, same_block }),
        8 => (u(), d()).prop_map(|(by, dist)| Op::Claim { by, dist }),
        3 => (who(), d()).prop_map(|(by, dist)| Op::Withdraw { by, dist }),
        1 => (u(), 0u8..3).prop_map(|(by, kind)| Op::ForgedHook { by, kind }),
        1 => d().prop_map(|dist| Op::Rehook { dist }),
        1 => (d(), any::<bool>()).prop_map(|(dist, bad)| Op::Source { dist, bad }),
        1 => (u(), any::<bool>()).prop_map(|(to, accept)| Op::Owner { to, accept }),
        16 => (prop_oneof![8 => 0u8..10, 3 => 10u8..80], prop_oneof![8 => 0u8..20, 3 => 20u8..120]).prop_map(|(blocks, secs)| Op::Advance { blocks, secs }),
    ]
    .boxed()
}

#[derive(Clone, Debug)]
struct Dist {
    cw20: bool,
    rate: Rate,
    /// of the current epoch: its grid's origin (height or second), and its end once started
    start: u64,
    end: Option<u64>,
    /// funded for the current epoch
    funded: u128,
    /// periods of the current epoch that have been shared out
    done: u128,
    open: bool,
    dest: String,
    /// 2^64ths
    earned: [Uint256; USERS],
    events: u64,
    settled: [u64; USERS],
    claimed: [u128; USERS],
    total_in: u128,
    total_out: u128,
    tainted: bool,
}

struct World {
    app: VApp,
    source: u8,
    vp: Addr,
    /// who calls the hook
    caller: Addr,
    nft: Addr,
    rd: Addr,
    cw20: Addr,
    owner: String,
    pending: Option<String>,
    powers: [u128; USERS],
    /// (height, second, powers) after that block
    hist: Vec<(u64, u64, [u128; USERS])>,
    unit: u128,
    nfts: [u8; USERS],
}

impl World {
    fn point(&self, time: bool) -> u64 {
        let b = self.app.block_info();
        if time {
            b.time.seconds()
        } else {
            b.height
        }
    }
    /// as of the start of the block
    fn power_now(&self) -> [u128; USERS] {
        let h = self.app.block_info().height;
        self.hist.iter().rev().find(|x| x.0 < h).unwrap().2
    }
    fn power_at(&self, time: bool, g: u64) -> [u128; USERS] {
        self.hist.iter().rev().find(|x| if time { x.1 < g } else { x.0 < g }).unwrap().2
    }
    fn held(&self, cw20: bool, who: &str) -> u128 {
        if cw20 {
            cw20_balance(&self.app, &self.cw20, who)
        } else {
            bank(&self.app, who, "urew")
        }
    }
    fn actor(&self, by: u8) -> String {
        if by == 9 {
            self.owner.clone()
        } else {
            user(by as usize)
        }
    }
    fn ex(&mut self, who: &str, m: &Value) -> Result<(), String> {
        let rd = self.rd.clone();
        exec(&mut self.app, who, &rd, m, &[]).map(|_| ())
    }
    fn pending_of(&self, u: usize) -> Result<Vec<u128>, Fail> {
        let mut out = vec![];
        loop {
            let after = if out.is_empty() { Value::Null } else { json!(out.len()) };
            let v: Value = q(&self.app, &self.rd, &json!({"pending_rewards": {"address": user(u), "start_after": after, "limit": 2}}))?;
            let page = v["pending_rewards"].as_array().unwrap().clone();
            if page.is_empty() {
                return Ok(out);
            }
            for p in page {
                ensure_eq!(p["id"], json!(out.len() + 1), ["R01"], "listing of rewards");
                if u == 0 {
                    let d: Value = q(&self.app, &self.rd, &json!({"distribution": {"id": out.len() + 1}}))?;
                    ensure_eq!(p["denom"], d["denom"], ["R01"], "token of the rewards listed");
                }
                out.push(p["pending_rewards"].as_str().unwrap().parse().unwrap());
            }
        }
    }
}

fn every(r: &Rate) -> (bool, u64) {
    match r {
        Rate::Linear { time, every, .. } => (*time, *every as u64),
        _ => (false, 0),
    }
}

impl Dist {
    fn amount(&self, unit: u128) -> u128 {
        match self.rate {
            Rate::Linear { amount, .. } => amount as u128 * unit,
            _ => 0,
        }
    }
    fn share(&mut self, what: u128, p: [u128; USERS]) {
        let total: u128 = p.iter().sum();
        if total == 0 {
            return;
        }
        for i in 0..USERS {
            let x = Uint256::from(what) * Uint256::from(p[i]) * Uint256::from(1u128 << FP) / Uint256::from(total);
            self.earned[i] += x;
        }
        self.events += 1;
    }
    /// everything a distribution owes for what has been funded until now
    fn advance(&mut self, w: &World) {
        let (time, every) = every(&self.rate);
        let Some(end) = self.end else { return };
        let now = w.point(time).min(end);
        while self.start + (self.done as u64 + 1) * every <= now {
            self.done += 1;
            let p = w.power_at(time, self.start + self.done as u64 * every);
            let a = self.amount(w.unit);
            self.share(a, p);
        }
    }
    fn expired(&self, w: &World) -> bool {
        let (time, _) = every(&self.rate);
        self.end.map_or(false, |e| w.point(time) >= e)
    }
    fn set_end(&mut self, w: &World) {
        let (_, every) = every(&self.rate);
        let ratio = Decimal::from_ratio(self.funded, self.amount(w.unit));
        let d = Uint128::from(every).checked_mul_floor(ratio).unwrap().u128() as u64;
        self.end = Some(self.start + d);
    }
    /// of the current epoch
    fn undistributed(&self, unit: u128) -> u128 {
        match self.rate {
            Rate::Paused => self.funded,
            Rate::Immediate => 0,
            Rate::Linear { .. } => self.funded - self.done * self.amount(unit),
        }
    }
    fn fund(&mut self, n: u128, w: &World) -> Result<bool, &'static str> {
        let mut jump = false;
        match self.rate.clone() {
            Rate::Paused => self.funded += n,
            Rate::Immediate => {
                let p = w.power_now();
                if p.iter().sum::<u128>() == 0 {
                    return Err("nobody to reward");
                }
                self.funded += n;
                self.share(n, p);
                jump = true;
            }
            Rate::Linear { time, every, continuous, .. } => {
                let expired = self.expired(w);
                if self.funded == 0 || (!continuous && expired) {
                    self.funded = self.undistributed(w.unit) + n;
                    self.start = w.point(time);
                    self.done = 0;
                    self.set_end(w);
                } else {
                    self.funded += n;
                    self.set_end(w);
                    if expired && continuous {
                        // what would have been due by now, at the present power
                        let now = w.point(time).min(self.end.unwrap());
                        while self.start + (self.done as u64 + 1) * every as u64 <= now {
                            self.done += 1;
                            let a = self.amount(w.unit);
                            self.share(a, w.power_now());
                            jump = true;
                        }
                    }
                }
            }
        }
        self.total_in += n;
        Ok(jump)
    }
    fn transition(&mut self, r: &Rate, w: &World) -> Result<bool, &'static str> {
        if *r == self.rate {
            return Ok(false);
        }
        let left = self.undistributed(w.unit);
        self.funded = left;
        self.rate = r.clone();
        self.done = 0;
        self.end = None;
        match r {
            Rate::Paused => {}
            Rate::Immediate => {
                let p = w.power_now();
                if p.iter().sum::<u128>() == 0 {
                    return Err("nobody to reward");
                }
                self.share(left, p);
                return Ok(left > 0);
            }
            Rate::Linear { time, .. } => {
                self.start = w.point(*time);
                self.set_end(w);
            }
        }
        Ok(false)
    }
}

fn rate_json(r: &Rate, unit: u128) -> Value {
    match r {
        Rate::Paused => json!({"paused": {}}),
        Rate::Immediate => json!({"immediate": {}}),
        Rate::Linear { amount, time, every, continuous } => {
            json!({"linear": {"amount": (*amount as u128 * unit).to_string(), "duration": dur(*time, *every as u64), "continuous": continuous}})
        }
    }
}
fn rate_ok(r: &Rate) -> bool {
    !matches!(r, Rate::Linear { amount: 0, .. } | Rate::Linear { every: 0, .. })
}

const SIG: &str = "shared-out-at-once-in-a-block-in-which-power-had-changed";
const T: &[&str] = &["R01"];

impl Scenario for Rewards {
    type Case = Case;
    fn name(&self) -> &'static str {
        "rewards"
    }
    fn rule(&self) -> &'static str {
        "rewards of a linear distribution accrued to at least two members, voting power changed while one ran, and a claim was paid"
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let first = (prop::bool::weighted(0.3), rate(), prop::option::weighted(0.7, (1u8..6, 0u8..40)), prop::option::of(0u8..4))
            .prop_map(|(cw20, rate, fund, dest)| Op::Create { by: 9, cw20, rate, open: None, fund: if cw20 { None } else { fund }, dest });
        let powers = prop::array::uniform4(prop_oneof![1 => Just(0u8), 3 => 1u8..8]);
        (0u8..3, powers, 0u8..4, first, prop::collection::vec(op(), 12..50))
            .prop_map(|(source, powers, unit, first, mut ops)| {
                ops.insert(0, first);
                Case { source, powers, unit, ops }
            })
            .boxed()
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        let mut w = setup(c)?;
        let mut ds: Vec<Dist> = vec![];
        for (step, o) in c.ops.iter().enumerate() {
            cx.log(|| format!("[{step}] {o:?}"));
            let at = format!("[{step}]");
            for d in &mut ds {
                d.advance(&w);
            }
            self.step(&mut w, &mut ds, o, &at, cx)?;
            for d in &mut ds {
                d.advance(&w);
            }
            self.compare(&w, &ds, &at, cx)?;
        }
        let earners = |d: &Dist| d.earned.iter().filter(|e| !e.is_zero()).count();
        cx.nontrivial = cx.has("claimed") && cx.has("power-changed-while-running") && ds.iter().any(|d| earners(d) >= 2);
        Ok(())
    }
}

fn setup(c: &Case) -> Result<World, Fail> {
    let mut app = new_app();
    let boss = "boss";
    let members: Vec<_> = (0..4).map(|i| json!({"addr": user(i), "weight": 0})).collect();
    let mut nft = Addr::unchecked("");
    let (vp, caller);
    match c.source {
        0 => {
            let code = app.store_code(code::voting_token_staked());
            for i in 0..4 {
                fund_account(&mut app, &user(i), 1_000, "ustk");
            }
            vp = inst(&mut app, code, boss, &json!({"token_info": {"existing": {"denom": "ustk"}}, "active_threshold": null, "unstaking_duration": null}), &[], None).unwrap();
            caller = vp.clone();
        }
        1 => {
            let code = app.store_code(code::cw4_group());
            caller = inst(&mut app, code, boss, &json!({"admin": boss, "members": members}), &[], None).unwrap();
            let code = app.store_code(code::voting_cw4());
            vp = inst(&mut app, code, boss, &json!({"group_contract": {"existing": {"address": caller}}}), &[], None).unwrap();
        }
        _ => {
            let code = app.store_code(code::cw721());
            nft = inst(&mut app, code, boss, &json!({"name": "n", "symbol": "N", "minter": boss}), &[], None).unwrap();
            for u in 0..4 {
                for k in 0..9 {
                    let m = json!({"mint": {"token_id": format!("{u}-{k}"), "owner": user(u), "token_uri": null, "extension": {}}});
                    exec(&mut app, boss, &nft, &m, &[]).unwrap();
                }
            }
            let code = app.store_code(code::voting_cw721_staked());
            vp = inst(&mut app, code, boss, &json!({"nft_contract": {"existing": {"address": nft}}, "active_threshold": null, "unstaking_duration": null}), &[], None).unwrap();
            caller = vp.clone();
        }
    }
    let code = app.store_code(code::rewards_distributor());
    let rd = inst(&mut app, code, boss, &json!({"owner": "owner"}), &[], None).unwrap();
    let rich = 1u128 << 100;
    let mut bal = vec![("owner".to_string(), rich)];
    fund_account(&mut app, "owner", rich, "urew");
    for i in 0..4 {
        fund_account(&mut app, &user(i), rich, "urew");
        fund_account(&mut app, &user(i), 1_000, "uother");
        bal.push((user(i), rich));
    }
    let cw20 = new_cw20(&mut app, &bal);
    let unit = [1u128, 1_000, 1_000_000, 1_000_000_000_000_000][c.unit as usize];
    let mut w = World {
        app,
        source: c.source,
        vp,
        caller,
        nft,
        rd,
        cw20,
        owner: "owner".into(),
        pending: None,
        powers: [0; 4],
        hist: vec![(0, 0, [0; 4])],
        unit,
        nfts: [0; 4],
    };
    let set: Vec<_> = (0..4).map(|i| (i as u8, c.powers[i])).collect();
    for s in &set {
        power(&mut w, &[*s], &mut vec![], "setup")?;
    }
    let caller = w.caller.clone();
    let rd = w.rd.clone();
    exec(&mut w.app, boss, &caller, &json!({"add_hook": {"addr": rd}}), &[]).unwrap();
    advance(&mut w.app, 1, 1);
    Ok(w)
}

/// Sets voting powers; while distributions exist each member named gets settled.
fn power(w: &mut World, set: &[(u8, u8)], ds: &mut Vec<Dist>, at: &str) -> R {
    let ok: Result<(), String>;
    let mut set = set.to_vec();
    if set.len() == 2 && set[0].0 == set[1].0 {
        set.truncate(1);
    }
    let hooked = !ds.is_empty() || at == "setup";
    match w.source {
        1 => {
            let add: Vec<_> = set.iter().filter(|s| s.1 > 0).map(|s| json!({"addr": user(s.0 as usize), "weight": s.1})).collect();
            let rm: Vec<_> = set.iter().filter(|s| s.1 == 0).map(|s| user(s.0 as usize)).collect();
            let g = w.caller.clone();
            ok = exec(&mut w.app, "boss", &g, &json!({"update_members": {"remove": rm, "add": add}}), &[]).map(|_| ());
        }
        s => {
            let (u, p) = set[0];
            set.truncate(1);
            let who = user(u as usize);
            let cur = w.powers[u as usize];
            let p = if s == 2 { p.min(8) } else { p } as u128;
            set[0].1 = p as u8;
            if p == cur {
                return Ok(());
            }
            let vp = w.vp.clone();
            if s == 0 {
                ok = if p > cur {
                    exec(&mut w.app, &who, &vp, &json!({"stake": {}}), &coins(p - cur, "ustk")).map(|_| ())
                } else {
                    exec(&mut w.app, &who, &vp, &json!({"unstake": {"amount": (cur - p).to_string()}}), &[]).map(|_| ())
                };
            } else if p > cur {
                let nft = w.nft.clone();
                let mut r = Ok(());
                for k in cur..p {
                    let m = json!({"send_nft": {"contract": vp, "token_id": format!("{u}-{k}"), "msg": to_json_binary("").unwrap()}});
                    r = exec(&mut w.app, &who, &nft, &m, &[]).map(|_| ());
                    if r.is_err() {
                        break;
                    }
                }
                ok = r;
            } else {
                let ids: Vec<_> = (p..cur).map(|k| format!("{u}-{k}")).collect();
                ok = exec(&mut w.app, &who, &vp, &json!({"unstake": {"token_ids": ids}}), &[]).map(|_| ());
            }
        }
    }
    if !hooked {
        // nobody has subscribed the hook's caller yet, so changes are refused by the distributor
        ensure!(ok.is_err(), @T, "{at} a hook call accepted before anything is distributed");
        return Ok(());
    }
    agree(format!("{at} setting voting powers {set:?}"), &ok, &Ok(()), T)?;
    for (u, p) in set {
        w.powers[u as usize] = p as u128;
        for d in ds.iter_mut() {
            d.settled[u as usize] += 9;
        }
    }
    let b = w.app.block_info();
    w.hist.retain(|h| h.0 != b.height);
    w.hist.push((b.height, b.time.seconds(), w.powers));
    Ok(())
}

impl Rewards {
    fn fund_as(&self, w: &mut World, who: &str, cw20: bool, n: u128, m: &Value) -> Result<(), String> {
        let rd = w.rd.clone();
        if cw20 {
            let m = json!({"send": {"contract": rd, "amount": n.to_string(), "msg": to_json_binary(m).unwrap()}});
            let t = w.cw20.clone();
            exec(&mut w.app, who, &t, &m, &[]).map(|_| ())
        } else {
            let funds = if n == 0 { vec![] } else { coins(n, "urew") };
            exec(&mut w.app, who, &rd, m, &funds).map(|_| ())
        }
    }
    /// Sharing out at once right after a change of power in the same block is a known weakness.
    fn apart(&self, w: &mut World, ds: &mut Vec<Dist>, same_block: bool) {
        let changed = w.hist.last().unwrap().0 == w.app.block_info().height;
        if changed && !same_block {
            advance(&mut w.app, 1, 0);
            for d in ds.iter_mut() {
                d.advance(w);
            }
        }
    }
    fn step(&self, w: &mut World, ds: &mut Vec<Dist>, o: &Op, at: &str, cx: &mut Cx) -> R {
        let n = ds.len();
        let changed = |w: &World| w.power_now() != w.powers;
        match o {
            Op::Power { set } => {
                if ds.iter().any(|d| d.end.is_some() && !d.expired(w)) {
                    cx.label("power-changed-while-running");
                }
                power(w, set, ds, at)?;
            }
            Op::Create { by, cw20, rate, open, fund, dest } => {
                if n >= 3 {
                    return Ok(());
                }
                self.apart(w, ds, false);
                let who = w.actor(*by);
                let denom = if *cw20 { json!({"cw20": w.cw20}) } else { json!({"native": "urew"}) };
                let dst = dest.map(|d| format!("dest{d}"));
                let m = json!({"create": {"denom": denom, "emission_rate": rate_json(rate, w.unit), "vp_contract": w.vp, "hook_caller": w.caller, "open_funding": open, "withdraw_destination": dst}});
                let amt = fund.map_or(0, |(t, r)| {
                    let a = if let Rate::Linear { amount, .. } = rate { *amount as u128 } else { 10 };
                    (a * t as u128 + r as u128) * w.unit
                });
                let rd = w.rd.clone();
                let r = exec(&mut w.app, &who, &rd, &m, &if amt > 0 { coins(amt, "urew") } else { vec![] });
                let mut d = Dist {
                    cw20: *cw20,
                    rate: rate.clone(),
                    start: 0,
                    end: None,
                    funded: 0,
                    done: 0,
                    open: open.unwrap_or(true),
                    dest: dst.unwrap_or(who.clone()),
                    earned: [Uint256::zero(); 4],
                    events: 0,
                    settled: [0; 4],
                    claimed: [0; 4],
                    total_in: 0,
                    total_out: 0,
                    tainted: false,
                };
                let want = (|| {
                    if who != w.owner {
                        return Err("not the owner");
                    }
                    if !rate_ok(rate) {
                        return Err("a rate of nothing");
                    }
                    if amt > 0 && *cw20 {
                        return Err("coins for a distribution of cw20 tokens");
                    }
                    if amt > 0 {
                        d.fund(amt, w)?;
                    }
                    Ok(())
                })();
                agree(format!("{at} {who} creates {m} with {amt}"), &r, &want, T)?;
                if want.is_ok() {
                    ds.push(d);
                    cx.label("created");
                }
            }
            Op::Fund { by, dist, times, rest, latest, same_block } => {
                if n == 0 {
                    return Ok(());
                }
                self.apart(w, ds, *same_block);
                let k = if *latest { n - 1 } else { *dist as usize % n };
                let who = w.actor(*by);
                let a = match ds[k].rate {
                    Rate::Linear { amount, .. } => amount as u128,
                    _ => 10,
                };
                let amt = (a * *times as u128 + *rest as u128) * w.unit;
                if amt == 0 {
                    return Ok(());
                }
                let m = if *latest { json!({"fund_latest": {}}) } else { json!({"fund": {"id": k + 1}}) };
                let cw20 = ds[k].cw20;
                let r = self.fund_as(w, &who, cw20, amt, &m);
                let mut d = ds[k].clone();
                let want = if !d.open && who != w.owner { Err("only the owner funds") } else { d.fund(amt, w) };
                agree(format!("{at} {who} funds {} with {amt}", k + 1), &r, &want.map(|_| ()), T)?;
                if let Ok(jump) = want {
                    if jump {
                        cx.label("shared-at-once");
                        d.tainted |= changed(w);
                    }
                    if ds[k].expired(w) {
                        cx.label(if jump { "backfilled" } else { "restarted" });
                    }
                    ds[k] = d;
                }
            }
            Op::WrongFund { by, dist, how } => {
                if n == 0 {
                    return Ok(());
                }
                let k = *dist as usize % n;
                let who = user(*by as usize);
                let m = json!({"fund": {"id": k + 1}});
                let rd = w.rd.clone();
                let r = match how {
                    0 => exec(&mut w.app, &who, &rd, &m, &coins(5, "uother")).map(|_| ()),
                    // the other kind of token
                    1 => {
                        let c = !ds[k].cw20;
                        self.fund_as(w, &who, c, 5, &m)
                    }
                    2 => self.fund_as(w, &who, ds[k].cw20, 5, &json!({"fund": {"id": n + 1}})),
                    // pretending to be the token
                    _ => w.ex(&who, &json!({"receive": {"sender": who, "amount": "5", "msg": to_json_binary(&m).unwrap()}})),
                };
                agree(format!("{at} {who} funds wrongly ({how})"), &r, &Err("not its token"), T)?;
            }
            Op::Update { by, dist, rate, open, dest, same_block } => {
                if n == 0 {
                    return Ok(());
                }
                self.apart(w, ds, *same_block);
                let k = *dist as usize % n;
                let who = w.actor(*by);
                let dst = dest.map(|d| format!("dest{d}"));
                let m = json!({"update": {"id": k + 1, "emission_rate": rate.as_ref().map(|r| rate_json(r, w.unit)), "vp_contract": null, "hook_caller": null, "open_funding": open, "withdraw_destination": dst}});
                let r = w.ex(&who, &m);
                let mut d = ds[k].clone();
                let want = (|| {
                    if who != w.owner {
                        return Err("not the owner");
                    }
                    let mut jump = false;
                    if let Some(r) = rate {
                        if !rate_ok(r) {
                            return Err("a rate of nothing");
                        }
                        jump = d.transition(r, w)?;
                    }
                    d.open = open.unwrap_or(d.open);
                    d.dest = dst.clone().unwrap_or(d.dest.clone());
                    Ok(jump)
                })();
                agree(format!("{at} {who} updates {} with {m}", k + 1), &r, &want.map(|_| ()), T)?;
                if let Ok(jump) = want {
                    if jump {
                        cx.label("shared-at-once");
                        d.tainted |= changed(w);
                    }
                    if d.rate != ds[k].rate {
                        cx.label("new-epoch");
                    }
                    ds[k] = d;
                }
            }
            Op::Claim { by, dist } => {
                if n == 0 {
                    return Ok(());
                }
                let (k, u) = (*dist as usize % n, *by as usize);
                let due = w.pending_of(u)?[k];
                let before = w.held(ds[k].cw20, &user(u));
                let r = w.ex(&user(u), &json!({"claim": {"id": k + 1}}));
                let want = if due > 0 { Ok(()) } else { Err("nothing to claim") };
                if due > 0 && r.is_err() && ds[k].tainted {
                    return Err(Fail::new(format!("{at} user{u} claims {due}: {r:?}")).tag(T).sig(SIG));
                }
                agree(format!("{at} user{u} claims {due} of {}", k + 1), &r, &want, T)?;
                if want.is_ok() {
                    let got = w.held(ds[k].cw20, &user(u)) - before;
                    ensure_eq!(got, due, @T, "{at} user{u} was paid");
                    ds[k].claimed[u] += due;
                    ds[k].settled[u] += 1;
                    ensure_eq!(w.pending_of(u)?[k], 0, @T, "{at} rewards of user{u} right after claiming");
                    cx.label("claimed");
                }
            }
            Op::Withdraw { by, dist } => {
                if n == 0 {
                    return Ok(());
                }
                let k = *dist as usize % n;
                let who = w.actor(*by);
                let dest = ds[k].dest.clone();
                let before = w.held(ds[k].cw20, &dest);
                let r = w.ex(&who, &json!({"withdraw": {"id": k + 1}}));
                let left = ds[k].undistributed(w.unit);
                let want = if who != w.owner {
                    Err("not the owner")
                } else if ds[k].expired(w) {
                    Err("over")
                } else {
                    Ok(())
                };
                if left > 0 || want.is_err() {
                    agree(format!("{at} {who} withdraws {left} of {}", k + 1), &r, &want, T)?;
                }
                if r.is_ok() {
                    ensure_eq!(w.held(ds[k].cw20, &dest) - before, left, @T, "{at} withdrawn from {}", k + 1);
                    let (time, _) = every(&ds[k].rate);
                    let now = w.point(time);
                    let d = &mut ds[k];
                    d.funded -= left;
                    d.total_out += left;
                    if d.end.is_some() {
                        d.end = Some(now);
                    }
                    cx.label("withdrawn");
                }
            }
            Op::ForgedHook { by, kind } => {
                let who = user(*by as usize);
                let m = match kind {
                    0 => json!({"stake_change_hook": {"stake": {"addr": who, "amount": "5"}}}),
                    1 => json!({"nft_stake_change_hook": {"stake": {"addr": who, "token_id": "5"}}}),
                    _ => json!({"member_changed_hook": {"diffs": [{"key": who, "old": null, "new": 1}]}}),
                };
                let r = w.ex(&who, &m);
                agree(format!("{at} {who} calls the hook"), &r, &Err("not the registered caller"), T)?;
            }
            Op::Rehook { dist } => {
                if n == 0 {
                    return Ok(());
                }
                let k = *dist as usize % n;
                let owner = w.owner.clone();
                let upd = |h: &str| json!({"update": {"id": k + 1, "emission_rate": null, "vp_contract": null, "hook_caller": h, "open_funding": null, "withdraw_destination": null}});
                harness(w.ex(&owner, &upd("othercaller")))?;
                let m = json!({"stake_change_hook": {"stake": {"addr": user(0), "amount": "5"}}});
                let r = w.ex("othercaller", &m);
                agree(format!("{at} the new caller reports a change"), &r, &Ok(()), T)?;
                let c = w.caller.to_string();
                let r = w.ex(&c, &m);
                let want = if n > 1 { Ok(()) } else { Err("not registered any more") };
                agree(format!("{at} the old caller reports a change"), &r, &want, T)?;
                harness(w.ex(&owner, &upd(&c)))?;
                let r = w.ex("othercaller", &m);
                agree(format!("{at} the former caller reports a change"), &r, &Err("not registered any more"), T)?;
                for d in ds.iter_mut() {
                    d.settled[0] += 2;
                }
            }
            Op::Source { dist, bad } => {
                if n == 0 {
                    return Ok(());
                }
                let k = *dist as usize % n;
                let to = if *bad { w.cw20.clone() } else { w.vp.clone() };
                let owner = w.owner.clone();
                let m = json!({"update": {"id": k + 1, "emission_rate": null, "vp_contract": to, "hook_caller": null, "open_funding": null, "withdraw_destination": null}});
                let r = w.ex(&owner, &m);
                let want = if *bad { Err("not a voting module") } else { Ok(()) };
                agree(format!("{at} setting the source of power to {to}"), &r, &want, T)?;
            }
            Op::Owner { to, accept } => {
                if *accept {
                    let who = user(*to as usize);
                    let r = w.ex(&who, &json!({"update_ownership": "accept_ownership"}));
                    let want = if w.pending.as_deref() == Some(who.as_str()) { Ok(()) } else { Err("not the nominee") };
                    agree(format!("{at} {who} accepts ownership"), &r, &want, T)?;
                    if want.is_ok() {
                        w.owner = who;
                        w.pending = None;
                        cx.label("new-owner");
                    }
                } else {
                    let who = w.owner.clone();
                    harness(w.ex(&who, &json!({"update_ownership": {"transfer_ownership": {"new_owner": user(*to as usize), "expiry": null}}})))?;
                    w.pending = Some(user(*to as usize));
                }
            }
            Op::Advance { blocks, secs } => advance(&mut w.app, (*blocks).max((*secs > 0) as u8) as u64, *secs as u64),
        }
        Ok(())
    }

    fn compare(&self, w: &World, ds: &[Dist], at: &str, cx: &mut Cx) -> R {
        let mut owed = [0u128; 2];
        let mut held = [0u128; 2];
        let mut promised = vec![0u128; ds.len()];
        for u in 0..USERS {
            let p = w.pending_of(u)?;
            ensure_eq!(p.len(), ds.len(), @T, "{at} distributions listed for user{u}");
            for (k, d) in ds.iter().enumerate() {
                let got = p[k] + d.claimed[u];
                promised[k] += got;
                let fp = d.earned[u] + Uint256::from(d.events);
                let most = Uint128::try_from(fp >> FP).unwrap().u128();
                let least = Uint128::try_from(d.earned[u] >> FP).unwrap().u128().saturating_sub(d.settled[u] as u128 + 1);
                if (got > most || got < least) && d.tainted {
                    return Err(Fail::new(format!("{at} user{u} has earned {got} from {}, should be {least} to {most}", k + 1)).tag(T).sig(SIG));
                }
                ensure!(got <= most && got >= least, @T, "{at} user{u} has earned {got} ({} claimed) from {}, should be {least} to {most}", d.claimed[u], k + 1);
            }
        }
        for (k, d) in ds.iter().enumerate() {
            let t = d.cw20 as usize;
            held[t] += d.total_in - d.total_out - d.claimed.iter().sum::<u128>();
            owed[t] += promised[k] - d.claimed.iter().sum::<u128>();
            ensure!(promised[k] + d.total_out <= d.total_in, @T, "{at} {} promised and {} withdrawn of {} funded", promised[k], d.total_out, d.total_in);
            let v: Value = q(&w.app, &w.rd, &json!({"undistributed_rewards": {"id": k + 1}}))?;
            ensure_eq!(v, json!(d.undistributed(w.unit).to_string()), @T, "{at} undistributed rewards of {}", k + 1);
            let v: Value = q(&w.app, &w.rd, &json!({"distribution": {"id": k + 1}}))?;
            ensure_eq!(v["open_funding"], json!(d.open), @T, "{at} open funding of {}", k + 1);
            ensure_eq!(v["withdraw_destination"], json!(d.dest), @T, "{at} withdraw destination of {}", k + 1);
            ensure_eq!(v["active_epoch"]["emission_rate"], rate_json(&d.rate, w.unit), @T, "{at} emission rate of {}", k + 1);
            ensure_eq!(v["funded_amount"], json!(d.funded.to_string()), @T, "{at} funds of {}", k + 1);
            let l: Value = q(&w.app, &w.rd, &json!({"distributions": {"start_after": if k == 0 { Value::Null } else { json!(k) }, "limit": 1}}))?;
            ensure_eq!(l["distributions"], json!([v]), @T, "{at} listing of {}", k + 1);
        }
        for t in 0..2 {
            ensure_eq!(w.held(t == 1, w.rd.as_str()), held[t], @T, "{at} tokens held");
            ensure!(owed[t] <= held[t], @T, "{at} {} owed, {} held", owed[t], held[t]);
        }
        let v: Value = q(&w.app, &w.rd, &json!({"ownership": {}}))?;
        ensure_eq!(v["owner"], json!(w.owner), @T, "{at} owner");
        let _ = cx;
        Ok(())
    }
}
