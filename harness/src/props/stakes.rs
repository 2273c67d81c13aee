//! DAOs whose voting power is staked tokens: native tokens in the voting module itself, or
//! cw20 tokens in a cw20-stake contract behind a thin voting module.

use cosmwasm_std::{coins, to_json_binary, Addr, CosmosMsg, Decimal, Empty, Uint128, Uint256};
use cw_utils::{Duration, Expiration};
use dao_voting::threshold::PercentageThreshold;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use super::common::*;
use crate::env::*;
use crate::fw::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Amt {
    Abs(u8),
    /// of what is there, in 255ths
    Part(u8),
    All,
    Over(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Thr {
    Off,
    /// staked plus this
    CountNear(i8),
    /// supply plus this
    CountSupply(i8),
    CountZero,
    Pct(PctSpec),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Stake { by: u8, amt: Amt },
    Unstake { by: u8, amt: Amt },
    /// many small ones
    Trickle { by: u8, times: u8 },
    Claim { by: u8 },
    Fund { by: u8, amt: Amt },
    /// tokens sent without a word
    Stray { by: u8, amt: u8 },
    WrongToken { by: u8 },
    Config { by: u8, dur: Option<(bool, u8)> },
    Threshold { by: u8, thr: Thr },
    Hook { by: u8, add: bool, hook: u8 },
    Break { hook: u8, fail: bool },
    Supply { by: u8, mint: bool, amt: Amt },
    Propose { by: u8 },
    Advance { blocks: u8, secs: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub bal: [u128; 4],
    pub dao_bal: u128,
    pub dur: Option<(bool, u8)>,
    pub thr: Thr,
    /// cw20: 0 new token, 1 existing token, 2 existing token and staking contract,
    /// 3 staking contract of another token, 4 not a token
    pub setup: u8,
    pub ops: Vec<Op>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Custody,
    Activity,
}

pub struct Stakes {
    pub cw20: bool,
    pub focus: Focus,
}

const DAO: usize = 4;
const USERS: usize = 4;
const MAX_CLAIMS: usize = 100;

fn amt() -> BoxedStrategy<Amt> {
    prop_oneof![
        3 => prop_oneof![10 => 1u8..=20, 1 => Just(0u8)].prop_map(Amt::Abs),
        4 => (1u8..=254).prop_map(Amt::Part),
        3 => Just(Amt::All),
        1 => (1u8..3).prop_map(Amt::Over),
    ]
    .boxed()
}
pub fn thr() -> BoxedStrategy<Thr> {
    prop_oneof![
        1 => Just(Thr::Off),
        3 => (-2i8..=2).prop_map(Thr::CountNear),
        1 => (-1i8..=1).prop_map(Thr::CountSupply),
        1 => Just(Thr::CountZero),
        6 => pct().prop_map(Thr::Pct),
        4 => (1u8..4, 0i8..=1).prop_map(|(mask, eps)| Thr::Pct(PctSpec::Share9 { mask, eps })),
        1 => prop_oneof![Just(PctSpec::Zero), Just(PctSpec::Over)].prop_map(Thr::Pct),
    ]
    .boxed()
}
pub fn dur_s() -> BoxedStrategy<Option<(bool, u8)>> {
    prop::option::weighted(0.75, (any::<bool>(), prop_oneof![1 => Just(0u8), 12 => 1u8..12])).boxed()
}
fn op(s: &Stakes) -> BoxedStrategy<Op> {
    let (a, c) = if s.focus == Focus::Activity { (5, 2) } else { (1, 4) };
    let f = if s.cw20 { 4 } else { 1 };
    let u = || 0u8..4;
    let who = || prop_oneof![6 => Just(DAO as u8), 1 => u()];
    prop_oneof![
        12 => (u(), amt()).prop_map(|(by, amt)| Op::Stake { by, amt }),
        10 => (u(), amt()).prop_map(|(by, amt)| Op::Unstake { by, amt }),
        1 => (u(), prop_oneof![8 => 2u8..6, 1 => 95u8..105]).prop_map(|(by, times)| Op::Trickle { by, times }),
        c * 2 => u().prop_map(|by| Op::Claim { by }),
        f => (u(), amt()).prop_map(|(by, amt)| Op::Fund { by, amt }),
        1 => (u(), 1u8..30).prop_map(|(by, amt)| Op::Stray { by, amt }),
        1 => u().prop_map(|by| Op::WrongToken { by }),
        2 => (who(), dur_s()).prop_map(|(by, dur)| Op::Config { by, dur }),
        a * 2 => (who(), thr()).prop_map(|(by, thr)| Op::Threshold { by, thr }),
        2 => (who(), prop::bool::weighted(0.65), u()).prop_map(|(by, add, hook)| Op::Hook { by, add, hook }),
        1 => (0u8..3, prop::bool::weighted(0.4)).prop_map(|(hook, fail)| Op::Break { hook, fail }),
        a => (u(), any::<bool>(), amt()).prop_map(|(by, mint, amt)| Op::Supply { by, mint, amt }),
        a * 2 => u().prop_map(|by| Op::Propose { by }),
        8 => (0u8..5, 0u8..20).prop_map(|(blocks, secs)| Op::Advance { blocks, secs }),
    ]
    .boxed()
}
fn balances() -> BoxedStrategy<[u128; 4]> {
    prop_oneof![
        3 => prop::array::uniform4(0u128..60),
        3 => prop::array::uniform4(1u128..2_000),
        2 => prop::array::uniform4(mid_amount()),
        2 => (60u32..=124).prop_flat_map(|b| prop::array::uniform4(1u128..1 << b)),
        1 => Just([u128::MAX / 8, u128::MAX / 8, u128::MAX / 8, 1]),
    ]
    .boxed()
}

#[derive(Clone, Debug)]
struct Model {
    free: [u128; 5],
    shares: [u128; 4],
    total: u128,
    /// tokens the stakers own together (equals total for native)
    pool: u128,
    /// held by the contract for no one
    stray: u128,
    claims: [Vec<(u128, Expiration)>; 4],
    dur: Option<Duration>,
    thr: Option<Value>,
    hooks: Vec<usize>,
    fails: [bool; 3],
    logs: [Vec<Value>; 3],
    proposals: u64,
    supply: u128,
}

struct World {
    app: VApp,
    core: Addr,
    voting: Addr,
    pm: Pm,
    /// where tokens are staked
    stk: Addr,
    /// cw20 only
    token: Addr,
    other: Addr,
    recv: [Addr; 3],
    denom: String,
    owner: Option<String>,
    minter: String,
}

/// stake per user and in total, from this height on
type Hist = Vec<(u64, [u128; 4], u128)>;

fn mul_div(a: u128, b: u128, c: u128) -> u128 {
    let r = Uint256::from(a) * Uint256::from(b) / Uint256::from(c);
    Uint128::try_from(r).unwrap().u128()
}

impl World {
    fn name(&self, i: usize) -> String {
        if i == DAO {
            self.core.to_string()
        } else {
            user(i)
        }
    }
    fn free(&self, cw20: bool, i: usize) -> u128 {
        self.held(cw20, &self.name(i))
    }
    fn held(&self, cw20: bool, who: &str) -> u128 {
        if cw20 {
            cw20_balance(&self.app, &self.token, who)
        } else {
            bank(&self.app, who, &self.denom)
        }
    }
    fn run(&mut self, who: usize, to: &Addr, m: &Value) -> Result<(), String> {
        if who == DAO {
            let m = wasm_msg(to, m);
            as_dao(&mut self.app, &self.core.clone(), vec![m])
        } else {
            exec(&mut self.app, &user(who), to, m, &[]).map(|_| ())
        }
    }
    /// cw20 settings may belong to somebody else than the DAO
    fn settings(&mut self, who: usize, m: &Value) -> Result<(), String> {
        let to = self.stk.clone();
        match (&self.owner, who) {
            (Some(o), DAO) => exec(&mut self.app, &o.clone(), &to, m, &[]).map(|_| ()),
            _ => self.run(who, &to, m),
        }
    }
}

impl Scenario for Stakes {
    type Case = Case;
    fn name(&self) -> &'static str {
        if self.cw20 {
            "stakes-cw20"
        } else {
            "stakes-native"
        }
    }
    fn rule(&self) -> &'static str {
        match self.focus {
            Focus::Custody => "at least two users staked, an unstake and a payout happened, and time passed in between",
            Focus::Activity => "the DAO was both active and inactive with a threshold set",
        }
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let setup = prop_oneof![4 => 0u8..3, 1 => 3u8..5];
        let t = match self.focus {
            Focus::Activity => prop_oneof![1 => Just(Thr::Off), 4 => thr()].boxed(),
            Focus::Custody => prop_oneof![8 => Just(Thr::Off), 1 => thr()].boxed(),
        };
        (balances(), prop_oneof![2 => Just(0u128), 1 => 1u128..100], dur_s(), t, setup, prop::collection::vec(op(self), 8..45))
            .prop_map(|(bal, dao_bal, dur, thr, setup, ops)| Case { bal, dao_bal, dur, thr, setup, ops })
            .boxed()
    }

    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        let t = self.tags();
        let mut app = new_app();
        let recv = [new_mock(&mut app), new_mock(&mut app), new_mock(&mut app)];
        let bals: Vec<_> = (0..4).map(|i| (user(i), c.bal[i])).collect();
        let supply: u128 = c.bal.iter().sum::<u128>() + c.dao_bal;
        let d = |d: &Option<(bool, u8)>| d.map(|(t, n)| dur(t, n as u64));
        let coins20 = |b: &[(String, u128)]| b.iter().map(|(a, n)| json!({"address": a, "amount": n.to_string()})).collect::<Vec<_>>();
        let other = new_cw20(&mut app, &[(user(0), 100)]);
        let new_token = self.cw20 && c.setup == 0;
        let mut token = other.clone();
        let stake_code = app.store_code(code::cw20_stake());
        let mut owner = None;
        let mut minter = "minter".to_string();
        let thr0 = self.thr(&c.thr, 0, if new_token || !self.cw20 { supply } else { supply - c.dao_bal });
        let mut supply = supply;
        let mut ok = self.thr_ok(&thr0, supply, true);
        let init;
        let code_id;
        if self.cw20 {
            code_id = app.store_code(code::voting_cw20_staked());
            let info = if new_token {
                let cw20 = app.store_code(code::cw20());
                if bals.iter().all(|b| b.1 == 0) {
                    ok = Err("nobody would have tokens");
                }
                json!({"new": {"code_id": cw20, "label": "t", "name": "token", "symbol": "TOK", "decimals": 6,
                    "initial_balances": coins20(&bals), "marketing": null, "staking_code_id": stake_code,
                    "unstaking_duration": d(&c.dur), "initial_dao_balance": if c.dao_bal > 0 { json!(c.dao_bal.to_string()) } else { Value::Null }}})
            } else {
                token = new_cw20(&mut app, &bals);
                supply -= c.dao_bal;
                let of = if c.setup == 3 { other.clone() } else { token.clone() };
                let staking = match c.setup {
                    2 | 3 => {
                        owner = Some("owner".to_string());
                        let m = json!({"owner": "owner", "token_address": of, "unstaking_duration": d(&c.dur)});
                        match inst(&mut app, stake_code, "owner", &m, &[], None) {
                            Ok(a) => json!({"existing": {"staking_contract_address": a}}),
                            Err(e) => {
                                ensure!(d(&c.dur).map_or(false, |d| zero(&d)), @t, "creating the staking contract: {e}");
                                return Ok(());
                            }
                        }
                    }
                    _ => json!({"new": {"staking_code_id": stake_code, "unstaking_duration": d(&c.dur)}}),
                };
                ok = self.thr_ok(&thr0, supply, true);
                match c.setup {
                    3 => ok = Err("the staking contract is for another token"),
                    4 => ok = Err("not a token"),
                    _ => {}
                }
                let address = if c.setup == 4 { recv[0].clone() } else { token.clone() };
                json!({"existing": {"address": address, "staking_contract": staking}})
            };
            init = json!({"token_info": info, "active_threshold": thr0});
        } else {
            code_id = app.store_code(code::voting_token_staked());
            for (u, n) in &bals {
                fund_account(&mut app, u, *n, "ustk");
            }
            fund_account(&mut app, "rest", c.dao_bal, "ustk");
            init = json!({"token_info": {"existing": {"denom": "ustk"}}, "active_threshold": thr0, "unstaking_duration": d(&c.dur)});
        }
        for i in 0..4 {
            fund_account(&mut app, &user(i), 1000, "uother");
        }
        if d(&c.dur).map_or(false, |d| zero(&d)) {
            ok = Err("an unbonding period of nothing");
        }
        let pm_code = app.store_code(code::single());
        let voting = module(code_id, to_json_binary(&init).unwrap());
        let pmi = Pm::init(false, true, 5, false, json!({"anyone_may_propose": {}}), None);
        let r = new_dao(&mut app, voting, vec![module(pm_code, pmi)]);
        agree(format!("creating the DAO with {init}"), &r, &ok, t)?;
        let Ok(dao) = r else {
            cx.label("bad-setup");
            return Ok(());
        };
        let mut stk = dao.voting.clone();
        if self.cw20 {
            let a: Addr = q(&app, &dao.voting, &json!({"token_contract": {}}))?;
            if new_token {
                token = a;
                minter = dao.core.to_string();
                let i: Value = q(&app, &token, &json!({"token_info": {}}))?;
                ensure_eq!(i, json!({"name": "token", "symbol": "TOK", "decimals": 6, "total_supply": supply.to_string()}), ["V02"], "the new token");
                let m: Value = q(&app, &token, &json!({"minter": {}}))?;
                ensure_eq!(m, json!({"minter": dao.core, "cap": null}), ["V02"], "minter of the new token");
            } else {
                ensure_eq!(a, token, ["V02"], "token of the voting module");
            }
            stk = q(&app, &dao.voting, &json!({"staking_contract": {}}))?;
            let i: Value = q(&app, &stk, &json!({"get_config": {}}))?;
            ensure_eq!(i["token_address"], json!(token), ["V02", "S01"], "token of the staking contract");
            let i: Value = q(&app, &stk, &json!({"ownership": {}}))?;
            let o = owner.clone().unwrap_or(dao.core.to_string());
            ensure_eq!(i["owner"], json!(o), ["V02", "S01"], "owner of the staking contract");
        }
        let mut w = World { app, core: dao.core, voting: dao.voting, pm: Pm { multi: false, addr: dao.modules[0].clone() }, stk, token, other, recv, denom: "ustk".into(), owner, minter };
        let mut md = Model {
            free: [c.bal[0], c.bal[1], c.bal[2], c.bal[3], if new_token { c.dao_bal } else { 0 }],
            shares: [0; 4],
            total: 0,
            pool: 0,
            stray: 0,
            claims: Default::default(),
            dur: d(&c.dur),
            thr: thr0,
            hooks: vec![],
            fails: [false; 3],
            logs: Default::default(),
            proposals: 0,
            supply,
        };
        let mut hist: Hist = vec![(0, [0; 4], 0)];
        self.compare(&w, &md, &hist, "at the start", cx)?;
        for (step, o) in c.ops.iter().enumerate() {
            cx.log(|| format!("[{step}] {o:?}"));
            let before = md.clone();
            self.step(&mut w, &mut md, &hist, o, &format!("[{step}]"), cx)?;
            let h = w.app.block_info().height;
            if before.shares != md.shares {
                hist.retain(|x| x.0 != h);
                hist.push((h, md.shares, md.total));
            }
            // whatever one does, nobody else's stake loses value
            for i in 0..4 {
                if md.shares[i] == before.shares[i] && md.shares[i] > 0 {
                    let v = |m: &Model| mul_div(m.shares[i], m.pool, m.total);
                    ensure!(v(&md) >= v(&before), ["S01"], "[{step}] the stake of user {i} lost value");
                }
            }
            self.compare(&w, &md, &hist, &format!("[{step}]"), cx)?;
        }
        self.all_heights(&w, &hist)?;
        cx.nontrivial = match self.focus {
            Focus::Custody => (0..4).filter(|i| hist.iter().any(|h| h.1[*i] > 0)).count() >= 2 && cx.has("unstaked") && (cx.has("claimed") || cx.has("paid-at-once")),
            Focus::Activity => cx.has("active") && cx.has("inactive"),
        };
        Ok(())
    }
}

pub fn zero(d: &Duration) -> bool {
    matches!(d, Duration::Height(0) | Duration::Time(0))
}

impl Stakes {
    fn tags(&self) -> &'static [&'static str] {
        if self.cw20 {
            &["S01", "V02", "V06"]
        } else {
            &["V01", "V06"]
        }
    }
    fn own(&self) -> &'static [&'static str] {
        if self.cw20 {
            &["S01"]
        } else {
            &["V01"]
        }
    }

    pub fn thr(&self, t: &Thr, staked: u128, supply: u128) -> Option<Value> {
        let near = |x: u128, d: i8| (x as i128).saturating_add(d as i128).max(0) as u128;
        match t {
            Thr::Off => None,
            Thr::CountNear(d) => Some(json!({"absolute_count": {"count": near(staked, *d).to_string()}})),
            Thr::CountSupply(d) => Some(json!({"absolute_count": {"count": near(supply, *d).to_string()}})),
            Thr::CountZero => Some(json!({"absolute_count": {"count": "0"}})),
            Thr::Pct(p) => {
                let p = match p.resolve(&[staked, supply.saturating_sub(staked)]) {
                    PercentageThreshold::Percent(d) => d,
                    _ => Decimal::percent(50),
                };
                Some(json!({"percentage": {"percent": p}}))
            }
        }
    }
    pub fn thr_ok(&self, t: &Option<Value>, supply: u128, _new: bool) -> Result<(), &'static str> {
        let Some(t) = t else { return Ok(()) };
        if let Some(n) = t["absolute_count"]["count"].as_str() {
            let n: u128 = n.parse().unwrap();
            if n == 0 {
                return Err("a count of zero");
            }
            if n > supply {
                return Err("a count above the supply");
            }
        }
        if let Some(p) = t["percentage"]["percent"].as_str() {
            let p: Decimal = p.parse().unwrap();
            if p.is_zero() || p > Decimal::one() {
                return Err("a share of nothing or more than all");
            }
        }
        Ok(())
    }
    /// To nine decimals, as documented.
    pub fn needed(t: &Value, supply: u128) -> u128 {
        if let Some(n) = t["absolute_count"]["count"].as_str() {
            return n.parse().unwrap();
        }
        let p: Decimal = t["percentage"]["percent"].as_str().unwrap().parse().unwrap();
        let nano = Uint256::from(1_000_000_000u128);
        let x = (Uint256::from(supply) * nano).multiply_ratio(Uint256::from(p.atomics().u128()), Uint256::from(ONE18));
        let up = (x + nano - Uint256::from(1u8)) / nano;
        Uint128::try_from(up).unwrap().u128()
    }

    fn at(hist: &Hist, h: u64) -> (&[u128; 4], u128) {
        let x = hist.iter().rev().find(|x| x.0 < h).unwrap_or(&hist[0]);
        (&x.1, x.2)
    }
    fn active(&self, md: &Model, hist: &Hist, h: u64) -> bool {
        match &md.thr {
            None => true,
            Some(t) => {
                // cw20: as of the start of the block
                let staked = if self.cw20 { Self::at(hist, h).1 } else { md.total };
                staked >= Self::needed(t, md.supply)
            }
        }
    }

    fn amount(a: &Amt, avail: u128) -> u128 {
        match a {
            Amt::Abs(n) => *n as u128,
            Amt::Part(n) => mul_div(avail, *n as u128, 255),
            Amt::All => avail,
            Amt::Over(n) => avail.saturating_add(*n as u128),
        }
    }

    /// A change of stake is announced to every subscriber or does not happen.
    fn announce(md: &mut Model, from: &Addr, h: u64, verb: &str, who: usize, n: u128) -> Result<(), &'static str> {
        for x in md.hooks.clone() {
            // the last one is an address with nothing behind it
            if x == 3 || md.fails[x] {
                return Err("a subscriber fails");
            }
            md.logs[x].push(json!({"from": from, "funds": [], "height": h,
                "msg": {"stake_change_hook": {verb: {"addr": user(who), "amount": n.to_string()}}}}));
        }
        Ok(())
    }

    fn unstake(&self, md: &mut Model, who: usize, n: u128, b: &cosmwasm_std::BlockInfo, stk: &Addr, cx: &mut Cx) -> Result<(), &'static str> {
        if n == 0 && !self.cw20 {
            return Err("zero");
        }
        if md.total == 0 || n > md.shares[who] {
            return Err("more than staked");
        }
        let out = if self.cw20 { mul_div(n, md.pool, md.total) } else { n };
        md.shares[who] -= n;
        md.total -= n;
        md.pool -= out;
        Self::announce(md, stk, b.height, "unstake", who, n)?;
        match md.dur {
            None => {
                md.free[who] += out;
                cx.label("paid-at-once");
            }
            Some(d) => {
                if md.claims[who].len() >= MAX_CLAIMS {
                    cx.label("too-many-claims");
                    return Err("too many claims");
                }
                md.claims[who].push((out, d.after(b)));
            }
        }
        if out > n {
            cx.label("unstaked-with-rewards");
        }
        cx.label("unstaked");
        Ok(())
    }

    fn step(&self, w: &mut World, md: &mut Model, hist: &Hist, o: &Op, at: &str, cx: &mut Cx) -> R {
        let b = w.app.block_info();
        let t = self.own();
        let stk = w.stk.clone();
        let send = |w: &mut World, by: usize, n: u128, what: &str| -> Result<(), String> {
            if self.cw20 {
                let m = json!({"send": {"contract": w.stk, "amount": n.to_string(), "msg": to_json_binary(&json!({what: {}})).unwrap()}});
                let token = w.token.clone();
                exec(&mut w.app, &user(by), &token, &m, &[]).map(|_| ())
            } else {
                let stk = w.stk.clone();
                let funds = if n == 0 { vec![] } else { coins(n, "ustk") };
                exec(&mut w.app, &user(by), &stk, &json!({what: {}}), &funds).map(|_| ())
            }
        };
        match o {
            Op::Stake { by, amt } => {
                let by = *by as usize;
                let n = Self::amount(amt, md.free[by]);
                let r = send(w, by, n, "stake");
                let mut x = md.clone();
                let want = (|| {
                    if n > x.free[by] {
                        return Err("not owned");
                    }
                    if n == 0 && !self.cw20 {
                        return Err("nothing sent");
                    }
                    x.free[by] -= n;
                    let s = if self.cw20 && x.total > 0 && x.pool > 0 { mul_div(x.total, n, x.pool) } else { n };
                    x.shares[by] += s;
                    x.total += s;
                    x.pool += n;
                    if s < n {
                        cx.label("fewer-shares");
                    }
                    Self::announce(&mut x, &stk, b.height, "stake", by, s)
                })();
                // a stake of nothing may be refused as well
                if n > 0 || r.is_ok() {
                    agree(format!("{at} user{by} stakes {n}"), &r, &want, t)?;
                }
                if want.is_ok() && r.is_ok() {
                    *md = x;
                    cx.label("staked");
                }
            }
            Op::Unstake { by, amt } => {
                let by = *by as usize;
                let n = Self::amount(amt, md.shares[by]);
                let r = w.run(by, &stk, &json!({"unstake": {"amount": n.to_string()}}));
                let mut x = md.clone();
                let want = self.unstake(&mut x, by, n, &b, &stk, cx);
                if n > 0 || (r.is_ok() && !self.cw20) {
                    agree(format!("{at} user{by} unstakes {n}"), &r, &want, t)?;
                }
                if want.is_ok() && r.is_ok() {
                    *md = x;
                }
            }
            Op::Trickle { by, times } => {
                let by = *by as usize;
                for i in 0..*times {
                    let r = w.run(by, &stk, &json!({"unstake": {"amount": "1"}}));
                    let mut x = md.clone();
                    let want = self.unstake(&mut x, by, 1, &b, &stk, cx);
                    agree(format!("{at} user{by} unstakes 1, time {i}"), &r, &want, t)?;
                    if want.is_err() {
                        break;
                    }
                    *md = x;
                }
            }
            Op::Claim { by } => {
                let by = *by as usize;
                let r = w.run(by, &stk, &json!({"claim": {}}));
                let due: u128 = md.claims[by].iter().filter(|c| c.1.is_expired(&b)).map(|c| c.0).sum();
                let want = if due > 0 { Ok(()) } else { Err("nothing to claim") };
                agree(format!("{at} user{by} claims {due}"), &r, &want, t)?;
                if due > 0 {
                    md.claims[by].retain(|c| !c.1.is_expired(&b));
                    md.free[by] += due;
                    cx.label("claimed");
                    if !md.claims[by].is_empty() {
                        cx.label("claimed-some");
                    }
                } else if !md.claims[by].is_empty() {
                    cx.label("claimed-too-early");
                }
            }
            Op::Fund { .. } if !self.cw20 => {}
            Op::Fund { by, amt } => {
                let by = *by as usize;
                let n = Self::amount(amt, md.free[by]);
                let r = send(w, by, n, "fund");
                let want = if n > md.free[by] { Err("not owned") } else { Ok(()) };
                if n > 0 {
                    agree(format!("{at} user{by} funds {n}"), &r, &want, t)?;
                }
                if want.is_ok() && r.is_ok() {
                    md.free[by] -= n;
                    md.pool += n;
                    cx.label(if md.total > 0 { "funded" } else { "funded-nobody" });
                }
            }
            Op::Stray { by, amt } => {
                let (by, n) = (*by as usize, *amt as u128);
                if n > md.free[by] {
                    return Ok(());
                }
                let to = w.stk.clone();
                let r = if self.cw20 {
                    let token = w.token.clone();
                    exec(&mut w.app, &user(by), &token, &json!({"transfer": {"recipient": to, "amount": n.to_string()}}), &[])
                } else {
                    exec_msg(&mut w.app, &user(by), cosmwasm_std::BankMsg::Send { to_address: to.into(), amount: coins(n, "ustk") }.into())
                };
                harness(r)?;
                md.free[by] -= n;
                md.stray += n;
            }
            Op::WrongToken { by } => {
                let by = *by as usize;
                let r = if self.cw20 {
                    // a token calling in that is not the one staked, and nobody at all
                    let forged = json!({"receive": {"sender": user(by), "amount": "5", "msg": to_json_binary(&json!({"stake": {}})).unwrap()}});
                    let r = exec(&mut w.app, &user(by), &stk, &forged, &[]);
                    agree(format!("{at} user{by} pretends to be the token"), &r, &Err("only the token"), t)?;
                    let m = json!({"send": {"contract": w.stk, "amount": "5", "msg": to_json_binary(&json!({"stake": {}})).unwrap()}});
                    let other = w.other.clone();
                    exec(&mut w.app, "user0", &other, &m, &[])
                } else {
                    exec(&mut w.app, &user(by), &stk, &json!({"stake": {}}), &coins(5, "uother"))
                };
                agree(format!("{at} user{by} stakes another token"), &r, &Err("wrong token"), t)?;
            }
            Op::Config { by, dur: d } => {
                let d = d.map(|(t, n)| dur(t, n as u64));
                let r = w.settings(*by as usize, &json!({"update_config": {"duration": d}}));
                let want = if *by as usize != DAO {
                    Err("not the owner")
                } else if d.map_or(false, |d| zero(&d)) {
                    Err("an unbonding period of nothing")
                } else {
                    Ok(())
                };
                agree(format!("{at} {by} sets the unbonding period to {d:?}"), &r, &want, t)?;
                if want.is_ok() {
                    if md.claims.iter().any(|c| !c.is_empty()) {
                        cx.label("reconfigured-while-unbonding");
                    }
                    md.dur = d;
                }
            }
            Op::Threshold { by, thr } => {
                let v = self.thr(thr, md.total, md.supply);
                let to = w.voting.clone();
                let r = w.run(*by as usize, &to, &json!({"update_active_threshold": {"new_threshold": v}}));
                let want = if *by as usize != DAO { Err("only the DAO") } else { self.thr_ok(&v, md.supply, false) };
                agree(format!("{at} {by} sets the activity threshold to {v:?}"), &r, &want, &["V06"])?;
                if want.is_ok() {
                    md.thr = v;
                }
            }
            Op::Hook { by, add, hook } => {
                let h = *hook as usize;
                let addr = if h == 3 { "nowhere".to_string() } else { w.recv[h].to_string() };
                let k = if *add { "add_hook" } else { "remove_hook" };
                let r = w.settings(*by as usize, &json!({k: {"addr": addr}}));
                let has = md.hooks.contains(&h);
                let want = if *by as usize != DAO {
                    Err("not the owner")
                } else if has == *add {
                    Err("already so")
                } else {
                    Ok(())
                };
                agree(format!("{at} {by} {k} {h}"), &r, &want, t)?;
                if want.is_ok() {
                    if *add {
                        md.hooks.push(h)
                    } else {
                        md.hooks.retain(|x| *x != h)
                    }
                }
            }
            Op::Break { hook, fail } => {
                let a = w.recv[*hook as usize].clone();
                harness(exec(&mut w.app, "x", &a, &MockMsg::SetFail { fail: *fail }, &[]))?;
                md.fails[*hook as usize] = *fail;
            }
            Op::Supply { by, mint, amt } => {
                let by = *by as usize;
                let n = Self::amount(amt, md.free[by]);
                let n = if *mint { n.min(u128::MAX / 4) } else { n.min(md.free[by]) };
                if n == 0 || (*mint && md.supply.checked_add(n).is_none()) {
                    return Ok(());
                }
                if *mint {
                    if self.cw20 {
                        let m = json!({"mint": {"recipient": user(by), "amount": n.to_string()}});
                        let token = w.token.clone();
                        if w.minter == "minter" {
                            harness(exec(&mut w.app, "minter", &token, &m, &[]))?;
                        } else {
                            harness(w.run(DAO, &token, &m))?;
                        }
                    } else {
                        fund_account(&mut w.app, &user(by), n, "ustk");
                    }
                    md.free[by] += n;
                    md.supply += n;
                } else {
                    let r = if self.cw20 {
                        let token = w.token.clone();
                        exec(&mut w.app, &user(by), &token, &json!({"burn": {"amount": n.to_string()}}), &[])
                    } else {
                        exec_msg(&mut w.app, &user(by), cosmwasm_std::BankMsg::Burn { amount: coins(n, "ustk") }.into())
                    };
                    harness(r)?;
                    md.free[by] -= n;
                    md.supply -= n;
                }
            }
            Op::Propose { by } => {
                let m = json!({"propose": w.pm.body("t", &[], None, None)});
                let pm = w.pm.addr.clone();
                let r = exec(&mut w.app, &user(*by as usize), &pm, &m, &[]);
                let tot = Self::at(hist, b.height).1;
                let want = if !self.active(md, hist, b.height) {
                    Err("the DAO is not active")
                } else {
                    Ok(())
                };
                agree(format!("{at} proposing with {tot} power"), &r, &want, &["V06"])?;
                if want.is_ok() {
                    md.proposals += 1;
                } else {
                    cx.label("proposal-refused");
                }
            }
            Op::Advance { blocks, secs } => advance(&mut w.app, *blocks as u64, *secs as u64),
        }
        Ok(())
    }

    fn heights(&self, w: &World, hist: &Hist, h: u64, q_height: Option<u64>, at: &str) -> R {
        let t = if self.cw20 { &["V02", "S01"][..] } else { &["V01"][..] };
        let (s, tot) = Self::at(hist, h);
        let p: Value = q(&w.app, &w.voting, &json!({"total_power_at_height": {"height": q_height}}))?;
        ensure_eq!(p, json!({"power": tot.to_string(), "height": h}), @t, "{at} total power at {h}");
        for i in 0..4 {
            let p: Value = q(&w.app, &w.voting, &json!({"voting_power_at_height": {"address": user(i), "height": q_height}}))?;
            ensure_eq!(p, json!({"power": s[i].to_string(), "height": h}), @t, "{at} power of user {i} at {h}");
        }
        if self.cw20 {
            let p: Value = q(&w.app, &w.stk, &json!({"total_staked_at_height": {"height": q_height}}))?;
            ensure_eq!(p, json!({"total": tot.to_string(), "height": h}), ["S01"], "{at} total stake at {h}");
            for i in 0..4 {
                let p: Value = q(&w.app, &w.stk, &json!({"staked_balance_at_height": {"address": user(i), "height": q_height}}))?;
                ensure_eq!(p, json!({"balance": s[i].to_string(), "height": h}), ["S01"], "{at} stake of user {i} at {h}");
            }
        }
        Ok(())
    }
    fn all_heights(&self, w: &World, hist: &Hist) -> R {
        for h in H0 - 1..=w.app.block_info().height + 1 {
            self.heights(w, hist, h, Some(h), "at the end:")?;
        }
        Ok(())
    }

    fn compare(&self, w: &World, md: &Model, hist: &Hist, at: &str, cx: &mut Cx) -> R {
        let t = if self.cw20 { &["S01"][..] } else { &["V01"][..] };
        let h = w.app.block_info().height;
        self.heights(w, hist, h, None, at)?;
        self.heights(w, hist, h + 1, Some(h + 1), at)?;
        for i in 0..5 {
            ensure_eq!(w.free(self.cw20, i), md.free[i], @t, "{at} tokens in the hands of {i}");
        }
        let pending: u128 = md.claims.iter().flatten().map(|c| c.0).sum();
        ensure_eq!(w.held(self.cw20, w.stk.as_str()), md.pool + pending + md.stray, @t, "{at} tokens held for stakes and claims");
        for i in 0..4 {
            let c: cw_controllers::ClaimsResponse = q(&w.app, &w.stk, &json!({"claims": {"address": user(i)}}))?;
            let mut got: Vec<_> = c.claims.iter().map(|c| (c.amount.u128(), c.release_at)).filter(|c| c.0 > 0).map(|c| format!("{c:?}")).collect();
            let mut want: Vec<_> = md.claims[i].iter().filter(|c| c.0 > 0).map(|c| format!("{c:?}")).collect();
            got.sort();
            want.sort();
            ensure_eq!(got, want, @t, "{at} claims of user {i}");
        }
        // listing, page by page
        let mut got = vec![];
        let mut after: Option<String> = None;
        loop {
            let v: Value = q(&w.app, &w.stk, &json!({"list_stakers": {"start_after": after, "limit": 2}}))?;
            let page = v["stakers"].as_array().unwrap().clone();
            crate::ensure!(page.len() <= 2, @t, "{at} stakers asked for two at a time: {v}");
            let Some(last) = page.last() else { break };
            after = Some(last["address"].as_str().unwrap().into());
            got.extend(page.iter().filter(|s| s["balance"] != json!("0")).cloned());
            if got.len() > 20 {
                break;
            }
        }
        let want: Vec<_> = (0..4).filter(|i| md.shares[*i] > 0).map(|i| json!({"address": user(i), "balance": md.shares[i].to_string()})).collect();
        ensure_eq!(got, want, @t, "{at} list of stakers");
        let c: Value = q(&w.app, &w.stk, &json!({"get_config": {}}))?;
        ensure_eq!(c["unstaking_duration"], json!(md.dur), @t, "{at} unbonding period");
        let hk: Value = q(&w.app, &w.stk, &json!({"get_hooks": {}}))?;
        let want: Vec<_> = md.hooks.iter().map(|h| if *h == 3 { "nowhere".to_string() } else { w.recv[*h].to_string() }).collect();
        ensure_eq!(hk["hooks"], json!(want), @t, "{at} subscribers");
        for i in 0..3 {
            ensure_eq!(mock_log(&w.app, &w.recv[i]), md.logs[i], @t, "{at} what subscriber {i} was told");
        }
        if self.cw20 {
            let v: Value = q(&w.app, &w.stk, &json!({"total_value": {}}))?;
            ensure_eq!(v["total"], json!(md.pool.to_string()), @t, "{at} value of all stakes");
            for i in 0..4 {
                let v: Result<Value, _> = query(&w.app, &w.stk, &json!({"staked_value": {"address": user(i)}}));
                let want = if md.total == 0 { 0 } else { mul_div(md.shares[i], md.pool, md.total) };
                ensure_eq!(v, Ok(json!({"value": want.to_string()})), @t, "{at} value of the stake of user {i}");
            }
        } else {
            let v: Value = q(&w.app, &w.voting, &json!({"denom": {}}))?;
            ensure_eq!(v["denom"], json!("ustk"), ["V01"], "{at} denom");
        }
        // activity
        let a: Value = q(&w.app, &w.voting, &json!({"active_threshold": {}}))?;
        let norm = |v: &Value| v["percentage"]["percent"].as_str().map(|p| p.parse::<Decimal>().unwrap());
        let (got, want) = (&a["active_threshold"], md.thr.clone().unwrap_or(Value::Null));
        ensure!(*got == want || (norm(got).is_some() && norm(got) == norm(&want)), ["V06"], "{at} activity threshold is {got}, set to {want}");
        let a: Value = q(&w.app, &w.voting, &json!({"is_active": {}}))?;
        let want = self.active(md, hist, h);
        ensure_eq!(a["active"], json!(want), ["V06"], "{at} active with {} of {} staked and threshold {:?}", md.total, md.supply, md.thr);
        if md.thr.is_some() {
            cx.label(if want { "active" } else { "inactive" });
        }
        ensure_eq!(w.pm.count(&w.app)?, md.proposals, ["V06"], "{at} proposals");
        Ok(())
    }
}
