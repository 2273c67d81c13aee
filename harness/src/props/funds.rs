//! The fund distributor: funding until a deadline, then claims in proportion to the voting
//! power at the distribution height.

use cosmwasm_std::{coin, to_json_binary, Addr, Uint128, Uint256};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use super::common::*;
use crate::env::*;
use crate::fw::*;
use crate::{ensure, ensure_eq};

const USERS: usize = 4;
const T: &[&str] = &["R04"];
/// two natives and two cw20 tokens
const TOKENS: usize = 4;
const DENOMS: [&str; 2] = ["ubbb", "uaaa"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Power { u: u8, p: u16 },
    FundNative { by: u8, n: [u16; 2] },
    FundCw20 { by: u8, t: u8, n: u16 },
    /// of native tokens (or cw20 tokens), by their positions, 2 is an unknown one
    Claim { by: u8, cw20: bool, which: Vec<u8> },
    ClaimAll { by: u8 },
    Redistribute { by: u8, back: i8 },
    /// a user calls the distributor as if it were a token
    Forge { by: u8, n: u8 },
    ToDeadline { off: i8 },
    Advance { blocks: u8, secs: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub powers: [u16; 4],
    /// power changes before the distributor is made; a block passes where told
    pub before: Vec<(u8, u16, bool)>,
    pub back: i8,
    pub time: bool,
    pub period: u8,
    pub unit: u8,
    pub ops: Vec<Op>,
}

pub struct Funds;

fn op() -> BoxedStrategy<Op> {
    let u = || 0u8..4;
    prop_oneof![
        4 => (u(), power()).prop_map(|(u, p)| Op::Power { u, p }),
        4 => (u(), prop::array::uniform2(prop_oneof![1 => Just(0u16), 2 => 1u16..5000])).prop_map(|(by, n)| Op::FundNative { by, n }),
        4 => (u(), 0u8..2, 1u16..5000).prop_map(|(by, t, n)| Op::FundCw20 { by, t, n }),
        8 => (u(), any::<bool>(), prop::collection::vec(prop_oneof![20 => 0u8..2, 1 => Just(2u8)], 0..4)).prop_map(|(by, cw20, which)| Op::Claim { by, cw20, which }),
        8 => u().prop_map(|by| Op::ClaimAll { by }),
        2 => (prop_oneof![6 => Just(9u8), 1 => u()], -3i8..12).prop_map(|(by, back)| Op::Redistribute { by, back }),
        1 => (u(), 0u8..3).prop_map(|(by, n)| Op::Forge { by, n }),
        3 => (-2i8..3).prop_map(|off| Op::ToDeadline { off }),
        4 => (0u8..6, 0u8..12).prop_map(|(blocks, secs)| Op::Advance { blocks, secs }),
    ]
    .boxed()
}
fn power() -> BoxedStrategy<u16> {
    prop_oneof![2 => Just(0u16), 6 => 1u16..10, 3 => 10u16..2000].boxed()
}

struct World {
    app: VApp,
    group: Addr,
    voting: Addr,
    fd: Addr,
    code: u64,
    cw20: [Addr; 2],
    unit: u128,
    powers: [u128; USERS],
    hist: Vec<(u64, [u128; USERS])>,
    dist: u64,
    time: bool,
    deadline: u64,
    bal: [u128; TOKENS],
    funded: [u128; TOKENS],
    claims: [[u128; TOKENS]; USERS],
    got: [[u128; TOKENS]; USERS],
    spent: [[u128; TOKENS]; USERS],
    forged: Vec<String>,
}

const RICH: u128 = 1 << 100;

impl World {
    fn h(&self) -> u64 {
        self.app.block_info().height
    }
    fn point(&self) -> u64 {
        if self.time {
            self.app.block_info().time.seconds()
        } else {
            self.h()
        }
    }
    fn power_at(&self, h: u64) -> [u128; USERS] {
        self.hist.iter().rev().find(|x| x.0 < h).map_or([0; 4], |x| x.1)
    }
    fn claiming(&self) -> bool {
        self.point() >= self.deadline && self.h() >= self.dist
    }
    fn set_power(&mut self, u: usize, p: u128) -> Result<(), Fail> {
        let (add, rm) = if p > 0 { (vec![json!({"addr": user(u), "weight": p})], vec![]) } else { (vec![], vec![user(u)]) };
        let g = self.group.clone();
        harness(exec(&mut self.app, "boss", &g, &json!({"update_members": {"add": add, "remove": rm}}), &[]))?;
        self.powers[u] = p;
        let h = self.h();
        self.hist.retain(|x| x.0 != h);
        self.hist.push((h, self.powers));
        Ok(())
    }
    fn name(&self, t: usize) -> String {
        if t < 2 {
            DENOMS[t].into()
        } else {
            self.cw20[t - 2].to_string()
        }
    }
    fn held(&self, t: usize, who: &str) -> u128 {
        if t < 2 {
            bank(&self.app, who, DENOMS[t])
        } else {
            cw20_balance(&self.app, &self.cw20[t - 2], who)
        }
    }
    /// least and most a member is entitled to, all claims included
    fn share(&self, u: usize, t: usize) -> (u128, u128) {
        let p = self.power_at(self.dist);
        let total: u128 = p.iter().sum();
        if total == 0 {
            return (0, 0);
        }
        let x = Uint256::from(self.bal[t]) * Uint256::from(p[u]) / Uint256::from(total);
        let most = Uint128::try_from(x).unwrap().u128();
        (most.saturating_sub(self.bal[t] / ONE18 + 1), most)
    }
    fn entitled(&self, u: usize, t: usize) -> Result<u128, Fail> {
        let v: Value = if t < 2 {
            q(&self.app, &self.fd, &json!({"native_entitlement": {"sender": user(u), "denom": self.name(t)}}))?
        } else {
            q(&self.app, &self.fd, &json!({"c_w20_entitlement": {"sender": user(u), "token": self.name(t)}}))?
        };
        Ok(v["amount"].as_str().unwrap().parse().unwrap())
    }
}

impl Scenario for Funds {
    type Case = Case;
    fn name(&self) -> &'static str {
        "fund-distributor"
    }
    fn rule(&self) -> &'static str {
        "at least two members with unequal shares were paid and voting power changed after the distribution height or the contract's creation"
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let powers = prop::array::uniform4(power());
        let before = prop::collection::vec((0u8..4, power(), any::<bool>()), 0..6);
        (powers, before, -3i8..8, any::<bool>(), 1u8..20, 0u8..4, prop::collection::vec(op(), 12..50))
            .prop_map(|(powers, before, back, time, period, unit, ops)| Case { powers, before, back, time, period, unit, ops })
            .boxed()
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        let mut app = new_app();
        let boss = "boss";
        let bal: Vec<_> = (0..4).map(|i| (user(i), RICH)).collect();
        for (a, n) in &bal {
            for d in DENOMS {
                fund_account(&mut app, a, *n, d);
            }
        }
        let cw20 = [new_cw20(&mut app, &bal), new_cw20(&mut app, &bal)];
        let code = app.store_code(code::cw4_group());
        let members: Vec<_> = (0..4).filter(|i| c.powers[*i] > 0).map(|i| json!({"addr": user(i), "weight": c.powers[i]})).collect();
        let group = inst(&mut app, code, boss, &json!({"admin": boss, "members": members}), &[], None).unwrap();
        let code = app.store_code(code::voting_cw4());
        let voting = match inst(&mut app, code, boss, &json!({"group_contract": {"existing": {"address": group}}}), &[], None) {
            Ok(v) => v,
            // not for groups without members
            Err(_) => return Ok(()),
        };
        let code = app.store_code(code::fund_distributor());
        let mut w = World {
            powers: c.powers.map(|p| p as u128),
            hist: vec![(app.block_info().height, c.powers.map(|p| p as u128))],
            app,
            group,
            voting,
            fd: Addr::unchecked(""),
            code,
            cw20,
            unit: [1, 1_000_000, 1_000_000_000_000, 1_000_000_000_000_000_000][c.unit as usize],
            dist: 0,
            time: c.time,
            deadline: 0,
            bal: [0; 4],
            funded: [0; 4],
            claims: [[0; 4]; 4],
            got: [[0; 4]; 4],
            spent: [[0; 4]; 4],
            forged: vec![],
        };
        advance(&mut w.app, 1, 5);
        for (u, p, block) in &c.before {
            w.set_power(*u as usize, *p as u128)?;
            if *block {
                advance(&mut w.app, 1, 5);
            }
        }
        let made = w.hist[0].0;
        w.dist = (w.h() as i64 - c.back as i64) as u64;
        if c.back < 7 {
            w.dist = w.dist.max(made + 1);
        }
        w.deadline = w.point() + c.period as u64;
        let p = if w.dist > w.h() { w.powers } else { w.power_at(w.dist) };
        let m = json!({"voting_contract": w.voting, "funding_period": dur(c.time, c.period as u64), "distribution_height": w.dist});
        let r = inst(&mut w.app, code, boss, &m, &[], Some("admin"));
        let want = if p.iter().sum::<u128>() == 0 { Err("nobody has power") } else { Ok(()) };
        agree("creating the distributor", &r, &want, T)?;
        if want.is_err() {
            return Ok(());
        }
        w.fd = r.unwrap();
        cx.label(if w.dist < w.h() { "height-before" } else if w.dist > w.h() { "height-to-come" } else { "height-now" });
        for (step, o) in c.ops.iter().enumerate() {
            cx.log(|| format!("[{step}] {o:?} @{}", w.h()));
            let at = format!("[{step}]");
            self.step(&mut w, o, &at, cx)?;
            self.compare(&w, &at)?;
        }
        let p = w.power_at(w.dist);
        let paid: Vec<usize> = (0..4).filter(|u| w.got[*u].iter().any(|x| *x > 0)).collect();
        cx.nontrivial = paid.len() >= 2 && paid.iter().any(|u| p[*u] != p[paid[0]]) && w.powers != p;
        Ok(())
    }
}

impl Funds {
    fn step(&self, w: &mut World, o: &Op, at: &str, cx: &mut Cx) -> R {
        let over = w.point() >= w.deadline;
        let fd = w.fd.clone();
        match o {
            Op::Power { u, p } => w.set_power(*u as usize, *p as u128)?,
            Op::FundNative { by, n } => {
                let who = user(*by as usize);
                let n = n.map(|x| x as u128 * w.unit);
                let mut funds: Vec<_> = (0..2).filter(|t| n[*t] > 0).map(|t| coin(n[t], DENOMS[t])).collect();
                funds.sort_by(|a, b| a.denom.cmp(&b.denom));
                let r = exec(&mut w.app, &who, &fd, &json!({"fund_native": {}}), &funds);
                let want = if over { Err("funding is over") } else { Ok(()) };
                if funds.is_empty() && !over {
                    return Ok(());
                }
                agree(format!("{at} {who} funds {n:?}"), &r, &want, T)?;
                if want.is_ok() {
                    for t in 0..2 {
                        w.bal[t] += n[t];
                        w.funded[t] += n[t];
                        w.spent[*by as usize][t] += n[t];
                    }
                    cx.label("funded");
                }
            }
            Op::FundCw20 { by, t, n } => {
                let who = user(*by as usize);
                let n = *n as u128 * w.unit;
                let token = w.cw20[*t as usize].clone();
                let m = json!({"send": {"contract": fd, "amount": n.to_string(), "msg": to_json_binary("").unwrap()}});
                let r = exec(&mut w.app, &who, &token, &m, &[]);
                let want = if over { Err("funding is over") } else { Ok(()) };
                agree(format!("{at} {who} funds {n} cw20"), &r, &want, T)?;
                if want.is_ok() {
                    let t = 2 + *t as usize;
                    w.bal[t] += n;
                    w.funded[t] += n;
                    w.spent[*by as usize][t] += n;
                    cx.label("funded");
                }
            }
            Op::Claim { by, cw20, which } => {
                let u = *by as usize;
                let mut names = vec![];
                let mut ts = vec![];
                let mut unknown = false;
                for x in which {
                    let t = *x as usize + if *cw20 { 2 } else { 0 };
                    if *x == 2 {
                        names.push("uunknown".to_string());
                        unknown = true;
                    } else {
                        names.push(w.name(t));
                        ts.push(t);
                        unknown |= w.funded[t] == 0;
                    }
                }
                let m = if *cw20 { json!({"claim_c_w20": {"tokens": names}}) } else { json!({"claim_natives": {"denoms": names}}) };
                let due: Vec<u128> = (0..4).map(|t| w.entitled(u, t)).collect::<Result<_, _>>()?;
                let r = exec(&mut w.app, &user(u), &fd, &m, &[]);
                let want = if !w.claiming() {
                    Err("too early")
                } else if names.is_empty() {
                    Err("nothing named")
                } else if unknown {
                    Err("unknown token")
                } else {
                    Ok(())
                };
                // naming a token that was never funded may be refused or be worth nothing
                if unknown && w.claiming() && r.is_ok() {
                    return Ok(());
                }
                agree(format!("{at} user{u} claims {names:?}"), &r, &want, T)?;
                if want.is_ok() {
                    self.paid(w, u, &ts, &due, at, cx)?;
                }
            }
            Op::ClaimAll { by } => {
                let u = *by as usize;
                let due: Vec<u128> = (0..4).map(|t| w.entitled(u, t)).collect::<Result<_, _>>()?;
                let r = exec(&mut w.app, &user(u), &fd, &json!({"claim_all": {}}), &[]);
                let want = if w.claiming() { Ok(()) } else { Err("too early") };
                if want.is_ok() && r.is_err() && !w.forged.is_empty() {
                    cx.label("all-blocked-by-a-forged-token");
                    return Ok(());
                }
                agree(format!("{at} user{u} claims all"), &r, &want, T)?;
                if want.is_ok() {
                    self.paid(w, u, &[0, 1, 2, 3], &due, at, cx)?;
                }
            }
            Op::Redistribute { by, back } => {
                let who = if *by == 9 { "admin".to_string() } else { user(*by as usize) };
                let to = (w.h() as i64 - *back as i64) as u64;
                let code = w.code;
                let m = json!({"redistribute_unclaimed_funds": {"distribution_height": to}});
                if w.power_at(to.min(w.h())).iter().sum::<u128>() == 0 {
                    return Ok(());
                }
                let r = exec_msg(
                    &mut w.app,
                    &who,
                    cosmwasm_std::WasmMsg::Migrate { contract_addr: fd.to_string(), new_code_id: code, msg: to_json_binary(&m).unwrap() }.into(),
                );
                let want = if *by == 9 { Ok(()) } else { Err("not the admin") };
                agree(format!("{at} {who} redistributes by the powers at {to}"), &r, &want, T)?;
                if want.is_ok() {
                    w.dist = to;
                    for t in 0..4 {
                        for u in 0..4 {
                            w.bal[t] -= w.claims[u][t];
                            w.claims[u][t] = 0;
                        }
                    }
                    cx.label("redistributed");
                }
            }
            Op::Forge { by, n } => {
                let who = user(*by as usize);
                let r = exec(&mut w.app, &who, &fd, &json!({"receive": {"sender": who, "amount": n.to_string(), "msg": ""}}), &[]);
                if r.is_ok() && *n > 0 {
                    ensure!(!over, @T, "{at} funded after the deadline");
                    w.forged.push(who);
                }
            }
            Op::ToDeadline { off } => {
                let to = w.deadline as i64 + *off as i64;
                let d = (to - w.point() as i64).max(0) as u64;
                if d > 0 {
                    if w.time {
                        advance(&mut w.app, 1, d);
                    } else {
                        advance(&mut w.app, d, d);
                    }
                    cx.label("at-the-deadline");
                }
            }
            Op::Advance { blocks, secs } => advance(&mut w.app, (*blocks).max((*secs > 0) as u8) as u64, *secs as u64),
        }
        Ok(())
    }
    fn paid(&self, w: &mut World, u: usize, ts: &[usize], due: &[u128], at: &str, cx: &mut Cx) -> R {
        for t in 0..4 {
            if ts.contains(&t) {
                w.claims[u][t] += due[t];
                w.got[u][t] += due[t];
                ensure_eq!(w.entitled(u, t)?, 0, @T, "{at} entitlement of user{u} right after claiming");
                if due[t] > 0 {
                    cx.label("claimed");
                }
            }
        }
        Ok(())
    }
    fn compare(&self, w: &World, at: &str) -> R {
        for t in 0..4 {
            let mut owed = 0;
            for u in 0..4 {
                ensure_eq!(w.held(t, &user(u)), RICH - w.spent[u][t] + w.got[u][t], @T, "{at} user{u} has of token {t}");
                if w.h() < w.dist {
                    continue;
                }
                let (least, most) = w.share(u, t);
                let e = w.entitled(u, t)?;
                owed += e;
                let all = e + w.claims[u][t];
                ensure!(least <= all && all <= most, @T, "{at} user{u} may claim {all} of token {t}, should be {least} to {most}");
            }
            let held = w.held(t, w.fd.as_str());
            let got: u128 = (0..4).map(|u| w.got[u][t]).sum();
            ensure_eq!(held, w.funded[t] - got, @T, "{at} held of token {t}");
            ensure!(owed <= held, @T, "{at} {owed} claimable, {held} held of token {t}");
        }
        // listings, page by page
        for (cw20, msg, key) in [(false, "native_entitlements", "denom"), (true, "c_w20_entitlements", "token_contract")] {
            let mut seen = vec![];
            loop {
                let after = seen.last().map(|x: &(String, String)| x.0.clone());
                let page: Vec<Value> = q(&w.app, &w.fd, &json!({msg: {"sender": user(1), "start_at": after, "limit": 1}}))?;
                let Some(p) = page.first() else { break };
                ensure_eq!(page.len(), 1, @T, "{at} size of a page");
                seen.push((p[key].as_str().unwrap().to_string(), p["amount"].as_str().unwrap().to_string()));
                ensure!(seen.len() < 20, @T, "{at} a listing without end");
            }
            seen.retain(|x| !w.forged.contains(&x.0));
            let mut want = vec![];
            for i in 0..2 {
                let t = i + if cw20 { 2 } else { 0 };
                if w.funded[t] > 0 {
                    want.push((w.name(t), w.entitled(1, t)?.to_string()));
                }
            }
            want.sort();
            let all: Vec<Value> = q(&w.app, &w.fd, &json!({msg: {"sender": user(1)}}))?;
            let all: Vec<_> = all
                .iter()
                .map(|p| (p[key].as_str().unwrap().to_string(), p["amount"].as_str().unwrap().to_string()))
                .filter(|x| !w.forged.contains(&x.0))
                .collect();
            ensure_eq!(all, seen, @T, "{at} {msg} of user1 as a whole and by pages");
            seen.sort();
            ensure_eq!(seen, want, @T, "{at} {msg} of user1");
        }
        let v: Value = q(&w.app, &w.fd, &json!({"native_denoms": {}}))?;
        let mut want: Vec<_> = (0..2).filter(|t| w.funded[*t] > 0).map(|t| json!({"contract_balance": w.bal[t].to_string(), "denom": w.name(t)})).collect();
        want.sort_by_key(|x| x["denom"].to_string());
        ensure_eq!(v, json!(want), @T, "{at} native denoms");
        let mut v: Vec<Value> = q(&w.app, &w.fd, &json!({"c_w20_tokens": {}}))?;
        // what users pretended to be tokens
        v.retain(|x| !x["token"].as_str().unwrap_or("").starts_with("user"));
        let mut want: Vec<_> = (2..4).filter(|t| w.funded[*t] > 0).map(|t| json!({"contract_balance": w.bal[t].to_string(), "token": w.name(t)})).collect();
        want.sort_by_key(|x| x["token"].to_string());
        ensure_eq!(v, want, @T, "{at} cw20 tokens");
        let v: Value = q(&w.app, &w.fd, &json!({"voting_contract": {}}))?;
        ensure_eq!(v, json!({"contract": w.voting, "distribution_height": w.dist}), @T, "{at} distribution height");
        if w.h() >= w.dist {
            let v: Value = q(&w.app, &w.fd, &json!({"total_power": {}}))?;
            ensure_eq!(v["total_power"], json!(w.power_at(w.dist).iter().sum::<u128>().to_string()), @T, "{at} total power at the distribution height");
        }
        Ok(())
    }
}
