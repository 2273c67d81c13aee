//! Checked denominations and proposal deposits, against a real bank and real cw20 tokens.

use cosmwasm_std::testing::{mock_info, MockStorage};
use cosmwasm_std::{Addr, Coin, Deps, Uint128};
use cw_denom::{validate_native_denom, CheckedDenom, UncheckedDenom};
use dao_voting::deposit::{CheckedDepositInfo, DepositRefundPolicy, DepositToken, UncheckedDepositInfo, VotingModuleTokenType};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

use super::common::*;
use crate::env::*;
use crate::fw::*;
use crate::ensure_eq;

const T: &[&str] = &["L04"];
const USERS: usize = 4;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    Native(String),
    /// 0, 1: tokens; 2: a contract that is not a token; 3: no contract; 4, 5: no addresses
    Cw20(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Check(What),
    Text(String),
    /// what the voting module says: nothing, a native denomination or a cw20
    Module { says: Option<What>, native: bool, amount: u8 },
    Transfer { t: u8, from: u8, to: u8, n: u16 },
    /// a deposit in native tokens comes with these funds
    Paid { t: u8, n: u8, funds: Vec<(u8, u8)> },
    Allow { t: u8, by: u8, n: u16 },
    Take { t: u8, by: u8, n: u16 },
    Return { t: u8, to: u8, n: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ops: Vec<Op>,
}

pub struct Denoms;

const NATIVES: [&str; 3] = ["uaaa", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", "factory/a:b.c_d-e/F9"];

fn text() -> BoxedStrategy<String> {
    let re = |s: &str| proptest::string::string_regex(s).unwrap().boxed();
    prop_oneof![
        3 => re("[a-zA-Z][a-zA-Z0-9/:._-]{2,6}"),
        3 => re("[a-zA-Z0-9/:._-]{1,5}"),
        2 => re("[a-zA-Z][a-zA-Z0-9/:._-]{126,129}"),
        3 => re("[a-zA-Z][a-zA-Z0-9/:._ \\-,;@\\[`{~^!+*()=?<>|\\\\\"'%$#&\u{0}\u{7f}\u{e9}\u{131}\u{212a}]{2,6}"),
        2 => re("[a-zé\u{212a}\u{0430}@`\\[{]{1,4}"),
        1 => re("\\PC{0,8}"),
        1 => Just(String::new()).boxed(),
        // by bytes, not characters
        1 => re("[a-z]é{62,64}"),
    ]
    .boxed()
}

fn op() -> BoxedStrategy<Op> {
    let u = || 0u8..USERS as u8;
    let t = || 0u8..5;
    let what = || prop_oneof![2 => text().prop_map(What::Native), 1 => Just(What::Native(NATIVES[1].into())), 3 => (0u8..6).prop_map(What::Cw20)];
    let n = || prop_oneof![1 => Just(0u16), 6 => 1u16..700, 1 => Just(1000u16), 1 => Just(1001u16)];
    prop_oneof![
        4 => what().prop_map(Op::Check),
        8 => text().prop_map(Op::Text),
        4 => (prop::option::weighted(0.9, what()), any::<bool>(), 0u8..4).prop_map(|(says, native, amount)| Op::Module { says, native, amount }),
        4 => (t(), u(), u(), n()).prop_map(|(t, from, to, n)| Op::Transfer { t, from, to, n }),
        4 => (t(), 0u8..4, prop::collection::vec((prop_oneof![5 => Just(9u8), 3 => 0u8..4], 0u8..4), 0..3)).prop_map(|(t, n, funds)| Op::Paid { t, n, funds }),
        4 => (prop_oneof![4 => 3u8..5, 1 => t()], 0u8..2, n()).prop_map(|(t, by, n)| Op::Allow { t, by, n }),
        4 => (prop_oneof![4 => 3u8..5, 1 => t()], prop_oneof![5 => 0u8..2, 1 => u()], prop_oneof![3 => 0u16..300, 1 => n()]).prop_map(|(t, by, n)| Op::Take { t, by, n }),
        2 => (t(), u(), n()).prop_map(|(t, to, n)| Op::Return { t, to, n }),
    ]
    .boxed()
}

/// `[a-zA-Z][a-zA-Z0-9/:._-]{2,127}`
fn well_formed(s: &str) -> bool {
    let b = s.as_bytes();
    let letter = |c: &u8| matches!(c, b'a'..=b'z' | b'A'..=b'Z');
    (3..=128).contains(&b.len()) && letter(&b[0]) && b[1..].iter().all(|c| letter(c) || matches!(c, b'0'..=b'9' | b'/' | b':' | b'.' | b'_' | b'-'))
}

struct World {
    app: VApp,
    dao: Dao,
    /// takes deposits
    taker: Addr,
    cw20: [Addr; 2],
    group: Addr,
    /// tokens: the natives, then the cw20s
    bal: [[u128; USERS + 1]; 5],
    allow: [[u128; USERS]; 2],
}

impl World {
    fn checked(&self, t: usize) -> CheckedDenom {
        match t {
            0..=2 => CheckedDenom::Native(NATIVES[t].into()),
            _ => CheckedDenom::Cw20(self.cw20[t - 3].clone()),
        }
    }
    fn address(&self, i: u8) -> String {
        match i {
            0 | 1 => self.cw20[i as usize].to_string(),
            2 => self.group.to_string(),
            3 => "nocontract".into(),
            4 => "".into(),
            _ => "UPPER".into(),
        }
    }
    /// what a name should be checked to
    fn verdict(&self, w: &What) -> Option<CheckedDenom> {
        match w {
            What::Native(s) => well_formed(s).then(|| CheckedDenom::Native(s.clone())),
            What::Cw20(i) => (*i < 2).then(|| CheckedDenom::Cw20(self.cw20[*i as usize].clone())),
        }
    }
    fn unchecked(&self, w: &What) -> UncheckedDenom {
        match w {
            What::Native(s) => UncheckedDenom::Native(s.clone()),
            What::Cw20(i) => UncheckedDenom::Cw20(self.address(*i)),
        }
    }
    fn who(&self, i: usize) -> Addr {
        if i == USERS {
            self.taker.clone()
        } else {
            Addr::unchecked(user(i))
        }
    }
    fn deps<X>(&self, f: impl FnOnce(Deps) -> X) -> X {
        let st = MockStorage::new();
        f(Deps { storage: &st, api: self.app.api(), querier: self.app.wrap() })
    }
}

fn policy(i: u8) -> DepositRefundPolicy {
    match i % 3 {
        0 => DepositRefundPolicy::Always,
        1 => DepositRefundPolicy::OnlyPassed,
        _ => DepositRefundPolicy::Never,
    }
}

impl Scenario for Denoms {
    type Case = Case;
    fn name(&self) -> &'static str {
        "denominations"
    }
    fn rule(&self) -> &'static str {
        "at least one denomination was accepted and one refused, and tokens were moved"
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        prop::collection::vec(op(), 5..30).prop_map(|ops| Case { ops }).boxed()
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        let mut app = new_app();
        let all: Vec<_> = (0..USERS).map(|i| (user(i), 1000u128)).collect();
        for (u, n) in &all {
            for d in NATIVES {
                fund_account(&mut app, u, *n, d);
            }
        }
        let cw20 = [new_cw20(&mut app, &all), new_cw20(&mut app, &all)];
        let code = app.store_code(code::cw4_group());
        let group = inst(&mut app, code, "boss", &json!({"admin": "boss", "members": []}), &[], None).unwrap();
        let v = mock_voting(&mut app, &[(user(0), 1)]);
        let m = mock_voting(&mut app, &[]);
        let dao = harness(new_dao(&mut app, v, vec![m]))?;
        let taker = new_mock(&mut app);
        let mut row = [1000; USERS + 1];
        row[USERS] = 0;
        let mut w = World { app, dao, taker, cw20, group, bal: [row; 5], allow: [[0; USERS]; 2] };
        for (i, o) in c.ops.iter().enumerate() {
            cx.log(|| format!("[{i}] {o:?}"));
            self.step(&mut w, o, &format!("[{i}]"), cx)?;
        }
        for t in 0..5 {
            let d = w.checked(t);
            for u in 0..=USERS {
                let got = d.query_balance::<cosmwasm_std::Empty>(&w.app.wrap(), &w.who(u)).map_err(|e| Fail::new(e.to_string()).tag(T))?;
                ensure_eq!(got.u128(), w.bal[t][u], @T, "[end] balance of {u} in {d:?}");
                let real = if t < 3 { bank(&w.app, w.who(u).as_str(), NATIVES[t]) } else { cw20_balance(&w.app, &w.cw20[t - 3], w.who(u).as_str()) };
                ensure_eq!(real, w.bal[t][u], @T, "[end] tokens {d:?} of {u}");
            }
        }
        cx.nontrivial = cx.has("moved") && cx.has("accepted") && cx.has("refused");
        Ok(())
    }
}

impl Denoms {
    fn step(&self, w: &mut World, o: &Op, at: &str, cx: &mut Cx) -> R {
        match o {
            Op::Text(s) => {
                let ok = well_formed(s);
                cx.label(if ok { "accepted" } else { "refused" });
                let r = validate_native_denom(s.clone()).ok();
                ensure_eq!(r, ok.then(|| CheckedDenom::Native(s.clone())), @T, "{at} {s:?} as native denomination");
            }
            Op::Check(x) => {
                let want = w.verdict(x);
                cx.label(if want.is_some() { "accepted" } else { "refused" });
                let d = w.unchecked(x);
                let got = w.deps(|deps| d.clone().into_checked(deps)).ok();
                ensure_eq!(got, want, @T, "{at} checking {d:?}");
                if let Some(d) = got {
                    for i in 0..4 {
                        let a = Addr::unchecked(w.address(i));
                        ensure_eq!(d.is_cw20(&a), matches!(&d, CheckedDenom::Cw20(b) if *b == a), @T, "{at} is {d:?} cw20 {a}");
                        ensure_eq!(d.is_native(a.as_str()), matches!(&d, CheckedDenom::Native(b) if b == a.as_str()), @T, "{at} is {d:?} native {a}");
                    }
                    let (s, native) = match &d {
                        CheckedDenom::Native(s) => (s.clone(), true),
                        CheckedDenom::Cw20(a) => (a.to_string(), false),
                    };
                    // other names made of this one
                    let short: String = s.chars().take(s.len() - 1).collect();
                    let other_case: String =
                        s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                    for (o, same) in [(s.clone(), true), (short, false), (s[1..].to_string(), false), (format!("{s}a"), false), (format!("a{s}"), false), (other_case.clone(), other_case == s)] {
                        ensure_eq!(d.is_native(&o), native && same, @T, "{at} is {d:?} native {o:?}");
                        ensure_eq!(d.is_cw20(&Addr::unchecked(&o)), !native && same, @T, "{at} is {d:?} cw20 {o:?}");
                    }
                    if let CheckedDenom::Native(n) = &d {
                        ensure_eq!((d.is_native(n), d.is_cw20(&Addr::unchecked(n))), (true, false), @T, "{at} {d:?}");
                    }
                }
            }
            Op::Module { says, native, amount } => {
                let (cw20, denom) = match says {
                    None => (None, None),
                    Some(What::Native(s)) => (None, Some(s.clone())),
                    Some(What::Cw20(i)) => (Some(w.address(*i)), None),
                };
                let voting = w.dao.voting.clone();
                harness(exec(&mut w.app, "x", &voting, &MockMsg::SetToken { cw20, denom }, &[]))?;
                let info = |denom| UncheckedDepositInfo { denom, amount: Uint128::new(*amount as u128), refund_policy: policy(*amount) };
                let core = w.dao.core.clone();
                let token_type = if *native { VotingModuleTokenType::Native } else { VotingModuleTokenType::Cw20 };
                let r = w.deps(|d| info(DepositToken::VotingModuleToken { token_type }).into_checked(d, core.clone())).ok();
                let expected = |denom: Option<CheckedDenom>| {
                    denom.filter(|_| *amount > 0).map(|denom| CheckedDepositInfo { denom, amount: Uint128::new(*amount as u128), refund_policy: policy(*amount) })
                };
                let denom = match says {
                    Some(x @ What::Native(_)) if *native => w.verdict(x),
                    Some(x @ What::Cw20(_)) if !*native => w.verdict(x),
                    _ => None,
                };
                if denom.is_some() && *amount > 0 {
                    cx.label("deposit-of-module-token");
                }
                ensure_eq!(r, expected(denom), @T, "{at} the deposit, the module saying {says:?}");
                if let Some(x) = says {
                    let denom = w.unchecked(x);
                    let r = w.deps(|d| info(DepositToken::Token { denom }).into_checked(d, core)).ok();
                    ensure_eq!(r, expected(w.verdict(x)), @T, "{at} the deposit in {x:?}");
                }
            }
            Op::Transfer { t, from, to, n } => {
                let (t, from, to, n) = (*t as usize, *from as usize, *to as usize, *n as u128);
                let m = w.checked(t).get_transfer_to_message(&w.who(to), Uint128::new(n)).map_err(|e| Fail::new(e.to_string()).tag(T))?;
                let r = exec_msg(&mut w.app, &user(from), m);
                self.moved(w, r, t, from, to, n, if n == 0 && t < 3 { Err("nothing") } else { Ok(()) }, at, cx)?;
            }
            Op::Paid { t, n, funds } => {
                let t = *t as usize;
                let info = CheckedDepositInfo { denom: w.checked(t), amount: Uint128::new(*n as u128 + 1), refund_policy: policy(0) };
                let mut f: Vec<Coin> = vec![];
                for (d, x) in funds {
                    let d = if *d == 9 { t } else { *d as usize };
                    let name = if d < 3 { NATIVES[d] } else { "uother" };
                    if f.iter().all(|c| c.denom != name) {
                        f.push(cosmwasm_std::coin(*x as u128 + 1, name));
                    }
                }
                let r = info.check_native_deposit_paid(&mock_info("u", &f));
                let want = t >= 3 || f == vec![cosmwasm_std::coin(*n as u128 + 1, NATIVES[t])];
                if t < 3 {
                    cx.label(if want { "paid-right" } else { "paid-wrong" });
                }
                ensure_eq!(r.is_ok(), want, @T, "{at} a deposit of {info:?} paid with {f:?}");
            }
            Op::Allow { t, by, n } => {
                if let Some(i) = (*t as usize).checked_sub(3) {
                    let taker = w.taker.clone();
                    let c = w.cw20[i].clone();
                    if *n > 0 {
                        harness(exec(&mut w.app, &user(*by as usize), &c, &json!({"increase_allowance": {"spender": taker, "amount": n.to_string()}}), &[]))?;
                        w.allow[i][*by as usize] += *n as u128;
                    }
                }
            }
            Op::Take { t, by, n } => {
                let (t, by, n) = (*t as usize, *by as usize, *n as u128);
                let info = CheckedDepositInfo { denom: w.checked(t), amount: Uint128::new(n), refund_policy: policy(0) };
                let taker = w.taker.clone();
                let msgs = info.get_take_deposit_messages(&w.who(by), &taker).map_err(|e| Fail::new(e.to_string()).tag(T))?;
                let r = exec(&mut w.app, "x", &taker, &MockMsg::Run { msgs }, &[]).map(|_| ());
                match t.checked_sub(3) {
                    Some(i) if n > 0 => {
                        let want = if n > w.allow[i][by] { Err("not allowed that much") } else { Ok(()) };
                        if self.moved(w, r.clone(), t, by, USERS, n, want, at, cx)? {
                            w.allow[i][by] -= n;
                            cx.label("taken");
                        }
                    }
                    // paid with the message
                    _ => agree(format!("{at} taking {info:?}"), &r, &Ok(()), T)?,
                }
            }
            Op::Return { t, to, n } => {
                let (t, to, n) = (*t as usize, *to as usize, *n as u128);
                let info = CheckedDepositInfo { denom: w.checked(t), amount: Uint128::new(n), refund_policy: policy(0) };
                let taker = w.taker.clone();
                if t < 3 {
                    // paid in before
                    let m = w.checked(t).get_transfer_to_message(&taker, Uint128::new(n)).map_err(|e| Fail::new(e.to_string()).tag(T))?;
                    let r = exec_msg(&mut w.app, &user(0), m);
                    self.moved(w, r, t, 0, USERS, n, if n == 0 && t < 3 { Err("nothing") } else { Ok(()) }, at, cx)?;
                }
                let msgs = info.get_return_deposit_message(&w.who(to)).map_err(|e| Fail::new(e.to_string()).tag(T))?;
                let r = exec(&mut w.app, "x", &taker, &MockMsg::Run { msgs }, &[]).map(|_| ());
                if self.moved(w, r, t, USERS, to, n, Ok(()), at, cx)? && n > 0 {
                    cx.label("returned");
                }
            }
        }
        Ok(())
    }
    #[allow(clippy::too_many_arguments)]
    fn moved<X>(&self, w: &mut World, r: Result<X, String>, t: usize, from: usize, to: usize, n: u128, want: Result<(), &'static str>, at: &str, cx: &mut Cx) -> R<bool> {
        let want = want.and(if w.bal[t][from] < n { Err("not enough") } else { Ok(()) });
        agree(format!("{at} {n} of {:?} from {from} to {to}", w.checked(t)), &r, &want, T)?;
        if want.is_ok() {
            w.bal[t][from] -= n;
            w.bal[t][to] += n;
            cx.label("moved");
        }
        Ok(want.is_ok())
    }
}
