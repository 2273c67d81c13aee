//! Setting up a DAO around a token or collection: new, from a factory, or existing.

use std::collections::BTreeMap;

use cosmwasm_std::{coin, to_json_binary, Addr, Binary, Coin, CosmosMsg, Uint128, WasmMsg};
use dao_interface::msg::InstantiateMsg as CoreMsg;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use super::common::*;
use crate::env::*;
use crate::fw::*;
use crate::{ensure, ensure_eq};

const T: &[&str] = &["V07"];
const USERS: u8 = 5;
const NOBODY: u8 = 5;
const DAO: u8 = 6;
const VOTING: u8 = 7;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Meta {
    pub text: u8,
    pub display: u8,
    pub units: Option<Vec<(u8, u32)>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum First {
    Mint { id: u8, to: u8, uri: bool },
    Burn(u8),
    Move { id: u8, to: u8 },
    Renounce,
    Garbage,
}

/// What the factory answers, or why there is no answer.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Answer {
    Good,
    /// one for the other kind of token
    Wrong,
    Nothing,
    Garbage,
    Fails,
    /// the declared message is no call of a contract
    NoCall,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    Native { list: Vec<(u8, u128)>, dao: Option<u128>, meta: Option<Meta>, sub: u8 },
    NativeFactory {
        /// who holds the token by then
        list: Vec<(u8, u64)>,
        contract: Option<u8>,
        /// what the DAO is asked to do after
        calls: Option<Vec<bool>>,
        answer: Answer,
        funds: u8,
    },
    NativeExisting { list: Vec<(u8, u64)> },
    Fan { list: Vec<(u8, u128)>, dao: Option<u128>, room: i8, text: u8 },
    Cw20 { list: Vec<(u8, u128)>, dao: Option<u128>, decimals: u8, text: u8, marketing: Option<(u8, bool)> },
    /// staking: new, for this token, for another token, or none at all
    Cw20Existing { list: Vec<(u8, u64)>, staking: u8 },
    Nft { first: Vec<First>, text: u8, bad: bool },
    NftFactory { list: Vec<u8>, what: u8, calls: Option<Vec<bool>>, answer: Answer, funds: u8 },
    NftExisting { list: Vec<u8> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Thr {
    None,
    Permille(u16),
    /// relative to nothing, to what is declared for holders, and to the whole supply
    Count(u8, i8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub kind: Kind,
    pub thr: Thr,
    pub unstaking: Option<(bool, u8)>,
    /// the coins the voting module is given
    pub funds: u8,
    pub stakers: u8,
}

pub struct Setup;

fn texts(i: u8) -> &'static str {
    ["Cat Coin", "DOGE", "abc", "tiger", "über", "a b"][i as usize % 6]
}

fn list() -> BoxedStrategy<Vec<(u8, u128)>> {
    let who = prop_oneof![30 => 0u8..USERS, 1 => Just(NOBODY), 1 => Just(DAO), 1 => Just(VOTING)];
    let n = prop_oneof![
        2 => Just(0u128),
        40 => 1u128..1000,
        2 => (0u32..110).prop_map(|s| 1u128 << s),
        1 => Just(u128::MAX - 5),
    ];
    let any = vec((who, n), 0..6);
    // nobody twice, everybody something
    let tidy = vec((0u8..USERS, 1u128..1000), 1..6).prop_map(|l| l.into_iter().collect::<BTreeMap<_, _>>().into_iter().collect());
    prop_oneof![1 => any, 1 => tidy].boxed()
}

fn dao() -> BoxedStrategy<Option<u128>> {
    prop_oneof![
        3 => Just(None),
        1 => Just(Some(0)),
        5 => (1u128..2000).prop_map(Some),
        1 => prop_oneof![Just(1u128 << 100), Just(u128::MAX - 100)].prop_map(Some),
    ]
    .boxed()
}

fn small() -> BoxedStrategy<Vec<(u8, u64)>> {
    vec((prop_oneof![5 => 0u8..USERS, 3 => Just(DAO), 1 => Just(VOTING)], 1u64..1000), 0..5).boxed()
}

fn answer() -> BoxedStrategy<Answer> {
    prop_oneof![
        14 => Just(Answer::Good),
        1 => Just(Answer::Wrong),
        1 => Just(Answer::Nothing),
        1 => Just(Answer::Garbage),
        1 => Just(Answer::Fails),
        1 => Just(Answer::NoCall),
    ]
    .boxed()
}

fn calls() -> BoxedStrategy<Option<Vec<bool>>> {
    option::of(vec(prop_oneof![8 => Just(true), 1 => Just(false)], 0..4)).boxed()
}

fn kind() -> BoxedStrategy<Kind> {
    let meta = option::of(
        (0u8..6, 0u8..6, option::of(vec((0u8..6, prop_oneof![1 => Just(0u32), 4 => 1u32..20]), 0..5)))
            .prop_map(|(text, display, units)| Meta { text, display, units }),
    );
    let nft_to = || prop_oneof![6 => 0u8..USERS, 1 => Just(DAO), 3 => Just(VOTING)];
    let first = prop_oneof![
        40 => (0u8..12, nft_to(), any::<bool>()).prop_map(|(id, to, uri)| First::Mint { id, to, uri }),
        2 => (0u8..12, Just(NOBODY), any::<bool>()).prop_map(|(id, to, uri)| First::Mint { id, to, uri }),
        1 => (0u8..12).prop_map(First::Burn),
        1 => (0u8..12, 0u8..USERS).prop_map(|(id, to)| First::Move { id, to }),
        1 => Just(First::Renounce),
        1 => Just(First::Garbage),
    ];
    // ids in order, and what the module minted to itself burned or handed on
    let tidy = vec((nft_to(), any::<bool>(), 0u8..6), 0..5).prop_map(|l| {
        let mut out = vec![];
        let mut own = vec![];
        for (i, (to, uri, then)) in l.into_iter().enumerate() {
            let id = i as u8;
            out.push(First::Mint { id, to, uri });
            if to == VOTING {
                own.push((id, then));
            }
        }
        for (id, then) in own {
            match then {
                0..=2 => out.push(First::Burn(id)),
                3 => out.push(First::Move { id, to: 1 }),
                _ => {}
            }
        }
        out
    });
    let nfts = prop_oneof![1 => vec(first, 0..6).boxed(), 2 => tidy.boxed()];
    prop_oneof![
        6 => (list(), dao(), meta, 0u8..3).prop_map(|(list, dao, meta, sub)| Kind::Native { list, dao, meta, sub }),
        4 => (small(), prop_oneof![2 => Just(None), 3 => (0u8..USERS).prop_map(Some), 1 => Just(Some(NOBODY))], calls(), answer(), 0u8..5)
            .prop_map(|(list, contract, calls, answer, funds)| Kind::NativeFactory { list, contract, calls, answer, funds }),
        2 => small().prop_map(|list| Kind::NativeExisting { list }),
        4 => (list(), dao(), prop_oneof![3 => Just(100i8), 1 => -2i8..3], 0u8..6).prop_map(|(list, dao, room, text)| Kind::Fan { list, dao, room, text }),
        6 => (list(), dao(), prop_oneof![6 => 0u8..19, 1 => 19u8..21], 0u8..4, option::of((0u8..6, any::<bool>())))
            .prop_map(|(list, dao, decimals, text, marketing)| Kind::Cw20 { list, dao, decimals, text, marketing }),
        3 => (small(), prop_oneof![3 => Just(0u8), 3 => Just(1), 1 => Just(2), 1 => Just(3)]).prop_map(|(list, staking)| Kind::Cw20Existing { list, staking }),
        6 => (nfts, 0u8..6, prop_oneof![15 => Just(false), 1 => Just(true)]).prop_map(|(first, text, bad)| Kind::Nft { first, text, bad }),
        3 => (vec(prop_oneof![4 => 0u8..USERS, 1 => Just(DAO)], 0..4), prop_oneof![8 => Just(0u8), 1 => Just(1), 1 => Just(2)], calls(), answer(), 0u8..5)
            .prop_map(|(list, what, calls, answer, funds)| Kind::NftFactory { list, what, calls, answer, funds }),
        2 => vec(prop_oneof![4 => 0u8..USERS, 1 => Just(DAO)], 0..4).prop_map(|list| Kind::NftExisting { list }),
    ]
    .boxed()
}

/// Holdings: amounts, or a collection's tokens.
#[derive(Default)]
struct Held {
    amounts: BTreeMap<String, u128>,
    nfts: BTreeMap<String, (String, Option<String>)>,
}

type V = Result<(), &'static str>;

fn when(bad: bool, why: &'static str) -> V {
    if bad {
        Err(why)
    } else {
        Ok(())
    }
}

fn sum(l: &[u128]) -> Option<u128> {
    l.iter().try_fold(0u128, |a, b| a.checked_add(*b))
}

impl Scenario for Setup {
    type Case = Case;
    fn name(&self) -> &'static str {
        "setup"
    }
    fn rule(&self) -> &'static str {
        "the set-up was decided by something other than a malformed message: it was carried out with at least two declared entries, or refused over supply, threshold, holders or the factory"
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let thr = prop_oneof![
            3 => Just(Thr::None),
            2 => prop_oneof![6 => 1u16..=1000, 1 => Just(0), 1 => Just(1000), 1 => Just(1001)].prop_map(Thr::Permille),
            4 => (0u8..3, -1i8..=1).prop_map(|(b, d)| Thr::Count(b, d)),
        ];
        let unstaking = option::of((any::<bool>(), prop_oneof![12 => 1u8..50, 1 => Just(0)]));
        (kind(), thr, unstaking, 0u8..5, any::<u8>())
            .prop_map(|(kind, thr, unstaking, funds, stakers)| Case { kind, thr, unstaking, funds, stakers })
            .boxed()
    }

    fn run(&self, case: &Case, cx: &mut Cx) -> R {
        let mut app = new_app();
        let core_code = app.store_code(code::core());
        let mock_code = app.store_code(code::mock());
        let factory = new_mock(&mut app);
        let bell = new_mock(&mut app);
        let native = matches!(
            case.kind,
            Kind::Native { .. } | Kind::NativeFactory { .. } | Kind::NativeExisting { .. } | Kind::Fan { .. }
        );
        let is_cw20 = matches!(case.kind, Kind::Cw20 { .. } | Kind::Cw20Existing { .. });
        let voting_code = app.store_code(if native {
            code::voting_token_staked()
        } else if is_cw20 {
            code::voting_cw20_staked()
        } else {
            code::voting_cw721_staked()
        });
        let cw721_code = app.store_code(code::cw721());
        let stake_code = app.store_code(code::cw20_stake());
        let cw20_code = app.store_code(code::cw20());
        // what is there beforehand
        let (mut token, mut staking) = (Addr::unchecked(""), Addr::unchecked(""));
        let btsg = match &case.kind {
            Kind::Fan { .. } => {
                let c = app.store_code(code::btsg_factory());
                harness(inst(&mut app, c, "anyone", &json!({}), &[], None))?
            }
            _ => Addr::unchecked("none"),
        };
        let before = match &case.kind {
            Kind::Cw20Existing { staking, .. } => 1 + [0u64, 1, 2, 0][*staking as usize],
            Kind::NftFactory { .. } | Kind::NftExisting { .. } => 1,
            _ => 0,
        };
        let n: u64 = harness(
            new_mock(&mut app).as_str().trim_start_matches("contract").parse::<u64>().map_err(|e| e.to_string()),
        )?;
        let at = |i: u64| format!("contract{}", n + before + i);
        let (dao, voting) = (at(1), at(2));
        let name = |i: u8| match i {
            NOBODY => "NOBODY".to_string(),
            DAO => dao.clone(),
            VOTING => voting.clone(),
            i => user(i as usize),
        };
        let sound = |i: u8| i != NOBODY;

        // thresholds and durations are checked alike for all kinds
        let unstaking = case.unstaking.map(|(t, n)| dur(t, n as u64));
        let dur_ok = when(case.unstaking.is_some_and(|x| x.1 == 0), "an empty unstaking duration");
        let count = |base: &[u128; 3]| match case.thr {
            Thr::Count(b, d) => Some((base[b as usize % 3] as i128).saturating_add(d as i128).max(0) as u128),
            _ => None,
        };
        let pct_ok = match case.thr {
            Thr::Permille(0) => Err("a threshold of nothing"),
            Thr::Permille(1001..) => Err("a threshold above everything"),
            _ => Ok(()),
        };
        let thr_json = |c: Option<u128>| -> Value {
            match case.thr {
                Thr::None => Value::Null,
                Thr::Permille(p) => json!({"percentage": {"percent": cosmwasm_std::Decimal::permille(p as u64)}}),
                Thr::Count(..) => json!({"absolute_count": {"count": Uint128::new(c.unwrap_or(0))}}),
            }
        };
        let within = |c: Option<u128>, supply: u128| -> V {
            match c {
                Some(0) => Err("a threshold of nothing"),
                Some(c) if c > supply => Err("a threshold that cannot be met"),
                _ => Ok(()),
            }
        };

        let mut held = Held::default();
        let mut want: V = dur_ok.and(pct_ok);
        let mut funds = 0u128;
        // coins the token's maker gets of those, and who that is
        let mut passed: Option<(String, u128)> = None;
        let mut denom = String::new();
        let entries;
        let mut bells = 0u64;
        let mut issuer: Option<String> = None;
        let count_used: Option<u128>;
        let mut trivial = false;

        let give = |held: &mut Held, i: u8, n: u128| *held.amounts.entry(name(i)).or_default() += n;
        let call_msgs = |calls: &Option<Vec<bool>>| {
            calls.as_ref().map(|l| {
                json!({"msgs": l.iter().map(|ok| {
                    let m = if *ok { json!({"hello": {}}) } else { json!({"fail": {}}) };
                    wasm_msg(&bell, &m)
                }).collect::<Vec<_>>()})
            })
        };
        // the message to a factory, or whatever stands in its place
        let order = |answer: &Answer, good: Value, wrong: Value, coins: u128| -> Binary {
            let data = match answer {
                Answer::Good => Some(to_json_binary(&good).unwrap()),
                Answer::Wrong => Some(to_json_binary(&wrong).unwrap()),
                Answer::Garbage => Some(Binary::from(b"?")),
                _ => None,
            };
            let msg = match answer {
                Answer::Fails => MockMsg::Fail {},
                _ => MockMsg::Make { msgs: vec![wasm_msg(&bell, &MockMsg::Bump {})], data },
            };
            let coins: Vec<Coin> = if coins > 0 { vec![coin(coins, "ucoin")] } else { vec![] };
            let msg = to_json_binary(&msg).unwrap();
            to_json_binary(&match answer {
                Answer::NoCall => {
                    WasmMsg::Migrate { contract_addr: factory.to_string(), new_code_id: mock_code, msg }
                }
                _ => WasmMsg::Execute { contract_addr: factory.to_string(), msg, funds: coins },
            })
            .unwrap()
        };
        let answer_ok = |a: &Answer| when(!matches!(a, Answer::Good), "the factory's answer");

        let msg = match &case.kind {
            Kind::Native { list, dao: own, meta, sub } => {
                let c = app.store_code(code::tf_issuer());
                funds = case.funds as u128;
                denom = format!("factory/{}/{}", at(3), ["cat", "tiger", "x"][*sub as usize]);
                issuer = Some(at(3));
                passed = Some((at(3), funds));
                entries = list.len();
                let amounts: Vec<u128> = list.iter().map(|x| x.1).collect();
                let initial = sum(&amounts);
                let total = initial.and_then(|i| i.checked_add(own.unwrap_or(0)));
                let c_thr = count(&[0, initial.unwrap_or(0), total.unwrap_or(0)]);
                count_used = c_thr;
                want = want
                    .and(when(total.is_none(), "more than can be counted"))
                    .and(within(c_thr, initial.unwrap_or(0)))
                    .and(when(initial == Some(0), "nobody has anything"))
                    .and(when(list.iter().any(|x| x.1 == 0), "an empty entry"))
                    .and(when(!list.iter().all(|x| sound(x.0)), "not an address"));
                if want.is_ok() {
                    for (w, n) in list {
                        give(&mut held, *w, *n);
                    }
                    give(&mut held, DAO, own.unwrap_or(0));
                }
                json!({
                    "token_info": {"new": {
                        "token_issuer_code_id": c,
                        "subdenom": (["cat", "tiger", "x"][*sub as usize]),
                        "metadata": meta.as_ref().map(|m| json!({
                            "name": texts(m.text), "description": texts(m.text + 1), "symbol": texts(m.text + 2),
                            "display": texts(m.display),
                            "additional_denom_units": m.units.as_ref().map(|u| u.iter().map(|(i, e)| json!({
                                "denom": texts(*i), "exponent": e.to_string(), "aliases": [texts(*i + 1)]
                            })).collect::<Vec<_>>()),
                        })),
                        "initial_balances": list.iter().map(|(w, n)| json!({"address": name(*w), "amount": Uint128::new(*n)})).collect::<Vec<_>>(),
                        "initial_dao_balance": own.map(Uint128::new),
                    }},
                    "unstaking_duration": unstaking, "active_threshold": thr_json(c_thr),
                })
            }
            Kind::NativeFactory { list, contract, calls, answer, funds: f } => {
                denom = "ufac".into();
                funds = case.funds as u128;
                passed = Some((factory.to_string(), *f as u128));
                entries = list.len();
                for (w, n) in list {
                    fund_account(&mut app, &name(*w), *n as u128, &denom);
                    give(&mut held, *w, *n as u128);
                }
                let total: u128 = held.amounts.values().sum();
                let others = total - held.amounts.get(&dao).copied().unwrap_or(0);
                let c_thr = count(&[0, others, total]);
                count_used = c_thr;
                let fails = calls.as_ref().is_some_and(|l| l.iter().any(|x| !x));
                want = want
                    .and(when(*f as u128 > funds, "more coins than there are"))
                    .and(answer_ok(answer))
                    .and(within(c_thr, others))
                    .and(when(others == 0, "nobody has anything"))
                    .and(when(contract.is_some_and(|w| !sound(w)), "not an address"))
                    .and(when(fails, "the DAO's first step fails"));
                if want.is_ok() {
                    bells = calls.as_ref().map(|l| l.len()).unwrap_or(0) as u64;
                    issuer = contract.map(name);
                }
                let good = json!({"denom": denom, "token_contract": contract.map(name), "module_instantiate_callback": call_msgs(calls)});
                let wrong = json!({"nft_contract": factory, "module_instantiate_callback": call_msgs(calls)});
                json!({
                    "token_info": {"factory": order(answer, good, wrong, *f as u128)},
                    "unstaking_duration": unstaking, "active_threshold": thr_json(c_thr),
                })
            }
            Kind::NativeExisting { list } => {
                denom = "uold".into();
                entries = list.len();
                for (w, n) in list {
                    fund_account(&mut app, &name(*w), *n as u128, &denom);
                    give(&mut held, *w, *n as u128);
                }
                let total: u128 = held.amounts.values().sum();
                let c_thr = count(&[0, total / 2, total]);
                count_used = c_thr;
                want = want.and(within(c_thr, total));
                json!({
                    "token_info": {"existing": {"denom": denom}},
                    "unstaking_duration": unstaking, "active_threshold": thr_json(c_thr),
                })
            }
            Kind::Fan { list, dao: own, room, text } => {
                denom = "ft1".into();
                entries = list.len();
                let amounts: Vec<u128> = list.iter().map(|x| x.1).collect();
                let initial = sum(&amounts);
                let total = initial.and_then(|i| i.checked_add(own.unwrap_or(0)));
                let max = total.unwrap_or(1000).saturating_add_signed(*room as i128);
                // the declared DAO's own share counts as the DAO's
                let daos: u128 = list.iter().filter(|x| x.0 == DAO).map(|x| x.1).fold(own.unwrap_or(0), u128::saturating_add);
                let others = total.map(|t| t - daos.min(t)).unwrap_or(0);
                let c_thr = count(&[0, others, total.unwrap_or(0)]);
                count_used = c_thr;
                want = want
                    .and(when(total.is_none(), "more than can be counted"))
                    .and(when(list.iter().any(|x| x.1 == 0), "an empty entry"))
                    .and(when(!list.iter().all(|x| sound(x.0)), "not an address"))
                    .and(when(total.is_some_and(|t| t > max), "above the maximal supply"))
                    .and(within(c_thr, others))
                    .and(when(others == 0, "nobody has anything"));
                if want.is_ok() {
                    for (w, n) in list {
                        give(&mut held, *w, *n);
                    }
                    give(&mut held, DAO, own.unwrap_or(0));
                }
                let issue = json!({"issue": {
                    "symbol": texts(*text), "name": texts(*text + 1), "uri": texts(*text + 2), "max_supply": Uint128::new(max),
                    "initial_balances": list.iter().map(|(w, n)| json!({"address": name(*w), "amount": Uint128::new(*n)})).collect::<Vec<_>>(),
                    "initial_dao_balance": own.map(Uint128::new),
                }});
                json!({
                    "token_info": {"factory": to_json_binary(&wasm_of(wasm_msg(&btsg, &issue))).unwrap()},
                    "unstaking_duration": unstaking, "active_threshold": thr_json(c_thr),
                })
            }
            Kind::Cw20 { list, dao: own, decimals, text, marketing } => {
                token = Addr::unchecked(at(3));
                staking = Addr::unchecked(at(4));
                entries = list.len();
                let amounts: Vec<u128> = list.iter().map(|x| x.1).collect();
                let initial = sum(&amounts);
                let total = initial.and_then(|i| i.checked_add(own.unwrap_or(0)));
                let c_thr = count(&[0, initial.unwrap_or(0), total.unwrap_or(0)]);
                count_used = c_thr;
                let mut named: Vec<u8> = list.iter().map(|x| x.0).collect();
                if own.unwrap_or(0) > 0 {
                    named.push(DAO);
                }
                let names = named.len();
                named.sort();
                named.dedup();
                want = want
                    .and(when(initial == Some(0), "nobody has anything"))
                    .and(when(total.is_none(), "more than can be counted"))
                    .and(when(named.len() != names, "somebody twice"))
                    .and(when(named.contains(&NOBODY), "not an address"))
                    .and(when(*decimals > 18, "decimals"))
                    .and(within(c_thr, total.unwrap_or(0)))
                    .and(when(marketing.is_some_and(|m| m.0 == NOBODY), "not an address"));
                if want.is_ok() {
                    for (w, n) in list {
                        give(&mut held, *w, *n);
                    }
                    give(&mut held, DAO, own.unwrap_or(0));
                }
                json!({
                    "token_info": {"new": {
                        "code_id": cw20_code, "label": "token", "name": texts(*text), "symbol": (["CAT", "dog-x", "abc", "TIGER"][*text as usize % 4]),
                        "decimals": decimals,
                        "initial_balances": list.iter().map(|(w, n)| json!({"address": name(*w), "amount": Uint128::new(*n)})).collect::<Vec<_>>(),
                        "marketing": marketing.as_ref().map(|(w, logo)| json!({
                            "project": "proj", "description": "about", "marketing": name(*w),
                            "logo": if *logo { json!({"url": "http://x"}) } else { Value::Null },
                        })),
                        "staking_code_id": stake_code, "unstaking_duration": unstaking,
                        "initial_dao_balance": own.map(Uint128::new),
                    }},
                    "active_threshold": thr_json(c_thr),
                })
            }
            Kind::Cw20Existing { list, staking: which } => {
                entries = list.len();
                let mut l: BTreeMap<String, u128> = BTreeMap::new();
                for (w, n) in list {
                    *l.entry(name(*w)).or_default() += *n as u128;
                }
                token = new_cw20(&mut app, &l.clone().into_iter().collect::<Vec<_>>());
                held.amounts = l;
                let total: u128 = held.amounts.values().sum();
                let c_thr = count(&[0, total / 2, total]);
                count_used = c_thr;
                let mut info = json!({"new": {"staking_code_id": stake_code, "unstaking_duration": unstaking}});
                if *which > 0 {
                    let mut of = token.clone();
                    if *which == 2 {
                        of = new_cw20(&mut app, &[]);
                    }
                    staking = if *which == 3 {
                        // a contract, but no staking contract
                        factory.clone()
                    } else {
                        harness(inst(&mut app, stake_code, "owner", &json!({
                            "owner": "owner", "token_address": of, "unstaking_duration": {"height": 7}
                        }), &[], None))?
                    };
                    info = json!({"existing": {"staking_contract_address": staking}});
                    want = pct_ok.and(when(*which != 1, "staking of another token"));
                } else {
                    staking = Addr::unchecked(at(3));
                }
                want = want.and(within(c_thr, total));
                json!({
                    "token_info": {"existing": {"address": token, "staking_contract": info}},
                    "active_threshold": thr_json(c_thr),
                })
            }
            Kind::Nft { first, text, bad } => {
                token = Addr::unchecked(at(3));
                entries = first.len();
                let (mut owned, mut broken) = (true, None);
                let mut msgs = vec![];
                for f in first {
                    let own = |id: u8, held: &Held| held.nfts.get(&format!("n{id}")).is_some_and(|x| x.0 == voting);
                    let (m, ok) = match f {
                        First::Mint { id, to, uri } => {
                            let t = format!("n{id}");
                            let uri = uri.then(|| format!("http://{id}"));
                            let ok = owned && sound(*to) && !held.nfts.contains_key(&t);
                            let m = json!({"mint": {"token_id": t, "owner": name(*to), "token_uri": uri, "extension": {}}});
                            held.nfts.insert(t, (name(*to), uri));
                            (m, ok)
                        }
                        First::Burn(id) => {
                            let ok = own(*id, &held);
                            held.nfts.remove(&format!("n{id}"));
                            (json!({"burn": {"token_id": format!("n{id}")}}), ok)
                        }
                        First::Move { id, to } => {
                            let ok = own(*id, &held);
                            if let Some(x) = held.nfts.get_mut(&format!("n{id}")) {
                                x.0 = name(*to);
                            }
                            (json!({"transfer_nft": {"token_id": format!("n{id}"), "recipient": name(*to)}}), ok)
                        }
                        First::Renounce => {
                            owned = false;
                            (json!({"update_ownership": "renounce_ownership"}), true)
                        }
                        First::Garbage => (json!({"mint": {"tok": 1}}), false),
                    };
                    if !ok && broken.is_none() {
                        broken = Some("a first message fails");
                    }
                    msgs.push(to_json_binary(&m).unwrap());
                }
                let supply = held.nfts.len() as u128;
                let c_thr = count(&[0, supply / 2, supply]);
                count_used = c_thr;
                trivial = *bad || msgs.is_empty();
                want = want
                    .and(when(*bad, "not a message for a collection"))
                    .and(when(msgs.is_empty(), "no tokens"))
                    .and(broken.map(Err).unwrap_or(Ok(())))
                    .and(when(!owned, "the collection cannot be handed over"))
                    .and(when(supply == 0, "no tokens"))
                    .and(within(c_thr, supply));
                let make = if *bad {
                    json!({"name": texts(*text)})
                } else {
                    json!({"name": texts(*text), "symbol": texts(*text + 1), "minter": (["user0", "NOBODY", "admin"][*text as usize % 3])})
                };
                json!({
                    "nft_contract": {"new": {
                        "code_id": cw721_code, "label": "nfts", "msg": to_json_binary(&make).unwrap(), "initial_nfts": msgs,
                    }},
                    "unstaking_duration": unstaking, "active_threshold": thr_json(c_thr),
                })
            }
            Kind::NftFactory { list, what, calls, answer, funds: f } => {
                token = collection(&mut app, cw721_code, list, &name, &mut held)?;
                entries = list.len();
                funds = case.funds as u128;
                passed = Some((factory.to_string(), *f as u128));
                let supply = list.len() as u128;
                let c_thr = count(&[0, supply / 2, supply]);
                count_used = c_thr;
                let fails = calls.as_ref().is_some_and(|l| l.iter().any(|x| !x));
                // the factory, not the module, answers for the threshold's count
                want = want
                    .and(when(*f as u128 > funds, "more coins than there are"))
                    .and(answer_ok(answer))
                    .and(when(*what > 0, "not a collection"))
                    .and(when(fails, "the DAO's first step fails"));
                if want.is_ok() {
                    bells = calls.as_ref().map(|l| l.len()).unwrap_or(0) as u64;
                }
                let shown = [token.to_string(), bell.to_string(), "NOBODY".into()][*what as usize].clone();
                let good = json!({"nft_contract": shown, "module_instantiate_callback": call_msgs(calls)});
                let wrong = json!({"denom": "uold", "token_contract": null, "module_instantiate_callback": call_msgs(calls)});
                json!({
                    "nft_contract": {"factory": order(answer, good, wrong, *f as u128)},
                    "unstaking_duration": unstaking, "active_threshold": thr_json(c_thr),
                })
            }
            Kind::NftExisting { list } => {
                token = collection(&mut app, cw721_code, list, &name, &mut held)?;
                entries = list.len();
                let supply = list.len() as u128;
                let c_thr = count(&[0, supply / 2, supply]);
                count_used = c_thr;
                want = want.and(within(c_thr, supply));
                json!({
                    "nft_contract": {"existing": {"address": token}},
                    "unstaking_duration": unstaking, "active_threshold": thr_json(c_thr),
                })
            }
        };

        // creation
        let mut v = module(voting_code, to_json_binary(&msg).unwrap());
        if funds > 0 {
            v.funds = vec![coin(funds, "ucoin")];
            fund_account(&mut app, "creator", funds, "ucoin");
        }
        let made = inst(
            &mut app,
            core_code,
            "creator",
            &CoreMsg {
                admin: Some("admin".into()),
                name: "dao".into(),
                description: "".into(),
                image_url: None,
                automatically_add_cw20s: false,
                automatically_add_cw721s: false,
                voting_module_instantiate_info: v.clone(),
                proposal_modules_instantiate_info: vec![module(mock_code, Binary::from(b"{}"))],
                initial_items: None,
                dao_uri: None,
            },
            &v.funds,
            None,
        );
        cx.log(|| format!("{msg} -> {want:?}"));
        agree("setting up a DAO", &made, &want, T)?;
        if !trivial && dur_ok.is_ok() && pct_ok.is_ok() && (want.is_err() || entries > 1) {
            cx.nontrivial = true;
        }
        if want.is_err() {
            cx.label("refused");
            ensure_eq!(bank(&app, "creator", "ucoin"), funds, @T, "the coins for a DAO that was not set up");
            for i in 1..6 {
                let c = app.wrap().query_wasm_contract_info(at(i));
                ensure!(c.is_err(), @T, "a contract of a DAO that was not set up");
            }
            ensure_eq!(mock_count(&app, &bell), 0, @T, "what the factory did for a DAO that was not set up");
            return Ok(());
        }
        cx.label(match &case.kind {
            Kind::Native { .. } => "new native token",
            Kind::NativeFactory { .. } => "native token of a factory",
            Kind::NativeExisting { .. } => "existing native token",
            Kind::Fan { .. } => "fan token",
            Kind::Cw20 { .. } => "new cw20",
            Kind::Cw20Existing { .. } => "existing cw20",
            Kind::Nft { .. } => "new collection",
            Kind::NftFactory { .. } => "collection of a factory",
            Kind::NftExisting { .. } => "existing collection",
        });
        let core = harness(made)?;
        ensure_eq!(core.to_string(), dao, "the DAO's predicted address");
        let dao = core.clone();
        let voting = Addr::unchecked(at(2));
        let admin_of = |app: &VApp, c: &str| app.wrap().query_wasm_contract_info(c).ok().and_then(|i| i.admin);
        let said: Addr = q(&app, &dao, &json!({"voting_module": {}}))?;
        ensure_eq!(said, voting, @T, "the DAO's voting module");
        let said: Addr = q(&app, &voting, &json!({"dao": {}}))?;
        ensure_eq!(said, dao, @T, "the module's DAO");
        let thr: Value = q(&app, &voting, &json!({"active_threshold": {}}))?;
        ensure_eq!(thr, json!({"active_threshold": thr_json(count_used)}), @T, "the active threshold");

        // coins: passed on as declared, the rest with the module
        if let Some((who, n)) = &passed {
            ensure_eq!(bank(&app, who, "ucoin"), *n, @T, "coins passed on");
            ensure_eq!(bank(&app, voting.as_str(), "ucoin"), funds - n, @T, "coins left");
        }
        // what the factory and the DAO were told to do
        let log = mock_log(&app, &bell);
        ensure_eq!(log.len() as u64, bells, @T, "the DAO's first steps");
        for l in log {
            ensure_eq!(l["from"], json!(dao), @T, "who took the first steps");
        }
        if let Kind::NativeFactory { .. } | Kind::NftFactory { .. } = &case.kind {
            ensure_eq!(mock_count(&app, &bell), 1, @T, "what the factory did");
        }

        // the token
        if native {
            let d: Value = q(&app, &voting, &json!({"denom": {}}))?;
            ensure_eq!(d, json!({"denom": denom}), @T, "the module's token");
            let c: Value = q(&app, &voting, &json!({"token_contract": {}}))?;
            ensure_eq!(c, json!(issuer), @T, "the token's contract");
            let c: Value = q(&app, &voting, &json!({"get_config": {}}))?;
            ensure_eq!(c["unstaking_duration"], json!(unstaking), @T, "the unstaking duration");
            let supply = harness(app.wrap().query_supply(&denom).map_err(|e| e.to_string()))?;
            ensure_eq!(supply.amount.u128(), held.amounts.values().sum::<u128>(), @T, "the supply");
            for (w, n) in &held.amounts {
                ensure_eq!(bank(&app, w, &denom), *n, @T, "what {w} holds");
            }
        } else if is_cw20 {
            let t: Addr = q(&app, &voting, &json!({"token_contract": {}}))?;
            ensure_eq!(t, token, @T, "the module's token");
            let s: Addr = q(&app, &voting, &json!({"staking_contract": {}}))?;
            ensure_eq!(s, staking, @T, "the module's staking contract");
            let c: Value = q(&app, &staking, &json!({"get_config": {}}))?;
            let fresh = !matches!(case.kind, Kind::Cw20Existing { staking: 1, .. });
            let d = if fresh { json!(unstaking) } else { json!({"height": 7}) };
            ensure_eq!(c, json!({"token_address": token, "unstaking_duration": d}), @T, "the staking contract's configuration");
            if fresh {
                let o: Value = q(&app, &staking, &json!({"ownership": {}}))?;
                ensure_eq!(o, json!({"owner": dao, "pending_owner": null, "pending_expiry": null}), @T, "the staking contract's owner");
                ensure_eq!(admin_of(&app, staking.as_str()), Some(dao.to_string()), @T, "the staking contract's admin");
            }
            let i: Value = q(&app, &token, &json!({"token_info": {}}))?;
            ensure_eq!(i["total_supply"], json!(Uint128::new(held.amounts.values().sum())), @T, "the supply");
            let a: Value = q(&app, &token, &json!({"all_accounts": {"limit": 30}}))?;
            for w in a["accounts"].as_array().unwrap() {
                let w = w.as_str().unwrap();
                ensure_eq!(cw20_balance(&app, &token, w), held.amounts.get(w).copied().unwrap_or(0), @T, "what {w} holds");
            }
        } else {
            let c: Value = q(&app, &voting, &json!({"config": {}}))?;
            ensure_eq!(c, json!({"nft_address": token, "unstaking_duration": unstaking}), @T, "the module's configuration");
            let a: Value = q(&app, &token, &json!({"all_tokens": {"limit": 30}}))?;
            ensure_eq!(a["tokens"], json!(held.nfts.keys().collect::<Vec<_>>()), @T, "the tokens");
            for (t, (w, uri)) in &held.nfts {
                let a: Value = q(&app, &token, &json!({"all_nft_info": {"token_id": t}}))?;
                ensure_eq!(a["access"], json!({"owner": w, "approvals": []}), @T, "who owns {t}");
                ensure_eq!(a["info"]["token_uri"], json!(uri), @T, "what {t} is");
            }
        }

        // whose the token is, and what was declared of it
        match &case.kind {
            Kind::Native { meta, sub, .. } => {
                let issuer = Addr::unchecked(at(3));
                let chain = tf_denom(&app, &denom).ok_or_else(|| Fail::new("no such token").tag(T))?;
                ensure_eq!(chain.admin, issuer.to_string(), @T, "the token's admin");
                ensure_eq!(chain.hook, "", @T, "the token's hook");
                ensure_eq!(admin_of(&app, issuer.as_str()), Some(dao.to_string()), @T, "the issuer's admin");
                let o: Value = q(&app, &issuer, &json!({"ownership": {}}))?;
                ensure_eq!(o, json!({"owner": dao, "pending_owner": null, "pending_expiry": null}), @T, "the issuer's owner");
                for l in ["mint_allowances", "burn_allowances"] {
                    let a: Value = q(&app, &issuer, &json!({l: {}}))?;
                    ensure_eq!(a["allowances"], json!([]), @T, "{l} left");
                }
                match (meta, chain.metadata) {
                    (None, None) => {}
                    (Some(m), Some(c)) => {
                        let mut units = vec![(denom.clone(), 0, vec![["cat", "tiger", "x"][*sub as usize].to_string()])];
                        for (i, e) in m.units.iter().flatten() {
                            units.push((texts(*i).to_string(), *e, vec![texts(*i + 1).to_string()]));
                        }
                        units.sort_by_key(|u| u.1);
                        let got: Vec<_> = c.denom_units.iter().map(|u| (u.denom.clone(), u.exponent, u.aliases.clone())).collect();
                        ensure_eq!(got, units, @T, "the token's units");
                        ensure_eq!(
                            (c.base.as_str(), c.name.as_str(), c.description.as_str(), c.symbol.as_str(), c.display.as_str()),
                            (denom.as_str(), texts(m.text), texts(m.text + 1), texts(m.text + 2), texts(m.display)), @T, "the token's description");
                        cx.label("described token");
                    }
                    (m, c) => return Err(Fail::new(format!("declared {m:?}, set {c:?}")).tag(T)),
                }
                // the DAO, and nobody else, can make more
                let grant = |who: &str| json!({"set_minter_allowance": {"address": who, "allowance": "5"}});
                for w in [voting.as_str(), "creator", "admin"] {
                    let r = exec(&mut app, w, &issuer, &grant(w), &[]);
                    agree("minting by another", &r, &Err("not the owner"), T)?;
                }
                let r = as_dao(&mut app, &dao, vec![
                    wasm_msg(&issuer, &grant(dao.as_str())),
                    wasm_msg(&issuer, &json!({"mint": {"to_address": "late", "amount": "5"}})),
                ]);
                // a supply at the chain's limit cannot grow
                if held.amounts.values().sum::<u128>() < u128::MAX - 5 {
                    agree("minting by the DAO", &r, &Ok(()), T)?;
                    ensure_eq!(bank(&app, "late", &denom), 5, @T, "newly minted");
                }
            }
            Kind::Fan { text, .. } => {
                let f = fan_token(&app, "ft1").ok_or_else(|| Fail::new("no such token").tag(T))?;
                ensure_eq!((f.minter, f.authority), (dao.to_string(), dao.to_string()), @T, "whose the token is");
                ensure_eq!((f.symbol.as_str(), f.name.as_str(), f.uri.as_str()), (texts(*text), texts(*text + 1), texts(*text + 2)), @T, "the token's description");
                ensure!(fan_token(&app, "ft2").is_none(), @T, "a second token");
            }
            Kind::Cw20 { decimals, text, marketing, .. } => {
                let i: Value = q(&app, &token, &json!({"token_info": {}}))?;
                ensure_eq!(
                    (&i["name"], &i["symbol"], &i["decimals"]),
                    (&json!(texts(*text)), &json!(["CAT", "dog-x", "abc", "TIGER"][*text as usize % 4]), &json!(decimals)), @T, "the token's description");
                let m: Value = q(&app, &token, &json!({"minter": {}}))?;
                ensure_eq!(m, json!({"minter": dao, "cap": null}), @T, "the minter");
                let m: Value = q(&app, &token, &json!({"marketing_info": {}}))?;
                let want = match marketing {
                    None => json!({"project": null, "description": null, "logo": null, "marketing": null}),
                    Some((w, logo)) => json!({
                        "project": "proj", "description": "about", "marketing": name(*w),
                        "logo": if *logo { json!({"url": "http://x"}) } else { Value::Null },
                    }),
                };
                ensure_eq!(m, want, @T, "the marketing");
                ensure_eq!(admin_of(&app, token.as_str()), Some(dao.to_string()), @T, "the token's admin");
            }
            Kind::Nft { text, .. } => {
                let i: Value = q(&app, &token, &json!({"contract_info": {}}))?;
                ensure_eq!(i, json!({"name": texts(*text), "symbol": texts(*text + 1)}), @T, "the collection's description");
                let o: Value = q(&app, &token, &json!({"ownership": {}}))?;
                ensure_eq!(o, json!({"owner": dao, "pending_owner": null, "pending_expiry": null}), @T, "the collection's owner");
                ensure_eq!(admin_of(&app, token.as_str()), Some(dao.to_string()), @T, "the collection's admin");
                let mint = |id: &str| json!({"mint": {"token_id": id, "owner": "late", "token_uri": null, "extension": {}}});
                for w in [voting.as_str(), "creator", "admin", "user0"] {
                    let r = exec(&mut app, w, &token, &mint("late"), &[]);
                    agree("minting by another", &r, &Err("not the owner"), T)?;
                }
                let r = as_dao(&mut app, &dao, vec![wasm_msg(&token, &mint("late"))]);
                agree("minting by the DAO", &r, &Ok(()), T)?;
            }
            _ => {}
        }

        // what holders have counts, once staked
        let mut power: BTreeMap<String, u128> = BTreeMap::new();
        for i in 0..USERS {
            if case.stakers >> i & 1 == 0 {
                continue;
            }
            let w = user(i as usize);
            if native || is_cw20 {
                let n = held.amounts.get(&w).copied().unwrap_or(0);
                if n == 0 {
                    continue;
                }
                let r = if native {
                    exec(&mut app, &w, &voting, &json!({"stake": {}}), &[coin(n, &denom)])
                } else {
                    exec(&mut app, &w, &token, &json!({"send": {
                        "contract": staking, "amount": Uint128::new(n), "msg": to_json_binary(&json!({"stake": {}})).unwrap()
                    }}), &[])
                };
                agree("staking", &r, &Ok(()), T)?;
                power.insert(w, n);
            } else {
                for t in held.nfts.iter().filter(|x| x.1 .0 == w).map(|x| x.0) {
                    let r = exec(&mut app, &w, &token, &json!({"send_nft": {
                        "contract": voting, "token_id": t, "msg": Binary::from(b"{}")
                    }}), &[]);
                    agree("staking", &r, &Ok(()), T)?;
                    *power.entry(w.clone()).or_default() += 1;
                }
            }
        }
        advance(&mut app, 1, 5);
        let total: u128 = power.values().sum();
        for i in 0..USERS {
            let w = user(i as usize);
            let p: Value = q(&app, &dao, &json!({"voting_power_at_height": {"address": w, "height": null}}))?;
            ensure_eq!(p["power"], json!(Uint128::new(power.get(&w).copied().unwrap_or(0))), @T, "the power of {w}");
        }
        let p: Value = q(&app, &dao, &json!({"total_power_at_height": {"height": null}}))?;
        ensure_eq!(p["power"], json!(Uint128::new(total)), @T, "the total power");
        if let Some(c) = count_used {
            let a: Value = q(&app, &voting, &json!({"is_active": {}}))?;
            ensure_eq!(a, json!({"active": total >= c}), @T, "whether the DAO is active, with {total} of {c}");
        }
        if total > 0 {
            cx.label("staked");
        }
        Ok(())
    }
}

fn wasm_of(m: CosmosMsg) -> WasmMsg {
    match m {
        CosmosMsg::Wasm(m) => m,
        _ => unreachable!(),
    }
}

fn collection(app: &mut VApp, code: u64, list: &[u8], name: &impl Fn(u8) -> String, held: &mut Held) -> R<Addr> {
    let c = harness(inst(app, code, "minter", &json!({"name": "n", "symbol": "s", "minter": "minter"}), &[], None))?;
    for (i, w) in list.iter().enumerate() {
        let id = format!("n{i}");
        harness(exec(app, "minter", &c, &json!({"mint": {"token_id": id, "owner": name(*w), "token_uri": null, "extension": {}}}), &[]))?;
        held.nfts.insert(id, (name(*w), None));
    }
    Ok(c)
}
