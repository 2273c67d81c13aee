//! DAOs whose voting power is staked NFTs: cw721 tokens sent in, or chain-native ONFTs staked
//! by preparing, moving and confirming.

use std::collections::BTreeSet;

use cosmwasm_std::{to_json_binary, Addr, BlockInfo};
use cw_utils::{Duration, Expiration};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use super::common::*;
use super::stakes::{dur_s, thr, zero, Focus, Stakes, Thr};
use crate::env::*;
use crate::fw::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pick {
    /// one of those the actor would sensibly choose
    Own(u8),
    Any(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Transfer { by: u8, tok: Pick, to: u8 },
    Stake { by: u8, toks: Vec<Pick> },
    /// the steps of the two-step protocol on their own
    Prepare { by: u8, toks: Vec<Pick> },
    Confirm { by: u8, toks: Vec<Pick> },
    Cancel { by: u8, toks: Vec<Pick>, to: Option<u8> },
    Unstake { by: u8, toks: Vec<Pick> },
    /// everything one has staked, or a round number of them
    UnstakeMany { by: u8, n: u8 },
    StakeMany { by: u8 },
    Claim { by: u8 },
    Foreign { by: u8, forged: bool },
    Config { by: u8, dur: Option<(bool, u8)> },
    Threshold { by: u8, thr: Thr },
    Hook { by: u8, add: bool, hook: u8 },
    Break { hook: u8, fail: bool },
    Mint { to: u8, n: u8 },
    Burn { by: u8, tok: Pick },
    Propose { by: u8 },
    Advance { blocks: u8, secs: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub owners: Vec<u8>,
    pub dur: Option<(bool, u8)>,
    pub thr: Thr,
    /// cw721: 0 existing, 1 new, 2 new without tokens, 3 new with nothing minted
    pub setup: u8,
    pub ops: Vec<Op>,
}

pub struct Nfts {
    pub onft: bool,
    pub focus: Focus,
}

const DAO: usize = 4;
const MODULE: usize = 5;
const MAX_CLAIMS: usize = 70;
const THR: Stakes = Stakes { cw20: true, focus: Focus::Activity };

fn pick() -> BoxedStrategy<Pick> {
    prop_oneof![14 => any::<u8>().prop_map(Pick::Own), 1 => any::<u8>().prop_map(Pick::Any)].boxed()
}
fn picks(max: usize) -> BoxedStrategy<Vec<Pick>> {
    prop_oneof![14 => prop::collection::vec(pick(), 1..=max), 1 => Just(vec![])].boxed()
}
fn op(s: &Nfts) -> BoxedStrategy<Op> {
    let a = if s.focus == Focus::Activity { 8 } else { 2 };
    let two = if s.onft { 8 } else { 1 };
    let u = || 0u8..4;
    let who = || prop_oneof![6 => Just(DAO as u8), 1 => u()];
    let to = || prop_oneof![4 => 0u8..4, 1 => Just(4u8), 3 => Just(5u8)];
    prop_oneof![
        6 => (u(), pick(), to()).prop_map(|(by, tok, to)| Op::Transfer { by, tok, to }),
        14 => (u(), picks(3)).prop_map(|(by, toks)| Op::Stake { by, toks }),
        two => (u(), picks(3)).prop_map(|(by, toks)| Op::Prepare { by, toks }),
        two => (u(), picks(3)).prop_map(|(by, toks)| Op::Confirm { by, toks }),
        two => (0u8..5, picks(2), prop::option::of(to())).prop_map(|(by, toks, to)| Op::Cancel { by, toks, to }),
        12 => (u(), picks(3)).prop_map(|(by, toks)| Op::Unstake { by, toks }),
        2 => (u(), prop_oneof![Just(255u8), 30u8..75]).prop_map(|(by, n)| Op::UnstakeMany { by, n }),
        2 => u().prop_map(|by| Op::StakeMany { by }),
        8 => u().prop_map(|by| Op::Claim { by }),
        1 => (u(), any::<bool>()).prop_map(|(by, forged)| Op::Foreign { by, forged }),
        2 => (who(), dur_s()).prop_map(|(by, dur)| Op::Config { by, dur }),
        a => (who(), thr()).prop_map(|(by, thr)| Op::Threshold { by, thr }),
        2 => (who(), prop::bool::weighted(0.65), prop_oneof![8 => 0u8..3, 1 => Just(3u8)]).prop_map(|(by, add, hook)| Op::Hook { by, add, hook }),
        1 => (0u8..3, prop::bool::weighted(0.4)).prop_map(|(hook, fail)| Op::Break { hook, fail }),
        2 => (u(), 1u8..5).prop_map(|(to, n)| Op::Mint { to, n }),
        a / 2 => (u(), pick()).prop_map(|(by, tok)| Op::Burn { by, tok }),
        a => u().prop_map(|by| Op::Propose { by }),
        8 => (0u8..5, 0u8..20).prop_map(|(blocks, secs)| Op::Advance { blocks, secs }),
    ]
    .boxed()
}

#[derive(Clone, Debug)]
struct Model {
    /// who holds each token; nobody once burned
    held: Vec<Option<usize>>,
    staked: Vec<Option<usize>>,
    prepared: Vec<Option<usize>>,
    claims: [Vec<(usize, Expiration)>; 4],
    dur: Option<Duration>,
    thr: Option<Value>,
    hooks: Vec<usize>,
    fails: [bool; 3],
    logs: [Vec<Value>; 3],
    proposals: u64,
}
impl Model {
    fn power(&self) -> [u128; 4] {
        let mut p = [0; 4];
        for s in self.staked.iter().flatten() {
            p[*s] += 1;
        }
        p
    }
    fn total(&self) -> u128 {
        self.power().iter().sum()
    }
    fn supply(&self) -> u128 {
        self.held.iter().flatten().count() as u128
    }
    fn unbonding(&self, tok: usize) -> bool {
        self.claims.iter().flatten().any(|c| c.0 == tok)
    }
}

struct World {
    app: VApp,
    core: Addr,
    voting: Addr,
    pm: Pm,
    nft: Addr,
    other: Addr,
    recv: [Addr; 3],
    minter: Option<String>,
}
type Hist = Vec<(u64, [u128; 4])>;

const COLL: &str = "onftdenom1";

fn id(i: usize) -> String {
    i.to_string()
}
fn onft_msg(url: &str, value: impl omniflix_std_prost::Enc) -> cosmwasm_std::CosmosMsg {
    cosmwasm_std::CosmosMsg::Stargate { type_url: url.into(), value: value.enc() }
}
mod omniflix_std_prost {
    pub trait Enc {
        fn enc(self) -> cosmwasm_std::Binary;
    }
    macro_rules! e {
        ($($t:ty),*) => { $(impl Enc for $t { fn enc(self) -> cosmwasm_std::Binary { self.to_proto_bytes().into() } })* };
    }
    use omniflix_std::types::omniflix::onft::v1beta1::*;
    e!(MsgCreateDenom, MsgMintOnft, MsgTransferOnft);
}

impl World {
    fn name(&self, i: usize) -> String {
        match i {
            DAO => self.core.to_string(),
            MODULE => self.voting.to_string(),
            _ => user(i),
        }
    }
    fn run(&mut self, who: usize, to: &Addr, m: &Value) -> Result<(), String> {
        if who == DAO {
            let m = wasm_msg(to, m);
            as_dao(&mut self.app, &self.core.clone(), vec![m])
        } else {
            exec(&mut self.app, &user(who), to, m, &[]).map(|_| ())
        }
    }
    fn to_voting(&mut self, who: usize, m: &Value) -> Result<(), String> {
        let v = self.voting.clone();
        self.run(who, &v, m)
    }
}

fn mint(app: &mut VApp, onft: bool, nft: &Addr, minter: &str, core: Option<&Addr>, to: &str, i: usize) -> R {
    use omniflix_std::types::omniflix::onft::v1beta1 as p;
    if onft {
        let m = p::MsgMintOnft { id: id(i), denom_id: COLL.into(), sender: "minter".into(), recipient: to.into(), ..Default::default() };
        return harness(exec_msg(app, "minter", onft_msg("/OmniFlix.onft.v1beta1.MsgMintONFT", m)).map(|_| ()));
    }
    let m = json!({"mint": {"token_id": id(i), "owner": to, "token_uri": null, "extension": {}}});
    match core {
        Some(c) => harness(as_dao(app, c, vec![wasm_msg(nft, &m)])),
        None => harness(exec(app, minter, nft, &m, &[]).map(|_| ())),
    }
}

impl Scenario for Nfts {
    type Case = Case;
    fn name(&self) -> &'static str {
        if self.onft {
            "nfts-onft"
        } else {
            "nfts-cw721"
        }
    }
    fn rule(&self) -> &'static str {
        match self.focus {
            Focus::Custody => "at least two users staked, NFTs were unstaked and came back, and time passed in between",
            Focus::Activity => "the DAO was both active and inactive with a threshold set",
        }
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let setup = prop_oneof![6 => 0u8..2, 1 => 2u8..4];
        let t = match self.focus {
            Focus::Activity => prop_oneof![1 => Just(Thr::Off), 4 => thr()].boxed(),
            Focus::Custody => prop_oneof![8 => Just(Thr::Off), 1 => thr()].boxed(),
        };
        let owners = prop_oneof![
            16 => prop::collection::vec(0u8..4, 3..16),
            1 => (0u8..4, 72usize..84).prop_map(|(o, n)| vec![o; n]),
        ];
        (owners, dur_s(), t, setup, prop::collection::vec(op(self), 10..50))
            .prop_map(|(owners, dur, thr, setup, mut ops)| {
                if owners.len() > 70 {
                    let (by, n) = (owners[0], 64 + ops.len() as u8 % 10);
                    ops.insert(0, Op::StakeMany { by });
                    ops.insert(1, Op::UnstakeMany { by, n });
                    ops.truncate(20);
                }
                Case { owners, dur, thr, setup, ops }
            })
            .boxed()
    }

    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        use omniflix_std::types::omniflix::onft::v1beta1 as p;
        let t = self.own();
        let mut app = new_app();
        let recv = [new_mock(&mut app), new_mock(&mut app), new_mock(&mut app)];
        let setup = if self.onft { 0 } else { c.setup };
        let n = c.owners.len();
        let thr0 = THR.thr(&c.thr, 0, n as u128);
        let mut ok = THR.thr_ok(&thr0, n as u128, true);
        let unstaking = c.dur.map(|(t, n)| dur(t, n as u64));
        if unstaking.map_or(false, |d| zero(&d)) {
            ok = Err("an unbonding period of nothing");
        }
        let code721 = app.store_code(code::cw721());
        let coll = |app: &mut VApp, who: &str| inst(app, code721, who, &json!({"name": "n", "symbol": "N", "minter": who}), &[], None);
        let other = coll(&mut app, "minter").unwrap();
        mint(&mut app, false, &other, "minter", None, &user(0), 0)?;
        let init;
        let code_id;
        let mut nft = other.clone();
        if self.onft {
            code_id = app.store_code(code::voting_onft_staked());
            for c in [COLL, "onftdenom2"] {
                let m = p::MsgCreateDenom { id: c.into(), symbol: "C".into(), name: "C".into(), sender: "minter".into(), ..Default::default() };
                harness(exec_msg(&mut app, "minter", onft_msg("/OmniFlix.onft.v1beta1.MsgCreateDenom", m)))?;
            }
            for (i, o) in c.owners.iter().enumerate() {
                mint(&mut app, true, &nft, "minter", None, &user(*o as usize), i)?;
            }
            init = json!({"onft_collection": {"existing": {"id": COLL}}, "unstaking_duration": unstaking, "active_threshold": thr0});
        } else {
            code_id = app.store_code(code::voting_cw721_staked());
            let nc = if setup == 0 {
                nft = coll(&mut app, "minter").unwrap();
                for (i, o) in c.owners.iter().enumerate() {
                    mint(&mut app, false, &nft, "minter", None, &user(*o as usize), i)?;
                }
                json!({"existing": {"address": nft}})
            } else {
                let msgs: Vec<_> = match setup {
                    1 => c.owners.iter().enumerate().map(|(i, o)| json!({"mint": {"token_id": id(i), "owner": user(*o as usize), "token_uri": null, "extension": {}}})).collect(),
                    2 => vec![],
                    _ => vec![json!({"approve_all": {"operator": "x", "expires": null}})],
                };
                if setup >= 2 {
                    ok = Err("nothing minted");
                }
                let msgs: Vec<_> = msgs.iter().map(|m| to_json_binary(m).unwrap()).collect();
                let m = to_json_binary(&json!({"name": "new", "symbol": "NEW", "minter": "someone"})).unwrap();
                json!({"new": {"code_id": code721, "label": "l", "msg": m, "initial_nfts": msgs}})
            };
            init = json!({"nft_contract": nc, "unstaking_duration": unstaking, "active_threshold": thr0});
        }
        let pm_code = app.store_code(code::single());
        let voting = module(code_id, to_json_binary(&init).unwrap());
        let pmi = Pm::init(false, true, 5, false, json!({"anyone_may_propose": {}}), None);
        let r = new_dao(&mut app, voting, vec![module(pm_code, pmi)]);
        agree(format!("creating the DAO with {init}"), &r, &ok, &[t[0], "V06"])?;
        let Ok(dao) = r else {
            cx.label("bad-setup");
            return Ok(());
        };
        let mut minter = Some("minter".to_string());
        if setup == 1 {
            cx.label("new-collection");
            let v: Value = q(&app, &dao.voting, &json!({"config": {}}))?;
            nft = Addr::unchecked(v["nft_address"].as_str().unwrap());
            let m: Value = q(&app, &nft, &json!({"minter": {}}))?;
            ensure_eq!(m["minter"], json!(dao.core), ["V03"], "minter of the new collection");
            minter = None;
        }
        let mut w = World { app, core: dao.core, voting: dao.voting, pm: Pm { multi: false, addr: dao.modules[0].clone() }, nft, other, recv, minter };
        let mut md = Model {
            held: c.owners.iter().map(|o| Some(*o as usize)).collect(),
            staked: vec![None; n],
            prepared: vec![None; n],
            claims: Default::default(),
            dur: unstaking,
            thr: thr0,
            hooks: vec![],
            fails: [false; 3],
            logs: Default::default(),
            proposals: 0,
        };
        let mut hist: Hist = vec![(0, [0; 4])];
        let mut ever = BTreeSet::new();
        self.compare(&w, &md, &hist, "at the start", cx)?;
        for (step, o) in c.ops.iter().enumerate() {
            cx.log(|| format!("[{step}] {o:?}"));
            let before = md.power();
            self.step(&mut w, &mut md, &hist, o, &format!("[{step}]"), cx)?;
            ever.extend((0..md.held.len()).filter(|k| md.prepared[*k].is_some()));
            let h = w.app.block_info().height;
            if before != md.power() {
                hist.retain(|x| x.0 != h);
                hist.push((h, md.power()));
            }
            self.compare(&w, &md, &hist, &format!("[{step}]"), cx)?;
        }
        if self.onft {
            // who still counts as having prepared what
            for k in (0..md.held.len()).filter(|k| ever.contains(k) && md.staked[*k].is_none()).collect::<Vec<_>>() {
                let owner = md.held[k];
                for by in (0..4).filter(|u| Some(*u) != owner) {
                    let o = Op::Cancel { by: by as u8, toks: vec![Pick::Any(k as u8)], to: None };
                    self.step(&mut w, &mut md, &hist, &o, "at the end:", cx)?;
                }
            }
            self.compare(&w, &md, &hist, "at the end:", cx)?;
        }
        for h in H0 - 1..=w.app.block_info().height + 1 {
            self.heights(&w, &hist, h, Some(h), "at the end:")?;
        }
        cx.nontrivial = match self.focus {
            Focus::Custody => (0..4).filter(|i| hist.iter().any(|h| h.1[*i] > 0)).count() >= 2 && cx.has("unstaked") && (cx.has("claimed") || cx.has("returned-at-once")),
            Focus::Activity => cx.has("active") && cx.has("inactive"),
        };
        Ok(())
    }
}

impl Nfts {
    fn own(&self) -> &'static [&'static str] {
        if self.onft {
            &["V04"]
        } else {
            &["V03"]
        }
    }
    fn at(hist: &Hist, h: u64) -> [u128; 4] {
        hist.iter().rev().find(|x| x.0 < h).unwrap_or(&hist[0]).1
    }
    fn active(&self, md: &Model, hist: &Hist, h: u64) -> bool {
        match &md.thr {
            None => true,
            // as of the start of the block
            Some(t) => {
                let staked: u128 = Self::at(hist, h).iter().sum();
                let need = Stakes::needed(t, md.supply());
                staked >= need && (staked > 0 || t["percentage"].is_null())
            }
        }
    }
    fn choose(toks: &[Pick], from: &[usize], all: usize) -> Vec<usize> {
        let mut out: Vec<usize> = vec![];
        for p in toks {
            let left: Vec<_> = from.iter().copied().filter(|x| !out.contains(x)).collect();
            out.push(match p {
                Pick::Own(i) if !left.is_empty() => left[*i as usize % left.len()],
                Pick::Own(i) | Pick::Any(i) => *i as usize % all,
            });
        }
        out
    }
    fn announce(md: &mut Model, from: &Addr, h: u64, body: Value) -> Result<(), &'static str> {
        for x in md.hooks.clone() {
            // the last one is an address with nothing behind it
            if x == 3 || md.fails[x] {
                return Err("a subscriber fails");
            }
            md.logs[x].push(json!({"from": from, "funds": [], "height": h, "msg": {"nft_stake_change_hook": body}}));
        }
        Ok(())
    }
    fn transfer(&self, w: &mut World, by: usize, tok: usize, to: usize) -> Result<(), String> {
        use omniflix_std::types::omniflix::onft::v1beta1 as p;
        let to = w.name(to);
        if self.onft {
            let m = p::MsgTransferOnft { id: id(tok), denom_id: COLL.into(), sender: user(by), recipient: to };
            exec_msg(&mut w.app, &user(by), onft_msg("/OmniFlix.onft.v1beta1.MsgTransferONFT", m)).map(|_| ())
        } else {
            let nft = w.nft.clone();
            w.run(by, &nft, &json!({"transfer_nft": {"recipient": to, "token_id": id(tok)}}))
        }
    }

    fn unstake(&self, w: &mut World, md: &mut Model, by: usize, toks: &[usize], b: &BlockInfo, at: &str, cx: &mut Cx) -> R {
        let ids: Vec<_> = toks.iter().map(|t| id(*t)).collect();
        let r = w.to_voting(by, &json!({"unstake": {"token_ids": ids}}));
        let mut x = md.clone();
        let voting = w.voting.clone();
        let want = (|| {
            if toks.is_empty() {
                return Err("nothing named");
            }
            for t in toks {
                if x.staked[*t] != Some(by) {
                    return Err("not staked by them");
                }
                x.staked[*t] = None;
            }
            Self::announce(&mut x, &voting, b.height, json!({"unstake": {"addr": user(by), "token_ids": ids}}))?;
            match x.dur {
                None => {
                    for t in toks {
                        if x.held[*t] != Some(MODULE) {
                            return Err("not held any more");
                        }
                        x.held[*t] = Some(by);
                    }
                    cx.label("returned-at-once");
                }
                Some(d) => {
                    if x.claims[by].len() + toks.len() > MAX_CLAIMS {
                        cx.label("too-many-claims");
                        return Err("too many claims");
                    }
                    for t in toks {
                        x.claims[by].push((*t, d.after(b)));
                    }
                }
            }
            Ok(())
        })();
        agree(format!("{at} user{by} unstakes {ids:?}"), &r, &want, self.own())?;
        match want {
            Ok(()) => {
                *md = x;
                cx.label("unstaked");
            }
            Err(_) => cx.label("unstake-refused"),
        }
        Ok(())
    }
    fn prepare(&self, w: &mut World, md: &mut Model, by: usize, toks: &[usize], at: &str) -> R {
        let ids: Vec<_> = toks.iter().map(|t| id(*t)).collect();
        let r = w.to_voting(by, &json!({"prepare_stake": {"token_ids": ids}}));
        let want = if toks.iter().all(|t| md.held[*t] == Some(by)) { Ok(()) } else { Err("not the owner") };
        if toks.is_empty() {
            return Ok(());
        }
        agree(format!("{at} user{by} prepares {ids:?}"), &r, &want, &["V04"])?;
        if want.is_ok() {
            for t in toks {
                md.prepared[*t] = Some(by);
            }
        }
        Ok(())
    }
    fn confirm(&self, w: &mut World, md: &mut Model, by: usize, toks: &[usize], h: u64, at: &str, cx: &mut Cx) -> R {
        let ids: Vec<_> = toks.iter().map(|t| id(*t)).collect();
        let r = w.to_voting(by, &json!({"confirm_stake": {"token_ids": ids}}));
        let mut x = md.clone();
        let voting = w.voting.clone();
        let want = (|| {
            let set: BTreeSet<String> = ids.iter().cloned().collect();
            if set.len() < ids.len() {
                cx.label("confirmed-twice-at-once");
            }
            for i in &set {
                let t: usize = i.parse().unwrap();
                if x.prepared[t] != Some(by) || x.held[t] != Some(MODULE) {
                    return Err("not prepared and moved");
                }
                x.prepared[t] = None;
                x.staked[t] = Some(by);
            }
            // announcements go out after all have been registered
            for i in &set {
                Self::announce(&mut x, &voting, h, json!({"stake": {"addr": user(by), "token_id": i}}))?;
            }
            Ok(())
        })();
        if !toks.is_empty() || r.is_ok() {
            agree(format!("{at} user{by} confirms {ids:?}"), &r, &want, &["V04"])?;
        }
        match want {
            Ok(()) => *md = x,
            Err(_) => cx.label("confirm-refused"),
        }
        Ok(())
    }

    fn step(&self, w: &mut World, md: &mut Model, hist: &Hist, o: &Op, at: &str, cx: &mut Cx) -> R {
        let b = w.app.block_info();
        let t = self.own();
        let all = md.held.len();
        let mine = |md: &Model, by: usize| (0..all).filter(|i| md.held[*i] == Some(by)).collect::<Vec<_>>();
        let voting = w.voting.clone();
        match o {
            Op::Transfer { by, tok, to } => {
                let (by, to) = (*by as usize, *to as usize);
                let k = Self::choose(&[tok.clone()], &mine(md, by), all)[0];
                let r = self.transfer(w, by, k, to);
                let want = if md.held[k] == Some(by) { Ok(()) } else { Err("not the owner") };
                agree(format!("{at} user{by} moves {k} to {to}"), &r, &want, t)?;
                if want.is_ok() {
                    md.held[k] = Some(to);
                    if md.prepared[k].is_some() && to != MODULE {
                        cx.label("sold-while-prepared");
                    }
                }
            }
            Op::Stake { by, toks } => {
                let by = (0..4).map(|k| (*by as usize + k) % 4).find(|u| mine(md, *u).len() > 0).filter(|_| matches!(toks.first(), Some(Pick::Own(_)))).unwrap_or(*by as usize);
                let toks = Self::choose(toks, &mine(md, by), all);
                self.stake(w, md, by, &toks, &b, at, cx)?;
            }
            Op::StakeMany { by } => {
                let by = *by as usize;
                let toks = mine(md, by);
                self.stake(w, md, by, &toks, &b, at, cx)?;
            }
            Op::Prepare { .. } | Op::Confirm { .. } | Op::Cancel { .. } if !self.onft => {}
            Op::Prepare { by, toks } => {
                let by = *by as usize;
                let toks = Self::choose(toks, &mine(md, by), all);
                self.prepare(w, md, by, &toks, at)?;
            }
            Op::Confirm { by, toks } => {
                let by = *by as usize;
                let from: Vec<_> = (0..all).filter(|i| md.prepared[*i] == Some(by) && md.held[*i] == Some(MODULE)).collect();
                let toks = Self::choose(toks, &from, all);
                self.confirm(w, md, by, &toks, b.height, at, cx)?;
            }
            Op::Cancel { by, toks, to } => {
                let by = *by as usize;
                let from: Vec<_> = (0..all).filter(|i| if by == DAO { md.held[*i] == Some(MODULE) } else { md.prepared[*i] == Some(by) }).collect();
                let toks = Self::choose(toks, &from, all);
                // a DAO taking away what is staked is its own business
                if by == DAO && toks.iter().any(|t| md.held[*t] == Some(MODULE) && (md.staked[*t].is_some() || md.unbonding(*t))) {
                    return Ok(());
                }
                let ids: Vec<_> = toks.iter().map(|t| id(*t)).collect();
                let rec = to.map(|t| w.name(t as usize));
                let r = w.to_voting(by, &json!({"cancel_stake": {"token_ids": ids, "recipient": rec}}));
                let mut x = md.clone();
                let want = (|| {
                    let mut moves = vec![];
                    for k in &toks {
                        let (owner, prep) = (md.held[*k], md.prepared[*k]);
                        if by == DAO {
                            x.prepared[*k] = None;
                            if owner == Some(MODULE) {
                                match to.map(|t| t as usize).or(prep) {
                                    Some(to) => moves.push((*k, to)),
                                    None => return Err("nobody to send it to"),
                                }
                            }
                        } else {
                            if owner != Some(by) && prep != Some(by) {
                                return Err("neither owner nor preparer");
                            }
                            x.prepared[*k] = None;
                            if owner == Some(MODULE) {
                                moves.push((*k, by));
                            }
                        }
                    }
                    for (k, to) in moves {
                        if x.held[k] != Some(MODULE) {
                            return Err("not held any more");
                        }
                        x.held[k] = Some(to);
                        cx.label("recovered");
                    }
                    Ok(())
                })();
                // naming a token twice may be refused or not
                let set: BTreeSet<_> = toks.iter().collect();
                if toks.is_empty() {
                    return Ok(());
                } else if set.len() == toks.len() {
                    agree(format!("{at} {by} cancels {ids:?} to {to:?}"), &r, &want, &["V04"])?;
                } else if r.is_ok() && want.is_err() {
                    fail!(["V04"], "{at} {by} cancels {ids:?} to {to:?}: accepted");
                }
                if r.is_ok() {
                    *md = x;
                    cx.label("cancelled");
                }
            }
            Op::Unstake { by, toks } => {
                let by = (0..4).map(|k| (*by as usize + k) % 4).find(|u| md.power()[*u] > 0).filter(|_| matches!(toks.first(), Some(Pick::Own(_)))).unwrap_or(*by as usize);
                let from: Vec<_> = (0..all).filter(|i| md.staked[*i] == Some(by)).collect();
                let toks = Self::choose(toks, &from, all);
                self.unstake(w, md, by, &toks, &b, at, cx)?;
            }
            Op::UnstakeMany { by, n } => {
                let by = *by as usize;
                let toks: Vec<_> = (0..all).filter(|i| md.staked[*i] == Some(by)).take(*n as usize).collect();
                self.unstake(w, md, by, &toks, &b, at, cx)?;
            }
            Op::Claim { by } => {
                let by = (0..4).map(|k| (*by as usize + k) % 4).find(|u| !md.claims[*u].is_empty()).unwrap_or(*by as usize);
                let r = w.to_voting(by, &json!({"claim_nfts": {}}));
                let due: Vec<_> = md.claims[by].iter().filter(|c| c.1.is_expired(&b)).map(|c| c.0).collect();
                let want = if due.is_empty() { Err("nothing to claim") } else { Ok(()) };
                agree(format!("{at} user{by} claims {due:?}"), &r, &want, t)?;
                if want.is_ok() {
                    md.claims[by].retain(|c| !c.1.is_expired(&b));
                    for k in due {
                        md.held[k] = Some(by);
                    }
                    cx.label("claimed");
                    if !md.claims[by].is_empty() {
                        cx.label("claimed-some");
                    }
                } else if !md.claims[by].is_empty() {
                    cx.label("claimed-too-early");
                }
            }
            Op::Foreign { by, forged } => {
                let by = *by as usize;
                if self.onft {
                    return Ok(());
                }
                let (r, what) = if *forged {
                    let m = json!({"receive_nft": {"sender": user(by), "token_id": "0", "msg": to_json_binary("x").unwrap()}});
                    (w.to_voting(by, &m), "pretends to be the collection")
                } else {
                    let m = json!({"send_nft": {"contract": voting, "token_id": "0", "msg": to_json_binary("x").unwrap()}});
                    let other = w.other.clone();
                    (w.run(0, &other, &m), "stakes an NFT of another collection")
                };
                agree(format!("{at} user{by} {what}"), &r, &Err("not the collection"), t)?;
            }
            Op::Config { by, dur: d } => {
                let d = d.map(|(t, n)| dur(t, n as u64));
                let r = w.to_voting(*by as usize, &json!({"update_config": {"duration": d}}));
                let want = if *by as usize != DAO {
                    Err("not the DAO")
                } else if d.map_or(false, |d| zero(&d)) {
                    Err("an unbonding period of nothing")
                } else {
                    Ok(())
                };
                agree(format!("{at} {by} sets the unbonding period to {d:?}"), &r, &want, t)?;
                if want.is_ok() {
                    if md.claims.iter().any(|c| !c.is_empty()) {
                        cx.label("reconfigured-while-unbonding");
                    }
                    md.dur = d;
                }
            }
            Op::Threshold { by, thr } => {
                let v = THR.thr(thr, md.total(), md.supply());
                let r = w.to_voting(*by as usize, &json!({"update_active_threshold": {"new_threshold": v}}));
                let want = if *by as usize != DAO { Err("only the DAO") } else { THR.thr_ok(&v, md.supply(), false) };
                agree(format!("{at} {by} sets the activity threshold to {v:?}"), &r, &want, &["V06"])?;
                if want.is_ok() {
                    md.thr = v;
                }
            }
            Op::Hook { by, add, hook } => {
                let h = *hook as usize;
                let addr = if h == 3 { "nowhere".to_string() } else { w.recv[h].to_string() };
                let k = if *add { "add_hook" } else { "remove_hook" };
                let r = w.to_voting(*by as usize, &json!({k: {"addr": addr}}));
                let has = md.hooks.contains(&h);
                let want = if *by as usize != DAO {
                    Err("not the DAO")
                } else if has == *add {
                    Err("already so")
                } else {
                    Ok(())
                };
                agree(format!("{at} {by} {k} {h}"), &r, &want, t)?;
                if want.is_ok() {
                    if *add {
                        md.hooks.push(h)
                    } else {
                        md.hooks.retain(|x| *x != h)
                    }
                }
            }
            Op::Break { hook, fail } => {
                let a = w.recv[*hook as usize].clone();
                harness(exec(&mut w.app, "x", &a, &MockMsg::SetFail { fail: *fail }, &[]))?;
                md.fails[*hook as usize] = *fail;
            }
            Op::Mint { to, n } => {
                for _ in 0..*n {
                    if md.held.len() >= 99 {
                        break;
                    }
                    let i = md.held.len();
                    let core = w.core.clone();
                    let nft = w.nft.clone();
                    let (m, c) = match w.minter.clone() {
                        Some(m) => (m, None),
                        None => (String::new(), Some(&core)),
                    };
                    mint(&mut w.app, self.onft, &nft, &m, c, &user(*to as usize), i)?;
                    md.held.push(Some(*to as usize));
                    md.staked.push(None);
                    md.prepared.push(None);
                }
            }
            Op::Burn { .. } if self.onft => {}
            Op::Burn { by, tok } => {
                let by = *by as usize;
                let k = Self::choose(&[tok.clone()], &mine(md, by), all)[0];
                let nft = w.nft.clone();
                let r = w.run(by, &nft, &json!({"burn": {"token_id": id(k)}}));
                let want = if md.held[k] == Some(by) { Ok(()) } else { Err("not the owner") };
                agree(format!("{at} user{by} burns {k}"), &r, &want, t)?;
                if want.is_ok() {
                    md.held[k] = None;
                }
            }
            Op::Propose { by } => {
                let m = json!({"propose": w.pm.body("t", &[], None, None)});
                let pm = w.pm.addr.clone();
                let r = exec(&mut w.app, &user(*by as usize), &pm, &m, &[]);
                let want = if !self.active(md, hist, b.height) { Err("the DAO is not active") } else { Ok(()) };
                agree(format!("{at} proposing"), &r, &want, &["V06"])?;
                if want.is_ok() {
                    md.proposals += 1;
                } else {
                    cx.label("proposal-refused");
                }
            }
            Op::Advance { blocks, secs } => advance(&mut w.app, *blocks as u64, *secs as u64),
        }
        Ok(())
    }

    fn stake(&self, w: &mut World, md: &mut Model, by: usize, toks: &[usize], b: &BlockInfo, at: &str, cx: &mut Cx) -> R {
        let t = self.own();
        let voting = w.voting.clone();
        if self.onft {
            let had = md.prepared.clone();
            self.prepare(w, md, by, toks, at)?;
            for k in toks.iter().collect::<BTreeSet<_>>() {
                if md.held[*k] == Some(by) && md.prepared[*k] == Some(by) {
                    harness(self.transfer(w, by, *k, MODULE))?;
                    md.held[*k] = Some(MODULE);
                    if had[*k].map_or(false, |p| p != by) {
                        cx.label("prepared-by-somebody-else-before");
                    }
                }
            }
            self.confirm(w, md, by, toks, b.height, at, cx)?;
            return Ok(());
        }
        for k in toks {
            let m = json!({"send_nft": {"contract": voting, "token_id": id(*k), "msg": to_json_binary("x").unwrap()}});
            let nft = w.nft.clone();
            let r = w.run(by, &nft, &m);
            let mut x = md.clone();
            let want = (|| {
                if x.held[*k] != Some(by) {
                    return Err("not the owner");
                }
                x.held[*k] = Some(MODULE);
                x.staked[*k] = Some(by);
                Self::announce(&mut x, &voting, b.height, json!({"stake": {"addr": user(by), "token_id": id(*k)}}))
            })();
            agree(format!("{at} user{by} stakes {k}"), &r, &want, t)?;
            if want.is_ok() {
                *md = x;
            }
        }
        Ok(())
    }

    fn heights(&self, w: &World, hist: &Hist, h: u64, q_height: Option<u64>, at: &str) -> R {
        let t = self.own();
        let s = Self::at(hist, h);
        let tot: u128 = s.iter().sum();
        let p: Value = q(&w.app, &w.voting, &json!({"total_power_at_height": {"height": q_height}}))?;
        ensure_eq!(p, json!({"power": tot.to_string(), "height": h}), @t, "{at} total power at {h}");
        for i in 0..4 {
            let p: Value = q(&w.app, &w.voting, &json!({"voting_power_at_height": {"address": user(i), "height": q_height}}))?;
            ensure_eq!(p, json!({"power": s[i].to_string(), "height": h}), @t, "{at} power of user {i} at {h}");
        }
        Ok(())
    }

    fn compare(&self, w: &World, md: &Model, hist: &Hist, at: &str, cx: &mut Cx) -> R {
        let t = self.own();
        let h = w.app.block_info().height;
        self.heights(w, hist, h, None, at)?;
        self.heights(w, hist, h + 1, Some(h + 1), at)?;
        // who holds what
        let holders: Vec<Option<String>> = if self.onft {
            let c = onft_collection(&w.app, COLL);
            (0..md.held.len()).map(|i| c.owners.get(&id(i)).cloned()).collect()
        } else {
            (0..md.held.len())
                .map(|i| {
                    let r: Result<Value, _> = query(&w.app, &w.nft, &json!({"owner_of": {"token_id": id(i), "include_expired": null}}));
                    r.ok().map(|v| v["owner"].as_str().unwrap().to_string())
                })
                .collect()
        };
        for (i, got) in holders.iter().enumerate() {
            ensure_eq!(*got, md.held[i].map(|o| w.name(o)), @t, "{at} holder of {i}");
            if md.staked[i].is_some() || md.unbonding(i) {
                ensure_eq!(*got, Some(w.voting.to_string()), @t, "{at} holder of the staked {i}");
            }
        }
        for i in 0..4 {
            let c: Value = q(&w.app, &w.voting, &json!({"nft_claims": {"address": user(i)}}))?;
            let mut got: Vec<String> = c["nft_claims"].as_array().unwrap().iter().map(|c| c.to_string()).collect();
            let mut want: Vec<String> = md.claims[i].iter().map(|c| json!({"token_id": id(c.0), "release_at": c.1}).to_string()).collect();
            got.sort();
            want.sort();
            ensure_eq!(got, want, @t, "{at} claims of user {i}");
            let mut want: Vec<String> = (0..md.held.len()).filter(|k| md.staked[*k] == Some(i)).map(id).collect();
            want.sort();
            let got: Vec<String> = q(&w.app, &w.voting, &json!({"staked_nfts": {"address": user(i), "start_after": null, "limit": null}}))?;
            ensure_eq!(got, want, @t, "{at} what user {i} has staked");
            if want.len() < 20 {
                let mut got: Vec<String> = vec![];
                loop {
                    let page: Vec<String> = q(&w.app, &w.voting, &json!({"staked_nfts": {"address": user(i), "start_after": got.last(), "limit": 2}}))?;
                    if page.is_empty() || got.len() > 20 {
                        break;
                    }
                    ensure!(page.len() <= 2, @t, "{at} a page of {} instead of 2", page.len());
                    got.extend(page);
                }
                ensure_eq!(got, want, @t, "{at} what user {i} has staked, in pages");
            }
        }
        let c: Value = q(&w.app, &w.voting, &json!({"config": {}}))?;
        ensure_eq!(c["unstaking_duration"], json!(md.dur), @t, "{at} unbonding period");
        if self.onft {
            ensure_eq!(c["onft_collection_id"], json!(COLL), @t, "{at} collection");
        } else {
            ensure_eq!(c["nft_address"], json!(w.nft), @t, "{at} collection");
        }
        let hk: Value = q(&w.app, &w.voting, &json!({"hooks": {}}))?;
        let want: Vec<_> = md.hooks.iter().map(|h| if *h == 3 { "nowhere".to_string() } else { w.recv[*h].to_string() }).collect();
        ensure_eq!(hk["hooks"], json!(want), @t, "{at} subscribers");
        for i in 0..3 {
            ensure_eq!(mock_log(&w.app, &w.recv[i]), md.logs[i], @t, "{at} what subscriber {i} was told");
        }
        let a: Value = q(&w.app, &w.voting, &json!({"active_threshold": {}}))?;
        let norm = |v: &Value| v["percentage"]["percent"].as_str().map(|p| p.parse::<cosmwasm_std::Decimal>().unwrap());
        let (got, want) = (&a["active_threshold"], md.thr.clone().unwrap_or(Value::Null));
        ensure!(*got == want || (norm(got).is_some() && norm(got) == norm(&want)), ["V06"], "{at} activity threshold is {got}, set to {want}");
        let a: Value = q(&w.app, &w.voting, &json!({"is_active": {}}))?;
        let want = self.active(md, hist, h);
        ensure_eq!(a["active"], json!(want), ["V06"], "{at} active with {:?} of {} staked and threshold {:?}", Self::at(hist, h), md.supply(), md.thr);
        if md.thr.is_some() {
            cx.label(if want { "active" } else { "inactive" });
        }
        ensure_eq!(w.pm.count(&w.app)?, md.proposals, ["V06"], "{at} proposals");
        Ok(())
    }
}
