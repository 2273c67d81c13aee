//! Storage libraries: the out-of-order snapshot map, the stake tracker and paged listings, each
//! against a model that keeps the value at every time, or every entry, explicitly.

use std::collections::{BTreeMap, BTreeSet};

use cosmwasm_std::testing::{mock_dependencies, MockStorage};
use cosmwasm_std::{from_json, Addr, Binary, Order, StdResult, Timestamp, Uint128};
use cw_paginate_storage as page;
use cw_stake_tracker::{StakeTracker, StakeTrackerQuery};
use cw_storage_plus::{Map, SnapshotMap, Strategy as Keep};
use cw_wormhole::Wormhole;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::fw::*;
use crate::{ensure, ensure_eq};

// ------------------------------------------------------------------ wormhole

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WOp {
    /// x -> a * x + b (wrapping), so that the order of updates matters
    Update { k: u8, t: u8, a: u8, b: u16 },
    Force { k: u8, t: u8, a: u8, b: u16 },
    Increment { k: u8, t: u8, n: u16 },
    /// by that share (in 64ths) of what is there at the least from then on
    Decrement { k: u8, t: u8, share: u8 },
    /// of a map under another name
    Other { k: u8, t: u8, n: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WCase {
    pub base: u8,
    pub step: u8,
    pub ops: Vec<WOp>,
}

pub struct Wormholes;

const KEYS: [&str; 5] = ["", "a", "ab", "a\0", "b"];
const SLOTS: usize = 24;
const WT: &[&str] = &["L01"];

/// The value at every slot, and at which slots there are snapshots.
#[derive(Clone, Default)]
struct Line {
    at: Vec<Option<u64>>,
    snaps: BTreeSet<usize>,
}

impl Scenario for Wormholes {
    type Case = WCase;
    fn name(&self) -> &'static str {
        "wormhole"
    }
    fn rule(&self) -> &'static str {
        "an update was made at a time before an existing snapshot of the same key, and there were at least three snapshots of one key"
    }
    fn strategy(&self) -> BoxedStrategy<WCase> {
        let k = || prop_oneof![6 => Just(1u8), 1 => 0u8..5];
        let t = || 0u8..SLOTS as u8;
        let op = prop_oneof![
            6 => (k(), t(), 0u8..6, any::<u16>()).prop_map(|(k, t, a, b)| WOp::Update { k, t, a, b }),
            2 => (k(), t(), 0u8..6, any::<u16>()).prop_map(|(k, t, a, b)| WOp::Force { k, t, a, b }),
            4 => (k(), t(), any::<u16>()).prop_map(|(k, t, n)| WOp::Increment { k, t, n }),
            3 => (k(), t(), 0u8..65).prop_map(|(k, t, share)| WOp::Decrement { k, t, share }),
            1 => (k(), t(), any::<u16>()).prop_map(|(k, t, n)| WOp::Other { k, t, n }),
        ];
        (0u8..6, 0u8..4, prop::collection::vec(op, 1..40)).prop_map(|(base, step, ops)| WCase { base, step, ops }).boxed()
    }
    fn run(&self, c: &WCase, cx: &mut Cx) -> R {
        let step = [1u64, 2, 7, 86_400][c.step as usize];
        let last = step * (SLOTS as u64 - 1);
        let base = [0, 1, 255, 1_700_000_000, u64::MAX / 2, u64::MAX - last][c.base as usize];
        let time = |s: usize| base + s as u64 * step;
        let map: Wormhole<String, u64> = Wormhole::new("worm");
        let other: Wormhole<String, u64> = Wormhole::new("worms");
        let unit: Wormhole<(), u64> = Wormhole::new("wor");
        let mut st = MockStorage::new();
        let mut lines = vec![Line { at: vec![None; SLOTS], snaps: BTreeSet::new() }; KEYS.len()];
        let (mut others, mut units) = (lines.clone(), lines[0].clone());
        for (i, o) in c.ops.iter().enumerate() {
            cx.log(|| format!("[{i}] {o:?}"));
            let (k, t) = match o {
                WOp::Update { k, t, .. } | WOp::Force { k, t, .. } | WOp::Increment { k, t, .. } | WOp::Decrement { k, t, .. } | WOp::Other { k, t, .. } => {
                    (*k as usize % KEYS.len(), *t as usize % SLOTS)
                }
            };
            let key = KEYS[k].to_string();
            let line = &mut lines[k];
            if let WOp::Update { .. } | WOp::Increment { .. } | WOp::Decrement { .. } = o {
                if line.snaps.range(t + 1..).next().is_some() {
                    cx.label("before-a-snapshot");
                }
            }
            let went = |line: &mut Line, f: &dyn Fn(u64) -> u64| {
                line.snaps.insert(t);
                for x in line.at[t..].iter_mut() {
                    *x = Some(f(x.unwrap_or(0)));
                }
            };
            match o {
                WOp::Update { a, b, .. } => {
                    let f = |x: u64| x.wrapping_mul(*a as u64).wrapping_add(*b as u64);
                    let mut seen = vec![];
                    let r = map.update(&mut st, key, time(t), &mut |x, at| {
                        seen.push((at, x));
                        f(x)
                    });
                    let mut want = vec![(time(t), line.at[t].unwrap_or(0))];
                    want.extend(line.snaps.range(t + 1..).map(|s| (time(*s), line.at[*s].unwrap_or(0))));
                    ensure_eq!(seen, want, @WT, "[{i}] values visited");
                    went(line, &f);
                    ensure_eq!(r.ok(), line.at[t], @WT, "[{i}] returned");
                }
                WOp::Increment { n, .. } => {
                    // wrapping values would overflow
                    if line.at[t..].iter().flatten().any(|x| x.checked_add(*n as u64).is_none()) {
                        continue;
                    }
                    let r = map.increment(&mut st, key, time(t), *n as u64);
                    went(line, &|x| x + *n as u64);
                    ensure_eq!(r.ok(), line.at[t], @WT, "[{i}] returned");
                    unit.increment(&mut st, (), time(t), 1).unwrap();
                    went(&mut units, &|x| x + 1);
                }
                WOp::Decrement { share, .. } => {
                    let least = line.at[t..].iter().map(|x| x.unwrap_or(0)).min().unwrap();
                    let n = (least as u128 * *share as u128 / 64) as u64;
                    let r = map.decrement(&mut st, key, time(t), n);
                    went(line, &|x| x - n);
                    ensure_eq!(r.ok(), line.at[t], @WT, "[{i}] returned");
                }
                WOp::Force { a, b, .. } => {
                    let f = |x: u64| x.wrapping_mul(*a as u64).wrapping_add(*b as u64);
                    let mut seen = vec![];
                    let r = map.dangerously_update(&mut st, key, time(t), &mut |x, at| {
                        seen.push((at, x));
                        f(x)
                    });
                    ensure_eq!(seen, vec![(time(t), line.at[t].unwrap_or(0))], @WT, "[{i}] value visited");
                    let new = f(line.at[t].unwrap_or(0));
                    ensure_eq!(r.ok(), Some(new), @WT, "[{i}] returned");
                    let end = line.snaps.range(t + 1..).next().copied().unwrap_or(SLOTS);
                    line.snaps.insert(t);
                    line.at[t..end].iter_mut().for_each(|x| *x = Some(new));
                    cx.label("forced");
                }
                WOp::Other { n, .. } => {
                    other.increment(&mut st, key, time(t), *n as u64).unwrap();
                    went(&mut others[k], &|x| x + *n as u64);
                }
            }
            let mut probe: Vec<(usize, u64)> = (0..SLOTS).map(|s| (s, time(s))).collect();
            if step > 1 {
                probe.extend((0..SLOTS - 1).map(|s| (s, time(s + 1) - 1)));
            }
            for (s, at) in probe {
                for (k, key) in KEYS.iter().enumerate() {
                    ensure_eq!(map.load(&st, key.to_string(), at).unwrap(), lines[k].at[s], @WT, "[{i}] value of {key:?} at slot {s}, time {at}");
                    if s % 5 == 0 {
                        ensure_eq!(other.load(&st, key.to_string(), at).unwrap(), others[k].at[s], @WT, "[{i}] value of {key:?} in the other map at {s}");
                    }
                }
                ensure_eq!(unit.load(&st, (), at).unwrap(), units.at[s], @WT, "[{i}] value of the map without keys at {s}");
            }
            if base > 0 {
                ensure_eq!(map.load(&st, KEYS[k].to_string(), base - 1).unwrap(), None, @WT, "[{i}] value before everything");
            }
        }
        cx.nontrivial = cx.has("before-a-snapshot") && lines.iter().any(|l| l.snaps.len() > 2);
        Ok(())
    }
}

// ------------------------------------------------------------------ stake tracker

const ST: &[&str] = &["L02"];
const VALS: usize = 3;
const SPAN: usize = 500;
const UNBONDING_SLASH: &str = "slash-of-unbonding-tokens-while-unbondings-with-different-ends-are-pending";

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    Delegate { v: u8, n: u16 },
    Redelegate { from: u8, to: u8, share: u8 },
    Undelegate { v: u8, share: u8 },
    /// of bonded tokens, that long ago at most
    Slash { v: u8, share: u8, ago: u8 },
    SlashUnbonding { v: u8, share: u8 },
    Duration { secs: u8 },
    Advance { secs: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SCase {
    pub unbonding: u8,
    pub ops: Vec<SOp>,
}

pub struct Tracker;

struct Pending {
    v: usize,
    n: u128,
    end: usize,
}

struct TWorld {
    st: MockStorage,
    now: usize,
    ub: usize,
    /// what was, and will be if nothing else happens, with each validator
    at: Vec<[u128; VALS]>,
    bonded: [u128; VALS],
    pending: Vec<Pending>,
    inexact_until: usize,
}

const TRACKER: StakeTracker = StakeTracker::new("s", "v", "c");
const T0: u64 = 1_600_000_000;

fn ts(i: usize) -> Timestamp {
    Timestamp::from_seconds(T0 + i as u64)
}

impl TWorld {
    fn add(&mut self, v: usize, from: usize, n: u128) {
        self.at[from..].iter_mut().for_each(|x| x[v] += n);
    }
    fn sub(&mut self, v: usize, from: usize, n: u128) {
        self.at[from..].iter_mut().for_each(|x| x[v] -= n);
    }
    fn check(&self, i: usize, at: &str) -> R {
        let total: u128 = self.at[i].iter().sum();
        let card = self.at[i].iter().filter(|x| **x > 0).count() as u64;
        let now = if i <= self.now { "" } else { "to come, " };
        ensure_eq!(TRACKER.total_staked(&self.st, ts(i)).unwrap().u128(), total, @ST, "{at} staked ({now}time {i})");
        for v in 0..VALS {
            let x = TRACKER.validator_staked(&self.st, ts(i), format!("v{v}")).unwrap().u128();
            ensure_eq!(x, self.at[i][v], @ST, "{at} staked with {v} ({now}time {i})");
        }
        ensure_eq!(TRACKER.validator_cardinality(&self.st, ts(i)).unwrap(), card, @ST, "{at} validators ({now}time {i})");
        if i % 16 == 0 {
            let ask = |q| from_json::<Uint128>(&TRACKER.query(&self.st, q).unwrap() as &Binary).unwrap().u128();
            ensure_eq!(ask(StakeTrackerQuery::TotalStaked { t: ts(i) }), total, @ST, "{at} staked, as queried ({now}time {i})");
            ensure_eq!(ask(StakeTrackerQuery::Cardinality { t: ts(i) }), card as u128, @ST, "{at} validators, as queried ({now}time {i})");
            let q = StakeTrackerQuery::ValidatorStaked { validator: "v1".into(), t: ts(i) };
            ensure_eq!(ask(q), self.at[i][1], @ST, "{at} staked with 1, as queried ({now}time {i})");
        }
        Ok(())
    }
}

impl Scenario for Tracker {
    type Case = SCase;
    fn name(&self) -> &'static str {
        "stake-tracker"
    }
    fn rule(&self) -> &'static str {
        "tokens were delegated to or taken from a validator with unbonding tokens, or a slash was registered, and an unbonding ended"
    }
    fn strategy(&self) -> BoxedStrategy<SCase> {
        let v = || 0u8..VALS as u8;
        let share = || prop_oneof![3 => Just(64u8), 4 => 0u8..64];
        let op = prop_oneof![
            6 => (v(), prop_oneof![1 => Just(0u16), 9 => 1u16..2000]).prop_map(|(v, n)| SOp::Delegate { v, n }),
            3 => (v(), v(), share()).prop_map(|(from, to, share)| SOp::Redelegate { from, to, share }),
            7 => (v(), share()).prop_map(|(v, share)| SOp::Undelegate { v, share }),
            3 => (v(), share(), prop_oneof![3 => Just(0u8), 1 => 0u8..30]).prop_map(|(v, share, ago)| SOp::Slash { v, share, ago }),
            1 => (v(), share()).prop_map(|(v, share)| SOp::SlashUnbonding { v, share }),
            1 => (0u8..25).prop_map(|secs| SOp::Duration { secs }),
            6 => (0u8..12).prop_map(|secs| SOp::Advance { secs }),
        ];
        (0u8..25, prop::collection::vec(op, 4..40)).prop_map(|(unbonding, ops)| SCase { unbonding, ops }).boxed()
    }
    fn run(&self, c: &SCase, cx: &mut Cx) -> R {
        let mut w = TWorld {
            st: MockStorage::new(),
            now: 0,
            ub: c.unbonding as usize,
            at: vec![[0; VALS]; SPAN],
            bonded: [0; VALS],
            pending: vec![],
            inexact_until: 0,
        };
        for (i, o) in c.ops.iter().enumerate() {
            cx.log(|| format!("[{i}] {o:?} now {} bonded {:?}", w.now, w.bonded));
            let r = self.step(&mut w, o, &format!("[{i}]"), cx);
            let r = r.and_then(|_| {
                let mut l: Vec<usize> = w.pending.iter().flat_map(|p| [p.end - 1, p.end, p.end + 1]).collect();
                l.extend([w.now.saturating_sub(1), w.now, w.now + 1, SPAN - 1]);
                l.iter().try_for_each(|t| w.check(*t, &format!("[{i}]")))
            });
            match r {
                // nothing that follows can be trusted
                Err(f) if w.now < w.inexact_until => return Err(f.sig(UNBONDING_SLASH)),
                r => r?,
            }
        }
        // a past in which tracked and true amounts differed is not corrected
        if w.inexact_until == 0 {
            for t in 0..SPAN {
                w.check(t, "[end]")?;
            }
        }
        cx.nontrivial = cx.has("ended") && (cx.has("with-unbonding") || cx.has("slashed"));
        Ok(())
    }
}

impl Tracker {
    fn step(&self, w: &mut TWorld, o: &SOp, at: &str, cx: &mut Cx) -> R {
        let part = |share: u8, of: u128| if share >= 64 { of } else { of * share as u128 / 64 };
        let name = |v: usize| format!("v{v}");
        let ok = |r: StdResult<()>| r.map_err(|e| Fail::new(format!("{at} {o:?} failed: {e}")).tag(ST));
        // a library call that panics leaves its caller's transaction undone
        let call = |w: &mut TWorld, f: &dyn Fn(&mut MockStorage) -> StdResult<()>| {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut w.st)));
            match r {
                Ok(r) => ok(r),
                Err(_) => Err(Fail::new(format!("{at} {o:?} panicked")).tag(ST)),
            }
        };
        let now = w.now;
        match o {
            SOp::Delegate { v, n } => {
                let (v, n) = (*v as usize, *n as u128);
                if w.pending.iter().any(|p| p.v == v) {
                    cx.label("with-unbonding");
                }
                call(w, &|st| TRACKER.on_delegate(st, ts(now), name(v), n.into()))?;
                w.bonded[v] += n;
                w.add(v, now, n);
            }
            SOp::Redelegate { from, to, share } => {
                let (a, b) = (*from as usize, *to as usize);
                let n = part(*share, w.bonded[a]);
                if a == b || n == 0 {
                    return Ok(());
                }
                if w.pending.iter().any(|p| p.v == a || p.v == b) {
                    cx.label("with-unbonding");
                }
                call(w, &|st| TRACKER.on_redelegate(st, ts(now), name(a), name(b), n.into()))?;
                w.bonded[a] -= n;
                w.bonded[b] += n;
                w.sub(a, now, n);
                w.add(b, now, n);
            }
            SOp::Undelegate { v, share } => {
                let v = *v as usize;
                let n = part(*share, w.bonded[v]);
                let ub = w.ub;
                // the staking module refuses that
                if n == 0 {
                    return Ok(());
                }
                call(w, &|st| TRACKER.on_undelegate(st, ts(now), name(v), n.into(), ub as u64))?;
                w.bonded[v] -= n;
                w.sub(v, now + ub, n);
                if ub > 0 {
                    w.pending.push(Pending { v, n, end: now + ub });
                }
            }
            SOp::Slash { v, share, ago } => {
                let v = *v as usize;
                let when = now.saturating_sub(*ago as usize);
                // only what was there all the time since can have been slashed then
                let most = w.at[when..].iter().map(|x| x[v]).min().unwrap();
                let n = part(*share, most);
                if n == 0 || w.inexact_until > when {
                    return Ok(());
                }
                call(w, &|st| TRACKER.on_bonded_slash(st, ts(when), name(v), n.into()))?;
                w.bonded[v] -= n;
                w.sub(v, when, n);
                cx.label("slashed");
                if when < now {
                    cx.label("slashed-late");
                }
            }
            SOp::SlashUnbonding { v, share } => {
                let v = *v as usize;
                let total: u128 = w.pending.iter().filter(|p| p.v == v).map(|p| part(*share, p.n)).sum();
                if total == 0 {
                    return Ok(());
                }
                let ends: BTreeSet<usize> = w.pending.iter().map(|p| p.end).collect();
                if ends.len() > 1 {
                    w.inexact_until = *ends.last().unwrap();
                    cx.label("slashed-unbonding-with-several-pending");
                }
                call(w, &|st| TRACKER.on_unbonding_slash(st, ts(now), name(v), total.into()))?;
                for p in w.pending.iter_mut().filter(|p| p.v == v) {
                    let x = part(*share, p.n);
                    p.n -= x;
                    w.at[now..p.end].iter_mut().for_each(|a| a[v] -= x);
                }
                cx.label("slashed");
            }
            SOp::Duration { secs } => w.ub = *secs as usize,
            SOp::Advance { secs } => {
                w.now += *secs as usize;
                let n = w.pending.len();
                let now = w.now;
                w.pending.retain(|p| p.end > now);
                if w.pending.len() < n {
                    cx.label("ended");
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ pages

const PT: &[&str] = &["L03"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ask {
    pub what: u8,
    /// index into the candidates for a start
    pub start: Option<u8>,
    pub limit: Option<u32>,
    pub down: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PCase {
    pub strings: Vec<(String, u32)>,
    pub numbers: Vec<(u64, u32)>,
    pub pairs: Vec<(u8, u8, u32)>,
    /// (key, value or removed, height) of a snapshot map
    pub writes: Vec<(u8, Option<u32>, u8)>,
    pub asks: Vec<Ask>,
}

pub struct Pages;

fn pick<K: Ord + Clone, V: Clone>(m: &BTreeMap<K, V>, start: &Option<K>, limit: Option<u32>, down: bool) -> Vec<(K, V)> {
    let mut l: Vec<(K, V)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    if down {
        l.reverse();
    }
    l.retain(|(k, _)| start.as_ref().map_or(true, |s| if down { k < s } else { k > s }));
    l.truncate(limit.map_or(usize::MAX, |n| n as usize));
    l
}

impl Scenario for Pages {
    type Case = PCase;
    fn name(&self) -> &'static str {
        "pages"
    }
    fn rule(&self) -> &'static str {
        "a page was cut off by its limit after a start point, in both orders"
    }
    fn strategy(&self) -> BoxedStrategy<PCase> {
        let s = prop_oneof![4 => "[ab]{0,3}", 2 => "[a-c\u{0}\u{7f}é\u{ffff}]{0,3}", 1 => "\\PC{0,6}"];
        let n = prop_oneof![4 => 0u64..12, 1 => Just(u64::MAX), 1 => Just(u64::MAX - 1), 2 => (0u32..64).prop_map(|s| 1u64 << s), 1 => any::<u64>()];
        let limit = prop_oneof![2 => Just(None), 6 => (0u32..6).prop_map(Some), 1 => Just(Some(u32::MAX)), 1 => Just(Some(30))];
        let ask = (0u8..8, prop::option::of(any::<u8>()), limit, any::<bool>()).prop_map(|(what, start, limit, down)| Ask { what, start, limit, down });
        (
            prop::collection::vec((s, any::<u32>()), 0..14),
            prop::collection::vec((n, any::<u32>()), 0..14),
            prop::collection::vec((0u8..3, 0u8..6, any::<u32>()), 0..14),
            prop::collection::vec((0u8..8, prop::option::weighted(0.75, any::<u32>()), 0u8..3), 0..20),
            prop::collection::vec(ask, 4..20),
        )
            .prop_map(|(strings, numbers, pairs, writes, asks)| PCase { strings, numbers, pairs, writes, asks })
            .boxed()
    }
    fn run(&self, c: &PCase, cx: &mut Cx) -> R {
        let mut deps = mock_dependencies();
        let st = &mut deps.storage;
        let ms: Map<String, u32> = Map::new("m");
        let mn: Map<u64, u32> = Map::new("mn");
        let ma: Map<Addr, u32> = Map::new("ma");
        let mp: Map<(Addr, u64), u32> = Map::new("mp");
        let snap: SnapshotMap<Addr, u32> = SnapshotMap::new("sn", "sn__check", "sn__change", Keep::EveryBlock);
        let (mut vs, mut vn, mut va, mut vp, mut vv) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
        for (k, v) in &c.strings {
            ms.save(st, k.clone(), v).unwrap();
            vs.insert(k.clone(), *v);
            ma.save(st, Addr::unchecked(k), &(v / 2)).unwrap();
            va.insert(Addr::unchecked(k), *v / 2);
        }
        for (k, v) in &c.numbers {
            mn.save(st, *k, v).unwrap();
            vn.insert(*k, *v);
        }
        let addr = |k: u8| Addr::unchecked(["user", "user1", "user10", "user2", "u", "w", "userx", "zz"][k as usize % 8]);
        for (a, b, v) in &c.pairs {
            mp.save(st, (addr(*a), *b as u64), v).unwrap();
            vp.insert((addr(*a), *b as u64), *v);
        }
        let mut h = 1;
        for (k, v, dh) in &c.writes {
            h += *dh as u64;
            match v {
                Some(v) => {
                    snap.save(st, addr(*k), v, h).unwrap();
                    vv.insert(addr(*k), *v);
                }
                None => {
                    snap.remove(st, addr(*k), h).unwrap();
                    vv.remove(&addr(*k));
                }
            }
        }
        // a start is an entry, or something else
        let start_s = |i: u8| {
            let l: Vec<String> = vs.keys().cloned().chain(["".into(), "a".into(), "aba".into(), "zz".into()]).collect();
            l[i as usize % l.len()].clone()
        };
        let start_n = |i: u8| {
            let l: Vec<u64> = vn.keys().copied().chain([0, 5, u64::MAX]).collect();
            l[i as usize % l.len()]
        };
        macro_rules! ask {
            ($f:path, $map:expr, $m:expr, $start:expr, $a:expr, $i:expr, $conv:expr) => {{
                let start = $start;
                let order = if $a.down { Order::Descending } else { Order::Ascending };
                let got = $f(deps.as_ref(), $map, start.clone(), $a.limit, order).map_err(|e| Fail::new(format!("[{}] {:?}: {e}", $i, $a)).tag(PT))?;
                let want: Vec<_> = pick($m, &start, $a.limit, $a.down).into_iter().map($conv).collect();
                if start.is_some() && $a.limit.map_or(false, |n| n > 0 && n as usize == want.len()) && pick($m, &start, None, $a.down).len() > want.len() {
                    cx.label(if $a.down { "cut-down" } else { "cut-up" });
                }
                ensure_eq!(got, want, @PT, "[{}] {:?} after {:?}", $i, $a, start);
                // page by page, and at once
                if let Some(n) = $a.limit.filter(|n| *n > 0) {
                    let mut all = vec![];
                    let mut after = None;
                    loop {
                        let page = $f(deps.as_ref(), $map, after.clone(), Some(n), order).unwrap();
                        let k: Vec<_> = pick($m, &after, Some(n), $a.down);
                        ensure_eq!(page.len(), k.len(), @PT, "[{}] {:?} page after {:?}", $i, $a, after);
                        let Some((last, _)) = k.last() else { break };
                        after = Some(last.clone());
                        all.extend(page);
                    }
                    let whole = $f(deps.as_ref(), $map, None, None, order).unwrap();
                    ensure_eq!(all, whole, @PT, "[{}] {:?} page by page and at once", $i, $a);
                }
            }};
        }
        for (i, a) in c.asks.iter().enumerate() {
            match a.what {
                0 => ask!(page::paginate_map, &ms, &vs, a.start.map(start_s), a, i, |x| x),
                1 => ask!(page::paginate_map, &mn, &vn, a.start.map(start_n), a, i, |x| x),
                2 => ask!(page::paginate_map_keys, &ma, &va, a.start.map(|s| Addr::unchecked(start_s(s))), a, i, |x: (Addr, u32)| x.0),
                3 => ask!(page::paginate_map_keys, &mn, &vn, a.start.map(start_n), a, i, |x: (u64, u32)| x.0),
                4 => ask!(page::paginate_map_values, &mn, &vn, a.start.map(start_n), a, i, |x: (u64, u32)| x.1),
                5 => ask!(page::paginate_map_values, &ma, &va, a.start.map(|s| Addr::unchecked(start_s(s))), a, i, |x: (Addr, u32)| x.1),
                6 => ask!(page::paginate_snapshot_map, &snap, &vv, a.start.map(addr), a, i, |x| x),
                _ => {
                    ask!(page::paginate_snapshot_map_keys, &snap, &vv, a.start.map(addr), a, i, |x: (Addr, u32)| x.0);
                    ask!(page::paginate_map, &mp, &vp, a.start.map(|s| (addr(s % 3), (s / 8) as u64 % 7)), a, i, |x| x)
                }
            }
        }
        let _ = &cx;
        cx.nontrivial = cx.has("cut-up") && cx.has("cut-down");
        ensure!(true, "");
        Ok(())
    }
}
