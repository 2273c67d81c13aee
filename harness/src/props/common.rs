//! Vocabulary shared by scenarios: amounts, percentages, durations, a DAO fixture.

use cosmwasm_std::{
    to_json_binary, Addr, Binary, BlockInfo, Decimal, Empty, Uint128, Uint256,
};
use cw_utils::{Duration, Expiration};
use dao_interface::state::{Admin, ModuleInstantiateInfo, ProposalModule};
use dao_voting::threshold::PercentageThreshold;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::env::*;
use crate::fw::{Fail, R};

/// Small, boundary-heavy and huge amounts.
pub fn amount() -> BoxedStrategy<u128> {
    prop_oneof![
        3 => 0u128..=6,
        4 => 1u128..=1000,
        2 => 1u128..=1_000_000_000_000,
        1 => (0u32..=120).prop_map(|b| 1u128 << b),
        1 => (0u32..=120, any::<u128>()).prop_map(|(b, x)| x % (1u128 << b) + 1),
    ]
    .boxed()
}

/// Positive amounts that keep totals comfortably below 2^128.
pub fn pos_amount() -> BoxedStrategy<u128> {
    amount().prop_map(|x| x.max(1)).boxed()
}

pub fn mid_amount() -> BoxedStrategy<u128> {
    prop_oneof![
        3 => 1u128..=10,
        4 => 1u128..=1000,
        2 => 1u128..=1_000_000_000,
        1 => 1u128..=1_000_000_000_000_000,
    ]
    .boxed()
}

/// How a percentage is chosen; resolved against concrete powers so that it lands on
/// and around the boundaries that matter.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PctSpec {
    Majority,
    /// 1..=1000
    Permille(u16),
    /// sum(powers in mask)/total plus this many 1e-18 steps
    Share { mask: u8, eps: i8 },
    /// as Share, rounded to nine decimals, plus this many 1e-9 steps
    Share9 { mask: u8, eps: i8 },
    Atomics(u64),
    /// invalid: zero
    Zero,
    /// invalid: above 100%
    Over,
}

pub fn pct() -> BoxedStrategy<PctSpec> {
    prop_oneof![
        4 => Just(PctSpec::Majority),
        4 => prop_oneof![1u16..=1000, Just(1000u16), Just(990), Just(500), Just(667), Just(334), Just(1)]
            .prop_map(PctSpec::Permille),
        5 => (any::<u8>(), -2i8..=2).prop_map(|(mask, eps)| PctSpec::Share { mask, eps }),
        3 => (any::<u8>(), -1i8..=1).prop_map(|(mask, eps)| PctSpec::Share9 { mask, eps }),
        2 => (1_000_000_000u64..=1_000_000_000_000_000_000).prop_map(PctSpec::Atomics),
    ]
    .boxed()
}

pub const ONE18: u128 = 1_000_000_000_000_000_000;

pub fn ratio_atomics(num: u128, den: u128) -> u128 {
    if den == 0 {
        return 0;
    }
    (Uint256::from(num) * Uint256::from(ONE18) / Uint256::from(den))
        .to_string()
        .parse()
        .unwrap()
}

pub fn mask_sum(powers: &[u128], mask: u8) -> u128 {
    powers.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| *x.1).sum()
}

impl PctSpec {
    /// Percentages below 1e-9 are left out: the code documents nine decimals.
    pub fn resolve(&self, powers: &[u128]) -> PercentageThreshold {
        let total: u128 = powers.iter().sum();
        let clamp = |x: i128| x.clamp(1_000_000_000, ONE18 as i128) as u128;
        let atomics = match self {
            PctSpec::Majority => return PercentageThreshold::Majority {},
            PctSpec::Permille(p) => *p as u128 * (ONE18 / 1000),
            PctSpec::Share { mask, eps } => {
                clamp(ratio_atomics(mask_sum(powers, *mask), total) as i128 + *eps as i128)
            }
            PctSpec::Share9 { mask, eps } => clamp(
                (ratio_atomics(mask_sum(powers, *mask), total) / 1_000_000_000) as i128
                    * 1_000_000_000
                    + *eps as i128 * 1_000_000_000,
            ),
            PctSpec::Atomics(a) => *a as u128,
            PctSpec::Zero => 0,
            PctSpec::Over => ONE18 + 1,
        };
        PercentageThreshold::Percent(Decimal::new(Uint128::new(atomics)))
    }
}

/// Spec of "v votes out of opt meet p": floor at nine decimals, as documented.
pub fn meets(v: u128, opt: u128, p: &PercentageThreshold) -> bool {
    if opt == 0 {
        return false;
    }
    match p {
        PercentageThreshold::Majority {} => {
            Uint256::from(v) + Uint256::from(v) > Uint256::from(opt)
        }
        PercentageThreshold::Percent(d) => {
            let nano = Uint256::from(1_000_000_000u128);
            let need = Uint256::from(opt) * nano * Uint256::from(d.atomics().u128())
                / Uint256::from(ONE18);
            Uint256::from(v) * nano >= need
        }
    }
}

pub fn dur(time: bool, n: u64) -> Duration {
    if time {
        Duration::Time(n)
    } else {
        Duration::Height(n)
    }
}

pub fn now(time: bool, b: &BlockInfo) -> u64 {
    if time {
        b.time.seconds()
    } else {
        b.height
    }
}

pub fn exp_at(time: bool, at: u64) -> Expiration {
    if time {
        Expiration::AtTime(cosmwasm_std::Timestamp::from_seconds(at))
    } else {
        Expiration::AtHeight(at)
    }
}

pub fn module(code_id: u64, msg: Binary) -> ModuleInstantiateInfo {
    ModuleInstantiateInfo {
        code_id,
        msg,
        admin: Some(Admin::CoreModule {}),
        funds: vec![],
        label: "m".into(),
    }
}

pub struct Dao {
    pub core: Addr,
    pub voting: Addr,
    pub modules: Vec<Addr>,
}

pub fn powers_msg(powers: &[(String, u128)]) -> MockMsg {
    MockMsg::SetPowers {
        powers: powers.iter().map(|(a, p)| (a.clone(), Uint128::new(*p))).collect(),
    }
}

/// A DAO whose admin is "admin", with the given voting and proposal modules.
pub fn new_dao(
    app: &mut VApp,
    voting: ModuleInstantiateInfo,
    modules: Vec<ModuleInstantiateInfo>,
) -> Result<Dao, String> {
    let core_code = app.store_code(code::core());
    let core = inst(
        app,
        core_code,
        "deployer",
        &dao_interface::msg::InstantiateMsg {
            admin: Some("admin".into()),
            name: "dao".into(),
            description: "".into(),
            image_url: None,
            automatically_add_cw20s: false,
            automatically_add_cw721s: false,
            voting_module_instantiate_info: voting,
            proposal_modules_instantiate_info: modules,
            initial_items: None,
            dao_uri: None,
        },
        &[],
        None,
    )?;
    let voting: Addr = query(app, &core, &dao_interface::msg::QueryMsg::VotingModule {})?;
    let modules: Vec<ProposalModule> = query(
        app,
        &core,
        &dao_interface::msg::QueryMsg::ProposalModules { start_after: None, limit: Some(100) },
    )?;
    Ok(Dao { core, voting, modules: modules.into_iter().map(|m| m.address).collect() })
}

pub fn mock_voting(app: &mut VApp, powers: &[(String, u128)]) -> ModuleInstantiateInfo {
    let code = app.store_code(code::mock());
    module(code, to_json_binary(&powers_msg(powers)).unwrap())
}

/// Run messages as the DAO, through its admin.
pub fn as_dao(
    app: &mut VApp,
    core: &Addr,
    msgs: Vec<cosmwasm_std::CosmosMsg<Empty>>,
) -> Result<(), String> {
    exec(app, "admin", core, &dao_interface::msg::ExecuteMsg::ExecuteAdminMsgs { msgs }, &[])
        .map(|_| ())
}

pub fn wasm_msg<M: Serialize>(to: &Addr, msg: &M) -> cosmwasm_std::CosmosMsg<Empty> {
    cosmwasm_std::WasmMsg::Execute {
        contract_addr: to.to_string(),
        msg: to_json_binary(msg).unwrap(),
        funds: vec![],
    }
    .into()
}

/// Compare "did it succeed" with the model's verdict.
pub fn agree<T>(
    what: impl std::fmt::Display,
    got: &Result<T, String>,
    want: &Result<(), &'static str>,
    tags: &[&'static str],
) -> R {
    match (got, want) {
        (Ok(_), Ok(())) | (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(why)) => Err(Fail::new(format!(
            "{what}: accepted, but must be refused ({why})"
        ))
        .tag(tags)),
        (Err(e), Ok(())) => {
            let n = e.chars().count();
            let e: String = e.chars().skip(n.saturating_sub(240)).collect();
            Err(Fail::new(format!("{what}: refused (..{e}), but must be accepted")).tag(tags))
        }
    }
}

pub fn harness<T>(r: Result<T, String>) -> R<T> {
    r.map_err(|e| Fail::new(format!("set-up step failed: {e}")))
}

/// A single- or multiple-choice proposal module, spoken to in the vocabulary they share:
/// "yes" is option 0 of a multiple-choice proposal and "no" is none of the above.
#[derive(Clone, Debug)]
pub struct Pm {
    pub multi: bool,
    pub addr: Addr,
}

use serde_json::{json, Value};

impl Pm {
    pub fn code(multi: bool) -> Box<dyn cw_multi_test::Contract<Empty>> {
        if multi {
            code::multiple()
        } else {
            code::single()
        }
    }
    pub fn pre_code(multi: bool) -> Box<dyn cw_multi_test::Contract<Empty>> {
        if multi {
            code::pre_multiple()
        } else {
            code::pre_single()
        }
    }
    /// Majority of those voting decides; a quorum of one vote in a hundred.
    pub fn init(
        multi: bool,
        close_fail: bool,
        max: u64,
        members_execute: bool,
        pre: Value,
        veto: Option<Value>,
    ) -> Binary {
        let mut m = json!({
            "max_voting_period": {"height": max},
            "min_voting_period": null,
            "only_members_execute": members_execute,
            "allow_revoting": false,
            "pre_propose_info": pre,
            "close_proposal_on_execution_failure": close_fail,
            "veto": veto,
        });
        if multi {
            m["voting_strategy"] = json!({"single_choice": {"quorum": {"percent": "0.01"}}});
        } else {
            m["threshold"] = json!({"threshold_quorum": {"threshold": {"majority": {}}, "quorum": {"percent": "0.01"}}});
        }
        to_json_binary(&m).unwrap()
    }
    pub fn vote_val(&self, yes: bool) -> Value {
        match (self.multi, yes) {
            (false, true) => json!("yes"),
            (false, false) => json!("no"),
            // option 0 or none of the above (two options before it)
            (true, true) => json!({"option_id": 0}),
            (true, false) => json!({"option_id": 2}),
        }
    }
    /// Body of a propose message; `proposer: None` leaves the field out.
    pub fn body(
        &self,
        title: &str,
        msgs: &[cosmwasm_std::CosmosMsg<Empty>],
        vote: Option<bool>,
        proposer: Option<&str>,
    ) -> Value {
        let vote = vote.map(|y| json!({"vote": self.vote_val(y), "rationale": null}));
        let mut v = if self.multi {
            json!({"title": title, "description": "d", "vote": vote, "choices": {"options": [
                {"title": "a", "description": "a", "msgs": msgs},
                {"title": "b", "description": "b", "msgs": []},
            ]}})
        } else {
            json!({"title": title, "description": "d", "msgs": msgs, "vote": vote})
        };
        if let Some(p) = proposer {
            v["proposer"] = json!(p);
        }
        v
    }
    /// Through a pre-propose module.
    pub fn pre_body(
        &self,
        title: &str,
        msgs: &[cosmwasm_std::CosmosMsg<Empty>],
        vote: Option<bool>,
    ) -> Value {
        json!({"propose": {"msg": {"propose": self.body(title, msgs, vote, None)}}})
    }
    pub fn vote(&self, id: u64, yes: bool) -> Value {
        json!({"vote": {"proposal_id": id, "vote": self.vote_val(yes), "rationale": null}})
    }
    pub fn act(&self, what: &str, id: u64) -> Value {
        json!({what: {"proposal_id": id}})
    }
    pub fn proposal(&self, app: &VApp, id: u64) -> crate::fw::R<Value> {
        let v: Value = q(app, &self.addr, &json!({"proposal": {"proposal_id": id}}))?;
        Ok(v["proposal"].clone())
    }
    pub fn status(&self, app: &VApp, id: u64) -> crate::fw::R<dao_voting::status::Status> {
        let v = self.proposal(app, id)?;
        serde_json::from_value(v["status"].clone())
            .map_err(|e| Fail::new(format!("unreadable status: {e}")))
    }
    /// The pre-propose module in force, None when anybody may propose.
    pub fn policy(&self, app: &VApp) -> crate::fw::R<Option<Addr>> {
        use dao_voting::pre_propose::ProposalCreationPolicy as P;
        let p: P = q(app, &self.addr, &json!({"proposal_creation_policy": {}}))?;
        Ok(match p {
            P::Anyone {} => None,
            P::Module { addr } => Some(addr),
        })
    }
    pub fn count(&self, app: &VApp) -> crate::fw::R<u64> {
        q(app, &self.addr, &json!({"proposal_count": {}}))
    }
}

pub fn pre_info(code: u64, msg: Binary) -> Value {
    json!({"module_may_propose": {"info": module(code, msg)}})
}

/// A reference for who owns a contract under cw-ownable.
#[derive(Clone, Debug, Default)]
pub struct Owned {
    pub owner: Option<String>,
    pub pending: Option<(String, Option<Expiration>)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum OwnAct {
    /// to whom, and the deadline (by time or height, so many from now)
    Transfer(u8, Option<(bool, u8)>),
    Accept,
    Renounce,
}

pub fn own_act() -> BoxedStrategy<OwnAct> {
    prop_oneof![
        4 => (0u8..6, proptest::option::of((any::<bool>(), 0u8..12))).prop_map(|(w, e)| OwnAct::Transfer(w, e)),
        4 => Just(OwnAct::Accept),
        1 => Just(OwnAct::Renounce),
    ]
    .boxed()
}

impl OwnAct {
    pub fn json(&self, who: impl Fn(u8) -> String, b: &BlockInfo) -> Value {
        match self {
            OwnAct::Transfer(w, e) => json!({"transfer_ownership": {
                "new_owner": who(*w),
                "expiry": e.map(|(t, n)| exp_at(t, now(t, b) + n as u64)),
            }}),
            OwnAct::Accept => json!("accept_ownership"),
            OwnAct::Renounce => json!("renounce_ownership"),
        }
    }
}

impl Owned {
    pub fn new(owner: Option<String>) -> Self {
        Owned { owner, pending: None }
    }
    pub fn is(&self, who: &str) -> bool {
        self.owner.as_deref() == Some(who)
    }
    pub fn act(
        &mut self,
        by: &str,
        a: &OwnAct,
        who: impl Fn(u8) -> String,
        b: &BlockInfo,
    ) -> Result<(), &'static str> {
        match a {
            OwnAct::Accept => match &self.pending {
                None => Err("no transfer is pending"),
                Some((p, _)) if p != by => Err("not the one it is passed to"),
                Some((_, Some(e))) if e.is_expired(b) => Err("the transfer has expired"),
                Some((p, _)) => {
                    self.owner = Some(p.clone());
                    self.pending = None;
                    Ok(())
                }
            },
            _ if !self.is(by) => Err("not the owner"),
            OwnAct::Renounce => {
                *self = Owned::default();
                Ok(())
            }
            OwnAct::Transfer(w, e) => {
                let w = who(*w);
                if w.to_lowercase() != w {
                    return Err("not an address");
                }
                self.pending = Some((w, e.map(|(t, n)| exp_at(t, now(t, b) + n as u64))));
                Ok(())
            }
        }
    }
    pub fn json(&self) -> Value {
        json!({
            "owner": self.owner,
            "pending_owner": self.pending.as_ref().map(|p| &p.0),
            "pending_expiry": self.pending.as_ref().and_then(|p| p.1),
        })
    }
}
