//! The simulated chain: cw-multi-test with bank, staking and a small stand-in
//! for the token-factory and ONFT chain modules, plus one scriptable contract.

use anyhow::{anyhow, bail, Result as AnyResult};
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    coins, from_json, to_json_binary, Addr, Api, BankMsg, Binary, BlockInfo, Coin, CosmosMsg,
    CustomQuery, Deps, DepsMut, Empty, Env, GovMsg, IbcMsg, IbcQuery, MemoryStorage, MessageInfo,
    Querier, Reply, Response, Storage, Timestamp, Uint128,
};
use cw_multi_test::{
    no_init, App, AppBuilder, AppResponse, BankKeeper, BankSudo, Contract, ContractWrapper,
    CosmosRouter, DistributionKeeper, Executor, FailingModule, StakeKeeper, Stargate, SudoMsg,
    WasmKeeper,
};
use prost::Message;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::fw::{panic_msg, Fail, R};

pub type VApp = App<
    BankKeeper,
    MockApi,
    MemoryStorage,
    FailingModule<Empty, Empty, Empty>,
    WasmKeeper<Empty, Empty>,
    StakeKeeper,
    DistributionKeeper,
    FailingModule<IbcMsg, IbcQuery, Empty>,
    FailingModule<GovMsg, Empty, Empty>,
    Sg,
>;

pub const T0: u64 = 1_600_000_000;
pub const H0: u64 = 1000;

pub fn new_app() -> VApp {
    AppBuilder::default()
        .with_stargate(Sg)
        .with_block(BlockInfo {
            height: H0,
            time: Timestamp::from_seconds(T0),
            chain_id: "verif-1".into(),
        })
        .build(no_init)
}

/// Execute; a panic is what it is on chain: an aborted, reverted transaction.
pub fn exec<M: Serialize + Debug>(
    app: &mut VApp,
    sender: &str,
    contract: &Addr,
    msg: &M,
    funds: &[Coin],
) -> Result<AppResponse, String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        app.execute_contract(Addr::unchecked(sender), contract.clone(), msg, funds)
    }));
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(p) => Err(format!("panic: {}", panic_msg(p))),
    }
}

pub fn exec_msg(app: &mut VApp, sender: &str, msg: CosmosMsg) -> Result<AppResponse, String> {
    let r = catch_unwind(AssertUnwindSafe(|| app.execute(Addr::unchecked(sender), msg)));
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(p) => Err(format!("panic: {}", panic_msg(p))),
    }
}

pub fn inst<M: Serialize>(
    app: &mut VApp,
    code: u64,
    sender: &str,
    msg: &M,
    funds: &[Coin],
    admin: Option<&str>,
) -> Result<Addr, String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        app.instantiate_contract(
            code,
            Addr::unchecked(sender),
            msg,
            funds,
            "c",
            admin.map(|a| a.to_string()),
        )
    }));
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(p) => Err(format!("panic: {}", panic_msg(p))),
    }
}

pub fn sudo<M: Serialize>(app: &mut VApp, contract: &Addr, msg: &M) -> Result<AppResponse, String> {
    let r = catch_unwind(AssertUnwindSafe(|| app.wasm_sudo(contract.clone(), msg)));
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(p) => Err(format!("panic: {}", panic_msg(p))),
    }
}

pub fn query<T: DeserializeOwned, M: Serialize>(
    app: &VApp,
    contract: &Addr,
    msg: &M,
) -> Result<T, String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        app.wrap().query_wasm_smart::<T>(contract.to_string(), msg)
    }));
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(format!("panic: {}", panic_msg(p))),
    }
}

/// A query the oracle says must answer.
pub fn q<T: DeserializeOwned, M: Serialize + Debug>(app: &VApp, contract: &Addr, msg: &M) -> R<T> {
    query(app, contract, msg).map_err(|e| Fail::new(format!("query {msg:?} failed: {e}")))
}

pub fn bank(app: &VApp, who: &str, denom: &str) -> u128 {
    app.wrap().query_balance(who, denom).unwrap().amount.u128()
}

pub fn fund_account(app: &mut VApp, who: &str, amount: u128, denom: &str) {
    if amount == 0 {
        return;
    }
    app.sudo(SudoMsg::Bank(BankSudo::Mint {
        to_address: who.into(),
        amount: coins(amount, denom),
    }))
    .unwrap();
}

pub fn cw20_balance(app: &VApp, token: &Addr, who: &str) -> u128 {
    let r: cw20::BalanceResponse = app
        .wrap()
        .query_wasm_smart(token, &cw20::Cw20QueryMsg::Balance { address: who.into() })
        .unwrap();
    r.balance.u128()
}

/// A cw20-base token; minter "minter".
pub fn new_cw20(app: &mut VApp, balances: &[(String, u128)]) -> Addr {
    let code = app.store_code(code::cw20());
    inst(
        app,
        code,
        "minter",
        &cw20_base::msg::InstantiateMsg {
            name: "token".into(),
            symbol: "TOK".into(),
            decimals: 6,
            initial_balances: balances
                .iter()
                .map(|(a, n)| cw20::Cw20Coin { address: a.clone(), amount: Uint128::new(*n) })
                .collect(),
            mint: Some(cw20::MinterResponse { minter: "minter".into(), cap: None }),
            marketing: None,
        },
        &[],
        None,
    )
    .unwrap()
}

pub fn advance(app: &mut VApp, blocks: u64, secs: u64) {
    app.update_block(|b| {
        b.height += blocks;
        b.time = b.time.plus_seconds(secs);
    });
}

pub fn user(i: usize) -> String {
    format!("user{i}")
}

// ------------------------------------------------------------------ chain modules

/// Token-factory (osmosis flavour) and OmniFlix ONFT stand-in.
pub struct Sg;

#[derive(Serialize, Deserialize, Default, Clone, Debug)]
pub struct TfDenom {
    pub admin: String,
    pub hook: String,
    pub metadata: Option<osmosis_std::types::cosmos::bank::v1beta1::Metadata>,
}

fn tf_key(denom: &str) -> Vec<u8> {
    format!("sg/tf/{denom}").into_bytes()
}
fn nft_key(denom: &str) -> Vec<u8> {
    format!("sg/onft/{denom}").into_bytes()
}

fn load<T: DeserializeOwned>(s: &dyn Storage, k: &[u8]) -> Option<T> {
    s.get(k).map(|b| serde_json::from_slice(&b).unwrap())
}
fn store<T: Serialize>(s: &mut dyn Storage, k: &[u8], v: &T) {
    s.set(k, &serde_json::to_vec(v).unwrap())
}

#[derive(Serialize, Deserialize, Default, Clone, Debug)]
pub struct OnftCollection {
    pub creator: String,
    /// id -> owner
    pub owners: BTreeMap<String, String>,
}

/// BitSong's fan tokens, after go-bitsong's proto/bitsong/fantoken/v1beta1/tx.proto
mod fan {
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct Coin {
        #[prost(string, tag = "1")]
        pub denom: String,
        #[prost(string, tag = "2")]
        pub amount: String,
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct MsgIssue {
        #[prost(string, tag = "1")]
        pub symbol: String,
        #[prost(string, tag = "2")]
        pub name: String,
        #[prost(string, tag = "3")]
        pub max_supply: String,
        #[prost(string, tag = "4")]
        pub authority: String,
        #[prost(string, tag = "5")]
        pub minter: String,
        #[prost(string, tag = "6")]
        pub uri: String,
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct MsgIssueResponse {
        #[prost(string, tag = "1")]
        pub denom: String,
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct MsgMint {
        #[prost(string, tag = "1")]
        pub recipient: String,
        #[prost(message, optional, tag = "2")]
        pub coin: Option<Coin>,
        #[prost(string, tag = "3")]
        pub minter: String,
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct MsgSetMinter {
        #[prost(string, tag = "1")]
        pub denom: String,
        #[prost(string, tag = "2")]
        pub old_minter: String,
        #[prost(string, tag = "3")]
        pub new_minter: String,
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct MsgSetAuthority {
        #[prost(string, tag = "1")]
        pub denom: String,
        #[prost(string, tag = "2")]
        pub old_authority: String,
        #[prost(string, tag = "3")]
        pub new_authority: String,
    }
}

#[derive(Serialize, Deserialize, Default, Clone, Debug)]
pub struct FanToken {
    pub name: String,
    pub symbol: String,
    pub uri: String,
    pub max_supply: u128,
    pub supply: u128,
    pub minter: String,
    pub authority: String,
}

fn fan_key(denom: &str) -> Vec<u8> {
    format!("sg/fan/{denom}").into_bytes()
}
fn need_fan(s: &dyn Storage, denom: &str) -> AnyResult<FanToken> {
    load(s, &fan_key(denom)).ok_or_else(|| anyhow!("no such fan token"))
}
pub fn fan_token(app: &VApp, denom: &str) -> Option<FanToken> {
    load(app.storage(), &fan_key(denom))
}

impl Stargate for Sg {
    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        type_url: String,
        value: Binary,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + schemars::JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        use omniflix_std::types::omniflix::onft::v1beta1 as onft;
        use osmosis_std::types::osmosis::tokenfactory::v1beta1 as tf;
        let need_admin = |s: &dyn Storage, denom: &str, sender: &Addr| -> AnyResult<TfDenom> {
            let d: TfDenom = load(s, &tf_key(denom)).ok_or_else(|| anyhow!("denom does not exist"))?;
            if d.admin != sender.as_str() {
                bail!("unauthorized: not the admin of {denom}")
            }
            Ok(d)
        };
        let amount = |c: Option<osmosis_std::types::cosmos::base::v1beta1::Coin>| -> AnyResult<Coin> {
            let c = c.ok_or_else(|| anyhow!("no amount"))?;
            let amount: u128 = c.amount.parse()?;
            if amount == 0 {
                bail!("invalid amount")
            }
            Ok(Coin { denom: c.denom, amount: amount.into() })
        };
        let signed = |by: &str| if by == sender.as_str() { Ok(()) } else { Err(anyhow!("wrong signer {by}")) };
        match type_url.as_str() {
            "/osmosis.tokenfactory.v1beta1.MsgCreateDenom" => {
                let m = tf::MsgCreateDenom::try_from(value.clone()).map_err(|e| anyhow!("{e}"))?;
                if m.sender != sender.as_str() {
                    bail!("wrong signer")
                }
                let denom = format!("factory/{}/{}", m.sender, m.subdenom);
                if load::<TfDenom>(storage, &tf_key(&denom)).is_some() {
                    bail!("denom already exists")
                }
                store(
                    storage,
                    &tf_key(&denom),
                    &TfDenom { admin: sender.to_string(), ..Default::default() },
                );
                let resp = tf::MsgCreateDenomResponse { new_token_denom: denom };
                Ok(AppResponse { events: vec![], data: Some(Binary::from(resp.to_proto_bytes())) })
            }
            "/osmosis.tokenfactory.v1beta1.MsgMint" => {
                let m = tf::MsgMint::try_from(value.clone()).map_err(|e| anyhow!("{e}"))?;
                signed(&m.sender)?;
                let c = amount(m.amount)?;
                need_admin(storage, &c.denom, &sender)?;
                let to = if m.mint_to_address.is_empty() { m.sender } else { m.mint_to_address };
                router.sudo(
                    api,
                    storage,
                    block,
                    SudoMsg::Bank(BankSudo::Mint { to_address: to, amount: vec![c] }),
                )
            }
            "/osmosis.tokenfactory.v1beta1.MsgBurn" => {
                let m = tf::MsgBurn::try_from(value.clone()).map_err(|e| anyhow!("{e}"))?;
                signed(&m.sender)?;
                let c = amount(m.amount)?;
                need_admin(storage, &c.denom, &sender)?;
                let from = if m.burn_from_address.is_empty() { m.sender } else { m.burn_from_address };
                router.execute(
                    api,
                    storage,
                    block,
                    Addr::unchecked(from),
                    BankMsg::Burn { amount: vec![c] }.into(),
                )
            }
            "/osmosis.tokenfactory.v1beta1.MsgForceTransfer" => {
                let m = tf::MsgForceTransfer::try_from(value.clone()).map_err(|e| anyhow!("{e}"))?;
                signed(&m.sender)?;
                let c = amount(m.amount)?;
                need_admin(storage, &c.denom, &sender)?;
                router.execute(
                    api,
                    storage,
                    block,
                    Addr::unchecked(m.transfer_from_address),
                    BankMsg::Send { to_address: m.transfer_to_address, amount: vec![c] }.into(),
                )
            }
            "/osmosis.tokenfactory.v1beta1.MsgChangeAdmin" => {
                let m = tf::MsgChangeAdmin::try_from(value.clone()).map_err(|e| anyhow!("{e}"))?;
                signed(&m.sender)?;
                let mut d = need_admin(storage, &m.denom, &sender)?;
                d.admin = m.new_admin;
                store(storage, &tf_key(&m.denom), &d);
                Ok(AppResponse::default())
            }
            "/osmosis.tokenfactory.v1beta1.MsgSetBeforeSendHook" => {
                let m = tf::MsgSetBeforeSendHook::try_from(value.clone()).map_err(|e| anyhow!("{e}"))?;
                signed(&m.sender)?;
                let mut d = need_admin(storage, &m.denom, &sender)?;
                d.hook = m.cosmwasm_address;
                store(storage, &tf_key(&m.denom), &d);
                Ok(AppResponse::default())
            }
            "/osmosis.tokenfactory.v1beta1.MsgSetDenomMetadata" => {
                let m = tf::MsgSetDenomMetadata::try_from(value.clone()).map_err(|e| anyhow!("{e}"))?;
                signed(&m.sender)?;
                let md = m.metadata.ok_or_else(|| anyhow!("no metadata"))?;
                let mut d = need_admin(storage, &md.base, &sender)?;
                let base = md.base.clone();
                d.metadata = Some(md);
                store(storage, &tf_key(&base), &d);
                Ok(AppResponse::default())
            }
            "/OmniFlix.onft.v1beta1.MsgCreateDenom" => {
                let m = onft::MsgCreateDenom::decode(value.as_slice())?;
                let c = OnftCollection { creator: sender.to_string(), owners: BTreeMap::new() };
                store(storage, &nft_key(&m.id), &c);
                Ok(AppResponse::default())
            }
            "/OmniFlix.onft.v1beta1.MsgMintONFT" => {
                let m = onft::MsgMintOnft::decode(value.as_slice())?;
                let mut c: OnftCollection =
                    load(storage, &nft_key(&m.denom_id)).ok_or_else(|| anyhow!("no collection"))?;
                if c.owners.insert(m.id, m.recipient).is_some() {
                    bail!("already minted")
                }
                store(storage, &nft_key(&m.denom_id), &c);
                Ok(AppResponse::default())
            }
            "/OmniFlix.onft.v1beta1.MsgTransferONFT" => {
                let m = onft::MsgTransferOnft::decode(value.as_slice())?;
                let mut c: OnftCollection =
                    load(storage, &nft_key(&m.denom_id)).ok_or_else(|| anyhow!("no collection"))?;
                match c.owners.get_mut(&m.id) {
                    // the chain only lets the owner transfer
                    Some(o) if o.as_str() == sender.as_str() && m.sender == sender.as_str() => {
                        *o = m.recipient
                    }
                    _ => bail!("unauthorized transfer of {}", m.id),
                }
                store(storage, &nft_key(&m.denom_id), &c);
                Ok(AppResponse::default())
            }
            "/bitsong.fantoken.MsgIssue" => {
                let m = fan::MsgIssue::decode(value.as_slice())?;
                if m.authority != sender.as_str() {
                    bail!("wrong signer")
                }
                let n = load::<u64>(storage, b"sg/fans").unwrap_or(0) + 1;
                store(storage, b"sg/fans", &n);
                let denom = format!("ft{n}");
                let f = FanToken {
                    name: m.name,
                    symbol: m.symbol,
                    uri: m.uri,
                    max_supply: m.max_supply.parse()?,
                    supply: 0,
                    minter: m.minter,
                    authority: m.authority,
                };
                store(storage, &fan_key(&denom), &f);
                let resp = fan::MsgIssueResponse { denom };
                Ok(AppResponse { events: vec![], data: Some(Binary::from(resp.encode_to_vec())) })
            }
            "/bitsong.fantoken.MsgMint" => {
                let m = fan::MsgMint::decode(value.as_slice())?;
                let c = m.coin.ok_or_else(|| anyhow!("no coin"))?;
                let (amount, mut f) = (c.amount.parse::<u128>()?, need_fan(storage, &c.denom)?);
                if amount == 0 {
                    bail!("nothing to mint")
                }
                if f.minter != sender.as_str() || m.minter != sender.as_str() {
                    bail!("not the minter")
                }
                f.supply = f.supply.checked_add(amount).ok_or_else(|| anyhow!("too much"))?;
                if f.supply > f.max_supply {
                    bail!("more than the maximal supply")
                }
                api.addr_validate(&m.recipient)?;
                store(storage, &fan_key(&c.denom), &f);
                router.sudo(
                    api,
                    storage,
                    block,
                    SudoMsg::Bank(BankSudo::Mint {
                        to_address: m.recipient,
                        amount: coins(amount, c.denom),
                    }),
                )
            }
            "/bitsong.fantoken.MsgSetMinter" => {
                let m = fan::MsgSetMinter::decode(value.as_slice())?;
                let mut f = need_fan(storage, &m.denom)?;
                if f.minter != sender.as_str() || m.old_minter != sender.as_str() {
                    bail!("not the minter")
                }
                f.minter = m.new_minter;
                store(storage, &fan_key(&m.denom), &f);
                Ok(AppResponse::default())
            }
            "/bitsong.fantoken.MsgSetAuthority" => {
                let m = fan::MsgSetAuthority::decode(value.as_slice())?;
                let mut f = need_fan(storage, &m.denom)?;
                if f.authority != sender.as_str() || m.old_authority != sender.as_str() {
                    bail!("not the authority")
                }
                f.authority = m.new_authority;
                store(storage, &fan_key(&m.denom), &f);
                Ok(AppResponse::default())
            }
            other => bail!("unexpected stargate message {other}"),
        }
    }

    fn query(
        &self,
        _api: &dyn Api,
        storage: &dyn Storage,
        _querier: &dyn Querier,
        _block: &BlockInfo,
        path: String,
        data: Binary,
    ) -> AnyResult<Binary> {
        use omniflix_std::types::omniflix::onft::v1beta1 as onft;
        match path.as_str() {
            "/OmniFlix.onft.v1beta1.Query/ONFT" => {
                let m = onft::QueryOnftRequest::decode(data.as_slice())?;
                let c: OnftCollection =
                    load(storage, &nft_key(&m.denom_id)).ok_or_else(|| anyhow!("no collection"))?;
                let onft = c.owners.get(&m.id).map(|o| onft::Onft {
                    id: m.id.clone(),
                    created_at: None,
                    nsfw: false,
                    owner: o.clone(),
                    data: String::new(),
                    transferable: true,
                    extensible: false,
                    metadata: None,
                    royalty_share: String::new(),
                });
                Ok(to_json_binary(&onft::QueryOnftResponse { onft })?)
            }
            "/OmniFlix.onft.v1beta1.Query/Supply" => {
                let m = onft::QuerySupplyRequest::decode(data.as_slice())?;
                let c: OnftCollection =
                    load(storage, &nft_key(&m.denom_id)).ok_or_else(|| anyhow!("no collection"))?;
                Ok(to_json_binary(&onft::QuerySupplyResponse { amount: c.owners.len() as u64 })?)
            }
            other => bail!("unexpected stargate query {other}"),
        }
    }
}

pub fn tf_denom(app: &VApp, denom: &str) -> Option<TfDenom> {
    load(app.storage(), &tf_key(denom))
}

pub fn onft_collection(app: &VApp, id: &str) -> OnftCollection {
    load(app.storage(), &nft_key(id)).unwrap_or_default()
}

// ------------------------------------------------------------------ scriptable contract

/// One contract that can play a voting module with freely set powers, a hook
/// receiver that refuses on demand, a message target, or a wallet that sends
/// several messages in one transaction.
pub struct Mock;

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum MockMsg {
    /// Powers as seen from the next block on.
    SetPowers { powers: Vec<(String, Uint128)> },
    SetActive { active: bool },
    /// Be a voting module that knows no `IsActive`.
    SetMute { mute: bool },
    SetFail { fail: bool },
    /// What the voting module says its token is.
    SetToken { cw20: Option<String>, denom: Option<String> },
    Bump {},
    Fail {},
    Run { msgs: Vec<CosmosMsg> },
    /// On instantiation: run these messages at once.
    Spawn { msgs: Vec<CosmosMsg> },
    /// Run these messages and answer with this data.
    Make { msgs: Vec<CosmosMsg>, data: Option<Binary> },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum MockQuery {
    Log {},
    Count {},
    VotingPowerAtHeight { address: String, height: Option<u64> },
    TotalPowerAtHeight { height: Option<u64> },
    IsActive {},
    Dao {},
    Info {},
    Denom {},
    TokenContract {},
}

#[derive(Serialize, Deserialize, Default)]
struct MockState {
    cw20: Option<String>,
    denom: Option<String>,
    dao: String,
    active: bool,
    mute: bool,
    fail: bool,
    count: u64,
    /// (height at which it was set, powers)
    history: Vec<(u64, Vec<(String, Uint128)>)>,
    log: Vec<serde_json::Value>,
}

impl MockState {
    fn at(&self, h: u64) -> Vec<(String, Uint128)> {
        self.history
            .iter()
            .filter(|(set, _)| *set < h)
            .next_back()
            .map(|x| x.1.clone())
            .unwrap_or_default()
    }
}

impl Contract<Empty> for Mock {
    fn instantiate(&self, deps: DepsMut, env: Env, info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response> {
        let mut st = MockState { dao: info.sender.into(), active: true, ..Default::default() };
        if let Ok(MockMsg::SetPowers { powers }) = serde_json::from_slice(&msg) {
            st.history.push((env.block.height - 1, powers));
        }
        store(deps.storage, b"s", &st);
        Ok(match serde_json::from_slice(&msg) {
            // messages the instantiator is asked to run
            Ok(MockMsg::Run { msgs }) => Response::new().set_data(to_json_binary(
                &dao_interface::state::ModuleInstantiateCallback { msgs },
            )?),
            // data that asks for nothing
            Ok(MockMsg::Bump {}) => Response::new().set_data(b"{\"more\":[]}"),
            Ok(MockMsg::Fail {}) => bail!("told to fail"),
            Ok(MockMsg::Spawn { msgs }) => Response::new().add_messages(msgs),
            _ => Response::new(),
        })
    }
    fn execute(&self, deps: DepsMut, env: Env, info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response> {
        let mut st: MockState = load(deps.storage, b"s").unwrap();
        let mut resp = Response::new();
        match serde_json::from_slice::<MockMsg>(&msg) {
            Ok(MockMsg::SetPowers { powers }) => {
                st.history.retain(|(h, _)| *h != env.block.height);
                st.history.push((env.block.height, powers));
            }
            Ok(MockMsg::SetActive { active }) => st.active = active,
            Ok(MockMsg::SetMute { mute }) => st.mute = mute,
            Ok(MockMsg::SetFail { fail }) => st.fail = fail,
            Ok(MockMsg::SetToken { cw20, denom }) => {
                st.cw20 = cw20;
                st.denom = denom;
            }
            Ok(MockMsg::Bump {}) => st.count += 1,
            Ok(MockMsg::Fail {}) => bail!("told to fail"),
            Ok(MockMsg::Run { msgs } | MockMsg::Spawn { msgs }) => resp = resp.add_messages(msgs),
            Ok(MockMsg::Make { msgs, data }) => {
                resp = resp.add_messages(msgs);
                resp.data = data;
            }
            Err(_) => {
                if st.fail {
                    bail!("hook refuses")
                }
                let v: serde_json::Value = serde_json::from_slice(&msg)?;
                let funds: Vec<_> =
                    info.funds.iter().map(|c| format!("{}{}", c.amount, c.denom)).collect();
                st.log.push(serde_json::json!({
                    "from": info.sender, "msg": v, "funds": funds, "height": env.block.height
                }));
            }
        }
        store(deps.storage, b"s", &st);
        Ok(resp)
    }
    fn query(&self, deps: Deps, env: Env, msg: Vec<u8>) -> AnyResult<Binary> {
        let st: MockState = load(deps.storage, b"s").unwrap();
        let m: MockQuery = serde_json::from_slice(&msg)?;
        Ok(match m {
            MockQuery::Log {} => to_json_binary(&serde_json::to_string(&st.log)?)?,
            MockQuery::Count {} => to_json_binary(&st.count)?,
            MockQuery::VotingPowerAtHeight { address, height } => {
                let height = height.unwrap_or(env.block.height);
                let power = st
                    .at(height)
                    .into_iter()
                    .find(|(a, _)| *a == address)
                    .map(|x| x.1)
                    .unwrap_or_default();
                to_json_binary(&dao_interface::voting::VotingPowerAtHeightResponse { power, height })?
            }
            MockQuery::TotalPowerAtHeight { height } => {
                let height = height.unwrap_or(env.block.height);
                let power = st.at(height).into_iter().map(|x| x.1).sum();
                to_json_binary(&dao_interface::voting::TotalPowerAtHeightResponse { power, height })?
            }
            MockQuery::IsActive {} if st.mute => bail!("unknown query"),
            MockQuery::IsActive {} => {
                to_json_binary(&dao_interface::voting::IsActiveResponse { active: st.active })?
            }
            MockQuery::Dao {} => to_json_binary(&st.dao)?,
            MockQuery::Denom {} => to_json_binary(&serde_json::json!({
                "denom": st.denom.ok_or_else(|| anyhow!("no native token"))?
            }))?,
            MockQuery::TokenContract {} => {
                to_json_binary(&st.cw20.ok_or_else(|| anyhow!("no cw20"))?)?
            }
            MockQuery::Info {} => to_json_binary(&dao_interface::voting::InfoResponse {
                info: cw2::ContractVersion { contract: "mock".into(), version: "1.0.0".into() },
            })?,
        })
    }
    fn sudo(&self, _: DepsMut, _: Env, _: Vec<u8>) -> AnyResult<Response> {
        bail!("no sudo")
    }
    fn reply(&self, _: DepsMut, _: Env, _: Reply) -> AnyResult<Response> {
        bail!("no reply")
    }
    fn migrate(&self, _: DepsMut, _: Env, _: Vec<u8>) -> AnyResult<Response> {
        bail!("no migrate")
    }
}

pub fn mock_log(app: &VApp, c: &Addr) -> Vec<serde_json::Value> {
    let s: String = app.wrap().query_wasm_smart(c, &MockQuery::Log {}).unwrap();
    serde_json::from_str(&s).unwrap()
}
pub fn mock_count(app: &VApp, c: &Addr) -> u64 {
    app.wrap().query_wasm_smart(c, &MockQuery::Count {}).unwrap()
}
pub fn new_mock(app: &mut VApp) -> Addr {
    let code = app.store_code(code::mock());
    inst(app, code, "deployer", &Empty {}, &[], None).unwrap()
}

#[allow(dead_code)]
pub fn unused(_: &Binary) -> Option<Empty> {
    from_json(b"{}").ok()
}

// ------------------------------------------------------------------ code

pub mod code {
    use super::*;
    type C = Box<dyn Contract<Empty>>;
    macro_rules! plain {
        ($n:ident, $k:ident) => {
            pub fn $n() -> C {
                Box::new(ContractWrapper::new(
                    $k::contract::execute,
                    $k::contract::instantiate,
                    $k::contract::query,
                ))
            }
        };
    }
    macro_rules! replying {
        ($n:ident, $k:ident) => {
            pub fn $n() -> C {
                Box::new(
                    ContractWrapper::new(
                        $k::contract::execute,
                        $k::contract::instantiate,
                        $k::contract::query,
                    )
                    .with_reply($k::contract::reply),
                )
            }
        };
    }
    pub fn mock() -> C {
        Box::new(Mock)
    }
    plain!(cw20, cw20_base);
    plain!(cw4_group, cw4_group);
    pub fn cw721() -> C {
        Box::new(ContractWrapper::new(
            cw721_base::entry::execute,
            cw721_base::entry::instantiate,
            cw721_base::entry::query,
        ))
    }
    plain!(cw721_roles, cw721_roles);
    plain!(cw20_stake, cw20_stake);
    plain!(cw20_stake_external_rewards, cw20_stake_external_rewards);
    plain!(cw20_stake_reward_distributor, cw20_stake_reward_distributor);
    replying!(condorcet, dao_proposal_condorcet);
    replying!(single, dao_proposal_single);
    replying!(multiple, dao_proposal_multiple);
    plain!(pre_single, dao_pre_propose_single);
    plain!(pre_multiple, dao_pre_propose_multiple);
    plain!(pre_approval, dao_pre_propose_approval_single);
    plain!(pre_approver, dao_pre_propose_approver);
    replying!(voting_cw4, dao_voting_cw4);
    replying!(voting_cw20_staked, dao_voting_cw20_staked);
    replying!(voting_token_staked, dao_voting_token_staked);
    replying!(voting_cw721_staked, dao_voting_cw721_staked);
    replying!(voting_cw721_roles, dao_voting_cw721_roles);
    plain!(voting_onft_staked, dao_voting_onft_staked);
    replying!(core, dao_dao_core);
    plain!(vesting, cw_vesting);
    pub fn fund_distributor() -> C {
        use cw_fund_distributor::contract::*;
        Box::new(ContractWrapper::new(execute, instantiate, query).with_migrate(migrate))
    }
    plain!(rewards_distributor, dao_rewards_distributor);
    replying!(admin_factory, cw_admin_factory);
    replying!(payroll_factory, cw_payroll_factory);
    plain!(token_swap, cw_token_swap);
    plain!(prop_sudo, dao_proposal_sudo);
    replying!(custom_factory, dao_test_custom_factory);
    replying!(btsg_factory, btsg_ft_factory);
    pub fn tf_issuer() -> C {
        Box::new(
            ContractWrapper::new(
                cw_tokenfactory_issuer::contract::execute,
                cw_tokenfactory_issuer::contract::instantiate,
                cw_tokenfactory_issuer::contract::query,
            )
            .with_reply(cw_tokenfactory_issuer::contract::reply)
            .with_sudo(cw_tokenfactory_issuer::contract::sudo),
        )
    }
}
