//! The query messages of cw20-staked-balance-voting 0.1.0, which is not available
//! offline: what dao-migrator names of it.

pub mod msg {
    use serde::{Deserialize, Serialize};

    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
    #[serde(rename_all = "snake_case")]
    pub enum QueryMsg {
        StakingContract {},
        Dao {},
        ActiveThreshold {},
        VotingPowerAtHeight { address: String, height: Option<u64> },
        TotalPowerAtHeight { height: Option<u64> },
        TokenContract {},
        IsActive {},
        Info {},
    }
}
