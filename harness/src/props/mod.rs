mod approval;
pub mod common;
mod condorcet;
mod core;
mod denoms;
mod hooks;
mod issuer;
mod members;
mod migrator;
mod multiple;
mod libs;
mod nfts;
mod prepropose;
mod rewards;
mod stakerewards;
mod externals;
pub mod funds;
pub mod upgrade;
mod vest;
mod setup;
mod single;
mod stakes;

use crate::fw::Session;

pub fn dispatch(prop: &str, s: &mut Session) {
    match prop {
        "P01" => s.check(single::Single(single::Focus::Decision), 40_000, 400_000),
        "P02" => s.check(single::Single(single::Focus::Ballots), 30_000, 300_000),
        "P03" => s.check(single::Single(single::Focus::Life), 30_000, 300_000),
        "P04" => s.check(multiple::Multi(multiple::Focus::Decision), 40_000, 400_000),
        "P05" => {
            s.check(multiple::Multi(multiple::Focus::Ballots), 20_000, 200_000);
            s.check(multiple::Multi(multiple::Focus::Life), 20_000, 200_000)
        }
        "P06" => s.check(condorcet::Condorcet, 40_000, 400_000),
        "P07" => {
            s.check(prepropose::Pre(prepropose::Focus::Deposits), 12_000, 180_000);
            s.check(approval::Approval(false), 6_000, 100_000)
        }
        "P08" => {
            s.check(prepropose::Pre(prepropose::Focus::Policy), 14_000, 200_000);
            s.check(approval::Approval(false), 4_000, 60_000)
        }
        "P09" => s.check(approval::Approval(false), 12_000, 150_000),
        "P10" => s.check(hooks::Hooks, 12_000, 120_000),
        "V01" => s.check(stakes::Stakes { cw20: false, focus: stakes::Focus::Custody }, 16_000, 200_000),
        "V02" => s.check(stakes::Stakes { cw20: true, focus: stakes::Focus::Custody }, 12_000, 150_000),
        "S01" => s.check(stakes::Stakes { cw20: true, focus: stakes::Focus::Custody }, 12_000, 150_000),
        "V03" => s.check(nfts::Nfts { onft: false, focus: stakes::Focus::Custody }, 8_000, 100_000),
        "V04" => s.check(nfts::Nfts { onft: true, focus: stakes::Focus::Custody }, 12_000, 150_000),
        "V06" => {
            s.check(nfts::Nfts { onft: false, focus: stakes::Focus::Activity }, 3_000, 40_000);
            s.check(nfts::Nfts { onft: true, focus: stakes::Focus::Activity }, 4_000, 40_000);
            s.check(stakes::Stakes { cw20: false, focus: stakes::Focus::Activity }, 6_000, 60_000);
            s.check(stakes::Stakes { cw20: true, focus: stakes::Focus::Activity }, 6_000, 60_000)
        }
        "V05" => {
            s.check(members::Group, 16_000, 300_000);
            s.check(members::Roles, 3_000, 60_000)
        }
        "V07" => s.check(setup::Setup, 60_000, 800_000),
        "M01" => {
            s.check(single::Single(single::Focus::Upgrade), 10_000, 300_000);
            s.check(core::Core(core::Focus::Upgrade), 8_000, 200_000);
            s.check(prepropose::Pre(prepropose::Focus::Upgrade), 8_000, 200_000);
            s.check(approval::Approval(true), 5_000, 100_000);
            s.check(upgrade::StakeUp, 5_000, 80_000);
        }
        "M02" => s.check(migrator::Migrator, 8_000, 150_000),
        "E05" => s.check(issuer::Issuer, 20_000, 300_000),
        "E06" => s.check(members::Roles, 9_000, 150_000),
        "G01" => s.check(core::Core(core::Focus::Authority), 40_000, 200_000),
        "G02" => s.check(core::Core(core::Focus::Registry), 40_000, 200_000),
        "R01" => s.check(rewards::Rewards, 20_000, 400_000),
        "R02" => s.check(stakerewards::External, 20_000, 300_000),
        "R03" => s.check(stakerewards::Feeder, 20_000, 300_000),
        "R04" => s.check(funds::Funds, 6_000, 120_000),
        "E01" => s.check(vest::Vesting(vest::Focus::Payout), 40_000, 600_000),
        "E02" => s.check(vest::Vesting(vest::Focus::Staking), 40_000, 600_000),
        "E03" => s.check(externals::Payroll, 24_000, 300_000),
        "E04" => s.check(externals::Swap, 60_000, 600_000),
        "E07" => s.check(externals::Factory, 24_000, 400_000),
        "L01" => s.check(libs::Wormholes, 25_000, 1_000_000),
        "L02" => s.check(libs::Tracker, 60_000, 1_500_000),
        "L04" => s.check(denoms::Denoms, 20_000, 300_000),
        "L03" => s.check(libs::Pages, 200_000, 1_500_000),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
}
