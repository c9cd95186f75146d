#![allow(dead_code)]
mod model;
mod proto;
mod world;
use simkit::driver::{Family, World};
use simkit::rng::{mix, Rng};
use world::{make, Cfg, ALL};

fn families() -> Vec<Family> {
    fn b(n: world::Net) -> Box<dyn World> {
        Box::new(n)
    }
    vec![
        Family {
            name: "network",
            props: &["C16", "C17", "C18"],
            make: |seed, _| {
                let mut rng = Rng::new(mix(&[seed, 0x11]));
                b(make(seed, Cfg { init: !rng.pct(8), registered: rng.pct(40), wardens: rng.range(4, 10) as usize, ..ALL }))
            },
            steps: |_, t| if t { 800 } else { 300 },
            runs: (2_500, 150_000),
            about: "the whole warden network: registrations, updates, genesis, operators, counts, proposals, attesters by everybody",
        },
        Family {
            name: "crowd",
            props: &["C16"],
            make: |seed, _| b(make(seed, Cfg { crowd: true, register: 40, genesis: 4, stats: 2, ..ALL })),
            steps: |_, t| if t { 300 } else { 120 },
            runs: (1_500, 60_000),
            about: "the basic network is about to be full",
        },
        Family {
            name: "calendar",
            props: &["C17"],
            make: |seed, _| {
                b(make(seed, Cfg { registered: true, register: 2, update: 3, genesis: 1, operators: 1, stats: 100, proposals: 1, attesters: 1, env: 15, wardens: 4, ..ALL }))
            },
            steps: |_, t| if t { 800 } else { 350 },
            runs: (2_000, 120_000),
            about: "counts in all positions of transactions, at borders of days, years, leap years and ranges",
        },
        Family {
            name: "genesis",
            props: &["C18"],
            make: |seed, _| {
                b(make(seed, Cfg { registered: true, register: 2, update: 2, genesis: 80, operators: 6, stats: 1, proposals: 6, attesters: 6, ..ALL }))
            },
            steps: |_, t| if t { 500 } else { 250 },
            runs: (2_000, 120_000),
            about: "the genesis network from applications to confirmations, with rivals, impostors and rollbacks",
        },
        Family {
            name: "governance",
            props: &["C18", "C16"],
            make: |seed, _| {
                b(make(seed, Cfg { registered: true, register: 2, update: 6, genesis: 2, operators: 40, stats: 1, proposals: 40, attesters: 40, ..ALL }))
            },
            steps: |_, t| if t { 500 } else { 250 },
            runs: (2_000, 120_000),
            about: "operators, attesters and proposals by authorised and unauthorised actors",
        },
    ]
}

fn main() {
    let meta = serde_json::json!({
        "state_measure": "hash after every transaction of: next warden id, genesis members, completed applications, confirmations, proposals, confirmed operators, active wardens, counted days, last operation and its result",
        "real_code": [
            "elusiv_warden_network::process_instruction with all processors and accounts of /repo/elusiv-warden-network and /repo/shared, built from the working tree"
        ],
        "stubs": [
            "the Solana runtime (ledger, slots, atomic transactions, CPI, rent and write checks, instructions sysvar) is simkit's simulator",
            "the elusiv program is a program at its address that accepts or refuses as told: the warden network reads only the instruction that was sent to it",
            "mints are written by the simulator; the all-zero attester authority is played by an actor"
        ],
        "assumptions": ["the simulator's runtime rules match Solana 1.10 for what the program observes"]
    });
    std::process::exit(simkit::driver::main_with(&families(), meta));
}
