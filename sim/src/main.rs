#![allow(dead_code)]
mod bank;
mod core;
mod fam;
mod finish;
mod groth;
mod merkle;
mod model;
mod mutate;
mod nullset;
mod poseidon;
mod proto;
mod setup;
mod sim;
mod subst;
mod vkeys;
use simkit::driver::{Family, World};

const ALL: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C19", "C20", "C21",
];

fn families() -> Vec<Family> {
    fn b(c: core::Core) -> Box<dyn World> {
        Box::new(c)
    }
    vec![
        Family {
            name: "core",
            props: ALL,
            make: |seed, _| b(core::Core::new(core::base_genesis(), core::DEFAULT, seed)),
            steps: |_, thorough| if thorough { 700 } else { 350 },
            runs: (600, 40_000),
            about: "whole system: deposits, hashing, transfers, relayers, attacker, faults",
        },
        Family {
            name: "switch",
            props: &["C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C21"],
            make: |seed, t| b(fam::switch(seed, t)),
            steps: |_, thorough| if thorough { 500 } else { 250 },
            runs: (400, 20_000),
            about: "the active tree is nearly full, earlier trees are closed; fills, switches, spends from all trees",
        },
        Family {
            name: "nullifiers",
            props: &["C01", "C15", "C10", "C21"],
            make: |seed, t| b(fam::nullifiers(seed, t)),
            steps: |_, thorough| if thorough { 500 } else { 300 },
            runs: (200, 6_000),
            about: "nullifier sets around the capacity of their data accounts: shifting insertions, respends of border values",
        },
        Family {
            name: "batching",
            props: &["C02", "C04", "C06", "C07", "C10", "C21"],
            make: |seed, t| b(fam::batching(seed, t)),
            steps: |_, thorough| if thorough { 700 } else { 400 },
            runs: (200, 10_000),
            about: "batching rates 1 to 4",
        },
        Family {
            name: "places",
            props: &["C04", "C05", "C06", "C10", "C21"],
            make: |seed, t| b(fam::places(seed, t)),
            steps: |_, thorough| if thorough { 600 } else { 350 },
            runs: (200, 10_000),
            about: "the tree is filled up to any place, mostly just before a border of its data accounts",
        },
        Family {
            name: "queue",
            props: &["C02", "C04", "C06", "C07", "C10"],
            make: |seed, t| b(fam::queue_full(seed, t)),
            steps: |_, thorough| if thorough { 500 } else { 250 },
            runs: (80, 6_000),
            about: "the commitment queue is nearly full and its ring wraps",
        },
        Family {
            name: "setup",
            props: &["C02", "C11", "C13", "C14", "C21"],
            make: |seed, t| b(setup::setup(seed, t)),
            steps: |_, thorough| if thorough { 450 } else { 220 },
            runs: (300, 15_000),
            about: "setup instructions by everybody in any order, repeatedly, with unfit and used accounts, before and during operation",
        },
        Family {
            name: "vkeys",
            props: &["C12", "C03", "C21"],
            make: |seed, t| b(vkeys::vkeys(seed, t)),
            steps: |_, thorough| if thorough { 500 } else { 220 },
            runs: (500, 20_000),
            about: "histories of the verification key: writing, activation, replacement, hand-over, freezing, alone and under transfers",
        },
        Family {
            name: "prices",
            props: &["C11", "C02"],
            make: |seed, t| b(fam::prices(seed, t)),
            steps: |_, thorough| if thorough { 600 } else { 300 },
            runs: (300, 20_000),
            about: "all tokens, prices of all magnitudes, changing fee versions",
        },
        Family {
            name: "pairing",
            props: &["C03", "C19", "C21"],
            make: |seed, t| b(fam::pairing(seed, t)),
            steps: |_, thorough| if thorough { 900 } else { 500 },
            runs: (60, 6_000),
            about: "interleaved verifications, all of them computed step by step by the program",
        },
        Family {
            name: "endings",
            props: &["C01", "C02", "C03", "C09", "C10", "C13", "C19", "C20", "C21"],
            make: |seed, t| b(fam::endings(seed, t)),
            steps: |_, thorough| if thorough { 600 } else { 320 },
            runs: (300, 20_000),
            about: "transfers of all kinds at their end: recipients, payments, verdicts, with the last transaction tampered with",
        },
        Family {
            name: "accounts",
            props: &["C13", "C02", "C09", "C12", "C14"],
            make: |seed, t| b(fam::accounts(seed, t)),
            steps: |_, thorough| if thorough { 500 } else { 260 },
            runs: (400, 20_000),
            about: "every transaction is also tried with one of its accounts replaced, left out, swapped or read-only",
        },
    ]
}

fn main() {
    model::layout_test();
    poseidon::self_test();
    let meta = serde_json::json!({
        "state_measure": "hash of the abstract state after every transaction: tree fill, queue lengths, hashing and setup progress, per verification its state and step, number of pending stores, vkey versions",
        "real_code": [
            "elusiv::processor::process_instruction dispatch with all processors, state accounts, Merkle/commitment/nullifier structures, Groth16 and Poseidon partial computations of /repo/elusiv, built from the working tree",
            "spl-token and spl-associated-token-account processors (cached crates)"
        ],
        "stubs": [
            "the Solana runtime (ledger, slots, atomic transactions, CPI, rent and write checks, fee payer) is simkit's simulator",
            "oracle accounts are written by the simulator in pyth's layout",
            "client, relayers and attackers are simulated actors; Groth16 proofs are made with a known trapdoor instead of a prover",
            "most verification runs are advanced to their end by writing the result of the reference computation into the verification account (the rest, a seeded share, execute every step)"
        ],
        "assumptions": ["the simulator's runtime rules match Solana 1.10 for what the program observes", "Poseidon, BN254 pairing and sha256 reference implementations are right (cross-checked against /repo's constants and ark-bn254)"]
    });
    std::process::exit(simkit::driver::main_with(&families(), meta));
}
