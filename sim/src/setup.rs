//! Setup under contention: everybody tries to set everything up, repeatedly, with wrong, foreign, used and dirty
//! accounts, before and while the system is in use.

use crate::core::*;
use crate::fam::*;
use crate::groth;
use crate::model::*;
use crate::proto::*;
use crate::sim::*;
use simkit::ledger::Account;
use simkit::rng::{mix, Rng};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, OnceLock};

pub struct Setup {
    pub people: Vec<Pubkey>,
    pub serial: u64,
    /// People use the system before its fees are set
    pub early: bool,
}

/// Contents an account kept from an earlier use (except for its first byte)
fn dirt(len: usize, n: u64) -> Arc<Vec<u8>> {
    static C: OnceLock<Mutex<BTreeMap<(usize, u64), Arc<Vec<u8>>>>> = OnceLock::new();
    C.get_or_init(Default::default)
        .lock()
        .unwrap()
        .entry((len, n))
        .or_insert_with(|| {
            let mut r = Rng::new(mix(&[0xD127, len as u64, n]));
            let mut v: Vec<u8> = (0..(len + 7) / 8).flat_map(|_| r.u64().to_le_bytes()).collect();
            v.truncate(len);
            v[0] = 0;
            Arc::new(v)
        })
        .clone()
}

/// The state an older version of the program leaves behind: a tree in use, but no buffer and no metadata accounts yet
fn older(rng: &mut Rng, seed: u64) -> (Sim, Vec<Note>) {
    let mut s = base_genesis();
    let n = notes(50, 1 + rng.idx(8), &[0, 1]);
    set_active(&mut s, 50, 0, &n, 0);
    let _ = seed;
    // what it was doing when it was replaced
    let busy = rng.below(5);
    if busy < 3 {
        let at = rng.below(QUEUE_SLOTS as u64) as u32;
        fill_queue(&mut s, at, 1 + (busy == 2) as usize, 0, rng);
        let op = key(0x0505, 0);
        s.l.airdrop(&op, 1_000_000_000);
        if busy > 0 {
            let m = vec![s.st.meta_ptr as usize / META_PER_CHILD];
            let ops = [
                Op::Setup { can_fail: false, kids: opening_children(s.st.ptr as usize) },
                Op::InitHash { can_fail: false, kids: m },
            ];
            assert!(s.run(&ops, op).ok(), "busy");
        }
    }
    for k in s.st.meta_kids.iter_mut() {
        if let Some(c) = k.take() {
            s.l.accts.remove(&c);
            s.st.in_use.remove(&c);
        }
    }
    for k in [com_buffer(), meta_queue(), metadata()] {
        s.l.accts.remove(&k);
    }
    s.st.combuf.clear();
    s.st.metaq.clear();
    s.st.meta_ptr = 0;
    s.st.v1 = false;
    s.rep.fault("program upgraded");
    (s, n)
}

pub fn setup(seed: u64, _: bool) -> Core {
    let mut rng = Rng::new(mix(&[seed, 0x5E70]));
    let mut kept = vec![];
    let (s, fresh) = match rng.below(20) {
        0..=12 => (Sim::new(), true),
        13..=15 => {
            let (s, n) = older(&mut rng, seed);
            kept = n;
            (s, false)
        }
        _ => (base_genesis(), false),
    };
    let cfg = Cfg { setup: if fresh { 110 } else { 40 }, deposits: 10, transfers: 6, audit: 20, rollback: 2, env: 0, max_jobs: 8, ..DEFAULT };
    let mut c = Core::new(s, cfg, seed);
    c.notes = kept;
    if fresh {
        c.s.l.clock.unix_timestamp = 1_670_000_000;
        c.s.market();
    }
    let people = vec![key(0x0505, 0), key(0x0505, 1), c.attacker];
    for p in &people {
        c.s.l.airdrop(p, 200_000_000_000_000);
    }
    c.setup = Some(Setup { people, serial: 0, early: rng.pct(4) });
    c
}

fn fee_variant(rng: &mut Rng) -> Fee {
    let mut f = Fee {
        per_tx: 5000,
        base_bp: rng.below(60),
        proof_bp: rng.below(60),
        base_sub: rng.below(20_000),
        proof_sub: rng.below(40_000),
        hash_reward: rng.below(2000),
        proof_reward: rng.below(200_000),
        proof_txs: 62,
    };
    if rng.pct(45) {
        return f;
    }
    let least = (0..4).map(|r| f.commitment_fee(r)).min().unwrap();
    match rng.below(9) {
        0 => f.base_sub = least,
        1 => f.base_sub = least + 1,
        2 => f.proof_sub = 62 * f.per_tx + least,
        3 => f.proof_sub = 62 * f.per_tx + least + 1,
        4 => f.proof_txs = *rng.pick(&[0, 61, 63, 620]),
        5 => f.base_sub = f.commitment_fee(0),
        6 => f.base_sub = f.commitment_fee(2),
        7 => f.proof_sub = f.proof_txs * f.per_tx + f.commitment_fee(0),
        _ => f.base_sub = 1 << 50,
    }
    f
}

impl Core {
    fn child_candidate(&mut self, right: usize, rng: &mut Rng) -> Pubkey {
        let p = self.setup.as_mut().unwrap();
        p.serial += 1;
        let k = key(0x5E70_0001, p.serial);
        let sizes = [STORAGE_CHILD_SIZE, NULL_CHILD_SIZE, META_CHILD_SIZE];
        let mut data = payload(right);
        let mut owner = ID;
        let mut lamports = rent(sizes[right]);
        match rng.below(13) {
            0 => data = payload((right + 1) % 3),
            1 => data = Arc::new(vec![0; sizes[right] - 1]),
            2 => data = Arc::new(vec![0; sizes[right] + 1]),
            3 => {
                let mut d = (*dirt(sizes[right], 0)).clone();
                d[0] = 1 + rng.below(255) as u8;
                data = Arc::new(d);
            }
            4 => owner = key(0xF0E, 1),
            5 | 6 => data = dirt(sizes[right], rng.below(2)),
            7 | 8 => {
                // in use already: as any child, or a program account
                let mut all: Vec<Pubkey> = self.s.st.in_use.iter().copied().collect();
                all.extend([storage(), metadata(), nullifier(0), queue()]);
                return *rng.pick(&all);
            }
            9 => lamports -= 1 + rng.below(1000),
            _ => {}
        }
        self.s.l.accts.insert(k, Account { lamports, data, owner, executable: false });
        self.s.alien.insert(k);
        k
    }

    fn setup_op(&mut self, rng: &mut Rng) -> Op {
        let p = *rng.pick(&self.setup.as_ref().unwrap().people.clone());
        let st = &self.s.st;
        let w = [
            if st.singles { 3 } else { 30 },
            if st.v1 { 3 } else { 30 },
            if st.gov.is_some() { 3 } else { 30 },
            if st.fees.is_empty() { 30 } else { 5 },
            2,
            10,
            12,
            12,
            6,
            2,
            2,
            if st.vkeys.is_empty() { 4 } else { 1 },
            6,
        ];
        let trees = st.nulls.len() as u32;
        match rng.weighted(&w) {
            0 => Op::OpenSingle { payer: p },
            1 => Op::AccountsV1 { payer: p },
            2 => Op::SetupGov { payer: p },
            3 => Op::InitFee { payer: p, version: if rng.pct(85) { 0 } else { rng.below(4) as u32 }, fee: fee_variant(rng) },
            4 => Op::UpgradeGov { auth: p, fee_version: rng.below(3) as u32, rate: rng.below(5) as u32 },
            5 => {
                let mt = if rng.pct(60) { trees } else { rng.below(5) as u32 };
                Op::OpenNull { payer: p, mt }
            }
            6 => {
                let idx = if rng.pct(70) { *rng.pick(&[0u32, 1, 3, 6, 12]) } else { rng.below(27) as u32 };
                let child = self.child_candidate(0, rng);
                Op::EnableStorage { child, idx }
            }
            7 => {
                let mt = rng.below(trees as u64 + 1) as u32;
                let idx = if rng.pct(70) { rng.below(2) as u32 } else { rng.below(18) as u32 };
                let child = self.child_candidate(1, rng);
                Op::EnableNull { mt, child, idx }
            }
            8 => {
                let idx = if rng.pct(70) { rng.below(2) as u32 } else { rng.below(18) as u32 };
                let child = self.child_candidate(2, rng);
                Op::EnableMeta { child, idx }
            }
            9 => {
                let acc = *rng.pick(&[pool(), storage(), queue(), hashing(), nullifier(0), governor(), fee_acc(0), metadata()]);
                Op::CloseAcc { signer: p, recipient: p, acc }
            }
            10 => Op::Archive { payer: p, mt: rng.below(3) as u32, acc: key(0xA2C, 0) },
            11 => Op::VkCreate { signer: p, id: rng.below(2) as u32, inputs: groth::INPUTS as u32, authority: Some(p) },
            _ => {
                let to = *rng.pick(&[
                    pool(),
                    collector(),
                    hashing(),
                    queue(),
                    storage(),
                    base_buffer(),
                    com_buffer(),
                    meta_queue(),
                    metadata(),
                    governor(),
                    fee_acc(0),
                    nullifier(trees),
                    vkey(0),
                ]);
                if self.s.l.exists(&to) {
                    return Op::OpenNull { payer: p, mt: trees };
                }
                Op::SysTransfer { from: p, to, amount: WALLET_RENT + rng.below(10_000) }
            }
        }
    }

    pub fn setup_step(&mut self, rng: &mut Rng) {
        let mut ops = vec![self.setup_op(rng)];
        while rng.pct(18) && ops.len() < 5 {
            ops.push(if rng.pct(25) { ops[0].clone() } else { self.setup_op(rng) });
        }
        let payer = *rng.pick(&self.setup.as_ref().unwrap().people.clone());
        for o in &ops {
            self.s.rep.probe(format!("setup op {}", o.name()));
        }
        self.submit(ops, payer, rng);
    }

    /// What is missing, an operator can still set up
    pub fn setup_finish(&mut self) -> bool {
        let op = key(0x0505, 0);
        let need = |c: &mut Core, ops: Vec<Op>| -> bool {
            let o = c.s.run(&ops, op);
            if !o.ok() && !c.s.dead {
                let why = format!("stuck:setup:{}", ops[0].name());
                c.s.bad(&["C14", "C10"], why, format!("{o:?}"));
            }
            o.ok()
        };
        if !self.s.st.singles && !need(self, vec![Op::OpenSingle { payer: op }]) {
            return false;
        }
        while !self.s.st.v1 && self.s.st.hash.active && !self.s.dead {
            let Some((ops, _)) = self.crank(&mut Rng::new(1)) else { break };
            if !need(self, ops) {
                return false;
            }
        }
        if !self.s.st.v1 && !self.s.st.queue.is_empty() {
            return false; // the older version has to process it
        }
        if !self.s.st.v1 && !need(self, vec![Op::AccountsV1 { payer: op }]) {
            return false;
        }
        if self.s.st.gov.is_none() && !need(self, vec![Op::SetupGov { payer: op }]) {
            return false;
        }
        if self.s.st.fees.is_empty() && !need(self, vec![Op::InitFee { payer: op, version: 0, fee: FEE }]) {
            return false;
        }
        for i in [0usize, 1, 3, 6, 12] {
            if self.s.st.st_kids[i].is_none() {
                let k = child(0, 0, i);
                self.s.blank(k, 0);
                if !need(self, vec![Op::EnableStorage { child: k, idx: i as u32 }]) {
                    return false;
                }
            }
        }
        for mt in 0..2 {
            if !self.s.st.nulls.contains_key(&mt) && !need(self, vec![Op::OpenNull { payer: op, mt }]) {
                return false;
            }
            if self.s.st.nulls[&mt].kids[0].is_none() {
                let k = child(1, mt, 0);
                self.s.blank(k, 1);
                if !need(self, vec![Op::EnableNull { mt, child: k, idx: 0 }]) {
                    return false;
                }
            }
        }
        if self.s.st.meta_kids[0].is_none() {
            let k = child(2, 0, 0);
            self.s.blank(k, 2);
            if !need(self, vec![Op::EnableMeta { child: k, idx: 0 }]) {
                return false;
            }
        }
        if self.s.st.vkeys.is_empty() {
            self.s.install_key(op, 0);
        }
        true
    }
}
