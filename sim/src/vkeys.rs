//! Histories of the verification key: created, written packet by packet, activated, replaced, handed over, frozen,
//! by its authority and by others, with losses, duplicates, reordering and rollbacks, while transfers use it.

use crate::core::*;
use crate::groth;
use crate::model::*;
use crate::proto::*;
use crate::sim::*;
use simkit::ledger::Account;
use simkit::rng::{mix, Rng};
use solana_program::pubkey::Pubkey;
use std::sync::{Arc, Mutex, OnceLock};

pub const PACKET_BYTES: usize = PACKET;

/// What a history of keys does
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// No transfers; keys of few public inputs, written in full by packets
    Small(u32),
    /// The key in use is replaced by others while transfers run
    Live,
}

pub struct Plan {
    pub mode: Mode,
    pub people: Vec<Pubkey>,
    pub serial: u64,
    /// Whether the key may be frozen in this history
    pub freeze: bool,
}

fn nokey_genesis() -> Sim {
    static G: OnceLock<Mutex<Option<Snapshot>>> = OnceLock::new();
    let g = G.get_or_init(|| {
        let mut s = Sim::new();
        s.genesis_without_key(FEE, &[0, 1, 3, 6, 12], 2);
        Mutex::new(Some(s.snapshot()))
    });
    let snap = g.lock().unwrap().clone().unwrap();
    let mut s = Sim::new();
    s.restore(&snap);
    s.l.clock.unix_timestamp = 1_670_000_000;
    s
}

pub fn vkeys(seed: u64, _: bool) -> Core {
    let mut rng = Rng::new(mix(&[seed, 0x7EE7]));
    let op = key(0x0505, 0);
    let live = rng.pct(45);
    let freeze = rng.pct(60);
    let (s, mode, cfg) = if live {
        let cfg = Cfg { vk: 45, deposits: 6, transfers: 12, crank: 40, full_verify: 0, env: 0, reset: 0, audit: 40, max_jobs: 8, ..DEFAULT };
        (base_genesis(), Mode::Live, cfg)
    } else {
        let cfg = Cfg { vk: 200, deposits: 1, transfers: 0, crank: 2, advance: 3, env: 0, audit: 25, max_jobs: 2, rollback: 4, ..DEFAULT };
        (nokey_genesis(), Mode::Small(*rng.pick(&[0u32, 0, 1, 2])), cfg)
    };
    let mut c = Core::new(s, cfg, seed);
    let mut people = vec![op, key(0x0505, 1), key(0x0505, 2), c.attacker];
    people.extend(c.senders.iter().take(1));
    for p in &people {
        c.s.l.airdrop(p, 200_000_000_000_000);
    }
    c.vk = Some(Plan { mode, people, serial: 0, freeze });
    if live {
        let notes = crate::fam::notes(mix(&[seed % 5, 0x7E]), 6, &[0, 1, 2]);
        crate::fam::set_active(&mut c.s, 900 + seed % 5, 0, &notes, 0);
        c.notes = notes;
    }
    c
}

/// Genuine content of a key whose bytes nobody ever computes with
pub fn small_source(inputs: u32, which: u64) -> Arc<Vec<u8>> {
    type K = std::collections::BTreeMap<(u32, u64), Arc<Vec<u8>>>;
    static C: OnceLock<Mutex<K>> = OnceLock::new();
    C.get_or_init(Default::default)
        .lock()
        .unwrap()
        .entry((inputs, which))
        .or_insert_with(|| {
            let mut rng = Rng::new(mix(&[0x50CE, inputs as u64, which]));
            Arc::new((0..source_size(inputs as usize)).map(|_| rng.u64() as u8).collect())
        })
        .clone()
}

impl Core {
    fn vk_data_account(&mut self, size: usize, rng: &mut Rng) -> Pubkey {
        let p = self.vk.as_mut().unwrap();
        p.serial += 1;
        let k = key(0x5EED_0001, p.serial);
        let mut data = vec![];
        let mut owner = ID;
        let mut lamports = rent(size);
        match rng.below(14) {
            0 => data = vec![0; size - 1],
            1 => data = vec![0; size + 1],
            2 => {
                data = vec![0; size];
                data[0] = 1;
            }
            3 => {
                data = vec![0; size];
                owner = key(0xF0E, 1);
            }
            4 => {
                // content written in another life
                data = vec![7; size];
                data[0] = 0;
            }
            5 => return child(0, 0, 0),
            6 => {
                if let Some(Some(k)) = self.s.st.vkeys.get(&0).map(|v| v.kids[0]) {
                    return k;
                }
                data = vec![0; size];
            }
            7 => {
                data = vec![0; size];
                lamports += rng.below(1 << 20);
            }
            _ => data = vec![0; size],
        }
        self.s.l.accts.insert(k, Account { lamports, data: Arc::new(data), owner, executable: false });
        self.s.alien.insert(k);
        k
    }

    fn source_of(&self, which: u64) -> Arc<Vec<u8>> {
        match self.vk.as_ref().unwrap().mode {
            Mode::Small(n) => small_source(n, which),
            Mode::Live => groth::key((which % 3) as usize).source.clone(),
        }
    }

    /// The harness completes the pending key's bytes, as the remaining thousands of packets would (declared stub)
    pub fn vk_fill(&mut self, which: u64) -> bool {
        let Some(Some(k)) = self.s.st.vkeys.get(&0).map(|v| v.kids[1]) else { return false };
        let a = self.s.l.get(&k);
        let src = self.source_of(which);
        if a.data.len() != src.len() + 1 {
            return false;
        }
        let mut d = Vec::with_capacity(a.data.len());
        d.push(a.data[0]);
        d.extend_from_slice(&src);
        self.s.l.accts.insert(k, Account { data: Arc::new(d), ..a });
        true
    }

    /// Whether the pending key's bytes are those of a key proofs exist for
    fn vk_pending_is(&self) -> Option<u64> {
        let k = self.s.st.vkeys.get(&0)?.kids[1]?;
        let d = self.s.l.data(&k);
        (0..3).find(|w| d.get(1..) == Some(&self.source_of(*w)[..]))
    }

    pub fn vk_act(&mut self, rng: &mut Rng) -> Option<(Vec<Op>, Pubkey)> {
        let plan = self.vk.as_ref()?;
        let mode = plan.mode;
        let people = plan.people.clone();
        let freeze = plan.freeze;
        let v = self.s.st.vkeys.get(&0).cloned();
        let anyone = *rng.pick(&people);
        let who = match &v {
            Some(v) if rng.pct(78) => v.authority.unwrap_or(anyone),
            _ => anyone,
        };
        let Some(v) = v else {
            let inputs = match mode {
                Mode::Small(n) => n,
                Mode::Live => groth::INPUTS as u32,
            };
            let id = if rng.pct(10) { 1 + rng.below(3) as u32 } else { 0 };
            let authority = if rng.pct(85) { Some(*rng.pick(&people)) } else { None };
            return Some((vec![Op::VkCreate { signer: who, id, inputs, authority }], who));
        };
        let size = source_size(v.inputs as usize);
        let count = (size + PACKET - 1) / PACKET;
        let id = if rng.pct(2) { 1 } else { 0 };
        let mut ops = vec![];
        let w = [
            2,
            if v.kids[1].is_none() { 30 } else { 4 },
            if v.kids[1].is_some() { 40 } else { 6 },
            if v.kids[1].is_some() { 14 } else { 5 },
            if freeze && v.version > 0 { 2 } else { 0 },
            4,
            if v.kids[1].is_some() { 8 } else { 0 },
        ];
        match rng.weighted(&w) {
            0 => ops.push(Op::VkCreate { signer: who, id, inputs: v.inputs, authority: Some(who) }),
            1 => {
                let data = self.vk_data_account(size + 1, rng);
                ops.push(Op::VkNew { signer: who, id, data });
            }
            2 => {
                let src = self.source_of(rng.below(3));
                for _ in 0..rng.range(1, 4) {
                    let pos = match rng.below(12) {
                        0 => count as u32,
                        1 => u32::MAX,
                        2 => count as u32 + rng.below(5) as u32,
                        3 => count as u32 - 1,
                        4 => 0,
                        _ => rng.below(count as u64) as u32,
                    };
                    let at = pos as usize * PACKET;
                    let mut packet: Vec<u8> = match src.get(at..(at + PACKET).min(size)) {
                        Some(x) if rng.pct(80) => x.to_vec(),
                        _ => (0..PACKET).map(|_| rng.u64() as u8).collect(),
                    };
                    match rng.below(12) {
                        0 => packet.truncate(rng.idx(PACKET)),
                        1 => packet.extend([9; 7]),
                        2 => {}
                        _ => packet.resize(PACKET, 0),
                    }
                    let kids = match rng.below(16) {
                        0 => vec![0],
                        1 => vec![],
                        2 | 3 => vec![0, 1],
                        // before there is a data account the other one is all there is
                        _ if v.kids[1].is_none() => vec![0, 1],
                        _ => vec![1],
                    };
                    ops.push(Op::VkSet { signer: who, id, pos, packet, kids });
                }
            }
            3 => {
                if mode == Mode::Live && self.vk_pending_is().is_none() && v.kids[1].is_some() {
                    let n = rng.below(3);
                    self.vk_fill(n);
                }
                let old = match v.kids[0] {
                    Some(k) if rng.pct(80) => k,
                    _ => match rng.below(4) {
                        0 => v.kids[1].unwrap_or(child(0, 0, 1)),
                        1 => child(0, 0, 1),
                        2 => pool(),
                        _ => key(0x5EED, 99),
                    },
                };
                ops.push(Op::VkUpdate { signer: who, id, old });
            }
            4 => ops.push(Op::VkFreeze { signer: who, id }),
            5 => ops.push(Op::VkAuth { signer: who, id, authority: *rng.pick(&people) }),
            _ => {
                // everything at once: the remaining packets of a small key
                if let (Mode::Small(n), true) = (mode, size / PACKET < 100) {
                    let src = small_source(n, rng.below(3));
                    for (i, x) in src.chunks(PACKET).enumerate() {
                        if rng.pct(92) {
                            let mut p = x.to_vec();
                            p.resize(PACKET, 0);
                            ops.push(Op::VkSet { signer: who, id, pos: i as u32, packet: p, kids: vec![1] });
                        }
                    }
                    rng.shuffle(&mut ops);
                } else {
                    let n = rng.below(3);
                    self.vk_fill(n);
                    return None;
                }
            }
        }
        Some((ops, who))
    }

    /// Steps of the key's history; sometimes several in a row or in one transaction
    pub fn vk_step(&mut self, rng: &mut Rng) {
        let Some((mut ops, payer)) = self.vk_act(rng) else { return };
        if rng.pct(12) {
            if let Some((more, _)) = self.vk_act(rng) {
                // the accounts of a packet's instruction depend on what was attached before
                let attach = |o: &[Op]| o.iter().any(|x| matches!(x, Op::VkNew { .. } | Op::VkUpdate { .. }));
                let set = |o: &[Op]| o.iter().any(|x| matches!(x, Op::VkSet { .. }));
                if ops.len() + more.len() < 60 && !(attach(&ops) && set(&more)) {
                    ops.extend(more);
                }
            }
        }
        for o in &ops {
            self.s.rep.probe(format!("vkey op {}", o.name()));
        }
        let live = self.vk.as_ref().unwrap().mode == Mode::Live;
        let o = if live && ops.iter().any(|o| matches!(o, Op::VkUpdate { .. } | Op::VkSet { .. })) {
            // what becomes active has to be a key proofs exist for: no deferred activation
            if ops.iter().any(|o| matches!(o, Op::VkUpdate { .. })) && self.vk_pending_is().is_none() && ops.len() > 1 {
                return;
            }
            self.exec(&ops, payer)
        } else if ops.len() > 20 {
            self.exec(&ops, payer)
        } else {
            self.submit(ops.clone(), payer, rng)
        };
        if o.ok() {
            if let Some(v) = self.s.st.vkeys.get(&0) {
                self.s.rep.probe(format!("vkey version {} frozen {} authority {}", v.version.min(5), v.frozen, v.authority.is_some()));
            }
            if ops.iter().any(|o| matches!(o, Op::VkUpdate { .. })) && live {
                self.s.rep.probe(format!("key replaced with {} verifications open", self.s.st.verifs.len().min(4)));
            }
        }
    }
}
