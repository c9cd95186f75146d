//! The whole system under simulation: depositors, relayers, hashing cranks, transfers, an attacker, faults, and the
//! honest completion after the faults stop.

use crate::groth;
use crate::merkle::{Tree, HEIGHT};
use crate::model::*;
use crate::nullset::{Inserting, NullSet};
use crate::poseidon::{hash2, mont, raw};
use crate::proto::*;
use crate::sim::*;
use ark_bn254::Fr;
use simkit::driver::{Report, World};
use simkit::ledger::Tx;
use simkit::rng::{mix, Rng};
use solana_program::pubkey::Pubkey;
use solana_program::sysvar;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, OnceLock};

#[derive(Clone, Copy)]
pub struct Cfg {
    pub tokens: &'static [u16],
    /// Share of verifications computed step by step by the real code
    pub full_verify: u64,
    /// Share of transfers that use a note another unfinished transfer uses too
    pub conflict: u64,
    /// Share of transfers with an invalid proof or a root no tree ever had
    pub invalid: u64,
    pub mutate: u64,
    pub bundle: u64,
    pub drop: u64,
    pub delay: u64,
    pub dup: u64,
    pub rollback: u64,
    pub crank: u64,
    pub deposits: u64,
    pub transfers: u64,
    pub advance: u64,
    pub attack: u64,
    pub env: u64,
    /// Permit inputs of two trees
    pub two_trees: bool,
    pub reset: u64,
    /// Operations on the verification key
    pub vk: u64,
    pub setup: u64,
    /// Share of transactions that are also tried with other accounts
    pub subst: u64,
    /// Audit of everything every n steps
    pub audit: usize,
    pub max_jobs: usize,
    /// Share of environment events that bring a new fee schedule
    pub fees: u64,
}

pub const DEFAULT: Cfg = Cfg {
    tokens: &[0, 0, 1, 2],
    full_verify: 4,
    conflict: 12,
    invalid: 15,
    mutate: 12,
    bundle: 10,
    drop: 6,
    delay: 8,
    dup: 6,
    rollback: 1,
    crank: 34,
    deposits: 9,
    transfers: 7,
    advance: 40,
    attack: 6,
    env: 3,
    two_trees: false,
    reset: 0,
    vk: 0,
    setup: 0,
    subst: 2,
    audit: 40,
    max_jobs: 14,
    fees: 0,
};

pub const FEE: Fee = Fee {
    per_tx: 5000,
    base_bp: 20,
    proof_bp: 35,
    base_sub: 11_000,
    proof_sub: 23_000,
    hash_reward: 700,
    proof_reward: 90_000,
    proof_txs: 62,
};

#[derive(Clone, Debug)]
pub struct Note {
    pub secret: Fr,
    pub amount: u64,
    pub token: u16,
    pub recent: u32,
    pub commitment: B32,
}
impl Note {
    pub fn new(secret: Fr, amount: u64, token: u16, recent: u32) -> Note {
        let base = hash2(secret, Fr::from(1u64));
        Note { secret, amount, token, recent, commitment: mont(base_commitment(base, amount, token, recent)) }
    }
    pub fn base(&self) -> Fr {
        hash2(self.secret, Fr::from(1u64))
    }
    pub fn nullifier(&self) -> Fr {
        hash2(self.secret, Fr::from(2u64))
    }
}

#[derive(Clone)]
pub struct Dep {
    pub sender: Pubkey,
    pub payer: Pubkey,
    pub token: u16,
    pub amount: u64,
    pub secret: Fr,
    pub idx: u32,
    pub bump: u8,
    pub metadata: Meta,
    pub req: Option<BaseReq>,
    pub notes: Vec<Note>,
}
impl Dep {
    pub fn acc(&self) -> Pubkey {
        base_hashing_at(self.idx, self.bump).unwrap_or(base_hashing(self.idx).0)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum ProofKind {
    Valid,
    Corrupt(u64),
    /// A true statement about a tree of the attacker's own making
    FakeRoot(u8),
}

#[derive(Clone)]
pub struct Variant {
    pub req: SendReq,
    pub trees: [u32; 2],
    pub skip: bool,
    pub proof: Vec<u8>,
    pub out: Note,
}

#[derive(Clone)]
pub struct Tra {
    pub payer: Pubkey,
    pub idx: u8,
    pub inputs: Vec<Note>,
    pub token: u16,
    pub amount: u64,
    pub opt_fee: u64,
    pub over_fee: u64,
    pub collector: Pubkey,
    pub wallet: Pubkey,
    pub is_ata: bool,
    pub pay: bool,
    pub memo: Option<Vec<u8>>,
    pub reference: Option<Pubkey>,
    pub identifier: Pubkey,
    pub iv: B32,
    pub owner: B32,
    pub metadata: Meta,
    pub secret: Fr,
    pub kind: ProofKind,
    pub full: bool,
    pub seed: u64,
    pub variants: Vec<Variant>,
    pub give_up: bool,
    /// Not allowed to start: only tried
    pub small: bool,
    /// Prepare inputs before the fee is paid
    pub eager: bool,
}
impl Tra {
    pub fn acc(&self) -> Pubkey {
        verif(&self.payer, self.idx as u32)
    }
    pub fn recipient(&self) -> Pubkey {
        if self.is_ata || self.token == 0 {
            self.wallet
        } else {
            ata(&self.wallet, self.token)
        }
    }
    pub fn pay_to(&self) -> Pubkey {
        holder(&self.wallet, self.token)
    }
}

#[derive(Clone)]
pub enum Job {
    D(Dep),
    T(Tra),
}

#[derive(Clone)]
pub struct Pending {
    pub at: usize,
    pub ops: Vec<Op>,
    pub payer: Pubkey,
}

pub struct Core {
    pub s: Sim,
    pub cfg: Cfg,
    pub jobs: Vec<Job>,
    pub notes: Vec<Note>,
    pub mempool: Vec<Pending>,
    pub senders: Vec<Pubkey>,
    pub relayers: Vec<Pubkey>,
    pub attacker: Pubkey,
    pub snap: Option<Snapshot>,
    pub n: usize,
    pub serial: u64,
    pub seed: u64,
    pub finishing: bool,
    pub cur: u64,
    pub vk: Option<crate::vkeys::Plan>,
    pub setup: Option<crate::setup::Setup>,
}

pub fn wallet(i: u64) -> Pubkey {
    key(0xA11, i)
}
pub fn relayer(i: u64) -> Pubkey {
    key(0xBE1, i)
}
pub fn child(kind: u64, tree: u32, i: usize) -> Pubkey {
    key(0xC41 + kind, (tree as u64) << 32 | i as u64)
}
pub fn price_key(t: u16) -> Pubkey {
    tokens()[t as usize].price_key
}

pub fn payload(n: usize) -> Arc<Vec<u8>> {
    // shared blank data accounts
    static B: OnceLock<[Arc<Vec<u8>>; 3]> = OnceLock::new();
    let b = B.get_or_init(|| {
        [Arc::new(vec![0; STORAGE_CHILD_SIZE]), Arc::new(vec![0; NULL_CHILD_SIZE]), Arc::new(vec![0; META_CHILD_SIZE])]
    });
    b[n].clone()
}

impl Sim {
    pub fn blank(&mut self, k: Pubkey, kind: usize) {
        let data = payload(kind);
        let l = rent(data.len());
        self.l.accts.insert(k, simkit::ledger::Account { lamports: l, data, owner: ID, executable: false });
    }
    pub fn must(&mut self, ops: &[Op], payer: Pubkey) {
        let r = self.run(ops, payer);
        if !r.ok() {
            panic!("setup {:?}: {:?} {:?}", ops.iter().map(|o| o.name()).collect::<Vec<_>>(), r, self.rep.violations);
        }
    }
    /// The protocol as its operators set it up
    pub fn genesis(&mut self, fee: Fee, storage_kids: &[usize], null_trees: u32) {
        self.genesis_without_key(fee, storage_kids, null_trees);
        self.install_key(key(0x0505, 0), 0);
        self.rep = Report::default();
    }
    pub fn genesis_without_key(&mut self, fee: Fee, storage_kids: &[usize], null_trees: u32) {
        let op = key(0x0505, 0);
        self.l.airdrop(&op, 1_000_000_000_000);
        self.must(&[Op::OpenSingle { payer: op }], op);
        self.must(&[Op::AccountsV1 { payer: op }], op);
        self.must(&[Op::SetupGov { payer: op }], op);
        self.must(&[Op::InitFee { payer: op, version: 0, fee }], op);
        for i in storage_kids {
            let k = child(0, 0, *i);
            self.blank(k, 0);
            self.must(&[Op::EnableStorage { child: k, idx: *i as u32 }], op);
        }
        for mt in 0..null_trees {
            self.must(&[Op::OpenNull { payer: op, mt }], op);
            let k = child(1, mt, 0);
            self.blank(k, 1);
            self.must(&[Op::EnableNull { mt, child: k, idx: 0 }], op);
        }
        let k = child(2, 0, 0);
        self.blank(k, 2);
        self.must(&[Op::EnableMeta { child: k, idx: 0 }], op);
        self.market();
        self.rep = Report::default();
    }
    /// Tokens, prices and the program's token accounts
    pub fn market(&mut self) {
        for (t, p) in [(0u16, 3_000_000_000i64), (1, 100_000_000), (2, 100_050_000)] {
            if t > 0 {
                self.create_mint(t);
                self.fund_token(&pool(), t, 0);
                self.fund_token(&collector(), t, 10_000_000);
            }
            self.set_price(price_key(t), PriceAcc { price: p, conf: 10_000, expo: -8, valid: true });
        }
        self.l.airdrop(&collector(), 1_000_000_000);
    }
    /// Governs a key into place; its bytes are written directly (the writing itself is the vkey family's subject)
    pub fn install_key(&mut self, signer: Pubkey, which: usize) {
        let data = key(0x5EED, which as u64);
        self.must(&[Op::VkCreate { signer, id: 0, inputs: groth::INPUTS as u32, authority: Some(signer) }], signer);
        static K: OnceLock<[OnceLock<Arc<Vec<u8>>>; 3]> = OnceLock::new();
        let cell = &K.get_or_init(Default::default)[which];
        let full = cell
            .get_or_init(|| {
                let mut v = vec![1u8];
                v.extend_from_slice(&groth::key(which).source);
                Arc::new(v)
            })
            .clone();
        let l = rent(full.len());
        static Z: OnceLock<Arc<Vec<u8>>> = OnceLock::new();
        let zero = Z.get_or_init(|| Arc::new(vec![0; full.len()])).clone();
        self.l.accts.insert(data, simkit::ledger::Account { lamports: l, data: zero, owner: ID, executable: false });
        self.must(&[Op::VkNew { signer, id: 0, data }], signer);
        self.l.accts.get_mut(&data).unwrap().data = full;
        self.must(&[Op::VkUpdate { signer, id: 0, old: key(0x5EED, 99) }], signer);
        assert_eq!(self.st.vkeys[&0].key, Some(which));
    }
}

pub fn base_genesis() -> Sim {
    static G: OnceLock<std::sync::Mutex<Option<Snapshot>>> = OnceLock::new();
    let g = G.get_or_init(|| {
        let mut s = Sim::new();
        s.genesis(FEE, &[0, 1, 3, 6, 12], 2);
        std::sync::Mutex::new(Some(s.snapshot()))
    });
    let snap = g.lock().unwrap().clone().unwrap();
    let mut s = Sim::new();
    s.restore(&snap);
    s.l.clock.unix_timestamp = 1_670_000_000;
    s
}

impl Core {
    pub fn new(s: Sim, cfg: Cfg, seed: u64) -> Core {
        let mut c = Core {
            s,
            cfg,
            jobs: vec![],
            notes: vec![],
            mempool: vec![],
            senders: (0..4).map(wallet).collect(),
            relayers: (0..3).map(relayer).collect(),
            attacker: key(0xBAD, 0),
            snap: None,
            n: 0,
            serial: 0,
            seed,
            finishing: false,
            cur: 0,
            vk: None,
            setup: None,
        };
        let all: Vec<Pubkey> = c.senders.iter().chain(c.relayers.iter()).chain([&c.attacker]).copied().collect();
        for k in &all {
            c.s.l.airdrop(k, 2_000_000_000_000);
            for t in tokset(&c.cfg) {
                if t > 0 {
                    c.s.fund_token(k, t, 40_000_000_000.max(3 * tokens()[t as usize].max));
                }
            }
        }
        c
    }

    fn id(&mut self) -> u64 {
        self.serial += 1;
        mix(&[self.seed, 0x1D, self.serial])
    }

    // ---- deposits ----
    pub fn new_deposit(&mut self, rng: &mut Rng) {
        let token = *rng.pick(self.cfg.tokens);
        let t = &tokens()[token as usize];
        let amount = match rng.below(20) {
            0 => t.min,
            1 => t.min - 1,
            2 => t.max,
            3 => t.max + 1,
            _ => {
                if token == 0 {
                    rng.range(20_000_000, 9_000_000_000)
                } else if token < 3 {
                    rng.range(1_000_000, 900_000_000)
                } else {
                    rng.range(t.min, t.max / 8)
                }
            }
        };
        let idx = if rng.pct(25) { rng.below(4) as u32 } else { rng.below(1 << 20) as u32 };
        let mut bump = base_hashing(idx).1;
        if rng.pct(8) {
            // another address that is off the curve
            for b in (0..bump).rev() {
                if base_hashing_at(idx, b).is_some() {
                    bump = b;
                    break;
                }
            }
        }
        let mut m = [0u8; 17];
        m.copy_from_slice(&rng.bytes32()[..17]);
        let payer = if rng.pct(6) { self.attacker } else { *rng.pick(&self.relayers) };
        let id = self.id();
        let d = Dep {
            sender: *rng.pick(&self.senders),
            payer,
            token,
            amount,
            secret: groth::fr(&mut Rng::new(id)),
            idx,
            bump,
            metadata: m,
            req: None,
            notes: vec![],
        };
        self.jobs.push(Job::D(d));
    }

    pub fn store_op(&mut self, j: usize, rng: &mut Rng) -> Op {
        let lag = some_lag(rng);
        let st = &self.s.st;
        // before the governor exists such a deposit has to be refused
        let (fee_version, rate) = st.gov.as_ref().map_or((0, 0), |g| (g.fee_version, g.rate));
        let recent = st.ptr - lag.min(st.ptr);
        let Job::D(d) = &mut self.jobs[j] else { unreachable!() };
        if d.req.as_ref().map_or(true, |r| !st.recent_ok(r.recent) || r.fee_version != fee_version) {
            let n = Note::new(d.secret, d.amount, d.token, recent);
            d.req = Some(BaseReq {
                base: raw(n.base()),
                recent,
                amount: d.amount,
                token: d.token,
                commitment: raw(crate::poseidon::from_mont(&n.commitment)),
                fee_version,
                min_batching: rate,
            });
            d.notes.push(n);
        }
        Op::Store {
            sender: d.sender,
            sender_acc: holder(&d.sender, d.token),
            payer: d.payer,
            payer_acc: holder(&d.payer, d.token),
            sol_price: if d.token == 0 { d.payer } else { price_key(0) },
            token_price: if d.token == 0 { d.payer } else { price_key(d.token) },
            idx: d.idx,
            bump: d.bump,
            req: d.req.clone().unwrap(),
            metadata: d.metadata,
        }
    }

    fn dep_next(&mut self, j: usize, rng: &mut Rng) -> Option<(Vec<Op>, Pubkey)> {
        let Job::D(d) = &self.jobs[j] else { return None };
        let d = d.clone();
        let acc = d.acc();
        let stored = |c: &Core| d.notes.iter().any(|n| c.s.h.stored.contains_key(&n.commitment));
        if let Some(b) = self.s.st.bases.get(&acc) {
            if d.req.as_ref() == Some(&b.req) && b.payer == d.payer {
                let cranker = *rng.pick(&self.relayers);
                return Some(if b.instruction < 2 {
                    let n = rng.range(1, 2 - b.instruction as u64);
                    (vec![Op::ComputeBase { idx: d.idx, bump: d.bump }; n as usize], cranker)
                } else {
                    (
                        vec![Op::FinalizeBase { payer: d.payer, idx: d.idx, bump: d.bump, fee_version: b.req.fee_version }],
                        cranker,
                    )
                });
            }
            if stored(self) {
                return None;
            }
            // the address is taken: use another one
            let ni = rng.below(1 << 20) as u32;
            let Job::D(d) = &mut self.jobs[j] else { unreachable!() };
            d.idx = ni;
            d.bump = base_hashing(ni).1;
        }
        if stored(self) {
            return None;
        }
        let op = self.store_op(j, rng);
        let Op::Store { payer, .. } = &op else { unreachable!() };
        let payer = *payer;
        Some((vec![op], payer))
    }

    // ---- transfers ----
    /// Notes that are in a tree and not spent
    pub fn spendable(&self) -> Vec<Note> {
        self.notes
            .iter()
            .filter(|n| self.s.h.leaf.contains_key(&n.commitment) && !self.s.h.spent.contains(&mont(n.nullifier())))
            .cloned()
            .collect()
    }
    fn collect_notes(&mut self) {
        let mut known: BTreeSet<B32> = self.notes.iter().map(|n| n.commitment).collect();
        for j in &self.jobs {
            let v: Vec<&Note> = match j {
                Job::D(d) => d.notes.iter().collect(),
                Job::T(t) => t.variants.iter().map(|v| &v.out).collect(),
            };
            for n in v {
                if n.amount > 0 && self.s.h.leaf.contains_key(&n.commitment) && known.insert(n.commitment) {
                    self.notes.push(n.clone());
                }
            }
        }
    }

    pub fn new_transfer(&mut self, rng: &mut Rng) -> bool {
        self.collect_notes();
        let mut pool_: Vec<Note> = self.spendable();
        let busy: BTreeSet<B32> = self
            .jobs
            .iter()
            .filter_map(|j| match j {
                Job::T(t) if !t.give_up => Some(t),
                _ => None,
            })
            .flat_map(|t| t.inputs.iter().map(|n| n.commitment))
            .collect();
        if rng.pct(self.cfg.conflict) {
            if rng.pct(40) {
                // already spent notes too
                pool_ = self.notes.iter().filter(|n| self.s.h.leaf.contains_key(&n.commitment)).cloned().collect();
            }
        } else {
            pool_.retain(|n| !busy.contains(&n.commitment));
        }
        if pool_.is_empty() {
            return false;
        }
        let first = rng.pick(&pool_).clone();
        let tree = |c: &Core, n: &Note| c.s.h.leaf[&n.commitment].0;
        let t0 = tree(self, &first);
        let mut same: Vec<Note> = pool_
            .iter()
            .filter(|n| {
                n.token == first.token
                    && n.commitment != first.commitment
                    && (tree(self, n) == t0 || self.cfg.two_trees)
            })
            .cloned()
            .collect();
        rng.shuffle(&mut same);
        let k = rng.below(4) as usize;
        let mut inputs = vec![first.clone()];
        inputs.extend(same.into_iter().take(k));
        // inputs of the second tree come last, and of at most two trees
        let mut trees: Vec<u32> = vec![t0];
        inputs.retain(|n| {
            let t = self.s.h.leaf[&n.commitment].0;
            if trees.contains(&t) {
                true
            } else if trees.len() < 2 {
                trees.push(t);
                true
            } else {
                false
            }
        });
        inputs.sort_by_key(|n| (self.s.h.leaf[&n.commitment].0 != t0) as u8);
        self.start_transfer(rng, inputs)
    }

    pub fn start_transfer(&mut self, rng: &mut Rng, inputs: Vec<Note>) -> bool {
        let token = inputs[0].token;
        let total: u64 = inputs.iter().map(|n| n.amount).sum();
        let reserve = self.quote(token, 24, 0).unwrap_or(0) + if token == 0 { 200_000 } else { 5_000 };
        let is_ata = token > 0 && rng.pct(35);
        let ata_tok = if is_ata {
            self.ata_tokens(token).unwrap_or(0)
        } else {
            0
        };
        let floor = if token == 0 { 2 * WALLET_RENT } else { ata_tok + 10 };
        let spare = total.saturating_sub(reserve);
        if spare <= floor + total / 50 {
            return false;
        }
        let max = spare - total / 50;
        let amount = match rng.below(10) {
            0 if !is_ata => 0,
            1 => max,
            // the least there can be
            2 => if token == 0 { WALLET_RENT } else { ata_tok.max(1) },
            _ => rng.range(floor, max),
        };
        let opt_fee = if amount > floor + 2 && rng.pct(30) { rng.range(1, (amount - floor).min(amount / 3).max(1)) } else { 0 };
        let (mut amount, mut opt_fee, mut small) = (amount, opt_fee, false);
        match rng.below(60) {
            // nothing remains for the recipient
            0 | 1 if amount > 0 && !is_ata => opt_fee = amount,
            2 | 3 if is_ata && opt_fee > 0 => amount = ata_tok + opt_fee,
            // too little to be started
            4 | 5 => {
                small = true;
                if is_ata {
                    opt_fee = [0, 1, 5][rng.idx(3)];
                    amount = (ata_tok + opt_fee).saturating_sub(if opt_fee > 1 && rng.pct(50) { opt_fee } else { 1 });
                } else if token == 0 && rng.pct(70) {
                    amount = [1, WALLET_RENT / 2, WALLET_RENT - 1][rng.idx(3)];
                    opt_fee = 0;
                } else if amount > 0 {
                    opt_fee = amount + 1;
                } else {
                    small = false;
                }
            }
            _ => {}
        }
        let n = rng.u64();
        let wallet = match rng.below(5) {
            0 => key(0xFAE5, n),
            1 | 2 => *rng.pick(&self.senders),
            _ => key(0xDE57, rng.below(3)),
        };
        if token == 0 && rng.pct(80) || !self.s.l.exists(&wallet) && rng.pct(70) {
            self.s.l.airdrop(&wallet, 5_000_000);
        }
        if token > 0 && !is_ata && rng.pct(90) && !self.s.l.exists(&ata(&wallet, token)) {
            self.s.fund_token(&wallet, token, 0);
        }
        let kind = if rng.pct(self.cfg.invalid) {
            if rng.pct(30) {
                ProofKind::FakeRoot(rng.below(5) as u8)
            } else {
                ProofKind::Corrupt(rng.u64())
            }
        } else {
            ProofKind::Valid
        };
        let id = self.id();
        let payer = if rng.pct(6) { self.attacker } else { *rng.pick(&self.relayers) };
        let coll = *rng.pick(&self.senders);
        let memo = if rng.pct(35) {
            let l = rng.idx(60);
            Some((0..l).map(|_| rng.below(256) as u8).collect())
        } else {
            None
        };
        let mut metadata = [0u8; 17];
        metadata.copy_from_slice(&rng.bytes32()[..17]);
        let idx = loop {
            let i = if rng.pct(40) { rng.below(4) } else { rng.below(128) } as u8;
            if !self.s.st.verifs.contains_key(&verif(&payer, i as u32)) || rng.pct(5) {
                break i;
            }
        };
        let mut pay = rng.pct(30) && amount > 0;
        let (mut payer, mut wallet, mut is_ata, mut idx) = (payer, wallet, is_ata, idx);
        if !small && rng.pct(15) {
            // the same payment as that of another transfer
            let twin = self.jobs.iter().rev().find_map(|j| match j {
                Job::T(t) if t.pay && !t.small && t.token == token && t.amount <= max && t.amount >= floor => Some(t),
                _ => None,
            });
            if let Some(t) = twin {
                (payer, wallet, amount, opt_fee, is_ata, pay) = (t.payer, t.wallet, t.amount, t.opt_fee, t.is_ata, true);
                let free = (0..64u8).find(|i| {
                    !self.s.st.verifs.contains_key(&verif(&payer, *i as u32))
                        && !self.jobs.iter().any(|j| matches!(j, Job::T(t) if t.payer == payer && t.idx == *i))
                });
                if let Some(i) = free {
                    idx = i
                }
                self.s.rep.probe("two transfers with the same payment");
            }
        }
        let t = Tra {
            payer,
            idx,
            token,
            amount,
            opt_fee,
            over_fee: if rng.pct(20) { rng.below(5000) } else { 0 },
            collector: holder(&coll, token),
            wallet,
            is_ata,
            pay,
            memo,
            reference: if rng.pct(30) { Some(key(0x4EF, rng.u64())) } else { None },
            identifier: key(0x1DE, rng.u64()),
            iv: rng.bytes32(),
            owner: rng.bytes32(),
            metadata,
            secret: groth::fr(&mut Rng::new(id)),
            kind,
            full: rng.pct(self.cfg.full_verify),
            seed: id,
            inputs,
            variants: vec![],
            give_up: false,
            small,
            eager: rng.pct(30),
        };
        self.jobs.push(Job::T(t));
        true
    }

    /// The deposit for the recipient's token account at the present price
    pub fn ata_tokens(&self, token: u16) -> Option<u64> {
        into_token(&self.s.st, token, &price_key(0), &price_key(token)).ok().and_then(|f| f(ATA_RENT).ok())
    }

    /// Fee due for a transfer in its token
    pub fn quote(&self, token: u16, prep: u64, amount: u64) -> Option<u64> {
        let g = self.s.st.gov.as_ref()?;
        let f = into_token(&self.s.st, token, &price_key(0), &price_key(token)).ok()?;
        let v = f(g.fee.proof_fee(prep)).ok()? + f(g.fee.commitment_fee(g.rate)).ok()? + g.fee.proof_bp * amount / 10_000;
        v.checked_sub(f(g.fee.proof_sub).ok()?)
    }

    /// Builds request and proof for the present state of the chain
    pub fn prepare(&mut self, j: usize, rng: &mut Rng) -> bool {
        let st = &self.s.st;
        let h = &self.s.h;
        let Job::T(t) = &self.jobs[j] else { return false };
        let mut trees: Vec<u32> = vec![];
        let mut inp: Vec<(Option<B32>, B32)> = vec![];
        for n in &t.inputs {
            let Some((tree, at)) = h.leaf.get(&n.commitment).copied() else { return false };
            let nf = raw(n.nullifier());
            if trees.contains(&tree) {
                inp.push((None, nf));
                continue;
            }
            trees.push(tree);
            let mut root = if tree == st.trees {
                let r = st.tree.root();
                let mut m = mont(r);
                if rng.pct(50) {
                    // any of the recent roots that contains the note
                    let ok: Vec<B32> = st.roots[..(st.roots_count as usize).min(HISTORY)]
                        .iter()
                        .filter(|r| h.roots.get(&(tree, **r)).map_or(false, |n| *n > at))
                        .copied()
                        .collect();
                    if !ok.is_empty() {
                        m = *rng.pick(&ok);
                    }
                }
                m
            } else {
                match st.nulls.get(&tree) {
                    Some(n) => n.root,
                    None => return false,
                }
            };
            if let ProofKind::FakeRoot(k) = t.kind {
                root = match k {
                    0 => [0; 32],
                    1 => mont(groth::fr(&mut Rng::new(t.seed))),
                    2 => h.finals.values().next().copied().unwrap_or([0; 32]),
                    3 => h
                        .roots
                        .iter()
                        .filter(|(k, _)| k.0 == tree)
                        .map(|(k, _)| k.1)
                        .find(|r| !st.root_valid(r))
                        .unwrap_or([0; 32]),
                    _ => mont(crate::merkle::empty()[0]),
                };
            }
            inp.push((Some(raw(crate::poseidon::from_mont(&root))), nf));
        }
        if trees.len() == 1 {
            // the program cannot take the same account twice
            let others: Vec<u32> = st.nulls.keys().copied().filter(|t| *t != trees[0]).collect();
            trees.push(if others.is_empty() || rng.pct(1) { trees[0] } else { *rng.pick(&others) });
        }
        if let ProofKind::FakeRoot(k) = t.kind {
            // a tree that does not exist yet has an all-zero final root
            if rng.pct(50) && k == 0 {
                trees[0] = *st.nulls.keys().last().unwrap();
            }
        }
        let fee_version = st.gov.as_ref().map_or(0, |g| g.fee_version);
        let total: u64 = t.inputs.iter().map(|n| n.amount).sum();
        let recent = st.ptr - some_lag(rng).min(st.ptr);
        let mut prep = 12u64;
        for _ in 0..12 {
            let Some(q) = self.quote(t.token, prep, t.amount) else { return false };
            let fee = q + t.over_fee;
            let Some(out_amount) = total.checked_sub(t.amount).and_then(|x| x.checked_sub(fee)) else { return false };
            let out = Note::new(hash2(t.secret, Fr::from(recent as u64 + ((t.variants.len() as u64) << 40))), out_amount, t.token, recent);
            let memo = t.memo.clone();
            let hashed = hashed_inputs(
                &t.recipient(),
                &t.identifier,
                &t.iv,
                &t.owner,
                &t.reference,
                t.is_ata,
                &t.metadata,
                &t.collector,
                t.opt_fee,
                &memo,
            );
            let req = SendReq {
                inputs: inp.clone(),
                out: raw(crate::poseidon::from_mont(&out.commitment)),
                recent,
                fee_version,
                amount: t.amount,
                fee,
                collector: t.collector,
                opt_fee: t.opt_fee,
                token: t.token,
                metadata: t.metadata,
                is_ata: t.is_ata,
                solana_pay: t.pay,
                hashed,
            };
            let pi = public_inputs(&req);
            let n = prep_plan(&pi).len() as u64;
            if n > prep {
                prep = n;
                continue;
            }
            if n < prep && prep == 12 {
                prep = n;
                continue;
            }
            let Some(fpi) = pi.iter().map(|x| crate::poseidon::from_raw(&x[..])).collect::<Option<Vec<_>>>() else {
                return false;
            };
            let k = st.vkeys.get(&0).and_then(|v| v.key).unwrap_or(0);
            let mut r = Rng::new(mix(&[t.seed, n, recent as u64, self.n as u64]));
            let mut proof = groth::key(k).prove(&fpi, &mut r);
            if let ProofKind::Corrupt(s) = t.kind {
                let mut other = fpi.clone();
                other[8] += Fr::from(1u64);
                let o = groth::key(k).prove(&other, &mut r);
                let mut r2 = Rng::new(s);
                proof = groth::corrupt(&proof, &o, &mut r2).0;
            }
            let d = dup(&req.nullifiers());
            let skip = st.dups.contains(&d) && self.s.l.exists(&d) && rng.pct(60);
            let Job::T(t) = &mut self.jobs[j] else { return false };
            if skip && t.kind == ProofKind::Valid && t.variants.is_empty() && rng.pct(35) {
                // a wrong proof in the shadow of another verification of the same notes
                let x = rng.u64();
                let mut other = fpi.clone();
                other[8] += Fr::from(1u64);
                let o = groth::key(k).prove(&other, &mut r);
                proof = groth::corrupt(&proof, &o, &mut Rng::new(x)).0;
                t.kind = ProofKind::Corrupt(x);
            }
            let v = Variant { req, trees: [trees[0], trees[1]], skip, proof, out };
            t.variants.push(v);
            return true;
        }
        false
    }

    pub fn null_kids(&self, req: &SendReq, trees: &[u32; 2]) -> (Vec<usize>, Vec<usize>) {
        let mut k = [BTreeSet::new(), BTreeSet::new()];
        let mut slot = 0;
        for (i, (root, nf)) in req.inputs.iter().enumerate() {
            let s = if root.is_some() && i > 0 {
                slot += 1;
                slot
            } else {
                0
            };
            if let (true, Some(n)) = (s < 2, self.s.st.nulls.get(&trees[s.min(1)])) {
                if let Some(f) = crate::poseidon::from_raw(&nf[..]) {
                    k[s].insert(n.set.child_of(&mont(f)));
                }
            }
        }
        (k[0].iter().copied().collect(), k[1].iter().copied().collect())
    }

    pub fn init_op(&self, t: &Tra, v: &Variant) -> Op {
        let (kids0, kids1) = self.null_kids(&v.req, &v.trees);
        Op::InitVerif {
            payer: t.payer,
            idx: t.idx,
            vkey: 0,
            trees: v.trees,
            req: v.req.clone(),
            skip: v.skip,
            kids0,
            kids1,
        }
    }
    pub fn fee_op(&self, t: &Tra) -> Op {
        Op::Fee {
            payer: t.payer,
            payer_acc: holder(&t.payer, t.token),
            sol_price: if t.token == 0 { t.payer } else { price_key(0) },
            token_price: if t.token == 0 { t.payer } else { price_key(t.token) },
            idx: t.idx,
            token: t.token,
        }
    }
    pub fn send_op(&self, t: &Tra, v: &Variant) -> Op {
        let st = &self.s.st;
        let pos = st.ptr as usize + st.queue.len();
        let leaves = 1usize << HEIGHT;
        Op::Send {
            payer: t.payer,
            idx: t.idx,
            recipient: t.recipient(),
            identifier: t.identifier,
            reference: t.reference,
            data: SendData {
                total: v.req.amount.wrapping_add(v.req.fee),
                token: v.req.token,
                mt: st.trees + (pos / leaves) as u32,
                index: (pos % leaves) as u32,
                iv: t.iv,
                owner: t.owner,
            },
            memo: t.memo.is_some(),
        }
    }
    pub fn pay_op(&self, t: &Tra, v: &Variant) -> Op {
        let d = dup(&v.req.nullifiers());
        if t.token == 0 {
            Op::PayLamports { payer: t.payer, idx: t.idx, recipient: t.wallet, opt: t.collector, dup: d }
        } else {
            Op::PayToken {
                payer: t.payer,
                payer_acc: self.s.st.verifs.get(&t.acc()).and_then(|v| v.payer_acc).unwrap_or_else(|| holder(&t.payer, t.token)),
                idx: t.idx,
                recipient: ata(&t.wallet, t.token),
                wallet: t.wallet,
                opt: t.collector,
                dup: d,
                token: t.token,
                mint: mint(t.token),
            }
        }
    }
    pub fn insert_ops(&self, t: &Tra, v: &Variant) -> Vec<Op> {
        let Some(n) = self.s.st.nulls.get(&v.trees[0]) else { return vec![] };
        let vals: Vec<B32> = v
            .req
            .nullifiers()
            .iter()
            .filter_map(|n| crate::poseidon::from_raw(&n[..]).map(mont))
            .collect();
        Inserting::plan(&n.set, &vals)
            .into_iter()
            .map(|kids| Op::Insert { payer: t.payer, idx: t.idx, mt: v.trees[0], kids })
            .collect()
    }
    pub fn final_ops(&self, t: &Tra, v: &Variant, verdict: bool) -> Vec<Op> {
        let mut ops = vec![self.send_op(t, v)];
        if verdict {
            ops.extend(self.insert_ops(t, v));
        }
        ops.push(self.pay_op(t, v));
        if let Some(m) = &t.memo {
            ops.push(Op::Memo { text: m.clone() });
        }
        if t.pay {
            // the payment the transfer is bound to; for a rejected one the position of the memo matters only
            let mut out = v.req.amount - v.req.opt_fee;
            if t.token == 0 {
                let amount = if verdict { out } else { 0 };
                ops.push(Op::SysTransfer { from: t.payer, to: t.wallet, amount });
            } else {
                let to = ata(&t.wallet, t.token);
                if verdict && t.is_ata && !self.s.l.exists(&to) {
                    out = out.saturating_sub(self.s.st.verifs.get(&t.acc()).map_or(0, |x| x.ata_tok));
                }
                if verdict {
                    // a transfer to something else than an account of the token goes to the collector
                    let valid = crate::bank::parse_tok(&self.s.l.get(&to)).map_or(false, |x| x.mint == mint(t.token));
                    let dest = if !t.is_ata && !valid { ata(&collector(), t.token) } else { to };
                    let from = self.s.st.verifs.get(&t.acc()).and_then(|v| v.payer_acc).unwrap_or_else(|| holder(&t.payer, t.token));
                    ops.push(Op::TokTransfer { from, to: dest, owner: t.payer, amount: out });
                } else {
                    ops.push(Op::Nop);
                }
            }
        }
        ops
    }
    pub fn compute_ops(&self, t: &Tra, n: usize) -> Vec<Op> {
        let mut ops = vec![Op::Budget { units: 1_400_000 }, Op::Budget { units: 1_400_000 }];
        ops.extend(vec![Op::Compute { payer: t.payer, idx: t.idx, vkey: 0, kids: vec![0] }; n]);
        ops
    }

    /// The variant the chain works on, if the verification on the chain is this job's
    pub fn current(&self, t: &Tra) -> Option<Variant> {
        let v = self.s.st.verifs.get(&t.acc())?;
        t.variants.iter().find(|x| x.req == v.req && x.trees == v.trees).cloned()
    }
    pub fn superseded(&self, t: &Tra) -> bool {
        t.inputs.iter().any(|n| self.s.h.spent.contains(&mont(n.nullifier())))
    }

    fn tra_next(&mut self, j: usize, rng: &mut Rng) -> Option<(Vec<Op>, Pubkey)> {
        let Job::T(t) = &self.jobs[j] else { return None };
        let t = t.clone();
        let acc = t.acc();
        if t.variants.iter().any(|v| self.s.h.stored.contains_key(&v.out.commitment)) {
            return None;
        }
        let Some(v) = self.s.st.verifs.get(&acc).cloned() else {
            if t.give_up {
                return None;
            }
            if !self.prepare(j, rng) {
                return None;
            }
            let Job::T(t) = &self.jobs[j] else { return None };
            let mut ops = vec![self.init_op(t, t.variants.last().unwrap())];
            if t.small || rng.pct(50) && !t.eager {
                ops.push(self.fee_op(t));
            }
            let payer = t.payer;
            let Job::T(t) = &mut self.jobs[j] else { return None };
            t.give_up |= t.small;
            return Some((ops, payer));
        };
        let x = self.current(&t)?;
        let who = if rng.pct(70) { t.payer } else { *rng.pick(&self.relayers) };
        match v.state {
            S_NONE => {
                if (t.eager || rng.pct(10)) && v.prep_done < v.prep.len() as u32 {
                    return Some((self.compute_ops(&t, 5), who));
                }
                Some((vec![self.fee_op(&t)], t.payer))
            }
            S_FEE => Some((vec![Op::Proof { payer: t.payer, idx: t.idx, proof: x.proof.clone() }], t.payer)),
            S_PROOF => match v.verified {
                None => {
                    if !t.full && v.miller == 0 && rng.pct(95) {
                        self.s.fast_forward(&acc);
                        return None;
                    }
                    Some((self.compute_ops(&t, 5), who))
                }
                Some(false) if rng.pct(30) && !self.finishing => None,
                Some(b) => {
                    let ops = self.final_ops(&t, &x, b);
                    if !b && rng.pct(40) {
                        // closing in two transactions
                        let k = ops.iter().position(|o| matches!(o, Op::PayLamports { .. } | Op::PayToken { .. })).unwrap();
                        let mut o = ops.clone();
                        o.remove(k);
                        return Some((o, t.payer));
                    }
                    Some((ops, t.payer))
                }
            },
            S_FINAL if rng.pct(80) && !self.finishing => None,
            S_FINAL => Some((vec![self.pay_op(&t, &x)], t.payer)),
            _ => None,
        }
    }

    // ---- hashing ----
    pub fn crank(&mut self, rng: &mut Rng) -> Option<(Vec<Op>, Pubkey)> {
        let who = *rng.pick(&self.relayers);
        let st = &self.s.st;
        let h = &st.hash;
        if !h.active {
            if st.queue.is_empty() {
                return None;
            }
            let can_fail = rng.pct(25);
            let mut ops = vec![Op::Setup { can_fail, kids: opening_children(st.ptr as usize) }];
            if rng.pct(50) && h.setup && h.ordering == st.ptr {
                ops.clear();
            }
            if rng.pct(70) || ops.is_empty() {
                ops.push(Op::InitHash { can_fail, kids: self.meta_kids() });
            }
            if rng.pct(30) && ops.len() == 2 {
                // the usual bundle
                ops.push(Op::ComputeHash { payer: who, fee_version: st.queue[0].1, nonce: 0 });
            }
            return Some((ops, who));
        }
        if h.instruction < hash_ixs(h.rate) {
            let left = (hash_ixs(h.rate) - h.instruction) as u64;
            if !self.finishing && left <= 2 && rng.pct(12) {
                // too early
                let kids = insertion_children(h.ordering as usize, h.rate as usize);
                return Some((vec![Op::FinalizeHash { kids }; rng.range(1, h.rate as u64 + 1) as usize], who));
            }
            let n = if !self.finishing && left < 6 && rng.pct(6) { left + 1 } else { rng.range(1, 6).min(left) };
            let ops = (0..n)
                .map(|i| Op::ComputeHash { payer: who, fee_version: h.fee_version, nonce: i as u32 })
                .collect();
            return Some((ops, who));
        }
        let kids = insertion_children(h.ordering as usize, h.rate as usize);
        let left = (h.rate + 1 - h.fin) as usize;
        let n = if rng.pct(70) { left } else { 1 };
        Some((vec![Op::FinalizeHash { kids }; n], who))
    }
    pub fn meta_kids(&self) -> Vec<usize> {
        let st = &self.s.st;
        let n = next_batch(&st.queue).map_or(1, |x| x.0);
        let mut v: BTreeSet<usize> = BTreeSet::new();
        for i in 0..n {
            v.insert(((st.meta_ptr as usize + i) % (1 << HEIGHT)) / META_PER_CHILD);
        }
        v.into_iter().collect()
    }

    // ---- sending ----
    pub fn submit(&mut self, ops: Vec<Op>, payer: Pubkey, rng: &mut Rng) -> Out {
        if !self.finishing {
            if rng.pct(self.cfg.drop) {
                self.s.rep.fault("message lost");
                return Out::Lost;
            }
            if rng.pct(self.cfg.delay) {
                self.s.rep.fault("message delayed");
                let at = self.n + rng.range(1, 25) as usize;
                self.mempool.push(Pending { at, ops, payer });
                return Out::Lost;
            }
            if rng.pct(self.cfg.dup) {
                self.s.rep.fault("message duplicated");
                let at = self.n + rng.below(12) as usize;
                self.mempool.push(Pending { at, ops: ops.clone(), payer });
            }
            if rng.pct(3) {
                if let Some(o) = self.unsigned(&ops, payer, rng) {
                    return o;
                }
            }
        }
        self.exec(&ops, payer)
    }

    pub fn exec(&mut self, ops: &[Op], payer: Pubkey) -> Out {
        if self.cfg.subst > 0 && !self.finishing && !self.s.dead {
            self.cur = self.cur.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(1);
            let mut rng = Rng::new(self.cur);
            let rare = ops.iter().any(|o| matches!(o, Op::PayToken { .. } | Op::PayLamports { .. } | Op::Send { .. } | Op::Fee { .. }));
            if rng.pct(if rare { self.cfg.subst * 4 } else { self.cfg.subst }) {
                self.substitute(ops, payer, &mut rng);
            }
        }
        let r = self.s.run(ops, payer);
        if let (Out::Refused(_), true) = (&r, ops.iter().filter(|o| matches!(o, Op::Compute { .. })).count() > 1) {
            // the bundle does not fit the present phase: one step at a time
            if ops.iter().all(|o| matches!(o, Op::Compute { .. } | Op::Budget { .. })) {
                let c = ops.iter().find(|o| matches!(o, Op::Compute { .. })).unwrap().clone();
                let mut v = vec![Op::Budget { units: 1 }, Op::Budget { units: 1 }];
                v.push(c);
                let r2 = self.s.run(&v, payer);
                return r2;
            }
        }
        r
    }

    /// The same transaction with the signature of somebody missing
    fn unsigned(&mut self, ops: &[Op], payer: Pubkey, rng: &mut Rng) -> Option<Out> {
        let kids = self.s.st.kids();
        // one of the operations by itself, also with the account it makes already paid for
        let one;
        let ops = if rng.pct(35) {
            one = [rng.pick(ops).clone()];
            &one[..]
        } else {
            ops
        };
        if rng.pct(40) {
            let new: Vec<Pubkey> = ops
                .iter()
                .flat_map(|o| match o {
                    Op::InitVerif { payer, idx, req, .. } => vec![verif(payer, *idx as u32), dup(&req.nullifiers())],
                    _ => vec![],
                })
                .collect();
            for to in new {
                if !self.s.l.exists(&to) {
                    self.s.rep.fault("address prefunded");
                    let op = Op::SysTransfer { from: self.attacker, to, amount: 100_000_000 };
                    if let Out::Broken = self.s.run(&[op], self.attacker) {
                        return Some(Out::Broken);
                    }
                }
            }
        }
        let mut ixs: Vec<_> = ops.iter().map(|o| build(o, &kids)).collect();
        // (what other programs are sent is none of this one's business)
        let mut who: Vec<Pubkey> =
            ixs.iter().filter(|i| i.program_id != crate::subst::fake_program()).flat_map(|i| i.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey)).collect();
        who.sort();
        who.dedup();
        if who.is_empty() {
            return None;
        }
        let victim = *rng.pick(&who);
        let p = if victim == payer { self.attacker } else { payer };
        if victim == self.attacker {
            return None;
        }
        for ix in ixs.iter_mut() {
            for m in ix.accounts.iter_mut() {
                if m.pubkey == victim {
                    m.is_signer = false;
                }
            }
        }
        self.s.rep.fault("signature missing");
        self.s.rep.txs += 1;
        let r = self.s.l.execute(&Tx::full(ixs, p));
        let ok = r.res.is_ok();
        self.s.l.done(r);
        self.s.rep.hit("C13");
        let names: Vec<&str> = ops.iter().map(|o| o.name()).collect();
        self.s.rep.log(format!("unsigned {} {}", names.join("+"), ok));
        if ok {
            self.s.bad(
                &["C13"],
                format!("unsigned:{}", names.join("+")),
                format!("accepted without the signature of {victim} ({})", role(&victim)),
            );
            return Some(Out::Broken);
        }
        Some(Out::Lost)
    }

    fn ops_of(&mut self, rng: &mut Rng) -> Option<(Vec<Op>, Pubkey)> {
        if self.jobs.is_empty() || rng.pct(self.cfg.crank) {
            return self.crank(rng);
        }
        let j = rng.idx(self.jobs.len());
        self.advance(j, rng)
    }
    pub fn advance(&mut self, j: usize, rng: &mut Rng) -> Option<(Vec<Op>, Pubkey)> {
        match &self.jobs[j] {
            Job::D(_) => self.dep_next(j, rng),
            Job::T(_) => self.tra_next(j, rng),
        }
    }

    /// An operation that does not fit the present phase
    fn out_of_turn(&mut self, rng: &mut Rng) -> Option<(Vec<Op>, Pubkey)> {
        if self.jobs.is_empty() {
            return None;
        }
        let j = rng.idx(self.jobs.len());
        match self.jobs[j].clone() {
            Job::D(d) => {
                let fv = d.req.as_ref().map_or(0, |r| r.fee_version);
                let ops = match rng.below(4) {
                    0 => vec![Op::ComputeBase { idx: d.idx, bump: d.bump }],
                    1 => vec![Op::FinalizeBase {
                        payer: if rng.pct(50) { d.payer } else { self.attacker },
                        idx: d.idx,
                        bump: d.bump,
                        fee_version: fv,
                    }],
                    2 => {
                        if d.req.is_none() {
                            return None;
                        }
                        vec![self.store_op(j, rng)]
                    }
                    _ => vec![Op::ComputeBase { idx: d.idx, bump: base_hashing(d.idx).1 }; 3],
                };
                Some((ops, d.payer))
            }
            Job::T(t) => {
                let v = t.variants.last()?.clone();
                let v = if rng.pct(30) { rng.pick(&t.variants).clone() } else { v };
                let ops = match rng.below(11) {
                    0 => vec![self.init_op(&t, &v)],
                    1 => vec![self.fee_op(&t)],
                    2 => vec![Op::Proof { payer: t.payer, idx: t.idx, proof: v.proof.clone() }],
                    3 => self.compute_ops(&t, 1 + rng.idx(6)),
                    4 => vec![self.send_op(&t, &v)],
                    5 => self.insert_ops(&t, &v),
                    6 => vec![self.pay_op(&t, &v)],
                    7 => self.final_ops(&t, &v, true),
                    8 => self.final_ops(&t, &v, false),
                    9 => {
                        let mut o = self.final_ops(&t, &v, true);
                        let i = rng.idx(o.len());
                        o.remove(i);
                        o
                    }
                    _ => {
                        let mut o = self.final_ops(&t, &v, true);
                        let i = rng.idx(o.len());
                        let k = rng.idx(o.len());
                        if rng.pct(50) {
                            o.swap(i, k);
                        } else {
                            let x = o[i].clone();
                            o.insert(k, x);
                        }
                        o
                    }
                };
                Some((ops, t.payer))
            }
        }
    }

    /// The other instruction for the end of the same verification
    fn wrong_kind(&self, op: &Op, rng: &mut Rng) -> Op {
        match op.clone() {
            Op::PayLamports { payer, idx, recipient, opt, dup } => {
                let t = 1 + rng.below(2) as u16;
                let is_holder = rng.pct(50);
                Op::PayToken {
                    payer,
                    payer_acc: self
                        .s
                        .st
                        .verifs
                        .get(&verif(&payer, idx as u32))
                        .and_then(|v| v.payer_acc)
                        .filter(|_| rng.pct(70))
                        .unwrap_or(holder(&payer, t)),
                    idx,
                    recipient: if is_holder { recipient } else { ata(&recipient, t) },
                    wallet: recipient,
                    opt: if rng.pct(50) { opt } else { holder(&opt, t) },
                    dup,
                    token: t,
                    mint: mint(t),
                }
            }
            Op::PayToken { payer, idx, recipient, wallet, opt, dup, .. } => {
                let recipient = if rng.pct(50) { recipient } else { wallet };
                Op::PayLamports { payer, idx, recipient, opt, dup }
            }
            o => o,
        }
    }

    /// The end of a transfer, tampered with: another recipient, another kind of payment, parts of other transfers
    fn tampered_end(&mut self, ops: &[Op], rng: &mut Rng) -> Option<(Vec<Op>, &'static str)> {
        let mut o = ops.to_vec();
        let pay = o.iter().position(|x| matches!(x, Op::PayLamports { .. } | Op::PayToken { .. }));
        let others: Vec<(Pubkey, u8)> = self
            .jobs
            .iter()
            .filter_map(|j| match j {
                Job::T(t) if self.s.st.verifs.contains_key(&t.acc()) => Some((t.payer, t.idx)),
                _ => None,
            })
            .collect();
        let what = match rng.below(17) {
            16 => {
                // one of the instructions around the program's is executed by another program
                let at: Vec<usize> =
                    (0..o.len()).filter(|i| *i > 0 && matches!(o[*i], Op::SysTransfer { .. } | Op::TokTransfer { .. } | Op::Memo { .. })).collect();
                if at.is_empty() || rng.pct(20) {
                    let k = rng.idx(o.len());
                    o[k] = Op::Fake { of: Box::new(o[k].clone()) };
                } else {
                    let k = *rng.pick(&at);
                    o[k] = Op::Fake { of: Box::new(o[k].clone()) };
                }
                "instruction of another program"
            }
            13..=15 => {
                // everything for somebody else
                let w = if rng.pct(40) { self.attacker } else { *rng.pick(&self.senders) };
                let old = match &mut o[pay?] {
                    Op::PayToken { recipient, wallet, token, .. } => {
                        let old = *recipient;
                        if *wallet == w {
                            return None;
                        }
                        *wallet = w;
                        *recipient = ata(&w, *token);
                        old
                    }
                    Op::PayLamports { recipient, .. } => {
                        if *recipient == w {
                            return None;
                        }
                        std::mem::replace(recipient, w)
                    }
                    _ => return None,
                };
                let new = match &o[pay?] {
                    Op::PayToken { recipient, .. } | Op::PayLamports { recipient, .. } => *recipient,
                    _ => return None,
                };
                if let Some(Op::SysTransfer { to, .. } | Op::TokTransfer { to, .. }) = o.last_mut() {
                    if *to == old {
                        *to = new;
                    }
                }
                "another recipient with their account"
            }
            11 | 12 => {
                // any other account in the place of the one of the nullifiers
                let mut all = vec![pool(), collector(), queue(), meta_queue(), storage(), hashing(), governor(), fee_acc(0), key(0x999, 5)];
                all.extend(self.s.st.dups.iter());
                all.extend(self.s.st.verifs.keys());
                let i = pay?;
                let x = *rng.pick(&all);
                match &mut o[i] {
                    Op::PayLamports { dup, .. } | Op::PayToken { dup, .. } => *dup = x,
                    _ => return None,
                }
                "another account for the nullifiers"
            }
            0 | 1 => {
                let i = pay?;
                o[i] = self.wrong_kind(&o[i], rng);
                "payment of the other kind"
            }
            2 | 3 => {
                // a step of another transfer in the place of one of this one
                if others.is_empty() {
                    return None;
                }
                let (mut p, mut x) = *rng.pick(&others);
                let mut i = rng.idx(o.len());
                if let Some(Op::Send { payer, idx, .. }) = ops.first() {
                    if let (Some(y), true) = (others.iter().find(|y| y.1 == *idx && y.0 != *payer), rng.pct(70)) {
                        (p, x) = *y;
                        i = if rng.pct(60) { pay.unwrap_or(i) } else { i };
                    }
                }
                match &mut o[i] {
                    Op::Send { payer, idx, .. }
                    | Op::Insert { payer, idx, .. }
                    | Op::PayLamports { payer, idx, .. }
                    | Op::PayToken { payer, idx, .. } => {
                        if rng.pct(70) {
                            *payer = p;
                        }
                        *idx = x;
                    }
                    _ => return None,
                }
                "step of another transfer"
            }
            4 | 5 => {
                // the end of two transfers in one transaction
                let js: Vec<Tra> = self.jobs.iter().filter_map(|j| if let Job::T(t) = j { Some(t.clone()) } else { None }).collect();
                let ready: Vec<Tra> =
                    js.iter().filter(|t| self.s.st.verifs.get(&t.acc()).map_or(false, |v| v.state == S_FINAL)).cloned().collect();
                let own = |t: &Tra| matches!(ops.first(), Some(Op::Send { payer, idx, .. }) if *payer == t.payer && *idx == t.idx);
                let mut ready: Vec<Tra> = ready.into_iter().filter(|t| !own(t)).collect();
                // of the same relayer and kind of payment, if there is one
                let like = |t: &Tra| match pay.map(|i| &ops[i]) {
                    Some(Op::PayLamports { payer, .. }) => t.token == 0 && t.payer == *payer,
                    Some(Op::PayToken { payer, .. }) => t.token > 0 && t.payer == *payer,
                    _ => false,
                };
                if ready.iter().any(like) {
                    ready.retain(like);
                }
                if let (Some(i), true) = (pay, !ready.is_empty() && rng.pct(60)) {
                    // the checks of this one, the payment of another that has been checked before
                    let t = rng.pick(&ready).clone();
                    let v = self.current(&t)?;
                    o[i] = self.pay_op(&t, &v);
                    return Some((o, "payment of another transfer"));
                }
                let mut t = rng.pick(&js).clone();
                let mine = js.iter().find(|t| own(t));
                let twin = mine.and_then(|m| {
                    js.iter().find(|t| !own(t) && t.pay && m.pay && (t.payer, t.wallet, t.token, t.amount) == (m.payer, m.wallet, m.token, m.amount))
                });
                if let Some(x) = twin {
                    t = x.clone()
                }
                let v = self.current(&t)?;
                let more = self.final_ops(&t, &v, rng.pct(70));
                if twin.is_some() && rng.pct(60) {
                    // one payment for both
                    if let Some(Op::SysTransfer { .. } | Op::TokTransfer { .. }) = o.last() {
                        o.pop();
                        o.extend(more);
                        return Some((o, "one payment for two transfers"));
                    }
                }
                if rng.pct(50) {
                    o.extend(more);
                } else {
                    let k = rng.idx(o.len());
                    let x = rng.pick(&more).clone();
                    if rng.pct(50) {
                        o.insert(k, x)
                    } else {
                        o[k] = x
                    }
                }
                "end of two transfers"
            }
            _ => {
                let i = match pay {
                    Some(i) if rng.pct(55) => i,
                    _ if rng.pct(60) => o.len() - 1,
                    _ => rng.idx(o.len()),
                };
                let m = crate::mutate::Ctx { core: self }.mutate(&o[i], rng)?;
                o[i] = m;
                "end tampered"
            }
        };
        Some((o, what))
    }

    /// The end of this transfer with the payment of a rejected one of the same relayer, which is half closed
    fn payment_of_a_closed_one(&mut self, ops: &[Op], payer: Pubkey, rng: &mut Rng) -> Option<Vec<Op>> {
        let at = ops.iter().position(|x| matches!(x, Op::PayLamports { .. } | Op::PayToken { .. }))?;
        let lamports = matches!(ops[at], Op::PayLamports { .. });
        let Some(Op::Send { idx: own, .. }) = ops.first() else { return None };
        let st = &self.s.st;
        let mut v: Vec<Tra> = vec![];
        for j in &self.jobs {
            if let Job::T(t) = j {
                let Some(x) = st.verifs.get(&t.acc()) else { continue };
                let closing = x.state == S_FINAL || x.state == S_PROOF && x.verified == Some(false);
                if (t.payer == payer) == (t.idx != *own) && closing && (t.token == 0 || !lamports) {
                    v.push(t.clone());
                }
            }
        }
        if v.is_empty() {
            return None;
        }
        let t = rng.pick(&v).clone();
        let x = self.current(&t)?;
        if self.s.st.verifs[&t.acc()].state == S_PROOF {
            let mut o = self.final_ops(&t, &x, false);
            o.retain(|o| !matches!(o, Op::PayLamports { .. } | Op::PayToken { .. }));
            if !self.exec(&o, payer).ok() {
                return None;
            }
        }
        let mut o = ops.to_vec();
        o[at] = self.pay_op(&t, &x);
        Some(o)
    }

    /// The start of a verification whose inputs are tampered with: a note twice, at any two positions, a spent
    /// note or an unknown root at any position
    fn tampered_inputs(&mut self, op: &Op, rng: &mut Rng) -> Option<(Op, &'static str)> {
        let Op::InitVerif { payer, idx, vkey, trees, req, skip, .. } = op else { return None };
        let (mut req, mut trees) = (req.clone(), *trees);
        let st = &self.s.st;
        let n = rng.range(req.inputs.len().max(2) as u64, 4) as usize;
        let others: Vec<u32> = st.nulls.keys().copied().filter(|t| !trees[..1].contains(t)).collect();
        while req.inputs.len() < n {
            req.inputs.push((None, raw(groth::fr(rng))));
        }
        let roots = req.inputs.iter().filter(|x| x.0.is_some()).count();
        let kind = if !self.s.h.spent.is_empty() && rng.pct(40) { 2 } else { rng.below(4) };
        let what = match kind {
            0 | 1 => {
                let i = rng.idx(n);
                let j = (i + rng.range(1, n as u64 - 1) as usize) % n;
                req.inputs[i].1 = req.inputs[j].1;
                "a note twice"
            }
            2 => {
                // spent notes of the tree the input is said to be of, at that position
                let i = if rng.pct(50) { n - 1 } else { rng.idx(n) };
                let mut s = 0;
                for k in 1..=i {
                    if req.inputs[k].0.is_some() {
                        s = (s + 1).min(1);
                    }
                }
                let t = if i > 0 && req.inputs[i].0.is_none() { trees[0] } else { trees[s] };
                let set = &st.nulls.get(&t)?.set;
                let spent: Vec<B32> = self.s.h.spent.iter().filter(|x| set.contains(x)).copied().collect();
                if spent.is_empty() {
                    return None;
                }
                req.inputs[i].1 = raw(crate::poseidon::from_mont(&spent[rng.idx(spent.len())]));
                "a spent note among the inputs"
            }
            _ => {
                // a second root: unknown, of the same tree, of another tree
                let i = if roots > 1 { req.inputs.iter().rposition(|x| x.0.is_some())? } else { rng.range(1, n as u64 - 1) as usize };
                req.inputs[i].0 = match rng.below(3) {
                    0 => req.inputs[0].0,
                    1 => Some(raw(groth::fr(rng))),
                    _ => Some(raw(crate::poseidon::from_mont(&st.nulls.get(rng.pick(&trees))?.root))),
                };
                if rng.pct(60) && !others.is_empty() {
                    trees[1] = *rng.pick(&others);
                } else if rng.pct(30) {
                    trees[1] = trees[0];
                }
                "another second root"
            }
        };
        let (kids0, kids1) = self.null_kids(&req, &trees);
        Some((Op::InitVerif { payer: *payer, idx: *idx, vkey: *vkey, trees, req, skip: *skip, kids0, kids1 }, what))
    }

    /// Instructions only an attacker or a confused client sends
    fn attack(&mut self, rng: &mut Rng) -> Option<(Vec<Op>, Pubkey)> {
        let a = self.attacker;
        let st = &self.s.st;
        let op = match rng.below(20) {
            0 => Op::InitHash { can_fail: true, kids: vec![] },
            1 => Op::InitHash { can_fail: true, kids: self.meta_kids() },
            2 => Op::Setup { can_fail: true, kids: vec![] },
            3 => Op::FinalizeHash { kids: vec![] },
            4 => Op::FinalizeHash { kids: insertion_children(st.hash.ordering as usize, st.hash.rate as usize) },
            5 => Op::ComputeHash { payer: a, fee_version: 0, nonce: 9 },
            6 => Op::Reset { mt: st.trees, kids: vec![0] },
            7 => Op::OpenSingle { payer: a },
            8 => Op::InitFee { payer: a, version: rng.below(2) as u32, fee: Fee { per_tx: 1, ..FEE } },
            9 => Op::UpgradeGov { auth: a, fee_version: rng.below(2) as u32, rate: rng.below(4) as u32 },
            10 => Op::CloseAcc {
                signer: a,
                recipient: a,
                acc: *rng.pick(&[pool(), storage(), queue(), hashing(), nullifier(0)]),
            },
            11 => Op::AccountsV1 { payer: a },
            12 => Op::OpenNull { payer: a, mt: rng.below(4) as u32 },
            13 => {
                let k = key(0xA77, rng.below(4));
                if !self.s.l.exists(&k) {
                    let kind = rng.idx(3);
                    self.s.blank(k, kind);
                }
                let idx = *rng.pick(&[0u32, 1, 2, 15, 16, 24, 25]);
                match rng.below(3) {
                    0 => Op::EnableStorage { child: k, idx },
                    1 => Op::EnableNull { mt: rng.below(2) as u32, child: k, idx },
                    _ => Op::EnableMeta { child: k, idx },
                }
            }
            14 => Op::VkUpdate { signer: a, id: 0, old: key(0x5EED, 0) },
            15 => Op::VkNew { signer: a, id: 0, data: key(0x5EED, 7) },
            16 => match *rng.pick(self.cfg.tokens) {
                0 => Op::SysTransfer { from: a, to: pool(), amount: rng.range(1, 1_000_000) },
                t => Op::TokTransfer { from: ata(&a, t), to: ata(&pool(), t), owner: a, amount: rng.range(1, 1_000_000) },
            },
            _ => {
                // griefing: the address of an account to be made is given lamports
                let to = match rng.below(5) {
                    0 => nullifier(st.nulls.len() as u32),
                    1 => {
                        // the address of the account a recipient is to be given
                        let j = self.jobs.iter().filter_map(|j| match j {
                            Job::T(t) if t.is_ata => Some(ata(&t.wallet, t.token)),
                            _ => None,
                        });
                        let j: Vec<Pubkey> = j.filter(|k| !self.s.l.exists(k)).collect();
                        if j.is_empty() {
                            return None;
                        }
                        *rng.pick(&j)
                    }
                    _ if self.jobs.is_empty() => return None,
                    n => match &self.jobs[rng.idx(self.jobs.len())] {
                        Job::D(d) => d.acc(),
                        Job::T(t) if n < 3 => t.acc(),
                        Job::T(t) => dup(&t.variants.last()?.req.nullifiers()),
                    },
                };
                if self.s.l.exists(&to) {
                    return None;
                }
                Op::SysTransfer { from: a, to, amount: if rng.pct(25) { rng.range(20_000_000, 60_000_000) } else { rng.range(WALLET_RENT, 4 * WALLET_RENT) } }
            }
        };
        Some((vec![op], a))
    }

    /// A governance decision the program has no instruction for: the next version of the fees, set up by anybody
    fn new_fees(&mut self, rng: &mut Rng) {
        let fee = Fee {
            per_tx: 5000 + rng.below(4) * 1000,
            base_bp: rng.below(60),
            proof_bp: rng.below(60),
            base_sub: rng.below(20_000),
            proof_sub: rng.below(40_000),
            hash_reward: rng.below(2000),
            proof_reward: rng.below(200_000),
            proof_txs: 62,
        };
        if !fee.valid() {
            return;
        }
        let v = self.s.st.gov.as_ref().unwrap().fee_version + 1;
        self.s.rep.fault("new fee version");
        self.s.edit(governor(), |d| d[2..6].copy_from_slice(&v.to_le_bytes()));
        self.s.st.gov.as_mut().unwrap().fee_version = v;
        let who = *rng.pick(&self.relayers);
        self.exec(&[Op::InitFee { payer: who, version: v, fee }], who);
    }

    /// Dollars in units of 10^expo
    fn random_price(&self, t: u16, rng: &mut Rng) -> PriceAcc {
        if t < 3 {
            let p = rng.range(50, 200) as i64 * if t == 0 { 30_000_000 } else { 1_000_000 };
            return PriceAcc { price: p, conf: rng.below(p as u64 / 50), expo: -8, valid: true };
        }
        let expo = -(rng.range(5, 10) as i32);
        let p = rng.range(1, 9999) as i64 * 10i64.pow(rng.below(6) as u32);
        PriceAcc { price: p, conf: rng.below(p as u64 / 50 + 1), expo, valid: true }
    }

    /// A recipient opens its token account, closes it, or has one of another token in its place
    fn recipients_account(&mut self, rng: &mut Rng) {
        let all: Vec<(Pubkey, u16, bool)> = self
            .jobs
            .iter()
            .filter_map(|j| match j {
                Job::T(t) if t.token > 0 && !self.senders.contains(&t.wallet) => Some((t.wallet, t.token, t.is_ata)),
                _ => None,
            })
            .collect();
        if all.is_empty() {
            return;
        }
        let (w, t, is_ata) = *rng.pick(&all);
        let k = ata(&w, t);
        if !self.s.l.exists(&k) || crate::bank::parse_tok(&self.s.l.get(&k)).is_none() {
            self.s.rep.fault("token account of a recipient opened");
            self.s.fund_token(&w, t, 0);
        } else if rng.pct(60) || is_ata || all.iter().any(|x| x.0 == w && x.2) || (0..3).any(|i| key(0xDE57, i) == w) {
            self.s.rep.fault("token account of a recipient closed");
            self.s.l.accts.remove(&k);
        } else {
            self.s.rep.fault("token account of a recipient now of another token");
            self.s.set_token_account(k, &w, if t == 1 { 2 } else { 1 }, 0);
        }
    }

    fn environment(&mut self, rng: &mut Rng) {
        if self.cfg.fees > 1 && rng.pct(self.cfg.fees) {
            return self.new_fees(rng);
        }
        if self.cfg.fees > 0 && rng.pct(60) {
            let t = *rng.pick(self.cfg.tokens);
            let p = self.random_price(t, rng);
            self.s.rep.fault("oracle price moves");
            return self.s.set_price(price_key(t), p);
        }
        match rng.below(7) {
            5 | 6 => self.recipients_account(rng),
            0 => {
                let d = rng.range(1, 86_400 * 3) as i64;
                self.s.rep.fault("clock jump");
                let back = rng.pct(30);
                self.s.l.clock.unix_timestamp += if back { -d / 10 } else { d };
                self.s.l.clock.slot += d as u64 * 2;
                self.s.rep.sim_seconds += if back { 0 } else { d as u64 };
            }
            1 | 2 => {
                let t = *rng.pick(&[0u16, 1, 2]);
                let p = rng.range(50, 200) as i64 * if t == 0 { 30_000_000 } else { 1_000_000 };
                self.s.rep.fault("oracle price moves");
                self.s.set_price(price_key(t), PriceAcc { price: p, conf: rng.below(p as u64 / 50), expo: -8, valid: true });
            }
            3 => {
                let t = *rng.pick(&[0u16, 1, 2]);
                self.s.rep.fault("oracle stalls");
                let mut p = self.s.st.prices[&price_key(t)].clone();
                p.valid = !p.valid;
                self.s.set_price(price_key(t), p);
            }
            _ => {
                let t = *rng.pick(&[1u16, 2]);
                self.s.rep.fault("oracle misprices");
                let price = *rng.pick(&[0i64, -1, -100_000_000, i64::MIN, i64::MAX, 1]);
                self.s.set_price(price_key(t), PriceAcc { price, conf: 1, expo: -8, valid: true });
            }
        }
    }

    fn observe(&mut self) {
        let st = &self.s.st;
        let mut v = [0u64; 6];
        for x in st.verifs.values() {
            v[x.state as usize] += 1;
        }
        let ready = st.verifs.values().filter(|x| x.verified.is_some()).count() as u64;
        let parts = [
            st.queue.len() as u64,
            st.hash.active as u64 * 2 + st.hash.setup as u64,
            st.hash.instruction as u64,
            st.hash.fin as u64,
            st.trees as u64,
            st.bases.values().map(|b| 1 + b.instruction as u64).fold(0, |a, x| a * 4 + x) % 4096,
            v[1] * 1000 + v[2] * 100 + v[3] * 10 + v[4],
            v[0],
            ready,
            (st.ptr as u64).min(1 << 21),
            self.s.h.paid,
            self.s.h.rejected,
            st.vkeys.get(&0).map_or(0, |v| 1 + v.version as u64 * 8 + v.frozen as u64 * 4 + v.kids[1].is_some() as u64 * 2 + v.authority.is_some() as u64),
        ];
        self.s.rep.state(&parts);
    }
}

pub fn tokset(c: &Cfg) -> BTreeSet<u16> {
    c.tokens.iter().copied().collect()
}

impl World for Core {
    fn report(&mut self) -> &mut Report {
        &mut self.s.rep
    }

    fn step(&mut self, seed: u64) {
        if self.s.dead {
            return;
        }
        self.n += 1;
        self.cur = seed;
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        self.s.l.clock.unix_timestamp += 1;
        self.s.l.clock.slot += 2;
        self.s.rep.sim_seconds += 1;
        // late messages
        let mut due: Vec<Pending> = vec![];
        let n = self.n;
        let mut i = 0;
        while i < self.mempool.len() {
            if self.mempool[i].at <= n {
                due.push(self.mempool.remove(i));
            } else {
                i += 1;
            }
        }
        if due.len() > 1 {
            self.s.rep.fault("messages reordered");
            rng.shuffle(&mut due);
        }
        for p in due {
            self.exec(&p.ops, p.payer);
        }
        let c = self.cfg;
        let open = self.jobs.len() < c.max_jobs
            && self.setup.as_ref().map_or(true, |p| p.early || !self.s.st.fees.is_empty());
        let w = [
            if open { c.deposits } else { 0 },
            if open { c.transfers } else { 0 },
            c.advance,
            c.crank,
            c.attack,
            c.env,
            c.attack,
            c.rollback,
            c.reset,
            c.vk,
            c.setup,
        ];
        let act = rng.weighted(&w);
        match act {
            0 => self.new_deposit(rng),
            1 => {
                self.new_transfer(rng);
            }
            2 | 3 => {
                let got = if act == 3 { self.crank(rng) } else { self.ops_of(rng) };
                if let Some((mut ops, payer)) = got {
                    if rng.pct(c.bundle) {
                        if let Some((more, _)) = self.ops_of(rng) {
                            if ops.len() + more.len() < 12 {
                                if rng.pct(50) {
                                    ops.extend(more);
                                } else {
                                    let mut m = more;
                                    m.extend(ops);
                                    ops = m;
                                }
                                self.s.rep.probe("bundled");
                            }
                        }
                    }
                    if rng.pct(c.mutate) && !ops.is_empty() {
                        let i = rng.idx(ops.len());
                        let mut ctx = crate::mutate::Ctx { core: self };
                        if let Some(o) = ctx.mutate(&ops[i], rng) {
                            self.s.rep.fault("instruction tampered");
                            ops[i] = o;
                            let p = if rng.pct(50) { payer } else { self.attacker };
                            self.submit(ops, p, rng);
                            self.observe();
                            return;
                        }
                    }
                    if c.mutate > 0 && self.s.st.fees.len() > 1 && rng.pct(40) {
                        // the same with the fees of another schedule
                        let mut o = ops.clone();
                        let mut hit = false;
                        let all: Vec<u32> = self.s.st.fees.keys().copied().collect();
                        for x in o.iter_mut() {
                            if let Op::FinalizeBase { fee_version, .. } | Op::ComputeHash { fee_version, .. } = x {
                                let v = *rng.pick(&all);
                                hit |= v != *fee_version;
                                *fee_version = v;
                            }
                        }
                        if hit {
                            self.s.rep.fault("fees of another schedule");
                            if self.submit(o, payer, rng).ok() {
                                return self.observe();
                            }
                        }
                    }
                    if let (true, Some(k)) = (c.mutate > 0, ops.iter().position(|o| matches!(o, Op::InitVerif { .. }))) {
                        for _ in 0..rng.below(3) {
                            if let Some((x, what)) = self.tampered_inputs(&ops[k], rng) {
                                self.s.rep.fault(what);
                                let mut o = ops.clone();
                                o[k] = x;
                                if self.submit(o, payer, rng).ok() {
                                    self.s.rep.probe(format!("accepted: {what}"));
                                    return self.observe();
                                }
                            }
                        }
                    }
                    if c.env > 0 && rng.pct(8) && ops.iter().any(|o| matches!(o, Op::PayToken { .. })) {
                        self.recipients_account(rng);
                    }
                    if c.mutate > 0 && ops.iter().any(|o| matches!(o, Op::PayLamports { .. } | Op::PayToken { .. })) {
                        if rng.pct(20) {
                            if let Some(o) = self.payment_of_a_closed_one(&ops, payer, rng) {
                                self.s.rep.fault("payment of a rejected transfer in the end of another");
                                if self.submit(o, payer, rng).ok() {
                                    self.s.rep.probe("accepted: payment of a rejected transfer in the end of another");
                                    return self.observe();
                                }
                            }
                        }
                        for _ in 0..rng.below(4) {
                            if let Some((o, what)) = self.tampered_end(&ops, rng) {
                                self.s.rep.fault(what);
                                let who = if rng.pct(60) { payer } else { self.attacker };
                                let out = self.submit(o, who, rng);
                                if out.ok() {
                                    self.s.rep.probe(format!("accepted: {what}"));
                                    return self.observe();
                                }
                            }
                        }
                    }
                    // crashes between the steps of a role are the steps not taken; several may follow directly
                    let reps = if matches!(ops.first(), Some(Op::Budget { .. })) { rng.range(1, 12) } else { 1 };
                    for _ in 0..reps {
                        let o = self.submit(ops.clone(), payer, rng);
                        if !o.ok() {
                            break;
                        }
                    }
                }
            }
            4 => {
                if let Some((ops, payer)) = self.out_of_turn(rng) {
                    self.s.rep.fault("instruction out of turn");
                    self.submit(ops, payer, rng);
                }
            }
            5 => self.environment(rng),
            6 => {
                if let Some((ops, payer)) = self.attack(rng) {
                    self.s.rep.fault("hostile instruction");
                    self.submit(ops, payer, rng);
                }
            }
            9 => self.vk_step(rng),
            10 => self.setup_step(rng),
            8 => {
                let st = &self.s.st;
                // now and then the number of a tree that is closed or not yet open
                let ripe = st.ptr as usize + next_batch(&st.queue).map_or(0, |b| b.0) > crate::merkle::LEAVES && !st.hash.active;
                let mt = if rng.pct(if ripe { 50 } else { 10 }) { rng.below(st.trees as u64 + 2) as u32 } else { st.trees };
                let op = Op::Reset { mt, kids: if rng.pct(5) { vec![] } else { vec![0] } };
                let a = self.attacker;
                self.s.rep.probe(format!("reset attempt at {} active {} setup {}", if st.ptr as usize >= (1 << HEIGHT) { "full" } else { "not full" }, st.hash.active, st.hash.setup));
                self.submit(vec![op], a, rng);
            }
            _ => {
                if let (Some(s), true) = (self.snap.clone(), rng.pct(60)) {
                    self.s.rep.fault("rollback to an earlier slot");
                    self.s.restore(&s);
                    self.snap = None;
                } else {
                    self.snap = Some(self.s.snapshot());
                }
            }
        }
        if self.cfg.audit > 0 && self.n % self.cfg.audit == 0 {
            self.s.audit();
        }
        if self.jobs.len() >= c.max_jobs && rng.pct(20) {
            // forget what is over
            let h = &self.s.h;
            let st = &self.s.st;
            let mut gone = vec![];
            for (i, j) in self.jobs.iter().enumerate() {
                let over = match j {
                    Job::D(d) => {
                        d.notes.iter().any(|n| h.inserted.contains_key(&n.commitment)) && !st.bases.contains_key(&d.acc())
                    }
                    Job::T(t) => {
                        !st.verifs.contains_key(&t.acc())
                            && (t.variants.iter().any(|v| h.inserted.contains_key(&v.out.commitment))
                                || t.kind != ProofKind::Valid && !t.variants.is_empty()
                                || t.variants.len() > 3)
                    }
                };
                if over && self.snap.is_none() {
                    gone.push(i);
                }
            }
            self.collect_notes();
            for i in gone.into_iter().rev() {
                self.jobs.remove(i);
            }
        }
        self.observe();
    }

    fn finish(&mut self) {
        crate::finish::finish(self);
    }
}

/// How far a client's recent-commitment-index lies behind: mostly little, sometimes as far as is allowed.
fn some_lag(rng: &mut Rng) -> u32 {
    match rng.below(20) {
        0 => crate::proto::BUF_LEN as u32 - 1,
        1 => rng.below(crate::proto::BUF_LEN as u64) as u32,
        _ => rng.below(3) as u32,
    }
}
