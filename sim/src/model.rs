//! Executable reference model of the protocol: the state after a transaction, or why it has to be refused.

use crate::bank::{need, rej, Bank, Rej, R};
use crate::groth;
use crate::merkle::{empty, Tree, HEIGHT, LEAVES};
use crate::nullset::{Inserting, NullSet};
use crate::poseidon::{from_mont, from_raw, hash2, mont};
use crate::proto::*;
use ark_bn254::Fr;
use ark_ff::{BigInteger256, PrimeField, Zero};
use simkit::ledger::Account;
use solana_program::pubkey::Pubkey;
use solana_program::sysvar;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const PREP_BYTE_COST: u32 = 22;
pub const PREP_ADD_COST: u32 = 30;
pub const PREP_MAX: u32 = 1330;
pub const ATA_RENT: u64 = 2_039_280;
pub const WALLET_RENT: u64 = 890_880;

pub const S_NONE: u8 = 0;
pub const S_FEE: u8 = 1;
pub const S_PROOF: u8 = 2;
pub const S_INSERT: u8 = 3;
pub const S_FINAL: u8 = 4;
pub const S_CLOSED: u8 = 5;

#[derive(Clone, Debug, PartialEq)]
pub struct BaseH {
    pub active: bool,
    pub instruction: u32,
    pub payer: Pubkey,
    pub req: BaseReq,
    pub metadata: Meta,
    pub commitment: Fr,
}

#[derive(Clone, Default)]
pub struct HashSt {
    pub active: bool,
    pub setup: bool,
    pub instruction: u32,
    pub fin: u32,
    pub rate: u32,
    pub fee_version: u32,
    pub ordering: u32,
    pub siblings: Vec<Fr>,
    pub leaves: Vec<Fr>,
    pub result: Arc<Tree>,
}

#[derive(Clone)]
pub struct Verif {
    pub payer: Pubkey,
    pub payer_acc: Option<Pubkey>,
    pub state: u8,
    pub vkey: u32,
    pub req: SendReq,
    pub trees: [u32; 2],
    pub skip: bool,
    pub inputs: Vec<Fr>,
    pub prep: Vec<u16>,
    pub prep_done: u32,
    pub miller: u32,
    pub fin: u32,
    pub verified: Option<bool>,
    pub proof: Option<Vec<u8>>,
    /// Version and key the computation works with
    pub key: Option<(u32, Option<usize>)>,
    pub tainted: bool,
    pub expected: Option<bool>,
    pub recipient: Option<Pubkey>,
    pub rate: u32,
    pub subvention: u64,
    pub network: u64,
    pub com_fee: u64,
    pub com_tok: u64,
    pub proof_tok: u64,
    pub ata_tok: u64,
    pub inserted: usize,
    pub dup: Pubkey,
}

#[derive(Clone)]
pub struct Nulls {
    pub kids: Vec<Option<Pubkey>>,
    pub root: B32,
    pub set: NullSet,
}

#[derive(Clone)]
pub struct Vk {
    pub kids: Vec<Option<Pubkey>>,
    pub inputs: u32,
    pub authority: Option<Pubkey>,
    pub frozen: bool,
    pub version: u32,
    /// Known key among the simulator's keys the active bytes are equal to
    pub key: Option<usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct PriceAcc {
    pub price: i64,
    pub conf: u64,
    pub expo: i32,
    /// Well-formed and currently trading
    pub valid: bool,
}

#[derive(Clone)]
pub struct State {
    pub singles: bool,
    pub v1: bool,
    pub gov: Option<GovView>,
    pub fees: BTreeMap<u32, Fee>,
    pub queue: Vec<(B32, u32, u32)>,
    pub metaq: Vec<Meta>,
    pub basebuf: Vec<B32>,
    pub combuf: Vec<B32>,
    pub bases: BTreeMap<Pubkey, BaseH>,
    pub hash: HashSt,
    pub st_kids: Vec<Option<Pubkey>>,
    pub ptr: u32,
    pub trees: u32,
    pub tree: Arc<Tree>,
    pub roots: Vec<B32>,
    pub roots_count: u32,
    pub meta_kids: Vec<Option<Pubkey>>,
    pub meta_ptr: u32,
    pub nulls: BTreeMap<u32, Nulls>,
    pub verifs: BTreeMap<Pubkey, Verif>,
    pub dups: BTreeSet<Pubkey>,
    pub vkeys: BTreeMap<u32, Vk>,
    pub prices: BTreeMap<Pubkey, PriceAcc>,
    /// Data accounts that are (or were) attached to something
    pub in_use: BTreeSet<Pubkey>,
}

impl State {
    pub fn empty() -> Self {
        State {
            singles: false,
            v1: false,
            gov: None,
            fees: BTreeMap::new(),
            queue: vec![],
            metaq: vec![],
            basebuf: vec![],
            combuf: vec![],
            bases: BTreeMap::new(),
            hash: HashSt::default(),
            st_kids: vec![None; STORAGE_CHILDREN],
            ptr: 0,
            trees: 0,
            tree: Arc::new(Tree::default()),
            roots: vec![[0; 32]; HISTORY],
            roots_count: 0,
            meta_kids: vec![None; META_CHILDREN],
            meta_ptr: 0,
            nulls: BTreeMap::new(),
            verifs: BTreeMap::new(),
            dups: BTreeSet::new(),
            vkeys: BTreeMap::new(),
            prices: BTreeMap::new(),
            in_use: BTreeSet::new(),
        }
    }
    pub fn kids(&self) -> Kids {
        let f = |v: &Vec<Option<Pubkey>>| -> BTreeMap<usize, Pubkey> {
            v.iter().enumerate().filter_map(|(i, k)| k.map(|k| (i, k))).collect()
        };
        Kids {
            storage: f(&self.st_kids),
            metadata: f(&self.meta_kids),
            nullifier: self.nulls.iter().map(|(k, n)| (*k, f(&n.kids))).collect(),
            vkey: self.vkeys.iter().map(|(k, n)| (*k, f(&n.kids))).collect(),
        }
    }
    pub fn root_valid(&self, root: &B32) -> bool {
        if self.ptr == 0 {
            *root == mont(empty()[0])
        } else {
            self.roots[..(self.roots_count as usize).min(HISTORY)].contains(root)
        }
    }
    pub fn recent_ok(&self, recent: u32) -> bool {
        recent <= self.ptr && self.ptr - recent < BUF_LEN as u32
    }
}

/// Storage data account and position in it of a tree node
pub fn node_cell(level: usize, index: usize) -> (usize, usize) {
    let i = (1usize << level) - 1 + index;
    (i / STORAGE_CHILD_VALUES, 1 + 32 * (i % STORAGE_CHILD_VALUES))
}

/// Nodes written when leaf positions are set (children that have to be supplied)
pub fn insertion_children(ordering: usize, rate: usize) -> Vec<usize> {
    let mut v = BTreeSet::new();
    for l in 0..=HEIGHT {
        let n = if HEIGHT - l <= rate { 1 << (rate - (HEIGHT - l)) } else { 1 };
        for i in 0..n {
            let idx = (ordering >> (HEIGHT - l)) + i;
            if idx < 1 << l {
                v.insert(node_cell(l, idx).0);
            }
        }
    }
    v.into_iter().collect()
}
pub fn opening_children(ptr: usize) -> Vec<usize> {
    let mut v = BTreeSet::new();
    for inv in 0..HEIGHT {
        let s = (ptr >> inv) ^ 1;
        if ptr > 0 && s <= (ptr - 1) >> inv {
            v.insert(node_cell(HEIGHT - inv, s).0);
        }
    }
    v.into_iter().collect()
}

pub fn mod_pow2_r(b: &B32) -> bool {
    from_raw(b).is_some()
}

pub fn base_commitment(base: Fr, amount: u64, token: u16, recent: u32) -> Fr {
    let second = Fr::from_repr(BigInteger256([amount, token as u64 + ((recent as u64) << 16), 0, 0])).unwrap();
    hash2(base, second)
}

pub fn u64_raw(v: u64) -> B32 {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&v.to_le_bytes());
    b
}

/// The public inputs a transfer's proof is about
pub fn public_inputs(r: &SendReq) -> Vec<B32> {
    let mut v = vec![];
    for i in 0..4 {
        v.push(r.inputs.get(i).map(|x| x.1).unwrap_or([0; 32]));
    }
    for i in 0..4 {
        v.push(r.inputs.get(i).and_then(|x| x.0).unwrap_or([0; 32]));
    }
    v.push(u64_raw(r.amount.wrapping_add(r.fee)));
    v.push(r.out);
    v.push(u64_raw(r.recent as u64));
    v.push(u64_raw(r.fee_version as u64));
    v.push(u64_raw(r.token as u64));
    v.push(r.hashed);
    v
}

pub fn prep_plan(inputs: &[B32]) -> Vec<u16> {
    let mut out = vec![];
    let (mut rounds, mut cost) = (0u16, 0u32);
    for x in inputs {
        for b in 0..33 {
            let c = if b == 32 {
                if *x == [0; 32] {
                    0
                } else {
                    PREP_ADD_COST
                }
            } else if x[b] == 0 {
                0
            } else {
                PREP_BYTE_COST
            };
            if cost + c > PREP_MAX {
                out.push(rounds);
                rounds = 1;
                cost = c;
            } else {
                rounds += 1;
                cost += c;
            }
        }
    }
    if rounds > 0 {
        out.push(rounds);
    }
    out
}

pub fn push_buffer(v: &mut Vec<B32>, x: B32) -> bool {
    if v.contains(&x) {
        return false;
    }
    if v.len() == BUF_LEN {
        v.remove(0);
    }
    v.push(x);
    true
}

#[derive(Clone, Debug)]
pub enum Event {
    /// A deposit was paid for
    Deposit { commitment: B32, token: u16, amount: u64 },
    /// A transfer ended successfully
    Paid { verif: Pubkey, req: SendReq, trees: [u32; 2], extra: i128 },
    Rejected { verif: Pubkey, req: SendReq },
    Started { verif: Pubkey },
    /// `rounding`: what is left of the fees paid for the batch, because each commitment's share is rounded up
    Inserted { leaves: Vec<Fr>, tree: u32, at: u32, rounding: i128 },
    /// Commitments that had paid for smaller batches
    Surplus { amount: i128 },
    Switched { tree: u32 },
    /// Given to the pool for nothing
    Donated { token: u16, amount: u64 },
}

#[derive(Clone)]
pub struct Effects {
    /// Writes to big data accounts
    pub cells: Vec<(Pubkey, usize, Vec<u8>)>,
    /// Nullifier data accounts whose content is allowed to change
    pub null_kids: BTreeSet<(u32, usize)>,
    pub events: Vec<Event>,
    /// Instruction each property-relevant lamport move belongs to
    pub ops: Vec<&'static str>,
}

pub struct Txc<'a> {
    pub ops: &'a [Op],
    pub at: usize,
    pub bank: &'a mut Bank,
    pub pre: &'a BTreeMap<Pubkey, Account>,
    pub eff: Effects,
    pub inserting: BTreeMap<u32, Inserting>,
}

pub fn op_props(op: &Op) -> Vec<&'static str> {
    match op {
        Op::Store { .. } => vec!["C06", "C02", "C11"],
        Op::ComputeBase { .. } | Op::FinalizeBase { .. } => vec!["C06"],
        Op::Setup { .. } | Op::ComputeHash { .. } | Op::FinalizeHash { .. } => vec!["C04", "C07"],
        Op::InitHash { .. } => vec!["C07", "C04"],
        Op::InitVerif { .. } => vec!["C05", "C19"],
        Op::Fee { .. } => vec!["C11"],
        Op::Proof { .. } | Op::Compute { .. } => vec!["C03", "C19"],
        Op::Send { .. } => vec!["C09"],
        Op::Insert { .. } => vec!["C01", "C15"],
        Op::PayLamports { .. } | Op::PayToken { .. } => vec!["C09", "C02"],
        Op::VkCreate { .. }
        | Op::VkNew { .. }
        | Op::VkUpdate { .. }
        | Op::VkSet { .. }
        | Op::VkFreeze { .. }
        | Op::VkAuth { .. } => vec!["C12"],
        Op::Reset { .. } => vec!["C08"],
        Op::InitFee { .. } => vec!["C14", "C11"],
        _ => vec!["C14"],
    }
}

pub fn apply_tx(
    base: &State,
    ops: &[Op],
    bank: &mut Bank,
    pre: &BTreeMap<Pubkey, Account>,
) -> Result<(State, Effects), (usize, Rej)> {
    let mut st = base.clone();
    let mut c = Txc {
        ops,
        at: 0,
        bank,
        pre,
        eff: Effects { cells: vec![], null_kids: BTreeSet::new(), events: vec![], ops: vec![] },
        inserting: BTreeMap::new(),
    };
    for (i, op) in ops.iter().enumerate() {
        c.at = i;
        apply(&mut st, &mut c, op).map_err(|mut e| {
            for p in op_props(op) {
                if !e.props.contains(&p) {
                    e.props.push(p);
                }
            }
            (i, e)
        })?;
    }
    // insertions spread over the transaction are complete
    for (mt, ins) in std::mem::take(&mut c.inserting) {
        if !ins.moved.is_empty() {
            return Err((ops.len(), Rej { why: "insertion-incomplete".into(), props: vec!["C15"] }));
        }
        for k in &ins.touched {
            c.eff.null_kids.insert((mt, *k));
        }
        let n = st.nulls.get_mut(&mt).unwrap();
        for v in &ins.inserted {
            n.set.added.insert(crate::nullset::Le(*v));
        }
    }
    // accounts that were emptied are gone
    let gone = |b: &Bank, k: &Pubkey| b.lamports(k) == 0;
    let b = &*c.bank;
    st.bases.retain(|k, _| !pre.contains_key(k) || !gone(b, k));
    st.verifs.retain(|k, _| !pre.contains_key(k) || !gone(b, k));
    st.dups.retain(|k| !pre.contains_key(k) || !gone(b, k));
    b.end(pre).map_err(|e| (ops.len(), e))?;
    Ok((st, c.eff))
}

pub fn into_token(st: &State, token: u16, sol: &Pubkey, tok: &Pubkey) -> R<Box<dyn Fn(u64) -> R<u64>>> {
    use elusiv::token::Price;
    if token == 0 {
        return Ok(Box::new(Ok));
    }
    need!((token as usize) < tokens().len(), "token-id", ["C11"]);
    let t = &tokens()[token as usize];
    need!(*sol == tokens()[0].price_key, "sol-price-account", ["C11", "C13"]);
    need!(*tok == t.price_key, "token-price-account", ["C11", "C13"]);
    let load = |k: &Pubkey, token: u16| -> R<Price> {
        let Some(p) = st.prices.get(k) else { return rej("price-account", &["C11"]) };
        need!(p.valid, "price-not-trading", ["C11"]);
        need!(p.price > 0, "price-not-positive", ["C11"]);
        match (Price { price: p.price, conf: p.conf, expo: p.expo })
            .cmul(1, -(tokens()[token as usize].base_exp as i32))
        {
            Some(p) => Ok(p),
            None => rej("price-range", &["C11"]),
        }
    };
    let s = load(sol, 0)?;
    let q = load(tok, token)?;
    let d = t.decimals as i32;
    Ok(Box::new(move |lamports: u64| {
        let f = || -> Option<u64> {
            let l = i64::try_from(lamports).ok()?;
            let usd = s.mul(&Price { price: l, conf: 0, expo: 0 })?;
            let p = usd.get_price_in_quote(&q, -d)?.scale_to_exponent(-d)?;
            u64::try_from(p.price).ok()
        };
        match f() {
            Some(x) => Ok(x),
            None => rej("price-range", &["C11"]),
        }
    }))
}

fn bp(bp: u64, amount: u64) -> u64 {
    bp.wrapping_mul(amount) / 10_000
}

fn apply(st: &mut State, c: &mut Txc, op: &Op) -> R<()> {
    c.eff.ops.push(op.name());
    match op {
        Op::Nop | Op::Fake { .. } | Op::Memo { .. } | Op::Budget { .. } => Ok(()),
        Op::SysTransfer { from, to, amount } => {
            c.bank.sys_transfer(from, to, *amount)?;
            if *to == pool() && *from != *to && st.singles {
                c.eff.events.push(Event::Donated { token: 0, amount: *amount });
            }
            Ok(())
        }
        Op::TokTransfer { from, to, owner, amount } => {
            c.bank.tok_transfer(from, to, owner, false, *amount)?;
            if let Some(t) = (1..tokens().len() as u16).find(|t| ata(&pool(), *t) == *to) {
                if from != to {
                    c.eff.events.push(Event::Donated { token: t, amount: *amount });
                }
            }
            Ok(())
        }
        Op::Store { sender, sender_acc, payer, payer_acc, sol_price, token_price, idx, bump, req, metadata } => {
            need!(st.singles && st.gov.is_some(), "not-set-up", ["C13"]);
            let gov = st.gov.clone().unwrap();
            let t = req.token;
            need!((t as usize) < tokens().len(), "token-id", ["C11"]);
            let lim = &tokens()[t as usize];
            need!(req.amount >= lim.min && req.amount <= lim.max, "amount-limits", ["C11"]);
            let conv = into_token(st, t, sol_price, token_price)?;
            let Some(base) = from_raw(&req.base) else { return rej("non-canonical-base", &["C06"]) };
            need!(mod_pow2_r(&req.commitment), "non-canonical-commitment", ["C06"]);
            need!(st.recent_ok(req.recent), "recent-index", ["C06"]);
            need!(base != hash2(Fr::zero(), Fr::zero()), "zero-base", ["C06"]);
            need!(req.fee_version == gov.fee_version, "fee-version", ["C11"]);
            need!(req.min_batching == gov.rate, "batching-rate", ["C11"]);
            need!(st.fees.contains_key(&gov.fee_version), "no-fee-schedule", ["C02", "C11"]);
            let f = &gov.fee;
            let sub = conv(f.base_sub)?;
            let comp = f.base_hash_fee() + f.commitment_fee(gov.rate);
            let comp_tok = conv(comp)?;
            need!(comp_tok >= sub, "fee-underflow", ["C11"]);
            let net = bp(f.base_bp, req.amount);
            let (pacc, cacc) = (holder(&pool(), t), holder(&collector(), t));
            c.bank.transfer(t, sender, sender_acc, payer_acc, comp_tok - sub)?;
            c.bank.sys_transfer(payer, &pool(), comp)?;
            c.bank.transfer(t, sender, sender_acc, &cacc, net)?;
            c.bank.transfer(t, sender, sender_acc, &pacc, req.amount)?;
            let Some(acc) = base_hashing_at(*idx, *bump) else { return rej("bump", &["C13"]) };
            c.bank.create(payer, &acc, c_base_len())?;
            c.bank.from_pda(t, &collector(), &cacc, payer_acc, sub)?;
            need!(push_buffer(&mut st.basebuf, req.base), "duplicate-base", ["C06"]);
            let commitment = base_commitment(base, req.amount, t, req.recent);
            st.bases.insert(
                acc,
                BaseH { active: true, instruction: 0, payer: *payer, req: req.clone(), metadata: *metadata, commitment },
            );
            c.eff.events.push(Event::Deposit { commitment: mont(commitment), token: t, amount: req.amount });
            Ok(())
        }
        Op::ComputeBase { idx, bump } => {
            let acc = base_hashing_at(*idx, *bump).unwrap_or(base_hashing(*idx).0);
            let Some(b) = st.bases.get_mut(&acc) else { return rej("no-hashing", &["C13"]) };
            need!(b.active, "inactive", ["C06"]);
            need!(b.instruction < 2, "finished", ["C06"]);
            b.instruction += 1;
            Ok(())
        }
        Op::FinalizeBase { payer, idx, bump, fee_version } => {
            let acc = base_hashing_at(*idx, *bump).unwrap_or(base_hashing(*idx).0);
            need!(st.v1, "not-set-up", ["C13"]);
            let Some(b) = st.bases.get(&acc).cloned() else { return rej("no-hashing", &["C13"]) };
            let Some(fee) = st.fees.get(fee_version) else { return rej("fee-account", &["C13"]) };
            need!(b.req.fee_version == *fee_version, "fee-version", ["C11"]);
            need!(b.active, "inactive", ["C06"]);
            need!(b.payer == *payer, "payer", ["C06", "C02"]);
            need!(b.instruction == 2, "unfinished", ["C06"]);
            c.bank.pda_transfer(&pool(), payer, fee.base_hash_fee())?;
            need!(st.queue.len() < QUEUE_SLOTS - 1, "queue-full", ["C07"]);
            st.queue.push((mont(b.commitment), b.req.fee_version, b.req.min_batching));
            st.metaq.push(b.metadata);
            st.bases.get_mut(&acc).unwrap().active = false;
            c.bank.close(payer, &acc)
        }
        Op::Setup { can_fail, kids } => {
            need!(st.singles, "not-set-up", ["C13"]);
            let r = (|| -> R<()> {
                need!(!st.hash.active, "active", ["C07", "C04"]);
                let p = st.ptr as usize;
                for ch in opening_children(p) {
                    need!(kids.contains(&ch) && st.st_kids[ch].is_some(), "child-missing", ["C04"]);
                }
                let mut sib = vec![];
                for inv in 0..HEIGHT {
                    let s = (p >> inv) ^ 1;
                    let level = HEIGHT - inv;
                    sib.push(if p > 0 && s <= (p - 1) >> inv { st.tree.node(level, s) } else { empty()[level] });
                }
                let h = &mut st.hash;
                h.setup = true;
                h.instruction = 0;
                h.fin = 0;
                h.ordering = st.ptr;
                h.siblings = sib;
                Ok(())
            })();
            if *can_fail {
                Ok(())
            } else {
                r
            }
        }
        Op::InitHash { can_fail, kids } => {
            need!(st.singles && st.v1, "not-set-up", ["C13"]);
            let r = (|| -> R<()> {
                need!(!st.hash.active, "active", ["C07", "C04"]);
                need!(st.hash.setup, "no-setup", ["C07", "C04"]);
                let (n, rate) = next_batch(&st.queue)?;
                let mp = st.meta_ptr as usize;
                for i in 0..n {
                    let ch = ((mp + i) % LEAVES) / META_PER_CHILD;
                    need!(kids.contains(&ch) && st.meta_kids[ch].is_some(), "metadata-child", ["C04", "C07"]);
                }
                need!(st.hash.ordering as usize + n <= LEAVES, "tree-full", ["C07", "C08"]);
                let items: Vec<_> = st.queue.drain(..n).collect();
                for (i, m) in st.metaq.drain(..n).collect::<Vec<_>>().into_iter().enumerate() {
                    let p = (mp + i) % LEAVES;
                    c.eff.cells.push((
                        st.meta_kids[p / META_PER_CHILD].unwrap(),
                        1 + 17 * (p % META_PER_CHILD),
                        m.to_vec(),
                    ));
                }
                st.meta_ptr += n as u32;
                let f = st.fees.get(&items[0].1).copied().unwrap_or_default();
                let amount = items.iter().map(|x| f.commitment_fee(x.2) as i128 - f.commitment_fee(rate) as i128).sum();
                if amount > 0 {
                    c.eff.events.push(Event::Surplus { amount });
                }
                let h = &mut st.hash;
                h.active = true;
                h.rate = rate;
                h.fee_version = items[0].1;
                h.leaves = items.iter().map(|x| from_mont(&x.0)).collect();
                let mut t = (*st.tree).clone();
                for (i, l) in h.leaves.iter().enumerate() {
                    t.set_leaf(h.ordering as usize + i, *l);
                }
                t.next = h.ordering as usize + n;
                h.result = Arc::new(t);
                Ok(())
            })();
            if *can_fail {
                Ok(())
            } else {
                r
            }
        }
        Op::ComputeHash { payer, fee_version, .. } => {
            need!(st.singles, "not-set-up", ["C13"]);
            let Some(fee) = st.fees.get(fee_version) else { return rej("fee-account", &["C13"]) };
            need!(st.hash.active, "inactive", ["C04"]);
            need!(st.hash.fee_version == *fee_version, "fee-version", ["C02", "C11"]);
            need!(st.hash.instruction < hash_ixs(st.hash.rate), "finished", ["C04", "C02"]);
            st.hash.instruction += 1;
            c.bank.pda_transfer(&pool(), payer, fee.hash_tx())
        }
        Op::FinalizeHash { kids } => {
            need!(st.singles, "not-set-up", ["C13"]);
            need!(st.hash.active, "inactive", ["C04"]);
            let h = st.hash.clone();
            need!(h.instruction >= hash_ixs(h.rate), "unfinished", ["C04"]);
            need!(st.ptr as usize + (1 << h.rate) <= LEAVES, "tree-full", ["C04", "C08"]);
            let f = h.fin as usize;
            let rate = h.rate as usize;
            let mut nodes = vec![];
            let lvl = HEIGHT - f;
            for i in 0..1usize << (rate - f) {
                nodes.push((lvl, (h.ordering as usize >> f) + i));
            }
            if f == rate {
                for l in (0..HEIGHT - rate).rev() {
                    nodes.push((l, h.ordering as usize >> (HEIGHT - l)));
                }
            }
            for (l, i) in &nodes {
                let (ch, off) = node_cell(*l, *i);
                need!(kids.contains(&ch) && st.st_kids[ch].is_some(), "child-missing", ["C04"]);
                c.eff.cells.push((st.st_kids[ch].unwrap(), off, mont(h.result.node(*l, *i)).to_vec()));
            }
            st.hash.fin += 1;
            if f == rate {
                st.hash.active = false;
                st.hash.setup = false;
                st.ptr = h.ordering + (1 << rate);
                let slot = root_slot(st);
                st.roots[slot] = mont(h.result.root());
                st.roots_count += 1;
                let f = st.fees.get(&h.fee_version).copied().unwrap_or_default();
                let rounding = f.commitment_fee(h.rate) as i128 * h.leaves.len() as i128 - f.hash_tx() as i128 * h.instruction as i128;
                c.eff.events.push(Event::Inserted { leaves: h.leaves.clone(), tree: st.trees, at: h.ordering, rounding });
                st.tree = h.result;
            }
            Ok(())
        }
        Op::InitVerif { payer, idx, vkey: vk, trees, req, skip, kids0, kids1 } => {
            need!(st.singles && st.v1, "not-set-up", ["C13"]);
            let Some(v) = st.vkeys.get(vk) else { return rej("no-vkey", &["C12", "C13"]) };
            need!(v.version > 0, "vkey-inactive", ["C12", "C03"]);
            need!(*vk == 0, "vkey-id", ["C03"]);
            need!(*idx <= 128, "index", ["C19"]);
            let n = req.inputs.len();
            need!((1..=4).contains(&n), "input-count", ["C01", "C03"]);
            let pi = public_inputs(req);
            need!(pi.len() == v.inputs as usize, "vkey-inputs", ["C03", "C12"]);
            need!(req.inputs[0].0.is_some(), "first-root", ["C05"]);
            let fpi: Vec<Fr> = match pi.iter().map(from_raw32).collect::<Option<Vec<_>>>() {
                Some(x) => x,
                None => return rej("non-canonical", &["C01", "C03"]),
            };
            need!(fpi[9] != crate::merkle::zero_commitment(), "zero-output", ["C04"]);
            need!(st.recent_ok(req.recent), "recent-index", ["C06", "C05"]);
            need!(req.amount >= req.opt_fee, "optional-fee", ["C09", "C02"]);
            need!(req.amount.checked_add(req.fee).is_some(), "amount-overflow", ["C02", "C03"]);
            let mut slot = 0usize;
            let mut tree_of = vec![];
            let (n0, n1) = (st.nulls.get(&trees[0]), st.nulls.get(&trees[1]));
            need!(n0.is_some() && n1.is_some(), "nullifier-account", ["C13", "C05"]);
            let na = [n0.unwrap(), n1.unwrap()];
            for (root, _) in &req.inputs {
                match root {
                    Some(r) => {
                        need!(slot < 2, "too-many-roots", ["C05"]);
                        let r = mont(from_raw(r).unwrap());
                        let mt = trees[slot];
                        if mt == st.trees {
                            need!(st.root_valid(&r), "root", ["C05"]);
                        } else {
                            need!(mt < st.trees, "root-of-future-tree", ["C05"]);
                            need!(na[slot].root == r, "root", ["C05", "C08"]);
                        }
                        tree_of.push(slot);
                        slot += 1;
                    }
                    None => tree_of.push(0),
                }
            }
            need!(slot < 2 || trees[0] != trees[1], "same-tree-twice", ["C01", "C05"]);
            for i in 0..n {
                for j in 0..i {
                    need!(
                        req.inputs[i].1 != req.inputs[j].1 || tree_of[i] != tree_of[j],
                        "duplicate-nullifier",
                        ["C01"]
                    );
                }
                let a = na[tree_of[i]];
                let nf = mont(fpi[i]);
                // what the same transaction inserted before is recorded already
                let mut ins = c.inserting.get(&trees[tree_of[i]]).cloned().unwrap_or_else(|| Inserting::new(&a.set));
                let ch = ins.target(&a.set, &nf);
                // when both trees are the same account the first slots are consumed first
                let given = if tree_of[i] == 0 { kids0 } else { kids1 };
                need!(ins.count < NULL_CHILDREN * NULL_PER_CHILD, "nullifiers-full", ["C15"]);
                need!(given.contains(&ch) && a.kids[ch].is_some(), "child-missing", ["C15"]);
                need!(!a.set.contains(&nf) && !ins.inserted.contains(&nf), "already-spent", ["C01", "C15"]);
            }
            let d = dup(&req.nullifiers());
            if *skip {
                need!(st.dups.contains(&d) && c.bank.lamports(&d) > 0, "no-duplicate-account", ["C01", "C19"]);
            } else {
                c.bank.create(payer, &d, c_dup_len())?;
                st.dups.insert(d);
            }
            let acc = verif(payer, *idx as u32);
            c.bank.create(payer, &acc, c_verif_len())?;
            need!(push_buffer(&mut st.combuf, mont(fpi[9])), "duplicate-output", ["C06", "C19"]);
            st.verifs.insert(
                acc,
                Verif {
                    payer: *payer,
                    payer_acc: None,
                    state: S_NONE,
                    vkey: *vk,
                    req: req.clone(),
                    trees: *trees,
                    skip: *skip,
                    inputs: fpi,
                    prep: prep_plan(&pi),
                    prep_done: 0,
                    miller: 0,
                    fin: 0,
                    verified: None,
                    proof: None,
                    key: None,
                    tainted: false,
                    expected: None,
                    recipient: None,
                    rate: 0,
                    subvention: 0,
                    network: 0,
                    com_fee: 0,
                    com_tok: 0,
                    proof_tok: 0,
                    ata_tok: 0,
                    inserted: 0,
                    dup: d,
                },
            );
            c.eff.events.push(Event::Started { verif: acc });
            Ok(())
        }
        Op::Fee { payer, payer_acc, sol_price, token_price, idx, token } => {
            let acc = verif(payer, *idx as u32);
            need!(st.singles && st.gov.is_some(), "not-set-up", ["C13"]);
            let gov = st.gov.clone().unwrap();
            let Some(v) = st.verifs.get(&acc).cloned() else { return rej("no-verification", &["C13"]) };
            need!(v.state == S_NONE, "state", ["C19", "C02"]);
            need!(v.payer == *payer, "payer", ["C19"]);
            need!(v.req.fee_version == gov.fee_version, "fee-version", ["C11"]);
            let t = v.req.token;
            let conv = into_token(st, t, sol_price, token_price)?;
            need!((t as usize) < tokens().len(), "token-id", ["C11"]);
            need!(*token == t || (*token == 0) == (t == 0) && *token == t, "program-token-account", ["C13", "C02"]);
            let f = &gov.fee;
            let sub = conv(f.proof_sub)?;
            let proof_tok = conv(f.proof_fee(v.prep.len() as u64))?;
            let com = f.commitment_fee(gov.rate);
            let com_tok = conv(com)?;
            let net = bp(f.proof_bp, v.req.amount);
            let total = com_tok
                .checked_add(proof_tok)
                .and_then(|x| x.checked_add(net))
                .and_then(|x| x.checked_sub(sub));
            need!(total.is_some(), "fee-overflow", ["C11"]);
            need!(v.req.fee >= total.unwrap(), "fee-too-low", ["C11", "C02"]);
            need!(!(v.req.is_ata && t == 0), "ata-for-lamports", ["C09"]);
            if t == 0 && v.req.amount != 0 {
                need!(v.req.amount >= WALLET_RENT, "amount-below-rent", ["C11"]);
            }
            let (mut ata, mut ata_tok) = (0, 0);
            if v.req.is_ata {
                ata = ATA_RENT;
                ata_tok = conv(ATA_RENT)?;
                need!(v.req.amount >= ata_tok.wrapping_add(v.req.opt_fee), "amount-below-ata-rent", ["C11", "C02"]);
            }
            c.bank.sys_transfer(payer, &pool(), com + ata)?;
            c.bank.from_pda(t, &collector(), &holder(&collector(), t), &holder(&pool(), t), sub)?;
            need!(c.bank.is_token_account(payer_acc, t), "fee-payer-account", ["C11", "C13"]);
            let m = st.verifs.get_mut(&acc).unwrap();
            m.payer_acc = Some(*payer_acc);
            m.recipient = None;
            m.rate = gov.rate;
            m.subvention = sub;
            m.network = net;
            m.com_fee = com;
            m.com_tok = com_tok;
            m.proof_tok = proof_tok;
            m.ata_tok = ata_tok;
            m.state = S_FEE;
            Ok(())
        }
        Op::Proof { payer, idx, proof } => {
            let acc = verif(payer, *idx as u32);
            let Some(v) = st.verifs.get_mut(&acc) else { return rej("no-verification", &["C13"]) };
            need!(v.state == S_FEE, "state", ["C19", "C03", "C11"]);
            need!(v.verified.is_none(), "verified", ["C03"]);
            need!(v.payer == *payer, "payer", ["C19"]);
            v.proof = Some(proof.clone());
            v.state = S_PROOF;
            Ok(())
        }
        Op::Compute { payer, idx, vkey: vk, kids } => {
            let acc = verif(payer, *idx as u32);
            let Some(v) = st.verifs.get_mut(&acc) else { return rej("no-verification", &["C13"]) };
            let Some(k) = st.vkeys.get(vk) else { return rej("no-vkey", &["C12", "C13"]) };
            need!(k.version > 0, "vkey-inactive", ["C12", "C03"]);
            need!(v.vkey == *vk, "vkey-id", ["C03"]);
            need!(v.verified.is_none(), "verified", ["C03"]);
            need!(v.state == S_NONE || v.state == S_PROOF, "state", ["C03", "C19"]);
            need!(kids.contains(&0) && k.kids[0].is_some(), "vkey-child", ["C12", "C03"]);
            let last = c.at == PREP_IX_INDEX as usize;
            let id = (k.version, k.key);
            let n = v.prep.len() as u32;
            if v.prep_done < n {
                if last {
                    v.prep_done += 1;
                } else {
                    return Ok(());
                }
            } else if v.state != S_PROOF {
                return rej("proof-missing", &["C03"]);
            } else if v.miller < MILLER_IXS {
                v.miller += 1;
            } else if last {
                v.fin += 1;
            } else {
                return Ok(());
            }
            match &v.key {
                None => v.key = Some(id),
                Some(x) if *x != id => v.tainted = true,
                _ => {}
            }
            if v.miller == 1 && v.fin == 0 && v.expected.is_none() && !v.tainted {
                if let Some((_, Some(key))) = v.key {
                    v.expected = Some(verify_cached(key, &v.inputs, v.proof.as_ref().unwrap()));
                }
            }
            if v.fin == FLAW_IXS && v.expected == Some(false) && !v.tainted && v.verified.is_none() {
                if let Some((_, Some(key))) = v.key {
                    if groth::key(key).breaks(&v.inputs, v.proof.as_ref().unwrap()) {
                        v.verified = Some(false);
                    }
                }
            }
            if v.fin == FINAL_IXS {
                v.verified = if v.tainted { None } else { v.expected };
            }
            Ok(())
        }
        Op::Send { payer, idx, recipient, identifier, reference, data, memo } => {
            need!(st.singles && st.v1, "not-set-up", ["C13"]);
            let acc = verif(payer, *idx as u32);
            let Some(v) = st.verifs.get(&acc).cloned() else { return rej("no-verification", &["C13"]) };
            need!(v.state == S_PROOF, "state", ["C01", "C09", "C03"]);
            let m = if *memo {
                let n = c.ops.len();
                let at = if v.req.solana_pay { n.checked_sub(2) } else { n.checked_sub(1) };
                match at.and_then(|i| c.ops.get(i)) {
                    Some(Op::Memo { text }) => Some(text.clone()),
                    _ => return rej("memo-missing", &["C09"]),
                }
            } else {
                None
            };
            let reference = reference.filter(|r| *r != sysvar::instructions::ID);
            let h = hashed_inputs(
                recipient,
                identifier,
                &data.iv,
                &data.owner,
                &reference,
                v.req.is_ata,
                &v.req.metadata,
                &v.req.collector,
                v.req.opt_fee,
                &m,
            );
            need!(h == v.req.hashed, "hashed-inputs", ["C09"]);
            let x = st.verifs.get_mut(&acc).unwrap();
            x.recipient = Some(*recipient);
            match v.verified {
                None => return rej("unverified", &["C03"]),
                Some(false) => {
                    x.state = S_FINAL;
                    let out = mont(v.inputs[9]);
                    if let Some(p) = st.combuf.iter().position(|b| *b == out) {
                        st.combuf[p] = [0; 32];
                    }
                    return Ok(());
                }
                Some(true) => {}
            }
            // the whole finalization is one transaction, about this verification only
            let mut i = c.at + 1;
            while matches!(c.ops.get(i), Some(Op::Insert { idx: x, .. }) if x == idx) {
                need!(matches!(c.ops.get(i), Some(Op::Insert { payer: p, .. }) if p == payer), "foreign-insert", ["C01", "C09"]);
                i += 1;
            }
            let ok = match c.ops.get(i) {
                Some(Op::PayLamports { payer: p, idx: x, .. }) => v.req.token == 0 && x == idx && p == payer,
                Some(Op::PayToken { payer: p, idx: x, .. }) => v.req.token != 0 && x == idx && p == payer,
                _ => false,
            };
            need!(ok, "finalization-split", ["C09", "C01"]);
            let pos = st.ptr as usize + st.queue.len();
            need!(data.total == v.req.amount.wrapping_add(v.req.fee), "total", ["C09"]);
            need!(data.token == v.req.token, "token", ["C09"]);
            need!(data.index as usize <= pos % LEAVES, "commitment-index", ["C09"]);
            need!(data.mt as usize == st.trees as usize + pos / LEAVES, "tree-index", ["C09"]);
            x.state = S_INSERT;
            Ok(())
        }
        Op::Insert { payer, idx, mt, kids } => {
            let acc = verif(payer, *idx as u32);
            let Some(v) = st.verifs.get_mut(&acc) else { return rej("no-verification", &["C13"]) };
            let Some(nl) = st.nulls.get(mt) else { return rej("nullifier-account", &["C13"]) };
            need!(*mt == v.trees[0], "tree", ["C13", "C01"]);
            need!(v.state == S_INSERT, "state", ["C01", "C03"]);
            let n = v.req.inputs.len();
            let ins = c.inserting.entry(*mt).or_insert_with(|| Inserting::new(&nl.set));
            let supplied = |i: usize| i < nl.kids.len() && kids.contains(&i) && nl.kids[i].is_some();
            let k = v.inserted;
            if k < n {
                let slots = v.req.inputs[..=k].iter().filter(|x| x.0.is_some()).count();
                need!(slots < 2, "second-tree-input", ["C10"]);
                let nf = mont(v.inputs[k]);
                if let Err(e) = ins.insert(&nl.set, nf, &supplied) {
                    return rej(e, &["C01", "C15", "C20"]);
                }
                v.inserted += 1;
            } else if !ins.moved.is_empty() {
                if let Err(e) = ins.shift(&nl.set, &supplied) {
                    return rej(e, &["C15"]);
                }
            }
            if k + 1 >= n && ins.moved.is_empty() {
                v.state = S_FINAL;
            }
            Ok(())
        }
        Op::PayLamports { payer, idx, recipient, opt, dup: d } => {
            need!(st.singles && st.v1, "not-set-up", ["C13"]);
            let acc = verif(payer, *idx as u32);
            let Some(v) = st.verifs.get(&acc).cloned() else { return rej("no-verification", &["C13"]) };
            let (pl, co) = (pool(), collector());
            need!(v.req.token == 0, "token", ["C09", "C02"]);
            need!(v.state == S_FINAL, "state", ["C02", "C01", "C03"]);
            need!(v.payer == *payer, "payer", ["C02", "C19"]);
            if !v.skip {
                need!(*d == v.dup, "duplicate-account", ["C13"]);
                need!(st.dups.contains(d) && c.bank.lamports(d) > 0, "duplicate-account-gone", ["C13"]);
            }
            if v.verified == Some(false) {
                return close_rejected(st, c, &acc, &v, d, 0);
            }
            if v.req.amount > 0 {
                need!(v.recipient == Some(*recipient), "recipient", ["C09"]);
                let out = v.req.amount - v.req.opt_fee;
                if v.req.solana_pay {
                    c.bank.pda_transfer(&pl, payer, out)?;
                    need!(
                        matches!(c.ops.last(), Some(Op::SysTransfer { from, to, amount })
                            if from == payer && to == recipient && *amount == out),
                        "payment-missing",
                        ["C09"]
                    );
                    need!(single_payment(c.ops), "payment-shared", ["C09"]);
                } else {
                    c.bank.pda_transfer(&pl, recipient, out)?;
                }
                if v.req.opt_fee > 0 {
                    need!(*opt == v.req.collector, "optional-collector", ["C09"]);
                    c.bank.pda_transfer(&pl, opt, v.req.opt_fee)?;
                }
            }
            c.bank.pda_transfer(&pl, payer, v.com_tok + v.proof_tok)?;
            c.bank.pda_transfer(&pl, &co, v.network)?;
            paid(st, c, &acc, &v, d, payer)
        }
        Op::PayToken { payer, payer_acc, idx, recipient, wallet, opt, dup: d, token, mint: mk } => {
            need!(st.singles && st.v1, "not-set-up", ["C13"]);
            let acc = verif(payer, *idx as u32);
            let Some(v) = st.verifs.get(&acc).cloned() else { return rej("no-verification", &["C13"]) };
            let t = v.req.token;
            let (pl, co) = (pool(), collector());
            need!(v.recipient.is_some(), "recipient-unset", ["C09"]);
            need!(t > 0, "token", ["C09", "C02"]);
            need!(v.state == S_FINAL, "state", ["C02", "C01", "C03"]);
            need!(v.payer == *payer, "payer", ["C02", "C19"]);
            need!(v.payer_acc == Some(*payer_acc), "fee-payer-account", ["C02", "C19"]);
            if !v.skip {
                need!(*d == v.dup, "duplicate-account", ["C13"]);
                need!(st.dups.contains(d) && c.bank.lamports(d) > 0, "duplicate-account-gone", ["C13"]);
            }
            need!(*token == t, "program-token-account", ["C13", "C02"]);
            let (pacc, cacc) = (ata(&pl, t), ata(&co, t));
            if v.verified == Some(false) {
                return close_rejected(st, c, &acc, &v, d, t);
            }
            let mut ata_back = None;
            if v.req.amount > 0 {
                let mut to = *recipient;
                if !v.req.is_ata {
                    need!(v.recipient == Some(*recipient), "recipient", ["C09"]);
                    if !c.bank.is_token_account(recipient, t) {
                        to = cacc;
                    }
                } else {
                    need!(v.recipient == Some(*wallet), "recipient", ["C09"]);
                    need!(*recipient == ata(wallet, t), "recipient-ata", ["C09"]);
                    if c.bank.lamports(recipient) == 0 {
                        need!(*mk == mint(t), "mint", ["C13"]);
                        c.bank.create_ata(payer, wallet, recipient, t)?;
                        ata_back = Some(v.ata_tok);
                    } else {
                        ata_back = Some(0);
                    }
                }
                let out = v.req.amount.checked_sub(ata_back.unwrap_or(0)).and_then(|x| x.checked_sub(v.req.opt_fee));
                need!(out.is_some(), "amount", ["C02"]);
                let out = out.unwrap();
                if v.req.solana_pay {
                    c.bank.tok_transfer(&pacc, payer_acc, &pl, true, out)?;
                    need!(
                        matches!(c.ops.last(), Some(Op::TokTransfer { from, to: x, owner, amount })
                            if from == payer_acc && *x == to && owner == payer && *amount == out),
                        "payment-missing",
                        ["C09"]
                    );
                    need!(single_payment(c.ops), "payment-shared", ["C09"]);
                } else {
                    c.bank.tok_transfer(&pacc, &to, &pl, true, out)?;
                }
                if v.req.opt_fee > 0 {
                    need!(*opt == v.req.collector, "optional-collector", ["C09"]);
                    c.bank.tok_transfer(&pacc, opt, &pl, true, v.req.opt_fee)?;
                }
            }
            c.bank.tok_transfer(&pacc, payer_acc, &pl, true, v.com_tok + v.proof_tok + ata_back.unwrap_or(0))?;
            c.bank.tok_transfer(&pacc, &cacc, &pl, true, v.network)?;
            if ata_back.is_some() {
                // the deposit for the recipient's account goes back to whoever made it
                c.bank.pda_transfer(&pl, payer, ATA_RENT)?;
            }
            paid(st, c, &acc, &v, d, payer)
        }
        Op::VkCreate { signer, id, inputs, authority } => {
            need!(*id < 1, "vkey-id", ["C03", "C12", "C14"]);
            c.bank.create(signer, &vkey(*id), c_vkey_len())?;
            st.vkeys.insert(
                *id,
                Vk {
                    kids: vec![None, None],
                    inputs: *inputs,
                    authority: *authority,
                    frozen: false,
                    version: 0,
                    key: None,
                },
            );
            Ok(())
        }
        Op::VkNew { signer, id, data } => {
            let v = vk_authorised(st, signer, *id)?;
            need!(v.kids[1].is_none(), "slot-used", ["C12"]);
            let size = source_size(v.inputs as usize) + 1;
            attach(st, c, data, size)?;
            st.vkeys.get_mut(id).unwrap().kids[1] = Some(*data);
            Ok(())
        }
        Op::VkSet { signer, id, pos, packet, kids } => {
            let v = vk_authorised(st, signer, *id)?;
            let len = source_size(v.inputs as usize);
            let start = *pos as usize * PACKET;
            need!(start < len, "position", ["C12"]);
            let Some(k) = v.kids[1] else { return rej("no-data-account", &["C12"]) };
            need!(kids.contains(&1), "child-missing", ["C12"]);
            let end = (start + PACKET).min(len);
            need!(packet.len() >= end - start, "packet", ["C12"]);
            c.eff.cells.push((k, 1 + start, packet[..end - start].to_vec()));
            Ok(())
        }
        Op::VkUpdate { signer, id, old } => {
            let v = vk_authorised(st, signer, *id)?;
            let Some(k) = v.kids[1] else { return rej("no-data-account", &["C12"]) };
            if let Some(o) = v.kids[0] {
                need!(o == *old, "old-account", ["C12", "C13"]);
                c.bank.close(signer, &o)?;
            }
            let x = st.vkeys.get_mut(id).unwrap();
            x.kids = vec![Some(k), None];
            x.version += 1;
            x.key = None;
            Ok(())
        }
        Op::VkFreeze { signer, id } => {
            vk_authorised(st, signer, *id)?;
            st.vkeys.get_mut(id).unwrap().frozen = true;
            Ok(())
        }
        Op::VkAuth { signer, id, authority } => {
            vk_authorised(st, signer, *id)?;
            st.vkeys.get_mut(id).unwrap().authority = Some(*authority);
            Ok(())
        }
        Op::Reset { mt, kids } => {
            need!(st.singles, "not-set-up", ["C13"]);
            need!(st.nulls.contains_key(mt), "nullifier-account", ["C13"]);
            need!(st.trees == *mt, "tree", ["C08"]);
            // full: not even the next batch fits any more
            let batch = if st.ptr as usize >= LEAVES { 0 } else { next_batch(&st.queue)?.0 };
            need!(st.ptr as usize >= LEAVES || st.ptr as usize + batch > LEAVES, "not-full", ["C08"]);
            need!(!st.hash.active, "insertion-in-flight", ["C08"]);
            need!(kids.contains(&0) && st.st_kids[0].is_some(), "child-missing", ["C08"]);
            st.nulls.get_mut(mt).unwrap().root = mont(st.tree.root());
            st.trees += 1;
            st.ptr = 0;
            st.roots_count = 0;
            st.tree = Arc::new(Tree::default());
            c.eff.events.push(Event::Switched { tree: *mt });
            Ok(())
        }
        Op::Archive { .. } => rej("unimplemented", &["C14"]),
        Op::OpenSingle { payer } => {
            let gift = c.bank.lamports(&pool()).saturating_sub(rent(c_pda_len()));
            for (k, len) in [
                (pool(), c_pda_len()),
                (collector(), c_pda_len()),
                (hashing(), c_hashing_len()),
                (queue(), c_queue_len()),
                (storage(), c_storage_len()),
                (base_buffer(), c_buffer_len()),
            ] {
                c.bank.create(payer, &k, len)?;
            }
            st.singles = true;
            c.eff.events.push(Event::Donated { token: 0, amount: gift });
            Ok(())
        }
        Op::OpenNull { payer, mt } => {
            c.bank.create(payer, &nullifier(*mt), c_nullifier_len())?;
            st.nulls.insert(
                *mt,
                Nulls { kids: vec![None; NULL_CHILDREN], root: [0; 32], set: NullSet::default() },
            );
            Ok(())
        }
        Op::EnableStorage { child, idx } => {
            need!(st.singles, "not-set-up", ["C13"]);
            need!((*idx as usize) < STORAGE_CHILDREN, "slot", ["C14"]);
            need!(st.st_kids[*idx as usize].is_none(), "slot-used", ["C14"]);
            attach(st, c, child, STORAGE_CHILD_SIZE)?;
            st.st_kids[*idx as usize] = Some(*child);
            Ok(())
        }
        Op::EnableNull { mt, child, idx } => {
            let Some(n) = st.nulls.get(mt) else { return rej("nullifier-account", &["C13"]) };
            need!((*idx as usize) < NULL_CHILDREN, "slot", ["C14"]);
            need!(n.kids[*idx as usize].is_none(), "slot-used", ["C14", "C15"]);
            attach(st, c, child, NULL_CHILD_SIZE)?;
            st.nulls.get_mut(mt).unwrap().kids[*idx as usize] = Some(*child);
            c.eff.null_kids.insert((*mt, *idx as usize));
            Ok(())
        }
        Op::EnableMeta { child, idx } => {
            need!(st.v1, "not-set-up", ["C13"]);
            need!((*idx as usize) < META_CHILDREN, "slot", ["C14"]);
            need!(st.meta_kids[*idx as usize].is_none(), "slot-used", ["C14"]);
            attach(st, c, child, META_CHILD_SIZE)?;
            st.meta_kids[*idx as usize] = Some(*child);
            Ok(())
        }
        Op::SetupGov { payer } => {
            c.bank.create(payer, &governor(), c_gov_len())?;
            st.gov = Some(GovView { fee_version: 0, fee: Fee::default(), rate: 0, program_version: 0 });
            Ok(())
        }
        Op::UpgradeGov { .. } => rej("unimplemented", &["C14", "C11"]),
        Op::InitFee { payer, version, fee } => {
            let Some(g) = st.gov.clone() else { return rej("not-set-up", &["C13"]) };
            need!(*version == g.fee_version, "version", ["C14"]);
            need!(fee.valid(), "invalid-fee", ["C14", "C11"]);
            c.bank.create(payer, &fee_acc(*version), c_fee_len())?;
            st.fees.insert(*version, *fee);
            st.gov.as_mut().unwrap().fee = *fee;
            Ok(())
        }
        Op::CloseAcc { .. } => rej("not-the-program", &["C13", "C14", "C02"]),
        Op::AccountsV1 { payer } => {
            need!(st.singles, "not-set-up", ["C13"]);
            c.bank.create(payer, &com_buffer(), c_buffer_len())?;
            c.bank.create(payer, &meta_queue(), c_metaq_len())?;
            c.bank.create(payer, &metadata(), c_metadata_len())?;
            need!(!st.hash.active, "insertion-in-flight", ["C14", "C04"]);
            need!(st.queue.is_empty(), "queue-not-empty", ["C14", "C04"]);
            st.v1 = true;
            st.meta_ptr = st.ptr;
            Ok(())
        }
    }
}

fn from_raw32(b: &B32) -> Option<Fr> {
    from_raw(&b[..])
}

pub fn root_slot(st: &State) -> usize {
    st.roots_count as usize % HISTORY
}

/// A payment at the end of the transaction can only be for one transfer
fn single_payment(ops: &[Op]) -> bool {
    ops.iter().filter(|o| matches!(o, Op::PayLamports { .. } | Op::PayToken { .. })).count() == 1
}

pub fn next_batch(q: &[(B32, u32, u32)]) -> R<(usize, u32)> {
    need!(!q.is_empty(), "queue-empty", ["C07"]);
    let mut rate = 0;
    let mut n = 1;
    let fv = q[0].1;
    let mut i = 0;
    // the highest rate asked for by a member decides
    while i < n {
        need!(i < q.len(), "batch-incomplete", ["C07"]);
        need!(q[i].1 == fv, "fee-version-mix", ["C07", "C11"]);
        rate = rate.max(q[i].2);
        n = 1 << rate;
        i += 1;
    }
    Ok((n, rate))
}

fn vk_authorised(st: &State, signer: &Pubkey, id: u32) -> R<Vk> {
    let Some(v) = st.vkeys.get(&id).cloned() else { return rej("no-vkey", &["C13"]) };
    need!(!v.frozen, "frozen", ["C12"]);
    if let Some(a) = v.authority {
        need!(a == *signer, "authority", ["C12"]);
    }
    Ok(v)
}

fn attach(st: &mut State, c: &mut Txc, child: &Pubkey, size: usize) -> R<()> {
    let a = c.bank.get(child);
    need!(a.len == size, "child-size", ["C14", "C13"]);
    need!(a.lamports >= rent(size), "child-rent", ["C14"]);
    need!(a.owner == ID, "child-owner", ["C13", "C14"]);
    need!(!st.in_use.contains(child), "child-in-use", ["C14", "C12"]);
    need!(c.pre.get(child).map_or(false, |p| p.data[0] == 0), "child-in-use", ["C14", "C12"]);
    st.in_use.insert(*child);
    c.eff.cells.push((*child, 0, vec![1]));
    Ok(())
}

fn close_rejected(st: &mut State, c: &mut Txc, acc: &Pubkey, v: &Verif, d: &Pubkey, t: u16) -> R<()> {
    let (pl, co) = (pool(), collector());
    c.bank.close(&co, acc)?;
    if !v.skip {
        c.bank.close(&co, d)?;
    }
    c.bank.from_pda(t, &pl, &holder(&pl, t), &holder(&co, t), v.subvention)?;
    c.bank.pda_transfer(&pl, &co, v.com_fee + if v.req.is_ata { ATA_RENT } else { 0 })?;
    st.verifs.get_mut(acc).unwrap().state = S_CLOSED;
    c.eff.events.push(Event::Rejected { verif: *acc, req: v.req.clone() });
    Ok(())
}

fn paid(st: &mut State, c: &mut Txc, acc: &Pubkey, v: &Verif, d: &Pubkey, payer: &Pubkey) -> R<()> {
    c.bank.close(payer, acc)?;
    if !v.skip {
        c.bank.close(payer, d)?;
    }
    need!(st.queue.len() < QUEUE_SLOTS - 1, "queue-full", ["C07"]);
    st.queue.push((mont(v.inputs[9]), v.req.fee_version, v.rate));
    st.metaq.push(v.req.metadata);
    st.verifs.get_mut(acc).unwrap().state = S_CLOSED;
    let extra = v.req.fee as i128 + v.subvention as i128
        - v.com_tok as i128
        - v.proof_tok as i128
        - v.network as i128;
    c.eff.events.push(Event::Paid { verif: *acc, req: v.req.clone(), trees: v.trees, extra });
    Ok(())
}

pub fn verify_cached(key: usize, inputs: &[Fr], proof: &[u8]) -> bool {
    use std::cell::RefCell;
    thread_local! {
        static C: RefCell<BTreeMap<(usize, Vec<u8>), bool>> = RefCell::new(BTreeMap::new());
    }
    let mut k = vec![];
    for i in inputs {
        k.extend_from_slice(&mont(*i));
    }
    k.extend_from_slice(proof);
    if let Some(r) = C.with(|c| c.borrow().get(&(key, k.clone())).copied()) {
        return r;
    }
    let r = groth::key(key).verify(inputs, proof);
    C.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 2000 {
            c.clear();
        }
        c.insert((key, k), r);
    });
    r
}

// ---- Account sizes ----
macro_rules! sizes {
    ($($f:ident => $t:path;)*) => {
        $(pub fn $f() -> usize { <$t as elusiv_types::accounts::SizedAccount>::SIZE })*
    };
}
sizes! {
    c_pda_len => elusiv::state::governor::PoolAccount;
    c_base_len => elusiv::state::commitment::BaseCommitmentHashingAccount;
    c_dup_len => elusiv::state::proof::NullifierDuplicateAccount;
    c_verif_len => elusiv::state::proof::VerificationAccount;
    c_vkey_len => elusiv::state::vkey::VKeyAccount;
    c_hashing_len => elusiv::state::commitment::CommitmentHashingAccount;
    c_queue_len => elusiv::state::commitment::CommitmentQueueAccount;
    c_metaq_len => elusiv::state::metadata::MetadataQueueAccount;
    c_buffer_len => elusiv::state::commitment::BaseCommitmentBufferAccount;
    c_storage_len => elusiv::state::storage::StorageAccount;
    c_metadata_len => elusiv::state::metadata::MetadataAccount;
    c_nullifier_len => elusiv::state::nullifier::NullifierAccount;
    c_gov_len => elusiv::state::governor::GovernorAccount;
    c_fee_len => elusiv::state::fee::FeeAccount;
}

/// The layouts the decoders rely on
pub fn layout_test() {
    assert_eq!(c_base_len(), 2 + 4 + 4 + 4 + 32 + 1 + 2 + 96 + 4 + 17);
    assert_eq!(c_queue_len(), 2 + 8 + 40 * QUEUE_SLOTS);
    assert_eq!(c_metaq_len(), 2 + 8 + 17 * QUEUE_SLOTS);
    assert_eq!(c_buffer_len(), 2 + 32 * BUF_LEN + 8);
    assert_eq!(c_storage_len(), 2 + 33 * STORAGE_CHILDREN + 12 + 32 * HISTORY + 4);
    assert_eq!(c_metadata_len(), 2 + 33 * META_CHILDREN + 4);
    assert_eq!(c_nullifier_len(), 2 + 33 * NULL_CHILDREN + 32 + 4 + 33 * NULL_CHILDREN + 1 + 128 + 4);
    assert_eq!(c_gov_len(), 2 + 4 + 64 + 4 + 4);
    assert_eq!(c_vkey_len(), 2 + 33 * 2 + 4 + 33 + 1 + 4);
    assert_eq!(c_fee_len(), 2 + 64);
    assert_eq!(tokens().len(), elusiv::token::TOKENS.len());
    assert_eq!(STORAGE_CHILD_SIZE, <elusiv::state::storage::StorageChildAccount as elusiv_types::accounts::SizedAccount>::SIZE);
    assert_eq!(META_CHILD_SIZE, <elusiv::state::metadata::MetadataChildAccount as elusiv_types::accounts::SizedAccount>::SIZE);
    assert_eq!(NULL_CHILD_SIZE, <elusiv::state::nullifier::NullifierChildAccount as elusiv_types::accounts::SizedAccount>::SIZE);
}
