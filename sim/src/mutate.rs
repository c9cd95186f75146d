//! Tampering with single instructions: the result is whatever the reference model says about it.

use crate::core::*;
use crate::groth;
use crate::poseidon::raw;
use crate::proto::*;
use ark_bn254::FrParameters;
use ark_ff::FpParameters;
use simkit::rng::Rng;
use solana_program::pubkey::Pubkey;

pub struct Ctx<'a> {
    pub core: &'a mut Core,
}

/// The same field element written differently
pub fn non_canonical(b: &B32) -> B32 {
    let m = FrParameters::MODULUS.0;
    let mut out = [0u8; 32];
    let mut carry = 0u128;
    for i in 0..4 {
        let x = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap()) as u128 + m[i] as u128 + carry;
        out[i * 8..i * 8 + 8].copy_from_slice(&(x as u64).to_le_bytes());
        carry = x >> 64;
    }
    out
}

impl<'a> Ctx<'a> {
    fn someone(&self, rng: &mut Rng) -> Pubkey {
        let c = &self.core;
        let mut v: Vec<Pubkey> = c.relayers.clone();
        v.extend(&c.senders);
        v.push(c.attacker);
        v.push(key(0x999, 1));
        *rng.pick(&v)
    }
    fn other_price(&self, rng: &mut Rng) -> Pubkey {
        let t = *rng.pick(self.core.cfg.tokens);
        *rng.pick(&[price_key(0), price_key(1), price_key(2), key(0x999, 2), price_key(t)])
    }
    /// Another schedule of fees, mostly one that exists
    fn other_version(&self, v: u32, rng: &mut Rng) -> u32 {
        let have: Vec<u32> = self.core.s.st.fees.keys().copied().filter(|x| *x != v).collect();
        if have.is_empty() || rng.pct(20) {
            return v + 1;
        }
        *rng.pick(&have)
    }
    fn fewer(&self, k: &[usize], rng: &mut Rng) -> Vec<usize> {
        let mut k = k.to_vec();
        if !k.is_empty() {
            let i = rng.idx(k.len());
            k.remove(i);
        }
        k
    }
    /// Up to three other child accounts in addition, maybe instead
    fn others(&self, k: &[usize], count: usize, rng: &mut Rng) -> Vec<usize> {
        let mut s: std::collections::BTreeSet<usize> = if rng.pct(70) { k.iter().copied().collect() } else { Default::default() };
        for _ in 0..rng.range(1, 3) {
            s.insert(rng.idx(count));
        }
        s.into_iter().collect()
    }
    /// Recent-commitment-indices around both ends of what is accepted.
    fn recent_near(&self, v: u32, rng: &mut Rng) -> u32 {
        let (ptr, len) = (self.core.s.st.ptr, crate::proto::BUF_LEN as u32);
        match rng.below(8) {
            0 => v.wrapping_add(1000),
            1 => v.wrapping_sub(1),
            2 => u32::MAX,
            3 => ptr + 1,
            4 => ptr.saturating_sub(len - 1),
            5 => ptr.saturating_sub(len + 1),
            _ => ptr.saturating_sub(len),
        }
    }

    fn near(&self, v: u64, rng: &mut Rng) -> u64 {
        match rng.below(8) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            2 => 0,
            3 => u64::MAX,
            4 => v.wrapping_mul(2),
            5 => v / 2,
            6 => 1u64.wrapping_neg().wrapping_sub(v).wrapping_add(1 + rng.below(1000)),
            _ => rng.below(2_000_000_000),
        }
    }

    pub fn mutate(&mut self, op: &Op, rng: &mut Rng) -> Option<Op> {
        let mut o = op.clone();
        match &mut o {
            Op::Store { sender_acc, payer, payer_acc, sol_price, token_price, idx, bump, req, metadata, .. } => {
                match rng.below(17) {
                    0 => *sender_acc = holder(&self.someone(rng), req.token),
                    1 => *payer_acc = holder(&self.someone(rng), req.token),
                    2 => *sol_price = self.other_price(rng),
                    3 => *token_price = self.other_price(rng),
                    4 => std::mem::swap(sol_price, token_price),
                    5 => *bump = bump.wrapping_sub(1),
                    6 => *idx = rng.below(4) as u32,
                    7 => req.amount = self.near(req.amount, rng),
                    8 => req.token = rng.below(4) as u16,
                    9 => req.commitment = raw(groth::fr(rng)),
                    10 => req.fee_version = self.other_version(req.fee_version, rng),
                    11 => req.min_batching = rng.below(5) as u32,
                    12 => req.recent = self.recent_near(req.recent, rng),
                    13 => {
                        let m = non_canonical(if rng.pct(50) { &req.base } else { &req.commitment });
                        if rng.pct(50) {
                            req.base = m
                        } else {
                            req.commitment = m
                        }
                    }
                    14 => *payer = self.core.attacker,
                    15 => {
                        // the base of the commitment of nothing
                        let z = raw(crate::poseidon::hash2(ark_bn254::Fr::from(0u64), ark_bn254::Fr::from(0u64)));
                        req.base = if rng.pct(80) { z } else { non_canonical(&z) };
                    }
                    _ => metadata[3] ^= 4,
                }
            }
            Op::ComputeBase { idx, .. } => *idx = rng.below(6) as u32,
            Op::FinalizeBase { payer, idx, fee_version, .. } => match rng.below(3) {
                0 => *payer = self.someone(rng),
                1 => *idx = rng.below(4) as u32,
                _ => *fee_version = self.other_version(*fee_version, rng),
            },
            Op::Setup { can_fail, kids } | Op::InitHash { can_fail, kids } => {
                let n = if matches!(op, Op::Setup { .. }) { STORAGE_CHILDREN } else { META_CHILDREN };
                if rng.pct(60) {
                    *can_fail = !*can_fail;
                }
                if rng.pct(60) {
                    *kids = if rng.pct(60) { self.fewer(kids, rng) } else { self.others(kids, n, rng) }
                }
            }
            Op::ComputeHash { payer, fee_version, .. } => {
                if rng.pct(50) {
                    *payer = self.someone(rng)
                } else {
                    *fee_version = self.other_version(*fee_version, rng)
                }
            }
            Op::FinalizeHash { kids } => *kids = if rng.pct(60) { self.fewer(kids, rng) } else { self.others(kids, STORAGE_CHILDREN, rng) },
            Op::InitVerif { payer, idx, vkey, trees, req, skip, kids0, .. } => match rng.below(24) {
                0 => *payer = self.someone(rng),
                1 => *idx = *rng.pick(&[127, 128, 129, 255]),
                2 => *vkey += 1,
                3 => trees[0] = rng.below(4) as u32,
                4 => trees[1] = rng.below(4) as u32,
                5 => {
                    let i = rng.idx(req.inputs.len());
                    req.inputs[i].0 = match rng.below(4) {
                        0 => None,
                        1 => Some([0; 32]),
                        2 => Some(raw(groth::fr(rng))),
                        _ => req.inputs[0].0.map(|r| non_canonical(&r)),
                    };
                }
                6 => {
                    let n = req.inputs[0];
                    if req.inputs.len() < 4 {
                        req.inputs.push((None, n.1))
                    } else {
                        req.inputs[3].1 = n.1
                    }
                }
                7 => {
                    let i = rng.idx(req.inputs.len());
                    req.inputs[i].1 = non_canonical(&req.inputs[i].1)
                }
                8 => {
                    if let Some(n) = self.core.s.h.spent.iter().next() {
                        let i = rng.idx(req.inputs.len());
                        req.inputs[i].1 = raw(crate::poseidon::from_mont(n))
                    }
                }
                9 => {
                    req.inputs.pop();
                }
                10 => req.out = raw(groth::fr(rng)),
                11 => req.out = non_canonical(&req.out),
                12 => req.recent = self.recent_near(req.recent, rng),
                13 => req.fee_version = self.other_version(req.fee_version, rng),
                14 => req.amount = self.near(req.amount, rng),
                15 => req.fee = self.near(req.fee, rng),
                16 => req.opt_fee = self.near(req.opt_fee, rng),
                17 => req.token = rng.below(4) as u16,
                18 => req.is_ata = !req.is_ata,
                19 => req.solana_pay = !req.solana_pay,
                20 => *skip = !*skip,
                21 => *kids0 = if rng.pct(50) { vec![] } else { self.others(kids0, NULL_CHILDREN, rng) },
                22 => req.out = raw(crate::merkle::zero_commitment()),
                _ => req.hashed[5] ^= 1,
            },
            Op::Fee { payer, payer_acc, sol_price, token_price, idx, token } => match rng.below(7) {
                0 => *payer = self.someone(rng),
                1 => *payer_acc = holder(&self.someone(rng), *token),
                2 => *sol_price = self.other_price(rng),
                3 => *token_price = self.other_price(rng),
                4 => std::mem::swap(sol_price, token_price),
                5 => *idx = rng.below(128) as u8,
                _ => *token = rng.below(3) as u16,
            },
            Op::Proof { payer, proof, .. } => match rng.below(3) {
                0 => *payer = self.someone(rng),
                _ => {
                    let i = rng.idx(proof.len());
                    if [64, 193, 258].contains(&i) {
                        proof[i] ^= 1
                    } else if i % 32 != 31 {
                        proof[i] ^= 1
                    }
                }
            },
            Op::Compute { payer, idx, vkey, kids } => match rng.below(5) {
                0 => *payer = self.someone(rng),
                1 => *idx = rng.below(128) as u8,
                2 => *kids = self.others(&[], 2, rng),
                3 => *kids = vec![0, 1],
                _ => *vkey += 1,
            },
            Op::Send { payer, recipient, identifier, reference, data, memo, idx } => match rng.below(13) {
                0 => *payer = self.someone(rng),
                1 => *recipient = self.someone(rng),
                2 => *identifier = key(0x999, 3),
                3 => *reference = if reference.is_some() { None } else { Some(key(0x999, 4)) },
                4 => data.total = self.near(data.total, rng),
                5 => data.token ^= 1,
                6 => data.mt = data.mt.wrapping_add(*rng.pick(&[1, u32::MAX])),
                7 => data.index = data.index.wrapping_add(*rng.pick(&[1, 2, u32::MAX])),
                8 => data.iv[4] ^= 1,
                9 => data.owner[4] ^= 1,
                10 => *memo = !*memo,
                _ => *idx = rng.below(128) as u8,
            },
            Op::Insert { payer, idx, mt, kids } => match rng.below(4) {
                0 => *payer = self.someone(rng),
                1 => *idx = rng.below(128) as u8,
                2 => *mt = rng.below(3) as u32,
                _ => *kids = if rng.pct(50) { self.fewer(kids, rng) } else { self.others(kids, NULL_CHILDREN, rng) },
            },
            Op::PayLamports { payer, idx, recipient, opt, dup: d } => match rng.below(5) {
                0 => *payer = self.someone(rng),
                1 => *idx = rng.below(128) as u8,
                2 => *recipient = self.someone(rng),
                3 => *opt = self.someone(rng),
                _ => *d = *rng.pick(&[pool(), queue(), verif(payer, 3), dup(&[[7; 32]])]),
            },
            Op::PayToken { payer, payer_acc, idx, recipient, wallet, opt, dup: d, token, mint: m } => match rng.below(9) {
                0 => *payer = self.someone(rng),
                1 => *idx = rng.below(128) as u8,
                2 => *recipient = ata(&self.someone(rng), *token),
                3 => {
                    *wallet = self.someone(rng);
                    if rng.pct(50) {
                        *recipient = ata(wallet, *token);
                    }
                }
                4 => *opt = ata(&self.someone(rng), *token),
                5 => *payer_acc = ata(&self.someone(rng), *token),
                6 => *m = mint(1 + (*token % 2)),
                7 => *token = 1 + (*token % 2),
                _ => *d = *rng.pick(&[pool(), queue(), verif(payer, 3), dup(&[[7; 32]])]),
            },
            Op::SysTransfer { from, to, amount } => match rng.below(3) {
                0 => *from = self.someone(rng),
                1 => *to = self.someone(rng),
                _ => *amount = self.near(*amount, rng) % 1_000_000_000,
            },
            Op::TokTransfer { from, to, amount, .. } => match rng.below(3) {
                0 => *from = ata(&self.someone(rng), 1 + rng.below(2) as u16),
                1 => *to = ata(&self.someone(rng), 1 + rng.below(2) as u16),
                _ => *amount = self.near(*amount, rng) % 1_000_000_000,
            },
            Op::Memo { text } => {
                if text.is_empty() {
                    text.push(1)
                } else {
                    text[0] ^= 1
                }
            }
            _ => return None,
        }
        Some(o)
    }
}
