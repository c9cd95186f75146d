//! Account substitution: the same transaction with one account replaced has to be refused or to have the genuine effect.

use crate::core::*;
use crate::model::op_props;
use crate::proto::*;
use simkit::ledger::{Account, Fail, Tx};
use simkit::rng::Rng;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_program::{system_program, sysvar};
use std::collections::BTreeMap;
use std::sync::Arc;

/// Not owned by the program, not a known program
fn foreign() -> Pubkey {
    key(0xFA4E, 1)
}
pub fn fake_program() -> Pubkey {
    key(0xFA4E, 0)
}

/// Positions whose account is a parameter of the operation: other accounts have other, legitimate effects.
/// Of the named accounts only those the operation has to bind are left over.
fn fixed(op: &Op, ix: &Instruction, owned: bool) -> Vec<usize> {
    let named = format!("{op:?}");
    let bound: &[usize] = match op {
        Op::Store { .. } => &[8, 9],
        Op::FinalizeBase { .. } | Op::InitVerif { .. } | Op::Proof { .. } | Op::Compute { .. } | Op::Insert { .. } | Op::PayLamports { .. } | Op::PayToken { .. } => &[0],
        Op::Fee { .. } => &[0, 6, 7],
        Op::Send { .. } => &[3],
        // a key without authority is anybody's
        Op::VkNew { .. } | Op::VkUpdate { .. } | Op::VkSet { .. } | Op::VkFreeze { .. } | Op::VkAuth { .. } if owned => &[0],
        Op::UpgradeGov { .. } | Op::CloseAcc { .. } => &[0],
        _ => &[],
    };
    (0..ix.accounts.len()).filter(|i| bound.contains(i) || !named.contains(&ix.accounts[*i].pubkey.to_string())).collect()
}

struct Cand {
    ixs: Vec<Instruction>,
    /// Accounts the attacker made for this
    made: Vec<(Pubkey, Account)>,
    kind: &'static str,
    pos: usize,
    /// Everything in it belongs to the attacker: even where the genuine transaction fails it must not have an effect
    forged: bool,
}

fn forged_sysvar(ixs: &[Instruction], current: u16) -> Vec<u8> {
    use solana_program::sysvar::instructions::*;
    let b: Vec<_> = ixs
        .iter()
        .map(|ix| BorrowedInstruction {
            program_id: &ix.program_id,
            accounts: ix.accounts.iter().map(|m| BorrowedAccountMeta { pubkey: &m.pubkey, is_signer: m.is_signer, is_writable: m.is_writable }).collect(),
            data: &ix.data,
        })
        .collect();
    let mut d = construct_instructions_data(&b);
    let n = d.len();
    d[n - 2..].copy_from_slice(&current.to_le_bytes());
    d
}

impl Core {
    fn candidate(&self, full: &[Instruction], op: &Op, mut ixs: Vec<Instruction>, at: usize, rng: &mut Rng) -> Option<Cand> {
        let l = &self.s.l;
        let owned = match op {
            Op::VkNew { id, .. } | Op::VkUpdate { id, .. } | Op::VkSet { id, .. } | Op::VkFreeze { id, .. } | Op::VkAuth { id, .. } => {
                self.s.st.vkeys.get(id).map_or(false, |k| k.authority.is_some())
            }
            _ => false,
        };
        let fixed = fixed(op, &ixs[at], owned);
        if fixed.is_empty() {
            return None;
        }
        let pos = *rng.pick(&fixed);
        let old = ixs[at].accounts[pos].clone();
        let acc = l.get(&old.pubkey);
        let exists = l.exists(&old.pubkey);
        let fk = key(0xFA4E, 16 + rng.below(4));
        let rich = |data: Vec<u8>, owner: Pubkey| Account { lamports: acc.lamports.max(rent(data.len())), data: Arc::new(data), owner, executable: false };
        let mut made = vec![];
        let mut forged = true;
        let program = [system_program::ID, spl_token::ID, spl_associated_token_account::ID].contains(&old.pubkey);
        let kind = if old.pubkey == sysvar::instructions::ID && rng.pct(60) {
            // the transaction as it should be, told by the attacker
            let d = forged_sysvar(full, full.iter().position(|i| *i == ixs[at]).unwrap_or(0) as u16);
            made.push((fk, rich(d, *rng.pick(&[foreign(), system_program::ID, sysvar::ID, ID]))));
            ixs[at].accounts[pos].pubkey = fk;
            "forged-sysvar"
        } else if program && rng.pct(50) {
            ixs[at].accounts[pos].pubkey = fake_program();
            "fake-program"
        } else {
            match rng.below(14) {
                0 | 1 => {
                    made.push((fk, rich((*acc.data).clone(), foreign())));
                    ixs[at].accounts[pos].pubkey = fk;
                    "foreign-clone"
                }
                2 => {
                    // the same account at another address: what nobody can make, but a look-alike of what is checked
                    if !exists || acc.owner != ID {
                        return None;
                    }
                    made.push((fk, rich((*acc.data).clone(), ID)));
                    ixs[at].accounts[pos].pubkey = fk;
                    "clone"
                }
                3 => {
                    if acc.data.is_empty() {
                        return None;
                    }
                    made.push((fk, rich(vec![0; acc.data.len()], ID)));
                    ixs[at].accounts[pos].pubkey = fk;
                    "blank"
                }
                4 => {
                    if acc.owner != spl_token::ID || acc.data.len() != 165 {
                        return None;
                    }
                    let mut d = (*acc.data).clone();
                    match rng.below(3) {
                        0 => {}
                        1 => d[32..64].copy_from_slice(self.attacker.as_ref()),
                        _ => {
                            let m = mint(1 + rng.below(2) as u16);
                            d[..32].copy_from_slice(m.as_ref())
                        }
                    }
                    made.push((fk, rich(d, spl_token::ID)));
                    ixs[at].accounts[pos].pubkey = fk;
                    "other-token-account"
                }
                5 | 6 => {
                    forged = false;
                    // another account of the same size and owner
                    let v: Vec<Pubkey> =
                        l.accts.iter().filter(|(k, a)| **k != old.pubkey && a.owner == acc.owner && a.data.len() == acc.data.len()).map(|x| *x.0).collect();
                    if v.is_empty() {
                        return None;
                    }
                    ixs[at].accounts[pos].pubkey = *rng.pick(&v);
                    "sibling"
                }
                7 => {
                    forged = false;
                    let v: Vec<Pubkey> = l.accts.keys().filter(|k| **k != old.pubkey).copied().collect();
                    ixs[at].accounts[pos].pubkey = *rng.pick(&v);
                    "other"
                }
                8 => {
                    forged = false;
                    let k = rng.pick(&ixs[at].accounts).pubkey;
                    if k == old.pubkey {
                        return None;
                    }
                    ixs[at].accounts[pos].pubkey = k;
                    "alias"
                }
                9 => {
                    ixs[at].accounts[pos].pubkey = fk;
                    "fresh"
                }
                10 => {
                    if !old.is_writable || ixs[at].accounts.iter().filter(|m| m.pubkey == old.pubkey && m.is_writable).count() > 1 {
                        return None;
                    }
                    // privileges are per transaction
                    for ix in ixs.iter_mut() {
                        for m in ix.accounts.iter_mut().filter(|m| m.pubkey == old.pubkey) {
                            m.is_writable = false;
                        }
                    }
                    "read-only"
                }
                11 => {
                    forged = false;
                    let q = *rng.pick(&fixed);
                    if ixs[at].accounts[q].pubkey == old.pubkey {
                        return None;
                    }
                    let a = ixs[at].accounts[q].pubkey;
                    ixs[at].accounts[q].pubkey = old.pubkey;
                    ixs[at].accounts[pos].pubkey = a;
                    "swapped"
                }
                12 => {
                    forged = false;
                    ixs[at].accounts.remove(pos);
                    "omitted"
                }
                _ => {
                    let who = if rng.pct(50) { self.attacker } else { fk };
                    ixs[at].accounts.insert(pos, AccountMeta { pubkey: who, is_signer: false, is_writable: true });
                    forged = who == fk;
                    if forged {
                        made.push((fk, rich((*acc.data).clone(), foreign())));
                    }
                    "inserted"
                }
            }
        };
        Some(Cand { ixs, made, kind, pos, forged })
    }

    /// Executes variants of a transaction with another account somewhere, and the transaction itself, on copies of the state
    pub fn substitute(&mut self, ops: &[Op], payer: Pubkey, rng: &mut Rng) {
        let mut ops = ops.to_vec();
        if rng.pct(25) && ops.len() > 1 {
            // with something missing
            let i = rng.idx(ops.len());
            ops.remove(i);
        }
        let own: Vec<usize> =
            (0..ops.len()).filter(|i| !matches!(ops[*i], Op::Nop | Op::Fake { .. } | Op::Memo { .. } | Op::SysTransfer { .. } | Op::TokTransfer { .. } | Op::Budget { .. })).collect();
        if own.is_empty() {
            return;
        }
        let kids = self.s.st.kids();
        let ixs: Vec<Instruction> = ops.iter().map(|o| build(o, &kids)).collect();
        let pre = self.s.l.accts.clone();
        let burned = self.s.l.fees_burned;
        let r = self.s.l.execute(&Tx::full(ixs.clone(), payer));
        let ok = r.res.is_ok();
        let lost = matches!(r.res, Err(Fail::Precheck(_)));
        let fee = r.fee;
        self.s.l.done(r);
        let post = std::mem::replace(&mut self.s.l.accts, pre.clone());
        self.s.l.fees_burned = burned;
        if lost {
            return;
        }
        if rng.pct(35) {
            let at = *rng.pick(&own);
            if self.crossed(&ops, &ixs, at, payer, (ok, &post, fee), rng) {
                return;
            }
        }
        let paid = ops.iter().any(|o| matches!(o, Op::PayToken { .. } | Op::PayLamports { .. } | Op::Send { .. }));
        for _ in 0..if paid { 6 } else { 2 } {
            let at = *rng.pick(&own);
            let Some(c) = self.candidate(&ixs, &ops[at], ixs.clone(), at, rng) else { continue };
            if c.ixs == ixs || (!ok && !c.forged) {
                continue;
            }
            if let Op::ComputeBase { idx, .. } | Op::FinalizeBase { idx, .. } = &ops[at] {
                // several accounts with one index, told apart by nothing but their address
                let other: Vec<Pubkey> = (0..=255).filter_map(|b| base_hashing_at(*idx, b)).collect();
                let p = if matches!(ops[at], Op::ComputeBase { .. }) { 0 } else { 3 };
                if c.ixs[at].accounts.get(p).map_or(false, |m| m.pubkey != ixs[at].accounts[p].pubkey && other.contains(&m.pubkey)) {
                    continue;
                }
            }
            for (k, a) in &c.made {
                self.s.l.accts.insert(*k, a.clone());
            }
            let r = {
                self.s.l.strict = true;
                let r = self.s.l.execute(&Tx::full(c.ixs.clone(), payer));
                self.s.l.strict = false;
                r
            };
            let (accepted, lost, f) = (r.res.is_ok(), matches!(r.res, Err(Fail::Precheck(_))), r.fee);
            drop(r);
            let mut now = std::mem::replace(&mut self.s.l.accts, pre.clone());
            self.s.l.fees_burned = burned;
            if lost {
                continue;
            }
            self.s.rep.fault("account substituted");
            self.s.rep.probe(format!("substituted {}: {}", c.kind, if accepted { "accepted" } else { "refused" }));
            self.s.rep.txs += 1;
            self.s.rep.hit("C13");
            self.s.rep.log(format!("substituted {} {} at {} in {}: {}", c.kind, ops[at].name(), c.pos, ops.len(), if accepted { "accepted" } else { "refused" }));
            if !accepted {
                continue;
            }
            self.s.rep.probe(format!("substitution without effect: {} {} {}", ops[at].name(), c.pos, c.kind));
            let mut want = post.clone();
            if let Some(a) = want.get_mut(&payer) {
                a.lamports = a.lamports + fee - f;
            }
            for (k, a) in &c.made {
                want.insert(*k, a.clone());
            }
            drop_empty(&mut now);
            drop_empty(&mut want);
            if let Some(d) = difference(&now, &want) {
                // an operation that may fail silently is as good as left out
                let mut less = ixs.clone();
                less.remove(at);
                let r = self.s.l.execute(&Tx::full(less, payer));
                let (done, g) = (r.res.is_ok(), r.fee);
                drop(r);
                let mut want = std::mem::replace(&mut self.s.l.accts, pre.clone());
                self.s.l.fees_burned = burned;
                if let Some(a) = want.get_mut(&payer) {
                    a.lamports = a.lamports + g - f;
                }
                for (k, a) in &c.made {
                    want.insert(*k, a.clone());
                }
                drop_empty(&mut want);
                if done && difference(&now, &want).is_none() {
                    continue;
                }
                // another account may turn a silent failure into the success it was meant to be
                let mut genuine = post.clone();
                if let Some(a) = genuine.get_mut(&payer) {
                    a.lamports = a.lamports + fee - f;
                }
                for (k, a) in &c.made {
                    genuine.insert(*k, a.clone());
                }
                drop_empty(&mut genuine);
                if !c.forged && done && difference(&genuine, &want).is_none() {
                    continue;
                }
                let mut p = vec!["C13"];
                p.extend(op_props(&ops[at]));
                let kind = format!("substituted:{}:{}:{}", ops[at].name(), c.pos, c.kind);
                self.s.bad(
                    &p,
                    kind,
                    format!(
                        "{} with account {} ({}) replaced: {} was accepted with another effect than the genuine transaction ({}): {d}",
                        ops.iter().map(|o| o.name()).collect::<Vec<_>>().join("+"),
                        c.pos,
                        ixs[at].accounts[c.pos].pubkey,
                        c.kind,
                        if ok { "accepted" } else { "refused" },
                    ),
                );
                return;
            }
        }
    }
}

impl Core {
    /// The data of one operation with the accounts of another that differs from it in one respect: refused, or the
    /// effect of one of the two
    fn crossed(
        &mut self,
        ops: &[Op],
        ixs: &[Instruction],
        at: usize,
        payer: Pubkey,
        genuine: (bool, &BTreeMap<Pubkey, Account>, u64),
        rng: &mut Rng,
    ) -> bool {
        let Some(other) = crate::mutate::Ctx { core: self }.mutate(&ops[at], rng) else { return false };
        if other.name() != ops[at].name() {
            return false;
        }
        let kids = self.s.st.kids();
        let o = build(&other, &kids);
        let keys = |x: &Instruction| x.accounts.iter().map(|m| m.pubkey).collect::<Vec<_>>();
        if o.data == ixs[at].data || keys(&o) == keys(&ixs[at]) {
            return false;
        }
        let pre = self.s.l.accts.clone();
        let burned = self.s.l.fees_burned;
        let mut run = |me: &mut Self, ix: Option<Instruction>| {
            let mut v = ixs.to_vec();
            match ix {
                Some(x) => v[at] = x,
                None => {
                    v.remove(at);
                }
            }
            me.s.l.strict = true;
            let r = me.s.l.execute(&Tx::full(v, payer));
            me.s.l.strict = false;
            let (ok, f) = (r.res.is_ok(), r.fee);
            drop(r);
            let mut now = std::mem::replace(&mut me.s.l.accts, pre.clone());
            me.s.l.fees_burned = burned;
            // without the fee of the transaction
            if let Some(a) = now.get_mut(&payer) {
                a.lamports += f;
            }
            drop_empty(&mut now);
            (ok, now)
        };
        let mix = if rng.pct(65) {
            Instruction { data: o.data.clone(), ..ixs[at].clone() }
        } else {
            Instruction { data: ixs[at].data.clone(), ..o.clone() }
        };
        let (ok, now) = run(self, Some(mix));
        self.s.rep.fault("data and accounts of two operations");
        self.s.rep.txs += 1;
        self.s.rep.hit("C13");
        self.s.rep.log(format!("crossed {} in {}: {}", ops[at].name(), ops.len(), if ok { "accepted" } else { "refused" }));
        if !ok {
            return false;
        }
        let mut d = None;
        if genuine.0 {
            let mut want = genuine.1.clone();
            if let Some(a) = want.get_mut(&payer) {
                a.lamports += genuine.2;
            }
            drop_empty(&mut want);
            d = difference(&now, &want);
            if d.is_none() {
                return false;
            }
        }
        for ix in [Some(o), None] {
            let (ok, want) = run(self, ix);
            if ok {
                match difference(&now, &want) {
                    None => return false,
                    x => d = d.or(x),
                }
            }
        }
        let mut p = vec!["C13"];
        p.extend(op_props(&ops[at]));
        self.s.bad(
            &p,
            format!("crossed:{}", ops[at].name()),
            format!(
                "the data of one {} with the accounts of another was accepted and had the effect of neither: {} ({:?} / {:?})",
                ops[at].name(),
                d.unwrap_or_default(),
                ops[at],
                other
            ),
        );
        true
    }
}

fn drop_empty(m: &mut BTreeMap<Pubkey, Account>) {
    m.retain(|_, a| a.lamports > 0);
}

fn difference(a: &BTreeMap<Pubkey, Account>, b: &BTreeMap<Pubkey, Account>) -> Option<String> {
    for (k, x) in a {
        match b.get(k) {
            None => return Some(format!("{k} exists")),
            Some(y) => {
                if x.lamports != y.lamports {
                    return Some(format!("{k} has {} lamports, not {}", x.lamports, y.lamports));
                }
                if x.owner != y.owner {
                    return Some(format!("{k} is owned by {}", x.owner));
                }
                if !Arc::ptr_eq(&x.data, &y.data) && x.data != y.data {
                    return Some(format!("{k} has other data"));
                }
            }
        }
    }
    b.keys().find(|k| !a.contains_key(k)).map(|k| format!("{k} is gone"))
}
