//! Reference accounting of lamports and tokens of the accounts of one transaction.

use crate::proto::{mint, rent, tokens, ID};
use simkit::ledger::Account;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;
use std::collections::{BTreeMap, BTreeSet};

pub struct Rej {
    pub why: String,
    pub props: Vec<&'static str>,
}
pub type R<T> = Result<T, Rej>;
pub fn rej<T>(why: &str, props: &[&'static str]) -> R<T> {
    Err(Rej { why: why.to_string(), props: props.to_vec() })
}
macro_rules! need {
    ($c:expr, $why:expr, $props:expr) => {
        if !($c) {
            return crate::bank::rej($why, &$props);
        }
    };
}
pub(crate) use need;

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
    pub state: u8,
}
#[derive(Clone, Debug)]
pub struct BAcc {
    pub lamports: u64,
    pub owner: Pubkey,
    pub len: usize,
    pub tok: Option<Tok>,
    pub exec: bool,
}

pub fn parse_tok(a: &Account) -> Option<Tok> {
    if a.owner == spl_token::ID && a.data.len() == 165 && a.data[108] != 0 {
        Some(Tok {
            mint: Pubkey::new(&a.data[..32]),
            owner: Pubkey::new(&a.data[32..64]),
            amount: crate::proto::u64_at(&a.data, 64),
            state: a.data[108],
        })
    } else {
        None
    }
}

#[derive(Clone, Default)]
pub struct Bank {
    pub m: BTreeMap<Pubkey, BAcc>,
    pub signers: BTreeSet<Pubkey>,
    pub writable: BTreeSet<Pubkey>,
}

impl Bank {
    pub fn new(pre: &BTreeMap<Pubkey, Account>, signers: BTreeSet<Pubkey>, writable: BTreeSet<Pubkey>) -> Self {
        let mut b = Bank { m: BTreeMap::new(), signers, writable };
        for (k, a) in pre {
            b.m.insert(
                *k,
                BAcc {
                    lamports: a.lamports,
                    owner: a.owner,
                    len: a.data.len(),
                    tok: parse_tok(a),
                    exec: a.executable,
                },
            );
            if a.executable || *k == system_program::ID {
                b.writable.remove(k);
            }
        }
        b
    }
    pub fn get(&self, k: &Pubkey) -> BAcc {
        self.m.get(k).cloned().unwrap_or(BAcc {
            lamports: 0,
            owner: system_program::ID,
            len: 0,
            tok: None,
            exec: false,
        })
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.get(k).lamports
    }
    fn acc(&mut self, k: &Pubkey) -> &mut BAcc {
        let d = self.get(k);
        self.m.entry(*k).or_insert(d)
    }
    fn mv(&mut self, from: &Pubkey, to: &Pubkey, amount: u64) -> R<()> {
        if amount == 0 {
            return Ok(());
        }
        need!(self.lamports(from) >= amount, "funds", ["C02"]);
        need!(self.writable.contains(from) && self.writable.contains(to), "read-only-account", ["C13"]);
        self.acc(from).lamports -= amount;
        need!(self.lamports(to).checked_add(amount).is_some(), "overflow", ["C02"]);
        self.acc(to).lamports += amount;
        Ok(())
    }
    /// Transfer by the owner of a wallet
    pub fn sys_transfer(&mut self, from: &Pubkey, to: &Pubkey, amount: u64) -> R<()> {
        need!(self.signers.contains(from), "unsigned", ["C13"]);
        need!(self.writable.contains(from) && self.writable.contains(to), "read-only-account", ["C13"]);
        let f = self.get(from);
        need!(f.owner == system_program::ID && f.len == 0, "not-a-wallet", ["C13"]);
        need!(f.lamports >= amount, "funds", ["C02"]);
        self.mv(from, to, amount)
    }
    /// Transfer out of an account of the program, which has to stay rent-exempt
    pub fn pda_transfer(&mut self, from: &Pubkey, to: &Pubkey, amount: u64) -> R<()> {
        let f = self.get(from);
        need!(f.owner == ID, "not-program-account", ["C13"]);
        need!(f.lamports >= amount && f.lamports - amount >= rent(f.len), "pda-funds", ["C02"]);
        self.mv(from, to, amount)
    }
    pub fn tok_transfer(&mut self, from: &Pubkey, to: &Pubkey, auth: &Pubkey, auth_signs: bool, amount: u64) -> R<()> {
        need!(self.writable.contains(from) && self.writable.contains(to), "read-only-account", ["C13"]);
        let (Some(f), Some(t)) = (self.get(from).tok, self.get(to).tok) else {
            return rej("not-a-token-account", &["C13", "C02"]);
        };
        need!(auth_signs || self.signers.contains(auth), "unsigned", ["C13"]);
        need!(f.owner == *auth, "token-authority", ["C13"]);
        need!(f.mint == t.mint, "token-mint", ["C13", "C09"]);
        need!(f.state == 1 && t.state == 1, "frozen", ["C02"]);
        need!(f.amount >= amount, "token-funds", ["C02"]);
        if from != to {
            self.acc(from).tok.as_mut().unwrap().amount -= amount;
            self.acc(to).tok.as_mut().unwrap().amount += amount;
        }
        Ok(())
    }
    /// Transfer of lamports or tokens by their owner
    pub fn transfer(&mut self, token: u16, src: &Pubkey, src_acc: &Pubkey, to: &Pubkey, amount: u64) -> R<()> {
        if token == 0 {
            self.sys_transfer(src, to, amount)
        } else {
            self.tok_transfer(src_acc, to, src, false, amount)
        }
    }
    pub fn from_pda(&mut self, token: u16, pda: &Pubkey, pda_acc: &Pubkey, to: &Pubkey, amount: u64) -> R<()> {
        if token == 0 {
            self.pda_transfer(pda, to, amount)
        } else {
            self.tok_transfer(pda_acc, to, pda, true, amount)
        }
    }
    pub fn create(&mut self, payer: &Pubkey, k: &Pubkey, len: usize) -> R<()> {
        let a = self.get(k);
        need!(a.len == 0 && a.owner == system_program::ID, "exists", ["C14", "C19"]);
        need!(self.writable.contains(k), "read-only-account", ["C13"]);
        // somebody may have sent lamports there before
        let r = rent(len).saturating_sub(a.lamports);
        self.sys_transfer(payer, k, r)?;
        let a = self.acc(k);
        a.owner = ID;
        a.len = len;
        Ok(())
    }
    pub fn close(&mut self, to: &Pubkey, k: &Pubkey) -> R<()> {
        let l = self.lamports(k);
        self.mv(k, to, l)
    }
    pub fn create_ata(&mut self, payer: &Pubkey, wallet: &Pubkey, k: &Pubkey, token: u16) -> R<()> {
        let a = self.get(k);
        need!(a.owner == system_program::ID && a.len == 0, "exists", ["C09"]);
        need!(self.writable.contains(k), "read-only-account", ["C13"]);
        let r = rent(165).saturating_sub(a.lamports);
        self.sys_transfer(payer, k, r)?;
        let a = self.acc(k);
        a.owner = spl_token::ID;
        a.len = 165;
        a.tok = Some(Tok { mint: mint(token), owner: *wallet, amount: 0, state: 1 });
        Ok(())
    }
    /// May receive lamports or tokens with the given id on behalf of a fee payer
    pub fn is_token_account(&self, k: &Pubkey, token: u16) -> bool {
        let a = self.get(k);
        if token == 0 {
            a.owner != spl_token::ID
        } else {
            a.tok.map_or(false, |t| t.mint == tokens()[token as usize].mint)
        }
    }
    /// Rule of the runtime at the end of a transaction
    pub fn end(&self, pre: &BTreeMap<Pubkey, Account>) -> R<()> {
        for k in &self.writable {
            let a = self.get(k);
            let (pl, pn) = pre.get(k).map(|p| (p.lamports, p.data.len())).unwrap_or((0, 0));
            let paying = |l: u64, n: usize| l > 0 && l < rent(n);
            if paying(a.lamports, a.len) && !(paying(pl, pn) && pn == a.len && a.lamports <= pl) {
                return rej("rent", &["C02"]);
            }
        }
        Ok(())
    }
}
