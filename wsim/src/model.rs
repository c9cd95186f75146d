//! What each instruction of the warden network may do, as a function of the accounts before it.

use crate::proto::*;
use elusiv_types::TOKENS;
use simkit::ledger::Account;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_option::COption;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use solana_program::{system_program, sysvar};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// The all-zero key, as the code declares it
pub const ATTESTER_AUTHORITY: Pubkey = elusiv_warden_network::processor::METADATA_ATTESTER_AUTHORITY;

#[derive(Clone, Debug, PartialEq)]
pub enum No {
    /// Has to be refused
    Must(&'static str),
    /// Whether it is refused is not specified; if not, it has no effect
    May,
}
type R = Result<(), No>;
fn must<T>(w: &'static str) -> Result<T, No> {
    Err(No::Must(w))
}
macro_rules! need {
    ($c:expr, $w:expr) => {
        if !$c {
            return must($w);
        }
    };
}

pub type Flags = BTreeMap<Pubkey, (bool, bool)>;

pub struct Call<'a> {
    pub top: &'a [Instruction],
    pub index: usize,
    pub cpi: bool,
    pub flags: &'a Flags,
    pub now: i64,
}

#[derive(Clone)]
pub struct Over {
    pub a: BTreeMap<Pubkey, Account>,
    /// Operations that were applied, in order
    pub done: Vec<Done>,
    /// Real code may refuse although the model does not
    pub may_refuse: bool,
    pub zero_wallet: bool,
}

#[derive(Clone, Debug)]
pub struct Done {
    pub name: &'static str,
    pub id: u32,
    pub key: Pubkey,
    pub note: &'static str,
}

/// Day of the year (from 0) and year of a unix time
pub fn calendar(ts: i64) -> Option<(usize, i64)> {
    if ts < 0 {
        return None;
    }
    let days = ts / 86_400;
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let mut y = 1970;
    let mut d = days;
    while d >= 365 + leap(y) as i64 {
        d -= 365 + leap(y) as i64;
        y += 1;
        if y > 2500 {
            return None;
        }
    }
    if (2000..2100).contains(&y) {
        Some((d as usize, y))
    } else {
        None
    }
}

impl Over {
    pub fn new(pre: &BTreeMap<Pubkey, Account>, zero_wallet: bool) -> Self {
        Over { a: pre.clone(), done: vec![], may_refuse: false, zero_wallet }
    }
    pub fn get(&self, k: &Pubkey) -> Account {
        self.a.get(k).cloned().unwrap_or_default()
    }
    fn data(&self, k: &Pubkey) -> Vec<u8> {
        (*self.get(k).data).clone()
    }
    fn put(&mut self, k: &Pubkey, d: Vec<u8>) {
        self.a.entry(*k).or_default().data = Arc::new(d);
    }
    /// A record of the program
    fn record(&self, k: &Pubkey, t: Ty, pk: Option<&Pubkey>, off: Option<u32>) -> Result<Vec<u8>, No> {
        need!(*k == addr(t, pk, off), "wrong-account");
        let a = self.get(k);
        need!(a.owner == ID && a.data.len() == t.1, "no-record");
        Ok((*a.data).clone())
    }
    fn open(&mut self, c: &Call, payer: &Pubkey, k: &Pubkey, t: Ty, pk: Option<&Pubkey>, off: Option<u32>) -> R {
        let (want, bump) = pda(t.0, pk, off);
        need!(*k == want, "wrong-account");
        let a = self.get(k);
        need!(a.owner == system_program::ID && a.data.is_empty(), "exists-already");
        let missing = rent(t.1).saturating_sub(a.lamports);
        if missing > 0 {
            let p = self.get(payer);
            need!(c.flags.get(payer).map_or(false, |f| f.0), "unsigned-payer");
            need!(p.owner == system_program::ID && p.data.is_empty(), "payer-is-no-wallet");
            need!(p.lamports >= missing, "poor-payer");
            self.a.entry(*payer).or_default().lamports -= missing;
        }
        let mut d = vec![0u8; t.1];
        d[0] = bump;
        self.a.insert(*k, Account { lamports: a.lamports + missing, data: Arc::new(d), owner: ID, executable: false });
        Ok(())
    }

    /// One instruction at top level or from another program
    pub fn ix(&mut self, ix: &Instruction, c: &Call) -> R {
        let before = self.a.clone();
        let r = if ix.program_id == ID {
            self.warden_ix(ix, c)
        } else if ix.program_id == elusiv_id() {
            if ix.data.get(1) == Some(&0xEE) {
                must("operation-fails")
            } else {
                Ok(())
            }
        } else if ix.program_id == foreign() {
            Ok(())
        } else if ix.program_id == system_program::ID {
            self.transfer(ix, c)
        } else if ix.program_id == evil() {
            self.evil(ix, c)
        } else {
            must("unknown-program")
        };
        if r.is_ok() {
            let all: BTreeSet<Pubkey> = self.a.keys().chain(before.keys()).copied().collect();
            for k in all {
                let (x, y) = (before.get(&k).cloned().unwrap_or_default(), self.get(&k));
                if x.lamports != y.lamports || x.data != y.data || x.owner != y.owner {
                    need!(c.flags.get(&k).map_or(false, |f| f.1), "read-only");
                    need!(!x.executable || self.zero_wallet, "executable");
                }
            }
        } else {
            self.a = before;
        }
        r
    }

    fn transfer(&mut self, ix: &Instruction, c: &Call) -> R {
        let n = u64::from_le_bytes(ix.data[4..12].try_into().unwrap());
        let (f, t) = (ix.accounts[0].pubkey, ix.accounts[1].pubkey);
        need!(c.flags[&f].0, "unsigned");
        let a = self.get(&f);
        need!(a.owner == system_program::ID && a.data.is_empty() && a.lamports >= n, "no-funds");
        self.a.entry(f).or_default().lamports -= n;
        self.a.entry(t).or_default().lamports += n;
        Ok(())
    }

    fn evil(&mut self, ix: &Instruction, c: &Call) -> R {
        for inner in decode(&ix.data) {
            let mut flags: Flags = BTreeMap::new();
            for m in &inner.accounts {
                let e = flags.entry(m.pubkey).or_insert((false, false));
                e.0 |= m.is_signer;
                e.1 |= m.is_writable;
            }
            for (k, (s, w)) in flags.iter_mut() {
                let have = c.flags.get(k).copied().unwrap_or((false, false));
                need!(!*s || have.0, "signer-escalation");
                // the outer call lists everything as writable that it may
                need!(!*w || have.1, "write-escalation");
            }
            let call = Call { top: c.top, index: c.index, cpi: true, flags: &flags, now: c.now };
            // a program refused in a call ends the transaction
            self.ix(&inner, &call)?;
        }
        Ok(())
    }

    fn warden_ix(&mut self, ix: &Instruction, c: &Call) -> R {
        let Some(op) = Op::parse(&ix.data) else { return must("malformed") };
        let metas = &ix.accounts;
        let n = op.ix(&[Pubkey::default(); 4]).accounts.len();
        need!(metas.len() >= n, "missing-account");
        let acc: Vec<Pubkey> = metas.iter().map(|m| m.pubkey).collect();
        let signed = |i: usize| c.flags.get(&acc[i]).map_or(false, |f| f.0);
        // fixed accounts
        let template: Vec<AccountMeta> = op.ix(&[Pubkey::default(); 4]).accounts;
        for (i, m) in template.iter().enumerate() {
            need!(!m.is_signer || signed(i), "unsigned");
            if i + 1 == n && n > 2 && m.pubkey == system_program::ID && !matches!(op, Op::Lut { .. }) {
                need!(acc[i] == system_program::ID, "wrong-system-program");
            }
        }
        let now = |_: &Self| -> Result<[u8; 8], No> {
            if c.now < 0 {
                must("negative-time")
            } else {
                Ok((c.now as u64).to_le_bytes())
            }
        };
        let mut note = "";
        let mut id = 0;
        match &op {
            Op::Init => {
                self.open(c, &acc[0], &acc[1], WARDENS, None, None)?;
                self.open(c, &acc[0], &acc[2], BASIC_NET, None, None)?;
                self.open(c, &acc[0], &acc[3], APA_NET, None, None)?;
                self.open(c, &acc[0], &acc[4], PROPOSALS, None, None)?;
            }
            Op::Register { id: i, cfg } => {
                id = *i;
                need!(key_at(cfg, C_KEY) == acc[0], "someone-elses-key");
                need!(cfg[C_ATTEST] == 0, "self-declared-attester");
                let mut w = self.record(&acc[3], WARDENS, None, None)?;
                let mut net = self.record(&acc[4], BASIC_NET, None, None)?;
                let count = u32_at(&net, H) as usize;
                need!(count < MEMBERS, "network-full");
                need!(u32_at(&w, H) == id, "wrong-id");
                need!(id < u32::MAX, "ids-exhausted");
                let ts = now(self)?;
                w[H..H + 4].copy_from_slice(&(id + 1).to_le_bytes());
                net[H..H + 4].copy_from_slice(&(count as u32 + 1).to_le_bytes());
                let o = N_MEMBERS + count * 4;
                net[o..o + 4].copy_from_slice(&id.to_le_bytes());
                let o = N_FEATURES + count * 3;
                net[o..o + 3].copy_from_slice(&cfg[C_BASIC..C_BASIC + 3]);
                let o = N_TOKENS + count * TOKEN_COUNT;
                net[o..o + TOKEN_COUNT].copy_from_slice(&cfg[C_TOKENS..C_TOKENS + TOKEN_COUNT]);
                net[N_REGION + count] = cfg[C_REGION];
                self.put(&acc[3], w);
                self.put(&acc[4], net);
                self.open(c, &acc[0], &acc[1], WARDEN, None, Some(id))?;
                let mut d = self.data(&acc[1]);
                d[H..H + CFG].copy_from_slice(cfg);
                d[H + W_JOIN..H + W_JOIN + 8].copy_from_slice(&ts);
                d[H + W_ACT..H + W_ACT + 8].copy_from_slice(&ts);
                self.put(&acc[1], d);
                self.open(c, &acc[0], &acc[2], MAP, Some(&acc[0]), None)?;
                let mut d = self.data(&acc[2]);
                d[H..H + 4].copy_from_slice(&id.to_le_bytes());
                self.put(&acc[2], d);
            }
            Op::State { id: i, active } => {
                id = *i;
                let mut d = self.record(&acc[1], WARDEN, None, Some(id))?;
                need!(key_at(&d, H + C_KEY) == acc[0], "not-the-warden");
                if (d[H + W_ACTIVE] == 1) != *active {
                    d[H + W_ACT..H + W_ACT + 8].copy_from_slice(&now(self)?);
                    d[H + W_ACTIVE] = *active as u8;
                    note = "changed";
                }
                self.put(&acc[1], d);
            }
            Op::Lut { id: i } => {
                id = *i;
                let mut d = self.record(&acc[1], WARDEN, None, Some(id))?;
                need!(key_at(&d, H + C_KEY) == acc[0], "not-the-warden");
                d[H + W_LUT..H + W_LUT + 32].copy_from_slice(&acc[2].to_bytes());
                self.put(&acc[1], d);
            }
            Op::Start { id: i, quote } => {
                let map = self.record(&acc[1], MAP, Some(&acc[0]), None)?;
                // the id in the data only helps clients to derive the account
                note = if *i == u32_at(&map, H) { "" } else { "other-id" };
                id = u32_at(&map, H);
                let mut net = self.record(&acc[3], APA_NET, None, None)?;
                need!(applying(&net), "applications-over");
                let count = u32_at(&net, H) as usize;
                need!(count < APA, "no-place-left");
                self.open(c, &acc[0], &acc[2], APA_WARDEN, None, Some(id))?;
                let mut d = self.data(&acc[2]);
                d[H..H + 4].copy_from_slice(&id.to_le_bytes());
                d[H + 4..H + 8].copy_from_slice(&(count as u32).to_le_bytes());
                self.put(&acc[2], d);
                net[H..H + 4].copy_from_slice(&(count as u32 + 1).to_le_bytes());
                net[A_MEMBERS + 4 * count..A_MEMBERS + 4 * count + 4].copy_from_slice(&id.to_le_bytes());
                net[A_STARTS + HALF * count..A_STARTS + HALF * (count + 1)].copy_from_slice(quote);
                net[A_KEYS + 32 * count..A_KEYS + 32 * (count + 1)].copy_from_slice(&quote[400..432]);
                self.put(&acc[3], net);
            }
            Op::Complete { id: i, quote } => {
                id = *i;
                let map = self.record(&acc[1], MAP, Some(&acc[0]), None)?;
                need!(u32_at(&map, H) == id, "wrong-id");
                let mut net = self.record(&acc[2], APA_NET, None, None)?;
                need!(applying(&net), "applications-over");
                let count = u32_at(&net, H) as usize;
                let Some(m) = (0..count).find(|m| u32_at(&net, A_MEMBERS + 4 * m) == id) else {
                    return must("no-applicant");
                };
                let o = A_ENDS + (HALF + 1) * m;
                note = if net[o] == 0 { "first" } else { "again" };
                net[o] = 1;
                net[o + 1..o + 1 + HALF].copy_from_slice(quote);
                self.put(&acc[2], net);
            }
            Op::Confirm { id: i, msg } => {
                id = *i;
                let w = self.record(&acc[1], APA_WARDEN, None, Some(id))?;
                let m = u32_at(&w, H + 4) as usize;
                let mut net = self.record(&acc[2], APA_NET, None, None)?;
                need!(!applying(&net), "still-applying");
                need!(key_at(&net, A_KEYS + 32 * m) == acc[0], "not-the-exchange-key");
                need!(msg[..] == message(&net)[..], "wrong-message");
                need!(net[A_CONF + m] == 0, "confirmed-already");
                net[A_CONF + m] = 1;
                self.put(&acc[2], net);
            }
            Op::CompleteNetwork => return must("not-available"),
            Op::RegisterOperator { ident, url, jur } => {
                self.open(c, &acc[0], &acc[1], OPERATOR, Some(&acc[0]), None)?;
                let mut d = self.data(&acc[1]);
                d[H..H + 32].copy_from_slice(&acc[0].to_bytes());
                d[H + 32..H + 296].copy_from_slice(ident);
                d[H + 296..H + 560].copy_from_slice(url);
                if let Some(j) = jur {
                    d[H + 560] = 1;
                    d[H + 561..H + 563].copy_from_slice(&j.to_le_bytes());
                }
                self.put(&acc[1], d);
            }
            Op::ConfirmOperation { id: i } => {
                id = *i;
                let mut d = self.record(&acc[1], WARDEN, None, Some(id))?;
                let o = H + C_OPERATOR;
                if d[o] == 1 {
                    need!(key_at(&d, o + 1) == acc[0], "not-the-operator");
                    note = "named";
                } else {
                    d[o] = 1;
                    d[o + 1..o + 33].copy_from_slice(&acc[0].to_bytes());
                    note = "unnamed";
                }
                d[H + W_OPC] = 1;
                self.put(&acc[1], d);
            }
            Op::OpenStats { year } => {
                id = *year as u32;
                self.open(c, &acc[1], &acc[2], STATS, Some(&acc[0]), Some(*year as u32))?;
                let mut d = self.data(&acc[2]);
                d[H..H + 2].copy_from_slice(&year.to_le_bytes());
                self.put(&acc[2], d);
            }
            Op::Track { year, can_fail } => {
                id = *year as u32;
                need!(acc[2] == sysvar::instructions::ID, "wrong-sysvar");
                let mut d = self.record(&acc[1], STATS, Some(&acc[0]), Some(*year as u32))?;
                match attribute(c, &acc[0], *year, &d) {
                    Ok((cat, day)) => {
                        let o = H + 10 + STAT * cat;
                        for p in [o + 4 * day, o + 366 * 4] {
                            let v = u32_at(&d, p) + 1;
                            d[p..p + 4].copy_from_slice(&v.to_le_bytes());
                        }
                        d[H + 2..H + 10].copy_from_slice(&c.now.to_le_bytes());
                        self.put(&acc[1], d);
                        note = ["store", "send"][cat];
                    }
                    Err(No::May) => return Err(if *can_fail { No::Must("not-attributable") } else { No::May }),
                    Err(e) => {
                        if *can_fail {
                            return Err(e);
                        }
                        note = "tolerated";
                    }
                }
            }
            Op::Propose { id: i, proposal } => {
                id = *i;
                let mut list = self.record(&acc[2], PROPOSALS, None, None)?;
                need!(u32_at(&list, H) == id, "wrong-id");
                need!(id < u32::MAX, "ids-exhausted");
                let mut p = proposal.clone();
                p[33..41].copy_from_slice(&now(self)?);
                p[..32].copy_from_slice(&acc[0].to_bytes());
                let token = if p[74] == 1 { Some(u16_at(&p, 75) as usize) } else { None };
                if let Some(t) = token {
                    need!(t < TOKEN_COUNT, "unknown-token");
                }
                if p[32] == 1 {
                    let Some(t) = token else { return must("freezing-authority-of-no-token") };
                    need!(t > 0, "freezing-authority-of-lamports");
                    need!(acc[4] == TOKENS[t].mint, "wrong-mint");
                    let m = self.get(&acc[4]);
                    let Ok(mint) = spl_token::state::Mint::unpack(&m.data) else { return must("no-mint") };
                    need!(mint.freeze_authority == COption::Some(acc[0]), "not-the-freezing-authority");
                    note = "authority";
                }
                let target = key_at(&p, 41);
                need!(acc[3] == addr(TARGET_MAP, Some(&target), None), "wrong-account");
                self.open(c, &acc[0], &acc[1], PROPOSAL_ACC, None, Some(id))?;
                if self.get(&acc[3]).owner != ID {
                    self.open(c, &acc[0], &acc[3], TARGET_MAP, Some(&target), None)?;
                }
                let mut d = self.data(&acc[1]);
                d[H..].copy_from_slice(&p);
                self.put(&acc[1], d);
                list[H..H + 4].copy_from_slice(&(id + 1).to_le_bytes());
                self.put(&acc[2], list);
            }
            Op::AddAttester { id: i, attester } => {
                id = *i;
                need!(acc[0] == ATTESTER_AUTHORITY, "not-the-attester-authority");
                let mut w = self.record(&acc[2], WARDEN, None, Some(id))?;
                self.open(c, &acc[0], &acc[1], ATTESTER_MAP, Some(attester), None)?;
                let mut d = self.data(&acc[1]);
                d[H..H + 4].copy_from_slice(&id.to_le_bytes());
                self.put(&acc[1], d);
                w[H + C_ATTEST] = 1;
                self.put(&acc[2], w);
            }
            Op::RevokeAttester { id: i } => {
                id = *i;
                need!(acc[0] == ATTESTER_AUTHORITY, "not-the-attester-authority");
                self.record(&acc[2], ATTESTER_MAP, Some(&acc[1]), None)?;
                let mut w = self.record(&acc[3], WARDEN, None, Some(id))?;
                let l = self.get(&acc[2]).lamports;
                self.a.entry(acc[0]).or_default().lamports += l;
                self.a.entry(acc[2]).or_default().lamports = 0;
                w[H + C_ATTEST] = 0;
                self.put(&acc[3], w);
            }
            Op::Attest { attester_id, id: i, member, asn, tz, region, proxy } => {
                id = *i;
                let a = self.record(&acc[1], WARDEN, None, Some(*attester_id))?;
                let mut w = self.record(&acc[2], WARDEN, None, Some(id))?;
                let mut net = self.record(&acc[3], BASIC_NET, None, None)?;
                need!(key_at(&a, H + C_KEY) == acc[0], "not-the-warden");
                need!(a[H + C_ATTEST] == 1, "no-attester");
                let m = *member as usize;
                need!(m < MEMBERS && u32_at(&net, N_MEMBERS + 4 * m) == id, "wrong-member");
                if attester_id == i {
                    self.may_refuse = true;
                }
                let c = H;
                let same = w[c + C_TZ..c + C_TZ + 23] == tz[..] && w[c + C_REGION] == *region && w[c + C_PROXY] == *proxy as u8;
                w[c + C_TZ..c + C_TZ + 23].copy_from_slice(tz);
                w[c + C_REGION] = *region;
                w[c + C_PROXY] = *proxy as u8;
                w[c + W_ASN..c + W_ASN + 5].fill(0);
                if let Some(v) = asn {
                    w[c + W_ASN] = 1;
                    w[c + W_ASN + 1..c + W_ASN + 5].copy_from_slice(&v.to_le_bytes());
                }
                w[c + W_VALID] = 1;
                w[c + W_VALID + 1] = same as u8;
                net[N_REGION + m] = *region;
                self.put(&acc[2], w);
                self.put(&acc[3], net);
                note = if same { "valid" } else { "corrected" };
            }
            Op::Close => return must("not-the-program-key"),
        }
        self.done.push(Done { name: op.name(), id, key: acc.first().copied().unwrap_or_default(), note });
        Ok(())
    }
}

/// Category and day of the operation a tracking instruction follows
fn attribute(c: &Call, warden: &Pubkey, year: u16, stats: &[u8]) -> Result<(usize, usize), No> {
    if c.now < 0 {
        return Err(No::May);
    }
    let Some((day, y)) = calendar(c.now) else { return must("not-attributable") };
    need!(y == year as i64 && u16_at(stats, H) == year, "not-attributable");
    need!(!c.cpi, "not-attributable");
    need!(c.index > 0, "not-attributable");
    let prev = &c.top[c.index - 1];
    if prev.data.is_empty() || prev.accounts.is_empty() {
        return Err(No::May);
    }
    let cat = match prev.data[0] {
        2 => 0,
        13 | 14 => 1,
        _ => return must("not-attributable"),
    };
    need!(prev.program_id == elusiv_id(), "not-attributable");
    need!(prev.accounts[0].pubkey == *warden, "not-attributable");
    let o = H + 10 + STAT * cat;
    need!(u32_at(stats, o + 4 * day) < u32::MAX && u32_at(stats, o + 366 * 4) < u32::MAX, "counter-full");
    Ok((cat, day))
}

pub fn applying(net: &[u8]) -> bool {
    (0..APA).any(|m| net[A_ENDS + (HALF + 1) * m] == 0)
}

/// The hash of all quotes in the order of the applications
pub fn message(net: &[u8]) -> [u8; 32] {
    let mut all = vec![];
    for m in 0..u32_at(net, H) as usize {
        let e = A_ENDS + (HALF + 1) * m;
        if net[e] == 1 {
            all.extend_from_slice(&net[A_STARTS + HALF * m..A_STARTS + HALF * (m + 1)]);
            all.extend_from_slice(&net[e + 1..e + 1 + HALF]);
        }
    }
    solana_program::hash::hash(&all).to_bytes()
}

/// Instructions another program is told to call
pub fn encode(ixs: &[Instruction]) -> Vec<u8> {
    let mut d = vec![ixs.len() as u8];
    for ix in ixs {
        d.extend(ix.program_id.to_bytes());
        d.push(ix.accounts.len() as u8);
        for m in &ix.accounts {
            d.extend(m.pubkey.to_bytes());
            d.push(m.is_signer as u8 | (m.is_writable as u8) << 1);
        }
        d.extend((ix.data.len() as u16).to_le_bytes());
        d.extend(&ix.data);
    }
    d
}
pub fn decode(d: &[u8]) -> Vec<Instruction> {
    let mut o = 1;
    let mut out = vec![];
    for _ in 0..d[0] {
        let program_id = key_at(d, o);
        let n = d[o + 32] as usize;
        o += 33;
        let accounts = (0..n)
            .map(|i| {
                let p = o + 33 * i;
                AccountMeta { pubkey: key_at(d, p), is_signer: d[p + 32] & 1 != 0, is_writable: d[p + 32] & 2 != 0 }
            })
            .collect();
        o += 33 * n;
        let l = u16_at(d, o) as usize;
        out.push(Instruction { program_id, accounts, data: d[o + 2..o + 2 + l].to_vec() });
        o += 2 + l;
    }
    out
}
