//! Instructions, addresses and records of the warden network, written down independently of its code.

use elusiv_types::TOKENS;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::str::FromStr;

pub const ID: Pubkey = elusiv_warden_network::PROGRAM_ID;
pub const TOKEN_COUNT: usize = TOKENS.len();

pub fn elusiv_id() -> Pubkey {
    Pubkey::from_str("HMr2Y6Gkjvy42y1iAPEbRKz5o7WEFPHBvagHQYR581UB").unwrap()
}
pub fn key(ns: u64, i: u64) -> Pubkey {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&simkit::rng::mix(&[ns, i]).to_le_bytes());
    b[8..16].copy_from_slice(&ns.to_le_bytes());
    b[16..24].copy_from_slice(&i.to_le_bytes());
    b[31] = 0x5A;
    Pubkey::new_from_array(b)
}
pub fn evil() -> Pubkey {
    key(0xE111, 0)
}
pub fn foreign() -> Pubkey {
    key(0xF0E1, 0)
}
pub fn rent(n: usize) -> u64 {
    Rent::default().minimum_balance(n)
}

pub fn pda(seed: &str, pk: Option<&Pubkey>, off: Option<u32>) -> (Pubkey, u8) {
    thread_local! {
        static CACHE: RefCell<BTreeMap<(String, Option<Pubkey>, Option<u32>), (Pubkey, u8)>> = RefCell::new(BTreeMap::new());
    }
    let k = (seed.to_string(), pk.copied(), off);
    if let Some(v) = CACHE.with(|c| c.borrow().get(&k).copied()) {
        return v;
    }
    let mut seeds: Vec<Vec<u8>> = vec![seed.as_bytes().to_vec()];
    if let Some(p) = pk {
        seeds.push(p.to_bytes().to_vec());
    }
    if let Some(o) = off {
        seeds.push(o.to_le_bytes().to_vec());
    }
    let s: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
    let v = Pubkey::find_program_address(&s, &ID);
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 20_000 {
            c.clear()
        }
        c.insert(k, v);
    });
    v
}

/// A record type: name (the seed of its address) and size
pub type Ty = (&'static str, usize);
pub const H: usize = 2;
pub const CFG: usize = 638 + TOKEN_COUNT;
pub const WARDEN_LEN: usize = CFG + 32 + 5 + 1 + 2 + 1 + 8 + 8;
pub const MEMBERS: usize = 511;
pub const APA: usize = 6;
pub const HALF: usize = 558;
pub const STAT: usize = 367 * 4;
pub const PROPOSAL: usize = 32 + 1 + 8 + 32 + 1 + 3 + 520;

pub const WARDENS: Ty = ("Wardens", H + 4);
pub const BASIC_NET: Ty = ("BasicWardenNetwork", H + 4 + MEMBERS * (4 + 3 + TOKEN_COUNT + 1));
pub const APA_NET: Ty = ("ApaWardenNetwork", H + 4 + 33 + APA * (4 + HALF + 1 + HALF + 32 + 1));
pub const PROPOSALS: Ty = ("ApaProposals", H + 4);
pub const WARDEN: Ty = ("BasicWarden", H + WARDEN_LEN);
pub const MAP: Ty = ("BasicWardenMap", H + 4);
pub const APA_WARDEN: Ty = ("ApaWarden", H + 8);
pub const OPERATOR: Ty = ("WardenOperator", H + 32 + 264 + 264 + 3);
pub const STATS: Ty = ("BasicWardenStats", H + 2 + 8 + 3 * STAT);
pub const PROPOSAL_ACC: Ty = ("ApaProposal", H + PROPOSAL);
pub const TARGET_MAP: Ty = ("ApaTargetMap", H + 5);
pub const ATTESTER_MAP: Ty = ("BasicWardenAttesterMap", H + 4);

// within a configuration
pub const C_KEY: usize = 264;
pub const C_OPERATOR: usize = 296;
pub const C_PROXY: usize = 336;
pub const C_TZ: usize = 339;
pub const C_REGION: usize = 362;
pub const C_ATTEST: usize = 634;
pub const C_BASIC: usize = 635;
pub const C_TOKENS: usize = 638;
// within a warden record
pub const W_LUT: usize = CFG;
pub const W_ASN: usize = CFG + 32;
pub const W_OPC: usize = CFG + 37;
pub const W_VALID: usize = CFG + 38;
pub const W_ACTIVE: usize = CFG + 40;
pub const W_JOIN: usize = CFG + 41;
pub const W_ACT: usize = CFG + 49;
// within the basic network
pub const N_MEMBERS: usize = H + 4;
pub const N_FEATURES: usize = N_MEMBERS + MEMBERS * 4;
pub const N_TOKENS: usize = N_FEATURES + MEMBERS * 3;
pub const N_REGION: usize = N_TOKENS + MEMBERS * TOKEN_COUNT;
// within the genesis network
pub const A_MEMBERS: usize = H + 4 + 33;
pub const A_STARTS: usize = A_MEMBERS + APA * 4;
pub const A_ENDS: usize = A_STARTS + APA * HALF;
pub const A_KEYS: usize = A_ENDS + APA * (HALF + 1);
pub const A_CONF: usize = A_KEYS + APA * 32;

pub fn addr(t: Ty, pk: Option<&Pubkey>, off: Option<u32>) -> Pubkey {
    pda(t.0, pk, off).0
}
pub fn u32_at(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap())
}
pub fn u16_at(d: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(d[o..o + 2].try_into().unwrap())
}
pub fn key_at(d: &[u8], o: usize) -> Pubkey {
    Pubkey::new(&d[o..o + 32])
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Init,
    Register { id: u32, cfg: Vec<u8> },
    State { id: u32, active: bool },
    Lut { id: u32 },
    Start { id: u32, quote: Vec<u8> },
    Complete { id: u32, quote: Vec<u8> },
    Confirm { id: u32, msg: Vec<u8> },
    CompleteNetwork,
    RegisterOperator { ident: Vec<u8>, url: Vec<u8>, jur: Option<u16> },
    ConfirmOperation { id: u32 },
    OpenStats { year: u16 },
    Track { year: u16, can_fail: bool },
    Propose { id: u32, proposal: Vec<u8> },
    AddAttester { id: u32, attester: Pubkey },
    RevokeAttester { id: u32 },
    Attest { attester_id: u32, id: u32, member: u32, asn: Option<u32>, tz: Vec<u8>, region: u8, proxy: bool },
    Close,
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Init => "Init",
            Op::Register { .. } => "Register",
            Op::State { .. } => "State",
            Op::Lut { .. } => "Lut",
            Op::Start { .. } => "Start",
            Op::Complete { .. } => "Complete",
            Op::Confirm { .. } => "Confirm",
            Op::CompleteNetwork => "CompleteNetwork",
            Op::RegisterOperator { .. } => "RegisterOperator",
            Op::ConfirmOperation { .. } => "ConfirmOperation",
            Op::OpenStats { .. } => "OpenStats",
            Op::Track { .. } => "Track",
            Op::Propose { .. } => "Propose",
            Op::AddAttester { .. } => "AddAttester",
            Op::RevokeAttester { .. } => "RevokeAttester",
            Op::Attest { .. } => "Attest",
            Op::Close => "Close",
        }
    }
    pub fn props(&self) -> &'static [&'static str] {
        match self {
            Op::Init | Op::Close => &["C16", "C17", "C18"],
            Op::Register { .. } | Op::Attest { .. } | Op::ConfirmOperation { .. } => &["C16", "C18"],
            Op::State { .. } | Op::Lut { .. } => &["C16"],
            Op::OpenStats { .. } | Op::Track { .. } => &["C17"],
            Op::AddAttester { .. } | Op::RevokeAttester { .. } => &["C16", "C18"],
            _ => &["C18"],
        }
    }

    pub fn data(&self) -> Vec<u8> {
        let mut d = vec![];
        let opt16 = |d: &mut Vec<u8>, o: &Option<u16>| match o {
            None => d.push(0),
            Some(v) => {
                d.push(1);
                d.extend(v.to_le_bytes())
            }
        };
        match self {
            Op::Init => d.push(0),
            Op::Register { id, cfg } => {
                d.push(1);
                d.extend(id.to_le_bytes());
                d.extend(cfg);
            }
            Op::State { id, active } => {
                d.push(2);
                d.extend(id.to_le_bytes());
                d.push(*active as u8);
            }
            Op::Lut { id } => {
                d.push(3);
                d.extend(id.to_le_bytes());
            }
            Op::Start { id, quote } => {
                d.push(4);
                d.extend(id.to_le_bytes());
                d.extend(quote);
            }
            Op::Complete { id, quote } => {
                d.push(5);
                d.extend(id.to_le_bytes());
                d.extend(quote);
            }
            Op::Confirm { id, msg } => {
                d.push(6);
                d.extend(id.to_le_bytes());
                d.extend(msg);
            }
            Op::CompleteNetwork => d.push(7),
            Op::RegisterOperator { ident, url, jur } => {
                d.push(8);
                d.extend(ident);
                d.extend(url);
                opt16(&mut d, jur);
            }
            Op::ConfirmOperation { id } => {
                d.push(9);
                d.extend(id.to_le_bytes());
            }
            Op::OpenStats { year } => {
                d.push(10);
                d.extend(year.to_le_bytes());
            }
            Op::Track { year, can_fail } => {
                d.push(11);
                d.extend(year.to_le_bytes());
                d.push(*can_fail as u8);
            }
            Op::Propose { id, proposal } => {
                d.push(12);
                d.extend(id.to_le_bytes());
                d.extend(proposal);
            }
            Op::AddAttester { id, attester } => {
                d.push(13);
                d.extend(id.to_le_bytes());
                d.extend(attester.to_bytes());
            }
            Op::RevokeAttester { id } => {
                d.push(14);
                d.extend(id.to_le_bytes());
            }
            Op::Attest { attester_id, id, member, asn, tz, region, proxy } => {
                d.push(15);
                d.extend(attester_id.to_le_bytes());
                d.extend(id.to_le_bytes());
                d.extend(member.to_le_bytes());
                match asn {
                    None => d.push(0),
                    Some(v) => {
                        d.push(1);
                        d.extend(v.to_le_bytes())
                    }
                }
                d.extend(tz);
                d.push(*region);
                d.push(*proxy as u8);
            }
            Op::Close => d.push(16),
        }
        d
    }

    /// `who`: the free accounts of the operation in their order
    pub fn ix(&self, who: &[Pubkey]) -> Instruction {
        let s = |k: Pubkey| AccountMeta::new_readonly(k, true);
        let sw = |k: Pubkey| AccountMeta::new(k, true);
        let r = |k: Pubkey| AccountMeta::new_readonly(k, false);
        let w = |k: Pubkey| AccountMeta::new(k, false);
        let sys = solana_program::system_program::ID;
        let a = addr;
        let accounts = match self {
            Op::Init => vec![
                sw(who[0]),
                w(a(WARDENS, None, None)),
                w(a(BASIC_NET, None, None)),
                w(a(APA_NET, None, None)),
                w(a(PROPOSALS, None, None)),
                r(sys),
            ],
            Op::Register { id, cfg } => vec![
                sw(who[0]),
                w(a(WARDEN, None, Some(*id))),
                w(a(MAP, Some(&key_at(cfg, C_KEY)), None)),
                w(a(WARDENS, None, None)),
                w(a(BASIC_NET, None, None)),
                r(sys),
            ],
            Op::State { id, .. } => vec![s(who[0]), w(a(WARDEN, None, Some(*id)))],
            Op::Lut { id } => vec![s(who[0]), w(a(WARDEN, None, Some(*id))), r(who[1])],
            Op::Start { id, .. } => vec![
                sw(who[0]),
                r(a(MAP, Some(&who[0]), None)),
                w(a(APA_WARDEN, None, Some(*id))),
                w(a(APA_NET, None, None)),
                r(sys),
            ],
            Op::Complete { .. } => {
                vec![s(who[0]), r(a(MAP, Some(&who[0]), None)), w(a(APA_NET, None, None))]
            }
            Op::Confirm { id, .. } => {
                vec![s(who[0]), r(a(APA_WARDEN, None, Some(*id))), w(a(APA_NET, None, None))]
            }
            Op::CompleteNetwork => vec![],
            Op::RegisterOperator { .. } => vec![sw(who[0]), w(a(OPERATOR, Some(&who[0]), None)), r(sys)],
            Op::ConfirmOperation { id } => vec![s(who[0]), w(a(WARDEN, None, Some(*id)))],
            Op::OpenStats { year } => {
                vec![r(who[0]), sw(who[1]), w(a(STATS, Some(&who[0]), Some(*year as u32))), r(sys)]
            }
            Op::Track { year, .. } => vec![
                r(who[0]),
                w(a(STATS, Some(&who[0]), Some(*year as u32))),
                r(solana_program::sysvar::instructions::ID),
            ],
            Op::Propose { id, proposal } => vec![
                sw(who[0]),
                w(a(PROPOSAL_ACC, None, Some(*id))),
                w(a(PROPOSALS, None, None)),
                w(a(TARGET_MAP, Some(&key_at(proposal, 41)), None)),
                r(who[1]),
                r(sys),
            ],
            Op::AddAttester { id, attester } => vec![
                sw(who[0]),
                w(a(ATTESTER_MAP, Some(attester), None)),
                w(a(WARDEN, None, Some(*id))),
                r(sys),
            ],
            Op::RevokeAttester { id } => vec![
                sw(who[0]),
                r(who[1]),
                w(a(ATTESTER_MAP, Some(&who[1]), None)),
                w(a(WARDEN, None, Some(*id))),
                r(sys),
            ],
            Op::Attest { attester_id, id, .. } => vec![
                s(who[0]),
                r(a(WARDEN, None, Some(*attester_id))),
                w(a(WARDEN, None, Some(*id))),
                w(a(BASIC_NET, None, None)),
            ],
            Op::Close => vec![s(who[0]), w(who[1]), w(who[2]), r(sys)],
        };
        Instruction { program_id: ID, accounts, data: self.data() }
    }

    pub fn parse(d: &[u8]) -> Option<Op> {
        let mut r = Rd(d);
        Some(match r.u8()? {
            0 => Op::Init,
            1 => Op::Register { id: r.u32()?, cfg: r.cfg()? },
            2 => Op::State { id: r.u32()?, active: r.bool()? },
            3 => Op::Lut { id: r.u32()? },
            4 => Op::Start { id: r.u32()?, quote: r.take(HALF)? },
            5 => Op::Complete { id: r.u32()?, quote: r.take(HALF)? },
            6 => Op::Confirm { id: r.u32()?, msg: r.take(32)? },
            7 => Op::CompleteNetwork,
            8 => Op::RegisterOperator {
                ident: r.take(264)?,
                url: r.take(264)?,
                jur: match r.u8()? {
                    0 => None,
                    1 => Some(r.u16()?),
                    _ => return None,
                },
            },
            9 => Op::ConfirmOperation { id: r.u32()? },
            10 => Op::OpenStats { year: r.u16()? },
            11 => Op::Track { year: r.u16()?, can_fail: r.bool()? },
            12 => Op::Propose {
                id: r.u32()?,
                proposal: {
                    let mut p = r.take(32)?;
                    p.push(r.enumv(2)?);
                    p.extend(r.take(8 + 32)?);
                    p.push(r.enumv(3)?);
                    p.extend(r.opt(2)?);
                    p.extend(r.take(520)?);
                    p
                },
            },
            13 => Op::AddAttester { id: r.u32()?, attester: Pubkey::new(&r.take(32)?) },
            14 => Op::RevokeAttester { id: r.u32()? },
            15 => Op::Attest {
                attester_id: r.u32()?,
                id: r.u32()?,
                member: r.u32()?,
                asn: match r.u8()? {
                    0 => None,
                    1 => Some(r.u32()?),
                    _ => return None,
                },
                tz: r.take(23)?,
                region: r.enumv(7)?,
                proxy: r.bool()?,
            },
            16 => Op::Close,
            _ => return None,
        })
    }
}

struct Rd<'a>(&'a [u8]);

impl Rd<'_> {
    fn take(&mut self, n: usize) -> Option<Vec<u8>> {
        let v = self.0.get(..n)?.to_vec();
        self.0 = &self.0[n..];
        Some(v)
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    fn u16(&mut self) -> Option<u16> {
        Some(u16_at(&self.take(2)?, 0))
    }
    fn u32(&mut self) -> Option<u32> {
        Some(u32_at(&self.take(4)?, 0))
    }
    fn bool(&mut self) -> Option<bool> {
        Some(self.enumv(2)? == 1)
    }
    fn enumv(&mut self, n: u8) -> Option<u8> {
        self.u8().filter(|v| *v < n)
    }
    /// A fixed-size option
    fn opt(&mut self, n: usize) -> Option<Vec<u8>> {
        let mut v = self.take(n + 1)?;
        if v[0] == 0 {
            v[1..].fill(0)
        } else {
            v[0] = 1
        }
        Some(v)
    }
    fn cfg(&mut self) -> Option<Vec<u8>> {
        let mut c = self.take(264 + 32)?;
        c.extend(self.opt(32)?);
        c.extend(self.take(6)?);
        c.push(self.enumv(3)?);
        c.push(self.enumv(2)?);
        c.extend(self.take(2 + 23)?);
        c.push(self.enumv(7)?);
        c.extend(self.take(6 + 264)?);
        for _ in 0..5 + TOKEN_COUNT {
            c.push(self.enumv(2)?);
        }
        Some(c)
    }
}
