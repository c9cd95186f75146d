//! Wardens, operators, attesters, strangers and the network between them and the ledger.

use crate::model::*;
use crate::proto::*;
use elusiv_types::TOKENS;
use simkit::driver::{Report, World};
use simkit::ledger::{Account, Fail, Ledger, Tx};
use simkit::rng::{mix, Rng};
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program::invoke;
use solana_program::program_error::ProgramError;
use solana_program::program_option::COption;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use solana_program::{system_instruction, system_program, sysvar};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// Weights of what happens
#[derive(Clone, Copy)]
pub struct Cfg {
    pub register: u64,
    pub update: u64,
    pub genesis: u64,
    pub operators: u64,
    pub stats: u64,
    pub proposals: u64,
    pub attesters: u64,
    pub env: u64,
    pub wardens: usize,
    /// The program is initialised, the actors are registered
    pub init: bool,
    pub registered: bool,
    pub crowd: bool,
}
pub const ALL: Cfg = Cfg {
    register: 12,
    update: 12,
    genesis: 18,
    operators: 8,
    stats: 22,
    proposals: 10,
    attesters: 8,
    env: 6,
    wardens: 9,
    init: true,
    registered: false,
    crowd: false,
};

fn evil_program(_: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    for ix in decode(data) {
        invoke(&ix, accounts)?;
    }
    Ok(())
}
fn elusiv_stub(_: &Pubkey, _: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if data.get(1) == Some(&0xEE) {
        return Err(ProgramError::Custom(1));
    }
    Ok(())
}
fn foreign_program(_: &Pubkey, _: &[AccountInfo], _: &[u8]) -> ProgramResult {
    Ok(())
}

/// What happened, kept apart from the accounts
#[derive(Clone, Default)]
pub struct History {
    pub base: u32,
    pub ids: Vec<Pubkey>,
    pub counts: BTreeMap<(Pubkey, u16, usize), u32>,
    pub proposals: Vec<(Pubkey, u64)>,
    pub applicants: Vec<u32>,
    pub confirmed: BTreeSet<u32>,
    /// is_active with the time of its last change
    pub active: BTreeMap<u32, (bool, u64)>,
    pub operators: BTreeMap<u32, Pubkey>,
}

pub struct Net {
    pub l: Ledger,
    pub rep: Report,
    pub cfg: Cfg,
    pub h: History,
    wardens: Vec<Pubkey>,
    operators: Vec<Pubkey>,
    strangers: Vec<Pubkey>,
    exchange: Vec<Pubkey>,
    mints: BTreeMap<usize, Option<Pubkey>>,
    pending: Vec<(Tx, u64)>,
    old: Vec<Tx>,
    snaps: Vec<(Ledger, History)>,
    /// Every account the program has ever owned in the model
    edits: u64,
    steps: u64,
    dead: bool,
    edited_stats: BTreeSet<Pubkey>,
    edited_proposals: bool,
}

const ERA: i64 = 1_670_000_000;

pub fn make(seed: u64, cfg: Cfg) -> Net {
    let mut rng = Rng::new(mix(&[seed, 0xA11CE]));
    let mut l = Ledger::new();
    l.strict = true;
    l.zero_wallet = true;
    l.add_program(ID, |p, a, d| elusiv_warden_network::process_instruction(p, a, d));
    l.add_program(elusiv_id(), elusiv_stub);
    l.add_program(evil(), evil_program);
    l.add_program(foreign(), foreign_program);
    // the authority of the attesters is a placeholder in this version; the simulation lets somebody hold it
    l.accts.insert(
        system_program::ID,
        Account { lamports: 1 << 50, data: Arc::new(vec![]), owner: system_program::ID, executable: false },
    );
    let ks = |ns: u64, n: usize| (0..n as u64).map(|i| key(ns, i)).collect::<Vec<_>>();
    let wardens = ks(0x3A2D, cfg.wardens);
    let operators = ks(0x09E2, 3);
    let strangers = ks(0x57A, 2);
    let exchange = ks(0xE5C, cfg.wardens);
    for k in wardens.iter().chain(&operators).chain(&strangers).chain(&exchange) {
        l.airdrop(k, 1 << 50);
    }
    let mut mints = BTreeMap::new();
    for t in 1..TOKEN_COUNT.min(4) {
        let who = match t {
            1 => Some(wardens[0]),
            2 => Some(strangers[0]),
            _ => None,
        };
        let m = spl_token::state::Mint {
            mint_authority: COption::None,
            supply: 1 << 40,
            decimals: TOKENS[t].decimals,
            is_initialized: true,
            freeze_authority: who.map_or(COption::None, COption::Some),
        };
        let mut d = vec![0u8; spl_token::state::Mint::LEN];
        m.pack_into_slice(&mut d);
        l.set(TOKENS[t].mint, rent(d.len()), d, spl_token::ID);
        mints.insert(t, who);
    }
    // a mint nobody knows, frozen by a stranger
    let m = spl_token::state::Mint {
        mint_authority: COption::None,
        supply: 1,
        decimals: 6,
        is_initialized: true,
        freeze_authority: COption::Some(strangers[1]),
    };
    let mut d = vec![0u8; spl_token::state::Mint::LEN];
    m.pack_into_slice(&mut d);
    l.set(key(0x3147, 0), rent(d.len()), d, spl_token::ID);
    l.clock.unix_timestamp = ERA + rng.below(86_400 * 1500) as i64;
    let mut n = Net {
        l,
        rep: Report::default(),
        cfg,
        h: History::default(),
        wardens,
        operators,
        strangers,
        exchange,
        mints,
        pending: vec![],
        old: vec![],
        snaps: vec![],
        edits: 0,
        steps: 0,
        dead: false,
        edited_stats: BTreeSet::new(),
        edited_proposals: false,
    };
    if cfg.init {
        let p = n.strangers[0];
        n.exec(&Tx::full(vec![Op::Init.ix(&[p])], p), "genesis");
        if cfg.crowd {
            // as many registrations as it takes came before
            let many = MEMBERS as u32 - rng.below(4) as u32;
            let mut d = (*n.l.data(&addr(BASIC_NET, None, None))).clone();
            d[H..H + 4].copy_from_slice(&many.to_le_bytes());
            for i in 0..many as usize {
                d[N_MEMBERS + 4 * i..N_MEMBERS + 4 * i + 4].copy_from_slice(&(i as u32).to_le_bytes());
                d[N_REGION + i] = rng.below(7) as u8;
                d[N_FEATURES + 3 * i] = 1;
            }
            n.set_data(addr(BASIC_NET, None, None), d);
            let mut d = (*n.l.data(&addr(WARDENS, None, None))).clone();
            d[H..H + 4].copy_from_slice(&many.to_le_bytes());
            n.set_data(addr(WARDENS, None, None), d);
            n.h.base = many;
        }
        if cfg.registered {
            let mut order: Vec<usize> = (0..n.wardens.len()).collect();
            rng.shuffle(&mut order);
            for i in order {
                let op = n.registration(n.wardens[i], n.next_id(), &mut rng, true);
                let who = n.wardens[i];
                n.exec(&Tx::full(vec![op.ix(&[who])], who), "genesis");
            }
        }
    }
    n
}

impl Net {
    fn set_data(&mut self, k: Pubkey, d: Vec<u8>) {
        let a = self.l.get(&k);
        self.l.set(k, a.lamports, d, a.owner);
    }
    fn rec(&self, t: Ty, pk: Option<&Pubkey>, off: Option<u32>) -> Option<Vec<u8>> {
        let a = self.l.get(&addr(t, pk, off));
        (a.owner == ID && a.data.len() == t.1).then(|| (*a.data).clone())
    }
    fn next_id(&self) -> u32 {
        self.rec(WARDENS, None, None).map_or(0, |d| u32_at(&d, H))
    }
    fn id_of(&self, w: &Pubkey) -> Option<u32> {
        self.rec(MAP, Some(w), None).map(|d| u32_at(&d, H))
    }
    fn year(&self) -> u16 {
        calendar(self.l.clock.unix_timestamp).map_or(2023, |c| c.1 as u16)
    }
    fn actor(&self, rng: &mut Rng) -> Pubkey {
        match rng.below(10) {
            0 => *rng.pick(&self.operators),
            1 | 2 => *rng.pick(&self.strangers),
            3 => *rng.pick(&self.exchange),
            _ => *rng.pick(&self.wardens),
        }
    }

    fn bytes(rng: &mut Rng, n: usize) -> Vec<u8> {
        (0..n).map(|_| rng.u64() as u8).collect()
    }
    fn string(rng: &mut Rng, max: usize) -> Vec<u8> {
        let len = match rng.below(6) {
            0 => 0,
            1 => max,
            2 => max + 1,
            _ => rng.idx(max),
        };
        let mut d = (len as u64).to_le_bytes().to_vec();
        let mut s = Self::bytes(rng, max);
        for b in s.iter_mut().skip(len) {
            *b = 0
        }
        d.extend(s);
        d
    }
    fn tz(rng: &mut Rng) -> Vec<u8> {
        let mut d = vec![rng.below(12) as u8];
        let mut s = Self::string(rng, 14);
        if rng.pct(60) {
            s = vec![0; 22];
            s[0] = 1;
            s[8] = b'A' + rng.below(3) as u8;
        }
        d.extend(s);
        d
    }

    fn registration(&self, w: Pubkey, id: u32, rng: &mut Rng, plain: bool) -> Op {
        let mut c = Self::string(rng, 256);
        c.extend(w.to_bytes());
        let op = match rng.below(3) {
            0 => None,
            1 => Some(*rng.pick(&self.operators)),
            _ => Some(self.actor(rng)),
        };
        c.push(op.is_some() as u8);
        c.extend(op.unwrap_or_default().to_bytes());
        c.extend(Self::bytes(rng, 6));
        c.push(rng.below(3) as u8);
        c.push(rng.below(2) as u8);
        c.extend(Self::bytes(rng, 2));
        c.extend(Self::tz(rng));
        c.push(rng.below(7) as u8);
        c.extend(Self::bytes(rng, 6));
        c.extend(Self::string(rng, 256));
        c.push(rng.below(2) as u8);
        c.push((!plain && rng.pct(12)) as u8);
        for _ in 0..3 + TOKEN_COUNT {
            c.push(rng.below(2) as u8);
        }
        assert_eq!(c.len(), CFG);
        Op::Register { id, cfg: c }
    }

    // ------------------------------------------------------------ actors

    fn act(&mut self, rng: &mut Rng) -> Option<(Vec<Instruction>, Pubkey)> {
        let c = self.cfg;
        let w = [c.register, c.update, c.genesis, c.operators, c.stats, c.proposals, c.attesters, 1];
        Some(match rng.weighted(&w) {
            0 => {
                if !self.l.exists(&addr(WARDENS, None, None)) && rng.pct(60) || rng.one_in(25) {
                    let p = self.actor(rng);
                    return Some((vec![Op::Init.ix(&[p])], p));
                }
                let fresh: Vec<Pubkey> = self.wardens.iter().filter(|w| self.id_of(w).is_none()).copied().collect();
                let who = if fresh.is_empty() || rng.pct(20) { self.actor(rng) } else { *rng.pick(&fresh) };
                let id = match rng.below(12) {
                    0 => self.next_id().wrapping_add(1),
                    1 => self.next_id().wrapping_sub(1),
                    2 => rng.u64() as u32,
                    _ => self.next_id(),
                };
                let mut op = self.registration(who, id, rng, false);
                let mut own = false;
                if let (Op::Register { cfg, .. }, 0) = (&mut op, rng.below(25)) {
                    let other = self.actor(rng);
                    cfg[C_KEY..C_KEY + 32].copy_from_slice(&other.to_bytes());
                    if rng.pct(30) {
                        cfg[C_OPERATOR] = 1;
                        cfg[C_OPERATOR + 1..C_OPERATOR + 33].copy_from_slice(&who.to_bytes());
                    }
                    own = rng.pct(60);
                }
                let mut v = vec![op.ix(&[who])];
                if own {
                    // with the accounts of whoever signs
                    v[0].accounts[2].pubkey = addr(MAP, Some(&who), None);
                }
                // competing registrations in one transaction
                if rng.pct(10) {
                    let other = self.actor(rng);
                    let id2 = if rng.pct(70) { id.wrapping_add(1) } else { id };
                    v.push(self.registration(other, id2, rng, false).ix(&[other]));
                }
                (v, who)
            }
            1 => {
                let owner = *rng.pick(&self.wardens);
                let id = self.id_of(&owner).unwrap_or(0);
                let who = if rng.pct(75) { owner } else { self.actor(rng) };
                let mut v = vec![];
                for _ in 0..rng.range(1, 3) {
                    let lut = match rng.below(4) {
                        0 => who,
                        1 => addr(WARDEN, None, Some(id)),
                        _ => key(0x107, rng.below(5)),
                    };
                    v.push(if rng.pct(60) {
                        Op::State { id, active: rng.pct(50) }.ix(&[who])
                    } else {
                        Op::Lut { id }.ix(&[who, lut])
                    });
                }
                (v, who)
            }
            2 => self.genesis(rng),
            3 => {
                if rng.pct(35) {
                    let who = if rng.pct(80) { *rng.pick(&self.operators) } else { self.actor(rng) };
                    let jur = if rng.pct(50) { Some(rng.u64() as u16) } else { None };
                    let op = Op::RegisterOperator { ident: Self::string(rng, 256), url: Self::string(rng, 256), jur };
                    (vec![op.ix(&[who])], who)
                } else {
                    let owner = *rng.pick(&self.wardens);
                    let id = self.id_of(&owner).unwrap_or(0);
                    let named = self.rec(WARDEN, None, Some(id)).filter(|d| d[H + C_OPERATOR] == 1).map(|d| key_at(&d, H + C_OPERATOR + 1));
                    let who = match named {
                        Some(k) if rng.pct(60) => k,
                        _ => self.actor(rng),
                    };
                    (vec![Op::ConfirmOperation { id }.ix(&[who])], who)
                }
            }
            4 => self.tracking(rng),
            5 => self.proposal(rng),
            6 => self.attesting(rng),
            _ => {
                let who = self.actor(rng);
                let victim = *rng.pick(&[
                    addr(WARDENS, None, None),
                    addr(APA_NET, None, None),
                    addr(WARDEN, None, Some(0)),
                    addr(PROPOSALS, None, None),
                ]);
                let op = if rng.pct(70) { Op::Close.ix(&[who, who, victim]) } else { Op::CompleteNetwork.ix(&[]) };
                (vec![op], who)
            }
        })
    }

    fn genesis(&mut self, rng: &mut Rng) -> (Vec<Instruction>, Pubkey) {
        let i = rng.idx(self.wardens.len());
        let w = self.wardens[i];
        let own = self.id_of(&w).unwrap_or(0);
        let id = if rng.pct(92) { own } else { rng.below(10) as u32 };
        let who = if rng.pct(94) { w } else { self.actor(rng) };
        let net = self.rec(APA_NET, None, None);
        let part = |serial: u64| {
            let mut r = Rng::new(mix(&[0x900E, own as u64, serial]));
            Self::bytes(&mut r, HALF)
        };
        let phase = net.as_ref().map_or(true, |n| applying(n));
        let pick = if phase { rng.weighted(&[45, 45, 10]) } else { rng.weighted(&[6, 8, 86]) };
        let start = |x: u64| {
            let mut q = part(x);
            q[400..432].copy_from_slice(&self.exchange[i].to_bytes());
            Op::Start { id, quote: q }
        };
        match pick {
            0 => {
                let mut v = vec![start(0).ix(&[who])];
                if rng.pct(20) {
                    v.push(Op::Complete { id, quote: part(9) }.ix(&[who]));
                }
                (v, who)
            }
            1 => (vec![Op::Complete { id, quote: part(1 + rng.below(3)) }.ix(&[who])], who),
            _ => {
                let mut msg = net.map_or(vec![0; 32], |n| message(&n).to_vec());
                if rng.pct(12) {
                    let x = rng.idx(32);
                    msg[x] ^= 1 << rng.below(8);
                }
                let signer = if rng.pct(85) { self.exchange[i] } else { self.actor(rng) };
                (vec![Op::Confirm { id, msg }.ix(&[signer])], signer)
            }
        }
    }

    /// Calls, in another program's instruction, of the instructions
    fn through(&self, inner: Vec<Instruction>) -> Instruction {
        let mut f: Flags = BTreeMap::new();
        for ix in &inner {
            for m in &ix.accounts {
                let e = f.entry(m.pubkey).or_insert((false, false));
                e.0 |= m.is_signer;
                e.1 |= m.is_writable;
            }
            f.entry(ix.program_id).or_insert((false, false));
        }
        let accounts = f.iter().map(|(k, (s, w))| AccountMeta { pubkey: *k, is_signer: *s, is_writable: *w }).collect();
        Instruction { program_id: evil(), accounts, data: encode(&inner) }
    }

    fn tracking(&mut self, rng: &mut Rng) -> (Vec<Instruction>, Pubkey) {
        let w = if rng.pct(90) { *rng.pick(&self.wardens[..3]) } else { self.actor(rng) };
        let now = self.year();
        let year = match rng.below(20) {
            0 => now + 1,
            1 => now.wrapping_sub(1),
            2 => *rng.pick(&[0, 1970, 1999, 2000, 2099, 2100, u16::MAX]),
            _ => now,
        };
        let payer = if rng.pct(70) { w } else { self.actor(rng) };
        if self.rec(STATS, Some(&w), Some(year as u32)).is_none() && rng.pct(60) || rng.pct(8) {
            return (vec![Op::OpenStats { year }.ix(&[w, payer])], payer);
        }
        let can_fail = rng.pct(50);
        let track = Op::Track { year, can_fail }.ix(&[w]);
        let tag = *rng.pick(&[2u8, 2, 2, 13, 13, 13, 14, 14, 14, 0, 1, 3, 8, 11, 12, 15, 16, 200]);
        let operation = |rng: &mut Rng, pos: usize, who: Pubkey| {
            let accounts = (0..6)
                .map(|i| {
                    let k = if i == pos { who } else { key(0xACC, rng.below(30)) };
                    AccountMeta::new_readonly(k, false)
                })
                .collect();
            let second = if rng.one_in(15) { 0xEE } else { rng.below(4) as u8 };
            Instruction { program_id: elusiv_id(), accounts, data: vec![tag, second, 0, 0, 0] }
        };
        let noise = Instruction { program_id: foreign(), accounts: vec![], data: vec![rng.below(20) as u8; 5] };
        let mut v = vec![];
        if rng.pct(10) {
            v.push(noise.clone());
        }
        match rng.below(20) {
            0 => {
                // before the operation
                v.push(track);
                v.push(operation(rng, 0, w));
            }
            1 => {
                // not directly after
                v.push(operation(rng, 0, w));
                v.push(noise);
                v.push(track);
            }
            2 => {
                // several times
                v.push(operation(rng, 0, w));
                v.push(track.clone());
                v.push(track);
            }
            3 => {
                // somebody else's
                let other = self.actor(rng);
                v.push(operation(rng, 0, other));
                v.push(track);
            }
            4 => {
                // named at another position
                let pos = rng.range(1, 5) as usize;
                v.push(operation(rng, pos, w));
                v.push(track);
            }
            5 => {
                // another program's instruction looking alike
                let mut o = operation(rng, 0, w);
                o.program_id = *rng.pick(&[foreign(), ID, foreign()]);
                if o.program_id == ID {
                    let id = self.id_of(&w).unwrap_or(0);
                    o = Op::State { id, active: rng.pct(50) }.ix(&[w]);
                }
                v.push(o);
                v.push(track);
            }
            6 => {
                // counted from another program
                v.push(operation(rng, 0, w));
                let n = rng.range(1, 3) as usize;
                v.push(self.through(vec![track; n]));
            }
            7 => {
                // the operation itself from another program
                let o = operation(rng, 0, w);
                v.push(self.through(vec![o]));
                v.push(track);
            }
            8 => {
                let o = operation(rng, 0, w);
                v.push(self.through(vec![o, track]));
            }
            9 => v.push(track),
            10 => {
                // for two wardens
                let other = *rng.pick(&self.wardens[..3]);
                v.push(operation(rng, 0, w));
                v.push(track);
                v.push(operation(rng, 0, other));
                v.push(Op::Track { year, can_fail }.ix(&[other]));
            }
            11 => {
                let other = *rng.pick(&self.wardens[..3]);
                v.push(operation(rng, 0, w));
                v.push(track);
                v.push(Op::Track { year, can_fail }.ix(&[other]));
            }
            12 => {
                let mut o = operation(rng, 0, w);
                if rng.pct(50) {
                    o.data.clear();
                } else {
                    o.accounts.clear();
                }
                v.push(o);
                v.push(track);
            }
            _ => {
                for _ in 0..rng.range(1, 2) {
                    v.push(operation(rng, 0, w));
                    v.push(track.clone());
                }
            }
        }
        (v, payer)
    }

    fn proposal(&mut self, rng: &mut Rng) -> (Vec<Instruction>, Pubkey) {
        let next = self.rec(PROPOSALS, None, None).map_or(0, |d| u32_at(&d, H));
        let id = match rng.below(12) {
            0 => next.wrapping_add(1),
            1 => next.wrapping_sub(1),
            2 => rng.u64() as u32,
            _ => next,
        };
        let token = match rng.below(8) {
            0 => None,
            1 => Some(0),
            2 => Some(*rng.pick(&[TOKEN_COUNT as u16, u16::MAX, TOKEN_COUNT as u16 - 1])),
            _ => Some(rng.range(1, 3) as u16),
        };
        let role = rng.pct(65) as u8;
        let who = match token.and_then(|t| self.mints.get(&(t as usize)).copied().flatten()) {
            Some(k) if rng.pct(65) => k,
            _ => {
                if rng.pct(20) {
                    self.strangers[1]
                } else {
                    self.actor(rng)
                }
            }
        };
        let mint = match token {
            Some(t) if (t as usize) < TOKEN_COUNT && rng.pct(88) => TOKENS[t as usize].mint,
            _ => *rng.pick(&[key(0x3147, 0), TOKENS[1].mint, TOKENS[2].mint, who]),
        };
        let mut p = self.actor(rng).to_bytes().to_vec();
        p.push(role);
        p.extend(rng.u64().to_le_bytes());
        p.extend(key(0x7A26, rng.below(4)).to_bytes());
        p.push(rng.below(3) as u8);
        p.push(token.is_some() as u8);
        p.extend(token.unwrap_or(0).to_le_bytes());
        p.extend(Self::string(rng, 512));
        let mut v = vec![Op::Propose { id, proposal: p.clone() }.ix(&[who, mint])];
        if rng.pct(8) {
            let id2 = if rng.pct(50) { id.wrapping_add(1) } else { id };
            v.push(Op::Propose { id: id2, proposal: p }.ix(&[who, mint]));
        }
        (v, who)
    }

    fn attesting(&mut self, rng: &mut Rng) -> (Vec<Instruction>, Pubkey) {
        let a = *rng.pick(&self.wardens);
        let aid = self.id_of(&a).unwrap_or(0);
        let authority = if rng.pct(70) { ATTESTER_AUTHORITY } else { self.actor(rng) };
        match rng.below(10) {
            0..=2 => {
                let id = if rng.pct(80) { aid } else { rng.below(12) as u32 };
                (vec![Op::AddAttester { id, attester: a }.ix(&[authority])], authority)
            }
            3 => (vec![Op::RevokeAttester { id: aid }.ix(&[authority, a])], authority),
            _ => {
                // an attester if there is one
                let mut who = a;
                let mut attester_id = aid;
                if rng.pct(75) {
                    for w in &self.wardens {
                        if let Some(i) = self.id_of(w) {
                            if self.rec(WARDEN, None, Some(i)).map_or(false, |d| d[H + C_ATTEST] == 1) {
                                who = *w;
                                attester_id = i;
                                break;
                            }
                        }
                    }
                }
                if rng.pct(10) {
                    who = self.actor(rng);
                }
                let target = *rng.pick(&self.wardens);
                let id = self.id_of(&target).unwrap_or(1);
                let member = match rng.below(10) {
                    0 => rng.below(520) as u32,
                    1 => u32::MAX,
                    _ => id,
                };
                let rec = self.rec(WARDEN, None, Some(id));
                let same = rec.is_some() && rng.pct(40);
                let (tz, region, proxy) = match (&rec, same) {
                    (Some(d), true) => (d[H + C_TZ..H + C_TZ + 23].to_vec(), d[H + C_REGION], d[H + C_PROXY] == 1),
                    _ => (Self::tz(rng), rng.below(7) as u8, rng.pct(50)),
                };
                let (mut tz, mut region, mut proxy) = (tz, region, proxy);
                if same && rng.pct(50) {
                    // one thing differs
                    match rng.below(3) {
                        0 => tz[0] ^= 1,
                        1 => region = (region + 1) % 7,
                        _ => proxy = !proxy,
                    }
                }
                let asn = if rng.pct(60) { Some(rng.u64() as u32) } else { None };
                (vec![Op::Attest { attester_id, id, member, asn, tz, region, proxy }.ix(&[who])], who)
            }
        }
    }

    // ------------------------------------------------------------ faults

    fn perturb(&mut self, tx: &mut Tx, rng: &mut Rng) {
        let i = rng.idx(tx.ixs.len());
        let pool = self.pool(rng);
        let someone = self.actor(rng);
        let ix = &mut tx.ixs[i];
        if ix.accounts.is_empty() || ix.program_id == evil() {
            return;
        }
        let j = rng.idx(ix.accounts.len());
        match rng.below(9) {
            0 => {
                self.rep.fault("signature left out");
                let k = ix.accounts[j].pubkey;
                let all: Vec<Pubkey> = ix.accounts.iter().filter(|m| m.is_writable).map(|m| m.pubkey).collect();
                if rng.pct(40) {
                    // nobody would have to pay for the records the instruction makes
                    self.prefund_all(&all);
                }
                for ix in tx.ixs.iter_mut() {
                    for m in ix.accounts.iter_mut().filter(|m| m.pubkey == k) {
                        m.is_signer = false;
                    }
                }
                if tx.payer == k {
                    tx.payer = self.strangers[0];
                }
                tx.signers = Tx::full(tx.ixs.clone(), tx.payer).signers;
            }
            1 => {
                self.rep.fault("account substituted");
                ix.accounts[j].pubkey = pool;
            }
            2 => {
                self.rep.fault("accounts swapped");
                let k = rng.idx(ix.accounts.len());
                let (a, b) = (ix.accounts[j].pubkey, ix.accounts[k].pubkey);
                ix.accounts[j].pubkey = b;
                ix.accounts[k].pubkey = a;
            }
            3 => {
                self.rep.fault("account read-only");
                let k = ix.accounts[j].pubkey;
                for ix in tx.ixs.iter_mut() {
                    for m in ix.accounts.iter_mut().filter(|m| m.pubkey == k) {
                        m.is_writable = false;
                    }
                }
            }
            4 => {
                self.rep.fault("account missing");
                ix.accounts.truncate(j);
            }
            5 => {
                self.rep.fault("data changed");
                if ix.data.len() > 1 {
                    let x = if rng.pct(50) { rng.range(1, 12.min(ix.data.len() as u64 - 1)) as usize } else { rng.idx(ix.data.len()) };
                    ix.data[x] = rng.u64() as u8;
                }
            }
            // the data says something else than the accounts
            6 => {
                let like: Vec<&Instruction> =
                    self.old.iter().flat_map(|t| t.ixs.iter()).filter(|x| x.program_id == ix.program_id && x.data.get(0) == ix.data.get(0)).collect();
                if !like.is_empty() {
                    self.rep.fault("data of another instruction");
                    ix.data = like[rng.idx(like.len())].data.clone();
                }
            }
            7 => {
                self.rep.fault("number or key in the data changed");
                if ix.data.get(0) == Some(&1) && rng.pct(60) {
                    if ix.data.len() >= 5 + C_KEY + 32 {
                        ix.data[5 + C_KEY..5 + C_KEY + 32].copy_from_slice(&someone.to_bytes());
                    }
                } else if ix.data.len() >= 5 {
                    let n = u32::from_le_bytes(ix.data[1..5].try_into().unwrap());
                    let m = if rng.pct(50) { rng.below(8) as u32 } else { n.wrapping_add(*rng.pick(&[1, u32::MAX])) };
                    ix.data[1..5].copy_from_slice(&m.to_le_bytes());
                }
            }
            _ => {
                self.rep.fault("data cut or extended");
                if rng.pct(50) {
                    let n = rng.idx(ix.data.len());
                    ix.data.truncate(n);
                } else {
                    ix.data.extend([7; 9]);
                }
            }
        }
        // whoever has to sign does, unless left out on purpose
        let need = Tx::full(tx.ixs.clone(), tx.payer).signers;
        let can: BTreeSet<Pubkey> = self.people();
        tx.signers = need.into_iter().filter(|k| can.contains(k)).collect();
    }

    fn people(&self) -> BTreeSet<Pubkey> {
        let mut p: BTreeSet<Pubkey> = self.wardens.iter().chain(&self.operators).chain(&self.strangers).chain(&self.exchange).copied().collect();
        p.insert(ATTESTER_AUTHORITY);
        p
    }

    fn pool(&self, rng: &mut Rng) -> Pubkey {
        let w = *rng.pick(&self.wardens);
        let id = rng.below(8) as u32;
        match rng.below(16) {
            0 => addr(WARDEN, None, Some(id)),
            1 => addr(MAP, Some(&w), None),
            2 => addr(APA_WARDEN, None, Some(id)),
            3 => addr(STATS, Some(&w), Some(self.year() as u32)),
            4 => addr(WARDENS, None, None),
            5 => addr(BASIC_NET, None, None),
            6 => addr(APA_NET, None, None),
            7 => addr(PROPOSALS, None, None),
            8 => addr(PROPOSAL_ACC, None, Some(id)),
            9 => addr(TARGET_MAP, Some(&key(0x7A26, rng.below(4))), None),
            10 => sysvar::instructions::ID,
            11 => key(0xFA4E, rng.below(6)),
            12 => addr(OPERATOR, Some(rng.pick(&self.operators)), None),
            _ => self.actor(rng),
        }
    }

    /// A look-alike of a record, written by another program
    fn forge(&mut self, rng: &mut Rng) {
        let w = *rng.pick(&self.wardens);
        let (a, b) = (rng.below(6) as u32, rng.below(3));
        let src = *rng.pick(&[
            addr(WARDEN, None, Some(a)),
            addr(MAP, Some(&w), None),
            addr(APA_NET, None, None),
            addr(WARDENS, None, None),
            addr(STATS, Some(&w), Some(self.year() as u32)),
        ]);
        let acc = self.l.get(&src);
        if acc.data.is_empty() {
            return;
        }
        let mut d = (*acc.data).clone();
        if rng.pct(60) {
            let x = rng.idx(d.len());
            d[x] ^= 1;
        }
        let owner = if b == 0 { foreign() } else { evil() };
        self.l.set(key(0xFA4E, rng.below(6)), rent(d.len()), d, owner);
        self.rep.fault("forged record");
    }

    fn env(&mut self, rng: &mut Rng) {
        let t = &mut self.l.clock.unix_timestamp;
        match rng.below(13) {
            0 | 1 => *t += rng.below(86_400) as i64,
            2 => *t += rng.below(40 * 86_400) as i64,
            3 => {
                self.rep.fault("clock jump");
                *t += rng.below(400 * 86_400) as i64;
            }
            4 => {
                self.rep.fault("clock set back");
                *t -= rng.below(86_400 * 3) as i64;
            }
            5..=7 => {
                // around the turn of a year, of a leap year, the leap day
                self.rep.fault("clock at a border");
                let y = if rng.pct(80) { rng.range(2022, 2032) } else { *rng.pick(&[2000, 2001, 2004, 2096, 2099, 2100, 1999]) } as i64;
                let mut d = 0;
                for k in 1970..y {
                    d += 365 + ((k % 4 == 0 && k % 100 != 0) || k % 400 == 0) as i64;
                }
                let base = d * 86_400;
                *t = match rng.below(5) {
                    0 => base - 1,
                    1 => base,
                    2 => base - 86_400,
                    3 => base + 59 * 86_400 + rng.below(86_400) as i64,
                    _ => base - 1 - rng.below(2 * 86_400) as i64,
                };
            }
            8 => {
                self.rep.fault("clock out of range");
                *t = *rng.pick(&[0, -1, 1 << 40, 4_102_444_800, 4_102_444_799, 946_684_799, i64::MAX]);
            }
            9 => *t = ERA + rng.below(86_400 * 1500) as i64,
            10 => {
                // rollback to an earlier state: a fork that died
                if !self.snaps.is_empty() && rng.pct(40) {
                    self.rep.fault("rollback");
                    let i = rng.idx(self.snaps.len());
                    self.snaps.truncate(i + 1);
                    let (l, h) = self.snaps.last().unwrap();
                    let clock = self.l.clock.clone();
                    self.l = l.fork();
                    self.l.clock = clock;
                    self.h = h.clone();
                }
            }
            11 => {
                if self.snaps.len() < 6 {
                    self.snaps.push((self.l.fork(), self.h.clone()));
                }
            }
            _ => {
                if rng.pct(50) {
                    self.forge(rng)
                } else {
                    self.prefund(rng)
                }
            }
        }
        if self.l.clock.unix_timestamp > 5_000_000_000 || self.l.clock.unix_timestamp < 0 {
            // such times do not last
            if rng.pct(70) {
                self.l.clock.unix_timestamp = ERA + rng.below(86_400 * 1500) as i64;
            }
        }
        self.rep.sim_seconds += 1;
    }

    /// Lamports sent to an address before its record exists
    fn prefund(&mut self, rng: &mut Rng) {
        let w = *rng.pick(&self.wardens);
        let next = self.next_id();
        let year = self.year() as u32;
        let k = match rng.below(8) {
            0 => addr(WARDEN, None, Some(next)),
            1 => addr(MAP, Some(&w), None),
            2 => addr(APA_WARDEN, None, Some(rng.below(8) as u32)),
            3 => addr(STATS, Some(&w), Some(year)),
            4 => addr(PROPOSAL_ACC, None, Some(self.rec(PROPOSALS, None, None).map_or(0, |d| u32_at(&d, H)))),
            5 => addr(TARGET_MAP, Some(&key(0x7A26, rng.below(4))), None),
            6 => addr(OPERATOR, Some(rng.pick(&self.operators)), None),
            _ => addr(ATTESTER_MAP, Some(&w), None),
        };
        if ![ID].contains(&self.l.get(&k).owner) {
            self.rep.fault("address prefunded");
            let from = self.strangers[1];
            let n = if rng.pct(50) { rent(0) } else { rng.range(rent(0), 40_000_000) };
            self.exec(&Tx::full(vec![system_instruction::transfer(&from, &k, n)], from), "prefund");
        }
    }

    fn prefund_all(&mut self, keys: &[Pubkey]) {
        let from = self.strangers[1];
        for k in keys {
            if !self.l.exists(k) {
                self.rep.fault("address prefunded");
                self.exec(&Tx::full(vec![system_instruction::transfer(&from, k, 100_000_000)], from), "prefund");
            }
        }
    }

    /// Counters that decades of operations would have brought close to their end
    fn age(&mut self, rng: &mut Rng) {
        let w = *rng.pick(&self.wardens[..3]);
        let k = addr(STATS, Some(&w), Some(self.year() as u32));
        if self.l.get(&k).owner == ID {
            let mut d = (*self.l.data(&k)).clone();
            let o = H + 10 + STAT * rng.idx(3);
            let day = calendar(self.l.clock.unix_timestamp).map_or(0, |c| c.0);
            let p = if rng.pct(50) { o + 4 * day } else { o + 366 * 4 };
            d[p..p + 4].copy_from_slice(&(u32::MAX - rng.below(2) as u32).to_le_bytes());
            self.set_data(k, d);
            self.edited_stats.insert(k);
            self.rep.probe("aged counters");
        }
    }

    // ------------------------------------------------------------ execution and comparison

    pub fn exec(&mut self, tx: &Tx, why: &str) -> bool {
        let clock = self.l.clock.unix_timestamp;
        let r = self.l.execute(tx);
        self.rep.txs += 1;
        self.rep.ixs += tx.ixs.len() as u64;
        let names: Vec<String> = tx
            .ixs
            .iter()
            .map(|ix| match Op::parse(&ix.data) {
                Some(o) if ix.program_id == ID => match o {
                    Op::Register { id, .. } => format!("Register({id})"),
                    Op::Start { id, .. } => format!("Start({id})"),
                    Op::Complete { id, .. } => format!("Complete({id})"),
                    Op::Propose { id, .. } => format!("Propose({id})"),
                    o @ (Op::State { .. } | Op::Lut { .. } | Op::Track { .. } | Op::OpenStats { .. } | Op::Confirm { .. }) => format!("{o:?}").chars().take(60).collect(),
                    o => o.name().to_string(),
                },
                _ if ix.program_id == ID => "malformed".into(),
                _ if ix.program_id == elusiv_id() => format!("elusiv[{}]", ix.data.first().copied().unwrap_or(255)),
                _ if ix.program_id == evil() => "through another program".into(),
                _ => "other".into(),
            })
            .collect();
        self.rep.log(format!("{why} t={clock} {} -> {}", names.join("+"), match &r.res {
            Ok(()) => "ok".to_string(),
            Err(e) => e.text(),
        }));
        if let Err(Fail::Precheck(_)) = r.res {
            return false;
        }
        // operations of the transaction, also those called by the other program
        let mut ops: Vec<Op> = vec![];
        for ix in &tx.ixs {
            if ix.program_id == ID {
                ops.extend(Op::parse(&ix.data));
            } else if ix.program_id == evil() {
                ops.extend(decode(&ix.data).iter().filter(|i| i.program_id == ID).filter_map(|i| Op::parse(&i.data)));
            }
        }
        let mut props: BTreeSet<&'static str> = BTreeSet::new();
        for o in &ops {
            props.extend(o.props());
        }
        if props.is_empty() {
            props.extend(["C16", "C17", "C18"]);
        }
        let props: Vec<&'static str> = props.into_iter().collect();
        let last = ops.last().map_or("none", |o| o.name());

        let mut flags: Flags = BTreeMap::new();
        flags.insert(tx.payer, (true, true));
        for ix in &tx.ixs {
            for m in &ix.accounts {
                let e = flags.entry(m.pubkey).or_insert((false, false));
                e.0 |= m.is_signer;
                e.1 |= m.is_writable;
            }
            flags.entry(ix.program_id).or_insert((false, false));
        }
        flags.entry(sysvar::instructions::ID).and_modify(|f| f.1 = false);
        let mut m = Over::new(&r.pre, true);
        let mut want = Ok(());
        for (i, ix) in tx.ixs.iter().enumerate() {
            let call = Call { top: &tx.ixs, index: i, cpi: false, flags: &flags, now: clock };
            match m.ix(ix, &call) {
                Ok(()) => {}
                Err(No::May) => m.may_refuse = true,
                Err(e) => {
                    want = Err((e, i));
                    break;
                }
            }
        }
        for p in &props {
            self.rep.hit(p);
        }
        match (&r.res, want) {
            (Ok(()), Err((No::Must(w), i))) => {
                let name = tx.ixs.get(i).and_then(|x| if x.program_id == ID { Op::parse(&x.data).map(|o| o.name()) } else { None }).unwrap_or(last);
                self.rep.violate(&props, format!("accepted:{name}:{w}"), format!("{} was accepted although {w}", names.join("+")));
                self.dead = true;
            }
            (Ok(()), Err((No::May, _))) => unreachable!(),
            (Err(e), Ok(())) => {
                // a wallet left with less than its rent
                let poor = m.a.iter().any(|(_, a)| a.owner == system_program::ID && a.lamports > 0 && a.lamports < rent(a.data.len()));
                if !m.may_refuse && !poor {
                    self.rep.violate(&props, format!("refused:{last}"), format!("{} was refused: {}", names.join("+"), e.text()));
                    self.dead = true;
                }
                self.rep.probe(format!("refused {last} (allowed)"));
            }
            (Err(_), Err((e, _))) => {
                if let No::Must(w) = e {
                    self.rep.probe(format!("refused {last}: {w}"));
                }
            }
            (Ok(()), Ok(())) => {
                for (k, pre) in &r.pre {
                    if *k == sysvar::instructions::ID {
                        continue;
                    }
                    let (e, a) = (m.get(k), self.l.get(k));
                    let gone = e.lamports == 0;
                    let name = [WARDENS, BASIC_NET, APA_NET, PROPOSALS].iter().find(|t| addr(**t, None, None) == *k).map_or_else(
                        || match a.data.len() {
                            n if n == WARDEN.1 => "warden",
                            n if n == STATS.1 => "stats",
                            n if n == MAP.1 => "small",
                            n if n == APA_WARDEN.1 => "genesis-warden",
                            n if n == OPERATOR.1 => "operator",
                            n if n == PROPOSAL_ACC.1 => "proposal",
                            n if n == TARGET_MAP.1 => "target-map",
                            0 => "wallet",
                            _ => "other",
                        },
                        |t| t.0,
                    );
                    if !gone && (*e.data != *a.data || e.owner != a.owner) {
                        let at = e.data.iter().zip(a.data.iter()).position(|(x, y)| x != y);
                        let mut p = props.clone();
                        if pre.owner == ID || a.owner == ID {
                            // whatever record it is of
                            for q in match name {
                                "warden" | "Wardens" | "BasicWardenNetwork" => &["C16"][..],
                                "stats" => &["C17"][..],
                                "small" => &["C16", "C18"][..],
                                _ => &["C18"][..],
                            } {
                                if !p.contains(q) {
                                    p.push(q)
                                }
                            }
                        }
                        self.rep.violate(&p, format!("data:{last}:{name}"), format!("{}: {k} differs at {at:?} (lengths {} {})", names.join("+"), e.data.len(), a.data.len()));
                        self.dead = true;
                    } else if e.lamports != a.lamports {
                        self.rep.violate(&props, format!("lamports:{last}:{name}"), format!("{}: {k} has {} instead of {}", names.join("+"), a.lamports, e.lamports));
                        self.dead = true;
                    }
                }
                for d in &m.done {
                    self.rep.probe(format!("{} {}", d.name, d.note));
                    self.note(d, clock);
                }
                // counted independently of the model: operations directly before a count of the same warden
                self.count(tx, clock);
            }
        }
        let ok = r.res.is_ok();
        self.l.done(r);
        let net = self.rec(APA_NET, None, None);
        let conf = net.as_ref().map_or(0, |n| n[A_CONF..A_CONF + APA].iter().filter(|x| **x == 1).count());
        let ends = net.as_ref().map_or(0, |n| (0..APA).filter(|m| n[A_ENDS + (HALF + 1) * m] == 1).count());
        let s = [
            self.next_id() as u64,
            net.map_or(9, |n| u32_at(&n, H)) as u64,
            ends as u64,
            conf as u64,
            self.h.proposals.len().min(20) as u64,
            self.h.operators.len() as u64,
            self.h.active.values().filter(|a| a.0).count() as u64,
            self.h.counts.len() as u64,
            last.len() as u64 ^ (ok as u64) << 8,
        ];
        self.rep.state(&s);
        ok
    }

    fn note(&mut self, d: &Done, now: i64) {
        match d.name {
            "Register" => self.h.ids.push(d.key),
            "State" if d.note == "changed" => {
                let e = self.h.active.entry(d.id).or_insert((false, 0));
                *e = (!e.0, now as u64);
            }
            "Propose" => self.h.proposals.push((d.key, now as u64)),
            "Start" => self.h.applicants.push(d.id),
            "Confirm" => {
                self.h.confirmed.insert(d.id);
            }
            "ConfirmOperation" => {
                self.h.operators.insert(d.id, d.key);
            }
            _ => {}
        }
    }

    fn count(&mut self, tx: &Tx, now: i64) {
        for w in tx.ixs.windows(2) {
            let (a, b) = (&w[0], &w[1]);
            if a.program_id != elusiv_id() || b.program_id != ID || a.data.is_empty() || a.accounts.is_empty() {
                continue;
            }
            let Some(Op::Track { year, .. }) = Op::parse(&b.data) else { continue };
            let Some((day, y)) = calendar(now) else { continue };
            if y as u16 == year && [2, 13, 14].contains(&a.data[0]) && a.accounts[0].pubkey == b.accounts[0].pubkey {
                *self.h.counts.entry((b.accounts[0].pubkey, year, day)).or_default() += 1;
            }
        }
    }

    fn submit(&mut self, tx: Tx, rng: &mut Rng) {
        match rng.below(20) {
            0 => {
                self.rep.fault("transaction lost");
                if rng.pct(60) {
                    self.old.push(tx);
                }
            }
            1 | 2 => {
                self.rep.fault("transaction delayed");
                self.pending.push((tx, self.steps + rng.range(1, 40)));
            }
            3 => {
                self.rep.fault("transaction duplicated");
                self.exec(&tx, "first");
                if !self.dead {
                    self.exec(&tx, "again");
                }
                self.old.push(tx);
            }
            _ => {
                self.exec(&tx, "tx");
                if rng.pct(15) {
                    self.old.push(tx);
                }
            }
        }
        if self.old.len() > 12 {
            self.old.remove(0);
        }
    }

    fn audit(&mut self) {
        // the history against the accounts
        for (i, k) in self.h.ids.clone().iter().enumerate() {
            let id = self.h.base + i as u32;
            let Some(d) = self.rec(WARDEN, None, Some(id)) else {
                self.rep.violate(&["C16"], "history:warden-gone", format!("no record of warden {id}"));
                continue;
            };
            if key_at(&d, H + C_KEY) != *k || self.id_of(k) != Some(id) {
                self.rep.violate(&["C16"], "history:warden-identity", format!("warden {id} has another identity"));
            }
            if self.h.ids[..i].contains(k) {
                self.rep.violate(&["C16"], "history:registered-twice", format!("the key of warden {id} was registered before"));
            }
            let (active, since) = self.h.active.get(&id).copied().unwrap_or((false, 0));
            if (d[H + W_ACTIVE] == 1) != active {
                self.rep.violate(&["C16"], "history:activity", format!("activity of warden {id}"));
            }
            if since > 0 && d[H + W_ACT..H + W_ACT + 8] != since.to_le_bytes() {
                self.rep.violate(&["C16"], "history:activity-time", format!("time of the last change of warden {id}"));
            }
            let op = self.h.operators.get(&id);
            if (d[H + W_OPC] == 1) != op.is_some() || op.map_or(false, |o| key_at(&d, H + C_OPERATOR + 1) != *o) {
                self.rep.violate(&["C18"], "history:operator", format!("operator of warden {id}"));
            }
            self.rep.hit("C16");
        }
        let mut years: BTreeMap<(Pubkey, u16), BTreeMap<usize, u32>> = BTreeMap::new();
        for ((w, y, d), n) in &self.h.counts {
            years.entry((*w, *y)).or_default().insert(*d, *n);
        }
        for ((w, y), days) in years {
            let k = addr(STATS, Some(&w), Some(y as u32));
            if self.edited_stats.contains(&k) {
                continue;
            }
            let Some(d) = self.rec(STATS, Some(&w), Some(y as u32)) else { continue };
            let mut total = 0;
            for day in 0..366 {
                let n: u32 = (0..3).map(|c| u32_at(&d, H + 10 + STAT * c + 4 * day)).sum();
                total += n;
                if n != days.get(&day).copied().unwrap_or(0) {
                    self.rep.violate(&["C17"], "history:day", format!("{n} counts on day {day} of {y}, {:?} operations", days.get(&day)));
                }
            }
            let t: u32 = (0..3).map(|c| u32_at(&d, H + 10 + STAT * c + 366 * 4)).sum();
            if t != total {
                self.rep.violate(&["C17"], "history:total", format!("total {t} of {total} counts"));
            }
            self.rep.hit("C17");
        }
        if let Some(n) = self.rec(APA_NET, None, None) {
            let members: Vec<u32> = (0..u32_at(&n, H) as usize).map(|m| u32_at(&n, A_MEMBERS + 4 * m)).collect();
            if members != self.h.applicants {
                self.rep.violate(&["C18"], "history:members", format!("members {members:?}, applicants {:?}", self.h.applicants));
            }
            for (m, id) in members.iter().enumerate() {
                if (n[A_CONF + m] == 1) != self.h.confirmed.contains(id) {
                    self.rep.violate(&["C18"], "history:confirmed", format!("confirmation of {id}"));
                }
            }
            self.rep.hit("C18");
        }
        for (i, (k, t)) in self.h.proposals.clone().iter().enumerate() {
            if self.edited_proposals {
                break;
            }
            let ok = self.rec(PROPOSAL_ACC, None, Some(i as u32)).map_or(false, |d| key_at(&d, H) == *k && d[H + 33..H + 41] == t.to_le_bytes());
            if !ok {
                self.rep.violate(&["C18"], "history:proposal", format!("proposal {i}"));
            }
        }
    }
}

impl World for Net {
    fn step(&mut self, seed: u64) {
        if self.dead {
            return;
        }
        self.steps += 1;
        let mut rng = Rng::new(seed);
        let due: Vec<usize> = (0..self.pending.len()).filter(|i| self.pending[*i].1 <= self.steps).collect();
        for i in due.into_iter().rev() {
            let (tx, _) = self.pending.remove(i);
            if !self.dead {
                self.exec(&tx, "late");
            }
        }
        if self.dead {
            return;
        }
        if rng.below(100) < self.cfg.env {
            self.env(&mut rng);
            return;
        }
        if !self.old.is_empty() && rng.pct(3) {
            self.rep.fault("transaction replayed");
            let tx = rng.pick(&self.old).clone();
            self.exec(&tx, "replay");
            return;
        }
        if rng.one_in(150) {
            self.age(&mut rng);
            return;
        }
        if rng.one_in(600) && !self.edited_proposals {
            // as if that many proposals had been made
            if let Some(mut d) = self.rec(PROPOSALS, None, None) {
                d[H..H + 4].copy_from_slice(&(u32::MAX - rng.below(2) as u32).to_le_bytes());
                self.set_data(addr(PROPOSALS, None, None), d);
                self.edited_proposals = true;
            }
            return;
        }
        let Some((mut ixs, mut payer)) = self.act(&mut rng) else { return };
        if rng.pct(8) {
            if let Some((more, _)) = self.act(&mut rng) {
                self.rep.fault("transactions merged");
                ixs.extend(more);
            }
        }
        if rng.pct(5) {
            self.rep.fault("called through another program");
            let i = rng.idx(ixs.len());
            if ixs[i].program_id == ID {
                ixs[i] = self.through(vec![ixs[i].clone()]);
            }
        }
        if rng.pct(8) {
            payer = self.actor(&mut rng);
        }
        let can = self.people();
        let mut tx = Tx::full(ixs, payer);
        tx.signers.retain(|k| can.contains(k));
        if rng.pct(18) {
            self.perturb(&mut tx, &mut rng);
        }
        self.submit(tx, &mut rng);
        if self.steps % 40 == 0 {
            self.audit();
        }
    }

    fn finish(&mut self) {
        if self.dead {
            return;
        }
        self.audit();
        if !self.rep.violations.is_empty() {
            return;
        }
        // faults are over: everybody gets done what is left to do
        self.l.clock.unix_timestamp = ERA + 3 * 365 * 86_400;
        let mut rng = Rng::new(7);
        if !self.l.exists(&addr(WARDENS, None, None)) {
            let p = self.strangers[0];
            self.must(vec![Op::Init.ix(&[p])], p, "Init");
        }
        for w in self.wardens.clone() {
            if self.id_of(&w).is_none() && (self.next_id() as usize) < MEMBERS {
                let op = self.registration(w, self.next_id(), &mut rng, true);
                self.must(vec![op.ix(&[w])], w, "Register");
            }
            let Some(id) = self.id_of(&w) else { continue };
            let net = self.rec(APA_NET, None, None).unwrap_or(vec![0; APA_NET.1]);
            if (u32_at(&net, H) as usize) < APA && applying(&net) && self.rec(APA_WARDEN, None, Some(id)).is_none() {
                let i = self.wardens.iter().position(|x| *x == w).unwrap();
                let mut q = vec![3; HALF];
                q[400..432].copy_from_slice(&self.exchange[i].to_bytes());
                self.must(vec![Op::Start { id, quote: q }.ix(&[w])], w, "Start");
            }
            if self.dead {
                return;
            }
        }
        for w in self.wardens.clone() {
            let Some(id) = self.id_of(&w) else { continue };
            let net = self.rec(APA_NET, None, None).unwrap_or(vec![0; APA_NET.1]);
            let m = (0..u32_at(&net, H) as usize).find(|m| u32_at(&net, A_MEMBERS + 4 * m) == id);
            if let Some(m) = m {
                if net[A_ENDS + (HALF + 1) * m] == 0 {
                    self.must(vec![Op::Complete { id, quote: vec![5; HALF] }.ix(&[w])], w, "Complete");
                }
            }
            if self.dead {
                return;
            }
        }
        let net = self.rec(APA_NET, None, None).unwrap_or(vec![0; APA_NET.1]);
        if !applying(&net) {
            for m in 0..APA {
                let ek = key_at(&net, A_KEYS + 32 * m);
                if net[A_CONF + m] == 0 && self.exchange.contains(&ek) {
                    let id = u32_at(&net, A_MEMBERS + 4 * m);
                    self.must(vec![Op::Confirm { id, msg: message(&net).to_vec() }.ix(&[ek])], ek, "Confirm");
                }
                if self.dead {
                    return;
                }
            }
            self.rep.probe("genesis network confirmed");
        }
        self.audit();
    }

    fn report(&mut self) -> &mut Report {
        &mut self.rep
    }
}

impl Net {
    fn must(&mut self, ixs: Vec<Instruction>, payer: Pubkey, what: &str) {
        if self.dead {
            return;
        }
        if !self.exec(&Tx::full(ixs, payer), "finish") && !self.dead {
            self.rep.probe(format!("not completed: {what}"));
        }
    }
}
