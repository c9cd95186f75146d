//! Wire protocol, addresses and account layouts, written down independently of the program.

use simkit::ledger::Ledger;
use simkit::rng::mix;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_program::{system_program, sysvar};
use std::cell::RefCell;
use std::collections::BTreeMap;

pub type B32 = [u8; 32];
pub type Meta = [u8; 17];

pub use elusiv::ID;
pub const MEMO: Pubkey = Pubkey::new_from_array([
    5, 74, 83, 90, 153, 41, 33, 6, 77, 36, 232, 113, 96, 218, 56, 124, 124, 53, 181, 221, 188, 146, 187, 129, 228,
    31, 168, 64, 65, 5, 68, 141,
]);
pub fn budget_program() -> Pubkey {
    // ComputeBudget111111111111111111111111111111
    Pubkey::new_from_array([
        3, 6, 70, 111, 229, 33, 23, 50, 255, 236, 173, 186, 114, 195, 155, 231, 188, 140, 229, 187, 197, 247, 18, 107,
        44, 67, 155, 58, 64, 0, 0, 0,
    ])
}

pub const STORAGE_CHILDREN: usize = 25;
pub const STORAGE_CHILD_VALUES: usize = 83_887;
pub const STORAGE_CHILD_SIZE: usize = 1 + STORAGE_CHILD_VALUES * 32;
pub const NULL_CHILDREN: usize = 16;
pub const NULL_PER_CHILD: usize = 65_536;
pub const NULL_CHILD_SIZE: usize = 1 + 4 + 2 + 2 + 30 + 2 * 2 * NULL_PER_CHILD + 32 * NULL_PER_CHILD;
pub const META_CHILDREN: usize = 16;
pub const META_PER_CHILD: usize = 65_536;
pub const META_CHILD_SIZE: usize = 1 + META_PER_CHILD * 17;
pub const QUEUE_SLOTS: usize = 240;
pub const BUF_LEN: usize = 128;
pub const HISTORY: usize = 100;
pub const PACKET: usize = 964;
pub const PREP_IX_INDEX: u16 = 6;
pub const MILLER_IXS: u32 = 215;
pub const FINAL_IXS: u32 = 17;
/// Where the final exponentiation inverts, which no proof that leads to zero survives
pub const FLAW_IXS: u32 = 1;

pub fn pda(seed: &str, pk: Option<&Pubkey>, off: Option<u32>) -> (Pubkey, u8) {
    thread_local! {
        static CACHE: RefCell<BTreeMap<(String, Option<Pubkey>, Option<u32>), (Pubkey, u8)>> = RefCell::new(BTreeMap::new());
    }
    let k = (seed.to_string(), pk.copied(), off);
    if let Some(v) = CACHE.with(|c| c.borrow().get(&k).copied()) {
        return v;
    }
    let mut seeds: Vec<Vec<u8>> = vec![seed.as_bytes().to_vec()];
    if let Some(p) = pk {
        seeds.push(p.to_bytes().to_vec());
    }
    if let Some(o) = off {
        seeds.push(o.to_le_bytes().to_vec());
    }
    let s: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
    let v = Pubkey::find_program_address(&s, &ID);
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 20_000 {
            c.clear()
        }
        c.insert(k, v);
    });
    v
}

pub fn pool() -> Pubkey {
    pda("Pool", None, None).0
}
pub fn collector() -> Pubkey {
    pda("FeeCollector", None, None).0
}
pub fn governor() -> Pubkey {
    pda("Governor", None, None).0
}
pub fn fee_acc(v: u32) -> Pubkey {
    pda("Fee", None, Some(v)).0
}
pub fn storage() -> Pubkey {
    pda("Storage", None, None).0
}
pub fn hashing() -> Pubkey {
    pda("CommitmentHashing", None, None).0
}
pub fn queue() -> Pubkey {
    pda("CommitmentQueue", None, None).0
}
pub fn meta_queue() -> Pubkey {
    pda("MetadataQueue", None, None).0
}
pub fn metadata() -> Pubkey {
    pda("Metadata", None, None).0
}
pub fn base_buffer() -> Pubkey {
    pda("BaseCommitmentBuffer", None, None).0
}
pub fn com_buffer() -> Pubkey {
    pda("CommitmentBuffer", None, None).0
}
pub fn nullifier(mt: u32) -> Pubkey {
    pda("Nullifier", None, Some(mt)).0
}
pub fn vkey(id: u32) -> Pubkey {
    pda("VKey", None, Some(id)).0
}
pub fn verif(fee_payer: &Pubkey, idx: u32) -> Pubkey {
    pda("Verification", Some(fee_payer), Some(idx)).0
}
pub fn base_hashing(idx: u32) -> (Pubkey, u8) {
    pda("BaseCommitmentHashing", None, Some(idx))
}
/// The address with a given bump (valid only if it is off the curve)
pub fn base_hashing_at(idx: u32, bump: u8) -> Option<Pubkey> {
    Pubkey::create_program_address(&[b"BaseCommitmentHashing", &idx.to_le_bytes(), &[bump]], &ID).ok()
}
pub fn dup_seed(nullifiers: &[B32]) -> Pubkey {
    let parts: Vec<&[u8]> = nullifiers.iter().map(|n| &n[..]).collect();
    Pubkey::new_from_array(solana_program::hash::hashv(&parts).to_bytes())
}
pub fn dup(nullifiers: &[B32]) -> Pubkey {
    pda("NullifierDuplicate", Some(&dup_seed(nullifiers)), None).0
}
pub fn ata(owner: &Pubkey, token: u16) -> Pubkey {
    thread_local! {
        static CACHE: RefCell<BTreeMap<(Pubkey, u16), Pubkey>> = RefCell::new(BTreeMap::new());
    }
    if let Some(v) = CACHE.with(|c| c.borrow().get(&(*owner, token)).copied()) {
        return v;
    }
    let v = spl_associated_token_account::get_associated_token_address(owner, &mint(token));
    CACHE.with(|c| c.borrow_mut().insert((*owner, token), v));
    v
}
/// Account that holds an owner's funds of a token: itself for lamports
pub fn holder(owner: &Pubkey, token: u16) -> Pubkey {
    if token == 0 {
        *owner
    } else {
        ata(owner, token)
    }
}

// ---- Published token table (Token.toml) ----
pub struct TokenInfo {
    pub mint: Pubkey,
    pub decimals: u8,
    pub base_exp: u8,
    pub price_key: Pubkey,
    pub min: u64,
    pub max: u64,
}
pub fn tokens() -> &'static Vec<TokenInfo> {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<TokenInfo>> = OnceLock::new();
    T.get_or_init(|| {
        let t = &elusiv::token::TOKENS;
        // limits are part of the published specification and repeated here; the addresses differ per network
        let lim: [(u8, u8, u64, u64); 12] = [
            (9, 9, 1_000, 360_000_000_000),
            (6, 0, 1_000, 8_000_000_000),
            (6, 0, 1_000, 8_000_000_000),
            (9, 0, 1_000, 360_000_000_000),
            (5, 0, 1_000_000_000, 2_000_000_000_000_000),
            (9, 0, 100_000_000, 2_000_000_000_000_000),
            (9, 0, 1_000, 360_000_000_000),
            (6, 0, 10_000, 15_000_000_000),
            (6, 0, 1_000_000, 50_000_000_000),
            (6, 0, 2_000, 16_000_000_000),
            (9, 0, 1_000, 360_000_000_000),
            (9, 0, 1_000_000, 2_000_000_000_000),
        ];
        lim.iter()
            .enumerate()
            .map(|(i, l)| TokenInfo {
                mint: t[i].mint,
                decimals: l.0,
                base_exp: l.1,
                price_key: t[i].pyth_usd_price_key,
                min: l.2,
                max: l.3,
            })
            .collect()
    })
}
pub fn mint(token: u16) -> Pubkey {
    tokens()[token as usize].mint
}

// ---- Requests ----
#[derive(Clone, Debug, PartialEq)]
pub struct BaseReq {
    pub base: B32,
    pub recent: u32,
    pub amount: u64,
    pub token: u16,
    pub commitment: B32,
    pub fee_version: u32,
    pub min_batching: u32,
}
#[derive(Clone, Debug, PartialEq)]
pub struct SendReq {
    /// (root, nullifier hash)
    pub inputs: Vec<(Option<B32>, B32)>,
    pub out: B32,
    pub recent: u32,
    pub fee_version: u32,
    pub amount: u64,
    pub fee: u64,
    pub collector: Pubkey,
    pub opt_fee: u64,
    pub token: u16,
    pub metadata: Meta,
    pub is_ata: bool,
    pub solana_pay: bool,
    pub hashed: B32,
}
impl SendReq {
    pub fn encode(&self) -> Vec<u8> {
        let mut v = vec![0u8]; // ProofRequest::Send
        v.extend_from_slice(&(self.inputs.len() as u32).to_le_bytes());
        for (r, n) in &self.inputs {
            match r {
                Some(r) => {
                    v.push(1);
                    v.extend_from_slice(r);
                }
                None => v.push(0),
            }
            v.extend_from_slice(n);
        }
        v.extend_from_slice(&self.out);
        v.extend_from_slice(&self.recent.to_le_bytes());
        v.extend_from_slice(&self.fee_version.to_le_bytes());
        v.extend_from_slice(&self.amount.to_le_bytes());
        v.extend_from_slice(&self.fee.to_le_bytes());
        v.extend_from_slice(&self.collector.to_bytes());
        v.extend_from_slice(&self.opt_fee.to_le_bytes());
        v.extend_from_slice(&self.token.to_le_bytes());
        v.extend_from_slice(&self.metadata);
        v.push(self.is_ata as u8);
        v.push(self.solana_pay as u8);
        v.extend_from_slice(&self.hashed);
        v
    }
    pub fn nullifiers(&self) -> Vec<B32> {
        self.inputs.iter().map(|i| i.1).collect()
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct SendData {
    pub total: u64,
    pub token: u16,
    pub mt: u32,
    pub index: u32,
    pub iv: B32,
    pub owner: B32,
}

#[derive(Clone, Debug, PartialEq, Eq, Copy, Default)]
pub struct Fee {
    pub per_tx: u64,
    pub base_bp: u64,
    pub proof_bp: u64,
    pub base_sub: u64,
    pub proof_sub: u64,
    pub hash_reward: u64,
    pub proof_reward: u64,
    pub proof_txs: u64,
}
impl Fee {
    pub fn encode(&self) -> Vec<u8> {
        [
            self.per_tx,
            self.base_bp,
            self.proof_bp,
            self.base_sub,
            self.proof_sub,
            self.hash_reward,
            self.proof_reward,
            self.proof_txs,
        ]
        .iter()
        .flat_map(|x| x.to_le_bytes())
        .collect()
    }
    pub fn decode(d: &[u8]) -> Fee {
        let g = |i: usize| u64::from_le_bytes(d[i * 8..i * 8 + 8].try_into().unwrap());
        Fee {
            per_tx: g(0),
            base_bp: g(1),
            proof_bp: g(2),
            base_sub: g(3),
            proof_sub: g(4),
            hash_reward: g(5),
            proof_reward: g(6),
            proof_txs: g(7),
        }
    }
    pub fn hash_tx(&self) -> u64 {
        self.per_tx.wrapping_add(self.hash_reward)
    }
    pub fn base_hash_fee(&self) -> u64 {
        2u64.wrapping_mul(self.hash_tx()).wrapping_add(self.per_tx)
    }
    pub fn commitment_fee(&self, rate: u32) -> u64 {
        let t = (hash_ixs(rate) as u64).wrapping_mul(self.hash_tx());
        let n = 1u64 << rate;
        t / n + (t % n != 0) as u64
    }
    pub fn proof_fee(&self, prep: u64) -> u64 {
        (prep + self.proof_txs).wrapping_mul(self.per_tx).wrapping_add(self.proof_reward)
    }
    pub fn valid(&self) -> bool {
        (0..4).all(|r| {
            self.base_sub <= self.commitment_fee(r)
                && self.proof_sub <= self.proof_txs.wrapping_mul(self.per_tx).wrapping_add(self.commitment_fee(r))
                && self.proof_txs == 62
        })
    }
}
/// Transactions needed to hash a batch of 2^rate commitments into the tree
pub fn hash_ixs(rate: u32) -> u32 {
    [24, 24, 25, 29, 37][rate as usize]
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Store {
        sender: Pubkey,
        sender_acc: Pubkey,
        payer: Pubkey,
        payer_acc: Pubkey,
        sol_price: Pubkey,
        token_price: Pubkey,
        idx: u32,
        bump: u8,
        req: BaseReq,
        metadata: Meta,
    },
    ComputeBase { idx: u32, bump: u8 },
    FinalizeBase { payer: Pubkey, idx: u32, bump: u8, fee_version: u32 },
    Setup { can_fail: bool, kids: Vec<usize> },
    InitHash { can_fail: bool, kids: Vec<usize> },
    ComputeHash { payer: Pubkey, fee_version: u32, nonce: u32 },
    FinalizeHash { kids: Vec<usize> },
    InitVerif {
        payer: Pubkey,
        idx: u8,
        vkey: u32,
        trees: [u32; 2],
        req: SendReq,
        skip: bool,
        kids0: Vec<usize>,
        kids1: Vec<usize>,
    },
    Fee { payer: Pubkey, payer_acc: Pubkey, sol_price: Pubkey, token_price: Pubkey, idx: u8, token: u16 },
    Proof { payer: Pubkey, idx: u8, proof: Vec<u8> },
    Compute { payer: Pubkey, idx: u8, vkey: u32, kids: Vec<usize> },
    Send {
        payer: Pubkey,
        idx: u8,
        recipient: Pubkey,
        identifier: Pubkey,
        reference: Option<Pubkey>,
        data: SendData,
        memo: bool,
    },
    Insert { payer: Pubkey, idx: u8, mt: u32, kids: Vec<usize> },
    PayLamports { payer: Pubkey, idx: u8, recipient: Pubkey, opt: Pubkey, dup: Pubkey },
    PayToken {
        payer: Pubkey,
        payer_acc: Pubkey,
        idx: u8,
        recipient: Pubkey,
        wallet: Pubkey,
        opt: Pubkey,
        dup: Pubkey,
        token: u16,
        mint: Pubkey,
    },
    VkCreate { signer: Pubkey, id: u32, inputs: u32, authority: Option<Pubkey> },
    VkNew { signer: Pubkey, id: u32, data: Pubkey },
    VkUpdate { signer: Pubkey, id: u32, old: Pubkey },
    VkSet { signer: Pubkey, id: u32, pos: u32, packet: Vec<u8>, kids: Vec<usize> },
    VkFreeze { signer: Pubkey, id: u32 },
    VkAuth { signer: Pubkey, id: u32, authority: Pubkey },
    Reset { mt: u32, kids: Vec<usize> },
    Archive { payer: Pubkey, mt: u32, acc: Pubkey },
    OpenSingle { payer: Pubkey },
    OpenNull { payer: Pubkey, mt: u32 },
    EnableStorage { child: Pubkey, idx: u32 },
    EnableNull { mt: u32, child: Pubkey, idx: u32 },
    EnableMeta { child: Pubkey, idx: u32 },
    SetupGov { payer: Pubkey },
    UpgradeGov { auth: Pubkey, fee_version: u32, rate: u32 },
    InitFee { payer: Pubkey, version: u32, fee: Fee },
    CloseAcc { signer: Pubkey, recipient: Pubkey, acc: Pubkey },
    AccountsV1 { payer: Pubkey },
    Nop,
    Memo { text: Vec<u8> },
    /// An instruction sent to a program of somebody else
    Fake { of: Box<Op> },
    SysTransfer { from: Pubkey, to: Pubkey, amount: u64 },
    TokTransfer { from: Pubkey, to: Pubkey, owner: Pubkey, amount: u64 },
    Budget { units: u32 },
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Store { .. } => "Store",
            Op::ComputeBase { .. } => "ComputeBase",
            Op::FinalizeBase { .. } => "FinalizeBase",
            Op::Setup { .. } => "Setup",
            Op::InitHash { .. } => "InitHash",
            Op::ComputeHash { .. } => "ComputeHash",
            Op::FinalizeHash { .. } => "FinalizeHash",
            Op::InitVerif { .. } => "InitVerif",
            Op::Fee { .. } => "Fee",
            Op::Proof { .. } => "Proof",
            Op::Compute { .. } => "Compute",
            Op::Send { .. } => "Send",
            Op::Insert { .. } => "Insert",
            Op::PayLamports { .. } => "PayLamports",
            Op::PayToken { .. } => "PayToken",
            Op::VkCreate { .. } => "VkCreate",
            Op::VkNew { .. } => "VkNew",
            Op::VkUpdate { .. } => "VkUpdate",
            Op::VkSet { .. } => "VkSet",
            Op::VkFreeze { .. } => "VkFreeze",
            Op::VkAuth { .. } => "VkAuth",
            Op::Reset { .. } => "Reset",
            Op::Archive { .. } => "Archive",
            Op::OpenSingle { .. } => "OpenSingle",
            Op::OpenNull { .. } => "OpenNull",
            Op::EnableStorage { .. } => "EnableStorage",
            Op::EnableNull { .. } => "EnableNull",
            Op::EnableMeta { .. } => "EnableMeta",
            Op::SetupGov { .. } => "SetupGov",
            Op::UpgradeGov { .. } => "UpgradeGov",
            Op::InitFee { .. } => "InitFee",
            Op::CloseAcc { .. } => "CloseAcc",
            Op::AccountsV1 { .. } => "AccountsV1",
            Op::Nop => "Nop",
            Op::Memo { .. } => "Memo",
            Op::Fake { .. } => "Nop",
            Op::SysTransfer { .. } => "SysTransfer",
            Op::TokTransfer { .. } => "TokTransfer",
            Op::Budget { .. } => "Budget",
        }
    }
}

/// Child account addresses per parent, needed to build instructions
#[derive(Clone, Default)]
pub struct Kids {
    pub storage: BTreeMap<usize, Pubkey>,
    pub metadata: BTreeMap<usize, Pubkey>,
    pub nullifier: BTreeMap<u32, BTreeMap<usize, Pubkey>>,
    pub vkey: BTreeMap<u32, BTreeMap<usize, Pubkey>>,
}

fn r(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
fn w(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
fn s(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, true)
}
fn ws(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, true)
}

pub fn build(op: &Op, kids: &Kids) -> Instruction {
    let sysk = system_program::ID;
    let ixs = sysvar::instructions::ID;
    let sub = |m: Option<&BTreeMap<usize, Pubkey>>, want: &[usize], wr: bool| -> Vec<AccountMeta> {
        let mut v = vec![];
        if let Some(m) = m {
            for i in want {
                if let Some(k) = m.get(i) {
                    v.push(if wr { w(*k) } else { r(*k) });
                }
            }
        }
        v
    };
    let tokp = |t: u16| if t == 0 { sysk } else { spl_token::ID };
    let mut d: Vec<u8> = vec![];
    let mut a: Vec<AccountMeta> = vec![];
    macro_rules! put { ($($e:expr),*) => {{ $( d.extend_from_slice(&$e[..]); )* }}; }
    match op {
        Op::Store { sender, sender_acc, payer, payer_acc, sol_price, token_price, idx, bump, req, metadata } => {
            put!([0u8], idx.to_le_bytes(), [*bump], req.base, req.recent.to_le_bytes(), req.amount.to_le_bytes());
            put!(req.token.to_le_bytes(), req.commitment, req.fee_version.to_le_bytes(), req.min_batching.to_le_bytes());
            put!(metadata);
            let (pa, ca) = (token_holder(&pool(), req.token), token_holder(&collector(), req.token));
            let acc = base_hashing_at(*idx, *bump).unwrap_or(base_hashing(*idx).0);
            a = vec![
                s(*sender),
                w(*sender_acc),
                ws(*payer),
                w(*payer_acc),
                w(pool()),
                w(pa),
                w(collector()),
                w(ca),
                r(*sol_price),
                r(*token_price),
                r(governor()),
                r(storage()),
                w(acc),
                w(base_buffer()),
                r(tokp(req.token)),
                r(sysk),
            ];
        }
        Op::ComputeBase { idx, bump } => {
            put!([1u8], idx.to_le_bytes());
            a = vec![w(base_hashing_at(*idx, *bump).unwrap_or(base_hashing(*idx).0))];
        }
        Op::FinalizeBase { payer, idx, bump, fee_version } => {
            put!([2u8], idx.to_le_bytes(), fee_version.to_le_bytes());
            a = vec![
                w(*payer),
                w(pool()),
                r(fee_acc(*fee_version)),
                w(base_hashing_at(*idx, *bump).unwrap_or(base_hashing(*idx).0)),
                w(queue()),
                w(meta_queue()),
            ];
        }
        Op::Setup { can_fail, kids: k } => {
            put!([3u8, *can_fail as u8]);
            a = vec![w(hashing()), r(storage())];
            a.extend(sub(Some(&kids.storage), k, false));
        }
        Op::InitHash { can_fail, kids: k } => {
            put!([4u8, *can_fail as u8]);
            a = vec![w(queue()), w(meta_queue()), w(hashing()), w(metadata())];
            a.extend(sub(Some(&kids.metadata), k, true));
        }
        Op::ComputeHash { payer, fee_version, nonce } => {
            put!([5u8], fee_version.to_le_bytes(), nonce.to_le_bytes());
            a = vec![ws(*payer), r(fee_acc(*fee_version)), w(pool()), w(hashing())];
        }
        Op::FinalizeHash { kids: k } => {
            put!([6u8]);
            a = vec![w(hashing()), w(storage())];
            a.extend(sub(Some(&kids.storage), k, true));
        }
        Op::InitVerif { payer, idx, vkey: vk, trees, req, skip, kids0, kids1 } => {
            put!([7u8, *idx], vk.to_le_bytes(), trees[0].to_le_bytes(), trees[1].to_le_bytes(), req.encode());
            put!([*skip as u8]);
            a = vec![
                ws(*payer),
                w(verif(payer, *idx as u32)),
                r(vkey(*vk)),
                w(dup(&req.nullifiers())),
                r(sysk),
                r(sysk),
                r(storage()),
                w(com_buffer()),
                r(nullifier(trees[0])),
            ];
            a.extend(sub(kids.nullifier.get(&trees[0]), kids0, false));
            a.push(r(nullifier(trees[1])));
            a.extend(sub(kids.nullifier.get(&trees[1]), kids1, false));
        }
        Op::Fee { payer, payer_acc, sol_price, token_price, idx, token } => {
            put!([8u8, *idx]);
            a = vec![
                ws(*payer),
                w(*payer_acc),
                w(pool()),
                w(token_holder(&pool(), *token)),
                w(collector()),
                w(token_holder(&collector(), *token)),
                r(*sol_price),
                r(*token_price),
                r(governor()),
                w(verif(payer, *idx as u32)),
                r(tokp(*token)),
                r(sysk),
            ];
        }
        Op::Proof { payer, idx, proof } => {
            put!([9u8, *idx], proof);
            a = vec![s(*payer), w(verif(payer, *idx as u32))];
        }
        Op::Compute { payer, idx, vkey: vk, kids: k } => {
            put!([10u8, *idx], vk.to_le_bytes());
            a = vec![r(*payer), w(verif(payer, *idx as u32)), r(vkey(*vk))];
            if let Some(m) = kids.vkey.get(vk) {
                a.extend(sub(Some(m), k, false));
            }
            a.push(r(ixs));
        }
        Op::Send { payer, idx, recipient, identifier, reference, data, memo } => {
            put!([11u8, *idx], data.total.to_le_bytes(), data.token.to_le_bytes(), data.mt.to_le_bytes());
            put!(data.index.to_le_bytes(), data.iv, data.owner, [*memo as u8]);
            a = vec![
                r(*recipient),
                r(*identifier),
                r(reference.unwrap_or(ixs)),
                r(*payer),
                w(queue()),
                w(verif(payer, *idx as u32)),
                r(storage()),
                w(com_buffer()),
                r(ixs),
            ];
        }
        Op::Insert { payer, idx, mt, kids: k } => {
            put!([12u8, *idx]);
            a = vec![r(*payer), w(verif(payer, *idx as u32)), w(nullifier(*mt))];
            a.extend(sub(kids.nullifier.get(mt), k, true));
        }
        Op::PayLamports { payer, idx, recipient, opt, dup } => {
            put!([13u8, *idx]);
            a = vec![
                ws(*payer),
                w(*recipient),
                w(pool()),
                w(collector()),
                w(*opt),
                w(queue()),
                w(meta_queue()),
                w(verif(payer, *idx as u32)),
                w(*dup),
                r(sysk),
                r(ixs),
            ];
        }
        Op::PayToken { payer, payer_acc, idx, recipient, wallet, opt, dup, token, mint } => {
            put!([14u8, *idx]);
            a = vec![
                ws(*payer),
                w(*payer_acc),
                w(*recipient),
                r(*wallet),
                w(pool()),
                w(token_holder(&pool(), *token)),
                w(collector()),
                w(token_holder(&collector(), *token)),
                w(*opt),
                w(queue()),
                w(meta_queue()),
                w(verif(payer, *idx as u32)),
                w(*dup),
                r(spl_associated_token_account::ID),
                r(spl_token::ID),
                r(sysk),
                r(*mint),
                r(ixs),
            ];
        }
        Op::VkCreate { signer, id, inputs, authority } => {
            put!([15u8], id.to_le_bytes(), inputs.to_le_bytes());
            match authority {
                Some(k) => put!([1u8], k.to_bytes()),
                None => put!([0u8; 33]),
            }
            a = vec![ws(*signer), w(vkey(*id)), r(sysk)];
        }
        Op::VkNew { signer, id, data } => {
            put!([16u8], id.to_le_bytes());
            a = vec![s(*signer), w(vkey(*id)), w(*data)];
        }
        Op::VkUpdate { signer, id, old } => {
            put!([17u8], id.to_le_bytes());
            a = vec![ws(*signer), w(vkey(*id)), w(*old), r(sysk)];
        }
        Op::VkSet { signer, id, pos, packet, kids: k } => {
            put!([18u8], id.to_le_bytes(), pos.to_le_bytes(), (packet.len() as u32).to_le_bytes(), packet);
            a = vec![s(*signer), w(vkey(*id))];
            if let Some(m) = kids.vkey.get(id) {
                a.extend(sub(Some(m), k, true));
            }
        }
        Op::VkFreeze { signer, id } => {
            put!([19u8], id.to_le_bytes());
            a = vec![s(*signer), w(vkey(*id))];
        }
        Op::VkAuth { signer, id, authority } => {
            put!([20u8], id.to_le_bytes(), authority.to_bytes());
            a = vec![s(*signer), w(vkey(*id))];
        }
        Op::Reset { mt, kids: k } => {
            put!([21u8], mt.to_le_bytes());
            a = vec![w(storage())];
            a.extend(sub(Some(&kids.storage), k, true));
            a.push(w(queue()));
            a.push(w(nullifier(*mt)));
        }
        Op::Archive { payer, mt, acc } => {
            put!([22u8], mt.to_le_bytes());
            a = vec![ws(*payer), w(storage()), w(nullifier(*mt)), w(*acc), r(sysk)];
        }
        Op::OpenSingle { payer } => {
            put!([23u8]);
            a = vec![
                ws(*payer),
                w(pool()),
                w(collector()),
                w(hashing()),
                w(queue()),
                w(storage()),
                w(base_buffer()),
                r(sysk),
            ];
        }
        Op::OpenNull { payer, mt } => {
            put!([24u8], mt.to_le_bytes());
            a = vec![ws(*payer), w(nullifier(*mt)), r(sysk)];
        }
        Op::EnableStorage { child, idx } => {
            put!([25u8], idx.to_le_bytes());
            a = vec![w(storage()), w(*child)];
        }
        Op::EnableNull { mt, child, idx } => {
            put!([26u8], mt.to_le_bytes(), idx.to_le_bytes());
            a = vec![w(nullifier(*mt)), w(*child)];
        }
        Op::EnableMeta { child, idx } => {
            put!([27u8], idx.to_le_bytes());
            a = vec![w(metadata()), w(*child)];
        }
        Op::SetupGov { payer } => {
            put!([28u8]);
            a = vec![ws(*payer), w(governor()), r(sysk)];
        }
        Op::UpgradeGov { auth, fee_version, rate } => {
            put!([29u8], fee_version.to_le_bytes(), rate.to_le_bytes());
            a = vec![s(*auth), w(governor()), r(queue())];
        }
        Op::InitFee { payer, version, fee } => {
            put!([30u8], version.to_le_bytes(), fee.encode());
            a = vec![ws(*payer), w(governor()), w(fee_acc(*version)), r(sysk)];
        }
        Op::CloseAcc { signer, recipient, acc } => {
            put!([31u8]);
            a = vec![s(*signer), w(*recipient), w(*acc), r(sysk)];
        }
        Op::AccountsV1 { payer } => {
            put!([32u8]);
            a = vec![
                ws(*payer),
                w(com_buffer()),
                w(meta_queue()),
                w(metadata()),
                r(storage()),
                r(hashing()),
                w(queue()),
                r(sysk),
            ];
        }
        Op::Nop => put!([33u8]),
        Op::Fake { of } => {
            let mut ix = build(of, kids);
            ix.program_id = crate::subst::fake_program();
            return ix;
        }
        Op::Memo { text } => return Instruction { program_id: MEMO, accounts: vec![], data: text.clone() },
        Op::SysTransfer { from, to, amount } => {
            return solana_program::system_instruction::transfer(from, to, *amount)
        }
        Op::TokTransfer { from, to, owner, amount } => {
            return spl_token::instruction::transfer(&spl_token::ID, from, to, owner, &[owner], *amount).unwrap()
        }
        Op::Budget { units } => {
            let mut d = vec![2u8];
            d.extend_from_slice(&units.to_le_bytes());
            return Instruction { program_id: budget_program(), accounts: vec![], data: d };
        }
    }
    Instruction { program_id: ID, accounts: a, data: d }
}

fn token_holder(owner: &Pubkey, t: u16) -> Pubkey {
    if (t as usize) < tokens().len() {
        holder(owner, t)
    } else {
        *owner
    }
}

// ---- Account layouts ----
pub fn u32_at(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap())
}
pub fn u64_at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
pub fn b32_at(d: &[u8], o: usize) -> B32 {
    d[o..o + 32].try_into().unwrap()
}
fn opt_keys(d: &[u8], o: usize, n: usize) -> (Vec<Option<Pubkey>>, usize) {
    let mut v = vec![];
    let mut p = o;
    for _ in 0..n {
        v.push(if d[p] == 1 { Some(Pubkey::new(&d[p + 1..p + 33])) } else { None });
        p += 33;
    }
    (v, p)
}

#[derive(PartialEq, Debug, Clone)]
pub struct QueueView<T> {
    pub items: Vec<T>,
    pub head: u32,
    pub tail: u32,
}
pub fn decode_queue(d: &[u8]) -> QueueView<(B32, u32, u32)> {
    let (head, tail) = (u32_at(d, 2), u32_at(d, 6));
    let mut items = vec![];
    let mut i = head;
    while i != tail && items.len() <= QUEUE_SLOTS {
        let o = 10 + (i as usize % QUEUE_SLOTS) * 40;
        items.push((b32_at(d, o), u32_at(d, o + 32), u32_at(d, o + 36)));
        i = (i + 1) % QUEUE_SLOTS as u32;
    }
    QueueView { items, head, tail }
}
pub fn decode_meta_queue(d: &[u8]) -> QueueView<Meta> {
    let (head, tail) = (u32_at(d, 2), u32_at(d, 6));
    let mut items = vec![];
    let mut i = head;
    while i != tail && items.len() <= QUEUE_SLOTS {
        let o = 10 + (i as usize % QUEUE_SLOTS) * 17;
        items.push(d[o..o + 17].try_into().unwrap());
        i = (i + 1) % QUEUE_SLOTS as u32;
    }
    QueueView { items, head, tail }
}
/// The values a duplicate is searched in, oldest first
pub fn decode_buffer(d: &[u8]) -> Vec<B32> {
    let len = (u32_at(d, 2 + 32 * BUF_LEN) as usize).min(BUF_LEN);
    let ptr = u32_at(d, 2 + 32 * BUF_LEN + 4) as usize % BUF_LEN;
    let start = if len < BUF_LEN { 0 } else { ptr };
    (0..len).map(|i| b32_at(d, 2 + 32 * ((start + i) % BUF_LEN))).collect()
}

#[derive(Debug, Clone, PartialEq)]
pub struct StorageView {
    pub kids: Vec<Option<Pubkey>>,
    pub ptr: u32,
    pub trees: u32,
    pub roots: Vec<B32>,
    pub roots_count: u32,
}
pub fn decode_storage(d: &[u8]) -> StorageView {
    let (kids, p) = opt_keys(d, 2, STORAGE_CHILDREN);
    StorageView {
        kids,
        ptr: u32_at(d, p),
        trees: u32_at(d, p + 4),
        roots: (0..HISTORY).map(|i| b32_at(d, p + 12 + 32 * i)).collect(),
        roots_count: u32_at(d, p + 12 + 32 * HISTORY),
    }
}
pub fn decode_metadata(d: &[u8]) -> (Vec<Option<Pubkey>>, u32) {
    let (kids, p) = opt_keys(d, 2, META_CHILDREN);
    (kids, u32_at(d, p))
}
#[derive(Debug, Clone, PartialEq)]
pub struct NullView {
    pub kids: Vec<Option<Pubkey>>,
    pub root: B32,
    pub count: u32,
    pub max: Vec<Option<B32>>,
    pub moved: Vec<(B32, u8)>,
}
pub fn decode_nullifier(d: &[u8]) -> NullView {
    let (kids, p) = opt_keys(d, 2, NULL_CHILDREN);
    let root = b32_at(d, p);
    let count = u32_at(d, p + 32);
    let mut o = p + 36;
    let mut max = vec![];
    for _ in 0..NULL_CHILDREN {
        max.push(if d[o] == 1 { Some(b32_at(d, o + 1)) } else { None });
        o += 33;
    }
    let n = (d[o] as usize).min(4);
    o += 1;
    let moved = (0..n).map(|i| (b32_at(d, o + 32 * i), d[o + 128 + i])).collect();
    NullView { kids, root, count, max, moved }
}
/// Elements of a nullifier child account in list order (smallest first) or None if the links are broken
pub fn decode_map(child: &[u8]) -> Option<Vec<B32>> {
    let d = &child[1..];
    let n = NULL_PER_CHILD;
    let len = u32_at(d, 0) as usize;
    if len > n {
        return None;
    }
    let u16_at = |o: usize| u16::from_le_bytes([d[o], d[o + 1]]) as usize;
    let next = 4 + 4 + 30;
    let keys = next + 4 * n;
    let mut v = Vec::with_capacity(len);
    let mut p = u16_at(4);
    for _ in 0..len {
        v.push(b32_at(d, keys + 32 * p));
        p = u16_at(next + 2 * p);
    }
    Some(v)
}
pub fn le_cmp(a: &B32, b: &B32) -> std::cmp::Ordering {
    a.iter().rev().cmp(b.iter().rev())
}

#[derive(Debug, Clone, PartialEq)]
pub struct HashView {
    pub instruction: u32,
    pub round: u32,
    pub fee_version: u32,
    pub active: bool,
    pub setup: bool,
    pub fin: u32,
    pub rate: u32,
    pub ordering: u32,
    pub siblings: Vec<B32>,
}
pub fn decode_hashing(d: &[u8]) -> HashView {
    HashView {
        instruction: u32_at(d, 2),
        round: u32_at(d, 6),
        fee_version: u32_at(d, 10),
        active: d[14] == 1,
        setup: d[15] == 1,
        fin: u32_at(d, 16),
        rate: u32_at(d, 20),
        ordering: u32_at(d, 24 + 96),
        siblings: (0..20).map(|i| b32_at(d, 24 + 100 + 32 * i)).collect(),
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct BaseView {
    pub instruction: u32,
    pub fee_version: u32,
    pub fee_payer: B32,
    pub active: bool,
    pub token: u16,
    pub state0: B32,
    pub min_batching: u32,
    pub metadata: Meta,
}
pub fn decode_base(d: &[u8]) -> BaseView {
    BaseView {
        instruction: u32_at(d, 2),
        fee_version: u32_at(d, 10),
        fee_payer: b32_at(d, 14),
        active: d[46] == 1,
        token: u16::from_le_bytes([d[47], d[48]]),
        state0: b32_at(d, 49),
        min_batching: u32_at(d, 49 + 96),
        metadata: d[49 + 100..49 + 117].try_into().unwrap(),
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct VerifView {
    pub instruction: u32,
    pub prep: Vec<u16>,
    pub vkey: u32,
    pub step: u8,
    pub state: u8,
    pub inputs: Vec<B32>,
    pub proof: Vec<u8>,
    pub verified: Option<bool>,
    pub fee_payer: B32,
    pub fee_payer_acc: B32,
    pub recipient: Option<B32>,
    pub skip: bool,
    pub min_batching: u32,
    pub token: u16,
    pub subvention: u64,
    pub network_fee: u64,
    pub com_fee: u64,
    pub com_fee_token: u64,
    pub proof_fee: u64,
    pub ata_rent: u64,
    pub request: Vec<u8>,
    pub trees: [u32; 2],
}
pub const OTHER_LEN: usize = 32 + 32 + 33 + 1 + 4 + 2 + 8 * 6;
pub fn request_size() -> usize {
    use elusiv::bytes::BorshSerDeSized;
    elusiv::processor::ProofRequest::SIZE
}
pub fn verified_offset(d: &[u8]) -> usize {
    d.len() - 8 - request_size() - OTHER_LEN - 2
}
pub fn decode_verif(d: &[u8]) -> VerifView {
    let n = (u32_at(d, 10) as usize).min(140);
    let vo = verified_offset(d);
    let o = vo + 2;
    let opt = o + 64;
    let t = opt + 33;
    let rq = o + OTHER_LEN;
    VerifView {
        instruction: u32_at(d, 2),
        prep: (0..n).map(|i| u16::from_le_bytes([d[14 + 2 * i], d[15 + 2 * i]])).collect(),
        vkey: u32_at(d, 294),
        step: d[298],
        state: d[299],
        inputs: (0..14).map(|i| b32_at(d, 300 + 32 * i)).collect(),
        proof: d[748..748 + 259].to_vec(),
        verified: if d[vo] == 1 { Some(d[vo + 1] == 1) } else { None },
        fee_payer: b32_at(d, o),
        fee_payer_acc: b32_at(d, o + 32),
        recipient: if d[opt] == 1 { Some(b32_at(d, opt + 1)) } else { None },
        skip: d[t] == 1,
        min_batching: u32_at(d, t + 1),
        token: u16::from_le_bytes([d[t + 5], d[t + 6]]),
        subvention: u64_at(d, t + 7),
        network_fee: u64_at(d, t + 15),
        com_fee: u64_at(d, t + 23),
        com_fee_token: u64_at(d, t + 31),
        proof_fee: u64_at(d, t + 39),
        ata_rent: u64_at(d, t + 47),
        request: d[rq..rq + request_size()].to_vec(),
        trees: [u32_at(d, d.len() - 8), u32_at(d, d.len() - 4)],
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct VkView {
    pub kids: Vec<Option<Pubkey>>,
    pub inputs: u32,
    pub authority: Option<Pubkey>,
    pub frozen: bool,
    pub version: u32,
}
pub fn decode_vkey(d: &[u8]) -> VkView {
    let (kids, p) = opt_keys(d, 2, 2);
    VkView {
        kids,
        inputs: u32_at(d, p),
        authority: if d[p + 4] == 1 { Some(Pubkey::new(&d[p + 5..p + 37])) } else { None },
        frozen: d[p + 37] == 1,
        version: u32_at(d, p + 38),
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct GovView {
    pub fee_version: u32,
    pub fee: Fee,
    pub rate: u32,
    pub program_version: u32,
}
pub fn decode_gov(d: &[u8]) -> GovView {
    GovView {
        fee_version: u32_at(d, 2),
        fee: Fee::decode(&d[6..70]),
        rate: u32_at(d, 70),
        program_version: u32_at(d, 74),
    }
}

pub fn source_size(inputs: usize) -> usize {
    384 + 65 + inputs * 32 * 255 * 65 + 2 * 91 * 3 * 64 + 65 + 3 * 129
}

pub fn rent(len: usize) -> u64 {
    (len as u64 + 128) * 3480 * 2
}

pub fn key(domain: u64, i: u64) -> Pubkey {
    let mut b = [0u8; 32];
    for c in 0..4 {
        b[c * 8..c * 8 + 8].copy_from_slice(&mix(&[domain, i, c as u64]).to_le_bytes());
    }
    Pubkey::new_from_array(b)
}

/// Public inputs hash a client commits to
#[allow(clippy::too_many_arguments)]
pub fn hashed_inputs(
    recipient: &Pubkey,
    identifier: &Pubkey,
    iv: &B32,
    owner: &B32,
    reference: &Option<Pubkey>,
    is_ata: bool,
    metadata: &Meta,
    collector: &Pubkey,
    opt_fee: u64,
    memo: &Option<Vec<u8>>,
) -> B32 {
    let mut v = vec![];
    v.extend_from_slice(&recipient.to_bytes());
    v.extend_from_slice(&identifier.to_bytes());
    v.extend_from_slice(iv);
    v.extend_from_slice(owner);
    v.extend_from_slice(&reference.map(|r| r.to_bytes()).unwrap_or([0; 32]));
    v.push(is_ata as u8);
    v.extend_from_slice(metadata);
    v.extend_from_slice(&collector.to_bytes());
    v.extend_from_slice(&opt_fee.to_le_bytes());
    if let Some(m) = memo {
        v.extend_from_slice(m);
    }
    let mut h = solana_program::hash::hash(&v).to_bytes();
    h[31] &= 0b11111;
    h
}

pub fn tok_amount(l: &Ledger, k: &Pubkey) -> u64 {
    let a = l.get(k);
    if a.owner == spl_token::ID && a.data.len() == 165 {
        u64_at(&a.data, 64)
    } else {
        0
    }
}
