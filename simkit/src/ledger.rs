//! An in-process, single-threaded, deterministic stand-in for the Solana runtime.
//!
//! It holds all accounts, executes transactions atomically against the real program code and enforces
//! the runtime rules programs rely on: signatures, writability, ownership of lamports and data,
//! lamport conservation, rent exemption, privilege escalation in CPIs, removal of empty accounts.
//! Clock and rent are read by programs through the system-call stubs and are set by the simulator.

use solana_program::account_info::AccountInfo;
use solana_program::clock::Clock;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::system_program;
use solana_program::sysvar;
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Once};

pub type Processor = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;

pub const BIG: usize = 1 << 16;
pub const FEE_PER_SIGNATURE: u64 = 5000;

#[derive(Clone)]
pub struct Account {
    pub lamports: u64,
    pub data: Arc<Vec<u8>>,
    pub owner: Pubkey,
    pub executable: bool,
}

impl Default for Account {
    fn default() -> Self {
        Account { lamports: 0, data: Arc::new(vec![]), owner: system_program::ID, executable: false }
    }
}

#[derive(Clone)]
pub struct Tx {
    pub ixs: Vec<Instruction>,
    pub payer: Pubkey,
    pub signers: BTreeSet<Pubkey>,
}

impl Tx {
    pub fn new(ixs: Vec<Instruction>, payer: Pubkey, signers: &[Pubkey]) -> Self {
        let mut s: BTreeSet<Pubkey> = signers.iter().copied().collect();
        s.insert(payer);
        Tx { ixs, payer, signers: s }
    }
    /// Signed by everybody who has to sign
    pub fn full(ixs: Vec<Instruction>, payer: Pubkey) -> Self {
        let mut s = BTreeSet::new();
        s.insert(payer);
        for ix in &ixs {
            for m in &ix.accounts {
                if m.is_signer {
                    s.insert(m.pubkey);
                }
            }
        }
        Tx { ixs, payer, signers: s }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    /// Rejected before execution (signature missing, fee not payable)
    Precheck(&'static str),
    Program(usize, ProgramError),
    Panic(usize, String),
    Runtime(usize, &'static str),
}

impl Fail {
    pub fn text(&self) -> String {
        match self {
            Fail::Precheck(s) => format!("precheck:{s}"),
            Fail::Program(i, e) => format!("ix{i}:{e:?}"),
            Fail::Panic(i, e) => format!("ix{i}:panic({e})"),
            Fail::Runtime(i, e) => format!("ix{i}:runtime({e})"),
        }
    }
}

pub struct TxResult {
    pub res: Result<(), Fail>,
    /// State of all accounts of the transaction before it (after the fee was taken)
    pub pre: BTreeMap<Pubkey, Account>,
    pub fee: u64,
}

#[derive(Clone)]
pub struct Ledger {
    pub accts: BTreeMap<Pubkey, Account>,
    pub clock: Clock,
    pub rent: Rent,
    pub programs: BTreeMap<Pubkey, Processor>,
    pub fees_burned: u64,
    pub tx_count: u64,
    pub ix_count: u64,
    /// Check read-only accounts of any size for writes (costs copies)
    pub strict: bool,
    /// Lets the all-zero key (also the system program's) act as a wallet: stands in for a key that is not set yet
    pub zero_wallet: bool,
    pool: BTreeMap<usize, Vec<Vec<u8>>>,
}

struct PreState {
    lamports: u64,
    owner: Pubkey,
    data: Option<Vec<u8>>,
    len: usize,
}

struct Slot {
    key: *mut Pubkey,
    lamports: *mut u64,
    owner: *mut Pubkey,
    orig: Vec<u8>,
    info: AccountInfo<'static>,
    is_signer: bool,
    is_writable: bool,
    shared: bool,
    pre: PreState,
}

struct Frame {
    program: Pubkey,
    privs: BTreeMap<Pubkey, (bool, bool)>,
}

struct Ctx {
    slots: Vec<Slot>,
    index: BTreeMap<Pubkey, usize>,
    frames: Vec<Frame>,
    leaked: Vec<*mut [u8]>,
    programs: BTreeMap<Pubkey, Processor>,
    clock: Clock,
    rent: Rent,
    return_data: Option<(Pubkey, Vec<u8>)>,
    logs: Option<Vec<String>>,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = RefCell::new(None);
    static CLOCK: RefCell<Clock> = RefCell::new(Clock::default());
    pub static QUIET: RefCell<bool> = RefCell::new(false);
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    pub static LAST_AT: RefCell<String> = RefCell::new(String::new());
    pub static LOGS: RefCell<Option<Vec<String>>> = RefCell::new(None);
}

struct CpiAbort(Fail);

struct Stubs;

impl SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        let on = crate::heap::pause();
        LOGS.with(|l| {
            if let Some(l) = l.borrow_mut().as_mut() {
                l.push(message.to_string())
            }
        });
        crate::heap::resume(on);
    }
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _fields: &[&[u8]]) {}
    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        account_infos: &[AccountInfo],
        signers_seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let on = crate::heap::pause();
        let r = cpi(instruction, account_infos, signers_seeds);
        crate::heap::resume(on);
        r
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let on = crate::heap::pause();
        CLOCK.with(|c| unsafe { *(var_addr as *mut Clock) = c.borrow().clone() });
        crate::heap::resume(on);
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut Rent) = Rent::default() };
        0
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        CTX.with(|c| c.borrow().as_ref().and_then(|c| c.return_data.clone()))
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        CTX.with(|c| {
            if let Some(c) = c.borrow_mut().as_mut() {
                let p = c.frames.last().map(|f| f.program).unwrap_or_default();
                c.return_data = Some((p, data.to_vec()));
            }
        })
    }
}

static INIT: Once = Once::new();

pub fn init_runtime() {
    INIT.call_once(|| {
        set_syscall_stubs(Box::new(Stubs));
        let def = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let quiet = QUIET.with(|q| *q.borrow());
            if quiet {
                let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = info.payload().downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".to_string()
                };
                if std::env::var_os("SIM_PANICS").is_some() {
                    eprintln!("panic {msg} at {:?}", info.location());
                }
                let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
                LAST_PANIC.with(|p| *p.borrow_mut() = msg);
                LAST_AT.with(|p| *p.borrow_mut() = at);
            } else {
                def(info)
            }
        }));
    });
}

fn stub_system(accounts: &[AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    fn u64_at(d: &[u8], i: usize) -> Result<u64, ProgramError> {
        Ok(u64::from_le_bytes(
            d.get(i..i + 8).ok_or(ProgramError::InvalidInstructionData)?.try_into().unwrap(),
        ))
    }
    fn key_at(d: &[u8], i: usize) -> Result<Pubkey, ProgramError> {
        Ok(Pubkey::new(d.get(i..i + 32).ok_or(ProgramError::InvalidInstructionData)?))
    }
    fn transfer(from: &AccountInfo, to: &AccountInfo, lamports: u64) -> ProgramResult {
        if !from.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !from.data_is_empty() {
            return Err(ProgramError::InvalidArgument);
        }
        if from.lamports() < lamports {
            return Err(ProgramError::Custom(1));
        }
        **from.try_borrow_mut_lamports()? -= lamports;
        **to.try_borrow_mut_lamports()? += lamports;
        Ok(())
    }
    fn allocate(a: &AccountInfo<'static>, space: u64) -> ProgramResult {
        if !a.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !a.data_is_empty() || *a.owner != system_program::ID {
            return Err(ProgramError::Custom(0));
        }
        if space > 10 * 1024 * 1024 {
            return Err(ProgramError::Custom(3));
        }
        let depth = CTX.with(|c| c.borrow().as_ref().map_or(0, |c| c.frames.len()));
        if depth > 1 && space > 10 * 1024 {
            // no call may make an account grow by more
            panic_any(CpiAbort(Fail::Runtime(0, "InvalidRealloc")));
        }
        let b: Box<[u8]> = vec![0u8; space as usize].into_boxed_slice();
        let p = Box::into_raw(b);
        CTX.with(|c| c.borrow_mut().as_mut().unwrap().leaked.push(p));
        *a.data.borrow_mut() = unsafe { &mut *p };
        Ok(())
    }
    fn assign(a: &AccountInfo, owner: Pubkey) -> ProgramResult {
        if *a.owner == owner {
            return Ok(());
        }
        if !a.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        unsafe { std::ptr::write_volatile(a.owner as *const Pubkey as *mut Pubkey, owner) };
        Ok(())
    }
    let tag = u32::from_le_bytes(
        data.get(..4).ok_or(ProgramError::InvalidInstructionData)?.try_into().unwrap(),
    );
    let need = |n: usize| {
        if accounts.len() < n {
            Err(ProgramError::NotEnoughAccountKeys)
        } else {
            Ok(())
        }
    };
    match tag {
        0 => {
            need(2)?;
            if accounts[1].lamports() > 0 {
                return Err(ProgramError::Custom(0));
            }
            allocate(&accounts[1], u64_at(data, 12)?)?;
            assign(&accounts[1], key_at(data, 20)?)?;
            transfer(&accounts[0], &accounts[1], u64_at(data, 4)?)
        }
        1 => {
            need(1)?;
            assign(&accounts[0], key_at(data, 4)?)
        }
        2 => {
            need(2)?;
            transfer(&accounts[0], &accounts[1], u64_at(data, 4)?)
        }
        8 => {
            need(1)?;
            allocate(&accounts[0], u64_at(data, 4)?)
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

/// Checks what the program that just ran was allowed to do, then takes the new state as the baseline
fn verify_boundary(ctx: &mut Ctx, program: &Pubkey) -> Result<(), &'static str> {
    let mut before: u128 = 0;
    let mut after: u128 = 0;
    for s in ctx.slots.iter_mut() {
        let lamports = unsafe { *s.lamports };
        let owner = unsafe { std::ptr::read_volatile(s.owner) };
        let pre = &mut s.pre;
        before += pre.lamports as u128;
        after += lamports as u128;
        if lamports != pre.lamports {
            if !s.is_writable {
                return Err("ReadonlyLamportChange");
            }
            if lamports < pre.lamports && pre.owner != *program {
                return Err("ExternalAccountLamportSpend");
            }
            pre.lamports = lamports;
        }
        // the caller may hold borrows of accounts the call does not involve
        let data: &[u8] = unsafe { &**s.info.data.as_ptr() };
        let mut changed = false;
        if data.len() != pre.len {
            changed = true;
        } else if let Some(d) = &pre.data {
            changed = d[..] != data[..];
        }
        if changed {
            if !s.is_writable {
                return Err("ReadonlyDataModified");
            }
            if pre.owner != *program {
                return Err("ExternalAccountDataModified");
            }
            pre.len = data.len();
            pre.data = if data.len() <= BIG { Some(data.to_vec()) } else { None };
        }
        if owner != pre.owner {
            if !s.is_writable || pre.owner != *program {
                return Err("ModifiedProgramId");
            }
            if *program != system_program::ID && data.iter().any(|&b| b != 0) {
                return Err("ModifiedProgramId");
            }
            pre.owner = owner;
        }
    }
    if before != after {
        return Err("UnbalancedInstruction");
    }
    Ok(())
}

fn cpi(ix: &Instruction, infos_in: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let abort = |f: Fail| -> ! { panic_any(CpiAbort(f)) };
    let depth_ok = CTX.with(|c| c.borrow().as_ref().map(|c| c.frames.len() < 5));
    match depth_ok {
        None => return Err(ProgramError::Custom(0xDEAD)),
        Some(false) => abort(Fail::Runtime(0, "CallDepth")),
        _ => {}
    }
    let (callee, prep) = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let ctx = c.as_mut().unwrap();
        let caller = ctx.frames.last().unwrap().program;
        let pda_signers: Vec<Pubkey> =
            seeds.iter().filter_map(|s| Pubkey::create_program_address(s, &caller).ok()).collect();
        if pda_signers.len() != seeds.len() {
            return (None, Err(Fail::Program(0, ProgramError::InvalidSeeds)));
        }
        if let Err(e) = verify_boundary(ctx, &caller) {
            return (None, Err(Fail::Runtime(0, e)));
        }
        // union of the privileges over duplicate metas
        let mut privs: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for m in &ix.accounts {
            let e = privs.entry(m.pubkey).or_insert((false, false));
            e.0 |= m.is_signer;
            e.1 |= m.is_writable;
        }
        for (k, (s, w)) in privs.iter() {
            let have = ctx.frames.last().unwrap().privs.get(k).copied();
            let have = match have {
                Some(h) => h,
                None => return (None, Err(Fail::Runtime(0, "MissingAccount"))),
            };
            // the account info has to have been handed over as well (the runtime knows executable ones itself)
            let executable = ctx.programs.contains_key(k)
                || *k == system_program::ID
                || ctx.slots[ctx.index[k]].info.executable;
            if !executable && !infos_in.iter().any(|i| i.key == k) {
                return (None, Err(Fail::Runtime(0, "MissingAccount")));
            }
            if *w && !have.1 {
                return (None, Err(Fail::Runtime(0, "WritablePrivilegeEscalation")));
            }
            if *s && !have.0 && !pda_signers.contains(k) {
                return (None, Err(Fail::Runtime(0, "SignerPrivilegeEscalation")));
            }
        }
        let caller_privs = &ctx.frames.last().unwrap().privs;
        if !caller_privs.contains_key(&ix.program_id) && !ctx.programs.contains_key(&ix.program_id)
            && ix.program_id != system_program::ID
        {
            return (None, Err(Fail::Runtime(0, "MissingProgram")));
        }
        let infos: Vec<AccountInfo<'static>> = ix
            .accounts
            .iter()
            .map(|m| {
                let mut i = ctx.slots[ctx.index[&m.pubkey]].info.clone();
                let p = privs[&m.pubkey];
                i.is_signer = p.0;
                i.is_writable = p.1;
                i
            })
            .collect();
        ctx.frames.push(Frame { program: ix.program_id, privs });
        ctx.return_data = None;
        (Some(infos), Ok(ctx.programs.get(&ix.program_id).copied()))
    });
    let processor = match prep {
        Ok(p) => p,
        Err(f) => abort(f),
    };
    let infos = callee.unwrap();
    let r = run_processor(&ix.program_id, processor, &infos, &ix.data);
    if let Err(e) = r {
        abort(Fail::Program(0, e));
    }
    let v = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let ctx = c.as_mut().unwrap();
        ctx.frames.pop();
        verify_boundary(ctx, &ix.program_id)
    });
    if let Err(e) = v {
        abort(Fail::Runtime(0, e));
    }
    Ok(())
}

fn run_processor(
    program: &Pubkey,
    processor: Option<Processor>,
    infos: &[AccountInfo<'static>],
    data: &[u8],
) -> ProgramResult {
    if *program == system_program::ID {
        return stub_system(infos, data);
    }
    match processor {
        Some(p) => p(program, infos, data),
        None => Err(ProgramError::IncorrectProgramId),
    }
}

impl Default for Ledger {
    fn default() -> Self {
        Self::new()
    }
}

impl Ledger {
    pub fn new() -> Self {
        init_runtime();
        let mut programs: BTreeMap<Pubkey, Processor> = BTreeMap::new();
        programs.insert(spl_token::ID, |p, a, d| spl_token::processor::Processor::process(p, a, d));
        programs.insert(spl_associated_token_account::ID, |p, a, d| {
            spl_associated_token_account::processor::process_instruction(p, a, d)
        });
        let mut clock = Clock::default();
        clock.unix_timestamp = 1_670_000_000;
        clock.slot = 1_000;
        let mut l = Ledger {
            accts: BTreeMap::new(),
            clock,
            rent: Rent::default(),
            programs,
            fees_burned: 0,
            tx_count: 0,
            ix_count: 0,
            strict: false,
            zero_wallet: false,
            pool: BTreeMap::new(),
        };
        for p in [
            spl_token::ID,
            spl_associated_token_account::ID,
            system_program::ID,
        ] {
            l.add_program_account(p);
        }
        l
    }

    fn add_program_account(&mut self, p: Pubkey) {
        self.accts.insert(
            p,
            Account {
                lamports: 1_000_000,
                data: Arc::new(vec![]),
                owner: solana_program::bpf_loader::ID,
                executable: true,
            },
        );
    }

    pub fn add_program(&mut self, id: Pubkey, p: Processor) {
        self.programs.insert(id, p);
        self.add_program_account(id);
    }

    pub fn get(&self, k: &Pubkey) -> Account {
        self.accts.get(k).cloned().unwrap_or_default()
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.accts.get(k).map(|a| a.lamports).unwrap_or(0)
    }
    pub fn data(&self, k: &Pubkey) -> Arc<Vec<u8>> {
        self.get(k).data
    }
    pub fn set(&mut self, k: Pubkey, lamports: u64, data: Vec<u8>, owner: Pubkey) {
        self.accts.insert(k, Account { lamports, data: Arc::new(data), owner, executable: false });
    }
    pub fn airdrop(&mut self, k: &Pubkey, lamports: u64) {
        self.accts.entry(*k).or_default().lamports += lamports;
    }
    pub fn exists(&self, k: &Pubkey) -> bool {
        self.accts.get(k).map_or(false, |a| a.lamports > 0)
    }
    pub fn total_lamports(&self) -> u128 {
        self.accts.values().map(|a| a.lamports as u128).sum::<u128>() + self.fees_burned as u128
    }

    fn copy_buf(&mut self, src: &[u8]) -> Vec<u8> {
        if src.len() > BIG {
            if let Some(mut b) = self.pool.get_mut(&src.len()).and_then(|v| v.pop()) {
                b.copy_from_slice(src);
                return b;
            }
        }
        src.to_vec()
    }

    fn recycle(&mut self, a: Arc<Vec<u8>>) {
        if a.len() > BIG {
            if let Ok(v) = Arc::try_unwrap(a) {
                let e = self.pool.entry(v.len()).or_default();
                if e.len() < 12 {
                    e.push(v);
                }
            }
        }
    }

    /// Drops the recycling pool (before cloning)
    pub fn fork(&self) -> Ledger {
        Ledger {
            accts: self.accts.clone(),
            clock: self.clock.clone(),
            rent: self.rent,
            programs: self.programs.clone(),
            fees_burned: self.fees_burned,
            tx_count: self.tx_count,
            ix_count: self.ix_count,
            strict: self.strict,
            zero_wallet: self.zero_wallet,
            pool: BTreeMap::new(),
        }
    }

    /// Drops a result and gives its big buffers back for reuse
    pub fn done(&mut self, r: TxResult) {
        for (_, a) in r.pre {
            self.recycle(a.data);
        }
    }

    pub fn execute(&mut self, tx: &Tx) -> TxResult {
        self.tx_count += 1;
        // Signatures
        for ix in &tx.ixs {
            for m in &ix.accounts {
                if m.is_signer && !tx.signers.contains(&m.pubkey) {
                    return TxResult {
                        res: Err(Fail::Precheck("signature")),
                        pre: BTreeMap::new(),
                        fee: 0,
                    };
                }
            }
        }
        let mut required: BTreeSet<Pubkey> = BTreeSet::new();
        required.insert(tx.payer);
        let mut flags: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        flags.insert(tx.payer, (true, true));
        for ix in &tx.ixs {
            for m in &ix.accounts {
                let e = flags.entry(m.pubkey).or_insert((false, false));
                e.0 |= m.is_signer;
                e.1 |= m.is_writable;
                if m.is_signer {
                    required.insert(m.pubkey);
                }
            }
            flags.entry(ix.program_id).or_insert((false, false));
        }
        let fee = FEE_PER_SIGNATURE * required.len() as u64;
        {
            let p = self.accts.entry(tx.payer).or_default();
            let min = Rent::default().minimum_balance(0);
            if p.owner != system_program::ID
                || p.lamports < fee
                || (p.lamports - fee != 0 && p.lamports - fee < min)
            {
                return TxResult { res: Err(Fail::Precheck("fee")), pre: BTreeMap::new(), fee: 0 };
            }
            p.lamports -= fee;
            self.fees_burned += fee;
        }

        let mut pre: BTreeMap<Pubkey, Account> = BTreeMap::new();
        for k in flags.keys() {
            pre.insert(*k, self.get(k));
        }

        // Instructions sysvar
        let borrowed: Vec<_> = tx
            .ixs
            .iter()
            .map(|ix| solana_program::sysvar::instructions::BorrowedInstruction {
                program_id: &ix.program_id,
                accounts: ix
                    .accounts
                    .iter()
                    .map(|m| solana_program::sysvar::instructions::BorrowedAccountMeta {
                        pubkey: &m.pubkey,
                        is_signer: flags[&m.pubkey].0,
                        is_writable: flags[&m.pubkey].1,
                    })
                    .collect(),
                data: &ix.data,
            })
            .collect();
        let ixs_data = solana_program::sysvar::instructions::construct_instructions_data(&borrowed);

        let mut slots = vec![];
        let mut index = BTreeMap::new();
        for (k, (is_signer, is_writable)) in flags.iter() {
            let mut a = pre[k].clone();
            let mut is_writable = *is_writable;
            if *k == sysvar::instructions::ID {
                a.data = Arc::new(ixs_data.clone());
                a.owner = sysvar::ID;
                a.lamports = 1;
                is_writable = false;
            }
            if a.executable || (*k == system_program::ID && !self.zero_wallet) {
                is_writable = false;
            }
            let shared = !self.strict && !is_writable && a.data.len() > BIG;
            let mut orig: Vec<u8> = if shared { vec![] } else { self.copy_buf(&a.data) };
            let slice: &'static mut [u8] = unsafe {
                if shared {
                    std::slice::from_raw_parts_mut(a.data.as_ptr() as *mut u8, a.data.len())
                } else {
                    std::slice::from_raw_parts_mut(orig.as_mut_ptr(), orig.len())
                }
            };
            let key = Box::into_raw(Box::new(*k));
            let lamports = Box::into_raw(Box::new(a.lamports));
            let owner = Box::into_raw(Box::new(a.owner));
            let info = AccountInfo {
                key: unsafe { &*key },
                is_signer: *is_signer,
                is_writable,
                lamports: Rc::new(RefCell::new(unsafe { &mut *lamports })),
                data: Rc::new(RefCell::new(slice)),
                owner: unsafe { &*owner },
                executable: a.executable,
                rent_epoch: 0,
            };
            index.insert(*k, slots.len());
            slots.push(Slot {
                key,
                lamports,
                owner,
                info,
                is_signer: *is_signer,
                is_writable,
                shared,
                pre: PreState {
                    lamports: a.lamports,
                    owner: a.owner,
                    len: a.data.len(),
                    data: if a.data.len() <= BIG || (self.strict && !is_writable) { Some(a.data.to_vec()) } else { None },
                },
                orig,
            });
        }
        CLOCK.with(|c| *c.borrow_mut() = self.clock.clone());
        CTX.with(|c| {
            *c.borrow_mut() = Some(Ctx {
                slots,
                index,
                frames: vec![],
                leaked: vec![],
                programs: std::mem::take(&mut self.programs),
                clock: self.clock.clone(),
                rent: self.rent,
                return_data: None,
                logs: None,
            })
        });

        let mut res = Ok(());
        for (i, ix) in tx.ixs.iter().enumerate() {
            self.ix_count += 1;
            if let Err(f) = self.run_ix(i, ix) {
                res = Err(f);
                break;
            }
        }

        let mut ctx = CTX.with(|c| c.borrow_mut().take()).unwrap();
        self.programs = std::mem::take(&mut ctx.programs);

        // Rent state
        if res.is_ok() {
            for s in &ctx.slots {
                if !s.is_writable {
                    continue;
                }
                let p = &pre[unsafe { &*s.key }];
                let lamports = unsafe { *s.lamports };
                let len = s.info.data.borrow().len();
                let exempt = |l: u64, n: usize| l >= Rent::default().minimum_balance(n);
                let post_paying = lamports > 0 && !exempt(lamports, len);
                let pre_paying = p.lamports > 0 && !exempt(p.lamports, p.data.len());
                if post_paying && !(pre_paying && p.data.len() == len && lamports <= p.lamports) {
                    res = Err(Fail::Runtime(tx.ixs.len(), "InsufficientFundsForRent"));
                    break;
                }
            }
        }

        let commit = res.is_ok();
        for s in ctx.slots.drain(..) {
            let key = unsafe { *Box::from_raw(s.key) };
            let (cur_ptr, cur_len) = match s.info.data.try_borrow() {
                Ok(d) => (d.as_ptr(), d.len()),
                // a panicking program may have left a borrow behind; nothing is committed then
                Err(_) => (s.orig.as_ptr(), s.orig.len()),
            };
            if commit && s.is_writable {
                let lamports = unsafe { *s.lamports };
                let owner = unsafe { std::ptr::read_volatile(s.owner) };
                if lamports == 0 {
                    self.accts.remove(&key);
                } else {
                    let executable = s.info.executable;
                    let data = if cur_ptr == s.orig.as_ptr() && cur_len == s.orig.len() {
                        s.orig
                    } else {
                        unsafe { std::slice::from_raw_parts(cur_ptr, cur_len).to_vec() }
                    };
                    self.accts
                        .insert(key, Account { lamports, data: Arc::new(data), owner, executable });
                }
            } else if !s.shared && s.orig.len() > BIG {
                self.recycle(Arc::new(s.orig));
            }
            drop(s.info);
            unsafe {
                drop(Box::from_raw(s.lamports));
                drop(Box::from_raw(s.owner));
            }
        }
        for p in ctx.leaked.drain(..) {
            unsafe { drop(Box::from_raw(p)) };
        }
        let _ = (&ctx.clock, &ctx.rent, &ctx.logs);
        TxResult { res, pre, fee }
    }

    fn run_ix(&mut self, i: usize, ix: &Instruction) -> Result<(), Fail> {
        let (infos, processor) = CTX.with(|c| {
            let mut c = c.borrow_mut();
            let ctx = c.as_mut().unwrap();
            // current instruction index of the sysvar
            if let Some(&si) = ctx.index.get(&sysvar::instructions::ID) {
                let s = &mut ctx.slots[si];
                let mut d = s.info.data.borrow_mut();
                let n = d.len();
                d[n - 2..].copy_from_slice(&(i as u16).to_le_bytes());
                s.pre.data = Some(d.to_vec());
            }
            let infos: Vec<AccountInfo<'static>> = ix
                .accounts
                .iter()
                .map(|m| ctx.slots[ctx.index[&m.pubkey]].info.clone())
                .collect();
            let privs = ix
                .accounts
                .iter()
                .map(|m| {
                    let s = &ctx.slots[ctx.index[&m.pubkey]];
                    (m.pubkey, (s.is_signer, s.is_writable))
                })
                .collect();
            ctx.frames = vec![Frame { program: ix.program_id, privs }];
            ctx.return_data = None;
            (infos, ctx.programs.get(&ix.program_id).copied())
        });
        let was_quiet = QUIET.with(|q| q.replace(true));
        let r = catch_unwind(AssertUnwindSafe(|| {
            crate::heap::enter(120 * infos.len());
            run_processor(&ix.program_id, processor, &infos, &ix.data)
        }));
        let used = crate::heap::leave();
        let native = ix.program_id == system_program::ID || ix.program_id == spl_token::ID;
        if matches!(r, Ok(Ok(()))) && !native {
            crate::heap::PEAK.fetch_max(used, std::sync::atomic::Ordering::Relaxed);
            if used > crate::heap::HEAP {
                QUIET.with(|q| q.replace(was_quiet));
                return Err(Fail::Runtime(i, "HeapExhausted"));
            }
        }
        QUIET.with(|q| q.replace(was_quiet));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(Fail::Program(i, e)),
            Err(p) => return Err(panic_fail(i, p)),
        }
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            verify_boundary(c.as_mut().unwrap(), &ix.program_id)
        })
        .map_err(|e| Fail::Runtime(i, e))
    }
}

fn panic_fail(i: usize, p: Box<dyn Any + Send>) -> Fail {
    match p.downcast::<CpiAbort>() {
        Ok(a) => match a.0 {
            Fail::Program(_, e) => Fail::Program(i, e),
            Fail::Runtime(_, e) => Fail::Runtime(i, e),
            f => f,
        },
        Err(_) => Fail::Panic(i, LAST_PANIC.with(|p| p.borrow().clone())),
    }
}
