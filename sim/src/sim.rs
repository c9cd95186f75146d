//! The simulated deployment: ledger running the real program, reference model, and the comparison of both.

use crate::bank::{parse_tok, Bank};
use crate::groth;
use crate::merkle::{empty, Tree, HEIGHT};
use crate::model::*;
use crate::nullset::NullSet;
use crate::poseidon::{from_mont, mont, raw};
use crate::proto::*;
use ark_bn254::Fr;
use simkit::driver::Report;
use simkit::ledger::{Account, Fail, Ledger, Tx, TxResult, BIG};
use solana_program::pubkey::Pubkey;
use solana_program::system_program;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// What happened so far as seen by an outside observer (follows the chain through rollbacks)
#[derive(Clone, Default)]
pub struct Hist {
    /// Value of all notes that exist or are on their way into the tree
    pub circ: BTreeMap<u16, i128>,
    /// Fees offered beyond the schedule stay in the pool
    pub extra: BTreeMap<u16, i128>,
    pub stored: BTreeMap<B32, u32>,
    pub inserted: BTreeMap<B32, u32>,
    /// (tree, index) of every leaf
    pub leaf: BTreeMap<B32, (u32, u32)>,
    pub spent: BTreeSet<B32>,
    /// Every root a tree ever had: (tree, root) -> number of leaves
    pub roots: BTreeMap<(u32, B32), u32>,
    pub finals: BTreeMap<u32, B32>,
    pub donated: BTreeMap<u16, i128>,
    pub paid: u64,
    pub rejected: u64,
    pub deposits: u64,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Out {
    Done,
    /// Both refused
    Refused(String),
    /// Never reached the chain
    Lost,
    /// The comparison failed
    Broken,
}
impl Out {
    pub fn ok(&self) -> bool {
        *self == Out::Done
    }
}

pub struct Sim {
    pub l: Ledger,
    pub st: State,
    pub h: Hist,
    pub rep: Report,
    pub dead: bool,
    /// Check the conservation equation after every transaction
    pub conserve: bool,
    pub fast_forwards: u64,
    /// The reference model's reason of the last refusal
    pub why: String,
    /// Accounts made by the simulator that belong to no part of the protocol
    pub alien: BTreeSet<Pubkey>,
}

#[derive(Clone)]
pub struct Snapshot {
    pub accts: BTreeMap<Pubkey, Account>,
    pub st: State,
    pub h: Hist,
    pub burned: u64,
}

pub fn noop(_: &Pubkey, _: &[solana_program::account_info::AccountInfo], _: &[u8]) -> solana_program::entrypoint::ProgramResult {
    Ok(())
}

pub fn short(s: &str) -> String {
    s.chars().filter(|c| !c.is_ascii_digit() && *c != '\n').take(70).collect()
}

pub fn fail_kind(f: &Fail) -> (usize, String) {
    match f {
        Fail::Precheck(s) => (0, format!("precheck {s}")),
        Fail::Program(i, e) => (*i, format!("{e:?}")),
        Fail::Panic(i, e) => (*i, format!("panic {}", short(e))),
        Fail::Runtime(i, e) => (*i, format!("runtime {e}")),
    }
}

/// Long values start where they matter little: keep both ends
pub fn clip(s: &str) -> String {
    if s.len() < 260 || !s.is_ascii() {
        s.to_string()
    } else {
        format!("{}..{}", &s[..160], &s[s.len() - 90..])
    }
}

fn diff_writes(pre: &[u8], post: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    const B: usize = 4096;
    let mut o = 0;
    while o < pre.len() {
        let e = (o + B).min(pre.len());
        if pre[o..e] != post[o..e] {
            let mut i = o;
            while i < e {
                if pre[i] != post[i] {
                    let s = i;
                    while i < e && pre[i] != post[i] {
                        i += 1;
                    }
                    v.push((s, i));
                } else {
                    i += 1;
                }
            }
        }
        o = e;
    }
    v
}

impl Sim {
    pub fn new() -> Self {
        let mut l = Ledger::new();
        l.add_program(ID, |p, a, d| elusiv::entrypoint::process_instruction(p, a, d));
        l.add_program(MEMO, noop);
        l.add_program(budget_program(), noop);
        l.add_program(crate::subst::fake_program(), noop);
        Sim {
            l,
            st: State::empty(),
            h: Hist::default(),
            rep: Report::default(),
            dead: false,
            conserve: true,
            fast_forwards: 0,
            why: String::new(),
            alien: BTreeSet::new(),
        }
    }

    pub fn snapshot(&self) -> Snapshot {
        Snapshot { accts: self.l.accts.clone(), st: self.st.clone(), h: self.h.clone(), burned: self.l.fees_burned }
    }
    pub fn restore(&mut self, s: &Snapshot) {
        self.l.accts = s.accts.clone();
        self.l.fees_burned = s.burned;
        self.st = s.st.clone();
        self.h = s.h.clone();
    }

    pub fn bad(&mut self, props: &[&'static str], kind: impl Into<String>, detail: impl Into<String>) {
        self.dead = true;
        self.rep.violate(props, kind, detail);
    }

    /// Executes a fully signed transaction
    pub fn run(&mut self, ops: &[Op], payer: Pubkey) -> Out {
        let kids = self.st.kids();
        let ixs: Vec<_> = ops.iter().map(|o| build(o, &kids)).collect();
        self.run_tx(ops, Tx::full(ixs, payer))
    }

    pub fn run_tx(&mut self, ops: &[Op], tx: Tx) -> Out {
        if self.dead {
            return Out::Broken;
        }
        self.rep.txs += 1;
        self.rep.ixs += ops.len() as u64;
        let r = self.l.execute(&tx);
        let out = self.judge(ops, &tx, &r);
        self.l.done(r);
        out
    }

    fn judge(&mut self, ops: &[Op], tx: &Tx, r: &TxResult) -> Out {
        let names: Vec<&str> = ops.iter().map(|o| o.name()).collect();
        if let Err(f @ Fail::Precheck(_)) = &r.res {
            self.rep.log(format!("tx {} lost: {}", names.join("+"), f.text()));
            return Out::Lost;
        }
        let mut signers = BTreeSet::new();
        let mut writable = BTreeSet::new();
        signers.insert(tx.payer);
        writable.insert(tx.payer);
        for ix in &tx.ixs {
            for m in &ix.accounts {
                if m.is_signer {
                    signers.insert(m.pubkey);
                }
                if m.is_writable {
                    writable.insert(m.pubkey);
                }
            }
        }
        let mut bank = Bank::new(&r.pre, signers, writable);
        let model = apply_tx(&self.st, ops, &mut bank, &r.pre);
        let opname = |i: usize| ops.get(i).map(|o| o.name()).unwrap_or("end");
        let props_at = |i: usize| -> Vec<&'static str> {
            match ops.get(i) {
                Some(o) => op_props(o),
                None => ops.iter().flat_map(op_props).collect(),
            }
        };
        match (&r.res, model) {
            (Ok(()), Ok((st, eff))) => {
                let before = self.rep.violations.len();
                self.compare(ops, tx, &r.pre, &bank, st, &eff);
                if self.rep.violations.len() > before {
                    self.dead = true;
                    return Out::Broken;
                }
                self.rep.log(format!("tx {} ok", names.join("+")));
                for p in ops.iter().flat_map(op_props) {
                    self.rep.hit(p);
                }
                self.rep.hit("C21");
                self.events(&eff);
                if self.conserve && !self.dead {
                    self.conservation();
                }
                if self.dead {
                    Out::Broken
                } else {
                    Out::Done
                }
            }
            (Ok(()), Err((i, e))) => {
                let kind = format!("accepted:{}:{}", opname(i), e.why);
                self.bad(&e.props, kind, format!("transaction {} was accepted; it has to be refused at instruction {} because of {}", names.join("+"), i, e.why));
                Out::Broken
            }
            (Err(f), Err((i, e))) => {
                self.rep.log(format!("tx {} refused: {} / {}:{}", names.join("+"), f.text(), i, e.why));
                self.rep.probe(format!("refused {}:{}", opname(i), e.why));
                self.why = e.why.clone();
                for p in e.props {
                    self.rep.hit(p);
                }
                Out::Refused(fail_kind(f).1)
            }
            (Err(f), Ok(_)) => {
                let (i, t) = fail_kind(f);
                let limit = matches!(f, Fail::Runtime(_, "HeapExhausted" | "InvalidRealloc" | "CallDepth"));
                if let Some(Op::InitVerif { trees, .. }) = ops.get(i) {
                    // one account in both places: whether the program can take it is not specified
                    if trees[0] == trees[1] && !limit {
                        self.rep.log(format!("tx {} refused: same tree in both places", names.join("+")));
                        return Out::Refused(t);
                    }
                }
                if let Some(Op::Compute { payer, idx, .. }) = ops.get(i) {
                    // a computation that found the proof invalid ends early; further steps are refused
                    let k = verif(payer, *idx as u32);
                    if let Some(v) = self.st.verifs.get(&k) {
                        let exp = self.expected(v);
                        let last_part = v.miller == MILLER_IXS && v.prep_done as usize == v.prep.len();
                        if !limit && (v.tainted || exp != Some(true) && !last_part) {
                            self.rep.log(format!("tx {} refused early: {}", names.join("+"), f.text()));
                            return Out::Refused(t);
                        }
                    }
                }
                let mut p = props_at(i);
                p.push("C10");
                if let Some(Op::Compute { payer, idx, .. }) = ops.get(i) {
                    if self.st.verifs.get(&verif(payer, *idx as u32)).map_or(false, |v| self.expected(v) == Some(false)) {
                        p.push("C20");
                    }
                }
                if limit {
                    p.push("C21");
                }
                let op = ops.get(i).map(|o| format!("{o:?}")).unwrap_or_default();
                let kind = format!("refused:{}:{}", opname(i), t);
                self.bad(&p, kind, format!("valid transaction {} was refused: {} at {}", names.join("+"), f.text(), &op[..op.len().min(600)]));
                Out::Broken
            }
        }
    }

    pub fn expected(&self, v: &Verif) -> Option<bool> {
        if v.tainted {
            return None;
        }
        if v.expected.is_some() {
            return v.expected;
        }
        let key = match &v.key {
            Some((_, k)) => *k,
            None => self.st.vkeys.get(&v.vkey).and_then(|k| k.key),
        }?;
        Some(verify_cached(key, &v.inputs, v.proof.as_ref()?))
    }

    fn compare(&mut self, ops: &[Op], tx: &Tx, pre: &BTreeMap<Pubkey, Account>, bank: &Bank, mut st: State, eff: &Effects) {
        let names: Vec<&str> = ops.iter().map(|o| o.name()).collect();
        let main = names.iter().find(|n| !matches!(**n, "Budget" | "Nop" | "Memo")).copied().unwrap_or("Nop");
        let last = names.iter().rev().find(|n| !matches!(**n, "Budget" | "Nop" | "Memo" | "SysTransfer" | "TokTransfer")).copied().unwrap_or(main);
        let mut bad: Vec<(Vec<&'static str>, String, String)> = vec![];

        // vkey bytes that became active
        for op in ops {
            if let Op::VkUpdate { id, .. } = op {
                let v = st.vkeys.get_mut(id).unwrap();
                let data = self.l.data(&v.kids[0].unwrap());
                v.key = (0..3).find(|i| data.get(1..) == Some(&groth::key(*i).source[..]));
            }
        }

        // balances
        let mut money: Vec<&'static str> = vec!["C02"];
        for o in ops {
            match o {
                Op::Store { .. } | Op::Fee { .. } => money.push("C11"),
                Op::FinalizeBase { .. } => money.push("C06"),
                Op::PayLamports { payer, idx, .. } | Op::PayToken { payer, idx, .. } => {
                    let f = self.st.verifs.get(&verif(payer, *idx as u32)).map_or(false, |v| v.verified == Some(false));
                    money.push(if f { "C20" } else { "C09" });
                }
                Op::VkUpdate { .. } => money.push("C12"),
                Op::ComputeHash { .. } => money.push("C04"),
                _ => {}
            }
        }
        for (k, p) in pre {
            let now = self.l.get(k);
            let want = bank.get(k);
            if *k == solana_program::sysvar::instructions::ID {
                continue;
            }
            // somebody who did not agree lost something
            let robbed = |lost: bool| {
                let mut m = money.clone();
                if lost && !tx.signers.contains(k) {
                    m.push("C13");
                    if p.owner == ID && now.lamports == 0 {
                        m.extend(["C14", "C19"]);
                    }
                }
                m
            };
            if now.lamports != want.lamports {
                bad.push((
                    robbed(now.lamports < want.lamports),
                    format!("lamports:{last}:{}", role(k)),
                    format!("{k}: {} lamports before, {} after, {} expected", p.lamports, now.lamports, want.lamports),
                ));
                continue;
            }
            if now.lamports > 0 && now.owner != want.owner {
                bad.push((
                    vec!["C13", "C14"],
                    format!("owner:{last}:{}", role(k)),
                    format!("{k}: owner {} expected {}", now.owner, want.owner),
                ));
                continue;
            }
            let tok = parse_tok(&now);
            if now.lamports > 0 && tok != want.tok {
                bad.push((
                    robbed(tok.as_ref().map(|t| t.amount) < want.tok.as_ref().map(|t| t.amount)),
                    format!("tokens:{last}:{}", role(k)),
                    format!("{k}: {:?} expected {:?}", tok, want.tok),
                ));
            }
        }

        // computation that ended early for an invalid proof, or with a key of unknown content
        for op in ops {
            if let Op::Compute { payer, idx, .. } = op {
                let k = verif(payer, *idx as u32);
                let d = self.l.data(&k);
                if d.is_empty() {
                    continue;
                }
                let real = decode_verif(&d).verified;
                let free = {
                    let v = &st.verifs[&k];
                    v.tainted || matches!(v.key, Some((_, None)))
                };
                let exp = self.expected(&st.verifs[&k]);
                let v = st.verifs.get_mut(&k).unwrap();
                if real != v.verified && (free || (v.verified.is_none() && real == Some(false) && exp == Some(false) && v.state == S_PROOF)) {
                    v.verified = real;
                }
            }
        }

        // program state
        for (k, p) in pre {
            let now = self.l.get(k);
            let keydata = self.st.vkeys.values().chain(st.vkeys.values()).any(|v| v.kids.contains(&Some(*k)));
            if now.data.len() > BIG || p.data.len() > BIG || keydata {
                self.compare_big(k, p, &now, &st, eff, last, &mut bad);
                continue;
            }
            if now.lamports == 0 {
                continue;
            }
            if now.owner == ID {
                if let Some((props, what, detail)) = self.compare_small(k, &now.data, &st) {
                    bad.push((props, format!("data:{last}:{what}"), detail));
                }
            }
        }
        // nothing appeared or disappeared that the model knows nothing about
        for (k, v) in st.verifs.iter() {
            if pre.contains_key(k) && !self.l.exists(k) {
                bad.push((vec!["C19"], format!("gone:{last}:verification"), format!("{k} {}", v.state)));
            }
        }
        for (p, k, d) in bad {
            let mut props = p;
            props.extend(ops.iter().flat_map(op_props).filter(|x| matches!(*x, "C06" | "C08" | "C12" | "C15")));
            props.sort_unstable();
            props.dedup();
            self.rep.violate(&props, k, format!("{} :: {}", names.join("+"), d));
        }
        self.st = st;
    }

    #[allow(clippy::too_many_arguments)]
    fn compare_big(
        &mut self,
        k: &Pubkey,
        p: &Account,
        now: &Account,
        st: &State,
        eff: &Effects,
        last: &str,
        bad: &mut Vec<(Vec<&'static str>, String, String)>,
    ) {
        if Arc::ptr_eq(&p.data, &now.data) {
            // not written; nothing may be missing
            if eff.cells.iter().any(|c| c.0 == *k && p.data[c.1..c.1 + c.2.len()] != c.2[..]) {
                bad.push((vec!["C04"], format!("unwritten:{last}"), format!("{k}")));
            }
            return;
        }
        if now.lamports == 0 {
            return;
        }
        let what = |st: &State| -> (&'static str, Vec<&'static str>) {
            if st.st_kids.contains(&Some(*k)) {
                ("storage", vec!["C04", "C08"])
            } else if st.meta_kids.contains(&Some(*k)) {
                ("metadata", vec!["C04", "C07"])
            } else if st.vkeys.values().any(|v| v.kids.contains(&Some(*k))) {
                ("vkey", vec!["C12"])
            } else if st.nulls.values().any(|n| n.kids.contains(&Some(*k))) {
                ("nullifiers", vec!["C15", "C01"])
            } else {
                ("data", vec!["C13", "C14"])
            }
        };
        let (name, props) = what(st);
        for (mt, n) in &st.nulls {
            for (i, c) in n.kids.iter().enumerate() {
                if *c == Some(*k) {
                    if p.data == now.data {
                        if eff.null_kids.contains(&(*mt, i)) && decode_map(&now.data).as_deref() != Some(&n.set.block(i)[..]) {
                            bad.push((vec!["C01", "C15"], format!("unwritten:{last}:nullifiers"), format!("{k}")));
                        }
                        return;
                    }
                    let got = decode_map(&now.data);
                    let want = n.set.block(i);
                    if got.as_ref() != Some(&want) {
                        let g = got.map(|g| g.len());
                        bad.push((
                            vec!["C15", "C01"],
                            format!("data:{last}:nullifiers"),
                            format!("tree {mt} account {i}: {g:?} values, {} expected, or other values", want.len()),
                        ));
                    }
                    if now.data[0] != 1 {
                        bad.push((vec!["C14"], format!("in-use:{last}:nullifiers"), format!("{k}")));
                    }
                    return;
                }
            }
        }
        // every written byte is one the operation has to write, and all of those have the right value
        let mut want: BTreeMap<usize, &Vec<u8>> = BTreeMap::new();
        for c in eff.cells.iter().filter(|c| c.0 == *k) {
            want.insert(c.1, &c.2);
        }
        for (o, v) in &want {
            if now.data[*o..*o + v.len()] != v[..] {
                bad.push((props.clone(), format!("data:{last}:{name}"), format!("{k} at {o}: {:?} expected {:?}", &now.data[*o..*o + v.len().min(32)], &v[..v.len().min(32)])));
                return;
            }
        }
        for (s, e) in diff_writes(&p.data, &now.data) {
            let mut at = s;
            while at < e {
                match want.range(..=at).next_back() {
                    Some((o, v)) if at < *o + v.len() => at = *o + v.len(),
                    _ => break,
                }
            }
            let inside = at >= e;
            if !inside {
                bad.push((props, format!("stray-write:{last}:{name}"), format!("{k} bytes {s}..{e}")));
                return;
            }
        }
    }

    /// Compares an account of the program with the model; returns the properties it contradicts
    pub fn compare_small(&self, k: &Pubkey, d: &[u8], st: &State) -> Option<(Vec<&'static str>, &'static str, String)> {
        macro_rules! ne {
            ($props:expr, $what:expr, $a:expr, $b:expr, $n:expr) => {
                if $a != $b {
                    return Some(($props.to_vec(), $what, format!("{}: {} expected {}", $n, clip(&format!("{:?}", $a)), clip(&format!("{:?}", $b)))));
                }
            };
        }
        if *k == queue() {
            let v = decode_queue(d);
            ne!(["C07", "C06"], "queue", v.items, st.queue, "items");
        } else if *k == meta_queue() && st.v1 {
            let v = decode_meta_queue(d);
            ne!(["C07", "C04"], "metadata-queue", v.items, st.metaq, "items");
        } else if *k == hashing() {
            let v = decode_hashing(d);
            let h = &st.hash;
            ne!(["C04", "C07"], "hashing", v.active, h.active, "active");
            ne!(["C04", "C07", "C08"], "hashing", v.setup, h.setup, "setup");
            if h.setup {
                ne!(["C04", "C08"], "hashing", v.ordering, h.ordering, "ordering");
                ne!(["C04"], "hashing", v.fin, h.fin, "finalization");
                let s: Vec<B32> = h.siblings.iter().map(|x| mont(*x)).collect();
                ne!(["C04"], "hashing", v.siblings, s, "siblings");
                ne!(["C04", "C10"], "hashing", v.instruction, h.instruction, "instruction");
            }
            if h.active {
                ne!(["C04", "C11"], "hashing", v.fee_version, h.fee_version, "fee version");
                ne!(["C04"], "hashing", v.rate, h.rate, "rate");
            }
        } else if *k == storage() {
            let v = decode_storage(d);
            ne!(["C14"], "storage", v.kids, st.st_kids, "children");
            ne!(["C04", "C08"], "storage", v.ptr, st.ptr, "next leaf");
            ne!(["C08", "C05"], "storage", v.trees, st.trees, "trees");
            ne!(["C05", "C04", "C08"], "storage", v.roots_count, st.roots_count, "root count");
            let n = (st.roots_count as usize).min(HISTORY);
            ne!(["C05", "C04"], "storage", &v.roots[..n], &st.roots[..n], "roots");
        } else if *k == metadata() && st.v1 {
            let v = decode_metadata(d);
            ne!(["C14"], "metadata", v.0, st.meta_kids, "children");
            ne!(["C04"], "metadata", v.1 % (1 << HEIGHT), st.meta_ptr % (1 << HEIGHT), "pointer");
        } else if *k == base_buffer() {
            ne!(["C06"], "base-buffer", decode_buffer(d), st.basebuf, "values");
        } else if *k == com_buffer() && st.v1 {
            ne!(["C06", "C19", "C20"], "commitment-buffer", decode_buffer(d), st.combuf, "values");
        } else if *k == governor() {
            let v = decode_gov(d);
            ne!(["C14", "C11"], "governor", Some(v.clone()), st.gov, "content");
        } else if let Some((ver, f)) = st.fees.iter().find(|(v, _)| fee_acc(**v) == *k) {
            ne!(["C14", "C11"], "fee", Fee::decode(&d[2..66]), *f, format!("version {ver}"));
        } else if let Some((mt, n)) = st.nulls.iter().find(|(m, _)| nullifier(**m) == *k) {
            let v = decode_nullifier(d);
            ne!(["C14"], "nullifier", v.kids, n.kids, format!("children of {mt}"));
            ne!(["C05", "C08"], "nullifier", v.root, n.root, format!("root of {mt}"));
            ne!(["C15", "C01"], "nullifier", v.count as usize, n.set.count(), format!("count of {mt}"));
            ne!(["C15", "C01"], "nullifier", v.moved.len(), 0, format!("pending values of {mt}"));
            for i in 0..NULL_CHILDREN {
                ne!(["C15", "C01"], "nullifier", v.max[i], n.set.max_of_block(i), format!("max {i} of {mt}"));
            }
        } else if let Some((id, x)) = st.vkeys.iter().find(|(i, _)| vkey(**i) == *k) {
            let v = decode_vkey(d);
            let w = VkView { kids: x.kids.clone(), inputs: x.inputs, authority: x.authority, frozen: x.frozen, version: x.version };
            ne!(["C12"], "vkey", v, w, format!("key {id}"));
        } else if let Some(b) = st.bases.get(k) {
            let v = decode_base(d);
            ne!(["C06"], "base-hashing", v.active, b.active, "active");
            if b.active {
                ne!(["C06"], "base-hashing", v.instruction, b.instruction, "instruction");
                ne!(["C06", "C02"], "base-hashing", v.fee_payer, b.payer.to_bytes(), "payer");
                ne!(["C06", "C11"], "base-hashing", v.fee_version, b.req.fee_version, "fee version");
                ne!(["C06"], "base-hashing", v.min_batching, b.req.min_batching, "batching");
                ne!(["C06"], "base-hashing", v.metadata, b.metadata, "metadata");
                ne!(["C06"], "base-hashing", v.token, b.req.token, "token");
                if b.instruction == 2 {
                    ne!(["C06"], "base-hashing", v.state0, mont(b.commitment), "commitment");
                }
            }
        } else if let Some(v) = st.verifs.get(k) {
            let r = decode_verif(d);
            ne!(["C19", "C01", "C03", "C20"], "verification", r.state, v.state, "state");
            ne!(["C03", "C19"], "verification", r.verified, v.verified, "result");
            ne!(["C19"], "verification", r.fee_payer, v.payer.to_bytes(), "payer");
            ne!(["C09", "C19"], "verification", r.recipient, v.recipient.map(|x| x.to_bytes()), "recipient");
            ne!(["C19", "C01"], "verification", r.skip, v.skip, "skip");
            ne!(["C19", "C01", "C05"], "verification", r.trees, v.trees, "trees");
            ne!(["C19", "C03"], "verification", r.vkey, v.vkey, "vkey");
            let e = v.req.encode();
            ne!(["C09", "C19"], "verification", &r.request[..e.len()], &e[..], "request");
            ne!(["C03", "C19"], "verification", r.prep, v.prep, "input preparation");
            if v.state != S_NONE {
                ne!(["C11", "C19"], "verification", r.fee_payer_acc, v.payer_acc.unwrap().to_bytes(), "payer account");
                ne!(["C11", "C19", "C02"], "verification", r.token, v.req.token, "token");
                ne!(["C11", "C02"], "verification", r.min_batching, v.rate, "rate");
                ne!(
                    ["C11", "C02", "C19"],
                    "verification",
                    (r.subvention, r.network_fee, r.com_fee, r.com_fee_token, r.proof_fee, r.ata_rent),
                    (v.subvention, v.network, v.com_fee, v.com_tok, v.proof_tok, v.ata_tok),
                    "fees"
                );
            }
            if let (Some(p), true) = (&v.proof, v.state == S_PROOF) {
                if v.prep_done == 0 && v.miller == 0 {
                    ne!(["C19", "C03"], "verification", r.proof, *p, "proof");
                }
            }
        } else if st.dups.contains(k) || *k == pool() || *k == collector() || st.in_use.contains(k) || self.alien.contains(k) {
        } else if d.len() <= 2 {
        } else {
            return Some((vec!["C14", "C13"], "unknown-account", format!("{k} of {} bytes", d.len())));
        }
        None
    }

    fn events(&mut self, eff: &Effects) {
        for e in &eff.events {
            match e {
                Event::Deposit { commitment, token, amount } => {
                    *self.h.circ.entry(*token).or_default() += *amount as i128;
                    *self.h.stored.entry(*commitment).or_default() += 1;
                    self.h.deposits += 1;
                    self.rep.probe(format!("deposit token {}", token));
                    self.rep.hit("C02");
                }
                Event::Started { .. } => {
                    self.rep.probe("verification started");
                }
                Event::Paid { req, trees, extra, verif: k } => {
                    *self.h.circ.entry(req.token).or_default() -= req.amount as i128 + req.fee as i128;
                    *self.h.extra.entry(req.token).or_default() += *extra;
                    let out = mont(crate::poseidon::from_raw(&req.out).unwrap());
                    *self.h.stored.entry(out).or_default() += 1;
                    for (_, n) in &req.inputs {
                        let n = mont(crate::poseidon::from_raw(n).unwrap());
                        if !self.h.spent.insert(n) {
                            self.bad(&["C01"], "double-spend", format!("nullifier {n:?} finalized twice, by {k} {trees:?}"));
                        }
                    }
                    self.h.paid += 1;
                    self.rep.probe(format!(
                        "transfer paid token {} inputs {} ata {} pay {}",
                        (req.token > 0) as u8,
                        req.inputs.len(),
                        req.is_ata as u8,
                        req.solana_pay as u8
                    ));
                    for p in ["C01", "C02", "C03", "C09", "C15"] {
                        self.rep.hit(p);
                    }
                }
                Event::Rejected { req, .. } => {
                    self.h.rejected += 1;
                    self.rep.probe(format!("transfer rejected token {}", (req.token > 0) as u8));
                    self.rep.hit("C20");
                }
                Event::Inserted { leaves, tree, at, rounding } => {
                    if !(0..1000).contains(rounding) {
                        self.bad(&["C02", "C11"], "hash-fee-mismatch", format!("{rounding} lamports left of the fees of a batch"));
                    }
                    *self.h.extra.entry(0).or_default() += *rounding;
                    for (i, x) in leaves.iter().enumerate() {
                        let m = mont(*x);
                        let c = self.h.inserted.entry(m).or_default();
                        *c += 1;
                        let c = *c;
                        if c > self.h.stored.get(&m).copied().unwrap_or(0) {
                            self.bad(&["C06", "C07"], "inserted-unpaid", format!("commitment {m:?} inserted {c} times"));
                        }
                        self.h.leaf.insert(m, (*tree, *at + i as u32));
                    }
                    let r = mont(self.st.tree.root());
                    self.h.roots.insert((*tree, r), at + leaves.len() as u32);
                    self.h.finals.insert(*tree, r);
                    self.rep.probe(format!("batch of {} inserted", leaves.len()));
                }
                Event::Surplus { amount } => {
                    *self.h.extra.entry(0).or_default() += *amount;
                    self.rep.probe("batch of mixed rates");
                }
                Event::Donated { token, amount } => *self.h.donated.entry(*token).or_default() += *amount as i128,
                Event::Switched { .. } => {
                    self.rep.probe("tree switched");
                    self.rep.hit("C08");
                }
            }
        }
    }

    /// Lamports and tokens the pool has to hold, from what is outstanding
    pub fn owed(&self) -> BTreeMap<u16, i128> {
        let mut m: BTreeMap<u16, i128> = BTreeMap::new();
        for (t, v) in self.h.circ.iter().chain(self.h.extra.iter()).chain(self.h.donated.iter()) {
            *m.entry(*t).or_default() += *v;
        }
        let fee = |v: u32| self.st.fees.get(&v).copied().unwrap_or_default();
        let mut l: i128 = rent(c_pda_len()) as i128;
        for b in self.st.bases.values().filter(|b| b.active) {
            let f = fee(b.req.fee_version);
            l += f.base_hash_fee() as i128 + f.commitment_fee(b.req.min_batching) as i128;
        }
        for (_, fv, rate) in &self.st.queue {
            l += fee(*fv).commitment_fee(*rate) as i128;
        }
        let h = &self.st.hash;
        if h.active {
            let f = fee(h.fee_version);
            l += f.commitment_fee(h.rate) as i128 * h.leaves.len() as i128
                - f.hash_tx() as i128 * h.instruction as i128;
        }
        for v in self.st.verifs.values() {
            if v.state != S_NONE && v.state != S_CLOSED {
                l += v.com_fee as i128 + if v.req.is_ata { ATA_RENT as i128 } else { 0 };
                *m.entry(v.req.token).or_default() += v.subvention as i128;
            }
        }
        *m.entry(0).or_default() += l;
        m
    }

    pub fn conservation(&mut self) {
        if !self.st.singles {
            return;
        }
        self.rep.hit("C02");
        for (t, want) in self.owed() {
            let have = if t == 0 { self.l.lamports(&pool()) } else { tok_amount(&self.l, &ata(&pool(), t)) } as i128;
            if have != want {
                let kind = if have < want { "pool-short" } else { "pool-surplus" };
                self.bad(&["C02"], format!("{kind}:{}", if t == 0 { "lamports" } else { "token" }), format!("token {t}: pool holds {have}, owes {want} (notes {:?})", self.h.circ.get(&t)));
            }
        }
    }

    /// Compares every account of the program with the model
    pub fn audit(&mut self) {
        if self.dead {
            return;
        }
        let keys: Vec<Pubkey> = self.l.accts.iter().filter(|(_, a)| a.owner == ID && a.data.len() <= BIG).map(|x| *x.0).collect();
        for k in keys {
            let d = self.l.data(&k);
            if let Some((props, what, detail)) = self.compare_small(&k, &d, &self.st) {
                self.bad(&props, format!("audit:{what}"), detail);
            }
        }
        if self.dead {
            return;
        }
        let st = self.st.clone();
        // the tree read back from the data accounts
        let n = st.ptr as usize;
        for ((l, i), v) in st.tree.nodes.iter() {
            let (c, o) = node_cell(*l, *i);
            if let Some(k) = st.st_kids[c] {
                let d = self.l.data(&k);
                if d[o..o + 32] != mont(*v) && (*i << (HEIGHT - l)) < n {
                    self.bad(&["C04", "C08"], "audit:tree", format!("level {l} index {i}"));
                    return;
                }
            }
        }
        for (mt, n) in &st.nulls {
            if n.set.count() > 4 * NULL_PER_CHILD {
                continue;
            }
            for (i, k) in n.kids.iter().enumerate() {
                if let Some(k) = k {
                    if decode_map(&self.l.data(k)).as_ref() != Some(&n.set.block(i)) {
                        self.bad(&["C15", "C01"], "audit:nullifiers", format!("tree {mt} account {i}"));
                        return;
                    }
                }
            }
        }
        for p in ["C04", "C07", "C14", "C15"] {
            self.rep.hit(p);
        }
    }

    /// Skips the remaining computation of a verification (declared stub): writes the verdict of the reference verifier
    pub fn fast_forward(&mut self, k: &Pubkey) -> bool {
        let Some(v) = self.st.verifs.get(k) else { return false };
        if v.state != S_PROOF || v.verified.is_some() || v.tainted {
            return false;
        }
        let Some(e) = self.expected(v) else { return false };
        let a = self.l.get(k);
        let mut d = (*a.data).clone();
        let o = verified_offset(&d);
        d[o] = 1;
        d[o + 1] = e as u8;
        self.l.set(*k, a.lamports, d, a.owner);
        let v = self.st.verifs.get_mut(k).unwrap();
        v.verified = Some(e);
        self.fast_forwards += 1;
        self.rep.log(format!("verdict {e} for {k}"));
        true
    }

    pub fn set_price(&mut self, k: Pubkey, p: PriceAcc) {
        let mut d = elusiv::token::pyth_price_account_data(&elusiv::token::Price { price: p.price, conf: p.conf, expo: p.expo })
            .expect("price account");
        if !p.valid {
            d[224..228].copy_from_slice(&0u32.to_le_bytes());
        }
        let l = rent(d.len());
        self.l.set(k, l, d, key(0x9717, 0));
        self.st.prices.insert(k, p);
    }

    pub fn fund_token(&mut self, owner: &Pubkey, token: u16, amount: u64) {
        self.set_token_account(ata(owner, token), owner, token, amount)
    }
    pub fn set_token_account(&mut self, k: Pubkey, owner: &Pubkey, token: u16, amount: u64) {
        use solana_program::program_pack::Pack;
        let a = spl_token::state::Account {
            mint: mint(token),
            owner: *owner,
            amount,
            state: spl_token::state::AccountState::Initialized,
            ..Default::default()
        };
        let mut d = vec![0u8; 165];
        a.pack_into_slice(&mut d);
        self.l.set(k, rent(165), d, spl_token::ID);
    }
    pub fn create_mint(&mut self, token: u16) {
        use solana_program::program_option::COption;
        use solana_program::program_pack::Pack;
        let m = spl_token::state::Mint {
            mint_authority: COption::Some(key(0x3147, 0)),
            supply: u64::MAX,
            decimals: tokens()[token as usize].decimals,
            is_initialized: true,
            freeze_authority: COption::None,
        };
        let mut d = vec![0u8; 82];
        m.pack_into_slice(&mut d);
        self.l.set(mint(token), rent(82), d, spl_token::ID);
    }
    /// An empty data account owned by the program, as a client creates it
    pub fn data_account(&mut self, k: Pubkey, len: usize) {
        self.l.set(k, rent(len), vec![0; len], ID);
    }
}

pub fn role(k: &Pubkey) -> &'static str {
    if *k == pool() {
        "pool"
    } else if *k == collector() {
        "collector"
    } else if *k == storage() || *k == queue() || *k == hashing() {
        "state"
    } else if tokens().iter().enumerate().skip(1).any(|(i, _)| ata(&pool(), i as u16) == *k) {
        "pool-token"
    } else if tokens().iter().enumerate().skip(1).any(|(i, _)| ata(&collector(), i as u16) == *k) {
        "collector-token"
    } else if *k == system_program::ID {
        "program"
    } else {
        "user"
    }
}

/// Contents of a storage data account for a tree
pub fn storage_child(tree: &Tree, child: usize) -> Vec<u8> {
    let mut d = vec![0u8; STORAGE_CHILD_SIZE];
    for ((l, i), v) in &tree.nodes {
        let (c, o) = node_cell(*l, *i);
        if c == child {
            d[o..o + 32].copy_from_slice(&mont(*v));
        }
    }
    d
}

#[allow(dead_code)]
pub fn unused() -> (Fr, B32) {
    let _ = (from_mont(&[0; 32]), NullSet::default());
    (empty()[0], raw(empty()[0]))
}
