//! Starting states that histories from genesis do not reach in reasonable time, each as the program itself would have
//! left it: nearly full trees, closed earlier trees, nullifier sets around the capacity of their data accounts, other
//! batching rates, queues about to wrap.

use crate::core::*;
use crate::groth;
use crate::merkle::{Tree, HEIGHT, LEAVES};
use crate::model::*;
use crate::nullset::NullSet;
use crate::poseidon::mont;
use crate::proto::*;
use crate::sim::*;
use simkit::rng::{mix, Rng};
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex, OnceLock};

impl Sim {
    pub fn edit(&mut self, k: Pubkey, f: impl FnOnce(&mut Vec<u8>)) {
        let a = self.l.get(&k);
        let mut d = (*a.data).clone();
        f(&mut d);
        self.l.set(k, a.lamports, d, a.owner);
    }
}

pub fn put_u32(d: &mut [u8], o: usize, v: u32) {
    d[o..o + 4].copy_from_slice(&v.to_le_bytes());
}

pub fn notes(seed: u64, n: usize, tokens: &[u16]) -> Vec<Note> {
    let mut rng = Rng::new(mix(&[0xA07E, seed]));
    (0..n)
        .map(|i| {
            let t = tokens[i % tokens.len()];
            let amount = if t == 0 { rng.range(2_000_000_000, 9_000_000_000) } else { rng.range(300_000_000, 2_000_000_000) };
            Note::new(groth::fr(&mut rng), amount, t, 0)
        })
        .collect()
}

/// A tree whose first `start` leaves are unknown others' commitments, followed by the notes
pub fn tree_with(seed: u64, start: usize, notes: &[Note]) -> (Tree, Vec<B32>) {
    type T = (Tree, Vec<B32>);
    static C: OnceLock<Mutex<BTreeMap<(u64, usize, B32, usize), T>>> = OnceLock::new();
    let k = (seed, start, notes.last().map_or([0; 32], |n| n.commitment), notes.len());
    let c = C.get_or_init(Default::default);
    if let Some(t) = c.lock().unwrap().get(&k) {
        return t.clone();
    }
    let t = build_tree(seed, start, notes);
    c.lock().unwrap().insert(k, t.clone());
    t
}

fn build_tree(seed: u64, start: usize, notes: &[Note]) -> (Tree, Vec<B32>) {
    let mut rng = Rng::new(mix(&[0x73EE, seed]));
    let mut t = Tree::default();
    for l in 1..=HEIGHT {
        let i = start >> (HEIGHT - l);
        if i & 1 == 1 {
            t.nodes.insert((l, i - 1), groth::fr(&mut rng));
        }
    }
    t.next = start;
    let mut roots = vec![];
    for n in notes {
        t.append(crate::poseidon::from_mont(&n.commitment));
        roots.push(mont(t.root()));
    }
    (t, roots)
}

fn own(s: &mut Sim, tree: u32, start: usize, notes: &[Note]) {
    for (i, n) in notes.iter().enumerate() {
        *s.h.circ.entry(n.token).or_default() += n.amount as i128;
        if n.token == 0 {
            s.l.airdrop(&pool(), n.amount);
        } else {
            let a = ata(&pool(), n.token);
            let have = tok_amount(&s.l, &a);
            s.set_token_account(a, &pool(), n.token, have + n.amount);
        }
        s.h.stored.insert(n.commitment, 1);
        s.h.inserted.insert(n.commitment, 1);
        s.h.leaf.insert(n.commitment, (tree, (start + i) as u32));
    }
}

/// The active tree, as if all its leaves had been inserted one by one
pub fn set_active(s: &mut Sim, seed: u64, start: usize, notes: &[Note], rate: u32) {
    let tree = s.st.trees;
    let (t, roots) = tree_with(seed, start, notes);
    own(s, tree, start, notes);
    let ptr = start + notes.len();
    s.st.ptr = ptr as u32;
    // the pointer of the metadata continues over all trees
    s.st.meta_ptr = tree * LEAVES as u32 + ptr as u32;
    s.st.roots_count = (ptr >> rate) as u32;
    let known = roots.len();
    let mut rng = Rng::new(mix(&[0x4007, seed]));
    for n in 0..(ptr >> rate) {
        // only the last ones are still there
        if n + HISTORY < (ptr >> rate) {
            continue;
        }
        let back = (ptr >> rate) - n; // 1 is the newest
        let r = if rate == 0 && back <= known { roots[known - back] } else if back == 1 { *roots.last().unwrap_or(&mont(t.root())) } else { mont(groth::fr(&mut rng)) };
        s.st.roots[n % HISTORY] = r;
    }
    for (i, r) in roots.iter().enumerate() {
        if rate == 0 || i + 1 == roots.len() {
            s.h.roots.insert((tree, *r), (start + i + 1) as u32);
        }
    }
    s.h.finals.insert(tree, mont(t.root()));
    let p = 2 + 33 * STORAGE_CHILDREN;
    let st = s.st.clone();
    s.edit(storage(), |d| {
        put_u32(d, p, st.ptr);
        put_u32(d, p + 4, st.trees);
        for (i, r) in st.roots.iter().enumerate() {
            d[p + 12 + 32 * i..p + 44 + 32 * i].copy_from_slice(r);
        }
        put_u32(d, p + 12 + 32 * HISTORY, st.roots_count);
    });
    s.edit(metadata(), |d| put_u32(d, 2 + 33 * META_CHILDREN, st.meta_ptr));
    let mut kids: BTreeMap<usize, Vec<((usize, usize), B32)>> = BTreeMap::new();
    for ((l, i), v) in &t.nodes {
        kids.entry(node_cell(*l, *i).0).or_default().push(((*l, *i), mont(*v)));
    }
    for (c, cells) in kids {
        let k = s.st.st_kids[c].unwrap_or_else(|| panic!("storage account {c}"));
        s.edit(k, |d| {
            for ((l, i), v) in cells {
                let o = node_cell(l, i).1;
                d[o..o + 32].copy_from_slice(&v);
            }
        });
    }
    s.st.tree = Arc::new(t);
}

/// An earlier tree that was closed with the notes at its end
pub fn set_closed(s: &mut Sim, tree: u32, seed: u64, notes: &[Note]) {
    let start = LEAVES - notes.len();
    let (t, roots) = tree_with(seed, start, notes);
    own(s, tree, start, notes);
    let r = mont(t.root());
    for (i, r) in roots.iter().enumerate() {
        s.h.roots.insert((tree, *r), (start + i + 1) as u32);
    }
    s.h.finals.insert(tree, r);
    s.st.nulls.get_mut(&tree).unwrap().root = r;
    let p = 2 + 33 * NULL_CHILDREN;
    s.edit(nullifier(tree), |d| d[p..p + 32].copy_from_slice(&r));
}

pub fn set_rate(s: &mut Sim, rate: u32) {
    s.edit(governor(), |d| put_u32(d, 70, rate));
    s.st.gov.as_mut().unwrap().rate = rate;
}

/// An empty queue whose ring stands at a position
pub fn set_queue_position(s: &mut Sim, at: u32) {
    s.edit(queue(), |d| {
        put_u32(d, 2, at);
        put_u32(d, 6, at);
    });
    s.edit(meta_queue(), |d| {
        put_u32(d, 2, at);
        put_u32(d, 6, at);
    });
}

/// A nullifier data account holding ascending values, in scattered slots
pub fn encode_map(values: &[B32]) -> Vec<u8> {
    let mut c = vec![0u8; NULL_CHILD_SIZE];
    c[0] = 1;
    let n = values.len();
    let d = &mut c[1..];
    put_u32(d, 0, n as u32);
    if n == 0 {
        return c;
    }
    let mut a = 40_503 % n.max(2);
    let gcd = |mut x: usize, mut y: usize| {
        while y > 0 {
            (x, y) = (y, x % y);
        }
        x
    };
    while a == 0 || gcd(a, n) != 1 {
        a += 1;
    }
    let slot = |rank: usize| (rank * a + 7) % n;
    let put16 = |d: &mut [u8], o: usize, v: usize| d[o..o + 2].copy_from_slice(&(v as u16).to_le_bytes());
    put16(d, 4, slot(0));
    put16(d, 6, slot(n - 1));
    for i in 0..15 {
        put16(d, 8 + 2 * i, slot((1 + i) * n / 16));
    }
    let next = 4 + 4 + 30;
    let prev = next + 2 * NULL_PER_CHILD;
    let keys = prev + 2 * NULL_PER_CHILD;
    for r in 0..n {
        let s = slot(r);
        if r + 1 < n {
            put16(d, next + 2 * s, slot(r + 1));
        }
        if r > 0 {
            put16(d, prev + 2 * s, slot(r - 1));
        }
        d[keys + 32 * s..keys + 32 * s + 32].copy_from_slice(&values[r]);
    }
    c
}

/// `full` filled data accounts and `more` values in the next one; the notes' nullifiers lie around the borders
pub struct NullCase {
    pub notes: Vec<Note>,
    pub spent: Vec<B32>,
    pub base: Arc<Vec<B32>>,
    pub kids: Vec<Arc<Vec<u8>>>,
    pub max: Vec<B32>,
}

fn between(rng: &mut Rng, lo: &B32, hi: &B32, n: usize, out: &mut Vec<B32>) {
    // uniform on the leading 15 bytes, strictly inside
    let top = |b: &B32| -> u128 {
        let mut x = 0u128;
        for i in (16..32).rev() {
            x = x << 8 | b[i] as u128;
        }
        x
    };
    let (a, b) = (top(lo), top(hi));
    assert!(b > a + 2 * n as u128 + 2);
    let mut set = BTreeSet::new();
    while set.len() < n {
        let r = ((rng.u64() as u128) << 64 | rng.u64() as u128) % (b - a - 1) + a + 1;
        set.insert(r);
    }
    for x in set {
        let mut v = [0u8; 32];
        for i in 0..16 {
            v[16 + i] = (x >> (8 * i)) as u8;
        }
        v[..8].copy_from_slice(&rng.u64().to_le_bytes());
        out.push(v);
    }
}

pub fn null_case(full: usize, more: usize) -> Arc<NullCase> {
    static C: OnceLock<Mutex<BTreeMap<(usize, usize), Arc<OnceLock<Arc<NullCase>>>>>> = OnceLock::new();
    let cell = C.get_or_init(Default::default).lock().unwrap().entry((full, more)).or_default().clone();
    cell.get_or_init(|| {
        let mut rng = Rng::new(mix(&[0x2117, full as u64, more as u64]));
        let mut ns = notes(mix(&[full as u64, more as u64]), 64, &[0, 0, 1]);
        let nf = |n: &Note| mont(n.nullifier());
        ns.sort_by(|a, b| le_cmp(&nf(a), &nf(b)));
        let mut hi = [0xffu8; 32];
        hi[31] = 0x30;
        let mut base: Vec<B32> = vec![];
        let mut spent = vec![];
        let step = 60 / (full + 1).max(2);
        for b in 0..full {
            // the last value of this block is either the successor of a note's nullifier or the nullifier of a spent note
            let lo = if b == 0 { nf(&ns[0]) } else { nf(&ns[b * step + 1]) };
            let edge = nf(&ns[(b + 1) * step]);
            let succ = nf(&ns[(b + 1) * step + 1]);
            if b % 3 == 1 {
                between(&mut rng, &lo, &edge, NULL_PER_CHILD - 1, &mut base);
                base.push(edge);
                spent.push(ns[(b + 1) * step].commitment);
            } else {
                between(&mut rng, &lo, &edge, NULL_PER_CHILD - 1, &mut base);
                between(&mut rng, &edge, &succ, 1, &mut base);
            }
        }
        let lo = if full == 0 { nf(&ns[0]) } else { nf(&ns[full * step + 1]) };
        between(&mut rng, &lo, &hi, more, &mut base);
        base.sort_by(le_cmp);
        // further spent notes anywhere
        for i in [5usize, 33, 47] {
            let v = nf(&ns[i]);
            if more > 8 && le_cmp(&v, &lo).is_gt() {
                let at = base.len() - 1 - rng.idx(more - 4);
                if base.binary_search_by(|x| le_cmp(x, &v)).is_err() {
                    base[at] = v;
                    base.sort_by(le_cmp);
                    spent.push(ns[i].commitment);
                }
            }
        }
        let kids: Vec<Arc<Vec<u8>>> = base.chunks(NULL_PER_CHILD).map(|c| Arc::new(encode_map(c))).collect();
        let max = base.chunks(NULL_PER_CHILD).map(|c| *c.last().unwrap()).collect();
        Arc::new(NullCase { notes: ns, spent, base: Arc::new(base), kids, max })
    })
    .clone()
}

pub fn set_nulls(s: &mut Sim, tree: u32, case: &NullCase, kids: usize) {
    let op = key(0x0505, 0);
    for i in 0..kids.max(case.kids.len()) {
        let k = child(1, tree, i);
        if i > 0 {
            s.blank(k, 1);
            s.must(&[Op::EnableNull { mt: tree, child: k, idx: i as u32 }], op);
        }
        if let Some(d) = case.kids.get(i) {
            let l = rent(d.len());
            s.l.accts.insert(k, simkit::ledger::Account { lamports: l, data: d.clone(), owner: ID, executable: false });
        }
    }
    let p = 2 + 33 * NULL_CHILDREN;
    s.edit(nullifier(tree), |d| {
        put_u32(d, p + 32, case.base.len() as u32);
        for (i, m) in case.max.iter().enumerate() {
            let o = p + 36 + 33 * i;
            d[o] = 1;
            d[o + 1..o + 33].copy_from_slice(m);
        }
    });
    s.st.nulls.get_mut(&tree).unwrap().set = NullSet { base: case.base.clone(), added: BTreeSet::new() };
    for n in &case.notes {
        if case.spent.contains(&n.commitment) {
            let nf = mont(n.nullifier());
            s.h.spent.insert(nf);
            *s.h.circ.entry(n.token).or_default() -= n.amount as i128;
            if n.token == 0 {
                let a = s.l.get(&pool());
                s.l.set(pool(), a.lamports - n.amount, (*a.data).clone(), a.owner);
            } else {
                let a = ata(&pool(), n.token);
                let have = tok_amount(&s.l, &a);
                s.set_token_account(a, &pool(), n.token, have - n.amount);
            }
        }
    }
}

/// Genesis with every data account a nearly full tree and its successor need
pub fn wide_genesis() -> Sim {
    static G: OnceLock<Mutex<Option<Snapshot>>> = OnceLock::new();
    let g = G.get_or_init(|| {
        let mut s = Sim::new();
        s.genesis(FEE, &(0..STORAGE_CHILDREN).collect::<Vec<_>>(), 4);
        for i in 1..META_CHILDREN {
        let k = child(2, 0, i);
        s.blank(k, 2);
        s.must(&[Op::EnableMeta { child: k, idx: i as u32 }], key(0x0505, 0));
        }
        s.rep = Default::default();
        Mutex::new(Some(s.snapshot()))
    });
    let snap = g.lock().unwrap().clone().unwrap();
    let mut s = Sim::new();
    s.restore(&snap);
    s.l.clock.unix_timestamp = 1_670_000_000;
    s
}

/// The tree is about to be full; earlier trees are closed
pub fn switch(seed: u64, _: bool) -> Core {
    let mut rng = Rng::new(mix(&[seed, 0x5417]));
    let mut s = wide_genesis();
    let closed = rng.below(3) as u32;
    s.st.trees = closed;
    for t in 0..closed {
        let n = notes(t as u64 + 10, 4, &[0, 1]);
        set_closed(&mut s, t, t as u64, &n);
    }
    let rate = if rng.pct(20) { rng.range(1, 3) as u32 } else { 0 };
    set_rate(&mut s, rate);
    let mut left = ([0usize, 1, 2, 3, 5, 9][rng.idx(6)] >> rate) << rate;
    let mut r2 = Rng::new(mix(&[seed, 0x5418]));
    if rate > 0 && r2.pct(50) {
        // filled at another rate: the next batch does not fit into what is left
        left = r2.range(1, (1 << rate) - 1) as usize;
    }
    let n = notes(20, 8, &[0, 1, 0, 2]);
    set_active(&mut s, 20, LEAVES - 8 - left, &n, rate);
    let at = rng.below(QUEUE_SLOTS as u64) as u32;
    if r2.pct(60) {
        let n = if r2.pct(50) { r2.below(5 << rate) } else { r2.range(16, 36) } as usize;
        fill_queue(&mut s, at, n, rate, &mut r2);
    } else {
        set_queue_position(&mut s, at);
    }
    let cfg = Cfg { deposits: 14, transfers: 6, crank: 60, two_trees: rng.pct(25), reset: 12, ..DEFAULT };
    let mut c = Core::new(s, cfg, seed);
    c.notes = n;
    for t in 0..closed {
        c.notes.extend(notes(t as u64 + 10, 4, &[0, 1]));
    }
    c
}

/// Nullifier sets around the capacity of their data accounts
pub fn nullifiers(seed: u64, thorough: bool) -> Core {
    let mut rng = Rng::new(mix(&[seed, 0x2111]));
    let mut s = wide_genesis();
    let cases: &[(usize, usize)] = if thorough {
        &[(0, 65_534), (1, 0), (1, 65_535), (1, 30), (2, 0), (2, 65_534), (4, 9), (15, 65_530), (16, 0)]
    } else {
        &[(0, 65_534), (1, 0), (1, 65_535), (1, 30), (2, 0), (2, 65_534)]
    };
    let (full, more) = *rng.pick(cases);
    let case = null_case(full, more);
    let kids = if rng.pct(80) { (full + 2).min(NULL_CHILDREN) } else { full + 1 };
    set_active(&mut s, 77, 0, &case.notes, 0);
    set_nulls(&mut s, 0, &case, kids.min(NULL_CHILDREN));
    let cfg = Cfg {
        deposits: 1,
        transfers: 30,
        conflict: 30,
        invalid: 4,
        advance: 90,
        crank: 8,
        attack: 2,
        rollback: 2,
        full_verify: 0,
        max_jobs: 10,
        audit: 80,
        ..DEFAULT
    };
    let mut c = Core::new(s, cfg, seed);
    c.notes = case.notes.clone();
    c
}

/// Other batching rates (constant over the history)
pub fn batching(seed: u64, _: bool) -> Core {
    let mut rng = Rng::new(mix(&[seed, 0xBA7C]));
    let mut s = wide_genesis();
    let rate = rng.range(1, 4) as u32;
    set_rate(&mut s, rate);
    let n = notes(30, 16, &[0, 1]);
    let start = [0usize, 16, 48, 65_536 - 32][rng.idx(4)];
    set_active(&mut s, 30 + start as u64, start, &n, rate);
    waiting(&mut s, rate, &mut rng);
    let cfg = Cfg { deposits: 20, crank: 60, transfers: 4, ..DEFAULT };
    let mut c = Core::new(s, cfg, seed);
    c.notes = n;
    c
}

/// Anywhere in a tree: around powers of two, the borders of the data accounts of nodes and metadata, and at random
pub fn places(seed: u64, _: bool) -> Core {
    let mut rng = Rng::new(mix(&[seed, 0x91AC]));
    let mut s = wide_genesis();
    let rate = if rng.pct(60) { 0 } else { rng.range(1, 4) as u32 };
    set_rate(&mut s, rate);
    let next = match rng.below(4) {
        0 => 1usize << rng.range(5, HEIGHT as u64 - 1),
        1 => META_PER_CHILD * rng.range(1, (LEAVES / META_PER_CHILD) as u64 - 1) as usize,
        2 => {
            // the node whose cell is the first of a data account
            let k = rng.range(1, STORAGE_CHILDREN as u64 - 1) as usize * STORAGE_CHILD_VALUES + 1;
            let l = (usize::BITS - 1 - k.leading_zeros()) as usize;
            let i = k - (1 << l);
            i << (HEIGHT - l)
        }
        _ => rng.below(LEAVES as u64 - 64) as usize,
    };
    let closed = if rng.pct(30) { rng.range(1, 2) as u32 } else { 0 };
    s.st.trees = closed;
    for t in 0..closed {
        let n = notes(t as u64 + 10, 4, &[0, 1]);
        set_closed(&mut s, t, t as u64, &n);
    }
    let back = 16 + (rng.below(6) << rate) as usize;
    let start = (next.max(back).min(LEAVES - 100) - back) >> rate << rate;
    let n = notes(31, 16, &[0, 1]);
    set_active(&mut s, 31 + start as u64, start, &n, rate);
    waiting(&mut s, rate, &mut rng);
    let cfg = Cfg { deposits: 20, crank: 60, transfers: 6, ..DEFAULT };
    let mut c = Core::new(s, cfg, seed);
    c.notes = n;
    for t in 0..closed {
        c.notes.extend(notes(t as u64 + 10, 4, &[0, 1]));
    }
    c
}

/// Deposits and transfers in all tokens at prices of all magnitudes, and under changing fees
pub fn prices(seed: u64, _: bool) -> Core {
    const T: &[u16] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];
    let mut rng = Rng::new(mix(&[seed, 0x9217]));
    let mut s = base_genesis();
    for t in 3..T.len() as u16 {
        s.create_mint(t);
        s.fund_token(&pool(), t, 0);
        s.fund_token(&collector(), t, 10_000_000_000);
        s.set_price(price_key(t), PriceAcc { price: 100_000_000, conf: 10_000, expo: -8, valid: true });
    }
    // a few of them per run
    let few: Vec<u16> = (0..4).map(|_| *rng.pick(T)).collect();
    let tokens: &'static [u16] = Box::leak(few.into_boxed_slice());
    let cfg = Cfg { tokens, deposits: 14, transfers: 12, crank: 45, env: 10, fees: if rng.pct(40) { 14 } else { 1 }, ..DEFAULT };
    Core::new(s, cfg, seed)
}

/// Many verifications of every kind at once, all of them computed by the program
pub fn pairing(seed: u64, _: bool) -> Core {
    let mut rng = Rng::new(mix(&[seed, 0x9A12]));
    let mut s = base_genesis();
    let n = notes(50, 8, &[0, 0, 1]);
    set_active(&mut s, 50, 0, &n, 0);
    let cfg = Cfg {
        tokens: &[0, 1],
        full_verify: 100,
        deposits: 0,
        transfers: 12,
        conflict: 30,
        invalid: 40,
        crank: 4,
        advance: 120,
        mutate: 6,
        max_jobs: rng.range(2, 5) as usize,
        audit: 200,
        ..DEFAULT
    };
    let mut c = Core::new(s, cfg, seed);
    c.notes = n;
    c
}

/// The queue runs full and its ring wraps
pub fn queue_full(seed: u64, _: bool) -> Core {
    let mut rng = Rng::new(mix(&[seed, 0x9EEE]));
    let mut s = wide_genesis();
    let n = notes(40, 6, &[0, 1]);
    set_active(&mut s, 40, 0, &n, 0);
    let fill = QUEUE_SLOTS - 2 - rng.idx(6);
    // mostly the first slots to become free are the last ones of the ring
    let at = if rng.pct(60) { QUEUE_SLOTS as u32 - 1 - rng.below(3) as u32 } else { rng.below(QUEUE_SLOTS as u64) as u32 };
    fill_queue(&mut s, at, fill, 0, &mut rng);
    let cfg = Cfg { deposits: 14, transfers: 8, crank: 4, ..DEFAULT };
    let mut c = Core::new(s, cfg, seed);
    c.notes = n;
    c
}

/// The queue anywhere in its ring, mostly with some commitments waiting
fn waiting(s: &mut Sim, rate: u32, rng: &mut Rng) {
    let at = if rng.pct(15) { QUEUE_SLOTS as u32 - 1 - rng.below(20) as u32 } else { rng.below(QUEUE_SLOTS as u64) as u32 };
    let n = if rng.pct(25) { 0 } else { rng.below(5 << rate) as usize };
    if rng.pct(40) && n > 0 {
        // some of them from the time of lower rates
        let mut rates = vec![];
        while rates.len() < n {
            let size = 1usize << rate;
            let low = rng.below(rate as u64 + 1) as u32;
            if rng.pct(50) || rate < 2 {
                rates.extend(vec![(low, low); size]);
            } else {
                // one of them asks for the highest rate before the batch of the first one is full
                let first = rng.range(1, rate as u64) as u32;
                let high = rng.below(1 << first) as usize;
                for i in 0..size {
                    rates.push((if i == high { rate } else if i == 0 { first } else { rng.below(first as u64 + 1) as u32 }, rate));
                }
            }
        }
        fill_rates(s, at, &rates, rng);
    } else {
        fill_queue(s, at, n, rate, rng);
    }
}

pub fn fill_queue(s: &mut Sim, at: u32, n: usize, rate: u32, rng: &mut Rng) {
    fill_rates(s, at, &vec![(rate, rate); n], rng)
}

/// Paid commitments waiting in the queue: their rates, and the ones of the batches they will be in
fn fill_rates(s: &mut Sim, at: u32, rates: &[(u32, u32)], rng: &mut Rng) {
    let n = rates.len();
    let mut q = vec![];
    for (i, (rate, _)) in rates.iter().enumerate() {
        let fee = s.st.fees[&0].commitment_fee(*rate);
        let note = Note::new(groth::fr(rng), 1_000_000_000, 0, i as u32);
        let meta: Meta = {
            let mut m = [0u8; 17];
            m.copy_from_slice(&rng.bytes32()[..17]);
            m
        };
        s.l.airdrop(&pool(), fee + note.amount);
        *s.h.circ.entry(0).or_default() += note.amount as i128;
        s.h.stored.insert(note.commitment, 1);
        q.push((note.commitment, meta));
    }
    let end = (at as usize + n) % QUEUE_SLOTS;
    s.edit(queue(), |d| {
        put_u32(d, 2, at);
        put_u32(d, 6, end as u32);
        for (i, (c, _)) in q.iter().enumerate() {
            let o = 10 + ((at as usize + i) % QUEUE_SLOTS) * 40;
            d[o..o + 32].copy_from_slice(c);
            put_u32(d, o + 32, 0);
            put_u32(d, o + 36, rates[i].0);
        }
    });
    s.edit(meta_queue(), |d| {
        put_u32(d, 2, at);
        put_u32(d, 6, end as u32);
        for (i, (_, m)) in q.iter().enumerate() {
            let o = 10 + ((at as usize + i) % QUEUE_SLOTS) * 17;
            d[o..o + 17].copy_from_slice(m);
        }
    });
    s.st.queue = q.iter().zip(rates).map(|(x, r)| (x.0, 0, r.0)).collect();
    s.st.metaq = q.iter().map(|x| x.1).collect();
}

/// Many transfers reach their end: every kind of recipient, payment and verdict, with the last transaction tampered with
pub fn endings(seed: u64, _: bool) -> Core {
    let mut rng = Rng::new(mix(&[seed, 0xE4D5]));
    let mut s = base_genesis();
    let which = 60 + seed % 4;
    let n = notes(which, 40, &[0, 1, 2, 0, 1]);
    set_active(&mut s, which, 0, &n, 0);
    let cfg = Cfg {
        full_verify: 0,
        deposits: 1,
        transfers: 30,
        conflict: *rng.pick(&[8, 8, 35]),
        invalid: *rng.pick(&[5, 25, 50]),
        crank: 8,
        advance: 110,
        attack: 5,
        mutate: 14,
        subst: 4,
        env: 2,
        max_jobs: 10,
        audit: 80,
        ..DEFAULT
    };
    let mut c = Core::new(s, cfg, seed);
    c.notes = n;
    c
}

/// Any of the other families, with most transactions also tried with other accounts
pub fn accounts(seed: u64, thorough: bool) -> Core {
    let mut c = match seed % 8 {
        0 | 1 => crate::setup::setup(seed, thorough),
        2 => crate::vkeys::vkeys(seed, thorough),
        3 => switch(seed, thorough),
        4 => batching(seed, thorough),
        5 | 6 => endings(seed, thorough),
        _ => Core::new(base_genesis(), DEFAULT, seed),
    };
    c.cfg.subst = 50;
    c.cfg.mutate /= 2;
    c
}
