//! Faults stop: one honest relayer per operation drives everything that is open to its end.

use crate::core::*;
use crate::model::*;
use crate::proto::*;
use crate::sim::*;
use simkit::rng::Rng;

fn stuck(c: &mut Core, props: &[&'static str], kind: String, detail: String) {
    c.s.rep.violate(props, kind, detail);
}

fn why(o: &Out) -> String {
    match o {
        Out::Refused(s) => short(s),
        o => format!("{o:?}"),
    }
}

/// Hashes everything that is queued
pub fn drain(c: &mut Core, rng: &mut Rng) -> bool {
    let mut txs = 0;
    let mut fails = 0;
    while !c.s.dead && (c.s.st.hash.active || !c.s.st.queue.is_empty()) {
        if !c.s.st.hash.active && next_batch(&c.s.st.queue).is_err() {
            return true; // an incomplete batch waits for more commitments
        }
        let full = !c.s.st.hash.active
            && next_batch(&c.s.st.queue).map_or(false, |b| c.s.st.ptr as usize + b.0 > crate::merkle::LEAVES);
        let o = if full {
            let mt = c.s.st.trees;
            let op = key(0x0505, 0);
            c.s.l.airdrop(&op, 1_000_000_000);
            if !c.s.st.nulls.contains_key(&(mt + 1)) {
                c.s.run(&[Op::OpenNull { payer: op, mt: mt + 1 }], op);
                let k = child(1, mt + 1, 0);
                c.s.blank(k, 1);
                c.s.run(&[Op::EnableNull { mt: mt + 1, child: k, idx: 0 }], op);
            }
            if rng.pct(50) {
                // in the name of another tree first
                let other = rng.below(mt as u64 + 2) as u32;
                if other != mt {
                    c.s.rep.fault("switch in the name of another tree");
                    c.s.run(&[Op::Reset { mt: other, kids: vec![0] }], op);
                    if c.s.dead {
                        return false;
                    }
                }
            }
            c.s.run(&[Op::Reset { mt, kids: vec![0] }], op)
        } else {
            let st = &c.s.st;
            let who = c.relayers[0];
            let ops = if !st.hash.active {
                vec![
                    Op::Setup { can_fail: false, kids: opening_children(st.ptr as usize) },
                    Op::InitHash { can_fail: false, kids: c.meta_kids() },
                ]
            } else {
                c.crank(rng).map(|x| x.0).unwrap_or_default()
            };
            c.exec(&ops, who)
        };
        txs += 1;
        if !o.ok() {
            fails += 1;
            if fails > 3 || c.s.dead {
                if !c.s.dead {
                    stuck(c, &["C10", "C07"], format!("stuck:hashing:{}", why(&o)), format!("{:?}", c.s.st.queue.len()));
                }
                return false;
            }
        }
        if txs > 240 * 60 {
            stuck(c, &["C10"], "stuck:hashing:too-long".into(), String::new());
            return false;
        }
    }
    true
}

pub fn finish(c: &mut Core) {
    if c.s.dead {
        return;
    }
    c.finishing = true;
    c.mempool.clear();
    let mut rng = Rng::new(simkit::rng::mix(&[c.seed, 0xF1]));
    let rng = &mut rng;
    c.s.rep.log("faults stop");
    for (t, p) in [(0u16, 3_000_000_000i64), (1, 100_000_000), (2, 100_050_000)] {
        c.s.set_price(price_key(t), PriceAcc { price: p, conf: 10_000, expo: -8, valid: true });
    }
    for t in tokset(&c.cfg).into_iter().filter(|t| *t > 2) {
        c.s.set_price(price_key(t), PriceAcc { price: 100_000_000, conf: 10_000, expo: -8, valid: true });
    }
    let all: Vec<_> = c.relayers.iter().chain(c.senders.iter()).chain([&c.attacker]).copied().collect();
    for k in &all {
        c.s.l.airdrop(k, 3_000_000_000_000);
        for t in tokset(&c.cfg) {
            if t > 0 {
                let a = ata(k, t);
                let have = tok_amount(&c.s.l, &a);
                c.s.set_token_account(a, k, t, have + 20_000_000_000.max(tokens()[t as usize].max));
            }
        }
    }
    if c.setup.is_some() && !c.setup_finish() {
        return;
    }
    if !drain(c, rng) {
        return;
    }
    // the operator provides the data accounts the nullifier sets need
    let op = key(0x0505, 0);
    for mt in c.s.st.nulls.keys().copied().collect::<Vec<_>>() {
        let n = &c.s.st.nulls[&mt];
        for i in 0..(n.set.count() / NULL_PER_CHILD + 2).min(NULL_CHILDREN) {
            if c.s.st.nulls[&mt].kids[i].is_none() {
                let k = child(1, mt, i);
                c.s.l.airdrop(&op, 1_000_000_000);
                c.s.blank(k, 1);
                c.s.run(&[Op::EnableNull { mt, child: k, idx: i as u32 }], op);
            }
        }
    }
    if (c.vk.is_some() || c.setup.is_some()) && c.s.st.vkeys.get(&0).map_or(true, |v| v.key.is_none()) {
        // no transfer can be verified with such a key
        c.jobs.retain(|j| matches!(j, Job::D(_)));
    }
    for j in 0..c.jobs.len() {
        if c.s.dead {
            return;
        }
        if c.s.st.queue.len() > 180 && !drain(c, rng) {
            return;
        }
        match c.jobs[j].clone() {
            Job::D(_) => finish_deposit(c, j, rng),
            Job::T(_) => finish_transfer(c, j, rng),
        }
    }
    if c.s.dead || !drain(c, rng) {
        return;
    }
    c.s.conservation();
    c.s.audit();
    // every commitment that was paid for is in the tree exactly once
    let waiting: Vec<B32> = c.s.st.queue.iter().map(|q| q.0).collect();
    if !c.s.dead {
        let h = c.s.h.clone();
        for (k, n) in &h.stored {
            let pending = c.s.st.bases.values().filter(|b| b.active && crate::poseidon::mont(b.commitment) == *k).count() as u32
                + waiting.iter().filter(|x| *x == k).count() as u32;
            let got = h.inserted.get(k).copied().unwrap_or(0) + pending;
            if got != *n {
                c.s.bad(&["C06", "C07", "C04"], "commitment-lost", format!("{k:?}: paid {n} times, in the tree or waiting {got} times"));
                return;
            }
        }
        c.s.rep.hit("C06");
        c.s.rep.hit("C07");
        c.s.rep.hit("C10");
    }
}

fn finish_deposit(c: &mut Core, j: usize, rng: &mut Rng) {
    let Job::D(d) = c.jobs[j].clone() else { return };
    let t = &tokens()[d.token as usize];
    if d.amount < t.min || d.amount > t.max {
        return;
    }
    let mut txs = 0;
    let mut fails = 0;
    while let Some((ops, payer)) = c.advance(j, rng) {
        if !c.s.st.bases.contains_key(&d.acc()) && d.req.is_none() && d.token > 0 && d.amount > 15_000_000_000 {
            return;
        }
        let o = c.exec(&ops, payer);
        txs += 1;
        if c.s.dead {
            return;
        }
        if !o.ok() {
            fails += 1;
            if let Some(Op::Store { .. }) = ops.first() {
                // the note value was used by somebody else: the depositor picks another one
                let s = c.serial;
                c.serial += 1;
                let Job::D(d) = &mut c.jobs[j] else { return };
                d.secret = crate::groth::fr(&mut Rng::new(simkit::rng::mix(&[c.seed, 0xDE, s])));
                d.req = None;
                d.idx = rng.below(1 << 30) as u32;
                d.bump = base_hashing(d.idx).1;
            }
            if fails > 3 {
                let n = ops.first().map(|o| o.name()).unwrap_or("");
                stuck(c, &["C10", "C06"], format!("stuck:deposit:{n}:{}", why(&o)), format!("{d:?}", d = d.amount));
                return;
            }
        }
        if txs > 12 {
            stuck(c, &["C10"], "stuck:deposit:too-long".into(), String::new());
            return;
        }
    }
    c.s.rep.hit("C10");
}

fn finish_transfer(c: &mut Core, j: usize, rng: &mut Rng) {
    let Job::T(t) = &mut c.jobs[j] else { return };
    t.eager = false;
    let t = t.clone();
    let acc = t.acc();
    let mine = |c: &Core, t: &Tra| c.s.st.verifs.contains_key(&t.acc()) && c.current(t).is_some();
    if !mine(c, &t) {
        if c.s.st.verifs.contains_key(&acc) {
            return; // the slot is in use by something else
        }
        if t.kind != ProofKind::Valid || c.superseded(&t) {
            return;
        }
        if t.inputs.iter().any(|n| !c.s.h.leaf.contains_key(&n.commitment)) {
            return; // rolled back
        }
    }
    let prefund = t.token == 0 && t.amount > 0 && !c.s.l.exists(&t.wallet);
    if prefund {
        c.s.l.airdrop(&t.wallet, WALLET_RENT);
    }
    let theirs = ata(&t.wallet, t.token.max(1));
    if t.token > 0 && t.is_ata && c.s.l.exists(&theirs) && c.s.l.get(&theirs).owner != spl_token::ID {
        // somebody sent lamports to the address of the recipient's account; anybody may open the account now
        c.s.rep.probe("prefunded account of a recipient");
        c.s.fund_token(&t.wallet, t.token, 0);
    }
    let (mut txs, mut fails, mut computes) = (0, 0, 0u32);
    loop {
        if c.s.dead {
            return;
        }
        let Job::T(t) = c.jobs[j].clone() else { return };
        if t.small {
            return;
        }
        let k = t.acc();
        let Some(v) = c.s.st.verifs.get(&k).cloned() else {
            if t.variants.iter().any(|v| c.s.h.stored.contains_key(&v.out.commitment)) || t.kind != ProofKind::Valid {
                c.s.rep.hit("C10");
                return;
            }
            if c.superseded(&t) {
                return;
            }
            // (re)start
            if t.is_ata && c.ata_tokens(t.token).map_or(true, |x| t.amount < x + t.opt_fee) {
                return; // the deposit for the recipient's account exceeds the amount by now
            }
            if !c.prepare(j, rng) {
                return; // fees exceed the notes' value by now
            }
            let Job::T(t) = &mut c.jobs[j] else { return };
            let x = t.variants.last_mut().unwrap();
            x.skip = c.s.st.dups.contains(&dup(&x.req.nullifiers()));
            let t = t.clone();
            let x = t.variants.last().unwrap();
            let ops = vec![c.init_op(&t, x), c.fee_op(&t)];
            let skip = x.skip;
            let o = c.exec(&ops, t.payer);
            (txs, computes) = (1, 0);
            if !o.ok() {
                fails += 1;
                if fails > 3 {
                    let w = why(&o);
                    let d = format!("skip {skip} {}", c.s.why);
                    stuck(c, &["C10"], format!("stuck:start:{w}"), d);
                    return;
                }
            }
            continue;
        };
        let Some(x) = c.current(&t) else { return };
        if v.state == S_PROOF && v.verified == Some(true) && c.superseded(&t) {
            // a transfer of the same notes was faster: it has to be closed like a rejected one
            let ops = c.final_ops(&t, &x, true);
            let o = c.exec(&ops, t.payer);
            if !o.ok() && !c.s.dead {
                let Out::Refused(w) = &o else { return };
                // the notes are recorded already; the closure of such a transfer is missing (a known finding)
                let kind = if c.s.why == "already-spent" {
                    "stuck:superseded".to_string()
                } else if c.s.why == "second-tree-input" {
                    "stuck:second-tree".to_string()
                } else {
                    format!("stuck:superseded:{}", short(w))
                };
                let p: &[&'static str] = if kind == "stuck:second-tree" { &["C10", "C09"] } else { &["C10", "C20"] };
                stuck(c, p, kind, format!("{k} can neither be finalized nor closed: {w}"));
            }
            return;
        }
        let (ops, payer) = match v.state {
            S_NONE => (vec![c.fee_op(&t)], t.payer),
            S_FEE => (vec![Op::Proof { payer: t.payer, idx: t.idx, proof: x.proof.clone() }], t.payer),
            S_PROOF => match v.verified {
                None => {
                    if !t.full && v.miller == 0 && c.s.fast_forward(&k) {
                        continue;
                    }
                    computes += 1;
                    let n = if v.fin > 0 || v.miller < MILLER_IXS { 5 } else { 5 };
                    (c.compute_ops(&t, n), c.relayers[0])
                }
                Some(b) => (c.final_ops(&t, &x, b), t.payer),
            },
            S_FINAL => (vec![c.pay_op(&t, &x)], t.payer),
            _ => return,
        };
        let o = c.exec(&ops, payer);
        txs += 1;
        if c.s.dead {
            return;
        }
        if !o.ok() {
            fails += 1;
            if v.state == S_NONE {
                // the fee offered became too low: the owner starts again
                if let Job::T(t) = &mut c.jobs[j] {
                    t.idx = (0..128).find(|i| !c.s.st.verifs.contains_key(&verif(&t.payer, *i))).unwrap_or(0) as u8;
                }
            }
            if fails > 3 && c.s.st.nulls.get(&v.trees[0]).map_or(false, |n| n.set.count() + 4 > NULL_CHILDREN * NULL_PER_CHILD) {
                return; // the record of spent notes is full
            }
            if fails > 3 && c.s.why == "token-authority" && t.pay && v.payer_acc != Some(holder(&t.payer, t.token)) {
                return; // its starter named somebody else's account, from which it can not make the payment
            }
            if fails > 3 {
                let n: Vec<&str> = ops.iter().map(|o| o.name()).collect();
                let second = x.req.inputs.iter().filter(|i| i.0.is_some()).count() > 1;
                let kind = if c.s.why == "second-tree-input" && second {
                    "stuck:second-tree".to_string()
                } else {
                    format!("stuck:transfer:{}:{}", n.last().unwrap_or(&""), why(&o))
                };
                stuck(c, &["C10", if v.verified == Some(false) { "C20" } else { "C09" }], kind, format!("{k} state {} token {:?}: {} paying account {:?} pay {}", v.state, x.req.token, c.s.why, v.payer_acc, t.pay));
                return;
            }
        }
        let bound = v.prep.len() as u32 + 43 + FINAL_IXS + 6;
        if computes > bound || txs > 40 + bound {
            let flawed = c.s.st.verifs.get(&k).map_or(false, |v| c.s.expected(v) == Some(false));
            stuck(c, if flawed { &["C10", "C20"] } else { &["C10"] }, "stuck:transfer:too-long".into(), format!("{computes} computation transactions of {bound}: {:?}", c.s.st.verifs.get(&k).map(|v| (v.state, v.prep.len(), v.prep_done, v.miller, v.fin, v.tainted, v.verified))));
            return;
        }
    }
}
