//! Reference nullifier set: an ordered set seen as consecutive blocks of 65,536 values, one per data account.

use crate::proto::{le_cmp, B32, NULL_CHILDREN, NULL_PER_CHILD};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Le(pub B32);
impl PartialOrd for Le {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Le {
    fn cmp(&self, o: &Self) -> Ordering {
        le_cmp(&self.0, &o.0)
    }
}

#[derive(Clone, Default)]
pub struct NullSet {
    /// Values present from the start (ascending)
    pub base: Arc<Vec<B32>>,
    pub added: BTreeSet<Le>,
}

impl NullSet {
    pub fn count(&self) -> usize {
        self.base.len() + self.added.len()
    }
    pub fn contains(&self, v: &B32) -> bool {
        self.added.contains(&Le(*v)) || self.base.binary_search_by(|x| le_cmp(x, v)).is_ok()
    }
    /// The value at a position of the ascending order
    pub fn at(&self, rank: usize) -> B32 {
        // positions of the added values in the merged order are increasing
        let mut before = 0;
        for a in &self.added {
            let pos = self.base.partition_point(|x| le_cmp(x, &a.0) == Ordering::Less) + before;
            match pos.cmp(&rank) {
                Ordering::Less => before += 1,
                Ordering::Equal => return a.0,
                Ordering::Greater => break,
            }
        }
        self.base[rank - before]
    }
    pub fn full(&self) -> usize {
        self.count() / NULL_PER_CHILD
    }
    pub fn max_of_block(&self, i: usize) -> Option<B32> {
        let end = ((i + 1) * NULL_PER_CHILD).min(self.count());
        if end > i * NULL_PER_CHILD {
            Some(self.at(end - 1))
        } else {
            None
        }
    }
    pub fn block(&self, i: usize) -> Vec<B32> {
        let lo = i * NULL_PER_CHILD;
        let hi = ((i + 1) * NULL_PER_CHILD).min(self.count());
        if hi <= lo {
            return vec![];
        }
        let mut v = Vec::with_capacity(self.count());
        let mut a = self.added.iter().peekable();
        for b in self.base.iter() {
            while a.peek().map_or(false, |x| le_cmp(&x.0, b) == Ordering::Less) {
                v.push(a.next().unwrap().0);
            }
            v.push(*b);
        }
        v.extend(a.map(|x| x.0));
        v[lo..hi].to_vec()
    }
    /// Data account a membership query for a value is answered by
    pub fn child_of(&self, v: &B32) -> usize {
        let full = self.full();
        (0..full).find(|i| le_cmp(v, &self.max_of_block(*i).unwrap()) != Ordering::Greater).unwrap_or(full)
    }
}

/// An insertion in progress (only ever within one transaction)
#[derive(Clone, Default)]
pub struct Inserting {
    kids: BTreeMap<usize, (usize, BTreeSet<Le>)>,
    pub moved: Vec<(B32, usize)>,
    pub count: usize,
    pub inserted: Vec<B32>,
    pub touched: BTreeSet<usize>,
}

impl Inserting {
    pub fn new(s: &NullSet) -> Self {
        Inserting { count: s.count(), ..Default::default() }
    }
    fn kid(&mut self, s: &NullSet, i: usize) -> &mut (usize, BTreeSet<Le>) {
        let hi = ((i + 1) * NULL_PER_CHILD).min(s.count()).saturating_sub(i * NULL_PER_CHILD);
        self.kids.entry(i).or_insert((hi, BTreeSet::new()))
    }
    fn max(&mut self, s: &NullSet, i: usize) -> Option<B32> {
        let k = self.kid(s, i).clone();
        let base = if k.0 > 0 { Some(Le(s.at(i * NULL_PER_CHILD + k.0 - 1))) } else { None };
        let top = k.1.iter().next_back().copied();
        base.max(top).map(|x| x.0)
    }
    fn put(&mut self, s: &NullSet, i: usize, v: B32) -> Option<B32> {
        let k = self.kid(s, i);
        let full = k.0 + k.1.len() >= NULL_PER_CHILD;
        k.1.insert(Le(v));
        self.touched.insert(i);
        if !full {
            return None;
        }
        let m = self.max(s, i).unwrap();
        let k = self.kid(s, i);
        if !k.1.remove(&Le(m)) {
            k.0 -= 1;
        }
        Some(m)
    }
    pub fn target(&mut self, s: &NullSet, v: &B32) -> usize {
        let full = self.count / NULL_PER_CHILD;
        for i in 0..full {
            if let Some(m) = self.max(s, i) {
                if le_cmp(v, &m) != Ordering::Greater {
                    return i;
                }
            }
        }
        full
    }
    /// Inserts a value that is in neither the set nor pending; false if it is already there
    pub fn insert(&mut self, s: &NullSet, v: B32, supplied: &dyn Fn(usize) -> bool) -> Result<(), &'static str> {
        if self.count >= NULL_CHILDREN * NULL_PER_CHILD {
            return Err("set-full");
        }
        if s.contains(&v) || self.inserted.contains(&v) {
            return Err("already-spent");
        }
        let i = self.target(s, &v);
        if !supplied(i) {
            return Err("child-missing");
        }
        let mut v2 = v;
        if let Some(p) = self.moved.iter().position(|(m, t)| *t == i && le_cmp(&v2, m) == Ordering::Less) {
            std::mem::swap(&mut self.moved[p].0, &mut v2);
        }
        if let Some(m) = self.put(s, i, v2) {
            self.moved.push((m, i + 1));
        }
        self.sort();
        self.count += 1;
        self.inserted.push(v);
        Ok(())
    }
    fn sort(&mut self) {
        self.moved.sort_by(|a, b| le_cmp(&b.0, &a.0));
    }
    pub fn shift(&mut self, s: &NullSet, supplied: &dyn Fn(usize) -> bool) -> Result<(), &'static str> {
        let t = self.moved.iter().map(|m| m.1).min().unwrap();
        if !supplied(t) {
            return Err("child-missing");
        }
        let (now, rest): (Vec<_>, Vec<_>) = self.moved.drain(..).partition(|m| m.1 == t);
        self.moved = rest;
        for (v, _) in now {
            if let Some(m) = self.put(s, t, v) {
                self.moved.push((m, t + 1));
            }
        }
        self.sort();
        Ok(())
    }
    /// Data accounts the next step works on
    pub fn plan(s: &NullSet, values: &[B32]) -> Vec<Vec<usize>> {
        let mut me = Inserting::new(s);
        let all = |_: usize| true;
        let mut out = vec![];
        for v in values {
            let i = me.target(s, v);
            out.push(vec![i]);
            if me.insert(s, *v, &all).is_err() {
                return out;
            }
        }
        while !me.moved.is_empty() {
            out.push(vec![me.moved.iter().map(|m| m.1).min().unwrap()]);
            if me.shift(s, &all).is_err() {
                break;
            }
        }
        out
    }
}
