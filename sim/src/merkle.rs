//! Reference Merkle tree: an append-only sparse tree of height 20 over the independent Poseidon.

use crate::poseidon::hash2;
use ark_bn254::Fr;
use ark_ff::Zero;
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub const HEIGHT: usize = 20;
pub const LEAVES: usize = 1 << HEIGHT;

/// The published value of an empty leaf (Montgomery form)
pub const EMPTY_LEAF: [u8; 32] = [
    130, 154, 1, 250, 228, 248, 226, 43, 27, 76, 165, 173, 91, 84, 165, 131, 78, 224, 152, 167, 123, 115, 91, 213, 116,
    49, 167, 101, 109, 41, 161, 8,
];

/// The commitment of nothing, which can not be inserted
pub fn zero_commitment() -> Fr {
    hash2(hash2(Fr::zero(), Fr::zero()), Fr::zero())
}

/// `empty()[l]`: the value of an empty node on level `l` (level HEIGHT are the leaves, level 0 is the root)
pub fn empty() -> &'static Vec<Fr> {
    static E: OnceLock<Vec<Fr>> = OnceLock::new();
    E.get_or_init(|| {
        let mut v = vec![crate::poseidon::from_mont(&EMPTY_LEAF)];
        for _ in 0..HEIGHT {
            let x = *v.last().unwrap();
            v.push(hash2(x, x));
        }
        v.reverse();
        v
    })
}

#[derive(Clone, Default)]
pub struct Tree {
    /// (level, index) -> value
    pub nodes: BTreeMap<(usize, usize), Fr>,
    pub next: usize,
}

impl Tree {
    pub fn node(&self, level: usize, index: usize) -> Fr {
        self.nodes.get(&(level, index)).copied().unwrap_or(empty()[level])
    }
    pub fn root(&self) -> Fr {
        self.node(0, 0)
    }
    /// Sets a leaf and its path, without moving the append position
    pub fn set_leaf(&mut self, index: usize, v: Fr) {
        self.nodes.insert((HEIGHT, index), v);
        let mut i = index;
        for l in (0..HEIGHT).rev() {
            i /= 2;
            let h = hash2(self.node(l + 1, 2 * i), self.node(l + 1, 2 * i + 1));
            self.nodes.insert((l, i), h);
        }
    }
    pub fn append(&mut self, v: Fr) {
        let i = self.next;
        self.set_leaf(i, v);
        self.next += 1;
    }
}
