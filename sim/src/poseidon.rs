//! Independent Poseidon (BN254 scalar field, t = 3, 8 full and 57 partial rounds, x^5) whose constants are
//! generated from the Grain LFSR of the Poseidon paper instead of being copied from the repository.

use ark_bn254::Fr;
use ark_ff::{BigInteger256, Field, FpParameters, PrimeField, Zero};
use std::sync::OnceLock;

struct Params {
    c: Vec<Fr>,
    m: [[Fr; 3]; 3],
}

struct Grain {
    s: Vec<bool>,
}

impl Grain {
    fn new() -> Self {
        let mut s = vec![];
        let mut push = |v: u64, n: usize| {
            for i in (0..n).rev() {
                s.push((v >> i) & 1 == 1)
            }
        };
        push(1, 2);
        push(0, 4);
        push(254, 12);
        push(3, 12);
        push(8, 10);
        push(57, 10);
        push((1 << 30) - 1, 30);
        let mut g = Grain { s };
        for _ in 0..160 {
            g.raw();
        }
        g
    }
    fn raw(&mut self) -> bool {
        let s = &self.s;
        let b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0];
        self.s.remove(0);
        self.s.push(b);
        b
    }
    fn bit(&mut self) -> bool {
        loop {
            let a = self.raw();
            let b = self.raw();
            if a {
                return b;
            }
        }
    }
    fn int(&mut self) -> BigInteger256 {
        let mut l = [0u64; 4];
        for i in (0..254).rev() {
            if self.bit() {
                l[i / 64] |= 1 << (i % 64);
            }
        }
        BigInteger256::new(l)
    }
}

fn params() -> &'static Params {
    static P: OnceLock<Params> = OnceLock::new();
    P.get_or_init(|| {
        let mut g = Grain::new();
        let mut c = vec![];
        while c.len() < 65 * 3 {
            let v = g.int();
            if v < ark_bn254::FrParameters::MODULUS {
                c.push(Fr::from_repr(v).unwrap());
            }
        }
        let mut l = vec![];
        for _ in 0..6 {
            let mut v = g.int();
            if v >= ark_bn254::FrParameters::MODULUS {
                use ark_ff::BigInteger;
                v.sub_noborrow(&ark_bn254::FrParameters::MODULUS);
            }
            l.push(Fr::from_repr(v).unwrap());
        }
        let mut m = [[Fr::zero(); 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                m[i][j] = (l[i] + l[3 + j]).inverse().unwrap();
            }
        }
        Params { c, m }
    })
}

pub fn hash2(a: Fr, b: Fr) -> Fr {
    let p = params();
    let mut s = [Fr::zero(), a, b];
    for r in 0..65 {
        for i in 0..3 {
            s[i] += p.c[r * 3 + i];
        }
        let full = r < 4 || r >= 61;
        for (i, v) in s.iter_mut().enumerate() {
            if full || i == 0 {
                let x2 = v.square();
                *v *= x2.square();
            }
        }
        let mut n = [Fr::zero(); 3];
        for i in 0..3 {
            for j in 0..3 {
                n[i] += p.m[i][j] * s[j];
            }
        }
        s = n;
    }
    s[0]
}

pub fn self_test() {
    let h = hash2(Fr::from(1u64), Fr::from(2u64));
    assert_eq!(
        format!("{}", h.into_repr()),
        format!(
            "{}",
            {
                use std::str::FromStr;
                Fr::from_str("7853200120776062878684798364095072458815029376092732009249414926327459813530")
                    .unwrap()
            }
            .into_repr()
        )
    );
}

/// The 32 bytes as which the program stores a field element (Montgomery limbs)
pub fn mont(f: Fr) -> [u8; 32] {
    let mut b = [0u8; 32];
    for (i, l) in f.0 .0.iter().enumerate() {
        b[i * 8..i * 8 + 8].copy_from_slice(&l.to_le_bytes());
    }
    b
}
pub fn from_mont(b: &[u8]) -> Fr {
    let mut l = [0u64; 4];
    for i in 0..4 {
        l[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    }
    Fr::new(BigInteger256::new(l))
}
/// Canonical little-endian representation
pub fn raw(f: Fr) -> [u8; 32] {
    let mut b = [0u8; 32];
    for (i, l) in f.into_repr().0.iter().enumerate() {
        b[i * 8..i * 8 + 8].copy_from_slice(&l.to_le_bytes());
    }
    b
}
pub fn from_raw(b: &[u8]) -> Option<Fr> {
    let mut l = [0u64; 4];
    for i in 0..4 {
        l[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    }
    Fr::from_repr(BigInteger256::new(l))
}
