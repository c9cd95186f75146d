//! Groth16 over BN254 with a known trapdoor: the simulator can produce a valid proof for every statement it
//! wants to be true without a circuit. The pairing of arkworks is the oracle for the on-chain verification.


use ark_bn254::{Bn254, Fq, Fq12, Fq2, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_ff::{BigInteger256, Field, FpParameters, PrimeField, Zero};
use simkit::rng::Rng;
use std::ops::Neg;
use std::sync::{Arc, OnceLock};

pub const INPUTS: usize = 14;

pub struct Key {
    alpha: Fr,
    beta: Fr,
    gamma: Fr,
    delta: Fr,
    abc: Vec<Fr>,
    ab: Fq12,
    gamma_g2: G2Affine,
    delta_g2: G2Affine,
    abc_g1: Vec<G1Affine>,
    /// The program's binary form
    pub source: Arc<Vec<u8>>,
}

pub type ProofBytes = Vec<u8>; // 65 + 129 + 65
pub const PROOF_LEN: usize = 65 + 129 + 65;

pub fn fr(rng: &mut Rng) -> Fr {
    let mut l = [0u8; 64];
    l[..32].copy_from_slice(&rng.bytes32());
    l[32..].copy_from_slice(&rng.bytes32());
    Fr::from_le_bytes_mod_order(&l)
}

fn fq_from(rng: &mut Rng) -> Fq {
    let mut l = [0u8; 64];
    l[..32].copy_from_slice(&rng.bytes32());
    l[32..].copy_from_slice(&rng.bytes32());
    Fq::from_le_bytes_mod_order(&l)
}

fn fq_bytes(f: &Fq, out: &mut Vec<u8>) {
    for l in f.0 .0 {
        out.extend_from_slice(&l.to_le_bytes())
    }
}
fn fq2_bytes(f: &Fq2, out: &mut Vec<u8>) {
    fq_bytes(&f.c0, out);
    fq_bytes(&f.c1, out);
}
fn g1_bytes(p: &G1Affine, out: &mut Vec<u8>) {
    fq_bytes(&p.x, out);
    fq_bytes(&p.y, out);
    out.push(p.infinity as u8);
}
fn g2_bytes(p: &G2Affine, out: &mut Vec<u8>) {
    fq2_bytes(&p.x, out);
    fq2_bytes(&p.y, out);
    out.push(p.infinity as u8);
}
fn fq12_bytes(f: &Fq12, out: &mut Vec<u8>) {
    for c in [&f.c0, &f.c1] {
        for d in [&c.c0, &c.c1, &c.c2] {
            fq2_bytes(d, out)
        }
    }
}

impl Key {
    pub fn generate(seed: u64) -> Key {
        let mut rng = Rng::new(seed);
        let g1 = G1Projective::prime_subgroup_generator();
        let g2 = G2Projective::prime_subgroup_generator();
        let (alpha, beta, gamma, delta) = (fr(&mut rng), fr(&mut rng), fr(&mut rng), fr(&mut rng));
        let abc: Vec<Fr> = (0..=INPUTS).map(|_| fr(&mut rng)).collect();
        let m1 = |s: Fr| {
            let mut p = g1;
            p *= s;
            p
        };
        let m2 = |s: Fr| {
            let mut p = g2;
            p *= s;
            p.into_affine()
        };
        let alpha_g1 = m1(alpha).into_affine();
        let beta_g2 = m2(beta);
        let gamma_g2 = m2(gamma);
        let delta_g2 = m2(delta);
        let abc_p: Vec<G1Projective> = abc.iter().map(|a| m1(*a)).collect();
        let abc_g1 = G1Projective::batch_normalization_into_affine(&abc_p);
        let ab = Bn254::pairing(alpha_g1, beta_g2);

        let mut src = vec![];
        fq12_bytes(&ab, &mut src);
        g1_bytes(&abc_g1[0], &mut src);
        let mut table = vec![];
        for p in &abc_p[1..] {
            let mut base = *p;
            for _ in 0..32 {
                let mut acc = base;
                for _ in 0..255 {
                    table.push(acc);
                    acc += base;
                }
                base = acc; // 256 * base
            }
        }
        for p in G1Projective::batch_normalization_into_affine(&table) {
            g1_bytes(&p, &mut src);
        }
        for p in [gamma_g2, delta_g2] {
            let prep: <Bn254 as PairingEngine>::G2Prepared = p.neg().into();
            assert_eq!(prep.ell_coeffs.len(), 91);
            for c in &prep.ell_coeffs {
                fq2_bytes(&c.0, &mut src);
                fq2_bytes(&c.1, &mut src);
                fq2_bytes(&c.2, &mut src);
            }
        }
        g1_bytes(&alpha_g1, &mut src);
        g2_bytes(&beta_g2, &mut src);
        g2_bytes(&gamma_g2, &mut src);
        g2_bytes(&delta_g2, &mut src);
        Key { alpha, beta, gamma, delta, abc, ab, gamma_g2, delta_g2, abc_g1, source: Arc::new(src) }
    }

    fn vk_x(&self, inputs: &[Fr]) -> Fr {
        let mut x = self.abc[0];
        for (i, v) in inputs.iter().enumerate() {
            x += self.abc[i + 1] * v;
        }
        x
    }

    /// A valid proof for the statement
    pub fn prove(&self, inputs: &[Fr], rng: &mut Rng) -> ProofBytes {
        let (a, b) = (fr(rng), fr(rng));
        let c = (a * b - self.alpha * self.beta - self.vk_x(inputs) * self.gamma)
            * self.delta.inverse().unwrap();
        let mut pa = G1Projective::prime_subgroup_generator();
        pa *= a;
        let mut pb = G2Projective::prime_subgroup_generator();
        pb *= b;
        let mut pc = G1Projective::prime_subgroup_generator();
        pc *= c;
        let mut out = vec![];
        g1_bytes(&pa.into_affine(), &mut out);
        g2_bytes(&pb.into_affine(), &mut out);
        g1_bytes(&pc.into_affine(), &mut out);
        out
    }

    /// Groth16's verdict on a proof
    pub fn verify(&self, inputs: &[Fr], proof: &[u8]) -> bool {
        let (a, b, c) = match parse(proof) {
            Some(p) => p,
            None => return false,
        };
        if !a.is_on_curve() || !b.is_on_curve() || !c.is_on_curve() {
            return false;
        }
        if !b.is_in_correct_subgroup_assuming_on_curve() {
            return false;
        }
        let mut x = self.abc_g1[0].into_projective();
        for (i, v) in inputs.iter().enumerate() {
            x += self.abc_g1[i + 1].mul(v.into_repr());
        }
        let x = x.into_affine();
        let p = Bn254::product_of_pairings(
            [
                (a.into(), b.into()),
                (x.into(), self.gamma_g2.neg().into()),
                (c.into(), self.delta_g2.neg().into()),
            ]
            .iter(),
        );
        p == self.ab
    }

    /// The computation ends in zero, for which there is no verdict to compute: only degenerate points lead here
    pub fn breaks(&self, inputs: &[Fr], proof: &[u8]) -> bool {
        let Some((a, b, c)) = parse(proof) else { return false };
        if a.is_on_curve() && b.is_on_curve() && c.is_on_curve() {
            return false;
        }
        let mut x = self.abc_g1[0].into_projective();
        for (i, v) in inputs.iter().enumerate() {
            x += self.abc_g1[i + 1].mul(v.into_repr());
        }
        let x = x.into_affine();
        Bn254::miller_loop(
            [(a.into(), b.into()), (x.into(), self.gamma_g2.neg().into()), (c.into(), self.delta_g2.neg().into())].iter(),
        )
        .is_zero()
    }
}

fn fq(b: &[u8]) -> Option<Fq> {
    let mut l = [0u64; 4];
    for i in 0..4 {
        l[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    }
    let v = BigInteger256::new(l);
    if v >= ark_bn254::FqParameters::MODULUS {
        return None;
    }
    Some(Fq::new(v))
}

fn parse(p: &[u8]) -> Option<(G1Affine, G2Affine, G1Affine)> {
    let a = G1Affine::new(fq(&p[0..])?, fq(&p[32..])?, p[64] != 0);
    let b = G2Affine::new(
        Fq2::new(fq(&p[65..])?, fq(&p[97..])?),
        Fq2::new(fq(&p[129..])?, fq(&p[161..])?),
        p[193] != 0,
    );
    let c = G1Affine::new(fq(&p[194..])?, fq(&p[226..])?, p[258] != 0);
    Some((a, b, c))
}

/// A corrupted variant of a proof; returns what was done to it
pub fn corrupt(p: &ProofBytes, other: &ProofBytes, rng: &mut Rng) -> (ProofBytes, &'static str) {
    let mut q = p.clone();
    match rng.below(14) {
        // no points of the curve at all
        9 | 10 => {
            q[..64].fill(0);
            q[65..193].fill(0);
            if rng.pct(30) {
                q[194..258].fill(0);
            }
            (q, "a-and-b-zero")
        }
        11 => {
            let r = rng.pick(&[0..64usize, 65..193, 194..258]).clone();
            q[r].fill(0);
            (q, "zero-coordinates")
        }
        12 => {
            let r = rng.pick(&[0..64usize, 65..193, 194..258]).clone();
            for i in r.step_by(32) {
                q[i..i + 32].copy_from_slice(&rng.bytes32());
                q[i + 31] &= 0x1f;
            }
            (q, "off-curve")
        }
        // on the twist, but most likely outside the subgroup
        13 => {
            let b = loop {
                let x = Fq2::new(fq_from(rng), fq_from(rng));
                if let Some(b) = G2Affine::get_point_from_x(x, rng.pct(50)) {
                    break b;
                }
            };
            let mut o = vec![];
            g2_bytes(&b, &mut o);
            q[65..194].copy_from_slice(&o);
            (q, "other-subgroup")
        }
        0 => {
            let i = rng.idx(64);
            q[i] ^= 1 << rng.below(5);
            (q, "a-bit")
        }
        1 => {
            let i = 65 + rng.idx(128);
            q[i] ^= 1 << rng.below(5);
            (q, "b-bit")
        }
        2 => {
            let i = 194 + rng.idx(64);
            q[i] ^= 1 << rng.below(5);
            (q, "c-bit")
        }
        3 => {
            // another point of the group
            let mut g = G1Projective::prime_subgroup_generator();
            g *= fr(rng);
            let mut o = vec![];
            g1_bytes(&g.into_affine(), &mut o);
            q[194..].copy_from_slice(&o);
            (q, "c-other-point")
        }
        4 => {
            let (a, _, c) = parse(p).unwrap();
            let mut o = vec![];
            if rng.pct(50) {
                g1_bytes(&a.neg(), &mut o);
                q[..65].copy_from_slice(&o);
            } else {
                g1_bytes(&c.neg(), &mut o);
                q[194..].copy_from_slice(&o);
            }
            (q, "negated")
        }
        5 => {
            q[194..].copy_from_slice(&p[..65]);
            q[..65].copy_from_slice(&p[194..]);
            (q, "swapped")
        }
        6 => (other.clone(), "other-statement"),
        7 => {
            q[..65].copy_from_slice(&other[..65]);
            (q, "mixed")
        }
        _ => {
            let i = *rng.pick(&[64usize, 193, 258]);
            q[i] = 1;
            (q, "infinity")
        }
    }
}

pub fn key(i: usize) -> &'static Key {
    static K: [OnceLock<Key>; 3] = [OnceLock::new(), OnceLock::new(), OnceLock::new()];
    K[i].get_or_init(|| Key::generate(0xE1u64 + i as u64))
}

