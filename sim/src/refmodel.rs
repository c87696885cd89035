//! Executable reference model: hashes, curves, signatures and trees written
//! from their definitions on the raw field crate, independently of the code
//! under test.
use crate::gen::*;
use ff::{Field, PrimeField, PrimeFieldRepr, SqrtField};
use num::bigint::BigUint;
use rand::Rng;

const PERSONA: &[u8; 8] = b"__fawkes";

// ---------------------------------------------------------------- BLAKE2s
const IV: [u32; 8] = [
    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

pub fn blake2s(outlen: usize, persona: &[u8], data: &[u8]) -> Vec<u8> {
    let mut h = IV;
    h[0] ^= 0x0101_0000 ^ outlen as u32;
    if persona.len() == 8 {
        h[6] ^= u32::from_le_bytes([persona[0], persona[1], persona[2], persona[3]]);
        h[7] ^= u32::from_le_bytes([persona[4], persona[5], persona[6], persona[7]]);
    }
    let mut t = 0u64;
    let nblocks = if data.is_empty() { 1 } else { (data.len() + 63) / 64 };
    for b in 0..nblocks {
        let chunk = &data[b * 64..((b + 1) * 64).min(data.len())];
        t += chunk.len() as u64;
        let mut blk = [0u8; 64];
        blk[..chunk.len()].copy_from_slice(chunk);
        let mut m = [0u32; 16];
        for i in 0..16 {
            m[i] = u32::from_le_bytes([blk[4 * i], blk[4 * i + 1], blk[4 * i + 2], blk[4 * i + 3]]);
        }
        let mut v = [0u32; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= t as u32;
        v[13] ^= (t >> 32) as u32;
        if b == nblocks - 1 {
            v[14] = !v[14];
        }
        for s in SIGMA.iter() {
            let mut g = |a: usize, b: usize, c: usize, d: usize, x: u32, y: u32| {
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                v[d] = (v[d] ^ v[a]).rotate_right(16);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(12);
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
                v[d] = (v[d] ^ v[a]).rotate_right(8);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(7);
            };
            g(0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    let mut out = vec![];
    for w in h.iter() {
        out.extend_from_slice(&w.to_le_bytes());
    }
    out.truncate(outlen);
    out
}

pub fn nbytes<F: PrimeField>() -> usize {
    ((F::NUM_BITS + 7) / 8) as usize
}

pub fn be_bytes<F: PrimeField>(x: &F) -> Vec<u8> {
    let mut b = to_big(x).to_bytes_le();
    b.resize(nbytes::<F>(), 0);
    b.reverse();
    b
}

pub fn from_seed<F: PrimeField>(seed: &[u8]) -> F {
    from_big(&BigUint::from_bytes_be(&blake2s(nbytes::<F>(), PERSONA, seed)))
}

pub fn other<F: PrimeField, G: PrimeField>(x: &F) -> G {
    from_big(&to_big(x))
}

/// The deterministic constant generator.
pub struct Seedbox {
    salt: Option<Vec<u8>>,
    n: u64,
    buf: Vec<u8>,
    /// words taken
    pub words: u64,
}

impl Seedbox {
    pub fn new(salt: Option<&[u8]>) -> Self {
        Seedbox { salt: salt.map(|s| blake2s(32, &[], s)), n: 0, buf: vec![], words: 0 }
    }
}

impl Rng for Seedbox {
    fn next_u32(&mut self) -> u32 {
        if self.buf.is_empty() {
            let mut d = self.n.to_le_bytes().to_vec();
            self.n += 1;
            if let Some(s) = &self.salt {
                d.extend_from_slice(s);
            }
            self.buf = blake2s(32, PERSONA, &d);
        }
        self.words += 1;
        let w: Vec<u8> = self.buf.drain(..4).collect();
        u32::from_le_bytes([w[0], w[1], w[2], w[3]])
    }
}

// --------------------------------------------------------------- Poseidon
#[derive(Clone)]
pub struct Poseidon<F> {
    pub c: Vec<F>,
    pub m: Vec<Vec<F>>,
    pub t: usize,
    pub f: usize,
    pub p: usize,
}

impl<F: PrimeField> Poseidon<F> {
    pub fn new(t: usize, f: usize, p: usize) -> Self {
        let mut sb = Seedbox::new(Some(format!("fawkes_poseidon(t={},f={},p={})", t, f, p).as_bytes()));
        let c = (0..f + p).map(|_| sb.gen()).collect();
        let m = (0..t).map(|_| (0..t).map(|_| sb.gen()).collect()).collect();
        Poseidon { c, m, t, f, p }
    }

    pub fn hash(&self, inputs: &[F]) -> F {
        let mut st = vec![F::zero(); self.t];
        st[..inputs.len()].copy_from_slice(inputs);
        let pow5 = |x: &F| mul(&sq(&sq(x)), x);
        for r in 0..self.f + self.p {
            for s in st.iter_mut() {
                *s = add(s, &self.c[r]);
            }
            let full = r < self.f / 2 || r >= self.f / 2 + self.p;
            let n = if full { self.t } else { 1 };
            for s in st[..n].iter_mut() {
                *s = pow5(s);
            }
            let old = st.clone();
            for i in 0..self.t {
                let mut acc = F::zero();
                for j in 0..self.t {
                    acc = add(&acc, &mul(&self.m[i][j], &old[j]));
                }
                st[i] = acc;
            }
        }
        st[0]
    }

    pub fn hash_salted(&self, inputs: &[F], seed: &[u8]) -> F {
        let mut v = inputs.to_vec();
        v.push(from_seed(seed));
        self.hash(&v)
    }

    pub fn merkle_proof_root(&self, leaf: &F, sibling: &[F], path: &[bool]) -> F {
        let mut cur = *leaf;
        for (s, p) in sibling.iter().zip(path) {
            cur = if *p { self.hash(&[*s, cur]) } else { self.hash(&[cur, *s]) };
        }
        cur
    }

    /// Root of the smallest power-of-two tree that holds the leaves.
    pub fn merkle_root(&self, leaves: &[F]) -> F {
        let mut n = 1;
        while n < leaves.len() {
            n *= 2;
        }
        let mut lv = leaves.to_vec();
        lv.resize(n, F::zero());
        while lv.len() > 1 {
            lv = lv.chunks(2).map(|c| self.hash(&[c[0], c[1]])).collect();
        }
        lv[0]
    }

    /// (siblings, path) of leaf `i` in a tree of depth `depth`.
    pub fn merkle_path(&self, leaves: &[F], depth: usize, i: usize) -> (Vec<F>, Vec<bool>) {
        let mut lv = leaves.to_vec();
        lv.resize(1 << depth, F::zero());
        let (mut sib, mut path, mut k) = (vec![], vec![], i);
        for _ in 0..depth {
            sib.push(lv[k ^ 1]);
            path.push(k & 1 == 1);
            k >>= 1;
            lv = lv.chunks(2).map(|c| self.hash(&[c[0], c[1]])).collect();
        }
        (sib, path)
    }
}

// ---------------------------------------------------------------- JubJub
/// -x^2 + y^2 = 1 + d x^2 y^2
#[derive(Clone, Debug)]
pub struct Curve<F: PrimeField> {
    pub d: F,
    pub ma: F,
    pub mb: F,
    pub mu: F,
    pub g: Pt<F>,
    pub order: BigUint,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pt<F: PrimeField> {
    pub x: F,
    pub y: F,
}

impl<F: PrimeField + SqrtField> Curve<F> {
    pub fn new(num: u64, den: u64, u: u64, order: BigUint) -> Self {
        let one = F::one();
        let d = neg(&div(&small::<F>(num), &small::<F>(den)));
        let ma = div(&mul(&small(2), &sub(&one, &d)), &add(&one, &d));
        let mb = neg(&div(&small::<F>(4), &add(&one, &d)));
        let mut c = Curve { d, ma, mb, mu: small(u), g: Pt { x: F::zero(), y: one }, order };
        c.g = c.from_scalar(&from_seed(b"edwards_g"));
        c
    }

    pub fn zero(&self) -> Pt<F> {
        Pt { x: F::zero(), y: F::one() }
    }

    pub fn on_curve(&self, p: &Pt<F>) -> bool {
        let (x2, y2) = (sq(&p.x), sq(&p.y));
        sub(&y2, &x2) == add(&F::one(), &mul(&self.d, &mul(&x2, &y2)))
    }

    pub fn add(&self, p: &Pt<F>, q: &Pt<F>) -> Pt<F> {
        let a = mul(&p.x, &q.y);
        let b = mul(&q.x, &p.y);
        let k = mul(&self.d, &mul(&a, &b));
        let yy = add(&mul(&p.y, &q.y), &mul(&p.x, &q.x));
        let one = F::one();
        Pt { x: div(&add(&a, &b), &add(&one, &k)), y: div(&yy, &sub(&one, &k)) }
    }

    pub fn negp(&self, p: &Pt<F>) -> Pt<F> {
        Pt { x: neg(&p.x), y: p.y }
    }

    /// Projective double-and-add with the textbook formulas.
    pub fn mul(&self, p: &Pt<F>, k: &BigUint) -> Pt<F> {
        let nb = k.bits();
        let one = F::one();
        let (mut x, mut y, mut z) = (F::zero(), one, one);
        let bits = big_bits(k, nb);
        let addp = |x1: &F, y1: &F, z1: &F, x2: &F, y2: &F, z2: &F| {
            let a = mul(z1, z2);
            let b = sq(&a);
            let c = mul(x1, x2);
            let d = mul(y1, y2);
            let e = mul(&self.d, &mul(&c, &d));
            let f = sub(&b, &e);
            let g = add(&b, &e);
            let xx = sub(&sub(&mul(&add(x1, y1), &add(x2, y2)), &c), &d);
            (mul(&mul(&a, &f), &xx), mul(&mul(&a, &g), &add(&d, &c)), mul(&f, &g))
        };
        for b in bits.iter().rev() {
            let r = addp(&x, &y, &z, &x, &y, &z);
            x = r.0;
            y = r.1;
            z = r.2;
            if *b {
                let r = addp(&x, &y, &z, &p.x, &p.y, &one);
                x = r.0;
                y = r.1;
                z = r.2;
            }
        }
        let zi = inv(&z);
        Pt { x: mul(&x, &zi), y: mul(&y, &zi) }
    }

    pub fn in_subgroup(&self, p: &Pt<F>) -> bool {
        self.on_curve(p) && self.mul(p, &self.order) == self.zero()
    }

    pub fn to_montgomery(&self, p: &Pt<F>) -> Option<(F, F)> {
        if p.x.is_zero() {
            if p.y == F::one() {
                None
            } else {
                Some((F::zero(), F::zero()))
            }
        } else {
            let one = F::one();
            let u = div(&add(&one, &p.y), &sub(&one, &p.y));
            Some((u, div(&u, &p.x)))
        }
    }

    pub fn from_montgomery(&self, u: &F, v: &F) -> Pt<F> {
        let one = F::one();
        if u.is_zero() {
            Pt { x: F::zero(), y: neg(&one) }
        } else {
            Pt { x: div(u, v), y: div(&sub(u, &one), &add(u, &one)) }
        }
    }

    /// Hash-to-curve of the documentation: t != -1.
    pub fn from_scalar(&self, t: &F) -> Pt<F> {
        let one = F::one();
        let t1 = add(t, &one);
        let t2 = mul(&sq(&t1), &self.mu);
        let x2 = mul(&neg(&inv(&self.ma)), &add(&one, &inv(&t2)));
        let g = |x: &F| div(&add(&mul(&sq(x), &add(x, &self.ma)), x), &self.mb);
        let even = |y: F| if y.into_repr().is_odd() { neg(&y) } else { y };
        let (u, v) = match g(&x2).sqrt() {
            Some(y) => (x2, even(y)),
            None => {
                let x3 = mul(&x2, &t2);
                (x3, even(g(&x3).sqrt().expect("HARNESS:no root")))
            }
        };
        self.mul(&self.from_montgomery(&u, &v), &BigUint::from(8u32))
    }

    /// Points of the curve with this x, on the whole curve.
    pub fn with_x(&self, x: &F) -> Vec<Pt<F>> {
        let x2 = sq(x);
        let den = sub(&F::one(), &mul(&self.d, &x2));
        if den.is_zero() {
            return vec![];
        }
        match div(&add(&F::one(), &x2), &den).sqrt() {
            Some(y) => vec![Pt { x: *x, y }, Pt { x: *x, y: neg(&y) }],
            None => vec![],
        }
    }

    pub fn decompress(&self, x: &F) -> Option<Pt<F>> {
        self.with_x(x).into_iter().find(|p| self.in_subgroup(p))
    }

    /// A point of the curve, most likely outside the subgroup.
    pub fn random_point(&self, rng: &mut crate::core::Prng) -> Pt<F> {
        loop {
            let v = self.with_x(&random::<F>(rng));
            if !v.is_empty() {
                return v[(rng.next() & 1) as usize];
            }
        }
    }

    /// A point of order 2, 4 or 8 (8 = the whole torsion generator).
    pub fn torsion(&self, rng: &mut crate::core::Prng, order: u32) -> Pt<F> {
        loop {
            let t = self.mul(&self.random_point(rng), &self.order);
            // t has order dividing 8
            if self.mul(&t, &BigUint::from(4u32)) != self.zero() {
                return self.mul(&t, &BigUint::from(8 / order));
            }
        }
    }

    pub fn halvings(&self, p: &Pt<F>) -> Vec<Pt<F>> {
        // 2v/(1+d v^2) = x with v = x0 y0; then x0^2, y0^2 from the curve
        let mut out: Vec<Pt<F>> = vec![];
        let one = F::one();
        let mut vs = vec![];
        if p.x.is_zero() {
            vs.push(F::zero());
        } else {
            // d x v^2 - 2 v + x = 0
            let a = mul(&self.d, &p.x);
            let disc = sub(&one, &mul(&a, &p.x));
            if let Some(s) = disc.sqrt() {
                vs.push(div(&add(&one, &s), &a));
                vs.push(div(&sub(&one, &s), &a));
            }
        }
        for v in vs {
            // y0^2 - x0^2 = 1 + d v^2 ; x0^2 + y0^2 = Y (1 - d v^2)
            let dv2 = mul(&self.d, &sq(&v));
            let s = mul(&p.y, &sub(&one, &dv2));
            let t = add(&one, &dv2);
            let half = inv(&small::<F>(2));
            let y2 = mul(&add(&s, &t), &half);
            let x2 = mul(&sub(&s, &t), &half);
            if let (Some(y), Some(x)) = (y2.sqrt(), x2.sqrt()) {
                for (a, b) in [(x, y), (neg(&x), y), (x, neg(&y)), (neg(&x), neg(&y))] {
                    let q = Pt { x: a, y: b };
                    if self.on_curve(&q) && self.add(&q, &q) == *p && !out.contains(&q) {
                        out.push(q);
                    }
                }
            }
        }
        out
    }
}

// ----------------------------------------------------------------- EdDSA
pub fn hash_r<F: PrimeField, S: PrimeField>(sk: &S, m: &F) -> S {
    let mut d = be_bytes(sk);
    d.extend_from_slice(&be_bytes(m));
    from_big(&BigUint::from_bytes_be(&blake2s(32, PERSONA, &d)))
}

pub fn challenge<F: PrimeField>(r: &F, a: &F, m: &F, pp: &Poseidon<F>) -> F {
    pp.hash_salted(&[*r, *a, *m], b"eddsaposeidon")
}

pub fn sign<F: PrimeField + SqrtField, S: PrimeField>(sk: &S, m: &F, pp: &Poseidon<F>, c: &Curve<F>) -> (S, F) {
    let rho: S = hash_r(sk, m);
    let r = c.mul(&c.g, &to_big(&rho)).x;
    let a = c.mul(&c.g, &to_big(sk)).x;
    let h: S = other(&challenge(&r, &a, m, pp));
    (add(&rho, &mul(&h, sk)), r)
}

pub fn verify<F: PrimeField + SqrtField, S: PrimeField>(s: &S, r: &F, a: &F, m: &F, pp: &Poseidon<F>, c: &Curve<F>) -> bool {
    let (pa, pr) = match (c.decompress(a), c.decompress(r)) {
        (Some(x), Some(y)) => (x, y),
        _ => return false,
    };
    let h = challenge(r, a, m, pp);
    c.add(&c.mul(&pa, &to_big(&h)), &pr) == c.mul(&c.g, &to_big(s))
}

pub fn curve_bn() -> &'static Curve<pairing::bn256::Fr> {
    use std::sync::OnceLock;
    static C: OnceLock<Curve<pairing::bn256::Fr>> = OnceLock::new();
    C.get_or_init(|| {
        Curve::new(168696, 168700, 337401, "2736030358979909402780800718157159386076813972158567259200215660948447373041".parse().unwrap())
    })
}

pub fn curve_bls() -> &'static Curve<pairing::bls12_381::Fr> {
    use std::sync::OnceLock;
    static C: OnceLock<Curve<pairing::bls12_381::Fr>> = OnceLock::new();
    C.get_or_init(|| {
        Curve::new(10240, 10241, 81929, "6554484396890773809930967563523245729705921265872317281365359162392183254199".parse().unwrap())
    })
}
