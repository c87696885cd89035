//! The two pairing engines, pools of points on their curves (good and bad),
//! and reference encodings written on the pairing crate alone.
use crate::core::*;
use crate::gen::*;
use fawkes_crypto::helpers::groth16::prover::{Proof, ProofData};
use fawkes_crypto::helpers::groth16::verifier::{TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use ff::{Field, PrimeField};
use num::bigint::{BigInt, BigUint};
use num::{One, ToPrimitive};
use pairing::bls12_381::Bls12;
use pairing::bn256::Bn256;
use pairing::{CurveAffine, CurveProjective, EncodedPoint, Engine};
use std::io::{self, Read, Write};
use std::sync::OnceLock;

pub struct Pools<E: Engine> {
    pub g1: Vec<E::G1Affine>,
    pub g2: Vec<E::G2Affine>,
    /// On the curve, outside the subgroup (empty where there are none).
    pub bad1: Vec<E::G1Affine>,
    pub bad2: Vec<E::G2Affine>,
    /// Coordinates of odd shape: a component zero, small or repeated, on the
    /// curve, on its twist or on a neighbour.
    pub odd1: Vec<Vec<BigUint>>,
    pub odd2: Vec<Vec<BigUint>>,
}

pub trait Eng: Engine + Sized {
    const NAME: &'static str;
    fn pools() -> &'static Pools<Self>;
    fn proof_write<W: Write>(p: &Proof<Self>, w: W) -> io::Result<()>;
    fn proof_read<R: Read>(r: R) -> io::Result<Proof<Self>>;
    fn proof_data(p: &Proof<Self>) -> ProofData<Self::Fq>;
    fn proof_from(d: &ProofData<Self::Fq>) -> Proof<Self>;
    fn tvk_data(p: &TruncatedVerifyingKey<Self>) -> TruncatedVerifyingKeyData<Self::Fq>;
    fn tvk_from(d: &TruncatedVerifyingKeyData<Self::Fq>) -> TruncatedVerifyingKey<Self>;
}

macro_rules! eng {
    ($e:ty, $name:expr, $pools:expr) => {
        impl Eng for $e {
            const NAME: &'static str = $name;
            fn pools() -> &'static Pools<Self> {
                static P: OnceLock<Pools<$e>> = OnceLock::new();
                P.get_or_init($pools)
            }
            fn proof_write<W: Write>(p: &Proof<Self>, w: W) -> io::Result<()> {
                p.write(w)
            }
            fn proof_read<R: Read>(r: R) -> io::Result<Proof<Self>> {
                Proof::<$e>::read(r)
            }
            fn proof_data(p: &Proof<Self>) -> ProofData<Self::Fq> {
                p.into_data()
            }
            fn proof_from(d: &ProofData<Self::Fq>) -> Proof<Self> {
                Proof::<$e>::from_data(d)
            }
            fn tvk_data(p: &TruncatedVerifyingKey<Self>) -> TruncatedVerifyingKeyData<Self::Fq> {
                p.into_data()
            }
            fn tvk_from(d: &TruncatedVerifyingKeyData<Self::Fq>) -> TruncatedVerifyingKey<Self> {
                TruncatedVerifyingKey::<$e>::from_data(d)
            }
        }
    };
}

pub fn mul_big<C: CurveAffine>(p: &C, k: &BigUint) -> C {
    let mut acc = C::Projective::zero();
    for b in big_bits(k, k.bits()).iter().rev() {
        acc.double();
        if *b {
            acc.add_assign_mixed(p);
        }
    }
    acc.into_affine()
}

pub fn add_pt<C: CurveAffine>(p: &C, q: &C) -> C {
    let mut a = p.into_projective();
    a.add_assign_mixed(q);
    a.into_affine()
}

/// A point of the whole curve.
pub fn wild<C: CurveAffine>(rng: &mut Prng) -> C {
    loop {
        let mut c = C::one().into_compressed();
        let n = c.as_ref().len();
        for (i, b) in c.as_mut().iter_mut().enumerate() {
            let r = rng.next() as u8;
            if i == 0 {
                *b = (*b & 0xc0) | (r & 0x03);
            } else {
                *b = r;
            }
        }
        let _ = n;
        if let Ok(p) = c.into_affine_unchecked() {
            if !p.is_zero() && on_curve(&p) {
                return p;
            }
        }
    }
}

/// pairing_ce's bn256 Fq2 square root answers for non-squares too, so that its
/// compressed decoder yields points off the curve: always check.
pub fn on_curve<C: CurveAffine>(p: &C) -> bool {
    use pairing::GroupDecodingError::NotOnCurve;
    p.is_zero() || !matches!(p.into_uncompressed().into_affine(), Err(NotOnCurve))
}

pub fn in_subgroup<C: CurveAffine>(p: &C) -> bool {
    mul_big(p, &modulus::<C::Scalar>()).is_zero()
}

fn good<C: CurveAffine>(rng: &mut Prng, n: usize) -> Vec<C> {
    let mut v = vec![C::one()];
    let mut m = C::one();
    m.negate();
    v.push(m);
    while v.len() < n {
        v.push(mul_big(&C::one(), &to_big(&random::<C::Scalar>(rng))));
    }
    v
}

/// Points outside the subgroup: generic, subgroup point plus torsion, and of
/// small order (`factors` divide the cofactor `h`).
fn bad<C: CurveAffine>(rng: &mut Prng, h: &BigUint, factors: &[u64]) -> Vec<C> {
    let r = modulus::<C::Scalar>();
    let mut v: Vec<C> = vec![];
    for _ in 0..4 {
        let q = wild::<C>(rng);
        assert!(!in_subgroup(&q), "HARNESS:wild point in subgroup");
        let t = mul_big(&q, &r);
        assert!(mul_big(&t, h).is_zero(), "HARNESS:cofactor {}", std::any::type_name::<C>());
        v.push(q);
        v.push(t);
        v.push(add_pt(&t, &C::one()));
        for f in factors {
            let s = mul_big(&t, &(h / BigUint::from(*f)));
            if !s.is_zero() {
                v.push(s);
                v.push(add_pt(&s, &C::one()));
            }
        }
    }
    v.retain(|p| !p.is_zero() && !in_subgroup(p));
    v
}

/// Arithmetic of the base field or its extension by a root of -1.
struct Ext {
    p: BigUint,
}
impl Ext {
    fn add(&self, a: &[BigUint], b: &[BigUint]) -> Vec<BigUint> {
        a.iter().zip(b).map(|(x, y)| (x + y) % &self.p).collect()
    }
    fn neg(&self, a: &[BigUint]) -> Vec<BigUint> {
        a.iter().map(|x| (&self.p - x) % &self.p).collect()
    }
    fn mul(&self, a: &[BigUint], b: &[BigUint]) -> Vec<BigUint> {
        if a.len() == 1 {
            return vec![&a[0] * &b[0] % &self.p];
        }
        let re = &a[0] * &b[0] + (&self.p - &a[1]) * &b[1];
        let im = &a[0] * &b[1] + &a[1] * &b[0];
        vec![re % &self.p, im % &self.p]
    }
    fn root1(&self, a: &BigUint) -> Option<BigUint> {
        // p = 3 mod 4
        let r = a.modpow(&((&self.p + 1u32) >> 2), &self.p);
        if &r * &r % &self.p == *a {
            Some(r)
        } else {
            None
        }
    }
    fn root(&self, a: &[BigUint]) -> Option<Vec<BigUint>> {
        if a.len() == 1 {
            return self.root1(&a[0]).map(|r| vec![r]);
        }
        let inv = |x: &BigUint| x.modpow(&(&self.p - 2u32), &self.p);
        let norm = (&a[0] * &a[0] + &a[1] * &a[1]) % &self.p;
        let n = self.root1(&norm)?;
        for n in [n.clone(), (&self.p - &n) % &self.p] {
            let half = (&a[0] + n) * inv(&BigUint::from(2u32)) % &self.p;
            if let Some(re) = self.root1(&half) {
                let im = if re == BigUint::from(0u32) { self.root1(&((&self.p - &a[0]) % &self.p))? } else { &a[1] * inv(&(&re * 2u32 % &self.p)) % &self.p };
                let r = vec![re, im];
                if self.mul(&r, &r) == a {
                    return Some(r);
                }
            }
        }
        None
    }
}

fn odd<C: CurveAffine>(rng: &mut Prng, p: BigUint, w: usize) -> Vec<Vec<BigUint>> {
    let one = coords(&C::one(), w).unwrap();
    let h = one.len() / 2;
    let f = Ext { p: p.clone() };
    let cube = |x: &[BigUint]| f.mul(&f.mul(x, x), x);
    let b = f.add(&f.mul(&one[h..], &one[h..]), &f.neg(&cube(&one[..h])));
    let zero = vec![BigUint::from(0u32); h];
    let mut out: Vec<Vec<BigUint>> = vec![];
    for i in 0..24u32 {
        let k = match i % 3 {
            0 => BigUint::from(i / 3),
            1 => &p - (i / 3 + 1),
            _ => BigUint::from_bytes_le(&(0..64).map(|_| rng.next() as u8).collect::<Vec<u8>>()) % &p,
        };
        let xs: Vec<Vec<BigUint>> = match h {
            1 => vec![vec![k]],
            _ => vec![vec![k.clone(), zero[0].clone()], vec![zero[0].clone(), k.clone()], vec![k.clone(), k]],
        };
        for x in xs {
            let c = cube(&x);
            let right = f.add(&c, &b);
            let sides = [right.clone(), f.neg(&right), f.add(&c, &f.neg(&b)), c.clone(), b.clone(), f.add(&right, &b), f.add(&right, &x)];
            for (n, s) in sides.iter().enumerate() {
                // the curve itself more often
                if n > 0 && rng.below(3) > 0 {
                    continue;
                }
                if let Some(y) = f.root(s) {
                    out.push([x.clone(), y].concat());
                }
            }
            if rng.below(4) == 0 {
                out.push([x, zero.clone()].concat());
            }
        }
    }
    out
}

/// The points among such coordinates that are on the curve and outside the subgroup.
fn odd_bad<C: CurveAffine>(v: &[Vec<BigUint>], w: usize) -> Vec<C> {
    let all = v.iter().filter_map(|xy| {
        let order: Vec<usize> = if xy.len() == 2 { vec![0, 1] } else { vec![1, 0, 3, 2] };
        let mut u = C::Uncompressed::empty();
        let mut b = vec![];
        for i in order {
            let mut c = xy[i].to_bytes_le();
            c.resize(w, 0);
            c.reverse();
            b.extend(c);
        }
        u.as_mut().copy_from_slice(&b);
        u.into_affine_unchecked().ok()
    });
    all.filter(|p: &C| !p.is_zero() && on_curve(p) && !in_subgroup(p)).collect()
}

fn with_odd<E: Eng>(mut v: Pools<E>) -> Pools<E> {
    let mut rng = Prng::new(13);
    let (p, w) = (modulus::<E::Fq>(), fq_bytes::<E>());
    v.odd1 = odd::<E::G1Affine>(&mut rng, p.clone(), w);
    v.odd2 = odd::<E::G2Affine>(&mut rng, p, w);
    v.bad1.extend(odd_bad::<E::G1Affine>(&v.odd1, w));
    v.bad2.extend(odd_bad::<E::G2Affine>(&v.odd2, w));
    v
}

eng!(Bn256, "bn256", || {
    let mut rng = Prng::new(11);
    let (p, r) = (modulus::<pairing::bn256::Fq>(), modulus::<pairing::bn256::Fr>());
    let h2 = BigUint::from(2u32) * p - r;
    with_odd(Pools { g1: good(&mut rng, 40), g2: good(&mut rng, 24), bad1: vec![], bad2: bad(&mut rng, &h2, &[10069]), odd1: vec![], odd2: vec![] })
});

eng!(Bls12, "bls12_381", || {
    let mut rng = Prng::new(12);
    let x = -BigInt::from(0xd201000000010000u64);
    let h1 = ((&x - BigInt::one()) * (&x - BigInt::one())) / BigInt::from(3);
    let pw = |k: usize| (0..k).fold(BigInt::one(), |a, _| a * &x);
    let h2 = (pw(8) - BigInt::from(4) * pw(7) + BigInt::from(5) * pw(6) - BigInt::from(4) * pw(4)
        + BigInt::from(6) * pw(3)
        - BigInt::from(4) * pw(2)
        - BigInt::from(4) * pw(1)
        + BigInt::from(13))
        / BigInt::from(9);
    let (h1, h2) = (h1.to_biguint().unwrap(), h2.to_biguint().unwrap());
    with_odd(Pools {
        g1: good(&mut rng, 40),
        g2: good(&mut rng, 24),
        bad1: bad(&mut rng, &h1, &[3, 121]),
        bad2: bad(&mut rng, &h2, &[169, 529]),
        odd1: vec![],
        odd2: vec![],
    })
});

/// Affine coordinates as integers, base field components low first.
pub fn coords<C: CurveAffine>(p: &C, fq_bytes: usize) -> Option<Vec<BigUint>> {
    if p.is_zero() {
        return None;
    }
    let u = p.into_uncompressed();
    let v: Vec<BigUint> = u.as_ref().chunks(fq_bytes).map(BigUint::from_bytes_be).collect();
    // the encoding has c1 before c0
    Some(match v.len() {
        2 => v,
        4 => vec![v[1].clone(), v[0].clone(), v[3].clone(), v[2].clone()],
        _ => panic!("HARNESS:coords"),
    })
}

pub fn fq_bytes<E: Engine>() -> usize {
    E::Fq::zero().into_repr().as_ref().len() * 8
}


/// Decodes one compressed point by the rules of the stream format: canonical,
/// on the curve, in the subgroup, not the identity.
pub fn ref_point<C: CurveAffine>(b: &[u8]) -> Option<C> {
    let mut c = C::Compressed::empty();
    c.as_mut().copy_from_slice(b);
    let p = c.into_affine().ok()?;
    if p.is_zero() || !on_curve(&p) || !in_subgroup(&p) {
        return None;
    }
    Some(p)
}

pub fn csize<C: CurveAffine>() -> usize {
    C::Compressed::size()
}

pub fn enc<C: CurveAffine>(p: &C) -> Vec<u8> {
    p.into_compressed().as_ref().to_vec()
}

pub fn hash_pt<C: CurveAffine>(p: &C) -> u64 {
    hash_bytes(p.into_uncompressed().as_ref())
}

pub fn draw_g1<E: Eng>(ctx: &Ctx) -> E::G1Affine {
    *ctx.pick(&E::pools().g1)
}
pub fn draw_g2<E: Eng>(ctx: &Ctx) -> E::G2Affine {
    *ctx.pick(&E::pools().g2)
}

pub fn draw_tvk<E: Eng>(ctx: &Ctx, n_ic: usize) -> TruncatedVerifyingKey<E> {
    TruncatedVerifyingKey {
        alpha_g1: draw_g1::<E>(ctx),
        beta_g2: draw_g2::<E>(ctx),
        gamma_g2: draw_g2::<E>(ctx),
        delta_g2: draw_g2::<E>(ctx),
        ic: (0..n_ic).map(|_| draw_g1::<E>(ctx)).collect(),
    }
}

pub fn draw_proof<E: Eng>(ctx: &Ctx) -> Proof<E> {
    Proof(bellman::groth16::Proof { a: draw_g1::<E>(ctx), b: draw_g2::<E>(ctx), c: draw_g1::<E>(ctx) })
}

pub fn enc_tvk<E: Engine>(k: &TruncatedVerifyingKey<E>) -> Vec<u8> {
    let mut v = enc(&k.alpha_g1);
    v.extend(enc(&k.beta_g2));
    v.extend(enc(&k.gamma_g2));
    v.extend(enc(&k.delta_g2));
    for p in &k.ic {
        v.extend(enc(p));
    }
    v
}

pub fn same_tvk<E: Engine>(a: &TruncatedVerifyingKey<E>, b: &TruncatedVerifyingKey<E>) -> bool {
    a.alpha_g1 == b.alpha_g1
        && a.beta_g2 == b.beta_g2
        && a.gamma_g2 == b.gamma_g2
        && a.delta_g2 == b.delta_g2
        && a.ic == b.ic
}

pub fn dec_tvk<E: Engine>(b: &[u8]) -> Option<TruncatedVerifyingKey<E>> {
    let (n1, n2) = (csize::<E::G1Affine>(), csize::<E::G2Affine>());
    let head = n1 + 3 * n2;
    if b.len() < head || (b.len() - head) % n1 != 0 {
        return None;
    }
    let g2 = |i: usize| ref_point::<E::G2Affine>(&b[n1 + i * n2..n1 + (i + 1) * n2]);
    Some(TruncatedVerifyingKey {
        alpha_g1: ref_point(&b[..n1])?,
        beta_g2: g2(0)?,
        gamma_g2: g2(1)?,
        delta_g2: g2(2)?,
        ic: b[head..].chunks(n1).map(ref_point).collect::<Option<Vec<_>>>()?,
    })
}

pub fn enc_proof<E: Engine>(p: &bellman::groth16::Proof<E>) -> Vec<u8> {
    let mut v = enc(&p.a);
    v.extend(enc(&p.b));
    v.extend(enc(&p.c));
    v
}

pub fn proof_size<E: Engine>() -> usize {
    2 * csize::<E::G1Affine>() + csize::<E::G2Affine>()
}

pub fn dec_proof<E: Engine>(b: &[u8]) -> Option<bellman::groth16::Proof<E>> {
    let (n1, n2) = (csize::<E::G1Affine>(), csize::<E::G2Affine>());
    if b.len() < proof_size::<E>() {
        return None;
    }
    Some(bellman::groth16::Proof {
        a: ref_point(&b[..n1])?,
        b: ref_point(&b[n1..n1 + n2])?,
        c: ref_point(&b[n1 + n2..2 * n1 + n2])?,
    })
}

/// Damages a run of compressed points on its way through a disk or a network.
/// `items` are the sizes of the points in order.  Returns what was done.
pub fn damage<E: Eng>(ctx: &Ctx, bytes: &mut Vec<u8>, items: &[usize]) -> String {
    let offs: Vec<usize> = items.iter().scan(0, |a, n| { let o = *a; *a += n; Some(o) }).collect();
    let n1 = csize::<E::G1Affine>();
    let k = ctx.below(items.len());
    let (o, n) = (offs[k], items[k]);
    let pick_same = |want: usize| -> Option<usize> {
        let c: Vec<usize> = (0..items.len()).filter(|j| *j != k && items[*j] == want).collect();
        if c.is_empty() { None } else { Some(c[ctx.below(c.len())]) }
    };
    let what = match ctx.draw(11) {
        0 => {
            let i = ctx.below(bytes.len());
            let m = 1u8 << ctx.draw(8);
            bytes[i] ^= m;
            format!("flip bit {} of byte {}", m, i)
        }
        1 => {
            // the flag bits are in the first byte of a point
            let m = 1u8 << (4 + ctx.draw(4));
            bytes[o] ^= m;
            format!("flip flag {:#x} of point {}", m, k)
        }
        2 => {
            let l = ctx.below(bytes.len());
            bytes.truncate(l);
            format!("truncate to {}", l)
        }
        3 => {
            let l = 1 + ctx.below(n1 - 1);
            let mut p = ctx.prng();
            bytes.extend((0..l).map(|_| p.next() as u8));
            format!("append {} bytes", l)
        }
        4 => {
            let c = bytes[o..o + n].to_vec();
            bytes.splice(o..o, c);
            format!("duplicate point {}", k)
        }
        5 => {
            bytes.drain(o..o + n);
            format!("drop point {}", k)
        }
        6 => match pick_same(n) {
            Some(j) => {
                let (a, b) = (bytes[o..o + n].to_vec(), bytes[offs[j]..offs[j] + n].to_vec());
                bytes[o..o + n].copy_from_slice(&b);
                bytes[offs[j]..offs[j] + n].copy_from_slice(&a);
                format!("swap points {} and {}", k, j)
            }
            None => "nothing".into(),
        },
        7 => {
            // a point outside the subgroup
            let b = if n == n1 {
                if E::pools().bad1.is_empty() { vec![] } else { enc(ctx.pick(&E::pools().bad1)) }
            } else {
                enc(ctx.pick(&E::pools().bad2))
            };
            if !b.is_empty() {
                bytes[o..o + n].copy_from_slice(&b);
            }
            format!("point {} outside the subgroup", k)
        }
        8 => {
            let b = if n == n1 { enc(&E::G1Affine::zero()) } else { enc(&E::G2Affine::zero()) };
            bytes[o..o + n].copy_from_slice(&b);
            format!("point {} at infinity", k)
        }
        9 => {
            let mut p = ctx.prng();
            for b in bytes[o..o + n].iter_mut().skip(1) {
                *b = p.next() as u8;
            }
            format!("point {} random", k)
        }
        _ => {
            let fill = *ctx.pick(&[0u8, 0xff]);
            let from = ctx.below(n);
            for b in bytes[o + from..o + n].iter_mut() {
                *b = fill;
            }
            format!("point {} filled with {:#x} from {}", k, fill, from)
        }
    };
    let kind = what.split(' ').next().unwrap().to_string();
    ctx.fault(&format!("data:{}", if kind == "point" { "bad_point" } else { &kind }));
    what
}

