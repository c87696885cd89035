//! Values for runs, built on the raw field crate and not on the code under
//! test.
use crate::core::*;
use ff::{Field, PrimeField, PrimeFieldRepr};
use num::bigint::BigUint;
use num::{One, Zero};

pub fn repr_to_big(limbs: &[u64]) -> BigUint {
    let mut b = Vec::with_capacity(limbs.len() * 8);
    for l in limbs {
        b.extend_from_slice(&l.to_le_bytes());
    }
    BigUint::from_bytes_le(&b)
}

pub fn modulus<F: PrimeField>() -> BigUint {
    repr_to_big(F::char().as_ref())
}

pub fn to_big<F: PrimeField>(x: &F) -> BigUint {
    repr_to_big(x.into_repr().as_ref())
}

pub fn from_big<F: PrimeField>(b: &BigUint) -> F {
    let r = b % modulus::<F>();
    let bytes = r.to_bytes_le();
    let mut repr = F::zero().into_repr();
    for (i, c) in bytes.chunks(8).enumerate() {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        if i < repr.as_ref().len() {
            repr.as_mut()[i] = u64::from_le_bytes(w);
        }
    }
    F::from_repr(repr).expect("reduced")
}

pub fn small<F: PrimeField>(v: u64) -> F {
    let mut repr = F::zero().into_repr();
    repr.as_mut()[0] = v;
    F::from_repr(repr).expect("small")
}

pub fn neg<F: Field>(x: &F) -> F {
    let mut y = *x;
    y.negate();
    y
}
pub fn add<F: Field>(a: &F, b: &F) -> F {
    let mut r = *a;
    r.add_assign(b);
    r
}
pub fn sub<F: Field>(a: &F, b: &F) -> F {
    let mut r = *a;
    r.sub_assign(b);
    r
}
pub fn mul<F: Field>(a: &F, b: &F) -> F {
    let mut r = *a;
    r.mul_assign(b);
    r
}
pub fn sq<F: Field>(a: &F) -> F {
    let mut r = *a;
    r.square();
    r
}
pub fn inv<F: Field>(a: &F) -> F {
    a.inverse().expect("HARNESS:inverse of zero")
}
pub fn div<F: Field>(a: &F, b: &F) -> F {
    mul(a, &inv(b))
}

pub fn pow2<F: PrimeField>(k: u64) -> F {
    from_big(&(BigUint::one() << k as usize))
}

pub fn random<F: PrimeField>(p: &mut Prng) -> F {
    let n = F::zero().into_repr().as_ref().len();
    let mut b = vec![];
    for _ in 0..n + 1 {
        b.extend_from_slice(&p.next().to_le_bytes());
    }
    from_big(&BigUint::from_bytes_le(&b))
}

/// Edge-biased field element; 0 on the tape is zero.
pub fn edge<F: PrimeField>(ctx: &Ctx) -> F {
    match ctx.draw(12) {
        0 => F::zero(),
        1 => F::one(),
        2 => neg(&F::one()),
        3 => small(ctx.draw(16)),
        4 => neg(&small::<F>(ctx.draw(16))),
        5 => pow2(ctx.draw(F::NUM_BITS as u64 + 2)),
        6 => sub(&pow2::<F>(ctx.draw(F::NUM_BITS as u64 + 2)), &F::one()),
        7 => {
            let half = modulus::<F>() >> 1usize;
            from_big(&(half + BigUint::from(ctx.draw(3))))
        }
        8 => small(ctx.u64()),
        _ => random(&mut ctx.prng()),
    }
}

/// Mostly random, sometimes an edge.
pub fn value<F: PrimeField>(ctx: &Ctx) -> F {
    if ctx.chance(2, 3) {
        random(&mut ctx.prng())
    } else {
        edge(ctx)
    }
}

pub fn nonzero<F: PrimeField>(ctx: &Ctx) -> F {
    let v: F = value(ctx);
    if v.is_zero() {
        F::one()
    } else {
        v
    }
}

pub fn bits_le<F: PrimeField>(x: &F) -> Vec<bool> {
    big_bits(&to_big(x), F::NUM_BITS as usize)
}

pub fn big_bits(b: &BigUint, n: usize) -> Vec<bool> {
    let bytes = b.to_bytes_le();
    (0..n).map(|i| i / 8 < bytes.len() && bytes[i / 8] >> (i % 8) & 1 == 1).collect()
}

/// Fixed-width little-endian bytes of the canonical integer.
pub fn le_bytes<F: PrimeField>(x: &F) -> Vec<u8> {
    let n = F::zero().into_repr().as_ref().len() * 8;
    let mut b = to_big(x).to_bytes_le();
    b.resize(n, 0);
    b
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn dec<F: PrimeField>(x: &F) -> String {
    to_big(x).to_string()
}

/// Short form for logs.
pub fn show<F: PrimeField>(x: &F) -> String {
    let s = dec(x);
    let m = to_big(&neg(x)).to_string();
    if s.len() <= 12 {
        s
    } else if m.len() <= 12 {
        format!("-{}", m)
    } else {
        format!("{}..", &s[..10])
    }
}

pub fn is_zero_big(b: &BigUint) -> bool {
    b.is_zero()
}
