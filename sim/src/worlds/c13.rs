//! Hash, Merkle and signature gadgets against a prover that cheats.
use super::c12::{preimage_attack, scalar};
use crate::core::*;
use crate::gadget::*;
use crate::gen::*;
use crate::prog::{b2f, Mode};
use crate::rec::*;
use crate::refmodel::{self as rm, Poseidon, Pt};
use crate::runner::World;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::eddsaposeidon::c_eddsaposeidon_verify;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::circuit::poseidon::*;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::ecc::JubJubParams;
use fawkes_crypto::native::eddsaposeidon::eddsaposeidon_verify;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::{poseidon, poseidon_merkle_proof_root, poseidon_merkle_tree_root, poseidon_with_salt, MerkleProof, PoseidonParams};
use ff::{Field, PrimeField};
use num::bigint::BigUint;
use num::One;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use typenum::*;

pub const WORLD: World = World {
    id: "C13",
    run,
    quick: 1_800,
    thorough: 300_000,
    rule: "a run draws a hash, Merkle or signature gadget with its parameters and operands (honest, altered, aliased, undecodable), lets an honest prover run it and then a Byzantine one tamper with the witness; non-trivial: at least one witness tampered with and one oracle comparison; distinct by hash of gadget, operands and tampering history",
    state_measure: "(field, gadget, hash parameters, depth or operand class, constants) tuples",
    real: &["circuit::poseidon, circuit::eddsaposeidon and everything below them; native verification for the signature verdict"],
    stub: &["the proving backend (a recording constraint system)", "the prover's witness (Byzantine)"],
    assumptions: &["the cheating prover is a seeded search with directed preimage and alias attacks, not a decision procedure", "path bits are constrained boolean by the caller; a signature scalar up to the bit width is taken modulo the group order"],
};

fn run(ctx: &Ctx) -> Outcome {
    if ctx.draw(2) == 0 {
        go::<pairing::bn256::Fr>(ctx)
    } else {
        go::<pairing::bls12_381::Fr>(ctx)
    }
}

pub struct Par<F: fawkes_crypto::core::field::Field> {
    pub lib: PoseidonParams<F>,
    pub model: Poseidon<F>,
}

thread_local! {
    static PARAMS: RefCell<HashMap<(std::any::TypeId, usize, usize, usize), Rc<dyn std::any::Any>>> = RefCell::new(HashMap::new());
}

pub fn params<F: JJ>(t: usize, f: usize, p: usize) -> Rc<Par<F>> {
    let key = (std::any::TypeId::of::<F>(), t, f, p);
    if let Some(x) = PARAMS.with(|m| m.borrow().get(&key).cloned()) {
        return x.downcast().unwrap();
    }
    let x = Rc::new(Par::<F> { lib: PoseidonParams::new(t, f, p), model: Poseidon::new(t, f, p) });
    PARAMS.with(|m| m.borrow_mut().insert(key, x.clone()));
    x
}

fn draw_params<F: JJ>(ctx: &Ctx, min_t: usize) -> Rc<Par<F>> {
    match ctx.draw(8) {
        0 if min_t <= 3 => params(3, 8, 53),
        1 if min_t <= 4 => params(4, 8, 54),
        _ => {
            let t = min_t + ctx.below(if ctx.chance(1, 8) { 10 } else { 4 });
            let f = [2, 4, 6, 8, 3][ctx.below(5)];
            let p = [0, 1, 2, 5, 9][ctx.below(5)];
            params(t, f, p)
        }
    }
}

fn proof_root<'a, F: JJ, L: Unsigned>(leaf: &CNum<'a, RecCS<F>>, sib: &[CNum<'a, RecCS<F>>], path: &[CNum<'a, RecCS<F>>], pp: &PoseidonParams<F>) -> CNum<'a, RecCS<F>> {
    let proof = CMerkleProof::<RecCS<F>, L> {
        sibling: sib.iter().cloned().collect::<SizedVec<_, L>>(),
        path: path.iter().map(|b| CBool(b.clone())).collect::<SizedVec<_, L>>(),
    };
    c_poseidon_merkle_proof_root(leaf, &proof, pp)
}

fn native_root<F: JJ, L: Unsigned>(leaf: F, sib: &[F], path: &[bool], pp: &PoseidonParams<F>) -> Num<F> {
    let proof = MerkleProof::<F, L> { sibling: sib.iter().map(|x| Num(*x)).collect::<SizedVec<_, L>>(), path: path.iter().cloned().collect::<SizedVec<_, L>>() };
    poseidon_merkle_proof_root(Num(leaf), &proof, pp)
}

/// The statement speaks of the native result: it has to be `want` too.
fn native<F: JJ>(ctx: &Ctx, what: &str, want: &F, f: impl FnOnce() -> Num<F>) -> Outcome {
    ctx.checked();
    match guarded(f) {
        Err(e) => violated!("native-panic", "{}: the native function panicked: {}", what, e),
        Ok(v) => {
            ensure!(v.0 == *want, "native-differs", "{}: the native result is not the definition's", what);
            Ok(())
        }
    }
}

fn go<F: JJ>(ctx: &Ctx) -> Outcome {
    let none: Directed<F> = &|_, _, _| None;
    let style = ctx.draw(4);
    let mix = ctx.u64();
    let konst = move |i: usize| match style {
        0 | 1 => false,
        2 => true,
        _ => mix >> (i % 64) & 1 == 1,
    };
    match ctx.draw(10) {
        0..=2 => {
            let salted = ctx.draw(2) == 0;
            let pp = draw_params::<F>(ctx, if salted { 2 } else { 1 });
            let top = if salted { pp.model.t - 1 } else { pp.model.t };
            let n = 1 + ctx.below(top);
            let ins: Vec<F> = (0..n).map(|_| value::<F>(ctx)).collect();
            let seed: Vec<u8> = {
                let mut p = ctx.prng();
                (0..ctx.below(20)).map(|_| p.next() as u8).collect()
            };
            let w = if salted { pp.model.hash_salted(&ins, &seed) } else { pp.model.hash(&ins) };
            let name = format!("{} poseidon t={} f={} p={} n={} salted={} style={}", F::NAME, pp.model.t, pp.model.f, pp.model.p, n, salted, style);
            ctx.event(name.clone());
            ctx.state(hash_str(&name));
            native(ctx, &name, &w, || {
                let v: Vec<Num<F>> = ins.iter().map(|x| Num(*x)).collect();
                if salted {
                    poseidon_with_salt(&v, &seed, &pp.lib)
                } else {
                    poseidon(&v, &pp.lib)
                }
            })?;
            check_gadget(ctx, &name, &|cs, m| {
                let v: Vec<CNum<RecCS<F>>> = ins.iter().enumerate().map(|(i, x)| as_in(cs, x, konst(i), m)).collect();
                let k = cs.n_vars();
                (k, vec![if salted { c_poseidon_with_salt(&v, &seed, &pp.lib) } else { c_poseidon(&v, &pp.lib) }])
            }, Some(&[w]), 4, none)
        }
        3..=5 => {
            let pp = draw_params::<F>(ctx, 2);
            let long = pp.model.p < 10;
            let depth = if long { *ctx.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 16, 20, 32, 33]) } else { ctx.below(3) };
            let leaf = value::<F>(ctx);
            let sib: Vec<F> = (0..depth).map(|_| if ctx.draw(5) == 0 { leaf } else { value::<F>(ctx) }).collect();
            let path: Vec<bool> = (0..depth).map(|_| ctx.draw(2) == 1).collect();
            let w = pp.model.merkle_proof_root(&leaf, &sib, &path);
            let name = format!("{} merkle proof depth={} t={} f={} p={} style={}", F::NAME, depth, pp.model.t, pp.model.f, pp.model.p, style);
            ctx.event(format!("{} path {:?}", name, path));
            ctx.state(hash_str(&format!("{} path {:?}", name, path)));
            native(ctx, &name, &w, || match depth {
                0 => native_root::<F, U0>(leaf, &sib, &path, &pp.lib),
                1 => native_root::<F, U1>(leaf, &sib, &path, &pp.lib),
                2 => native_root::<F, U2>(leaf, &sib, &path, &pp.lib),
                3 => native_root::<F, U3>(leaf, &sib, &path, &pp.lib),
                4 => native_root::<F, U4>(leaf, &sib, &path, &pp.lib),
                5 => native_root::<F, U5>(leaf, &sib, &path, &pp.lib),
                6 => native_root::<F, U6>(leaf, &sib, &path, &pp.lib),
                7 => native_root::<F, U7>(leaf, &sib, &path, &pp.lib),
                8 => native_root::<F, U8>(leaf, &sib, &path, &pp.lib),
                16 => native_root::<F, U16>(leaf, &sib, &path, &pp.lib),
                20 => native_root::<F, U20>(leaf, &sib, &path, &pp.lib),
                32 => native_root::<F, U32>(leaf, &sib, &path, &pp.lib),
                _ => native_root::<F, U33>(leaf, &sib, &path, &pp.lib),
            })?;
            check_gadget(ctx, &name, &|cs, m| {
                let l = as_in(cs, &leaf, konst(0), m);
                let s: Vec<CNum<RecCS<F>>> = sib.iter().enumerate().map(|(i, x)| as_in(cs, x, konst(1 + i), m)).collect();
                let p: Vec<CNum<RecCS<F>>> = path.iter().enumerate().map(|(i, x)| as_in(cs, &b2f(*x), konst(20 + i), m)).collect();
                let k = cs.n_vars();
                let r = match depth {
                    0 => proof_root::<F, U0>(&l, &s, &p, &pp.lib),
                    1 => proof_root::<F, U1>(&l, &s, &p, &pp.lib),
                    2 => proof_root::<F, U2>(&l, &s, &p, &pp.lib),
                    3 => proof_root::<F, U3>(&l, &s, &p, &pp.lib),
                    4 => proof_root::<F, U4>(&l, &s, &p, &pp.lib),
                    5 => proof_root::<F, U5>(&l, &s, &p, &pp.lib),
                    6 => proof_root::<F, U6>(&l, &s, &p, &pp.lib),
                    7 => proof_root::<F, U7>(&l, &s, &p, &pp.lib),
                    8 => proof_root::<F, U8>(&l, &s, &p, &pp.lib),
                    16 => proof_root::<F, U16>(&l, &s, &p, &pp.lib),
                    20 => proof_root::<F, U20>(&l, &s, &p, &pp.lib),
                    32 => proof_root::<F, U32>(&l, &s, &p, &pp.lib),
                    _ => proof_root::<F, U33>(&l, &s, &p, &pp.lib),
                };
                (k, vec![r])
            }, Some(&[w]), 4, none)
        }
        6 | 7 => {
            let pp = draw_params::<F>(ctx, 2);
            let n = 1 + if pp.model.p < 10 { ctx.below(20) } else { ctx.below(4) };
            let leaves: Vec<F> = (0..n).map(|_| value::<F>(ctx)).collect();
            let w = pp.model.merkle_root(&leaves);
            let name = format!("{} merkle tree of {} t={} f={} p={} style={}", F::NAME, n, pp.model.t, pp.model.f, pp.model.p, style);
            ctx.event(name.clone());
            ctx.state(hash_str(&name));
            native(ctx, &name, &w, || poseidon_merkle_tree_root(&leaves.iter().map(|x| Num(*x)).collect::<Vec<_>>(), &pp.lib))?;
            check_gadget(ctx, &name, &|cs, m| {
                let v: Vec<CNum<RecCS<F>>> = leaves.iter().enumerate().map(|(i, x)| as_in(cs, x, konst(i), m)).collect();
                let k = cs.n_vars();
                (k, vec![c_poseidon_merkle_tree_root(&v, &pp.lib)])
            }, Some(&[w]), 3, none)
        }
        _ => signature::<F>(ctx, &konst),
    }
}

fn signature<F: JJ>(ctx: &Ctx, konst: &dyn Fn(usize) -> bool) -> Outcome {
    type Fs<F> = <<F as JJ>::J as JubJubParams>::Fs;
    let c = F::curve();
    let pp = if ctx.draw(4) == 0 { params::<F>(4, 8, 54) } else { params::<F>(4, 4, 3) };
    let sk: Fs<F> = from_big(&scalar(ctx, &c.order));
    let m0 = value::<F>(ctx);
    let (s0, r0) = rm::sign(&sk, &m0, &pp.model, c);
    let a0 = c.mul(&c.g, &to_big(&sk)).x;
    let (mut s, mut r, mut a, mut m) = (to_big(&s0), r0, a0, m0);
    let width = Fs::<F>::NUM_BITS as usize;
    let class = match ctx.draw(17) {
        0..=3 => "valid",
        4 => {
            s += &c.order;
            "s + l"
        }
        5 => {
            s = (BigUint::one() << width) + ctx.draw(4);
            "s too wide"
        }
        6 => {
            s = to_big(&value::<F>(ctx));
            "arbitrary s"
        }
        7 => {
            s = (s + 1u32) % &c.order;
            "s altered"
        }
        8 => {
            m = add(&m, &F::one());
            "m altered"
        }
        9 => {
            a = neg(&a);
            "a negated"
        }
        10 => {
            r = neg(&r);
            "r negated"
        }
        11 => {
            a = c.random_point(&mut ctx.prng()).x;
            "a random point"
        }
        12 => {
            r = c.random_point(&mut ctx.prng()).x;
            "r random point"
        }
        13 => {
            // a torsion part added to the key or the nonce
            let t = ctx.pick(F::torsion());
            if ctx.draw(2) == 0 {
                a = c.add(&c.mul(&c.g, &to_big(&sk)), t).x;
            } else {
                let p = c.decompress(&r0).unwrap();
                r = c.add(&p, t).x;
            }
            "torsion added"
        }
        15 => {
            s = (&c.order - s) % &c.order;
            "s negated"
        }
        14 => {
            // the identity as key: s must be the nonce's logarithm
            a = F::zero();
            let k = scalar(ctx, &c.order);
            r = c.mul(&c.g, &k).x;
            s = k;
            "identity key"
        }
        _ => {
            let x = value::<F>(ctx);
            if ctx.draw(2) == 0 {
                a = x
            } else {
                r = x
            }
            "arbitrary x"
        }
    };
    let sf: F = from_big(&s);
    let s = to_big(&sf);
    let decodes = c.decompress(&a).is_some() && c.decompress(&r).is_some() && s.bits() <= width;
    let ss: Fs<F> = from_big(&s);
    let ok = decodes && rm::verify(&ss, &r, &a, &m, &pp.model, c);
    let want: Option<[F; 1]> = if decodes { Some([b2f(ok)]) } else { None };
    let what = format!("{} signature {} p={}", F::NAME, class, pp.model.p);
    ctx.event(format!("{} -> {:?}", what, want.map(|w| !w[0].is_zero())));
    ctx.state(hash_str(&format!("{} {:?} {}{}{}{}", what, want.map(|w| !w[0].is_zero()), konst(0), konst(1), konst(2), konst(3))));
    // the native verdict is the yardstick of the statement
    if s < c.order {
        ctx.checked();
        let nat = guarded(|| eddsaposeidon_verify(Num(ss), Num(r), Num(a), Num(m), &pp.lib, F::jj()));
        match nat {
            Err(e) => violated!("native-panic", "{}: native verification panicked: {}", what, e),
            Ok(v) => ensure!(v == ok, "native-differs", "{}: native verification says {} and the definition says {}", what, v, ok),
        }
    }
    // preimages that lead to the given coordinates by the doubling formulas
    let mut fakes: Vec<(String, Pt<F>)> = vec![];
    for x in [&a, &r] {
        let mut f: Vec<_> = fake_preimages::<F>(ctx, x, None).into_iter().filter(|(_, p)| c.mul(p, &BigUint::from(8u32)).x == *x).collect();
        let k = ctx.below(f.len().max(1));
        f.rotate_left(k);
        f.truncate(2);
        fakes.extend(f);
    }
    check_gadget(ctx, &what, &|cs, mode| {
        let v: Vec<CNum<RecCS<F>>> = [sf, r, a, m].iter().enumerate().map(|(i, x)| as_in(cs, x, konst(i), mode)).collect();
        let k = cs.n_vars();
        (k, vec![c_eddsaposeidon_verify(&v[0], &v[1], &v[2], &v[3], &pp.lib, F::jj()).0])
    }, want.as_ref().map(|w| &w[..]), 1, &|sys, outs, want| {
        if let Some(f) = sys.alias_attack(ctx, outs, want) {
            return Some(f);
        }
        preimage_attack(ctx, sys, outs, want, &fakes)
    })
}
