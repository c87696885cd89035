//! Curve gadgets against a prover that cheats.
use crate::core::*;
use crate::gadget::*;
use crate::gen::*;
use crate::prog::{b2f, Mode};
use crate::rec::*;
use crate::refmodel::{Curve, Pt};
use crate::runner::World;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::ecc::{CEdwardsPoint, CMontgomeryPoint};
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::ecc::{EdwardsPoint, MontgomeryPoint};
use fawkes_crypto::native::num::Num;
use ff::{Field, PrimeField};
use num::bigint::BigUint;
use num::{One, Zero};

pub const WORLD: World = World {
    id: "C12",
    run,
    quick: 16_000,
    thorough: 1_000_000,
    rule: "a run draws a curve gadget and its operands (subgroup points, torsion, points off the curve, constants and signals mixed), lets an honest prover run it and then a Byzantine one tamper with the witness; non-trivial: at least one witness tampered with and one oracle comparison; distinct by hash of gadget, operands and tampering history",
    state_measure: "(field, gadget, operand classes, satisfiable or not, constants, bit count) tuples",
    real: &["circuit::ecc, bitify, mux, num and bool on both embedded curves"],
    stub: &["the proving backend (a recording constraint system)", "the prover's witness (Byzantine)"],
    assumptions: &["the cheating prover is a seeded search with directed preimage attacks, not a decision procedure", "operands are in the domains the gadgets document: subgroup points for scalar multiplication, nonzero points for conversion and Montgomery formulas, t != -1 for hash to curve"],
};

fn run(ctx: &Ctx) -> Outcome {
    if ctx.draw(2) == 0 {
        go::<pairing::bn256::Fr>(ctx)
    } else {
        go::<pairing::bls12_381::Fr>(ctx)
    }
}

pub fn scalar(ctx: &Ctx, order: &BigUint) -> BigUint {
    match ctx.draw(6) {
        0 => BigUint::from(ctx.draw(10)) % order,
        1 => (order * 8u32 - BigUint::from(1 + ctx.draw(8))) % order,
        2 => (BigUint::one() << ctx.below(250)) % order,
        _ => {
            let mut p = ctx.prng();
            let b: Vec<u8> = (0..40).map(|_| p.next() as u8).collect();
            BigUint::from_bytes_le(&b) % order
        }
    }
}

/// A subgroup point, now and then the identity.
pub fn sub_point<F: JJ>(ctx: &Ctx) -> Pt<F> {
    let c = F::curve();
    c.mul(&c.g, &scalar(ctx, &c.order))
}

fn nonzero_point<F: JJ>(ctx: &Ctx) -> Pt<F> {
    let p = sub_point::<F>(ctx);
    if p == F::curve().zero() {
        F::curve().g
    } else {
        p
    }
}

/// Any point of the curve, with its class.
fn any_point<F: JJ>(ctx: &Ctx) -> (Pt<F>, &'static str) {
    let c = F::curve();
    match ctx.draw(6) {
        0 | 1 => (sub_point::<F>(ctx), "subgroup"),
        2 => (*ctx.pick(F::torsion()), "torsion"),
        3 => (c.add(&sub_point::<F>(ctx), ctx.pick(F::torsion())), "subgroup+torsion"),
        _ => (c.random_point(&mut ctx.prng()), "random"),
    }
}

fn pt_out<'a, F: JJ>(p: CEdwardsPoint<'a, RecCS<F>>) -> Vec<CNum<'a, RecCS<F>>> {
    vec![p.x, p.y]
}
fn mt_out<'a, F: JJ>(p: CMontgomeryPoint<'a, RecCS<F>>) -> Vec<CNum<'a, RecCS<F>>> {
    vec![p.x, p.y]
}

/// The statement speaks of the native operation: it has to give `want` too.
fn native<F: JJ>(ctx: &Ctx, what: &str, want: &[F], f: impl FnOnce() -> Option<Vec<Num<F>>>) -> Outcome {
    ctx.checked();
    match guarded(f) {
        Err(e) => violated!("native-panic", "native {} panicked: {}", what, e),
        Ok(None) => violated!("native-differs", "native {} gives nothing", what),
        Ok(Some(v)) => {
            ensure!(v.iter().map(|x| x.0).collect::<Vec<_>>() == want, "native-differs", "native {} gives another result than the gadget's definition", what);
            Ok(())
        }
    }
}
fn ed<F: JJ>(p: &Pt<F>) -> EdwardsPoint<F> {
    EdwardsPoint { x: Num(p.x), y: Num(p.y) }
}
fn xy<F: JJ>(p: EdwardsPoint<F>) -> Option<Vec<Num<F>>> {
    Some(vec![p.x, p.y])
}

fn no_directed<F: JJ>(_: &System<F>, _: &[Lc<F>], _: Option<&[F]>) -> Option<Found<F>> {
    None
}

fn go<F: JJ>(ctx: &Ctx) -> Outcome {
    let c = F::curve();
    let j = F::jj();
    let which = ctx.draw(18);
    // constants: none, all, or mixed
    let style = ctx.draw(4);
    let konst: Vec<bool> = (0..8)
        .map(|_| match style {
            0 | 1 => false,
            2 => true,
            _ => ctx.draw(2) == 1,
        })
        .collect();
    let cst = format!("{:?}", &konst[..4]);
    macro_rules! note {
        ($name:expr, $class:expr, $sat:expr) => {
            ctx.event(format!("{} {} {} sat={} const={}", F::NAME, $name, $class, $sat, cst));
            ctx.state(hash_str(&format!("{} {} {} {} {}", F::NAME, $name, $class, $sat, cst)));
        };
    }
    macro_rules! ins {
        ($cs:expr, $mode:expr, $vals:expr) => {{
            let v: Vec<CNum<RecCS<F>>> = $vals.iter().enumerate().map(|(i, x)| as_in($cs, x, konst[i], $mode)).collect();
            let pinned = $cs.n_vars();
            (v, pinned)
        }};
    }
    match which {
        0 | 1 => {
            let (p, cl) = any_point::<F>(ctx);
            let name = if which == 0 { "double" } else { "mul_by_cofactor" };
            note!(name, cl, true);
            let mut want = c.add(&p, &p);
            if which == 1 {
                want = c.mul(&p, &BigUint::from(8u32));
            }
            native(ctx, name, &[want.x, want.y], || xy(if which == 0 { ed(&p).double() } else { ed(&p).mul_by_cofactor() }))?;
            check_gadget(ctx, name, &|cs, m| {
                let (v, n) = ins!(cs, m, [p.x, p.y]);
                let q = CEdwardsPoint { x: v[0].clone(), y: v[1].clone() };
                (n, pt_out(if which == 0 { q.double(j) } else { q.mul_by_cofactor(j) }))
            }, Some(&[want.x, want.y]), 6, &no_directed)
        }
        2 | 3 => {
            let (p, cl) = any_point::<F>(ctx);
            let (q, cl2) = match ctx.draw(5) {
                0 => (p, "same"),
                1 => (c.negp(&p), "negative"),
                2 => (c.zero(), "identity"),
                _ => any_point::<F>(ctx),
            };
            note!("add", format!("{} {}", cl, cl2), true);
            let w = c.add(&p, &q);
            native(ctx, "add", &[w.x, w.y], || xy(ed(&p).add(&ed(&q), j)))?;
            check_gadget(ctx, "add", &|cs, m| {
                let (v, n) = ins!(cs, m, [p.x, p.y, q.x, q.y]);
                let a = CEdwardsPoint { x: v[0].clone(), y: v[1].clone() };
                let b = CEdwardsPoint { x: v[2].clone(), y: v[3].clone() };
                (n, pt_out(a.add(&b, j)))
            }, Some(&[w.x, w.y]), 6, &no_directed)
        }
        4 => {
            let (mut p, mut cl) = any_point::<F>(ctx);
            if ctx.draw(2) == 0 {
                match ctx.draw(3) {
                    0 => p.y = add(&p.y, &F::one()),
                    1 => p = Pt { x: value::<F>(ctx), y: value::<F>(ctx) },
                    _ => std::mem::swap(&mut p.x, &mut p.y),
                }
                cl = "off";
            }
            let ok = c.on_curve(&p);
            note!("assert_in_curve", cl, ok);
            native(ctx, "is_in_curve", &[b2f::<F>(ok)], || Some(vec![Num(b2f(ed(&p).is_in_curve(j)))]))?;
            check_gadget(ctx, "assert_in_curve", &|cs, m| {
                let (v, n) = ins!(cs, m, [p.x, p.y]);
                CEdwardsPoint { x: v[0].clone(), y: v[1].clone() }.assert_in_curve(j);
                (n, vec![])
            }, if ok { Some(&[]) } else { None }, 6, &no_directed)
        }
        5..=7 => {
            let (mut p, mut cl) = any_point::<F>(ctx);
            let orig = p;
            if ctx.draw(3) == 0 {
                match ctx.draw(4) {
                    0 => p.y = add(&p.y, &F::one()),
                    3 => p.x = add(&p.x, &F::one()),
                    1 => p = Pt { x: value::<F>(ctx), y: value::<F>(ctx) },
                    _ => {
                        // (x, -y): on the curve, the same x
                        p.y = neg(&p.y);
                    }
                }
                cl = "altered";
            }
            let ok = c.in_subgroup(&p);
            note!("assert_in_subgroup", cl, ok);
            if c.on_curve(&p) {
                native(ctx, "is_in_subgroup", &[b2f::<F>(ok)], || Some(vec![Num(b2f(ed(&p).into_extended().is_in_subgroup(j)))]))?;
            }
            let mut fakes = fake_preimages::<F>(ctx, &p.x, Some(&p.y));
            if orig != p && c.in_subgroup(&orig) {
                let e = eighth(c, &orig);
                fakes.insert(0, ("preimage of the unaltered point".into(), e));
                fakes.insert(1, ("preimage of its negative".into(), c.negp(&e)));
            }
            check_gadget(ctx, "assert_in_subgroup", &|cs, m| {
                let (v, n) = ins!(cs, m, [p.x, p.y]);
                CEdwardsPoint { x: v[0].clone(), y: v[1].clone() }.assert_in_subgroup(j);
                (n, vec![])
            }, if ok { Some(&[]) } else { None }, 3, &|sys, outs, want| preimage_attack(ctx, sys, outs, want, &fakes))
        }
        8..=10 => {
            let (p, mut cl) = any_point::<F>(ctx);
            let mut x = p.x;
            if ctx.draw(5) == 0 {
                x = value::<F>(ctx);
                cl = "arbitrary x";
            }
            let q = c.decompress(&x);
            note!("subgroup_decompress", cl, q.is_some());
            native(ctx, "subgroup_decompress", &q.map_or(vec![], |q| vec![q.x, q.y]), || Some(EdwardsPoint::subgroup_decompress(Num(x), j).map_or(vec![], |q| vec![q.x, q.y])))?;
            let fakes = fake_preimages::<F>(ctx, &x, None);
            let want = q.map(|q| [q.x, q.y]);
            check_gadget(ctx, "subgroup_decompress", &|cs, m| {
                let (v, n) = ins!(cs, m, [x]);
                (n, pt_out(CEdwardsPoint::subgroup_decompress(&v[0], j)))
            }, want.as_ref().map(|w| &w[..]), 3, &|sys, outs, want| preimage_attack(ctx, sys, outs, want, &fakes))
        }
        11 => {
            let p = nonzero_point::<F>(ctx);
            let (u, v) = c.to_montgomery(&p).unwrap();
            note!("into_montgomery", "subgroup", true);
            native(ctx, "into_montgomery", &[u, v], || ed(&p).into_montgomery().map(|q| vec![q.x, q.y]))?;
            check_gadget(ctx, "into_montgomery", &|cs, m| {
                let (v, n) = ins!(cs, m, [p.x, p.y]);
                (n, mt_out(CEdwardsPoint { x: v[0].clone(), y: v[1].clone() }.into_montgomery()))
            }, Some(&[u, v]), 6, &no_directed)
        }
        12 => {
            // any nonzero point, (0,0) included
            let (p, cl) = any_point::<F>(ctx);
            let p = if p == c.zero() { c.g } else { p };
            let (u, v) = c.to_montgomery(&p).unwrap();
            note!("into_edwards", cl, true);
            native(ctx, "into_affine", &[p.x, p.y], || xy(MontgomeryPoint { x: Num(u), y: Num(v) }.into_affine()))?;
            check_gadget(ctx, "into_edwards", &|cs, m| {
                let (v, n) = ins!(cs, m, [u, v]);
                (n, pt_out(CMontgomeryPoint { x: v[0].clone(), y: v[1].clone() }.into_edwards()))
            }, Some(&[p.x, p.y]), 8, &no_directed)
        }
        13 => {
            let p = nonzero_point::<F>(ctx);
            let (u, v) = c.to_montgomery(&p).unwrap();
            if ctx.draw(2) == 0 {
                let (u2, v2) = c.to_montgomery(&c.add(&p, &p)).unwrap();
                note!("montgomery double", "subgroup", true);
                return check_gadget(ctx, "montgomery double", &|cs, m| {
                    let (v, n) = ins!(cs, m, [u, v]);
                    (n, mt_out(CMontgomeryPoint { x: v[0].clone(), y: v[1].clone() }.double(j)))
                }, Some(&[u2, v2]), 6, &no_directed);
            }
            // operands: distinct up to sign, sum nonzero; a torsion part now and then
            let q = if ctx.draw(2) == 0 { nonzero_point::<F>(ctx) } else { c.add(&nonzero_point::<F>(ctx), &F::torsion()[3]) };
            if q.y == p.y || c.add(&p, &q) == c.zero() || q == c.zero() {
                return Ok(());
            }
            let (uq, vq) = c.to_montgomery(&q).unwrap();
            let (us, vs) = c.to_montgomery(&c.add(&p, &q)).unwrap();
            note!("montgomery add", "subgroup", true);
            check_gadget(ctx, "montgomery add", &|cs, m| {
                let (v, n) = ins!(cs, m, [u, v, uq, vq]);
                let a = CMontgomeryPoint { x: v[0].clone(), y: v[1].clone() };
                let b = CMontgomeryPoint { x: v[2].clone(), y: v[3].clone() };
                (n, mt_out(a.add(&b, j)))
            }, Some(&[us, vs]), 6, &no_directed)
        }
        14 | 15 => {
            let mut p = sub_point::<F>(ctx);
            if ctx.draw(6) == 0 {
                p = c.zero();
            }
            let full = <<F::J as fawkes_crypto::native::ecc::JubJubParams>::Fs as PrimeField>::NUM_BITS as usize;
            let n = match ctx.draw(12) {
                0 => full,
                1 => F::NUM_BITS as usize,
                _ => 1 + ctx.below(18),
            };
            let mut bits: Vec<bool> = big_bits(&scalar(ctx, &(BigUint::one() << n)), n);
            match ctx.draw(5) {
                0 => bits.iter_mut().for_each(|b| *b = false),
                1 => bits.iter_mut().for_each(|b| *b = true),
                2 if n >= full => bits = big_bits(&c.order, n),
                _ => {}
            }
            let mut k = BigUint::zero();
            for (i, b) in bits.iter().enumerate() {
                if *b {
                    k += BigUint::one() << i;
                }
            }
            let w = c.mul(&p, &k);
            native(ctx, "mul", &[w.x, w.y], || xy(ed(&p).mul(Num(from_big(&(&k % &c.order))), j)))?;
            let base_const = konst[0];
            let bit_const = ctx.draw(4);
            let bk: Vec<bool> = (0..n).map(|i| bit_const == 3 || (bit_const == 2 && i % 3 == 1)).collect();
            note!("mul", format!("zero={} n={} bc={}", p == c.zero(), n, bit_const), true);
            check_gadget(ctx, "mul", &|cs, m| {
                let x = as_in(cs, &p.x, base_const, m);
                let y = as_in(cs, &p.y, base_const, m);
                let b: Vec<CBool<RecCS<F>>> = bits.iter().zip(&bk).map(|(b, k)| CBool(as_in(cs, &b2f(*b), *k, m))).collect();
                (cs.n_vars(), pt_out(CEdwardsPoint { x, y }.mul(&b, j)))
            }, Some(&[w.x, w.y]), 4, &no_directed)
        }
        16 => {
            let t = value::<F>(ctx);
            if t == neg(&F::one()) {
                return Ok(());
            }
            let w = c.from_scalar(&t);
            note!("from_scalar", "", true);
            native(ctx, "from_scalar", &[w.x, w.y], || xy(EdwardsPoint::from_scalar(Num(t), j)))?;
            check_gadget(ctx, "from_scalar", &|cs, m| {
                let (v, n) = ins!(cs, m, [t]);
                (n, pt_out(CEdwardsPoint::from_scalar(&v[0], j)))
            }, Some(&[w.x, w.y]), 6, &|sys, outs, want| {
                // the negative root
                for h in &sys.hints {
                    let x = sys.honest[*h];
                    if x.is_zero() || x == F::one() {
                        continue;
                    }
                    for _ in 0..2 {
                        let v = if ctx.draw(3) != 0 { neg(&x) } else { mul(&random::<F>(&mut ctx.prng()), &small(2)) };
                        if let Some(f) = sys.attack_with(ctx, &[(*h, v)], outs, want, "another root") {
                            return Some(f);
                        }
                    }
                }
                None
            })
        }
        _ => {
            let (p, _) = any_point::<F>(ctx);
            let q = if ctx.draw(3) == 0 { p } else { any_point::<F>(ctx).0 };
            let bit = ctx.draw(2) == 1;
            let eq = p == q;
            let s = if bit { p } else { q };
            note!("point signal", "", true);
            check_gadget(ctx, "point signal", &|cs, m| {
                let (v, _) = ins!(cs, m, [p.x, p.y, q.x, q.y]);
                let b = CBool(as_in(cs, &b2f(bit), konst[4], m));
                let n = cs.n_vars();
                let a = CEdwardsPoint { x: v[0].clone(), y: v[1].clone() };
                let c = CEdwardsPoint { x: v[2].clone(), y: v[3].clone() };
                let mut o = pt_out(a.switch(&b, &c));
                o.push(a.is_eq(&c).0);
                let at = cs.r.borrow().public.len();
                a.inputize();
                let pubs: Vec<usize> = cs.r.borrow().public[at..].to_vec();
                for k in 0..pubs.len() {
                    let val = cs.r.borrow().vals[pubs[k]].map(fawkes_crypto::native::num::Num);
                    o.push(CNum::from_var(cs, val, fawkes_crypto::circuit::num::Index::Input(at + k + 1)));
                }
                (n, o)
            }, Some(&[s.x, s.y, b2f(eq), p.x, p.y]), 8, &no_directed)
        }
    }
}

/// The subgroup point that 8 takes to `p`.
pub fn eighth<F: JJ>(c: &Curve<F>, p: &Pt<F>) -> Pt<F> {
    let e = BigUint::from(8u32).modpow(&(&c.order - 2u32), &c.order);
    c.mul(p, &e)
}

pub fn preimage_attack<F: JJ>(ctx: &Ctx, sys: &System<F>, outs: &[Lc<F>], want: Option<&[F]>, fakes: &[(String, Pt<F>)]) -> Option<Found<F>> {
    for (hx, hy) in point_hints(sys, F::curve()).into_iter().take(2) {
        for (what, w) in fakes {
            if let Some(f) = sys.attack_with(ctx, &[(hx, w.x), (hy, w.y)], outs, want, what) {
                return Some(f);
            }
        }
    }
    None
}
