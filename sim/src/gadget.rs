//! Checks one gadget: honest prover, setup without witness, Byzantine prover.
use crate::core::*;
use crate::gen::*;
use crate::prog::{Home, Mode};
use crate::rec::*;
use crate::refmodel::*;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::ecc::JubJubParams;
use fawkes_crypto::native::num::Num;
use std::sync::OnceLock;

pub trait JJ: Home {
    type J: JubJubParams<Fr = Self> + 'static;
    const NAME: &'static str;
    fn jj() -> &'static Self::J;
    fn curve() -> &'static Curve<Self>;
    /// Points of order 2, 4 and 8.
    fn torsion() -> &'static [Pt<Self>];
}

impl JJ for pairing::bn256::Fr {
    type J = fawkes_crypto::native::bn256::JubJubBN256;
    const NAME: &'static str = "bn256";
    fn jj() -> &'static Self::J {
        static P: OnceLock<fawkes_crypto::native::bn256::JubJubBN256> = OnceLock::new();
        P.get_or_init(fawkes_crypto::native::bn256::JubJubBN256::new)
    }
    fn curve() -> &'static Curve<Self> {
        curve_bn()
    }
    fn torsion() -> &'static [Pt<Self>] {
        static P: OnceLock<Vec<Pt<pairing::bn256::Fr>>> = OnceLock::new();
        P.get_or_init(|| all_torsion(curve_bn()))
    }
}
impl JJ for pairing::bls12_381::Fr {
    type J = fawkes_crypto::native::bls12_381::JubJubBLS12_381;
    const NAME: &'static str = "bls12_381";
    fn jj() -> &'static Self::J {
        static P: OnceLock<fawkes_crypto::native::bls12_381::JubJubBLS12_381> = OnceLock::new();
        P.get_or_init(fawkes_crypto::native::bls12_381::JubJubBLS12_381::new)
    }
    fn curve() -> &'static Curve<Self> {
        curve_bls()
    }
    fn torsion() -> &'static [Pt<Self>] {
        static P: OnceLock<Vec<Pt<pairing::bls12_381::Fr>>> = OnceLock::new();
        P.get_or_init(|| all_torsion(curve_bls()))
    }
}

fn all_torsion<F: Field>(c: &Curve<F>) -> Vec<Pt<F>> {
    let mut rng = Prng::new(0x70);
    let t = c.torsion(&mut rng, 8);
    (1u32..8).map(|k| c.mul(&t, &num::BigUint::from(k))).collect()
}

pub fn as_in<'a, F: Home>(cs: &'a RecCS<F>, v: &F, konst: bool, mode: Mode) -> CNum<'a, RecCS<F>> {
    let n = Num(*v);
    if konst {
        CNum::from_const(cs, &n)
    } else {
        CNum::alloc(cs, if mode == Mode::Prove { Some(&n) } else { None })
    }
}

pub type Build<'b, F> = &'b dyn for<'a> Fn(&'a RecCS<F>, Mode) -> (usize, Vec<CNum<'a, RecCS<F>>>);
pub type Directed<'b, F> = &'b dyn Fn(&System<F>, &[Lc<F>], Option<&[F]>) -> Option<Found<F>>;

/// `want`: the outputs, or `None` where no witness may satisfy the gadget.
/// `build` returns the number of pinned variables (with the constant one) and
/// the outputs.
pub fn check_gadget<F: Home>(ctx: &Ctx, name: &str, build: Build<F>, want: Option<&[F]>, tries: usize, directed: Directed<F>) -> Outcome {
    let cs = RecCS::<F>::new();
    let r = guarded(|| build(&cs, Mode::Prove));
    ctx.op();
    ctx.checked();
    let (pinned, out) = match r {
        Ok(x) => x,
        Err(m) => {
            ensure!(want.is_none(), "honest-panic", "{}: an honest run panicked: {}", name, m);
            ctx.probe("refused_at_synthesis");
            return Ok(());
        }
    };
    let rec = cs.r.borrow().clone();
    ensure!(rec.vals.iter().all(|v| v.is_some()), "honest-missing", "{}: a variable has no value although every input has one", name);
    let vals: Vec<F> = rec.vals.iter().map(|v| v.unwrap()).collect();
    let outs: Vec<Lc<F>> = out.iter().map(|c| cs.lc(c)).collect();
    match want {
        None => ensure!(broken(&rec.cons, &vals).is_some(), "assert-ignored", "{}: the statement is false and the constraints hold", name),
        Some(w) => {
            if let Some(k) = broken(&rec.cons, &vals) {
                violated!("honest-unsatisfied", "{}: constraint {} of {} does not hold for an honest witness", name, k, rec.cons.len());
            }
            ensure!(out.len() == w.len(), "output-count", "{} returned {} numbers", name, out.len());
            for (i, (c, v)) in out.iter().zip(w).enumerate() {
                ensure!(c.get_value().map(|x| x.0) == Some(*v), "wrong-value", "{}: output {} is {} and the native operation gives {}", name, i, c.get_value().map(|x| show(&x.0)).unwrap_or_default(), show(v));
                ensure!(eval(&outs[i], &vals) == *v, "wrong-signal", "{}: output {} has value {} and its signal says {}", name, i, show(v), show(&eval(&outs[i], &vals)));
            }
            let cs2 = RecCS::<F>::new();
            ctx.checked();
            match guarded(|| {
                let (_, o) = build(&cs2, Mode::Setup);
                o.iter().map(|c| cs2.lc(c)).collect::<Vec<_>>()
            }) {
                Err(m) => violated!("setup-panic", "{}: setup without a witness panicked: {}", name, m),
                Ok(o) => {
                    let r2 = cs2.r.borrow();
                    ensure!(r2.cons == rec.cons && r2.vals.len() == rec.vals.len() && r2.public == rec.public && o == outs, "layout-differs", "{}: setup without a witness lays out another constraint system than proving", name);
                }
            }
        }
    }
    let pins: Vec<usize> = (1..pinned).collect();
    let sys = System::new(&rec, &pins);
    let witness = vals.iter().fold(0u64, |h, v| mix(h ^ v.into_repr().as_ref()[0]));
    ctx.event(format!("{}: {} witness {:016x}", name, sys.shape(), witness));
    let mut f = directed(&sys, &outs, want);
    if f.is_none() {
        let tries = if sys.terms > 60_000 { 1 } else if sys.terms > 6000 { tries.min(3) } else { tries };
        f = sys.attack(ctx, &outs, want, tries);
    }
    ctx.checked();
    if let Some(f) = f {
        match want {
            None => violated!("assert-forged", "{}: the statement is false and a prover satisfied the constraints: {}", name, f.trail.join("; ")),
            Some(w) => {
                let k = f.outputs.iter().zip(w).position(|(a, b)| a != b).unwrap();
                violated!("forged", "{}: a prover satisfied all constraints with output {} = {} where the honest value is {}: {}", name, k, show(&f.outputs[k]), show(&w[k]), f.trail.join("; "))
            }
        }
    }
    Ok(())
}

/// Points, on the curve or off it, that the doubling gadget takes to (X, Y).
pub fn undouble<F: Field>(c: &Curve<F>, p: &Pt<F>) -> Vec<Pt<F>> {
    let one = F::one();
    let two = small::<F>(2);
    let vs = if p.x.is_zero() { vec![F::zero()] } else { quad_roots(&mul(&c.d, &p.x), &neg(&two), &p.x) };
    let mut out = vec![];
    for v in vs {
        let s = mul(&p.y, &sub(&one, &mul(&c.d, &sq(&v))));
        let v2 = mul(&two, &v);
        if let (Some(a), Some(b)) = (fsqrt(&add(&s, &v2)), fsqrt(&sub(&s, &v2))) {
            let half = inv(&two);
            for (a, b) in [(a, b), (neg(&a), b), (a, neg(&b)), (neg(&a), neg(&b))] {
                let q = Pt { x: mul(&add(&a, &b), &half), y: mul(&sub(&a, &b), &half) };
                if mul(&q.x, &q.y) == v {
                    out.push(q);
                }
            }
        }
    }
    out
}

/// Pairs of consecutive hints that hold a point of the curve.
pub fn point_hints<F: Field>(sys: &System<F>, c: &Curve<F>) -> Vec<(usize, usize)> {
    let mut h = sys.hints.clone();
    h.sort_unstable();
    let pairs: Vec<(usize, usize)> = h.windows(2).filter(|w| w[1] == w[0] + 1).map(|w| (w[0], w[1])).collect();
    let on: Vec<(usize, usize)> = pairs
        .iter()
        .copied()
        .filter(|(a, b)| {
            let p = Pt { x: sys.honest[*a], y: sys.honest[*b] };
            c.on_curve(&p) && !p.x.is_zero()
        })
        .collect();
    if on.is_empty() {
        pairs
    } else {
        on
    }
}

/// Preimages a cheating prover may offer for a point with x-coordinate `x`
/// (and y if given) that is claimed to be 8 times something.
pub fn fake_preimages<F: JJ>(ctx: &Ctx, x: &F, y: Option<&F>) -> Vec<(String, Pt<F>)> {
    let c = F::curve();
    let mut out: Vec<(String, Pt<F>)> = vec![];
    let mut level: Vec<Pt<F>> = match y {
        Some(y) => vec![Pt { x: *x, y: *y }],
        None => c.with_x(x),
    };
    for j in 0..4 {
        for p in &level {
            out.push((format!("{} halvings", j), *p));
        }
        if j == 3 {
            break;
        }
        level = level.iter().flat_map(|p| undouble(c, p)).take(24).collect();
    }
    // off the curve: the claimed y is free when only x is given
    let mut rng = ctx.prng();
    for _ in 0..6 {
        let y = match y {
            Some(y) => *y,
            None => random(&mut rng),
        };
        let mut level = vec![Pt { x: *x, y }];
        for j in 0..3 {
            level = level.iter().flat_map(|p| undouble(c, p)).take(4).collect();
            for p in level.iter().take(2) {
                out.push((format!("off-curve root at depth {}", j + 1), *p));
            }
        }
        if out.len() > 40 {
            break;
        }
    }
    out.push(("random curve point".into(), c.random_point(&mut rng)));
    out.push(("torsion".into(), F::torsion()[(rng.next() % 7) as usize]));
    out.push(("origin".into(), Pt { x: F::zero(), y: F::zero() }));
    out.push(("identity".into(), c.zero()));
    out
}
