//! The generated contract on a simulated chain: honest and hostile callers,
//! failing and absent precompiled contracts, limited gas.
use crate::core::*;
use crate::engines::*;
use crate::gen::*;
use crate::runner::World;
use crate::sol::*;
use bellman::groth16::Proof as BProof;
use fawkes_crypto::helpers::groth16::ethereum::generate_sol_data;
use fawkes_crypto::helpers::groth16::prover::Proof;
use fawkes_crypto::helpers::groth16::verifier::{verify, TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use ff::Field as _;
use num::bigint::BigUint;
use num::{One, ToPrimitive, Zero};
use pairing::bn256::{Bn256, Fq, Fr, G1Affine, G2Affine};
use pairing::{CurveAffine, CurveProjective};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub const WORLD: World = World {
    id: "C16",
    run,
    quick: 3_000,
    thorough: 300_000,
    rule: "a run generates the contract of one or two keys whose trapdoors are known, and executes it on a history of transactions from honest and hostile callers, with failing, absent or costly precompiled contracts and limited gas; non-trivial: at least one transaction judged; distinct by hash of the history",
    state_measure: "(inputs, kind of tampering, chain fault, verdict) tuples",
    real: &["generate_sol_data, into_data, verify", "the text of the generated contract"],
    stub: &["the Solidity compiler and the virtual machine (an interpreter of the contract's text with byte-addressed memory, gas and the 63/64 rule)", "the precompiled contracts 6, 7 and 8 (over pairing_ce)", "the callers"],
    assumptions: &["the interpreter follows Solidity 0.6 for the constructs the text uses", "pairing_ce's group law and pairing are right"],
};

type U = BigUint;

fn g1(k: &Fr) -> G1Affine {
    G1Affine::one().mul(ff::PrimeField::into_repr(k)).into_affine()
}
fn g2(k: &Fr) -> G2Affine {
    G2Affine::one().mul(ff::PrimeField::into_repr(k)).into_affine()
}
fn be(u: &U) -> Option<[u8; 32]> {
    let b = u.to_bytes_be();
    if b.len() > 32 {
        return None;
    }
    let mut o = [0; 32];
    o[32 - b.len()..].copy_from_slice(&b);
    Some(o)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    /// this call fails
    One(u64),
    /// every call from this one on fails
    From(u64),
    /// this precompiled contract always fails
    Addr(u64),
    /// no precompiled contracts at all: calls succeed and return nothing
    Absent,
}

#[derive(Clone)]
struct SimChain {
    fault: Fault,
    old: bool,
    calls: Rc<Cell<u64>>,
    hit: Rc<Cell<u64>>,
    starved: Rc<Cell<bool>>,
    trace: Rc<RefCell<Vec<u64>>>,
}

impl Chain for SimChain {
    fn call(&mut self, addr: &U, input: &[u8], gas: u64) -> Option<(Vec<u8>, u64)> {
        let k = self.calls.get();
        self.calls.set(k + 1);
        let a = addr.to_u64().unwrap_or(0);
        self.trace.borrow_mut().push(a);
        let fail = match self.fault {
            Fault::One(i) => i == k,
            Fault::From(i) => k >= i,
            Fault::Addr(x) => x == a,
            _ => false,
        };
        if fail {
            self.hit.set(self.hit.get() + 1);
            return None;
        }
        if self.fault == Fault::Absent {
            self.hit.set(self.hit.get() + 1);
            return Some((vec![], 0));
        }
        let pairs = input.len() as u64 / 192;
        let cost = match (a, self.old) {
            (6, false) => 150,
            (7, false) => 6_000,
            (8, false) => 45_000 + 34_000 * pairs,
            (6, true) => 500,
            (7, true) => 40_000,
            (8, true) => 100_000 + 80_000 * pairs,
            // an account without code
            _ => return Some((vec![], 0)),
        };
        if gas < cost {
            self.starved.set(true);
            return None;
        }
        precompile(a, input).map(|o| (o, cost))
    }
}

struct Key {
    alpha: Fr,
    beta: Fr,
    gamma: Fr,
    delta: Fr,
    ic: Vec<Fr>,
    t: TruncatedVerifyingKey<Bn256>,
    src: Source,
}

fn refused<T>(h: Halt, text: &str) -> Result<T, Violation> {
    match h {
        Halt::NoCompile(w) => Err(Violation::new("no-contract", format!("the generated source does not compile: {}", w))),
        Halt::Unsupported(w) => panic!("HARNESS: the contract uses {} ({} bytes)", w, text.len()),
        h => Err(Violation::new("no-contract", format!("{:?}", h))),
    }
}

fn run(ctx: &Ctx) -> Outcome {
    let q = modulus::<Fq>();
    let r = modulus::<Fr>();
    let n_keys = ctx.range(1, 2);
    let wide = ctx.chance(1, 40);
    let degenerate = ctx.chance(1, 6);
    let mut keys: Vec<Key> = vec![];
    for _ in 0..n_keys {
        let n = if wide { ctx.range(250, 262) } else if ctx.chance(1, 10) { ctx.range(7, 30) } else { ctx.below(7) };
        let (alpha, beta, gamma, delta) = (nonzero::<Fr>(ctx), nonzero::<Fr>(ctx), nonzero::<Fr>(ctx), nonzero::<Fr>(ctx));
        let ic: Vec<Fr> = if n > 6 {
            let mut p = ctx.prng();
            (0..n + 1).map(|_| random(&mut p)).collect()
        } else {
            (0..n + 1).map(|_| if degenerate && ctx.chance(1, 3) { Fr::zero() } else { nonzero(ctx) }).collect()
        };
        let t: TruncatedVerifyingKey<Bn256> = TruncatedVerifyingKey { alpha_g1: g1(&alpha), beta_g2: g2(&beta), gamma_g2: g2(&gamma), delta_g2: g2(&delta), ic: ic.iter().map(g1).collect() };
        let mut data = t.into_data();
        if ctx.draw(4) == 0 {
            // the key came over the wire
            let s = serde_json::to_string(&data).map_err(|e| Violation::new("no-contract", e.to_string()))?;
            data = serde_json::from_str::<TruncatedVerifyingKeyData<Fq>>(&s).map_err(|e| Violation::new("no-contract", e.to_string()))?;
        }
        let text = guarded(|| generate_sol_data(&data)).map_err(|p| Violation::new("no-contract", p))?;
        let src = match parse(&text) {
            Ok(s) => s,
            Err(h) => return refused(h, &text),
        };
        ctx.event(format!("contract of {} bytes for a key of {} inputs", text.len(), n));
        keys.push(Key { alpha, beta, gamma, delta, ic, t, src });
    }
    let mut sig = String::new();
    let rounds = if wide { 2 } else { ctx.range(2, 5) };
    let mut seen: Vec<(Vec<U>, Vec<U>)> = vec![];
    for _ in 0..rounds {
        let ki = ctx.below(keys.len());
        let k = &keys[ki];
        let n = k.ic.len() - 1;
        let (mut p, mut x): (Vec<U>, Vec<U>);
        if !seen.is_empty() && ctx.draw(4) == 0 {
            ctx.fault("caller:replay");
            let s = seen[ctx.below(seen.len())].clone();
            p = s.0;
            x = s.1;
            x.resize(n, U::zero());
        } else {
            let mut xs: Vec<Fr> = if n > 6 {
                let mut p = ctx.prng();
                (0..n).map(|_| random(&mut p)).collect()
            } else {
                (0..n).map(|_| value(ctx)).collect()
            };
            let dot = |xs: &[Fr]| {
                let mut acc = k.ic[0];
                for (u, v) in k.ic[1..].iter().zip(xs) {
                    acc.add_assign(&mul(u, v));
                }
                acc
            };
            let mut acc = dot(&xs);
            if n > 0 && !k.ic[n].is_zero() && ctx.chance(1, 8) {
                // the inputs' sum is the identity
                let rest = sub(&acc, &mul(&k.ic[n], &xs[n - 1]));
                xs[n - 1] = neg(&div(&rest, &k.ic[n]));
                acc = Fr::zero();
                ctx.fault("caller:identity_sum");
            }
            let (a, b) = match ctx.chance(1, 8) {
                false => (nonzero::<Fr>(ctx), nonzero::<Fr>(ctx)),
                true => (Fr::zero(), nonzero(ctx)),
            };
            let c = div(&sub(&sub(&mul(&a, &b), &mul(&k.alpha, &k.beta)), &mul(&acc, &k.gamma)), &k.delta);
            let (pa, pb, pc) = (g1(&a), g2(&b), g1(&c));
            p = vec![];
            p.extend(g1_words(&pa).iter().map(|w| U::from_bytes_be(w)));
            p.extend(g2_words(&pb).iter().map(|w| U::from_bytes_be(w)));
            p.extend(g1_words(&pc).iter().map(|w| U::from_bytes_be(w)));
            x = xs.iter().map(to_big).collect();
        }
        if seen.len() < 5 {
            seen.push((p.clone(), x.clone()));
        }
        let mut what: Vec<&str> = vec![];
        let n_t = *ctx.pick(&[0, 1, 1, 2]);
        for _ in 0..n_t {
            let kind = match ctx.draw(20) {
                0 if n > 0 => {
                    // an alias of the same input
                    let i = ctx.below(n);
                    x[i] += &r;
                    "alias_input"
                }
                1 if n > 0 => {
                    let i = n - 1;
                    x[i] += &r;
                    "alias_last_input"
                }
                2 => {
                    let i = ctx.below(8);
                    p[i] += &q;
                    "alias_coordinate"
                }
                3 => {
                    p[7] += &q;
                    "alias_last_coordinate"
                }
                4 if n > 0 => {
                    let i = ctx.below(n);
                    x[i] = (&x[i] + U::one()) % &r;
                    "alter_input"
                }
                5 if n > 0 => {
                    let i = n - 1;
                    x[i] = to_big(&value::<Fr>(ctx));
                    "alter_last_input"
                }
                6 if n > 1 => {
                    let (i, j) = (ctx.below(n), ctx.below(n));
                    x.swap(i, j);
                    "swap_inputs"
                }
                7 => {
                    let (i, j) = *ctx.pick(&[(2, 3), (4, 5), (0, 1), (6, 7), (0, 6)]);
                    p.swap(i, j);
                    "swap_coordinates"
                }
                8 => {
                    // -A
                    if !p[1].is_zero() && p[1] < q {
                        p[1] = &q - &p[1];
                    }
                    "negate_a"
                }
                9 => {
                    // -A and -B: still true
                    if p[1..6].iter().all(|v| *v < q) {
                        for i in [1, 4, 5].iter() {
                            p[*i] = (&q - &p[*i]) % &q;
                        }
                    }
                    "negate_a_and_b"
                }
                10 => {
                    let (lo, hi) = *ctx.pick(&[(0, 2), (2, 6), (6, 8)]);
                    for v in p[lo..hi].iter_mut() {
                        *v = U::zero();
                    }
                    "identity"
                }
                11 => {
                    let i = ctx.below(8);
                    p[i] = to_big(&value::<Fq>(ctx));
                    "off_curve"
                }
                12 => {
                    // on the curve, outside the group
                    let w: G2Affine = wild(&mut ctx.prng());
                    let w = g2_words(&w);
                    for i in 0..4 {
                        p[2 + i] = U::from_bytes_be(&w[i]);
                    }
                    "wrong_group"
                }
                13 => {
                    // the same A and B multiplied through
                    let s: Fr = nonzero(ctx);
                    if let (Some(a), Some(b)) = (point1(&p[0..2]), point2(&p[2..6])) {
                        let a = a.mul(ff::PrimeField::into_repr(&s)).into_affine();
                        let b = b.mul(ff::PrimeField::into_repr(&inv(&s))).into_affine();
                        let (wa, wb) = (g1_words(&a), g2_words(&b));
                        for i in 0..2 {
                            p[i] = U::from_bytes_be(&wa[i]);
                        }
                        for i in 0..4 {
                            p[2 + i] = U::from_bytes_be(&wb[i]);
                        }
                    }
                    "rescale"
                }
                14 => {
                    let i = ctx.below(8 + n);
                    let v = *ctx.pick(&[0, 1, 2, 3]);
                    let v = match v {
                        0 => (U::one() << 256) - U::one(),
                        1 => q.clone(),
                        2 => r.clone(),
                        _ => U::one() << 255,
                    };
                    if i < 8 {
                        p[i] = v;
                    } else {
                        x[i - 8] = v;
                    }
                    "edge_word"
                }
                15 if n > 0 => {
                    // fold an input into C
                    let i = ctx.below(n);
                    if let (Some(c), true) = (point1(&p[6..8]), x[i] < r) {
                        let s = div(&mul(&mul(&k.ic[i + 1], &from_big(&x[i])), &k.gamma), &k.delta);
                        let c = add_pt(&c, &g1(&s));
                        let w = g1_words(&c);
                        for j in 0..2 {
                            p[6 + j] = U::from_bytes_be(&w[j]);
                        }
                        x[i] = U::zero();
                    }
                    "fold_input"
                }
                16 => {
                    // the proof that needs no witness when the rest vanishes
                    let (wa, wb) = (g1_words(&g1(&k.alpha)), g2_words(&g2(&k.beta)));
                    for i in 0..2 {
                        p[i] = U::from_bytes_be(&wa[i]);
                        p[6 + i] = U::zero();
                    }
                    for i in 0..4 {
                        p[2 + i] = U::from_bytes_be(&wb[i]);
                    }
                    "alpha_beta"
                }
                17 if n > 0 => {
                    for v in x.iter_mut() {
                        *v = U::zero();
                    }
                    "zero_inputs"
                }
                18 if n > 0 => {
                    // r - x
                    let i = ctx.below(n);
                    if x[i] < r {
                        x[i] = (&r - &x[i]) % &r;
                    }
                    "negate_input"
                }
                _ => {
                    let i = ctx.below(8);
                    p[i] = (&p[i] + U::one()) % &q;
                    "nudge_coordinate"
                }
            };
            what.push(kind);
            ctx.fault(&format!("caller:{}", kind));
        }
        for w in p.iter_mut().chain(x.iter_mut()) {
            if w.bits() > 256 {
                *w = &*w - (U::one() << 256);
            }
        }
        // the chain
        let old = ctx.draw(4) == 0;
        let total = 2 + 2 * n as u64;
        let fault = match ctx.draw(12) {
            7 => Fault::One(ctx.draw(total)),
            8 => Fault::From(ctx.draw(total)),
            9 => Fault::Addr(6 + ctx.draw(3)),
            10 => Fault::Absent,
            _ => Fault::None,
        };
        let each = if old { 41_500 } else { 7_500 };
        let enough = 30_000 + if old { 420_000 } else { 181_000 } + each * n as u64;
        let limited = ctx.draw(6) == 5;
        let gas = if limited { ctx.draw(enough) } else { 1_000_000_000 };
        if limited {
            ctx.fault("chain:little_gas");
        }
        if fault != Fault::None {
            ctx.fault(match fault {
                Fault::One(_) => "chain:call_fails",
                Fault::From(_) => "chain:calls_fail_from",
                Fault::Addr(_) => "chain:precompile_fails",
                _ => "chain:no_precompiles",
            });
        }
        // sent to the contract of this or another key
        let vi = if ctx.draw(5) == 0 { ctx.below(keys.len()) } else { ki };
        let v = &keys[vi];
        if vi != ki {
            ctx.fault("caller:other_contract");
        }
        let vn = v.ic.len() - 1;
        if vi != ki {
            x.resize(vn, U::zero());
        }
        // what the library says of the same message
        let want = {
            let pts = (point1(&p[0..2]), point2(&p[2..6]), point1(&p[6..8]));
            match pts {
                (Some(a), Some(b), Some(c)) if x.iter().all(|w| *w < r) => {
                    let xs: Vec<Fr> = x.iter().map(from_big).collect();
                    matches!(guarded(|| verify(&v.t, &Proof(BProof::<Bn256> { a, b, c }), &xs)), Ok(Ok(true)))
                }
                _ => false,
            }
        };
        let chain = SimChain { fault, old, calls: Rc::new(Cell::new(0)), hit: Rc::new(Cell::new(0)), starved: Default::default(), trace: Default::default() };
        let hit = chain.hit.clone();
        let starved = chain.starved.clone();
        let calls = chain.calls.clone();
        let mut m = Machine::new(&v.src, chain, gas);
        let sg = match m.signature("Verifier", "verifyProof") {
            Ok(s) => s,
            Err(h) => return refused(h, ""),
        };
        // a caller encodes eight words and one per input; the selector of
        // a function of other lengths would not match
        let mut given = x.clone();
        let mut args = vec![p.clone(), given.clone()];
        let fits = match sg.as_slice() {
            [Some(8), Some(k)] => *k == vn,
            [Some(8), None] => {
                if ctx.draw(4) == 3 {
                    ctx.fault("caller:count");
                    if ctx.draw(2) == 0 || vn == 0 {
                        given.push(if ctx.draw(2) == 0 { U::zero() } else { U::one() });
                    } else {
                        given.pop();
                    }
                    args[1] = given.clone();
                }
                true
            }
            [Some(8)] if vn == 0 => {
                args.pop();
                true
            }
            _ => false,
        };
        ensure!(fits, "no-contract", "the contract of a key of {} inputs takes arrays of {:?}", vn, sg);
        let want = want && given.len() == vn;
        let got = m.transact("Verifier", "verifyProof", &args);
        ctx.op();
        ctx.checked();
        let yes = match got {
            Ok(ref w) if w.len() == 1 => !w[0].is_zero(),
            Ok(ref w) => return Err(Violation::new("no-contract", format!("{} results", w.len()))),
            Err(Halt::Revert(_)) | Err(Halt::OutOfGas) => false,
            Err(h) => return refused(h, ""),
        };
        let calm = hit.get() == 0 && !limited;
        if starved.get() {
            ctx.probe("precompile_out_of_gas");
            ensure!(!yes, "accepted-failed", "the contract accepts though a call ran out of gas");
        }
        if hit.get() > 0 {
            ctx.probe("chain_fault_hit");
        }
        let desc = format!("{:?} to contract {} of {} inputs, {:?}, gas {}", what, vi, vn, fault, if limited { gas.to_string() } else { "ample".into() });
        ctx.event(format!("{} -> {:?} after {} calls, library {}", desc, got, calls.get(), want));
        sig += &format!("|{} {:?} {:?} {} {}", vn, what, std::mem::discriminant(&fault), limited, yes);
        ensure!(want || !yes, "accepted-false", "the contract accepts what the library refuses: {}", desc);
        ensure!(!calm || !want || yes, "refused-true", "the contract refuses ({:?}) what the library accepts: {}", got, desc);
        if hit.get() > 0 && fault != Fault::None {
            ensure!(!yes, "accepted-failed", "the contract accepts though {:?} hit {} calls: {}", fault, hit.get(), desc);
        }
        match (want, yes) {
            (true, true) => ctx.probe("accepted"),
            (true, false) => ctx.probe("refused_under_fault"),
            _ => ctx.probe("refused"),
        }
        ctx.state(hash_str(&format!("{} {:?} {:?} {} {}", vn.min(8), what, std::mem::discriminant(&fault), limited, yes)));
    }
    let _ = sig;
    Ok(())
}

fn point1(w: &[U]) -> Option<G1Affine> {
    g1_of(&be(&w[0])?, &be(&w[1])?)
}
fn point2(w: &[U]) -> Option<G2Affine> {
    g2_of(&[be(&w[0])?, be(&w[1])?, be(&w[2])?, be(&w[3])?])
}
