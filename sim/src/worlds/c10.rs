//! A verifier that listens to Byzantine provers and relays.
use crate::cli::bell_verify;
use crate::core::*;
use crate::engines::*;
use crate::gen::*;
use crate::prog::*;
use crate::rec::*;
use crate::runner::World;
use crate::wire::*;
use crate::zk::*;
use bellman::groth16::Proof as BProof;
use fawkes_crypto::helpers::groth16::prover::Proof;
use fawkes_crypto::helpers::groth16::verifier::{truncate_verifying_key, verify, TruncatedVerifyingKey};
use ff::Field as _;
use pairing::{CurveAffine, CurveProjective};
use std::rc::Rc;

pub const WORLD: World = World {
    id: "C10",
    run,
    quick: 4_000,
    thorough: 1_500_000,
    rule: "a run gives a verifier a history of messages from a Byzantine relay: in nine runs of ten the relay holds the trapdoors of several keys and forges, malleates, mixes and mis-sizes proofs and inputs whose truth is known from the exponents; otherwise real keys, Byzantine provers that commit to altered assignments, and corrupted encodings; non-trivial: at least one message checked; distinct by hash of the history",
    state_measure: "(engine, key size, kind of tampering sequence, verdicts) tuples",
    real: &["verify, truncate_verifying_key, the codecs; in the second family also key generation, proving and the gadgets"],
    stub: &["the prover and the relay (Byzantine)", "the entropy source", "the network (the relay decides delivery)"],
    assumptions: &["the pairing library's group law and pairing are right", "with known trapdoors a proof is judged by the equation between exponents; otherwise by the backend's own verifier"],
};

fn run(ctx: &Ctx) -> Outcome {
    let real = ctx.chance(1, 12);
    let bls = ctx.chance(1, 4);
    match (real, bls) {
        (false, false) => trap::<pairing::bn256::Bn256>(ctx),
        (false, true) => trap::<pairing::bls12_381::Bls12>(ctx),
        (true, false) => real_keys::<pairing::bn256::Bn256>(ctx),
        (true, true) => real_keys::<pairing::bls12_381::Bls12>(ctx),
    }
}

fn g1<E: Eng>(k: &E::Fr) -> E::G1Affine {
    E::G1Affine::one().mul(ff::PrimeField::into_repr(k)).into_affine()
}
fn g2<E: Eng>(k: &E::Fr) -> E::G2Affine {
    E::G2Affine::one().mul(ff::PrimeField::into_repr(k)).into_affine()
}

#[derive(Clone)]
struct Key<F> {
    alpha: F,
    beta: F,
    gamma: F,
    delta: F,
    ic: Vec<F>,
}

#[derive(Clone, Debug, PartialEq)]
struct Pf<F> {
    a: F,
    b: F,
    c: F,
}

fn holds<F: Home>(k: &Key<F>, p: &Pf<F>, x: &[F]) -> bool {
    if k.ic.len() != x.len() + 1 {
        return false;
    }
    let mut acc = k.ic[0];
    for (a, b) in k.ic[1..].iter().zip(x) {
        acc.add_assign(&mul(a, b));
    }
    let rhs = add(&add(&mul(&k.alpha, &k.beta), &mul(&acc, &k.gamma)), &mul(&p.c, &k.delta));
    mul(&p.a, &p.b) == rhs
}

fn trap<E: Eng>(ctx: &Ctx) -> Outcome
where
    E::Fr: Home,
{
    type FrOf<E> = <E as ff::ScalarEngine>::Fr;
    let n_keys = ctx.range(1, 2);
    let wide = ctx.chance(1, 10);
    // a degenerate element now and then: never sent over a stream
    let degenerate = ctx.chance(1, 8);
    let sc = |ctx: &Ctx| -> FrOf<E> {
        if degenerate && ctx.chance(1, 4) {
            FrOf::<E>::zero()
        } else {
            nonzero(ctx)
        }
    };
    let mut keys: Vec<(Key<FrOf<E>>, TruncatedVerifyingKey<E>)> = vec![];
    for _ in 0..n_keys {
        let n = if wide { ctx.range(5, 300) } else { ctx.below(6) };
        let mut k = Key { alpha: sc(ctx), beta: sc(ctx), gamma: sc(ctx), delta: nonzero(ctx), ic: vec![] };
        if let Some((o, _)) = keys.first() {
            // keys that share parts with another
            if ctx.draw(3) == 0 {
                k = o.clone();
                k.ic.clear();
                match ctx.draw(4) {
                    0 => k.alpha = nonzero(ctx),
                    1 => k.beta = nonzero(ctx),
                    2 => k.gamma = nonzero(ctx),
                    _ => k.delta = nonzero(ctx),
                }
            }
        }
        if wide {
            let mut p = ctx.prng();
            k.ic = (0..n + 1).map(|_| random(&mut p)).collect();
        } else {
            for i in 0..n + 1 {
                let v = if i > 1 && ctx.chance(1, 6) { k.ic[i - 1] } else { sc(ctx) };
                k.ic.push(v);
            }
        }
        let t = TruncatedVerifyingKey { alpha_g1: g1::<E>(&k.alpha), beta_g2: g2::<E>(&k.beta), gamma_g2: g2::<E>(&k.gamma), delta_g2: g2::<E>(&k.delta), ic: k.ic.iter().map(g1::<E>).collect() };
        keys.push((k, t));
    }
    ctx.event(format!("{} keys with {:?} inputs, degenerate {}", E::NAME, keys.iter().map(|k| k.0.ic.len() - 1).collect::<Vec<_>>(), degenerate));
    let mut sig = format!("{} {:?} {}", E::NAME, keys.iter().map(|k| k.0.ic.len() - 1).collect::<Vec<_>>(), degenerate);
    let mut seen: Vec<(Pf<FrOf<E>>, Vec<FrOf<E>>)> = vec![];
    let rounds = ctx.range(2, 6);
    for _ in 0..rounds {
        let ki = ctx.below(keys.len());
        let k = &keys[ki].0;
        let n = k.ic.len() - 1;
        // a true message, made with the trapdoor, or one heard before
        let (mut p, mut x) = if !seen.is_empty() && ctx.draw(3) == 0 {
            ctx.fault("relay:replay");
            seen[ctx.below(seen.len())].clone()
        } else {
            let mut x: Vec<FrOf<E>> = if n > 6 {
                let mut p = ctx.prng();
                (0..n).map(|_| random(&mut p)).collect()
            } else {
                (0..n).map(|_| value(ctx)).collect()
            };
            let (a, b): (FrOf<E>, FrOf<E>) = (sc(ctx), sc(ctx));
            let mut acc = k.ic[0];
            for (u, v) in k.ic[1..].iter().zip(&x) {
                acc.add_assign(&mul(u, v));
            }
            if degenerate && n > 0 && !k.ic[n].is_zero() && ctx.draw(3) == 0 {
                // make the sum of the inputs the identity
                let rest = sub(&acc, &mul(&k.ic[n], &x[n - 1]));
                x[n - 1] = neg(&div(&rest, &k.ic[n]));
                acc = FrOf::<E>::zero();
            }
            let c = div(&sub(&sub(&mul(&a, &b), &mul(&k.alpha, &k.beta)), &mul(&acc, &k.gamma)), &k.delta);
            (Pf { a, b, c }, x)
        };
        if seen.len() < 6 {
            seen.push((p.clone(), x.clone()));
        }
        let n_t = ctx.below(3);
        let mut what = vec![];
        for _ in 0..n_t {
            let s: FrOf<E> = nonzero(ctx);
            let t = ctx.draw(23);
            let kind = match t {
                0 => {
                    p.a = neg(&p.a);
                    "negate_a"
                }
                1 => {
                    p.a = neg(&p.a);
                    p.b = neg(&p.b);
                    "negate_a_and_b"
                }
                2 => {
                    p.a = mul(&p.a, &s);
                    p.b = mul(&p.b, &inv(&s));
                    "rescale"
                }
                3 => {
                    p.b = add(&p.b, &mul(&s, &k.delta));
                    p.c = add(&p.c, &mul(&s, &p.a));
                    "rerandomise"
                }
                4 => {
                    p.c = add(&p.c, &s);
                    "shift_c"
                }
                5 => {
                    p.a = add(&p.a, &s);
                    "shift_a"
                }
                6 => {
                    p.b = add(&p.b, &s);
                    "shift_b"
                }
                7 | 8 => {
                    let z = *ctx.pick(&[0, 1, 2]);
                    match z {
                        0 => p.a = FrOf::<E>::zero(),
                        1 => p.b = FrOf::<E>::zero(),
                        _ => p.c = FrOf::<E>::zero(),
                    }
                    "infinity"
                }
                9 if !seen.is_empty() => {
                    let o = seen[ctx.below(seen.len())].0.clone();
                    match ctx.draw(3) {
                        0 => p.a = o.a,
                        1 => p.b = o.b,
                        _ => p.c = o.c,
                    }
                    "splice"
                }
                10 if !x.is_empty() => {
                    let i = ctx.below(x.len());
                    x[i] = add(&x[i], &s);
                    "alter_input"
                }
                11 if !x.is_empty() => {
                    let i = x.len() - 1;
                    x[i] = value(ctx);
                    "alter_last_input"
                }
                12 if x.len() > 1 => {
                    let (i, j) = (ctx.below(x.len()), ctx.below(x.len()));
                    x.swap(i, j);
                    "swap_inputs"
                }
                13 if !x.is_empty() => {
                    x.pop();
                    "drop_input"
                }
                14 if !x.is_empty() => {
                    x.remove(0);
                    "drop_first_input"
                }
                15 => {
                    x.push(if ctx.draw(2) == 0 { FrOf::<E>::zero() } else { value(ctx) });
                    "extra_input"
                }
                16 => {
                    x.insert(0, FrOf::<E>::zero());
                    "extra_first_input"
                }
                17 => {
                    x.clear();
                    "no_inputs"
                }
                18 => {
                    // an input that also moves the missing ones into C
                    if let (Some(v), Some(u)) = (x.pop(), k.ic.last()) {
                        p.c = add(&p.c, &div(&mul(&mul(u, &v), &k.gamma), &k.delta));
                    }
                    "fold_input_into_c"
                }
                19 if x.len() > 1 && k.ic.len() == x.len() + 1 => {
                    // another vector with the same sum
                    let (i, j) = (ctx.below(x.len()), ctx.below(x.len()));
                    if i != j && !k.ic[j + 1].is_zero() {
                        x[i] = add(&x[i], &s);
                        x[j] = sub(&x[j], &div(&mul(&s, &k.ic[i + 1]), &k.ic[j + 1]));
                    }
                    "same_sum"
                }
                21 => {
                    // a number of inputs that is the right one in fewer bits
                    let m = match ctx.draw(24) {
                        0 => 65_536,
                        1 | 2 => 512,
                        3 => 65_536 - x.len().min(9),
                        _ => 256,
                    };
                    let v = if ctx.draw(2) == 0 { FrOf::<E>::zero() } else { s };
                    let l = x.len() + m;
                    if x.len() < 1000 {
                        x.resize(l, v);
                    }
                    "many_extra_inputs"
                }
                22 if x.len() >= 256 && k.ic.len() == x.len() + 1 => {
                    while x.len() > k.ic.len() - 257 {
                        let (v, u) = (x.pop().unwrap(), k.ic[x.len() + 1]);
                        p.c = add(&p.c, &div(&mul(&mul(&u, &v), &k.gamma), &k.delta));
                    }
                    "fold_many_into_c"
                }
                _ => {
                    // the alpha-beta proof: valid if the rest vanishes
                    p = Pf { a: k.alpha, b: k.beta, c: FrOf::<E>::zero() };
                    "alpha_beta"
                }
            };
            ctx.fault(&format!("relay:{}", kind));
            what.push(kind);
        }
        // delivered to a verifier that holds the same or another key
        let vi = if ctx.draw(4) == 0 { ctx.below(keys.len()) } else { ki };
        let (vk, vt) = &keys[vi];
        if vi != ki {
            ctx.fault("relay:other_key");
        }
        let want = holds(vk, &p, &x);
        let proof = Proof(BProof::<E> { a: g1::<E>(&p.a), b: g2::<E>(&p.b), c: g1::<E>(&p.c) });
        let got = guarded(|| verify(vt, &proof, &x));
        ctx.op();
        ctx.checked();
        let yes = matches!(got, Ok(Ok(true)));
        let desc = format!("{:?} under key {} of {} inputs, {} given", what, vi, vk.ic.len() - 1, x.len());
        ctx.event(format!("{} -> {}", desc, yes));
        sig += &format!("|{:?} {} {}", what, vi == ki, yes);
        ensure!(want || !yes, "accepted-false", "a message that does not satisfy the equation was accepted: {}", desc);
        ensure!(!want || yes, "refused-true", "a message that satisfies the equation was refused ({:?}): {}", got.map(|r| r.map_err(|e| e.to_string())), desc);
        if want {
            ctx.probe("valid_messages");
        } else {
            ctx.probe("false_messages");
        }
    }
    ctx.state(hash_str(&sig));
    Ok(())
}

struct RealKey<E: Eng> {
    params: bellman::groth16::Parameters<E>,
    tvk: TruncatedVerifyingKey<E>,
    rec: Rec<E::Fr>,
    honest: Vec<E::Fr>,
}

struct Msg<E: Eng> {
    key: usize,
    proof: Proof<E>,
    inputs: Vec<E::Fr>,
    /// the assignment satisfies the constraints of `key`
    true_: bool,
}

fn real_keys<E: Eng>(ctx: &Ctx) -> Outcome
where
    E::Fr: Home,
{
    let n_keys = ctx.range(1, 2);
    let mut ks: Vec<RealKey<E>> = vec![];
    for _ in 0..n_keys {
        let prog = if ctx.draw(3) < 2 {
            let steps = 1 + ctx.below(4);
            draw_prog::<E::Fr>(ctx, steps, false)
        } else {
            None
        };
        let (shape, wit): (Rc<Shape<E::Fr>>, _) = match prog {
            Some(p) => (Rc::new(Shape::Prog(p)), Wit::Own),
            None => {
                let (x, y): (E::Fr, E::Fr) = (value(ctx), value(ctx));
                (Rc::new(Shape::Statement), statement_wit(&x, &y, ctx.draw(2) == 1, ctx.draw(2) == 1).0)
            }
        };
        let rec = match guarded(|| record(&Job { shape: shape.clone(), wit: Some(wit), tick: None })) {
            Ok(r) => r,
            Err(m) => violated!("honest-panic", "an honest circuit panicked: {}", m),
        };
        if !all_bound(&rec) || rec.vals.len() == 1 + rec.public.len() || rec.cons.len() > 900 {
            ctx.probe("skipped_circuit");
            continue;
        }
        let seed = ctx.u64();
        let params = match guarded(|| keys::<E>(&shape, seed)) {
            Ok(p) => p,
            Err(m) => violated!("setup-panic", "key generation panicked: {}", m),
        };
        let honest: Vec<E::Fr> = rec.vals.iter().map(|v| v.unwrap()).collect();
        let tvk = truncate_verifying_key(&params.vk);
        ctx.event(format!("{} key for {} variables, {} constraints, {} inputs", E::NAME, rec.vals.len(), rec.cons.len(), rec.public.len()));
        ks.push(RealKey { params, tvk, rec, honest });
    }
    if ks.is_empty() {
        return Ok(());
    }
    let mut pool: Vec<Msg<E>> = vec![];
    // Byzantine provers commit to altered assignments
    let n_proofs = ctx.range(2, 4);
    for _ in 0..n_proofs {
        let ki = ctx.below(ks.len());
        let k = &ks[ki];
        let mut v = k.honest.clone();
        let mut changes = ctx.below(4);
        if changes > 0 && !k.rec.cons.is_empty() && k.rec.cons.len() < 300 && ctx.draw(2) == 0 {
            // an assignment that breaks one chosen constraint only
            let mut less = k.rec.clone();
            less.cons.remove(ctx.below(less.cons.len()));
            let sys = System::new(&less, &[]);
            let outs: Vec<Lc<E::Fr>> = (0..v.len()).map(|i| vec![(i, E::Fr::one())]).collect();
            if let Some(f) = sys.attack(ctx, &outs, Some(&k.honest), 4) {
                v = f.assignment;
                changes = 0;
                ctx.fault("prover:break_one_constraint");
            }
        }
        for _ in 0..changes {
            let i = if !k.rec.public.is_empty() && ctx.draw(2) == 0 { *ctx.pick(&k.rec.public) } else { 1 + ctx.below(v.len() - 1) };
            v[i] = match ctx.draw(4) {
                0 => add(&v[i], &E::Fr::one()),
                1 => neg(&v[i]),
                2 => edge(ctx),
                _ => random(&mut ctx.prng()),
            };
            ctx.fault("prover:alter_assignment");
        }
        let sat = broken(&k.rec.cons, &v).is_none();
        let raw = Rc::new(Shape::Raw(k.rec.clone()));
        let seed = ctx.u64();
        let inputs: Vec<E::Fr> = k.rec.public.iter().map(|i| v[*i]).collect();
        let j = Job { shape: raw, wit: Some(Wit::Raw(v)), tick: None };
        let proof = match guarded(|| prove_with::<E>(&j, &k.params, seed)) {
            Ok(p) => p,
            Err(m) => {
                if sat {
                    violated!("prove-panic", "proving a satisfying assignment panicked: {}", m)
                }
                ctx.probe("prover_gave_up");
                continue;
            }
        };
        ctx.op();
        let got = matches!(guarded(|| verify(&k.tvk, &proof, &inputs)), Ok(Ok(true)));
        ctx.checked();
        ctx.event(format!("prover with {} altered variables, satisfying {}: accepted {}", changes, sat, got));
        ensure!(sat || !got, "accepted-false", "a proof from an assignment that violates the circuit was accepted");
        ensure!(!sat || got, "refused-true", "a proof from a satisfying assignment was refused");
        ctx.probe(if sat { "satisfying_assignments" } else { "violating_assignments" });
        pool.push(Msg { key: ki, proof, inputs, true_: sat });
    }
    if pool.is_empty() {
        return Ok(());
    }
    // a relay mixes and corrupts
    let rounds = ctx.range(3, 8);
    let mut sig = format!("{} real {}", E::NAME, ks.len());
    for _ in 0..rounds {
        let m = &pool[ctx.below(pool.len())];
        let other = &pool[ctx.below(pool.len())];
        let ki = if ctx.draw(3) == 0 { ctx.below(ks.len()) } else { m.key };
        let mut inputs = m.inputs.clone();
        let kind = match ctx.draw(6) {
            0 => "as_is",
            1 => {
                inputs = other.inputs.clone();
                "others_inputs"
            }
            2 if !inputs.is_empty() => {
                let i = ctx.below(inputs.len());
                inputs[i] = value(ctx);
                "alter_input"
            }
            3 => {
                inputs.push(E::Fr::zero());
                "extra_input"
            }
            4 if !inputs.is_empty() => {
                inputs.pop();
                "drop_input"
            }
            _ => "as_is",
        };
        ctx.fault(&format!("relay:{}", kind));
        let (ek, ep, ei) = (*ctx.pick(&ENCS), *ctx.pick(&ENCS), *ctx.pick(&ENCS));
        let (mut bk, mut bp, mut bi) = match (put_key(ctx, &ks[ki].tvk, ek), put_proof(ctx, &m.proof, ep), put_inputs::<E>(&inputs, ei)) {
            (Ok(a), Ok(b), Ok(c)) => (a, b, c),
            (a, b, c) => violated!("encode", "an honest message does not encode: {:?} {:?} {:?}", a.err(), b.err(), c.err()),
        };
        let hit = ctx.draw(6);
        let corrupt = |ctx: &Ctx, b: &mut Vec<u8>, what: &str| {
            if b.is_empty() {
                return;
            }
            let i = ctx.below(b.len());
            match ctx.draw(5) {
                0 => b[i] ^= 1 << ctx.draw(8),
                1 => b[i] = ctx.draw(256) as u8,
                2 => {
                    b.truncate(i);
                }
                3 => b.push(b[i]),
                _ => {
                    let j = ctx.below(b.len());
                    b.swap(i, j);
                }
            }
            ctx.fault(&format!("relay:corrupt_{}", what));
        };
        match hit {
            0 => corrupt(ctx, &mut bk, "key"),
            1 => corrupt(ctx, &mut bp, "proof"),
            2 => corrupt(ctx, &mut bi, "inputs"),
            _ => {}
        }
        let lib = (get_key::<E>(ctx, &bk, ek), get_proof::<E>(ctx, &bp, ep), get_inputs::<E>(&bi, ei));
        let yes = match &lib {
            (Ok(k), Ok(p), Ok(i)) => matches!(guarded(|| verify(k, p, i)), Ok(Ok(true))),
            _ => false,
        };
        let (rk, rp, ri) = (ref_key::<E>(&bk, ek), ref_proof::<E>(&bp, ep), ref_inputs::<E>(&bi, ei));
        let want = match (rk.val(), rp.val(), ri.val()) {
            (Some(k), Some(p), Some(i)) => bell_verify(k, p, i),
            _ => false,
        };
        ctx.op();
        ctx.checked();
        ctx.event(format!("relay {} key {} as {:?}/{:?}/{:?} hit {} -> {}", kind, ki, ek, ep, ei, hit, yes));
        sig += &format!("|{} {} {}", kind, hit.min(3), yes);
        ensure!(want || !yes, "accepted-false", "the verifier accepted a message that means no valid proof ({}, {:?}/{:?}/{:?})", kind, ek, ep, ei);
        if rk.must().is_some() && rp.must().is_some() && ri.must().is_some() {
            ensure!(!want || yes, "refused-true", "the verifier refused a well-formed valid message ({}, {:?}/{:?}/{:?})", kind, ek, ep, ei);
        }
        // what is accepted under an intact key was proved by someone
        if hit != 0 && yes {
            let i = lib.2.unwrap();
            ensure!(pool.iter().any(|q| q.key == ki && q.true_ && q.inputs == i), "accepted-false", "the verifier accepted inputs that nobody proved under key {}", ki);
        }
    }
    ctx.state(hash_str(&sig));
    Ok(())
}
