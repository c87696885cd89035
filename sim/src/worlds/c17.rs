//! Parties that derive public parameters, each after a history of its own.
use crate::core::*;
use crate::gadget::JJ;
use crate::gen::*;
use crate::refmodel as rm;
use crate::runner::World;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::seedbox::SeedboxBlake2;
use fawkes_crypto::native::ecc::{EdwardsPoint, JubJubParams};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::{poseidon, poseidon_merkle_tree_root, poseidon_with_salt, PoseidonParams};
use rand::Rng;

pub const WORLD: World = World {
    id: "C17",
    run,
    quick: 12_000,
    thorough: 1_500_000,
    rule: "a run lets two to four parties of one process derive generator streams, field elements, hash parameters, hashes and curve constants from public labels, each in an order, in pieces and with interruptions (failed requests, crashes after which it derives again and skips to where it was) of its own; every value is compared with the published derivation; non-trivial: at least one interruption or interleaving and one comparison; distinct by hash of the request history",
    state_measure: "(kind of request, field, label class or sizes, words consumed before) tuples",
    real: &["core::seedbox, native::poseidon, Num::from_seed, Num::rand, JubJubBN256, JubJubBLS12_381, hash to curve"],
    stub: &["the parties, their order, crashes and failed requests"],
    assumptions: &["streams are followed for at most about 2^20 words", "the reference has its own Blake2s, stream, hash and curve; rejection sampling of field elements is that of the ff and rand crates"],
};

struct Stream {
    label: Option<Vec<u8>>,
    lib: SeedboxBlake2,
    model: rm::Seedbox,
}

fn open(label: &Option<Vec<u8>>) -> Stream {
    Stream {
        label: label.clone(),
        lib: match label {
            Some(l) => SeedboxBlake2::new_with_salt(l),
            None => SeedboxBlake2::new(),
        },
        model: rm::Seedbox::new(label.as_ref().map(|l| &l[..])),
    }
}

fn label(ctx: &Ctx, pool: &mut Vec<Option<Vec<u8>>>) -> Option<Vec<u8>> {
    if !pool.is_empty() && ctx.draw(2) == 0 {
        return pool[ctx.below(pool.len())].clone();
    }
    let l = match ctx.draw(8) {
        0 => None,
        1 => Some(vec![]),
        2 => {
            // close to one that was used
            let mut l = pool.iter().flatten().next().cloned().unwrap_or_default();
            match ctx.draw(4) {
                0 => l.push(0),
                1 => {
                    l.pop();
                }
                2 if !l.is_empty() => {
                    let i = ctx.below(l.len());
                    l[i] ^= 1 << ctx.draw(8);
                }
                _ => l.insert(0, 0),
            }
            Some(l)
        }
        3 => Some(format!("fawkes_poseidon(t={},f={},p={})", ctx.range(2, 5), 8, 53 + ctx.draw(2)).into_bytes()),
        4 => {
            // around the block size of the hash
            let n = [31, 32, 33, 63, 64, 65, 127, 128, 129, 300][ctx.below(10)];
            let mut g = ctx.prng();
            Some((0..n).map(|_| g.next() as u8).collect())
        }
        _ => {
            let n = ctx.below(24);
            let mut g = ctx.prng();
            Some((0..n).map(|_| g.next() as u8).collect())
        }
    };
    pool.push(l.clone());
    l
}

fn eq<T: PartialEq + std::fmt::Debug>(ctx: &Ctx, what: &str, got: T, want: T) -> Outcome {
    ctx.op();
    ctx.checked();
    let short = |x: &T| format!("{:?}", x).chars().take(150).collect::<String>();
    ensure!(got == want, format!("differs-{}", what), "{}: {} derived, {} published", what, short(&got), short(&want));
    Ok(())
}

fn draw_from(ctx: &Ctx, s: &mut Stream) -> Outcome {
    let k = ctx.draw(14);
    let before = s.model.words;
    match k {
        0 | 1 => eq(ctx, "word", s.lib.next_u32(), s.model.next_u32()),
        2 => eq(ctx, "two-words", s.lib.next_u64(), s.model.next_u64()),
        3 => {
            let n = ctx.below(80);
            let (mut a, mut b) = (vec![0; n], vec![0; n]);
            s.lib.fill_bytes(&mut a);
            s.model.fill_bytes(&mut b);
            eq(ctx, "bytes", a, b)
        }
        4 => eq(ctx, "bool", s.lib.gen::<bool>(), s.model.gen::<bool>()),
        5 => eq(ctx, "small", (s.lib.gen::<u8>(), s.lib.gen::<i16>(), s.lib.gen::<u64>()), (s.model.gen(), s.model.gen(), s.model.gen())),
        6 => {
            let n = 1 + ctx.below(1000) as u32;
            eq(ctx, "range", s.lib.gen_range(0, n), s.model.gen_range(0, n))
        }
        7 | 8 => eq(ctx, "number", s.lib.gen::<Num<pairing::bn256::Fr>>().0, s.model.gen()),
        9 => eq(ctx, "number", s.lib.gen::<Num<pairing::bls12_381::Fr>>().0, s.model.gen()),
        10 => eq(ctx, "number", s.lib.gen::<Num<fawkes_crypto::native::bn256::Fs>>().0, s.model.gen()),
        11 => eq(ctx, "number", s.lib.gen::<Num<fawkes_crypto::native::bls12_381::Fs>>().0, s.model.gen()),
        12 => {
            let n = match ctx.draw(if ctx.thorough { 60 } else { 300 }) {
                1 => 65_530 * 8 + ctx.below(100),
                2..=5 => 250 * 8 + ctx.below(100),
                _ => ctx.below(64),
            };
            ctx.event(format!("skip {}", n));
            for _ in 0..n {
                s.lib.next_u32();
                s.model.next_u32();
            }
            eq(ctx, "word", s.lib.next_u32(), s.model.next_u32())
        }
        _ => {
            // a request that fails takes nothing
            let r = guarded(|| s.lib.gen_range(5u32, 5));
            ctx.fault("failed_request");
            ensure!(r.is_err(), "harness", "an empty range gave a number");
            Ok(())
        }
    }?;
    ctx.state(mix(k ^ before.min(4096) << 8));
    Ok(())
}

fn hash_of<F: Field>(ctx: &Ctx, name: &str) -> Outcome {
    let (t, f, p) = match ctx.draw(6) {
        0 => (3, 8, 53),
        1 => (4, 8, 54),
        _ => (ctx.range(2, if ctx.chance(1, 8) { 14 } else { 6 }), ctx.range(1, 9), ctx.below(7)),
    };
    // sizes that print alike when run together or swapped meet in one process
    let (t, f, p) = if ctx.chance(1, 6) { (t, p.max(1), f) } else { (t, f, p) };
    ctx.event(format!("hash parameters {} {} {} {}", name, t, f, p));
    ctx.state(hash_str(&format!("{}{}{}{}", name, t, f, p)));
    let lib = PoseidonParams::<F>::new(t, f, p);
    let model = rm::Poseidon::<F>::new(t, f, p);
    eq(ctx, "sizes", (lib.t, lib.f, lib.p), (t, f, p))?;
    eq(ctx, "round-constants", lib.c.iter().map(|x| x.0).collect::<Vec<_>>(), model.c.clone())?;
    eq(ctx, "matrix", lib.m.iter().map(|r| r.iter().map(|x| x.0).collect::<Vec<_>>()).collect::<Vec<_>>(), model.m.clone())?;
    for _ in 0..ctx.below(3) {
        let kind = ctx.draw(3);
        // a tree may have any number of leaves
        let n = if kind == 1 && ctx.chance(1, 3) { ctx.range(1, 40) } else { ctx.range(1, t) };
        let v: Vec<F> = (0..n).map(|_| value(ctx)).collect();
        let nv: Vec<Num<F>> = v.iter().map(|x| Num(*x)).collect();
        match kind {
            0 if n < t => {
                let seed = ctx.u64().to_le_bytes()[..ctx.below(9)].to_vec();
                eq(ctx, "salted-hash", poseidon_with_salt(&nv, &seed, &lib).0, model.hash_salted(&v, &seed))?
            }
            1 => eq(ctx, "tree-root", poseidon_merkle_tree_root(&nv, &lib).0, model.merkle_root(&v))?,
            _ => eq(ctx, "hash", poseidon(&nv, &lib).0, model.hash(&v))?,
        }
    }
    // more inputs than the hash has room for, or none, is no hash at all
    if ctx.chance(1, 4) {
        ctx.fault("impossible_hash");
        let n = if ctx.draw(2) == 0 { 0 } else { t + 1 };
        let v = vec![Num::<F>::one(); n];
        ctx.checked();
        let r = guarded(|| poseidon(&v, &lib));
        ensure!(r.is_err(), "impossible-hash", "{} inputs have a hash with room for {}", n, t);
        let r = guarded(|| poseidon_with_salt(&v[..n.min(t)], b"x", &lib));
        ensure!(r.is_err(), "impossible-hash", "{} inputs and a salt have a hash with room for {}", n, t);
    }
    Ok(())
}

fn curve_of<F: JJ>(ctx: &Ctx, new: fn() -> F::J) -> Outcome {
    let c = F::curve();
    let j = new();
    let pt = |p: &EdwardsPoint<F>| (p.x.0, p.y.0);
    eq(ctx, "curve-constants", (j.edwards_d().0, j.montgomery_a().0, j.montgomery_b().0, j.montgomery_u().0), (c.d, c.ma, c.mb, c.mu))?;
    eq(ctx, "generator", pt(j.edwards_g()), (c.g.x, c.g.y))?;
    ensure!(c.in_subgroup(&c.g) && c.g != c.zero(), "harness", "the published generator is none");
    eq(ctx, "group-order", modulus::<<F::J as JubJubParams>::Fs>(), c.order.clone())?;
    let t: F = value(ctx);
    if t != neg(&F::one()) {
        let w = c.from_scalar(&t);
        eq(ctx, "hash-to-curve", pt(&EdwardsPoint::from_scalar(Num(t), &j)), (w.x, w.y))?;
    }
    Ok(())
}

fn seed_of<F: Field>(ctx: &Ctx, l: &[u8]) -> Outcome {
    eq(ctx, "seed-number", Num::<F>::from_seed(l).0, rm::from_seed::<F>(l))
}

fn run(ctx: &Ctx) -> Outcome {
    let n = ctx.range(2, 4);
    let mut nodes: Vec<Vec<Stream>> = (0..n).map(|_| vec![]).collect();
    let mut pool = vec![];
    // what this run is mostly about
    let theme = ctx.draw(4);
    for step in 0..ctx.range(8, 40) {
        let who = ctx.below(n);
        let k = if ctx.draw(3) > 0 { theme } else { ctx.draw(6) };
        match k {
            0 | 1 => {
                if nodes[who].is_empty() || ctx.chance(1, 6) {
                    let l = label(ctx, &mut pool);
                    ctx.event(format!("{}: party {} opens {:?}", step, who, l.as_ref().map(|l| hex(l))));
                    nodes[who].push(open(&l));
                }
                let i = ctx.below(nodes[who].len());
                ctx.fault("interleaved_request");
                ctx.event(format!("{}: party {} stream {} at {}", step, who, i, nodes[who][i].model.words));
                draw_from(ctx, &mut nodes[who][i])?;
            }
            2 => match ctx.draw(4) {
                0 | 1 => hash_of::<pairing::bn256::Fr>(ctx, "bn256")?,
                2 => hash_of::<pairing::bls12_381::Fr>(ctx, "bls12_381")?,
                _ => hash_of::<fawkes_crypto::native::bn256::Fs>(ctx, "bn256 fs")?,
            },
            3 => {
                let l = label(ctx, &mut pool).unwrap_or_default();
                ctx.event(format!("{}: party {} number from {}", step, who, hex(&l)));
                match ctx.draw(4) {
                    0 => seed_of::<pairing::bn256::Fr>(ctx, &l)?,
                    1 => seed_of::<pairing::bls12_381::Fr>(ctx, &l)?,
                    2 => seed_of::<fawkes_crypto::native::bn256::Fs>(ctx, &l)?,
                    _ => seed_of::<fawkes_crypto::native::bls12_381::Fs>(ctx, &l)?,
                }
            }
            4 => {
                ctx.event(format!("{}: party {} curve", step, who));
                if ctx.draw(2) == 0 {
                    curve_of::<pairing::bn256::Fr>(ctx, fawkes_crypto::native::bn256::JubJubBN256::new)?
                } else {
                    curve_of::<pairing::bls12_381::Fr>(ctx, fawkes_crypto::native::bls12_381::JubJubBLS12_381::new)?
                }
            }
            _ => {
                // crash: the party derives its streams again and goes on where it was
                if nodes[who].is_empty() || nodes[who].iter().any(|s| s.model.words > 100_000) {
                    continue;
                }
                ctx.fault("crash_and_rederive");
                ctx.event(format!("{}: party {} restarts", step, who));
                for s in nodes[who].iter_mut() {
                    let mut again = open(&s.label).lib;
                    let mut left = s.model.words;
                    while left > 0 {
                        if left > 1 && ctx.chance(1, 3) {
                            again.next_u64();
                            left -= 2;
                        } else {
                            again.next_u32();
                            left -= 1;
                        }
                    }
                    s.lib = again;
                    eq(ctx, "word", s.lib.next_u32(), s.model.next_u32())?;
                }
            }
        }
    }
    // everyone goes on from where they are
    for (w, node) in nodes.iter_mut().enumerate() {
        for s in node.iter_mut() {
            for _ in 0..9 {
                eq(ctx, "word", s.lib.next_u32(), s.model.next_u32())?;
            }
            ctx.event(format!("end: party {} at {}", w, s.model.words));
        }
    }
    Ok(())
}
