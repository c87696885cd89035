//! Entropy: every random value comes out of the simulated kernel's generator,
//! whole, fresh and only while it works.
use crate::core::*;
use crate::engines::*;
use crate::gen::*;
use crate::runner::World;
use crate::simos::{self, Entropy};
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::cs::{Circuit, ConstraintSystem};
use fawkes_crypto::core::osrng::OsRng;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::helpers::groth16::prover::{generate_keys, prove, Parameters};
use fawkes_crypto::native::num::Num;
use ff::{Field, PrimeField};
use pairing::{bls12_381::Bls12, bn256::Bn256, CurveAffine, CurveProjective, Engine};
use rand::Rng;
use std::sync::OnceLock;

pub const WORLD: World = World {
    id: "C08",
    run,
    quick: 20_000,
    thorough: 400_000,
    rule: "a run draws a program of random requests over one or two generators, executes it on some hundreds of distinct entropy streams, then with interruptions and with the source dying before every possible request; one run in twenty does the same with key generation and proving; non-trivial: at least one entropy fault and one oracle comparison; distinct by hash of the program and fault history",
    state_measure: "(request program, request at which the source died, error number, interruption pattern) tuples",
    real: &["OsRng", "the Rand implementation of Num", "generate_keys and prove with bellman_ce", "the getrandom crate"],
    stub: &["the kernel's getrandom call and /dev/urandom"],
    assumptions: &["bellman_ce turns independent generator output into independent secrets", "linear dependence between output bits over GF(2), byte frequencies and entropy accounting are what is tested: a nonlinear weakening that keeps all three is not seen"],
};

type FB = <Bn256 as pairing::ff::ScalarEngine>::Fr;
type FL = <Bls12 as pairing::ff::ScalarEngine>::Fr;
type QB = <Bn256 as Engine>::Fq;

#[derive(Clone, Debug)]
enum Req {
    U32,
    U64,
    Fill(usize),
    NumB,
    NumL,
    NumQ,
    Gen32,
}

fn width(r: &Req) -> usize {
    match r {
        Req::U32 | Req::Gen32 => 32,
        Req::U64 => 64,
        Req::Fill(n) => n * 8,
        Req::NumB | Req::NumQ => 254,
        Req::NumL => 255,
    }
}

fn bits_of(b: &[u8]) -> Vec<bool> {
    (0..b.len() * 8).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect()
}

fn exec1(rng: &mut OsRng, r: &Req) -> Vec<bool> {
    match r {
        Req::U32 => bits_of(&rng.next_u32().to_le_bytes()),
        Req::Gen32 => bits_of(&rng.gen::<u32>().to_le_bytes()),
        Req::U64 => bits_of(&rng.next_u64().to_le_bytes()),
        Req::Fill(n) => {
            let mut b = vec![0u8; *n];
            rng.fill_bytes(&mut b);
            bits_of(&b)
        }
        Req::NumB => bits_le(&rng.gen::<Num<FB>>().into_inner()),
        Req::NumL => bits_le(&rng.gen::<Num<FL>>().into_inner()),
        Req::NumQ => bits_le(&rng.gen::<Num<QB>>().into_inner()),
    }
}

struct Done {
    out: Vec<Vec<bool>>,
    panicked: Option<String>,
    ent: Entropy,
}

/// Runs the program on one stream; checks the entropy account after every
/// request.
fn exec(ctx: &Ctx, prog: &[(usize, Req)], e: Entropy) -> Result<Done, Violation> {
    simos::attach(ctx);
    simos::set_entropy(Some(e));
    let mut rngs = vec![OsRng::new(), OsRng::new()];
    let mut out: Vec<Vec<bool>> = vec![];
    let mut used = 0u64;
    let mut panicked = None;
    for (who, req) in prog {
        match guarded(|| exec1(&mut rngs[*who], req)) {
            Ok(b) => {
                used += b.len() as u64;
                let delivered = simos::with(|os| os.entropy.as_ref().unwrap().delivered) * 8;
                if delivered < used {
                    simos::set_entropy(None);
                    violated!("more-bits-than-drawn", "{:?} brought the output to {} bits while the system had delivered {}", req, used, delivered);
                }
                out.push(b);
            }
            Err(m) => {
                panicked = Some(m);
                break;
            }
        }
    }
    let ent = simos::take_entropy().expect("HARNESS:entropy");
    Ok(Done { out, panicked, ent })
}

fn rank(mut rows: Vec<Vec<u64>>, cols: usize) -> (usize, Vec<usize>) {
    let mut r = 0;
    let mut free = vec![];
    for c in 0..cols {
        let (w, m) = (c / 64, 1u64 << (c % 64));
        match (r..rows.len()).find(|i| rows[*i][w] & m != 0) {
            None => free.push(c),
            Some(i) => {
                rows.swap(r, i);
                let p = rows[r].clone();
                for row in rows[r + 1..].iter_mut() {
                    if row[w] & m != 0 {
                        for (x, y) in row.iter_mut().zip(&p) {
                            *x ^= y;
                        }
                    }
                }
                r += 1;
            }
        }
    }
    (r, free)
}

fn run(ctx: &Ctx) -> Outcome {
    match ctx.draw(40) {
        0..=36 => requests(ctx),
        37 => frequencies(ctx),
        38 => keys::<Bn256>(ctx),
        _ => keys::<Bls12>(ctx),
    }
}

fn draw_prog(ctx: &Ctx) -> Vec<(usize, Req)> {
    let n = ctx.range(1, 5);
    let mut prog = vec![];
    let mut bits = 0;
    for _ in 0..n {
        let req = match ctx.draw(8) {
            0 => Req::U32,
            1 => Req::U64,
            2 | 3 => Req::Fill(ctx.range(1, 24)),
            4 => Req::NumB,
            5 => Req::NumL,
            6 => Req::NumQ,
            _ => Req::Gen32,
        };
        if bits + width(&req) > 600 {
            break;
        }
        bits += width(&req);
        prog.push((ctx.below(2), req));
    }
    prog
}

const ERRNOS: [i32; 5] = [5, 11, 14, 1, 38];

fn requests(ctx: &Ctx) -> Outcome {
    let prog = draw_prog(ctx);
    ctx.event(format!("program {:?}", prog));
    let seed = ctx.u64();
    let total: usize = prog.iter().map(|(_, r)| width(r)).sum();
    // many streams: no bit constant, none a linear function of others
    let n = total + 101;
    let words = total / 64 + 1;
    let mut rows = vec![];
    for i in 0..n {
        let d = exec(ctx, &prog, Entropy::seeded(mix(seed).wrapping_add(i as u64 * 7919)))?;
        if let Some(m) = d.panicked {
            violated!("healthy-source-panic", "the source worked and {:?} panicked: {}", prog[d.out.len()].1, m);
        }
        let mut row = vec![0u64; words];
        for (j, b) in d.out.iter().flatten().enumerate() {
            if *b {
                row[j / 64] |= 1 << (j % 64);
            }
        }
        row[total / 64] |= 1 << (total % 64);
        rows.push(row);
        ctx.op();
    }
    let (r, free) = rank(rows, total + 1);
    ctx.checked();
    if r < total + 1 {
        let c = free[0].min(total.saturating_sub(1));
        let mut at = 0;
        let mut which = String::new();
        for (i, (_, q)) in prog.iter().enumerate() {
            if c < at + width(q) {
                which = format!("bit {} of request {} ({:?})", c - at, i, q);
                break;
            }
            at += width(q);
        }
        violated!("dependent-bits", "over {} independent streams {} is constant or a fixed combination of other output bits", n, which);
    }
    // the reference history on one stream
    let base = exec(ctx, &prog, Entropy::seeded(seed))?;
    let again = exec(ctx, &prog, Entropy::seeded(seed))?;
    ctx.checked();
    ensure!(base.out == again.out && base.panicked == again.panicked, "not-from-source", "the same entropy gave two results: something else enters");
    // interruptions and short reads change nothing
    let mut e = Entropy::seeded(seed);
    e.short = ctx.chance(2, 3);
    e.eintr = !e.short || ctx.chance(1, 2);
    e.gap = 1 + ctx.draw(4);
    e.gap = e.gap.max(2);
    let slow = exec(ctx, &prog, e)?;
    ctx.checked();
    if let Some(m) = slow.panicked {
        violated!("interrupted-panic", "the source was only interrupted and the call panicked: {}", m);
    }
    ensure!(slow.out == base.out, "interrupted-differs", "interruptions of the entropy source changed the result");
    // the source dies before request k
    let c = base.ent.calls;
    let k = ctx.draw(c.max(1));
    let errno = *ctx.pick(&ERRNOS);
    let mut e = Entropy::seeded(seed);
    e.die_after = Some((k, errno));
    let d = exec(ctx, &prog, e)?;
    ctx.checked();
    ctx.event(format!("source dies after {} of {} calls, errno {}: {} of {} requests returned", k, c, errno, d.out.len(), prog.len()));
    ensure!(!(d.ent.failed && d.panicked.is_none() && d.out.len() == prog.len() && d.ent.calls <= k), "HARNESS", "unreachable");
    if d.ent.failed {
        ensure!(d.panicked.is_some(), "failed-source-value", "the entropy source failed and every request returned a value");
        ensure!(d.out[..] == base.out[..d.out.len()], "failed-source-differs", "values returned before the source failed differ");
    }
    // and once it works again the same program succeeds
    let d = exec(ctx, &prog, Entropy::seeded(seed))?;
    ctx.checked();
    ensure!(d.out == base.out, "failure-sticks", "an earlier failure of the source changed a later result");
    ctx.state(hash_str(&format!("{:?} {} {}", prog, k, errno)));
    Ok(())
}

/// One long history of one generator: byte values equally frequent at every
/// position of a word, and no repeated pair of words.
fn frequencies(ctx: &Ctx) -> Outcome {
    let seed = ctx.u64();
    let form = ctx.draw(4);
    ctx.event(format!("long history, form {}", form));
    if form == 3 {
        return long_fills(ctx, seed);
    }
    simos::attach(ctx);
    let mut e = Entropy::seeded(seed);
    e.short = true;
    e.eintr = true;
    e.gap = 64;
    simos::set_entropy(Some(e));
    let n = 65536usize;
    let r = guarded(|| {
        let mut rng = OsRng::new();
        (0..n)
            .map(|_| match form {
                0 => rng.next_u32(),
                1 => {
                    let mut b = [0u8; 4];
                    rng.fill_bytes(&mut b);
                    u32::from_le_bytes(b)
                }
                _ => {
                    let x = rng.next_u64();
                    x as u32 ^ ((x >> 32) as u32).rotate_left(16)
                }
            })
            .collect::<Vec<u32>>()
    });
    simos::set_entropy(None);
    let v = match r {
        Ok(v) => v,
        Err(m) => violated!("healthy-source-panic", "the source worked and a request panicked: {}", m),
    };
    for pos in 0..4 {
        let mut cnt = [0u32; 256];
        for x in &v {
            cnt[(x >> (8 * pos)) as usize & 255] += 1;
        }
        ctx.checked();
        for (b, k) in cnt.iter().enumerate() {
            ensure!(*k > 100 && *k < 430, "byte-frequency", "byte {} of the words is {:#04x} {} times in {}, where 256 are expected", pos, b, k, n);
        }
    }
    let mut pairs: Vec<u64> = v.windows(2).map(|w| (w[0] as u64) << 32 | w[1] as u64).collect();
    pairs.sort_unstable();
    ctx.checked();
    ensure!(pairs.windows(2).all(|w| w[0] != w[1]), "repeats", "the generator repeated two consecutive words within {} words", n);
    Ok(())
}

/// Buffers larger than any the library or the system handles in one piece.
fn long_fills(ctx: &Ctx, seed: u64) -> Outcome {
    let sizes: Vec<usize> = (0..ctx.range(1, 6)).map(|_| 1 + ctx.size(300, 2, 5000)).collect();
    ctx.event(format!("buffers of {:?} bytes", sizes));
    let fill = |e: Entropy| {
        under(ctx, e, || {
            let mut rng = OsRng::new();
            let mut all = vec![];
            for n in &sizes {
                let mut b = vec![0u8; *n];
                rng.fill_bytes(&mut b);
                all.extend(b);
            }
            all
        })
    };
    let mut e = Entropy::seeded(seed);
    e.short = ctx.draw(2) == 0;
    e.eintr = !e.short;
    e.gap = 8;
    let (r, ent) = fill(e);
    ctx.op();
    ctx.checked();
    let v = match r {
        Ok(v) => v,
        Err(m) => violated!("healthy-source-panic", "the source worked and a request panicked: {}", m),
    };
    ensure!(ent.delivered >= v.len() as u64, "more-bits-than-drawn", "{} bytes out of {} delivered", v.len(), ent.delivered);
    let mut w: Vec<&[u8]> = v.windows(8).collect();
    w.sort_unstable();
    ensure!(w.windows(2).all(|p| p[0] != p[1]), "repeats", "eight bytes come twice within {}", v.len());
    // every byte of every buffer was filled: none is the same on four streams
    let more: Vec<Vec<u8>> = (1..9).filter_map(|i| fill(Entropy::seeded(seed.wrapping_add(i))).0.ok()).collect();
    ensure!(more.len() == 8, "healthy-source-panic", "the source worked and a request panicked");
    ctx.checked();
    for i in 0..v.len() {
        ensure!(more.iter().any(|m| m[i] != v[i]), "constant-byte", "byte {} of {} is {:#04x} on nine streams", i, v.len(), v[i]);
    }
    let k = ctx.draw(ent.calls.max(1));
    let mut e = Entropy::seeded(seed);
    e.die_after = Some((k, *ctx.pick(&ERRNOS)));
    let (r, ent) = fill(e);
    ctx.checked();
    ensure!(!(ent.failed && r.is_ok()), "failed-source-value", "the entropy source failed and the buffers were returned");
    ctx.state(hash_str(&format!("{:?} {}", sizes, k)));
    Ok(())
}

/// x·y = z, z public.
struct Tiny<F: fawkes_crypto::core::field::Field>(Option<(F, F)>);
impl<F: fawkes_crypto::core::field::Field> Default for Tiny<F> {
    fn default() -> Self {
        Tiny(None)
    }
}
impl<F: fawkes_crypto::core::field::Field> Circuit for Tiny<F> {
    type F = F;
    fn synthesize<CS: ConstraintSystem<F = F>>(&self, cs: &CS) {
        let x = self.0.as_ref().map(|v| Num(v.0));
        let y = self.0.as_ref().map(|v| Num(v.1));
        let z = self.0.as_ref().map(|v| Num(mul(&v.0, &v.1)));
        let z = CNum::alloc(cs, z.as_ref());
        z.inputize();
        let x = CNum::alloc(cs, x.as_ref());
        let y = CNum::alloc(cs, y.as_ref());
        (&x * &y - &z).assert_zero();
    }
    fn get_inputs(&self) -> Option<Vec<Num<F>>> {
        self.0.as_ref().map(|v| vec![Num(mul(&v.0, &v.1))])
    }
}

trait KeyHome: Eng {
    fn home() -> &'static Parameters<Self>;
}
impl KeyHome for Bn256 {
    fn home() -> &'static Parameters<Bn256> {
        static P: OnceLock<Parameters<Bn256>> = OnceLock::new();
        P.get_or_init(|| simos::with_entropy(77, generate_keys::<Bn256, Tiny<FB>>))
    }
}
impl KeyHome for Bls12 {
    fn home() -> &'static Parameters<Bls12> {
        static P: OnceLock<Parameters<Bls12>> = OnceLock::new();
        P.get_or_init(|| simos::with_entropy(78, generate_keys::<Bls12, Tiny<FL>>))
    }
}

fn under<T>(ctx: &Ctx, e: Entropy, f: impl FnOnce() -> T) -> (Result<T, String>, Entropy) {
    simos::attach(ctx);
    simos::set_entropy(Some(e));
    let r = guarded(f);
    (r, simos::take_entropy().expect("HARNESS:entropy"))
}

fn dif<C: CurveAffine>(a: &C, b: &C) -> C {
    let mut n = *b;
    n.negate();
    add_pt(a, &n)
}

fn keys<E: KeyHome>(ctx: &Ctx) -> Outcome
where
    E::Fr: fawkes_crypto::core::field::Field,
{
    let home = E::home();
    let seed = ctx.u64();
    let gen = |e: Entropy| under(ctx, e, || generate_keys::<E, Tiny<E::Fr>>());
    let need = |n: u64| n * 31;
    if ctx.draw(2) == 0 {
        ctx.event(format!("{} key generation", E::NAME));
        let (k1, e1) = gen(Entropy::seeded(seed));
        let (k2, _) = gen(Entropy::seeded(mix(seed)));
        let (k1, k2) = match (k1, k2) {
            (Ok(a), Ok(b)) => (a, b),
            (a, b) => violated!("healthy-source-panic", "key generation panicked with a working source: {:?} {:?}", a.err(), b.err()),
        };
        ctx.op();
        ctx.checked();
        ensure!(e1.delivered >= need(5), "key-entropy", "key generation drew {} bytes for five secret scalars", e1.delivered);
        for (name, same) in [
            ("alpha", k1.vk.alpha_g1 == k2.vk.alpha_g1),
            ("beta", k1.vk.beta_g1 == k2.vk.beta_g1 || k1.vk.beta_g2 == k2.vk.beta_g2),
            ("gamma", k1.vk.gamma_g2 == k2.vk.gamma_g2),
            ("delta", k1.vk.delta_g1 == k2.vk.delta_g1 || k1.vk.delta_g2 == k2.vk.delta_g2),
            ("tau", k1.h.first() == k2.h.first()),
        ] {
            ensure!(!same, "key-secret-fixed", "two key generations on different entropy share {}", name);
        }
        for k in [&k1, &k2] {
            ctx.checked();
            let g1 = [k.vk.alpha_g1, k.vk.beta_g1, k.vk.delta_g1, E::G1Affine::one(), E::G1Affine::zero()];
            let g2 = [k.vk.beta_g2, k.vk.gamma_g2, k.vk.delta_g2, E::G2Affine::one(), E::G2Affine::zero()];
            for i in 0..5 {
                for j in 0..i {
                    ensure!(g1[i] != g1[j] && g2[i] != g2[j], "key-secret-equal", "two secrets of one key generation are equal or trivial");
                }
            }
        }
        // interrupted, then dead
        let mut e = Entropy::seeded(seed);
        e.short = true;
        e.eintr = true;
        e.gap = 16;
        let (k3, _) = gen(e);
        ctx.checked();
        match k3 {
            Ok(k) => ensure!(k.vk == k1.vk, "interrupted-differs", "interruptions of the entropy source changed the key"),
            Err(m) => violated!("interrupted-panic", "the source was only interrupted and key generation panicked: {}", m),
        }
        let mut e = Entropy::seeded(seed);
        let k = ctx.draw(e1.calls.max(1));
        e.die_after = Some((k, *ctx.pick(&ERRNOS)));
        let (r, e) = gen(e);
        ctx.checked();
        ctx.event(format!("source dies after {} of {} calls", k, e1.calls));
        ensure!(!(e.failed && r.is_ok()), "failed-source-value", "the entropy source failed and key generation returned a key");
        ctx.state(hash_str(&format!("keys {} {}", E::NAME, k)));
        return Ok(());
    }
    ctx.event(format!("{} proving", E::NAME));
    let w = (value::<E::Fr>(ctx), value::<E::Fr>(ctx));
    let go = |e: Entropy| {
        under(ctx, e, || prove::<E, _>(&Tiny(Some(w)), home).0)
    };
    let (p1, e1) = go(Entropy::seeded(seed));
    let (p2, _) = go(Entropy::seeded(mix(seed)));
    // two proofs in a row on one stream
    let (p3, _) = under(ctx, Entropy::seeded(seed), || {
        let _ = prove::<E, _>(&Tiny(Some(w)), home);
        prove::<E, _>(&Tiny(Some(w)), home).0
    });
    let (p1, p2, p3) = match (p1, p2, p3) {
        (Ok(a), Ok(b), Ok(c)) => (a, b, c),
        _ => violated!("healthy-source-panic", "proving panicked with a working source"),
    };
    ctx.op();
    ctx.checked();
    ensure!(e1.delivered >= need(2), "proof-entropy", "proving drew {} bytes for two blinding scalars", e1.delivered);
    for q in [&p2, &p3] {
        ensure!(q.a != p1.a && q.b != p1.b && q.c != p1.c, "blinding-fixed", "two proofs of one statement share a point: a blinding scalar is fixed");
        let d = E::pairing(dif(&p1.a, &q.a), home.vk.delta_g2);
        let f = E::pairing(home.vk.delta_g1, dif(&p1.b, &q.b));
        ctx.checked();
        ensure!(d != f, "blinding-equal", "both blinding scalars of a proof are the same");
    }
    let mut e = Entropy::seeded(seed);
    e.short = true;
    e.eintr = true;
    e.gap = 4;
    let (r, _) = go(e);
    ctx.checked();
    match r {
        Ok(p) => ensure!(p == p1, "interrupted-differs", "interruptions of the entropy source changed the proof"),
        Err(m) => violated!("interrupted-panic", "the source was only interrupted and proving panicked: {}", m),
    }
    let mut e = Entropy::seeded(seed);
    let k = ctx.draw(e1.calls.max(1));
    e.die_after = Some((k, *ctx.pick(&ERRNOS)));
    let (r, e) = go(e);
    ctx.checked();
    ctx.event(format!("source dies after {} of {} calls", k, e1.calls));
    ensure!(!(e.failed && r.is_ok()), "failed-source-value", "the entropy source failed and proving returned a proof");
    ctx.state(hash_str(&format!("prove {} {}", E::NAME, k)));
    let _ = E::Fr::zero();
    let _: Option<<E::G1Affine as CurveAffine>::Projective> = None::<<E::G1Affine as CurveAffine>::Projective>.filter(|p| p.is_zero());
    Ok(())
}
