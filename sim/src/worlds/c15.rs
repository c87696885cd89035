//! Callers that share one process.
use crate::core::*;
use crate::engines::*;
use crate::gadget::JJ;
use crate::gen::*;
use crate::runner::World;
use crate::sched::{self, Point};
use crate::simos::{self, Entropy};
use crate::streams::*;
use bellman::groth16::Parameters;
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::circuit::bitify::{c_comp_constant, c_into_bits_le};
use fawkes_crypto::circuit::ecc::CEdwardsPoint;
use fawkes_crypto::circuit::mux::c_mux3;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::circuit::poseidon::c_poseidon;
use fawkes_crypto::core::cs::{Circuit, ConstraintSystem, TestCS};
use fawkes_crypto::core::osrng::OsRng;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::helpers::groth16::ethereum::generate_sol_data;
use fawkes_crypto::helpers::groth16::prover::{generate_keys, prove, Proof, ProofData};
use fawkes_crypto::helpers::groth16::verifier::{truncate_verifying_key, verify, TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use fawkes_crypto::native::ecc::{EdwardsPoint, JubJubParams};
use fawkes_crypto::native::eddsaposeidon::{eddsaposeidon_sign, eddsaposeidon_verify};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::*;
use pairing::bls12_381::Bls12;
use pairing::bn256::Bn256;
use pairing::ff::ScalarEngine;
use pairing::Engine;
use rand::Rng;
use std::cell::Cell;
use std::sync::{Arc, Mutex, OnceLock};
use typenum::U3;

pub const WORLD: World = World {
    id: "C15",
    run,
    quick: 1_600,
    thorough: 60_000,
    rule: "a run draws two to five callers with one to three calls each and the faults that abort some of them, runs every call alone in a process of its own, then all of them as real threads of one fresh process of which the tape lets one run at a time, switching at entropy requests, stream calls, calls into the circuit, memory allocations and lock waits; non-trivial: at least one pre-emption or abort and one result compared; distinct by hash of calls, faults and switches",
    state_measure: "(call pre-empted, point of pre-emption, call that went on) triples",
    real: &["setup, prove, verify, signing, hashing, codecs, generators and TestCS synthesis on real threads; std's locks and lazily initialised statics"],
    stub: &["the thread scheduler and the kernel's futex call", "the kernel's entropy source", "byte streams", "the caller's circuit, which panics on command"],
    assumptions: &["threads switch at scheduling points only: accesses to shared memory between two of them are not reordered, and weak memory effects are not simulated", "each caller has an entropy stream of its own, so that a call's result is a function of its arguments and that stream"],
};

const KINDS: [&str; 14] = ["setup", "prove", "verify", "sign", "hash", "encode", "decode", "generator", "parameters", "test synthesis", "contract", "points", "numbers", "gadgets"];

/// The calls that take little time.
const LIGHT: [usize; 8] = [4, 5, 6, 7, 8, 9, 12, 13];

/// One call with everything that decides its result.
#[derive(Clone, Debug)]
struct Call {
    kind: usize,
    bls: bool,
    seed: u64,
    /// the entropy source fails after this many requests
    dies: Option<u64>,
    /// the circuit panics when called for the n-th time
    panics: Option<u64>,
    /// the stream fails
    breaks: bool,
}

impl Call {
    fn show(&self) -> String {
        let mut s = format!("{} {} {:x}", KINDS[self.kind], if self.bls { "bls12_381" } else { "bn256" }, self.seed & 0xffff);
        if let Some(n) = self.dies {
            s += &format!(", entropy fails after {}", n);
        }
        if let Some(n) = self.panics {
            s += &format!(", circuit panics at {}", n);
        }
        if self.breaks {
            s += ", stream fails";
        }
        s
    }
}

thread_local! {
    static FUSE: Cell<Option<u64>> = const { Cell::new(None) };
}

fn tick() {
    sched::point(Point::Caller);
    FUSE.with(|f| match f.get() {
        Some(0) => {
            f.set(None);
            panic!("the caller's circuit panics")
        }
        Some(n) => f.set(Some(n - 1)),
        None => {}
    })
}

/// A circuit that calls back between its gadgets.
struct Tiny<F: JJ> {
    w: Option<(Num<F>, Num<F>)>,
}

impl<F: JJ> Default for Tiny<F> {
    fn default() -> Self {
        tick();
        Tiny { w: None }
    }
}

impl<F: JJ> Circuit for Tiny<F> {
    type F = F;
    fn synthesize<CS: ConstraintSystem<F = F>>(&self, cs: &CS) {
        let x = CNum::alloc(cs, self.w.as_ref().map(|w| &w.0));
        tick();
        let y = CNum::alloc(cs, self.w.as_ref().map(|w| &w.1));
        x.inputize();
        tick();
        let z = &x * &y;
        let q = &z / &y;
        tick();
        let b = c_into_bits_le(&y, 20);
        tick();
        let h = c_poseidon(&[q, z.clone()], &PoseidonParams::<F>::new(3, 2, 1));
        tick();
        let t = h.switch(&z.is_zero(), &b[0].into_num());
        t.inputize();
        tick();
    }
    fn get_inputs(&self) -> Option<Vec<Num<F>>> {
        None
    }
}

fn witness<F: JJ>(seed: u64) -> (Num<F>, Num<F>) {
    let mut p = Prng::new(seed);
    (Num(random::<F>(&mut p)), Num(small::<F>(1 + p.below(1 << 20) % ((1 << 20) - 1))))
}

struct Fixture<E: Eng> {
    params: Parameters<E>,
    key: TruncatedVerifyingKey<E>,
    proofs: Vec<(bellman::groth16::Proof<E>, Vec<E::Fr>)>,
}
unsafe impl<E: Eng> Sync for Fixture<E> {}
unsafe impl<E: Eng> Send for Fixture<E> {}

trait Fix: Eng
where
    Self::Fr: JJ,
{
    fn fix() -> &'static Fixture<Self>;
}
impl Fix for Bn256 {
    fn fix() -> &'static Fixture<Self> {
        static F: OnceLock<Fixture<Bn256>> = OnceLock::new();
        F.get_or_init(make)
    }
}
impl Fix for Bls12 {
    fn fix() -> &'static Fixture<Self> {
        static F: OnceLock<Fixture<Bls12>> = OnceLock::new();
        F.get_or_init(make)
    }
}

/// Keys and proofs, made by the library in a process of their own so that
/// the runs start from statics nobody has touched.
fn make<E: Eng>() -> Fixture<E>
where
    E::Fr: JJ,
{
    let b = sched::in_fork(|| {
        let mut out: Vec<Vec<u8>> = vec![];
        let p = simos::with_entropy(15, || generate_keys::<E, Tiny<E::Fr>>());
        let mut w = vec![];
        p.write(&mut w).unwrap();
        out.push(w);
        for i in 0..3u64 {
            let t = Tiny { w: Some(witness::<E::Fr>(i)) };
            let pf = simos::with_entropy(100 + i, || prove(&t, &p));
            let rec = crate::rec::RecCS::<E::Fr>::new();
            t.synthesize(&rec);
            let r = rec.r.into_inner();
            let ins: Vec<Num<E::Fr>> = r.public.iter().map(|i| Num(r.vals[*i].unwrap())).collect();
            out.push(enc_proof::<E>(&pf.0));
            out.push(ins.iter().flat_map(|n| le_bytes(&n.0)).collect());
        }
        out.try_to_vec().unwrap()
    });
    // a library that cannot make them is no business of this property
    let b = b.unwrap_or_else(|s| panic!("HARNESS:no fixture: {:#x}", s));
    let out = Vec::<Vec<u8>>::try_from_slice(&b).unwrap();
    let params = Parameters::<E>::read(&out[0][..], true).expect("HARNESS:params");
    let v = &params.vk;
    let key = TruncatedVerifyingKey { alpha_g1: v.alpha_g1, beta_g2: v.beta_g2, gamma_g2: v.gamma_g2, delta_g2: v.delta_g2, ic: v.ic.clone() };
    let proofs = (0..3)
        .map(|i| {
            let pf = dec_proof::<E>(&out[1 + 2 * i]).expect("HARNESS:proof");
            let ins = out[2 + 2 * i].chunks(32).map(|c| from_big(&num::BigUint::from_bytes_le(c))).collect();
            (pf, ins)
        })
        .collect();
    Fixture { params, key, proofs }
}

pub fn prepare() {
    Bn256::fix();
    Bls12::fix();
    Bn256::pools();
    Bls12::pools();
}

fn stream_point() {
    sched::point(Point::Stream)
}

type R = Result<Vec<u8>, String>;

/// The call itself, on the current thread.
fn perform(c: &Call) -> R {
    simos::YIELD.with(|y| y.set(Some(|| sched::point(Point::Entropy))));
    let mut e = Entropy::seeded(c.seed);
    e.die_after = c.dies.map(|n| (n, 5));
    simos::set_entropy(Some(e));
    FUSE.with(|f| f.set(c.panics));
    let r = guarded(|| if c.bls { act::<Bls12>(c) } else { act::<Bn256>(c) });
    FUSE.with(|f| f.set(None));
    simos::take_entropy();
    match r {
        Ok(r) => r,
        Err(m) => Err(format!("panic: {}", m)),
    }
}

fn bytes<F: ff::PrimeField>(v: &[F]) -> Vec<u8> {
    v.iter().flat_map(|x| le_bytes(x)).collect()
}

fn act<E: Fix>(c: &Call) -> R
where
    E::Fr: JJ,
{
    let own = Ctx::new(Tape::seeded(c.seed), false);
    let fx = E::fix();
    let rng = &mut Prng::new(mix(c.seed));
    let io = |e: std::io::Error| format!("error: {:?}", e.kind());
    match c.kind {
        0 => {
            let p = generate_keys::<E, Tiny<E::Fr>>();
            let mut w = vec![];
            p.write(&mut w).map_err(io)?;
            Ok(w)
        }
        1 => {
            let p = prove(&Tiny { w: Some(witness::<E::Fr>(c.seed)) }, &fx.params);
            Ok(enc_proof::<E>(&p.0))
        }
        2 => {
            let mut out = vec![];
            let mut key = truncate_verifying_key(&fx.params.vk);
            // another key that shares most of its parts
            match rng.below(8) {
                0 => key.alpha_g1 = E::pools().g1[0],
                1 => key.beta_g2 = E::pools().g2[0],
                2 => key.gamma_g2 = E::pools().g2[0],
                3 => key.delta_g2 = E::pools().g2[0],
                4 => key.ic.swap(0, 1),
                _ => {}
            }
            for _ in 0..2 {
                let (p, ins) = &fx.proofs[rng.below(3) as usize];
                let mut ins: Vec<E::Fr> = ins.clone();
                match rng.below(4) {
                    0 => ins[0] = random(rng),
                    1 => {
                        ins.pop();
                    }
                    _ => {}
                }
                stream_point();
                out.push(match verify(&key, &Proof(p.clone()), &ins) {
                    Ok(b) => b as u8,
                    Err(_) => 2,
                });
            }
            Ok(out)
        }
        3 => {
            let pp = PoseidonParams::<E::Fr>::new(4, 2 + rng.below(4) as usize, 1 + rng.below(3) as usize);
            let jj = <E::Fr as JJ>::jj();
            let sk = Num::<<<E::Fr as JJ>::J as JubJubParams>::Fs>(random(rng));
            let m = Num::<E::Fr>(random(rng));
            stream_point();
            let (s, r) = eddsaposeidon_sign(sk, m, &pp, jj);
            stream_point();
            let a = jj.edwards_g().mul(sk, jj).x;
            let m2 = if rng.below(2) == 0 { m } else { m + Num::one() };
            let ok = eddsaposeidon_verify(s, r, a, m2, &pp, jj);
            let mut o = bytes(&[s.0]);
            o.extend(bytes(&[r.0]));
            o.push(ok as u8);
            Ok(o)
        }
        4 => {
            let t = 2 + rng.below(3) as usize;
            let pp = PoseidonParams::<E::Fr>::new(t, 2 + rng.below(3) as usize, 1 + rng.below(3) as usize);
            let v: Vec<Num<E::Fr>> = (0..t - 1).map(|_| Num(random(rng))).collect();
            stream_point();
            let mut o = vec![poseidon(&v, &pp).0, poseidon_with_salt(&v, &c.seed.to_le_bytes(), &pp).0];
            if t > 2 {
                let l: Vec<Num<E::Fr>> = (0..1 + rng.below(6)).map(|_| Num(random(rng))).collect();
                stream_point();
                o.push(poseidon_merkle_tree_root(&l, &pp).0);
                let pf = MerkleProof::<E::Fr, U3> {
                    sibling: (0..3).map(|_| Num(random(rng))).collect::<SizedVec<_, U3>>(),
                    path: (0..3).map(|_| rng.below(2) == 1).collect::<SizedVec<_, U3>>(),
                };
                stream_point();
                o.push(poseidon_merkle_proof_root(l[0], &pf, &pp).0);
            }
            Ok(bytes(&o))
        }
        5 => {
            let key = truncate_verifying_key(&fx.params.vk);
            let pf = Proof(fx.proofs[rng.below(3) as usize].0.clone());
            let mut w = SimWriter::new(&own, StreamCfg::draw(&own, 300, c.breaks));
            w.on_call = Some(&stream_point);
            match rng.below(5) {
                0 => key.write(&mut w).map_err(io)?,
                1 => E::proof_write(&pf, &mut w).map_err(io)?,
                2 => E::tvk_data(&key).serialize(&mut w).map_err(io)?,
                3 => E::proof_data(&pf).serialize(&mut w).map_err(io)?,
                _ => serde_json::to_writer(&mut w, &(E::tvk_data(&key), E::proof_data(&pf))).map_err(|e| format!("error: {:?}", e.classify()))?,
            }
            Ok(w.out)
        }
        6 => {
            let pf = &fx.proofs[rng.below(3) as usize].0;
            let kind = rng.below(5);
            let mut data = match kind {
                0 => enc_tvk::<E>(&fx.key),
                1 => enc_proof::<E>(pf),
                2 => E::tvk_data(&fx.key).try_to_vec().map_err(io)?,
                3 => E::proof_data(&Proof(pf.clone())).try_to_vec().map_err(io)?,
                _ => serde_json::to_vec(&E::tvk_data(&fx.key)).unwrap(),
            };
            if rng.below(3) == 0 {
                let i = rng.below(data.len() as u64) as usize;
                data[i] ^= 1 << rng.below(8);
            }
            let mut r = SimReader::new(&own, &data, StreamCfg::draw(&own, data.len(), c.breaks));
            r.on_call = Some(&stream_point);
            Ok(match kind {
                0 => enc_tvk::<E>(&TruncatedVerifyingKey::<E>::read(&mut r).map_err(io)?),
                1 => enc_proof::<E>(&E::proof_read(&mut r).map_err(io)?.0),
                2 | 3 => {
                    let mut b = vec![];
                    std::io::Read::read_to_end(&mut r, &mut b).map_err(io)?;
                    if kind == 2 {
                        enc_tvk::<E>(&E::tvk_from(&TruncatedVerifyingKeyData::<E::Fq>::try_from_slice(&b).map_err(io)?))
                    } else {
                        enc_proof::<E>(&E::proof_from(&ProofData::<E::Fq>::try_from_slice(&b).map_err(io)?).0)
                    }
                }
                _ => {
                    let d: TruncatedVerifyingKeyData<E::Fq> = serde_json::from_reader(&mut r).map_err(|e| format!("error: {:?}", e.classify()))?;
                    enc_tvk::<E>(&E::tvk_from(&d))
                }
            })
        }
        7 => {
            let mut g = OsRng::new();
            let mut o = vec![];
            for _ in 0..1 + rng.below(5) {
                match rng.below(4) {
                    0 => o.extend_from_slice(&g.next_u32().to_le_bytes()),
                    1 => o.extend_from_slice(&g.next_u64().to_le_bytes()),
                    2 => {
                        let mut b = vec![0u8; rng.below(70) as usize];
                        g.fill_bytes(&mut b);
                        o.extend(b);
                    }
                    _ => o.extend(le_bytes(&g.gen::<Num<E::Fr>>().0)),
                }
            }
            Ok(o)
        }
        8 => {
            let pp = PoseidonParams::<E::Fr>::new(2 + rng.below(2) as usize, 2, 1 + rng.below(3) as usize);
            let mut o: Vec<E::Fr> = pp.c.iter().map(|x| x.0).collect();
            o.extend(pp.m.iter().flatten().map(|x| x.0));
            o.push(Num::<E::Fr>::from_seed(&c.seed.to_le_bytes()).0);
            let mut g = fawkes_crypto::core::seedbox::SeedboxBlake2::new_with_salt(&c.seed.to_le_bytes());
            for _ in 0..6 {
                o.push(g.gen::<Num<E::Fr>>().0);
                stream_point();
            }
            Ok(bytes(&o))
        }
        9 => {
            let cs = TestCS::<E::Fr>::new();
            Tiny { w: Some(witness::<E::Fr>(c.seed)) }.synthesize(&cs);
            let n = cs.num_constraints() as u64;
            let mut vs: Vec<Vec<u8>> = cs.variables.borrow().values().map(|v| le_bytes(&v.0)).collect();
            vs.sort();
            let mut o = n.to_le_bytes().to_vec();
            o.extend(vs.concat());
            Ok(o)
        }
        10 => {
            let d = Bn256::fix();
            Ok(generate_sol_data(&truncate_verifying_key(&d.params.vk).into_data()).into_bytes())
        }
        12 => numbers::<E::Fr>(rng),
        13 => gadgets::<E::Fr>(rng),
        _ => {
            let jj = <E::Fr as JJ>::jj();
            let mut g = OsRng::new();
            let p = EdwardsPoint::rand(&mut g, jj);
            let q = EdwardsPoint::from_scalar(Num(random(rng)), jj);
            stream_point();
            let s = p.add(&q, jj).mul(Num(random(rng)), jj);
            let z = EdwardsPoint::subgroup_decompress(s.x, jj);
            let mut o = vec![p.x.0, p.y.0, q.x.0, q.y.0, s.x.0, s.y.0];
            if let Some(z) = z {
                o.push(z.x.0);
                o.push(z.y.0);
            }
            Ok(bytes(&o))
        }
    }
}

/// Numbers in and out of every form, some of which are refused.
fn numbers<F: JJ>(rng: &mut Prng) -> R {
    type Fs<F> = <<F as JJ>::J as JubJubParams>::Fs;
    let mut o = vec![];
    let mut x: Num<F> = Num(random(rng));
    for _ in 0..2 + rng.below(5) {
        let k = rng.below(10);
        let r = guarded(|| {
            let y: Num<F> = match k {
                0 => Num::from(num::BigUint::from_bytes_be(&(0..rng.below(80)).map(|_| rng.below(256) as u8).collect::<Vec<_>>())),
                1 => Num::from(-num::BigInt::from(Into::<num::BigUint>::into(x))),
                2 => Num::from(rng.below(u64::MAX) as i64),
                3 => Num::from(&x.to_string()[..]),
                4 => {
                    let z: Num<Fs<F>> = x.into_other();
                    Num::from_other(z)
                }
                5 => x / Num::<F>::from(rng.below(3)),
                6 => x.sqrt().unwrap(),
                7 => Num::from(Into::<u64>::into(if rng.below(2) == 0 { x } else { Num::from(rng.below(1 << 40)) })),
                8 => serde_json::from_str(&serde_json::to_string(&x).unwrap()).unwrap(),
                _ => Num::from(&["12", "x", "", "-1", "99999999999999999999"][rng.below(5) as usize][..]),
            };
            stream_point();
            y
        });
        match r {
            Ok(y) => {
                x = x * Num::from(3u64) + y;
                o.extend(le_bytes(&y.0));
            }
            Err(_) => o.push(0xee),
        }
    }
    o.extend(le_bytes(&x.0));
    Ok(o)
}

/// Gadgets over the caller's own constraint system.
fn gadgets<F: JJ>(rng: &mut Prng) -> R {
    let jj = F::jj();
    let cs = TestCS::<F>::new();
    let mut o = vec![];
    for _ in 0..1 + rng.below(3) {
        let k = rng.below(7);
        let base = jj.edwards_g().mul(Num(random(rng)), jj);
        let v: Num<F> = Num(random(rng));
        let n = 1 + rng.below(9) as usize;
        let r = guarded(|| {
            let small = Num::<F>::from(rng.below(1 << n));
            let num = CNum::alloc(&cs, Some(&small));
            stream_point();
            let out: Vec<CNum<TestCS<F>>> = match k {
                0 => CEdwardsPoint::from_const(&cs, &base).mul(&c_into_bits_le(&num, n), jj).linearize(),
                1 => CEdwardsPoint::alloc(&cs, Some(&base)).mul(&c_into_bits_le(&num, n), jj).linearize(),
                2 => CEdwardsPoint::from_scalar(&CNum::alloc(&cs, Some(&v)), jj).linearize(),
                3 => CEdwardsPoint::subgroup_decompress(&CNum::alloc(&cs, Some(&base.x)), jj).linearize(),
                4 => vec![c_comp_constant(&c_into_bits_le(&num, n), Num::from(rng.below(1 << n))).0],
                5 => {
                    // a witness that is no inverse: the synthesis aborts
                    let z = CNum::alloc(&cs, Some(&Num::zero()));
                    vec![&num / &z]
                }
                _ => c_mux3(&c_into_bits_le(&CNum::alloc(&cs, Some(&Num::from(rng.below(8)))), 3), &[(0..8u64).map(|i| v * Num::from(i)).collect()]),
            };
            stream_point();
            out.iter().flat_map(|x| le_bytes(&x.get_value().unwrap().0)).collect::<Vec<u8>>()
        });
        match r {
            Ok(b) => o.extend(b),
            Err(_) => o.push(0xee),
        }
        o.extend((cs.num_constraints() as u64).to_le_bytes());
    }
    Ok(o)
}

fn plain(r: &R) -> R {
    r.clone().map_err(|e| if e.starts_with("panic") { "panicked".to_string() } else { e })
}

fn say(r: &R) -> String {
    match r {
        Ok(b) if b.len() <= 4 => format!("{:?}", b),
        Ok(b) => format!("{} bytes #{:016x}", b.len(), hash_bytes(b)),
        Err(e) => e.clone(),
    }
}

fn run(ctx: &Ctx) -> Outcome {
    let n = ctx.range(2, 5);
    // few kinds of call at a time, so that calls meet their like
    let any = |ctx: &Ctx| {
        if ctx.chance(2, 3) {
            *ctx.pick(&LIGHT)
        } else {
            ctx.below(KINDS.len())
        }
    };
    let menu: Vec<usize> = match ctx.draw(4) {
        0 => (0..KINDS.len()).collect(),
        1 => vec![any(ctx), any(ctx)],
        _ => vec![any(ctx)],
    };
    let side = ctx.draw(3);
    let shared = ctx.u64();
    let faulty = ctx.chance(2, 3);
    let mut plan: Vec<Vec<Call>> = vec![];
    for _ in 0..n {
        let mut v = vec![];
        for _ in 0..ctx.range(1, 3) {
            let mut c = Call {
                kind: *ctx.pick(&menu),
                bls: match side {
                    0 => false,
                    1 => true,
                    _ => ctx.draw(2) == 1,
                },
                seed: if ctx.chance(1, 4) { shared } else { ctx.u64() },
                dies: None,
                panics: None,
                breaks: false,
            };
            if faulty && ctx.chance(1, 2) {
                match c.kind {
                    0 | 1 | 9 => {
                        if c.kind == 9 || ctx.draw(2) == 0 {
                            c.panics = Some(ctx.draw(9));
                        } else {
                            c.dies = Some(ctx.draw(24));
                        }
                    }
                    5 | 6 => c.breaks = true,
                    7 | 11 => c.dies = Some(ctx.draw(12)),
                    _ => {}
                }
            }
            v.push(c);
        }
        plan.push(v);
    }
    for (i, v) in plan.iter().enumerate() {
        ctx.event(format!("caller {}: {}", i, v.iter().map(|c| c.show()).collect::<Vec<_>>().join("; ")));
    }
    // each call alone
    let mut solo: Vec<Vec<R>> = vec![];
    for v in &plan {
        let mut o = vec![];
        for c in v {
            let r = sched::in_fork(|| {
                let r = perform(c);
                let (ok, b) = match r {
                    Ok(b) => (1u8, b),
                    Err(e) => (0, e.into_bytes()),
                };
                (ok, b).try_to_vec().unwrap()
            });
            let r = match r {
                Ok(b) => {
                    let (ok, b) = <(u8, Vec<u8>)>::try_from_slice(&b).expect("HARNESS:solo");
                    if ok == 1 {
                        Ok(b)
                    } else {
                        Err(String::from_utf8_lossy(&b).into_owned())
                    }
                }
                Err(st) => violated!("solo-died", "a call on its own ({}) ended its process with status {:#x}", c.show(), st),
            };
            if let Err(e) = &r {
                if e.contains("HARNESS") {
                    panic!("HARNESS:{}", e);
                }
                match () {
                    _ if c.panics.is_some() && e.contains("caller's circuit") => ctx.fault("abort:circuit_panicked"),
                    _ if c.dies.is_some() => ctx.fault("abort:entropy_failed"),
                    _ if c.breaks => ctx.fault("abort:stream_failed"),
                    _ => ctx.probe("refused without a fault"),
                }
            }
            o.push(r);
        }
        solo.push(o);
    }
    // all at once
    let got: Arc<Mutex<Vec<Vec<R>>>> = Arc::new(Mutex::new(vec![vec![]; n]));
    let mut fs: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (i, v) in plan.iter().cloned().enumerate() {
        let got = got.clone();
        fs.push(Box::new(move || {
            for c in &v {
                sched::doing(mix(c.kind as u64 * 2 + c.bls as u64));
                let r = perform(c);
                got.lock().unwrap()[i].push(r);
            }
        }));
    }
    let scale = [1, 4, 16, 64, 256, 1024, 8192][ctx.below(7)];
    let budget = if ctx.thorough { 4000 } else { 1500 };
    ctx.event(format!("switches after up to {} allocations", scale));
    let fine = [0, 0, 1, 4, 30][ctx.below(5)];
    sched::run_threads(ctx, scale, budget, fine, fs);
    let got = got.lock().unwrap().clone();
    for i in 0..n {
        for (k, c) in plan[i].iter().enumerate() {
            ensure!(plain(&got[i][k]) == plain(&solo[i][k]), "interference", "{} gives {} alone and {} beside the others", c.show(), say(&solo[i][k]), say(&got[i][k]));
            ctx.checked();
        }
    }
    // and afterwards
    for _ in 0..2 {
        let i = ctx.below(n);
        let k = ctx.below(plan[i].len());
        let r = perform(&plan[i][k]);
        ensure!(plain(&r) == plain(&solo[i][k]), "after-effect", "{} gives {} alone and {} after the others are done", plan[i][k].show(), say(&solo[i][k]), say(&r));
        ctx.checked();
    }
    Ok(())
}
