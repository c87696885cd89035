//! Signers, a tree keeper and verifiers on a hostile network.
use super::c13::{params, Par};
use crate::core::*;
use crate::gadget::JJ;
use crate::gen::*;
use crate::net::*;
use crate::refmodel as rm;
use crate::refmodel::Pt;
use crate::runner::World;
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::ecc::JubJubParams;
use fawkes_crypto::native::eddsaposeidon::{eddsaposeidon_sign, eddsaposeidon_verify};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::{poseidon_merkle_proof_root, poseidon_merkle_tree_root, MerkleProof};
use ff::{Field, PrimeField};
use num::bigint::BigUint;
use num::Zero;
use std::collections::HashMap;
use std::rc::Rc;
use typenum::*;

pub const WORLD: World = World {
    id: "C14",
    run,
    quick: 8_000,
    thorough: 2_000_000,
    rule: "a run plays key holders, a keeper of a growing Merkle tree and verifiers over a network that loses, duplicates, delays and cuts, with crashes that lose caches, while a Byzantine relay and a malicious key holder alter, splice, replay and forge messages; non-trivial: at least one message judged; distinct by hash of the delivery and tampering history",
    state_measure: "(curve, hash parameters, tree size, kinds of tampering and verdicts) tuples",
    real: &["native eddsaposeidon sign and verify, curve arithmetic, Poseidon, Merkle tree and proof roots, the JSON and binary codecs of their messages"],
    stub: &["the network, clocks, crashes, the relay and the malicious signer"],
    assumptions: &["membership paths are issued by the reference model: the library has no function for it", "collisions of the hash are not searched for"],
};

fn run(ctx: &Ctx) -> Outcome {
    if ctx.draw(2) == 0 {
        go::<pairing::bn256::Fr>(ctx)
    } else {
        go::<pairing::bls12_381::Fr>(ctx)
    }
}

#[derive(Clone, PartialEq)]
struct Sig<F: JJ> {
    m: F,
    s: BigUint,
    r: F,
    a: F,
}

#[derive(Clone, PartialEq)]
struct Mem<F> {
    leaf: F,
    sib: Vec<F>,
    path: Vec<bool>,
    root: F,
}

#[derive(Clone)]
enum Body {
    Sig { json: bool, bytes: Rc<Vec<u8>> },
    Mem { bytes: Rc<Vec<u8>> },
    Ack(usize),
}

#[derive(Clone)]
struct M {
    sid: usize,
    honest: bool,
    body: Body,
}

type Fs<F> = <<F as JJ>::J as JubJubParams>::Fs;

fn put_sig<F: JJ>(x: &Sig<F>, json: bool) -> Result<Vec<u8>, String> {
    let s = Num::<Fs<F>>(from_big(&x.s));
    let t = (Num(x.m), s, Num(x.r), Num(x.a));
    if json {
        serde_json::to_vec(&t).map_err(|e| e.to_string())
    } else {
        let mut v = vec![];
        t.0.serialize(&mut v).map_err(|e| e.to_string())?;
        t.1.serialize(&mut v).map_err(|e| e.to_string())?;
        t.2.serialize(&mut v).map_err(|e| e.to_string())?;
        t.3.serialize(&mut v).map_err(|e| e.to_string())?;
        Ok(v)
    }
}

fn get_sig<F: JJ>(b: &[u8], json: bool) -> Result<Sig<F>, String> {
    let (m, s, r, a): (Num<F>, Num<Fs<F>>, Num<F>, Num<F>) = if json {
        serde_json::from_slice(b).map_err(|e| e.to_string())?
    } else {
        let mut b = b;
        let m = BorshDeserialize::deserialize(&mut b).map_err(|e| e.to_string())?;
        let s = BorshDeserialize::deserialize(&mut b).map_err(|e| e.to_string())?;
        let r = BorshDeserialize::deserialize(&mut b).map_err(|e| e.to_string())?;
        let a = BorshDeserialize::deserialize(&mut b).map_err(|e| e.to_string())?;
        if !b.is_empty() {
            return Err("trailing".into());
        }
        (m, s, r, a)
    };
    Ok(Sig { m: m.0, s: to_big(&s.0), r: r.0, a: a.0 })
}

const DEPTHS: [usize; 21] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 19, 20, 21, 31, 32, 33, 39, 40, 41];

macro_rules! by_depth {
    ($d:expr, $f:ident, $($arg:expr),*) => {
        match $d {
            0 => $f::<F, U0>($($arg),*),
            1 => $f::<F, U1>($($arg),*),
            2 => $f::<F, U2>($($arg),*),
            3 => $f::<F, U3>($($arg),*),
            4 => $f::<F, U4>($($arg),*),
            5 => $f::<F, U5>($($arg),*),
            6 => $f::<F, U6>($($arg),*),
            7 => $f::<F, U7>($($arg),*),
            8 => $f::<F, U8>($($arg),*),
            15 => $f::<F, U15>($($arg),*),
            16 => $f::<F, U16>($($arg),*),
            17 => $f::<F, U17>($($arg),*),
            19 => $f::<F, U19>($($arg),*),
            20 => $f::<F, U20>($($arg),*),
            21 => $f::<F, U21>($($arg),*),
            31 => $f::<F, U31>($($arg),*),
            32 => $f::<F, U32>($($arg),*),
            33 => $f::<F, U33>($($arg),*),
            39 => $f::<F, U39>($($arg),*),
            40 => $f::<F, U40>($($arg),*),
            41 => $f::<F, U41>($($arg),*),
            d => panic!("HARNESS:depth {}", d),
        }
    };
}

fn put_mem_l<F: JJ, L: Unsigned>(x: &Mem<F>) -> Result<Vec<u8>, String> {
    let p = MerkleProof::<F, L> { sibling: x.sib.iter().map(|v| Num(*v)).collect::<SizedVec<_, L>>(), path: x.path.iter().cloned().collect::<SizedVec<_, L>>() };
    serde_json::to_vec(&(Num(x.leaf), p, Num(x.root))).map_err(|e| e.to_string())
}
fn get_mem_l<F: JJ, L: Unsigned>(b: &[u8], pp: &Par<F>) -> Result<(Mem<F>, bool), String> {
    let (leaf, p, root): (Num<F>, MerkleProof<F, L>, Num<F>) = serde_json::from_slice(b).map_err(|e| e.to_string())?;
    let ok = poseidon_merkle_proof_root(leaf, &p, &pp.lib) == root;
    Ok((Mem { leaf: leaf.0, sib: p.sibling.iter().map(|v| v.0).collect(), path: p.path.iter().cloned().collect(), root: root.0 }, ok))
}

fn lib_verify<F: JJ>(x: &Sig<F>, pp: &Par<F>) -> Result<bool, String> {
    let s = Num::<Fs<F>>(from_big(&x.s));
    guarded(|| eddsaposeidon_verify(s, Num(x.r), Num(x.a), Num(x.m), &pp.lib, F::jj()))
}
fn ref_verify<F: JJ>(x: &Sig<F>, pp: &Par<F>) -> bool {
    rm::verify(&from_big::<Fs<F>>(&x.s), &x.r, &x.a, &x.m, &pp.model, F::curve())
}

/// A key holder that uses points with a part outside the group.
fn forge<F: JJ>(ctx: &Ctx, pp: &Par<F>) -> Sig<F> {
    let c = F::curve();
    let t = F::torsion();
    let mut rng = ctx.prng();
    let (ta, tr) = match ctx.draw(4) {
        0 => (Some(*ctx.pick(t)), None),
        1 => (None, Some(*ctx.pick(t))),
        _ => (Some(*ctx.pick(t)), Some(*ctx.pick(t))),
    };
    let mut k = to_big(&random::<Fs<F>>(&mut rng));
    let mut rho = to_big(&random::<Fs<F>>(&mut rng));
    if ctx.draw(4) == 0 {
        k = BigUint::zero();
    }
    if ctx.draw(6) == 0 {
        rho = BigUint::zero();
    }
    let shift = |p: Pt<F>, t: &Option<Pt<F>>| t.map(|t| c.add(&p, &t)).unwrap_or(p);
    let a = shift(c.mul(&c.g, &k), &ta);
    let r = shift(c.mul(&c.g, &rho), &tr);
    let mut best = None;
    for _ in 0..24 {
        let m: F = random(&mut rng);
        let h = to_big(&rm::challenge(&r.x, &a.x, &m, &pp.model));
        for hh in [h.clone(), &h % &c.order] {
            let mut left = ta.map(|t| c.mul(&t, &hh)).unwrap_or(c.zero());
            left = shift(left, &tr);
            let s = (&rho + &h * &k) % &c.order;
            let x = Sig { m, s, r: r.x, a: a.x };
            if left == c.zero() {
                ctx.probe("forgery_cancels");
                return x;
            }
            best = Some(x);
        }
    }
    best.unwrap()
}

fn go<F: JJ>(ctx: &Ctx) -> Outcome {
    let c = F::curve();
    let std_hash = ctx.draw(3) < 2;
    // signatures hash three values and a salt
    let pp: Rc<Par<F>> = if std_hash { params(4, 8, 54) } else { params(4 + ctx.below(2), *ctx.pick(&[2, 4, 6]), *ctx.pick(&[0, 1, 5])) };
    let n_sign = ctx.range(1, 2);
    let n_ver = ctx.range(1, 2);
    let keeper = n_sign;
    let nodes = n_sign + 1 + n_ver;
    // key holders
    let mut sks: Vec<Fs<F>> = vec![];
    for i in 0..n_sign {
        let sk: Fs<F> = match ctx.draw(6) {
            0 if i > 0 => neg(&sks[0]),
            1 | 2 if i > 0 => add(&sks[0], &pow2(ctx.draw(<Fs<F> as PrimeField>::NUM_BITS as u64))),
            _ => value(ctx),
        };
        sks.push(sk);
    }
    // two more keys whose messages run together with them to the same text, or
    // that changed places with their messages
    let mut alike: Vec<(usize, F)> = vec![];
    if ctx.chance(1, 3) {
        let base = *ctx.pick(&[256u32, 256, 16, 10]);
        let n = 2 + ctx.below(if base == 256 { 28 } else { 60 });
        let text: Vec<u32> = (0..n).map(|_| 1 + ctx.draw(base as u64 - 1) as u32).collect();
        let little = ctx.draw(2) == 0;
        let num = |d: &[u32]| {
            let f = |a: BigUint, x: &u32| a * base + *x;
            if little {
                d.iter().rev().fold(BigUint::zero(), f)
            } else {
                d.iter().fold(BigUint::zero(), f)
            }
        };
        let swap = ctx.draw(2) == 0;
        let cut = |i: usize| {
            let (a, b) = (num(&text[..i]), num(&text[i..]));
            if swap {
                (b, a)
            } else {
                (a, b)
            }
        };
        let (one, two) = if ctx.chance(1, 4) {
            let (a, b) = cut(n / 2);
            ((a.clone(), b.clone()), (b, a))
        } else {
            (cut(1 + ctx.below(n - 1)), cut(1 + ctx.below(n - 1)))
        };
        for (sk, m) in [one, two] {
            alike.push((sks.len(), from_big(&m)));
            sks.push(from_big(&sk));
        }
    }
    let pks: Vec<F> = sks.iter().map(|k| F::jj().edwards_g().mul(Num(*k), F::jj()).x.0).collect();
    for (k, p) in sks.iter().zip(&pks) {
        ensure!(c.mul(&c.g, &to_big(k)).x == *p, "wrong-key", "the public key of a secret key is another point");
    }
    // the tree
    let n_leaves = match ctx.draw(4) {
        0 => 1,
        1 => 2 + ctx.below(3),
        2 => 1 << ctx.below(6),
        _ => 1 + ctx.below(33),
    };
    let mut leaves: Vec<F> = vec![];
    for i in 0..n_leaves {
        let v = if i > 0 && ctx.chance(1, 8) { leaves[i - 1] } else { value(ctx) };
        leaves.push(v);
    }
    ctx.event(format!("{} t={} f={} p={}, {} signers, {} leaves", F::NAME, pp.model.t, pp.model.f, pp.model.p, n_sign, n_leaves));
    let mut sig = format!("{} {} {} {}", F::NAME, pp.model.t, pp.model.f, n_leaves);

    // sessions: a signature or a membership proof to deliver
    enum Job<F> {
        Sign(usize, F),
        Member(usize),
    }
    let n_ses = ctx.range(1, 4);
    let mut jobs: Vec<(Job<F>, usize, bool)> = vec![];
    for _ in 0..n_ses {
        let to = n_sign + 1 + ctx.below(n_ver);
        let j = if ctx.draw(3) < 2 {
            let last = jobs.iter().rev().find_map(|j| if let Job::Sign(_, m) = &j.0 { Some(*m) } else { None });
            let m: F = match (ctx.draw(5), last) {
                (0, Some(l)) => add(&l, &pow2(ctx.draw(F::NUM_BITS as u64))),
                (1, Some(l)) => l,
                _ => value(ctx),
            };
            Job::Sign(ctx.below(n_sign), m)
        } else {
            Job::Member(ctx.below(leaves.len()))
        };
        jobs.push((j, to, false));
    }
    let calm = 300;
    let bound = 1500;
    let mut net: Net<M> = Net::new(ctx, nodes, calm);
    let hostile = ctx.draw(5) < 4;
    let retry = *ctx.pick(&[15u64, 40, 80]);
    for n in 0..nodes {
        net.timer(n, 1, 0);
    }
    // what was signed, over the whole history: key, message -> s, r
    let mut signed: HashMap<(String, String), (BigUint, F)> = HashMap::new();
    let mut nonce: HashMap<String, (String, String)> = HashMap::new();
    let mut cache: HashMap<usize, Sig<F>> = HashMap::new();
    // signs and judges the signature against the whole history
    let mut sign = |w: usize, m: &F| -> Result<Sig<F>, Violation> {
        let r = guarded(|| eddsaposeidon_sign(Num(sks[w]), Num(*m), &pp.lib, F::jj()));
        ctx.op();
        let (s, r) = match r {
            Ok((s, r)) => (to_big(&s.0), r.0),
            Err(e) => violated!("sign-panic", "signing panicked: {}", e),
        };
        let key = (dec(&sks[w]), dec(m));
        ctx.checked();
        if let Some(o) = signed.get(&key) {
            ensure!(*o == (s.clone(), r), "not-deterministic", "the same key signed the same message differently");
        }
        if let Some(o) = nonce.get(&dec(&r)) {
            ensure!(*o == key, "nonce-reuse", "two different signatures share their nonce point");
        }
        nonce.insert(dec(&r), key.clone());
        signed.insert(key, (s.clone(), r));
        Ok(Sig { m: *m, s, r, a: pks[w] })
    };
    for (w, m) in &alike {
        sign(*w, m)?;
    }
    // key holders have signed related messages before
    if ctx.draw(3) == 0 {
        let base: F = value(ctx);
        for _ in 0..ctx.range(2, 8) {
            let m = match ctx.draw(3) {
                0 => base,
                1 => add(&base, &pow2(ctx.draw(F::NUM_BITS as u64))),
                _ => neg(&base),
            };
            sign(ctx.below(n_sign), &m)?;
        }
    }
    let mut heard_s: Vec<Sig<F>> = vec![];
    let mut heard_m: Vec<Mem<F>> = vec![];
    let mut budget = 24;
    while let Some(ev) = net.next() {
        if jobs.iter().all(|j| j.2) {
            break;
        }
        if net.now > calm + bound {
            violated!("no-progress", "a session is still open {} ticks after the network calmed", bound);
        }
        match ev {
            Ev::Crash { node } => {
                ctx.event(format!("{}: node {} crashes", net.now, node));
                cache.retain(|sid, _| !matches!(&jobs[*sid].0, Job::Sign(w, _) if *w == node));
            }
            Ev::Restart { node } => net.timer(node, 1, 0),
            Ev::Calm => ctx.event(format!("{}: calm", net.now)),
            Ev::Timer { node, tag, .. } => {
                if tag == 1 {
                    continue;
                }
                if node == keeper && ctx.chance(1, 6) && leaves.len() < 60 {
                    // the tree grows: proofs issued before are for another root
                    leaves.push(value(ctx));
                }
                let mut open = false;
                for sid in 0..jobs.len() {
                    if jobs[sid].2 {
                        continue;
                    }
                    let to = jobs[sid].1;
                    match &jobs[sid].0 {
                        Job::Sign(w, m) if *w == node => {
                            open = true;
                            if !cache.contains_key(&sid) {
                                cache.insert(sid, sign(node, m)?);
                            }
                            let x = cache[&sid].clone();
                            let json = ctx.draw(2) == 0;
                            let bytes = match guarded(|| put_sig(&x, json)) {
                                Ok(Ok(b)) => Rc::new(b),
                                e => violated!("encode", "a signature does not encode: {:?}", e.map(|r| r.err())),
                            };
                            net.send(node, to, M { sid, honest: true, body: Body::Sig { json, bytes } });
                            if heard_s.len() < 8 {
                                heard_s.push(x);
                            }
                        }
                        Job::Member(i) if node == keeper => {
                            open = true;
                            let root = match guarded(|| poseidon_merkle_tree_root(&leaves.iter().map(|v| Num(*v)).collect::<Vec<_>>(), &pp.lib)) {
                                Ok(r) => r.0,
                                Err(e) => violated!("root-panic", "the root of {} leaves panicked: {}", leaves.len(), e),
                            };
                            let mut depth = 0;
                            while 1 << depth < leaves.len() {
                                depth += 1;
                            }
                            let (mut sib, mut path) = pp.model.merkle_path(&leaves, depth, *i);
                            let mut root = root;
                            if ctx.chance(1, 6) {
                                // the tree is a branch of a taller one
                                depth = *ctx.pick(&[8usize, 16, 20, 32, 40]);
                                let mut g = ctx.prng();
                                while sib.len() < depth {
                                    let s = match g.next() % 12 {
                                        0 => leaves[*i],
                                        1 => F::zero(),
                                        2 => root,
                                        3 if !sib.is_empty() => sib[g.next() as usize % sib.len()],
                                        _ => random::<F>(&mut g),
                                    };
                                    let p = g.next() & 1 == 1;
                                    root = pp.model.hash(&if p { [s, root] } else { [root, s] });
                                    sib.push(s);
                                    path.push(p);
                                }
                            }
                            let x = Mem { leaf: leaves[*i], sib, path, root };
                            let bytes = match guarded(|| by_depth!(depth, put_mem_l, &x)) {
                                Ok(Ok(b)) => Rc::new(b),
                                e => violated!("encode", "a membership proof does not encode: {:?}", e.map(|r| r.err())),
                            };
                            net.send(node, to, M { sid, honest: true, body: Body::Mem { bytes } });
                            if heard_m.len() < 8 {
                                heard_m.push(x);
                            }
                        }
                        _ => {}
                    }
                }
                if open {
                    net.timer(node, retry, 0);
                }
                if !hostile || budget == 0 {
                    continue;
                }
                // the relay and the malicious key holder speak as well
                let to = n_sign + 1 + ctx.below(n_ver);
                if ctx.draw(4) == 0 {
                    budget -= 1;
                    let x = forge(ctx, &pp);
                    ctx.fault("relay:forge_outside_group");
                    let json = ctx.draw(2) == 0;
                    if let Ok(Ok(b)) = guarded(|| put_sig(&x, json)) {
                        net.send(node, to, M { sid: 99, honest: false, body: Body::Sig { json, bytes: Rc::new(b) } });
                    }
                }
                if !heard_s.is_empty() && ctx.draw(2) == 0 {
                    budget -= 1;
                    let mut x = heard_s[ctx.below(heard_s.len())].clone();
                    let o = heard_s[ctx.below(heard_s.len())].clone();
                    let pt = |ctx: &Ctx, x: &F| -> F {
                        match ctx.draw(6) {
                            0 => neg(x),
                            1 => add(x, &F::one()),
                            2 => F::zero(),
                            3 => ctx.pick(F::torsion()).x,
                            4 => c.decompress(x).map(|p| c.add(&p, ctx.pick(F::torsion())).x).unwrap_or_else(F::one),
                            _ => value(ctx),
                        }
                    };
                    let kind = match ctx.draw(10) {
                        0 => {
                            x.m = if ctx.draw(2) == 0 { o.m } else { add(&x.m, &value(ctx)) };
                            "message"
                        }
                        1 => {
                            x.r = pt(ctx, &x.r);
                            "nonce_point"
                        }
                        2 => {
                            x.a = pt(ctx, &x.a);
                            "public_key"
                        }
                        3 => {
                            x.s = match ctx.draw(4) {
                                0 => BigUint::zero(),
                                1 => (&x.s + 1u32) % &c.order,
                                2 => (&c.order - &x.s) % &c.order,
                                _ => to_big(&value::<Fs<F>>(ctx)),
                            };
                            "scalar"
                        }
                        4 => {
                            x.s = o.s;
                            "splice_scalar"
                        }
                        5 => {
                            x.r = o.r;
                            "splice_nonce_point"
                        }
                        6 => {
                            x.a = o.a;
                            "splice_public_key"
                        }
                        7 => {
                            // the same equation, all signs turned
                            x.s = (&c.order - &x.s) % &c.order;
                            x.r = neg(&x.r);
                            x.a = neg(&x.a);
                            "negate_all"
                        }
                        8 => {
                            std::mem::swap(&mut x.a, &mut x.r);
                            "swap_key_and_nonce"
                        }
                        _ => "replay",
                    };
                    ctx.fault(&format!("relay:{}", kind));
                    sig += kind;
                    let json = ctx.draw(2) == 0;
                    if let Ok(Ok(mut b)) = guarded(|| put_sig(&x, json)) {
                        if ctx.chance(1, 6) {
                            let i = ctx.below(b.len());
                            b[i] ^= 1 << ctx.draw(8);
                            ctx.fault("relay:flip_bit");
                        }
                        net.send(node, to, M { sid: 99, honest: false, body: Body::Sig { json, bytes: Rc::new(b) } });
                    }
                }
                if !heard_m.is_empty() && ctx.draw(2) == 0 {
                    budget -= 1;
                    let mut x = heard_m[ctx.below(heard_m.len())].clone();
                    let o = heard_m[ctx.below(heard_m.len())].clone();
                    let d = x.sib.len();
                    let kind = match ctx.draw(8) {
                        0 => {
                            x.leaf = if ctx.draw(2) == 0 { o.leaf } else { value(ctx) };
                            "leaf"
                        }
                        1 if d > 0 => {
                            let i = ctx.below(d);
                            x.sib[i] = value(ctx);
                            "sibling"
                        }
                        2 if d > 0 => {
                            let i = ctx.below(d);
                            x.path[i] = !x.path[i];
                            "position"
                        }
                        3 => {
                            x.root = if ctx.draw(2) == 0 { o.root } else { value(ctx) };
                            "root"
                        }
                        4 if d > 0 => {
                            // an inner node passed off as a leaf
                            let (l, s, p) = (x.leaf, x.sib.remove(0), x.path.remove(0));
                            x.leaf = if p { pp.model.hash(&[s, l]) } else { pp.model.hash(&[l, s]) };
                            "inner_node_as_leaf"
                        }
                        5 if d > 0 => {
                            x.sib.pop();
                            x.path.pop();
                            "shorten"
                        }
                        6 if DEPTHS.contains(&(d + 1)) => {
                            x.sib.push(F::zero());
                            x.path.push(false);
                            "lengthen"
                        }
                        7 if d > 1 => {
                            x.sib.swap(0, d - 1);
                            "swap_siblings"
                        }
                        _ => "replay",
                    };
                    ctx.fault(&format!("relay:{}", kind));
                    sig += kind;
                    let d = x.sib.len();
                    if !DEPTHS.contains(&d) {
                        continue;
                    }
                    if let Ok(Ok(b)) = guarded(|| by_depth!(d, put_mem_l, &x)) {
                        net.send(node, to, M { sid: 99, honest: false, body: Body::Mem { bytes: Rc::new(b) } });
                    }
                }
            }
            Ev::Msg { from, to, m } => match m.body {
                Body::Ack(sid) => jobs[sid].2 = true,
                Body::Sig { json, bytes } => {
                    let x = match guarded(|| get_sig::<F>(&bytes, json)) {
                        Ok(Ok(x)) => x,
                        e => {
                            ensure!(!m.honest, "message-refused", "an honest signature does not decode: {:?}", e.map(|r| r.err()));
                            continue;
                        }
                    };
                    let got = match lib_verify(&x, &pp) {
                        Ok(v) => v,
                        Err(e) => {
                            ensure!(!m.honest, "verify-panic", "verifying an honest signature panicked: {}", e);
                            false
                        }
                    };
                    ctx.op();
                    ctx.checked();
                    ctx.event(format!("{}: signature at {} honest {} -> {}", net.now, to, m.honest, got));
                    sig += if got { "+" } else { "-" };
                    if m.honest {
                        ensure!(got, "honest-rejected", "an honest signature was refused");
                        net.send(to, from, M { sid: m.sid, honest: true, body: Body::Ack(m.sid) });
                    } else {
                        let want = ref_verify(&x, &pp);
                        ctx.probe(if want { "tampered_valid" } else { "tampered_invalid" });
                        ensure!(want || !got, "accepted-false", "a signature that does not hold was accepted");
                        ensure!(!want || got, "refused-true", "a signature that holds was refused");
                    }
                }
                Body::Mem { bytes } => {
                    // the depth is part of the context the verifier knows
                    let d = match depth_of(&bytes) {
                        Some(d) => d,
                        None => continue,
                    };
                    let (x, got) = match guarded(|| by_depth!(d, get_mem_l, &bytes, &pp)) {
                        Ok(Ok(x)) => x,
                        e => {
                            ensure!(!m.honest, "message-refused", "an honest membership proof does not decode: {:?}", e.map(|r| r.err()));
                            continue;
                        }
                    };
                    ctx.op();
                    ctx.checked();
                    ctx.event(format!("{}: membership at {} honest {} -> {}", net.now, to, m.honest, got));
                    sig += if got { "+" } else { "-" };
                    if m.honest {
                        ensure!(got, "honest-rejected", "a membership proof issued for a leaf does not lead to the root");
                        net.send(to, from, M { sid: m.sid, honest: true, body: Body::Ack(m.sid) });
                    }
                    let want = pp.model.merkle_proof_root(&x.leaf, &x.sib, &x.path) == x.root;
                    if !m.honest {
                        ctx.probe(if want { "tampered_valid" } else { "tampered_invalid" });
                    }
                    ensure!(want || !got, "accepted-false", "a membership proof that does not lead to the root was accepted");
                    ensure!(!want || got, "refused-true", "a membership proof that leads to the root was refused");
                }
            },
        }
    }
    ctx.checked();
    ensure!(jobs.iter().all(|j| j.2), "no-progress", "the network went quiet with a session open");
    ctx.state(hash_str(&sig));
    Ok(())
}

fn depth_of(b: &[u8]) -> Option<usize> {
    let v: serde_json::Value = serde_json::from_slice(b).ok()?;
    let d = v.get(1)?.get("sibling")?.as_array()?.len();
    if DEPTHS.contains(&d) {
        Some(d)
    } else {
        None
    }
}
