//! Setup authority, provers and verifiers on a faulty network.
use crate::cli::read_params;
use crate::core::*;
use crate::engines::*;
use crate::gen::*;
use crate::net::*;
use crate::prog::*;
use crate::runner::World;
use crate::wire::*;
use crate::zk::*;
use bellman::groth16::Parameters;
use fawkes_crypto::helpers::groth16::prover::Proof;
use fawkes_crypto::helpers::groth16::verifier::{truncate_verifying_key, verify, TruncatedVerifyingKey};
use std::rc::Rc;

pub const WORLD: World = World {
    id: "C09",
    run,
    quick: 2_000,
    thorough: 400_000,
    rule: "a run draws a circuit (a random program of gadgets or the composite statement) and honest sessions, and plays a setup authority, provers and verifiers over a network that loses, duplicates, delays and cuts, with crashing nodes and skewed timers; non-trivial: at least one verdict checked; distinct by hash of the circuit and the delivery history",
    state_measure: "(engine, gadget forms, public input count, encoding, history length class) tuples",
    real: &["circuit gadgets, Groth16CS, generate_keys, prove, truncate_verifying_key, verify, all codecs, the proving backend"],
    stub: &["the network, clocks, node crashes and the entropy source"],
    assumptions: &["every private variable of the circuit is in some constraint and there is one: the backend refuses setup otherwise", "parameters travel in the backend's own encoding"],
};

fn run(ctx: &Ctx) -> Outcome {
    if ctx.draw(4) < 3 {
        go::<pairing::bn256::Bn256>(ctx)
    } else {
        go::<pairing::bls12_381::Bls12>(ctx)
    }
}

#[derive(Clone)]
enum M {
    GetParams,
    Params(Rc<Vec<u8>>),
    GetKey(Enc),
    Key(Enc, Rc<Vec<u8>>),
    Proof { sid: usize, enc: Enc, proof: Rc<Vec<u8>>, inputs: Rc<Vec<u8>> },
    Verdict { sid: usize, ok: bool },
}

struct Session<F: Home> {
    prover: usize,
    verifier: usize,
    wit: Wit<F>,
    inputs: Vec<F>,
    enc: Enc,
    done: bool,
}

const CALM: u64 = 600;
const BOUND: u64 = 2500;

fn go<E: Eng>(ctx: &Ctx) -> Outcome
where
    E::Fr: Home,
{
    let prog = if ctx.draw(4) < 3 {
        let heavy = ctx.chance(1, 10);
        let steps = ctx.below(5);
        draw_prog::<E::Fr>(ctx, steps, heavy)
    } else {
        None
    };
    let n_sess = ctx.range(1, 3);
    let mut jobs: Vec<(Wit<E::Fr>, Vec<E::Fr>)> = vec![];
    let name;
    let shape = Rc::new(match prog {
        Some(p) => {
            let ops: Vec<String> = p.ops.iter().map(op_name).collect();
            name = format!("{} program {:?} {} inputs", E::NAME, ops, p.publics.len());
            for _ in 0..n_sess {
                jobs.push((Wit::Own, p.publics.clone()));
            }
            Shape::Prog(p)
        }
        None => {
            name = format!("{} statement", E::NAME);
            for _ in 0..n_sess {
                let x: E::Fr = value(ctx);
                let y: E::Fr = if ctx.chance(1, 4) { x } else { value(ctx) };
                let (p0, p1) = (ctx.draw(2) == 1, ctx.draw(2) == 1);
                jobs.push(statement_wit(&x, &y, p0, p1));
            }
            Shape::Statement
        }
    });
    ctx.event(name.clone());
    // setup without a witness and proving with one lay out the same system
    let bare = match guarded(|| record(&Job { shape: shape.clone(), wit: None, tick: None })) {
        Ok(r) => r,
        Err(m) => violated!("setup-panic", "laying out the circuit without a witness panicked: {}", m),
    };
    for (w, pubs) in &jobs {
        let r = match guarded(|| record(&Job { shape: shape.clone(), wit: Some(w.clone()), tick: None })) {
            Ok(r) => r,
            Err(m) => violated!("prove-panic", "laying out the circuit with an honest witness panicked: {}", m),
        };
        ensure!(r.cons == bare.cons && r.public == bare.public && r.vals.len() == bare.vals.len(), "layout-differs", "setup lays out {} variables and {} constraints, proving {} and {}, or other ones", bare.vals.len(), bare.cons.len(), r.vals.len(), r.cons.len());
        let got: Vec<Option<E::Fr>> = r.public.iter().map(|i| r.vals[*i]).collect();
        ensure!(got.len() == pubs.len() && got.iter().zip(pubs).all(|(a, b)| a.as_ref() == Some(b)), "wrong-publics", "the circuit declares {} public inputs in another order or with other values than the {} of its statement", got.len(), pubs.len());
        ctx.checked();
    }
    if !all_bound(&bare) || bare.vals.len() == 1 + bare.public.len() {
        ctx.probe("refused_by_backend");
        return Ok(());
    }
    let np = ctx.range(1, 2);
    let nv = ctx.range(1, 2);
    let nodes = 1 + np + nv;
    let mut ses: Vec<Session<E::Fr>> = jobs
        .into_iter()
        .map(|(wit, inputs)| Session { prover: 1 + ctx.below(np), verifier: 1 + np + ctx.below(nv), wit, inputs, enc: *ctx.pick(&ENCS), done: false })
        .collect();
    ctx.state(hash_str(&format!("{} {:?}", name, ses.iter().map(|s| format!("{:?}", s.enc)).collect::<Vec<_>>())));
    // the authority's disk
    let setup_seed = ctx.u64();
    let disk: Rc<Vec<u8>> = match guarded(|| {
        let p = keys::<E>(&shape, setup_seed);
        let mut w = vec![];
        p.write(&mut w).unwrap();
        w
    }) {
        Ok(w) => Rc::new(w),
        Err(m) => violated!("setup-panic", "key generation panicked: {}", m),
    };
    ctx.op();

    let mut net: Net<M> = Net::new(ctx, nodes, CALM);
    let retry = *ctx.pick(&[15u64, 40, 90]);
    let mut params: Vec<Option<Rc<Parameters<E>>>> = vec![None; nodes];
    let mut vkeys: Vec<Option<Rc<TruncatedVerifyingKey<E>>>> = vec![None; nodes];
    let mut auth: Option<TruncatedVerifyingKey<E>> = None;
    // proofs in volatile memory, per session
    let mut made: Vec<Option<(Rc<Vec<u8>>, Rc<Vec<u8>>)>> = vec![None; ses.len()];
    for n in 1..nodes {
        net.timer(n, 1, 0);
    }
    let mut steps = 0u32;
    while let Some(ev) = net.next() {
        steps += 1;
        if ses.iter().all(|s| s.done) {
            break;
        }
        if net.now > CALM + BOUND {
            let s = ses.iter().position(|s| !s.done).unwrap();
            violated!("no-progress", "session {} has no verdict {} ticks after the network calmed", s, BOUND);
        }
        match ev {
            Ev::Crash { node } => {
                ctx.event(format!("{}: node {} crashes", net.now, node));
                params[node] = None;
                vkeys[node] = None;
                if node == 0 {
                    auth = None;
                }
                for (i, s) in ses.iter().enumerate() {
                    if s.prover == node {
                        made[i] = None;
                    }
                }
            }
            Ev::Restart { node } => {
                ctx.event(format!("{}: node {} restarts", net.now, node));
                net.timer(node, 1, 0);
            }
            Ev::Calm => ctx.event(format!("{}: calm", net.now)),
            Ev::Timer { node, .. } => {
                if node > 0 && node <= np {
                    let mine: Vec<usize> = (0..ses.len()).filter(|i| ses[*i].prover == node && !ses[*i].done).collect();
                    if !mine.is_empty() {
                        match params[node].clone() {
                            None => net.send(node, 0, M::GetParams),
                            Some(p) => {
                                for i in mine {
                                    if made[i].is_none() {
                                        let seed = ctx.u64();
                                        let s = &ses[i];
                                        let j = Job { shape: shape.clone(), wit: Some(s.wit.clone()), tick: None };
                                        let proof = match guarded(|| prove_with::<E>(&j, &p, seed)) {
                                            Ok(p) => p,
                                            Err(m) => violated!("prove-panic", "proving an honest witness panicked: {}", m),
                                        };
                                        ctx.op();
                                        let b = match put_proof(ctx, &proof, s.enc) {
                                            Ok(b) => b,
                                            Err(m) => violated!("encode", "an honest proof does not encode as {:?}: {}", s.enc, m),
                                        };
                                        let inp = match put_inputs::<E>(&s.inputs, s.enc) {
                                            Ok(b) => b,
                                            Err(m) => violated!("encode", "honest inputs do not encode as {:?}: {}", s.enc, m),
                                        };
                                        made[i] = Some((Rc::new(b), Rc::new(inp)));
                                    }
                                    let (b, inp) = made[i].clone().unwrap();
                                    let (v, enc) = (ses[i].verifier, ses[i].enc);
                                    net.send(node, v, M::Proof { sid: i, enc, proof: b, inputs: inp });
                                }
                            }
                        }
                        net.timer(node, retry, 0);
                    }
                } else if node > np && vkeys[node].is_none() {
                    net.send(node, 0, M::GetKey(*ctx.pick(&ENCS)));
                    net.timer(node, retry, 0);
                }
            }
            Ev::Msg { from, to, m } => match m {
                M::GetParams => net.send(to, from, M::Params(disk.clone())),
                M::Params(b) => {
                    if params[to].is_none() {
                        params[to] = Some(Rc::new(read_params::<E>(&b).expect("HARNESS:params")));
                    }
                }
                M::GetKey(e) => {
                    if auth.is_none() {
                        let p = read_params::<E>(&disk).expect("HARNESS:params");
                        auth = Some(truncate_verifying_key(&p.vk));
                    }
                    match put_key(ctx, auth.as_ref().unwrap(), e) {
                        Ok(b) => net.send(to, from, M::Key(e, Rc::new(b))),
                        Err(m) => violated!("encode", "an honest key does not encode as {:?}: {}", e, m),
                    }
                }
                M::Key(e, b) => {
                    if vkeys[to].is_none() {
                        match get_key::<E>(ctx, &b, e) {
                            Ok(k) => vkeys[to] = Some(Rc::new(k)),
                            Err(m) => violated!("key-refused", "an honest key in {:?} form was refused: {}", e, m),
                        }
                    }
                }
                M::Proof { sid, enc, proof, inputs } => {
                    let k = match vkeys[to].clone() {
                        Some(k) => k,
                        None => continue,
                    };
                    let p: Proof<E> = match get_proof(ctx, &proof, enc) {
                        Ok(p) => p,
                        Err(m) => violated!("proof-refused", "an honest proof in {:?} form was refused: {}", enc, m),
                    };
                    let i = match get_inputs::<E>(&inputs, enc) {
                        Ok(i) => i,
                        Err(m) => violated!("inputs-refused", "honest inputs in {:?} form were refused: {}", enc, m),
                    };
                    let v = guarded(|| verify(&k, &p, &i));
                    ctx.op();
                    ctx.checked();
                    match v {
                        Ok(Ok(true)) => {}
                        other => violated!("honest-rejected", "session {}: an honest proof with {} inputs sent as {:?} was not accepted: {:?}", sid, i.len(), enc, other.map(|r| r.map_err(|e| e.to_string()))),
                    }
                    ctx.event(format!("{}: verifier {} accepts session {}", net.now, to, sid));
                    net.send(to, from, M::Verdict { sid, ok: true });
                }
                M::Verdict { sid, ok } => {
                    if ok {
                        ses[sid].done = true;
                    }
                }
            },
        }
    }
    ctx.checked();
    ensure!(ses.iter().all(|s| s.done), "no-progress", "the network went quiet with a session open");
    ctx.probe_n("deliveries", net.delivered);
    ctx.probe_n("steps", steps as u64);
    Ok(())
}
