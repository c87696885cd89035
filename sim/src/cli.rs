//! Histories of command line calls on a simulated machine: the four programs
//! of `bind`, their files, a reference reader for each file format, and the
//! checks of C06 and C07.
use crate::bind;
use crate::core::*;
use crate::engines::*;
use crate::gen::*;
use crate::simos::{self, CallReport, Entropy, FaultCfg, IoKind};
use crate::worlds::c03::{ref_dec, ref_enc, Sch};
use crate::worlds::c04::{judge, mutate, num, proofd, tvkd, Verdict, J};
use crate::worlds::c05::from_coords;
use bellman::groth16::{prepare_verifying_key, verify_proof, Parameters, Proof, VerifyingKey};
use fawkes_crypto::helpers::groth16::verifier::{TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use ff::PrimeField;
use num::bigint::BigUint;
use pairing::bls12_381::Bls12;
use pairing::bn256::Bn256;
use pairing::{CurveAffine, Engine};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Prog {
    Eth,
    Waves,
    WavesBn,
    Near,
}
use Prog::*;

/// What a reader of a file must make of it.
pub enum Seen<T> {
    Must(T),
    May(T),
    No,
}

impl<T> Seen<T> {
    pub fn val(&self) -> Option<&T> {
        match self {
            Seen::Must(t) | Seen::May(t) => Some(t),
            Seen::No => None,
        }
    }
    pub fn must(&self) -> Option<&T> {
        match self {
            Seen::Must(t) => Some(t),
            _ => None,
        }
    }
    pub fn is_no(&self) -> bool {
        matches!(self, Seen::No)
    }
}

fn seen<T>(strict: bool, t: Option<T>) -> Seen<T> {
    match t {
        Some(t) if strict => Seen::Must(t),
        Some(t) => Seen::May(t),
        None => Seen::No,
    }
}

fn unbase64(b: &[u8]) -> Option<(Vec<u8>, bool)> {
    let s = std::str::from_utf8(b).ok()?;
    if let Ok(v) = base64::decode(s) {
        return Some((v, true));
    }
    base64::decode(s.trim()).ok().map(|v| (v, false))
}

pub fn parse_json(j: &J, b: &[u8]) -> Seen<Value> {
    let s = match std::str::from_utf8(b) {
        Ok(s) => s,
        Err(_) => return Seen::No,
    };
    match serde_json::from_str::<Value>(s) {
        Ok(v) => match judge(j, &v) {
            Verdict::Must(v) => Seen::Must(v),
            Verdict::May(v) => Seen::May(v),
            Verdict::No => Seen::No,
        },
        Err(_) => Seen::No,
    }
}

pub fn leaves(v: &Value, out: &mut Vec<BigUint>) {
    match v {
        Value::String(s) => out.push(s.parse().unwrap()),
        Value::Array(a) => a.iter().for_each(|x| leaves(x, out)),
        _ => panic!("HARNESS:leaves"),
    }
}

/// Coordinates of one point given in JSON (c1 before c0), low component first.
pub fn jcoords(v: &Value) -> Vec<BigUint> {
    let mut o = vec![];
    leaves(v, &mut o);
    if o.len() == 4 {
        o.swap(0, 1);
        o.swap(2, 3);
    }
    o
}

pub fn tvk_from_coords<E: Engine>(pts: &[Vec<BigUint>]) -> Option<TruncatedVerifyingKey<E>> {
    let w = fq_bytes::<E>();
    Some(TruncatedVerifyingKey {
        alpha_g1: from_coords(&pts[0], w)?,
        beta_g2: from_coords(&pts[1], w)?,
        gamma_g2: from_coords(&pts[2], w)?,
        delta_g2: from_coords(&pts[3], w)?,
        ic: pts[4..].iter().map(|p| from_coords(p, w)).collect::<Option<_>>()?,
    })
}

pub fn proof_from_coords<E: Engine>(pts: &[Vec<BigUint>]) -> Option<Proof<E>> {
    let w = fq_bytes::<E>();
    Some(Proof { a: from_coords(&pts[0], w)?, b: from_coords(&pts[1], w)?, c: from_coords(&pts[2], w)? })
}

/// Splits numbers in wire order into points of the given sizes.
pub fn split(v: &[BigUint], sizes: &[usize]) -> Vec<Vec<BigUint>> {
    let mut at = 0;
    sizes
        .iter()
        .map(|n| {
            let r = v[at..at + n].to_vec();
            at += n;
            r
        })
        .collect()
}

pub fn read_tvk<E: Engine>(p: Prog, b: &[u8]) -> Seen<TruncatedVerifyingKey<E>> {
    match p {
        Eth => {
            let s = parse_json(&tvkd(num::<E::Fq>()), b);
            let pts = |v: &Value| -> Option<TruncatedVerifyingKey<E>> {
                let mut ps: Vec<_> = ["alpha_g1", "beta_g2", "gamma_g2", "delta_g2"].iter().map(|k| jcoords(&v[k])).collect();
                ps.extend(v["ic"].as_array().unwrap().iter().map(jcoords));
                tvk_from_coords(&ps)
            };
            match &s {
                Seen::No => Seen::No,
                Seen::Must(v) => seen(true, pts(v)),
                Seen::May(v) => seen(false, pts(v)),
            }
        }
        Near => match unbase64(b) {
            None => Seen::No,
            Some((d, strict)) => match ref_dec(Sch::Tvk(false), &d) {
                Some((v, n)) if n == d.len() => {
                    let mut sizes = vec![2, 4, 4, 4];
                    sizes.extend(vec![2; (v.len() - 14) / 2]);
                    seen(strict, tvk_from_coords(&split(&v, &sizes)))
                }
                _ => Seen::No,
            },
        },
        _ => match unbase64(b) {
            None => Seen::No,
            Some((d, strict)) => seen(strict, dec_tvk::<E>(&d)),
        },
    }
}

pub fn read_proof<E: Engine>(p: Prog, b: &[u8]) -> Seen<Proof<E>> {
    match p {
        Eth => {
            let s = parse_json(&proofd(num::<E::Fq>()), b);
            let pts = |v: &Value| -> Option<Proof<E>> { proof_from_coords(&["a", "b", "c"].iter().map(|k| jcoords(&v[k])).collect::<Vec<_>>()) };
            match &s {
                Seen::No => Seen::No,
                Seen::Must(v) => seen(true, pts(v)),
                Seen::May(v) => seen(false, pts(v)),
            }
        }
        Near => match unbase64(b) {
            None => Seen::No,
            Some((d, strict)) => match ref_dec(Sch::Proof(false), &d) {
                Some((v, n)) if n == d.len() => seen(strict, proof_from_coords(&split(&v, &[2, 4, 2]))),
                _ => Seen::No,
            },
        },
        _ => match unbase64(b) {
            None => Seen::No,
            // the stream reader takes one proof and leaves the rest
            Some((d, strict)) => seen(strict && d.len() == proof_size::<E>(), dec_proof::<E>(&d)),
        },
    }
}

pub fn read_inputs<E: Engine>(p: Prog, b: &[u8]) -> Seen<Vec<E::Fr>> {
    let fr = |v: Vec<BigUint>| -> Option<Vec<E::Fr>> {
        let m = modulus::<E::Fr>();
        v.iter().map(|x| if *x < m { Some(from_big::<E::Fr>(x)) } else { None }).collect()
    };
    match p {
        Eth => match parse_json(&J::Seq(Box::new(num::<E::Fr>())), b) {
            Seen::No => Seen::No,
            s => {
                let mut o = vec![];
                leaves(s.val().unwrap(), &mut o);
                seen(s.must().is_some(), fr(o))
            }
        },
        Near => match unbase64(b) {
            None => Seen::No,
            Some((d, strict)) => match ref_dec(Sch::L(0), &d) {
                Some((v, n)) if n == d.len() => seen(strict, fr(v)),
                _ => Seen::No,
            },
        },
        _ => match unbase64(b) {
            Some((d, strict)) if d.len() % 32 == 0 => seen(strict, fr(d.chunks(32).map(BigUint::from_bytes_be).collect())),
            _ => Seen::No,
        },
    }
}

/// A witness object: numbers of the public part in input order, the secret
/// part, and whether they satisfy the statement.
pub struct Object<F> {
    pub inputs: Vec<F>,
    pub sat: bool,
    pub json: Value,
}

fn object_schema<F: PrimeField>() -> J {
    let n = num::<F>();
    J::Tup(vec![
        J::Obj(vec![("a", n.clone()), ("flag", J::B), ("v", J::Fixed(Box::new(n.clone()), 2)), ("b", n.clone())]),
        J::Obj(vec![("x", n.clone()), ("y", n), ("p", J::Fixed(Box::new(J::B), 2))]),
    ])
}

fn fr_of<F: PrimeField>(v: &Value) -> F {
    from_big(&v.as_str().unwrap().parse().unwrap())
}

pub fn read_object<F: PrimeField>(b: &[u8]) -> Seen<Object<F>> {
    let s = parse_json(&object_schema::<F>(), b);
    let mk = |v: &Value| {
        let (p, q) = (&v[0], &v[1]);
        let bit = |x: &Value| x.as_bool().unwrap();
        let (a, bb, x, y): (F, F, F, F) = (fr_of(&p["a"]), fr_of(&p["b"]), fr_of(&q["x"]), fr_of(&q["y"]));
        let (v0, v1): (F, F) = (fr_of(&p["v"][0]), fr_of(&p["v"][1]));
        let flag = bit(&p["flag"]);
        let want = pub_for(&x, &y, bit(&q["p"][0]), bit(&q["p"][1]));
        let inputs = vec![a, if flag { F::one() } else { F::zero() }, v0, v1, bb];
        Object { sat: inputs == want, inputs, json: v.clone() }
    };
    match &s {
        Seen::Must(v) => Seen::Must(mk(v)),
        Seen::May(v) => Seen::May(mk(v)),
        Seen::No => Seen::No,
    }
}

/// The public inputs that go with a secret, in order.
pub fn pub_for<F: PrimeField>(x: &F, y: &F, p0: bool, p1: bool) -> Vec<F> {
    let a = add(&mul(x, y), &small(bind::K));
    let b = add(x, &mul(y, &small(3)));
    let flag = if x == y { F::one() } else { F::zero() };
    let v0 = if p0 { *x } else { *y };
    let v1 = if p1 { sq(&b) } else { a };
    vec![a, flag, v0, v1, b]
}

fn object_json<F: PrimeField>(inp: &[F], x: &F, y: &F, p0: bool, p1: bool) -> Value {
    json!([
        {"a": dec(&inp[0]), "flag": inp[1] == F::one(), "v": [dec(&inp[2]), dec(&inp[3])], "b": dec(&inp[4])},
        {"x": dec(x), "y": dec(y), "p": [p0, p1]}
    ])
}

pub fn draw_object<F: PrimeField>(ctx: &Ctx) -> Value {
    let x: F = value(ctx);
    let y: F = if ctx.chance(1, 4) { x } else { value(ctx) };
    let (p0, p1) = (ctx.draw(2) == 1, ctx.draw(2) == 1);
    object_json(&pub_for(&x, &y, p0, p1), &x, &y, p0, p1)
}

/// A well-formed object whose witness does not satisfy the statement.
fn draw_bad_object<F: PrimeField>(ctx: &Ctx) -> Value {
    let mut v = draw_object::<F>(ctx);
    let d = add(&fr_of::<F>(&v[0]["a"]), &nonzero(ctx));
    match ctx.draw(6) {
        0 => v[0]["a"] = json!(dec(&d)),
        1 => {
            let f = !v[0]["flag"].as_bool().unwrap();
            v[0]["flag"] = json!(f)
        }
        2 => v[0]["v"][0] = json!(dec(&add(&fr_of::<F>(&v[0]["v"][0]), &nonzero(ctx)))),
        3 => v[0]["v"][1] = json!(dec(&add(&fr_of::<F>(&v[0]["v"][1]), &nonzero(ctx)))),
        4 => v[0]["b"] = json!(dec(&add(&fr_of::<F>(&v[0]["b"]), &nonzero(ctx)))),
        _ => v[1]["x"] = json!(dec(&add(&fr_of::<F>(&v[1]["x"]), &nonzero(ctx)))),
    }
    v
}

pub fn bell_verify<E: Engine>(k: &TruncatedVerifyingKey<E>, p: &Proof<E>, inputs: &[E::Fr]) -> bool {
    if k.ic.len() != inputs.len() + 1 {
        return false;
    }
    let vk = VerifyingKey {
        alpha_g1: k.alpha_g1,
        beta_g1: E::G1Affine::zero(),
        beta_g2: k.beta_g2,
        gamma_g2: k.gamma_g2,
        delta_g1: E::G1Affine::zero(),
        delta_g2: k.delta_g2,
        ic: k.ic.clone(),
    };
    verify_proof(&prepare_verifying_key(&vk), p, inputs).unwrap_or(false)
}

/// Parameters as the reference reads them: exactly one well-formed encoding.
pub fn read_params<E: Engine>(b: &[u8]) -> Option<Parameters<E>> {
    let mut rest = b;
    let p = Parameters::<E>::read(&mut rest, false).ok()?;
    if !rest.is_empty() {
        return None;
    }
    let mut w = vec![];
    p.write(&mut w).ok()?;
    if w != b {
        return None;
    }
    Some(p)
}

fn tvk_of<E: Engine>(p: &Parameters<E>) -> TruncatedVerifyingKey<E> {
    TruncatedVerifyingKey {
        alpha_g1: p.vk.alpha_g1,
        beta_g2: p.vk.beta_g2,
        gamma_g2: p.vk.gamma_g2,
        delta_g2: p.vk.delta_g2,
        ic: p.vk.ic.clone(),
    }
}

pub const NIN: usize = 5;

/// Which property's checks are on, and what the history is biased to.
#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    C06,
    C07,
}

const KINDS: [&str; 6] = ["params", "vk", "proof", "inputs", "object", "solidity"];

fn default_name(p: Prog, kind: &str) -> &'static str {
    let json = p == Eth;
    match kind {
        "params" => "params.bin",
        "vk" => if json { "verification_key.json" } else { "verification_key.txt" },
        "proof" => if json { "proof.json" } else { "proof.txt" },
        "inputs" => if json { "inputs.json" } else { "inputs.txt" },
        "object" => "object.json",
        _ => "verifier.sol",
    }
}

fn short_name(kind: &str) -> &'static str {
    match kind {
        "params" => "-p",
        "vk" => "-v",
        "proof" => "-r",
        "inputs" => "-i",
        "object" => "-o",
        _ => "-s",
    }
}

fn main_of(p: Prog) {
    match p {
        Eth => bind::eth_::main(),
        Waves => bind::waves_::main(),
        WavesBn => bind::wavesbn_::main(),
        Near => bind::near_::main(),
    }
}

fn main_result(p: Prog, argv: &[String], data: &Value) {
    clap::set_argv(&argv.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    bind::DATA.with(|d| *d.borrow_mut() = data.clone());
    main_of(p)
}

/// Two finished setups and proofs per program, made once by the real
/// commands on a faultless machine.
pub struct Stock {
    pub files: Result<Vec<BTreeMap<&'static str, Vec<u8>>>, String>,
}

fn stock(p: Prog) -> &'static Stock {
    static S: [OnceLock<Stock>; 4] = [const { OnceLock::new() }; 4];
    S[p as usize].get_or_init(|| {
        std::thread::spawn(move || {
            let mk = || -> Result<Vec<BTreeMap<&'static str, Vec<u8>>>, String> {
                let mut all = vec![];
                for i in 0..2u64 {
                    let ctx = Ctx::new(Tape::seeded(mix(i + 77)), false);
                    for cmd in ["setup", "generate-test-data", "prove"] {
                        simos::warm();
                        let d = match p {
                            Waves => draw_object::<<Bls12 as pairing::ff::ScalarEngine>::Fr>(&ctx),
                            _ => draw_object::<<Bn256 as pairing::ff::ScalarEngine>::Fr>(&ctx),
                        };
                        let (r, _) = simos::process(&ctx, FaultCfg::default(), Entropy::seeded(ctx.u64()), || main_result(p, &[cmd.to_string()], &d));
                        r.map_err(|e| format!("{} fails on a faultless machine: {}", cmd, e))?;
                    }
                    let mut m = BTreeMap::new();
                    for k in &KINDS[..5] {
                        let path = format!("/cwd/{}", default_name(p, k));
                        m.insert(*k, simos::file(&path).ok_or_else(|| format!("{} was not written on a faultless machine", path))?);
                    }
                    all.push(m);
                }
                Ok(all)
            };
            QUIET.with(|q| q.set(1));
            let files = match guarded(mk) {
                Ok(r) => r,
                Err(e) => Err(format!("panic: {}", e)),
            };
            Stock { files }
        })
        .join()
        .unwrap()
    })
}

struct Machine<'c, E: Eng> {
    ctx: &'c Ctx,
    prog: Prog,
    focus: Focus,
    /// Parameter files that a finished setup wrote, with their keys.
    good: Vec<(u64, TruncatedVerifyingKey<E>)>,
    /// Verdicts are expensive: remember them by file contents.
    memo: BTreeMap<(u64, u64, u64), (bool, bool)>,
}

#[derive(Debug)]
enum Status {
    Done,
    Failed(String),
    Crashed,
}

fn fh(b: &Option<Vec<u8>>) -> u64 {
    match b {
        Some(b) => hash_bytes(b),
        None => 1,
    }
}

impl<'c, E: Eng> Machine<'c, E>
where
    E::Fr: PrimeField,
{
    fn slot(&self, kind: &str) -> String {
        self.named(self.ctx.below(4), kind)
    }

    fn named(&self, session: usize, kind: &str) -> String {
        match session {
            0 | 1 => default_name(self.prog, kind).to_string(),
            2 => format!("other.{}", kind),
            _ => format!("dir/third.{}", kind),
        }
    }

    /// The files of one command: mostly of one session, now and then mixed.
    fn slots<const N: usize>(&self, kinds: [&str; N]) -> [String; N] {
        let g = self.ctx.below(4);
        kinds.map(|k| {
            let g = if self.ctx.chance(1, 6) { self.ctx.below(4) } else { g };
            self.named(g, k)
        })
    }

    fn path(n: &str) -> String {
        format!("/cwd/{}", n)
    }

    fn file(&self, n: &str) -> Option<Vec<u8>> {
        simos::file(&Self::path(n))
    }

    fn faults(&self, hard: bool) -> FaultCfg {
        let c = self.ctx;
        if !c.chance(2, 3) {
            return FaultCfg::default();
        }
        let mut f = FaultCfg { short: c.chance(1, 2), eintr: c.chance(1, 2), max_gap: *c.pick(&[1u64, 3, 10, 40, 150]), ..Default::default() };
        if c.chance(1, 2) {
            // aim at the few writes and opens among many reads
            f.only = Some(*c.pick(&[IoKind::Write, IoKind::Write, IoKind::Open, IoKind::Read]));
            f.max_gap = *c.pick(&[1u64, 2, 4]);
        }
        if hard && c.chance(1, 2) {
            f.max_hard = 1;
            match c.draw(5) {
                0 => f.eio = true,
                1 => f.enospc = true,
                2 => f.open_fail = true,
                3 => f.crash = true,
                _ => {
                    f.eio = true;
                    f.enospc = true;
                    f.open_fail = true;
                }
            }
        }
        f
    }

    fn call(&mut self, cmd: &str, files: &[(&str, String)], data: &Value, cfg: FaultCfg) -> (Status, CallReport) {
        let mut argv = vec![cmd.to_string()];
        for (k, n) in files {
            if *n == default_name(self.prog, k) && self.ctx.chance(1, 2) {
                continue;
            }
            argv.push(if self.ctx.draw(2) == 0 { format!("--{}", k) } else { short_name(k).to_string() });
            argv.push(n.clone());
        }
        let ent = Entropy::seeded(self.ctx.u64());
        let prog = self.prog;
        let (r, rep) = simos::process(self.ctx, cfg, ent, || main_result(prog, &argv, data));
        self.ctx.op();
        self.ctx.advance(rep.io_calls);
        let st = if rep.crashed {
            Status::Crashed
        } else {
            match r {
                Ok(()) => Status::Done,
                Err(e) => Status::Failed(e.chars().take(160).collect()),
            }
        };
        self.ctx.event(format!("{:?} {} -> {:?} out={:?} io={} hard={:?} benign={}", prog, argv.join(" "), st, rep.stdout.trim(), rep.io_calls, rep.hard_log, rep.benign));
        if rep.crashed && self.ctx.chance(1, 2) {
            simos::power_loss(self.ctx);
            self.ctx.event("power loss");
        }
        (st, rep)
    }

    /// Every other file than the named ones must be as before.
    fn snapshot(&self) -> BTreeMap<String, u64> {
        simos::with(|os| os.files.iter().map(|(k, i)| (k.clone(), hash_bytes(&i.data))).collect())
    }

    fn untouched(&self, before: &BTreeMap<String, u64>, out: &[&str], cmd: &str) -> Outcome {
        if self.focus != Focus::C06 {
            return Ok(());
        }
        let now = self.snapshot();
        let outs: Vec<String> = out.iter().map(|n| Self::path(n)).collect();
        // the user's files; a scratch file a command left behind is not one
        let mut users = vec![];
        for kind in KINDS {
            for g in 0..4 {
                users.push(Self::path(&self.named(g, kind)));
            }
        }
        for (k, h) in before {
            if outs.contains(k) || !users.contains(k) {
                continue;
            }
            ensure!(now.get(k) == Some(h), "other-file-touched", "{} changed or removed {}, which it does not name", cmd, k);
        }
        Ok(())
    }

    /// Common to all commands: how it may end.
    fn ending(&self, cmd: &str, st: &Status, rep: &CallReport, must_work: bool) -> Outcome {
        if self.focus != Focus::C06 {
            return Ok(());
        }
        self.ctx.checked();
        match st {
            Status::Done => ensure!(rep.hard == 0, "fault-hidden", "{} finished normally although the system failed: {:?}", cmd, rep.hard_log),
            Status::Failed(e) => {
                ensure!(rep.hard > 0 || !must_work, "spurious-failure", "{} failed although the system did not and its input files are fine (interruptions and short transfers: {}): {}", cmd, rep.benign, e)
            }
            Status::Crashed => {}
        }
        Ok(())
    }

    fn setup(&mut self, params: &str, vk: &str, cfg: FaultCfg) -> Result<bool, Violation> {
        let before = self.snapshot();
        let (st, rep) = self.call("setup", &[("params", params.into()), ("vk", vk.into())], &Value::Null, cfg);
        self.ending("setup", &st, &rep, true)?;
        if let Status::Crashed = st {
            return Ok(false);
        }
        self.untouched(&before, &[params, vk], "setup")?;
        if let Status::Failed(_) = st {
            return Ok(false);
        }
        let pb = self.file(params);
        let p = pb.as_ref().and_then(|b| read_params::<E>(b));
        let k = match self.file(vk) {
            Some(b) => read_tvk::<E>(self.prog, &b),
            None => Seen::No,
        };
        self.ctx.checked();
        if self.focus == Focus::C06 {
            let len = pb.as_ref().map(|b| b.len());
            ensure!(p.is_some(), "params-file", "setup finished but the parameters file ({:?} bytes) is not one whole parameter set", len);
            ensure!(k.must().is_some(), "vk-file", "setup finished but the key file is not a well-formed key");
            let want = tvk_of(p.as_ref().unwrap());
            ensure!(same_tvk(k.must().unwrap(), &want), "vk-params-mismatch", "setup finished but the key file does not hold the key of the parameters file");
            ensure!(want.ic.len() == NIN + 1, "params-shape", "the parameters have {} input points for {} public inputs", want.ic.len(), NIN);
        }
        if let Some(p) = &p {
            // simulated time passes now and then: what was written is durable
            self.good.push((fh(&pb), tvk_of(p)));
        }
        Ok(true)
    }

    fn test_data(&mut self, object: &str, data: &Value, cfg: FaultCfg) -> Result<bool, Violation> {
        let before = self.snapshot();
        let (st, rep) = self.call("generate-test-data", &[("object", object.into())], data, cfg);
        self.ending("generate-test-data", &st, &rep, true)?;
        if let Status::Crashed = st {
            return Ok(false);
        }
        self.untouched(&before, &[object], "generate-test-data")?;
        if let Status::Failed(_) = st {
            return Ok(false);
        }
        if self.focus == Focus::C06 {
            self.ctx.checked();
            let b = self.file(object).unwrap_or_default();
            let o = read_object::<E::Fr>(&b);
            ensure!(o.must().map(|o| &o.json) == Some(data), "object-file", "generate-test-data finished but the object file does not hold the test data: {:?}", String::from_utf8_lossy(&b));
        }
        Ok(true)
    }

    fn gen_verifier(&mut self, vk: &str, sol: &str, cfg: FaultCfg) -> Outcome {
        let before = self.snapshot();
        let kb = self.file(vk);
        let key: Option<TruncatedVerifyingKeyData<pairing::bn256::Fq>> = match kb.as_ref().map(|b| parse_json(&tvkd(num::<pairing::bn256::Fq>()), b)) {
            Some(Seen::Must(v)) | Some(Seen::May(v)) => serde_json::from_value(v).ok(),
            _ => None,
        };
        let strict = kb.as_ref().map(|b| read_tvk::<E>(self.prog, b).must().map(|k| !k.ic.is_empty()).unwrap_or(false)).unwrap_or(false);
        let (st, rep) = self.call("generate-verifier", &[("vk", vk.into()), ("solidity", sol.into())], &Value::Null, cfg);
        self.ending("generate-verifier", &st, &rep, strict)?;
        if let Status::Crashed = st {
            return Ok(());
        }
        self.untouched(&before, &[sol], "generate-verifier")?;
        if let (Status::Done, Focus::C06) = (&st, self.focus) {
            self.ctx.checked();
            let key = match key {
                Some(k) => k,
                None => violated!("verifier-from-garbage", "generate-verifier finished on a malformed key file"),
            };
            let want = guarded(|| fawkes_crypto::helpers::groth16::ethereum::generate_sol_data(&key));
            let got = self.file(sol).unwrap_or_default();
            ensure!(want.ok().map(|s| s.into_bytes()) == Some(got.clone()), "sol-file", "generate-verifier finished but the contract file ({} bytes) is not the contract of the key", got.len());
        }
        Ok(())
    }

    fn prove(&mut self, params: &str, object: &str, proof: &str, inputs: &str, cfg: FaultCfg) -> Result<bool, Violation> {
        let before = self.snapshot();
        let ph = fh(&self.file(params));
        let key = self.good.iter().find(|g| g.0 == ph).map(|g| g.1.clone());
        let obj = match self.file(object) {
            Some(b) => read_object::<E::Fr>(&b),
            None => Seen::No,
        };
        let must = key.is_some() && obj.must().is_some();
        let (st, rep) = self.call("prove", &[("params", params.into()), ("object", object.into()), ("proof", proof.into()), ("inputs", inputs.into())], &Value::Null, cfg);
        self.ending("prove", &st, &rep, must)?;
        if let Status::Crashed = st {
            return Ok(false);
        }
        self.untouched(&before, &[proof, inputs], "prove")?;
        if let Status::Failed(_) = st {
            return Ok(false);
        }
        self.ctx.checked();
        let p = self.file(proof).map(|b| read_proof::<E>(self.prog, &b)).unwrap_or(Seen::No);
        let i = self.file(inputs).map(|b| read_inputs::<E>(self.prog, &b)).unwrap_or(Seen::No);
        if self.focus == Focus::C06 {
            ensure!(!obj.is_no(), "proof-from-garbage", "prove finished on a malformed object file");
            let o = obj.val().unwrap();
            ensure!(i.must() == Some(&o.inputs), "inputs-file", "prove finished but the inputs file does not hold the object's public inputs");
            if let Some(k) = &key {
                let pr = match p.must() {
                    Some(p) => p,
                    None => violated!("proof-file", "prove finished but the proof file is not a well-formed proof"),
                };
                if o.sat {
                    ensure!(bell_verify(k, pr, &o.inputs), "proof-wrong", "prove finished but proof and inputs do not verify under the key of the parameters");
                    self.ctx.probe("proof verified");
                }
            }
        } else if let (Some(pr), Some(inp)) = (p.val(), i.val()) {
            // a false statement, or parameters that no setup wrote
            let sat = obj.val().map(|o| o.sat).unwrap_or(false);
            if !sat {
                self.ctx.probe("proof attempted for a false statement");
                for (_, k) in &self.good {
                    ensure!(!bell_verify(k, pr, inp), "proves-falsehood", "prove turned a witness that does not satisfy the circuit into a proof that verifies");
                }
            }
        }
        Ok(true)
    }

    /// (accepts, refusal is fine too)
    fn truth(&mut self, vk: &Option<Vec<u8>>, proof: &Option<Vec<u8>>, inputs: &Option<Vec<u8>>) -> (bool, bool) {
        let key = (fh(vk), fh(proof), fh(inputs));
        if let Some(r) = self.memo.get(&key) {
            return *r;
        }
        let r = (|| {
            let k = read_tvk::<E>(self.prog, vk.as_ref()?);
            let p = read_proof::<E>(self.prog, proof.as_ref()?);
            let i = read_inputs::<E>(self.prog, inputs.as_ref()?);
            let ok = bell_verify(k.val()?, p.val()?, i.val()?);
            Some((ok, k.must().is_none() || p.must().is_none() || i.must().is_none()))
        })()
        .unwrap_or((false, false));
        self.memo.insert(key, r);
        r
    }

    fn verify(&mut self, vk: &str, proof: &str, inputs: &str, cfg: FaultCfg) -> Result<Option<bool>, Violation> {
        let (a, b, c) = (self.file(vk), self.file(proof), self.file(inputs));
        let before = self.snapshot();
        let (st, rep) = self.call("verify", &[("vk", vk.into()), ("proof", proof.into()), ("inputs", inputs.into())], &Value::Null, cfg);
        if let Status::Crashed = st {
            return Ok(None);
        }
        self.untouched(&before, &[], "verify")?;
        let said_true = rep.stdout.contains("Verify result is true.");
        let said_false = rep.stdout.contains("Verify result is false.");
        let (ok, either) = self.truth(&a, &b, &c);
        self.ctx.state(hash_str(&format!("{:?} {} {} {} {} {}", self.prog, ok, either, said_true, said_false, rep.hard)));
        if self.focus == Focus::C06 {
            if rep.hard > 0 {
                ensure!(!matches!(st, Status::Done), "fault-hidden", "verify finished normally although the system failed: {:?}", rep.hard_log);
            }
        } else {
            self.ctx.checked();
            self.ctx.probe(match (ok, said_true) {
                (true, true) => "verify: true, rightly",
                (true, false) => "verify: true statement not confirmed",
                (false, false) => "verify: false or failed, rightly",
                _ => "verify: wrong",
            });
            ensure!(ok || !said_true, "false-accepted", "verify reports the proof as correct, but the files do not hold a key, proof and inputs that verify");
            if rep.hard == 0 && ok && !either {
                ensure!(said_true && matches!(st, Status::Done), "true-refused", "verify does not report a correct proof as correct: {:?} {:?}", st, rep.stdout.trim());
            }
            ensure!(!(said_true && said_false), "two-answers", "verify gives both answers");
            if matches!(st, Status::Done) {
                ensure!(said_true || said_false, "no-answer", "verify finished without an answer: {:?}", rep.stdout.trim());
            }
        }
        Ok(if said_true { Some(true) } else if said_false { Some(false) } else { None })
    }

    /// Something happens to the files between two commands.
    fn meddle(&mut self) {
        let c = self.ctx;
        let kinds = if self.focus == Focus::C06 { &["params", "vk", "proof", "inputs", "object", "solidity"][..] } else { &["vk", "proof", "inputs", "vk", "proof", "inputs", "object", "params"][..] };
        let kind = *c.pick(kinds);
        let name = self.slot(kind);
        let path = Self::path(&name);
        let cur = simos::file(&path);
        let what = match c.draw(if self.focus == Focus::C06 { 8 } else { 11 }) {
            0 => {
                // another file of the same kind
                let from = self.slot(kind);
                match simos::file(&Self::path(&from)) {
                    Some(b) => {
                        simos::put_file(&path, &b);
                        format!("copy {} to {}", from, name)
                    }
                    None => "nothing".into(),
                }
            }
            1 => {
                // a longer file in the way
                let n = *c.pick(&[1usize, 100, 5000, 60_000]);
                let mut b = cur.clone().unwrap_or_default();
                let mut r = c.prng();
                let ascii = c.draw(2) == 0;
                if c.chance(1, 3) {
                    b.push(b'\n');
                }
                b.extend((0..n).map(|_| if ascii { b' ' + (r.below(90) as u8) } else { r.next() as u8 }));
                simos::put_file(&path, &b);
                format!("append {} bytes to {}", n, name)
            }
            2 => {
                simos::remove_file(&path);
                format!("remove {}", name)
            }
            3 => {
                simos::settle();
                "settle".into()
            }
            4 => {
                simos::power_loss(c);
                "power loss".into()
            }
            5 => match cur {
                Some(mut b) if !b.is_empty() => {
                    let at = c.below(b.len());
                    b.truncate(at);
                    simos::put_file(&path, &b);
                    format!("truncate {} to {}", name, at)
                }
                _ => "nothing".into(),
            },
            6 => {
                let o = if c.chance(1, 2) { draw_bad_object::<E::Fr>(c) } else { draw_object::<E::Fr>(c) };
                let n = self.slot("object");
                let mut o = o;
                if c.chance(1, 4) {
                    let w = mutate(c, &object_schema::<E::Fr>(), &mut o);
                    c.fault(&format!("data:{}", w));
                }
                simos::put_file(&Self::path(&n), o.to_string().as_bytes());
                format!("object into {}", n)
            }
            7 => match cur {
                Some(mut b) if !b.is_empty() => {
                    let at = c.below(b.len());
                    b[at] ^= 1 << c.draw(8);
                    simos::put_file(&path, &b);
                    format!("flip a bit of {} at {}", name, at)
                }
                _ => "nothing".into(),
            },
            8 => {
                // files of one stock setup mixed in
                let s = stock(self.prog).files.as_ref().unwrap();
                let b = s[c.below(2)].get(kind).cloned().unwrap_or_default();
                simos::put_file(&path, &b);
                format!("stock {} into {}", kind, name)
            }
            _ => match cur {
                Some(b) => match self.tamper(kind, &b) {
                    Some((b, w)) => {
                        simos::put_file(&path, &b);
                        format!("tamper {}: {}", name, w)
                    }
                    None => "nothing".into(),
                },
                None => "nothing".into(),
            },
        };
        let head = what.split(' ').next().unwrap().to_string();
        if head != "nothing" && head != "settle" {
            c.fault(&format!("files:{}", head));
        }
        c.event(format!("- {}", what));
    }

    /// A change that keeps the file readable: one value becomes another.
    fn tamper(&self, kind: &str, b: &[u8]) -> Option<(Vec<u8>, String)> {
        let c = self.ctx;
        let is_json = kind == "object" || self.prog == Eth;
        if is_json {
            let schema = match kind {
                "vk" => tvkd(num::<E::Fq>()),
                "proof" => proofd(num::<E::Fq>()),
                "inputs" => J::Seq(Box::new(num::<E::Fr>())),
                "object" => object_schema::<E::Fr>(),
                _ => return None,
            };
            let mut v: Value = serde_json::from_slice(b).ok()?;
            if kind == "inputs" && c.chance(1, 2) {
                let a = v.as_array_mut()?;
                return Some({
                    let w = self.tamper_list(a.len(), |f| match f {
                        Change::Swap(i, j) => a.swap(i, j),
                        Change::Drop(i) => {
                            a.remove(i);
                        }
                        Change::Dup(i) => a.insert(i, a[i].clone()),
                        Change::Set(i, x) => a[i] = json!(x.to_string()),
                        Change::Alias(i, m) => {
                            let v = a[i].as_str().and_then(|s| s.parse::<BigUint>().ok()).unwrap_or_default();
                            a[i] = json!((v + m).to_string())
                        }
                        Change::Push(x) => a.push(json!(x.to_string())),
                    })?;
                    (v.to_string().into_bytes(), w)
                });
            }
            let w = mutate(c, &schema, &mut v);
            return Some((v.to_string().into_bytes(), w));
        }
        let (mut d, _) = unbase64(b)?;
        let (n1, n2) = (csize::<E::G1Affine>(), csize::<E::G2Affine>());
        if c.chance(1, 6) {
            let n = *c.pick(&[1usize, 4, 31, 32, 64]);
            let w = if c.draw(2) == 0 {
                let mut r = c.prng();
                d.extend((0..n).map(|_| r.next() as u8));
                "append decoded bytes"
            } else {
                let l = d.len().saturating_sub(n);
                d.truncate(l);
                "cut decoded bytes"
            };
            return Some((base64::encode(&d).into_bytes(), w.into()));
        }
        let w = match (self.prog, kind) {
            (Near, "inputs") => {
                let (mut v, _) = ref_dec(Sch::L(0), &d)?;
                let w = self.tamper_list(v.len(), |f| match f {
                    Change::Swap(i, j) => v.swap(i, j),
                    Change::Drop(i) => {
                        v.remove(i);
                    }
                    Change::Dup(i) => v.insert(i, v[i].clone()),
                    Change::Set(i, x) => v[i] = x,
                    Change::Alias(i, m) => v[i] = &v[i] + m,
                    Change::Push(x) => v.push(x),
                })?;
                d = ref_enc(Sch::L(0), &v);
                w
            }
            (Near, k) => {
                let s = if k == "vk" { Sch::Tvk(false) } else { Sch::Proof(false) };
                let (mut v, _) = ref_dec(s, &d)?;
                let i = c.below(v.len() / 2) * 2;
                let w = match c.draw(5) {
                    0 => {
                        // the negative of a point of G1
                        let at = if k == "vk" { 0 } else { *c.pick(&[0usize, 6]) };
                        v[at + 1] = (modulus::<E::Fq>() - &v[at + 1]) % modulus::<E::Fq>();
                        "negate"
                    }
                    1 => {
                        v[i] = (&v[i] + BigUint::from(1u32)) % modulus::<E::Fq>();
                        "off-by-one"
                    }
                    2 => {
                        v[i] = &v[i] + modulus::<E::Fq>();
                        "plus-modulus"
                    }
                    3 if k == "vk" && v.len() >= 18 => {
                        let n = (v.len() - 14) / 2;
                        let (x, y) = (14 + 2 * c.below(n), 14 + 2 * c.below(n));
                        v.swap(x, y);
                        v.swap(x + 1, y + 1);
                        "swap ic"
                    }
                    _ => {
                        v.swap(i, i + 1);
                        "swap coordinates"
                    }
                };
                if w == "plus-modulus" {
                    // may not fit: then leave it
                    if v[i].bits() > 256 {
                        return None;
                    }
                }
                d = ref_enc(s, &v);
                w.to_string()
            }
            (_, "inputs") => {
                let mut v: Vec<BigUint> = d.chunks(32).map(BigUint::from_bytes_be).collect();
                let w = self.tamper_list(v.len(), |f| match f {
                    Change::Swap(i, j) => v.swap(i, j),
                    Change::Drop(i) => {
                        v.remove(i);
                    }
                    Change::Dup(i) => v.insert(i, v[i].clone()),
                    Change::Set(i, x) => v[i] = x,
                    Change::Alias(i, m) => v[i] = &v[i] + m,
                    Change::Push(x) => v.push(x),
                })?;
                d = v
                    .iter()
                    .flat_map(|x| {
                        let mut b = x.to_bytes_le();
                        b.resize(32, 0);
                        b.reverse();
                        b
                    })
                    .collect();
                w
            }
            (_, "proof") if d.len() == proof_size::<E>() => damage::<E>(c, &mut d, &[n1, n2, n1]),
            (_, "vk") if d.len() >= n1 + 3 * n2 && (d.len() - n1 - 3 * n2) % n1 == 0 => {
                let mut items = vec![n1, n2, n2, n2];
                items.extend(vec![n1; (d.len() - n1 - 3 * n2) / n1]);
                damage::<E>(c, &mut d, &items)
            }
            _ => return None,
        };
        Some((base64::encode(&d).into_bytes(), w))
    }

    /// One file of a triple that verifies is replaced or changed a little,
    /// then verified.
    fn attack_triple(&mut self) -> Outcome {
        let c = self.ctx;
        let s = stock(self.prog).files.as_ref().unwrap();
        let g = c.below(2);
        let names = ["vk", "proof", "inputs"].map(|k| (k, self.named(1, k)));
        for (k, n) in &names {
            simos::put_file(&Self::path(n), &s[g][k]);
        }
        let (kind, name) = names[c.below(3)].clone();
        let what = if c.chance(1, 8) {
            simos::put_file(&Self::path(&name), &s[1 - g][kind]);
            "the other session's".to_string()
        } else {
            match self.tamper(kind, &s[g][kind]) {
                Some((b, w)) => {
                    simos::put_file(&Self::path(&name), &b);
                    w
                }
                None => "nothing".into(),
            }
        };
        c.fault("files:tamper_verified");
        c.event(format!("- verified triple with {} changed: {}", kind, what));
        c.state(hash_str(&format!("{:?} {} {}", self.prog, kind, what)));
        let f = if c.chance(1, 3) { self.faults(true) } else { FaultCfg::default() };
        self.verify(&names[0].1, &names[1].1, &names[2].1, f)?;
        Ok(())
    }

    fn tamper_list(&self, n: usize, mut f: impl FnMut(Change)) -> Option<String> {
        let c = self.ctx;
        if n == 0 {
            return None;
        }
        let i = c.below(n);
        let m = modulus::<E::Fr>();
        Some(match c.draw(7) {
            5 => {
                f(Change::Alias(i, m));
                "input plus the modulus".into()
            }
            6 => {
                f(Change::Push(to_big(&value::<E::Fr>(c))));
                "surplus input".into()
            }
            0 => {
                let j = c.below(n);
                f(Change::Swap(i, j));
                "swap inputs".into()
            }
            1 => {
                f(Change::Drop(i));
                "drop input".into()
            }
            2 => {
                f(Change::Dup(i));
                "duplicate input".into()
            }
            3 => {
                let x = to_big(&value::<E::Fr>(c));
                f(Change::Set(i, x));
                "other input".into()
            }
            _ => {
                f(Change::Set(i, m + BigUint::from(c.draw(3))));
                "input not below the modulus".into()
            }
        })
    }
}

enum Change {
    Swap(usize, usize),
    Drop(usize),
    Dup(usize),
    Set(usize, BigUint),
    Alias(usize, BigUint),
    Push(BigUint),
}

pub fn history(ctx: &Ctx, focus: Focus) -> Outcome {
    let prog = *ctx.pick(&[Eth, Waves, WavesBn, Near]);
    match prog {
        Waves => go::<Bls12>(ctx, prog, focus),
        _ => go::<Bn256>(ctx, prog, focus),
    }
}

fn go<E: Eng>(ctx: &Ctx, prog: Prog, focus: Focus) -> Outcome {
    let s = match &stock(prog).files {
        Ok(s) => s,
        Err(e) => violated!("faultless-failure", "{:?}: {}", prog, e),
    };
    let mut m = Machine::<E> { ctx, prog, focus, good: vec![], memo: BTreeMap::new() };
    // the machine starts empty, or with the files of an earlier session
    if ctx.chance(5, 6) {
        for (k, b) in &s[0] {
            simos::put_file(&Machine::<E>::path(default_name(prog, k)), b);
        }
        ctx.event("files of an earlier session");
    }
    if ctx.chance(1, 2) {
        for (k, b) in &s[1] {
            simos::put_file(&Machine::<E>::path(&format!("other.{}", k)), b);
        }
        ctx.event("files of another session");
    }
    if ctx.chance(1, 4) {
        // longer files in the way of whatever is written next
        let n = 1 + ctx.below(20_000);
        for k in KINDS {
            for g in 1..4 {
                let path = Machine::<E>::path(&m.named(g, k));
                let mut b = simos::file(&path).unwrap_or_default();
                b.extend(std::iter::repeat(b'#').take(n));
                simos::put_file(&path, &b);
            }
        }
        ctx.fault("files:overlong");
        ctx.event(format!("all files {} bytes too long", n));
    }
    for f in s {
        if let Some(p) = read_params::<E>(&f["params"]) {
            m.good.push((hash_bytes(&f["params"]), tvk_of(&p)));
        }
    }
    let steps = 2 + ctx.below(if ctx.thorough { 12 } else { 6 });
    for _ in 0..steps {
        let w = if focus == Focus::C06 { ctx.draw(12) } else { 20 + ctx.draw(12) };
        match w {
            0 | 10 | 20 => {
                let ([p, v], f) = (m.slots(["params", "vk"]), m.faults(true));
                if !m.setup(&p, &v, f)? && focus == Focus::C06 {
                    // once the disk works, the same command works
                    if ctx.chance(1, 3) {
                        m.setup(&p, &v, FaultCfg::default())?;
                    }
                }
            }
            1 | 2 | 21 => {
                let (o, f, d) = (m.slot("object"), m.faults(true), draw_object::<E::Fr>(ctx));
                if !m.test_data(&o, &d, f)? {
                    m.test_data(&o, &d, FaultCfg::default())?;
                }
            }
            3 | 4 | 5 | 6 | 22 | 23 => {
                let ([p, o, r, i], f) = (m.slots(["params", "object", "proof", "inputs"]), m.faults(true));
                if !m.prove(&p, &o, &r, &i, f)? && focus == Focus::C06 && ctx.chance(1, 2) {
                    m.prove(&p, &o, &r, &i, FaultCfg::default())?;
                }
            }
            7 | 8 if prog == Eth => {
                let ([v, s], f) = (m.slots(["vk", "solidity"]), m.faults(true));
                m.gen_verifier(&v, &s, f)?;
            }
            24 | 25 | 26 | 27 => m.attack_triple()?,
            7 | 8 | 9 | 28 | 29 | 30 => m.meddle(),
            _ => {
                let ([v, r, i], f) = (m.slots(["vk", "proof", "inputs"]), m.faults(true));
                m.verify(&v, &r, &i, f)?;
            }
        }
    }
    if focus == Focus::C07 {
        let [v, r, i] = m.slots(["vk", "proof", "inputs"]);
        m.verify(&v, &r, &i, FaultCfg::default())?;
    }
    // faults stop: the usual sequence works
    if ctx.chance(1, 4) {
        let d = draw_object::<E::Fr>(ctx);
        let n = |k: &str| default_name(prog, k).to_string();
        let calm = FaultCfg::default;
        let mut ok = true;
        if ctx.chance(1, 3) || !m.good.iter().any(|g| Some(g.0) == m.file(&n("params")).map(|b| hash_bytes(&b))) {
            ok &= m.setup(&n("params"), &n("vk"), calm())?;
        } else {
            // the key of the surviving parameters
            simos::put_file(&Machine::<E>::path(&n("vk")), &s[0]["vk"]);
            simos::put_file(&Machine::<E>::path(&n("params")), &s[0]["params"]);
        }
        ok &= m.test_data(&n("object"), &d, calm())?;
        ok &= m.prove(&n("params"), &n("object"), &n("proof"), &n("inputs"), calm())?;
        let v = if ok { m.verify(&n("vk"), &n("proof"), &n("inputs"), calm())? } else { None };
        ctx.checked();
        ensure!(v == Some(true), "no-recovery", "after the faults stopped, setup, generate-test-data, prove and verify do not lead to a verified proof (commands finished: {}, answer {:?})", ok, v);
        ctx.probe("recovered");
    }
    Ok(())
}
