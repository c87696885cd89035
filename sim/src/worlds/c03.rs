//! The binary wire format between a sender and a contract, over a faulty link.
use crate::core::*;
use crate::engines::*;
use crate::gen::*;
use crate::runner::World;
use crate::streams::*;
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::helpers::groth16::prover::ProofData;
use fawkes_crypto::helpers::groth16::verifier::TruncatedVerifyingKeyData;
use fawkes_crypto::helpers::groth16::{G1PointData, G2PointData};
use ff::PrimeField;
use num::bigint::BigUint;
use pairing::{bls12_381, bn256};
use serde_json::{json, Value};

pub const WORLD: World = World {
    id: "C03",
    run,
    quick: 200_000,
    thorough: 15_000_000,
    rule: "a run is a sequence of binary messages of drawn types written to one simulated link, damaged or cut on the way and decoded one after another by the receiver; non-trivial: at least one injected fault and one oracle comparison; distinct by hash of the event history",
    state_measure: "(message types, kind of damage, messages decoded before the first refusal) tuples",
    real: &["Borsh encoders and decoders of Num, points, proofs, keys, vectors"],
    stub: &["the link (writer argument and the buffer handed to the decoder)"],
    assumptions: &["borsh's own vector framing is right", "JSON form is used to build and inspect points whose fields are private (checked by C04)"],
};

type BnFs = fawkes_crypto::native::bn256::Fs;
type BlsFs = fawkes_crypto::native::bls12_381::Fs;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sch {
    N(u8),
    L(u8),
    G1(bool),
    G2(bool),
    Proof(bool),
    Tvk(bool),
}
use Sch::*;

/// (modulus, bytes)
fn field(i: u8) -> (BigUint, usize) {
    fn f<F: PrimeField>() -> (BigUint, usize) {
        (modulus::<F>(), F::zero().into_repr().as_ref().len() * 8)
    }
    match i {
        0 => f::<bn256::Fr>(),
        1 => f::<bn256::Fq>(),
        2 => f::<BnFs>(),
        3 => f::<bls12_381::Fr>(),
        4 => f::<bls12_381::Fq>(),
        _ => f::<BlsFs>(),
    }
}

fn fq(bls: bool) -> u8 {
    if bls { 4 } else { 1 }
}

/// Reference decoder: numbers in wire order, bytes consumed.
pub fn ref_dec(s: Sch, b: &[u8]) -> Option<(Vec<BigUint>, usize)> {
    let nums = |f: u8, n: usize, at: usize| -> Option<(Vec<BigUint>, usize)> {
        let (p, w) = field(f);
        let mut v = vec![];
        for i in 0..n {
            let c = b.get(at + i * w..at + (i + 1) * w)?;
            let x = BigUint::from_bytes_le(c);
            if x >= p {
                return None;
            }
            v.push(x);
        }
        Some((v, at + n * w))
    };
    let len = |at: usize| -> Option<usize> {
        let c = b.get(at..at + 4)?;
        Some(u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as usize)
    };
    match s {
        N(f) => nums(f, 1, 0),
        L(f) => {
            let n = len(0)?;
            if n > b.len() {
                return None;
            }
            nums(f, n, 4)
        }
        G1(e) => nums(fq(e), 2, 0),
        G2(e) => nums(fq(e), 4, 0),
        Proof(e) => nums(fq(e), 8, 0),
        Tvk(e) => {
            let (mut v, at) = nums(fq(e), 14, 0)?;
            let n = len(at)?;
            if n > b.len() {
                return None;
            }
            let (w, at) = nums(fq(e), 2 * n, at + 4)?;
            v.extend(w);
            Some((v, at))
        }
    }
}

pub fn ref_enc(s: Sch, v: &[BigUint]) -> Vec<u8> {
    let mut out = vec![];
    let put = |out: &mut Vec<u8>, f: u8, xs: &[BigUint]| {
        let w = field(f).1;
        for x in xs {
            let mut b = x.to_bytes_le();
            b.resize(w, 0);
            out.extend(b);
        }
    };
    match s {
        N(f) => put(&mut out, f, v),
        L(f) => {
            out.extend((v.len() as u32).to_le_bytes());
            put(&mut out, f, v)
        }
        G1(e) | G2(e) | Proof(e) => put(&mut out, fq(e), v),
        Tvk(e) => {
            put(&mut out, fq(e), &v[..14]);
            out.extend((((v.len() - 14) / 2) as u32).to_le_bytes());
            put(&mut out, fq(e), &v[14..]);
        }
    }
    out
}

/// The JSON form of the same value (points of G2 carry c1 before c0 there).
fn ref_json(s: Sch, v: &[BigUint]) -> Value {
    let n = |x: &BigUint| json!(x.to_string());
    let g1 = |v: &[BigUint]| json!([n(&v[0]), n(&v[1])]);
    let g2 = |v: &[BigUint]| json!([[n(&v[1]), n(&v[0])], [n(&v[3]), n(&v[2])]]);
    match s {
        N(_) => n(&v[0]),
        L(_) => Value::Array(v.iter().map(n).collect()),
        G1(_) => g1(v),
        G2(_) => g2(v),
        Proof(_) => json!({"a": g1(&v[0..2]), "b": g2(&v[2..6]), "c": g1(&v[6..8])}),
        Tvk(_) => json!({
            "alpha_g1": g1(&v[0..2]), "beta_g2": g2(&v[2..6]), "gamma_g2": g2(&v[6..10]), "delta_g2": g2(&v[10..14]),
            "ic": v[14..].chunks(2).map(g1).collect::<Vec<_>>(),
        }),
    }
}

/// What the library decodes: (JSON form of the value, its own re-encoding).
fn lib_dec(s: Sch, buf: &mut &[u8]) -> std::io::Result<(Value, Vec<u8>)> {
    fn d<T: BorshDeserialize + BorshSerialize + serde::Serialize>(buf: &mut &[u8]) -> std::io::Result<(Value, Vec<u8>)> {
        let v = T::deserialize(buf)?;
        Ok((serde_json::to_value(&v).expect("to_value"), v.try_to_vec().expect("try_to_vec")))
    }
    macro_rules! by_field {
        ($f:expr, $($w:tt)*) => {
            match $f {
                0 => d::<by_field!(@ bn256::Fr, $($w)*)>(buf),
                1 => d::<by_field!(@ bn256::Fq, $($w)*)>(buf),
                2 => d::<by_field!(@ BnFs, $($w)*)>(buf),
                3 => d::<by_field!(@ bls12_381::Fr, $($w)*)>(buf),
                4 => d::<by_field!(@ bls12_381::Fq, $($w)*)>(buf),
                _ => d::<by_field!(@ BlsFs, $($w)*)>(buf),
            }
        };
        (@ $t:ty, num) => { fawkes_crypto::native::num::Num<$t> };
        (@ $t:ty, vec) => { Vec<fawkes_crypto::native::num::Num<$t>> };
    }
    macro_rules! by_eng {
        ($e:expr, $t:ident) => {
            if $e { d::<$t<bls12_381::Fq>>(buf) } else { d::<$t<bn256::Fq>>(buf) }
        };
    }
    match s {
        N(f) => by_field!(f, num),
        L(f) => by_field!(f, vec),
        G1(e) => by_eng!(e, G1PointData),
        G2(e) => by_eng!(e, G2PointData),
        Proof(e) => by_eng!(e, ProofData),
        Tvk(e) => by_eng!(e, TruncatedVerifyingKeyData),
    }
}

/// Builds the library's value and writes it to the link.
fn lib_enc(s: Sch, v: &[BigUint], w: &mut SimWriter) -> Result<std::io::Result<()>, String> {
    let j = ref_json(s, v);
    fn e<T: BorshSerialize + serde::de::DeserializeOwned>(j: Value, w: &mut SimWriter) -> Result<std::io::Result<()>, String> {
        let v: T = serde_json::from_value(j).map_err(|e| e.to_string())?;
        guarded(|| v.serialize(w))
    }
    macro_rules! num_of {
        ($t:ty) => {
            guarded(|| fawkes_crypto::native::num::Num::<$t>(from_big(&v[0])).serialize(w))
        };
    }
    macro_rules! vec_of {
        ($t:ty) => {
            guarded(|| v.iter().map(|x| fawkes_crypto::native::num::Num::<$t>(from_big(x))).collect::<Vec<_>>().serialize(w))
        };
    }
    macro_rules! by_eng {
        ($e:expr, $t:ident) => {
            if $e { e::<$t<bls12_381::Fq>>(j, w) } else { e::<$t<bn256::Fq>>(j, w) }
        };
    }
    match s {
        N(0) => num_of!(bn256::Fr),
        N(1) => num_of!(bn256::Fq),
        N(2) => num_of!(BnFs),
        N(3) => num_of!(bls12_381::Fr),
        N(4) => num_of!(bls12_381::Fq),
        N(_) => num_of!(BlsFs),
        L(0) => vec_of!(bn256::Fr),
        L(1) => vec_of!(bn256::Fq),
        L(2) => vec_of!(BnFs),
        L(3) => vec_of!(bls12_381::Fr),
        L(4) => vec_of!(bls12_381::Fq),
        L(_) => vec_of!(BlsFs),
        G1(e) => by_eng!(e, G1PointData),
        G2(e) => by_eng!(e, G2PointData),
        Proof(e) => by_eng!(e, ProofData),
        Tvk(e) => by_eng!(e, TruncatedVerifyingKeyData),
    }
}

fn draw_num(ctx: &Ctx, f: u8) -> BigUint {
    let p = field(f).0;
    match ctx.draw(8) {
        0 => BigUint::from(0u32),
        1 => BigUint::from(ctx.draw(300)),
        2 => &p - BigUint::from(1 + ctx.draw(300)),
        3 => (BigUint::from(1u32) << ctx.below(p.bits())) % &p,
        _ => {
            let mut r = ctx.prng();
            let b: Vec<u8> = (0..56).map(|_| r.next() as u8).collect();
            BigUint::from_bytes_le(&b) % &p
        }
    }
}

fn draw_sch(ctx: &Ctx) -> Sch {
    let f = ctx.draw(6) as u8;
    let e = ctx.draw(2) == 1;
    match ctx.draw(6) {
        0 => N(f),
        1 => L(f),
        2 => G1(e),
        3 => G2(e),
        4 => Proof(e),
        _ => Tvk(e),
    }
}

fn pool_point<E: Eng>(ctx: &Ctx, g2: bool) -> (Vec<BigUint>, bool) {
    let w = fq_bytes::<E>();
    if g2 {
        (coords(&draw_g2::<E>(ctx), w).unwrap(), true)
    } else {
        (coords(&draw_g1::<E>(ctx), w).unwrap(), true)
    }
}

/// Numbers of one message in wire order.
fn draw_msg(ctx: &Ctx, s: Sch) -> Vec<BigUint> {
    let honest = ctx.chance(1, 2);
    let pt = |e: bool, g2: bool| -> Vec<BigUint> {
        if honest {
            if e { pool_point::<bls12_381::Bls12>(ctx, g2).0 } else { pool_point::<bn256::Bn256>(ctx, g2).0 }
        } else {
            (0..if g2 { 4 } else { 2 }).map(|_| draw_num(ctx, fq(e))).collect()
        }
    };
    match s {
        N(f) => vec![draw_num(ctx, f)],
        L(f) => (0..ctx.size(5, 100, 1200)).map(|_| draw_num(ctx, f)).collect(),
        G1(e) => pt(e, false),
        G2(e) => pt(e, true),
        Proof(e) => [pt(e, false), pt(e, true), pt(e, false)].concat(),
        Tvk(e) => {
            let mut v = [pt(e, false), pt(e, true), pt(e, true), pt(e, true)].concat();
            for _ in 0..ctx.size(5, 100, 300) {
                v.extend(pt(e, false));
            }
            v
        }
    }
}

/// Encoding of points, proofs and keys straight from group elements.
fn native_export<E: Eng>(ctx: &Ctx) -> Outcome
where
    G1PointData<E::Fq>: From<E::G1Affine>,
    G2PointData<E::Fq>: From<E::G2Affine>,
{
    let w = fq_bytes::<E>();
    let bytes = |v: &[BigUint]| -> Vec<u8> {
        v.iter().flat_map(|x| { let mut b = x.to_bytes_le(); b.resize(w, 0); b }).collect()
    };
    let proof = draw_proof::<E>(ctx);
    let want = bytes(&[coords(&proof.0.a, w).unwrap(), coords(&proof.0.b, w).unwrap(), coords(&proof.0.c, w).unwrap()].concat());
    let got = E::proof_data(&proof).try_to_vec().unwrap();
    ctx.checked();
    ensure!(got == want, "export-proof", "a {} proof is encoded as other bytes than its coordinates", E::NAME);
    let back = ProofData::<E::Fq>::try_from_slice(&want);
    match back {
        Ok(d) => {
            let p = match guarded(|| E::proof_from(&d)) {
                Ok(p) => p,
                Err(m) => violated!("import-proof", "an honest proof is refused: {}", m),
            };
            ensure!(p.0.a == proof.0.a && p.0.b == proof.0.b && p.0.c == proof.0.c, "import-proof", "a proof decodes to another proof");
        }
        Err(e) => violated!("import-proof", "an honest proof is refused: {}", e),
    }
    let key = draw_tvk::<E>(ctx, ctx.below(5));
    let mut v = [coords(&key.alpha_g1, w).unwrap(), coords(&key.beta_g2, w).unwrap(), coords(&key.gamma_g2, w).unwrap(), coords(&key.delta_g2, w).unwrap()].concat();
    let mut want = bytes(&v);
    want.extend((key.ic.len() as u32).to_le_bytes());
    v.clear();
    for p in &key.ic {
        v.extend(coords(p, w).unwrap());
    }
    want.extend(bytes(&v));
    let got = E::tvk_data(&key).try_to_vec().unwrap();
    ctx.checked();
    ensure!(got == want, "export-key", "a {} key is encoded as other bytes than its coordinates", E::NAME);
    match TruncatedVerifyingKeyData::<E::Fq>::try_from_slice(&want) {
        Ok(d) => match guarded(|| E::tvk_from(&d)) {
            Ok(k) => ensure!(same_tvk(&k, &key), "import-key", "a key decodes to another key"),
            Err(m) => violated!("import-key", "an honest key is refused: {}", m),
        },
        Err(e) => violated!("import-key", "an honest key is refused: {}", e),
    }
    Ok(())
}

fn run(ctx: &Ctx) -> Outcome {
    if ctx.chance(1, 40) {
        ctx.event("export");
        if ctx.draw(2) == 0 {
            native_export::<bn256::Bn256>(ctx)?;
        } else {
            native_export::<bls12_381::Bls12>(ctx)?;
        }
    }
    let n = ctx.range(1, 4);
    let msgs: Vec<(Sch, Vec<BigUint>)> = (0..n).map(|_| { let s = draw_sch(ctx); (s, draw_msg(ctx, s)) }).collect();
    // the sender writes them to the link, starting over while it fails
    let total: usize = msgs.iter().map(|(s, v)| ref_enc(*s, v).len()).sum();
    let mut wire = vec![];
    let mut bounds = vec![];
    for attempt in 0..3 {
        let cfg = if attempt == 2 { StreamCfg::calm() } else { StreamCfg::draw(ctx, total, true) };
        let mut w = SimWriter::new(ctx, cfg);
        bounds.clear();
        let mut want = vec![];
        let mut ok = true;
        for (s, v) in &msgs {
            let r = match lib_enc(*s, v, &mut w) {
                Ok(r) => r,
                Err(e) => violated!("encode-panic", "encoding {:?} failed: {}", s, e),
            };
            ctx.op();
            ctx.checked();
            bounds.push(want.len());
            want.extend(ref_enc(*s, v));
            ctx.event(format!("send {:?} x{} -> ok={} failed={}", s, v.len(), r.is_ok(), w.failed));
            ensure!(want.starts_with(&w.out), "encode-bytes", "{:?} is encoded as other bytes than the documented layout", s);
            match r {
                Ok(()) => {
                    ensure!(!w.failed, "encode-error-lost", "the link failed and encoding {:?} reported success", s);
                    ensure!(w.out.len() == want.len(), "encode-incomplete", "encoding {:?} reported success with bytes missing", s);
                }
                Err(e) => {
                    ensure!(w.failed, "encode-spurious-error", "encoding {:?} failed on a working link: {}", s, e);
                    ok = false;
                    break;
                }
            }
        }
        if ok {
            wire = w.out.clone();
            break;
        }
    }
    // what the link does to them
    let mut what = "intact";
    if ctx.chance(2, 3) {
        let k = ctx.below(msgs.len());
        let at = bounds[k];
        what = match ctx.draw(6) {
            0 => {
                let l = ctx.below(wire.len().max(1));
                wire.truncate(l);
                "truncate"
            }
            1 if !wire.is_empty() => {
                let i = ctx.below(wire.len());
                wire[i] ^= 1 << ctx.draw(8);
                "flip"
            }
            2 => {
                // the same number spelt modulo p
                let f = match msgs[k].0 {
                    N(f) => Some((f, at)),
                    L(f) => if msgs[k].1.is_empty() { None } else { Some((f, at + 4)) },
                    G1(e) | G2(e) | Proof(e) | Tvk(e) => Some((fq(e), at)),
                };
                if let Some((f, o)) = f {
                    let (p, w) = field(f);
                    let per = if matches!(msgs[k].0, N(_)) { 1 } else { msgs[k].1.len().min(14) };
                    let o = o + w * ctx.below(per);
                    let x = BigUint::from_bytes_le(&wire[o..o + w]);
                    let y = match ctx.draw(3) {
                        0 => x + &p,
                        1 => p.clone(),
                        _ => &p + BigUint::from(ctx.draw(4)),
                    };
                    let mut b = y.to_bytes_le();
                    if b.len() <= w {
                        b.resize(w, 0);
                        wire[o..o + w].copy_from_slice(&b);
                    }
                }
                "non-canonical"
            }
            3 => {
                let mut p = ctx.prng();
                let l = 1 + ctx.below(40);
                wire.extend((0..l).map(|_| p.next() as u8));
                "append"
            }
            4 if wire.len() >= at + 4 => {
                let v = *ctx.pick(&[[0xffu8; 4], [0xff, 0, 0, 0], [0, 0, 0, 0], [1, 0, 0, 0], [0, 0, 0, 1]]);
                wire[at..at + 4].copy_from_slice(&v);
                "length"
            }
            _ => {
                let mut p = ctx.prng();
                for b in wire[at..].iter_mut() {
                    *b = p.next() as u8;
                }
                "garbage"
            }
        };
        ctx.fault(&format!("data:{}", what));
        ctx.event(format!("link: {}", what));
    }
    // the receiver decodes them one after another
    let mut buf: &[u8] = &wire;
    let mut decoded = 0;
    for (s, _) in &msgs {
        let before = buf;
        let got = match guarded(|| lib_dec(*s, &mut buf)) {
            Ok(r) => r,
            Err(p) => violated!("decode-panic", "decoding {:?} panicked: {}", s, p),
        };
        let want = ref_dec(*s, before);
        ctx.op();
        ctx.checked();
        ctx.event(format!("receive {:?} -> ok={} want={}", s, got.is_ok(), want.is_some()));
        match (got, want) {
            (Ok((j, re)), Some((v, used))) => {
                ensure!(before.len() - buf.len() == used, "decode-consumes", "decoding {:?} took {} bytes, not {}", s, before.len() - buf.len(), used);
                ensure!(j == ref_json(*s, &v), "decode-value", "{:?} decodes to {} instead of {}", s, j, ref_json(*s, &v));
                ensure!(re == before[..used], "decode-reencode", "{:?} re-encodes to other bytes", s);
                decoded += 1;
            }
            (Ok((j, _)), None) => violated!("decode-accepts-invalid", "bytes that are no valid {:?} decode to {} ({})", s, j, what),
            (Err(e), Some(_)) => violated!("decode-rejects-valid", "a valid {:?} is refused: {}", s, e),
            (Err(_), None) => {
                ctx.probe("refused");
                break;
            }
        }
    }
    ctx.probe_n("decoded", decoded);
    ctx.state(hash_str(&format!("{:?} {} {}", msgs.iter().map(|m| m.0).collect::<Vec<_>>(), what, decoded)));
    Ok(())
}
