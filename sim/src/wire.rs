//! Keys, proofs and inputs as messages: the library's codecs and the
//! reference ones, for the three encodings.
use crate::cli::{parse_json, proof_from_coords, jcoords, leaves, split, tvk_from_coords, Seen};
use crate::core::*;
use crate::engines::*;
use crate::gen::*;
use crate::streams::*;
use crate::worlds::c03::{ref_dec, Sch};
use crate::worlds::c04::{num, proofd, tvkd, J};
use bellman::groth16::Proof as BProof;
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::helpers::groth16::prover::{Proof, ProofData};
use fawkes_crypto::helpers::groth16::verifier::{TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use fawkes_crypto::native::num::Num;
use num::bigint::BigUint;
use serde_json::Value;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Enc {
    Stream,
    Borsh,
    Json,
}
pub const ENCS: [Enc; 3] = [Enc::Stream, Enc::Borsh, Enc::Json];

pub fn is_bls<E: Eng>() -> bool {
    E::NAME == "bls12_381"
}

fn benign(ctx: &Ctx) -> StreamCfg {
    let mut c = StreamCfg::draw(ctx, 1, false);
    c.gap += 6;
    c
}

/// `Err`: refused (by an error or a panic).
pub type Res<T> = Result<T, String>;

fn flat<T>(r: Result<Res<T>, String>) -> Res<T> {
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    }
}

pub fn put_key<E: Eng>(ctx: &Ctx, k: &TruncatedVerifyingKey<E>, e: Enc) -> Res<Vec<u8>> {
    flat(guarded(|| match e {
        Enc::Stream => {
            let mut w = SimWriter::new(ctx, benign(ctx));
            k.write(&mut w).map_err(|e| e.to_string())?;
            Ok(w.out)
        }
        Enc::Borsh => E::tvk_data(k).try_to_vec().map_err(|e| e.to_string()),
        Enc::Json => serde_json::to_vec(&E::tvk_data(k)).map_err(|e| e.to_string()),
    }))
}

pub fn get_key<E: Eng>(ctx: &Ctx, b: &[u8], e: Enc) -> Res<TruncatedVerifyingKey<E>> {
    flat(guarded(|| match e {
        Enc::Stream => TruncatedVerifyingKey::<E>::read(&mut SimReader::new(ctx, b, benign(ctx))).map_err(|e| e.to_string()),
        Enc::Borsh => TruncatedVerifyingKeyData::<E::Fq>::try_from_slice(b).map_err(|e| e.to_string()).map(|d| E::tvk_from(&d)),
        Enc::Json => serde_json::from_slice(b).map_err(|e| e.to_string()).map(|d| E::tvk_from(&d)),
    }))
}

pub fn put_proof<E: Eng>(ctx: &Ctx, p: &Proof<E>, e: Enc) -> Res<Vec<u8>> {
    flat(guarded(|| match e {
        Enc::Stream => {
            let mut w = SimWriter::new(ctx, benign(ctx));
            E::proof_write(p, &mut w).map_err(|e| e.to_string())?;
            Ok(w.out)
        }
        Enc::Borsh => E::proof_data(p).try_to_vec().map_err(|e| e.to_string()),
        Enc::Json => serde_json::to_vec(&E::proof_data(p)).map_err(|e| e.to_string()),
    }))
}

pub fn get_proof<E: Eng>(ctx: &Ctx, b: &[u8], e: Enc) -> Res<Proof<E>> {
    flat(guarded(|| match e {
        Enc::Stream => E::proof_read(&mut SimReader::new(ctx, b, benign(ctx))).map_err(|e| e.to_string()),
        Enc::Borsh => ProofData::<E::Fq>::try_from_slice(b).map_err(|e| e.to_string()).map(|d| E::proof_from(&d)),
        Enc::Json => serde_json::from_slice(b).map_err(|e| e.to_string()).map(|d| E::proof_from(&d)),
    }))
}

pub fn put_inputs<E: Eng>(v: &[E::Fr], e: Enc) -> Res<Vec<u8>> {
    let v: Vec<Num<E::Fr>> = v.iter().map(|x| Num(*x)).collect();
    flat(guarded(|| match e {
        Enc::Json => serde_json::to_vec(&v).map_err(|e| e.to_string()),
        _ => v.try_to_vec().map_err(|e| e.to_string()),
    }))
}

pub fn get_inputs<E: Eng>(b: &[u8], e: Enc) -> Res<Vec<E::Fr>> {
    let v: Vec<Num<E::Fr>> = flat(guarded(|| match e {
        Enc::Json => serde_json::from_slice(b).map_err(|e| e.to_string()),
        _ => Vec::<Num<E::Fr>>::try_from_slice(b).map_err(|e| e.to_string()),
    }))?;
    Ok(v.into_iter().map(|n| n.0).collect())
}

fn seen<T>(strict: bool, t: Option<T>) -> Seen<T> {
    match t {
        Some(t) if strict => Seen::Must(t),
        Some(t) => Seen::May(t),
        None => Seen::No,
    }
}

fn via_json<T>(s: Seen<Value>, f: impl Fn(&Value) -> Option<T>) -> Seen<T> {
    match &s {
        Seen::Must(v) => seen(true, f(v)),
        Seen::May(v) => seen(false, f(v)),
        Seen::No => Seen::No,
    }
}

pub fn ref_key<E: Eng>(b: &[u8], e: Enc) -> Seen<TruncatedVerifyingKey<E>> {
    match e {
        Enc::Stream => seen(true, dec_tvk::<E>(b)),
        Enc::Borsh => match ref_dec(Sch::Tvk(is_bls::<E>()), b) {
            Some((v, n)) if n == b.len() => {
                let mut sizes = vec![2, 4, 4, 4];
                sizes.extend(vec![2; (v.len() - 14) / 2]);
                seen(true, tvk_from_coords(&split(&v, &sizes)))
            }
            _ => Seen::No,
        },
        Enc::Json => via_json(parse_json(&tvkd(num::<E::Fq>()), b), |v| {
            let mut ps: Vec<_> = ["alpha_g1", "beta_g2", "gamma_g2", "delta_g2"].iter().map(|k| jcoords(&v[k])).collect();
            ps.extend(v["ic"].as_array().unwrap().iter().map(jcoords));
            tvk_from_coords(&ps)
        }),
    }
}

pub fn ref_proof<E: Eng>(b: &[u8], e: Enc) -> Seen<BProof<E>> {
    match e {
        Enc::Stream => seen(b.len() == proof_size::<E>(), dec_proof::<E>(b)),
        Enc::Borsh => match ref_dec(Sch::Proof(is_bls::<E>()), b) {
            Some((v, n)) if n == b.len() => seen(true, proof_from_coords(&split(&v, &[2, 4, 2]))),
            _ => Seen::No,
        },
        Enc::Json => via_json(parse_json(&proofd(num::<E::Fq>()), b), |v| proof_from_coords(&["a", "b", "c"].iter().map(|k| jcoords(&v[k])).collect::<Vec<_>>())),
    }
}

pub fn ref_inputs<E: Eng>(b: &[u8], e: Enc) -> Seen<Vec<E::Fr>> {
    let m = modulus::<E::Fr>();
    let fr = |v: &[BigUint]| -> Option<Vec<E::Fr>> { v.iter().map(|x| if *x < m { Some(from_big::<E::Fr>(x)) } else { None }).collect() };
    match e {
        Enc::Json => via_json(parse_json(&J::Seq(Box::new(num::<E::Fr>())), b), |v| {
            let mut o = vec![];
            leaves(v, &mut o);
            fr(&o)
        }),
        _ => match ref_dec(Sch::L(if is_bls::<E>() { 3 } else { 0 }), b) {
            Some((v, n)) if n == b.len() => seen(true, fr(&v)),
            _ => Seen::No,
        },
    }
}
