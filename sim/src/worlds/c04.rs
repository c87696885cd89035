//! The JSON wire format between peers, over a faulty link.
use crate::core::*;
use crate::gen::*;
use crate::runner::World;
use crate::streams::*;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::helpers::groth16::prover::ProofData;
use fawkes_crypto::helpers::groth16::verifier::TruncatedVerifyingKeyData;
use fawkes_crypto::helpers::groth16::{G1PointData, G2PointData};
use fawkes_crypto::native::ecc::{EdwardsPoint, MontgomeryPoint};
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::MerkleProof;
use ff::PrimeField;
use num::bigint::BigUint;
use pairing::{bls12_381, bn256};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use typenum::*;

pub const WORLD: World = World {
    id: "C04",
    run,
    quick: 300_000,
    thorough: 20_000_000,
    rule: "a run sends one JSON message of a drawn type through simulated streams, after none or some structural mutations, byte corruptions or cuts; non-trivial: at least one injected fault and one oracle comparison; distinct by hash of the event history",
    state_measure: "(type, mutation path and kind, verdict) tuples",
    real: &["serde implementations of Num, SizedVec, points, proofs, keys, Merkle proofs, witness structures"],
    stub: &["the link (reader and writer arguments)"],
    assumptions: &["serde_json's parser and printer are right", "spellings of a number with leading zeros, a plus sign or underscores, and a structure given as an array or with unknown extra fields, may be accepted or refused, but never as another value"],
};

type BnFs = fawkes_crypto::native::bn256::Fs;
type BlsFs = fawkes_crypto::native::bls12_381::Fs;

/// What a message looks like.
#[derive(Clone, Debug)]
pub enum J {
    N(BigUint),
    B,
    Tup(Vec<J>),
    Seq(Box<J>),
    Fixed(Box<J>, usize),
    Obj(Vec<(&'static str, J)>),
}
use J::*;

#[derive(Serialize, Deserialize)]
#[serde(bound(serialize = "", deserialize = ""))]
struct Witness<F: fawkes_crypto::core::field::Field, S: fawkes_crypto::core::field::Field> {
    root: Num<F>,
    proof: MerkleProof<F, U3>,
    sig: (Num<S>, Num<F>),
    flag: bool,
    grid: SizedVec<SizedVec<Num<F>, U2>, U3>,
    points: SizedVec<EdwardsPoint<F>, U1>,
}

pub fn num<F: PrimeField>() -> J {
    N(modulus::<F>())
}
pub fn fixed(j: J, n: usize) -> J {
    Fixed(Box::new(j), n)
}
fn xy(f: J) -> J {
    Obj(vec![("x", f.clone()), ("y", f)])
}
fn g1(f: J) -> J {
    Tup(vec![f.clone(), f])
}
fn g2(f: J) -> J {
    Tup(vec![g1(f.clone()), g1(f)])
}
pub fn proofd(f: J) -> J {
    Obj(vec![("a", g1(f.clone())), ("b", g2(f.clone())), ("c", g1(f))])
}
pub fn tvkd(f: J) -> J {
    Obj(vec![("alpha_g1", g1(f.clone())), ("beta_g2", g2(f.clone())), ("gamma_g2", g2(f.clone())), ("delta_g2", g2(f.clone())), ("ic", Seq(Box::new(g1(f))))])
}
fn merkle(f: J, n: usize) -> J {
    Obj(vec![("sibling", fixed(f, n)), ("path", fixed(B, n))])
}
fn witness(f: J, s: J) -> J {
    Obj(vec![
        ("root", f.clone()),
        ("proof", merkle(f.clone(), 3)),
        ("sig", Tup(vec![s, f.clone()])),
        ("flag", B),
        ("grid", fixed(fixed(f.clone(), 2), 3)),
        ("points", fixed(xy(f), 1)),
    ])
}

/// The library's side of one message type.
struct Ops {
    name: &'static str,
    schema: fn() -> J,
    /// Decode from a stream and give the value back as JSON.
    read: fn(&mut SimReader) -> Result<Value, String>,
    /// The same from text in memory.
    text: fn(&str) -> Result<Value, String>,
    /// Encode (a decoded message) to a stream.
    write: fn(&Value, &mut SimWriter) -> Result<Result<(), String>, String>,
}

fn rd<T: DeserializeOwned + Serialize>(r: &mut SimReader) -> Result<Value, String> {
    let v: T = serde_json::from_reader(r).map_err(|e| e.to_string())?;
    Ok(serde_json::to_value(&v).expect("to_value"))
}
fn tx<T: DeserializeOwned + Serialize>(s: &str) -> Result<Value, String> {
    let v: T = serde_json::from_str(s).map_err(|e| e.to_string())?;
    Ok(serde_json::to_value(&v).expect("to_value"))
}
fn wr<T: DeserializeOwned + Serialize>(v: &Value, w: &mut SimWriter) -> Result<Result<(), String>, String> {
    let v: T = serde_json::from_value(v.clone()).map_err(|e| format!("from_value: {}", e))?;
    Ok(serde_json::to_writer(w, &v).map_err(|e| e.to_string()))
}

macro_rules! ops {
    ($name:expr, $t:ty, $s:expr) => {
        Ops { name: $name, schema: || $s, read: rd::<$t>, text: tx::<$t>, write: wr::<$t> }
    };
}

fn table() -> &'static Vec<Ops> {
    static T: std::sync::OnceLock<Vec<Ops>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        vec![
            ops!("num bn256::Fr", Num<bn256::Fr>, num::<bn256::Fr>()),
            ops!("num bn256::Fq", Num<bn256::Fq>, num::<bn256::Fq>()),
            ops!("num bn256::Fs", Num<BnFs>, num::<BnFs>()),
            ops!("num bls::Fr", Num<bls12_381::Fr>, num::<bls12_381::Fr>()),
            ops!("num bls::Fq", Num<bls12_381::Fq>, num::<bls12_381::Fq>()),
            ops!("num bls::Fs", Num<BlsFs>, num::<BlsFs>()),
            ops!("edwards bn", EdwardsPoint<bn256::Fr>, xy(num::<bn256::Fr>())),
            ops!("edwards bls", EdwardsPoint<bls12_381::Fr>, xy(num::<bls12_381::Fr>())),
            ops!("montgomery bn", MontgomeryPoint<bn256::Fr>, xy(num::<bn256::Fr>())),
            ops!("g1 bn", G1PointData<bn256::Fq>, g1(num::<bn256::Fq>())),
            ops!("g1 bls", G1PointData<bls12_381::Fq>, g1(num::<bls12_381::Fq>())),
            ops!("g2 bn", G2PointData<bn256::Fq>, g2(num::<bn256::Fq>())),
            ops!("g2 bls", G2PointData<bls12_381::Fq>, g2(num::<bls12_381::Fq>())),
            ops!("proof bn", ProofData<bn256::Fq>, proofd(num::<bn256::Fq>())),
            ops!("proof bls", ProofData<bls12_381::Fq>, proofd(num::<bls12_381::Fq>())),
            ops!("key bn", TruncatedVerifyingKeyData<bn256::Fq>, tvkd(num::<bn256::Fq>())),
            ops!("key bls", TruncatedVerifyingKeyData<bls12_381::Fq>, tvkd(num::<bls12_381::Fq>())),
            ops!("sized 0", SizedVec<Num<bn256::Fr>, U0>, fixed(num::<bn256::Fr>(), 0)),
            ops!("sized 1", SizedVec<Num<bn256::Fr>, U1>, fixed(num::<bn256::Fr>(), 1)),
            ops!("sized 4", SizedVec<Num<bls12_381::Fr>, U4>, fixed(num::<bls12_381::Fr>(), 4)),
            ops!("sized bool 3", SizedVec<bool, U3>, fixed(B, 3)),
            ops!("merkle 2", MerkleProof<bn256::Fr, U2>, merkle(num::<bn256::Fr>(), 2)),
            ops!("merkle 5", MerkleProof<bls12_381::Fr, U5>, merkle(num::<bls12_381::Fr>(), 5)),
            ops!("inputs", Vec<Num<bn256::Fr>>, Seq(Box::new(num::<bn256::Fr>()))),
            ops!("signature bn", (Num<BnFs>, Num<bn256::Fr>), Tup(vec![num::<BnFs>(), num::<bn256::Fr>()])),
            ops!("signature bls", (Num<BlsFs>, Num<bls12_381::Fr>), Tup(vec![num::<BlsFs>(), num::<bls12_381::Fr>()])),
            ops!("witness bn", Witness<bn256::Fr, BnFs>, witness(num::<bn256::Fr>(), num::<BnFs>())),
            ops!("witness bls", Witness<bls12_381::Fr, BlsFs>, witness(num::<bls12_381::Fr>(), num::<BlsFs>())),
        ]
    })
}

pub fn draw_value(ctx: &Ctx, j: &J) -> Value {
    match j {
        N(p) => {
            let x = match ctx.draw(7) {
                0 => BigUint::from(ctx.draw(3)),
                1 => p - BigUint::from(1 + ctx.draw(3)),
                2 => (BigUint::from(1u32) << ctx.below(p.bits())) % p,
                _ => {
                    let mut r = ctx.prng();
                    let b: Vec<u8> = (0..56).map(|_| r.next() as u8).collect();
                    BigUint::from_bytes_le(&b) % p
                }
            };
            json!(x.to_string())
        }
        B => json!(ctx.draw(2) == 1),
        Tup(v) => Value::Array(v.iter().map(|x| draw_value(ctx, x)).collect()),
        Seq(x) => Value::Array((0..ctx.size(4, 200, 300)).map(|_| draw_value(ctx, x)).collect()),
        Fixed(x, n) => Value::Array((0..*n).map(|_| draw_value(ctx, x)).collect()),
        Obj(v) => Value::Object(v.iter().map(|(k, x)| (k.to_string(), draw_value(ctx, x))).collect()),
    }
}

/// What the receiver must do with a parsed message.
#[derive(Debug, PartialEq)]
pub enum Verdict {
    Must(Value),
    /// Refusal is fine too.
    May(Value),
    No,
}
use Verdict::*;

pub fn judge(j: &J, v: &Value) -> Verdict {
    fn all(vs: Vec<Verdict>) -> Option<(bool, Vec<Value>)> {
        let mut may = false;
        let mut out = vec![];
        for x in vs {
            match x {
                Must(v) => out.push(v),
                May(v) => {
                    may = true;
                    out.push(v)
                }
                No => return None,
            }
        }
        Some((may, out))
    }
    fn wrap(may: bool, v: Value) -> Verdict {
        if may { May(v) } else { Must(v) }
    }
    match j {
        N(p) => match v.as_str() {
            Some(s) => {
                let canon = !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) && (s == "0" || !s.starts_with('0'));
                let t: String = s.strip_prefix('+').unwrap_or(s).chars().filter(|c| *c != '_').collect();
                if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) {
                    return No;
                }
                let x: BigUint = t.parse().unwrap();
                if x >= *p {
                    return No;
                }
                wrap(!canon, json!(x.to_string()))
            }
            None => No,
        },
        B => if v.is_boolean() { Must(v.clone()) } else { No },
        Tup(ts) => match v.as_array() {
            Some(a) if a.len() == ts.len() => match all(ts.iter().zip(a).map(|(t, x)| judge(t, x)).collect()) {
                Some((m, vs)) => wrap(m, Value::Array(vs)),
                None => No,
            },
            _ => No,
        },
        Seq(t) => match v.as_array() {
            Some(a) => match all(a.iter().map(|x| judge(t, x)).collect()) {
                Some((m, vs)) => wrap(m, Value::Array(vs)),
                None => No,
            },
            _ => No,
        },
        Fixed(t, n) => match v.as_array() {
            Some(a) if a.len() == *n => match all(a.iter().map(|x| judge(t, x)).collect()) {
                Some((m, vs)) => wrap(m, Value::Array(vs)),
                None => No,
            },
            _ => No,
        },
        Obj(fs) => {
            let (vals, odd): (Vec<Value>, bool) = match v {
                Value::Object(m) => {
                    let mut r = vec![];
                    for (k, _) in fs {
                        match m.get(*k) {
                            Some(x) => r.push(x.clone()),
                            None => return No,
                        }
                    }
                    (r, m.len() != fs.len())
                }
                Value::Array(a) if a.len() == fs.len() => (a.clone(), true),
                _ => return No,
            };
            match all(fs.iter().zip(&vals).map(|((_, t), x)| judge(t, x)).collect()) {
                Some((m, vs)) => {
                    let o: Map<String, Value> = fs.iter().zip(vs).map(|((k, _), v)| (k.to_string(), v)).collect();
                    wrap(m || odd, Value::Object(o))
                }
                None => No,
            }
        }
    }
}

/// One structural mutation somewhere in the message; returns its name.
pub fn mutate(ctx: &Ctx, j: &J, v: &mut Value) -> String {
    // walk down
    match (j, &mut *v) {
        (Tup(ts), Value::Array(a)) if !a.is_empty() && a.len() == ts.len() && ctx.chance(2, 3) => {
            let i = ctx.below(a.len());
            return mutate(ctx, &ts[i], &mut a[i]);
        }
        (Seq(t), Value::Array(a)) | (Fixed(t, _), Value::Array(a)) if !a.is_empty() && ctx.chance(2, 3) => {
            let i = ctx.below(a.len());
            return mutate(ctx, t, &mut a[i]);
        }
        (Obj(fs), Value::Object(m)) if ctx.chance(3, 4) => {
            let (k, t) = &fs[ctx.below(fs.len())];
            if let Some(x) = m.get_mut(*k) {
                return mutate(ctx, t, x);
            }
        }
        _ => {}
    }
    let num_of = |v: &Value| v.as_str().and_then(|s| s.parse::<BigUint>().ok()).unwrap_or_default();
    match j {
        N(p) => {
            let x = num_of(v);
            let (nv, name) = match ctx.draw(14) {
                0 => (json!(p.to_string()), "modulus"),
                1 => (json!((&x + p).to_string()), "plus-modulus"),
                2 => (json!((p + BigUint::from(1 + ctx.draw(5))).to_string()), "above-modulus"),
                3 => (json!(format!("-{}", x)), "negative"),
                4 => (json!(""), "empty"),
                5 => (json!(format!("0{}", x)), "leading-zero"),
                6 => (json!(format!(" {}", x)), "space"),
                7 => (json!(ctx.draw(1000)), "bare-number"),
                8 => (Value::Null, "null"),
                9 => (json!(format!("0x{:x}", x)), "hex"),
                10 => (json!((&x + (p << (1 + ctx.below(300)))).to_string()), "plus-multiple"),
                11 => (json!(format!("{}.0", x)), "fraction"),
                12 => (json!([x.to_string()]), "wrapped"),
                _ => (json!((BigUint::from(1u32) << (256 + ctx.below(200))).to_string()), "huge"),
            };
            *v = nv;
            name.to_string()
        }
        B => {
            *v = match ctx.draw(4) {
                0 => json!(1),
                1 => json!("true"),
                2 => Value::Null,
                _ => json!([]),
            };
            "bool-type".into()
        }
        Tup(_) | Seq(_) | Fixed(_, _) => {
            let a = v.as_array().cloned().unwrap_or_default();
            let mut a2 = a.clone();
            let name = match ctx.draw(6) {
                0 => {
                    a2.pop();
                    "drop-last"
                }
                1 => {
                    if !a2.is_empty() {
                        a2.remove(0);
                    }
                    "drop-first"
                }
                2 => {
                    let x = a2.last().cloned().unwrap_or(json!("1"));
                    a2.push(x);
                    "surplus"
                }
                3 => {
                    a2.clear();
                    "clear"
                }
                4 => {
                    a2.reverse();
                    "reverse"
                }
                _ => {
                    *v = ctx.pick(&[Value::Null, json!("x"), json!({}), json!(true)]).clone();
                    return "seq-type".into();
                }
            };
            *v = Value::Array(a2);
            name.into()
        }
        Obj(fs) => {
            let m = v.as_object().cloned().unwrap_or_default();
            let mut m2 = m.clone();
            let name = match ctx.draw(6) {
                0 => {
                    m2.remove(fs[ctx.below(fs.len())].0);
                    "drop-field"
                }
                1 => {
                    m2.insert("extra".into(), json!("1"));
                    "extra-field"
                }
                2 => {
                    let (a, b) = (fs[ctx.below(fs.len())].0, fs[ctx.below(fs.len())].0);
                    let (x, y) = (m2.get(a).cloned().unwrap_or(Value::Null), m2.get(b).cloned().unwrap_or(Value::Null));
                    m2.insert(a.into(), y);
                    m2.insert(b.into(), x);
                    "swap-fields"
                }
                3 => {
                    *v = Value::Array(fs.iter().map(|(k, _)| m.get(*k).cloned().unwrap_or(Value::Null)).collect());
                    return "as-array".into();
                }
                4 => {
                    let k = fs[ctx.below(fs.len())].0;
                    if let Some(x) = m2.remove(k) {
                        m2.insert(format!("{}_", k), x);
                    }
                    "rename-field"
                }
                _ => {
                    *v = Value::Null;
                    return "null".into();
                }
            };
            *v = Value::Object(m2);
            name.into()
        }
    }
}

/// A receiver that puts a fixed-size vector together from elements sent one
/// by one over a link that may lose, repeat and reorder them.
fn assemble<L: Unsigned>(ctx: &Ctx) -> Outcome {
    type F = bn256::Fr;
    let n = L::USIZE;
    let sent: Vec<Num<F>> = (0..n).map(|i| Num::from((i as u64) * 7 + 1)).collect();
    let mut got: Vec<Num<F>> = Vec::new();
    for x in &sent {
        match ctx.draw(if n > 4 { 3 * n as u64 } else { 8 }) {
            1 => ctx.fault("net:lose"),
            2 => {
                ctx.fault("net:duplicate");
                got.push(*x);
                got.push(*x);
            }
            _ => got.push(*x),
        }
    }
    if ctx.chance(1, 4) {
        let i = ctx.below(got.len() + 1);
        got.insert(i, Num::from(0u64));
        ctx.fault("net:stray");
    }
    if got.len() > 1 && ctx.chance(1, 4) {
        let l = got.len();
        got.swap(0, l - 1);
        ctx.fault("net:reorder");
    }
    let r = guarded(|| got.iter().cloned().collect::<SizedVec<Num<F>, L>>());
    ctx.op();
    ctx.checked();
    ctx.event(format!("assemble {} from {} -> ok={}", n, got.len(), r.is_ok()));
    match r {
        Ok(v) => {
            ensure!(got.len() == n, "vector-length", "a vector of {} elements was made from {}", n, got.len());
            ensure!(v.iter().zip(got.iter()).all(|(a, b)| a == b) && v.iter().count() == n, "vector-value", "a vector of {} elements does not hold what was collected into it", n);
            let mut m = v.clone();
            m.iter_mut().for_each(|x| *x += Num::one());
            ensure!((0..n).all(|i| m[i] == got[i] + Num::one() && v[i] == got[i]), "vector-value", "elements of a vector of {} are not what was stored", n);
        }
        Err(_) => ensure!(got.len() != n, "vector-refused", "a vector of {} elements cannot be made from {}", n, got.len()),
    }
    Ok(())
}

fn run(ctx: &Ctx) -> Outcome {
    if ctx.chance(1, 40) {
        return match ctx.draw(6) {
            0 => assemble::<U0>(ctx),
            1 => assemble::<U1>(ctx),
            2 => assemble::<U2>(ctx),
            3 => assemble::<U3>(ctx),
            4 => assemble::<U32>(ctx),
            _ => assemble::<U256>(ctx),
        };
    }
    let t = table();
    let o = &t[ctx.below(t.len())];
    let schema = (o.schema)();
    let val = draw_value(ctx, &schema);
    let plain = val.to_string();
    // the sender encodes
    for attempt in 0..2 {
        let cfg = if attempt == 1 { StreamCfg::calm() } else { StreamCfg::draw(ctx, plain.len(), true) };
        let mut w = SimWriter::new(ctx, cfg);
        let r = match guarded(|| (o.write)(&val, &mut w)) {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => violated!("refuses-valid", "a valid {} is refused: {} ({})", o.name, e, plain),
            Err(p) => violated!("panic", "encoding {} panicked: {}", o.name, p),
        };
        ctx.op();
        ctx.checked();
        ctx.event(format!("send {} {:x} -> ok={} failed={}", o.name, hash_str(&plain), r.is_ok(), w.failed));
        match r {
            Ok(()) => {
                ensure!(!w.failed, "encode-error-lost", "the link failed and encoding {} reported success", o.name);
                let back: Option<Value> = serde_json::from_slice(&w.out).ok();
                ensure!(back.as_ref() == Some(&val), "encode-value", "{} is encoded as {} instead of {}", o.name, String::from_utf8_lossy(&w.out), plain);
                break;
            }
            Err(e) => ensure!(w.failed, "encode-spurious-error", "encoding {} failed on a working link: {}", o.name, e),
        }
    }
    // the message on its way
    let mut msg = val.clone();
    let mut what = String::from("intact");
    if ctx.chance(2, 3) {
        what = mutate(ctx, &schema, &mut msg);
        if ctx.chance(1, 8) {
            what = format!("{}+{}", what, mutate(ctx, &schema, &mut msg));
        }
        ctx.fault(&format!("data:{}", what.split('+').next().unwrap()));
    }
    let mut text = if ctx.chance(1, 4) { serde_json::to_string_pretty(&msg).unwrap() } else { msg.to_string() }.into_bytes();
    if ctx.chance(1, 4) {
        match ctx.draw(4) {
            0 => {
                let l = ctx.below(text.len());
                text.truncate(l);
                ctx.fault("data:truncate");
                what = format!("{}+truncate", what);
            }
            1 => {
                let i = ctx.below(text.len());
                text[i] ^= 1 << ctx.draw(7);
                ctx.fault("data:flip");
                what = format!("{}+flip", what);
            }
            2 => {
                let i = ctx.below(text.len());
                text.remove(i);
                ctx.fault("data:lose_byte");
                what = format!("{}+lose", what);
            }
            _ => {
                text.extend_from_slice(*ctx.pick(&[&b" "[..], b"}", b"1", b"\"\"", b",", b"\n\n"]));
                ctx.fault("data:append");
                what = format!("{}+append", what);
            }
        }
    }
    let parsed: Option<Value> = serde_json::from_slice(&text).ok();
    let want = match &parsed {
        Some(v) => judge(&schema, v),
        None => No,
    };
    // the receiver decodes, from memory or from a stream
    let (got, failed) = if ctx.chance(1, 3) {
        match std::str::from_utf8(&text) {
            Ok(s) => (guarded(|| (o.text)(s)), false),
            Err(_) => return Ok(()),
        }
    } else {
        let mut cfg = StreamCfg::draw(ctx, text.len(), true);
        cfg.gap += 20;
        let mut r = SimReader::new(ctx, &text, cfg);
        let g = guarded(|| (o.read)(&mut r));
        (g, r.failed)
    };
    let got = match got {
        Ok(g) => g,
        Err(p) => violated!("panic", "decoding {} panicked: {}", o.name, p),
    };
    ctx.op();
    ctx.checked();
    ctx.event(format!("receive {} {} -> ok={} failed={}", o.name, what, got.is_ok(), failed));
    ctx.state(hash_str(&format!("{} {} {}", o.name, what, got.is_ok())));
    let shown = String::from_utf8_lossy(&text).into_owned();
    match (got, want) {
        (Ok(_), _) if failed => violated!("decode-error-lost", "the link failed and decoding {} reported success", o.name),
        (Ok(g), Must(w)) | (Ok(g), May(w)) => {
            ensure!(g == w, "decode-value", "{} decodes to {} instead of {}", shown, g, w);
            ctx.probe("accepted");
        }
        (Ok(g), No) => violated!("accepts-invalid", "a malformed {} ({}) is accepted as {}: {}", o.name, what, g, shown),
        (Err(e), Must(_)) => {
            ensure!(failed, "refuses-valid", "a valid {} is refused: {} ({})", o.name, e, shown);
        }
        (Err(_), _) => ctx.probe("refused"),
    }
    Ok(())
}
