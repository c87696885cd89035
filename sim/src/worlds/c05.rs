//! Points from Byzantine peers.
use crate::core::*;
use crate::engines::*;
use crate::gen::*;
use crate::runner::World;
use crate::streams::*;
use borsh::BorshDeserialize;
use fawkes_crypto::helpers::groth16::prover::ProofData;
use fawkes_crypto::helpers::groth16::verifier::{TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use num::bigint::BigUint;
use pairing::{bls12_381::Bls12, bn256::Bn256, CurveAffine, EncodedPoint};
use serde_json::{json, Value};

pub const WORLD: World = World {
    id: "C05",
    run,
    quick: 60_000,
    thorough: 4_000_000,
    rule: "a run is a proof or key sent by a peer that may be Byzantine at any subset of its points, in byte, binary or JSON form; non-trivial: at least one Byzantine point and one oracle comparison; distinct by hash of the event history",
    state_measure: "Byzantine coordinate tuples, and (engine, form, structure, positions and kinds of Byzantine points, verdict) tuples",
    real: &["from_data/into_data and read of proofs and keys on both engines", "point conversions with their checks"],
    stub: &["the peer and the byte stream"],
    assumptions: &["pairing_ce's group law and uncompressed on-curve check are right"],
};

fn run(ctx: &Ctx) -> Outcome {
    if ctx.draw(2) == 0 {
        go::<Bn256>(ctx)
    } else {
        go::<Bls12>(ctx)
    }
}

/// A point as its sender wrote it: coordinates, base field components low
/// first; `None` coordinates stand for infinity.
struct Sent<C> {
    xy: Vec<BigUint>,
    /// The group element, if it is one.
    elem: Option<C>,
    kind: &'static str,
}

pub fn from_coords<C: CurveAffine>(xy: &[BigUint], w: usize) -> Option<C> {
    if xy.iter().all(is_zero_big) {
        return Some(C::zero());
    }
    let order: Vec<usize> = if xy.len() == 2 { vec![0, 1] } else { vec![1, 0, 3, 2] };
    let mut u = C::Uncompressed::empty();
    let mut b = vec![];
    for i in order {
        let mut c = xy[i].to_bytes_le();
        c.resize(w, 0);
        c.reverse();
        b.extend(c);
    }
    u.as_mut().copy_from_slice(&b);
    let p = u.into_affine_unchecked().ok()?;
    if !on_curve(&p) || !in_subgroup(&p) {
        return None;
    }
    Some(p)
}

fn draw_point<C: CurveAffine>(ctx: &Ctx, byz: bool, good: &[C], bad: &[C], odd: &[Vec<BigUint>], p: &BigUint, w: usize) -> Sent<C> {
    let g = *ctx.pick(good);
    let xy = coords(&g, w).unwrap();
    if !byz {
        return Sent { xy, elem: Some(g), kind: "honest" };
    }
    let mut v = xy.clone();
    let h = v.len() / 2;
    let kind = match ctx.draw(12) {
        0 if !bad.is_empty() => {
            v = coords(ctx.pick(bad), w).unwrap();
            "outside-subgroup"
        }
        1 => {
            v.iter_mut().for_each(|x| *x = BigUint::from(0u32));
            "infinity"
        }
        2 => {
            let i = ctx.below(v.len());
            v[i] = (&v[i] + BigUint::from(1 + ctx.draw(3))) % p;
            "off-by-little"
        }
        3 => {
            let i = ctx.below(v.len());
            v[i] = BigUint::from(0u32);
            "zero-coordinate"
        }
        4 => {
            let (a, b) = v.split_at_mut(h);
            a.swap_with_slice(b);
            "swap-x-y"
        }
        5 if h == 2 => {
            v.swap(0, 1);
            v.swap(2, 3);
            "swap-components"
        }
        6 => {
            // the negative: a legitimate point
            for y in v[h..].iter_mut() {
                *y = (p - &*y) % p;
            }
            "negated"
        }
        7 => {
            let mut r = ctx.prng();
            for x in v.iter_mut() {
                let b: Vec<u8> = (0..64).map(|_| r.next() as u8).collect();
                *x = BigUint::from_bytes_le(&b) % p;
            }
            "random"
        }
        8 => {
            let o = coords(ctx.pick(good), w).unwrap();
            v[..h].clone_from_slice(&o[..h]);
            "mixed-points"
        }
        9 | 10 => {
            v = ctx.pick(odd).clone();
            "odd-coordinates"
        }
        _ => {
            v.iter_mut().for_each(|x| *x = BigUint::from(0u32));
            let k = ctx.below(2 * h);
            v[k] = BigUint::from(ctx.draw(3));
            "tiny"
        }
    };
    ctx.state(hash_str(&format!("{} {:?}", kind, v)));
    let elem = from_coords::<C>(&v, w);
    Sent { xy: v, elem, kind }
}

fn j1(v: &[BigUint]) -> Value {
    json!([v[0].to_string(), v[1].to_string()])
}
fn j2(v: &[BigUint]) -> Value {
    json!([[v[1].to_string(), v[0].to_string()], [v[3].to_string(), v[2].to_string()]])
}
fn le(v: &[BigUint], w: usize) -> Vec<u8> {
    v.iter().flat_map(|x| { let mut b = x.to_bytes_le(); b.resize(w, 0); b }).collect()
}

fn same<C: CurveAffine>(a: &C, b: &C) -> bool {
    (a.is_zero() && b.is_zero()) || a == b
}

fn go<E: Eng>(ctx: &Ctx) -> Outcome {
    let w = fq_bytes::<E>();
    let p = modulus::<E::Fq>();
    let pools = E::pools();
    let is_key = ctx.draw(2) == 1;
    let n_ic = if is_key { ctx.size(4, 12, 40) } else { 0 };
    // which positions are Byzantine
    let n_pts = if is_key { 4 + n_ic } else { 3 };
    let who = match ctx.draw(8) {
        0 => None,
        _ => Some(ctx.below(n_pts)),
    };
    let more = ctx.chance(1, 8);
    let byz = |i: usize| Some(i) == who || (more && ctx.chance(1, 2));
    let g1 = |i: usize| draw_point::<E::G1Affine>(ctx, byz(i), &pools.g1, &pools.bad1, &pools.odd1, &p, w);
    let g2 = |i: usize| draw_point::<E::G2Affine>(ctx, byz(i), &pools.g2, &pools.bad2, &pools.odd2, &p, w);
    let form = ctx.draw(3);
    let form_name = ["json", "binary", "bytes"][form as usize];
    if form == 2 {
        return bytes_form::<E>(ctx, is_key);
    }
    let (res, all_ok, desc) = if is_key {
        let (a, b, c, d) = (g1(0), g2(1), g2(2), g2(3));
        let ic: Vec<_> = (0..n_ic).map(|i| g1(4 + i)).collect();
        let desc: Vec<&str> = [a.kind, b.kind, c.kind, d.kind].iter().copied().chain(ic.iter().map(|x| x.kind)).collect();
        let ok = a.elem.is_some() && b.elem.is_some() && c.elem.is_some() && d.elem.is_some() && ic.iter().all(|x| x.elem.is_some());
        let data: TruncatedVerifyingKeyData<E::Fq> = if form == 0 {
            serde_json::from_value(json!({"alpha_g1": j1(&a.xy), "beta_g2": j2(&b.xy), "gamma_g2": j2(&c.xy), "delta_g2": j2(&d.xy),
                "ic": ic.iter().map(|x| j1(&x.xy)).collect::<Vec<_>>()})).map_err(|e| Violation::new("decode", e.to_string()))?
        } else {
            let mut v = [le(&a.xy, w), le(&b.xy, w), le(&c.xy, w), le(&d.xy, w)].concat();
            v.extend((n_ic as u32).to_le_bytes());
            ic.iter().for_each(|x| v.extend(le(&x.xy, w)));
            TruncatedVerifyingKeyData::try_from_slice(&v).map_err(|e| Violation::new("decode", e.to_string()))?
        };
        let r = guarded(|| E::tvk_from(&data));
        if let (Ok(k), true) = (&r, ok) {
            ensure!(
                same(&k.alpha_g1, a.elem.as_ref().unwrap()) && same(&k.beta_g2, b.elem.as_ref().unwrap()) && same(&k.gamma_g2, c.elem.as_ref().unwrap())
                    && same(&k.delta_g2, d.elem.as_ref().unwrap()) && k.ic.len() == n_ic && k.ic.iter().zip(&ic).all(|(x, y)| same(x, y.elem.as_ref().unwrap())),
                "import-changes-point", "a {} key is imported as another key {:?}", E::NAME, desc
            );
            ensure!(E::tvk_data(k) == data, "export-differs", "exporting an imported {} key gives another message {:?}", E::NAME, desc);
        }
        (r.map(|_| ()), ok, desc)
    } else {
        let (a, b, c) = (g1(0), g2(1), g1(2));
        let desc = vec![a.kind, b.kind, c.kind];
        let ok = a.elem.is_some() && b.elem.is_some() && c.elem.is_some();
        let data: ProofData<E::Fq> = if form == 0 {
            serde_json::from_value(json!({"a": j1(&a.xy), "b": j2(&b.xy), "c": j1(&c.xy)})).map_err(|e| Violation::new("decode", e.to_string()))?
        } else {
            ProofData::try_from_slice(&[le(&a.xy, w), le(&b.xy, w), le(&c.xy, w)].concat()).map_err(|e| Violation::new("decode", e.to_string()))?
        };
        let r = guarded(|| E::proof_from(&data));
        if let (Ok(k), true) = (&r, ok) {
            ensure!(
                same(&k.0.a, a.elem.as_ref().unwrap()) && same(&k.0.b, b.elem.as_ref().unwrap()) && same(&k.0.c, c.elem.as_ref().unwrap()),
                "import-changes-point", "a {} proof is imported as another proof {:?}", E::NAME, desc
            );
            ensure!(E::proof_data(k) == data, "export-differs", "exporting an imported {} proof gives another message {:?}", E::NAME, desc);
        }
        (r.map(|_| ()), ok, desc)
    };
    ctx.op();
    ctx.checked();
    for d in &desc {
        if *d != "honest" {
            ctx.fault(&format!("point:{}", d));
        }
    }
    ctx.event(format!("{} {} {} {:?} -> accepted={} valid={}", E::NAME, form_name, if is_key { "key" } else { "proof" }, desc, res.is_ok(), all_ok));
    ctx.state(hash_str(&format!("{} {} {} {:?} {}", E::NAME, form_name, is_key, desc, res.is_ok())));
    match (res, all_ok) {
        (Ok(()), false) => violated!("accepts-bad-point", "a {} {} with points {:?} was accepted in {} form", E::NAME, if is_key { "key" } else { "proof" }, desc, form_name),
        (Err(m), true) => violated!("refuses-good-point", "a {} {} with points {:?} was refused: {}", E::NAME, if is_key { "key" } else { "proof" }, desc, m),
        (Ok(()), true) => ctx.probe("accepted"),
        (Err(_), false) => ctx.probe("refused"),
    }
    Ok(())
}

/// The compressed stream form.
fn bytes_form<E: Eng>(ctx: &Ctx, is_key: bool) -> Outcome {
    let pools = E::pools();
    let n_ic = ctx.size(4, 12, 40);
    let is_g1: Vec<bool> = if is_key {
        [true, false, false, false].iter().copied().chain(std::iter::repeat(true).take(n_ic)).collect()
    } else {
        vec![true, false, true]
    };
    let who = if ctx.draw(8) == 0 { usize::MAX } else { ctx.below(is_g1.len()) };
    fn one<C: CurveAffine>(ctx: &Ctx, byz: bool, good: &[C], bad: &[C]) -> (Vec<u8>, bool, &'static str) {
        let g = enc(ctx.pick(good));
        if !byz {
            return (g, true, "honest");
        }
        let (b, kind) = match ctx.draw(5) {
            0 if !bad.is_empty() => (enc(ctx.pick(bad)), "outside-subgroup"),
            1 => (enc(&C::zero()), "infinity"),
            2 => {
                let mut b = g.clone();
                let mut r = ctx.prng();
                let n = b.len();
                for x in b[1..n].iter_mut() {
                    *x = r.next() as u8;
                }
                (b, "random")
            }
            3 => {
                let mut b = g.clone();
                let i = ctx.below(b.len());
                b[i] ^= 1 << ctx.draw(8);
                (b, "flip")
            }
            _ => {
                let mut r = ctx.prng();
                (enc(&wild::<C>(&mut r)), "curve-point")
            }
        };
        let ok = ref_point::<C>(&b).is_some();
        (b, ok, kind)
    }
    let mut bytes = vec![];
    let mut ok = true;
    let mut desc = vec![];
    for (i, g1) in is_g1.iter().enumerate() {
        let (b, o, k) = if *g1 { one(ctx, i == who, &pools.g1, &pools.bad1) } else { one(ctx, i == who, &pools.g2, &pools.bad2) };
        bytes.extend(b);
        ok &= o;
        desc.push(k);
        if k != "honest" {
            ctx.fault(&format!("point:{}", k));
        }
    }
    let mut rd = SimReader::new(ctx, &bytes, StreamCfg::calm());
    let acc = if is_key {
        guarded(|| TruncatedVerifyingKey::<E>::read(&mut rd)).map_err(|p| Violation::new("read-panic", p))?.is_ok()
    } else {
        guarded(|| E::proof_read(&mut rd)).map_err(|p| Violation::new("read-panic", p))?.is_ok()
    };
    ctx.op();
    ctx.checked();
    ctx.event(format!("{} bytes {} {:?} -> accepted={} valid={}", E::NAME, if is_key { "key" } else { "proof" }, desc, acc, ok));
    ctx.state(hash_str(&format!("{} bytes {} {:?} {}", E::NAME, is_key, desc, acc)));
    ensure!(!acc || ok, "accepts-bad-point", "a {} {} with points {:?} was accepted in byte form", E::NAME, if is_key { "key" } else { "proof" }, desc);
    ensure!(acc || !ok, "refuses-good-point", "a {} {} with points {:?} was refused in byte form", E::NAME, if is_key { "key" } else { "proof" }, desc);
    ctx.probe(if acc { "accepted" } else { "refused" });
    Ok(())
}
