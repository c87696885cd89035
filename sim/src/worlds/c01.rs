//! Verifying keys on byte streams that fail.
use crate::core::*;
use crate::engines::*;
use crate::streams::*;
use crate::gen::hex;
use crate::runner::World;
use fawkes_crypto::helpers::groth16::verifier::TruncatedVerifyingKey;
use pairing::{bls12_381::Bls12, bn256::Bn256};

pub const WORLD: World = World {
    id: "C01",
    run,
    quick: 3000,
    thorough: 150_000,
    rule: "a run is a history of stores, damages and loads of verifying keys on simulated streams; non-trivial: at least one injected stream or data fault and at least one oracle comparison; distinct by hash of the event history",
    state_measure: "(engine, stream length, fault offset, kind of damage, verdict) tuples seen at a load",
    real: &["TruncatedVerifyingKey::write/read on both engines", "pairing_ce point codec"],
    stub: &["the byte stream (reader and writer arguments)"],
    assumptions: &["pairing_ce's compressed codec and group law are right", "a reader or writer may transfer any part of what is asked and may fail at any byte"],
};

fn run(ctx: &Ctx) -> Outcome {
    if ctx.draw(2) == 0 {
        go::<Bn256>(ctx)
    } else {
        go::<Bls12>(ctx)
    }
}

fn store<E: Eng>(ctx: &Ctx, key: &TruncatedVerifyingKey<E>, cfg: StreamCfg) -> Result<Option<Vec<u8>>, Violation> {
    let want = enc_tvk(key);
    let mut w = SimWriter::new(ctx, cfg.clone());
    let r = guarded(|| key.write(&mut w));
    let (out, failed) = (w.out, w.failed);
    let r = match r {
        Ok(r) => r,
        Err(p) => violated!("write-panic", "writing a key panicked: {}", p),
    };
    ctx.op();
    ctx.checked();
    ctx.event(format!("store n_ic={} cfg={:?} -> ok={} wrote={}/{}", key.ic.len(), cfg, r.is_ok(), out.len(), want.len()));
    ensure!(want.starts_with(&out), "write-bytes", "the stream received bytes that are not the key's encoding");
    match r {
        Ok(()) => {
            ensure!(!failed, "write-error-lost", "the stream failed after {} bytes and write reported success", out.len());
            ensure!(out == want, "write-incomplete", "write reported success with {} of {} bytes written", out.len(), want.len());
            Ok(Some(out))
        }
        Err(e) => {
            ensure!(failed, "write-spurious-error", "write failed on a stream that did not: {}", e);
            Ok(None)
        }
    }
}

fn load<E: Eng>(ctx: &Ctx, bytes: &[u8], cfg: StreamCfg, damaged: &str) -> Result<(), Violation> {
    let mut rd = SimReader::new(ctx, bytes, cfg.clone());
    let r = guarded(|| TruncatedVerifyingKey::<E>::read(&mut rd));
    let failed = rd.failed;
    let pos = rd.pos;
    let r = match r {
        Ok(r) => r,
        Err(p) => violated!("read-panic", "reading a key panicked: {}", p),
    };
    ctx.op();
    ctx.checked();
    let want = dec_tvk::<E>(bytes);
    ctx.event(format!("load len={} cfg={:?} -> ok={} want={} failed={}", bytes.len(), cfg, r.is_ok(), want.is_some(), failed));
    ctx.state(hash_str(&format!("{} {} {:?} {} {}", E::NAME, bytes.len(), cfg.hard_at, damaged.split(' ').next().unwrap_or(""), r.is_ok())));
    match (r, want) {
        (Ok(k), _) if failed => violated!("read-error-lost", "the stream failed at byte {} and read returned a key with {} inputs", pos, k.ic.len()),
        (Ok(k), Some(w)) => {
            ensure!(same_tvk(&k, &w), "read-wrong-key", "read returned another key than the stream holds ({} of {} inputs)", k.ic.len(), w.ic.len());
            ctx.probe("loaded");
        }
        (Ok(_), None) => violated!("read-accepts-invalid", "read accepted a stream that is not a key ({}): {}", damaged, hex(&bytes[..bytes.len().min(64)])),
        (Err(e), Some(_)) => {
            ensure!(failed, "read-rejects-valid", "read refused a complete key: {}", e);
            ctx.probe("refused_after_stream_error");
        }
        (Err(_), None) => ctx.probe("refused_invalid"),
    }
    Ok(())
}

fn go<E: Eng>(ctx: &Ctx) -> Outcome {
    let n_ic = match ctx.draw(4) {
        0 => 1,
        1 => ctx.range(0, 3),
        2 => ctx.range(1, 8),
        _ => ctx.size(25, 10, 300),
    };
    let key = draw_tvk::<E>(ctx, n_ic);
    let items: Vec<usize> = {
        let (n1, n2) = (csize::<E::G1Affine>(), csize::<E::G2Affine>());
        let mut v = vec![n1, n2, n2, n2];
        v.extend(std::iter::repeat(n1).take(n_ic));
        v
    };
    let len = items.iter().sum::<usize>();
    // store, retrying while the disk fails
    let mut disk = None;
    for _ in 0..3 {
        disk = store(ctx, &key, StreamCfg::draw(ctx, len, true))?;
        if disk.is_some() {
            break;
        }
    }
    let disk = match disk {
        Some(d) => d,
        None => store(ctx, &key, StreamCfg::calm())?.ok_or_else(|| Violation::new("write-stuck", "no store succeeds"))?,
    };
    for _ in 0..ctx.range(1, 4) {
        let mut b = disk.clone();
        let mut what = "intact".to_string();
        if ctx.chance(1, 2) {
            what = damage::<E>(ctx, &mut b, &items);
            if ctx.chance(1, 6) {
                let its = if b.len() == len { items.clone() } else { vec![] };
                if !its.is_empty() {
                    what = format!("{}, {}", what, damage::<E>(ctx, &mut b, &its));
                }
            }
            ctx.event(format!("damage: {}", what));
        }
        let hard = ctx.chance(2, 3);
        let mut cfg = StreamCfg::draw(ctx, b.len(), hard);
        // bias failures to the seams between points
        if cfg.hard_at.is_some() && ctx.chance(1, 2) {
            let k = ctx.below(items.len() + 1);
            let o: usize = items[..k].iter().sum();
            let o = o + ctx.below(2);
            cfg.hard_at = Some(o.min(b.len()));
        }
        load::<E>(ctx, &b, cfg, &what)?;
    }
    // faults stop: the stored key reads back
    load::<E>(ctx, &disk, StreamCfg::calm(), "intact")
}
