//! Proofs on byte streams that fail, several to a stream.
use crate::core::*;
use crate::engines::*;
use crate::runner::World;
use crate::streams::*;
use pairing::{bls12_381::Bls12, bn256::Bn256};

pub const WORLD: World = World {
    id: "C02",
    run,
    quick: 4000,
    thorough: 200_000,
    rule: "a run is a history of appending, damaging and reading back proofs on one simulated stream; non-trivial: at least one injected stream or data fault and at least one oracle comparison; distinct by hash of the event history",
    state_measure: "(engine, proofs on the stream, fault offset, kind of damage, verdicts) tuples",
    real: &["Proof::write/read on both engines", "bellman_ce and pairing_ce codecs"],
    stub: &["the byte stream (reader and writer arguments)"],
    assumptions: &["pairing_ce's compressed codec and group law are right", "a reader or writer may transfer any part of what is asked and may fail at any byte"],
};

fn run(ctx: &Ctx) -> Outcome {
    if ctx.draw(2) == 0 {
        go::<Bn256>(ctx)
    } else {
        go::<Bls12>(ctx)
    }
}

fn go<E: Eng>(ctx: &Ctx) -> Outcome {
    let n = 1 + ctx.size(4, 40, 40);
    let size = proof_size::<E>();
    let proofs: Vec<_> = (0..n).map(|_| draw_proof::<E>(ctx)).collect();
    let want: Vec<u8> = proofs.iter().flat_map(|p| enc_proof(&p.0)).collect();
    // append them all to one stream
    for round in 0..3 {
        let cfg = if round == 2 { StreamCfg::calm() } else { StreamCfg::draw(ctx, n * size, true) };
        let mut w = SimWriter::new(ctx, cfg.clone());
        let mut refused = false;
        for (i, p) in proofs.iter().enumerate() {
            let before = w.failed;
            let r = match guarded(|| E::proof_write(p, &mut w)) {
                Ok(r) => r,
                Err(m) => violated!("write-panic", "writing a proof panicked: {}", m),
            };
            ctx.op();
            ctx.checked();
            let failed = w.failed && !before;
            ctx.event(format!("write proof {} -> ok={} at {}", i, r.is_ok(), w.out.len()));
            ensure!(want.starts_with(&w.out), "write-bytes", "the stream received bytes that are not the proofs' encoding");
            match r {
                Ok(()) => {
                    ensure!(!failed, "write-error-lost", "the stream failed and write reported success");
                    ensure!(w.out.len() == (i + 1) * size, "write-incomplete", "write reported success after {} bytes of {}", w.out.len(), (i + 1) * size);
                }
                Err(e) => {
                    ensure!(failed || w.failed, "write-spurious-error", "write failed on a stream that did not: {}", e);
                    refused = true;
                    break;
                }
            }
        }
        if !refused {
            break;
        }
        ensure!(round < 2, "write-stuck", "no write succeeds after faults stopped");
    }
    // read them back
    for round in 0..ctx.range(1, 4) {
        let mut b = want.clone();
        let mut what = "intact".to_string();
        if ctx.chance(1, 2) {
            let items: Vec<usize> = (0..n).flat_map(|_| vec![csize::<E::G1Affine>(), csize::<E::G2Affine>(), csize::<E::G1Affine>()]).collect();
            what = damage::<E>(ctx, &mut b, &items);
            ctx.event(format!("damage: {}", what));
        }
        let hard = ctx.chance(2, 3);
        let cfg = StreamCfg::draw(ctx, b.len(), hard);
        read_all::<E>(ctx, &b, n, cfg, &what, round)?;
    }
    read_all::<E>(ctx, &want, n, StreamCfg::calm(), "intact", 99)
}

fn read_all<E: Eng>(ctx: &Ctx, b: &[u8], n: usize, cfg: StreamCfg, what: &str, round: usize) -> Outcome {
    let size = proof_size::<E>();
    let mut rd = SimReader::new(ctx, b, cfg.clone());
    let mut verdicts = String::new();
    for i in 0..n + 1 {
        let at = rd.pos;
        let r = match guarded(|| E::proof_read(&mut rd)) {
            Ok(r) => r,
            Err(m) => violated!("read-panic", "reading a proof panicked: {}", m),
        };
        ctx.op();
        ctx.checked();
        let w = dec_proof::<E>(&b[at.min(b.len())..]);
        ctx.event(format!("round {} read {} at {} ({}) -> ok={} want={} failed={}", round, i, at, what, r.is_ok(), w.is_some(), rd.failed));
        verdicts.push(if r.is_ok() { '1' } else { '0' });
        match (r, w) {
            (Ok(_), _) if rd.failed => violated!("read-error-lost", "the stream failed at byte {} and read returned a proof", rd.pos),
            (Ok(p), Some(w)) => {
                ensure!(p.0.a == w.a && p.0.b == w.b && p.0.c == w.c, "read-wrong-proof", "read returned another proof than the stream holds at byte {}", at);
                ensure!(rd.pos == at + size, "read-consumes", "reading one proof took {} bytes of the stream, not {}", rd.pos - at, size);
                ctx.probe("loaded");
            }
            (Ok(_), None) => violated!("read-accepts-invalid", "read accepted bytes that are not a proof ({})", what),
            (Err(e), Some(_)) => {
                ensure!(rd.failed, "read-rejects-valid", "read refused a complete proof: {}", e);
                break;
            }
            (Err(_), None) => break,
        }
    }
    ctx.state(hash_str(&format!("{} {} {:?} {} {}", E::NAME, n, cfg.hard_at, what.split(' ').next().unwrap_or(""), verdicts)));
    Ok(())
}
