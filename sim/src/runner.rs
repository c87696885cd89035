//! Seeded search, minimisation, replay files and evidence.
use crate::core::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct World {
    pub id: &'static str,
    pub run: fn(&Ctx) -> Outcome,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub state_measure: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub const HANG_SECS: u64 = 240;

fn root() -> PathBuf {
    if let Ok(p) = std::env::var("FAWKES_SIM_ROOT") {
        return PathBuf::from(p);
    }
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/.."))
}

pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn env_thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t.trim() == "thorough").unwrap_or(false)
}

fn run_seed(seed: u64, id: &str, i: u64) -> u64 {
    mix(mix(seed ^ 0x5eed) ^ hash_str(id) ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15))
}

pub struct RunResult {
    pub ctx: Ctx,
    pub outcome: Outcome,
}

/// Worlds whose runs must not share the library's statics.
fn isolated(w: &World) -> bool {
    w.id == "C15" || w.id == "C17"
}

/// Set while shrinking and replaying: every run starts from a fresh process,
/// whatever the library keeps between calls.
static FRESH: AtomicBool = AtomicBool::new(false);

/// Before any worker starts: what the runs of such a world are copies of.
fn prepare(w: &World) {
    if w.id == "C15" {
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
            crate::simos::warm();
            crate::worlds::c15::prepare()
        });
        h.unwrap().join().expect("fixtures");
    }
}

/// A run's result as bytes, to leave the process it ran in.
pub fn pack(ctx: &Ctx, o: &Outcome) -> Vec<u8> {
    let v = json!({
        "log": *ctx.log.borrow(), "faults": *ctx.faults.borrow(), "probes": *ctx.probes.borrow(),
        "checks": ctx.checks.get(), "ops": ctx.ops.get(), "simtime": ctx.simtime.get(),
        "states": *ctx.states.borrow(), "hash": ctx.trace_hash(), "tape": ctx.recorded(),
        "err": o.as_ref().err().map(|v| (v.class.clone(), v.detail.clone())),
    });
    serde_json::to_vec(&v).unwrap()
}

fn unpack(b: &[u8], thorough: bool) -> RunResult {
    let v: Value = serde_json::from_slice(b).expect("HARNESS:result");
    let of = |k: &str| -> BTreeMap<String, u64> { serde_json::from_value(v[k].clone()).unwrap() };
    let nums = |k: &str| -> Vec<u64> { serde_json::from_value(v[k].clone()).unwrap() };
    let ctx = Ctx::new(Tape::recorded(nums("tape")), thorough);
    *ctx.log.borrow_mut() = serde_json::from_value(v["log"].clone()).unwrap();
    *ctx.faults.borrow_mut() = of("faults");
    *ctx.probes.borrow_mut() = of("probes");
    ctx.checks.set(v["checks"].as_u64().unwrap());
    ctx.ops.set(v["ops"].as_u64().unwrap());
    ctx.simtime.set(v["simtime"].as_u64().unwrap());
    *ctx.states.borrow_mut() = nums("states");
    ctx.set_hash(v["hash"].as_u64().unwrap());
    let e: Option<(String, String)> = serde_json::from_value(v["err"].clone()).unwrap();
    RunResult { ctx, outcome: e.map(|(c, d)| Err(Violation::new(c, d))).unwrap_or(Ok(())) }
}

pub fn run_one(w: &World, tape: Tape, thorough: bool) -> RunResult {
    if isolated(w) || FRESH.load(Ordering::SeqCst) {
        return run_after(w, vec![], tape, thorough).1;
    }
    run_here(w, tape, thorough)
}

/// Runs these one after another in one fresh process, until one fails: which,
/// and how it ended.
fn run_after(w: &World, before: Vec<Tape>, tape: Tape, thorough: bool) -> (usize, RunResult) {
    let copy = tape.clone();
    let at = crate::sched::in_fork(move || {
        let n = before.len();
        for (k, t) in before.into_iter().chain(Some(tape)).enumerate() {
            let r = run_here(w, t, thorough);
            if r.outcome.is_err() || k == n {
                let mut b = (k as u64).to_le_bytes().to_vec();
                b.extend(pack(&r.ctx, &r.outcome));
                return b;
            }
        }
        unreachable!()
    });
    match at {
        Ok(b) => {
            let mut k = [0; 8];
            k.copy_from_slice(&b[..8]);
            // a thread under the scheduler answers without the number
            if b[0] == b'{' {
                (0, unpack(&b, thorough))
            } else {
                (u64::from_le_bytes(k) as usize, unpack(&b[8..], thorough))
            }
        }
        Err(st) => (
            usize::MAX,
            RunResult {
                ctx: Ctx::new(copy, thorough),
                outcome: Err(Violation::new("abort", format!("the process of the run died with status {:#x}", st))),
            },
        ),
    }
}

fn run_here(w: &World, tape: Tape, thorough: bool) -> RunResult {
    let ctx = Ctx::new(tape, thorough);
    crate::simos::reset();
    QUIET.with(|q| q.set(1));
    let r = catch_unwind(AssertUnwindSafe(|| (w.run)(&ctx)));
    QUIET.with(|q| q.set(0));
    crate::simos::reset();
    let outcome = match r {
        Ok(o) => o,
        Err(e) => {
            let txt = panic_text(&e);
            if let Some(msg) = txt.strip_prefix("HARNESS:") {
                Err(Violation::new("HARNESS", msg))
            } else {
                let loc = LAST_PANIC.with(|l| l.borrow().clone());
                Err(Violation::new("panic", format!("uncaught panic at {}: {}", loc, txt)))
            }
        }
    };
    RunResult { ctx, outcome }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = loc.clone());
        if QUIET.with(|q| q.get()) == 0 {
            eprintln!("panic at {}: {}", loc, info);
        }
    }));
}

#[derive(Default)]
struct Stats {
    evals: u64,
    distinct: BTreeSet<u64>,
    nontrivial: BTreeSet<u64>,
    states: BTreeSet<u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    checks: u64,
    ops: u64,
    simtime: u64,
    draws: u64,
    samples: Vec<(u64, Value)>,
}

fn sample(seed: u64, i: u64, ctx: &Ctx) -> Value {
    let log = ctx.log.borrow();
    let mut l: Vec<String> = log.iter().take(30).map(|s| s.chars().take(220).collect()).collect();
    if log.len() > 30 {
        l.push(format!("... {} more events", log.len() - 30));
    }
    json!({
        "run": i, "run_seed": format!("{:#018x}", seed), "events": l,
        "faults": *ctx.faults.borrow(), "oracle_checks": ctx.checks.get(),
    })
}

/// Runs the search in this process.  Returns the lowest failing run.
fn search(w: &World, seed: u64, thorough: bool, runs: u64, cap: Duration, workers: usize, progress: Option<PathBuf>)
    -> (Stats, Option<(u64, RunResult)>, f64, bool)
{
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let stats = Mutex::new(Stats::default());
    let failure: Mutex<Option<(u64, RunResult)>> = Mutex::new(None);
    // (index + 1, start millis) of each worker, for the watchdog
    let cur: Arc<Vec<(AtomicU64, AtomicU64)>> =
        Arc::new((0..workers).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    let done = Arc::new(AtomicBool::new(false));
    {
        let cur = cur.clone();
        let done = done.clone();
        let id = w.id;
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if done.load(Ordering::SeqCst) {
                return;
            }
            for (i, t) in cur.iter() {
                let idx = i.load(Ordering::SeqCst);
                let t0 = t.load(Ordering::SeqCst);
                if idx > 0 && start.elapsed().as_millis() as u64 > t0 + HANG_SECS * 1000 {
                    let v = Violation::new("hang", format!("run {} did not finish within {} s", idx - 1, HANG_SECS));
                    report(id, seed, thorough, &[], idx - 1, &v, None, 0, &[]);
                    std::process::exit(1);
                }
            }
        });
    }
    std::thread::scope(|s| {
        for wi in 0..workers {
            let (next, best, stop, capped, stats, failure, cur, progress) =
                (&next, &best, &stop, &capped, &stats, &failure, &cur, &progress);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                crate::simos::warm();
                loop {
                    if stop.load(Ordering::SeqCst) {
                        break;
                    }
                    if start.elapsed() > cap {
                        capped.store(true, Ordering::SeqCst);
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= runs || i > best.load(Ordering::SeqCst) {
                        break;
                    }
                    cur[wi].1.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                    cur[wi].0.store(i + 1, Ordering::SeqCst);
                    if let Some(p) = progress {
                        let _ = std::fs::write(p.join(format!("{}", wi)), format!("{}", i));
                    }
                    let rs = run_seed(seed, w.id, i);
                    let r = run_one(w, Tape::seeded(rs), thorough);
                    cur[wi].0.store(0, Ordering::SeqCst);
                    {
                        let c = &r.ctx;
                        let mut st = stats.lock().unwrap();
                        st.evals += 1;
                        st.distinct.insert(c.trace_hash());
                        if c.n_faults() > 0 && c.checks.get() > 0 {
                            st.nontrivial.insert(c.trace_hash());
                        }
                        for h in c.states.borrow().iter() {
                            if st.states.len() < 2_000_000 {
                                st.states.insert(*h);
                            }
                        }
                        for (k, v) in c.faults.borrow().iter() {
                            *st.faults.entry(k.clone()).or_insert(0) += v;
                        }
                        for (k, v) in c.probes.borrow().iter() {
                            *st.probes.entry(k.clone()).or_insert(0) += v;
                        }
                        st.checks += c.checks.get();
                        st.ops += c.ops.get();
                        st.simtime += c.simtime.get();
                        st.draws += c.n_draws() as u64;
                        if i < 24 && c.n_faults() > 0 {
                            st.samples.push((i, sample(rs, i, c)));
                        }
                    }
                    if r.outcome.is_err() {
                        let mut f = failure.lock().unwrap();
                        let better = f.as_ref().map(|(j, _)| i < *j).unwrap_or(true);
                        if better {
                            best.fetch_min(i, Ordering::SeqCst);
                            *f = Some((i, r));
                        }
                    }
                }
            }).unwrap();
        }
    });
    done.store(true, Ordering::SeqCst);
    let wall = start.elapsed().as_secs_f64();
    (stats.into_inner().unwrap(), failure.into_inner().unwrap(), wall, capped.load(Ordering::SeqCst))
}

fn minimise(w: &World, tape: Vec<u64>, class: &str, thorough: bool, budget: Duration) -> (Vec<u64>, u64) {
    let start = Instant::now();
    let mut best = tape;
    let mut tries = 0u64;
    let mut attempt = |cand: &Vec<u64>, tries: &mut u64| -> Option<Vec<u64>> {
        if start.elapsed() > budget || *tries > 3000 {
            return None;
        }
        *tries += 1;
        let r = run_one(w, Tape::replay(cand.clone()), thorough);
        match r.outcome {
            Err(v) if v.class == class => {
                let mut t = r.ctx.recorded();
                while t.last() == Some(&0) {
                    t.pop();
                }
                Some(t)
            }
            _ => None,
        }
    };
    // canonicalise
    if let Some(t) = attempt(&best.clone(), &mut tries) {
        best = t;
    }
    loop {
        let before = (best.len(), best.iter().map(|x| *x as u128).sum::<u128>());
        // truncate
        let mut cut = best.len() / 2;
        while cut > 0 {
            let cand: Vec<u64> = best[..best.len() - cut.min(best.len())].to_vec();
            match attempt(&cand, &mut tries) {
                Some(t) if t.len() <= cand.len().max(1) => best = t,
                _ => cut /= 2,
            }
            cut = cut.min(best.len());
        }
        // delete and zero chunks
        for mode in 0..2 {
            let mut size = (best.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best.len() {
                    let end = (i + size).min(best.len());
                    let mut cand = best.clone();
                    if mode == 0 {
                        cand.drain(i..end);
                    } else {
                        if cand[i..end].iter().all(|x| *x == 0) {
                            i += size;
                            continue;
                        }
                        for x in cand[i..end].iter_mut() {
                            *x = 0;
                        }
                    }
                    match attempt(&cand, &mut tries) {
                        Some(t) if t.len() <= best.len() && t != best => best = t,
                        _ => i += size,
                    }
                    if start.elapsed() > budget {
                        return (best, tries);
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        }
        // lower values
        for i in 0..best.len() {
            let mut lo = 0u64;
            while i < best.len() && best[i] > lo {
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                match attempt(&cand, &mut tries) {
                    Some(t) if t.len() <= best.len() && t.get(i).copied().unwrap_or(0) <= mid => best = t,
                    _ => lo = mid + 1,
                }
                if start.elapsed() > budget {
                    return (best, tries);
                }
            }
        }
        let after = (best.len(), best.iter().map(|x| *x as u128).sum::<u128>());
        if after >= before || start.elapsed() > budget {
            return (best, tries);
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn report(id: &str, seed: u64, thorough: bool, before: &[u64], run: u64, v: &Violation, tape: Option<&[u64]>, trace: u64, log: &[String]) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-seed{}-run{}.json", id, seed, run));
    let j = json!({
        "property": id, "seed": seed, "run": run,
        "run_seed": run_seed(seed, id, run).to_string(),
        "tier": if thorough { "thorough" } else { "quick" },
        // runs of the same seed that must go before it in the same process
        "before": before,
        "class": v.class, "detail": v.detail,
        "tape": tape.map(|t| t.iter().map(|x| x.to_string()).collect::<Vec<_>>()),
        "trace_hash": format!("{:016x}", trace),
        "trace": log,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    let shown = path.canonicalize().unwrap_or(path.clone());
    println!("violation class={} detail={}", v.class, v.detail);
    println!("VIOLATION property={} replay={}", id, shown.display());
    let _ = std::io::stdout().flush();
    path
}

fn write_evidence(w: &World, seed: u64, thorough: bool, st: &mut Stats, wall: f64, violations: u64, planned: u64, capped: bool) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    st.samples.sort_by_key(|s| s.0);
    let samples: Vec<Value> = st.samples.iter().take(3).map(|s| s.1.clone()).collect();
    let per_hour = if wall > 0.0 { st.evals as f64 / wall * 3600.0 } else { 0.0 };
    let j = json!({
        "property": w.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evals,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": w.rule,
            "samples": samples,
            "planned_runs": planned,
            "stopped_by_wall_cap": capped,
            "runs_per_hour": per_hour.round() as u64,
            "distinct_histories": st.distinct.len(),
            "distinct_states": st.states.len(),
            "state_measure": w.state_measure,
            "simulated_time_ms": st.simtime,
            "simulated_operations": st.ops,
            "scheduler_and_fault_decisions": st.draws,
            "oracle_checks": st.checks,
            "faults_injected": st.faults,
            "rare_condition_probes": st.probes,
            "components_real": w.real,
            "components_stubbed": w.stub,
        },
        "assumptions": w.assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations,
    });
    let _ = std::fs::write(dir.join(format!("{}.json", w.id)), serde_json::to_string_pretty(&j).unwrap() + "\n");
}

fn env_u64(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|s| s.trim().parse().ok())
}

fn workers() -> usize {
    env_u64("FAWKES_SIM_WORKERS")
        .map(|x| x as usize)
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .clamp(1, 16)
}

/// In-process search with report: the child of `check`.
pub fn search_main(w: &World, progress: Option<PathBuf>) -> i32 {
    let seed = env_seed();
    let thorough = env_thorough();
    let runs = env_u64("FAWKES_SIM_RUNS").unwrap_or(if thorough { w.thorough } else { w.quick });
    prepare(w);
    let cap = Duration::from_secs(env_u64("FAWKES_SIM_CAP").unwrap_or(if thorough { 3000 } else { 300 }));
    println!("{}: seed {} tier {} planned runs {} workers {}", w.id, seed, if thorough { "thorough" } else { "quick" }, runs, workers());
    let (mut st, failure, wall, capped) = search(w, seed, thorough, runs, cap, workers(), progress);
    let n_viol = failure.is_some() as u64;
    write_evidence(w, seed, thorough, &mut st, wall, n_viol, runs, capped);
    println!(
        "{}: {} runs, {} distinct non-trivial, {} oracle checks, {} faults, {:.1} s",
        w.id, st.evals, st.nontrivial.len(), st.checks, st.faults.values().sum::<u64>(), wall
    );
    match failure {
        None => 0,
        Some((i, r)) => {
            let v = r.outcome.err().unwrap();
            if v.class == "HARNESS" {
                eprintln!("harness error in run {}: {}", i, v.detail);
                return 2;
            }
            eprintln!("run {} failed: {} ({}); minimising", i, v.class, v.detail);
            // in a process that has not seen the other runs
            let exe = std::env::current_exe().unwrap();
            let st = std::process::Command::new(&exe).arg("shrink").arg(w.id).arg(i.to_string()).arg(&v.class).status();
            if st.ok().and_then(|s| s.code()) != Some(1) {
                report(w.id, seed, thorough, &[], i, &v, None, r.ctx.trace_hash(), &r.ctx.log.borrow());
            }
            1
        }
    }
}

/// `shrink ID RUN CLASS`: looks for a small history that fails the same way
/// when started in a fresh process, and writes the replay file.
pub fn shrink_main(w: &'static World, i: u64, class: String) -> i32 {
    let seed = env_seed();
    let thorough = env_thorough();
    prepare(w);
    FRESH.store(true, Ordering::SeqCst);
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        crate::simos::warm();
        let tape = |k: u64| Tape::seeded(run_seed(seed, w.id, k));
        let r = run_one(w, tape(i), thorough);
        if let Err(v) = &r.outcome {
            let class = v.class.clone();
            if class == "abort" {
                report(w.id, seed, thorough, &[], i, v, None, r.ctx.trace_hash(), &r.ctx.log.borrow());
                return 1;
            }
            let orig = r.ctx.recorded();
            let (t, tries) = minimise(w, orig.clone(), &class, thorough, Duration::from_secs(90));
            let rr = run_one(w, Tape::replay(t.clone()), thorough);
            eprintln!("minimised {} decisions to {} in {} replays", orig.len(), t.len(), tries);
            match &rr.outcome {
                Err(v2) if v2.class == class => report(w.id, seed, thorough, &[], i, v2, Some(&t), rr.ctx.trace_hash(), &rr.ctx.log.borrow()),
                _ => report(w.id, seed, thorough, &[], i, v, Some(&orig), r.ctx.trace_hash(), &r.ctx.log.borrow()),
            };
            return 1;
        }
        // it needs what earlier runs left in the process
        let start = Instant::now();
        let budget = Duration::from_secs(60);
        let play = |list: &[u64]| -> Option<(usize, RunResult)> {
            let (last, before) = list.split_last()?;
            let (k, r) = run_after(w, before.iter().map(|k| tape(*k)).collect(), tape(*last), thorough);
            match &r.outcome {
                Err(v) if v.class == class && k < list.len() => Some((k, r)),
                _ => None,
            }
        };
        let mut found = None;
        let mut n = 1;
        while found.is_none() && start.elapsed() < budget {
            let list: Vec<u64> = (i.saturating_sub(n)..=i).collect();
            if let Some((k, r)) = play(&list) {
                found = Some((list[..=k].to_vec(), r));
            }
            if n >= i {
                break;
            }
            n *= 8;
        }
        let (mut list, mut r) = match found {
            Some(f) => f,
            None => return 0,
        };
        let mut size = (list.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at + 1 < list.len() && start.elapsed() < budget {
                let mut cand = list.clone();
                cand.drain(at..(at + size).min(list.len() - 1));
                match play(&cand) {
                    Some((k, rr)) => {
                        list = cand[..=k].to_vec();
                        r = rr;
                    }
                    None => at += size,
                }
            }
            if size == 1 || start.elapsed() > budget {
                break;
            }
            size /= 2;
        }
        eprintln!("fails only after other runs in the same process: {} of them kept", list.len() - 1);
        let (last, before) = list.split_last().unwrap();
        let v = r.outcome.as_ref().err().unwrap();
        report(w.id, seed, thorough, before, *last, v, None, r.ctx.trace_hash(), &r.ctx.log.borrow());
        1
    });
    h.unwrap().join().unwrap_or(0)
}

/// `check ID`: runs the search in a child process, so that an abort or a
/// stack overflow in the code under test is a verdict and not a crash.
pub fn check_main(w: &World) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let dir = root().join("sim/target/progress").join(format!("{}-{}", w.id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let status = std::process::Command::new(&exe).arg("search").arg(w.id).arg(&dir).status();
    let code = match status {
        Ok(s) => {
            if let Some(c) = s.code() {
                if c == 101 { 2 } else { c }
            } else if s.signal() == Some(9) || s.signal() == Some(15) {
                eprintln!("search was ended by signal {:?}", s.signal());
                2
            } else {
                // which of the runs in flight dies?
                let mut inflight: Vec<u64> = std::fs::read_dir(&dir)
                    .map(|d| d.filter_map(|e| std::fs::read_to_string(e.ok()?.path()).ok()?.trim().parse().ok()).collect())
                    .unwrap_or_default();
                inflight.sort();
                let mut found = None;
                for i in inflight {
                    let s1 = std::process::Command::new(&exe).arg("one").arg(w.id).arg(i.to_string()).status();
                    if let Ok(s1) = s1 {
                        if s1.code().is_none() {
                            found = Some((i, s1.signal()));
                            break;
                        }
                    }
                }
                match found {
                    Some((i, sig)) => {
                        let v = Violation::new("abort", format!("the process died with signal {:?}", sig));
                        report(w.id, env_seed(), env_thorough(), &[], i, &v, None, 0, &[]);
                        let mut st = Stats { evals: i + 1, ..Default::default() };
                        write_evidence(w, env_seed(), env_thorough(), &mut st, 0.0, 1, 0, false);
                        1
                    }
                    None => {
                        eprintln!("search died with {:?} and no single run reproduces it", s);
                        2
                    }
                }
            }
        }
        Err(e) => {
            eprintln!("cannot start search: {}", e);
            2
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

pub fn one_main(w: &World, i: u64) -> i32 {
    prepare(w);
    let r = run_one(w, Tape::seeded(run_seed(env_seed(), w.id, i)), env_thorough());
    for l in r.ctx.log.borrow().iter() {
        println!("{}", l);
    }
    println!("faults {:?}", r.ctx.faults.borrow());
    println!("probes {:?}", r.ctx.probes.borrow());
    println!("trace_hash {:016x} decisions {}", r.ctx.trace_hash(), r.ctx.n_draws());
    match r.outcome {
        Ok(()) => 0,
        Err(v) => {
            println!("violation class={} detail={}", v.class, v.detail);
            1
        }
    }
}

/// Prints one line per run: the determinism check compares them.
pub fn trace_main(w: &World, n: u64) -> i32 {
    prepare(w);
    let seed = env_seed();
    let thorough = env_thorough();
    let next = AtomicU64::new(0);
    let out = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..workers() {
            let (next, out) = (&next, &out);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                crate::simos::warm();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let r = run_one(w, Tape::seeded(run_seed(seed, w.id, i)), thorough);
                    // replaying the recorded tape must give the same history
                    let r2 = run_one(w, Tape::replay(r.ctx.recorded()), thorough);
                    let line = format!(
                        "{} {:016x} {:016x} {:?}",
                        i, r.ctx.trace_hash(), hash_str(&r.ctx.log.borrow().join("\n")), r.outcome.as_ref().err().map(|v| v.class.clone())
                    );
                    let line2 = format!(
                        "{} {:016x} {:016x} {:?}",
                        i, r2.ctx.trace_hash(), hash_str(&r2.ctx.log.borrow().join("\n")), r2.outcome.as_ref().err().map(|v| v.class.clone())
                    );
                    let l = if line == line2 { line } else { format!("{} REPLAY-DIVERGED {}", line, line2) };
                    out.lock().unwrap().insert(i, l);
                }
            }).unwrap();
        }
    });
    for (_, l) in out.into_inner().unwrap() {
        println!("{}", l);
    }
    0
}

pub fn replay_main(worlds: &[World], file: &str) -> i32 {
    let txt = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {}: {}", file, e);
            return 2;
        }
    };
    let j: Value = serde_json::from_str(&txt).expect("replay file is JSON");
    let id = j["property"].as_str().unwrap();
    let w = worlds.iter().find(|w| w.id == id).expect("known property");
    let thorough = j["tier"] == "thorough";
    prepare(w);
    let tape = match j["tape"].as_array() {
        Some(t) => Tape::replay(t.iter().map(|x| x.as_str().unwrap().parse().unwrap()).collect()),
        None => Tape::seeded(j["run_seed"].as_str().unwrap().parse().unwrap()),
    };
    let seed = j["seed"].as_u64().unwrap_or(1);
    let before: Vec<u64> = serde_json::from_value(j["before"].clone()).unwrap_or_default();
    let before = before.iter().map(|k| Tape::seeded(run_seed(seed, id, *k))).collect();
    let w: &'static World = unsafe { std::mem::transmute(w) };
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        crate::simos::warm();
        let r = run_after(w, before, tape, thorough).1;
        // (the context is not meant to change threads; this one is done with it)
        Box::into_raw(Box::new(r)) as usize
    });
    let r = unsafe { Box::from_raw(h.unwrap().join().unwrap() as *mut RunResult) };
    for l in r.ctx.log.borrow().iter() {
        println!("{}", l);
    }
    match r.outcome {
        Ok(()) => {
            println!("NOT REPRODUCED: the property held on this history");
            0
        }
        Err(v) => {
            let same = v.class == j["class"].as_str().unwrap_or("")
                && format!("{:016x}", r.ctx.trace_hash()) == j["trace_hash"].as_str().unwrap_or("");
            println!("violation class={} detail={}", v.class, v.detail);
            println!("{}", if same { "REPRODUCED exactly" } else { "FAILED, with a different history than recorded" });
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
    }
}
