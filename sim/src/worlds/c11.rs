//! Arithmetic, boolean and bit gadgets against a prover that cheats.
use crate::core::*;
use crate::gen::*;
use crate::prog::*;
use crate::rec::*;
use crate::runner::World;
use fawkes_crypto::core::cs::TestCS;
use fawkes_crypto::core::signal::Signal;

pub const WORLD: World = World {
    id: "C11",
    run,
    quick: 160_000,
    thorough: 6_000_000,
    rule: "a run draws a program of gadgets (every operator form, constants and signals mixed, composite signals), lets an honest prover run it and then a Byzantine one tamper with hints, take other roots, bit decompositions and free quotients and repair the rest; non-trivial: at least one witness tampered with and one oracle comparison; distinct by hash of the program and tampering history",
    state_measure: "(field, sequence of gadget forms, satisfiable or not) tuples",
    real: &["circuit::num, bool, bitify, mux and the Signal implementations with the derive macro", "TestCS"],
    stub: &["the proving backend (a recording constraint system)", "the prover's witness (Byzantine)"],
    assumptions: &["the cheating prover is a seeded search, not a decision procedure: a fraud it does not find is not excluded", "division is used with a nonzero divisor, wide decompositions below the field width, comparison constants below the width of the compared bits, as the gadgets require"],
};

fn run(ctx: &Ctx) -> Outcome {
    if ctx.draw(2) == 0 {
        go::<pairing::bn256::Fr>(ctx, "bn256")
    } else {
        go::<pairing::bls12_381::Fr>(ctx, "bls12_381")
    }
}

pub fn go<F: Home>(ctx: &Ctx, name: &str) -> Outcome {
    let wide = ctx.chance(1, 25);
    let n_num = if wide { ctx.range(30, 90) } else { ctx.range(1, 4) };
    let long = ctx.chance(1, 20);
    let n_bool = if long { ctx.range(5, 254) } else { ctx.range(1, 4) };
    let sat = ctx.draw(3) < 2;
    let heavy = ctx.chance(1, 12);
    let steps = ctx.range(if wide || long { 0 } else { 1 }, 6);
    let mut d = Drawer::<F>::new(ctx, n_num, n_bool, true);
    if wide {
        d.wide();
        for _ in 0..ctx.below(4) {
            if !d.unsat {
                d.mix_last(sat);
            }
        }
    }
    if long && !d.unsat {
        d.long_bits();
    }
    for _ in 0..steps {
        if d.unsat {
            break;
        }
        d.step(sat, heavy);
    }
    let prog = d.finish();
    let names: Vec<String> = prog.ops.iter().map(op_name).collect();
    ctx.event(format!("{} program {:?} unsat={}", name, names, prog.unsat));
    ctx.state(hash_str(&format!("{} {:?} {}", name, names, prog.unsat)));
    check_prog(ctx, &prog, 10)
}

pub fn check_prog<F: Home>(ctx: &Ctx, prog: &Prog<F>, tries: usize) -> Outcome {
    let cs = RecCS::<F>::new();
    let r = guarded(|| {
        let mut p = alloc_inputs(&cs, &prog.ins, Mode::Prove);
        let pinned = cs.n_vars();
        exec(&cs, &prog.ops, &mut p);
        (p, pinned)
    });
    ctx.op();
    // the library's own test system agrees
    let t = guarded(|| {
        let cs = TestCS::<F>::new();
        let mut p = alloc_inputs(&cs, &prog.ins, Mode::Prove);
        exec(&cs, &prog.ops, &mut p);
    });
    ctx.checked();
    let last = prog.ops.last().map(op_name).unwrap_or_default();
    if prog.unsat {
        ensure!(t.is_err(), "assert-ignored", "{} asserts something false and TestCS did not object", last);
    } else if let Err(m) = t {
        violated!("honest-refused", "an honest run panicked on TestCS: {}", m);
    }
    let (p, pinned) = match r {
        Ok(x) => x,
        Err(m) => {
            if prog.unsat && !m.starts_with("PROPERTY") {
                ctx.probe("refused_at_synthesis");
                return Ok(());
            }
            violated!("honest-panic", "an honest run panicked: {}", m);
        }
    };
    let rec = cs.r.borrow().clone();
    let vals: Vec<F> = rec.vals.iter().map(|v| v.unwrap_or_else(F::zero)).collect();
    ensure!(rec.vals.iter().all(|v| v.is_some()), "honest-missing", "a variable has no value although every input has one");
    let pins: Vec<usize> = (1..pinned).collect();
    if prog.unsat {
        ctx.checked();
        ensure!(broken(&rec.cons, &vals).is_some(), "assert-ignored", "{} asserts something false and its constraints hold", last);
        let sys = System::new(&rec, &pins);
        if let Some(f) = sys.attack(ctx, &[], None, tries) {
            violated!("assert-forged", "{} asserts something false and a prover satisfied it: {}", last, f.trail.join("; "));
        }
        ctx.checked();
        return Ok(());
    }
    // honest
    if let Some(k) = broken(&rec.cons, &vals) {
        violated!("honest-unsatisfied", "constraint {} of {} does not hold for an honest witness", k, rec.cons.len());
    }
    let mut outs = vec![];
    let mut want = vec![];
    let names = |i: usize, kind: &str| format!("{} {}", kind, i);
    ensure!(p.nums.len() == prog.nums.len() + num_in(prog).0 && p.bools.len() == prog.bools.len() + num_in(prog).1, "output-count", "the gadgets returned {} numbers and {} booleans", p.nums.len(), p.bools.len());
    let all_nums: Vec<F> = num_in(prog).2.into_iter().chain(prog.nums.iter().cloned()).collect();
    let all_bools: Vec<bool> = num_in(prog).3.into_iter().chain(prog.bools.iter().cloned()).collect();
    for (i, (c, v)) in p.nums.iter().zip(&all_nums).enumerate() {
        let l = cs.lc(c);
        ensure!(c.get_value().map(|x| x.0) == Some(*v), "wrong-value", "{} is {} and the native operation gives {} (after {})", names(i, "number"), c.get_value().map(|x| show(&x.0)).unwrap_or_default(), show(v), last);
        ensure!(eval(&l, &vals) == *v, "wrong-signal", "{} has value {} and its signal says {} (after {})", names(i, "number"), show(v), show(&eval(&l, &vals)), last);
        if let Some(k) = c.as_const() {
            ensure!(k.0 == *v, "wrong-const", "{} is taken for the constant {} and is {}", names(i, "number"), show(&k.0), show(v));
            ensure!(l.iter().all(|(i, _)| *i == 0), "wrong-const", "{} is taken for a constant and is not", names(i, "number"));
        }
        outs.push(l);
        want.push(*v);
    }
    for (i, (c, v)) in p.bools.iter().zip(&all_bools).enumerate() {
        let l = cs.lc(&c.0);
        ensure!(c.0.get_value().map(|x| x.0) == Some(b2f(*v)), "wrong-value", "{} is {} and the native operation gives {} (after {})", names(i, "boolean"), c.0.get_value().map(|x| show(&x.0)).unwrap_or_default(), v, last);
        ensure!(eval(&l, &vals) == b2f::<F>(*v), "wrong-signal", "{} has value {} and its signal says {} (after {})", names(i, "boolean"), v, show(&eval(&l, &vals)), last);
        if let Some(k) = c.as_const() {
            ensure!(k == *v, "wrong-const", "{} is taken for the constant {} and is {}", names(i, "boolean"), k, v);
        }
        outs.push(l);
        want.push(b2f(*v));
    }
    let pubs: Vec<F> = rec.public.iter().map(|i| vals[*i]).collect();
    ensure!(pubs == prog.publics, "wrong-publics", "the circuit declared {} public inputs, the program {}, or they differ in value or order", pubs.len(), prog.publics.len());
    for (i, v) in rec.public.iter().zip(&prog.publics) {
        outs.push(vec![(*i, F::one())]);
        want.push(*v);
    }
    ctx.checked();
    // without a witness the layout is the same
    let cs2 = RecCS::<F>::new();
    let r = guarded(|| {
        let mut p = alloc_inputs(&cs2, &prog.ins, Mode::Setup);
        exec(&cs2, &prog.ops, &mut p);
        p.nums.iter().map(|c| cs2.lc(c)).chain(p.bools.iter().map(|c| cs2.lc(&c.0))).collect::<Vec<_>>()
    });
    ctx.checked();
    match r {
        Err(m) => violated!("setup-panic", "setup without a witness panicked: {}", m),
        Ok(o) => {
            let r2 = cs2.r.borrow();
            ensure!(r2.cons == rec.cons && r2.vals.len() == rec.vals.len() && r2.public == rec.public, "layout-differs", "setup without a witness lays out {} variables and {} constraints, proving {} and {}, or other ones", r2.vals.len(), r2.cons.len(), rec.vals.len(), rec.cons.len());
            ensure!(o[..] == outs[..o.len()], "layout-differs", "setup without a witness returns other signals than proving");
            ensure!(r2.vals[1..].iter().filter(|v| v.is_some()).count() <= rec.vals.len(), "HARNESS", "");
        }
    }
    let sys = System::new(&rec, &pins);
    let tries = if sys.terms > 20_000 { 2 } else if sys.terms > 2000 { tries / 2 } else { tries };
    if let Some(f) = sys.attack(ctx, &outs, Some(&want), tries) {
        let k = f.outputs.iter().zip(&want).position(|(a, b)| a != b).unwrap();
        violated!("forged", "a prover satisfied all constraints with output {} = {} where the honest value is {}: {}", k, show(&f.outputs[k]), show(&want[k]), f.trail.join("; "));
    }
    ctx.checked();
    Ok(())
}

/// (numbers, booleans) among the inputs and their values.
fn num_in<F: Home>(p: &Prog<F>) -> (usize, usize, Vec<F>, Vec<bool>) {
    let mut n = vec![];
    let mut b = vec![];
    for i in &p.ins {
        match i {
            In::Num(v, _) => n.push(*v),
            In::Bool(v, _) => b.push(*v),
            In::Comp(..) => {}
        }
    }
    (n.len(), b.len(), n, b)
}
