//! Circuits for the proving worlds: random programs, the statement of
//! `bind`, and recorded constraint systems replayed with any assignment.
use crate::bind::{self, CPub, CSec, Pub, Sec};
use crate::core::*;
use crate::gen::*;
use crate::prog::*;
use crate::rec::*;
use crate::simos::with_entropy;
use bellman::groth16::Parameters;
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::{Circuit, ConstraintSystem};
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::helpers::groth16::prover::{generate_keys, prove, Proof};
use fawkes_crypto::native::num::Num;
use pairing::Engine;
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;

thread_local! {
    /// The `tick` of circuits the library makes itself.
    pub static TICK: std::cell::Cell<Option<fn()>> = const { std::cell::Cell::new(None) };
    static SHAPE: RefCell<Option<Rc<dyn Any>>> = const { RefCell::new(None) };
}

pub enum Shape<F: Home> {
    Prog(Prog<F>),
    Statement,
    Raw(Rec<F>),
}

/// One circuit with, perhaps, a witness.
pub struct Job<F: Home> {
    pub shape: Rc<Shape<F>>,
    pub wit: Option<Wit<F>>,
    /// Called between allocations and gadgets.
    pub tick: Option<fn()>,
}

#[derive(Clone)]
pub enum Wit<F: Field> {
    /// the program's own
    Own,
    Statement(Pub<F>, Sec<F>),
    /// a value for every recorded variable
    Raw(Vec<F>),
}

impl<F: Home> Default for Job<F> {
    fn default() -> Self {
        let shape = SHAPE.with(|s| s.borrow().clone()).expect("HARNESS:shape").downcast::<Shape<F>>().expect("HARNESS:shape");
        Job { shape, wit: None, tick: TICK.with(|t| t.get()) }
    }
}

fn raw_lc<'a, CS: ConstraintSystem>(cs: &'a CS, l: &Lc<CS::F>, idx: &[Index], vals: Option<&[CS::F]>) -> CNum<'a, CS> {
    let mut n = CNum::from_const(cs, &Num::zero());
    n.lc.clear();
    for (i, c) in l {
        n.lc.push_back((idx[*i], Num(*c)));
    }
    n.value = vals.map(|v| Num(eval(l, v)));
    n
}

impl<F: Home> Circuit for Job<F> {
    type F = F;
    fn synthesize<CS: ConstraintSystem<F = F>>(&self, cs: &CS) {
        let tick = || {
            if let Some(t) = self.tick {
                t()
            }
        };
        match &*self.shape {
            Shape::Prog(p) => {
                let mode = if self.wit.is_some() { Mode::Prove } else { Mode::Setup };
                let mut pools = alloc_inputs(cs, &p.ins, mode);
                tick();
                for op in &p.ops {
                    exec(cs, std::slice::from_ref(op), &mut pools);
                    tick();
                }
            }
            Shape::Statement => {
                let (p, s) = match &self.wit {
                    Some(Wit::Statement(p, s)) => (Some(p), Some(s)),
                    _ => (None, None),
                };
                let p = CPub::alloc(cs, p);
                p.inputize();
                tick();
                let s = CSec::alloc(cs, s);
                tick();
                bind::statement(&p, &s, &bind::K);
                tick();
            }
            Shape::Raw(r) => {
                let vals: Option<&[F]> = match &self.wit {
                    Some(Wit::Raw(v)) => Some(v),
                    _ => None,
                };
                let mut idx = vec![Index::Input(0)];
                for i in 1..r.vals.len() {
                    let v = vals.map(|v| Num(v[i]));
                    idx.push(if r.public.contains(&i) { cs.alloc_input(v) } else { cs.alloc(v) });
                }
                tick();
                for c in &r.cons {
                    cs.enforce(&raw_lc(cs, &c.a, &idx, vals), &raw_lc(cs, &c.b, &idx, vals), &raw_lc(cs, &c.c, &idx, vals));
                }
                tick();
            }
        }
    }
    fn get_inputs(&self) -> Option<Vec<Num<F>>> {
        None
    }
}

/// What the circuit lays out, recorded.
pub fn record<F: Home>(j: &Job<F>) -> Rec<F> {
    let cs = RecCS::<F>::new();
    j.synthesize(&cs);
    cs.r.into_inner()
}

/// Real key generation with entropy determined by `seed`.
pub fn keys<E: Engine>(shape: &Rc<Shape<E::Fr>>, seed: u64) -> Parameters<E>
where
    E::Fr: Home,
{
    SHAPE.with(|s| *s.borrow_mut() = Some(shape.clone() as Rc<dyn Any>));
    let r = with_entropy(seed, || generate_keys::<E, Job<E::Fr>>());
    SHAPE.with(|s| *s.borrow_mut() = None);
    r
}

pub fn prove_with<E: Engine>(j: &Job<E::Fr>, params: &Parameters<E>, seed: u64) -> Proof<E>
where
    E::Fr: Home,
{
    with_entropy(seed, || prove(j, params))
}

pub fn statement_wit<F: Home>(x: &F, y: &F, p0: bool, p1: bool) -> (Wit<F>, Vec<F>) {
    let i = crate::cli::pub_for(x, y, p0, p1);
    let p = Pub { a: Num(i[0]), flag: i[1] == F::one(), v: vec![Num(i[2]), Num(i[3])].into_iter().collect(), b: Num(i[4]) };
    let s = Sec { x: Num(*x), y: Num(*y), p: vec![p0, p1].into_iter().collect() };
    (Wit::Statement(p, s), i)
}

/// A satisfiable program of which every variable is in some constraint.
/// `None`: a gadget leaves a variable of its own out of every constraint.
pub fn draw_prog<F: Home>(ctx: &Ctx, steps: usize, heavy: bool) -> Option<Prog<F>> {
    let (n_num, n_bool) = (ctx.range(1, 3), ctx.range(1, 2));
    let mut d = Drawer::<F>::new(ctx, n_num, n_bool, true);
    for _ in 0..steps {
        d.step(true, heavy);
    }
    let extra = match ctx.draw(8) {
        0..=2 => 0,
        3..=5 => 1 + ctx.below(3),
        6 => 4 + ctx.below(6),
        _ => 10 + ctx.below(30),
    };
    for _ in 0..extra {
        let i = ctx.below(d.nums.len());
        d.ops.push(Op::Inputize(i));
        let v = d.nums[i];
        d.publics.push(v);
    }
    // square every input that no gadget uses
    let mut n = d.ins.iter().filter(|i| matches!(i, In::Num(..))).count();
    let mut b = n_bool;
    let mut tail: Vec<Op<F>> = vec![];
    let (mut ni, mut bi) = (0, 0);
    for i in &d.ins {
        match i {
            In::Num(_, k) => {
                if !k {
                    tail.push(Op::Square(ni));
                }
                ni += 1;
            }
            In::Bool(_, k) => {
                if !k {
                    tail.push(Op::IntoNum(bi));
                }
                bi += 1;
            }
            In::Comp(k, _, _, c) => {
                let (a, q) = arity(*k);
                if !c {
                    tail.extend((n..n + a).map(Op::Square));
                    tail.extend((b..b + q).map(Op::IntoNum));
                }
                n += a;
                b += q;
            }
        }
    }
    for o in tail {
        match o {
            Op::Square(i) => {
                let v = sq(&d.nums[i]);
                d.ops.push(Op::Square(i));
                d.nums.push(v);
            }
            Op::IntoNum(i) => {
                let v: F = b2f(d.bools[i]);
                d.ops.push(Op::IntoNum(i));
                d.nums.push(v);
                d.ops.push(Op::Square(d.nums.len() - 1));
                d.nums.push(v);
            }
            _ => {}
        }
    }
    let p = d.finish();
    if p.unsat {
        return None;
    }
    Some(p)
}

/// Is every private variable in some constraint?
pub fn all_bound<F: Home>(r: &Rec<F>) -> bool {
    let mut used = vec![false; r.vals.len()];
    for c in &r.cons {
        for (i, _) in c.a.iter().chain(c.b.iter()).chain(c.c.iter()) {
            used[*i] = true;
        }
    }
    (1..r.vals.len()).all(|i| used[i] || r.public.contains(&i))
}
