//! A constraint system that records, and a prover that cheats.
//!
//! [`RecCS`] stands where the proving backend stands and records what a
//! gadget allocates and enforces.  [`System`] is that record: pinned inputs,
//! variables the constraints determine step by step, and hints, which a prover
//! is free to choose.  [`System::attack`] is a Byzantine prover: it tampers
//! with hints, takes other roots, other bit decompositions and free quotients,
//! repairs what breaks, and reports a satisfying assignment whose outputs are
//! not the expected ones.
use crate::core::*;
use crate::gen::*;
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::num::Num;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};

pub type Lc<F> = Vec<(usize, F)>;

#[derive(Clone, PartialEq, Debug)]
pub struct Con<F> {
    pub a: Lc<F>,
    pub b: Lc<F>,
    pub c: Lc<F>,
}

#[derive(Clone, Debug)]
pub struct Rec<F> {
    /// Variable 0 is the constant one.
    pub vals: Vec<Option<F>>,
    pub public: Vec<usize>,
    pub cons: Vec<Con<F>>,
    aux: Vec<usize>,
    inp: Vec<usize>,
}

pub struct RecCS<F: Field> {
    pub r: RefCell<Rec<F>>,
}

impl<F: Field> Clone for RecCS<F> {
    fn clone(&self) -> Self {
        panic!("RecCS is not cloned")
    }
}

impl<F: Field> RecCS<F> {
    pub fn new() -> Self {
        RecCS { r: RefCell::new(Rec { vals: vec![Some(F::one())], public: vec![], cons: vec![], aux: vec![], inp: vec![0] }) }
    }
    pub fn lc(&self, n: &CNum<Self>) -> Lc<F> {
        self.r.borrow().lc(n.lc.iter())
    }
    pub fn n_vars(&self) -> usize {
        self.r.borrow().vals.len()
    }
    pub fn n_cons(&self) -> usize {
        self.r.borrow().cons.len()
    }
}

impl<F: Field> Rec<F> {
    fn lc<'l>(&self, it: impl Iterator<Item = &'l (Index, Num<F>)>) -> Lc<F> {
        let mut m: BTreeMap<usize, F> = BTreeMap::new();
        for (k, v) in it {
            let id = match k {
                Index::Input(i) => self.inp[*i],
                Index::Aux(i) => self.aux[*i],
            };
            m.entry(id).or_insert_with(F::zero).add_assign(&v.0);
        }
        m.into_iter().filter(|(_, v)| !v.is_zero()).collect()
    }
}

impl<F: Field> ConstraintSystem for RecCS<F> {
    type F = F;
    fn alloc(&self, value: Option<Num<F>>) -> Index {
        let mut r = self.r.borrow_mut();
        let id = r.vals.len();
        r.vals.push(value.map(|v| v.0));
        r.aux.push(id);
        Index::Aux(r.aux.len() - 1)
    }
    fn alloc_input(&self, value: Option<Num<F>>) -> Index {
        let mut r = self.r.borrow_mut();
        let id = r.vals.len();
        r.vals.push(value.map(|v| v.0));
        r.inp.push(id);
        r.public.push(id);
        Index::Input(r.inp.len() - 1)
    }
    fn enforce(&self, a: &CNum<Self>, b: &CNum<Self>, c: &CNum<Self>) {
        let mut r = self.r.borrow_mut();
        let con = Con { a: r.lc(a.lc.iter()), b: r.lc(b.lc.iter()), c: r.lc(c.lc.iter()) };
        r.cons.push(con);
    }
}

pub fn eval<F: Field>(l: &Lc<F>, v: &[F]) -> F {
    let mut acc = F::zero();
    let one = F::one();
    for (i, c) in l {
        if *c == one {
            acc.add_assign(&v[*i]);
        } else {
            let mut t = *c;
            t.mul_assign(&v[*i]);
            acc.add_assign(&t);
        }
    }
    acc
}

fn residual<F: Field>(c: &Con<F>, v: &[F]) -> F {
    sub(&mul(&eval(&c.a, v), &eval(&c.b, v)), &eval(&c.c, v))
}

pub fn broken<F: Field>(cons: &[Con<F>], v: &[F]) -> Option<usize> {
    cons.iter().position(|c| !residual(c, v).is_zero())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Pinned,
    Hint,
    /// Determined by this constraint once all earlier variables are known.
    Def(usize),
}

/// A linear form over boolean hints with powers of two as coefficients.
#[derive(Clone, Debug)]
struct Decomp<F> {
    con: usize,
    /// (variable, exponent)
    bits: Vec<(usize, usize)>,
    /// Everything else in the form.
    rest: Lc<F>,
    /// form = rest - s * sum 2^e b, s is +1 or -1
    minus: bool,
    /// The form itself may be 0 or 1 (the lowest bit) rather than 0.
    boolean: bool,
}

pub struct System<F: Field> {
    pub cons: Vec<Con<F>>,
    pub honest: Vec<F>,
    /// What `recompute` makes of the honest assignment, and what it leaves free.
    base: Vec<F>,
    base_free: Vec<bool>,
    kind: Vec<Kind>,
    order: Vec<usize>,
    pub hints: Vec<usize>,
    checks: Vec<usize>,
    decomps: Vec<Decomp<F>>,
    decomp_of: HashMap<usize, usize>,
    /// for each hint, the check constraints it reaches
    reach: HashMap<usize, Vec<usize>>,
    taint: Vec<Vec<u64>>,
    hint_no: HashMap<usize, usize>,
    pub terms: usize,
    free: RefCell<HashMap<usize, F>>,
}

fn coef<F: Field>(l: &Lc<F>, v: usize) -> F {
    l.iter().find(|(i, _)| *i == v).map(|(_, c)| *c).unwrap_or_else(F::zero)
}

fn is_const<F: Field>(l: &Lc<F>) -> bool {
    l.iter().all(|(i, _)| *i == 0)
}

/// a x² + b x + c = 0
pub fn quad_roots<F: Field>(a: &F, b: &F, c: &F) -> Vec<F> {
    if a.is_zero() {
        if b.is_zero() {
            return vec![];
        }
        return vec![neg(&div(c, b))];
    }
    let disc = sub(&sq(b), &mul(&small::<F>(4), &mul(a, c)));
    match fsqrt(&disc) {
        None => vec![],
        Some(s) => {
            let i2a = inv(&mul(&small::<F>(2), a));
            let r1 = mul(&sub(&s, b), &i2a);
            let r2 = mul(&sub(&neg(&s), b), &i2a);
            if r1 == r2 {
                vec![r1]
            } else {
                vec![r1, r2]
            }
        }
    }
}

pub fn fsqrt<F: Field>(x: &F) -> Option<F> {
    if x.is_zero() {
        return Some(F::zero());
    }
    x.sqrt().filter(|r| sq(r) == *x)
}

pub struct Found<F> {
    pub assignment: Vec<F>,
    pub trail: Vec<String>,
    pub outputs: Vec<F>,
}

impl<F: Field> System<F> {
    /// `pinned`: variables the verifier fixes.
    pub fn new(rec: &Rec<F>, pinned: &[usize]) -> Self {
        let n = rec.vals.len();
        let mut kind: Vec<Option<Kind>> = vec![None; n];
        kind[0] = Some(Kind::Pinned);
        for p in pinned {
            kind[*p] = Some(Kind::Pinned);
        }
        let mut order = vec![];
        let mut checks = vec![];
        let mut terms = 0;
        for (ci, c) in rec.cons.iter().enumerate() {
            terms += c.a.len() + c.b.len() + c.c.len();
            let mut unknown: Vec<usize> =
                c.a.iter().chain(c.b.iter()).chain(c.c.iter()).map(|(i, _)| *i).filter(|i| kind[*i].is_none()).collect();
            unknown.sort_unstable();
            unknown.dedup();
            let lin = unknown.iter().rev().copied().find(|v| {
                let (ca, cb) = (!coef(&c.a, *v).is_zero(), !coef(&c.b, *v).is_zero());
                !(ca && cb)
            });
            match lin {
                Some(v) => {
                    for u in unknown {
                        if u != v {
                            kind[u] = Some(Kind::Hint);
                            order.push(u);
                        }
                    }
                    kind[v] = Some(Kind::Def(ci));
                    order.push(v);
                }
                None => {
                    for u in unknown {
                        kind[u] = Some(Kind::Hint);
                        order.push(u);
                    }
                    checks.push(ci);
                }
            }
        }
        for v in 0..n {
            if kind[v].is_none() {
                kind[v] = Some(Kind::Hint);
                order.push(v);
            }
        }
        let kind: Vec<Kind> = kind.into_iter().map(|k| k.unwrap()).collect();
        let hints: Vec<usize> = order.iter().copied().filter(|v| kind[*v] == Kind::Hint).collect();
        let hint_no: HashMap<usize, usize> = hints.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        // taint
        let w = hints.len() / 64 + 1;
        let mut taint = vec![vec![0u64; w]; n];
        for v in &order {
            match kind[*v] {
                Kind::Hint => {
                    let i = hint_no[v];
                    taint[*v][i / 64] |= 1 << (i % 64);
                }
                Kind::Def(ci) => {
                    let c = &rec.cons[ci];
                    let mut t = vec![0u64; w];
                    for (i, _) in c.a.iter().chain(c.b.iter()).chain(c.c.iter()) {
                        if i != v {
                            for (x, y) in t.iter_mut().zip(&taint[*i]) {
                                *x |= y;
                            }
                        }
                    }
                    taint[*v] = t;
                }
                Kind::Pinned => {}
            }
        }
        let mut reach: HashMap<usize, Vec<usize>> = HashMap::new();
        for ci in &checks {
            let c = &rec.cons[*ci];
            let mut t = vec![0u64; w];
            for (i, _) in c.a.iter().chain(c.b.iter()).chain(c.c.iter()) {
                for (x, y) in t.iter_mut().zip(&taint[*i]) {
                    *x |= y;
                }
            }
            for (k, h) in hints.iter().enumerate() {
                if t[k / 64] >> (k % 64) & 1 == 1 {
                    reach.entry(*h).or_default().push(*ci);
                }
            }
        }
        let honest: Vec<F> = rec.vals.iter().map(|v| v.unwrap_or_else(F::zero)).collect();
        let mut s = System {
            cons: rec.cons.clone(),
            base: honest.clone(),
            base_free: vec![],
            honest,
            kind,
            order,
            hints,
            checks,
            decomps: vec![],
            decomp_of: HashMap::new(),
            reach,
            taint,
            hint_no,
            terms,
            free: RefCell::new(HashMap::new()),
        };
        let mut b = s.honest.clone();
        let free = s.recompute(&mut b);
        s.base = b;
        s.base_free = vec![false; s.honest.len()];
        for f in free {
            s.base_free[f] = true;
        }
        s.find_decomps();
        s
    }

    fn find_decomps(&mut self) {
        let pows: HashMap<Vec<u8>, usize> = (0..F::NUM_BITS as usize + 1).map(|e| (le_bytes(&pow2::<F>(e as u64)), e)).collect();
        // variables that some constraint makes boolean
        let mut boolean = vec![false; self.honest.len()];
        for c in &self.cons {
            if let Some(l) = bool_form(c) {
                let vars: Vec<_> = l.iter().filter(|(i, _)| *i != 0).collect();
                if vars.len() == 1 && vars[0].1 == F::one() && l.len() == 1 && self.kind[vars[0].0] != Kind::Pinned {
                    boolean[vars[0].0] = true;
                }
            }
        }
        for (ci, c) in self.cons.iter().enumerate() {
            let (form, is_bool) = if let Some(l) = bool_form(c) {
                (l, true)
            } else if is_const(&c.a) || is_const(&c.b) {
                let (k, l) = if is_const(&c.a) { (&c.a, &c.b) } else { (&c.b, &c.a) };
                let kc = coef(k, 0);
                let mut m: BTreeMap<usize, F> = BTreeMap::new();
                for (i, v) in l {
                    m.entry(*i).or_insert_with(F::zero).add_assign(&mul(v, &kc));
                }
                for (i, v) in &c.c {
                    m.entry(*i).or_insert_with(F::zero).sub_assign(v);
                }
                (m.into_iter().filter(|(_, v)| !v.is_zero()).collect::<Lc<F>>(), false)
            } else {
                continue;
            };
            // the bits of a decomposition are the latest variables in its form
            let mut best: Option<(usize, Decomp<F>)> = None;
            for minus in [true, false] {
                let mut at: BTreeMap<usize, usize> = BTreeMap::new();
                for (i, v) in &form {
                    let key = le_bytes(&if minus { neg(v) } else { *v });
                    if let (Some(e), true) = (pows.get(&key), boolean[*i]) {
                        let slot = at.entry(*e).or_insert(*i);
                        *slot = (*slot).max(*i);
                    }
                }
                let first = if is_bool && minus && !at.contains_key(&0) { 1 } else { 0 };
                let bits: Vec<(usize, usize)> = (first..).map_while(|e| at.get(&e).map(|v| (*v, e))).collect();
                if bits.len() < 2 {
                    continue;
                }
                let rest: Lc<F> = form.iter().filter(|(i, _)| !bits.iter().any(|b| b.0 == *i)).cloned().collect();
                let low = bits.iter().map(|b| b.0).min().unwrap();
                if best.as_ref().map(|b| b.0 < low).unwrap_or(true) {
                    best = Some((low, Decomp { con: ci, bits, rest, minus, boolean: is_bool }));
                }
            }
            let best = best.map(|b| b.1);
            if let Some(d) = best {
                self.decomp_of.insert(ci, self.decomps.len());
                self.decomps.push(d);
            }
        }
    }

    pub fn shape(&self) -> String {
        format!("{} vars, {} hints, {} constraints, {} checks, {} decompositions", self.honest.len(), self.hints.len(), self.cons.len(), self.checks.len(), self.decomps.len())
    }

    pub fn is_hint(&self, v: usize) -> bool {
        self.kind[v] == Kind::Hint
    }

    /// Recomputes every determined variable from the hints; returns the
    /// variables left free by a quotient of zero by zero.
    fn recompute(&self, v: &mut [F]) -> Vec<usize> {
        let mut free = vec![];
        let minus_one = neg(&F::one());
        let fixed = self.free.borrow();
        let warm = !self.base_free.is_empty();
        let mut same: Vec<bool> = if warm { v.iter().zip(&self.base).map(|(a, b)| a == b).collect() } else { vec![] };
        for x in &self.order {
            if let Kind::Def(ci) = self.kind[*x] {
                let c = &self.cons[ci];
                if warm && c.a.iter().chain(c.b.iter()).chain(c.c.iter()).all(|(i, _)| i == x || same[*i]) {
                    // the same inputs as in the base
                    v[*x] = self.base[*x];
                    if self.base_free[*x] {
                        free.push(*x);
                        v[*x] = fixed.get(x).copied().unwrap_or(self.honest[*x]);
                    }
                    same[*x] = v[*x] == self.base[*x];
                    continue;
                }
                let (a1, b1, c1) = (coef(&c.a, *x), coef(&c.b, *x), coef(&c.c, *x));
                v[*x] = F::zero();
                let (a0, b0, c0) = (eval(&c.a, v), eval(&c.b, v), eval(&c.c, v));
                // (a0 + a1 x)(b0 + b1 x) = c0 + c1 x with a1 b1 = 0
                let lead = sub(&add(&mul(&a0, &b1), &mul(&a1, &b0)), &c1);
                let rhs = sub(&c0, &mul(&a0, &b0));
                if lead.is_zero() {
                    if rhs.is_zero() {
                        free.push(*x);
                        v[*x] = fixed.get(x).copied().unwrap_or(self.honest[*x]);
                    }
                } else if lead == minus_one {
                    v[*x] = neg(&rhs);
                } else {
                    v[*x] = div(&rhs, &lead);
                }
                if warm {
                    same[*x] = v[*x] == self.base[*x];
                }
            }
        }
        free
    }

    fn first_broken(&self, v: &[F]) -> Option<usize> {
        // a determined variable whose quotient was impossible breaks its own
        // constraint, so all constraints are looked at
        broken(&self.cons, v)
    }

    fn influences(&self, h: usize, con: usize) -> bool {
        let k = match self.hint_no.get(&h) {
            Some(k) => *k,
            None => return false,
        };
        let c = &self.cons[con];
        c.a.iter().chain(c.b.iter()).chain(c.c.iter()).any(|(i, _)| self.taint[*i][k / 64] >> (k % 64) & 1 == 1)
    }

    /// Values of hint `h` that satisfy constraint `con`, all else recomputed.
    fn solve(&self, v: &[F], h: usize, con: usize) -> Vec<F> {
        let at = |x: &F| -> F {
            let mut w = v.to_vec();
            w[h] = *x;
            self.recompute(&mut w);
            residual(&self.cons[con], &w)
        };
        let x: Vec<F> = (0..4).map(|i| small::<F>(i)).collect();
        let y: Vec<F> = x.iter().map(at).collect();
        // second differences: y = a x² + b x + c
        let two = small::<F>(2);
        let d2 = add(&sub(&y[2], &mul(&two, &y[1])), &y[0]);
        let d2b = add(&sub(&y[3], &mul(&two, &y[2])), &y[1]);
        if d2 == d2b {
            let a = div(&d2, &two);
            let b = sub(&sub(&y[1], &y[0]), &a);
            return quad_roots(&a, &b, &y[0]);
        }
        // r(x) = (p + q x) / (1 + s x): a quotient
        // y0 = p; y1 (1+s) = p+q; y2 (1+2s) = p+2q
        let den = sub(&mul(&two, &y[2]), &mul(&two, &y[1]));
        if !den.is_zero() {
            let num = sub(&add(&neg(&y[0]), &mul(&two, &y[1])), &y[2]);
            let s = div(&num, &den);
            let q = sub(&mul(&y[1], &add(&F::one(), &s)), &y[0]);
            let lhs = mul(&y[3], &add(&F::one(), &mul(&small::<F>(3), &s)));
            if lhs == add(&y[0], &mul(&small::<F>(3), &q)) && !q.is_zero() {
                return vec![neg(&div(&y[0], &q))];
            }
        }
        vec![]
    }

    /// Sets the bits of a decomposition to those of the value plus `alias`
    /// times the modulus.
    fn redecompose(&self, v: &mut [F], d: &Decomp<F>, alias: u32) -> bool {
        let rest = eval(&d.rest, v);
        let total = if d.minus { rest } else { neg(&rest) };
        let mut x = to_big(&total);
        for _ in 0..alias {
            x += modulus::<F>();
        }
        let top = d.bits.iter().map(|b| b.1).max().unwrap();
        if x.bits() > top + 1 {
            return false;
        }
        let bits = big_bits(&x, top + 1);
        let mut used = vec![false; top + 1];
        for (var, e) in &d.bits {
            used[*e] = true;
            v[*var] = if bits[*e] { F::one() } else { F::zero() };
        }
        if d.boolean && d.minus {
            used[0] = true;
        }
        bits.iter().zip(&used).all(|(b, u)| !*b || *u)
    }

    /// One seeded cheating session.  `bad` says whether outputs are a fraud.
    pub fn attack(&self, ctx: &Ctx, outs: &[Lc<F>], want: Option<&[F]>, tries: usize) -> Option<Found<F>> {
        self.attack_from(ctx, &self.honest.clone(), outs, want, tries)
    }

    pub fn attack_from(&self, ctx: &Ctx, start: &[F], outs: &[Lc<F>], want: Option<&[F]>, tries: usize) -> Option<Found<F>> {
        if self.hints.is_empty() && self.order.is_empty() {
            return None;
        }
        for _ in 0..tries {
            let mut v = start.to_vec();
            self.free.borrow_mut().clear();
            let mut trail = vec![];
            let mut touched: Vec<usize> = vec![];
            let n = ctx.range(1, 3);
            for _ in 0..n {
                self.tamper(ctx, &mut v, &mut trail, &mut touched);
            }
            if let Some(f) = self.settle(ctx, &mut v, &mut trail, &mut touched, outs, want) {
                return Some(f);
            }
        }
        None
    }

    /// Repairs a tampered assignment; `Some` if it ends in a fraud.
    pub fn settle(&self, ctx: &Ctx, v: &mut Vec<F>, trail: &mut Vec<String>, touched: &mut Vec<usize>, outs: &[Lc<F>], want: Option<&[F]>) -> Option<Found<F>> {
        self.recompute(v);
        let rounds = 2 + self.decomps.len() + ctx.below(4);
        for _ in 0..rounds {
            let con = match self.first_broken(v) {
                None => break,
                Some(c) => c,
            };
            if let Some(d) = self.decomp_of.get(&con) {
                let d = self.decomps[*d].clone();
                let alias = if ctx.chance(1, 4) { 1 } else { 0 };
                if self.redecompose(v, &d, alias) {
                    trail.push(format!("redecompose constraint {} alias {}", con, alias));
                    touched.extend(d.bits.iter().map(|b| b.0));
                    self.recompute(v);
                    ctx.fault("witness:redecompose");
                    continue;
                }
            }
            let cand: Vec<usize> = self.hints.iter().copied().filter(|h| !touched.contains(h) && self.influences(*h, con)).collect();
            if cand.is_empty() {
                return None;
            }
            // the latest hint is the most local one
            let h = if ctx.draw(3) < 2 { cand[cand.len() - 1] } else { cand[ctx.below(cand.len())] };
            let roots = self.solve(v, h, con);
            if roots.is_empty() {
                return None;
            }
            v[h] = roots[ctx.below(roots.len())];
            touched.push(h);
            trail.push(format!("solve constraint {} by v{} = {}", con, h, show(&v[h])));
            ctx.fault("witness:solve");
            self.recompute(v);
        }
        if self.first_broken(v).is_some() {
            return None;
        }
        // what the verifier fixes is not the prover's to choose
        if (0..v.len()).any(|i| self.kind[i] == Kind::Pinned && v[i] != self.honest[i]) {
            return None;
        }
        ctx.probe("attack_satisfied");
        let o: Vec<F> = outs.iter().map(|l| eval(l, v)).collect();
        match want {
            None => Some(Found { assignment: v.clone(), trail: trail.clone(), outputs: o }),
            Some(w) => {
                if o[..] != w[..] {
                    Some(Found { assignment: v.clone(), trail: trail.clone(), outputs: o })
                } else {
                    None
                }
            }
        }
    }

    fn tamper(&self, ctx: &Ctx, v: &mut Vec<F>, trail: &mut Vec<String>, touched: &mut Vec<usize>) {
        let which = ctx.draw(8);
        match which {
            0 | 1 if !self.decomps.is_empty() => {
                let d = &self.decomps[ctx.below(self.decomps.len())];
                let alias = 1 + ctx.draw(2) as u32;
                let before = v.clone();
                if self.redecompose(v, d, alias) {
                    trail.push(format!("decompose constraint {} as value + {}p", d.con, alias));
                    touched.extend(d.bits.iter().map(|b| b.0));
                    ctx.fault("witness:alias_decomposition");
                } else {
                    *v = before;
                    // flip one bit of it instead
                    let (b, _) = d.bits[ctx.below(d.bits.len())];
                    v[b] = sub(&F::one(), &v[b]);
                    touched.push(b);
                    trail.push(format!("flip bit v{}", b));
                    ctx.fault("witness:flip_bit");
                }
            }
            2..=4 if !self.hints.is_empty() => {
                // another root of a check that a hint reaches
                let h = self.pick_hint(ctx);
                if let Some(cs) = self.reach.get(&h) {
                    let k = ctx.below(cs.len().min(4));
                    let roots: Vec<F> = self.solve(v, h, cs[k]).into_iter().filter(|r| *r != v[h]).collect();
                    if !roots.is_empty() {
                        v[h] = roots[ctx.below(roots.len())];
                        touched.push(h);
                        trail.push(format!("other root of constraint {}: v{} = {}", cs[k], h, show(&v[h])));
                        ctx.fault("witness:other_root");
                        self.recompute(v);
                        return;
                    }
                }
                v[h] = self.wild(ctx, v, h);
                touched.push(h);
                trail.push(format!("v{} = {}", h, show(&v[h])));
                ctx.fault("witness:set_hint");
            }
            5 => {
                let mut w = v.clone();
                let free = self.recompute(&mut w);
                if !free.is_empty() {
                    let x = free[ctx.below(free.len())];
                    let val = self.wild(ctx, v, x);
                    self.free.borrow_mut().insert(x, val);
                    trail.push(format!("free quotient v{} = {}", x, show(&val)));
                    ctx.fault("witness:free_quotient");
                } else if !self.hints.is_empty() {
                    let h = self.pick_hint(ctx);
                    v[h] = self.wild(ctx, v, h);
                    touched.push(h);
                    trail.push(format!("v{} = {}", h, show(&v[h])));
                    ctx.fault("witness:set_hint");
                }
            }
            _ if !self.hints.is_empty() => {
                let h = self.pick_hint(ctx);
                v[h] = self.wild(ctx, v, h);
                touched.push(h);
                trail.push(format!("v{} = {}", h, show(&v[h])));
                ctx.fault("witness:set_hint");
            }
            _ => {}
        }
        self.recompute(v);
    }

    fn pick_hint(&self, ctx: &Ctx) -> usize {
        // half of the time a hint with few checks on it
        if ctx.draw(2) == 0 {
            let k = 3.min(self.hints.len());
            (0..k)
                .map(|_| self.hints[ctx.below(self.hints.len())])
                .min_by_key(|h| self.reach.get(h).map(|r| r.len()).unwrap_or(0))
                .unwrap()
        } else {
            self.hints[ctx.below(self.hints.len())]
        }
    }

    fn wild(&self, ctx: &Ctx, v: &[F], h: usize) -> F {
        match ctx.draw(8) {
            0 => F::zero(),
            1 => F::one(),
            2 => neg(&v[h]),
            3 => add(&v[h], &F::one()),
            4 => sub(&F::one(), &v[h]),
            5 => v[ctx.below(v.len())],
            6 => v[h].inverse().unwrap_or_else(F::zero),
            _ => random(&mut ctx.prng()),
        }
    }

    /// Sets chosen hints and repairs: a directed attack.
    pub fn attack_with(&self, ctx: &Ctx, sets: &[(usize, F)], outs: &[Lc<F>], want: Option<&[F]>, what: &str) -> Option<Found<F>> {
        let mut v = self.honest.clone();
        self.free.borrow_mut().clear();
        let mut touched = vec![];
        for (h, x) in sets {
            v[*h] = *x;
            touched.push(*h);
        }
        let mut trail = vec![what.to_string()];
        ctx.fault("witness:directed");
        self.settle(ctx, &mut v, &mut trail, &mut touched, outs, want)
    }

    /// Offers value + p in every decomposition wide enough to hold it.
    pub fn alias_attack(&self, ctx: &Ctx, outs: &[Lc<F>], want: Option<&[F]>) -> Option<Found<F>> {
        for d in &self.decomps {
            let mut v = self.honest.clone();
            self.free.borrow_mut().clear();
            if !self.redecompose(&mut v, d, 1) {
                continue;
            }
            ctx.fault("witness:alias_decomposition");
            let mut touched: Vec<usize> = d.bits.iter().map(|b| b.0).collect();
            let mut trail = vec![format!("decompose constraint {} as value + p", d.con)];
            if let Some(f) = self.settle(ctx, &mut v, &mut trail, &mut touched, outs, want) {
                return Some(f);
            }
        }
        None
    }

    /// The first hint with this honest value.
    pub fn hint_with(&self, x: &F) -> Option<usize> {
        self.hints.iter().copied().find(|h| self.honest[*h] == *x)
    }
}

/// l if the constraint says l(l-1) = 0.
fn bool_form<F: Field>(c: &Con<F>) -> Option<Lc<F>> {
    if !c.c.is_empty() {
        return None;
    }
    for (p, q) in [(&c.a, &c.b), (&c.b, &c.a)] {
        // q = p - 1
        let mut m: BTreeMap<usize, F> = p.iter().cloned().collect();
        m.entry(0).or_insert_with(F::zero).sub_assign(&F::one());
        let want: Lc<F> = m.into_iter().filter(|(_, v)| !v.is_zero()).collect();
        if want == *q {
            return Some(p.clone());
        }
        // q = 1 - p
        let negq: Lc<F> = q.iter().map(|(i, v)| (*i, neg(v))).collect();
        if want == negq {
            return Some(p.clone());
        }
    }
    None
}
