//! Random circuits: programs of gadgets, executable on any constraint system,
//! with the value of every signal computed by the reference model.
use crate::core::*;
use crate::gen::*;
use crate::refmodel::Poseidon;
use fawkes_crypto::circuit::bitify::*;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::mux::c_mux3;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::circuit::poseidon::*;
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::{MerkleProof, PoseidonParams};
use fawkes_crypto_derive::Signal;
use num::bigint::BigUint;
use num::{One, Zero};
use typenum::{U1, U17, U2, U20, U3};

#[derive(Clone, Debug)]
pub struct VPair<F: Field> {
    pub a: Num<F>,
    pub b: bool,
    pub v: SizedVec<Num<F>, U2>,
}

#[derive(Clone, Signal)]
#[Value = "VPair<CS::F>"]
pub struct CPair<'a, CS: ConstraintSystem> {
    pub a: CNum<'a, CS>,
    pub b: CBool<'a, CS>,
    pub v: SizedVec<CNum<'a, CS>, U2>,
}

#[derive(Clone, Debug)]
pub struct VTup<F: Field>(pub bool, pub Num<F>, pub SizedVec<bool, U2>);

#[derive(Clone, Signal)]
#[Value = "VTup<CS::F>"]
pub struct CTup<'a, CS: ConstraintSystem>(pub CBool<'a, CS>, pub CNum<'a, CS>, pub SizedVec<CBool<'a, CS>, U2>);

/// A derived composite of composites, with fields that share a type.
#[derive(Clone, Debug)]
pub struct VDeep<F: Field> {
    pub x: Num<F>,
    pub p: VPair<F>,
    pub y: Num<F>,
    pub q: SizedVec<VTup<F>, U2>,
    pub f: bool,
    pub g: bool,
    pub z: Num<F>,
}

#[derive(Clone, Signal)]
#[Value = "VDeep<CS::F>"]
pub struct CDeep<'a, CS: ConstraintSystem> {
    pub x: CNum<'a, CS>,
    pub p: CPair<'a, CS>,
    pub y: CNum<'a, CS>,
    pub q: SizedVec<CTup<'a, CS>, U2>,
    pub f: CBool<'a, CS>,
    pub g: CBool<'a, CS>,
    pub z: CNum<'a, CS>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Arith {
    Add,
    Sub,
    Mul,
    Div,
}

#[derive(Clone, Debug)]
pub enum In<F> {
    Num(F, bool),
    Bool(bool, bool),
    /// a composite signal allocated (or constant) as a whole
    Comp(u8, Vec<F>, Vec<bool>, bool),
}

/// `N` numbers, booleans of the pool by index.
#[derive(Clone, Debug)]
pub enum Op<F> {
    Bin(Arith, usize, usize, u8),
    /// signal ∘ constant
    BinK(Arith, usize, F, u8),
    /// constant ∘ signal
    KBin(Arith, F, usize, u8),
    Neg(usize, u8),
    Square(usize),
    IsZero(usize),
    IsEq(usize, usize),
    IsEqB(usize, usize),
    Switch(usize, usize, usize, u8),
    SwitchB(usize, usize, usize),
    IntoNum(usize),
    IntoBool(usize),
    AssertZero(usize),
    AssertNonzero(usize),
    AssertBit(usize),
    AssertConst(usize, F),
    AssertEq(usize, usize),
    /// a constraint of the caller's own
    Enforce(usize, usize, usize),
    AssertB(usize, u8),
    AssertEqB(usize, usize),
    Bits(usize, usize),
    BitsStrict(usize),
    FromBits(Vec<usize>),
    /// a long linear combination, term by term
    Wide(Vec<(usize, F)>),
    Comp(Vec<usize>, F),
    Mux3([usize; 3], Vec<Vec<F>>),
    Inputize(usize),
    InputizeB(usize),
    /// kind, operation, numbers, booleans (twice as many for two operands)
    Comp2(u8, CompOp<F>, Vec<usize>, Vec<usize>),
    Poseidon(usize, Vec<usize>),
    Merkle(usize, Vec<usize>, Vec<usize>),
    TreeRoot(Vec<usize>),
}

#[derive(Clone, Debug)]
pub enum CompOp<F> {
    Switch(usize),
    IsEq,
    AssertEq,
    AssertConst(Vec<F>, Vec<bool>),
    Inputize,
    Const(Vec<F>, Vec<bool>),
    Linearize,
}

#[derive(Clone, Debug)]
pub struct Prog<F> {
    pub ins: Vec<In<F>>,
    pub ops: Vec<Op<F>>,
    /// Reference: every number and boolean after the inputs, in order.
    pub nums: Vec<F>,
    pub bools: Vec<bool>,
    pub publics: Vec<F>,
    /// The last operation asserts something false.
    pub unsat: bool,
    pub n_num_in: usize,
    pub n_bool_in: usize,
}

pub struct Pools<'a, CS: ConstraintSystem> {
    pub nums: Vec<CNum<'a, CS>>,
    pub bools: Vec<CBool<'a, CS>>,
}

/// Poseidon parameters for tests: small and quick (t = 2..4).
pub struct Hashes<F: Field> {
    pub lib: Vec<PoseidonParams<F>>,
    pub model: Vec<Poseidon<F>>,
}

impl<F: Field> Hashes<F> {
    pub fn new() -> Self {
        let shape = [(2usize, 8usize, 53usize), (3, 8, 53), (4, 8, 54), (3, 4, 5), (2, 2, 3)];
        Hashes {
            lib: shape.iter().map(|s| PoseidonParams::new(s.0, s.1, s.2)).collect(),
            model: shape.iter().map(|s| Poseidon::new(s.0, s.1, s.2)).collect(),
        }
    }
}

pub trait Home: Field {
    fn hashes() -> &'static Hashes<Self>;
}
impl Home for pairing::bn256::Fr {
    fn hashes() -> &'static Hashes<Self> {
        static H: std::sync::OnceLock<Hashes<pairing::bn256::Fr>> = std::sync::OnceLock::new();
        H.get_or_init(Hashes::new)
    }
}
impl Home for pairing::bls12_381::Fr {
    fn hashes() -> &'static Hashes<Self> {
        static H: std::sync::OnceLock<Hashes<pairing::bls12_381::Fr>> = std::sync::OnceLock::new();
        H.get_or_init(Hashes::new)
    }
}

pub const KINDS: u8 = 11;
/// Draws a kind of composite, the large ones less often.
fn kind_of(ctx: &Ctx) -> u8 {
    if ctx.chance(1, 4) {
        7 + ctx.draw(KINDS as u64 - 7) as u8
    } else {
        ctx.draw(7) as u8
    }
}
/// (numbers, booleans) of a composite kind
pub fn arity(kind: u8) -> (usize, usize) {
    match kind {
        0 => (3, 0),
        1 => (1, 1),
        2 => (3, 1),
        3 => (1, 3),
        4 => (4, 3),
        5 => (2, 2),
        7 => (17, 20),
        8 => (11, 6),
        9 => (6, 2),
        10 => (8, 9),
        _ => (1, 0),
    }
}

/// The order in which a composite lists its parts: (false, i) is number i.
pub fn layout(kind: u8) -> Vec<(bool, usize)> {
    let n = |i| (false, i);
    let b = |i| (true, i);
    match kind {
        0 => vec![n(0), n(1), n(2)],
        1 => vec![n(0), b(0)],
        2 => vec![n(0), b(0), n(1), n(2)],
        3 => vec![b(0), n(0), b(1), b(2)],
        4 => vec![n(0), b(0), n(1), n(2), b(1), b(2), n(3)],
        5 => vec![n(0), n(1), b(0), b(1)],
        7 => (0..17).map(n).chain((0..20).map(b)).collect(),
        8 => vec![n(0), b(0), n(1), n(2), b(1), n(3), n(4), b(2), n(5), b(3), b(4), n(6), n(7), n(8), b(5), n(9), n(10)],
        9 => vec![n(0), b(0), n(1), n(2), n(3), b(1), n(4), n(5)],
        10 => vec![n(0), n(1), b(0), n(2), n(3), n(4), b(1), n(5), b(2), b(3), b(4), n(6), b(5), b(6), b(7), b(8), n(7)],
        _ => vec![n(0)],
    }
}

trait Comp<'a, CS: ConstraintSystem + 'a>: Signal<'a, CS> {
    fn make(n: &[CNum<'a, CS>], b: &[CBool<'a, CS>]) -> Self;
    fn val(n: &[CS::F], b: &[bool]) -> Self::Value;
    fn unval(v: &Self::Value) -> (Vec<CS::F>, Vec<bool>);
}

fn sv<T: Clone, L: typenum::Unsigned>(v: &[T]) -> SizedVec<T, L> {
    v.iter().cloned().collect()
}
fn nums<F: Field>(v: &[F]) -> Vec<Num<F>> {
    v.iter().map(|x| Num(*x)).collect()
}

impl<'a, CS: ConstraintSystem + 'a> Comp<'a, CS> for SizedVec<CNum<'a, CS>, U3> {
    fn make(n: &[CNum<'a, CS>], _: &[CBool<'a, CS>]) -> Self {
        sv(n)
    }
    fn val(n: &[CS::F], _: &[bool]) -> Self::Value {
        sv(&nums(n))
    }
    fn unval(v: &Self::Value) -> (Vec<CS::F>, Vec<bool>) {
        (v.iter().map(|x| x.0).collect(), vec![])
    }
}
impl<'a, CS: ConstraintSystem + 'a> Comp<'a, CS> for (CNum<'a, CS>, CBool<'a, CS>) {
    fn make(n: &[CNum<'a, CS>], b: &[CBool<'a, CS>]) -> Self {
        (n[0].clone(), b[0].clone())
    }
    fn val(n: &[CS::F], b: &[bool]) -> Self::Value {
        (Num(n[0]), b[0])
    }
    fn unval(v: &Self::Value) -> (Vec<CS::F>, Vec<bool>) {
        (vec![(v.0).0], vec![v.1])
    }
}
impl<'a, CS: ConstraintSystem + 'a> Comp<'a, CS> for CPair<'a, CS> {
    fn make(n: &[CNum<'a, CS>], b: &[CBool<'a, CS>]) -> Self {
        CPair { a: n[0].clone(), b: b[0].clone(), v: sv(&n[1..3]) }
    }
    fn val(n: &[CS::F], b: &[bool]) -> Self::Value {
        VPair { a: Num(n[0]), b: b[0], v: sv(&nums(&n[1..3])) }
    }
    fn unval(v: &Self::Value) -> (Vec<CS::F>, Vec<bool>) {
        (vec![v.a.0, v.v[0].0, v.v[1].0], vec![v.b])
    }
}
impl<'a, CS: ConstraintSystem + 'a> Comp<'a, CS> for CTup<'a, CS> {
    fn make(n: &[CNum<'a, CS>], b: &[CBool<'a, CS>]) -> Self {
        CTup(b[0].clone(), n[0].clone(), sv(&b[1..3]))
    }
    fn val(n: &[CS::F], b: &[bool]) -> Self::Value {
        VTup(b[0], Num(n[0]), sv(&b[1..3]))
    }
    fn unval(v: &Self::Value) -> (Vec<CS::F>, Vec<bool>) {
        (vec![v.1 .0], vec![v.0, v.2[0], v.2[1]])
    }
}
type Nest<'a, CS> = (CPair<'a, CS>, SizedVec<CBool<'a, CS>, U2>, SizedVec<CNum<'a, CS>, U1>);
impl<'a, CS: ConstraintSystem + 'a> Comp<'a, CS> for Nest<'a, CS> {
    fn make(n: &[CNum<'a, CS>], b: &[CBool<'a, CS>]) -> Self {
        (CPair::make(&n[..3], &b[..1]), sv(&b[1..3]), sv(&n[3..4]))
    }
    fn val(n: &[CS::F], b: &[bool]) -> Self::Value {
        (CPair::<'a, CS>::val(&n[..3], &b[..1]), sv(&b[1..3]), sv(&nums(&n[3..4])))
    }
    fn unval(v: &Self::Value) -> (Vec<CS::F>, Vec<bool>) {
        let (mut n, mut b) = CPair::<'a, CS>::unval(&v.0);
        b.extend(v.1.iter().cloned());
        n.push(v.2[0].0);
        (n, b)
    }
}
impl<'a, CS: ConstraintSystem + 'a> Comp<'a, CS> for CMerkleProof<'a, CS, U2> {
    fn make(n: &[CNum<'a, CS>], b: &[CBool<'a, CS>]) -> Self {
        CMerkleProof { sibling: sv(n), path: sv(b) }
    }
    fn val(n: &[CS::F], b: &[bool]) -> Self::Value {
        MerkleProof { sibling: sv(&nums(n)), path: sv(b) }
    }
    fn unval(v: &Self::Value) -> (Vec<CS::F>, Vec<bool>) {
        (v.sibling.iter().map(|x| x.0).collect(), v.path.iter().cloned().collect())
    }
}
impl<'a, CS: ConstraintSystem + 'a> Comp<'a, CS> for (CNum<'a, CS>,) {
    fn make(n: &[CNum<'a, CS>], _: &[CBool<'a, CS>]) -> Self {
        (n[0].clone(),)
    }
    fn val(n: &[CS::F], _: &[bool]) -> Self::Value {
        (Num(n[0]),)
    }
    fn unval(v: &Self::Value) -> (Vec<CS::F>, Vec<bool>) {
        (vec![(v.0).0], vec![])
    }
}

/// Long vectors side by side.
type Long<'a, CS> = (SizedVec<CNum<'a, CS>, U17>, SizedVec<CBool<'a, CS>, U20>);
impl<'a, CS: ConstraintSystem + 'a> Comp<'a, CS> for Long<'a, CS> {
    fn make(n: &[CNum<'a, CS>], b: &[CBool<'a, CS>]) -> Self {
        (sv(n), sv(b))
    }
    fn val(n: &[CS::F], b: &[bool]) -> Self::Value {
        (sv(&nums(n)), sv(b))
    }
    fn unval(v: &Self::Value) -> (Vec<CS::F>, Vec<bool>) {
        (v.0.iter().map(|x| x.0).collect(), v.1.iter().cloned().collect())
    }
}
/// The longest tuple there is.
type Tup17<'a, CS> = (
    CNum<'a, CS>, CBool<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CBool<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CBool<'a, CS>, CNum<'a, CS>,
    CBool<'a, CS>, CBool<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CBool<'a, CS>, CNum<'a, CS>, CNum<'a, CS>,
);
impl<'a, CS: ConstraintSystem + 'a> Comp<'a, CS> for Tup17<'a, CS> {
    fn make(n: &[CNum<'a, CS>], b: &[CBool<'a, CS>]) -> Self {
        let n = |i: usize| n[i].clone();
        let b = |i: usize| b[i].clone();
        (n(0), b(0), n(1), n(2), b(1), n(3), n(4), b(2), n(5), b(3), b(4), n(6), n(7), n(8), b(5), n(9), n(10))
    }
    fn val(n: &[CS::F], b: &[bool]) -> Self::Value {
        let n = |i: usize| Num(n[i]);
        let b = |i: usize| b[i];
        (n(0), b(0), n(1), n(2), b(1), n(3), n(4), b(2), n(5), b(3), b(4), n(6), n(7), n(8), b(5), n(9), n(10))
    }
    fn unval(v: &Self::Value) -> (Vec<CS::F>, Vec<bool>) {
        (
            [v.0, v.2, v.3, v.5, v.6, v.8, v.11, v.12, v.13, v.15, v.16].iter().map(|x| x.0).collect(),
            vec![v.1, v.4, v.7, v.9, v.10, v.14],
        )
    }
}
/// A vector of composites.
impl<'a, CS: ConstraintSystem + 'a> Comp<'a, CS> for SizedVec<CPair<'a, CS>, U2> {
    fn make(n: &[CNum<'a, CS>], b: &[CBool<'a, CS>]) -> Self {
        sv(&[CPair::make(&n[..3], &b[..1]), CPair::make(&n[3..], &b[1..])])
    }
    fn val(n: &[CS::F], b: &[bool]) -> Self::Value {
        sv(&[CPair::<'a, CS>::val(&n[..3], &b[..1]), CPair::<'a, CS>::val(&n[3..], &b[1..])])
    }
    fn unval(v: &Self::Value) -> (Vec<CS::F>, Vec<bool>) {
        let (mut n, mut b) = CPair::<'a, CS>::unval(&v[0]);
        let (n2, b2) = CPair::<'a, CS>::unval(&v[1]);
        n.extend(n2);
        b.extend(b2);
        (n, b)
    }
}
impl<'a, CS: ConstraintSystem + 'a> Comp<'a, CS> for CDeep<'a, CS> {
    fn make(n: &[CNum<'a, CS>], b: &[CBool<'a, CS>]) -> Self {
        CDeep {
            x: n[0].clone(),
            p: CPair::make(&n[1..4], &b[..1]),
            y: n[4].clone(),
            q: sv(&[CTup::make(&n[5..6], &b[1..4]), CTup::make(&n[6..7], &b[4..7])]),
            f: b[7].clone(),
            g: b[8].clone(),
            z: n[7].clone(),
        }
    }
    fn val(n: &[CS::F], b: &[bool]) -> Self::Value {
        VDeep {
            x: Num(n[0]),
            p: CPair::<'a, CS>::val(&n[1..4], &b[..1]),
            y: Num(n[4]),
            q: sv(&[CTup::<'a, CS>::val(&n[5..6], &b[1..4]), CTup::<'a, CS>::val(&n[6..7], &b[4..7])]),
            f: b[7],
            g: b[8],
            z: Num(n[7]),
        }
    }
    fn unval(v: &Self::Value) -> (Vec<CS::F>, Vec<bool>) {
        let (pn, pb) = CPair::<'a, CS>::unval(&v.p);
        let (q0n, q0b) = CTup::<'a, CS>::unval(&v.q[0]);
        let (q1n, q1b) = CTup::<'a, CS>::unval(&v.q[1]);
        (
            [vec![v.x.0], pn, vec![v.y.0], q0n, q1n, vec![v.z.0]].concat(),
            [pb, q0b, q1b, vec![v.f, v.g]].concat(),
        )
    }
}

/// Allocates the inputs as one composite signal: the witness decoder's path.
fn alloc_comp<'a, CS: ConstraintSystem + 'a, S: Comp<'a, CS>>(cs: &'a CS, n: Option<(&[CS::F], &[bool])>) -> Vec<CNum<'a, CS>> {
    let v = n.map(|(n, b)| S::val(n, b));
    S::alloc(cs, v.as_ref()).linearize()
}

pub fn alloc_kind<'a, CS: ConstraintSystem + 'a>(cs: &'a CS, kind: u8, v: Option<(&[CS::F], &[bool])>) -> Vec<CNum<'a, CS>> {
    match kind {
        0 => alloc_comp::<CS, SizedVec<CNum<'a, CS>, U3>>(cs, v),
        1 => alloc_comp::<CS, (CNum<'a, CS>, CBool<'a, CS>)>(cs, v),
        2 => alloc_comp::<CS, CPair<'a, CS>>(cs, v),
        3 => alloc_comp::<CS, CTup<'a, CS>>(cs, v),
        4 => alloc_comp::<CS, Nest<'a, CS>>(cs, v),
        5 => alloc_comp::<CS, CMerkleProof<'a, CS, U2>>(cs, v),
        7 => alloc_comp::<CS, Long<'a, CS>>(cs, v),
        8 => alloc_comp::<CS, Tup17<'a, CS>>(cs, v),
        9 => alloc_comp::<CS, SizedVec<CPair<'a, CS>, U2>>(cs, v),
        10 => alloc_comp::<CS, CDeep<'a, CS>>(cs, v),
        _ => alloc_comp::<CS, (CNum<'a, CS>,)>(cs, v),
    }
}

fn split<'a, CS: ConstraintSystem>(kind: u8, flat: Vec<CNum<'a, CS>>, p: &mut Pools<'a, CS>) {
    assert!(flat.len() == layout(kind).len(), "PROPERTY: linearize lists {} parts of {}", flat.len(), layout(kind).len());
    let l = layout(kind);
    let (nn, nb) = arity(kind);
    for i in 0..nn {
        p.nums.push(flat[l.iter().position(|x| *x == (false, i)).unwrap()].clone());
    }
    for i in 0..nb {
        p.bools.push(CBool(flat[l.iter().position(|x| *x == (true, i)).unwrap()].clone()));
    }
}

fn comp_op<'a, CS: ConstraintSystem + 'a, S: Comp<'a, CS>>(kind: u8, cs: &'a CS, op: &CompOp<CS::F>, ni: &[usize], bi: &[usize], p: &mut Pools<'a, CS>) {
    let (nn, nb) = arity(kind);
    let pick = |k: usize, p: &Pools<'a, CS>| -> S {
        let n: Vec<_> = ni[k * nn..(k + 1) * nn].iter().map(|i| p.nums[*i].clone()).collect();
        let b: Vec<_> = bi[k * nb..(k + 1) * nb].iter().map(|i| p.bools[*i].clone()).collect();
        S::make(&n, &b)
    };
    match op {
        CompOp::Switch(bit) => {
            let (x, y) = (pick(0, p), pick(1, p));
            let r = x.switch(&p.bools[*bit], &y);
            split(kind, r.linearize(), p);
        }
        CompOp::IsEq => {
            let r = pick(0, p).is_eq(&pick(1, p));
            p.bools.push(r);
        }
        CompOp::AssertEq => pick(0, p).assert_eq(&pick(1, p)),
        CompOp::AssertConst(n, b) => pick(0, p).assert_const(&S::val(n, b)),
        CompOp::Inputize => pick(0, p).inputize(),
        CompOp::Const(n, b) => {
            let s = S::from_const(cs, &S::val(n, b));
            let c = s.as_const();
            assert!(c.map(|c| S::unval(&c)) == Some((n.clone(), b.clone())), "PROPERTY: as_const of a constant composite");
            split(kind, s.linearize(), p);
        }
        CompOp::Linearize => {
            let c = pick(0, p).as_const().map(|c| S::unval(&c));
            let k: Option<Vec<CS::F>> = pick(0, p).linearize().iter().map(|x| x.as_const().map(|v| v.0)).collect();
            assert!(c.is_some() == k.is_some(), "PROPERTY: as_const of a composite and of its parts disagree");
            let s = pick(0, p);
            let v = s.get_value().map(|v| S::unval(&v));
            let w: Option<Vec<CS::F>> = s.linearize().iter().map(|x| x.get_value().map(|v| v.0)).collect();
            if let (Some((n, b)), Some(w)) = (&v, &w) {
                let flat: Vec<CS::F> = layout(kind)
                    .iter()
                    .map(|(is_b, i)| if *is_b { if b[*i] { small(1) } else { small(0) } } else { n[*i] })
                    .collect();
                assert!(flat == *w, "PROPERTY: get_value and linearize of a composite disagree");
            }
            split(kind, s.linearize(), p);
        }
    }
}

macro_rules! bin_forms {
    ($a:expr, $b:expr, $f:expr, $op:tt, $asg:tt) => {
        match $f % 6 {
            0 => $a.clone() $op $b.clone(),
            1 => $a.clone() $op &$b,
            2 => &$a $op $b.clone(),
            3 => &$a $op &$b,
            4 => { let mut t = $a.clone(); t $asg &$b; t }
            _ => { let mut t = $a.clone(); t $asg $b.clone(); t }
        }
    };
}
macro_rules! kbin_forms {
    ($a:expr, $b:expr, $f:expr, $op:tt) => {
        match $f % 4 {
            0 => $a $op $b.clone(),
            1 => $a $op &$b,
            2 => &$a $op $b.clone(),
            _ => &$a $op &$b,
        }
    };
}

/// How inputs are given to the circuit.
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// with a witness
    Prove,
    /// without one
    Setup,
}

pub fn alloc_inputs<'a, CS: ConstraintSystem + 'a>(cs: &'a CS, ins: &[In<CS::F>], mode: Mode) -> Pools<'a, CS>
where
    CS::F: Home,
{
    let mut p = Pools { nums: vec![], bools: vec![] };
    for (at, i) in ins.iter().enumerate() {
        match i {
            In::Num(v, true) => {
                // the constants zero and one have constructors of their own
                let zero = *v == small(0);
                let how = if zero || *v == small(1) { at % 3 } else { 0 };
                let near = p.nums.last().cloned();
                p.nums.push(match (how, zero, near) {
                    (1, true, _) => CNum::zero(cs),
                    (1, false, _) => CNum::one(cs),
                    (2, true, Some(x)) => x.derive_zero(),
                    (2, false, Some(x)) => x.derive_one(),
                    _ => CNum::from_const(cs, &Num(*v)),
                })
            }
            In::Num(v, false) => {
                let n = Num(*v);
                p.nums.push(CNum::alloc(cs, if mode == Mode::Prove { Some(&n) } else { None }))
            }
            In::Bool(v, true) => p.bools.push(match (at % 2, v) {
                (0, _) => CBool::from_const(cs, v),
                (_, true) => CBool::c_true(cs),
                _ => CBool::c_false(cs),
            }),
            In::Comp(kind, n, b, false) => {
                let flat = alloc_kind(cs, *kind, if mode == Mode::Prove { Some((n, b)) } else { None });
                split(*kind, flat, &mut p);
            }
            In::Comp(kind, n, b, true) => {
                let op = Op::Comp2(*kind, CompOp::Const(n.clone(), b.clone()), vec![], vec![]);
                exec1(cs, &op, &mut p);
            }
            In::Bool(v, false) => p.bools.push(CBool::alloc(cs, if mode == Mode::Prove { Some(v) } else { None })),
        }
    }
    p
}

pub fn exec<'a, CS: ConstraintSystem + 'a>(cs: &'a CS, ops: &[Op<CS::F>], p: &mut Pools<'a, CS>)
where
    CS::F: Home,
{
    for op in ops {
        exec1(cs, op, p);
    }
}

fn exec1<'a, CS: ConstraintSystem + 'a>(cs: &'a CS, op: &Op<CS::F>, p: &mut Pools<'a, CS>)
where
    CS::F: Home,
{
    match op {
        Op::Bin(k, a, b, f) => {
            let (a, b) = (p.nums[*a].clone(), p.nums[*b].clone());
            let r = match k {
                Arith::Add => bin_forms!(a, b, f, +, +=),
                Arith::Sub => bin_forms!(a, b, f, -, -=),
                Arith::Mul => bin_forms!(a, b, f, *, *=),
                Arith::Div => bin_forms!(a, b, f, /, /=),
            };
            p.nums.push(r);
        }
        Op::BinK(k, a, b, f) => {
            let (a, b) = (p.nums[*a].clone(), Num(*b));
            let r = match k {
                Arith::Add => bin_forms!(a, b, f, +, +=),
                Arith::Sub => bin_forms!(a, b, f, -, -=),
                Arith::Mul => bin_forms!(a, b, f, *, *=),
                Arith::Div => bin_forms!(a, b, f, /, /=),
            };
            p.nums.push(r);
        }
        Op::KBin(k, a, b, f) => {
            let (a, b) = (Num(*a), p.nums[*b].clone());
            let r = match k {
                Arith::Add => kbin_forms!(a, b, f, +),
                Arith::Sub => kbin_forms!(a, b, f, -),
                _ => kbin_forms!(a, b, f, *),
            };
            p.nums.push(r);
        }
        Op::Neg(a, f) => {
            let a = &p.nums[*a];
            let r = if *f == 0 { -a.clone() } else { -a };
            p.nums.push(r);
        }
        Op::Square(a) => {
            let r = p.nums[*a].square();
            p.nums.push(r);
        }
        Op::IsZero(a) => {
            let r = p.nums[*a].is_zero();
            p.bools.push(r);
        }
        Op::IsEq(a, b) => {
            let r = p.nums[*a].is_eq(&p.nums[*b]);
            p.bools.push(r);
        }
        Op::IsEqB(a, b) => {
            let r = p.bools[*a].is_eq(&p.bools[*b]);
            p.bools.push(r);
        }
        Op::Switch(bit, a, b, f) => {
            let (s, a, b) = (&p.bools[*bit], &p.nums[*a], &p.nums[*b]);
            let r = if *f == 0 { a.switch(s, b) } else { s.if_else(a, b) };
            p.nums.push(r);
        }
        Op::SwitchB(bit, a, b) => {
            let r = p.bools[*a].switch(&p.bools[*bit], &p.bools[*b]);
            p.bools.push(r);
        }
        Op::IntoNum(a) => {
            let r = p.bools[*a].into_num();
            p.nums.push(r);
        }
        Op::IntoBool(a) => {
            let r = p.nums[*a].into_bool();
            p.bools.push(r);
        }
        Op::AssertZero(a) => p.nums[*a].assert_zero(),
        Op::AssertNonzero(a) => p.nums[*a].assert_nonzero(),
        Op::AssertBit(a) => p.nums[*a].assert_bit(),
        Op::AssertConst(a, k) => p.nums[*a].assert_const(&Num(*k)),
        Op::AssertEq(a, b) => p.nums[*a].assert_eq(&p.nums[*b]),
        Op::Enforce(a, b, c) => cs.enforce(&p.nums[*a], &p.nums[*b], &p.nums[*c]),
        Op::AssertB(a, k) => match k {
            0 => p.bools[*a].assert_true(),
            1 => p.bools[*a].assert_false(),
            2 => p.bools[*a].assert_const(&true),
            3 => p.bools[*a].assert_const(&false),
            _ => p.bools[*a].assert(),
        },
        Op::AssertEqB(a, b) => p.bools[*a].assert_eq(&p.bools[*b]),
        Op::Bits(a, n) => {
            let r = c_into_bits_le(&p.nums[*a], *n);
            assert!(r.len() == *n, "PROPERTY: decomposition into {} bits has {}", n, r.len());
            p.bools.extend(r);
        }
        Op::BitsStrict(a) => {
            let r = c_into_bits_le_strict(&p.nums[*a]);
            assert!(r.len() == <CS::F as ff::PrimeField>::NUM_BITS as usize, "PROPERTY: strict decomposition has {} bits", r.len());
            p.bools.extend(r);
        }
        Op::FromBits(b) => {
            let v: Vec<_> = b.iter().map(|i| p.bools[*i].clone()).collect();
            let r = c_from_bits_le(&v);
            p.nums.push(r);
        }
        Op::Wide(terms) => {
            let mut acc = &p.nums[terms[0].0] * Num(terms[0].1);
            for (i, k) in &terms[1..] {
                acc += &p.nums[*i] * Num(*k);
            }
            p.nums.push(acc);
        }
        Op::Comp(b, k) => {
            let v: Vec<_> = b.iter().map(|i| p.bools[*i].clone()).collect();
            let r = c_comp_constant(&v, Num(*k));
            p.bools.push(r);
        }
        Op::Mux3(s, t) => {
            let v: Vec<_> = s.iter().map(|i| p.bools[*i].clone()).collect();
            let t: Vec<Vec<Num<CS::F>>> = t.iter().map(|c| nums(c)).collect();
            let r = c_mux3(&v, &t);
            assert!(r.len() == t.len(), "PROPERTY: mux3 over {} columns gives {}", t.len(), r.len());
            p.nums.extend(r);
        }
        Op::Inputize(a) => p.nums[*a].inputize(),
        Op::InputizeB(a) => p.bools[*a].inputize(),
        Op::Comp2(kind, op, n, b) => match kind {
            0 => comp_op::<CS, SizedVec<CNum<'a, CS>, U3>>(*kind, cs, op, n, b, p),
            1 => comp_op::<CS, (CNum<'a, CS>, CBool<'a, CS>)>(*kind, cs, op, n, b, p),
            2 => comp_op::<CS, CPair<'a, CS>>(*kind, cs, op, n, b, p),
            3 => comp_op::<CS, CTup<'a, CS>>(*kind, cs, op, n, b, p),
            4 => comp_op::<CS, Nest<'a, CS>>(*kind, cs, op, n, b, p),
            5 => comp_op::<CS, CMerkleProof<'a, CS, U2>>(*kind, cs, op, n, b, p),
            7 => comp_op::<CS, Long<'a, CS>>(*kind, cs, op, n, b, p),
            8 => comp_op::<CS, Tup17<'a, CS>>(*kind, cs, op, n, b, p),
            9 => comp_op::<CS, SizedVec<CPair<'a, CS>, U2>>(*kind, cs, op, n, b, p),
            10 => comp_op::<CS, CDeep<'a, CS>>(*kind, cs, op, n, b, p),
            _ => comp_op::<CS, (CNum<'a, CS>,)>(*kind, cs, op, n, b, p),
        },
        Op::Poseidon(k, ins) => {
            let v: Vec<_> = ins.iter().map(|i| p.nums[*i].clone()).collect();
            let r = c_poseidon(&v, &CS::F::hashes().lib[*k]);
            p.nums.push(r);
        }
        Op::Merkle(leaf, sib, path) => {
            let proof = CMerkleProof::<CS, U2> {
                sibling: sib.iter().map(|i| p.nums[*i].clone()).collect(),
                path: path.iter().map(|i| p.bools[*i].clone()).collect(),
            };
            let r = c_poseidon_merkle_proof_root(&p.nums[*leaf], &proof, &CS::F::hashes().lib[3]);
            p.nums.push(r);
        }
        Op::TreeRoot(ins) => {
            let v: Vec<_> = ins.iter().map(|i| p.nums[*i].clone()).collect();
            let r = c_poseidon_merkle_tree_root(&v, &CS::F::hashes().lib[3]);
            p.nums.push(r);
        }
    }
}

pub fn b2f<F: Field>(b: bool) -> F {
    if b {
        F::one()
    } else {
        F::zero()
    }
}

/// The reference state while a program is drawn.
pub struct Drawer<'c, F: Field> {
    pub ctx: &'c Ctx,
    pub ins: Vec<In<F>>,
    pub ops: Vec<Op<F>>,
    pub nums: Vec<F>,
    pub bools: Vec<bool>,
    pub publics: Vec<F>,
    pub unsat: bool,
    n_num_in: usize,
    n_bool_in: usize,
}

impl<'c, F: Home> Drawer<'c, F> {
    pub fn new(ctx: &'c Ctx, n_nums: usize, n_bools: usize, consts: bool) -> Self {
        let mut d = Drawer { ctx, ins: vec![], ops: vec![], nums: vec![], bools: vec![], publics: vec![], unsat: false, n_num_in: n_nums, n_bool_in: n_bools };
        for i in 0..n_nums {
            // repeated values make equalities hold now and then
            let v = if i > 0 && ctx.chance(1, 4) { d.nums[ctx.below(i)] } else { value::<F>(ctx) };
            d.nums.push(v);
            d.ins.push(In::Num(v, consts && ctx.chance(1, 5)));
        }
        if consts && ctx.chance(1, 4) {
            // a small constant
            let v = small(ctx.draw(3));
            let v = if ctx.draw(2) == 0 { v } else { neg(&v) };
            d.nums.push(v);
            d.ins.push(In::Num(v, true));
            d.n_num_in += 1;
        }
        for _ in 0..n_bools {
            let b = ctx.draw(2) == 1;
            d.bools.push(b);
            d.ins.push(In::Bool(b, consts && ctx.chance(1, 6)));
        }
        if ctx.chance(1, 4) {
            let kind = kind_of(ctx);
            let (nn, nb) = arity(kind);
            let n: Vec<F> = (0..nn).map(|_| value::<F>(ctx)).collect();
            let b: Vec<bool> = (0..nb).map(|_| ctx.draw(2) == 1).collect();
            d.nums.extend(n.iter());
            d.bools.extend(b.iter());
            d.ins.push(In::Comp(kind, n, b, consts && ctx.chance(1, 6)));
        }
        d
    }

    fn n(&self) -> usize {
        // recent signals more often
        let l = self.nums.len();
        if self.ctx.draw(2) == 0 {
            self.ctx.below(l)
        } else {
            l - 1 - self.ctx.below(l.min(3))
        }
    }
    fn b(&self) -> usize {
        let l = self.bools.len();
        if self.ctx.draw(2) == 0 {
            self.ctx.below(l)
        } else {
            l - 1 - self.ctx.below(l.min(3))
        }
    }

    fn calc(k: Arith, a: &F, b: &F) -> Option<F> {
        Some(match k {
            Arith::Add => add(a, b),
            Arith::Sub => sub(a, b),
            Arith::Mul => mul(a, b),
            Arith::Div => {
                if b.is_zero() {
                    return None;
                }
                div(a, b)
            }
        })
    }

    /// Draws one operation.  `sat`: only assertions that are true.
    pub fn step(&mut self, sat: bool, heavy: bool) {
        let ctx = self.ctx;
        let ar = [Arith::Add, Arith::Sub, Arith::Mul, Arith::Div];
        let which = ctx.draw(if heavy { 37 } else { 34 });
        match which {
            0..=4 => {
                let k = *ctx.pick(&ar);
                let (a, b, f) = (self.n(), self.n(), ctx.draw(6) as u8);
                if let Some(v) = Self::calc(k, &self.nums[a], &self.nums[b]) {
                    self.ops.push(Op::Bin(k, a, b, f));
                    self.nums.push(v);
                }
            }
            5 | 6 => {
                let k = *ctx.pick(&ar);
                let (a, b, f) = (self.n(), edge::<F>(ctx), ctx.draw(6) as u8);
                if let Some(v) = Self::calc(k, &self.nums[a], &b) {
                    self.ops.push(Op::BinK(k, a, b, f));
                    self.nums.push(v);
                }
            }
            7 | 8 => {
                let k = ar[ctx.below(3)];
                let (a, b, f) = (edge::<F>(ctx), self.n(), ctx.draw(4) as u8);
                let v = Self::calc(k, &a, &self.nums[b]).unwrap();
                self.ops.push(Op::KBin(k, a, b, f));
                self.nums.push(v);
            }
            9 => {
                let (a, f) = (self.n(), ctx.draw(2) as u8);
                self.nums.push(neg(&self.nums[a]));
                self.ops.push(Op::Neg(a, f));
            }
            10 => {
                let a = self.n();
                self.nums.push(sq(&self.nums[a]));
                self.ops.push(Op::Square(a));
            }
            11 | 12 => {
                let a = self.n();
                self.bools.push(self.nums[a].is_zero());
                self.ops.push(Op::IsZero(a));
            }
            13 => {
                let (a, b) = (self.n(), self.n());
                self.bools.push(self.nums[a] == self.nums[b]);
                self.ops.push(Op::IsEq(a, b));
            }
            14 => {
                let (a, b) = (self.b(), self.b());
                self.bools.push(self.bools[a] == self.bools[b]);
                self.ops.push(Op::IsEqB(a, b));
            }
            15 | 16 => {
                let (s, a, b, f) = (self.b(), self.n(), self.n(), ctx.draw(2) as u8);
                self.nums.push(if self.bools[s] { self.nums[a] } else { self.nums[b] });
                self.ops.push(Op::Switch(s, a, b, f));
            }
            17 => {
                let (s, a, b) = (self.b(), self.b(), self.b());
                self.bools.push(if self.bools[s] { self.bools[a] } else { self.bools[b] });
                self.ops.push(Op::SwitchB(s, a, b));
            }
            18 => {
                let a = self.b();
                self.nums.push(b2f(self.bools[a]));
                self.ops.push(Op::IntoNum(a));
            }
            19 => {
                let a = self.n();
                let v = self.nums[a];
                if v.is_zero() || v == F::one() {
                    self.bools.push(v == F::one());
                    self.ops.push(Op::IntoBool(a));
                }
            }
            20..=22 => self.assertion(sat),
            23 | 24 => self.bits(sat),
            25 => {
                let most = if ctx.chance(1, 6) { F::NUM_BITS as usize - 1 } else { 12 };
                let n = 1 + ctx.below(self.bools.len().min(most));
                let v: Vec<usize> = (0..n).map(|_| self.b()).collect();
                let mut x = BigUint::zero();
                for (i, b) in v.iter().enumerate() {
                    if self.bools[*b] {
                        x += BigUint::one() << i;
                    }
                }
                self.nums.push(from_big(&x));
                self.ops.push(Op::FromBits(v));
            }
            26 => {
                let most = if ctx.chance(1, 8) { F::NUM_BITS as usize - 1 } else if heavy { 20 } else { 9 };
                let n = 1 + ctx.below(self.bools.len().min(most));
                let v: Vec<usize> = (0..n).map(|_| self.b()).collect();
                let mut x = BigUint::zero();
                for (i, b) in v.iter().enumerate() {
                    if self.bools[*b] {
                        x += BigUint::one() << i;
                    }
                }
                let k = match ctx.draw(4) {
                    0 => x.clone(),
                    1 if !x.is_zero() => &x - BigUint::one(),
                    2 if n > 20 => &x ^ (BigUint::one() << ctx.below(n)),
                    3 if n > 20 => (BigUint::from(ctx.draw(1 << 20)) << (n - 20)) | (&x & ((BigUint::one() << (n - 20)) - BigUint::one())),
                    _ => BigUint::from(ctx.draw(1 << n.min(20))),
                };
                self.bools.push(x > k);
                self.ops.push(Op::Comp(v, from_big(&k)));
            }
            27 => {
                let s = [self.b(), self.b(), self.b()];
                let cols = 1 + ctx.below(2);
                let t: Vec<Vec<F>> = (0..cols).map(|_| (0..8).map(|_| value::<F>(ctx)).collect()).collect();
                let i = s.iter().enumerate().map(|(j, b)| if self.bools[*b] { 1 << j } else { 0 }).sum::<usize>();
                for c in &t {
                    self.nums.push(c[i]);
                }
                self.ops.push(Op::Mux3(s, t));
            }
            28 => {
                if ctx.draw(3) < 2 {
                    let a = self.n();
                    self.publics.push(self.nums[a]);
                    self.ops.push(Op::Inputize(a));
                } else {
                    let a = self.b();
                    self.publics.push(b2f(self.bools[a]));
                    self.ops.push(Op::InputizeB(a));
                }
            }
            29..=32 => self.composite(sat),
            33 => self.wide(),
            34 => {
                let k = [3, 4][ctx.below(2)];
                let h = &F::hashes().model[k];
                let t = if k == 4 { 2 } else { 3 };
                let n = 1 + ctx.below(t);
                let ins: Vec<usize> = (0..n).map(|_| self.n()).collect();
                let v: Vec<F> = ins.iter().map(|i| self.nums[*i]).collect();
                self.nums.push(h.hash(&v));
                self.ops.push(Op::Poseidon(k, ins));
            }
            35 => {
                let leaf = self.n();
                let sib: Vec<usize> = (0..2).map(|_| self.n()).collect();
                let path: Vec<usize> = (0..2).map(|_| self.b()).collect();
                let s: Vec<F> = sib.iter().map(|i| self.nums[*i]).collect();
                let b: Vec<bool> = path.iter().map(|i| self.bools[*i]).collect();
                self.nums.push(F::hashes().model[3].merkle_proof_root(&self.nums[leaf], &s, &b));
                self.ops.push(Op::Merkle(leaf, sib, path));
            }
            _ => {
                let n = 1 + ctx.below(if ctx.chance(1, 10) { 20 } else { 5 });
                let ins: Vec<usize> = (0..n).map(|_| self.n()).collect();
                let v: Vec<F> = ins.iter().map(|i| self.nums[*i]).collect();
                self.nums.push(F::hashes().model[3].merkle_root(&v));
                self.ops.push(Op::TreeRoot(ins));
            }
        }
    }

    /// A linear combination of many of the signals so far.
    pub fn wide(&mut self) {
        let ctx = self.ctx;
        let n = if self.nums.len() > 12 { self.nums.len() } else { 2 + ctx.below(8) };
        let mut terms: Vec<(usize, F)> = (0..n)
            .map(|i| (if n > 12 && ctx.draw(8) != 0 { i } else { self.n() }, if ctx.draw(4) == 0 { edge::<F>(ctx) } else { small(1 + ctx.draw(9)) }))
            .collect();
        let sum = |t: &[(usize, F)]| t.iter().fold(F::zero(), |a, (i, k)| add(&a, &mul(&self.nums[*i], k)));
        let (last, _) = terms[n - 1];
        if ctx.draw(3) == 0 && !self.nums[last].is_zero() {
            // the sum is a small number
            let to = small(ctx.draw(3));
            terms[n - 1].1 = div(&sub(&to, &sum(&terms[..n - 1])), &self.nums[last]);
        }
        let v = sum(&terms);
        self.nums.push(v);
        self.ops.push(Op::Wide(terms));
    }

    /// A gadget between the latest signal and another one.
    pub fn mix_last(&mut self, sat: bool) {
        let ctx = self.ctx;
        let (w, o) = (self.nums.len() - 1, ctx.below(self.nums.len()));
        let (a, b) = if ctx.draw(2) == 0 { (w, o) } else { (o, w) };
        let s = self.b();
        match ctx.draw(12) {
            0..=3 => {
                let k = *ctx.pick(&[Arith::Add, Arith::Sub, Arith::Mul, Arith::Div]);
                if let Some(v) = Self::calc(k, &self.nums[a], &self.nums[b]) {
                    self.ops.push(Op::Bin(k, a, b, ctx.draw(6) as u8));
                    self.nums.push(v);
                }
            }
            4 => {
                self.bools.push(self.nums[a] == self.nums[b]);
                self.ops.push(Op::IsEq(a, b));
            }
            5 | 6 => {
                self.nums.push(if self.bools[s] { self.nums[a] } else { self.nums[b] });
                self.ops.push(Op::Switch(s, a, b, ctx.draw(2) as u8));
            }
            7 | 8 => {
                self.bools.push(self.nums[w].is_zero());
                self.ops.push(Op::IsZero(w));
            }
            _ => {
                let v = self.nums[w];
                match ctx.draw(5) {
                    0 => self.push_assert(Op::AssertZero(w), v.is_zero(), sat),
                    1 => self.push_assert(Op::AssertNonzero(w), !v.is_zero(), sat),
                    2 => self.push_assert(Op::AssertBit(w), v.is_zero() || v == F::one(), sat),
                    3 => {
                        let k = small(ctx.draw(3));
                        self.push_assert(Op::AssertConst(w, k), v == k, sat)
                    }
                    _ => self.push_assert(Op::AssertEq(a, b), self.nums[a] == self.nums[b], sat),
                }
            }
        }
    }

    /// All booleans so far read as one integer, and compared with a constant.
    pub fn long_bits(&mut self) {
        let ctx = self.ctx;
        let n = self.bools.len().min(F::NUM_BITS as usize - 1);
        let v: Vec<usize> = (0..n).collect();
        let x = v.iter().fold(BigUint::zero(), |a, i| if self.bools[*i] { a + (BigUint::one() << *i) } else { a });
        if ctx.draw(3) == 0 {
            self.nums.push(from_big(&x));
            self.ops.push(Op::FromBits(v));
            return;
        }
        let k = match ctx.draw(5) {
            0 | 1 => x.clone(),
            2 if !x.is_zero() => &x - BigUint::one(),
            3 => (BigUint::one() << n) - BigUint::one(),
            _ => &x ^ (BigUint::one() << ctx.below(n)),
        };
        self.bools.push(x > k);
        self.ops.push(Op::Comp(v, from_big(&k)));
    }

    fn push_assert(&mut self, op: Op<F>, holds: bool, sat: bool) {
        if holds || !sat {
            self.ops.push(op);
            if !holds {
                self.unsat = true;
            }
        }
    }

    fn assertion(&mut self, sat: bool) {
        let ctx = self.ctx;
        let a = self.n();
        let v = self.nums[a];
        match ctx.draw(10) {
            8 | 9 => {
                let zeros: Vec<usize> = (0..self.nums.len()).filter(|i| self.nums[*i].is_zero()).collect();
                let pick = |d: &Self| if zeros.is_empty() || ctx.draw(3) > 0 { d.n() } else { *ctx.pick(&zeros) };
                let (a, b) = (pick(self), pick(self));
                let v = mul(&self.nums[a], &self.nums[b]);
                let fit: Vec<usize> = (0..self.nums.len()).filter(|i| self.nums[*i] == v).collect();
                let c = if !fit.is_empty() && (sat || ctx.draw(2) == 0) {
                    *ctx.pick(&fit)
                } else if sat || ctx.draw(2) == 0 {
                    self.nums.push(v);
                    self.ops.push(Op::Bin(Arith::Mul, a, b, 0));
                    self.nums.len() - 1
                } else {
                    pick(self)
                };
                let holds = self.nums[c] == v;
                self.push_assert(Op::Enforce(a, b, c), holds, sat)
            }
            0 => self.push_assert(Op::AssertZero(a), v.is_zero(), sat),
            1 => self.push_assert(Op::AssertNonzero(a), !v.is_zero(), sat),
            2 => self.push_assert(Op::AssertBit(a), v.is_zero() || v == F::one(), sat),
            3 => {
                let k = if ctx.draw(3) == 0 { edge::<F>(ctx) } else { v };
                self.push_assert(Op::AssertConst(a, k), v == k, sat)
            }
            4 => {
                let b = self.n();
                self.push_assert(Op::AssertEq(a, b), v == self.nums[b], sat)
            }
            5 | 6 => {
                let b = self.b();
                let k = ctx.draw(5) as u8;
                let holds = match k {
                    0 | 2 => self.bools[b],
                    1 | 3 => !self.bools[b],
                    _ => true,
                };
                self.push_assert(Op::AssertB(b, k), holds, sat)
            }
            _ => {
                let (b, c) = (self.b(), self.b());
                self.push_assert(Op::AssertEqB(b, c), self.bools[b] == self.bools[c], sat)
            }
        }
    }

    fn bits(&mut self, sat: bool) {
        let ctx = self.ctx;
        let a = self.n();
        let v = to_big(&self.nums[a]);
        let full = F::NUM_BITS as usize;
        if ctx.draw(4) == 0 {
            self.ops.push(Op::BitsStrict(a));
            self.bools.extend(big_bits(&v, full));
            return;
        }
        let n = match ctx.draw(4) {
            0 => 1 + ctx.below(8),
            1 => (v.bits()).max(1),
            2 => (v.bits() + ctx.below(3)).max(2) - 1,
            _ => 1 + ctx.below(full),
        };
        // at full width a number has two decompositions: only the strict form
        // promises one
        let n = n.min(full - 1);
        let holds = v.bits() <= n;
        if holds || !sat {
            self.ops.push(Op::Bits(a, n));
            if holds {
                self.bools.extend(big_bits(&v, n));
            } else {
                self.unsat = true;
            }
        }
    }

    fn composite(&mut self, sat: bool) {
        let ctx = self.ctx;
        let kind = kind_of(ctx);
        let (nn, nb) = arity(kind);
        let mut ni: Vec<usize> = (0..2 * nn).map(|_| self.n()).collect();
        let mut bi: Vec<usize> = (0..2 * nb).map(|_| self.b()).collect();
        if ctx.draw(2) == 0 {
            // mostly equal operands, perhaps one part different
            for i in 0..nn {
                ni[nn + i] = ni[i];
            }
            for i in 0..nb {
                bi[nb + i] = bi[i];
            }
            if ctx.draw(2) == 0 {
                let i = ctx.below(nn + nb);
                if i < nn {
                    ni[nn + i] = self.n();
                } else {
                    bi[nb + i - nn] = self.b();
                }
            }
        }
        let n1: Vec<F> = ni[..nn].iter().map(|i| self.nums[*i]).collect();
        let n2: Vec<F> = ni[nn..].iter().map(|i| self.nums[*i]).collect();
        let b1: Vec<bool> = bi[..nb].iter().map(|i| self.bools[*i]).collect();
        let b2: Vec<bool> = bi[nb..].iter().map(|i| self.bools[*i]).collect();
        let eq = n1 == n2 && b1 == b2;
        match ctx.draw(7) {
            0 => {
                let s = self.b();
                let (n, b) = if self.bools[s] { (n1, b1) } else { (n2, b2) };
                self.nums.extend(n);
                self.bools.extend(b);
                self.ops.push(Op::Comp2(kind, CompOp::Switch(s), ni, bi));
            }
            1 => {
                self.bools.push(eq);
                self.ops.push(Op::Comp2(kind, CompOp::IsEq, ni, bi));
            }
            2 => self.push_assert(Op::Comp2(kind, CompOp::AssertEq, ni, bi), eq, sat),
            3 => {
                let (mut n, mut b) = (n1.clone(), b1.clone());
                if !sat && ctx.draw(2) == 0 {
                    let i = ctx.below(nn + nb);
                    if i < nn {
                        n[i] = edge::<F>(ctx);
                    } else {
                        b[i - nn] = !b[i - nn];
                    }
                }
                let holds = n == n1 && b == b1;
                self.push_assert(Op::Comp2(kind, CompOp::AssertConst(n, b), ni, bi), holds, sat)
            }
            4 => {
                for (is_b, i) in layout(kind) {
                    self.publics.push(if is_b { b2f(b1[i]) } else { n1[i] });
                }
                self.ops.push(Op::Comp2(kind, CompOp::Inputize, ni, bi));
            }
            5 => {
                let n: Vec<F> = (0..nn).map(|_| edge::<F>(ctx)).collect();
                let b: Vec<bool> = (0..nb).map(|_| ctx.draw(2) == 1).collect();
                self.nums.extend(n.iter());
                self.bools.extend(b.iter());
                self.ops.push(Op::Comp2(kind, CompOp::Const(n, b), ni, bi));
            }
            _ => {
                self.nums.extend(n1);
                self.bools.extend(b1);
                self.ops.push(Op::Comp2(kind, CompOp::Linearize, ni, bi));
            }
        }
    }

    pub fn finish(self) -> Prog<F> {
        Prog {
            ins: self.ins,
            ops: self.ops,
            nums: self.nums[self.n_num_in..].to_vec(),
            bools: self.bools[self.n_bool_in..].to_vec(),
            publics: self.publics,
            unsat: self.unsat,
            n_num_in: self.n_num_in,
            n_bool_in: self.n_bool_in,
        }
    }
}

pub fn op_name<F>(o: &Op<F>) -> String {
    match o {
        Op::Bin(k, _, _, f) => format!("{:?}/{}", k, f),
        Op::BinK(k, _, _, f) => format!("{:?}K/{}", k, f),
        Op::KBin(k, _, _, f) => format!("K{:?}/{}", k, f),
        Op::Neg(_, f) => format!("Neg/{}", f),
        Op::Square(_) => "Square".into(),
        Op::IsZero(_) => "IsZero".into(),
        Op::IsEq(..) => "IsEq".into(),
        Op::IsEqB(..) => "IsEqB".into(),
        Op::Switch(_, _, _, f) => format!("Switch/{}", f),
        Op::SwitchB(..) => "SwitchB".into(),
        Op::IntoNum(_) => "IntoNum".into(),
        Op::IntoBool(_) => "IntoBool".into(),
        Op::AssertZero(_) => "AssertZero".into(),
        Op::AssertNonzero(_) => "AssertNonzero".into(),
        Op::AssertBit(_) => "AssertBit".into(),
        Op::AssertConst(..) => "AssertConst".into(),
        Op::AssertEq(..) => "AssertEq".into(),
        Op::Enforce(..) => "Enforce".into(),
        Op::AssertB(_, k) => format!("AssertB/{}", k),
        Op::AssertEqB(..) => "AssertEqB".into(),
        Op::Bits(_, n) => format!("Bits/{}", n),
        Op::BitsStrict(_) => "BitsStrict".into(),
        Op::FromBits(v) => format!("FromBits/{}", v.len()),
        Op::Wide(v) => format!("Wide/{}", v.len()),
        Op::Comp(v, _) => format!("Comp/{}", v.len()),
        Op::Mux3(..) => "Mux3".into(),
        Op::Inputize(_) => "Inputize".into(),
        Op::InputizeB(_) => "InputizeB".into(),
        Op::Comp2(k, o, _, _) => format!(
            "Composite{}/{}",
            k,
            match o {
                CompOp::Switch(_) => "switch",
                CompOp::IsEq => "is_eq",
                CompOp::AssertEq => "assert_eq",
                CompOp::AssertConst(..) => "assert_const",
                CompOp::Inputize => "inputize",
                CompOp::Const(..) => "const",
                CompOp::Linearize => "linearize",
            }
        ),
        Op::Poseidon(k, v) => format!("Poseidon{}/{}", k, v.len()),
        Op::Merkle(..) => "Merkle".into(),
        Op::TreeRoot(v) => format!("TreeRoot/{}", v.len()),
    }
}
