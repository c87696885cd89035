//! Parties that combine points of the embedded curves: sums collected in the
//! order of arrival, verifiable shares of a secret, Byzantine contributors.
use crate::core::*;
use crate::gadget::JJ;
use crate::gen::*;
use crate::net::*;
use crate::refmodel::Pt;
use crate::runner::World;
use crate::worlds::c12::{scalar, sub_point};
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::ecc::{EdwardsPoint, EdwardsPointEx, JubJubParams, MontgomeryPoint};
use fawkes_crypto::native::num::Num;
use num::bigint::BigUint;
use num::Zero;
use std::collections::BTreeMap;

pub const WORLD: World = World {
    id: "C19",
    run,
    quick: 10_000,
    thorough: 800_000,
    rule: "a run lets contributors, honest and Byzantine, post points (full, Montgomery, compressed to x, compressed to y and a sign, hashed from a label) to two or three collectors over a lossy, duplicating, reordering network; each collector admits what lies on the curve (or in the subgroup) and adds, subtracts, doubles or multiplies it into its sum in its own representation, loses the sum in a crash and rebuilds it from its log in another order; a dealer's committed shares travel the same way and are checked and combined; every admission, sum and reading is compared with an independent model of the group; non-trivial: at least one fault and one comparison; distinct by hash of the delivery history",
    state_measure: "(curve, form of the message, class of the point, operation, way of computing it) tuples",
    real: &["native::ecc: EdwardsPoint, EdwardsPointEx and MontgomeryPoint on both curves, their JSON codec; native::num in scalars and coordinates"],
    stub: &["the network, clocks, crashes, the contributors and their logs"],
    assumptions: &["the reference is a separate affine implementation of the curve over pairing_ce's base field"],
};

#[derive(Clone, Debug)]
enum Post<F: JJ> {
    Full(Pt<F>),
    Mont(F, F),
    /// only x: the subgroup point that has it
    X(F),
    /// y and the parity of x
    Y(F, bool),
    Label(F),
    Random(u64),
}

#[derive(Clone, Debug)]
struct Contribution<F: JJ> {
    post: Post<F>,
    class: u8,
    /// 0 add, 1 subtract, 2 add twice, 3 add eight times, 4 add k times, 5 add k times the generator
    op: u8,
    k: BigUint,
}

fn any_pt<F: JJ>(ctx: &Ctx) -> (Pt<F>, u8) {
    let c = F::curve();
    match ctx.draw(8) {
        0 | 1 | 2 => (sub_point::<F>(ctx), 0),
        3 => (c.zero(), 1),
        4 => (*ctx.pick(F::torsion()), 2),
        5 => (c.add(&sub_point::<F>(ctx), ctx.pick(F::torsion())), 3),
        6 => (c.random_point(&mut ctx.prng()), 4),
        _ => {
            // off the curve
            let p = sub_point::<F>(ctx);
            let q = match ctx.draw(6) {
                0 => Pt { x: p.y, y: p.x },
                1 => Pt { x: p.x, y: add(&p.y, &F::one()) },
                2 => Pt { x: F::zero(), y: F::zero() },
                3 => Pt { x: value::<F>(ctx), y: p.y },
                4 => Pt { x: F::zero(), y: value::<F>(ctx) },
                _ => Pt { x: value::<F>(ctx), y: F::one() },
            };
            let class = if c.on_curve(&q) { 6 } else { 5 };
            (q, class)
        }
    }
}

fn draw_post<F: JJ>(ctx: &Ctx) -> (Post<F>, u8) {
    let c = F::curve();
    match ctx.draw(9) {
        0 | 1 | 2 => {
            let (p, k) = any_pt::<F>(ctx);
            (Post::Full(p), k)
        }
        3 => {
            // the Montgomery form, honest or moved off its curve
            let (p, k) = any_pt::<F>(ctx);
            if !c.on_curve(&p) {
                return (Post::Full(p), k);
            }
            match c.to_montgomery(&p) {
                None => (Post::Full(p), k),
                Some((u, v)) => {
                    if u.is_zero() || ctx.draw(3) > 0 {
                        (Post::Mont(u, v), k)
                    } else {
                        match ctx.draw(4) {
                            0 => (Post::Mont(u, F::zero()), 7),
                            1 => (Post::Mont(neg(&F::one()), v), 7),
                            2 => (Post::Mont(v, if u.is_zero() { F::one() } else { u }), 7),
                            _ => (Post::Mont(u, neg(&v)), 8),
                        }
                    }
                }
            }
        }
        4 | 5 => match ctx.draw(4) {
            0 => (Post::X(value(ctx)), 9),
            1 => (Post::X(any_pt::<F>(ctx).0.x), 10),
            _ => (Post::X(sub_point::<F>(ctx).x), 0),
        },
        6 => match ctx.draw(4) {
            0 => (Post::Y(value(ctx), ctx.draw(2) == 1), 9),
            _ => {
                let p = any_pt::<F>(ctx).0;
                (Post::Y(p.y, p.x.into_repr_odd()), 10)
            }
        },
        7 => {
            let t = value::<F>(ctx);
            (Post::Label(if add(&t, &F::one()).is_zero() { F::zero() } else { t }), 0)
        }
        _ => (Post::Random(ctx.u64()), 11),
    }
}

trait Odd {
    fn into_repr_odd(&self) -> bool;
}
impl<F: JJ> Odd for F {
    fn into_repr_odd(&self) -> bool {
        big_bits(&to_big(self), 1)[0]
    }
}

fn lib<F: JJ>(p: &Pt<F>) -> EdwardsPoint<F> {
    EdwardsPoint { x: Num(p.x), y: Num(p.y) }
}
fn model<F: JJ>(p: &EdwardsPoint<F>) -> Pt<F> {
    Pt { x: p.x.0, y: p.y.0 }
}

/// What the message means: `None` if no point can be made of it. For points
/// that only have to satisfy a condition (random), the library's is taken
/// after the condition was checked.
fn meaning<F: JJ>(p: &Post<F>) -> Option<Pt<F>> {
    let c = F::curve();
    match p {
        Post::Full(p) => Some(*p),
        Post::Mont(u, v) => {
            if !u.is_zero() && (v.is_zero() || add(u, &F::one()).is_zero()) {
                None
            } else {
                Some(c.from_montgomery(u, v))
            }
        }
        Post::X(x) => c.decompress(x),
        Post::Y(y, s) => {
            let y2 = sq(y);
            let x = div(&sub(&y2, &F::one()), &add(&mul(&c.d, &y2), &F::one())).sqrt()?;
            Some(Pt { x: if x.into_repr_odd() == *s { x } else { neg(&x) }, y: *y })
        }
        Post::Label(t) => Some(c.from_scalar(t)),
        Post::Random(_) => None,
    }
}

fn through_json<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> T {
    serde_json::from_str(&serde_json::to_string(x).unwrap()).unwrap()
}

fn read<F: JJ>(p: &Post<F>) -> Result<Option<EdwardsPoint<F>>, String> {
    let j = F::jj();
    guarded(|| match p {
        Post::Full(p) => Some(through_json(&lib(p))),
        Post::Mont(u, v) => Some(through_json(&MontgomeryPoint { x: Num(*u), y: Num(*v) }).into_affine()),
        Post::X(x) => EdwardsPoint::subgroup_decompress(Num(*x), j),
        Post::Y(y, s) => EdwardsPoint::get_for_y(Num(*y), *s, j),
        Post::Label(t) => Some(EdwardsPoint::from_scalar(Num(*t), j)),
        Post::Random(s) => Some(EdwardsPoint::rand(&mut Prng::new(*s), j)),
    })
}

/// Another spelling of the same projective point.
fn rescale<F: JJ>(p: &EdwardsPointEx<F>, l: F) -> EdwardsPointEx<F> {
    let l = Num(l);
    EdwardsPointEx { x: p.x * l, y: p.y * l, t: p.t * l, z: p.z * l }
}

fn term<F: JJ>(c: &Contribution<F>, p: &Pt<F>) -> Pt<F> {
    let m = F::curve();
    match c.op {
        0 => *p,
        1 => m.negp(p),
        2 => m.add(p, p),
        3 => m.mul(p, &BigUint::from(8u32)),
        4 => m.mul(p, &c.k),
        _ => m.mul(&m.g, &c.k),
    }
}

struct Collector<F: JJ> {
    log: Vec<usize>,
    sum: EdwardsPointEx<F>,
    commitments: BTreeMap<usize, Pt<F>>,
    shares: BTreeMap<usize, BigUint>,
    bad: usize,
    /// it has its sum
    live: bool,
    solved: bool,
}

#[derive(Clone)]
enum Msg {
    Post(usize),
    Ack(usize),
    Ask,
    Commitment(usize),
    Share(usize, bool),
}

fn run(ctx: &Ctx) -> Outcome {
    if ctx.draw(2) == 0 {
        go::<pairing::bn256::Fr>(ctx)
    } else {
        go::<pairing::bls12_381::Fr>(ctx)
    }
}

/// The condition of admission, asked of the library and of the model.
fn admit<F: JJ>(ctx: &Ctx, post: &Post<F>, strict: bool) -> Result<Option<Pt<F>>, Violation> {
    let (c, j) = (F::curve(), F::jj());
    ctx.op();
    ctx.checked();
    let got = read(post);
    let want = meaning(post);
    let p = match (&got, &want) {
        (Ok(Some(g)), Some(w)) => {
            ensure!(model(g) == *w, "point", "{:?} is read as ({}, {})", post, dec(&g.x.0), dec(&g.y.0));
            *w
        }
        (Ok(Some(g)), None) => match post {
            Post::Random(_) => {
                ensure!(c.on_curve(&model(g)), "point", "a random point is off the curve");
                model(g)
            }
            _ => violated!("point", "{:?} means no point and is read as ({}, {})", post, dec(&g.x.0), dec(&g.y.0)),
        },
        (Ok(None), None) | (Err(_), None) if !matches!(post, Post::Random(_)) => return Ok(None),
        (Ok(None), _) => violated!("point", "{:?} is refused", post),
        (Err(e), _) => violated!("point", "{:?} cannot be read: {}", post, e),
    };
    let l = nonzero::<F>(ctx);
    let e = lib(&p);
    let on = guarded(|| (e.is_in_curve(j), e.into_extended().is_in_curve(j), rescale(&e.into_extended(), l).is_in_curve(j)));
    let w = c.on_curve(&p);
    ensure!(on == Ok((w, w, w)), "admission", "({}, {}) is on the curve: {}, and judged {:?}", dec(&p.x), dec(&p.y), w, on);
    if !w {
        ctx.fault("byzantine:off-curve");
        return Ok(None);
    }
    // extended coordinates that do not belong together
    let mut x = rescale(&e.into_extended(), l);
    match ctx.draw(4) {
        0 => x.t += Num::one(),
        1 => x.z = Num::zero(),
        2 => x.t = -x.t,
        _ => x.z = x.z.double(),
    }
    let whole = !x.z.is_zero() && x.z * x.t == x.x * x.y && {
        let zi = inv(&x.z.0);
        c.on_curve(&Pt { x: mul(&x.x.0, &zi), y: mul(&x.y.0, &zi) })
    };
    ensure!(guarded(|| x.is_in_curve(j)) == Ok(whole), "admission", "extended ({}, {}, {}, {}) is judged {}", dec(&x.x.0), dec(&x.y.0), dec(&x.t.0), dec(&x.z.0), !whole);
    let w = c.in_subgroup(&p);
    let sub = guarded(|| rescale(&e.into_extended(), l).is_in_subgroup(j));
    ensure!(sub == Ok(w), "admission", "({}, {}) is in the subgroup: {}, and judged {:?}", dec(&p.x), dec(&p.y), w, sub);
    if !w {
        ctx.fault("byzantine:outside-subgroup");
        if strict {
            return Ok(None);
        }
    }
    Ok(Some(p))
}

/// Takes a contribution into a sum the way the tape says.
fn fold<F: JJ>(ctx: &Ctx, con: &Contribution<F>, p: &Pt<F>, sum: &EdwardsPointEx<F>) -> Result<EdwardsPointEx<F>, Violation> {
    let j = F::jj();
    let way = ctx.draw(5);
    let l = if ctx.draw(2) == 0 { F::one() } else { nonzero::<F>(ctx) };
    let k = Num(from_big(&con.k));
    let a = lib(p);
    let e = rescale(&a.into_extended(), l);
    ctx.op();
    ctx.state(mix(con.op as u64 | way << 8 | (con.class as u64) << 16 | (matches!(con.post, Post::Full(_)) as u64) << 24 | hash_str(F::NAME) << 32));
    let t = guarded(|| {
        let e = if way == 2 {
            // by way of the Montgomery form, where the point has one
            match e.into_montgomery() {
                None => EdwardsPointEx::zero(),
                Some(m) => m.into_extended(),
            }
        } else {
            e
        };
        let a = if way == 2 { e.into_affine() } else { a };
        match (con.op, way) {
            (0, 0) | (0, 1) => a.into_extended(),
            (0, _) => e,
            (1, _) => e.negate(),
            (2, 0) => a.double().into_extended(),
            (2, 1) => a.add(&a, j).into_extended(),
            (2, 2) => e.add(&e, j),
            (2, _) => e.double(),
            (3, 0) => a.mul_by_cofactor().into_extended(),
            (3, 1) => e.mul(Num::from(8u64), j),
            (3, 2) => a.double().double().double().into_extended(),
            (3, _) => e.mul_by_cofactor(),
            (4, 0) => a.mul(k, j).into_extended(),
            (4, _) => e.mul(k, j),
            (_, 0) => j.edwards_g().mul(k, j).into_extended(),
            (_, _) => rescale(&j.edwards_g().into_extended(), l).mul(k, j),
        }
    });
    let want = term(con, p);
    ctx.checked();
    let t = match t {
        Ok(t) => t,
        Err(e) => violated!("term", "{:?} panics ({}): {}", con, way, e),
    };
    same(&t, &want, || format!("the term of {:?} computed in way {}", con, way))?;
    let r = guarded(|| match ctx.draw(3) {
        0 => sum.add(&t, j),
        1 => t.add(sum, j),
        _ => sum.into_affine().add(&t.into_affine(), j).into_extended(),
    });
    match r {
        Ok(r) => {
            ensure!(guarded(|| r.is_in_curve(j)) == Ok(true), "sum", "a sum with {:?} is off the curve", con);
            Ok(r)
        }
        Err(e) => violated!("sum", "adding {:?} panics: {}", con, e),
    }
}

fn same<F: JJ>(x: &EdwardsPointEx<F>, want: &Pt<F>, what: impl Fn() -> String) -> Outcome {
    let a = guarded(|| x.into_affine());
    match &a {
        Ok(a) if model(a) == *want => Ok(()),
        Ok(a) => violated!("wrong-point", "{} is ({}, {}), not ({}, {})", what(), dec(&a.x.0), dec(&a.y.0), dec(&want.x), dec(&want.y)),
        Err(e) => violated!("wrong-point", "{} has no affine form: {}", what(), e),
    }
}

fn readings<F: JJ>(ctx: &Ctx, x: &EdwardsPointEx<F>, want: &Pt<F>) -> Outcome {
    let (c, j) = (F::curve(), F::jj());
    ctx.checked();
    same(x, want, || "a sum".into())?;
    let a = lib(want);
    ensure!(x.is_in_curve(j) && x.is_zero() == (*want == c.zero()) && a.is_zero() == (*want == c.zero()), "reading", "({}, {}) is judged another kind of point", dec(&want.x), dec(&want.y));
    let l = nonzero::<F>(ctx);
    let y = rescale(&a.into_extended(), l);
    ensure!(*x == y && y == *x, "reading", "two spellings of ({}, {}) differ", dec(&want.x), dec(&want.y));
    // another point is another point
    let q = match ctx.draw(4) {
        0 => c.negp(want),
        1 => c.add(want, &c.g),
        2 => c.add(want, ctx.pick(F::torsion())),
        _ => Pt { x: neg(&want.x), y: neg(&want.y) },
    };
    ensure!((*x == rescale(&lib(&q).into_extended(), l)) == (q == *want) && (a == lib(&q)) == (q == *want), "reading", "({}, {}) and ({}, {}) compare otherwise", dec(&want.x), dec(&want.y), dec(&q.x), dec(&q.y));
    let m = guarded(|| (x.into_montgomery(), a.into_montgomery()));
    let w = c.to_montgomery(want).map(|(u, v)| MontgomeryPoint { x: Num(u), y: Num(v) });
    ensure!(m == Ok((w, w)), "reading", "({}, {}) has the Montgomery form {:?}", dec(&want.x), dec(&want.y), m);
    if let Some(m) = w {
        ensure!(guarded(|| (m.into_affine(), m.into_extended() == *x)) == Ok((a, true)), "reading", "the Montgomery form of ({}, {}) leads elsewhere", dec(&want.x), dec(&want.y));
    }
    ensure!(guarded(|| through_json(&a)) == Ok(a), "reading", "({}, {}) changes in JSON", dec(&want.x), dec(&want.y));
    let z: EdwardsPointEx<F> = EdwardsPointEx::zero();
    ensure!(z.is_in_curve(j) && z.is_zero() && x.add(&z, j).into_affine() == a && z.add(x, j).into_affine() == a, "reading", "adding nothing to ({}, {}) changes it", dec(&want.x), dec(&want.y));
    ensure!(x.add(&x.negate(), j).is_zero() && EdwardsPoint::<F>::zero().add(&a, j) == a, "reading", "({}, {}) less itself is something", dec(&want.x), dec(&want.y));
    Ok(())
}

fn go<F: JJ>(ctx: &Ctx) -> Outcome {
    let (c, j) = (F::curve(), F::jj());
    let n = ctx.range(2, 3);
    let n_con = ctx.range(1, 5);
    let strict = ctx.draw(3) == 0;
    let mut cons: Vec<Contribution<F>> = vec![];
    for i in 0..n_con {
        // now and then the same point again, or its negation
        if i > 0 && ctx.chance(1, 5) {
            let mut d = cons[ctx.below(i)].clone();
            d.op = ctx.draw(6) as u8;
            cons.push(d);
            continue;
        }
        let (post, class) = draw_post::<F>(ctx);
        cons.push(Contribution { post, class, op: ctx.draw(6) as u8, k: scalar(ctx, &c.order) });
    }
    // the points they mean, judged once more by every collector as they arrive
    let mut pts: Vec<Option<Pt<F>>> = vec![];
    for con in &cons {
        pts.push(admit(ctx, &con.post, strict)?);
        ctx.event(format!("{:?} class {} op {} admitted {}", con.post, con.class, con.op, pts.last().unwrap().is_some()));
    }
    // the shared secret: commitments to the polynomial, shares, some of them false
    let need = ctx.range(1, 3);
    let total = need + ctx.below(2);
    let poly: Vec<BigUint> = (0..need).map(|_| scalar(ctx, &c.order)).collect();
    let share = |i: usize| -> BigUint {
        let x = BigUint::from(i as u64 + 1);
        poly.iter().rev().fold(BigUint::zero(), |acc, k| (acc * &x + k) % &c.order)
    };
    let commits: Vec<Pt<F>> = poly.iter().map(|k| c.mul(&c.g, k)).collect();
    let base = c.from_scalar(&small(7 + ctx.draw(5)));

    let calm = 200;
    let bound = 1500;
    let mut net: Net<Msg> = Net::new(ctx, n, calm);
    let mut cs: Vec<Collector<F>> = (0..n)
        .map(|_| Collector { log: vec![], sum: EdwardsPointEx::zero(), commitments: BTreeMap::new(), shares: BTreeMap::new(), bad: 0, live: true, solved: false })
        .collect();
    let mut acked = vec![vec![false; n]; n_con];
    for i in 0..n {
        net.timer(i, 1 + ctx.draw(20), 0);
    }
    loop {
        let ev = match net.next() {
            Some(e) => e,
            None => break,
        };
        if acked.iter().all(|a| a.iter().all(|x| *x)) && cs.iter().all(|r| r.solved) {
            break;
        }
        if net.now > calm + bound {
            violated!("no-progress", "collectors are behind {} ticks after the network calmed", bound);
        }
        let mut take: Option<(usize, usize)> = None;
        match ev {
            Ev::Crash { node } => {
                ctx.event(format!("{}: collector {} crashes", net.now, node));
                cs[node].sum = EdwardsPointEx::zero();
                cs[node].live = false;
                cs[node].shares.clear();
                cs[node].commitments.clear();
            }
            Ev::Restart { node } => {
                let mut log = cs[node].log.clone();
                for i in (1..log.len()).rev() {
                    log.swap(i, ctx.below(i + 1));
                }
                let mut sum = EdwardsPointEx::zero();
                for k in log {
                    if let Some(p) = &pts[k] {
                        sum = fold(ctx, &cons[k], p, &sum)?;
                    }
                }
                cs[node].sum = sum;
                cs[node].live = true;
                ctx.event(format!("{}: collector {} rebuilds its sum in another order", net.now, node));
                net.timer(node, 1, 0);
            }
            Ev::Calm => {}
            Ev::Timer { node, .. } => {
                for k in 0..n_con {
                    if k % n == node {
                        for to in 0..n {
                            if !acked[k][to] {
                                if to == node {
                                    take = Some((node, k));
                                    acked[k][node] = true;
                                    if let Some(p) = &pts[k] {
                                        let s = cs[node].sum;
                                        cs[node].sum = fold(ctx, &cons[k], p, &s)?;
                                    }
                                    cs[node].log.push(k);
                                    take = None;
                                } else {
                                    net.send(node, to, Msg::Post(k));
                                }
                            }
                        }
                    }
                }
                if !cs[node].solved {
                    net.send(node, 0, Msg::Ask);
                }
                net.timer(node, 30, 0);
            }
            Ev::Msg { from, to, m } => match m {
                Msg::Post(k) => {
                    if !cs[to].log.contains(&k) {
                        take = Some((to, k));
                    }
                    net.send(to, from, Msg::Ack(k));
                }
                Msg::Ack(k) => acked[k][from] = true,
                Msg::Ask => {
                    for i in 0..need {
                        net.send(to, from, Msg::Commitment(i));
                    }
                    for i in 0..total {
                        let lie = !net.calm && ctx.chance(1, 5);
                        net.send(to, from, Msg::Share(i, lie));
                    }
                }
                Msg::Commitment(i) => {
                    cs[to].commitments.insert(i, commits[i]);
                }
                Msg::Share(i, lie) => {
                    let r = &mut cs[to];
                    if r.solved || r.commitments.len() < need || r.shares.contains_key(&i) {
                        continue;
                    }
                    let s = if lie { (share(i) + BigUint::from(1 + ctx.draw(3))) % &c.order } else { share(i) };
                    let truth = s == share(i);
                    // s G = sum x^k C_k, by Horner's rule or term by term
                    let style = ctx.draw(3);
                    let x = Num::<<F::J as JubJubParams>::Fs>::from(i as u64 + 1);
                    let ok = guarded(|| {
                        let left = j.edwards_g().into_extended().mul(Num(from_big(&s)), j);
                        let cm: Vec<_> = r.commitments.values().map(|p| lib(p).into_extended()).collect();
                        let right = match style {
                            0 => cm.iter().rev().fold(EdwardsPointEx::zero(), |a, p| a.mul(x, j).add(p, j)),
                            1 => {
                                let mut w = Num::one();
                                let mut a = EdwardsPointEx::zero();
                                for p in &cm {
                                    a = a.add(&p.mul(w, j), j);
                                    w *= x;
                                }
                                a
                            }
                            _ => cm.iter().rev().fold(EdwardsPoint::zero(), |a, p| a.mul(x, j).add(&p.into_affine(), j)).into_extended(),
                        };
                        left == right && left.add(&right.negate(), j).is_zero()
                    });
                    ctx.op();
                    ctx.checked();
                    ensure!(ok == Ok(truth), "share", "a share that is {} is judged {:?}", truth, ok);
                    if !truth {
                        ctx.fault("byzantine:false-share");
                        r.bad += 1;
                        continue;
                    }
                    r.shares.insert(i, s);
                    if r.shares.len() >= need {
                        // the secret times a base that nobody knows the logarithm of
                        let xs: Vec<(Num<<F::J as JubJubParams>::Fs>, Num<<F::J as JubJubParams>::Fs>)> = r.shares.iter().map(|(i, s)| (Num::from(*i as u64 + 1), Num(from_big(s)))).take(need).collect();
                        let got = guarded(|| {
                            let h = lib(&base).into_extended();
                            let mut a = EdwardsPointEx::zero();
                            for (jx, (xj, s)) in xs.iter().enumerate() {
                                let mut w = Num::one();
                                for (k, (xk, _)) in xs.iter().enumerate() {
                                    if k != jx {
                                        w *= xk / (xk - xj);
                                    }
                                }
                                a = a.add(&h.mul(*s, j).mul(w, j), j);
                            }
                            a
                        });
                        ctx.checked();
                        match got {
                            Ok(a) => same(&a, &c.mul(&base, &poly[0]), || format!("what {} of {} shares give", need, total))?,
                            Err(e) => violated!("share", "combining shares panics: {}", e),
                        }
                        r.solved = true;
                    }
                }
            },
        }
        if let Some((to, k)) = take {
            let p = admit(ctx, &cons[k].post, strict)?;
            ensure!(p == pts[k], "disagreement", "collectors admit {:?} differently", cons[k].post);
            ctx.event(format!("{}: collector {} takes {}", net.now, to, k));
            cs[to].log.push(k);
            if let Some(p) = &p {
                let s = cs[to].sum;
                cs[to].sum = fold(ctx, &cons[k], p, &s)?;
            }
        }
    }
    let want = cons.iter().zip(&pts).fold(c.zero(), |a, (con, p)| match p {
        Some(p) => c.add(&a, &term(con, p)),
        None => a,
    });
    for r in &cs {
        if r.log.len() == n_con && r.live {
            readings(ctx, &r.sum, &want)?;
        }
    }
    ensure!(acked.iter().all(|a| a.iter().all(|x| *x)) && cs.iter().all(|r| r.solved), "no-progress", "the network went quiet with collectors behind");
    let (p, _) = any_pt::<F>(ctx);
    if c.on_curve(&p) {
        readings(ctx, &lib(&p).into_extended(), &p)?;
        // keys agreed on by two parties
        let (x, y) = (scalar(ctx, &c.order), scalar(ctx, &c.order));
        let (a, b) = (Num(from_big::<<F::J as JubJubParams>::Fs>(&x)), Num(from_big::<<F::J as JubJubParams>::Fs>(&y)));
        let q = lib(&p);
        let both = guarded(|| (q.mul(a, j).mul(b, j), through_json(&q.mul(b, j)).into_extended().mul(a, j).into_affine()));
        let w = lib(&c.mul(&c.mul(&p, &x), &y));
        ctx.checked();
        ensure!(both == Ok((w, w)), "agreement", "two parties derive {:?} from one point", both);
    }
    Ok(())
}
