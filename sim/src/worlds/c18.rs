//! Replicas that compute with numbers: a ledger and shared secrets.
use crate::core::*;
use crate::gen::*;
use crate::net::*;
use crate::runner::World;
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::num::Num;
use num::bigint::{BigInt, BigUint, Sign};
use num::{One, ToPrimitive, Zero};
use std::collections::BTreeMap;

pub const WORLD: World = World {
    id: "C18",
    run,
    quick: 40_000,
    thorough: 6_000_000,
    rule: "a run lets two to four replicas of a ledger apply transactions whose amounts are expressions over numbers written in every supported form, in the order in which a lossy, duplicating, reordering network delivers them, with crashes after which a replica replays its log in another order; a dealer's shares of a secret travel the same way; balances, conservation, readings and recovered secrets are compared with integers modulo the prime; non-trivial: at least one message fault or crash and one comparison; distinct by hash of the delivery history",
    state_measure: "(field, operator, operator form, written forms, class of the result) tuples",
    real: &["native::num::Num: conversions, operators, codecs, sums and quotients in six fields"],
    stub: &["the network, clocks, crashes, the replicas' logs"],
    assumptions: &["the reference is num-bigint", "messages in JSON above the modulus are C04's"],
};

/// A number as it is written in a message.
#[derive(Clone, Debug)]
enum Form {
    Json(BigUint),
    Borsh(BigUint),
    Str(BigUint),
    U64(u64),
    I64(i64),
    U32(u32),
    I32(i32),
    Bool(bool),
    Big(BigUint),
    Int(BigInt),
    BytesBe(Vec<u8>),
    BitsLe(BigUint),
    BitsBe(BigUint),
    /// an element of another field (which, value)
    Other(u8, BigUint, bool),
    Minus1,
    OneZero(bool),
}

fn reduce<F: Field>(x: &BigInt) -> BigUint {
    let m = BigInt::from_biguint(Sign::Plus, modulus::<F>());
    let r = ((x % &m) + &m) % &m;
    r.to_biguint().unwrap()
}
fn plus(x: &BigUint) -> BigInt {
    BigInt::from_biguint(Sign::Plus, x.clone())
}

fn meaning<F: Field>(f: &Form) -> BigUint {
    let i = match f {
        Form::Json(x) | Form::Borsh(x) | Form::Str(x) | Form::Big(x) | Form::BitsLe(x) | Form::BitsBe(x) | Form::Other(_, x, _) => plus(x),
        Form::U64(x) => BigInt::from(*x),
        Form::I64(x) => BigInt::from(*x),
        Form::U32(x) => BigInt::from(*x),
        Form::I32(x) => BigInt::from(*x),
        Form::Bool(x) | Form::OneZero(x) => BigInt::from(*x as u8),
        Form::Int(x) => x.clone(),
        Form::BytesBe(b) => plus(&BigUint::from_bytes_be(b)),
        Form::Minus1 => BigInt::from(-1),
    };
    reduce::<F>(&i)
}

fn big<F: Field>(ctx: &Ctx) -> BigUint {
    to_big(&value::<F>(ctx))
}

fn draw_form<F: Field>(ctx: &Ctx) -> Form {
    let wide = |ctx: &Ctx| -> BigUint {
        let x = big::<F>(ctx);
        match ctx.draw(4) {
            0 => x,
            1 => x + modulus::<F>(),
            2 => x * modulus::<F>() + BigUint::from(ctx.draw(3)),
            _ => modulus::<F>() * BigUint::from(ctx.draw(5)),
        }
    };
    match ctx.draw(17) {
        0 => Form::U64(ctx.draw(100)),
        1 => Form::U64(match ctx.draw(3) {
            0 => u64::MAX - ctx.draw(3),
            1 => 1 << ctx.draw(64),
            _ => ctx.u64(),
        }),
        2 => Form::I64(match ctx.draw(4) {
            0 => i64::MIN + ctx.draw(3) as i64,
            1 => i64::MAX - ctx.draw(3) as i64,
            2 => -(ctx.draw(5) as i64),
            _ => ctx.u64() as i64,
        }),
        3 => Form::U32(if ctx.draw(2) == 0 { u32::MAX - ctx.draw(3) as u32 } else { ctx.u64() as u32 }),
        4 => Form::I32(match ctx.draw(4) {
            0 => i32::MIN + ctx.draw(3) as i32,
            1 => i32::MAX - ctx.draw(3) as i32,
            2 => -(ctx.draw(5) as i32),
            _ => ctx.u64() as i32,
        }),
        5 => Form::Bool(ctx.draw(2) == 1),
        6 => Form::Json(big::<F>(ctx)),
        7 => Form::Borsh(big::<F>(ctx)),
        8 => Form::Str(if ctx.draw(2) == 0 { big::<F>(ctx) } else { wide(ctx) }),
        9 => Form::Big(wide(ctx)),
        10 | 11 => Form::Int(if ctx.draw(3) == 0 { plus(&wide(ctx)) } else { -plus(&wide(ctx)) }),
        12 => {
            let n = ctx.below(80);
            let mut g = ctx.prng();
            Form::BytesBe((0..n).map(|_| g.next() as u8).collect())
        }
        13 => Form::BitsLe(big::<F>(ctx)),
        14 => Form::BitsBe(big::<F>(ctx)),
        15 => match ctx.draw(4) {
            0 => Form::Other(0, big::<pairing::bn256::Fr>(ctx), ctx.draw(2) == 0),
            1 => Form::Other(1, big::<pairing::bls12_381::Fr>(ctx), ctx.draw(2) == 0),
            2 => Form::Other(2, big::<fawkes_crypto::native::bn256::Fs>(ctx), ctx.draw(2) == 0),
            _ => Form::Other(3, big::<pairing::bls12_381::Fq>(ctx), ctx.draw(2) == 0),
        },
        _ => match ctx.draw(3) {
            0 => Form::Minus1,
            k => Form::OneZero(k == 1),
        },
    }
}

fn other<G: Field, F: Field>(x: &BigUint, into: bool) -> Num<F> {
    let g = Num::<G>(from_big(x));
    if into {
        g.into_other()
    } else {
        Num::from_other(g)
    }
}

/// What the library makes of it.
fn read<F: Field>(f: &Form) -> Result<Num<F>, String> {
    guarded(|| match f {
        Form::Json(x) => serde_json::from_str(&format!("\"{}\"", x)).unwrap(),
        Form::Borsh(x) => BorshDeserialize::deserialize(&mut &le_bytes(&from_big::<F>(x))[..]).unwrap(),
        Form::Str(x) => Num::from(&x.to_string()[..]),
        Form::U64(x) => Num::from(*x),
        Form::I64(x) => Num::from(*x),
        Form::U32(x) => Num::from(*x),
        Form::I32(x) => Num::from(*x),
        Form::Bool(x) => Num::from(*x),
        Form::Big(x) => Num::from(x.clone()),
        Form::Int(x) => Num::from(x.clone()),
        Form::BytesBe(b) => Num::from_binary_be(b),
        Form::BitsLe(x) => {
            let src = Num::<F>(from_big(x));
            let mut acc = Num::<F>::zero();
            let mut w = Num::<F>::one();
            for b in src.iterbit_le() {
                if b {
                    acc += w;
                }
                w = w.double();
            }
            acc
        }
        Form::BitsBe(x) => {
            let src = Num::<F>(from_big(x));
            src.iterbit_be().fold(Num::zero(), |a, b| a.double() + Num::from(b))
        }
        Form::Other(0, x, i) => other::<pairing::bn256::Fr, F>(x, *i),
        Form::Other(1, x, i) => other::<pairing::bls12_381::Fr, F>(x, *i),
        Form::Other(2, x, i) => other::<fawkes_crypto::native::bn256::Fs, F>(x, *i),
        Form::Other(_, x, i) => other::<pairing::bls12_381::Fq, F>(x, *i),
        Form::Minus1 => Num::minusone(),
        Form::OneZero(true) => Num::one(),
        Form::OneZero(false) => Num::zero(),
    })
}

fn form_class(f: &Form) -> u8 {
    match f {
        Form::Json(_) => 0,
        Form::Borsh(_) => 1,
        Form::Str(_) => 2,
        Form::U64(_) => 3,
        Form::I64(_) => 4,
        Form::U32(_) => 5,
        Form::I32(_) => 6,
        Form::Bool(_) => 7,
        Form::Big(_) => 8,
        Form::Int(_) => 9,
        Form::BytesBe(_) => 10,
        Form::BitsLe(_) => 11,
        Form::BitsBe(_) => 12,
        Form::Other(k, _, i) => 13 + k * 2 + *i as u8,
        Form::Minus1 => 21,
        Form::OneZero(_) => 22,
    }
}

#[derive(Clone, Debug)]
struct Tx {
    from: usize,
    to: usize,
    op: u8,
    /// which of the operator's forms the reader uses first
    style: u8,
    a: Form,
    b: Form,
}

/// The amount by integers; `None`: there is none.
fn amount<F: Field>(t: &Tx) -> Option<BigUint> {
    let p = modulus::<F>();
    let (a, b) = (meaning::<F>(&t.a), meaning::<F>(&t.b));
    let inverse = |x: &BigUint| if x.is_zero() { None } else { Some(x.modpow(&(&p - BigUint::from(2u32)), &p)) };
    Some(match t.op {
        0 => (a + b) % &p,
        1 => (a + &p - b) % &p,
        2 => (a * b) % &p,
        3 => (a * inverse(&b)?) % &p,
        4 => (&p - a) % &p,
        5 => inverse(&a)?,
        6 => (&a * &a) % &p,
        7 => (&a + &a) % &p,
        _ => {
            // the even root, where there is one
            let e = (&p - BigUint::one()) >> 1usize;
            if !a.is_zero() && !a.modpow(&e, &p).is_one() {
                return None;
            }
            a
        }
    })
}

macro_rules! forms {
    ($a:expr, $b:expr, $s:expr, $op:tt, $asg:tt) => {
        match $s % 6 {
            0 => $a $op $b,
            1 => $a $op &$b,
            2 => &$a $op $b,
            3 => &$a $op &$b,
            4 => { let mut t = $a; t $asg &$b; t }
            _ => { let mut t = $a; t $asg $b; t }
        }
    };
}

fn compute<F: Field>(t: &Tx, style: u8) -> Result<Result<Option<Num<F>>, String>, String> {
    let (a, b) = (read::<F>(&t.a)?, read::<F>(&t.b)?);
    let (ma, mb) = (meaning::<F>(&t.a), meaning::<F>(&t.b));
    if to_big(&a.0) != ma || to_big(&b.0) != mb || (a == b) != (ma == mb) || (a != b) != (ma != mb) {
        return Ok(Err(format!("read as {} and {}, equal: {}", dec(&a.0), dec(&b.0), a == b)));
    }
    guarded(|| {
        Some(match t.op {
            0 => forms!(a, b, style, +, +=),
            1 => forms!(a, b, style, -, -=),
            2 => forms!(a, b, style, *, *=),
            3 => forms!(a, b, style, /, /=),
            4 => {
                if style % 2 == 0 {
                    -a
                } else {
                    -&a
                }
            }
            5 => a.inverse(),
            6 => a.square(),
            7 => a.double(),
            // the square of the root, so that either root will do
            _ => {
                let r = a.sqrt()?;
                r * r
            }
        })
    })
    .map(Ok)
}

struct Replica<F: Field> {
    log: Vec<usize>,
    held: BTreeMap<usize, ()>,
    bal: Vec<Num<F>>,
    shares: BTreeMap<usize, F>,
    solved: bool,
}

#[derive(Clone)]
enum Msg<F> {
    Tx(usize),
    Ack(usize),
    Share(usize, F),
    Ask,
}

fn run(ctx: &Ctx) -> Outcome {
    match ctx.draw(6) {
        0 => go::<pairing::bn256::Fr>(ctx, 0),
        1 => go::<pairing::bls12_381::Fr>(ctx, 1),
        2 => go::<fawkes_crypto::native::bn256::Fs>(ctx, 2),
        3 => go::<fawkes_crypto::native::bls12_381::Fs>(ctx, 3),
        4 => go::<pairing::bn256::Fq>(ctx, 4),
        _ => go::<pairing::bls12_381::Fq>(ctx, 5),
    }
}

/// Applies a transaction as this replica does it.
fn apply<F: Field>(ctx: &Ctx, t: &Tx, style: u8, bal: &mut [Num<F>]) -> Outcome {
    let want = amount::<F>(t);
    ctx.op();
    ctx.checked();
    let got = match compute::<F>(t, style) {
        Ok(Ok(g)) => g,
        Ok(Err(e)) => violated!("misread", "{:?}: {}", t, e),
        Err(e) => {
            ensure!(want.is_none(), "refused", "{:?} was refused: {}", t, e);
            None
        }
    };
    match (&got, &want) {
        (Some(g), Some(w)) => {
            ensure!(to_big(&g.0) == *w, "wrong-amount", "{:?} in form {} is {}, not {}", t, style, dec(&g.0), w);
            match style / 6 % 3 {
                0 => {
                    bal[t.from] -= g;
                    bal[t.to] += g;
                }
                1 => {
                    bal[t.from] = bal[t.from] - *g;
                    bal[t.to] = g + &bal[t.to];
                }
                _ => {
                    bal[t.from] += -*g;
                    bal[t.to] = bal[t.to] + g;
                }
            }
        }
        (None, None) => ctx.probe("refused_transaction"),
        (Some(g), None) => violated!("impossible", "{:?} has no value and gives {}", t, dec(&g.0)),
        (None, Some(w)) => violated!("refused", "{:?} gives nothing, not {}", t, w),
    }
    ctx.state(mix(t.op as u64 | (style as u64 % 6) << 8 | (form_class(&t.a) as u64) << 16 | (form_class(&t.b) as u64) << 24));
    Ok(())
}

/// Every way to look at a balance.
fn readings<F: Field>(ctx: &Ctx, x: Num<F>, want: &BigUint) -> Outcome {
    ctx.checked();
    ensure!(to_big(&x.0) == *want, "balance", "a balance is {}, not {}", dec(&x.0), want);
    ensure!(x.to_string() == want.to_string(), "reading", "{} is written {}", want, x.to_string());
    ensure!(Into::<BigUint>::into(x) == *want, "reading", "{} becomes another integer", want);
    let n = (F::NUM_BITS as usize + 7) / 8;
    let mut be = want.to_bytes_be();
    if want.is_zero() {
        be.clear();
    }
    let mut full = vec![0; n - be.len()];
    full.extend(be);
    ensure!(guarded(|| x.into_binary_be()) == Ok(full), "reading", "{} has other bytes", want);
    let mut b = vec![];
    ensure!(x.serialize(&mut b).is_ok() && b == le_bytes(&x.0), "reading", "{} is encoded otherwise", want);
    ensure!(x.is_zero() == want.is_zero() && x.is_odd() != x.is_even() && x.is_odd() == big_bits(want, 1)[0], "reading", "{} has another parity", want);
    let m = F::zero().into_repr().as_ref().len() * 64;
    ensure!(x.iterbit_le().collect::<Vec<_>>() == big_bits(want, m), "reading", "{} has other bits", want);
    let mut r = big_bits(want, m);
    r.reverse();
    ensure!(x.iterbit_be().collect::<Vec<_>>() == r, "reading", "{} has other bits from above", want);
    let u: Result<u64, _> = guarded(|| x.into());
    ensure!(u.as_ref().ok().cloned() == want.to_u64(), "reading", "{} becomes the machine integer {:?}", want, u);
    let u = guarded(|| x.into_bool()).ok();
    ensure!(u == if want.is_zero() { Some(false) } else if want.is_one() { Some(true) } else { None }, "reading", "{} becomes the boolean {:?}", want, u);
    ensure!(x == Num(from_big(want)) && x != Num(from_big(&(want + BigUint::one()))), "reading", "{} compares otherwise", want);
    ensure!(guarded(|| Num::<F>::from_other(x)) == Ok(x), "reading", "{} changes on its way through its own field", want);
    Ok(())
}

fn go<F: Field>(ctx: &Ctx, fid: u64) -> Outcome {
    let n = ctx.range(2, 4);
    let n_acc = ctx.range(2, 4);
    let n_tx = ctx.range(1, 8);
    let mut txs = vec![];
    for _ in 0..n_tx {
        let from = ctx.below(n_acc);
        let op = ctx.draw(9) as u8;
        let (a, mut b) = (draw_form::<F>(ctx), draw_form::<F>(ctx));
        // operands that have to do with one another
        if ctx.chance(1, 6) {
            let (p, x) = (modulus::<F>(), meaning::<F>(&a));
            b = match ctx.draw(6) {
                0 => a.clone(),
                1 => Form::Json((&p - &x) % &p),
                2 => Form::Big(&x + BigUint::one()),
                3 => Form::Big(&x * &x),
                4 => Form::Big(x.modpow(&(&p - BigUint::from(2u32)), &p)),
                _ => Form::Int(plus(&x) - plus(&p)),
            };
        }
        txs.push(Tx { from, to: (from + 1 + ctx.below(n_acc - 1)) % n_acc, op, style: ctx.draw(18) as u8, a, b });
    }
    for t in &txs {
        ctx.event(format!("{:?}", t));
    }
    // the shared secret
    let need = ctx.range(1, 4);
    let total = need + ctx.below(3);
    let poly: Vec<BigUint> = (0..need).map(|_| big::<F>(ctx)).collect();
    let p = modulus::<F>();
    let share = |i: usize| -> F {
        let x = BigUint::from(i as u64 + 1);
        from_big(&poly.iter().rev().fold(BigUint::zero(), |acc, c| (acc * &x + c) % &p))
    };

    let calm = 200;
    let bound = 1500;
    let mut net: Net<Msg<F>> = Net::new(ctx, n, calm);
    let mut rs: Vec<Replica<F>> =
        (0..n).map(|_| Replica { log: vec![], held: BTreeMap::new(), bal: vec![Num::zero(); n_acc], shares: BTreeMap::new(), solved: false }).collect();
    // transaction k starts at replica k % n, which keeps it durably
    let mut acked: Vec<Vec<bool>> = vec![vec![false; n]; n_tx];
    for i in 0..n {
        net.timer(i, 1 + ctx.draw(20), 0);
    }
    let mut order = 0u64;
    loop {
        let ev = match net.next() {
            Some(e) => e,
            None => break,
        };
        if acked.iter().all(|a| a.iter().all(|x| *x)) && rs.iter().all(|r| r.solved) {
            break;
        }
        if net.now > calm + bound {
            violated!("no-progress", "replicas differ {} ticks after the network calmed", bound);
        }
        let mut take: Option<(usize, usize)> = None;
        match ev {
            Ev::Crash { node } => {
                // balances are volatile, the log is not
                ctx.event(format!("{}: replica {} crashes", net.now, node));
                rs[node].bal = vec![];
                rs[node].shares.clear();
            }
            Ev::Restart { node } => {
                let mut log = rs[node].log.clone();
                for i in (1..log.len()).rev() {
                    log.swap(i, ctx.below(i + 1));
                }
                rs[node].bal = vec![Num::zero(); n_acc];
                for k in log {
                    let style = ctx.draw(18) as u8;
                    apply(ctx, &txs[k], style, &mut rs[node].bal)?;
                }
                ctx.event(format!("{}: replica {} replays its log in another order", net.now, node));
                net.timer(node, 1, 0);
            }
            Ev::Calm => {}
            Ev::Timer { node, .. } => {
                for k in 0..n_tx {
                    if k % n == node {
                        if !rs[node].held.contains_key(&k) {
                            take = None;
                            let style = txs[k].style;
                            rs[node].held.insert(k, ());
                            rs[node].log.push(k);
                            apply(ctx, &txs[k], style, &mut rs[node].bal)?;
                            acked[k][node] = true;
                        }
                        for to in 0..n {
                            if !acked[k][to] {
                                net.send(node, to, Msg::Tx(k));
                            }
                        }
                    }
                }
                if !rs[node].solved {
                    // the dealer is replica 0
                    net.send(node, 0, Msg::Ask);
                }
                net.timer(node, 30, 0);
            }
            Ev::Msg { from, to, m } => match m {
                Msg::Tx(k) => {
                    if !rs[to].held.contains_key(&k) {
                        take = Some((to, k));
                    }
                    net.send(to, from, Msg::Ack(k));
                }
                Msg::Ack(k) => acked[k][from] = true,
                Msg::Ask => {
                    for i in 0..total {
                        if ctx.draw(3) > 0 {
                            net.send(to, from, Msg::Share(i, share(i)));
                        }
                    }
                }
                Msg::Share(i, v) => {
                    let r = &mut rs[to];
                    r.shares.insert(i, v);
                    order = mix(order ^ i as u64);
                    if !r.solved && r.shares.len() >= need {
                        let pts: Vec<(Num<F>, Num<F>)> = {
                            let mut v: Vec<_> = r.shares.iter().map(|(i, v)| (Num::from(*i as u64 + 1), Num(*v))).collect();
                            for i in (1..v.len()).rev() {
                                v.swap(i, ctx.below(i + 1));
                            }
                            v.truncate(need);
                            v
                        };
                        let style = ctx.draw(4);
                        let got = guarded(|| {
                            let mut s = Num::<F>::zero();
                            for (j, (xj, yj)) in pts.iter().enumerate() {
                                let mut num = Num::one();
                                let mut den = Num::one();
                                for (k, (xk, _)) in pts.iter().enumerate() {
                                    if k != j {
                                        num *= xk;
                                        den *= xk - xj;
                                    }
                                }
                                s += match style {
                                    0 => yj * num / den,
                                    1 => yj * (num / den),
                                    2 => yj * &num * den.inverse(),
                                    _ => -(-yj * num) / den,
                                };
                            }
                            s
                        });
                        ctx.op();
                        ctx.checked();
                        match got {
                            Ok(s) => ensure!(to_big(&s.0) == poly[0], "secret", "{} of {} shares give {}, not {}", need, total, dec(&s.0), poly[0]),
                            Err(e) => violated!("secret", "recovering the secret panicked: {}", e),
                        }
                        r.solved = true;
                    }
                }
            },
        }
        if let Some((to, k)) = take {
            let style = ctx.draw(18) as u8;
            ctx.event(format!("{}: replica {} applies {}", net.now, to, k));
            rs[to].held.insert(k, ());
            rs[to].log.push(k);
            apply(ctx, &txs[k], style, &mut rs[to].bal)?;
        }
    }
    // balances by integers
    let mut want = vec![BigUint::zero(); n_acc];
    for t in &txs {
        if let Some(a) = amount::<F>(t) {
            want[t.from] = (&want[t.from] + &p - &a) % &p;
            want[t.to] = (&want[t.to] + &a) % &p;
        }
    }
    for r in &rs {
        if r.bal.is_empty() || r.log.len() < n_tx {
            continue;
        }
        for i in 0..n_acc {
            readings(ctx, r.bal[i], &want[i])?;
        }
        let sum = r.bal.iter().fold(Num::zero(), |a, b| a + b);
        ctx.checked();
        ensure!(sum.is_zero(), "conservation", "the balances sum to {}", dec(&sum.0));
    }
    ensure!(acked.iter().all(|a| a.iter().all(|x| *x)) && rs.iter().all(|r| r.solved), "no-progress", "the network went quiet with replicas behind");
    // what is not a number is not read as one
    let bad = *ctx.pick(&["", "-1", "abc", "1a", "0x10", " 1", "1 ", "1.0", "٣", "1_0", "--1"]);
    let got = guarded(|| Num::<F>::from(bad));
    ctx.checked();
    ensure!(got.is_err(), "text", "{:?} is read as {:?}", bad, got.map(|x| dec(&x.0)));
    let v = big::<F>(ctx);
    readings(ctx, Num(from_big::<F>(&v)), &v)?;
    ctx.state(mix(fid ^ order));
    Ok(())
}
