//! The repository's four command line programs, instantiated over one small
//! circuit.
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::num::CNum;
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::core::sizedvec::SizedVec;
use fawkes_crypto::native::num::Num;
use fawkes_crypto_derive::Signal;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use typenum::U2;

#[derive(Clone, Serialize, Deserialize)]
#[serde(bound(serialize = "", deserialize = ""))]
pub struct Pub<F: Field> {
    pub a: Num<F>,
    pub flag: bool,
    pub v: SizedVec<Num<F>, U2>,
    pub b: Num<F>,
}

#[derive(Clone, Serialize, Deserialize)]
#[serde(bound(serialize = "", deserialize = ""))]
pub struct Sec<F: Field> {
    pub x: Num<F>,
    pub y: Num<F>,
    pub p: SizedVec<bool, U2>,
}

#[derive(Clone, Signal)]
#[Value = "Pub<CS::F>"]
pub struct CPub<'a, CS: ConstraintSystem> {
    pub a: CNum<'a, CS>,
    pub flag: CBool<'a, CS>,
    pub v: SizedVec<CNum<'a, CS>, U2>,
    pub b: CNum<'a, CS>,
}

#[derive(Clone, Signal)]
#[Value = "Sec<CS::F>"]
pub struct CSec<'a, CS: ConstraintSystem> {
    pub x: CNum<'a, CS>,
    pub y: CNum<'a, CS>,
    pub p: SizedVec<CBool<'a, CS>, U2>,
}

/// The circuit's constant parameter.
pub const K: u64 = 7;
pub static PAR: u64 = K;

/// a = x*y + K, b = x + 3y, flag = (x == y), v = (p0 ? x : y, p1 ? b*b : a).
pub fn statement<'a, CS: ConstraintSystem>(p: &CPub<'a, CS>, s: &CSec<'a, CS>, k: &u64) {
    let k: CNum<'a, CS> = p.a.derive_const(&Num::from(*k));
    (&s.x * &s.y + &k).assert_eq(&p.a);
    let three: CNum<'a, CS> = p.a.derive_const(&Num::from(3u64));
    (&s.x + &s.y * &three).assert_eq(&p.b);
    s.x.is_eq(&s.y).assert_eq(&p.flag);
    s.x.switch(&s.p[0], &s.y).assert_eq(&p.v[0]);
    p.b.square().switch(&s.p[1], &p.a).assert_eq(&p.v[1]);
}

thread_local! {
    /// What generate-test-data hands out on this thread, as JSON.
    pub static DATA: RefCell<serde_json::Value> = RefCell::new(serde_json::Value::Null);
}

fn data<F: Field>() -> (Pub<F>, Sec<F>) {
    DATA.with(|d| serde_json::from_value(d.borrow().clone()).expect("HARNESS:data"))
}

pub mod eth_ {
    use super::*;
    use fawkes_crypto::groth16_ethereum_bindings;
    groth16_ethereum_bindings!(cli, Pub<Fr>, CPub, Sec<Fr>, CSec, PAR, statement, data);
    pub fn main() {
        cli::cli_main()
    }
}
pub mod waves_ {
    use super::*;
    use fawkes_crypto::groth16_waves_bindings;
    groth16_waves_bindings!(cli, Pub<Fr>, CPub, Sec<Fr>, CSec, PAR, statement, data);
    pub fn main() {
        cli::cli_main()
    }
}
pub mod wavesbn_ {
    use super::*;
    use fawkes_crypto::groth16_waves_bindings_bn256;
    groth16_waves_bindings_bn256!(cli, Pub<Fr>, CPub, Sec<Fr>, CSec, PAR, statement, data);
    pub fn main() {
        cli::cli_main()
    }
}
pub mod near_ {
    use super::*;
    use fawkes_crypto::groth16_near_bindings;
    groth16_near_bindings!(cli, Pub<Fr>, CPub, Sec<Fr>, CSec, PAR, statement, data);
    pub fn main() {
        cli::cli_main()
    }
}
