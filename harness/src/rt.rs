//! Runtime of the scenarios: symbolic inputs, checks, helpers.
use ark_ff::{BigInteger, PrimeField};
use std::panic::{catch_unwind, AssertUnwindSafe};
pub use symcore::explore::Cfg;
use symcore::Kind;

pub fn limbs<F: PrimeField>(x: &F) -> Vec<u64> {
    let _g = symcore::pause();
    x.into_bigint().as_ref().to_vec()
}
fn modulus<F: PrimeField>() -> Vec<u64> {
    F::MODULUS.as_ref().to_vec()
}
fn of<F: PrimeField>(v: &[u64]) -> F {
    let _g = symcore::pause();
    let mut b = vec![];
    for w in &v[..F::BigInt::NUM_LIMBS] {
        b.extend_from_slice(&w.to_le_bytes());
    }
    F::from_le_bytes_mod_order(&b)
}
fn declare<F: PrimeField>(name: &str, k: Kind) -> F {
    of(&symcore::declare(name, k, &modulus::<F>()))
}
/// symbolic value fixed before any randomness exists
pub fn inp<F: PrimeField>(name: impl AsRef<str>) -> F {
    declare(name.as_ref(), Kind::Input)
}
/// symbolic value chosen by an adversary who sees earlier challenges
pub fn adv<F: PrimeField>(name: impl AsRef<str>) -> F {
    declare(name.as_ref(), Kind::Adv)
}
/// symbolic uniformly random value nobody knows
pub fn sec<F: PrimeField>(name: impl AsRef<str>) -> F {
    declare(name.as_ref(), Kind::Secret)
}
/// seeded constant
pub fn con<F: PrimeField>(name: impl AsRef<str>) -> F {
    of(&symcore::concrete(name.as_ref(), &modulus::<F>()))
}
pub fn inps<F: PrimeField>(p: &str, n: usize) -> Vec<F> {
    (0..n).map(|i| inp(format!("{p}{i}"))).collect()
}
pub fn advs<F: PrimeField>(p: &str, n: usize) -> Vec<F> {
    (0..n).map(|i| adv(format!("{p}{i}"))).collect()
}
pub fn check(ok: bool, label: &str) {
    symcore::check(ok, label)
}
pub fn assume(c: bool) {
    symcore::assume_bool(c)
}
pub fn assume_ne<F: PrimeField>(a: &F, b: &F) -> bool {
    symcore::assume_ne(&modulus::<F>(), &limbs(a), &limbs(b))
}
pub fn info(s: &str) {
    symcore::info(s)
}
pub fn depends<F: PrimeField>(x: &F, name: &str) -> bool {
    symcore::depends_on(&modulus::<F>(), &limbs(x), name)
}
/// equality by value, not recorded
pub fn same<F: PrimeField>(a: &F, b: &F) -> bool {
    limbs(a) == limbs(b)
}
/// Some(result), or None when the code panicked
pub fn attempt<R>(f: impl FnOnce() -> R) -> Option<R> {
    let r = catch_unwind(AssertUnwindSafe(f));
    if r.is_err() {
        let _ = symcore::explore::last_panic();
        info("panicked");
    }
    r.ok()
}
/// a verifier run on untrusted data: a panic is a rejection
pub fn accepts(f: impl FnOnce() -> bool) -> bool {
    attempt(f).unwrap_or(false)
}
/// the code ran to completion
pub fn completes<R>(label: &str, f: impl FnOnce() -> R) -> Option<R> {
    let r = catch_unwind(AssertUnwindSafe(f));
    if r.is_err() {
        let m = symcore::explore::last_panic();
        check(false, &format!("{label}: panicked ({m})"));
    }
    r.ok()
}

/// No two of many histories share a challenge. The symbolic run decides it from
/// how much of the digest reaches the challenges; the replay against the real
/// code looks for two histories with one challenge.
pub fn spread<F: PrimeField>(draw: impl Fn(F) -> F) {
    const LABEL: &str = "different messages give different challenges";
    let x: F = inp("x");
    let _ = draw(x);
    if cfg!(feature = "shadow") {
        check(symcore::narrow().map_or(true, |bits| bits > 40), LABEL);
    } else {
        let mut seen = std::collections::HashSet::new();
        let mut y = x;
        let distinct = (0..1u32 << 22).all(|_| {
            y += F::one();
            seen.insert(limbs(&draw(y))[0])
        });
        check(distinct, LABEL);
    }
}

pub struct Scenario {
    pub name: String,
    pub prop: &'static str,
    pub thorough_only: bool,
    pub cfg: Cfg,
    pub body: symcore::explore::Body,
}

#[derive(Default)]
pub struct Suite {
    pub list: Vec<Scenario>,
    prop: &'static str,
}
impl Suite {
    pub fn prop(&mut self, p: &'static str) {
        self.prop = p;
    }
    /// a scenario of both tiers; returns its configuration for adjustment
    pub fn add(&mut self, name: impl Into<String>, body: impl Fn() + Send + Sync + 'static) -> &mut Cfg {
        self.push(name.into(), false, std::sync::Arc::new(body))
    }
    pub fn deep(&mut self, name: impl Into<String>, body: impl Fn() + Send + Sync + 'static) -> &mut Cfg {
        self.push(name.into(), true, std::sync::Arc::new(body))
    }
    fn push(&mut self, name: String, thorough_only: bool, body: symcore::explore::Body) -> &mut Cfg {
        let name = format!("{}.{}", self.prop, name);
        assert!(self.list.iter().all(|s| s.name != name), "duplicate scenario {name}");
        self.list.push(Scenario {
            cfg: Cfg {
                name: name.clone(),
                ..Cfg::default()
            },
            name,
            prop: self.prop,
            thorough_only,
            body,
        });
        &mut self.list.last_mut().unwrap().cfg
    }
}

/// Values whose texts or bytes are close to each other: shifted, cut, padded, negated, small, large.
pub fn plain<F: ark_ff::PrimeField>() -> Vec<F> {
    let mut v: Vec<F> = (0..=20u64).map(F::from).collect();
    for k in [100u64, 1000, 110, 120, 12, 123, 1230, 12300, 321, 255, 256, 257, 65535, 65536, 65537, 1 << 24, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 48, 1 << 63, u64::MAX - (1 << 32), 1_000_000_000, 10_000_000_000, 123_456_789, 1_234_567_890] {
        v.push(F::from(k));
    }
    for k in [1u64, 2, 3, 10, 256, 1 << 16, 1 << 32] {
        v.push(-F::from(k));
    }
    for k in [65u64, 96, 127, 128, 160, 192, 200, 240] {
        if k + 2 < F::MODULUS_BIT_SIZE as u64 {
            let x = F::from(2u64).pow([k]);
            v.extend([x, x - F::one(), x + F::one()]);
        }
    }
    v.push(F::from(2u64).inverse().unwrap());
    let mut out: Vec<F> = vec![];
    for x in v {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out
}
/// Different plain values give different results.
pub fn apart<F: ark_ff::PrimeField, R: PartialEq>(what: &str, f: impl Fn(F) -> R) {
    let v = plain::<F>();
    let r: Vec<R> = v.iter().map(|x| f(*x)).collect();
    let mut ok = true;
    for i in 0..r.len() {
        for j in 0..i {
            ok &= r[i] != r[j];
        }
    }
    check(ok, what);
}
