//! KZG polynomial commitments.
use crate::rt::*;
use ark_bls12_381::Fr;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, Zero};
use ark_poly::{DenseUVPolynomial, Polynomial};
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use kzg::types::{G1Point, G2Point, Poly};
use rand::rngs::StdRng;
use rand::SeedableRng;
use std::ops::Mul;

pub fn horner(c: &[Fr], x: Fr) -> Fr {
    let mut r = Fr::zero();
    for a in c.iter().rev() {
        r = r * x + a;
    }
    r
}
pub fn g1(x: Fr) -> G1Point {
    G1Point::generator().mul(x).into_affine()
}
fn srs(n: usize) -> (KzgScheme, Srs, Fr) {
    let s: Fr = sec("s");
    let srs = Srs::new_from_secret(s, n);
    (KzgScheme::new(srs.clone()), srs, s)
}
/// a group element an algebraic adversary can form
pub fn agm(srs: &Srs, c: &[Fr]) -> G1Point {
    let mut p = G1Point::zero().into_group();
    for (g, x) in srs.g1_points().iter().zip(c) {
        p += g.mul(x);
    }
    p.into_affine()
}

pub fn add(s: &mut Suite) {
    // ------------------------------------------------------------ commit
    s.prop("K01");
    for n in [0usize, 1, 2, 3, 5, 8, 9, 16, 17, 33, 65, 130] {
        s.add(format!("commit{n}"), move || {
            let (k, _, s) = srs(n.max(3));
            let c: Vec<Fr> = inps("c", n);
            let p = Poly::from_coefficients_vec(c.clone());
            let want = g1(horner(&c, s));
            check(k.commit(&p).0 == want, "commit is p(s)G");
            check(k.commit_vector(&c).0 == want, "commit_vector is p(s)G");
            check(*k.commit(&p).inner() == want, "inner is the commitment");
        });
    }
    s.add("para", || {
        let (k, _, _) = srs(2);
        let c: Fr = inp("c");
        let want = g1(c);
        check(k.commit_para(c).0 == want, "commit_para is cG");
    });
    s.add("trailing", || {
        // vectors with explicit zero tail
        let (k, _, s) = srs(3);
        let mut c: Vec<Fr> = inps("c", 2);
        let want = g1(horner(&c, s));
        c.push(Fr::zero());
        c.push(Fr::zero());
        check(k.commit_vector(&c).0 == want, "zero tail changes nothing");
    });
    s.add("capacity", || {
        // degree d needs d+1 points; more is refused instead of truncated
        let s: Fr = sec("s");
        let srs = Srs::new_from_secret(s, 1);
        let m = srs.g1_points().len();
        let k = KzgScheme::new(srs);
        let c: Vec<Fr> = inps("c", m + 1);
        let lead = c[m];
        let r = attempt(|| k.commit_vector(&c));
        if let Some(r) = r {
            check(r.0 == g1(horner(&c, s)), "beyond capacity: refused or right");
        } else {
            check(!lead.is_zero(), "refused only beyond capacity");
        }
        let q = attempt(|| k.commit_vector(&c[..m]));
        match q {
            Some(q) => check(q.0 == g1(horner(&c[..m], s)), "full capacity is usable"),
            None => check(false, "full capacity is usable"),
        }
    });

    // ------------------------------------------------------- homomorphism
    s.prop("K02");
    s.add("ops", || {
        let (k, _, _) = srs(3);
        let (a, b): (Vec<Fr>, Vec<Fr>) = (inps("a", 3), inps("b", 3));
        let t: Fr = inp("t");
        let (pa, pb) = (Poly::from_coefficients_vec(a), Poly::from_coefficients_vec(b));
        let (ca, cb) = (k.commit(&pa), k.commit(&pb));
        check(ca.clone() + cb.clone() == k.commit(&(&pa + &pb)), "sum");
        check(ca.clone() - cb.clone() == k.commit(&(&pa - &pb)), "difference");
        check(ca.clone() * t == k.commit(&(&pa * t)), "scalar multiple");
        check(&ca * t == k.commit(&(&pa * t)), "scalar multiple of a reference");
        check(-ca.clone() == k.commit(&-pa.clone()), "negation");
    });
    for n in [0usize, 1, 2, 3, 4, 7, 16, 40, 100] {
        s.add(format!("aggregate{n}"), move || {
            let (x, c): (Vec<Fr>, Fr) = (inps("x", n), inp("ch"));
            let cs: Vec<KzgCommitment> = x.iter().map(|x| KzgCommitment(g1(*x))).collect();
            let r = KzgScheme::aggregate_commitments(&cs.iter().collect(), &c);
            check(r.0 == g1(horner(&x, c)), "aggregate is the power combination");
        });
    }

    // ------------------------------------------------------- completeness
    s.prop("K03");
    for n in [0usize, 1, 2, 3, 4, 5, 7, 8, 12, 17, 34, 66] {
        let c = s.add(format!("open{n}"), move || {
            let (k, _, _) = srs(n.max(3));
            let c: Vec<Fr> = inps("c", n);
            let z: Fr = inp("z");
            let p = Poly::from_coefficients_vec(c.clone());
            let cm = k.commit(&p);
            if let Some(o) = completes("open", || k.open(&p, z)) {
                check(o.1 == horner(&c, z), "claimed value is p(z)");
                check(o.clone().eval() == horner(&c, z), "eval returns the value");
                check(k.verify(&cm, &o, z), "honest opening verifies");
            }
            if let Some(o) = completes("open_vector", || k.open_vector(&c, z)) {
                check(o.1 == horner(&c, z), "claimed value is p(z) (vector)");
                check(k.verify(&cm, &o, z), "honest opening verifies (vector)");
            }
        });
        if n > 4 {
            c.max_depth = if n > 20 { 0 } else { 1 };
        }
    }
    s.add("sum", || {
        let (k, _, _) = srs(3);
        let (a, b): (Vec<Fr>, Vec<Fr>) = (inps("a", 3), inps("b", 3));
        let z: Fr = inp("z");
        let (oa, ob) = (k.open_vector(&a, z), k.open_vector(&b, z));
        let o = oa + ob;
        check(o.1 == horner(&a, z) + horner(&b, z), "sum opens to the sum of values");
        check(
            k.verify(&(k.commit_vector(&a) + k.commit_vector(&b)), &o, z),
            "sum of openings opens the sum of commitments",
        );
    });

    for (n, m) in [(1usize, 3usize), (4, 2), (6, 6), (9, 20)] {
        s.add(format!("sum{n}-{m}"), move || {
            let (k, _, _) = srs(n.max(m));
            let (a, b): (Vec<Fr>, Vec<Fr>) = (inps("a", n), inps("b", m));
            let z: Fr = inp("z");
            let o = k.open_vector(&a, z) + k.open_vector(&b, z);
            let o = o.clone() + o;
            check(o.1 == (horner(&a, z) + horner(&b, z)).double(), "sums open to the sum of values");
            let c = k.commit_vector(&a) + k.commit_vector(&b);
            check(k.verify(&(c.clone() + c), &o, z), "sums of openings open sums of commitments");
        })
        .max_depth = if n > 6 { 0 } else { 1 };
    }

    // ---------------------------------------------------------- soundness
    s.prop("K04");
    for what in ["value", "commitment", "witness", "point"] {
        for n in [1usize, 2, 6, 9, 18, 35] {
            s.add(format!("tamper-{what}-len{n}"), move || {
                let (k, srs, _) = srs(n.max(9));
                let c: Vec<Fr> = inps("c", n);
                let z: Fr = inp("z");
                let (mut o, mut cm, mut z2) = (k.open_vector(&c, z), k.commit_vector(&c), z);
                let d: Fr = adv("d");
                match what {
                    "value" => o.1 += d,
                    "commitment" => cm = KzgCommitment((cm.0 + agm(&srs, &[d])).into_affine()),
                    "witness" => o.0 = (o.0 + agm(&srs, &[d])).into_affine(),
                    _ => z2 += d,
                }
                if k.verify(&cm, &o, z2) {
                    let mut cc = c.clone();
                    if what == "commitment" {
                        cc[0] += d;
                    }
                    check(o.1 == horner(&cc, z2), "accepted value is the committed polynomial's");
                    check(what != "witness" || d.is_zero(), "the witness is determined");
                } else {
                    check(!d.is_zero(), "untampered opening is accepted");
                }
            })
            .max_depth = 1;
        }
    }
    for what in ["value", "commitment", "witness", "point", "value+witness", "all"] {
        s.add(format!("tamper-{what}"), move || {
            let (k, srs, _) = srs(3);
            let c: Vec<Fr> = inps("c", 3);
            let z: Fr = inp("z");
            let o = k.open_vector(&c, z);
            let cm = k.commit_vector(&c);
            let d = |n: &str| -> Fr {
                if what == "all" || what.split('+').any(|w| w == n) {
                    adv(format!("d-{n}"))
                } else {
                    Fr::zero()
                }
            };
            let (dv, dc, dw, dz) = (d("value"), d("commitment"), d("witness"), d("point"));
            let o2 = KzgOpening((o.0 + agm(&srs, &[dw])).into_affine(), o.1 + dv);
            let c2 = KzgCommitment((cm.0 + agm(&srs, &[Fr::zero(), dc])).into_affine());
            let z2 = z + dz;
            if k.verify(&c2, &o2, z2) {
                let mut cc = c.clone();
                cc[1] += dc;
                check(o2.1 == horner(&cc, z2), "accepted value is the committed polynomial's");
                if what == "witness" {
                    check(dw.is_zero(), "the witness is determined");
                }
            } else {
                let nothing = dv.is_zero() && dc.is_zero() && dw.is_zero() && dz.is_zero();
                check(!nothing, "untampered opening is accepted");
            }
        });
    }
    s.add("forge", || {
        // any algebraic adversary: C and W arbitrary combinations of the SRS
        let (k, srs, _) = srs(0);
        let a: Vec<Fr> = advs("a", 2);
        let w: Vec<Fr> = advs("w", 2);
        let (y, z): (Fr, Fr) = (adv("y"), adv("z"));
        let cm = KzgCommitment(agm(&srs, &a));
        let o = KzgOpening(agm(&srs, &w), y);
        if k.verify(&cm, &o, z) {
            check(y == horner(&a, z), "accepted value is the committed polynomial's");
        } else {
            check(true, "rejected");
        }
    });
    s.add("forge-zero", || {
        // forged claims around special points and values
        let (k, srs, _) = srs(0);
        for (i, (wz, zz)) in [(true, false), (false, true), (true, true)].into_iter().enumerate() {
            let a: Vec<Fr> = advs(&format!("a{i}."), 2);
            let y: Fr = adv(format!("y{i}"));
            let z: Fr = if zz { Fr::zero() } else { adv(format!("z{i}")) };
            let w = if wz { G1Point::zero() } else { agm(&srs, &advs::<Fr>(&format!("w{i}."), 1)) };
            let cm = KzgCommitment(agm(&srs, &a));
            if k.verify(&cm, &KzgOpening(w, y), z) {
                check(y == horner(&a, z), "accepted value is the committed polynomial's");
            } else {
                check(true, "rejected");
            }
        }
    });

    // -------------------------------------------------------------- batch
    s.prop("K05");
    for n in [0usize, 1, 2, 3, 4, 5, 8, 9, 17, 33] {
        let cfg = s.add(format!("complete{n}"), move || {
            let (k, _, _) = srs(2);
            let mut cs = vec![];
            let mut os = vec![];
            let z: Vec<Fr> = inps("z", n);
            for i in 0..n {
                let c: Vec<Fr> = inps(&format!("c{i}."), 3);
                cs.push(k.commit_vector(&c));
                os.push(k.open_vector(&c, z[i]));
            }
            let mut rng = StdRng::from_entropy();
            check(k.batch_verify(&cs, &z, &os, &mut rng), "valid batch is accepted");
        });
        if n > 3 {
            cfg.max_depth = if n > 10 { 0 } else { 1 };
        }
    }
    for n in [1usize, 2, 3, 4, 6, 10, 17] {
        for bad in 0..n {
            // long batches: the ends and one in the middle
            if n > 6 && ![0, 1, n / 2, n - 2, n - 1].contains(&bad) {
                continue;
            }
            for what in ["value", "commitment", "witness", "point"] {
                let cfg = s.add(format!("tamper{n}-{bad}-{what}"), move || {
                    let (k, srs, _) = srs(1);
                    let mut z: Vec<Fr> = inps("z", n);
                    let (mut cs, mut os) = (vec![], vec![]);
                    for i in 0..n {
                        let c: Vec<Fr> = inps(&format!("c{i}."), 2);
                        cs.push(k.commit_vector(&c));
                        os.push(k.open_vector(&c, z[i]));
                    }
                    let d: Fr = adv("d");
                    match what {
                        "value" => os[bad].1 += d,
                        "commitment" => cs[bad] = KzgCommitment((cs[bad].0 + agm(&srs, &[d])).into()),
                        "witness" => os[bad].0 = (os[bad].0 + agm(&srs, &[d])).into(),
                        _ => z[bad] += d,
                    }
                    let single = k.verify(&cs[bad], &os[bad], z[bad]);
                    let mut rng = StdRng::from_entropy();
                    let b = k.batch_verify(&cs, &z, &os, &mut rng);
                    check(b == single, "batch accepts exactly when every opening verifies");
                });
                if n > 3 {
                    cfg.max_depth = 1;
                    cfg.max_paths = if n > 6 { 30 } else { 240 };
                }
            }
        }
    }
    s.add("tamper-two", || {
        // two wrong openings whose errors could cancel
        let (k, _, _) = srs(1);
        let z: Vec<Fr> = inps("z", 2);
        let (mut cs, mut os) = (vec![], vec![]);
        for i in 0..2 {
            let c: Vec<Fr> = inps(&format!("c{i}."), 2);
            cs.push(k.commit_vector(&c));
            os.push(k.open_vector(&c, z[i]));
        }
        let (d0, d1): (Fr, Fr) = (adv("d0"), adv("d1"));
        os[0].1 += d0;
        os[1].1 += d1;
        let good = d0.is_zero() && d1.is_zero();
        let mut rng = StdRng::from_entropy();
        check(
            k.batch_verify(&cs, &z, &os, &mut rng) == good,
            "batch accepts exactly when every opening verifies",
        );
    });
    for (i, j) in [(0usize, 1usize), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)] {
        s.add(format!("tamper-pair{i}{j}"), move || {
            // the same error, or opposite errors, in two of four openings
            for sign in [Fr::one(), -Fr::one()] {
                let (k, srs, _) = srs(1);
                let z: Vec<Fr> = inps("z", 4);
                let (mut cs, mut os) = (vec![], vec![]);
                for i in 0..4 {
                    let c: Vec<Fr> = inps(&format!("c{i}."), 2);
                    cs.push(k.commit_vector(&c));
                    os.push(k.open_vector(&c, z[i]));
                }
                let (d, e): (Fr, Fr) = (adv("d"), adv("e"));
                os[i].1 += d;
                os[j].1 += d * sign;
                cs[i] = KzgCommitment((cs[i].0 + agm(&srs, &[e])).into());
                cs[j] = KzgCommitment((cs[j].0 + agm(&srs, &[e * sign])).into());
                let all = (0..4).all(|i| k.verify(&cs[i], &os[i], z[i]));
                let mut rng = StdRng::from_entropy();
                check(k.batch_verify(&cs, &z, &os, &mut rng) == all, "batch accepts exactly when every opening verifies");
            }
        })
        .max_depth = 1;
    }
    s.add("tamper-cancel", || {
        // errors d and -d at the same point
        let (k, srs, _) = srs(1);
        let z0: Fr = inp("z");
        let z = vec![z0, z0];
        let (mut cs, mut os) = (vec![], vec![]);
        for i in 0..2 {
            let c: Vec<Fr> = inps(&format!("c{i}."), 2);
            cs.push(k.commit_vector(&c));
            os.push(k.open_vector(&c, z[i]));
        }
        let (d, e, f): (Fr, Fr, Fr) = (adv("d"), adv("e"), adv("f"));
        os[0].1 += d;
        os[1].1 -= d;
        os[0].0 = (os[0].0 + agm(&srs, &[e])).into();
        os[1].0 = (os[1].0 + agm(&srs, &[-e])).into();
        cs[0] = KzgCommitment((cs[0].0 + agm(&srs, &[f])).into());
        cs[1] = KzgCommitment((cs[1].0 + agm(&srs, &[-f])).into());
        let all = k.verify(&cs[0], &os[0], z[0]) && k.verify(&cs[1], &os[1], z[1]);
        let mut rng = StdRng::from_entropy();
        check(
            k.batch_verify(&cs, &z, &os, &mut rng) == all,
            "batch accepts exactly when every opening verifies",
        );
    });

    // ---------------------------------------------------------------- srs
    s.prop("K06");
    for n in [0usize, 1, 2, 3, 4, 8, 16, 33, 70, 140, 260] {
        s.add(format!("powers{n}"), move || {
            let s: Fr = inp("s");
            let r = Srs::new_from_secret(s, n);
            let p = r.g1_points();
            check(p.len() >= n + 1, "a circuit of the given size fits");
            let mut x = Fr::one();
            for (i, g) in p.iter().enumerate() {
                check(*g == g1(x), &format!("point {i} is s^{i} G1"));
                x *= s;
            }
            check(r.g2() == G2Point::generator(), "g2 is the generator");
            check(r.g2s() == G2Point::generator().mul(s).into_affine(), "g2s is s G2");
        });
    }
    s.add("fresh", || {
        // a generated SRS uses one fresh secret consistently
        let a = Srs::new(2);
        let b = Srs::new(2);
        let (p, q) = (a.g1_points(), b.g1_points());
        check(p[0] == G1Point::generator(), "point 0 is G1");
        check(p[1] != p[0] && !p[1].is_zero(), "the secret is not trivial");
        check(p[1] != q[1], "two set-ups have independent secrets");
        check(a.g2s() != b.g2s(), "two set-ups have independent secrets (G2)");
        let t: Fr = inp("t");
        check(p[1] != g1(t), "nobody can name the secret beforehand");
        let k = KzgScheme::new(a);
        let c: Vec<Fr> = inps("c", 5);
        let z: Fr = inp("z");
        let o = k.open_vector(&c, z);
        check(k.verify(&k.commit_vector(&c), &o, z), "set-up is consistent across both groups");
        let d: Fr = adv("d");
        let bad = KzgOpening(o.0, o.1 + d);
        check(k.verify(&k.commit_vector(&c), &bad, z) == d.is_zero(), "generated set-up is sound");
    });

    // ---------------------------------------------------- one set-up each
    s.prop("K07");
    for n in [1usize, 2, 3] {
        s.add(format!("other{n}"), move || {
            // an opening of one set-up means nothing under another secret
            let (k, _, _) = srs(2);
            let t: Fr = sec("t");
            let k2 = KzgScheme::new(Srs::new_from_secret(t, 2));
            let c: Vec<Fr> = inps("c", n);
            let z: Fr = inp("z");
            let (cm, o) = (k.commit_vector(&c), k.open_vector(&c, z));
            let constant = c[1..].iter().fold(true, |a, x| a & x.is_zero());
            check(k2.verify(&cm, &o, z) == constant, "accepted under another secret only for constants");
            check((k2.commit_vector(&c) == cm) == constant, "commitments differ between set-ups");
            check(k.verify(&cm, &o, z), "accepted under its own set-up");
            let d: Fr = inp("d");
            let c0 = [d];
            let (cm0, o0) = (k2.commit_vector(&c0), k2.open_vector(&c0, z));
            let mut rng = StdRng::from_entropy();
            check(
                k2.batch_verify(&[cm0, cm], &[z, z], &[o0, o], &mut rng) == constant,
                "a batch holding an opening of another set-up is rejected",
            );
        });
    }
    s.add("mixed", || {
        // commitment of one set-up, opening made under another
        let (k, _, _) = srs(2);
        let t: Fr = sec("t");
        let k2 = KzgScheme::new(Srs::new_from_secret(t, 2));
        let c: Vec<Fr> = inps("c", 3);
        let z: Fr = inp("z");
        let linear = c[2].is_zero();
        let constant = c[1].is_zero() & linear;
        check(k.verify(&k.commit_vector(&c), &k2.open_vector(&c, z), z) == linear, "a quotient under another secret is rejected");
        check(k.verify(&k2.commit_vector(&c), &k.open_vector(&c, z), z) == constant, "a commitment under another secret is rejected");
    });
    s.add("sizes", || {
        // set-ups of one secret agree whatever their sizes
        let s: Fr = sec("s");
        let ks: Vec<KzgScheme> = [1usize, 2, 5, 9].iter().map(|n| KzgScheme::new(Srs::new_from_secret(s, *n))).collect();
        let c: Vec<Fr> = inps("c", 2);
        let z: Fr = inp("z");
        let (cm, o) = (ks[0].commit_vector(&c), ks[0].open_vector(&c, z));
        for k in &ks {
            check(k.commit_vector(&c) == cm, "the size of the set-up does not enter commitments");
            check(k.open_vector(&c, z).0 == o.0 && k.open_vector(&c, z).1 == o.1, "the size of the set-up does not enter openings");
            check(k.verify(&cm, &o, z), "openings verify under every size of set-up");
            let d: Fr = adv("d");
            check(k.verify(&cm, &KzgOpening(o.0, o.1 + d), z) == d.is_zero(), "wrong openings fail under every size of set-up");
        }
    });
    s.add("points", || {
        // point by point, for larger sizes
        let s: Fr = sec("s");
        let all: Vec<Vec<G1Point>> = [1usize, 7, 16, 50, 130, 300].iter().map(|n| Srs::new_from_secret(s, *n).g1_points()).collect();
        for p in all.windows(2) {
            for (i, (x, y)) in p[0].iter().zip(&p[1]).enumerate() {
                check(x == y, &format!("point {i} is the same in set-ups of different sizes"));
            }
        }
    });
    s.add("repeated", || {
        // any order and number of calls gives the same results
        let (k, srs, _) = srs(3);
        let (a, b): (Vec<Fr>, Vec<Fr>) = (inps("a", 3), inps("b", 2));
        let (x, y): (Fr, Fr) = (inp("x"), inp("y"));
        let (ca, oa) = (k.commit_vector(&a), k.open_vector(&a, x));
        let d: Fr = adv("d");
        let bad = KzgOpening(oa.0, oa.1 + d);
        for i in 0..4 {
            let (cb, ob) = (k.commit_vector(&b), k.open_vector(&b, y));
            check(k.verify(&cb, &ob, y), "an honest opening verifies every time");
            check(k.verify(&ca, &bad, x) == d.is_zero(), "a wrong opening is rejected every time");
            check(k.verify(&ca, &oa, x), "an honest opening verifies every time");
            check(cb.0 == g1(horner(&b, sec("s"))) && ob.1 == horner(&b, y), "results do not depend on earlier calls");
            let o = k.open_vector(&a, x);
            check(k.commit_vector(&a) == ca && o.0 == oa.0 && o.1 == oa.1, "the same call gives the same result");
            let mut rng = StdRng::from_entropy();
            let r = k.batch_verify(&[ca.clone(), cb.clone()], &[x, y], &[if i % 2 == 1 { bad.clone() } else { oa.clone() }, ob.clone()], &mut rng);
            check(r == (i % 2 == 0 || d.is_zero()), "a batch gets the same verdict every time");
        }
        let k2 = KzgScheme::new(srs);
        check(k2.commit_vector(&a) == ca && k2.verify(&ca, &oa, x), "schemes of one set-up agree");
    });
    s.add("long", || {
        // a long use of one set-up, with ever new polynomials, points and batches
        let (k, _, s) = srs(4);
        let (a, x): (Vec<Fr>, Fr) = (inps("a", 3), inp("x"));
        let (ca, oa) = (k.commit_vector(&a), k.open_vector(&a, x));
        let mut batch = vec![];
        for i in 0..70usize {
            let b: Vec<Fr> = (0..1 + i % 5).map(|j| con::<Fr>(format!("b{i}.{j}")) + x).collect();
            let z = con::<Fr>(format!("z{i}")) + x;
            let (c, o) = (k.commit_vector(&b), k.open_vector(&b, z));
            check(c == KzgCommitment(g1(horner(&b, s))) && o.1 == horner(&b, z), "results do not depend on the number of calls");
            check(k.verify(&c, &o, z), "an honest opening verifies every time");
            check(!k.verify(&c, &KzgOpening(o.0, o.1 + Fr::one()), z), "a wrong opening is rejected every time");
            batch.push((c, z, o));
            if i % 23 == 22 {
                let mut rng = StdRng::from_entropy();
                let (c, z, o): (Vec<_>, Vec<_>, Vec<_>) = (
                    batch.iter().map(|t| t.0.clone()).collect(),
                    batch.iter().map(|t| t.1).collect(),
                    batch.iter().map(|t| KzgOpening(t.2 .0, t.2 .1)).collect(),
                );
                check(k.batch_verify(&c, &z, &o, &mut rng), "a batch of all openings so far is accepted");
            }
        }
        let o = k.open_vector(&a, x);
        check(k.commit_vector(&a) == ca && o.0 == oa.0 && o.1 == oa.1, "the same call gives the same result after all the others");
        let d: Fr = adv("d");
        check(k.verify(&ca, &oa, x), "an honest opening verifies after all the others");
        check(k.verify(&ca, &KzgOpening(oa.0, oa.1 + d), x) == d.is_zero(), "a wrong opening is rejected after all the others");
    })
    .max_depth = 0;
    let _ = Fr::one().inverse();
}

#[allow(unused)]
fn unused(p: &Poly) -> Fr {
    p.evaluate(&Fr::one())
}
