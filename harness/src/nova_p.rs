//! Nova: relaxed R1CS, folding, the augmented circuit and IVC.
use crate::kzg_p::{g1, horner};
use crate::rt::*;
use ark_bls12_381::{Fq, Fr};
use ark_ec::CurveGroup;
use ark_ff::{BigInteger, One, PrimeField, Zero};
use kzg::commitment::KzgCommitment;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use nova::circuit::{AugmentedCircuit, FCircuit, State};
use nova::ivc::{IVCProof, ZkIVCProof, IVC};
use nova::nifs::{NIFSProof, NIFS};
use nova::r1cs::{create_trivial_pair, is_r1cs_satisfied, FInstance, FWitness, R1CS};
use nova::transcript::Transcript;
use sha2::{Sha256, Sha512};

type N = NIFS<Sha256>;
type Tr = Transcript<Sha256>;
type Mat = Vec<Vec<Fr>>;

fn scheme(n: usize) -> (KzgScheme, Fr) {
    let s: Fr = sec("s");
    (KzgScheme::new(Srs::new_from_secret(s, n)), s)
}
fn mat(p: &str, m: usize, n: usize) -> Mat {
    (0..m).map(|i| inps(&format!("{p}{i}."), n)).collect()
}
/// m constraints over w witness values, x public values and u
fn r1cs(m: usize, w: usize, x: usize) -> R1CS<Fr> {
    let n = w + x + 1;
    R1CS {
        matrix_a: mat("A", m, n),
        matrix_b: mat("B", m, n),
        matrix_c: mat("C", m, n),
        num_io: x,
        num_vars: w,
    }
}
fn dot(r: &[Fr], z: &[Fr]) -> Fr {
    assert_eq!(r.len(), z.len());
    let mut s = Fr::zero();
    for i in 0..r.len() {
        s = s + r[i] * z[i];
    }
    s
}
fn z_of(w: &[Fr], x: &[Fr], u: Fr) -> Vec<Fr> {
    w.iter().chain(x).copied().chain([u]).collect()
}
/// the error vector that makes (w, x, u) satisfy the relaxed R1CS
fn slack(r: &R1CS<Fr>, w: &[Fr], x: &[Fr], u: Fr) -> Vec<Fr> {
    let z = z_of(w, x, u);
    (0..r.matrix_a.len())
        .map(|i| dot(&r.matrix_a[i], &z) * dot(&r.matrix_b[i], &z) - u * dot(&r.matrix_c[i], &z))
        .collect()
}
fn com(s: Fr, v: &[Fr]) -> KzgCommitment {
    KzgCommitment(g1(horner(v, s)))
}
/// a committed pair that satisfies r
fn pair(tag: &str, r: &R1CS<Fr>, s: Fr) -> (FWitness, FInstance) {
    let w: Vec<Fr> = inps(&format!("{tag}w"), r.num_vars);
    let x: Vec<Fr> = inps(&format!("{tag}x"), r.num_io);
    let u: Fr = inp(format!("{tag}u"));
    let e = slack(r, &w, &x, u);
    let fi = FInstance {
        com_e: com(s, &e),
        u,
        com_w: com(s, &w),
        x,
    };
    (FWitness { e, w }, fi)
}
/// an instance of independent parts
fn free_instance(tag: &str, x: usize) -> FInstance {
    FInstance {
        com_e: KzgCommitment(g1(inp(format!("{tag}e")))),
        u: inp(format!("{tag}u")),
        com_w: KzgCommitment(g1(inp(format!("{tag}w")))),
        x: inps(&format!("{tag}x"), x),
    }
}
fn same_instance(a: &FInstance, b: &FInstance) -> bool {
    let mut e = a.x.len() == b.x.len();
    e &= a.com_e == b.com_e;
    e &= a.com_w == b.com_w;
    e &= a.u == b.u;
    for (p, q) in a.x.iter().zip(&b.x) {
        e &= p == q;
    }
    e
}
const PARTS: [&str; 4] = ["com_e", "u", "com_w", "x"];
fn shift(c: &KzgCommitment, d: Fr) -> KzgCommitment {
    KzgCommitment((c.0 + g1(d)).into_affine())
}
fn alter(fi: &FInstance, part: &str, d: Fr) -> FInstance {
    let mut f = fi.clone();
    match part {
        "com_e" => f.com_e = shift(&f.com_e, d),
        "com_w" => f.com_w = shift(&f.com_w, d),
        "u" => f.u += d,
        "x" => *f.x.last_mut().unwrap() += d,
        _ => unreachable!(),
    }
    f
}
fn sat(r: &R1CS<Fr>, fi: &FInstance, fw: &FWitness, k: &KzgScheme) -> bool {
    accepts(|| is_r1cs_satisfied(r, fi, fw, k).is_ok())
}

pub fn add(s: &mut Suite) {
    satisfaction(s);
    folding(s);
    soundness(s);
    proofs(s);
    challenges(s);
    circuit(s);
    ivc(s);
    hashes(s);
    transcripts(s);
    repeated(s);
    vectors(s);
}

const SIZES: [(usize, usize, usize); 7] = [(1, 1, 1), (2, 2, 1), (3, 2, 2), (2, 3, 1), (4, 1, 3), (1, 4, 2), (9, 10, 3)];

fn satisfaction(s: &mut Suite) {
    s.prop("N01");
    for (m, w, x) in SIZES {
        s.add(format!("satisfied-m{m}-w{w}-x{x}"), move || {
            let (k, s) = scheme(10);
            let r = r1cs(m, w, x);
            let (fw, fi) = pair("", &r, s);
            check(is_r1cs_satisfied(&r, &fi, &fw, &k).is_ok(), "a satisfying committed pair is accepted");
        })
        .max_depth = if m > 4 { 0 } else { 2 };
        for what in ["e", "w", "x", "u"] {
            s.add(format!("{what}-m{m}-w{w}-x{x}"), move || {
                // one value differs (its commitment follows): the constraints decide
                let (k, s) = scheme(10);
                let r = r1cs(m, w, x);
                let (mut fw, mut fi) = pair("", &r, s);
                let d: Fr = inp("d");
                match what {
                    "e" => *fw.e.last_mut().unwrap() += d,
                    "w" => *fw.w.last_mut().unwrap() += d,
                    "x" => fi.x[0] += d,
                    _ => fi.u += d,
                }
                fi.com_e = com(s, &fw.e);
                fi.com_w = com(s, &fw.w);
                let should = slack(&r, &fw.w, &fi.x, fi.u);
                let want = should.iter().zip(&fw.e).fold(true, |t, (a, b)| t & (a == b));
                check(sat(&r, &fi, &fw, &k) == want, "accepted exactly when every constraint holds");
            })
            .max_depth = if m > 4 { 0 } else { 2 };
        }
        s.add(format!("commitments-m{m}-w{w}-x{x}"), move || {
            let (k, s) = scheme(10);
            let r = r1cs(m, w, x);
            let (fw, fi) = pair("", &r, s);
            let (d, e): (Fr, Fr) = (inp("d"), inp("e"));
            let f = alter(&alter(&fi, "com_w", d), "com_e", e);
            check(sat(&r, &f, &fw, &k) == (d.is_zero() & e.is_zero()), "accepted only for the committed witness and errors");
        });
    }
    s.add("sizes", || {
        let (k, s) = scheme(4);
        let r = r1cs(2, 2, 1);
        let (fw, fi) = pair("", &r, s);
        let one = |f: &dyn Fn(&mut FWitness, &mut FInstance)| {
            let (mut w, mut i) = (fw.clone(), fi.clone());
            f(&mut w, &mut i);
            i.com_e = com(s, &w.e);
            i.com_w = com(s, &w.w);
            completes("a pair of another size is refused", || is_r1cs_satisfied(&r, &i, &w, &k)).map_or(true, |r| r.is_err())
        };
        check(one(&|w, _| w.w.push(Fr::zero())), "a longer witness is refused");
        check(one(&|w, _| drop(w.w.pop())), "a shorter witness is refused");
        check(one(&|_, i| i.x.push(Fr::zero())), "more public values are refused");
        check(one(&|_, i| drop(i.x.pop())), "fewer public values are refused");
        check(one(&|w, _| w.e.push(Fr::zero())), "a longer error vector is refused");
        check(one(&|w, _| drop(w.e.pop())), "a shorter error vector is refused");
        check(one(&|w, i| { let t = w.w.pop().unwrap(); i.x.insert(0, t) }), "a witness value moved to the public ones is refused");
        check(one(&|w, i| { let t = i.x.pop().unwrap(); w.w.push(t) }), "a public value moved to the witness is refused");
    });
    s.add("trivial", || {
        // the trivial pair satisfies every R1CS of its size
        let (k, _) = scheme(4);
        for (m, x) in [(1, 1), (2, 2), (3, 1)] {
            let r = r1cs(m, m, x);
            let (fw, fi) = create_trivial_pair(x, m, &k);
            check(sat(&r, &fi, &fw, &k), "the trivial pair is satisfied");
            check(fi.com_e == com(Fr::zero(), &[]) && fi.com_w == fi.com_e, "the trivial pair commits to zeros");
        }
    });
    s.add("fresh", || {
        // FWitness::new and commit make the strict pair of a witness
        let (k, s) = scheme(4);
        let w: Vec<Fr> = inps("w", 3);
        let x: Vec<Fr> = inps("x", 2);
        let fw = FWitness::new(&w, 2);
        let fi = fw.commit(&k, &x);
        check(fw.w == w && fw.e.len() == 2 && fw.e.iter().all(|e| e.is_zero()), "a fresh witness has no errors");
        check(fi.u.is_one() && fi.x == x, "a fresh instance is strict");
        check((fi.com_w == com(s, &w)) & (fi.com_e == com(s, &fw.e)), "a fresh instance commits to its witness");
        let mut r = r1cs(2, 3, 2);
        let z = z_of(&w, &x, Fr::one());
        // choose one coefficient of C so that the first constraint holds
        let d: Fr = inp("d");
        for i in 0..2 {
            r.matrix_c[i][5] = Fr::zero();
            r.matrix_c[i][5] = dot(&r.matrix_a[i], &z) * dot(&r.matrix_b[i], &z) - dot(&r.matrix_c[i], &z);
        }
        r.matrix_c[1][5] += d;
        check(sat(&r, &fi, &fw, &k) == d.is_zero(), "a strict pair is accepted exactly when A z * B z = C z");
    });
}

fn folding(s: &mut Suite) {
    s.prop("N02");
    for (m, w, x) in SIZES {
        s.add(format!("fold-m{m}-w{w}-x{x}"), move || {
            let (k, s) = scheme(10);
            let r = r1cs(m, w, x);
            let ((w1, i1), (w2, i2)) = (pair("p", &r, s), pair("q", &r, s));
            let mut t = Tr::default();
            if let Some((fw, fi, ct, c)) = completes("folding", || N::prover(&r, &w1, &w2, &i1, &i2, &k, &mut t)) {
                check(sat(&r, &fi, &fw, &k), "folding two satisfied pairs gives a satisfied pair");
                check(same_instance(&N::verifier(c, &i1, &i2, &ct), &fi), "the verifier folds to the prover's instance");
                let ok = fi.x.iter().zip(i1.x.iter().zip(&i2.x)).fold(true, |t, (f, (a, b))| t & (*f == *a + c * b));
                check(ok & (fi.u == i1.u + c * i2.u), "public values and u are combined with the challenge");
                let ok = fw.w.iter().zip(w1.w.iter().zip(&w2.w)).fold(true, |t, (f, (a, b))| t & (*f == *a + c * b));
                check(ok && fw.w.len() == w, "witnesses are combined with the challenge");
            }
        })
        .max_depth = if m > 4 { 0 } else { 2 };
    }
    s.add("again", || {
        // a folded pair can be folded on either side
        let (k, s) = scheme(4);
        let r = r1cs(2, 2, 1);
        let (p, q, o) = (pair("p", &r, s), pair("q", &r, s), pair("o", &r, s));
        let (fw, fi, _, _) = N::prover(&r, &p.0, &q.0, &p.1, &q.1, &k, &mut Tr::default());
        let (gw, gi, _, _) = N::prover(&r, &o.0, &fw, &o.1, &fi, &k, &mut Tr::default());
        check(sat(&r, &gi, &gw, &k), "folding a folded pair gives a satisfied pair");
        let (hw, hi, _, _) = N::prover(&r, &fw, &o.0, &fi, &o.1, &k, &mut Tr::default());
        check(sat(&r, &hi, &hw, &k), "folding a folded pair gives a satisfied pair");
    })
    .max_depth = 1;
    for (m, w, x) in [(1, 3, 1), (3, 1, 2), (4, 2, 1), (2, 4, 1), (2, 2, 1)] {
        s.add(format!("trivial-m{m}-w{w}-x{x}"), move || {
            let (k, s) = scheme(4);
            let r = r1cs(m, w, x);
            let (fw, fi) = pair("p", &r, s);
            let (tw, ti) = create_trivial_pair(x, w, &k);
            for side in 0..2 {
                let a = completes("folding with the trivial pair", || {
                    if side == 0 {
                        N::prover(&r, &fw, &tw, &fi, &ti, &k, &mut Tr::default())
                    } else {
                        N::prover(&r, &tw, &fw, &ti, &fi, &k, &mut Tr::default())
                    }
                });
                if let Some((gw, gi, _, _)) = a {
                    check(sat(&r, &gi, &gw, &k), "folding with the trivial pair gives a satisfied pair");
                }
            }
        });
    }
    s.add("given", || {
        // the parts of folding at any challenge
        let (_, s) = scheme(4);
        let r = r1cs(2, 2, 1);
        let ((w1, i1), (w2, i2)) = (pair("p", &r, s), pair("q", &r, s));
        let c: Fr = inp("c");
        let t = N::compute_t(&r, i1.u, i2.u, &z_of(&w1.w, &i1.x, i1.u), &z_of(&w2.w, &i2.x, i2.u));
        let w3: Vec<Fr> = (0..2).map(|i| w1.w[i] + c * w2.w[i]).collect();
        let e3 = slack(&r, &w3, &[i1.x[0] + c * i2.x[0]], i1.u + c * i2.u);
        check(
            t.len() == 2 && (0..2).fold(true, |ok, i| ok & (w1.e[i] + c * t[i] + c * c * w2.e[i] == e3[i])),
            "the cross term makes up for the mixed products",
        );
        let t: Vec<Fr> = inps("t", 2);
        let fw = N::fold_witness(c, &w1, &w2, &t);
        check(
            fw.e.len() == 2 && (0..2).fold(true, |ok, i| ok & (fw.e[i] == w1.e[i] + c * t[i] + c * c * w2.e[i])),
            "errors are combined with the challenge and its square",
        );
        let fi = N::fold_instance(c, &i1, &i2, &com(s, &t));
        check((fi.com_e == com(s, &fw.e)) & (fi.com_w == com(s, &fw.w)), "folded commitments are those of the folded vectors");
    });
    s.deep("fold-m4-w4-x2", || {
        let (k, s) = scheme(5);
        let r = r1cs(4, 4, 2);
        let ((w1, i1), (w2, i2)) = (pair("p", &r, s), pair("q", &r, s));
        let (fw, fi, _, _) = N::prover(&r, &w1, &w2, &i1, &i2, &k, &mut Tr::default());
        check(sat(&r, &fi, &fw, &k), "folding two satisfied pairs gives a satisfied pair");
    });
}

fn soundness(s: &mut Suite) {
    s.prop("N03");
    for (m, w, x) in [(1, 1, 1), (2, 2, 1), (9, 10, 2)] {
        for row in 0..m {
            if ![0, 1, m - 1].contains(&row) {
                continue;
            }
            let depth = if m > 4 { 0 } else { 2 };
            s.add(format!("unsatisfied-m{m}-row{row}"), move || {
                // the pairs miss the constraints by d and e; folding must not repair that
                let (k, s) = scheme(10);
                let r = r1cs(m, w, x);
                let ((mut w1, mut i1), (mut w2, mut i2)) = (pair("p", &r, s), pair("q", &r, s));
                let (d, e): (Fr, Fr) = (inp("d"), inp("e"));
                w1.e[row] += d;
                w2.e[row] += e;
                i1.com_e = com(s, &w1.e);
                i2.com_e = com(s, &w2.e);
                let (fw, fi, _, _) = N::prover(&r, &w1, &w2, &i1, &i2, &k, &mut Tr::default());
                check(sat(&r, &fi, &fw, &k) == (d.is_zero() & e.is_zero()), "a folded pair is satisfied only if both pairs are");
            })
            .max_depth = depth;
            s.add(format!("cross-term-m{m}-row{row}"), move || {
                // the adversary chooses errors and cross term before the challenge
                let (k, s) = scheme(10);
                let r = r1cs(m, w, x);
                let ((mut w1, mut i1), (mut w2, mut i2)) = (pair("p", &r, s), pair("q", &r, s));
                let (d, e, f): (Fr, Fr, Fr) = (inp("d"), inp("e"), inp("f"));
                w1.e[row] += d;
                w2.e[row] += e;
                i1.com_e = com(s, &w1.e);
                i2.com_e = com(s, &w2.e);
                let mut t = N::compute_t(&r, i1.u, i2.u, &z_of(&w1.w, &i1.x, i1.u), &z_of(&w2.w, &i2.x, i2.u));
                t[row] += f;
                let c: Fr = sec("c");
                let fw = N::fold_witness(c, &w1, &w2, &t);
                let fi = N::fold_instance(c, &i1, &i2, &com(s, &t));
                check(
                    sat(&r, &fi, &fw, &k) == (d.is_zero() & e.is_zero() & f.is_zero()),
                    "no cross term makes an unsatisfied pair fold to a satisfied one",
                );
            })
            .max_depth = depth;
        }
    }
    for (m, w) in [(1, 1), (2, 2)] {
        for row in 0..m {
            s.add(format!("chosen-late-m{m}-row{row}"), move || {
                // the adversary chooses the cross term with every hash known that its commitment
                // does not enter, and answers with the challenge that the verifier accepts
                let (k, s) = scheme(4);
                let r = r1cs(m, w, 1);
                let ((mut w1, mut i1), (mut w2, mut i2)) = (pair("p", &r, s), pair("q", &r, s));
                let (d, e): (Fr, Fr) = (inp("d"), inp("e"));
                w1.e[row] += d;
                w2.e[row] += e;
                i1.com_e = com(s, &w1.e);
                i2.com_e = com(s, &w2.e);
                let mut t = N::compute_t(&r, i1.u, i2.u, &z_of(&w1.w, &i1.x, i1.u), &z_of(&w2.w, &i2.x, i2.u));
                t[row] += adv::<Fr>("f");
                let (c, ct): (Fr, _) = (adv("c"), com(s, &t));
                if !accepts(|| N::verify_challenge(c, &i1, &i2, &ct, &mut Tr::default()).is_ok()) {
                    return check(true, "the challenge is refused");
                }
                let fw = N::fold_witness(c, &w1, &w2, &t);
                let fi = N::fold_instance(c, &i1, &i2, &ct);
                check(!sat(&r, &fi, &fw, &k) | (d.is_zero() & e.is_zero()), "no accepted challenge makes an unsatisfied pair fold to a satisfied one");
            });
        }
    }
    for part in ["com_e", "com_w"] {
        s.add(format!("commitment-{part}"), move || {
            let (k, s) = scheme(4);
            let r = r1cs(2, 2, 1);
            let ((w1, i1), (w2, i2)) = (pair("p", &r, s), pair("q", &r, s));
            let (d, e): (Fr, Fr) = (inp("d"), inp("e"));
            let (i1, i2) = (alter(&i1, part, d), alter(&i2, part, e));
            let (fw, fi, _, _) = N::prover(&r, &w1, &w2, &i1, &i2, &k, &mut Tr::default());
            check(sat(&r, &fi, &fw, &k) == (d.is_zero() & e.is_zero()), "wrong commitments stay wrong when folded");
        });
    }
    s.add("public", || {
        // pairs that are satisfied for other public values
        let (k, s) = scheme(4);
        let r = r1cs(1, 1, 1);
        let ((w1, mut i1), (w2, mut i2)) = (pair("p", &r, s), pair("q", &r, s));
        let (d, e): (Fr, Fr) = (inp("d"), inp("e"));
        i1.x[0] += d;
        i2.u += e;
        let good = sat(&r, &i1, &w1, &k) & sat(&r, &i2, &w2, &k);
        let (fw, fi, _, _) = N::prover(&r, &w1, &w2, &i1, &i2, &k, &mut Tr::default());
        check(sat(&r, &fi, &fw, &k) == good, "a folded pair is satisfied exactly when both pairs are");
    });
}

struct Folded {
    k: KzgScheme,
    i1: FInstance,
    i2: FInstance,
    fi: FInstance,
    ct: KzgCommitment,
    p: NIFSProof,
}
/// an honest proof of a folding
fn folded() -> Folded {
    let (k, s) = scheme(4);
    let r = r1cs(2, 2, 1);
    let ((w1, i1), (w2, i2)) = (pair("p", &r, s), pair("q", &r, s));
    let mut t = Tr::default();
    let (fw, fi, ct, c) = N::prover(&r, &w1, &w2, &i1, &i2, &k, &mut t);
    let p = N::prove(c, &fw, &fi, &k, &mut t);
    Folded { k, i1, i2, fi, ct, p }
}
fn nifs_ok(f: &Folded) -> bool {
    accepts(|| N::verify(&f.p, &f.i1, &f.i2, &f.fi, &f.ct, &f.k, &mut Tr::default()).is_ok())
}

fn proofs(s: &mut Suite) {
    s.prop("N04");
    s.add("honest", || {
        let f = folded();
        check(
            completes("verification", || N::verify(&f.p, &f.i1, &f.i2, &f.fi, &f.ct, &f.k, &mut Tr::default()).is_ok()) == Some(true),
            "an honest folding proof is accepted",
        );
        let g = N::verifier(f.p.r, &f.i1, &f.i2, &f.ct);
        check(nifs_ok(&Folded { fi: g, ..f }), "an honest folding proof is accepted for the verifier's instance");
    });
    for (m, w, x) in [(1, 1, 1), (1, 3, 1), (3, 1, 2)] {
        s.add(format!("honest-trivial-m{m}-w{w}-x{x}"), move || {
            let (k, s) = scheme(4);
            let r = r1cs(m, w, x);
            let (w1, i1) = pair("p", &r, s);
            let (w2, i2) = create_trivial_pair(x, w, &k);
            let mut t = Tr::default();
            let (fw, fi, ct, c) = N::prover(&r, &w1, &w2, &i1, &i2, &k, &mut t);
            let p = N::prove(c, &fw, &fi, &k, &mut t);
            check(nifs_ok(&Folded { k, i1, i2, fi, ct, p }), "an honest folding proof is accepted");
        });
    }
    for part in ["r", "point", "e-eval", "w-eval", "e-witness", "w-witness", "e-both", "w-both", "com_t"] {
        s.add(format!("proof-{part}"), move || {
            let mut f = folded();
            let (d, e): (Fr, Fr) = (adv("d"), if part.ends_with("both") { adv("e") } else { Fr::zero() });
            let wit = |p: &mut kzg::types::G1Point, d: Fr| *p = (*p + g1(d)).into_affine();
            match part {
                "r" => f.p.r += d,
                "point" => f.p.opening_point += d,
                "e-eval" | "e-both" => f.p.opening_e.1 += d,
                "w-eval" | "w-both" => f.p.opening_w.1 += d,
                "e-witness" => wit(&mut f.p.opening_e.0, d),
                "w-witness" => wit(&mut f.p.opening_w.0, d),
                _ => f.ct = shift(&f.ct, d),
            }
            match part {
                "e-both" => wit(&mut f.p.opening_e.0, e),
                "w-both" => wit(&mut f.p.opening_w.0, e),
                _ => {}
            }
            check(nifs_ok(&f) == (d.is_zero() & e.is_zero()), "an altered folding proof is rejected");
        });
    }
    for part in PARTS {
        s.add(format!("instance-{part}"), move || {
            let mut f = folded();
            let (d, e): (Fr, Fr) = (inp("d"), inp("e"));
            f.i1 = alter(&f.i1, part, d);
            f.i2 = alter(&f.i2, part, e);
            check(nifs_ok(&f) == (d.is_zero() & e.is_zero()), "a folding proof is rejected for other instances");
        });
        if part.starts_with("com") {
            s.add(format!("folded-{part}"), move || {
                let mut f = folded();
                let d: Fr = inp("d");
                f.fi = alter(&f.fi, part, d);
                check(nifs_ok(&f) == d.is_zero(), "a folding proof is rejected for another folded commitment");
            });
        }
    }
    s.add("swapped", || {
        let mut f = folded();
        let same = same_instance(&f.i1, &f.i2);
        std::mem::swap(&mut f.i1, &mut f.i2);
        check(nifs_ok(&f) == same, "the two instances cannot be exchanged");
        std::mem::swap(&mut f.i1, &mut f.i2);
        let (e, w) = (&f.p.opening_e, &f.p.opening_w);
        let same = (f.fi.com_e == f.fi.com_w) & (e.0 == w.0) & (e.1 == w.1);
        std::mem::swap(&mut f.p.opening_e, &mut f.p.opening_w);
        check(nifs_ok(&f) == same, "the two openings cannot be exchanged");
    });
    s.add("forged", || {
        // an adversary without witness: accepted only for values of the committed vectors
        let (k, s) = scheme(4);
        let (i1, i2) = (free_instance("p", 1), free_instance("q", 1));
        let ct = KzgCommitment(g1(inp("t")));
        let mut t = Tr::default();
        t.feed_instance(&i1);
        t.feed_instance(&i2);
        t.feed(&ct);
        let [r] = t.generate_challenges::<1>();
        // folded commitments that the adversary knows as polynomials a0 + a1 s
        let (a, b): (Vec<Fr>, Vec<Fr>) = (inps("a", 2), inps("b", 2));
        let fi = FInstance {
            com_e: com(s, &a),
            u: inp("fu"),
            com_w: com(s, &b),
            x: vec![inp("fx")],
        };
        t.feed(&fi.com_e);
        t.feed(&fi.com_w);
        let [z] = t.generate_challenges::<1>();
        let (v, w): (Fr, Fr) = (adv("v"), adv("w"));
        let (p, q): (Vec<Fr>, Vec<Fr>) = (advs("p", 2), advs("q", 2));
        let proof = NIFSProof {
            r,
            opening_point: z,
            opening_e: kzg::opening::KzgOpening(com(s, &p).0, v),
            opening_w: kzg::opening::KzgOpening(com(s, &q).0, w),
        };
        let ok = nifs_ok(&Folded { k, i1, i2, fi, ct, p: proof });
        if ok {
            check((v == horner(&a, z)) & (w == horner(&b, z)), "accepted openings are the committed vectors' values");
        } else {
            check(true, "rejected");
        }
    });
    s.add("exact", || {
        // nothing but challenges and openings decides
        let (k, s) = scheme(4);
        let (i1, i2) = (free_instance("p", 1), free_instance("q", 2));
        let ct = KzgCommitment(g1(inp("t")));
        let fi = free_instance("f", 1);
        let (fe, fw): (Fr, Fr) = (inp("fe"), inp("fw"));
        let mut t = Tr::default();
        t.feed_instance(&i1);
        t.feed_instance(&i2);
        t.feed(&ct);
        let [r] = t.generate_challenges::<1>();
        t.feed(&fi.com_e);
        t.feed(&fi.com_w);
        let [z] = t.generate_challenges::<1>();
        let (ve, vw): (Fr, Fr) = (inp("ve"), inp("vw"));
        let d: Vec<Fr> = advs("d", 4);
        let open = |c: Fr, v: Fr, d: Fr| kzg::opening::KzgOpening(g1((c - v) / (s - z) + d), v);
        let p = NIFSProof {
            r: r + d[0],
            opening_point: z + d[1],
            opening_e: open(fe, ve, d[2]),
            opening_w: open(fw, vw, d[3]),
        };
        let mut all = true;
        for x in &d {
            all &= x.is_zero();
        }
        check(nifs_ok(&Folded { k, i1, i2, fi, ct, p }) == all, "a folding proof is accepted exactly when challenges and openings fit");
    })
    .max_depth = 2;
    s.add("hash", || {
        let f = folded();
        let r = accepts(|| NIFS::<Sha512>::verify(&f.p, &f.i1, &f.i2, &f.fi, &f.ct, &f.k, &mut Transcript::<Sha512>::default()).is_ok());
        check(!r, "a folding proof is bound to its hash");
    });
}

fn challenges(s: &mut Suite) {
    s.prop("N05");
    fn challenge(i1: &FInstance, i2: &FInstance, ct: &KzgCommitment, r: Fr) -> bool {
        accepts(|| N::verify_challenge(r, i1, i2, ct, &mut Tr::default()).is_ok())
    }
    for side in 1..3 {
        for part in PARTS {
            s.add(format!("verifier-{part}{side}"), move || {
                let f = folded();
                check(challenge(&f.i1, &f.i2, &f.ct, f.p.r), "the verifier derives the prover's challenge");
                let d: Fr = inp("d");
                let (mut i1, mut i2) = (f.i1.clone(), f.i2.clone());
                if side == 1 {
                    i1 = alter(&i1, part, d);
                } else {
                    i2 = alter(&i2, part, d);
                }
                check(challenge(&i1, &i2, &f.ct, f.p.r) == d.is_zero(), "the folding challenge binds every part of both instances");
            });
        }
    }
    s.add("cross-term", || {
        let f = folded();
        let d: Fr = inp("d");
        check(challenge(&f.i1, &f.i2, &shift(&f.ct, d), f.p.r) == d.is_zero(), "the folding challenge binds the cross term");
    });
    s.add("given", || {
        let f = folded();
        let d: Fr = adv("d");
        check(challenge(&f.i1, &f.i2, &f.ct, f.p.r + d) == d.is_zero(), "no other challenge is accepted");
    });
    s.add("order", || {
        let f = folded();
        check(challenge(&f.i2, &f.i1, &f.ct, f.p.r) == same_instance(&f.i1, &f.i2), "the instances cannot be exchanged");
    });
    s.add("public-lists", || {
        // several public values: each is bound
        let (i1, i2) = (free_instance("p", 3), free_instance("q", 3));
        let ct = KzgCommitment(g1(inp("t")));
        let mut t = Tr::default();
        t.feed_instance(&i1);
        t.feed_instance(&i2);
        t.feed(&ct);
        let [r] = t.generate_challenges::<1>();
        check(challenge(&i1, &i2, &ct, r), "the verifier derives the challenge");
        for j in 0..3 {
            let d: Fr = inp(format!("d{j}"));
            for side in 0..2 {
                let (mut a, mut b) = (i1.clone(), i2.clone());
                if side == 0 {
                    a.x[j] += d;
                } else {
                    b.x[j] += d;
                }
                check(challenge(&a, &b, &ct, r) == d.is_zero(), "the folding challenge binds every public value");
            }
        }
        let (mut a, mut b) = (i1.clone(), i2.clone());
        let x = a.x.pop().unwrap();
        check(!challenge(&a, &b, &ct, r), "the folding challenge binds the number of public values");
        b.x.insert(0, x);
        check(!challenge(&a, &b, &ct, r), "public values cannot move between instances");
    });
    s.add("prover", || {
        // the prover's challenge and point are the transcript's
        let f = folded();
        let mut t = Tr::default();
        t.feed_instance(&f.i1);
        t.feed_instance(&f.i2);
        t.feed(&f.ct);
        let [r] = t.generate_challenges::<1>();
        check(r == f.p.r, "the prover folds with the transcript's challenge");
        t.feed(&f.fi.com_e);
        t.feed(&f.fi.com_w);
        let [z] = t.generate_challenges::<1>();
        check(z == f.p.opening_point, "the prover opens at the transcript's point");
    });
    for part in ["com_e", "com_w"] {
        s.add(format!("point-{part}"), move || {
            // the opening point is bound to the folded commitments and to all before
            let f = folded();
            let d: Fr = inp("d");
            let run = |i1: &FInstance, fi: &FInstance| {
                let mut t = Tr::default();
                t.feed_instance(i1);
                t.feed_instance(&f.i2);
                t.feed(&f.ct);
                let [_] = t.generate_challenges::<1>();
                accepts(|| N::verify_opening(&f.p, fi, &f.k, &mut t).is_ok())
            };
            check(run(&f.i1, &f.fi), "an honest opening is accepted");
            check(run(&alter(&f.i1, part, d), &f.fi) == d.is_zero(), "the opening point depends on the whole transcript");
            check(run(&f.i1, &alter(&f.fi, part, d)) == d.is_zero(), "the opening point binds the folded commitments");
        });
    }
    s.add("folded-history", || {
        // a transcript that has seen something else gives other challenges
        let f = folded();
        let d: Fr = inp("d");
        let mut t = Tr::default();
        t.feed_scalar_num(d);
        let r = accepts(|| N::verify_challenge(f.p.r, &f.i1, &f.i2, &f.ct, &mut t).is_ok());
        check(!r, "the challenge depends on what the transcript has seen before");
    });
}

struct Step;
fn to_fq(x: Fr) -> Fq {
    Fq::from_le_bytes_mod_order(&x.into_bigint().to_bytes_le())
}
fn to_fr(x: Fq) -> Fr {
    Fr::from_le_bytes_mod_order(&x.into_bigint().to_bytes_le())
}
fn step(z: Fq, w: Fr) -> Fq {
    z * z + to_fq(w)
}
impl FCircuit for Step {
    fn run(&self, z: &State, w: &FWitness) -> State {
        State { state: step(z.state, w.w[0]) }
    }
}
type Aug = AugmentedCircuit<Sha256, Step>;
fn st(x: Fq) -> State {
    State { state: x }
}
fn hash(i: Fq, z0: Fq, z: Fq, u: &FInstance) -> Fq {
    Aug::hash_io(i, &st(z0), &st(z), u)
}

/// what a step of the circuit is given
#[derive(Clone)]
struct Ctx {
    i: Fq,
    z0: Fq,
    z: Fq,
    h: Option<Fq>,
    trivial: FInstance,
    u: FInstance,
    big: Option<FInstance>,
    w: FWitness,
    ct: Option<KzgCommitment>,
}
fn ctx(xs: usize) -> (Ctx, KzgScheme) {
    let (k, _) = scheme(4);
    let (_, trivial) = create_trivial_pair(xs, 2, &k);
    let (i, z0, z): (Fq, Fq, Fq) = (inp("i"), inp("z0"), inp("z"));
    assume_ne(&i, &Fq::zero());
    let big = free_instance("U", xs);
    let h = hash(i, z0, z, &big);
    let mut u = free_instance("u", xs);
    u.com_e = trivial.com_e.clone();
    u.u = Fr::one();
    u.x[0] = to_fr(h);
    let w = FWitness { e: vec![], w: inps("w", 2) };
    let ct = KzgCommitment(g1(inp("t")));
    (Ctx { i, z0, z, h: Some(h), trivial, u, big: Some(big), w, ct: Some(ct) }, k)
}
fn aug(c: &Ctx) -> Aug {
    let mut a = Aug::new(Step, &c.trivial, &st(c.z0));
    a.i = c.i;
    a.z_i = st(c.z);
    a.h_i = c.h;
    a
}
fn run(c: &Ctx) -> (Option<Fq>, Aug) {
    let mut a = aug(c);
    let r = attempt(|| a.run(&c.u, c.big.as_ref(), &c.w, c.ct.as_ref()));
    (r.and_then(|r| r.ok()), a)
}

fn circuit(s: &mut Suite) {
    s.prop("N06");
    s.add("base", || {
        let (k, _) = scheme(4);
        let (_, trivial) = create_trivial_pair(1, 2, &k);
        let z0: Fq = inp("z0");
        let u = free_instance("u", 1);
        let w = FWitness { e: vec![], w: inps("w", 2) };
        let mut a = Aug::new(Step, &trivial, &st(z0));
        check(a.i.is_zero() && a.z_i.state == z0 && a.z_0.state == z0 && a.h_i.is_none() && a.h_i1.is_none() && a.z_i1.is_none(), "a new circuit is at the initial state");
        let r = completes("the first step", || a.run(&u, None, &w, None));
        let z1 = step(z0, w.w[0]);
        let want = hash(Fq::one(), z0, z1, &trivial);
        check(matches!(r, Some(Ok(h)) if h == want), "the first step yields the hash of the trivial instance and F's result");
        check(a.i.is_zero() && a.z_i.state == z0, "running does not advance the circuit");
        a.next_step();
        check(a.i.is_one() && a.z_i.state == z1 && a.h_i == Some(want), "the circuit advances by one step");
        check(a.z_0.state == z0 && a.z_i1.is_none() && a.h_i1.is_none(), "the initial state is kept");
    });
    for xs in [1, 2] {
        s.add(format!("step-x{xs}"), move || {
            let (c, _) = ctx(xs);
            let mut t = Tr::default();
            let big = c.big.clone().unwrap();
            t.feed_instance(&c.u);
            t.feed_instance(&big);
            t.feed(c.ct.as_ref().unwrap());
            let [r] = t.generate_challenges::<1>();
            let next = FInstance {
                com_e: KzgCommitment((c.u.com_e.0 + c.ct.as_ref().unwrap().0 * r + big.com_e.0 * (r * r)).into_affine()),
                u: c.u.u + r * big.u,
                com_w: KzgCommitment((c.u.com_w.0 + big.com_w.0 * r).into_affine()),
                x: c.u.x.iter().zip(&big.x).map(|(a, b)| *a + r * b).collect(),
            };
            let (res, mut a) = run(&c);
            let z1 = step(c.z, c.w.w[0]);
            let want = hash(c.i + Fq::one(), c.z0, z1, &next);
            check(res == Some(want), "a step yields the hash of the next counter, state and folded instance");
            check(a.i == c.i && a.z_i.state == c.z && a.h_i == c.h, "running does not advance the circuit");
            if res.is_some() {
                a.next_step();
                check(a.i == c.i + Fq::one() && a.z_i.state == z1 && a.h_i == res, "the circuit advances by one step");
                check(a.z_0.state == c.z0 && a.z_i1.is_none() && a.h_i1.is_none(), "the initial state is kept");
            }
        });
    }
    s.add("prover", || {
        // the circuit folds as the folding prover does
        let (k, s) = scheme(4);
        let r = r1cs(2, 2, 1);
        let (bw, big) = pair("U", &r, s);
        let (i, z0, z): (Fq, Fq, Fq) = (inp("i"), inp("z0"), inp("z"));
        assume_ne(&i, &Fq::zero());
        let h = hash(i, z0, z, &big);
        let w = FWitness::new(&inps("w", 2), 2);
        let u = w.commit(&k, &[to_fr(h)]);
        let (_, fi, ct, _) = N::prover(&r, &w, &bw, &u, &big, &k, &mut Tr::default());
        let (_, trivial) = create_trivial_pair(1, 2, &k);
        let c = Ctx { i, z0, z, h: Some(h), trivial, u, big: Some(big), w, ct: Some(ct) };
        let (res, _) = run(&c);
        check(res == Some(hash(i + Fq::one(), z0, step(z, c.w.w[0]), &fi)), "the circuit folds to the prover's instance");
    });
    for part in ["u.x", "u.com_e", "u.u", "h", "h+x", "i", "z0", "z", "U.com_e", "U.u", "U.com_w", "U.x"] {
        s.add(format!("reject-{part}"), move || {
            let (mut c, _) = ctx(1);
            let d: Fr = inp("d");
            let dq: Fq = inp("dq");
            let mut same = d.is_zero();
            match part {
                "u.x" => c.u.x[0] += d,
                "u.com_e" => c.u.com_e = shift(&c.u.com_e, d),
                "u.u" => c.u.u += d,
                _ if part.starts_with("U.") => c.big = Some(alter(c.big.as_ref().unwrap(), &part[2..], d)),
                _ => {
                    same = dq.is_zero();
                    match part {
                        "h" => c.h = Some(c.h.unwrap() + dq),
                        "h+x" => {
                            c.h = Some(c.h.unwrap() + dq);
                            c.u.x[0] = to_fr(c.h.unwrap());
                        }
                        "i" => c.i += dq,
                        "z0" => c.z0 += dq,
                        _ => c.z += dq,
                    }
                    if part == "i" {
                        assume_ne(&c.i, &Fq::zero());
                    }
                }
            }
            let (r, a) = run(&c);
            check(r.is_some() == same, "a step is refused unless all it is given fits the public hash");
            if r.is_none() {
                check(a.h_i1.is_none() && a.z_i1.is_none(), "a refused step yields nothing");
            }
        });
    }
    for part in ["U", "T", "h"] {
        s.add(format!("missing-{part}"), move || {
            let (mut c, _) = ctx(1);
            match part {
                "U" => c.big = None,
                "T" => c.ct = None,
                _ => c.h = None,
            }
            let mut a = aug(&c);
            let r = completes("a step without its inputs", || a.run(&c.u, c.big.as_ref(), &c.w, c.ct.as_ref()).is_err());
            check(r != Some(false), "a step without its inputs is refused");
            check(a.h_i1.is_none() && a.z_i1.is_none(), "a refused step yields nothing");
        });
    }
    for part in ["t", "w", "com_w"] {
        s.add(format!("depends-{part}"), move || {
            let (c, _) = ctx(1);
            let mut b = c.clone();
            let d: Fr = inp("d");
            match part {
                "t" => b.ct = Some(shift(c.ct.as_ref().unwrap(), d)),
                "w" => b.w.w[0] += d,
                _ => b.u.com_w = shift(&c.u.com_w, d),
            }
            let ((p, _), (q, _)) = (run(&c), run(&b));
            check(p.is_some() && (p == q) == d.is_zero(), "the hash a step yields depends on all it folds and computes");
        });
    }
}

/// w0^2 = w1, w1 w0 = w2
fn cubes() -> R1CS<Fr> {
    let (o, l) = (Fr::zero(), Fr::one());
    R1CS {
        matrix_a: vec![vec![l, o, o, o, o], vec![o, l, o, o, o]],
        matrix_b: vec![vec![l, o, o, o, o], vec![l, o, o, o, o]],
        matrix_c: vec![vec![o, l, o, o, o], vec![o, o, l, o, o]],
        num_io: 1,
        num_vars: 3,
    }
}
struct Chain {
    r: R1CS<Fr>,
    ivc: IVC<Sha256, Step>,
    z0: Fq,
    states: Vec<Fq>,
    /// running pair
    big: (FWitness, FInstance),
    big_before: Option<FInstance>,
    fw_before: Option<FWitness>,
    /// last proof and the instance made of it
    proof: Option<ZkIVCProof>,
    zk_next: Option<(FWitness, FInstance, KzgCommitment)>,
    n: usize,
    wrong: Option<Fr>,
}
fn chain() -> Chain {
    let (k, _) = scheme(4);
    let z0: Fq = inp("z0");
    let (tw, ti) = create_trivial_pair(1, 3, &k);
    let a = Aug::new(Step, &ti, &st(z0));
    Chain {
        r: cubes(),
        ivc: IVC { scheme: k, augmented_circuit: a },
        z0,
        states: vec![z0],
        big: (tw, ti),
        big_before: None,
        fw_before: None,
        proof: None,
        zk_next: None,
        n: 0,
        wrong: None,
    }
}
impl Chain {
    fn witness(&self, n: usize) -> FWitness {
        let v: Fr = inp(format!("v{n}"));
        let mut w = FWitness::new(&[v, v * v, v * v * v], 2);
        if let Some(d) = self.wrong {
            w.w[1] += d;
        }
        w
    }
    /// prove that the state after n steps is right, then run the next step
    fn next(&mut self) {
        let c = &mut self.ivc.augmented_circuit;
        if self.n == 0 {
            let w = FWitness::new(&[inp("v0"), Fr::zero(), Fr::zero()], 2);
            let u = w.commit(&self.ivc.scheme, &[inp("x0")]);
            let z = step(c.z_i.state, w.w[0]);
            check(c.run(&u, None, &w, None).is_ok(), "the first step runs");
            self.ivc.augmented_circuit.next_step();
            self.states.push(z);
        } else {
            let (w, u, ct) = self.zk_next.take().unwrap();
            let old = self.big_before.take().unwrap();
            let z = step(c.z_i.state, w.w[0]);
            check(c.run(&u, Some(&old), &w, Some(&ct)).is_ok(), "an honest step runs");
            self.ivc.augmented_circuit.next_step();
            self.states.push(z);
        }
        self.n += 1;
        let w = self.witness(self.n);
        let c = &self.ivc.augmented_circuit;
        let h = Aug::hash_io(c.i, &c.z_0, &c.z_i, &self.big.1);
        let u = w.commit(&self.ivc.scheme, &[to_fr(h)]);
        let p = IVCProof::new(&u, &w, &self.big.1, &self.big.0);
        let (fw, fi, zk) = self.ivc.prove(&self.r, &p, &mut Tr::default());
        self.big_before = Some(self.big.1.clone());
        self.fw_before = Some(self.big.0.clone());
        self.zk_next = Some((w, u, zk.com_t.clone().unwrap()));
        self.big = (fw, fi);
        self.proof = Some(zk);
    }
    fn steps(mut self, n: usize) -> Self {
        for _ in 0..n {
            self.next();
        }
        self
    }
    fn accepted(&mut self, p: &ZkIVCProof) -> bool {
        accepts(|| self.ivc.verify(p, &mut Tr::default()).is_ok())
    }
}

fn copy(p: &ZkIVCProof) -> ZkIVCProof {
    ZkIVCProof {
        u_i: p.u_i.clone(),
        big_u_i: p.big_u_i.clone(),
        com_t: p.com_t.clone(),
        folded_u_proof: p.folded_u_proof.clone(),
    }
}

fn ivc(s: &mut Suite) {
    s.prop("N07");
    fn complete(n: usize) {
        let mut c = chain();
        for i in 1..=n {
            c.next();
            let p = copy(c.proof.as_ref().unwrap());
            let ok = completes("verification", || c.ivc.verify(&p, &mut Tr::default()).is_ok());
            check(ok == Some(true), "the proof of every step is accepted");
            check(sat(&c.r, &c.big.1, &c.big.0, &c.ivc.scheme), "the running pair is satisfied");
            let a = &c.ivc.augmented_circuit;
            check(a.i == Fq::from(i as u64) && a.z_0.state == c.z0, "the circuit counts its steps");
            let z = (0..i).fold(c.z0, |z, j| step(z, inp(format!("v{j}"))));
            check(a.z_i.state == z, "the state is F applied step by step");
        }
    }
    for n in 1..7 {
        s.add(format!("complete{n}"), move || complete(n)).max_depth = 1;
    }
    s.deep("complete9", || complete(9)).max_depth = 1;
    s.add("start", || {
        let mut c = chain();
        let p = ZkIVCProof::trivial_zk_ivc_proof(&c.big.1);
        check(c.accepted(&p), "the initial state needs no proof");
        let q = IVCProof::trivial_ivc_proof(&c.big.1, &c.big.0);
        let (w, i, p) = c.ivc.prove(&c.r, &q, &mut Tr::default());
        check(c.accepted(&p) && p.com_t.is_none() && p.folded_u_proof.is_none(), "the initial state needs no proof");
        check(same_instance(&i, &c.big.1) && w.w == c.big.0.w && w.e == c.big.0.e, "nothing is folded at the initial state");
        let d: Fq = inp("d");
        c.ivc.augmented_circuit.z_i.state += d;
        check(c.accepted(&p) == d.is_zero(), "no other state is accepted without steps");
    });
    for n in [1, 2] {
        for part in ["i", "z0", "z"] {
            s.add(format!("verifier{n}-{part}"), move || {
                // a proof is for one state, start and number of steps only
                let mut c = chain().steps(n);
                let p = copy(c.proof.as_ref().unwrap());
                let d: Fq = inp("d");
                let a = &mut c.ivc.augmented_circuit;
                match part {
                    "i" => {
                        a.i += d;
                        assume_ne(&a.i, &Fq::zero());
                    }
                    "z0" => a.z_0.state += d,
                    _ => a.z_i.state += d,
                }
                check(c.accepted(&p) == d.is_zero(), "a proof is rejected for another state, start or number of steps");
            })
            .max_depth = 1;
        }
        for part in PARTS {
            for which in ["u", "U"] {
                s.add(format!("proof{n}-{which}.{part}"), move || {
                    let mut c = chain().steps(n);
                    let mut p = copy(c.proof.as_ref().unwrap());
                    let d: Fr = inp("d");
                    if which == "u" {
                        p.u_i = alter(&p.u_i, part, d);
                    } else {
                        p.big_u_i = alter(&p.big_u_i, part, d);
                    }
                    check(c.accepted(&p) == d.is_zero(), "an altered proof is rejected");
                })
                .max_depth = 1;
            }
        }
        for part in ["t", "r", "point", "e-eval", "w-eval", "e-witness", "w-witness"] {
            s.add(format!("proof{n}-{part}"), move || {
                let mut c = chain().steps(n);
                let mut p = copy(c.proof.as_ref().unwrap());
                let d: Fr = adv("d");
                let f = p.folded_u_proof.as_mut().unwrap();
                match part {
                    "t" => p.com_t = Some(shift(p.com_t.as_ref().unwrap(), d)),
                    "r" => f.r += d,
                    "point" => f.opening_point += d,
                    "e-eval" => f.opening_e.1 += d,
                    "w-eval" => f.opening_w.1 += d,
                    "e-witness" => f.opening_e.0 = (f.opening_e.0 + g1(d)).into_affine(),
                    _ => f.opening_w.0 = (f.opening_w.0 + g1(d)).into_affine(),
                }
                check(c.accepted(&p) == d.is_zero(), "an altered proof is rejected");
            })
            .max_depth = 1;
        }
    }
    for part in ["com_e", "u", "com_w"] {
        s.add(format!("rehashed-{part}"), move || {
            // the running instance altered together with the public hash of it
            let mut c = chain().steps(2);
            let mut p = copy(c.proof.as_ref().unwrap());
            let d: Fr = inp("d");
            p.big_u_i = alter(&p.big_u_i, part, d);
            let a = &c.ivc.augmented_circuit;
            p.u_i.x[0] = to_fr(Aug::hash_io(a.i, &a.z_0, &a.z_i, &p.big_u_i));
            check(c.accepted(&p) == d.is_zero(), "an altered proof is rejected");
        })
        .max_depth = 1;
    }
    for n in [1, 2] {
        for part in ["u", "com_e", "x", "count", "start", "state", "running", "r", "point"] {
            s.add(format!("forged{n}-{part}"), move || {
                // a proof made anew for a step that differs in one respect
                let mut c = chain().steps(n);
                let old = c.big_before.clone().unwrap();
                let (mut w, mut u, _) = c.zk_next.clone().unwrap();
                let d: Fr = inp("d");
                let q: Fq = inp("q");
                let a = &c.ivc.augmented_circuit;
                let rehash = |i, z0, z, b: &FInstance| vec![to_fr(Aug::hash_io(i, &st(z0), &st(z), b))];
                let (i, z0, z) = (a.i, a.z_0.state, a.z_i.state);
                let mut same = d.is_zero();
                match part {
                    "u" => u.u += d,
                    "com_e" => {
                        w.e[0] += d;
                        u.com_e = c.ivc.scheme.commit_vector(&w.e);
                    }
                    "x" => u.x[0] += d,
                    "running" => u.x = rehash(i, z0, z, &alter(&old, "u", d)),
                    "r" | "point" => {}
                    _ => {
                        same = q.is_zero();
                        u.x = match part {
                            "count" => rehash(i + q, z0, z, &old),
                            "start" => rehash(i, z0 + q, z, &old),
                            _ => rehash(i, z0, z + q, &old),
                        };
                    }
                }
                let k = &c.ivc.scheme;
                let fw_old = c.fw_before.clone().unwrap();
                let mut t = Tr::default();
                let (_, _, ct, r) = N::prover(&c.r, &w, &fw_old, &u, &old, k, &mut t);
                let r = if part == "r" { r + d } else { r };
                let (z1, z2) = (z_of(&w.w, &u.x, u.u), z_of(&fw_old.w, &old.x, old.u));
                let tv = N::compute_t(&c.r, u.u, old.u, &z1, &z2);
                let fw = N::fold_witness(r, &w, &fw_old, &tv);
                let fi = N::fold_instance(r, &u, &old, &ct);
                let mut f = N::prove(r, &fw, &fi, k, &mut t);
                if part == "point" {
                    f.opening_point += d;
                    f.opening_e = k.open_vector(&fw.e, f.opening_point);
                    f.opening_w = k.open_vector(&fw.w, f.opening_point);
                }
                let p = ZkIVCProof { u_i: u, big_u_i: old, com_t: Some(ct), folded_u_proof: Some(f) };
                check(c.accepted(&p) == same, "a step is accepted as it has to be only");
            })
            .max_depth = 1;
        }
    }
    for n in [1usize, 3] {
        s.add(format!("exact{n}"), move || {
            // nothing but the conditions of the protocol decides
            let (k, s) = scheme(4);
            let (_, ti) = create_trivial_pair(1, 3, &k);
            let mut a = Aug::new(Step, &ti, &st(inp("z0")));
            a.i = Fq::from(n as u64);
            a.z_i = st(inp("z"));
            let big = free_instance("U", 1);
            let h = to_fr(Aug::hash_io(a.i, &a.z_0, &a.z_i, &big));
            let d: Vec<Fr> = advs("d", 7);
            let (e, w, t): (Fr, Fr, Fr) = (inp("ue"), inp("uw"), inp("t"));
            let u = FInstance {
                com_e: KzgCommitment(g1(e)),
                u: Fr::one() + d[0],
                com_w: KzgCommitment(g1(w)),
                x: vec![h + d[1]],
            };
            let ct = KzgCommitment(g1(t));
            let mut tr = Tr::default();
            tr.feed_instance(&u);
            tr.feed_instance(&big);
            tr.feed(&ct);
            let [r] = tr.generate_challenges::<1>();
            let r = r + d[2];
            let (be, bw): (Fr, Fr) = (inp("Ue"), inp("Uw"));
            let (ce, cw) = (e + r * t + r * r * be, w + r * bw);
            tr.feed(&KzgCommitment(g1(ce)));
            tr.feed(&KzgCommitment(g1(cw)));
            let [z] = tr.generate_challenges::<1>();
            let (ve, vw): (Fr, Fr) = (inp("ve"), inp("vw"));
            let open = |c: Fr, v: Fr, d: Fr| kzg::opening::KzgOpening(g1((c - v) / (s - z) + d), v);
            let f = NIFSProof {
                r,
                opening_point: z + d[3],
                opening_e: open(ce, ve, d[4]),
                opening_w: open(cw, vw, d[5]),
            };
            let p = ZkIVCProof { u_i: u, big_u_i: big, com_t: Some(ct), folded_u_proof: Some(f) };
            let mut v = IVC::<Sha256, Step> { scheme: k, augmented_circuit: a };
            let ok = accepts(|| v.verify(&p, &mut Tr::default()).is_ok());
            let mut all = e.is_zero();
            for x in &d[..6] {
                all &= x.is_zero();
            }
            check(ok == all, "a proof is accepted exactly when hash, errors, scalar, challenge and openings fit");
        })
        .max_depth = 2;
    }
    s.add("missing", || {
        let mut c = chain().steps(2);
        let p = copy(c.proof.as_ref().unwrap());
        let mut q = copy(&p);
        q.com_t = None;
        check(!c.accepted(&q), "a proof without cross term is rejected");
        let mut q = copy(&p);
        q.folded_u_proof = None;
        check(!c.accepted(&q), "a proof without folding proof is rejected");
        let mut q = copy(&p);
        q.u_i.x.clear();
        check(!c.accepted(&q), "a proof without public hash is rejected");
        let t = ZkIVCProof::trivial_zk_ivc_proof(&c.ivc.augmented_circuit.trivial_instance.clone());
        check(!c.accepted(&t), "the trivial proof shows nothing after a step");
        check(c.accepted(&p), "the honest proof is accepted");
    })
    .max_depth = 1;
    s.add("replayed", || {
        // proofs of one step are not proofs of another, whatever the inputs were
        let mut c = chain().steps(1);
        let p1 = copy(c.proof.as_ref().unwrap());
        c.next();
        let p2 = copy(c.proof.as_ref().unwrap());
        check(!c.accepted(&p1), "the proof of an earlier step is rejected");
        check(c.accepted(&p2), "the proof of this step is accepted");
        c.next();
        check(!c.accepted(&p1) && !c.accepted(&p2), "the proof of an earlier step is rejected");
        let p3 = copy(c.proof.as_ref().unwrap());
        // instances of one step with the folding of another
        for (a, b) in [(&p3, &p2), (&p3, &p1)] {
            let mut q = copy(a);
            q.folded_u_proof = b.folded_u_proof.clone();
            check(!c.accepted(&q), "parts of different proofs do not combine");
            let mut q = copy(a);
            q.com_t = b.com_t.clone();
            check(c.accepted(&q) == (a.com_t == b.com_t), "parts of different proofs do not combine");
            let mut q = copy(a);
            q.big_u_i = b.big_u_i.clone();
            check(c.accepted(&q) == same_instance(&a.big_u_i, &b.big_u_i), "parts of different proofs do not combine");
        }
    })
    .max_depth = 1;
    s.add("hash", || {
        let c = chain().steps(1);
        let p = copy(c.proof.as_ref().unwrap());
        let a = &c.ivc.augmented_circuit;
        let mut b = AugmentedCircuit::<Sha512, Step>::new(Step, &a.trivial_instance, &a.z_0);
        b.i = a.i;
        b.z_i = a.z_i.clone();
        let mut v = IVC::<Sha512, Step> { scheme: c.ivc.scheme, augmented_circuit: b };
        check(!accepts(|| v.verify(&p, &mut Transcript::<Sha512>::default()).is_ok()), "a proof is bound to its hash");
    })
    .max_depth = 1;
    s.add("unsatisfied", || {
        // a step whose witness misses the constraints by d
        let mut c = chain();
        c.wrong = Some(inp("d"));
        let mut c = c.steps(1);
        let p = copy(c.proof.as_ref().unwrap());
        let d = c.wrong.unwrap();
        check(sat(&c.r, &c.big.1, &c.big.0, &c.ivc.scheme) == d.is_zero(), "folding a wrong step leaves the running pair unsatisfied");
        let ok = c.accepted(&p);
        if d.is_zero() {
            check(ok, "a step that satisfies the constraints is accepted");
        } else {
            check(!ok, "a step that violates the constraints is rejected");
        }
    })
    .max_depth = 1;
}

fn hashes(s: &mut Suite) {
    s.prop("N08");
    for part in ["i", "z0", "z", "com_e", "u", "com_w", "x"] {
        s.add(format!("binds-{part}"), move || {
            let (mut i, mut z0, mut z): (Fq, Fq, Fq) = (inp("i"), inp("z0"), inp("z"));
            let u = free_instance("U", 2);
            let h = hash(i, z0, z, &u);
            check(h == hash(i, z0, z, &u), "the hash is a function of its inputs");
            let (d, dq): (Fr, Fq) = (inp("d"), inp("dq"));
            let mut v = u.clone();
            let mut same = dq.is_zero();
            match part {
                "i" => i += dq,
                "z0" => z0 += dq,
                "z" => z += dq,
                _ => {
                    v = alter(&u, part, d);
                    same = d.is_zero();
                }
            }
            check((h == hash(i, z0, z, &v)) == same, "the hash binds everything it is taken of");
        });
    }
    s.add("plain", || {
        let mut u = free_instance("U", 2);
        let c = |k: u64| Fq::from(k);
        apart("counters that look alike give other hashes", |x: Fq| hash(x, c(4), c(5), &u));
        apart("states that look alike give other hashes", |x: Fq| hash(c(3), x, c(5), &u));
        apart("states that look alike give other hashes", |x: Fq| hash(c(3), c(4), x, &u));
        for part in ["com_e", "u", "com_w", "x"] {
            // points start at the neutral element, so that the altered one is x G
            u = FInstance { com_e: KzgCommitment(g1(Fr::zero())), u: Fr::zero(), com_w: KzgCommitment(g1(Fr::zero())), x: vec![Fr::zero(); 2] };
            apart("instances that look alike give other hashes", |x: Fr| hash(c(3), c(4), c(5), &alter(&u, part, x)));
        }
    })
    .max_depth = 0;
    s.add("all", || {
        // two inputs that are independent of each other
        let a: (Fq, Fq, Fq) = (inp("i"), inp("z0"), inp("z"));
        let b: (Fq, Fq, Fq) = (inp("j"), inp("y0"), inp("y"));
        let (u, v) = (free_instance("U", 1), free_instance("V", 1));
        let e = (a.0 == b.0) & (a.1 == b.1) & (a.2 == b.2) & same_instance(&u, &v);
        check((hash(a.0, a.1, a.2, &u) == hash(b.0, b.1, b.2, &v)) == e, "the hash binds everything it is taken of");
    });
    s.add("order", || {
        let (i, z0, z): (Fq, Fq, Fq) = (inp("i"), inp("z0"), inp("z"));
        let u = free_instance("U", 2);
        let h = hash(i, z0, z, &u);
        check((h == hash(i, z, z0, &u)) == (z == z0), "states cannot be exchanged");
        check((h == hash(z0, i, z, &u)) == (i == z0), "counter and state cannot be exchanged");
        let mut v = u.clone();
        v.x.swap(0, 1);
        check((h == hash(i, z0, z, &v)) == (u.x[0] == u.x[1]), "public values cannot be exchanged");
        let mut v = u.clone();
        std::mem::swap(&mut v.com_e, &mut v.com_w);
        check((h == hash(i, z0, z, &v)) == (u.com_e == u.com_w), "commitments cannot be exchanged");
    });
    s.add("length", || {
        let (i, z0, z): (Fq, Fq, Fq) = (inp("i"), inp("z0"), inp("z"));
        let u = free_instance("U", 2);
        let h = hash(i, z0, z, &u);
        let mut v = u.clone();
        v.x.pop();
        check(h != hash(i, z0, z, &v), "the number of public values is bound");
        v.x.clear();
        check(h != hash(i, z0, z, &v), "the number of public values is bound");
        let mut v = u.clone();
        v.x.push(inp("x"));
        check(h != hash(i, z0, z, &v), "the number of public values is bound");
    });
    for n in [0usize, 1, 3, 4, 5, 8] {
        s.add(format!("list{n}"), move || {
            let (i, z0, z): (Fq, Fq, Fq) = (inp("i"), inp("z0"), inp("z"));
            let u = free_instance("U", n);
            let h = hash(i, z0, z, &u);
            for k in 0..n {
                let mut v = u.clone();
                let d: Fr = inp(format!("d{k}"));
                v.x[k] += d;
                check((h == hash(i, z0, z, &v)) == d.is_zero(), "the hash binds every public value");
                let mut v = u.clone();
                v.x.remove(k);
                check(h != hash(i, z0, z, &v), "the number of public values is bound");
            }
            for (m, part) in ["com_e", "u", "com_w"].iter().enumerate() {
                let d: Fr = inp(format!("e{m}"));
                check((h == hash(i, z0, z, &alter(&u, part, d))) == d.is_zero(), "the hash binds everything it is taken of");
            }
        });
    }
    s.add("function", || {
        let (i, z0, z): (Fq, Fq, Fq) = (inp("i"), inp("z0"), inp("z"));
        let u = free_instance("U", 1);
        let h = AugmentedCircuit::<Sha512, Step>::hash_io(i, &st(z0), &st(z), &u);
        check(h != hash(i, z0, z, &u), "the chosen hash is used");
    });
}

#[derive(Clone)]
enum Msg {
    Com(Fr),
    Num(Fr),
}
fn feed(t: &mut Tr, m: &[Msg]) {
    for m in m {
        match m {
            Msg::Com(x) => t.feed(&KzgCommitment(g1(*x))),
            Msg::Num(x) => t.feed_scalar_num(*x),
        }
    }
}
fn draw(m: &[Msg]) -> Fr {
    let mut t = Tr::default();
    feed(&mut t, m);
    let [x] = t.generate_challenges::<1>();
    x
}
fn transcripts(s: &mut Suite) {
    s.prop("N09");
    let kinds: Vec<&str> = vec!["c", "n", "cc", "cn", "nc", "nn", "cnc", "nnc", "ccc", "nnnn", "cncn", "nncnc", "cccccc"];
    for k in kinds {
        s.add(format!("binds-{k}"), move || {
            let make = |p: &str| -> (Vec<Msg>, Vec<Fr>) {
                let v: Vec<Fr> = inps(p, k.len());
                (k.chars().zip(&v).map(|(c, x)| if c == 'c' { Msg::Com(*x) } else { Msg::Num(*x) }).collect(), v)
            };
            let ((a, x), (b, y)) = (make("a"), make("b"));
            let eq = x.iter().zip(&y).fold(true, |t, (p, q)| t & (p == q));
            let c = draw(&a);
            check((c == draw(&b)) == eq, "the challenge is the same exactly for the same messages");
            let mut e = a.clone();
            e.push(Msg::Num(inp("e")));
            check(c != draw(&e), "one more message changes the challenge");
            *e.last_mut().unwrap() = Msg::Com(inp("e"));
            check(c != draw(&e), "one more message changes the challenge");
            if a.len() > 1 {
                check(c != draw(&a[1..]), "one message less changes the challenge");
                check(c != draw(&a[..a.len() - 1]), "one message less changes the challenge");
            }
        });
    }
    s.add("spread", || spread(|x: Fr| draw(&[Msg::Num(x)])));
    s.add("plain", || {
        apart("numbers that look alike give other challenges", |x: Fr| draw(&[Msg::Num(x)]));
        apart("points that look alike give other challenges", |x: Fr| draw(&[Msg::Com(x)]));
        apart("numbers that look alike give other challenges", |x: Fr| draw(&[Msg::Com(Fr::from(3u64)), Msg::Num(x), Msg::Num(Fr::from(9u64))]));
        apart("points that look alike give other challenges", |x: Fr| draw(&[Msg::Com(x), Msg::Num(Fr::from(9u64))]));
    })
    .max_depth = 0;
    s.add("order", || {
        let (a, b): (Fr, Fr) = (inp("a"), inp("b"));
        check((draw(&[Msg::Num(a), Msg::Num(b)]) == draw(&[Msg::Num(b), Msg::Num(a)])) == (a == b), "the order of messages matters");
        check((draw(&[Msg::Com(a), Msg::Com(b)]) == draw(&[Msg::Com(b), Msg::Com(a)])) == (a == b), "the order of messages matters");
        check(draw(&[Msg::Com(a), Msg::Num(b)]) != draw(&[Msg::Num(b), Msg::Com(a)]), "the order of messages matters");
    });
    s.add("history", || {
        // a challenge drawn in between does not cut the transcript off from its past
        let m: Vec<Fr> = inps("m", 5);
        let run = |m: &[Fr]| {
            let mut t = Tr::default();
            let mut r = vec![];
            for (i, x) in m.iter().enumerate() {
                feed(&mut t, &[if i % 3 == 1 { Msg::Com(*x) } else { Msg::Num(*x) }]);
                let [c] = t.generate_challenges::<1>();
                r.push(c);
            }
            r
        };
        let c = run(&m);
        check((0..5).all(|i| (0..i).all(|j| c[i] != c[j])), "successive challenges differ");
        let d: Fr = inp("d");
        for j in 0..5 {
            let mut n = m.clone();
            n[j] += d;
            let e = run(&n);
            let z = d.is_zero();
            check((0..5).fold(true, |t, i| t & ((c[i] == e[i]) == (i < j || z))), "every later challenge depends on each message");
        }
    });
    s.add("nine", || {
        let run = |a: Fr| {
            let mut t = Tr::default();
            t.feed_scalar_num(a);
            let c = t.generate_challenges::<9>();
            t.feed(&KzgCommitment(g1(c[8])));
            (c, t.generate_challenges::<2>())
        };
        let (a, d): (Fr, Fr) = (inp("a"), inp("d"));
        let ((c, x), (e, y)) = (run(a), run(a + d));
        let all: Vec<Fr> = c.iter().chain(&x).copied().collect();
        check((0..11).all(|i| (0..i).all(|j| all[i] != all[j])), "challenges drawn together differ");
        let z = d.is_zero();
        check((0..9).fold(true, |t, i| t & ((c[i] == e[i]) == z)) && (0..2).fold(true, |t, i| t & ((x[i] == y[i]) == z)), "each of several depends on the messages");
    });
    s.add("several", || {
        let a: Fr = inp("a");
        let mut t = Tr::default();
        t.feed_scalar_num(a);
        let c = t.generate_challenges::<4>();
        check((0..4).all(|i| (0..i).all(|j| c[i] != c[j])), "challenges drawn together differ");
        let b: Fr = inp("b");
        let mut t = Tr::default();
        t.feed_scalar_num(b);
        let d = t.generate_challenges::<4>();
        check((0..4).fold(true, |t, i| t & ((c[i] == d[i]) == (a == b))), "each of several depends on the messages");
    });
    s.add("fed", || {
        let mut t = Tr::default();
        t.feed_scalar_num(inp("a"));
        let _ = t.generate_challenges::<1>();
        check(attempt(|| t.generate_challenges::<1>()).is_none(), "no second challenge without a new message");
        let mut t = Tr::default();
        check(attempt(|| t.generate_challenges::<1>()).is_none(), "no challenge of an empty transcript");
    });
    s.add("lists", || {
        let v: Vec<Fr> = inps("v", 3);
        let c: Vec<KzgCommitment> = v.iter().map(|x| KzgCommitment(g1(*x))).collect();
        let [x] = Tr::from_commitment(&c).generate_challenges::<1>();
        check(x == draw(&[Msg::Com(v[0]), Msg::Com(v[1]), Msg::Com(v[2])]), "a list of commitments is fed in order");
        let [y] = Tr::from_scalar_number(&v).generate_challenges::<1>();
        check(y == draw(&[Msg::Num(v[0]), Msg::Num(v[1]), Msg::Num(v[2])]), "a list of numbers is fed in order");
        check(x != y, "commitments and numbers are told apart");
    });
    s.add("instance", || {
        let (a, b) = (free_instance("a", 2), free_instance("b", 2));
        let f = |u: &FInstance| {
            let mut t = Tr::default();
            t.feed_instance(u);
            let [c] = t.generate_challenges::<1>();
            c
        };
        check((f(&a) == f(&b)) == same_instance(&a, &b), "the challenge binds every part of an instance");
    });
    s.add("hash", || {
        let a: Fr = inp("a");
        let mut t = Transcript::<Sha512>::default();
        t.feed_scalar_num(a);
        let [c] = t.generate_challenges::<1>();
        check(c != draw(&[Msg::Num(a)]), "the chosen hash is used");
    });
}

// ---------------------------------------------------------------- histories
fn same_witness(a: &FWitness, b: &FWitness) -> bool {
    a.w.len() == b.w.len() && a.e.len() == b.e.len() && a.w.iter().zip(&b.w).chain(a.e.iter().zip(&b.e)).fold(true, |t, (x, y)| t & (x == y))
}

fn repeated(s: &mut Suite) {
    s.prop("N10");
    s.add("run", || {
        // running a step again, or after refused attempts, yields the same
        let (c, _) = ctx(1);
        let (Some(want), mut a) = run(&c) else {
            check(false, "an honest step runs");
            return;
        };
        let (d, e): (Fr, Fr) = (inp("d"), inp("e"));
        let mut bad = c.u.clone();
        bad.x[0] += d;
        let big = alter(c.big.as_ref().unwrap(), "com_w", e);
        let r = attempt(|| a.run(&bad, c.big.as_ref(), &c.w, c.ct.as_ref()).is_ok()) == Some(true);
        check(r == d.is_zero(), "a step with another public value is refused");
        let r = attempt(|| a.run(&c.u, Some(&big), &c.w, c.ct.as_ref()).is_ok()) == Some(true);
        check(r == e.is_zero(), "a step with another running instance is refused");
        check(attempt(|| a.run(&c.u, None, &c.w, c.ct.as_ref()).is_ok()) != Some(true), "a step without its running instance is refused");
        let r = attempt(|| a.run(&c.u, c.big.as_ref(), &c.w, c.ct.as_ref()));
        check(matches!(r, Some(Ok(h)) if h == want), "running again yields the same hash");
        a.next_step();
        check(a.i == c.i + Fq::one() && a.h_i == Some(want) && a.z_i.state == step(c.z, c.w.w[0]), "the circuit advances by one step only");
        check(attempt(|| a.next_step()).is_none(), "the circuit does not advance without running");
        check(a.i == c.i + Fq::one() && a.h_i == Some(want) && a.z_i.state == step(c.z, c.w.w[0]), "a refused advance changes nothing");
    });
    s.add("last-run", || {
        // of several runs before advancing the last one counts
        let (c, _) = ctx(1);
        let mut b = c.clone();
        b.w.w[0] = inp("w'");
        b.ct = Some(KzgCommitment(g1(inp("t'"))));
        let (want, _) = run(&b);
        let (_, mut a) = run(&c);
        let r = attempt(|| a.run(&b.u, b.big.as_ref(), &b.w, b.ct.as_ref()));
        check(matches!(r, Some(Ok(h)) if Some(h) == want) && want.is_some(), "a run does not depend on the ones before");
        a.next_step();
        check(a.h_i == want && a.z_i.state == step(c.z, b.w.w[0]), "the circuit advances to the last run's state");
    });
    s.add("base-again", || {
        let (k, _) = scheme(4);
        let (_, trivial) = create_trivial_pair(1, 2, &k);
        let z0: Fq = inp("z0");
        let u = free_instance("u", 1);
        let w = |n: &str| FWitness { e: vec![], w: inps(n, 2) };
        let mut a = Aug::new(Step, &trivial, &st(z0));
        check(attempt(|| a.next_step()).is_none() && a.i.is_zero() && a.z_i.state == z0, "a new circuit does not advance without running");
        for n in ["w", "v", "w", "v"] {
            let r = completes("the first step", || a.run(&u, None, &w(n), None));
            let z1 = step(z0, w(n).w[0]);
            check(matches!(r, Some(Ok(h)) if h == hash(Fq::one(), z0, z1, &trivial)), "the first step can be run again");
        }
        a.next_step();
        check(a.i.is_one() && a.z_i.state == step(z0, w("v").w[0]), "the circuit advances to the last run's state");
    });
    s.add("fold", || {
        // folding and proving twice gives the same; inputs are left alone
        let (k, s) = scheme(4);
        let r = r1cs(2, 2, 1);
        let ((w1, i1), (w2, i2)) = (pair("p", &r, s), pair("q", &r, s));
        let mut t = Tr::default();
        let (fw, fi, ct, c) = N::prover(&r, &w1, &w2, &i1, &i2, &k, &mut t);
        let p = N::prove(c, &fw, &fi, &k, &mut t);
        for _ in 0..2 {
            let mut t = Tr::default();
            let (gw, gi, dt, d) = N::prover(&r, &w1, &w2, &i1, &i2, &k, &mut t);
            check(same_witness(&fw, &gw) && same_instance(&fi, &gi) && ct == dt && c == d, "folding again gives the same pair");
            let q = N::prove(d, &gw, &gi, &k, &mut t);
            check(q.r == p.r && q.opening_point == p.opening_point, "proving again gives the same proof");
            check(N::verify(&q, &i1, &i2, &fi, &ct, &k, &mut Tr::default()).is_ok(), "the proof is accepted every time");
            check(N::verify(&p, &i1, &i2, &gi, &dt, &k, &mut Tr::default()).is_ok(), "the proof is accepted every time");
            let g = N::verifier(c, &i1, &i2, &ct);
            check(same_instance(&g, &fi), "the verifier folds to the same instance every time");
        }
        // a used transcript is not a fresh one
        check(!accepts(|| N::verify(&p, &i1, &i2, &fi, &ct, &k, &mut t).is_ok()), "a proof is rejected on a transcript that saw something else");
    });
    s.add("long", || {
        // many foldings in between, one after the other
        let (k, s) = scheme(4);
        let r = r1cs(2, 2, 1);
        let ((w1, i1), (w2, i2)) = (pair("p", &r, s), pair("q", &r, s));
        let first = N::prover(&r, &w1, &w2, &i1, &i2, &k, &mut Tr::default());
        let (mut w, mut i) = (first.0.clone(), first.1.clone());
        for _ in 0..20 {
            let mut t = Tr::default();
            let (fw, fi, ct, c) = N::prover(&r, &w2, &w, &i2, &i, &k, &mut t);
            let p = N::prove(c, &fw, &fi, &k, &mut t);
            check(N::verify(&p, &i2, &i, &fi, &ct, &k, &mut Tr::default()).is_ok(), "every honest folding is accepted");
            (w, i) = (fw, fi);
        }
        let again = N::prover(&r, &w1, &w2, &i1, &i2, &k, &mut Tr::default());
        check(same_witness(&first.0, &again.0) && same_instance(&first.1, &again.1) && first.2 == again.2 && first.3 == again.3, "folding again gives the same pair after all the others");
    })
    .max_depth = 0;
    s.add("verify", || {
        // verdicts do not depend on what was verified before
        let mut c = chain().steps(2);
        let p = copy(c.proof.as_ref().unwrap());
        let mut bad = copy(&p);
        let d: Fr = inp("d");
        bad.u_i = alter(&bad.u_i, "com_w", d);
        for _ in 0..2 {
            check(c.accepted(&p), "an honest proof is accepted every time");
            check(c.accepted(&bad) == d.is_zero(), "an altered proof is rejected every time");
            let (i, z) = (c.ivc.augmented_circuit.i, c.ivc.augmented_circuit.z_i.state);
            check(i == Fq::from(2u64) && z == *c.states.last().unwrap(), "verifying leaves the circuit alone");
        }
        c.next();
        check(!c.accepted(&p), "a proof is for its own step only");
        let q = copy(c.proof.as_ref().unwrap());
        check(c.accepted(&q), "the computation goes on after verifications");
    })
    .max_depth = 1;
    s.add("prove", || {
        // proofs of one step made twice
        let mut c = chain().steps(1);
        let (w, u, _) = c.zk_next.clone().unwrap();
        let p = IVCProof::new(&u, &w, c.big_before.as_ref().unwrap(), c.fw_before.as_ref().unwrap());
        let (fw, fi, zk) = c.ivc.prove(&c.r, &p, &mut Tr::default());
        check(same_witness(&fw, &c.big.0) && same_instance(&fi, &c.big.1), "proving again folds to the same pair");
        check(c.accepted(&zk), "a proof made again is accepted");
        c.next();
        let q = copy(c.proof.as_ref().unwrap());
        check(c.accepted(&q), "the computation goes on");
    })
    .max_depth = 1;
    s.add("pure", || {
        // commitments, fresh and trivial pairs are the same each time
        let (k, _) = scheme(4);
        let w: Vec<Fr> = inps("w", 2);
        let x: Vec<Fr> = inps("x", 1);
        let f = FWitness::new(&w, 2);
        let i = f.commit(&k, &x);
        let (tw, ti) = create_trivial_pair(1, 2, &k);
        for n in 0..3 {
            let g = FWitness::new(&w, 2);
            check(same_witness(&f, &g) && same_instance(&i, &g.commit(&k, &x)), "a fresh pair is the same each time");
            let (a, b) = create_trivial_pair(1, 2, &k);
            check(same_witness(&tw, &a) && same_instance(&ti, &b), "the trivial pair is the same each time");
            let y: Vec<Fr> = inps(&format!("y{n}."), 1);
            let _ = f.commit(&k, &y);
        }
    });
}

fn vectors(s: &mut Suite) {
    use nova::utils::*;
    s.prop("N11");
    fn is(v: &[Fr], w: &[Fr]) -> bool {
        v.len() == w.len() && v.iter().zip(w).fold(true, |t, (a, b)| t & (a == b))
    }
    for n in [0usize, 1, 2, 3, 5, 8, 17, 33] {
        s.add(format!("vectors{n}"), move || {
            let (a, b): (Vec<Fr>, Vec<Fr>) = (inps("a", n), inps("b", n));
            let u: Fr = inp("u");
            let each = |f: &dyn Fn(Fr, Fr) -> Fr| -> Vec<Fr> { (0..n).map(|i| f(a[i], b[i])).collect() };
            check(is(&hadamard_product(&a, &b), &each(&|x, y| x * y)), "entrywise product");
            check(is(&vector_elem_product(&a, u), &each(&|x, _| x * u)), "vector times number");
            check(is(&vec_add(&a, &b), &each(&|x, y| x + y)), "sum of vectors");
            check(is(&vec_sub(&a, &b), &each(&|x, y| x - y)), "difference of vectors");
        });
        s.add(format!("equal{n}"), move || {
            let a: Vec<Fr> = inps("a", n);
            check(vec_equal(&a, &a.clone()), "a vector equals itself");
            for i in 0..n {
                let mut b = a.clone();
                let d: Fr = inp(format!("d{i}"));
                b[i] += d;
                check(vec_equal(&a, &b) == d.is_zero() && vec_equal(&b, &a) == d.is_zero(), "vectors are equal exactly when all entries are");
                check(!vec_equal(&a, &a[..i]) && !vec_equal(&a[..i], &a), "vectors of different lengths differ");
            }
            let mut l = a.clone();
            l.push(Fr::zero());
            check(!vec_equal(&a, &l) && !vec_equal(&l, &a), "vectors of different lengths differ");
        });
    }
    for (m, n) in [(0usize, 2usize), (1, 1), (1, 4), (3, 2), (2, 3), (4, 4), (6, 7), (17, 5), (5, 18), (9, 9)] {
        s.add(format!("matrix{m}x{n}"), move || {
            let (a, z) = (mat("A", m, n), inps::<Fr>("z", n));
            let want: Vec<Fr> = a.iter().map(|r| dot(r, &z)).collect();
            check(is(&matrix_vector_product(&a, &z), &want), "matrix times vector");
        });
    }
    s.add("refused", || {
        for (n, m) in [(0usize, 1usize), (1, 2), (2, 1), (3, 2), (2, 0)] {
            let (a, b): (Vec<Fr>, Vec<Fr>) = (inps("a", n), inps("b", m));
            check(attempt(|| vec_add(&a, &b)).is_none(), "a sum of vectors of different lengths is refused");
            check(attempt(|| vec_sub(&a, &b)).is_none(), "a difference of vectors of different lengths is refused");
        }
    });
    s.add("numbers", || {
        let v = vec![0usize, 1, 2, 255, 256, 65537, u32::MAX as usize, u32::MAX as usize + 1, 1 << 53, (1 << 53) + 1, usize::MAX];
        let want: Vec<Fr> = v.iter().map(|x| Fr::from(*x as u64)).collect();
        check(is(&to_f_vec::<Fr>(v.clone()), &want), "numbers as field elements");
        let m = to_f_matrix::<Fr>(&[v.clone(), vec![], vec![7, 8]]);
        check(m.len() == 3 && is(&m[0], &want) && m[1].is_empty() && is(&m[2], &[Fr::from(7u64), Fr::from(8u64)]), "matrices of numbers as field elements");
        let t = Fr::from(u64::MAX) + Fr::one();
        check(want[10] + Fr::one() == t && is(&to_f_vec::<Fr>(vec![]), &[]), "numbers are not truncated");
    });
}
