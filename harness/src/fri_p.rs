//! FRI and its Merkle trees.
use crate::rt::*;
use ark_ff::{FftField, Field, One, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{DenseUVPolynomial, EvaluationDomain, GeneralEvaluationDomain, Polynomial};
use fri::fiat_shamir::transcript::Transcript;
use fri::fields::goldilocks::Fq;
use fri::prover::{generate_proof, Decommitment, Proof};
use fri::verifier::verify;
use sha2_11::{Sha256, Sha512};

type Poly = DensePolynomial<Fq>;
type Tr = Transcript<Sha256, Fq>;

fn poly(c: &[Fq]) -> Poly {
    Poly::from_coefficients_vec(c.to_vec())
}
fn log2(n: usize) -> usize {
    n.ilog2() as usize
}
/// x^(2^k)
fn sq(x: Fq, k: usize) -> Fq {
    (0..k).fold(x, |x, _| x * x)
}
fn root(n: usize, i: usize) -> Fq {
    GeneralEvaluationDomain::<Fq>::new(n).unwrap().element(i)
}
fn half() -> Fq {
    Fq::from(2u64).inverse().unwrap()
}
/// what the pair of values at w and -w folds to
fn fold_pair(e: Fq, s: Fq, w: Fq, r: Fq) -> Fq {
    (e + s) * half() + r * (e - s) * half() * w.inverse().unwrap()
}
/// coefficients after one folding
fn fold_coeffs(c: &[Fq], r: Fq) -> Vec<Fq> {
    (0..(c.len() + 1) / 2)
        .map(|i| c[2 * i] + c.get(2 * i + 1).map_or(Fq::zero(), |o| r * o))
        .collect()
}
fn at(c: &[Fq], x: Fq) -> Fq {
    c.iter().rev().fold(Fq::zero(), |a, c| a * x + c)
}
/// challenges of a proof: one per layer, then the query positions
fn challenges(roots: &[Fq], const_val: Fq, queries: usize) -> (Vec<Fq>, Vec<usize>) {
    let mut t = Tr::new(Fq::zero());
    let r = roots
        .iter()
        .map(|x| {
            t.digest(*x);
            t.generate_a_challenge()
        })
        .collect();
    t.digest(const_val);
    (r, t.generate_challenge_list_usize(queries))
}
fn accepted(p: Proof<Fq>) -> bool {
    accepts(|| verify::<Sha256, Fq>(p).is_ok())
}
/// a concrete honest proof
fn honest(len: usize, blowup: usize, queries: usize) -> Proof<Fq> {
    let _g = symcore::mute();
    let c: Vec<Fq> = (0..len).map(|i| con(format!("hc{i}"))).collect();
    generate_proof::<Sha256, Fq>(poly(&c), blowup, queries)
}

#[cfg(feature = "hooks")]
mod tree {
    pub use fri::verif_hooks::{verify_merkle_proof, MerkleProof, MerkleTree};
}
#[cfg(feature = "hooks")]
use tree::*;

/// A prover without morals: commits to the given layers, then opens what it is
/// asked for.
#[cfg(feature = "hooks")]
fn assemble(layers: &[Vec<Fq>], coset: Fq, queries: usize, con: impl Fn(&[Fq]) -> Fq) -> Proof<Fq> {
    let trees: Vec<MerkleTree<Fq>> = layers.iter().map(|l| MerkleTree::new(l.clone())).collect();
    let roots: Vec<Fq> = trees.iter().map(|t| t.root()).collect();
    let (r, _) = challenges(&roots, Fq::zero(), 0);
    let const_val = con(&r);
    let n = layers[0].len();
    let (_, idx) = challenges(&roots, const_val, queries);
    Proof {
        domain_size: n,
        coset,
        number_of_queries: queries,
        layers_root: roots,
        const_val,
        decommitment_list: idx.iter().map(|i| open(&trees, i % n)).collect(),
    }
}
#[cfg(feature = "hooks")]
fn open(trees: &[MerkleTree<Fq>], i: usize) -> Decommitment<Fq> {
    let mut d = Decommitment { evaluations: vec![], auth_paths: vec![], sym_evaluations: vec![], sym_auth_paths: vec![] };
    for t in trees {
        let n = t.leaves.len();
        let (a, b) = (i % n, (i + n / 2) % n);
        d.evaluations.push(t.leaves[a]);
        d.sym_evaluations.push(t.leaves[b]);
        d.auth_paths.push(t.generate_proof(a));
        d.sym_auth_paths.push(t.generate_proof(b));
    }
    d
}

pub fn add(s: &mut Suite) {
    // -------------------------------------------------------- completeness
    s.prop("F01");
    for (len, blowup, queries, deep) in [
        (0usize, 2usize, 2usize, false),
        (1, 1, 2, false),
        (1, 2, 3, false),
        (2, 1, 4, false),
        (2, 2, 12, false),
        (3, 1, 8, false),
        (3, 2, 16, false),
        (4, 2, 24, false),
        (4, 4, 8, false),
        (5, 3, 4, false),
        (4, 2, 0, false),
        (8, 1, 4, false),
        (8, 2, 40, false),
        (6, 8, 3, false),
        (9, 2, 8, false),
        (13, 3, 8, false),
        (16, 4, 4, false),
        (17, 1, 5, false),
        (2, 1, 70, false),
        (1, 16, 17, false),
        (32, 2, 6, false),
        (33, 1, 6, false),
        (64, 2, 5, false),
        (129, 1, 4, false),
        (256, 2, 3, false),
        (70, 1, 3, true),
    ] {
        let body = move || {
            let c: Vec<Fq> = inps("c", len);
            let Some(p) = completes("prove", || generate_proof::<Sha256, Fq>(poly(&c), blowup, queries)) else { return };
            let r = completes("verify", || verify::<Sha256, Fq>(p));
            check(matches!(r, Some(Ok(()))), "an honest proof is accepted");
        };
        let n = format!("len{len}-blowup{blowup}-queries{queries}");
        let c = if deep { s.deep(n, body) } else { s.add(n, body) };
        if len > 30 {
            c.max_paths = if len > 60 { 1 } else { 8 };
        }
    }
    s.add("sha512", || {
        let c: Vec<Fq> = inps("c", 4);
        let p = generate_proof::<Sha512, Fq>(poly(&c), 2, 4);
        check(accepts(|| verify::<Sha512, Fq>(p.clone()).is_ok()), "an honest proof is accepted under another hash");
        check(!accepts(|| verify::<Sha256, Fq>(p).is_ok()), "a proof is bound to its hash");
    });

    // ------------------------------------------------ what the prover sends
    s.prop("F02");
    for (len, blowup, queries) in [(1usize, 2usize, 4usize), (2, 2, 12), (3, 2, 24), (4, 2, 24), (5, 1, 24), (6, 2, 40), (8, 2, 40), (9, 3, 30), (16, 2, 80), (17, 1, 40), (34, 2, 20), (64, 1, 10)] {
        s.add(format!("len{len}-blowup{blowup}"), move || {
            let mut c: Vec<Fq> = inps("c", len);
            let p = generate_proof::<Sha256, Fq>(poly(&c), blowup, queries);
            while c.last().map_or(false, |x| x.is_zero()) {
                c.pop();
            }
            let n = (c.len() * blowup).next_power_of_two().max(2);
            check(p.domain_size >= n && p.domain_size.is_power_of_two(), "the domain has the asked for size");
            check(p.number_of_queries == queries && p.decommitment_list.len() == queries, "as many queries as asked for are answered");
            let (r, idx) = challenges(&p.layers_root, p.const_val, queries);
            let mut f = vec![c.clone()];
            for x in &r {
                f.push(fold_coeffs(f.last().unwrap(), *x));
            }
            check(1 << p.layers_root.len() >= c.len(), "the polynomial is folded down to a constant");
            check(p.const_val == at(f.last().unwrap(), Fq::zero()), "the constant is the fully folded polynomial");
            check(!p.coset.is_zero() && (0..log2(p.domain_size) + 1).all(|k| !sq(p.coset, k).is_one()), "the coset is off the domain");
            for (k, d) in p.decommitment_list.iter().enumerate() {
                let mut ok = d.evaluations.len() == r.len() && d.sym_evaluations.len() == r.len();
                let mut pos = ok;
                for l in 0..r.len().min(d.evaluations.len()) {
                    let m = p.domain_size >> l;
                    let (a, b) = (idx[k] % m, (idx[k] + m / 2) % m);
                    let x = sq(p.coset, l) * root(m, a);
                    ok &= d.evaluations[l] == at(&f[l], x) && d.sym_evaluations[l] == at(&f[l], -x);
                    pos &= d.auth_paths[l].index == a && d.sym_auth_paths[l].index == b;
                    ok &= d.auth_paths[l].leaf_val == d.evaluations[l] && d.sym_auth_paths[l].leaf_val == d.sym_evaluations[l];
                }
                check(ok, "opened values are the folded polynomials' at the queried points");
                check(pos, "every layer is opened at the transcript's position and its mirror");
            }
        })
        .max_depth = 1;
    }

    // ------------------------------------------------------ determined, bound
    s.prop("F07");
    fn proof_eq(p: &Proof<Fq>, q: &Proof<Fq>) -> bool {
        let mut e = p.domain_size == q.domain_size && p.number_of_queries == q.number_of_queries && p.layers_root.len() == q.layers_root.len();
        e = e && p.coset == q.coset && p.const_val == q.const_val && p.decommitment_list.len() == q.decommitment_list.len();
        if e {
            for (a, b) in p.layers_root.iter().zip(&q.layers_root) {
                e &= a == b;
            }
            for (a, b) in p.decommitment_list.iter().zip(&q.decommitment_list) {
                e &= a.evaluations.len() == b.evaluations.len();
                for i in 0..a.evaluations.len().min(b.evaluations.len()) {
                    e &= a.evaluations[i] == b.evaluations[i] && a.sym_evaluations[i] == b.sym_evaluations[i];
                    e &= a.auth_paths[i].index == b.auth_paths[i].index && a.sym_auth_paths[i].index == b.sym_auth_paths[i].index;
                }
            }
        }
        e
    }
    for (len, blowup, queries) in [(1usize, 2usize, 2usize), (2, 2, 2), (4, 2, 3), (5, 1, 2)] {
        s.add(format!("again-len{len}-blowup{blowup}"), move || {
            let c: Vec<Fq> = inps("c", len);
            let p = generate_proof::<Sha256, Fq>(poly(&c), blowup, queries);
            let other: Vec<Fq> = inps("o", 2);
            for _ in 0..2 {
                let _ = generate_proof::<Sha256, Fq>(poly(&other), 1, 1);
                let q = generate_proof::<Sha256, Fq>(poly(&c), blowup, queries);
                check(proof_eq(&p, &q), "the same polynomial gets the same proof");
                let mut bad = q.clone();
                let d: Fq = adv("d");
                bad.const_val += d;
                check(accepted(bad) == d.is_zero(), "an altered proof is rejected every time");
                check(accepted(q), "an honest proof is accepted every time");
            }
            check(accepted(p), "an honest proof is accepted every time");
        })
        .max_depth = 1;
    }
    for (len, blowup) in [(1usize, 2usize), (2, 1), (2, 2), (3, 2), (4, 1), (4, 2), (8, 1)] {
        s.add(format!("binds-len{len}-blowup{blowup}"), move || {
            // another polynomial has another first root, whatever the change
            let c: Vec<Fq> = inps("c", len);
            let p = generate_proof::<Sha256, Fq>(poly(&c), blowup, 2);
            for i in 0..len {
                let mut b = c.clone();
                let d: Fq = inp(format!("d{i}"));
                b[i] += d;
                let q = generate_proof::<Sha256, Fq>(poly(&b), blowup, 2);
                if q.domain_size == p.domain_size && !p.layers_root.is_empty() && !q.layers_root.is_empty() {
                    check((q.layers_root[0] == p.layers_root[0]) == d.is_zero(), "the first root binds every coefficient");
                } else {
                    check(!d.is_zero() || len == 1, "the size depends on the degree only");
                }
            }
        })
        .max_depth = 1;
    }
    s.add("long", || {
        // many proofs of different sizes in between
        let c: Vec<Fq> = inps("c", 4);
        let p = generate_proof::<Sha256, Fq>(poly(&c), 2, 3);
        for i in 0..60usize {
            let o: Vec<Fq> = (0..1 + i % 9).map(|j| con::<Fq>(format!("o{i}.{j}")) + c[0]).collect();
            let q = generate_proof::<Sha256, Fq>(poly(&o), 1 + i % 3, 1 + i % 4);
            check(accepted(q), "every honest proof is accepted");
        }
        let q = generate_proof::<Sha256, Fq>(poly(&c), 2, 3);
        check(proof_eq(&p, &q), "the same polynomial gets the same proof after all the others");
        let mut bad = q.clone();
        let d: Fq = adv("d");
        bad.const_val += d;
        check(accepted(bad) == d.is_zero(), "an altered proof is rejected after all the others");
        check(accepted(p) && accepted(q), "an honest proof is accepted after all the others");
    })
    .max_depth = 0;
    s.add("tail", || {
        // explicit zero coefficients at the end change nothing
        let mut c: Vec<Fq> = inps("c", 3);
        let p = generate_proof::<Sha256, Fq>(poly(&c), 2, 3);
        c.push(Fq::zero());
        c.push(Fq::zero());
        check(proof_eq(&p, &generate_proof::<Sha256, Fq>(poly(&c), 2, 3)), "zero coefficients at the end change nothing");
    })
    .max_depth = 1;
    s.add("parameters", || {
        // proofs answer for their own parameters
        let c: Vec<Fq> = inps("c", 4);
        for (blowup, queries) in [(1usize, 1usize), (1, 3), (2, 2), (4, 1)] {
            let p = generate_proof::<Sha256, Fq>(poly(&c), blowup, queries);
            let full = !c[3].is_zero();
            if full {
                check(p.domain_size == 4 * blowup, "the domain is the polynomial's size times the blowup");
            }
            check(p.number_of_queries == queries && p.decommitment_list.len() == queries, "as many queries as asked for are answered");
            check(accepted(p), "the proof is accepted");
        }
    })
    .max_depth = 1;

    // ---------------------------------------------------------- alterations
    s.prop("F03");
    // the transcript stays as it is: the positions asked for do too
    let mut places = vec![];
    for (len, layers, queries) in [(4usize, 2usize, 2usize), (16, 4, 5)] {
        for l in 0..layers {
            for k in 0..queries {
                places.push((len, l, k));
            }
        }
    }
    for what in ["eval", "sym", "leaf", "sym-leaf", "eval+leaf", "sym+leaf", "eval+sym", "both", "index", "sym-index"] {
        for (len, layer, k) in places.iter().copied() {
            {
                s.add(format!("{what}-len{len}-layer{layer}-query{k}"), move || {
                    let mut p = if len == 4 { honest(4, 2, 2) } else { honest(len, 2, 5) };
                    let domain = p.domain_size;
                    let (d, e): (Fq, Fq) = (adv("d"), adv("e"));
                    let q = &mut p.decommitment_list[k];
                    let mut extra = false;
                    match what {
                        "eval" => q.evaluations[layer] += d,
                        "sym" => q.sym_evaluations[layer] += d,
                        "leaf" => q.auth_paths[layer].leaf_val += d,
                        "sym-leaf" => q.sym_auth_paths[layer].leaf_val += d,
                        "eval+leaf" => {
                            q.evaluations[layer] += d;
                            q.auth_paths[layer].leaf_val += d;
                        }
                        "sym+leaf" => {
                            q.sym_evaluations[layer] += d;
                            q.sym_auth_paths[layer].leaf_val += d;
                        }
                        "eval+sym" => {
                            q.evaluations[layer] += d;
                            q.sym_evaluations[layer] += e;
                        }
                        "both" => {
                            q.evaluations[layer] += d;
                            q.auth_paths[layer].leaf_val += d;
                            q.sym_evaluations[layer] += e;
                            q.sym_auth_paths[layer].leaf_val += e;
                        }
                        "index" => {
                            q.auth_paths[layer].index ^= 1;
                            extra = true;
                        }
                        _ => {
                            q.sym_auth_paths[layer].index += domain >> layer;
                            extra = true;
                        }
                    }
                    let ok = accepted(p);
                    if ok {
                        check(!extra && d.is_zero() & (e.is_zero() | !matches!(what, "eval+sym" | "both")), "an altered opening is rejected");
                    } else {
                        check(true, "rejected");
                    }
                });
            }
        }
    }
    s.add("swapped", || {
        for k in 0..3 {
            for l in 0..2 {
                let mut p = honest(4, 2, 3);
                let q = &mut p.decommitment_list[k];
                let x = q.evaluations[l];
                q.evaluations[l] = q.sym_evaluations[l];
                q.sym_evaluations[l] = x;
                check(!accepted(p.clone()), "swapped values are rejected");
                let q = &mut p.decommitment_list[k];
                let y = q.auth_paths[l].clone();
                q.auth_paths[l] = q.sym_auth_paths[l].clone();
                q.sym_auth_paths[l] = y;
                check(!accepted(p), "swapped openings are rejected");
            }
        }
    });
    s.add("layers-swapped", || {
        let mut p = honest(8, 2, 3);
        p.layers_root.swap(0, 1);
        check(!accepted(p), "swapped layers are rejected");
    });
    s.add("const", || {
        // few positions: the new transcript asks for the same ones sometimes
        for i in 0..8 {
            let mut p = honest(2, 1, 1);
            let d: Fq = adv(format!("d{i}"));
            p.const_val += d;
            if accepted(p) {
                check(d.is_zero(), "an altered constant is rejected");
            } else {
                check(true, "rejected");
            }
        }
    });
    s.add("root", || {
        for l in 0..2 {
            let mut p = honest(4, 1, 2);
            let d: Fq = adv(format!("d{l}"));
            p.layers_root[l] += d;
            if accepted(p) {
                check(d.is_zero(), "an altered root is rejected");
            } else {
                check(true, "rejected");
            }
        }
    });
    s.add("coset", || {
        let mut p = honest(4, 2, 4);
        let d: Fq = adv("d");
        p.coset += d;
        if accepted(p) {
            check(d.is_zero(), "an altered coset is rejected");
        } else {
            check(true, "rejected");
        }
    });
    s.add("shape", || {
        type P = Proof<Fq>;
        let alter: Vec<(&str, Box<dyn Fn(&mut P)>)> = vec![
            ("a query less", Box::new(|p| drop(p.decommitment_list.pop()))),
            ("no queries answered", Box::new(|p| p.decommitment_list.clear())),
            ("a query more", Box::new(|p| p.number_of_queries += 1)),
            ("an answer more", Box::new(|p| p.decommitment_list.push(p.decommitment_list[0].clone()))),
            ("queries swapped", Box::new(|p| p.decommitment_list.swap(0, 1))),
            ("double domain", Box::new(|p| p.domain_size *= 2)),
            ("half domain", Box::new(|p| p.domain_size /= 2)),
            ("odd domain", Box::new(|p| p.domain_size -= 1)),
            ("no domain", Box::new(|p| p.domain_size = 0)),
            ("domain of one", Box::new(|p| p.domain_size = 1)),
            ("no coset", Box::new(|p| p.coset = Fq::zero())),
            ("a root less", Box::new(|p| drop(p.layers_root.pop()))),
            ("a root more", Box::new(|p| p.layers_root.push(p.layers_root[0]))),
            ("no roots", Box::new(|p| p.layers_root.clear())),
            ("a value less", Box::new(|p| drop(p.decommitment_list[0].evaluations.pop()))),
            ("a mirror value less", Box::new(|p| drop(p.decommitment_list[1].sym_evaluations.pop()))),
            ("an opening less", Box::new(|p| drop(p.decommitment_list[2].auth_paths.pop()))),
            ("a mirror opening less", Box::new(|p| drop(p.decommitment_list[3].sym_auth_paths.pop()))),
            ("a query's last layer missing", Box::new(|p| {
                let q = &mut p.decommitment_list[2];
                q.evaluations.pop();
                q.sym_evaluations.pop();
                q.auth_paths.pop();
                q.sym_auth_paths.pop();
            })),
            ("an empty answer", Box::new(|p| {
                let q = &mut p.decommitment_list[1];
                q.evaluations.clear();
                q.sym_evaluations.clear();
                q.auth_paths.clear();
                q.sym_auth_paths.clear();
            })),
            ("all answers empty", Box::new(|p| {
                for q in &mut p.decommitment_list {
                    q.evaluations.clear();
                    q.sym_evaluations.clear();
                    q.auth_paths.clear();
                    q.sym_auth_paths.clear();
                }
            })),
            ("every layer left out", Box::new(|p| {
                p.layers_root.clear();
                for q in &mut p.decommitment_list {
                    q.evaluations.clear();
                    q.sym_evaluations.clear();
                    q.auth_paths.clear();
                    q.sym_auth_paths.clear();
                }
            })),
            ("the last layer left out everywhere", Box::new(|p| {
                p.layers_root.pop();
                for q in &mut p.decommitment_list {
                    q.evaluations.pop();
                    q.sym_evaluations.pop();
                    q.auth_paths.pop();
                    q.sym_auth_paths.pop();
                }
            })),
            ("a layer left out everywhere", Box::new(|p| {
                p.layers_root.remove(0);
                for q in &mut p.decommitment_list {
                    q.evaluations.remove(0);
                    q.sym_evaluations.remove(0);
                    q.auth_paths.remove(0);
                    q.sym_auth_paths.remove(0);
                }
            })),
        ];
        let p = honest(4, 2, 6);
        check(accepted(p.clone()), "the honest proof is accepted");
        for (n, f) in &alter {
            let mut q = p.clone();
            f(&mut q);
            check(!accepted(q), &format!("{n}: rejected"));
        }
    });

    // ------------------------- Merkle trees, as far as whole proofs show them
    s.prop("F05");
    s.add("proof-roots", || {
        let (a, b): (Vec<Fq>, Vec<Fq>) = (inps("a", 2), inps("b", 2));
        let eq = (a[0] == b[0]) & (a[1] == b[1]);
        let root = |c: &[Fq]| generate_proof::<Sha256, Fq>(poly(c), 2, 1).layers_root[0];
        let (x, y) = (root(&a), root(&b));
        check((x == y) == eq, "layers of different polynomials have different roots");
    });
    for sym in [false, true] {
        s.add(if sym { "proof-mirror-leaf" } else { "proof-leaf" }, move || {
            // any other pair of values that folds to the same constant
            let p = honest(2, 4, 3);
            let (r, idx) = challenges(&p.layers_root, p.const_val, 3);
            for k in 0..3 {
                let w = p.coset * root(8, idx[k] % 8);
                let mut q = p.clone();
                let d = &mut q.decommitment_list[k];
                let x: Fq = adv(format!("x{k}"));
                // (r+w) e/(2w) - (r-w) s/(2w) = const
                let (e, s) = if sym {
                    ((p.const_val * (w + w) + (r[0] - w) * x) * (r[0] + w).inverse().unwrap(), x)
                } else {
                    (x, ((r[0] + w) * x - p.const_val * (w + w)) * (r[0] - w).inverse().unwrap())
                };
                let same = (e == d.evaluations[0]) & (s == d.sym_evaluations[0]);
                d.evaluations[0] = e;
                d.auth_paths[0].leaf_val = e;
                d.sym_evaluations[0] = s;
                d.sym_auth_paths[0].leaf_val = s;
                check(accepted(q) == same, "no other values are opened for the layer");
            }
        });
    }

    hooked(s);
    transcripts(s);
}

#[cfg(not(feature = "hooks"))]
fn hooked(_: &mut Suite) {}

#[cfg(feature = "hooks")]
fn hooked(s: &mut Suite) {
    // -------------------------------------------- adversarial commitments
    s.prop("F04");
    // layers that have nothing to do with each other
    for (n, layers, queries, deep) in [
        (2usize, 1usize, 1usize, false),
        (2, 1, 3, false),
        (4, 1, 1, false),
        (4, 2, 1, false),
        (4, 2, 2, false),
        (8, 2, 1, false),
        (8, 3, 1, false),
        (8, 2, 2, true),
        (16, 3, 1, true),
    ] {
        let body = move || {
            let v: Vec<Vec<Fq>> = (0..layers).map(|l| advs(&format!("v{l}."), n >> l)).collect();
            let k: Fq = adv("k");
            let g = Fq::GENERATOR;
            let p = assemble(&v, g, queries, |_| k);
            let (r, idx) = challenges(&p.layers_root, p.const_val, queries);
            let mut want = true;
            for i in idx {
                for l in 0..layers {
                    let m = n >> l;
                    let (a, b) = (i % m, (i + m / 2) % m);
                    let f = fold_pair(v[l][a], v[l][b], sq(g, l) * root(m, a), r[l]);
                    let next = if l + 1 < layers { v[l + 1][i % (m / 2)] } else { p.const_val };
                    want &= f == next;
                }
            }
            check(accepted(p) == want, "accepted exactly when every queried pair folds to the next layer");
        };
        let name = format!("layers{layers}-domain{n}-queries{queries}");
        if deep {
            s.deep(name, body);
        } else {
            s.add(name, body);
        }
    }
    // values that need not be a polynomial's; later layers folded honestly
    for (n, layers, queries, deep) in [(2usize, 1usize, 4usize, false), (4, 1, 16, false), (4, 2, 16, false), (8, 1, 40, false), (8, 2, 40, false), (16, 3, 90, false), (16, 1, 60, false)] {
        let body = move || {
            let g = Fq::GENERATOR;
            let v: Vec<Fq> = inps("v", n);
            let mut ls = vec![v.clone()];
            for l in 1..layers {
                let roots: Vec<Fq> = ls.iter().map(|x| MerkleTree::new(x.clone()).root()).collect();
                let (r, _) = challenges(&roots, Fq::zero(), 0);
                let m = n >> (l - 1);
                let x = &ls[l - 1];
                let y = (0..m / 2).map(|i| fold_pair(x[i], x[i + m / 2], sq(g, l - 1) * root(m, i), r[l - 1])).collect();
                ls.push(y);
            }
            let p = assemble(&ls, g, queries, |r| {
                let m = n >> (layers - 1);
                let x = &ls[layers - 1];
                fold_pair(x[0], x[m / 2], sq(g, layers - 1), r[layers - 1])
            });
            // coefficients of the values on the coset
            let ninv = Fq::from(n as u64).inverse().unwrap();
            let mut low = true;
            for k in 1 << layers..n {
                let c: Fq = (0..n).map(|i| v[i] * root(n, (n - i * k % n) % n)).sum();
                low &= (c * ninv).is_zero();
            }
            check(accepted(p) == low, "accepted exactly when the committed values are of low degree");
        };
        let name = format!("values{n}-layers{layers}");
        if deep {
            s.deep(name, body);
        } else {
            s.add(name, body);
        }
    }
    s.add("claimed-degree", || {
        // folding down to nothing proves nothing: how far the prover folds
        for (len, blowup) in [(1usize, 4usize), (2, 2), (3, 2), (4, 2), (4, 8)] {
            let c: Vec<Fq> = (0..len).map(|i| con(format!("hc{i}"))).collect();
            let p = generate_proof::<Sha256, Fq>(poly(&c), blowup, 1);
            check(
                (1 << p.layers_root.len()) * blowup <= p.domain_size.max(2 * blowup),
                "the number of foldings leaves the asked for redundancy",
            );
        }
    });
    // values that fold as they should and are not the ones that were committed
    for side in ["eval", "sym", "both"] {
        for (n, layers, queries) in [(2usize, 1usize, 2usize), (4, 1, 3), (4, 2, 2), (8, 3, 2), (16, 2, 3)] {
            s.add(format!("uncommitted-{side}-layers{layers}-domain{n}"), move || {
                let v: Vec<Vec<Fq>> = (0..layers).map(|l| inps(&format!("v{l}."), n >> l)).collect();
                let g = Fq::GENERATOR;
                let mut p = assemble(&v, g, queries, |_| inp("k"));
                let (r, idx) = challenges(&p.layers_root, p.const_val, queries);
                let mut same = true;
                for (k, i) in idx.iter().enumerate() {
                    let d = &mut p.decommitment_list[k];
                    let mut next = p.const_val;
                    for l in (0..layers).rev() {
                        let m = n >> l;
                        let w = sq(g, l) * root(m, i % m);
                        let e = d.evaluations[l];
                        let s = d.sym_evaluations[l];
                        // (r+w) e/(2w) - (r-w) s/(2w) = next
                        if side == "sym" {
                            d.sym_evaluations[l] = ((r[l] + w) * e - next * (w + w)) * (r[l] - w).inverse().unwrap();
                            same &= d.sym_evaluations[l] == s;
                        } else {
                            if side == "both" {
                                d.sym_evaluations[l] = adv(format!("s{k}.{l}"));
                            }
                            let s2 = d.sym_evaluations[l];
                            d.evaluations[l] = (next * (w + w) + (r[l] - w) * s2) * (r[l] + w).inverse().unwrap();
                            same &= (d.evaluations[l] == e) & (s2 == s);
                        }
                        next = d.evaluations[l];
                    }
                }
                if accepted(p) {
                    check(same, "values that were not committed are rejected");
                } else {
                    check(true, "rejected");
                }
            })
            .max_depth = 1;
        }
    }
    // openings out of trees nobody committed to
    s.add("other-tree", || {
        let mut p = honest(4, 2, 2);
        let (r, idx) = challenges(&p.layers_root, p.const_val, 2);
        let d: Fq = adv("d");
        for k in 0..2 {
            let (a, b) = (idx[k] % 8, (idx[k] + 4) % 8);
            let w = p.coset * root(8, a);
            let q = &mut p.decommitment_list[k];
            // another pair with the same folding
            let (e, s) = (q.evaluations[0] + (r[0] - w) * d, q.sym_evaluations[0] + (r[0] + w) * d);
            let mut leaves: Vec<Fq> = (0..8).map(|i| con(format!("l{k}{i}"))).collect();
            leaves[a] = e;
            leaves[b] = s;
            let t = MerkleTree::new(leaves);
            q.evaluations[0] = e;
            q.sym_evaluations[0] = s;
            q.auth_paths[0] = t.generate_proof(a);
            q.sym_auth_paths[0] = t.generate_proof(b);
        }
        check(!accepted(p), "openings of another tree are rejected");
    });
    for layer in 0..3usize {
        for side in 0..2usize {
            s.add(format!("foreign-layer{layer}-side{side}"), move || {
                // the right values, out of a tree that was not committed to
                for k in 0..3 {
                    let mut p = honest(8, 2, 3);
                    let m = 16 >> layer;
                    let q = &mut p.decommitment_list[k];
                    let path = if side == 0 { &mut q.auth_paths[layer] } else { &mut q.sym_auth_paths[layer] };
                    let mut leaves: Vec<Fq> = advs(&format!("l{k}."), m);
                    leaves[path.index] = path.leaf_val;
                    *path = MerkleTree::new(leaves).generate_proof(path.index);
                    check(!accepted(p), "openings of another tree are rejected");
                }
            });
        }
    }
    for layer in 0..2usize {
        for side in 0..2usize {
            s.add(format!("path-layer{layer}-side{side}"), move || {
                let m = 8 >> layer;
                for j in 0..log2(m) + 1 {
                    let mut p = honest(4, 2, 2);
                    let q = &mut p.decommitment_list[1];
                    let path = if side == 0 { &mut q.auth_paths[layer] } else { &mut q.sym_auth_paths[layer] };
                    let (mut h, mut r) = path.parts();
                    let d: Fq = adv(format!("d{j}"));
                    if j < h.len() {
                        h[j] += d;
                    } else {
                        r += d;
                    }
                    *path = MerkleProof::from_parts(path.index, path.leaf_val, h, r);
                    if accepted(p) {
                        check(d.is_zero(), "an altered path is rejected");
                    } else {
                        check(true, "rejected");
                    }
                }
                for cut in [true, false] {
                    let mut p = honest(4, 2, 2);
                    let q = &mut p.decommitment_list[0];
                    let path = if side == 0 { &mut q.auth_paths[layer] } else { &mut q.sym_auth_paths[layer] };
                    let (mut h, r) = path.parts();
                    if cut {
                        h.pop();
                    } else {
                        h.push(adv("x"));
                    }
                    *path = MerkleProof::from_parts(path.index, path.leaf_val, h, r);
                    check(!accepted(p), "a path of another length is rejected");
                }
            });
        }
    }

    // --------------------------------------------------------------- Merkle
    s.prop("F05");
    for n in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 24, 33, 64, 100] {
        s.add(format!("complete{n}"), move || {
            let v: Vec<Fq> = inps("v", n);
            let t = MerkleTree::new(v.clone());
            for i in 0..n {
                let Some(p) = completes("open", || t.generate_proof(i)) else { continue };
                check(p.index == i && p.leaf_val == v[i], "a proof shows the leaf asked for");
                check(p.parts().1 == t.root(), "a proof is for the tree's root");
                check(verify_merkle_proof(&p), "every leaf's proof is accepted");
            }
        });
        s.add(format!("root-binds{n}"), move || {
            let (v, w): (Vec<Fq>, Vec<Fq>) = (inps("v", n), advs("w", n));
            let (a, b) = (MerkleTree::new(v.clone()), MerkleTree::new(w.clone()));
            let eq = (0..n).fold(true, |e, i| e & (v[i] == w[i]));
            check((a.root() == b.root()) == eq, "different leaves have different roots");
        });
    }
    for (n, m) in [(4usize, 2usize), (8, 2), (8, 4), (4, 1), (16, 8), (16, 4), (2, 1)] {
        s.add(format!("levels{n}-{m}"), move || {
            // a tree of another size over whatever leaves
            let v: Vec<Fq> = inps("v", n);
            let w: Vec<Fq> = advs("w", m);
            let (a, b) = (MerkleTree::new(v), MerkleTree::new(w));
            check(a.root() != b.root(), "trees of different sizes have different roots");
        });
        s.add(format!("inner{n}-{m}"), move || {
            // the inner nodes of a tree as the leaves of another
            let v: Vec<Fq> = inps("v", n);
            let a = MerkleTree::new(v);
            let level = (n / m).ilog2() as usize;
            let w: Vec<Fq> = (0..m)
                .map(|k| match m {
                    1 => a.root(),
                    _ => a.generate_proof((k ^ 1) * (n / m)).parts().0[level],
                })
                .collect();
            check(a.root() != MerkleTree::new(w).root(), "an inner level is not a level of leaves");
        });
    }
    s.add("plain", || {
        for n in [1usize, 2, 4] {
            for i in 0..n {
                let tree = |x: Fq| {
                    let mut v: Vec<Fq> = (0..n as u64).map(|k| Fq::from(41 + k)).collect();
                    v[i] = x;
                    MerkleTree::new(v)
                };
                apart("leaves that look alike give other roots", |x: Fq| tree(x).root());
                if n > 1 {
                    // the nodes beside the path
                    let p = tree(Fq::from(5u64)).generate_proof(i);
                    let (h, r) = p.parts();
                    let ok = plain::<Fq>().into_iter().filter(|d| !d.is_zero()).all(|d| {
                        (0..h.len()).all(|j| {
                            let mut h = h.clone();
                            h[j] += d;
                            !verify_merkle_proof(&MerkleProof::from_parts(i, p.leaf_val, h, r))
                        })
                    });
                    check(ok, "nodes that look alike are told apart");
                    // a node cut to some of its digits or bits, over many trees
                    let ok = (0..40u64).all(|x| {
                        let mut v: Vec<Fq> = (0..n as u64).map(|k| Fq::from(1000 * x + k)).collect();
                        v[i] = Fq::from(x);
                        let p = MerkleTree::new(v).generate_proof(i);
                        let (h, r) = p.parts();
                        (0..h.len()).all(|j| {
                            let w = ark_ff::PrimeField::into_bigint(h[j]).0[0];
                            [w / 10, w / 100, w % 10, w % (1 << 32), w >> 32, w >> 8, w % (1 << 63), w ^ 1, w % 1_000_000_000]
                                .into_iter()
                                .filter(|c| *c != w)
                                .all(|c| {
                                    let mut h = h.clone();
                                    h[j] = Fq::from(c);
                                    !verify_merkle_proof(&MerkleProof::from_parts(i, p.leaf_val, h, r))
                                })
                        })
                    });
                    check(ok, "a node cut short is told from the node");
                }
            }
        }
    })
    .max_depth = 0;
    for n in [2usize, 4, 8, 16, 32] {
        s.add(format!("leaf{n}"), move || {
            for i in 0..n {
                let v: Vec<Fq> = inps("v", n);
                let t = MerkleTree::new(v);
                let mut p = t.generate_proof(i);
                let x: Fq = adv(format!("x{i}"));
                let same = x == p.leaf_val;
                p.leaf_val = x;
                check(verify_merkle_proof(&p) == same, "another leaf value is rejected");
            }
        })
        .max_depth = 1;
        s.add(format!("path{n}"), move || {
            for i in 0..n {
                let v: Vec<Fq> = inps("v", n);
                let t = MerkleTree::new(v);
                let p = t.generate_proof(i);
                let (h, r) = p.parts();
                let x: Fq = adv(format!("x{i}"));
                let h2: Vec<Fq> = advs(&format!("h{i}."), h.len());
                let same = h.iter().zip(&h2).fold(x == p.leaf_val, |e, (a, b)| e & (a == b));
                let q = MerkleProof::from_parts(i, x, h2, r);
                check(verify_merkle_proof(&q) == same, "another path to the root is rejected");
            }
        })
        .max_depth = 1;
        s.add(format!("position{n}"), move || {
            let v: Vec<Fq> = inps("v", n);
            let t = MerkleTree::new(v.clone());
            for i in 0..n {
                for j in 0..n {
                    if i == j {
                        continue;
                    }
                    let mut p = t.generate_proof(i);
                    p.index = j;
                    if verify_merkle_proof(&p) {
                        check(v[i] == v[j], "a leaf is not accepted at another position");
                    } else {
                        check(true, "rejected");
                    }
                }
            }
        })
        .max_depth = 1;
    }
}

fn transcripts(s: &mut Suite) {
    s.prop("F06");
    fn feed(m: &[Fq]) -> Tr {
        let mut t = Tr::new(m[0]);
        for x in &m[1..] {
            t.digest(*x);
        }
        t
    }
    for n in [1usize, 2, 3, 4, 5, 7, 10, 20] {
        s.add(format!("binds{n}"), move || {
            let (a, b): (Vec<Fq>, Vec<Fq>) = (inps("a", n), inps("b", n));
            let eq = (0..n).fold(true, |e, i| e & (a[i] == b[i]));
            let (x, y) = (feed(&a).generate_a_challenge(), feed(&b).generate_a_challenge());
            check((x == y) == eq, "the challenge is the same exactly for the same messages");
        });
        s.add(format!("length{n}"), move || {
            let a: Vec<Fq> = inps("a", n);
            let x = feed(&a).generate_a_challenge();
            let mut b = a.clone();
            b.push(inp("b"));
            check(x != feed(&b).generate_a_challenge(), "one more message changes the challenge");
            let mut b = vec![inp("b")];
            b.extend(&a);
            check(x != feed(&b).generate_a_challenge(), "one more message in front changes the challenge");
        });
    }
    s.add("plain", || {
        apart("values that look alike give other challenges", |x: Fq| feed(&[x]).generate_a_challenge());
        apart("values that look alike give other challenges", |x: Fq| feed(&[Fq::from(7u64), x]).generate_a_challenge());
        apart("values that look alike give other challenges", |x: Fq| feed(&[x, Fq::from(7u64)]).generate_a_challenge());
        apart("values that look alike give other positions", |x: Fq| feed(&[x]).generate_challenge_list_usize(4));
    })
    .max_depth = 0;
    s.add("spread", || spread(|x: Fq| feed(&[x]).generate_a_challenge()));
    s.add("spread-list", || spread(|x: Fq| feed(&[x]).generate_challenges(2)[1]));
    s.add("order", || {
        let (a, b, c): (Fq, Fq, Fq) = (inp("a"), inp("b"), inp("c"));
        let x = feed(&[a, b, c]).generate_a_challenge();
        check((x == feed(&[b, a, c]).generate_a_challenge()) == (a == b), "the order of messages matters");
        check((x == feed(&[a, c, b]).generate_a_challenge()) == (b == c), "the order of messages matters");
    });
    s.add("history", || {
        // challenges already drawn do not cut the transcript off from its past
        let (a, b, c): (Fq, Fq, Fq) = (inp("a"), inp("b"), inp("c"));
        let run = |m: [Fq; 3]| {
            let mut t = Tr::new(m[0]);
            let x = t.generate_a_challenge();
            t.digest(m[1]);
            let y = t.generate_a_challenge();
            t.digest(m[2]);
            (x, y, t.generate_a_challenge())
        };
        let (x, y, z) = run([a, b, c]);
        check(x != y && y != z && x != z, "successive challenges differ");
        let d: Fq = inp("d");
        let (x2, y2, z2) = run([d, b, c]);
        check(((x == x2) == (a == d)) & ((y == y2) == (a == d)) & ((z == z2) == (a == d)), "all challenges depend on the first message");
        let (x2, y2, z2) = run([a, d, c]);
        check((x == x2) & ((y == y2) == (b == d)) & ((z == z2) == (b == d)), "later challenges depend on the second message");
    });
    s.add("list", || {
        let a: Fq = inp("a");
        let l = feed(&[a]).generate_challenges(4);
        check(l.len() == 4, "as many challenges as asked for");
        check((0..4).all(|i| (0..i).all(|j| l[i] != l[j])), "challenges of a list differ");
        let u = feed(&[a]).generate_challenge_list_usize(4);
        check(u.len() == 4 && (0..4).all(|i| u[i] as u64 == limbs(&l[i])[0]), "positions come from the challenges");
        let b: Fq = inp("b");
        let l2 = feed(&[b]).generate_challenges(4);
        check((0..4).fold(true, |e, i| e & ((l[i] == l2[i]) == (a == b))), "every element of a list depends on the messages");
        check(feed(&[a]).generate_challenges(0).is_empty(), "an empty list");
    });
    for n in [5usize, 17, 40, 130] {
        s.add(format!("list{n}"), move || {
            let (a, b): (Fq, Fq) = (inp("a"), inp("b"));
            let l = feed(&[a, b]).generate_challenges(n);
            check(l.len() == n && (0..n).all(|i| (0..i).all(|j| l[i] != l[j])), "challenges of a list differ");
            let d: Fq = inp("d");
            let m = feed(&[a, b + d]).generate_challenges(n);
            check((0..n).fold(true, |e, i| e & ((l[i] == m[i]) == d.is_zero())), "every element of a list depends on the messages");
            let u = feed(&[a, b]).generate_challenge_list_usize(n);
            check(u.len() == n && (0..n).all(|i| u[i] as u64 == limbs(&l[i])[0]), "positions come from the challenges");
        });
    }
    for n in [4usize, 6] {
        s.add(format!("history{n}"), move || {
            // a challenge after every message
            let run = |m: &[Fq]| -> Vec<Fq> {
                let mut t = Tr::new(m[0]);
                let mut c = vec![t.generate_a_challenge()];
                for x in &m[1..] {
                    t.digest(*x);
                    c.push(t.generate_a_challenge());
                }
                c
            };
            let a: Vec<Fq> = inps("a", n);
            let c = run(&a);
            check((0..n).all(|i| (0..i).all(|j| c[i] != c[j])), "successive challenges differ");
            for k in 0..n {
                let mut b = a.clone();
                let d: Fq = inp(format!("d{k}"));
                b[k] += d;
                let e = run(&b);
                check((0..n).fold(true, |t, i| t & ((c[i] == e[i]) == (i < k || d.is_zero()))), "a challenge depends on all messages before it and on none after");
            }
        });
    }
    s.add("mixed-draws", || {
        // lists and single challenges in one history
        let (a, b, d): (Fq, Fq, Fq) = (inp("a"), inp("b"), inp("d"));
        let run = |a: Fq| {
            let mut t = Tr::new(a);
            let l = t.generate_challenges(3);
            t.digest(b);
            let u = t.generate_challenge_list_usize(2);
            t.digest(l[2]);
            (l, u, t.generate_a_challenge())
        };
        let ((l, u, x), (m, v, y)) = (run(a), run(a + d));
        check((0..3).fold(true, |e, i| e & ((l[i] == m[i]) == d.is_zero())), "lists depend on the messages");
        check((u == v) == d.is_zero(), "positions depend on all messages before");
        check((x == y) == d.is_zero() && x != l[0] && x != l[1] && x != l[2], "challenges after lists depend on all messages before");
    });
    s.add("fed", || {
        let a: Fq = inp("a");
        for second in 0..3 {
            let mut t = feed(&[a]);
            let _ = t.generate_a_challenge();
            let r = attempt(|| match second {
                0 => drop(t.generate_a_challenge()),
                1 => drop(t.generate_challenges(1)),
                _ => drop(t.generate_challenge_list_usize(1)),
            });
            check(r.is_none(), "no second challenge without a new message");
        }
    });
    s.add("hash", || {
        let a: Fq = inp("a");
        let x = Transcript::<Sha512, Fq>::new(a).generate_a_challenge();
        check(x != feed(&[a]).generate_a_challenge(), "the chosen hash is used");
    });
}
