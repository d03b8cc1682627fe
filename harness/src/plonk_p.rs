//! PLONK: circuits, prover, verifier, equation parser.
use crate::kzg_p::{g1, horner};
use crate::rt::*;
use ark_bls12_381::Fr;
use ark_ec::CurveGroup;
use ark_ff::{Field, One, UniformRand, Zero};
use ark_poly::{DenseUVPolynomial, EvaluationDomain, GeneralEvaluationDomain, Polynomial};
use ark_serialize::CanonicalSerialize;
use kzg::commitment::KzgCommitment;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use kzg::types::Poly;
use plonk::circuit::Circuit;
use plonk::common_preprocessed_input::cpi_circuit::CPICircuit;
use plonk::common_preprocessed_input::cpi_parser::CPIGenerator;
use plonk::compiled_circuit::CompiledCircuit;
use plonk::constraint::{CopyConstraints, GateConstraints};
use plonk::parser::Parser;
use plonk::prover::{generate_proof, Proof};
use plonk::verifier::verify;
use rand::rngs::StdRng;
use rand::SeedableRng;
use sha2::digest::Digest;
use sha2::{Sha256, Sha512};

/// A circuit written down by its wiring.
#[derive(Clone)]
pub struct Net {
    /// 'a'dd, 'm'ul, 'c'onstant and the variable at each of the three positions
    pub gates: Vec<(char, [usize; 3])>,
}
type Rows = Vec<[Fr; 3]>;
impl Net {
    pub fn new(g: &[(char, [usize; 3])]) -> Net {
        Net { gates: g.to_vec() }
    }
    /// where the copy cycle of each position goes next
    pub fn next(&self, row: usize, col: usize) -> (usize, usize) {
        let v = self.gates[row].1[col];
        let mut at = vec![];
        for (r, g) in self.gates.iter().enumerate() {
            for c in 0..3 {
                if g.1[c] == v {
                    at.push((c, r));
                }
            }
        }
        let i = at.iter().position(|p| *p == (col, row)).unwrap();
        at[(i + 1) % at.len()]
    }
    pub fn rows(&self, v: &[Fr]) -> Rows {
        self.gates.iter().map(|g| [v[g.1[0]], v[g.1[1]], v[g.1[2]]]).collect()
    }
    pub fn build(&self, w: &Rows, pi: &[Fr]) -> Circuit {
        let mut c = Circuit::default();
        for (r, g) in self.gates.iter().enumerate() {
            let p = |k: usize| {
                let n = self.next(r, k);
                (n.0, n.1, w[r][k])
            };
            let i = pi.get(r).copied().unwrap_or(Fr::zero());
            match g.0 {
                'a' => c.add_addition_gate(p(0), p(1), p(2), i),
                'm' => c.add_multiplication_gate(p(0), p(1), p(2), i),
                _ => c.add_constant_gate(p(0), p(1), p(2), i),
            }
        }
        c
    }
    pub fn cpi(&self, w: &Rows, pi: &[Fr]) -> CPICircuit {
        let mut c = CPICircuit::default();
        for (r, g) in self.gates.iter().enumerate() {
            let (p, q, s) = (self.next(r, 0), self.next(r, 1), self.next(r, 2));
            let i = pi.get(r).copied().unwrap_or(Fr::zero());
            c = match g.0 {
                'a' => c.add_addition_gate(p, q, s, i),
                'm' => c.add_multiplication_gate(p, q, s, i),
                _ => c.add_constant_gate(p, q, s, w[r][0], i),
            };
        }
        c
    }
    pub fn sat(&self, w: &Rows, pi: &[Fr]) -> bool {
        let mut ok = true;
        for (r, g) in self.gates.iter().enumerate() {
            let [a, b, c] = w[r];
            let i = pi.get(r).copied().unwrap_or(Fr::zero());
            ok &= match g.0 {
                'a' => a + b == c + i,
                'm' => a * b == c + i,
                _ => i.is_zero(),
            };
        }
        for r in 0..w.len() {
            for c in 0..3 {
                let (c2, r2) = self.next(r, c);
                ok &= w[r][c] == w[r2][c2];
            }
        }
        ok
    }
}

fn cm(x: Fr) -> KzgCommitment {
    KzgCommitment(g1(x))
}
fn poly(c: &[Fr]) -> Poly {
    Poly::from_coefficients_slice(c)
}
pub fn srs_of(n: usize) -> (Srs, Fr) {
    let s: Fr = sec("s");
    (Srs::new_from_secret(s, n), s)
}

// ------------------------------------------------- the protocol, restated
struct Chal {
    beta: Fr,
    gamma: Fr,
    alpha: Fr,
    zeta: Fr,
    v: Fr,
    u: Fr,
}
struct Tr<T> {
    data: Vec<u8>,
    t: std::marker::PhantomData<T>,
}
impl<T: Digest> Tr<T> {
    fn feed(&mut self, c: &KzgCommitment) {
        let mut b = vec![];
        c.0.serialize_uncompressed(&mut b).unwrap();
        let mut h = T::new();
        h.update(&self.data);
        h.update(&b);
        self.data = h.finalize().to_vec();
    }
    fn draw(&self, n: usize) -> Vec<Fr> {
        let seed = u64::from_le_bytes(self.data[..8].try_into().unwrap());
        let mut r = StdRng::seed_from_u64(seed);
        (0..n).map(|_| Fr::rand(&mut r)).collect()
    }
}
fn challenges<T: Digest>(p: &Proof, pi: &KzgCommitment) -> Chal {
    let mut t: Tr<T> = Tr {
        data: vec![],
        t: Default::default(),
    };
    t.feed(pi);
    for c in [&p.a_commit, &p.b_commit, &p.c_commit] {
        t.feed(c);
    }
    let bg = t.draw(2);
    t.feed(&p.z_commit);
    let alpha = t.draw(1)[0];
    for c in [&p.t_lo_commit, &p.t_mid_commit, &p.t_hi_commit] {
        t.feed(c);
    }
    let zeta = t.draw(1)[0];
    for x in [p.bar_a, p.bar_b, p.bar_c, p.bar_s_sigma_1, p.bar_s_sigma_2, p.bar_z_w] {
        t.feed(&cm(x));
    }
    let v = t.draw(1)[0];
    t.feed(&p.w_ev_x_commit);
    t.feed(&p.w_ev_wx_commit);
    let u = t.draw(1)[0];
    Chal {
        beta: bg[0],
        gamma: bg[1],
        alpha,
        zeta,
        v,
        u,
    }
}
pub fn pw(x: Fr, n: usize) -> Fr {
    let mut r = Fr::one();
    for _ in 0..n {
        r *= x;
    }
    r
}
/// discrete logs of the commitments of a proof
#[derive(Clone)]
struct Logs {
    a: Fr,
    b: Fr,
    c: Fr,
    z: Fr,
    tl: Fr,
    tm: Fr,
    th: Fr,
    bars: [Fr; 6],
    deg: usize,
}
impl Logs {
    fn proof(&self, w: Fr, w2: Fr, u: Fr) -> Proof {
        Proof {
            a_commit: cm(self.a),
            b_commit: cm(self.b),
            c_commit: cm(self.c),
            z_commit: cm(self.z),
            t_lo_commit: cm(self.tl),
            t_mid_commit: cm(self.tm),
            t_hi_commit: cm(self.th),
            w_ev_x_commit: cm(w),
            w_ev_wx_commit: cm(w2),
            bar_a: self.bars[0],
            bar_b: self.bars[1],
            bar_c: self.bars[2],
            bar_s_sigma_1: self.bars[3],
            bar_s_sigma_2: self.bars[4],
            bar_z_w: self.bars[5],
            u,
            degree: self.deg,
        }
    }
    /// (linearisation plus batched openings at zeta) minus the claimed values:
    /// what the opening at zeta has to divide
    fn at_zeta(&self, cc: &CompiledCircuit, s: Fr, h: &Chal) -> Fr {
        let n = cc.size;
        let g = cc.gate_constraints();
        let cp = cc.copy_constraints();
        let e = |p: &Poly| horner(&p.coeffs, s);
        let [ba, bb, bc, s1, s2, zw] = self.bars;
        let zh = pw(h.zeta, n) - Fr::one();
        let l1 = zh / (Fr::from(n as u64) * (h.zeta - Fr::one()));
        let pie = horner(&g.pi_x().coeffs, h.zeta);
        let gate = ba * bb * e(g.q_mx()) + ba * e(g.q_lx()) + bb * e(g.q_rx()) + bc * e(g.q_ox()) + pie + e(g.q_cx());
        let (be, ga) = (h.beta, h.gamma);
        let perm1 = (ba + be * h.zeta + ga) * (bb + be * *cp.k1() * h.zeta + ga) * (bc + be * *cp.k2() * h.zeta + ga) * self.z;
        let perm2 = (ba + be * s1 + ga) * (bb + be * s2 + ga) * (bc + be * e(cp.s_sigma_3()) + ga) * zw;
        let first = (self.z - Fr::one()) * l1;
        let t = self.tl + pw(h.zeta, self.deg + 1) * self.tm + pw(h.zeta, 2 * (self.deg + 1)) * self.th;
        let r = gate + h.alpha * (perm1 - perm2) + h.alpha * h.alpha * first - zh * t;
        let v = h.v;
        r + v * (self.a - ba)
            + v * v * (self.b - bb)
            + v * v * v * (self.c - bc)
            + pw(v, 4) * (e(cp.s_sigma_1()) - s1)
            + pw(v, 5) * (e(cp.s_sigma_2()) - s2)
    }
}
fn random_circuit(n: usize, k: usize) -> CompiledCircuit {
    let p = |name: &str| poly(&inps::<Fr>(name, k));
    let z = || poly(&[]);
    CompiledCircuit::new(
        GateConstraints::new(z(), z(), z(), p("ql"), p("qr"), p("qo"), p("qm"), p("qc"), p("pi")),
        CopyConstraints::new(p("s1."), p("s2."), p("s3."), inp("k1"), inp("k2")),
        n,
    )
}
fn random_logs(deg: usize) -> Logs {
    Logs {
        a: inp("A"),
        b: inp("B"),
        c: inp("C"),
        z: inp("Z"),
        tl: inp("TL"),
        tm: inp("TM"),
        th: inp("TH"),
        bars: [inp("ba"), inp("bb"), inp("bc"), inp("bs1"), inp("bs2"), inp("bzw")],
        deg,
    }
}

/// Values the constraint polynomials take on the domain, and who is whose copy.
pub struct Table {
    pub n: usize,
    pub w: Vec<[Fr; 3]>,
    /// ql qr qo qm qc pi
    pub q: Vec<[Fr; 6]>,
    pub sigma: Vec<[Option<(usize, usize)>; 3]>,
}
impl Table {
    pub fn of(cc: &CompiledCircuit) -> Table {
        let n = cc.size;
        let d = GeneralEvaluationDomain::<Fr>::new(n).unwrap();
        let x: Vec<Fr> = (0..n).map(|i| d.element(i)).collect();
        let g = cc.gate_constraints();
        let cp = cc.copy_constraints();
        let e = |p: &Poly, i: usize| p.evaluate(&x[i]);
        let w = (0..n).map(|i| [e(g.f_ax(), i), e(g.f_bx(), i), e(g.f_cx(), i)]).collect();
        let q = (0..n)
            .map(|i| [e(g.q_lx(), i), e(g.q_rx(), i), e(g.q_ox(), i), e(g.q_mx(), i), e(g.q_cx(), i), e(g.pi_x(), i)])
            .collect();
        let find = |v: Fr| {
            for (c, k) in [Fr::one(), *cp.k1(), *cp.k2()].into_iter().enumerate() {
                for (r, x) in x.iter().enumerate() {
                    if same(&v, &(k * x)) {
                        return Some((c, r));
                    }
                }
            }
            None
        };
        let sigma = (0..n)
            .map(|i| [find(e(cp.s_sigma_1(), i)), find(e(cp.s_sigma_2(), i)), find(e(cp.s_sigma_3(), i))])
            .collect();
        Table { n, w, q, sigma }
    }
    pub fn gate(&self, i: usize) -> Fr {
        let [a, b, c] = self.w[i];
        let [l, r, o, m, k, p] = self.q[i];
        l * a + r * b + o * c + m * a * b + k + p
    }
    pub fn sat(&self) -> bool {
        let mut ok = true;
        for i in 0..self.n {
            ok &= self.gate(i).is_zero();
            for c in 0..3 {
                ok &= match self.sigma[i][c] {
                    Some((c2, r2)) => self.w[i][c] == self.w[r2][c2],
                    None => false,
                };
            }
        }
        ok
    }
    /// positions in the copy cycle of this one
    pub fn cycle(&self, row: usize, col: usize) -> Vec<(usize, usize)> {
        let mut v = vec![(col, row)];
        let mut p = (col, row);
        for _ in 0..3 * self.n {
            p = match self.sigma[p.1][p.0] {
                Some(p) => p,
                None => break,
            };
            if v.contains(&p) {
                break;
            }
            v.push(p);
        }
        v
    }
}

const FIELDS: [&str; 16] = [
    "a", "b", "c", "z", "t_lo", "t_mid", "t_hi", "w_x", "w_wx", "bar_a", "bar_b", "bar_c", "bar_s1", "bar_s2", "bar_zw", "u",
];
fn shift(p: &mut Proof, f: &str, d: Fr) {
    let g = |c: &mut KzgCommitment| c.0 = (c.0 + g1(d)).into_affine();
    match f {
        "a" => g(&mut p.a_commit),
        "b" => g(&mut p.b_commit),
        "c" => g(&mut p.c_commit),
        "z" => g(&mut p.z_commit),
        "t_lo" => g(&mut p.t_lo_commit),
        "t_mid" => g(&mut p.t_mid_commit),
        "t_hi" => g(&mut p.t_hi_commit),
        "w_x" => g(&mut p.w_ev_x_commit),
        "w_wx" => g(&mut p.w_ev_wx_commit),
        "bar_a" => p.bar_a += d,
        "bar_b" => p.bar_b += d,
        "bar_c" => p.bar_c += d,
        "bar_s1" => p.bar_s_sigma_1 += d,
        "bar_s2" => p.bar_s_sigma_2 += d,
        "bar_zw" => p.bar_z_w += d,
        "u" => p.u += d,
        _ => unreachable!(),
    }
}
/// x*y = z, z + k = w with public inputs on both rows, and a constant gate
fn demo() -> (Net, Vec<Fr>, Vec<Fr>) {
    let net = Net::new(&[('m', [0, 1, 2]), ('a', [2, 3, 4]), ('c', [3, 5, 6]), ('m', [4, 4, 7])]);
    let (x, y, k) = (Fr::from(3u64), Fr::from(11u64), Fr::from(7u64));
    let pi = vec![Fr::from(5u64), Fr::from(2u64), Fr::zero(), Fr::zero()];
    let z = x * y - pi[0];
    let w = z + k - pi[1];
    (net, vec![x, y, z, k, w, Fr::zero(), k, w * w], pi)
}
/// a concrete honest proof
fn fixed_proof() -> (Net, Vec<Fr>, Vec<Fr>, Srs, Proof) {
    let _g = symcore::mute();
    let (net, v, pi) = demo();
    let cc = net.build(&net.rows(&v), &pi).compile().unwrap();
    let srs = Srs::new_from_secret(Fr::from(987654321987654321u64).square().square(), cc.size);
    let p = generate_proof::<Sha256>(&cc, srs.clone());
    (net, v, pi, srs, p)
}
fn pi_commit(cc: &CompiledCircuit, srs: &Srs) -> KzgCommitment {
    KzgScheme::new(srs.clone()).commit(cc.gate_constraints().pi_x())
}

/// output variable of the last gate
fn gates_last(g: &[(char, [usize; 3])]) -> usize {
    g.last().unwrap().1[2]
}

pub fn add(s: &mut Suite) {
    // ---------------------------------------------------- completeness
    s.prop("P01");
    let nets: Vec<(&str, Net, usize, bool)> = vec![
        ("mul", Net::new(&[('m', [0, 1, 2])]), 2, false),
        ("square", Net::new(&[('m', [0, 0, 1])]), 1, false),
        ("two", Net::new(&[('m', [0, 1, 2]), ('a', [2, 1, 3])]), 2, false),
        ("const", Net::new(&[('c', [0, 1, 2]), ('m', [0, 3, 4])]), 4, false),
        ("three", Net::new(&[('a', [0, 0, 1]), ('m', [1, 0, 2]), ('m', [2, 2, 3])]), 1, false),
        ("four", Net::new(&[('m', [0, 1, 2]), ('c', [3, 4, 5]), ('a', [2, 3, 6]), ('m', [6, 6, 7])]), 2, false),
        ("five", Net::new(&[('m', [0, 0, 1]), ('a', [1, 0, 2]), ('m', [2, 1, 3]), ('a', [3, 3, 4]), ('m', [4, 0, 5])]), 1, true),
    ];
    for (name, net, free, deep) in nets {
        let body = move || {
            // the first `free` variables are symbolic, the others follow
            let nv = net.gates.iter().flat_map(|g| g.1).max().unwrap() + 1;
            let mut v: Vec<Option<Fr>> = vec![None; nv];
            for i in 0..free {
                v[i] = Some(inp(format!("x{i}")));
            }
            let mut pi = vec![];
            for (r, g) in net.gates.iter().enumerate() {
                for k in 0..2 {
                    if v[g.1[k]].is_none() {
                        v[g.1[k]] = Some(inp(format!("f{r}.{k}")));
                    }
                }
                let (a, b) = (v[g.1[0]].unwrap(), v[g.1[1]].unwrap());
                let p: Fr = if g.0 == 'c' || r > 1 { Fr::zero() } else { inp(format!("pi{r}")) };
                pi.push(p);
                if v[g.1[2]].is_none() {
                    v[g.1[2]] = Some(match g.0 {
                        'a' => a + b - p,
                        'm' => a * b - p,
                        _ => inp(format!("f{r}.2")),
                    });
                }
            }
            let v: Vec<Fr> = v.into_iter().map(|x| x.unwrap_or(Fr::zero())).collect();
            let rows = net.rows(&v);
            let Some(cc) = completes("compile", || net.build(&rows, &pi).compile().unwrap()) else { return };
            let (srs, _) = srs_of(cc.size);
            let Some(p) = completes("prove", || generate_proof::<Sha256>(&cc, srs.clone())) else { return };
            let r = completes("verify", || verify::<Sha256>(&cc, srs, p));
            check(matches!(r, Some(Ok(()))), "honest proof is accepted");
        };
        let c = if deep { s.deep(name, body) } else { s.add(name, body) };
        c.max_paths = 12;
        c.max_depth = 1;
    }

    // more rows: one row is free, the others carry fixed numbers
    for (n, free, deep) in [(5usize, 4usize, false), (6, 0, true), (8, 7, true), (9, 8, false), (16, 15, true), (20, 19, false), (33, 32, true)] {
        let body = move || {
            let mut gates = vec![];
            let (mut w, mut pi): (Rows, Vec<Fr>) = (vec![], vec![]);
            let mut v: Vec<Fr> = vec![];
            for r in 0..n {
                let kind = ['m', 'a', 'c', 'm', 'a'][r % 5];
                let val = |v: &mut Vec<Fr>, i: usize| {
                    v.push(if r == free { inp(format!("x{i}")) } else { con(format!("x{r}.{i}")) });
                    v.len() - 1
                };
                let i = if r > 0 && r != free && kind != 'c' { gates_last(&gates) } else { val(&mut v, 0) };
                let j = val(&mut v, 1);
                let p: Fr = match kind {
                    'c' => Fr::zero(),
                    _ if r == free => inp("pi"),
                    _ => con(format!("pi{r}")),
                };
                v.push(match kind {
                    'm' => v[i] * v[j] - p,
                    'a' => v[i] + v[j] - p,
                    _ => con(format!("o{r}")),
                });
                let k = v.len() - 1;
                gates.push((kind, [i, j, k]));
                w.push([v[i], v[j], v[k]]);
                pi.push(p);
            }
            let net = Net::new(&gates);
            let Some(cc) = completes("compile", || net.build(&w, &pi).compile().unwrap()) else { return };
            let srs = if n > 16 { Srs::new_from_secret(con("s"), cc.size) } else { srs_of(cc.size).0 };
            let _g = (n > 16).then(symcore::mute);
            let Some(p) = completes("prove", || generate_proof::<Sha256>(&cc, srs.clone())) else { return };
            let r = completes("verify", || verify::<Sha256>(&cc, srs, p));
            check(matches!(r, Some(Ok(()))), "honest proof is accepted");
        };
        let c = if deep { s.deep(format!("rows{n}"), body) } else { s.add(format!("rows{n}"), body) };
        c.max_paths = 12;
        c.max_depth = if n > 16 { 0 } else { 1 };
    }

    // -------------------------------------------------- prover refuses
    s.prop("P02");
    let small: Vec<(&str, Net)> = vec![
        ("mul", Net::new(&[('m', [0, 1, 2])])),
        ("add", Net::new(&[('a', [0, 1, 2])])),
        ("square", Net::new(&[('m', [0, 0, 1])])),
        ("chain", Net::new(&[('m', [0, 1, 2]), ('a', [2, 0, 3])])),
        ("const", Net::new(&[('c', [0, 1, 2]), ('a', [0, 3, 4])])),
    ];
    for (name, net) in small {
        let c = s.add(name, move || {
            // every position has its own value: gates and copies both in question
            let w: Rows = (0..net.gates.len())
                .map(|r| [inp(format!("a{r}")), inp(format!("b{r}")), inp(format!("c{r}"))])
                .collect();
            let pi: Vec<Fr> = (0..net.gates.len()).map(|r| inp(format!("pi{r}"))).collect();
            let want = net.sat(&w, &pi);
            let cc = net.build(&w, &pi).compile().unwrap();
            let (srs, _) = srs_of(cc.size);
            let got = attempt(|| generate_proof::<Sha256>(&cc, srs.clone()));
            check(got.is_some() == want, "a proof is produced exactly for satisfying assignments");
            if let Some(p) = got {
                check(verify::<Sha256>(&cc, srs, p).is_ok(), "what is produced is accepted");
            }
        });
        c.max_depth = 4;
        c.max_paths = 24;
    }
    // a larger circuit: a satisfying assignment with one position off by a free value
    for r in 0..5usize {
        for col in 0..3usize {
            let c = s.add(format!("position{r}-{col}"), move || {
                let net = Net::new(&[('m', [0, 0, 1]), ('a', [1, 2, 3]), ('c', [4, 5, 6]), ('m', [3, 1, 7]), ('a', [7, 3, 8])]);
                let x: Vec<Fr> = (0..5).map(|i| con(format!("x{i}"))).collect();
                let pi: Vec<Fr> = [con("p0"), con("p1"), Fr::zero(), con("p3"), con("p4")].to_vec();
                let v1 = x[0] * x[0] - pi[0];
                let v3 = v1 + x[1] - pi[1];
                let v7 = v3 * v1 - pi[3];
                let v = [x[0], v1, x[1], v3, x[2], x[3], x[4], v7, v7 + v3 - pi[4]];
                let mut w = net.rows(&v);
                w[r][col] += inp::<Fr>("d");
                let want = net.sat(&w, &pi);
                let cc = net.build(&w, &pi).compile().unwrap();
                let (srs, _) = srs_of(cc.size);
                let got = attempt(|| generate_proof::<Sha256>(&cc, srs.clone()));
                check(got.is_some() == want, "a proof is produced exactly for satisfying assignments");
                if let Some(p) = got {
                    check(verify::<Sha256>(&cc, srs, p).is_ok(), "what is produced is accepted");
                }
            });
            c.max_depth = if (r, col) == (1, 1) { 1 } else { 0 };
            c.max_paths = 6;
        }
    }

    // ------------------------------------------ verifier = PLONK equation
    s.prop("P03");
    for (n, k, deg) in [(1usize, 1usize, 0usize), (2, 2, 3), (4, 3, 5), (8, 2, 9), (16, 3, 18), (32, 2, 40)] {
        s.add(format!("accepts{n}"), move || {
            let cc = random_circuit(n, k);
            let (srs, s) = srs_of(n);
            let l = random_logs(deg);
            let pic = pi_commit(&cc, &srs);
            let h = challenges::<Sha256>(&l.proof(Fr::zero(), Fr::zero(), Fr::zero()), &pic);
            let om: Fr = GeneralEvaluationDomain::<Fr>::new(n).unwrap().element(1);
            let w = l.at_zeta(&cc, s, &h) / (s - h.zeta);
            let w2 = (l.z - l.bars[5]) / (s - h.zeta * om);
            let mut p = l.proof(w, w2, Fr::zero());
            p.u = challenges::<Sha256>(&p, &pic).u;
            check(verify::<Sha256>(&cc, srs, p).is_ok(), "a proof satisfying the PLONK equations is accepted");
        })
        .max_paths = if n > 8 { 40 } else { 240 };
        s.add(format!("exact{n}"), move || {
            let cc = random_circuit(n, k);
            let (srs, s) = srs_of(n);
            let l = random_logs(deg);
            let pic = pi_commit(&cc, &srs);
            let h = challenges::<Sha256>(&l.proof(Fr::zero(), Fr::zero(), Fr::zero()), &pic);
            let om: Fr = GeneralEvaluationDomain::<Fr>::new(n).unwrap().element(1);
            let (e1, e2, eu): (Fr, Fr, Fr) = (adv("e1"), adv("e2"), adv("eu"));
            let d1 = l.at_zeta(&cc, s, &h);
            let d2 = l.z - l.bars[5];
            let w = d1 / (s - h.zeta) + e1;
            let w2 = d2 / (s - h.zeta * om) + e2;
            let mut p = l.proof(w, w2, Fr::zero());
            let u = challenges::<Sha256>(&p, &pic).u;
            p.u = u + eu;
            let open = w * (s - h.zeta) + u * w2 * (s - h.zeta * om) == d1 + u * d2;
            let want = open & (p.u == u);
            let got = accepts(|| verify::<Sha256>(&cc, srs, p).is_ok());
            check(got == want, "accepted exactly when the PLONK equations hold");
        })
        .max_paths = if n > 8 { 40 } else { 240 };
    }

    // ----------------------------------------------------------- tampering
    s.prop("P04");
    for f in FIELDS {
        s.add(format!("{f}"), move || {
            let (net, v, pi, srs, mut p) = fixed_proof();
            let cc = net.build(&net.rows(&v), &pi).compile().unwrap();
            let (d, u): (Fr, Fr) = (adv("d"), adv("u"));
            shift(&mut p, f, d);
            if f != "u" {
                // the last challenge is public: the adversary adapts it
                p.u = u;
            }
            let ok = accepts(|| verify::<Sha256>(&cc, srs, p).is_ok());
            if ok {
                check(d.is_zero(), "a changed proof is rejected");
            } else {
                check(true, "rejected");
            }
        });
    }
    let mut pairs = vec![];
    for i in 0..FIELDS.len() {
        for j in i + 1..FIELDS.len() {
            pairs.push((FIELDS[i], FIELDS[j]));
        }
    }
    for (i, j) in pairs {
        let quick = matches!(
            (i, j),
            ("a", "bar_a") | ("b", "bar_b") | ("c", "bar_c") | ("bar_a", "bar_b") | ("bar_b", "bar_c") | ("bar_s1", "bar_s2")
                | ("z", "bar_zw") | ("t_lo", "t_mid") | ("t_mid", "t_hi") | ("t_lo", "t_hi") | ("w_x", "w_wx") | ("bar_c", "bar_zw")
                | ("a", "b") | ("z", "t_lo") | ("c", "z") | ("t_hi", "bar_a") | ("bar_zw", "w_x") | ("t_lo", "w_x") | ("a", "w_x")
                | ("z", "w_wx") | ("bar_s2", "bar_zw") | ("bar_a", "w_x") | ("bar_c", "bar_s1")
        );
        let body = move || {
            let (net, v, pi, srs, mut p) = fixed_proof();
            let cc = net.build(&net.rows(&v), &pi).compile().unwrap();
            let (d, e): (Fr, Fr) = (adv("d"), adv("e"));
            shift(&mut p, i, d);
            shift(&mut p, j, e);
            if j != "u" {
                p.u = adv("u");
            }
            if accepts(|| verify::<Sha256>(&cc, srs, p).is_ok()) {
                check(d.is_zero() & e.is_zero(), "a changed proof is rejected");
            } else {
                check(true, "rejected");
            }
        };
        if quick {
            s.add(format!("{i}+{j}"), body);
        } else {
            s.deep(format!("{i}+{j}"), body);
        }
    }
    s.add("degree", || {
        let (net, v, pi, srs, p) = fixed_proof();
        let cc = net.build(&net.rows(&v), &pi).compile().unwrap();
        for d in [0usize, 1, p.degree - 1, p.degree + 1, 2 * p.degree, 1 << 40, usize::MAX / 2, usize::MAX] {
            let q = {
                let _g = symcore::mute();
                let (_, _, _, _, mut q) = fixed_proof();
                q.degree = d;
                q
            };
            let ok = accepts(|| verify::<Sha256>(&cc, srs.clone(), q).is_ok());
            check(!ok, "a changed slice degree is rejected");
        }
    });
    s.add("public-input", || {
        // the statement changes, the proof does not
        let (net, v, pi, srs, p) = fixed_proof();
        let (d, e): (Fr, Fr) = (adv("d"), adv("e"));
        let pi2 = vec![pi[0] + d, pi[1] + e, pi[2], pi[3]];
        let cc = net.build(&net.rows(&v), &pi2).compile().unwrap();
        let ok = accepts(|| verify::<Sha256>(&cc, srs, p).is_ok());
        check(ok == (d.is_zero() & e.is_zero()), "a proof is not accepted for other public inputs");
    });
    s.add("public-input3", || {
        let (net, v, pi, srs, p) = fixed_proof();
        let (d, e): (Fr, Fr) = (adv("d"), adv("e"));
        let pi2 = vec![pi[0], pi[1], pi[2] + d, pi[3] + e];
        let cc = net.build(&net.rows(&v), &pi2).compile().unwrap();
        let ok = accepts(|| verify::<Sha256>(&cc, srs, p).is_ok());
        check(ok == (d.is_zero() & e.is_zero()), "a proof is not accepted for other public inputs");
    });
    s.add("other-constant", || {
        let (net, mut v, pi, srs, p) = fixed_proof();
        let d: Fr = adv("d");
        v[3] += d;
        let cc = net.build(&net.rows(&v), &pi).compile().unwrap();
        let ok = accepts(|| verify::<Sha256>(&cc, srs, p).is_ok());
        check(ok == d.is_zero(), "a proof is not accepted for another circuit constant");
    });
    s.add("other-setup", || {
        // a proof made under one set-up means nothing under another
        let (net, v, pi, srs, p) = fixed_proof();
        let cc = net.build(&net.rows(&v), &pi).compile().unwrap();
        let q = {
            let _g = symcore::mute();
            fixed_proof().4
        };
        let t: Fr = sec("t");
        let other = Srs::new_from_secret(t, cc.size);
        check(!accepts(|| verify::<Sha256>(&cc, other, p).is_ok()), "a proof is not accepted under another set-up");
        check(accepts(|| verify::<Sha256>(&cc, srs, q).is_ok()), "a proof is accepted under its own set-up");
    });
    for which in 0..11usize {
        s.add(format!("other-circuit{which}"), move || {
            // a verifier key whose which-th polynomial differs
            let (net, v, pi, srs, p) = fixed_proof();
            let cc = {
                let _g = symcore::mute();
                net.build(&net.rows(&v), &pi).compile().unwrap()
            };
            let g = cc.gate_constraints();
            let c = cc.copy_constraints();
            let d: Fr = adv("d");
            let t = |i: usize, p: &Poly| -> Poly {
                let mut q = p.clone();
                if i == which {
                    while q.coeffs.len() < 3 {
                        q.coeffs.push(Fr::zero());
                    }
                    q.coeffs[2] += d;
                }
                poly(&q.coeffs)
            };
            let k = |i: usize, x: &Fr| if i == which { *x + d } else { *x };
            let cc2 = CompiledCircuit::new(
                GateConstraints::new(
                    g.f_ax().clone(),
                    g.f_bx().clone(),
                    g.f_cx().clone(),
                    t(0, g.q_lx()),
                    t(1, g.q_rx()),
                    t(2, g.q_ox()),
                    t(3, g.q_mx()),
                    t(4, g.q_cx()),
                    t(5, g.pi_x()),
                ),
                CopyConstraints::new(t(6, c.s_sigma_1()), t(7, c.s_sigma_2()), t(8, c.s_sigma_3()), k(9, c.k1()), k(10, c.k2())),
                cc.size,
            );
            let ok = accepts(|| verify::<Sha256>(&cc2, srs, p).is_ok());
            check(ok == d.is_zero(), "a proof is not accepted for another circuit");
        });
    }

    // --------------------------------------------------------- transcript
    s.prop("P05");
    fn hashed<T: Digest + Default, U: Digest + Default>(same_hash: bool)
    where
        T: sha2::digest::Digest,
    {
        let (net, v, pi) = demo();
        let cc = {
            let _g = symcore::mute();
            net.build(&net.rows(&v), &pi).compile().unwrap()
        };
        let (srs, _) = srs_of(cc.size);
        let p = generate_proof::<T>(&cc, srs.clone());
        let pic = pi_commit(&cc, &srs);
        let h = challenges::<T>(&p, &pic);
        check(p.u == h.u, "the multipoint challenge is the transcript's, under the chosen hash");
        let e = |q: &Poly| q.evaluate(&h.zeta);
        check(
            p.bar_s_sigma_1 == e(cc.copy_constraints().s_sigma_1()) && p.bar_s_sigma_2 == e(cc.copy_constraints().s_sigma_2()),
            "values are opened at the transcript's point",
        );
        let r = accepts(|| verify::<U>(&cc, srs, p).is_ok());
        check(r == same_hash, "accepted exactly under the hash it was made with");
    }
    s.add("sha256", || hashed::<Sha256, Sha256>(true)).max_depth = 1;
    s.add("sha512", || hashed::<Sha512, Sha512>(true)).max_depth = 1;
    s.add("mixed", || hashed::<Sha512, Sha256>(false)).max_depth = 1;

    // ------------------------------------------------------------- hiding
    s.prop("P06");
    s.add("fresh", || {
        let net = Net::new(&[('m', [0, 1, 2]), ('a', [2, 1, 3])]);
        let (x, y): (Fr, Fr) = (inp("x"), inp("y"));
        let v = [x, y, x * y, x * y + y];
        let cc = net.build(&net.rows(&v), &[]).compile().unwrap();
        let (srs, s) = srs_of(cc.size);
        let p = generate_proof::<Sha256>(&cc, srs.clone());
        let q = generate_proof::<Sha256>(&cc, srs.clone());
        check(p.a_commit != q.a_commit && p.b_commit != q.b_commit && p.c_commit != q.c_commit, "wire commitments are randomised");
        check(p.z_commit != q.z_commit, "permutation commitment is randomised");
        check(
            p.t_lo_commit != q.t_lo_commit && p.t_mid_commit != q.t_mid_commit && p.t_hi_commit != q.t_hi_commit,
            "quotient commitments are randomised",
        );
        check(p.bar_a != q.bar_a && p.bar_b != q.bar_b && p.bar_c != q.bar_c && p.bar_z_w != q.bar_z_w, "opened values are randomised");
        // masks: not reused between wires, and not determined by one evaluation
        let pic = pi_commit(&cc, &srs);
        let h = challenges::<Sha256>(&p, &pic);
        let n = cc.size;
        let zh = |x: Fr| pw(x, n) - Fr::one();
        let g = cc.gate_constraints();
        let m = |f: &Poly, bar: Fr| (bar - f.evaluate(&h.zeta)) / zh(h.zeta);
        let (ma, mb, mc) = (m(g.f_ax(), p.bar_a), m(g.f_bx(), p.bar_b), m(g.f_cx(), p.bar_c));
        check(!ma.is_zero() && !mb.is_zero() && !mc.is_zero(), "opened wire values are masked");
        check(ma != mb && mb != mc && ma != mc, "each wire has its own mask");
        for (f, c, m, w) in [(g.f_ax(), &p.a_commit, ma, "a"), (g.f_bx(), &p.b_commit, mb, "b"), (g.f_cx(), &p.c_commit, mc, "c")] {
            check(*c != cm(f.evaluate(&s)), "wire commitments are masked");
            check(*c != cm(f.evaluate(&s) + m * zh(s)), &format!("the mask of {w} has degree of freedom left after one opening"));
        }
    })
    .max_depth = 1;
    s.add("z-mask", || {
        let net = Net::new(&[('m', [0, 1, 2]), ('a', [2, 1, 3])]);
        let (x, y): (Fr, Fr) = (inp("x"), inp("y"));
        let v = [x, y, x * y, x * y + y];
        let rows = net.rows(&v);
        let cc = net.build(&rows, &[]).compile().unwrap();
        let (srs, s) = srs_of(cc.size);
        let p = generate_proof::<Sha256>(&cc, srs.clone());
        let pic = pi_commit(&cc, &srs);
        let h = challenges::<Sha256>(&p, &pic);
        let n = cc.size;
        let d = GeneralEvaluationDomain::<Fr>::new(n).unwrap();
        // the permutation accumulator, restated
        let k = [Fr::one(), *cc.copy_constraints().k1(), *cc.copy_constraints().k2()];
        let mut acc = vec![Fr::one()];
        for r in 0..n - 1 {
            let mut q = acc[r];
            for c in 0..3 {
                let (c2, r2) = net.next(r, c);
                q *= rows[r][c] + h.beta * k[c] * d.element(r) + h.gamma;
                q /= rows[r][c] + h.beta * k[c2] * d.element(r2) + h.gamma;
            }
            acc.push(q);
        }
        let acc = poly(&d.ifft(&acc));
        let zh = |x: Fr| pw(x, n) - Fr::one();
        let at = h.zeta * d.element(1);
        let m = (p.bar_z_w - acc.evaluate(&at)) / zh(at);
        check(!m.is_zero(), "opened accumulator value is masked");
        check(p.z_commit != cm(acc.evaluate(&s)), "accumulator commitment is masked");
        check(p.z_commit != cm(acc.evaluate(&s) + m * zh(s)), "the accumulator's mask has freedom left after one opening");
    })
    .max_depth = 1;

    s.add("own", || {
        // which of the prover's draws each commitment depends on: the same
        // proof again, with one draw changed
        let net = Net::new(&[('m', [0, 1, 2]), ('a', [2, 1, 3])]);
        let (x, y): (Fr, Fr) = (inp("x"), inp("y"));
        let v = [x, y, x * y, x * y + y];
        let cc = net.build(&net.rows(&v), &[]).compile().unwrap();
        let (srs, s) = srs_of(cc.size);
        let _g = symcore::mute();
        let mark = symcore::entropy_mark();
        let run = |tweak: Option<u64>| {
            symcore::entropy_again(mark, tweak);
            generate_proof::<Sha256>(&cc, srs.clone())
        };
        let p = run(None);
        let n = symcore::entropy_drawn();
        check(n > 0, "the prover draws randomness");
        let mut own = [0; 4];
        for j in 0..n {
            let q = run(Some(j));
            let moved = [q.a_commit != p.a_commit, q.b_commit != p.b_commit, q.c_commit != p.c_commit];
            let k = moved.iter().filter(|m| **m).count();
            if k == 1 {
                own[moved.iter().position(|m| *m).unwrap()] += 1;
            }
            if k == 0 && q.z_commit != p.z_commit {
                own[3] += 1;
            }
        }
        // an element takes four draws, or five and more with one thrown away
        for (w, k) in ["a", "b", "c"].iter().zip(&own) {
            check(*k >= 5, &format!("two random elements of its own mask {w}"));
        }
        check(own[3] >= 9, "three random elements of its own mask the accumulator");
        // the mask's two coefficients, and those of all wires and of another proof, are different
        let q = generate_proof::<Sha256>(&cc, srs.clone());
        let g = cc.gate_constraints();
        let mut all: Vec<(String, KzgCommitment)> = vec![];
        for (tag, p) in [("", &p), (" of another proof", &q)] {
            let h = challenges::<Sha256>(p, &pi_commit(&cc, &srs));
            let zh = |x: Fr| pw(x, cc.size) - Fr::one();
            for (w, f, bar, c) in [("a", g.f_ax(), p.bar_a, &p.a_commit), ("b", g.f_bx(), p.bar_b, &p.b_commit), ("c", g.f_cx(), p.bar_c, &p.c_commit)] {
                let at = (bar - f.evaluate(&h.zeta)) / zh(h.zeta);
                let m1 = (c.clone() - cm(f.evaluate(&s) + at * zh(s))) * (zh(s) * (s - h.zeta)).inverse().unwrap();
                let m0 = cm(at) - m1.clone() * h.zeta;
                all.push((format!("first of {w}{tag}"), m0));
                all.push((format!("second of {w}{tag}"), m1));
            }
        }
        let known: Vec<(&str, Fr)> = vec![("zero", Fr::zero()), ("one", Fr::one()), ("x", x), ("y", y), ("x*y", x * y), ("x*y+y", x * y + y)];
        for (i, (n, m)) in all.iter().enumerate() {
            for (w, k) in &known {
                check(*m != cm(*k), &format!("the mask ({n}) is not {w}"));
            }
            for (o, k) in &all[..i] {
                check(m != k && *m != -k.clone(), &format!("the masks ({n}, {o}) differ"));
            }
        }
    })
    .max_depth = 0;

    // ------------------------------------------------------------- compile
    s.prop("P07");
    let shapes: Vec<(&str, Net)> = vec![
        ("add1", Net::new(&[('a', [0, 1, 2])])),
        ("mul1", Net::new(&[('m', [0, 0, 1])])),
        ("const1", Net::new(&[('c', [0, 1, 2])])),
        ("two", Net::new(&[('m', [0, 1, 2]), ('a', [2, 0, 3])])),
        ("three", Net::new(&[('m', [0, 1, 2]), ('c', [3, 4, 5]), ('a', [2, 3, 1])])),
        ("four", Net::new(&[('a', [0, 1, 2]), ('m', [2, 2, 0]), ('c', [3, 4, 4]), ('m', [3, 0, 5])])),
        ("five", Net::new(&[('a', [0, 0, 0]), ('m', [1, 2, 3]), ('c', [4, 5, 6]), ('m', [3, 4, 7]), ('a', [7, 1, 2])])),
        ("nine", Net::new(&[('a', [0, 1, 2]), ('m', [2, 1, 3]), ('a', [3, 2, 4]), ('m', [4, 3, 5]), ('a', [5, 4, 6]), ('c', [7, 8, 9]), ('m', [6, 7, 10]), ('a', [10, 0, 11]), ('m', [11, 11, 12])])),
    ];
    let mut shapes: Vec<(String, Net)> = shapes.into_iter().map(|(n, x)| (n.to_string(), x)).collect();
    for m in [17usize, 40, 150] {
        // a made-up wiring with variables of few and of many occurrences
        let g: Vec<(char, [usize; 3])> =
            (0..m).map(|r| (['a', 'm', 'c', 'm'][r % 4], [r % 5, (r * r + 3) % (m / 2), r + m / 4])).collect();
        shapes.push((format!("made{m}"), Net::new(&g)));
    }
    for (name, net) in shapes {
        let depth = if net.gates.len() > 20 { 0 } else { 1 };
        s.add(name, move || {
            let m = net.gates.len();
            // of large circuits only one row is symbolic
            let val = |n: &str, r: usize| if m <= 40 || r == 129 { inp(format!("{n}{r}")) } else { con(format!("{n}{r}")) };
            let w: Rows = (0..m).map(|r| [val("a", r), val("b", r), val("c", r)]).collect();
            let pi: Vec<Fr> = (0..m).map(|r| val("pi", r)).collect();
            let Some(cc) = completes("compile", || net.build(&w, &pi).compile().unwrap()) else { return };
            let n = cc.size;
            check(n.is_power_of_two() && n >= m && (n < 2 * m || n <= 2), "padded to the next power of two");
            let t = Table::of(&cc);
            let g = cc.gate_constraints();
            let cp = cc.copy_constraints();
            let polys = [g.f_ax(), g.f_bx(), g.f_cx(), g.q_lx(), g.q_rx(), g.q_ox(), g.q_mx(), g.q_cx(), g.pi_x(), cp.s_sigma_1(), cp.s_sigma_2(), cp.s_sigma_3()];
            check(polys.iter().all(|p| p.coeffs.len() <= n), "constraint polynomials have degree below the size");
            let (one, zero) = (Fr::one(), Fr::zero());
            let mut sel = true;
            let mut wires = true;
            let mut copies = true;
            for r in 0..n {
                if r < m {
                    let want = match net.gates[r].0 {
                        'a' => [one, one, -one, zero, zero],
                        'm' => [zero, zero, -one, one, zero],
                        _ => [one, zero, zero, zero, -w[r][0]],
                    };
                    sel &= t.q[r][..5] == want[..];
                    check(t.q[r][5] == -pi[r], "public inputs are negated into their row");
                    wires &= t.w[r] == w[r];
                    for c in 0..3 {
                        copies &= t.sigma[r][c] == Some(net.next(r, c));
                    }
                } else {
                    check(t.q[r].iter().all(|x| x.is_zero()), "padding rows constrain nothing");
                    for c in 0..3 {
                        copies &= t.sigma[r][c] == Some((c, r));
                    }
                }
            }
            check(sel, "selectors encode the gates");
            check(wires, "wire polynomials carry the assignment");
            check(copies, "permutation polynomials encode the copy cycles");
            let (k1, k2) = (*cp.k1(), *cp.k2());
            check(
                pw(k1, n) != one && pw(k2, n) != one && pw(k1 / k2, n) != one && !k1.is_zero() && !k2.is_zero(),
                "cosets are disjoint",
            );
            // the verifier's half
            let Some((g2, c2, n2)) = completes("compile (preprocessed)", || net.cpi(&w, &pi).compile().unwrap()) else { return };
            check(n2 == n, "both compilers agree on the size");
            check(
                g2.q_lx() == g.q_lx() && g2.q_rx() == g.q_rx() && g2.q_ox() == g.q_ox() && g2.q_mx() == g.q_mx() && g2.q_cx() == g.q_cx() && g2.pi_x() == g.pi_x(),
                "both compilers agree on the gates",
            );
            check(
                c2.s_sigma_1() == cp.s_sigma_1() && c2.s_sigma_2() == cp.s_sigma_2() && c2.s_sigma_3() == cp.s_sigma_3() && c2.k1() == &k1 && c2.k2() == &k2,
                "both compilers agree on the copies",
            );
        })
        .max_depth = depth;
    }
}
