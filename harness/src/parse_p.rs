//! PLONK: equations as text.
use crate::plonk_p::{srs_of, Net, Table};
use crate::rt::*;
use ark_bls12_381::Fr;
use ark_ff::{Field, One, Zero};
use kzg::scheme::KzgScheme;
use plonk::common_preprocessed_input::cpi_parser::CPIGenerator;
use plonk::compiled_circuit::CompiledCircuit;
use plonk::parser::Parser;
use plonk::prover::generate_proof;
use plonk::verifier::verify;
use sha2::Sha256;
use std::collections::BTreeMap;

type Env = BTreeMap<String, Fr>;

/// What an equation says, read independently: both sides' values.
fn meaning(eq: &str, env: &Env) -> (Fr, Fr) {
    let s: String = eq.to_lowercase().chars().filter(|c| *c != ' ').collect();
    let (l, r) = s.split_once('=').unwrap();
    let factor = |f: &str| -> Fr {
        let mut f = f;
        let mut neg = false;
        while let Some(r) = f.strip_prefix('-') {
            neg = !neg;
            f = r;
        }
        let (base, exp) = match f.split_once('^') {
            Some((b, e)) => (b, e.parse::<u32>().unwrap()),
            None => (f, 1),
        };
        let v = match env.get(base) {
            Some(v) => *v,
            None => Fr::from(base.parse::<u64>().unwrap()),
        };
        let mut p = Fr::one();
        for _ in 0..exp {
            p *= v;
        }
        if neg {
            -p
        } else {
            p
        }
    };
    let side = |t: &str| -> Fr {
        let mut sum = Fr::zero();
        for m in t.split('+') {
            let mut p = Fr::one();
            for f in m.split('*') {
                p *= factor(f);
            }
            sum += p;
        }
        sum
    };
    (side(l), side(r))
}

fn parser(env: &Env) -> Parser {
    let mut p = Parser::default();
    for (k, v) in env {
        p.add_witness(k, *v);
    }
    p
}
fn env(names: &[&str]) -> Env {
    names.iter().map(|n| (n.to_string(), inp(format!("w_{n}")))).collect()
}
/// fixed values: the structure of a circuit is looked at for one assignment
fn fixed(names: &[&str]) -> Env {
    names.iter().map(|n| (n.to_string(), con(format!("w_{n}")))).collect()
}
fn compiled(eq: &str, e: &Env) -> Option<CompiledCircuit> {
    completes(&format!("compile '{eq}'"), || parser(e).parse(eq).compile().unwrap())
}

/// Everything the constraints of a compiled circuit say about wires an
/// adversary picks: variables are free, other wires follow from the gates.
struct Solved {
    /// value of each copy class
    val: Vec<Fr>,
    class: Vec<[usize; 3]>,
    /// gates left over as conditions
    rest: Vec<Fr>,
    last: usize,
    /// classes each variable appears in
    vars: BTreeMap<String, Vec<usize>>,
}
fn solve(t: &Table, honest: &Env) -> Option<Solved> {
    let n = t.n;
    let mut class = vec![[usize::MAX; 3]; n];
    let mut k = 0;
    let mut image = vec![];
    for r in 0..n {
        for c in 0..3 {
            image.push(t.sigma[r][c]?);
            if class[r][c] == usize::MAX {
                for (c2, r2) in t.cycle(r, c) {
                    class[r2][c2] = k;
                }
                k += 1;
            }
        }
    }
    image.sort();
    image.dedup();
    if image.len() != 3 * n {
        return None;
    }
    let mut last = 0;
    for r in 0..n {
        if t.q[r][..4].iter().any(|q| !q.is_zero()) {
            last = r;
        }
    }
    let mut vars: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (name, v) in honest {
        let mut cs = vec![];
        for r in 0..=last {
            for c in 0..3 {
                if same(v, &t.w[r][c]) && !cs.contains(&class[r][c]) {
                    cs.push(class[r][c]);
                }
            }
        }
        // an intermediate result can have the same value (1*y): a gate output is not a use
        let is_out = |c: &usize| (0..=last).any(|r| class[r][2] == *c && !t.q[r][2].is_zero());
        if cs.iter().any(|c| !is_out(c)) {
            cs.retain(|c| !is_out(c));
        }
        vars.insert(name.clone(), cs);
    }
    let mut val: Vec<Option<Fr>> = vec![None; k];
    for (name, cs) in &vars {
        for (i, c) in cs.iter().enumerate() {
            val[*c] = Some(adv(format!("{name}_{i}")));
        }
    }
    let mut used = vec![false; n];
    loop {
        let mut progress = false;
        for r in 0..n {
            if used[r] {
                continue;
            }
            let [l, rr, o, m, qc, pi] = t.q[r];
            let cl = class[r];
            let mut coef: BTreeMap<usize, Fr> = BTreeMap::new();
            for (c, q) in cl.iter().zip([l, rr, o]) {
                *coef.entry(*c).or_insert(Fr::zero()) += q;
            }
            if !m.is_zero() && (val[cl[0]].is_none() || val[cl[1]].is_none()) {
                continue;
            }
            let open: Vec<usize> =
                coef.iter().filter(|(c, q)| val[**c].is_none() && !q.is_zero()).map(|x| *x.0).collect();
            if open.len() != 1 {
                continue;
            }
            let mut s = qc + pi;
            if !m.is_zero() {
                s += m * val[cl[0]].unwrap() * val[cl[1]].unwrap();
            }
            for (c, q) in &coef {
                if let (Some(v), false) = (val[*c], q.is_zero()) {
                    s += *q * v;
                }
            }
            val[open[0]] = Some(-s * coef[&open[0]].inverse().unwrap());
            used[r] = true;
            progress = true;
        }
        if progress {
            continue;
        }
        // a wire nothing determines: the adversary's choice
        let open = (0..n).filter(|r| !used[*r]).find_map(|r| {
            let [l, rr, o, m, ..] = t.q[r];
            [(0, l), (1, rr), (0, m), (1, m), (2, o)]
                .iter()
                .find(|(c, q)| !q.is_zero() && val[class[r][*c]].is_none())
                .map(|(c, _)| class[r][*c])
        });
        match open {
            Some(c) => val[c] = Some(adv(format!("free{c}"))),
            None => break,
        }
    }
    let val: Vec<Fr> = val.into_iter().map(|v| v.unwrap_or(Fr::zero())).collect();
    let mut rest = vec![];
    for r in 0..n {
        if !used[r] {
            let [l, rr, o, m, qc, pi] = t.q[r];
            let [a, b, c] = [val[class[r][0]], val[class[r][1]], val[class[r][2]]];
            rest.push(l * a + rr * b + o * c + m * a * b + qc + pi);
        }
    }
    Some(Solved { val, class, rest, last, vars })
}

/// the equations looked at, in groups that share a scenario
const GROUPS: [(&str, &[&str], &[&str]); 14] = [
    ("sum", &["x", "y", "z"], &["x+y=z", "x+y+z=0", "x+x=y", "x+y+x=z", "x+y=y"]),
    ("product", &["x", "y", "z"], &["x*y=z", "x*y*z=6", "x*x=y", "x*y+y*x=z", "x*y+x*y=z", "x*y*x=z"]),
    ("readme", &["x", "y", "z"], &["x*y+3*x^2+x*y*z=11", "x*y+3*x*x+x*y*z=-1"]),
    ("constant", &["x", "y"], &["x=1", "2*x=4", "x*2=4", "x+3=5", "3+x+3=y", "3*x+3*y=3", "0+x=0", "x*0=0", "2*3*x=12"]),
    ("negative", &["x", "y"], &["x=-1", "-1*x=y", "x+-2=y", "-2*x+-2=3", "-3*x=-3*y", "x*-2=6"]),
    ("negated", &["x", "y"], &["-x=1", "x+-y=0", "-x*y=2", "x=-y", "x*-y=1", "-x+-y=3", "-x*-y=4"]),
    ("power", &["x", "y"], &["x^2=4", "x^3+y^2=7", "2*x^2*y^3=5", "x^1=1", "-x^2=-9", "x^2*x=8"]),
    ("number-power", &["x", "x1", "ab"], &["3^2*x=9", "12^2+x=144", "x1^2=9", "ab^3=8", "x+2^10=1000", "x1^2+x1=6"]),
    ("zero-power", &["x", "y"], &["x^0=1", "y*x^0=3", "x+y^0=2"]),
    ("right", &["x", "y", "z"], &["x=y*z", "x+y=2*z", "x=y", "x*y=y*x", "x=z^2", "x+y=-2*z"]),
    ("spelling", &["x", "y"], &[" x * y + 3 * X ^ 2 = 11", "X*Y=6", "x = 007", "x*02=04", "x+ -3=5"]),
    ("long", &["a", "b", "c", "d"], &["a*b+c*d+a*c=b*d", "a*b*c*d+a+b+c+d=100", "a+b*c+d^2+5=a*d"]),
    ("numbers", &["x"], &["5+1+x=10", "1+1=x", "0+0+x=3", "2+0+x=4", "x+5+1=7", "-1+1+x=2"]),
    ("numbers-again", &["x"], &["x+0=2", "0+1+x=1", "1*1+1+x=3", "2*1+2*0+x=2", "1+2*1+x=-1", "3+1+3+1+x=9"]),
];

/// families of equations for the thorough tier
fn family(i: usize) -> Vec<String> {
    let f = ["x", "y", "2", "-3", "x^2", "-x", "05"];
    let mut v = vec![];
    let mut n = 0;
    for a in f {
        for b in f {
            for c in f {
                for d in f {
                    n += 1;
                    if n % 48 != i {
                        continue;
                    }
                    if !format!("{a}{b}{c}{d}").contains(['x', 'y']) {
                        continue;
                    }
                    v.push(format!("{a}*{b}+{c}={d}"));
                }
            }
        }
    }
    v
}

/// sums of few small numbers, where names of partial sums might meet
fn sums(i: usize) -> Vec<String> {
    let f = ["x", "0", "1", "2", "-1", "5"];
    let mut v = vec![];
    for a in f {
        for b in f {
            for c in f {
                for d in ["x", "y", "1", "2"] {
                    if format!("{a}{b}{c}").contains('x') {
                        v.push(format!("{a}+{b}+{c}={d}"));
                    }
                }
            }
        }
    }
    v.into_iter().skip(i).step_by(12).collect()
}

/// a made-up equation over x, y, ab, n1 and numbers, and another spelling of it
/// (spaces, letter case, powers written out)
fn made(i: usize) -> (String, String) {
    let mut st = 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(i as u64 + 1);
    let mut pick = move |n: usize| {
        st ^= st << 13;
        st ^= st >> 7;
        st ^= st << 17;
        (st >> 11) as usize % n
    };
    let mut factor = |simple: bool| -> (String, String) {
        let base = ["x", "y", "ab", "n1", "x", "y", "2", "17", "0", "1", "305", "2147483647"][pick(if simple { 4 } else { 12 })];
        let neg = if pick(5) == 0 { "-" } else { "" };
        let exp = if base.len() < 4 && pick(3) == 0 { [0usize, 1, 2, 3, 4, 5, 11][pick(7)] } else { 1 };
        let mut out = neg.to_string();
        out += &if exp == 0 { "1".to_string() } else { vec![base; exp].join("*") };
        let mut text = format!("{neg}{base}");
        if exp != 1 || pick(8) == 0 {
            text += &format!("^{exp}");
        }
        (text, out)
    };
    let mut term = |n: usize, simple: bool| -> (String, String) {
        let f: Vec<_> = (0..n).map(|j| factor(simple && j == 0)).collect();
        let join = |k: usize| f.iter().map(|x| if k == 0 { x.0.clone() } else { x.1.clone() }).collect::<Vec<_>>().join("*");
        (join(0), join(1))
    };
    let n = 1 + i % 4;
    let mut l: Vec<_> = (0..n).map(|j| term(1 + (i / 3 + j) % 3, j == 0)).collect();
    let r = term(1 + i / 7 % 2, false);
    let last = l.len() - 1;
    l.rotate_left(i % (last + 1));
    let join = |k: usize| l.iter().map(|x| if k == 0 { x.0.clone() } else { x.1.clone() }).collect::<Vec<_>>().join("+");
    let (text, plain) = (format!("{}={}", join(0), r.0), format!("{}={}", join(1), r.1));
    // spaces and capitals
    let text = text
        .chars()
        .enumerate()
        .flat_map(|(j, c)| {
            let c = if (i + j) % 5 == 0 { c.to_ascii_uppercase() } else { c };
            if (i * 7 + j) % 6 == 0 { vec![' ', c] } else { vec![c] }
        })
        .collect();
    (text, plain)
}
const NAMES: [&str; 4] = ["x", "y", "ab", "n1"];

fn sound(eq: &str, e: &Env) {
    let Some(cc) = compiled(eq, e) else { return };
    let t = Table::of(&cc);
    let Some(s) = solve(&t, e) else {
        check(false, &format!("'{eq}': the copies form a permutation"));
        return;
    };
    let mut chosen = Env::new();
    for (name, cs) in &s.vars {
        check(cs.len() <= 1, &format!("'{eq}': all uses of a variable are one wire"));
        let v = match cs.first() {
            Some(c) => s.val[*c],
            None => adv(format!("unused_{name}")),
        };
        chosen.insert(name.clone(), v);
    }
    for r in &s.rest {
        assume(r.is_zero());
    }
    let (l, r) = meaning(eq, &chosen);
    check(
        s.val[s.class[s.last][2]] == l - r,
        &format!("'{eq}': constraints make the output wire the difference of the sides"),
    );
}

fn exact(eq: &str, e: &Env) {
    let Some(cc) = compiled(eq, e) else { return };
    let t = Table::of(&cc);
    let (l, r) = meaning(eq, e);
    let sat = t.sat();
    check(sat == (l == r), &format!("'{eq}': the circuit is satisfied exactly when the equation holds"));
}

fn agree(eq: &str, e: &Env) {
    let Some(cc) = compiled(eq, e) else { return };
    let (srs, _) = srs_of(cc.size);
    let Some(p) = completes(&format!("preprocess '{eq}'"), || {
        CPIGenerator::default().compute_common_preprocessed_input(eq, KzgScheme::new(srs.clone())).unwrap()
    }) else {
        return;
    };
    let k = KzgScheme::new(srs);
    let (g, c) = (cc.gate_constraints(), cc.copy_constraints());
    check(p.n == cc.size && &p.k1 == c.k1() && &p.k2 == c.k2(), &format!("'{eq}': same size and cosets"));
    check(
        p.com_q_lx == k.commit(g.q_lx())
            && p.com_q_rx == k.commit(g.q_rx())
            && p.com_q_mx == k.commit(g.q_mx())
            && p.com_q_ox == k.commit(g.q_ox())
            && p.com_q_cx == k.commit(g.q_cx())
            && &p.pi_x == g.pi_x(),
        &format!("'{eq}': same gates for prover and verifier"),
    );
    check(
        p.com_s_sigma_1 == k.commit(c.s_sigma_1())
            && p.com_s_sigma_2 == k.commit(c.s_sigma_2())
            && p.com_s_sigma_3 == k.commit(c.s_sigma_3()),
        &format!("'{eq}': same copies for prover and verifier"),
    );
}

pub fn add(s: &mut Suite) {
    s.prop("P08");
    for (name, vars, eqs) in GROUPS {
        s.add(name, move || {
            let e = env(vars);
            for eq in eqs {
                agree(eq, &e);
            }
        })
        .max_depth = 1;
    }
    for i in 0..12 {
        s.add(format!("made{i}"), move || {
            let e = env(&NAMES);
            for j in 0..8 {
                agree(&made(8 * i + j).0, &e);
            }
        })
        .max_depth = 0;
    }
    for i in 0..48 {
        s.deep(format!("family{i}"), move || {
            let e = env(&["x", "y"]);
            for eq in family(i) {
                agree(&eq, &e);
            }
        })
        .max_depth = 0;
    }
    for i in 0..12 {
        s.deep(format!("sums{i}"), move || {
            let e = env(&["x", "y"]);
            for eq in sums(i) {
                agree(&eq, &e);
            }
        })
        .max_depth = 0;
    }

    s.prop("P09");
    for (name, vars, eqs) in GROUPS {
        for (i, eq) in eqs.iter().enumerate() {
            s.add(format!("exact-{name}{i}"), move || exact(eq, &env(vars))).max_depth = 1;
            s.add(format!("sound-{name}{i}"), move || sound(eq, &fixed(vars))).max_depth = 1;
        }
    }
    for i in 0..96 {
        s.add(format!("exact-made{i}"), move || {
            // the left side's value under a name of its own, right or off by d
            let text = format!("{} = out", made(i).0.split_once('=').unwrap().0);
            let mut e = env(&NAMES);
            e.insert("out".into(), Fr::zero());
            let (l, _) = meaning(&text, &e);
            let d: Fr = inp("d");
            assume_ne(&d, &Fr::zero());
            for (v, holds) in [(l, true), (l + d, false)] {
                e.insert("out".into(), v);
                let Some(cc) = compiled(&text, &e) else { return };
                check(Table::of(&cc).sat() == holds, &format!("'{text}': the circuit is satisfied exactly when the equation holds"));
            }
        })
        .max_depth = 0;
        s.add(format!("sound-made{i}"), move || sound(&made(i).0, &fixed(&NAMES))).max_depth = 1;
    }
    for i in 0..48 {
        s.deep(format!("sound-family{i}"), move || {
            let e = fixed(&["x", "y"]);
            for eq in family(i) {
                sound(&eq, &e);
            }
        })
        .max_depth = 0;
    }
    for i in 0..12 {
        s.add(format!("sound-sums{i}"), move || {
            let e = fixed(&["x", "y"]);
            for eq in sums(i) {
                sound(&eq, &e);
            }
        })
        .max_depth = 0;
    }
    // left sides whose value is y: satisfied for every x
    for i in 0..16 {
        s.add(format!("solved{i}"), move || {
            let f = ["x", "0", "1", "2", "-1", "5", "x^2", "-x"];
            let mut n = 0;
            for a in f {
                for b in f {
                    for (c, op) in [("", ""), ("1", "+"), ("0", "+"), ("x", "+"), ("2", "*"), ("-x", "*"), ("-1", "+")] {
                        for (l, r) in [(format!("{a}+{b}{op}{c}"), "y"), (format!("{a}*{b}{op}{c}"), "y"), (format!("{a}{op}{c}+y"), b)] {
                            n += 1;
                            let eq = format!("{l}={r}");
                            if n % 16 != i || !eq.contains('x') {
                                continue;
                            }
                            let mut e = env(&["x"]);
                            e.insert("y".into(), Fr::zero());
                            let (v, w) = meaning(&eq, &e);
                            e.insert("y".into(), if r == "y" { v } else { w - v });
                            let (v, w) = meaning(&eq, &e);
                            assume(v == w);
                            exact(&eq, &e);
                        }
                    }
                }
            }
        })
        .max_depth = 0;
    }
    s.add("output", || {
        let e = fixed(&["x", "y", "z"]);
        for eq in ["x+y=z", "x*y*z=6"] {
            let Some(cc) = compiled(eq, &e) else { return };
            let t = Table::of(&cc);
            let Some(s) = solve(&t, &e) else { return };
            let mut chosen = Env::new();
            for (name, cs) in &s.vars {
                let Some(c) = cs.first() else { return };
                chosen.insert(name.clone(), s.val[*c]);
            }
            for r in &s.rest {
                assume(r.is_zero());
            }
            let (l, r) = meaning(eq, &chosen);
            check(l == r, "the constraints force the output wire to zero");
        }
    });
    s.add("missing", || {
        for eq in ["x+y=1", "x*q=2", "x=-q", "x^2+3=q"] {
            let r = attempt(|| parser(&env(&["x"])).parse(eq));
            check(r.is_none(), &format!("'{eq}': a variable without a value is refused"));
        }
    });

    s.prop("P10");
    let same_text: &[(&str, &[(&str, &str)])] = &[
        ("power", &[("x^2+y=1", "x*x+y=1"), ("x*y^3=2", "x*y*y*y=2"), ("x^1=y", "x=y"), ("2^3*x=y", "2*2*2*x=y"), ("12^2*x=y", "12*12*x=y"), ("xy^2=x", "xy*xy=x"), ("x=y^2", "x=y*y"), ("x^12=y", "x*x*x*x*x*x*x*x*x*x*x*x=y")]),
        ("space", &[(" x +y= 1", "x+y=1"), ("x * y ^ 2 = 1 1", "x*y*y=11"), ("x^ 1 0=y", "x^10=y")]),
        ("case", &[("X+Y=1", "x+y=1"), ("X*x^2=y", "x*x*x=y")]),
    ];
    for (name, pairs) in same_text {
        let pairs: Vec<(&str, &str)> = pairs.to_vec();
        s.add(*name, move || {
            let e = env(&["x", "y", "xy"]);
            for (a, b) in &pairs {
                let Some(p) = completes(&format!("parse '{a}'"), || parser(&e).parse(a)) else { continue };
                let q = parser(&e).parse(b);
                check(p == q, &format!("'{a}' reads as '{b}'"));
            }
        })
        .max_depth = 1;
    }
    for i in 0..12 {
        s.add(format!("made{i}"), move || {
            let e = env(&NAMES);
            for j in 0..16 {
                let (text, plain) = made(16 * i + j);
                let Some(p) = completes(&format!("parse '{text}'"), || parser(&e).parse(&text)) else { continue };
                check(p == parser(&e).parse(&plain), &format!("'{text}' reads as '{plain}'"));
            }
        })
        .max_depth = 0;
    }
    s.add("name-case", || {
        let v: Fr = inp("v");
        let mut p = Parser::default();
        p.add_witness("Foo", v);
        let mut q = Parser::default();
        q.add_witness("foo", v);
        for eq in ["Foo*2=6", "foo+FOO=1"] {
            let Some(a) = completes("parse with a capitalised name", || p.parse(eq)) else { continue };
            check(a == q.parse(eq), "names are matched regardless of case");
        }
    });
    s.add("name-letters", || {
        // letters outside ASCII, in the equation and in the names, in either case
        let (v, w): (Fr, Fr) = (inp("v"), inp("w"));
        for (low, up) in [("ä", "Ä"), ("xä", "XÄ"), ("ño", "ÑO"), ("β", "Β"), ("ж", "Ж")] {
            let named = |name: &str| {
                let mut p = Parser::default();
                p.add_witness(name, v);
                p.add_witness("y", w);
                p
            };
            for eq in ["N*y=2", "N^2+y=1", "y=-N", "-N+y=3"] {
                let Some(plain) = completes(&format!("parse '{eq}'"), || named("n").parse(eq)) else { continue };
                for (name, used) in [(low, low), (low, up), (up, low), (up, up)] {
                    let text = eq.replace('N', used);
                    let Some(a) = completes(&format!("parse '{text}'"), || named(name).parse(&text)) else { continue };
                    check(a == plain, "names of any letters are matched regardless of case");
                }
            }
        }
    });
    s.add("refused", || {
        let e = env(&["x", "y"]);
        for eq in ["x^y=1", "x^=1", "x^+y=2", "x+y", "x=y=1", "^2=x", "x^2^3=y", "y=x^3^1", "x^-1=y", "x*^2=y", "x^2.5=y"] {
            check(attempt(|| parser(&e).parse(eq)).is_none(), &format!("'{eq}' is refused"));
        }
    });
    // end to end: a proof for the equation
    s.prop("P08");
    s.add("verify", || {
        let g = symcore::mute();
        let (x, y): (Fr, Fr) = (con("x"), con("y"));
        let e: Env = [("x".to_string(), x), ("y".to_string(), y)].into_iter().collect();
        let eq = "x*y=-3";
        let y2 = -Fr::from(3u64) * x.inverse().unwrap();
        let mut e2 = e.clone();
        e2.insert("y".into(), y2);
        let cc = parser(&e2).parse(eq).compile().unwrap();
        let (srs, _) = srs_of(cc.size);
        let p = generate_proof::<Sha256>(&cc, srs.clone());
        drop(g);
        check(accepts(|| verify::<Sha256>(&cc, srs, p).is_ok()), "a parsed equation's proof is accepted");
    });

    // ------------------------------------------------------ nothing is kept
    s.prop("P11");
    s.add("again", || {
        let e = env(&["x", "y"]);
        let p = parser(&e);
        let texts = ["x*y+3*x^2=11", "x+y=2", "x*x=y", "-x*y=3"];
        let fresh: Vec<_> = texts.iter().map(|t| parser(&e).parse(t)).collect();
        for _ in 0..3 {
            for (t, f) in texts.iter().zip(&fresh) {
                let Some(c) = completes(&format!("parse '{t}' again"), || p.parse(t)) else { continue };
                check(&c == f, &format!("'{t}': a used parser reads like a new one"));
            }
        }
        check(p.witnesses == parser(&e).witnesses, "parsing leaves the values alone");
    })
    .max_depth = 1;
    s.add("long", || {
        // many other texts in between
        let e = env(&["x", "y"]);
        let p = parser(&e);
        let texts = ["x*y+3*x^2=11", "x+y=2", "-x*y=3"];
        let fresh: Vec<_> = texts.iter().map(|t| parser(&e).parse(t)).collect();
        for i in 0..40usize {
            let t = match i % 4 {
                0 => format!("x*{i}+y={}", i + 7),
                1 => format!("x^{}*y+{i}=x", 1 + i % 6),
                2 => vec!["x*y"; 1 + i % 9].join("+") + "=1",
                _ => format!("{i}*x+{}*y+{i}=-y", i + 1),
            };
            let Some(c) = completes(&format!("parse '{t}'"), || p.parse(&t)) else { continue };
            check(c == parser(&e).parse(&t), &format!("'{t}': a used parser reads like a new one"));
        }
        for (t, f) in texts.iter().zip(&fresh) {
            check(&p.parse(t) == f, &format!("'{t}': a much used parser reads like a new one"));
        }
    })
    .max_depth = 1;
    s.add("latest", || {
        // the value given last counts, in whatever spelling and order
        let (a, b, c): (Fr, Fr, Fr) = (inp("a"), inp("b"), inp("c"));
        for t in ["x*y=2", "x+y^2=3*x", "y=-x"] {
            let mut want = Parser::default();
            want.add_witness("x", b);
            want.add_witness("y", c);
            let Some(want) = completes(&format!("parse '{t}'"), || want.parse(t)) else { continue };
            let seqs: [&[(&str, Fr)]; 4] = [
                &[("x", a), ("x", b), ("y", c)],
                &[("x", a), ("y", a), ("X", b), ("y", c)],
                &[("y", c), ("x", c), ("x", b)],
                &[("Y", b), ("X", a), ("y", c), ("x", b), ("z", a), ("xy", a)],
            ];
            for (i, q) in seqs.iter().enumerate() {
                let mut p = Parser::default();
                for (n, v) in *q {
                    p.add_witness(n, *v);
                }
                let Some(r) = completes(&format!("parse '{t}'"), || p.parse(t)) else { continue };
                check(r == want, &format!("'{t}' ({i}): the value given last counts"));
            }
            let mut p = Parser::default();
            p.add_witness("y", c);
            p.add_witness("x", a);
            let _ = completes(&format!("parse '{t}'"), || p.parse(t));
            p.add_witness("x", b);
            let Some(r) = completes(&format!("parse '{t}'"), || p.parse(t)) else { continue };
            check(r == want, &format!("'{t}': a value replaced between two parses counts for the second"));
        }
    })
    .max_depth = 1;
    s.add("meaning", || {
        // a parser keeps nothing of the texts read before
        let (a, b): (Fr, Fr) = (inp("a"), inp("b"));
        let mut p = Parser::default();
        p.add_witness("x", a);
        for t in ["x*x=4", "x+2=5"] {
            let Some(cc) = completes(&format!("compile '{t}'"), || p.parse(t).compile().unwrap()) else { return };
            let (l, r) = meaning(t, &[("x".to_string(), a)].into_iter().collect());
            check(Table::of(&cc).sat() == (l == r), &format!("'{t}': satisfied exactly when the equation holds"));
        }
        p.add_witness("x", b);
        for t in ["x*x=4", "x+2=5"] {
            let Some(cc) = completes(&format!("compile '{t}'"), || p.parse(t).compile().unwrap()) else { return };
            let (l, r) = meaning(t, &[("x".to_string(), b)].into_iter().collect());
            check(Table::of(&cc).sat() == (l == r), &format!("'{t}': satisfied exactly when the equation holds for the new value"));
        }
    })
    .max_depth = 1;
    s.add("key", || {
        // the verifier's key of a text is the same each time
        let (srs, _) = srs_of(8);
        let texts = ["x*y+3=11", "x+y=2", "x^2=y"];
        let keys: Vec<_> = texts
            .iter()
            .map(|t| CPIGenerator::default().compute_common_preprocessed_input(t, KzgScheme::new(srs.clone())).unwrap())
            .collect();
        for _ in 0..2 {
            for (t, k) in texts.iter().zip(&keys) {
                let Some(c) = completes("preprocess again", || CPIGenerator::default().compute_common_preprocessed_input(t, KzgScheme::new(srs.clone())).unwrap()) else { continue };
                check(
                    c.n == k.n && c.k1 == k.k1 && c.k2 == k.k2 && c.pi_x == k.pi_x && c.com_q_lx == k.com_q_lx && c.com_q_rx == k.com_q_rx
                        && c.com_q_mx == k.com_q_mx && c.com_q_ox == k.com_q_ox && c.com_q_cx == k.com_q_cx
                        && c.com_s_sigma_1 == k.com_s_sigma_1 && c.com_s_sigma_2 == k.com_s_sigma_2 && c.com_s_sigma_3 == k.com_s_sigma_3,
                    &format!("'{t}': the key is the same each time"),
                );
            }
        }
    })
    .max_depth = 1;
    let c = s.add("proofs", || {
        // proofs of two circuits made and verified in turns
        let x: Fr = inp("x");
        let y: Fr = con("y");
        let (n, m) = (Net::new(&[('m', [0, 0, 1])]), Net::new(&[('a', [0, 1, 2])]));
        let a = n.build(&n.rows(&[x, x * x]), &[]).compile().unwrap();
        let b = m.build(&m.rows(&[y, y * y, y + y * y]), &[]).compile().unwrap();
        let (srs, _) = srs_of(a.size.max(b.size));
        let Some(p1) = completes("prove", || generate_proof::<Sha256>(&a, srs.clone())) else { return };
        let Some(q1) = completes("prove", || generate_proof::<Sha256>(&b, srs.clone())) else { return };
        let Some(p2) = completes("prove", || generate_proof::<Sha256>(&a, srs.clone())) else { return };
        check(accepts(|| verify::<Sha256>(&b, srs.clone(), q1).is_ok()), "a proof is accepted in whatever order");
        check(accepts(|| verify::<Sha256>(&a, srs.clone(), p2).is_ok()), "a second proof of the same circuit is accepted");
        check(!accepts(|| verify::<Sha256>(&b, srs.clone(), p1).is_ok()), "a proof of another circuit is rejected");
        let Some(p3) = completes("prove", || generate_proof::<Sha256>(&a, srs.clone())) else { return };
        check(accepts(|| verify::<Sha256>(&a, srs.clone(), p3).is_ok()), "a proof made after a failed verification is accepted");
    });
    c.max_depth = 1;
    c.max_paths = 12;
    s.add("proofs-long", || {
        // many proofs of circuits of different sizes, made and verified one after the other
        let x: Fr = inp("x");
        let n = Net::new(&[('m', [0, 0, 1])]);
        let a = n.build(&n.rows(&[x, x * x]), &[]).compile().unwrap();
        let srs = kzg::srs::Srs::new_from_secret(con("s"), 8);
        let Some(first) = completes("prove", || generate_proof::<Sha256>(&a, srs.clone())) else { return };
        for i in 0..16usize {
            let _g = symcore::mute();
            let y: Fr = con(format!("y{i}"));
            let gates: Vec<(char, [usize; 3])> = (0..1 + i % 4).map(|r| ('a', [r, r, r + 1])).collect();
            let m = Net::new(&gates);
            let v: Vec<Fr> = (0..m.gates.len() + 1).map(|r| y * Fr::from(1u64 << r)).collect();
            let b = m.build(&m.rows(&v), &[]).compile().unwrap();
            let Some(p) = completes("prove", || generate_proof::<Sha256>(&b, srs.clone())) else { return };
            check(accepts(|| verify::<Sha256>(&b, srs.clone(), p).is_ok()), "every honest proof is accepted");
        }
        let Some(last) = completes("prove", || generate_proof::<Sha256>(&a, srs.clone())) else { return };
        check(accepts(|| verify::<Sha256>(&a, srs.clone(), first).is_ok()), "an early proof is accepted after all the others");
        check(accepts(|| verify::<Sha256>(&a, srs.clone(), last).is_ok()), "a late proof of the same circuit is accepted");
    })
    .max_depth = 0;
}
