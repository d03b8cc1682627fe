//! SMT-LIB emission (theory of finite fields) and the solver process.
use crate::engine::*;
use crate::field::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// free solver variable of this instance
    Free,
    /// the free variable of this instance (shared between instances)
    Of(u32),
    /// fixed to this (Montgomery) value
    Fix(V),
}

#[derive(Clone, Debug)]
pub enum EV {
    C(V),
    /// numerator symbol, denominator factors (symbol -> power)
    R(u32, Vec<(u32, u32)>),
}

#[derive(Clone, Debug)]
pub enum Fm {
    True,
    False,
    S(String),
}

pub struct Query<'a> {
    pub st: &'a State,
    pub body: String,
    pub decls: String,
    nsym: u32,
    /// symbol -> field
    symf: Vec<u8>,
    insts: Vec<Vec<Mode>>,
    memo: HashMap<(u32, Node), EV>,
    cse: HashMap<String, u32>,
    pub freev: BTreeMap<(u32, u32), u32>, // (instance, var) -> symbol
    nonzero: Vec<u32>,
    pub asserts: Vec<String>,
    pub nodes_emitted: usize,
    /// nodes replaced by opaque variables (sound when proving)
    pub cut: FSet<Node>,
}

fn cst(f: u8, v: &V) -> String {
    format!("(as ff{} F{})", to_dec(&field(f).to_canon(v)), f)
}

impl<'a> Query<'a> {
    pub fn new(st: &'a State) -> Self {
        Query {
            st,
            body: String::new(),
            decls: String::new(),
            nsym: 0,
            symf: vec![],
            insts: vec![],
            memo: HashMap::new(),
            cse: HashMap::new(),
            freev: BTreeMap::new(),
            nonzero: vec![],
            asserts: vec![],
            nodes_emitted: 0,
            cut: FSet::default(),
        }
    }
    pub fn inst(&mut self, modes: Vec<Mode>) -> u32 {
        self.insts.push(modes);
        (self.insts.len() - 1) as u32
    }
    fn fresh(&mut self, f: u8) -> u32 {
        self.nsym += 1;
        self.symf.push(f);
        self.nsym - 1
    }
    fn def(&mut self, f: u8, e: String) -> u32 {
        if let Some(s) = self.cse.get(&e) {
            return *s;
        }
        let s = self.fresh(f);
        let _ = writeln!(self.body, "(define-fun t{} () F{} {})", s, f, e);
        self.cse.insert(e, s);
        s
    }
    fn var(&mut self, inst: u32, v: u32) -> u32 {
        if let Some(s) = self.freev.get(&(inst, v)) {
            return *s;
        }
        let f = self.st.vars[v as usize].fid;
        let s = self.fresh(f);
        let _ = writeln!(self.decls, "(declare-const t{} F{})", s, f);
        self.freev.insert((inst, v), s);
        s
    }
    fn pow_mul(&mut self, f: u8, num: u32, fac: &[(u32, u32)]) -> u32 {
        let mut s = num;
        for (x, k) in fac {
            for _ in 0..*k {
                s = self.def(f, format!("(ff.mul t{} t{})", s, x));
            }
        }
        s
    }
    fn lcm(a: &[(u32, u32)], b: &[(u32, u32)]) -> Vec<(u32, u32)> {
        let mut m: BTreeMap<u32, u32> = a.iter().copied().collect();
        for (s, k) in b {
            let e = m.entry(*s).or_insert(0);
            *e = (*e).max(*k);
        }
        m.into_iter().collect()
    }
    fn missing(l: &[(u32, u32)], d: &[(u32, u32)]) -> Vec<(u32, u32)> {
        let m: BTreeMap<u32, u32> = d.iter().copied().collect();
        l.iter()
            .filter_map(|(s, k)| {
                let h = m.get(s).copied().unwrap_or(0);
                if *k > h {
                    Some((*s, *k - h))
                } else {
                    None
                }
            })
            .collect()
    }
    fn add_like(&mut self, f: u8, a: EV, b: EV, sub: bool) -> EV {
        let fl = field(f);
        match (a, b) {
            (EV::C(x), EV::C(y)) => EV::C(if sub { fl.sub(&x, &y) } else { fl.add(&x, &y) }),
            (EV::C(x), b) if x == ZEROV && !sub => b,
            (a, EV::C(y)) if y == ZEROV => a,
            (a, b) => {
                let (na, da) = self.split(f, a);
                let (nb, db) = self.split(f, b);
                let l = Self::lcm(&da, &db);
                let ma = Self::missing(&l, &da);
                let mb = Self::missing(&l, &db);
                let xa = self.pow_mul(f, na, &ma);
                let xb = self.pow_mul(f, nb, &mb);
                if xa == xb && sub {
                    return EV::C(ZEROV);
                }
                let e = if sub {
                    let m1 = cst(f, &fl.neg(&fl.r));
                    let nb = self.def(f, format!("(ff.mul {} t{})", m1, xb));
                    format!("(ff.add t{} t{})", xa, nb)
                } else {
                    format!("(ff.add t{} t{})", xa, xb)
                };
                EV::R(self.def(f, e), l)
            }
        }
    }
    fn split(&mut self, f: u8, a: EV) -> (u32, Vec<(u32, u32)>) {
        match a {
            EV::C(v) => {
                let c = cst(f, &v);
                (self.def(f, c), vec![])
            }
            EV::R(n, d) => (n, d),
        }
    }
    pub fn emit(&mut self, inst: u32, root: Node) -> EV {
        if let Some(e) = self.memo.get(&(inst, root)) {
            return e.clone();
        }
        // iterative post-order; ids are topologically ordered
        let mut need = vec![root];
        let mut seen: FSet<Node> = FSet::default();
        let mut order = vec![];
        while let Some(n) = need.pop() {
            if !seen.insert(n) || self.memo.contains_key(&(inst, n)) {
                continue;
            }
            order.push(n);
            let d = &self.st.nodes[n as usize];
            if self.cut.contains(&n) {
                continue;
            }
            match d.op {
                Op::Const | Op::Var => {}
                Op::Neg | Op::Inv => need.push(d.a),
                _ => {
                    need.push(d.a);
                    need.push(d.b);
                }
            }
        }
        order.sort_unstable();
        for n in order {
            let e = self.emit1(inst, n);
            self.memo.insert((inst, n), e);
            self.nodes_emitted += 1;
        }
        self.memo[&(inst, root)].clone()
    }
    fn emit1(&mut self, inst: u32, n: Node) -> EV {
        let d = self.st.nodes[n as usize].clone();
        let f = d.fid;
        let fl = field(f);
        if self.cut.contains(&n) {
            let s = self.fresh(f);
            let _ = writeln!(self.decls, "(declare-const t{} F{})", s, f);
            return EV::R(s, vec![]);
        }
        match d.op {
            Op::Const => EV::C(d.val),
            Op::Var => match self.insts[inst as usize]
                .get(d.a as usize)
                .copied()
                .unwrap_or(Mode::Free)
            {
                Mode::Fix(v) => EV::C(v),
                Mode::Of(j) => EV::R(self.var(j, d.a), vec![]),
                Mode::Free => EV::R(self.var(inst, d.a), vec![]),
            },
            Op::Add | Op::Sub => {
                let a = self.memo[&(inst, d.a)].clone();
                let b = self.memo[&(inst, d.b)].clone();
                self.add_like(f, a, b, d.op == Op::Sub)
            }
            Op::Mul => {
                let a = self.memo[&(inst, d.a)].clone();
                let b = self.memo[&(inst, d.b)].clone();
                match (a, b) {
                    (EV::C(x), EV::C(y)) => EV::C(fl.mul(&x, &y)),
                    (EV::C(x), _) | (_, EV::C(x)) if x == ZEROV => EV::C(ZEROV),
                    (EV::C(x), r) | (r, EV::C(x)) if x == fl.r => r,
                    (EV::C(x), EV::R(n, d)) | (EV::R(n, d), EV::C(x)) => {
                        let c = cst(f, &x);
                        EV::R(self.def(f, format!("(ff.mul {} t{})", c, n)), d)
                    }
                    (EV::R(na, da), EV::R(nb, db)) => {
                        let mut den: BTreeMap<u32, u32> = da.into_iter().collect();
                        for (s, k) in db {
                            *den.entry(s).or_insert(0) += k;
                        }
                        let mut one = |this: &mut Self, x: u32, y: u32| -> u32 {
                            // cancel a numerator against an equal denominator factor
                            let mut fac = vec![];
                            for z in [x, y] {
                                if let Some(k) = den.get_mut(&z) {
                                    if *k > 0 {
                                        *k -= 1;
                                        continue;
                                    }
                                }
                                fac.push(z);
                            }
                            match fac.len() {
                                0 => {
                                    let c = cst(f, &fl.r);
                                    this.def(f, c)
                                }
                                1 => fac[0],
                                _ => this.def(f, format!("(ff.mul t{} t{})", fac[0], fac[1])),
                            }
                        };
                        let s = one(self, na, nb);
                        EV::R(s, den.into_iter().filter(|(_, k)| *k > 0).collect())
                    }
                }
            }
            Op::Neg => match self.memo[&(inst, d.a)].clone() {
                EV::C(x) => EV::C(fl.neg(&x)),
                EV::R(n, den) => {
                    let m1 = cst(f, &fl.neg(&fl.r));
                    EV::R(self.def(f, format!("(ff.mul {} t{})", m1, n)), den)
                }
            },
            Op::Inv => match self.memo[&(inst, d.a)].clone() {
                EV::C(x) => EV::C(if x == ZEROV { ZEROV } else { fl.inv(&x) }),
                EV::R(n, den) => {
                    if !self.nonzero.contains(&n) {
                        self.nonzero.push(n);
                    }
                    let one = cst(f, &fl.r);
                    let one = self.def(f, one);
                    let num = if den.is_empty() {
                        one
                    } else {
                        let (s, k) = den[0];
                        let mut rest = den.clone();
                        if k == 1 {
                            rest.remove(0);
                        } else {
                            rest[0].1 -= 1;
                        }
                        self.pow_mul(f, s, &rest)
                    };
                    EV::R(num, vec![(n, 1)])
                }
            },
        }
    }
    pub fn eq(&mut self, inst: u32, a: Node, b: Node) -> Fm {
        if a == b {
            return Fm::True;
        }
        let f = self.st.nodes[a as usize].fid;
        let x = self.emit(inst, a);
        let y = self.emit(inst, b);
        match (x, y) {
            (EV::C(x), EV::C(y)) => {
                if x == y {
                    Fm::True
                } else {
                    Fm::False
                }
            }
            (x, y) => {
                let (na, da) = self.split(f, x);
                let (nb, db) = self.split(f, y);
                let l = Self::lcm(&da, &db);
                let ma = Self::missing(&l, &da);
                let mb = Self::missing(&l, &db);
                let xa = self.pow_mul(f, na, &ma);
                let xb = self.pow_mul(f, nb, &mb);
                if xa == xb {
                    Fm::True
                } else {
                    Fm::S(format!("(= t{} t{})", xa, xb))
                }
            }
        }
    }
    pub fn assert(&mut self, f: Fm) {
        match f {
            Fm::True => {}
            Fm::False => self.asserts.push("false".into()),
            Fm::S(s) => self.asserts.push(s),
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        s.push_str(&self.decls);
        s.push_str(&self.body);
        for n in &self.nonzero {
            let _ = writeln!(
                s,
                "(assert (not (= t{} (as ff0 F{}))))",
                n, self.symf[*n as usize]
            );
        }
        for a in &self.asserts {
            let _ = writeln!(s, "(assert {})", a);
        }
        s
    }
}

fn sort_def(f: usize) -> String {
    format!("(define-sort F{} () (_ FiniteField {}))\n", f, to_dec(&field(f as u8).m))
}

pub fn not(f: Fm) -> Fm {
    match f {
        Fm::True => Fm::False,
        Fm::False => Fm::True,
        Fm::S(s) => Fm::S(format!("(not {})", s)),
    }
}
pub fn or(v: Vec<Fm>) -> Fm {
    let mut r = vec![];
    for f in v {
        match f {
            Fm::True => return Fm::True,
            Fm::False => {}
            Fm::S(s) => r.push(s),
        }
    }
    match r.len() {
        0 => Fm::False,
        1 => Fm::S(r.pop().unwrap()),
        _ => Fm::S(format!("(or {})", r.join(" "))),
    }
}
pub fn and(v: Vec<Fm>) -> Fm {
    let mut r = vec![];
    for f in v {
        match f {
            Fm::False => return Fm::False,
            Fm::True => {}
            Fm::S(s) => r.push(s),
        }
    }
    match r.len() {
        0 => Fm::True,
        1 => Fm::S(r.pop().unwrap()),
        _ => Fm::S(format!("(and {})", r.join(" "))),
    }
}

#[derive(Clone, Debug)]
pub enum Answer {
    Sat(HashMap<u32, V>), // symbol -> canonical value
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: Duration,
    pub bytes: u64,
    pub retried: u64,
}

struct Proc {
    child: Child,
    stdin: ChildStdin,
    out: BufReader<ChildStdout>,
    defined: [bool; NF],
    started: bool,
}

pub struct Solver {
    p: Option<Proc>,
    pub stats: Stats,
    pub bin: String,
    pub used: u64,
    /// one short attempt only
    pub once: bool,
}

impl Drop for Solver {
    fn drop(&mut self) {
        if let Some(mut p) = self.p.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
}

impl Solver {
    pub fn new() -> Self {
        Solver {
            p: None,
            stats: Stats::default(),
            bin: std::env::var("VERIF_Z3").unwrap_or_else(|_| "z3-new".into()),
            used: 0,
            once: false,
        }
    }
    fn proc(&mut self) -> &mut Proc {
        if self.p.is_none() {
            let mut c = Command::new(&self.bin)
                .args(["-in", "-smt2", "-memory:3000"])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("cannot start the SMT solver");
            let stdin = c.stdin.take().unwrap();
            let out = BufReader::new(c.stdout.take().unwrap());
            self.p = Some(Proc {
                child: c,
                stdin,
                out,
                defined: [false; NF],
                started: false,
            });
        }
        self.p.as_mut().unwrap()
    }
    fn reset(&mut self) {
        if let Some(mut p) = self.p.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
    pub fn solve(&mut self, q: &Query, ms: u64, model: bool) -> Answer {
        if q.asserts.iter().any(|a| a == "false") {
            self.stats.queries += 1;
            self.stats.unsat += 1;
            return Answer::Unsat;
        }
        let text = q.text();
        if let Ok(d) = std::env::var("VERIF_DUMP") {
            let n = self.stats.queries;
            let id = format!("{:?}", std::thread::current().id()).replace(['(', ')'], "_");
            let head: String = (0..NF).map(sort_def).collect();
            let _ = std::fs::write(format!("{}/q{}_{}.smt2", d, id, n), format!("(set-logic QF_FF)\n{}{}(check-sat)\n", head, text));
        }
        let t0 = Instant::now();
        self.used += 1;
        if self.used % 200 == 0 {
            self.reset();
        }
        let mut a = self.run(&text, q, ms, model, true);
        if matches!(a, Answer::Unknown) && !self.once && text.len() < 30_000 {
            // once more without the incremental front end
            self.reset();
            a = self.run(&text, q, ms, model, false);
            self.stats.retried += 1;
            self.reset();
        }
        let dt = t0.elapsed();
        self.stats.queries += 1;
        self.stats.time += dt;
        self.stats.bytes += text.len() as u64;
        match &a {
            Answer::Sat(_) => self.stats.sat += 1,
            Answer::Unsat => self.stats.unsat += 1,
            Answer::Unknown => self.stats.unknown += 1,
        }
        a
    }
    fn run(&mut self, text: &str, q: &Query, ms: u64, model: bool, inc: bool) -> Answer {
        let once = self.once;
        let p = self.proc();
        // a watchdog, since the solver's own timeout is only checked now and then
        let pid = p.child.id();
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        let hard = Duration::from_millis(if once { ms + 300 } else { ms * 2 + 1000 });
        let wd = std::thread::spawn(move || {
            if rx.recv_timeout(hard) == Err(std::sync::mpsc::RecvTimeoutError::Timeout) {
                let _ = Command::new("kill").args(["-9", &pid.to_string()]).status();
            }
        });
        let mut script = String::new();
        if !p.started {
            script.push_str("(set-logic QF_FF)\n");
            p.started = true;
        }
        for f in 0..NF {
            if !p.defined[f] && text.contains(&format!(" F{}", f)) {
                p.defined[f] = true;
                script.push_str(&sort_def(f));
            }
        }
        script.push_str(&format!("(set-option :timeout {})\n", ms));
        if inc {
            script.push_str("(push)\n");
        }
        script.push_str(text);
        script.push_str("(check-sat)\n(echo \"done\")\n");
        let mut ans = Answer::Unknown;
        let mut dead = false;
        if p.stdin.write_all(script.as_bytes()).is_err() || p.stdin.flush().is_err() {
            dead = true;
        }
        let mut res = String::new();
        let mut err = false;
        if !dead {
            loop {
                let mut l = String::new();
                match p.out.read_line(&mut l) {
                    Ok(0) | Err(_) => {
                        dead = true;
                        break;
                    }
                    Ok(_) => {}
                }
                let l = l.trim();
                if l == "done" {
                    break;
                }
                if l.starts_with("(error") {
                    err = true;
                    if std::env::var("VERIF_DEBUG").is_ok() {
                        eprintln!("solver: {}", l);
                    }
                }
                if l == "sat" || l == "unsat" || l == "unknown" {
                    res = l.to_string();
                }
            }
        }
        if std::env::var("VERIF_DEBUG").is_ok() {
            eprintln!("answer {:?} dead {} err {} after {:?}", res, dead, err, hard);
        }
        if !dead && !err {
            match res.as_str() {
                "unsat" => ans = Answer::Unsat,
                "sat" => {
                    let mut m = HashMap::new();
                    let syms: Vec<u32> = q.freev.values().copied().collect();
                    if model && !syms.is_empty() {
                        let names: Vec<String> = syms.iter().map(|s| format!("t{}", s)).collect();
                        let script =
                            format!("(get-value ({}))\n(echo \"done\")\n", names.join(" "));
                        let mut buf = String::new();
                        if p.stdin.write_all(script.as_bytes()).is_ok() && p.stdin.flush().is_ok()
                        {
                            loop {
                                let mut l = String::new();
                                match p.out.read_line(&mut l) {
                                    Ok(0) | Err(_) => {
                                        dead = true;
                                        break;
                                    }
                                    Ok(_) => {}
                                }
                                if l.trim() == "done" {
                                    break;
                                }
                                buf.push_str(&l);
                            }
                        }
                        // ((t0 (as ff12 (_ FiniteField p))) ...)
                        let mut it = buf.split_whitespace().peekable();
                        let mut cur: Option<u32> = None;
                        while let Some(w) = it.next() {
                            let w = w.trim_matches(|c| c == '(' || c == ')');
                            if let Some(r) = w.strip_prefix("ff") {
                                if let (Some(c), true) =
                                    (cur, r.bytes().all(|b| b.is_ascii_digit()) && !r.is_empty())
                                {
                                    m.insert(c, from_dec(r));
                                    cur = None;
                                }
                            } else if let Some(r) = w.strip_prefix('t') {
                                if let Ok(k) = r.parse::<u32>() {
                                    cur = Some(k);
                                }
                            }
                        }
                    }
                    ans = Answer::Sat(m);
                }
                _ => {}
            }
        }
        if inc && !dead && p.stdin.write_all(b"(pop)\n").is_err() {
            dead = true;
        }
        drop(tx);
        let _ = wd.join();
        if dead {
            self.reset();
        }
        ans
    }
}
