//! Path exploration: run the code, then let the solver decide every branch
//! and identity met on the way.
use crate::engine::*;
use crate::field::*;
use crate::norm::Norm;
use crate::smt::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Cfg {
    pub name: String,
    pub seed: u64,
    pub max_paths: usize,
    pub max_depth: usize,
    pub max_secs: u64,
    pub query_ms: u64,
    /// at most this many flips are tried per path
    pub max_flips: usize,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            name: String::new(),
            seed: 1,
            max_paths: 240,
            max_depth: 2,
            max_secs: 120,
            query_ms: 3000,
            max_flips: 400,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub label: String,
    pub why: String,
    pub vals: BTreeMap<String, (u8, V)>,
    pub salt: u64,
}

#[derive(Default, Clone, Debug)]
pub struct Report {
    pub name: String,
    pub paths: usize,
    pub paths_discarded: usize,
    pub ops: u64,
    pub nodes: usize,
    pub vars: usize,
    pub hashes: usize,
    pub checks: BTreeMap<String, (u64, u64)>,
    pub infos: BTreeMap<String, u64>,
    pub ident_total: usize,
    pub ident_full: usize,
    pub ident_cut: usize,
    pub ident_pinned: usize,
    pub ident_norm: usize,
    pub ident_unknown: usize,
    pub merges_entailed: usize,
    pub merges_path: usize,
    pub merges_unknown: usize,
    pub flips_total: usize,
    pub flips_infeasible: usize,
    pub flips_negligible: usize,
    pub flips_taken: usize,
    pub flips_unresolved: usize,
    pub flips_skipped: usize,
    pub leaks: usize,
    pub stats: Stats,
    pub failures: Vec<Failure>,
    pub errors: Vec<String>,
    pub samples: Vec<String>,
    pub unresolved: Vec<String>,
    pub wall: f64,
    pub max_depth_seen: usize,
    pub truncated: bool,
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!(
            "{} at {}",
            i.payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default(),
            i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()
        );
        if std::env::var("VERIF_DEBUG").is_ok() {
            eprintln!("panic: {}", m);
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(m));
    }));
}
pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

pub type Body = Arc<dyn Fn() + Send + Sync>;

pub fn run_path(body: &Body, seed: u64, asg: Assignment) -> (Box<State>, Option<String>) {
    let b = body.clone();
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            start(seed, asg);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b()));
            let p = r.err().map(|_| last_panic());
            (finish(), p)
        })
        .unwrap()
        .join()
        .expect("path thread")
}

struct Item {
    /// candidate assignments for the same branch, tried in order
    cands: Vec<Assignment>,
    expect: Option<(u64, u64)>,
    what: String,
}

struct Ctx<'a> {
    cfg: &'a Cfg,
    body: Body,
    sol: Solver,
    rep: Report,
    work: VecDeque<Item>,
    seen: HashSet<u64>,
    proved: HashSet<(u64, u64)>,
    t0: Instant,
    hard: Duration,
    gave_up: u64,
    /// runs for values of other shapes, made after the others
    shaped: VecDeque<Item>,
}

fn pair_key(st: &State, a: Node, b: Node) -> (u64, u64) {
    let (x, y) = (st.nodes[a as usize].ch, st.nodes[b as usize].ch);
    (x.min(y), x.max(y))
}

/// readable (bounded) rendering of a node
pub fn show(st: &State, n: Node, depth: usize) -> String {
    let d = &st.nodes[n as usize];
    match d.op {
        Op::Const => {
            let s = to_dec(&field(d.fid).to_canon(&d.val));
            if s.len() > 12 {
                format!("{}..", &s[..8])
            } else {
                s
            }
        }
        Op::Var => st.vars[d.a as usize].name.clone(),
        _ if depth == 0 => "…".into(),
        Op::Neg => format!("-{}", show(st, d.a, depth - 1)),
        Op::Inv => format!("1/{}", show(st, d.a, depth - 1)),
        o => format!(
            "({}{}{})",
            show(st, d.a, depth - 1),
            match o {
                Op::Add => "+",
                Op::Sub => "-",
                _ => "*",
            },
            show(st, d.b, depth - 1)
        ),
    }
}

fn nonlinear(st: &State, n: Node) -> bool {
    let d = &st.nodes[n as usize];
    match d.op {
        Op::Inv => true,
        Op::Mul => st.nodes[d.a as usize].op != Op::Const && st.nodes[d.b as usize].op != Op::Const,
        _ => false,
    }
}

enum Verdict {
    Infeasible,
    Negligible,
    Model(Vec<HashMap<String, V>>),
    Unknown(&'static str),
}

impl<'a> Ctx<'a> {
    fn late_time(&self) -> bool {
        self.t0.elapsed() > Duration::from_secs(self.cfg.max_secs)
    }

    /// variables a set of nodes depends on
    fn vars_of(&self, st: &mut State, ns: &[Node]) -> Vec<u32> {
        let mut d = 0;
        for n in ns {
            let x = st.nodes[*n as usize].deps;
            d = st.union(d, x);
        }
        st.dep_list(d)
    }

    fn forced_modes(&self, st: &State) -> Vec<Mode> {
        st.vars
            .iter()
            .map(|v| {
                if st.asg.forced.contains(&v.name) {
                    Mode::Fix(st.nodes[v.node as usize].val)
                } else {
                    Mode::Free
                }
            })
            .collect()
    }

    /// instances for a query over these variables: None when no random
    /// variable is involved
    fn instances(&self, st: &State, vars: &[u32], k: usize) -> (Vec<Vec<Mode>>, bool) {
        let rnd: Vec<u32> = vars.iter().copied().filter(|v| st.is_random(*v)).collect();
        let base = self.forced_modes(st);
        if rnd.is_empty() {
            return (vec![base], false);
        }
        let kind_of = |v: &u32| st.vars[*v as usize].kind == Kind::Secret;
        // who sees the hashes still knows nothing of the secrets: with both
        // around, several secrets are tried for the same hash outputs
        let per = if rnd.iter().any(kind_of) && !rnd.iter().all(kind_of) {
            if k > 4 { 5 } else { 2 }
        } else {
            1
        };
        let k = if per > 1 { 2 * per } else { k };
        let mut any_free = false;
        let mut out = vec![];
        for i in 0..k {
            let mut m = base.clone();
            for v in vars {
                let vi = &st.vars[*v as usize];
                if m[*v as usize] != Mode::Free {
                    continue;
                }
                if st.is_random(*v) {
                    let j = if vi.kind == Kind::Secret { i } else { i / per };
                    let key = hash2(
                        hash_bytes(17 + j as u64, vi.name.as_bytes()),
                        self.cfg.seed,
                    );
                    m[*v as usize] = Mode::Fix(prf_field(vi.fid, key));
                    continue;
                }
                let shared = match vi.kind {
                    Kind::Input => true,
                    Kind::Conv { .. } => false,
                    _ => rnd.iter().all(|r| {
                        let ri = &st.vars[*r as usize];
                        ri.kind == Kind::Secret || st.dep_has(ri.support, *v)
                    }),
                };
                if shared {
                    m[*v as usize] = Mode::Of(0);
                } else {
                    if !matches!(vi.kind, Kind::Conv { .. }) {
                        m[*v as usize] = Mode::Of((i / per * per) as u32);
                    }
                    any_free = true;
                }
            }
            out.push(m);
        }
        (out, any_free)
    }

    fn is_hash_var(&self, st: &State, n: Node) -> Option<(u32, u32)> {
        let d = &st.nodes[n as usize];
        if d.op == Op::Var {
            match st.vars[d.a as usize].kind {
                Kind::Rom { hid, idx } => return Some((hid, idx)),
                Kind::Conv { from } => return self.is_hash_var(st, from),
                _ => {}
            }
        }
        None
    }

    /// Two digests are equal only when their inputs are: the equalities needed,
    /// or None when the inputs cannot be equal.
    fn hash_eq(&self, st: &State, h1: u32, h2: u32, out: &mut Vec<(Node, Node)>) -> Option<()> {
        if h1 == h2 {
            return Some(());
        }
        let (a, b) = (&st.hashes[h1 as usize], &st.hashes[h2 as usize]);
        if a.alg != b.alg || a.parts.len() != b.parts.len() {
            return None;
        }
        for (x, y) in a.parts.iter().zip(&b.parts) {
            match (x, y) {
                (Part::Lit(p), Part::Lit(q)) => {
                    if p != q {
                        return None;
                    }
                }
                (
                    Part::Sym { node: p, enc: e, len: l1 },
                    Part::Sym { node: q, enc: f, len: l2 },
                ) => {
                    if e != f || (*e != 1 && l1 != l2) {
                        return None;
                    }
                    if st.nodes[*p as usize].fid != st.nodes[*q as usize].fid {
                        return None;
                    }
                    if p != q {
                        out.push((*p, *q));
                    }
                }
                (Part::Hash { hid: p, off: o, len: l }, Part::Hash { hid: q, off: u, len: m }) => {
                    if o != u || l != m {
                        return None;
                    }
                    self.hash_eq(st, *p, *q, out)?;
                }
                // literal against a symbolic part: equal when the symbolic value
                // takes that constant
                (Part::Lit(p), Part::Sym { node: q, enc: 0, len })
                | (Part::Sym { node: q, enc: 0, len }, Part::Lit(p)) => {
                    if p.len() as u32 != *len {
                        return None;
                    }
                    let f = field(st.nodes[*q as usize].fid);
                    let mut v = ZEROV;
                    if p.len() > f.n * 8 {
                        return None;
                    }
                    for (i, c) in p.iter().enumerate() {
                        v[i / 8] |= (*c as u64) << (8 * (i % 8));
                    }
                    if geq(&v, &f.m) {
                        return None;
                    }
                    let v = f.to_mont(&v);
                    match st.consts.get(&(st.nodes[*q as usize].fid, v)) {
                        Some(c) => out.push((*q, *c)),
                        None => return None,
                    }
                }
                _ => return None,
            }
        }
        Some(())
    }

    /// Is   eqs /\ assumes /\ goal   possible?  goal: list of equalities
    /// (polarity true) or one disequality.
    fn decide(
        &mut self,
        st: &mut State,
        eqs: &[(Node, Node)],
        assumes: &[(Node, Node)],
        goal: &[(Node, Node)],
        polarity: bool,
        want_model: bool,
    ) -> Verdict {
        let mut ns: Vec<Node> = vec![];
        for (a, b) in eqs.iter().chain(goal) {
            ns.push(*a);
            ns.push(*b);
        }
        let vars = self.vars_of(st, &ns);
        let relevant: Vec<(Node, Node)> = assumes
            .iter()
            .copied()
            .filter(|(a, b)| {
                let d = {
                    let (x, y) = (st.nodes[*a as usize].deps, st.nodes[*b as usize].deps);
                    st.union(x, y)
                };
                st.dep_list(d).iter().any(|v| vars.contains(v))
            })
            .collect();
        let has_rnd = vars.iter().any(|v| st.is_random(*v));
        // expand equalities between digests
        let mut g2 = vec![];
        let mut hash_goal = false;
        if polarity {
            for (a, b) in goal {
                if let (Some((h1, i1)), Some((h2, i2))) =
                    (self.is_hash_var(st, *a), self.is_hash_var(st, *b))
                {
                    hash_goal = true;
                    if i1 != i2 {
                        return Verdict::Negligible;
                    }
                    let mut out = vec![];
                    match self.hash_eq(st, h1, h2, &mut out) {
                        None => return Verdict::Negligible,
                        Some(()) => g2.extend(out),
                    }
                } else {
                    g2.push((*a, *b));
                }
            }
            if hash_goal {
                return self.decide(st, eqs, assumes, &g2, true, want_model);
            }
        }
        let ks: &[usize] = if has_rnd { &[3, 8] } else { &[1] };
        let mut models = vec![];
        // less patience the more questions have gone unanswered
        let ms = (self.cfg.query_ms * 4 / (4 + self.gave_up)).max(400);
        for k in ks {
            let (insts, any_free) = self.instances(st, &vars, *k);
            let ans = {
                let mut q = Query::new(st);
                for m in &insts {
                    let i = q.inst(m.clone());
                    for (a, b) in eqs {
                        let f = q.eq(i, *a, *b);
                        q.assert(f);
                    }
                    if polarity {
                        for (a, b) in goal {
                            let f = q.eq(i, *a, *b);
                            q.assert(f);
                        }
                    }
                }
                if !polarity {
                    let mut v = vec![];
                    for (a, b) in goal {
                        v.push(not(q.eq(0, *a, *b)));
                    }
                    let f = or(v);
                    q.assert(f);
                }
                for (a, b) in &relevant {
                    let f = not(q.eq(0, *a, *b));
                    q.assert(f);
                }
                let a = self.sol.solve(&q, ms, true);
                match a {
                    Answer::Unsat => None,
                    Answer::Sat(m) => Some(Some(self.names(st, &q, &m))),
                    Answer::Unknown => Some(None),
                }
            };
            let gave_up = matches!(ans, Some(None));
            self.gave_up += gave_up as u64;
            match ans {
                None => {
                    return if has_rnd { Verdict::Negligible } else { Verdict::Infeasible };
                }
                Some(m) => {
                    if want_model {
                        // prefer a model that moves one variable only
                        let cand: Vec<u32> = vars
                            .iter()
                            .copied()
                            .filter(|v| {
                                matches!(st.vars[*v as usize].kind, Kind::Input | Kind::Adv)
                                    && !st.asg.forced.contains(&st.vars[*v as usize].name)
                            })
                            .collect();
                        let n = cand.len();
                        let mut tried = 0;
                        for (j, v) in cand.iter().rev().enumerate() {
                            // the last declared, then spread
                            if n > 8 && j >= 5 && j % (n / 4) != 0 {
                                continue;
                            }
                            tried += 1;
                            if tried > 10 || models.len() >= 2 {
                                break;
                            }
                            let mut q = Query::new(st);
                            for m in &insts {
                                let mut m = m.clone();
                                for u in &vars {
                                    if u != v && !matches!(m[*u as usize], Mode::Fix(_)) {
                                        let val = st.nodes[st.vars[*u as usize].node as usize].val;
                                        m[*u as usize] = Mode::Fix(val);
                                    }
                                }
                                let i = q.inst(m);
                                for (a, b) in eqs {
                                    let f = q.eq(i, *a, *b);
                                    q.assert(f);
                                }
                                if polarity {
                                    for (a, b) in goal {
                                        let f = q.eq(i, *a, *b);
                                        q.assert(f);
                                    }
                                }
                            }
                            if !polarity {
                                let mut w = vec![];
                                for (a, b) in goal {
                                    w.push(not(q.eq(0, *a, *b)));
                                }
                                let f = or(w);
                                q.assert(f);
                            }
                            for (a, b) in &relevant {
                                let f = not(q.eq(0, *a, *b));
                                q.assert(f);
                            }
                            if let Answer::Sat(m) = self.sol.solve(&q, ms, true) {
                                let nm = self.names(st, &q, &m);
                                models.push(nm);
                            }
                        }
                        // adaptive choices: everything the random values depend
                        // on stays as it is in this run, the rest may follow
                        if has_rnd && any_free {
                            let mut sup = 0;
                            for v in &vars {
                                if st.is_random(*v) {
                                    let s = st.vars[*v as usize].support;
                                    sup = st.union(sup, s);
                                }
                            }
                            let fixed = st.dep_list(sup);
                            let mut m = self.forced_modes(st);
                            for v in &vars {
                                if st.is_random(*v)
                                    || fixed.contains(v)
                                    || matches!(st.vars[*v as usize].kind, Kind::Conv { .. })
                                {
                                    m[*v as usize] = Mode::Fix(
                                        st.nodes[st.vars[*v as usize].node as usize].val,
                                    );
                                }
                            }
                            let free: Vec<u32> = vars
                                .iter()
                                .copied()
                                .filter(|v| m[*v as usize] == Mode::Free)
                                .collect();
                            let mut attempts: Vec<Option<u32>> = vec![];
                            for v in free.iter().rev().take(6) {
                                attempts.push(Some(*v));
                            }
                            attempts.push(None);
                            for at in attempts {
                                let mut mm = m.clone();
                                if let Some(v) = at {
                                    for u in &free {
                                        if *u != v {
                                            mm[*u as usize] = Mode::Fix(
                                                st.nodes[st.vars[*u as usize].node as usize].val,
                                            );
                                        }
                                    }
                                }
                                let mut q = Query::new(st);
                                let i = q.inst(mm.clone());
                                // whatever the secrets are
                                let secrets: Vec<u32> = vars
                                    .iter()
                                    .copied()
                                    .filter(|v| st.vars[*v as usize].kind == Kind::Secret)
                                    .collect();
                                for j in 0..if secrets.is_empty() || !polarity { 0 } else { 2u64 } {
                                    let mut mj = mm.clone();
                                    for v in &vars {
                                        if mj[*v as usize] == Mode::Free {
                                            mj[*v as usize] = Mode::Of(i);
                                        }
                                    }
                                    for v in &secrets {
                                        let vi = &st.vars[*v as usize];
                                        let key = hash2(hash_bytes(57 + j, vi.name.as_bytes()), self.cfg.seed);
                                        mj[*v as usize] = Mode::Fix(prf_field(vi.fid, key));
                                    }
                                    let j = q.inst(mj);
                                    for (a, b) in eqs.iter().chain(goal) {
                                        let f = q.eq(j, *a, *b);
                                        q.assert(f);
                                    }
                                }
                                for (a, b) in eqs {
                                    let f = q.eq(i, *a, *b);
                                    q.assert(f);
                                }
                                let mut w = vec![];
                                for (a, b) in goal {
                                    let f = q.eq(i, *a, *b);
                                    if polarity {
                                        q.assert(f);
                                    } else {
                                        w.push(not(f));
                                    }
                                }
                                if !polarity {
                                    let f = or(w);
                                    q.assert(f);
                                }
                                for (a, b) in &relevant {
                                    let f = not(q.eq(i, *a, *b));
                                    q.assert(f);
                                }
                                if let Answer::Sat(x) = self.sol.solve(&q, ms, true)
                                {
                                    let nm = self.names(st, &q, &x);
                                    models.insert(0, nm);
                                    break;
                                }
                            }
                        }
                        if let Some(m) = m {
                            models.push(m);
                        }
                    } else if let Some(m) = m {
                        models.push(m);
                    }
                    if !has_rnd || gave_up {
                        break;
                    }
                }
            }
        }
        if models.is_empty() {
            Verdict::Unknown("solver gave no answer")
        } else {
            Verdict::Model(models)
        }
    }

    fn names(&self, st: &State, q: &Query, m: &HashMap<u32, V>) -> HashMap<String, V> {
        let mut r = HashMap::new();
        for ((inst, v), sym) in &q.freev {
            if *inst != 0 {
                continue;
            }
            let vi = &st.vars[*v as usize];
            if matches!(vi.kind, Kind::Input | Kind::Adv) {
                if let Some(x) = m.get(sym) {
                    r.insert(vi.name.clone(), *x);
                }
            }
        }
        r
    }

    /// prove expr == target for every value of every variable
    fn prove_idents(&mut self, st: &mut State, list: &[(Node, Node)]) -> Vec<(Node, Node)> {
        let todo: Vec<(Node, Node)> = {
            let mut v = vec![];
            for (a, b) in list {
                let k = pair_key(st, *a, *b);
                if self.proved.insert(k) {
                    v.push((*a, *b));
                }
            }
            v
        };
        self.rep.ident_total += todo.len();
        // opaque cuts first: most identities hold after expanding a few
        // layers of products, whatever the deeper parts are
        let mut rest = vec![];
        let mut linear: Vec<(Node, Node)> = vec![];
        for (a, b) in todo {
            match self.pick_cut(st, a, b) {
                Some(0) => linear.push((a, b)),
                Some(l) => {
                    let (cut, open) = self.cut_at(st, a, b, l);
                    let modes = self.forced_modes(st);
                    if open.len() > 250 {
                        rest.push((a, b));
                        continue;
                    }
                    self.sol.once = true;
                    let r = self.ident_query(st, &[(a, b)], modes, cut, 400);
                    self.sol.once = false;
                    match r {
                        Answer::Unsat => self.rep.ident_cut += 1,
                        _ => rest.push((a, b)),
                    }
                }
                None => rest.push((a, b)),
            }
        }
        for ch in linear.chunks(16) {
            let mut cut: FSet<Node> = FSet::default();
            for (a, b) in ch {
                for x in self.reach(st, *a).into_iter().chain(self.reach(st, *b)) {
                    if nonlinear(st, x) {
                        cut.insert(x);
                    }
                }
            }
            let modes = self.forced_modes(st);
            match self.ident_query(st, ch, modes, cut, 1000) {
                Answer::Unsat => self.rep.ident_cut += ch.len(),
                _ => rest.extend(ch),
            }
        }
        rest.sort();
        rest
    }
    /// identities the quick pass left open: a second, slower attempt in order
    /// of growing size, within a quarter of the scenario's time.  What is left
    /// rests on random evaluation (reported as ident_unknown).
    fn prove_hard(&mut self, st: &mut State, rest: Vec<(Node, Node)>) {
        let limit = Duration::from_secs(self.cfg.max_secs / 4);
        for (a, b) in rest {
            let t = Instant::now();
            let level = self.pick_cut(st, a, b);
            if std::env::var("VERIF_TRACE").is_ok() {
                let c = level.map(|l| self.cut_at(st, a, b, l));
                eprintln!(
                    "hard identity level {:?} opaque {:?} open {:?}: {} = {}",
                    level,
                    c.as_ref().map(|c| c.0.len()),
                    c.as_ref().map(|c| c.1.len()),
                    show(st, a, 4),
                    show(st, b, 3)
                );
            }
            if self.hard > limit || self.late_time() {
                self.rep.ident_unknown += 1;
                continue;
            }
            let done = {
                let cut = level.map(|l| self.cut_at(st, a, b, l).0);
                let stop = |n: Node| cut.as_ref().map_or(false, |c| c.contains(&n));
                Norm::new(st, &stop, 400_000).equal(a, b)
            };
            match done {
                Some(true) => self.rep.ident_norm += 1,
                _ => {
                    self.sol.once = true;
                    self.prove_chunk(st, &[(a, b)]);
                    self.sol.once = false;
                }
            }
            self.hard += t.elapsed();
        }
    }
    /// nodes at which expansion of a and b stops when `level` layers of
    /// products are opened, and the nodes opened
    fn cut_at(&self, st: &State, a: Node, b: Node, level: u32) -> (FSet<Node>, Vec<Node>) {
        let mut depth: FMap<Node, u32> = FMap::default();
        let mut q: VecDeque<(Node, u32)> = VecDeque::new();
        q.push_back((a, 0));
        q.push_back((b, 0));
        while let Some((n, d)) = q.pop_front() {
            if depth.get(&n).map_or(false, |x| *x <= d) {
                continue;
            }
            depth.insert(n, d);
            let x = &st.nodes[n as usize];
            let nl = nonlinear(st, n);
            if nl && d >= level {
                continue;
            }
            match x.op {
                Op::Const | Op::Var => {}
                _ => {
                    let kids = if matches!(x.op, Op::Neg | Op::Inv) { vec![x.a] } else { vec![x.a, x.b] };
                    for k in kids {
                        if nl {
                            q.push_back((k, d + 1));
                        } else {
                            q.push_front((k, d));
                        }
                    }
                }
            }
        }
        let mut cut = FSet::default();
        let mut open = vec![];
        for (n, d) in depth {
            if nonlinear(st, n) && d >= level {
                cut.insert(n);
            }
            open.push(n);
        }
        open.sort_unstable();
        (cut, open)
    }
    /// smallest number of layers after which both sides agree for a random
    /// choice of the opaque parts
    fn pick_cut(&self, st: &State, a: Node, b: Node) -> Option<u32> {
        let mut last = usize::MAX;
        for level in 0..8 {
            let (cut, open) = self.cut_at(st, a, b, level);
            if open.len() > 6000 || open.len() == last {
                return None;
            }
            last = open.len();
            let mut val: FMap<Node, V> = FMap::default();
            for n in &open {
                let d = &st.nodes[*n as usize];
                let f = field(d.fid);
                let v = if d.op == Op::Const {
                    d.val
                } else if cut.contains(n) || d.op == Op::Var {
                    let forced = d.op == Op::Var && st.asg.forced.contains(&st.vars[d.a as usize].name);
                    if forced {
                        d.val
                    } else {
                        prf_field(d.fid, hash2(self.cfg.seed ^ 0x77, *n as u64))
                    }
                } else {
                    let x = val[&d.a];
                    match d.op {
                        Op::Neg => f.neg(&x),
                        Op::Inv => f.inv(&x),
                        Op::Add => f.add(&x, &val[&d.b]),
                        Op::Sub => f.sub(&x, &val[&d.b]),
                        _ => f.mul(&x, &val[&d.b]),
                    }
                };
                val.insert(*n, v);
            }
            if val[&a] == val[&b] {
                return Some(level);
            }
        }
        None
    }
    fn ident_query(
        &mut self,
        st: &State,
        ch: &[(Node, Node)],
        modes: Vec<Mode>,
        cut: FSet<Node>,
        ms: u64,
    ) -> Answer {
        let mut q = Query::new(st);
        q.cut = cut;
        q.inst(modes);
        let mut v = vec![];
        for (a, b) in ch {
            v.push(not(q.eq(0, *a, *b)));
        }
        let f = or(v);
        if matches!(f, Fm::False) {
            self.sol.stats.queries += 1;
            self.sol.stats.unsat += 1;
            return Answer::Unsat;
        }
        q.assert(f);
        self.sol.solve(&q, ms, false)
    }
    fn size(&self, st: &State, roots: &[Node], limit: usize) -> usize {
        let mut seen: FSet<Node> = FSet::default();
        let mut w = roots.to_vec();
        while let Some(n) = w.pop() {
            if !seen.insert(n) {
                continue;
            }
            if seen.len() > limit {
                break;
            }
            let d = &st.nodes[n as usize];
            match d.op {
                Op::Const | Op::Var => {}
                Op::Neg | Op::Inv => w.push(d.a),
                _ => {
                    w.push(d.a);
                    w.push(d.b);
                }
            }
        }
        seen.len()
    }
    fn reach(&self, st: &State, root: Node) -> FSet<Node> {
        let mut seen: FSet<Node> = FSet::default();
        let mut w = vec![root];
        while let Some(n) = w.pop() {
            if !seen.insert(n) {
                continue;
            }
            let d = &st.nodes[n as usize];
            match d.op {
                Op::Const | Op::Var => {}
                Op::Neg | Op::Inv => w.push(d.a),
                _ => {
                    w.push(d.a);
                    w.push(d.b);
                }
            }
        }
        seen
    }
    fn prove_chunk(&mut self, st: &mut State, ch: &[(Node, Node)]) {
        let base = self.forced_modes(st);
        let mut roots: Vec<Node> = ch.iter().map(|x| x.0).collect();
        roots.extend(ch.iter().map(|x| x.1));
        let sz = self.size(st, &roots, 200_000);
        if std::env::var("VERIF_TRACE").is_ok() {
            eprintln!("ident chunk {} pairs, {} nodes", ch.len(), sz);
        }
        if ch.len() == 1 {
            // opaque cut at the nodes both sides share
            let (a, b) = ch[0];
            let ra = self.reach(st, a);
            let rb = self.reach(st, b);
            let cut: FSet<Node> = ra
                .iter()
                .copied()
                .filter(|n| {
                    rb.contains(n)
                        && *n != a
                        && *n != b
                        && !matches!(st.nodes[*n as usize].op, Op::Const | Op::Var)
                })
                .collect();
            if !cut.is_empty() && sz > 60 {
                if let Answer::Unsat = self.ident_query(st, ch, base.clone(), cut, 400) {
                    self.rep.ident_cut += 1;
                    return;
                }
            }
        }
        if sz < 3_000 {
            let ms = 700;
            match self.ident_query(st, ch, base.clone(), FSet::default(), ms) {
                Answer::Unsat => {
                    self.rep.ident_full += ch.len();
                    return;
                }
                Answer::Sat(_) if ch.len() == 1 => {
                    self.rep.errors.push(format!(
                        "value coincidence is not an identity: {} = {}",
                        show(st, ch[0].0, 4),
                        show(st, ch[0].1, 4)
                    ));
                    return;
                }
                _ => {}
            }
        }
        if ch.len() > 1 && !self.late_time() {
            let m = ch.len() / 2;
            let (l, r) = ch.split_at(m);
            let (l, r) = (l.to_vec(), r.to_vec());
            self.prove_chunk(st, &l);
            self.prove_chunk(st, &r);
            return;
        }
        // pin the random variables
        let vars = self.vars_of(st, &roots);
        let mut pinned = base.clone();
        for v in &vars {
            if st.is_random(*v) {
                let vi = &st.vars[*v as usize];
                pinned[*v as usize] = Mode::Fix(prf_field(
                    vi.fid,
                    hash_bytes(991 + self.cfg.seed, vi.name.as_bytes()),
                ));
            }
        }
        if vars.iter().any(|v| st.is_random(*v)) && sz < 3_000 {
            if let Answer::Unsat = self.ident_query(st, ch, pinned.clone(), FSet::default(), 1000) {
                self.rep.ident_pinned += ch.len();
                return;
            }
        }
        self.rep.ident_unknown += ch.len();
    }

    fn child(&self, st: &State, m: &HashMap<String, V>, why: String, extra: &[(Node, Node)]) -> Assignment {
        let mut a = st.asg.clone();
        for v in &st.vars {
            if matches!(v.kind, Kind::Input | Kind::Adv) {
                let f = field(v.fid);
                a.vals
                    .insert(v.name.clone(), f.to_canon(&st.nodes[v.node as usize].val));
            }
        }
        for (k, x) in m {
            a.vals.insert(k.clone(), *x);
        }
        a.depth = st.asg.depth + 1;
        a.why = why;
        for (x, y) in extra {
            for n in [x, y] {
                let d = &st.nodes[*n as usize];
                if d.op == Op::Const && !a.sticky.contains(&(d.fid, d.val)) {
                    a.sticky.push((d.fid, d.val));
                }
            }
        }
        a
    }

    /// Parts of a field element left the algebra as plain integers: also run with values that
    /// agree in their low or in their high part.
    fn near(&mut self, st: &State) {
        let vars: Vec<_> = st.vars.iter().filter(|v| matches!(v.kind, Kind::Input | Kind::Adv)).rev().take(24).collect();
        let part = |k: usize| {
            let mut v = [0u64; 6];
            v[k] = 1;
            v
        };
        let (mut todo, mut pairs) = (vec![], vec![]);
        for (i, x) in vars.iter().enumerate() {
            let f = field(x.fid);
            let parts: Vec<V> = if f.n < 2 {
                [32, 0, 48, 16, 8].iter().map(|k| [1u64 << k, 0, 0, 0, 0, 0]).collect()
            } else {
                [1, 0, f.n - 2].iter().map(|k| part(*k)).collect()
            };
            for d in &parts {
                todo.push((x.name.clone(), *d));
            }
            for y in &vars[i + 1..] {
                if y.fid == x.fid {
                    let v = f.to_canon(&st.nodes[x.node as usize].val);
                    for d in &parts {
                        pairs.push((y.name.clone(), f.add(&v, d)));
                    }
                }
            }
        }
        todo.extend(pairs);
        todo.truncate(150);
        for (name, v) in todo {
            let mut a = st.asg.clone();
            a.why = format!("a value of {name} that agrees with another in part");
            a.depth = self.cfg.max_depth;
            a.vals.insert(name, v);
            self.shaped.push_back(Item { what: a.why.clone(), cands: vec![a], expect: None });
        }
    }

    /// Values that were used as integers, or of which a part was hashed: let the solver give
    /// them values of other shapes, and pairs of them values that agree in part.
    fn shapes(&mut self, st: &mut State, events: &[Event]) -> (usize, bool) {
        let assumes: Vec<(Node, Node)> = events
            .iter()
            .filter_map(|e| match e {
                Event::Assume { a, b } => Some((*a, *b)),
                _ => None,
            })
            .collect();
        let mut list: Vec<Node> = events
            .iter()
            .filter_map(|e| match e {
                Event::Leak { node } => Some(*node),
                _ => None,
            })
            .collect();
        let cut: Vec<Node> = st.cut_values();
        let found = cut.iter().filter(|n| !list.contains(n)).count();
        for n in cut {
            if !list.contains(&n) {
                list.push(n);
            }
        }
        list.retain(|n| {
            let d = &st.nodes[*n as usize];
            d.op != Op::Const
                && st.dep_list(d.deps).iter().any(|v| matches!(st.vars[*v as usize].kind, Kind::Input | Kind::Adv))
        });
        if list.is_empty() {
            return (found, false);
        }
        let t0 = Instant::now();
        let mut goals: Vec<(Node, Node, String)> = vec![];
        let bit = |k: usize| {
            let mut v = [0u64; 6];
            v[k / 64] = 1 << (k % 64);
            v
        };
        list.truncate(12);
        // pairs: opposite values, a decimal place more, a difference in one place only
        for what in ["opposite", "equal", "64", "0", "top", "32", "ten", "8", "128", "dec"] {
            for (i, a) in list.clone().iter().enumerate() {
                for b in list.clone().iter().skip(i + 1) {
                    let fid = st.nodes[*a as usize].fid;
                    if st.nodes[*b as usize].fid != fid || goals.len() >= 220 {
                        continue;
                    }
                    let f = field(fid);
                    let bits = f.n * 64 - f.m[f.n - 1].leading_zeros() as usize;
                    let op = if what == "opposite" { Op::Add } else { Op::Sub };
                    let (mut x, mut delta) = (*a, [0u64; 6]);
                    match what {
                        "opposite" | "equal" => {}
                        "ten" => {
                            let t = st.konst(fid, f.to_mont(&[10, 0, 0, 0, 0, 0]));
                            let v = st.apply(fid, Op::Mul, *a, t, None);
                            x = st.operand(fid, v);
                        }
                        "dec" => delta = from_dec(&format!("1{}", "0".repeat(bits * 3 / 10 - 3))),
                        "top" => delta = bit(bits - 4),
                        k => {
                            let k: usize = k.parse().unwrap();
                            if k + 8 > bits {
                                continue;
                            }
                            delta = bit(k);
                        }
                    }
                    let v = st.apply(fid, op, x, *b, None);
                    let n = st.operand(fid, v);
                    let c = st.konst(fid, f.to_mont(&delta));
                    goals.push((n, c, what.to_string()));
                }
            }
        }
        // the opposite of what it is without a change
        for n in list.iter() {
            let d = &st.nodes[*n as usize];
            let (fid, op, x, y) = (d.fid, d.op, d.a, d.b);
            if !matches!(op, Op::Add | Op::Sub) {
                continue;
            }
            let free = |n: Node| {
                let d = &st.nodes[n as usize];
                d.op == Op::Var && matches!(st.vars[d.a as usize].kind, Kind::Input | Kind::Adv)
            };
            let base = if free(y) { x } else if free(x) && op == Op::Add { y } else { continue };
            let v = st.apply(fid, Op::Add, *n, base, None);
            let m = st.operand(fid, v);
            let c = st.konst(fid, [0; 6]);
            goals.push((m, c, "opposite".into()));
        }
        // single values
        for n in list.iter().take(6) {
            let fid = st.nodes[*n as usize].fid;
            let f = field(fid);
            let bits = f.n * 64 - f.m[f.n - 1].leading_zeros() as usize;
            let one = bit(0);
            let mut c = vec![[0u64; 6], one, bit(1), f.neg(&one), f.neg(&bit(1)), bit(bits - 1), f.sub(&bit(bits - 1), &one)];
            for k in [8, 16, 31, 32, 48, 63, 64, 96, 128, 192] {
                if k < bits {
                    c.push(bit(k));
                    c.push(f.sub(&bit(k), &one));
                }
            }
            for v in c {
                let k = st.konst(fid, f.to_mont(&v));
                goals.push((*n, k, "value".into()));
            }
        }
        for (a, b, what) in goals {
            if self.late_time() || t0.elapsed().as_secs() > 10 || SHAPES_MS.load(Relaxed) > 300_000 {
                break;
            }
            let k = pair_key(st, a, b);
            if !self.seen.insert(hash2(hash2(77, k.0), k.1)) {
                continue;
            }
            let direct = direct(st, a, b);
            let m = match direct {
                Some(m) => m,
                None => match self.decide(st, &[], &assumes, &[(a, b)], true, true) {
                    Verdict::Model(ms) => ms[0].clone(),
                    _ => continue,
                },
            };
            let why = format!("{what}: {} = {}", show(st, a, 3), show(st, b, 3));
            let mut x = self.child(st, &m, why.clone(), &[]);
            x.depth = self.cfg.max_depth;
            self.shaped.push_back(Item { what: why, cands: vec![x], expect: None });
        }
        SHAPES_MS.fetch_add(t0.elapsed().as_millis() as u64, Relaxed);
        (found, true)
    }

    fn process(&mut self, asg: Assignment, expect: Option<(u64, u64)>) -> bool {
        let depth = asg.depth;
        let why = asg.why.clone();
        let (mut st, panic) = run_path(&self.body, self.cfg.seed, asg);
        self.rep.paths += 1;
        self.rep.max_depth_seen = self.rep.max_depth_seen.max(depth);
        self.rep.ops += st.ops;
        self.rep.nodes = self.rep.nodes.max(st.nodes.len());
        self.rep.vars = self.rep.vars.max(st.vars.len());
        self.rep.hashes = self.rep.hashes.max(st.hashes.len());
        for e in &st.errors {
            if self.rep.errors.len() < 20 && !self.rep.errors.contains(e) {
                self.rep.errors.push(e.clone());
            }
        }
        for i in &st.infos {
            *self.rep.infos.entry(i.clone()).or_insert(0) += 1;
        }
        if std::env::var("VERIF_TRACE").is_ok() {
            eprintln!(
                "[{}] path {} depth {} ({}) events {} nodes {} vars {} hashes {} panic {:?} checks {:?}",
                self.cfg.name,
                self.rep.paths,
                depth,
                why,
                st.events.len(),
                st.nodes.len(),
                st.vars.len(),
                st.hashes.len(),
                panic,
                st.checks.iter().map(|c| (c.ok, c.label.clone())).collect::<Vec<_>>()
            );
        }
        if st.assume_failed {
            self.rep.paths_discarded += 1;
            return true;
        }
        if let Some(m) = panic {
            st.checks.push(Check {
                ok: false,
                label: format!("no-panic ({})", m),
                at: st.events.len(),
            });
        }
        let mut failed = false;
        for c in &st.checks {
            let e = self.rep.checks.entry(c.label.clone()).or_insert((0, 0));
            if c.ok {
                e.0 += 1
            } else {
                e.1 += 1;
                failed = true;
                if self.rep.failures.len() < 8
                    && !self.rep.failures.iter().any(|f| f.label == c.label)
                {
                    let mut vals = BTreeMap::new();
                    for v in &st.vars {
                        if matches!(v.kind, Kind::Input | Kind::Adv) {
                            let f = field(v.fid);
                            vals.insert(
                                v.name.clone(),
                                (v.fid, f.to_canon(&st.nodes[v.node as usize].val)),
                            );
                        }
                    }
                    self.rep.failures.push(Failure {
                        label: c.label.clone(),
                        why: why.clone(),
                        vals,
                        salt: st.asg.salt,
                    });
                }
            }
        }
        // did the run take the branch it was built for?
        let mut realised = true;
        if let Some(k) = expect {
            let still = st.events.iter().any(|e| match e {
                Event::Ne { a, b } => pair_key(&st, *a, *b) == k,
                _ => false,
            });
            if still {
                realised = false;
            }
        }
        if failed {
            // no need to look beyond a failing path
            return realised;
        }
        // ---- path condition
        let events = st.events.clone();
        let mut eqs: Vec<(Node, Node)> = vec![];
        let mut eqkey = 0u64;
        let mut assumes: Vec<(Node, Node)> = vec![];
        let mut idents = vec![];
        let mut flips: Vec<(Vec<(Node, Node)>, u64, usize, Node, Node, bool)> = vec![];
        for e in &events {
            match e {
                Event::Assume { a, b } => assumes.push((*a, *b)),
                Event::Leak { .. } => self.rep.leaks += 1,
                Event::Merge { expr, target, ident } => {
                    let d = &st.nodes[*expr as usize];
                    if d.op == Op::Var
                        && st.asg.forced.contains(&st.vars[d.a as usize].name)
                    {
                        continue;
                    }
                    if *ident {
                        idents.push((*expr, *target));
                        continue;
                    }
                    let (ex, ta) = (*expr, *target);
                    match self.decide(&mut st, &eqs, &assumes, &[(ex, ta)], false, false) {
                        Verdict::Infeasible | Verdict::Negligible => self.rep.merges_entailed += 1,
                        v => {
                            if let Verdict::Unknown(_) = v {
                                self.rep.merges_unknown += 1;
                            } else {
                                self.rep.merges_path += 1;
                            }
                            flips.push((eqs.clone(), eqkey, assumes.len(), ex, ta, false));
                            eqs.push((ex, ta));
                            let k = pair_key(&st, ex, ta);
                            eqkey ^= mix(hash2(k.0, k.1));
                        }
                    }
                }
                Event::Ne { a, b } => {
                    flips.push((eqs.clone(), eqkey, assumes.len(), *a, *b, true));
                }
            }
        }
        let hard = self.prove_idents(&mut st, &idents);
        if depth == 0 && why.is_empty() {
            let (found, any) = self.shapes(&mut st, &events);
            self.rep.leaks += found;
            if any {
                self.near(&st);
            }
        }
        // ---- other branches
        if depth >= self.cfg.max_depth {
            self.rep.flips_skipped += flips
                .iter()
                .filter(|f| {
                    let k = pair_key(&st, f.3, f.4);
                    !self.seen.contains(&hash2(hash2(f.1, k.0), hash2(k.1, f.5 as u64)))
                })
                .count();
            self.prove_hard(&mut st, hard);
            return realised;
        }
        let mut n = 0;
        for (eqs, ek, na, a, b, to_eq) in flips {
            let k = pair_key(&st, a, b);
            let key = hash2(hash2(ek, k.0), hash2(k.1, to_eq as u64));
            // the branch taken here needs no separate run
            let own = hash2(hash2(ek, k.0), hash2(k.1, !to_eq as u64));
            self.seen.insert(own);
            if !self.seen.insert(key) {
                continue;
            }
            self.rep.flips_total += 1;
            n += 1;
            if n > self.cfg.max_flips || self.late_time() {
                self.rep.flips_skipped += 1;
                self.rep.truncated = true;
                continue;
            }
            let ass = assumes[..na].to_vec();
            let v = self.decide(&mut st, &eqs, &ass, &[(a, b)], to_eq, true);
            match v {
                Verdict::Infeasible => self.rep.flips_infeasible += 1,
                Verdict::Negligible => self.rep.flips_negligible += 1,
                Verdict::Unknown(_) => {
                    self.rep.flips_unresolved += 1;
                    if self.rep.unresolved.len() < 12 {
                        let s = format!("{} ?= {}", show(&st, a, 3), show(&st, b, 3));
                        self.rep.unresolved.push(s);
                    }
                }
                Verdict::Model(ms) => {
                    let mut extra = eqs.clone();
                    extra.push((a, b));
                    for e in &events {
                        if let Event::Ne { a, b } = e {
                            extra.push((*a, *b));
                        }
                    }
                    let why = format!(
                        "{}{} {} {}",
                        if why.is_empty() { String::new() } else { format!("{}; ", why) },
                        show(&st, a, 3),
                        if to_eq { "=" } else { "!=" },
                        show(&st, b, 3)
                    );
                    if self.rep.samples.len() < 8 {
                        self.rep.samples.push(why.clone());
                    }
                    let mut queue = ms;
                    queue.truncate(3);
                    // alternatives are only tried when the first does not take the branch
                    let first = self.child(&st, &queue[0], why.clone(), &extra);
                    let alts: Vec<Assignment> = queue[1..]
                        .iter()
                        .map(|m| self.child(&st, m, why.clone(), &extra))
                        .collect();
                    let mut cands = vec![first];
                    cands.extend(alts);
                    self.work.push_back(Item {
                        cands,
                        expect: if to_eq { Some(k) } else { None },
                        what: why,
                    });
                }
            }
        }
        self.prove_hard(&mut st, hard);
        realised
    }

}

/// time spent on values of other shapes by all scenarios of this process
static SHAPES_MS: AtomicU64 = AtomicU64::new(0);

/// A value for one free variable that makes a equal to b, when that is plain to see.
fn direct(st: &State, a: Node, b: Node) -> Option<HashMap<String, V>> {
    let free = |n: Node| {
        let d = &st.nodes[n as usize];
        (d.op == Op::Var && matches!(st.vars[d.a as usize].kind, Kind::Input | Kind::Adv)).then(|| st.vars[d.a as usize].name.clone())
    };
    let f = field(st.nodes[a as usize].fid);
    let val = |n: Node| st.nodes[n as usize].val;
    let d = &st.nodes[a as usize];
    let (name, v) = if let Some(x) = free(a) {
        (x, val(b))
    } else if let (Op::Add | Op::Sub, Some(y)) = (d.op, free(d.b)) {
        if st.nodes[d.a as usize].deps != 0 && st.dep_list(st.nodes[d.a as usize].deps).contains(&st.nodes[d.b as usize].a) {
            return None;
        }
        // a = x +- y
        (y, if d.op == Op::Add { f.sub(&val(b), &val(d.a)) } else { f.sub(&val(d.a), &val(b)) })
    } else {
        return None;
    };
    Some(HashMap::from([(name, f.to_canon(&v))]))
}

/// Explore the paths of `body`.
pub fn explore(cfg: &Cfg, body: Body) -> Report {
    let mut c = Ctx {
        cfg,
        body,
        sol: Solver::new(),
        rep: Report {
            name: cfg.name.clone(),
            ..Report::default()
        },
        work: VecDeque::new(),
        seen: HashSet::new(),
        proved: HashSet::new(),
        t0: Instant::now(),
        hard: Duration::ZERO,
        gave_up: 0,
        shaped: VecDeque::new(),
    };
    c.work.push_back(Item {
        cands: vec![Assignment::default()],
        expect: None,
        what: String::new(),
    });
    while let Some(it) = c.work.pop_front() {
        if c.rep.paths >= cfg.max_paths || (c.rep.paths > 0 && c.late_time()) {
            c.rep.truncated = true;
            c.rep.flips_skipped += 1 + c.work.len();
            break;
        }
        let root = it.expect.is_none() && it.what.is_empty();
        let mut done = false;
        for a in it.cands {
            if c.process(a, it.expect) {
                done = true;
                break;
            }
        }
        if root {
            continue;
        }
        if done {
            c.rep.flips_taken += 1;
        } else {
            c.rep.flips_unresolved += 1;
            if c.rep.unresolved.len() < 12 {
                c.rep.unresolved.push(it.what);
            }
        }
        if c.rep.failures.len() >= 4 {
            c.rep.truncated = true;
            break;
        }
    }
    let t = Instant::now();
    while let Some(it) = c.shaped.pop_front() {
        if !c.rep.failures.is_empty() || t.elapsed().as_secs() > 15 || SHAPES_MS.load(Relaxed) > 600_000 {
            c.rep.flips_skipped += 1 + c.shaped.len();
            break;
        }
        let t = Instant::now();
        for a in it.cands {
            c.process(a, None);
        }
        SHAPES_MS.fetch_add(t.elapsed().as_millis() as u64, Relaxed);
    }
    c.rep.stats = c.sol.stats.clone();
    c.rep.wall = c.t0.elapsed().as_secs_f64();
    c.rep
}
