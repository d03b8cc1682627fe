use crate::field::*;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::Arc as Rc;

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(w));
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type Fx = BuildHasherDefault<FxH>;
pub type FMap<K, T> = HashMap<K, T, Fx>;
pub type FSet<K> = HashSet<K, Fx>;

pub type Node = u32;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    Neg,
    Inv,
}

#[derive(Clone)]
pub struct NodeData {
    pub fid: u8,
    pub op: Op,
    pub a: u32,
    pub b: u32,
    pub val: V,
    pub val2: V,
    pub deps: u32,
    pub ch: u64,
}

/// What a symbolic variable stands for.
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    /// chosen before any randomness of the run exists
    Input,
    /// chosen by an adversary who sees all randomness that does not depend on it
    Adv,
    /// uniformly random and unknown to everybody (SRS trapdoor, prover's entropy)
    Secret,
    /// random-oracle output: the idx-th draw (or the whole digest) of a hash record
    Rom { hid: u32, idx: u32 },
    /// integer re-interpretation of a value of another field
    Conv { from: Node },
}

#[derive(Clone)]
pub struct VarInfo {
    pub name: String,
    pub kind: Kind,
    pub node: Node,
    pub fid: u8,
    /// set of variables the value was derived from (only for Rom / Conv)
    pub support: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    Lit(Vec<u8>),
    Sym { node: Node, enc: u8, len: u32 },
    Hash { hid: u32, off: u32, len: u32 },
}

#[derive(Clone)]
pub struct HashRec {
    pub alg: &'static str,
    pub parts: Vec<Part>,
    pub out: Vec<u8>,
    pub deps: u32,
    pub ch: u64,
}

#[derive(Clone, Debug)]
pub enum Event {
    /// on this path expr and target have the same value; later uses mean target
    Merge { expr: Node, target: Node, ident: bool },
    /// the code compared a and b and found them different
    Ne { a: Node, b: Node },
    /// harness assumption a != b
    Assume { a: Node, b: Node },
    /// the integer value of a symbolic field element was exposed to the code
    Leak { node: Node },
}

#[derive(Clone)]
pub enum ByteSym {
    Node { node: Node, enc: u8 },
    HashOut { hid: u32, off: u32 },
}

#[derive(Clone, Default, Debug)]
pub struct Assignment {
    /// canonical values of named variables; unnamed ones get a seeded generic value
    pub vals: HashMap<String, V>,
    /// variables whose value the path condition forces: treated as constants
    pub forced: HashSet<String>,
    pub depth: usize,
    pub why: String,
    /// extra entropy for the run (changes all draws of the modelled RNG)
    pub salt: u64,
    /// constants that took part in the conditions leading here: a value equal
    /// to one of them is reported as a coincidence
    pub sticky: Vec<(u8, V)>,
}

#[derive(Clone, Debug)]
pub struct Check {
    pub ok: bool,
    pub label: String,
    pub at: usize,
}

pub struct State {
    pub seed: u64,
    pub asg: Assignment,
    pub nodes: Vec<NodeData>,
    pub cse: FMap<(u8, u32, u32), u32>,
    pub vals: FMap<(u8, V), u32>,
    pub consts: FMap<(u8, V), u32>,
    pub vars: Vec<VarInfo>,
    pub var_by_name: HashMap<String, u32>,
    pub depsets: Vec<Rc<Vec<u64>>>,
    pub dep_intern: HashMap<Rc<Vec<u64>>, u32>,
    pub dep_union: FMap<(u32, u32), u32>,
    pub events: Vec<Event>,
    pub ne_seen: FSet<(u32, u32)>,
    pub leak_seen: FSet<u32>,
    pub bytes: FMap<u64, Vec<(Vec<u8>, ByteSym)>>,
    pub bytes_seen: HashSet<Vec<u8>>,
    pub hashes: Vec<HashRec>,
    pub hash_idx: HashMap<(&'static str, Vec<u8>), u32>,
    pub checks: Vec<Check>,
    pub infos: Vec<String>,
    pub assume_failed: bool,
    pub rng_ctr: u64,
    /// fewest bits of a digest that a challenge or a seed was made from
    pub narrow: Option<u32>,
    pub draws: Vec<(u64, u64, u64)>, // (origin, counter, value)
    pub pairings: HashMap<Vec<u8>, V>,
    pub points: HashMap<Vec<u8>, V>,
    pub ops: u64,
    pub sticky: HashSet<(u8, V)>,
    pub errors: Vec<String>,
    /// what was hashed besides whole encodings of known values
    pub lits: Vec<Vec<u8>>,
    /// first coordinates of points
    pub coords: Vec<(Vec<u8>, V)>,
}

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static ST: RefCell<Option<Box<State>>> = const { RefCell::new(None) };
}

#[inline(always)]
pub fn is_active() -> bool {
    ACTIVE.with(|a| a.get())
}

pub struct Pause(bool);
impl Drop for Pause {
    fn drop(&mut self) {
        ACTIVE.with(|a| a.set(self.0))
    }
}
/// Suspend recording until the guard is dropped.
pub fn pause() -> Pause {
    ACTIVE.with(|a| {
        let o = a.get();
        a.set(false);
        Pause(o)
    })
}

pub fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    ST.with(|s| {
        let mut g = s.borrow_mut();
        f(g.as_mut().expect("symcore: no state"))
    })
}

pub fn has_state() -> bool {
    ST.with(|s| s.borrow().is_some())
}

pub fn start(seed: u64, asg: Assignment) {
    let mut st = Box::new(State {
        seed,
        sticky: asg.sticky.iter().copied().collect(),
        asg,
        nodes: vec![],
        cse: FMap::default(),
        vals: FMap::default(),
        consts: FMap::default(),
        vars: vec![],
        var_by_name: HashMap::new(),
        depsets: vec![],
        dep_intern: HashMap::new(),
        dep_union: FMap::default(),
        events: vec![],
        ne_seen: FSet::default(),
        leak_seen: FSet::default(),
        bytes: FMap::default(),
        bytes_seen: HashSet::new(),
        hashes: vec![],
        hash_idx: HashMap::new(),
        checks: vec![],
        infos: vec![],
        assume_failed: false,
        rng_ctr: 0,
        draws: vec![],
        narrow: None,
        pairings: HashMap::new(),
        points: HashMap::new(),
        ops: 0,
        errors: vec![],
        lits: vec![],
        coords: vec![],
    });
    let e = Rc::new(vec![]);
    st.depsets.push(e.clone());
    st.dep_intern.insert(e, 0);
    ST.with(|s| *s.borrow_mut() = Some(st));
    ACTIVE.with(|a| a.set(true));
}

pub fn finish() -> Box<State> {
    ACTIVE.with(|a| a.set(false));
    ST.with(|s| s.borrow_mut().take().expect("no state"))
}

fn v_of(a: &[u64]) -> V {
    let mut v = ZEROV;
    v[..a.len()].copy_from_slice(a);
    v
}

impl State {
    pub fn dep_single(&mut self, v: u32) -> u32 {
        let mut s = vec![0u64; v as usize / 64 + 1];
        s[v as usize / 64] |= 1 << (v % 64);
        self.intern(s)
    }
    fn intern(&mut self, mut s: Vec<u64>) -> u32 {
        while s.last() == Some(&0) {
            s.pop();
        }
        let r = Rc::new(s);
        if let Some(i) = self.dep_intern.get(&r) {
            return *i;
        }
        let i = self.depsets.len() as u32;
        self.depsets.push(r.clone());
        self.dep_intern.insert(r, i);
        i
    }
    pub fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = (a.min(b), a.max(b));
        if let Some(r) = self.dep_union.get(&k) {
            return *r;
        }
        let x = self.depsets[a as usize].clone();
        let y = self.depsets[b as usize].clone();
        let n = x.len().max(y.len());
        let s: Vec<u64> = (0..n)
            .map(|i| x.get(i).copied().unwrap_or(0) | y.get(i).copied().unwrap_or(0))
            .collect();
        let r = self.intern(s);
        self.dep_union.insert(k, r);
        r
    }
    pub fn dep_list(&self, d: u32) -> Vec<u32> {
        let mut r = vec![];
        for (i, w) in self.depsets[d as usize].iter().enumerate() {
            let mut w = *w;
            while w != 0 {
                r.push(i as u32 * 64 + w.trailing_zeros());
                w &= w - 1;
            }
        }
        r
    }
    pub fn dep_has(&self, d: u32, v: u32) -> bool {
        self.depsets[d as usize]
            .get(v as usize / 64)
            .map_or(false, |w| (w >> (v % 64)) & 1 == 1)
    }
    /// deps of a node, closed under the support of the random variables in it
    pub fn closure(&mut self, d: u32) -> u32 {
        let mut r = d;
        for v in self.dep_list(d) {
            let s = self.vars[v as usize].support;
            r = self.union(r, s);
        }
        r
    }
    fn push(&mut self, n: NodeData) -> Node {
        self.nodes.push(n);
        (self.nodes.len() - 1) as u32
    }
    pub fn konst(&mut self, fid: u8, v: V) -> Node {
        if let Some(n) = self.consts.get(&(fid, v)) {
            return *n;
        }
        let mut ch = hash2(11, fid as u64);
        for l in v {
            ch = hash2(ch, l);
        }
        let n = self.push(NodeData {
            fid,
            op: Op::Const,
            a: 0,
            b: 0,
            val: v,
            val2: v,
            deps: 0,
            ch,
        });
        self.consts.insert((fid, v), n);
        n
    }
    pub fn lookup(&self, fid: u8, v: &V) -> Option<Node> {
        self.vals.get(&(fid, *v)).copied()
    }
    pub fn operand(&mut self, fid: u8, v: V) -> Node {
        match self.lookup(fid, &v) {
            Some(n) => n,
            None => self.konst(fid, v),
        }
    }
    fn is_const(&self, n: Node) -> bool {
        self.nodes[n as usize].op == Op::Const
    }
    pub fn new_var(
        &mut self,
        name: String,
        kind: Kind,
        fid: u8,
        val: V,
        support: u32,
    ) -> Node {
        if let Some(v) = self.var_by_name.get(&name) {
            let n = self.vars[*v as usize].node;
            if self.nodes[n as usize].val != val {
                self.errors
                    .push(format!("variable {} re-registered with another value", name));
            }
            return n;
        }
        let vid = self.vars.len() as u32;
        let deps = self.dep_single(vid);
        let key = hash_bytes(0xabcdef, name.as_bytes());
        let n = self.push(NodeData {
            fid,
            op: Op::Var,
            a: vid,
            b: 0,
            val,
            val2: prf_field(fid, key),
            deps,
            ch: hash2(12, key),
        });
        let forced = self.asg.forced.contains(&name);
        self.var_by_name.insert(name.clone(), vid);
        self.vars.push(VarInfo {
            name,
            kind,
            node: n,
            fid,
            support,
        });
        let f = field(fid);
        if forced || f.small(&f.to_canon(&val)) || self.sticky.contains(&(fid, val)) {
            let c = self.konst(fid, val);
            self.events.push(Event::Merge {
                expr: n,
                target: c,
                ident: false,
            });
        } else if let Some(t) = self.lookup(fid, &val) {
            self.events.push(Event::Merge {
                expr: n,
                target: t,
                ident: false,
            });
        } else {
            self.vals.insert((fid, val), n);
        }
        n
    }
    pub fn apply(&mut self, fid: u8, op: Op, a: Node, b: Node, res: Option<V>) -> V {
        self.ops += 1;
        let (a, b) = match op {
            Op::Add | Op::Mul if a > b => (b, a),
            _ => (a, b),
        };
        if let Some(n) = self.cse.get(&(op as u8, a, b)) {
            return self.nodes[*n as usize].val;
        }
        let f = field(fid);
        let (da, db) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        let (val, val2) = match op {
            Op::Add => (f.add(&da.val, &db.val), f.add(&da.val2, &db.val2)),
            Op::Sub => (f.sub(&da.val, &db.val), f.sub(&da.val2, &db.val2)),
            Op::Mul => (f.mul(&da.val, &db.val), f.mul(&da.val2, &db.val2)),
            Op::Neg => (f.neg(&da.val), f.neg(&da.val2)),
            Op::Inv => (
                res.unwrap_or_else(|| f.inv(&da.val)),
                f.inv(&da.val2),
            ),
            _ => unreachable!(),
        };
        if op == Op::Inv && f.mul(&val, &da.val) != f.r {
            self.errors.push("inverse mismatch".into());
        }
        if let Some(r) = res {
            if r != val {
                self.errors.push(format!("operation {:?} mismatch", op));
            }
        }
        let (cha, chb, dpa, dpb) = (da.ch, db.ch, da.deps, db.deps);
        let deps = self.union(dpa, dpb);
        let (ca, cb) = if matches!(op, Op::Add | Op::Mul) && cha > chb {
            (chb, cha)
        } else {
            (cha, chb)
        };
        let ch = hash2(hash2(op as u64 + 100, ca), cb);
        let n = self.push(NodeData {
            fid,
            op,
            a,
            b,
            val,
            val2,
            deps,
            ch,
        });
        let target = if deps == 0 {
            // constants only (can happen for composed operations)
            let c = self.konst(fid, val);
            self.cse.insert((op as u8, a, b), c);
            return val;
        } else if let Some(t) = self.lookup(fid, &val) {
            Some(t)
        } else if val == val2 || f.small(&f.to_canon(&val)) || self.sticky.contains(&(fid, val)) {
            Some(self.konst(fid, val))
        } else {
            None
        };
        match target {
            Some(t) => {
                let ident = self.nodes[t as usize].val2 == val2;
                self.events.push(Event::Merge {
                    expr: n,
                    target: t,
                    ident,
                });
                self.cse.insert((op as u8, a, b), t);
            }
            None => {
                self.vals.insert((fid, val), n);
                self.cse.insert((op as u8, a, b), n);
            }
        }
        val
    }
    fn neq(&mut self, fid: u8, a: V, b: V, assume: bool) {
        let na = self.operand(fid, a);
        let nb = self.operand(fid, b);
        let k = (na.min(nb), na.max(nb));
        if assume {
            self.events.push(Event::Assume { a: na, b: nb });
            self.ne_seen.insert(k);
        } else if self.ne_seen.insert(k) {
            self.events.push(Event::Ne { a: na, b: nb });
        }
    }
    fn reg_bytes(&mut self, b: &[u8], s: ByteSym) {
        if b.len() < 8 || self.bytes_seen.contains(b) {
            return;
        }
        self.bytes_seen.insert(b.to_vec());
        let k = u64::from_le_bytes(b[..8].try_into().unwrap());
        self.bytes.entry(k).or_default().push((b.to_vec(), s));
    }
    fn match_bytes(&self, b: &[u8], exact: bool) -> Option<(usize, ByteSym)> {
        if b.len() < 8 {
            return None;
        }
        let k = u64::from_le_bytes(b[..8].try_into().unwrap());
        let c = self.bytes.get(&k)?;
        let mut best: Option<(usize, ByteSym)> = None;
        for (x, s) in c {
            if b.len() >= x.len() && (!exact || b.len() == x.len()) && &b[..x.len()] == &x[..] {
                if best.as_ref().map_or(true, |(l, _)| x.len() > *l) {
                    best = Some((x.len(), s.clone()));
                }
            }
        }
        best
    }
    pub fn parse(&self, b: &[u8]) -> Vec<Part> {
        let mut parts = vec![];
        let mut lit = vec![];
        let mut i = 0;
        while i < b.len() {
            match self.match_bytes(&b[i..], false) {
                Some((l, s)) => {
                    if !lit.is_empty() {
                        parts.push(Part::Lit(std::mem::take(&mut lit)));
                    }
                    parts.push(match s {
                        ByteSym::Node { node, enc } => Part::Sym {
                            node,
                            enc,
                            len: l as u32,
                        },
                        ByteSym::HashOut { hid, off } => Part::Hash {
                            hid,
                            off,
                            len: l as u32,
                        },
                    });
                    i += l;
                }
                None => {
                    lit.push(b[i]);
                    i += 1;
                }
            }
        }
        if !lit.is_empty() {
            parts.push(Part::Lit(lit));
        }
        parts
    }
    fn rom_var(&mut self, hid: u32, idx: u32, fid: u8, val: V) -> Node {
        let h = &self.hashes[hid as usize];
        let name = format!("rom{:016x}.{}.{}", h.ch, idx, fid);
        let deps = h.deps;
        let sup = self.closure(deps);
        self.new_var(name, Kind::Rom { hid, idx }, fid, val, sup)
    }
    /// Values of which only a part was hashed.
    pub fn cut_values(&self) -> Vec<Node> {
        let odd = |w: &[u8]| {
            let mut x = w.to_vec();
            x.sort();
            x.dedup();
            x.len() > 3
        };
        let word = |w: &[u8]| u64::from_le_bytes(w.try_into().unwrap());
        let mut seen: FSet<u64> = FSet::default();
        for l in &self.lits {
            for w in l.windows(8) {
                if odd(w) {
                    seen.insert(word(w));
                    let mut r = w.to_vec();
                    r.reverse();
                    seen.insert(word(&r));
                }
            }
        }
        let mut out: Vec<Node> = vec![];
        if seen.is_empty() {
            return out;
        }
        let hit = |b: &[u8]| b.windows(8).any(|w| seen.contains(&word(w)));
        for (b, s) in self.bytes.values().flatten() {
            if let ByteSym::Node { node, .. } = s {
                if hit(b) {
                    out.push(*node);
                }
            }
        }
        for (b, d) in &self.coords {
            if hit(b) {
                out.extend(self.lookup(FR, d));
            }
        }
        out.sort();
        out.dedup();
        out
    }
    pub fn is_random(&self, v: u32) -> bool {
        matches!(self.vars[v as usize].kind, Kind::Secret | Kind::Rom { .. })
            || match self.vars[v as usize].kind {
                Kind::Conv { from } => {
                    let d = self.nodes[from as usize].deps;
                    self.dep_list(d).iter().any(|x| self.is_random(*x))
                }
                _ => false,
            }
    }
}

// ---------------------------------------------------------------- hooks ----

#[inline]
pub fn probe(fid: u8, a: &[u64]) -> bool {
    if !is_active() {
        return false;
    }
    ST.with(|s| {
        let g = s.borrow();
        match g.as_ref() {
            Some(st) => {
                if st.vals.is_empty() {
                    return false;
                }
                st.vals.contains_key(&(fid, v_of(a)))
            }
            None => false,
        }
    })
}
#[inline]
pub fn probe2(fid: u8, a: &[u64], b: &[u64]) -> bool {
    if !is_active() {
        return false;
    }
    ST.with(|s| {
        let g = s.borrow();
        match g.as_ref() {
            Some(st) => {
                if st.vals.is_empty() {
                    return false;
                }
                st.vals.contains_key(&(fid, v_of(a))) || st.vals.contains_key(&(fid, v_of(b)))
            }
            None => false,
        }
    })
}

pub fn on_bin(fid: u8, op: Op, a: &[u64], b: &[u64], res: &[u64]) {
    with(|st| {
        let na = st.operand(fid, v_of(a));
        let nb = st.operand(fid, v_of(b));
        st.apply(fid, op, na, nb, Some(v_of(res)));
    })
}
pub fn on_un(fid: u8, op: Op, a: &[u64], res: &[u64]) {
    with(|st| {
        let na = st.operand(fid, v_of(a));
        st.apply(fid, op, na, na, Some(v_of(res)));
    })
}
pub fn on_inverse(fid: u8, a: &[u64], res: Option<&[u64]>) {
    with(|st| {
        if let Some(r) = res {
            st.neq(fid, v_of(a), ZEROV, false);
            let na = st.operand(fid, v_of(a));
            st.apply(fid, Op::Inv, na, na, Some(v_of(r)));
        }
    })
}
pub fn on_eq(fid: u8, a: &[u64], b: &[u64], outcome: bool) {
    if outcome {
        return;
    }
    with(|st| st.neq(fid, v_of(a), v_of(b), false))
}
/// sum of products, decomposed (the fused routine has no intermediate values)
pub fn on_sum_of_products(fid: u8, a: &[V], b: &[V]) -> V {
    with(|st| {
        let mut acc = ZEROV;
        for (x, y) in a.iter().zip(b) {
            let na = st.operand(fid, *x);
            let nb = st.operand(fid, *y);
            let p = st.apply(fid, Op::Mul, na, nb, None);
            let np = st.operand(fid, p);
            let ns = st.operand(fid, acc);
            acc = st.apply(fid, Op::Add, ns, np, None);
        }
        acc
    })
}
pub fn on_into_bigint(fid: u8, a: &[u64]) {
    with(|st| {
        let v = v_of(a);
        if let Some(n) = st.lookup(fid, &v) {
            let f = field(fid);
            let b = to_bytes(&f.to_canon(&v), f.n);
            st.reg_bytes(&b, ByteSym::Node { node: n, enc: 0 });
            let rom = {
                let d = &st.nodes[n as usize];
                d.op == Op::Var && matches!(st.vars[d.a as usize].kind, Kind::Rom { .. } | Kind::Secret)
            };
            if !rom && st.leak_seen.insert(n) {
                st.events.push(Event::Leak { node: n });
            }
        }
    })
}
/// a field element was written as bytes (enc 0), decimal text (enc 1)
pub fn on_encode(fid: u8, a: &[u64], bytes: &[u8], enc: u8) {
    with(|st| {
        if let Some(n) = st.lookup(fid, &v_of(a)) {
            st.reg_bytes(bytes, ByteSym::Node { node: n, enc });
        }
    })
}
/// a point with discrete log `dl` (Fr, Montgomery) was made affine; also called while suspended
pub fn on_coord(dl: &[u64], x: &[u8]) {
    with(|st| {
        if st.coords.len() < 20000 && st.lookup(FR, &v_of(dl)).is_some() {
            st.coords.push((x.to_vec(), v_of(dl)));
        }
    })
}
/// a group element with discrete log `dl` (Fr, Montgomery) was written; enc >= 2
pub fn on_encode_point(dl: &[u64], bytes: &[u8], enc: u8) {
    with(|st| {
        if let Some(n) = st.lookup(FR, &v_of(dl)) {
            st.reg_bytes(bytes, ByteSym::Node { node: n, enc });
        }
    })
}
pub fn on_hash(alg: &'static str, input: &[u8], out: &[u8]) {
    if !is_active() {
        return;
    }
    with(|st| {
        let key = (alg, input.to_vec());
        if st.hash_idx.contains_key(&key) {
            return;
        }
        let parts = st.parse(input);
        for p in &parts {
            match p {
                Part::Lit(l) if l.len() >= 8 && st.lits.len() < 4000 => st.lits.push(l[..l.len().min(400)].to_vec()),
                _ => {}
            }
        }
        if parts.iter().all(|p| matches!(p, Part::Lit(_))) {
            return;
        }
        let mut deps = 0;
        let mut ch = hash_bytes(5, alg.as_bytes());
        for p in &parts {
            match p {
                Part::Lit(l) => ch = hash2(hash2(ch, 1), hash_bytes(0, l)),
                Part::Sym { node, enc, .. } => {
                    let (d, c) = {
                        let x = &st.nodes[*node as usize];
                        (x.deps, x.ch)
                    };
                    deps = st.union(deps, d);
                    ch = hash2(hash2(ch, 2 + *enc as u64), c);
                }
                Part::Hash { hid, off, len } => {
                    let (d, c) = {
                        let x = &st.hashes[*hid as usize];
                        (x.deps, x.ch)
                    };
                    deps = st.union(deps, d);
                    ch = hash2(hash2(hash2(ch, 50), c), (*off as u64) << 32 | *len as u64);
                }
            }
        }
        let deps = st.closure(deps);
        let hid = st.hashes.len() as u32;
        st.hashes.push(HashRec {
            alg,
            parts,
            out: out.to_vec(),
            deps,
            ch,
        });
        st.hash_idx.insert(key, hid);
        st.reg_bytes(out, ByteSym::HashOut { hid, off: 0 });
    })
}
/// field element read from bytes (reduced mod p): digest or another field's value
pub fn on_from_bytes(modulus: &[u64], bytes_le: &[u8], canon: &[u64]) {
    if !is_active() {
        return;
    }
    let fid = fid_of_modulus(modulus);
    if fid == 255 {
        return;
    }
    with(|st| {
        let f = field(fid);
        let val = f.to_mont(&v_of(canon));
        let m = st.match_bytes(bytes_le, true).or_else(|| {
            // zero-padded or truncated renderings
            let mut b = bytes_le.to_vec();
            while b.len() > 32 && b.last() == Some(&0) {
                b.pop();
            }
            st.match_bytes(&b, true)
        });
        if m.is_none() {
            // a short piece of a digest
            let n = bytes_le.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);
            if (4..8).contains(&n) {
                let hit = st.hashes.iter().enumerate().rev().find_map(|(hid, h)| {
                    let back: Vec<u8> = bytes_le[..n].iter().rev().copied().collect();
                    let at = |x: &[u8]| h.out.windows(n).position(|w| w == x);
                    at(&bytes_le[..n]).or_else(|| at(&back)).map(|o| (hid as u32, o as u32))
                });
                if let Some((hid, off)) = hit {
                    st.narrow = Some(st.narrow.map_or(8 * n as u32, |b| b.min(8 * n as u32)));
                    st.rom_var(hid, 1_000_000 + off, fid, val);
                    return;
                }
            }
        }
        let m = m.or_else(|| {
            let mut b = bytes_le.to_vec();
            b.reverse();
            match st.match_bytes(&b, true) {
                Some((l, ByteSym::HashOut { hid, off })) => Some((l, ByteSym::HashOut { hid, off: off + 500_000 })),
                _ => None,
            }
        });
        match m {
            Some((_, ByteSym::HashOut { hid, off })) => {
                st.rom_var(hid, 1_000_000 + off, fid, val);
            }
            Some((_, ByteSym::Node { node, enc: 0 })) => {
                let (sfid, ch, deps) = {
                    let x = &st.nodes[node as usize];
                    (x.fid, x.ch, x.deps)
                };
                if sfid != fid {
                    let sup = st.closure(deps);
                    st.new_var(format!("conv{:016x}.{}", ch, fid), Kind::Conv { from: node }, fid, val, sup);
                }
                // the integer only travelled through bytes: not a leak
                st.events
                    .retain(|e| !matches!(e, Event::Leak { node: l } if *l == node));
            }
            _ => {}
        }
    })
}

// ------------------------------------------------------------ randomness ----
pub const ORIGIN_NONE: u64 = 0;
pub const ORIGIN_ENTROPY: u64 = 1;
// origin >= 16: hash record (hid + 16)

/// Origin of a generator seeded with this integer.
pub fn origin_of_seed(seed: u64) -> u64 {
    if !is_active() {
        return ORIGIN_NONE;
    }
    with(|st| {
        for (hid, h) in st.hashes.iter().enumerate().rev() {
            for w in h.out.chunks_exact(8) {
                let w: [u8; 8] = w.try_into().unwrap();
                if u64::from_le_bytes(w) == seed || u64::from_be_bytes(w) == seed {
                    return 16 + hid as u64;
                }
            }
        }
        match part_of_digest(st, seed) {
            Some((hid, bits)) => {
                if bits < 64 {
                    st.narrow = Some(st.narrow.map_or(bits, |b| b.min(bits)));
                }
                16 + hid as u64
            }
            None => ORIGIN_NONE,
        }
    })
}
/// Latest hash record of which the value is a fold of all words (64 bits) or a
/// cut of one word (its width in bits).
fn part_of_digest(st: &State, x: u64) -> Option<(u32, u32)> {
    for bits in [64u32, 56, 48, 40, 32, 24, 16, 8] {
        if bits < 64 && (x >> bits != 0 || x >> (bits / 2) == 0) {
            continue;
        }
        for (hid, h) in st.hashes.iter().enumerate().rev() {
            let le: Vec<u64> = h.out.chunks_exact(8).map(|w| u64::from_le_bytes(w.try_into().unwrap())).collect();
            let be: Vec<u64> = le.iter().map(|w| w.swap_bytes()).collect();
            for w in [&le, &be] {
                let hit = match bits {
                    64 => {
                        w.iter().fold(0, |a, b| a ^ b) == x
                            || w.iter().fold(0u64, |a, b| a.wrapping_add(*b)) == x
                    }
                    _ => w.iter().any(|w| w & ((1 << bits) - 1) == x || w >> (64 - bits) == x),
                };
                if hit {
                    return Some((hid as u32, bits));
                }
            }
        }
    }
    None
}
/// Did this run cut a challenge or a generator's seed to fewer than 64 bits of
/// a digest?
pub fn narrow() -> Option<u32> {
    has_state().then(|| with(|st| st.narrow)).flatten()
}
pub fn origin_of_seed_bytes(seed: &[u8]) -> u64 {
    if !is_active() {
        return ORIGIN_NONE;
    }
    with(|st| {
        for (hid, h) in st.hashes.iter().enumerate().rev() {
            if h.out.starts_with(seed) || seed.starts_with(&h.out) {
                return 16 + hid as u64;
            }
        }
        // a piece of a digest, padded with zeros
        let n = seed.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);
        for (hid, h) in st.hashes.iter().enumerate().rev() {
            if n > 0 && h.out.starts_with(&seed[..n]) {
                if n < 8 {
                    st.narrow = Some(st.narrow.map_or(8 * n as u32, |b| b.min(8 * n as u32)));
                }
                return 16 + hid as u64;
            }
        }
        ORIGIN_NONE
    })
}
/// (instance number, seed) of a generator standing for fresh entropy
pub fn entropy_instance() -> Option<(u64, u64)> {
    if !has_state() {
        return None;
    }
    let s = entropy_u64()?;
    Some(with(|st| (st.rng_ctr, s)))
}
/// deterministic replacement for operating-system entropy inside a run
pub fn entropy_u64() -> Option<u64> {
    if !has_state() || NOENT.with(|n| n.get()) {
        return None;
    }
    Some(with(|st| {
        st.rng_ctr += 1;
        hash2(hash2(st.seed ^ 0x5eed, st.asg.salt), st.rng_ctr)
    }))
}
thread_local! {
    static TWEAK: Cell<u64> = const { Cell::new(u64::MAX) };
    static DRAWN: Cell<u64> = const { Cell::new(0) };
    static EPOCH: Cell<u64> = const { Cell::new(0) };
}
/// place in the sequence of entropy sources, for `entropy_again`
pub fn entropy_mark() -> u64 {
    with(|st| st.rng_ctr)
}
/// Hand out the same entropy as after `mark` once more, with the given draw changed.
pub fn entropy_again(mark: u64, tweak: Option<u64>) {
    with(|st| st.rng_ctr = mark);
    TWEAK.with(|t| t.set(tweak.unwrap_or(u64::MAX)));
    DRAWN.with(|d| d.set(0));
    EPOCH.with(|e| e.set(e.get() + 1));
}
/// integers drawn since `entropy_again`
pub fn entropy_drawn() -> u64 {
    DRAWN.with(|d| d.get())
}
/// changes with every `entropy_again`
pub fn entropy_epoch() -> u64 {
    EPOCH.with(|e| e.get())
}
/// an integer is drawn from an entropy source: what to change it by
pub fn entropy_tweak() -> u64 {
    let n = DRAWN.with(|d| d.replace(d.get() + 1));
    if n == TWEAK.with(|t| t.get()) {
        0x0102_0408
    } else {
        0
    }
}
pub fn note_draw(origin: u64, counter: u64, value: u64) {
    if !is_active() {
        return;
    }
    with(|st| {
        st.draws.push((origin, counter, value));
        if st.draws.len() > 64 {
            st.draws.drain(..32);
        }
    })
}
pub fn clear_draws() {
    if is_active() {
        with(|st| st.draws.clear())
    }
}
fn register_draw(st: &mut State, fid: u8, val: V, origin: u64, counter: u64) {
    if origin == ORIGIN_NONE || (origin == ORIGIN_ENTROPY && MUTE.with(|m| m.get())) {
        return;
    }
    if origin == ORIGIN_ENTROPY {
        let mut name = format!("rnd{}", counter);
        // the same entropy handed out again, with a change
        let known = |st: &State, n: &str| st.var_by_name.get(n).map(|v| st.nodes[st.vars[*v as usize].node as usize].val);
        if known(st, &name).is_some_and(|v| v != val) {
            name += &format!("x{}", TWEAK.with(|t| t.get()));
        }
        st.new_var(name, Kind::Secret, fid, val, 0);
    } else {
        st.rom_var((origin - 16) as u32, counter as u32, fid, val);
    }
}
/// a field element was sampled (Montgomery limbs) from the draws noted since clear_draws
pub fn on_sample(fid: u8, a: &[u64]) {
    with(|st| {
        match st.draws.last().copied() {
            Some((o, c, _)) => register_draw(st, fid, v_of(a), o, c),
            None => {
                // a generator the engine does not know: fresh randomness
                st.rng_ctr += 1;
                let c = (st.rng_ctr << 20) | 0xfffff;
                register_draw(st, fid, v_of(a), ORIGIN_ENTROPY, c)
            }
        }
    })
}
/// a field element was built from an integer: was it a fresh random draw?
pub fn on_from_int(fid: u8, x: u128, a: &[u64]) {
    with(|st| {
        if x < 1 << 32 {
            return;
        }
        let n = st.draws.len();
        if n >= 1 && st.draws[n - 1].2 as u128 == x {
            let d = st.draws[n - 1];
            register_draw(st, fid, v_of(a), d.0, d.1);
        } else if n >= 2 {
            let (p, q) = (st.draws[n - 2], st.draws[n - 1]);
            let c1 = ((q.2 as u128) << 64) | p.2 as u128;
            let c2 = ((p.2 as u128) << 64) | q.2 as u128;
            if c1 == x || c2 == x {
                register_draw(st, fid, v_of(a), q.0, q.1);
            }
        }
        if x <= u64::MAX as u128 {
            // integer cut out of a digest
            let o = {
                let mut o = 0;
                for (hid, h) in st.hashes.iter().enumerate().rev() {
                    for w in h.out.chunks_exact(8) {
                        let w: [u8; 8] = w.try_into().unwrap();
                        if u64::from_le_bytes(w) as u128 == x || u64::from_be_bytes(w) as u128 == x
                        {
                            o = 16 + hid as u64;
                        }
                    }
                }
                o
            };
            if o != 0 {
                st.rom_var((o - 16) as u32, 2_000_000, fid, v_of(a));
            }
        }
    })
}

// ---------------------------------------------------------------- groups ----
pub fn pairing_put(key: Vec<u8>, dl: &[u64]) {
    if is_active() {
        with(|st| {
            st.pairings.insert(key, v_of(dl));
        })
    }
}
pub fn pairing_get(key: &[u8]) -> Option<V> {
    if !is_active() {
        return None;
    }
    with(|st| st.pairings.get(key).copied())
}
pub fn point_put(key: Vec<u8>, dl: &[u64]) {
    if is_active() {
        with(|st| {
            st.points.entry(key).or_insert(v_of(dl));
        })
    }
}
pub fn point_get(key: &[u8]) -> Option<V> {
    if !is_active() {
        return None;
    }
    with(|st| st.points.get(key).copied())
}
pub fn engine_error(m: &str) {
    if has_state() {
        with(|st| st.errors.push(m.to_string()))
    }
}

// ------------------------------------------------------------ harness API ----
/// Value (canonical limbs) of the named variable on this path; registers it.
pub fn declare(name: &str, kind: Kind, modulus: &[u64]) -> V {
    let fid = fid_of_modulus(modulus);
    assert!(fid != 255, "unknown field");
    with(|st| {
        let f = field(fid);
        let canon = match st.asg.vals.get(name) {
            Some(v) => *v,
            None => f.to_canon(&prf_field(
                fid,
                hash2(st.seed, hash_bytes(3, name.as_bytes())),
            )),
        };
        st.new_var(name.to_string(), kind, fid, f.to_mont(&canon), 0);
        canon
    })
}
/// seeded concrete field element (not symbolic)
pub fn concrete(name: &str, modulus: &[u64]) -> V {
    let fid = fid_of_modulus(modulus);
    with(|st| {
        let f = field(fid);
        f.to_canon(&prf_field(
            fid,
            hash2(st.seed, hash_bytes(4, name.as_bytes())),
        ))
    })
}
pub fn assume_ne(modulus: &[u64], a: &[u64], b: &[u64]) -> bool {
    let fid = fid_of_modulus(modulus);
    with(|st| {
        let f = field(fid);
        let (a, b) = (f.to_mont(&v_of(a)), f.to_mont(&v_of(b)));
        if a == b {
            st.assume_failed = true;
            return false;
        }
        st.neq(fid, a, b, true);
        true
    })
}
pub fn assume_bool(c: bool) {
    if !c {
        with(|st| st.assume_failed = true)
    }
}
pub fn check(ok: bool, label: &str) {
    with(|st| {
        if st.assume_failed {
            return;
        }
        let at = st.events.len();
        st.checks.push(Check {
            ok,
            label: label.to_string(),
            at,
        })
    })
}
pub fn info(s: &str) {
    with(|st| st.infos.push(s.to_string()))
}
/// does the current value of this field element depend on the named variable?
/// (transitively, through hashes)
pub fn depends_on(modulus: &[u64], canon: &[u64], name: &str) -> bool {
    let fid = fid_of_modulus(modulus);
    with(|st| {
        let f = field(fid);
        let v = f.to_mont(&v_of(canon));
        match (st.lookup(fid, &v), st.var_by_name.get(name).copied()) {
            (Some(n), Some(vid)) => {
                let d = st.nodes[n as usize].deps;
                let c = st.closure(d);
                st.dep_has(c, vid)
            }
            _ => false,
        }
    })
}
/// (symbolic?, is it a bare random variable?, description)
pub fn describe(modulus: &[u64], canon: &[u64]) -> (bool, bool, String) {
    let fid = fid_of_modulus(modulus);
    with(|st| {
        let f = field(fid);
        let v = f.to_mont(&v_of(canon));
        match st.lookup(fid, &v) {
            Some(n) => {
                let d = st.nodes[n as usize].clone();
                let rnd = d.op == Op::Var && st.is_random(d.a);
                let desc = if d.op == Op::Var {
                    st.vars[d.a as usize].name.clone()
                } else {
                    format!("{:?}", d.op)
                };
                (true, rnd, desc)
            }
            None => (false, false, "const".into()),
        }
    })
}
pub fn is_const_node(st: &State, n: Node) -> bool {
    st.is_const(n)
}

/// Deterministic stand-in for operating-system entropy inside a run (same bytes
/// as `SeedableRng::seed_from_u64` would expand, so that the modelled and the
/// real generators agree). False when no run is active on this thread.
pub fn entropy_bytes(dest: &mut [std::mem::MaybeUninit<u8>]) -> bool {
    let mut state = match entropy_u64() {
        Some(s) => s,
        None => return false,
    };
    for ch in dest.chunks_mut(4) {
        state = state.wrapping_mul(6364136223846793005).wrapping_add(11634580027462260723);
        let x = ((((state >> 18) ^ state) >> 27) as u32).rotate_right((state >> 59) as u32).to_le_bytes();
        for (d, s) in ch.iter_mut().zip(x) {
            d.write(s);
        }
    }
    true
}

thread_local! {
    static MUTE: Cell<bool> = const { Cell::new(false) };
    static NOENT: Cell<bool> = const { Cell::new(false) };
}
pub struct NoEntropy(bool);
impl Drop for NoEntropy {
    fn drop(&mut self) {
        NOENT.with(|a| a.set(self.0));
    }
}
pub struct Mute(bool);
impl Drop for Mute {
    fn drop(&mut self) {
        MUTE.with(|a| a.set(self.0));
    }
}
/// random draws are plain constants until the guard is dropped
pub fn mute() -> Mute {
    MUTE.with(|a| {
        let o = a.get();
        a.set(true);
        Mute(o)
    })
}
/// real operating-system entropy until the guard is dropped
pub fn no_entropy() -> NoEntropy {
    NOENT.with(|a| {
        let o = a.get();
        a.set(true);
        NoEntropy(o)
    })
}
