//! Polynomial normal forms: an identity over opaque parts is decided by
//! expanding both sides into sums of monomials.
use crate::engine::*;
use crate::field::*;
use std::collections::HashMap;

type Mono = Vec<u32>;
type Poly = HashMap<Mono, V>;

pub struct Norm<'a> {
    st: &'a State,
    stop: &'a dyn Fn(Node) -> bool,
    memo: HashMap<Node, Poly>,
    left: usize,
}

impl<'a> Norm<'a> {
    pub fn new(st: &'a State, stop: &'a dyn Fn(Node) -> bool, work: usize) -> Self {
        Norm { st, stop, memo: HashMap::new(), left: work }
    }
    fn pay(&mut self, n: usize) -> Option<()> {
        if self.left < n {
            return None;
        }
        self.left -= n;
        Some(())
    }
    fn of(&mut self, root: Node) -> Option<()> {
        let mut w = vec![root];
        while let Some(&n) = w.last() {
            if self.memo.contains_key(&n) {
                w.pop();
                continue;
            }
            let d = &self.st.nodes[n as usize];
            let f = field(d.fid);
            let forced = d.op == Op::Var
                && self.st.asg.forced.contains(&self.st.vars[d.a as usize].name);
            if d.op == Op::Const || forced {
                let mut p = Poly::new();
                if d.val != V::default() {
                    p.insert(vec![], d.val);
                }
                self.memo.insert(n, p);
                continue;
            }
            if d.op == Op::Var || d.op == Op::Inv || (self.stop)(n) {
                let mut p = Poly::new();
                p.insert(vec![n], f.r);
                self.memo.insert(n, p);
                continue;
            }
            let kids = if d.op == Op::Neg { vec![d.a] } else { vec![d.a, d.b] };
            let miss: Vec<Node> =
                kids.iter().copied().filter(|k| !self.memo.contains_key(k)).collect();
            if !miss.is_empty() {
                w.extend(miss);
                continue;
            }
            let r = match d.op {
                Op::Neg => self.memo[&d.a].iter().map(|(k, v)| (k.clone(), f.neg(v))).collect(),
                Op::Add | Op::Sub => {
                    let mut r = self.memo[&d.a].clone();
                    let b = &self.memo[&d.b];
                    let cost = r.len() + b.len();
                    for (k, v) in b {
                        let v = if d.op == Op::Sub { f.neg(v) } else { *v };
                        add(f, &mut r, k.clone(), v);
                    }
                    self.pay(cost)?;
                    r
                }
                _ => {
                    let (x, y) = (&self.memo[&d.a], &self.memo[&d.b]);
                    let cost = x.len() * y.len();
                    if self.left < cost {
                        return None;
                    }
                    let mut r = Poly::new();
                    for (k, v) in x {
                        for (l, u) in y {
                            let mut m = k.clone();
                            m.extend_from_slice(l);
                            m.sort_unstable();
                            add(f, &mut r, m, f.mul(v, u));
                        }
                    }
                    self.pay(cost)?;
                    r
                }
            };
            self.memo.insert(n, r);
        }
        Some(())
    }
    /// Some(true): identical; Some(false): different as polynomials over the
    /// opaque parts; None: too large
    pub fn equal(&mut self, a: Node, b: Node) -> Option<bool> {
        self.of(a)?;
        self.of(b)?;
        let (x, y) = (&self.memo[&a], &self.memo[&b]);
        Some(x.len() == y.len() && x.iter().all(|(k, v)| y.get(k) == Some(v)))
    }
}

fn add(f: &Field, r: &mut Poly, k: Mono, v: V) {
    use std::collections::hash_map::Entry;
    match r.entry(k) {
        Entry::Occupied(mut e) => {
            let s = f.add(e.get(), &v);
            if s == V::default() {
                e.remove();
            } else {
                e.insert(s);
            }
        }
        Entry::Vacant(e) => {
            if v != V::default() {
                e.insert(v);
            }
        }
    }
}
