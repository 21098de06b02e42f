//! The abstract value domain: one hash-consed DAG of integer polynomials, boolean gates,
//! floating point expressions and pointers.  Equal nodes are equal values.
use rustc_hash::FxHashMap as HashMap;
use std::rc::Rc;

pub type V = u32;
pub type Obj = u32;
pub type Mono = Rc<[V]>;
pub type Term = (Mono, i128);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Fc { Lt, Le, Eq, Uno }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Fo { Add, Sub, Mul, Div, Rem, Min, Max }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { I, B, F, P, O }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Poly(Box<[Term]>),
    // integer atoms
    Len(Obj),
    IElem(Obj, V, u32),          // integer of the given bit width read at a byte offset
    ISym(Rc<str>, i128, i128),
    FToI(V),                     // truncation of an (in range) float
    First(V, V),                 // least k in [0,n) satisfying the body (bound variable), else n
    Bound(u32),
    Min(V, V),
    Max(V, V),
    IOp(Rc<str>, V, V),
    // booleans
    True,
    False,
    Ge0(V),
    Eq0(V),
    FCmp(Fc, V, V),
    Not(V),
    And(Box<[V]>),
    Or(Box<[V]>),
    BSym(Rc<str>),
    // floats
    FConst(u64),
    FElem(Obj, V, bool),         // element at byte offset; true = 32 bit
    FSym(Rc<str>),
    FBin(Fo, V, V),
    FNeg(V),
    FUn(Rc<str>, V),
    Fma(V, V, V),
    FromI(V),
    FTrunc(V),
    FExt(V),
    // anything
    Ite(V, V, V),
    Ptr(Obj, V),
    Null,
    Fun(Rc<str>),
    Undef,
    Opq(Rc<str>, Box<[V]>),
    Agg(Box<[V]>),
    Chunk(Box<[(u32, u32, V)]>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum OK {
    Local { size: u64 },
    Input { elem: char, len: V, root: Rc<str> }, // f,g floats; u usize; s slices of f; t slices of g; b bytes
    Out { elem: char, len: V },
    Global(Rc<str>, u32),
    Heap { len: V, elem: char },
}
pub fn elem_size(c: char) -> i128 { match c { 'f' | 'u' => 8, 'g' => 4, 'b' => 1, 's' | 't' => 16, _ => 1 } }

pub struct Dom {
    pub n: Vec<N>,
    map: HashMap<N, V>,
    kinds: Vec<Kind>,
    pub objs: Vec<(OK, String)>,
    pub sub_map: HashMap<(Obj, V), Obj>,
    pub parents: HashMap<Obj, (Obj, V)>,
    pub named: HashMap<String, Obj>,
    pub zero: V,
    pub one: V,
    pub t: V,
    pub f: V,
    pub undef: V,
    pub null: V,
    pub fresh: u32,
    depth_memo: HashMap<V, u32>,
    pub overflowed: bool,
}

thread_local! { pub static OVERFLOW: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
fn ck(x: Option<i128>) -> i128 { x.unwrap_or_else(|| { OVERFLOW.with(|o| o.set(true)); 1 }) }
pub fn pmul(a: &[Term], b: &[Term]) -> Vec<Term> {
    for (a, b) in [(a, b), (b, a)] {
        if b.is_empty() { return vec![] }
        if b.len() == 1 && b[0].0.is_empty() {
            let k = b[0].1;
            return a.iter().map(|(m, c)| (m.clone(), ck(c.checked_mul(k)))).collect();
        }
        if a.len() == 1 && a[0].0.is_empty() { continue }
    }
    let mut m: HashMap<Mono, i128> = HashMap::default();
    for (x, c) in a {
        for (y, d) in b {
            let mut v: Vec<V> = Vec::with_capacity(x.len() + y.len());
            v.extend_from_slice(x);
            v.extend_from_slice(y);
            v.sort_unstable();
            let c = ck(c.checked_mul(*d));
            let e = m.entry(v.into()).or_insert(0);
            *e = ck(e.checked_add(c));
        }
    }
    norm(m)
}
fn norm(m: HashMap<Mono, i128>) -> Vec<Term> {
    let mut v: Vec<Term> = m.into_iter().filter(|x| x.1 != 0).collect();
    v.sort_unstable();
    v
}
pub fn padd(a: &[Term], b: &[Term], k: i128) -> Vec<Term> {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        let o = if i == a.len() { std::cmp::Ordering::Greater } else if j == b.len() { std::cmp::Ordering::Less } else { a[i].0.cmp(&b[j].0) };
        match o {
            std::cmp::Ordering::Less => { r.push(a[i].clone()); i += 1 }
            std::cmp::Ordering::Greater => { r.push((b[j].0.clone(), ck(b[j].1.checked_mul(k)))); j += 1 }
            std::cmp::Ordering::Equal => {
                let c = ck(b[j].1.checked_mul(k).and_then(|x| x.checked_add(a[i].1)));
                if c != 0 { r.push((a[i].0.clone(), c)) }
                i += 1;
                j += 1;
            }
        }
    }
    r
}

impl Dom {
    pub fn new() -> Dom {
        let mut d = Dom { n: vec![], map: Default::default(), kinds: vec![], objs: vec![], sub_map: Default::default(), parents: Default::default(), named: Default::default(), zero: 0, one: 0, t: 0, f: 0, undef: 0, null: 0, fresh: 0, depth_memo: Default::default(), overflowed: false };
        d.undef = d.mk(N::Undef);
        d.t = d.mk(N::True);
        d.f = d.mk(N::False);
        d.null = d.mk(N::Null);
        d.zero = d.int(0);
        d.one = d.int(1);
        d
    }
    fn kind_of(&self, n: &N) -> Kind {
        use N::*;
        match n {
            Poly(_) | Len(_) | IElem(..) | ISym(..) | FToI(_) | First(..) | Bound(_) | Min(..) | Max(..) | IOp(..) => Kind::I,
            True | False | Ge0(_) | Eq0(_) | FCmp(..) | Not(_) | And(_) | Or(_) | BSym(_) => Kind::B,
            FConst(_) | FElem(..) | FSym(_) | FBin(..) | FNeg(_) | FUn(..) | Fma(..) | FromI(_) | FTrunc(_) | FExt(_) => Kind::F,
            Ptr(..) | Null | Fun(_) => Kind::P,
            Ite(_, a, b) => {
                let k = self.kinds[*a as usize];
                if k == Kind::O { self.kinds[*b as usize] } else { k }
            }
            Opq(s, _) => match s.as_bytes().first() { Some(b'f') => Kind::F, Some(b'i') => Kind::I, Some(b'b') => Kind::B, Some(b'p') => Kind::P, _ => Kind::O },
            _ => Kind::O,
        }
    }
    pub fn kind(&self, v: V) -> Kind { self.kinds[v as usize] }
    pub fn mk(&mut self, n: N) -> V {
        if let Some(&v) = self.map.get(&n) { return v }
        let k = self.kind_of(&n);
        let v = self.n.len() as V;
        self.n.push(n.clone());
        self.kinds.push(k);
        self.map.insert(n, v);
        v
    }
    pub fn get(&self, v: V) -> &N { &self.n[v as usize] }
    pub fn fresh_name(&mut self, p: &str) -> Rc<str> { self.fresh += 1; format!("{p}#{}", self.fresh).into() }

    // ---- objects
    pub fn new_obj(&mut self, k: OK, name: &str) -> Obj { self.objs.push((k, name.to_string())); self.objs.len() as Obj - 1 }
    pub fn named_obj(&mut self, name: &str, k: OK) -> Obj {
        if let Some(&o) = self.named.get(name) { return o }
        let o = self.new_obj(k, name);
        self.named.insert(name.to_string(), o);
        o
    }
    pub fn len(&mut self, o: Obj) -> V {
        match &self.objs[o as usize].0 {
            OK::Input { len, .. } | OK::Out { len, .. } | OK::Heap { len, .. } => *len,
            _ => self.mk(N::Len(o)),
        }
    }
    /// object with a symbolic length
    pub fn input_slice(&mut self, name: &str, elem: char, out: bool) -> Obj {
        if let Some(&o) = self.named.get(name) { return o }
        let o = self.new_obj(OK::Local { size: 0 }, name);
        let len = self.mk(N::Len(o));
        self.objs[o as usize].0 = if out { OK::Out { elem, len } } else { OK::Input { elem, len, root: name.into() } };
        self.named.insert(name.to_string(), o);
        o
    }
    pub fn sub(&mut self, parent: Obj, idx: V) -> Obj {
        if let Some(&o) = self.sub_map.get(&(parent, idx)) { return o }
        let (e, root) = match &self.objs[parent as usize].0 { OK::Input { elem, root, .. } => (if *elem == 's' { 'f' } else { 'g' }, root.clone()), _ => ('f', "?".into()) };
        let nm = format!("{}[{}]", self.objs[parent as usize].1, self.show(idx));
        let o = self.new_obj(OK::Local { size: 0 }, &nm);
        let len = self.mk(N::Len(o));
        self.objs[o as usize].0 = OK::Input { elem: e, len, root };
        self.sub_map.insert((parent, idx), o);
        self.parents.insert(o, (parent, idx));
        o
    }

    // ---- integers
    pub fn int(&mut self, c: i128) -> V {
        if c == 0 { return self.mk(N::Poly(Box::new([]))) }
        self.mk(N::Poly(Box::new([(Rc::from([]), c)])))
    }
    pub fn as_const(&self, v: V) -> Option<i128> {
        match self.get(v) {
            N::Poly(t) if t.is_empty() => Some(0),
            N::Poly(t) if t.len() == 1 && t[0].0.is_empty() => Some(t[0].1),
            _ => None,
        }
    }
    pub fn terms(&self, v: V) -> Vec<Term> {
        match self.get(v) { N::Poly(t) => t.to_vec(), _ => vec![(Rc::from([v]), 1)] }
    }
    pub fn poly(&mut self, t: Vec<Term>) -> V {
        if t.len() == 1 && t[0].1 == 1 && t[0].0.len() == 1 { return t[0].0[0] }
        self.mk(N::Poly(t.into()))
    }
    pub fn add(&mut self, a: V, b: V) -> V {
        if a == self.zero { return b }
        if b == self.zero { return a }
        let t = padd(&self.terms(a), &self.terms(b), 1);
        self.poly(t)
    }
    pub fn sub_(&mut self, a: V, b: V) -> V {
        if b == self.zero { return a }
        let t = padd(&self.terms(a), &self.terms(b), -1);
        self.poly(t)
    }
    pub fn addc(&mut self, a: V, c: i128) -> V { let k = self.int(c); self.add(a, k) }
    pub fn scale(&mut self, a: V, c: i128) -> V { let k = self.int(c); self.mul(a, k) }
    pub fn neg(&mut self, a: V) -> V { self.scale(a, -1) }
    pub fn mul(&mut self, a: V, b: V) -> V {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { if let Some(z) = x.checked_mul(y) { return self.int(z) } }
        let t = pmul(&self.terms(a), &self.terms(b));
        self.poly(t)
    }
    /// exact division of every coefficient
    pub fn div_exact(&mut self, a: V, c: i128) -> Option<V> {
        let t = self.terms(a);
        if t.iter().all(|x| x.1 % c == 0) { Some(self.poly(t.into_iter().map(|(m, k)| (m, k / c)).collect())) } else { None }
    }
    pub fn min(&mut self, a: V, b: V) -> V {
        if a == b { return a }
        let d = self.sub_(a, b);
        if let Some(c) = self.as_const(d) { return if c <= 0 { a } else { b } }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(N::Min(a, b))
    }
    pub fn max(&mut self, a: V, b: V) -> V {
        if a == b { return a }
        let d = self.sub_(a, b);
        if let Some(c) = self.as_const(d) { return if c >= 0 { a } else { b } }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(N::Max(a, b))
    }
    /// all leaves of an integer if-then-else tree are constants
    fn const_leaves(&self, v: V, budget: &mut i32) -> bool {
        *budget -= 1;
        if *budget < 0 { return false }
        match self.get(v) { N::Ite(_, a, b) => { let (a, b) = (*a, *b); self.const_leaves(a, budget) && self.const_leaves(b, budget) } _ => self.as_const(v).is_some() }
    }
    fn tree_bool(&mut self, v: V, f: &dyn Fn(i128) -> bool, memo: &mut HashMap<V, V>) -> V {
        if let Some(&r) = memo.get(&v) { return r }
        let r = match self.get(v).clone() {
            N::Ite(c, a, b) => {
                let a = self.tree_bool(a, f, memo);
                let b = self.tree_bool(b, f, memo);
                self.ite(c, a, b)
            }
            _ => { let c = self.as_const(v).unwrap(); self.bool(f(c)) }
        };
        memo.insert(v, r);
        r
    }
    /// coefficient, tree, constant when v = c*tree + k with a constant-leaf tree
    fn single_tree(&self, v: V) -> Option<(i128, V, i128)> {
        let (c, a, k) = match self.get(v) {
            N::Ite(..) => (1, v, 0),
            N::Poly(t) => match t.len() {
                1 if t[0].0.len() == 1 => (t[0].1, t[0].0[0], 0),
                2 if t[0].0.is_empty() && t[1].0.len() == 1 => (t[1].1, t[1].0[0], t[0].1),
                _ => return None,
            },
            _ => return None,
        };
        if matches!(self.get(a), N::Ite(..)) && self.const_leaves(a, &mut 200) { Some((c, a, k)) } else { None }
    }
    /// lower bound of an address plus offset
    fn addr_lo(&self, p: V) -> Option<i128> {
        let N::Poly(t) = self.get(p) else { return if let N::ISym(s, l, _) = self.get(p) { if s.starts_with('&') { Some(*l) } else { None } } else { None } };
        let mut lo = 0;
        for (m, c) in t.iter() {
            if m.is_empty() { lo += c; continue }
            if *c != 1 || m.len() != 1 { return None }
            match self.get(m[0]) { N::ISym(s, l, _) if s.starts_with('&') => lo += l, N::Len(_) | N::First(..) | N::IElem(..) | N::Bound(_) => {} , N::ISym(_, l, _) if *l >= 0 => lo += l, _ => return None }
        }
        Some(lo)
    }
    pub fn ge0(&mut self, p: V) -> V {
        if let Some(c) = self.as_const(p) { return self.bool(c >= 0) }
        if let Some((c, a, k)) = self.single_tree(p) { return self.tree_bool(a, &|x| c * x + k >= 0, &mut Default::default()) }
        // divide by gcd
        let t = self.terms(p);
        let mut g: i128 = 0;
        for (m, c) in &t { if !m.is_empty() { g = gcd(g, c.abs()) } }
        if g > 1 {
            let q: Vec<Term> = t.into_iter().map(|(m, c)| if m.is_empty() { (m, c.div_euclid(g)) } else { (m, c / g) }).filter(|x| x.1 != 0).collect();
            let q = self.poly(q);
            return self.ge0(q);
        }
        // canonical polarity: leading (last) term positive, otherwise Not(Ge0(-p-1))
        if t.last().unwrap().1 < 0 {
            let m = self.neg(p);
            let m = self.addc(m, -1);
            let x = self.mk(N::Ge0(m));
            return self.mk(N::Not(x));
        }
        self.mk(N::Ge0(p))
    }
    pub fn ge(&mut self, a: V, b: V) -> V { let p = self.sub_(a, b); self.ge0(p) }
    pub fn gt(&mut self, a: V, b: V) -> V { let p = self.sub_(a, b); let p = self.addc(p, -1); self.ge0(p) }
    pub fn eq0(&mut self, p: V) -> V {
        if let Some(c) = self.as_const(p) { return self.bool(c == 0) }
        if let Some(l) = self.addr_lo(p) { if l > 0 { return self.f } }
        if let Some((c, a, k)) = self.single_tree(p) { return self.tree_bool(a, &|x| c * x + k == 0, &mut Default::default()) }
        let t = self.terms(p);
        let mut g: i128 = 0;
        let mut k = 0;
        for (m, c) in &t { if !m.is_empty() { g = gcd(g, c.abs()) } else { k = *c } }
        if k % g != 0 { return self.f }
        if t.last().unwrap().1 < 0 { g = -g }
        let q: Vec<Term> = t.into_iter().map(|(m, c)| (m, c / g)).collect();
        let q = self.poly(q);
        self.mk(N::Eq0(q))
    }
    pub fn eq(&mut self, a: V, b: V) -> V { let p = self.sub_(a, b); self.eq0(p) }

    // ---- booleans
    pub fn bool(&self, b: bool) -> V { if b { self.t } else { self.f } }
    pub fn not(&mut self, a: V) -> V {
        match self.get(a).clone() {
            N::True => self.f,
            N::False => self.t,
            N::Not(x) => x,
            N::And(xs) => { let v: Vec<V> = xs.iter().map(|&x| self.not(x)).collect(); self.or(v) }
            N::Or(xs) => { let v: Vec<V> = xs.iter().map(|&x| self.not(x)).collect(); self.and(v) }
            N::Undef => a,
            _ => self.mk(N::Not(a)),
        }
    }
    pub fn and(&mut self, xs: Vec<V>) -> V { self.nary(xs, true) }
    pub fn or(&mut self, xs: Vec<V>) -> V { self.nary(xs, false) }
    pub fn and2(&mut self, a: V, b: V) -> V { self.nary(vec![a, b], true) }
    pub fn or2(&mut self, a: V, b: V) -> V { self.nary(vec![a, b], false) }
    fn nary(&mut self, xs: Vec<V>, is_and: bool) -> V {
        let (unit, absorb) = if is_and { (self.t, self.f) } else { (self.f, self.t) };
        let mut v: Vec<V> = vec![];
        for x in xs {
            match (self.get(x), is_and) {
                (N::And(ys), true) | (N::Or(ys), false) => v.extend_from_slice(ys),
                _ => v.push(x),
            }
        }
        v.sort_unstable();
        v.dedup();
        v.retain(|&x| x != unit);
        if v.contains(&absorb) { return absorb }
        for i in 0..v.len() { let n = self.not(v[i]); if v.binary_search(&n).is_ok() { return absorb } }
        // absorption: in x & (x | y) drop, x & (!x | y) -> x & y, and dually
        let mut changed = false;
        let mut out = vec![];
        for &x in &v {
            let inner: Option<Vec<V>> = match (self.get(x), is_and) { (N::Or(ys), true) | (N::And(ys), false) => Some(ys.to_vec()), _ => None };
            if let Some(ys) = inner {
                if ys.iter().any(|y| v.binary_search(y).is_ok()) { changed = true; continue }
                let mut zs = vec![];
                for &y in &ys { let n = self.not(y); if v.binary_search(&n).is_err() { zs.push(y) } }
                if zs.len() != ys.len() { changed = true; let z = self.nary(zs, !is_and); out.push(z); continue }
            }
            out.push(x);
        }
        if changed { return self.nary(out, is_and) }
        // a length is 0 when it is not at least 1
        for i in 0..v.len() {
            let (q, pos) = match *self.get(v[i]) { N::Eq0(q) => (q, true), N::Not(x) => match *self.get(x) { N::Eq0(q) => (q, false), _ => continue }, _ => continue };
            if !matches!(self.get(q), N::Len(_)) { continue }
            let l = self.addc(q, -1);
            let g = self.ge0(l);
            let ng = self.not(g);
            if v.binary_search(if pos { &g } else { &ng }).is_ok() { return absorb }
        }
        // a hit below n, or at n: a hit below n + 1
        if !is_and && v.len() >= 2 {
            for i in 0..v.len() {
                let N::Not(x) = *self.get(v[i]) else { continue };
                let N::Ge0(p) = *self.get(x) else { continue };
                let N::Poly(t) = self.get(p) else { continue };
                let fs: Vec<V> = t.iter().filter(|(m, c)| m.len() == 1 && *c == 1).map(|(m, _)| m[0]).filter(|&a| matches!(self.get(a), N::First(..))).collect();
                for fi in fs {
                    let N::First(n, body) = *self.get(fi) else { continue };
                    if self.sub_(fi, n) != p { continue }
                    let at = self.first_at(body, n);
                    let parts: Vec<V> = match self.get(at) { N::Or(ys) => ys.to_vec(), _ => vec![at] };
                    if parts.iter().any(|y| v.binary_search(y).is_err()) { continue }
                    let n1 = self.addc(n, 1);
                    let f1 = self.first(n1, body);
                    let hit = self.gt(n1, f1);
                    let mut w: Vec<V> = v.iter().enumerate().filter(|(j, y)| *j != i && !parts.contains(y)).map(|(_, y)| *y).collect();
                    w.push(hit);
                    if !self.as_const(n).is_some_and(|k| k >= 0) {
                        let g = self.ge0(n);
                        let ng = self.not(g);
                        let rest = self.nary(vec![ng, at], true);
                        w.push(rest);
                    }
                    return self.nary(w, false);
                }
            }
        }
        // the body of a search holds at its result whenever that result is within range
        for i in 0..v.len() {
            let p = match (self.get(v[i]), is_and) { (N::Not(x), true) => match self.get(*x) { N::Ge0(p) => *p, _ => continue }, (N::Ge0(p), false) => *p, _ => continue };
            let N::Poly(t) = self.get(p) else { continue };
            let fs: Vec<V> = t.iter().filter(|(m, c)| m.len() == 1 && *c == 1).map(|(m, _)| m[0]).filter(|&a| matches!(self.get(a), N::First(..))).collect();
            for fi in fs {
                let N::First(n, body) = *self.get(fi) else { continue };
                let q = self.sub_(fi, n);
                if q != p { continue }
                let mut b = self.first_at(body, fi);
                if !is_and { b = self.not(b) }
                let pieces: Vec<V> = match (self.get(b), is_and) { (N::And(y), true) | (N::Or(y), false) => y.to_vec(), _ => vec![b] };
                if pieces.iter().all(|x| v.binary_search(x).is_ok()) {
                    let out: Vec<V> = v.iter().copied().filter(|x| !pieces.contains(x)).collect();
                    return self.nary(out, is_and);
                }
            }
        }
        match v.len() {
            0 => unit,
            1 => v[0],
            _ => if is_and { self.mk(N::And(v.into())) } else { self.mk(N::Or(v.into())) },
        }
    }
    pub fn fcmp(&mut self, c: Fc, a: V, b: V) -> V {
        if let (N::FConst(x), N::FConst(y)) = (self.get(a), self.get(b)) {
            let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
            let r = match c { Fc::Lt => x < y, Fc::Le => x <= y, Fc::Eq => x == y, Fc::Uno => x.is_nan() || y.is_nan() };
            return self.bool(r);
        }
        if c == Fc::Lt && a == b { return self.f }
        let (a, b) = if matches!(c, Fc::Eq | Fc::Uno) && a > b { (b, a) } else { (a, b) };
        if c == Fc::Uno {
            // unordered(a, constant) = unordered(a, a)
            if let N::FConst(x) = self.get(a) { if !f64::from_bits(*x).is_nan() && a != b { return self.fcmp(c, b, b) } }
            if let N::FConst(x) = self.get(b) { if !f64::from_bits(*x).is_nan() && a != b { return self.fcmp(c, a, a) } }
            if matches!(self.get(a), N::FromI(_)) && a == b { return self.f }
        }
        self.mk(N::FCmp(c, a, b))
    }
    pub fn ite(&mut self, c: V, a: V, b: V) -> V {
        if a == b { return a }
        if c == self.t { return a }
        if c == self.f { return b }
        if let N::Not(x) = self.get(c) { let x = *x; return self.ite(x, b, a) }
        if a == self.undef { return b }
        if b == self.undef { return a }
        // nested same gate
        if let N::Ite(c2, a1, _) = self.get(a) { if *c2 == c { let a1 = *a1; return self.ite(c, a1, b) } }
        if let N::Ite(c2, _, b2) = self.get(b) { if *c2 == c { let b2 = *b2; return self.ite(c, a, b2) } }
        match (self.kind(a), self.kind(b)) {
            (Kind::B, Kind::B) => {
                if a == self.t { return self.or2(c, b) }
                if b == self.f { return self.and2(c, a) }
                let n = self.not(c);
                if a == self.f { return self.and2(n, b) }
                if b == self.t { return self.or2(n, a) }
                let x = self.and2(c, a);
                let y = self.and2(n, b);
                return self.or2(x, y);
            }
            (Kind::I, Kind::I) => {
                let d = self.sub_(a, b);
                if let N::Ge0(q) = *self.get(c) {
                    let nd = self.neg(d);
                    let d1 = self.addc(d, -1);
                    let nd1 = self.addc(nd, -1);
                    let d2 = self.addc(d, 1);
                    let _ = d2;
                    if q == d || q == d1 { return self.max(a, b) }
                    if q == nd || q == nd1 { return self.min(a, b) }
                }
                // branches a constant apart: the common part comes out
                if let (Some(k), None) = (self.as_const(d), self.as_const(a)) {
                    let (z, kk) = (self.int(0), self.int(k));
                    let g = self.mk(N::Ite(c, kk, z));
                    return self.add(b, g);
                }
                // equal branches when the tested equality holds
                if let N::Eq0(q) = *self.get(c) {
                    if q == d || { let nd = self.neg(d); q == nd } { return b }
                }
            }
            _ => {}
        }
        if let (N::Agg(x), N::Agg(y)) = (self.get(a), self.get(b)) {
            if x.len() == y.len() {
                let (x, y) = (x.clone(), y.clone());
                let v: Vec<V> = x.iter().zip(y.iter()).map(|(&p, &q)| self.ite(c, p, q)).collect();
                return self.mk(N::Agg(v.into()));
            }
        }
        if let (N::Ptr(o, x), N::Ptr(p, y)) = (self.get(a), self.get(b)) {
            if o == p { let (o, x, y) = (*o, *x, *y); let z = self.ite(c, x, y); return self.mk(N::Ptr(o, z)) }
        }
        self.mk(N::Ite(c, a, b))
    }
    /// apply f to the leaves of an if-then-else tree
    pub fn map_leaves(&mut self, v: V, f: &mut dyn FnMut(&mut Dom, V) -> V) -> V {
        match *self.get(v) {
            N::Ite(c, a, b) => {
                let a = self.map_leaves(a, f);
                let b = self.map_leaves(b, f);
                self.ite(c, a, b)
            }
            _ => f(self, v),
        }
    }

    // ---- floats
    pub fn fconst(&mut self, x: f64) -> V { self.mk(N::FConst(x.to_bits())) }
    pub fn fbin(&mut self, o: Fo, a: V, b: V) -> V {
        // only simplifications exact in IEEE arithmetic for every input (up to the sign of zero)
        self.mk(N::FBin(o, a, b))
    }
    pub fn fneg(&mut self, a: V) -> V {
        match self.get(a) { N::FNeg(x) => *x, N::FConst(b) => { let b = -f64::from_bits(*b); self.fconst(b) } _ => self.mk(N::FNeg(a)) }
    }
    pub fn from_i(&mut self, a: V) -> V {
        if let Some(c) = self.as_const(a) { if c.abs() < 1 << 53 { return self.fconst(c as f64) } }
        self.mk(N::FromI(a))
    }

    // ---- generic traversal
    pub fn children(&self, v: V, out: &mut Vec<V>) {
        use N::*;
        match self.get(v) {
            Poly(t) => for (m, _) in t.iter() { for &a in m.iter() { if !out.contains(&a) { out.push(a) } } },
            IElem(_, o, _) | FElem(_, o, _) | Ptr(_, o) => out.push(*o),
            FToI(a) | Ge0(a) | Eq0(a) | Not(a) | FNeg(a) | FUn(_, a) | FromI(a) | FTrunc(a) | FExt(a) => out.push(*a),
            First(a, b) | Min(a, b) | Max(a, b) | IOp(_, a, b) | FCmp(_, a, b) | FBin(_, a, b) => { out.push(*a); out.push(*b) }
            And(x) | Or(x) | Opq(_, x) | Agg(x) => out.extend_from_slice(x),
            Fma(a, b, c) | Ite(a, b, c) => { out.push(*a); out.push(*b); out.push(*c) }
            Chunk(x) => out.extend(x.iter().map(|c| c.2)),
            _ => {}
        }
        // a slice of slices selects its element by a value of its own
        match self.get(v) {
            Len(o) | IElem(o, ..) | FElem(o, ..) | Ptr(o, _) => if let Some((_, i)) = self.parent_of(*o) { out.push(i) },
            _ => {}
        }
    }
    pub fn parent_of(&self, o: Obj) -> Option<(Obj, V)> {
        self.parents.get(&o).copied()
    }
    pub fn rebuild(&mut self, v: V, f: &mut dyn FnMut(&mut Dom, V) -> V) -> V {
        use N::*;
        let n = self.get(v).clone();
        macro_rules! ob { ($o:expr) => {{ let o = $o; match self.parent_of(o) { Some((p, i)) => { let j = f(self, i); if j == i { o } else { self.sub(p, j) } } None => o } }} }
        match n {
            Poly(t) => {
                let mut atoms = vec![];
                for (m, _) in t.iter() { for &a in m.iter() { if !atoms.contains(&a) { atoms.push(a) } } }
                let new: Vec<V> = atoms.iter().map(|&a| f(self, a)).collect();
                if atoms == new { return v }
                self.poly_subst(&t, &atoms, &new)
            }
            Len(o) => { let p = ob!(o); if p == o { v } else { self.len(p) } }
            IElem(o, x, w) => { let p = ob!(o); let y = f(self, x); self.mk(IElem(p, y, w)) }
            FElem(o, x, w) => { let p = ob!(o); let y = f(self, x); self.mk(FElem(p, y, w)) }
            Ptr(o, x) => { let p = ob!(o); let y = f(self, x); self.mk(Ptr(p, y)) }
            FToI(a) => { let a = f(self, a); self.mk(FToI(a)) }
            First(a, b) => { let a = f(self, a); let b = f(self, b); self.first(a, b) }
            Min(a, b) => { let a = f(self, a); let b = f(self, b); self.min(a, b) }
            Max(a, b) => { let a = f(self, a); let b = f(self, b); self.max(a, b) }
            IOp(s, a, b) => { let a = f(self, a); let b = f(self, b); self.mk(IOp(s, a, b)) }
            Ge0(a) => { let a = f(self, a); self.ge0(a) }
            Eq0(a) => { let a = f(self, a); self.eq0(a) }
            FCmp(c, a, b) => { let a = f(self, a); let b = f(self, b); self.fcmp(c, a, b) }
            Not(a) => { let a = f(self, a); self.not(a) }
            And(x) => { let x = x.iter().map(|&a| f(self, a)).collect(); self.and(x) }
            Or(x) => { let x = x.iter().map(|&a| f(self, a)).collect(); self.or(x) }
            FBin(o, a, b) => { let a = f(self, a); let b = f(self, b); self.fbin(o, a, b) }
            FNeg(a) => { let a = f(self, a); self.fneg(a) }
            FUn(s, a) => { let a = f(self, a); self.mk(FUn(s, a)) }
            Fma(a, b, c) => { let a = f(self, a); let b = f(self, b); let c = f(self, c); self.mk(Fma(a, b, c)) }
            FromI(a) => { let a = f(self, a); self.from_i(a) }
            FTrunc(a) => { let a = f(self, a); self.mk(FTrunc(a)) }
            FExt(a) => { let a = f(self, a); self.mk(FExt(a)) }
            Ite(c, a, b) => {
                let c = f(self, c);
                if c == self.t { return f(self, a) }
                if c == self.f { return f(self, b) }
                let a = f(self, a);
                let b = f(self, b);
                self.ite(c, a, b)
            }
            Opq(s, x) => { let x: Vec<V> = x.iter().map(|&a| f(self, a)).collect(); self.mk(Opq(s, x.into())) }
            Agg(x) => { let x: Vec<V> = x.iter().map(|&a| f(self, a)).collect(); self.mk(Agg(x.into())) }
            Chunk(x) => { let x: Vec<(u32, u32, V)> = x.iter().map(|&(o, s, a)| (o, s, f(self, a))).collect(); self.mk(Chunk(x.into())) }
            _ => v,
        }
    }
    pub fn poly_subst(&mut self, t: &[Term], from: &[V], to: &[V]) -> V {
        let mut acc: Vec<Term> = vec![];
        let tos: Vec<Vec<Term>> = to.iter().map(|&x| self.terms(x)).collect();
        let mut keep: Vec<Term> = vec![];
        for (m, c) in t {
            if !m.iter().any(|a| from.contains(a)) { keep.push((m.clone(), *c)); continue }
            let mut p: Vec<Term> = vec![(Rc::from([]), *c)];
            let mut rest = vec![];
            for a in m.iter() {
                match from.iter().position(|x| x == a) { Some(i) => p = pmul(&p, &tos[i]), None => rest.push(*a) }
            }
            if !rest.is_empty() { p = pmul(&p, &[(rest.into(), 1)]) }
            acc = padd(&acc, &p, 1);
        }
        let r = padd(&keep, &acc, 1);
        self.poly(r)
    }
    pub fn bdepth(&mut self, v: V) -> u32 {
        if let Some(&d) = self.depth_memo.get(&v) { return d }
        let mut ch = vec![];
        self.children(v, &mut ch);
        let mut d = 0;
        for c in ch { d = d.max(self.bdepth(c)) }
        if matches!(self.get(v), N::First(..)) { d += 1 }
        self.depth_memo.insert(v, d);
        d
    }
    /// First over a body written with `var`
    pub fn first_with(&mut self, n: V, body: V, var: V) -> V {
        let d = self.bdepth(body) + 1;
        let b = self.mk(N::Bound(d));
        let body = self.subst(body, &[(var, b)]);
        self.first(n, body)
    }
    pub fn first(&mut self, n: V, body: V) -> V {
        if body == self.f { return n }
        if n == self.zero { return n }
        if body == self.t { let z = self.zero; return self.min(n, z) } // n >= 0 everywhere it is used: min(n,0) = 0
        self.mk(N::First(n, body))
    }
    /// body of a First at a given index
    pub fn first_at(&mut self, body: V, k: V) -> V {
        let d = self.bdepth(body) + 1;
        let b = self.mk(N::Bound(d));
        self.subst(body, &[(b, k)])
    }
    pub fn subst(&mut self, v: V, m: &[(V, V)]) -> V {
        let mut memo: HashMap<V, V> = m.iter().copied().collect();
        self.subst_memo(v, &mut memo)
    }
    pub fn subst_memo(&mut self, v: V, memo: &mut HashMap<V, V>) -> V {
        if let Some(&r) = memo.get(&v) { return r }
        let r = self.rebuild(v, &mut |d, x| d.subst_memo(x, memo));
        memo.insert(v, r);
        r
    }
    pub fn contains(&self, v: V, pred: &mut dyn FnMut(&N) -> bool) -> bool {
        let mut seen = rustc_hash::FxHashSet::default();
        let mut st = vec![v];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue }
            if pred(self.get(x)) { return true }
            self.children(x, &mut st);
        }
        false
    }
    /// every node reachable from v
    pub fn reach(&self, vs: &[V]) -> Vec<V> {
        let mut seen = rustc_hash::FxHashSet::default();
        let mut st = vs.to_vec();
        let mut out = vec![];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue }
            out.push(x);
            self.children(x, &mut st);
        }
        out
    }
    pub fn show(&self, v: V) -> String { self.show_d(v, 6) }
    pub fn show_d(&self, v: V, d: u32) -> String {
        use N::*;
        if d == 0 { return format!("%{v}") }
        let s = |x: &V| self.show_d(*x, d - 1);
        let obj = |o: &Obj| self.objs[*o as usize].1.clone();
        match self.get(v) {
            Poly(t) => {
                if t.is_empty() { return "0".into() }
                let mut r = String::new();
                for (m, c) in t.iter() {
                    let ms: Vec<String> = m.iter().map(|x| s(x)).collect();
                    if !r.is_empty() && *c > 0 { r.push('+') }
                    if ms.is_empty() { r += &c.to_string() } else if *c == 1 { r += &ms.join("*") } else if *c == -1 { r += &format!("-{}", ms.join("*")) } else { r += &format!("{}*{}", c, ms.join("*")) }
                }
                format!("({r})")
            }
            Len(o) => format!("len({})", obj(o)),
            IElem(o, x, w) => format!("{}@{}:i{}", obj(o), s(x), w),
            ISym(n, _, _) => n.to_string(),
            FToI(a) => format!("int({})", s(a)),
            First(n, b) => format!("first[<{}]({})", s(n), s(b)),
            Bound(i) => format!("b{i}"),
            Min(a, b) => format!("min({},{})", s(a), s(b)),
            Max(a, b) => format!("max({},{})", s(a), s(b)),
            IOp(o, a, b) => format!("{o}({},{})", s(a), s(b)),
            True => "true".into(),
            False => "false".into(),
            Ge0(a) => format!("[{}>=0]", s(a)),
            Eq0(a) => format!("[{}==0]", s(a)),
            FCmp(c, a, b) => format!("[{} {} {}]", s(a), match c { Fc::Lt => "<", Fc::Le => "<=", Fc::Eq => "==", Fc::Uno => "uno" }, s(b)),
            Not(a) => format!("!{}", s(a)),
            And(x) => format!("({})", x.iter().map(|y| s(y)).collect::<Vec<_>>().join(" & ")),
            Or(x) => format!("({})", x.iter().map(|y| s(y)).collect::<Vec<_>>().join(" | ")),
            BSym(n) | FSym(n) => n.to_string(),
            FConst(b) => format!("{}", f64::from_bits(*b)),
            FElem(o, x, _) => format!("{}@{}", obj(o), s(x)),
            FBin(o, a, b) => format!("({} {} {})", s(a), match o { Fo::Add => "+", Fo::Sub => "-", Fo::Mul => "*", Fo::Div => "/", Fo::Rem => "%", Fo::Min => "fmin", Fo::Max => "fmax" }, s(b)),
            FNeg(a) => format!("-{}", s(a)),
            FUn(n, a) => format!("{n}({})", s(a)),
            Fma(a, b, c) => format!("fma({},{},{})", s(a), s(b), s(c)),
            FromI(a) => format!("real({})", s(a)),
            FTrunc(a) => format!("f32({})", s(a)),
            FExt(a) => format!("f64({})", s(a)),
            Ite(c, a, b) => format!("{{{} ? {} : {}}}", s(c), s(a), s(b)),
            Ptr(o, x) => format!("&{}+{}", obj(o), s(x)),
            Null => "null".into(),
            Fun(n) => format!("fn {n}"),
            Undef => "undef".into(),
            Opq(n, x) => format!("{n}<{}>", x.iter().map(|y| s(y)).collect::<Vec<_>>().join(",")),
            Agg(x) => format!("<{}>", x.iter().map(|y| s(y)).collect::<Vec<_>>().join(",")),
            Chunk(x) => format!("chunk<{}>", x.iter().map(|y| s(&y.2)).collect::<Vec<_>>().join(",")),
        }
    }
}
pub fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a } else { gcd(b, a % b) } }
