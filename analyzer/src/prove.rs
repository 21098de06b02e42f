//! Facts (what holds at a program point) and the inequality prover over integer polynomials.
use crate::dom::*;
use rustc_hash::{FxHashMap as HashMap, FxHashSet as HashSet};
use std::rc::Rc;

pub type Fid = u32;

#[derive(Clone, Default)]
pub struct Facts {
    pub parent: Option<Fid>,
    pub lit: V,
    pub assumed: bool,
    pub depth: u32,
    pub yes: Rc<HashSet<V>>,
    pub subst: Rc<Vec<(V, V)>>,        // atom -> polynomial
    pub ge: Rc<Vec<V>>,                // polynomials known >= 0
    pub clauses: Rc<Vec<V>>,           // disjunctions
    pub bounds: Rc<HashMap<V, (i128, i128)>>,
    pub lo: Rc<HashMap<V, Vec<V>>>,
    pub hi: Rc<HashMap<V, Vec<V>>>,
    pub bottom: bool,
    pub ne: Rc<Vec<V>>, // polynomials known to differ from zero
}

pub struct Prover {
    pub facts: Vec<Facts>,
    ext: HashMap<(Fid, V, bool), Fid>,
    memo: HashMap<(Fid, V), (bool, u32)>,
    dmemo: HashMap<(Fid, V), Option<bool>>,
    rmemo: HashMap<(Fid, V), V>,
    pub queries: u64,
    proved: HashMap<V, Vec<Fid>>,
    gmemo: HashMap<(Fid, V), bool>,
    pub budget: i64,
    nest: u32,
    pub tops: u64,
    pub exhausted: u64,
}

const U64: i128 = (1 << 64) - 1;
const I64: i128 = (1 << 63) - 1;

impl Prover {
    pub fn new() -> Prover {
        Prover { facts: vec![Facts::default()], ext: Default::default(), memo: Default::default(), dmemo: Default::default(), rmemo: Default::default(), queries: 0, proved: Default::default(), gmemo: Default::default(), budget: 0, nest: 0, tops: 0, exhausted: 0 }
    }
    pub fn bottom(&self, f: Fid) -> bool { self.facts[f as usize].bottom }
    /// chain of facts from the root
    pub fn chain(&self, mut f: Fid) -> Vec<Fid> {
        let mut v = vec![];
        while let Some(p) = self.facts[f as usize].parent { v.push(f); f = p }
        v.reverse();
        v
    }
    pub fn lits(&self, f: Fid) -> Vec<V> { self.chain(f).iter().map(|&x| self.facts[x as usize].lit).collect() }

    pub fn assume(&mut self, d: &mut Dom, f: Fid, lit: V, assumed: bool) -> Fid {
        if lit == d.t || self.facts[f as usize].yes.contains(&lit) { return f }
        if let Some(&g) = self.ext.get(&(f, lit, assumed)) { return g }
        let mut n = self.facts[f as usize].clone();
        n.depth += 1;
        n.parent = Some(f);
        n.lit = lit;
        n.assumed = assumed;
        let mut work = vec![lit];
        while let Some(l) = work.pop() { self.add(d, f, &mut n, l, &mut work); if n.bottom { break } }
        let id = self.facts.len() as Fid;
        self.facts.push(n);
        // unit propagation over disjunctions
        if !self.facts[id as usize].bottom {
            let cl = self.facts[id as usize].clauses.clone();
            if !cl.is_empty() {
                for _ in 0..3 {
                    let mut new = vec![];
                    for &c in cl.iter() {
                        let N::Or(xs) = d.get(c).clone() else { continue };
                        let mut open = vec![];
                        let mut sat = false;
                        for &x in xs.iter() {
                            match self.decide_light(d, x, id) { Some(true) => { sat = true; break } Some(false) => {} None => open.push(x) }
                        }
                        if sat { continue }
                        if open.len() <= 1 { new.push(if open.is_empty() { d.f } else { open[0] }) }
                    }
                    let mut n = self.facts[id as usize].clone();
                    let before = n.yes.len();
                    let mut work: Vec<V> = new;
                    while let Some(l) = work.pop() { self.add(d, id, &mut n, l, &mut work); if n.bottom { break } }
                    let changed = n.yes.len() != before || n.bottom;
                    self.facts[id as usize] = n;
                    if !changed || self.facts[id as usize].bottom { break }
                    // memo entries computed for id stay valid: facts only grew
                }
            }
        }
        self.ext.insert((f, lit, assumed), id);
        id
    }
    pub fn assume_all(&mut self, d: &mut Dom, mut f: Fid, ls: &[V]) -> Fid { for &l in ls { f = self.assume(d, f, l, false) } f }

    fn decide_light(&self, d: &mut Dom, l: V, f: Fid) -> Option<bool> {
        let fa = &self.facts[f as usize];
        if l == d.t || fa.yes.contains(&l) { return Some(true) }
        let n = d.not(l);
        if l == d.f || fa.yes.contains(&n) { return Some(false) }
        match d.get(l).clone() {
            N::And(xs) => { let mut all = true; for &x in xs.iter() { match self.decide_light(d, x, f) { Some(false) => return Some(false), Some(true) => {} None => all = false } } if all { Some(true) } else { None } }
            N::Or(xs) => { let mut all = true; for &x in xs.iter() { match self.decide_light(d, x, f) { Some(true) => return Some(true), Some(false) => {} None => all = false } } if all { Some(false) } else { None } }
            _ => None,
        }
    }

    fn add(&mut self, d: &mut Dom, base: Fid, n: &mut Facts, l: V, work: &mut Vec<V>) {
        if l == d.t || n.yes.contains(&l) { return }
        let neg = d.not(l);
        if l == d.f || n.yes.contains(&neg) { n.bottom = true; return }
        Rc::make_mut(&mut n.yes).insert(l);
        let _ = base;
        match d.get(l).clone() {
            N::And(xs) => work.extend_from_slice(&xs),
            N::Or(_) => Rc::make_mut(&mut n.clauses).push(l),
            N::Ge0(p) => self.add_ge(d, n, p, work),
            N::Not(x) => match d.get(x).clone() {
                N::Ge0(p) => { let q = d.neg(p); let q = d.addc(q, -1); self.add_ge(d, n, q, work) }
                N::FCmp(Fc::Uno, a, b) => {
                    // both ordered
                    if a != b { for v in [a, b] { let u = d.fcmp(Fc::Uno, v, v); let u = d.not(u); work.push(u) } }
                }
                N::Eq0(p) => {
                    // p != 0 together with p >= 0 or p <= 0
                    let q = self.norm_n(d, n, p);
                    let b = self.interval_n(d, n, q);
                    if b.0 == Some(0) { let r = d.addc(q, -1); self.add_ge(d, n, r, work) }
                    if b.1 == Some(0) { let r = d.neg(q); let r = d.addc(r, -1); self.add_ge(d, n, r, work) }
                    if n.bottom || d.as_const(q).is_some() { if d.as_const(q) == Some(0) { n.bottom = true } return }
                    let m = d.neg(q);
                    for z in [q, m] { if n.ge.contains(&z) { let r = d.addc(z, -1); self.add_ge(d, n, r, work) } }
                    if !n.ne.contains(&q) { Rc::make_mut(&mut n.ne).push(q) }
                }
                _ => {}
            },
            N::Eq0(p) => {
                let p = self.norm_n(d, n, p);
                if let Some(c) = d.as_const(p) { if c != 0 { n.bottom = true } return }
                // solve for an atom of unit coefficient that occurs nowhere else
                let ts = d.terms(p);
                let mut best: Option<(u32, V, i128)> = None;
                for (m, c) in &ts {
                    if m.len() == 1 && c.abs() == 1 {
                        let a = m[0];
                        if ts.iter().filter(|t| t.0.contains(&a)).count() > 1 { continue }
                        // does any other atom contain a?
                        let mut others: Vec<V> = vec![];
                        for (m, _) in &ts { for &x in m.iter() { if x != a { others.push(x) } } }
                        if d.reach(&others).contains(&a) { continue }
                        let rank = match d.get(a) { N::Len(_) => 3, N::ISym(..) => 4, N::IElem(..) => 2, N::First(..) | N::FToI(_) => 1, _ => 0 };
                        if best.is_none() || (rank, a) > (best.unwrap().0, best.unwrap().1) { best = Some((rank, a, *c)) }
                    }
                }
                if let Some((_, a, c)) = best {
                    let av = a;
                    let e = if c == 1 { let x = d.sub_(av, p); x } else { d.add(av, p) };
                    // bounds of the replaced atom become facts about its replacement
                    let (lo, hi) = self.atom_bounds_n(d, n, a);
                    let (alo, ahi) = (n.lo.get(&a).cloned().unwrap_or_default(), n.hi.get(&a).cloned().unwrap_or_default());
                    let s = Rc::make_mut(&mut n.subst);
                    for x in s.iter_mut() { x.1 = d.subst(x.1, &[(a, e)]) }
                    s.push((a, e));
                    if lo > i128::MIN / 4 { let q = d.addc(e, -lo); self.add_ge(d, n, q, work) }
                    if hi < i128::MAX / 4 { let m = d.neg(e); let q = d.addc(m, hi); self.add_ge(d, n, q, work) }
                    for l in alo { let q = d.sub_(e, l); let q = self.norm_n(d, n, q); self.add_ge(d, n, q, work) }
                    for h in ahi { let q = d.sub_(h, e); let q = self.norm_n(d, n, q); self.add_ge(d, n, q, work) }
                    // renormalise facts
                    let old = n.ge.clone();
                    for &g in old.iter() { let h = self.norm_n(d, n, g); if h != g { self.add_ge(d, n, h, work) } }
                    let old = n.ne.clone();
                    for &g in old.iter() { let h = self.norm_n(d, n, g); if h != g { let e = d.eq0(h); let e = d.not(e); work.push(e) } }
                } else {
                    self.add_ge(d, n, p, work);
                    let q = d.neg(p);
                    self.add_ge(d, n, q, work);
                }
            }
            N::FCmp(c, a, b) => {
                match c {
                    Fc::Lt => {
                        for (c2, x, y, pol) in [(Fc::Le, a, b, true), (Fc::Lt, b, a, false), (Fc::Le, b, a, false), (Fc::Eq, a, b, false), (Fc::Uno, a, b, false)] {
                            let z = d.fcmp(c2, x, y);
                            work.push(if pol { z } else { d.not(z) });
                        }
                    }
                    Fc::Le => for (c2, x, y) in [(Fc::Lt, b, a), (Fc::Uno, a, b)] { let z = d.fcmp(c2, x, y); let z = d.not(z); work.push(z) },
                    Fc::Eq => for (c2, x, y, pol) in [(Fc::Le, a, b, true), (Fc::Le, b, a, true), (Fc::Lt, b, a, false), (Fc::Lt, a, b, false), (Fc::Uno, a, b, false)] { let z = d.fcmp(c2, x, y); work.push(if pol { z } else { d.not(z) }) },
                    Fc::Uno => for (c2, x, y) in [(Fc::Lt, b, a), (Fc::Lt, a, b), (Fc::Le, a, b), (Fc::Le, b, a), (Fc::Eq, a, b)] { let z = d.fcmp(c2, x, y); let z = d.not(z); work.push(z) },
                }
            }
            _ => {}
        }
    }
    fn add_ge(&mut self, d: &mut Dom, n: &mut Facts, p: V, work: &mut Vec<V>) {
        let p = self.norm_n(d, n, p);
        if let Some(c) = d.as_const(p) { if c < 0 { n.bottom = true } return }
        if n.ge.contains(&p) { return }
        let iv = self.interval_n(d, n, p);
        if let Some(h) = iv.1 { if h < 0 { n.bottom = true; return } }
        if let Some(l) = iv.0 { if l >= 0 { return } }
        if !n.ne.is_empty() {
            let m = d.neg(p);
            if n.ne.contains(&p) || n.ne.contains(&m) { let q = d.addc(p, -1); return self.add_ge(d, n, q, work) }
        }
        Rc::make_mut(&mut n.ge).push(p);
        let ts = d.terms(p);
        // single-atom constant bounds
        let nonconst: Vec<&Term> = ts.iter().filter(|t| !t.0.is_empty()).collect();
        let k: i128 = ts.iter().filter(|t| t.0.is_empty()).map(|t| t.1).sum();
        if nonconst.len() == 1 && nonconst[0].0.len() == 1 {
            let a = nonconst[0].0[0];
            let c = nonconst[0].1;
            let (mut lo, mut hi) = self.atom_bounds_n(d, n, a);
            if c > 0 { lo = lo.max((-k).div_euclid(c) + if (-k).rem_euclid(c) != 0 { 1 } else { 0 }) } else { hi = hi.min(k.div_euclid(-c)) }
            if lo > hi { n.bottom = true; return }
            Rc::make_mut(&mut n.bounds).insert(a, (lo, hi));
            // max(x,y) <= c and min(x,y) >= c distribute
            match d.get(a).clone() {
                N::Max(x, y) if c < 0 => for z in [x, y] { let q = d.neg(z); let q = d.addc(q, hi); self.add_ge(d, n, q, work) },
                N::Min(x, y) if c > 0 => for z in [x, y] { let q = d.addc(z, -lo); self.add_ge(d, n, q, work) },
                _ => {}
            }
            if lo == hi { let c = d.addc(a, -lo); let e = d.eq0(c); work.push(e) }
        }
        // relational bounds
        for (m, c) in &ts {
            if m.len() == 1 && c.abs() == 1 {
                let a = m[0];
                if ts.iter().filter(|t| t.0.contains(&a)).count() > 1 { continue }
                if *c == 1 {
                    let e = d.sub_(a, p);
                    Rc::make_mut(&mut n.lo).entry(a).or_default().push(e);
                } else {
                    let e = d.add(a, p);
                    Rc::make_mut(&mut n.hi).entry(a).or_default().push(e);
                }
            }
        }
        // least index of an existing witness satisfies the body
        for (m, c) in &ts {
            if m.len() == 1 && *c == -1 {
                if let N::First(len, body) = *d.get(m[0]) {
                    // p = len - 1 - first (+ something nonpositive)
                    let mut q = d.sub_(len, m[0]);
                    q = d.addc(q, -1);
                    let q = self.norm_n(d, n, q);
                    if q == p { let b = d.first_at(body, m[0]); work.push(b) }
                }
            }
        }
    }

    pub fn type_bounds(&self, d: &Dom, a: V) -> (i128, i128) {
        match d.get(a) {
            N::Len(o) => {
                let e = match &d.objs[*o as usize].0 { OK::Input { elem, .. } | OK::Out { elem, .. } | OK::Heap { elem, .. } => *elem, _ => 'b' };
                (0, I64 / elem_size(e))
            }
            N::IElem(_, _, w) => (0, if *w >= 64 { U64 } else { (1 << w) - 1 }),
            N::ISym(_, l, h) => (*l, *h),
            N::FToI(_) => (-I64 - 1, I64),
            N::First(n, _) => {
                let h = match d.get(*n) { N::Len(_) | N::ISym(..) => self.type_bounds(d, *n).1, N::Poly(_) => d.as_const(*n).unwrap_or(I64), _ => I64 };
                (0, h)
            }
            N::Bound(_) => (0, I64),
            N::IOp(s, _, b) => match &**s {
                "udiv" | "and" | "lshr" => (0, U64),
                "urem" => (0, d.as_const(*b).map_or(U64, |c| c - 1)),
                "ctpop" | "ctlz" | "cttz" => (0, 64),
                s if s.starts_with("uwrap") => (0, if s == "uwrap8" { 255 } else if s == "uwrap32" { (1 << 32) - 1 } else { U64 }),
                s if s.starts_with("swrap") => (-I64 - 1, I64),
                _ => (i128::MIN / 2, i128::MAX / 2),
            },
            _ => (i128::MIN / 2, i128::MAX / 2),
        }
    }
    fn atom_bounds_n(&self, d: &Dom, n: &Facts, a: V) -> (i128, i128) {
        let (mut l, mut h) = self.type_bounds(d, a);
        if let Some(&(x, y)) = n.bounds.get(&a) { l = l.max(x); h = h.min(y) }
        match d.get(a) {
            N::Min(x, y) => { let (p, q) = (self.iv(d, n, *x, 8), self.iv(d, n, *y, 8)); l = l.max(p.0.min(q.0)); h = h.min(p.1.min(q.1)) }
            N::Max(x, y) => { let (p, q) = (self.iv(d, n, *x, 8), self.iv(d, n, *y, 8)); l = l.max(p.0.max(q.0)); h = h.min(p.1.max(q.1)) }
            N::Ite(_, x, y) => { let (p, q) = (self.iv(d, n, *x, 8), self.iv(d, n, *y, 8)); l = l.max(p.0.min(q.0)); h = h.min(p.1.max(q.1)) }
            _ => {}
        }
        (l, h)
    }
    /// interval with infinities clamped
    fn iv(&self, d: &Dom, n: &Facts, p: V, depth: u32) -> (i128, i128) {
        let inf = i128::MAX / 2;
        if depth == 0 { return (-inf, inf) }
        if !matches!(d.get(p), N::Poly(_)) { return self.atom_bounds_n(d, n, p) }
        let (l, h) = self.interval_n(d, n, p);
        (l.unwrap_or(-inf), h.unwrap_or(inf))
    }
    fn interval_n(&self, d: &Dom, n: &Facts, p: V) -> (Option<i128>, Option<i128>) {
        let ts = d.terms(p);
        let (mut lo, mut hi) = (Some(0i128), Some(0i128));
        let inf = i128::MAX / 4;
        for (m, c) in &ts {
            let (mut l, mut h) = (Some(1i128), Some(1i128));
            for &a in m.iter() {
                let (al, ah) = self.atom_bounds_n(d, n, a);
                if m.len() == 1 {
                    l = if al <= -inf { None } else { Some(al) };
                    h = if ah >= inf { None } else { Some(ah) };
                } else {
                    // products of non-negative atoms only
                    if al < 0 { l = None; h = None; break }
                    l = l.and_then(|x| x.checked_mul(al));
                    h = if ah >= inf { None } else { h.and_then(|x| x.checked_mul(ah)) };
                }
            }
            let (a, b) = if *c > 0 { (l, h) } else { (h, l) };
            lo = match (lo, a.and_then(|x| x.checked_mul(*c))) { (Some(x), Some(y)) => x.checked_add(y), _ => None };
            hi = match (hi, b.and_then(|x| x.checked_mul(*c))) { (Some(x), Some(y)) => x.checked_add(y), _ => None };
        }
        (lo, hi)
    }
    pub fn interval(&self, d: &mut Dom, p: V, f: Fid) -> (Option<i128>, Option<i128>) {
        let p = self.norm(d, p, f);
        self.interval_n(d, &self.facts[f as usize], p)
    }
    fn norm_n(&self, d: &mut Dom, n: &Facts, p: V) -> V {
        if n.subst.is_empty() { return p }
        // substitute only top-level atoms and those inside min/max
        let s = n.subst.clone();
        let mut memo: HashMap<V, V> = s.iter().copied().collect();
        norm_rec(d, p, &mut memo)
    }
    pub fn norm(&self, d: &mut Dom, p: V, f: Fid) -> V { let n = &self.facts[f as usize]; if n.subst.is_empty() { return p } self.norm_n(d, n, p) }

    fn enter(&mut self) { if self.nest == 0 { self.budget = if self.exhausted < 40 { 400 } else if self.exhausted < 150 { 80 } else { 15 }; self.tops += 1; } self.nest += 1; }
    fn leave(&mut self) { self.nest -= 1; if self.nest == 0 && self.budget <= 0 { self.exhausted += 1 } }
    pub fn prove(&mut self, d: &mut Dom, p: V, f: Fid) -> bool { self.enter(); let r = self.prove_d(d, p, f, 9); self.leave(); r }
    fn is_ancestor(&self, a: Fid, mut f: Fid) -> bool {
        let da = self.facts[a as usize].depth;
        while self.facts[f as usize].depth > da { f = self.facts[f as usize].parent.unwrap() }
        f == a
    }
    /// eliminate compound and bounded atoms one by one, always taking the most useful bound, and
    /// check that what is left is non-negative
    fn greedy(&mut self, d: &mut Dom, p: V, f: Fid) -> bool {
        if let Some(&r) = self.gmemo.get(&(f, p)) { return r }
        let o = OVERFLOW.with(|o| o.replace(false));
        let r = self.greedy_in(d, p, f) && !OVERFLOW.with(|o| o.get());
        OVERFLOW.with(|x| x.set(o));
        self.gmemo.insert((f, p), r);
        r
    }
    fn greedy_in(&mut self, d: &mut Dom, p0: V, f: Fid) -> bool {
        let fa = self.facts[f as usize].clone();
        let mut p = p0;
        for _ in 0..48 {
            if let Some(c) = d.as_const(p) { return c >= 0 }
            let (l, h) = self.interval_n(d, &fa, p);
            if let Some(l) = l { if l >= 0 { return true } }
            if let Some(h) = h { if h < 0 { return false } }
            let ts = d.terms(p);
            if self.shift_nonneg(d, &fa, &ts) { return true }
            for &q in fa.ge.iter() {
                if !shares(d, &ts, q) { continue }
                let r = padd(&ts, &d.terms(q), -1);
                if r.is_empty() || (r.len() <= ts.len() + 2 && self.shift_nonneg(d, &fa, &r)) { return true }
            }
            let mut atoms: Vec<V> = vec![];
            for (m, _) in &ts { for &a in m.iter() { if !atoms.contains(&a) { atoms.push(a) } } }
            atoms.sort_unstable();
            let mut done = false;
            for &a in atoms.iter().rev() {
                let Some(sg) = self.quick_sign(d, &fa, &ts, a) else { continue };
                let Some(e) = self.best_bound(d, &fa, f, a, sg < 0) else { continue };
                if e == a || d.terms(e).iter().any(|t| t.0.contains(&a)) { continue }
                let q = d.poly_subst(&ts, &[a], &[e]);
                let q = self.norm_n(d, &fa, q);
                if q == p { continue }
                p = q;
                done = true;
                break;
            }
            if !done || OVERFLOW.with(|o| o.get()) { return false }
        }
        false
    }
    fn quick_sign(&self, d: &mut Dom, fa: &Facts, ts: &[Term], a: V) -> Option<i32> {
        let mut co: Vec<Term> = vec![];
        for (m, c) in ts {
            let k = m.iter().filter(|&&x| x == a).count();
            if k > 1 { return None }
            if k == 1 {
                let r: Vec<V> = m.iter().copied().filter(|&x| x != a).collect();
                co.push((r.into(), *c));
            }
        }
        co.sort_unstable();
        let c = d.poly(co);
        let (l, h) = self.interval_n(d, fa, c);
        if let Some(l) = l { if l >= 0 { return Some(1) } }
        if let Some(h) = h { if h <= 0 { return Some(-1) } }
        None
    }
    /// a symbolic upper (or lower) bound of an atom
    fn best_bound(&mut self, d: &mut Dom, fa: &Facts, f: Fid, a: V, upper: bool) -> Option<V> {
        let mut cands: Vec<V> = vec![];
        match d.get(a).clone() {
            N::Min(x, y) | N::Max(x, y) => {
                let is_min = matches!(d.get(a), N::Min(..));
                if is_min == upper { cands.push(x); cands.push(y) } else {
                    // bound of both operands: one of them if it dominates
                    let dx = d.sub_(x, y);
                    let dx = self.norm_n(d, fa, dx);
                    let (l, h) = self.interval_n(d, fa, dx);
                    if l.map_or(false, |l| l >= 0) { cands.push(if is_min { y } else { x }) }
                    else if h.map_or(false, |h| h <= 0) { cands.push(if is_min { x } else { y }) }
                    else {
                        // a bound of one operand that also bounds the other
                        for (x, y) in [(x, y), (y, x)] {
                            let us = match *d.get(x) { N::Min(u, v) if !is_min => vec![u, v], N::Max(u, v) if is_min => vec![u, v], _ => continue };
                            for u in us {
                                let dx = if is_min { d.sub_(y, u) } else { d.sub_(u, y) };
                                let dx = self.norm_n(d, fa, dx);
                                if self.interval_n(d, fa, dx).0.map_or(false, |l| l >= 0) { cands.push(u) }
                            }
                        }
                    }
                }
            }
            N::First(n, _) if upper => cands.push(n),
            _ => {}
        }
        let rel = if upper { fa.hi.get(&a) } else { fa.lo.get(&a) };
        if let Some(r) = rel { cands.extend(r.iter().rev().take(4)) }
        let (l, h) = self.atom_bounds_n(d, fa, a);
        let num = if upper { if h < i128::MAX / 4 { Some(h) } else { None } } else if l > i128::MIN / 4 { Some(l) } else { None };
        let wide = |c: i128| c.abs() > 1 << 40;
        let mut best: Option<(u32, V)> = None;
        for c in cands {
            let c = self.norm_n(d, fa, c);
            // how far from a bound in terms of lengths and sizes
            let rank = self.bound_rank(d, fa, c, upper);
            if best.map_or(true, |b| rank < b.0) { best = Some((rank, c)) }
        }
        let _ = f;
        if let Some(n) = num {
            let r = if wide(n) { 50 } else if upper { 5 } else { 1 };
            if best.map_or(true, |b| r < b.0) { let k = d.int(n); best = Some((r, k)) }
        }
        best.map(|b| b.1)
    }
    fn bound_rank(&self, d: &Dom, fa: &Facts, c: V, upper: bool) -> u32 {
        if d.as_const(c).is_some() { return 0 }
        let mut r = 1;
        for (m, _) in d.terms(c) { for &a in m.iter() {
            r = r.max(match d.get(a) {
                N::Len(_) | N::IElem(..) => if upper { 1 } else { 2 },
                N::Min(x, y) if upper => self.bound_rank(d, fa, *x, upper).min(self.bound_rank(d, fa, *y, upper)).max(2),
                N::Max(x, y) if upper => self.bound_rank(d, fa, *x, upper).max(self.bound_rank(d, fa, *y, upper)).max(2),
                N::Max(x, y) => self.bound_rank(d, fa, *x, upper).min(self.bound_rank(d, fa, *y, upper)).max(2),
                N::Min(x, y) => self.bound_rank(d, fa, *x, upper).max(self.bound_rank(d, fa, *y, upper)).max(2),
                N::First(..) => 3,
                N::ISym(..) => 4,
                N::FToI(_) => if fa.hi.contains_key(&a) || fa.lo.contains_key(&a) { 6 } else { 60 },
                _ => 20,
            })
        } }
        r
    }

    fn prove_d(&mut self, d: &mut Dom, p: V, f: Fid, depth: u32) -> bool {
        self.queries += 1;
        if self.facts[f as usize].bottom { return true }
        let p = self.norm(d, p, f);
        if let Some(c) = d.as_const(p) { return c >= 0 }
        if let Some(&(r, dd)) = self.memo.get(&(f, p)) { if r || dd >= depth { return r } }
        if let Some(v) = self.proved.get(&p) { if v.iter().any(|&g| self.is_ancestor(g, f)) { self.memo.insert((f, p), (true, depth)); return true } }
        self.budget -= 1;
        if self.greedy(d, p, f) { self.memo.insert((f, p), (true, depth)); self.proved.entry(p).or_default().push(f); return true }
        if self.budget <= 0 { return false }
        // the opposite may be evident
        let q = d.neg(p);
        let q = d.addc(q, -1);
        if self.greedy(d, q, f) { self.memo.insert((f, p), (false, 100)); return false }
        let o = OVERFLOW.with(|o| o.replace(false));
        let r = self.prove_in(d, p, f, depth) && !OVERFLOW.with(|o| o.get());
        OVERFLOW.with(|x| x.set(o));
        if r { self.proved.entry(p).or_default().push(f); }
        if r || self.budget > 0 { self.memo.insert((f, p), (r, depth)); }
        r
    }
    fn shift_nonneg(&self, d: &Dom, fa: &Facts, ts: &[Term]) -> bool {
        if ts.iter().all(|t| t.1 >= 0 && t.0.iter().all(|&a| self.atom_bounds_n(d, fa, a).0 >= 0)) { return true }
        // every negative monomial needs a chance
        let mut lbs: HashMap<V, i128> = HashMap::default();
        for (m, _) in ts { for &a in m.iter() { if !lbs.contains_key(&a) { let l = self.atom_bounds_n(d, fa, a).0; if l < 0 { return false } lbs.insert(a, l); } } }
        if lbs.values().all(|&l| l == 0) { return false }
        // charge each negative monomial to positive multiples of it
        let mut left: Vec<i128> = ts.iter().map(|t| t.1).collect();
        let mut ok = true;
        'neg: for i in 0..ts.len() {
            if left[i] >= 0 { continue }
            for j in 0..ts.len() {
                if left[j] <= 0 { continue }
                // is ts[i].0 a sub-multiset of ts[j].0 ?
                let (x, y) = (&ts[i].0, &ts[j].0);
                if x.len() > y.len() { continue }
                let (mut p, mut q) = (0, 0);
                let mut extra: i128 = 1;
                while q < y.len() {
                    if p < x.len() && x[p] == y[q] { p += 1 } else { extra = extra.saturating_mul(lbs[&y[q]]).min(1 << 80) }
                    q += 1;
                }
                if p < x.len() || extra <= 0 { continue }
                let need = -left[i];
                let Some(have) = left[j].checked_mul(extra) else { continue };
                if have >= need {
                    // use ceil(need / extra) units
                    left[j] -= (need + extra - 1) / extra;
                    left[i] = 0;
                    continue 'neg;
                }
                left[i] += have;
                left[j] = 0;
            }
            if left[i] < 0 { ok = false; break }
        }
        if ok { return true }
        let natoms = lbs.values().filter(|&&l| l > 0).count();
        if natoms > 10 || ts.iter().map(|t| 1usize << t.0.len().min(20)).sum::<usize>() > 96 { return false }
        // a maximal negative monomial cannot be compensated
        let mut acc: HashMap<Mono, i128> = HashMap::default();
        for (m, c) in ts {
            let mut p: Vec<Term> = vec![(Rc::from([]), *c)];
            for &a in m.iter() {
                let l = lbs[&a];
                let q: Vec<Term> = if l == 0 { vec![(Rc::from([a]), 1)] } else { vec![(Rc::from([]), l), (Rc::from([a]), 1)] };
                p = pmul(&p, &q);
            }
            for (m, c) in p { let e = acc.entry(m).or_insert(0); match e.checked_add(c) { Some(x) => *e = x, None => return false } }
        }
        acc.values().all(|&c| c >= 0)
    }
    fn prove_in(&mut self, d: &mut Dom, p: V, f: Fid, depth: u32) -> bool {
        let fa = self.facts[f as usize].clone();
        if let (Some(l), _) = self.interval_n(d, &fa, p) { if l >= 0 { return true } }
        let ts = d.terms(p);
        // refutation by interval
        if let (_, Some(h)) = self.interval_n(d, &fa, p) { if h < 0 { return false } }
        if self.shift_nonneg(d, &fa, &ts) { return true }
        for &q in fa.ge.iter() {
            if !shares(d, &ts, q) { continue }
            let r = padd(&ts, &d.terms(q), -1);
            if r.is_empty() || (r.len() <= 4 * ts.len() + 8 && self.shift_nonneg(d, &fa, &r)) { return true }
        }
        if depth == 0 { return false }
        // compound atoms
        let mut atoms: Vec<V> = vec![];
        for (m, _) in &ts { for &a in m.iter() { if !atoms.contains(&a) { atoms.push(a) } } }
        atoms.sort_unstable();
        for &a in atoms.iter().rev() {
            match d.get(a).clone() {
                N::Min(x, y) | N::Max(x, y) => {
                    let is_min = matches!(d.get(a), N::Min(..));
                    // a is x or y, whichever is smaller / larger
                    let c = if is_min { d.ge(y, x) } else { d.ge(x, y) };
                    if let Some(b) = self.decide_d(d, c, f, depth - 1) {
                        let e = d.subst(p, &[(a, if b { x } else { y })]);
                        return self.prove_d(d, e, f, depth - 1);
                    }
                    // sign of the coefficient decides which side may be used alone
                    if let Some(s) = self.coef_sign(d, &ts, a, f, depth) {
                        let upper = s < 0; // p decreases with a: need upper bound of a
                        if upper == is_min {
                            for z in [x, y] { let e = top_subst(d, &ts, a, z); if self.prove_d(d, e, f, depth - 1) { return true } }
                        } else {
                            let ex = top_subst(d, &ts, a, x);
                            let ey = top_subst(d, &ts, a, y);
                            if self.prove_d(d, ex, f, depth - 1) && self.prove_d(d, ey, f, depth - 1) { return true }
                        }
                    }
                    let nc = d.not(c);
                    let f1 = self.assume(d, f, c, true);
                    let f2 = self.assume(d, f, nc, true);
                    let ex = top_subst(d, &ts, a, x);
                    let ey = top_subst(d, &ts, a, y);
                    return self.prove_d(d, ex, f1, depth - 1) && self.prove_d(d, ey, f2, depth - 1);
                }
                N::Ite(c, x, y) => {
                    let ex = top_subst(d, &ts, a, x);
                    let ey = top_subst(d, &ts, a, y);
                    match self.decide_d(d, c, f, depth - 1) {
                        Some(true) => return self.prove_d(d, ex, f, depth - 1),
                        Some(false) => return self.prove_d(d, ey, f, depth - 1),
                        None => {}
                    }
                    let nc = d.not(c);
                    let f1 = self.assume(d, f, c, true);
                    let f2 = self.assume(d, f, nc, true);
                    return self.prove_d(d, ex, f1, depth - 1) && self.prove_d(d, ey, f2, depth - 1);
                }
                _ => {}
            }
        }
        // eliminate one atom by its relational bounds
        for &a in atoms.iter().rev() {
            let has = fa.lo.contains_key(&a) || fa.hi.contains_key(&a) || matches!(d.get(a), N::First(..));
            if !has { continue }
            let Some(s) = self.coef_sign(d, &ts, a, f, depth) else { continue };
            let mut cands: Vec<V> = if s > 0 { fa.lo.get(&a).cloned().unwrap_or_default() } else { fa.hi.get(&a).cloned().unwrap_or_default() };
            if s < 0 { if let N::First(n, _) = *d.get(a) { cands.push(n) } }
            if s > 0 { let l = self.atom_bounds_n(d, &fa, a).0; if l > i128::MIN / 4 { let k = d.int(l); cands.push(k) } }
            let dep = depth.min(4) - 1;
            for e in cands {
                let e = self.norm(d, e, f);
                if d.terms(e).iter().any(|t| t.0.contains(&a)) { continue }
                let q = top_subst(d, &ts, a, e);
                if q != p && self.prove_d(d, q, f, dep) { return true }
            }
        }
        false
    }
    fn coef_sign(&mut self, d: &mut Dom, ts: &[Term], a: V, f: Fid, depth: u32) -> Option<i32> {
        let mut co: Vec<Term> = vec![];
        for (m, c) in ts {
            let k = m.iter().filter(|&&x| x == a).count();
            if k > 1 { return None }
            if k == 1 {
                let r: Vec<V> = m.iter().copied().filter(|&x| x != a).collect();
                co.push((r.into(), *c));
            }
        }
        co.sort_unstable();
        let c = d.poly(co);
        if self.prove_d(d, c, f, depth.min(3) - 1) { return Some(1) }
        let n = d.neg(c);
        if self.prove_d(d, n, f, depth.min(3) - 1) { return Some(-1) }
        None
    }
    pub fn decide(&mut self, d: &mut Dom, c: V, f: Fid) -> Option<bool> { self.enter(); let r = self.decide_d(d, c, f, 9); self.leave(); r }
    fn decide_d(&mut self, d: &mut Dom, c: V, f: Fid, depth: u32) -> Option<bool> {
        if c == d.t { return Some(true) }
        if c == d.f { return Some(false) }
        if depth >= 8 { if let Some(r) = self.dmemo.get(&(f, c)) { return *r } }
        let r = self.decide_in(d, c, f, depth);
        if r.is_some() || depth >= 8 { self.dmemo.insert((f, c), r); }
        r
    }
    fn decide_in(&mut self, d: &mut Dom, c: V, f: Fid, depth: u32) -> Option<bool> {
        if self.facts[f as usize].yes.contains(&c) { return Some(true) }
        let nc = d.not(c);
        if self.facts[f as usize].yes.contains(&nc) { return Some(false) }
        match d.get(c).clone() {
            N::Ge0(p) => {
                if self.prove_d(d, p, f, depth) { return Some(true) }
                let q = d.neg(p);
                let q = d.addc(q, -1);
                if self.prove_d(d, q, f, depth) { return Some(false) }
                None
            }
            N::Eq0(p) => {
                let p = self.norm(d, p, f);
                if let Some(k) = d.as_const(p) { return Some(k == 0) }
                let e = d.eq0(p);
                if e == d.t { return Some(true) }
                if e == d.f { return Some(false) }
                if self.facts[f as usize].yes.contains(&e) { return Some(true) }
                let ne = d.not(e);
                if self.facts[f as usize].yes.contains(&ne) { return Some(false) }
                let m0 = d.neg(p);
                for z in self.facts[f as usize].ne.clone().iter() { let z = self.norm(d, *z, f); if z == p || z == m0 { return Some(false) } }
                let m1 = d.addc(p, -1);
                if self.prove_d(d, m1, f, depth) { return Some(false) }
                let n = d.neg(p);
                let n1 = d.addc(n, -1);
                if self.prove_d(d, n1, f, depth) { return Some(false) }
                if self.prove_d(d, p, f, depth) && self.prove_d(d, n, f, depth) { return Some(true) }
                None
            }
            N::Not(x) => self.decide_d(d, x, f, depth).map(|b| !b),
            N::And(xs) => {
                let mut all = true;
                for &x in xs.iter() { match self.decide_d(d, x, f, depth) { Some(false) => return Some(false), Some(true) => {} None => all = false } }
                if all { Some(true) } else { None }
            }
            N::Or(xs) => {
                let mut none = true;
                for &x in xs.iter() { match self.decide_d(d, x, f, depth) { Some(true) => return Some(true), Some(false) => {} None => none = false } }
                if none { Some(false) } else { None }
            }
            N::FCmp(k, a, b) => {
                let fa = &self.facts[f as usize];
                if k == Fc::Uno {
                    // known ordered pairwise
                    let u = d.fcmp(Fc::Uno, a, a);
                    let w = d.fcmp(Fc::Uno, b, b);
                    let (nu, nw) = (d.not(u), d.not(w));
                    let fa = &self.facts[f as usize];
                    if (nu == d.t || fa.yes.contains(&nu)) && (nw == d.t || fa.yes.contains(&nw)) { return Some(false) }
                    if fa.yes.contains(&u) || fa.yes.contains(&w) { return Some(true) }
                    return None;
                }
                // NaN operands compare false
                let _ = fa;
                for v in [a, b] {
                    let u = d.fcmp(Fc::Uno, v, v);
                    if self.facts[f as usize].yes.contains(&u) { return Some(false) }
                }
                // comparison of an integer converted to float with a constant
                for (x, y, flip) in [(a, b, false), (b, a, true)] {
                    if let (N::FromI(i), N::FConst(c)) = (d.get(x).clone(), d.get(y).clone()) {
                        let (l, h) = self.interval(d, i, f);
                        let c = f64::from_bits(c);
                        if let (Some(l), Some(h)) = (l, h) {
                            let (l, h) = (l as f64, h as f64);
                            let r = match (k, flip) {
                                (Fc::Lt, false) => if h < c { Some(true) } else if l >= c { Some(false) } else { None },
                                (Fc::Le, false) => if h <= c { Some(true) } else if l > c { Some(false) } else { None },
                                (Fc::Lt, true) => if c < l { Some(true) } else if c >= h { Some(false) } else { None },
                                (Fc::Le, true) => if c <= l { Some(true) } else if c > h { Some(false) } else { None },
                                _ => None,
                            };
                            if r.is_some() { return r }
                        }
                    }
                }
                // constants bounds: x < c1 known and c1 <= c2
                if k != Fc::Eq {
                    if let Some(r) = self.const_bound(d, k, a, b, f) { return Some(r) }
                }
                None
            }
            N::BSym(_) => None,
            N::Ite(g, a, b) => match self.decide_d(d, g, f, depth) {
                Some(true) => self.decide_d(d, a, f, depth),
                Some(false) => self.decide_d(d, b, f, depth),
                None => { let x = self.decide_d(d, a, f, depth)?; let y = self.decide_d(d, b, f, depth)?; if x == y { Some(x) } else { None } }
            },
            _ => None,
        }
    }
    /// x < c or c < x decided from known comparisons of x with other constants
    fn const_bound(&self, d: &Dom, k: Fc, a: V, b: V, f: Fid) -> Option<bool> {
        let fa = &self.facts[f as usize];
        let (x, c, x_left) = match (d.get(a), d.get(b)) { (_, N::FConst(c)) => (a, f64::from_bits(*c), true), (N::FConst(c), _) => (b, f64::from_bits(*c), false), _ => return None };
        for &y in fa.yes.iter() {
            if let N::FCmp(k2, p, q) = d.get(y) {
                if *k2 == Fc::Uno { continue }
                if *p == x { if let N::FConst(c2) = d.get(*q) {
                    let c2 = f64::from_bits(*c2); // x <(=) c2 or x == c2
                    if x_left && (c2 < c || (c2 == c && (k == Fc::Le || *k2 == Fc::Lt))) { return Some(true) }
                    if !x_left && (c2 < c || (c2 == c && (k == Fc::Lt || *k2 == Fc::Lt))) { return Some(false) }
                } }
                if *q == x { if let N::FConst(c2) = d.get(*p) {
                    let c2 = f64::from_bits(*c2); // c2 <(=) x
                    if !x_left && (c2 > c || (c2 == c && (k == Fc::Le || *k2 == Fc::Lt))) { return Some(true) }
                    if x_left && (c2 > c || (c2 == c && (k == Fc::Lt || *k2 == Fc::Lt))) { return Some(false) }
                } }
            }
        }
        None
    }

    /// rewrite a value under facts: gates decided, min/max resolved, equalities applied
    pub fn resolve(&mut self, d: &mut Dom, v: V, f: Fid) -> V {
        if let Some(&r) = self.rmemo.get(&(f, v)) { return r }
        let r = match d.get(v).clone() {
            N::Ite(c, a, b) => {
                let c2 = match self.decide(d, c, f) { Some(true) => d.t, Some(false) => d.f, None => self.resolve(d, c, f) };
                if c2 == d.t { self.resolve(d, a, f) } else if c2 == d.f { self.resolve(d, b, f) } else {
                    let a = self.resolve(d, a, f);
                    let b = self.resolve(d, b, f);
                    if a == b { a } else { d.ite(c2, a, b) }
                }
            }
            N::Min(a, b) | N::Max(a, b) => {
                let is_min = matches!(d.get(v), N::Min(..));
                let x = self.resolve(d, a, f);
                let y = self.resolve(d, b, f);
                let dxy = d.sub_(y, x);
                let dyx = d.sub_(x, y);
                if self.prove(d, dxy, f) { if is_min { x } else { y } }
                else if self.prove(d, dyx, f) { if is_min { y } else { x } }
                else if is_min { d.min(x, y) } else { d.max(x, y) }
            }
            N::Poly(_) | N::Len(_) | N::IElem(..) | N::ISym(..) | N::FToI(_) | N::First(..) => {
                let w = self.norm(d, v, f);
                if w != v { self.resolve(d, w, f) } else { d.rebuild(v, &mut |d, x| self.resolve(d, x, f)) }
            }
            _ => {
                if d.kind(v) == Kind::B { if let Some(b) = self.decide(d, v, f) { let r = d.bool(b); self.rmemo.insert((f, v), r); return r } }
                d.rebuild(v, &mut |d, x| self.resolve(d, x, f))
            }
        };
        self.rmemo.insert((f, v), r);
        r
    }
}

fn top_subst(d: &mut Dom, ts: &[Term], a: V, e: V) -> V { d.poly_subst(ts, &[a], &[e]) }

fn norm_rec(d: &mut Dom, v: V, memo: &mut HashMap<V, V>) -> V {
    if let Some(&r) = memo.get(&v) { return r }
    let r = match d.get(v) {
        N::First(..) => { let r = d.rebuild(v, &mut |d, x| norm_rec(d, x, memo)); if r != v { memo.get(&r).copied().unwrap_or(r) } else { r } }
        N::Poly(_) | N::Min(..) | N::Max(..) => d.rebuild(v, &mut |d, x| norm_rec(d, x, memo)),
        N::Ite(_, _, _) if d.kind(v) == Kind::I => d.rebuild(v, &mut |d, x| if matches!(d.kind(x), Kind::I | Kind::B) { norm_rec(d, x, memo) } else { x }),
        N::Ge0(_) | N::Eq0(_) | N::Not(_) | N::And(_) | N::Or(_) => d.rebuild(v, &mut |d, x| norm_rec(d, x, memo)),
        _ => v,
    };
    memo.insert(v, r);
    r
}

/// does q share a monomial with the terms, with a coefficient of the same sign?
fn shares(d: &Dom, ts: &[Term], q: V) -> bool {
    match d.get(q) {
        N::Poly(u) => u.iter().any(|(m, c)| (!m.is_empty() || c.abs() > 1 << 32) && ts.iter().any(|(n, e)| (*c > 0) == (*e > 0) && n == m)),
        _ => ts.iter().any(|(n, e)| *e > 0 && n.len() == 1 && n[0] == q),
    }
}
