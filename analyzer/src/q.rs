//! Query layer: canonical real-number fingerprints of values within one ordering region.
//!
//! A region says, per dimension, where the coordinate lies relative to the grid points.  Within
//! a region every gate that compares coordinates or cell numbers is decided, so a value becomes
//! one rational expression in the symbolic inputs.  Rational expressions are compared by their
//! image in the prime field 2^61-1 with every symbolic input mapped to a fixed pseudo-random
//! element (equal expressions have equal images; distinct ones of the degrees met here collide
//! with probability below 2^-48).
use crate::dom::*;
use crate::prove::*;
use rustc_hash::{FxHashMap as HashMap, FxHashSet as HashSet};

pub const P: u64 = (1 << 61) - 1;
pub fn mulm(a: u64, b: u64) -> u64 { let t = a as u128 * b as u128; let r = (t & P as u128) as u64 + (t >> 61) as u64; if r >= P { r - P } else { r } }
pub fn addm(a: u64, b: u64) -> u64 { let r = a + b; if r >= P { r - P } else { r } }
pub fn subm(a: u64, b: u64) -> u64 { if a >= b { a - b } else { a + P - b } }
pub fn negm(a: u64) -> u64 { subm(0, a) }
pub fn powm(mut a: u64, mut e: u64) -> u64 { let mut r = 1; while e > 0 { if e & 1 == 1 { r = mulm(r, a) } a = mulm(a, a); e >>= 1 } r }
pub fn invm(a: u64) -> u64 { powm(a, P - 2) }
pub fn divm(a: u64, b: u64) -> u64 { mulm(a, invm(b)) }
pub fn intm(c: i128) -> u64 { c.rem_euclid(P as i128) as u64 }
fn mix(mut x: u64) -> u64 { x ^= x >> 30; x = x.wrapping_mul(0xbf58476d1ce4e5b9); x ^= x >> 27; x = x.wrapping_mul(0x94d049bb133111eb); x ^ (x >> 31) }
pub fn hs(s: &str, k: &[u64]) -> u64 {
    let mut h: u64 = 0x9e3779b97f4a7c15;
    for b in s.bytes() { h = mix(h ^ b as u64).wrapping_add(0x632be59bd9b4e019) }
    for x in k { h = mix(h ^ *x).wrapping_mul(0x9e3779b97f4a7c15) }
    let r = mix(h) % P;
    if r < 2 { r + 2 } else { r }
}
/// exact image of a double constant
pub fn constm(bits: u64) -> u64 {
    let x = f64::from_bits(bits);
    if !x.is_finite() { return hs("nonfinite", &[bits]) }
    if x == 0.0 { return 0 }
    let e = ((bits >> 52) & 0x7ff) as i64;
    let m = (bits & ((1 << 52) - 1)) | if e > 0 { 1 << 52 } else { 0 };
    let e = if e > 0 { e - 1075 } else { -1074 };
    let mut r = intm(m as i128);
    r = if e >= 0 { mulm(r, powm(2, e as u64)) } else { divm(r, powm(2, (-e) as u64)) };
    if x < 0.0 { negm(r) } else { r }
}

/// where one coordinate lies
#[derive(Clone, Debug, PartialEq)]
pub struct Reg {
    pub name: &'static str,
    pub node: bool,          // exactly on grid point I; otherwise strictly between points I and I+1
    pub lo: (i128, i128),    // I >= a + b*n
    pub hi: (i128, i128),    // I <= a + b*n
    pub half: i8,            // nearest: position relative to the cell's midpoint
    pub wide: bool,          // beyond the grid: no integer position relation assumed
}
const ANY: (i128, i128) = (i128::MIN, 0);
const fn rg(name: &'static str, node: bool, lo: (i128, i128), hi: (i128, i128), half: i8) -> Reg { Reg { name, node, lo, hi, half, wide: false } }
pub fn regions(class: &str, grid: &str) -> Vec<Reg> {
    let below = if grid == "reg" { rg("below", false, ANY, (-1, 0), 0) } else { rg("below", false, (-1, 0), (-1, 0), 0) };
    let above = if grid == "reg" { rg("above", false, (-1, 1), ANY, 0) } else { rg("above", false, (-1, 1), (-1, 1), 0) };
    let mut v = vec![];
    match class {
        "cubic" => {
            v.push(below);
            v.push(rg("first cell", false, (0, 0), (0, 0), 0));
            v.push(rg("interior cell", false, (1, 0), (-3, 1), 0));
            v.push(rg("last cell", false, (-2, 1), (-2, 1), 0));
            v.push(above);
            v.push(rg("first node", true, (0, 0), (0, 0), 0));
            v.push(rg("second node", true, (1, 0), (1, 0), 0));
            v.push(rg("interior node", true, (2, 0), (-3, 1), 0));
            v.push(rg("last but one node", true, (-2, 1), (-2, 1), 0));
            v.push(rg("last node", true, (-1, 1), (-1, 1), 0));
        }
        "nearest" => {
            v.push(below);
            v.push(rg("cell, lower half", false, (0, 0), (-2, 1), -1));
            v.push(rg("cell, upper half", false, (0, 0), (-2, 1), 1));
            v.push(above);
            v.push(rg("cell, midpoint", false, (0, 0), (-2, 1), 2));
            v.push(rg("first node", true, (0, 0), (0, 0), 0));
            v.push(rg("interior node", true, (1, 0), (-2, 1), 0));
            v.push(rg("last node", true, (-1, 1), (-1, 1), 0));
        }
        _ => {
            v.push(below);
            v.push(rg("cell", false, (0, 0), (-2, 1), 0));
            v.push(above);
            v.push(rg("first node", true, (0, 0), (0, 0), 0));
            v.push(rg("interior node", true, (1, 0), (-2, 1), 0));
            v.push(rg("last node", true, (-1, 1), (-1, 1), 0));
        }
    }
    v
}
/// index tuples of regions to analyse for n dimensions: all when few, otherwise every
/// single-dimension deviation from several base tuples
pub fn tuples(k: usize, n: usize, cap: usize) -> Vec<Vec<usize>> {
    let mut all = 1usize;
    for _ in 0..n { all = all.saturating_mul(k) }
    let mut out = vec![];
    if all <= cap {
        for mut i in 0..all {
            let mut t = vec![];
            for _ in 0..n { t.push(i % k); i /= k }
            out.push(t);
        }
        return out;
    }
    let pw = pairwise(k, n);
    if pw.len() <= cap { return pw }
    let mut seen = HashSet::default();
    for j in 0..k { let t = vec![j; n]; if seen.insert(t.clone()) { out.push(t) } }
    let bases: Vec<usize> = if n > 6 { vec![k.min(3) / 2] } else { (0..k).collect() };
    'o: for b in bases {
        for i in 0..n { for j in 0..k {
            let mut t = vec![b; n];
            t[i] = j;
            if seen.insert(t.clone()) { out.push(t) }
            if out.len() >= cap { break 'o }
        } }
    }
    // rotations mix every region in every dimension
    for s in 0..k { let t: Vec<usize> = (0..n).map(|i| (i + s) % k).collect(); if seen.insert(t.clone()) { out.push(t) } let t: Vec<usize> = (0..n).map(|i| (2 * i + s) % k).collect(); if seen.insert(t.clone()) { out.push(t) } }
    out
}

/// uniform tuples first, then rows chosen greedily until every pair of regions occurs in every pair of dimensions
fn pairwise(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = (0..k).map(|j| vec![j; n]).collect();
    let idx = |a: usize, b: usize, x: usize, y: usize| ((a * n + b) * k + x) * k + y;
    let mut open = vec![false; n * n * k * k];
    let mut left = 0;
    for a in 0..n { for b in a + 1..n { for x in 0..k { for y in 0..k { if x != y { open[idx(a, b, x, y)] = true; left += 1 } } } } }
    let mut seed = 12345u64;
    while left > 0 {
        // start from an open pair and fill the other dimensions in turn, each by the region closing most pairs
        let at = open.iter().position(|&o| o).unwrap();
        let (x, y) = (at / k % k, at % k);
        let (a, b) = (at / k / k / n, at / k / k % n);
        let mut best: (usize, Vec<usize>) = (0, vec![]);
        for _ in 0..8 {
            let mut t = vec![usize::MAX; n];
            t[a] = x;
            t[b] = y;
            let mut order: Vec<usize> = (0..n).filter(|&i| i != a && i != b).collect();
            for i in (1..order.len()).rev() { seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); order.swap(i, (seed >> 33) as usize % (i + 1)) }
            for &i in &order {
                let gain = |v: usize| (0..n).filter(|&j| t[j] != usize::MAX && j != i).filter(|&j| if i < j { open[idx(i, j, v, t[j])] } else { open[idx(j, i, t[j], v)] }).count();
                let off = (seed >> 20) as usize % k;
                let v = (0..k).map(|v| (v + off) % k).max_by_key(|&v| gain(v)).unwrap();
                t[i] = v;
            }
            let mut g = 0;
            for i in 0..n { for j in i + 1..n { if open[idx(i, j, t[i], t[j])] { g += 1 } } }
            if g > best.0 { best = (g, t) }
        }
        for i in 0..n { for j in i + 1..n { let o = &mut open[idx(i, j, best.1[i], best.1[j])]; if *o { *o = false; left -= 1 } } }
        out.push(best.1);
    }
    out
}

#[derive(Clone)]
pub struct DimEnv {
    pub reg: Reg,
    pub regular: bool,
    pub i: V,       // integer cell number
    pub n: V,       // grid size
    pub nf: u64,
    pub if_: u64,
    pub x: u64,
    pub start: u64,
    pub step: u64,
    pub q: u64,     // (x-start)/step
}

pub struct Ev<'a> {
    pub d: &'a mut Dom,
    pub p: &'a mut Prover,
    pub f: Fid,
    pub dims: Vec<DimEnv>,
    pub lin: Option<bool>,
    pub kvar: Option<V>,
    pub npoly: u64,              // product of all sizes (length of the value array)
    fm: HashMap<V, u64>,
    im: HashMap<V, V>,
    bm: HashMap<V, bool>,
    signs: HashMap<u64, i8>,
    pos: Vec<u64>,
    pub forced: HashMap<V, bool>,
    pub open: Option<V>,
    open_int: Option<V>,
    pub split: Option<V>,        // an integer gate on the region's own quantities that stays open
    pub loads: HashMap<u64, V>,  // value-array offsets (in elements) read
    pub foreign: Vec<String>,    // reads of other points, of outputs, ...
    pub trunc: u32,
    ifs: HashMap<V, u64>,
    is1d: bool,
}

/// image of the coordinate of grid point `idx` of dimension i
pub fn gridpt(de: &DimEnv, i: usize, idx: u64) -> u64 {
    if de.regular { addm(de.start, mulm(de.step, idx)) } else { hs("grids", &[i as u64, idx]) }
}

impl<'a> Ev<'a> {
    /// build the environment of one region tuple on top of facts `f`
    pub fn new(d: &'a mut Dom, p: &'a mut Prover, f: Fid, grid: &str, is1d: bool, regs: &[Reg], elem: char, lin: Option<bool>, kvar: Option<V>) -> Ev<'a> {
        let mut e = Ev { d, p, f, dims: vec![], lin, kvar, npoly: 1, fm: Default::default(), im: Default::default(), bm: Default::default(), signs: Default::default(), pos: vec![], forced: Default::default(), open: None, open_int: None, split: None, loads: Default::default(), foreign: vec![], trunc: 0, ifs: Default::default(), is1d };
        let sfx = if elem == 'g' { "32" } else { "" };
        for (i, r) in regs.iter().enumerate() {
            let nm = format!("cell{i}");
            let iv = e.d.mk(N::ISym(nm.as_str().into(), -(1 << 63), (1 << 63) - 1));
            let n = if is1d {
                let o = e.d.named[&format!("vals{sfx}")];
                e.d.len(o)
            } else if grid == "reg" {
                let o = e.d.named["dims"];
                let off = e.d.int(8 * i as i128);
                e.d.mk(N::IElem(o, off, 64))
            } else {
                let g = e.d.named[&format!("grids{sfx}")];
                let k = e.d.int(i as i128);
                let o = e.d.sub(g, k);
                e.d.len(o)
            };
            let mut facts = vec![];
            if r.lo != ANY { let c = e.d.scale(n, r.lo.1); let c = e.d.addc(c, r.lo.0); facts.push(e.d.ge(iv, c)); }
            if r.hi != ANY { let c = e.d.scale(n, r.hi.1); let c = e.d.addc(c, r.hi.0); facts.push(e.d.ge(c, iv)); }
            e.f = e.p.assume_all(e.d, e.f, &facts);
            let nf = e.fix_n(n).unwrap_or_else(|| hs("n", &[i as u64]));
            let if_ = hs("cell", &[i as u64]);
            e.npoly = mulm(e.npoly, nf);
            let (start, step) = (hs("starts", &[i as u64]), hs("steps", &[i as u64]));
            let mut de = DimEnv { reg: r.clone(), regular: grid == "reg", i: iv, n, nf, if_, x: hs("x", &[i as u64]), start, step, q: 0 };
            if r.half == 2 || r.node {
                // the coordinate is a known combination of grid points
                de.if_ = e.fix_i(&de, r);
                let a = gridpt(&de, i, de.if_);
                de.x = if r.node { a } else { let b = gridpt(&de, i, addm(de.if_, 1)); divm(addm(a, b), 2) };
            } else { de.if_ = e.fix_i(&de, r) }
            de.q = divm(subm(de.x, de.start), de.step);
            e.dims.push(de);
        }
        e.order_facts();
        e
    }
    /// image of the cell number: the polynomial it is equal to when the region pins it
fn fix_i(&mut self, de: &DimEnv, r: &Reg) -> u64 {
        if r.lo == r.hi { return addm(intm(r.lo.0), mulm(intm(r.lo.1), de.nf)) }
        for c in -1..=3 { let k = self.d.int(c); if self.same(de.i, k) { return intm(c) } }
        for c in 0..=4 { let k = self.d.addc(de.n, -c); if self.same(de.i, k) { return subm(de.nf, intm(c)) } }
        de.if_
    }
    fn same(&mut self, a: V, b: V) -> bool { let (x, y) = (self.d.sub_(a, b), self.d.sub_(b, a)); self.p.prove(self.d, x, self.f) && self.p.prove(self.d, y, self.f) }
    fn fix_n(&mut self, n: V) -> Option<u64> { for c in 2..=6 { let k = self.d.int(c); if self.same(n, k) { return Some(intm(c)) } } None }

    fn order_facts(&mut self) {
        for a in 1..=12i128 { for b in 1..=12i128 {
            let v = divm(intm(a), intm(b));
            self.signs.insert(v, 1);
            self.signs.insert(negm(v), -1);
        } }
        let consts: Vec<u64> = { let mut v = vec![]; for a in [1i128, 2, 3, 4, 6, 8, 12] { for b in [1i128, 2, 3, 4, 6, 8, 12] { let x = divm(intm(a), intm(b)); if !v.contains(&x) { v.push(x) } } } v };
        let mut scales: Vec<u64> = vec![1];
        for i in 0..self.dims.len() {
            let de = self.dims[i].clone();
            // candidate grid indices
            let mut cand: Vec<V> = vec![];
            for k in [0, 1, 2, 3] { cand.push(self.d.int(k)) }
            for k in 1..=4 { cand.push(self.d.addc(de.n, -k)) }
            for k in -2..=3 { cand.push(self.d.addc(de.i, k)) }
            let cf: Vec<u64> = cand.iter().map(|&c| self.ifp(c)).collect();
            for (&c, &f) in cand.iter().zip(&cf) {
                // sign of (position - c)
                let a = self.d.sub_(de.i, c);
                let b = self.d.neg(a);
                let a1 = self.d.addc(a, -1);
                let b1 = self.d.addc(b, -1);
                let s = if de.reg.node {
                    if self.p.prove(self.d, a1, self.f) { Some(1) } else if self.p.prove(self.d, b1, self.f) { Some(-1) } else if self.p.prove(self.d, a, self.f) && self.p.prove(self.d, b, self.f) { Some(0) } else { None }
                } else if self.p.prove(self.d, a, self.f) { Some(1) } else if self.p.prove(self.d, b1, self.f) { Some(-1) } else { None };
                if let Some(s) = s {
                    if s != 0 {
                        let dd = subm(de.x, gridpt(&de, i, f));
                        self.signs.insert(dd, s);
                        self.signs.insert(negm(dd), -s);
                        if de.regular { let q = subm(de.q, f); self.signs.insert(q, s); self.signs.insert(negm(q), -s); }
                    }
                }
                // sign of the integer I - c, as a float
                let si = if self.p.prove(self.d, a1, self.f) { Some(1) } else if self.p.prove(self.d, b1, self.f) { Some(-1) } else { None };
                if let Some(s) = si { let k = subm(de.if_, f); self.signs.entry(k).or_insert(s); self.signs.entry(negm(k)).or_insert(-s); }
            }
            // order of grid points (strictly increasing coordinates)
            for (a, &ca) in cand.iter().enumerate() {
                for (b, &cb) in cand.iter().enumerate() {
                    if a == b || cf[a] == cf[b] { continue }
                    let df = self.d.sub_(*&cb, ca);
                    let df1 = self.d.addc(df, -1);
                    if self.p.prove(self.d, df1, self.f) {
                        let w = subm(gridpt(&de, i, cf[b]), gridpt(&de, i, cf[a]));
                        self.signs.insert(w, 1);
                        self.signs.insert(negm(w), -1);
                    }
                }
            }
            // positive scales: the step or the widths of nearby cells
            let ws: Vec<u64> = if de.regular { vec![de.step] } else {
                let mut v = vec![];
                for (k, &c) in cf.iter().enumerate() { let _ = k; let w = subm(gridpt(&de, i, addm(c, 1)), gridpt(&de, i, c)); if !v.contains(&w) { v.push(w) } }
                v
            };
            for w in &ws { let iw = invm(*w); for s in [*w, mulm(*w, *w), iw, mulm(iw, iw)] { if !scales.contains(&s) { scales.push(s) } } }
            // midpoint comparisons
            for &f in &cf {
                let (a, b) = (gridpt(&de, i, f), gridpt(&de, i, addm(f, 1)));
                let m = subm(de.x, divm(addm(a, b), 2));
                let (l, r) = (subm(de.x, a), subm(de.x, b));
                let sl = if l == 0 { Some(0) } else { self.signs.get(&l).copied() };
                let sr = if r == 0 { Some(0) } else { self.signs.get(&r).copied() };
                let s = if matches!(sl, Some(-1 | 0)) { -1 } else if matches!(sr, Some(0 | 1)) { 1 } else if de.reg.half != 0 && de.reg.half != 2 && f == de.if_ { de.reg.half } else { continue };
                self.signs.insert(m, s);
                self.signs.insert(negm(m), -s);
            }
        }
        let mut pos = vec![];
        for s in &scales { for c in &consts { pos.push(mulm(*s, *c)) } }
        // squared-distance comparisons are scaled by products of two widths
        self.pos = pos;
    }
    pub fn set_sign(&mut self, dd: u64, s: i8) { self.signs.insert(dd, s); self.signs.insert(negm(dd), -s); }
    pub fn sign(&mut self, dd: u64) -> Option<i8> {
        if dd == 0 { return Some(0) }
        if let Some(&s) = self.signs.get(&dd) { return Some(s) }
        for k in 0..self.pos.len() { let v = mulm(dd, self.pos[k]); if let Some(&s) = self.signs.get(&v) { self.signs.insert(dd, s); return Some(s) } }
        None
    }

    // ---------------------------------------------------------------- integers
    fn atom(&mut self, v: V) -> u64 {
        for i in 0..self.dims.len() { if v == self.dims[i].i { return self.dims[i].if_ } if v == self.dims[i].n { return self.dims[i].nf } }
        match self.d.get(v).clone() {
            N::Len(o) => {
                let nm = self.d.objs[o as usize].1.trim_end_matches("32").to_string();
                if nm == "vals" { return self.npoly }
                if self.is1d && nm == "grid" && !self.dims.is_empty() { return self.dims[0].nf }
                match self.d.parent_of(o) { Some((p, ix)) => { let k = self.ifp(ix); let pn = self.d.objs[p as usize].1.trim_end_matches("32").to_string(); hs("len", &[hs(&pn, &[]), k]) } None => hs("len", &[hs(&nm, &[])]) }
            }
            N::IElem(o, off, w) => { let nm = self.d.objs[o as usize].1.clone(); let k = self.ifp(off); if nm == "dims" { for i in 0..self.dims.len() { if k == intm(8 * i as i128) { return self.dims[i].nf } } } hs("ielem", &[hs(&nm, &[]), k, w as u64]) }
            N::ISym(s, _, _) => hs(&s, &[]),
            N::Bound(k) => hs("bound", &[k as u64]),
            N::Min(a, b) => { let (x, y) = (self.ifp(a), self.ifp(b)); hs("imin", &[x.min(y), x.max(y)]) }
            N::Max(a, b) => { let (x, y) = (self.ifp(a), self.ifp(b)); hs("imax", &[x.min(y), x.max(y)]) }
            N::IOp(s, a, b) => { let (x, y) = (self.ifp(a), self.ifp(b)); hs(&s, &[x, y]) }
            N::Opq(s, xs) => { let k: Vec<u64> = xs.iter().map(|&x| self.any(x)).collect(); hs(&s, &k) }
            _ => hs("iatom", &[v as u64]),
        }
    }
    /// image of a canonical integer
    pub fn ifp(&mut self, v: V) -> u64 {
        if let Some(&r) = self.ifs.get(&v) { return r }
        let r = match self.d.get(v).clone() {
            N::Poly(ts) => {
                let mut r = 0;
                for (m, c) in ts.iter() { let mut t = intm(*c); for &a in m.iter() { let x = self.ifp(a); t = mulm(t, x) } r = addm(r, t) }
                r
            }
            _ => self.atom(v),
        };
        self.ifs.insert(v, r);
        r
    }
    fn any(&mut self, v: V) -> u64 {
        match self.d.kind(v) {
            Kind::F => self.rf(v).unwrap_or(0),
            Kind::I => { let c = self.ci(v); match c { Some(c) => self.ifp(c), None => 0 } }
            Kind::B => match self.cb(v) { Some(b) => 3 + b as u64, None => 0 },
            _ => match self.d.get(v).clone() {
                N::Ite(c, a, b) => match self.cb(c) { Some(t) => self.any(if t { a } else { b }), None => 0 },
                N::Ptr(o, off) => { let n = self.oname(o); let k = self.any(off); hs("ptr", &[n, k]) }
                N::Undef => 11,
                _ => hs("val", &[v as u64]),
            },
        }
    }
    fn oname(&mut self, o: Obj) -> u64 {
        let nm = self.d.objs[o as usize].1.trim_end_matches("32").to_string();
        match self.d.parent_of(o) { Some((p, ix)) => { let a = self.oname(p); let k = self.any(ix); hs("sub", &[a, k]) } None => hs(&nm, &[]) }
    }
    /// canonical integer within the region
    pub fn ci(&mut self, v: V) -> Option<V> {
        if let Some(&r) = self.im.get(&v) { return Some(r) }
        let r = match self.d.get(v).clone() {
            N::Ite(c, a, b) => if self.cb(c)? { self.ci(a)? } else { self.ci(b)? },
            N::FToI(a) => {
                let fa = self.rf(a)?;
                self.ftoi(fa)
            }
            N::First(m, body) => { let m = self.ci(m)?; match self.first(m, body) { Some(x) => self.ci(x)?, None => { if self.open.is_some() { return None } v } } }
            N::Min(a, b) | N::Max(a, b) => {
                let is_min = matches!(self.d.get(v), N::Min(..));
                let (x, y) = (self.ci(a)?, self.ci(b)?);
                let (xy, yx) = (self.d.sub_(y, x), self.d.sub_(x, y));
                if self.p.prove(self.d, xy, self.f) { if is_min { x } else { y } }
                else if self.p.prove(self.d, yx, self.f) { if is_min { y } else { x } }
                else if is_min { self.d.min(x, y) } else { self.d.max(x, y) }
            }
            N::Poly(ts) => {
                let mut atoms = vec![];
                for (m, _) in ts.iter() { for &a in m.iter() { if !atoms.contains(&a) { atoms.push(a) } } }
                let mut new = vec![];
                for &a in &atoms { new.push(self.ci(a)?) }
                if atoms == new { v } else { self.d.poly_subst(&ts, &atoms, &new) }
            }
            N::IOp(s, a, b) => { let (a, b) = (self.ci(a)?, self.ci(b)?); self.d.mk(N::IOp(s, a, b)) }
            N::Opq(s, xs) => { let mut n = vec![]; for &x in xs.iter() { n.push(if self.d.kind(x) == Kind::I { self.ci(x)? } else { x }) } self.d.mk(N::Opq(s, n.into())) }
            _ => v,
        };
        self.im.insert(v, r);
        Some(r)
    }
    /// integer part of a float with image fa
    fn ftoi(&mut self, fa: u64) -> V {
        for k in 0..self.dims.len() {
            let de = self.dims[k].clone();
            for c in -3..=3i128 {
                let t = subm(fa, intm(c));
                if t == de.if_ { return self.d.addc(de.i, c) }
                if de.regular && t == de.q {
                    if de.reg.node { return self.d.addc(de.i, c) }
                    // truncation towards zero
                    let ic = self.d.addc(de.i, c);
                    if self.p.prove(self.d, ic, self.f) { return ic }
                    let neg = { let n = self.d.neg(ic); self.d.addc(n, -1) };
                    if self.p.prove(self.d, neg, self.f) { return self.d.addc(ic, 1) }
                }
            }
        }
        for c in -16..=16i128 { if fa == intm(c) { return self.d.int(c) } }
        for k in 0..self.dims.len() {
            let de = self.dims[k].clone();
            for c in -8..=3i128 { if subm(fa, intm(c)) == de.nf { return self.d.addc(de.n, c) } }
        }
        self.d.mk(N::ISym(format!("int#{fa:x}").as_str().into(), -(1 << 63), (1 << 64) - 1))
    }
    /// count form of a search over a sorted grid
    fn first(&mut self, m: V, body: V) -> Option<V> {
        let dep = self.d.bdepth(body) + 1;
        let b = self.d.mk(N::Bound(dep));
        let (mut neg, mut c) = (false, body);
        while let N::Not(x) = self.d.get(c) { c = *x; neg = !neg }
        let N::FCmp(k, l, r) = self.d.get(c).clone() else { return None };
        if !matches!(k, Fc::Lt | Fc::Le) { return None }
        for (g, x, gleft) in [(l, r, true), (r, l, false)] {
            let N::FElem(o, off, w32) = self.d.get(g).clone() else { continue };
            let Some(dim) = self.grid_dim(o) else { continue };
            let esz = if w32 { 4 } else { 8 };
            if self.d.contains(x, &mut |n| matches!(n, N::Bound(q) if *q == dep)) { continue }
            let fx = self.rf(x)?;
            let de = self.dims[dim].clone();
            if fx != de.x { continue }
            let off = self.d.div_exact(off, esz)?;
            // off = s*b + c0
            let up = { let t = self.d.sub_(off, b); if !self.d.contains(t, &mut |n| matches!(n, N::Bound(q) if *q == dep)) { Some((1, t)) } else { let t = self.d.add(off, b); if !self.d.contains(t, &mut |n| matches!(n, N::Bound(q) if *q == dep)) { Some((-1, t)) } else { None } } };
            let (dir, c0) = up?;
            let c0 = self.ci(c0)?;
            // body true set: g cmp x
            // g < x (strict) holds for the first J points, g <= x for the first J' points
            let (below, strict) = match (gleft, k, neg) {
                (true, Fc::Lt, false) => (true, true),
                (true, Fc::Le, false) => (true, false),
                (false, Fc::Lt, true) => (true, false),  // !(x < g)
                (false, Fc::Le, true) => (true, true),   // !(x <= g)
                (true, Fc::Lt, true) => (false, true),   // !(g < x): from J on
                (true, Fc::Le, true) => (false, false),
                (false, Fc::Lt, false) => (false, false), // x < g: from J' on
                (false, Fc::Le, false) => (false, true),
                _ => return None,
            };
            // J: points strictly below x
            let j = if de.reg.node && strict { de.i } else { self.d.addc(de.i, 1) };
            let z = self.d.zero;
            let r = match (below, dir) {
                (false, 1) => self.d.sub_(j, c0),                                     // first b with c0+b >= J
                (true, -1) => { let t = self.d.sub_(c0, j); self.d.addc(t, 1) }       // first b with c0-b <= J-1
                (true, 1) => { let t = self.d.sub_(j, c0); let t = self.d.addc(t, -1); if self.p.prove(self.d, t, self.f) { return Some(z) } let n = self.d.neg(t); let n = self.d.addc(n, -1); if self.p.prove(self.d, n, self.f) { return Some(m) } return None }
                _ => { let t = self.d.sub_(c0, j); if self.p.prove(self.d, t, self.f) { return Some(z) } let n = self.d.neg(t); let n = self.d.addc(n, -1); if self.p.prove(self.d, n, self.f) { return Some(m) } return None }
            };
            let r = self.d.max(r, z);
            return Some(self.d.min(r, m));
        }
        None
    }
    fn grid_dim(&mut self, o: Obj) -> Option<usize> {
        let nm = self.d.objs[o as usize].1.trim_end_matches("32").to_string();
        if nm == "grid" && self.is1d { return Some(0) }
        let (p, ix) = self.d.parent_of(o)?;
        if self.d.objs[p as usize].1.trim_end_matches("32") != "grids" { return None }
        self.d.as_const(ix).map(|x| x as usize).filter(|&x| x < self.dims.len())
    }

    // ---------------------------------------------------------------- booleans
    fn undecided(&mut self, v: V) -> Option<bool> {
        if let Some(&b) = self.forced.get(&v) { return Some(b) }
        if self.open.is_none() { self.open = Some(v) }
        None
    }
    fn undecided_int(&mut self, v: V, g: V) -> Option<bool> {
        if self.open.is_none() && !self.forced.contains_key(&v) { self.open_int = Some(g) }
        self.undecided(v)
    }
    pub fn cb(&mut self, v: V) -> Option<bool> {
        if let Some(&b) = self.bm.get(&v) { return Some(b) }
        if let Some(&b) = self.forced.get(&v) { return Some(b) }
        let r = match self.d.get(v).clone() {
            N::True => true,
            N::False => false,
            N::Not(x) => !self.cb(x)?,
            N::And(xs) => { let (sv, svi) = (self.open, self.open_int); let mut all = true; let mut r = None; for &x in xs.iter() { match self.cb(x) { Some(false) => { r = Some(false); break } Some(true) => {} None => all = false } } if r.is_some() { self.open = sv; self.open_int = svi; false } else if all { true } else { return None } }
            N::Or(xs) => { let (sv, svi) = (self.open, self.open_int); let mut all = true; let mut r = None; for &x in xs.iter() { match self.cb(x) { Some(true) => { r = Some(true); break } Some(false) => {} None => all = false } } if r.is_some() { self.open = sv; self.open_int = svi; true } else if all { false } else { return None } }
            N::Ge0(p) => {
                if let Some(b) = self.p.decide(self.d, v, self.f) { b } else {
                    let c = self.ci(p)?;
                    let g = self.d.ge0(c);
                    match self.p.decide(self.d, g, self.f) { Some(b) => b, None => return self.undecided_int(v, g) }
                }
            }
            N::Eq0(p) => {
                if let Some(b) = self.p.decide(self.d, v, self.f) { b } else {
                    let c = self.ci(p)?;
                    let g = self.d.eq0(c);
                    match self.p.decide(self.d, g, self.f) { Some(b) => b, None => return self.undecided_int(v, g) }
                }
            }
            N::FCmp(k, a, b) => {
                if let Some(r) = self.p.decide(self.d, v, self.f) { r }
                else if k == Fc::Uno { false }
                else {
                    // representability tests of the cell number
                    if let Some(r) = self.huge(k, a, b) { r } else {
                        let s = match (self.d.get(a).clone(), self.d.get(b).clone()) {
                            (N::FUn(p, x), N::FUn(q, y)) if &*p == "abs" && &*q == "abs" => {
                                let (x, y) = (self.rf(x)?, self.rf(y)?);
                                match (self.sign(subm(x, y)), self.sign(addm(x, y))) { (Some(s), Some(t)) => Some(s * t), (Some(0), _) | (_, Some(0)) => Some(0), _ => None }
                            }
                            _ => { let (x, y) = (self.rf(a)?, self.rf(b)?); self.sign(subm(x, y)) }
                        };
                        match s { None => return self.undecided(v), Some(s) => match k { Fc::Lt => s < 0, Fc::Le => s <= 0, _ => s == 0 } }
                    }
                }
            }
            N::BSym(n) => if &*n == "lin" { match self.lin { Some(b) => b, None => return self.undecided(v) } } else { return self.undecided(v) },
            N::Ite(c, a, b) => if self.cb(c)? { self.cb(a)? } else { self.cb(b)? },
            _ => match self.p.decide(self.d, v, self.f) { Some(b) => b, None => return self.undecided(v) },
        };
        self.bm.insert(v, r);
        Some(r)
    }
    /// comparison with a constant of integer-range magnitude
    fn huge(&mut self, k: Fc, a: V, b: V) -> Option<bool> {
        let c = |d: &Dom, x: V| match d.get(x) { N::FConst(c) => { let c = f64::from_bits(*c); if c.abs() >= (1u64 << 31) as f64 - 1.0 { Some(c > 0.0) } else { None } } _ => None };
        if k == Fc::Eq { return None }
        if let Some(p) = c(self.d, a) { let x = self.rf(b)?; if self.is_cell(x) { return Some(!p) } }
        if let Some(p) = c(self.d, b) { let x = self.rf(a)?; if self.is_cell(x) { return Some(p) } }
        None
    }
    fn is_cell(&self, f: u64) -> bool {
        self.dims.iter().any(|de| (-3..=3i128).any(|c| { let t = subm(f, intm(c)); t == de.if_ || t == de.q }) || (-8..=3i128).any(|c| subm(f, intm(c)) == de.nf))
    }

    // ---------------------------------------------------------------- floats
    fn x0(&self) -> u64 { self.dims.first().map_or(hs("x", &[0]), |d| d.x) }
    pub fn elem(&mut self, o: Obj, off: V, w32: bool) -> Option<u64> {
        let esz: i128 = if w32 { 4 } else { 8 };
        let offc = self.ci(off)?;
        let idx = divm(self.ifp(offc), intm(esz));
        let nm = self.d.objs[o as usize].1.trim_end_matches("32").to_string();
        let small = |x: u64| (0..16u64).find(|&i| i == x).map(|i| i as usize);
        if let Some((p, ix)) = self.d.parent_of(o) {
            let pn = self.d.objs[p as usize].1.trim_end_matches("32").to_string();
            let ixc = self.ci(ix)?;
            let k = self.ifp(ixc);
            if pn == "obs" {
                if let (Some(kv), Some(j)) = (self.kvar, small(k)) {
                    if j < self.dims.len() && idx == self.ifp(kv) { return Some(self.dims[j].x) }
                }
                self.foreign.push(format!("{}[{}]", self.d.objs[o as usize].1, self.d.show(offc)));
            }
            return Some(hs(&pn, &[k, idx]));
        }
        Some(match nm.as_str() {
            "x" => match small(idx) { Some(j) if j < self.dims.len() => self.dims[j].x, _ => hs("x", &[idx]) },
            "locs" => { if let Some(kv) = self.kvar { if idx == self.ifp(kv) { return Some(self.x0()) } } self.foreign.push(format!("locs[{}]", self.d.show(offc))); hs("locs", &[idx]) }
            "starts" | "steps" => match small(idx) { Some(j) if j < self.dims.len() => if nm == "starts" { self.dims[j].start } else { self.dims[j].step }, _ => hs(&nm, &[idx]) },
            "grid" => hs("grids", &[0, idx]),
            "vals" => { self.loads.insert(idx, offc); hs("vals", &[idx]) }
            _ => { self.foreign.push(format!("{nm}[{}]", self.d.show(offc))); hs(&nm, &[idx]) }
        })
    }
    /// real-number image of a float value within the region
    pub fn rf(&mut self, v: V) -> Option<u64> {
        if let Some(&r) = self.fm.get(&v) { return Some(r) }
        let r = match self.d.get(v).clone() {
            N::FConst(b) => constm(b),
            N::FElem(o, off, w) => self.elem(o, off, w)?,
            N::FSym(s) => match s.trim_end_matches("32") { "loc" => self.x0(), "start" => self.dims.first().map_or(hs("starts", &[0]), |d| d.start), "step" => self.dims.first().map_or(hs("steps", &[0]), |d| d.step), t => hs(t, &[]) },
            N::FBin(op, a, b) => {
                let (x, y) = (self.rf(a)?, self.rf(b)?);
                match op {
                    Fo::Add => addm(x, y),
                    Fo::Sub => subm(x, y),
                    Fo::Mul => mulm(x, y),
                    Fo::Div => divm(x, y),
                    Fo::Rem => hs("frem", &[x, y]),
                    Fo::Min | Fo::Max => match self.sign(subm(x, y)) {
                        Some(s) => if (s <= 0) == (op == Fo::Min) { x } else { y },
                        None => { let g = self.d.fcmp(Fc::Le, a, b); let le = self.undecided(g)?; if le == (op == Fo::Min) { x } else { y } }
                    },
                }
            }
            N::FNeg(a) => negm(self.rf(a)?),
            N::Fma(a, b, c) => { let (x, y, z) = (self.rf(a)?, self.rf(b)?, self.rf(c)?); addm(mulm(x, y), z) }
            N::FromI(a) => { let c = self.ci(a)?; self.ifp(c) }
            N::FTrunc(a) => { self.trunc += 1; self.rf(a)? }
            N::FExt(a) => self.rf(a)?,
            N::FUn(s, a) => {
                let x = self.rf(a)?;
                self.fun(&s, x, a)?
            }
            N::Ite(c, a, b) => if self.cb(c)? { self.rf(a)? } else { self.rf(b)? },
            N::Opq(s, xs) => {
                let mut k = vec![];
                for &x in xs.iter() { let y = self.any(x); if self.open.is_some() { return None } k.push(y) }
                if s.starts_with("foutmix") { self.foreign.push("previous contents of the output".into()) }
                hs(&s, &k)
            }
            _ => hs("fatom", &[v as u64]),
        };
        self.fm.insert(v, r);
        Some(r)
    }
    fn fun(&mut self, s: &str, x: u64, a: V) -> Option<u64> {
        match s {
            "abs" => match self.sign(x) {
                Some(k) => return Some(if k >= 0 { x } else { negm(x) }),
                None => { let z = self.d.fconst(0.0); let g = self.d.fcmp(Fc::Le, z, a); return Some(if self.undecided(g)? { x } else { negm(x) }) }
            },
            "floor" | "ceil" | "trunc" => {
                for k in 0..self.dims.len() {
                    let de = self.dims[k].clone();
                    for c in -3..=3i128 {
                        let t = subm(x, intm(c));
                        let ic = addm(de.if_, intm(c));
                        if t == de.if_ { return Some(x) }
                        if de.regular && t == de.q {
                            if de.reg.node { return Some(ic) }
                            match s {
                                "floor" => return Some(ic),
                                "ceil" => return Some(addm(ic, 1)),
                                _ => {
                                    let i = self.d.addc(de.i, c);
                                    if self.p.prove(self.d, i, self.f) { return Some(ic) }
                                    let n = { let n = self.d.neg(i); self.d.addc(n, -1) };
                                    if self.p.prove(self.d, n, self.f) { return Some(addm(ic, 1)) }
                                }
                            }
                        }
                    }
                }
                if (0..17u64).any(|c| x == c) { return Some(x) }
            }
            _ => {}
        }
        Some(hs(s, &[x]))
    }
    fn reset(&mut self) { self.fm.clear(); self.im.clear(); self.bm.clear(); self.open = None; self.open_int = None; self.ifs.clear(); }
    /// every image the value can have in the region (one, unless gates remain undecided)
    pub fn images(&mut self, v: V) -> Result<Vec<(u64, Vec<(V, bool)>)>, String> {
        let mut out: Vec<(u64, Vec<(V, bool)>)> = vec![];
        let mut work: Vec<Vec<(V, bool)>> = vec![vec![]];
        while let Some(fs) = work.pop() {
            self.reset();
            self.forced = fs.iter().copied().collect();
            match self.rf(v) {
                Some(x) => out.push((x, fs)),
                None => {
                    let Some(g) = self.open else { return Err("undecided without a gate".into()) };
                    if let Some(i) = self.open_int { self.split = Some(i); self.forced.clear(); return Err(format!("undecided condition {}", self.d.show_d(i, 8))) }
                    if fs.len() >= 7 { return Err(format!("too many undecided comparisons, the last one {}", self.d.show_d(g, 8))) }
                    for b in [true, false] { let mut n = fs.clone(); n.push((g, b)); work.push(n) }
                }
            }
        }
        self.forced.clear();
        self.reset();
        Ok(out)
    }
    /// an integer value, or the condition on the region's quantities it still depends on
    pub fn whole(&mut self, v: V) -> Option<V> {
        self.open = None;
        self.open_int = None;
        let r = self.ci(v);
        if r.is_none() { if let Some(i) = self.open_int { self.split = Some(i) } }
        r
    }
    /// decide a boolean completely (no forcing)
    pub fn truth(&mut self, v: V) -> Option<bool> { self.open = None; self.cb(v) }
}

// -------------------------------------------------------------------- reference formulas
/// (grid index, weight) pairs of one dimension
pub fn weights(method: &str, de: &DimEnv, i: usize, lin: bool) -> Vec<(u64, u64)> {
    let g = |k: u64| gridpt(de, i, k);
    let c = de.if_;
    let n = de.nf;
    if de.reg.node { return vec![(c, 1)] }
    let below = de.reg.name == "below";
    let above = de.reg.name == "above";
    let cell = if below { 0 } else if above { subm(n, 2) } else { c };
    let x = de.x;
    match method {
        "linear" => {
            let (a, b) = (g(cell), g(addm(cell, 1)));
            let t = divm(subm(x, a), subm(b, a));
            vec![(cell, subm(1, t)), (addm(cell, 1), t)]
        }
        "nearest" => vec![(if below { 0 } else if above { subm(n, 1) } else if de.reg.half == 1 { addm(c, 1) } else { c }, 1)],
        "cubic" => {
            let quad = |k: [u64; 3], x: u64| -> Vec<(u64, u64)> {
                let p = [g(k[0]), g(k[1]), g(k[2])];
                (0..3).map(|a| { let mut w = 1; for b in 0..3 { if b != a { w = mulm(w, divm(subm(x, p[b]), subm(p[a], p[b]))) } } (k[a], w) }).collect()
            };
            // derivative weights of the quadratic through three points
            let dquad = |k: [u64; 3], x: u64| -> Vec<(u64, u64)> {
                let p = [g(k[0]), g(k[1]), g(k[2])];
                (0..3).map(|a| {
                    let o: Vec<usize> = (0..3).filter(|&b| b != a).collect();
                    let num = addm(subm(x, p[o[0]]), subm(x, p[o[1]]));
                    let den = mulm(subm(p[a], p[o[0]]), subm(p[a], p[o[1]]));
                    (k[a], divm(num, den))
                }).collect()
            };
            let line = |k: [u64; 3], e: u64| -> Vec<(u64, u64)> {
                let mut w: Vec<(u64, u64)> = dquad(k, g(e)).into_iter().map(|(a, b)| (a, mulm(b, subm(x, g(e))))).collect();
                for q in w.iter_mut() { if q.0 == e { q.1 = addm(q.1, 1) } }
                w
            };
            if below || de.reg.name == "first cell" {
                let k = [0, 1, 2];
                if below && lin { line(k, 0) } else { quad(k, x) }
            } else if above || de.reg.name == "last cell" {
                let k = [subm(n, 3), subm(n, 2), subm(n, 1)];
                if above && lin { line(k, k[2]) } else { quad(k, x) }
            } else {
                let k = [subm(c, 1), c, addm(c, 1), addm(c, 2)];
                let m1 = dquad([k[0], k[1], k[2]], g(k[1]));
                let m2 = dquad([k[1], k[2], k[3]], g(k[2]));
                let h = subm(g(k[2]), g(k[1]));
                let t = divm(subm(x, g(k[1])), h);
                let (t2, t3) = (mulm(t, t), mulm(mulm(t, t), t));
                let h00 = addm(subm(mulm(2, t3), mulm(3, t2)), 1);
                let h10 = mulm(h, addm(subm(t3, mulm(2, t2)), t));
                let h01 = subm(mulm(3, t2), mulm(2, t3));
                let h11 = mulm(h, subm(t3, t2));
                let mut w = vec![(k[1], h00), (k[2], h01)];
                for (a, b) in m1 { w.push((a, mulm(b, h10))) }
                for (a, b) in m2 { w.push((a, mulm(b, h11))) }
                let mut o: Vec<(u64, u64)> = vec![];
                for (a, b) in w { match o.iter_mut().find(|q| q.0 == a) { Some(q) => q.1 = addm(q.1, b), None => o.push((a, b)) } }
                o
            }
        }
        _ => unreachable!(),
    }
}
/// C-order offset image
pub fn corder(e: &[DimEnv], idx: &[u64]) -> u64 { let mut r = 0; for (de, &k) in e.iter().zip(idx) { r = addm(mulm(r, de.nf), k) } r }
/// image of the tensor-product reference
pub fn reference(method: &str, dims: &[DimEnv], lin: bool) -> u64 {
    let ws: Vec<Vec<(u64, u64)>> = dims.iter().enumerate().map(|(i, de)| weights(method, de, i, lin)).collect();
    fn go(dims: &[DimEnv], ws: &[Vec<(u64, u64)>], idx: &mut Vec<u64>) -> u64 {
        let k = idx.len();
        if k == ws.len() { return hs("vals", &[corder(dims, idx)]) }
        let mut r = 0;
        for &(a, w) in &ws[k] { idx.push(a); let v = go(dims, ws, idx); idx.pop(); r = addm(r, mulm(w, v)) }
        r
    }
    go(dims, &ws, &mut vec![])
}
/// C-order offsets that may be read
pub fn footprint(method: &str, dims: &[DimEnv]) -> HashSet<u64> {
    let per: Vec<Vec<u64>> = dims.iter().map(|de| {
        let n = de.nf;
        let (below, above) = (de.reg.name == "below", de.reg.name == "above");
        let cells: Vec<u64> = if below { vec![0] } else if above { vec![subm(n, 2)] } else if de.reg.node { match de.reg.name { "first node" => vec![0], "last node" => vec![subm(n, 2)], _ => vec![subm(de.if_, 1), de.if_] } } else { vec![de.if_] };
        let mut v: Vec<u64> = vec![];
        let mut add = |x: u64| if !v.contains(&x) { v.push(x) };
        match method {
            "nearest" => add(if below { 0 } else if above { subm(n, 1) } else if de.reg.node { de.if_ } else if de.reg.half == 1 { addm(de.if_, 1) } else { de.if_ }),
            "linear" => for c in cells { add(c); add(addm(c, 1)) },
            _ => {
                let los: Vec<u64> = match de.reg.name {
                    "below" | "first cell" | "first node" => vec![0],
                    "above" | "last cell" | "last node" => vec![subm(n, 4)],
                    "second node" => vec![0],
                    "last but one node" => vec![subm(n, 4)],
                    _ => cells.iter().map(|&c| subm(c, 1)).collect(),
                };
                for l in los { for k in 0..4 { add(addm(l, k)) } }
            }
        }
        v
    }).collect();
    let mut out = HashSet::default();
    fn go(dims: &[DimEnv], per: &[Vec<u64>], idx: &mut Vec<u64>, out: &mut HashSet<u64>) {
        if idx.len() == per.len() { out.insert(corder(dims, idx)); return }
        for &a in &per[idx.len()] { idx.push(a); go(dims, per, idx, out); idx.pop(); }
    }
    go(dims, &per, &mut vec![], &mut out);
    out
}

#[cfg(test)]
mod tests {
    #[test]
    fn sizes() { for k in [4, 6, 8, 10] { for n in 2..9 { print!("{k}^{n}:{} ", super::pairwise(k, n).len()) } println!() } }
}
