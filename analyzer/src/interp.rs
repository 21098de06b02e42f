//! Abstract interpreter: evaluates a function's control flow graph once over the value domain,
//! joining at post-dominators (gated joins), unrolling loops whose trip count is decided and
//! summarising the others.
use crate::dom::*;
use crate::ir::*;
use crate::prove::*;
use rustc_hash::FxHashMap as HashMap;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum W {
    At { off: V, size: u32, val: V },
    Range { n: V, var: V, off: V, size: u32, val: V, gate: V },
    Unknown(Rc<str>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Write { pub gate: V, pub w: W }

#[derive(Clone, Debug, Default, PartialEq)]
pub struct ObjData { pub cells: BTreeMap<i64, (u32, V)>, pub log: Vec<Write> }
pub type Mem = HashMap<Obj, Rc<ObjData>>;

#[derive(Clone)]
pub struct St { pub mem: Mem, pub path: Fid }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dest { Stop(u32), Ret }

pub struct Out { pub dest: Dest, pub st: St, pub regs: Vec<V>, pub ret: V }

#[derive(Clone)]
struct Tracker { header: u32, lid: usize, tok: u32, iters: u32, dec: bool, und: bool, first: u8 } // first: the first exit test of the iteration was decided (1) or not (2)
pub struct Abort(u32);

#[derive(Clone, Debug)]
pub struct PanicRec { pub what: String, pub stack: Vec<(String, String, u32)>, pub path: Fid }

pub struct Machine<'a> {
    pub d: &'a mut Dom,
    pub p: &'a mut Prover,
    pub m: &'a Module,
    pub funcs: HashMap<Rc<str>, Rc<Func>>,
    pub dem: HashMap<Rc<str>, Rc<str>>,
    pub panics: Vec<PanicRec>,
    pub problems: Vec<String>,
    pub stack: Vec<(Rc<str>, u32)>,
    pub maxrec: HashMap<Rc<str>, u32>,
    pub tok: u32,
    pub steps: u64,
    pub step_limit: u64,
    pub visited_fns: rustc_hash::FxHashSet<Rc<str>>,
    pub loops_summarised: u32,
    smemo: HashMap<(V, V, Fid, Fid), Option<V>>,
    pub joins: u64,
    pub opaque: HashMap<String, ()>, // demangled suffixes evaluated as uninterpreted functions
}

fn pow2(w: u32) -> i128 { 1i128 << w }

impl<'a> Machine<'a> {
    pub fn new(d: &'a mut Dom, p: &'a mut Prover, m: &'a Module) -> Machine<'a> {
        Machine { d, p, m, funcs: Default::default(), dem: Default::default(), panics: vec![], problems: vec![], stack: vec![], maxrec: Default::default(), tok: 0, steps: 0, step_limit: 400_000_000, visited_fns: Default::default(), loops_summarised: 0, smemo: Default::default(), joins: 0, opaque: Default::default() }
    }
    pub fn demangle(&mut self, n: &Rc<str>) -> Rc<str> {
        if let Some(x) = self.dem.get(n) { return x.clone() }
        let x: Rc<str> = format!("{:#}", rustc_demangle::demangle(n)).into();
        self.dem.insert(n.clone(), x.clone());
        x
    }
    fn func(&mut self, n: &Rc<str>) -> Option<Rc<Func>> {
        if let Some(f) = self.funcs.get(n) { return Some(f.clone()) }
        let f = Rc::new(self.m.parse_fn(n)?);
        self.funcs.insert(n.clone(), f.clone());
        Some(f)
    }
    pub fn problem(&mut self, s: String) {
        let s = match self.stack.last() { Some((f, dbg)) => { let l = self.m.dbg_loc(*dbg); let f = f.clone(); format!("{s} in {} ({}:{})", self.demangle(&f), l.0, l.1) } None => s };
        if self.problems.len() < 50 && !self.problems.contains(&s) { self.problems.push(s) }
    }

    // ------------------------------------------------------------ views
    pub fn uview(&mut self, v: V, w: u32, f: Fid) -> V {
        if w == 0 { return v }
        let m = pow2(w);
        if let Some(c) = self.d.as_const(v) { return self.d.int(c.rem_euclid(m)) }
        if self.d.kind(v) != Kind::I { return v }
        if matches!(self.d.get(v), N::Ite(..)) && self.leaves_const(v) { return self.d.map_leaves(v, &mut |d, x| { let c = d.as_const(x).unwrap(); d.int(c.rem_euclid(m)) }) }
        match self.p.interval(self.d, v, f) {
            (Some(l), Some(h)) if l >= 0 && h < m => return v,
            _ => {}
        }
        let lo = self.p.prove(self.d, v, f);
        let hi = { let n = self.d.neg(v); let n = self.d.addc(n, m - 1); self.p.prove(self.d, n, f) };
        if lo && hi { return v }
        let neg = { let n = self.d.neg(v); let n = self.d.addc(n, -1); self.p.prove(self.d, n, f) };
        let lo2 = { let n = self.d.addc(v, m); self.p.prove(self.d, n, f) };
        if neg && lo2 { return self.d.addc(v, m) }
        if hi && lo2 {
            let c = self.d.ge0(v);
            let x = self.d.addc(v, m);
            return self.d.ite(c, v, x);
        }
        let z = self.d.zero;
        self.d.mk(N::IOp(format!("uwrap{w}").into(), v, z))
    }
    pub fn sview(&mut self, v: V, w: u32, f: Fid) -> V {
        if w == 0 { return v }
        let m = pow2(w);
        let h = pow2(w - 1);
        if let Some(c) = self.d.as_const(v) { let r = c.rem_euclid(m); return self.d.int(if r >= h { r - m } else { r }) }
        if self.d.kind(v) != Kind::I { return v }
        if matches!(self.d.get(v), N::Ite(..)) && self.leaves_const(v) { return self.d.map_leaves(v, &mut |d, x| { let r = d.as_const(x).unwrap().rem_euclid(m); d.int(if r >= h { r - m } else { r }) }) }
        match self.p.interval(self.d, v, f) {
            (Some(l), Some(u)) if l >= -h && u < h => return v,
            _ => {}
        }
        let lo = { let n = self.d.addc(v, h); self.p.prove(self.d, n, f) };
        let hip = { let n = self.d.neg(v); self.d.addc(n, h - 1) };
        let hi = self.p.prove(self.d, hip, f);
        if lo && hi { return v }
        let hi2 = { let n = self.d.neg(v); let n = self.d.addc(n, m - 1); self.p.prove(self.d, n, f) };
        if lo && hi2 {
            let c = self.d.ge0(hip);
            let x = self.d.addc(v, -m);
            return self.d.ite(c, v, x);
        }
        let z = self.d.zero;
        self.d.mk(N::IOp(format!("swrap{w}").into(), v, z))
    }

    // ------------------------------------------------------------ operands
    fn op(&mut self, o: &Op, ty: &Ty, regs: &[V]) -> V {
        match o {
            Op::Reg(r) => regs[*r as usize],
            Op::Int(i) => match ty {
                Ty::I(1) => self.d.bool(*i & 1 != 0),
                Ty::F64 | Ty::F32 => self.d.fconst(*i as f64),
                _ => self.d.int(*i),
            },
            Op::F(b) => self.d.mk(N::FConst(*b)),
            Op::Null => self.d.null,
            Op::Undef => match ty { Ty::Struct(ts, _) => { let u = self.d.undef; let v = vec![u; ts.len()]; self.d.mk(N::Agg(v.into())) } _ => self.d.undef },
            Op::Zero => self.zero_of(ty),
            Op::Global(g) => {
                if self.m.funcs.contains_key(g) || self.m.decls.contains_key(g) { return self.d.mk(N::Fun(g.clone())) }
                let o = self.global_obj(g);
                let z = self.d.zero;
                self.d.mk(N::Ptr(o, z))
            }
            Op::GepG(g, off) => { let o = self.global_obj(g); let z = self.d.int(*off as i128); self.d.mk(N::Ptr(o, z)) }
            Op::IntToPtr(i) => { if *i == 0 { self.d.null } else { let o = self.d.named_obj("<dangling>", OK::Local { size: 0 }); let z = self.d.int(*i); self.d.mk(N::Ptr(o, z)) } }
            Op::Agg(xs) => { let v: Vec<V> = xs.iter().map(|(t, o)| self.op(o, t, regs)).collect(); self.d.mk(N::Agg(v.into())) }
            Op::Bytes(_) => self.d.undef,
        }
    }
    fn global_obj(&mut self, g: &Rc<str>) -> Obj {
        let mid = self.m.id;
        let key = format!("@{mid}:{g}");
        self.d.named_obj(&key, OK::Global(g.clone(), mid))
    }
    fn zero_of(&mut self, ty: &Ty) -> V {
        match ty {
            Ty::I(1) => self.d.f,
            Ty::I(_) => self.d.zero,
            Ty::F32 | Ty::F64 => self.d.fconst(0.0),
            Ty::Ptr => self.d.null,
            Ty::Struct(ts, _) => { let v: Vec<V> = ts.iter().map(|t| self.zero_of(t)).collect(); self.d.mk(N::Agg(v.into())) }
            Ty::Arr(n, t) => { let z = self.zero_of(t); let v = vec![z; *n as usize]; self.d.mk(N::Agg(v.into())) }
            _ => self.d.undef,
        }
    }
    /// reinterpret a value read from memory at a type
    fn conv(&mut self, v: V, ty: &Ty) -> V {
        if v == self.d.undef { return v }
        if let N::Ite(..) = self.d.get(v) {
            let mut memo = HashMap::default();
            return self.conv_ite(v, ty, &mut memo);
        }
        if let N::Opq(s, x) = self.d.get(v) {
            if x.len() == 1 {
                let (s, x) = (s.clone(), x[0]);
                let k = self.d.kind(x);
                match (&*s, ty) {
                    ("ibits" | "pbits", Ty::F32 | Ty::F64) if k == Kind::F => return x,
                    ("fbits" | "pint", Ty::I(w)) if k == Kind::I && *w > 1 => return x,
                    ("fbits" | "iaddr", Ty::Ptr) if k == Kind::P => return x,
                    _ => {}
                }
            }
        }
        let k = self.d.kind(v);
        match ty {
            Ty::I(_) if k == Kind::P => self.ptr_to_int(v),
            Ty::I(_) if k == Kind::F => self.opq("ibits", &[v]),
            Ty::Ptr if k == Kind::I => self.int_to_ptr(v),
            Ty::Ptr if k == Kind::F => self.opq("pbits", &[v]),
            Ty::F32 | Ty::F64 if k == Kind::I || k == Kind::P => { if self.d.as_const(v) == Some(0) { self.d.fconst(0.0) } else { self.opq("fbits", &[v]) } }
            Ty::I(1) if k == Kind::I => self.to_bool(v),
            _ => v,
        }
    }
    fn conv_ite(&mut self, v: V, ty: &Ty, memo: &mut HashMap<V, V>) -> V {
        if let Some(&r) = memo.get(&v) { return r }
        let r = match *self.d.get(v) {
            N::Ite(c, a, b) => {
                let x = self.conv_ite(a, ty, memo);
                let y = self.conv_ite(b, ty, memo);
                if x == a && y == b { v } else { self.d.ite(c, x, y) }
            }
            _ => self.conv(v, ty),
        };
        memo.insert(v, r);
        r
    }
    /// a value that the facts of the current point fix
    fn konst(&mut self, v: V, f: Fid) -> V {
        if self.d.as_const(v).is_some() || self.d.kind(v) != Kind::I { return v }
        let n = self.p.norm(self.d, v, f);
        if self.d.as_const(n).is_some() { n } else { v }
    }
    /// drop the alternatives that the facts of the current point exclude
    fn pick(&mut self, mut v: V, f: Fid) -> V {
        while let N::Ite(c, a, b) = *self.d.get(v) {
            match self.p.decide(self.d, c, f) { Some(true) => v = a, Some(false) => v = b, None => {
                let x = self.pick(a, f);
                let y = self.pick(b, f);
                return if x == a && y == b { v } else { self.d.ite(c, x, y) };
            } }
        }
        v
    }
    fn latch_val(&mut self, v: V, f: Fid) -> V {
        match *self.d.get(v) {
            N::Ite(..) => { let w = self.pick(v, f); if w != v { return self.latch_val(w, f) } v }
            N::Ptr(o, off) => { let x = self.p.resolve(self.d, off, f); self.d.mk(N::Ptr(o, x)) }
            N::Poly(_) if self.d.contains(v, &mut |n| matches!(n, N::Ite(..))) => self.p.resolve(self.d, v, f),
            _ => v,
        }
    }
    fn mixed(&self, v: V) -> bool {
        // leaves of different kinds (a union of variants), or pointers
        let mut kind = None;
        let mut st = vec![v];
        let mut n = 0;
        while let Some(x) = st.pop() {
            n += 1;
            if n > 64 { return true }
            match self.d.get(x) {
                N::Ite(_, a, b) => { st.push(*a); st.push(*b) }
                N::Undef => {}
                _ => { let k = self.d.kind(x); if k == Kind::P || k == Kind::O { return true } match kind { None => kind = Some(k), Some(q) if q == k => {} _ => return true } }
            }
        }
        false
    }
    fn opq(&mut self, n: &str, xs: &[V]) -> V { self.d.mk(N::Opq(n.into(), xs.to_vec().into())) }
    fn to_bool(&mut self, v: V) -> V {
        if self.d.kind(v) == Kind::B { return v }
        self.d.map_leaves(v, &mut |d, x| {
            if let Some(c) = d.as_const(x) { return d.bool(c & 1 != 0) }
            if x == d.undef { return x }
            let e = d.eq0(x);
            d.not(e)
        })
    }
    fn of_bool(&mut self, v: V) -> V {
        if self.d.kind(v) != Kind::B { return v }
        let (a, b) = (self.d.one, self.d.zero);
        self.d.ite(v, a, b)
    }
    fn base_atom(&mut self, o: Obj) -> V { self.d.mk(N::ISym(format!("&{o}").into(), 1, (1 << 63) - 1)) }
    fn ptr_to_int(&mut self, v: V) -> V {
        match self.d.get(v).clone() {
            N::Null => self.d.zero,
            N::Ptr(o, off) => {
                if self.d.objs[o as usize].1 == "<dangling>" { return off }
                let b = self.base_atom(o);
                self.d.add(b, off)
            }
            N::Ite(c, a, b) => { let a = self.ptr_to_int(a); let b = self.ptr_to_int(b); self.d.ite(c, a, b) }
            N::Fun(_) => self.d.mk(N::ISym(format!("&fn{v}").into(), 1, (1 << 63) - 1)),
            N::Undef => v,
            _ => if self.d.kind(v) == Kind::I { v } else { self.opq("iaddr", &[v]) },
        }
    }
    fn int_to_ptr(&mut self, v: V) -> V {
        if let Some(c) = self.d.as_const(v) {
            if c == 0 { return self.d.null }
            let o = self.d.named_obj("<dangling>", OK::Local { size: 0 });
            return self.d.mk(N::Ptr(o, v));
        }
        if let N::Ite(c, a, b) = *self.d.get(v) { let a = self.int_to_ptr(a); let b = self.int_to_ptr(b); return self.d.ite(c, a, b) }
        for (m, c) in self.d.terms(v) {
            if m.len() == 1 && c == 1 {
                if let N::ISym(s, _, _) = self.d.get(m[0]) {
                    if let Some(o) = s.strip_prefix('&').and_then(|x| x.parse::<Obj>().ok()) { let off = self.d.sub_(v, m[0]); return self.d.mk(N::Ptr(o, off)) }
                }
            }
        }
        self.opq("pint", &[v])
    }

    // ------------------------------------------------------------ memory
    fn leaves_const(&self, v: V) -> bool {
        match self.d.get(v) { N::Ite(_, a, b) => self.leaves_const(*a) && self.leaves_const(*b), _ => self.d.as_const(v).is_some() }
    }
    /// v = k + sum of constant-leaf trees: rewrite as one tree
    fn as_tree(&mut self, v: V) -> Option<V> {
        if self.d.as_const(v).is_some() { return Some(v) }
        if let N::Ite(..) = self.d.get(v) { return if self.leaves_const(v) { Some(v) } else { None } }
        let ts = self.d.terms(v);
        for (m, _) in &ts { for &a in m.iter() { if let N::Ite(c, x, y) = *self.d.get(a) {
            let e1 = self.d.poly_subst(&ts, &[a], &[x]);
            let e2 = self.d.poly_subst(&ts, &[a], &[y]);
            let e1 = self.as_tree(e1)?;
            let e2 = self.as_tree(e2)?;
            return Some(self.d.mk(N::Ite(c, e1, e2)));
        } } }
        None
    }
    pub fn load(&mut self, st: &St, ptr: V, ty: &Ty) -> V {
        if let Ty::Struct(ts, _) = ty {
            let mut v = vec![];
            for i in 0..ts.len() { let (o, t) = ty.field(i); let t = t.clone(); let p = self.gep_const(ptr, o as i128); v.push(self.load(st, p, &t)); }
            return self.d.mk(N::Agg(v.into()));
        }
        if let Ty::Arr(n, t) = ty {
            let mut v = vec![];
            for i in 0..*n { let p = self.gep_const(ptr, (i * t.size()) as i128); v.push(self.load(st, p, t)); }
            return self.d.mk(N::Agg(v.into()));
        }
        match self.d.get(ptr).clone() {
            N::Ite(c, a, b) => {
                let x = self.load(st, a, ty);
                let y = self.load(st, b, ty);
                self.d.ite(c, x, y)
            }
            N::Ptr(o, off) => self.load_obj(st, o, off, ty),
            N::Undef | N::Null => self.d.undef,
            _ => { self.problem(format!("load through unknown pointer {}", self.d.show(ptr))); let k = kind_pfx(ty); self.opq(&format!("{k}load"), &[ptr]) }
        }
    }
    fn gep_const(&mut self, p: V, k: i128) -> V {
        if k == 0 { return p }
        self.d.map_leaves(p, &mut |d, x| match *d.get(x) { N::Ptr(o, off) => { let z = d.addc(off, k); d.mk(N::Ptr(o, z)) } _ => x })
    }
    fn load_obj(&mut self, st: &St, o: Obj, off: V, ty: &Ty) -> V {
        let kind = self.d.objs[o as usize].0.clone();
        match kind {
            OK::Local { .. } | OK::Global(..) => {
                let off = { let n = self.p.norm(self.d, off, st.path); if self.d.as_const(n).is_some() { n } else { off } };
                if let Some(c) = self.d.as_const(off) {
                    return self.load_cells(st, o, c as i64, ty);
                }
                if let Some(t) = self.as_tree(off) { return self.load_tree(st, o, t, ty) }
                let off2 = self.p.resolve(self.d, off, st.path);
                if let Some(t) = self.as_tree(off2) { return self.load_tree(st, o, t, ty) }
                // symbolic index into a local array: choose among the cells of that size
                let n = self.p.norm(self.d, off, st.path);
                if let Some(data) = st.mem.get(&o) {
                    let (lo, hi) = self.p.interval(self.d, n, st.path);
                    let size = ty.size() as u32;
                    let cells: Vec<(i64, V)> = data.cells.iter().filter(|(k, c)| c.0 == size && lo.map_or(true, |l| **k as i128 >= l) && hi.map_or(true, |h| **k as i128 <= h)).map(|(k, c)| (*k, c.1)).collect();
                    if !cells.is_empty() && cells.len() <= 16 && data.cells.values().all(|c| c.0 == size) {
                        let mut r = cells[0].1;
                        for (k, v) in cells.into_iter().skip(1) { let dd = self.d.addc(n, -(k as i128)); let c = self.d.eq0(dd); r = self.d.ite(c, v, r); }
                        return r;
                    }
                }
                self.problem(format!("load at unknown offset {}", self.d.show(off)));
                self.opq(&format!("{}idx{o}", kind_pfx(ty)), &[off])
            }
            OK::Input { elem, .. } => {
                let n = self.p.norm(self.d, off, st.path);
                let off = if matches!(elem, 's' | 't') || self.d.as_const(n).is_some() { n } else { off };
                self.load_input(o, off, ty, elem)
            }
            OK::Out { elem, .. } | OK::Heap { elem, .. } => {
                let heap = matches!(kind, OK::Heap { .. });
                if let Some(data) = st.mem.get(&o) {
                    for w in data.log.clone().iter().rev() {
                        match &w.w {
                            W::Range { n, var, off: x, size, val, gate } if *size as u64 == ty.size() => {
                                // element written by a covering loop
                                let esz = *size as i128;
                                let x0 = { let z = self.d.zero; self.d.subst(*x, &[(*var, z)]) };
                                let df = self.d.sub_(off, x0);
                                if let Some(ix) = self.d.div_exact(df, esz) {
                                    let want = { let t = self.d.scale(*var, esz); self.d.add(t, x0) };
                                    if want == *x {
                                        let (lo, hi) = (self.d.ge0(ix), self.d.gt(*n, ix));
                                        let g = self.d.subst(*gate, &[(*var, ix)]);
                                        if [lo, hi, g, w.gate].iter().all(|&c| self.p.decide(self.d, c, st.path) == Some(true)) { let v = self.d.subst(*val, &[(*var, ix)]); return self.conv(v, ty) }
                                    }
                                }
                                return self.opq(&format!("{}outmix", kind_pfx(ty)), &[off]);
                            }
                            W::At { off: x, size, val } if *x == off && *size as u64 == ty.size() && w.gate == self.d.t => { let v = *val; return self.conv(v, ty) }
                            W::At { off: x, .. } => {
                                let df = self.d.sub_(*x, off);
                                if let Some(c) = self.d.as_const(df) { if c != 0 { continue } }
                                return self.opq(&format!("{}outmix", kind_pfx(ty)), &[off]);
                            }
                            _ => return self.opq(&format!("{}outmix", kind_pfx(ty)), &[off]),
                        }
                    }
                }
                if heap { return self.zero_of(ty) }
                self.load_input(o, off, ty, elem)
            }
        }
    }
    fn load_tree(&mut self, st: &St, o: Obj, t: V, ty: &Ty) -> V {
        match *self.d.get(t) {
            N::Ite(c, a, b) => {
                let x = self.load_tree(st, o, a, ty);
                let y = self.load_tree(st, o, b, ty);
                self.d.ite(c, x, y)
            }
            _ => { let c = self.d.as_const(t).unwrap(); self.load_cells(st, o, c as i64, ty) }
        }
    }
    fn load_input(&mut self, o: Obj, off: V, ty: &Ty, elem: char) -> V {
        let es = elem_size(elem);
        match (elem, ty) {
            ('f', Ty::F64) => self.d.mk(N::FElem(o, off, false)),
            ('g', Ty::F32) => self.d.mk(N::FElem(o, off, true)),
            ('u', Ty::I(64)) => self.d.mk(N::IElem(o, off, 64)),
            ('b', Ty::I(8)) => { let e = self.d.mk(N::IElem(o, off, 8)); let z = self.d.eq0(e); let z = self.d.not(z); self.of_bool(z) }
            ('s' | 't', Ty::Ptr | Ty::I(64)) => {
                let ts = self.d.terms(off);
                let k: i128 = ts.iter().filter(|t| t.0.is_empty()).map(|t| t.1).sum();
                let r = k.rem_euclid(16);
                let base = self.d.addc(off, -r);
                if let Some(i) = self.d.div_exact(base, 16) {
                    let s = self.d.sub(o, i);
                    if r == 0 { let z = self.d.zero; let p = self.d.mk(N::Ptr(s, z)); return self.conv(p, ty) }
                    if r == 8 { let l = self.d.len(s); return self.conv(l, ty) }
                }
                self.problem(format!("slice-of-slices read at {}", self.d.show(off)));
                self.opq(&format!("{}inp", kind_pfx(ty)), &[off])
            }
            (_, Ty::I(w)) if (*w as i128 / 8) % es == 0 && *w as i128 / 8 > es => {
                let n = *w as i128 / 8 / es;
                let t = match elem { 'f' => Ty::F64, 'g' => Ty::F32, 'u' => Ty::I(64), 'b' => Ty::I(8), _ => Ty::Ptr };
                let mut c = vec![];
                for i in 0..n { let p = self.d.addc(off, i * es); c.push(((i * es) as u32, es as u32, self.load_input(o, p, &t, elem))); }
                self.d.mk(N::Chunk(c.into()))
            }
            ('f', Ty::I(64)) => self.d.mk(N::FElem(o, off, false)),
            ('g', Ty::I(32)) => self.d.mk(N::FElem(o, off, true)),
            _ => { self.problem(format!("read of {ty:?} from {}", self.d.objs[o as usize].1)); self.opq(&format!("{}inp", kind_pfx(ty)), &[off]) }
        }
    }
    fn load_cells(&mut self, st: &St, o: Obj, off: i64, ty: &Ty) -> V {
        let size = ty.size() as i64;
        if let OK::Global(g, mid) = &self.d.objs[o as usize].0 {
            if *mid == self.m.id { let g = g.clone(); return self.load_global(&g, off, ty) }
            return self.d.undef;
        }
        let Some(data) = st.mem.get(&o) else { return self.d.undef };
        let data = data.clone();
        self.read_cells(&data.cells, off, size, ty, Some(st.path))
    }
    fn is_zero_fill(&self, v: V) -> bool { matches!(self.d.get(v), N::Opq(n, _) if &**n == "zero") }
    /// bytes off..off+size of a value that occupies `total` bytes
    fn slice_val(&mut self, v: V, total: u32, off: u32, size: u32, f: Option<Fid>) -> V {
        let whole = off == 0 && size == total;
        match self.d.get(v).clone() {
            N::Undef => v,
            N::Ite(c, a, b) => {
                if let Some(f) = f {
                    match self.p.decide(self.d, c, f) { Some(true) => return self.slice_val(a, total, off, size, Some(f)), Some(false) => return self.slice_val(b, total, off, size, Some(f)), None => {} }
                } else if whole { return v }
                let x = self.slice_val(a, total, off, size, f);
                let y = self.slice_val(b, total, off, size, f);
                if whole && x == a && y == b { v } else { self.d.ite(c, x, y) }
            }
            N::Chunk(ps) => {
                let mut out = vec![];
                for &(o, s, x) in ps.iter() {
                    let (lo, hi) = (o.max(off), (o + s).min(off + size));
                    if lo >= hi { continue }
                    let y = self.slice_val(x, s, lo - o, hi - lo, f);
                    if y != self.d.undef { out.push((lo - off, hi - lo, y)) }
                }
                if out.is_empty() { return self.d.undef }
                if out.len() == 1 && out[0].0 == 0 && out[0].1 == size { return out[0].2 }
                self.d.mk(N::Chunk(out.into()))
            }
            _ if whole || self.is_zero_fill(v) => v,
            _ => {
                if let Some(c) = self.d.as_const(v) {
                    let r = if off >= 16 { 0 } else { (c >> (off * 8)) & ((1i128 << (size * 8).min(120)) - 1) };
                    return self.d.int(r);
                }
                if off == 0 && self.d.kind(v) == Kind::I { return v } // low bytes, modular representation
                self.opq(&format!("?part{off}:{size}"), &[v])
            }
        }
    }
    fn read_cells(&mut self, cells: &BTreeMap<i64, (u32, V)>, off: i64, size: i64, ty: &Ty, f: Option<Fid>) -> V {
        if let Some((&k, &(s, v))) = cells.range(..=off).next_back() {
            if k + s as i64 >= off + size {
                let mut x = self.slice_val(v, s, (off - k) as u32, size as u32, f);
                if let (N::Ite(..), Some(f)) = (self.d.get(x), f) { x = self.pick(x, f); }
                if self.is_zero_fill(x) { return self.zero_of(ty) }
                return self.conv(x, ty);
            }
        }
        let mut part: Vec<(u32, u32, V)> = vec![];
        let start = cells.range(..off).next_back().and_then(|(k, c)| if *k + c.0 as i64 > off { Some(*k) } else { None }).unwrap_or(off);
        let hit: Vec<(i64, u32, V)> = cells.range(start..off + size).map(|(k, c)| (*k, c.0, c.1)).collect();
        for (k, s, v) in hit {
            let (lo, hi) = (k.max(off), (k + s as i64).min(off + size));
            let y = self.slice_val(v, s, (lo - k) as u32, (hi - lo) as u32, f);
            if y != self.d.undef { part.push(((lo - off) as u32, (hi - lo) as u32, y)) }
        }
        if part.is_empty() { return self.d.undef }
        self.d.mk(N::Chunk(part.into()))
    }
    fn load_global(&mut self, g: &Rc<str>, off: i64, ty: &Ty) -> V {
        let (gt, init) = match self.m.global_init(g) { Some(x) => x, None => return self.opq(&format!("{}global {g}", kind_pfx(ty)), &[]) };
        let mut cells = BTreeMap::new();
        self.flatten(&gt, &init, 0, &mut cells);
        self.read_global(&cells, off, ty)
    }
    fn read_global(&mut self, cells: &BTreeMap<i64, (u32, V)>, off: i64, ty: &Ty) -> V {
        let size = ty.size() as i64;
        if let Some(&(s, v)) = cells.get(&off) { if s as i64 == size { return self.conv_bits(v, ty) } }
        // assemble from bytes
        let mut r: u128 = 0;
        for i in 0..size {
            match cells.range(..=off + i).next_back() {
                Some((&k, &(s, v))) if k + s as i64 > off + i => match self.d.as_const(v) {
                    Some(c) => r |= (((c >> ((off + i - k) * 8)) & 255) as u128) << (8 * i),
                    None => if let N::Opq(n, _) = self.d.get(v) { if &**n != "zero" { return self.d.undef } } else { return self.d.undef },
                },
                _ => return self.d.undef,
            }
        }
        let v = self.d.int(r as i128);
        self.conv_bits(v, ty)
    }
    fn conv_bits(&mut self, v: V, ty: &Ty) -> V {
        if let Some(c) = self.d.as_const(v) {
            match ty {
                Ty::F64 => return self.d.mk(N::FConst(c as u64)),
                Ty::F32 => return self.d.fconst(f32::from_bits(c as u32) as f64),
                _ => {}
            }
        }
        if let N::Opq(n, _) = self.d.get(v) { if &**n == "zero" { return self.zero_of(ty) } }
        self.conv(v, ty)
    }
    fn flatten(&mut self, ty: &Ty, o: &Op, off: i64, cells: &mut BTreeMap<i64, (u32, V)>) {
        match (ty, o) {
            (_, Op::Agg(xs)) => {
                let whole = ty.clone();
                for (i, (t, x)) in xs.iter().enumerate() { let (fo, _) = whole.field(i); self.flatten(t, x, off + fo as i64, cells) }
            }
            (_, Op::Bytes(b)) => for (i, x) in b.iter().enumerate() { let v = self.d.int(*x as i128); cells.insert(off + i as i64, (1, v)); },
            (_, Op::Zero) => { let z = self.opq("zero", &[]); if ty.size() > 0 { cells.insert(off, (ty.size() as u32, z)); } }
            (_, Op::Undef) => {}
            (Ty::F64, Op::F(b)) => { let v = self.d.mk(N::FConst(*b)); cells.insert(off, (8, v)); }
            _ => { let v = self.op(o, ty, &[]); cells.insert(off, (ty.size() as u32, v)); }
        }
    }
    fn put(&mut self, data: &mut ObjData, off: i64, size: u32, v: V) {
        // remove or split overlapped cells
        let start = data.cells.range(..off).next_back().and_then(|(k, c)| if *k + c.0 as i64 > off { Some(*k) } else { None }).unwrap_or(off);
        let hit: Vec<i64> = data.cells.range(start..off + size as i64).map(|(k, _)| *k).collect();
        for k in hit {
            let (s, old) = data.cells.remove(&k).unwrap();
            let e = k + s as i64;
            if k < off { let l = (off - k) as u32; let y = self.slice_val(old, s, 0, l, None); self.put_raw(data, k, l, y); }
            if e > off + size as i64 { let l = (e - off - size as i64) as u32; let y = self.slice_val(old, s, s - l, l, None); self.put_raw(data, off + size as i64, l, y); }
        }
        self.put_raw(data, off, size, v);
    }
    fn put_raw(&mut self, data: &mut ObjData, off: i64, size: u32, v: V) {
        if let N::Chunk(c) = self.d.get(v).clone() {
            for &(o, s, x) in c.iter() { self.put_raw(data, off + o as i64, s, x) }
            return;
        }
        if size > 0 && v != self.d.undef { data.cells.insert(off, (size, v)); }
    }
    pub fn store(&mut self, st: &mut St, ptr: V, ty: &Ty, v: V) {
        if let N::Agg(xs) = self.d.get(v).clone() {
            for (i, &x) in xs.iter().enumerate() { let (o, t) = ty.field(i); let t = t.clone(); let p = self.gep_const(ptr, o as i128); self.store(st, p, &t, x); }
            return;
        }
        let v = if matches!(ty, Ty::I(1)) { self.of_bool(v) } else { v };
        let t = self.d.t;
        self.store_sz(st, ptr, ty.size() as u32, v, t);
    }
    fn store_sz(&mut self, st: &mut St, ptr: V, size: u32, v: V, gate: V) {
        match self.d.get(ptr).clone() {
            N::Ite(c, a, b) => {
                let nc = self.d.not(c);
                let g1 = self.d.and2(gate, c);
                let g2 = self.d.and2(gate, nc);
                self.store_sz(st, a, size, v, g1);
                self.store_sz(st, b, size, v, g2);
            }
            N::Ptr(o, off) => match self.d.objs[o as usize].0.clone() {
                OK::Local { .. } => {
                    let off = { let n = self.p.norm(self.d, off, st.path); if self.d.as_const(n).is_some() { n } else { off } };
                    let tree = match self.as_tree(off) { Some(t) => Some(t), None => { let r = self.p.resolve(self.d, off, st.path); self.as_tree(r) } };
                    match tree {
                        Some(t) => self.store_tree(st, o, t, size, v, gate),
                        None => {
                            // unknown offset: every cell may change
                            let n = self.p.norm(self.d, off, st.path);
                            let mut data = st.mem.get(&o).map(|x| (**x).clone()).unwrap_or_default();
                            let same = data.cells.values().all(|c| c.0 == size) && data.cells.len() <= 64;
                            if !same { self.problem(format!("store at unknown offset {}", self.d.show(off))) }
                            for (k, c) in data.cells.iter_mut() {
                                let dd = self.d.addc(n, -(*k as i128));
                                let e = self.d.eq0(dd);
                                let g = self.d.and2(gate, e);
                                c.1 = if same { self.d.ite(g, v, c.1) } else { self.d.mk(N::Opq("?clobbered".into(), vec![c.1, off].into())) };
                            }
                            st.mem.insert(o, Rc::new(data));
                        }
                    }
                }
                OK::Out { .. } | OK::Heap { .. } => {
                    let mut data = st.mem.get(&o).map(|x| (**x).clone()).unwrap_or_default();
                    if let N::Chunk(cs) = self.d.get(v).clone() {
                        for &(k, s, x) in cs.iter() { let p = self.d.addc(off, k as i128); data.log.push(Write { gate, w: W::At { off: p, size: s, val: x } }); }
                    } else {
                        data.log.push(Write { gate, w: W::At { off, size, val: v } });
                    }
                    st.mem.insert(o, Rc::new(data));
                }
                k => { let nm = self.d.objs[o as usize].1.clone(); let _ = k; self.problem(format!("store into read-only memory {nm}")) }
            },
            N::Undef | N::Null => {}
            _ => { let s = self.d.show(ptr); self.problem(format!("store through unknown pointer {s}")) }
        }
    }
    fn store_tree(&mut self, st: &mut St, o: Obj, t: V, size: u32, v: V, gate: V) {
        if let N::Ite(c, a, b) = *self.d.get(t) {
            let nc = self.d.not(c);
            let g1 = self.d.and2(gate, c);
            let g2 = self.d.and2(gate, nc);
            self.store_tree(st, o, a, size, v, g1);
            self.store_tree(st, o, b, size, v, g2);
            return;
        }
        let off = self.d.as_const(t).unwrap() as i64;
        let mut data = match st.mem.get_mut(&o) { Some(x) => std::mem::take(Rc::make_mut(x)), None => ObjData::default() };
        let v = if gate == self.d.t { v } else {
            let old = data.cells.get(&off).filter(|c| c.0 == size).map(|c| c.1).unwrap_or(self.d.undef);
            let old = if matches!(self.d.get(old), N::Opq(n, _) if &**n == "zero") { self.zero_like(v) } else { old };
            self.d.ite(gate, v, old)
        };
        self.put(&mut data, off, size, v);
        st.mem.insert(o, Rc::new(data));
    }
    fn zero_like(&mut self, v: V) -> V { match self.d.kind(v) { Kind::F => self.d.fconst(0.0), Kind::P => self.d.null, Kind::B => self.d.f, _ => self.d.zero } }

    fn memcpy(&mut self, st: &mut St, dst: V, src: V, n: V) {
        let n = self.p.norm(self.d, n, st.path);
        let Some(len) = self.d.as_const(n) else {
            // whole-slice copies into an output
            if let (N::Ptr(o, off), N::Ptr(so, soff)) = (self.d.get(dst).clone(), self.d.get(src).clone()) {
                if let (OK::Out { elem, .. } | OK::Heap { elem, .. }, OK::Input { elem: e2, .. } | OK::Out { elem: e2, .. } | OK::Heap { elem: e2, .. }) = (self.d.objs[o as usize].0.clone(), self.d.objs[so as usize].0.clone()) {
                    let es = elem_size(elem);
                    if elem == e2 { if let Some(cnt) = self.d.div_exact(n, es) {
                        let nm = self.d.fresh_name("k");
                        let k = self.d.mk(N::ISym(nm, 0, 1 << 60));
                        let ke = self.d.scale(k, es);
                        let a = self.d.add(off, ke);
                        let b = self.d.add(soff, ke);
                        let sp = self.d.mk(N::Ptr(so, b));
                        let ty = if es == 8 { Ty::F64 } else if es == 4 { Ty::F32 } else { Ty::I(8) };
                        let (g0, g1) = (self.d.ge0(k), self.d.gt(cnt, k));
                        let mut s2 = st.clone();
                        s2.path = self.p.assume_all(self.d, st.path, &[g0, g1]);
                        let val = self.load(&s2, sp, &ty);
                        let mut data = st.mem.get(&o).map(|x| (**x).clone()).unwrap_or_default();
                        let w = self.mk_range(cnt, k, a, es as u32, val);
                        let t = self.d.t;
                        data.log.push(Write { gate: t, w });
                        st.mem.insert(o, Rc::new(data));
                        return;
                    } }
                }
                if let OK::Out { .. } | OK::Heap { .. } = self.d.objs[o as usize].0 {
                    let mut data = st.mem.get(&o).map(|x| (**x).clone()).unwrap_or_default();
                    let t = self.d.t;
                    data.log.push(Write { gate: t, w: W::Unknown("memcpy of unknown length".into()) });
                    st.mem.insert(o, Rc::new(data));
                    return;
                }
            }
            self.problem(format!("memcpy of unknown length {}", self.d.show(n)));
            return;
        };
        if len == 0 { return }
        // gather source cells
        let mut cells: Vec<(i64, u32, V)> = vec![];
        match self.d.get(src).clone() {
            N::Ptr(o, off) => match self.d.objs[o as usize].0.clone() {
                OK::Local { .. } => {
                    let off = self.p.norm(self.d, off, st.path);
                    let Some(c) = self.d.as_const(off) else { self.problem("memcpy from unknown offset".into()); return };
                    if let Some(data) = st.mem.get(&o) {
                        let c = c as i64;
                        let start = data.cells.range(..c).next_back().and_then(|(k, x)| if *k + x.0 as i64 > c { Some(*k) } else { None }).unwrap_or(c);
                        let hit: Vec<(i64, u32, V)> = data.cells.range(start..c + len as i64).map(|(k, x)| (*k, x.0, x.1)).collect();
                        for (k, s, v) in hit {
                            let (lo, hi) = (k.max(c), (k + s as i64).min(c + len as i64));
                            let y = self.slice_val(v, s, (lo - k) as u32, (hi - lo) as u32, None);
                            if y != self.d.undef { cells.push((lo - c, (hi - lo) as u32, y)); }
                        }
                    }
                }
                OK::Global(g, _) => {
                    let Some(c) = self.d.as_const(off) else { self.problem("memcpy from unknown offset".into()); return };
                    if let Some((gt, init)) = self.m.global_init(&g) {
                        let mut gc = BTreeMap::new();
                        self.flatten(&gt, &init, 0, &mut gc);
                        // byte arrays carry typed data: regroup in words
                        let c = c as i64;
                        if gc.values().all(|x| x.0 == 1) && len % 8 == 0 {
                            for i in 0..len as i64 / 8 { let v = self.read_global(&gc, c + 8 * i, &Ty::I(64)); cells.push((8 * i, 8, v)); }
                        } else {
                            for (k, x) in gc.range(c..c + len as i64) { cells.push((*k - c, x.0, x.1)); }
                        }
                    }
                }
                OK::Input { elem, .. } | OK::Out { elem, .. } | OK::Heap { elem, .. } => {
                    let es = if matches!(elem, 's' | 't') { 8 } else { elem_size(elem) };
                    let ty = match elem { 'f' => Ty::F64, 'g' => Ty::F32, 'u' => Ty::I(64), 'b' => Ty::I(8), _ => Ty::Ptr };
                    let mut k = 0;
                    while k < len {
                        let p = self.gep_const(src, k);
                        let t = if matches!(elem, 's' | 't') { let ts = self.d.terms(off); let c: i128 = ts.iter().filter(|t| t.0.is_empty()).map(|t| t.1).sum(); if (c + k) % 16 == 8 { Ty::I(64) } else { Ty::Ptr } } else { ty.clone() };
                        let v = self.load(st, p, &t);
                        cells.push((k as i64, es as u32, v));
                        k += es;
                    }
                }
            },
            N::Ite(c, a, b) => {
                // copy from a chosen source: read both as aggregates of equal cells
                let (o1, o2) = (self.d.named_obj("<cp1>", OK::Local { size: 0 }), self.d.named_obj("<cp2>", OK::Local { size: 0 }));
                let z = self.d.zero;
                let (p1, p2) = (self.d.mk(N::Ptr(o1, z)), self.d.mk(N::Ptr(o2, z)));
                let mut s2 = st.clone();
                s2.mem.remove(&o1);
                s2.mem.remove(&o2);
                self.memcpy(&mut s2, p1, a, n);
                self.memcpy(&mut s2, p2, b, n);
                let (x, y) = (s2.mem.get(&o1).cloned().unwrap_or_default(), s2.mem.get(&o2).cloned().unwrap_or_default());
                let m = self.merge_obj(&x, &y, c, st.path, st.path);
                for (k, v) in m.cells { cells.push((k, v.0, v.1)); }
            }
            N::Undef => return,
            _ => { self.problem("memcpy from unknown pointer".into()); return }
        }
        let dst_leaves = dst;
        let t = self.d.t;
        if let N::Ptr(o, off) = *self.d.get(dst_leaves) {
            if let OK::Local { .. } = self.d.objs[o as usize].0 {
                let off = self.p.norm(self.d, off, st.path);
                if let Some(c) = self.d.as_const(off) {
                    let mut data = st.mem.get(&o).map(|x| (**x).clone()).unwrap_or_default();
                    // clear the destination range first (padding)
                    let u = self.d.undef;
                    self.put(&mut data, c as i64, len as u32, u);
                    data.cells.remove(&(c as i64));
                    for (k, s, v) in cells { self.put(&mut data, c as i64 + k, s, v); }
                    st.mem.insert(o, Rc::new(data));
                    return;
                }
            }
        }
        for (k, s, v) in cells { let p = self.gep_const(dst, k as i128); self.store_sz(st, p, s, v, t); }
    }
    fn memset(&mut self, st: &mut St, dst: V, byte: V, n: V) {
        let n = self.p.norm(self.d, n, st.path);
        let len = self.d.as_const(n);
        let zero = self.d.as_const(byte) == Some(0);
        match (self.d.get(dst).clone(), len) {
            (N::Ptr(o, off), Some(len)) if matches!(self.d.objs[o as usize].0, OK::Local { .. }) && self.d.as_const(off).is_some() => {
                if len == 0 { return }
                let c = self.d.as_const(off).unwrap() as i64;
                let mut data = st.mem.get(&o).map(|x| (**x).clone()).unwrap_or_default();
                if zero { let z = self.opq("zero", &[]); self.put(&mut data, c, len as u32, z); }
                else { for i in 0..len as i64 { self.put(&mut data, c + i, 1, byte); } }
                st.mem.insert(o, Rc::new(data));
            }
            (N::Ptr(o, off), l) if matches!(self.d.objs[o as usize].0, OK::Out { .. } | OK::Heap { .. }) => {
                let elem = match &self.d.objs[o as usize].0 { OK::Out { elem, .. } | OK::Heap { elem, .. } => *elem, _ => 'b' };
                let es = elem_size(elem);
                let mut data = st.mem.get(&o).map(|x| (**x).clone()).unwrap_or_default();
                let t = self.d.t;
                let _ = l;
                match self.d.div_exact(n, es) {
                    Some(cnt) if zero || es == 1 => {
                        let nm = self.d.fresh_name("k");
                        let k = self.d.mk(N::ISym(nm, 0, 1 << 60));
                        let ke = self.d.scale(k, es);
                        let a = self.d.add(off, ke);
                        let val = if es == 1 { byte } else { self.d.fconst(0.0) };
                        let w = self.mk_range(cnt, k, a, es as u32, val);
                        data.log.push(Write { gate: t, w });
                    }
                    _ => data.log.push(Write { gate: t, w: W::Unknown("memset".into()) }),
                }
                st.mem.insert(o, Rc::new(data));
            }
            _ => self.problem("memset of unknown extent".into()),
        }
    }
    /// an element-wise write of `n` elements, written with loop variable `k`
    pub fn mk_range(&mut self, n: V, k: V, off: V, size: u32, val: V) -> W {
        let t = self.d.t;
        self.mk_range_g(n, k, off, size, val, t)
    }
    pub fn mk_range_g(&mut self, n: V, k: V, off: V, size: u32, val: V, gate: V) -> W {
        let dep = self.d.bdepth(val).max(self.d.bdepth(off)).max(self.d.bdepth(gate)) + 1;
        let b = self.d.mk(N::Bound(dep));
        let off = self.d.subst(off, &[(k, b)]);
        let val = self.d.subst(val, &[(k, b)]);
        let gate = self.d.subst(gate, &[(k, b)]);
        W::Range { n, var: b, off, size, val, gate }
    }

    // ------------------------------------------------------------ joins
    /// value selected by a gate; integers are compared under the facts of both sides first
    fn select(&mut self, c: V, a: V, b: V, pa: Fid, pb: Fid) -> V {
        if a == b || a == self.d.undef || b == self.d.undef { return self.d.ite(c, a, b) }
        if let (N::Ptr(o, x), N::Ptr(p, y)) = (self.d.get(a).clone(), self.d.get(b).clone()) {
            if o == p { let z = self.select(c, x, y, pa, pb); return self.d.mk(N::Ptr(o, z)) }
        }
        let r = self.d.ite(c, a, b);
        if self.d.kind(a) != Kind::I || self.d.kind(b) != Kind::I || !matches!(self.d.get(r), N::Ite(..)) { return r }
        if self.d.as_const(a).is_some() && self.d.as_const(b).is_some() { return r }
        if let Some(&m) = self.smemo.get(&(a, b, pa, pb)) { return m.unwrap_or(r) }
        let (ab, ba) = (self.d.sub_(a, b), self.d.sub_(b, a));
        let (a1, a2) = (self.p.prove(self.d, ab, pa), self.p.prove(self.d, ba, pa)); // a >= b, b >= a on side a
        let m = if a1 && a2 { Some(b) } else {
            let b1 = if a1 || !a2 { self.p.prove(self.d, ba, pb) } else { false }; // b >= a on side b
            let b2 = if a2 || b1 || !a1 { self.p.prove(self.d, ab, pb) } else { false };
            if b1 && b2 { Some(a) }
            else if a1 && b1 { Some(self.d.max(a, b)) }
            else if a2 && b2 { Some(self.d.min(a, b)) }
            else { None }
        };
        if std::env::var("DBGS").is_ok() { eprintln!("SELECT {} | {} -> {:?} a1 {a1} a2 {a2}", self.d.show(a), self.d.show(b), m.map(|m| self.d.show(m))); }
        self.smemo.insert((a, b, pa, pb), m);
        m.unwrap_or(r)
    }
    fn merge_obj(&mut self, a: &ObjData, b: &ObjData, c: V, pa: Fid, pb: Fid) -> ObjData {
        let mut r = ObjData::default();
        if a.cells == b.cells { r.cells = a.cells.clone() } else {
            let (mut x, mut y) = (a.clone(), b.clone());
            // split zero fill so that boundaries agree
            for _ in 0..2 {
                let ks: Vec<(i64, u32)> = y.cells.iter().map(|(k, c)| (*k, c.0)).collect();
                self.align_zero(&mut x, &ks);
                std::mem::swap(&mut x, &mut y);
            }
            let mut keys: Vec<i64> = x.cells.keys().chain(y.cells.keys()).copied().collect();
            keys.sort();
            keys.dedup();
            // regions laid out differently by the two sides (variants of an enum)
            let mut clusters: Vec<(i64, i64)> = vec![];
            let mut all: Vec<(i64, i64)> = x.cells.iter().chain(y.cells.iter()).map(|(k, c)| (*k, *k + c.0 as i64)).collect();
            all.sort();
            let mut i = 0;
            while i < all.len() {
                let (lo, mut hi) = all[i];
                let mut j = i;
                let mut differ = false;
                while j < all.len() && all[j].0 < hi { if all[j] != (lo, hi) { differ = true } hi = hi.max(all[j].1); j += 1 }
                if differ { clusters.push((lo, hi)) }
                i = j;
            }
            for k in keys {
                if clusters.iter().any(|c| c.0 <= k && k < c.1) { continue }
                match (x.cells.get(&k).copied(), y.cells.get(&k).copied()) {
                    (Some((s, v)), Some((t, w))) if s == t => {
                        let z = |d: &Dom, v: V| matches!(d.get(v), N::Opq(n, _) if &**n == "zero");
                        let (v2, w2) = if v == w { (v, w) } else if z(self.d, v) { (self.zero_like(w), w) } else if z(self.d, w) { (v, self.zero_like(v)) } else { (v, w) };
                        let m = self.select(c, v2, w2, pa, pb);
                        r.cells.insert(k, (s, m));
                    }
                    (Some((s, v)), None) => { r.cells.insert(k, (s, v)); }
                    (None, Some((s, v))) => { r.cells.insert(k, (s, v)); }
                    _ => {}
                }
            }
            for (lo, hi) in clusters {
                let grab = |m: &BTreeMap<i64, (u32, V)>| -> Vec<(u32, u32, V)> { m.range(lo..hi).map(|(k, c)| ((*k - lo) as u32, c.0, c.1)).collect() };
                let (p, q) = (grab(&x.cells), grab(&y.cells));
                let p = self.d.mk(N::Chunk(p.into()));
                let q = self.d.mk(N::Chunk(q.into()));
                let v = self.d.ite(c, p, q);
                r.cells.insert(lo, ((hi - lo) as u32, v));
            }
        }
        let mut i = 0;
        while i < a.log.len() && i < b.log.len() && a.log[i] == b.log[i] { r.log.push(a.log[i].clone()); i += 1 }
        for w in &a.log[i..] { let g = self.d.and2(w.gate, c); r.log.push(Write { gate: g, w: w.w.clone() }) }
        let nc = self.d.not(c);
        for w in &b.log[i..] { let g = self.d.and2(w.gate, nc); r.log.push(Write { gate: g, w: w.w.clone() }) }
        r
    }
    fn align_zero(&mut self, x: &mut ObjData, ks: &[(i64, u32)]) {
        for &(k, s) in ks {
            if x.cells.get(&k).map_or(false, |c| c.0 == s) { continue }
            if let Some((&a, &(z, v))) = x.cells.range(..=k).next_back() {
                let e = a + z as i64;
                if e >= k + s as i64 && matches!(self.d.get(v), N::Opq(n, _) if &**n == "zero") {
                    x.cells.remove(&a);
                    if a < k { x.cells.insert(a, ((k - a) as u32, v)); }
                    x.cells.insert(k, (s, v));
                    if e > k + s as i64 { x.cells.insert(k + s as i64, ((e - k - s as i64) as u32, v)); }
                }
            }
        }
    }
    fn merge(&mut self, f: &Func, a: Out, b: Out) -> Out {
        self.joins += 1;
        let (ca, cb) = (self.p.chain(a.st.path), self.p.chain(b.st.path));
        let mut i = 0;
        while i < ca.len() && i < cb.len() && ca[i] == cb[i] { i += 1 }
        let base = if i == 0 { 0 } else { ca[i - 1] };
        let lit = |s: &Self, x: Fid| { let q = &s.p.facts[x as usize]; (q.lit, q.assumed) };
        let la: Vec<(V, bool)> = ca[i..].iter().map(|&x| lit(self, x)).collect();
        let lb: Vec<(V, bool)> = cb[i..].iter().map(|&x| lit(self, x)).collect();
        let ba: Vec<V> = la.iter().filter(|x| !x.1).map(|x| x.0).collect();
        let bb: Vec<V> = lb.iter().filter(|x| !x.1).map(|x| x.0).collect();
        let gate = {
            let first = match (ba.first(), bb.first()) { (Some(&x), Some(&y)) => { let n = self.d.not(x); if n == y { Some(x) } else { None } } _ => None };
            let first = first.or_else(|| ba.iter().copied().find(|&x| { let n = self.d.not(x); bb.contains(&n) }));
            let (fa, fb) = (a.st.path, b.st.path);
            let first = first.or_else(|| if ba.len() > 1 || bb.len() > 1 { ba.iter().take(4).copied().find(|&x| self.p.decide(self.d, x, fb) == Some(false)) } else { None });
            let first = first.or_else(|| if ba.len() > 1 || bb.len() > 1 { bb.iter().take(4).copied().find(|&x| self.p.decide(self.d, x, fa) == Some(false)).map(|y| self.d.not(y)) } else { None });
            match first {
                Some(g) => g,
                None => {
                    if !ba.is_empty() { self.d.and(ba.clone()) } else if !bb.is_empty() { let g = self.d.and(bb.clone()); self.d.not(g) } else { self.d.t }
                }
            }
        };
        let mut path = base;
        let common: Vec<(V, bool)> = la.iter().filter(|x| lb.iter().any(|y| y.0 == x.0)).copied().collect();
        for (l, s) in &common { path = self.p.assume(self.d, path, *l, *s); }
        let ea: Vec<V> = la.iter().filter(|x| !common.iter().any(|y| y.0 == x.0)).map(|x| x.0).collect();
        let eb: Vec<V> = lb.iter().filter(|x| !common.iter().any(|y| y.0 == x.0)).map(|x| x.0).collect();
        if !ea.is_empty() && !eb.is_empty() {
            let x = self.d.and(ea.clone());
            let y = self.d.and(eb.clone());
            let o = self.d.or2(x, y);
            let asm = la.iter().chain(lb.iter()).filter(|x| !common.iter().any(|y| y.0 == x.0)).filter(|x| x.0 != gate && { let n = self.d.not(gate); x.0 != n }).all(|x| x.1);
            path = self.p.assume(self.d, path, o, asm);
        }
        let mut mem: Mem = HashMap::default();
        let (pa, pb) = (a.st.path, b.st.path);
        for (o, x) in a.st.mem.iter() {
            match b.st.mem.get(o) {
                Some(y) if Rc::ptr_eq(x, y) || x == y => { mem.insert(*o, x.clone()); }
                Some(y) => { let m = self.merge_obj(x, y, gate, pa, pb); mem.insert(*o, Rc::new(m)); }
                None => { let e = ObjData::default(); let m = self.merge_obj(x, &e, gate, pa, pb); mem.insert(*o, Rc::new(m)); }
            }
        }
        for (o, y) in b.st.mem.iter() { if !a.st.mem.contains_key(o) { let e = ObjData::default(); let m = self.merge_obj(&e, y, gate, pa, pb); mem.insert(*o, Rc::new(m)); } }
        let mut regs = a.regs;
        if let Dest::Stop(blk) = a.dest {
            for (ins, _) in &f.blocks[blk as usize].ins {
                if let Ins::Phi { dst, .. } = ins { regs[*dst as usize] = self.select(gate, regs[*dst as usize], b.regs[*dst as usize], pa, pb) } else { break }
            }
        }
        let ret = self.select(gate, a.ret, b.ret, pa, pb);
        Out { dest: a.dest, st: St { mem, path }, regs, ret }
    }
    fn merge_into(&mut self, f: &Func, acc: &mut Vec<Out>, o: Out) {
        if let Some(i) = acc.iter().position(|x| x.dest == o.dest) {
            let a = acc.remove(i);
            let m = self.merge(f, a, o);
            acc.push(m);
        } else { acc.push(o) }
    }

    // ------------------------------------------------------------ control
    fn phis(&mut self, f: &Func, b: u32, prev: u32, regs: &mut [V]) {
        let mut new = vec![];
        for (ins, _) in &f.blocks[b as usize].ins {
            let Ins::Phi { dst, ty, inc } = ins else { break };
            if let Some((o, _)) = inc.iter().find(|x| x.1 == prev) { new.push((*dst, self.op(o, ty, regs))) }
        }
        for (r, v) in new { regs[r as usize] = v }
    }
    /// transfer of control along an edge
    fn goto(&mut self, f: &Rc<Func>, b: u32, prev: u32, mut regs: Vec<V>, st: St, stops: &[u32], mut trk: Vec<Tracker>) -> Result<Vec<Out>, Abort> {
        self.phis(f, b, prev, &mut regs);
        if stops.contains(&b) { let u = self.d.undef; return Ok(vec![Out { dest: Dest::Stop(b), st, regs, ret: u }]) }
        if let Some(lid) = f.loop_of[b as usize] {
            let lid = lid as usize;
            let inside = f.loops[lid][prev as usize];
            let at = trk.iter().rposition(|t| t.header == b);
            if inside && at.is_some() {
                let py = self.opaque.contains_key("@py");
                let t = &mut trk[at.unwrap()];
                if (t.und && ((!t.dec && !(py && t.iters < 12)) || t.iters >= if py { 12 } else if t.first == 2 { 2 } else { 10 })) || t.iters > 20000 { return Err(Abort(t.tok)) }
                t.iters += 1;
                t.dec = false;
                t.und = false;
                t.first = 0;
                trk.truncate(at.unwrap() + 1);
            } else {
                if let Some(i) = at { trk.remove(i); }
                self.tok += 1;
                let tok = self.tok;
                let mut t2 = trk.clone();
                t2.push(Tracker { header: b, lid, tok, iters: 0, dec: false, und: false, first: 0 });
                let (np, nq) = (self.panics.len(), self.problems.len());
                let depth = self.stack.len();
                match self.run(f, b, regs.clone(), st.clone(), stops, t2) {
                    Err(Abort(t)) if t == tok => {
                        self.panics.truncate(np);
                        self.problems.truncate(nq);
                        self.stack.truncate(depth);
                        return self.sym_loop(f, b, lid, regs, st, stops, trk);
                    }
                    r => return r,
                }
            }
        }
        self.run(f, b, regs, st, stops, trk)
    }
    fn run(&mut self, f: &Rc<Func>, mut b: u32, mut regs: Vec<V>, mut st: St, stops: &[u32], mut trk: Vec<Tracker>) -> Result<Vec<Out>, Abort> {
        let mut acc: Vec<Out> = vec![];
        'block: loop {
            let blk = &f.blocks[b as usize];
            for (ins, dbg) in &blk.ins {
                self.steps += 1;
                if self.steps > self.step_limit { self.problem("step limit".into()); return Ok(acc) }
                if *dbg != 0 { if let Some(l) = self.stack.last_mut() { l.1 = *dbg } }
                match ins {
                    Ins::Br(t) => {
                        let t = *t;
                        // plain jump: stay in this activation unless something special happens
                        if stops.contains(&t) || f.loop_of[t as usize].is_some() {
                            let outs = self.goto(f, t, b, regs, st, stops, trk)?;
                            for o in outs { self.merge_into(f, &mut acc, o) }
                            return Ok(acc);
                        }
                        self.phis(f, t, b, &mut regs);
                        b = t;
                        continue 'block;
                    }
                    Ins::CondBr(c, x, y) => {
                        let mut c = self.op(c, &Ty::I(1), &regs);
                        if matches!(self.d.get(c), N::And(xs) | N::Or(xs) if xs.len() <= 6) { c = self.simp(c, st.path) }
                        let cases = vec![(c, *x)];
                        match self.branch(f, b, cases, *y, regs, st, stops, trk, &mut acc)? {
                            Some((nb, r, s, t)) => { b = nb; regs = r; st = s; trk = t; continue 'block }
                            None => return Ok(acc),
                        }
                    }
                    Ins::Switch(ty, o, def, cs) => {
                        let v = self.op(o, ty, &regs);
                        let w = if let Ty::I(w) = ty { *w } else { 64 };
                        let mut cases: Vec<(V, u32)> = vec![];
                        if w == 1 || self.d.kind(v) == Kind::B {
                            for (k, t) in cs { let c = if k & 1 != 0 { v } else { self.d.not(v) }; cases.push((c, *t)) }
                        } else if let N::Chunk(_) = self.d.get(v) {
                            self.problem("switch on aggregate".into());
                            return Ok(acc);
                        } else {
                            let v = self.uview(v, w, st.path);
                            for (k, t) in cs {
                                let k = k.rem_euclid(pow2(w));
                                let c = if matches!(self.d.get(v), N::Ite(..)) && self.leaves_const(v) { self.d.map_leaves(v, &mut |d, x| { let c = d.as_const(x) == Some(k); d.bool(c) }) } else { let e = self.d.addc(v, -k); self.d.eq0(e) };
                                if let Some(x) = cases.iter_mut().find(|x| x.1 == *t) { x.0 = self.d.or2(x.0, c) } else { cases.push((c, *t)) }
                            }
                        }
                        match self.branch(f, b, cases, *def, regs, st, stops, trk, &mut acc)? {
                            Some((nb, r, s, t)) => { b = nb; regs = r; st = s; trk = t; continue 'block }
                            None => return Ok(acc),
                        }
                    }
                    Ins::Ret(v) => {
                        let ret = match v { Some((t, o)) => self.op(o, t, &regs), None => self.d.undef };
                        let o = Out { dest: Dest::Ret, st, regs: vec![], ret };
                        self.merge_into(f, &mut acc, o);
                        return Ok(acc);
                    }
                    Ins::Unreachable => return Ok(acc),
                    Ins::Phi { .. } => {}
                    _ => if !self.step(f, ins, &mut regs, &mut st) { return Ok(acc) },
                }
            }
            self.problem("block without terminator".into());
            return Ok(acc);
        }
    }
    /// multi-way branch; returns the continuation when control re-joins inside this activation
    #[allow(clippy::type_complexity)]
    fn branch(&mut self, f: &Rc<Func>, b: u32, cases: Vec<(V, u32)>, def: u32, regs: Vec<V>, st: St, stops: &[u32], trk: Vec<Tracker>, acc: &mut Vec<Out>) -> Result<Option<(u32, Vec<V>, St, Vec<Tracker>)>, Abort> {
        // decided?
        let mut open: Vec<(V, u32)> = vec![];
        let mut path = st.path;
        let mut target: Option<u32> = None;
        for (c, t) in cases {
            if c == self.d.undef { continue }
            match self.p.decide(self.d, c, path) {
                Some(true) => { target = Some(t); break }
                Some(false) => {}
                None => { open.push((c, t)); let n = self.d.not(c); path = self.p.assume(self.d, path, n, false); }
            }
        }
        let last = target.unwrap_or(def);
        open.retain(|x| x.1 != last || !false);
        let mut trk = trk;
        if open.is_empty() {
            for t in trk.iter_mut() {
                let mem = &f.loops[t.lid];
                if mem[b as usize] && mem[last as usize] && f.succ[b as usize].iter().any(|&s| !mem[s as usize] && f.live[s as usize]) { t.dec = true; if t.first == 0 { t.first = 1 } }
            }
            if stops.contains(&last) || f.loop_of[last as usize].is_some() {
                for o in self.goto(f, last, b, regs, st, stops, trk)? { self.merge_into(f, acc, o) }
                return Ok(None);
            }
            let mut regs = regs;
            self.phis(f, last, b, &mut regs);
            return Ok(Some((last, regs, st, trk)));
        }
        for t in trk.iter_mut() {
            let mem = &f.loops[t.lid];
            if mem[b as usize] && open.iter().map(|x| x.1).chain([last]).any(|s| !mem[s as usize] && f.live[s as usize]) { t.und = true; if t.first == 0 { t.first = 2 } }
        }
        let p = f.ipdom[b as usize];
        let mut stops2 = stops.to_vec();
        if let Some(p) = p { if !stops2.contains(&p) { stops2.push(p) } }
        let mut outs: Vec<Out> = vec![];
        let base = st.path;
        let mut path = base;
        let n = open.len();
        let mut dead: Vec<V> = vec![]; // conditions of sides that never come back
        for i in 0..=n {
            let (target, lits): (u32, Vec<V>) = if i < n { (open[i].1, vec![open[i].0]) } else { (last, vec![]) };
            let mut q = path;
            let is_dead_side = !f.live[target as usize];
            for l in &lits { q = self.p.assume(self.d, q, *l, is_dead_side) }
            if !self.p.bottom(q) {
                let s2 = St { mem: st.mem.clone(), path: q };
                let depth = self.stack.len();
                let dbg = self.stack.last().map(|x| x.1);
                let r = self.goto(f, target, b, regs.clone(), s2, &stops2, trk.clone())?;
                self.stack.truncate(depth);
                if let (Some(x), Some(l)) = (dbg, self.stack.last_mut()) { l.1 = x }
                if r.is_empty() && i < n { dead.push(lits[0]) }
                for o in r { self.merge_into(f, &mut outs, o) }
                if i < n {
                    let nl = self.d.not(lits[0]);
                    let died = dead.last() == Some(&lits[0]);
                    path = self.p.assume(self.d, path, nl, died);
                    if self.p.bottom(path) { break }
                }
            } else if i < n {
                let nl = self.d.not(lits[0]);
                path = self.p.assume(self.d, path, nl, true);
                if self.p.bottom(path) { break }
            }
        }
        let mut cont = None;
        for o in outs {
            if let (Dest::Stop(s), Some(p)) = (o.dest, p) { if s == p && !stops.contains(&p) { cont = Some(o); continue } }
            self.merge_into(f, acc, o);
        }
        if let Some(o) = cont {
            let p = p.unwrap();
            // joined block may itself be a loop header: enter it as from outside
            if f.loop_of[p as usize].is_some() {
                for x in self.goto_nophi(f, p, b, o.regs, o.st, stops, trk)? { self.merge_into(f, acc, x) }
                return Ok(None);
            }
            return Ok(Some((p, o.regs, o.st, trk)));
        }
        Ok(None)
    }
    fn goto_nophi(&mut self, f: &Rc<Func>, b: u32, prev: u32, regs: Vec<V>, st: St, stops: &[u32], trk: Vec<Tracker>) -> Result<Vec<Out>, Abort> {
        // phi values were already computed on the joined edges; recompute nothing
        let saved: Vec<(u32, V)> = f.blocks[b as usize].ins.iter().map_while(|(i, _)| if let Ins::Phi { dst, .. } = i { Some((*dst, regs[*dst as usize])) } else { None }).collect();
        if saved.is_empty() { return self.goto(f, b, prev, regs, st, stops, trk) }
        self.problem("joined loop header with phi".into());
        self.goto(f, b, prev, regs, st, stops, trk)
    }

    // ------------------------------------------------------------ loops with undecided trip count
    fn sym_loop(&mut self, f: &Rc<Func>, h: u32, lid: usize, regs0: Vec<V>, st0: St, stops: &[u32], trk: Vec<Tracker>) -> Result<Vec<Out>, Abort> {
        self.loops_summarised += 1;
        let kname = self.d.fresh_name("k");
        let k = self.d.mk(N::ISym(kname, 0, (1 << 63) - 1));
        #[derive(Clone, PartialEq, Debug)]
        enum Cell { Ind(V, i128), Havoc(V) }
        let mut cells: BTreeMap<(Obj, i64), (u32, Cell)> = BTreeMap::new();
        let mut phis: HashMap<u32, (V, Cell)> = HashMap::default();
        for (ins, _) in &f.blocks[h as usize].ins {
            let Ins::Phi { dst, .. } = ins else { break };
            phis.insert(*dst, (regs0[*dst as usize], Cell::Ind(regs0[*dst as usize], 0)));
        }
        let mem_blocks = &f.loops[lid];
        let mut stops2 = stops.to_vec();
        stops2.push(h);
        for bb in 0..f.blocks.len() { if mem_blocks[bb] { for &s in &f.succ[bb] { if !mem_blocks[s as usize] && f.live[s as usize] && !stops2.contains(&s) { stops2.push(s) } } } }
        let mut trip: Option<V> = None;
        let (np, nq) = (self.panics.len(), self.problems.len());
        let mut latch_vals: HashMap<(Obj, i64), V> = HashMap::default();
        let mut last: Option<(Vec<Out>, Fid)> = None;
        // inductive facts about the quantities the loop changes irregularly
        let mut invs: Vec<(V, V)> = vec![]; // literal over header values, its instance before the loop
        let mut inv_for: Vec<V> = vec![];
        let mut ranked = false;
        let logs0: HashMap<Obj, usize> = st0.mem.iter().map(|(o, d)| (*o, d.log.len())).collect();
        const ROUNDS: usize = 30;
        for round in 0..ROUNDS {
            self.panics.truncate(np);
            self.problems.truncate(nq);
            let mut st = st0.clone();
            for ((o, off), (s, c)) in &cells {
                let v = match c { Cell::Ind(i, s) => self.ind(*i, *s, k), Cell::Havoc(v) => *v };
                let mut data = (**st.mem.get(o).unwrap()).clone();
                self.put(&mut data, *off, *s, v);
                st.mem.insert(*o, Rc::new(data));
            }
            let mut regs = regs0.clone();
            for (r, (_, c)) in &phis { regs[*r as usize] = match c { Cell::Ind(i, s) => self.ind(*i, *s, k), Cell::Havoc(v) => *v } }
            if let Some(t) = trip { let g = self.d.ge(t, k); st.path = self.p.assume(self.d, st.path, g, true); }
            for (l, _) in &invs { st.path = self.p.assume(self.d, st.path, *l, true) }
            let base = st.path;
            let hdr = st.clone();
            let outs = self.run(f, h, regs.clone(), st, &stops2, vec![])?;
            // latch
            let mut changed = false;
            latch_vals.clear();
            if let Some(l) = outs.iter().find(|o| o.dest == Dest::Stop(h)) {
                for (o, data) in l.st.mem.iter() {
                    let Some(old) = hdr.mem.get(o) else { continue };
                    if Rc::ptr_eq(old, data) { continue }
                    if !matches!(self.d.objs[*o as usize].0, OK::Local { .. }) { continue }
                    for (off, (s, v)) in &data.cells {
                        let ov = old.cells.get(off).filter(|c| c.0 == *s).map(|c| c.1);
                        let s = *s;
                        if ov == Some(*v) { continue }
                        let v = self.latch_val(*v, l.st.path);
                        let key = (*o, *off);
                        if ov == Some(v) { continue }
                        if let Some(x) = ov { if self.latch_val(x, l.st.path) == v { continue } }
                        latch_vals.insert(key, v);
                        if std::env::var("DBG").is_ok() { eprintln!("round {round} {key:?} header {} latch {}", ov.map_or("-".into(), |x| self.d.show(x)), self.d.show(v)) }
                        let init = st0.mem.get(o).and_then(|x| x.cells.get(off)).filter(|c| c.0 == s).map(|c| c.1).unwrap_or(self.d.undef);
                        match cells.get(&key).cloned() {
                            None => {
                                let c = self.classify(init, v, k);
                                cells.insert(key, (s, c.map_or_else(|| Cell::Havoc(0), |st| Cell::Ind(init, st))));
                                if let (_, Cell::Havoc(_)) = cells[&key] { let hv = self.havoc(init, v, *o, *off); cells.insert(key, (s, Cell::Havoc(hv))); }
                                changed = true;
                            }
                            Some((_, Cell::Ind(i, step))) => {
                                let cur = self.ind(i, step, k);
                                let ok = match self.delta(cur, v) { Some(x) => x == step, None => false };
                                if !ok { let hv = self.havoc(init, v, *o, *off); cells.insert(key, (s, Cell::Havoc(hv))); changed = true }
                            }
                            Some((_, Cell::Havoc(_))) => {}
                        }
                    }
                }
                for (r, (init, c)) in phis.clone() {
                    let v = l.regs[r as usize];
                    if let Cell::Ind(i, 0) = c { if i == v { continue } }
                    let v = self.latch_val(v, l.st.path);
                    if let Cell::Ind(i, step) = c {
                        let cur = self.ind(i, step, k);
                        match self.delta(cur, v) {
                            Some(x) if x == step => {}
                            Some(x) if step == 0 => { phis.insert(r, (init, Cell::Ind(i, x))); changed = true }
                            _ => { let hv = self.havoc(init, v, u32::MAX, r as i64); phis.insert(r, (init, Cell::Havoc(hv))); changed = true }
                        }
                    }
                }
            }
            // irregular integers: candidate bounds and orders, kept while the body preserves them
            if !changed {
                let hs = self.int_havocs(&cells.iter().map(|(k, (s, c))| (*k, *s, if let Cell::Havoc(v) = c { Some(*v) } else { None })).collect::<Vec<_>>(), &phis.iter().map(|(r, (i, c))| (*r, *i, if let Cell::Havoc(v) = c { Some(*v) } else { None })).collect::<Vec<_>>(), &st0);
                let ids: Vec<V> = hs.iter().map(|h| h.0).collect();
                if ids != inv_for && hs.len() <= 4 {
                    inv_for = ids;
                    invs = self.candidates(&hs, st0.path);
                    changed |= !invs.is_empty();
                } else if let Some(l) = outs.iter().find(|o| o.dest == Dest::Stop(h)) {
                    let lv: Vec<(V, V)> = hs.iter().map(|h| (h.0, match h.2 { Some(key) => latch_vals.get(&key).copied().unwrap_or(h.0), None => { let r = h.3.unwrap(); let v = l.regs[r as usize]; self.latch_val(v, l.st.path) } })).collect();
                    let path = l.st.path;
                    let n = invs.len();
                    let mut keep = vec![];
                    for (i, z) in invs.clone() { let j = self.d.subst(i, &lv); if self.holds(j, path, 0) { keep.push((i, z)) } }
                    invs = keep;
                    if std::env::var("DBG").is_ok() { for (i, _) in &invs { eprintln!("  inv {}", self.d.show(*i)) } }
                    changed |= invs.len() != n;
                    if !changed && trip.is_none() { ranked = self.ranking(&hs.iter().map(|h| h.0).collect::<Vec<_>>(), &lv, &invs.iter().map(|x| x.1).collect::<Vec<_>>(), base, path); }
                }
            }
            // trip count from an integer exit test of the induction variable
            if !changed {
                let nt = self.find_trip(&outs, base, h, k);
                if nt != trip && trip.is_none() { trip = nt; changed = true }
            }
            if !changed { last = Some((outs, base)); break }
            if round == ROUNDS - 1 { self.problem("loop summary did not stabilise".into()); last = Some((outs, base)); }
        }
        let (outs, base) = last.unwrap();
        let t = match trip { Some(t) => t, None if ranked => { let nm = self.d.fresh_name("trip"); self.d.mk(N::ISym(nm, 0, (1 << 63) - 1)) } None => { if std::env::var("DBG").is_ok() { for o in &outs { eprintln!("LOOP out {:?} base {}", o.dest, self.p.chain(base).len()); for l in self.p.lits(o.st.path) { eprintln!("    {}", self.d.show(l)) } } for (r, c) in &phis { eprintln!("  phi {r} {c:?}") } for (r, c) in &cells { eprintln!("  cell {r:?} {c:?}") } } self.problem("loop without a recognised bound".into()); let nm = self.d.fresh_name("trip"); self.d.mk(N::ISym(nm, 0, (1 << 63) - 1)) } };
        // exit condition at iteration k, other than the trip test
        let nbase = self.p.chain(base).len();
        let kt = self.d.sub_(t, k);
        let kt1 = self.d.addc(kt, -1);
        let stay = self.d.ge0(kt1); // k < t
        let mut early: Vec<V> = vec![];
        let mut exits: Vec<(Out, V)> = vec![];
        let mut latch: Option<Out> = None;
        let at_trip = self.p.assume(self.d, base, stay, true);
        let past = self.d.not(stay);
        let at_end = self.p.assume(self.d, base, past, true);
        let mut kinds: Vec<(bool, bool)> = vec![]; // (only before the trip count, only at it)
        for o in outs {
            if o.dest == Dest::Stop(h) { latch = Some(o); continue }
            let ch = self.p.chain(o.st.path);
            let lits: Vec<V> = ch[nbase.min(ch.len())..].iter().filter(|x| !self.p.facts[**x as usize].assumed).map(|x| self.p.facts[*x as usize].lit).collect();
            let c = self.d.and(lits);
            // under k < t
            let cs = self.simp(c, at_trip);
            if cs != self.d.f { early.push(cs) }
            let ce = self.simp(c, at_end);
            kinds.push((ce == self.d.f, cs == self.d.f));
            exits.push((o, c));
        }
        // header values of havocked cells in closed form
        let mut closed: Vec<(V, V)> = vec![];
        let havocs: Vec<V> = phis.values().filter_map(|(_, c)| if let Cell::Havoc(v) = c { Some(*v) } else { None }).chain(cells.values().filter_map(|(_, c)| if let Cell::Havoc(v) = c { Some(*v) } else { None })).collect();
        if let Some(l) = &latch { for (r, (init, c)) in &phis {
            let Cell::Havoc(hv) = c else { continue };
            let v = l.regs[*r as usize];
            let (hv, init, lp) = (*hv, *init, l.st.path);
            let lv = self.latch_val(v, lp);
            if let Some(v) = self.close(hv, lv, init, k, &havocs) { closed.push((self.havoc_atom(hv), v)) }
        } }
        for (key, (_, c)) in &cells {
            let Cell::Havoc(hv) = c else { continue };
            let Some(&lv) = latch_vals.get(key) else { continue };
            let init = st0.mem.get(&key.0).and_then(|x| x.cells.get(&key.1)).map(|c| c.1).unwrap_or(self.d.undef);
            if let Some(v) = self.close(*hv, lv, init, k, &havocs) { closed.push((self.havoc_atom(*hv), v)) }
        }
        let early_n = early.len();
        let e = self.d.or(early);
        let e = self.d.subst(e, &closed);
        let open: Vec<V> = havocs.iter().map(|&h| self.havoc_atom(h)).filter(|a| !closed.iter().any(|c| c.0 == *a)).collect();
        let irregular = !open.is_empty() && self.d.reach(&[e]).iter().any(|x| open.contains(x));
        let fk = if e == self.d.f { t } else if irregular { let nm = self.d.fresh_name("exit"); self.d.mk(N::ISym(nm, 0, (1 << 63) - 1)) } else { self.d.first_with(t, e, k) };
        // value of a bisection's bounds on exit
        let mut finals: Vec<(V, V)> = vec![];
        if irregular {
            let hs = self.int_havocs(&cells.iter().map(|(k, (s, c))| (*k, *s, if let Cell::Havoc(v) = c { Some(*v) } else { None })).collect::<Vec<_>>(), &phis.iter().map(|(r, (i, c))| (*r, *i, if let Cell::Havoc(v) = c { Some(*v) } else { None })).collect::<Vec<_>>(), &st0);
            if let Some(l) = &latch {
                let lv: Vec<(V, V, V)> = hs.iter().map(|h| (h.0, match h.2 { Some(key) => latch_vals.get(&key).copied().unwrap_or(h.0), None => { let r = h.3.unwrap(); let v = l.regs[r as usize]; self.latch_val(v, l.st.path) } }, h.1)).collect();
                let lp = l.st.path;
                let eps: Vec<Fid> = exits.iter().map(|x| x.0.st.path).collect();
                if let Some(v) = self.bisection(&lv, lp, &eps, st0.path, k) { finals = v }
            }
        }
        // header value as a function of k, then k := exit iteration
        let mut sub: Vec<(V, V)> = vec![];
        for (a, v) in &closed { let v2 = self.d.subst(*v, &[(k, fk)]); sub.push((*a, v2)); }
        sub.extend(finals.iter().copied());
        sub.push((k, fk));
        let in_k: Vec<(V, V)> = closed.clone();
        // output writes of the iterations that complete
        let mut range_writes: HashMap<Obj, Vec<Write>> = HashMap::default();
        if let Some(l) = &latch {
            for (o, data) in l.st.mem.iter() {
                let n0 = logs0.get(o).copied().unwrap_or(0);
                if data.log.len() > n0 {
                    for w in &data.log[n0..] {
                        let nw = match &w.w {
                            W::At { off, size, val } => {
                                let val = self.d.subst(*val, &in_k);
                                let gate = self.d.subst(w.gate, &in_k);
                                self.mk_range_g(fk, k, *off, *size, val, gate)
                            }
                            _ => W::Unknown("nested range".into()),
                        };
                        let tt = self.d.t;
                        range_writes.entry(*o).or_default().push(Write { gate: tt, w: nw });
                    }
                }
            }
        }
        let mut results: Vec<Out> = vec![];
        let mut memo: HashMap<V, V> = sub.iter().copied().collect();
        for (xi, (o, _c)) in exits.into_iter().enumerate() {
            let mut mem: Mem = HashMap::default();
            for (ob, data) in o.st.mem.iter() {
                let n0 = logs0.get(ob).copied().unwrap_or(0);
                let mut nd = ObjData::default();
                for (off, (s, v)) in &data.cells { let v2 = self.d.subst_memo(*v, &mut memo); nd.cells.insert(*off, (*s, v2)); }
                nd.log.extend_from_slice(&data.log[..n0.min(data.log.len())]);
                if let Some(r) = range_writes.get(ob) { nd.log.extend(r.iter().cloned()) }
                for w in &data.log[n0.min(data.log.len())..] {
                    let g = self.d.subst_memo(w.gate, &mut memo);
                    let nw = match &w.w {
                        W::At { off, size, val } => W::At { off: self.d.subst_memo(*off, &mut memo), size: *size, val: self.d.subst_memo(*val, &mut memo) },
                        x => x.clone(),
                    };
                    nd.log.push(Write { gate: g, w: nw });
                }
                if nd == **data { mem.insert(*ob, data.clone()); } else { mem.insert(*ob, Rc::new(nd)); }
            }
            // objects written only by completed iterations
            for (ob, r) in &range_writes { if !mem.contains_key(ob) { mem.insert(*ob, Rc::new(ObjData { cells: Default::default(), log: r.clone() })); } }
            let regs: Vec<V> = o.regs.iter().map(|&v| self.d.subst_memo(v, &mut memo)).collect();
            let ret = self.d.subst_memo(o.ret, &mut memo);
            let mut path = st0.path;
            let ch = self.p.chain(o.st.path);
            let tlo = { let g = self.d.ge0(t); self.p.decide(self.d, g, path) };
            if tlo != Some(true) { let z = self.d.ge0(t); path = self.p.assume(self.d, path, z, true); }
            let lits: Vec<(V, bool)> = ch[nbase.min(ch.len())..].iter().map(|x| (self.p.facts[*x as usize].lit, self.p.facts[*x as usize].assumed)).collect();
            for (l, _) in &invs { let l2 = self.d.subst_memo(*l, &mut memo); path = self.p.assume(self.d, path, l2, true); }
            // which exit was taken is decided by the iteration alone
            let mut decided = false;
            if !irregular && fk != t {
                let dd = self.d.sub_(t, fk);
                let dd = self.d.addc(dd, -1);
                let lt = self.d.ge0(dd);
                if kinds[xi].0 && early_n == 1 { path = self.p.assume(self.d, path, lt, false); decided = true }
                else if kinds[xi].1 && kinds.iter().enumerate().all(|(j, q)| j == xi || q.0) { let ge = self.d.not(lt); path = self.p.assume(self.d, path, ge, false); decided = true }
            }
            for (l, a) in lits { let l2 = self.d.subst_memo(l, &mut memo); path = self.p.assume(self.d, path, l2, a || decided); }
            if std::env::var("DBGX").is_ok() { eprintln!("exit to {:?} after {} (trip {}, early {})", o.dest, self.d.show(fk), self.d.show(t), self.d.show(e)); let n1 = self.p.chain(st0.path).len(); for x in self.p.chain(path)[n1..].to_vec() { let q = (self.p.facts[x as usize].lit, self.p.facts[x as usize].assumed); eprintln!("    {} {}", if q.1 { "assumed" } else { "" }, self.d.show(q.0)) } }
            if self.p.bottom(path) { continue }
            // values decided by the exit's own conditions
            let keys: Vec<Obj> = mem.keys().copied().collect();
            for ob in keys {
                let ite: Vec<(i64, V)> = mem[&ob].cells.iter().filter(|(_, c)| matches!(self.d.get(c.1), N::Ite(..))).map(|(k, c)| (*k as i64, c.1)).collect();
                for (off, v) in ite {
                    let w = self.latch_val(v, path);
                    if w != v { let data = Rc::make_mut(mem.get_mut(&ob).unwrap()); let sz = data.cells[&off].0; data.cells.insert(off, (sz, w)); }
                }
            }
            let regs: Vec<V> = regs.into_iter().map(|v| if matches!(self.d.get(v), N::Ite(..)) { self.latch_val(v, path) } else { v }).collect();
            results.push(Out { dest: o.dest, st: St { mem, path }, regs, ret });
        }
        // continue from the exits
        if results.is_empty() { return Ok(vec![]) }
        let mut p: Option<u32> = None;
        if results.len() > 1 {
            // nearest common post-dominator
            let mut cands: Option<Vec<u32>> = None;
            for o in &results {
                let Dest::Stop(mut x) = o.dest else { continue };
                let mut chain = vec![x];
                while let Some(y) = f.ipdom[x as usize] { chain.push(y); x = y }
                cands = Some(match cands { None => chain, Some(c) => c.into_iter().filter(|x| chain.contains(x)).collect() });
            }
            p = cands.and_then(|c| c.first().copied());
        }
        let mut stops3 = stops.to_vec();
        if let Some(p) = p { if !stops3.contains(&p) { stops3.push(p) } }
        let mut acc: Vec<Out> = vec![];
        for o in results {
            let Dest::Stop(bb) = o.dest else { continue };
            if stops3.contains(&bb) { self.merge_into(f, &mut acc, o); continue }
            let r = self.enter(f, bb, o.regs, o.st, &stops3, trk.clone(), h)?;
            for x in r { self.merge_into(f, &mut acc, x) }
        }
        let mut fin: Vec<Out> = vec![];
        let mut cont = None;
        for o in acc {
            if let (Dest::Stop(s), Some(p)) = (o.dest, p) { if s == p && !stops.contains(&p) { cont = Some(o); continue } }
            fin.push(o);
        }
        if let Some(o) = cont {
            for x in self.enter(f, p.unwrap(), o.regs, o.st, stops, trk, h)? { self.merge_into(f, &mut fin, x) }
        }
        Ok(fin)
    }
    /// start executing at a block whose phis are already set
    fn enter(&mut self, f: &Rc<Func>, b: u32, regs: Vec<V>, st: St, stops: &[u32], trk: Vec<Tracker>, prev: u32) -> Result<Vec<Out>, Abort> {
        if f.loop_of[b as usize].is_some() { return self.goto_nophi(f, b, prev, regs, st, stops, trk) }
        self.run(f, b, regs, st, stops, trk)
    }
    fn ind(&mut self, init: V, step: i128, k: V) -> V {
        if step == 0 { return init }
        let s = self.d.scale(k, step);
        match self.d.get(init).clone() { N::Ptr(o, off) => { let x = self.d.add(off, s); self.d.mk(N::Ptr(o, x)) } _ => self.d.add(init, s) }
    }
    fn delta(&mut self, a: V, b: V) -> Option<i128> {
        if a == b { return Some(0) }
        match (self.d.get(a).clone(), self.d.get(b).clone()) {
            (N::Ptr(o, x), N::Ptr(p, y)) if o == p => { let q = self.d.sub_(y, x); self.d.as_const(q) }
            _ if self.d.kind(a) == Kind::I && self.d.kind(b) == Kind::I => { let q = self.d.sub_(b, a); self.d.as_const(q) }
            _ => None,
        }
    }
    fn classify(&mut self, init: V, v: V, _k: V) -> Option<i128> {
        if init == self.d.undef { return None }
        self.delta(init, v)
    }
    fn havoc(&mut self, init: V, v: V, o: Obj, off: i64) -> V {
        let nm = self.d.fresh_name(&format!("loop{o}.{off}"));
        let probe = if init != self.d.undef { init } else { v };
        let boolish = |d: &Dom, x: V| match d.get(x) { N::Ite(_, a, b) => d.as_const(*a) == Some(1) && d.as_const(*b) == Some(0), _ => matches!(d.as_const(x), Some(0) | Some(1)) };
        match self.d.kind(probe) {
            Kind::I => {
                if boolish(self.d, probe) && boolish(self.d, v) { let b = self.d.mk(N::BSym(nm)); let (x, y) = (self.d.one, self.d.zero); return self.d.ite(b, x, y) }
                self.d.mk(N::ISym(nm, 0, (1 << 64) - 1))
            }
            Kind::F => self.d.mk(N::FSym(nm)),
            Kind::B => self.d.mk(N::BSym(nm)),
            Kind::P => self.d.mk(N::Opq(format!("p{nm}").into(), Box::new([]))),
            Kind::O => self.d.mk(N::Opq(format!("?{nm}").into(), Box::new([]))),
        }
    }
    /// irregular integers of a loop: (header value, value before the loop, memory cell, phi)
    fn int_havocs(&mut self, cells: &[((Obj, i64), u32, Option<V>)], phis: &[(u32, V, Option<V>)], st0: &St) -> Vec<(V, V, Option<(Obj, i64)>, Option<u32>)> {
        let mut r = vec![];
        for (key, s, h) in cells {
            let Some(h) = h else { continue };
            if !matches!(self.d.get(*h), N::ISym(..)) { continue }
            let Some(init) = st0.mem.get(&key.0).and_then(|x| x.cells.get(&key.1)).filter(|c| c.0 == *s).map(|c| c.1) else { continue };
            if self.d.kind(init) != Kind::I { continue }
            r.push((*h, init, Some(*key), None));
        }
        for (p, init, h) in phis {
            let Some(h) = h else { continue };
            if !matches!(self.d.get(*h), N::ISym(..)) || self.d.kind(*init) != Kind::I { continue }
            r.push((*h, *init, None, Some(*p)));
        }
        r.sort_by_key(|x| x.0);
        r
    }
    /// candidate invariants that hold before the loop
    fn candidates(&mut self, hs: &[(V, V, Option<(Obj, i64)>, Option<u32>)], f: Fid) -> Vec<(V, V)> {
        let init: Vec<(V, V)> = hs.iter().map(|h| (h.0, h.1)).collect();
        let mut c: Vec<V> = vec![];
        for x in hs {
            for y in hs {
                let (a, b) = (self.d.sub_(x.0, y.1), self.d.sub_(y.1, x.0));
                c.push(a);
                c.push(b);
                if x.0 == y.0 { continue }
                let e = self.d.sub_(x.0, y.0);
                c.push(e);
                let e1 = self.d.addc(e, -1);
                c.push(e1);
            }
        }
        let mut out: Vec<(V, V)> = vec![];
        for q in c {
            let l = self.d.ge0(q);
            if l == self.d.t || l == self.d.f || out.iter().any(|o| o.0 == l) { continue }
            let i = self.d.subst(q, &init);
            if self.p.prove(self.d, i, f) { out.push((l, q)) }
        }
        out
    }
    /// a literal holds under facts, by cases on the conditions its quantities depend on
    fn holds(&mut self, l: V, f: Fid, depth: u32) -> bool {
        if self.p.bottom(f) { return true }
        if let Some(b) = self.p.decide(self.d, l, f) { return b }
        if depth >= 6 { return false }
        let l = self.p.resolve(self.d, l, f);
        if l == self.d.t { return true }
        if l == self.d.f { return false }
        let mut gate = None;
        for v in self.d.reach(&[l]) { if let N::Ite(g, _, _) = *self.d.get(v) { if self.p.decide(self.d, g, f).is_none() { gate = Some(g); break } } }
        let Some(g) = gate else { return false };
        let n = self.d.not(g);
        let (x, y) = (self.p.assume(self.d, f, g, false), self.p.assume(self.d, f, n, false));
        self.holds(l, x, depth + 1) && self.holds(l, y, depth + 1)
    }
    /// some bounded quantity strictly decreases with every iteration
    fn ranking(&mut self, hs: &[V], lv: &[(V, V)], invs: &[V], base: Fid, latch: Fid) -> bool {
        let mut m: Vec<V> = invs.to_vec();
        for &x in hs { for &y in hs { if x != y { let e = self.d.sub_(x, y); if !m.contains(&e) { m.push(e) } } } }
        for q in m {
            if !self.d.reach(&[q]).iter().any(|x| hs.contains(x)) { continue }
            let low = self.d.addc(q, 1);
            if !self.p.prove(self.d, low, base) { continue }
            let n = self.d.subst(q, lv);
            let dec = self.d.sub_(q, n);
            let dec = self.d.addc(dec, -1);
            let l = self.d.ge0(dec);
            if self.holds(l, latch, 0) { return true }
        }
        false
    }
    /// two bounds closing in on the boundary of a monotone test: their values on exit
    fn bisection(&mut self, lv: &[(V, V, V)], latch: Fid, exits: &[Fid], before: Fid, k: V) -> Option<Vec<(V, V)>> {
        if lv.len() != 2 { return None }
        for (l, h) in [(0, 1), (1, 0)] {
            let ((lo, lo2, lo0), (hi, hi2, hi0)) = (lv[l], lv[h]);
            let mut gates = vec![];
            for v in self.d.reach(&[lo2, hi2]) { if let N::Ite(g, _, _) = *self.d.get(v) { if !gates.contains(&g) { gates.push(g) } } }
            for g in gates {
                for pol in [true, false] {
                    let p = if pol { g } else { self.d.not(g) };
                    let np = self.d.not(p);
                    let (fp, fn_) = (self.p.assume(self.d, latch, p, false), self.p.assume(self.d, latch, np, false));
                    let (lp, hp, ln, hn) = (self.p.resolve(self.d, lo2, fp), self.p.resolve(self.d, hi2, fp), self.p.resolve(self.d, lo2, fn_), self.p.resolve(self.d, hi2, fn_));
                    if hp != hi || ln != lo || lp == lo || hn == hi { continue }
                    // the tested element
                    let mut el: Option<(V, Obj, V, i128)> = None;
                    let mut bad = false;
                    for v in self.d.reach(&[p]) {
                        match *self.d.get(v) {
                            N::FElem(o, off, w) => { let rs = self.d.reach(&[off]); if rs.contains(&lo) || rs.contains(&hi) { if el.is_some() { bad = true } el = Some((v, o, off, if w { 4 } else { 8 })) } }
                            _ => {}
                        }
                    }
                    let Some((ev, o, off, es)) = el else { continue };
                    if bad { continue }
                    let Some(m) = self.d.div_exact(off, es) else { continue };
                    let probe = self.d.fconst(0.0);
                    let rest = self.d.subst(p, &[(ev, probe)]);
                    let rr = self.d.reach(&[rest]);
                    if rr.contains(&lo) || rr.contains(&hi) || rr.contains(&k) { continue }
                    let m = self.p.resolve(self.d, m, latch);
                    let (a, b) = (self.d.sub_(lp, m), self.d.sub_(hn, m));
                    let (Some(a), Some(b)) = (self.d.as_const(a), self.d.as_const(b)) else { continue };
                    let kk = b + 1 - a;
                    let gap = self.d.sub_(hi, lo);
                    // gap >= kk always (before and preserved), gap <= kk on exit, the test is strictly inside
                    let x0 = { let x = self.d.sub_(hi0, lo0); self.d.addc(x, -kk) };
                    let in1 = { let x = self.d.sub_(m, lo); self.d.addc(x, a - 1) };
                    let in2 = { let x = self.d.sub_(hi, m); self.d.addc(x, -b - 1) };
                    let ok = self.p.prove(self.d, x0, before) && { let q = self.d.ge0(in1); self.holds(q, latch, 0) } && { let q = self.d.ge0(in2); self.holds(q, latch, 0) }
                        && exits.iter().all(|&e| { let x = self.d.neg(gap); let x = self.d.addc(x, kk); let q = self.d.ge0(x); self.holds(q, e, 0) });
                    if !ok { continue }
                    let start = self.d.addc(lo0, 1 - a);
                    let n = { let x = self.d.sub_(hi0, start); self.d.addc(x, -b) };
                    let nm = self.d.fresh_name("j");
                    let bv = self.d.mk(N::ISym(nm, 0, (1 << 62) - 1));
                    let ix = self.d.add(start, bv);
                    let off2 = self.d.scale(ix, es);
                    let e2 = self.d.mk(N::FElem(o, off2, es == 4));
                    let body = self.d.subst(np, &[(ev, e2)]);
                    let j = self.d.first_with(n, body, bv);
                    let j = self.d.add(start, j);
                    let (flo, fhi) = (self.d.addc(j, a - 1), self.d.addc(j, b));
                    return Some(vec![(lo, flo), (hi, fhi)]);
                }
            }
        }
        None
    }
    fn havoc_atom(&self, h: V) -> V { match self.d.get(h) { N::Ite(c, _, _) => *c, _ => h } }
    fn simp(&mut self, c: V, f: Fid) -> V {
        if let N::And(xs) = self.d.get(c).clone() {
            let v: Vec<V> = xs.iter().map(|&x| self.simp(x, f)).collect();
            return self.d.and(v);
        }
        if let N::Or(xs) = self.d.get(c).clone() {
            let v: Vec<V> = xs.iter().map(|&x| self.simp(x, f)).collect();
            return self.d.or(v);
        }
        match self.p.decide(self.d, c, f) { Some(true) => self.d.t, Some(false) => self.d.f, None => c }
    }
    /// header value at iteration k of a cell whose value after an iteration is `lv`
    fn close(&mut self, hv: V, lv: V, init: V, k: V, havocs: &[V]) -> Option<V> {
        let atoms: Vec<V> = havocs.iter().map(|&h| self.havoc_atom(h)).collect();
        let me = self.havoc_atom(hv);
        let dep: Vec<V> = self.d.reach(&[lv]).into_iter().filter(|x| atoms.contains(x)).collect();
        if dep.is_empty() {
            // overwritten by every iteration
            let k1 = self.d.addc(k, -1);
            let prev = self.d.subst(lv, &[(k, k1)]);
            if init == self.d.undef { return if me != hv { None } else { Some(prev) } }
            let c = self.d.eq0(k);
            if me == hv { return Some(self.d.ite(c, init, prev)) }
            let (pb, ib) = (self.to_bool(prev), self.to_bool(init));
            return Some(self.d.ite(c, ib, pb));
        }
        if dep == [me] {
            // boolean accumulators
            let lb = if me != hv { self.to_bool(lv) } else { lv };
            if self.d.kind(lb) != Kind::B { return None }
            let ib = self.to_bool(init);
            if let N::Or(xs) = self.d.get(lb).clone() {
                if xs.contains(&me) {
                    let rest: Vec<V> = xs.iter().copied().filter(|&x| x != me).collect();
                    if rest.iter().all(|&x| !self.d.reach(&[x]).contains(&me)) {
                        let c = self.d.or(rest);
                        // exists j < k: c(j)
                        let j = self.d.first_with(k, c, k);
                        let ex = self.d.gt(k, j);
                        return Some(self.d.or2(ib, ex));
                    }
                }
            }
            if let N::And(xs) = self.d.get(lb).clone() {
                if xs.contains(&me) {
                    let rest: Vec<V> = xs.iter().copied().filter(|&x| x != me).collect();
                    if rest.iter().all(|&x| !self.d.reach(&[x]).contains(&me)) {
                        let c = self.d.and(rest);
                        let nc = self.d.not(c);
                        let j = self.d.first_with(k, nc, k);
                        let ex = self.d.gt(k, j);
                        let all = self.d.not(ex);
                        return Some(self.d.and2(ib, all));
                    }
                }
            }
        }
        None
    }
    fn find_trip(&mut self, outs: &[Out], base: Fid, h: u32, k: V) -> Option<V> {
        let nbase = self.p.chain(base).len();
        let mut cands: Vec<V> = vec![];
        for o in outs {
            let ch = self.p.chain(o.st.path);
            let is_latch = o.dest == Dest::Stop(h);
            let mut lits: Vec<V> = ch[nbase.min(ch.len())..].iter().map(|x| self.p.facts[*x as usize].lit).collect();
            let mut i = 0;
            while i < lits.len() { if let N::And(xs) = self.d.get(lits[i]).clone() { lits.extend_from_slice(&xs) } if let N::Or(xs) = self.d.get(lits[i]).clone() { if !is_latch { lits.extend_from_slice(&xs) } } i += 1 }
            for l in lits { cands.push(if is_latch { l } else { self.d.not(l) }) } // conditions to stay
        }
        // prefer inequality tests
        for c in &cands {
            let p = match *self.d.get(*c) { N::Ge0(p) => p, N::Not(x) => match *self.d.get(x) { N::Ge0(p) => { let q = self.d.neg(p); self.d.addc(q, -1) } _ => continue }, _ => continue };
            // p = rest - s*k, s > 0
            let ts = self.d.terms(p);
            let Some(t) = ts.iter().find(|t| t.0.len() == 1 && t.0[0] == k) else { continue };
            if t.1 != -1 || ts.iter().filter(|t| t.0.contains(&k)).count() != 1 { continue }
            let rest = self.d.add(p, k);
            if self.d.reach(&[rest]).contains(&k) { continue }
            let n = self.d.addc(rest, 1);
            if self.p.prove(self.d, n, base) { return Some(n) }
            let z = self.d.zero;
            return Some(self.d.max(n, z));
        }
        for c in &cands {
            let N::Not(x) = *self.d.get(*c) else { continue };
            let N::Eq0(p) = *self.d.get(x) else { continue };
            let ts = self.d.terms(p);
            let Some(t) = ts.iter().find(|t| t.0.len() == 1 && t.0[0] == k) else { continue };
            if t.1.abs() != 1 || ts.iter().filter(|t| t.0.contains(&k)).count() != 1 { continue }
            let n = if t.1 == 1 { self.d.sub_(k, p) } else { self.d.add(p, k) };
            if self.d.reach(&[n]).contains(&k) { continue }
            if self.p.prove(self.d, n, base) { return Some(n) }
        }
        None
    }

    // ------------------------------------------------------------ instructions
    fn step(&mut self, f: &Rc<Func>, ins: &Ins, regs: &mut Vec<V>, st: &mut St) -> bool {
        match ins {
            Ins::Alloca { dst, size } => {
                let o = self.d.new_obj(OK::Local { size: *size }, "local");
                st.mem.insert(o, Rc::new(ObjData::default()));
                let z = self.d.zero;
                regs[*dst as usize] = self.d.mk(N::Ptr(o, z));
            }
            Ins::Load { dst, ty, ptr, .. } => {
                let p = self.op(ptr, &Ty::Ptr, regs);
                regs[*dst as usize] = self.load(st, p, ty);
            }
            Ins::Store { ty, val, ptr, .. } => {
                let v = self.op(val, ty, regs);
                let p = self.op(ptr, &Ty::Ptr, regs);
                self.store(st, p, ty, v);
            }
            Ins::Gep { dst, g } => {
                let base = self.op(&g.base, &Ty::Ptr, regs);
                let mut off = self.d.zero;
                let mut cur = g.elem.clone();
                for (i, (t, o)) in g.idx.iter().enumerate() {
                    let v = self.op(o, t, regs);
                    let w = if let Ty::I(w) = t { *w } else { 64 };
                    let v = if self.d.as_const(v).is_some() || w != 64 { self.sview(v, w, st.path) } else { v };
                    if i == 0 {
                        let x = self.d.scale(v, cur.size() as i128);
                        off = self.d.add(off, x);
                    } else {
                        match cur.clone() {
                            Ty::Struct(..) => { let k = self.d.as_const(v).unwrap() as usize; let (o, t) = cur.field(k); let t = t.clone(); off = self.d.addc(off, o as i128); cur = t; }
                            Ty::Arr(_, t) | Ty::Vector(_, t) => { let x = self.d.scale(v, t.size() as i128); off = self.d.add(off, x); cur = *t; }
                            _ => { self.problem("gep".into()); }
                        }
                    }
                }
                regs[*dst as usize] = self.gep(base, off);
            }
            Ins::Bin { dst, op, ty, a, b, .. } => {
                let x = self.op(a, ty, regs);
                let y = self.op(b, ty, regs);
                let v = self.bin(op, ty, x, y, st.path);
                self.div_lemmas(v, st);
                regs[*dst as usize] = v;
            }
            Ins::Icmp { dst, pred, ty, a, b } => {
                let x = self.op(a, ty, regs);
                let y = self.op(b, ty, regs);
                regs[*dst as usize] = self.icmp(pred, ty, x, y, st.path);
            }
            Ins::Fcmp { dst, pred, ty, a, b } => {
                let x = self.op(a, ty, regs);
                let y = self.op(b, ty, regs);
                regs[*dst as usize] = self.fcmp(pred, x, y);
            }
            Ins::Fneg { dst, a, ty } => { let x = self.op(a, ty, regs); regs[*dst as usize] = self.d.fneg(x); }
            Ins::Select { dst, c, ty, a, b } => {
                let c = self.op(c, &Ty::I(1), regs);
                let x = self.op(a, ty, regs);
                let y = self.op(b, ty, regs);
                let c = match self.p.decide(self.d, c, st.path) { Some(true) => self.d.t, Some(false) => self.d.f, None => c };
                regs[*dst as usize] = self.d.ite(c, x, y);
            }
            Ins::Cast { dst, op, from, a, to } => {
                let x = self.op(a, from, regs);
                regs[*dst as usize] = self.cast(op, from, x, to, st.path);
            }
            Ins::ExtractV { dst, ty, a, idx } => {
                let mut v = self.op(a, ty, regs);
                for i in idx {
                    let i = *i as usize;
                    v = match self.d.get(v).clone() {
                        N::Agg(xs) => xs[i],
                        N::Undef => v,
                        _ => self.opq(&format!("?ext{i}"), &[v]),
                    };
                }
                regs[*dst as usize] = v;
            }
            Ins::InsertV { dst, ty, a, vty, v, idx } => {
                let x = self.op(a, ty, regs);
                let y = self.op(v, vty, regs);
                regs[*dst as usize] = self.insert(x, ty, &idx[..], y);
            }
            Ins::Freeze { dst, a, ty } => { let x = self.op(a, ty, regs); regs[*dst as usize] = x; }
            Ins::Call { dst, ret, callee, args, asm } => {
                if *asm { self.problem("inline assembly".into()); return true }
                let c = self.op(callee, &Ty::Ptr, regs);
                let av: Vec<V> = args.iter().map(|(t, o)| self.op(o, t, regs)).collect();
                let tys: Vec<Ty> = args.iter().map(|a| a.0.clone()).collect();
                let N::Fun(name) = self.d.get(c).clone() else { self.problem("indirect call".into()); if let Some(r) = dst { regs[*r as usize] = self.opq(&format!("{}icall", kind_pfx(ret)), &av) } return true };
                match self.call(&name, &tys, av, ret, st) {
                    Some(v) => if let Some(r) = dst { regs[*r as usize] = v },
                    None => return false,
                }
            }
            Ins::Other { dst, text } => {
                let t = text.chars().take(60).collect::<String>();
                self.problem(format!("unsupported instruction {t}"));
                if let Some(r) = dst { regs[*r as usize] = self.opq("?ins", &[]) }
            }
            _ => { self.problem("unexpected instruction".into()); }
        }
        let _ = f;
        true
    }
    fn insert(&mut self, x: V, ty: &Ty, idx: &[u32], y: V) -> V {
        if idx.is_empty() { return y }
        let n = match ty { Ty::Struct(t, _) => t.len(), Ty::Arr(n, _) => *n as usize, _ => 1 };
        let mut xs = match self.d.get(x).clone() { N::Agg(v) => v.to_vec(), _ => { let u = self.d.undef; vec![u; n] } };
        let i = idx[0] as usize;
        let ft = ty.field(i).1.clone();
        xs[i] = self.insert(xs[i], &ft, &idx[1..], y);
        self.d.mk(N::Agg(xs.into()))
    }
    fn gep(&mut self, base: V, off: V) -> V {
        if off == self.d.zero { return base }
        match self.d.get(base).clone() {
            N::Ptr(o, x) => { let y = self.d.add(x, off); self.d.mk(N::Ptr(o, y)) }
            N::Ite(c, a, b) => { let a = self.gep(a, off); let b = self.gep(b, off); self.d.ite(c, a, b) }
            N::Undef => base,
            N::Null => self.int_to_ptr(off),
            _ => self.opq("pgep", &[base, off]),
        }
    }
    fn bin(&mut self, op: &str, ty: &Ty, x: V, y: V, f: Fid) -> V {
        if x == self.d.undef || y == self.d.undef { return self.d.undef }
        match ty {
            Ty::F32 | Ty::F64 => {
                let o = match op { "fadd" => Fo::Add, "fsub" => Fo::Sub, "fmul" => Fo::Mul, "fdiv" => Fo::Div, _ => Fo::Rem };
                return self.d.fbin(o, x, y);
            }
            Ty::I(1) => {
                let (x, y) = (self.to_bool(x), self.to_bool(y));
                return match op {
                    "and" | "mul" => self.d.and2(x, y),
                    "or" => self.d.or2(x, y),
                    _ => { let ny = self.d.not(y); self.d.ite(x, ny, y) }
                };
            }
            _ => {}
        }
        let Ty::I(w) = *ty else { self.problem(format!("{op} on {ty:?}")); return self.opq("?bin", &[x, y]) };
        if let (N::Chunk(_), _) | (_, N::Chunk(_)) = (self.d.get(x), self.d.get(y)) { self.problem("arithmetic on aggregate bytes".into()); return self.opq("ibin", &[x, y]) }
        match op {
            "add" => self.d.add(x, y),
            "sub" => self.d.sub_(x, y),
            "mul" => { let (x, y) = (self.uview(x, w, f), self.uview(y, w, f)); self.d.mul(x, y) }
            "shl" => match self.d.as_const(y) { Some(c) if c < 64 => self.d.scale(x, pow2(c as u32)), _ => self.iop(op, x, y) },
            "xor" | "and" | "or" => {
                // boolean bytes
                let bl = |d: &Dom, v: V| match d.get(v) { N::Ite(_, a, b) => matches!((d.as_const(*a), d.as_const(*b)), (Some(1), Some(0)) | (Some(0), Some(1))), _ => matches!(d.as_const(v), Some(0) | Some(1)) };
                if bl(self.d, x) && bl(self.d, y) {
                    let (p, q) = (self.to_bool(x), self.to_bool(y));
                    let r = match op { "and" => self.d.and2(p, q), "or" => self.d.or2(p, q), _ => { let n = self.d.not(q); self.d.ite(p, n, q) } };
                    return self.of_bool(r);
                }
                let (x, y) = (self.konst(x, f), self.konst(y, f));
                if op == "xor" && self.d.as_const(y).map_or(false, |c| c.rem_euclid(pow2(w)) == pow2(w) - 1) { let n = self.d.neg(x); return self.d.addc(n, -1) }
                if let (Some(a), Some(b)) = (self.d.as_const(x), self.d.as_const(y)) {
                    let (a, b) = (a.rem_euclid(pow2(w)), b.rem_euclid(pow2(w)));
                    return self.d.int(match op { "and" => a & b, "or" => a | b, _ => a ^ b });
                }
                if self.d.as_const(y) == Some(0) { return if op == "and" { y } else { x } }
                if op == "and" {
                    if let Some(c) = self.d.as_const(y) {
                        let c = c.rem_euclid(pow2(w));
                        let u = self.uview(x, w, f);
                        if c == pow2(w) - 1 { return u }
                        if (c + 1) & c == 0 { if let (Some(l), Some(h)) = self.p.interval(self.d, u, f) { if l >= 0 && h <= c { return u } } }
                        // distribute over gates
                        if let N::Ite(g, a, b) = *self.d.get(u) { if self.leaves_const(u) { let a = self.bin(op, ty, a, y, f); let b = self.bin(op, ty, b, y, f); return self.d.ite(g, a, b) } }
                    }
                }
                self.iop(op, x, y)
            }
            "udiv" | "urem" | "lshr" => {
                let u = self.uview(x, w, f);
                let u = self.konst(u, f);
                let Some(c) = self.d.as_const(y) else { return self.iop(op, u, y) };
                let c = c.rem_euclid(pow2(w));
                if let Some(k) = self.d.as_const(u) {
                    return match op { "udiv" => if c == 0 { self.d.undef } else { self.d.int(k / c) }, "urem" => if c == 0 { self.d.undef } else { self.d.int(k % c) }, _ => self.d.int(if c >= 127 { 0 } else { k >> c }) };
                }
                if let N::Ite(g, a, b) = *self.d.get(u) { if self.leaves_const(u) { let a = self.bin(op, ty, a, y, f); let b = self.bin(op, ty, b, y, f); return self.d.ite(g, a, b) } }
                let dv = if op == "lshr" { pow2(c as u32) } else { c };
                if op != "urem" { if dv == 1 { return u } if let Some(q) = self.d.div_exact(u, dv) { return q } }
                let dk = self.d.int(dv);
                self.iop(if op == "urem" { "urem" } else { "udiv" }, u, dk)
            }
            "sdiv" | "srem" => {
                let (p, q) = (self.sview(x, w, f), self.sview(y, w, f));
                if let (Some(a), Some(b)) = (self.d.as_const(p), self.d.as_const(q)) { if b != 0 { return self.d.int(if op == "sdiv" { a / b } else { a % b }) } }
                if op == "sdiv" { if let Some(b) = self.d.as_const(q) { if b != 0 { if let Some(r) = self.d.div_exact(p, b) { return r } } } }
                self.iop(op, p, q)
            }
            "ashr" => {
                let p = self.sview(x, w, f);
                match self.d.as_const(y) { Some(c) => { if let Some(q) = self.d.div_exact(p, pow2(c as u32)) { q } else { self.iop(op, p, y) } } None => self.iop(op, p, y) }
            }
            _ => self.iop(op, x, y),
        }
    }
    /// what the prover needs to know about q = u / c
    fn div_lemmas(&mut self, v: V, st: &mut St) {
        let N::IOp(s, u, c) = self.d.get(v).clone() else { return };
        if &*s != "udiv" { return }
        let Some(c) = self.d.as_const(c) else { return };
        if c < 2 { return }
        let cq = self.d.scale(v, c);
        let mut ls = vec![self.d.sub_(u, cq), { let x = self.d.sub_(cq, u); self.d.addc(x, c - 1) }, self.d.sub_(u, v)];
        let u1 = self.d.addc(u, -1);
        if self.p.prove(self.d, u1, st.path) { ls.push(self.d.sub_(u1, v)) }
        if c == 2 {
            let ts = self.d.terms(u);
            let k: i128 = ts.iter().filter(|t| t.0.is_empty()).map(|t| t.1).sum();
            let at: Vec<V> = ts.iter().filter(|t| t.0.len() == 1 && t.1 == 1).map(|t| t.0[0]).collect();
            if at.len() == 2 && ts.len() == 2 + (k != 0) as usize && (k == 0 || k == 1) {
                for (a, b) in [(at[0], at[1]), (at[1], at[0])] {
                    let g = self.d.sub_(b, a);
                    if !self.p.prove(self.d, g, st.path) { continue }
                    let g1 = self.d.addc(g, -1);
                    let strict = self.p.prove(self.d, g1, st.path);
                    let lo = if strict && k == 1 { self.d.addc(a, 1) } else { a };
                    let hi = if strict && k == 0 { self.d.addc(b, -1) } else { b };
                    ls.push(self.d.sub_(v, lo));
                    ls.push(self.d.sub_(hi, v));
                    break;
                }
            }
        }
        for l in ls { let l = self.d.ge0(l); st.path = self.p.assume(self.d, st.path, l, true) }
    }
    fn iop(&mut self, op: &str, x: V, y: V) -> V { self.d.mk(N::IOp(op.into(), x, y)) }
    fn icmp(&mut self, pred: &str, ty: &Ty, x: V, y: V, f: Fid) -> V {
        if x == self.d.undef || y == self.d.undef { return self.d.undef }
        let w = match ty { Ty::I(w) => *w, _ => 64 };
        if *ty == Ty::I(1) {
            let (x, y) = (self.to_bool(x), self.to_bool(y));
            let ny = self.d.not(y);
            let nx = self.d.not(x);
            return match pred {
                "eq" => self.d.ite(x, y, ny),
                "ne" => self.d.ite(x, ny, y),
                "ugt" | "slt" => self.d.and2(x, ny),
                "uge" | "sle" => self.d.or2(x, ny),
                "ult" | "sgt" => self.d.and2(nx, y),
                _ => self.d.or2(nx, y),
            };
        }
        if *ty == Ty::Ptr {
            let (a, b) = (self.ptr_to_int(x), self.ptr_to_int(y));
            return self.icmp_int(pred, 0, a, b, f);
        }
        let (x, y) = (self.conv(x, ty), self.conv(y, ty));
        self.icmp_int(pred, w, x, y, f)
    }
    /// width 0: addresses, which do not wrap
    fn icmp_int(&mut self, pred: &str, w: u32, x: V, y: V, f: Fid) -> V {
        if x == self.d.undef || y == self.d.undef { return self.d.undef }
        if self.d.kind(x) != Kind::I || self.d.kind(y) != Kind::I { return self.opq("bcmp", &[x, y]) }
        let (x, y) = (self.pick(x, f), self.pick(y, f));
        match pred {
            "eq" | "ne" => {
                let df = self.d.sub_(x, y);
                let r = if self.d.as_const(df) == Some(0) { self.d.t } else {
                    // pushing the comparison into if-then-else operands keeps gates visible
                    let t = self.eq_tree(x, y, w, f, 24);
                    t
                };
                if pred == "eq" { r } else { self.d.not(r) }
            }
            _ => {
                let signed = pred.starts_with('s');
                let (a, b) = if signed { (self.sview(x, w, f), self.sview(y, w, f)) } else { (self.uview(x, w, f), self.uview(y, w, f)) };
                match &pred[1..] { "gt" => self.d.gt(a, b), "ge" => self.d.ge(a, b), "lt" => self.d.gt(b, a), _ => self.d.ge(b, a) }
            }
        }
    }
    fn eq_tree(&mut self, x: V, y: V, w: u32, f: Fid, depth: u32) -> V {
        if depth > 0 && self.d.as_const(y).is_some() {
            if let N::Ite(c, a, b) = *self.d.get(x) {
                let p = self.eq_tree(a, y, w, f, depth - 1);
                let q = self.eq_tree(b, y, w, f, depth - 1);
                return self.d.ite(c, p, q);
            }
        }
        let (a, b) = (self.uview(x, w, f), self.uview(y, w, f));
        self.d.eq(a, b)
    }
    fn fcmp(&mut self, pred: &str, x: V, y: V) -> V {
        if x == self.d.undef || y == self.d.undef { return self.d.undef }
        let d = &mut *self.d;
        match pred {
            "olt" => d.fcmp(Fc::Lt, x, y),
            "ogt" => d.fcmp(Fc::Lt, y, x),
            "ole" => d.fcmp(Fc::Le, x, y),
            "oge" => d.fcmp(Fc::Le, y, x),
            "oeq" => d.fcmp(Fc::Eq, x, y),
            "uno" => d.fcmp(Fc::Uno, x, y),
            "ord" => { let u = d.fcmp(Fc::Uno, x, y); d.not(u) }
            "une" => { let u = d.fcmp(Fc::Eq, x, y); d.not(u) }
            "ult" => { let u = d.fcmp(Fc::Le, y, x); d.not(u) }
            "ule" => { let u = d.fcmp(Fc::Lt, y, x); d.not(u) }
            "ugt" => { let u = d.fcmp(Fc::Le, x, y); d.not(u) }
            "uge" => { let u = d.fcmp(Fc::Lt, x, y); d.not(u) }
            "one" => { let a = d.fcmp(Fc::Lt, x, y); let b = d.fcmp(Fc::Lt, y, x); d.or2(a, b) }
            "ueq" => { let a = d.fcmp(Fc::Lt, x, y); let b = d.fcmp(Fc::Lt, y, x); let o = d.or2(a, b); d.not(o) }
            "true" => d.t,
            _ => d.f,
        }
    }
    fn cast(&mut self, op: &str, from: &Ty, x: V, to: &Ty, f: Fid) -> V {
        if x == self.d.undef { return x }
        match op {
            "zext" | "sext" => {
                if *from == Ty::I(1) { let b = self.to_bool(x); let r = self.of_bool(b); return if op == "sext" { self.d.neg(r) } else { r } }
                let Ty::I(w) = *from else { return x };
                if op == "zext" { self.uview(x, w, f) } else { self.sview(x, w, f) }
            }
            "trunc" => {
                if *to == Ty::I(1) { return self.to_bool(x) }
                if let N::Chunk(c) = self.d.get(x).clone() { let s = to.size() as u32; if let Some(y) = c.iter().find(|y| y.0 == 0 && y.1 == s) { let v = y.2; return self.conv(v, to) } }
                x
            }
            "ptrtoint" | "ptrtoaddr" => self.ptr_to_int(x),
            "inttoptr" => self.int_to_ptr(x),
            "uitofp" => { let Ty::I(w) = *from else { return x }; if w == 1 { let b = self.to_bool(x); let r = self.of_bool(b); return self.float_of(r) } let u = self.uview(x, w, f); self.float_of(u) }
            "sitofp" => { let Ty::I(w) = *from else { return x }; let u = self.sview(x, w, f); self.float_of(u) }
            "fptosi" | "fptoui" => {
                if let N::FromI(i) = *self.d.get(x) { return i }
                if let N::FConst(b) = self.d.get(x) { let v = f64::from_bits(*b); return self.d.int(v as i128) }
                self.d.mk(N::FToI(x))
            }
            "fptrunc" => { if let N::FExt(y) = *self.d.get(x) { y } else if let N::FConst(b) = self.d.get(x) { let v = f64::from_bits(*b) as f32 as f64; if v.to_bits() == *b { x } else { self.d.mk(N::FTrunc(x)) } } else { self.d.mk(N::FTrunc(x)) } }
            "fpext" => if let N::FConst(_) = self.d.get(x) { x } else { self.d.mk(N::FExt(x)) },
            "bitcast" => {
                if from == to { return x }
                match (from, to) {
                    (Ty::F64 | Ty::F32, Ty::I(_)) => { if let N::FConst(b) = self.d.get(x) { let b = *b; return if *from == Ty::F64 { self.d.int(b as i128) } else { self.d.int((f64::from_bits(b) as f32).to_bits() as i128) } } self.opq("ibits", &[x]) }
                    (Ty::I(_), Ty::F64 | Ty::F32) => { if let N::Opq(n, a) = self.d.get(x) { if &**n == "ibits" { return a[0] } } self.conv_bits(x, to) }
                    _ => x,
                }
            }
            _ => { self.problem(format!("cast {op}")); x }
        }
    }
    fn float_of(&mut self, v: V) -> V {
        // distribute over constant-leaf trees
        if let N::Ite(c, a, b) = *self.d.get(v) { if self.leaves_const(v) { let a = self.float_of(a); let b = self.float_of(b); return self.d.ite(c, a, b) } }
        self.d.from_i(v)
    }

    // ------------------------------------------------------------ calls
    pub fn call(&mut self, name: &Rc<str>, tys: &[Ty], args: Vec<V>, ret: &Ty, st: &mut St) -> Option<V> {
        if let Some(i) = name.strip_prefix("llvm.") { let i = i.to_string(); return self.intrinsic(&i, tys, args, ret, st) }
        let dem = self.demangle(name);
        if let Some(r) = self.model(name, &dem, tys, &args, ret, st) { return r }
        match self.func(name) {
            Some(f) => {
                if f.noret { self.panic(&dem, st); return None }
                self.invoke(&f, args, st)
            }
            None => {
                if self.m.is_noreturn_decl(name) || dem.starts_with("core::panicking") || dem.contains("panic") || dem.ends_with("_fail") || dem.contains("handle_alloc_error") { self.panic(&dem, st); return None }
                self.problem(format!("call of unknown function {dem}"));
                Some(self.opq(&format!("{}{dem}", kind_pfx(ret)), &args))
            }
        }
    }
    fn panic(&mut self, what: &str, st: &St) {
        let stack = self.stack.clone();
        let mut v = vec![];
        for (f, dbg) in stack.iter().rev() { let l = self.m.dbg_loc(*dbg); let n = self.demangle(f); v.push((n.to_string(), l.0, l.1)) }
        self.panics.push(PanicRec { what: what.to_string(), stack: v, path: st.path });
    }
    pub fn invoke(&mut self, f: &Rc<Func>, args: Vec<V>, st: &mut St) -> Option<V> {
        self.visited_fns.insert(f.name.clone());
        let rec = self.stack.iter().filter(|x| x.0 == f.name).count() as u32 + 1;
        let e = self.maxrec.entry(f.name.clone()).or_insert(0);
        *e = (*e).max(rec);
        if rec > 40 || self.stack.len() > 300 { self.problem("recursion not bounded".into()); return None }
        let mut regs = vec![self.d.undef; f.nregs];
        for (i, (_, r)) in f.params.iter().enumerate() { if i < args.len() { regs[*r as usize] = args[i] } }
        let obj0 = self.d.objs.len() as Obj;
        self.stack.push((f.name.clone(), 0));
        let depth = self.stack.len();
        let s = St { mem: std::mem::take(&mut st.mem), path: st.path };
        let r = self.run(f, 0, regs, s, &[], vec![]);
        self.stack.truncate(depth - 1);
        let outs = match r { Ok(o) => o, Err(_) => { self.problem("loop abort escaped".into()); return None } };
        let mut it = outs.into_iter();
        let o = it.next()?;
        st.mem = o.st.mem;
        st.path = o.st.path;
        st.mem.retain(|o, _| *o < obj0 || !matches!(self.d.objs[*o as usize].0, OK::Local { .. }) || self.d.objs[*o as usize].1 == "heap");
        Some(o.ret)
    }
    fn intrinsic(&mut self, i: &str, tys: &[Ty], a: Vec<V>, ret: &Ty, st: &mut St) -> Option<V> {
        let f = st.path;
        let w = match tys.first() { Some(Ty::I(w)) => *w, _ => 64 };
        let base = i.split('.').next().unwrap_or("");
        let und = self.d.undef;
        if i.contains(".with.overflow") {
            let signed = base.starts_with('s');
            let (x, y) = if signed { (self.sview(a[0], w, f), self.sview(a[1], w, f)) } else { (self.uview(a[0], w, f), self.uview(a[1], w, f)) };
            let r = match &base[1..] { "add" => self.d.add(x, y), "sub" => self.d.sub_(x, y), _ => self.d.mul(x, y) };
            let ov = if signed {
                let hi = self.d.addc(r, -pow2(w - 1));
                let hi = self.d.ge0(hi);
                let lo = self.d.neg(r);
                let lo = self.d.addc(lo, -pow2(w - 1) - 1);
                let lo = self.d.ge0(lo);
                self.d.or2(hi, lo)
            } else {
                let hi = self.d.addc(r, -pow2(w));
                let hi = self.d.ge0(hi);
                let lo = self.d.neg(r);
                let lo = self.d.addc(lo, -1);
                let lo = self.d.ge0(lo);
                match &base[1..] { "sub" => lo, _ => hi }
            };
            let ov = match self.p.decide(self.d, ov, f) { Some(b) => self.d.bool(b), None => ov };
            return Some(self.d.mk(N::Agg(vec![r, ov].into())));
        }
        if i.starts_with("fptosi.sat") || i.starts_with("fptoui.sat") {
            let Ty::I(w) = *ret else { return Some(und) };
            let (lo, hi) = if base == "fptosi" { (-pow2(w - 1), pow2(w - 1) - 1) } else { (0, pow2(w) - 1) };
            let x = a[0];
            let v = if let N::FromI(q) = *self.d.get(x) { q } else { self.d.mk(N::FToI(x)) };
            let (l, h) = (self.d.fconst(lo as f64), self.d.fconst((hi + 1) as f64));
            let c1 = self.d.fcmp(Fc::Lt, x, l);
            let c2 = self.d.fcmp(Fc::Le, h, x);
            let c3 = self.d.fcmp(Fc::Uno, x, x);
            let (kl, kh, z) = (self.d.int(lo), self.d.int(hi), self.d.zero);
            let r = self.d.ite(c2, kh, v);
            let r = self.d.ite(c1, kl, r);
            return Some(self.d.ite(c3, z, r));
        }
        if i.starts_with("memcpy") || i.starts_with("memmove") { self.memcpy(st, a[0], a[1], a[2]); return Some(und) }
        if i.starts_with("memset") { self.memset(st, a[0], a[1], a[2]); return Some(und) }
        match base {
            "assume" => {
                if a[0] != und { let c = self.to_bool(a[0]); st.path = self.p.assume(self.d, st.path, c, true); }
                Some(und)
            }
            "expect" => Some(a[0]),
            "is" => Some(self.d.f),
            "uadd" | "usub" | "sadd" | "ssub" if i.contains(".sat.") => {
                let signed = base.starts_with('s');
                let (x, y) = if signed { (self.sview(a[0], w, f), self.sview(a[1], w, f)) } else { (self.uview(a[0], w, f), self.uview(a[1], w, f)) };
                let r = if base.ends_with("add") { self.d.add(x, y) } else { self.d.sub_(x, y) };
                let (lo, hi) = if signed { (-pow2(w - 1), pow2(w - 1) - 1) } else { (0, pow2(w) - 1) };
                let rl = self.d.addc(r, -lo);
                let rh = { let n = self.d.neg(r); self.d.addc(n, hi) };
                let mut r2 = r;
                if !self.p.prove(self.d, rl, f) { let k = self.d.int(lo); r2 = self.d.max(r2, k) }
                if !self.p.prove(self.d, rh, f) { let k = self.d.int(hi); r2 = self.d.min(r2, k) }
                Some(r2)
            }
            "smax" | "smin" | "umax" | "umin" => {
                let (x, y) = if base.starts_with('s') { (self.sview(a[0], w, f), self.sview(a[1], w, f)) } else { (self.uview(a[0], w, f), self.uview(a[1], w, f)) };
                Some(if base.ends_with("max") { self.d.max(x, y) } else { self.d.min(x, y) })
            }
            "abs" => { let x = self.sview(a[0], w, f); let n = self.d.neg(x); Some(self.d.max(x, n)) }
            "ucmp" | "scmp" => {
                let (x, y) = if base == "scmp" { (self.sview(a[0], w, f), self.sview(a[1], w, f)) } else { (self.uview(a[0], w, f), self.uview(a[1], w, f)) };
                let lt = self.d.gt(y, x);
                let gt = self.d.gt(x, y);
                let (m, z, o) = (self.d.int(-1), self.d.zero, self.d.one);
                let r = self.d.ite(gt, o, z);
                Some(self.d.ite(lt, m, r))
            }
            "fma" | "fmuladd" => Some(self.d.mk(N::Fma(a[0], a[1], a[2]))),
            "floor" | "ceil" | "trunc" | "round" | "rint" | "nearbyint" | "roundeven" | "sqrt" | "exp" | "log" | "sin" | "cos" => Some(self.d.mk(N::FUn(base.into(), a[0]))),
            "fabs" => Some(self.d.mk(N::FUn("abs".into(), a[0]))),
            "minnum" | "minimum" | "minimumnum" => Some(self.d.fbin(Fo::Min, a[0], a[1])),
            "maxnum" | "maximum" | "maximumnum" => Some(self.d.fbin(Fo::Max, a[0], a[1])),
            "copysign" => Some(self.opq("fcopysign", &a)),
            "lifetime" | "dbg" | "experimental" | "donothing" | "prefetch" => Some(und),
            "trap" => { self.panic("abort", st); None }
            "ctpop" | "ctlz" | "cttz" => Some(self.iop(base, a[0], a[0])),
            _ => { self.problem(format!("intrinsic llvm.{i}")); Some(self.opq(&format!("{}{i}", kind_pfx(ret)), &a)) }
        }
    }
    /// functions interpreted by their meaning rather than their body
    fn model(&mut self, name: &Rc<str>, dem: &str, tys: &[Ty], a: &[V], ret: &Ty, st: &mut St) -> Option<Option<V>> {
        let isf = |t: &Ty| matches!(t, Ty::F64 | Ty::F32);
        let last = dem.rsplit("::").next().unwrap_or("");
        if !a.is_empty() && tys.iter().all(isf) && isf(ret) && (dem.contains("num_traits") || dem.contains("libm") || dem.contains("f64") || dem.contains("f32")) {
            let v = match (last, a.len()) {
                ("floor" | "ceil" | "trunc" | "round" | "sqrt" | "signum" | "fract" | "exp" | "ln" | "sin" | "cos", 1) | ("floorf" | "floor_generic", 1) => self.d.mk(N::FUn(last.trim_end_matches("f_generic").trim_end_matches("_generic").into(), a[0])),
                ("abs" | "fabs" | "fabsf", 1) => self.d.mk(N::FUn("abs".into(), a[0])),
                ("min" | "fmin" | "minimum" | "fminf", 2) => self.d.fbin(Fo::Min, a[0], a[1]),
                ("max" | "fmax" | "maximum" | "fmaxf", 2) => self.d.fbin(Fo::Max, a[0], a[1]),
                ("mul_add" | "fma" | "fmaf", 3) => self.d.mk(N::Fma(a[0], a[1], a[2])),
                ("recip", 1) => { let o = self.d.fconst(1.0); self.d.fbin(Fo::Div, o, a[0]) }
                _ => return None,
            };
            return Some(Some(v));
        }
        if self.opaque.contains_key("@py") { if let Some(r) = self.model_py(dem, a, ret, st) { return Some(r) } }
        if dem.contains("num_traits::float::Float>::powi") && a.len() == 2 {
            if let Some(n) = self.d.as_const(a[1]) { if (0..=8).contains(&n) { let mut r = self.d.fconst(1.0); for _ in 0..n { r = self.d.fbin(Fo::Mul, r, a[0]) } return Some(Some(r)) } }
        }
        if (last.starts_with("partition_point") || dem.contains(">::partition_point::<")) && dem.starts_with("<[") {
            return Some(self.partition_point(name, dem, tys, a, st));
        }
        if dem.contains("alloc::vec::from_elem") || (dem.contains("SpecFromElem>::from_elem")) {
            return Some(self.from_elem(name, tys, a, st));
        }
        if self.opaque.contains_key("@py") && !dem.contains("zeroed") {
            // heap memory of the binding layer: a fresh object, never exhausted; growing keeps the place
            if dem.contains("__rust_no_alloc_shim") { return Some(Some(self.d.undef)) }
            if dem.contains("__rust_realloc") { return Some(Some(a[0])) }
            if dem.contains("__rust_alloc") {
                if let Some(n) = self.d.as_const(a[0]).or_else(|| { let r = self.p.resolve(self.d, a[0], st.path); self.d.as_const(r) }) {
                    if (0..1 << 20).contains(&n) { let o = self.d.new_obj(OK::Local { size: 1 << 20 }, "heap"); let z = self.d.int(0); return Some(Some(self.d.mk(N::Ptr(o, z)))) }
                }
            }
        }
        if dem.starts_with("__rust_alloc") || dem.contains("__rustc::__rust_alloc") || dem.contains("__rust_realloc") { self.problem(format!("allocation {dem}")); return Some(Some(self.opq("palloc", &[]))) }
        if dem.contains("__rust_dealloc") || dem.starts_with("core::ptr::drop_in_place::<alloc::vec::Vec<") || dem.starts_with("core::ptr::drop_in_place<alloc::vec::Vec<") || dem.starts_with("core::ptr::drop_glue::<alloc::vec::Vec<") || dem.contains("no_alloc_shim_is_unstable") { return Some(Some(self.d.undef)) }
        let hit = if self.opaque.contains_key("@rec") && matches!(ret, Ty::F64 | Ty::F32) && self.func(name).is_some_and(|f| f.blocks.iter().any(|b| b.ins.iter().any(|(i, _)| matches!(i, Ins::Call { callee: Op::Global(g), .. } if g == name)))) { Some("@rec".to_string()) } else { self.opaque.keys().find(|k| dem.contains(k.as_str())).cloned() };
        if let Some(_) = hit {
            // uninterpreted: its value is determined by the memory its arguments reach
            let mut xs: Vec<V> = vec![];
            let mut seen = vec![];
            for &v in a { self.reachable_mem(st, v, &mut xs, &mut seen) }
            let v = self.opq(&format!("{}call {}", kind_pfx(ret), strip_generics(dem)), &xs);
            return Some(Some(v));
        }
        None
    }
    /// the boundary between the binding layer and the library, and what is left open about Python objects
    fn model_py(&mut self, dem: &str, a: &[V], ret: &Ty, st: &mut St) -> Option<Option<V>> {
        match dem {
            "__py_contig" => return Some(Some(self.opq("bcontiguous", &a[..1]))),
            "__py_borrow" => return Some(Some(self.opq("bborrowable", &a[..1]))),
            _ => {}
        }
        let plain = strip_generics(dem);
        if (plain.starts_with("interpn::multilinear::") || plain.starts_with("interpn::multicubic::") || plain.starts_with("interpn::nearest::") || plain.starts_with("interpn::one_dim::")) && !dem.contains("{closure") {
            let last = plain.trim_end_matches("::").rsplit("::").next().unwrap_or("").to_string();
            if matches!(last.as_str(), "interpn" | "interpn_alloc" | "check_bounds") {
                if !matches!(ret, Ty::Struct(ts, _) if ts.len() == 2) { self.problem(format!("result type of {dem}")); return Some(Some(self.d.undef)) }
                let n = SINKS.with(|s| s.borrow().len());
                let nm: Rc<str> = format!("succeeds#{n}").into();
                let ok = self.d.mk(N::BSym(nm));
                let mo = self.d.input_slice(&format!("message#{n}"), 'b', false);
                let z = self.d.zero;
                let msg = self.d.mk(N::Ptr(mo, z));
                let len = self.d.len(mo);
                SINKS.with(|s| s.borrow_mut().push(Sink { callee: dem.to_string(), args: a.to_vec(), mem: st.mem.clone(), path: st.path, ok, msg, len }));
                let z = self.d.mk(N::Null);
                let p = self.d.ite(ok, z, msg);
                return Some(Some(self.d.mk(N::Agg(vec![p, len].into()))));
            }
        }
        // text of error messages
        let text = dem.starts_with("alloc::fmt::format") || dem == "<alloc::string::String as core::convert::From<&str>>::from" || dem == "<str as alloc::string::ToString>::to_string" || dem == "<alloc::string::String as alloc::string::SpecToString>::spec_to_string" || dem.starts_with("<&str as alloc::string::SpecToString>") || dem == "<str as alloc::borrow::ToOwned>::to_owned" || dem == "<str>::to_owned";
        if text && !a.is_empty() {
            let mut xs: Vec<V> = vec![];
            let mut seen = vec![];
            for &v in &a[1..] { self.reachable_mem(st, v, &mut xs, &mut seen) }
            let (c, p, l) = (self.opq("itext capacity", &xs), self.opq("ptext", &xs), self.opq("itext length", &xs));
            for (i, (v, t)) in [(c, Ty::I(64)), (p, Ty::Ptr), (l, Ty::I(64))].into_iter().enumerate() { let q = self.gep_const(a[0], 8 * i as i128); self.store(st, q, &t, v) }
            return Some(Some(self.d.undef));
        }
        if dem.starts_with("core::ptr::drop_in_place::<alloc::string::String>") || dem.starts_with("core::ptr::drop_glue::<alloc::string::String>") { return Some(Some(self.d.undef)) }
        None
    }
    fn reachable_mem(&mut self, st: &St, v: V, xs: &mut Vec<V>, seen: &mut Vec<Obj>) {
        match self.d.get(v).clone() {
            N::Ptr(o, off) if matches!(self.d.objs[o as usize].0, OK::Local { .. }) => {
                xs.push(off);
                if seen.contains(&o) { return }
                seen.push(o);
                if let Some(data) = st.mem.get(&o) { let cells: Vec<V> = data.cells.values().map(|c| c.1).collect(); for c in cells { self.reachable_mem(st, c, xs, seen) } }
            }
            _ => xs.push(v),
        }
    }
    fn partition_point(&mut self, name: &Rc<str>, dem: &str, tys: &[Ty], a: &[V], st: &mut St) -> Option<V> {
        // <[T]>::partition_point::<C>(slice ptr, len, closure...)
        let full = format!("{}", rustc_demangle::demangle(name));
        let _ = dem;
        let Some(clo) = self.find_closure(name) else { self.problem(format!("predicate of {full} not found")); return Some(self.opq("ipp", a)) };
        let n = self.uview(a[1], 64, st.path);
        let elem = if full.contains("<[f32]>") { 4 } else { 8 };
        // closure environment in memory
        let env = self.d.new_obj(OK::Local { size: 64 }, "closure");
        let mut s2 = st.clone();
        s2.mem.insert(env, Rc::new(ObjData::default()));
        let z = self.d.zero;
        let envp = self.d.mk(N::Ptr(env, z));
        let mut off = 0;
        for (t, v) in tys.iter().zip(a).skip(2) { let p = self.gep_const(envp, off); self.store(&mut s2, p, t, *v); off += (t.size() as i128).max(8); }
        let nm = self.d.fresh_name("j");
        let j = self.d.mk(N::ISym(nm, 0, (1 << 60) - 1));
        let g = self.d.gt(n, j);
        s2.path = self.p.assume(self.d, s2.path, g, true);
        let je = self.d.scale(j, elem);
        let ep = self.gep(a[0], je);
        let f = self.func(&clo).unwrap();
        let r = self.invoke(&f, vec![envp, ep], &mut s2);
        let Some(r) = r else { self.problem("predicate panics".into()); return Some(self.opq("ipp", a)) };
        let r = self.to_bool(r);
        let nr = self.d.not(r);
        Some(self.d.first_with(n, nr, j))
    }
    fn find_closure(&mut self, name: &Rc<str>) -> Option<Rc<str>> {
        // the predicate is the only closure (or fn) named in the generic arguments of the instance; find it among
        // the functions reachable from its body
        let full = self.demangle(name);
        let i = full.find("partition_point::<")? + "partition_point::<".len();
        let want = &full[i..full.len() - 1].to_string();
        let mut seen = vec![name.clone()];
        let mut k = 0;
        while k < seen.len() && k < 60 {
            let Some(f) = self.func(&seen[k].clone()) else { k += 1; continue };
            for b in &f.blocks { for (ins, _) in &b.ins { if let Ins::Call { callee: Op::Global(g), .. } = ins {
                if seen.contains(g) || g.starts_with("llvm.") { continue }
                let d = self.demangle(g);
                if *d == **want { return Some(g.clone()) }
                seen.push(g.clone());
            } } }
            k += 1;
        }
        None
    }
    fn from_elem(&mut self, name: &Rc<str>, tys: &[Ty], a: &[V], st: &mut St) -> Option<V> {
        let _ = name;
        // (sret, elem, n[, caller location]) or (elem, n) depending on the ABI
        let (sret, rest) = if tys[0] == Ty::Ptr { (Some(a[0]), 1) } else { (None, 0) };
        let (elem, n) = (a[rest], a[rest + 1]);
        let n = self.uview(n, 64, st.path);
        let c = if tys[rest] == Ty::F32 { 'g' } else { 'f' };
        let nm = "heap";
        let o = self.d.new_obj(OK::Heap { len: n, elem: c }, nm);
        st.mem.insert(o, Rc::new(ObjData::default()));
        let _ = elem;
        let z = self.d.zero;
        let p = self.d.mk(N::Ptr(o, z));
        if let Some(s) = sret {
            self.store(st, s, &Ty::I(64), n);
            let q = self.gep_const(s, 8);
            self.store(st, q, &Ty::Ptr, p);
            let q = self.gep_const(s, 16);
            self.store(st, q, &Ty::I(64), n);
            return Some(self.d.undef);
        }
        Some(self.d.mk(N::Agg(vec![n, p, n].into())))
    }
}

fn kind_pfx(t: &Ty) -> &'static str { match t { Ty::I(1) => "b", Ty::I(_) => "i", Ty::F32 | Ty::F64 => "f", Ty::Ptr => "p", _ => "?" } }

/// a call of a library entry point from the binding layer
pub struct Sink { pub callee: String, pub args: Vec<V>, pub mem: Mem, pub path: Fid, pub ok: V, pub msg: V, pub len: V }
thread_local! { pub static SINKS: std::cell::RefCell<Vec<Sink>> = const { std::cell::RefCell::new(vec![]) }; }

pub fn strip_generics(s: &str) -> String {
    let mut r = String::new();
    let mut d = 0;
    for c in s.chars() { match c { '<' => d += 1, '>' => d -= 1, _ => if d == 0 { r.push(c) } } }
    r
}
