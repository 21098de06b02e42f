//! Property drivers: obligations per entry point, reported as JSON lines.
use crate::dom::*;
use crate::interp::{Write, W};
use crate::ir::Module;
use crate::prove::*;
use crate::q::*;
use crate::root::{self, Eval, Spec};
use rustc_hash::{FxHashMap as HashMap, FxHashSet as HashSet};

#[derive(Default)]
pub struct Report { pub obligations: u64, pub violations: Vec<String>, pub info: Vec<(String, String)>, pub regions: u64, pub fns: Vec<String> }
impl Report {
    pub fn viol(&mut self, s: String) { if self.violations.len() < 12 && !self.violations.contains(&s) { self.violations.push(s) } }
    pub fn ob(&mut self, ok: bool, s: impl FnOnce() -> String) -> bool { self.obligations += 1; if !ok { let m = s(); self.viol(m) } ok }
    pub fn put(&mut self, k: &str, v: String) { self.info.push((k.into(), v)) }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) } }
    o + "\""
}

pub struct Ctx { pub d: Dom, pub p: Prover, pub e: Eval, pub ok: Fid }
pub fn load(m: &Module, s: &Spec, nd: Option<i128>, opaque: &[&str]) -> Ctx {
    let (mut d, mut p) = (Dom::new(), Prover::new());
    let e = root::eval(&mut d, &mut p, m, s, nd, opaque);
    let z = d.eq0(e.status);
    let ok = p.assume(&mut d, e.base, z, false);
    Ctx { d, p, e, ok }
}
pub fn ndims(s: &Spec, nd: Option<i128>) -> usize { match (s.shape.as_str(), nd) { ("flat", _) if s.n > 0 => s.n as usize, ("grid" | "1d", _) => 1, (_, Some(n)) => n as usize, _ => s.n as usize } }
pub fn is1d(s: &Spec) -> bool { matches!(s.shape.as_str(), "1d" | "grid") }
pub fn class(s: &Spec) -> &'static str { if is1d(s) { "1d" } else { match s.method.as_str() { "cubic" => "cubic", "nearest" => "nearest", _ => "linear" } } }
pub fn label(s: &Spec, nd: Option<i128>) -> String {
    let m = match (s.method.as_str(), s.grid.as_str(), s.shape.as_str()) {
        ("linear", g, "flat") if s.n > 0 => format!("multilinear::{}", if g == "reg" { "regular" } else { "rectilinear" }),
        ("cubic", g, "flat") if s.n > 0 => format!("multicubic::{}", if g == "reg" { "regular" } else { "rectilinear" }),
        _ => String::new(),
    };
    let _ = m;
    match nd { Some(n) => format!("{}[ndims={}]", s.name, n), None => s.name.clone() }
}

/// the value written at an arbitrary point: (value, loop variable, facts)
pub struct Pt { pub val: V, pub k: Option<V>, pub f: Fid }
fn idx_facts(c: &mut Ctx, f: Fid, k: V, n: V) -> Fid {
    let a = c.d.ge0(k);
    let b = c.d.gt(n, k);
    c.p.assume_all(&mut c.d, f, &[a, b])
}
/// effective writes to an output slice under facts f
pub fn effective(c: &mut Ctx, name: &str, f: Fid) -> Vec<Write> {
    let logs: Vec<Write> = c.e.logs.iter().filter(|l| l.0 == name).flat_map(|l| l.2.clone()).collect();
    logs.into_iter().filter(|w| {
        if c.p.decide(&mut c.d, w.gate, f) == Some(false) { return false }
        if let W::Range { n, gate, .. } = &w.w {
            if c.p.decide(&mut c.d, *gate, f) == Some(false) { return false }
            let e = c.d.eq0(*n);
            if c.p.decide(&mut c.d, e, f) == Some(true) { return false }
        }
        true
    }).collect()
}
/// the single full pointwise write of the output, or why there is none
pub fn pointwise(c: &mut Ctx, name: &str) -> Result<Pt, String> {
    let f = c.ok;
    if c.p.bottom(f) { return Err("never succeeds".into()) }
    let o = c.e.logs.iter().find(|l| l.0 == name).map(|l| l.1).ok_or("no output")?;
    let ws = effective(c, name, f);
    // later writes win: the last one must cover everything
    let Some(w) = ws.last() else { return Err("no element of the output is written on success".into()) };
    let elem = match &c.d.objs[o as usize].0 { OK::Out { elem, .. } => *elem, _ => 'f' };
    let len = c.d.len(o);
    match w.w.clone() {
        W::Range { n, var, off, size, val, gate } => {
            let f1 = idx_facts(c, f, var, n);
            let nn = c.p.resolve(&mut c.d, n, f);
            let full = { let df = c.d.sub_(nn, len); c.p.prove(&mut c.d, df, f) };
            if !full { return Err(format!("only the first {} of {} elements are certain to be written on success", c.d.show_d(nn, 6), c.d.show(len))) }
            if c.p.decide(&mut c.d, w.gate, f) != Some(true) { return Err(format!("elements are written only when {}", c.d.show_d(w.gate, 6))) }
            if c.p.decide(&mut c.d, gate, f1) != Some(true) { return Err(format!("elements are written only when {}", c.d.show_d(gate, 6))) }
            let want = c.d.scale(var, elem_size(elem));
            let off = c.p.resolve(&mut c.d, off, f1);
            if off != want || size as i128 != elem_size(elem) { return Err(format!("element k is written at byte {} instead of {}", c.d.show_d(off, 6), c.d.show(want))) }
            Ok(Pt { val, k: Some(var), f: f1 })
        }
        W::At { off, .. } => Err(format!("only element at byte {} is written", c.d.show(off))),
        W::Unknown(s) => Err(format!("unanalysed write ({s})")),
    }
}
pub fn point(c: &mut Ctx) -> Result<Pt, String> {
    if let Some((_, v)) = c.e.outs.iter().find(|o| o.0 == "out") { let v = *v; if c.p.bottom(c.ok) { return Err("never succeeds".into()) } return Ok(Pt { val: v, k: None, f: c.ok }) }
    pointwise(c, "out")
}

pub struct RegionVal { pub name: String, pub imgs: Vec<u64>, pub refs: Vec<u64>, pub reads_bad: Vec<String>, pub foreign: Vec<String>, pub err: Option<String>, pub trunc: u32 }
pub fn tname(regs: &[Reg], lin: Option<bool>) -> String { format!("{}{}", regs.iter().map(|r| r.name).collect::<Vec<_>>().join(" x "), match lin { Some(true) => ", linearized extrapolation", Some(false) => "", None => "" }) }

/// rule of the 1-D interpolators: acceptable images (several on a cell boundary)
fn ref1d(method: &str, de: &DimEnv) -> Vec<u64> {
    let v = |k: u64| hs("vals", &[k]);
    let n = de.nf;
    let x = de.x;
    let line = |c: u64| { let (a, b) = (gridpt(de, 0, c), gridpt(de, 0, addm(c, 1))); let t = divm(subm(x, a), subm(b, a)); addm(v(c), mulm(t, subm(v(addm(c, 1)), v(c)))) };
    let last = subm(n, 1);
    match de.reg.name {
        "below" => match method { "linear" => vec![line(0)], _ => vec![v(0)] },
        "above" => match method { "linear" => vec![line(subm(n, 2))], _ => vec![v(last)] },
        _ if de.reg.node => {
            let c = de.if_;
            match method {
                "linear" | "linhold" | "nearest" => vec![v(c)],
                // a boundary belongs to either adjacent cell
                "left" => match de.reg.name { "first node" => vec![v(0)], "last node" => vec![v(subm(n, 2)), v(last)], _ => vec![v(c), v(subm(c, 1))] },
                _ => match de.reg.name { "first node" => vec![v(1), v(0)], "last node" => vec![v(last)], _ => vec![v(c), v(addm(c, 1))] },
            }
        }
        _ => {
            let c = de.if_;
            match method {
                "linear" | "linhold" => vec![line(c)],
                "left" => vec![v(c)],
                "right" => vec![v(addm(c, 1))],
                _ => vec![v(if de.reg.half == 1 { addm(c, 1) } else { c })],
            }
        }
    }
}
pub fn root_regions(s: &Spec) -> Vec<Reg> { if is1d(s) { regions(if s.method == "nearest" { "nearest" } else { "linear" }, &s.grid) } else { regions(class(s), &s.grid) } }
/// evaluate the point value in every region
pub fn sweep(c: &mut Ctx, pt: &Pt, cap: usize, sel: u8, rep: &mut Report) -> Vec<RegionVal> {
    let s = c.e.spec.clone();
    let n = ndims(&s, c.e.nd);
    let mut regs = root_regions(&s);
    let inner = |r: &Reg| matches!(r.name, "interior cell" | "interior node");
    if sel == 7 { regs.retain(|r| matches!(r.name, "interior cell" | "interior node" | "second node" | "last but one node")) }
    let lins: Vec<Option<bool>> = if s.method == "cubic" { vec![Some(false), Some(true)] } else { vec![None] };
    let mut out = vec![];
    for t in tuples(regs.len(), n, cap) {
        let rs: Vec<Reg> = t.iter().map(|&i| regs[i].clone()).collect();
        if sel == 8 && rs.iter().all(inner) { continue }
        for &lin in &lins {
            let name = tname(&rs, lin);
            // sub-regions: integer conditions the code distinguishes inside the region
            let mut work: Vec<(Fid, u32)> = vec![(pt.f, 0)];
            while let Some((f, depth)) = work.pop() {
                let mut ev = Ev::new(&mut c.d, &mut c.p, f, &s.grid, is1d(&s), &rs, s.ty, lin, pt.k);
                rep.regions += 1;
                if ev.p.bottom(ev.f) {
                    if depth == 0 { out.push(RegionVal { name: name.clone(), imgs: vec![], refs: vec![], reads_bad: vec![], foreign: vec![], err: Some("no valid input reaches this region (the entry point rejects it)".into()), trunc: 0 }) }
                    continue;
                }
                let r = ev.images(pt.val);
                if let (Err(_), Some(g)) = (&r, ev.split) {
                    if depth < 6 {
                        let ng = ev.d.not(g);
                        let f1 = ev.p.assume(ev.d, f, g, false);
                        let f2 = ev.p.assume(ev.d, f, ng, false);
                        work.push((f1, depth + 1));
                        work.push((f2, depth + 1));
                        continue;
                    }
                }
                let fp = footprint(if is1d(&s) { "linear" } else { class(&s) }, &ev.dims);
                let bad: Vec<String> = ev.loads.iter().filter(|l| !fp.contains(l.0)).map(|l| ev.d.show_d(*l.1, 8)).collect();
                let refs = if is1d(&s) { ref1d(&s.method, &ev.dims[0]) } else { vec![reference(class(&s), &ev.dims, lin == Some(true))] };
                let foreign = std::mem::take(&mut ev.foreign);
                let trunc = ev.trunc;
                match r {
                    Ok(v) => { let mut imgs: Vec<u64> = v.iter().map(|x| x.0).collect(); imgs.sort(); imgs.dedup(); out.push(RegionVal { name: name.clone(), imgs, refs, reads_bad: bad, foreign, err: None, trunc }) }
                    Err(e) => out.push(RegionVal { name: name.clone(), imgs: vec![], refs, reads_bad: bad, foreign, err: Some(e), trunc }),
                }
            }
        }
    }
    out
}
/// the possible results of each region, those that are the documented value under its name
pub fn tokens(v: &[RegionVal]) -> std::collections::BTreeMap<String, Result<std::collections::BTreeSet<String>, String>> {
    let mut m: std::collections::BTreeMap<String, Result<std::collections::BTreeSet<String>, String>> = Default::default();
    for r in v {
        let e = m.entry(r.name.clone()).or_insert_with(|| Ok(Default::default()));
        match &r.err {
            Some(x) => { if e.is_ok() { *e = Err(x.clone()) } }
            None => {
                let t: Vec<String> = r.imgs.iter().map(|x| match r.refs.iter().position(|q| q == x) { Some(i) => format!("rule{i}"), None => format!("{x:x}") }).collect();
                if let Ok(s) = e { s.insert(t.join("|")); }
            }
        }
    }
    m
}
/// region sweep, JSON of images for cross-configuration comparison
pub fn values(c: &mut Ctx, cap: usize, rep: &mut Report, what: &str) -> Vec<RegionVal> {
    let l = label(&c.e.spec, c.e.nd);
    match point(c) {
        Err(e) => { rep.ob(false, || format!("{l}: {e}")); vec![] }
        Ok(pt) => {
            let v = sweep(c, &pt, cap, if what == "formula7" { 7 } else if what == "formula8" { 8 } else { 0 }, rep);
            for r in &v {
                match what {
                    "formula" | "formula7" | "formula8" => { rep.ob(r.err.is_none() && !r.imgs.is_empty() && r.imgs.iter().all(|x| r.refs.contains(x)), || match &r.err { Some(e) => format!("{l}: region [{}]: {e}", r.name), None => format!("{l}: in region [{}] the result is not the documented interpolant", r.name) }); }
                    "reads" => { rep.ob(r.reads_bad.is_empty() && r.err.is_none(), || match &r.err { Some(e) => format!("{l}: region [{}]: {e}", r.name), None => format!("{l}: in region [{}] the result reads grid value at offset {} outside the cell", r.name, r.reads_bad.join(", ")) }); }
                    _ => {}
                }
            }
            v
        }
    }
}

// ------------------------------------------------------------------ acceptance conditions
/// outcome assigned to one float comparison quantity
#[derive(Clone, Debug)]
pub enum Cls { Sign(u64, i8), NaN(u64), Repr(u64, i8) } // D has this sign | this operand is NaN | cell number: -1 below, 0 representable, 1 above the integer range
pub enum Cond { Int(V), Less { d: u64, nan: Vec<u64>, what: String }, Repr { q: u64, x: u64, what: String } }
pub struct Cnd { pub group: &'static str, pub what: String, pub c: Cond }

pub fn ratio_pos(a: u64, b: u64) -> Option<i8> {
    // a = k*b with k a small positive (1) or negative (-1) rational
    if b == 0 { return None }
    let r = divm(a, b);
    for n in 1..=8i128 { for m in 1..=8i128 { let v = divm(intm(n), intm(m)); if r == v { return Some(1) } if r == negm(v) { return Some(-1) } } }
    None
}
/// truth of a float comparison under one class assignment
fn class_truth(ev: &mut Ev, k: Fc, a: V, b: V, cls: &[Cls]) -> Option<bool> {
    // NaN operands
    for c in cls { if let Cls::NaN(x) = c {
        let hit = ev.d.reach(&[a, b]).into_iter().any(|v| matches!(ev.d.get(v), N::FElem(..) | N::FSym(_)) && ev.rf(v) == Some(*x));
        if hit { return Some(k == Fc::Uno) }
    } }
    if k == Fc::Uno { return Some(false) }
    let (x, y) = (ev.rf(a)?, ev.rf(b)?);
    for c in cls {
        match c {
            Cls::Sign(d, s) => if let Some(r) = ratio_pos(subm(x, y), *d) {
                let s = r * s;
                return Some(match k { Fc::Lt => s < 0, Fc::Le => s <= 0, _ => s == 0 });
            },
            Cls::Repr(q, s) => {
                // comparisons of the cell number with integer-range limits
                let lim = 9223372036854775808.0f64;
                let prev = 9223372036854774784.0f64;
                let isq = |f: u64| f == *q || f == hs("floor", &[*q]) || f == hs("trunc", &[*q]);
                let (cst, q_left) = match (ev.d.get(a), ev.d.get(b)) {
                    (N::FConst(c), _) if isq(y) => (f64::from_bits(*c), false),
                    (_, N::FConst(c)) if isq(x) => (f64::from_bits(*c), true),
                    _ => continue,
                };
                let r = match (s, q_left, k) {
                    (0, true, Fc::Lt) => if cst >= lim { Some(true) } else if cst <= -lim { Some(false) } else { None },
                    (0, true, Fc::Le) => if cst >= prev { Some(true) } else if cst < -lim { Some(false) } else { None },
                    (0, false, Fc::Le) => if cst <= -lim { Some(true) } else if cst >= lim { Some(false) } else { None },
                    (0, false, Fc::Lt) => if cst < -lim { Some(true) } else if cst >= prev { Some(false) } else { None },
                    (-1, true, _) => if cst >= -lim { Some(true) } else { None },
                    (-1, false, _) => if cst >= -lim { Some(false) } else { None },
                    (1, true, Fc::Lt) => if cst <= lim { Some(false) } else { None },
                    (1, true, Fc::Le) => if cst < lim { Some(false) } else { None },
                    (1, false, Fc::Le) => if cst <= lim { Some(true) } else { None },
                    (1, false, Fc::Lt) => if cst < lim { Some(true) } else { None },
                    _ => None,
                };
                if r.is_some() { return r }
            }
            Cls::NaN(_) => {}
        }
    }
    None
}
/// three-valued truth of a boolean whose float comparisons are classified
fn tri(ev: &mut Ev, v: V, cls: &[Cls], f: Fid, memo: &mut HashMap<V, Option<bool>>) -> Option<bool> {
    if let Some(r) = memo.get(&v) { return *r }
    let r = match ev.d.get(v).clone() {
        N::True => Some(true),
        N::False => Some(false),
        N::Not(x) => tri(ev, x, cls, f, memo).map(|b| !b),
        N::And(xs) => { let mut all = true; let mut r = None; for &x in xs.iter() { match tri(ev, x, cls, f, memo) { Some(false) => { r = Some(false); break } Some(true) => {} None => all = false } } if r.is_none() && all { Some(true) } else { r } }
        N::Or(xs) => { let mut all = true; let mut r = None; for &x in xs.iter() { match tri(ev, x, cls, f, memo) { Some(true) => { r = Some(true); break } Some(false) => {} None => all = false } } if r.is_none() && all { Some(false) } else { r } }
        N::FCmp(k, a, b) => class_truth(ev, k, a, b, cls),
        N::Ite(c, a, b) => match tri(ev, c, cls, f, memo) { Some(true) => tri(ev, a, cls, f, memo), Some(false) => tri(ev, b, cls, f, memo), None => { let (x, y) = (tri(ev, a, cls, f, memo), tri(ev, b, cls, f, memo)); if x == y { x } else { None } } },
        _ => ev.p.decide(ev.d, v, f),
    };
    memo.insert(v, r);
    r
}
/// possible constants of an integer under facts
fn leaves(d: &mut Dom, p: &mut Prover, v: V, f: Fid, out: &mut Vec<Option<i128>>, depth: u32) {
    if p.bottom(f) { return }
    match *d.get(v) {
        N::Ite(c, a, b) if depth < 12 => match p.decide(d, c, f).or_else(|| { let r = p.resolve(d, c, f); if r == d.t { Some(true) } else if r == d.f { Some(false) } else { None } }) {
            Some(true) => leaves(d, p, a, f, out, depth),
            Some(false) => leaves(d, p, b, f, out, depth),
            None => { let t = p.assume(d, f, c, false); leaves(d, p, a, t, out, depth + 1); let n = d.not(c); let t = p.assume(d, f, n, false); leaves(d, p, b, t, out, depth + 1) }
        },
        _ => { let r = p.resolve(d, v, f); let c = d.as_const(r); if !out.contains(&c) { out.push(c) } }
    }
}
/// facts of a class assignment for the comparisons and searches occurring in `vs`.
/// `exists`: some element of a batch is in this class (else: every element is).
pub fn class_facts(c: &mut Ctx, f: Fid, vs: &[V], kvars: bool, cls: &[Cls], exists: bool) -> Fid {
    let _ = kvars;
    let (grid, one_d, ty) = (c.e.spec.grid.clone(), is1d(&c.e.spec), c.e.spec.ty);
    let nodes = c.d.reach(vs);
    let mut f = f;
    for v in nodes {
        match c.d.get(v).clone() {
            N::FCmp(k, a, b) => {
                if c.d.contains(v, &mut |n| matches!(n, N::Bound(_))) { continue }
                let mut ev = Ev::new(&mut c.d, &mut c.p, 0, &grid, one_d, &[], ty, None, None);
                if let Some(t) = class_truth(&mut ev, k, a, b, cls) { let l = if t { v } else { c.d.not(v) }; f = c.p.assume(&mut c.d, f, l, false) }
            }
            N::First(m, body) => {
                if c.d.bdepth(v) > 1 { continue }
                let dep = c.d.bdepth(body) + 1;
                let b = c.d.mk(N::Bound(dep));
                let mut ev = Ev::new(&mut c.d, &mut c.p, 0, &grid, one_d, &[], ty, None, Some(b));
                let t = tri(&mut ev, body, cls, f, &mut HashMap::default());
                match (t, exists) {
                    (Some(false), false) => { let df = c.d.sub_(v, m); let e = c.d.eq0(df); f = c.p.assume(&mut c.d, f, e, false) }
                    (Some(true), _) => { let l = c.d.gt(m, v); f = c.p.assume(&mut c.d, f, l, false) }
                    _ => {}
                }
            }
            _ => {}
        }
    }
    f
}
fn obj(c: &Ctx, nm: &str) -> Option<Obj> { let s = if c.e.spec.ty == 'g' { format!("{nm}32") } else { nm.to_string() }; c.d.named.get(&s).or_else(|| c.d.named.get(nm)).copied() }
fn olen(c: &mut Ctx, nm: &str) -> V { let o = obj(c, nm).unwrap(); c.d.len(o) }
fn sublen(c: &mut Ctx, nm: &str, i: usize) -> V { let o = obj(c, nm).unwrap(); let k = c.d.int(i as i128); let s = c.d.sub(o, k); c.d.len(s) }
fn size(c: &mut Ctx, i: usize) -> V { if c.e.spec.grid == "reg" { let o = obj(c, "dims").unwrap(); let off = c.d.int(8 * i as i128); c.d.mk(N::IElem(o, off, 64)) } else { sublen(c, "grids", i) } }
/// image of an element read outside any region (used to name operands)
fn el(nm: &str, k: &[u64]) -> u64 { hs(nm, k) }

pub fn conditions(c: &mut Ctx) -> Vec<Cnd> {
    let s = c.e.spec.clone();
    let n = ndims(&s, c.e.nd);
    let mut v: Vec<Cnd> = vec![];
    macro_rules! int { ($g:expr, $e:expr, $($w:tt)*) => {{ let e = $e; v.push(Cnd { group: $g, what: format!($($w)*), c: Cond::Int(e) }) }} }
    let eqlen = |c: &mut Ctx, a: V, b: V| c.d.eq(a, b);
    if is1d(&s) {
        let nv = olen(c, "vals");
        if s.grid == "rect" { let g = olen(c, "grid"); let e = eqlen(c, g, nv); int!("grid", e, "as many values as coordinates"); }
        let two = c.d.int(2);
        int!("grid", c.d.ge(nv, two), "at least two values");
        if s.kind == "bat" || s.kind == "alloc" { let (a, b) = (olen(c, "locs"), olen(c, "out")); int!(if s.kind == "bat" { "batch" } else { "copy" }, c.d.eq(a, b), "as many locations as outputs"); }
        if s.grid == "reg" && matches!(s.kind.as_str(), "at" | "idx" | "one" | "bat" | "alloc") {
            let x = if s.kind == "bat" || s.kind == "alloc" { let b = c.d.mk(N::Bound(1)); let _ = b; 0 } else { 0 };
            let _ = x;
            v.push(Cnd { group: "repr", what: "representable cell number".into(), c: Cond::Repr { q: 0, x: 0, what: String::new() } });
        }
        return v;
    }
    let cb = s.kind == "cb";
    let min = if cb { 1 } else if s.method == "cubic" { 4 } else { 2 };
    let nn = c.d.int(n as i128);
    let dynamic = s.shape == "rec" || s.n == 0;
    if dynamic && s.grid == "reg" {
        for a in ["starts", "steps"] { let l = olen(c, a); int!(if cb { "batch" } else { "grid" }, c.d.eq(l, nn), "one entry of {a} per dimension"); }
    }
    let mut prod = c.d.one;
    for i in 0..n {
        let z = size(c, i);
        let m = c.d.int(min);
        int!("grid", c.d.ge(z, m), "at least {min} points in dimension {i}");
        prod = c.d.mul(prod, z);
    }
    if !cb {
        let nv = olen(c, "vals");
        int!("grid", c.d.eq(nv, prod), "as many values as grid points");
        for i in 0..n {
            let iu = i as u64;
            if s.grid == "reg" { let st = el("steps", &[iu]); v.push(Cnd { group: "grid", what: format!("positive step in dimension {i}"), c: Cond::Less { d: negm(st), nan: vec![st], what: String::new() } }) }
            else { let (a, b) = (el("grids", &[iu, 0]), el("grids", &[iu, 1])); v.push(Cnd { group: "grid", what: format!("increasing first coordinates in dimension {i}"), c: Cond::Less { d: subm(a, b), nan: vec![a, b], what: String::new() } }) }
        }
    }
    match s.kind.as_str() {
        "new" => {}
        "one" => {
            if dynamic { let l = olen(c, "x"); int!("batch", c.d.eq(l, nn), "one coordinate per dimension") }
        }
        _ => {
            let g = if s.kind == "alloc" { "copy" } else { "batch" };
            if dynamic { let l = olen(c, "obs"); int!("batch", c.d.eq(l, nn), "one coordinate slice per dimension") }
            if cb { let l = olen(c, "flag"); int!("batch", c.d.eq(l, nn), "one flag per dimension") }
            else { for i in 0..n { let (a, b) = (sublen(c, "obs", i), olen(c, "out")); int!(if i == 0 { g } else { "batch" }, c.d.eq(a, b), "as many coordinates as outputs in dimension {i}") } }
        }
    }
    if s.grid == "reg" && matches!(s.kind.as_str(), "one" | "bat" | "fn" | "alloc") {
        for i in 0..n { v.push(Cnd { group: "repr", what: format!("representable cell number in dimension {i}"), c: Cond::Repr { q: i as u64, x: 0, what: String::new() } }) }
    }
    v
}
/// image of (x-start)/step and of x as read by this entry point, for one dimension
fn coord_imgs(c: &mut Ctx, i: usize) -> (u64, u64) {
    let s = c.e.spec.clone();
    let (grid, one_d, ty) = (s.grid.clone(), is1d(&s), s.ty);
    let w32 = ty == 'g';
    let esz = elem_size(ty);
    let bat = matches!(s.kind.as_str(), "bat" | "fn" | "alloc" | "cb");
    let xv = if one_d {
        if bat { let o = obj(c, "locs").unwrap(); let b = c.d.mk(N::Bound(1)); let off = c.d.scale(b, esz); c.d.mk(N::FElem(o, off, w32)) } else { let nm: std::rc::Rc<str> = root::objname("loc", ty).into(); c.d.mk(N::FSym(nm)) }
    } else if bat { let o = obj(c, "obs").unwrap(); let k = c.d.int(i as i128); let so = c.d.sub(o, k); let b = c.d.mk(N::Bound(1)); let off = c.d.scale(b, esz); c.d.mk(N::FElem(so, off, w32)) }
    else { let o = obj(c, "x").unwrap(); let off = c.d.int(esz * i as i128); c.d.mk(N::FElem(o, off, w32)) };
    let (st, sp) = if one_d { let a: std::rc::Rc<str> = root::objname("start", ty).into(); let b: std::rc::Rc<str> = root::objname("step", ty).into(); (c.d.mk(N::FSym(a)), c.d.mk(N::FSym(b))) } else if grid == "reg" {
        let (a, b) = (obj(c, "starts").unwrap(), obj(c, "steps").unwrap());
        let off = c.d.int(esz * i as i128);
        (c.d.mk(N::FElem(a, off, w32)), c.d.mk(N::FElem(b, off, w32)))
    } else { (xv, xv) };
    let b = c.d.mk(N::Bound(1));
    let mut ev = Ev::new(&mut c.d, &mut c.p, 0, &grid, one_d, &[], ty, None, Some(b));
    let (x, a, h) = (ev.rf(xv).unwrap(), ev.rf(st).unwrap(), ev.rf(sp).unwrap());
    (divm(subm(x, a), h), x)
}
pub fn status(c: &mut Ctx, rep: &mut Report, groups: &[&str]) {
    let s = c.e.spec.clone();
    let l = label(&s, c.e.nd);
    let n = ndims(&s, c.e.nd);
    let st = c.e.status;
    let base = c.e.base;
    // dimension counts that must be refused outright
    let dynamic = !is1d(&s) && (s.shape == "rec" || s.n == 0);
    if dynamic {
        let max = if s.kind == "cb" { i128::MAX } else if s.n > 0 { s.n } else if s.method == "nearest" { 6 } else { 8 };
        let nd = c.e.nd.unwrap_or(0);
        if nd < 0 || (n as i128) > max || (nd == 0 && s.kind != "cb") {
            let mut o = vec![];
            leaves(&mut c.d, &mut c.p, st, base, &mut o, 0);
            rep.ob(!o.contains(&Some(0)) && !o.contains(&None), || format!("{l}: may succeed with an unsupported number of dimensions"));
            for nm in ["out"] { let w = effective(c, nm, base); rep.ob(w.is_empty(), || format!("{l}: may write its output with an unsupported number of dimensions")); }
            return;
        }
    }
    let mut cs = conditions(c);
    let mut good_cls = vec![];
    for q in cs.iter_mut() {
        match &mut q.c {
            Cond::Int(_) => {}
            Cond::Less { d, .. } => good_cls.push(Cls::Sign(*d, -1)),
            Cond::Repr { q, x, .. } => { let (a, b) = coord_imgs(c, *q as usize); *q = a; *x = b; good_cls.push(Cls::Repr(a, 0)) }
        }
    }
    let ints: Vec<V> = cs.iter().filter_map(|q| if let Cond::Int(v) = q.c { Some(v) } else { None }).collect();
    // everything fine: must succeed
    let f = c.p.assume_all(&mut c.d, base, &ints);
    let f = class_facts(c, f, &[st], false, &good_cls, false);
    if rep.ob(!c.p.bottom(f), || format!("{l}: the acceptance conditions contradict the analysed code")) {
        let mut o = vec![];
        leaves(&mut c.d, &mut c.p, st, f, &mut o, 0);
        rep.ob(o == vec![Some(0)], || { let r = c.p.resolve(&mut c.d, st, f); format!("{l}: refuses (or may refuse) valid input: result code {}", c.d.show_d(r, 10)) });
    }
    // each violated condition alone must fail
    let outs: Vec<String> = c.e.logs.iter().map(|x| x.0.clone()).filter(|x| x == "out").collect();
    for q in &cs {
        if !groups.contains(&q.group) { continue }
        let cases: Vec<(String, Option<V>, Vec<Cls>)> = match &q.c {
            Cond::Int(v) => { let x = c.d.not(*v); vec![(String::new(), Some(x), vec![])] }
            Cond::Less { d, nan, .. } => {
                let mut w = vec![(" (zero)".to_string(), None, vec![Cls::Sign(*d, 0)]), (" (negative)".to_string(), None, vec![Cls::Sign(*d, 1)])];
                for x in nan { w.push((" (NaN)".into(), None, vec![Cls::NaN(*x)])) }
                w
            }
            Cond::Repr { q, x, .. } => vec![(" (below the integer range)".into(), None, vec![Cls::Repr(*q, -1)]), (" (above the integer range)".into(), None, vec![Cls::Repr(*q, 1)]), (" (NaN)".into(), None, vec![Cls::NaN(*x)])],
        };
        for (w, lit, cls) in cases {
            let mut f = base;
            if q.group == "repr" { // valid grid and batch, other dimensions unconstrained
                f = c.p.assume_all(&mut c.d, f, &ints);
                let gc: Vec<Cls> = good_cls.iter().filter(|x| matches!(x, Cls::Sign(..))).cloned().collect();
                f = class_facts(c, f, &[st], false, &gc, false);
                if let Some(o) = obj(c, "out") { if matches!(c.d.objs[o as usize].0, OK::Out { .. }) { let ln = c.d.len(o); let a = c.d.addc(ln, -1); let g = c.d.ge0(a); f = c.p.assume(&mut c.d, f, g, false) } }
            }
            if let Some(x) = lit { f = c.p.assume(&mut c.d, f, x, false) }
            let f = class_facts(c, f, &[st], false, &cls, true);
            if c.p.bottom(f) { rep.ob(true, String::new); continue }
            let mut o = vec![];
            leaves(&mut c.d, &mut c.p, st, f, &mut o, 0);
            let bad = o.contains(&Some(0)) || o.contains(&None);
            rep.ob(!bad, || format!("{l}: may succeed without: {}{w}", q.what));
            if q.group == "batch" {
                for nm in &outs {
                    let ws = effective(c, nm, f);
                    rep.ob(ws.is_empty(), || { let g = ws[0].gate; format!("{l}: writes its output without: {} (write happens when {})", q.what, c.d.show_d(g, 6)) });
                }
            }
        }
    }
}

// ------------------------------------------------------------------ bounds checks
pub fn bounds(c: &mut Ctx, rep: &mut Report) {
    let s = c.e.spec.clone();
    let l = label(&s, c.e.nd);
    let n = ndims(&s, c.e.nd);
    let f = c.ok;
    if !rep.ob(!c.p.bottom(f), || format!("{l}: never succeeds")) { return }
    let fl = obj(c, "flag").unwrap();
    let nn = c.d.int(n as i128);
    let fl_len = c.d.len(fl);
    let ws = effective(c, "flag", f);
    let (grid, ty) = (s.grid.clone(), s.ty);
    let w32 = ty == 'g';
    let esz = elem_size(ty);
    for i in 0..n {
        // the last certain write of flag i
        let mut val = None;
        for w in &ws {
            match w.w.clone() {
                W::At { off, val: v, .. } => { let o = c.p.resolve(&mut c.d, off, f); if c.d.as_const(o) == Some(i as i128) { let g = c.p.decide(&mut c.d, w.gate, f); val = if g == Some(true) { Some(v) } else { match val { Some(old) => { let k = c.d.ite(w.gate, v, old); Some(k) } None => None } } } else if c.d.as_const(o).is_none() { val = None } }
                W::Range { n: cnt, var, off, val: v, gate, .. } => {
                    let k = c.d.int(i as i128);
                    let o = c.d.sub_(off, var);
                    let o = c.p.resolve(&mut c.d, o, f);
                    let cn = c.p.resolve(&mut c.d, cnt, f);
                    let inr = { let t = c.d.gt(cn, k); c.p.decide(&mut c.d, t, f) == Some(true) };
                    let g = { let t = c.d.subst(gate, &[(var, k)]); let t = c.d.and2(t, w.gate); c.p.decide(&mut c.d, t, f) == Some(true) };
                    val = if o == c.d.zero && inr && g { Some(c.d.subst(v, &[(var, k)])) } else { None };
                }
                W::Unknown(_) => val = None,
            }
        }
        let Some(val) = val else { rep.ob(false, || format!("{l}: flag {i} is not certain to be written on success")); continue };
        // comparison quantities
        let so = { let o = obj(c, "obs").unwrap(); let k = c.d.int(i as i128); c.d.sub(o, k) };
        let b = c.d.mk(N::Bound(1));
        let off = c.d.scale(b, esz);
        let xv = c.d.mk(N::FElem(so, off, w32));
        let (lo, hi) = if grid == "reg" {
            let (a, h) = (obj(c, "starts").unwrap(), obj(c, "steps").unwrap());
            let off = c.d.int(esz * i as i128);
            let (a, h) = (c.d.mk(N::FElem(a, off, w32)), c.d.mk(N::FElem(h, off, w32)));
            let z = size(c, i);
            let z1 = c.d.addc(z, -1);
            let r = c.d.from_i(z1);
            let m = c.d.fbin(Fo::Mul, h, r);
            (a, c.d.fbin(Fo::Add, a, m))
        } else {
            let g = { let o = obj(c, "grids").unwrap(); let k = c.d.int(i as i128); c.d.sub(o, k) };
            let z = c.d.len(g);
            let o1 = c.d.addc(z, -1);
            let o1 = c.d.scale(o1, esz);
            let z0 = c.d.zero;
            (c.d.mk(N::FElem(g, z0, w32)), c.d.mk(N::FElem(g, o1, w32)))
        };
        let tol = { let nm: std::rc::Rc<str> = root::objname("atol", ty).into(); c.d.mk(N::FSym(nm)) };
        let (x, a, bb, t) = { let mut ev = Ev::new(&mut c.d, &mut c.p, f, &grid, false, &[], ty, None, Some(b)); (ev.rf(xv).unwrap(), ev.rf(lo).unwrap(), ev.rf(hi).unwrap(), ev.rf(tol).unwrap()) };
        let da = addm(subm(x, a), t);
        let db = subm(subm(x, bb), t);
        let mut classes: Vec<(String, Vec<Cls>, bool)> = vec![];
        for sa in [-1i8, 0, 1] { for sb in [-1i8, 0, 1] {
            // (db >= 0 with da <= 0 needs an empty extent or negative tolerance; both flag)
            classes.push((format!("coordinate {} the low limit and {} the high limit", ["beyond", "exactly at", "inside"][(sa + 1) as usize], ["inside", "exactly at", "beyond"][(sb + 1) as usize]), vec![Cls::Sign(da, sa), Cls::Sign(db, sb)], sa <= 0 || sb >= 0));
        } }
        classes.push(("NaN coordinate".into(), vec![Cls::NaN(x)], false));
        // resolve min/max of the extent under positive steps
        let val = { 
            let mut ev = Ev::new(&mut c.d, &mut c.p, f, &grid, false, &[], ty, None, Some(b));
            ev.set_sign(subm(a, bb), -1);
            simplify_minmax(&mut ev, val)
        };
        for (w, cls, bad) in classes {
            let f1 = class_facts(c, f, &[val], false, &cls, bad);
            let ln = c.d.len(so);
            let f1 = if bad { let a = c.d.addc(ln, -1); let g = c.d.ge0(a); c.p.assume(&mut c.d, f1, g, false) } else { f1 };
            let mut o = vec![];
            leaves(&mut c.d, &mut c.p, val, f1, &mut o, 0);
            let want = vec![Some(bad as i128)];
            rep.ob(o == want, || { let r = c.p.resolve(&mut c.d, val, f1); format!("{l}: flag {i} is not {} for {} ({})", bad, w, c.d.show_d(r, 8)) });
        }
    }
    // exactly n flags
    let e = c.d.eq(fl_len, nn);
    let ok = c.p.decide(&mut c.d, e, f) == Some(true);
    rep.ob(ok, || format!("{l}: succeeds with a different number of flags than dimensions"));
}
fn simplify_minmax(ev: &mut Ev, v: V) -> V {
    fn go(ev: &mut Ev, v: V, memo: &mut HashMap<V, V>) -> V {
        if let Some(&r) = memo.get(&v) { return r }
        let n = ev.d.get(v).clone();
        let r = match n {
            N::FBin(o @ (Fo::Min | Fo::Max), a, b) => {
                let (x, y) = (ev.rf(a), ev.rf(b));
                match (x, y) { (Some(x), Some(y)) => match ev.sign(subm(x, y)) { Some(s) => if (s <= 0) == (o == Fo::Min) { a } else { b }, None => v }, _ => v }
            }
            _ => {
                let mut ch = vec![];
                ev.d.children(v, &mut ch);
                let mut m = vec![];
                for x in ch { let y = go(ev, x, memo); if x != y { m.push((x, y)) } }
                if m.is_empty() { v } else { ev.d.rebuild(v, &mut |_, x| m.iter().find(|q| q.0 == x).map_or(x, |q| q.1)) }
            }
        };
        memo.insert(v, r);
        r
    }
    go(ev, v, &mut HashMap::default())
}

// ------------------------------------------------------------------ 1-D sampling
pub fn sample(c: &mut Ctx, rep: &mut Report) {
    let s = c.e.spec.clone();
    let l = label(&s, c.e.nd);
    let f = c.ok;
    if !rep.ob(!c.p.bottom(f), || format!("{l}: never succeeds")) { return }
    let outs: Vec<(String, V)> = c.e.outs.clone();
    for r in regions("linear", &s.grid) {
        let mut work: Vec<(Fid, u32)> = vec![(f, 0)];
        while let Some((f, depth)) = work.pop() {
        let mut ev = Ev::new(&mut c.d, &mut c.p, f, &s.grid, true, &[r.clone()], s.ty, None, None);
        rep.regions += 1;
        if ev.p.bottom(ev.f) { if depth == 0 { let m = format!("{l}: region [{}]: no valid input reaches it", r.name); rep.viol(m); } continue }
        let mut split = None;
        let de = ev.dims[0].clone();
        let n = de.nf;
        let cells: Vec<u64> = match r.name { "below" | "first node" => vec![0], "above" | "last node" => vec![subm(n, 2)], _ if r.node => vec![de.if_, subm(de.if_, 1)], _ => vec![de.if_] };
        let want_flag = match r.name { "below" => 1, "above" => 2, _ => 0 };
        let mut got: HashMap<String, u64> = HashMap::default();
        for (nm, v) in &outs {
            if ev.d.kind(*v) == Kind::F {
                match ev.images(*v) { Ok(x) => { let mut x: Vec<u64> = x.into_iter().map(|y| y.0).collect(); x.sort(); x.dedup(); if x.len() == 1 { got.insert(nm.clone(), x[0]); } } Err(_) => split = split.or(ev.split) }
            } else {
                match ev.whole(*v) { Some(x) => { let y = ev.ifp(x); got.insert(nm.clone(), y); } None => split = split.or(ev.split) }
            }
        }
        if let (Some(g), true) = (split, depth < 6) {
            let ng = ev.d.not(g);
            let f1 = ev.p.assume(ev.d, f, g, false);
            let f2 = ev.p.assume(ev.d, f, ng, false);
            work.push((f1, depth + 1));
            work.push((f2, depth + 1));
            continue;
        }
        rep.ob(got.get("flag") == Some(&want_flag), || format!("{l}: region [{}]: the sample is not flagged {}", r.name, ["inside", "outside-low", "outside-high"][want_flag as usize]));
        if s.kind == "idx" {
            rep.ob(got.get("idx").is_some_and(|x| cells.contains(x)), || format!("{l}: region [{}]: the returned index is not that of the containing cell", r.name));
        } else {
            let ok = cells.iter().any(|&k| {
                let k1 = addm(k, 1);
                got.get("x0") == Some(&gridpt(&de, 0, k)) && got.get("x1") == Some(&gridpt(&de, 0, k1)) && got.get("y0") == Some(&hs("vals", &[k])) && got.get("y1") == Some(&hs("vals", &[k1]))
            });
            rep.ob(ok, || format!("{l}: region [{}]: the sample is not the two adjacent points of the containing cell", r.name));
        }
        }
    }
}

// ------------------------------------------------------------------ batches
pub fn batch(c: &mut Ctx, m: &Module, one: Option<&Spec>, cap: usize, rep: &mut Report) {
    let l = label(&c.e.spec, c.e.nd);
    let pt = match point(c) { Ok(p) => p, Err(e) => { rep.ob(false, || format!("{l}: {e}")); return } };
    rep.obligations += 1;
    // no dependence on other points, on the output or on the batch size
    let k = pt.k.unwrap();
    let mut bad = vec![];
    for v in c.d.reach(&[pt.val]) {
        match c.d.get(v).clone() {
            N::FElem(o, off, w) => {
                let root = { let r = c.d.parent_of(o).map_or(o, |p| p.0); c.d.objs[r as usize].1.trim_end_matches("32").to_string() };
                if root == "obs" || root == "locs" { let want = c.d.scale(k, if w { 4 } else { 8 }); let o2 = c.p.resolve(&mut c.d, off, pt.f); if o2 != want { bad.push(c.d.show(v)) } }
                if root == "out" { bad.push(c.d.show(v)) }
            }
            N::Len(o) => { let root = { let r = c.d.parent_of(o).map_or(o, |p| p.0); c.d.objs[r as usize].1.trim_end_matches("32").to_string() }; if root == "out" || root == "obs" || root == "locs" { bad.push(c.d.show(v)) } }
            N::Opq(s, _) => if s.starts_with("foutmix") { bad.push("previous contents of the output".into()) },
            _ => {}
        }
    }
    bad.sort();
    bad.dedup();
    rep.ob(bad.is_empty(), || format!("{l}: element k depends on {}", bad.join(", ")));
    // same function as single-point evaluation
    let Some(one) = one else { rep.viol(format!("{l}: no single-point counterpart")); return };
    let mut c1 = load(m, one, c.e.nd, &[]);
    let pt1 = match point(&mut c1) { Ok(p) => p, Err(e) => { rep.ob(false, || format!("{}: {e}", label(one, c.e.nd))); return } };
    let mut r1 = Report::default();
    let a = sweep(c, &pt, cap, 0, rep);
    let b = sweep(&mut c1, &pt1, cap, 0, &mut r1);
    let (a, b) = (tokens(&a), tokens(&b));
    for (nm, x) in &a {
        let y = b.get(nm).cloned().unwrap_or_else(|| Err("no such region in single-point evaluation".into()));
        match (x, y) {
            (Err(e), _) => { rep.ob(false, || format!("{l}: region [{nm}]: {e}")); }
            (_, Err(e)) => { rep.ob(false, || format!("{l}: region [{nm}]: {e}")); }
            (Ok(x), Ok(y)) => { rep.ob(*x == y && x.iter().all(|t| !t.contains('|')), || format!("{l}: region [{nm}]: batch element differs from single-point evaluation")); }
        }
    }
    rep.ob(a.len() == b.len(), || format!("{l}: regions differ from single-point evaluation"));
}

// ------------------------------------------------------------------ precision
pub fn precision(c: &mut Ctx, rep: &mut Report) {
    let s = c.e.spec.clone();
    let l = label(&s, c.e.nd);
    let mut vals: Vec<V> = c.e.outs.iter().filter(|o| c.d.kind(o.1) == Kind::F).map(|o| o.1).collect();
    for (_, _, ws) in &c.e.logs { for w in ws { match &w.w { W::At { val, .. } | W::Range { val, .. } => vals.push(*val), _ => {} } } }
    // float nodes on the value path (below integers only the cell index is computed)
    let mut seen = HashSet::default();
    let mut st = vals.clone();
    let mut consts: Vec<f64> = vec![];
    while let Some(v) = st.pop() {
        if !seen.insert(v) { continue }
        rep.obligations += 1;
        match c.d.get(v).clone() {
            N::FTrunc(a) => { let m = c.d.show_d(a, 5); rep.viol(format!("{l}: the value {m} is rounded to single precision on the way to the result")) }
            N::FExt(a) => {
                if !c.d.contains(a, &mut |n| matches!(n, N::FTrunc(_))) { let m = c.d.show_d(a, 5); rep.viol(format!("{l}: the value {m} is computed in single precision on the way to the result")) }
                st.push(a);
            }
            N::FromI(i) => {
                // integers converted back to floats: grid indices only
                if c.d.contains(i, &mut |n| matches!(n, N::FToI(_))) {
                    let mut fs = vec![];
                    for q in c.d.reach(&[i]) { if let N::FToI(a) = *c.d.get(q) { fs.push(a) } }
                    for a in fs { if !is_cell_number(c, a) { let m = c.d.show_d(a, 6); rep.viol(format!("{l}: the value {m} passes through an integer on the way to the result")) } }
                }
            }
            N::FConst(b) => { let x = f64::from_bits(b); if !consts.contains(&x) { consts.push(x) } }
            N::FElem(o, off, _) | N::Ptr(o, off) => { let _ = (o, off); }
            N::Opq(n, xs) => { if n.contains("trunc") || n.contains("cast") { rep.viol(format!("{l}: unanalysed conversion {n}")) } st.extend(xs.iter().filter(|&&x| c.d.kind(x) == Kind::F)); }
            N::Ite(_, a, b) => { st.push(a); st.push(b) }
            _ => { let mut ch = vec![]; c.d.children(v, &mut ch); for x in ch { if c.d.kind(x) == Kind::F { st.push(x) } } }
        }
        // gates and indices: comparisons are made on full-precision values too
        if let N::Ite(g, _, _) = *c.d.get(v) { for q in c.d.reach(&[g]) { if matches!(c.d.get(q), N::FTrunc(_) | N::FExt(_)) { let m = c.d.show_d(q, 5); rep.viol(format!("{l}: a case distinction is made on the single-precision value {m}")) } } }
        if let N::FElem(_, off, _) = *c.d.get(v) { for q in c.d.reach(&[off]) { if matches!(c.d.get(q), N::FTrunc(_) | N::FExt(_)) { let m = c.d.show_d(q, 5); rep.viol(format!("{l}: the cell is located with the single-precision value {m}")) } } }
    }
    // constants that are not small dyadic rationals are suspicious: an inexact literal
    for x in consts { let y = x * 64.0; rep.ob(x.is_finite() && y == y.trunc() && x.abs() <= 1e6, || format!("{l}: inexact constant {x:?} in the computation of the result")); }
}
/// (x - start)/step of some dimension, floored or not, possibly plus a small integer
fn is_cell_number(c: &mut Ctx, a: V) -> bool {
    let s = c.e.spec.clone();
    let n = ndims(&s, c.e.nd);
    let mut qs = vec![];
    if s.grid == "reg" { for i in 0..n { qs.push(coord_imgs(c, i).0) } }
    // any search variable depth
    let b1 = c.d.mk(N::Bound(1));
    let mut ev = Ev::new(&mut c.d, &mut c.p, 0, &s.grid, is1d(&s), &[], s.ty, None, Some(b1));
    let mut b = a;
    while let N::FUn(nm, x) = ev.d.get(b).clone() { if matches!(&*nm, "floor" | "ceil" | "trunc") { b = x } else { break } }
    let kv = { let mut k = None; for v in ev.d.reach(&[b]) { if let N::Bound(i) = *ev.d.get(v) { k = Some(i) } } k };
    if let Some(i) = kv { let bi = ev.d.mk(N::Bound(i)); let b1 = ev.d.mk(N::Bound(1)); b = ev.d.subst(b, &[(bi, b1)]) }
    let Some(f) = ev.rf(b) else { return false };
    qs.iter().any(|&q| (-3..=3i128).any(|k| subm(f, intm(k)) == q))
}

// ------------------------------------------------------------------ panics
pub fn panics(c: &mut Ctx, rep: &mut Report) {
    let l = label(&c.e.spec, c.e.nd);
    rep.obligations += c.p.queries.max(1);
    for x in &c.e.panics {
        let at: Vec<String> = x.stack.iter().rev().filter(|s| s.1.contains("/repo/src") || s.0.contains("interpn")).map(|s| format!("{} ({})", s.0, s.1.rsplit("/src/").next().unwrap_or(&s.1))).take(3).collect();
        let lits: Vec<String> = c.p.lits(x.path).iter().rev().take(4).map(|&q| c.d.show_d(q, 7)).collect();
        rep.viol(format!("{l}: {} reachable in {} when {}", x.what, at.join(" < "), lits.join(" and ")));
    }
    for x in &c.e.problems { rep.viol(format!("{l}: not analysable: {x}")) }
    rep.ob(c.e.returned, || format!("{l}: never returns normally"));
}

pub fn filter_specs<'a>(specs: &'a [Spec], pat: &str) -> Vec<&'a Spec> { specs.iter().filter(|s| pat.split(',').any(|q| if let Some(r) = q.strip_suffix('*') { s.name.starts_with(r) } else { s.name == q })).collect() }

pub fn run(prop: &str, m: &Module, all: &[Spec], s: &Spec, nd: Option<i128>, cap: usize) -> Report {
    let mut rep = Report::default();
    match prop {
        "val" | "val7" | "val8" | "reads" => {
            let mut c = load(m, s, nd, &[]);
            rep.fns = c.e.fns.clone();
            values(&mut c, cap, &mut rep, match prop { "val" => "formula", "val7" => "formula7", "val8" => "formula8", _ => "reads" });
        }
        // images per region, for comparison across entry points and configurations
        // (imgo: recursive evaluation functions uninterpreted, identified by name and by the data that reaches them)
        "img" | "imgo" => {
            let mut c = load(m, s, nd, if prop == "imgo" { OPAQUE_EVAL } else { &[] });
            rep.fns = c.e.fns.clone();
            let v = values(&mut c, cap, &mut rep, "");
            if prop == "imgo" {
                if let Ok(pt) = point(&mut c) {
                    let mut ns: Vec<String> = c.d.reach(&[pt.val]).into_iter().filter_map(|x| match c.d.get(x) { N::Opq(s, _) if s.starts_with("fcall ") => Some(s[6..].to_string()), _ => None }).collect();
                    ns.sort();
                    ns.dedup();
                    rep.put("@callee", ns.join(","));
                }
            }
            for (nm, r) in tokens(&v) { rep.obligations += 1; match r { Err(e) => rep.put(&nm, format!("error: {e}")), Ok(s) => rep.put(&nm, s.into_iter().collect::<Vec<_>>().join(",")) } }
        }
        "panic" => { let mut c = load(m, s, nd, &[]); rep.fns = c.e.fns.clone(); panics(&mut c, &mut rep) }
        "grid" | "batch" | "repr" => { let mut c = load(m, s, nd, if s.shape == "rec" && ndims(s, nd) > 3 || s.kind == "fn" && ndims(s, nd) > 4 { OPAQUE_EVAL } else { &[] }); rep.fns = c.e.fns.clone(); status(&mut c, &mut rep, &[prop]) }
        // unconditional part only: valid input is accepted
        "accept" => { let mut c = load(m, s, nd, OPAQUE_EVAL); rep.fns = c.e.fns.clone(); status(&mut c, &mut rep, &[]) }
        "bounds" => { let mut c = load(m, s, nd, &[]); rep.fns = c.e.fns.clone(); status(&mut c, &mut rep, &["batch", "grid"]); bounds(&mut c, &mut rep) }
        "sample" => { let mut c = load(m, s, nd, &[]); rep.fns = c.e.fns.clone(); sample(&mut c, &mut rep) }
        "point" => {
            let mut c = load(m, s, nd, &[]);
            rep.fns = c.e.fns.clone();
            let want = if s.kind == "bat" { s.name.replacen("bat_", "one_", 1) } else if is1d(s) { s.name.replacen("alloc_", "one_", 1) } else if s.shape == "flat" && nd.unwrap_or(0) <= if s.method == "cubic" { 4 } else { 6 } { format!("one_{}_{}_flat_{}_{}", s.method, s.grid, nd.unwrap_or(1), s.ty) } else { format!("one_{}_{}_rec_8_{}", s.method, s.grid, s.ty) };
            let one = all.iter().find(|x| x.name == want);
            batch(&mut c, m, one, cap, &mut rep)
        }
        // recursion depth of library functions
        "rec" => {
            let c = load(m, s, nd, &[]);
            rep.fns = c.e.fns.clone();
            let n = ndims(s, nd) as u32;
            let l = label(s, nd);
            rep.obligations += 1;
            for (f, k) in &c.e.maxrec { rep.put(f, k.to_string()); if *k > n + 1 && f.contains("interpn") { rep.viol(format!("{l}: {f} recurses {k} levels deep in {n} dimensions")) } }
        }
        "py" => crate::py::run(m, s, &mut rep),
        "prec" => { let mut c = load(m, s, nd, &[]); rep.fns = c.e.fns.clone(); precision(&mut c, &mut rep) }
        _ => rep.viol(format!("unknown check {prop}")),
    }
    rep
}
pub fn print(rep: &Report, s: &Spec, nd: Option<i128>, t: f64) {
    let q = |v: &Vec<String>| format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    println!("{{\"root\":{},\"nd\":{},\"obligations\":{},\"regions\":{},\"violations\":{},\"fns\":{},\"info\":{{{}}},\"seconds\":{:.2}}}", js(&s.name), nd.map_or("null".to_string(), |n| n.to_string()), rep.obligations, rep.regions, q(&rep.violations), q(&rep.fns), rep.info.iter().map(|(k, v)| format!("{}:{}", js(k), js(v))).collect::<Vec<_>>().join(","), t);
}
#[allow(unused)]
fn unused(_: HashMap<u8, u8>, _: HashSet<u8>) {}

/// self-recursive functions returning a float: only their value, never the result code, is left open
pub const OPAQUE_EVAL: &[&str] = &["@rec"];
