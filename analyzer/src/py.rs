//! The Python binding layer: which library function each raw function calls, with which arguments, and what
//! becomes of its result.
use crate::check::*;
use crate::dom::*;
use crate::interp::*;
use crate::ir::*;
use crate::prove::*;
use crate::root::*;

/// parameters of the library function, in order
fn wanted(callee: &str) -> Vec<&'static str> {
    let reg = callee.contains("::regular::");
    let mut v = if reg { vec!["dims", "starts", "steps"] } else { vec!["grids"] };
    if callee.contains("::check_bounds") { v.extend(["obs", "atol", "out"]); return v }
    v.push("vals");
    if callee.contains("multicubic") { v.push("linearize_extrapolation") }
    v.extend(["obs", "out"]);
    v
}
/// the library function a raw function is named after
fn target(name: &str) -> Option<String> {
    let q: Vec<&str> = name.strip_prefix("py_root_")?.split('_').collect();
    let ty = *q.last()?;
    let grid = *q.get(q.len().checked_sub(2)?)?;
    let head = q[..q.len() - 2].join("_");
    let (m, f) = match head.as_str() { "interpn_linear" => ("multilinear", "interpn"), "interpn_cubic" => ("multicubic", "interpn"), "interpn_nearest" => ("nearest", "interpn"), "check_bounds" => ("multilinear", "check_bounds"), _ => return None };
    Some(format!("interpn::{m}::{grid}::{f}::<{ty}>"))
}

/// (path, value) of every case of a gated value that the facts admit
fn cases(d: &mut Dom, p: &mut Prover, v: V, f: Fid, out: &mut Vec<(Fid, V)>) {
    if let N::Ite(c, a, b) = *d.get(v) {
        match p.decide(d, c, f) {
            Some(true) => cases(d, p, a, f, out),
            Some(false) => cases(d, p, b, f, out),
            None => {
                let nc = d.not(c);
                let (x, y) = (p.assume(d, f, c, false), p.assume(d, f, nc, false));
                if !p.facts[x as usize].bottom { cases(d, p, a, x, out) }
                if !p.facts[y as usize].bottom { cases(d, p, b, y, out) }
            }
        }
    } else { out.push((f, v)) }
}

pub fn run(m: &Module, s: &Spec, rep: &mut Report) {
    let (mut d, mut p) = (Dom::new(), Prover::new());
    SINKS.with(|x| x.borrow_mut().clear());
    let e = eval(&mut d, &mut p, m, s, None, &["@py"]);
    let sinks = SINKS.with(|x| std::mem::take(&mut *x.borrow_mut()));
    let many = s.params.iter().any(|q| q.n < 0);
    let l = format!("{} [{}]", s.name.trim_start_matches("py_root_"), s.params.iter().filter(|q| q.n != 0).map(|q| if q.n > 0 { format!("{} {}", q.n - 1, q.name) } else { format!("{} or more {}", -q.n - 1, q.name) }).collect::<Vec<_>>().join(", "));
    rep.fns = e.fns.clone();
    // no way to a panic
    rep.obligations += p.queries.max(1);
    for x in &e.panics {
        let at: Vec<String> = x.stack.iter().rev().filter(|s| s.0.contains("interpn")).map(|s| format!("{} ({})", s.0, s.1.rsplit("/src/").next().unwrap_or(&s.1))).take(2).collect();
        let lits: Vec<String> = p.lits(x.path).iter().rev().take(4).map(|&q| d.show_d(q, 7)).collect();
        rep.viol(format!("panic: {l}: {} reachable in {} when {}", x.what, at.join(" < "), lits.join(" and ")));
    }
    for x in &e.problems { rep.viol(format!("panic: {l}: not analysable: {x}")) }
    if !rep.ob(e.returned, || format!("panic: {l}: never returns normally")) { return }
    // what each argument is
    let mut need: Vec<(String, V)> = vec![]; // what success requires
    let mut args: Vec<(String, V, Option<V>)> = vec![]; // name, value or pointer, length
    let mut lens: Vec<(String, V)> = vec![];
    for q in &s.params {
        let nm = objname(&q.name, q.elem);
        let flag = |d: &mut Dom, n: &str, o: Obj| { let z = d.zero; let ptr = d.mk(N::Ptr(o, z)); d.mk(N::Opq(n.into(), vec![ptr].into())) };
        match q.k.as_str() {
            "S" | "SS" | "O" => {
                let o = d.input_slice(&nm, q.elem, q.k == "O");
                let z = d.zero;
                let ptr = d.mk(N::Ptr(o, z));
                let len = d.len(o);
                args.push((q.name.clone(), ptr, Some(len)));
                if q.k == "SS" {
                    lens.push((q.name.clone(), len));
                    if q.n > 0 { for i in 0..q.n - 1 { let i = d.int(i); let x = d.sub(o, i); let f = flag(&mut d, "bcontiguous", x); need.push((format!("{}[{}] is contiguous", q.name, d.show(i)), f)) } }
                } else if q.elem != 'u' {
                    let f = flag(&mut d, "bcontiguous", o);
                    need.push((format!("{} is contiguous", q.name), f));
                    if q.k == "O" { let f = flag(&mut d, "bborrowable", o); need.push((format!("{} can be borrowed", q.name), f)) }
                }
            }
            "V" => { let n = objname(&q.name, q.elem).into(); let v = if q.elem == 'b' { d.mk(N::BSym(n)) } else if q.elem == 'u' { d.mk(N::ISym(n, 0, (1i128 << 64) - 1)) } else { d.mk(N::FSym(n)) }; args.push((q.name.clone(), v, None)) }
            _ => {}
        }
    }
    let Some(want) = target(&s.name) else { rep.viol(format!("call: {l}: no library function is named so")); return };
    let mut cs = vec![];
    let st = p.resolve(&mut d, e.status, e.path);
    cases(&mut d, &mut p, st, e.path, &mut cs);
    rep.obligations += cs.len() as u64;
    // success only if everything succeeded
    for (f, v) in &cs {
        let Some(k) = d.as_const(*v) else { rep.viol(format!("call: {l}: result {} not understood", d.show_d(*v, 6))); continue };
        if k != 0 { continue }
        if many { rep.viol(format!("panic: {l}: accepted")); continue }
        let done: Vec<usize> = (0..sinks.len()).filter(|&i| p.decide(&mut d, sinks[i].ok, *f) == Some(true)).collect();
        if !rep.ob(!done.is_empty(), || format!("call: {l}: succeeds although {} did not", want)) { continue }
        for (n, c) in &need { let r = p.decide(&mut d, *c, *f) == Some(true); rep.ob(r, || format!("panic: {l}: succeeds without having checked that {n}")); }
    }
    if many {
        for k in &sinks { rep.viol(format!("call: {l}: {} is called", k.callee)) }
        return;
    }
    // every call is the expected one
    for k in &sinks {
        rep.ob(k.callee == want, || format!("call: {l}: calls {} instead of {want}", k.callee));
        let ws = wanted(&want);
        let mut i = 0;
        for w in ws {
            let Some((_, v, len)) = args.iter().find(|a| a.0 == w).cloned() else { rep.viol(format!("call: {l}: there is no parameter {w}")); break };
            let get = |i: usize| k.args.get(i).copied();
            let Some(x) = get(i) else { rep.viol(format!("call: {l}: {} takes fewer arguments than expected", k.callee)); break };
            let Some(len) = len else {
                let ok = x == v || { let (a, b) = (p.resolve(&mut d, x, k.path), v); a == b };
                rep.ob(ok, || format!("call: {l}: {} gets {} for {w}", k.callee, d.show_d(x, 6)));
                i += 1;
                continue;
            };
            let n = get(i + 1).unwrap_or(d.undef);
            i += 2;
            let same_len = d.kind(n) == Kind::I && { let q = d.sub_(n, len); let q = d.eq0(q); p.decide(&mut d, q, k.path) == Some(true) };
            rep.ob(same_len, || format!("call: {l}: {} gets {} elements for {w}", k.callee, d.show_d(n, 6)));
            let x = p.resolve(&mut d, x, k.path);
            if w == "obs" || w == "grids" {
                let c = match p.norm(&mut d, len, k.path) { q => d.as_const(q) };
                let Some(c) = c else { continue };
                if x == v { rep.obligations += 1; continue } // the list itself
                let N::Ptr(o, off) = *d.get(x) else { if c != 0 { rep.viol(format!("call: {l}: {} gets {} for {w}", k.callee, d.show_d(x, 6))) } continue };
                let (N::Ptr(src, _), Some(off)) = (d.get(v).clone(), d.as_const(off)) else { rep.viol(format!("call: {l}: {} gets {} for {w}", k.callee, d.show_d(x, 6))); continue };
                for j in 0..c {
                    let jj = d.int(j);
                    let el = d.sub(src, jj);
                    let z = d.zero;
                    let (ep, en) = (d.mk(N::Ptr(el, z)), d.len(el));
                    let cell = |a: i128| k.mem.get(&o).and_then(|x| x.cells.get(&((off + 16 * j + a) as i64))).map(|c| c.1).unwrap_or(0);
                    let (ap, an) = (cell(0), cell(8));
                    let ap = p.resolve(&mut d, ap, k.path);
                    rep.ob(ap == ep, || format!("call: {l}: {} gets {} for {w}[{j}]", k.callee, d.show_d(ap, 6)));
                    let q = if d.kind(an) == Kind::I { let q = d.sub_(an, en); d.eq0(q) } else { d.f };
                    let r = p.decide(&mut d, q, k.path) == Some(true);
                    rep.ob(r, || format!("call: {l}: {} gets {} elements for {w}[{j}]", k.callee, d.show_d(an, 6)));
                }
            } else {
                rep.ob(x == v, || format!("call: {l}: {} gets {} for {w}", k.callee, d.show_d(x, 6)));
            }
        }
        if i != k.args.len() && k.callee == want { rep.viol(format!("call: {l}: {} takes {} arguments, {i} understood", k.callee, k.args.len())) }
    }
    // the caller's buffer is written by the library only
    for (n, _, log) in &e.logs { rep.ob(log.is_empty(), || format!("call: {l}: writes {n} itself")); }
    // good arguments reach the library once, and its verdict is the result
    let mut g = e.path;
    for (_, c) in &need { g = p.assume(&mut d, g, *c, false); }
    let mut reached = 0;
    for k in &sinks {
        let ls = p.lits(k.path);
        let no = ls.iter().any(|&x| p.decide(&mut d, x, g) == Some(false));
        if no { continue }
        reached += 1;
        let b = p.chain(e.base).len();
        for &x in ls.iter().skip(b) { let r = p.decide(&mut d, x, g) == Some(true); rep.ob(r, || format!("call: {l}: {} is called only when {}", k.callee, d.show_d(x, 6))); }
    }
    rep.ob(reached == 1, || format!("call: {l}: {want} is called {reached} times"));
    let Some(k) = sinks.iter().find(|k| { let ls = p.lits(k.path); !ls.iter().any(|&x| p.decide(&mut d, x, g) == Some(false)) }) else { return };
    let nk = d.not(k.ok);
    let (good, bad) = (p.assume(&mut d, g, k.ok, false), p.assume(&mut d, g, nk, false));
    let r = p.resolve(&mut d, st, good);
    rep.ob(d.as_const(r) == Some(0), || format!("call: {l}: result {} when {} succeeds", d.show_d(r, 6), k.callee));
    let r = p.resolve(&mut d, st, bad);
    rep.ob(d.as_const(r) == Some(1), || format!("call: {l}: result {} (1 is AssertionError) when {} fails", d.show_d(r, 6), k.callee));
    let ms = e.outs.iter().find(|o| o.0 == "msg").map(|o| o.1).unwrap_or(d.undef);
    let ms = p.resolve(&mut d, ms, bad);
    let has = d.reach(&[ms]).contains(&k.msg);
    rep.ob(has, || format!("call: {l}: the error message is {} when {} fails", d.show_d(ms, 6), k.callee));
}
