//! Effect analysis: what the call graph closure of an entry point can reach.
//! A reference is anything a body or a constant names (direct calls, function pointers, vtables), so
//! indirect calls are covered by the functions whose address is reachable.
use crate::check::js;
use crate::ir::{Cur, Module};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;

pub fn symbols(t: &str) -> Vec<String> {
    let mut out = vec![];
    let b = t.as_bytes();
    let mut i = 0;
    let mut in_str = false;
    while i < b.len() {
        match b[i] {
            b'"' => in_str = !in_str && !(i > 0 && b[i - 1] == b'@'),
            b'@' if !in_str => { let mut c = Cur::new(&t[i + 1..]); let n = c.name(); if !n.is_empty() { out.push(n) } }
            b'\n' => in_str = false,
            _ => {}
        }
        i += 1;
    }
    out
}
fn crates(sym: &str) -> BTreeSet<String> {
    // v0 mangling: C s <disambiguator> _ <decimal length> <name>
    let mut out = BTreeSet::new();
    let b = sym.as_bytes();
    let mut i = 0;
    while i + 2 < b.len() {
        if b[i] == b'C' && b[i + 1] == b's' {
            let mut j = i + 2;
            while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1 }
            if j < b.len() && b[j] == b'_' {
                let mut k = j + 1;
                while k < b.len() && b[k].is_ascii_digit() { k += 1 }
                if let Ok(n) = sym[j + 1..k].parse::<usize>() {
                    let s = if k < b.len() && b[k] == b'_' { k + 1 } else { k };
                    if s + n <= b.len() && n > 0 { out.insert(sym[s..s + n].to_string()); i = s + n; continue }
                }
            }
        }
        i += 1;
    }
    out
}
/// functions outside the analysed IR that only compute
fn pure_leaf(n: &str) -> bool {
    if n.starts_with("llvm.") { return !n.starts_with("llvm.trap") || true }
    if n.starts_with("_R") { let c = crates(n); return !c.is_empty() && c.iter().all(|x| matches!(x.as_str(), "core" | "compiler_builtins" | "libm" | "num_traits")) }
    matches!(n.trim_end_matches('f'), "floor" | "ceil" | "trunc" | "round" | "fma" | "fmod" | "sqrt" | "fmin" | "fmax" | "fabs" | "rint" | "pow" | "fdim" | "exp" | "log" | "copysign" | "") || matches!(n, "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "rust_eh_personality" | "fmaf")
}
pub fn run(m: &Module, entry: &str) {
    let dem = |s: &str| format!("{:#}", rustc_demangle::demangle(s));
    let mut viol: Vec<String> = vec![];
    let mut from: HashMap<String, String> = HashMap::new();
    let mut q: VecDeque<String> = VecDeque::new();
    if !m.funcs.contains_key(entry) { viol.push(format!("entry point {entry} is missing")) }
    q.push_back(entry.to_string());
    from.insert(entry.to_string(), String::new());
    let mut edges: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut nf = 0;
    let mut sites = 0u64;
    let mut lib: BTreeSet<String> = BTreeSet::new();
    let path = |from: &HashMap<String, String>, s: &str| { let mut v = vec![]; let mut c = s.to_string(); while !c.is_empty() { v.push(dem(&c)); c = from.get(&c).cloned().unwrap_or_default(); if v.len() > 30 { break } } v.reverse(); v.retain(|x| x.contains("interpn") || x == entry || *x == dem(s)); v.join(" -> ") };
    while let Some(f) = q.pop_front() {
        let key: Rc<str> = f.as_str().into();
        let text = if let Some(&(s, e)) = m.funcs.get(&key) {
            nf += 1;
            let d = dem(&f);
            if crates(&f).contains("interpn") && d.contains("interpn::") { lib.insert(d); }
            m.text[s..e].to_string()
        } else if let Some(g) = m.globals.get(&key) {
            let l = m.text[g.line.0..g.line.1].to_string();
            if g.tls { viol.push(format!("thread-local state {} is used on {}", dem(&f), path(&from, &f))) }
            else if !g.constant { viol.push(format!("mutable global state {} is used on {}", dem(&f), path(&from, &f))) }
            else if g.external { viol.push(format!("global {} defined elsewhere is used on {}", dem(&f), path(&from, &f))) }
            l
        } else if m.decls.contains_key(&key) {
            sites += 1;
            if m.is_noreturn_decl(&key) && crates(&f).iter().all(|c| c == "core") && f.starts_with("_R") { continue }
            if !pure_leaf(&f) { viol.push(format!("{} is reachable: {}", dem(&f), path(&from, &f))) }
            continue
        } else { if !pure_leaf(&f) && !f.starts_with("alloc_") { viol.push(format!("unresolved symbol {f}")) } continue };
        let is_fn = m.funcs.contains_key(&key);
        for line in text.lines() {
            let l = line.trim_start();
            if !is_fn { break }
            if l.starts_with("define") { continue }
            let code = l.split(", !dbg").next().unwrap_or(l);
            for (pat, what) in [("atomicrmw ", "an atomic update"), ("cmpxchg ", "an atomic update"), ("load atomic ", "an atomic read"), ("store atomic ", "an atomic write"), ("fence ", "a memory fence"), (" volatile ", "a volatile access"), (" asm ", "inline assembly")] {
                if code.contains(pat) && !code.contains("asm sideeffect \"\", \"r,~{memory}\"") { viol.push(format!("{what} in {}", path(&from, &f))) }
            }
            if code.contains("call ") || code.contains("invoke ") { sites += 1 }
        }
        let body = if is_fn { match text.find('\n') { Some(i) => &text[i..], None => "" } } else { match text.find(" constant ").or(text.find(" global ")) { Some(i) => &text[i..], None => "" } };
        for s in symbols(body) {
            if s == f && is_fn { edges.entry(f.clone()).or_default().insert(s.clone()); }
            if is_fn && m.funcs.contains_key(s.as_str()) { edges.entry(f.clone()).or_default().insert(s.clone()); }
            if !from.contains_key(&s) { from.insert(s.clone(), f.clone()); q.push_back(s) }
        }
    }
    // library functions on a cycle
    let mut rec = vec![];
    for (f, _) in &edges {
        let mut seen: BTreeSet<&str> = BTreeSet::new();
        let mut st: Vec<&str> = edges[f].iter().map(|x| x.as_str()).collect();
        while let Some(x) = st.pop() { if x == f { rec.push(dem(f)); break } if seen.insert(x) { if let Some(e) = edges.get(x) { st.extend(e.iter().map(|y| y.as_str())) } } }
    }
    viol.sort();
    viol.dedup();
    let q = |v: Vec<String>| format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    println!("{{\"root\":{},\"nd\":null,\"obligations\":{},\"regions\":{},\"violations\":{},\"fns\":{},\"info\":{{\"recursive\":{},\"functions\":{}}},\"seconds\":0.0}}", js(entry), sites, from.len(), q(viol.into_iter().take(8).map(|v| format!("{entry}: {v}")).collect()), q(lib.into_iter().collect()), js(&rec.join("; ")), js(&nf.to_string()));
}
