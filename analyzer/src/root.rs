//! Entry points: parameter description, initial abstract state, evaluated result.
use crate::dom::*;
use crate::interp::*;
use crate::ir::*;
use crate::prove::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Param { pub k: String, pub name: String, pub elem: char, pub n: i128 }
#[derive(Clone, Debug)]
pub struct Spec { pub name: String, pub kind: String, pub method: String, pub grid: String, pub shape: String, pub n: i128, pub ty: char, pub params: Vec<Param> }

pub fn load_specs(p: &str) -> Vec<Spec> {
    let t = std::fs::read_to_string(p).expect("roots.txt");
    t.lines().map(|l| {
        let c: Vec<&str> = l.split('|').collect();
        Spec {
            name: c[0].into(), kind: c[1].into(), method: c[2].into(), grid: c[3].into(), shape: c[4].into(), n: c[5].parse().unwrap(), ty: c[6].chars().next().unwrap(),
            params: c[7].split(';').map(|p| { let q: Vec<&str> = p.split(':').collect(); Param { k: q[0].into(), name: q[1].into(), elem: if q[2] == "u32" { 'w' } else { q[2].chars().next().unwrap() }, n: q[3].parse().unwrap() } }).collect(),
        }
    }).collect()
}

/// evaluated entry point
#[derive(Clone)]
pub struct Eval {
    pub spec: Spec,
    pub nd: Option<i128>,
    pub returned: bool,
    pub status: V,
    pub outs: Vec<(String, V)>,          // single-value outputs
    pub logs: Vec<(String, Obj, Vec<Write>)>, // slice outputs
    pub path: Fid,
    pub base: Fid,
    pub panics: Vec<PanicRec>,
    pub problems: Vec<String>,
    pub steps: u64,
    pub fns: Vec<String>,
    pub loops: u32,
    pub joins: u64,
    pub maxrec: Vec<(String, u32)>,
}

pub fn objname(nm: &str, el: char) -> String { match el { 'g' | 't' => format!("{nm}32"), _ => nm.to_string() } }

/// evaluate; `nd` fixes the number of dimensions of run-time sized grids
pub fn eval(d: &mut Dom, p: &mut Prover, m: &Module, s: &Spec, nd: Option<i128>, opaque: &[&str]) -> Eval {
    let mut mem = Mem::default();
    let mut args = vec![];
    let mut path: Fid = 0;
    let mut cells: Vec<(String, Obj)> = vec![];
    let mut outs: Vec<(String, Obj)> = vec![];
    for q in &s.params {
        match q.k.as_str() {
            "A" | "AS" | "S" | "SS" => {
                let o = d.input_slice(&objname(&q.name, q.elem), q.elem, false);
                let z = d.zero;
                let ptr = d.mk(N::Ptr(o, z));
                args.push(ptr);
                let len = d.len(o);
                if q.k.starts_with('A') {
                    let c = d.addc(len, -q.n);
                    let e = d.eq0(c);
                    path = p.assume(d, path, e, false);
                } else {
                    if let (Some(n), "dims" | "grids") = (nd, q.name.as_str()) {
                        let l = if n >= 0 { let c = d.addc(len, -n); d.eq0(c) } else { let c = d.addc(len, n); d.ge0(c) };
                        path = p.assume(d, path, l, false);
                    }
                    // fixed length n - 1; n < 0: at least -n - 1
                    if s.kind == "py" && q.n != 0 { let l = if q.n > 0 { let c = d.addc(len, 1 - q.n); d.eq0(c) } else { let c = d.addc(len, q.n + 1); d.ge0(c) }; path = p.assume(d, path, l, false); }
                    args.push(len);
                }
            }
            "O" => {
                let o = d.input_slice(&objname(&q.name, q.elem), q.elem, true);
                let z = d.zero;
                let ptr = d.mk(N::Ptr(o, z));
                let len = d.len(o);
                args.push(ptr);
                args.push(len);
                mem.insert(o, Rc::new(ObjData::default()));
                outs.push((q.name.clone(), o));
            }
            "R" => {
                let o = d.new_obj(OK::Local { size: 8 }, &q.name);
                let z = d.zero;
                args.push(d.mk(N::Ptr(o, z)));
                mem.insert(o, Rc::new(ObjData::default()));
                cells.push((q.name.clone(), o));
            }
            "V" => {
                let nm: Rc<str> = objname(&q.name, q.elem).into();
                let v = match q.elem { 'b' => d.mk(N::BSym(nm)), 'u' => d.mk(N::ISym(nm, 0, (1i128 << 64) - 1)), _ => d.mk(N::FSym(nm)) };
                args.push(v);
            }
            k => panic!("parameter kind {k}"),
        }
    }
    let base = path;
    let name: Rc<str> = s.name.as_str().into();
    let Some(f) = m.parse_fn(&name) else {
        return Eval { spec: s.clone(), nd, returned: false, status: d.undef, outs: vec![], logs: vec![], path, base, panics: vec![], problems: vec![format!("entry point {} is missing", s.name)], steps: 0, fns: vec![], loops: 0, joins: 0, maxrec: vec![] };
    };
    let f = Rc::new(f);
    let mut mc = Machine::new(d, p, m);
    for o in opaque { mc.opaque.insert(o.to_string(), ()); }
    let mut st = St { mem, path };
    let r = mc.invoke(&f, args, &mut st);
    let mut fns: Vec<String> = vec![];
    let vf: Vec<Rc<str>> = mc.visited_fns.iter().cloned().collect();
    for x in vf { fns.push(mc.demangle(&x).to_string()) }
    fns.sort();
    let mr: Vec<(Rc<str>, u32)> = mc.maxrec.iter().map(|x| (x.0.clone(), *x.1)).collect();
    let mut maxrec = vec![];
    for (x, n) in mr { if n > 1 { maxrec.push((mc.demangle(&x).to_string(), n)) } }
    let (panics, problems, steps, loops, joins) = (std::mem::take(&mut mc.panics), std::mem::take(&mut mc.problems), mc.steps, mc.loops_summarised, mc.joins);
    let mut problems = problems;
    if OVERFLOW.with(|o| o.replace(false)) { problems.push("coefficient overflow".into()) }
    let und = d.undef;
    let outs_v = cells.iter().map(|(n, o)| (n.clone(), st.mem.get(o).and_then(|x| x.cells.get(&0)).map_or(und, |c| c.1))).collect();
    let logs = outs.iter().map(|(n, o)| (n.clone(), *o, st.mem.get(o).map_or(vec![], |x| x.log.clone()))).collect();
    Eval { spec: s.clone(), nd, returned: r.is_some(), status: r.unwrap_or(und), outs: outs_v, logs, path: st.path, base, panics, problems, steps, fns, loops, joins, maxrec }
}
