#![allow(dead_code)]
mod ir; mod dom; mod prove; mod interp; mod root; mod q; mod check; mod py; mod effects;
use dom::*; use prove::*;
fn main() {
    let h = std::thread::Builder::new().stack_size(3 << 30).spawn(real_main).unwrap();
    let _ = h.join();
}
fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "show" => {
            let t = std::time::Instant::now();
            let m = ir::Module::load(std::path::Path::new(&a[2])).unwrap();
            println!("loaded {} in {:?}", m.funcs.len(), t.elapsed());
            let specs = root::load_specs(&roots_txt());
            let nd: Option<i128> = a.get(4).and_then(|x| x.parse().ok());
            for s in &specs {
                if !s.name.starts_with(&a[3]) { continue }
                let (mut d, mut p) = (Dom::new(), Prover::new());
                let t = std::time::Instant::now();
                let e = root::eval(&mut d, &mut p, &m, s, nd, &[]);
                println!("== {} {:?}: returned {} steps {} joins {} loops {} nodes {} facts {} queries {} tops {} exh {}", s.name, t.elapsed(), e.returned, e.steps, e.joins, e.loops, d.n.len(), p.facts.len(), p.queries, p.tops, p.exhausted);
                for x in &e.problems { println!("  problem {x}") }
                for x in &e.panics { println!("  PANIC {} at {:?}\n     path {}", x.what, x.stack.iter().take(3).collect::<Vec<_>>(), p.lits(x.path).iter().map(|&l| d.show(l)).collect::<Vec<_>>().join("\n        ")) }
                for (x, n) in &e.maxrec { println!("  rec {x} {n}") }
                if a.len() > 5 {
                    println!("  status {}", d.show_d(e.status, 40));
                    for (n, v) in &e.outs { println!("  out {n} = {}", d.show_d(*v, 60)) }
                    for (n, _, l) in &e.logs { for w in l { match &w.w {
                        interp::W::At { off, val, .. } => println!("  {n}[{}] = {} when {}", d.show(*off), d.show_d(*val, 60), d.show(w.gate)),
                        interp::W::Range { n: cnt, off, val, gate, .. } => println!("  {n}[{} for <{}] = {} when {} & {}", d.show(*off), d.show_d(*cnt, 60), d.show_d(*val, 60), d.show_d(w.gate, 20), d.show_d(*gate, 20)),
                        interp::W::Unknown(s) => println!("  {n} unknown write {s}"),
                    } } }
                }
            }
        }
        // check LL PROP ROOT ND|x CAP
        "check" => {
            let m = ir::Module::load(std::path::Path::new(&a[2])).unwrap();
            let specs = root::load_specs(&roots_txt());
            let nd: Option<i128> = a.get(5).and_then(|x| x.parse().ok());
            let cap: usize = a.get(6).and_then(|x| x.parse().ok()).unwrap_or(200);
            let sel = check::filter_specs(&specs, &a[4]);
            if sel.is_empty() { println!("{{\"root\":{},\"violations\":[\"no such entry point\"]}}", check::js(&a[4])) }
            for s in sel {
                let t = std::time::Instant::now();
                let r = check::run(&a[3], &m, &specs, s, nd, cap);
                check::print(&r, s, nd, t.elapsed().as_secs_f64());
            }
        }
        // effects LL ROOT,ROOT..
        "effects" => {
            let m = ir::Module::load(std::path::Path::new(&a[2])).unwrap();
            for r in a[3].split(',') { effects::run(&m, r) }
        }
        _ => {}
    }
}
fn roots_txt() -> String { std::env::var("ROOTS_TXT").unwrap_or("/verif/roots/roots.txt".into()) }
