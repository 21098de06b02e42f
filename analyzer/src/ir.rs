//! Reader for the textual LLVM IR rustc emits (functions are parsed on demand).
use rustc_hash::FxHashMap as HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    I(u32),
    F32,
    F64,
    Ptr,
    Void,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vector(u64, Box<Ty>),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(b) => ((*b as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) | Ty::Vector(_, t) => t.align(),
            Ty::Struct(ts, packed) => {
                if *packed { 1 } else { ts.iter().map(|t| t.align()).max().unwrap_or(1) }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::I(b) => ((*b as u64 + 7) / 8).next_power_of_two(),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) | Ty::Vector(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0u64;
                for t in ts {
                    if !packed { o = o.next_multiple_of(t.align()); }
                    o += t.size();
                }
                if *packed { o } else { o.next_multiple_of(self.align()) }
            }
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> (u64, &Ty) {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0u64;
                for (k, t) in ts.iter().enumerate() {
                    if !packed { o = o.next_multiple_of(t.align()); }
                    if k == i { return (o, t); }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vector(_, t) => (t.size() * i as u64, t),
            _ => panic!("field of scalar"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    Int(i128),
    F(u64),  // f64 bits (f32 constants are printed as doubles too)
    Null,
    Undef,
    Zero,
    Global(Rc<str>),
    GepG(Rc<str>, i64),
    IntToPtr(i128),
    Agg(Vec<(Ty, Op)>),
    Bytes(Rc<[u8]>),
}

#[derive(Clone, Debug)]
pub struct Gep { pub base: Op, pub elem: Ty, pub idx: Vec<(Ty, Op)> }

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca { dst: u32, size: u64 },
    Load { dst: u32, ty: Ty, ptr: Op, atomic: bool },
    Store { ty: Ty, val: Op, ptr: Op, atomic: bool },
    Gep { dst: u32, g: Box<Gep> },
    Call { dst: Option<u32>, ret: Ty, callee: Op, args: Vec<(Ty, Op)>, asm: bool },
    Bin { dst: u32, op: &'static str, nuw: bool, nsw: bool, exact: bool, ty: Ty, a: Op, b: Op },
    Icmp { dst: u32, pred: &'static str, ty: Ty, a: Op, b: Op },
    Fcmp { dst: u32, pred: &'static str, ty: Ty, a: Op, b: Op },
    Fneg { dst: u32, a: Op, ty: Ty },
    Select { dst: u32, c: Op, ty: Ty, a: Op, b: Op },
    Phi { dst: u32, ty: Ty, inc: Vec<(Op, u32)> },
    Cast { dst: u32, op: &'static str, from: Ty, a: Op, to: Ty },
    ExtractV { dst: u32, ty: Ty, a: Op, idx: Vec<u32> },
    InsertV { dst: u32, ty: Ty, a: Op, vty: Ty, v: Op, idx: Vec<u32> },
    Freeze { dst: u32, a: Op, ty: Ty },
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(i128, u32)>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Other { dst: Option<u32>, text: Rc<str> },
}

pub struct Block { pub ins: Vec<(Ins, u32)> } // (instruction, dbg id or 0)

pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub ipdom: Vec<Option<u32>>, // immediate post-dominator; None = exit
    pub loop_of: Vec<Option<u32>>, // header index -> loop id (only for headers)
    pub live: Vec<bool>,
    pub loops: Vec<Vec<bool>>,     // loop id -> membership per block
    pub succ: Vec<Vec<u32>>,
    pub reg_names: Vec<String>,
    pub noret: bool,
}

pub struct Global { pub constant: bool, pub ty_text: (usize, usize), pub line: (usize, usize), pub tls: bool, pub external: bool }

static NEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

pub struct Module {
    pub id: u32,
    pub text: Rc<str>,
    pub funcs: HashMap<Rc<str>, (usize, usize)>, // byte range of the define
    pub decls: HashMap<Rc<str>, String>,
    pub globals: HashMap<Rc<str>, Global>,
    pub meta: HashMap<u32, (usize, usize)>,
    pub types: HashMap<String, (usize, usize)>,
    pub attrs_noret: std::collections::HashSet<u32>,
}

pub struct Cur<'a> { pub s: &'a [u8], pub p: usize }

fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Cur<'a> {
    pub fn new(s: &'a str) -> Self { Cur { s: s.as_bytes(), p: 0 } }
    pub fn ws(&mut self) { while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') { self.p += 1 } }
    pub fn peek(&mut self) -> u8 { self.ws(); if self.p < self.s.len() { self.s[self.p] } else { 0 } }
    pub fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.p..].starts_with(t.as_bytes()) {
            let e = self.p + t.len();
            let last = *t.as_bytes().last().unwrap();
            if (last.is_ascii_alphanumeric() || last == b'_') && e < self.s.len() && (self.s[e].is_ascii_alphanumeric() || self.s[e] == b'_' || self.s[e] == b'.') { return false; }
            self.p = e;
            true
        } else { false }
    }
    pub fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            let e = (self.p + 80).min(self.s.len());
            panic!("IR parse: expected {t:?} at {:?} in {:?}", String::from_utf8_lossy(&self.s[self.p..e]), String::from_utf8_lossy(&self.s[..e.min(300)]));
        }
    }
    pub fn word(&mut self) -> &'a str {
        self.ws();
        let b = self.p;
        while self.p < self.s.len() && is_id(self.s[self.p]) { self.p += 1 }
        std::str::from_utf8(&self.s[b..self.p]).unwrap()
    }
    /// name after a sigil (%, @, !), possibly quoted
    pub fn name(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            let b = self.p + 1;
            self.p = b;
            while self.s[self.p] != b'"' { self.p += 1 }
            let r = String::from_utf8_lossy(&self.s[b..self.p]).into_owned();
            self.p += 1;
            r
        } else { self.word().to_string() }
    }
    pub fn paren_skip(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.p += 1; return } }
                b'"' => { self.p += 1; while self.s[self.p] != b'"' { self.p += 1 } }
                _ => {}
            }
            self.p += 1;
        }
    }
    pub fn ty(&mut self) -> Ty {
        let mut t = match self.peek() {
            b'[' => {
                self.p += 1;
                let n: u64 = self.word().parse().unwrap();
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(n, Box::new(t))
            }
            b'{' => { self.p += 1; Ty::Struct(self.tylist(b'}'), false) }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    self.p += 1;
                    let l = self.tylist(b'}');
                    self.expect(">");
                    Ty::Struct(l, true)
                } else {
                    let n: u64 = self.word().parse().unwrap();
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vector(n, Box::new(t))
                }
            }
            b'%' => { self.p += 1; let n = self.name().to_string(); let def = TYPES.with(|t| t.borrow().get(&n).cloned()); match def { Some(d) => Cur::new(&d).ty(), None => Ty::Other } }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::I(w[1..].parse().unwrap()),
                    "metadata" | "label" | "token" | "half" | "fp128" | "bfloat" => Ty::Other,
                    _ => {
                        let e = (self.p + 80).min(self.s.len());
                        panic!("IR parse: type {w:?} near {:?}", String::from_utf8_lossy(&self.s[self.p.saturating_sub(60)..e]))
                    }
                }
            }
        };
        // function type "ret (args)" used in calls to varargs
        if self.peek() == b'(' && t != Ty::Ptr && false { t = Ty::Other; }
        t
    }
    fn tylist(&mut self, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.peek() == end { self.p += 1; return v }
        loop {
            v.push(self.ty());
            if self.eat(",") { continue }
            self.ws();
            assert_eq!(self.s[self.p], end);
            self.p += 1;
            return v;
        }
    }
    pub fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if !(c.is_ascii_lowercase()) { 
                if c == b'"' { // string attribute
                    self.p += 1; while self.s[self.p] != b'"' { self.p += 1 } self.p += 1;
                    if self.eat("=") { self.p += 1; while self.s[self.p] != b'"' { self.p += 1 } self.p += 1; }
                    continue;
                }
                return
            }
            let save = self.p;
            let w = self.word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "c" | "blockaddress" | "nan" | "inf" => { self.p = save; return }
                "align" => { self.word(); }
                _ if w.starts_with("f0x") => { self.p = save; return }
                _ => { if self.p < self.s.len() && self.s[self.p] == b'(' { self.paren_skip() } }
            }
        }
    }
}

pub struct FnParser<'m> { regs: HashMap<String, u32>, names: Vec<String>, blocks: HashMap<String, u32>, m: &'m Module }

impl<'m> FnParser<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) { return r }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        self.names.push(n.to_string());
        r
    }
    pub fn op(&mut self, c: &mut Cur, ty: &Ty) -> Op {
        match c.peek() {
            b'%' => { c.p += 1; let n = c.name(); Op::Reg(self.reg(&n)) }
            b'@' => { c.p += 1; Op::Global(c.name().into()) }
            b'{' => { c.p += 1; self.agg(c, b'}') }
            b'[' => { c.p += 1; self.agg(c, b']') }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' { c.p += 1; let r = self.agg(c, b'}'); c.expect(">"); r } else { self.agg(c, b'>') }
            }
            b'!' => { while c.p < c.s.len() && c.s[c.p] != b',' && c.s[c.p] != b')' { c.p += 1 } Op::Undef }
            b'c' if c.s.get(c.p + 1) == Some(&b'"') => {
                c.p += 2;
                let mut v = vec![];
                while c.s[c.p] != b'"' {
                    if c.s[c.p] == b'\\' {
                        let h = std::str::from_utf8(&c.s[c.p + 1..c.p + 3]).unwrap();
                        v.push(u8::from_str_radix(h, 16).unwrap());
                        c.p += 3;
                    } else { v.push(c.s[c.p]); c.p += 1 }
                }
                c.p += 1;
                Op::Bytes(v.into())
            }
            _ => {
                let b = c.p;
                c.ws();
                let b0 = c.p.max(b);
                while c.p < c.s.len() && (is_id(c.s[c.p]) || c.s[c.p] == b'+') { c.p += 1 }
                let w = std::str::from_utf8(&c.s[b0..c.p]).unwrap();
                match w {
                    "true" => Op::Int(1),
                    "false" => Op::Int(0),
                    "null" => Op::Null,
                    "undef" | "poison" => Op::Undef,
                    "zeroinitializer" => Op::Zero,
                    "getelementptr" => {
                        while c.peek() != b'(' { c.word(); }
                        c.p += 1;
                        let et = c.ty();
                        c.expect(",");
                        c.ty();
                        let base = self.op(c, &Ty::Ptr);
                        let mut off = 0i64;
                        let mut first = true;
                        let mut cur = et;
                        while c.eat(",") {
                            let t = c.ty();
                            let Op::Int(i) = self.op(c, &t) else { panic!("const gep") };
                            if first { off += i as i64 * cur.size() as i64; first = false } else {
                                let (o, t) = cur.field(i as usize);
                                off += o as i64;
                                cur = t.clone();
                            }
                        }
                        c.expect(")");
                        match base { Op::Global(g) => Op::GepG(g, off), Op::GepG(g, o) => Op::GepG(g, o + off), _ => Op::Undef }
                    }
                    "inttoptr" => {
                        c.expect("(");
                        let t = c.ty();
                        let v = self.op(c, &t);
                        c.expect("to");
                        c.ty();
                        c.expect(")");
                        match v { Op::Int(i) => Op::IntToPtr(i), _ => Op::Undef }
                    }
                    "ptrtoint" | "bitcast" | "addrspacecast" => {
                        c.expect("(");
                        let t = c.ty();
                        let v = self.op(c, &t);
                        c.expect("to");
                        c.ty();
                        c.expect(")");
                        v
                    }
                    _ => {
                        if matches!(ty, Ty::F64 | Ty::F32) || w.contains('.') || w.starts_with("0x") || w.contains("e+") {
                            if let Some(h) = w.strip_prefix("f0x") {
                                let b = u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("float {w:?}"));
                                return Op::F(if *ty == Ty::F32 { (f32::from_bits(b as u32) as f64).to_bits() } else { b });
                            }
                            if w.ends_with("nan") || w.contains("nan(") { return Op::F(f64::NAN.to_bits()) }
                            match w { "+inf" => return Op::F(f64::INFINITY.to_bits()), _ => {} }
                            if let Some(h) = w.strip_prefix("0x") { return Op::F(u64::from_str_radix(h, 16).unwrap_or(0x7ff8000000000000)) }
                            match w { "nan" => return Op::F(f64::NAN.to_bits()), "inf" => return Op::F(f64::INFINITY.to_bits()), "-inf" => return Op::F(f64::NEG_INFINITY.to_bits()), _ => {} }
                            return Op::F(w.parse::<f64>().unwrap_or_else(|_| { let e = (c.p + 80).min(c.s.len()); panic!("float {w:?} before {:?}", String::from_utf8_lossy(&c.s[b.saturating_sub(40)..e])) }).to_bits());
                        }
                        match w.parse::<i128>() {
                            Ok(i) => Op::Int(i),
                            Err(_) => {
                                let e = (c.p + 80).min(c.s.len());
                                panic!("IR parse: operand {w:?} at {:?}", String::from_utf8_lossy(&c.s[b0.saturating_sub(80)..e]))
                            }
                        }
                    }
                }
            }
        }
    }
    fn agg(&mut self, c: &mut Cur, end: u8) -> Op {
        let mut v = vec![];
        if c.peek() == end { c.p += 1; return Op::Agg(v) }
        loop {
            let t = c.ty();
            let o = self.op(c, &t);
            v.push((t, o));
            if c.eat(",") { continue }
            c.ws();
            assert_eq!(c.s[c.p], end);
            c.p += 1;
            return Op::Agg(v);
        }
    }
    fn top(&mut self, c: &mut Cur) -> (Ty, Op) {
        let t = c.ty();
        c.attrs();
        let o = self.op(c, &t);
        (t, o)
    }
    fn label(&mut self, c: &mut Cur) -> u32 {
        c.expect("label");
        c.expect("%");
        let n = c.name();
        *self.blocks.get(&n).unwrap_or_else(|| panic!("label {n}"))
    }
}

macro_rules! kw { ($w:expr; $($k:literal)*) => { match $w { $($k => Some($k),)* _ => None } } }

thread_local! { static TYPES: std::cell::RefCell<std::collections::HashMap<String, String>> = Default::default(); }
impl Module {
    pub fn load(path: &std::path::Path) -> std::io::Result<Module> {
        let text: Rc<str> = std::fs::read_to_string(path)?.into();
        let mut m = Module { id: NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed), text: text.clone(), funcs: Default::default(), decls: Default::default(), globals: Default::default(), meta: Default::default(), types: Default::default(), attrs_noret: Default::default() };
        let mut pos = 0;
        let mut cur_def: Option<(Rc<str>, usize)> = None;
        for line in text.split_inclusive('\n') {
            let b = pos;
            pos += line.len();
            let l = line.trim_end();
            if let Some((n, s)) = &cur_def {
                if l == "}" { m.funcs.insert(n.clone(), (*s, b)); cur_def = None; }
                continue;
            }
            if l.starts_with("define") {
                let a = l.find('@').unwrap();
                let mut c = Cur::new(&l[a + 1..]);
                cur_def = Some((c.name().into(), b));
            } else if l.starts_with("declare") {
                let a = l.find('@').unwrap();
                let mut c = Cur::new(&l[a + 1..]);
                m.decls.insert(c.name().into(), l.to_string());
            } else if l.starts_with('@') {
                let mut c = Cur::new(&l[1..]);
                let n: Rc<str> = c.name().into();
                let head = &l[..l.len().min(400)];
                let constant = head.contains(" constant ");
                m.globals.insert(n, Global { constant, ty_text: (0, 0), line: (b, b + l.len()), tls: head.contains("thread_local"), external: head.contains(" external ") });
            } else if l.starts_with('!') {
                if let Some(e) = l.find(" = ") {
                    if let Ok(n) = l[1..e].parse::<u32>() { m.meta.insert(n, (b + e + 3, b + l.len())); }
                }
            } else if l.starts_with('%') {
                let mut c = Cur::new(&l[1..]);
                let n = c.name().to_string();
                if let Some(e) = l.find(" = type ") { let def = &l[e + 8..]; if def != "opaque" { TYPES.with(|t| t.borrow_mut().insert(n, def.to_string())); } }
            } else if l.starts_with("attributes #") {
                if l.contains("noreturn") {
                    let n: u32 = l["attributes #".len()..].split(' ').next().unwrap().parse().unwrap();
                    m.attrs_noret.insert(n);
                }
            }
        }
        Ok(m)
    }
    pub fn is_noreturn_decl(&self, name: &str) -> bool {
        if let Some(d) = self.decls.get(name) {
            if let Some(h) = d.rfind('#') {
                let n: String = d[h + 1..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(n) = n.parse::<u32>() { return self.attrs_noret.contains(&n) }
            }
        }
        false
    }
    /// initializer of a constant global
    pub fn global_init(&self, name: &str) -> Option<(Ty, Op)> {
        let g = self.globals.get(name)?;
        let l = &self.text[g.line.0..g.line.1];
        let k = if g.constant { l.find(" constant ")? + 10 } else { l.find(" global ")? + 8 };
        if g.external { return None }
        let mut fp = FnParser { regs: Default::default(), names: vec![], blocks: Default::default(), m: self };
        let mut c = Cur::new(&l[k..]);
        let t = c.ty();
        let o = fp.op(&mut c, &t);
        Some((t, o))
    }
    pub fn parse_fn(&self, name: &str) -> Option<Func> {
        let &(s, e) = self.funcs.get(name)?;
        let body = &self.text[s..e];
        let mut fp = FnParser { regs: Default::default(), names: vec![], blocks: Default::default(), m: self };
        let mut lines = body.lines();
        let head = lines.next().unwrap();
        let a = head.find('@').unwrap();
        // return type: last type before '@'
        let mut c = Cur::new(head);
        c.expect("define");
        loop {
            c.ws();
            let save = c.p;
            let ch = c.peek();
            if ch == b'{' || ch == b'[' || ch == b'<' { break }
            let w = c.word();
            let isty = matches!(w, "void" | "ptr" | "double" | "float") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()));
            if isty { c.p = save; break }
            if c.p < c.s.len() && c.s[c.p] == b'(' { c.paren_skip() }
        }
        let ret = c.ty();
        c.p = a + 1;
        c.name();
        c.expect("(");
        let mut params = vec![];
        while c.peek() != b')' {
            if c.eat("...") { break }
            let t = c.ty();
            c.attrs();
            c.expect("%");
            let n = c.name();
            params.push((t, fp.reg(&n)));
            if !c.eat(",") { break }
        }
        let rest = &head[c.p..];
        let noret = rest.split('#').nth(1).and_then(|x| x.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<u32>().ok()).map_or(false, |n| self.attrs_noret.contains(&n));
        // collect blocks
        let mut raw: Vec<(String, Vec<String>)> = vec![];
        let mut pending: Option<String> = None; // multi-line (switch)
        for l in lines {
            if l.is_empty() || l.starts_with(';') || l.trim_start().starts_with("#dbg") { continue }
            if !l.starts_with(' ') {
                // label
                let mut c = Cur::new(l);
                let n = c.name();
                raw.push((n, vec![]));
                continue;
            }
            if let Some(p) = &mut pending {
                p.push(' ');
                p.push_str(l.trim());
                if l.trim().starts_with(']') {
                    let p = pending.take().unwrap();
                    raw.last_mut().unwrap().1.push(p);
                }
                continue;
            }
            let t = l.trim();
            if t.starts_with("switch") && !t.contains(']') { pending = Some(t.to_string()); continue }
            if raw.is_empty() { raw.push(("0".into(), vec![])); }
            raw.last_mut().unwrap().1.push(t.to_string());
        }
        for (i, (n, _)) in raw.iter().enumerate() { fp.blocks.insert(n.clone(), i as u32); }
        let mut blocks = vec![];
        for (_, ls) in &raw {
            let mut ins = vec![];
            for l in ls {
                let dbg = l.find("!dbg !").map(|i| l[i + 6..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<u32>().unwrap_or(0)).unwrap_or(0);
                ins.push((fp.ins(l), dbg));
            }
            blocks.push(Block { ins });
        }
        let mut f = Func { name: name.into(), params, ret, nregs: fp.regs.len(), blocks, live: vec![], ipdom: vec![], loop_of: vec![], loops: vec![], succ: vec![], reg_names: fp.names, noret };
        f.analyse();
        Some(f)
    }
    pub fn dbg_loc(&self, id: u32) -> (String, u32) {
        // returns (file, line), following inlinedAt outwards is not needed with MIR inlining off
        let Some(&(s, e)) = self.meta.get(&id) else { return ("?".into(), 0) };
        let t = &self.text[s..e];
        let num = |key: &str, t: &str| -> Option<u32> { t.find(key).and_then(|i| t[i + key.len()..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()) };
        let line = num("line: ", t).unwrap_or(0);
        let mut scope = num("scope: !", t);
        for _ in 0..20 {
            let Some(sc) = scope else { break };
            let Some(&(s, e)) = self.meta.get(&sc) else { break };
            let t = &self.text[s..e];
            if let Some(f) = num("file: !", t) {
                if let Some(&(s, e)) = self.meta.get(&f) {
                    let t = &self.text[s..e];
                    if let Some(i) = t.find("filename: \"") {
                        let r = &t[i + 11..];
                        return (r[..r.find('"').unwrap()].to_string(), line);
                    }
                }
            }
            scope = num("scope: !", t);
        }
        ("?".into(), line)
    }
}

impl<'m> FnParser<'m> {
    fn ins(&mut self, l: &str) -> Ins {
        let mut c = Cur::new(l);
        let mut dst = None;
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            c.expect("=");
            dst = Some(self.reg(&n));
        }
        c.ws();
        let save = c.p;
        let w = c.word();
        let d = dst.unwrap_or(u32::MAX);
        if let Some(op) = kw!(w; "add" "sub" "mul" "udiv" "sdiv" "urem" "srem" "and" "or" "xor" "shl" "lshr" "ashr" "fadd" "fsub" "fmul" "fdiv" "frem") {
            let (mut nuw, mut nsw, mut exact) = (false, false, false);
            loop {
                if c.eat("nuw") { nuw = true } else if c.eat("nsw") { nsw = true } else if c.eat("exact") { exact = true } else if c.eat("disjoint") || c.eat("fast") || c.eat("nnan") || c.eat("ninf") || c.eat("nsz") || c.eat("arcp") || c.eat("contract") || c.eat("afn") || c.eat("reassoc") {} else { break }
            }
            let ty = c.ty();
            let a = self.op(&mut c, &ty);
            c.expect(",");
            let b = self.op(&mut c, &ty);
            return Ins::Bin { dst: d, op, nuw, nsw, exact, ty, a, b };
        }
        if let Some(op) = kw!(w; "zext" "sext" "trunc" "bitcast" "ptrtoint" "inttoptr" "uitofp" "sitofp" "fptosi" "fptoui" "fptrunc" "fpext" "ptrtoaddr") {
            while c.eat("nneg") || c.eat("nuw") || c.eat("nsw") {}
            let from = c.ty();
            let a = self.op(&mut c, &from);
            c.expect("to");
            let to = c.ty();
            return Ins::Cast { dst: d, op, from, a, to };
        }
        match w {
            "alloca" => {
                let t = c.ty();
                Ins::Alloca { dst: d, size: t.size() }
            }
            "load" => {
                let atomic = c.eat("atomic");
                let vol = c.eat("volatile");
                let ty = c.ty();
                c.expect(",");
                c.ty();
                let ptr = self.op(&mut c, &Ty::Ptr);
                Ins::Load { dst: d, ty, ptr, atomic: atomic || vol }
            }
            "store" => {
                let atomic = c.eat("atomic");
                let vol = c.eat("volatile");
                let ty = c.ty();
                let val = self.op(&mut c, &ty);
                c.expect(",");
                c.ty();
                let ptr = self.op(&mut c, &Ty::Ptr);
                Ins::Store { ty, val, ptr, atomic: atomic || vol }
            }
            "getelementptr" => {
                while c.eat("inbounds") || c.eat("nuw") || c.eat("nusw") {}
                let elem = c.ty();
                c.expect(",");
                c.ty();
                let base = self.op(&mut c, &Ty::Ptr);
                let mut idx = vec![];
                while c.eat(",") {
                    if c.peek() == b'!' { break }
                    let t = c.ty();
                    let o = self.op(&mut c, &t);
                    idx.push((t, o));
                }
                Ins::Gep { dst: d, g: Box::new(Gep { base, elem, idx }) }
            }
            "icmp" => {
                c.eat("samesign");
                let p = c.word();
                let pred = kw!(p; "eq" "ne" "ugt" "uge" "ult" "ule" "sgt" "sge" "slt" "sle").unwrap();
                let ty = c.ty();
                let a = self.op(&mut c, &ty);
                c.expect(",");
                let b = self.op(&mut c, &ty);
                Ins::Icmp { dst: d, pred, ty, a, b }
            }
            "fcmp" => {
                let mut p = c.word();
                while matches!(p, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { p = c.word(); }
                let pred = kw!(p; "oeq" "ogt" "oge" "olt" "ole" "one" "ord" "ueq" "ugt" "uge" "ult" "ule" "une" "uno" "true" "false").unwrap();
                let ty = c.ty();
                let a = self.op(&mut c, &ty);
                c.expect(",");
                let b = self.op(&mut c, &ty);
                Ins::Fcmp { dst: d, pred, ty, a, b }
            }
            "fneg" => {
                while c.eat("fast") || c.eat("nnan") || c.eat("nsz") {}
                let ty = c.ty();
                let a = self.op(&mut c, &ty);
                Ins::Fneg { dst: d, a, ty }
            }
            "select" => {
                c.ty();
                let cc = self.op(&mut c, &Ty::I(1));
                c.expect(",");
                let ty = c.ty();
                let a = self.op(&mut c, &ty);
                c.expect(",");
                c.ty();
                let b = self.op(&mut c, &ty);
                Ins::Select { dst: d, c: cc, ty, a, b }
            }
            "phi" => {
                let ty = c.ty();
                let mut inc = vec![];
                loop {
                    c.expect("[");
                    let o = self.op(&mut c, &ty);
                    c.expect(",");
                    c.expect("%");
                    let n = c.name();
                    c.expect("]");
                    inc.push((o, self.blocks[&n]));
                    if !(c.eat(",") && c.peek() == b'[') { break }
                }
                Ins::Phi { dst: d, ty, inc }
            }
            "extractvalue" => {
                let (ty, a) = self.top(&mut c);
                let mut idx = vec![];
                while c.eat(",") { if c.peek() == b'!' { break } idx.push(c.word().parse().unwrap()); }
                Ins::ExtractV { dst: d, ty, a, idx }
            }
            "insertvalue" => {
                let (ty, a) = self.top(&mut c);
                c.expect(",");
                let (vty, v) = self.top(&mut c);
                let mut idx = vec![];
                while c.eat(",") { if c.peek() == b'!' { break } idx.push(c.word().parse().unwrap()); }
                Ins::InsertV { dst: d, ty, a, vty, v, idx }
            }
            "freeze" => { let (ty, a) = self.top(&mut c); Ins::Freeze { dst: d, a, ty } }
            "br" => {
                if c.peek() == b'l' { return Ins::Br(self.label(&mut c)) }
                c.ty();
                let o = self.op(&mut c, &Ty::I(1));
                c.expect(",");
                let t = self.label(&mut c);
                c.expect(",");
                let f = self.label(&mut c);
                Ins::CondBr(o, t, f)
            }
            "switch" => {
                let ty = c.ty();
                let o = self.op(&mut c, &ty);
                c.expect(",");
                let def = self.label(&mut c);
                c.expect("[");
                let mut cases = vec![];
                while c.peek() != b']' {
                    let t = c.ty();
                    let Op::Int(v) = self.op(&mut c, &t) else { panic!() };
                    c.expect(",");
                    cases.push((v, self.label(&mut c)));
                }
                Ins::Switch(ty, o, def, cases)
            }
            "ret" => {
                if c.eat("void") { return Ins::Ret(None) }
                let (t, o) = self.top(&mut c);
                Ins::Ret(Some((t, o)))
            }
            "unreachable" => Ins::Unreachable,
            "call" | "tail" | "musttail" | "notail" => {
                if w != "call" { c.expect("call"); }
                // calling convention, return attributes
                loop {
                    c.ws();
                    let save = c.p;
                    let ch = c.peek();
                    if ch == b'{' || ch == b'[' || ch == b'<' { break }
                    let w = c.word();
                    let isty = matches!(w, "void" | "ptr" | "double" | "float") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()));
                    if isty { c.p = save; break }
                    if w.is_empty() { panic!("call parse {l}") }
                    if w == "align" { c.word(); }
                    if c.p < c.s.len() && c.s[c.p] == b'(' { c.paren_skip() }
                }
                let ret = c.ty();
                if c.peek() == b'(' { c.paren_skip() } // function type (varargs)
                if c.eat("asm") { return Ins::Call { dst, ret, callee: Op::Undef, args: vec![], asm: true } }
                let callee = self.op(&mut c, &Ty::Ptr);
                c.expect("(");
                let mut args = vec![];
                while c.peek() != b')' {
                    let t = c.ty();
                    if t == Ty::Other {
                        // metadata argument
                        let mut d = 0;
                        while !(d == 0 && (c.s[c.p] == b',' || c.s[c.p] == b')')) { if c.s[c.p] == b'(' { d += 1 } if c.s[c.p] == b')' { d -= 1 } c.p += 1 }
                        args.push((t, Op::Undef));
                    } else {
                        c.attrs();
                        let o = self.op(&mut c, &t);
                        args.push((t, o));
                    }
                    if !c.eat(",") { break }
                }
                Ins::Call { dst, ret, callee, args, asm: false }
            }
            _ => { c.p = save; Ins::Other { dst, text: l.into() } }
        }
    }
}

impl Func {
    fn analyse(&mut self) {
        let n = self.blocks.len();
        let mut succ = vec![vec![]; n];
        for (i, b) in self.blocks.iter().enumerate() {
            match &b.ins.last().unwrap().0 {
                Ins::Br(t) => succ[i].push(*t),
                Ins::CondBr(_, a, b) => { succ[i].push(*a); if a != b { succ[i].push(*b) } }
                Ins::Switch(_, _, d, cs) => {
                    let mut v: Vec<u32> = cs.iter().map(|c| c.1).collect();
                    v.push(*d);
                    v.sort();
                    v.dedup();
                    succ[i] = v;
                }
                _ => {}
            }
        }
        // reachable blocks
        let mut reach = vec![false; n];
        let mut st = vec![0u32];
        while let Some(b) = st.pop() {
            if std::mem::replace(&mut reach[b as usize], true) { continue }
            st.extend(&succ[b as usize]);
        }
        // blocks that can reach a return
        let mut pred = vec![vec![]; n];
        for i in 0..n { if reach[i] { for &s in &succ[i] { pred[s as usize].push(i as u32) } } }
        let mut live = vec![false; n];
        let mut st: Vec<u32> = (0..n as u32).filter(|&i| reach[i as usize] && matches!(self.blocks[i as usize].ins.last().unwrap().0, Ins::Ret(_))).collect();
        let rets = st.clone();
        while let Some(b) = st.pop() {
            if std::mem::replace(&mut live[b as usize], true) { continue }
            st.extend(&pred[b as usize]);
        }
        // post-dominators on the live subgraph, node n = exit
        let ex = n;
        let mut order = vec![]; // reverse graph postorder from exit
        {
            let mut seen = vec![false; n + 1];
            let mut stack: Vec<(usize, usize, Vec<u32>)> = vec![(ex, 0, rets.clone())];
            seen[ex] = true;
            while let Some((b, i, ps)) = stack.last_mut() {
                if *i < ps.len() {
                    let p = ps[*i] as usize;
                    *i += 1;
                    if live[p] && !seen[p] { seen[p] = true; let pp = pred[p].clone(); stack.push((p, 0, pp)); }
                } else { order.push(*b); stack.pop(); }
            }
        }
        order.reverse();
        let mut rpo = vec![usize::MAX; n + 1];
        for (i, &b) in order.iter().enumerate() { rpo[b] = i }
        let mut idom = vec![usize::MAX; n + 1];
        idom[ex] = ex;
        let mut changed = true;
        while changed {
            changed = false;
            for &b in &order {
                if b == ex { continue }
                let mut new = usize::MAX;
                let is_ret = matches!(self.blocks[b].ins.last().unwrap().0, Ins::Ret(_));
                let ss: Vec<usize> = if is_ret { vec![ex] } else { succ[b].iter().map(|&x| x as usize).filter(|&x| live[x]).collect() };
                for s in ss {
                    if idom[s] == usize::MAX { continue }
                    if new == usize::MAX { new = s } else {
                        let (mut x, mut y) = (new, s);
                        while x != y {
                            while rpo[x] > rpo[y] { x = idom[x] }
                            while rpo[y] > rpo[x] { y = idom[y] }
                        }
                        new = x;
                    }
                }
                if new != idom[b] { idom[b] = new; changed = true }
            }
        }
        self.ipdom = (0..n).map(|b| if idom[b] == usize::MAX || idom[b] == ex { None } else { Some(idom[b] as u32) }).collect();
        // natural loops via DFS back edges
        let mut state = vec![0u8; n];
        let mut stack: Vec<(usize, usize)> = vec![(0, 0)];
        state[0] = 1;
        let mut back: Vec<(usize, usize)> = vec![];
        while let Some((b, i)) = stack.last_mut() {
            if *i < succ[*b].len() {
                let s = succ[*b][*i] as usize;
                let bb = *b;
                *i += 1;
                match state[s] { 0 => { state[s] = 1; stack.push((s, 0)) } 1 => back.push((bb, s)), _ => {} }
            } else { state[*b] = 2; stack.pop(); }
        }
        self.loop_of = vec![None; n];
        for (tail, h) in back {
            let id = match self.loop_of[h] { Some(id) => id as usize, None => { self.loops.push(vec![false; n]); self.loop_of[h] = Some(self.loops.len() as u32 - 1); self.loops.len() - 1 } };
            let mem = &mut self.loops[id];
            mem[h] = true;
            let mut st = vec![tail];
            while let Some(b) = st.pop() {
                if std::mem::replace(&mut mem[b], true) { continue }
                for &p in &pred[b] { st.push(p as usize) }
            }
        }
        self.live = live;
        self.succ = succ;
    }
}
