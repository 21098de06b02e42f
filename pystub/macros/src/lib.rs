//! Model of pyo3's attribute macros: keeps the function and adds an entry point of raw parts for the analyser.
use proc_macro::{Delimiter, TokenStream, TokenTree};

fn strip_attrs(ts: TokenStream) -> Vec<TokenTree> {
    let mut out = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == '#' {
                if let Some(TokenTree::Group(g)) = it.peek() {
                    let s = g.stream().to_string();
                    if g.delimiter() == Delimiter::Bracket && (s.starts_with("pyo3") || s.starts_with("text_signature") || s.starts_with("doc")) { it.next(); continue }
                }
            }
        }
        out.push(t);
    }
    out
}

#[proc_macro_attribute]
pub fn pymodule(_a: TokenStream, _i: TokenStream) -> TokenStream { TokenStream::new() }

#[proc_macro_attribute]
pub fn pyfunction(_a: TokenStream, item: TokenStream) -> TokenStream {
    let toks = strip_attrs(item);
    let text = |t: &[TokenTree]| t.iter().cloned().collect::<TokenStream>().to_string();
    let i = toks.iter().position(|t| t.to_string() == "fn").expect("fn");
    let name = toks[i + 1].to_string();
    let g = toks.iter().enumerate().skip(i).find_map(|(k, t)| if let TokenTree::Group(g) = t { if g.delimiter() == Delimiter::Parenthesis { Some((k, g.stream())) } else { None } } else { None }).expect("parameters");
    let mut params: Vec<(String, String)> = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    let mut depth = 0;
    let flush = |cur: &mut Vec<TokenTree>, params: &mut Vec<(String, String)>| {
        if cur.is_empty() { return }
        let c = cur.iter().position(|t| t.to_string() == ":").expect("type");
        params.push((cur[c - 1].to_string(), text(&cur[c + 1..])));
        cur.clear();
    };
    let ps = strip_attrs(g.1);
    for t in &ps {
        if let TokenTree::Punct(p) = t {
            match p.as_char() { '<' => depth += 1, '>' => depth -= 1, ',' if depth == 0 => { flush(&mut cur, &mut params); continue } _ => {} }
        }
        cur.push(t.clone());
    }
    flush(&mut cur, &mut params);
    // the function itself, with attribute-free parameters
    let mut body = text(&toks[..g.0]);
    body += &format!("({})", text(&ps));
    body += &text(&toks[g.0 + 1..]);
    let (mut sig, mut pre, mut call) = (String::new(), String::new(), vec![]);
    let mut spec: Vec<String> = vec![]; // parameters as the analyser's entry point description
    for (k, (pname, ty)) in params.iter().enumerate() {
        let t = ty.replace(' ', "");
        let byref = t.starts_with('&');
        let base = if byref { ty.trim_start().trim_start_matches('&').trim_start().to_string() } else { ty.clone() };
        let base = if byref && base.starts_with('\'') { base.split_once(' ').map_or(base.clone(), |x| x.1.to_string()) } else { base };
        let f32s = t.contains("f32");
        let el = if t.contains("bool") { 'b' } else if t.contains("f32") { 'g' } else if t.contains("f64") { 'f' } else { 'u' };
        if t.starts_with("Vec<") {
            if t.contains("Array") { spec.push(format!("SS:{pname}:{}:0", if f32s { 't' } else { 's' })) } else { spec.push(format!("S:{pname}:{el}:0")) }
            sig += &format!("p{k}: *const u8, n{k}: usize, ");
            pre += &format!("let a{k}: {base} = ::pyo3::root::vec(p{k}, n{k});");
        } else if t.contains("Python") && !t.contains("Array") {
            pre += &format!("let a{k} = ::pyo3::Python::marker();");
        } else if t.contains("Array") {
            spec.push(format!("{}:{pname}:{el}:0", if t.contains("Bound") || t.contains("Readwrite") { "O" } else { "S" }));
            sig += &format!("p{k}: *const u8, n{k}: usize, ");
            pre += &format!("let a{k}: {base} = ::pyo3::root::FromRaw::raw(p{k}, n{k});");
        } else {
            spec.push(format!("V:{pname}:{el}:0"));
            sig += &format!("v{k}: {base}, ");
            pre += &format!("let a{k} = v{k};");
        }
        call.push(if byref { format!("&a{k}") } else { format!("a{k}") });
    }
    let root = format!("#[unsafe(no_mangle)] pub extern \"C\" fn py_root_{name}({sig} msg: *mut *const u8, len: *mut usize) -> u32 {{ {pre} ::pyo3::root::finish({name}({}), msg, len) }}", call.join(", "));
    spec.push("R:msg:p:0;R:len:u:0".into());
    let spec = spec.join(";");
    let root = format!("{root} #[used] #[unsafe(no_mangle)] pub static py_sig_{name}: [u8; {}] = *b\"{spec}\";", spec.len());
    format!("{body} {root}").parse().expect("root")
}
