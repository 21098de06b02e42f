#!/usr/bin/env python3
"""C16: type-level facts about the interpolator and grid types.

1. rustdoc's JSON of the crate (fully resolved public API): no public field, no method taking the object
   mutably, Send/Sync/Freeze auto traits present, field types free of interior mutability, exclusive
   references and raw pointers - for every public struct that has private fields.
2. compile-pass witnesses: Send + Sync, evaluation through a shared reference from another thread.
3. compile-fail witnesses, each with a compiling twin: an interpolator or grid outliving what it borrows,
   writing its fields.
"""
import json, os, sys, subprocess, glob, shutil
from concurrent.futures import ThreadPoolExecutor
import run

EXPECT = """MultilinearRegular MultilinearRectilinear MultilinearRegularRecursive MultilinearRectilinearRecursive
MulticubicRegular MulticubicRectilinear MulticubicRegularRecursive MulticubicRectilinearRecursive
NearestRegular NearestRectilinear RegularGrid1D RectilinearGrid1D Linear1D LinearHoldLast1D Left1D Right1D Nearest1D""".split()

viol = []
obligations = 0


def ob(ok, msg):
    global obligations
    obligations += 1
    if not ok:
        viol.append(msg)


# ------------------------------------------------------------------ rustdoc JSON
def doc():
    out = os.path.join(run.TARGET, "doc")
    shutil.rmtree(os.path.join(out, "doc"), ignore_errors=True)
    env = dict(os.environ, CARGO_TARGET_DIR=out, CARGO_NET_OFFLINE="true")
    for p in glob.glob(out + "/debug/.fingerprint/interpn-*"):
        shutil.rmtree(p, ignore_errors=True)
    r = subprocess.run(["cargo", "+nightly", "rustdoc", "--offline", "--lib", "--features", "std", "-q", "--", "-Zunstable-options", "--output-format", "json", "--document-private-items"], cwd=os.path.join(run.TARGET, "shadow"), env=env, capture_output=True, text=True)
    p = os.path.join(out, "doc/interpn.json")
    if r.returncode or not os.path.exists(p):
        run.die("rustdoc: " + r.stderr[-2000:])
    return json.load(open(p))


BAD = ("Cell", "Atomic", "Mutex", "RwLock", "Lazy", "Once", "NonNull", "Rc", "Sender", "Receiver", "ReentrantLock")


def bad_type(ix, t, seen):
    """a component of a type through which shared or later mutation is possible"""
    if not isinstance(t, dict):
        return None
    for k, v in t.items():
        if k == "raw_pointer":
            return "a raw pointer"
        if k == "borrowed_ref" and v.get("is_mutable"):
            return "an exclusive reference"
        if k in ("dyn_trait", "function_pointer"):
            return "a " + k
        if k == "resolved_path":
            name = v["path"].split("::")[-1]
            if any(name == b or name.startswith(b) or name.endswith(b) for b in BAD):
                return name
            i = ix.get(str(v["id"]))
            if i and i["crate_id"] == 0 and v["id"] not in seen:
                seen.add(v["id"])
                for f in fields(ix, i):
                    b = bad_type(ix, f["inner"]["struct_field"], seen)
                    if b:
                        return b
            for a in ((v.get("args") or {}).get("angle_bracketed") or {}).get("args", []):
                b = bad_type(ix, a.get("type") if isinstance(a, dict) else None, seen)
                if b:
                    return b
        elif k in ("borrowed_ref", "array"):
            b = bad_type(ix, v["type"], seen)
            if b:
                return b
        elif k == "slice":
            b = bad_type(ix, v, seen)
            if b:
                return b
        elif k == "tuple":
            for x in v:
                b = bad_type(ix, x, seen)
                if b:
                    return b
    return None


def fields(ix, item):
    inner = item["inner"]
    ids = []
    if "struct" in inner:
        k = inner["struct"]["kind"]
        if isinstance(k, dict):
            ids = k["plain"]["fields"] if "plain" in k else [x for x in k["tuple"] if x is not None]
    elif "enum" in inner:
        for v in inner["enum"]["variants"]:
            k = ix[str(v)]["inner"]["variant"]["kind"]
            if isinstance(k, dict):
                ids += k["struct"]["fields"] if "struct" in k else [x for x in k["tuple"] if x is not None]
    return [ix[str(i)] for i in ids if str(i) in ix]


def mentions_mut(t, names):
    """`&mut X` for a named type X somewhere in a type"""
    if isinstance(t, dict):
        if "borrowed_ref" in t and t["borrowed_ref"].get("is_mutable"):
            s = json.dumps(t["borrowed_ref"]["type"])
            if any(f'"path": "{n}"' in s or f'::{n}"' in s for n in names):
                return True
        return any(mentions_mut(v, names) for v in t.values())
    if isinstance(t, list):
        return any(mentions_mut(v, names) for v in t)
    return False


def api():
    j = doc()
    ix = j["index"]
    structs = {v["name"]: v for v in ix.values() if v["crate_id"] == 0 and "struct" in v["inner"] and v["visibility"] == "public"}
    for n in EXPECT:
        ob(n in structs, f"{n}: the type is missing from the public API")
    sel = {n: s for n, s in structs.items() if n in EXPECT or any(f["visibility"] != "public" for f in fields(ix, s))}
    methods = 0
    for n, s in sorted(sel.items()):
        for f in fields(ix, s):
            ob(f["visibility"] != "public", f"{n}: field {f['name']} is public, so an object can be changed after construction")
            b = bad_type(ix, f["inner"]["struct_field"], set())
            ob(b is None, f"{n}: field {f['name']} holds {b}, through which an object can change after construction")
        autos = {}
        for i in s["inner"]["struct"]["impls"]:
            m = ix[str(i)]["inner"]["impl"]
            tr = (m["trait"] or {}).get("path")
            if m["is_synthetic"]:
                autos[tr] = not m["is_negative"]
            if m["blanket_impl"] is not None or m["is_synthetic"]:
                continue
            if tr in ("Drop",):
                ob(False, f"{n}: implements Drop")
            for x in m["items"]:
                it = ix.get(str(x))
                if not it or "function" not in it["inner"]:
                    continue
                methods += 1
                sig = it["inner"]["function"]["sig"]
                reach = tr is not None or it["visibility"] == "public"
                ins = sig["inputs"]
                recv = ins[0][1] if ins and ins[0][0] == "self" else None
                mut = isinstance(recv, dict) and recv.get("borrowed_ref", {}).get("is_mutable")
                if it["name"] == "clone_from":
                    continue
                ob(not (mut and reach), f"{n}::{it['name']} takes the object by exclusive reference, so it can be changed after construction")
                ob(not mentions_mut([p[1] for p in ins if p[0] != "self"], sel) or not reach, f"{n}::{it['name']} takes an interpolator or grid by exclusive reference")
        for a in ("Send", "Sync", "Freeze"):
            ob(autos.get(a) is True, f"{n}: is not {a}")
    fns = 0
    for v in ix.values():
        if v["crate_id"] == 0 and "function" in v["inner"] and v["visibility"] == "public":
            fns += 1
            ob(not mentions_mut([p[1] for p in v["inner"]["function"]["sig"]["inputs"]], sel), f"{v['name']} takes an interpolator or grid by exclusive reference")
    return sorted(sel), methods, fns


# ------------------------------------------------------------------ witnesses
def externs():
    ll = run.build_ir("std")
    base = os.path.join(run.TARGET, "ir/std/debug")
    libs = glob.glob(base + "/build/interpn/*/out/libinterpn-*.rmeta") + glob.glob(base + "/deps/libinterpn-*.rmeta")
    if len(libs) != 1:
        run.die("no unique interpn library to compile witnesses against")
    args = ["--extern", "interpn=" + libs[0], "-L", "dependency=" + base + "/deps"]
    for d in glob.glob(base + "/build/*/*/out"):
        args += ["-L", "dependency=" + d]
    return args


def compile_(args, name, code):
    d = os.path.join(run.TARGET, "witness")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name + ".rs")
    open(p, "w").write("#![allow(unused)]\n" + code)
    r = subprocess.run(["rustc", "+nightly", "--edition", "2024", "--crate-type", "lib", "-C", "panic=abort", "--emit=metadata", "--error-format=json", "-o", os.path.join(d, name + ".rmeta"), p] + args, capture_output=True, text=True)
    codes, msgs = set(), []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") == "error" and m.get("code"):
            codes.add((m.get("code") or {}).get("code"))
            msgs.append(m["message"])
    return r.returncode == 0, codes, msgs


U = "use interpn::*; use interpn::multilinear::*; use interpn::multicubic::*; use interpn::nearest::*; use interpn::one_dim::{*, linear::*, hold::*};\n"
TYPES = []  # (name, instantiated type, constructor, borrowed things)
for m, cub in (("Multilinear", ""), ("Multicubic", ", false"), ("Nearest", "")):
    TYPES.append((m + "Regular", m + "Regular<{l}, {t}, 2>", m + "Regular::new([4, 4], [0.0, 0.0], [1.0, 1.0], {v}" + cub + ").unwrap()", "v"))
    TYPES.append((m + "Rectilinear", m + "Rectilinear<{l}, {t}, 2>", m + "Rectilinear::new({g}, {v}" + cub + ").unwrap()", "gv"))
    if m != "Nearest":
        TYPES.append((m + "RegularRecursive", m + "RegularRecursive<{l}, {t}, 2>", m + "RegularRecursive::new(&[4, 4], &[0.0, 0.0], &[1.0, 1.0], {v}" + cub + ").unwrap()", "v"))
        TYPES.append((m + "RectilinearRecursive", m + "RectilinearRecursive<{l}, {t}, 2>", m + "RectilinearRecursive::new({g}, {v}" + cub + ").unwrap()", "gv"))
TYPES.append(("RegularGrid1D", "RegularGrid1D<{l}, {t}>", "RegularGrid1D::new(0.0, 1.0, {v}).unwrap()", "v"))
TYPES.append(("RectilinearGrid1D", "RectilinearGrid1D<{l}, {t}>", "RectilinearGrid1D::new({h}, {v}).unwrap()", "hv"))
for w in ("Linear1D", "LinearHoldLast1D", "Left1D", "Right1D", "Nearest1D"):
    TYPES.append((w, w + "<RectilinearGrid1D<{l}, {t}>>", w + "::new(RectilinearGrid1D::new({h}, {v}).unwrap())", "hv"))


def gtype(c, lt, t, name):
    if c == "v" or c == "h":
        return f"&{lt} [{t}]"
    return f"&{lt} [&{lt} [{t}]; 2]" if not name.endswith("Recursive") else f"&{lt} [&{lt} [{t}]]"


def witnesses():
    args = externs()
    jobs = []  # (name, code, expected: None pass | set of codes, what)
    for name, ty, ctor, b in TYPES:
        for t in ("f64", "f32"):
            T = ty.format(l="'static", t=t)
            jobs.append((f"{name}_{t}_send", U + f"fn need<T: Send + Sync>() {{}}\npub fn w() {{ need::<{T}>(); }}\n", None, f"{name}<{t}> cannot be sent to and shared between threads"))
        oned = "1D" in name
        T = ty.format(l="'a", t="f64")
        if name in ("RegularGrid1D", "RectilinearGrid1D"):
            ev = "let _ = Grid1D::at(i, 0.5);"
        elif oned:
            ev = "let _ = i.eval_one(0.5);"
        elif name.endswith("Recursive"):
            ev = "let _ = i.interp_one(&[0.5, 0.5]);"
        else:
            ev = "let _ = i.interp_one([0.5, 0.5]);"
        ev2 = "" if name in ("RegularGrid1D", "RectilinearGrid1D") else ("let _ = i.eval(&[0.5], out);" if oned else "let _ = i.interp(&[&[0.5], &[0.5]], out);")
        jobs.append((f"{name}_shared", U + f"pub fn w<'a>(i: &{T}, out: &mut [f64], out2: &mut [f64]) {{ std::thread::scope(|s| {{ s.spawn(|| {{ {ev} {ev2} }}); }}); {ev} }}\n", None, f"{name} cannot be evaluated through shared references from several threads"))
        # lifetimes: each borrowed thing in turn is local
        def src(local):
            pars, lets, use = [], [], {}
            for c in b:
                gt = gtype(c, "'a", "f64", name)
                if c == local:
                    if c == "g":
                        lets.append("let l0 = [0.0, 1.0, 2.0, 3.0]; let lg = [&l0[..], &l0[..]];")
                        use[c] = "&lg"
                    else:
                        lets.append(f"let l{c} = [0.0; 16];")
                        use[c] = f"&l{c}[..]"
                else:
                    pars.append(f"{c}: {gt}")
                    use[c] = c
            body = ctor.format(**{**dict(g="", v="", h=""), **use})
            return pars, lets, body
        pars, lets, body = src(None)
        jobs.append((f"{name}_borrow_ok", U + f"pub fn w<'a>({', '.join(pars)}) -> {T} {{ {body} }}\n", None, f"{name}: the compiling twin of its lifetime witnesses does not compile"))
        for c in b:
            pars, lets, body = src(c)
            what = {"v": "values", "g": "grid", "h": "grid"}[c]
            jobs.append((f"{name}_outlives_{c}", U + f"pub fn w<'a>({', '.join(pars)}) -> {T} {{ {' '.join(lets)} {body} }}\n", {"E0515", "E0597", "E0716", "E0505"}, f"{name} can outlive the {what} storage it borrows"))
            # writing the borrowed storage while the object lives
            if c in "vh":
                p2 = [f"mut {x}: [f64; 16]" if x == c else f"{x}: {gtype(x, chr(39) + 'a', 'f64', name)}" for x in b]
                use = {x: (f"&{x}[..]" if x == c else x) for x in b}
                body = ctor.format(**{**dict(g="", v="", h=""), **use})
                T_ = ty.format(l="'_", t="f64")
                jobs.append((f"{name}_mutate_{c}_ok", U + f"pub fn w<'a>({', '.join(p2)}) {{ let i: {T_} = {body}; keep(&i); {c}[0] = 1.0; }}\nfn keep<X>(_: &X) {{}}\n", None, f"{name}: the compiling twin of its exclusive-write witness does not compile"))
                jobs.append((f"{name}_mutate_{c}", U + f"pub fn w<'a>({', '.join(p2)}) {{ let i: {T_} = {body}; {c}[0] = 1.0; keep(&i); }}\nfn keep<X>(_: &X) {{}}\n", {"E0506"}, f"{name}: the {what} storage can be written while the object lives"))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_(args, j[0], j[1]), jobs))
    for (n, code, exp, what), (ok, codes, msgs) in zip(jobs, res):
        if exp is None:
            ob(ok, f"{what}: {'; '.join(msgs)[:300]}")
        else:
            ob(not ok and bool(codes) and codes <= exp, f"{what}" if ok else f"{what}: the witness fails for another reason ({', '.join(str(c) for c in codes)}: {'; '.join(msgs)[:200]})")
    shutil.rmtree(os.path.join(run.TARGET, "witness"), ignore_errors=True)
    return len([j for j in jobs if j[2] is None]), len([j for j in jobs if j[2] is not None])


if __name__ == "__main__":
    run.build_ir("std")
    sel, methods, fns = api()
    ps, fs = witnesses()
    run.finish("C16", "other", dict(explanation="every interpolator and grid type: auto traits Send, Sync and Freeze; no public field, no exclusive-reference method or function, no field with interior mutability; compile-pass witnesses (thread sharing, evaluation through &self) and compile-fail witnesses with compiling twins (outliving or mutating borrowed storage)",
               types=sel, obligations=obligations, discharged=obligations - len(viol), methods=methods, public_functions=fns, compile_pass_witnesses=ps, compile_fail_witnesses=fs, trusted_base=["rustc's type checker and rustdoc's JSON"]), viol, [])
