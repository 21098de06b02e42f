#!/usr/bin/env python3
"""Generate roots/src/lib.rs: one exported function per public entry point and instantiation.

The functions contain no logic of their own: they exist so that rustc emits (fully typed,
monomorphised, unoptimised) IR for the library, and to give the analyser named parameters.
A companion file roots/roots.txt lists `name|kind|method|grid|shape|N|type|params`.
"""
import os, sys

here = os.path.dirname(os.path.abspath(__file__))
out = [
    "//! Generated by tools/genroots.py. Instantiations only; no logic.",
    "#![no_std]",
    "#![allow(clippy::all, unused_imports)]",
    "#[cfg(feature = \"std\")]",
    "extern crate std;",
    "use interpn::*;",
    "use interpn::one_dim::{Extrap, Grid1D, Interp1D, hold::*, linear::*};",
    "#[inline(always)]",
    "fn ex(e: &Extrap) -> u32 { match e { Extrap::Inside => 0, Extrap::OutsideLow => 1, Extrap::OutsideHigh => 2 } }",
]
spec = []


def emit(name, kind, method, grid, shape, n, ty, params, body, cfg=None):
    sig = []
    ps = []
    for p in params:
        k, nm, el, cnt = p
        ps.append(f"{k}:{nm}:{el}:{cnt}")
        t = {"f": "f64", "g": "f32", "u": "usize", "b": "bool"}.get(el, el)
        if k == "A":
            sig.append(f"{nm}: &[{t}; {cnt}]")
        elif k == "S":
            sig.append(f"{nm}: &[{t}]")
        elif k == "SS":
            sig.append(f"{nm}: &[&[{'f64' if el == 's' else 'f32'}]]")
        elif k == "AS":
            sig.append(f"{nm}: &[&[{'f64' if el == 's' else 'f32'}]; {cnt}]")
        elif k == "O":
            sig.append(f"{nm}: &mut [{t}]")
        elif k == "R":
            sig.append(f"{nm}: &mut {t}")
        elif k == "V":
            sig.append(f"{nm}: {t}")
        else:
            raise ValueError(k)
    if cfg:
        out.append(f"#[cfg({cfg})]")
    out.append("#[unsafe(no_mangle)]")
    out.append(f"pub fn {name}({', '.join(sig)}) -> u32 {{ {body} }}")
    spec.append("|".join([name, kind, method, grid, shape, str(n), ty, ";".join(ps)]))


def gridparams(grid, shape, n, el, ss):
    if grid == "reg":
        k = "A" if shape == "flat" else "S"
        return [(k, "dims", "u", n), (k, "starts", el, n), (k, "steps", el, n)]
    return [("AS" if shape == "flat" else "SS", "grids", ss, n)]


STRUCT = {
    ("linear", "reg"): ("multilinear::regular::MultilinearRegular", "multilinear::regular_recursive::MultilinearRegularRecursive", 6),
    ("linear", "rect"): ("multilinear::rectilinear::MultilinearRectilinear", "multilinear::rectilinear_recursive::MultilinearRectilinearRecursive", 6),
    ("cubic", "reg"): ("multicubic::regular::MulticubicRegular", "multicubic::regular_recursive::MulticubicRegularRecursive", 4),
    ("cubic", "rect"): ("multicubic::rectilinear::MulticubicRectilinear", "multicubic::rectilinear_recursive::MulticubicRectilinearRecursive", 4),
    ("nearest", "reg"): ("nearest::regular::NearestRegular", None, 6),
    ("nearest", "rect"): ("nearest::rectilinear::NearestRectilinear", None, 6),
}
MODS = {
    ("linear", "reg", "flat"): "multilinear::regular",
    ("linear", "reg", "rec"): "multilinear::regular_recursive",
    ("linear", "rect", "flat"): "multilinear::rectilinear",
    ("linear", "rect", "rec"): "multilinear::rectilinear_recursive",
    ("cubic", "reg", "flat"): "multicubic::regular",
    ("cubic", "reg", "rec"): "multicubic::regular_recursive",
    ("cubic", "rect", "flat"): "multicubic::rectilinear",
    ("cubic", "rect", "rec"): "multicubic::rectilinear_recursive",
    ("nearest", "reg", "flat"): "nearest::regular",
    ("nearest", "rect", "flat"): "nearest::rectilinear",
}


def nd(ty):
    T = {"f": "f64", "g": "f32"}[ty]
    ss = {"f": "s", "g": "t"}[ty]
    for (method, grid), (flat, rec, maxn) in STRUCT.items():
        lin = [("V", "lin", "b", 1)] if method == "cubic" else []
        la = ", lin" if lin else ""
        for shape, path, ns in (("flat", flat, range(1, maxn + 1)), ("rec", rec, (8, 3, 4, 5, 6, 7))):
            if path is None:
                continue
            if ty == "g":
                ns = [n for n in ns if n in (2, 8)]
            for n in ns:
                gp = gridparams(grid, shape, n, ty, ss)
                vals = [("S", "vals", ty, 0)]
                if shape == "flat":
                    ga = "*dims, *starts, *steps, vals" if grid == "reg" else "grids, vals"
                    xp, op, xa = [("A", "x", ty, n)], [("AS", "obs", ss, n)], "*x"
                else:
                    ga = "dims, starts, steps, vals" if grid == "reg" else "grids, vals"
                    xp, op, xa = [("S", "x", ty, 0)], [("SS", "obs", ss, 0)], "x"
                mk = f"{path}::<'_, {T}, {n}>::new({ga}{la})"
                for kind, extra, call in (
                    ("new", [], "Ok(_) => 0"),
                    ("one", xp + [("R", "out", ty, 1)], f"Ok(s) => match s.interp_one({xa}) {{ Err(_) => 2, Ok(v) => {{ *out = v; 0 }} }}"),
                    ("bat", op + [("O", "out", ty, 0)], "Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 }"),
                ):
                    if kind == "new" and ty == "g":
                        continue
                    if shape == "rec" and 4 <= n <= 7 and kind != "bat":
                        continue
                    emit(f"{kind}_{method}_{grid}_{shape}_{n}_{ty}", kind, method, grid, shape, n, ty, gp + vals + lin + extra, f"match {mk} {{ Err(_) => 1, {call} }}")
        for shape in ("flat", "rec"):
            mod = MODS.get((method, grid, shape))
            if not mod:
                continue
            gp = gridparams(grid, "rec", 0, ty, ss)
            vals = [("S", "vals", ty, 0)]
            ga = "dims, starts, steps, vals" if grid == "reg" else "grids, vals"
            obs = [("SS", "obs", ss, 0)]
            emit(f"fn_{method}_{grid}_{shape}_{ty}", "fn", method, grid, shape, 0, ty, gp + vals + lin + obs + [("O", "out", ty, 0)], f"match {mod}::interpn({ga}{la}, obs, out) {{ Err(_) => 2, Ok(()) => 0 }}")
            if ty == "f":
                emit(
                    f"alloc_{method}_{grid}_{shape}_{ty}", "alloc", method, grid, shape, 0, ty, gp + vals + lin + obs + [("O", "out", ty, 0)],
                    f"match {mod}::interpn_alloc({ga}{la}, obs) {{ Err(_) => 2, Ok(v) => if v.len() == out.len() {{ out.copy_from_slice(&v); 0 }} else {{ 3 }} }}", 'feature = "std"',
                )
            ca = "dims, starts, steps" if grid == "reg" else "grids"
            emit(f"cb_{method}_{grid}_{shape}_{ty}", "cb", method, grid, shape, 0, ty, gp + obs + [("V", "atol", ty, 1), ("O", "flag", "b", 0)], f"match {mod}::check_bounds({ca}, obs, atol, flag) {{ Err(_) => 2, Ok(()) => 0 }}")


def od(ty):
    T = {"f": "f64", "g": "f32"}[ty]
    for grid in ("reg", "rect"):
        if grid == "reg":
            gp = [("V", "start", ty, 1), ("V", "step", ty, 1), ("S", "vals", ty, 0)]
            mk = "RegularGrid1D::new(start, step, vals)"
        else:
            gp = [("S", "grid", ty, 0), ("S", "vals", ty, 0)]
            mk = "RectilinearGrid1D::new(grid, vals)"
        loc = [("V", "loc", ty, 1)]
        emit(f"new_1d_{grid}_{ty}", "new", "1d", grid, "grid", 1, ty, gp, f"match {mk} {{ Err(_) => 1, Ok(_) => 0 }}")
        emit(
            f"at_1d_{grid}_{ty}", "at", "1d", grid, "grid", 1, ty, gp + loc + [("R", n, ty, 1) for n in ("x0", "y0", "x1", "y1")] + [("R", "flag", "u32", 1)],
            f"match {mk} {{ Err(_) => 1, Ok(g) => match g.at(loc) {{ Err(_) => 2, Ok(s) => {{ *x0 = s.x0; *y0 = s.y0; *x1 = s.x1; *y1 = s.y1; *flag = ex(&s.extrap); 0 }} }} }}",
        )
        emit(
            f"idx_1d_{grid}_{ty}", "idx", "1d", grid, "grid", 1, ty, gp + loc + [("R", "idx", "u", 1), ("R", "flag", "u32", 1)],
            f"match {mk} {{ Err(_) => 1, Ok(g) => match g.index(loc) {{ Err(_) => 2, Ok((i, e)) => {{ *idx = i; *flag = ex(&e); 0 }} }} }}",
        )
        for m, st in (("linear", "Linear1D"), ("linhold", "LinearHoldLast1D"), ("left", "Left1D"), ("right", "Right1D"), ("nearest", "Nearest1D")):
            emit(f"one_1d_{m}_{grid}_{ty}", "one", m, grid, "1d", 1, ty, gp + loc + [("R", "out", ty, 1)], f"match {mk} {{ Err(_) => 1, Ok(g) => match {st}::new(g).eval_one(loc) {{ Err(_) => 2, Ok(v) => {{ *out = v; 0 }} }} }}")
            if ty == "g":
                continue
            emit(f"bat_1d_{m}_{grid}_{ty}", "bat", m, grid, "1d", 1, ty, gp + [("S", "locs", ty, 0), ("O", "out", ty, 0)], f"match {mk} {{ Err(_) => 1, Ok(g) => match {st}::new(g).eval(locs, out) {{ Err(_) => 2, Ok(()) => 0 }} }}")
            emit(
                f"alloc_1d_{m}_{grid}_{ty}", "alloc", m, grid, "1d", 1, ty, gp + [("S", "locs", ty, 0), ("O", "out", ty, 0)],
                f"match {mk} {{ Err(_) => 1, Ok(g) => match {st}::new(g).eval_alloc(locs) {{ Err(_) => 2, Ok(v) => if v.len() == out.len() {{ out.copy_from_slice(&v); 0 }} else {{ 3 }} }} }}", 'feature = "std"',
            )


for ty in "fg":
    nd(ty)
    od(ty)
open(os.path.join(here, "../roots/src/lib.rs"), "w").write("\n".join(out) + "\n")
open(os.path.join(here, "../roots/roots.txt"), "w").write("\n".join(spec) + "\n")
print(len(spec), "roots")
