//! Generated by tools/genroots.py. Instantiations only; no logic.
#![no_std]
#![allow(clippy::all, unused_imports)]
#[cfg(feature = "std")]
extern crate std;
use interpn::*;
use interpn::one_dim::{Extrap, Grid1D, Interp1D, hold::*, linear::*};
#[inline(always)]
fn ex(e: &Extrap) -> u32 { match e { Extrap::Inside => 0, Extrap::OutsideLow => 1, Extrap::OutsideHigh => 2 } }
#[unsafe(no_mangle)]
pub fn new_linear_reg_flat_1_f(dims: &[usize; 1], starts: &[f64; 1], steps: &[f64; 1], vals: &[f64]) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f64, 1>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_linear_reg_flat_1_f(dims: &[usize; 1], starts: &[f64; 1], steps: &[f64; 1], vals: &[f64], x: &[f64; 1], out: &mut f64) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f64, 1>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_reg_flat_1_f(dims: &[usize; 1], starts: &[f64; 1], steps: &[f64; 1], vals: &[f64], obs: &[&[f64]; 1], out: &mut [f64]) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f64, 1>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_linear_reg_flat_2_f(dims: &[usize; 2], starts: &[f64; 2], steps: &[f64; 2], vals: &[f64]) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f64, 2>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_linear_reg_flat_2_f(dims: &[usize; 2], starts: &[f64; 2], steps: &[f64; 2], vals: &[f64], x: &[f64; 2], out: &mut f64) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f64, 2>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_reg_flat_2_f(dims: &[usize; 2], starts: &[f64; 2], steps: &[f64; 2], vals: &[f64], obs: &[&[f64]; 2], out: &mut [f64]) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f64, 2>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_linear_reg_flat_3_f(dims: &[usize; 3], starts: &[f64; 3], steps: &[f64; 3], vals: &[f64]) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f64, 3>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_linear_reg_flat_3_f(dims: &[usize; 3], starts: &[f64; 3], steps: &[f64; 3], vals: &[f64], x: &[f64; 3], out: &mut f64) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f64, 3>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_reg_flat_3_f(dims: &[usize; 3], starts: &[f64; 3], steps: &[f64; 3], vals: &[f64], obs: &[&[f64]; 3], out: &mut [f64]) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f64, 3>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_linear_reg_flat_4_f(dims: &[usize; 4], starts: &[f64; 4], steps: &[f64; 4], vals: &[f64]) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f64, 4>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_linear_reg_flat_4_f(dims: &[usize; 4], starts: &[f64; 4], steps: &[f64; 4], vals: &[f64], x: &[f64; 4], out: &mut f64) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f64, 4>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_reg_flat_4_f(dims: &[usize; 4], starts: &[f64; 4], steps: &[f64; 4], vals: &[f64], obs: &[&[f64]; 4], out: &mut [f64]) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f64, 4>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_linear_reg_flat_5_f(dims: &[usize; 5], starts: &[f64; 5], steps: &[f64; 5], vals: &[f64]) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f64, 5>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_linear_reg_flat_5_f(dims: &[usize; 5], starts: &[f64; 5], steps: &[f64; 5], vals: &[f64], x: &[f64; 5], out: &mut f64) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f64, 5>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_reg_flat_5_f(dims: &[usize; 5], starts: &[f64; 5], steps: &[f64; 5], vals: &[f64], obs: &[&[f64]; 5], out: &mut [f64]) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f64, 5>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_linear_reg_flat_6_f(dims: &[usize; 6], starts: &[f64; 6], steps: &[f64; 6], vals: &[f64]) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f64, 6>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_linear_reg_flat_6_f(dims: &[usize; 6], starts: &[f64; 6], steps: &[f64; 6], vals: &[f64], x: &[f64; 6], out: &mut f64) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f64, 6>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_reg_flat_6_f(dims: &[usize; 6], starts: &[f64; 6], steps: &[f64; 6], vals: &[f64], obs: &[&[f64]; 6], out: &mut [f64]) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f64, 6>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_linear_reg_rec_8_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64]) -> u32 { match multilinear::regular_recursive::MultilinearRegularRecursive::<'_, f64, 8>::new(dims, starts, steps, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_linear_reg_rec_8_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], x: &[f64], out: &mut f64) -> u32 { match multilinear::regular_recursive::MultilinearRegularRecursive::<'_, f64, 8>::new(dims, starts, steps, vals) { Err(_) => 1, Ok(s) => match s.interp_one(x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_reg_rec_8_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::regular_recursive::MultilinearRegularRecursive::<'_, f64, 8>::new(dims, starts, steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_linear_reg_rec_3_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64]) -> u32 { match multilinear::regular_recursive::MultilinearRegularRecursive::<'_, f64, 3>::new(dims, starts, steps, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_linear_reg_rec_3_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], x: &[f64], out: &mut f64) -> u32 { match multilinear::regular_recursive::MultilinearRegularRecursive::<'_, f64, 3>::new(dims, starts, steps, vals) { Err(_) => 1, Ok(s) => match s.interp_one(x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_reg_rec_3_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::regular_recursive::MultilinearRegularRecursive::<'_, f64, 3>::new(dims, starts, steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn bat_linear_reg_rec_4_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::regular_recursive::MultilinearRegularRecursive::<'_, f64, 4>::new(dims, starts, steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn bat_linear_reg_rec_5_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::regular_recursive::MultilinearRegularRecursive::<'_, f64, 5>::new(dims, starts, steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn bat_linear_reg_rec_6_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::regular_recursive::MultilinearRegularRecursive::<'_, f64, 6>::new(dims, starts, steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn bat_linear_reg_rec_7_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::regular_recursive::MultilinearRegularRecursive::<'_, f64, 7>::new(dims, starts, steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn fn_linear_reg_flat_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::regular::interpn(dims, starts, steps, vals, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_linear_reg_flat_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::regular::interpn_alloc(dims, starts, steps, vals, obs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } }
#[unsafe(no_mangle)]
pub fn cb_linear_reg_flat_f(dims: &[usize], starts: &[f64], steps: &[f64], obs: &[&[f64]], atol: f64, flag: &mut [bool]) -> u32 { match multilinear::regular::check_bounds(dims, starts, steps, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn fn_linear_reg_rec_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::regular_recursive::interpn(dims, starts, steps, vals, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_linear_reg_rec_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::regular_recursive::interpn_alloc(dims, starts, steps, vals, obs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } }
#[unsafe(no_mangle)]
pub fn cb_linear_reg_rec_f(dims: &[usize], starts: &[f64], steps: &[f64], obs: &[&[f64]], atol: f64, flag: &mut [bool]) -> u32 { match multilinear::regular_recursive::check_bounds(dims, starts, steps, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn new_linear_rect_flat_1_f(grids: &[&[f64]; 1], vals: &[f64]) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f64, 1>::new(grids, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_linear_rect_flat_1_f(grids: &[&[f64]; 1], vals: &[f64], x: &[f64; 1], out: &mut f64) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f64, 1>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_rect_flat_1_f(grids: &[&[f64]; 1], vals: &[f64], obs: &[&[f64]; 1], out: &mut [f64]) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f64, 1>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_linear_rect_flat_2_f(grids: &[&[f64]; 2], vals: &[f64]) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f64, 2>::new(grids, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_linear_rect_flat_2_f(grids: &[&[f64]; 2], vals: &[f64], x: &[f64; 2], out: &mut f64) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f64, 2>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_rect_flat_2_f(grids: &[&[f64]; 2], vals: &[f64], obs: &[&[f64]; 2], out: &mut [f64]) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f64, 2>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_linear_rect_flat_3_f(grids: &[&[f64]; 3], vals: &[f64]) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f64, 3>::new(grids, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_linear_rect_flat_3_f(grids: &[&[f64]; 3], vals: &[f64], x: &[f64; 3], out: &mut f64) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f64, 3>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_rect_flat_3_f(grids: &[&[f64]; 3], vals: &[f64], obs: &[&[f64]; 3], out: &mut [f64]) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f64, 3>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_linear_rect_flat_4_f(grids: &[&[f64]; 4], vals: &[f64]) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f64, 4>::new(grids, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_linear_rect_flat_4_f(grids: &[&[f64]; 4], vals: &[f64], x: &[f64; 4], out: &mut f64) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f64, 4>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_rect_flat_4_f(grids: &[&[f64]; 4], vals: &[f64], obs: &[&[f64]; 4], out: &mut [f64]) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f64, 4>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_linear_rect_flat_5_f(grids: &[&[f64]; 5], vals: &[f64]) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f64, 5>::new(grids, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_linear_rect_flat_5_f(grids: &[&[f64]; 5], vals: &[f64], x: &[f64; 5], out: &mut f64) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f64, 5>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_rect_flat_5_f(grids: &[&[f64]; 5], vals: &[f64], obs: &[&[f64]; 5], out: &mut [f64]) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f64, 5>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_linear_rect_flat_6_f(grids: &[&[f64]; 6], vals: &[f64]) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f64, 6>::new(grids, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_linear_rect_flat_6_f(grids: &[&[f64]; 6], vals: &[f64], x: &[f64; 6], out: &mut f64) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f64, 6>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_rect_flat_6_f(grids: &[&[f64]; 6], vals: &[f64], obs: &[&[f64]; 6], out: &mut [f64]) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f64, 6>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_linear_rect_rec_8_f(grids: &[&[f64]], vals: &[f64]) -> u32 { match multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<'_, f64, 8>::new(grids, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_linear_rect_rec_8_f(grids: &[&[f64]], vals: &[f64], x: &[f64], out: &mut f64) -> u32 { match multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<'_, f64, 8>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp_one(x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_rect_rec_8_f(grids: &[&[f64]], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<'_, f64, 8>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_linear_rect_rec_3_f(grids: &[&[f64]], vals: &[f64]) -> u32 { match multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<'_, f64, 3>::new(grids, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_linear_rect_rec_3_f(grids: &[&[f64]], vals: &[f64], x: &[f64], out: &mut f64) -> u32 { match multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<'_, f64, 3>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp_one(x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_rect_rec_3_f(grids: &[&[f64]], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<'_, f64, 3>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn bat_linear_rect_rec_4_f(grids: &[&[f64]], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<'_, f64, 4>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn bat_linear_rect_rec_5_f(grids: &[&[f64]], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<'_, f64, 5>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn bat_linear_rect_rec_6_f(grids: &[&[f64]], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<'_, f64, 6>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn bat_linear_rect_rec_7_f(grids: &[&[f64]], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<'_, f64, 7>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn fn_linear_rect_flat_f(grids: &[&[f64]], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::rectilinear::interpn(grids, vals, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_linear_rect_flat_f(grids: &[&[f64]], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::rectilinear::interpn_alloc(grids, vals, obs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } }
#[unsafe(no_mangle)]
pub fn cb_linear_rect_flat_f(grids: &[&[f64]], obs: &[&[f64]], atol: f64, flag: &mut [bool]) -> u32 { match multilinear::rectilinear::check_bounds(grids, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn fn_linear_rect_rec_f(grids: &[&[f64]], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::rectilinear_recursive::interpn(grids, vals, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_linear_rect_rec_f(grids: &[&[f64]], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match multilinear::rectilinear_recursive::interpn_alloc(grids, vals, obs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } }
#[unsafe(no_mangle)]
pub fn cb_linear_rect_rec_f(grids: &[&[f64]], obs: &[&[f64]], atol: f64, flag: &mut [bool]) -> u32 { match multilinear::rectilinear_recursive::check_bounds(grids, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn new_cubic_reg_flat_1_f(dims: &[usize; 1], starts: &[f64; 1], steps: &[f64; 1], vals: &[f64], lin: bool) -> u32 { match multicubic::regular::MulticubicRegular::<'_, f64, 1>::new(*dims, *starts, *steps, vals, lin) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_cubic_reg_flat_1_f(dims: &[usize; 1], starts: &[f64; 1], steps: &[f64; 1], vals: &[f64], lin: bool, x: &[f64; 1], out: &mut f64) -> u32 { match multicubic::regular::MulticubicRegular::<'_, f64, 1>::new(*dims, *starts, *steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_reg_flat_1_f(dims: &[usize; 1], starts: &[f64; 1], steps: &[f64; 1], vals: &[f64], lin: bool, obs: &[&[f64]; 1], out: &mut [f64]) -> u32 { match multicubic::regular::MulticubicRegular::<'_, f64, 1>::new(*dims, *starts, *steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_cubic_reg_flat_2_f(dims: &[usize; 2], starts: &[f64; 2], steps: &[f64; 2], vals: &[f64], lin: bool) -> u32 { match multicubic::regular::MulticubicRegular::<'_, f64, 2>::new(*dims, *starts, *steps, vals, lin) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_cubic_reg_flat_2_f(dims: &[usize; 2], starts: &[f64; 2], steps: &[f64; 2], vals: &[f64], lin: bool, x: &[f64; 2], out: &mut f64) -> u32 { match multicubic::regular::MulticubicRegular::<'_, f64, 2>::new(*dims, *starts, *steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_reg_flat_2_f(dims: &[usize; 2], starts: &[f64; 2], steps: &[f64; 2], vals: &[f64], lin: bool, obs: &[&[f64]; 2], out: &mut [f64]) -> u32 { match multicubic::regular::MulticubicRegular::<'_, f64, 2>::new(*dims, *starts, *steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_cubic_reg_flat_3_f(dims: &[usize; 3], starts: &[f64; 3], steps: &[f64; 3], vals: &[f64], lin: bool) -> u32 { match multicubic::regular::MulticubicRegular::<'_, f64, 3>::new(*dims, *starts, *steps, vals, lin) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_cubic_reg_flat_3_f(dims: &[usize; 3], starts: &[f64; 3], steps: &[f64; 3], vals: &[f64], lin: bool, x: &[f64; 3], out: &mut f64) -> u32 { match multicubic::regular::MulticubicRegular::<'_, f64, 3>::new(*dims, *starts, *steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_reg_flat_3_f(dims: &[usize; 3], starts: &[f64; 3], steps: &[f64; 3], vals: &[f64], lin: bool, obs: &[&[f64]; 3], out: &mut [f64]) -> u32 { match multicubic::regular::MulticubicRegular::<'_, f64, 3>::new(*dims, *starts, *steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_cubic_reg_flat_4_f(dims: &[usize; 4], starts: &[f64; 4], steps: &[f64; 4], vals: &[f64], lin: bool) -> u32 { match multicubic::regular::MulticubicRegular::<'_, f64, 4>::new(*dims, *starts, *steps, vals, lin) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_cubic_reg_flat_4_f(dims: &[usize; 4], starts: &[f64; 4], steps: &[f64; 4], vals: &[f64], lin: bool, x: &[f64; 4], out: &mut f64) -> u32 { match multicubic::regular::MulticubicRegular::<'_, f64, 4>::new(*dims, *starts, *steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_reg_flat_4_f(dims: &[usize; 4], starts: &[f64; 4], steps: &[f64; 4], vals: &[f64], lin: bool, obs: &[&[f64]; 4], out: &mut [f64]) -> u32 { match multicubic::regular::MulticubicRegular::<'_, f64, 4>::new(*dims, *starts, *steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_cubic_reg_rec_8_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], lin: bool) -> u32 { match multicubic::regular_recursive::MulticubicRegularRecursive::<'_, f64, 8>::new(dims, starts, steps, vals, lin) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_cubic_reg_rec_8_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], lin: bool, x: &[f64], out: &mut f64) -> u32 { match multicubic::regular_recursive::MulticubicRegularRecursive::<'_, f64, 8>::new(dims, starts, steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp_one(x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_reg_rec_8_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::regular_recursive::MulticubicRegularRecursive::<'_, f64, 8>::new(dims, starts, steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_cubic_reg_rec_3_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], lin: bool) -> u32 { match multicubic::regular_recursive::MulticubicRegularRecursive::<'_, f64, 3>::new(dims, starts, steps, vals, lin) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_cubic_reg_rec_3_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], lin: bool, x: &[f64], out: &mut f64) -> u32 { match multicubic::regular_recursive::MulticubicRegularRecursive::<'_, f64, 3>::new(dims, starts, steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp_one(x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_reg_rec_3_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::regular_recursive::MulticubicRegularRecursive::<'_, f64, 3>::new(dims, starts, steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_reg_rec_4_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::regular_recursive::MulticubicRegularRecursive::<'_, f64, 4>::new(dims, starts, steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_reg_rec_5_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::regular_recursive::MulticubicRegularRecursive::<'_, f64, 5>::new(dims, starts, steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_reg_rec_6_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::regular_recursive::MulticubicRegularRecursive::<'_, f64, 6>::new(dims, starts, steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_reg_rec_7_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::regular_recursive::MulticubicRegularRecursive::<'_, f64, 7>::new(dims, starts, steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn fn_cubic_reg_flat_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::regular::interpn(dims, starts, steps, vals, lin, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_cubic_reg_flat_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::regular::interpn_alloc(dims, starts, steps, vals, lin, obs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } }
#[unsafe(no_mangle)]
pub fn cb_cubic_reg_flat_f(dims: &[usize], starts: &[f64], steps: &[f64], obs: &[&[f64]], atol: f64, flag: &mut [bool]) -> u32 { match multicubic::regular::check_bounds(dims, starts, steps, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn fn_cubic_reg_rec_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::regular_recursive::interpn(dims, starts, steps, vals, lin, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_cubic_reg_rec_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::regular_recursive::interpn_alloc(dims, starts, steps, vals, lin, obs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } }
#[unsafe(no_mangle)]
pub fn cb_cubic_reg_rec_f(dims: &[usize], starts: &[f64], steps: &[f64], obs: &[&[f64]], atol: f64, flag: &mut [bool]) -> u32 { match multicubic::regular_recursive::check_bounds(dims, starts, steps, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn new_cubic_rect_flat_1_f(grids: &[&[f64]; 1], vals: &[f64], lin: bool) -> u32 { match multicubic::rectilinear::MulticubicRectilinear::<'_, f64, 1>::new(grids, vals, lin) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_cubic_rect_flat_1_f(grids: &[&[f64]; 1], vals: &[f64], lin: bool, x: &[f64; 1], out: &mut f64) -> u32 { match multicubic::rectilinear::MulticubicRectilinear::<'_, f64, 1>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_rect_flat_1_f(grids: &[&[f64]; 1], vals: &[f64], lin: bool, obs: &[&[f64]; 1], out: &mut [f64]) -> u32 { match multicubic::rectilinear::MulticubicRectilinear::<'_, f64, 1>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_cubic_rect_flat_2_f(grids: &[&[f64]; 2], vals: &[f64], lin: bool) -> u32 { match multicubic::rectilinear::MulticubicRectilinear::<'_, f64, 2>::new(grids, vals, lin) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_cubic_rect_flat_2_f(grids: &[&[f64]; 2], vals: &[f64], lin: bool, x: &[f64; 2], out: &mut f64) -> u32 { match multicubic::rectilinear::MulticubicRectilinear::<'_, f64, 2>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_rect_flat_2_f(grids: &[&[f64]; 2], vals: &[f64], lin: bool, obs: &[&[f64]; 2], out: &mut [f64]) -> u32 { match multicubic::rectilinear::MulticubicRectilinear::<'_, f64, 2>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_cubic_rect_flat_3_f(grids: &[&[f64]; 3], vals: &[f64], lin: bool) -> u32 { match multicubic::rectilinear::MulticubicRectilinear::<'_, f64, 3>::new(grids, vals, lin) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_cubic_rect_flat_3_f(grids: &[&[f64]; 3], vals: &[f64], lin: bool, x: &[f64; 3], out: &mut f64) -> u32 { match multicubic::rectilinear::MulticubicRectilinear::<'_, f64, 3>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_rect_flat_3_f(grids: &[&[f64]; 3], vals: &[f64], lin: bool, obs: &[&[f64]; 3], out: &mut [f64]) -> u32 { match multicubic::rectilinear::MulticubicRectilinear::<'_, f64, 3>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_cubic_rect_flat_4_f(grids: &[&[f64]; 4], vals: &[f64], lin: bool) -> u32 { match multicubic::rectilinear::MulticubicRectilinear::<'_, f64, 4>::new(grids, vals, lin) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_cubic_rect_flat_4_f(grids: &[&[f64]; 4], vals: &[f64], lin: bool, x: &[f64; 4], out: &mut f64) -> u32 { match multicubic::rectilinear::MulticubicRectilinear::<'_, f64, 4>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_rect_flat_4_f(grids: &[&[f64]; 4], vals: &[f64], lin: bool, obs: &[&[f64]; 4], out: &mut [f64]) -> u32 { match multicubic::rectilinear::MulticubicRectilinear::<'_, f64, 4>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_cubic_rect_rec_8_f(grids: &[&[f64]], vals: &[f64], lin: bool) -> u32 { match multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<'_, f64, 8>::new(grids, vals, lin) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_cubic_rect_rec_8_f(grids: &[&[f64]], vals: &[f64], lin: bool, x: &[f64], out: &mut f64) -> u32 { match multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<'_, f64, 8>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp_one(x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_rect_rec_8_f(grids: &[&[f64]], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<'_, f64, 8>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_cubic_rect_rec_3_f(grids: &[&[f64]], vals: &[f64], lin: bool) -> u32 { match multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<'_, f64, 3>::new(grids, vals, lin) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_cubic_rect_rec_3_f(grids: &[&[f64]], vals: &[f64], lin: bool, x: &[f64], out: &mut f64) -> u32 { match multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<'_, f64, 3>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp_one(x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_rect_rec_3_f(grids: &[&[f64]], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<'_, f64, 3>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_rect_rec_4_f(grids: &[&[f64]], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<'_, f64, 4>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_rect_rec_5_f(grids: &[&[f64]], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<'_, f64, 5>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_rect_rec_6_f(grids: &[&[f64]], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<'_, f64, 6>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_rect_rec_7_f(grids: &[&[f64]], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<'_, f64, 7>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn fn_cubic_rect_flat_f(grids: &[&[f64]], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::rectilinear::interpn(grids, vals, lin, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_cubic_rect_flat_f(grids: &[&[f64]], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::rectilinear::interpn_alloc(grids, vals, lin, obs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } }
#[unsafe(no_mangle)]
pub fn cb_cubic_rect_flat_f(grids: &[&[f64]], obs: &[&[f64]], atol: f64, flag: &mut [bool]) -> u32 { match multicubic::rectilinear::check_bounds(grids, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn fn_cubic_rect_rec_f(grids: &[&[f64]], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::rectilinear_recursive::interpn(grids, vals, lin, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_cubic_rect_rec_f(grids: &[&[f64]], vals: &[f64], lin: bool, obs: &[&[f64]], out: &mut [f64]) -> u32 { match multicubic::rectilinear_recursive::interpn_alloc(grids, vals, lin, obs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } }
#[unsafe(no_mangle)]
pub fn cb_cubic_rect_rec_f(grids: &[&[f64]], obs: &[&[f64]], atol: f64, flag: &mut [bool]) -> u32 { match multicubic::rectilinear_recursive::check_bounds(grids, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn new_nearest_reg_flat_1_f(dims: &[usize; 1], starts: &[f64; 1], steps: &[f64; 1], vals: &[f64]) -> u32 { match nearest::regular::NearestRegular::<'_, f64, 1>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_nearest_reg_flat_1_f(dims: &[usize; 1], starts: &[f64; 1], steps: &[f64; 1], vals: &[f64], x: &[f64; 1], out: &mut f64) -> u32 { match nearest::regular::NearestRegular::<'_, f64, 1>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_nearest_reg_flat_1_f(dims: &[usize; 1], starts: &[f64; 1], steps: &[f64; 1], vals: &[f64], obs: &[&[f64]; 1], out: &mut [f64]) -> u32 { match nearest::regular::NearestRegular::<'_, f64, 1>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_nearest_reg_flat_2_f(dims: &[usize; 2], starts: &[f64; 2], steps: &[f64; 2], vals: &[f64]) -> u32 { match nearest::regular::NearestRegular::<'_, f64, 2>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_nearest_reg_flat_2_f(dims: &[usize; 2], starts: &[f64; 2], steps: &[f64; 2], vals: &[f64], x: &[f64; 2], out: &mut f64) -> u32 { match nearest::regular::NearestRegular::<'_, f64, 2>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_nearest_reg_flat_2_f(dims: &[usize; 2], starts: &[f64; 2], steps: &[f64; 2], vals: &[f64], obs: &[&[f64]; 2], out: &mut [f64]) -> u32 { match nearest::regular::NearestRegular::<'_, f64, 2>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_nearest_reg_flat_3_f(dims: &[usize; 3], starts: &[f64; 3], steps: &[f64; 3], vals: &[f64]) -> u32 { match nearest::regular::NearestRegular::<'_, f64, 3>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_nearest_reg_flat_3_f(dims: &[usize; 3], starts: &[f64; 3], steps: &[f64; 3], vals: &[f64], x: &[f64; 3], out: &mut f64) -> u32 { match nearest::regular::NearestRegular::<'_, f64, 3>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_nearest_reg_flat_3_f(dims: &[usize; 3], starts: &[f64; 3], steps: &[f64; 3], vals: &[f64], obs: &[&[f64]; 3], out: &mut [f64]) -> u32 { match nearest::regular::NearestRegular::<'_, f64, 3>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_nearest_reg_flat_4_f(dims: &[usize; 4], starts: &[f64; 4], steps: &[f64; 4], vals: &[f64]) -> u32 { match nearest::regular::NearestRegular::<'_, f64, 4>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_nearest_reg_flat_4_f(dims: &[usize; 4], starts: &[f64; 4], steps: &[f64; 4], vals: &[f64], x: &[f64; 4], out: &mut f64) -> u32 { match nearest::regular::NearestRegular::<'_, f64, 4>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_nearest_reg_flat_4_f(dims: &[usize; 4], starts: &[f64; 4], steps: &[f64; 4], vals: &[f64], obs: &[&[f64]; 4], out: &mut [f64]) -> u32 { match nearest::regular::NearestRegular::<'_, f64, 4>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_nearest_reg_flat_5_f(dims: &[usize; 5], starts: &[f64; 5], steps: &[f64; 5], vals: &[f64]) -> u32 { match nearest::regular::NearestRegular::<'_, f64, 5>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_nearest_reg_flat_5_f(dims: &[usize; 5], starts: &[f64; 5], steps: &[f64; 5], vals: &[f64], x: &[f64; 5], out: &mut f64) -> u32 { match nearest::regular::NearestRegular::<'_, f64, 5>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_nearest_reg_flat_5_f(dims: &[usize; 5], starts: &[f64; 5], steps: &[f64; 5], vals: &[f64], obs: &[&[f64]; 5], out: &mut [f64]) -> u32 { match nearest::regular::NearestRegular::<'_, f64, 5>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_nearest_reg_flat_6_f(dims: &[usize; 6], starts: &[f64; 6], steps: &[f64; 6], vals: &[f64]) -> u32 { match nearest::regular::NearestRegular::<'_, f64, 6>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_nearest_reg_flat_6_f(dims: &[usize; 6], starts: &[f64; 6], steps: &[f64; 6], vals: &[f64], x: &[f64; 6], out: &mut f64) -> u32 { match nearest::regular::NearestRegular::<'_, f64, 6>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_nearest_reg_flat_6_f(dims: &[usize; 6], starts: &[f64; 6], steps: &[f64; 6], vals: &[f64], obs: &[&[f64]; 6], out: &mut [f64]) -> u32 { match nearest::regular::NearestRegular::<'_, f64, 6>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn fn_nearest_reg_flat_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match nearest::regular::interpn(dims, starts, steps, vals, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_nearest_reg_flat_f(dims: &[usize], starts: &[f64], steps: &[f64], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match nearest::regular::interpn_alloc(dims, starts, steps, vals, obs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } }
#[unsafe(no_mangle)]
pub fn cb_nearest_reg_flat_f(dims: &[usize], starts: &[f64], steps: &[f64], obs: &[&[f64]], atol: f64, flag: &mut [bool]) -> u32 { match nearest::regular::check_bounds(dims, starts, steps, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn new_nearest_rect_flat_1_f(grids: &[&[f64]; 1], vals: &[f64]) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f64, 1>::new(grids, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_nearest_rect_flat_1_f(grids: &[&[f64]; 1], vals: &[f64], x: &[f64; 1], out: &mut f64) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f64, 1>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_nearest_rect_flat_1_f(grids: &[&[f64]; 1], vals: &[f64], obs: &[&[f64]; 1], out: &mut [f64]) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f64, 1>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_nearest_rect_flat_2_f(grids: &[&[f64]; 2], vals: &[f64]) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f64, 2>::new(grids, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_nearest_rect_flat_2_f(grids: &[&[f64]; 2], vals: &[f64], x: &[f64; 2], out: &mut f64) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f64, 2>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_nearest_rect_flat_2_f(grids: &[&[f64]; 2], vals: &[f64], obs: &[&[f64]; 2], out: &mut [f64]) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f64, 2>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_nearest_rect_flat_3_f(grids: &[&[f64]; 3], vals: &[f64]) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f64, 3>::new(grids, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_nearest_rect_flat_3_f(grids: &[&[f64]; 3], vals: &[f64], x: &[f64; 3], out: &mut f64) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f64, 3>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_nearest_rect_flat_3_f(grids: &[&[f64]; 3], vals: &[f64], obs: &[&[f64]; 3], out: &mut [f64]) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f64, 3>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_nearest_rect_flat_4_f(grids: &[&[f64]; 4], vals: &[f64]) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f64, 4>::new(grids, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_nearest_rect_flat_4_f(grids: &[&[f64]; 4], vals: &[f64], x: &[f64; 4], out: &mut f64) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f64, 4>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_nearest_rect_flat_4_f(grids: &[&[f64]; 4], vals: &[f64], obs: &[&[f64]; 4], out: &mut [f64]) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f64, 4>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_nearest_rect_flat_5_f(grids: &[&[f64]; 5], vals: &[f64]) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f64, 5>::new(grids, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_nearest_rect_flat_5_f(grids: &[&[f64]; 5], vals: &[f64], x: &[f64; 5], out: &mut f64) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f64, 5>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_nearest_rect_flat_5_f(grids: &[&[f64]; 5], vals: &[f64], obs: &[&[f64]; 5], out: &mut [f64]) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f64, 5>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn new_nearest_rect_flat_6_f(grids: &[&[f64]; 6], vals: &[f64]) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f64, 6>::new(grids, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn one_nearest_rect_flat_6_f(grids: &[&[f64]; 6], vals: &[f64], x: &[f64; 6], out: &mut f64) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f64, 6>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_nearest_rect_flat_6_f(grids: &[&[f64]; 6], vals: &[f64], obs: &[&[f64]; 6], out: &mut [f64]) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f64, 6>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn fn_nearest_rect_flat_f(grids: &[&[f64]], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match nearest::rectilinear::interpn(grids, vals, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_nearest_rect_flat_f(grids: &[&[f64]], vals: &[f64], obs: &[&[f64]], out: &mut [f64]) -> u32 { match nearest::rectilinear::interpn_alloc(grids, vals, obs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } }
#[unsafe(no_mangle)]
pub fn cb_nearest_rect_flat_f(grids: &[&[f64]], obs: &[&[f64]], atol: f64, flag: &mut [bool]) -> u32 { match nearest::rectilinear::check_bounds(grids, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn new_1d_reg_f(start: f64, step: f64, vals: &[f64]) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn at_1d_reg_f(start: f64, step: f64, vals: &[f64], loc: f64, x0: &mut f64, y0: &mut f64, x1: &mut f64, y1: &mut f64, flag: &mut u32) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match g.at(loc) { Err(_) => 2, Ok(s) => { *x0 = s.x0; *y0 = s.y0; *x1 = s.x1; *y1 = s.y1; *flag = ex(&s.extrap); 0 } } } }
#[unsafe(no_mangle)]
pub fn idx_1d_reg_f(start: f64, step: f64, vals: &[f64], loc: f64, idx: &mut usize, flag: &mut u32) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match g.index(loc) { Err(_) => 2, Ok((i, e)) => { *idx = i; *flag = ex(&e); 0 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_linear_reg_f(start: f64, step: f64, vals: &[f64], loc: f64, out: &mut f64) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match Linear1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_1d_linear_reg_f(start: f64, step: f64, vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match Linear1D::new(g).eval(locs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_1d_linear_reg_f(start: f64, step: f64, vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match Linear1D::new(g).eval_alloc(locs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_linhold_reg_f(start: f64, step: f64, vals: &[f64], loc: f64, out: &mut f64) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match LinearHoldLast1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_1d_linhold_reg_f(start: f64, step: f64, vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match LinearHoldLast1D::new(g).eval(locs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_1d_linhold_reg_f(start: f64, step: f64, vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match LinearHoldLast1D::new(g).eval_alloc(locs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_left_reg_f(start: f64, step: f64, vals: &[f64], loc: f64, out: &mut f64) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match Left1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_1d_left_reg_f(start: f64, step: f64, vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match Left1D::new(g).eval(locs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_1d_left_reg_f(start: f64, step: f64, vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match Left1D::new(g).eval_alloc(locs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_right_reg_f(start: f64, step: f64, vals: &[f64], loc: f64, out: &mut f64) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match Right1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_1d_right_reg_f(start: f64, step: f64, vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match Right1D::new(g).eval(locs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_1d_right_reg_f(start: f64, step: f64, vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match Right1D::new(g).eval_alloc(locs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_nearest_reg_f(start: f64, step: f64, vals: &[f64], loc: f64, out: &mut f64) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match Nearest1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_1d_nearest_reg_f(start: f64, step: f64, vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match Nearest1D::new(g).eval(locs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_1d_nearest_reg_f(start: f64, step: f64, vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match Nearest1D::new(g).eval_alloc(locs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } } }
#[unsafe(no_mangle)]
pub fn new_1d_rect_f(grid: &[f64], vals: &[f64]) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn at_1d_rect_f(grid: &[f64], vals: &[f64], loc: f64, x0: &mut f64, y0: &mut f64, x1: &mut f64, y1: &mut f64, flag: &mut u32) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match g.at(loc) { Err(_) => 2, Ok(s) => { *x0 = s.x0; *y0 = s.y0; *x1 = s.x1; *y1 = s.y1; *flag = ex(&s.extrap); 0 } } } }
#[unsafe(no_mangle)]
pub fn idx_1d_rect_f(grid: &[f64], vals: &[f64], loc: f64, idx: &mut usize, flag: &mut u32) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match g.index(loc) { Err(_) => 2, Ok((i, e)) => { *idx = i; *flag = ex(&e); 0 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_linear_rect_f(grid: &[f64], vals: &[f64], loc: f64, out: &mut f64) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match Linear1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_1d_linear_rect_f(grid: &[f64], vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match Linear1D::new(g).eval(locs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_1d_linear_rect_f(grid: &[f64], vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match Linear1D::new(g).eval_alloc(locs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_linhold_rect_f(grid: &[f64], vals: &[f64], loc: f64, out: &mut f64) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match LinearHoldLast1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_1d_linhold_rect_f(grid: &[f64], vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match LinearHoldLast1D::new(g).eval(locs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_1d_linhold_rect_f(grid: &[f64], vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match LinearHoldLast1D::new(g).eval_alloc(locs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_left_rect_f(grid: &[f64], vals: &[f64], loc: f64, out: &mut f64) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match Left1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_1d_left_rect_f(grid: &[f64], vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match Left1D::new(g).eval(locs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_1d_left_rect_f(grid: &[f64], vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match Left1D::new(g).eval_alloc(locs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_right_rect_f(grid: &[f64], vals: &[f64], loc: f64, out: &mut f64) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match Right1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_1d_right_rect_f(grid: &[f64], vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match Right1D::new(g).eval(locs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_1d_right_rect_f(grid: &[f64], vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match Right1D::new(g).eval_alloc(locs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_nearest_rect_f(grid: &[f64], vals: &[f64], loc: f64, out: &mut f64) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match Nearest1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_1d_nearest_rect_f(grid: &[f64], vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match Nearest1D::new(g).eval(locs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[cfg(feature = "std")]
#[unsafe(no_mangle)]
pub fn alloc_1d_nearest_rect_f(grid: &[f64], vals: &[f64], locs: &[f64], out: &mut [f64]) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match Nearest1D::new(g).eval_alloc(locs) { Err(_) => 2, Ok(v) => if v.len() == out.len() { out.copy_from_slice(&v); 0 } else { 3 } } } }
#[unsafe(no_mangle)]
pub fn one_linear_reg_flat_2_g(dims: &[usize; 2], starts: &[f32; 2], steps: &[f32; 2], vals: &[f32], x: &[f32; 2], out: &mut f32) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f32, 2>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_reg_flat_2_g(dims: &[usize; 2], starts: &[f32; 2], steps: &[f32; 2], vals: &[f32], obs: &[&[f32]; 2], out: &mut [f32]) -> u32 { match multilinear::regular::MultilinearRegular::<'_, f32, 2>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn one_linear_reg_rec_8_g(dims: &[usize], starts: &[f32], steps: &[f32], vals: &[f32], x: &[f32], out: &mut f32) -> u32 { match multilinear::regular_recursive::MultilinearRegularRecursive::<'_, f32, 8>::new(dims, starts, steps, vals) { Err(_) => 1, Ok(s) => match s.interp_one(x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_reg_rec_8_g(dims: &[usize], starts: &[f32], steps: &[f32], vals: &[f32], obs: &[&[f32]], out: &mut [f32]) -> u32 { match multilinear::regular_recursive::MultilinearRegularRecursive::<'_, f32, 8>::new(dims, starts, steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn fn_linear_reg_flat_g(dims: &[usize], starts: &[f32], steps: &[f32], vals: &[f32], obs: &[&[f32]], out: &mut [f32]) -> u32 { match multilinear::regular::interpn(dims, starts, steps, vals, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn cb_linear_reg_flat_g(dims: &[usize], starts: &[f32], steps: &[f32], obs: &[&[f32]], atol: f32, flag: &mut [bool]) -> u32 { match multilinear::regular::check_bounds(dims, starts, steps, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn fn_linear_reg_rec_g(dims: &[usize], starts: &[f32], steps: &[f32], vals: &[f32], obs: &[&[f32]], out: &mut [f32]) -> u32 { match multilinear::regular_recursive::interpn(dims, starts, steps, vals, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn cb_linear_reg_rec_g(dims: &[usize], starts: &[f32], steps: &[f32], obs: &[&[f32]], atol: f32, flag: &mut [bool]) -> u32 { match multilinear::regular_recursive::check_bounds(dims, starts, steps, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn one_linear_rect_flat_2_g(grids: &[&[f32]; 2], vals: &[f32], x: &[f32; 2], out: &mut f32) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f32, 2>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_rect_flat_2_g(grids: &[&[f32]; 2], vals: &[f32], obs: &[&[f32]; 2], out: &mut [f32]) -> u32 { match multilinear::rectilinear::MultilinearRectilinear::<'_, f32, 2>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn one_linear_rect_rec_8_g(grids: &[&[f32]], vals: &[f32], x: &[f32], out: &mut f32) -> u32 { match multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<'_, f32, 8>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp_one(x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_linear_rect_rec_8_g(grids: &[&[f32]], vals: &[f32], obs: &[&[f32]], out: &mut [f32]) -> u32 { match multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<'_, f32, 8>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn fn_linear_rect_flat_g(grids: &[&[f32]], vals: &[f32], obs: &[&[f32]], out: &mut [f32]) -> u32 { match multilinear::rectilinear::interpn(grids, vals, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn cb_linear_rect_flat_g(grids: &[&[f32]], obs: &[&[f32]], atol: f32, flag: &mut [bool]) -> u32 { match multilinear::rectilinear::check_bounds(grids, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn fn_linear_rect_rec_g(grids: &[&[f32]], vals: &[f32], obs: &[&[f32]], out: &mut [f32]) -> u32 { match multilinear::rectilinear_recursive::interpn(grids, vals, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn cb_linear_rect_rec_g(grids: &[&[f32]], obs: &[&[f32]], atol: f32, flag: &mut [bool]) -> u32 { match multilinear::rectilinear_recursive::check_bounds(grids, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn one_cubic_reg_flat_2_g(dims: &[usize; 2], starts: &[f32; 2], steps: &[f32; 2], vals: &[f32], lin: bool, x: &[f32; 2], out: &mut f32) -> u32 { match multicubic::regular::MulticubicRegular::<'_, f32, 2>::new(*dims, *starts, *steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_reg_flat_2_g(dims: &[usize; 2], starts: &[f32; 2], steps: &[f32; 2], vals: &[f32], lin: bool, obs: &[&[f32]; 2], out: &mut [f32]) -> u32 { match multicubic::regular::MulticubicRegular::<'_, f32, 2>::new(*dims, *starts, *steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn one_cubic_reg_rec_8_g(dims: &[usize], starts: &[f32], steps: &[f32], vals: &[f32], lin: bool, x: &[f32], out: &mut f32) -> u32 { match multicubic::regular_recursive::MulticubicRegularRecursive::<'_, f32, 8>::new(dims, starts, steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp_one(x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_reg_rec_8_g(dims: &[usize], starts: &[f32], steps: &[f32], vals: &[f32], lin: bool, obs: &[&[f32]], out: &mut [f32]) -> u32 { match multicubic::regular_recursive::MulticubicRegularRecursive::<'_, f32, 8>::new(dims, starts, steps, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn fn_cubic_reg_flat_g(dims: &[usize], starts: &[f32], steps: &[f32], vals: &[f32], lin: bool, obs: &[&[f32]], out: &mut [f32]) -> u32 { match multicubic::regular::interpn(dims, starts, steps, vals, lin, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn cb_cubic_reg_flat_g(dims: &[usize], starts: &[f32], steps: &[f32], obs: &[&[f32]], atol: f32, flag: &mut [bool]) -> u32 { match multicubic::regular::check_bounds(dims, starts, steps, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn fn_cubic_reg_rec_g(dims: &[usize], starts: &[f32], steps: &[f32], vals: &[f32], lin: bool, obs: &[&[f32]], out: &mut [f32]) -> u32 { match multicubic::regular_recursive::interpn(dims, starts, steps, vals, lin, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn cb_cubic_reg_rec_g(dims: &[usize], starts: &[f32], steps: &[f32], obs: &[&[f32]], atol: f32, flag: &mut [bool]) -> u32 { match multicubic::regular_recursive::check_bounds(dims, starts, steps, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn one_cubic_rect_flat_2_g(grids: &[&[f32]; 2], vals: &[f32], lin: bool, x: &[f32; 2], out: &mut f32) -> u32 { match multicubic::rectilinear::MulticubicRectilinear::<'_, f32, 2>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_rect_flat_2_g(grids: &[&[f32]; 2], vals: &[f32], lin: bool, obs: &[&[f32]; 2], out: &mut [f32]) -> u32 { match multicubic::rectilinear::MulticubicRectilinear::<'_, f32, 2>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn one_cubic_rect_rec_8_g(grids: &[&[f32]], vals: &[f32], lin: bool, x: &[f32], out: &mut f32) -> u32 { match multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<'_, f32, 8>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp_one(x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_cubic_rect_rec_8_g(grids: &[&[f32]], vals: &[f32], lin: bool, obs: &[&[f32]], out: &mut [f32]) -> u32 { match multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<'_, f32, 8>::new(grids, vals, lin) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn fn_cubic_rect_flat_g(grids: &[&[f32]], vals: &[f32], lin: bool, obs: &[&[f32]], out: &mut [f32]) -> u32 { match multicubic::rectilinear::interpn(grids, vals, lin, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn cb_cubic_rect_flat_g(grids: &[&[f32]], obs: &[&[f32]], atol: f32, flag: &mut [bool]) -> u32 { match multicubic::rectilinear::check_bounds(grids, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn fn_cubic_rect_rec_g(grids: &[&[f32]], vals: &[f32], lin: bool, obs: &[&[f32]], out: &mut [f32]) -> u32 { match multicubic::rectilinear_recursive::interpn(grids, vals, lin, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn cb_cubic_rect_rec_g(grids: &[&[f32]], obs: &[&[f32]], atol: f32, flag: &mut [bool]) -> u32 { match multicubic::rectilinear_recursive::check_bounds(grids, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn one_nearest_reg_flat_2_g(dims: &[usize; 2], starts: &[f32; 2], steps: &[f32; 2], vals: &[f32], x: &[f32; 2], out: &mut f32) -> u32 { match nearest::regular::NearestRegular::<'_, f32, 2>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_nearest_reg_flat_2_g(dims: &[usize; 2], starts: &[f32; 2], steps: &[f32; 2], vals: &[f32], obs: &[&[f32]; 2], out: &mut [f32]) -> u32 { match nearest::regular::NearestRegular::<'_, f32, 2>::new(*dims, *starts, *steps, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn fn_nearest_reg_flat_g(dims: &[usize], starts: &[f32], steps: &[f32], vals: &[f32], obs: &[&[f32]], out: &mut [f32]) -> u32 { match nearest::regular::interpn(dims, starts, steps, vals, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn cb_nearest_reg_flat_g(dims: &[usize], starts: &[f32], steps: &[f32], obs: &[&[f32]], atol: f32, flag: &mut [bool]) -> u32 { match nearest::regular::check_bounds(dims, starts, steps, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn one_nearest_rect_flat_2_g(grids: &[&[f32]; 2], vals: &[f32], x: &[f32; 2], out: &mut f32) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f32, 2>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp_one(*x) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn bat_nearest_rect_flat_2_g(grids: &[&[f32]; 2], vals: &[f32], obs: &[&[f32]; 2], out: &mut [f32]) -> u32 { match nearest::rectilinear::NearestRectilinear::<'_, f32, 2>::new(grids, vals) { Err(_) => 1, Ok(s) => match s.interp(obs, out) { Err(_) => 2, Ok(()) => 0 } } }
#[unsafe(no_mangle)]
pub fn fn_nearest_rect_flat_g(grids: &[&[f32]], vals: &[f32], obs: &[&[f32]], out: &mut [f32]) -> u32 { match nearest::rectilinear::interpn(grids, vals, obs, out) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn cb_nearest_rect_flat_g(grids: &[&[f32]], obs: &[&[f32]], atol: f32, flag: &mut [bool]) -> u32 { match nearest::rectilinear::check_bounds(grids, obs, atol, flag) { Err(_) => 2, Ok(()) => 0 } }
#[unsafe(no_mangle)]
pub fn new_1d_reg_g(start: f32, step: f32, vals: &[f32]) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn at_1d_reg_g(start: f32, step: f32, vals: &[f32], loc: f32, x0: &mut f32, y0: &mut f32, x1: &mut f32, y1: &mut f32, flag: &mut u32) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match g.at(loc) { Err(_) => 2, Ok(s) => { *x0 = s.x0; *y0 = s.y0; *x1 = s.x1; *y1 = s.y1; *flag = ex(&s.extrap); 0 } } } }
#[unsafe(no_mangle)]
pub fn idx_1d_reg_g(start: f32, step: f32, vals: &[f32], loc: f32, idx: &mut usize, flag: &mut u32) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match g.index(loc) { Err(_) => 2, Ok((i, e)) => { *idx = i; *flag = ex(&e); 0 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_linear_reg_g(start: f32, step: f32, vals: &[f32], loc: f32, out: &mut f32) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match Linear1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_linhold_reg_g(start: f32, step: f32, vals: &[f32], loc: f32, out: &mut f32) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match LinearHoldLast1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_left_reg_g(start: f32, step: f32, vals: &[f32], loc: f32, out: &mut f32) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match Left1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_right_reg_g(start: f32, step: f32, vals: &[f32], loc: f32, out: &mut f32) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match Right1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_nearest_reg_g(start: f32, step: f32, vals: &[f32], loc: f32, out: &mut f32) -> u32 { match RegularGrid1D::new(start, step, vals) { Err(_) => 1, Ok(g) => match Nearest1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn new_1d_rect_g(grid: &[f32], vals: &[f32]) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(_) => 0 } }
#[unsafe(no_mangle)]
pub fn at_1d_rect_g(grid: &[f32], vals: &[f32], loc: f32, x0: &mut f32, y0: &mut f32, x1: &mut f32, y1: &mut f32, flag: &mut u32) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match g.at(loc) { Err(_) => 2, Ok(s) => { *x0 = s.x0; *y0 = s.y0; *x1 = s.x1; *y1 = s.y1; *flag = ex(&s.extrap); 0 } } } }
#[unsafe(no_mangle)]
pub fn idx_1d_rect_g(grid: &[f32], vals: &[f32], loc: f32, idx: &mut usize, flag: &mut u32) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match g.index(loc) { Err(_) => 2, Ok((i, e)) => { *idx = i; *flag = ex(&e); 0 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_linear_rect_g(grid: &[f32], vals: &[f32], loc: f32, out: &mut f32) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match Linear1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_linhold_rect_g(grid: &[f32], vals: &[f32], loc: f32, out: &mut f32) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match LinearHoldLast1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_left_rect_g(grid: &[f32], vals: &[f32], loc: f32, out: &mut f32) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match Left1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_right_rect_g(grid: &[f32], vals: &[f32], loc: f32, out: &mut f32) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match Right1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
#[unsafe(no_mangle)]
pub fn one_1d_nearest_rect_g(grid: &[f32], vals: &[f32], loc: f32, out: &mut f32) -> u32 { match RectilinearGrid1D::new(grid, vals) { Err(_) => 1, Ok(g) => match Nearest1D::new(g).eval_one(loc) { Err(_) => 2, Ok(v) => { *out = v; 0 } } } }
