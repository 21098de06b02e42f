//! Model of the part of rust-numpy that the bindings use: an array is a pointer and a length; whether it is
//! contiguous and whether it can be borrowed are facts the analyser leaves open.
use pyo3::root::FromRaw;
use pyo3::{Bound, PyErr};
use std::marker::PhantomData;

extern "C" {
    fn __py_contig(p: *const u8) -> bool;
    fn __py_borrow(p: *const u8) -> bool;
}
#[inline(always)]
fn contig<T>(p: *const T) -> bool { unsafe { __py_contig(p as *const u8) } }
#[inline(always)]
fn borrow<T>(p: *const T) -> bool { unsafe { __py_borrow(p as *const u8) } }

#[derive(Debug, Clone, Copy)]
pub struct NotContiguousError;
#[derive(Debug, Clone, Copy)]
pub struct BorrowError;
impl From<NotContiguousError> for PyErr { #[inline(always)] fn from(_: NotContiguousError) -> PyErr { PyErr::other(5) } }
impl From<BorrowError> for PyErr { #[inline(always)] fn from(_: BorrowError) -> PyErr { PyErr::other(6) } }
impl std::fmt::Display for NotContiguousError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("not contiguous") } }
impl std::fmt::Display for BorrowError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("already borrowed") } }
pub trait Element: Copy {}
impl<T: Copy> Element for T {}
pub struct PyArray1<T> { ptr: *mut T, len: usize }
#[repr(C)]
pub struct PyReadonlyArray1<'py, T> { ptr: *const T, len: usize, py: PhantomData<&'py T> }
#[repr(C)]
pub struct PyReadwriteArray1<'py, T> { ptr: *mut T, len: usize, py: PhantomData<&'py T> }
impl<T> FromRaw for PyArray1<T> { #[inline(always)] fn raw(p: *const u8, n: usize) -> Self { PyArray1 { ptr: p as *mut T, len: n } } }
impl<'py, T> FromRaw for PyReadonlyArray1<'py, T> { #[inline(always)] fn raw(p: *const u8, n: usize) -> Self { PyReadonlyArray1 { ptr: p as *const T, len: n, py: PhantomData } } }
impl<'py, T> FromRaw for PyReadwriteArray1<'py, T> { #[inline(always)] fn raw(p: *const u8, n: usize) -> Self { PyReadwriteArray1 { ptr: p as *mut T, len: n, py: PhantomData } } }

macro_rules! common { () => {
    #[inline(always)]
    pub fn as_slice(&self) -> Result<&[T], NotContiguousError> {
        if contig(self.ptr) { Ok(unsafe { std::slice::from_raw_parts(self.ptr, self.len) }) } else { Err(NotContiguousError) }
    }
    #[inline(always)]
    pub fn len(&self) -> usize { self.len }
    #[inline(always)]
    pub fn is_empty(&self) -> bool { self.len == 0 }
    #[inline(always)]
    pub fn is_contiguous(&self) -> bool { contig(self.ptr) }
    #[inline(always)]
    pub fn is_c_contiguous(&self) -> bool { contig(self.ptr) }
    #[inline(always)]
    pub fn dims(&self) -> [usize; 1] { [self.len] }
} }
impl<'py, T> PyReadonlyArray1<'py, T> { common!(); }
impl<'py, T> PyReadwriteArray1<'py, T> {
    common!();
    #[inline(always)]
    pub fn as_slice_mut(&mut self) -> Result<&mut [T], NotContiguousError> {
        if contig(self.ptr) { Ok(unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }) } else { Err(NotContiguousError) }
    }
}
pub trait PyUntypedArrayMethods {
    fn len(&self) -> usize;
    fn is_contiguous(&self) -> bool;
    fn is_c_contiguous(&self) -> bool;
    fn is_empty(&self) -> bool;
}
impl<'py, T> PyUntypedArrayMethods for Bound<'py, PyArray1<T>> {
    #[inline(always)]
    fn len(&self) -> usize { self.inner.len }
    #[inline(always)]
    fn is_contiguous(&self) -> bool { contig(self.inner.ptr) }
    #[inline(always)]
    fn is_c_contiguous(&self) -> bool { contig(self.inner.ptr) }
    #[inline(always)]
    fn is_empty(&self) -> bool { self.inner.len == 0 }
}
pub trait PyArrayMethods<'py, T> {
    fn try_readonly(&self) -> Result<PyReadonlyArray1<'py, T>, BorrowError>;
    fn readonly(&self) -> PyReadonlyArray1<'py, T>;
    fn try_readwrite(&self) -> Result<PyReadwriteArray1<'py, T>, BorrowError>;
    fn readwrite(&self) -> PyReadwriteArray1<'py, T>;
    unsafe fn as_slice(&self) -> Result<&[T], NotContiguousError>;
    #[allow(clippy::mut_from_ref)]
    unsafe fn as_slice_mut(&self) -> Result<&mut [T], NotContiguousError>;
}
impl<'py, T> PyArrayMethods<'py, T> for Bound<'py, PyArray1<T>> {
    #[inline(always)]
    fn try_readonly(&self) -> Result<PyReadonlyArray1<'py, T>, BorrowError> {
        if borrow(self.inner.ptr) { Ok(PyReadonlyArray1 { ptr: self.inner.ptr, len: self.inner.len, py: PhantomData }) } else { Err(BorrowError) }
    }
    #[inline(always)]
    fn readonly(&self) -> PyReadonlyArray1<'py, T> { self.try_readonly().unwrap() }
    #[inline(always)]
    fn try_readwrite(&self) -> Result<PyReadwriteArray1<'py, T>, BorrowError> {
        if borrow(self.inner.ptr) { Ok(PyReadwriteArray1 { ptr: self.inner.ptr, len: self.inner.len, py: PhantomData }) } else { Err(BorrowError) }
    }
    #[inline(always)]
    fn readwrite(&self) -> PyReadwriteArray1<'py, T> { self.try_readwrite().unwrap() }
    #[inline(always)]
    unsafe fn as_slice(&self) -> Result<&[T], NotContiguousError> {
        if contig(self.inner.ptr) { Ok(std::slice::from_raw_parts(self.inner.ptr, self.inner.len)) } else { Err(NotContiguousError) }
    }
    #[inline(always)]
    unsafe fn as_slice_mut(&self) -> Result<&mut [T], NotContiguousError> {
        if contig(self.inner.ptr) { Ok(std::slice::from_raw_parts_mut(self.inner.ptr, self.inner.len)) } else { Err(NotContiguousError) }
    }
}
pub mod borrow { pub use super::{BorrowError, PyReadonlyArray1, PyReadwriteArray1}; }
pub mod prelude { pub use super::{PyArrayMethods, PyUntypedArrayMethods}; }
