//! Model of the part of pyo3 that the bindings use.  Exceptions are a kind and a message; nothing calls Python.
pub use pyo3_model_macros::{pyfunction, pymodule};
use std::marker::PhantomData;

#[derive(Debug, Clone, Copy)]
pub struct PyErr { pub kind: u32, pub msg: *const u8, pub len: usize }
pub type PyResult<T> = Result<T, PyErr>;
#[derive(Debug, Clone, Copy)]
pub struct Python<'py>(PhantomData<&'py ()>);
impl<'py> Python<'py> { #[inline(always)] pub fn marker() -> Self { Python(PhantomData) } }
pub struct Bound<'py, T> { pub inner: T, pub py: PhantomData<&'py ()> }
impl<'py, T> Bound<'py, T> { pub fn py(&self) -> Python<'py> { Python(PhantomData) } }
pub struct PyModule;

pub trait PyErrArguments { fn parts(&self) -> (*const u8, usize); }
impl PyErrArguments for &'static str { #[inline(always)] fn parts(&self) -> (*const u8, usize) { (self.as_ptr(), self.len()) } }
impl PyErrArguments for String { #[inline(always)] fn parts(&self) -> (*const u8, usize) { (self.as_ptr(), self.len()) } }
impl<T: PyErrArguments> PyErrArguments for (T,) { #[inline(always)] fn parts(&self) -> (*const u8, usize) { self.0.parts() } }
pub trait Exc { const KIND: u32; }
impl PyErr {
    #[inline(always)]
    pub fn new<E: Exc, A: PyErrArguments>(a: A) -> PyErr { let (msg, len) = a.parts(); PyErr { kind: E::KIND, msg, len } }
    #[inline(always)]
    pub const fn other(kind: u32) -> PyErr { PyErr { kind, msg: std::ptr::null(), len: 0 } }
}
pub mod exceptions {
    use super::*;
    macro_rules! exc { ($($n:ident $k:expr),*) => { $(
        pub struct $n;
        impl Exc for $n { const KIND: u32 = $k; }
        impl $n { #[inline(always)] pub fn new_err<A: PyErrArguments>(a: A) -> PyErr { PyErr::new::<$n, A>(a) } }
    )* } }
    exc!(PyAssertionError 1, PyValueError 2, PyTypeError 3, PyRuntimeError 4, PyIndexError 8, PyException 9, PyBufferError 10, PyMemoryError 11, PyOverflowError 12, PyKeyError 13, PyArithmeticError 14, PyNotImplementedError 15, PyUserWarning 16);
}
pub mod types { pub use super::PyModule; }
pub mod prelude { pub use super::{pyfunction, pymodule, wrap_pyfunction, Bound, PyErr, PyModule, PyResult, Python}; }
#[macro_export]
macro_rules! wrap_pyfunction { ($($t:tt)*) => { () } }

pub mod root {
    use super::*;
    pub trait FromRaw { fn raw(p: *const u8, n: usize) -> Self; }
    impl<'py, T: FromRaw> FromRaw for Bound<'py, T> { #[inline(always)] fn raw(p: *const u8, n: usize) -> Self { Bound { inner: T::raw(p, n), py: PhantomData } } }
    #[inline(always)]
    pub fn vec<X>(p: *const u8, n: usize) -> Vec<X> { unsafe { Vec::from_raw_parts(p as *mut X, n, n) } }
    #[inline(always)]
    pub fn finish(r: PyResult<()>, msg: *mut *const u8, len: *mut usize) -> u32 {
        match r {
            Ok(()) => 0,
            Err(e) => { unsafe { *msg = e.msg; *len = e.len; } e.kind }
        }
    }
}
