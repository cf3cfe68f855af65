//! Model of the part of PyO3 / CPython that rumpy's binding layer uses, so that the binding layer
//! itself can be executed symbolically.  Python objects are reference counted Rust values; argument
//! conversion follows PyO3's documented rules (int/bool/float/str/sequence/None handling, borrow
//! flags of #[pyclass] values, IndexError/TypeError/OverflowError kinds).
#![allow(warnings)]
use std::any::Any; use std::cell::{Cell, RefCell, UnsafeCell}; use std::marker::PhantomData; use std::ops::{Deref, DerefMut}; use std::rc::Rc;
pub use pyo3_model_macros::{pyclass, pyfunction, pymethods, pymodule};

pub type Obj = Rc<Inner>;
pub struct Inner { pub refcnt: Cell<isize>, pub v: Val }
pub enum Val {
    None, Ellipsis, NotImplemented, Bool(bool), Int(i64), UInt(u64), Float(f64), Complex(f64, f64), Str(String), Bytes(Vec<u8>),
    Tuple(Vec<Obj>), List(RefCell<Vec<Obj>>), Dict(RefCell<Vec<(Obj, Obj)>>), Slice(Obj, Obj, Obj),
    Native(Box<dyn NativeCell>), Func(Box<dyn Fn(&[Obj]) -> PyResult<Obj>>), Module(&'static str), Type(&'static str),
}
pub fn mk(v: Val) -> Obj { Rc::new(Inner { refcnt: Cell::new(3), v }) }
pub fn none() -> Obj { mk(Val::None) }

pub trait PyClass: 'static { const NAME: &'static str; }
pub trait NativeCell { fn any(&self) -> &dyn Any; fn name(&self) -> &'static str; fn flag(&self) -> &Cell<isize>; }
pub struct Cell_<T> { pub flag: Cell<isize>, pub v: UnsafeCell<T> }
impl<T: PyClass> NativeCell for Cell_<T> { fn any(&self) -> &dyn Any { self } fn name(&self) -> &'static str { T::NAME } fn flag(&self) -> &Cell<isize> { &self.flag } }
pub fn native<T: PyClass>(v: T) -> Obj { mk(Val::Native(Box::new(Cell_ { flag: Cell::new(0), v: UnsafeCell::new(v) }))) }
fn cell<T: PyClass>(o: &Obj) -> Option<&Cell_<T>> { if let Val::Native(n) = &o.v { n.any().downcast_ref::<Cell_<T>>() } else { None } }

/// Behaviour of native objects that PyO3 routes through type slots; set by the harness.
#[derive(Clone, Copy)]
pub struct Hooks { pub float: Option<fn(&Obj) -> PyResult<f64>>, pub getattr: Option<fn(&Obj, &str) -> PyResult<Obj>>, pub iter: Option<fn(&Obj) -> PyResult<Vec<Obj>>>, pub import: Option<fn(&str) -> PyResult<Obj>>, pub method: Option<fn(&Obj, &str, &[Obj]) -> PyResult<Obj>> }
pub static mut HOOKS: Hooks = Hooks { float: None, getattr: None, iter: None, import: None, method: None };
fn hooks() -> Hooks { unsafe { HOOKS } }

#[derive(Clone, Copy)] pub struct Python<'py>(PhantomData<&'py ()>);
impl<'py> Python<'py> {
    pub fn assume() -> Self { Python(PhantomData) }
    pub fn with_gil<R>(f: impl FnOnce(Python<'py>) -> R) -> R { f(Python(PhantomData)) }
    pub fn allow_threads<R>(self, f: impl FnOnce() -> R) -> R { f() }
    #[allow(non_snake_case)] pub fn None(self) -> PyObject { Py::of(none()) }
    #[allow(non_snake_case)] pub fn NotImplemented(self) -> PyObject { Py::of(mk(Val::NotImplemented)) }
    #[allow(non_snake_case)] pub fn Ellipsis(self) -> PyObject { Py::of(mk(Val::Ellipsis)) }
    pub fn import(self, n: &str) -> PyResult<Bound<'py, PyModule>> { match hooks().import { Some(h) => Ok(Bound::of(h(n)?)), None => Err(PyErr::k(Kind::Import)) } }
    pub fn get_type<T: PyTypeInfo>(self) -> Bound<'py, PyType> { Bound::of(mk(Val::Type(T::TNAME))) }
    pub fn check_signals(self) -> PyResult<()> { Ok(()) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Value, Type, Index, Key, IO, NotImplemented, Overflow, ZeroDivision, Attribute, Runtime, Import, Exception, StopIteration, Memory, Lookup, Custom }
#[derive(Debug)] pub struct PyErr { pub kind: Kind }
impl PyErr {
    pub fn k(kind: Kind) -> PyErr { PyErr { kind } }
    pub fn new<T: Exc, A>(_a: A) -> PyErr { PyErr { kind: T::KIND } }
    pub fn is_instance_of<T: Exc>(&self, _py: Python<'_>) -> bool { self.kind == T::KIND }
    pub fn value<'py>(&self, _py: Python<'py>) -> Bound<'py, PyAny> { Bound::of(none()) }
    pub fn clone_ref(&self, _py: Python<'_>) -> PyErr { PyErr { kind: self.kind } }
}
impl std::fmt::Display for PyErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("PyErr") } }
impl std::error::Error for PyErr {}
impl From<std::convert::Infallible> for PyErr { fn from(_: std::convert::Infallible) -> PyErr { PyErr::k(Kind::Runtime) } }
impl From<std::io::Error> for PyErr { fn from(_: std::io::Error) -> PyErr { PyErr::k(Kind::IO) } }
impl From<std::num::ParseIntError> for PyErr { fn from(_: std::num::ParseIntError) -> PyErr { PyErr::k(Kind::Value) } }
impl From<std::num::ParseFloatError> for PyErr { fn from(_: std::num::ParseFloatError) -> PyErr { PyErr::k(Kind::Value) } }
impl From<std::num::TryFromIntError> for PyErr { fn from(_: std::num::TryFromIntError) -> PyErr { PyErr::k(Kind::Value) } }
pub type PyResult<T> = Result<T, PyErr>;
pub type DowncastError<'a, 'py> = PyErr;
pub trait Exc { const KIND: Kind; }
#[macro_export] macro_rules! create_exception { ($m:ident, $n:ident, $b:ty $(, $d:expr)?) => { pub struct $n; impl $n { pub fn new_err<A>(_a: A) -> $crate::PyErr { $crate::PyErr::k($crate::Kind::Custom) } } impl $crate::Exc for $n { const KIND: $crate::Kind = $crate::Kind::Custom; } impl $crate::PyTypeInfo for $n { const TNAME: &'static str = stringify!($n); fn is(o: &$crate::Obj) -> bool { false } } } }
pub mod exceptions { use super::*;
    macro_rules! exc { ($($n:ident $k:ident),*) => { $(pub struct $n; impl $n { #[inline(never)] pub fn new_err<A>(_a: A) -> PyErr { PyErr { kind: Kind::$k } } } impl Exc for $n { const KIND: Kind = Kind::$k; } impl PyTypeInfo for $n { const TNAME: &'static str = stringify!($n); fn is(_o: &Obj) -> bool { false } })* } }
    exc!(PyValueError Value, PyTypeError Type, PyIndexError Index, PyKeyError Key, PyIOError IO, PyOSError IO, PyNotImplementedError NotImplemented, PyOverflowError Overflow, PyZeroDivisionError ZeroDivision, PyAttributeError Attribute, PyRuntimeError Runtime, PyImportError Import, PyException Exception, PyStopIteration StopIteration, PyMemoryError Memory, PyLookupError Lookup, PyDeprecationWarning Custom, PyRuntimeWarning Custom, PyUserWarning Custom, PyFileNotFoundError IO, PyArithmeticError Value, PyBufferError Value, PyAssertionError Value, PyUnicodeDecodeError Value);
}

pub trait PyTypeInfo { const TNAME: &'static str; fn is(o: &Obj) -> bool; }
pub trait DerefToPyAny {}
pub struct PyAny; impl PyTypeInfo for PyAny { const TNAME: &'static str = "object"; fn is(_o: &Obj) -> bool { true } }
pub struct PyTuple; impl PyTypeInfo for PyTuple { const TNAME: &'static str = "tuple"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::Tuple(_)) } } impl DerefToPyAny for PyTuple {}
pub struct PyList; impl PyTypeInfo for PyList { const TNAME: &'static str = "list"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::List(_)) } } impl DerefToPyAny for PyList {}
pub struct PyDict; impl PyTypeInfo for PyDict { const TNAME: &'static str = "dict"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::Dict(_)) } } impl DerefToPyAny for PyDict {}
pub struct PySlice; impl PyTypeInfo for PySlice { const TNAME: &'static str = "slice"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::Slice(..)) } } impl DerefToPyAny for PySlice {}
pub struct PyString; impl PyTypeInfo for PyString { const TNAME: &'static str = "str"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::Str(_)) } } impl DerefToPyAny for PyString {}
pub struct PyBytes; impl PyTypeInfo for PyBytes { const TNAME: &'static str = "bytes"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::Bytes(_)) } } impl DerefToPyAny for PyBytes {}
pub struct PyEllipsis; impl PyTypeInfo for PyEllipsis { const TNAME: &'static str = "ellipsis"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::Ellipsis) } } impl DerefToPyAny for PyEllipsis {}
pub struct PyInt; impl PyTypeInfo for PyInt { const TNAME: &'static str = "int"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::Int(_) | Val::UInt(_) | Val::Bool(_)) } } impl DerefToPyAny for PyInt {}
pub struct PyFloat; impl PyTypeInfo for PyFloat { const TNAME: &'static str = "float"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::Float(_)) } } impl DerefToPyAny for PyFloat {}
pub struct PyBool; impl PyTypeInfo for PyBool { const TNAME: &'static str = "bool"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::Bool(_)) } } impl DerefToPyAny for PyBool {}
pub struct PyComplex; impl PyTypeInfo for PyComplex { const TNAME: &'static str = "complex"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::Complex(..)) } } impl DerefToPyAny for PyComplex {}
pub struct PyModule; impl PyTypeInfo for PyModule { const TNAME: &'static str = "module"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::Module(_)) } } impl DerefToPyAny for PyModule {}
pub struct PyType; impl PyTypeInfo for PyType { const TNAME: &'static str = "type"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::Type(_)) } } impl DerefToPyAny for PyType {}
pub struct PyNone; impl PyTypeInfo for PyNone { const TNAME: &'static str = "NoneType"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::None) } } impl DerefToPyAny for PyNone {}
pub struct PyCFunction; impl PyTypeInfo for PyCFunction { const TNAME: &'static str = "builtin_function_or_method"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::Func(_)) } } impl DerefToPyAny for PyCFunction {}
pub struct PyByteArray; impl PyTypeInfo for PyByteArray { const TNAME: &'static str = "bytearray"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::None if false) } } impl DerefToPyAny for PyByteArray {}
pub struct PySequence; impl PyTypeInfo for PySequence { const TNAME: &'static str = "Sequence"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::Tuple(_) | Val::List(_) | Val::Str(_) | Val::Bytes(_)) } } impl DerefToPyAny for PySequence {}
pub struct PyIterator; impl PyTypeInfo for PyIterator { const TNAME: &'static str = "iterator"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::None if false) } } impl DerefToPyAny for PyIterator {}
pub struct PySet; impl PyTypeInfo for PySet { const TNAME: &'static str = "set"; fn is(o: &Obj) -> bool { matches!(&o.v, Val::None if false) } } impl DerefToPyAny for PySet {}
impl<T: PyClass> PyTypeInfo for T { const TNAME: &'static str = T::NAME; fn is(o: &Obj) -> bool { cell::<T>(o).is_some() } }
impl<T: PyClass> DerefToPyAny for T {}
pub mod types {
    pub use crate::{PyAny, PyTuple, PyList, PyDict, PySlice, PyString, PyBytes, PyEllipsis, PyInt, PyFloat, PyBool, PyComplex, PyModule, PyType, PyNone, PyCFunction, PyByteArray, PySequence, PyIterator, PySet};
    pub use crate::traits::*;
}
pub mod traits {
    pub trait PyAnyMethods {} pub trait PyTupleMethods {} pub trait PyListMethods {} pub trait PyDictMethods {} pub trait PySliceMethods {} pub trait PyStringMethods {} pub trait PyBytesMethods {} pub trait PyModuleMethods {} pub trait PyComplexMethods {} pub trait PyFloatMethods {} pub trait PyTypeMethods {}
}
pub mod prelude { pub use crate::{pyclass, pyfunction, pymethods, pymodule, wrap_pyfunction, Bound, Py, PyAny, PyErr, PyModule, PyObject, PyRef, PyRefMut, PyResult, Python, IntoPyObject, FromPyObject}; pub use crate::traits::*; }
pub mod ffi { pub type PyObject = crate::Inner; pub type Py_ssize_t = isize; pub unsafe fn Py_REFCNT(p: *mut PyObject) -> Py_ssize_t { (*p).refcnt.get() } }

pub struct Bound<'py, T>(pub Obj, PhantomData<(&'py (), fn() -> T)>);
pub struct Py<T>(pub Obj, PhantomData<fn() -> T>);
unsafe impl<T> Send for Py<T> {} unsafe impl<T> Sync for Py<T> {}
pub type PyObject = Py<PyAny>;
pub type Borrowed<'a, 'py, T> = Bound<'py, T>;
impl<'py, T> Clone for Bound<'py, T> { fn clone(&self) -> Self { Bound(self.0.clone(), PhantomData) } }
impl<T> Clone for Py<T> { fn clone(&self) -> Self { Py(self.0.clone(), PhantomData) } }
impl<'py, T> std::fmt::Debug for Bound<'py, T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl<'py, T> std::fmt::Display for Bound<'py, T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match &self.0.v { Val::Str(s) => f.write_str(s), Val::Type(s) => f.write_str(s), _ => Ok(()) } } }
impl<T> std::fmt::Debug for Py<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl<T> Py<T> {
    pub fn of(o: Obj) -> Self { Py(o, PhantomData) }
    pub fn bind<'a, 'py>(&'a self, _py: Python<'py>) -> &'a Bound<'py, T> { unsafe { &*(self as *const Py<T> as *const Bound<'py, T>) } }
    pub fn call_method0(&self, py: Python<'_>, n: &str) -> PyResult<PyObject> { let _ = py; match hooks().method { Some(h) => h(&self.0, n, &[]).map(Py::of), None => Err(PyErr::k(Kind::Attribute)) } }
    pub fn into_bound<'py>(self, _py: Python<'py>) -> Bound<'py, T> { Bound(self.0, PhantomData) }
    pub fn into_any(self) -> PyObject { Py(self.0, PhantomData) }
    pub fn clone_ref(&self, _py: Python<'_>) -> Self { self.clone() }
    pub fn as_ptr(&self) -> *mut ffi::PyObject { Rc::as_ptr(&self.0) as *mut Inner }
    pub fn is_none(&self, _py: Python<'_>) -> bool { matches!(self.0.v, Val::None) }
    pub fn extract<'a, 'py: 'a, D: FromPyObject<'py>>(&'a self, _py: Python<'py>) -> PyResult<D> { D::extract_bound(&Bound::of(self.0.clone())) }
}
impl<T: PyClass> Py<T> {
    pub fn new(_py: Python<'_>, v: T) -> PyResult<Py<T>> { Ok(Py(native(v), PhantomData)) }
    pub fn borrow<'py>(&self, _py: Python<'py>) -> PyRef<'py, T> { Bound::<T>::of(self.0.clone()).try_borrow().expect("Already mutably borrowed") }
    pub fn borrow_mut<'py>(&self, _py: Python<'py>) -> PyRefMut<'py, T> { Bound::<T>::of(self.0.clone()).try_borrow_mut().expect("Already borrowed") }
}
impl<'py, T: PyClass> From<PyRef<'py, T>> for Py<T> { fn from(r: PyRef<'py, T>) -> Py<T> { Py::of(r.o.clone()) } }
impl<'py, T> Deref for Bound<'py, T> where T: DerefToPyAny { type Target = Bound<'py, PyAny>; fn deref(&self) -> &Bound<'py, PyAny> { unsafe { &*(self as *const Self as *const Bound<'py, PyAny>) } } }
impl<'py, T> AsRef<Bound<'py, PyAny>> for Bound<'py, T> { fn as_ref(&self) -> &Bound<'py, PyAny> { unsafe { &*(self as *const Self as *const Bound<'py, PyAny>) } } }
impl<'py, T> Bound<'py, T> {
    pub fn of(o: Obj) -> Self { Bound(o, PhantomData) }
    pub fn py(&self) -> Python<'py> { Python(PhantomData) }
    pub fn into_any(self) -> Bound<'py, PyAny> { Bound(self.0, PhantomData) }
    pub fn as_any(&self) -> &Bound<'py, PyAny> { self.as_ref() }
    pub fn unbind(self) -> Py<T> { Py(self.0, PhantomData) }
    pub fn to_owned(&self) -> Self { self.clone() }
    pub fn as_ptr(&self) -> *mut ffi::PyObject { Rc::as_ptr(&self.0) as *mut Inner }
}
impl<'py, T: PyClass> Bound<'py, T> {
    pub fn new(_py: Python<'py>, v: T) -> PyResult<Self> { Ok(Bound::of(native(v))) }
    pub fn try_borrow(&self) -> PyResult<PyRef<'py, T>> { let c = cell::<T>(&self.0).ok_or(PyErr::k(Kind::Type))?; if c.flag.get() < 0 { return Err(PyErr::k(Kind::Runtime)); } c.flag.set(c.flag.get() + 1); Ok(PyRef { o: self.0.clone(), p: PhantomData }) }
    pub fn try_borrow_mut(&self) -> PyResult<PyRefMut<'py, T>> { let c = cell::<T>(&self.0).ok_or(PyErr::k(Kind::Type))?; if c.flag.get() != 0 { return Err(PyErr::k(Kind::Runtime)); } c.flag.set(-1); Ok(PyRefMut { o: self.0.clone(), p: PhantomData }) }
    pub fn borrow(&self) -> PyRef<'py, T> { self.try_borrow().expect("Already mutably borrowed") }
    pub fn borrow_mut(&self) -> PyRefMut<'py, T> { self.try_borrow_mut().expect("Already borrowed") }
}
pub struct PyRef<'py, T: PyClass> { o: Obj, p: PhantomData<(&'py (), T)> }
impl<'py, T: PyClass> Deref for PyRef<'py, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*cell::<T>(&self.o).unwrap().v.get() } } }
impl<'py, T: PyClass> Drop for PyRef<'py, T> { fn drop(&mut self) { if let Val::Native(n) = &self.o.v { let f = n.flag(); f.set(f.get() - 1); } } }
impl<'py, T: PyClass> PyRef<'py, T> { pub fn as_ptr(&self) -> *mut ffi::PyObject { Rc::as_ptr(&self.o) as *mut Inner } pub fn py(&self) -> Python<'py> { Python(PhantomData) } }
pub struct PyRefMut<'py, T: PyClass> { o: Obj, p: PhantomData<(&'py (), T)> }
impl<'py, T: PyClass> Deref for PyRefMut<'py, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*cell::<T>(&self.o).unwrap().v.get() } } }
impl<'py, T: PyClass> DerefMut for PyRefMut<'py, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *cell::<T>(&self.o).unwrap().v.get() } } }
impl<'py, T: PyClass> Drop for PyRefMut<'py, T> { fn drop(&mut self) { if let Val::Native(n) = &self.o.v { n.flag().set(0); } } }
impl<'py, T: PyClass> PyRefMut<'py, T> { pub fn as_ptr(&self) -> *mut ffi::PyObject { Rc::as_ptr(&self.o) as *mut Inner } pub fn py(&self) -> Python<'py> { Python(PhantomData) } }

// ---------------------------------------------------------------- extraction
pub trait FromPyObject<'py>: Sized { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<Self>; }
fn terr<T>() -> PyResult<T> { Err(PyErr::k(Kind::Type)) }
macro_rules! ints { ($($t:ty),*) => { $(impl<'py> FromPyObject<'py> for $t { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<$t> { match &o.0.v {
    Val::Int(i) => { let r = *i as $t; if (r as i128) == (*i as i128) { Ok(r) } else { Err(PyErr::k(Kind::Overflow)) } }
    Val::UInt(i) => { let r = *i as $t; if (r as i128) == (*i as i128) { Ok(r) } else { Err(PyErr::k(Kind::Overflow)) } }
    Val::Bool(b) => Ok(*b as $t), _ => terr() } } })* } }
ints!(i8, i16, i32, u8, u16, u32);
impl<'py> FromPyObject<'py> for i64 { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<i64> { match &o.0.v { Val::Int(i) => Ok(*i), Val::UInt(_) => Err(PyErr::k(Kind::Overflow)), Val::Bool(b) => Ok(*b as i64), _ => terr() } } }
impl<'py> FromPyObject<'py> for isize { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<isize> { i64::extract_bound(o).map(|x| x as isize) } }
impl<'py> FromPyObject<'py> for u64 { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<u64> { match &o.0.v { Val::Int(i) => if *i >= 0 { Ok(*i as u64) } else { Err(PyErr::k(Kind::Overflow)) }, Val::UInt(u) => Ok(*u), Val::Bool(b) => Ok(*b as u64), _ => terr() } } }
impl<'py> FromPyObject<'py> for usize { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<usize> { u64::extract_bound(o).map(|x| x as usize) } }
impl<'py> FromPyObject<'py> for i128 { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<i128> { match &o.0.v { Val::Int(i) => Ok(*i as i128), Val::UInt(u) => Ok(*u as i128), Val::Bool(b) => Ok(*b as i128), _ => terr() } } }
impl<'py> FromPyObject<'py> for f64 { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<f64> { match &o.0.v { Val::Float(f) => Ok(*f), Val::Int(i) => Ok(*i as f64), Val::UInt(i) => Ok(*i as f64), Val::Bool(b) => Ok(*b as u8 as f64), Val::Native(_) => match hooks().float { Some(h) => h(&o.0), None => terr() }, _ => terr() } } }
impl<'py> FromPyObject<'py> for f32 { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<f32> { f64::extract_bound(o).map(|x| x as f32) } }
impl<'py> FromPyObject<'py> for bool { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<bool> { if let Val::Bool(b) = &o.0.v { Ok(*b) } else { terr() } } }
impl<'py> FromPyObject<'py> for String { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<String> { if let Val::Str(b) = &o.0.v { Ok(b.clone()) } else { terr() } } }
impl<'py, T: FromPyObject<'py>> FromPyObject<'py> for Option<T> { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<Self> { if o.is_none() { Ok(None) } else { T::extract_bound(o).map(Some) } } }
fn seq(o: &Obj) -> PyResult<Vec<Obj>> { match &o.v { Val::Tuple(t) => Ok(t.clone()), Val::List(l) => Ok(l.borrow().clone()), Val::Bytes(b) => Ok(b.iter().map(|x| mk(Val::Int(*x as i64))).collect()), _ => terr() } }
impl<'py, T: FromPyObject<'py>> FromPyObject<'py> for Vec<T> { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<Self> { let s = seq(&o.0)?; let mut r = Vec::with_capacity(s.len()); for x in s { r.push(T::extract_bound(&Bound::of(x))?); } Ok(r) } }
impl<'py, T: FromPyObject<'py>, const N: usize> FromPyObject<'py> for [T; N] { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<Self> { let v: Vec<T> = Vec::extract_bound(o)?; v.try_into().map_err(|_| PyErr::k(Kind::Value)) } }
impl<'py, T: PyClass> FromPyObject<'py> for PyRef<'py, T> { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<Self> { Bound::<T>::of(o.0.clone()).try_borrow() } }
impl<'py, T: PyClass> FromPyObject<'py> for PyRefMut<'py, T> { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<Self> { Bound::<T>::of(o.0.clone()).try_borrow_mut() } }
impl<'py, T: PyTypeInfo> FromPyObject<'py> for Bound<'py, T> { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<Self> { if T::is(&o.0) { Ok(Bound::of(o.0.clone())) } else { terr() } } }
impl<'py, T: PyTypeInfo> FromPyObject<'py> for Py<T> { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<Self> { if T::is(&o.0) { Ok(Py::of(o.0.clone())) } else { terr() } } }
macro_rules! tup { ($n:expr; $($t:ident $i:tt),*) => {
    impl<'py, $($t: FromPyObject<'py>),*> FromPyObject<'py> for ($($t,)*) { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<Self> { if let Val::Tuple(v) = &o.0.v { if v.len() != $n { return Err(PyErr::k(Kind::Value)); } Ok(($($t::extract_bound(&Bound::of(v[$i].clone()))?,)*)) } else { terr() } } }
    impl<'py, $($t: IntoPyObject<'py>),*> IntoPyObject<'py> for ($($t,)*) { type Target = PyTuple; type Output = Bound<'py, PyTuple>; type Error = PyErr; fn into_pyobject(self, py: Python<'py>) -> PyResult<Bound<'py, PyTuple>> { Ok(Bound::of(mk(Val::Tuple(vec![$(tobj(self.$i)?),*])))) } }
    impl<'py, $($t: IntoPyObject<'py>),*> IntoArgs<'py> for ($($t,)*) { fn into_args(self) -> PyResult<Vec<Obj>> { Ok(vec![$(tobj(self.$i)?),*]) } }
} }
tup!(1; A 0); tup!(2; A 0, B 1); tup!(3; A 0, B 1, C 2); tup!(4; A 0, B 1, C 2, D 3); tup!(5; A 0, B 1, C 2, D 3, E 4); tup!(6; A 0, B 1, C 2, D 3, E 4, F 5);

// ---------------------------------------------------------------- conversion to Python
pub trait BoundLike { fn obj(self) -> Obj; }
impl<'py, T> BoundLike for Bound<'py, T> { fn obj(self) -> Obj { self.0 } }
pub trait IntoPyObject<'py>: Sized { type Target; type Output: BoundLike; type Error: Into<PyErr>; fn into_pyobject(self, py: Python<'py>) -> Result<Self::Output, Self::Error>; }
pub fn tobj<'py, U: IntoPyObject<'py>>(u: U) -> PyResult<Obj> { match u.into_pyobject(Python(PhantomData)) { Ok(o) => Ok(o.obj()), Err(e) => Err(e.into()) } }
macro_rules! into { ($($t:ty => $p:ty, |$v:ident| $e:expr);* $(;)?) => { $(impl<'py> IntoPyObject<'py> for $t { type Target = $p; type Output = Bound<'py, $p>; type Error = PyErr; fn into_pyobject(self, _py: Python<'py>) -> PyResult<Bound<'py, $p>> { let $v = self; Ok(Bound::of(mk($e))) } })* } }
into! { i8 => PyInt, |v| Val::Int(v as i64); i16 => PyInt, |v| Val::Int(v as i64); i32 => PyInt, |v| Val::Int(v as i64); i64 => PyInt, |v| Val::Int(v); isize => PyInt, |v| Val::Int(v as i64);
  u8 => PyInt, |v| Val::Int(v as i64); u16 => PyInt, |v| Val::Int(v as i64); u32 => PyInt, |v| Val::Int(v as i64);
  u64 => PyInt, |v| if v <= i64::MAX as u64 { Val::Int(v as i64) } else { Val::UInt(v) }; usize => PyInt, |v| if v <= i64::MAX as usize { Val::Int(v as i64) } else { Val::UInt(v as u64) };
  i128 => PyInt, |v| if v >= i64::MIN as i128 && v <= i64::MAX as i128 { Val::Int(v as i64) } else { Val::UInt(v as u64) }; u128 => PyInt, |v| if v <= i64::MAX as u128 { Val::Int(v as i64) } else { Val::UInt(v as u64) };
  f64 => PyFloat, |v| Val::Float(v); f32 => PyFloat, |v| Val::Float(v as f64); bool => PyBool, |v| Val::Bool(v); String => PyString, |v| Val::Str(v); &str => PyString, |v| Val::Str(v.to_string()); &String => PyString, |v| Val::Str(v.clone()); () => PyNone, |v| Val::None; &i64 => PyInt, |v| Val::Int(*v); &f64 => PyFloat, |v| Val::Float(*v); char => PyString, |v| Val::Str(v.to_string()) }
impl<'py> IntoPyObject<'py> for &usize { type Target = PyInt; type Output = Bound<'py, PyInt>; type Error = PyErr; fn into_pyobject(self, py: Python<'py>) -> PyResult<Bound<'py, PyInt>> { (*self).into_pyobject(py) } }
impl<'py> IntoPyObject<'py> for &isize { type Target = PyInt; type Output = Bound<'py, PyInt>; type Error = PyErr; fn into_pyobject(self, py: Python<'py>) -> PyResult<Bound<'py, PyInt>> { (*self).into_pyobject(py) } }
impl<'py> IntoPyObject<'py> for &bool { type Target = PyBool; type Output = Bound<'py, PyBool>; type Error = PyErr; fn into_pyobject(self, py: Python<'py>) -> PyResult<Bound<'py, PyBool>> { (*self).into_pyobject(py) } }
impl<'py, U: IntoPyObject<'py>> IntoPyObject<'py> for Option<U> { type Target = PyAny; type Output = Bound<'py, PyAny>; type Error = PyErr; fn into_pyobject(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> { match self { None => Ok(Bound::of(none())), Some(x) => Ok(Bound::of(tobj(x)?)) } } }
impl<'py, U: IntoPyObject<'py>> IntoPyObject<'py> for Vec<U> { type Target = PyList; type Output = Bound<'py, PyList>; type Error = PyErr; fn into_pyobject(self, py: Python<'py>) -> PyResult<Bound<'py, PyList>> { let mut v = Vec::with_capacity(self.len()); for x in self { v.push(tobj(x)?); } Ok(Bound::of(mk(Val::List(RefCell::new(v))))) } }
impl<'py, U: IntoPyObject<'py>, const N: usize> IntoPyObject<'py> for [U; N] { type Target = PyList; type Output = Bound<'py, PyList>; type Error = PyErr; fn into_pyobject(self, py: Python<'py>) -> PyResult<Bound<'py, PyList>> { let mut v = Vec::with_capacity(N); for x in self { v.push(tobj(x)?); } Ok(Bound::of(mk(Val::List(RefCell::new(v))))) } }
impl<'py, U> IntoPyObject<'py> for Bound<'py, U> { type Target = U; type Output = Bound<'py, U>; type Error = PyErr; fn into_pyobject(self, _py: Python<'py>) -> PyResult<Bound<'py, U>> { Ok(self) } }
impl<'a, 'py, U> IntoPyObject<'py> for &'a Bound<'py, U> { type Target = U; type Output = Bound<'py, U>; type Error = PyErr; fn into_pyobject(self, _py: Python<'py>) -> PyResult<Bound<'py, U>> { Ok(self.clone()) } }
impl<'py, U> IntoPyObject<'py> for Py<U> { type Target = U; type Output = Bound<'py, U>; type Error = PyErr; fn into_pyobject(self, _py: Python<'py>) -> PyResult<Bound<'py, U>> { Ok(Bound::of(self.0)) } }
impl<'a, 'py, U> IntoPyObject<'py> for &'a Py<U> { type Target = U; type Output = Bound<'py, U>; type Error = PyErr; fn into_pyobject(self, _py: Python<'py>) -> PyResult<Bound<'py, U>> { Ok(Bound::of(self.0.clone())) } }
impl<'py, U: PyClass> IntoPyObject<'py> for PyRef<'py, U> { type Target = U; type Output = Bound<'py, U>; type Error = PyErr; fn into_pyobject(self, _py: Python<'py>) -> PyResult<Bound<'py, U>> { Ok(Bound::of(self.o.clone())) } }
impl<'a, 'py, U: PyClass> IntoPyObject<'py> for &'a PyRef<'py, U> { type Target = U; type Output = Bound<'py, U>; type Error = PyErr; fn into_pyobject(self, _py: Python<'py>) -> PyResult<Bound<'py, U>> { Ok(Bound::of(self.o.clone())) } }
impl<'py, U: PyClass> IntoPyObject<'py> for PyRefMut<'py, U> { type Target = U; type Output = Bound<'py, U>; type Error = PyErr; fn into_pyobject(self, _py: Python<'py>) -> PyResult<Bound<'py, U>> { Ok(Bound::of(self.o.clone())) } }
impl<'py, U: IntoPyObject<'py>> IntoPyObject<'py> for PyResult<U> { type Target = PyAny; type Output = Bound<'py, PyAny>; type Error = PyErr; fn into_pyobject(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> { Ok(Bound::of(tobj(self?)?)) } }
pub fn ret<'py, U: IntoPyObject<'py>>(u: U) -> PyResult<Obj> { Ok(tobj(u)?) }

// ---------------------------------------------------------------- calls
pub trait IntoArgs<'py> { fn into_args(self) -> PyResult<Vec<Obj>>; }
impl<'py> IntoArgs<'py> for () { fn into_args(self) -> PyResult<Vec<Obj>> { Ok(vec![]) } }
impl<'a, 'py> IntoArgs<'py> for &'a Bound<'py, PyTuple> { fn into_args(self) -> PyResult<Vec<Obj>> { seq(&self.0) } }
impl<'a, 'b, 'py> IntoArgs<'py> for &'a &'b Bound<'py, PyTuple> { fn into_args(self) -> PyResult<Vec<Obj>> { seq(&self.0) } }
impl<'py> IntoArgs<'py> for Bound<'py, PyTuple> { fn into_args(self) -> PyResult<Vec<Obj>> { seq(&self.0) } }
pub struct Args { pub a: Vec<Obj>, pub kw: Vec<(&'static str, Obj)>, taken: RefCell<Vec<&'static str>> }
impl Args {
    pub fn new(a: Vec<Obj>, kw: Vec<(&'static str, Obj)>) -> Args { let kw = kw.into_iter().map(|(k, v)| (k.strip_prefix("r#").unwrap_or(k), v)).collect(); Args { a, kw, taken: RefCell::new(vec![]) } }
    pub fn get<'py>(&self, i: usize, n: &'static str) -> Option<Bound<'py, PyAny>> { if i < self.a.len() { Some(Bound::of(self.a[i].clone())) } else { self.kw(n) } }
    pub fn kw<'py>(&self, n: &'static str) -> Option<Bound<'py, PyAny>> { self.taken.borrow_mut().push(n); for (k, v) in &self.kw { if *k == n { return Some(Bound::of(v.clone())); } } None }
    /// more positional arguments than parameters, or a keyword nothing took: a TypeError in CPython
    pub fn leftover(&self, n: usize, va: bool, vk: bool) -> bool { (!va && self.a.len() > n) || (!vk && self.kw.iter().any(|(k, _)| !self.taken.borrow().contains(k))) }
    pub fn rest<'py>(&self, i: usize) -> Bound<'py, PyAny> { Bound::of(mk(Val::Tuple(self.a.iter().skip(i).cloned().collect()))) }
    pub fn kwrest<'py>(&self) -> Option<Bound<'py, PyDict>> { let t = self.taken.borrow(); let v: Vec<_> = self.kw.iter().filter(|(k, _)| !t.contains(k)).map(|(k, v)| (mk(Val::Str(k.to_string())), v.clone())).collect(); if v.is_empty() { None } else { Some(Bound::of(mk(Val::Dict(RefCell::new(v))))) } }
}
pub trait SomeWrap<T> { fn wrap(self) -> Option<T>; }
impl<T> SomeWrap<T> for T { fn wrap(self) -> Option<T> { Some(self) } }
impl<T> SomeWrap<T> for Option<T> { fn wrap(self) -> Option<T> { self } }
/// Argument extraction (superset of FromPyObject: also references into the argument).
pub trait FromArg<'a, 'py>: Sized { fn from_arg(b: &'a Bound<'py, PyAny>) -> PyResult<Self>; }
impl<'a, 'py, T: PyTypeInfo> FromArg<'a, 'py> for &'a Bound<'py, T> { fn from_arg(b: &'a Bound<'py, PyAny>) -> PyResult<Self> { if T::is(&b.0) { Ok(unsafe { &*(b as *const Bound<'py, PyAny> as *const Bound<'py, T>) }) } else { terr() } } }
impl<'a, 'py, T: PyClass> FromArg<'a, 'py> for &'a T { fn from_arg(b: &'a Bound<'py, PyAny>) -> PyResult<Self> { let c = cell::<T>(&b.0).ok_or(PyErr::k(Kind::Type))?; if c.flag.get() < 0 { return Err(PyErr::k(Kind::Runtime)); } Ok(unsafe { &*c.v.get() }) } }
impl<'a, 'py, T: PyClass> FromArg<'a, 'py> for &'a mut T { fn from_arg(b: &'a Bound<'py, PyAny>) -> PyResult<Self> { let c = cell::<T>(&b.0).ok_or(PyErr::k(Kind::Type))?; if c.flag.get() != 0 { return Err(PyErr::k(Kind::Runtime)); } Ok(unsafe { &mut *c.v.get() }) } }
impl<'a, 'py> FromArg<'a, 'py> for &'a str { fn from_arg(b: &'a Bound<'py, PyAny>) -> PyResult<Self> { if let Val::Str(s) = &b.0.v { Ok(s.as_str()) } else { terr() } } }
impl<'a, 'py> FromArg<'a, 'py> for &'a [u8] { fn from_arg(b: &'a Bound<'py, PyAny>) -> PyResult<Self> { if let Val::Bytes(s) = &b.0.v { Ok(s.as_slice()) } else { terr() } } }
impl<'a, 'py, T: FromArg<'a, 'py>> FromArg<'a, 'py> for Option<T> { fn from_arg(b: &'a Bound<'py, PyAny>) -> PyResult<Self> { if b.is_none() { Ok(None) } else { T::from_arg(b).map(Some) } } }
macro_rules! fa { ($($t:ty),*) => { $(impl<'a, 'py> FromArg<'a, 'py> for $t { fn from_arg(b: &'a Bound<'py, PyAny>) -> PyResult<Self> { <$t as FromPyObject<'py>>::extract_bound(b) } })* } }
fa!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize, i128, u128, f64, f32, bool, String);
impl<'a, 'py, T: FromPyObject<'py>> FromArg<'a, 'py> for Vec<T> { fn from_arg(b: &'a Bound<'py, PyAny>) -> PyResult<Self> { Vec::extract_bound(b) } }
impl<'a, 'py, T: PyClass> FromArg<'a, 'py> for PyRef<'py, T> { fn from_arg(b: &'a Bound<'py, PyAny>) -> PyResult<Self> { PyRef::extract_bound(b) } }
impl<'a, 'py, T: PyClass> FromArg<'a, 'py> for PyRefMut<'py, T> { fn from_arg(b: &'a Bound<'py, PyAny>) -> PyResult<Self> { PyRefMut::extract_bound(b) } }
impl<'a, 'py, T: PyTypeInfo> FromArg<'a, 'py> for Bound<'py, T> { fn from_arg(b: &'a Bound<'py, PyAny>) -> PyResult<Self> { Bound::extract_bound(b) } }
impl<'a, 'py, T: PyTypeInfo> FromArg<'a, 'py> for Py<T> { fn from_arg(b: &'a Bound<'py, PyAny>) -> PyResult<Self> { Py::extract_bound(b) } }
impl<'a, 'py, A: FromPyObject<'py>, B: FromPyObject<'py>> FromArg<'a, 'py> for (A, B) { fn from_arg(b: &'a Bound<'py, PyAny>) -> PyResult<Self> { <(A, B)>::extract_bound(b) } }
impl<'a, 'py, A: FromPyObject<'py>, B: FromPyObject<'py>, C: FromPyObject<'py>> FromArg<'a, 'py> for (A, B, C) { fn from_arg(b: &'a Bound<'py, PyAny>) -> PyResult<Self> { <(A, B, C)>::extract_bound(b) } }

fn norm_get(v: &[Obj], k: &Obj) -> PyResult<Obj> { if let Val::Int(i) = k.v { let n = v.len() as i64; let j = if i < 0 { i + n } else { i }; if j < 0 || j >= n { Err(PyErr::k(Kind::Index)) } else { Ok(v[j as usize].clone()) } } else { terr() } }
fn key_eq(a: &Obj, b: &Obj) -> bool { match (&a.v, &b.v) { (Val::Str(x), Val::Str(y)) => x == y, (Val::Int(x), Val::Int(y)) => x == y, (Val::None, Val::None) => true, (Val::Bool(x), Val::Bool(y)) => x == y, _ => false } }
pub fn type_name(o: &Obj) -> &'static str { match &o.v { Val::None => "NoneType", Val::Ellipsis => "ellipsis", Val::NotImplemented => "NotImplementedType", Val::Bool(_) => "bool", Val::Int(_) | Val::UInt(_) => "int", Val::Float(_) => "float", Val::Complex(..) => "complex", Val::Str(_) => "str", Val::Bytes(_) => "bytes", Val::Tuple(_) => "tuple", Val::List(_) => "list", Val::Dict(_) => "dict", Val::Slice(..) => "slice", Val::Native(n) => n.name(), Val::Func(_) => "function", Val::Module(_) => "module", Val::Type(_) => "type" } }
impl<'py> Bound<'py, PyAny> {
    pub fn extract<D: FromPyObject<'py>>(&self) -> PyResult<D> { D::extract_bound(self) }
    pub fn downcast<T: PyTypeInfo>(&self) -> PyResult<&Bound<'py, T>> { if T::is(&self.0) { Ok(unsafe { &*(self as *const Self as *const Bound<'py, T>) }) } else { terr() } }
    pub fn downcast_into<T: PyTypeInfo>(self) -> PyResult<Bound<'py, T>> { if T::is(&self.0) { Ok(Bound::of(self.0)) } else { terr() } }
    pub fn is_instance_of<T: PyTypeInfo>(&self) -> bool { T::is(&self.0) }
    pub fn is_exact_instance_of<T: PyTypeInfo>(&self) -> bool { T::TNAME == type_name(&self.0) }
    pub fn is_none(&self) -> bool { matches!(self.0.v, Val::None) }
    pub fn is_ellipsis(&self) -> bool { matches!(self.0.v, Val::Ellipsis) }
    pub fn is_callable(&self) -> bool { matches!(self.0.v, Val::Func(_)) }
    pub fn is<U>(&self, o: &Bound<'py, U>) -> bool { Rc::ptr_eq(&self.0, &o.0) }
    pub fn is_truthy(&self) -> PyResult<bool> { Ok(match &self.0.v { Val::None => false, Val::Bool(b) => *b, Val::Int(i) => *i != 0, Val::UInt(_) => true, Val::Float(f) => *f != 0.0, Val::Complex(a, b) => *a != 0.0 || *b != 0.0, Val::Str(s) => !s.is_empty(), Val::Bytes(s) => !s.is_empty(), Val::Tuple(s) => !s.is_empty(), Val::List(s) => !s.borrow().is_empty(), Val::Dict(s) => !s.borrow().is_empty(), _ => true }) }
    pub fn get_type(&self) -> Bound<'py, PyType> { Bound::of(mk(Val::Type(type_name(&self.0)))) }
    pub fn len(&self) -> PyResult<usize> { match &self.0.v { Val::Tuple(v) => Ok(v.len()), Val::List(v) => Ok(v.borrow().len()), Val::Str(v) => Ok(v.chars().count()), Val::Bytes(v) => Ok(v.len()), Val::Dict(v) => Ok(v.borrow().len()), _ => terr() } }
    pub fn is_empty(&self) -> PyResult<bool> { self.len().map(|n| n == 0) }
    pub fn get_item<K: IntoPyObject<'py>>(&self, k: K) -> PyResult<Bound<'py, PyAny>> { let k = tobj(k)?; match &self.0.v { Val::Tuple(v) => norm_get(v, &k).map(Bound::of), Val::List(v) => norm_get(&v.borrow(), &k).map(Bound::of), Val::Dict(d) => { for (a, b) in d.borrow().iter() { if key_eq(a, &k) { return Ok(Bound::of(b.clone())); } } Err(PyErr::k(Kind::Key)) } _ => terr() } }
    pub fn set_item<K: IntoPyObject<'py>, V: IntoPyObject<'py>>(&self, k: K, v: V) -> PyResult<()> { let k = tobj(k)?; let v = tobj(v)?; match &self.0.v { Val::Dict(d) => { let mut d = d.borrow_mut(); for e in d.iter_mut() { if key_eq(&e.0, &k) { e.1 = v; return Ok(()); } } d.push((k, v)); Ok(()) } Val::List(l) => { if let Val::Int(i) = k.v { let mut l = l.borrow_mut(); let n = l.len() as i64; let j = if i < 0 { i + n } else { i }; if j < 0 || j >= n { return Err(PyErr::k(Kind::Index)); } l[j as usize] = v; Ok(()) } else { terr() } } _ => terr() } }
    pub fn contains<K: IntoPyObject<'py>>(&self, k: K) -> PyResult<bool> { let k = tobj(k)?; match &self.0.v { Val::Dict(d) => Ok(d.borrow().iter().any(|(a, _)| key_eq(a, &k))), Val::List(d) => Ok(d.borrow().iter().any(|a| key_eq(a, &k))), Val::Tuple(d) => Ok(d.iter().any(|a| key_eq(a, &k))), _ => terr() } }
    pub fn try_iter(&self) -> PyResult<AnyIter<'py>> { match &self.0.v { Val::Tuple(_) | Val::List(_) | Val::Bytes(_) => Ok(AnyIter { v: seq(&self.0)?.into_iter(), p: PhantomData }), Val::Str(s) => Ok(AnyIter { v: s.chars().map(|c| mk(Val::Str(c.to_string()))).collect::<Vec<_>>().into_iter(), p: PhantomData }), Val::Dict(d) => Ok(AnyIter { v: d.borrow().iter().map(|e| e.0.clone()).collect::<Vec<_>>().into_iter(), p: PhantomData }), Val::Native(_) => match hooks().iter { Some(h) => Ok(AnyIter { v: h(&self.0)?.into_iter(), p: PhantomData }), None => terr() }, _ => terr() } }
    pub fn iter(&self) -> PyResult<AnyIter<'py>> { self.try_iter() }
    pub fn getattr<N: AttrName>(&self, n: N) -> PyResult<Bound<'py, PyAny>> { let n = n.nm(); let n = n.as_str(); match &self.0.v {
        Val::Slice(a, b, c) => match n { "start" => Ok(Bound::of(a.clone())), "stop" => Ok(Bound::of(b.clone())), "step" => Ok(Bound::of(c.clone())), _ => Err(PyErr::k(Kind::Attribute)) },
        Val::Int(_) | Val::UInt(_) | Val::Bool(_) => match n { "real" => Ok(Bound::of(self.0.clone())), "imag" => Ok(Bound::of(mk(Val::Int(0)))), _ => Err(PyErr::k(Kind::Attribute)) },
        Val::Float(f) => match n { "real" => Ok(Bound::of(self.0.clone())), "imag" => Ok(Bound::of(mk(Val::Float(0.0)))), _ => Err(PyErr::k(Kind::Attribute)) },
        Val::Complex(re, im) => match n { "real" => Ok(Bound::of(mk(Val::Float(*re)))), "imag" => Ok(Bound::of(mk(Val::Float(*im)))), _ => Err(PyErr::k(Kind::Attribute)) },
        Val::Type(s) => match n { "__name__" => Ok(Bound::of(mk(Val::Str(s.to_string())))), _ => Err(PyErr::k(Kind::Attribute)) },
        Val::Native(_) | Val::Module(_) => match hooks().getattr { Some(h) => h(&self.0, n).map(Bound::of), None => Err(PyErr::k(Kind::Attribute)) },
        _ => Err(PyErr::k(Kind::Attribute)) } }
    pub fn hasattr<N: AttrName>(&self, n: N) -> PyResult<bool> { Ok(self.getattr(n).is_ok()) }
    pub fn setattr<N: AttrName, V: IntoPyObject<'py>>(&self, _n: N, _v: V) -> PyResult<()> { Err(PyErr::k(Kind::Attribute)) }
    pub fn call<A: IntoArgs<'py>>(&self, a: A, _kw: Option<&Bound<'py, PyDict>>) -> PyResult<Bound<'py, PyAny>> { let a = a.into_args()?; if let Val::Func(f) = &self.0.v { f(&a).map(Bound::of) } else { terr() } }
    pub fn call0(&self) -> PyResult<Bound<'py, PyAny>> { self.call((), None) }
    pub fn call1<A: IntoArgs<'py>>(&self, a: A) -> PyResult<Bound<'py, PyAny>> { self.call(a, None) }
    pub fn call_method0(&self, n: &str) -> PyResult<Bound<'py, PyAny>> { match hooks().method { Some(h) => h(&self.0, n, &[]).map(Bound::of), None => Err(PyErr::k(Kind::Attribute)) } }
    pub fn call_method1<A: IntoArgs<'py>>(&self, n: &str, a: A) -> PyResult<Bound<'py, PyAny>> { let a = a.into_args()?; match hooks().method { Some(h) => h(&self.0, n, &a).map(Bound::of), None => Err(PyErr::k(Kind::Attribute)) } }
    pub fn call_method<A: IntoArgs<'py>>(&self, n: &str, a: A, _kw: Option<&Bound<'py, PyDict>>) -> PyResult<Bound<'py, PyAny>> { self.call_method1(n, a) }
    pub fn str(&self) -> PyResult<Bound<'py, PyString>> { match &self.0.v { Val::Str(s) => Ok(Bound::of(self.0.clone())), Val::Int(i) => Ok(Bound::of(mk(Val::Str(i.to_string())))), _ => Ok(Bound::of(mk(Val::Str(String::from("<object>"))))) } }
    pub fn repr(&self) -> PyResult<Bound<'py, PyString>> { self.str() }
}
pub trait AttrName { fn nm(self) -> String; }
impl AttrName for &str { fn nm(self) -> String { self.to_string() } } impl AttrName for String { fn nm(self) -> String { self } } impl AttrName for &String { fn nm(self) -> String { self.clone() } }
pub struct AnyIter<'py> { v: std::vec::IntoIter<Obj>, p: PhantomData<&'py ()> }
impl<'py> Iterator for AnyIter<'py> { type Item = PyResult<Bound<'py, PyAny>>; fn next(&mut self) -> Option<Self::Item> { self.v.next().map(|o| Ok(Bound::of(o))) } fn size_hint(&self) -> (usize, Option<usize>) { self.v.size_hint() } }
pub struct SeqIter<'py> { v: std::vec::IntoIter<Obj>, p: PhantomData<&'py ()> }
impl<'py> Iterator for SeqIter<'py> { type Item = Bound<'py, PyAny>; fn next(&mut self) -> Option<Self::Item> { self.v.next().map(Bound::of) } fn size_hint(&self) -> (usize, Option<usize>) { self.v.size_hint() } }
impl<'py> ExactSizeIterator for SeqIter<'py> {} impl<'py> DoubleEndedIterator for SeqIter<'py> { fn next_back(&mut self) -> Option<Self::Item> { self.v.next_back().map(Bound::of) } }
macro_rules! seqty { ($($t:ident),*) => { $(
    impl<'py> Bound<'py, $t> {
        pub fn iter(&self) -> SeqIter<'py> { SeqIter { v: seq(&self.0).unwrap().into_iter(), p: PhantomData } }
        pub fn len(&self) -> usize { match &self.0.v { Val::Tuple(v) => v.len(), Val::List(v) => v.borrow().len(), _ => 0 } }
        pub fn is_empty(&self) -> bool { self.len() == 0 }
        pub fn get_item(&self, i: usize) -> PyResult<Bound<'py, PyAny>> { match seq(&self.0)?.get(i) { Some(o) => Ok(Bound::of(o.clone())), None => Err(PyErr::k(Kind::Index)) } }
    }
    impl<'py> IntoIterator for Bound<'py, $t> { type Item = Bound<'py, PyAny>; type IntoIter = SeqIter<'py>; fn into_iter(self) -> SeqIter<'py> { self.iter() } }
    impl<'a, 'py> IntoIterator for &'a Bound<'py, $t> { type Item = Bound<'py, PyAny>; type IntoIter = SeqIter<'py>; fn into_iter(self) -> SeqIter<'py> { self.iter() } }
)* } }
seqty!(PyTuple, PyList);
impl PyTuple { pub fn new<'py, U: IntoPyObject<'py>>(py: Python<'py>, it: impl IntoIterator<Item = U>) -> PyResult<Bound<'py, PyTuple>> { let mut v = vec![]; for x in it { v.push(tobj(x)?); } Ok(Bound::of(mk(Val::Tuple(v)))) } pub fn empty<'py>(_py: Python<'py>) -> Bound<'py, PyTuple> { Bound::of(mk(Val::Tuple(vec![]))) } }
impl PyList { pub fn new<'py, U: IntoPyObject<'py>>(py: Python<'py>, it: impl IntoIterator<Item = U>) -> PyResult<Bound<'py, PyList>> { let mut v = vec![]; for x in it { v.push(tobj(x)?); } Ok(Bound::of(mk(Val::List(RefCell::new(v))))) } pub fn empty<'py>(_py: Python<'py>) -> Bound<'py, PyList> { Bound::of(mk(Val::List(RefCell::new(vec![])))) } }
impl<'py> Bound<'py, PyList> { pub fn append<U: IntoPyObject<'py>>(&self, u: U) -> PyResult<()> { if let Val::List(l) = &self.0.v { l.borrow_mut().push(tobj(u)?); } Ok(()) } }
impl PyDict { pub fn new<'py>(_py: Python<'py>) -> Bound<'py, PyDict> { Bound::of(mk(Val::Dict(RefCell::new(vec![])))) } }
impl<'py> Bound<'py, PyDict> {
    pub fn iter(&self) -> std::vec::IntoIter<(Bound<'py, PyAny>, Bound<'py, PyAny>)> { if let Val::Dict(d) = &self.0.v { d.borrow().iter().map(|(a, b)| (Bound::of(a.clone()), Bound::of(b.clone()))).collect::<Vec<_>>().into_iter() } else { vec![].into_iter() } }
    pub fn get_item<K: IntoPyObject<'py>>(&self, k: K) -> PyResult<Option<Bound<'py, PyAny>>> { let k = tobj(k)?; if let Val::Dict(d) = &self.0.v { for (a, b) in d.borrow().iter() { if key_eq(a, &k) { return Ok(Some(Bound::of(b.clone()))); } } } Ok(None) }
    pub fn len(&self) -> usize { if let Val::Dict(d) = &self.0.v { d.borrow().len() } else { 0 } }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
}
impl<'py> IntoIterator for Bound<'py, PyDict> { type Item = (Bound<'py, PyAny>, Bound<'py, PyAny>); type IntoIter = std::vec::IntoIter<Self::Item>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl<'a, 'py> IntoIterator for &'a Bound<'py, PyDict> { type Item = (Bound<'py, PyAny>, Bound<'py, PyAny>); type IntoIter = std::vec::IntoIter<Self::Item>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl PyBytes { pub fn new<'py>(_py: Python<'py>, b: &[u8]) -> Bound<'py, PyBytes> { Bound::of(mk(Val::Bytes(b.to_vec()))) } }
impl<'py> Bound<'py, PyBytes> { pub fn as_bytes(&self) -> &[u8] { if let Val::Bytes(b) = &self.0.v { b } else { &[] } } }
impl PyString { pub fn new<'py>(_py: Python<'py>, s: &str) -> Bound<'py, PyString> { Bound::of(mk(Val::Str(s.to_string()))) } }
impl<'py> Bound<'py, PyString> { pub fn to_str(&self) -> PyResult<&str> { if let Val::Str(b) = &self.0.v { Ok(b) } else { terr() } } pub fn to_string_lossy(&self) -> std::borrow::Cow<'_, str> { std::borrow::Cow::Borrowed(self.to_str().unwrap()) } }
impl<'py> Bound<'py, PyType> { pub fn name(&self) -> PyResult<Bound<'py, PyString>> { if let Val::Type(s) = &self.0.v { Ok(Bound::of(mk(Val::Str(s.to_string())))) } else { terr() } } pub fn qualname(&self) -> PyResult<Bound<'py, PyString>> { self.name() } }
impl PyComplex { pub fn from_doubles<'py>(_py: Python<'py>, re: f64, im: f64) -> Bound<'py, PyComplex> { Bound::of(mk(Val::Complex(re, im))) } }
impl<'py> Bound<'py, PyComplex> { pub fn real(&self) -> f64 { if let Val::Complex(a, _) = self.0.v { a } else { 0.0 } } pub fn imag(&self) -> f64 { if let Val::Complex(_, b) = self.0.v { b } else { 0.0 } } }
impl<'py> PartialEq<str> for Bound<'py, PyString> { fn eq(&self, o: &str) -> bool { matches!(&self.0.v, Val::Str(s) if s == o) } }
impl<'py> PartialEq<&str> for Bound<'py, PyString> { fn eq(&self, o: &&str) -> bool { matches!(&self.0.v, Val::Str(s) if s == o) } }

pub struct PySliceIndices { pub start: isize, pub stop: isize, pub step: isize, pub slicelength: usize }
impl PySlice { pub fn new<'py>(_py: Python<'py>, a: isize, b: isize, c: isize) -> Bound<'py, PySlice> { Bound::of(mk(Val::Slice(mk(Val::Int(a as i64)), mk(Val::Int(b as i64)), mk(Val::Int(c as i64))))) } pub fn full<'py>(_py: Python<'py>) -> Bound<'py, PySlice> { Bound::of(mk(Val::Slice(none(), none(), none()))) } }
fn sl(o: &Obj) -> PyResult<Option<isize>> { match &o.v { Val::None => Ok(None), Val::Int(i) => Ok(Some(*i as isize)), Val::UInt(_) => Ok(Some(isize::MAX)), Val::Bool(b) => Ok(Some(*b as isize)), _ => terr() } }
/// CPython: PySlice_Unpack + PySlice_AdjustIndices
pub fn slice_indices(o: &Obj, length: isize) -> PyResult<PySliceIndices> {
    if let Val::Slice(a, b, c) = &o.v {
        let step = match sl(c)? { None => 1, Some(0) => return Err(PyErr::k(Kind::Value)), Some(s) => if s < -isize::MAX { -isize::MAX } else { s } };
        let mut start = match sl(a)? { None => if step < 0 { isize::MAX } else { 0 }, Some(s) => s };
        let mut stop = match sl(b)? { None => if step < 0 { isize::MIN } else { isize::MAX }, Some(s) => s };
        if start < 0 { start = start.wrapping_add(length); if start < 0 { start = if step < 0 { -1 } else { 0 }; } } else if start >= length { start = if step < 0 { length - 1 } else { length }; }
        if stop < 0 { stop = stop.wrapping_add(length); if stop < 0 { stop = if step < 0 { -1 } else { 0 }; } } else if stop >= length { stop = if step < 0 { length - 1 } else { length }; }
        let n = if step < 0 { if stop < start { ((start - stop - 1) / (-step) + 1) as usize } else { 0 } } else { if start < stop { ((stop - start - 1) / step + 1) as usize } else { 0 } };
        Ok(PySliceIndices { start, stop, step, slicelength: n })
    } else { terr() }
}
impl<'py> Bound<'py, PySlice> { pub fn indices(&self, length: isize) -> PyResult<PySliceIndices> { slice_indices(&self.0, length) } }

// ---------------------------------------------------------------- modules (registration is a no-op)
pub struct FnRef;
impl PyModule { pub fn new<'py>(_py: Python<'py>, _n: &str) -> PyResult<Bound<'py, PyModule>> { Ok(Bound::of(mk(Val::Module("m")))) } pub fn import<'py>(py: Python<'py>, n: &str) -> PyResult<Bound<'py, PyModule>> { py.import(n) } }
impl<'py> Bound<'py, PyModule> { pub fn add_function<F>(&self, _f: F) -> PyResult<()> { Ok(()) } pub fn add_class<T>(&self) -> PyResult<()> { Ok(()) } pub fn add<V>(&self, _n: &str, _v: V) -> PyResult<()> { Ok(()) } pub fn add_submodule(&self, _m: &Bound<'py, PyModule>) -> PyResult<()> { Ok(()) } }
#[macro_export] macro_rules! wrap_pyfunction { ($f:path, $m:expr) => { { let _ = &$m; Ok::<$crate::FnRef, $crate::PyErr>($crate::FnRef) } }; ($f:path) => { |_m| Ok::<$crate::FnRef, $crate::PyErr>($crate::FnRef) } }
#[macro_export] macro_rules! intern { ($py:expr, $s:expr) => { $s } }
impl<'py, T: DerefToPyAny> From<Bound<'py, T>> for Py<PyAny> { fn from(b: Bound<'py, T>) -> Self { Py::of(b.0) } }
impl<'py> From<Bound<'py, PyAny>> for Py<PyAny> { fn from(b: Bound<'py, PyAny>) -> Self { Py::of(b.0) } }
impl<T: DerefToPyAny> From<Py<T>> for Py<PyAny> { fn from(b: Py<T>) -> Self { Py::of(b.0) } }
impl<'py, T> From<Bound<'py, T>> for Py<T> where T: DerefToPyAny { fn from(b: Bound<'py, T>) -> Self { Py::of(b.0) } }
impl<'py> FromPyObject<'py> for u128 { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<u128> { u64::extract_bound(o).map(|x| x as u128) } }
