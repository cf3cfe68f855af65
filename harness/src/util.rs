//! Harness helpers: everything goes through rumpy's Python-level entry points
//! (argument-binding wrappers of the registered functions and of ndarray's methods);
//! array contents are read and written through `__array_interface__`.
#![allow(dead_code)]
use crate::sx::*;
pub use pyo3::{Obj, Val, Kind, Args, PyResult, Bound, PyErr, mk, none};
pub use crate::python::pyarray::PyRumpyArray as Nd;
pub use crate::np;

// ------------------------------------------------------------ Python values
pub fn int(i: i64) -> Obj { mk(Val::Int(i)) }
pub fn flt(f: f64) -> Obj { mk(Val::Float(f)) }
pub fn boo(b: bool) -> Obj { mk(Val::Bool(b)) }
pub fn st(s: &str) -> Obj { mk(Val::Str(s.to_string())) }
pub fn tup(v: Vec<Obj>) -> Obj { mk(Val::Tuple(v)) }
pub fn lst(v: Vec<Obj>) -> Obj { mk(Val::List(std::cell::RefCell::new(v))) }
pub fn itup(v: &[usize]) -> Obj { tup(v.iter().map(|x| int(*x as i64)).collect()) }
pub fn ilst(v: &[i64]) -> Obj { lst(v.iter().map(|x| int(*x)).collect()) }
pub fn oint(v: Option<i64>) -> Obj { match v { Some(i) => int(i), None => none() } }
pub fn slice(a: Option<i64>, b: Option<i64>, c: Option<i64>) -> Obj { mk(Val::Slice(oint(a), oint(b), oint(c))) }
pub fn ell() -> Obj { mk(Val::Ellipsis) }
pub fn args(v: Vec<Obj>) -> Args { Args::new(v, vec![]) }
pub fn bound(o: &Obj) -> Bound<'static, Nd> { Bound::of(o.clone()) }

/// call!(np::f; a, b; axis = int(0))
#[macro_export] macro_rules! call { ($($f:ident)::+ ; $($a:expr),* $(; $($k:ident = $v:expr),*)?) => { $($f)::+(&pyo3::Args::new(vec![$($a.clone()),*], vec![$($((stringify!($k), $v.clone())),*)?])) } }
/// meth!(a.sum; args; kw)
#[macro_export] macro_rules! meth { ($o:ident . $f:ident ; $($a:expr),* $(; $($k:ident = $v:expr),*)?) => { <$crate::util::Nd>::$f(&$crate::util::bound(&$o.clone()), &pyo3::Args::new(vec![$($a.clone()),*], vec![$($((stringify!($k), $v.clone())),*)?])) } }

pub fn stop() -> ! { assume(false); loop {} }
/// The call must succeed; returns the object.
pub fn must(r: PyResult<Obj>, id: u32) -> Obj { match r { Ok(o) => o, Err(_) => { check(false, id); stop() } } }
/// The call must succeed and return an array.
pub fn arr_of(r: PyResult<Obj>, id: u32) -> A { let o = must(r, id); match A::try_of(&o) { Some(a) => a, None => { check(false, id); stop() } } }
pub fn must_err(r: PyResult<Obj>, id: u32) { check(r.is_err(), id); }
pub fn must_kind(r: PyResult<Obj>, k: Kind, id: u32) { match r { Ok(_) => check(false, id), Err(e) => check(e.kind == k, id) } }

// ------------------------------------------------------------ arrays
#[derive(Clone)]
pub struct A { pub o: Obj, pub ptr: usize, pub shape: Vec<usize>, pub strides: Vec<isize>, pub dt: &'static str, pub isz: usize }
fn obj_int(o: &Obj) -> i64 { match &o.v { Val::Int(i) => *i, Val::Bool(b) => *b as i64, _ => 0 } }
pub fn obj_f(o: &Obj) -> Option<f64> { match &o.v { Val::Int(i) => Some(*i as f64), Val::Bool(b) => Some(*b as u8 as f64), Val::Float(f) => Some(*f), _ => None } }
pub fn obj_i(o: &Obj) -> Option<i64> { match &o.v { Val::Int(i) => Some(*i), Val::Bool(b) => Some(*b as i64), _ => None } }
pub fn items(o: &Obj) -> Vec<Obj> { match &o.v { Val::Tuple(v) => v.clone(), Val::List(l) => l.borrow().clone(), _ => vec![] } }
pub fn is_nd(o: &Obj) -> bool { pyo3::type_name(o) == "ndarray" }
fn dget(o: &Obj, k: &str) -> Option<Obj> { if let Val::Dict(d) = &o.v { for (a, b) in d.borrow().iter() { if let Val::Str(s) = &a.v { if s == k { return Some(b.clone()); } } } } None }
pub const DTYPES: &[&str] = &["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"];
pub const INTS: &[&str] = &["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"];
fn canon(s: &str) -> &'static str { for d in DTYPES { if *d == s { return d; } } match s { "float16" => "float16", "complex64" => "complex64", "complex128" => "complex128", _ => "other" } }
pub fn isz(dt: &str) -> usize { match dt { "bool" | "int8" | "uint8" => 1, "int16" | "uint16" | "float16" => 2, "int32" | "uint32" | "float32" => 4, "complex128" => 16, _ => 8 } }
pub fn is_float(dt: &str) -> bool { dt.as_bytes()[0] == b'f' }
pub fn is_uns(dt: &str) -> bool { dt.as_bytes()[0] == b'u' || dt == "bool" }
pub fn prod(s: &[usize]) -> usize { let mut n = 1; for x in s { n *= *x; } n }
/// all indices of `shape` in row-major order
pub fn indices(shape: &[usize]) -> Vec<Vec<usize>> {
    let n = prod(shape); let mut out = Vec::with_capacity(n);
    for k in 0..n { out.push(unflat(k, shape)); }
    out
}
pub fn unflat(mut k: usize, shape: &[usize]) -> Vec<usize> { let mut ix = vec![0; shape.len()]; for d in (0..shape.len()).rev() { ix[d] = k % shape[d]; k /= shape[d]; } ix }
pub fn flat(ix: &[usize], shape: &[usize]) -> usize { let mut k = 0; for d in 0..shape.len() { k = k * shape[d] + ix[d]; } k }

impl A {
    pub fn try_of(o: &Obj) -> Option<A> {
        if !is_nd(o) { return None; }
        let b = bound(o); let e = args(vec![]);
        let ai = Nd::__w___array_interface__(&b, &e).ok()?;
        let dt = match Nd::__w_dtype(&b, &e) { Ok(d) => match &d.v { Val::Str(s) => canon(s), _ => "other" }, Err(_) => "other" };
        let shape: Vec<usize> = items(&dget(&ai, "shape")?).iter().map(|x| obj_int(x) as usize).collect();
        let strides: Vec<isize> = items(&dget(&ai, "strides")?).iter().map(|x| obj_int(x) as isize).collect();
        let ptr = obj_int(&items(&dget(&ai, "data")?)[0]) as usize;
        let isz = match Nd::__w_itemsize(&b, &e) { Ok(x) => obj_int(&x) as usize, Err(_) => 0 };
        Some(A { o: o.clone(), ptr, shape, strides, dt, isz })
    }
    pub fn of(o: &Obj) -> A { A::try_of(o).unwrap() }
    pub fn size(&self) -> usize { prod(&self.shape) }
    pub fn ndim(&self) -> usize { self.shape.len() }
    pub fn addr(&self, ix: &[usize]) -> usize { let mut p = self.ptr as isize; for d in 0..ix.len() { p += ix[d] as isize * self.strides[d]; } p as usize }
    pub fn bits(&self, ix: &[usize]) -> u64 { bits_at(self.addr(ix), self.isz) }
    /// value as i64 (sign/zero extended; uint64 reinterpreted)
    pub fn i(&self, ix: &[usize]) -> i64 { int_at(self.addr(ix), self.dt) }
    pub fn f(&self, ix: &[usize]) -> f64 { f_at(self.addr(ix), self.dt) }
    pub fn idx(&self) -> Vec<Vec<usize>> { indices(&self.shape) }
    /// element bits in row-major order
    pub fn flat_bits(&self) -> Vec<u64> { self.idx().iter().map(|i| self.bits(i)).collect() }
    pub fn flat_i(&self) -> Vec<i64> { self.idx().iter().map(|i| self.i(i)).collect() }
    pub fn flat_f(&self) -> Vec<f64> { self.idx().iter().map(|i| self.f(i)).collect() }
    pub fn has_shape(&self, s: &[usize]) -> bool { self.shape.as_slice() == s }
    pub fn observe(&self) { observe(self.shape.len() as u64); for s in &self.shape { observe(*s as u64); } for i in self.idx() { if self.isz <= 8 { observe(self.bits(&i)); } } }
}
pub fn bits_at(p: usize, n: usize) -> u64 { unsafe { match n { 1 => *(p as *const u8) as u64, 2 => (p as *const u16).read_unaligned() as u64, 4 => (p as *const u32).read_unaligned() as u64, _ => (p as *const u64).read_unaligned() } } }
pub fn int_at(p: usize, dt: &str) -> i64 { unsafe { match dt { "bool" => *(p as *const u8) as i64, "int8" => *(p as *const i8) as i64, "uint8" => *(p as *const u8) as i64, "int16" => (p as *const i16).read_unaligned() as i64, "uint16" => (p as *const u16).read_unaligned() as i64, "int32" => (p as *const i32).read_unaligned() as i64, "uint32" => (p as *const u32).read_unaligned() as i64, "float64" => (p as *const f64).read_unaligned() as i64, "float32" => (p as *const f32).read_unaligned() as i64, _ => (p as *const i64).read_unaligned() } } }
pub fn f_at(p: usize, dt: &str) -> f64 { unsafe { match dt { "float64" => (p as *const f64).read_unaligned(), "float32" => (p as *const f32).read_unaligned() as f64, "uint64" => (p as *const u64).read_unaligned() as f64, _ => int_at(p, dt) as f64 } } }
/// write a fresh symbolic element of dtype `dt`
pub fn sym_at(p: usize, dt: &str) { unsafe { match isz(dt) { 1 => { let v: u8 = any(); *(p as *mut u8) = if dt == "bool" { v & 1 } else { v } } 2 => *(p as *mut u16) = any(), 4 => *(p as *mut u32) = any(), 8 => *(p as *mut u64) = any(), _ => { *(p as *mut u64) = any(); *((p + 8) as *mut u64) = any(); } } } }

pub fn zeros(dt: &str, shape: &[usize]) -> Obj { match np::zeros(&args(vec![itup(shape), st(dt)])) { Ok(o) => o, Err(_) => { check(false, 9000); stop() } } }
/// C-contiguous array with fully symbolic contents
pub fn sym(dt: &str, shape: &[usize]) -> A { let a = A::of(&zeros(dt, shape)); for i in a.idx() { sym_at(a.addr(&i), dt); } a }
/// C-contiguous array whose element k is f(k)
pub fn filled_i(dt: &str, shape: &[usize], f: impl Fn(usize) -> i64) -> A { let a = A::of(&zeros(dt, shape)); for (k, i) in a.idx().iter().enumerate() { put_i(a.addr(i), dt, f(k)); } a }
pub fn put_i(p: usize, dt: &str, v: i64) { unsafe { match dt { "float64" => *(p as *mut f64) = v as f64, "float32" => *(p as *mut f32) = v as f32, _ => match isz(dt) { 1 => *(p as *mut u8) = v as u8, 2 => *(p as *mut u16) = v as u16, 4 => *(p as *mut u32) = v as u32, _ => *(p as *mut u64) = v as u64 } } } }
pub fn put_f(p: usize, dt: &str, v: f64) { unsafe { match dt { "float64" => *(p as *mut f64) = v, "float32" => *(p as *mut f32) = v as f32, _ => {} } } }
pub fn getitem(o: &Obj, key: Obj) -> PyResult<Obj> { Nd::__w___getitem__(&bound(o), &args(vec![key])) }
pub fn setitem(o: &Obj, key: Obj, v: Obj) -> PyResult<Obj> { Nd::__w___setitem__(&bound(o), &args(vec![key, v])) }

pub const NLAYOUT: u64 = 6;
/// An array of logical shape `shape` with symbolic contents in memory layout `k`:
/// 0 C-contiguous, 1 transposed (F order), 2 reversed in every axis, 3 every second element with offset,
/// 4 last axis reversed of a strided view, 5 transposed and reversed.
pub fn layout(dt: &str, shape: &[usize], k: usize) -> A {
    let rev: Vec<usize> = shape.iter().rev().cloned().collect();
    let nd = shape.len();
    let sl = |s: Option<i64>, st: i64| slice(s, None, Some(st));
    let r = match k {
        0 => sym(dt, shape).o,
        1 => tr(&sym(dt, &rev).o),
        2 => { let b = sym(dt, shape); if nd == 0 { b.o } else { must(getitem(&b.o, tup((0..nd).map(|_| sl(None, -1)).collect())), 9001) } }
        3 => { let big: Vec<usize> = shape.iter().map(|x| 2 * x + 1).collect(); let b = sym(dt, &big); if nd == 0 { b.o } else { must(getitem(&b.o, tup((0..nd).map(|_| sl(Some(1), 2)).collect())), 9001) } }
        4 => { let big: Vec<usize> = shape.iter().enumerate().map(|(d, x)| if d + 1 == nd { *x } else { 2 * x }).collect(); let b = sym(dt, &big); if nd == 0 { b.o } else { must(getitem(&b.o, tup((0..nd).map(|d| if d + 1 == nd { sl(None, -1) } else { sl(None, 2) }).collect())), 9001) } }
        _ => { let b = tr(&sym(dt, &rev).o); if nd == 0 { b } else { must(getitem(&b, tup((0..nd).map(|_| sl(None, -1)).collect())), 9001) } }
    };
    let a = A::of(&r); check(a.has_shape(shape), 9002); a
}
pub fn tr(o: &Obj) -> Obj { must(np::transpose(&args(vec![o.clone()])), 9003) }
pub fn eq_bits(x: u64, y: u64, id: u32) { check(x == y, id) }
/// IEEE-aware equality: equal values, or both NaN
pub fn same_f(a: f64, b: f64) -> bool { (a.to_bits() == b.to_bits()) | (a == b) | ((a != a) & (b != b)) }
/// bit equality up to NaN payload
pub fn same_fb(a: f64, b: f64) -> bool { (a.to_bits() == b.to_bits()) | ((a != a) & (b != b)) }

/// `__array_interface__` of the foreign object Module("foreign")
pub static mut FOREIGN: Option<Obj> = None;
pub fn init() {
    unsafe {
        pyo3::HOOKS.float = Some(|o| { if !is_nd(o) { return Err(PyErr::k(Kind::Type)); } match Nd::__w___float__(&bound(o), &args(vec![])) { Ok(x) => obj_f(&x).ok_or(PyErr::k(Kind::Type)), Err(e) => Err(e) } });
        pyo3::HOOKS.import = Some(|n| match n { "collections" => Ok(pyo3::mk(Val::Module("collections"))), "warnings" => Ok(pyo3::mk(Val::Module("warnings"))), _ => Err(PyErr::k(Kind::Import)) });
        pyo3::HOOKS.method = Some(|o, n, _| match &o.v { Val::Int(_) | Val::UInt(_) if n == "__int__" => Ok(o.clone()), Val::Bool(b) if n == "__int__" => Ok(int(*b as i64)), Val::Float(f) if n == "__int__" => if *f != *f { Err(PyErr::k(Kind::Value)) } else if f.abs() < 9.2e18 { Ok(int(*f as i64)) } else { Err(PyErr::k(Kind::Overflow)) }, Val::Module("warnings") if n == "warn" => Ok(pyo3::none()), _ => Err(PyErr::k(Kind::Attribute)) });
        pyo3::HOOKS.getattr = Some(|o, n| { if let Val::Module("foreign") = &o.v { return match unsafe { (&*std::ptr::addr_of!(FOREIGN)).clone() } { Some(d) if n == "__array_interface__" => Ok(d), _ => Err(PyErr::k(Kind::Attribute)) }; } if let Val::Module("collections") = &o.v { return if n == "namedtuple" { Ok(pyo3::mk(Val::Func(Box::new(|_| Ok(pyo3::mk(Val::Func(Box::new(|a: &[Obj]| Ok(pyo3::mk(Val::Tuple(a.to_vec())))))))))) ) } else { Err(PyErr::k(Kind::Attribute)) } } if is_nd(o) { match n { "dtype" => Nd::__w_dtype(&bound(o), &args(vec![])), "shape" => Nd::__w_shape(&bound(o), &args(vec![])), "ndim" => Nd::__w_ndim(&bound(o), &args(vec![])), "size" => Nd::__w_size(&bound(o), &args(vec![])), _ => Err(PyErr::k(Kind::Attribute)) } } else { Err(PyErr::k(Kind::Attribute)) } });
    }
}
/// Any 64-bit integer; values in lo..=hi are explored one by one, those outside stay symbolic.
pub fn idx64(lo: i64, hi: i64) -> i64 { let i: i64 = any(); if i >= lo && i <= hi { lo + fork((i - lo) as u64) as i64 } else { i } }
pub fn idx32(lo: i32, hi: i32) -> i32 { let i: i32 = any(); if i >= lo && i <= hi { lo + fork((i - lo) as u64) as i32 } else { i } }
/// Python's meaning of start:stop:step on a sequence of length n, as the list of selected positions
pub fn py_slice(start: Option<i64>, stop: Option<i64>, step: i64, n: i64) -> Vec<i64> {
    let mut out = vec![];
    if step > 0 {
        let lo = match start { None => 0, Some(s) => if s < 0 { if s < -n { 0 } else { s + n } } else if s > n { n } else { s } };
        let hi = match stop { None => n, Some(s) => if s < 0 { if s < -n { 0 } else { s + n } } else if s > n { n } else { s } };
        let mut i = lo; while i < hi { out.push(i); i = match i.checked_add(step) { Some(x) => x, None => break }; }
    } else {
        let hi = match start { None => n - 1, Some(s) => if s < 0 { if s < -n { -1 } else { s + n } } else if s >= n { n - 1 } else { s } };
        let lo = match stop { None => -1, Some(s) => if s < 0 { if s < -n { -1 } else { s + n } } else if s >= n { n - 1 } else { s } };
        let mut i = hi; while i > lo { out.push(i); i = match i.checked_add(step) { Some(x) => x, None => break }; }
    }
    out
}
/// scalar or 0-d array equal to the element at `addr`
pub fn is_elem(o: &Obj, a: &A, ix: &[usize], id: u32) {
    if is_nd(o) { let r = A::of(o); check(r.ndim() == 0 && r.dt == a.dt, id); check(r.ptr == a.addr(ix), id); return; }
    match a.dt { "float64" | "float32" => match &o.v { Val::Float(f) => check(same_fb(*f, a.f(ix)), id), _ => check(false, id) },
        "complex128" => match &o.v { Val::Complex(x, y) => check(same_fb(*x, f_at(a.addr(ix), "float64")) && same_fb(*y, f_at(a.addr(ix) + 8, "float64")), id), _ => check(false, id) },
        "uint64" => match &o.v { Val::Int(i) => check(*i == a.i(ix), id), Val::UInt(u) => check(*u == a.i(ix) as u64, id), _ => check(false, id) },
        "bool" => match obj_f(o) { Some(f) => check(f == a.f(ix), id), _ => check(false, id) },
        _ => match obj_i(o) { Some(i) => check(i == a.i(ix), id), _ => check(false, id) } }
}
pub fn bits_of_i(dt: &str, v: i64) -> u64 { match dt { "float64" => (v as f64).to_bits(), "float32" => (v as f32).to_bits() as u64, "bool" => (v != 0) as u64, _ => { let w = isz(dt) * 8; if w == 64 { v as u64 } else { v as u64 & ((1u64 << w) - 1) } } } }

// ------------------------------------------------------------ oracles for elementwise arithmetic
/// NumPy's result type of two array dtypes
pub fn promo(a: &'static str, b: &'static str) -> &'static str {
    if a == b || b == "bool" { return a; }
    if a == "bool" { return b; }
    if is_float(a) || is_float(b) {
        if a == "float64" || b == "float64" { return "float64"; }
        let o = if a == "float32" { b } else { a };
        return if is_float(o) || isz(o) <= 2 { "float32" } else { "float64" };
    }
    let (u, v) = (is_uns(a), is_uns(b));
    if u == v { return if isz(a) > isz(b) { a } else { b }; }
    let (s, t) = if u { (b, a) } else { (a, b) }; // s signed, t unsigned
    if isz(s) > isz(t) { return s; }
    match isz(t) { 1 => "int16", 2 => "int32", 4 => "int64", _ => "float64" }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op { Add, Sub, Mul, Max, Min, And, Or, Xor, Shl, Shr, FloorDiv, Mod, Fmod, Div, Eq, Ne, Lt, Le, Gt, Ge, Fmax, Fmin }
pub trait Num: Copy { fn ld(p: usize, dt: &str) -> Self; fn ev(op: Op, a: Self, b: Self) -> Self; fn cmpo(op: Op, a: Self, b: Self) -> bool; fn bits(self) -> u64; fn nan(self) -> bool; fn one() -> Self; }
macro_rules! ldm { ($t:ty, $p:expr, $dt:expr) => { unsafe { match $dt { "bool" => *($p as *const u8) as $t, "int8" => *($p as *const i8) as $t, "uint8" => *($p as *const u8) as $t, "int16" => ($p as *const i16).read_unaligned() as $t, "uint16" => ($p as *const u16).read_unaligned() as $t, "int32" => ($p as *const i32).read_unaligned() as $t, "uint32" => ($p as *const u32).read_unaligned() as $t, "int64" => ($p as *const i64).read_unaligned() as $t, "uint64" => ($p as *const u64).read_unaligned() as $t, "float32" => ($p as *const f32).read_unaligned() as $t, _ => ($p as *const f64).read_unaligned() as $t } } } }
macro_rules! cmpm { () => { fn cmpo(op: Op, a: Self, b: Self) -> bool { match op { Op::Eq => a == b, Op::Ne => a != b, Op::Lt => a < b, Op::Le => a <= b, Op::Gt => a > b, _ => a >= b } } } }
macro_rules! inum { ($($t:ident $u:ident),*) => { $(impl Num for $t {
    fn ld(p: usize, dt: &str) -> $t { ldm!($t, p, dt) }
    cmpm!();
    fn ev(op: Op, a: $t, b: $t) -> $t { match op {
        Op::Add => a.wrapping_add(b), Op::Sub => a.wrapping_sub(b), Op::Mul => a.wrapping_mul(b),
        Op::Max | Op::Fmax => if a > b { a } else { b }, Op::Min | Op::Fmin => if a < b { a } else { b },
        Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
        // a shift by at least the width (or a negative one) shifts everything out
        Op::Shl => if (b as $u as u64) < $t::BITS as u64 { a.wrapping_shl(b as u32) } else { 0 },
        #[allow(unused_comparisons)]
        Op::Shr => if (b as $u as u64) < $t::BITS as u64 { a.wrapping_shr(b as u32) } else if a < 0 { (0 as $t).wrapping_sub(1) } else { 0 },
        #[allow(unused_comparisons)]
        Op::FloorDiv => if b == 0 { 0 } else { let q = a.wrapping_div(b); let r = a.wrapping_rem(b); if r != 0 && ((r < 0) != (b < 0)) { q.wrapping_sub(1) } else { q } },
        #[allow(unused_comparisons)]
        Op::Mod => if b == 0 { 0 } else { let r = a.wrapping_rem(b); if r != 0 && ((r < 0) != (b < 0)) { r.wrapping_add(b) } else { r } },
        Op::Fmod => if b == 0 { 0 } else { a.wrapping_rem(b) },
        _ => 0 } }
    fn bits(self) -> u64 { self as $u as u64 }
    fn nan(self) -> bool { false }
    fn one() -> $t { 1 }
})* } }
inum!(i8 u8, i16 u16, i32 u32, i64 u64, u8 u8, u16 u16, u32 u32, u64 u64);
macro_rules! fnum { ($($t:ident),*) => { $(impl Num for $t {
    fn ld(p: usize, dt: &str) -> $t { ldm!($t, p, dt) }
    cmpm!();
    fn ev(op: Op, a: $t, b: $t) -> $t { match op { Op::Add => a + b, Op::Sub => a - b, Op::Mul => a * b, Op::Div => a / b,
        Op::Max => if a != a { a } else if b != b { b } else if a > b { a } else { b }, Op::Min => if a != a { a } else if b != b { b } else if a < b { a } else { b },
        Op::Fmax => if a != a { b } else if b != b { a } else if a > b { a } else { b }, Op::Fmin => if a != a { b } else if b != b { a } else if a < b { a } else { b },
        // Python's floor division and modulo
        Op::Mod => { if b == 0.0 { return $t::NAN; } let r = a % b; if r == 0.0 { (0.0 as $t).copysign(b) } else if (b < 0.0) != (r < 0.0) { r + b } else { r } }
        Op::FloorDiv => { if b == 0.0 { return a / b; } let mut m = a % b; let mut d = (a - m) / b; if m != 0.0 && ((b < 0.0) != (m < 0.0)) { m += b; d -= 1.0; } let _ = m; if d == 0.0 { (0.0 as $t).copysign(a / b) } else { let f = d.floor(); if d - f > 0.5 { f + 1.0 } else { f } } }
        Op::Fmod => a % b, _ => 0.0 } }
    fn bits(self) -> u64 { self.to_bits() as u64 }
    fn nan(self) -> bool { self != self }
    fn one() -> $t { 1.0 }
})* } }
fnum!(f32, f64);
/// `with!(dt, T => expr)`: expr with T the Rust type of a numeric dtype
#[macro_export] macro_rules! with { ($dt:expr, $T:ident => $e:expr) => { match $dt { "int8" => { type $T = i8; $e } "int16" => { type $T = i16; $e } "int32" => { type $T = i32; $e } "int64" => { type $T = i64; $e } "uint8" | "bool" => { type $T = u8; $e } "uint16" => { type $T = u16; $e } "uint32" => { type $T = u32; $e } "uint64" => { type $T = u64; $e } "float32" => { type $T = f32; $e } _ => { type $T = f64; $e } } } }
/// bit pattern of `op` applied to the elements at addresses a, b after conversion to `rdt`, and whether it is NaN
pub fn op_bits(op: Op, rdt: &str, a: (usize, &str), b: (usize, &str)) -> (u64, bool) {
    if rdt == "bool" { let (x, y) = (u8::ld(a.0, "bool") != 0, u8::ld(b.0, "bool") != 0); return ((match op { Op::Add | Op::Max | Op::Fmax | Op::Or => x | y, Op::Mul | Op::Min | Op::Fmin | Op::And => x & y, _ => x ^ y }) as u64, false); }
    with!(rdt, T => { let r = T::ev(op, T::ld(a.0, a.1), T::ld(b.0, b.1)); (r.bits(), r.nan()) })
}
/// bits equal, or both NaN
pub fn check_bits(r: &A, ix: &[usize], e: (u64, bool), id: u32) {
    if is_float(r.dt) { let f = r.f(ix); check((r.bits(ix) == e.0) | (e.1 & (f != f)), id) } else { check(r.bits(ix) == e.0, id) }
}
/// broadcast shape
pub fn bcast(a: &[usize], b: &[usize]) -> Option<Vec<usize>> { let n = a.len().max(b.len()); let mut o = vec![0; n]; for k in 0..n { let x = if k < a.len() { a[a.len() - 1 - k] } else { 1 }; let y = if k < b.len() { b[b.len() - 1 - k] } else { 1 }; o[n - 1 - k] = if x == y { x } else if x == 1 { y } else if y == 1 { x } else { return None }; } Some(o) }
/// index into an operand of shape `sh` for result index `ix`
pub fn bix(ix: &[usize], sh: &[usize]) -> Vec<usize> { let off = ix.len() - sh.len(); (0..sh.len()).map(|d| if sh[d] == 1 { 0 } else { ix[off + d] }).collect() }
pub fn is_cmp(op: Op) -> bool { matches!(op, Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge) }
/// the binary function of that name
pub fn np_op(op: Op, a: &Obj, b: &Obj) -> PyResult<Obj> { match op { Op::Add => call!(np::add; a, b), Op::Sub => call!(np::subtract; a, b), Op::Mul => call!(np::multiply; a, b), Op::Div => call!(np::divide; a, b), Op::Max => call!(np::maximum; a, b), Op::Min => call!(np::minimum; a, b), Op::Fmax => call!(np::fmax; a, b), Op::Fmin => call!(np::fmin; a, b), Op::And => call!(np::bitwise_and; a, b), Op::Or => call!(np::bitwise_or; a, b), Op::Xor => call!(np::bitwise_xor; a, b), Op::Shl => call!(np::left_shift; a, b), Op::Shr => call!(np::right_shift; a, b), Op::FloorDiv => call!(np::floor_divide; a, b), Op::Mod => call!(np::remainder; a, b), Op::Fmod => call!(np::fmod; a, b), Op::Eq => call!(np::equal; a, b), Op::Ne => call!(np::not_equal; a, b), Op::Lt => call!(np::less; a, b), Op::Le => call!(np::less_equal; a, b), Op::Gt => call!(np::greater; a, b), Op::Ge => call!(np::greater_equal; a, b) } }
/// the Python operator on an array left operand
pub fn py_op(op: Op, a: &Obj, b: &Obj) -> PyResult<Obj> { let o = a; match op { Op::Add => meth!(o.__w___add__; b), Op::Sub => meth!(o.__w___sub__; b), Op::Mul => meth!(o.__w___mul__; b), Op::Div => meth!(o.__w___truediv__; b), Op::And => meth!(o.__w___and__; b), Op::Or => meth!(o.__w___or__; b), Op::Xor => meth!(o.__w___xor__; b), Op::Shl => meth!(o.__w___lshift__; b), Op::Shr => meth!(o.__w___rshift__; b), Op::FloorDiv => meth!(o.__w___floordiv__; b), Op::Mod => meth!(o.__w___mod__; b), Op::Eq => meth!(o.__w___eq__; b), Op::Ne => meth!(o.__w___ne__; b), Op::Lt => meth!(o.__w___lt__; b), Op::Le => meth!(o.__w___le__; b), Op::Gt => meth!(o.__w___gt__; b), Op::Ge => meth!(o.__w___ge__; b), _ => np_op(op, a, b) } }
/// v is the larger (smaller) of x and y; max/min propagate NaN, fmax/fmin ignore it
pub fn is_extreme(op: Op, x: f64, y: f64, v: f64) -> bool {
    let (nx, ny, nv) = (x != x, y != y, v != v);
    let one = if matches!(op, Op::Max | Op::Min) { nv } else { (nx & ny & nv) | (nx & !ny & (v == y)) | (ny & !nx & (v == x)) };
    let ge = if matches!(op, Op::Max | Op::Fmax) { (v >= x) & (v >= y) } else { (v <= x) & (v <= y) };
    ((nx | ny) & one) | (!(nx | ny) & ge & ((v == x) | (v == y)))
}
/// `r` is op applied elementwise to a and b (broadcast), with result dtype `rdt`
pub fn check_binop(r: &A, op: Op, a: &A, b: &A, id: u32) {
    let sh = match bcast(&a.shape, &b.shape) { Some(s) => s, None => { check(false, id); return; } };
    let p = promo(a.dt, b.dt); let rdt = if is_cmp(op) { "bool" } else if op == Op::Div && !is_float(p) { "float64" } else { p };
    check(r.has_shape(&sh) && r.dt == rdt, id); if !r.has_shape(&sh) || r.dt != rdt { return; }
    for ix in r.idx() {
        let (pa, pb) = (a.addr(&bix(&ix, &a.shape)), b.addr(&bix(&ix, &b.shape)));
        if is_cmp(op) { let e = with!(p, T => T::cmpo(op, T::ld(pa, a.dt), T::ld(pb, b.dt))); check(r.bits(&ix) == e as u64, id + 1); }
        else if is_float(rdt) && matches!(op, Op::Max | Op::Min | Op::Fmax | Op::Fmin) { let (x, y, v) = (f64::ld(pa, a.dt), f64::ld(pb, b.dt), r.f(&ix)); check(is_extreme(op, x, y, v), id + 1); }
        else { check_bits(r, &ix, op_bits(op, rdt, (pa, a.dt), (pb, b.dt)), id + 1); }
    }
}
