//! P16: creation: zeros ones empty full and their _like forms, arange, linspace, eye, identity, tri, tril, triu, diag, diagflat,
//! indices, meshgrid, copy, array, ascontiguousarray, asfortranarray, require.
use crate::sx::*; use crate::util::*; use pyo3::Val;

const ALL: &[&str] = &["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "complex64", "complex128"];
fn c_contig(a: &A) -> bool { let mut s = a.isz as isize; let mut ok = true; for d in (0..a.ndim()).rev() { if a.shape[d] > 1 { ok &= a.strides[d] == s; } s *= a.shape[d] as isize; } ok || a.size() == 0 }
/// the (real) number at an address of any dtype, and the imaginary part
fn num_at(p: usize, d: &str) -> (f64, f64) { match d { "complex64" => (f_at(p, "float32"), f_at(p + 4, "float32")), "complex128" => (f_at(p, "float64"), f_at(p + 8, "float64")), _ => (f_at(p, d), 0.0) } }
fn want(r: &A, d: &str, sh: &[usize], id: u32) { check(r.dt == d, id); check(r.has_shape(sh), id + 1); if r.dt != d || !r.has_shape(sh) { stop() } check(c_contig(r), id + 2); }
/// a shape argument: tuple, list or integer
fn shape_arg(sh: &[usize]) -> Obj { let k = choose(3); if k == 2 && sh.len() == 1 { int(sh[0] as i64) } else if k == 1 { lst(sh.iter().map(|x| int(*x as i64)).collect()) } else { itup(sh) } }
const SH: &[&[usize]] = &[&[], &[3], &[0], &[2, 2], &[2, 0, 3], &[1, 2, 2]];
fn consts() {
    let d = ALL[choose(ALL.len())]; let sh = SH[choose(SH.len())]; let s = shape_arg(sh); let f = choose(4); let dt = st(d); let none_dt = choose(2) == 1; let one = int(1);
    let r = arr_of(match (f, none_dt) { (0, false) => call!(np::zeros; s, dt), (0, true) => call!(np::zeros; s), (1, false) => call!(np::ones; s; dtype = dt), (1, true) => call!(np::ones; s), (2, false) => call!(np::empty; s, dt), (2, true) => call!(np::empty; s), (_, false) => call!(np::full; s, one, dt), _ => call!(np::full; s, one) }, 1);
    want(&r, if none_dt { if f == 3 { "int64" } else { "float64" } } else { d }, sh, 2); if f == 2 { return; }
    for i in r.idx() { check(num_at(r.addr(&i), r.dt) == ((f != 0) as u8 as f64, 0.0), 5); }
}
/// zeros_like and relatives: shape and dtype of the array given, fresh memory
fn like() {
    let d = DTYPES[choose(DTYPES.len())]; let sh = [&[] as &[usize], &[3], &[2, 2], &[0, 2]][choose(4)]; let a = layout(d, sh, choose(NLAYOUT)); let old = a.flat_bits(); let f = choose(4); let e = [None, Some("int16"), Some("float64"), Some("complex128")][choose(4)]; let one = int(1); let o = &a.o;
    let r = arr_of(match (f, e.map(st)) { (0, None) => call!(np::zeros_like; o), (0, Some(t)) => call!(np::zeros_like; o, t), (1, None) => call!(np::ones_like; o), (1, Some(t)) => call!(np::ones_like; o; dtype = t), (2, None) => call!(np::empty_like; o), (2, Some(t)) => call!(np::empty_like; o, t), (_, None) => call!(np::full_like; o, one), (_, Some(t)) => call!(np::full_like; o, one, t) }, 10);
    want(&r, e.unwrap_or(d), sh, 11); if f != 2 { for i in r.idx() { check(num_at(r.addr(&i), r.dt) == ((f != 0) as u8 as f64, 0.0), 14); } }
    if r.dt == d { for i in r.idx() { let b = r.addr(&i); for n in 0..r.isz { unsafe { *((b + n) as *mut u8) ^= 1 } } } } let now = a.flat_bits(); for k in 0..old.len() { check(now[k] == old[k], 15); }
}
fn range(d: &str) -> (i128, i128) { let w = isz(d) as u32 * 8; if is_uns(d) { (0, (1i128 << w) - 1) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } }
/// any 64-bit integer as the value: stored exactly, or refused when it does not fit the dtype
fn full_v(v: i128, o: Obj, d: &'static str, like: bool, id: u32) {
    let dt = st(d); let r = if like { let a = sym(d, &[2]); call!(np::full_like; a.o, o) } else { let s = int(2); call!(np::full; s, o, dt) };
    if d == "bool" { let r = arr_of(r, id); want(&r, d, &[2], id + 1); check(r.i(&[1]) == (v != 0) as i64, id + 4); return; }
    if is_float(d) { let r = arr_of(r, id); want(&r, d, &[2], id + 1); let f = v as f64; check(same_f(r.f(&[0]), if d == "float32" { f as f32 as f64 } else { f }) | (d == "float32" && same_f(r.f(&[0]), v as f32 as f64)), id + 4); return; }
    let (lo, hi) = range(d); if v < lo || v > hi { return must_kind(r, Kind::Overflow, id + 5); }
    let r = arr_of(r, id); want(&r, d, &[2], id + 1); for k in 0..2 { check(if d == "uint64" { r.bits(&[k]) == v as u64 } else { r.i(&[k]) == v as i64 }, id + 6); }
}
fn full_int() { let v: i64 = any(); full_v(v as i128, int(v), DTYPES[choose(DTYPES.len())], choose(2) == 1, 20) }
fn full_uint() { let u: u64 = any(); assume(u >> 63 == 1); let d = DTYPES[choose(DTYPES.len() - 2)]; full_v(u as i128, pyo3::mk(Val::UInt(u)), d, choose(2) == 1, 30) }
/// without a dtype: int64 for integers, float64 for floats, bool for booleans
fn full_none() {
    let s = itup(&[2, 1]); match choose(3) {
        0 => { let v: i64 = any(); let r = arr_of(call!(np::full; s, int(v)), 40); want(&r, "int64", &[2, 1], 41); check((r.i(&[0, 0]) == v) & (r.i(&[1, 0]) == v), 44) }
        1 => { let v: f64 = any(); let r = arr_of(call!(np::full; s, flt(v)), 40); want(&r, "float64", &[2, 1], 41); check(same_fb(r.f(&[0, 0]), v) & same_fb(r.f(&[1, 0]), v), 44) }
        _ => { let v = choose(2); let r = arr_of(call!(np::full; s, boo(v == 1)), 40); want(&r, "bool", &[2, 1], 41); check(r.i(&[0, 0]) == v as i64 && r.i(&[1, 0]) == v as i64, 44) }
    }
}
fn full_flt() { let v: f64 = any(); let d = ["float32", "float64", "complex128"][choose(3)]; let (s, dt) = (int(2), st(d)); let r = arr_of(call!(np::full; s, flt(v), dt), 46); want(&r, d, &[2], 47); for i in r.idx() { let (x, y) = num_at(r.addr(&i), d); check(same_fb(x, if d == "float32" { v as f32 as f64 } else { v }) & (y == 0.0), 49); } }
/// an array as the value is broadcast
fn full_arr() {
    let vs = [&[3usize] as &[usize], &[1], &[2, 1], &[2, 3], &[2]][choose(5)]; let a = layout("int32", vs, [0, 1, 2, 3][choose(4)]); let (s, e) = (itup(&[2, 3]), ["int32", "int64", "float64"][choose(3)]); let dt = st(e); let r = if choose(2) == 0 { call!(np::full; s, a.o, dt) } else { let z = zeros(e, &[2, 3]); call!(np::full_like; z, a.o) };
    if vs == [2] { return must_kind(r, Kind::Value, 50); } let r = arr_of(r, 51); want(&r, e, &[2, 3], 52); for i in r.idx() { check(r.bits(&i) == bits_of_i(e, a.i(&bix(&i, vs))), 55); }
}
/// shapes that do not fit in memory or are negative are refused
fn too_big() {
    let n: i64 = any(); let f = choose(8); let c = choose(3); let m = [1i64 << 61, 3 << 32, 1][c]; assume(n < 0 || if c == 1 { n >= 1 << 30 } else { n >= 1 << 60 });
    let s = match c { 0 => tup(vec![int(m), int(n)]), 1 => tup(vec![int(n), int(m)]), _ => int(n) }; let (one, dt) = (int(1), st("float64"));
    let r = match f { 0 => call!(np::zeros; s, dt), 1 => call!(np::ones; s, dt), 2 => call!(np::empty; s, dt), 3 => call!(np::full; s, one, dt), 4 if c == 2 => call!(np::eye; s), 5 if c == 2 => call!(np::tri; s), 6 if c == 2 => call!(np::linspace; flt(0.0), flt(1.0), s), 7 if c == 2 && n > 0 => call!(np::arange; s), _ => stop() }; must_err(r, 60);
}
/// arange over integers: start, start+step, ... up to but excluding stop, exactly
fn arange_s(start: i64, step: i64) {
    let n = choose(4) as i128; let cut = if step.unsigned_abs() > 1 { choose(2) as i128 } else { 0 }; let sg = if step > 0 { 1 } else { -1 };
    // exactly n terms; the last step may be cut short
    let w = start as i128 + n * step as i128 - if n > 0 { cut * sg } else { 0 }; assume(w >= i64::MIN as i128 && w <= i64::MAX as i128); let e = w as i64;
    let r = arr_of(if step == 1 && choose(2) == 1 { call!(np::arange; int(start), int(e)) } else { call!(np::arange; int(start), int(e), int(step)) }, 70); want(&r, "int64", &[n as usize], 71);
    for k in 0..r.size() { check(r.i(&[k]) == (start as i128 + k as i128 * step as i128) as i64, 74); }
}
fn arange_i() { let step = [1i64, -1, 2][choose(3)]; let base = [0i64, i64::MAX - 40000][choose(2)]; arange_s(base + any::<i16>() as i64, step) }
fn arange_c() { let step = [1i64, -1, 2, 3, -3, -7, (1 << 40) + 1, i64::MAX, i64::MIN][choose(9)]; let start = [i64::MIN, i64::MIN + 1, -7, -1, 0, 5, (1 << 60) + 1, i64::MAX - 20, i64::MAX][choose(9)]; arange_s(start, step) }
fn arange_1() { let n = choose(4); let d = ["int8", "uint16", "int64", "float32", "float64", "complex128"][choose(6)]; let dt = st(d); let neg = choose(2) == 1; let x = if neg { -(n as i64) } else { n as i64 }; let r = arr_of(call!(np::arange; int(x); dtype = dt), 76); want(&r, d, &[if neg { 0 } else { n }], 77); for k in 0..r.size() { check(num_at(r.addr(&[k]), d) == (k as f64, 0.0), 80); } }
/// float arange on exactly representable steps
fn arange_f() {
    let a = [0.0, 1.5, -2.25][choose(3)]; let step = [0.5, 1.0, -0.25, 3.0][choose(4)]; let n = choose(5); let b = a + step * n as f64 - if n > 0 && choose(2) == 1 { step / 4.0 } else { 0.0 };
    let r = arr_of(call!(np::arange; flt(a), flt(b), flt(step)), 81); want(&r, "float64", &[n], 82); for k in 0..n { check(r.f(&[k]) == a + k as f64 * step, 85); }
}
fn arange_bad() { let (a, b, z) = (any::<i64>(), any::<i64>(), int(0)); match choose(3) { 0 => must_err(call!(np::arange; int(a), int(b), z), 86), 1 => must_err(call!(np::arange; flt(0.0), flt(5.0), flt(0.0)), 87), _ => { let f: f64 = any(); assume(!(f <= 1e300)); must_err(call!(np::arange; flt(0.0), flt(f), flt(1.0)), 88) } } }
/// linspace: num points, the first start and the last stop exactly
fn lin_sym() { let (a, b): (f64, f64) = (any(), any()); assume((a.abs() <= 1e300) & (b.abs() <= 1e300)); let n = choose(4); let r = arr_of(call!(np::linspace; flt(a), flt(b), int(n as i64)), 90); want(&r, "float64", &[n], 91); if n > 0 { check(same_f(r.f(&[0]), a), 94) } if n > 1 { check(same_f(r.f(&[n - 1]), b), 95) } }
fn lin() {
    let a = [0.0, -3.5, 8.0][choose(3)]; let st_ = [0.5, -1.25, 0.0, 3.0][choose(4)]; let n = choose(6); let d = ["float64", "float32", "int32", "int64", "complex128"][choose(5)]; let dt = st(d); let b = if n > 1 { a + st_ * (n - 1) as f64 } else { a + 7.0 };
    let r = arr_of(call!(np::linspace; flt(a), flt(b), int(n as i64); dtype = dt), 96); want(&r, d, &[n], 97); for k in 0..n { let v = a + st_ * k as f64; check(num_at(r.addr(&[k]), d) == (if d.as_bytes()[0] == b'i' { v.floor() } else { v }, 0.0), 100); }
    let k: i64 = any(); assume(k < 0); must_err(call!(np::linspace; flt(a), flt(b), int(k)), 101);
}
fn eye() { let n = choose(4); let d = ALL[choose(ALL.len())]; let dt = st(d); let f = choose(2); let r = arr_of(if f == 0 { call!(np::eye; int(n as i64); dtype = dt) } else { call!(np::identity; int(n as i64); dtype = dt) }, 110); want(&r, d, &[n, n], 111); for i in r.idx() { check(num_at(r.addr(&i), d) == ((i[0] == i[1]) as u8 as f64, 0.0), 114); } }
const K: i64 = 4;
fn below(i: &[usize], k: i64) -> bool { (i[1] as i64 as i128) <= i[0] as i128 + k as i128 }
fn tri() { let (n, m) = (choose(4), choose(4)); let k = idx64(-K, K); let d = ["float64", "int8", "bool", "complex64"][choose(4)]; let dt = st(d); let r = arr_of(if n == m && choose(2) == 1 { call!(np::tri; int(n as i64); k = int(k), dtype = dt) } else { call!(np::tri; int(n as i64), int(m as i64), int(k), dt) }, 120); want(&r, d, &[n, m], 121); for i in r.idx() { check(num_at(r.addr(&i), d) == (below(&i, k) as u8 as f64, 0.0), 124); } }
fn trilu() { let a = layout(DTYPES[choose(DTYPES.len())], [&[2usize, 3] as &[usize], &[3, 2], &[1, 1], &[2, 0]][choose(4)], choose(NLAYOUT)); let k = idx64(-K, K); let lo = choose(2) == 0; let r = arr_of(if lo { call!(np::tril; a.o, int(k)) } else { call!(np::triu; a.o, int(k)) }, 130); want(&r, a.dt, &a.shape, 131); for i in r.idx() { let keep = if lo { below(&i, k) } else { !below(&i, k) || i[1] as i128 == i[0] as i128 + k as i128 }; check(r.bits(&i) == if keep { a.bits(&i) } else { 0 }, 134); } }
fn diagf() { let a = layout(["int16", "float64", "bool"][choose(3)], [&[2usize] as &[usize], &[3], &[2, 2], &[0], &[]][choose(5)], choose(NLAYOUT)); let k = choose_in(-2, 2); let r = arr_of(call!(np::diagflat; a.o, int(k)), 140); let n = a.size() + k.unsigned_abs() as usize; want(&r, a.dt, &[n, n], 141); let v = a.flat_bits(); for i in r.idx() { let w = if i[1] as i64 - i[0] as i64 == k { v[i[0].min(i[1])] } else { 0 }; check(r.bits(&i) == w, 144); } }
fn diag() { let sh = [&[3usize] as &[usize], &[2, 3], &[3, 2], &[2, 2], &[1, 3], &[0]][choose(6)]; let a = layout(["int16", "float64", "uint8"][choose(3)], sh, choose(NLAYOUT)); let r = arr_of(call!(np::diag; a.o), 150); check(r.dt == a.dt, 151); if sh.len() == 1 { check(r.has_shape(&[sh[0], sh[0]]), 152); if !r.has_shape(&[sh[0], sh[0]]) { stop() } for i in r.idx() { check(r.bits(&i) == if i[0] == i[1] { a.bits(&[i[0]]) } else { 0 }, 153); } } else { let n = sh[0].min(sh[1]); check(r.has_shape(&[n]), 154); if !r.has_shape(&[n]) { stop() } for k in 0..n { check(r.bits(&[k]) == a.bits(&[k, k]), 155); } } }
fn indices_() { let sh = [&[3usize] as &[usize], &[2, 3], &[1, 2, 2], &[2, 0], &[3, 1]][choose(5)]; let d = [None, Some("float64"), Some("int32"), Some("uint8")][choose(4)]; let s = itup(sh); let r = arr_of(match d.map(st) { None => call!(np::indices; s), Some(t) => call!(np::indices; s; dtype = t) }, 160); let mut w = vec![sh.len()]; w.extend(sh); want(&r, d.unwrap_or("int64"), &w, 161); for i in r.idx() { check(r.f(&i) == i[1 + i[0]] as f64, 164); } }
/// meshgrid: result i varies along the axis of argument i (the first two exchanged for "xy")
fn mesh() {
    let n = 1 + choose(3); let ns: Vec<usize> = (0..n).map(|k| [2usize, 3, 1][(k + 1) % 3] - if k == 0 { choose(2) } else { 0 }).collect(); let ij = choose(2) == 1; let d = ["int32", "float64"]; let xs: Vec<A> = (0..n).map(|k| layout(d[k % 2], &[ns[k]], [0, 2, 3][choose(3)])).collect();
    let r = must(np::meshgrid(&Args::new(xs.iter().map(|x| x.o.clone()).collect(), if ij { vec![("indexing", st("ij"))] } else if choose(2) == 1 { vec![("indexing", st("xy"))] } else { vec![] })), 170); let r = items(&r); check(r.len() == n, 171); if r.len() != n { stop() }
    let ax = |k: usize| if !ij && n > 1 && k < 2 { 1 - k } else { k }; let mut sh = vec![0; n]; for k in 0..n { sh[ax(k)] = ns[k] }
    for k in 0..n { let g = match A::try_of(&r[k]) { Some(g) => g, None => { check(false, 172); stop() } }; check(g.dt == xs[k].dt, 173); check(g.has_shape(&sh), 174); if !g.has_shape(&sh) { stop() } for i in g.idx() { check(g.bits(&i) == xs[k].bits(&[i[ax(k)]]), 175); } }
    if n > 1 { let b = st("xx"); must_kind(np::meshgrid(&Args::new(xs.iter().map(|x| x.o.clone()).collect(), vec![("indexing", b)])), Kind::Value, 176) }
}
/// copies and layout conversions keep every element; copy and array are fresh
fn copies() {
    let d = ["int16", "float64", "bool", "uint32"][choose(4)]; let sh = [&[] as &[usize], &[3], &[2, 3], &[2, 1, 2], &[0, 2]][choose(5)]; let a = layout(d, sh, choose(NLAYOUT)); let f = choose(8); let e = [None, Some("float64"), Some("int64")][choose(3)]; let o = &a.o; let t = e.map(st); let (rc, rf) = (st("C"), st("F"));
    let q = |w: Option<&Obj>| match (&t, w) { (None, None) => call!(np::require; o), (Some(t), None) => call!(np::require; o, t), (None, Some(w)) => call!(np::require; o; requirements = w), (Some(t), Some(w)) => call!(np::require; o, t, w) };
    let r = arr_of(match (f, &t) { (0, _) => call!(np::copy; o), (1, None) => call!(np::array; o), (1, Some(t)) => call!(np::array; o, t), (2, None) => call!(np::asarray; o), (2, Some(t)) => call!(np::asarray; o; dtype = t), (3, None) => call!(np::ascontiguousarray; o), (3, Some(t)) => call!(np::ascontiguousarray; o, t), (4, None) => call!(np::asfortranarray; o), (4, Some(t)) => call!(np::asfortranarray; o, t), (5, _) => q(None), (6, _) => q(Some(&rc)), _ => q(Some(&rf)) }, 180);
    let rd = if f == 0 { d } else { e.unwrap_or(d) }; check(r.dt == rd, 181); check(r.has_shape(sh), 182); if r.dt != rd || !r.has_shape(sh) { stop() }
    for i in r.idx() { check(if rd == d { r.bits(&i) == a.bits(&i) } else if is_float(rd) { r.f(&i) == a.i(&i) as f64 } else if d == "float64" { true } else { r.i(&i) == a.i(&i) }, 183); }
    if f == 3 || f == 6 { check(c_contig(&r), 184) } if f == 4 || f == 7 { let t = A::of(&tr(&r.o)); check(c_contig(&t), 185) }
    let old = a.flat_bits(); if f < 2 { for i in r.idx() { unsafe { *(r.addr(&i) as *mut u8) ^= 1 } } for (k, i) in a.idx().iter().enumerate() { check(a.bits(i) == old[k], 186); } }
}
pub const H: &[(&str, fn())] = &[("p16.consts", consts), ("p16.like", like), ("p16.full_int", full_int), ("p16.full_uint", full_uint), ("p16.full_none", full_none), ("p16.full_flt", full_flt), ("p16.full_arr", full_arr), ("p16.too_big", too_big), ("p16.arange_i", arange_i), ("p16.arange_c", arange_c), ("p16.arange_1", arange_1), ("p16.arange_f", arange_f), ("p16.arange_bad", arange_bad), ("p16.lin_sym", lin_sym), ("p16.lin", lin), ("p16.eye", eye), ("p16.tri", tri), ("p16.trilu", trilu), ("p16.diagf", diagf), ("p16.diag", diag), ("p16.indices", indices_), ("p16.mesh", mesh), ("p16.copies", copies)];
