//! P10: cumulative sums and products, differences, convolution, gradient, trapezoid, interp.
use crate::sx::*; use crate::util::*; use pyo3::{Val, PyResult};

const IB: &[&str] = &["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"];
const SH: &[&[usize]] = &[&[4], &[1], &[2, 3], &[3, 1], &[2, 2, 2], &[0, 2]];
fn wide(dt: &'static str) -> &'static str { if is_float(dt) { dt } else if dt == "bool" || !is_uns(dt) { "int64" } else { "uint64" } }
fn mask(dt: &str) -> u64 { let w = isz(dt) * 8; if w == 64 { u64::MAX } else { (1u64 << w) - 1 } }
/// how a running operation is asked for: flattened or along an axis, as function or method
struct C { ax: Option<usize>, r: PyResult<Obj> }
macro_rules! cum { ($a:expr, $f:ident, $w:ident) => { {
    let nd = $a.ndim(); let o = $a.o.clone(); let k = choose(2 + 2 * nd + nd);
    if k == 0 { C { ax: None, r: call!(np::$f; $a.o) } } else if k == 1 { C { ax: None, r: meth!(o.$w;) } }
    else if k < 2 + nd { C { ax: Some(k - 2), r: call!(np::$f; $a.o, int((k - 2) as i64)) } }
    else if k < 2 + 2 * nd { let ax = k - 2 - nd; C { ax: Some(ax), r: meth!(o.$w; int(ax as i64 - nd as i64)) } }
    else { let ax = k - 2 - 2 * nd; C { ax: Some(ax), r: call!(np::$f; $a.o; axis = int(ax as i64 - nd as i64)) } }
} } }
/// for every element of the result: the lane of source addresses it accumulates
fn runs(c: C, a: &A, dt: &str, id: u32) -> Vec<(Vec<usize>, u64)> {
    let r = arr_of(c.r, id); check(r.dt == dt, id + 1); if r.dt != dt { stop() } let mut out = vec![];
    match c.ax {
        None => { let n = a.size(); check(r.has_shape(&[n]), id + 2); if !r.has_shape(&[n]) { stop() } let mut l = vec![]; for (k, i) in a.idx().iter().enumerate() { l.push(a.addr(i)); out.push((l.clone(), r.bits(&[k]))); } }
        Some(x) => { check(r.has_shape(&a.shape), id + 3); if !r.has_shape(&a.shape) { stop() } for i in a.idx() { let mut l = vec![]; for j in 0..=i[x] { let mut q = i.clone(); q[x] = j; l.push(a.addr(&q)); } out.push((l, r.bits(&i))); } }
    }
    out
}
fn lay(dts: &[&'static str]) -> A { let d = dts[choose(dts.len())]; layout(d, SH[choose(SH.len())], choose(NLAYOUT)) }
fn cumsum_int() { let a = lay(IB); let c = cum!(a, cumsum, __w_cumsum); for (l, b) in runs(c, &a, wide(a.dt), 10) { let mut s = 0i64; for p in l { s = s.wrapping_add(int_at(p, a.dt)); } check(b == s as u64, 15); } }
fn cumprod_int() {
    const P: [i64; 8] = [3, 5, 7, 11, 13, 17, 19, 23]; let d = IB[choose(9)]; let a = layout(d, SH[choose(SH.len())], choose(NLAYOUT)); let s = choose(a.size().max(1)); for (k, i) in a.idx().iter().enumerate() { if d != "bool" && k != s { put_i(a.addr(i), d, P[k]) } }
    let c = cum!(a, cumprod, __w_cumprod); for (l, b) in runs(c, &a, wide(d), 20) { let mut s = 1i64; for p in l { s = s.wrapping_mul(int_at(p, d)); } check(b == s as u64, 25); }
}
/// longer lanes
fn cum_long() {
    let d = ["int64", "uint8", "int32"][choose(3)]; let n = [7usize, 8, 9, 17, 33][choose(5)]; let a = layout(d, &[vec![n], vec![2, n], vec![n, 2]][choose(3)], choose(NLAYOUT)); let ax = a.shape.iter().position(|s| *s == n).unwrap(); let x = int(ax as i64);
    let flat = choose(2) == 0; let r = if flat { call!(np::cumsum; a.o) } else { call!(np::cumsum; a.o, x) };
    for (l, b) in runs(C { ax: if flat { None } else { Some(ax) }, r }, &a, wide(d), 30) { let mut s = 0i64; for p in l { s = s.wrapping_add(int_at(p, d)); } check(b == s as u64, 35); }
}
const FV: [f64; 6] = [1.5, -2.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.5];
/// floats: sequential accumulation of exactly representable values, infinities and NaN
fn cum_float() {
    let d = ["float64", "float32"][choose(2)]; let a = layout(d, SH[choose(5)], choose(NLAYOUT)); let n = a.size(); for (k, i) in a.idx().iter().enumerate() { put_f(a.addr(i), d, [2.0, -0.5, 4.0, 1.0][k % 4]); }
    let i = unflat(choose(n), &a.shape); put_f(a.addr(&i), d, FV[choose(6)]); let which = choose(4);
    let c = match which { 0 => cum!(a, cumsum, __w_cumsum), 1 => cum!(a, cumprod, __w_cumprod), k => { let nd = a.ndim(); let ax = if choose(2) == 0 { None } else { Some(choose(nd)) }; let x = match ax { Some(v) => int(v as i64), None => none() }; C { ax, r: if k == 2 { call!(np::nancumsum; a.o, x) } else { call!(np::nancumprod; a.o, x) } } } };
    for (l, b) in runs(c, &a, d, 40) { let mut s = if which & 1 == 0 { 0.0 } else { 1.0 }; for p in l { let v = f_at(p, d); if which >= 2 && v != v { continue } if which & 1 == 0 { s += v } else { s *= v } } let g = if d == "float32" { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) }; check(same_f(g, s), 45); }
}
/// cumulative_sum / cumulative_prod with include_initial
fn cumulative() {
    let d = ["int64", "uint8", "bool", "int16"][choose(4)]; let a = layout(d, SH[choose(5)], choose(NLAYOUT)); let p = choose(2) == 1; if p && d != "bool" { for (k, i) in a.idx().iter().enumerate() { if k % 3 != 1 { put_i(a.addr(i), d, [3, 5, 7, 11][k % 4]) } } }
    let nd = a.ndim(); let ax = choose(nd); let neg = choose(2) == 0; let x = int(if neg { ax as i64 - nd as i64 } else { ax as i64 }); let inc = choose(2) == 1; let ib = boo(inc);
    let r = arr_of(if p { call!(np::cumulative_prod; a.o; axis = x, include_initial = ib) } else { call!(np::cumulative_sum; a.o; axis = x, include_initial = ib) }, 50); check(r.dt == wide(d), 51); if r.dt != wide(d) { stop() }
    let mut sh = a.shape.clone(); sh[ax] += inc as usize; check(r.has_shape(&sh), 52); if !r.has_shape(&sh) { stop() }
    for i in r.idx() { let mut s = p as i64; for j in 0..i[ax] + !inc as usize { let mut q = i.clone(); q[ax] = j; let v = a.i(&q); s = if p { s.wrapping_mul(v) } else { s.wrapping_add(v) }; } check(r.i(&i) == s, 53); }
}
/// n-th differences in the array's own dtype (wrapping), lanes shorter than n give an empty axis
fn diff_int() {
    let d = INTS[choose(8)]; let a = layout(d, [&[4usize] as &[usize], &[2, 3], &[3, 2], &[2, 2, 2], &[1], &[0]][choose(6)], choose(NLAYOUT)); let nd = a.ndim(); let ax = choose(nd); let n = choose(4); let neg = choose(2) == 0; let x = int(if neg { ax as i64 - nd as i64 } else { ax as i64 }); let nn = int(n as i64);
    let r = arr_of(if ax + 1 == nd && neg { call!(np::diff; a.o, nn) } else { call!(np::diff; a.o, nn, x) }, 60); check(r.dt == d, 61); if r.dt != d { stop() }
    let mut sh = a.shape.clone(); sh[ax] = sh[ax].saturating_sub(n); check(r.has_shape(&sh), 62); if !r.has_shape(&sh) { stop() }
    const B: [&[i64]; 4] = [&[1], &[-1, 1], &[1, -2, 1], &[-1, 3, -3, 1]];
    for i in r.idx() { let mut s = 0i64; for (j, c) in B[n].iter().enumerate() { let mut q = i.clone(); q[ax] += j; s = s.wrapping_add(c.wrapping_mul(a.i(&q))); } check(r.bits(&i) == s as u64 & mask(d), 63); }
}
fn diff_float() { let a = layout("float64", &[3], choose(NLAYOUT)); let r = arr_of(call!(np::diff; a.o), 65); check(r.dt == "float64" && r.has_shape(&[2]), 66); if !r.has_shape(&[2]) { stop() } for k in 0..2 { check(same_f(r.f(&[k]), a.f(&[k + 1]) - a.f(&[k])), 67); } }
/// ediff1d: flattened differences between to_begin and to_end
fn ediff1d() {
    let d = INTS[choose(8)]; let a = layout(d, [&[3usize] as &[usize], &[2, 2], &[1], &[0]][choose(4)], choose(NLAYOUT)); let (e, b) = (sym(d, &[2]), sym(d, &[1])); let k = choose(4);
    let r = arr_of(match k { 0 => call!(np::ediff1d; a.o), 1 => call!(np::ediff1d; a.o, e.o), 2 => call!(np::ediff1d; a.o; to_begin = b.o), _ => call!(np::ediff1d; a.o; to_end = e.o, to_begin = b.o) }, 70);
    let v = a.flat_i(); let mut w: Vec<u64> = vec![]; if k >= 2 { w.push(b.bits(&[0])) } for j in 1..v.len() { w.push(v[j].wrapping_sub(v[j - 1]) as u64 & mask(d)) } if k & 1 == 1 { w.extend(e.flat_bits()) }
    check(r.dt == d && r.has_shape(&[w.len()]), 71); if r.dt != d || !r.has_shape(&[w.len()]) { stop() } for j in 0..w.len() { check(r.bits(&[j]) == w[j], 72); }
}
/// the part of the full convolution a mode keeps: (start, length)
fn window(n: usize, m: usize, mode: &str) -> (usize, usize) { let (big, small) = (n.max(m), n.min(m)); match mode { "full" => (0, n + m - 1), "same" => ((small - 1) / 2, big), _ => (small - 1, big - small + 1) } }
const MODES: [&str; 3] = ["full", "same", "valid"];
/// integer convolution is exact modulo 2^width, in any layout
fn convolve() {
    let (n, m) = [(1usize, 1usize), (4, 2), (2, 4), (3, 3), (5, 1), (1, 3), (4, 3)][choose(7)]; let d = INTS[choose(8)]; let a = layout(d, &[n], choose(NLAYOUT)); let v = layout(d, &[m], [0, 2, 3][choose(3)]); for k in 0..m { put_i(v.addr(&[k]), d, [3, -2, 7, 5][k]) } let c = choose(4);
    let mode = if c == 3 { "full" } else { MODES[c] }; let ms = st(mode); let r = arr_of(if c == 3 { call!(np::convolve; a.o, v.o) } else { call!(np::convolve; a.o, v.o, ms) }, 80);
    let (s, l) = window(n, m, mode); check(r.dt == d && r.has_shape(&[l]), 81); if r.dt != d || !r.has_shape(&[l]) { stop() }
    for k in 0..l { let mut t = 0i64; for j in 0..n { if s + k >= j && s + k - j < m { t = t.wrapping_add(a.i(&[j]).wrapping_mul(v.i(&[s + k - j]))); } } check(r.bits(&[k]) == t as u64 & mask(d), 82); }
}
/// correlate(a, v)[k] = sum a[k + j - (m-1)] v[j], with an explicit mode
fn correlate() {
    let (n, m) = [(1usize, 1usize), (4, 2), (3, 3), (5, 1), (4, 3), (2, 4), (1, 3)][choose(7)]; let d = ["int8", "int64", "uint16", "uint64"][choose(4)]; let a = layout(d, &[n], choose(NLAYOUT)); let v = layout(d, &[m], [0, 2, 3][choose(3)]); for k in 0..m { put_i(v.addr(&[k]), d, [3, -2, 7, 5][k]) }
    let mode = MODES[choose(3)]; let ms = st(mode); let r = arr_of(call!(np::correlate; a.o, v.o, ms), 85); let (big, small) = (n.max(m), n.min(m)); 
    // NumPy computes the longer-with-shorter correlation and reverses it when v is the longer one
    let (s, l) = if n >= m { match mode { "full" => (0, n + m - 1), "same" => ((small - 1) / 2, big), _ => (small - 1, n - m + 1) } } else { match mode { "full" => (0, n + m - 1), "same" => { let st = (small - 1) / 2; (n + m - 1 - st - big, big) } _ => (small - 1, m - n + 1) } };
    check(r.dt == d && r.has_shape(&[l]), 86); if r.dt != d || !r.has_shape(&[l]) { stop() }
    for k in 0..l { let mut t = 0i64; for j in 0..m { let p = (s + k + j) as i64 - (m as i64 - 1); if p >= 0 && p < n as i64 { t = t.wrapping_add(a.i(&[p as usize]).wrapping_mul(v.i(&[j]))); } } check(r.bits(&[k]) == t as u64 & mask(d), 87); }
}
fn convolve_err() { let (a, e) = (sym("int32", &[3]), zeros("int32", &[0])); let b = sym("int32", &[2, 2]); let ms = st("bogus"); let r = match choose(6) { 0 => call!(np::convolve; a.o, e), 1 => call!(np::convolve; e, a.o), 2 => call!(np::convolve; a.o, a.o, ms), 3 => call!(np::convolve; b.o, a.o), 4 => call!(np::correlate; a.o, a.o, ms), _ => call!(np::correlate; a.o, b.o) }; must_kind(r, Kind::Value, 90); }
/// gradient with unit or given spacing along any axis: central differences, one-sided at the ends
fn gradient() {
    let d = ["float64", "int16", "uint8", "int64", "float32"][choose(5)]; let a = layout(d, [&[4usize] as &[usize], &[2, 3], &[3, 2], &[2], &[5]][choose(5)], choose(NLAYOUT)); for (k, i) in a.idx().iter().enumerate() { put_i(a.addr(i), d, [200, 3, 41, 90, 7, 100][k]); }
    if d == "uint8" || d == "int16" { let i = unflat(choose(a.size()), &a.shape); sym_at(a.addr(&i), d); }
    let nd = a.ndim(); let h = [1.0f64, 2.0, 0.25][choose(3)]; let hs = flt(h); let one = choose(nd + 1);
    let res = if one < nd { let x = int(if choose(2) == 0 { one as i64 } else { one as i64 - nd as i64 }); call!(np::gradient; a.o, hs; axis = x) } else if h == 1.0 { call!(np::gradient; a.o) } else { call!(np::gradient; a.o, hs) };
    let o = must(res, 100); let parts: Vec<(usize, Obj)> = if one < nd { vec![(one, o)] } else if nd == 1 { vec![(0, if is_nd(&o) { o } else { let v = items(&o); check(v.len() == 1, 101); v[0].clone() })] } else { let v = items(&o); check(v.len() == nd, 102); if v.len() != nd { stop() } v.into_iter().enumerate().collect() };
    for (ax, o) in parts { let r = match A::try_of(&o) { Some(r) => r, None => { check(false, 103); stop() } }; check(is_float(r.dt) && r.has_shape(&a.shape), 104); if !r.has_shape(&a.shape) { stop() } let n = a.shape[ax];
        for i in a.idx() { let at = |j: usize| { let mut q = i.clone(); q[ax] = j; a.f(&q) }; let k = i[ax]; let e = if k == 0 { (at(1) - at(0)) / h } else if k == n - 1 { (at(n - 1) - at(n - 2)) / h } else { (at(k + 1) - at(k - 1)) / (2.0 * h) }; check(r.f(&i) == e, 105); } }
}
fn gradient_err() { let a = sym("float64", &[2, 3]); let ax: i64 = any(); assume(ax < -2 || ax >= 2); let x = int(ax); let s = sym("float64", &[1]); let r = match choose(2) { 0 => call!(np::gradient; a.o; axis = x), _ => call!(np::gradient; s.o) }; must_kind(r, Kind::Value, 110); }
/// trapezoid along any axis, with dx or sample points (values on which every rounding is exact)
fn trapezoid() {
    let d = ["float64", "int16", "uint8", "int64"][choose(4)]; let a = layout(d, [&[4usize] as &[usize], &[2, 3], &[3, 2], &[1], &[2, 2, 2]][choose(5)], choose(NLAYOUT)); for (k, i) in a.idx().iter().enumerate() { put_i(a.addr(i), d, [200, 3, 41, 90, 7, 100, 0, 12][k]); }
    let nd = a.ndim(); let ax = choose(nd); let n = a.shape[ax]; let x = int(if choose(2) == 0 { ax as i64 } else { ax as i64 - nd as i64 }); let c = choose(3); let xs = A::of(&zeros("float64", &[n])); const X: [f64; 4] = [0.0, 1.0, 3.0, 3.5]; for k in 0..n { put_f(xs.addr(&[k]), "float64", X[k]); } let dx = flt(0.5);
    let r = arr_of(match c { 0 => call!(np::trapezoid; a.o; axis = x), 1 => call!(np::trapezoid; a.o; dx = dx, axis = x), _ => call!(np::trapezoid; a.o, xs.o; axis = x) }, 120); check(r.dt == "float64", 121); if r.dt != "float64" { stop() }
    let mut osh = a.shape.clone(); osh.remove(ax); let want = if osh.is_empty() { vec![1] } else { osh.clone() }; check(r.has_shape(&want), 122); if !r.has_shape(&want) { stop() }
    for (i, o) in indices(&osh).iter().zip(r.flat_f()) { let at = |j: usize| { let mut q = i.clone(); q.insert(ax, j); a.f(&q) }; let mut s = 0.0; for j in 1..n { s += (at(j) + at(j - 1)) * 0.5 * match c { 0 => 1.0, 1 => 0.5, _ => X[j] - X[j - 1] }; } check(o == s, 123); }
}
/// interp: exact at the sample points, linear between, ends held (or left/right), NaN stays NaN
fn interp() {
    const XP: [f64; 4] = [0.0, 1.0, 3.0, 4.0]; let n = 1 + choose(4); let xp = layout("float64", &[n], [0, 2, 3][choose(3)]); let fp = layout("float64", &[n], [0, 2, 3][choose(3)]); const FP: [f64; 4] = [10.0, -2.0, 6.0, 6.0]; for k in 0..n { put_f(xp.addr(&[k]), "float64", XP[k]); put_f(fp.addr(&[k]), "float64", FP[k]); }
    const Q: [f64; 12] = [0.0, 1.0, 3.0, 4.0, 0.5, 2.5, 3.25, -0.0, -7.0, 9.0, f64::NAN, f64::INFINITY]; let x = layout("float64", &[2, 2], choose(NLAYOUT)); let q = choose(12); for (k, i) in x.idx().iter().enumerate() { put_f(x.addr(i), "float64", Q[(q + k * 5) % 12]); }
    let lr = choose(3); let (l, r) = (flt(-99.0), flt(77.0)); let res = arr_of(match lr { 0 => call!(np::interp; x.o, xp.o, fp.o), 1 => call!(np::interp; x.o, xp.o, fp.o; left = l), _ => call!(np::interp; x.o, xp.o, fp.o; left = l, right = r) }, 130); check(res.dt == "float64" && res.has_shape(&[2, 2]), 131); if !res.has_shape(&[2, 2]) { stop() }
    for i in x.idx() { let v = x.f(&i); let e = if v != v { v } else if v < XP[0] { if lr > 0 { -99.0 } else { FP[0] } } else if v > XP[n - 1] { if lr > 1 { 77.0 } else { FP[n - 1] } } else { let mut e = FP[n - 1]; for k in (0..n - 1).rev() { if v < XP[k + 1] { e = FP[k] + (FP[k + 1] - FP[k]) / (XP[k + 1] - XP[k]) * (v - XP[k]); } } e }; check(same_f(res.f(&i), e), 132); }
}
fn interp_err() { let (a, b, e) = (sym("float64", &[2]), sym("float64", &[3]), zeros("float64", &[0])); let r = match choose(2) { 0 => call!(np::interp; a.o, a.o, b.o), _ => call!(np::interp; a.o, e, e) }; must_kind(r, Kind::Value, 135); }
fn axis_err() {
    let a = A::of(&zeros("int32", &[2, 3])); let ax: i64 = any(); assume(ax < -2 || ax >= 2); let o = a.o.clone(); let x = int(ax); let one = int(1);
    let r = match choose(10) { 0 => call!(np::cumsum; a.o, x), 1 => call!(np::cumprod; a.o, x), 2 => call!(np::nancumsum; a.o, x), 3 => call!(np::nancumprod; a.o, x), 4 => meth!(o.__w_cumsum; x), 5 => meth!(o.__w_cumprod; x), 6 => call!(np::cumulative_sum; a.o; axis = x), 7 => call!(np::cumulative_prod; a.o; axis = x), 8 => call!(np::diff; a.o, one, x), _ => call!(np::trapezoid; a.o; axis = x) };
    must_kind(r, Kind::Value, 140);
}
pub const H: &[(&str, fn())] = &[("cumsum_int", cumsum_int), ("cumprod_int", cumprod_int), ("cum_long", cum_long), ("cum_float", cum_float), ("cumulative", cumulative), ("diff_int", diff_int), ("diff_float", diff_float), ("ediff1d", ediff1d), ("convolve", convolve), ("correlate", correlate), ("convolve_err", convolve_err), ("gradient", gradient), ("gradient_err", gradient_err), ("trapezoid", trapezoid), ("interp", interp), ("interp_err", interp_err), ("axis_err", axis_err)];
