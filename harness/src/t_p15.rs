//! P15: counting and binning: bincount, histogram, histogram_bin_edges, histogram2d, histogramdd, digitize.
use crate::sx::*; use crate::util::*; use pyo3::{PyResult, Val};

fn count() {
    let d = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"][choose(9)]; let n = choose(4); let a = layout(d, &[n], [0, 2, 3][choose(3)]); let mut v = vec![]; for k in 0..n { let x = a.bits(&[k]); assume(x < if d == "bool" { 2 } else { 4 }); let x = fork(x); put_i(a.addr(&[k]), d, x as i64); v.push(x as usize); }
    let ml = [None, Some(0), Some(2), Some(6)][choose(4)]; let r = arr_of(match ml { None => call!(np::bincount; a.o), Some(m) => call!(np::bincount; a.o; minlength = int(m)) }, 10); let top = v.iter().map(|x| x + 1).max().unwrap_or(0); let len = top.max(ml.unwrap_or(0) as usize);
    check(r.dt == "int64", 11); check(r.has_shape(&[len]), 12); if !r.has_shape(&[len]) { stop() } for k in 0..len { let e = v.iter().filter(|x| **x == k).count() as u64; check(r.bits(&[k]) == e, 13); }
}
fn count_err() { let c = choose(4); let r = match c { 0 => { let d = ["int8", "int16", "int32", "int64"][choose(4)]; let a = layout(d, &[3], [0, 2][choose(2)]); put_i(a.addr(&[0]), d, 1); put_i(a.addr(&[2]), d, 2); assume(a.i(&[1]) < 0); call!(np::bincount; a.o) } 1 => { let a = sym("int32", &[2, 2]); call!(np::bincount; a.o) } 2 => { let a = sym(["float64", "float32"][choose(2)], &[2]); call!(np::bincount; a.o) } _ => { let a = filled_i("int32", &[2], |k| k as i64); let m: i64 = any(); assume(m < 0); let m = int(m); call!(np::bincount; a.o; minlength = m) } }; must_err(r, 20); }
fn bin_of(v: f64, e: &[f64], k: usize) -> bool { let last = k + 2 == e.len(); (v >= e[k]) & if last { v <= e[k + 1] } else { v < e[k + 1] } }
fn pair(r: PyResult<Obj>, id: u32) -> (A, A) { let o = must(r, id); let v = items(&o); check(v.len() == 2, id); if v.len() != 2 { stop() } match (A::try_of(&v[0]), A::try_of(&v[1])) { (Some(a), Some(b)) => (a, b), _ => { check(false, id); stop() } } }
/// counts against the returned edges; edges equally spaced from lo to hi
fn hist_chk(a: &A, c: &A, e: &A, bins: usize, lo: f64, hi: f64, id: u32) {
    check(c.dt == "int64" && c.has_shape(&[bins]), id + 1); check(e.dt == "float64" && e.has_shape(&[bins + 1]), id + 2); if !c.has_shape(&[bins]) || !e.has_shape(&[bins + 1]) { stop() } let ed = e.flat_f();
    for k in 0..=bins { let w = lo + (hi - lo) * k as f64 / bins as f64; check((ed[k] - w).abs() <= 1e-12 * (hi - lo + lo.abs() + 1.0), id + 3); } check(ed[0] == lo && ed[bins] == hi, id + 4);
    let v = a.flat_f(); for k in 0..bins { let mut n = 0u64; for x in &v { n += bin_of(*x, &ed, k) as u64; } check(c.bits(&[k]) == n, id + 5); }
}
const R: &[(f64, f64, usize)] = &[(0.0, 4.0, 4), (-1.0, 2.0, 3), (0.0, 0.7, 7), (5.0, 6.0, 1), (2.0, 2.0, 2)];
/// explicit range, arbitrary elements
fn hist_range() {
    let d = ["float64", "int8", "uint8", "float32"][choose(4)]; let a = layout(d, &[2], [0, 2, 3][choose(3)]); if is_float(d) { put_f(a.addr(&[1]), d, [0.3, f64::NAN, 4.0, f64::INFINITY][choose(4)]) } else { put_i(a.addr(&[1]), d, [0, 2, 4, 5][choose(4)]) } let (lo, hi, b) = R[choose(R.len())]; if d != "float64" && b > 4 { stop() }
    let rg = tup(vec![flt(lo), flt(hi)]); let (c, e) = pair(call!(np::histogram; a.o; bins = int(b as i64), range = rg), 30); let (l, h) = if lo == hi { (lo - 0.5, hi + 0.5) } else { (lo, hi) }; hist_chk(&a, &c, &e, b, l, h, 30);
}
/// range taken from the data, every shape and layout
fn hist_data() {
    let d = ["float64", "int16", "uint8", "bool"][choose(4)]; let a = layout(d, [&[4usize] as &[usize], &[2, 3], &[1], &[2, 1, 2]][choose(4)], choose(NLAYOUT)); let c0 = choose(3); for (k, i) in a.idx().iter().enumerate() { let v = [[3, 7, 7, 1, 0, 5], [2, 2, 2, 2, 2, 2], [9, 0, 4, 8, 8, 0]][c0][k]; put_i(a.addr(i), d, if d == "bool" { v & 1 } else { v }) } let b = [None, Some(1usize), Some(3), Some(4)][choose(4)];
    let w = a.flat_f(); let (mut lo, mut hi) = (w[0], w[0]); for x in &w { if *x < lo { lo = *x } if *x > hi { hi = *x } } if lo == hi { lo -= 0.5; hi += 0.5 }
    let n = b.unwrap_or(10); let (c, e) = pair(match b { None => call!(np::histogram; a.o), Some(b) => call!(np::histogram; a.o, int(b as i64)) }, 40); hist_chk(&a, &c, &e, n, lo, hi, 40);
    let e2 = arr_of(match b { None => call!(np::histogram_bin_edges; a.o), Some(b) => call!(np::histogram_bin_edges; a.o, int(b as i64)) }, 46); check(e2.has_shape(&e.shape) && e2.dt == "float64", 47); if e2.has_shape(&e.shape) { for k in 0..=n { check(e2.f(&[k]) == e.f(&[k]), 48) } }
    let (mut s, t) = (0, w.len() as u64); for k in 0..n { s += c.bits(&[k]); } check(s == t, 49);
}
fn hist_err() { let a = sym("float64", &[2]); put_f(a.addr(&[0]), "float64", 1.0); put_f(a.addr(&[1]), "float64", 2.0); let c = choose(5); let r = match c { 0 => call!(np::histogram; a.o, int(0)), 1 => { let n: i64 = any(); assume(n < 0); let n = int(n); call!(np::histogram; a.o, n) } 2 => { let (p, q): (f64, f64) = (any(), 1.0); assume(p > q); let rg = tup(vec![flt(p), flt(q)]); call!(np::histogram; a.o; range = rg) } 3 => { put_f(a.addr(&[0]), "float64", [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][choose(3)]); call!(np::histogram; a.o) } _ => { let rg = tup(vec![flt(0.0), flt(f64::INFINITY)]); call!(np::histogram; a.o; range = rg) } }; must_err(r, 50); }
/// joint counts
fn hist2() {
    let n = 4; let d = ["float64", "int32"][choose(2)]; let (x, y) = (layout(d, &[n], [0, 2, 3][choose(3)]), layout(d, &[n], [0, 2][choose(2)])); for k in 0..n { put_i(x.addr(&[k]), d, [0, 4, 2, 1][k]); put_i(y.addr(&[k]), d, [3, 0, 3, 5][k]); } let c0 = choose(2); if c0 == 1 { let (p, q) = (fork(choose(6) as u64), choose(6)); put_i(x.addr(&[1]), d, p as i64); put_i(y.addr(&[1]), d, q as i64); }
    let (bx, by) = [(2usize, 3usize), (4, 4), (1, 2)][choose(3)]; let rng = choose(2) == 1; let b = lst(vec![int(bx as i64), int(by as i64)]); let rg = lst(vec![lst(vec![flt(0.0), flt(4.0)]), lst(vec![flt(1.0), flt(4.0)])]); let o = must(if rng { call!(np::histogram2d; x.o, y.o; bins = b, range = rg) } else { call!(np::histogram2d; x.o, y.o; bins = b) }, 60); let t: Vec<A> = items(&o).iter().filter_map(|z| A::try_of(z)).collect(); check(t.len() == 3, 61); if t.len() != 3 { stop() }
    check(t[0].has_shape(&[bx, by]) && t[1].has_shape(&[bx + 1]) && t[2].has_shape(&[by + 1]), 62); if !t[0].has_shape(&[bx, by]) { stop() } let (ex, ey) = (t[1].flat_f(), t[2].flat_f()); for (e, w, r) in [(&ex, x.flat_f(), (0.0, 4.0)), (&ey, y.flat_f(), (1.0, 4.0))] { let (mut lo, mut hi) = r; if !rng { lo = w[0]; hi = w[0]; for z in &w { if *z < lo { lo = *z } if *z > hi { hi = *z } } if lo == hi { lo -= 0.5; hi += 0.5 } } check(e[0] == lo && e[e.len() - 1] == hi, 63); for k in 0..e.len() { check((e[k] - (lo + (hi - lo) * k as f64 / (e.len() - 1) as f64)).abs() < 1e-12, 63) } }
    for i in 0..bx { for j in 0..by { let mut c = 0; for k in 0..n { c += (bin_of(x.f(&[k]), &ex, i) & bin_of(y.f(&[k]), &ey, j)) as u64; } check(t[0].f(&[i, j]) == c as f64, 64); } }
}
fn hist_dd() {
    let d = ["float64", "int32"][choose(2)]; let s = layout(d, &[4, 2], choose(NLAYOUT)); for (k, i) in s.idx().iter().enumerate() { put_i(s.addr(i), d, [0, 3, 4, 0, 2, 3, 1, 5][k]) } let (bx, by) = [(2usize, 3usize), (4, 4), (3, 1)][choose(3)]; let b = if bx == by { int(4) } else { lst(vec![int(bx as i64), int(by as i64)]) }; let rng = choose(2) == 1; let rg = lst(vec![lst(vec![flt(0.0), flt(4.0)]), lst(vec![flt(1.0), flt(4.0)])]);
    let o = must(if rng { call!(np::histogramdd; s.o; bins = b, range = rg) } else { call!(np::histogramdd; s.o; bins = b) }, 70); let v = items(&o); check(v.len() == 2, 71); if v.len() != 2 { stop() } let h = match A::try_of(&v[0]) { Some(h) => h, None => { check(false, 71); stop() } }; let e: Vec<Vec<f64>> = items(&v[1]).iter().filter_map(|z| A::try_of(z)).map(|a| a.flat_f()).collect(); check(e.len() == 2 && h.has_shape(&[bx, by]), 72); if e.len() != 2 || !h.has_shape(&[bx, by]) { stop() } check(e[0].len() == bx + 1 && e[1].len() == by + 1, 73);
    check(e[0][0] == 0.0 && e[0][bx] == 4.0, 74); check(e[1][0] == if rng { 1.0 } else { 0.0 } && e[1][by] == if rng { 4.0 } else { 5.0 }, 75); for i in 0..bx { for j in 0..by { let mut c = 0; for k in 0..4 { c += (bin_of(s.f(&[k, 0]), &e[0], i) & bin_of(s.f(&[k, 1]), &e[1], j)) as u64; } check(h.f(&[i, j]) == c as f64, 76); } }
}
/// density: counts divided by the number of counted samples and the area of a bin
fn hist_density() {
    let n = 3; let (x, y) = (layout("float64", &[n], [0, 2][choose(2)]), layout("float64", &[n], [0, 3][choose(2)])); for k in 0..n { put_i(x.addr(&[k]), "float64", [0, 3, 1][k]); put_i(y.addr(&[k]), "float64", [1, 2, 4][k]); } put_i(x.addr(&[1]), "float64", fork(choose(7) as u64) as i64 - 1); put_i(y.addr(&[2]), "float64", fork(choose(6) as u64) as i64);
    let (bx, by) = [(2usize, 3usize), (1, 2)][choose(2)]; let rng = choose(2) == 1; let b = lst(vec![int(bx as i64), int(by as i64)]); let rg = lst(vec![lst(vec![flt(0.0), flt(4.0)]), lst(vec![flt(1.0), flt(4.0)])]); let kw = |d: bool| -> Vec<(&'static str, Obj)> { let mut k = vec![("bins", b.clone()), ("density", boo(d))]; if rng { k.push(("range", rg.clone())); } k };
    let dd = choose(2) == 1; let run = |d: bool, id: u32| -> (A, Vec<f64>, Vec<f64>) { if dd { let s = sym("float64", &[n, 2]); for k in 0..n { put_f(s.addr(&[k, 0]), "float64", x.f(&[k])); put_f(s.addr(&[k, 1]), "float64", y.f(&[k])); } let o = must(np::histogramdd(&pyo3::Args::new(vec![s.o.clone()], kw(d))), id); let v = items(&o); let e = items(&v[1]); (A::of(&v[0]), A::of(&e[0]).flat_f(), A::of(&e[1]).flat_f()) } else { let o = must(np::histogram2d(&pyo3::Args::new(vec![x.o.clone(), y.o.clone()], kw(d))), id); let v = items(&o); (A::of(&v[0]), A::of(&v[1]).flat_f(), A::of(&v[2]).flat_f()) } };
    let (c, ..) = run(false, 170); let (r, ex, ey) = run(true, 171); check(c.has_shape(&[bx, by]) && r.has_shape(&[bx, by]) && r.dt == "float64", 172); if !r.has_shape(&[bx, by]) || !c.has_shape(&[bx, by]) { stop() }
    let area = (ex[1] - ex[0]) * (ey[1] - ey[0]); let mut t = 0.0; for ix in c.idx() { t += c.f(&ix); } if t == 0.0 { stop() } for ix in c.idx() { check((r.f(&ix) * (t * area) - c.f(&ix)).abs() < 1e-9, 173); }
}
/// digitize: number of bin edges at or below (right: below) the value; mirrored for decreasing bins
fn dig_of(x: &A, b: &A, dec: bool, right: bool, id: u32) {
    let ct = promo(x.dt, b.dt); let r = arr_of(if right { call!(np::digitize; x.o, b.o; right = boo(true)) } else { call!(np::digitize; x.o, b.o) }, id); check(r.dt == "int64" && r.has_shape(&x.shape), id + 1); if !r.has_shape(&x.shape) { stop() }
    for i in x.idx() { with!(ct, T => { let v = T::ld(x.addr(&i), x.dt); let mut n = 0u64; for k in 0..b.size() { let e = T::ld(b.addr(&[k]), b.dt); n += (match (dec, right) { (false, false) => T::cmpo(Op::Le, e, v), (false, true) => T::cmpo(Op::Lt, e, v), (true, false) => T::cmpo(Op::Gt, e, v), _ => T::cmpo(Op::Ge, e, v) }) as u64; } check(r.bits(&i) == n, id + 2); }) }
}
fn dig_int() { let d = INTS[choose(8)]; let x = layout(d, &[1], 0); let n = choose(4); let b = layout(d, &[n], [0, 2, 3][choose(3)]); let dec = n > 0 && choose(2) == 1; let c = choose(2); for k in 0..n { put_i(b.addr(&[if dec { n - 1 - k } else { k }]), d, [[2, 7, 7], [10, 50, 100]][c][k]) } if n == 3 { sym_at(b.addr(&[1]), d); with!(d, T => { let e = |k: usize| T::ld(b.addr(&[k]), d); assume(if dec { T::cmpo(Op::Ge, e(0), e(1)) & T::cmpo(Op::Ge, e(1), e(2)) } else { T::cmpo(Op::Le, e(0), e(1)) & T::cmpo(Op::Le, e(1), e(2)) }) }) } let mut flat = true; for k in 1..n { flat &= b.bits(&[k]) == b.bits(&[0]); } if dec && flat { stop() } dig_of(&x, &b, dec, choose(2) == 1, 80) }
fn dig_shape() { let d = ["int64", "uint8"][choose(2)]; let x = layout(d, [&[2usize, 2] as &[usize], &[0], &[1, 3], &[2, 1, 2]][choose(4)], choose(NLAYOUT)); for (k, i) in x.idx().iter().enumerate() { if k > 0 { put_i(x.addr(i), d, [0, 7, 40, 100][k]) } } let dec = choose(2) == 1; let b = layout(d, &[3], [0, 2, 3][choose(3)]); for k in 0..3 { put_i(b.addr(&[if dec { 2 - k } else { k }]), d, [7, 20, 40][k]) } dig_of(&x, &b, dec, choose(2) == 1, 85) }
fn dig_float() { let d = ["float64", "float32"][choose(2)]; let x = sym(d, &[1]); let v = x.f(&[0]); assume(v == v); let dec = choose(2) == 1; let b = layout(d, &[3], [0, 2, 3][choose(3)]); for k in 0..3 { put_f(b.addr(&[if dec { 2 - k } else { k }]), d, [-1.5, 2.0, 2.0][k]) } dig_of(&x, &b, dec, choose(2) == 1, 90) }
fn dig_mixed() { let (d, e) = [("int8", "int64"), ("uint8", "int16"), ("int32", "uint16")][choose(3)]; let x = sym(d, &[1]); let b = filled_i(e, &[3], |k| [2, 50, 300][k]); dig_of(&x, &b, false, choose(2) == 1, 95) }
fn dig_err() { let x = sym("int32", &[2]); let c = choose(2); let r = if c == 0 { let b = sym("int32", &[3]); let (p, q, s) = (b.i(&[0]), b.i(&[1]), b.i(&[2])); assume(((p < q) & (q > s)) | ((p > q) & (q < s))); call!(np::digitize; x.o, b.o) } else { let b = filled_i("int32", &[2, 2], |k| k as i64); call!(np::digitize; x.o, b.o) }; must_kind(r, Kind::Value, 99); }
pub const H: &[(&str, fn())] = &[("count", count), ("count_err", count_err), ("hist_range", hist_range), ("hist_data", hist_data), ("hist_err", hist_err), ("hist2", hist2), ("hist_dd", hist_dd), ("hist_density", hist_density), ("dig_int", dig_int), ("dig_shape", dig_shape), ("dig_float", dig_float), ("dig_mixed", dig_mixed), ("dig_err", dig_err)];
