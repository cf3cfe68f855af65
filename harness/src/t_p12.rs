//! P12: unique (and the Array API unique_* functions), isin, in1d, intersect1d, union1d, setdiff1d, setxor1d.
use crate::sx::*; use crate::util::*; use pyo3::Val;

fn eq<T: Num>(a: T, b: T) -> bool { T::cmpo(Op::Eq, a, b) }
fn lt<T: Num>(a: T, b: T) -> bool { T::cmpo(Op::Lt, a, b) | (b.nan() & !a.nan()) }
const IB: &[&str] = &["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"];
fn mk_d() -> A { let d = IB[choose(9)]; layout(d, &[3], [0, 2, 3][choose(3)]) }
fn mk_s() -> A { let d = ["int64", "uint8"][choose(2)]; let a = layout(d, [&[2usize, 2] as &[usize], &[2, 1, 2], &[1, 3], &[0], &[2, 0], &[1]][choose(6)], choose(NLAYOUT)); for (k, i) in a.idx().iter().enumerate() { if k == 2 { put_i(a.addr(i), d, 5) } } a }
fn mk_f() -> A { let d = ["float64", "float32"][choose(2)]; let a = layout(d, &[4], [0, 2, 3][choose(3)]); put_f(a.addr(&[1]), d, f64::NAN); put_f(a.addr(&[3]), d, [f64::NAN, 1.5, -0.0][choose(3)]); a }
fn vals<T: Num>(a: &A, dt: &str) -> Vec<T> { a.idx().iter().map(|i| T::ld(a.addr(i), dt)).collect() }
fn has<T: Num>(v: &[T], x: T) -> bool { let mut r = false; for y in v { r |= eq(*y, x); } r }
/// ascending, every non-NaN value once; NaN only at the end: one in all (merge) or `nn` of them
fn ascending<T: Num>(r: &[T], id: u32) { let mut ok = true; for k in 1..r.len() { ok &= lt(r[k - 1], r[k]) | (r[k - 1].nan() & r[k].nan()); } check(ok, id); }
fn count_nan<T: Num>(r: &[T]) -> u64 { let mut n = 0; for x in r { n += x.nan() as u64; } n }
fn out1(r: &A, dt: &str, id: u32) { check(r.dt == dt, id); check(r.ndim() == 1, id + 1); if r.dt != dt || r.ndim() != 1 { stop() } }
fn uniq(a: &A, id: u32) {
    let c = choose(2); let r = arr_of(if c == 0 { call!(np::unique; a.o) } else { call!(np::unique_values; a.o) }, id); out1(&r, a.dt, id + 1);
    with!(a.dt, T => { let (x, y) = (vals::<T>(a, a.dt), vals::<T>(&r, a.dt)); ascending(&y, id + 3); let (mut f, mut g) = (true, true); for v in &x { f &= has(&y, *v) | v.nan(); } for v in &y { g &= has(&x, *v) | v.nan(); } check(f, id + 4); check(g, id + 5); let n = count_nan(&x); check(count_nan(&y) == if c == 0 { (n > 0) as u64 } else { n }, id + 6); })
}
fn unique_i() { uniq(&mk_d(), 10) }
fn unique_s() { uniq(&mk_s(), 20) }
fn unique_f() { uniq(&mk_f(), 30) }
fn tuple_of(r: pyo3::PyResult<Obj>, n: usize, id: u32) -> Vec<A> { let o = must(r, id); let v = items(&o); check(v.len() == n, id); if v.len() != n { stop() } v.iter().map(|x| match A::try_of(x) { Some(a) => a, None => { check(false, id); stop() } }).collect() }
/// values, first indices, inverse indices and counts describe the same decomposition of the input
fn uniq_all(a: &A, id: u32) {
    let c = choose(3); let (v, f, inv, cnt) = match c { 0 => { let t = tuple_of(call!(np::unique_all; a.o), 4, id); (t[0].clone(), Some(t[1].clone()), Some(t[2].clone()), Some(t[3].clone())) } 1 => { let t = tuple_of(call!(np::unique_counts; a.o), 2, id); (t[0].clone(), None, None, Some(t[1].clone())) } _ => { let t = tuple_of(call!(np::unique_inverse; a.o), 2, id); (t[0].clone(), None, Some(t[1].clone()), None) } };
    out1(&v, a.dt, id + 1); let m = v.size();
    with!(a.dt, T => {
        let (x, y) = (vals::<T>(a, a.dt), vals::<T>(&v, a.dt)); ascending(&y, id + 3); let (mut p, mut g) = (true, true); for v in &x { p &= has(&y, *v) | v.nan(); } for v in &y { g &= has(&x, *v) | v.nan(); } check(p, id + 4); check(g, id + 5); check(count_nan(&y) == count_nan(&x), id + 6);
        if let Some(q) = f { out1(&q, "int64", id + 7); check(q.size() == m, id + 7); if q.size() != m { stop() } for k in 0..m { let i = q.bits(&[k]); check(i < x.len() as u64, id + 7); if i >= x.len() as u64 { stop() } let i = fork(i) as usize; check(eq(x[i], y[k]) | (x[i].nan() & y[k].nan()), id + 7); for j in 0..i { check(!eq(x[j], y[k]), id + 7); } } }
        if let Some(q) = inv { check(q.dt == "int64" && q.has_shape(&a.shape), id + 8); if !q.has_shape(&a.shape) { stop() } for (k, ix) in a.idx().iter().enumerate() { let i = q.bits(ix); check(i < m as u64, id + 8); if i >= m as u64 { stop() } let i = fork(i) as usize; check(eq(x[k], y[i]) | (x[k].nan() & y[i].nan()), id + 8); } }
        if let Some(q) = cnt { out1(&q, "int64", id + 9); check(q.size() == m, id + 9); if q.size() != m { stop() } let mut ok = true; for k in 0..m { let mut n = 0u64; for v in &x { n += eq(*v, y[k]) as u64; } ok &= q.bits(&[k]) == if y[k].nan() { 1 } else { n }; } check(ok, id + 9); }
    })
}
fn unique_all_i() { uniq_all(&mk_d(), 40) }
fn unique_all_s() { uniq_all(&mk_s(), 50) }
fn unique_all_f() { uniq_all(&mk_f(), 60) }
/// two operands: same dtype, or different dtypes that meet in the common one
const PAIRS: &[(&str, &str)] = &[("int64", "int64"), ("uint64", "uint64"), ("int8", "int8"), ("bool", "bool"), ("int8", "int64"), ("uint8", "int8"), ("int32", "uint16"), ("uint64", "uint8"), ("bool", "int16"), ("uint32", "int32")];
fn mk2() -> (A, A) { let (d, e) = PAIRS[choose(PAIRS.len())]; let (n, m) = [(2usize, 1usize), (1, 2), (3, 2), (2, 0)][choose(4)]; let a = layout(d, &[n], if m == 1 { 2 } else { 0 }); let b = layout(e, &[m], if m == 1 { 0 } else { 3 }); if n == 3 { put_i(a.addr(&[0]), d, 1); put_i(a.addr(&[1]), d, 0); put_i(b.addr(&[1]), e, 1); } (a, b) }
fn mk2s() -> (A, A) { let d = "uint8"; let a = layout(d, [&[2usize, 2] as &[usize], &[1, 3], &[0]][choose(3)], choose(NLAYOUT)); let b = layout(d, &[2, 1], [0, 1, 3][choose(3)]); for (k, i) in a.idx().iter().enumerate() { if k != 1 { put_i(a.addr(i), d, [7, 0, 9, 7][k]) } } put_i(b.addr(&[0, 0]), d, 7); (a, b) }
fn mk2f() -> (A, A) { let (d, e) = [("float64", "float64"), ("float32", "float32"), ("float32", "float64"), ("int16", "float64"), ("float64", "int32")][choose(5)]; let a = layout(d, &[2], 2); let b = layout(e, &[3], [0, 3][choose(2)]); if is_float(d) { put_f(a.addr(&[1]), d, f64::NAN) } if is_float(e) { put_f(b.addr(&[0]), e, f64::NAN); put_f(b.addr(&[2]), e, 2.0) } else { put_i(b.addr(&[0]), e, 9); put_i(b.addr(&[2]), e, 2) } (a, b) }
fn isin_of(a: A, b: A, id: u32) {
    let ct = promo(a.dt, b.dt); let invert = choose(2) == 1; let f = choose(2); let iv = boo(invert); let r = arr_of(match (f, invert) { (0, false) => call!(np::isin; a.o, b.o), (0, true) => call!(np::isin; a.o, b.o; invert = iv), (_, false) => call!(np::in1d; a.o, b.o), _ => call!(np::in1d; a.o, b.o; invert = iv) }, id);
    let want = if f == 0 { a.shape.clone() } else { vec![a.size()] }; check(r.dt == "bool" && r.has_shape(&want), id + 1); if !r.has_shape(&want) { stop() }
    with!(ct, T => { let y: Vec<T> = b.idx().iter().map(|i| T::ld(b.addr(i), b.dt)).collect(); let mut ok = true; for (i, j) in a.idx().iter().zip(r.idx().iter()) { let x = T::ld(a.addr(i), a.dt); ok &= (r.bits(j) != 0) == (has(&y, x) != invert); } check(ok, id + 2); })
}
fn isin_i() { let (a, b) = mk2(); isin_of(a, b, 70) }
fn isin_s() { let (a, b) = mk2s(); isin_of(a, b, 75) }
fn isin_f() { let (a, b) = mk2f(); isin_of(a, b, 80) }
fn setop(op: u64, a: A, b: A, id: u32) {
    let ct = promo(a.dt, b.dt); let r = arr_of(match op { 0 => call!(np::intersect1d; a.o, b.o), 1 => call!(np::union1d; a.o, b.o), 2 => call!(np::setdiff1d; a.o, b.o), _ => call!(np::setxor1d; a.o, b.o) }, id); out1(&r, if op == 2 { a.dt } else { ct }, id + 1);
    with!(ct, T => { let ld = |q: &A| -> Vec<T> { q.idx().iter().map(|i| T::ld(q.addr(i), q.dt)).collect() }; let (x, y, z) = (ld(&a), ld(&b), ld(&r)); ascending(&z, id + 3);
        let member = |v: T| { let (p, q) = (has(&x, v), has(&y, v)); match op { 0 => p & q, 1 => p | q, 2 => p & !q, _ => p != q } };
        let (mut f, mut g) = (true, true); for v in x.iter().chain(y.iter()) { f &= v.nan() | (has(&z, *v) == member(*v)); } for v in &z { g &= v.nan() | member(*v); } check(f, id + 4); check(g, id + 5);
        let (p, q) = ((count_nan(&x) > 0) as u64, (count_nan(&y) > 0) as u64); check(count_nan(&z) == match op { 0 => 0, 1 => p | q, 2 => p, _ => p + q }, id + 6); })
}
fn int_op(op: u64, id: u32) { let (a, b) = mk2(); setop(op, a, b, id) }
fn shp_op(op: u64, id: u32) { let (a, b) = mk2s(); setop(op, a, b, id) }
fn flt_op(op: u64, id: u32) { let (a, b) = mk2f(); setop(op, a, b, id) }
fn inter_i() { int_op(0, 100) } fn union_i() { int_op(1, 110) } fn diff_i() { int_op(2, 120) } fn xor_i() { int_op(3, 130) }
fn inter_s() { shp_op(0, 140) } fn union_s() { shp_op(1, 150) } fn diff_s() { shp_op(2, 160) } fn xor_s() { shp_op(3, 170) }
fn inter_f() { flt_op(0, 180) } fn union_f() { flt_op(1, 190) } fn diff_f() { flt_op(2, 200) } fn xor_f() { flt_op(3, 210) }
/// longer operands, one symbolic element
fn long() { let d = ["int64", "uint8"][choose(2)]; let n = 30; let a = layout(d, &[n], [0, 2][choose(2)]); for k in 0..n { put_i(a.addr(&[k]), d, (k as i64 * 37) % 23 + 40); } let b = layout(d, &[9], 0); for k in 0..9 { put_i(b.addr(&[k]), d, (k as i64 * 5) % 40 + 30); } put_i(b.addr(&[4]), d, [1, 40, 41, 62, 63, 120][choose(6)]); match choose(5) { 4 => isin_of(a, b, 220), k => setop(k as u64, a, b, 225) } }
pub const H: &[(&str, fn())] = &[("unique_i", unique_i), ("unique_s", unique_s), ("unique_f", unique_f), ("unique_all_i", unique_all_i), ("unique_all_s", unique_all_s), ("unique_all_f", unique_all_f), ("isin_i", isin_i), ("isin_s", isin_s), ("isin_f", isin_f), ("inter_i", inter_i), ("union_i", union_i), ("diff_i", diff_i), ("xor_i", xor_i), ("inter_s", inter_s), ("union_s", union_s), ("diff_s", diff_s), ("xor_s", xor_s), ("inter_f", inter_f), ("union_f", union_f), ("diff_f", diff_f), ("xor_f", xor_f), ("long", long)];
