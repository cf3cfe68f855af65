//! P11: sort, argsort, partition, argpartition, searchsorted, lexsort (functions and methods).
use crate::sx::*; use crate::util::*; use pyo3::Val;

const IB: &[&str] = &["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"];
const SH: &[&[usize]] = &[&[3], &[1], &[2, 3], &[3, 2], &[2, 1, 3], &[0], &[0, 2]];
/// one symbolic lane's worth of elements, the rest constants
fn arr_n(d: &'static str, sh: &[usize], k: usize, ns: usize) -> A { let a = layout(d, sh, k); for (k, i) in a.idx().iter().enumerate() { if k >= ns { put_i(a.addr(i), d, if d == "bool" { (k % 3 == 0) as i64 } else { [100, 3, 77, 3, 50, 9][k % 6] }) } } a }
/// every dtype over one lane of three symbolic elements
fn arr_d() -> A { let d = IB[choose(9)]; arr_n(d, &[3], [0, 2, 3][choose(3)], 3) }
/// every shape and layout, two symbolic elements among constants
fn arr_s() -> A { let d = ["int16", "uint64"][choose(2)]; let sh = SH[choose(SH.len())]; let a = layout(d, sh, choose(NLAYOUT)); let s = choose(2); for (k, i) in a.idx().iter().enumerate() { if if s == 0 { k >= 2 } else { k != 1 && k != 3 } { put_i(a.addr(i), d, [100, 3, 77, 3, 50, 9][k % 6]) } } a }
/// lanes along axis (None: the flattened array) as element addresses
fn lanes(a: &A, ax: Option<usize>) -> Vec<Vec<usize>> { match ax { None => vec![a.idx().iter().map(|i| a.addr(i)).collect()], Some(x) => { let mut o = a.shape.clone(); let n = o.remove(x); indices(&o).iter().map(|i| (0..n).map(|j| { let mut q = i.clone(); q.insert(x, j); a.addr(&q) }).collect()).collect() } } }
/// NaN-last order: a before-or-equal b
fn le<T: Num>(a: T, b: T) -> bool { T::cmpo(Op::Le, a, b) | b.nan() }
fn lt<T: Num>(a: T, b: T) -> bool { T::cmpo(Op::Lt, a, b) | (b.nan() & !a.nan()) }
fn same_multiset(x: &[usize], y: &[usize], dt: &str, id: u32) { let w = isz(dt); let mut ok = true; for p in x { let v = bits_at(*p, w); let (mut m, mut n) = (0u64, 0u64); for q in x { m += (bits_at(*q, w) == v) as u64; } for q in y { n += (bits_at(*q, w) == v) as u64; } ok &= m == n; } check(ok, id); }
fn check_sorted<T: Num>(src: &[usize], dst: &[usize], dt: &str, id: u32) { let mut ok = true; for k in 1..dst.len() { ok &= le(T::ld(dst[k - 1], dt), T::ld(dst[k], dt)); } check(ok, id); same_multiset(src, dst, dt, id + 1); }
/// out shape and axis of a call with axis choice: None flattens, negative, positive, default (last)
fn pick_axis(nd: usize) -> (Option<usize>, Option<Obj>) { let k = choose(2 * nd + 2); if k == 0 { (None, Some(none())) } else if k == 1 { (Some(nd - 1), None) } else if k < nd + 2 { (Some(k - 2), Some(int((k - 2) as i64))) } else { (Some(k - 2 - nd), Some(int((k - 2 - nd) as i64 - nd as i64))) } }
fn sort_of(a: &A, id: u32) -> (Option<usize>, A) { let (ax, x) = pick_axis(a.ndim()); let r = arr_of(match x { Some(x) => call!(np::sort; a.o, x), None => call!(np::sort; a.o) }, id); check(r.dt == a.dt, id + 1); let want = if ax.is_none() { vec![a.size()] } else { a.shape.clone() }; check(r.has_shape(&want), id + 2); if r.dt != a.dt || !r.has_shape(&want) { stop() } (ax, r) }
fn sort_i(a: A) { let (ax, r) = sort_of(&a, 10); let rl = lanes(&r, if ax.is_none() { Some(0) } else { ax }); for (s, t) in lanes(&a, ax).iter().zip(&rl) { with!(a.dt, T => check_sorted::<T>(s, t, a.dt, 15)) } }
fn fl(sh: &[usize], d: &'static str, k: usize) -> A { let a = layout(d, sh, k); for (k, i) in a.idx().iter().enumerate() { if k >= 3 { put_f(a.addr(i), d, [f64::NAN, -1.5, 2.0][k % 3]) } } a }
fn sort_float() { let d = ["float64", "float32"][choose(2)]; let a = fl([&[3usize] as &[usize], &[2, 2]][choose(2)], d, choose(NLAYOUT)); let (ax, r) = sort_of(&a, 20); let rl = lanes(&r, if ax.is_none() { Some(0) } else { ax }); for (s, t) in lanes(&a, ax).iter().zip(&rl) { with!(d, T => check_sorted::<T>(s, t, d, 25)) } }
fn sort_int() { sort_i(arr_d()) }
fn sort_shape() { sort_i(arr_s()) }
/// argsort: a permutation that sorts, ties in input order
fn check_argsort<T: Num>(s: &[usize], t: &[u64], dt: &str, id: u32) {
    let n = s.len(); let mut p = vec![]; for k in t { check(*k < n as u64, id); if *k >= n as u64 { stop() } let k = fork(*k) as usize; check(!p.contains(&k), id + 1); p.push(k); }
    let mut ok = true; for k in 1..n { let (x, y) = (T::ld(s[p[k - 1]], dt), T::ld(s[p[k]], dt)); ok &= if p[k - 1] < p[k] { le(x, y) } else { lt(x, y) }; } check(ok, id + 2);
}
fn argsort_of(a: &A, id: u32) {
    let meth = choose(2) == 1; let (ax, x) = pick_axis(a.ndim()); let o = a.o.clone();
    let r = arr_of(match x { Some(x) => if meth { meth!(o.__w_argsort; x) } else { call!(np::argsort; a.o, x) }, None => if meth { meth!(o.__w_argsort;) } else { call!(np::argsort; a.o) } }, id); check(r.dt == "int64", id + 1); let want = if ax.is_none() { vec![a.size()] } else { a.shape.clone() }; check(r.has_shape(&want), id + 2); if r.dt != "int64" || !r.has_shape(&want) { stop() }
    let rl = lanes(&r, if ax.is_none() { Some(0) } else { ax }); for (s, t) in lanes(a, ax).iter().zip(&rl) { let t: Vec<u64> = t.iter().map(|p| bits_at(*p, 8)).collect(); with!(a.dt, T => check_argsort::<T>(s, &t, a.dt, id + 5)) }
}
fn argsort_int() { argsort_of(&arr_d(), 30) }
fn argsort_shape() { argsort_of(&arr_s(), 30) }
fn argsort_float() { let d = ["float64", "float32"][choose(2)]; let a = fl([&[3usize] as &[usize], &[2, 2]][choose(2)], d, choose(NLAYOUT)); argsort_of(&a, 40) }
/// ndarray.sort / ndarray.partition work in place: exactly the viewed elements are rearranged
fn inplace() {
    let d = ["int16", "int64", "uint8", "float64"][choose(4)]; let c = choose(4); let base = A::of(&zeros(d, &[3, 4])); for (k, i) in base.idx().iter().enumerate() { put_i(base.addr(i), d, [40, 7, 33, 2, 9, 90, 5, 61, 7, 12, 88, 3][k]); }
    if d != "float64" { sym_at(base.addr(&[1, 1]), d); } let old: Vec<u64> = base.flat_bits();
    let v = A::of(&must(match c { 0 => Ok(base.o.clone()), 1 => getitem(&base.o, tup(vec![slice(None, None, None), slice(Some(1), None, Some(2))])), 2 => getitem(&base.o, tup(vec![slice(None, None, Some(-1)), slice(None, None, Some(-1))])), _ => Ok(tr(&base.o)) }, 50));
    let o = v.o.clone(); let lanes_of = |ax: usize| -> Vec<Vec<usize>> { lanes(&v, Some(ax)) }; let before: Vec<(usize, u64)> = base.idx().iter().map(|i| base.addr(i)).zip(old.iter().cloned()).collect(); let val = |p: usize| before.iter().find(|x| x.0 == p).unwrap().1;
    let kth = choose(3); let part = choose(2) == 1; let ax = if part { 1 } else { choose(2) }; let ls = lanes_of(ax); let prev: Vec<Vec<u64>> = ls.iter().map(|l| l.iter().map(|p| val(*p)).collect()).collect(); let x = int(ax as i64 - 2); let kk = int(if kth < v.shape[1] { kth as i64 } else { -1 }); let pos = if kth < v.shape[1] { kth } else { v.shape[1] - 1 };
    must(if part { meth!(o.__w_partition; kk) } else { meth!(o.__w_sort; x) }, 51);
    for (p, b) in &before { if !ls.iter().any(|l| l.contains(p)) { check(bits_at(*p, isz(d)) == *b, 52); } }
    with!(d, T => { for (l, b) in ls.iter().zip(&prev) { let mut ok = true; if part { for j in 0..l.len() { ok &= if j < pos { le(T::ld(l[j], d), T::ld(l[pos], d)) } else { le(T::ld(l[pos], d), T::ld(l[j], d)) }; } } else { for k in 1..l.len() { ok &= le(T::ld(l[k - 1], d), T::ld(l[k], d)); } } check(ok, 53); let mut q = b.clone(); for (k, p) in l.iter().enumerate() { q[k] = bits_at(*p, isz(d)); } let mut ok = true; for x in b { let (mut m, mut n) = (0u64, 0u64); for y in b { m += (*x == *y) as u64; } for y in &q { n += (*x == *y) as u64; } ok &= m == n; } check(ok, 54); } })
}
/// partition / argpartition: the k-th element is the k-th smallest, smaller ones before it
fn part_of(a: &A, id: u32) {
    let arg = choose(2) == 1; let (ax, x) = pick_axis(a.ndim()); let n = match ax { None => a.size(), Some(x) => a.shape[x] }; if n == 0 { stop() } let k = choose(2 * n); let kk = int(k as i64 - n as i64); let pos = if k < n { k } else { k - n };
    let r = arr_of(match (arg, &x) { (false, Some(x)) => call!(np::partition; a.o, kk, x), (false, None) => call!(np::partition; a.o, kk), (true, Some(x)) => call!(np::argpartition; a.o, kk, x), (true, None) => call!(np::argpartition; a.o, kk) }, id); let want = if ax.is_none() { vec![n] } else { a.shape.clone() }; let dt = if arg { "int64" } else { a.dt }; check(r.dt == dt && r.has_shape(&want), id + 1); if r.dt != dt || !r.has_shape(&want) { stop() }
    let rl = lanes(&r, if ax.is_none() { Some(0) } else { ax });
    for (s, t) in lanes(a, ax).iter().zip(&rl) {
        let t: Vec<usize> = if arg { let mut p = vec![]; for q in t { let k = bits_at(*q, 8); check(k < n as u64, id + 2); if k >= n as u64 { stop() } let k = fork(k) as usize; check(!p.contains(&k), id + 3); p.push(k); } p.iter().map(|k| s[*k]).collect() } else { same_multiset(s, t, a.dt, id + 4); t.clone() };
        with!(a.dt, T => { let v = T::ld(t[pos], a.dt); let mut ok = true; for j in 0..n { let w = T::ld(t[j], a.dt); ok &= if j < pos { le(w, v) } else { le(v, w) }; } check(ok, id + 5); })
    }
}
fn part_int() { let d = ["int8", "int64", "uint64", "bool", "uint16"][choose(5)]; let a = arr_n(d, &[3], [0, 3][choose(2)], 3); part_of(&a, 60) }
fn part_int2() { let d = ["int16", "int32", "uint8", "uint32"][choose(4)]; let a = arr_n(d, &[3], [0, 2][choose(2)], 3); part_of(&a, 70) }
fn part_shape() { let d = ["int64", "uint8"][choose(2)]; let a = arr_n(d, [&[2usize, 3] as &[usize], &[3, 2], &[2, 1, 2]][choose(3)], [1, 2, 4][choose(3)], 2); part_of(&a, 140) }
fn part_float() { let d = ["float64", "float32"][choose(2)]; let a = fl(&[3], d, [0, 2, 3][choose(3)]); part_of(&a, 80) }
fn part_err() { let a = sym("int32", &[2, 3]); let k: i64 = any(); assume(k < -3 || k >= 3); let kk = int(k); let o = a.o.clone(); let r = match choose(4) { 0 => call!(np::partition; a.o, kk), 1 => call!(np::argpartition; a.o, kk), 2 => meth!(o.__w_partition; kk), _ => meth!(o.__w_argpartition; kk) }; must_kind(r, Kind::Value, 88); }
fn argpart_meth() { let a = arr_n(["int64", "uint8"][choose(2)], &[3], [0, 2, 3][choose(3)], 3); let k = choose(6); let kk = int(k as i64 - 3); let pos = k % 3; let o = a.o.clone(); let r = arr_of(meth!(o.__w_argpartition; kk), 90); check(r.dt == "int64" && r.has_shape(&[3]), 91); let mut p = vec![]; for j in 0..3 { let q = r.bits(&[j]); check(q < 3, 92); if q >= 3 { stop() } let q = fork(q) as usize; check(!p.contains(&q), 93); p.push(q); } with!(a.dt, T => { let at = |j: usize| T::ld(a.addr(&[p[j]]), a.dt); let mut ok = true; for j in 0..3 { ok &= if j < pos { le(at(j), at(pos)) } else { le(at(pos), at(j)) }; } check(ok, 94); }) }
/// searchsorted: the insertion point that keeps the order, on the asked side
fn ss_chk<T: Num>(a: &A, v: usize, dt: &str, r: u64, left: bool, id: u32) { let n = a.size(); check(r <= n as u64, id); let mut ok = true; for k in 0..n { let x = T::ld(a.addr(&[k]), dt); let w = T::ld(v, dt); let before = if left { lt(x, w) } else { le(x, w) }; ok &= before == ((k as u64) < r); } check(ok, id + 1); }
fn ss_int() {
    let d = INTS[choose(8)]; let n = choose(5); let a = layout(d, &[n], [0, 2, 3][choose(3)]); if n > 2 { for k in 0..n { put_i(a.addr(&[k]), d, [3, 7, 7, 100][k]); } sym_at(a.addr(&[1]), d); }
    with!(d, T => { for k in 1..n { assume(T::cmpo(Op::Le, T::ld(a.addr(&[k - 1]), d), T::ld(a.addr(&[k]), d))) } });
    let left = choose(2) == 0; let sd = st(if left { "left" } else { "right" }); let v = layout(d, if n == 2 && d == "int64" { &[1usize, 2] as &[usize] } else { &[1] }, choose(2)); let o = a.o.clone(); let r = arr_of(if left && choose(2) == 0 { call!(np::searchsorted; a.o, v.o) } else if choose(2) == 0 { call!(np::searchsorted; a.o, v.o, sd) } else { meth!(o.__w_searchsorted; v.o; side = sd) }, 100); check(r.dt == "int64" && r.has_shape(&v.shape), 101); if !r.has_shape(&v.shape) { stop() }
    for i in v.idx() { with!(d, T => ss_chk::<T>(&a, v.addr(&i), d, r.bits(&i), left, 105)) }
}
fn ss_float() {
    let d = ["float64", "float32"][choose(2)]; let a = layout(d, &[4], [0, 2, 3][choose(3)]); for k in 0..4 { put_f(a.addr(&[k]), d, [-1.5, 2.0, 2.0, f64::NAN][k]); } let v = sym(d, &[1]); let left = choose(2) == 0; let sd = st(if left { "left" } else { "right" }); let r = arr_of(call!(np::searchsorted; a.o, v.o, sd), 110); with!(d, T => ss_chk::<T>(&a, v.addr(&[0]), d, r.bits(&[0]), left, 115))
}
/// a Python int is compared exactly
fn ss_scalar() {
    let a = layout("int64", &[3], [0, 2, 3][choose(3)]); let v: i64 = any(); for k in 1..3 { assume(a.i(&[k - 1]) <= a.i(&[k])) } let left = choose(2) == 0; let sd = st(if left { "left" } else { "right" }); let o = a.o.clone(); let x = int(v); let meth = choose(2) == 0;
    let r = must(if meth { meth!(o.__w_searchsorted; x; side = sd) } else { call!(np::searchsorted; a.o, x, sd) }, 120); let r = if meth { match &r.v { Val::Int(i) => *i as u64, _ => { check(false, 121); stop() } } } else { let q = A::of(&r); check(q.size() == 1, 122); let z: Vec<usize> = q.shape.iter().map(|_| 0).collect(); q.bits(&z) };
    let mut n = 0u64; for k in 0..3 { n += (if left { a.i(&[k]) < v } else { a.i(&[k]) <= v }) as u64; } check(r == n, 123);
}
/// operands of different integer dtypes meet in the common dtype
fn ss_mixed() { let (d, e) = [("int8", "int64"), ("uint8", "int16"), ("int32", "uint16"), ("uint64", "uint8")][choose(4)]; let a = sym(d, &[2]); let v = sym(e, &[1]); assume(if d == "uint64" { a.bits(&[0]) <= a.bits(&[1]) } else { a.i(&[0]) <= a.i(&[1]) }); let left = choose(2) == 0; let sd = st(if left { "left" } else { "right" }); let r = arr_of(call!(np::searchsorted; a.o, v.o, sd), 125); let mut n = 0; for k in 0..2 { n += if d == "uint64" { if left { a.bits(&[k]) < v.bits(&[0]) } else { a.bits(&[k]) <= v.bits(&[0]) } } else if left { a.i(&[k]) < v.i(&[0]) } else { a.i(&[k]) <= v.i(&[0]) } as u64; } check(r.bits(&[0]) == n, 126); }
fn ss_err() { let (a, b) = (sym("int32", &[2]), sym("int32", &[2, 2])); let s = st("middle"); let o = a.o.clone(); let r = match choose(3) { 0 => call!(np::searchsorted; a.o, a.o, s), 1 => call!(np::searchsorted; b.o, a.o), _ => meth!(o.__w_searchsorted; a.o; side = s) }; must_kind(r, Kind::Value, 128); }
/// lexsort: last key first, ties by the earlier keys, then by position
fn lexsort() {
    let (d, e) = [("int64", "uint8"), ("uint64", "int8"), ("bool", "int32")][choose(3)]; let k1 = layout(d, &[3], [0, 2, 3][choose(3)]); let k2 = layout(e, &[3], [0, 3][choose(2)]); let two = choose(2) == 1; put_i(k2.addr(&[2]), e, 1);
    let r = arr_of(call!(np::lexsort; if two { tup(vec![k1.o.clone(), k2.o.clone()]) } else { tup(vec![k1.o.clone()]) }), 130); check(r.dt == "int64" && r.has_shape(&[3]), 131); let mut p = vec![]; for j in 0..3 { let q = r.bits(&[j]); check(q < 3, 132); if q >= 3 { stop() } let q = fork(q) as usize; check(!p.contains(&q), 133); p.push(q); }
    let mut ok = true; for j in 1..3 { let (x, y) = (p[j - 1], p[j]); let (lt1, eq1) = if d == "uint64" { (k1.bits(&[x]) < k1.bits(&[y]), k1.bits(&[x]) == k1.bits(&[y])) } else { (k1.i(&[x]) < k1.i(&[y]), k1.i(&[x]) == k1.i(&[y])) }; let one = lt1 | (eq1 & (x < y)); ok &= if two { (k2.i(&[x]) < k2.i(&[y])) | ((k2.i(&[x]) == k2.i(&[y])) & one) } else { one }; } check(ok, 134);
}
fn lex_nan() { let a = sym("float64", &[3]); put_f(a.addr(&[2]), "float64", [f64::NAN, 1.0][choose(2)]); let r = arr_of(call!(np::lexsort; tup(vec![a.o.clone()])), 136); let t: Vec<u64> = r.flat_bits(); let s: Vec<usize> = a.idx().iter().map(|i| a.addr(i)).collect(); check_argsort::<f64>(&s, &t, "float64", 137); }
fn axis_err() { let a = sym("int16", &[2, 2]); let ax: i64 = any(); assume(ax < -2 || ax >= 2); let x = int(ax); let o = a.o.clone(); let z = int(0); let r = match choose(6) { 0 => call!(np::sort; a.o, x), 1 => call!(np::argsort; a.o, x), 2 => call!(np::partition; a.o, z, x), 3 => call!(np::argpartition; a.o, z, x), 4 => meth!(o.__w_sort; x), _ => meth!(o.__w_argsort; x) }; must_kind(r, Kind::Value, 140); }
/// longer lanes (beyond insertion sort), one symbolic element among constants with repeats
fn long_of(c: u64) {
    let d = ["uint16", "int8"][choose(2)]; let n = [9usize, 25, 50][choose(3)]; let a = layout(d, &[n], [0, 2][choose(2)]); for k in 0..n { put_i(a.addr(&[k]), d, (k as i64 * 37) % 23 + 40); } let q = a.addr(&[[0, n / 2][choose(2)]]); if n < 20 { sym_at(q, d) } else { put_i(q, d, [1, 40, 51, 62, 120][choose(5)]) } let s: Vec<usize> = a.idx().iter().map(|i| a.addr(i)).collect();
    match c { 0 => { let r = arr_of(call!(np::sort; a.o), 150); let t: Vec<usize> = r.idx().iter().map(|i| r.addr(i)).collect(); with!(d, T => { let mut ok = true; for k in 1..n { ok &= le(T::ld(t[k - 1], d), T::ld(t[k], d)); } check(ok, 151); }); let mut q = (0u64, 0u64); for k in 0..n { q.0 = q.0.wrapping_add(bits_at(s[k], isz(d))); q.1 = q.1.wrapping_add(bits_at(t[k], isz(d))); } check(q.0 == q.1, 152); }
        1 => { let r = arr_of(call!(np::argsort; a.o), 153); with!(d, T => check_argsort::<T>(&s, &r.flat_bits(), d, 154)) }
        _ => { let pos = [0, n / 3][choose(2)]; let kk = int(pos as i64); let r = arr_of(call!(np::partition; a.o, kk), 158); with!(d, T => { let v = T::ld(r.addr(&[pos]), d); let mut ok = true; for j in 0..n { let w = T::ld(r.addr(&[j]), d); ok &= if j < pos { le(w, v) } else { le(v, w) }; } check(ok, 159); }) } }
}
fn long_sort() { long_of(0) }
fn long_argsort() { long_of(1) }
fn long_part() { long_of(2) }
pub const H: &[(&str, fn())] = &[("sort_int", sort_int), ("sort_float", sort_float), ("argsort_int", argsort_int), ("argsort_float", argsort_float), ("inplace", inplace), ("part_int", part_int), ("part_int2", part_int2), ("part_float", part_float), ("part_err", part_err), ("argpart_meth", argpart_meth), ("ss_int", ss_int), ("ss_float", ss_float), ("ss_scalar", ss_scalar), ("ss_mixed", ss_mixed), ("ss_err", ss_err), ("lexsort", lexsort), ("lex_nan", lex_nan), ("axis_err", axis_err), ("long_sort", long_sort), ("long_argsort", long_argsort), ("long_part", long_part), ("sort_shape", sort_shape), ("argsort_shape", argsort_shape), ("part_shape", part_shape)];
