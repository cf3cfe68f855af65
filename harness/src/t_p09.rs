//! P09: reductions: sum prod max min mean var any all argmax argmin count_nonzero ptp over every axis, layout, dtype.
use crate::sx::*; use crate::util::*; use pyo3::Val;

const IB: &[&str] = &["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"];
const SH: &[&[usize]] = &[&[3], &[1], &[2, 3], &[3, 1], &[2, 2, 2]];
/// lanes of `a` reduced over `axes` (sorted): out shape and, per output, the element addresses in C order
fn lanes(a: &A, axes: &[usize]) -> (Vec<usize>, Vec<Vec<usize>>) {
    let kept: Vec<usize> = (0..a.ndim()).filter(|d| !axes.contains(d)).collect(); let osh: Vec<usize> = kept.iter().map(|d| a.shape[*d]).collect(); let ish: Vec<usize> = axes.iter().map(|d| a.shape[*d]).collect(); let mut out = vec![];
    for o in indices(&osh) { let mut l = vec![]; for i in indices(&ish) { let mut ix = vec![0; a.ndim()]; for (k, d) in kept.iter().enumerate() { ix[*d] = o[k]; } for (k, d) in axes.iter().enumerate() { ix[*d] = i[k]; } l.push(a.addr(&ix)); } out.push(l); }
    (osh, out)
}
/// how the reduction is asked for
struct Call { axes: Vec<usize>, all: bool, keep: bool, r: PyResult<Obj> }
use pyo3::PyResult;
macro_rules! red { ($a:expr, $f:ident, $w:ident, $keep:expr) => { {
    let nd = $a.ndim(); let o = $a.o.clone(); let k = choose(2 * nd + 2 + (nd > 1) as usize);
    if k == 0 { Call { axes: (0..nd).collect(), all: true, keep: false, r: call!(np::$f; $a.o) } }
    else if k <= nd { let ax = k - 1; let neg = int(ax as i64 - nd as i64); Call { axes: vec![ax], all: false, keep: false, r: call!(np::$f; $a.o; axis = neg) } }
    else if k == nd + 1 { if $keep && choose(2) == 1 { Call { axes: (0..nd).collect(), all: true, keep: true, r: meth!(o.$w; ; keepdims = boo(true)) } } else { Call { axes: (0..nd).collect(), all: true, keep: false, r: meth!(o.$w;) } } }
    else if k <= 2 * nd + 1 { let ax = k - nd - 2; if $keep && choose(2) == 1 { Call { axes: vec![ax], all: false, keep: true, r: meth!(o.$w; int(ax as i64); keepdims = boo(true)) } } else { Call { axes: vec![ax], all: false, keep: false, r: meth!(o.$w; int(ax as i64)) } } }
    else { let ax: Vec<usize> = if nd == 2 { vec![0, 1] } else { [vec![0, 1], vec![0, 2], vec![1, 2], vec![0, 1, 2]][choose(4)].clone() }; let mut rev = ax.clone(); rev.reverse(); Call { r: call!(np::$f; $a.o; axis = itup(&rev)), axes: ax, all: false, keep: false } }
} } }
/// arg reductions and ptp: one axis or none, no keepdims
macro_rules! red1 { ($a:expr, $f:ident, $w:ident) => { {
    let nd = $a.ndim(); let o = $a.o.clone(); let k = choose(2 * nd + 2);
    if k == 0 { Call { axes: (0..nd).collect(), all: true, keep: false, r: call!(np::$f; $a.o) } }
    else if k <= nd { let ax = k - 1; Call { axes: vec![ax], all: false, keep: false, r: call!(np::$f; $a.o; axis = int(ax as i64)) } }
    else if k == nd + 1 { Call { axes: (0..nd).collect(), all: true, keep: false, r: meth!(o.$w;) } }
    else { let ax = k - nd - 2; Call { axes: vec![ax], all: false, keep: false, r: meth!(o.$w; int(ax as i64 - nd as i64)) } }
} } }
/// result as (dtype or None for a Python scalar, value bits per output in C order)
fn vals(c: Call, a: &A, dt: &'static str, id: u32) -> Vec<(Vec<usize>, u64)> {
    let (osh, ls) = lanes(a, &c.axes); let o = must(c.r, id);
    if c.all && !c.keep {
        let b = match &o.v { Val::Int(i) => { check(!is_float(dt) && dt != "bool", id + 1); *i as u64 } Val::UInt(u) => { check(!is_float(dt) && dt != "bool", id + 1); *u } Val::Bool(b) => { check(dt == "bool", id + 1); *b as u64 } Val::Float(f) => { check(is_float(dt), id + 1); if dt == "float32" { (*f as f32).to_bits() as u64 } else { f.to_bits() } } _ => { check(false, id + 1); stop() } };
        let w = isz(dt) * 8; let b = if w == 64 { b } else { b & ((1u64 << w) - 1) }; return vec![(ls[0].clone(), b)];
    }
    let r = match A::try_of(&o) { Some(r) => r, None => { check(false, id + 2); stop() } }; check(r.dt == dt, id + 3); if r.dt != dt { stop() }
    let want: Vec<usize> = if c.keep { (0..a.ndim()).map(|d| if c.axes.contains(&d) { 1 } else { a.shape[d] }).collect() } else if osh.is_empty() { vec![1] } else { osh.clone() };
    check(r.has_shape(&want), id + 4); if !r.has_shape(&want) { stop() }
    ls.into_iter().zip(r.flat_bits()).collect()
}
fn fill_sym(a: &A) { for i in a.idx() { sym_at(a.addr(&i), a.dt); } }
fn any_arr(dts: &[&'static str]) -> A { let d = dts[choose(dts.len())]; let a = layout(d, SH[choose(SH.len())], choose(NLAYOUT)); fill_sym(&a); a }
/// like any_arr with at most four symbolic elements, the rest constants
fn mix_arr(dts: &[&'static str]) -> A { let d = dts[choose(dts.len())]; let a = layout(d, SH[choose(SH.len())], choose(NLAYOUT)); let n = a.size(); let m = if n <= 3 { 1 } else { n / 2 }; let r = choose(m.min(3)); for (k, i) in a.idx().iter().enumerate() { if k % m == r { sym_at(a.addr(i), d) } else { put_i(a.addr(i), d, if d == "bool" { (k % 4 == 1) as i64 } else { [7, 3, 7, 100][k % 4] }) } } a }
fn wide(dt: &'static str) -> &'static str { if is_float(dt) { dt } else if dt == "bool" || !is_uns(dt) { "int64" } else { "uint64" } }

/// sum of bool and integers: exact modulo 2^64, in int64/uint64
fn sum_int() { let a = any_arr(IB); let c = red!(a, sum, __w_sum, true); for (l, b) in vals(c, &a, wide(a.dt), 10) { let mut s = 0i64; for p in l { s = s.wrapping_add(int_at(p, a.dt)); } check(b == s as u64, 15); } }
/// product: one symbolic element among distinct primes
fn prod_int() {
    const P: [i64; 8] = [3, 5, 7, 11, 13, 17, 19, 23]; let d = IB[choose(9)]; let a = layout(d, SH[choose(SH.len())], choose(NLAYOUT)); for (k, i) in a.idx().iter().enumerate() { if d == "bool" { sym_at(a.addr(i), d) } else { put_i(a.addr(i), d, P[k]) } }
    let c = red!(a, prod, __w_prod, true); for (l, b) in vals(c, &a, wide(d), 20) { let mut s = 1i64; for p in l { s = s.wrapping_mul(int_at(p, d)); } check(b == s as u64, 25); }
}
fn prod_sym() { let d = INTS[choose(8)]; let a = sym(d, &[2]); let c = red!(a, prod, __w_prod, false); for (l, b) in vals(c, &a, wide(d), 30) { check(b == int_at(l[0], d).wrapping_mul(if l.len() > 1 { int_at(l[1], d) } else { 1 }) as u64, 35); } }
/// max and min: an element of the lane that bounds the lane
fn bounds<T: Num>(l: &[usize], dt: &str, b: u64, max: bool, id: u32) {
    let mut mem = false; let mut ok = true; let w = isz(dt) * 8; let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    for p in l { mem |= bits_at(*p, isz(dt)) == b; } let loc = b; let q = &loc as *const u64 as usize; let rv = T::ld(q, dt);
    for p in l { let v = T::ld(*p, dt); ok &= if max { T::cmpo(Op::Ge, rv, v) } else { T::cmpo(Op::Le, rv, v) }; } check((b & m == b) & mem & ok, id);
}
fn max_i(m: bool) { let a = mix_arr(IB); let c = if m { red!(a, max, __w_max, true) } else { red!(a, min, __w_min, true) }; let dt = a.dt; for (l, b) in vals(c, &a, dt, 40) { with!(dt, T => bounds::<T>(&l, dt, b, m, 45)) } }
fn max_int() { max_i(true) }
fn min_int() { max_i(false) }
/// NaN anywhere in the lane makes the maximum and minimum NaN
fn fmax_ok<T: Num>(l: &[usize], dt: &str, b: u64, max: bool, id: u32) {
    let loc = b; let rv = T::ld(&loc as *const u64 as usize, dt); let mut nan = false; let mut mem = false; let mut ok = true;
    for p in l { let v = T::ld(*p, dt); nan |= v.nan(); mem |= T::cmpo(Op::Eq, rv, v); ok &= if max { T::cmpo(Op::Ge, rv, v) } else { T::cmpo(Op::Le, rv, v) }; }
    check((nan & rv.nan()) | (!nan & mem & ok), id);
}
fn max_float() { let d = ["float64", "float32"][choose(2)]; let sh: &[usize] = [&[2usize, 2] as &[usize], &[3]][choose(2)]; let a = layout(d, sh, choose(NLAYOUT)); fill_sym(&a); let m = choose(2) == 0; let c = if m { red1!(a, max, __w_max) } else { red1!(a, min, __w_min) }; for (l, b) in vals(c, &a, d, 50) { with!(d, T => fmax_ok::<T>(&l, d, b, m, 55)) } }
/// argmax / argmin: first index of the extreme
fn argmax_int() { argi(true) }
fn argmin_int() { argi(false) }
fn argi(m: bool) {
    let a = mix_arr(IB); let c = if m { red1!(a, argmax, __w_argmax) } else { red1!(a, argmin, __w_argmin) }; let dt = a.dt;
    for (l, b) in vals(c, &a, "int64", 60) { check(b < l.len() as u64, 65); with!(dt, T => { let mut ok = true; for k in 0..l.len() { let v = T::ld(l[k], dt); let mut first = true; for j in 0..l.len() { let w = T::ld(l[j], dt); let op = if m { if j < k { Op::Gt } else { Op::Ge } } else if j < k { Op::Lt } else { Op::Le }; if j != k { first &= T::cmpo(op, v, w); } } ok &= first == (b == k as u64); } check(ok, 66); }) }
}
const FV: [f64; 6] = [1.5, -2.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0];
fn argfloat() {
    let d = ["float64", "float32"][choose(2)]; let k = choose(3); let a = if k < 2 { layout(d, &[3], choose(NLAYOUT)) } else { layout(d, &[3, 1], choose(NLAYOUT)) }; for i in a.idx() { put_f(a.addr(&i), d, FV[choose(6)]); }
    let m = choose(2) == 0; let o = a.o.clone(); let c = match choose(3) { 0 => Call { axes: (0..a.ndim()).collect(), all: true, keep: false, r: if m { call!(np::argmax; a.o) } else { call!(np::argmin; a.o) } }, 1 => Call { axes: vec![0], all: false, keep: false, r: if m { meth!(o.__w_argmax; int(0)) } else { meth!(o.__w_argmin; int(0)) } }, _ => Call { axes: vec![a.ndim() - 1], all: false, keep: false, r: if m { call!(np::argmax; a.o; axis = int(-1)) } else { call!(np::argmin; a.o; axis = int(-1)) } } };
    for (l, b) in vals(c, &a, "int64", 70) { let v: Vec<f64> = l.iter().map(|p| f_at(*p, d)).collect(); let mut e = 0; for j in 1..v.len() { let x = v[e]; if x == x && (v[j] != v[j] || (if m { v[j] > x } else { v[j] < x })) { e = j; } } check(b == e as u64, 75); }
}
/// any / all / count_nonzero: every value of every dtype (NaN is true, -0.0 false)
fn t_all() { truth(0) }
fn t_any() { truth(1) }
fn t_count() { truth(2) }
fn truth(k: usize) {
    const D: &[&str] = &["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"]; let a = mix_arr(D); let dt = a.dt;
    let t = |p: usize| match dt { "float64" => bits_at(p, 8) & (u64::MAX >> 1) != 0, "float32" => bits_at(p, 4) & 0x7fff_ffff != 0, _ => bits_at(p, isz(dt)) != 0 };
    match k {
        0 => { let c = red!(a, all, __w_all, true); for (l, b) in vals(c, &a, "bool", 80) { let mut e = true; for p in l { e &= t(p); } check((b == 1) == e && b < 2, 85); } }
        1 => { let c = red!(a, any, __w_any, true); for (l, b) in vals(c, &a, "bool", 90) { let mut e = false; for p in l { e |= t(p); } check((b == 1) == e && b < 2, 95); } }
        _ => { let r = must(call!(np::count_nonzero; a.o), 96); let mut n = 0; for i in a.idx() { n += t(a.addr(&i)) as i64; } check(obj_i(&r) == Some(n), 97); }
    }
}
/// ptp: max - min in the array's dtype (wrapping)
fn ptp_int() {
    let d = IB[1 + choose(8)]; let a = layout(d, SH[choose(3)], choose(NLAYOUT)); let n = a.size(); let s = choose(n); for (k, i) in a.idx().iter().enumerate() { if k == s { sym_at(a.addr(i), d) } else { put_i(a.addr(i), d, 3 + 17 * (k as i64 % 4)) } }
    let c = red1!(a, ptp, __w_ptp); for (l, b) in vals(c, &a, d, 100) { with!(d, T => { let (mut x, mut y) = (T::ld(l[0], d), T::ld(l[0], d)); for p in &l { let v = T::ld(*p, d); x = T::ev(Op::Max, x, v); y = T::ev(Op::Min, y, v); } check(T::ev(Op::Sub, x, y).bits() == b, 105); }) }
}
/// float sums and products where every order of evaluation is exact: each element contributes exactly once
fn fsum() {
    let d = ["float64", "float32"][choose(2)]; let sh: &[usize] = [&[3usize] as &[usize], &[2, 3], &[2, 2, 2], &[9], &[2, 9], &[9, 2], &[17]][choose(7)]; let a = layout(d, sh, choose(NLAYOUT)); let pr = choose(2) == 0; for (k, i) in a.idx().iter().enumerate() { put_f(a.addr(i), d, if pr { [2.0, -4.0, 0.5, -2.0][(k * 3) % 4] } else { (1u64 << k) as f64 }); }
    let c = if pr { red!(a, prod, __w_prod, true) } else { red!(a, sum, __w_sum, true) }; for (l, b) in vals(c, &a, d, 110) { let mut s = if pr { 1.0 } else { 0.0 }; for p in l { if pr { s *= f_at(p, d) } else { s += f_at(p, d) } } check(b == if d == "float32" { (s as f32).to_bits() as u64 } else { s.to_bits() }, 115); }
}
/// special values reach the sum: inf, inf - inf, NaN
fn fsum_special() { let n = [2usize, 9][choose(2)]; let a = A::of(&zeros("float64", &[n])); put_f(a.addr(&[0]), "float64", FV[choose(6)]); put_f(a.addr(&[n - 1]), "float64", FV[choose(6)]); let (x, y) = (a.f(&[0]), a.f(&[n - 1])); let s = x + y; let r = must(call!(np::sum; a.o), 120); let p = must(call!(np::sum; a.o; axis = int(0)), 121); check(same_f(obj_f(&r).unwrap_or(77.0), s), 122); check(same_f(A::of(&p).f(&[0]), s), 123); }
/// mean / var / std of integers and floats: float64 (float32 stays), exact on these values
fn mean_var() {
    const D: &[&str] = &["bool", "int8", "uint8", "int32", "int64", "uint64", "float32", "float64"]; let d = D[choose(8)]; let sh: &[usize] = [&[4usize] as &[usize], &[2, 4], &[4, 2], &[2, 2, 2], &[8]][choose(5)]; let a = layout(d, sh, choose(NLAYOUT)); let big = d == "uint8" as &str;
    for (k, i) in a.idx().iter().enumerate() { put_i(a.addr(i), d, if d == "bool" { (k % 3 == 0) as i64 } else if big { 255 - (k as i64 % 2) * 4 } else if d == "int8" { -128 + (k as i64 % 3) * 126 } else { (k * k) as i64 }); }
    let which = choose(3); let od = if d == "float32" { "float32" } else { "float64" };
    let c = match which { 0 => red!(a, mean, __w_mean, true), 1 => red!(a, var, __w_var, true), _ => red!(a, std, __w_std, true) };
    for (l, b) in vals(c, &a, od, 130) { let n = l.len() as f64; let mut s = 0.0; for p in &l { s += f_at(*p, d); } let m = s / n; let mut q = 0.0; for p in &l { let x = f_at(*p, d) - m; q += x * x; } q /= n; let e = match which { 0 => m, 1 => q, _ => { let r = if od == "float32" { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) }; let t = if od == "float32" { 1e-5 } else { 1e-12 }; check((r * r - q).abs() <= t * (q + 1.0), 136); continue } }; check(b == if od == "float32" { (e as f32).to_bits() as u64 } else { e.to_bits() }, 135); }
}
/// long lanes: vectorised paths, one symbolic element anywhere among constants
fn long_sum() { long_int(0) }
fn long_max() { long_int(1) }
fn long_min() { long_int(2) }
fn long_arg() { long_int(3) }
fn long_int(k: usize) {
    let d = ["uint8", "int32", "int64", "int8"][choose(4)]; let n = [7usize, 8, 9, 16, 17, 33][choose(6)]; let a = layout(d, &[vec![n], vec![2, n], vec![n, 2]][choose(3)], choose(NLAYOUT)); let ax = a.shape.iter().position(|s| *s == n).unwrap();
    for i in a.idx() { put_i(a.addr(&i), d, 5 + (i[ax] as i64 * 7) % 3 + i[a.ndim() - 1 - ax.min(a.ndim() - 1)] as i64 % 2); } let pos = [0, n - 1, n / 2, n - n % 8 - (n % 8 == 0) as usize][choose(4)]; let mut ix = vec![0; a.ndim()]; ix[ax] = pos; sym_at(a.addr(&ix), d);
    let whole = choose(2) == 0; let o = a.o.clone(); let av = int(ax as i64); let c = |r| Call { axes: if whole { (0..a.ndim()).collect() } else { vec![ax] }, all: whole, keep: false, r };
    match k {
        0 => { let r = c(if whole { call!(np::sum; a.o) } else { meth!(o.__w_sum; av) }); for (l, b) in vals(r, &a, wide(d), 140) { let mut s = 0i64; for p in l { s = s.wrapping_add(int_at(p, d)); } check(b == s as u64, 145); } }
        1 => { let r = c(if whole { meth!(o.__w_max;) } else { call!(np::max; a.o, av) }); for (l, b) in vals(r, &a, d, 150) { with!(d, T => bounds::<T>(&l, d, b, true, 155)) } }
        2 => { let r = c(if whole { call!(np::min; a.o) } else { call!(np::amin; a.o, av) }); for (l, b) in vals(r, &a, d, 160) { with!(d, T => bounds::<T>(&l, d, b, false, 165)) } }
        _ => { let r = c(if whole { call!(np::argmax; a.o) } else { meth!(o.__w_argmax; av) }); for (l, b) in vals(r, &a, "int64", 170) { check(b < l.len() as u64, 175); let i = fork(b) as usize; if i >= l.len() { continue } with!(d, T => { let v = T::ld(l[i], d); let mut ok = true; for j in 0..l.len() { ok &= T::cmpo(if j < i { Op::Gt } else { Op::Ge }, v, T::ld(l[j], d)); } check(ok, 176); }) } }
    }
}
fn long_float() {
    let d = ["float64", "float32"][choose(2)]; let n = [8usize, 9, 16, 17, 33][choose(5)]; let a = layout(d, &[vec![n], vec![n, 2]][choose(2)], choose(NLAYOUT)); for (k, i) in a.idx().iter().enumerate() { put_f(a.addr(i), d, -1.0 - (k % 5) as f64); } let pos = choose(n); let mut ix = vec![0; a.ndim()]; ix[0] = pos; put_f(a.addr(&ix), d, [f64::NAN, 3.0, f64::NEG_INFINITY][choose(3)]);
    let m = choose(2) == 0; let whole = choose(2) == 0; let c = Call { axes: if whole { (0..a.ndim()).collect() } else { vec![0] }, all: whole, keep: false, r: if whole { if m { call!(np::max; a.o) } else { call!(np::min; a.o) } } else if m { call!(np::max; a.o, int(0)) } else { call!(np::min; a.o, int(0)) } };
    for (l, b) in vals(c, &a, d, 180) { with!(d, T => fmax_ok::<T>(&l, d, b, m, 185)) }
}
/// every out-of-range axis is refused, every in-range one accepted
fn axis_err() {
    let a = A::of(&zeros("int32", &[2, 3])); let ax: i64 = any(); assume(ax < -2 || ax >= 2); let o = a.o.clone(); let x = int(ax);
    let r = match choose(20) { 0 => call!(np::sum; a.o, x), 1 => call!(np::prod; a.o, x), 2 => call!(np::max; a.o, x), 3 => call!(np::min; a.o, x), 4 => call!(np::mean; a.o, x), 5 => call!(np::var; a.o, x), 6 => call!(np::std; a.o, x), 7 => call!(np::argmax; a.o, x), 8 => call!(np::argmin; a.o, x), 9 => call!(np::any; a.o, x), 10 => call!(np::all; a.o, x), 11 => call!(np::ptp; a.o, x), 12 => meth!(o.__w_sum; x), 13 => meth!(o.__w_max; x), 14 => meth!(o.__w_mean; x), 15 => meth!(o.__w_argmin; x), 16 => meth!(o.__w_all; x), 17 => meth!(o.__w_ptp; x), 18 => call!(np::sum; a.o, tup(vec![int(0), x])), _ => call!(np::median; a.o, x) };
    must_kind(r, Kind::Value, 190);
}
fn axis_dup() { let a = A::of(&zeros("int32", &[2, 3])); let t = [tup(vec![int(0), int(0)]), tup(vec![int(1), int(-1)]), tup(vec![int(0), int(1), int(-2)])][choose(3)].clone(); let r = match choose(5) { 0 => call!(np::sum; a.o, t), 1 => call!(np::max; a.o, t), 2 => call!(np::var; a.o, t), 3 => call!(np::all; a.o, t), _ => call!(np::mean; a.o, t) }; must_err(r, 195); }
/// empty lanes: sum 0, prod 1, any False, all True; max/min/arg* raise
fn empty() {
    let d = ["float64", "int16", "bool", "uint64"][choose(4)]; let sh: &[usize] = [&[0usize] as &[usize], &[0, 2]][choose(2)]; let a = A::of(&zeros(d, sh)); let o = a.o.clone(); let full = choose(2) == 0;
    let k = choose(10); let x = int(0);
    let r = match k { 0 => if full { call!(np::sum; a.o) } else { call!(np::sum; a.o, x) }, 1 => if full { meth!(o.__w_prod;) } else { call!(np::prod; a.o, x) }, 2 => if full { call!(np::any; a.o) } else { meth!(o.__w_any; x) }, 3 => if full { call!(np::all; a.o) } else { call!(np::all; a.o, x) }, 4 => if full { call!(np::max; a.o) } else { call!(np::max; a.o, x) }, 5 => if full { meth!(o.__w_min;) } else { meth!(o.__w_min; x) }, 6 => if full { call!(np::argmax; a.o) } else { call!(np::argmax; a.o, x) }, 7 => if full { meth!(o.__w_argmin;) } else { meth!(o.__w_argmin; x) }, 8 => if full { meth!(o.__w_max;) } else { meth!(o.__w_max; x) }, _ => if full { call!(np::argmin; a.o) } else { call!(np::argmin; a.o, x) } };
    if k >= 4 { must_kind(r, Kind::Value, 200); return; }
    let e = [0.0, 1.0, 0.0, 1.0][k]; let r = must(r, 201); if full { check(obj_f(&r).map(|v| v == e).unwrap_or(matches!(&r.v, Val::UInt(u) if *u as f64 == e)), 202); } else { let r = A::of(&r); check(r.has_shape(if sh.len() == 1 { &[1] } else { &[2] }), 203); for i in r.idx() { check(r.f(&i) == e, 204); } }
}

/// longer lanes in every position: two symbolic elements among constants
fn big_lanes() {
    let d = ["int64", "uint8"][choose(2)]; let sh: &[usize] = [&[2usize, 5, 2] as &[usize], &[2, 9], &[17]][choose(3)]; let a = layout(d, sh, choose(NLAYOUT)); let n = a.size();
    for (k, i) in a.idx().iter().enumerate() { put_i(a.addr(i), d, [5, 9, 2, 7, 9, 2, 4][(k * 3 + k / 7) % 7]); }
    let (p, q) = [(0, n - 1), (n / 2, n - 2)][choose(2)]; let ix = a.idx(); for k in [p, q] { if d == "float64" { put_f(a.addr(&ix[k]), d, int_in(-8, 16) as f64) } else { sym_at(a.addr(&ix[k]), d) } }
    match choose(5) {
        0 => { let c = red!(a, sum, __w_sum, false); if d == "float64" { for (l, b) in vals(c, &a, d, 210) { let s: i64 = l.iter().map(|p| f_at(*p, d) as i64).sum(); check(same_f(f64::from_bits(b), s as f64), 215); } } else { for (l, b) in vals(c, &a, wide(d), 210) { let mut s = 0i64; for p in l { s = s.wrapping_add(int_at(p, d)); } check(b == s as u64, 216); } } }
        1 => { let c = red!(a, max, __w_max, false); for (l, b) in vals(c, &a, d, 220) { with!(d, T => bounds::<T>(&l, d, b, true, 225)) } }
        2 => { let c = red!(a, min, __w_min, false); for (l, b) in vals(c, &a, d, 230) { with!(d, T => bounds::<T>(&l, d, b, false, 235)) } }
        k => { let m = k == 3; let c = if m { red1!(a, argmax, __w_argmax) } else { red1!(a, argmin, __w_argmin) }; for (l, b) in vals(c, &a, "int64", 240) { check(b < l.len() as u64, 245); with!(d, T => first_ext::<T>(&l, d, b, m, 246)) } }
    }
}
fn first_ext<T: Num>(l: &[usize], dt: &str, b: u64, m: bool, id: u32) { let mut ok = true; for k in 0..l.len() { let v = T::ld(l[k], dt); let mut first = true; for j in 0..l.len() { if j == k { continue } let w = T::ld(l[j], dt); let op = if m { if j < k { Op::Gt } else { Op::Ge } } else if j < k { Op::Lt } else { Op::Le }; first &= T::cmpo(op, v, w); } ok &= first == (b == k as u64); } check(ok, id); }
pub const H: &[(&str, fn())] = &[("big_lanes", big_lanes), ("sum_int", sum_int), ("prod_int", prod_int), ("prod_sym", prod_sym), ("max_int", max_int), ("min_int", min_int), ("max_float", max_float), ("argmax_int", argmax_int), ("argmin_int", argmin_int), ("argfloat", argfloat), ("t_all", t_all), ("t_any", t_any), ("t_count", t_count), ("ptp_int", ptp_int), ("fsum", fsum), ("fsum_special", fsum_special), ("mean_var", mean_var), ("long_sum", long_sum), ("long_max", long_max), ("long_min", long_min), ("long_arg", long_arg), ("long_float", long_float), ("axis_err", axis_err), ("axis_dup", axis_dup), ("empty", empty)];
