//! P22: NaN-ignoring reductions and order statistics: nansum nanprod nanmin nanmax nanmean nanvar nanstd nanargmin nanargmax,
//! median nanmedian percentile quantile nanpercentile nanquantile, average.
use crate::sx::*; use crate::util::*; use pyo3::{PyResult, Val};

const SH: &[&[usize]] = &[&[3], &[2, 3], &[3, 2], &[2, 1, 3]];
fn lanes(a: &A, ax: Option<usize>) -> (Vec<usize>, Vec<Vec<usize>>) { match ax { None => (vec![], vec![a.idx().iter().map(|i| a.addr(i)).collect()]), Some(x) => { let mut o = a.shape.clone(); let n = o.remove(x); let l = indices(&o).iter().map(|i| (0..n).map(|j| { let mut q = i.clone(); q.insert(x, j); a.addr(&q) }).collect()).collect(); (o, l) } } }
/// axis: none, or one axis counted from either end
fn axis(nd: usize) -> (Option<usize>, Option<Obj>) { let k = choose(2 * nd + 1); if k == 0 { (None, None) } else if k <= nd { (Some(k - 1), Some(int(k as i64 - 1))) } else { (Some(k - 1 - nd), Some(int((k - 1 - nd) as i64 - nd as i64))) } }
macro_rules! go { ($f:ident, $a:expr, $x:expr) => { match $x { Some(x) => call!(np::$f; $a.o; axis = x), None => call!(np::$f; $a.o) } } }
/// f64 value per lane; a Python number for the full reduction
fn outs(r: PyResult<Obj>, a: &A, ax: Option<usize>, dts: &[&str], id: u32) -> Vec<(Vec<usize>, f64)> {
    let o = must(r, id); let (osh, ls) = lanes(a, ax); if ax.is_none() { let f = match &o.v { Val::Float(f) => *f, Val::Int(i) => *i as f64, _ => match A::try_of(&o) { Some(r) if r.size() == 1 => r.f(&r.idx()[0]), _ => { check(false, id + 1); stop() } } }; return vec![(ls[0].clone(), f)]; }
    let r = match A::try_of(&o) { Some(r) => r, None => { check(false, id + 1); stop() } }; check(dts.contains(&r.dt), id + 2); let want = if osh.is_empty() { vec![1] } else { osh }; check(r.has_shape(&want), id + 3); if !r.has_shape(&want) { stop() } let v = r.flat_f(); ls.into_iter().zip(v).collect()
}
/// equal to one of the orders in which two terms may be added
fn any_of(v: f64, w: &[f64]) -> bool { let mut r = false; for x in w { r |= same_f(v, *x); } r }
const V: [f64; 6] = [3.0, -1.0, 6.0, 2.0, 8.0, -4.0];
/// every pattern of NaN over small exactly representable numbers
fn pattern(d: &'static str, sh: &[usize], k: usize) -> A { let a = layout(d, sh, k); let m = choose(3); for (k, i) in a.idx().iter().enumerate() { let s = if m == 0 { k < 3 } else if m == 1 { k >= 3 } else { k % 2 == 0 }; put_f(a.addr(i), d, if s && choose(2) == 1 || (!s && k == 1) { f64::NAN } else { V[k] }); } a }
fn good(l: &[usize], d: &str) -> Vec<f64> { l.iter().map(|p| f_at(*p, d)).filter(|v| !v.is_nan()).collect() }
fn pat(f: u64, id: u32) {
    let d = ["float64", "float32"][choose(2)]; let a = pattern(d, SH[choose(SH.len())], choose(NLAYOUT)); let (ax, x) = axis(a.ndim());
    let both: &[&str] = &[d, "float64"]; let r = match f { 0 => go!(nansum, a, x), 1 => go!(nanprod, a, x), 2 => go!(nanmin, a, x), 3 => go!(nanmax, a, x), 4 => go!(nanmean, a, x), 5 => go!(nanvar, a, x), _ => go!(nanstd, a, x) };
    for (l, v) in outs(r, &a, ax, if f < 4 { &both[..1] } else { both }, id) { let g = good(&l, d); let n = g.len() as f64; let s: f64 = g.iter().sum();
        match f { 0 => check(v == s, id + 5), 1 => check(v == g.iter().product::<f64>(), id + 5), 2 | 3 => { let mut m = f64::NAN; for w in &g { if m.is_nan() || (f == 2 && *w < m) || (f == 3 && *w > m) { m = *w } } check(same_f(v, m), id + 5) } 4 => check(if g.is_empty() { v.is_nan() } else { (v - s / n).abs() <= 1e-6 }, id + 5), _ => { let m = s / n; let q: f64 = g.iter().map(|w| (w - m) * (w - m)).sum::<f64>() / n; check(if g.is_empty() { v.is_nan() } else if f == 5 { (v - q).abs() <= 1e-5 } else { (v * v - q).abs() <= 1e-4 }, id + 5) } } }
}
fn p_sum() { pat(0, 10) } fn p_prod() { pat(1, 20) } fn p_min() { pat(2, 30) } fn p_max() { pat(3, 40) } fn p_mean() { pat(4, 50) } fn p_var() { pat(5, 60) } fn p_std() { pat(6, 70) }
/// arbitrary float64/float32 elements, NaN included
fn sym_f() {
    let d = ["float64", "float32"][choose(2)]; let a = layout(d, &[2], [0, 2, 3][choose(3)]); let f = choose(3); let x = [None, Some(int(0))][choose(2)].clone(); let ax = if x.is_some() { Some(0) } else { None };
    let r = match f { 0 => go!(nansum, a, x), 1 => go!(nanmin, a, x), _ => go!(nanmax, a, x) }; let (l, v) = outs(r, &a, ax, &[d], 80)[0].clone(); let (p, q) = (f_at(l[0], d), f_at(l[1], d)); let (np_, nq) = (p != p, q != q);
    match f { 0 => { let t = |x: f64, y: f64| if d == "float32" { (x as f32 + y as f32) as f64 } else { x + y }; if np_ | nq { check(same_f(v, if np_ { if nq { 0.0 } else { q } } else { p }), 84) } else { check(any_of(v, &[t(p, q), t(q, p), t(t(0.0, p), q), t(t(0.0, q), p)]), 85) } } _ => { let w = if np_ { q } else if nq { p } else if (p < q) == (f == 1) { p } else { q }; check(same_f(v, w), 86) } }
}
/// integers: the plain reductions, exactly
fn ints() {
    let d = ["int64", "uint64", "int8", "bool"][choose(4)]; let a = layout(d, &[2, 2], [0, 1, 2, 3][choose(4)]); put_i(a.addr(&[0, 1]), d, 1); put_i(a.addr(&[1, 0]), d, if d == "bool" { 0 } else { 77 }); let ax = choose(2); let x = Some(int(ax as i64 - 2)); let f = choose(5);
    let r = arr_of(match f { 0 => go!(nansum, a, x), 1 => go!(nanmin, a, x), 2 => go!(nanmax, a, x), 3 => go!(nanargmin, a, x), _ => go!(nanargmax, a, x) }, 90); let dt = match f { 0 => if is_uns(d) && d != "bool" { "uint64" } else { "int64" }, 1 | 2 => d, _ => "int64" }; check(r.dt == dt, 91); check(r.has_shape(&[2]), 92); if r.dt != dt || !r.has_shape(&[2]) { stop() }
    for (j, l) in lanes(&a, Some(ax)).1.iter().enumerate() { let b = r.bits(&[j]); with!(d, T => { let (p, q) = (T::ld(l[0], d), T::ld(l[1], d)); let lt = T::cmpo(Op::Lt, p, q); let gt = T::cmpo(Op::Lt, q, p); let (bp, bq) = (bits_at(l[0], isz(d)), bits_at(l[1], isz(d))); match f { 0 => check(b == int_at(l[0], d).wrapping_add(int_at(l[1], d)) as u64, 95), 1 => check(b == if gt { bq } else { bp }, 96), 2 => check(b == if lt { bq } else { bp }, 97), 3 => check(b == gt as u64, 98), _ => check(b == lt as u64, 99) } }) }
}
/// nanargmin / nanargmax: the first best non-NaN element; a lane without one is an error
fn argp() {
    let d = ["float64", "float32"][choose(2)]; let a = pattern(d, SH[choose(3)], choose(NLAYOUT)); let t = choose(2) == 1; if t { put_f(a.addr(&a.idx()[2]), d, 3.0) } let (ax, x) = axis(a.ndim()); let mn = choose(2) == 0; let r = if mn { go!(nanargmin, a, x) } else { go!(nanargmax, a, x) }; let (_, ls) = lanes(&a, ax);
    if ls.iter().any(|l| good(l, d).is_empty()) { return must_kind(r, Kind::Value, 100); }
    for (l, v) in outs(r, &a, ax, &["int64"], 101) { let mut b = usize::MAX; for (k, p) in l.iter().enumerate() { let w = f_at(*p, d); if !w.is_nan() && (b == usize::MAX || if mn { w < f_at(l[b], d) } else { w > f_at(l[b], d) }) { b = k } } check(v == b as f64, 106); }
}
fn argsym() { let a = layout("float64", &[2], [0, 2, 3][choose(3)]); let (p, q) = (a.f(&[0]), a.f(&[1])); let mn = choose(2) == 0; let x: Option<Obj> = None; let r = if mn { go!(nanargmin, a, x) } else { go!(nanargmax, a, x) }; if (p != p) & (q != q) { return must_kind(r, Kind::Value, 108); } let (_, v) = outs(r, &a, None, &["int64"], 109)[0].clone(); let second = (p != p) | if mn { q < p } else { q > p }; check(v == second as u8 as f64, 112); }
/// median: the middle of the lane, or the mean of the two middle elements; NaN if the lane has one
fn med_sym() {
    let d = ["float64", "uint8"][choose(2)]; let n = [1, 3][choose(2)]; let a = layout(d, &[n], [0, 2, 3][choose(3)]); if n == 3 && d == "float64" { put_f(a.addr(&[1]), d, 2.5) } let x = [None, Some(int(0))][choose(2)].clone(); let ax = if x.is_some() { Some(0) } else { None }; let c = choose(2); if n == 3 { for i in 0..n { let w = a.f(&[i]); assume(w == w); } }
    let r = if c == 0 { go!(median, a, x) } else { go!(nanmedian, a, x) }; let (l, v) = outs(r, &a, ax, &["float64"], 115)[0].clone(); let w: Vec<f64> = l.iter().map(|p| f_at(*p, d)).collect(); med_chk(&w, v, c == 1, 120);
}
fn med_chk(w: &[f64], v: f64, skip: bool, id: u32) {
    let mut g = vec![]; let mut nan = false; for x in w { if *x != *x { nan = true } else { g.push(*x) } } if g.is_empty() || (nan && !skip) { return check(v != v, id); }
    if g.len() == 1 { check(same_f(v, g[0]), id + 1) } else if g.len() == 2 { let m = [f64::NEG_INFINITY.max(g[0]), f64::NEG_INFINITY.max(g[1])]; check(any_of(v, &[(g[0] + g[1]) / 2.0, (g[1] + g[0]) / 2.0, (g[0] + g[1]) * 0.5, (g[1] + g[0]) * 0.5, (m[0] + g[1]) / 2.0, (m[1] + g[0]) / 2.0]), id + 2) } else { let mut mem = false; let (mut lo, mut hi) = (0u64, 0u64); for x in &g { mem |= same_f(*x, v); lo += (*x <= v) as u64; hi += (*x >= v) as u64; } check(mem, id + 3); check((lo >= 2) & (hi >= 2), id + 4); }
}
/// every NaN pattern, shape, layout and axis of the order statistics
fn order(f: u64, id: u32) {
    let d = ["float64", "float32"][choose(2)]; let a = pattern(d, SH[choose(SH.len())], choose(NLAYOUT)); let (ax, x) = axis(a.ndim()); let pc = [0.0, 25.0, 50.0, 75.0, 100.0][choose(5)]; if f < 2 && pc != 50.0 { stop() } let fl = flt(if f % 4 >= 2 { pc } else { pc / 100.0 });
    macro_rules! gq { ($f:ident) => { match &x { Some(x) => call!(np::$f; a.o, fl; axis = x), None => call!(np::$f; a.o, fl) } } }
    let (r, skip) = match f { 0 => (go!(median, a, x), false), 1 => (go!(nanmedian, a, x), true), 2 => (gq!(percentile), false), 3 => (gq!(nanpercentile), true), 4 => (gq!(quantile), false), _ => (gq!(nanquantile), true) };
    for (l, v) in outs(r, &a, ax, &["float64"], id) { let mut g = good(&l, d); if g.is_empty() || (!skip && g.len() < l.len()) { check(v.is_nan(), id + 5); continue } g.sort_by(|p, q| p.partial_cmp(q).unwrap()); let h = (g.len() - 1) as f64 * pc / 100.0; let i = h as usize; let e = if i + 1 < g.len() { g[i] + (g[i + 1] - g[i]) * (h - i as f64) } else { g[i] }; check((v - e).abs() <= 1e-9, id + 6); }
}
fn o_med() { order(0, 130) } fn o_nanmed() { order(1, 140) } fn o_pct() { order(2, 150) } fn o_nanpct() { order(3, 160) } fn o_q() { order(4, 170) } fn o_nanq() { order(5, 180) }
/// several percentiles at once: one leading axis
fn multi() { let a = pattern("float64", &[2, 3], choose(NLAYOUT)); let (ax, x) = axis(2); let q = lst(vec![flt(0.0), flt(100.0)]); let c = choose(2); let r = arr_of(match (c, &x) { (0, Some(x)) => call!(np::percentile; a.o, q; axis = x), (0, None) => call!(np::percentile; a.o, q), (_, Some(x)) => call!(np::nanpercentile; a.o, q; axis = x), _ => call!(np::nanpercentile; a.o, q) }, 190); let (osh, ls) = lanes(&a, ax); let mut want = vec![2]; want.extend(&osh); check(r.has_shape(&want), 191); if !r.has_shape(&want) { stop() } let v = r.flat_f(); for (j, l) in ls.iter().enumerate() { let g = good(l, "float64"); let bad = g.is_empty() || (c == 0 && g.len() < l.len()); for k in 0..2 { let w = v[k * ls.len() + j]; let mut m = f64::NAN; for x in &g { if m.is_nan() || (k == 0 && *x < m) || (k == 1 && *x > m) { m = *x } } check(if bad { w.is_nan() } else { w == m }, 192); } } }
/// extremes of symbolic data, and q outside its range
fn pct_sym() { let d = ["float64", "int32"][choose(2)]; let a = layout(d, &[3], [0, 2, 3][choose(3)]); put_i(a.addr(&[2]), d, 5); let c = choose(2); let q = flt(if c == 0 { 0.0 } else { 100.0 }); let r = arr_of(call!(np::percentile; a.o, q), 195); check(r.size() == 1 && r.dt == "float64", 196); let v = r.f(&r.idx()[0]); let w: Vec<f64> = a.flat_f(); let mut nan = false; for x in &w { nan |= *x != *x; } let (mut mem, mut b) = (false, true); for x in &w { mem |= same_f(*x, v); b &= if c == 0 { v <= *x } else { v >= *x }; } check(if nan { v != v } else { mem & b }, 197); }
fn pct_err() { let a = sym("float64", &[2]); let q: f64 = any(); let f = choose(4); let hi = if f < 2 { 100.0 } else { 1.0 }; assume(!(q >= 0.0 && q <= hi)); let qo = flt(q); let r = match f { 0 => call!(np::percentile; a.o, qo), 1 => call!(np::nanpercentile; a.o, qo), 2 => call!(np::quantile; a.o, qo), _ => call!(np::nanquantile; a.o, qo) }; must_kind(r, Kind::Value, 198); }
/// average: sum of weight times element over sum of weights
fn avg() {
    let d = ["float64", "int8", "uint16", "int32"][choose(4)]; let e = ["float64", "int8"][choose(2)]; let sh = [&[2usize] as &[usize], &[2, 2], &[2, 3]][choose(3)]; let a = layout(d, sh, choose(NLAYOUT)); for (k, i) in a.idx().iter().enumerate() { put_i(a.addr(i), d, [100, 3, 77, 9, 50, 120][k]) } let (ax, x) = axis(a.ndim()); let mode = choose(3);
    if mode == 0 { let r = go!(average, a, x); for (l, v) in outs(r, &a, ax, &["float64"], 200) { let s: f64 = l.iter().map(|p| f_at(*p, d)).sum(); check((v - s / l.len() as f64).abs() <= 1e-9, 205); } return; }
    let full = mode == 1; if !full && ax.is_none() { stop() } let wsh: Vec<usize> = if full { a.shape.clone() } else { vec![a.shape[ax.unwrap()]] }; let w = layout(e, &wsh, [0, 2, 3][choose(3)]); let wv = [100i64, 27, 1, 5, 2, 0]; for (k, i) in w.idx().iter().enumerate() { put_i(w.addr(i), e, wv[k]) }
    let r = match &x { Some(x) => call!(np::average; a.o; axis = x, weights = w.o), None => call!(np::average; a.o; weights = w.o) }; let wl = if full { lanes(&w, ax).1 } else { vec![] };
    for (j, (l, v)) in outs(r, &a, ax, &["float64"], 210).iter().enumerate() { let (mut s, mut t) = (0.0, 0.0); for k in 0..l.len() { let q = if full { f_at(wl[j][k], e) } else { w.f(&[k]) }; s += q * f_at(l[k], d); t += q; } check((v - s / t).abs() <= 1e-9, 215); }
}
fn avg_sym() { let a = sym("float64", &[2]); let w = filled_i("float64", &[2], |k| [1, 3][k]); let r = call!(np::average; a.o; weights = w.o); let v = outs(r, &a, None, &["float64"], 220)[0].1; let (p, q) = (a.f(&[0]), a.f(&[1])); let (s, t) = (p * 1.0, q * 3.0); check(any_of(v, &[(s + t) / 4.0, (t + s) / 4.0, (0.0 + s + t) / 4.0, (p + t) / 4.0, (t + p) / 4.0, (0.0 + p + t) / 4.0]), 225); }
fn errs() {
    let a = sym("float64", &[2, 3]); let k: i64 = any(); assume(k < -2 || k >= 2); let x = Some(int(k)); let q = flt(0.5); let c = choose(15);
    let r = match c { 0 => go!(nansum, a, x), 1 => go!(nanprod, a, x), 2 => go!(nanmin, a, x), 3 => go!(nanmax, a, x), 4 => go!(nanmean, a, x), 5 => go!(nanvar, a, x), 6 => go!(nanstd, a, x), 7 => go!(nanargmin, a, x), 8 => go!(nanargmax, a, x), 9 => go!(median, a, x), 10 => go!(nanmedian, a, x), 11 => go!(average, a, x), 12 => { let k = int(k); call!(np::percentile; a.o, q; axis = k) } 13 => { let k = int(k); call!(np::quantile; a.o, q; axis = k) } _ => { let k = int(k); call!(np::nanpercentile; a.o, q; axis = k) } }; must_err(r, 230);
}
fn empty() { let a = A::of(&zeros("float64", &[0, 2])); let c = choose(4); let x = [None, Some(int(0))][choose(2)].clone(); let r = match c { 0 => go!(nanmin, a, x), 1 => go!(nanmax, a, x), 2 => go!(nanargmin, a, x), _ => go!(nanargmax, a, x) }; must_kind(r, Kind::Value, 235); let x = Some(int(0)); let r = match c { 0 => go!(nansum, a, x), 1 => go!(nanprod, a, x), 2 => go!(nanmean, a, x), _ => go!(nanmedian, a, x) }; for (_, v) in outs(r, &a, Some(0), &["float64"], 236) { check(match c { 0 => v == 0.0, 1 => v == 1.0, _ => v.is_nan() }, 239) } }
fn weights_err() { let a = sym("float64", &[2, 3]); let w = sym("float64", [&[2usize] as &[usize], &[3], &[3, 2], &[2, 3, 1]][choose(4)]); let c = choose(3); if (c == 1 && w.has_shape(&[2])) || (c == 2 && w.has_shape(&[3])) { stop() } let r = match c { 0 => call!(np::average; a.o; weights = w.o), 1 => call!(np::average; a.o; axis = int(0), weights = w.o), _ => call!(np::average; a.o; axis = int(1), weights = w.o) }; must_err(r, 240); let w = filled_i("int32", &[2, 3], |k| [1, -1, 0, 0, 2, -2][k]); must_kind(call!(np::average; a.o; weights = w.o), Kind::ZeroDivision, 241); }
/// a longer lane with NaN among the values
fn long() { let n = [25usize, 60][choose(2)]; let a = layout("float64", &[n], [0, 2, 3][choose(3)]); let p = choose(3); for k in 0..n { put_f(a.addr(&[k]), "float64", if p > 0 && k % (p + 2) == 0 { f64::NAN } else { ((k * 37) % 23) as f64 }) } let x = [None, Some(int(0))][choose(2)].clone(); let ax = if x.is_some() { Some(0) } else { None }; let f = choose(4); let q = flt(50.0); let r = match f { 0 => go!(median, a, x), 1 => go!(nanmedian, a, x), 2 => match &x { Some(x) => call!(np::percentile; a.o, q; axis = x), None => call!(np::percentile; a.o, q) }, _ => match &x { Some(x) => call!(np::nanpercentile; a.o, q; axis = x), None => call!(np::nanpercentile; a.o, q) } }; let (l, v) = outs(r, &a, ax, &["float64"], 245)[0].clone(); let mut g = good(&l, "float64"); if g.len() < n && f % 2 == 0 { return check(v.is_nan(), 249); } g.sort_by(|a, b| a.partial_cmp(b).unwrap()); let m = g.len(); check(v == (g[(m - 1) / 2] + g[m / 2]) / 2.0, 248); }
pub const H: &[(&str, fn())] = &[("p_sum", p_sum), ("p_prod", p_prod), ("p_min", p_min), ("p_max", p_max), ("p_mean", p_mean), ("p_var", p_var), ("p_std", p_std), ("sym_f", sym_f), ("ints", ints), ("argp", argp), ("argsym", argsym), ("med_sym", med_sym), ("o_med", o_med), ("o_nanmed", o_nanmed), ("o_pct", o_pct), ("o_nanpct", o_nanpct), ("o_q", o_q), ("o_nanq", o_nanq), ("multi", multi), ("pct_sym", pct_sym), ("pct_err", pct_err), ("avg", avg), ("avg_sym", avg_sym), ("errs", errs), ("empty", empty), ("weights_err", weights_err), ("long", long)];
