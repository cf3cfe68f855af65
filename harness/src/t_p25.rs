//! P25: calls leave their operands unchanged and copies share no memory with them.
use crate::sx::*; use crate::util::*;
type F = fn(&pyo3::Args) -> pyo3::PyResult<Obj>;

fn bytes(a: &A) -> Vec<(u64, u64)> { a.idx().iter().map(|i| { let p = a.addr(i); if a.isz <= 8 { (bits_at(p, a.isz), 0) } else { (bits_at(p, 8), bits_at(p + 8, 8)) } }).collect() }
/// first and one-past-last byte of an array
fn span(a: &A) -> (usize, usize) { let (mut lo, mut hi) = (a.ptr as isize, a.ptr as isize + a.isz as isize); for d in 0..a.shape.len() { if a.shape[d] == 0 { return (0, 0); } let s = (a.shape[d] as isize - 1) * a.strides[d]; if s < 0 { lo += s } else { hi += s } } (lo as usize, hi as usize) }
fn disjoint(a: &A, b: &A) -> bool { let (x, y) = (span(a), span(b)); x.1 <= y.0 || y.1 <= x.0 }
fn arrays(o: &Obj, out: &mut Vec<A>) { if let Some(a) = A::try_of(o) { out.push(a); return; } for x in items(o) { arrays(&x, out) } }
/// operands unchanged (values, address, shape and strides); if `fresh`, every array in the result is disjoint from every operand
fn keep(ops: &[&A], before: &[Vec<(u64, u64)>], r: pyo3::PyResult<Obj>, fresh: bool, id: u32) {
    for (a, b) in ops.iter().zip(before) { let n = A::of(&a.o); check(n.ptr == a.ptr && n.shape == a.shape && n.strides == a.strides && n.dt == a.dt, id); let now = bytes(a); for (x, y) in now.iter().zip(b) { check((x.0 == y.0) & (x.1 == y.1), id + 1); } }
    if let (Ok(o), true) = (r, fresh) { let mut l = vec![]; arrays(&o, &mut l); for x in &l { for a in ops { check(disjoint(x, a), id + 2); } } }
}
const UN: &[(&str, F)] = &[("negative", np::negative), ("absolute", np::absolute), ("abs", np::abs), ("square", np::square), ("positive", np::positive), ("sign", np::sign), ("rint", np::rint), ("floor", np::floor), ("ceil", np::ceil), ("trunc", np::trunc), ("round", np::round), ("fix", np::fix), ("sort", np::sort), ("argsort", np::argsort), ("unique", np::unique), ("copy", np::copy), ("cumsum", np::cumsum), ("cumprod", np::cumprod), ("nancumsum", np::nancumsum), ("sum", np::sum), ("max", np::max), ("mean", np::mean), ("median", np::median), ("var", np::var), ("diff", np::diff), ("ediff1d", np::ediff1d), ("flatnonzero", np::flatnonzero), ("nonzero", np::nonzero), ("argwhere", np::argwhere), ("logical_not", np::logical_not), ("isnan", np::isnan), ("nan_to_num", np::nan_to_num), ("zeros_like", np::zeros_like), ("ones_like", np::ones_like), ("tril", np::tril), ("triu", np::triu), ("diagflat", np::diagflat), ("unique_all", np::unique_all), ("array", np::array), ("fabs", np::fabs), ("conjugate", np::conjugate), ("signbit", np::signbit), ("reciprocal", np::reciprocal), ("bincount", np::bincount), ("gradient", np::gradient), ("modf", np::modf), ("frexp", np::frexp), ("ptp", np::ptp), ("argmax", np::argmax), ("trapezoid", np::trapezoid), ("unwrap", np::unwrap), ("count_nonzero", np::count_nonzero), ("bitwise_not", np::bitwise_not), ("real_if_close", np::real_if_close)];
/// functions whose result may be a view, or whose result NumPy leaves free to share memory: only the operands are watched
const VIEW: &[&str] = &["real_if_close"];
fn unary() {
    let k = choose(UN.len() as u64); let (nm, f) = UN[k]; let dt = ["int64", "float64"][choose(2)]; if nm == "bincount" && dt != "int64" { return; } let a = layout(dt, [&[3usize][..], &[2, 2]][choose(2)], [0, 1, 3][choose(3)]);
    // symbolic data in one element only
    for (q, ix) in a.idx().iter().enumerate() { if q > 0 { put_i(a.addr(ix), a.dt, [1, 3, 0, 2][q]); } else if nm == "bincount" || nm == "sort" || nm == "argsort" || nm == "unique" || nm == "unique_all" || nm == "median" { put_i(a.addr(ix), a.dt, 2); } }
    let b = bytes(&a); let r = f(&args(vec![a.o.clone()])); keep(&[&a], &[b], r, !VIEW.contains(&nm), 10);
}
const BIN: &[(&str, F)] = &[("add", np::add), ("subtract", np::subtract), ("multiply", np::multiply), ("maximum", np::maximum), ("minimum", np::minimum), ("equal", np::equal), ("less", np::less), ("logical_and", np::logical_and), ("floor_divide", np::floor_divide), ("remainder", np::remainder), ("power", np::power), ("divide", np::divide), ("fmax", np::fmax), ("copysign", np::copysign), ("bitwise_and", np::bitwise_and), ("bitwise_xor", np::bitwise_xor), ("left_shift", np::left_shift), ("gcd", np::gcd), ("hypot", np::hypot), ("divmod", np::divmod), ("union1d", np::union1d), ("intersect1d", np::intersect1d), ("setdiff1d", np::setdiff1d), ("isin", np::isin), ("searchsorted", np::searchsorted), ("append", np::append), ("convolve", np::convolve), ("outer", np::outer), ("dot", np::dot), ("inner", np::inner), ("matmul", np::matmul), ("array_equal", np::array_equal), ("allclose", np::allclose), ("isclose", np::isclose), ("digitize", np::digitize), ("kron", np::kron), ("heaviside", np::heaviside), ("polyval", np::polyval)];
fn binary() {
    let (nm, f) = BIN[choose(BIN.len() as u64)]; let (da, db) = [("int64", "int64"), ("float64", "float64"), ("int32", "float64")][choose(3)]; if (nm == "dot" || nm == "inner" || nm == "matmul") && db != "int64" { return; } let same = choose(2) == 1; let a = layout(da, &[2], [0, 3][choose(2)]); let b = if same { a.clone() } else { layout(db, &[2], [0, 2][choose(2)]) };
    for (x, z) in [(&a, 2), (&b, 1)] { if nm != "add" && nm != "maximum" { for q in 0..2 { put_i(x.addr(&[q]), x.dt, z + q as i64); } } }
    let (sa, sb) = (bytes(&a), bytes(&b)); let r = f(&args(vec![a.o.clone(), b.o.clone()])); keep(&[&a, &b], &[sa, sb], r, true, 20);
}
/// operators, operator chains and Python scalars
fn operators() {
    let dt = ["int64", "float64", "uint8"][choose(3)]; let a = layout(dt, &[3], [0, 2, 3][choose(3)]); let b = layout(dt, &[3], 0); for q in 0..3 { put_i(b.addr(&[q]), dt, q as i64 + 1); } let o = a.o.clone(); let other = if choose(2) == 0 { b.o.clone() } else { int(2) }; let (sa, sb) = (bytes(&a), bytes(&b));
    let r = match choose(9) { 0 => meth!(o.__w___add__; other), 1 => meth!(o.__w___sub__; other), 2 => meth!(o.__w___mul__; other), 3 => meth!(o.__w___truediv__; other), 4 => meth!(o.__w___radd__; other), 5 => meth!(o.__w___rsub__; other), 6 => meth!(o.__w___neg__;), 7 => { let t = must(meth!(o.__w___add__; other), 29); let st = bytes(&A::of(&t)); let r = meth!(t.__w___mul__; other); let now = bytes(&A::of(&t)); for k in 0..3 { check(now[k].0 == st[k].0, 28); } r } _ => meth!(o.__w___rmul__; other) };
    keep(&[&a, &b], &[sa, sb], r, true, 30);
}
/// methods that return copies, also when the conversion changes nothing
fn copies() {
    let dt = ["int64", "float64", "complex128", "bool"][choose(4)]; let a = layout(dt, [&[3usize][..], &[2, 2], &[1, 2]][choose(3)], choose(NLAYOUT)); let o = a.o.clone(); let s = bytes(&a);
    let r = match choose(8) { 0 => meth!(o.__w_copy;), 1 => meth!(o.__w_flatten;), 2 => meth!(o.__w_astype; st(dt)), 3 => call!(np::array; a.o), 4 => call!(np::copy; a.o), 5 => call!(np::take; a.o, ilst(&[0, 0])), 6 => { let m = layout("bool", &a.shape, 0); for ix in m.idx() { put_i(m.addr(&ix), "bool", 1); } getitem(&a.o, m.o) } _ => getitem(&a.o, ilst(&[0])) };
    must(match &r { Ok(o) => Ok(o.clone()), Err(_) => Err(pyo3::PyErr::k(Kind::Value)) }, 40); let r0 = A::of(match &r { Ok(o) => o, Err(_) => stop() });
    keep(&[&a], &[s.clone()], r, true, 41); // writing to the copy leaves the original alone
    if r0.size() > 0 { let ix = r0.idx()[0].clone(); if dt != "complex128" { put_i(r0.addr(&ix), r0.dt, 1); } let now = bytes(&a); for k in 0..now.len() { check(now[k] == s[k], 44); } }
}
/// joining and repeating a single operand still copies
fn joins() {
    let a = layout(["int64", "int8"][choose(2)], &[2, 2], choose(NLAYOUT)); let s = bytes(&a); let l = lst(vec![a.o.clone()]);
    let r = match choose(14) { 0 => call!(np::concatenate; l), 1 => call!(np::stack; l), 2 => call!(np::vstack; l), 3 => call!(np::hstack; l), 4 => call!(np::tile; a.o, int(1)), 5 => call!(np::repeat; a.o, int(1)), 6 => call!(np::roll; a.o, int(0)), 7 => call!(np::append; a.o, a.o), 8 => call!(np::pad; a.o, int(0)), 9 => call!(np::delete; a.o, ilst(&[])), 10 => call!(np::resize; a.o, itup(&[2, 2])), 11 => { let c = sym("bool", &[2, 2]); call!(np::r#where; c.o, a.o, a.o) } 12 => call!(np::clip; a.o, int(-100), int(100)), _ => call!(np::dstack; l) };
    keep(&[&a], &[s], r, true, 50);
}
/// views do share memory: writing through the view is seen in the original
fn views() {
    let a = layout("int64", &[2, 3], choose(NLAYOUT)); let o = a.o.clone(); let v = A::of(&must(match choose(7) { 0 => call!(np::transpose; a.o), 1 => meth!(o.__w_T;), 2 => getitem(&a.o, slice(None, None, Some(-1))), 3 => call!(np::flip; a.o), 4 => call!(np::expand_dims; a.o, int(0)), 5 => call!(np::swapaxes; a.o, int(0), int(1)), _ => call!(np::broadcast_to; a.o, itup(&[2, 2, 3])) }, 60));
    check(!disjoint(&v, &a), 61); check(matches!(must(call!(np::shares_memory; a.o, v.o), 62).v, Val::Bool(true)), 62); check(matches!(must(call!(np::may_share_memory; v.o, a.o), 63).v, Val::Bool(true)), 63);
    let c = must(call!(np::copy; a.o), 64); check(matches!(must(call!(np::shares_memory; a.o, c), 65).v, Val::Bool(false)), 65);
}
/// arrays large enough for buffer reuse: a + b leaves both operands alone and returns fresh memory
fn large() {
    let n = 32768; let dt = ["float64", "int64"][choose(2)]; let a = A::of(&zeros(dt, &[n])); let b = A::of(&zeros(dt, &[n])); let at = [0usize, 1, 17, n - 1]; let z: i64 = int_in(-1000, 1000); let o = a.o.clone();
    for q in at { put_i(a.addr(&[q]), dt, 3 + q as i64); put_i(b.addr(&[q]), dt, if q == 17 { z } else { 5 }); } if dt == "float64" { put_i(b.addr(&[17]), dt, 9); }
    let w = |x: &A| at.iter().map(|q| x.bits(&[*q])).collect::<Vec<_>>(); let (sa, sb) = (w(&a), w(&b)); let op = choose(4); let r = arr_of(match op { 0 => meth!(o.__w___add__; b.o), 1 => meth!(o.__w___sub__; b.o), 2 => meth!(o.__w___mul__; b.o), _ => meth!(o.__w___add__; o) }, 70);
    let (na, nb) = (w(&a), w(&b)); for k in 0..4 { check((na[k] == sa[k]) & (nb[k] == sb[k]), 71); } check(disjoint(&r, &a) && disjoint(&r, &b), 72);
    for (k, q) in at.iter().enumerate() { if dt == "int64" { let (x, y) = (sa[k] as i64, sb[k] as i64); check(r.i(&[*q]) == match op { 0 => x + y, 1 => x - y, 2 => x * y, _ => x + x }, 73); } }
    check(r.bits(&[5]) == 0, 74);
}
pub const H: &[(&str, fn())] = &[("unary", unary), ("binary", binary), ("operators", operators), ("copies", copies), ("joins", joins), ("views", views), ("large", large)];
