//! P06: comparisons and logical operations decide exactly, element by element.
use crate::sx::*; use crate::util::*;

const ALL: &[&str] = &["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"];
const OPS: &[Op] = &[Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge];
fn any_int(a: &A, ix: &[usize]) -> i128 { if a.dt == "uint64" { a.bits(ix) as i128 } else { a.i(ix) as i128 } }
fn rel<T: PartialOrd>(op: Op, x: T, y: T) -> bool { match op { Op::Eq => x == y, Op::Ne => x != y, Op::Lt => x < y, Op::Le => x <= y, Op::Gt => x > y, _ => x >= y } }
/// all pairs of dtypes, all values: integers compare as integers, mixed pairs after conversion to the common float type
fn pairs() {
    let (da, db) = (ALL[choose(11)], ALL[choose(11)]); let op = OPS[choose(6)]; let (a, b) = (sym(da, &[2]), sym(db, &[2]));
    let r = arr_of(if choose(2) == 0 { np_op(op, &a.o, &b.o) } else { py_op(op, &a.o, &b.o) }, 10); check(r.dt == "bool" && r.has_shape(&[2]), 11); if r.dt != "bool" || r.size() != 2 { return; }
    for k in 0..2 { let ix = [k]; let e = if is_float(da) || is_float(db) { let p = promo(da, db); if p == "float32" { rel(op, f32::ld(a.addr(&ix), da), f32::ld(b.addr(&ix), db)) } else { rel(op, f64::ld(a.addr(&ix), da), f64::ld(b.addr(&ix), db)) } } else { rel(op, any_int(&a, &ix), any_int(&b, &ix)) }; check(r.bits(&ix) == e as u64, 12); }
}
/// against Python integers of any size, both sides
fn scalar_int() {
    let da = INTS[choose(8)]; let op = OPS[choose(6)]; let a = sym(da, &[2]); let k: i64 = any(); let o = a.o.clone();
    if choose(2) == 0 { let r = arr_of(py_op(op, &o, &int(k)), 20); check(r.dt == "bool" && r.size() == 2, 21); if r.size() != 2 { return; } for i in 0..2 { check(r.bits(&[i]) == rel(op, any_int(&a, &[i]), k as i128) as u64, 22); } }
    else { let r = arr_of(np_op(op, &int(k), &o), 23); check(r.dt == "bool" && r.size() == 2, 24); if r.size() != 2 { return; } for i in 0..2 { check(r.bits(&[i]) == rel(op, k as i128, any_int(&a, &[i])) as u64, 25); } }
}
fn scalar_float() {
    let da = ["float64", "float32", "int16", "uint8"][choose(4)]; let op = OPS[choose(6)]; let a = sym(da, &[2]); let v = [0.0, -0.0, 1.5, -3.0, f64::INFINITY, f64::NAN][choose(6)]; let r = arr_of(py_op(op, &a.o, &flt(v)), 30); check(r.dt == "bool" && r.size() == 2, 31); if r.size() != 2 { return; }
    for i in 0..2 { check(r.bits(&[i]) == rel(op, a.f(&[i]), v) as u64, 32); }
}
/// truth value: anything but zero (NaN is true)
fn truth(a: &A, ix: &[usize]) -> bool { if is_float(a.dt) { a.f(ix) != 0.0 } else { a.bits(ix) != 0 } }
fn logical() {
    let (da, db) = (ALL[choose(11)], ALL[choose(11)]); let (sa, sb): (&[usize], &[usize]) = [(&[2usize][..], &[2usize][..]), (&[2, 2], &[2]), (&[2, 1], &[1, 2])][choose(3)]; let l = choose(3); let (a, b) = (layout(da, sa, [0, 2, 1][l]), layout(db, sb, [0, 3, 2][l])); let f = choose(3);
    let r = arr_of(match f { 0 => call!(np::logical_and; a.o, b.o), 1 => call!(np::logical_or; a.o, b.o), _ => call!(np::logical_xor; a.o, b.o) }, 40); let sh = bcast(sa, sb).unwrap(); check(r.dt == "bool" && r.has_shape(&sh), 41); if !r.has_shape(&sh) { return; }
    for ix in r.idx() { let (x, y) = (truth(&a, &bix(&ix, sa)), truth(&b, &bix(&ix, sb))); let e = match f { 0 => x & y, 1 => x | y, _ => x ^ y }; check(r.bits(&ix) == e as u64, 42); }
}
fn logical_not() { let a = layout(ALL[choose(11)], &[2, 2], choose(NLAYOUT)); let r = arr_of(call!(np::logical_not; a.o), 45); check(r.dt == "bool" && r.has_shape(&[2, 2]), 46); if r.size() != 4 { return; } for ix in r.idx() { check(r.bits(&ix) == !truth(&a, &ix) as u64, 47); } }
/// array_equal: same shape and all elements equal; mixed dtypes, layouts, NaN never equal
fn array_equal() {
    let (da, db) = (ALL[choose(11)], ALL[choose(11)]); let k = choose(7); let (sa, sb): (&[usize], &[usize]) = [(&[2usize][..], &[2usize][..]), (&[2], &[3]), (&[2, 1], &[2]), (&[1], &[2]), (&[], &[1]), (&[0], &[0]), (&[0, 2], &[2, 0])][k]; let (a, b) = (layout(da, sa, [0, 2, 3][choose(3)]), layout(db, sb, [0, 1][choose(2)]));
    let r = must(call!(np::array_equal; a.o, b.o), 50); let got = match &r.v { Val::Bool(v) => *v, _ => { check(false, 51); return; } }; if sa != sb { check(!got, 52); return; }
    let mut e = true; for ix in a.idx() { e &= if is_float(da) || is_float(db) { let p = promo(da, db); if p == "float32" { f32::ld(a.addr(&ix), da) == f32::ld(b.addr(&ix), db) } else { f64::ld(a.addr(&ix), da) == f64::ld(b.addr(&ix), db) } } else { any_int(&a, &ix) == any_int(&b, &ix) }; } check(got == e, 53);
}
/// isclose/allclose: |a - b| <= atol + rtol |b|, infinities equal only to themselves, NaN per equal_nan
const F: &[f64] = &[0.0, -0.0, 1.0, 1.0 + 1e-9, 1.00002, -1.0, 1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-9];
fn isclose() {
    let (x, y) = (F[choose(11)], F[choose(11)]); let (rt, at, en) = ([1e-5, 0.0, 0.5][choose(3)], [1e-8, 0.0, 2.0][choose(3)], choose(2) == 1); let (a, b) = (A::of(&zeros("float64", &[2])), A::of(&zeros("float64", &[1]))); put_f(a.addr(&[0]), "float64", x); put_f(a.addr(&[1]), "float64", y); put_f(b.ptr, "float64", y);
    let cl = |x: f64, y: f64| if x.is_finite() && y.is_finite() { (x - y).abs() <= at + rt * y.abs() } else { x == y || (en && x.is_nan() && y.is_nan()) };
    let r = arr_of(call!(np::isclose; a.o, b.o; rtol = flt(rt), atol = flt(at), equal_nan = boo(en)), 60); check(r.dt == "bool" && r.has_shape(&[2]), 61); if r.size() != 2 { return; }
    check(r.bits(&[0]) == cl(x, y) as u64 && r.bits(&[1]) == cl(y, y) as u64, 62);
    let o = must(call!(np::allclose; a.o, b.o; rtol = flt(rt), atol = flt(at), equal_nan = boo(en)), 63); match &o.v { Val::Bool(v) => check(*v == (cl(x, y) && cl(y, y)), 64), _ => check(false, 65) }
}
/// long runs and strided operands (vector loops)
fn long() {
    let dt = ["int64", "float64", "int8", "uint32"][choose(4)]; let n = [16usize, 17, 33, 65][choose(4)]; let op = OPS[choose(6)]; let (a, b) = (layout(dt, &[n], [0, 2][choose(2)]), layout(dt, &[n], [0, 3][choose(2)]));
    check_binop(&arr_of(np_op(op, &a.o, &b.o), 70), op, &a, &b, 71);
}

pub const H: &[(&str, fn())] = &[("pairs", pairs), ("scalar_int", scalar_int), ("scalar_float", scalar_float), ("logical", logical), ("logical_not", logical_not), ("array_equal", array_equal), ("isclose", isclose), ("long", long)];
