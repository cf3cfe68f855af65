//! P05: integer and boolean arithmetic: NumPy's result type and exact values for every operand pair.
use crate::sx::*; use crate::util::*;

const ALL: &[&str] = &["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"];
fn run(op: Op, a: &A, b: &A, id: u32) { let r = if choose(2) == 0 { np_op(op, &a.o, &b.o) } else { py_op(op, &a.o, &b.o) }; check_binop(&arr_of(r, id), op, a, b, id + 1); }
/// + - * on every pair of the 11 dtypes, all values
fn addsub() {
    let (da, db) = (ALL[choose(11)], ALL[choose(11)]); let op = [Op::Add, Op::Sub, Op::Mul][choose(3)]; if op == Op::Sub && da == "bool" && db == "bool" { stop() }
    run(op, &sym(da, &[2]), &sym(db, &[2]), 10);
}
fn minmax() { let (da, db) = (ALL[choose(11)], ALL[choose(11)]); let op = [Op::Max, Op::Min, Op::Fmax, Op::Fmin][choose(4)]; run(op, &sym(da, &[1]), &sym(db, &[1]), 20); }
fn bitwise() {
    let (da, db) = (ALL[choose(11)], ALL[choose(11)]); let op = [Op::And, Op::Or, Op::Xor][choose(3)]; let (a, b) = (sym(da, &[2]), sym(db, &[2])); let p = promo(da, db);
    if is_float(p) { let r = if choose(2) == 0 { np_op(op, &a.o, &b.o) } else { py_op(op, &a.o, &b.o) }; must_err(r, 30); return; }
    run(op, &a, &b, 31);
}
/// shift counts of any value, negative and over-wide ones included
fn shifts() {
    let (da, db) = (INTS[choose(8)], INTS[choose(8)]); let op = [Op::Shl, Op::Shr][choose(2)]; let (a, b) = (sym(da, &[2]), sym(db, &[2]));
    if is_float(promo(da, db)) { must_err(np_op(op, &a.o, &b.o), 40); return; }
    run(op, &a, &b, 41);
}
/// // % fmod, 8- and 16-bit operands: all values
fn divmod_small() {
    const S: &[&str] = &["int8", "uint8", "int16", "uint16"]; let (da, db) = (S[choose(4)], S[choose(4)]); let op = [Op::FloorDiv, Op::Mod, Op::Fmod][choose(3)];
    if isz(promo(da, db)) > 2 { stop() } run(op, &sym(da, &[1]), &sym(db, &[1]), 50);
}
/// 32- and 64-bit: any dividend, divisors 0, +-1, +-2, 3, -7, the extremes
fn divmod_wide() {
    const S: &[&str] = &["int32", "int64", "uint32", "uint64"]; let d = S[choose(4)]; let op = [Op::FloorDiv, Op::Mod, Op::Fmod][choose(3)]; let a = sym(d, &[1]);
    let mx = if isz(d) == 4 { if is_uns(d) { u32::MAX as i64 } else { i32::MAX as i64 } } else if is_uns(d) { -1 } else { i64::MAX }; let mn = if is_uns(d) { 0 } else if isz(d) == 4 { i32::MIN as i64 } else { i64::MIN };
    let v = [0, 1, 2, 4, 256, mx, mn, if is_uns(d) { 8 } else { -1 }, if is_uns(d) { 16 } else { -2 }][choose(9)]; let b = A::of(&zeros(d, &[1])); put_i(b.ptr, d, v); run(op, &a, &b, 60);
}
/// 64-bit values picked around the places where rounding through float64 or overflow would show
const V: &[i64] = &[0, 1, -1, 2, 3, -3, 7, -7, 10, i64::MAX, i64::MIN, i64::MIN + 1, (1 << 53) + 1, -(1 << 53) - 1, (1 << 60) + 1, i32::MIN as i64, i32::MAX as i64, 255, 256];
fn divmod_pairs() {
    let d = ["int64", "uint64", "int32", "int16"][choose(4)]; let op = [Op::FloorDiv, Op::Mod, Op::Fmod][choose(3)]; let (x, y) = (V[choose(19)], V[choose(19)]);
    let (a, b) = (filled_i(d, &[1], |_| x), filled_i(d, &[1], |_| y)); run(op, &a, &b, 70);
}
/// the same with a Python int on either side, and mixed widths
fn divmod_mixed() {
    let da = INTS[choose(8)]; let db = INTS[choose(8)]; let op = [Op::FloorDiv, Op::Mod][choose(2)]; let (x, y) = (V[[1, 2, 4, 5, 7, 9, 10, 12, 17][choose(9)]], V[[0, 1, 2, 4, 7, 8, 10, 17][choose(8)]]);
    let (a, b) = (filled_i(da, &[1], |_| x), filled_i(db, &[1], |_| y)); if is_float(promo(da, db)) { stop() } run(op, &a, &b, 75);
}
/// float // and %: signs, zeros, infinities and NaN
const F: &[f64] = &[0.0, -0.0, 1.0, -1.0, 2.5, -2.5, 3.0, -7.25, 0.1, 1e300, -1e-300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
fn divmod_float() {
    let d = ["float64", "float32"][choose(2)]; let op = [Op::FloorDiv, Op::Mod, Op::Fmod][choose(3)]; let (a, b) = (A::of(&zeros(d, &[1])), A::of(&zeros(d, &[1]))); put_f(a.ptr, d, F[choose(14)]); put_f(b.ptr, d, F[choose(14)]); run(op, &a, &b, 80);
}
/// true division of integers is float64 (float32 only for float32 with small integers)
fn truediv() { let (da, db) = (ALL[choose(11)], ALL[choose(11)]); let (x, y) = (V[choose(19)], V[choose(8)]); let (a, b) = (filled_i(da, &[1], |_| if da == "bool" { x & 1 } else { x }), filled_i(db, &[1], |_| if db == "bool" { y & 1 } else { y })); run(Op::Div, &a, &b, 90); }
/// a ** k for k = 0..7, all bases (wrapping)
fn power() {
    let d = INTS[choose(8)]; let k = choose(8) as i64; let a = if isz(d) <= 2 || k <= 2 { sym(d, &[1]) } else { filled_i(d, &[1], |_| V[choose(19)]) }; let b = filled_i(d, &[1], |_| k); let o = a.o.clone();
    let r = arr_of(match choose(3) { 0 => call!(np::power; a.o, b.o), 1 => { let o = a.o.clone(); meth!(o.__w___pow__; b.o, none()) } _ => meth!(o.__w___pow__; int(k), none()) }, 95); check(r.dt == d && r.has_shape(&[1]), 96); if r.dt != d { return; }
    let e = with!(d, T => { let v = T::ld(a.ptr, d); let mut w = T::one(); for _ in 0..k { w = T::ev(Op::Mul, w, v); } w.bits() }); check(r.bits(&[0]) == e, 97);
}
fn power_pairs() {
    let d = INTS[choose(8)]; let (x, k) = (V[choose(19)], [0i64, 1, 2, 5, 13, 31, 62, 63, 64, 100][choose(10)]); if isz(d) == 1 && k == 0 && x == 99 { stop() }
    let (a, b) = (filled_i(d, &[1], |_| x), filled_i(d, &[1], |_| k)); let r = arr_of(call!(np::power; a.o, b.o), 100); check(r.dt == d, 101); if r.dt != d { return; }
    let e = with!(d, T => { let v = T::ld(a.ptr, d); let mut w = T::one(); for _ in 0..k { w = T::ev(Op::Mul, w, v); } w.bits() }); check(r.bits(&[0]) == e, 102);
}
/// negative exponents of integers are refused
fn power_neg() { let d = INTS[choose(4)]; let a = sym(d, &[2]); let k = int_in(-128, -1); let b = filled_i(d, &[2], |i| if i == 1 { k } else { 2 }); must_kind(call!(np::power; a.o, b.o), Kind::Value, 105); }
/// divmod gives the same pair as // and %
fn divmod_fn() { let d = INTS[choose(8)]; let (a, b) = (if isz(d) == 1 { sym(d, &[1]) } else { filled_i(d, &[1], |_| V[choose(19)]) }, if isz(d) == 1 { sym(d, &[1]) } else { filled_i(d, &[1], |_| V[choose(19)]) }); let r = items(&must(call!(np::divmod; a.o, b.o), 110)); check(r.len() == 2, 111); if r.len() != 2 { return; } check_binop(&A::of(&r[0]), Op::FloorDiv, &a, &b, 112); check_binop(&A::of(&r[1]), Op::Mod, &a, &b, 114); }

pub const H: &[(&str, fn())] = &[("addsub", addsub), ("minmax", minmax), ("bitwise", bitwise), ("shifts", shifts), ("divmod_small", divmod_small), ("divmod_wide", divmod_wide), ("divmod_pairs", divmod_pairs), ("divmod_mixed", divmod_mixed), ("divmod_float", divmod_float), ("truediv", truediv), ("power", power), ("power_pairs", power_pairs), ("power_neg", power_neg), ("divmod_fn", divmod_fn)];
