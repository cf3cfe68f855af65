//! P04: elementwise operations broadcast, pair up the right elements whatever the layout, and leave the operands alone.
use crate::sx::*; use crate::util::*;

const OPS: &[Op] = &[Op::Add, Op::Sub, Op::Mul, Op::Max, Op::Min, Op::Div, Op::Eq, Op::Lt];
const SP: &[(&[usize], &[usize])] = &[(&[2, 3], &[2, 3]), (&[2, 3], &[3]), (&[2, 3], &[2, 1]), (&[2, 1], &[1, 3]), (&[3], &[]), (&[2, 0], &[1]), (&[2, 1, 2], &[3, 1]), (&[4], &[4])];
fn snap(a: &A) -> Vec<u64> { a.flat_bits() }
fn unchanged(a: &A, s: &[u64], id: u32) { for (k, ix) in a.idx().iter().enumerate() { check(a.bits(ix) == s[k], id); } }

/// every pair of layouts
fn layouts(dt: &'static str, id: u32) {
    let op = OPS[choose(8)]; let (sa, sb) = SP[choose(8)]; let a = layout(dt, sa, choose(NLAYOUT)); let b = layout(dt, sb, choose(NLAYOUT)); let (xa, xb) = (snap(&a), snap(&b));
    let r = arr_of(np_op(op, &a.o, &b.o), id); check_binop(&r, op, &a, &b, id + 1); unchanged(&a, &xa, id + 3); unchanged(&b, &xb, id + 3);
    check(!overlap(&r, &a) && !overlap(&r, &b), id + 4);
}
fn overlap(r: &A, a: &A) -> bool { r.idx().iter().any(|i| a.idx().iter().any(|j| r.addr(i) == a.addr(j))) }
fn layouts_i16() { layouts("int16", 10) }
fn layouts_f64() { layouts("float64", 20) }
fn layouts_f32() { layouts("float32", 30) }
fn layouts_u8() { layouts("uint8", 40) }
/// lengths around the SIMD and unroll widths, one operand strided or broadcast
fn long() {
    let n = [8usize, 9, 16, 17, 31, 33, 64, 67, 130][choose(9)]; let dt = ["int8", "int32", "int64", "float32", "float64"][choose(5)]; let op = [Op::Add, Op::Mul, if is_float(dt) { Op::Div } else { Op::Max }, Op::Eq, Op::Sub][choose(5)];
    let (la, lb) = [(0, 0), (2, 0), (0, 3), (3, 2), (0, 9), (9, 0)][choose(6)]; let mk = |l: usize| if l == 9 { sym(dt, &[1]) } else { layout(dt, &[n], l) };
    let (a, b) = (mk(la), mk(lb)); check_binop(&arr_of(np_op(op, &a.o, &b.o), 50), op, &a, &b, 51);
}
fn long2d() {
    let sh: [&[usize]; 4] = [&[3, 17], &[17, 3], &[2, 33], &[9, 9]]; let sh = sh[choose(4)]; let dt = ["int16", "float64", "float32"][choose(3)]; let op = [Op::Add, Op::Sub, Op::Lt, if is_float(dt) { Op::Ge } else { Op::Min }][choose(4)];
    let a = layout(dt, sh, choose(NLAYOUT)); let b = match choose(4) { 0 => layout(dt, sh, 0), 1 => layout(dt, sh, 1), 2 => sym(dt, &[sh[1]]), _ => sym(dt, &[sh[0], 1]) };
    check_binop(&arr_of(py_op(op, &a.o, &b.o), 55), op, &a, &b, 56);
}
/// any two shapes of up to three axes of length 0..3
fn shapes() {
    let dv = || -> Vec<usize> { let k = choose(4); (0..k).map(|_| [0usize, 1, 2, 3][choose(4)]).collect() };
    let (sa, sb) = (dv(), dv()); if sa.len() == 3 && sb.len() == 3 && (sa[0] == 3 || sb[0] == 3) { stop() }
    let a = filled_i("int16", &sa, |k| k as i64 * 7 + 1); let b = filled_i("int16", &sb, |k| 100 - k as i64); let op = [Op::Add, Op::Lt][choose(2)]; let r = if choose(2) == 0 { np_op(op, &a.o, &b.o) } else { py_op(op, &a.o, &b.o) };
    if bcast(&sa, &sb).is_none() { must_kind(r, Kind::Value, 60); return; }
    check_binop(&arr_of(r, 61), op, &a, &b, 62);
}
/// three-way broadcasting through where
fn where_() {
    let sh: [&[usize]; 4] = [&[2, 3], &[3], &[2, 1], &[]]; let (sc, sa, sb) = (sh[choose(4)], sh[choose(4)], sh[choose(4)]); let dt = ["int16", "float64", "int64"][choose(3)]; let k = choose(4);
    let c = layout("bool", sc, [0, 1, 2, 3][k]); let a = layout(dt, sa, [0, 2, 1, 4][k]); let b = layout(dt, sb, [0, 3, 5, 1][k]);
    let r = arr_of(call!(np::r#where; c.o, a.o, b.o), 70); let t = bcast(&bcast(sc, sa).unwrap(), sb).unwrap(); check(r.has_shape(&t) && r.dt == dt, 71); if !r.has_shape(&t) { return; }
    for ix in r.idx() { let e = if c.bits(&bix(&ix, sc)) != 0 { a.bits(&bix(&ix, sa)) } else { b.bits(&bix(&ix, sb)) }; check(r.bits(&ix) == e, 72); }
}
/// operator, function and reflected operator agree, with an array or a Python scalar on the other side
fn entry() {
    let dt = ["int16", "int64", "float64", "float32", "uint8"][choose(5)]; let a = layout(dt, &[3], [0, 2, 3][choose(3)]); let o = a.o.clone(); let op = [Op::Add, Op::Sub, Op::Mul, Op::Eq, Op::Lt, Op::Ge][choose(6)];
    // Python scalar: takes the array's dtype (int into any dtype, float into a float dtype)
    let k = if is_float(dt) { [-7i64, 0, 3, 1000, 1 << 24][choose(5)] } else if dt == "uint8" { int_in(0, 255) } else if op == Op::Mul { [-3i64, 0, 7, 1000][choose(4)] } else { int_in(-1000, 1000) }; let s = if is_float(dt) { match choose(2) { 0 => int(k), _ => flt(k as f64 * 0.25) } } else { int(k) }; let v = match &s.v { Val::Float(f) => *f, _ => k as f64 };
    let b = A::of(&zeros(dt, &[])); if is_float(dt) { put_f(b.ptr, dt, v) } else { put_i(b.ptr, dt, k) }
    let side = choose(2);
    if side == 0 { let r = if choose(2) == 0 { py_op(op, &o, &s) } else { np_op(op, &o, &s) }; check_binop(&arr_of(r, 80), op, &a, &b, 81); }
    else { let r = match op { Op::Add if choose(2) == 0 => meth!(o.__w___radd__; s), Op::Sub if choose(2) == 0 => meth!(o.__w___rsub__; s), Op::Mul if choose(2) == 0 => meth!(o.__w___rmul__; s), _ => np_op(op, &s, &o) }; check_binop(&arr_of(r, 83), op, &b, &a, 84); }
}
/// unary functions: each element by itself, any layout; result does not alias the operand
fn unary_i() {
    let dt = ["int8", "int32", "int64", "uint8", "uint16"][choose(5)]; let sh: [&[usize]; 4] = [&[2, 3], &[9], &[], &[0, 2]]; let a = layout(dt, sh[choose(4)], choose(NLAYOUT)); let o = a.o.clone(); let x = snap(&a);
    let f = choose(8); let r = arr_of(match f { 0 => call!(np::negative; a.o), 1 => call!(np::abs; a.o), 2 => call!(np::square; a.o), 3 => call!(np::sign; a.o), 4 => call!(np::positive; a.o), 5 => call!(np::bitwise_not; a.o), 6 => meth!(o.__w___neg__;), _ => meth!(o.__w___invert__;) }, 90);
    check(r.has_shape(&a.shape) && r.dt == dt && !overlap(&r, &a), 91); if !r.has_shape(&a.shape) { return; }
    for (k, ix) in a.idx().iter().enumerate() { let e = with!(dt, T => { let v = T::ld(a.addr(ix), dt); let w = un_i::<T>(f, v, is_uns(dt)); w.bits() }); check(r.bits(ix) == e, 92); check(a.bits(ix) == x[k], 93); }
}
fn un_i<T: Num + Default + PartialOrd>(f: usize, v: T, uns: bool) -> T { let z = T::default(); match f { 0 | 6 => T::ev(Op::Sub, z, v), 1 => if v < z { T::ev(Op::Sub, z, v) } else { v }, 2 => T::ev(Op::Mul, v, v), 3 => { let one = T::one(); if v > z { one } else if v < z { T::ev(Op::Sub, z, one) } else { z } } 4 => v, _ => { let _ = uns; T::ev(Op::Sub, T::ev(Op::Sub, z, v), T::one()) } } }
fn unary_f() {
    let dt = ["float64", "float32"][choose(2)]; let sh: [&[usize]; 4] = [&[2, 3], &[9], &[], &[0, 2]]; let f = choose(14); let a = if f == 3 { layout(dt, &[3], choose(NLAYOUT)) } else { layout(dt, sh[choose(4)], choose(NLAYOUT)) }; let x = snap(&a);
    let r = arr_of(match f { 0 => call!(np::negative; a.o), 1 => call!(np::abs; a.o), 2 => call!(np::square; a.o), 3 => call!(np::sign; a.o), 4 => call!(np::positive; a.o), 5 => call!(np::floor; a.o), 6 => call!(np::ceil; a.o), 7 => call!(np::trunc; a.o), 8 => call!(np::rint; a.o), 9 => call!(np::isnan; a.o), 10 => call!(np::isinf; a.o), 11 => call!(np::isfinite; a.o), 12 => call!(np::signbit; a.o), _ => call!(np::sqrt; a.o) }, 95);
    let rdt = if (9..=12).contains(&f) { "bool" } else { dt }; check(r.has_shape(&a.shape) && r.dt == rdt && !overlap(&r, &a), 96); if !r.has_shape(&a.shape) || r.dt != rdt { return; }
    for (k, ix) in a.idx().iter().enumerate() {
        check(a.bits(ix) == x[k], 97);
        macro_rules! un { ($T:ident) => {{ let v = $T::ld(a.addr(ix), dt); if rdt == "bool" { let e = match f { 9 => v != v, 10 => v.abs() == $T::INFINITY, 11 => v.abs() < $T::INFINITY, _ => v.is_sign_negative() }; check(r.bits(ix) == e as u64, 98); }
            else { let e = match f { 0 => -v, 1 => v.abs(), 2 => v * v, 3 | 4 => v, 5 => v.floor(), 6 => v.ceil(), 7 => v.trunc(), 8 => v.round_ties_even(), _ => v.sqrt() }; if f == 3 { let g = r.f(ix); check(((v > 0.0) & (g == 1.0)) | ((v < 0.0) & (g == -1.0)) | ((v == 0.0) & (g == 0.0)) | ((v != v) & (g != g)), 99) } else { check_bits(&r, ix, (e.to_bits() as u64, e != e), 99) } } }} }
        if dt == "float64" { un!(f64) } else { un!(f32) }
    }
}

pub const H: &[(&str, fn())] = &[("layouts_i16", layouts_i16), ("layouts_f64", layouts_f64), ("layouts_f32@t", layouts_f32), ("layouts_u8@t", layouts_u8), ("long", long), ("long2d", long2d), ("shapes", shapes), ("where", where_), ("entry", entry), ("unary_i", unary_i), ("unary_f", unary_f)];
