//! P07: dtype promotion, casting rules and result dtypes follow one table everywhere.
use crate::sx::*; use crate::util::*;

const T: &[&str] = &["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "complex64", "complex128"];
/// (kind rank, bits): bool 0, unsigned 1, signed 2, float 3, complex 4
fn kb(t: &str) -> (u8, u32) { match t { "bool" => (0, 1), "uint8" => (1, 8), "uint16" => (1, 16), "uint32" => (1, 32), "uint64" => (1, 64), "int8" => (2, 8), "int16" => (2, 16), "int32" => (2, 32), "int64" => (2, 64), "float16" => (3, 16), "float32" => (3, 32), "float64" => (3, 64), "complex64" => (4, 32), _ => (4, 64) } }
fn mk(k: u8, b: u32) -> &'static str { match (k, b) { (0, _) => "bool", (1, 8) => "uint8", (1, 16) => "uint16", (1, 32) => "uint32", (1, _) => "uint64", (2, 8) => "int8", (2, 16) => "int16", (2, 32) => "int32", (2, 64) => "int64", (2, _) => "float64", (3, 16) => "float16", (3, 32) => "float32", (3, _) => "float64", (4, 32) => "complex64", _ => "complex128" } }
/// smallest float width that NumPy accepts for an integer type
fn fbits(k: u8, b: u32) -> u32 { if k >= 3 { b } else { match b { 1 | 8 => 16, 16 => 32, _ => 64 } } }
pub fn table(a: &str, b: &str) -> &'static str {
    let ((ka, ba), (kb_, bb)) = (kb(a), kb(b)); let ((k1, b1), (k2, b2)) = if ka <= kb_ { ((ka, ba), (kb_, bb)) } else { ((kb_, bb), (ka, ba)) };
    if k1 == 0 { return mk(k2, b2); } if k1 == k2 { return mk(k1, b1.max(b2)); }
    if k2 >= 3 { let w = fbits(k1, b1).max(b2); return mk(k2, if k2 == 4 { w.max(32) } else { w }); }
    if b2 > b1 { mk(2, b2) } else { mk(2, b1 * 2) } // unsigned with signed
}
fn dts(o: &Obj) -> String { match &o.v { Val::Str(s) => s.clone(), _ => "?".into() } }
fn promote() { let (a, b) = (T[choose(14)], T[choose(14)]); let e = table(a, b); check(dts(&must(call!(np::promote_types; st(a), st(b)), 10)) == e, 11); check(dts(&must(call!(np::result_type; st(a), st(b)), 12)) == e, 13); check(table(b, a) == e, 14); }
/// three operands, arrays and names mixed: the fold of the table
fn result3() { let (a, b, c) = (T[choose(14)], T[choose(14)], T[choose(14)]); let e = table(table(a, b), c); let x = zeros(b, &[2]); check(dts(&must(call!(np::result_type; st(a), x, st(c)), 20)) == e, 21); }
/// can_cast: safe iff promotion keeps the target; same_kind by kind order; no/equiv only the same type
fn can_cast() {
    let (a, b) = (T[choose(14)], T[choose(14)]); let m = ["no", "equiv", "safe", "same_kind", "unsafe"][choose(5)]; let e = match m { "no" | "equiv" => a == b, "safe" => table(a, b) == b, "same_kind" => kb(a).0 <= kb(b).0, _ => true };
    match &must(call!(np::can_cast; st(a), st(b), st(m)), 30).v { Val::Bool(v) => check(*v == e, 31), _ => check(false, 32) }
    if m == "safe" { match &must(call!(np::can_cast; st(a), st(b)), 33).v { Val::Bool(v) => check(*v == e, 34), _ => check(false, 35) } }
}
fn bad() { must_err(call!(np::can_cast; st("int8"), st("int16"), st("bogus")), 40); must_err(call!(np::can_cast; st("int99"), st("int16")), 41); must_err(call!(np::promote_types; st("int8"), st("nope")), 42); must_err(call!(np::zeros; itup(&[2]), st("flt")), 43); }
/// the dtype that operations really produce
fn dt_of(o: &Obj) -> String { dts(&must(meth!(o.__w_dtype;), 50)) }
fn ops() {
    let (a, b) = (T[choose(14)], T[choose(14)]); let f = choose(8); let (x, y) = (zeros(a, &[2]), zeros(b, &[2])); let e = table(a, b); let cplx = kb(e).0 == 4;
    let r = match f { 0 => call!(np::add; x, y), 1 => call!(np::multiply; x, y), 2 => call!(np::concatenate; lst(vec![x.clone(), y.clone()])), 3 => call!(np::r#where; zeros("bool", &[2]), x, y), 4 => call!(np::stack; lst(vec![x.clone(), y.clone()])), 5 => { if cplx { stop() } call!(np::maximum; x, y) } 6 => call!(np::less; x, y), _ => call!(np::divide; x, y) };
    if f == 6 && cplx { return; }
    let want = match f { 6 => "bool", 7 => if kb(e).0 < 3 { "float64" } else { e }, _ => e }; check(dt_of(&must(r, 51)) == want, 52);
}
/// casting to every dtype and back through the kind order loses nothing when the cast is safe
fn safe_cast() {
    let (a, b) = (DTYPES[choose(11)], DTYPES[choose(11)]); if table(a, b) != b { stop() } let x = sym(a, &[2]); let o = x.o.clone(); if (a == "int64" || a == "uint64") && is_float(b) { stop() }
    let y = arr_of(meth!(o.__w_astype; st(b)), 60); check(y.dt == b && y.has_shape(&[2]), 61); if y.dt != b { return; } let o = y.o.clone(); let z = arr_of(meth!(o.__w_astype; st(a)), 62); check(z.dt == a, 63);
    for k in 0..2 { if is_float(a) { check(same_fb(z.f(&[k]), x.f(&[k])), 64) } else { check(z.bits(&[k]) == x.bits(&[k]), 64) } if !is_float(b) { check(y.i(&[k]) == x.i(&[k]), 65) } else { check(same_f(y.f(&[k]), x.f(&[k])), 66) } }
}
/// iinfo/finfo-free facts: itemsize and nbytes
fn sizes() { let t = T[choose(14)]; let z = zeros(t, &[3]); let o = z.clone(); let e = match t { "bool" => 1, "complex64" => 8, "complex128" => 16, _ => kb(t).1 as i64 / 8 }; check(obj_i(&must(meth!(o.__w_itemsize;), 70)) == Some(e), 71); check(obj_i(&must(meth!(o.__w_nbytes;), 72)) == Some(3 * e), 73); check(dt_of(&z) == t, 74); }

pub const H: &[(&str, fn())] = &[("promote", promote), ("result3", result3), ("can_cast", can_cast), ("bad", bad), ("ops", ops), ("safe_cast", safe_cast), ("sizes", sizes)];
