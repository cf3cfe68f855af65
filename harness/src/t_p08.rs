//! P08: Python values, buffers and arrays convert into each other exactly: array/asarray of (nested) lists, of foreign arrays;
//! tolist, item, int(), float(), bool(), tobytes, frombuffer, astype of every layout.
use crate::sx::*; use crate::util::*; use pyo3::Val;

fn want(r: &A, d: &str, sh: &[usize], id: u32) { check(r.dt == d, id); check(r.has_shape(sh), id + 1); if r.dt != d || !r.has_shape(sh) { stop() } }
fn mk_arr(l: &Obj, d: Option<&str>) -> PyResult<Obj> { let t = d.map(st); match (choose(2), &t) { (0, None) => call!(np::array; l), (0, Some(t)) => call!(np::array; l, t), (_, None) => call!(np::asarray; l), (_, Some(t)) => call!(np::asarray; l; dtype = t) } }
/// nested list of the given shape over a flat sequence
fn nest(v: &[Obj], sh: &[usize]) -> Obj { if sh.len() == 1 { return lst(v.to_vec()); } let k = prod(&sh[1..]); lst((0..sh[0]).map(|i| nest(&v[i * k..(i + 1) * k], &sh[1..])).collect()) }
const SH: &[&[usize]] = &[&[2], &[1, 2], &[2, 1], &[1, 2, 1]];
#[derive(Clone, Copy)] enum P { B(bool), I(i64), U(u64), F(f64) }
/// a symbolic Python number: bool, int, int above 2**63, float
fn pyn() -> P { match choose(4) { 0 => P::B(choose(2) == 1), 1 => P::I(any()), 2 => { let u: u64 = any(); assume(u >> 63 == 1); P::U(u) } _ => P::F(any()) } }
fn po(p: P) -> Obj { match p { P::B(b) => boo(b), P::I(i) => int(i), P::U(u) => mk(Val::UInt(u)), P::F(f) => flt(f) } }
fn pf(p: P) -> f64 { match p { P::B(b) => b as u8 as f64, P::I(i) => i as f64, P::U(u) => u as f64, P::F(f) => f } }
fn pi(p: P) -> Option<i128> { match p { P::B(b) => Some(b as i128), P::I(i) => Some(i as i128), P::U(u) => Some(u as i128), P::F(_) => None } }
/// the dtype is the one that holds every element, and every element is exact
fn infer() {
    let sh = SH[choose(SH.len())]; let (p, q) = (pyn(), pyn()); let l = nest(&[po(p), po(q)], sh); let rank = |p: P| match p { P::B(_) => 0, P::I(_) => 1, P::U(_) => 2, P::F(_) => 3 }; let m = rank(p).max(rank(q)); let neg = matches!(p, P::I(i) if i < 0) || matches!(q, P::I(i) if i < 0);
    let d = if m == 0 { "bool" } else if m == 1 { "int64" } else if m == 2 && !neg { "uint64" } else { "float64" }; let r = arr_of(mk_arr(&l, None), 1); want(&r, d, sh, 2);
    for (i, p) in r.idx().iter().zip([p, q]) { if d == "float64" { check(same_fb(r.f(i), pf(p)), 4) } else { check(r.bits(i) == pi(p).unwrap() as u64, 5) } }
}
fn range(d: &str) -> (i128, i128) { let w = isz(d) as u32 * 8; if is_uns(d) { (0, (1i128 << w) - 1) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } }
/// with an integer dtype every integer is stored exactly or refused
fn given_int() {
    let sh = SH[choose(3)]; let d = INTS[choose(8)]; let (p, q) = (match choose(3) { 0 => P::B(choose(2) == 1), 1 => P::I(any()), _ => { let u: u64 = any(); assume(u >> 63 == 1); P::U(u) } }, P::I([1, -1, 255, 1 << 31][choose(4)])); let v = if choose(2) == 0 { [p, q] } else { [q, p] }; let l = nest(&[po(v[0]), po(v[1])], sh); let r = mk_arr(&l, Some(d)); let (lo, hi) = range(d);
    if v.iter().any(|p| { let x = pi(*p).unwrap(); x < lo || x > hi }) { return must_kind(r, Kind::Overflow, 10); } let r = arr_of(r, 11); want(&r, d, sh, 12); for (i, p) in r.idx().iter().zip(v) { let x = pi(p).unwrap() as u64; check(if d == "uint64" { r.bits(i) == x } else { r.i(i) as u64 == x }, 14); }
}
fn given_flt() { let sh = SH[choose(3)]; let d = ["float64", "float32", "bool", "complex128"][choose(4)]; let v = [pyn(), P::F(any())]; let l = nest(&[po(v[0]), po(v[1])], sh); let r = arr_of(mk_arr(&l, Some(d)), 20); want(&r, d, sh, 21); for (i, p) in r.idx().iter().zip(v) { let f = pf(p); let x = f_at(r.addr(i), match d { "complex128" => "float64", _ => d }); check(match d { "bool" => x == (f != 0.0) as u8 as f64, "float32" => same_fb(x, f as f32 as f64), _ => same_fb(x, f) }, 23); if d == "complex128" { check(f_at(r.addr(i) + 8, "float64") == 0.0, 24) } } }
fn empties() { let (l, d, sh): (Obj, &str, &[usize]) = match choose(4) { 0 => (lst(vec![]), "float64", &[0]), 1 => (lst(vec![lst(vec![]), lst(vec![])]), "float64", &[2, 0]), 2 => (lst(vec![lst(vec![int(3)]), lst(vec![int(4)])]), "int64", &[2, 1]), _ => (tup(vec![int(3), int(4), int(5)]), "int64", &[3]) }; let r = arr_of(mk_arr(&l, None), 26); want(&r, d, sh, 27); for (k, i) in r.idx().iter().enumerate() { check(r.i(i) == 3 + k as i64, 29); } }
fn ragged() { let i = |n: i64| int(n); let l = match choose(6) { 0 => lst(vec![lst(vec![i(1)]), lst(vec![i(1), i(2)])]), 1 => lst(vec![i(1), lst(vec![i(2)])]), 2 => lst(vec![lst(vec![i(2)]), i(1)]), 3 => lst(vec![lst(vec![lst(vec![i(1)])]), lst(vec![i(1)])]), 4 => lst(vec![lst(vec![]), lst(vec![i(1)])]), _ => lst(vec![lst(vec![i(1), i(2)]), lst(vec![])]) }; let d = [None, Some("int8"), Some("float64")][choose(3)]; must_kind(mk_arr(&l, d), Kind::Value, 30); }
fn badval() { let l = match choose(3) { 0 => lst(vec![int(1), none()]), 1 => lst(vec![flt(1.0), st("x")]), _ => lst(vec![lst(vec![int(1)]), lst(vec![none()])]) }; must_err(mk_arr(&l, [None, Some("int64")][choose(2)]), 32); must_err(mk_arr(&lst(vec![int(1)]), Some("nope")), 33); }
/// tolist is the nested list of exact element values
fn tolist() {
    let d = DTYPES[choose(DTYPES.len())]; let sh = [&[2usize] as &[usize], &[1, 2], &[2, 1], &[0], &[2, 0], &[]][choose(6)]; let a = layout(d, sh, choose(NLAYOUT)); let o = a.o.clone(); let r = must(meth!(o.__w_tolist;), 40); fn walk(r: &Obj, a: &A, ix: &mut Vec<usize>) { if ix.len() == a.ndim() { return is_elem(r, a, ix, 41); } let l = items(r); check(matches!(&r.v, Val::List(_)), 42); check(l.len() == a.shape[ix.len()], 43); if l.len() != a.shape[ix.len()] { stop() } for (k, x) in l.iter().enumerate() { ix.push(k); walk(x, a, ix); ix.pop(); } } walk(&r, &a, &mut vec![]);
}
/// int(), float(), bool(), item() of an array
fn scalars() {
    let d = DTYPES[choose(DTYPES.len())]; let sh = [&[1usize] as &[usize], &[], &[1, 1], &[2], &[0], &[2, 1]][choose(6)]; let a = layout(d, sh, [0, 2, 3][choose(3)]); let o = a.o.clone(); let one = a.size() == 1; let z = vec![0; sh.len()];
    match choose(4) {
        0 => { let r = meth!(o.__w___bool__;); if !one { return must_kind(r, Kind::Value, 50); } let r = must(r, 51); check(matches!(&r.v, Val::Bool(_)), 52); check(obj_i(&r) == Some((if is_float(d) { a.f(&z) != 0.0 } else { a.bits(&z) != 0 }) as i64), 53) }
        1 => { if is_float(d) && one { let f = a.f(&z); assume(f == f && f.abs() < 9.0e18); } let r = meth!(o.__w___int__;); if !one { return must_kind(r, Kind::Type, 54); } let r = must(r, 55); if is_float(d) { check(obj_i(&r) == Some(a.f(&z) as i64), 56) } else { is_elem(&r, &a, &z, 57) } }
        2 => { let r = meth!(o.__w___float__;); if !one { return must_kind(r, Kind::Type, 58); } match &must(r, 59).v { Val::Float(f) => check(same_fb(*f, a.f(&z)), 60), _ => check(false, 61) } }
        _ => { let r = meth!(o.__w_item;); if !one { return must_kind(r, Kind::Value, 62); } is_elem(&must(r, 63), &a, &z, 64) }

    }
}
fn bytes_of(o: &Obj) -> Vec<u8> { match &o.v { Val::Bytes(b) => b.clone(), _ => { check(false, 70); stop() } } }
/// tobytes is the row-major elements' bytes; frombuffer reads them back
fn tobytes() {
    let d = ["int8", "bool", "int16", "uint32", "float32", "float64", "int64"][choose(7)]; let sh = [&[3usize] as &[usize], &[2, 2], &[], &[0], &[2, 1, 2]][choose(5)]; let a = layout(d, sh, choose(NLAYOUT)); let o = a.o.clone(); let b = must(meth!(o.__w_tobytes;), 71); let v = bytes_of(&b); check(v.len() == a.size() * a.isz, 72); if v.len() != a.size() * a.isz { stop() }
    for (k, i) in a.idx().iter().enumerate() { let mut w = 0u64; for j in 0..a.isz { w |= (v[k * a.isz + j] as u64) << (8 * j) } check(w == a.bits(i), 73); }
    let t = st(d); let r = arr_of(call!(np::frombuffer; b; dtype = t), 74); want(&r, d, &[a.size()], 75); for (k, i) in a.idx().iter().enumerate() { check(r.bits(&[k]) == a.bits(i), 77); }
}
/// frombuffer with any count and offset: the elements from offset on, or an error
fn frombuf() {
    let d = ["uint8", "int16", "float64", "int32"][choose(4)]; let n = [0usize, 1, 4, 8, 9][choose(5)]; let mut v = vec![0u8; n]; for x in v.iter_mut() { *x = any() } let b = mk(Val::Bytes(v.clone())); let count: i64 = idx64(-1, 5); let off: i64 = idx64(-1, 5); let t = st(d);
    let r = call!(np::frombuffer; b, t, int(count), int(off)); let sz = isz(d); if off < 0 || off > n as i64 { return must_err(r, 80); } let av = n - off as usize; if count < 0 && av % sz != 0 { return must_kind(r, Kind::Value, 81); } if count >= 0 && (count as u128) * sz as u128 > av as u128 { return must_kind(r, Kind::Value, 82); } let m = if count < 0 { av / sz } else { count as usize };
    if m == 0 { return; } let r = arr_of(r, 83); want(&r, d, &[m], 84); for k in 0..m { let mut w = 0u64; for j in 0..sz { w |= (v[off as usize + k * sz + j] as u64) << (8 * j) } check(r.bits(&[k]) == w, 86); }
}
/// an object with __array_interface__ (a NumPy array): any strides, copied exactly, memory not shared
fn foreign() {
    let (d, ts) = [("int8", "|i1"), ("uint8", "|u1"), ("bool", "|b1"), ("int16", "<i2"), ("uint16", "<u2"), ("int32", "<i4"), ("uint32", "<u4"), ("int64", "<i8"), ("uint64", "<u8"), ("float32", "<f4"), ("float64", "<f8")][choose(11)]; let sh = [&[3usize] as &[usize], &[2, 2], &[], &[0], &[2, 1, 2]][choose(5)]; let k = choose(NLAYOUT); let a = layout(d, sh, k); let e = [None, Some("float64"), Some("int64")][choose(3)];
    let str_ = if k == 0 && choose(2) == 1 { none() } else { tup(a.strides.iter().map(|s| int(*s as i64)).collect()) }; let di = mk(Val::Dict(std::cell::RefCell::new(vec![(st("shape"), itup(sh)), (st("typestr"), st(ts)), (st("data"), tup(vec![int(a.ptr as i64), boo(false)])), (st("strides"), str_)]))); unsafe { FOREIGN = Some(di) }
    let r = arr_of(mk_arr(&mk(Val::Module("foreign")), e), 90); let rd = e.unwrap_or(d); want(&r, rd, sh, 91); for i in r.idx() { check(if rd == d { r.bits(&i) == a.bits(&i) } else if is_float(rd) { same_fb(r.f(&i), a.f(&i)) } else if is_float(d) { true } else { r.i(&i) == a.i(&i) }, 93); }
    let old = a.flat_bits(); for i in r.idx() { unsafe { *(r.addr(&i) as *mut u8) ^= 1 } } for (k, i) in a.idx().iter().enumerate() { check(a.bits(i) == old[k], 94); }
}
fn foreign_bad() { let a = sym("int32", &[2]); let ts = [">i4", "<V4", "|O8", ">f8"][choose(4)]; let di = mk(Val::Dict(std::cell::RefCell::new(vec![(st("shape"), itup(&[2])), (st("typestr"), st(ts)), (st("data"), tup(vec![int(a.ptr as i64), boo(false)])), (st("strides"), none())]))); unsafe { FOREIGN = Some(di) } must_err(mk_arr(&mk(Val::Module("foreign")), None), 96); }
/// astype keeps every element's place in any layout
fn astype() {
    let d = ["int16", "uint8", "bool", "float64", "int64", "uint32"][choose(6)]; let e = ["int64", "float64", "uint8", "complex128", "float32", "int16", "uint64", "int32"][choose(8)]; let sh = [&[3usize] as &[usize], &[2, 2], &[], &[0], &[2, 1, 2]][choose(5)]; let a = layout(d, sh, choose(NLAYOUT)); if d == "float64" { for (k, i) in a.idx().iter().enumerate() { put_f(a.addr(i), d, k as f64 * 10.75) } } let o = a.o.clone(); let r = arr_of(meth!(o.__w_astype; st(e)), 100); want(&r, e, sh, 101);
    for i in r.idx() { let x = a.f(&i); let v = a.i(&i); check(match e { "float64" => r.f(&i) == x, "float32" => same_f(r.f(&i), x as f32 as f64) | same_f(r.f(&i), v as f32 as f64), "complex128" => (f_at(r.addr(&i), "float64") == x) & (f_at(r.addr(&i) + 8, "float64") == 0.0), "uint8" => r.bits(&i) == v as u8 as u64, "int16" => r.i(&i) == v as i16 as i64, "int32" => r.i(&i) == v as i32 as i64, _ => r.i(&i) == v }, 103); }
}
pub const H: &[(&str, fn())] = &[("p08.infer", infer), ("p08.given_int", given_int), ("p08.given_flt", given_flt), ("p08.empties", empties), ("p08.ragged", ragged), ("p08.badval", badval), ("p08.tolist", tolist), ("p08.scalars", scalars), ("p08.tobytes", tobytes), ("p08.frombuf", frombuf), ("p08.foreign", foreign), ("p08.foreign_bad", foreign_bad), ("p08.astype", astype)];
