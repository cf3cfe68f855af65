//! P02: item assignment writes exactly the selected elements.
use crate::sx::*; use crate::util::*;

/// contents of every element before, as bits
fn snap(a: &A) -> Vec<u64> { a.flat_bits() }
/// after the assignment: element `ix` holds `want(ix)` if selected, else its old bits
fn after(a: &A, old: &[u64], want: impl Fn(&[usize]) -> Option<u64>, id: u32) { for (k, ix) in a.idx().iter().enumerate() { let b = a.bits(ix); match want(ix) { Some(w) => check(b == w, id), None => check(b == old[k], id + 1) } } }
fn pos(i: i64, n: usize) -> Option<usize> { let n = n as i64; if i >= 0 && i < n { Some(i as usize) } else if i < 0 && i >= -n { Some((i + n) as usize) } else { None } }
fn refuse(a: &A, r: PyResult<Obj>, old: &[u64], k: Kind, id: u32) { must_kind(r, k, id); after(a, old, |_| None, id + 1); }

/// a[i] = x (1-D), a[i, j] = x (2-D): any 64-bit index, every layout
fn elem1() {
    let n = choose_in(0, 3) as usize; let a = layout(["int32", "float64", "uint8"][choose(3)], &[n], choose(NLAYOUT)); let old = snap(&a); let i = idx64(-3, 3);
    let v: i8 = any(); let v = if a.dt == "uint8" { (v & 127) as i64 } else { v as i64 };
    let r = setitem(&a.o, int(i), int(v));
    match pos(i, n) { Some(p) => { must(r, 1); after(&a, &old, |ix| if ix[0] == p { Some(bits_of_i(a.dt, v)) } else { None }, 2) } None => refuse(&a, r, &old, Kind::Index, 4) }
}
fn elem2() {
    let sh = [[2, 2], [2, 1], [1, 0]][choose(3)]; let a = layout(["int16", "float64"][choose(2)], &sh, choose(NLAYOUT)); let old = snap(&a); let (i, j) = (idx64(-2, 2), idx64(-2, 2)); let v: i8 = any();
    let r = setitem(&a.o, tup(vec![int(i), int(j)]), int(v as i64));
    match (pos(i, sh[0]), pos(j, sh[1])) { (Some(p), Some(q)) => { must(r, 5); after(&a, &old, |ix| if ix[0] == p && ix[1] == q { Some(bits_of_i(a.dt, v as i64)) } else { None }, 6) } _ => refuse(&a, r, &old, Kind::Index, 8) }
}
/// a[i] = any 64-bit integer on int64; any float on float64 (exact)
fn exact() {
    let a = layout("int64", &[2], choose(NLAYOUT)); let old = snap(&a); let v: i64 = any(); must(setitem(&a.o, int(1), int(v)), 10); after(&a, &old, |ix| if ix[0] == 1 { Some(v as u64) } else { None }, 11);
    let a = layout("float64", &[2], choose(NLAYOUT)); let old = snap(&a); let f = f64::from_bits(any()); assume(f == f); must(setitem(&a.o, int(0), flt(f)), 13); after(&a, &old, |ix| if ix[0] == 0 { Some(f.to_bits()) } else { None }, 14);
}
fn range(d: &str) -> (i128, i128) { let w = isz(d) as u32 * 8; if is_uns(d) { (0, (1i128 << w) - 1) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } }
/// any Python integer of 64 bits (signed or unsigned): stored exactly, or refused when the dtype cannot hold it
fn scalars() {
    let d = INTS[choose(8)]; let a = layout(d, &[2], [0, 2, 3][choose(3)]); let old = snap(&a); let (v, o) = if choose(3) == 0 { let u: u64 = any(); assume(u >> 63 == 1); (u as i128, mk(Val::UInt(u))) } else { let v: i64 = any(); (v as i128, int(v)) };
    let f = choose(4); let (r, all) = match f { 0 => (setitem(&a.o, int(-1), o).map(|_| none()), false), 1 => (setitem(&a.o, slice(Some(1), None, None), o).map(|_| none()), false), 2 => (setitem(&a.o, slice(None, None, None), o).map(|_| none()), true), _ => { let a = a.o.clone(); (meth!(a.__w_fill; o), true) } };
    let (lo, hi) = range(d); if v < lo || v > hi { return refuse(&a, r, &old, Kind::Overflow, 15); } must(r, 17); after(&a, &old, |ix| if all || ix[0] == 1 { Some(v as u64 & if isz(d) == 8 { !0 } else { (1u64 << (isz(d) * 8)) - 1 }) } else { None }, 18);
}
/// a[s:e:st] = scalar / array of the same length / length-1 array; other lengths refused
fn slices() {
    let n = choose_in(0, 3) as usize; let a = layout("int32", &[n], [0, 2, 3][choose(3)]); let old = snap(&a);
    let o = |n: i64| if choose(2) == 0 { None } else { Some(idx64(-n - 1, n + 1)) };
    let (s, e) = (o(n as i64), o(n as i64)); let st = [1i64, -1, 2, -2][choose(4)]; let sel = py_slice(s, e, st, n as i64);
    let m = choose(4); let key = slice(s, e, Some(st));
    if m == 3 { let v: i16 = any(); must(setitem(&a.o, key, int(v as i64)), 20); after(&a, &old, |ix| if sel.contains(&(ix[0] as i64)) { Some(v as u32 as u64) } else { None }, 21); return; }
    let src = layout("int32", &[m], [0, 2][choose(2)]); let r = setitem(&a.o, key, src.o.clone());
    if m == sel.len() || m == 1 { must(r, 23); after(&a, &old, |ix| sel.iter().position(|x| *x == ix[0] as i64).map(|k| src.bits(&[if m == 1 { 0 } else { k }])), 24); }
    else { refuse(&a, r, &old, Kind::Value, 26) }
}
/// 2-D: integer/slice keys with array values that broadcast to the selection
fn rows() {
    let sh = [2usize, 3]; let a = layout(["int32", "float64"][choose(2)], &sh, choose(NLAYOUT)); let old = snap(&a);
    let vsh: [&[usize]; 5] = [&[3], &[1], &[2, 3], &[2, 1], &[2]]; let vs = vsh[choose(5)]; let src = layout(a.dt, vs, [0, 1, 2][choose(3)]);
    let full = slice(None, None, None);
    // (key, selected row, selected column)
    let (key, row, col): (Obj, Option<usize>, Option<usize>) = match choose(6) { 0 => (int(1), Some(1), None), 1 => (int(-2), Some(0), None), 2 => (tup(vec![full, int(2)]), None, Some(2)), 3 => (tup(vec![full.clone(), full]), None, None), 4 => (tup(vec![int(-1), full]), Some(1), None), _ => (full, None, None) };
    let mut want: Vec<usize> = vec![]; if row.is_none() { want.push(2); } if col.is_none() { want.push(3); }
    // NumPy broadcasting of the value to the selection (extra leading ones of the value are dropped)
    let mut v = vs.to_vec(); while v.len() > want.len() && v[0] == 1 { v.remove(0); }
    let ok = v.len() <= want.len() && (0..v.len()).all(|k| { let d = v[v.len() - 1 - k]; d == 1 || d == want[want.len() - 1 - k] });
    let r = setitem(&a.o, key, src.o.clone());
    if !ok { refuse(&a, r, &old, Kind::Value, 30); return; }
    must(r, 31);
    after(&a, &old, |ix| { if let Some(p) = row { if ix[0] != p { return None; } } if let Some(q) = col { if ix[1] != q { return None; } }
        let mut t = vec![]; if row.is_none() { t.push(ix[0]); } if col.is_none() { t.push(ix[1]); }
        let off = t.len() - v.len(); let mut si: Vec<usize> = vec![0; vs.len() - v.len()]; for k in 0..v.len() { si.push(if v[k] == 1 { 0 } else { t[off + k] }); } Some(src.bits(&si)) }, 32);
}
/// overlapping assignment behaves as if the value were copied first
fn overlap() {
    let n = 4usize; let a = layout(["int32", "float64", "int8"][choose(3)], &[n], choose(NLAYOUT)); let old = snap(&a);
    match choose(4) {
        0 => { let v = getitem(&a.o, slice(None, Some(-1), None)).unwrap(); must(setitem(&a.o, slice(Some(1), None, None), v), 40); after(&a, &old, |ix| if ix[0] > 0 { Some(old[ix[0] - 1]) } else { None }, 41) }
        1 => { let v = getitem(&a.o, slice(Some(1), None, None)).unwrap(); must(setitem(&a.o, slice(None, Some(-1), None), v), 43); after(&a, &old, |ix| if ix[0] < 3 { Some(old[ix[0] + 1]) } else { None }, 44) }
        2 => { let v = getitem(&a.o, slice(None, None, Some(-1))).unwrap(); must(setitem(&a.o, slice(None, None, None), v), 46); after(&a, &old, |ix| Some(old[3 - ix[0]]), 47) }
        _ => { must(setitem(&a.o, slice(None, None, Some(2)), getitem(&a.o, slice(Some(1), None, Some(2))).unwrap()), 49); after(&a, &old, |ix| if ix[0] % 2 == 0 { Some(old[ix[0] + 1]) } else { None }, 50) }
    }
}
/// transposed overlap in 2-D: a[:] = a.T
fn overlap_t() { let a = layout("int32", &[2, 2], choose(NLAYOUT)); let old = snap(&a); let t = tr(&a.o); must(setitem(&a.o, slice(None, None, None), t), 52); after(&a, &old, |ix| Some(old[ix[1] * 2 + ix[0]]), 53) }
/// writing through a view changes the base exactly at the viewed positions; value dtype is converted
fn through_view() {
    let base = sym("int32", &[3, 3]); let old = snap(&base); let v = must(getitem(&base.o, tup(vec![slice(Some(1), None, None), slice(None, None, Some(-2))])), 60);
    let src = sym("int8", &[2, 2]); must(setitem(&v, slice(None, None, None), src.o.clone()), 61);
    after(&base, &old, |ix| if ix[0] >= 1 && ix[1] != 1 { Some(src.i(&[ix[0] - 1, if ix[1] == 2 { 0 } else { 1 }]) as u32 as u64) } else { None }, 62);
}
/// unsupported keys/values are refused and leave the array unchanged
fn refused() {
    let a = sym("int32", &[2, 2]); let old = snap(&a);
    match choose(4) { 0 => must_err(setitem(&a.o, tup(vec![int(0), int(0), int(0)]), int(1)), 70), 1 => must_err(setitem(&a.o, st("x"), int(1)), 71), 2 => must_err(setitem(&a.o, int(0), st("x")), 72), _ => must_err(setitem(&a.o, slice(None, None, Some(0)), int(1)), 73) }
    after(&a, &old, |_| None, 74);
}
/// ndarray.fill and flat agree with the element order
fn fill() {
    let shs: [&[usize]; 3] = [&[2, 2], &[3], &[0]]; let a = layout(["int32", "float64", "uint8", "bool"][choose(4)], shs[choose(3)], choose(NLAYOUT)); let v = (any::<u8>() & 1) as i64; let o = a.o.clone();
    must(meth!(o.__w_fill; int(v)), 80); after(&a, &[], |_| Some(bits_of_i(a.dt, v)), 81);
}
pub const H: &[(&str, fn())] = &[("p02.elem1", elem1), ("p02.elem2", elem2), ("p02.exact", exact), ("p02.scalars", scalars), ("p02.slices", slices), ("p02.rows", rows), ("p02.overlap", overlap), ("p02.overlap_t", overlap_t), ("p02.through_view", through_view), ("p02.refused", refused), ("p02.fill", fill)];
