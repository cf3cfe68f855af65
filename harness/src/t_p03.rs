//! P03: shape and axis operations only rearrange: every element of the result is the named element of the source.
use crate::sx::*; use crate::util::*;

const SH: &[&[usize]] = &[&[2, 3], &[4], &[], &[2, 0], &[2, 1, 2], &[1, 1], &[1, 3], &[3, 1, 1]];
const DT: &[&str] = &["int32", "float64", "int8", "complex128"];
/// dtype, shape and memory layout chosen, contents symbolic
fn src(nsh: u64) -> A { layout(DT[choose(4)], SH[choose(nsh)], choose(NLAYOUT)) }
fn same(r: &A, ri: &[usize], a: &A, ai: &[usize], id: u32) { if a.isz <= 8 { check(r.bits(ri) == a.bits(ai), id) } else { check(bits_at(r.addr(ri), 8) == bits_at(a.addr(ai), 8) && bits_at(r.addr(ri) + 8, 8) == bits_at(a.addr(ai) + 8, 8), id) } }
/// r has shape `sh`, dtype of a, and element ix of r is element f(ix) of a; `view`: and shares its memory
fn maps(r: &A, a: &A, sh: &[usize], view: bool, id: u32, f: impl Fn(&[usize]) -> Vec<usize>) {
    check(r.has_shape(sh) && r.dt == a.dt, id); if !r.has_shape(sh) { return; }
    for ix in r.idx() { let s = f(&ix); if view { check(r.addr(&ix) == a.addr(&s), id + 1); } else { same(r, &ix, a, &s, id + 1); } }
}
/// r holds a's elements in row-major order
fn rowmajor(r: &A, a: &A, sh: &[usize], id: u32) { maps(r, a, sh, false, id, |ix| unflat(flat(ix, sh), &a.shape)) }

fn reshape() {
    let a = layout(["int32", "complex128"][choose(2)], SH[choose(6)], [0, 1, 2, 3][choose(4)]); let n = a.size() as i64; let k = choose_in(0, 3) as usize; let mut dims: Vec<i64> = vec![]; for _ in 0..k { dims.push(choose_in(-2, 4)); }
    let neg = dims.iter().filter(|d| **d == -1).count(); let p: i64 = dims.iter().filter(|d| **d != -1).product();
    let ok = !dims.iter().any(|d| *d < -1) && match neg { 0 => p == n, 1 => p > 0 && n % p == 0, _ => false };
    let key = if choose(2) == 0 { tup(dims.iter().map(|d| int(*d)).collect()) } else { ilst(&dims) };
    let o = a.o.clone(); let r = if choose(2) == 0 { call!(np::reshape; a.o, key) } else { meth!(o.__w_reshape; key) };
    if !ok { must_kind(r, Kind::Value, 1); return; }
    let r = arr_of(r, 2); let sh: Vec<usize> = dims.iter().map(|d| if *d == -1 { (n / p) as usize } else { *d as usize }).collect(); rowmajor(&r, &a, &sh, 3);
}
/// one-argument and symbolic dimensions: refused unless the size matches
fn reshape_any() {
    let a = sym("int16", &[2, 3]); let d0: i64 = idx64(-2, 7); let d1 = idx64(-2, 7); let one = choose(3); let o = a.o.clone();
    if one == 0 { let r = call!(np::reshape; a.o, int(d0)); if d0 == 6 || d0 == -1 { rowmajor(&arr_of(r, 5), &a, &[6], 6) } else { must_kind(r, Kind::Value, 8) } return; }
    let r = if one == 1 { meth!(o.__w_reshape; int(d0), int(d1)) } else { call!(np::reshape; a.o, tup(vec![int(d0), int(d1)])) };
    let good = [(1, 6), (2, 3), (3, 2), (6, 1), (-1, 1), (-1, 2), (-1, 3), (-1, 6), (1, -1), (2, -1), (3, -1), (6, -1)].contains(&(d0, d1));
    if good { let x = if d0 == -1 { 6 / d1 } else { d0 } as usize; let y = if d1 == -1 { 6 / d0 } else { d1 } as usize; rowmajor(&arr_of(r, 9), &a, &[x, y], 10) } else { must_kind(r, Kind::Value, 12) }
}
fn ravel() {
    let a = src(8); let o = a.o.clone(); let k = choose(4); let r = arr_of(match k { 0 => call!(np::ravel; a.o), 1 => call!(np::flatten; a.o), 2 => meth!(o.__w_ravel;), _ => meth!(o.__w_flatten;) }, 15);
    let n = a.size(); rowmajor(&r, &a, &[n], 16);
    // flatten is a copy: writing to it leaves the source alone
    if (k == 1 || k == 3) && n > 0 { let old = a.bits(&vec![0; a.ndim()]); sym_at(r.addr(&[0]), a.dt); check(a.bits(&vec![0; a.ndim()]) == old, 18); }
}
fn transpose() {
    let a = src(8); let nd = a.ndim(); let o = a.o.clone();
    let r = match choose(4) { 0 => call!(np::transpose; a.o), 1 => meth!(o.__w_transpose;), 2 => meth!(o.__w_T;), _ => call!(np::transpose; a.o, none()) };
    let sh: Vec<usize> = a.shape.iter().rev().cloned().collect(); maps(&arr_of(r, 20), &a, &sh, true, 21, |ix| { let mut v = ix.to_vec(); v.reverse(); v }); let _ = nd;
}
/// explicit axes: any list of up to 4 values
fn permute() {
    let shs: [&[usize]; 3] = [&[2, 3], &[2, 1, 3], &[3]]; let a = layout(DT[choose(3)], shs[choose(3)], choose(NLAYOUT)); let nd = a.ndim() as i64;
    let k = choose_in(0, 3) as usize; let mut ax: Vec<i64> = vec![]; for _ in 0..k { ax.push(choose_in(-4, 3)); }
    let r = if choose(2) == 0 { call!(np::transpose; a.o, ilst(&ax)) } else { call!(np::permute_dims; a.o, ilst(&ax)) };
    perm_check(&a, r, &ax, nd, 25);
}
fn perm_check(a: &A, r: PyResult<Obj>, ax: &[i64], nd: i64, id: u32) {
    let mut norm = vec![]; let mut ok = ax.len() as i64 == nd; for x in ax { if *x < -nd || *x >= nd { ok = false; } else { let v = if *x < 0 { x + nd } else { *x } as usize; if norm.contains(&v) { ok = false; } norm.push(v); } }
    if !ok { must_err(r, id); return; }
    let sh: Vec<usize> = norm.iter().map(|d| a.shape[*d]).collect(); maps(&arr_of(r, id + 1), a, &sh, true, id + 2, |ix| { let mut s = vec![0; nd as usize]; for (k, d) in norm.iter().enumerate() { s[*d] = ix[k]; } s })
}
fn swapaxes() {
    let shs: [&[usize]; 3] = [&[2, 3], &[2, 1, 3], &[3]]; let a = layout(DT[choose(3)], shs[choose(3)], choose(NLAYOUT)); let nd = a.ndim() as i64; let (i, j) = (idx64(-4, 3), idx64(-4, 3)); let o = a.o.clone();
    let r = if choose(2) == 0 { call!(np::swapaxes; a.o, int(i), int(j)) } else { meth!(o.__w_swapaxes; int(i), int(j)) };
    if i < -nd || i >= nd || j < -nd || j >= nd { must_err(r, 30); return; }
    let (i, j) = (if i < 0 { i + nd } else { i } as usize, if j < 0 { j + nd } else { j } as usize); let mut sh = a.shape.clone(); sh.swap(i, j); maps(&arr_of(r, 31), &a, &sh, true, 32, |ix| { let mut s = ix.to_vec(); s.swap(i, j); s })
}
/// NumPy's moveaxis/rollaxis orders
fn moveaxis() {
    let shs: [&[usize]; 2] = [&[2, 3], &[2, 1, 3]]; let a = layout("int32", shs[choose(2)], [0, 1, 4][choose(3)]); let nd = a.ndim() as i64;
    let k = choose_in(1, 3) as usize; let mut s = vec![]; let mut d = vec![]; for _ in 0..k { let (lo, hi) = match k { 1 => (-4, 4), 2 => (-3, 3), _ => (-1, 2) }; s.push(choose_in(lo, hi)); d.push(choose_in(lo, hi)); }
    let r = if k == 1 && choose(2) == 0 { call!(np::moveaxis; a.o, int(s[0]), int(d[0])) } else { call!(np::moveaxis; a.o, ilst(&s), ilst(&d)) };
    let norm = |v: &[i64]| { let mut o: Vec<i64> = vec![]; for x in v { if *x < -nd || *x >= nd { return None; } let y = if *x < 0 { x + nd } else { *x }; if o.contains(&y) { return None; } o.push(y); } Some(o) };
    match (norm(&s), norm(&d)) { (Some(s), Some(d)) => {
        // destination positions are filled by the moved axes; the others keep their order
        let mut order = vec![-1i64; nd as usize]; for t in 0..k { order[d[t] as usize] = s[t]; } let mut rest = (0..nd).filter(|x| !s.contains(x)); for t in 0..nd as usize { if order[t] < 0 { order[t] = rest.next().unwrap(); } }
        perm_check(&a, r, &order, nd, 35) } _ => must_err(r, 34) }
}
fn rollaxis() {
    let shs: [&[usize]; 2] = [&[2, 3], &[2, 1, 3]]; let a = layout("int32", shs[choose(2)], [0, 1, 4][choose(3)]); let nd = a.ndim() as i64; let (ax, st) = (idx64(-4, 4), idx64(-5, 5));
    let r = call!(np::rollaxis; a.o, int(ax), int(st)); if ax < -nd || ax >= nd || st < -nd || st > nd { must_err(r, 40); return; }
    let ax = if ax < 0 { ax + nd } else { ax }; let mut st = if st < 0 { st + nd } else { st }; if ax < st { st -= 1; }
    let mut order: Vec<i64> = (0..nd).filter(|x| *x != ax).collect(); order.insert(st as usize, ax); perm_check(&a, r, &order, nd, 41)
}
fn dims() {
    let a = src(8); let nd = a.ndim() as i64; let o = a.o.clone();
    match choose(7) {
        0 => { let ax = idx64(-5, 5); let r = call!(np::expand_dims; a.o, int(ax)); if ax < -nd - 1 || ax > nd { must_err(r, 50); return; } let p = if ax < 0 { ax + nd + 1 } else { ax } as usize; let mut sh = a.shape.clone(); sh.insert(p, 1); maps(&arr_of(r, 51), &a, &sh, true, 52, |ix| { let mut v = ix.to_vec(); v.remove(p); v }) }
        1 => { let r = if choose(2) == 0 { call!(np::squeeze; a.o) } else { meth!(o.__w_squeeze;) }; let keep: Vec<usize> = (0..a.ndim()).filter(|d| a.shape[*d] != 1).collect(); let sh: Vec<usize> = keep.iter().map(|d| a.shape[*d]).collect(); maps(&arr_of(r, 54), &a, &sh, true, 55, |ix| { let mut v = vec![0; a.ndim()]; for (k, d) in keep.iter().enumerate() { v[*d] = ix[k]; } v }) }
        2 => { let r = arr_of(call!(np::atleast_1d; a.o), 57); let sh = if nd == 0 { vec![1] } else { a.shape.clone() }; rowmajor(&r, &a, &sh, 58) }
        3 => { let r = arr_of(call!(np::atleast_2d; a.o), 60); let sh = match nd { 0 => vec![1, 1], 1 => vec![1, a.shape[0]], _ => a.shape.clone() }; rowmajor(&r, &a, &sh, 61) }
        4 => { let r = arr_of(call!(np::atleast_3d; a.o), 63); let sh = match nd { 0 => vec![1, 1, 1], 1 => vec![1, a.shape[0], 1], 2 => vec![a.shape[0], a.shape[1], 1], _ => a.shape.clone() }; rowmajor(&r, &a, &sh, 64) }
        5 => { let r = call!(np::matrix_transpose; a.o); if nd < 2 { must_err(r, 66); return; } let n = nd as usize; let mut sh = a.shape.clone(); sh.swap(n - 1, n - 2); maps(&arr_of(r, 67), &a, &sh, true, 68, |ix| { let mut v = ix.to_vec(); v.swap(n - 1, n - 2); v }) }
        _ => { let r = if choose(2) == 0 { call!(np::diagonal; a.o) } else { meth!(o.__w_diagonal;) }; if nd < 2 { must_err(r, 70); return; } let mut sh: Vec<usize> = a.shape[2..].to_vec(); sh.push(a.shape[0].min(a.shape[1])); maps(&arr_of(r, 71), &a, &sh, true, 72, |ix| { let n = ix.len(); let mut v = vec![ix[n - 1], ix[n - 1]]; v.extend_from_slice(&ix[..n - 1]); v }) }
    }
}
fn copy() {
    let a = src(8); let o = a.o.clone(); let r = arr_of(match choose(3) { 0 => meth!(o.__w_copy;), 1 => call!(np::copy; a.o), _ => call!(np::ascontiguousarray; a.o) }, 74);
    let sh = a.shape.clone(); maps(&r, &a, &sh, false, 75, |ix| ix.to_vec());
}
fn flips() {
    let a = src(5); let nd = a.ndim() as i64; let sh = a.shape.clone();
    match choose(4) {
        0 => { let ax = idx64(-4, 3); let r = call!(np::flip; a.o, int(ax)); if ax < -nd || ax >= nd { must_err(r, 80); return; } let p = if ax < 0 { ax + nd } else { ax } as usize; maps(&arr_of(r, 81), &a, &sh, true, 82, |ix| { let mut v = ix.to_vec(); v[p] = sh[p] - 1 - v[p]; v }) }
        1 => maps(&arr_of(call!(np::flip; a.o), 84), &a, &sh, true, 85, |ix| (0..ix.len()).map(|d| sh[d] - 1 - ix[d]).collect()),
        2 => { let r = call!(np::flipud; a.o); if nd < 1 { must_err(r, 87); return; } maps(&arr_of(r, 88), &a, &sh, true, 89, |ix| { let mut v = ix.to_vec(); v[0] = sh[0] - 1 - v[0]; v }) }
        _ => { let r = call!(np::fliplr; a.o); if nd < 2 { must_err(r, 91); return; } maps(&arr_of(r, 92), &a, &sh, true, 93, |ix| { let mut v = ix.to_vec(); v[1] = sh[1] - 1 - v[1]; v }) }
    }
}
/// k any 64-bit integer (residues explored), any axis pair
fn rot90() {
    let shs: [&[usize]; 2] = [&[2, 3], &[2, 1, 3]]; let a = layout("int32", shs[choose(2)], choose(NLAYOUT)); let nd = a.ndim() as i64; let k = [0i64, 1, 2, 3, -1, -2, -3, 4, 5, 7, -6, i64::MAX, i64::MIN][choose(13)]; let (p, q) = (choose_in(-4, 3), choose_in(-4, 3));
    let r = call!(np::rot90; a.o, int(k), tup(vec![int(p), int(q)])); let bad = |x: i64| x < -nd || x >= nd; let nz = |x: i64| if x < 0 { x + nd } else { x } as usize;
    if bad(p) || bad(q) || nz(p) == nz(q) { must_err(r, 95); return; }
    let (p, q) = (nz(p), nz(q)); let t = (k & 3) as u64; let mut sh = a.shape.clone(); if t % 2 == 1 { sh.swap(p, q); }
    // one quarter turn: r[i, j] = a[j, n - 1 - i] in the (p, q) plane
    maps(&arr_of(r, 96), &a, &sh, true, 97, |ix| { let mut v = ix.to_vec(); let (i, j) = (ix[p], ix[q]); let (n, m) = (a.shape[p], a.shape[q]); match t { 0 => {} 1 => { v[p] = j; v[q] = m - 1 - i; } 2 => { v[p] = n - 1 - i; v[q] = m - 1 - j; } _ => { v[p] = n - 1 - j; v[q] = i; } } v })
}
/// broadcast_to / broadcast_arrays / broadcast_shapes
fn bshape(a: &[usize], b: &[usize]) -> Option<Vec<usize>> { let n = a.len().max(b.len()); let mut o = vec![0; n]; for k in 0..n { let x = if k < a.len() { a[a.len() - 1 - k] } else { 1 }; let y = if k < b.len() { b[b.len() - 1 - k] } else { 1 }; o[n - 1 - k] = if x == y { x } else if x == 1 { y } else if y == 1 { x } else { return None }; } Some(o) }
fn bmaps(r: &A, a: &A, sh: &[usize], id: u32) { maps(r, a, sh, true, id, |ix| { let off = ix.len() - a.ndim(); (0..a.ndim()).map(|d| if a.shape[d] == 1 { 0 } else { ix[off + d] }).collect() }) }
fn dimvec() -> Vec<usize> { let k = choose(4); (0..k).map(|_| choose_in(0, 3) as usize).collect() }
fn broadcast_to() {
    let a = src(8); let sh = dimvec(); let r = call!(np::broadcast_to; a.o, itup(&sh));
    if bshape(&a.shape, &sh).map_or(false, |s| s == sh) && sh.len() >= a.ndim() && (0..a.ndim()).all(|d| { let t = sh[sh.len() - a.ndim() + d]; a.shape[d] == 1 || a.shape[d] == t }) { bmaps(&arr_of(r, 100), &a, &sh, 101) } else { must_kind(r, Kind::Value, 103) }
}
fn broadcast_arrays() {
    let a = layout("int32", SH[choose(8)], [0, 1, 2][choose(3)]); let b = layout("int8", SH[choose(8)], [0, 4][choose(2)]); let r = call!(np::broadcast_arrays; lst(vec![a.o.clone(), b.o.clone()]));
    match bshape(&a.shape, &b.shape) { None => must_kind(r, Kind::Value, 104), Some(s) => { let v = items(&must(r, 105)); check(v.len() == 2, 106); if v.len() == 2 { bmaps(&A::of(&v[0]), &a, &s, 107); bmaps(&A::of(&v[1]), &b, &s, 109) } } }
}
fn broadcast_shapes() {
    let (x, y) = (dimvec(), dimvec()); let z = [vec![], vec![1], vec![2], vec![3, 1]][choose(4)].clone(); let r = call!(np::broadcast_shapes; itup(&x), itup(&y), itup(&z));
    match bshape(&x, &y).and_then(|s| bshape(&s, &z)) { None => must_kind(r, Kind::Value, 111), Some(s) => { let v: Vec<i64> = items(&must(r, 112)).iter().map(|o| obj_i(o).unwrap()).collect(); check(v.len() == s.len() && (0..s.len()).all(|k| v[k] == s[k] as i64), 113) } }
}
pub const H: &[(&str, fn())] = &[("p03.reshape", reshape), ("p03.reshape_any", reshape_any), ("p03.ravel", ravel), ("p03.transpose", transpose), ("p03.permute", permute), ("p03.swapaxes", swapaxes), ("p03.moveaxis", moveaxis), ("p03.rollaxis", rollaxis), ("p03.dims", dims), ("p03.copy", copy), ("p03.flips", flips), ("p03.rot90", rot90), ("p03.broadcast_to", broadcast_to), ("p03.broadcast_arrays", broadcast_arrays), ("p03.broadcast_shapes", broadcast_shapes)];
