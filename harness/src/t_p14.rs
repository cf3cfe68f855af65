//! P14: selection by index and by condition: take, compress, nonzero, put, choose, where, select, extract, place, copyto, fill.
use crate::sx::*; use crate::util::*;

const DT: &[&str] = &["int64", "float64", "int8", "complex128"];
fn elem(a: &A, ix: &[usize]) -> (u64, u64) { let p = a.addr(ix); if a.isz <= 8 { (bits_at(p, a.isz), 0) } else { (bits_at(p, 8), bits_at(p + 8, 8)) } }
fn snap(a: &A) -> Vec<(u64, u64)> { a.idx().iter().map(|i| elem(a, i)).collect() }
/// r has shape `sh`, the dtype of a, and element ix is a[f(ix)]
fn from(r: &A, a: &A, sh: &[usize], id: u32, f: impl Fn(&[usize]) -> Vec<usize>) { check(r.has_shape(sh) && r.dt == a.dt, id); if !r.has_shape(sh) || r.dt != a.dt { return; } for ix in r.idx() { check(elem(r, &ix) == elem(a, &f(&ix)), id + 1); } }
fn norm(ax: i64, nd: usize) -> Option<usize> { let n = nd as i64; if ax < -n || ax >= n { None } else { Some(if ax < 0 { ax + n } else { ax } as usize) } }
fn truthy(a: &A, ix: &[usize]) -> bool { let p = a.addr(ix); match a.dt { "float64" => bits_at(p, 8) << 1 != 0, "float32" => bits_at(p, 4) << 33 != 0, "complex128" => ((bits_at(p, 8) << 1) | (bits_at(p + 8, 8) << 1)) != 0, _ => bits_at(p, a.isz) != 0 } }
/// element converted to dtype `p` (real dtypes)
fn conv(a: &A, ix: &[usize], p: &'static str) -> (u64, bool) { let q = a.addr(ix); with!(p, T => { let v = T::ld(q, a.dt); (v.bits(), v.nan()) }) }
const KINDS: &[&str] = &["int64", "int32", "int8", "uint8", "int16"];
/// index array of dtype k holding v
fn ixarr(k: usize, sh: &[usize], v: &[i64], lay: usize) -> A { let a = layout(KINDS[k], sh, lay); for (i, ix) in a.idx().iter().enumerate() { put_i(a.addr(ix), KINDS[k], v[i]); } a }

fn take_idx(flatn: bool) {
    let shs: [&[usize]; 4] = [&[4], &[2, 3], &[2, 1, 2], &[3, 0]]; let a = layout(["int64", "int8"][choose(2)], shs[choose(4)], choose(NLAYOUT)); let o = a.o.clone();
    let ax = if flatn { 0 } else { idx64(-4, 3) }; let n = if flatn { a.size() } else { match norm(ax, a.ndim()) { Some(p) => a.shape[p], None => 0 } } as i64; let i = idx64(-5, 5); let form = choose(3); let j = if n > 0 { n - 1 } else { 0 };
    let (io, ish): (Obj, &[usize]) = match form { 0 => (ilst(&[i, j]), &[2]), 1 => (ixarr(0, &[2], &[i, j], 2).o, &[2]), _ => (ixarr(0, &[1, 2], &[i, j], 0).o, &[1, 2]) };
    let r = if flatn { if form == 1 { meth!(o.__w_take; io) } else { call!(np::take; a.o, io) } } else if form == 1 { meth!(o.__w_take; io, int(ax)) } else { call!(np::take; a.o, io, int(ax)) };
    let p = if flatn { 0 } else { match norm(ax, a.ndim()) { Some(p) => p, None => { must_err(r, 10); return; } } };
    if n == 0 || i < -n || i >= n { must_kind(r, Kind::Index, 11); return; } let v = [if i < 0 { i + n } else { i } as usize, j as usize]; let r = arr_of(r, 12);
    if flatn { from(&r, &a, ish, 13, |ix| unflat(v[ix[ix.len() - 1]], &a.shape)) } else { let mut sh = a.shape[..p].to_vec(); sh.extend_from_slice(ish); sh.extend_from_slice(&a.shape[p + 1..]); let d = ish.len(); from(&r, &a, &sh, 15, |ix| { let mut s = ix[..p].to_vec(); s.push(v[ix[p + d - 1]]); s.extend_from_slice(&ix[p + d..]); s }) }
}
fn take_flat() { take_idx(true) }
fn take_axis() { take_idx(false) }
/// every element dtype and index dtype
fn take_dtypes() {
    let dts = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "complex128"]; let dt = dts[choose(12)]; let k = choose(5); let a = layout(dt, [&[3usize][..], &[2, 2]][choose(2)], [0, 2, 3][choose(3)]); let v = [0, 1]; let ix = ixarr(k, &[2], &[1, if KINDS[k] == "uint8" { 0 } else { -1 }], 3); let n = a.shape[0]; let _ = v;
    let w = [1, if KINDS[k] == "uint8" { 0 } else { n - 1 }]; let mut sh = a.shape.clone(); sh[0] = 2; from(&arr_of(call!(np::take; a.o, ix.o, int(0)), 18), &a, &sh, 19, |q| { let mut s = q.to_vec(); s[0] = w[q[0]]; s })
}
fn take_along() {
    let a = layout(DT[choose(2)], &[2, 3], choose(NLAYOUT)); let p: [&[usize]; 5] = [&[2, 2], &[1, 1], &[2, 1], &[1, 3], &[3, 3]]; let ish = p[choose(5)]; let i = idx64(-4, 4); let m = prod(ish); let mut v: Vec<i64> = (0..m).map(|k| (k % 2) as i64 - 1).collect(); v[m - 1] = i; let ix = ixarr(0, ish, &v, [0, 1, 2][choose(3)]); let ax = idx64(-3, 2);
    let r = call!(np::take_along_axis; a.o, ix.o, int(ax)); let ax = match norm(ax, 2) { Some(x) => x, None => { must_err(r, 20); return; } }; let oth = 1 - ax; if ish[oth] != 1 && ish[oth] != a.shape[oth] { must_err(r, 21); return; }
    let n = a.shape[ax] as i64; if i < -n || i >= n { must_err(r, 22); return; } let mut sh = a.shape.clone(); sh[ax] = ish[ax];
    from(&arr_of(r, 23), &a, &sh, 24, |q| { let w = v[flat(&bix(q, ish), ish)]; let mut s = q.to_vec(); s[ax] = if w < 0 { w + n } else { w } as usize; s })
}
fn compress() {
    let a = layout(DT[choose(3)], [&[3usize][..], &[2, 3]][choose(2)], choose(NLAYOUT)); let o = a.o.clone(); let f = choose(3); let none = choose(2) == 0; let ax = if none { 0 } else { idx64(-3, 2) }; let m = choose_in(0, 4) as usize;
    let c: Vec<bool> = (0..m).map(|_| choose(2) == 1).collect(); let co = if f == 0 { lst(c.iter().map(|b| boo(*b)).collect()) } else { let k = layout("bool", &[m], 2); for (i, b) in c.iter().enumerate() { put_i(k.addr(&[i]), "bool", *b as i64); } k.o };
    let r = match (f == 2, none) { (true, true) => meth!(o.__w_compress; co), (true, false) => meth!(o.__w_compress; co, int(ax)), (false, true) => call!(np::compress; co, a.o), _ => call!(np::compress; co, a.o, int(ax)) };
    let p = match if none { Some(0) } else { norm(ax, a.ndim()) } { Some(p) => p, None => { must_err(r, 30); return; } }; let len = if none { a.size() } else { a.shape[p] };
    if c.iter().skip(len).any(|b| *b) { must_kind(r, Kind::Index, 31); return; } let sel: Vec<usize> = (0..m.min(len)).filter(|k| c[*k]).collect(); let r = arr_of(r, 32);
    if none { from(&r, &a, &[sel.len()], 33, |q| unflat(sel[q[0]], &a.shape)) } else { let mut sh = a.shape.clone(); sh[p] = sel.len(); from(&r, &a, &sh, 35, |q| { let mut s = q.to_vec(); s[p] = sel[q[p]]; s }) }
}
/// positions of the non-zero elements, in order, for symbolic contents of every dtype
fn nonzero() {
    let dts = ["int64", "float64", "int8", "bool", "uint64", "float32", "complex128"]; let dt = dts[choose(7)]; let shs: [&[usize]; 4] = [&[3], &[2, 2], &[2, 0], &[2, 1, 2]]; let a = layout(dt, shs[choose(4)], [0, 1, 2, 3][choose(4)]); let o = a.o.clone(); let f = choose(4); let nd = a.ndim();
    let r = must(match f { 0 => call!(np::nonzero; a.o), 1 => meth!(o.__w_nonzero;), 2 => call!(np::argwhere; a.o), _ => call!(np::flatnonzero; a.o) }, 40);
    let pos: Vec<Vec<usize>> = a.idx().into_iter().filter(|ix| truthy(&a, ix)).collect();
    match f { 0 | 1 => { let l = items(&r); check(l.len() == nd, 41); if l.len() != nd { return; } for d in 0..nd { let x = A::of(&l[d]); check(x.has_shape(&[pos.len()]) && x.dt == "int64", 42); if !x.has_shape(&[pos.len()]) { return; } for (k, p) in pos.iter().enumerate() { check(x.i(&[k]) == p[d] as i64, 43); } } }
        2 => { let x = A::of(&r); check(x.has_shape(&[pos.len(), nd]) && x.dt == "int64", 44); if !x.has_shape(&[pos.len(), nd]) { return; } for (k, p) in pos.iter().enumerate() { for d in 0..nd { check(x.i(&[k, d]) == p[d] as i64, 45); } } }
        _ => { let x = A::of(&r); check(x.has_shape(&[pos.len()]) && x.dt == "int64", 46); if !x.has_shape(&[pos.len()]) { return; } for (k, p) in pos.iter().enumerate() { check(x.i(&[k]) == flat(p, &a.shape) as i64, 47); } } }
}
/// put writes exactly the named elements (through views); an invalid index changes nothing
fn put() {
    let dt = DT[choose(2)]; let a = layout(dt, [&[3usize][..], &[2, 2]][choose(2)], choose(NLAYOUT)); let o = a.o.clone(); let before = snap(&a); let n = a.size() as i64; let i = idx64(-5, 5); let ind = if choose(2) == 0 { ilst(&[i, 0, -1]) } else { ixarr(0, &[3], &[i, 0, -1], 2).o };
    let m = choose(3); let v = layout(dt, &[m], 2); let r = if choose(2) == 0 { call!(np::put; a.o, ind, v.o) } else { meth!(o.__w_put; ind, v.o) }; let mut e = before.clone();
    if (i < -n || i >= n) && m > 0 { must_kind(r, Kind::Index, 50); } else if i < -n || i >= n { return; } else { must(r, 51); if m > 0 { for (k, w) in [i, 0, -1].iter().enumerate() { e[if *w < 0 { w + n } else { *w } as usize] = elem(&v, &[k % m]); } } }
    let t = A::of(&o); check(t.ptr == a.ptr && t.has_shape(&a.shape), 52); let now = snap(&a); for k in 0..now.len() { check(now[k] == e[k], 53); }
}
/// values of another dtype, Python numbers and lists are converted exactly
fn put_values() {
    let (dt, vd) = (DTYPES[choose(11)], ["int64", "uint8", "float64", "bool", "int32"][choose(5)]); if vd == "float64" && !is_float(dt) { return; } let a = layout(dt, &[2], [0, 2][choose(2)]); let keep = a.bits(&[1]); let o = a.o.clone();
    let v = layout(vd, &[1], 0); let r = if choose(2) == 0 { call!(np::put; a.o, ilst(&[0]), v.o) } else { meth!(o.__w_put; ilst(&[0]), v.o) }; must(r, 55); let c = if dt == "bool" { ((truthy(&v, &[0])) as u64, false) } else { conv(&v, &[0], a.dt) }; check_bits(&a, &[0], c, 56); check(a.bits(&[1]) == keep, 57);
}
fn put_scalar() {
    let dt = ["int64", "int32", "uint8", "float64"][choose(4)]; let a = layout(dt, &[3], [0, 2, 3][choose(3)]); let o = a.o.clone(); let k: i64 = any(); let form = choose(4); if dt != "int64" { assume(k >= 0); assume(k < 200); } let keep = a.bits(&[2]);
    match form { 0 => { must(call!(np::put; a.o, ilst(&[0, 1]), int(k)), 58); } 1 => { must(call!(np::put; a.o, ilst(&[0, 1]), ilst(&[k])), 58); } 2 => { must(meth!(o.__w_put; ilst(&[0, 1]), ilst(&[k])), 58); } _ => { must(meth!(o.__w_fill; int(k)), 58); check(a.bits(&[2]) == bits_of_i(dt, k), 59); } }
    check((a.bits(&[0]) == bits_of_i(dt, k)) & (a.bits(&[1]) == bits_of_i(dt, k)), 59); if form < 3 { check(a.bits(&[2]) == keep, 59); }
}
fn put_along() {
    let (dt, vd) = [("int64", "int64"), ("float64", "float64"), ("int64", "int32"), ("float64", "int64")][choose(4)]; let a = layout(dt, &[2, 3], choose(NLAYOUT)); let before = a.flat_bits(); let p: [&[usize]; 3] = [&[2, 1], &[1, 3], &[2, 3]]; let ish = p[choose(3)]; let i = idx64(-4, 4); let m = prod(ish); let mut w: Vec<i64> = vec![0; m]; w[0] = i; let ix = ixarr(0, ish, &w, [0, 1][choose(2)]); let v = layout(vd, if choose(2) == 0 { ish } else { &[1, 1] }, [0, 2][choose(2)]); let ax = idx64(-3, 2);
    let r = call!(np::put_along_axis; a.o, ix.o, v.o, int(ax)); let mut e = before.clone(); let ok = match norm(ax, 2) { Some(ax) => { let n = a.shape[ax] as i64; let oth = 1 - ax; if ish[oth] != a.shape[oth] || i < -n || i >= n { if ish[oth] == 1 { return; } false } else { for q in ix.idx() { let z = w[flat(&q, ish)]; let mut s = q.clone(); s[ax] = if z < 0 { z + n } else { z } as usize; e[flat(&s, &a.shape)] = conv(&v, &bix(&q, &v.shape), a.dt).0; } true } } None => false };
    if ok { must(r, 60); } else { must_err(r, 61); } for (k, q) in a.idx().iter().enumerate() { if ok && vd == "int64" && dt == "float64" { check(a.bits(q) == e[k], 62) } else { check(a.bits(q) == e[k], 63) } }
}
fn choose_fn() {
    let (da, db) = [("int64", "int64"), ("int64", "float64"), ("int8", "int64"), ("uint8", "int8"), ("float32", "float64")][choose(5)]; let p: [(&[usize], &[usize], &[usize]); 4] = [(&[2], &[2], &[2]), (&[2], &[1], &[2]), (&[2, 1], &[2], &[2, 2]), (&[2], &[3], &[2])]; let (si, sa, sb) = p[choose(4)];
    let (a, b) = (layout(da, sa, [0, 2, 3][choose(3)]), layout(db, sb, [0, 1][choose(2)])); let i = idx64(-1, 2); let ix = ixarr(0, si, &[i, 1], [0, 2][choose(2)]); let o = ix.o.clone(); let l = lst(vec![a.o.clone(), b.o.clone()]); let r = if choose(2) == 0 { call!(np::choose; ix.o, l) } else { meth!(o.__w_choose; l) };
    let sh = match bcast(sa, sb).and_then(|s| bcast(&s, si)) { Some(s) => s, None => { must_err(r, 70); return; } }; if i < 0 || i > 1 { must_kind(r, Kind::Value, 71); return; } let pd = promo(da, db); let r = arr_of(r, 72); check(r.has_shape(&sh) && r.dt == pd, 73); if !r.has_shape(&sh) || r.dt != pd { return; }
    for q in r.idx() { let s = if [i, 1][flat(&bix(&q, si), si)] == 0 { &a } else { &b }; check_bits(&r, &q, conv(s, &bix(&q, &s.shape), pd), 74); }
}
fn where_arr(fl: bool) {
    let dts: &[&str] = if fl { &["float64", "float32", "int64"] } else { &["int64", "int32", "uint8", "bool", "uint64"] }; let by_type = choose(2) == 0; let (da, db) = if by_type { (dts[choose(dts.len() as u64)], dts[choose(dts.len() as u64)]) } else { (dts[0], dts[0]) }; let cd = ["bool", "int64", "float64"][if by_type { 0 } else { choose(3) }]; let p: [(&[usize], &[usize], &[usize]); 4] = [(&[2], &[2], &[2]), (&[2, 1], &[2], &[1]), (&[1], &[2, 2], &[2, 1]), (&[2], &[3], &[2])]; let (sc, sa, sb) = p[if by_type { 0 } else { choose(4) }]; let w = |d: &str| if by_type { 0 } else { let _ = d; choose(2) };
    let (c, a, b) = (layout(cd, sc, [0, 2][w(cd)]), layout(da, sa, [0, 3][w(da)]), layout(db, sb, 0)); let r = call!(np::r#where; c.o, a.o, b.o); let sh = match bcast(sa, sb).and_then(|s| bcast(&s, sc)) { Some(s) => s, None => { must_err(r, 80); return; } };
    let pd = promo(da, db); let r = arr_of(r, 81); check(r.has_shape(&sh) && r.dt == pd, 82); if !r.has_shape(&sh) || r.dt != pd { return; } for q in r.idx() { let s = if truthy(&c, &bix(&q, sc)) { &a } else { &b }; check_bits(&r, &q, conv(s, &bix(&q, &s.shape), pd), 83); }
}
fn where_int() { where_arr(false) }
fn where_float() { where_arr(true) }
/// a Python number as one or both branches keeps its value
fn where_scalar() {
    let c = sym("bool", &[2]); let k: i64 = any(); let f = choose(4); let a = layout("int64", &[2], 2);
    match f { 0 => { let r = arr_of(call!(np::r#where; c.o, int(k), a.o), 85); check(r.dt == "int64", 86); for i in 0..2 { let e = if truthy(&c, &[i]) { k } else { a.i(&[i]) }; check(r.i(&[i]) == e, 87); } }
        1 => { let r = arr_of(call!(np::r#where; c.o, a.o, int(k)), 85); check(r.dt == "int64", 86); for i in 0..2 { let e = if truthy(&c, &[i]) { a.i(&[i]) } else { k }; check(r.i(&[i]) == e, 87); } }
        2 => { let r = arr_of(call!(np::r#where; c.o, int(k), int(7)), 85); check(r.dt == "int64" && r.has_shape(&[2]), 86); for i in 0..2 { let e = if truthy(&c, &[i]) { k } else { 7 }; check(r.i(&[i]) == e, 87); } }
        _ => { let x: f64 = any(); let b = layout("float64", &[2], 3); let r = arr_of(call!(np::r#where; c.o, flt(x), b.o), 85); check(r.dt == "float64", 86); for i in 0..2 { let e = if truthy(&c, &[i]) { x.to_bits() } else { b.bits(&[i]) }; check(r.bits(&[i]) == e, 87); } } }
}
fn select() {
    let (da, db) = [("int64", "int64"), ("int8", "int64"), ("int64", "float64"), ("float32", "float32"), ("bool", "bool")][choose(5)]; let p: [(&[usize], &[usize], &[usize], &[usize]); 3] = [(&[2], &[2], &[2], &[2]), (&[2], &[1], &[2, 1], &[2]), (&[2], &[2], &[3], &[2])]; let (s1, s2, sa, sb) = p[choose(3)]; let cd = ["bool", "int64"][choose(2)];
    let (c1, c2, a, b) = (layout(cd, s1, [0, 2][choose(2)]), layout("bool", s2, 0), layout(da, sa, [0, 3][choose(2)]), layout(db, sb, 1)); let df = choose(2) == 1; let r = if df { call!(np::select; lst(vec![c1.o.clone(), c2.o.clone()]), lst(vec![a.o.clone(), b.o.clone()]); default = int(1)) } else { call!(np::select; lst(vec![c1.o.clone(), c2.o.clone()]), lst(vec![a.o.clone(), b.o.clone()])) };
    let sh = match bcast(s1, s2).and_then(|s| bcast(&s, sa)).and_then(|s| bcast(&s, sb)) { Some(s) => s, None => { must_err(r, 90); return; } }; let mut pd = promo(da, db); if df && pd == "bool" { pd = "int64"; } let r = arr_of(r, 91); check(r.has_shape(&sh) && r.dt == pd, 92); if !r.has_shape(&sh) || r.dt != pd { return; }
    for q in r.idx() { if truthy(&c1, &bix(&q, s1)) { check_bits(&r, &q, conv(&a, &bix(&q, sa), pd), 93) } else if truthy(&c2, &bix(&q, s2)) { check_bits(&r, &q, conv(&b, &bix(&q, sb), pd), 94) } else { check(r.bits(&q) == bits_of_i(pd, df as i64), 95) } }
}
fn extract() {
    let cd = ["bool", "int64", "int8", "float64"][choose(4)]; let dts = ["int64", "float64", "int8", "complex128", "int16", "uint32", "bool"]; let dt = dts[choose(7)]; let sh = [&[3usize][..], &[2, 2]][choose(2)]; let (c, a) = (layout(cd, sh, [0, 2, 3][choose(3)]), layout(dt, sh, [0, 1, 2][choose(3)])); let r = arr_of(call!(np::extract; c.o, a.o), 100);
    let sel: Vec<Vec<usize>> = c.idx().into_iter().filter(|q| truthy(&c, q)).collect(); from(&r, &a, &[sel.len()], 101, |q| sel[q[0]].clone())
}
/// place cycles through the values, putmask uses the value at the same position; nothing else changes
fn place() {
    let cd = ["bool", "int64", "float64"][choose(3)]; let (dt, vd) = [("int64", "int64"), ("float64", "float64"), ("int8", "int8"), ("complex128", "complex128"), ("float64", "int64"), ("int64", "int32"), ("uint16", "uint8")][choose(7)]; let sh = [&[3usize][..], &[2, 2]][choose(2)]; let (a, c) = (layout(dt, sh, [0, 1, 2, 3][choose(4)]), layout(cd, sh, [0, 2][choose(2)])); let m = choose_in(0, 2) as usize; let v = layout(vd, &[m], [0, 2][choose(2)]); let f = choose(2);
    let mut e = snap(&a); let mut k = 0; for (q, ix) in a.idx().iter().enumerate() { if m > 0 && truthy(&c, ix) { let w = if f == 0 { k % m } else { q % m }; e[q] = if dt == vd { elem(&v, &[w]) } else { (conv(&v, &[w], a.dt).0, 0) }; k += 1; } }
    let r = if f == 0 { call!(np::place; a.o, c.o, v.o) } else { call!(np::putmask; a.o, c.o, v.o) }; if m == 0 && f == 0 { if r.is_err() { return; } } else { must(r, 105); } let now = snap(&a); for q in 0..now.len() { check(now[q] == e[q], 106); }
}
fn copyto() {
    let (dt, sd) = [("int64", "int64"), ("float64", "float64"), ("complex128", "complex128"), ("float64", "int64"), ("int64", "int32"), ("int64", "bool"), ("int8", "int8")][choose(7)]; let p: [(&[usize], &[usize]); 4] = [(&[3], &[3]), (&[2, 2], &[2]), (&[2, 2], &[2, 1]), (&[3], &[2])]; let (da, sa) = p[choose(4)]; let (a, s) = (layout(dt, da, [0, 1, 2, 3][choose(4)]), layout(sd, sa, [0, 2][choose(2)])); let mut e = snap(&a); let mk = choose(3);
    let c = layout(["bool", "int64"][(mk == 2) as usize], &[da[da.len() - 1]], 0); let r = if mk == 0 { call!(np::copyto; a.o, s.o) } else { call!(np::copyto; a.o, s.o; r#where = c.o) }; let ok = bcast(da, sa).map_or(false, |b| b == da); if !ok { must_err(r, 110); } else { must(r, 111); for (q, ix) in a.idx().iter().enumerate() { if mk == 0 || truthy(&c, &ix[ix.len() - 1..]) { let w = bix(ix, sa); e[q] = if dt == sd { elem(&s, &w) } else { (conv(&s, &w, a.dt).0, 0) }; } } }
    let now = snap(&a); for q in 0..now.len() { check(now[q] == e[q], 112); }
}
/// copying between overlapping views behaves as if the source was read first
fn copyto_overlap() {
    let b = sym(["int64", "float64", "int8"][choose(3)], &[4]); let v = b.flat_bits(); let cut = |s: i64, e: i64| A::of(&must(getitem(&b.o, slice(Some(s), Some(e), None)), 113)); let (d, s) = if choose(2) == 0 { (cut(1, 4), cut(0, 3)) } else { (cut(0, 3), cut(1, 4)) }; let rev = choose(2) == 1; let s = if rev { A::of(&must(getitem(&s.o, slice(None, None, Some(-1))), 113)) } else { s }; let e: Vec<u64> = s.flat_bits(); must(call!(np::copyto; d.o, s.o), 114); for k in 0..3 { check(d.bits(&[k]) == e[k], 115); } let keep = if d.ptr == b.ptr { 3 } else { 0 }; check(b.bits(&[keep]) == v[keep], 116);
}
/// flat iteration, item, tolist: every element, exact, in order
fn elements() {
    let dts = ["int64", "float64", "uint64", "bool", "int8", "float32", "complex128"]; let a = layout(dts[choose(7)], [&[3usize][..], &[2, 2], &[1]][choose(3)], choose(NLAYOUT)); let o = a.o.clone(); let n = a.size();
    if n == 1 { is_elem(&must(meth!(o.__w_item;), 120), &a, &[0], 121); return; } must_err(meth!(o.__w_item;), 122);
    fn leaves(o: &Obj, out: &mut Vec<Obj>) { if let Val::List(l) = &o.v { for x in l.borrow().iter() { leaves(x, out) } } else { out.push(o.clone()) } } let mut l = vec![]; leaves(&must(meth!(o.__w_tolist;), 123), &mut l); check(l.len() == n, 124); if l.len() != n { return; } for (k, q) in a.idx().iter().enumerate() { is_elem(&l[k], &a, q, 125); }
}
pub const H: &[(&str, fn())] = &[("take_flat", take_flat), ("take_axis", take_axis), ("take_dtypes", take_dtypes), ("take_along", take_along), ("compress", compress), ("nonzero", nonzero), ("put", put), ("put_values", put_values), ("put_scalar", put_scalar), ("put_along", put_along), ("choose", choose_fn), ("where_int", where_int), ("where_float", where_float), ("where_scalar", where_scalar), ("select", select), ("extract", extract), ("place", place), ("copyto", copyto), ("copyto_overlap", copyto_overlap), ("elements", elements)];
