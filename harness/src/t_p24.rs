//! P24: index arithmetic and bit packing: unravel/ravel_multi_index, triangle and diagonal indices, ix_, fill_diagonal, packbits/unpackbits, ndindex/ndenumerate/flat.
use crate::sx::*; use crate::util::*;

fn norm(ax: i64, nd: usize) -> Option<usize> { let n = nd as i64; if ax < -n || ax >= n { None } else { Some(if ax < 0 { ax + n } else { ax } as usize) } }
/// index in column-major order
fn unflat_f(mut k: usize, sh: &[usize]) -> Vec<usize> { sh.iter().map(|d| { let r = k % d; k /= d; r }).collect() }
fn flat_f(ix: &[usize], sh: &[usize]) -> usize { let mut k = 0; for d in (0..sh.len()).rev() { k = k * sh[d] + ix[d]; } k }
fn pairs(o: &Obj, n: usize, id: u32) -> Vec<A> { let l = items(o); check(l.len() == n, id); if l.len() != n { stop() } l.iter().map(|x| match A::try_of(x) { Some(a) => a, None => { check(false, id); stop() } }).collect() }

fn unravel() {
    let shs: [&[usize]; 4] = [&[6], &[2, 3], &[2, 1, 3], &[0, 3]]; let sh = shs[choose(4)]; let f = choose(2) == 1; let k = idx64(-2, 8); let form = choose(4); let n = prod(sh) as i64; let k2 = n - 1;
    let (io, ish): (Obj, &[usize]) = match form { 0 => (int(k), &[]), 1 => (ilst(&[k, k2]), &[2]), 2 => { let a = layout(["int64", "int32", "uint8"][choose(3)], &[2], 3); if a.dt != "int64" { assume((k >= 0) & (k < 200)); } put_i(a.addr(&[0]), a.dt, k); put_i(a.addr(&[1]), a.dt, if k2 < 0 { 0 } else { k2 }); (a.o, &[2]) } _ => { let a = layout("int64", &[1, 2], 0); put_i(a.addr(&[0, 0]), a.dt, k); put_i(a.addr(&[0, 1]), a.dt, if k2 < 0 { 0 } else { k2 }); (a.o, &[1, 2]) } };
    let r = if f { call!(np::unravel_index; io, itup(sh); order = st("F")) } else if choose(2) == 0 { call!(np::unravel_index; io, itup(sh)) } else { call!(np::unravel_index; io, itup(sh), st("C")) };
    if k < 0 || k >= n || (n == 0 && form > 0) { must_err(r, 10); return; } let r = must(r, 11); let ks = [k, k2]; let w = |k: i64| if f { unflat_f(k as usize, sh) } else { unflat(k as usize, sh) };
    let l = items(&r); check(l.len() == sh.len(), 12); if l.len() != sh.len() { return; }
    for d in 0..sh.len() { if form == 0 { let g = obj_i(&l[d]).or_else(|| A::try_of(&l[d]).filter(|a| a.size() == 1).map(|a| { let z = a.idx()[0].clone(); a.i(&z) })); check(g == Some(w(k)[d] as i64), 13); } else { let a = A::of(&l[d]); check(a.has_shape(ish) && a.dt == "int64", 14); if !a.has_shape(ish) { return; } for (q, ix) in a.idx().iter().enumerate() { check(a.i(ix) == w(ks[q])[d] as i64, 15); } } }
}
/// ravel of any in-range coordinates is the flat position, wrap/clip modes reduce each coordinate, and out-of-range raises
fn ravel() {
    let shs: [&[usize]; 3] = [&[2, 3], &[3, 2], &[2, 2, 2]]; let sh = shs[choose(3)]; let f = choose(2) == 1; let mode = choose(3); let form = choose(3); let dim: Vec<i64> = sh.iter().map(|x| *x as i64).collect(); let nd = sh.len();
    let c: Vec<[i64; 2]> = (0..nd).map(|d| [if d == 2 { 1 } else { idx64(-4, 5) }, 1]).collect();
    let io = match form { 0 => lst(c.iter().map(|x| ilst(x)).collect()), 1 => tup(c.iter().map(|x| { let a = layout("int64", &[2], 3); for q in 0..2 { put_i(a.addr(&[q]), "int64", x[q]); } a.o }).collect()), _ => { let a = layout("int64", &[nd, 2], 1); for d in 0..nd { for q in 0..2 { put_i(a.addr(&[d, q]), "int64", c[d][q]); } } a.o } };
    let r = call!(np::ravel_multi_index; io, itup(sh); mode = st(["raise", "wrap", "clip"][mode]), order = st(if f { "F" } else { "C" }));
    let bad = (0..nd).any(|d| c[d][0] < 0 || c[d][0] >= dim[d]); if mode == 0 && bad { must_err(r, 20); return; }
    let a = arr_of(r, 21); check(a.has_shape(&[2]) && a.dt == "int64", 22); if !a.has_shape(&[2]) { return; }
    for q in 0..2 { let ix: Vec<usize> = (0..nd).map(|d| { let v = c[d][q]; (match mode { 1 => v.rem_euclid(dim[d]), 2 => if v < 0 { 0 } else if v >= dim[d] { dim[d] - 1 } else { v }, _ => v }) as usize }).collect(); check(a.i(&[q]) == (if f { flat_f(&ix, sh) } else { flat(&ix, sh) }) as i64, 23); }
}
/// unravel then ravel is the identity for every position, whatever the order
fn roundtrip() {
    let shs: [&[usize]; 3] = [&[2, 3], &[3, 1, 2], &[4]]; let sh = shs[choose(3)]; let n = prod(sh) as i64; let k = int_in(0, n - 1); let od = st(["C", "F"][choose(2)]);
    let a = layout("int64", &[1], 0); put_i(a.addr(&[0]), "int64", k); let m = must(call!(np::unravel_index; a.o, itup(sh), od), 25); let r = arr_of(call!(np::ravel_multi_index; tup(items(&m)), itup(sh); order = od), 26); check(r.has_shape(&[1]), 27); if r.has_shape(&[1]) { check(r.i(&[0]) == k, 28); }
}
/// the index pairs of a triangle, in row-major order, for every offset
fn triangles() {
    let (n, m) = (choose_in(0, 4) as usize, choose_in(0, 4) as usize); let k: i64 = match choose(4) { 0 => i64::MAX, 1 => i64::MIN, 2 => any(), _ => idx64(-5, 5) }; let lower = choose(2) == 0; let form = choose(3);
    let r = match (form, lower) { (0, true) => call!(np::tril_indices; int(n as i64), int(k), int(m as i64)), (0, false) => call!(np::triu_indices; int(n as i64), int(k), int(m as i64)), (1, true) => { let z = A::of(&zeros("int8", &[n, m])); call!(np::tril_indices_from; z.o, int(k)) } (1, false) => { let z = A::of(&zeros("int8", &[n, m])); call!(np::triu_indices_from; z.o, int(k)) } (_, true) => { if m != n { return; } call!(np::tril_indices; int(n as i64); k = int(k)) } (_, false) => { if m != n { return; } call!(np::triu_indices; int(n as i64); k = int(k)) } };
    let p = pairs(&must(r, 30), 2, 31); let mut w = vec![]; for i in 0..n { for j in 0..m { let d = j as i64 - i as i64; if if lower { d <= k } else { d >= k } { w.push((i as i64, j as i64)); } } }
    for x in 0..2 { check(p[x].has_shape(&[w.len()]) && p[x].dt == "int64", 32); if !p[x].has_shape(&[w.len()]) { return; } for (q, v) in w.iter().enumerate() { check(p[x].i(&[q]) == [v.0, v.1][x], 33); } }
}
fn diagonals() {
    let n = choose_in(0, 4) as usize; let nd = choose_in(1, 3) as usize; match choose(2) { 0 => { let p = pairs(&must(call!(np::diag_indices; int(n as i64), int(nd as i64)), 40), nd, 41); for x in &p { check(x.has_shape(&[n]), 42); if x.has_shape(&[n]) { for q in 0..n { check(x.i(&[q]) == q as i64, 43); } } } }
        _ => { let sh = [n, choose_in(0, 3) as usize, choose_in(0, 3) as usize]; let z = A::of(&zeros("int8", &sh[..nd])); let r = call!(np::diag_indices_from; z.o); if nd < 2 || sh[1..nd].iter().any(|d| *d != n) { must_err(r, 44); return; } let p = pairs(&must(r, 45), nd, 46); for x in &p { check(x.has_shape(&[n]), 47); if x.has_shape(&[n]) { for q in 0..n { check(x.i(&[q]) == q as i64, 48); } } } } }
}
/// ix_ makes an open mesh: operand k varies along axis k only, boolean masks become the positions of their True entries
fn open_mesh() {
    let (n, m) = (choose_in(1, 3) as usize, choose_in(1, 3) as usize); let a = layout("int64", &[n], [0, 2, 3][choose(3)]); let mask = choose(2) == 1; let b = layout(if mask { "bool" } else { "int64" }, &[m], [0, 2][choose(2)]); let p = pairs(&must(call!(np::ix_; a.o, b.o), 50), 2, 51);
    let v: Vec<i64> = (0..m).filter(|i| !mask || b.bits(&[*i]) != 0).map(|i| if mask { i as i64 } else { b.i(&[i]) }).collect();
    check(p[0].has_shape(&[n, 1]) && p[1].has_shape(&[1, v.len()]), 52); if !p[0].has_shape(&[n, 1]) || !p[1].has_shape(&[1, v.len()]) { return; } for i in 0..n { check(p[0].i(&[i, 0]) == a.i(&[i]), 53); } for (j, x) in v.iter().enumerate() { check(p[1].i(&[0, j]) == *x, 54); }
}
/// only the diagonal changes (every n-th wrapped row of a tall matrix with wrap), through any view
fn fill_diag() {
    let dt = ["int64", "float64", "uint8"][choose(3)]; let shs: [&[usize]; 6] = [&[2, 2], &[2, 3], &[5, 2], &[3, 3], &[2, 2, 2], &[4, 2]]; let sh = shs[choose(6)]; let a = layout(dt, sh, choose(NLAYOUT)); let wrap = choose(2) == 1; let form = choose(3); let before = a.flat_bits(); let k: i64 = any(); if dt != "int64" { assume(k >= 0); assume(k < 200); } let v = layout(dt, &[2], 3);
    let (val, e): (Obj, [u64; 2]) = match form { 0 => (int(k), [bits_of_i(dt, k); 2]), 1 => (v.o.clone(), [v.bits(&[0]), v.bits(&[1])]), _ => { if dt != "int64" { return; } (ilst(&[k, 7]), [bits_of_i(dt, k), bits_of_i(dt, 7)]) } };
    let r = if wrap { call!(np::fill_diagonal; a.o, val, boo(true)) } else { call!(np::fill_diagonal; a.o, val) }; must(r, 60); let nd = sh.len(); let (rows, cols) = (sh[0], sh[1]); let mut q = 0;
    for (p, ix) in a.idx().iter().enumerate() { let on = if nd > 2 { ix.iter().all(|x| *x == ix[0]) } else if wrap && rows > cols { ix[0] % (cols + 1) == ix[1] } else { ix[0] == ix[1] }; if on { check(a.bits(ix) == e[q % 2], 61); q += 1; } else { check(a.bits(ix) == before[p], 62); } }
}
fn fill_diag_err() { let shs: [&[usize]; 3] = [&[3], &[2, 2, 3], &[0]]; let a = layout("int64", shs[choose(3)], 0); let b = a.flat_bits(); must_err(call!(np::fill_diagonal; a.o, int(5)), 65); for (k, x) in a.flat_bits().iter().enumerate() { check(*x == b[k], 66); } }
/// bit j of byte i along the axis is element 8i+j (from the top bit or, little, from the bottom), missing elements are 0
fn pack() {
    let dt = ["bool", "uint8", "int64"][choose(3)]; let cs: [(&[usize], Option<i64>); 9] = [(&[3], None), (&[9], Some(0)), (&[8], None), (&[2, 3], None), (&[2, 3], Some(0)), (&[2, 3], Some(-1)), (&[2, 9], Some(1)), (&[0, 2], Some(0)), (&[2, 2, 2], Some(1))]; let (sh, ax) = cs[choose(9)]; let a = layout(dt, sh, choose(NLAYOUT)); let little = choose(2) == 1; let n0 = a.size();
    let bo = st(if little { "little" } else { "big" }); let r = arr_of(match ax { None => call!(np::packbits; a.o; bitorder = bo), Some(x) => call!(np::packbits; a.o, int(x), bo) }, 70); let (base, p): (Vec<usize>, usize) = match ax { None => (vec![n0], 0), Some(x) => (sh.to_vec(), norm(x, sh.len()).unwrap()) };
    let mut rs = base.clone(); rs[p] = (base[p] + 7) / 8; check(r.has_shape(&rs) && r.dt == "uint8", 71); if !r.has_shape(&rs) || r.dt != "uint8" { return; }
    for q in r.idx() { let mut w = 0u64; for j in 0..8 { let pos = q[p] * 8 + j; if pos >= base[p] { continue; } let mut s = q.clone(); s[p] = pos; let s = if ax.is_none() { unflat(s[0], sh) } else { s }; let b = (a.bits(&s) != 0) as u64; w |= b << if little { j } else { 7 - j }; } check(r.bits(&q) == w, 72); }
}
fn unpack() {
    let cs: [(&[usize], Option<i64>); 6] = [(&[2], None), (&[2], Some(-1)), (&[1, 2], None), (&[2, 1], Some(0)), (&[2, 1], Some(1)), (&[0], None)]; let (sh, ax) = cs[choose(6)]; let a = layout("uint8", sh, choose(NLAYOUT)); let little = choose(2) == 1; let bo = st(if little { "little" } else { "big" }); let cnt = match choose(3) { 0 => None, 1 => Some([-17, -16, -9, -8, -1][choose(5)]), _ => Some([0, 1, 7, 8, 9, 15, 16, 17, 18][choose(9)]) };
    let (base, p): (Vec<usize>, usize) = match ax { None => (vec![a.size()], 0), Some(x) => (sh.to_vec(), norm(x, sh.len()).unwrap()) }; let full = base[p] as i64 * 8; let len = match cnt { None => full, Some(c) => if c < 0 { full + c } else { c } };
    let mut kw = vec![("bitorder", bo)]; if let Some(x) = ax { kw.push(("axis", int(x))); } if let Some(c) = cnt { kw.push(("count", int(c))); } let r = np::unpackbits(&pyo3::Args::new(vec![a.o.clone()], kw)); if len < 0 { must_err(r, 75); return; } let r = arr_of(r, 76);
    let mut rs = base.clone(); rs[p] = len as usize; check(r.has_shape(&rs) && r.dt == "uint8", 77); if !r.has_shape(&rs) || r.dt != "uint8" { return; }
    for q in r.idx() { let pos = q[p]; let w = if pos as i64 >= full { 0 } else { let mut s = q.clone(); s[p] = pos / 8; let s = if ax.is_none() { unflat(s[0], sh) } else { s }; let j = pos % 8; (a.bits(&s) >> if little { j } else { 7 - j }) & 1 }; check(r.bits(&q) == w, 78); }
}
/// unpack(pack(x), count=n) recovers the truth values of every x
fn pack_roundtrip() {
    let n = choose_in(1, 17) as usize; let a = layout(["bool", "uint8"][choose(2)], &[n], [0, 2, 3][choose(3)]); let bo = st(["big", "little"][choose(2)]); let p = must(call!(np::packbits; a.o; bitorder = bo), 80); let r = arr_of(call!(np::unpackbits; p; count = int(n as i64), bitorder = bo), 81); check(r.has_shape(&[n]), 82); if r.has_shape(&[n]) { for i in 0..n { check(r.bits(&[i]) == (a.bits(&[i]) != 0) as u64, 83); } }
}
fn pack_err() { match choose(4) { 0 => { let a = A::of(&zeros("float64", &[3])); must_err(call!(np::packbits; a.o), 85) } 1 => { let a = A::of(&zeros("int64", &[3])); must_err(call!(np::unpackbits; a.o), 85) } 2 => { let a = A::of(&zeros("uint8", &[3])); must_err(call!(np::packbits; a.o; bitorder = st("middle")), 85) } _ => { let a = A::of(&zeros("uint8", &[3, 2])); let x = int_in(-6, 6); assume((x < -2) | (x > 1)); must_err(if choose(2) == 0 { call!(np::packbits; a.o, int(x)) } else { call!(np::unpackbits; a.o, int(x)) }, 85) } } }
/// ndindex enumerates exactly the indices of the shape in row-major order
fn nd_index() {
    let sh: Vec<usize> = (0..choose_in(0, 3)).map(|_| choose_in(0, 3) as usize).collect(); let d: Vec<i64> = sh.iter().map(|x| *x as i64).collect(); let o = must(if choose(2) == 0 && !d.is_empty() { np::ndindex(&args(vec![itup(&sh)])) } else { np::ndindex(&args(d.iter().map(|x| int(*x)).collect())) }, 90);
    for w in indices(&sh) { let g = must(next_index(&o), 91); let g: Vec<Option<i64>> = items(&g).iter().map(obj_i).collect(); check(g == w.iter().map(|x| Some(*x as i64)).collect::<Vec<_>>(), 92); } check(matches!(must(next_index(&o), 93).v, Val::None), 94);
}
fn next_index(o: &Obj) -> pyo3::PyResult<Obj> { crate::python::indexing::NdIndex::__w___next__(&pyo3::Bound::of(o.clone()), &args(vec![])) }
fn next_enum(o: &Obj) -> pyo3::PyResult<Obj> { crate::python::indexing::NdEnumerate::__w___next__(&pyo3::Bound::of(o.clone()), &args(vec![])) }
fn next_flat(o: &Obj) -> pyo3::PyResult<Obj> { crate::python::pyarray::PyFlatIter::__w___next__(&pyo3::Bound::of(o.clone()), &args(vec![])) }
/// ndenumerate and flat visit every element of any view once, in row-major order, with its value
fn iterate() {
    let dts = ["int64", "float64", "uint64", "bool", "int8", "complex128"]; let shs: [&[usize]; 4] = [&[3], &[2, 2], &[2, 0], &[1, 2, 2]]; let a = layout(dts[choose(6)], shs[choose(4)], choose(NLAYOUT)); let o = a.o.clone();
    if choose(2) == 0 { let it = must(call!(np::ndenumerate; a.o), 95); for ix in a.idx() { let l = items(&must(next_enum(&it), 96)); check(l.len() == 2, 96); if l.len() != 2 { return; } let g: Vec<Option<i64>> = items(&l[0]).iter().map(obj_i).collect(); check(g == ix.iter().map(|x| Some(*x as i64)).collect::<Vec<_>>(), 97); is_elem(&l[1], &a, &ix, 98); } check(matches!(must(next_enum(&it), 99).v, Val::None), 99); }
    else { let it = must(meth!(o.__w_flat;), 100); for ix in a.idx() { is_elem(&must(next_flat(&it), 101), &a, &ix, 102); } check(matches!(must(next_flat(&it), 103).v, Val::None), 103); }
}
pub const H: &[(&str, fn())] = &[("unravel", unravel), ("ravel", ravel), ("roundtrip", roundtrip), ("triangles", triangles), ("diagonals", diagonals), ("open_mesh", open_mesh), ("fill_diag", fill_diag), ("fill_diag_err", fill_diag_err), ("pack", pack), ("unpack", unpack), ("pack_roundtrip", pack_roundtrip), ("pack_err", pack_err), ("nd_index", nd_index), ("iterate", iterate)];
