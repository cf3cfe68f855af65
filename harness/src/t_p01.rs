//! P01: reading by basic index (integers, slices, None, Ellipsis, tuples), boolean mask and integer array.
use crate::sx::*; use crate::util::*;

const DT: &[&str] = &["int32", "float64", "int8", "complex128"];
fn oany(n: i64) -> Option<i64> { if choose(2) == 0 { None } else { Some(idx64(-n - 1, n + 1)) } }

/// a[i], 1-D, every layout, i any 64-bit integer
fn int1d() {
    let n = choose_in(0, 4) as usize; let a = layout(DT[choose(4)], &[n], choose(NLAYOUT));
    let nn = n as i64; let i = idx64(-nn, nn); let r = getitem(&a.o, int(i));
    if i >= -nn && i < nn { let j = if i < 0 { i + nn } else { i } as u64; let o = must(r, 2); is_elem(&o, &a, &[fork(j) as usize], 1); }
    else { must_kind(r, Kind::Index, 3) }
}
/// a[start:stop:step], 1-D, all three any 64-bit integer or None
fn slice1d() {
    let n = choose_in(0, 4) as usize; let a = layout("int32", &[n], [0, 2, 3, 4][choose(4)]);
    let (s, e) = (oany(n as i64), oany(n as i64)); let st = [None, Some(1i64), Some(-1), Some(2), Some(-2), Some(3), Some(-3), Some(i64::MAX), Some(i64::MIN), Some(0)][choose(10)];
    let r = getitem(&a.o, slice(s, e, st));
    let st = st.unwrap_or(1);
    if st == 0 { must_kind(r, Kind::Value, 4); return; }
    let want = py_slice(s, e, st, n as i64);
    let r = arr_of(r, 5);
    check(r.ndim() == 1 && r.dt == a.dt, 6); check(r.shape[0] == want.len(), 7);
    for k in 0..want.len() { check(r.addr(&[k]) == a.addr(&[want[k] as usize]), 8); }
}
#[derive(Clone)] enum It { I(i64), S(Option<i64>, Option<i64>, i64), N, E }
fn item(kinds: u64, n: i64) -> It {
    match choose(kinds) { 0 => It::I(choose_in(-n - 1, n)), 1 => { let st = [1, -1, 2, -2][choose(4)]; let s = if choose(2) == 0 { None } else { Some(choose_in(-n - 1, n + 1)) }; It::S(s, None, st) }
        2 => { let e = choose_in(-n - 1, n + 1); It::S(None, Some(e), [1, -1][choose(2)]) } 3 => It::N, _ => It::E }
}
/// expected source index lists; None = IndexError
fn expand(its: &[It], nd: usize) -> Option<Vec<It>> {
    let consumed = its.iter().filter(|i| matches!(i, It::I(_) | It::S(..))).count();
    let ne = its.iter().filter(|i| matches!(i, It::E)).count();
    if ne > 1 || consumed > nd { return None; }
    let mut out = vec![];
    for i in its { match i { It::E => for _ in 0..nd - consumed { out.push(It::S(None, None, 1)); }, x => out.push(x.clone()) } }
    let c2 = out.iter().filter(|i| matches!(i, It::I(_) | It::S(..))).count();
    for _ in c2..nd { out.push(It::S(None, None, 1)); }
    Some(out)
}
fn key(its: &[It]) -> Obj { tup(its.iter().map(|i| match i { It::I(k) => int(*k), It::S(a, b, c) => slice(*a, *b, Some(*c)), It::N => none(), It::E => ell() }).collect()) }
fn tuple_check(a: &A, its: &[It]) {
    let r = getitem(&a.o, key(its));
    let ex = match expand(its, a.ndim()) { None => { must_kind(r, Kind::Index, 10); return; } Some(x) => x };
    // per source axis: either a fixed position or a list; plus output axes in order
    let mut outs: Vec<Option<(usize, Vec<i64>)>> = vec![]; let mut base = vec![0usize; a.ndim()]; let mut ax = 0; let mut bad = false;
    for i in &ex { match i {
        It::N => outs.push(None),
        It::I(k) => { let n = a.shape[ax] as i64; let j = if *k < 0 { k + n } else { *k }; if j < 0 || j >= n { bad = true; } else { base[ax] = j as usize; } ax += 1; }
        It::S(s, e, st) => { outs.push(Some((ax, py_slice(*s, *e, *st, a.shape[ax] as i64)))); ax += 1; }
        It::E => {} } }
    if bad { must_kind(r, Kind::Index, 11); return; }
    let o = must(r, 12);
    if outs.is_empty() { is_elem(&o, a, &base, 13); return; }
    let r = A::of(&o); let sh: Vec<usize> = outs.iter().map(|x| match x { None => 1, Some((_, v)) => v.len() }).collect();
    check(r.has_shape(&sh), 14); check(r.dt == a.dt, 15);
    if !r.has_shape(&sh) { return; }
    for ix in indices(&sh) { let mut src = base.clone(); for (d, x) in outs.iter().enumerate() { if let Some((axx, v)) = x { src[*axx] = v[ix[d]] as usize; } } check(r.addr(&ix) == a.addr(&src), 16); }
}
fn tuple2() { let sh = [[2, 3], [3, 1], [2, 0]][choose(3)]; let a = layout("int16", &sh, choose(NLAYOUT)); let x = item(3, sh[0] as i64); let y = item(3, sh[1] as i64); tuple_check(&a, &[x, y]); }
/// two integers, both any 64-bit value
fn int2() {
    let sh = [[2, 3], [3, 1], [2, 0]][choose(3)]; let a = layout(["int32", "int64", "uint64", "float64", "bool", "complex128", "float32"][choose(7)], &sh, choose(NLAYOUT));
    let (n, m) = (sh[0] as i64, sh[1] as i64); let (i, j) = (idx64(-n, n), idx64(-m, m));
    let r = getitem(&a.o, tup(vec![int(i), int(j)]));
    if i >= -n && i < n && j >= -m && j < m { let i = fork(if i < 0 { i + n } else { i } as u64) as usize; let j = fork(if j < 0 { j + m } else { j } as u64) as usize; let o = must(r, 17); is_elem(&o, &a, &[i, j], 18); }
    else { must_kind(r, Kind::Index, 19) }
}
/// mixtures with None and Ellipsis, 0 to 4 items on a 3-D array
fn tuple_mix() {
    let sh = [[2, 2, 3], [1, 3, 2]][choose(2)]; let a = layout("int32", &sh, [0, 1, 2, 4][choose(4)]);
    let k = choose(5); let mut its = vec![];
    for _ in 0..k { its.push(match choose(5) { 0 => It::I(-1), 1 => It::S(None, None, -1), 2 => It::N, 3 => It::E, _ => It::S(Some(1), None, 1) }); }
    tuple_check(&a, &its);
}
/// slice of a slice of a slice (all parameters any value): composition of positions
fn chain() { chain_n(2) }
fn chain3() { chain_n(3) }
fn chain_n(links: usize) {
    let n = 4usize; let a = sym("int32", &[n]); let mut cur = A::of(&a.o); let mut pos: Vec<i64> = (0..n as i64).collect();
    for _ in 0..links { let st = [1i64, -1, 2, -2, -3][choose(5)]; let s = if choose(2) == 0 { None } else { Some(idx64(-5, 4)) };
        let sel = py_slice(s, None, st, pos.len() as i64); pos = sel.iter().map(|i| pos[*i as usize]).collect();
        cur = arr_of(getitem(&cur.o, slice(s, None, Some(st))), 20); check(cur.shape.len() == 1 && cur.shape[0] == pos.len(), 21);
        if cur.shape[0] != pos.len() { return; } }
    for k in 0..pos.len() { check(cur.addr(&[k]) == a.addr(&[pos[k] as usize]), 22); }
}
/// single-item keys on n-d arrays
fn single() {
    let shs: [&[usize]; 4] = [&[2, 3], &[3], &[], &[2, 0, 2]]; let sh = shs[choose(4)]; let a = layout("int32", sh, choose(NLAYOUT));
    match choose(4) {
        0 => { let r = arr_of(getitem(&a.o, none()), 30); let mut w = vec![1]; w.extend_from_slice(sh); check(r.has_shape(&w), 31); for ix in a.idx() { let mut j = vec![0]; j.extend_from_slice(&ix); check(r.addr(&j) == a.addr(&ix), 32); } }
        1 => { let r = arr_of(getitem(&a.o, ell()), 33); check(r.has_shape(sh), 34); for ix in a.idx() { check(r.addr(&ix) == a.addr(&ix), 35); } }
        2 => { let i = idx64(-3, 3); let r = getitem(&a.o, int(i)); if sh.is_empty() { must_kind(r, Kind::Index, 36); return; } let n = sh[0] as i64;
            if i < -n || i >= n { must_kind(r, Kind::Index, 37); return; } let j = fork(if i < 0 { i + n } else { i } as u64) as usize; let o = must(r, 38);
            if sh.len() == 1 { is_elem(&o, &a, &[j], 39); } else { let r = A::of(&o); check(r.has_shape(&sh[1..]), 40); for ix in r.idx() { let mut f = vec![j]; f.extend_from_slice(&ix); check(r.addr(&ix) == a.addr(&f), 41); } } }
        _ => { let its = [It::S(Some(1), None, 1)]; if sh.is_empty() { must_kind(getitem(&a.o, slice(Some(1), None, Some(1))), Kind::Index, 42); } else { let r = arr_of(getitem(&a.o, slice(Some(1), None, Some(1))), 43); let w = expand(&its, sh.len()).unwrap(); check(w.len() == sh.len() && r.ndim() == sh.len() && r.shape[0] == sh[0] - 1, 44); if r.ndim() == sh.len() && r.shape[0] + 1 == sh[0] { for ix in r.idx() { let mut f = ix.clone(); f[0] += 1; check(r.addr(&ix) == a.addr(&f), 45); } } } }
    }
}
/// boolean mask: selected elements in row-major order, in a fresh array; wrong shape -> IndexError
fn mask() {
    let shs: [&[usize]; 3] = [&[2, 2], &[4], &[0]]; let sh = shs[choose(3)]; let a = layout(DT[choose(3)], sh, choose(NLAYOUT)); let m = layout("bool", sh, [0, 1, 2][choose(3)]);
    let mut want = vec![]; for ix in a.idx() { if fork(m.bits(&ix)) != 0 { want.push(a.bits(&ix)); } }
    let r = arr_of(getitem(&a.o, m.o.clone()), 50); check(r.has_shape(&[want.len()]) && r.dt == a.dt, 51);
    if r.has_shape(&[want.len()]) { for k in 0..want.len() { check(r.bits(&[k]) == want[k], 52); } if a.size() > 0 && want.len() > 0 { check(r.ptr < a.ptr.min(a.addr(&a.shape.iter().map(|x| x - 1).collect::<Vec<_>>())) || r.ptr > a.ptr.max(a.addr(&a.shape.iter().map(|x| x - 1).collect::<Vec<_>>())), 53); } }
}
fn mask_shape() { let a = sym("int32", &[2, 2]); let bad: [&[usize]; 3] = [&[4], &[2, 3], &[3]]; let m = sym("bool", bad[choose(3)]); must_kind(getitem(&a.o, m.o.clone()), Kind::Index, 54); }
/// integer array index along axis 0 (index values any integer of the index dtype)
fn fancy() {
    let shs: [&[usize]; 4] = [&[3], &[2, 2], &[3, 0], &[0]]; let sh = shs[choose(4)]; let a = layout(DT[choose(3)], sh, choose(NLAYOUT));
    let ish: [&[usize]; 3] = [&[2], &[1, 2], &[0]]; let ish = ish[choose(3)]; let ix = layout(["int64", "int32"][choose(2)], ish, [0, 1, 2][choose(3)]);
    for i in ix.idx() { let v = if ix.dt == "int64" || ix.dt == "int32" { idx32(-3, 3) as i64 } else { 0 }; put_i(ix.addr(&i), ix.dt, v); }
    fancy_check(&a, getitem(&a.o, ix.o.clone()), &ix.flat_i(), ish);
}
fn fancy_check(a: &A, r: PyResult<Obj>, iv: &[i64], ish: &[usize]) {
    let n = a.shape[0] as i64; let mut ok = true; for i in iv { if *i < -n || *i >= n { ok = false; } }
    if !ok { must_kind(r, Kind::Index, 60); return; }
    let r = arr_of(r, 61); let mut w = ish.to_vec(); w.extend_from_slice(&a.shape[1..]); check(r.has_shape(&w) && r.dt == a.dt, 62); if !r.has_shape(&w) { return; }
    for k in 0..iv.len() { let j = fork(if iv[k] < 0 { iv[k] + n } else { iv[k] } as u64) as usize; for t in indices(&a.shape[1..]) { let mut f = unflat(k, ish); f.extend_from_slice(&t); let mut g = vec![j]; g.extend_from_slice(&t); check(r.bits(&f) == a.bits(&g), 63); } }
}
fn fancy_list() { let shs: [&[usize]; 2] = [&[3], &[2, 2]]; let a = layout("float64", shs[choose(2)], choose(NLAYOUT)); let iv: [i64; 1] = [idx64(-3, 3)]; fancy_check(&a, getitem(&a.o, ilst(&iv)), &iv, &[1]); }

pub const H: &[(&str, fn())] = &[("p01.int1d", int1d), ("p01.slice1d", slice1d), ("p01.tuple2", tuple2), ("p01.int2", int2), ("p01.tuple_mix", tuple_mix), ("p01.chain", chain), ("p01.chain3@t", chain3), ("p01.single", single), ("p01.mask", mask), ("p01.mask_shape", mask_shape), ("p01.fancy", fancy), ("p01.fancy_list", fancy_list)];
