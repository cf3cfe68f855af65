//! P13: joining, splitting, repeating, padding, rolling: every output element is the named input element (or fill).
use crate::sx::*; use crate::util::*;

const DT: &[&str] = &["int64", "float64", "int8", "complex128"];
fn same(r: &A, ri: &[usize], a: &A, ai: &[usize], id: u32) { if a.isz <= 8 { check(r.bits(ri) == a.bits(ai), id) } else { check(bits_at(r.addr(ri), 8) == bits_at(a.addr(ai), 8) && bits_at(r.addr(ri) + 8, 8) == bits_at(a.addr(ai) + 8, 8), id) } }
/// r has shape `sh` and dtype of the sources; element ix is element src(ix).1 of array src(ix).0
fn from(r: &A, srcs: &[&A], sh: &[usize], id: u32, f: impl Fn(&[usize]) -> (usize, Vec<usize>)) { check(r.has_shape(sh) && r.dt == srcs[0].dt, id); if !r.has_shape(sh) || r.dt != srcs[0].dt { return; } for ix in r.idx() { let (k, s) = f(&ix); same(r, &ix, srcs[k], &s, id + 1); } }
fn norm(ax: i64, nd: usize) -> Option<usize> { let n = nd as i64; if ax < -n || ax >= n { None } else { Some(if ax < 0 { ax + n } else { ax } as usize) } }
fn cat_check(r: PyResult<Obj>, srcs: &[&A], ax: Option<usize>, id: u32) {
    let nd = srcs[0].ndim(); let ok = ax.is_some() && srcs.iter().all(|s| s.ndim() == nd && (0..nd).all(|d| Some(d) == ax || s.shape[d] == srcs[0].shape[d])); if !ok { must_err(r, id); return; }
    let ax = ax.unwrap(); let mut sh = srcs[0].shape.clone(); sh[ax] = srcs.iter().map(|s| s.shape[ax]).sum(); from(&arr_of(r, id + 1), srcs, &sh, id + 2, |ix| { let mut i = ix[ax]; let mut k = 0; while i >= srcs[k].shape[ax] { i -= srcs[k].shape[ax]; k += 1; } let mut v = ix.to_vec(); v[ax] = i; (k, v) })
}
fn view_of(a: &A, sh: &[usize]) -> A { A::of(&must(call!(np::reshape; a.o, itup(sh)), 8)) }

fn concatenate() {
    let dt = DT[choose(4)]; let p: [(&[usize], &[usize]); 6] = [(&[2], &[3]), (&[2, 3], &[2, 1]), (&[2, 2], &[1, 2]), (&[2, 0], &[2, 2]), (&[2, 1, 2], &[2, 1, 2]), (&[2], &[2, 1])]; let (sa, sb) = p[choose(6)]; let (a, b) = (layout(dt, sa, choose(NLAYOUT)), layout(dt, sb, [0, 2, 3][choose(3)]));
    let ax = idx64(-4, 3); let l = lst(vec![a.o.clone(), b.o.clone()]); let r = if choose(2) == 0 { call!(np::concatenate; l, int(ax)) } else { call!(np::concat; l; axis = int(ax)) }; cat_check(r, &[&a, &b], norm(ax, a.ndim()), 10);
}
/// common dtype of the operands, exact values
fn concat_mixed() {
    let (da, db) = (DTYPES[choose(11)], DTYPES[choose(11)]); let (a, b) = (sym(da, &[2]), layout(db, &[2], [0, 2][choose(2)])); let p = promo(da, db); let l = lst(vec![a.o.clone(), b.o.clone()]);
    let f = choose(3); let r = arr_of(match f { 0 => call!(np::concatenate; l), 1 => call!(np::hstack; l), _ => call!(np::append; a.o, b.o) }, 20); check(r.dt == p && r.has_shape(&[4]), 21); if r.dt != p { return; }
    for k in 0..4 { let s = if k < 2 { &a } else { &b }; let pa = s.addr(&[k % 2]); let e = with!(p, T => { let v = T::ld(pa, s.dt); (v.bits(), v.nan()) }); check_bits(&r, &[k], e, 22); }
}
fn stack() {
    let dt = DT[choose(4)]; let shs: [&[usize]; 4] = [&[2], &[2, 3], &[], &[0]]; let sh = shs[choose(4)]; let n = choose_in(1, 3) as usize; let v: Vec<A> = (0..n).map(|k| layout(dt, sh, [1, 2, 3][k])).collect(); let ax = idx64(-4, 3);
    let r = call!(np::stack; lst(v.iter().map(|x| x.o.clone()).collect()), int(ax)); let p = match norm(ax, sh.len() + 1) { None => { must_err(r, 30); return; } Some(p) => p };
    let mut rs = sh.to_vec(); rs.insert(p, n); let refs: Vec<&A> = v.iter().collect(); from(&arr_of(r, 31), &refs, &rs, 32, |ix| { let mut s = ix.to_vec(); let k = s.remove(p); (k, s) })
}
fn stacks() {
    let dt = DT[choose(4)]; let f = choose(4); let p: [(&[usize], &[usize]); 8] = [(&[2], &[2]), (&[2], &[3]), (&[2, 2], &[2]), (&[1, 2], &[2]), (&[2, 1], &[2, 2]), (&[], &[]), (&[2, 1, 2], &[2, 1, 2]), (&[2], &[2, 2])]; let (sa, sb) = p[choose(8)]; let (a, b) = (layout(dt, sa, [0, 1, 2][choose(3)]), layout(dt, sb, [3, 4][choose(2)]));
    let l = lst(vec![a.o.clone(), b.o.clone()]); let r = match f { 0 => call!(np::vstack; l), 1 => call!(np::hstack; l), 2 => call!(np::dstack; l), _ => call!(np::column_stack; l) };
    let lift = |s: &[usize]| -> Vec<usize> { match (f, s.len()) { (0, 0) => vec![1, 1], (0, 1) => vec![1, s[0]], (1, 0) => vec![1], (2, 0) => vec![1, 1, 1], (2, 1) => vec![1, s[0], 1], (2, 2) => vec![s[0], s[1], 1], (3, 0) => vec![1, 1], (3, 1) => vec![s[0], 1], _ => s.to_vec() } };
    let (x, y) = (view_of(&a, &lift(sa)), view_of(&b, &lift(sb))); let ax = match f { 0 => 0, 1 => if x.ndim() == 1 { 0 } else { 1 }, 2 => 2, _ => 1 }; cat_check(r, &[&x, &y], Some(ax), 40);
}
/// split / array_split / hsplit / vsplit / dsplit give consecutive views
fn split() {
    let dt = DT[choose(3)]; let shs: [&[usize]; 4] = [&[4], &[2, 3], &[3, 0], &[2, 1, 4]]; let a = layout(dt, shs[choose(4)], choose(NLAYOUT)); let f = choose(5); let n = choose_in(0, 5); let ax = if f < 2 { idx64(-4, 3) } else { 0 };
    let r = match f { 0 => call!(np::split; a.o, int(n), int(ax)), 1 => call!(np::array_split; a.o, int(n), int(ax)), 2 => call!(np::hsplit; a.o, int(n)), 3 => call!(np::vsplit; a.o, int(n)), _ => call!(np::dsplit; a.o, int(n)) };
    let nd = a.ndim(); let p = match f { 0 | 1 => norm(ax, nd), 2 => Some(if nd == 1 { 0 } else { 1 }), 3 => if nd < 2 { None } else { Some(0) }, _ => if nd < 3 { None } else { Some(2) } };
    let p = match p { Some(p) if n > 0 && (f == 1 || a.shape[p] % n as usize == 0) => p, _ => { must_err(r, 50); return; } }; let n = n as usize;
    let parts = items(&must(r, 51)); check(parts.len() == n, 52); if parts.len() != n { return; } let (q, m) = (a.shape[p] / n, a.shape[p] % n); let mut start = 0;
    for (k, o) in parts.iter().enumerate() { let v = A::of(o); let len = q + (k < m) as usize; let mut sh = a.shape.clone(); sh[p] = len; check(v.has_shape(&sh) && v.dt == a.dt, 53); if !v.has_shape(&sh) { return; } for ix in v.idx() { let mut s = ix.clone(); s[p] += start; check(v.addr(&ix) == a.addr(&s), 54); } start += len; }
}
fn repeat() {
    let dt = DT[choose(4)]; let shs: [&[usize]; 4] = [&[3], &[2, 3], &[], &[2, 0]]; let a = layout(dt, shs[choose(4)], choose(NLAYOUT)); let n = choose_in(-1, 3); let o = a.o.clone(); let m = choose(2);
    if choose(2) == 0 { let r = if m == 0 { call!(np::repeat; a.o, int(n)) } else { meth!(o.__w_repeat; int(n)) }; if n < 0 { must_err(r, 60); return; } let n = n as usize; from(&arr_of(r, 61), &[&a], &[a.size() * n], 62, |ix| (0, unflat(ix[0] / n, &a.shape))) }
    else { let ax = idx64(-3, 2); let r = if m == 0 { call!(np::repeat; a.o, int(n), int(ax)) } else { meth!(o.__w_repeat; int(n), int(ax)) }; let p = match norm(ax, a.ndim()) { Some(p) if n >= 0 => p, _ => { must_err(r, 64); return; } }; let n = n as usize; let mut sh = a.shape.clone(); sh[p] *= n; from(&arr_of(r, 65), &[&a], &sh, 66, |ix| { let mut v = ix.to_vec(); v[p] /= n; (0, v) }) }
}
fn tile() {
    let dt = DT[choose(4)]; let shs: [&[usize]; 4] = [&[3], &[2, 2], &[], &[2, 0]]; let a = layout(dt, shs[choose(4)], choose(NLAYOUT)); let k = choose(4); let reps: Vec<usize> = (0..k).map(|_| choose_in(0, 2) as usize).collect();
    let r = if k == 1 && choose(2) == 0 { call!(np::tile; a.o, int(reps[0] as i64)) } else { call!(np::tile; a.o, itup(&reps)) }; let nd = a.ndim().max(k); let mut sh = vec![1; nd]; for d in 0..a.ndim() { sh[nd - a.ndim() + d] = a.shape[d]; } for d in 0..k { sh[nd - k + d] *= reps[d]; }
    from(&arr_of(r, 70), &[&a], &sh, 71, |ix| (0, (0..a.ndim()).map(|d| ix[nd - a.ndim() + d] % a.shape[d]).collect()))
}
fn append() {
    let dt = DT[choose(4)]; let p: [(&[usize], &[usize]); 4] = [(&[2], &[1]), (&[2, 2], &[1, 2]), (&[2, 2], &[2, 1]), (&[2, 2], &[2])]; let (sa, sb) = p[choose(4)]; let (a, b) = (layout(dt, sa, [0, 1, 4][choose(3)]), layout(dt, sb, [0, 2][choose(2)]));
    if choose(2) == 0 { let (x, y) = (view_of(&a, &[a.size()]), view_of(&b, &[b.size()])); cat_check(call!(np::append; a.o, b.o), &[&x, &y], Some(0), 80) }
    else { let ax = idx64(-3, 2); cat_check(call!(np::append; a.o, b.o, int(ax)), &[&a, &b], norm(ax, a.ndim()), 84) }
}
/// any 64-bit index
fn insert() {
    let dt = DT[choose(3)]; let shs: [&[usize]; 3] = [&[3], &[2, 3], &[0]]; let a = layout(dt, shs[choose(3)], [0, 1, 2, 3][choose(4)]); let i = idx64(-7, 7); let flat = choose(2) == 0; let ax = if flat { 0 } else { idx64(-3, 2) };
    let src = if flat { view_of(&a, &[a.size()]) } else { a.clone() }; let p = match norm(ax, src.ndim()) { Some(p) => p, None => { must_err(call!(np::insert; a.o, int(i), int(5), int(ax)), 90); return; } };
    // value: scalar, 1-D array, or full-rank array
    let kind = choose(3); let others: Vec<usize> = (0..src.ndim()).filter(|d| *d != p).map(|d| src.shape[d]).collect(); let v = match kind { 0 => filled_i(dt, &[], |_| 5), 1 => sym(dt, &[if src.ndim() == 1 { 2 } else { others[0] }]), _ => { let mut s = vec![2]; s.extend_from_slice(&others); sym(dt, &s) } };
    let vo = if kind == 0 { int(5) } else { v.o.clone() }; let r = if flat { call!(np::insert; a.o, int(i), vo) } else { call!(np::insert; a.o, int(i), vo, int(ax)) };
    let n = src.shape[p] as i64; if i < -n || i > n { must_kind(r, Kind::Index, 91); return; } let i = if i < 0 { i + n } else { i } as usize; let cnt = match kind { 0 => 1, 1 => if src.ndim() == 1 { 2 } else { 1 }, _ => 2 };
    let mut sh = src.shape.clone(); sh[p] += cnt; let r = arr_of(r, 92); check(r.has_shape(&sh) && r.dt == dt, 93); if !r.has_shape(&sh) { return; }
    for ix in r.idx() { if ix[p] >= i && ix[p] < i + cnt { let mut t = ix.clone(); let k = t.remove(p) - i; let vi = match kind { 0 => vec![], 1 => if src.ndim() == 1 { vec![k] } else { t }, _ => { t.insert(0, k); t } }; same(&r, &ix, &v, &vi, 94) } else { let mut s = ix.clone(); if s[p] >= i { s[p] -= cnt; } same(&r, &ix, &src, &s, 95) } }
}
fn delete() {
    let dt = DT[choose(4)]; let shs: [&[usize]; 3] = [&[3], &[2, 3], &[0]]; let a = layout(dt, shs[choose(3)], choose(NLAYOUT)); let i = idx64(-7, 7); let flat = choose(2) == 0; let ax = if flat { 0 } else { idx64(-3, 2) };
    let src = if flat { view_of(&a, &[a.size()]) } else { a.clone() }; let r = if flat { call!(np::delete; a.o, int(i)) } else { call!(np::delete; a.o, int(i), int(ax)) };
    let p = match norm(ax, src.ndim()) { Some(p) => p, None => { must_err(r, 100); return; } }; let n = src.shape[p] as i64; if i < -n || i >= n { must_kind(r, Kind::Index, 101); return; } let i = if i < 0 { i + n } else { i } as usize;
    let mut sh = src.shape.clone(); sh[p] -= 1; from(&arr_of(r, 102), &[&src], &sh, 103, |ix| { let mut v = ix.to_vec(); if v[p] >= i { v[p] += 1; } (0, v) })
}
fn pad() {
    let dt = ["int64", "float64", "int8"][choose(3)]; let shs: [&[usize]; 3] = [&[2], &[2, 3], &[2, 0]]; let a = layout(dt, shs[choose(3)], choose(NLAYOUT)); let nd = a.ndim(); let edge = choose(2) == 1; let (b0, a0) = (choose_in(0, 2) as usize, choose_in(0, 2) as usize); let form = choose(4);
    let pr = |x: usize, y: usize| itup(&[x, y]); let (w, spec): (Obj, Vec<(usize, usize)>) = match form { 0 => (int(b0 as i64), vec![(b0, b0); nd]), 1 => (pr(b0, a0), vec![(b0, a0); nd]), 2 => (tup(vec![pr(b0, a0)]), vec![(b0, a0); nd]), _ => { let s: Vec<(usize, usize)> = (0..nd).map(|d| if d == 0 { (b0, a0) } else { (a0, 1) }).collect(); (tup(s.iter().map(|x| pr(x.0, x.1)).collect()), s) } };
    let k: i64 = if dt == "int64" { any() } else { [0, 7, -3][choose(3)] }; let none_fill = choose(2) == 0; let f = if none_fill { 0 } else { k };
    let r = if edge { call!(np::pad; a.o, w, st("edge")) } else if none_fill { call!(np::pad; a.o, w) } else { call!(np::pad; a.o, w; constant_values = int(k)) };
    let sh: Vec<usize> = (0..nd).map(|d| a.shape[d] + spec[d].0 + spec[d].1).collect(); if edge && (0..nd).any(|d| a.shape[d] == 0 && spec[d].0 + spec[d].1 > 0) { must_err(r, 110); return; }
    let r = arr_of(r, 111); check(r.has_shape(&sh) && r.dt == dt, 112); if !r.has_shape(&sh) { return; }
    for ix in r.idx() { let inside = (0..nd).all(|d| ix[d] >= spec[d].0 && ix[d] < spec[d].0 + a.shape[d]); if edge || inside { let s: Vec<usize> = (0..nd).map(|d| ix[d].saturating_sub(spec[d].0).min(a.shape[d] - 1)).collect(); same(&r, &ix, &a, &s, 113) } else { check(r.bits(&ix) == bits_of_i(dt, f), 114) } }
}
/// any 64-bit shift on lengths up to 4
fn roll() {
    let dt = DT[choose(4)]; let shs: [&[usize]; 4] = [&[4], &[2, 3], &[2, 0], &[3, 2]]; let a = layout(dt, shs[choose(4)], choose(NLAYOUT)); let s = [0i64, 1, -1, 2, 5, -7, 6, i64::MAX, i64::MIN][choose(9)]; let md = |i: usize, n: usize| (i as i128 - s as i128).rem_euclid(n as i128) as usize; let sh = a.shape.clone(); let n = a.size();
    if choose(2) == 0 { from(&arr_of(call!(np::roll; a.o, int(s)), 120), &[&a], &sh, 121, |ix| (0, unflat(md(flat(ix, &sh), n), &sh))) }
    else { let ax = idx64(-3, 2); let r = call!(np::roll; a.o, int(s), int(ax)); match norm(ax, a.ndim()) { None => must_err(r, 123), Some(p) => from(&arr_of(r, 124), &[&a], &sh, 125, |ix| { let mut v = ix.to_vec(); v[p] = md(v[p], sh[p]); (0, v) }) } }
}
/// np.resize repeats, ndarray.resize pads with zeros
fn resize() {
    let dt = ["int64", "float64", "int8"][choose(3)]; let shs: [&[usize]; 3] = [&[3], &[2, 3], &[]]; let a = layout(dt, shs[choose(3)], choose(NLAYOUT)); let k = choose_in(1, 2); let d: Vec<i64> = (0..k).map(|_| choose_in(-1, 4)).collect(); let key = tup(d.iter().map(|x| int(*x)).collect()); let n = a.size();
    if choose(2) == 0 { let r = call!(np::resize; a.o, key); if d.iter().any(|x| *x < 0) { must_err(r, 130); return; } let sh: Vec<usize> = d.iter().map(|x| *x as usize).collect(); from(&arr_of(r, 131), &[&a], &sh, 132, |ix| (0, unflat(flat(ix, &sh) % n, &a.shape))) }
    else { let c = A::of(&must(call!(np::copy; a.o), 134)); let o = c.o.clone(); let r = meth!(o.__w_resize; key); if d.iter().any(|x| *x < 0) { must_err(r, 135); return; } must(r, 136); let sh: Vec<usize> = d.iter().map(|x| *x as usize).collect(); let t = A::of(&o); check(t.has_shape(&sh) && t.dt == dt, 137); if !t.has_shape(&sh) { return; } for (q, ix) in t.idx().iter().enumerate() { if q < n { same(&t, ix, &a, &unflat(q, &a.shape), 138) } else { check(t.bits(ix) == 0, 139) } } }
}
fn block() {
    let dt = DT[choose(3)]; let (p, q, m, n) = (choose_in(1, 2) as usize, choose_in(1, 2) as usize, choose_in(1, 2) as usize, choose_in(0, 2) as usize); let l = choose(3);
    let (a, b, c, d) = (layout(dt, &[p, m], l), layout(dt, &[p, n], 0), layout(dt, &[q, m], l), layout(dt, &[q, n], 1));
    if choose(3) == 0 { let r = arr_of(call!(np::block; lst(vec![a.o.clone(), b.o.clone()])), 140); from(&r, &[&a, &b], &[p, m + n], 141, |ix| if ix[1] < m { (0, ix.to_vec()) } else { (1, vec![ix[0], ix[1] - m]) }); return; }
    let r = arr_of(call!(np::block; lst(vec![lst(vec![a.o.clone(), b.o.clone()]), lst(vec![c.o.clone(), d.o.clone()])])), 143);
    from(&r, &[&a, &b, &c, &d], &[p + q, m + n], 144, |ix| { let k = (ix[0] >= p) as usize * 2 + (ix[1] >= m) as usize; (k, vec![if ix[0] < p { ix[0] } else { ix[0] - p }, if ix[1] < m { ix[1] } else { ix[1] - m }]) });
}
fn unstack() {
    let a = layout(DT[choose(4)], [&[2usize, 3][..], &[3, 1, 2], &[2]][choose(3)], choose(NLAYOUT)); let ax = idx64(-4, 3); let r = call!(np::unstack; a.o; axis = int(ax)); let p = match norm(ax, a.ndim()) { Some(p) => p, None => { must_err(r, 150); return; } };
    let v = items(&must(r, 151)); check(v.len() == a.shape[p], 152); for (k, o) in v.iter().enumerate() { let x = A::of(o); let mut sh = a.shape.clone(); sh.remove(p); from(&x, &[&a], &sh, 153, |ix| { let mut s = ix.to_vec(); s.insert(p, k); (0, s) }) }
}
/// trim_zeros: exactly the leading/trailing zeros go
fn trim() {
    let dt = ["int64", "float64", "int8"][choose(3)]; let n = choose_in(0, 4) as usize; let a = layout(dt, &[n], [0, 2, 3][choose(3)]); let t = ["fb", "f", "b"][choose(3)]; let z: Vec<bool> = (0..n).map(|k| if is_float(dt) { a.f(&[k]) == 0.0 } else { a.i(&[k]) == 0 }).collect();
    let mut lo = 0; let mut hi = n; if t != "b" { while lo < n && z[lo] { lo += 1; } } if t != "f" { while hi > lo && z[hi - 1] { hi -= 1; } } from(&arr_of(call!(np::trim_zeros; a.o, st(t)), 160), &[&a], &[hi - lo], 161, |ix| (0, vec![ix[0] + lo]))
}

pub const H: &[(&str, fn())] = &[("concatenate", concatenate), ("concat_mixed", concat_mixed), ("stack", stack), ("stacks", stacks), ("split", split), ("repeat", repeat), ("tile", tile), ("append", append), ("insert", insert), ("delete", delete), ("pad", pad), ("roll", roll), ("resize", resize), ("block", block), ("unstack", unstack), ("trim", trim)];
