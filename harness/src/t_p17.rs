//! P17: products of arrays (matmul, dot, inner, vdot, tensordot, outer, kron, cross, einsum, multi_dot, matrix_power, trace).
use crate::sx::*; use crate::util::*;
const INTS: [&str; 9] = ["int64", "int32", "int16", "int8", "uint64", "uint32", "uint16", "uint8", "bool"];
/// sum of products in a fixed-width integer dtype (wrapping), or any-of-all for bool
fn ring(dt: &str, terms: &[Vec<i64>]) -> u64 {
    macro_rules! w { ($t:ty) => {{ let mut s: $t = 0; for t in terms { let mut p = t[0] as $t; for x in &t[1..] { p = p.wrapping_mul(*x as $t); } s = s.wrapping_add(p); } s as u64 }} }
    if dt == "bool" { let mut s = false; for t in terms { let mut p = true; for x in t { p = p & (*x != 0); } s = s | p; } return s as u64; }
    match isz(dt) { 1 => w!(u8), 2 => w!(u16), 4 => w!(u32), _ => w!(u64) }
}
/// result array `r` has dtype dt, the shape, and at every index the sum of the products `terms(index)`
fn agrees(r: &A, dt: &str, shape: &[usize], terms: impl Fn(&[usize]) -> Vec<Vec<i64>>, id: u32) { check(r.dt == dt, id); check(r.has_shape(shape), id + 1); if !r.has_shape(shape) || r.dt != dt { stop() } for ix in indices(shape) { check(r.bits(&ix) == ring(dt, &terms(&ix)), id + 2); } }
fn scalar_is(o: &Obj, dt: &str, terms: &[Vec<i64>], id: u32) {
    let e = ring(dt, terms); if let Some(a) = A::try_of(o) { check(a.dt == dt && a.size() == 1 && a.bits(&vec![0; a.ndim()]) == e, id); return; }
    match &o.v { Val::Bool(b) => check((*b as u64) == e, id), Val::UInt(u) => check((dt == "uint64") & (*u == e), id), Val::Int(i) => { let m = match isz(dt) { 1 => if is_uns(dt) { e as u8 as i64 } else { e as i8 as i64 }, 2 => if is_uns(dt) { e as u16 as i64 } else { e as i16 as i64 }, 4 => if is_uns(dt) { e as u32 as i64 } else { e as i32 as i64 }, _ => e as i64 }; check(*i == m, id) } _ => check(false, id + 1) }
}
/// a few symbolic elements, the rest small constants
fn few(a: &A, n: usize) { for (k, ix) in a.idx().iter().enumerate() { if k >= n { put_i(a.addr(ix), a.dt, if a.dt == "bool" { (k % 2) as i64 } else { ((k * 5 + 3) % 7) as i64 }); } } }
fn operands(da: &'static str, db: &'static str, sa: &[usize], sb: &[usize], la: usize, lb: usize) -> (A, A) { let (a, b) = (layout(da, sa, la), layout(db, sb, lb)); few(&a, 3); few(&b, 3); (a, b) }
fn mm(via: usize, a: &A, b: &A) -> pyo3::PyResult<Obj> { let o = a.o.clone(); match via { 0 => call!(np::matmul; a.o, b.o), 1 => meth!(o.__w___matmul__; b.o), 2 => call!(np::dot; a.o, b.o), _ => meth!(o.__w_dot; b.o) } }
/// every integer dtype and pairs of different dtypes
fn matmul_dtypes() { let da = INTS[choose(9)]; let db = [da, "int64", "int8", "uint8", "bool", "uint32"][choose(6)]; let e = promo(da, db); if is_float(e) { return; } let (a, b) = operands(da, db, &[2, 2], &[2, 2], 0, 0); agrees(&arr_of(mm(choose(4), &a, &b), 10), e, &[2, 2], |ix| (0..2).map(|k| vec![a.i(&[ix[0], k]), b.i(&[k, ix[1]])]).collect(), 11) }
const LAY: [usize; 4] = [0, 1, 2, 3];
/// 1-D and 2-D operands in every layout, empty contraction included
fn matmul_shapes() {
    let (sa, sb) = [(&[2usize, 3][..], &[3usize, 2][..]), (&[3], &[3]), (&[2, 3], &[3]), (&[3], &[3, 2]), (&[1, 1], &[1, 2]), (&[2, 0], &[0, 3]), (&[0], &[0]), (&[0, 2], &[2, 2]), (&[3, 1], &[1, 3])][choose(9)]; let dt = ["int64", "int16"][choose(2)]; let (a, b) = operands(dt, dt, sa, sb, LAY[choose(4)], LAY[choose(4)]);
    let r = must(mm(choose(4), &a, &b), 20); let n = sa[sa.len() - 1]; let at = |ix: &[usize]| -> Vec<Vec<i64>> { (0..n).map(|k| { let (x, y) = (if sa.len() == 2 { a.i(&[ix[0], k]) } else { a.i(&[k]) }, if sb.len() == 2 { b.i(&[k, ix[ix.len() - 1]]) } else { b.i(&[k]) }); vec![x, y] }).collect() };
    let mut sh = vec![]; if sa.len() == 2 { sh.push(sa[0]); } if sb.len() == 2 { sh.push(sb[1]); } if sh.is_empty() { scalar_is(&r, dt, &at(&[]), 21) } else { agrees(&A::of(&r), dt, &sh, at, 22) }
}
/// stacks of matrices broadcast
fn matmul_batch() {
    let (sa, sb, sr) = [(&[2usize, 1, 2][..], &[2usize, 2, 1][..], &[2usize, 1, 1][..]), (&[2, 2, 2], &[2, 2], &[2, 2, 2]), (&[2, 2], &[2, 2, 1], &[2, 2, 1]), (&[2, 1, 1, 2], &[1, 2, 2, 1], &[2, 2, 1, 1]), (&[1, 2, 2], &[3, 2, 1], &[3, 2, 1]), (&[2, 2, 1, 2], &[2, 2, 1], &[2, 2, 1, 1]), (&[2, 1, 2], &[2, 1, 2, 1], &[2, 2, 1, 1]), (&[2, 1, 1, 2], &[3, 2, 1], &[2, 3, 1, 1]), (&[1, 2, 1, 1, 2], &[2, 1, 2, 1], &[1, 2, 1, 1, 1])][choose(9)];
    let (a, b) = operands("int64", "int64", sa, sb, LAY[choose(4)], LAY[choose(4)]); let via = choose(2); let r = arr_of(mm(via, &a, &b), 30); let lead = |s: &[usize], ix: &[usize]| bix(&ix[..ix.len() - 2], &s[..s.len() - 2]);
    agrees(&r, "int64", sr, |ix| (0..2).map(|k| { let (mut x, mut y) = (lead(sa, ix), lead(sb, ix)); x.push(ix[ix.len() - 2]); x.push(k); y.push(k); y.push(ix[ix.len() - 1]); vec![a.i(&x), b.i(&y)] }).collect(), 31)
}
fn matmul_err() { let (sa, sb) = [(&[2usize, 3][..], &[2usize, 3][..]), (&[2], &[3]), (&[2, 2], &[3]), (&[3], &[2, 2]), (&[2, 2, 2], &[3, 2, 2]), (&[1, 2], &[3, 1])][choose(6)]; let (a, b) = operands("int64", "int64", sa, sb, 0, 0); must_err(mm(choose(2), &a, &b), 40); must_err(call!(np::tensordot; a.o, b.o, int(1)), 41); }
/// inner (last axes), vdot (flattened), outer (flattened), kron
fn inner_family() {
    let (sa, sb) = [(&[2usize][..], &[2usize][..]), (&[2, 2], &[2]), (&[2], &[3, 2]), (&[1, 2], &[3, 2]), (&[2, 1, 2], &[2, 2]), (&[0], &[0])][choose(6)]; let dt = ["int64", "uint8", "bool"][choose(3)]; let (a, b) = operands(dt, dt, sa, sb, LAY[choose(4)], LAY[choose(4)]); let n = sa[sa.len() - 1]; let (ka, kb) = (sa.len() - 1, sb.len() - 1);
    let at = |ix: &[usize]| -> Vec<Vec<i64>> { (0..n).map(|k| { let (mut x, mut y) = (ix[..ka].to_vec(), ix[ka..].to_vec()); x.push(k); y.push(k); vec![a.i(&x), b.i(&y)] }).collect() };
    let r = must(call!(np::inner; a.o, b.o), 50); let mut sh = sa[..ka].to_vec(); sh.extend(&sb[..kb]); if sh.is_empty() { scalar_is(&r, dt, &at(&[]), 51) } else { agrees(&A::of(&r), dt, &sh, at, 52) }
}
fn vdot_trace() {
    let dt = INTS[choose(9)]; if choose(2) == 0 { let sh = [&[2usize, 2][..], &[3], &[1, 2]][choose(3)]; let (a, b) = operands(dt, dt, sh, sh, LAY[choose(4)], LAY[choose(4)]); if dt == "uint64" { few(&a, 1); few(&b, 1); } let (x, y) = (a.flat_i(), b.flat_i()); let r = must(call!(np::vdot; a.o, b.o), 60); scalar_is(&r, dt, &x.iter().zip(&y).map(|(p, q)| vec![*p, *q]).collect::<Vec<_>>(), 61); }
    else { let sh = [[2usize, 2], [2, 3], [3, 2]][choose(3)]; let a = layout(dt, &sh, LAY[choose(4)]); few(&a, 6); let big = if is_uns(dt) { "uint64" } else { "int64" }; let r = must(call!(np::trace; a.o), 62); let t: Vec<Vec<i64>> = (0..2).map(|k| vec![a.i(&[k, k])]).collect(); scalar_is(&r, if dt == "bool" { "int64" } else { big }, &t, 63); }
}
fn outer_kron() {
    let (da, db) = [("int64", "int64"), ("uint8", "int8"), ("int16", "bool"), ("bool", "bool")][choose(4)]; let e = promo(da, db); if choose(2) == 0 { let (sa, sb) = [(&[2usize][..], &[3usize][..]), (&[1, 2], &[2, 1]), (&[0], &[2])][choose(3)]; let (a, b) = operands(da, db, sa, sb, LAY[choose(4)], LAY[choose(4)]); agrees(&arr_of(call!(np::outer; a.o, b.o), 70), e, &[prod(sa), prod(sb)], |ix| vec![vec![a.i(&unflat(ix[0], sa)), b.i(&unflat(ix[1], sb))]], 71) }
    else { let (sa, sb) = [([2usize, 1], [1usize, 2]), ([1, 2], [2, 2]), ([2, 2], [1, 1])][choose(3)]; let (a, b) = operands(da, db, &sa, &sb, LAY[choose(4)], LAY[choose(4)]); agrees(&arr_of(call!(np::kron; a.o, b.o), 74), e, &[sa[0] * sb[0], sa[1] * sb[1]], |ix| vec![vec![a.i(&[ix[0] / sb[0], ix[1] / sb[1]]), b.i(&[ix[0] % sb[0], ix[1] % sb[1]])]], 75) }
}
fn cross() { let dt = ["int64", "int16", "int8"][choose(3)]; let (a, b) = operands(dt, dt, &[3], &[3], LAY[choose(4)], LAY[choose(4)]); let x = |k: usize| a.i(&[k % 3]); let y = |k: usize| b.i(&[k % 3]); agrees(&arr_of(call!(np::cross; a.o, b.o), 80), dt, &[3], |ix| { let k = ix[0]; vec![vec![x(k + 1), y(k + 2)], vec![x(k + 2), y(k + 1), -1]] }, 81) }
/// tensordot over an axis count or explicit (possibly negative, reordered) axis lists
fn tensordot() {
    let (a, b) = operands("int64", "int64", &[2, 1, 2], &[2, 2, 1], LAY[choose(4)], LAY[choose(4)]); let l = |v: &[i64]| ilst(v); let n = int(choose(2) as i64);
    match choose(5) {
        0 => agrees(&arr_of(call!(np::tensordot; a.o, b.o, int(1)), 90), "int64", &[2, 1, 2, 1], |i| (0..2).map(|k| vec![a.i(&[i[0], i[1], k]), b.i(&[k, i[2], i[3]])]).collect(), 91),
        1 => agrees(&arr_of(call!(np::tensordot; a.o, b.o, int(0)), 90), "int64", &[2, 1, 2, 2, 2, 1], |i| vec![vec![a.i(&i[..3]), b.i(&i[3..])]], 91),
        2 => agrees(&arr_of(call!(np::tensordot; a.o, b.o, tup(vec![l(&[0]), l(&[1])])), 90), "int64", &[1, 2, 2, 1], |i| (0..2).map(|k| vec![a.i(&[k, i[0], i[1]]), b.i(&[i[2], k, i[3]])]).collect(), 91),
        3 => agrees(&arr_of(call!(np::tensordot; a.o, b.o, tup(vec![l(&[2, 0]), l(&[0, 1])])), 90), "int64", &[1, 1], |i| (0..4).map(|k| vec![a.i(&[k / 2, i[0], k % 2]), b.i(&[k % 2, k / 2, i[1]])]).collect(), 91),
        _ => agrees(&arr_of(call!(np::tensordot; a.o, b.o, tup(vec![l(&[-1]), l(&[-2])])), 90), "int64", &[2, 1, 2, 1], |i| (0..2).map(|k| vec![a.i(&[i[0], i[1], k]), b.i(&[i[2], k, i[3]])]).collect(), 91),
    }
    let _ = n;
}
/// any axis number outside the operand's dimensions is refused
fn tensordot_err() { let (a, b) = operands("int64", "int64", &[2, 2], &[2, 2], 0, 0); let x = idx64(-2, 1); let ok = x >= -2 && x < 2; let r = call!(np::tensordot; a.o, b.o, tup(vec![lst(vec![int(x)]), ilst(&[0])])); check(r.is_ok() == ok, 95); let y = idx64(-2, 1); let r = call!(np::tensordot; a.o, b.o, tup(vec![ilst(&[0]), lst(vec![int(y)])])); check(r.is_ok() == (y >= -2 && y < 2), 96); must_err(call!(np::tensordot; a.o, b.o, tup(vec![ilst(&[0, 1]), ilst(&[0])])), 97); let n = idx64(-1, 3); let r = call!(np::tensordot; a.o, b.o, int(n)); check(r.is_ok() == (n >= 0 && n <= 2), 98); }
/// einsum as its defining sum: every output index, summing over every other index
const ES: &[(&str, &[&[usize]])] = &[
    ("ii->", &[&[2, 2]]), ("ii->i", &[&[2, 2]]), ("ij->ji", &[&[2, 3]]), ("ij->", &[&[2, 2]]), ("ij->i", &[&[2, 2]]), ("ij->j", &[&[2, 3]]), ("iij->j", &[&[2, 2, 2]]), ("iij->ji", &[&[2, 2, 2]]), ("ijk->ki", &[&[2, 2, 1]]), ("iii->i", &[&[2, 2, 2]]), ("i->", &[&[0]]), ("i->i", &[&[2]]), ("ba->ab", &[&[2, 2]]), ("ij->i", &[&[2, 0]]), ("ijk->kij", &[&[1, 2, 3]]), ("ijk->jki", &[&[2, 1, 3]]), ("ijkl->ljik", &[&[1, 2, 1, 2]]),
    ("i,i->", &[&[2], &[2]]), ("i,i->i", &[&[2], &[2]]), ("i,j->ij", &[&[2], &[2]]), ("i,j->ji", &[&[2], &[3]]), ("ij,jk->ik", &[&[2, 2], &[2, 2]]), ("ij,jk->ki", &[&[2, 2], &[2, 1]]), ("ij,kj->ik", &[&[1, 2], &[2, 2]]), ("ij,ij->", &[&[2, 2], &[2, 2]]), ("ij,ji->", &[&[2, 2], &[2, 2]]), ("ij,j->ij", &[&[2, 2], &[2]]), ("ij,i->", &[&[2, 2], &[2]]), ("i,j->", &[&[2], &[2]]), ("bij,bjk->bik", &[&[2, 1, 2], &[2, 2, 1]]), ("bij,bjk->kib", &[&[2, 1, 2], &[2, 2, 1]]), ("iij,j->i", &[&[2, 2, 2], &[2]]), ("ij,jj->i", &[&[2, 2], &[2, 2]]), ("ijk,k->ij", &[&[1, 2, 2], &[2]]), ("ijk,jil->kl", &[&[2, 1, 2], &[1, 2, 1]]), ("ij,jk->ik", &[&[2, 0], &[0, 1]]), ("ij,kl->lj", &[&[2, 1], &[1, 2]]),
    ("i,ij,j->", &[&[2], &[2, 2], &[2]]), ("i,i,i->i", &[&[2], &[2], &[2]]), ("ij,jk,kl->li", &[&[2, 1], &[1, 2], &[2, 1]]), ("ij,jk,ki->", &[&[1, 2], &[2, 1], &[1, 1]]),
];
fn es_check(sub: &str, implicit: bool, ops: &[A], dt: &str, id: u32) {
    let (ins, out) = sub.split_once("->").unwrap(); let ins: Vec<&[u8]> = ins.split(',').map(|s| s.as_bytes()).collect(); let out = out.as_bytes(); let mut all: Vec<(u8, usize)> = vec![]; for (s, a) in ins.iter().zip(ops) { for (d, c) in s.iter().enumerate() { if !all.iter().any(|x| x.0 == *c) { all.push((*c, a.shape[d])); } } }
    let dim = |c: u8| all.iter().find(|x| x.0 == c).unwrap().1; let rest: Vec<(u8, usize)> = all.iter().filter(|x| !out.contains(&x.0)).cloned().collect(); let rsh: Vec<usize> = rest.iter().map(|x| x.1).collect(); let osh: Vec<usize> = out.iter().map(|c| dim(*c)).collect();
    let mut v = vec![st(if implicit { sub.split_once("->").unwrap().0 } else { sub })]; for a in ops { v.push(a.o.clone()); } let r = must(np::einsum(&args(v)), id);
    let terms = |ix: &[usize]| -> Vec<Vec<i64>> { indices(&rsh).iter().map(|k| { let val = |c: u8| match out.iter().position(|x| *x == c) { Some(p) => ix[p], None => k[rest.iter().position(|x| x.0 == c).unwrap()] }; ins.iter().zip(ops).map(|(s, a)| a.i(&s.iter().map(|c| val(*c)).collect::<Vec<_>>())).collect() }).collect() };
    if osh.is_empty() { scalar_is(&r, dt, &terms(&[]), id + 1) } else { agrees(&A::of(&r), dt, &osh, terms, id + 3) }
}
fn es(lo: usize, hi: usize) { real_fmt(true); let (sub, shapes) = ES[lo + choose((hi - lo) as u64)]; let dt = ["int64", "int8", "bool"][choose(3)]; let lay = LAY[choose(4)]; let ops: Vec<A> = shapes.iter().map(|s| { let a = layout(dt, s, lay); few(&a, 3); a }).collect(); es_check(sub, false, &ops, dt, 100) }
fn einsum1() { es(0, 17) }
fn einsum2() { es(17, 37) }
fn einsum3() { es(37, 41) }
/// implicit output: the indices that occur once, in alphabetical order; mixed dtypes promote before multiplying
fn einsum_implicit() { real_fmt(true); let sub = ["ij,jk->ik", "i,i->", "ii->", "ba->ab", "kj,ji->ik", "i,j->ij"][choose(6)]; let shapes: Vec<Vec<usize>> = sub.split_once("->").unwrap().0.split(',').map(|s| vec![2; s.len()]).collect(); let (da, db) = [("int64", "int64"), ("int8", "int64"), ("uint8", "int8"), ("bool", "int16")][choose(4)]; let ops: Vec<A> = shapes.iter().enumerate().map(|(k, s)| { let a = layout(if k == 0 { da } else { db }, s, 0); few(&a, 3); a }).collect(); let e = if ops.len() == 1 { da } else { promo(da, db) }; es_check(sub, true, &ops, e, 120) }
fn einsum_err() { let a = sym("int64", &[2, 2]); let b = sym("int64", &[3, 2]); let s = ["ij,jk->ik", "ij,ij->", "ij->i", "ij,k->", "ij,ji->ii", "ij,ji->iz", "i,ji->j", "ij,jk->i->k"][choose(8)]; must_kind(call!(np::einsum; st(s), a.o, b.o), Kind::Value, 140); must_err(call!(np::einsum; st(["ii", "ijk", "i", "iij->j"][choose(4)]), b.o), 141); }
fn power_chain() {
    let dt = ["int64", "uint8", "int32"][choose(3)]; if choose(2) == 0 { let n = choose(4); let a = layout(dt, &[2, 2], LAY[choose(4)]); few(&a, 2); let r = arr_of(call!(np::linalg::matrix_power; a.o, int(n as i64)), 150); let mut m = vec![1, 0, 0, 1i64]; for k in 0..n { let v = a.flat_i(); if k == 0 { m = v; continue; } let mut o = vec![0i64; 4]; for i in 0..2 { for j in 0..2 { o[i * 2 + j] = m[i * 2].wrapping_mul(v[j]).wrapping_add(m[i * 2 + 1].wrapping_mul(v[2 + j])); } } m = o; } check(r.dt == dt && r.has_shape(&[2, 2]), 151); if r.size() != 4 || r.dt != dt { stop() } for (k, ix) in r.idx().iter().enumerate() { check(r.bits(ix) == ring(dt, &[vec![m[k]]]), 152); } }
    else { let a = layout(dt, &[1, 2], LAY[choose(4)]); let b = layout(dt, &[2, 2], 0); let c = layout(dt, &[2, 1], LAY[choose(4)]); few(&b, 1); few(&c, 1); let r = arr_of(call!(np::linalg::multi_dot; lst(vec![a.o.clone(), b.o.clone(), c.o.clone()])), 155); let mut t = vec![]; for i in 0..2 { for j in 0..2 { t.push(vec![a.i(&[0, i]), b.i(&[i, j]), c.i(&[j, 0])]); } } agrees(&r, dt, &[1, 1], |_| t.clone(), 156); }
    let r3 = sym("int64", &[2, 3]); must_err(call!(np::linalg::matrix_power; r3.o, int(2)), 159);
}
/// float products that need no accumulation
fn float_outer() { let dt = ["float64", "float32"][choose(2)]; let (a, b) = (layout(dt, &[2], LAY[choose(4)]), layout(dt, &[2], LAY[choose(4)])); let r = arr_of(call!(np::outer; a.o, b.o), 160); check(r.dt == dt && r.has_shape(&[2, 2]), 161); if r.size() != 4 { stop() } let m = arr_of(call!(np::einsum; st("i,j->ij"), a.o, b.o), 162); for ix in r.idx() { let e = op_bits(Op::Mul, dt, (a.addr(&ix[..1]), dt), (b.addr(&ix[1..]), dt)); check_bits(&r, &ix, e, 163); check_bits(&m, &ix, e, 164); } }
pub const H: &[(&str, fn())] = &[("matmul_dtypes", matmul_dtypes), ("matmul_shapes", matmul_shapes), ("matmul_batch", matmul_batch), ("matmul_err", matmul_err), ("inner_family", inner_family), ("vdot_trace", vdot_trace), ("outer_kron", outer_kron), ("cross", cross), ("tensordot", tensordot), ("tensordot_err", tensordot_err), ("einsum1", einsum1), ("einsum2", einsum2), ("einsum3", einsum3), ("einsum_implicit", einsum_implicit), ("einsum_err", einsum_err), ("power_chain", power_chain), ("float_outer", float_outer)];
