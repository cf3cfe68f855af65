//! P20: dates and time spans: parsing, unit conversion, arithmetic, comparison, NaT, business days.
use crate::sx::*;
use crate::util::*;
use crate::{call, meth};
const NAT: i64 = i64::MIN;
/// any value of [lo, hi], of known width
fn win(lo: i64, hi: i64) -> i64 { let n = (hi - lo) as u64; let x: u16 = any(); let bits = 64 - n.leading_zeros(); let x = x & ((1u32 << bits) - 1) as u16; assume(x as u64 <= n); lo + x as i64 }
fn m8(u: &str) -> String { format_s("datetime64[", u) }
fn td(u: &str) -> String { format_s("timedelta64[", u) }
fn format_s(a: &str, u: &str) -> String { let mut s = String::from(a); s.push_str(u); s.push(']'); s }
fn dname(o: &Obj) -> String { match Nd::__w_dtype(&bound(o), &args(vec![])) { Ok(d) => match &d.v { Val::Str(s) => s.clone(), _ => String::new() }, Err(_) => String::new() } }
fn v(a: &A, i: &[usize]) -> i64 { a.bits(i) as i64 }
fn want(a: &A, d: &str, sh: &[usize], id: u32) { check(dname(&a.o) == d, id); check(a.has_shape(sh), id + 1); if !a.has_shape(sh) { stop() } }
fn put(a: &A, k: usize, x: i64) { unsafe { *(a.addr(&[k]) as *mut i64) = x } }
fn leap(y: i64) -> bool { y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0) }
fn mlen(y: i64, m: i64) -> i64 { match m { 2 => 28 + leap(y) as i64, 4 | 6 | 9 | 11 => 30, _ => 31 } }
/// days from 1970-01-01 to January 1st of year y
fn jan1(y: i64) -> i64 { let p = y - 1; let c = |y: i64| 365 * y + y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400); c(p) - c(1969) }
fn mstart(y: i64, m: i64) -> i64 { let mut d = jan1(y); for k in 1..m { d += mlen(y, k) } d }
const YEARS: [i64; 22] = [1970, 1969, 1900, 2000, 2024, 2023, 2100, 1600, 1, 0, -1, -4, -100, -400, -401, 1968, 1972, 9999, 400, 123456, -99999, 2400];
fn astype(a: &Obj, d: &str, id: u32) -> A { let r = arr_of(meth!(a.__w_astype; st(d)), id); check(dname(&r.o) == d, id + 1); r }

/// every day of a year lies in the right month and year
fn calendar(months: bool) {
    let y = YEARS[choose(14)]; let n = 365 + leap(y) as i64; let doy = choose(6) as i64 * 61 + win(0, 60); assume(doy < n);
    let a = A::of(&zeros("datetime64[D]", &[1])); put(&a, 0, jan1(y) + doy);
    if !months { let r = astype(&a.o, "datetime64[Y]", 1); check(v(&r, &[0]) == y - 1970, 3); }
    else { let r = astype(&a.o, "datetime64[M]", 4); let mut m = 0i64; let mut s = 0; for k in 1..=12 { m += (doy >= s) as i64; s += mlen(y, k) } check(v(&r, &[0]) == (y - 1970) * 12 + m - 1, 6); }
}
/// a year or month starts at its first day, hour, second ...
fn first() {
    let y = YEARS[choose(YEARS.len())]; let (u, k) = [("D", 1i64), ("h", 24), ("s", 86400), ("ms", 86400000)][choose(4)]; let months = choose(2) == 0; let m = if months { 1 + choose(12) as i64 } else { 1 };
    let a = A::of(&zeros(if months { "datetime64[M]" } else { "datetime64[Y]" }, &[1])); put(&a, 0, if months { (y - 1970) * 12 + m - 1 } else { y - 1970 });
    let r = astype(&a.o, &m8(u), 10); check(v(&r, &[0]) == mstart(y, m) * k, 12);
}
const FIX: [(&str, i64); 8] = [("W", 604_800_000_000_000), ("D", 86_400_000_000_000), ("h", 3_600_000_000_000), ("m", 60_000_000_000), ("s", 1_000_000_000), ("ms", 1_000_000), ("us", 1_000), ("ns", 1)];
fn kind(u: &str, span: bool) -> String { if span { td(u) } else { m8(u) } }
/// to a finer unit: multiplied exactly, NaT kept
fn finer() {
    let i = choose(7); let j = i + 1 + choose(7 - i as u64); let span = choose(2) == 0; let f = FIX[i].1 / FIX[j].1; let a = layout(&kind(FIX[i].0, span), &[2], choose(3)); let r = astype(&a.o, &kind(FIX[j].0, span), 20);
    let lim = i64::MAX / f; for i in r.idx() { let x = v(&a, &i); let y = v(&r, &i); check(((x != NAT) | (y == NAT)) & ((x > lim) | (x < -lim) | (y == x.wrapping_mul(f))), 22); }
}
/// to a coarser unit: the unit that contains the moment (floor), NaT kept
fn coarser() {
    let j = choose(7); let i = j + 1 + choose(7 - j as u64); let span = choose(2) == 0; let f = FIX[j].1 / FIX[i].1; let base = [0, 1000 * f, -1000 * f][choose(3)]; let d = win(-20000, 20000);
    let a = A::of(&zeros(&kind(FIX[i].0, span), &[2])); put(&a, 0, base + d); put(&a, 1, [NAT, NAT + 1, i64::MAX][choose(3)]); let e = v(&a, &[1]); let r = astype(&a.o, &kind(FIX[j].0, span), 25);
    let q = v(&r, &[0]); check((q.wrapping_mul(f) <= base + d) & (base + d - q.wrapping_mul(f) < f), 27); check(v(&r, &[1]) == if e == NAT { NAT } else { e.div_euclid(f) }, 28);
}
/// years and months of a span
fn ym_span() { let (a, b) = [("Y", "M"), ("M", "Y")][choose(2)]; let span = choose(2) == 0; let z = A::of(&zeros(&kind(a, span), &[2])); let d = win(-5000, 5000); put(&z, 0, d); put(&z, 1, NAT); let r = astype(&z.o, &kind(b, span), 30); let q = v(&r, &[0]); check(if b == "M" { q == 12 * d } else { (12 * q <= d) & (d - 12 * q < 12) }, 32); check(v(&r, &[1]) == NAT, 33); }

fn dig(n: i64) -> u8 { b'0' + n as u8 }
fn two() -> (i64, [u8; 2]) { let (a, b): (u8, u8) = (any(), any()); assume((a < 10) & (b < 10)); (a as i64 * 10 + b as i64, [b'0' + a, b'0' + b]) }
fn st8(v: &[u8]) -> Obj { mk(Val::Str(unsafe { String::from_utf8_unchecked(v.to_vec()) })) }
fn year4(y: i64) -> Vec<u8> { vec![dig(y / 1000), dig(y / 100 % 10), dig(y / 10 % 10), dig(y % 10)] }
fn dates(l: Obj, u: &str) -> PyResult<Obj> { let t = st(&m8(u)); call!(np::array; l; dtype = t) }
/// YYYY-MM-DD with any digits: the day it names, or ValueError
fn parse_date() {
    let y = [1969i64, 2024, 1900, 2000, 1][choose(5)]; let (m, mt) = two(); let (d, dt) = two(); let mut s = year4(y); s.push(b'-'); s.extend(mt); s.push(b'-'); s.extend(dt); let u = ["D", "W", "M"][choose(3)];
    let r = dates(lst(vec![st8(&s)]), u); let mut ok = false; let mut day = jan1(y); let mut len = 0; for k in 1..=12 { if m == k { ok = true; len = mlen(y, k); } else if m > k { day += mlen(y, k) } } ok = ok && d >= 1 && d <= len; day += d - 1;
    if !ok { return must_kind(r, Kind::Value, 40); } let r = arr_of(r, 41); want(&r, &m8(u), &[1], 42); let g = v(&r, &[0]); check(match u { "D" => g == day, "W" => (g * 7 <= day) & (day - g * 7 < 7), "M" => g == (y - 1970) * 12 + m - 1, _ => g == day * 86400 }, 44);
}
/// date with a time of day, any digits
fn parse_time() {
    let (y, mo, d) = [(1969i64, 12i64, 31i64), (2024, 2, 29)][choose(2)]; let mut s = year4(y); s.extend([b'-', dig(mo / 10), dig(mo % 10), b'-', dig(d / 10), dig(d % 10), [b'T', b' '][(y > 2000) as usize]]);
    let parts = 1 + choose(4); let any_part = choose(parts as u64); let two_at = |k: usize| if k as u64 == any_part as u64 { two() } else { ([23i64, 7, 59][k], [[b'2', b'3'], [b'0', b'7'], [b'5', b'9']][k]) };
    let (h, ht) = two_at(0); s.extend(ht); let (mut mi, mut se, mut ns) = (0, 0, 0); if parts > 1 { let (x, t) = two_at(1); mi = x; s.push(b':'); s.extend(t); } if parts > 2 { let (x, t) = two_at(2); se = x; s.push(b':'); s.extend(t); }
    if parts > 3 { s.push(b'.'); let n = [1usize, 3, 9][choose(3)]; let w = n - 1; let mut p = 100_000_000i64; for k in 0..n { let c: u8 = if any_part as usize == 3 && (k as u64 == w as u64 || k == 0) { let c: u8 = any(); assume(c < 10); c } else { [0u8, 9, 3][k % 3] }; s.push(b'0' + c); ns += c as i64 * p; p /= 10; } }
    let (u, k) = [("s", 1i64), ("ms", 1000), ("ns", 1_000_000_000), ("h", 0)][choose(4)]; let r = dates(lst(vec![st8(&s)]), u); if h > 23 || mi > 59 || se > 59 { return must_kind(r, Kind::Value, 50); }
    let r = arr_of(r, 51); want(&r, &m8(u), &[1], 52); let g = v(&r, &[0]); let day = mstart(y, mo) + d - 1; match u { "D" => check(g == day, 54), "h" => check(g == day * 24 + h, 54), "m" => check(g == day * 1440 + h * 60 + mi, 54), _ => { let f = 1_000_000_000 / k; let sec = day * 86400 + h * 3600 + mi * 60 + se; let part = g - sec * k; check((part >= 0) & (part * f <= ns) & (ns - part * f < f), 55) } }
}
/// strings that are not dates are refused, NaT and '' are NaT
fn malformed() {
    const BAD: [&str; 22] = ["x", "2023-", "2023-6-1", "2023-06-", "2023/06/15", "2023-06-15T", "2023-06-15T1", "2023-06-15T12:", "2023-06-15T12:3", "2023-06-15T12:30:4", "2023-06-15T12:30:45.x", "2023T12", "2023-06T12", "2023-06-15-01", "2023-06-15T12:30:45:00", " ", "-", "2023-+6-15", "2023-06-15x", "na", "NaTT", "99999999999999999999"];
    let k = choose(BAD.len() + 3); let u = ["D", "s", "Y", "ns"][choose(4)]; if k < BAD.len() { let b = st(BAD[k]); match choose(3) { 0 => must_kind(dates(lst(vec![st("2020"), b]), u), Kind::Value, 60), 1 => must_kind(dates(lst(vec![lst(vec![st("2020")]), lst(vec![b])]), u), Kind::Value, 61), _ => must_kind(call!(np::is_busday; b), Kind::Value, 62) } }
    else { let r = arr_of(dates(lst(vec![st("1970"), st(["", "NaT", "nat"][k - BAD.len()])]), u), 63); want(&r, &m8(u), &[2], 64); check(v(&r, &[0]) == 0, 66); check(v(&r, &[1]) == NAT, 67); }
}
type F2 = fn(&Args) -> PyResult<Obj>;
fn op(k: usize, a: &Obj, b: &Obj) -> PyResult<Obj> { match k { 0 => call!(np::add; a, b), 1 => call!(np::subtract; a, b), 2 => meth!(a.__w___add__; b), _ => meth!(a.__w___sub__; b) } }
/// date and span arithmetic in one unit: exact modulo 2**64, NaT propagates
fn arith() {
    let u = ["D", "s", "M", "ns"][choose(4)]; let (ka, kb) = [(0, 1), (0, 0), (1, 1), (1, 0), (0, 2), (1, 2)][choose(6)]; let nm = |k: usize| match k { 0 => m8(u), 1 => td(u), _ => "int64".to_string() }; let (la, lb) = [(0, 0), (2, 0), (0, 3)][choose(3)]; let a = layout(&nm(ka), &[2], la); let b = layout(&nm(kb), [&[2usize] as &[usize], &[1]][choose(2)], lb); let k = choose(4); let sub = k % 2 == 1; let r = op(k, &a.o, &b.o);
    let d = match (sub, ka, kb) { (false, 0, 0) | (true, 1, 0) => return must_kind(r, Kind::Type, 70), (true, 0, 0) => td(u), (false, 1, 0) | (_, 0, _) => m8(u), _ => td(u) }; let r = arr_of(r, 71); want(&r, &d, &[2], 72);
    for i in 0..2 { let x = v(&a, &[i]); let y = v(&b, &[if b.size() == 1 { 0 } else { i }]); let g = v(&r, &[i]); let e = if sub { x.wrapping_sub(y) } else { x.wrapping_add(y) }; check(g == if x == NAT || y == NAT { NAT } else { e }, 74); }
}
/// operands of different units meet in the finer one
fn mixed() {
    let (i, j) = [(1, 2), (2, 1), (4, 5), (0, 1), (7, 4)][choose(5)]; let (ua, ub) = (FIX[i], FIX[j]); let (sa, sb) = [(false, true), (false, false), (true, true)][choose(3)]; let sub = choose(2) == 1; if !sa && !sb && !sub { return; } let a = A::of(&zeros(&kind(ua.0, sa), &[1])); let b = A::of(&zeros(&kind(ub.0, sb), &[1])); let n = choose(4); let x = if n == 1 { NAT } else { win(-30000, 30000) }; let y = if n == 2 { NAT } else if n == 3 { 1 << 30 } else { win(-30000, 30000) }; put(&a, 0, x); put(&b, 0, y);
    let (fa, fb, u) = if ua.1 > ub.1 { (ua.1 / ub.1, 1, ub.0) } else { (1, ub.1 / ua.1, ua.0) }; let r = arr_of(op(sub as usize, &a.o, &b.o), 80); want(&r, &kind(u, sa || (sub && !sb && !sa)), &[1], 81); let (p, q) = (x.wrapping_mul(fa), y.wrapping_mul(fb)); check(v(&r, &[0]) == if x == NAT || y == NAT { NAT } else if sub { p - q } else { p + q }, 83);
    let r = arr_of(if sa == sb { call!(np::less; a.o, b.o) } else { return }, 84); check((r.bits(&[0]) != 0) == (x != NAT && y != NAT && p < q), 85);
}
/// spans of years or months cannot meet days; dates can
fn ym_mixed() {
    let (u, w) = [("Y", "D"), ("M", "s"), ("Y", "W")][choose(3)]; let (a, b) = (zeros(&td(u), &[1]), zeros(&td(w), &[1])); let (a, b) = if choose(2) == 0 { (a, b) } else { (b, a) }; must_kind(op(choose(4), &a, &b), Kind::Type, 88);
    let y = YEARS[choose(8)]; let d = A::of(&zeros("datetime64[Y]", &[1])); put(&d, 0, y - 1970); let s = sym("timedelta64[D]", &[1]); let x = v(&s, &[0]); assume(x > -100000 && x < 100000); let r = arr_of(op(0, &d.o, &s.o), 89); want(&r, "datetime64[D]", &[1], 90); check(v(&r, &[0]) == jan1(y) + x, 92);
}
/// scaling of spans
fn scale() {
    let a = layout("timedelta64[s]", &[2], [0, 2][choose(2)]); match choose(4) {
        0 => { let n: i64 = any(); let r = arr_of(if choose(2) == 0 { let o = a.o.clone(); let n = int(n); meth!(o.__w___mul__; n) } else { let o = a.o.clone(); let n = int(n); meth!(o.__w___rmul__; n) }, 100); want(&r, "timedelta64[s]", &[2], 101); for i in r.idx() { let x = v(&a, &i); check(v(&r, &i) == if x == NAT || n == NAT { NAT } else { x.wrapping_mul(n) }, 103); } }
        1 => { let b = filled_i("timedelta64[s]", &[1], |_| 0); let k = [2i64, -1, 4, 0, -8][choose(5)]; put(&b, 0, k); let r = arr_of(call!(np::floor_divide; a.o, b.o), 104); check(dname(&r.o) == "int64", 105); for i in r.idx() { let x = v(&a, &i); let q = v(&r, &i); check(q == if x == NAT || k == 0 { 0 } else if k == -1 { x.wrapping_neg() } else { let f = x.wrapping_div(k); f - ((x.wrapping_rem(k) != 0) & ((x < 0) != (k < 0))) as i64 }, 106); } }
        2 => { let k = [2i64, -1, 4, 0, -8][choose(5)]; let r = arr_of(call!(np::floor_divide; a.o, int(k)), 107); want(&r, "timedelta64[s]", &[2], 108); for i in r.idx() { let x = v(&a, &i); check(v(&r, &i) == if x == NAT || k == 0 { NAT } else { x.wrapping_div(k) }, 110); } }
        _ => { let xs = [NAT, 0, 7, -7, 1 << 53]; let (p, q) = (xs[choose(5)], xs[choose(5)]); put(&a, 0, p); put(&a, 1, 0); let b = A::of(&zeros("timedelta64[s]", &[2])); put(&b, 0, q); put(&b, 1, 1); let r = arr_of(call!(np::divide; a.o, b.o), 111); check(dname(&r.o) == "float64", 112); let g = r.f(&[0]); check(if p == NAT || q == NAT { g != g } else { same_f(g, p as f64 / q as f64) }, 113); }
    }
    must_kind(call!(np::multiply; a.o, a.o), Kind::Type, 114);
}
/// comparisons: NaT is unequal to everything and unordered
fn compare() {
    let span = choose(2) == 0; let a = layout(&kind("ms", span), &[2], [0, 2, 3][choose(3)]); let b = layout(&kind("ms", span), [&[2usize] as &[usize], &[1]][choose(2)], 0); let k = choose(6); let f: F2 = [np::equal as F2, np::not_equal, np::less, np::less_equal, np::greater, np::greater_equal][k]; let r = arr_of(f(&args(vec![a.o.clone(), b.o.clone()])), 120);
    check(r.dt == "bool", 121); for i in 0..2 { let x = v(&a, &[i]); let y = v(&b, &[if b.size() == 1 { 0 } else { i }]); let n = (x == NAT) | (y == NAT); check((r.bits(&[i]) != 0) == match k { 0 => !n & (x == y), 1 => n | (x != y), 2 => !n & (x < y), 3 => !n & (x <= y), 4 => !n & (x > y), _ => !n & (x >= y) }, 122); }
}
/// isnat, maximum/minimum, fmax/fmin, argmax/argmin, sort
fn nat() {
    let d = ["datetime64[D]", "timedelta64[s]"][choose(2)]; let a = layout(d, &[3], choose(4)); let o = a.o.clone(); let x: Vec<i64> = (0..3).map(|i| v(&a, &[i])).collect();
    match choose(5) {
        0 => { let r = arr_of(call!(np::isnat; o), 130); check(r.dt == "bool" && r.has_shape(&[3]), 131); for i in 0..3 { check((r.bits(&[i]) != 0) == (x[i] == NAT), 132); } }
        1 => { let b = sym(d, &[3]); let k = choose(4); let f: F2 = [np::maximum as F2, np::minimum, np::fmax, np::fmin][k]; let r = arr_of(f(&args(vec![o, b.o.clone()])), 133); want(&r, d, &[3], 134); for i in 0..3 { let y = v(&b, &[i]); let m = if k % 2 == 0 { x[i].max(y) } else { x[i].min(y) }; let e = if k < 2 { if x[i] == NAT || y == NAT { NAT } else { m } } else if x[i] == NAT { y } else if y == NAT { x[i] } else { m }; check(v(&r, &[i]) == e, 136); } }
        2 => { let mx = choose(2) == 0; let r = must(if mx { call!(np::argmax; o) } else { call!(np::argmin; o) }, 137); let key = |t: i64| if mx { (t as u64).wrapping_sub(1) ^ (1 << 63) } else { !(t as u64 ^ (1 << 63)) }; let mut b = 0; for i in 1..3 { if key(x[i]) > key(x[b]) { b = i } } check(obj_i(&r) == Some(b as i64), 138); }
        3 => { let r = arr_of(call!(np::sort; o), 139); want(&r, d, &[3], 140); let g: Vec<u64> = (0..3).map(|i| (v(&r, &[i]) as u64).wrapping_sub(1) ^ (1 << 63)).collect(); check((g[0] <= g[1]) & (g[1] <= g[2]), 142); let s = |v: &[i64]| v[0].wrapping_add(v[1]).wrapping_add(v[2]); check(s(&x) == s(&[v(&r, &[0]), v(&r, &[1]), v(&r, &[2])]), 143); }
        _ => { let mx = choose(2) == 0; let r = arr_of(if mx { call!(np::max; o; axis = int(0)) } else { call!(np::min; o; axis = int(0)) }, 144); check(dname(&r.o) == d, 145); let n = (x[0] == NAT) | (x[1] == NAT) | (x[2] == NAT); let e = if mx { x[0].max(x[1]).max(x[2]) } else { x[0].min(x[1]).min(x[2]) }; check(bits_at(r.ptr, 8) as i64 == if n { NAT } else { e }, 146); }
    }
}
fn cal(k: usize) -> (Obj, [bool; 7], Vec<i64>) { let (m, w): (&str, [bool; 7]) = [("1111100", [true, true, true, true, true, false, false]), ("Mon Wed Sun", [true, false, true, false, false, false, true]), ("0000010", [false, false, false, false, false, true, false])][k]; let h = lst(vec![st("1970-01-02"), st("2024-02-29")]); (must(call!(np::busdaycalendar; st(m), h), 150), w, vec![1, mstart(2024, 2) + 28]) }
fn busy(d: i64, w: &[bool; 7], h: &[i64]) -> bool { let k = (d + 3).rem_euclid(7); let mut r = false; for (i, x) in w.iter().enumerate() { r |= *x & (k == i as i64) } for x in h { r &= d != *x } r }
/// is_busday of any day in a window
fn is_busday() {
    let (c, w, h) = cal(choose(3)); let base = [0i64, 19000, -720000, 1 << 40, NAT + 400, i64::MAX - 400][choose(6)]; let d = win(-300, 300); let a = A::of(&zeros("datetime64[D]", &[2])); put(&a, 0, base + d); put(&a, 1, NAT); let r = arr_of(call!(np::is_busday; a.o, c), 151); check(r.dt == "bool", 152); check((r.bits(&[0]) != 0) == busy(base + d, &w, &h), 153); check(r.bits(&[1]) == 0, 154);
    let hr = A::of(&zeros("datetime64[h]", &[1])); put(&hr, 0, (d + 20) * 24 + 23); let r = arr_of(call!(np::is_busday; hr.o, c), 155); check((r.bits(&[0]) != 0) == busy(d + 20, &w, &h), 156);
}
fn day1970(d: i64) -> Obj { let (mut m, mut k) = (1, d); while k >= mlen(1970, m) { k -= mlen(1970, m); m += 1 } st8(&[b'1', b'9', b'7', b'0', b'-', dig(m / 10), dig(m % 10), b'-', dig((k + 1) / 10), dig((k + 1) % 10)]) }
/// busday_count between any two days of three weeks, in either order, with broadcasting
fn count() {
    let (c, w, h) = cal(choose(3)); let cnt = |a: i64, b: i64| -> i64 { let mut n = 0; if a <= b { for d in a..b { n += busy(d, &w, &h) as i64 } } else { for d in b + 1..a + 1 { n -= busy(d, &w, &h) as i64 } } n }; let (a, b) = (choose(21) as i64, choose(21) as i64);
    if choose(2) == 0 { let r = must(call!(np::busday_count; day1970(a), day1970(b), c), 160); check(obj_i(&r) == Some(cnt(a, b)), 161); }
    else { let (x, y) = if choose(2) == 0 { (day1970(a), lst(vec![day1970(b), day1970(7)])) } else { (lst(vec![day1970(a), day1970(9)]), day1970(b)) }; let one = matches!(&x.v, Val::Str(_)); let r = arr_of(call!(np::busday_count; x, y, c), 162); check(r.has_shape(&[2]), 163); if !r.has_shape(&[2]) { stop() } check(r.i(&[0]) == cnt(a, b), 164); check(r.i(&[1]) == if one { cnt(a, 7) } else { cnt(9, b) }, 165); }
}
/// busday_offset from a business day; refused calendars and shapes
fn offset() {
    let (c, w, h) = cal(choose(3)); let a = choose(21) as i64; let n = choose(9) as i64 - 4; let mut d = a; let mut left = n.abs(); while left > 0 { d += n.signum(); if busy(d, &w, &h) { left -= 1 } } let r = if choose(2) == 0 { arr_of(call!(np::busday_offset; day1970(a), int(n), c), 170) } else { arr_of(call!(np::busday_offset; lst(vec![day1970(a)]), lst(vec![int(n), int(0)]), c), 171) }; check(dname(&r.o) == "datetime64[D]", 172); check(bits_at(r.ptr, 8) as i64 == d, 173);
    must_kind(call!(np::busdaycalendar; st(["0000000", "111110", "1111120", ""][choose(4)])), Kind::Value, 174); let two = lst(vec![day1970(1), day1970(2)]); let three = lst(vec![day1970(1), day1970(2), day1970(3)]); must_kind(call!(np::busday_count; two, three), Kind::Value, 175); must_kind(call!(np::busday_count; st("NaT"), day1970(1)), Kind::Value, 176);
}
/// datetime_as_string writes the moment; reading it back gives the value
fn text() {
    real_fmt(true); let (u, k) = [("D", 1i64), ("s", 86400), ("ns", 86_400_000_000_000), ("h", 24), ("M", 0)][choose(5)]; let y = [1970i64, 1969, 2024, 1900, 9999][choose(5)]; if u == "ns" && y == 9999 { return; } let doy = [0i64, 58, 59, 364, 200][choose(5)]; let part = [0, 1, k / 2 + 1, k - 1][choose(4)]; let day = jan1(y) + doy; let x = if u == "M" { (y - 1970) * 12 + doy % 12 } else { day * k + if k > 1 { part } else { 0 } };
    let a = A::of(&zeros(&m8(u), &[2])); put(&a, 0, x); put(&a, 1, NAT); let r = must(call!(np::datetime_as_string; a.o), 180); let l = items(&r); check(l.len() == 2, 181); if l.len() != 2 { stop() } check(matches!(&l[1].v, Val::Str(s) if s == "NaT"), 182);
    let b = arr_of(dates(lst(l), u), 183); check(v(&b, &[0]) == x, 184); check(v(&b, &[1]) == NAT, 185); if u == "D" { let s = items(&r); let mut t = doy; let mut m = 1; while t >= mlen(y, m) { t -= mlen(y, m); m += 1 } let mut e = year4(y); e.extend([b'-', dig(m / 10), dig(m % 10), b'-', dig((t + 1) / 10), dig((t + 1) % 10)]); check(matches!(&s[0].v, Val::Str(g) if g.as_bytes() == e.as_slice()), 186); }
}
pub const H: &[(&str, fn())] = &[("p20.calendar_y", || calendar(false)), ("p20.calendar_m", || calendar(true)), ("p20.first", first), ("p20.finer", finer), ("p20.coarser", coarser), ("p20.ym_span", ym_span), ("p20.parse_date", parse_date), ("p20.parse_time", parse_time), ("p20.malformed", malformed), ("p20.arith", arith), ("p20.mixed", mixed), ("p20.ym_mixed", ym_mixed), ("p20.scale", scale), ("p20.compare", compare), ("p20.nat", nat), ("p20.is_busday", is_busday), ("p20.count", count), ("p20.offset", offset), ("p20.text", text)];
