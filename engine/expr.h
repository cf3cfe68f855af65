// Hash-consed bit-vector / IEEE-754 expression DAG with local simplification,
// concrete evaluation and lazy translation to Z3.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <set>
using std::signbit;
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <algorithm>
#include <memory>
#include <functional>
#include <tuple>
#include <stdexcept>

typedef unsigned __int128 u128;
typedef __int128 s128;

struct Inconclusive : std::runtime_error { using std::runtime_error::runtime_error; };

enum EOp : uint8_t {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT,
  // floating point: operands/results are the IEEE bit patterns
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FSQRT, E_FFMA, E_FEQ, E_FLT, E_FLE, E_FISNAN, E_FRND /*aux=rm*/,
  E_SITOFP, E_UITOFP, E_FPTOSI, E_FPTOUI, E_FPTRUNC, E_FPEXT,
  E_UF /*aux = function id*/
};

struct Expr {
  EOp op; uint16_t w; uint32_t id; uint32_t aux;
  const Expr* k[3];
  u128 val;
  uint64_t hash;
  std::vector<uint32_t>* vars;   // sorted var ids
  bool fp, uf;
  mutable uint32_t epoch; mutable bool evok; mutable u128 ev;
  mutable Z3_ast zbv, zfp;
  mutable bool rok; mutable __int128 rlo, rhi;   // cached signed range
};
typedef const Expr* EP;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sx128(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (s128)((v ^ m) - m); }

struct ECtx {
  std::unordered_map<uint64_t, std::vector<EP>> table;
  uint32_t nextId = 1; uint32_t curEpoch = 1;
  std::vector<std::string> ufNames; std::map<std::string, int> ufIds;
  size_t nodes = 0;
};
static ECtx EC;

static EP mkc(u128 v, unsigned w);
static EP raw(EOp op, unsigned w, EP a, EP b, EP c, uint32_t aux, u128 val) {
  uint64_t h = op * 0x9E3779B97F4A7C15ull ^ (w * 0x85EBCA6Bull);
  auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
  mix(a ? a->id : 0); mix(b ? b->id : 0); mix(c ? c->id : 0); mix(aux); mix((uint64_t)val); mix((uint64_t)(val >> 64));
  auto& bk = EC.table[h];
  for (EP e : bk) if (e->op == op && e->w == w && e->k[0] == a && e->k[1] == b && e->k[2] == c && e->aux == aux && e->val == val) return e;
  Expr* e = new Expr(); e->op = op; e->w = w; e->id = EC.nextId++; e->aux = aux; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->val = val; e->hash = h;
  e->rok = false; e->epoch = 0; e->zbv = e->zfp = nullptr; e->fp = (op >= E_FADD && op <= E_FPEXT); e->uf = (op == E_UF); e->vars = nullptr;
  static std::vector<uint32_t> none;
  if (op == E_CONST) e->vars = &none;
  else if (op == E_VAR) e->vars = new std::vector<uint32_t>{aux};
  else if (op == E_UF) {
    std::vector<uint32_t> u; for (int i = 0; i < 3; i++) if (e->k[i]) { std::vector<uint32_t> r; std::set_union(u.begin(), u.end(), e->k[i]->vars->begin(), e->k[i]->vars->end(), std::back_inserter(r)); u.swap(r); e->fp |= e->k[i]->fp; }
    u.push_back((uint32_t)val); e->vars = new std::vector<uint32_t>(u);
  }
  else {
    int nk = c ? 3 : b ? 2 : 1;
    for (int i = 0; i < nk; i++) { e->fp |= e->k[i]->fp; e->uf |= e->k[i]->uf; }
    std::vector<uint32_t>* best = e->k[0]->vars; bool shared = true;
    std::vector<uint32_t> u = *e->k[0]->vars;
    for (int i = 1; i < nk; i++) {
      auto* o = e->k[i]->vars; if (o->empty() || o == best) continue;
      if (u.empty()) { u = *o; best = o; continue; }
      std::vector<uint32_t> r; std::set_union(u.begin(), u.end(), o->begin(), o->end(), std::back_inserter(r));
      if (r.size() == u.size()) continue;
      if (r.size() == o->size()) { u = r; best = o; shared = true; continue; }
      u.swap(r); shared = false;
    }
    if (shared) e->vars = best; else e->vars = new std::vector<uint32_t>(u);
  }
  bk.push_back(e); EC.nodes++;
  return e;
}
static EP mkc(u128 v, unsigned w) { return raw(E_CONST, w, nullptr, nullptr, nullptr, 0, v & maskw(w)); }
static EP mkvar(uint32_t id, unsigned w) { return raw(E_VAR, w, nullptr, nullptr, nullptr, id, 0); }
static inline bool isC(EP e) { return e->op == E_CONST; }

// ---- concrete semantics --------------------------------------------------
template <class T, class U> static T bits_to(U u) { T t; memcpy(&t, &u, sizeof t); return t; }
static double d_of(u128 v) { uint64_t x = (uint64_t)v; return bits_to<double>(x); }
static float f_of(u128 v) { uint32_t x = (uint32_t)v; return bits_to<float>(x); }
static u128 of_d(double d) { return bits_to<uint64_t>(d); }
static u128 of_f(float f) { return bits_to<uint32_t>(f); }
static double asD(u128 v, unsigned w) { return w == 32 ? (double)f_of(v) : d_of(v); }
// nan canonicalisation follows x86 SSE behaviour natively (host ops)
static u128 fpbin(EOp op, u128 a, u128 b, unsigned w) {
  if (w == 64) { volatile double x = d_of(a), y = d_of(b), r = 0; switch (op) { case E_FADD: r = x + y; break; case E_FSUB: r = x - y; break; case E_FMUL: r = x * y; break; default: r = x / y; } return of_d(r); }
  if (w == 32) { volatile float x = f_of(a), y = f_of(b), r = 0; switch (op) { case E_FADD: r = x + y; break; case E_FSUB: r = x - y; break; case E_FMUL: r = x * y; break; default: r = x / y; } return of_f(r); }
  throw Inconclusive("fp width");
}
static u128 frnd(u128 a, unsigned w, unsigned rm) { // rm: 0 RNE 1 RNA 2 RTP 3 RTN 4 RTZ
  if (w == 64) { double x = d_of(a), r; switch (rm) { case 0: r = nearbyint(x); break; case 1: r = round(x); break; case 2: r = ceil(x); break; case 3: r = floor(x); break; default: r = trunc(x); } return of_d(r); }
  float x = f_of(a), r; switch (rm) { case 0: r = nearbyintf(x); break; case 1: r = roundf(x); break; case 2: r = ceilf(x); break; case 3: r = floorf(x); break; default: r = truncf(x); } return of_f(r);
}
static u128 fptoi(u128 a, unsigned sw, unsigned w, bool sgn) { // saturating
  double x = asD(a, sw);
  if (x != x) return 0;
  if (sgn) {
    double lim = ldexp(1.0, w - 1);
    if (x >= lim) return maskw(w - 1);
    if (x <= -lim) return ((u128)1 << (w - 1));
    return ((u128)(s128)x) & maskw(w);
  }
  double lim = ldexp(1.0, w);
  if (x >= lim) return maskw(w);
  if (x <= 0) return 0;
  return ((u128)x) & maskw(w);
}
static u128 itofp(u128 a, unsigned sw, unsigned w, bool sgn) {
  if (sgn) { s128 s = sx128(a, sw); return w == 64 ? of_d((double)s) : of_f((float)s); }
  u128 s = a & maskw(sw); return w == 64 ? of_d((double)s) : of_f((float)s);
}
static u128 evalOp(EOp op, unsigned w, uint32_t aux, u128 a, unsigned aw, u128 b, unsigned bw, u128 c) {
  u128 m = maskw(w);
  switch (op) {
    case E_ADD: return (a + b) & m;
    case E_SUB: return (a - b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? (a / b) & m : m;
    case E_UREM: return b ? (a % b) & m : a;
    case E_SDIV: { s128 x = sx128(a, w), y = sx128(b, w); if (!y) return x >= 0 ? m : 1; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case E_SREM: { s128 x = sx128(a, w), y = sx128(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case E_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case E_ASHR: { s128 x = sx128(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sx128(a, aw) < sx128(b, bw);
    case E_SLE: return sx128(a, aw) <= sx128(b, bw);
    case E_ITE: return a ? b : c;
    case E_CONCAT: return ((a << bw) | b) & m;
    case E_EXTRACT: return (a >> aux) & m;
    case E_ZEXT: return a;
    case E_SEXT: return (u128)sx128(a, aw) & m;
    case E_FADD: case E_FSUB: case E_FMUL: case E_FDIV: return fpbin(op, a, b, w);
    case E_FSQRT: return w == 64 ? of_d(sqrt(d_of(a))) : of_f(sqrtf(f_of(a)));
    case E_FFMA: return w == 64 ? of_d(fma(d_of(a), d_of(b), d_of(c))) : of_f(fmaf(f_of(a), f_of(b), f_of(c)));
    case E_FEQ: return asD(a, aw) == asD(b, bw);
    case E_FLT: return asD(a, aw) < asD(b, bw);
    case E_FLE: return asD(a, aw) <= asD(b, bw);
    case E_FISNAN: { double x = asD(a, aw); return x != x; }
    case E_FRND: return frnd(a, w, aux);
    case E_SITOFP: return itofp(a, aw, w, true);
    case E_UITOFP: return itofp(a, aw, w, false);
    case E_FPTOSI: return fptoi(a, aw, w, true);
    case E_FPTOUI: return fptoi(a, aw, w, false);
    case E_FPTRUNC: return of_f((float)d_of(a));
    case E_FPEXT: return of_d((double)f_of(a));
    default: throw Inconclusive("evalOp");
  }
}

// ---- constructors with simplification --------------------------------------
static EP mkExtract(EP e, unsigned lo, unsigned w);
static EP mkConcat(EP hi, EP lo);
static EP mkZext(EP e, unsigned w);
static EP mkSext(EP e, unsigned w);
static EP mkIte(EP c, EP a, EP b);
/// k if v == 2^k with k > 0, else 0
static inline unsigned pow2(u128 v) { if (!v || (v & (v - 1))) return 0; unsigned k = 0; while (v >>= 1) k++; return k; }
static EP mk2(EOp op, EP a, EP b);
static EP mkNot(EP a) { return mk2(E_XOR, a, mkc(1, 1)); }

// number of bits needed to represent e as a signed integer (upper bound)
static unsigned sbits(EP e) {
  switch (e->op) {
    case E_CONST: { s128 v = sx128(e->val, e->w); unsigned n = 1; while (n < e->w && !(v >= -((s128)1 << (n - 1)) && v < ((s128)1 << (n - 1)))) n++; return n; }
    case E_SEXT: return std::min<unsigned>(sbits(e->k[0]), e->w);
    case E_ZEXT: return std::min<unsigned>(e->w, e->k[0]->w + 1);
    case E_ITE: return std::max(sbits(e->k[1]), sbits(e->k[2]));
    case E_ADD: case E_SUB: return std::min<unsigned>(e->w, std::max(sbits(e->k[0]), sbits(e->k[1])) + 1);
    case E_AND: if (isC(e->k[1]) && !(e->k[1]->val >> (e->w - 1))) return sbits(e->k[1]); return e->w;
    default: return e->w;
  }
}
// e: fp expression of width w. If it is exactly an integer (never -0, NaN, inf), returns a
// signed integer expression of 64 bits with the same value, else null.
static EP exactInt(EP e) {
  unsigned prec = e->w == 64 ? 53 : 24;
  if (e->op == E_SITOFP && e->k[0]->w <= 64 && sbits(e->k[0]) <= prec) return e->k[0]->w < 64 ? mkSext(e->k[0], 64) : e->k[0];
  if (e->op == E_UITOFP && e->k[0]->w < 64 && e->k[0]->w <= prec) return mkZext(e->k[0], 64);
  if (e->op == E_UITOFP && e->k[0]->op == E_ZEXT && e->k[0]->k[0]->w <= prec) return mkZext(e->k[0]->k[0], 64);
  if (e->op == E_FPEXT) return exactInt(e->k[0]);
  if (isC(e)) {
    double d = asD(e->val, e->w);
    if (d == d && fabs(d) < 9e15 && d == trunc(d) && !(d == 0 && signbit(d))) return mkc((u128)(s128)d, 64);
  }
  if (e->op == E_ITE) { EP a = exactInt(e->k[1]); if (!a) return nullptr; EP b = exactInt(e->k[2]); if (!b) return nullptr; return mkIte(e->k[0], a, b); }
  return nullptr;
}

static EP fold(EOp op, unsigned w, uint32_t aux, EP a, EP b, EP c) {
  return mkc(evalOp(op, w, aux, a ? a->val : 0, a ? a->w : 0, b ? b->val : 0, b ? b->w : 0, c ? c->val : 0), w);
}
static bool iteConst(EP e) { return e->op == E_ITE && isC(e->k[1]) && isC(e->k[2]); }

static EP mkExtract(EP e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  if (isC(e)) return mkc(e->val >> lo, w);
  switch (e->op) {
    case E_EXTRACT: return mkExtract(e->k[0], lo + e->aux, w);
    case E_CONCAT: { unsigned lw = e->k[1]->w; if (lo + w <= lw) return mkExtract(e->k[1], lo, w); if (lo >= lw) return mkExtract(e->k[0], lo - lw, w);
      return mkConcat(mkExtract(e->k[0], 0, lo + w - lw), mkExtract(e->k[1], lo, lw - lo)); }
    case E_ZEXT: { unsigned iw = e->k[0]->w; if (lo + w <= iw) return mkExtract(e->k[0], lo, w); if (lo >= iw) return mkc(0, w); return mkZext(mkExtract(e->k[0], lo, iw - lo), w); }
    case E_SEXT: { unsigned iw = e->k[0]->w; if (lo + w <= iw) return mkExtract(e->k[0], lo, w); if (lo == 0) return mkSext(e->k[0], w); if (lo >= iw) return mkSext(mkExtract(e->k[0], iw - 1, 1), w); break; }
    case E_ITE: if (iteConst(e) || true) { if (isC(e->k[1]) || isC(e->k[2]) || e->k[1]->op==E_CONCAT || e->k[1]->op==E_ZEXT) return mkIte(e->k[0], mkExtract(e->k[1], lo, w), mkExtract(e->k[2], lo, w)); } break;
    case E_AND: case E_OR: case E_XOR: if (isC(e->k[1]) || e->k[0]->op==E_ZEXT || e->k[1]->op==E_ZEXT) return mk2(e->op, mkExtract(e->k[0], lo, w), mkExtract(e->k[1], lo, w)); break;
    case E_ADD: case E_SUB: case E_MUL: if (lo == 0) return mk2(e->op, mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w)); break;
    case E_LSHR: if (isC(e->k[1]) && e->k[1]->val + lo + w <= e->w) return mkExtract(e->k[0], lo + (unsigned)e->k[1]->val, w); break;
    case E_SHL: if (isC(e->k[1]) && e->k[1]->val <= lo) return mkExtract(e->k[0], lo - (unsigned)e->k[1]->val, w); if (isC(e->k[1]) && lo + w <= e->k[1]->val) return mkc(0, w); break;
    default: break;
  }
  return raw(E_EXTRACT, w, e, nullptr, nullptr, lo, 0);
}
static EP mkConcat(EP hi, EP lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkc((hi->val << lo->w) | lo->val, w);
  if (isC(hi) && hi->val == 0) return mkZext(lo, w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return mkExtract(hi->k[0], lo->aux, w);
  if (hi->op == E_EXTRACT && lo == hi->k[0] ) {}
  if (hi->op == E_EXTRACT && hi->aux == lo->w && hi->k[0]->op != E_EXTRACT) { // lo may be simplified form of extract(hi.k0,0,lw)
    if (mkExtract(hi->k[0], 0, lo->w) == lo) return mkExtract(hi->k[0], 0, w);
  }
  if (lo->op == E_CONCAT && hi->op == E_EXTRACT && lo->k[0]->op == E_EXTRACT && lo->k[0]->k[0] == hi->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
  if (hi->op == E_ITE && lo->op == E_ITE && hi->k[0] == lo->k[0]) return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  return raw(E_CONCAT, w, hi, lo, nullptr, 0, 0);
}
static EP mkZext(EP e, unsigned w) {
  if (e->w == w) return e;
  if (isC(e)) return mkc(e->val, w);
  if (e->op == E_ZEXT) return mkZext(e->k[0], w);
  if (iteConst(e)) return mkIte(e->k[0], mkZext(e->k[1], w), mkZext(e->k[2], w));
  return raw(E_ZEXT, w, e, nullptr, nullptr, 0, 0);
}
static EP mkSext(EP e, unsigned w) {
  if (e->w == w) return e;
  if (isC(e)) return mkc((u128)sx128(e->val, e->w), w);
  if (e->op == E_SEXT) return mkSext(e->k[0], w);
  if (e->op == E_ZEXT) return mkZext(e->k[0], w);
  if (iteConst(e)) return mkIte(e->k[0], mkSext(e->k[1], w), mkSext(e->k[2], w));
  return raw(E_SEXT, w, e, nullptr, nullptr, 0, 0);
}
static bool isNot(EP e) { return e->op == E_XOR && e->w == 1 && isC(e->k[1]) && e->k[1]->val == 1; }
static EP mkIte(EP c, EP a, EP b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (isNot(c)) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->val ? c : mkNot(c);
    if (isC(a)) return a->val ? mk2(E_OR, c, b) : mk2(E_AND, mkNot(c), b);
    if (isC(b)) return b->val ? mk2(E_OR, mkNot(c), a) : mk2(E_AND, c, a);
  }
  if (a->op == E_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == E_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  return raw(E_ITE, a->w, c, a, b, 0, 0);
}
// Signed range of the value of e (syntactic over-approximation, cached).
static void rng(EP e, s128& lo, s128& hi, int depth = 0) {
  if (e->rok) { lo = e->rlo; hi = e->rhi; return; }
  unsigned w = e->w; s128 fl = w >= 128 ? (s128)((u128)1 << 127) : -((s128)1 << (w - 1)), fh = -(fl + 1);
  lo = fl; hi = fh;
  if (w > 64 && e->op != E_CONST && e->op != E_ZEXT && e->op != E_SEXT && w > 100) return;
  if (w > 100) { if (e->op == E_CONST) { lo = hi = sx128(e->val, w); return; } if (e->k[0]->w > 100) return; }
  if (depth > 48) return;
  const s128 BIG = (s128)1 << 120;
  s128 al = 0, ah = 0, bl = 0, bh = 0;
  auto ra = [&](int i, s128& l, s128& h) { rng(e->k[i], l, h, depth + 1); };
  auto fit = [&](s128 l, s128 h) { if (l >= fl && h <= fh) { lo = l; hi = h; } };
  switch (e->op) {
    case E_CONST: lo = hi = sx128(e->val, w); break;
    case E_ZEXT: ra(0, al, ah); if (al >= 0) { lo = al; hi = ah; } else { lo = 0; hi = (s128)maskw(e->k[0]->w); } break;
    case E_SEXT: ra(0, lo, hi); break;
    case E_ADD: ra(0, al, ah); ra(1, bl, bh); fit(al + bl, ah + bh); break;
    case E_SUB: ra(0, al, ah); ra(1, bl, bh); fit(al - bh, ah - bl); break;
    case E_MUL: ra(0, al, ah); ra(1, bl, bh);
      if (w <= 64) { s128 p[4]; bool ok = true; int n = 0; for (s128 x : {al, ah}) for (s128 y : {bl, bh}) ok &= !__builtin_mul_overflow(x, y, &p[n++]);
        if (ok) fit(std::min(std::min(p[0], p[1]), std::min(p[2], p[3])), std::max(std::max(p[0], p[1]), std::max(p[2], p[3]))); }
      break;
    case E_SHL: if (isC(e->k[1]) && e->k[1]->val < w && w <= 64) { ra(0, al, ah); unsigned k = (unsigned)e->k[1]->val; if (al > -BIG >> k && ah < BIG >> k) fit(al * ((s128)1 << k), ah * ((s128)1 << k)); } break;
    case E_UDIV: case E_SDIV: if (isC(e->k[1])) { s128 c = sx128(e->k[1]->val, w); ra(0, al, ah); if (c > 0 && (al >= 0 || e->op == E_SDIV)) { lo = al / c; hi = ah / c; } } break;
    case E_UREM: if (isC(e->k[1])) { s128 c = sx128(e->k[1]->val, w); ra(0, al, ah); if (c > 0) { lo = 0; hi = al >= 0 ? std::min(ah, c - 1) : c - 1; } } break;
    case E_SREM: if (isC(e->k[1])) { s128 c = sx128(e->k[1]->val, w); ra(0, al, ah); if (c > 0) { lo = al >= 0 ? 0 : std::max(al, 1 - c); hi = ah <= 0 ? 0 : std::min(ah, c - 1); } } break;
    case E_AND: { ra(0, al, ah); ra(1, bl, bh); if (al >= 0 && bl >= 0) { lo = 0; hi = std::min(ah, bh); } else if (al >= 0) { lo = 0; hi = ah; } else if (bl >= 0) { lo = 0; hi = bh; } break; }
    case E_OR: case E_XOR: ra(0, al, ah); ra(1, bl, bh);
      if (e->op == E_XOR && isC(e->k[1]) && bl == -1) { lo = -1 - ah; hi = -1 - al; }
      else if (al >= 0 && bl >= 0) { u128 t = (u128)std::max(ah, bh); u128 q = 0; while (q < t) q = q * 2 + 1; lo = 0; hi = (s128)q; }
      break;
    case E_ITE: ra(1, al, ah); ra(2, bl, bh); lo = std::min(al, bl); hi = std::max(ah, bh); break;
    case E_EXTRACT: if (e->k[0]->w <= 100) { ra(0, al, ah); unsigned s = e->aux; al >>= s; ah >>= s; fit(al, ah); } break;
    default: break;
  }
  e->rok = true; e->rlo = lo; e->rhi = hi;
}
static unsigned ubits(s128 v) { unsigned n = 0; while (v > 0) { n++; v >>= 1; } return n; }
/// division or remainder by a constant of a value of known range: fewer bits, or comparisons
static EP narrowDiv(EOp op, EP a, EP b) {
  unsigned w = a->w; if (w > 64 || !isC(b)) return nullptr;
  s128 c = sx128(b->val, w); if (c <= 1) return nullptr;
  s128 lo, hi; rng(a, lo, hi);
  bool sgn = op == E_SDIV || op == E_SREM, div = op == E_SDIV || op == E_UDIV;
  if (!sgn && lo < 0) return nullptr;
  s128 ql = lo / c, qh = hi / c;
  if (qh - ql <= 3) { // few quotients: comparisons
    EP q = mkc((u128)ql, w);
    for (s128 t = ql + 1; t <= qh; t++) { s128 th = t > 0 ? t * c : t * c - (c - 1); // least a with trunc(a/c) >= t
      q = mk2(E_ADD, q, mkZext(mk2(E_SLE, mkc((u128)th, w), a), w)); }
    if (div) return q;
    // remainder: one subtraction per candidate
    EP r = mk2(E_SUB, a, mkc((u128)(ql * c), w));
    for (s128 t = ql + 1; t <= qh; t++) { s128 th = t > 0 ? t * c : t * c - (c - 1); r = mkIte(mk2(E_SLE, mkc((u128)th, w), a), mk2(E_SUB, a, mkc((u128)(t * c), w)), r); }
    return r;
  }
  if (lo >= 0) {
    unsigned n = std::max(ubits(hi), ubits(c)); if (n + 4 > w && !sgn) return nullptr;
    if (n + 4 > w) return raw(div ? E_UDIV : E_UREM, w, a, b, nullptr, 0, 0);
    return mkZext(mk2(div ? E_UDIV : E_UREM, mkExtract(a, 0, n), mkc((u128)c, n)), w);
  }
  unsigned n = std::max(std::max(ubits(hi), ubits(-lo)), ubits(c)) + 1; if (n + 4 > w) return nullptr;
  return mkSext(mk2(op, mkExtract(a, 0, n), mkc((u128)c, n)), w);
}
/// comparison decided or simplified by the ranges of its operands
static EP rangeCmp(EOp op, EP a, EP b) {
  unsigned w = a->w; if (w <= 1 || w > 64) return nullptr;
  s128 al, ah, bl, bh; rng(a, al, ah); rng(b, bl, bh);
  if (op == E_EQ) { if (ah < bl || bh < al) return mkc(0, 1); }
  bool u = op == E_ULT || op == E_ULE;
  if (u) { // as unsigned
    auto un = [&](s128& l, s128& h) { if (l >= 0) return; if (h < 0) { l += (s128)1 << w; h += (s128)1 << w; } else { l = 0; h = (s128)maskw(w); } };
    s128 xl = al, xh = ah, yl = bl, yh = bh; un(xl, xh); un(yl, yh);
    if (op == E_ULT) { if (xh < yl) return mkc(1, 1); if (yh <= xl) return mkc(0, 1); } else { if (xh <= yl) return mkc(1, 1); if (yh < xl) return mkc(0, 1); }
  } else if (op == E_SLT) { if (ah < bl) return mkc(1, 1); if (bh <= al) return mkc(0, 1); }
  else if (op == E_SLE) { if (ah <= bl) return mkc(1, 1); if (bh < al) return mkc(0, 1); }
  // move an added constant to the other side when neither sum can overflow
  s128 fl = -((s128)1 << (w - 1)), fh = -(fl + 1);
  for (int t = 0; t < 2; t++) {
    EP x = t ? b : a, k = t ? a : b; if (!isC(k) || x->op != E_ADD || !isC(x->k[1]) || op == E_EQ) continue;
    s128 l, h; rng(x->k[0], l, h); s128 cc = sx128(x->k[1]->val, w), kv = sx128(k->val, w);
    if (l + cc < fl || h + cc > fh || kv - cc < fl || kv - cc > fh) continue;
    if (u) { if (l < 0 || l + cc < 0 || kv < 0) continue; if (kv - cc < 0) continue; }
    EP nk = mkc((u128)(kv - cc), w); return t ? mk2(op, nk, x->k[0]) : mk2(op, x->k[0], nk);
  }
  return nullptr;
}
static EP mk2(EOp op, EP a, EP b) {
  bool cmp = (op >= E_EQ && op <= E_SLE) || op == E_FEQ || op == E_FLT || op == E_FLE;
  unsigned w = cmp ? 1 : a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) return fold(op, w, 0, a, b, nullptr);
  bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ || op == E_FADD || op == E_FMUL || op == E_FEQ;
  if (comm) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
  u128 m = maskw(a->w);
  if (op >= E_EQ && op <= E_SLE) { if (EP r = rangeCmp(op, a, b)) return r; }
  if (op >= E_UDIV && op <= E_SREM) { if (EP r = narrowDiv(op, a, b)) return r; }
  switch (op) {
    case E_ADD:
      if (isC(b)) { if (!b->val) return a; if (a->op == E_ADD && isC(a->k[1])) return mk2(E_ADD, a->k[0], mkc(a->k[1]->val + b->val, w)); if (iteConst(a)) return mkIte(a->k[0], mk2(op, a->k[1], b), mk2(op, a->k[2], b)); }
      if (a->op == E_SUB && a->k[1] == b) return a->k[0];
      if (b->op == E_SUB && b->k[1] == a) return b->k[0];
      break;
    case E_SUB:
      if (a == b) return mkc(0, w);
      if (isC(b)) return mk2(E_ADD, a, mkc(-b->val, w));
      if (a->op == E_ADD && a->k[0] == b) return a->k[1];
      if (a->op == E_ADD && a->k[1] == b) return a->k[0];
      if (a->op == E_ADD && isC(a->k[1]) && b->op == E_ADD && isC(b->k[1])) return mk2(E_ADD, mk2(E_SUB, a->k[0], b->k[0]), mkc(a->k[1]->val - b->k[1]->val, w));
      break;
    case E_MUL:
      if (isC(b)) { if (!b->val) return b; if (b->val == 1) return a; if (a->op == E_MUL && isC(a->k[1])) return mk2(E_MUL, a->k[0], mkc(a->k[1]->val * b->val, w));
        if (iteConst(a)) return mkIte(a->k[0], mk2(op, a->k[1], b), mk2(op, a->k[2], b)); }
      break;
    case E_UDIV: if (isC(b) && b->val == 1) return a; if (isC(b) && pow2(b->val)) return mk2(E_LSHR, a, mkc(pow2(b->val), w)); break;
    case E_SDIV: if (isC(b) && b->val == 1) return a;
      if (isC(b) && b->val == maskw(w)) return mk2(E_SUB, mkc(0, w), a);
      if (isC(b) && pow2(b->val) && pow2(b->val) < w - 1) { unsigned k = pow2(b->val); EP bias = mk2(E_LSHR, mk2(E_ASHR, a, mkc(w - 1, w)), mkc(w - k, w)); return mk2(E_ASHR, mk2(E_ADD, a, bias), mkc(k, w)); }
      break;
    case E_SREM: if (isC(b) && pow2(b->val) && pow2(b->val) < w - 1) return mk2(E_SUB, a, mk2(E_SHL, mk2(E_SDIV, a, b), mkc(pow2(b->val), w))); break;
    case E_UREM: if (isC(b) && pow2(b->val)) return mk2(E_AND, a, mkc(b->val - 1, w)); if (isC(b) && b->val == 1) return mkc(0, w);
      if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mk2(E_AND, a, mkc(b->val - 1, w)); break;
    case E_AND:
      if (a == b) return a;
      if (isC(b)) { if (!b->val) return b; if (b->val == m) return a; if (a->op == E_AND && isC(a->k[1])) return mk2(E_AND, a->k[0], mkc(a->k[1]->val & b->val, w));
        if (iteConst(a)) return mkIte(a->k[0], mk2(op, a->k[1], b), mk2(op, a->k[2], b));
        if (a->op == E_ZEXT) { u128 im = maskw(a->k[0]->w); return mkZext(mk2(E_AND, a->k[0], mkc(b->val & im, a->k[0]->w)), w); }
        // low mask -> zext(extract)
        if (((b->val + 1) & b->val) == 0) { unsigned n = 0; while (n < w && ((b->val >> n) & 1)) n++; return mkZext(mkExtract(a, 0, n), w); } }
      if (w == 1) { if (isNot(a) && a->k[0] == b) return mkc(0, 1); if (isNot(b) && b->k[0] == a) return mkc(0, 1); }
      break;
    case E_OR:
      if (a == b) return a;
      if (isC(b)) { if (!b->val) return a; if (b->val == m) return b; if (a->op == E_OR && isC(a->k[1])) return mk2(E_OR, a->k[0], mkc(a->k[1]->val | b->val, w));
        if (iteConst(a)) return mkIte(a->k[0], mk2(op, a->k[1], b), mk2(op, a->k[2], b)); }
      if (w == 1) { if (isNot(a) && a->k[0] == b) return mkc(1, 1); if (isNot(b) && b->k[0] == a) return mkc(1, 1); }
      { // or of disjoint shl/zext -> concat
        EP x = a, y = b; for (int t = 0; t < 2; t++, std::swap(x, y)) if (x->op == E_SHL && isC(x->k[1]) && y->op == E_ZEXT && y->k[0]->w <= x->k[1]->val && x->k[1]->val < w) {
          unsigned s = (unsigned)x->k[1]->val; return mkConcat(mkExtract(x->k[0], 0, w - s), mkZext(y->k[0], s)); } }
      break;
    case E_XOR:
      if (a == b) return mkc(0, w);
      if (isC(b)) { if (!b->val) return a; if (a->op == E_XOR && isC(a->k[1])) return mk2(E_XOR, a->k[0], mkc(a->k[1]->val ^ b->val, w));
        if (iteConst(a)) return mkIte(a->k[0], mk2(op, a->k[1], b), mk2(op, a->k[2], b));
        if (w == 1) { // negate comparisons
          if (a->op == E_ULT) return mk2(E_ULE, a->k[1], a->k[0]); if (a->op == E_ULE) return mk2(E_ULT, a->k[1], a->k[0]);
          if (a->op == E_SLT) return mk2(E_SLE, a->k[1], a->k[0]); if (a->op == E_SLE) return mk2(E_SLT, a->k[1], a->k[0]); } }
      break;
    case E_SHL: case E_LSHR: case E_ASHR:
      if (isC(b) && !b->val) return a;
      if (isC(a) && !a->val) return a;
      if (isC(b) && b->val < w) {
        if (op == E_LSHR && a->op == E_ZEXT && b->val >= a->k[0]->w) return mkc(0, w);
        if (op == E_LSHR) { unsigned s = (unsigned)b->val; return mkZext(mkExtract(a, s, w - s), w); }
        if (op == E_ASHR) { unsigned s = (unsigned)b->val; return mkSext(mkExtract(a, s, w - s), w); }
        if (op == E_SHL && iteConst(a)) return mkIte(a->k[0], mk2(op, a->k[1], b), mk2(op, a->k[2], b));
      } else if (isC(b)) { if (op != E_ASHR) return mkc(0, w); return mk2(E_ASHR, a, mkc(w - 1, w)); }
      break;
    case E_EQ:
      if (a == b) return mkc(1, 1);
      if (a->w == 1) { if (isC(b)) return b->val ? a : mkNot(a); }
      if (isC(b)) {
        if (a->op == E_ITE) { if (isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mk2(E_EQ, a->k[1], b), mk2(E_EQ, a->k[2], b)); }
        if (a->op == E_ZEXT) { if (b->val >> a->k[0]->w) return mkc(0, 1); return mk2(E_EQ, a->k[0], mkc(b->val, a->k[0]->w)); }
        if (a->op == E_SEXT) { EP t = mkc(b->val, a->k[0]->w); if (mkSext(t, a->w) != b) return mkc(0, 1); return mk2(E_EQ, a->k[0], t); }
        if (a->op == E_ADD && isC(a->k[1])) return mk2(E_EQ, a->k[0], mkc(b->val - a->k[1]->val, a->w));
        if (a->op == E_XOR && isC(a->k[1])) return mk2(E_EQ, a->k[0], mkc(b->val ^ a->k[1]->val, a->w));
        if (a->op == E_CONCAT) { unsigned lw = a->k[1]->w; return mk2(E_AND, mk2(E_EQ, a->k[0], mkc(b->val >> lw, a->k[0]->w)), mk2(E_EQ, a->k[1], mkc(b->val, lw))); }
        if (a->op == E_SUB && b->val == 0) return mk2(E_EQ, a->k[0], a->k[1]);
      }
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mk2(E_EQ, a->k[0], b->k[0]);
      if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mk2(E_EQ, a->k[0], b->k[0]);
      if (a->op == E_ITE && b->op == E_ITE && a->k[0] == b->k[0]) return mkIte(a->k[0], mk2(E_EQ, a->k[1], b->k[1]), mk2(E_EQ, a->k[2], b->k[2]));
      if (a->op == E_ADD && b->op == E_ADD && isC(a->k[1]) && a->k[1] == b->k[1]) return mk2(E_EQ, a->k[0], b->k[0]);
      break;
    case E_ULT:
      if (a == b) return mkc(0, 1);
      if (isC(b) && b->val == 0) return mkc(0, 1);
      if (isC(b) && b->val == 1) return mk2(E_EQ, a, mkc(0, a->w));
      if (isC(a) && a->val == m) return mkc(0, 1);
      if (isC(b) && a->op == E_ZEXT) { if (b->val >> a->k[0]->w) return mkc(1, 1); return mk2(E_ULT, a->k[0], mkc(b->val, a->k[0]->w)); }
      if (isC(a) && b->op == E_ZEXT) { if (a->val >> b->k[0]->w) return mkc(0, 1); return mk2(E_ULT, mkc(a->val, b->k[0]->w), b->k[0]); }
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mk2(E_ULT, a->k[0], b->k[0]);
      if (isC(b) && iteConst(a)) return mkIte(a->k[0], mk2(op, a->k[1], b), mk2(op, a->k[2], b));
      if (isC(a) && iteConst(b)) return mkIte(b->k[0], mk2(op, a, b->k[1]), mk2(op, a, b->k[2]));
      break;
    case E_ULE:
      if (a == b) return mkc(1, 1);
      if (isC(a) && a->val == 0) return mkc(1, 1);
      if (isC(b) && b->val == m) return mkc(1, 1);
      if (isC(b) && a->op == E_ZEXT) { if (b->val >> a->k[0]->w) return mkc(1, 1); return mk2(E_ULE, a->k[0], mkc(b->val, a->k[0]->w)); }
      if (isC(a) && b->op == E_ZEXT) { if (a->val >> b->k[0]->w) return mkc(0, 1); return mk2(E_ULE, mkc(a->val, b->k[0]->w), b->k[0]); }
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mk2(E_ULE, a->k[0], b->k[0]);
      if (isC(b) && iteConst(a)) return mkIte(a->k[0], mk2(op, a->k[1], b), mk2(op, a->k[2], b));
      if (isC(a) && iteConst(b)) return mkIte(b->k[0], mk2(op, a, b->k[1]), mk2(op, a, b->k[2]));
      break;
    case E_SLT: case E_SLE:
      if (a == b) return mkc(op == E_SLE, 1);
      if (a->op == E_ZEXT && isC(b) && !(b->val >> (b->w - 1))) return mk2(op == E_SLT ? E_ULT : E_ULE, a, b);
      if (a->op == E_ZEXT && isC(b)) return mkc(0, 1);
      if (b->op == E_ZEXT && isC(a) && !(a->val >> (a->w - 1))) return mk2(op == E_SLT ? E_ULT : E_ULE, a, b);
      if (b->op == E_ZEXT && isC(a)) return mkc(1, 1);
      if (a->op == E_ZEXT && b->op == E_ZEXT) return mk2(op == E_SLT ? E_ULT : E_ULE, a, b);
      if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mk2(op, a->k[0], b->k[0]);
      if (a->op == E_SEXT && isC(b) && sx128(b->val, b->w) == sx128(b->val, a->k[0]->w)) return mk2(op, a->k[0], mkc(b->val, a->k[0]->w));
      if (b->op == E_SEXT && isC(a) && sx128(a->val, a->w) == sx128(a->val, b->k[0]->w)) return mk2(op, mkc(a->val, b->k[0]->w), b->k[0]);
      if (a->op == E_SEXT && isC(b)) return mkc(sx128(b->val, b->w) > 0, 1);
      if (b->op == E_SEXT && isC(a)) return mkc(sx128(a->val, a->w) < 0, 1);
      if (isC(b) && iteConst(a)) return mkIte(a->k[0], mk2(op, a->k[1], b), mk2(op, a->k[2], b));
      if (isC(a) && iteConst(b)) return mkIte(b->k[0], mk2(op, a, b->k[1]), mk2(op, a, b->k[2]));
      if (op == E_SLT && isC(b) && b->val == ((u128)1 << (b->w - 1))) return mkc(0, 1);
      break;
    case E_FEQ: case E_FLT: case E_FLE: {
      EP x = exactInt(a), y = x ? exactInt(b) : nullptr;
      if (x && y) return mk2(op == E_FEQ ? E_EQ : op == E_FLT ? E_SLT : E_SLE, x, y);
      // exact integer against a non-integral or huge constant
      for (int t = 0; t < 2; t++) {
        EP ce = t ? a : b, ie = t ? b : a;
        if (!isC(ce)) continue;
        double d = asD(ce->val, ce->w);
        if (d != d) return mkc(0, 1);
        if (d == 0) { EP xi = exactInt(ie); if (xi) { EP z = mkc(0, 64); return op == E_FEQ ? mk2(E_EQ, xi, z) : t ? mk2(op == E_FLT ? E_SLT : E_SLE, z, xi) : mk2(op == E_FLT ? E_SLT : E_SLE, xi, z); } }
        EP xi = exactInt(ie); if (!xi) continue;
        if (op == E_FEQ) { if (std::isinf(d) || d != trunc(d)) return mkc(0, 1); continue; }
        if (std::isinf(d)) { bool big = d > 0; return mkc(t ? !big : big, 1); }
        if (fabs(d) < 9e15) { // non integral
          int64_t fl = (int64_t)floor(d);
          if (t) return mk2(E_SLT, mkc((u128)(s128)fl, 64), xi); // d < x  <=> fl < x
          return mk2(E_SLE, xi, mkc((u128)(s128)fl, 64));        // x < d <=> x <= fl
        }
      }
      if (a == b && op == E_FLT) return mkc(0, 1);
      break; }
    case E_FADD: case E_FSUB: {
      EP x = exactInt(a), y = x ? exactInt(b) : nullptr;
      unsigned prec = a->w == 64 ? 53 : 24;
      if (x && y && std::max(sbits(x), sbits(y)) + 1 <= prec) { EP s = mk2(op == E_FADD ? E_ADD : E_SUB, x, y); return raw(E_SITOFP, w, s, nullptr, nullptr, 0, 0); }
      if (op == E_FADD && isC(b)) { double d = asD(b->val, b->w); if (d == 0 && signbit(d)) return a; }
      break; }
    case E_FMUL: if (isC(b) && asD(b->val, b->w) == 1.0) return a; break;   // NaN payload aside
    case E_FDIV: if (isC(b) && asD(b->val, b->w) == 1.0) return a; break;
    default: break;
  }
  return raw(op, w, a, b, nullptr, 0, 0);
}
static EP mk1f(EOp op, EP a, unsigned w, uint32_t aux = 0) {
  if (isC(a)) return fold(op, w, aux, a, nullptr, nullptr);
  if (iteConst(a)) return mkIte(a->k[0], mk1f(op, a->k[1], w, aux), mk1f(op, a->k[2], w, aux));
  if (op == E_FISNAN) { if (exactInt(a) || a->op == E_SITOFP || a->op == E_UITOFP) return mkc(0, 1); if (a->op == E_FPEXT || a->op == E_FPTRUNC) return mk1f(E_FISNAN, a->k[0], 1);
    if (a->op == E_ITE) return mkIte(a->k[0], mk1f(op, a->k[1], 1), mk1f(op, a->k[2], 1)); }
  if (op == E_FRND && (exactInt(a) || a->op == E_FRND || a->op == E_SITOFP || a->op == E_UITOFP)) return a;
  if (op == E_FPTOSI || op == E_FPTOUI) {
    EP x = exactInt(a);
    if (x) {
      if (op == E_FPTOSI) {
        if (w >= 64 || sbits(x) <= w) return w >= 64 ? mkSext(x, w) : mkExtract(x, 0, w);
        EP mx = mkc(maskw(w - 1), 64), mn = mkc((u128)(-((s128)1 << (w - 1))), 64);
        return mkIte(mk2(E_SLT, mx, x), mkc(maskw(w - 1), w), mkIte(mk2(E_SLT, x, mn), mkc((u128)1 << (w - 1), w), mkExtract(x, 0, w)));
      }
      EP neg = mk2(E_SLT, x, mkc(0, 64));
      if (w >= 64) return mkIte(neg, mkc(0, w), mkZext(x, w));
      EP mx = mkc(maskw(w), 64);
      return mkIte(neg, mkc(0, w), mkIte(mk2(E_SLT, mx, x), mkc(maskw(w), w), mkExtract(x, 0, w)));
    }
  }
  if (op == E_FPTRUNC && a->op == E_FPEXT) return a->k[0];
  if (op == E_FPTRUNC && (a->op == E_SITOFP || a->op == E_UITOFP) && a->w == 64) { EP x = exactInt(a); if (x) return raw(E_SITOFP, 32, x, nullptr, nullptr, 0, 0); }
  if (op == E_FPEXT && (a->op == E_SITOFP || a->op == E_UITOFP)) { EP x = exactInt(a); if (x) return raw(E_SITOFP, w, x, nullptr, nullptr, 0, 0); }
  if (op == E_SITOFP && a->op == E_ZEXT) { return mk1f(E_UITOFP, a->k[0], w); }
  if (op == E_UITOFP && a->op == E_ZEXT) { return mk1f(E_UITOFP, a->k[0], w); }
  if (op == E_SITOFP && a->op == E_SEXT) { return mk1f(E_SITOFP, a->k[0], w); }
  if (op == E_SITOFP || op == E_UITOFP) { // canonical form for exact conversions: SITOFP of 64-bit value
    EP t = raw(op, w, a, nullptr, nullptr, aux, 0); EP x = exactInt(t); if (x) return raw(E_SITOFP, w, x, nullptr, nullptr, 0, 0); return t;
  }
  return raw(op, w, a, nullptr, nullptr, aux, 0);
}
static EP mkUF(const std::string& name, unsigned w, EP a, EP b) {
  auto it = EC.ufIds.find(name); int id;
  if (it == EC.ufIds.end()) { id = EC.ufNames.size(); EC.ufNames.push_back(name); EC.ufIds[name] = id; } else id = it->second;
  // one model variable per distinct application
  static std::map<std::tuple<int, unsigned, EP, EP>, uint32_t> apps; static uint32_t nextUF = 1u << 20;
  auto key = std::make_tuple(id, w, a, b); auto ap = apps.find(key); uint32_t vid;
  if (ap == apps.end()) { vid = nextUF++; apps[key] = vid; } else vid = ap->second;
  return raw(E_UF, w, a, b, nullptr, id, vid);
}

// ---- evaluation under a model ------------------------------------------------
struct Model {
  std::vector<u128> v; std::map<uint32_t, u128> ufv;
  u128 get(uint32_t i) const { if (i >= (1u << 20)) { auto it = ufv.find(i); return it == ufv.end() ? 0 : it->second; } return i < v.size() ? v[i] : 0; }
  void set(uint32_t i, u128 x) { if (i >= (1u << 20)) { ufv[i] = x; return; } if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; }
};
static bool evalRec(EP e, const Model& m) {
  if (e->epoch == EC.curEpoch) return e->evok;
  // iterative for deep DAGs
  std::vector<std::pair<EP, int>> st; st.push_back({e, 0});
  while (!st.empty()) {
    auto& [x, i] = st.back();
    if (x->epoch == EC.curEpoch) { st.pop_back(); continue; }
    if (x->op == E_CONST) { x->ev = x->val; x->evok = true; x->epoch = EC.curEpoch; st.pop_back(); continue; }
    if (x->op == E_VAR) { x->ev = m.get(x->aux) & maskw(x->w); x->evok = true; x->epoch = EC.curEpoch; st.pop_back(); continue; }
    if (x->op == E_UF) { x->ev = m.get((uint32_t)x->val) & maskw(x->w); x->evok = true; x->epoch = EC.curEpoch; st.pop_back(); continue; }
    bool push = false;
    while (i < 3 && x->k[i]) { EP c = x->k[i]; i++; if (c->epoch != EC.curEpoch) { st.push_back({c, 0}); push = true; break; } }
    if (push) continue;
    bool ok = true;
    if (x->op == E_ITE) {
      if (!x->k[0]->evok) ok = false;
      else { EP s = x->k[0]->ev ? x->k[1] : x->k[2]; ok = s->evok; if (ok) x->ev = s->ev; }
    } else {
      for (int j = 0; j < 3 && x->k[j]; j++) ok &= x->k[j]->evok;
      if (ok) x->ev = evalOp(x->op, x->w, x->aux, x->k[0]->ev, x->k[0]->w, x->k[1] ? x->k[1]->ev : 0, x->k[1] ? x->k[1]->w : 0, x->k[2] ? x->k[2]->ev : 0);
    }
    x->evok = ok; x->epoch = EC.curEpoch; st.pop_back();
  }
  return e->evok;
}
static bool evalExpr(EP e, const Model& m, u128& out) { EC.curEpoch++; if (!evalRec(e, m)) return false; out = e->ev; return true; }
