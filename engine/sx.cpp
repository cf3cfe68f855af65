// sx: symbolic executor for rustc-generated LLVM IR (KLEE style), see ../DESIGN.md
#include "ir.h"
#include <cinttypes>
#include <csignal>

static Module M; static Solver* S;
struct Cfg { double timeLimit = 600; uint64_t maxSteps = 2000000000ull, maxPathSteps = 200000000ull; size_t maxPaths = 200000, maxViol = 12, maxTraces = 24; uint64_t pick = 0; bool verbose = false; std::string out; } CFG;

struct Frame { Func* f; int blk, ip, prev; std::vector<V> r; size_t stkMark; uint64_t stkNext; Inst* callI; };
struct Input { uint32_t var; uint8_t n; };
struct State {
  std::vector<Frame> fr; std::vector<ObjP> heap, stk; std::vector<std::pair<int, ObjP>> gov; // overlay of written globals
  uint64_t heapNext = HEAP_BASE, stkNext = STK_BASE; std::vector<EP> pc; std::unordered_set<EP> pcSet; Model m; std::vector<Input> in; uint32_t nvars = 0;
  std::vector<V> obs; uint64_t steps = 0; bool realFmt = false; bool allowPanic = false; uint64_t panicTag = 0; int lastHeap = 0; uint32_t depth = 0; bool uf = false;
  uint64_t randCtr = 0;
};
#include <set>
struct Viol { std::string kind, msg, where; std::vector<uint8_t> input; uint32_t id; };
struct Killed {}; struct PathDone {};
static std::vector<std::unique_ptr<State>> work;
static std::vector<Viol> viols; static std::map<uint32_t, uint64_t> checks, covers; static std::map<std::string, uint64_t> panicsAllowed;
struct Trace { std::vector<uint8_t> in; std::vector<uint64_t> obs; bool panicked; };
static std::vector<Trace> traces; static uint64_t nPaths = 0, nForks = 0, totSteps = 0, nChecksConst = 0, nChecksSolved = 0, nMemSym = 0, nConcretized = 0, assumeKilled = 0; static double tStart;
static std::vector<std::string> warnings;
static uint64_t traceEvery = 1;

static inline EP toE(const V& v, unsigned w) { return v.e ? v.e : mkc(v.c, w); }
static inline V fromE(EP e) { if (isC(e) && e->w <= 64) return vc((uint64_t)e->val); return V{0, e}; }
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

static std::string demangleHint(const std::string& n) { return n; }
static std::string stackStr(State& s) { std::string r; int k = 0; for (int i = (int)s.fr.size() - 1; i >= 0 && k < 12; i--, k++) { if (k) r += " < "; r += demangleHint(s.fr[i].f->name); } return r; }
static std::vector<uint8_t> inputBytes(State& s, const Model& m) { std::vector<uint8_t> o; for (auto& i : s.in) { u128 v = m.get(i.var); for (int k = 0; k < i.n; k++) { o.push_back((uint8_t)v); v >>= 8; } } return o; }
static bool violFull = false;
static void report(State& s, const Model& m, const std::string& kind, const std::string& msg, uint32_t id) {
  for (auto& v : viols) if (v.kind == kind && v.id == id && (kind == "check" || v.msg == msg)) return;
  viols.push_back({kind, msg, stackStr(s), inputBytes(s, m), id});
  if (viols.size() >= CFG.maxViol) violFull = true;
}
[[noreturn]] static void violate(State& s, const std::string& kind, const std::string& msg, uint32_t id = 0) { report(s, s.m, kind, msg, id); throw Killed{}; }

static void addC(State& s, EP c) { if (isC(c)) return; if (c->op == E_AND && c->w == 1) { addC(s, c->k[0]); addC(s, c->k[1]); return; } if (s.pcSet.insert(c).second) s.pc.push_back(c); }
static u128 evalM(State& s, EP e) { u128 v; evalExpr(e, s.m, v); return v; }
// known by membership
static int quick(State& s, EP c) { if (isC(c)) return c->val ? 1 : 0; if (s.pcSet.count(c)) return 1; if (s.pcSet.count(mkNot(c))) return 0; return -1; }

static State* forkState(State& s) {
  nForks++; auto n = std::make_unique<State>(s); n->depth++; State* r = n.get(); work.push_back(std::move(n)); return r;
}
// decide a symbolic boolean for this state, forking when both are feasible. The fork re-executes the current instruction.
static bool decide(State& s, EP c) {
  int q = quick(s, c); if (q >= 0) return q;
  bool side = evalM(s, c) != 0; EP nc = mkNot(c); EP other = side ? nc : c;
  Model om; int r = S->query(s.pc, other, s.m, om);
  if (r) { State* n = forkState(s); addC(*n, other); n->m = om; addC(s, side ? c : nc); }
  return side;
}
static uint64_t concretize(State& s, EP e) { // forks over all feasible values
  if (isC(e)) return (uint64_t)e->val;
  uint64_t v = (uint64_t)evalM(s, e); EP eq = mk2(E_EQ, e, mkc(v, e->w));
  int q = quick(s, eq); if (q == 1) return v;
  Model om; nConcretized++;
  if (S->query(s.pc, mkNot(eq), s.m, om)) { State* n = forkState(s); addC(*n, mkNot(eq)); n->m = om; addC(s, eq); }
  return v;
}
static uint64_t conc(State& s, const V& v) { return v.e ? concretize(s, v.e) : v.c; }

// ---- memory -----------------------------------------------------------------
static Obj* lookup(State& s, uint64_t a, uint64_t n, bool write, ObjP** slot, int* gidx) {
  if (slot) *slot = nullptr;
  std::vector<ObjP>* v = nullptr;
  if (a >= STK_BASE) v = &s.stk; else if (a >= HEAP_BASE) v = &s.heap;
  if (v) {
    size_t lo = 0, hi = v->size(); while (lo < hi) { size_t mid = (lo + hi) / 2; if ((*v)[mid]->base <= a) lo = mid + 1; else hi = mid; }
    if (!lo) return nullptr; ObjP& o = (*v)[lo - 1]; if (a - o->base > o->size || o->size - (a - o->base) < n) return nullptr; if (slot) *slot = &o; return o.get();
  }
  if (a >= GL_BASE) {
    auto& t = M.globTab; size_t lo = 0, hi = t.size(); while (lo < hi) { size_t mid = (lo + hi) / 2; if (t[mid]->addr <= a) lo = mid + 1; else hi = mid; }
    if (!lo) return nullptr; Global* g = t[lo - 1]; Obj* o = g->obj.get(); if (a - o->base > o->size || o->size - (a - o->base) < n) return nullptr;
    if (!g->constant) { for (auto& p : s.gov) if (p.first == g->idx) { if (slot) *slot = &p.second; return p.second.get(); } if (write) { s.gov.push_back({g->idx, g->obj}); if (slot) *slot = &s.gov.back().second; return s.gov.back().second.get(); } }
    return o;
  }
  return nullptr;
}
static std::string hx(uint64_t v) { char b[32]; snprintf(b, 32, "0x%" PRIx64, v); return b; }
[[noreturn]] static void memErr(State& s, uint64_t a, uint64_t n, const char* what) {
  std::string d; ObjP* sl; Obj* o = nullptr; for (int64_t k = 0; k <= 64 && !o; k++) { o = lookup(s, a - k, 0, false, &sl, nullptr); if (!o) o = lookup(s, a + k, 0, false, &sl, nullptr); }
  d = std::string(what) + " of " + std::to_string(n) + " bytes at " + hx(a); if (o) d += " (nearest object base " + hx(o->base) + " size " + std::to_string(o->size) + ")";
  // stable message (addresses are deterministic per path but keep them out of the key)
  std::string key = std::string("out-of-bounds ") + what + (o ? " relative to object of " + std::to_string(o->size) + " bytes at offset " + std::to_string((int64_t)(a - o->base)) : (a < 4096 ? " near null" : " unmapped"));
  violate(s, "memory", key);
}
static Obj* rd(State& s, uint64_t a, uint64_t n) { Obj* o = lookup(s, a, n, false, nullptr, nullptr); if (!o) memErr(s, a, n, "read"); return o; }
static Obj* wrO(State& s, uint64_t a, uint64_t n) {
  ObjP* sl; Obj* o = lookup(s, a, n, true, &sl, nullptr); if (!o) memErr(s, a, n, "write"); if (o->ro) memErr(s, a, n, "write to constant");
  if (sl->use_count() > 1) { *sl = std::make_shared<Obj>(*o); o = sl->get(); }
  return o;
}
static EP byteE(Obj* o, uint64_t i) { if (!o->s.empty() && o->s[i].e) { EP e = o->s[i].e; return mkExtract(e, o->s[i].off * 8, 8); } return mkc(o->d[i], 8); }
static V loadAt(Obj* o, uint64_t off, unsigned n, unsigned w) {
  bool sym = false; if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i].e) { sym = true; break; }
  if (!sym) { if (n <= 8) { uint64_t v = 0; memcpy(&v, o->d.data() + off, n); return vc(v & m64(w)); } u128 v = 0; memcpy(&v, o->d.data() + off, n); return V{0, mkc(v, w)}; }
  EP e = o->s[off].e;
  if (e && o->s[off].off == 0 && e->w == n * 8) { bool all = true; for (unsigned i = 1; i < n; i++) if (o->s[off + i].e != e || o->s[off + i].off != i) { all = false; break; } if (all) return fromE(mkExtract(e, 0, w)); }
  EP r = nullptr; for (unsigned i = 0; i < n; i++) { EP b = byteE(o, off + i); r = r ? mkConcat(b, r) : b; }
  return fromE(mkExtract(r, 0, w));
}
static void storeAt(Obj* o, uint64_t off, unsigned n, unsigned w, const V& v) {
  if (!v.e || isC(v.e)) { u128 x = v.e ? v.e->val : v.c; memcpy(o->d.data() + off, &x, n); if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i].e = nullptr; return; }
  if (o->s.empty()) o->s.assign(o->size, SB{nullptr, 0});
  EP e = v.e->w == n * 8 ? v.e : mkZext(v.e, n * 8);
  if (isC(e)) { u128 x = e->val; memcpy(o->d.data() + off, &x, n); return; }
  for (unsigned i = 0; i < n; i++) o->s[off + i] = SB{e, (uint8_t)i};
}
static unsigned tzE(EP e, int d = 0) {
  if (d > 12) return 0;
  switch (e->op) { case E_CONST: return e->val ? __builtin_ctzll((uint64_t)e->val ? (uint64_t)e->val : 1ull << 63) : 64; case E_ADD: case E_SUB: case E_OR: return std::min(tzE(e->k[0], d + 1), tzE(e->k[1], d + 1)); case E_AND: return std::max(tzE(e->k[0], d + 1), tzE(e->k[1], d + 1)); case E_MUL: return std::min(64u, tzE(e->k[0], d + 1) + tzE(e->k[1], d + 1));
    case E_SHL: return isC(e->k[1]) ? std::min(64u, tzE(e->k[0], d + 1) + (unsigned)e->k[1]->val) : tzE(e->k[0], d + 1); case E_ITE: return std::min(tzE(e->k[1], d + 1), tzE(e->k[2], d + 1)); case E_ZEXT: case E_SEXT: return tzE(e->k[0], d + 1); case E_CONCAT: { unsigned t = tzE(e->k[1], d + 1); return t >= e->k[1]->w ? e->k[1]->w : t; } default: return 0; }
}
// constrain a symbolic address into one object; other objects / out of bounds get their own state
static Obj* symObj(State& s, EP a, unsigned n, bool write, uint64_t& base) {
  nMemSym++;
  uint64_t v = (uint64_t)evalM(s, a); Obj* o = lookup(s, v, n, write, nullptr, nullptr);
  if (!o) memErr(s, v, n, write ? "write" : "read");
  EP inside = mk2(E_ULE, mk2(E_SUB, a, mkc(o->base, 64)), mkc(o->size - n, 64));
  int q = quick(s, inside); if (q == 1) { base = o->base; return o; }
  Model om; if (!isC(inside) && S->query(s.pc, mkNot(inside), s.m, om)) { State* ns = forkState(s); addC(*ns, mkNot(inside)); ns->m = om; addC(s, inside); }
  base = o->base; return o;
}
static V memLoad(State& s, const V& addr, uint64_t off, unsigned n, unsigned w) {
  if (!addr.e) { uint64_t a = addr.c + off; Obj* o = rd(s, a, n); return loadAt(o, a - o->base, n, w); }
  EP a = off ? mk2(E_ADD, addr.e, mkc(off, 64)) : addr.e;
  if (isC(a)) { Obj* o = rd(s, (uint64_t)a->val, n); return loadAt(o, (uint64_t)a->val - o->base, n, w); }
  uint64_t base; Obj* o = symObj(s, a, n, false, base);
  EP d = mk2(E_SUB, a, mkc(base, 64)); uint64_t stride = 1ull << std::min(4u, std::min(tzE(d), 4u)); 
  uint64_t cnt = (o->size - n) / stride + 1;
  if (cnt > 600) { uint64_t c = concretize(s, a); o = rd(s, c, n); return loadAt(o, c - o->base, n, w); }
  EP r = nullptr; V prev{}; 
  for (uint64_t i = cnt; i-- > 0;) { uint64_t of = i * stride; EP x = toE(loadAt(o, of, n, w), w); r = r ? mkIte(mk2(E_EQ, d, mkc(of, 64)), x, r) : x; }
  (void)prev; return fromE(r);
}
static void memStore(State& s, const V& addr, uint64_t off, unsigned n, unsigned w, const V& v) {
  EP a = nullptr; if (addr.e) { a = off ? mk2(E_ADD, addr.e, mkc(off, 64)) : addr.e; }
  if (!a || isC(a)) { uint64_t ad = a ? (uint64_t)a->val : addr.c + off; Obj* o = wrO(s, ad, n); storeAt(o, ad - o->base, n, w, v); return; }
  uint64_t base; Obj* o = symObj(s, a, n, true, base);
  EP d = mk2(E_SUB, a, mkc(base, 64)); uint64_t stride = 1ull << std::min(tzE(d), 4u); uint64_t cnt = (o->size - n) / stride + 1;
  if (cnt > 200) { uint64_t c = concretize(s, a); o = wrO(s, c, n); storeAt(o, c - o->base, n, w, v); return; }
  o = wrO(s, base, 0);
  if (stride < n) { // overlapping candidates: byte-wise
    EP ve = mkZext(toE(v, w), n * 8); std::vector<EP> nb(o->size, nullptr);
    for (uint64_t j = 0; j < o->size; j++) { EP cur = byteE(o, j); for (unsigned k = 0; k < n; k++) { if (j < k) continue; uint64_t of = j - k; if (of % stride || of + n > o->size) continue; cur = mkIte(mk2(E_EQ, d, mkc(of, 64)), mkExtract(ve, k * 8, 8), cur); } nb[j] = cur; }
    for (uint64_t j = 0; j < o->size; j++) storeAt(o, j, 1, 8, fromE(nb[j]));
    return;
  }
  EP ve = mkZext(toE(v, w), n * 8);
  for (uint64_t i = 0; i < cnt; i++) { uint64_t of = i * stride; EP old = toE(loadAt(o, of, n, n * 8), n * 8); storeAt(o, of, n, n * 8, fromE(mkIte(mk2(E_EQ, d, mkc(of, 64)), ve, old))); }
}
static uint64_t heapAlloc(State& s, uint64_t n, uint64_t al, bool zero) {
  if (n > (1ull << 28)) return 0;
  if (al < 16) al = 16; uint64_t b = (s.heapNext + 32 + al - 1) / al * al; s.heapNext = b + n; auto o = std::make_shared<Obj>(); o->base = b; o->size = n; o->kind = 1; o->d.assign(n, zero ? 0 : 0xAA); s.heap.push_back(o); return b;
}
static void heapFree(State& s, uint64_t a) {
  if (!a) return; size_t lo = 0, hi = s.heap.size(); while (lo < hi) { size_t mid = (lo + hi) / 2; if (s.heap[mid]->base < a) lo = mid + 1; else hi = mid; }
  if (lo >= s.heap.size() || s.heap[lo]->base != a) violate(s, "memory", "invalid or double free"); s.heap.erase(s.heap.begin() + lo);
}
static void memCopy(State& s, uint64_t d, uint64_t sr, uint64_t n) {
  if (!n) return; Obj* so = rd(s, sr, n); ObjP hold; uint64_t soff = sr - so->base;
  std::vector<uint8_t> tmp(so->d.begin() + soff, so->d.begin() + soff + n); std::vector<SB> ts; bool sym = false;
  if (!so->s.empty()) { for (uint64_t i = 0; i < n; i++) if (so->s[soff + i].e) { sym = true; break; } if (sym) ts.assign(so->s.begin() + soff, so->s.begin() + soff + n); }
  Obj* o = wrO(s, d, n); uint64_t doff = d - o->base; memcpy(o->d.data() + doff, tmp.data(), n);
  if (sym) { if (o->s.empty()) o->s.assign(o->size, SB{nullptr, 0}); std::copy(ts.begin(), ts.end(), o->s.begin() + doff); } else if (!o->s.empty()) for (uint64_t i = 0; i < n; i++) o->s[doff + i].e = nullptr;
}
// resolve a possibly symbolic pointer for bulk operations
static uint64_t cptr(State& s, const V& v) { return conc(s, v); }

// ---- scalar ops ---------------------------------------------------------------
static V binop(State& s, EOp op, unsigned w, const V& a, const V& b) {
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c, m = m64(w);
    switch (op) {
      case E_ADD: return vc((x + y) & m); case E_SUB: return vc((x - y) & m); case E_MUL: return vc((x * y) & m);
      case E_AND: return vc(x & y); case E_OR: return vc(x | y); case E_XOR: return vc(x ^ y);
      case E_SHL: return vc(y >= w ? 0 : (x << y) & m); case E_LSHR: return vc(y >= w ? 0 : x >> y); case E_ASHR: return vc((uint64_t)(sx64(x, w) >> (y >= w ? w - 1 : y)) & m);
      case E_UDIV: if (!y) violate(s, "ub", "division by zero"); return vc(x / y); case E_UREM: if (!y) violate(s, "ub", "division by zero"); return vc(x % y);
      case E_SDIV: if (!y) violate(s, "ub", "division by zero"); return vc((uint64_t)(y == m ? -x : (uint64_t)(sx64(x, w) / sx64(y, w))) & m);
      case E_SREM: if (!y) violate(s, "ub", "division by zero"); return vc(y == m ? 0 : (uint64_t)(sx64(x, w) % sx64(y, w)) & m);
      default: break;
    }
  }
  return fromE(mk2(op, toE(a, w), toE(b, w)));
}
static V icmp(int p, unsigned w, const V& a, const V& b) {
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c; int64_t sx = sx64(x, w), sy = sx64(y, w);
    switch (p) { case P_EQ: return vc(x == y); case P_NE: return vc(x != y); case P_UGT: return vc(x > y); case P_UGE: return vc(x >= y); case P_ULT: return vc(x < y); case P_ULE: return vc(x <= y); case P_SGT: return vc(sx > sy); case P_SGE: return vc(sx >= sy); case P_SLT: return vc(sx < sy); default: return vc(sx <= sy); }
  }
  EP x = toE(a, w), y = toE(b, w);
  switch (p) { case P_EQ: return fromE(mk2(E_EQ, x, y)); case P_NE: return fromE(mkNot(mk2(E_EQ, x, y))); case P_UGT: return fromE(mk2(E_ULT, y, x)); case P_UGE: return fromE(mk2(E_ULE, y, x)); case P_ULT: return fromE(mk2(E_ULT, x, y)); case P_ULE: return fromE(mk2(E_ULE, x, y)); case P_SGT: return fromE(mk2(E_SLT, y, x)); case P_SGE: return fromE(mk2(E_SLE, y, x)); case P_SLT: return fromE(mk2(E_SLT, x, y)); default: return fromE(mk2(E_SLE, x, y)); }
}
static EP isnan_(EP a) { return mk1f(E_FISNAN, a, 1); }
static EP fcmpE(int p, EP x, EP y) {
  auto OR = [](EP a, EP b) { return mk2(E_OR, a, b); }; auto AND = [](EP a, EP b) { return mk2(E_AND, a, b); };
  switch (p) {
    case F_FALSE: return mkc(0, 1); case F_TRUE: return mkc(1, 1); case F_OEQ: return mk2(E_FEQ, x, y); case F_UNE: return mkNot(mk2(E_FEQ, x, y)); case F_OLT: return mk2(E_FLT, x, y); case F_OLE: return mk2(E_FLE, x, y); case F_OGT: return mk2(E_FLT, y, x); case F_OGE: return mk2(E_FLE, y, x);
    case F_ORD: return x == y ? mkNot(isnan_(x)) : AND(mkNot(isnan_(x)), mkNot(isnan_(y))); case F_UNO: return x == y ? isnan_(x) : OR(isnan_(x), isnan_(y)); case F_ONE: return AND(AND(mkNot(isnan_(x)), mkNot(isnan_(y))), mkNot(mk2(E_FEQ, x, y))); case F_UEQ: return OR(OR(isnan_(x), isnan_(y)), mk2(E_FEQ, x, y));
    case F_ULT: return mkNot(mk2(E_FLE, y, x)); case F_ULE: return mkNot(mk2(E_FLT, y, x)); case F_UGT: return mkNot(mk2(E_FLE, x, y)); default: return mkNot(mk2(E_FLT, x, y));
  }
}
static V castop(int k, unsigned w, unsigned w2, bool, const V& a) {
  switch (k) {
    case C_TRUNC: if (!a.e) return vc(a.c & m64(w2)); return fromE(mkExtract(a.e, 0, w2));
    case C_ZEXT: if (!a.e && w2 <= 64) return a; return fromE(mkZext(toE(a, w), w2));
    case C_SEXT: if (!a.e && w2 <= 64) return vc((uint64_t)sx64(a.c, w) & m64(w2)); return fromE(mkSext(toE(a, w), w2));
    case C_FPTRUNC: return fromE(mk1f(E_FPTRUNC, toE(a, w), w2)); case C_FPEXT: return fromE(mk1f(E_FPEXT, toE(a, w), w2));
    case C_FPTOUI: return fromE(mk1f(E_FPTOUI, toE(a, w), w2)); case C_FPTOSI: return fromE(mk1f(E_FPTOSI, toE(a, w), w2));
    case C_UITOFP: return fromE(mk1f(E_UITOFP, toE(a, w), w2)); case C_SITOFP: return fromE(mk1f(E_SITOFP, toE(a, w), w2));
    case C_PTRINT: if (w == w2) return a; if (w2 < w) return fromE(mkExtract(toE(a, w), 0, w2)); return fromE(mkZext(toE(a, w), w2));
    default: return a;
  }
}
static V iteV(State&, EP c, const V& a, const V& b, unsigned w) { if (!a.e && !b.e && a.c == b.c && w <= 64) return a; return fromE(mkIte(c, toE(a, w), toE(b, w))); }

// ---- libm -----------------------------------------------------------------------
static const std::map<std::string, double (*)(double)> LM1 = {{"sin", sin}, {"cos", cos}, {"tan", tan}, {"asin", asin}, {"acos", acos}, {"atan", atan}, {"sinh", sinh}, {"cosh", cosh}, {"tanh", tanh}, {"asinh", asinh}, {"acosh", acosh}, {"atanh", atanh}, {"exp", exp}, {"exp2", exp2}, {"expm1", expm1}, {"log", log}, {"log2", log2}, {"log10", log10}, {"log1p", log1p}, {"cbrt", cbrt}, {"tgamma", tgamma}, {"lgamma", lgamma}, {"erf", erf}, {"erfc", erfc}};
static const std::map<std::string, float (*)(float)> LM1F = {{"sin", sinf}, {"cos", cosf}, {"tan", tanf}, {"asin", asinf}, {"acos", acosf}, {"atan", atanf}, {"sinh", sinhf}, {"cosh", coshf}, {"tanh", tanhf}, {"asinh", asinhf}, {"acosh", acoshf}, {"atanh", atanhf}, {"exp", expf}, {"exp2", exp2f}, {"expm1", expm1f}, {"log", logf}, {"log2", log2f}, {"log10", log10f}, {"log1p", log1pf}, {"cbrt", cbrtf}};
static const std::map<std::string, double (*)(double, double)> LM2 = {{"pow", pow}, {"atan2", atan2}, {"hypot", hypot}, {"fmod", fmod}, {"fdim", fdim}, {"nextafter", nextafter}};
static const std::map<std::string, float (*)(float, float)> LM2F = {{"pow", powf}, {"atan2", atan2f}, {"hypot", hypotf}, {"fmod", fmodf}, {"fdim", fdimf}, {"nextafter", nextafterf}};

static EP libm1(const std::string& n, EP a) { if (isC(a)) { if (a->w == 64) { auto it = LM1.find(n); if (it != LM1.end()) return mkc(of_d(it->second(d_of(a->val))), 64); } else { auto it = LM1F.find(n); if (it != LM1F.end()) return mkc(of_f(it->second(f_of(a->val))), 32); } } return mkUF(n, a->w, a, nullptr); }
static EP libm2(const std::string& n, EP a, EP b) { if (isC(a) && isC(b)) { if (a->w == 64) { auto it = LM2.find(n); if (it != LM2.end()) return mkc(of_d(it->second(d_of(a->val), d_of(b->val))), 64); } else { auto it = LM2F.find(n); if (it != LM2F.end()) return mkc(of_f(it->second(f_of(a->val), f_of(b->val))), 32); } } return mkUF(n, a->w, a, b); }
static EP minmaxnum(EP a, EP b, bool mx, bool nanProp) {
  unsigned w = a->w; EP lt = mx ? mk2(E_FLT, b, a) : mk2(E_FLT, a, b); EP eq = mk2(E_FEQ, a, b); EP z = mk2(mx ? E_AND : E_OR, a, b); // equal values: only ±0 differ in bits
  EP core = mkIte(eq, z, mkIte(lt, a, b));
  EP na = isnan_(a), nb = isnan_(b); EP qn = mkc(w == 64 ? (u128)0x7ff8000000000000ull : (u128)0x7fc00000, w);
  if (nanProp) return mkIte(mk2(E_OR, na, nb), qn, core);
  return mkIte(na, b, mkIte(nb, a, core));
}
static EP popcountE(EP a, unsigned w) { EP r = mkc(0, w); for (unsigned i = 0; i < w; i++) r = mk2(E_ADD, r, mkZext(mkExtract(a, i, 1), w)); return r; }
static EP clzE(EP a, unsigned w) { EP r = mkc(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a, i, 1), mkc(w - 1 - i, w), r); return r; }
static EP ctzE(EP a, unsigned w) { EP r = mkc(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(a, i, 1), mkc(i, w), r); return r; }

// ---- calls ----------------------------------------------------------------------
struct CallCtx { State& s; Inst& I; std::vector<V>& a; std::vector<Type*>& t; V* ret; unsigned rw; };
typedef std::function<void(CallCtx&)> BFn;
static std::unordered_map<std::string, BFn> BI; static std::vector<std::pair<std::string, BFn>> BIP; // exact, prefix
static std::vector<BFn*> biTab; static std::unordered_map<std::string, int> biIdx;

static bool isPanicName(const std::string& n) {
  static const char* pats[] = {"4core9panicking", "6option13unwrap_failed", "6option13expect_failed", "6result13unwrap_failed", "5slice5index16slice_index_fail", "slice_start_index", "slice_end_index", "slice_index_order", "13raw_vec12handle_error", "17capacity_overflow", "18handle_alloc_error", "16slice_error_fail", "3std9panicking", "rust_begin_unwind", "len_mismatch_fail", "copy_from_slice_impl", "4cell22panic_already", "4cell30panic_already", "panic_nounwind", "4core3str16slice_error", "assert_failed", "9swap_remove13assert_failed", "6remove13assert_failed", "panic_display", "4cell16panic", "panic_const"};
  for (auto* p : pats) if (n.find(p) != std::string::npos) { if (n.find("drop_in_place") != std::string::npos || n.find("panic_count") != std::string::npos || n.find("LocalKey") != std::string::npos || n.find("18local_panic_count") != std::string::npos) return false; return true; }
  return false;
}
static std::string locStr(State& s, const V& v) {
  if (v.e || v.c < GL_BASE || v.c >= HEAP_BASE) return "";
  Obj* o = lookup(s, v.c, 24, false, nullptr, nullptr); if (!o) return ""; uint64_t off = v.c - o->base; uint64_t p, l; uint32_t line, col; memcpy(&p, &o->d[off], 8); memcpy(&l, &o->d[off + 8], 8); memcpy(&line, &o->d[off + 16], 4); memcpy(&col, &o->d[off + 20], 4);
  if (l > 400 || line > 1000000) return ""; Obj* q = lookup(s, p, l, false, nullptr, nullptr); if (!q) return ""; return std::string((char*)&q->d[p - q->base], l) + ":" + std::to_string(line);
}
[[noreturn]] static void panicNow(State& s, const std::string& fn, std::vector<V>& args) {
  std::string loc; for (int i = (int)args.size() - 1; i >= 0 && loc.empty(); i--) loc = locStr(s, args[i]);
  std::string msg; if (args.size() >= 2 && !args[0].e && !args[1].e && args[1].c < 200 && args[0].c >= GL_BASE && args[0].c < HEAP_BASE) { Obj* o = lookup(s, args[0].c, args[1].c, false, nullptr, nullptr); if (o) { msg = std::string((char*)&o->d[args[0].c - o->base], args[1].c); for (char& ch : msg) if ((unsigned char)ch < 32 || (unsigned char)ch > 126) { msg.clear(); break; } } }
  std::string text = "panic at " + (loc.empty() ? "?" : loc) + " " + msg + " [" + fn + "]";
  if (s.allowPanic) { panicsAllowed[loc]++; throw PathDone{}; }
  violate(s, "panic", text);
}

static void writeBack(State& s, Frame& f, Inst& I, V* vals, size_t n) { (void)s; if (I.dst >= 0) for (size_t i = 0; i < n; i++) f.r[I.dst + i] = vals[i]; }

static void jump(State& s, Frame& f, int b) {
  Block& B = f.f->blocks[b]; f.prev = f.blk; f.blk = b; f.ip = 0;
  if (B.phis.empty()) return;
  static std::vector<V> tmp; tmp.clear();
  for (auto& p : B.phis) { int o = 0; bool ok = false; for (auto& in : p.in) if (in.first == f.prev) { o = in.second; ok = true; break; } if (!ok) throw Inconclusive("phi without predecessor"); size_t n = p.ty->leaves.size(); for (size_t i = 0; i < n; i++) tmp.push_back(o >= 0 ? f.r[o + i] : f.f->pool[~o + i]); }
  size_t k = 0; for (auto& p : B.phis) { size_t n = p.ty->leaves.size(); for (size_t i = 0; i < n; i++) f.r[p.dst + i] = tmp[k++]; }
}
static void pushFrame(State& s, Func* f, std::vector<V>& args, Inst* callI) {
  if (!f->decoded) M.decode(f);
  if (s.fr.size() > 2000) throw Inconclusive("call depth");
  s.fr.emplace_back(); Frame& n = s.fr.back(); n.f = f; n.blk = 0; n.ip = 0; n.prev = -1; n.r.assign(f->nslots, V{0, nullptr}); n.stkMark = s.stk.size(); n.stkNext = s.stkNext; n.callI = callI;
  size_t k = 0; for (size_t i = 0; i < f->pt.size(); i++) { size_t c = f->pt[i]->leaves.size(); for (size_t j = 0; j < c && k < args.size(); j++) n.r[f->pslot[i] + j] = args[k++]; }
}
static void initBuiltins();
static int findBuiltin(const std::string& n) {
  auto it = biIdx.find(n); if (it != biIdx.end()) return it->second;
  BFn* f = nullptr; auto e = BI.find(n); if (e != BI.end()) f = &e->second; else for (auto& p : BIP) if (n.compare(0, p.first.size(), p.first) == 0) { f = &p.second; break; }
  int id = -1; if (f) { id = biTab.size(); biTab.push_back(f); } biIdx[n] = id; return id;
}

static void doCall(State& s, Frame& f, Inst& I) {
  CallInfo& ci = *I.ci;
  static std::vector<V> args; args.clear(); std::vector<V> localArgs;
  auto get = [&](int o, size_t i) -> V { return o >= 0 ? f.r[o + i] : f.f->pool[~o + i]; };
  for (size_t i = 0; i < ci.args.size(); i++) { size_t n = ci.at[i]->k == Type::Meta ? 0 : ci.at[i]->leaves.size(); for (size_t j = 0; j < n; j++) args.push_back(get(ci.args[i], j)); }
  if (ci.isAsm) {
    if (I.dst >= 0) for (size_t i = 0; i < ci.rt->leaves.size(); i++) f.r[I.dst + i] = vc(0);
    if (ci.normal >= 0) jump(s, f, ci.normal); else f.ip++; return;
  }
  Func* cal = ci.f;
  if (ci.indirect) { uint64_t a = conc(s, get(ci.calleeOp, 0)); if (a < FN_BASE || a >= FN_BASE + 16 * M.funcByAddr.size() || a % 16) violate(s, "memory", "call through invalid function pointer"); cal = M.funcByAddr[(a - FN_BASE) / 16]; }
  static std::unordered_map<Func*, int> kindCache; // 0 normal 1 panic 2 builtin
  auto kc = kindCache.find(cal); int kind; 
  if (kc == kindCache.end()) { kind = isPanicName(cal->name) ? 1 : (findBuiltin(cal->name) >= 0 ? 2 : (cal->name.find("5alloc3fmt6format12format_inner") != std::string::npos ? 3 : 0)); kindCache[cal] = kind; } else kind = kc->second;
  if (kind == 1) { std::vector<V> a2 = args; panicNow(s, cal->name, a2); }
  if (kind == 2) {
    std::vector<V> a2 = args; V ret[16]; for (auto& r : ret) r = vc(0); CallCtx c{s, I, a2, ci.at, ret, ci.rt->leaves.empty() ? 0u : ci.rt->leaves[0].w};
    (*biTab[findBuiltin(cal->name)])(c);
    Frame& f2 = s.fr.back(); size_t n = ci.rt->leaves.size(); if (n > 16) throw Inconclusive("builtin ret"); if (I.dst >= 0) for (size_t i = 0; i < n; i++) f2.r[I.dst + i] = ret[i];
    if (ci.normal >= 0) jump(s, f2, ci.normal); else f2.ip++; return;
  }
  if (kind == 3 && !s.realFmt) { memStore(s, args[0], 0, 8, 64, vc(0)); memStore(s, args[0], 8, 8, 64, vc(1)); memStore(s, args[0], 16, 8, 64, vc(0)); Frame& f2 = s.fr.back(); if (ci.normal >= 0) jump(s, f2, ci.normal); else f2.ip++; return; } // error-message text is not part of any property
  if (!cal->defined) throw Inconclusive("call to unmodelled external function " + cal->name);
  std::vector<V> a2 = args; pushFrame(s, cal, a2, &I);
}

static void doRet(State& s, Frame& f, Inst& I) {
  size_t n = I.ty->leaves.size(); std::vector<V> rv; if (I.ty->k != Type::Void) for (size_t i = 0; i < n; i++) rv.push_back(I.a >= 0 ? f.r[I.a + i] : f.f->pool[~I.a + i]);
  s.stk.resize(f.stkMark); s.stkNext = f.stkNext; Inst* ci = f.callI; s.fr.pop_back();
  if (s.fr.empty()) throw PathDone{};
  Frame& p = s.fr.back(); if (ci->dst >= 0) for (size_t i = 0; i < rv.size(); i++) p.r[ci->dst + i] = rv[i];
  if (ci->ci->normal >= 0) jump(s, p, ci->ci->normal); else p.ip++;
}

static void runPath(State& s) {
  for (;;) {
    Frame& f = s.fr.back(); Block& B = f.f->blocks[f.blk]; Inst& I = B.ins[f.ip]; V* R = f.r.data(); V* K = f.f->pool.data();
#define OP(o, i) ((o) >= 0 ? R[(o) + (i)] : K[~(o) + (i)])
    s.steps++; f.f->steps++;
    if ((++totSteps & 0xfff) == 0) { if (nowS() - tStart > CFG.timeLimit) throw Inconclusive("time limit"); if (totSteps > CFG.maxSteps) throw Inconclusive("step limit"); if (s.steps > CFG.maxPathSteps) throw Inconclusive("path step limit (possible non-termination)"); }
    switch (I.op) {
      case I_BIN: { size_t n = I.ty->leaves.size(); unsigned w = I.ty->leaves[0].w;
        if (I.sub == E_UDIV || I.sub == E_SDIV || I.sub == E_UREM || I.sub == E_SREM) for (size_t i = 0; i < n; i++) { V d = OP(I.b, i); if (d.e && !isC(d.e)) { EP z = mk2(E_EQ, d.e, mkc(0, w)); if (decide(s, z)) violate(s, "ub", "division by zero"); } }
        for (size_t i = 0; i < n; i++) { V r = binop(s, (EOp)I.sub, w, OP(I.a, i), OP(I.b, i)); R[I.dst + i] = r; } f.ip++; break; }
      case I_FBIN: { size_t n = I.ty->leaves.size(); unsigned w = I.ty->leaves[0].w; for (size_t i = 0; i < n; i++) { V a = OP(I.a, i), b = OP(I.b, i); if (!a.e && !b.e) R[I.dst + i] = vc((uint64_t)fpbin((EOp)I.sub, a.c, b.c, w)); else R[I.dst + i] = fromE(mk2((EOp)I.sub, toE(a, w), toE(b, w))); } f.ip++; break; }
      case I_FREM: { unsigned w = I.ty->leaves[0].w; R[I.dst] = fromE(libm2("fmod", toE(OP(I.a, 0), w), toE(OP(I.b, 0), w))); f.ip++; break; }
      case I_FNEG: { size_t n = I.ty->leaves.size(); unsigned w = I.ty->leaves[0].w; for (size_t i = 0; i < n; i++) { V a = OP(I.a, i); R[I.dst + i] = fromE(mk2(E_XOR, toE(a, w), mkc((u128)1 << (w - 1), w))); } f.ip++; break; }
      case I_ICMP: { size_t n = I.ty->leaves.size(); unsigned w = I.ty->leaves[0].w; for (size_t i = 0; i < n; i++) { V r = icmp(I.sub, w, OP(I.a, i), OP(I.b, i)); R[I.dst + i] = r; } f.ip++; break; }
      case I_FCMP: { size_t n = I.ty->leaves.size(); unsigned w = I.ty->leaves[0].w; for (size_t i = 0; i < n; i++) { V r = fromE(fcmpE(I.sub, toE(OP(I.a, i), w), toE(OP(I.b, i), w))); R[I.dst + i] = r; } f.ip++; break; }
      case I_LOAD: { V a = OP(I.a, 0); if (I.ty->bitvec) throw Inconclusive("bit vector load"); if (a.e && I.ty->leaves.size() > 1) { a = vc(concretize(s, a.e)); } for (size_t i = 0; i < I.ty->leaves.size(); i++) { auto& l = I.ty->leaves[i]; V r = memLoad(s, a, l.off, (l.w + 7) / 8, l.w); R[I.dst + i] = r; } f.ip++; break; }
      case I_STORE: { V a = OP(I.b, 0); if (I.ty->bitvec) throw Inconclusive("bit vector store"); if (a.e && I.ty->leaves.size() > 1) a = vc(concretize(s, a.e)); for (size_t i = 0; i < I.ty->leaves.size(); i++) { auto& l = I.ty->leaves[i]; memStore(s, a, l.off, (l.w + 7) / 8, l.w, OP(I.a, i)); } f.ip++; break; }
      case I_ALLOCA: { uint64_t n = Module::asz(I.ty); if (I.f) n *= conc(s, OP(I.a, 0)); uint64_t al = std::max<int64_t>(I.imm, 16); uint64_t b = (s.stkNext + 32 + al - 1) / al * al; s.stkNext = b + n; auto o = std::make_shared<Obj>(); o->base = b; o->size = n; o->kind = 2; o->d.assign(n, 0xAA); s.stk.push_back(o); R[I.dst] = vc(b); f.ip++; break; }
      case I_GEP: {
        V b = OP(I.a, 0); bool sym = b.e; uint64_t off = I.imm; for (size_t i = 0; i < I.gi.size(); i++) if (OP(I.gi[i].first, 0).e) sym = true;
        if (!sym) { uint64_t a = b.c + off; for (size_t i = 0; i < I.gi.size(); i++) a += (uint64_t)sx64(OP(I.gi[i].first, 0).c, I.giw[i]) * (uint64_t)I.gi[i].second; R[I.dst] = vc(a); }
        else { EP e = mk2(E_ADD, toE(b, 64), mkc(off, 64)); for (size_t i = 0; i < I.gi.size(); i++) { EP x = toE(OP(I.gi[i].first, 0), I.giw[i]); x = I.giw[i] < 64 ? mkSext(x, 64) : x; e = mk2(E_ADD, e, mk2(E_MUL, x, mkc((u128)(s128)I.gi[i].second, 64))); } R[I.dst] = fromE(e); }
        f.ip++; break; }
      case I_CAST: {
        if (I.sub == C_BITCAST && I.ty->leaves.size() != I.ty2->leaves.size()) {
          // repack through bits
          EP all = nullptr; for (size_t i = 0; i < I.ty->leaves.size(); i++) { EP x = toE(OP(I.a, i), I.ty->leaves[i].w); if (all && all->w + x->w > 128) throw Inconclusive("wide bitcast"); all = all ? mkConcat(x, all) : x; }
          unsigned o = 0; for (size_t i = 0; i < I.ty2->leaves.size(); i++) { unsigned w = I.ty2->leaves[i].w; R[I.dst + i] = fromE(mkExtract(all, o, w)); o += w; }
        } else for (size_t i = 0; i < I.ty2->leaves.size(); i++) { V r = castop(I.sub, I.ty->leaves[i].w, I.ty2->leaves[i].w, false, OP(I.a, i)); R[I.dst + i] = r; }
        f.ip++; break; }
      case I_SELECT: {
        size_t n = I.ty->leaves.size(); bool vec = I.ty2->k == Type::Vec; V c0 = OP(I.a, 0);
        for (size_t i = 0; i < n; i++) { V c = vec ? OP(I.a, i) : c0; V a = OP(I.b, i), b = OP(I.c, i); if (!c.e) R[I.dst + i] = c.c ? a : b; else { int q = quick(s, c.e); R[I.dst + i] = q >= 0 ? (q ? a : b) : iteV(s, c.e, a, b, I.ty->leaves[i].w); } }
        f.ip++; break; }
      case I_BR: jump(s, f, I.t); break;
      case I_CONDBR: { V c = OP(I.a, 0); bool t = c.e ? decide(s, c.e) : c.c & 1; jump(s, f, t ? I.t : I.f); break; }
      case I_SWITCH: { V c = OP(I.a, 0); unsigned w = I.ty->w; int tgt = I.f;
        if (!c.e) { for (auto& k : I.cases) if ((uint64_t)k.first == c.c) { tgt = k.second; break; } }
        else {
          // group by target using the model's value
          u128 v = evalM(s, c.e); tgt = I.f; for (auto& k : I.cases) if (k.first == v) { tgt = k.second; break; }
          EP same = nullptr; for (auto& k : I.cases) { EP eq = mk2(E_EQ, c.e, mkc(k.first, w)); if (tgt == I.f) { if (k.second != tgt) { EP ne = mkNot(eq); same = same ? mk2(E_AND, same, ne) : ne; } } else if (k.second == tgt) same = same ? mk2(E_OR, same, eq) : eq; }
          if (same && !isC(same) && quick(s, same) != 1) { Model om; if (S->query(s.pc, mkNot(same), s.m, om)) { State* n = forkState(s); addC(*n, mkNot(same)); n->m = om; addC(s, same); } }
        }
        jump(s, f, tgt); break; }
      case I_RET: doRet(s, f, I); break;
      case I_UNREACH: violate(s, "ub", "reached unreachable in " + f.f->name);
      case I_CALL: doCall(s, f, I); break;
      case I_EXTRACTV: for (size_t i = 0; i < I.ty->leaves.size(); i++) { V r = OP(I.a, I.imm + i); R[I.dst + i] = r; } f.ip++; break;
      case I_INSERTV: { size_t n = I.ty->leaves.size(), m = I.ty2->leaves.size(); for (size_t i = 0; i < n; i++) { V r = (i >= (size_t)I.imm && i < (size_t)I.imm + m) ? OP(I.b, i - I.imm) : OP(I.a, i); R[I.dst + i] = r; } f.ip++; break; }
      case I_EXTRACTE: { uint64_t ix = conc(s, OP(I.b, 0)); V r = ix < I.ty->leaves.size() ? OP(I.a, ix) : vc(0); R[I.dst] = r; f.ip++; break; }
      case I_INSERTE: { uint64_t ix = conc(s, OP(I.c, 0)); size_t n = I.ty->leaves.size(); for (size_t i = 0; i < n; i++) { V r = i == ix ? OP(I.b, 0) : OP(I.a, i); R[I.dst + i] = r; } f.ip++; break; }
      case I_SHUFFLE: { size_t n = I.ty->leaves.size(); std::vector<V> t; for (int m : I.mask) t.push_back(m < (int)n ? OP(I.a, m) : OP(I.b, m - n)); for (size_t i = 0; i < t.size(); i++) R[I.dst + i] = t[i]; f.ip++; break; }
      case I_COPY: for (size_t i = 0; i < I.ty->leaves.size(); i++) { V r = OP(I.a, i); R[I.dst + i] = r; } f.ip++; break;
      case I_RMW: { unsigned w = I.ty->leaves[0].w; V a = OP(I.a, 0); V old = memLoad(s, a, 0, (w + 7) / 8, w); V v = OP(I.b, 0), nv; if (I.sub == 100) nv = v; else if (I.sub < 64) nv = binop(s, (EOp)I.sub, w, old, v); else { EP x = toE(old, w), y = toE(v, w); EP r; switch (I.sub) { case 101: r = mkIte(mk2(E_ULT, x, y), y, x); break; case 102: r = mkIte(mk2(E_ULT, x, y), x, y); break; case 103: r = mkIte(mk2(E_SLT, x, y), y, x); break; case 104: r = mkIte(mk2(E_SLT, x, y), x, y); break; default: r = mk2(E_XOR, mk2(E_AND, x, y), mkc(maskw(w), w)); } nv = fromE(r); } memStore(s, a, 0, (w + 7) / 8, w, nv); f.r[I.dst] = old; f.ip++; break; }
      case I_CMPXCHG: { unsigned w = I.ty->leaves[0].w; V a = OP(I.a, 0); V old = memLoad(s, a, 0, (w + 7) / 8, w); V eq = icmp(P_EQ, w, old, OP(I.b, 0)); bool t = eq.e ? decide(s, eq.e) : eq.c; if (t) memStore(s, a, 0, (w + 7) / 8, w, OP(I.c, 0)); f.r[I.dst] = old; f.r[I.dst + 1] = vc(t); f.ip++; break; }
      case I_NOP: f.ip++; break;
      default: throw Inconclusive("unsupported instruction in " + f.f->name);
    }
  }
}
#include "builtins.h"

static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static std::string hexs(const std::vector<uint8_t>& b) { static const char* h = "0123456789abcdef"; std::string o; for (auto x : b) { o += h[x >> 4]; o += h[x & 15]; } return o; }
static void finishPath(State& s, bool) {
  nPaths++;
  if (traces.size() < CFG.maxTraces || (nPaths % traceEvery) == 0) {
    Trace t; t.in = inputBytes(s, s.m); t.panicked = false; bool ok = true; EC.curEpoch++;
    for (auto& v : s.obs) { if (!v.e) t.obs.push_back(v.c); else { if (v.e->uf) ok = false; if (!evalRec(v.e, s.m)) ok = false; else t.obs.push_back((uint64_t)v.e->ev); } }
    for (EP c : s.pc) if (c->uf) ok = false;
    if (ok) { if (traces.size() < CFG.maxTraces) traces.push_back(t); else { traces[(nPaths / traceEvery) % CFG.maxTraces] = t; if (nPaths > traceEvery * CFG.maxTraces * 2) traceEvery *= 2; } }
  }
}
int main(int argc, char** argv) {
  std::string ir; 
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); }; if (a == "--pick") CFG.pick = std::stoull(nx()); else if (a == "--time") CFG.timeLimit = std::stod(nx()); else if (a == "--out") CFG.out = nx(); else if (a == "--paths") CFG.maxPaths = std::stoull(nx()); else if (a == "--traces") CFG.maxTraces = std::stoull(nx()); else if (a == "--viol") CFG.maxViol = std::stoull(nx()); else if (a == "-v") CFG.verbose = true; else ir = a; }
  tStart = nowS(); std::string status = "ok", reason;
  try {
    M.load(ir.c_str()); S = new Solver(); S->timeout = std::min(S->timeout, CFG.timeLimit); initBuiltins();
    auto it = M.funcs.find("sx_main"); if (it == M.funcs.end() || !it->second->defined) throw Inconclusive("no main in IR");
    auto st = std::make_unique<State>(); std::vector<V> args{vc(0), vc(0)}; pushFrame(*st, it->second, args, nullptr); work.push_back(std::move(st));
    while (!work.empty() && !violFull) {
      auto s = std::move(work.back()); work.pop_back();
      try { runPath(*s); } catch (PathDone&) { finishPath(*s, true); } catch (Killed&) { nPaths++; }
      if (nPaths > CFG.maxPaths) throw Inconclusive("path limit");
    }
  } catch (Inconclusive& e) { status = "inconclusive"; reason = e.what(); }
  if (!viols.empty()) status = "violation";
  std::string o = "{\n \"status\": " + jstr(status) + ",\n \"reason\": " + jstr(reason) + ",\n";
  auto num = [&](const char* k, double v) { char b[96]; snprintf(b, 96, " \"%s\": %.6g,\n", k, v); o += b; }; auto inum = [&](const char* k, uint64_t v) { char b[96]; snprintf(b, 96, " \"%s\": %" PRIu64 ",\n", k, v); o += b; };
  inum("paths", nPaths); inum("forks", nForks); inum("steps", totSteps); inum("pending", work.size()); inum("queries", S ? S->queries : 0); inum("solver_sat", S ? S->satN : 0); inum("solver_unsat", S ? S->unsatN : 0); inum("cache_hits", S ? S->cacheHits : 0); inum("model_hits", S ? S->modelHits : 0); num("solver_s", S ? S->solverTime : 0); num("max_query_s", S ? S->maxQuery : 0); num("wall_s", nowS() - tStart); inum("checks_trivial", nChecksConst); inum("checks_solved", nChecksSolved); inum("sym_mem", nMemSym); inum("concretizations", nConcretized); inum("assume_killed", assumeKilled); inum("expr_nodes", EC.nodes);
  auto mp = [&](const char* k, std::map<uint32_t, uint64_t>& m) { o += std::string(" \"") + k + "\": {"; bool f = true; for (auto& p : m) { if (!f) o += ", "; f = false; o += "\"" + std::to_string(p.first) + "\": " + std::to_string(p.second); } o += "},\n"; };
  mp("checks", checks); mp("covers", covers);
  o += " \"allowed_panics\": {"; { bool f = true; for (auto& p : panicsAllowed) { if (!f) o += ", "; f = false; o += jstr(p.first) + ": " + std::to_string(p.second); } } o += "},\n";
  o += " \"functions\": ["; { bool f = true; for (auto* fn : M.funcByAddr) if (fn->decoded && fn->steps) { if (!f) o += ", "; f = false; o += jstr(fn->name); } } o += "],\n";
  o += " \"violations\": ["; { bool f = true; for (auto& v : viols) { if (!f) o += ", "; f = false; o += "\n  {\"kind\": " + jstr(v.kind) + ", \"id\": " + std::to_string(v.id) + ", \"msg\": " + jstr(v.msg) + ", \"where\": " + jstr(v.where) + ", \"input\": \"" + hexs(v.input) + "\"}"; } } o += "],\n";
  o += " \"traces\": ["; { bool f = true; for (auto& t : traces) { if (!f) o += ", "; f = false; o += "\n  {\"input\": \"" + hexs(t.in) + "\", \"obs\": ["; for (size_t i = 0; i < t.obs.size(); i++) o += (i ? ", " : "") + std::to_string(t.obs[i]); o += "]}"; } } o += "]\n}\n";
  if (CFG.out.empty()) fputs(o.c_str(), stdout); else { FILE* fo = fopen(CFG.out.c_str(), "w"); fputs(o.c_str(), fo); fclose(fo); }
  fflush(nullptr); _exit(status == "ok" ? 0 : status == "violation" ? 1 : 2);
}
