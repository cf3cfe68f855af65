// Models of external functions, LLVM intrinsics and the sx_* harness API.
#pragma once
#define B(n) BI[n] = [](CallCtx & c)
#define BP(n, ...) BIP.push_back({n, [__VA_ARGS__](CallCtx & c)
static unsigned argw(CallCtx& c, int i = 0) { return c.t[i]->leaves[0].w; }
static void lanes(CallCtx& c, int nargs, std::function<EP(EP, EP, EP, unsigned)> fn) {
  size_t n = c.t[0]->leaves.size(); unsigned w = argw(c);
  for (size_t i = 0; i < n; i++) { EP a = toE(c.a[i], w), b = nargs > 1 ? toE(c.a[n + i], c.t[1]->leaves[0].w) : nullptr, d = nargs > 2 ? toE(c.a[2 * n + i], c.t[2]->leaves[0].w) : nullptr; c.ret[i] = fromE(fn(a, b, d, w)); }
}
static void bulkCopy(CallCtx& c) {
  uint64_t n = conc(c.s, c.a[2]); if (!n) return;
  V d = c.a[0], sr = c.a[1];
  if ((d.e || sr.e) && n <= 16) { // symbolic address, small: via load/store
    std::vector<V> t; for (uint64_t i = 0; i < n;) { unsigned k = n - i >= 8 ? 8 : 1; t.push_back(memLoad(c.s, sr, i, k, k * 8)); i += k; }
    size_t j = 0; for (uint64_t i = 0; i < n;) { unsigned k = n - i >= 8 ? 8 : 1; memStore(c.s, d, i, k, k * 8, t[j++]); i += k; } return;
  }
  uint64_t dp = conc(c.s, d), sp = conc(c.s, sr); memCopy(c.s, dp, sp, n);
}
static EP bytesEq(State& s, uint64_t a, uint64_t b, uint64_t n) {
  Obj* x = rd(s, a, n); Obj* y = rd(s, b, n); EP r = mkc(1, 1); for (uint64_t i = 0; i < n; i++) r = mk2(E_AND, r, mk2(E_EQ, byteE(x, a - x->base + i), byteE(y, b - y->base + i))); return r;
}
static void ovf(CallCtx& c, int k, bool sgn) {
  unsigned w = argw(c); V a = c.a[0], b = c.a[1];
  if (!a.e && !b.e && w <= 64) {
    u128 r; bool o; if (sgn) { s128 x = sx64(a.c, w), y = sx64(b.c, w), z = k == 0 ? x + y : k == 1 ? x - y : x * y; r = (u128)z & maskw(w); o = sx128(r, w) != z; } else { u128 x = a.c, y = b.c, z = k == 0 ? x + y : k == 1 ? x - y : x * y; r = z & maskw(w); o = k == 1 ? x < y : z != r; }
    c.ret[0] = vc((uint64_t)r); c.ret[1] = vc(o); return;
  }
  EP x = toE(a, w), y = toE(b, w); EOp op = k == 0 ? E_ADD : k == 1 ? E_SUB : E_MUL; EP r = mk2(op, x, y); EP o;
  { // known ranges
    s128 al, ah, bl, bh; rng(x, al, ah); rng(y, bl, bh);
    if (w <= 64 && (sgn || (al >= 0 && bl >= 0))) {
      s128 p[4] = {0, 0, 0, 0}; bool ok = true;
      if (k == 0) { p[0] = al + bl; p[1] = p[2] = p[3] = ah + bh; } else if (k == 1) { p[0] = al - bh; p[1] = p[2] = p[3] = ah - bl; }
      else { int n = 0; for (s128 u : {al, ah}) for (s128 v : {bl, bh}) ok &= !__builtin_mul_overflow(u, v, &p[n++]); }
      s128 lo = std::min(std::min(p[0], p[1]), std::min(p[2], p[3])), hi = std::max(std::max(p[0], p[1]), std::max(p[2], p[3]));
      s128 fl = sgn ? -((s128)1 << (w - 1)) : 0, fh = sgn ? ((s128)1 << (w - 1)) - 1 : (s128)maskw(w);
      if (ok && lo >= fl && hi <= fh) { c.ret[0] = fromE(r); c.ret[1] = vc(0); return; }
    }
  }
  if (k == 0) o = sgn ? nullptr : mk2(E_ULT, r, x); else if (k == 1) o = sgn ? nullptr : mk2(E_ULT, x, y);
  if (k < 2 && sgn) { // overflow by sign analysis
    EP z = mkc(0, w); EP sxn = mk2(E_SLT, x, z), syn = mk2(E_SLT, y, z), srn = mk2(E_SLT, r, z);
    if (k == 0) o = mk2(E_AND, mkNot(mk2(E_XOR, sxn, syn)), mk2(E_XOR, sxn, srn)); else o = mk2(E_AND, mk2(E_XOR, sxn, syn), mk2(E_XOR, sxn, srn));
  }
  if (k == 2) {
    auto srcw = [](EP e) { return (e->op == E_SEXT || e->op == E_ZEXT) ? (unsigned)e->k[0]->w + (e->op == E_ZEXT) : (unsigned)e->w; };
    EP cst = isC(y) ? y : isC(x) ? x : nullptr; EP var = isC(y) ? x : y;
    if (cst && !sgn) { o = cst->val == 0 ? mkc(0, 1) : mk2(E_ULT, mkc(maskw(w) / cst->val, w), var); }
    else if (cst && sgn && sx128(cst->val, w) > 0) { s128 kk = sx128(cst->val, w); s128 mx = (s128)maskw(w - 1) / kk, mn = (-(s128)maskw(w - 1) - 1) / kk; o = mk2(E_OR, mk2(E_SLT, mkc((u128)mx, w), var), mk2(E_SLT, var, mkc((u128)mn, w))); }
    else if (cst && sgn && sx128(cst->val, w) == 0) o = mkc(0, 1);
    else if (cst && sgn) { s128 kk = sx128(cst->val, w), mx = (s128)maskw(w - 1), mn = -mx - 1; o = kk == -1 ? mk2(E_EQ, var, mkc((u128)mn & maskw(w), w)) : mk2(E_OR, mk2(E_SLT, var, mkc((u128)(mx / kk) & maskw(w), w)), mk2(E_SLT, mkc((u128)(mn / kk) & maskw(w), w), var)); }
    else if (w > 64 && srcw(x) + srcw(y) <= w) o = mkc(0, 1);
    else if (w > 64) throw Inconclusive("128-bit symbolic mul overflow");
    else { unsigned ww = 2 * w; EP xx = sgn ? mkSext(x, ww) : mkZext(x, ww), yy = sgn ? mkSext(y, ww) : mkZext(y, ww); EP p = mk2(E_MUL, xx, yy); EP back = sgn ? mkSext(mkExtract(p, 0, w), ww) : mkZext(mkExtract(p, 0, w), ww); o = mkNot(mk2(E_EQ, p, back)); r = mkExtract(p, 0, w); }
  }
  c.ret[0] = fromE(r); c.ret[1] = fromE(o);
}
static void satur(CallCtx& c, bool add, bool sgn) {
  lanes(c, 2, [=](EP a, EP b, EP, unsigned w) -> EP {
    if (w <= 64) { s128 al, ah, bl, bh; rng(a, al, ah); rng(b, bl, bh); s128 lo = add ? al + bl : al - bh, hi = add ? ah + bh : ah - bl; s128 fl = sgn ? -((s128)1 << (w - 1)) : 0, fh = sgn ? ((s128)1 << (w - 1)) - 1 : (s128)maskw(w);
      if ((sgn || (al >= 0 && bl >= 0)) && lo >= fl && hi <= fh) return mk2(add ? E_ADD : E_SUB, a, b); }
    if (!sgn) { if (add) { EP r = mk2(E_ADD, a, b); return mkIte(mk2(E_ULT, r, a), mkc(maskw(w), w), r); } return mkIte(mk2(E_ULT, a, b), mkc(0, w), mk2(E_SUB, a, b)); }
    EP x = mkSext(a, w + 1), y = mkSext(b, w + 1); EP r = mk2(add ? E_ADD : E_SUB, x, y); EP mx = mkc(maskw(w - 1), w + 1), mn = mkc((u128)(-((s128)1 << (w - 1))), w + 1);
    return mkIte(mk2(E_SLT, mx, r), mkc(maskw(w - 1), w), mkIte(mk2(E_SLT, r, mn), mkc((u128)1 << (w - 1), w), mkExtract(r, 0, w))); });
}
static void initBuiltins() {
  // --- harness API
  B("sx_sym") {
    uint64_t p = conc(c.s, c.a[0]), n = conc(c.s, c.a[1]); Obj* o = wrO(c.s, p, n); uint64_t off = p - o->base;
    while (n) { unsigned k = (n == 1 || n == 2 || n == 4 || n == 8) ? (unsigned)n : n > 8 ? 8 : 1; uint32_t v = c.s.nvars++; c.s.in.push_back({v, (uint8_t)k}); storeAt(o, off, k, k * 8, V{0, mkvar(v, k * 8)}); off += k; n -= k; }
  };
  B("sx_assume") {
    V v = c.a[0]; EP e = toE(v, argw(c)); if (e->w > 1) e = mkNot(mk2(E_EQ, e, mkc(0, e->w)));
    if (isC(e)) { if (!e->val) { assumeKilled++; throw Killed{}; } return; }
    if (quick(c.s, e) == 1) return;
    if (evalM(c.s, e)) { addC(c.s, e); return; }
    Model m; if (!S->query(c.s.pc, e, c.s.m, m)) { assumeKilled++; throw Killed{}; } addC(c.s, e); c.s.m = m;
  };
  B("sx_check") {
    uint32_t id = (uint32_t)conc(c.s, c.a[1]); checks[id]++; EP e = toE(c.a[0], argw(c)); if (e->w > 1) e = mkNot(mk2(E_EQ, e, mkc(0, e->w)));
    if (isC(e)) { nChecksConst++; if (!e->val) { report(c.s, c.s.m, "check", "assertion " + std::to_string(id) + " fails", id); throw Killed{}; } return; }
    nChecksSolved++; Model m; if (S->query(c.s.pc, mkNot(e), c.s.m, m)) { report(c.s, m, "check", "assertion " + std::to_string(id) + " fails", id); Model m2; if (!S->query(c.s.pc, e, c.s.m, m2)) throw Killed{}; c.s.m = m2; addC(c.s, e); }
  };
  B("sx_fork") { c.ret[0] = vc(conc(c.s, c.a[0])); };
  B("sx_observe") { c.s.obs.push_back(c.a[0]); };
  B("sx_cover") { covers[(uint32_t)conc(c.s, c.a[0])]++; };
  B("sx_pick") { c.ret[0] = vc(CFG.pick); };
  B("sx_allow_panic") { c.s.allowPanic = conc(c.s, c.a[0]) & 1; };
  B("sx_real_fmt") { c.s.realFmt = conc(c.s, c.a[0]) & 1; };
  B("sx_touch") { uint64_t p = conc(c.s, c.a[0]), n = conc(c.s, c.a[1]); if (n) rd(c.s, p, n); };
  B("sx_is_native") { c.ret[0] = vc(0); };
  // --- memory
  B("malloc") { c.ret[0] = vc(heapAlloc(c.s, conc(c.s, c.a[0]), 16, false)); };
  B("calloc") { uint64_t a = conc(c.s, c.a[0]), b = conc(c.s, c.a[1]); c.ret[0] = vc(heapAlloc(c.s, a * b, 16, true)); };
  B("posix_memalign") { uint64_t n = conc(c.s, c.a[2]); uint64_t al = conc(c.s, c.a[1]); uint64_t p = heapAlloc(c.s, n, al, false); if (!p) { c.ret[0] = vc(12); return; } memStore(c.s, c.a[0], 0, 8, 64, vc(p)); };
  B("aligned_alloc") { c.ret[0] = vc(heapAlloc(c.s, conc(c.s, c.a[1]), conc(c.s, c.a[0]), false)); };
  B("free") { heapFree(c.s, conc(c.s, c.a[0])); };
  B("realloc") { uint64_t p = conc(c.s, c.a[0]), n = conc(c.s, c.a[1]); uint64_t q = heapAlloc(c.s, n, 16, false); if (p && q) { Obj* o = lookup(c.s, p, 0, false, nullptr, nullptr); if (!o || o->base != p) violate(c.s, "memory", "invalid realloc"); memCopy(c.s, q, p, std::min(n, o->size)); heapFree(c.s, p); } c.ret[0] = vc(q); };
  BI["memcpy"] = BI["memmove"] = [](CallCtx& c) { c.ret[0] = c.a[0]; bulkCopy(c); };
  BIP.push_back({"llvm.memcpy", bulkCopy}); BIP.push_back({"llvm.memmove", bulkCopy});
  auto ms = [](CallCtx& c) { uint64_t n = conc(c.s, c.a[2]); if (!n) return; uint64_t p = conc(c.s, c.a[0]); Obj* o = wrO(c.s, p, n); uint64_t off = p - o->base; V v = c.a[1]; if (v.e) v = fromE(mkExtract(v.e, 0, 8)); if (v.e) for (uint64_t i = 0; i < n; i++) storeAt(o, off + i, 1, 8, v); else { memset(&o->d[off], (int)(v.c & 255), n); if (!o->s.empty()) for (uint64_t i = 0; i < n; i++) o->s[off + i].e = nullptr; } };
  BIP.push_back({"llvm.memset", ms}); BI["memset"] = [ms](CallCtx& c) { c.ret[0] = c.a[0]; ms(c); };
  B("bcmp") { uint64_t n = conc(c.s, c.a[2]); if (!n) return; uint64_t a = conc(c.s, c.a[0]), b = conc(c.s, c.a[1]); c.ret[0] = fromE(mkIte(bytesEq(c.s, a, b, n), mkc(0, 32), mkc(1, 32))); };
  B("memcmp") { uint64_t n = conc(c.s, c.a[2]); if (!n) return; uint64_t a = conc(c.s, c.a[0]), b = conc(c.s, c.a[1]); Obj* x = rd(c.s, a, n); Obj* y = rd(c.s, b, n); EP r = mkc(0, 32); for (uint64_t i = n; i-- > 0;) { EP p = mkZext(byteE(x, a - x->base + i), 32), q = mkZext(byteE(y, b - y->base + i), 32); r = mkIte(mk2(E_EQ, p, q), r, mk2(E_SUB, p, q)); } c.ret[0] = fromE(r); };
  B("strlen") { uint64_t a = conc(c.s, c.a[0]); uint64_t n = 0; for (;;) { V v = memLoad(c.s, vc(a), n, 1, 8); uint64_t x = conc(c.s, v); if (!x) break; n++; } c.ret[0] = vc(n); };
  // --- environment
  for (auto* n : {"getenv", "pthread_attr_destroy", "pthread_key_delete", "pthread_setspecific", "__cxa_thread_atexit_impl", "sigaction", "sigaltstack", "signal", "close", "poll", "munmap", "mprotect", "sched_yield", "pthread_getspecific"}) BI[n] = [](CallCtx& c) { c.ret[0] = vc(0); };
  B("pthread_key_create") { memStore(c.s, c.a[0], 0, 4, 32, vc(1)); };
  B("pthread_self") { c.ret[0] = vc(1); }; B("gettid") { c.ret[0] = vc(1); }; B("sysconf") { c.ret[0] = vc(4096); }; B("getauxval") { c.ret[0] = vc(0); };
  B("abort") { std::vector<V> none; panicNow(c.s, "abort", none); };
  B("write") { c.ret[0] = c.a[2]; };
  auto fillR = [](CallCtx& c, uint64_t p, uint64_t n) { for (uint64_t i = 0; i < n; i++) memStore(c.s, vc(p), i, 1, 8, vc((c.s.randCtr++ * 37 + 11) & 255)); };
  BI["syscall"] = [fillR](CallCtx& c) { uint64_t nr = conc(c.s, c.a[0]); if (nr == 318) { uint64_t n = conc(c.s, c.a[2]); fillR(c, conc(c.s, c.a[1]), n); c.ret[0] = vc(n); } else if (nr == 186) c.ret[0] = vc(1); else c.ret[0] = vc(~0ull); };
  BI["getrandom"] = [fillR](CallCtx& c) { uint64_t n = conc(c.s, c.a[1]); fillR(c, conc(c.s, c.a[0]), n); c.ret[0] = vc(n); };
  B("__errno_location") { static uint64_t dummy = 0; (void)dummy; Module::Cur k{nullptr, nullptr}; static Global* g = nullptr; if (!g) { g = new Global(); g->name = "errno"; M.globNext = (M.globNext + 15) / 16 * 16; g->addr = M.globNext; M.globNext += 64; auto o = std::make_shared<Obj>(); o->base = g->addr; o->size = 4; o->d.assign(4, 0); g->obj = o; g->idx = M.globTab.size(); M.globTab.push_back(g); } c.ret[0] = vc(g->addr); };
  // --- intrinsics
  for (auto* n : {"llvm.lifetime", "llvm.assume", "llvm.experimental.noalias", "llvm.dbg", "llvm.invariant", "llvm.x86.sse2.pause", "llvm.donothing", "llvm.prefetch", "llvm.sideeffect"}) BIP.push_back({n, [](CallCtx&) {}});
  BP("llvm.threadlocal.address", ) { c.ret[0] = c.a[0]; }});
  BP("llvm.expect", ) { c.ret[0] = c.a[0]; }});
  BP("llvm.launder", ) { c.ret[0] = c.a[0]; }}); BP("llvm.strip", ) { c.ret[0] = c.a[0]; }});
  BP("llvm.is.constant", ) { c.ret[0] = vc(0); }});
  BP("llvm.objectsize", ) { c.ret[0] = vc(~0ull); }});
  BP("llvm.ptrmask", ) { c.ret[0] = binop(c.s, E_AND, 64, c.a[0], c.a[1]); }});
  BP("llvm.trap", ) { std::vector<V> none; panicNow(c.s, "trap", none); }}); BP("llvm.debugtrap", ) { std::vector<V> none; panicNow(c.s, "trap", none); }});
  BP("llvm.x86.xgetbv", ) { c.ret[0] = vc(0); }});
  for (int k = 0; k < 3; k++) { static const char* nm[] = {"add", "sub", "mul"}; BIP.push_back({std::string("llvm.u") + nm[k] + ".with.overflow", [k](CallCtx& c) { ovf(c, k, false); }}); BIP.push_back({std::string("llvm.s") + nm[k] + ".with.overflow", [k](CallCtx& c) { ovf(c, k, true); }}); }
  BP("llvm.uadd.sat", ) { satur(c, true, false); }}); BP("llvm.usub.sat", ) { satur(c, false, false); }}); BP("llvm.sadd.sat", ) { satur(c, true, true); }}); BP("llvm.ssub.sat", ) { satur(c, false, true); }});
  BP("llvm.umax", ) { lanes(c, 2, [](EP a, EP b, EP, unsigned) { return mkIte(mk2(E_ULT, a, b), b, a); }); }}); BP("llvm.umin", ) { lanes(c, 2, [](EP a, EP b, EP, unsigned) { return mkIte(mk2(E_ULT, a, b), a, b); }); }});
  BP("llvm.smax", ) { lanes(c, 2, [](EP a, EP b, EP, unsigned) { return mkIte(mk2(E_SLT, a, b), b, a); }); }}); BP("llvm.smin", ) { lanes(c, 2, [](EP a, EP b, EP, unsigned) { return mkIte(mk2(E_SLT, a, b), a, b); }); }});
  BP("llvm.abs.", ) { size_t n = c.t[0]->leaves.size(); unsigned w = argw(c); for (size_t i = 0; i < n; i++) { EP a = toE(c.a[i], w); c.ret[i] = fromE(mkIte(mk2(E_SLT, a, mkc(0, w)), mk2(E_SUB, mkc(0, w), a), a)); } }});
  BP("llvm.ucmp", ) { unsigned w = argw(c); EP a = toE(c.a[0], w), b = toE(c.a[1], w); c.ret[0] = fromE(mkIte(mk2(E_ULT, a, b), mkc(maskw(c.rw), c.rw), mkIte(mk2(E_EQ, a, b), mkc(0, c.rw), mkc(1, c.rw)))); }});
  BP("llvm.scmp", ) { unsigned w = argw(c); EP a = toE(c.a[0], w), b = toE(c.a[1], w); c.ret[0] = fromE(mkIte(mk2(E_SLT, a, b), mkc(maskw(c.rw), c.rw), mkIte(mk2(E_EQ, a, b), mkc(0, c.rw), mkc(1, c.rw)))); }});
  BP("llvm.ctpop", ) { lanes(c, 1, [](EP a, EP, EP, unsigned w) { if (isC(a)) return mkc(__builtin_popcountll((uint64_t)a->val) + (w > 64 ? __builtin_popcountll((uint64_t)(a->val >> 64)) : 0), w); return popcountE(a, w); }); }});
  BP("llvm.ctlz", ) { size_t n = c.t[0]->leaves.size(); unsigned w = argw(c); for (size_t i = 0; i < n; i++) c.ret[i] = fromE(clzE(toE(c.a[i], w), w)); }});
  BP("llvm.cttz", ) { size_t n = c.t[0]->leaves.size(); unsigned w = argw(c); for (size_t i = 0; i < n; i++) c.ret[i] = fromE(ctzE(toE(c.a[i], w), w)); }});
  BP("llvm.bswap", ) { lanes(c, 1, [](EP a, EP, EP, unsigned w) { EP r = nullptr; for (unsigned i = 0; i < w; i += 8) { EP b = mkExtract(a, i, 8); r = r ? mkConcat(r, b) : b; } return r; }); }});
  BP("llvm.bitreverse", ) { lanes(c, 1, [](EP a, EP, EP, unsigned w) { EP r = nullptr; for (unsigned i = 0; i < w; i++) { EP b = mkExtract(a, i, 1); r = r ? mkConcat(r, b) : b; } return r; }); }});
  BP("llvm.fshl", ) { lanes(c, 3, [](EP a, EP b, EP n, unsigned w) { EP m = mk2(E_UREM, n, mkc(w, w)); if (w > 64 && !isC(m)) throw Inconclusive("fshl128"); EP r = mk2(E_OR, mk2(E_SHL, a, m), mkIte(mk2(E_EQ, m, mkc(0, w)), mkc(0, w), mk2(E_LSHR, b, mk2(E_SUB, mkc(w, w), m)))); return r; }); }});
  BP("llvm.fshr", ) { lanes(c, 3, [](EP a, EP b, EP n, unsigned w) { EP m = mk2(E_UREM, n, mkc(w, w)); EP r = mk2(E_OR, mk2(E_LSHR, b, m), mkIte(mk2(E_EQ, m, mkc(0, w)), mkc(0, w), mk2(E_SHL, a, mk2(E_SUB, mkc(w, w), m)))); return r; }); }});
  BP("llvm.fptosi.sat", ) { size_t n = c.t[0]->leaves.size(); for (size_t i = 0; i < n; i++) c.ret[i] = fromE(mk1f(E_FPTOSI, toE(c.a[i], argw(c)), c.rw)); }});
  BP("llvm.fptoui.sat", ) { size_t n = c.t[0]->leaves.size(); for (size_t i = 0; i < n; i++) c.ret[i] = fromE(mk1f(E_FPTOUI, toE(c.a[i], argw(c)), c.rw)); }});
  BP("llvm.fabs", ) { lanes(c, 1, [](EP a, EP, EP, unsigned w) { return mk2(E_AND, a, mkc(maskw(w - 1), w)); }); }});
  BP("llvm.copysign", ) { lanes(c, 2, [](EP a, EP b, EP, unsigned w) { return mk2(E_OR, mk2(E_AND, a, mkc(maskw(w - 1), w)), mk2(E_AND, b, mkc((u128)1 << (w - 1), w))); }); }});
  BP("llvm.floor", ) { lanes(c, 1, [](EP a, EP, EP, unsigned w) { return mk1f(E_FRND, a, w, 3); }); }}); BP("llvm.ceil", ) { lanes(c, 1, [](EP a, EP, EP, unsigned w) { return mk1f(E_FRND, a, w, 2); }); }}); BP("llvm.trunc", ) { lanes(c, 1, [](EP a, EP, EP, unsigned w) { return mk1f(E_FRND, a, w, 4); }); }});
  BP("llvm.roundeven", ) { lanes(c, 1, [](EP a, EP, EP, unsigned w) { return mk1f(E_FRND, a, w, 0); }); }}); BP("llvm.rint", ) { lanes(c, 1, [](EP a, EP, EP, unsigned w) { return mk1f(E_FRND, a, w, 0); }); }}); BP("llvm.nearbyint", ) { lanes(c, 1, [](EP a, EP, EP, unsigned w) { return mk1f(E_FRND, a, w, 0); }); }}); BP("llvm.round.", ) { lanes(c, 1, [](EP a, EP, EP, unsigned w) { return mk1f(E_FRND, a, w, 1); }); }});
  BP("llvm.sqrt", ) { lanes(c, 1, [](EP a, EP, EP, unsigned w) { return mk1f(E_FSQRT, a, w); }); }});
  BP("llvm.fma.", ) { lanes(c, 3, [](EP a, EP b, EP d, unsigned w) { if (isC(a) && isC(b) && isC(d)) return fold(E_FFMA, w, 0, a, b, d); return raw(E_FFMA, w, a, b, d, 0, 0); }); }});
  BP("llvm.fmuladd", ) { lanes(c, 3, [](EP a, EP b, EP d, unsigned) { return mk2(E_FADD, mk2(E_FMUL, a, b), d); }); }});
  BP("llvm.minimumnum", ) { lanes(c, 2, [](EP a, EP b, EP, unsigned) { return minmaxnum(a, b, false, false); }); }}); BP("llvm.maximumnum", ) { lanes(c, 2, [](EP a, EP b, EP, unsigned) { return minmaxnum(a, b, true, false); }); }});
  BP("llvm.minnum", ) { lanes(c, 2, [](EP a, EP b, EP, unsigned) { return minmaxnum(a, b, false, false); }); }}); BP("llvm.maxnum", ) { lanes(c, 2, [](EP a, EP b, EP, unsigned) { return minmaxnum(a, b, true, false); }); }});
  BP("llvm.minimum.", ) { lanes(c, 2, [](EP a, EP b, EP, unsigned) { return minmaxnum(a, b, false, true); }); }}); BP("llvm.maximum.", ) { lanes(c, 2, [](EP a, EP b, EP, unsigned) { return minmaxnum(a, b, true, true); }); }});
  BP("llvm.is.fpclass", ) { unsigned w = argw(c); EP a = toE(c.a[0], w); uint64_t mask = conc(c.s, c.a[1]); unsigned mb = w == 64 ? 52 : 23, eb = w - 1 - mb; EP ex = mkExtract(a, mb, eb), mt = mkExtract(a, 0, mb), sg = mkExtract(a, w - 1, 1), q = mkExtract(a, mb - 1, 1); EP e1 = mk2(E_EQ, ex, mkc(maskw(eb), eb)), e0 = mk2(E_EQ, ex, mkc(0, eb)), m0 = mk2(E_EQ, mt, mkc(0, mb)); auto A = [](EP x, EP y) { return mk2(E_AND, x, y); }; EP pos = mkNot(sg);
      EP nan = A(e1, mkNot(m0)), inf = A(e1, m0), zero = A(e0, m0), sub = A(e0, mkNot(m0)), nor = A(mkNot(e1), mkNot(e0)); EP r = mkc(0, 1); EP cls[10] = {A(nan, mkNot(q)), A(nan, q), A(inf, sg), A(nor, sg), A(sub, sg), A(zero, sg), A(zero, pos), A(sub, pos), A(nor, pos), A(inf, pos)}; for (int i = 0; i < 10; i++) if (mask >> i & 1) r = mk2(E_OR, r, cls[i]); c.ret[0] = fromE(r); }});
  BP("llvm.powi", ) { unsigned w = argw(c); EP a = toE(c.a[0], w); EP n = toE(c.a[1], 32); if (isC(a) && isC(n)) { double r = pow(asD(a->val, w), (double)(int32_t)n->val); c.ret[0] = vc((uint64_t)(w == 64 ? of_d(r) : of_f((float)r))); } else c.ret[0] = fromE(mkUF("powi", w, a, n)); }});
  BP("llvm.ldexp", ) { unsigned w = argw(c); EP a = toE(c.a[0], w); EP n = toE(c.a[1], 32); if (isC(a) && isC(n)) { double r = ldexp(asD(a->val, w), (int32_t)n->val); c.ret[0] = vc((uint64_t)(w == 64 ? of_d(r) : of_f((float)r))); } else c.ret[0] = fromE(mkUF("ldexp", w, a, n)); }});
  for (auto& p : LM1) { std::string n = p.first; auto f = [n](CallCtx& c) { lanes(c, 1, [n](EP a, EP, EP, unsigned) { return libm1(n, a); }); }; BI[n] = f; BI[n + "f"] = f; BIP.push_back({"llvm." + n + ".", f}); }
  for (auto& p : LM2) { std::string n = p.first; auto f = [n](CallCtx& c) { lanes(c, 2, [n](EP a, EP b, EP, unsigned) { return libm2(n, a, b); }); }; BI[n] = f; BI[n + "f"] = f; BIP.push_back({"llvm." + n + ".", f}); }
  // vector reductions
  auto red = [](const char* nm, std::function<EP(EP, EP)> fn) { BIP.push_back({nm, [fn](CallCtx& c) { size_t n = c.t[0]->leaves.size(); unsigned w = argw(c); EP r = toE(c.a[0], w); for (size_t i = 1; i < n; i++) r = fn(r, toE(c.a[i], w)); c.ret[0] = fromE(r); }}); };
  red("llvm.vector.reduce.add", [](EP a, EP b) { return mk2(E_ADD, a, b); }); red("llvm.vector.reduce.or", [](EP a, EP b) { return mk2(E_OR, a, b); }); red("llvm.vector.reduce.and", [](EP a, EP b) { return mk2(E_AND, a, b); }); red("llvm.vector.reduce.xor", [](EP a, EP b) { return mk2(E_XOR, a, b); }); red("llvm.vector.reduce.mul", [](EP a, EP b) { return mk2(E_MUL, a, b); });
  red("llvm.vector.reduce.umax", [](EP a, EP b) { return mkIte(mk2(E_ULT, a, b), b, a); }); red("llvm.vector.reduce.umin", [](EP a, EP b) { return mkIte(mk2(E_ULT, a, b), a, b); }); red("llvm.vector.reduce.smax", [](EP a, EP b) { return mkIte(mk2(E_SLT, a, b), b, a); }); red("llvm.vector.reduce.smin", [](EP a, EP b) { return mkIte(mk2(E_SLT, a, b), a, b); });
}
