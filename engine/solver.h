// Z3 back end: translation, query slicing, caching.
#pragma once
#include "expr.h"
#include <chrono>
#include <deque>

static double nowS() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

struct Solver {
  Z3_context ctx; Z3_solver inc = nullptr; size_t incTerms = 0;
  std::unordered_map<EP, Z3_ast> lits; std::unordered_map<Z3_ast, EP> dummy;
  uint64_t queries = 0, cacheHits = 0, modelHits = 0, satN = 0, unsatN = 0, unkN = 0; double solverTime = 0, maxQuery = 0;
  double timeout = 120;   // seconds per query
  std::deque<Model> recent;
  std::unordered_map<uint64_t, std::vector<std::pair<std::vector<EP>, int>>> qcache; // 0 unsat, 1 sat
  std::vector<EP> ufApps;
  std::string lastErr;

  static void onErr(Z3_context c, Z3_error_code e) { throw Inconclusive(std::string("z3: ") + Z3_get_error_msg(c, e)); }
  Solver() {
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg); Z3_set_error_handler(ctx, onErr);
  }
  Z3_ast keep(Z3_ast a) { return a; } // legacy (non-rc) context: asts live with the context
  Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
  Z3_ast bvc(u128 v, unsigned w) {
    char buf[64]; char* p = buf + 63; *p = 0; if (!v) *--p = '0'; while (v) { *--p = '0' + (int)(v % 10); v /= 10; } return Z3_mk_numeral(ctx, p, bv(w));
  }
  Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); }
  Z3_ast rm(unsigned r) { switch (r) { case 0: return Z3_mk_fpa_rne(ctx); case 1: return Z3_mk_fpa_rna(ctx); case 2: return Z3_mk_fpa_rtp(ctx); case 3: return Z3_mk_fpa_rtn(ctx); default: return Z3_mk_fpa_rtz(ctx); } }
  Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(ctx, b, bvc(1, 1), bvc(0, 1)); }
  Z3_ast asBV(EP e) { Z3_ast a = z(e); return e->w == 1 ? b2v(a) : a; }
  bool isFPval(EP e) { return (e->op >= E_FADD && e->op <= E_FFMA) || e->op == E_FRND || e->op == E_SITOFP || e->op == E_UITOFP || e->op == E_FPTRUNC || e->op == E_FPEXT; }
  // floating-point view of an expression
  Z3_ast zf(EP e) {
    if (e->zfp) return e->zfp;
    Z3_ast r;
    switch (e->op) {
      case E_FADD: r = Z3_mk_fpa_add(ctx, rm(0), zf(e->k[0]), zf(e->k[1])); break;
      case E_FSUB: r = Z3_mk_fpa_sub(ctx, rm(0), zf(e->k[0]), zf(e->k[1])); break;
      case E_FMUL: r = Z3_mk_fpa_mul(ctx, rm(0), zf(e->k[0]), zf(e->k[1])); break;
      case E_FDIV: r = Z3_mk_fpa_div(ctx, rm(0), zf(e->k[0]), zf(e->k[1])); break;
      case E_FSQRT: r = Z3_mk_fpa_sqrt(ctx, rm(0), zf(e->k[0])); break;
      case E_FFMA: r = Z3_mk_fpa_fma(ctx, rm(0), zf(e->k[0]), zf(e->k[1]), zf(e->k[2])); break;
      case E_FRND: r = Z3_mk_fpa_round_to_integral(ctx, rm(e->aux), zf(e->k[0])); break;
      case E_SITOFP: r = Z3_mk_fpa_to_fp_signed(ctx, rm(0), asBV(e->k[0]), fps(e->w)); break;
      case E_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(ctx, rm(0), asBV(e->k[0]), fps(e->w)); break;
      case E_FPTRUNC: case E_FPEXT: r = Z3_mk_fpa_to_fp_float(ctx, rm(0), zf(e->k[0]), fps(e->w)); break;
      case E_ITE: if (e->k[1]->fp || e->k[2]->fp) { r = Z3_mk_ite(ctx, z(e->k[0]), zf(e->k[1]), zf(e->k[2])); break; } /* fallthrough */
      default: r = Z3_mk_fpa_to_fp_bv(ctx, asBV(e), fps(e->w));
    }
    e->zfp = r; return r;
  }
  Z3_ast z1(EP e) {
    auto A = [&](int i) { return z(e->k[i]); };
    bool b1 = e->w == 1;
    switch (e->op) {
      case E_CONST: return b1 ? (e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : bvc(e->val, e->w);
      case E_VAR: { Z3_symbol s = Z3_mk_string_symbol(ctx, ("v" + std::to_string(e->aux)).c_str()); return Z3_mk_const(ctx, s, b1 ? Z3_mk_bool_sort(ctx) : bv(e->w)); }
      case E_UF: { Z3_symbol s = Z3_mk_string_symbol(ctx, ("u" + std::to_string(e->id)).c_str()); return Z3_mk_const(ctx, s, b1 ? Z3_mk_bool_sort(ctx) : bv(e->w)); }
      case E_ADD: return b1 ? Z3_mk_xor(ctx, A(0), A(1)) : Z3_mk_bvadd(ctx, A(0), A(1));
      case E_SUB: return b1 ? Z3_mk_xor(ctx, A(0), A(1)) : Z3_mk_bvsub(ctx, A(0), A(1));
      case E_MUL: if (b1) { Z3_ast x[2] = {A(0), A(1)}; return Z3_mk_and(ctx, 2, x); } return Z3_mk_bvmul(ctx, A(0), A(1));
      case E_UDIV: return Z3_mk_bvudiv(ctx, A(0), A(1));
      case E_SDIV: return Z3_mk_bvsdiv(ctx, A(0), A(1));
      case E_UREM: return Z3_mk_bvurem(ctx, A(0), A(1));
      case E_SREM: return Z3_mk_bvsrem(ctx, A(0), A(1));
      case E_AND: { Z3_ast x[2] = {A(0), A(1)}; return b1 ? Z3_mk_and(ctx, 2, x) : Z3_mk_bvand(ctx, x[0], x[1]); }
      case E_OR: { Z3_ast x[2] = {A(0), A(1)}; return b1 ? Z3_mk_or(ctx, 2, x) : Z3_mk_bvor(ctx, x[0], x[1]); }
      case E_XOR: if (b1) { if (isC(e->k[1])) return e->k[1]->val ? Z3_mk_not(ctx, A(0)) : A(0); return Z3_mk_xor(ctx, A(0), A(1)); } return Z3_mk_bvxor(ctx, A(0), A(1));
      case E_SHL: return b1 ? (throw Inconclusive("shl i1"), nullptr) : Z3_mk_bvshl(ctx, A(0), A(1));
      case E_LSHR: return b1 ? (throw Inconclusive("shr i1"), nullptr) : Z3_mk_bvlshr(ctx, A(0), A(1));
      case E_ASHR: return b1 ? (throw Inconclusive("shr i1"), nullptr) : Z3_mk_bvashr(ctx, A(0), A(1));
      case E_EQ: return Z3_mk_eq(ctx, A(0), A(1));
      case E_ULT: return Z3_mk_bvult(ctx, asBV(e->k[0]), asBV(e->k[1]));
      case E_ULE: return Z3_mk_bvule(ctx, asBV(e->k[0]), asBV(e->k[1]));
      case E_SLT: return Z3_mk_bvslt(ctx, asBV(e->k[0]), asBV(e->k[1]));
      case E_SLE: return Z3_mk_bvsle(ctx, asBV(e->k[0]), asBV(e->k[1]));
      case E_ITE: return Z3_mk_ite(ctx, A(0), A(1), A(2));
      case E_CONCAT: return Z3_mk_concat(ctx, asBV(e->k[0]), asBV(e->k[1]));
      case E_EXTRACT: { Z3_ast r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, asBV(e->k[0])); return b1 ? Z3_mk_eq(ctx, r, bvc(1, 1)) : r; }
      case E_ZEXT: if (e->k[0]->w == 1) return Z3_mk_ite(ctx, A(0), bvc(1, e->w), bvc(0, e->w)); return Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, A(0));
      case E_SEXT: if (e->k[0]->w == 1) return Z3_mk_ite(ctx, A(0), bvc(maskw(e->w), e->w), bvc(0, e->w)); return Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, A(0));
      case E_FEQ: return Z3_mk_fpa_eq(ctx, zf(e->k[0]), zf(e->k[1]));
      case E_FLT: return Z3_mk_fpa_lt(ctx, zf(e->k[0]), zf(e->k[1]));
      case E_FLE: return Z3_mk_fpa_leq(ctx, zf(e->k[0]), zf(e->k[1]));
      case E_FISNAN: return Z3_mk_fpa_is_nan(ctx, zf(e->k[0]));
      case E_FPTOSI: case E_FPTOUI: {
        unsigned w = e->w, sw = e->k[0]->w; bool sg = e->op == E_FPTOSI; Z3_ast x = zf(e->k[0]);
        Z3_ast lo = Z3_mk_fpa_numeral_double(ctx, sg ? -ldexp(1.0, w - 1) : 0.0, fps(sw)), hi = Z3_mk_fpa_numeral_double(ctx, sg ? ldexp(1.0, w - 1) : ldexp(1.0, w), fps(sw));
        Z3_ast conv = sg ? Z3_mk_fpa_to_sbv(ctx, rm(4), x, w) : Z3_mk_fpa_to_ubv(ctx, rm(4), x, w);
        Z3_ast r = Z3_mk_ite(ctx, Z3_mk_fpa_geq(ctx, x, hi), bvc(sg ? maskw(w - 1) : maskw(w), w), Z3_mk_ite(ctx, Z3_mk_fpa_leq(ctx, x, lo), bvc(sg ? (u128)1 << (w - 1) : 0, w), conv));
        r = Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, x), bvc(0, w), r); return r; }
      default: return Z3_mk_fpa_to_ieee_bv(ctx, zf(e));
    }
  }
  Z3_ast z(EP e) {
    if (e->zbv) return e->zbv;
    std::vector<EP> st{e};
    while (!st.empty()) {
      EP x = st.back(); if (x->zbv) { st.pop_back(); continue; }
      bool push = false;
      if (x->op != E_UF) for (int i = 0; i < 3 && x->k[i]; i++) if (!x->k[i]->zbv && !(isFPval(x->k[i]) && isFPval(x))) { st.push_back(x->k[i]); push = true; }
      if (push) continue;
      if (x->op == E_UF) { for (int i = 0; i < 3 && x->k[i]; i++) z(x->k[i]); }
      x->zbv = z1(x); st.pop_back();
    }
    return e->zbv;
  }
  static void collectUF(EP e, std::unordered_set<EP>& seen, std::vector<EP>& ufs) {
    std::vector<EP> st{e};
    while (!st.empty()) { EP x = st.back(); st.pop_back(); if (!x->uf || !seen.insert(x).second) continue; if (x->op == E_UF) ufs.push_back(x); for (int i = 0; i < 3 && x->k[i]; i++) st.push_back(x->k[i]); }
  }
  // pc: path constraints, cond: extra. Returns 1 sat (fills m for the sliced vars), 0 unsat
  void slice(const std::vector<EP>& pc, EP cond, std::vector<EP>& out) {
    std::vector<char> in(pc.size(), 0);
    static std::vector<char> vs, vu; vs.assign(vs.size(), 0); vu.assign(vu.size(), 0);
    auto slot = [&](uint32_t v) -> char& { auto& t = v >= (1u << 20) ? vu : vs; uint32_t i = v & ((1u << 20) - 1); if (i >= t.size()) t.resize(i + 64, 0); return t[i]; };
    auto add = [&](EP e) { for (uint32_t v : *e->vars) slot(v) = 1; };
    add(cond); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i]) { for (uint32_t v : *pc[i]->vars) if (slot(v)) { in[i] = 1; add(pc[i]); ch = true; break; } } }
    for (size_t i = 0; i < pc.size(); i++) if (in[i]) out.push_back(pc[i]);
  }
  bool holds(const std::vector<EP>& cs, const Model& m) { EC.curEpoch++; for (EP c : cs) { if (!evalRec(c, m) || !c->ev) return false; } return true; }

  int query(const std::vector<EP>& pc, EP cond, const Model& base, Model& outM) {
    queries++;
    if (isC(cond)) { outM = base; return cond->val != 0; }
    std::vector<EP> q; slice(pc, cond, q); q.push_back(cond);
    // try models
    for (auto& rmod : recent) { if (holds(q, rmod)) { merge(base, rmod, q, outM); modelHits++; satN++; return 1; } }
    std::vector<EP> key(q); std::sort(key.begin(), key.end(), [](EP a, EP b) { return a->id < b->id; }); key.erase(std::unique(key.begin(), key.end()), key.end());
    uint64_t h = 1469598103934665603ull; for (EP e : key) { h ^= e->id; h *= 1099511628211ull; h ^= h >> 29; }
    auto& bk = qcache[h];
    for (auto& p : bk) if (p.first == key && p.second == 0) { cacheHits++; unsatN++; return 0; }
    Model m; int r = tiny(q, m); if (r < 0) r = solve(q, m);
    if (r == 0) bk.push_back({key, 0});
    if (r == 1) { satN++; recent.push_front(m); if (recent.size() > 12) recent.pop_back(); merge(base, m, q, outM); }
    else unsatN++;
    return r;
  }
  void merge(const Model& base, const Model& m, const std::vector<EP>& q, Model& out) {
    Model o = base; for (EP e : q) for (uint32_t v : *e->vars) o.set(v, m.get(v)); out = o;
  }
  // queries over a single choice variable of at most 8 bits are decided by evaluating the formula at all its values
  uint64_t tinyN = 0;
  int tiny(std::vector<EP>& q, Model& m) {
    uint32_t var = 0; bool have = false; for (EP e : q) { if (e->uf) return -1; for (uint32_t v : *e->vars) { if (!have) { var = v; have = true; } else if (v != var) return -1; } }
    if (!have || var >= (1u << 20)) return -1;
    EP ve = nullptr; std::vector<EP> st{q.back()}; std::unordered_set<EP> seen;
    while (!st.empty()) { EP x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (x->op == E_VAR) { ve = x; break; } if (seen.size() > 200) return -1; for (int i = 0; i < 3 && x->k[i]; i++) st.push_back(x->k[i]); }
    if (!ve || ve->w > 8) return -1;
    tinyN++;
    for (unsigned x = 0; x < (1u << ve->w); x++) { m.set(var, x); EC.curEpoch++; bool ok = true; for (EP e : q) { if (!evalRec(e, m)) return -1; if (!e->ev) { ok = false; break; } } if (ok) return 1; }
    return 0;
  }
  int solve(std::vector<EP>& q, Model& m) {
    double t0 = nowS();
    bool fp = false, uf = false; for (EP e : q) { fp |= e->fp; uf |= e->uf; }
    std::vector<EP> ufs; std::vector<Z3_ast> extra;
    if (uf) {
      std::unordered_set<EP> seen; for (EP e : q) collectUF(e, seen, ufs);
      for (size_t i = 0; i < ufs.size(); i++) for (size_t j = i + 1; j < ufs.size(); j++) if (ufs[i]->aux == ufs[j]->aux && ufs[i]->w == ufs[j]->w) {
        std::vector<Z3_ast> eqs; bool bad = false;
        for (int k = 0; k < 3; k++) { EP a = ufs[i]->k[k], b = ufs[j]->k[k]; if (!a && !b) continue; if (!a || !b || a->w != b->w) { bad = true; break; } eqs.push_back(Z3_mk_eq(ctx, z(a), z(b))); }
        if (bad) continue;
        extra.push_back(Z3_mk_implies(ctx, Z3_mk_and(ctx, eqs.size(), eqs.data()), Z3_mk_eq(ctx, z(ufs[i]), z(ufs[j]))));
      }
      for (EP u : ufs) { for (int k = 0; k < 3 && u->k[k]; k++) fp |= u->k[k]->fp; }
    }
    Z3_lbool r; Z3_solver s; bool pushed = false; std::vector<Z3_ast> as;
    auto setTO = [&](Z3_solver sv, double sec) { Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), (unsigned)(sec * 1000)); Z3_solver_set_params(ctx, sv, p); Z3_params_dec_ref(ctx, p); };
    if (!fp && extra.empty()) {
      if (inc && incTerms > 4000) { Z3_solver_dec_ref(ctx, inc); inc = nullptr; lits.clear(); incTerms = 0; }
      if (!inc) { inc = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, inc); setTO(inc, 4); }
      for (EP e : q) {
        auto it = lits.find(e); Z3_ast l;
        if (it == lits.end()) { l = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("l" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(ctx)); Z3_solver_assert(ctx, inc, Z3_mk_implies(ctx, l, z(e))); lits[e] = l; incTerms++; }
        else l = it->second;
        as.push_back(l);
      }
      r = Z3_solver_check_assumptions(ctx, inc, as.size(), as.data()); s = inc;
      if (r == Z3_L_UNDEF) goto full;
    } else {
    full:
      s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, fp ? "QF_FPBV" : "QF_BV")); Z3_solver_inc_ref(ctx, s); setTO(s, timeout);
      for (EP e : q) Z3_solver_assert(ctx, s, z(e));
      for (Z3_ast a : extra) Z3_solver_assert(ctx, s, a);
      pushed = true; r = Z3_solver_check(ctx, s);
    }
    int res = -1;
    if (r == Z3_L_TRUE) {
      Z3_model zm = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, zm);
      std::unordered_map<uint32_t, EP> vars; std::unordered_set<EP> seen; std::vector<EP> st(q.begin(), q.end());
      while (!st.empty()) { EP x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (x->op == E_VAR) vars[x->aux] = x; if (x->op == E_UF) vars[ufVar(x)] = x; for (int i = 0; i < 3 && x->k[i]; i++) st.push_back(x->k[i]); }
      for (auto& [vid, x] : vars) {
        Z3_ast val; if (!Z3_model_eval(ctx, zm, z(x), true, &val)) continue;
        u128 v = 0;
        if (x->w == 1) v = Z3_get_bool_value(ctx, val) == Z3_L_TRUE;
        else { const char* str = Z3_get_numeral_string(ctx, val); for (; *str; str++) v = v * 10 + (*str - '0'); }
        m.set(x->op == E_UF ? ufVar(x) : vid, v);
      }
      Z3_model_dec_ref(ctx, zm); res = 1;
    } else if (r == Z3_L_FALSE) res = 0;
    if (pushed) Z3_solver_dec_ref(ctx, s);
    double dt = nowS() - t0; if (getenv("SX_SLOW") && dt > atof(getenv("SX_SLOW"))) { fprintf(stderr, "SLOW %.2f res=%d pushed=%d n=%zu\n", dt, res, (int)pushed, q.size()); for (EP e : q) fprintf(stderr, "  %s\n", Z3_ast_to_string(ctx, z(e))); }
    if (!pushed && dt > 0.03 && incTerms > 40) incTerms = 100000;   // the incremental solver has become slow: start a new one
    solverTime += dt; maxQuery = std::max(maxQuery, dt);
    if (res < 0) { unkN++; throw Inconclusive("solver timeout/unknown on a query"); }
    return res;
  }
  static uint32_t ufVar(EP u) { return (uint32_t)u->val; }
};
