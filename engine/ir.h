// Lazy parser for textual LLVM IR.
#pragma once
#include "solver.h"
#include <string_view>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

struct Leaf { uint32_t off; uint16_t w; bool fp; };
struct Type {
  enum K { Void, Int, FP, Ptr, Struct, Array, Vec, Label, Meta, Token } k;
  unsigned w = 0; uint64_t n = 0; std::vector<Type*> el; bool packed = false;
  uint64_t size = 0, align = 1; std::vector<Leaf> leaves; std::vector<uint64_t> offs; std::vector<uint32_t> slotOff;
  bool bitvec = false;
};
struct V { uint64_t c; EP e; };
static inline V vc(uint64_t c) { return V{c, nullptr}; }

enum IOp : uint8_t { I_BIN, I_FBIN, I_FREM, I_FNEG, I_ICMP, I_FCMP, I_LOAD, I_STORE, I_ALLOCA, I_GEP, I_CAST, I_SELECT, I_BR, I_CONDBR, I_SWITCH, I_RET, I_UNREACH,
  I_CALL, I_EXTRACTV, I_INSERTV, I_EXTRACTE, I_INSERTE, I_SHUFFLE, I_COPY, I_RMW, I_CMPXCHG, I_NOP, I_BAD };
enum { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };
enum { F_FALSE, F_OEQ, F_OGT, F_OGE, F_OLT, F_OLE, F_ONE, F_ORD, F_UEQ, F_UGT, F_UGE, F_ULT, F_ULE, F_UNE, F_UNO, F_TRUE };
enum { C_TRUNC, C_ZEXT, C_SEXT, C_FPTRUNC, C_FPEXT, C_FPTOUI, C_FPTOSI, C_UITOFP, C_SITOFP, C_BITCAST, C_PTRINT };

struct Func;
struct CallInfo { Func* f = nullptr; std::string name; int bi = -1; int calleeOp = 0; bool indirect = false, isAsm = false; std::vector<int> args; std::vector<Type*> at; Type* rt; int normal = -1; };
struct Inst {
  IOp op; uint8_t sub = 0; uint16_t w = 0; Type* ty = nullptr; Type* ty2 = nullptr; int dst = -1; int a = -1, b = -1, c = -1; int64_t imm = 0;
  std::vector<std::pair<int, int64_t>> gi; std::vector<int> giw; // gep indices (operand, scale), widths
  std::vector<std::pair<u128, int>> cases; std::vector<int> mask; CallInfo* ci = nullptr; int t = 0, f = 0;
};
struct Phi { int dst; Type* ty; std::vector<std::pair<int, int>> in; }; // (block, operand)
struct Block { std::string name; std::vector<Phi> phis; std::vector<Inst> ins; };
struct Func {
  std::string name; size_t off; bool decoded = false, defined = true; uint64_t addr = 0; bool panic = false; int id = 0; uint64_t steps = 0;
  Type* rt = nullptr; std::vector<Type*> pt; std::vector<int> pslot; std::vector<Block> blocks; int nslots = 0; std::vector<V> pool;
};
struct SB { EP e; uint8_t off; };
struct Obj { uint64_t base = 0, size = 0; uint8_t kind = 0; bool ro = false; std::vector<uint8_t> d; std::vector<SB> s; const char* tag = ""; };
typedef std::shared_ptr<Obj> ObjP;
struct Global { std::string name; size_t off; bool parsed = false, constant = false; uint64_t addr = 0; ObjP obj; Type* ty = nullptr; int idx = -1; };

static const uint64_t FN_BASE = 0x10000000ull, GL_BASE = 0x100000000ull, HEAP_BASE = 0x1000000000ull, STK_BASE = 0x700000000000ull;

struct Module {
  std::string_view text;
  std::unordered_map<std::string, Func*> funcs; std::vector<Func*> funcByAddr;
  std::unordered_map<std::string, Global*> globs; std::vector<Global*> globTab; uint64_t globNext = GL_BASE;
  std::unordered_map<std::string, Type*> tcache; std::unordered_map<std::string, size_t> namedOff; std::unordered_map<std::string, Type*> named;

  // ---- types
  Type* fin(Type* t) {
    switch (t->k) {
      case Type::Int: t->size = (t->w + 7) / 8; { uint64_t a = 1; while (a < t->size && a < 16) a *= 2; t->align = a; } t->leaves = {{0, (uint16_t)t->w, false}}; break;
      case Type::FP: t->size = t->w / 8; t->align = t->size; t->leaves = {{0, (uint16_t)t->w, true}}; break;
      case Type::Ptr: t->w = 64; t->size = 8; t->align = 8; t->leaves = {{0, 64, false}}; break;
      case Type::Struct: { uint64_t o = 0, al = 1; for (Type* e : t->el) { uint64_t a = t->packed ? 1 : e->align; o = (o + a - 1) / a * a; t->offs.push_back(o); t->slotOff.push_back(t->leaves.size()); for (auto& l : e->leaves) t->leaves.push_back({(uint32_t)(o + l.off), l.w, l.fp}); o += asz(e); al = std::max(al, a); } t->size = (o + al - 1) / al * al; t->align = al; break; }
      case Type::Array: case Type::Vec: {
        Type* e = t->el[0]; uint64_t es = t->k == Type::Array ? asz(e) : e->size; if (t->k == Type::Vec && e->k == Type::Int && e->w % 8) { t->bitvec = true; }
        t->size = t->bitvec ? (t->n * e->w + 7) / 8 : es * t->n; t->align = t->k == Type::Array ? e->align : std::max<uint64_t>(1, t->size);
        if (t->n <= 4096) for (uint64_t i = 0; i < t->n; i++) for (auto& l : e->leaves) t->leaves.push_back({(uint32_t)(i * es + l.off), l.w, l.fp});
        break; }
      default: break;
    }
    return t;
  }
  static uint64_t asz(Type* e) { return (e->size + e->align - 1) / e->align * e->align; }
  Type* intern(const std::string& key, std::function<Type*()> mk) { auto it = tcache.find(key); if (it != tcache.end()) return it->second; Type* t = fin(mk()); tcache[key] = t; return t; }
  Type* intT(unsigned w) { return intern("i" + std::to_string(w), [&] { auto* t = new Type{Type::Int}; t->w = w; return t; }); }
  Type* ptrT() { return intern("ptr", [&] { return new Type{Type::Ptr}; }); }

  struct Cur { const char* p; const char* e; };
  static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
  static void ws(Cur& c) { for (;;) { while (c.p < c.e && (*c.p == ' ' || *c.p == '\t' || *c.p == '\n' || *c.p == '\r')) c.p++; if (c.p + 1 < c.e && c.p[0] == '/' && c.p[1] == '*') { c.p += 2; while (c.p + 1 < c.e && !(c.p[0] == '*' && c.p[1] == '/')) c.p++; c.p += 2; continue; } return; } }
  static bool lit(Cur& c, char ch) { ws(c); if (c.p < c.e && *c.p == ch) { c.p++; return true; } return false; }
  [[noreturn]] static void perr(Cur& c, const std::string& m) { throw Inconclusive("IR parse: " + m + " at: " + std::string(c.p, std::min<size_t>(80, c.e - c.p))); }
  static void expect(Cur& c, char ch) { if (!lit(c, ch)) perr(c, std::string("expected ") + ch); }
  static std::string_view peekW(Cur& c) { ws(c); const char* q = c.p; while (q < c.e && idc(*q)) q++; return std::string_view(c.p, q - c.p); }
  static std::string_view word(Cur& c) { auto w = peekW(c); c.p += w.size(); return w; }
  static bool kw(Cur& c, std::string_view k) { auto w = peekW(c); if (w == k) { c.p += w.size(); return true; } return false; }
  static std::string name(Cur& c) { // after sigil
    if (*c.p == '"') { const char* q = c.p + 1; while (*q != '"') q++; std::string s(c.p + 1, q - c.p - 1); c.p = q + 1; return s; }
    auto w = word(c); return std::string(w);
  }
  static void skipParen(Cur& c) { ws(c); if (*c.p != '(') return; int d = 0; bool q = false; do { char ch = *c.p++; if (q) { if (ch == '"') q = false; } else if (ch == '"') q = true; else if (ch == '(') d++; else if (ch == ')') d--; } while (d && c.p < c.e); }
  Type* type(Cur& c) {
    ws(c); Type* t = nullptr; char ch = *c.p;
    if (ch == '{' || (ch == '<' && c.p[1] == '{')) {
      bool pk = ch == '<'; c.p += pk ? 2 : 1; std::vector<Type*> el; std::string key = pk ? "<{" : "{";
      if (!lit(c, '}')) { do { el.push_back(type(c)); char b[32]; snprintf(b, 32, "%p,", (void*)el.back()); key += b; } while (lit(c, ',')); expect(c, '}'); }
      if (pk) expect(c, '>');
      t = intern(key, [&] { auto* x = new Type{Type::Struct}; x->packed = pk; x->el = el; return x; });
    } else if (ch == '[' || ch == '<') {
      c.p++; auto n = std::stoull(std::string(word(c))); if (!kw(c, "x")) perr(c, "x"); Type* e = type(c); expect(c, ch == '[' ? ']' : '>');
      char b[64]; snprintf(b, 64, "%c%llu %p", ch, (unsigned long long)n, (void*)e);
      t = intern(b, [&] { auto* x = new Type{ch == '[' ? Type::Array : Type::Vec}; x->n = n; x->el = {e}; return x; });
    } else if (ch == '%') {
      c.p++; std::string nm = name(c); auto it = named.find(nm); if (it != named.end()) t = it->second; else { auto o = namedOff.find(nm); if (o == namedOff.end()) perr(c, "named type " + nm); Cur d{text.data() + o->second, text.data() + text.size()}; t = type(d); named[nm] = t; }
    } else {
      auto w = word(c);
      if (w[0] == 'i' && w.size() > 1 && isdigit(w[1])) t = intT(std::stoi(std::string(w.substr(1))));
      else if (w == "ptr") { t = ptrT(); if (peekW(c) == "addrspace") { word(c); skipParen(c); } }
      else if (w == "void") t = intern("void", [&] { return new Type{Type::Void}; });
      else if (w == "double" || w == "float" || w == "half" || w == "fp128" || w == "x86_fp80" || w == "bfloat") t = intern(std::string(w), [&] { auto* x = new Type{Type::FP}; x->w = w == "double" ? 64 : w == "float" ? 32 : (w == "half" || w == "bfloat") ? 16 : 128; return x; });
      else if (w == "label") t = intern("label", [&] { return new Type{Type::Label}; });
      else if (w == "metadata") t = intern("metadata", [&] { return new Type{Type::Meta}; });
      else if (w == "token") t = intern("token", [&] { return new Type{Type::Token}; });
      else { c.p -= w.size(); perr(c, "type"); }
    }
    ws(c); // function types "ret (args)" in calls
    return t;
  }
  static bool valueWord(std::string_view w) {
    static const std::unordered_set<std::string> k = {"null", "true", "false", "undef", "poison", "zeroinitializer", "none", "getelementptr", "inttoptr", "ptrtoint", "ptrtoaddr", "bitcast", "trunc", "zext", "sext", "add", "sub", "xor", "mul", "splat", "c", "blockaddress", "addrspacecast", "asm", "select", "icmp"};
    if (w.size() >= 3 && w[0] == 'f' && w[1] == '0' && w[2] == 'x') return true;
    if (w.size() && (isdigit((unsigned char)w[0]) || w[0] == '-')) return true;
    return k.count(std::string(w)) > 0;
  }
  void attrs(Cur& c) {
    for (;;) {
      ws(c); if (c.p >= c.e) return;
      if (*c.p == '#') { c.p++; word(c); continue; }
      if (*c.p == '"') { c.p++; while (*c.p != '"') c.p++; c.p++; if (*c.p == '=') { c.p += 2; while (*c.p != '"') c.p++; c.p++; } continue; }
      auto w = peekW(c); if (w.empty() || valueWord(w)) return;
      c.p += w.size();
      if (w == "align" || w == "alignstack" || w == "addrspace") { ws(c); if (*c.p == '(') skipParen(c); else word(c); continue; }
      if (*c.p == '(') skipParen(c);
    }
  }
  // ---- module scan
  void load(const char* path) {
    int fd = open(path, O_RDONLY); if (fd < 0) throw Inconclusive("cannot open IR"); struct stat st; fstat(fd, &st);
    const char* p = (const char*)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); text = std::string_view(p, st.st_size);
    const char* e = p + st.st_size; const char* q = p; bool infn = false;
    while (q < e) {
      const char* nl = (const char*)memchr(q, '\n', e - q); if (!nl) nl = e;
      if (*q == 'd' && !infn && (!strncmp(q, "define ", 7) || !strncmp(q, "declare ", 8))) {
        const char* a = q; bool inq = false; while (a < nl) { if (*a == '"') inq = !inq; if (*a == '@' && !inq) break; a++; } Cur c{a + 1, e}; auto* f = new Func(); f->name = name(c); f->off = q - p; f->defined = q[2] == 'f';
        funcs[f->name] = f; f->id = funcByAddr.size(); f->addr = FN_BASE + 16 * funcByAddr.size(); funcByAddr.push_back(f);
        if (f->defined) infn = true;
      } else if (*q == '}') infn = false;
      else if (*q == '@') { Cur c{q + 1, e}; auto* g = new Global(); g->name = name(c); g->off = c.p - p; globs[g->name] = g; }
      else if (*q == '%' && !infn) { Cur c{q + 1, e}; std::string nm = name(c); ws(c); if (lit(c, '=') && kw(c, "type")) namedOff[nm] = c.p - p; }
      q = nl + 1;
    }
  }
  // address of global, assigning and materialising it
  uint64_t globAddr(const std::string& nm, Cur& c) {
    auto fi = funcs.find(nm); if (fi != funcs.end()) return fi->second->addr;
    auto it = globs.find(nm); if (it == globs.end()) perr(c, "unknown global " + nm);
    Global* g = it->second; if (g->addr) return g->addr;
    Cur d{text.data() + g->off, text.data() + text.size()}; expect(d, '=');
    bool ext = false, alias = false; 
    for (;;) { auto w = word(d); if (w == "global") break; if (w == "constant") { g->constant = true; break; } if (w == "alias") { alias = true; break; } if (w == "external" || w == "extern_weak") ext = true; if (w == "thread_local" || w == "addrspace" || w == "section" ) skipParen(d); if (w.empty()) { if (*d.p == '"') { d.p++; while (*d.p != '"') d.p++; d.p++; } else perr(d, "global"); } }
    if (alias) { type(d); expect(d, ','); type(d); ws(d); d.p++; std::string n2 = name(d); return g->addr = globAddr(n2, d); }
    g->ty = type(d);
    if (ext) { auto* w = new Global(*g); (void)w; }
    uint64_t al = std::max<uint64_t>(16, g->ty->align); globNext = (globNext + al - 1) / al * al; 
    // peek alignment
    g->addr = globNext; uint64_t sz = g->ty->size; globNext += sz + 64;
    auto o = std::make_shared<Obj>(); o->base = g->addr; o->size = sz; o->kind = 3; o->ro = g->constant; o->d.assign(sz, 0); o->tag = g->name.c_str(); g->obj = o; g->idx = globTab.size(); globTab.push_back(g);
    if (!ext) initConst(d, g->ty, o->d.data());
    return g->addr;
  }
  static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
  static u128 parseFP(std::string_view w, Type* t) {
    std::string s(w); uint64_t bits;
    if (s.size() > 3 && s[0] == 'f' && s[1] == '0') { return (u128)std::stoull(s.substr(3), nullptr, 16); }
    if (s.size() > 2 && s[0] == '0' && s[1] == 'x') { bits = std::stoull(s.substr(2), nullptr, 16); if (t->w == 32) return of_f((float)d_of(bits)); return bits; }
    double d = strtod(s.c_str(), nullptr);
    return t->w == 64 ? of_d(d) : of_f((float)d);
  }
  // parse constant of scalar type; returns value
  u128 constScalar(Cur& c, Type* t) {
    ws(c);
    if (*c.p == '@') { c.p++; std::string n = name(c); return globAddr(n, c); }
    if (t->k == Type::FP) {
      ws(c); const char* q = c.p; while (q < c.e && (idc(*q) || *q == '+')) q++; std::string_view w(c.p, q - c.p); c.p = q;
      if (w == "poison" || w == "undef" || w == "zeroinitializer") return 0;
      if (w.find("nan") != std::string_view::npos) { u128 v = t->w == 64 ? (u128)0x7ff8000000000000ull : (u128)0x7fc00000; if (w[0] == '-') v |= (u128)1 << (t->w - 1); if (*c.p == '(') { Cur k = c; k.p++; auto pw = word(k); uint64_t pl = std::stoull(std::string(pw), nullptr, 0); v |= pl; skipParen(c); } return v; }
      if (w.find("inf") != std::string_view::npos) { u128 v = t->w == 64 ? (u128)0x7ff0000000000000ull : (u128)0x7f800000; if (w[0] == '-') v |= (u128)1 << (t->w - 1); return v; }
      return parseFP(w, t);
    }
    auto w = peekW(c);
    if (w == "null" || w == "undef" || w == "poison" || w == "zeroinitializer" || w == "false" || w == "none") { c.p += w.size(); return 0; }
    if (w == "true") { c.p += 4; return 1; }
    if (w == "inttoptr" || w == "ptrtoint" || w == "ptrtoaddr" || w == "bitcast" || w == "trunc" || w == "zext" || w == "addrspacecast") {
      c.p += w.size(); expect(c, '('); Type* st = type(c); u128 v = constScalar(c, st); if (!kw(c, "to")) perr(c, "to"); type(c); expect(c, ')'); return v & maskw(t->w);
    }
    if (w == "getelementptr") {
      word(c); while (!lit(c, '(')) { word(c); ws(c); if (*c.p == '(' ) { Cur k = c; k.p++; ws(k); if (isdigit((unsigned char)*k.p) || *k.p == '-') skipParen(c); } }
      Type* bt = type(c); expect(c, ','); Type* pt = type(c); u128 base = constScalar(c, pt); bool first = true; Type* cur = bt;
      while (lit(c, ',')) { if (kw(c, "inrange")) skipParen(c); Type* it = type(c); s128 ix = sx128(constScalar(c, it), it->w); if (first) { base += (u128)(ix * (s128)asz(bt)); first = false; } else if (cur->k == Type::Struct) { base += cur->offs[(size_t)ix]; cur = cur->el[(size_t)ix]; } else { cur = cur->el[0]; base += (u128)(ix * (s128)asz(cur)); } }
      expect(c, ')'); return base & maskw(64);
    }
    if (w == "add" || w == "sub" || w == "xor" || w == "mul") { std::string op(w); word(c); while (!lit(c, '(')) word(c); Type* t1 = type(c); u128 a = constScalar(c, t1); expect(c, ','); Type* t2 = type(c); u128 b = constScalar(c, t2); expect(c, ')'); u128 r = op == "add" ? a + b : op == "sub" ? a - b : op == "mul" ? a * b : a ^ b; return r & maskw(t->w); }
    if (!w.empty() && (isdigit((unsigned char)w[0]) || w[0] == '-')) {
      c.p += w.size(); bool neg = w[0] == '-'; u128 v = 0; for (size_t i = neg; i < w.size(); i++) v = v * 10 + (w[i] - '0'); if (neg) v = -v; return v & maskw(t->w);
    }
    perr(c, "constant");
  }
  void wr(uint8_t* d, u128 v, unsigned n) { for (unsigned i = 0; i < n; i++) { d[i] = (uint8_t)v; v >>= 8; } }
  void initConst(Cur& c, Type* t, uint8_t* d) {
    ws(c);
    if (t->k == Type::Struct || t->k == Type::Array || t->k == Type::Vec) {
      auto w = peekW(c);
      if (w == "zeroinitializer" || w == "undef" || w == "poison") { c.p += w.size(); return; }
      if (w == "c") { c.p++; if (*c.p != '"') perr(c, "cstring"); c.p++; size_t i = 0; while (*c.p != '"') { if (*c.p == '\\' && c.p[1] == '\\') { d[i++] = '\\'; c.p += 2; } else if (*c.p == '\\') { d[i++] = hexv(c.p[1]) * 16 + hexv(c.p[2]); c.p += 3; } else d[i++] = *c.p++; } c.p++; return; }
      if (w == "splat") { c.p += 5; expect(c, '('); Type* et = type(c); Cur s = c; for (uint64_t i = 0; i < t->n; i++) { c = s; initConst(c, et, d + i * asz(et)); } expect(c, ')'); return; }
      char close; if (*c.p == '{') { c.p++; close = '}'; } else if (*c.p == '<' && c.p[1] == '{') { c.p += 2; close = '}'; } else if (*c.p == '[') { c.p++; close = ']'; } else if (*c.p == '<') { c.p++; close = '>'; } else perr(c, "aggregate");
      size_t i = 0; if (!lit(c, close)) { do { Type* et = type(c); attrs(c); initConst(c, et, d + (t->k == Type::Struct ? t->offs[i] : i * asz(et))); i++; } while (lit(c, ',')); expect(c, close); }
      if (t->k == Type::Struct && t->packed) expect(c, '>');
      return;
    }
    u128 v = constScalar(c, t); wr(d, v, t->size);
  }
  // flattened constant -> V list
  void constV(Cur& c, Type* t, std::vector<V>& out) {
    ws(c);
    if (t->k == Type::Struct || t->k == Type::Array || t->k == Type::Vec) {
      auto w = peekW(c);
      if (w == "zeroinitializer" || w == "undef" || w == "poison") { c.p += w.size(); for (auto& l : t->leaves) out.push_back(cv(0, l.w)); return; }
      if (w == "splat") { c.p += 5; expect(c, '('); Type* et = type(c); std::vector<V> one; constV(c, et, one); for (uint64_t i = 0; i < t->n; i++) out.insert(out.end(), one.begin(), one.end()); expect(c, ')'); return; }
      if (w == "c") { std::vector<uint8_t> b(t->size); initConst(c, t, b.data()); for (auto x : b) out.push_back(vc(x)); return; }
      char close; if (*c.p == '{') { c.p++; close = '}'; } else if (*c.p == '<' && c.p[1] == '{') { c.p += 2; close = '}'; } else if (*c.p == '[') { c.p++; close = ']'; } else if (*c.p == '<') { c.p++; close = '>'; } else perr(c, "aggregate");
      if (!lit(c, close)) { do { Type* et = type(c); attrs(c); constV(c, et, out); } while (lit(c, ',')); expect(c, close); }
      if (t->k == Type::Struct && t->packed) expect(c, '>');
      return;
    }
    out.push_back(cv(constScalar(c, t), t->w));
  }
  static V cv(u128 v, unsigned w) { if (w > 64) return V{0, mkc(v, w)}; return vc((uint64_t)(v & maskw(w))); }

  // ---- function decoding
  struct FCtx { Func* f; std::unordered_map<std::string, int> vals; std::vector<Type*> vt; std::vector<int> slot; std::unordered_map<std::string, int> blk; std::unordered_map<uint64_t, int> cpool; };
  int valId(FCtx& x, const std::string& n) { auto it = x.vals.find(n); if (it != x.vals.end()) return it->second; int id = x.slot.size(); x.vals[n] = id; x.slot.push_back(-1); return id; }
  int blkId(FCtx& x, const std::string& n) { auto it = x.blk.find(n); if (it != x.blk.end()) return it->second; int id = x.f->blocks.size(); x.blk[n] = id; x.f->blocks.emplace_back(); x.f->blocks.back().name = n; return id; }
  // operand encodings while parsing: >=0 value id ; <0 : ~poolIndex
  int operand(FCtx& x, Cur& c, Type* t) {
    attrs(c); ws(c);
    if (*c.p == '%') { c.p++; return valId(x, name(c)); }
    if (t->k == Type::Meta) { while (*c.p != ',' && *c.p != ')' && *c.p != '\n') { if (*c.p == '(') skipParen(c); else c.p++; } return ~0; }
    int id = x.f->pool.size(); constV(c, t, x.f->pool); return ~id;
  }
  int label(FCtx& x, Cur& c) { if (!kw(c, "label")) perr(c, "label"); ws(c); if (*c.p != '%') perr(c, "%"); c.p++; return blkId(x, name(c)); }
  int def(FCtx& x, const std::string& n, Type* t) { int id = valId(x, n); x.slot[id] = x.f->nslots; x.f->nslots += std::max<size_t>(1, t->leaves.size()); return x.slot[id]; }

  void decode(Func* f) {
    f->decoded = true; FCtx x; x.f = f; const char* te = text.data() + text.size();
    Cur c{text.data() + f->off, te}; x.slot.clear();
    f->pool.push_back(vc(0));
    // header
    c.p += 7; // "define "
    // skip linkage etc until type
    for (;;) { attrsHeader(c); break; }
    f->rt = type(c); ws(c); if (*c.p != '@') perr(c, "fn name"); c.p++; name(c); expect(c, '(');
    int argn = 0;
    if (!lit(c, ')')) { do { ws(c); if (!strncmp(c.p, "...", 3)) { c.p += 3; continue; } Type* t = type(c); attrs(c); ws(c); std::string n; if (*c.p == '%') { c.p++; n = name(c); } else n = std::to_string(argn); if (!n.empty() && std::all_of(n.begin(), n.end(), [](char h) { return isdigit((unsigned char)h); })) argn++; f->pt.push_back(t); f->pslot.push_back(def(x, n, t)); } while (lit(c, ',')); expect(c, ')'); }
    // to end of line '{'
    { bool q = false; while (!(*c.p == '{' && !q && c.p[1] == '\n')) { if (*c.p == '"') q = !q; c.p++; } c.p += 2; }
    int cur = -1; bool first = true;
    while (true) {
      const char* nl = (const char*)memchr(c.p, '\n', te - c.p);
      if (*c.p == '}') break;
      if (*c.p == '\n') { c.p++; continue; }
      if (*c.p != ' ') { // label
        Cur d{c.p, nl}; std::string n; if (*d.p == '"') n = name(d); else n = std::string(word(d)); if (*d.p == ':') { cur = blkId(x, n); order.push_back(cur); first = false; c.p = nl + 1; continue; } c.p = nl + 1; continue;
      }
      if (first) { // entry block: implicit name = next number
        std::string n = std::to_string(argn); cur = blkId(x, n); first = false;
      }
      const char* q = c.p; while (*q == ' ') q++;
      if (*q == '#' || *q == ';') { c.p = nl + 1; continue; }
      if (q[0] == ']' ) { c.p = nl + 1; continue; }
      Cur d{q, te};
      inst(x, d, cur);
      // continue after the line where parsing ended
      nl = (const char*)memchr(d.p, '\n', te - d.p); c.p = nl + 1;
    }
    // make sure entry is block 0: blkId of entry was created first unless referenced… entry is never referenced before
    // patch operands
    auto P = [&](int& o) { if (o >= 0) { int s = x.slot[o]; if (s < 0) { std::string nm; for (auto& pr : x.vals) if (pr.second == o) nm = pr.first; throw Inconclusive("undefined value %" + nm + " in " + f->name); } o = s; } };
    for (auto& b : f->blocks) {
      for (auto& p : b.phis) for (auto& in : p.in) P(in.second);
      for (auto& i : b.ins) { if (uses(i)) { P(i.a); P(i.b); P(i.c); } for (auto& g : i.gi) P(g.first); if (i.ci) { for (auto& a : i.ci->args) P(a); if (i.ci->indirect) P(i.ci->calleeOp); } }
    }
  }
  std::vector<int> order;
  static bool uses(Inst& i) { return i.op != I_CALL && i.op != I_NOP && i.op != I_BAD && i.op != I_UNREACH && i.op != I_BR; }
  void attrsHeader(Cur& c) { // linkage, cconv, return attributes
    for (;;) {
      ws(c); if (*c.p == '{' || *c.p == '[' || *c.p == '<' || *c.p == '%') return;
      if (*c.p == '#') { c.p++; word(c); continue; }
      auto w = peekW(c);
      if (w == "void" || w == "ptr" || w == "double" || w == "float" || w == "half" || w == "fp128" || w == "token" || (w.size() > 1 && w[0] == 'i' && isdigit((unsigned char)w[1]))) return;
      if (w.empty()) { if (*c.p == '"') { c.p++; while (*c.p != '"') c.p++; c.p++; if (*c.p == '=') { c.p += 2; while (*c.p != '"') c.p++; c.p++; } continue; } perr(c, "header"); }
      c.p += w.size(); if (w == "align" || w == "alignstack") { ws(c); if (*c.p != '(') word(c); else skipParen(c); continue; } if (w == "cc") { word(c); continue; }
      if (*c.p == '(') skipParen(c);
    }
  }
  void inst(FCtx& x, Cur& c, int bi) {
    std::string dstn; bool hasDst = false;
    if (*c.p == '%') { c.p++; dstn = name(c); expect(c, '='); hasDst = true; }
    auto opw = word(c); std::string op(opw);
    Inst I; I.op = I_NOP; Type* rt = nullptr;
    auto flags = [&](std::initializer_list<const char*> fl) { bool again = true; while (again) { again = false; for (auto* k : fl) if (kw(c, k)) again = true; } };
    auto fm = [&] { flags({"nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds", "nusw"}); };
    static const std::unordered_map<std::string, int> binops = {{"add", E_ADD}, {"sub", E_SUB}, {"mul", E_MUL}, {"udiv", E_UDIV}, {"sdiv", E_SDIV}, {"urem", E_UREM}, {"srem", E_SREM}, {"and", E_AND}, {"or", E_OR}, {"xor", E_XOR}, {"shl", E_SHL}, {"lshr", E_LSHR}, {"ashr", E_ASHR}};
    static const std::unordered_map<std::string, int> fbin = {{"fadd", E_FADD}, {"fsub", E_FSUB}, {"fmul", E_FMUL}, {"fdiv", E_FDIV}};
    static const std::unordered_map<std::string, int> casts = {{"trunc", C_TRUNC}, {"zext", C_ZEXT}, {"sext", C_SEXT}, {"fptrunc", C_FPTRUNC}, {"fpext", C_FPEXT}, {"fptoui", C_FPTOUI}, {"fptosi", C_FPTOSI}, {"uitofp", C_UITOFP}, {"sitofp", C_SITOFP}, {"bitcast", C_BITCAST}, {"ptrtoint", C_PTRINT}, {"inttoptr", C_PTRINT}, {"ptrtoaddr", C_PTRINT}, {"addrspacecast", C_PTRINT}};
    static const std::unordered_map<std::string, int> preds = {{"eq", P_EQ}, {"ne", P_NE}, {"ugt", P_UGT}, {"uge", P_UGE}, {"ult", P_ULT}, {"ule", P_ULE}, {"sgt", P_SGT}, {"sge", P_SGE}, {"slt", P_SLT}, {"sle", P_SLE}};
    static const std::unordered_map<std::string, int> fpreds = {{"false", F_FALSE}, {"oeq", F_OEQ}, {"ogt", F_OGT}, {"oge", F_OGE}, {"olt", F_OLT}, {"ole", F_OLE}, {"one", F_ONE}, {"ord", F_ORD}, {"ueq", F_UEQ}, {"ugt", F_UGT}, {"uge", F_UGE}, {"ult", F_ULT}, {"ule", F_ULE}, {"une", F_UNE}, {"uno", F_UNO}, {"true", F_TRUE}};
    Block* B;
    if (auto it = binops.find(op); it != binops.end()) { fm(); Type* t = type(c); I.op = I_BIN; I.sub = it->second; I.ty = t; I.a = operand(x, c, t); expect(c, ','); I.b = operand(x, c, t); rt = t; }
    else if (auto it = fbin.find(op); it != fbin.end()) { fm(); Type* t = type(c); I.op = I_FBIN; I.sub = it->second; I.ty = t; I.a = operand(x, c, t); expect(c, ','); I.b = operand(x, c, t); rt = t; }
    else if (op == "frem") { fm(); Type* t = type(c); I.op = I_FREM; I.ty = t; I.a = operand(x, c, t); expect(c, ','); I.b = operand(x, c, t); rt = t; }
    else if (op == "fneg") { fm(); Type* t = type(c); I.op = I_FNEG; I.ty = t; I.a = operand(x, c, t); rt = t; }
    else if (op == "freeze") { Type* t = type(c); I.op = I_COPY; I.ty = t; I.a = operand(x, c, t); rt = t; }
    else if (op == "icmp" || op == "fcmp") {
      fm(); std::string p(word(c)); Type* t = type(c); I.op = op == "icmp" ? I_ICMP : I_FCMP; I.sub = (op == "icmp" ? preds : fpreds).at(p); I.ty = t; I.a = operand(x, c, t); expect(c, ','); I.b = operand(x, c, t);
      rt = t->k == Type::Vec ? vecT(t->n, intT(1)) : intT(1);
    }
    else if (auto it = casts.find(op); it != casts.end()) { fm(); Type* t = type(c); I.op = I_CAST; I.sub = it->second; I.ty = t; I.a = operand(x, c, t); if (!kw(c, "to")) perr(c, "to"); I.ty2 = type(c); rt = I.ty2; }
    else if (op == "load") { flags({"atomic", "volatile"}); Type* t = type(c); expect(c, ','); Type* pt = type(c); I.op = I_LOAD; I.ty = t; I.a = operand(x, c, pt); rt = t; }
    else if (op == "store") { flags({"atomic", "volatile"}); Type* t = type(c); I.op = I_STORE; I.ty = t; I.a = operand(x, c, t); expect(c, ','); Type* pt = type(c); I.b = operand(x, c, pt); }
    else if (op == "alloca") { flags({"inalloca"}); Type* t = type(c); I.op = I_ALLOCA; I.ty = t; I.imm = 16; I.a = ~0; I.f = 0; while (lit(c, ',')) { ws(c); if (kw(c, "align")) { I.imm = std::stoll(std::string(word(c))); } else if (*c.p == '!') break; else if (peekW(c) == "addrspace") { word(c); skipParen(c); } else { Type* nt = type(c); I.a = operand(x, c, nt); I.f = 1; } } rt = ptrT(); }
    else if (op == "getelementptr") {
      for (;;) { fm(); if (kw(c, "inrange")) { skipParen(c); continue; } break; }
      Type* t = type(c); expect(c, ','); Type* pt = type(c); if (pt->k == Type::Vec) throw Inconclusive("vector gep"); I.op = I_GEP; I.a = operand(x, c, pt); bool first = true; Type* cur = t; int64_t off = 0;
      while (lit(c, ',')) {
        ws(c); if (*c.p == '!') break; Type* it = type(c); size_t pb = x.f->pool.size(); int o = operand(x, c, it); bool k = o < 0; int64_t kv = 0; if (k) { V v = x.f->pool[~o]; kv = (int64_t)sx128(v.e ? v.e->val : v.c, it->w); (void)pb; }
        if (first) { first = false; if (k) off += kv * (int64_t)asz(t); else { I.gi.push_back({o, (int64_t)asz(t)}); I.giw.push_back(it->w); } }
        else if (cur->k == Type::Struct) { off += cur->offs[kv]; cur = cur->el[kv]; }
        else { cur = cur->el[0]; if (k) off += kv * (int64_t)asz(cur); else { I.gi.push_back({o, (int64_t)asz(cur)}); I.giw.push_back(it->w); } }
      }
      I.imm = off; rt = ptrT();
    }
    else if (op == "select") { fm(); Type* ct = type(c); I.op = I_SELECT; I.ty2 = ct; I.a = operand(x, c, ct); expect(c, ','); Type* t = type(c); I.ty = t; I.b = operand(x, c, t); expect(c, ','); Type* t2 = type(c); I.c = operand(x, c, t2); rt = t; }
    else if (op == "phi") { fm(); Type* t = type(c); Phi p; p.ty = t; do { expect(c, '['); int o = operand(x, c, t); expect(c, ','); ws(c); c.p++; int b = blkId(x, name(c)); expect(c, ']'); p.in.push_back({b, o}); } while (lit(c, ',') && (ws(c), *c.p == '[')); p.dst = def(x, dstn, t); x.f->blocks[bi].phis.push_back(std::move(p)); back(c); return; }
    else if (op == "br") { if (peekW(c) == "label") { I.op = I_BR; I.t = label(x, c); } else { Type* t = type(c); I.op = I_CONDBR; I.a = operand(x, c, t); expect(c, ','); I.t = label(x, c); expect(c, ','); I.f = label(x, c); } }
    else if (op == "switch") { Type* t = type(c); I.op = I_SWITCH; I.ty = t; I.a = operand(x, c, t); expect(c, ','); I.f = label(x, c); expect(c, '['); while (!lit(c, ']')) { Type* ct = type(c); u128 v = constScalar(c, ct); expect(c, ','); int l = label(x, c); I.cases.push_back({v, l}); } }
    else if (op == "ret") { I.op = I_RET; Type* t = type(c); I.ty = t; if (t->k != Type::Void) I.a = operand(x, c, t); else I.a = ~0; }
    else if (op == "unreachable") I.op = I_UNREACH;
    else if (op == "resume" || op == "indirectbr" || op == "callbr" || op == "va_arg" || op == "cleanupret" || op == "catchret") { I.op = I_BAD; if (op == "resume") { type(c); } toEol(c); c.p--; while (*c.p != '\n') c.p++; }
    else if (op == "landingpad") { Type* t = type(c); I.op = I_BAD; rt = t; // swallow clause lines
      for (;;) { const char* nl = c.p; while (*nl != '\n') nl++; Cur d{nl + 1, c.e}; const char* q = d.p; while (*q == ' ') q++; if (!strncmp(q, "cleanup", 7) || !strncmp(q, "catch ", 6) || !strncmp(q, "filter ", 7)) { c.p = q; while (*c.p != '\n') c.p++; } else { c.p = nl; break; } } }
    else if (op == "fence") { I.op = I_NOP; }
    else if (op == "extractvalue") { Type* t = type(c); I.op = I_EXTRACTV; I.a = operand(x, c, t); uint32_t so = 0; Type* cur = t; while (lit(c, ',')) { ws(c); if (*c.p == '!') break; unsigned ix = std::stoul(std::string(word(c))); if (cur->k == Type::Struct) { so += cur->slotOff[ix]; cur = cur->el[ix]; } else { cur = cur->el[0]; so += ix * cur->leaves.size(); } } I.imm = so; I.ty = cur; rt = cur; }
    else if (op == "insertvalue") { Type* t = type(c); I.op = I_INSERTV; I.ty = t; I.a = operand(x, c, t); expect(c, ','); Type* et = type(c); I.ty2 = et; I.b = operand(x, c, et); uint32_t so = 0; Type* cur = t; while (lit(c, ',')) { ws(c); if (*c.p == '!') break; unsigned ix = std::stoul(std::string(word(c))); if (cur->k == Type::Struct) { so += cur->slotOff[ix]; cur = cur->el[ix]; } else { cur = cur->el[0]; so += ix * cur->leaves.size(); } } I.imm = so; rt = t; }
    else if (op == "extractelement") { Type* t = type(c); I.op = I_EXTRACTE; I.ty = t; I.a = operand(x, c, t); expect(c, ','); Type* it = type(c); I.ty2 = it; I.b = operand(x, c, it); rt = t->el[0]; }
    else if (op == "insertelement") { Type* t = type(c); I.op = I_INSERTE; I.ty = t; I.a = operand(x, c, t); expect(c, ','); Type* et = type(c); I.b = operand(x, c, et); expect(c, ','); Type* it = type(c); I.ty2 = it; I.c = operand(x, c, it); rt = t; }
    else if (op == "shufflevector") { Type* t = type(c); I.op = I_SHUFFLE; I.ty = t; I.a = operand(x, c, t); expect(c, ','); Type* t2 = type(c); I.b = operand(x, c, t2); expect(c, ','); Type* mt = type(c); std::vector<V> mv; Cur sv = c; auto w = peekW(c); if (w == "zeroinitializer" || w == "poison" || w == "undef") { word(c); for (uint64_t i = 0; i < mt->n; i++) I.mask.push_back(0); } else { c = sv; constV(c, mt, mv); for (auto& v : mv) I.mask.push_back((int)v.c); } rt = vecT(mt->n, t->el[0]); I.ty2 = rt; }
    else if (op == "atomicrmw") { flags({"volatile"}); std::string k(word(c)); static const std::unordered_map<std::string, int> rk = {{"xchg", 100}, {"add", E_ADD}, {"sub", E_SUB}, {"and", E_AND}, {"or", E_OR}, {"xor", E_XOR}, {"umax", 101}, {"umin", 102}, {"max", 103}, {"min", 104}, {"nand", 105}}; I.op = I_RMW; I.sub = rk.at(k); Type* pt = type(c); I.a = operand(x, c, pt); expect(c, ','); Type* t = type(c); I.ty = t; I.b = operand(x, c, t); rt = t; }
    else if (op == "cmpxchg") { flags({"weak", "volatile"}); I.op = I_CMPXCHG; Type* pt = type(c); I.a = operand(x, c, pt); expect(c, ','); Type* t = type(c); I.ty = t; I.b = operand(x, c, t); expect(c, ','); Type* t2 = type(c); I.c = operand(x, c, t2);
      char b[64]; Type* i1 = intT(1); snprintf(b, 64, "{%p,%p,", (void*)t, (void*)i1); rt = intern(b, [&] { auto* s = new Type{Type::Struct}; s->el = {t, i1}; return s; }); }
    else if (op == "tail" || op == "musttail" || op == "notail" || op == "call" || op == "invoke") {
      if (op == "tail" || op == "musttail" || op == "notail") word(c); // call
      bool inv = op == "invoke"; auto* ci = new CallInfo(); I.op = I_CALL; I.ci = ci;
      fm(); attrsHeader(c); Type* t = type(c); ws(c); if (*c.p == '(') skipParen(c); ci->rt = t; ws(c);
      if (kw(c, "asm")) { ci->isAsm = true; while (*c.p != '"') c.p++; c.p++; while (*c.p != '"') { ci->name += *c.p; c.p++; } c.p++; expect(c, ','); ws(c); c.p++; while (*c.p != '"') c.p++; c.p++; }
      else if (*c.p == '@') { c.p++; std::string n = name(c); auto fi = funcs.find(n); if (fi == funcs.end()) { // alias?
            auto gi = globs.find(n); if (gi == globs.end()) perr(c, "callee " + n); uint64_t a = globAddr(n, c); ci->f = funcByAddr[(a - FN_BASE) / 16]; } else ci->f = fi->second; ci->name = ci->f->name; }
      else if (*c.p == '%') { c.p++; ci->indirect = true; ci->calleeOp = valId(x, name(c)); }
      else { int id = x.f->pool.size(); x.f->pool.push_back(vc((uint64_t)constScalar(c, ptrT()))); ci->indirect = true; ci->calleeOp = ~id; }
      expect(c, '('); if (!lit(c, ')')) { do { Type* at = type(c); ci->args.push_back(operand(x, c, at)); ci->at.push_back(at); } while (lit(c, ',')); expect(c, ')'); }
      if (inv) { // "... to label %x unwind label %y", possibly on the next line
        while (!kw(c, "to")) { ws(c); if (*c.p == '#') { c.p++; word(c); } else if (*c.p == '[') { int d = 0; do { if (*c.p == '[') d++; if (*c.p == ']') d--; c.p++; } while (d); } else if (!word(c).size()) perr(c, "invoke"); }
        ci->normal = label(x, c); kw(c, "unwind"); label(x, c); }
      else { ws(c); }
      rt = t->k == Type::Void ? nullptr : t;
    }
    else { throw Inconclusive("unknown instruction " + op + " in " + x.f->name); }
    if (hasDst) I.dst = def(x, dstn, rt ? rt : intT(1));
    // ws() above may have moved past the newline; step back so that the caller finds the end of this line
    back(c);
    B = &x.f->blocks[bi]; B->ins.push_back(std::move(I));
  }
  static void back(Cur& c) { if (c.p[-1] == '\n' || c.p[-1] == ' ') { while (c.p[-1] == ' ') c.p--; if (c.p[-1] == '\n') c.p--; } }
  void toEol(Cur& c) { while (*c.p != '\n') c.p++; }
  Type* vecT(uint64_t n, Type* e) { char b[64]; snprintf(b, 64, "<%llu %p", (unsigned long long)n, (void*)e); return intern(b, [&] { auto* x = new Type{Type::Vec}; x->n = n; x->el = {e}; return x; }); }
};
