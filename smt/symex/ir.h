// Textual LLVM IR (as printed by llvm-dis) -> compact pre-decoded form. Functions are parsed lazily.
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include "expr.h"
#include <algorithm>
#include <map>
#include <string_view>
#include <unordered_map>
#include <vector>
using std::string;
using std::string_view;
using std::vector;

[[noreturn]] void fatal(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

struct Type {
  enum K { Void, Int, Ptr, Flt, Struct, Array, Vec, Label, Meta, Func } k;
  unsigned w = 0;
  vector<Type *> el;
  vector<u64> off;
  Type *e = 0;
  u64 n = 0, size = 0, align = 1;
  int slots = 1;
};
struct Leaf { u64 off; unsigned w; };
static void leaves(Type *t, u64 base, vector<Leaf> &out) {
  switch (t->k) {
  case Type::Int: case Type::Flt: out.push_back({base, t->w}); break;
  case Type::Ptr: out.push_back({base, 64}); break;
  case Type::Struct: for (size_t i = 0; i < t->el.size(); i++) leaves(t->el[i], base + t->off[i], out); break;
  case Type::Array: for (u64 i = 0; i < t->n; i++) leaves(t->e, base + i * t->e->size, out); break;
  case Type::Vec: for (u64 i = 0; i < t->n; i++) out.push_back({base + i * ((t->e->k == Type::Ptr ? 64 : t->e->w) / 8), t->e->k == Type::Ptr ? 64 : t->e->w}); break;
  default: break;
  }
}

struct V {
  u128 v;
  const Ex *s;
};

enum IOp : u8 {
  I_NOP, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_BR, I_CBR, I_SWITCH, I_CALL, I_RET, I_UNREACH, I_SELECT,
  I_ICMP, I_BIN, I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_BITCAST, I_INSV, I_EXTELT, I_INSELT, I_SHUF,
  I_CMPXCHG, I_RMW, I_LPAD, I_RESUME, I_FBIN, I_FCMP, I_FCAST, I_UNSUP
};
enum Pred : u8 { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };
enum Rmw : u8 { R_XCHG, R_ADD, R_SUB, R_AND, R_NAND, R_OR, R_XOR, R_MAX, R_MIN, R_UMAX, R_UMIN };

struct Func;
struct GepIdx { int op; unsigned w; u64 scale; };
struct Copy { int dst, src, n; };
struct Edge { int bb; vector<Copy> copies; };
struct Side { // extra payload for calls / switch / gep / aggregates
  Func *callee = 0;
  int calleeOp = 0;
  bool direct = true;
  bool isAsm = false;
  vector<int> args;     // operands
  vector<int> argSlots; // slots per arg
  vector<unsigned> argW;
  int retSlots = 0;
  unsigned retW = 0;
  int normal = -1, unwind = -1; // edge indices for invoke
  vector<std::pair<u128, int>> cases;
  int deflt = -1;
  vector<GepIdx> gi;
  vector<Leaf> lv;
  vector<int> mask;
  bool bitpacked = false;
};
struct Ins {
  IOp op;
  u8 sub = 0;
  u8 w = 0;   // width of operation / source
  u8 w2 = 0;  // destination width for casts
  bool vcond = false;
  bool atomic = false;
  int n = 1;  // element count
  int dst = -1, a = 0, b = 0, c = 0;
  u64 imm = 0;
  Side *side = 0;
};
struct BB { vector<Ins> ins; };
struct Func {
  string name;
  int id = 0;
  string_view head, body; // text
  bool defined = false, parsed = false, weak = false;
  u64 addr = 0;
  int builtin = -1;
  // parsed
  vector<int> params, paramSlots;
  int nslots = 0;
  vector<BB> bbs;
  vector<V> consts;
  vector<Edge> edges;
  u64 size() const { return body.size(); }
};
struct Global {
  string name;
  string_view text; // after '='
  Type *t = 0;
  u64 addr = 0;
  bool tls = false, ext = false, weak = false;
  string_view init;
  u64 align = 16;
  string section;
};

static const u64 FBASE = 0x7000000000ull; // fake function addresses
struct Module {
  string_view text;
  std::unordered_map<string, Func *> fn;
  vector<Func *> fns;
  std::unordered_map<string, Global *> gl;
  vector<Global *> gls;
  std::unordered_map<string, string_view> aliases;
  std::unordered_map<string, Type *> named;
  std::map<string, Type *> tcache;
  u64 tlsSize = 0;

  Func *byAddr(u64 a) {
    if (a < FBASE || (a - FBASE) % 16) return 0;
    u64 i = (a - FBASE) / 16;
    return i < fns.size() ? fns[i] : 0;
  }
  void load(const char *path);
  void scan();
};

// ------------------------------------------------------------------ cursor
struct Cur {
  const char *p, *e;
  Cur(string_view s) : p(s.data()), e(s.data() + s.size()) {}
  void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n')) p++; }
  bool eof() { ws(); return p >= e; }
  char peek() { ws(); return p < e ? *p : 0; }
  bool eat(char c) { if (peek() == c) { p++; return true; } return false; }
  void need(char c) { if (!eat(c)) fatal("parse: expected '%c' at: %.80s", c, string(p, std::min<size_t>(80, e - p)).c_str()); }
  static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
  bool word(const char *w) {
    ws();
    size_t n = strlen(w);
    if ((size_t)(e - p) >= n && !memcmp(p, w, n) && (p + n == e || !idc(p[n]))) { p += n; return true; }
    return false;
  }
  string_view ident() {
    ws();
    const char *s = p;
    while (p < e && idc(*p)) p++;
    return string_view(s, p - s);
  }
  string name() { // after @ or %
    if (p < e && *p == '"') {
      p++;
      string r;
      while (p < e && *p != '"') {
        if (*p == '\\' && p + 2 < e) {
          auto h = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
          r += (char)(h(p[1]) * 16 + h(p[2]));
          p += 3;
        } else r += *p++;
      }
      p++;
      return r;
    }
    return string(ident());
  }
  void balanced() { // skip a balanced (...) group
    need('(');
    int d = 1;
    while (p < e && d) {
      if (*p == '"') { p++; while (p < e && *p != '"') p++; }
      else if (*p == '(') d++;
      else if (*p == ')') d--;
      p++;
    }
  }
};

struct Parser {
  Module &m;
  Func *f = 0;
  std::unordered_map<string, int> slot, bbix;
  std::map<std::pair<u128, int>, int> cpool;
  Parser(Module &m) : m(m) {}

  Type *mkint(unsigned w) {
    string k = "i" + std::to_string(w);
    auto &t = m.tcache[k];
    if (!t) {
      t = new Type{Type::Int};
      t->w = w;
      u64 b = (w + 7) / 8, a = 1;
      while (a < b && a < 16) a *= 2;
      t->align = a;
      t->size = (b + a - 1) / a * a;
    }
    return t;
  }
  bool isTypeStart(Cur &c) {
    char ch = c.peek();
    if (ch == '{' || ch == '[' || ch == '<' || ch == '%') return true;
    if (ch == 'i' && c.p + 1 < c.e && isdigit((unsigned char)c.p[1])) return true;
    for (const char *w : {"void", "ptr", "float", "double", "label", "metadata", "half", "token", "opaque"}) {
      size_t n = strlen(w);
      if ((size_t)(c.e - c.p) >= n && !memcmp(c.p, w, n) && (c.p + n == c.e || !Cur::idc(c.p[n]))) return true;
    }
    return false;
  }
  Type *finishStruct(Type *t, bool packed) {
    u64 o = 0, al = 1;
    int sl = 0;
    for (Type *x : t->el) {
      u64 a = packed ? 1 : x->align;
      o = (o + a - 1) / a * a;
      t->off.push_back(o);
      o += x->size;
      al = std::max(al, a);
      sl += x->slots;
    }
    t->align = al;
    t->size = (o + al - 1) / al * al;
    t->slots = sl;
    return t;
  }
  Type *type(Cur &c) {
    char ch = c.peek();
    Type *t = 0;
    if (ch == '{') {
      c.p++;
      t = new Type{Type::Struct};
      if (!c.eat('}')) { do t->el.push_back(type(c)); while (c.eat(',')); c.need('}'); }
      return finishStruct(t, false);
    }
    if (ch == '<') {
      c.p++;
      if (c.peek() == '{') {
        c.p++;
        t = new Type{Type::Struct};
        if (!c.eat('}')) { do t->el.push_back(type(c)); while (c.eat(',')); c.need('}'); }
        c.need('>');
        return finishStruct(t, true);
      }
      u64 n = strtoull(string(c.ident()).c_str(), 0, 10);
      if (!c.word("x")) fatal("vec type");
      t = new Type{Type::Vec};
      t->n = n;
      t->e = type(c);
      c.need('>');
      t->slots = n;
      unsigned ew = t->e->k == Type::Ptr ? 64 : t->e->w;
      t->size = (ew * n + 7) / 8;
      u64 a = 1;
      while (a < t->size) a *= 2;
      t->align = a;
      t->size = a;
      return t;
    }
    if (ch == '[') {
      c.p++;
      u64 n = strtoull(string(c.ident()).c_str(), 0, 10);
      if (!c.word("x")) fatal("array type");
      t = new Type{Type::Array};
      t->n = n;
      t->e = type(c);
      c.need(']');
      t->size = n * t->e->size;
      t->align = t->e->align;
      t->slots = n * t->e->slots > 4096 ? 4096 : n * t->e->slots;
      return t;
    }
    if (ch == '%') {
      c.p++;
      string n = c.name();
      auto it = m.named.find(n);
      if (it == m.named.end()) fatal("unknown named type %s", n.c_str());
      return it->second;
    }
    string_view w = c.ident();
    if (w[0] == 'i' && w.size() > 1 && isdigit((unsigned char)w[1])) return mkint(atoi(string(w.substr(1)).c_str()));
    auto &tc = m.tcache[string(w)];
    if (tc) return tc;
    if (w == "ptr") { t = new Type{Type::Ptr}; t->w = 64; t->size = t->align = 8; }
    else if (w == "void") { t = new Type{Type::Void}; t->slots = 0; }
    else if (w == "float") { t = new Type{Type::Flt}; t->w = 32; t->size = t->align = 4; }
    else if (w == "double") { t = new Type{Type::Flt}; t->w = 64; t->size = t->align = 8; }
    else if (w == "label") t = new Type{Type::Label};
    else if (w == "metadata") { t = new Type{Type::Meta}; t->slots = 0; }
    else fatal("unknown type '%s' near %.60s", string(w).c_str(), string(c.p, std::min<size_t>(60, c.e - c.p)).c_str());
    return tc = t;
  }
  void skipAttrs(Cur &c) { // parameter / return attributes
    for (;;) {
      char ch = c.peek();
      if (ch == '#') { c.p++; c.ident(); continue; }
      if (ch == '"') { c.name(); if (c.eat('=')) c.name(); continue; }
      if (!isalpha((unsigned char)ch) || isTypeStart(c)) return;
      const char *s = c.p;
      string_view w = c.ident();
      static const char *vals[] = {"true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr", "ptrtoint", "inttoptr", "splat", "bitcast", "asm", "blockaddress", "trunc", "sub", "add", "c", "addrspacecast", "xor"};
      for (auto v : vals) if (w == v && !(w == "none")) { c.p = s; return; }
      if (w == "align") { if (c.peek() == '(') c.balanced(); else c.ident(); continue; }
      if (c.p < c.e && *c.p == '(') c.balanced();
    }
  }

  // ---- constants: append slot values
  u64 symAddr(const string &n) {
    auto it = m.fn.find(n);
    if (it != m.fn.end()) return it->second->weak ? 0 : it->second->addr;
    auto g = m.gl.find(n);
    if (g != m.gl.end()) return g->second->addr;
    auto a = m.aliases.find(n);
    if (a != m.aliases.end()) { Cur c(a->second); vector<V> o; constant(c, m.tcache["ptr"] ? m.tcache["ptr"] : type0("ptr"), o); return (u64)o[0].v; }
    fatal("unknown symbol @%s", n.c_str());
  }
  Type *type0(const char *s) { Cur c{string_view(s)}; return type(c); }
  void zeros(Type *t, vector<V> &o) { for (int i = 0; i < t->slots; i++) o.push_back({0, 0}); }
  u128 parseInt(Cur &c, unsigned w) {
    bool neg = c.eat('-');
    u128 v = 0;
    c.ws();
    while (c.p < c.e && isdigit((unsigned char)*c.p)) v = v * 10 + (*c.p++ - '0');
    if (neg) v = ~v + 1;
    return v & maskw(w);
  }
  // returns constant ptr/int value for a constant expression of scalar type
  void constant(Cur &c, Type *t, vector<V> &o) {
    char ch = c.peek();
    if (c.word("undef") || c.word("poison") || c.word("zeroinitializer") || c.word("null") || c.word("none")) { zeros(t, o); return; }
    if (c.word("true")) { o.push_back({1, 0}); return; }
    if (c.word("false")) { o.push_back({0, 0}); return; }
    if (ch == '@') { c.p++; o.push_back({symAddr(c.name()), 0}); return; }
    if (ch == '-' || isdigit((unsigned char)ch) || (t->k == Type::Flt && (ch == '+' || ch == 'i' || ch == 'n' || ch == 'f'))) {
      if (t->k == Type::Flt) {
        // decimal or hex float (f0x: the bits of the value itself)
        c.ws();
        if (c.p[0] == 'f' && c.p[1] == '0') { c.p++; o.push_back({strtoull(string(c.ident()).c_str(), 0, 16), 0}); return; }
        if (c.p[0] == '0' && c.p[1] == 'x') { u64 v = strtoull(string(c.ident()).c_str(), 0, 16); if (t->w == 32) { double d; memcpy(&d, &v, 8); float g = d; u32 x; memcpy(&x, &g, 4); v = x; } o.push_back({v, 0}); return; }
        const char *s = c.p;
        while (c.p < c.e && (isalnum((unsigned char)*c.p) || *c.p == '.' || *c.p == '-' || *c.p == '+')) c.p++;
        double d = strtod(string(s, c.p - s).c_str(), 0);
        u64 v;
        if (t->w == 32) { float g = d; u32 x; memcpy(&x, &g, 4); v = x; } else memcpy(&v, &d, 8);
        o.push_back({v, 0});
        return;
      }
      o.push_back({parseInt(c, t->k == Type::Ptr ? 64 : t->w), 0});
      return;
    }
    if (ch == 'c' && c.p[1] == '"') {
      c.p++;
      string s = c.name();
      for (unsigned char x : s) o.push_back({x, 0});
      return;
    }
    if (ch == '{' || ch == '[' || ch == '<') {
      bool pk = false;
      c.p++;
      if (ch == '<' && c.peek() == '{') { c.p++; pk = true; }
      char close = pk ? '}' : ch == '{' ? '}' : ch == '[' ? ']' : '>';
      if (!c.eat(close)) {
        do { Type *et = type(c); constant(c, et, o); } while (c.eat(','));
        c.need(close);
      }
      if (pk) c.need('>');
      return;
    }
    if (c.word("splat")) {
      c.need('(');
      Type *et = type(c);
      vector<V> x;
      constant(c, et, x);
      c.need(')');
      for (u64 i = 0; i < t->n; i++) o.push_back(x[0]);
      return;
    }
    if (c.word("getelementptr")) {
      while (c.peek() != '(') { c.ident(); if (c.peek() == '(' ) { // inrange(...) has its own parens followed by another '('
          const char *s = c.p; c.balanced(); if (c.peek() == '(') continue; c.p = s; break; } }
      c.need('(');
      Type *st = type(c);
      c.need(',');
      Type *pt = type(c);
      vector<V> b;
      constant(c, pt, b);
      u64 a = (u64)b[0].v;
      bool first = true;
      Type *cur = st;
      while (c.eat(',')) {
        skipAttrs(c);
        Type *it = type(c);
        vector<V> x;
        constant(c, it, x);
        i64 ix = (i64)sgn(x[0].v, it->w);
        if (first) { a += ix * (i64)cur->size; first = false; }
        else if (cur->k == Type::Struct) { a += cur->off[ix]; cur = cur->el[ix]; }
        else { a += ix * (i64)cur->e->size; cur = cur->e; }
      }
      c.need(')');
      o.push_back({a, 0});
      return;
    }
    for (const char *w : {"ptrtoint", "inttoptr", "bitcast", "trunc", "addrspacecast", "ptrtoaddr"})
      if (c.word(w)) {
        c.need('(');
        Type *it = type(c);
        vector<V> x;
        constant(c, it, x);
        if (!c.word("to")) fatal("const cast");
        Type *dt = type(c);
        c.need(')');
        o.push_back({x[0].v & maskw(dt->k == Type::Ptr ? 64 : dt->w), 0});
        return;
      }
    for (auto pr : {std::make_pair("sub", O_SUB), std::make_pair("add", O_ADD), std::make_pair("xor", O_XOR)})
      if (c.word(pr.first)) {
        while (c.peek() != '(') c.ident();
        c.need('(');
        Type *t1 = type(c); vector<V> x; constant(c, t1, x);
        c.need(',');
        Type *t2 = type(c); vector<V> y; constant(c, t2, y);
        c.need(')');
        o.push_back({foldop(pr.second, t1->w, x[0].v, y[0].v, t1->w), 0});
        return;
      }
    fatal("constant: cannot parse: %.80s", string(c.p, std::min<size_t>(80, c.e - c.p)).c_str());
  }
  int slotOf(const string &n, int k) {
    auto it = slot.find(n);
    if (it != slot.end()) return it->second;
    int s = f->nslots;
    f->nslots += k;
    slot[n] = s;
    return s;
  }
  int operand(Cur &c, Type *t) {
    if (c.peek() == '%') { c.p++; return slotOf(c.name(), t->slots); }
    if (t->k == Type::Meta) { // skip metadata operand
      int d = 0;
      while (c.p < c.e) { char ch = *c.p; if (ch == '(') d++; if (ch == ')') { if (!d) break; d--; } if (ch == ',' && !d) break; c.p++; }
      return 0;
    }
    vector<V> o;
    constant(c, t, o);
    if ((int)o.size() < t->slots) fatal("const slot mismatch %zu %d", o.size(), t->slots);
    if (o.size() == 1) {
      auto key = std::make_pair(o[0].v, 1);
      auto it = cpool.find(key);
      if (it != cpool.end()) return it->second;
      f->consts.push_back(o[0]);
      return cpool[key] = -(int)f->consts.size();
    }
    // multi-slot constants are laid out so that operand k is at index (base - k) => store reversed
    // consts are addressed as consts[~op + k]
    int base = f->consts.size();
    for (auto &v : o) f->consts.push_back(v);
    if (o.empty()) f->consts.push_back({0, 0});
    return ~base;
  }
  static unsigned wof(Type *t) { return t->k == Type::Ptr ? 64 : t->k == Type::Vec ? (t->e->k == Type::Ptr ? 64 : t->e->w) : t->w; }
  int bbOf(const string &n) {
    auto it = bbix.find(n);
    if (it == bbix.end()) fatal("unknown label %s in %s", n.c_str(), f->name.c_str());
    return it->second;
  }
  int edgeTo(const string &lbl) { f->edges.push_back({bbOf(lbl), {}}); return f->edges.size() - 1; }

  void parse(Func *fn);
  void line(Cur c, BB &bb, int bbi);
  void call(Cur &c, Ins &I, bool invoke, const string &res);
  struct Phi { int bb, dst, n; vector<std::pair<int, string>> in; };
  vector<Phi> phis;
  vector<vector<int>> bbEdges; // outgoing edges per bb
  int curbb = 0;
};

inline void Parser::call(Cur &c, Ins &I, bool invoke, const string &res) {
  // after 'call' / 'invoke'
  Side *s = new Side();
  I.side = s;
  I.op = I_CALL;
  for (;;) { // fast-math, cc, attributes until type
    if (isTypeStart(c)) break;
    char ch = c.peek();
    if (ch == '#') { c.p++; c.ident(); continue; }
    string_view w = c.ident();
    if (w.empty()) fatal("call: %.60s", string(c.p, std::min<size_t>(60, c.e - c.p)).c_str());
    if (w == "align") { c.ident(); continue; }
    if (c.p < c.e && *c.p == '(') c.balanced();
  }
  Type *rt = type(c);
  if (c.peek() == '(') { c.balanced(); } // vararg function type
  s->retSlots = rt->slots;
  s->retW = rt->k == Type::Void ? 0 : wof(rt);
  if (rt->k == Type::Void) s->retSlots = 0;
  if (c.peek() == '@') {
    c.p++;
    string n = c.name();
    auto it = m.fn.find(n);
    if (it == m.fn.end()) {
      auto a = m.aliases.find(n);
      if (a != m.aliases.end()) { Cur ac(a->second); while (ac.p < ac.e && *ac.p != '@') ac.p++; ac.p++; it = m.fn.find(ac.name()); }
      if (it == m.fn.end()) fatal("call to unknown @%s", n.c_str());
    }
    s->callee = it->second;
  } else if (c.peek() == '%') {
    s->direct = false;
    c.p++;
    s->calleeOp = slotOf(c.name(), 1);
  } else if (c.word("asm")) {
    s->isAsm = true;
    while (c.peek() != '"') c.ident();
    string tmpl = c.name();
    c.need(',');
    c.ws();
    string cons = c.name();
    if (tmpl.find_first_not_of(" \t\n#") != string::npos && tmpl.find("pause") == string::npos && tmpl.find("cpuid") == string::npos) { I.op = I_UNSUP; return; }
  } else {
    s->direct = false;
    Type *pt = type0("ptr");
    s->calleeOp = operand(c, pt);
  }
  c.need('(');
  if (!c.eat(')')) {
    do {
      if (c.word("...")) continue;
      Type *t = type(c);
      skipAttrs(c);
      int o = operand(c, t);
      if (t->k == Type::Meta) { s->args.push_back(0); s->argSlots.push_back(0); s->argW.push_back(0); continue; }
      s->args.push_back(o);
      s->argSlots.push_back(t->slots);
      s->argW.push_back(wof(t));
    } while (c.eat(','));
    c.need(')');
  }
  if (!res.empty()) I.dst = slotOf(res, rt->slots);
  if (invoke) {
    // find "to label %x unwind label %y"
    string_view rest(c.p, c.e - c.p);
    size_t p = rest.find("to label %");
    if (p == string_view::npos) fatal("invoke");
    c.p += p + 10;
    string a = c.name();
    if (!c.word("unwind") || !c.word("label")) fatal("invoke unwind");
    c.need('%');
    string b = c.name();
    s->normal = edgeTo(a);
    s->unwind = edgeTo(b);
    bbEdges[curbb].push_back(s->normal);
    bbEdges[curbb].push_back(s->unwind);
  }
}

inline void Parser::line(Cur c, BB &bb, int bbi) {
  curbb = bbi;
  string res;
  if (c.peek() == '%') {
    c.p++;
    res = c.name();
    c.need('=');
  }
  if (c.peek() == '#') return; // debug record
  while (c.word("tail") || c.word("musttail") || c.word("notail")) {}
  string_view op = c.ident();
  Ins I;
  I.op = I_NOP;
  auto addi = [&]() { bb.ins.push_back(I); };
  auto simpleFlags = [&]() { while (c.word("nuw") || c.word("nsw") || c.word("exact") || c.word("disjoint") || c.word("nneg") || c.word("inbounds") || c.word("nusw") || c.word("samesign") || c.word("fast") || c.word("nnan") || c.word("ninf") || c.word("nsz") || c.word("contract") || c.word("arcp") || c.word("afn") || c.word("reassoc")) {} };
  static const std::unordered_map<string_view, Op> bins = {
    {"add", O_ADD}, {"sub", O_SUB}, {"mul", O_MUL}, {"udiv", O_UDIV}, {"sdiv", O_SDIV}, {"urem", O_UREM}, {"srem", O_SREM},
    {"shl", O_SHL}, {"lshr", O_LSHR}, {"ashr", O_ASHR}, {"and", O_AND}, {"or", O_OR}, {"xor", O_XOR}};
  static const std::unordered_map<string_view, Pred> preds = {
    {"eq", P_EQ}, {"ne", P_NE}, {"ugt", P_UGT}, {"uge", P_UGE}, {"ult", P_ULT}, {"ule", P_ULE}, {"sgt", P_SGT}, {"sge", P_SGE}, {"slt", P_SLT}, {"sle", P_SLE}};
  auto bi = bins.find(op);
  if (bi != bins.end()) {
    simpleFlags();
    Type *t = type(c);
    I.op = I_BIN; I.sub = bi->second; I.w = wof(t); I.n = t->slots;
    I.a = operand(c, t); c.need(','); I.b = operand(c, t);
    I.dst = slotOf(res, t->slots);
    return addi();
  }
  if (op == "alloca") {
    c.word("inalloca");
    Type *t = type(c);
    I.op = I_ALLOCA; I.imm = t->size; I.n = 1; I.a = 0; I.b = 16;
    while (c.eat(',')) {
      if (c.word("align")) { I.b = atoi(string(c.ident()).c_str()); if (I.b < 8) I.b = 8; }
      else if (c.peek() == '!') break;
      else { Type *ct = type(c); int o = operand(c, ct); if (o >= 0) fatal("dynamic alloca"); I.imm *= (u64)f->consts[~o].v; }
    }
    I.dst = slotOf(res, 1);
    return addi();
  }
  if (op == "load") {
    if (c.word("atomic")) I.atomic = true;
    c.word("volatile");
    Type *t = type(c);
    c.need(',');
    Type *pt = type(c);
    I.op = I_LOAD; I.a = operand(c, pt); I.n = t->slots; I.w = wof(t);
    I.dst = slotOf(res, t->slots);
    if (t->slots != 1 || t->k == Type::Vec || t->k == Type::Struct || t->k == Type::Array) {
      I.side = new Side(); leaves(t, 0, I.side->lv);
      I.side->bitpacked = t->k == Type::Vec && t->e->k == Type::Int && t->e->w % 8;
    }
    return addi();
  }
  if (op == "store") {
    if (c.word("atomic")) I.atomic = true;
    c.word("volatile");
    Type *t = type(c);
    I.op = I_STORE; I.b = operand(c, t); c.need(',');
    Type *pt = type(c);
    I.a = operand(c, pt); I.n = t->slots; I.w = wof(t);
    if (t->slots != 1 || t->k == Type::Vec || t->k == Type::Struct || t->k == Type::Array) {
      I.side = new Side(); leaves(t, 0, I.side->lv);
      I.side->bitpacked = t->k == Type::Vec && t->e->k == Type::Int && t->e->w % 8;
    }
    return addi();
  }
  if (op == "getelementptr") {
    simpleFlags();
    Type *st = type(c);
    c.need(',');
    Type *pt = type(c);
    if (pt->k == Type::Vec) { I.op = I_UNSUP; return addi(); }
    I.op = I_GEP; I.a = operand(c, pt); I.side = new Side(); I.imm = 0;
    bool first = true;
    Type *cur = st;
    while (c.eat(',')) {
      if (c.peek() == '!') break;
      skipAttrs(c);
      Type *it = type(c);
      int o = operand(c, it);
      u64 sc; 
      if (first) { sc = cur->size; first = false; }
      else if (cur->k == Type::Struct) {
        u64 ix = (u64)f->consts[~o].v;
        I.imm += cur->off[ix]; cur = cur->el[ix];
        continue;
      } else { sc = cur->e->size; cur = cur->e; }
      if (o < 0) I.imm += (u64)(i64)sgn(f->consts[~o].v, it->w) * sc;
      else I.side->gi.push_back({o, it->w, sc});
    }
    I.dst = slotOf(res, 1);
    return addi();
  }
  if (op == "icmp") {
    simpleFlags();
    I.op = I_ICMP; I.sub = preds.at(c.ident());
    Type *t = type(c);
    I.w = wof(t); I.n = t->slots;
    I.a = operand(c, t); c.need(','); I.b = operand(c, t);
    I.dst = slotOf(res, t->slots);
    return addi();
  }
  if (op == "br") {
    Type *t = type(c);
    if (t->k == Type::Label) {
      c.need('%');
      I.op = I_BR; I.a = edgeTo(c.name());
      bbEdges[bbi].push_back(I.a);
      return addi();
    }
    I.op = I_CBR; I.c = operand(c, t);
    c.need(','); c.word("label"); c.need('%'); I.a = edgeTo(c.name());
    c.need(','); c.word("label"); c.need('%'); I.b = edgeTo(c.name());
    bbEdges[bbi].push_back(I.a); bbEdges[bbi].push_back(I.b);
    return addi();
  }
  if (op == "switch") {
    Type *t = type(c);
    I.op = I_SWITCH; I.w = wof(t); I.side = new Side();
    I.a = operand(c, t);
    c.need(','); c.word("label"); c.need('%');
    I.side->deflt = edgeTo(c.name());
    bbEdges[bbi].push_back(I.side->deflt);
    c.need('[');
    while (!c.eat(']')) {
      Type *vt = type(c);
      vector<V> o;
      constant(c, vt, o);
      c.need(','); c.word("label"); c.need('%');
      int e = edgeTo(c.name());
      bbEdges[bbi].push_back(e);
      I.side->cases.push_back({o[0].v, e});
    }
    return addi();
  }
  if (op == "ret") {
    Type *t = type(c);
    I.op = I_RET; I.n = t->k == Type::Void ? 0 : t->slots;
    if (I.n) I.a = operand(c, t);
    return addi();
  }
  if (op == "unreachable") { I.op = I_UNREACH; return addi(); }
  if (op == "call" || op == "invoke") { call(c, I, op == "invoke", res); return addi(); }
  if (op == "phi") {
    simpleFlags();
    Type *t = type(c);
    Phi p;
    p.bb = bbi; p.dst = slotOf(res, t->slots); p.n = t->slots;
    do {
      if (c.peek() == '!') break;
      c.need('[');
      int o = operand(c, t);
      c.need(','); c.need('%');
      p.in.push_back({o, c.name()});
      c.need(']');
    } while (c.eat(','));
    phis.push_back(p);
    return;
  }
  if (op == "select") {
    simpleFlags();
    Type *ct = type(c);
    I.op = I_SELECT; I.c = operand(c, ct); I.vcond = ct->k == Type::Vec;
    c.need(',');
    Type *t = type(c);
    I.a = operand(c, t); c.need(','); type(c); I.b = operand(c, t);
    I.w = wof(t); I.n = t->slots; I.dst = slotOf(res, t->slots);
    if (t->k == Type::Struct || t->k == Type::Array) { I.side = new Side(); leaves(t, 0, I.side->lv); }
    return addi();
  }
  if (op == "trunc" || op == "zext" || op == "sext" || op == "ptrtoint" || op == "inttoptr" || op == "bitcast" || op == "addrspacecast" || op == "ptrtoaddr") {
    simpleFlags();
    Type *st = type(c);
    I.a = operand(c, st);
    if (!c.word("to")) fatal("cast");
    Type *dt = type(c);
    I.w = wof(st); I.w2 = wof(dt); I.n = dt->slots; I.dst = slotOf(res, dt->slots);
    if (op == "bitcast" && (st->slots != dt->slots || wof(st) != wof(dt))) { I.op = I_BITCAST; I.c = st->slots; return addi(); }
    if (op == "sext") I.op = I_SEXT;
    else if (I.w == I.w2) I.op = I_COPY;
    else if (I.w > I.w2) I.op = I_TRUNC;
    else I.op = I_ZEXT;
    return addi();
  }
  if (op == "freeze") { Type *t = type(c); I.op = I_COPY; I.n = t->slots; I.a = operand(c, t); I.dst = slotOf(res, t->slots); return addi(); }
  if (op == "extractvalue" || op == "insertvalue") {
    Type *t = type(c);
    int agg = operand(c, t), val = 0;
    Type *vt = 0;
    if (op == "insertvalue") { c.need(','); vt = type(c); val = operand(c, vt); }
    int off = 0;
    Type *cur = t;
    while (c.eat(',')) {
      if (c.peek() == '!') break;
      int ix = atoi(string(c.ident()).c_str());
      if (cur->k == Type::Struct) { for (int i = 0; i < ix; i++) off += cur->el[i]->slots; cur = cur->el[ix]; }
      else { off += ix * cur->e->slots; cur = cur->e; }
    }
    if (op == "extractvalue") {
      I.op = I_COPY; I.n = cur->slots; I.dst = slotOf(res, cur->slots);
      I.a = agg >= 0 ? agg + off : ~((~agg) + off);
    } else {
      I.op = I_INSV; I.n = t->slots; I.a = agg; I.b = val; I.c = off; I.imm = vt->slots; I.dst = slotOf(res, t->slots);
    }
    return addi();
  }
  if (op == "extractelement") {
    Type *t = type(c); I.a = operand(c, t); c.need(','); Type *it = type(c); I.b = operand(c, it);
    I.op = I_EXTELT; I.n = t->slots; I.dst = slotOf(res, 1); I.w = wof(t);
    return addi();
  }
  if (op == "insertelement") {
    Type *t = type(c); I.a = operand(c, t); c.need(','); Type *vt = type(c); I.b = operand(c, vt); c.need(','); Type *it = type(c); I.c = operand(c, it);
    I.op = I_INSELT; I.n = t->slots; I.dst = slotOf(res, t->slots); I.w = wof(t);
    return addi();
  }
  if (op == "shufflevector") {
    Type *t = type(c); I.a = operand(c, t); c.need(','); type(c); I.b = operand(c, t); c.need(',');
    Type *mt = type(c);
    vector<V> o; constant(c, mt, o);
    I.op = I_SHUF; I.side = new Side(); for (auto &v : o) I.side->mask.push_back((int)(i64)sgn(v.v, 32));
    I.c = t->slots; I.n = mt->n; I.dst = slotOf(res, mt->n);
    return addi();
  }
  if (op == "fence") return;
  if (op == "cmpxchg") {
    c.word("weak"); c.word("volatile");
    Type *pt = type(c); I.a = operand(c, pt); c.need(',');
    Type *t = type(c); I.b = operand(c, t); c.need(','); type(c); I.c = operand(c, t);
    I.op = I_CMPXCHG; I.w = wof(t); I.dst = slotOf(res, 2); I.atomic = true;
    return addi();
  }
  if (op == "atomicrmw") {
    c.word("volatile");
    static const std::unordered_map<string_view, Rmw> rm = {{"xchg", R_XCHG}, {"add", R_ADD}, {"sub", R_SUB}, {"and", R_AND}, {"nand", R_NAND}, {"or", R_OR}, {"xor", R_XOR}, {"max", R_MAX}, {"min", R_MIN}, {"umax", R_UMAX}, {"umin", R_UMIN}};
    I.sub = rm.at(c.ident());
    Type *pt = type(c); I.a = operand(c, pt); c.need(',');
    Type *t = type(c); I.b = operand(c, t);
    I.op = I_RMW; I.w = wof(t); I.dst = slotOf(res, 1); I.atomic = true;
    return addi();
  }
  if (op == "landingpad") { Type *t = type(c); I.op = I_LPAD; I.dst = slotOf(res, t->slots); return addi(); }
  if (op == "resume") { Type *t = type(c); I.op = I_RESUME; I.a = operand(c, t); return addi(); }
  if (op == "fadd" || op == "fsub" || op == "fmul" || op == "fdiv") {
    simpleFlags(); Type *t = type(c); I.op = I_FBIN; I.sub = op[1]; if (op == "fdiv") I.sub = '/'; I.w = wof(t); I.n = t->slots;
    I.a = operand(c, t); c.need(','); I.b = operand(c, t); I.dst = slotOf(res, t->slots); return addi();
  }
  if (op == "fcmp") {
    simpleFlags(); string_view p = c.ident(); Type *t = type(c); I.op = I_FCMP; I.w = wof(t); I.n = t->slots;
    static const char *ps[] = {"false","oeq","ogt","oge","olt","ole","one","ord","uno","ueq","ugt","uge","ult","ule","une","true"};
    for (int i = 0; i < 16; i++) if (p == ps[i]) I.sub = i;
    I.a = operand(c, t); c.need(','); I.b = operand(c, t); I.dst = slotOf(res, t->slots); return addi();
  }
  if (op == "uitofp" || op == "sitofp" || op == "fptoui" || op == "fptosi" || op == "fpext" || op == "fptrunc") {
    simpleFlags(); Type *st = type(c); I.a = operand(c, st); c.word("to"); Type *dt = type(c);
    I.op = I_FCAST; I.w = wof(st); I.w2 = wof(dt); I.sub = op == "uitofp" ? 0 : op == "sitofp" ? 1 : op == "fptoui" ? 2 : op == "fptosi" ? 3 : 4;
    I.dst = slotOf(res, dt->slots); return addi();
  }
  // unsupported: only an error if executed
  I.op = I_UNSUP;
  if (!res.empty()) I.dst = slotOf(res, 1);
  addi();
}

inline void Parser::parse(Func *fn) {
  f = fn;
  fn->parsed = true;
  // ---- parameters
  Cur c(fn->head);
  unsigned unnamed = 0;
  c.need('(');
  if (!c.eat(')')) {
    do {
      if (c.word("...")) continue;
      Type *t = type(c);
      skipAttrs(c);
      string n;
      if (c.peek() == '%') { c.p++; n = c.name(); } else n = std::to_string(unnamed);
      if (!n.empty() && n.find_first_not_of("0123456789") == string::npos) unnamed++;
      fn->params.push_back(slotOf(n, t->slots));
      fn->paramSlots.push_back(t->slots);
    } while (c.eat(','));
    c.need(')');
  }
  // ---- split into logical lines
  struct L { string_view s; int bb; };
  vector<L> lines;
  vector<string> labels;
  const char *p = fn->body.data(), *e = p + fn->body.size();
  bool any = false;
  vector<string *> joined;
  while (p < e) {
    const char *nl = (const char *)memchr(p, '\n', e - p);
    if (!nl) nl = e;
    string_view ln(p, nl - p);
    p = nl + 1;
    if (ln.empty() || ln[0] == ';' || ln[0] == '}') continue;
    if (ln[0] != ' ') { // label
      Cur lc(ln);
      string n = lc.name();
      if (labels.empty() && any) fatal("label order");
      labels.push_back(n);
      bbix[n] = labels.size() - 1;
      any = true;
      continue;
    }
    if (!any) { labels.push_back(std::to_string(unnamed)); bbix[labels[0]] = 0; any = true; }
    // continuation?
    if (ln.size() > 10 && ln.substr(0, 10) == "          " && !lines.empty()) {
      const char *s = lines.back().s.data();
      lines.back().s = string_view(s, ln.data() + ln.size() - s);
      continue;
    }
    size_t ns = ln.find_first_not_of(' ');
    if (ns != string_view::npos && ln.substr(ns, 7) == "switch " ) {
      const char *s = ln.data();
      if (ln.find(']') == string_view::npos || ln.find("[") == ln.size() - 1) {
        const char *q = nl;
        for (;;) {
          const char *q2 = (const char *)memchr(q + 1, '\n', e - q - 1);
          if (!q2) q2 = e;
          string_view l2(q + 1, q2 - q - 1);
          size_t k = l2.find_first_not_of(' ');
          q = q2;
          if (k != string_view::npos && l2[k] == ']') break;
          if (q >= e) break;
        }
        ln = string_view(s, q - s);
        p = q + 1;
      }
    }
    lines.push_back({ln, (int)labels.size() - 1});
  }
  fn->bbs.resize(labels.size());
  bbEdges.resize(labels.size());
  for (auto &l : lines) line(Cur(l.s), fn->bbs[l.bb], l.bb);
  // ---- phi edges
  for (auto &ph : phis)
    for (auto &in : ph.in) {
      int pb = bbOf(in.second);
      for (int ei : bbEdges[pb])
        if (fn->edges[ei].bb == ph.bb) fn->edges[ei].copies.push_back({ph.dst, in.first, ph.n});
    }
  // a predecessor listed twice in a phi adds duplicates; harmless (same value) but drop them
  for (auto &ed : fn->edges) {
    vector<Copy> u;
    for (auto &cp : ed.copies) { bool dup = false; for (auto &x : u) if (x.dst == cp.dst) dup = true; if (!dup) u.push_back(cp); }
    ed.copies = u;
  }
}

// mapped, not read: forked processes need not copy its page tables
inline void Module::load(const char *path) {
  int fd = open(path, O_RDONLY);
  struct stat st;
  if (fd < 0 || fstat(fd, &st)) fatal("cannot open %s", path);
  void *p = mmap(0, st.st_size, PROT_READ, MAP_SHARED, fd, 0);
  if (p == MAP_FAILED) fatal("mmap %s", path);
  close(fd);
  text = string_view((const char *)p, st.st_size);
}
inline void Module::scan() {
  const char *p = text.data(), *e = p + text.size();
  while (p < e) {
    const char *nl = (const char *)memchr(p, '\n', e - p);
    if (!nl) nl = e;
    string_view ln(p, nl - p);
    if (!ln.empty()) {
      if (ln[0] == '@') {
        Cur c(ln);
        c.p++;
        string n = c.name();
        c.need('=');
        string_view rest(c.p, c.e - c.p);
        if (rest.find(" alias ") != string_view::npos && rest.find(" alias ") < 80) {
          size_t k = rest.find(" alias ");
          Cur a(rest.substr(k + 7));
          // alias TYPE, ptr @target
          while (a.p < a.e && *a.p != ',') a.p++;
          a.p++;
          a.word("ptr");
          a.ws();
          aliases[n] = string_view(a.p, a.e - a.p);
        } else {
          Global *g = new Global();
          g->name = n;
          g->text = rest;
          gl[n] = g;
          gls.push_back(g);
        }
      } else if (ln[0] == '%' ) {
        Cur c(ln);
        c.p++;
        string n = c.name();
        c.need('=');
        if (c.word("type")) { Parser ps(*this); if (c.word("opaque")) { named[n] = new Type{Type::Void}; } else named[n] = ps.type(c); }
      } else if (ln.substr(0, 7) == "define " || ln.substr(0, 8) == "declare ") {
        bool def = ln[2] == 'f';
        // function name: first @ outside quotes at paren depth 0
        const char *q = ln.data();
        int d = 0;
        while (q < nl) {
          if (*q == '"') { q++; while (q < nl && *q != '"') q++; }
          else if (*q == '(') d++;
          else if (*q == ')') d--;
          else if (*q == '@' && d == 0) break;
          q++;
        }
        Cur c(string_view(q, nl - q));
        c.p++;
        string n = c.name();
        Func *f = new Func();
        f->name = n;
        f->id = fns.size();
        f->addr = FBASE + 16 * (u64)f->id;
        f->defined = def;
        f->weak = ln.substr(0, 40).find("extern_weak") != string_view::npos;
        f->head = string_view(c.p, nl - c.p);
        if (def) {
          const char *s = nl + 1, *x = s;
          for (;;) {
            const char *y = (const char *)memchr(x, '\n', e - x);
            if (!y) y = e;
            if (*x == '}' ) { f->body = string_view(s, x - s); nl = y; break; }
            x = y + 1;
            if (x >= e) fatal("unterminated function");
          }
        }
        fn[n] = f;
        fns.push_back(f);
      }
    }
    p = nl + 1;
  }
}
