// Hash-consed bit-vector expressions (width 1..128) with simplification and Z3 translation.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : u8 {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR,
  O_AND, O_OR, O_XOR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT
};
struct Ex {
  Op op;
  u8 w;
  u32 id;
  u32 aux; // EXTRACT: low bit; VAR: variable index
  const Ex *a, *b, *c;
  u128 k;
};
static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sgn(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  v &= maskw(w);
  if (v >> (w - 1)) return (i128)(v | ~maskw(w));
  return (i128)v;
}
static inline u128 foldop(Op op, unsigned w, u128 a, u128 b, unsigned wa) {
  u128 m = maskw(w);
  switch (op) {
  case O_ADD: return (a + b) & m;
  case O_SUB: return (a - b) & m;
  case O_MUL: return (a * b) & m;
  case O_UDIV: return b ? (a / b) & m : m;
  case O_UREM: return b ? (a % b) & m : a;
  case O_SDIV: { i128 x = sgn(a, w), y = sgn(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
  case O_SREM: { i128 x = sgn(a, w), y = sgn(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
  case O_LSHR: return b >= w ? 0 : (a >> (unsigned)b) & m;
  case O_ASHR: { i128 x = sgn(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
  case O_AND: return a & b;
  case O_OR: return a | b;
  case O_XOR: return a ^ b;
  case O_EQ: return a == b;
  case O_ULT: return a < b;
  case O_ULE: return a <= b;
  case O_SLT: return sgn(a, wa) < sgn(b, wa);
  case O_SLE: return sgn(a, wa) <= sgn(b, wa);
  default: abort();
  }
}
struct ExHash {
  size_t operator()(const Ex *e) const {
    u64 h = e->op * 0x9E3779B97F4A7C15ull + e->w;
    auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
    mix(e->aux); mix((u64)e->a); mix((u64)e->b); mix((u64)e->c); mix((u64)e->k); mix((u64)(e->k >> 64));
    return h;
  }
};
struct ExEq {
  bool operator()(const Ex *x, const Ex *y) const {
    return x->op == y->op && x->w == y->w && x->aux == y->aux && x->a == y->a && x->b == y->b && x->c == y->c && x->k == y->k;
  }
};
struct VarInfo { std::string name; u8 w; };
struct Exprs {
  std::unordered_map<const Ex *, const Ex *, ExHash, ExEq> tab;
  std::vector<const Ex *> all;
  std::vector<VarInfo> vars;
  std::vector<const Ex *> varex;
  const Ex *mk(Op op, u8 w, const Ex *a, const Ex *b, const Ex *c, u32 aux, u128 k) {
    Ex t{op, w, 0, aux, a, b, c, k};
    auto it = tab.find(&t);
    if (it != tab.end()) return it->second;
    Ex *n = new Ex(t);
    n->id = all.size();
    all.push_back(n);
    tab.emplace(n, n);
    return n;
  }
  const Ex *cst(u128 v, u8 w) { return mk(O_CONST, w, 0, 0, 0, 0, v & maskw(w)); }
  const Ex *var(const std::string &n, u8 w) {
    u32 i = vars.size();
    vars.push_back({n, w});
    const Ex *e = mk(O_VAR, w, 0, 0, 0, i, 0);
    varex.push_back(e);
    return e;
  }
  const Ex *notb(const Ex *a) { return bin(O_XOR, a, cst(1, 1)); }
  const Ex *bin(Op op, const Ex *a, const Ex *b) {
    u8 w = a->w;
    u8 rw = (op >= O_EQ && op <= O_SLE) ? 1 : w;
    if (a->op == O_CONST && b->op == O_CONST) return cst(foldop(op, rw == 1 && op >= O_EQ ? 1 : w, a->k, b->k, w), rw);
    bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ;
    if (comm && a->op == O_CONST) std::swap(a, b);
    if (comm && b->op != O_CONST && a->id > b->id) std::swap(a, b);
    bool bc = b->op == O_CONST;
    if (bc) {
      u128 k = b->k;
      switch (op) {
      case O_ADD: case O_SUB: case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR: if (k == 0) return a;
        break;
      case O_MUL: if (k == 1) return a; if (k == 0) return b; break;
      case O_UDIV: if (k == 1) return a;
        break;
      case O_AND: if (k == 0) return b; if (k == maskw(w)) return a;
        if (a->op == O_ZEXT && (k & maskw(a->a->w)) == maskw(a->a->w)) return a;
        break;
      default: break;
      }
      if (op == O_OR && k == maskw(w)) return b;
      if (op == O_XOR && a->op == O_XOR && a->b->op == O_CONST) return bin(O_XOR, a->a, cst(a->b->k ^ k, w));
      if (op == O_ADD && a->op == O_ADD && a->b->op == O_CONST) return bin(O_ADD, a->a, cst(a->b->k + k, w));
      if (op == O_SUB) return bin(O_ADD, a, cst((~k + 1), w));
      if (op == O_EQ) {
        if (w == 1) return k ? a : notb(a);
        if (a->op == O_ZEXT) { if (k > maskw(a->a->w)) return cst(0, 1); return bin(O_EQ, a->a, cst(k, a->a->w)); }
        if (a->op == O_ADD && a->b->op == O_CONST) return bin(O_EQ, a->a, cst(k - a->b->k, w));
        if (a->op == O_XOR && a->b->op == O_CONST) return bin(O_EQ, a->a, cst(k ^ a->b->k, w));
        if (a->op == O_ITE && a->b->op == O_CONST && a->c->op == O_CONST) {
          bool x = a->b->k == k, y = a->c->k == k;
          if (x && y) return cst(1, 1);
          if (x) return a->a;
          if (y) return notb(a->a);
          return cst(0, 1);
        }
      }
      if (op == O_ULT && a->op == O_ZEXT) { if (k > maskw(a->a->w)) return cst(1, 1); return bin(O_ULT, a->a, cst(k, a->a->w)); }
      if (op == O_ULT && k == 0) return cst(0, 1);
    }
    if (a == b) {
      switch (op) {
      case O_SUB: case O_XOR: return cst(0, w);
      case O_AND: case O_OR: return a;
      case O_EQ: case O_ULE: case O_SLE: return cst(1, 1);
      case O_ULT: case O_SLT: return cst(0, 1);
      default: break;
      }
    }
    // byte assembly: zext(x) | (zext(y) << k) with k == width(x)
    if (op == O_OR) {
      const Ex *x = a, *y = b;
      for (int s = 0; s < 2; s++, std::swap(x, y))
        if (x->op == O_ZEXT && y->op == O_SHL && y->b->op == O_CONST && y->b->k == x->a->w) {
          const Ex *hi = extract(y->a, 0, w - x->a->w);
          return concat(hi, x->a);
        }
    }
    return mk(op, rw, a, b, 0, 0, 0);
  }
  const Ex *ite(const Ex *c, const Ex *a, const Ex *b) {
    if (c->op == O_CONST) return c->k ? a : b;
    if (a == b) return a;
    if (a->w == 1 && a->op == O_CONST && b->op == O_CONST) return a->k ? c : notb(c);
    return mk(O_ITE, a->w, c, a, b, 0, 0);
  }
  const Ex *zext(const Ex *a, u8 w) {
    if (a->w == w) return a;
    if (a->op == O_CONST) return cst(a->k, w);
    if (a->op == O_ZEXT) a = a->a;
    return mk(O_ZEXT, w, a, 0, 0, 0, 0);
  }
  const Ex *sext(const Ex *a, u8 w) {
    if (a->w == w) return a;
    if (a->op == O_CONST) return cst((u128)sgn(a->k, a->w), w);
    return mk(O_SEXT, w, a, 0, 0, 0, 0);
  }
  const Ex *extract(const Ex *a, u32 lo, u8 w) {
    if (lo == 0 && a->w == w) return a;
    if (a->op == O_CONST) return cst(a->k >> lo, w);
    if (a->op == O_EXTRACT) return extract(a->a, a->aux + lo, w);
    if (a->op == O_ZEXT) {
      if (lo >= a->a->w) return cst(0, w);
      if (lo + w <= a->a->w) return extract(a->a, lo, w);
      if (lo == 0) return zext(a->a, w);
    }
    if (a->op == O_CONCAT) {
      u8 lw = a->b->w;
      if (lo + w <= lw) return extract(a->b, lo, w);
      if (lo >= lw) return extract(a->a, lo - lw, w);
    }
    if (a->op == O_SHL && a->b->op == O_CONST && a->b->k < a->w) {
      u32 s = (u32)a->b->k;
      if (lo >= s) return extract(a->a, lo - s, w);
      if (lo + w <= s) return cst(0, w);
    }
    if (a->op == O_LSHR && a->b->op == O_CONST && a->b->k < a->w) {
      u32 s = (u32)a->b->k;
      if (lo + s + w <= a->w) return extract(a->a, lo + s, w);
      if (lo + s >= a->w) return cst(0, w);
    }
    if (a->op == O_AND || a->op == O_OR || a->op == O_XOR)
      return bin(a->op, extract(a->a, lo, w), extract(a->b, lo, w));
    if (a->op == O_ITE && a->b->op == O_CONST && a->c->op == O_CONST)
      return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
    if (lo == 0 && (a->op == O_ADD || a->op == O_SUB || a->op == O_MUL))
      return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w));
    return mk(O_EXTRACT, w, a, 0, 0, lo, 0);
  }
  const Ex *concat(const Ex *hi, const Ex *lo) {
    u8 w = hi->w + lo->w;
    if (hi->op == O_CONST && lo->op == O_CONST) return cst((hi->k << lo->w) | lo->k, w);
    if (hi->op == O_CONST && hi->k == 0) return zext(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w)
      return extract(hi->a, lo->aux, w);
    if (hi->op == O_ZEXT && hi->a->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a->a == lo->a && hi->a->aux == lo->aux + lo->w)
      return zext(extract(lo->a, lo->aux, hi->a->w + lo->w), w);
    if (hi->op == O_CONCAT && hi->b->op == O_EXTRACT && lo->op == O_EXTRACT && hi->b->a == lo->a && hi->b->aux == lo->aux + lo->w)
      return concat(hi->a, extract(lo->a, lo->aux, hi->b->w + lo->w));
    return mk(O_CONCAT, w, hi, lo, 0, 0, 0);
  }
  // concrete evaluation under an assignment
  std::vector<u128> memo;
  std::vector<u32> stamp;
  u32 cur = 0;
  void newEval() { cur++; }
  u128 eval(const Ex *e, const std::vector<u128> &m) {
    if (e->op == O_CONST) return e->k;
    if (stamp.size() < all.size()) { stamp.resize(all.size() + 1024, 0); memo.resize(stamp.size()); }
    if (stamp[e->id] == cur) return memo[e->id];
    u128 r;
    switch (e->op) {
    case O_VAR: r = e->aux < m.size() ? m[e->aux] & maskw(e->w) : 0; break;
    case O_ITE: r = eval(e->a, m) ? eval(e->b, m) : eval(e->c, m); break;
    case O_ZEXT: r = eval(e->a, m); break;
    case O_SEXT: r = (u128)sgn(eval(e->a, m), e->a->w) & maskw(e->w); break;
    case O_EXTRACT: r = (eval(e->a, m) >> e->aux) & maskw(e->w); break;
    case O_CONCAT: r = (eval(e->a, m) << e->b->w) | eval(e->b, m); break;
    default: r = foldop(e->op, (e->op >= O_EQ) ? 1 : e->w, eval(e->a, m), eval(e->b, m), e->a->w);
    }
    if (stamp.size() < all.size()) { stamp.resize(all.size() + 1024, 0); memo.resize(stamp.size()); }
    stamp[e->id] = cur;
    memo[e->id] = r;
    return r;
  }
  // ---- Z3 ----
  Z3_context z = 0;
  std::vector<Z3_ast> zmemo;
  Z3_ast one = 0;
  void initz3() {
    Z3_config cfg = Z3_mk_config();
    z = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    one = Z3_mk_unsigned_int64(z, 1, Z3_mk_bv_sort(z, 1));
  }
  Z3_ast b2v(Z3_ast b) {
    Z3_sort s = Z3_mk_bv_sort(z, 1);
    return Z3_mk_ite(z, b, Z3_mk_unsigned_int64(z, 1, s), Z3_mk_unsigned_int64(z, 0, s));
  }
  Z3_ast toz(const Ex *e) {
    if (zmemo.size() < all.size()) zmemo.resize(all.size() + 1024, 0);
    if (zmemo[e->id]) return zmemo[e->id];
    Z3_ast r = 0;
    switch (e->op) {
    case O_CONST: {
      if (e->w <= 64) r = Z3_mk_unsigned_int64(z, (u64)e->k, Z3_mk_bv_sort(z, e->w));
      else
        r = Z3_mk_concat(z, Z3_mk_unsigned_int64(z, (u64)(e->k >> 64), Z3_mk_bv_sort(z, e->w - 64)),
                         Z3_mk_unsigned_int64(z, (u64)e->k, Z3_mk_bv_sort(z, 64)));
      break;
    }
    case O_VAR: r = Z3_mk_const(z, Z3_mk_int_symbol(z, e->aux), Z3_mk_bv_sort(z, e->w)); break;
    case O_ITE: r = Z3_mk_ite(z, Z3_mk_eq(z, toz(e->a), one), toz(e->b), toz(e->c)); break;
    case O_ZEXT: r = Z3_mk_zero_ext(z, e->w - e->a->w, toz(e->a)); break;
    case O_SEXT: r = Z3_mk_sign_ext(z, e->w - e->a->w, toz(e->a)); break;
    case O_EXTRACT: r = Z3_mk_extract(z, e->aux + e->w - 1, e->aux, toz(e->a)); break;
    case O_CONCAT: r = Z3_mk_concat(z, toz(e->a), toz(e->b)); break;
    default: {
      Z3_ast a = toz(e->a), b = toz(e->b);
      switch (e->op) {
      case O_ADD: r = Z3_mk_bvadd(z, a, b); break;
      case O_SUB: r = Z3_mk_bvsub(z, a, b); break;
      case O_MUL: r = Z3_mk_bvmul(z, a, b); break;
      case O_UDIV: r = Z3_mk_bvudiv(z, a, b); break;
      case O_SDIV: r = Z3_mk_bvsdiv(z, a, b); break;
      case O_UREM: r = Z3_mk_bvurem(z, a, b); break;
      case O_SREM: r = Z3_mk_bvsrem(z, a, b); break;
      case O_SHL: r = Z3_mk_bvshl(z, a, b); break;
      case O_LSHR: r = Z3_mk_bvlshr(z, a, b); break;
      case O_ASHR: r = Z3_mk_bvashr(z, a, b); break;
      case O_AND: r = Z3_mk_bvand(z, a, b); break;
      case O_OR: r = Z3_mk_bvor(z, a, b); break;
      case O_XOR: r = Z3_mk_bvxor(z, a, b); break;
      case O_EQ: r = b2v(Z3_mk_eq(z, a, b)); break;
      case O_ULT: r = b2v(Z3_mk_bvult(z, a, b)); break;
      case O_ULE: r = b2v(Z3_mk_bvule(z, a, b)); break;
      case O_SLT: r = b2v(Z3_mk_bvslt(z, a, b)); break;
      case O_SLE: r = b2v(Z3_mk_bvsle(z, a, b)); break;
      default: abort();
      }
    }
    }
    if (zmemo.size() < all.size()) zmemo.resize(all.size() + 1024, 0);
    zmemo[e->id] = r;
    return r;
  }
  Z3_ast tob(const Ex *e) { return Z3_mk_eq(z, toz(e), one); }
};
