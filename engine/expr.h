// Hash-consed bit-vector / IEEE-754 expression DAG, evaluation under a model,
// and translation to Z3.
#pragma once
#include <cfenv>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <sys/time.h>
#include <z3.h>

using u64 = uint64_t;
using u32 = uint32_t;
using u8 = uint8_t;
using i64 = int64_t;

inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sx(u64 v, unsigned w) {
  if (w >= 64) return (i64)v;
  u64 m = 1ull << (w - 1);
  v &= mask(w);
  return (i64)((v ^ m) - m);
}
inline double now_s() {
  timeval tv;
  gettimeofday(&tv, nullptr);
  return tv.tv_sec + tv.tv_usec * 1e-6;
}

enum EK : u8 {
  EConst, EVar, EAdd, ESub, EMul, EUDiv, ESDiv, EURem, ESRem, EAnd, EOr, EXor,
  EShl, ELShr, EAShr, EEq, EUlt, EUle, ESlt, ESle, EConcat, EExtract, EZExt,
  ESExt, EIte, EFAdd, EFSub, EFMul, EFDiv, EFRem, EFCmp, EFSqrt, EFRint, ESIToFP,
  EUIToFP, EFPToSI, EFPToUI, EFPExt, EFPTrunc
};

struct Expr {
  EK k;
  u8 w;    // width in bits (1..64)
  u8 sub;  // extract offset / fcmp predicate / rounding kind
  u32 id;
  Expr *a, *b, *c;
  u64 val;  // constant value or variable index
  const std::vector<u32>* vars;
  Z3_ast z, zf;
  u64 evalGen, evalVal;
  i64 lo, hi;        // signed interval (valid for every assignment)
  Expr* fx;          // exact value of a floating-point term: fx * 2^-fs
  u8 rs, fxs, fs;    // interval / fx computed flags, scale
};

// FCmp predicates (LLVM numbering).
inline bool fcmp_bits(unsigned p, double x, double y) {
  bool uno = std::isnan(x) || std::isnan(y);
  bool r = false;
  if (uno) return p & 8;
  if (p & 1) r |= x == y;
  if (p & 2) r |= x > y;
  if (p & 4) r |= x < y;
  return r;
}
inline double asD(u64 v, unsigned w) {
  if (w == 32) { float f; u32 t = (u32)v; memcpy(&f, &t, 4); return f; }
  double d; memcpy(&d, &v, 8); return d;
}
inline u64 fromD(double d, unsigned w) {
  if (w == 32) { float f = (float)d; u32 t; memcpy(&t, &f, 4); return t; }
  u64 v; memcpy(&v, &d, 8); return v;
}
inline double roundKind(unsigned kind, double x) {
  switch (kind) {
    case 0: return std::floor(x);
    case 1: return std::ceil(x);
    case 2: return std::trunc(x);
    case 3: return std::nearbyint(x);
    default: return std::round(x);
  }
}

// Evaluates a (possibly n-ary) operation on concrete operands.
inline u64 evalOp(EK k, unsigned w, unsigned sub, unsigned aw, u64 a, unsigned bw, u64 b, u64 c) {
  u64 m = mask(w);
  switch (k) {
    case EAdd: return (a + b) & m;
    case ESub: return (a - b) & m;
    case EMul: return (a * b) & m;
    case EUDiv: return b ? (a / b) & m : m;
    case EURem: return b ? (a % b) & m : a;
    case ESDiv: {
      i64 x = sx(a, w), y = sx(b, w);
      if (y == 0) return x < 0 ? 1 : m;
      if (y == -1) return (0 - (u64)x) & m;
      return (u64)(x / y) & m;
    }
    case ESRem: {
      i64 x = sx(a, w), y = sx(b, w);
      if (y == 0) return a;
      if (y == -1) return 0;
      return (u64)(x % y) & m;
    }
    case EAnd: return a & b;
    case EOr: return a | b;
    case EXor: return a ^ b;
    case EShl: return b >= w ? 0 : (a << b) & m;
    case ELShr: return b >= w ? 0 : a >> b;
    case EAShr: { i64 x = sx(a, w); return (u64)(x >> (b >= w ? w - 1 : b)) & m; }
    case EEq: return a == b;
    case EUlt: return a < b;
    case EUle: return a <= b;
    case ESlt: return sx(a, aw) < sx(b, aw);
    case ESle: return sx(a, aw) <= sx(b, aw);
    case EConcat: return ((a << bw) | b) & m;
    case EExtract: return (a >> sub) & m;
    case EZExt: return a;
    case ESExt: return (u64)sx(a, aw) & m;
    case EIte: return a ? b : c;
    case EFAdd: if (w == 32) return fromD((float)asD(a, 32) + (float)asD(b, 32), 32); return fromD(asD(a, w) + asD(b, w), w);
    case EFSub: if (w == 32) return fromD((float)asD(a, 32) - (float)asD(b, 32), 32); return fromD(asD(a, w) - asD(b, w), w);
    case EFMul: if (w == 32) return fromD((float)asD(a, 32) * (float)asD(b, 32), 32); return fromD(asD(a, w) * asD(b, w), w);
    case EFDiv: if (w == 32) return fromD((float)asD(a, 32) / (float)asD(b, 32), 32); return fromD(asD(a, w) / asD(b, w), w);
    case EFRem: return fromD(std::fmod(asD(a, w), asD(b, w)), w);
    case EFCmp: return fcmp_bits(sub, asD(a, aw), asD(b, aw));
    case EFSqrt: return w == 32 ? fromD(sqrtf((float)asD(a, 32)), 32) : fromD(std::sqrt(asD(a, w)), w);
    case EFRint: return fromD(roundKind(sub, asD(a, w)), w);
    case ESIToFP: { i64 x = sx(a, aw); if (w == 32) { float f = (float)x; u32 t; memcpy(&t, &f, 4); return t; } return fromD((double)x, 64); }
    case EUIToFP: { if (w == 32) { float f = (float)a; u32 t; memcpy(&t, &f, 4); return t; } return fromD((double)a, 64); }
    case EFPToSI: { double d = asD(a, aw); if (!(d > -9.3e18 && d < 9.3e18)) return (1ull << (w - 1)); 
      if (w < 64) { double lim = std::ldexp(1.0, w - 1); if (d >= lim || d <= -lim - 1) return 1ull << (w - 1); }
      else if (d >= 9223372036854775808.0 || d < -9223372036854775808.0) return 1ull << 63;
      return (u64)(i64)d & m; }
    case EFPToUI: { double d = asD(a, aw); if (!(d > -1 && d < 18446744073709551616.0)) return m; return (u64)d & m; }
    case EFPExt: return fromD(asD(a, 32), 64);
    case EFPTrunc: return fromD(asD(a, 64), 32);
    default: abort();
  }
}

struct Model {
  std::vector<u64> v;
  u64 get(u32 i) const { return i < v.size() ? v[i] : 0; }
  void set(u32 i, u64 x) { if (v.size() <= i) v.resize(i + 1, 0); v[i] = x; }
};

class ExprPool {
 public:
  ExprPool() { table_.resize(1 << 16); }

  Expr* konst(u64 v, unsigned w) {
    return mk(EConst, w, 0, nullptr, nullptr, nullptr, v & mask(w));
  }
  Expr* var(u32 idx, unsigned w) { return mk(EVar, w, 0, nullptr, nullptr, nullptr, idx); }

  static bool isc(Expr* e) { return e->k == EConst; }

  Expr* notb(Expr* e) {  // boolean negation
    if (isc(e)) return konst(!e->val, 1);
    if (e->k == EXor && isc(e->b) && e->w == 1) return e->a;
    if (e->k == EUlt) return bin(EUle, e->b, e->a);
    if (e->k == EUle) return bin(EUlt, e->b, e->a);
    if (e->k == ESlt) return bin(ESle, e->b, e->a);
    if (e->k == ESle) return bin(ESlt, e->b, e->a);
    return mk(EXor, 1, 0, e, konst(1, 1), nullptr, 0);
  }

  Expr* bin(EK k, Expr* a, Expr* b, unsigned sub = 0) {
    unsigned w = a->w;
    bool cmp = (k >= EEq && k <= ESle) || k == EFCmp;
    unsigned rw = cmp ? 1 : w;
    if (k == EConcat) rw = a->w + b->w;
    if (isc(a) && isc(b)) {
      if (!((k == EUDiv || k == ESDiv || k == EURem || k == ESRem) && b->val == 0))
        return konst(evalOp(k, rw, sub, a->w, a->val, b->w, b->val, 0), rw);
    }
    switch (k) {
      case EAdd: case EMul: case EAnd: case EOr: case EXor:
        if (isc(a)) std::swap(a, b);
        break;
      case EEq:
        if (isc(a)) std::swap(a, b);
        else if (!isc(b) && a->id > b->id) std::swap(a, b);
        break;
      default: break;
    }
    switch (k) {
      case EAdd:
        if (isc(b) && b->val == 0) return a;
        if (isc(b) && a->k == EAdd && isc(a->b)) return bin(EAdd, a->a, konst(a->b->val + b->val, w));
        break;
      case ESub:
        if (isc(b)) return bin(EAdd, a, konst(0 - b->val, w));
        if (a == b) return konst(0, w);
        // (x + c) - x
        if (a->k == EAdd && a->a == b) return a->b;
        if (a->k == EAdd && a->b == b) return a->a;
        break;
      case EMul:
        if (isc(b)) {
          if (b->val == 0) return b;
          if (b->val == 1) return a;
        }
        break;
      case EUDiv:
        if (isc(b) && b->val == 1) return a;
        break;
      case EAnd:
        if (isc(b)) {
          if (b->val == 0) return b;
          if (b->val == mask(w)) return a;
          if (a->k == EZExt && w > a->a->w && (b->val & mask(a->a->w)) == mask(a->a->w)) return a;
        }
        if (a == b) return a;
        break;
      case EOr:
        if (isc(b)) {
          if (b->val == 0) return a;
          if (b->val == mask(w)) return b;
        }
        if (a == b) return a;
        break;
      case EXor:
        if (isc(b)) {
          if (b->val == 0) return a;
          if (w == 1) return notb(a);
          if (a->k == EXor && isc(a->b)) return bin(EXor, a->a, konst(a->b->val ^ b->val, w));
        }
        if (a == b) return konst(0, w);
        break;
      case EShl: case ELShr: case EAShr:
        if (isc(b) && b->val == 0) return a;
        if (isc(b) && b->val >= w && k != EAShr) return konst(0, w);
        if (k == ELShr && isc(b)) {
          // lshr(x, c) -> zext(extract(x))
          return zext(extract(a, (unsigned)b->val, w - (unsigned)b->val), w);
        }
        if (isc(b) && b->val < w && b->val < 62) {
          rng(a);
          if (k == EShl) {
            __int128 f = (__int128)1 << b->val, lim = (__int128)1 << (w - 1);
            if (a->lo > INT64_MIN && a->lo * f >= -lim && a->hi * f < lim && a->hi < (1ll << 50) && a->lo > -(1ll << 50)) return bin(EMul, a, konst(1ull << b->val, w));
          }
          if (k == EAShr && a->k == EMul && isc(a->b) && a->b->val == 1ull << b->val) {
            rng(a->a);
            __int128 f = (__int128)1 << b->val, lim = (__int128)1 << (w - 1);
            if (a->a->lo * f >= -lim && a->a->hi * f < lim) return a->a;
          }
          if (k == EAShr && a->k == EConcat && a->b->w == b->val) return sext(a->a, w);
        }
        if (k == EShl && isc(b)) return concat(extract(a, 0, w - (unsigned)b->val), konst(0, (unsigned)b->val));
        break;
      case EEq:
        if (a == b) return konst(1, 1);
        if ((a->k == ESExt || a->k == EZExt) && b->k == a->k && a->a->w == b->a->w) return bin(EEq, a->a, b->a);
        if (isc(b)) {
          if (w == 1) return b->val ? a : notb(a);
          if (a->k == EZExt) {
            unsigned aw = a->a->w;
            if (b->val > mask(aw)) return konst(0, 1);
            return bin(EEq, a->a, konst(b->val, aw));
          }
          if (a->k == ESExt) {
            unsigned aw = a->a->w;
            if (((u64)sx(b->val & mask(aw), aw) & mask(w)) != b->val) return konst(0, 1);
            return bin(EEq, a->a, konst(b->val, aw));
          }
          if (a->k == EAdd && isc(a->b)) return bin(EEq, a->a, konst(b->val - a->b->val, w));
          if (a->k == EXor && isc(a->b)) return bin(EEq, a->a, konst(b->val ^ a->b->val, w));
          if (a->k == EConcat && a->w <= 64) {
            unsigned lw = a->b->w;
            return bin(EAnd, bin(EEq, a->a, konst(b->val >> lw, a->a->w)),
                       bin(EEq, a->b, konst(b->val, lw)));
          }
          if (a->k == EIte && isc(a->b) && isc(a->c)) {
            bool x = a->b->val == b->val, y = a->c->val == b->val;
            if (x && y) return konst(1, 1);
            if (x) return a->a;
            if (y) return notb(a->a);
            return konst(0, 1);
          }
        }
        break;
      case EUlt:
        if (a == b) return konst(0, 1);
        if (isc(b) && b->val == 0) return konst(0, 1);
        if (isc(a) && a->val == mask(w)) return konst(0, 1);
        if (isc(b) && b->val == 1) return bin(EEq, a, konst(0, w));
        if (a->k == EZExt && isc(b)) {
          if (b->val > mask(a->a->w)) return konst(1, 1);
          return bin(EUlt, a->a, konst(b->val, a->a->w));
        }
        if (b->k == EZExt && isc(a)) {
          if (a->val > mask(b->a->w)) return konst(0, 1);
          return bin(EUlt, konst(a->val, b->a->w), b->a);
        }
        if (a->k == EZExt && b->k == EZExt && a->a->w == b->a->w) return bin(EUlt, a->a, b->a);
        break;
      case EUle:
        if (a == b) return konst(1, 1);
        if (isc(a) && a->val == 0) return konst(1, 1);
        if (isc(b) && b->val == mask(w)) return konst(1, 1);
        if (a->k == EZExt && isc(b)) {
          if (b->val >= mask(a->a->w)) return konst(1, 1);
          return bin(EUle, a->a, konst(b->val, a->a->w));
        }
        if (b->k == EZExt && isc(a)) {
          if (a->val > mask(b->a->w)) return konst(0, 1);
          return bin(EUle, konst(a->val, b->a->w), b->a);
        }
        break;
      case ESlt: case ESle:
        if (a == b) return konst(k == ESle, 1);
        if (a->k == ESExt && b->k == ESExt && a->a->w == b->a->w) return bin(k, a->a, b->a);
        if (a->k == ESExt && isc(b) && (i64)sx(sx(b->val, w), a->a->w) == sx(b->val, w)) return bin(k, a->a, konst(b->val, a->a->w));
        if (b->k == ESExt && isc(a) && (i64)sx(sx(a->val, w), b->a->w) == sx(a->val, w)) return bin(k, konst(a->val, b->a->w), b->a);
        rng(a); rng(b);
        if (k == ESlt ? a->hi < b->lo : a->hi <= b->lo) return konst(1, 1);
        if (k == ESlt ? a->lo >= b->hi : a->lo > b->hi) return konst(0, 1);
        if (a->k == EZExt && b->k == EZExt && a->a->w == b->a->w) return bin(k == ESlt ? EUlt : EUle, a->a, b->a);
        if (a->k == EZExt && a->a->w < w && isc(b)) {
          if (sx(b->val, w) < 0) return konst(0, 1);
          return bin(k == ESlt ? EUlt : EUle, a, b);
        }
        if (b->k == EZExt && b->a->w < w && isc(a)) {
          if (sx(a->val, w) < 0) return konst(1, 1);
          return bin(k == ESlt ? EUlt : EUle, a, b);
        }
        break;
      case EFMul:
        if (isc(b)) {
          double d = asD(b->val, w);
          if (d == 1) return a;
          if (d == -1) return bin(EXor, a, konst(1ull << (w - 1), w));
        }
        if (isc(a)) {
          double d = asD(a->val, w);
          if (d == 1 || d == -1) return bin(EFMul, b, a);
        }
        break;
      case EFCmp: {
        if (isc(a) != isc(b) && fx(isc(a) ? b : a) && !fx(isc(a) ? a : b)) {
          // Exact comparison with a constant that has no exact form itself.
          Expr* v = isc(a) ? b : a;
          double c = asD((isc(a) ? a : b)->val, w);
          unsigned p = sub & 7;
          if (isc(a)) p = (p & 1) | (p & 2 ? 4 : 0) | (p & 4 ? 2 : 0);
          if (std::isnan(c)) return konst((sub & 8) != 0, 1);
          double sc = std::ldexp(c, v->fs);
          if (std::fabs(sc) < 4e18) {
            i64 fl = (i64)std::floor(sc);
            if ((double)fl != sc) {  // never equal
              Expr* lt = bin(ESle, v->fx, konst((u64)fl, 64));
              bool g = p & 2, l = p & 4;
              return g && l ? konst(1, 1) : l ? lt : g ? notb(lt) : konst(0, 1);
            }
          } else if (sc > 0) return konst((p & 4) != 0, 1);
          else return konst((p & 2) != 0, 1);
        }
        if (!fx(a) || !fx(b)) break;
        unsigned s = std::max(a->fs, b->fs);
        Expr *x = scale(a, s), *y = scale(b, s);
        if (!x || !y) break;
        if (!isc(x) && !isc(y)) {
          // Move everything to one side.
          rng(x); rng(y);
          __int128 lo = (__int128)x->lo - y->hi, hi = (__int128)x->hi - y->lo;
          if (lo > -(1ll << 62) && hi < (1ll << 62)) { x = linNorm(bin(ESub, x, y)); y = konst(0, 64); }
        }
        switch (sub & 7) {
          case 0: return konst(0, 1);
          case 1: return bin(EEq, x, y);
          case 2: return bin(ESlt, y, x);
          case 3: return bin(ESle, y, x);
          case 4: return bin(ESlt, x, y);
          case 5: return bin(ESle, x, y);
          case 6: return notb(bin(EEq, x, y));
          default: return konst(1, 1);
        }
      }
      default: break;
    }
    return mk(k, rw, sub, a, b, nullptr, 0);
  }

  // Structural interval analysis (two's complement, as signed).
  void rng(Expr* e) {
    if (e->rs) return;
    e->rs = 1;
    unsigned w = e->w;
    i64 mn = w >= 64 ? INT64_MIN : -(1ll << (w - 1)), mx = w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1;
    e->lo = mn; e->hi = mx;
    auto set = [&](__int128 lo, __int128 hi) { if (lo >= mn && hi <= mx) { e->lo = (i64)lo; e->hi = (i64)hi; } };
    switch (e->k) {
      case EConst: e->lo = e->hi = sx(e->val, w); break;
      case EZExt: {
        rng(e->a);
        if (e->a->lo >= 0) set(e->a->lo, e->a->hi);
        else set(0, (__int128)mask(e->a->w));
        break;
      }
      case ESExt: rng(e->a); set(e->a->lo, e->a->hi); break;
      case EAdd: rng(e->a); rng(e->b); set((__int128)e->a->lo + e->b->lo, (__int128)e->a->hi + e->b->hi); break;
      case ESub: rng(e->a); rng(e->b); set((__int128)e->a->lo - e->b->hi, (__int128)e->a->hi - e->b->lo); break;
      case EMul: {
        rng(e->a); rng(e->b);
        __int128 p[4] = {(__int128)e->a->lo * e->b->lo, (__int128)e->a->lo * e->b->hi, (__int128)e->a->hi * e->b->lo, (__int128)e->a->hi * e->b->hi};
        set(*std::min_element(p, p + 4), *std::max_element(p, p + 4));
        break;
      }
      case EIte: rng(e->b); rng(e->c); set(std::min(e->b->lo, e->c->lo), std::max(e->b->hi, e->c->hi)); break;
      case EAnd: if (isc(e->b) && sx(e->b->val, w) >= 0) set(0, e->b->val); break;
      case EUDiv: rng(e->a); if (isc(e->b) && e->b->val && e->a->lo >= 0 && sx(e->b->val, w) > 0) set(e->a->lo / (i64)e->b->val, e->a->hi / (i64)e->b->val); break;
      case EURem: if (isc(e->b) && e->b->val && sx(e->b->val, w) > 0) set(0, e->b->val - 1); break;
      case EConcat: {
        // low part a known zero block: x * 2^k
        rng(e->a);
        if (isc(e->b) && e->b->val == 0 && w <= 64) { __int128 f = (__int128)1 << e->b->w; set(e->a->lo * f, e->a->hi * f); }
        break;
      }
      case EExtract:
        rng(e->a);
        if (e->sub == 0) set(e->a->lo, e->a->hi);
        break;
      default: break;
    }
  }
  // Canonical form of a linear combination (modulo 2^w).
  void linTerms(Expr* e, u64 k, std::vector<std::pair<Expr*, u64>>& t, u64& c) {
    switch (e->k) {
      case EConst: c += k * e->val; return;
      case EAdd: linTerms(e->a, k, t, c); linTerms(e->b, k, t, c); return;
      case ESub: linTerms(e->a, k, t, c); linTerms(e->b, 0 - k, t, c); return;
      case EMul: if (isc(e->b)) { linTerms(e->a, k * e->b->val, t, c); return; } break;
      case EConcat: if (isc(e->b) && e->b->val == 0) break; break;
      default: break;
    }
    for (auto& p : t) if (p.first == e) { p.second += k; return; }
    t.push_back({e, k});
  }
  Expr* linNorm(Expr* e) {
    if (e->k != EAdd && e->k != ESub && e->k != EMul) return e;
    std::vector<std::pair<Expr*, u64>> t;
    u64 c = 0;
    linTerms(e, 1, t, c);
    if (t.size() > 64) return e;
    std::sort(t.begin(), t.end(), [](const std::pair<Expr*, u64>& x, const std::pair<Expr*, u64>& y) { return x.first->id < y.first->id; });
    Expr* r = nullptr;
    u64 m = mask(e->w);
    for (auto& p : t) {
      if (!(p.second & m)) continue;
      Expr* x = bin(EMul, p.first, konst(p.second, e->w));
      r = r ? bin(EAdd, r, x) : x;
    }
    if (!r) return konst(c, e->w);
    return bin(EAdd, r, konst(c, e->w));
  }
  Expr* scale(Expr* e, unsigned s) {
    unsigned d = s - e->fs;
    if (!d) return e->fx;
    if (d > 40) return nullptr;
    rng(e->fx);
    const __int128 f = (__int128)1 << d;
    if (e->fx->lo * f < -(1ll << 62) || e->fx->hi * f > (1ll << 62)) return nullptr;
    return bin(EMul, e->fx, konst(1ull << d, 64));
  }
  // Finds an exact integer form of a floating-point term: the value equals
  // fx * 2^-fs for every assignment (no rounding, no NaN, no infinity; the
  // sign of zero is not represented, so only comparisons and conversions use
  // it).
  bool fx(Expr* e) {
    if (e->fxs) return e->fx;
    e->fxs = 1;
    const i64 L = e->w == 32 ? 1ll << 24 : 1ll << 53;
    auto set = [&](Expr* x, unsigned s) {
      if (!x || s > 100) return;
      x = linNorm(x);
      rng(x);
      if (x->lo < -L || x->hi > L) return;
      e->fx = x; e->fs = s;
    };
    switch (e->k) {
      case EConst: {
        double d = asD(e->val, e->w);
        if (!(std::fabs(d) < 9e15)) break;
        unsigned s = 0;
        while (d != std::floor(d) && s < 60) { d *= 2; s++; }
        if (d != std::floor(d) || std::fabs(d) > (double)L) break;
        set(konst((u64)(i64)d, 64), s);
        break;
      }
      case ESIToFP: set(sext(e->a, 64), 0); break;
      case EUIToFP: {
        rng(e->a);
        if (e->a->w < 64 || e->a->lo >= 0) set(zext(e->a, 64), 0);
        break;
      }
      case EFPExt: if (fx(e->a)) set(e->a->fx, e->a->fs); break;
      case EFAdd: case EFSub: {
        if (!fx(e->a) || !fx(e->b)) break;
        unsigned s = std::max(e->a->fs, e->b->fs);
        Expr *x = scale(e->a, s), *y = scale(e->b, s);
        if (x && y) set(bin(e->k == EFAdd ? EAdd : ESub, x, y), s);
        break;
      }
      case EFMul:
        if (fx(e->a) && fx(e->b)) set(bin(EMul, e->a->fx, e->b->fx), e->a->fs + e->b->fs);
        break;
      case EFDiv: {
        if (!fx(e->a) || !isc(e->b)) break;
        double d = std::fabs(asD(e->b->val, e->b->w));
        int k = 0;
        while (d > 1 && k < 40) { d /= 2; k++; }
        if (d == 1 && k < 40 && asD(e->b->val, e->b->w) > 0) set(e->a->fx, e->a->fs + k);
        break;
      }
      case EIte: {
        if (!fx(e->b) || !fx(e->c)) break;
        unsigned s = std::max(e->b->fs, e->c->fs);
        Expr *x = scale(e->b, s), *y = scale(e->c, s);
        if (x && y) set(ite(e->a, x, y), s);
        break;
      }
      case EXor:
        if (isc(e->b) && e->b->val == 1ull << (e->w - 1) && fx(e->a)) set(bin(ESub, konst(0, 64), e->a->fx), e->a->fs);
        break;
      case EAnd:
        if (isc(e->b) && e->b->val == mask(e->w - 1) && fx(e->a))
          set(ite(bin(ESlt, e->a->fx, konst(0, 64)), bin(ESub, konst(0, 64), e->a->fx), e->a->fx), e->a->fs);
        break;
      case EFRint:
        if (fx(e->a) && e->a->fs == 0) set(e->a->fx, 0);
        else if (fx(e->a) && e->sub == 0 && e->a->fs < 60) set(bin(EAShr, e->a->fx, konst(e->a->fs, 64)), 0);
        break;
      default: break;
    }
    return e->fx;
  }

  Expr* concat(Expr* hi, Expr* lo) {
    if (isc(hi) && hi->val == 0) return zext(lo, hi->w + lo->w);
    if (isc(hi) && isc(lo)) return konst((hi->val << lo->w) | lo->val, hi->w + lo->w);
    // concat(extract(x,h), extract(x,l)) adjacent
    if (hi->k == EExtract && lo->k == EExtract && hi->a == lo->a && hi->sub == lo->sub + lo->w)
      return extract(hi->a, lo->sub, hi->w + lo->w);
    if (hi->k == EExtract && hi->a == lo && hi->sub == lo->w) return extract(hi->a, 0, hi->w + lo->w);
    return mk(EConcat, hi->w + lo->w, 0, hi, lo, nullptr, 0);
  }
  Expr* extract(Expr* e, unsigned off, unsigned w) {
    if (off == 0 && w == e->w) return e;
    if (isc(e)) return konst(e->val >> off, w);
    if (e->k == EExtract) return extract(e->a, e->sub + off, w);
    if (e->k == EConcat) {
      unsigned lw = e->b->w;
      if (off + w <= lw) return extract(e->b, off, w);
      if (off >= lw) return extract(e->a, off - lw, w);
      return concat(extract(e->a, 0, off + w - lw), extract(e->b, off, lw - off));
    }
    if (e->k == EZExt) {
      unsigned aw = e->a->w;
      if (off >= aw) return konst(0, w);
      if (off + w <= aw) return extract(e->a, off, w);
      return zext(extract(e->a, off, aw - off), w);
    }
    if (e->k == ESExt && off + w <= e->a->w) return extract(e->a, off, w);
    if (off == 0 && (e->k == EAdd || e->k == ESub || e->k == EMul || e->k == EAnd || e->k == EOr || e->k == EXor))
      return bin(e->k, extract(e->a, 0, w), extract(e->b, 0, w));
    if (e->k == EAnd || e->k == EOr || e->k == EXor)
      return bin(e->k, extract(e->a, off, w), extract(e->b, off, w));
    if (e->k == EIte) return ite(e->a, extract(e->b, off, w), extract(e->c, off, w));
    return mk(EExtract, w, off, e, nullptr, nullptr, 0);
  }
  Expr* zext(Expr* e, unsigned w) {
    if (w == e->w) return e;
    if (isc(e)) return konst(e->val, w);
    if (e->k == EZExt) return zext(e->a, w);
    return mk(EZExt, w, 0, e, nullptr, nullptr, 0);
  }
  Expr* sext(Expr* e, unsigned w) {
    if (w == e->w) return e;
    if (isc(e)) return konst((u64)sx(e->val, e->w), w);
    if (e->k == EZExt && e->w > e->a->w) return zext(e->a, w);
    if (e->k == ESExt) return sext(e->a, w);
    return mk(ESExt, w, 0, e, nullptr, nullptr, 0);
  }
  Expr* ite(Expr* c, Expr* a, Expr* b) {
    if (isc(c)) return c->val ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
      if (isc(a) && isc(b)) return a->val ? c : notb(c);
      if (isc(a)) return a->val ? bin(EOr, c, b) : bin(EAnd, notb(c), b);
      if (isc(b)) return b->val ? bin(EOr, notb(c), a) : bin(EAnd, c, a);
    }
    if (c->k == EXor && c->w == 1 && isc(c->b)) return ite(c->a, b, a);
    return mk(EIte, a->w, 0, c, a, b, 0);
  }
  Expr* un(EK k, Expr* a, unsigned w, unsigned sub = 0) {
    if (isc(a)) return konst(evalOp(k, w, sub, a->w, a->val, 0, 0, 0), w);
    if ((k == EFPToSI || k == EFPToUI) && fx(a)) {
      rng(a->fx);
      Expr* x = a->fs == 0 ? a->fx : a->fs < 60 ? bin(ESDiv, a->fx, konst(1ull << a->fs, 64)) : nullptr;
      bool fits = w >= 64 ? (k == EFPToSI || a->fx->lo >= 0)
                          : k == EFPToSI ? a->fx->lo >= -(1ll << (w - 1)) && a->fx->hi < (1ll << (w - 1))
                                         : a->fx->lo >= 0 && a->fx->hi <= (i64)mask(w);
      if (x && fits) return extract(x, 0, w);
    }
    return mk(k, w, sub, a, nullptr, nullptr, 0);
  }

  u64 eval(Expr* e, const Model& m) {
    ++gen_;
    return ev(e, m);
  }

  size_t size() const { return count_; }

 private:
  u64 ev(Expr* e, const Model& m) {
    if (e->k == EConst) return e->val;
    if (e->k == EVar) return m.get((u32)e->val) & mask(e->w);
    if (e->evalGen == gen_) return e->evalVal;
    u64 r;
    if (e->k == EIte) {
      r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m);
    } else {
      u64 a = ev(e->a, m), b = e->b ? ev(e->b, m) : 0;
      r = evalOp(e->k, e->w, e->sub, e->a->w, a, e->b ? e->b->w : 0, b, 0);
    }
    e->evalGen = gen_;
    e->evalVal = r;
    return r;
  }

  static u64 mix(u64 h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }

  Expr* mk(EK k, unsigned w, unsigned sub, Expr* a, Expr* b, Expr* c, u64 val) {
    u64 h = mix(k | (u64)w << 8 | (u64)sub << 16);
    h = mix(h ^ (u64)a * 3);
    h = mix(h ^ (u64)b * 5);
    h = mix(h ^ (u64)c * 7);
    h = mix(h ^ val);
    size_t msk = table_.size() - 1;
    size_t i = h & msk;
    while (table_[i]) {
      Expr* e = table_[i];
      if (e->k == k && e->w == w && e->sub == sub && e->a == a && e->b == b && e->c == c && e->val == val)
        return e;
      i = (i + 1) & msk;
    }
    Expr* e = alloc();
    *e = Expr{k, (u8)w, (u8)sub, (u32)count_, a, b, c, val, nullptr, nullptr, nullptr, 0, 0, 0, 0, nullptr, 0, 0, 0};
    if (k == EConst) e->vars = &empty_;
    else if (k == EVar) { vstore_.push_back({(u32)val}); e->vars = &vset(vstore_.back()); }
    else {
      const std::vector<u32>* v = a->vars;
      if (b && b->vars != v) v = merge(v, b->vars);
      if (c && c->vars != v) v = merge(v, c->vars);
      e->vars = v;
    }
    table_[i] = e;
    count_++;
    if (count_ * 2 > table_.size()) grow();
    return e;
  }
  Expr* alloc() {
    if (apos_ == 4096) { ablk_ = (Expr*)malloc(sizeof(Expr) * 4096); apos_ = 0; }
    return &ablk_[apos_++];
  }
  void grow() {
    std::vector<Expr*> old;
    old.swap(table_);
    table_.resize(old.size() * 2);
    size_t msk = table_.size() - 1;
    for (Expr* e : old) if (e) {
      u64 h = mix(e->k | (u64)e->w << 8 | (u64)e->sub << 16);
      h = mix(h ^ (u64)e->a * 3);
      h = mix(h ^ (u64)e->b * 5);
      h = mix(h ^ (u64)e->c * 7);
      h = mix(h ^ e->val);
      size_t i = h & msk;
      while (table_[i]) i = (i + 1) & msk;
      table_[i] = e;
    }
  }
  struct VH { size_t operator()(const std::vector<u32>& v) const { u64 h = 1; for (u32 x : v) h = mix(h * 31 + x); return h; } };
  const std::vector<u32>& vset(const std::vector<u32>& v) { return *vsets_.insert(v).first; }
  const std::vector<u32>* merge(const std::vector<u32>* a, const std::vector<u32>* b) {
    if (a->empty()) return b;
    if (b->empty()) return a;
    auto key = std::make_pair(a, b);
    auto it = mergeCache_.find(key);
    if (it != mergeCache_.end()) return it->second;
    std::vector<u32> r;
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    const std::vector<u32>* p = &vset(r);
    mergeCache_[key] = p;
    return p;
  }
  struct PH { size_t operator()(const std::pair<const std::vector<u32>*, const std::vector<u32>*>& p) const { return mix((u64)p.first * 3 ^ (u64)p.second * 7); } };
  std::vector<Expr*> table_;
  size_t count_ = 0;
  Expr* ablk_ = nullptr;
  size_t apos_ = 4096;
  u64 gen_ = 0;
  std::vector<u32> empty_;
  std::vector<std::vector<u32>> vstore_;
  std::unordered_set<std::vector<u32>, VH> vsets_;
  std::unordered_map<std::pair<const std::vector<u32>*, const std::vector<u32>*>, const std::vector<u32>*, PH> mergeCache_;
};

enum SatRes { UNSAT, SAT, UNKNOWN };

class Solver {
 public:
  u64 queries = 0, cacheHits = 0, unknowns = 0, sat = 0, unsat = 0;
  double time = 0;
  unsigned timeoutMs = 20000;

  void init() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) {
      fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    });
    d64 = Z3_mk_fpa_sort_double(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, d64));
    f32 = Z3_mk_fpa_sort_single(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, f32));
    rne = Z3_mk_fpa_rne(ctx); Z3_inc_ref(ctx, rne);
    rtz = Z3_mk_fpa_rtz(ctx); Z3_inc_ref(ctx, rtz);
    rtn = Z3_mk_fpa_rtn(ctx); Z3_inc_ref(ctx, rtn);
    rtp = Z3_mk_fpa_rtp(ctx); Z3_inc_ref(ctx, rtp);
    rna = Z3_mk_fpa_rna(ctx); Z3_inc_ref(ctx, rna);
  }

  // Decides the conjunction of `cs`; fills `m` for the variables involved.
  SatRes check(std::vector<Expr*> cs, Model* m) {
    std::sort(cs.begin(), cs.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    for (Expr* e : cs) if (e->k == EConst && !e->val) return UNSAT;
    auto it = cache.find(cs);
    if (it != cache.end()) {
      cacheHits++;
      if (it->second.r == SAT && m) for (auto& p : it->second.m) m->set(p.first, p.second);
      return it->second.r;
    }
    double t0 = now_s();
    queries++;
    bool fp = false;
    std::unordered_set<Expr*> seen;
    for (Expr* e : cs) fp |= hasFp(e, seen);
    std::unordered_set<u32> vars;
    for (Expr* e : cs) for (u32 v : *e->vars) vars.insert(v);
    Z3_solver s = nullptr;
    Z3_lbool r = Z3_L_UNDEF;
    bool ints = false;
    // Wide arithmetic without possible wraparound: decide over the integers.
    if (!fp && pool) {
      bool mul = false, ok = true;
      for (Expr* e : cs) mul |= hasMul(e);
      std::vector<Z3_ast> as;
      if (mul) {
        if (incI && iLits.size() > 1000) dropInt();
        if (!incI) {
          incI = Z3_mk_simple_solver(ctx);
          Z3_solver_inc_ref(ctx, incI);
          setTimeout(incI, 3000);
        }
        for (Expr* e : cs) {
          Z3_ast b = ib(e);
          if (!b) { ok = false; break; }
          Z3_ast& l = iLits[e];
          if (!l) {
            l = keep(Z3_mk_fresh_const(ctx, "q", Z3_mk_bool_sort(ctx)));
            Z3_solver_assert(ctx, incI, Z3_mk_implies(ctx, l, b));
          }
          as.push_back(l);
        }
        if (ok) {
          for (u32 v : vars) boundInt(v);
          r = Z3_solver_check_assumptions(ctx, incI, as.size(), as.data());
          if (r != Z3_L_UNDEF) { s = incI; Z3_solver_inc_ref(ctx, s); ints = true; }
        }
      }
    }
    if (!fp && !s) {
      // First try: one long-lived solver with an assumption literal per
      // constraint, limited to a short time.
      if (!inc || incLits.size() > 2000) {
        if (inc) Z3_solver_dec_ref(ctx, inc);
        for (auto& q : incLits) Z3_dec_ref(ctx, q.second);
        incLits.clear();
        inc = Z3_mk_simple_solver(ctx);
        Z3_solver_inc_ref(ctx, inc);
        setTimeout(inc, 400);
      }
      std::vector<Z3_ast> as;
      for (Expr* e : cs) {
        Z3_ast& l = incLits[e];
        if (!l) {
          l = keep(Z3_mk_fresh_const(ctx, "p", Z3_mk_bool_sort(ctx)));
          Z3_solver_assert(ctx, inc, Z3_mk_implies(ctx, l, tb(e)));
        }
        as.push_back(l);
      }
      r = Z3_solver_check_assumptions(ctx, inc, as.size(), as.data());
      if (r != Z3_L_UNDEF) { s = inc; Z3_solver_inc_ref(ctx, s); }
    }
    if (!s) {
      s = fp ? Z3_mk_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
      Z3_solver_inc_ref(ctx, s);
      setTimeout(s, timeoutMs);
      for (Expr* e : cs) Z3_solver_assert(ctx, s, tb(e));
      r = Z3_solver_check(ctx, s);
    }
    if (getenv("SYMEX_SLOW") && now_s() - t0 > atof(getenv("SYMEX_SLOW"))) {
      Z3_solver q = Z3_mk_simple_solver(ctx);
      Z3_solver_inc_ref(ctx, q);
      for (Expr* e : cs) Z3_solver_assert(ctx, q, tb(e));
      fprintf(stderr, "; slow %.2fs r=%d fp=%d\n%s\n", now_s() - t0, (int)r, (int)fp, Z3_solver_to_string(ctx, q));
      Z3_solver_dec_ref(ctx, q);
    }
    Entry en;
    if (r == Z3_L_TRUE) {
      sat++;
      en.r = SAT;
      Z3_model zm = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, zm);
      for (u32 v : vars) {
        Expr* ve = varExpr[v];
        Z3_ast out;
        u64 val = 0;
        if (ve && Z3_model_eval(ctx, zm, ints ? iv(ve) : tr(ve), true, &out)) {
          Z3_inc_ref(ctx, out);
          Z3_get_numeral_uint64(ctx, out, &val);
          Z3_dec_ref(ctx, out);
        }
        en.m.push_back({v, val});
        if (m) m->set(v, val);
      }
      Z3_model_dec_ref(ctx, zm);
    } else if (r == Z3_L_FALSE) {
      unsat++;
      en.r = UNSAT;
    } else {
      unknowns++;
      en.r = UNKNOWN;
    }
    Z3_solver_dec_ref(ctx, s);
    time += now_s() - t0;
    if (cache.size() > 400000) cache.clear();
    cache.emplace(std::move(cs), en);
    return en.r;
  }
  std::unordered_map<u32, Expr*> varExpr;
  ExprPool* pool = nullptr;
  Z3_context ctx;

 private:
  struct Entry { SatRes r; std::vector<std::pair<u32, u64>> m; };
  struct CH { size_t operator()(const std::vector<Expr*>& v) const { u64 h = 7; for (Expr* e : v) { h = h * 1000003 ^ e->id; h ^= h >> 29; } return h; } };
  std::unordered_map<std::vector<Expr*>, Entry, CH> cache;
  Z3_sort d64, f32;
  Z3_ast rne, rtz, rtn, rtp, rna;
  std::unordered_map<Expr*, bool> fpCache_;

  Z3_solver incI = nullptr;
  std::unordered_map<Expr*, Z3_ast> iLits, iTerm, iBool;
  std::unordered_map<Expr*, bool> mulCache_;
  std::unordered_set<u32> iBounded;
  void dropInt() {
    Z3_solver_dec_ref(ctx, incI);
    incI = nullptr;
    for (auto& q : iLits) Z3_dec_ref(ctx, q.second);
    iLits.clear();
    iBounded.clear();
  }
  bool hasMul(Expr* e) {
    if (e->k == EConst || e->k == EVar) return false;
    auto it = mulCache_.find(e);
    if (it != mulCache_.end()) return it->second;
    bool r = (e->k == EMul && e->w > 8) || hasMul(e->a) || (e->b && hasMul(e->b)) || (e->c && hasMul(e->c));
    return mulCache_[e] = r;
  }
  Z3_ast num(__int128 v) {
    bool neg = v < 0;
    unsigned __int128 x = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    std::string t;
    do { t.insert(t.begin(), (char)('0' + (int)(x % 10))); x /= 10; } while (x);
    if (neg) t.insert(t.begin(), '-');
    return Z3_mk_numeral(ctx, t.c_str(), Z3_mk_int_sort(ctx));
  }
  Z3_ast iv(Expr* v) {
    Z3_ast& t = iTerm[v];
    if (!t) {
      char nm[32];
      snprintf(nm, sizeof nm, "i%u_%u", (unsigned)v->val, v->w);
      t = keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_int_sort(ctx)));
    }
    return t;
  }
  void boundInt(u32 v) {
    if (!iBounded.insert(v).second) return;
    Expr* e = varExpr[v];
    Z3_ast x = iv(e);
    Z3_solver_assert(ctx, incI, Z3_mk_ge(ctx, x, num(0)));
    Z3_solver_assert(ctx, incI, Z3_mk_lt(ctx, x, num((__int128)1 << e->w)));
  }
  // Unsigned / signed value as an integer term; null when not expressible.
  Z3_ast iu(Expr* e) {
    if (e->k == EConst) return num(e->val);
    if (e->k == EVar) return iv(e);
    if (e->k == EZExt) return iu(e->a);
    pool->rng(e);
    if (e->lo >= 0) return is(e);
    return nullptr;
  }
  Z3_ast is(Expr* e) {
    if (e->k == EConst) return num(sx(e->val, e->w));
    pool->rng(e);
    if (e->k == EVar) {
      Z3_ast v = iv(e);
      return Z3_mk_ite(ctx, Z3_mk_ge(ctx, v, num((__int128)1 << (e->w - 1))), sub2(v, num((__int128)1 << e->w)), v);
    }
    auto it = iTerm.find(e);
    if (it != iTerm.end()) return it->second;
    Z3_ast r = is1(e);
    if (r) keep(r);
    return iTerm[e] = r;
  }
  Z3_ast sub2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(ctx, 2, x); }
  Z3_ast is1(Expr* e) {
    const i64 mn = e->w >= 64 ? INT64_MIN : -(1ll << (e->w - 1)), mx = e->w >= 64 ? INT64_MAX : (1ll << (e->w - 1)) - 1;
    auto fits = [&](__int128 lo, __int128 hi) { return lo >= mn && hi <= mx; };
    if (e->a) pool->rng(e->a);
    if (e->b) pool->rng(e->b);
    switch (e->k) {
      case EZExt: return e->w > e->a->w ? iu(e->a) : nullptr;
      case ESExt: return is(e->a);
      case EAdd: case ESub: case EMul: {
        __int128 al = e->a->lo, ah = e->a->hi, bl = e->b->lo, bh = e->b->hi;
        if (e->k == EAdd && !fits(al + bl, ah + bh)) return nullptr;
        if (e->k == ESub && !fits(al - bh, ah - bl)) return nullptr;
        if (e->k == EMul) {
          __int128 p[4] = {al * bl, al * bh, ah * bl, ah * bh};
          if (!fits(*std::min_element(p, p + 4), *std::max_element(p, p + 4))) return nullptr;
        }
        Z3_ast x[2] = {is(e->a), is(e->b)};
        if (!x[0] || !x[1]) return nullptr;
        return e->k == EAdd ? Z3_mk_add(ctx, 2, x) : e->k == ESub ? Z3_mk_sub(ctx, 2, x) : Z3_mk_mul(ctx, 2, x);
      }
      case EUDiv: case EURem: {
        if (e->a->lo < 0 || !ExprPool::isc(e->b) || sx(e->b->val, e->w) <= 0) return nullptr;
        Z3_ast a = is(e->a);
        if (!a) return nullptr;
        return e->k == EUDiv ? Z3_mk_div(ctx, a, num(e->b->val)) : Z3_mk_mod(ctx, a, num(e->b->val));
      }
      case ESDiv: {
        if (!ExprPool::isc(e->b) || sx(e->b->val, e->w) <= 0) return nullptr;
        Z3_ast a = is(e->a);
        if (!a) return nullptr;
        Z3_ast d = num(sx(e->b->val, e->w));
        return Z3_mk_ite(ctx, Z3_mk_ge(ctx, a, num(0)), Z3_mk_div(ctx, a, d), Z3_mk_unary_minus(ctx, Z3_mk_div(ctx, Z3_mk_unary_minus(ctx, a), d)));
      }
      case EIte: {
        if (e->w == 1) return nullptr;
        Z3_ast c = ib(e->a), a = is(e->b), b = is(e->c);
        return c && a && b ? Z3_mk_ite(ctx, c, a, b) : nullptr;
      }
      case EConcat: {
        if (!ExprPool::isc(e->b) || e->b->val) return nullptr;
        __int128 f = (__int128)1 << e->b->w;
        if (!fits(e->a->lo * f, e->a->hi * f)) return nullptr;
        Z3_ast x[2] = {is(e->a), num(f)};
        return x[0] ? Z3_mk_mul(ctx, 2, x) : nullptr;
      }
      case EExtract:
        if (e->sub == 0 && e->w > 1 && e->a->lo >= mn && e->a->hi <= mx) return is(e->a);
        if (e->sub == 0 && e->w > 1 && e->a->lo >= 0 && e->w < 64) {
          // low bits of a non-negative value, as signed
          Z3_ast a = is(e->a);
          if (!a) return nullptr;
          Z3_ast m = Z3_mk_mod(ctx, a, num((__int128)1 << e->w));
          return Z3_mk_ite(ctx, Z3_mk_ge(ctx, m, num((__int128)1 << (e->w - 1))), sub2(m, num((__int128)1 << e->w)), m);
        }
        return nullptr;
      default: return nullptr;
    }
  }
  Z3_ast ib(Expr* e) {
    auto it = iBool.find(e);
    if (it != iBool.end()) return it->second;
    Z3_ast r = ib1(e);
    if (r) keep(r);
    return iBool[e] = r;
  }
  Z3_ast ib1(Expr* e) {
    switch (e->k) {
      case EConst: return e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
      case EVar: return e->w == 1 ? Z3_mk_eq(ctx, iv(e), num(1)) : nullptr;
      case EEq: {
        if (e->a->w == 1) {
          Z3_ast a = ib(e->a), b = ib(e->b);
          return a && b ? Z3_mk_iff(ctx, a, b) : nullptr;
        }
        Z3_ast a = is(e->a), b = is(e->b);
        return a && b ? Z3_mk_eq(ctx, a, b) : nullptr;
      }
      case ESlt: case ESle: {
        Z3_ast a = is(e->a), b = is(e->b);
        if (!a || !b) return nullptr;
        return e->k == ESlt ? Z3_mk_lt(ctx, a, b) : Z3_mk_le(ctx, a, b);
      }
      case EUlt: case EUle: {
        Z3_ast a = iu(e->a), b = iu(e->b);
        if (!a || !b) return nullptr;
        return e->k == EUlt ? Z3_mk_lt(ctx, a, b) : Z3_mk_le(ctx, a, b);
      }
      case EAnd: case EOr: case EXor: {
        if (e->w != 1) return nullptr;
        Z3_ast x[2] = {ib(e->a), ib(e->b)};
        if (!x[0] || !x[1]) return nullptr;
        return e->k == EAnd ? Z3_mk_and(ctx, 2, x) : e->k == EOr ? Z3_mk_or(ctx, 2, x) : Z3_mk_xor(ctx, x[0], x[1]);
      }
      case EIte: {
        if (e->w != 1) return nullptr;
        Z3_ast c = ib(e->a), a = ib(e->b), b = ib(e->c);
        return c && a && b ? Z3_mk_ite(ctx, c, a, b) : nullptr;
      }
      default: return nullptr;
    }
  }
  Z3_solver inc = nullptr;
  std::unordered_map<Expr*, Z3_ast> incLits;
  void setTimeout(Z3_solver s, unsigned ms) {
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
  }
  bool hasFp(Expr* e, std::unordered_set<Expr*>& seen) {
    if (e->k == EConst || e->k == EVar) return false;
    auto it = fpCache_.find(e);
    if (it != fpCache_.end()) return it->second;
    bool r = e->k >= EFAdd || hasFp(e->a, seen) || (e->b && hasFp(e->b, seen)) || (e->c && hasFp(e->c, seen));
    fpCache_[e] = r;
    return r;
  }
  Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
  Z3_ast boolToBv(Z3_ast b) {
    return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, bv(1)), Z3_mk_unsigned_int64(ctx, 0, bv(1)));
  }
  Z3_ast trf(Expr* e) {  // as floating point
    if (e->zf) return e->zf;
    Z3_ast r;
    switch (e->k) {
      case EFAdd: r = Z3_mk_fpa_add(ctx, rne, trf(e->a), trf(e->b)); break;
      case EFSub: r = Z3_mk_fpa_sub(ctx, rne, trf(e->a), trf(e->b)); break;
      case EFMul: r = Z3_mk_fpa_mul(ctx, rne, trf(e->a), trf(e->b)); break;
      case EFDiv: r = Z3_mk_fpa_div(ctx, rne, trf(e->a), trf(e->b)); break;
      case EFSqrt: r = Z3_mk_fpa_sqrt(ctx, rne, trf(e->a)); break;
      case EFRint: {
        Z3_ast rm = e->sub == 0 ? rtn : e->sub == 1 ? rtp : e->sub == 2 ? rtz : e->sub == 3 ? rne : rna;
        r = Z3_mk_fpa_round_to_integral(ctx, rm, trf(e->a));
        break;
      }
      case ESIToFP: r = Z3_mk_fpa_to_fp_signed(ctx, rne, tr(e->a), e->w == 64 ? d64 : f32); break;
      case EUIToFP: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne, tr(e->a), e->w == 64 ? d64 : f32); break;
      case EFPExt: r = Z3_mk_fpa_to_fp_float(ctx, rne, trf(e->a), d64); break;
      case EFPTrunc: r = Z3_mk_fpa_to_fp_float(ctx, rne, trf(e->a), f32); break;
      case EIte: r = Z3_mk_ite(ctx, tb(e->a), trf(e->b), trf(e->c)); break;
      default: r = Z3_mk_fpa_to_fp_bv(ctx, tr(e), e->w == 64 ? d64 : f32); break;
    }
    return e->zf = keep(r);
  }
  Z3_ast tb(Expr* e) { return Z3_mk_eq(ctx, tr(e), Z3_mk_unsigned_int64(ctx, 1, bv(1))); }

  Z3_ast tr(Expr* e) {
    if (e->z) return e->z;
    Z3_ast r;
    switch (e->k) {
      case EConst: r = Z3_mk_unsigned_int64(ctx, e->val, bv(e->w)); break;
      case EVar: {
        char nm[32];
        snprintf(nm, sizeof nm, "v%u_%u", (unsigned)e->val, e->w);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bv(e->w));
        break;
      }
#define B(K, F) case K: r = F(ctx, tr(e->a), tr(e->b)); break;
      B(EAdd, Z3_mk_bvadd) B(ESub, Z3_mk_bvsub) B(EMul, Z3_mk_bvmul)
      B(EUDiv, Z3_mk_bvudiv) B(ESDiv, Z3_mk_bvsdiv) B(EURem, Z3_mk_bvurem)
      B(ESRem, Z3_mk_bvsrem) B(EAnd, Z3_mk_bvand) B(EOr, Z3_mk_bvor)
      B(EXor, Z3_mk_bvxor) B(EShl, Z3_mk_bvshl) B(ELShr, Z3_mk_bvlshr)
      B(EAShr, Z3_mk_bvashr) B(EConcat, Z3_mk_concat)
#undef B
      case EEq: r = boolToBv(Z3_mk_eq(ctx, tr(e->a), tr(e->b))); break;
      case EUlt: r = boolToBv(Z3_mk_bvult(ctx, tr(e->a), tr(e->b))); break;
      case EUle: r = boolToBv(Z3_mk_bvule(ctx, tr(e->a), tr(e->b))); break;
      case ESlt: r = boolToBv(Z3_mk_bvslt(ctx, tr(e->a), tr(e->b))); break;
      case ESle: r = boolToBv(Z3_mk_bvsle(ctx, tr(e->a), tr(e->b))); break;
      case EExtract: r = Z3_mk_extract(ctx, e->sub + e->w - 1, e->sub, tr(e->a)); break;
      case EZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, tr(e->a)); break;
      case ESExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, tr(e->a)); break;
      case EIte: r = Z3_mk_ite(ctx, tb(e->a), tr(e->b), tr(e->c)); break;
      case EFCmp: {
        Z3_ast x = trf(e->a), y = trf(e->b);
        unsigned p = e->sub;
        Z3_ast uno[2] = {Z3_mk_fpa_is_nan(ctx, x), Z3_mk_fpa_is_nan(ctx, y)};
        Z3_ast isuno = Z3_mk_or(ctx, 2, uno);
        std::vector<Z3_ast> ds;
        if ((p & 7) == 7) ds.push_back(Z3_mk_not(ctx, isuno));
        else if ((p & 3) == 3) ds.push_back(Z3_mk_fpa_geq(ctx, x, y));
        else if ((p & 5) == 5) ds.push_back(Z3_mk_fpa_leq(ctx, x, y));
        else {
          if (p & 1) ds.push_back(Z3_mk_fpa_eq(ctx, x, y));
          if (p & 2) ds.push_back(Z3_mk_fpa_gt(ctx, x, y));
          if (p & 4) ds.push_back(Z3_mk_fpa_lt(ctx, x, y));
        }
        if (p & 8) ds.push_back(isuno);
        Z3_ast c = ds.empty() ? Z3_mk_false(ctx) : Z3_mk_or(ctx, ds.size(), ds.data());
        r = boolToBv(c);
        break;
      }
      case EFPToSI: r = Z3_mk_fpa_to_sbv(ctx, rtz, trf(e->a), e->w); break;
      case EFPToUI: r = Z3_mk_fpa_to_ubv(ctx, rtz, trf(e->a), e->w); break;
      case EFRem: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_rem(ctx, trf(e->a), trf(e->b))); break;
      default: r = Z3_mk_fpa_to_ieee_bv(ctx, trf(e)); break;
    }
    return e->z = keep(r);
  }
};
