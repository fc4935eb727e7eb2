// Abstract interpreter over LLVM IR.
//
// Every floating-point SSA value is abstracted by
//   * an interval of representable values (+ may-be-NaN flag),
//   * a Taylor model of its real value in the analysed input (rounding errors
//     of every operation are added to the remainder),
//   * a grid exponent g: the value is an integer multiple of 2^g (used to show
//     that argument-reduction steps are exact),
//   * a value number with sign (used to compare two runs structurally).
// Integers carry an interval, an optional Taylor model (bit tricks on the
// representation are affine inside one binade) and a value number + offset.
// Undecided branches are handled by trace partitioning.
#pragma once
#include "tm.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <memory>
#include <unordered_map>
#include <functional>

typedef __int128 I128;
typedef unsigned __int128 U128;

struct Unsupported { std::string what; };
struct Undefined {};                         // execution cannot continue past undefined behaviour
struct GiveUp { std::string what; };       // precision/budget: split the box

struct Fmt { int p, emin, emax; };
static const Fmt FD{53, -1022, 1023}, FF{24, -126, 127};
static inline int wbits(const Fmt &f) { return f.p == 53 ? 64 : 32; }
static inline double fmax_of(const Fmt &f) { return f.p == 53 ? 1.7976931348623157e308 : 3.4028234663852886e38; }

static inline int qexp(Q q) {              // floor(log2|q|), q!=0
  int e; frexpq(q, &e); return e - 1;
}
static inline Q qpow2(int k) { return ldexpq((Q)1, k); }

enum Kind { K_NONE, K_FP, K_INT, K_PTR, K_UNDEF, K_AGG };
struct Part;
struct Val {
  Kind k = K_NONE;
  // FP
  bool dbl = true, num = false, nan = false;
  double lo = 0, hi = 0;
  int sgn = 0;           // +1: sign bit clear, -1: set, 0: unknown (numbers only)
  int grid = -5000;
  int tag = 0;           // +-(input index+1) when exactly +-input
  const TM *tm = nullptr;
  int vn = 0, vs = 1;    // value number, sign
  // INT
  unsigned w = 0;
  U128 ilo = 0, ihi = 0; // unsigned interval
  bool itop = false;     // any value (or poison)
  bool nb = false;       // itop, but certainly the bits of some NaN
  I128 off = 0;          // value = base(vn) + off  (mod 2^w)
  // PTR
  int obj = -1; int64_t po = 0;
  const llvm::GlobalVariable *gv = nullptr;
  // several values side by side (vector, struct, word holding two members)
  const std::vector<Part> *agg = nullptr;
  // factors, when the value is a product the compiler may contract into an fma
  const Val *pa = nullptr, *pb = nullptr;
  bool single() const { return k == K_FP ? (num && !nan && lo == hi) : (k == K_INT && !itop && ilo == ihi); }
  const Fmt &fmt() const { return dbl ? FD : FF; }
};

struct Part { int64_t off; int sz; Val v; };

enum EventKind { EV_DIVZERO = 1, EV_INVALID = 2, EV_CONV = 4, EV_INTUB = 8, EV_MEM = 16, EV_OVERFLOW = 32, EV_STATE = 64, EV_EXTERN = 128 };
struct Event { int kind; const llvm::Instruction *at; };

struct Box {                 // abstract input
  bool dbl = true;
  int nargs = 1;
  // one argument
  bool nan = false;
  double lo = 0, hi = 0;     // inclusive, same sign
  bool negzero = false;
  // two arguments (y,x): sign and magnitude class per argument, ratio variable
  int sy = 0, sx = 0;        // -1,0,+1   (0: the argument is zero)
  int order = 0;             // -1 |y|<|x| ; 0 equal ; +1 |y|>|x|
  double qlo = 0, qhi = 0;   // min/max ratio box
  int cy = 0, cx = 0;        // 0 finite, 1 infinite, 2 NaN
};

struct Interp {
  const llvm::DataLayout *DL = nullptr;
  const Box *box = nullptr;
  TM xtm;                    // TM of the analysis variable
  bool haveq = false;
  std::deque<TM> arena;
  // trace partitioning
  std::vector<int> dec, nopt; size_t dpos = 0;
  std::vector<std::pair<const char *, const llvm::Instruction *>> decw;
  const llvm::Instruction *curI = nullptr;
  std::map<std::pair<long long, I128>, int> decided;
  // value numbers
  std::map<std::vector<long long>, int> vnmap;
  int nextvn = 1;
  std::vector<Event> events;
  long nops = 0; long steps = 0;
  bool track = false;
  bool contract = false;     // any a*b+c may or may not be fused
  std::deque<Val> varena;
  std::deque<std::vector<Part>> garena;
  struct Half { Val base; I128 off; };
  std::map<int, Half> upper, lower;   // VN of the upper/lower half of an integer -> the integer

  const TM *keep(const TM &t) { arena.push_back(t); return &arena.back(); }
  int VN(const std::vector<long long> &k) {
    auto it = vnmap.find(k);
    if (it != vnmap.end()) return it->second;
    return vnmap[k] = nextvn++;
  }
  void ev(int kind) {
    for (auto &e : events) if (e.kind == kind && e.at == curI) return;
    events.push_back({kind, curI});
  }
  int choose(long long key, I128 key2, int n, const char *what) {
    auto kk = std::make_pair(key, key2);
    auto it = decided.find(kk);
    if (it != decided.end()) return it->second;
    int c;
    if (dpos < dec.size()) { c = dec[dpos]; }
    else { dec.push_back(0); nopt.push_back(n); decw.push_back({what, curI}); c = 0; }
    dpos++;
    if (dec.size() > 24) throw GiveUp{"too many undecided branches"};
    decided[kk] = c;
    return c;
  }
  bool next_trace() {
    while (!dec.empty() && dec.back() + 1 >= nopt.back()) { dec.pop_back(); nopt.pop_back(); decw.pop_back(); }
    if (dec.empty()) return false;
    dec.back()++;
    return true;
  }
  void begin_trace() { dpos = 0; varena.clear(); garena.clear(); upper.clear(); lower.clear(); decided.clear(); steps = 0; }

  // ---------------------------------------------------------------- constants
  static int const_grid(double v) {
    if (v == 0) return 100000;
    int e; double m = frexp(v, &e);
    long long im = (long long)ldexp(fabs(m), 53);
    int tz = __builtin_ctzll((unsigned long long)im);
    return e - 53 + tz;
  }
  static int sgnof(double v) { return std::signbit(v) ? -1 : 1; }
  Val fconst(double v, bool dbl) {
    Val r; r.k = K_FP; r.dbl = dbl;
    if (std::isnan(v)) { r.nan = true; r.num = false; r.vn = VN({-77}); return r; }
    r.num = true; r.lo = r.hi = v; r.sgn = sgnof(v);
    r.grid = std::isinf(v) ? -5000 : const_grid(v);
    if (!std::isinf(v)) r.tm = keep(TM((Q)v));
    double a = fabs(v); long long bits; memcpy(&bits, &a, 8);
    r.vn = VN({-1, bits, 1}); r.vs = sgnof(v);
    return r;
  }
  Val iconst(U128 v, unsigned w) {
    Val r; r.k = K_INT; r.w = w;
    U128 m = w >= 128 ? ~(U128)0 : (((U128)1 << w) - 1);
    r.ilo = r.ihi = v & m; r.vn = 0; r.off = (I128)r.ilo;
    return r;
  }
  Val itop(unsigned w, int vn) { Val r; r.k = K_INT; r.w = w; r.itop = true; r.vn = vn; r.ilo = 0; r.ihi = (((U128)1 << w) - 1); return r; }
  static double rn(Q q, bool dbl) { return dbl ? (double)q : (double)(float)q; }

  // ------------------------------------------------------------ fp finishing
  // real-valued enclosure -> correctly rounded result
  Val finish(bool dbl, Q rlo, Q rhi, const TM *real, int ge, bool exact, bool nan, bool num, int vn, int vs) {
    const Fmt f = dbl ? FD : FF;
    Val r; r.k = K_FP; r.dbl = dbl; r.nan = nan; r.num = num; r.vn = vn; r.vs = vs;
    if (!num) return r;
    if (real) {
      Q a, b; tm_range(*real, a, b);
      if (a > rlo) rlo = a;
      if (b < rhi) rhi = b;
      if (rlo > rhi) { Q m = (rlo + rhi) / 2; rlo = rhi = m; }
    }
    rlo -= fabsq(rlo) * (Q)0x1p-108L; rhi += fabsq(rhi) * (Q)0x1p-108L;
    Q M = std::max(fabsq(rlo), fabsq(rhi));
    r.lo = rn(rlo, dbl); r.hi = rn(rhi, dbl);
    double mx = fmax_of(f);
    if (r.hi > mx || r.lo < -mx) {
      ev(EV_OVERFLOW);
      r.tm = nullptr; r.grid = -5000; r.sgn = r.lo > 0 ? 1 : r.hi < 0 ? -1 : 0;
      if (r.lo > mx) r.lo = r.hi = INFINITY;
      if (r.hi < -mx) r.lo = r.hi = -INFINITY;
      return r;
    }
    if (M == 0) { Val z = fconst(0, dbl); z.nan = nan; z.sgn = 0; return z; }
    int e = qexp(M);
    int half = std::max(e, f.emin) - f.p;       // half ulp exponent
    int gmin = f.emin - f.p + 1;
    if (!exact && ge > -5000 && ge >= gmin && e < ge + f.p) exact = true;
    if (!exact && M < qpow2(gmin - 1)) {        // underflows to zero
      Val z = fconst(0, dbl); z.nan = nan; z.sgn = rlo > 0 ? 1 : rhi < 0 ? -1 : 0; return z;
    }
    if (r.lo == r.hi) {
      Val z = fconst(r.lo, dbl); z.nan = nan; if (r.lo == 0) z.sgn = rlo > 0 ? 1 : rhi < 0 ? -1 : 0; return z;
    }
    if (real) {
      if (exact) r.tm = real;
      else { TM t = *real; t.E = (t.E + ldexpl(1, half)) * UP; r.tm = keep(t); }
    }
    Q mn = rlo > 0 ? rlo : rhi < 0 ? -rhi : (Q)0;
    int g2 = gmin;
    if (mn > 0) g2 = std::max(gmin, qexp(mn) - f.p + 1);
    r.grid = std::max(ge, g2);
    r.sgn = r.lo > 0 ? 1 : r.hi < 0 ? -1 : 0;
    if (r.lo == 0 && rlo > 0) r.sgn = 1;
    if (r.hi == 0 && rhi < 0) r.sgn = -1;
    return r;
  }
  static bool has_inf(const Val &a) { return a.num && (std::isinf(a.lo) || std::isinf(a.hi)); }
  static bool has_zero(const Val &a) { return a.num && a.lo <= 0 && a.hi >= 0; }
  static bool is_pow2(const Val &a) {
    if (!a.single() || a.lo == 0 || std::isinf(a.lo)) return false;
    int e; return fabs(frexp(a.lo, &e)) == 0.5;
  }
  const TM *tmof(const Val &a) { return a.tm; }

  int vn_add(const Val &a, const Val &b, int bs, int &sg) {
    int x = a.vn, xs = a.vs, y = b.vn, ys = b.vs * bs;
    if (x > y) { std::swap(x, y); std::swap(xs, ys); }
    sg = xs;
    return VN({1, a.dbl, x, y, xs * ys});
  }
  Val fadd(const Val &a, Val b, bool sub) {
    nops++;
    if (sub) { b.lo = -b.lo; b.hi = -b.hi; std::swap(b.lo, b.hi); b.sgn = -b.sgn; b.vs = -b.vs; b.tag = -b.tag; if (b.tm) b.tm = keep(tm_neg(*b.tm)); }
    bool nan = a.nan || b.nan;
    int sg, vn = vn_add(a, b, 1, sg);
    if (!a.num || !b.num) { Val r; r.k = K_FP; r.dbl = a.dbl; r.nan = true; r.vn = vn; r.vs = sg; return r; }
    if (a.single() && b.single()) {
      double v = a.dbl ? a.lo + b.lo : (double)((float)a.lo + (float)b.lo);
      if (std::isnan(v)) ev(EV_INVALID);
      else if (std::isinf(v) && !std::isinf(a.lo) && !std::isinf(b.lo)) ev(EV_OVERFLOW);
      return fconst(v, a.dbl);
    }
    if (a.single() && a.lo == 0) { b.nan = nan; if (b.sgn < 0 && has_zero(b) && a.sgn >= 0) b.sgn = 0; return b; }
    if (b.single() && b.lo == 0) { Val r = a; r.nan = nan; if (r.sgn < 0 && has_zero(r) && b.sgn >= 0) r.sgn = 0; return r; }
    if (has_inf(a) || has_inf(b)) {
      Val r; r.k = K_FP; r.dbl = a.dbl; r.num = true; r.nan = nan; r.vn = vn; r.vs = sg;
      bool pinf = (a.hi == INFINITY && b.lo == -INFINITY) || (b.hi == INFINITY && a.lo == -INFINITY);
      if (pinf) { r.nan = true; ev(EV_INVALID); }
      r.lo = a.lo + b.lo; r.hi = a.hi + b.hi;
      if (std::isnan(r.lo)) r.lo = -INFINITY;
      if (std::isnan(r.hi)) r.hi = INFINITY;
      if (!a.dbl) { r.lo = (float)r.lo; r.hi = (float)r.hi; r.lo = std::min(r.lo, (double)nextafterf(r.lo, -INFINITY)); r.hi = std::max(r.hi, (double)nextafterf(r.hi, INFINITY)); }
      else { r.lo = nextafter(r.lo, -INFINITY); r.hi = nextafter(r.hi, INFINITY); if (std::isinf(a.lo) && a.lo == a.hi) r.lo = r.hi = a.lo; if (std::isinf(b.lo) && b.lo == b.hi) r.lo = r.hi = b.lo; }
      r.sgn = r.lo > 0 ? 1 : r.hi < 0 ? -1 : 0;
      return r;
    }
    const TM *t = nullptr;
    if (a.tm && b.tm) t = keep(tm_add(*a.tm, *b.tm));
    if (a.vn && a.vn == b.vn && a.vs == b.vs)   // v+v is exact
      return finish(a.dbl, 2 * (Q)a.lo, 2 * (Q)a.hi, t, a.grid > -5000 ? a.grid + 1 : a.grid, true, nan, true, vn, sg);
    if (a.vn && a.vn == b.vn && a.vs == -b.vs) { Val z = fconst(0, a.dbl); z.nan = nan; return z; }
    return finish(a.dbl, (Q)a.lo + (Q)b.lo, (Q)a.hi + (Q)b.hi, t, std::min(a.grid, b.grid), false, nan, true, vn, sg);
  }
  Val fmul(const Val &a, const Val &b) {
    nops++;
    bool nan = a.nan || b.nan;
    int x = a.vn, y = b.vn; if (x > y) std::swap(x, y);
    int vn = VN({2, a.dbl, x, y}), sg = a.vs * b.vs;
    if (!a.num || !b.num) { Val r; r.k = K_FP; r.dbl = a.dbl; r.nan = true; r.vn = vn; r.vs = sg; return r; }
    if (a.single() && b.single()) {
      double v = a.dbl ? a.lo * b.lo : (double)((float)a.lo * (float)b.lo);
      if (std::isnan(v)) ev(EV_INVALID);
      else if (std::isinf(v) && !std::isinf(a.lo) && !std::isinf(b.lo)) ev(EV_OVERFLOW);
      return fconst(v, a.dbl);
    }
    bool zinf = (has_zero(a) && has_inf(b)) || (has_zero(b) && has_inf(a));
    if (zinf) { nan = true; ev(EV_INVALID); }
    if ((a.single() && a.lo == 0) || (b.single() && b.lo == 0)) {
      Val z = fconst(0, a.dbl); z.sgn = (a.sgn && b.sgn) ? a.sgn * b.sgn : 0; z.nan = nan; return z;
    }
    if (a.single() && fabs(a.lo) == 1) { Val r = a.lo > 0 ? b : fneg(b); r.nan = nan; return r; }
    if (b.single() && fabs(b.lo) == 1) { Val r = b.lo > 0 ? a : fneg(a); r.nan = nan; return r; }
    if (has_inf(a) || has_inf(b)) {
      Val r; r.k = K_FP; r.dbl = a.dbl; r.num = true; r.nan = nan; r.vn = vn; r.vs = sg;
      double c[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
      r.lo = INFINITY; r.hi = -INFINITY;
      for (double v : c) { if (std::isnan(v)) v = 0; r.lo = std::min(r.lo, v); r.hi = std::max(r.hi, v); }
      r.lo = down(r.lo, a.dbl); r.hi = up(r.hi, a.dbl);
      r.sgn = r.lo > 0 ? 1 : r.hi < 0 ? -1 : 0;
      return r;
    }
    Q c[4] = {(Q)a.lo * b.lo, (Q)a.lo * b.hi, (Q)a.hi * b.lo, (Q)a.hi * b.hi};
    Q lo = std::min(std::min(c[0], c[1]), std::min(c[2], c[3])), hi = std::max(std::max(c[0], c[1]), std::max(c[2], c[3]));
    if (a.vn == b.vn && a.vn && lo < 0 && a.vs == b.vs) lo = 0;   // square
    const TM *t = nullptr;
    if (is_pow2(a) && b.tm) t = keep(tm_ldexp(a.lo < 0 ? tm_neg(*b.tm) : *b.tm, qexp(a.lo)));
    else if (is_pow2(b) && a.tm) t = keep(tm_ldexp(b.lo < 0 ? tm_neg(*a.tm) : *a.tm, qexp(b.lo)));
    else if (a.tm && b.tm) t = keep(tm_mul(*a.tm, *b.tm));
    int ge = (a.grid > -5000 && b.grid > -5000) ? a.grid + b.grid : -5000;
    bool exact = false;
    const Val *o = is_pow2(a) ? &b : is_pow2(b) ? &a : nullptr;
    if (o) {
      const Val &k = is_pow2(a) ? a : b;
      int e = qexp(k.lo);
      int gmin = a.fmt().emin - a.fmt().p + 1;
      double mn = o->lo > 0 ? o->lo : o->hi < 0 ? -o->hi : 0;
      if ((o->grid > -5000 && o->grid + e >= gmin) || (mn > 0 && qexp(mn) + e >= a.fmt().emin)) exact = true;
    }
    return finish(a.dbl, lo, hi, t, ge, exact, nan, true, vn, sg);
  }
  static double down(double v, bool dbl) { if (v == -INFINITY) return v; if (dbl) return nextafter(v, -INFINITY); float f = (float)v; return (double)nextafterf(nextafterf(f, -INFINITY), -INFINITY); }
  static double up(double v, bool dbl) { return -down(-v, dbl); }
  Val fneg(Val a) {
    std::swap(a.lo, a.hi); a.lo = -a.lo; a.hi = -a.hi; a.sgn = -a.sgn; a.vs = -a.vs; a.tag = -a.tag;
    if (a.tm) a.tm = keep(tm_neg(*a.tm));
    if (a.pa) { varena.push_back(fneg(*a.pa)); a.pa = &varena.back(); }
    return a;
  }
  // hull of two abstractions of the same quantity evaluated in different ways
  Val hull(const Val &a, const Val &b) {
    Val r = a; r.vn = nextvn++; r.vs = 1; r.tag = 0; r.pa = r.pb = nullptr;
    if (!a.num) { r = b; r.vn = nextvn++; r.vs = 1; r.nan = a.nan || b.nan; r.pa = r.pb = nullptr; return r; }
    r.nan = a.nan || b.nan;
    if (!b.num) return r;
    r.lo = std::min(a.lo, b.lo); r.hi = std::max(a.hi, b.hi);
    r.grid = std::min(a.grid, b.grid); r.sgn = a.sgn == b.sgn ? a.sgn : 0;
    if (a.tm && b.tm) {
      TM p = *a.tm, q = *b.tm; L ea = p.E, eb = q.E; p.E = q.E = 0;
      TM d = tm_sub(p, q); Q l, h; tm_range(d, l, h);
      TM t = *a.tm; t.E = std::max(ea, (eb + std::max(labs(l), labs(h))) * UP); r.tm = keep(t);
    } else r.tm = nullptr;
    if (r.lo == r.hi && a.single() && b.single()) { Val z = fconst(r.lo, a.dbl); return z; }
    return r;
  }
  Val op_add(const Val &a, const Val &b, bool sub) {
    Val r = fadd(a, b, sub);
    if (!contract || (!a.pa && !b.pa)) return r;
    if (a.pa) r = hull(r, ffma(*a.pa, *a.pb, sub ? fneg(b) : b));
    if (b.pa) { Val nb = sub ? fneg(*b.pa) : *b.pa; r = hull(r, ffma(nb, *b.pb, a)); }
    return r;
  }
  Val op_mul(const Val &a, const Val &b) {
    Val r = fmul(a, b);
    if (contract) { varena.push_back(a); r.pa = &varena.back(); varena.push_back(b); r.pb = &varena.back(); }
    return r;
  }
  Val fdiv(const Val &a, const Val &b) {
    nops++;
    bool nan = a.nan || b.nan;
    int vn = VN({3, a.dbl, a.vn, b.vn}), sg = a.vs * b.vs;
    auto top = [&](bool n) { Val r; r.k = K_FP; r.dbl = a.dbl; r.num = true; r.nan = n; r.lo = -INFINITY; r.hi = INFINITY; r.vn = vn; r.vs = sg; return r; };
    if (!a.num || !b.num) { Val r; r.k = K_FP; r.dbl = a.dbl; r.nan = true; r.vn = vn; r.vs = sg; return r; }
    if (a.single() && b.single()) {
      if (b.lo == 0) ev(a.lo == 0 ? EV_INVALID : EV_DIVZERO);
      double v = a.dbl ? a.lo / b.lo : (double)((float)a.lo / (float)b.lo);
      if (std::isnan(v) && b.lo != 0) ev(EV_INVALID);
      if (b.lo == 0 && !a.sgn) return top(true);
      return fconst(v, a.dbl);
    }
    if (a.vn && a.vn == b.vn && !has_zero(a) && !has_inf(a)) { Val r = fconst(sg, a.dbl); r.nan = nan; return r; }
    if (box->nargs == 2 && a.tag && b.tag && abs(a.tag) != abs(b.tag) && haveq) {
      // quotient of the two inputs: expressed in the ratio variable q = min/max
      int s = (a.tag > 0 ? 1 : -1) * (b.tag > 0 ? 1 : -1);
      s *= (abs(a.tag) == 1 ? box->sy : box->sx) * (abs(b.tag) == 1 ? box->sy : box->sx);
      bool small_over_large = (abs(a.tag) == 1) == (box->order <= 0);
      TM q = xtm; Q lo, hi;
      if (small_over_large) { lo = box->qlo; hi = box->qhi; }
      else {
        TM iv; if (!(box->qlo > 0) || !tm_inv(q, iv)) return top(nan);
        q = iv; lo = (Q)1 / box->qhi; hi = (Q)1 / box->qlo;
      }
      if (s < 0) { q = tm_neg(q); Q t = lo; lo = -hi; hi = -t; }
      if (box->order == 0) return fconst(s, a.dbl);
      Val r = finish(a.dbl, lo, hi, keep(q), -5000, false, nan, true, vn, sg);
      return r;
    }
    if (has_zero(b)) { ev(EV_DIVZERO); if (has_zero(a)) { ev(EV_INVALID); nan = true; } if (has_inf(a) && has_inf(b)) nan = true; return top(nan); }
    if (has_inf(a) && has_inf(b)) { ev(EV_INVALID); nan = true; }
    if (has_inf(a) || has_inf(b)) {
      Val r; r.k = K_FP; r.dbl = a.dbl; r.num = true; r.nan = nan; r.vn = vn; r.vs = sg;
      double c[4] = {a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi};
      r.lo = INFINITY; r.hi = -INFINITY;
      for (double v : c) { if (std::isnan(v)) { return top(nan); } r.lo = std::min(r.lo, v); r.hi = std::max(r.hi, v); }
      if (r.lo == 0 && r.hi == 0) { Val z = fconst(0, a.dbl); z.nan = nan; z.sgn = 0; return z; }
      r.lo = down(r.lo, a.dbl); r.hi = up(r.hi, a.dbl);
      r.sgn = r.lo > 0 ? 1 : r.hi < 0 ? -1 : 0;
      return r;
    }
    if (b.single() && fabs(b.lo) == 1) { Val r = b.lo > 0 ? a : fneg(a); r.nan = nan; return r; }
    if (a.single() && a.lo == 0) { Val z = fconst(0, a.dbl); z.nan = nan; z.sgn = 0; return z; }
    Q c[4] = {(Q)a.lo / b.lo, (Q)a.lo / b.hi, (Q)a.hi / b.lo, (Q)a.hi / b.hi};
    Q lo = std::min(std::min(c[0], c[1]), std::min(c[2], c[3])), hi = std::max(std::max(c[0], c[1]), std::max(c[2], c[3]));
    lo -= fabsq(lo) * (Q)0x1p-110L; hi += fabsq(hi) * (Q)0x1p-110L;
    const TM *t = nullptr;
    if (a.tm && b.tm) { TM iv; if (tm_inv(*b.tm, iv)) t = keep(tm_mul(*a.tm, iv)); }
    bool exact = false;
    if (is_pow2(b)) {
      int e = qexp(b.lo); int gmin = a.fmt().emin - a.fmt().p + 1;
      double mn = a.lo > 0 ? a.lo : a.hi < 0 ? -a.hi : 0;
      if ((a.grid > -5000 && a.grid - e >= gmin) || (mn > 0 && qexp(mn) - e >= a.fmt().emin)) exact = true;
    }
    return finish(a.dbl, lo, hi, t, -5000, exact, nan, true, vn, sg);
  }
  Val fsqrt(const Val &a) {
    nops++;
    int vn = VN({4, a.dbl, a.vn, a.vs});
    Val r; r.k = K_FP; r.dbl = a.dbl; r.vn = vn; r.vs = 1; r.nan = a.nan;
    if (!a.num) { r.nan = true; return r; }
    if (a.single()) {
      if (a.lo < 0) { ev(EV_INVALID); return fconst(NAN, a.dbl); }
      Val z = fconst(a.dbl ? sqrt(a.lo) : (double)sqrtf((float)a.lo), a.dbl); z.nan = a.nan; return z;
    }
    if (a.lo < 0) { ev(EV_INVALID); r.nan = true; if (a.hi < 0) return r; }
    double l = std::max(a.lo, 0.0);
    if (std::isinf(a.hi)) { r.num = true; r.lo = 0; r.hi = INFINITY; r.sgn = 0; return r; }
    Q lo = sqrtq((Q)l), hi = sqrtq((Q)a.hi);
    lo -= fabsq(lo) * (Q)0x1p-110L; hi += fabsq(hi) * (Q)0x1p-110L;
    if (lo < 0) lo = 0;
    const TM *t = nullptr;
    if (a.tm && a.lo >= 0) { TM s; if (tm_sqrt(*a.tm, s)) t = keep(s); }
    return finish(a.dbl, lo, hi, t, -5000, false, r.nan, true, vn, 1);
  }
  int sign_of(const Val &a) { // resolves the sign bit, forking if needed
    if (a.lo > 0) return 1;
    if (a.hi < 0) return -1;
    if (a.sgn) return a.sgn;
    return choose(((long long)a.vn << 4) | 9, 0, 2, "sign") ? -a.vs : a.vs;
  }
  Val fabs_(const Val &a) {
    if (!a.num) { Val r = a; r.vs = 1; return r; }
    int s = sign_of(a);
    Val r = s < 0 ? fneg(a) : a;
    if (r.lo < 0) r.lo = 0;
    r.sgn = 1;
    if (box->nargs == 2 && r.tag) {  // |input|
      int i = abs(r.tag) - 1; int si = i == 0 ? box->sy : box->sx;
      r.tag = si < 0 ? -(i + 1) : (i + 1);
    }
    return r;
  }
  Val copysign_(const Val &a, const Val &b) {
    Val m = fabs_(a);
    if (!b.num) { m.sgn = 0; return m; }
    return sign_of(b) < 0 ? fneg(m) : m;
  }
  // widening / narrowing conversions
  Val fpext(const Val &a) { Val r = a; r.dbl = true; if (a.single()) { bool n = a.nan; r = fconst(a.lo, true); r.nan = n; } else r.vn = VN({5, a.vn}); return r; }
  Val fptrunc(const Val &a) {
    nops++;
    int vn = VN({6, a.vn});
    if (!a.num) { Val r = a; r.dbl = false; r.vn = vn; return r; }
    if (a.single()) { float f = (float)a.lo; if (std::isinf(f) && !std::isinf(a.lo)) ev(EV_OVERFLOW); Val r = fconst(f, false); r.nan = a.nan; return r; }
    if (has_inf(a)) { Val r = a; r.dbl = false; r.tm = nullptr; r.vn = vn; r.lo = (float)a.lo; r.hi = (float)a.hi; return r; }
    return finish(false, a.lo, a.hi, a.tm, a.grid, false, a.nan, true, vn, a.vs);
  }
  // -------------------------------------------------------------- int <-> fp
  Val inttofp(const Val &a, bool sgn, bool dbl) {
    nops++;
    int vn = VN({7, sgn, dbl, a.vn, (long long)a.off, (long long)a.w});
    if (a.itop) {
      Val r; r.k = K_FP; r.dbl = dbl; r.num = true; r.vn = vn;
      r.lo = sgn ? -ldexp(1, a.w - 1) : 0; r.hi = ldexp(1, sgn ? a.w - 1 : a.w); r.grid = 0;
      return r;
    }
    I128 lo, hi;
    if (sgn) {
      I128 h = (I128)1 << (a.w - 1), m = (I128)1 << a.w;
      if (a.ihi < (U128)h) { lo = a.ilo; hi = a.ihi; }
      else if (a.ilo >= (U128)h) { lo = (I128)a.ilo - m; hi = (I128)a.ihi - m; }
      else { lo = -h; hi = h - 1; }
    } else { lo = a.ilo; hi = a.ihi; }
    if (lo == hi) { double v = dbl ? (double)lo : (double)(float)lo; return fconst(v, dbl); }
    return finish(dbl, (Q)lo, (Q)hi, a.tm, 0, false, false, true, vn, 1);
  }
  Val fptoint(const Val &a, bool sgn, unsigned w) {
    nops++;
    int vn = VN({8, sgn, (long long)w, a.vn, a.vs});
    Q mn = sgn ? -qpow2(w - 1) : (Q)0, mx = qpow2(sgn ? w - 1 : w);
    if (a.nan || !a.num) { ev(EV_CONV); return itop(w, vn); }
    if (std::isinf(a.lo) || std::isinf(a.hi)) { ev(EV_CONV); return itop(w, vn); }
    Q lo = truncq(a.lo), hi = truncq(a.hi);
    if (lo < mn || hi >= mx) { ev(EV_CONV); return itop(w, vn); }
    I128 l = (I128)lo, h = (I128)hi;
    if (h - l > 3) throw GiveUp{"integer part spans too many values"};
    I128 v = l;
    if (h > l) v = l + choose(((long long)vn << 4) | 1, l, (int)(h - l + 1), "int");
    return iconst((U128)v, w);
  }
  U128 bitsof(double v, bool dbl) {  // v >= 0
    if (dbl) { uint64_t b; memcpy(&b, &v, 8); return b; }
    float f = (float)v; uint32_t b; memcpy(&b, &f, 4); return b;
  }
  double frombits(U128 b, bool dbl) {
    if (dbl) { uint64_t x = (uint64_t)b; double v; memcpy(&v, &x, 8); return v; }
    uint32_t x = (uint32_t)b; float v; memcpy(&v, &x, 4); return v;
  }
  Val fptobits(const Val &a) {
    const Fmt f = a.fmt(); unsigned w = wbits(f);
    int base = VN({10, a.dbl, a.vn});
    if (!a.num || a.nan || has_inf(a)) {
      if (a.num && !a.nan && a.single()) { Val r = iconst(bitsof(fabs(a.lo), a.dbl), w); if (a.lo < 0) { r.ilo |= (U128)1 << (w - 1); r.ihi = r.ilo; r.off = (I128)r.ilo; } return r; }
      if (a.num && !a.nan && (a.lo > 0 || a.hi < 0)) {
        int s = a.lo > 0 ? 1 : -1;
        Val r; r.k = K_INT; r.w = w; r.vn = base; r.off = s < 0 ? ((I128)1 << (w - 1)) : 0;
        double l = s > 0 ? a.lo : -a.hi, h = s > 0 ? a.hi : -a.lo;
        r.ilo = bitsof(l, a.dbl) + (U128)r.off; r.ihi = bitsof(h, a.dbl) + (U128)r.off;
        return r;
      }
      if (!a.num && a.nan) {
        // NaN: exponent all ones, mantissa non-zero, sign unknown
        Val r = itop(w, base); r.nb = true; return r;
      }
      return itop(w, base);
    }
    int s = sign_of(a);
    double l = s > 0 ? std::max(a.lo, 0.0) : std::max(-a.hi, 0.0), h = s > 0 ? a.hi : -a.lo;
    U128 sb = s < 0 ? (U128)1 << (w - 1) : 0;
    if (l == h) { Val r = iconst(bitsof(l, a.dbl) + sb, w); return r; }
    const TM *t = nullptr;
    if (a.tm && l > 0) {
      int el = std::max(qexp(l), f.emin), eh = std::max(qexp(h), f.emin);
      if (eh - el <= 2) {
        int e = el;
        if (eh > el) e = el + choose(((long long)a.vn << 4) | 2, el, eh - el + 1, "binade");
        l = std::max(l, ldexp(1, e)); if (e == f.emin) l = s > 0 ? std::max(a.lo, 0.0) : std::max(-a.hi, 0.0);
        h = std::min(h, (double)(ldexp(1, e) * (2 - ldexp(1, 1 - f.p))));
        TM m = s > 0 ? *a.tm : tm_neg(*a.tm);
        m = tm_ldexp(m, f.p - 1 - e);
        m = tm_addc(m, (Q)(f.emax + e - 1) * qpow2(f.p - 1));
        if (s < 0) m = tm_addc(m, qpow2(w - 1));
        t = keep(m);
      }
    }
    Val r; r.k = K_INT; r.w = w; r.vn = base; r.off = (I128)sb; r.tm = t;
    r.ilo = bitsof(l, a.dbl) + sb; r.ihi = bitsof(h, a.dbl) + sb;
    return r;
  }
  Val bitstofp(const Val &a, bool dbl) {
    const Fmt f = dbl ? FD : FF; unsigned w = wbits(f);
    int vn = VN({11, dbl, a.vn, (long long)(a.off & (((I128)1 << (w - 1)) - 1)), (long long)a.w}), vs = 1;
    U128 top = (U128)1 << (w - 1);
    // recognise bits(v)+0 / +signbit
    auto it = basefp.find(a.vn);
    bool ident = false; int bvn = 0;
    I128 o = a.off & ((((I128)1) << w) - 1);
    if (it != basefp.end() && it->second.dbl == dbl && (o == 0 || o == (I128)top)) { ident = true; bvn = it->second.vn; vs = it->second.rel; }
    if (a.nb && a.w == w) { Val r; r.k = K_FP; r.dbl = dbl; r.nan = true; r.vn = vn; return r; }
    if (a.itop) {
      Val r; r.k = K_FP; r.dbl = dbl; r.num = true; r.nan = true; r.lo = -INFINITY; r.hi = INFINITY; r.vn = vn; return r;
    }
    bool sl = (a.ilo & top) != 0, sh = (a.ihi & top) != 0;
    if (sl != sh) {
      Val r; r.k = K_FP; r.dbl = dbl; r.num = true; r.nan = true; r.lo = -INFINITY; r.hi = INFINITY; r.vn = vn; return r;
    }
    U128 m = top - 1, lo = a.ilo & m, hi = a.ihi & m, infb = bitsof(INFINITY, dbl);
    if (a.ilo == a.ihi) {
      Val r = fconst(frombits(a.ilo, dbl), dbl);
      return r;
    }
    if (lo > infb) { Val r; r.k = K_FP; r.dbl = dbl; r.nan = true; r.vn = vn; return r; }
    Val r; r.k = K_FP; r.dbl = dbl; r.num = true; r.vn = ident ? bvn : vn; r.vs = sl ? -vs : vs;
    if (hi > infb) { r.nan = true; hi = infb; }
    double l = frombits(lo, dbl), h = frombits(hi, dbl);
    const TM *t = nullptr;
    if (a.tm && !std::isinf(h) && l > 0) {
      int el = std::max(qexp(l), f.emin), eh = std::max(qexp(h), f.emin);
      if (eh - el <= 2) {
        int e = el;
        if (eh > el) e = el + choose(((long long)VN({12, a.vn, (long long)a.off, (long long)(a.off >> 64)}) << 4) | 3, el, eh - el + 1, "binade");
        l = std::max(l, e == f.emin ? l : ldexp(1, e));
        h = std::min(h, (double)(ldexp(1, e) * (2 - ldexp(1, 1 - f.p))));
        TM q = *a.tm;
        if (sl) q = tm_addc(q, -(Q)qpow2(w - 1));
        q = tm_addc(q, -(Q)(f.emax + e - 1) * qpow2(f.p - 1));
        q = tm_ldexp(q, e - f.p + 1);
        if (sl) q = tm_neg(q);
        t = keep(q);
      }
    }
    r.lo = sl ? -h : l; r.hi = sl ? -l : h; r.tm = t; r.sgn = sl ? -1 : 1;
    r.grid = l > 0 ? std::max(f.emin - f.p + 1, qexp(l) - f.p + 1) : f.emin - f.p + 1;
    if (std::isinf(h)) { r.tm = nullptr; r.grid = -5000; }
    return r;
  }
  struct BaseFp { int vn; bool dbl; int rel; };
  std::map<int, BaseFp> basefp; // VN of bits(|v|) -> |v| = rel * base(vn)
  Val bitcast_fp_int(const Val &a) {
    Val r = fptobits(a);
    if (r.vn && !r.itop && a.num && !a.nan) {
      int s = (r.ilo >> (r.w - 1)) & 1 ? -1 : 1;
      basefp[r.vn] = {a.vn, a.dbl, a.vs * s};
    }
    return r;
  }
  // ------------------------------------------------------------------- ints
  static U128 mask(unsigned w) { return w >= 128 ? ~(U128)0 : (((U128)1 << w) - 1); }
  static I128 tosigned(U128 v, unsigned w) { return (v >> (w - 1)) & 1 ? (I128)v - ((I128)1 << w) : (I128)v; }
  Val small_fork(Val r, const char *what) {
    if (r.itop || r.ilo == r.ihi) { if (!r.itop) return iconst(r.ilo, r.w); return r; }
    if (r.ihi - r.ilo <= 3) {
      long long key = VN({13, r.vn, (long long)r.off, (long long)(r.off >> 64), (long long)r.w});
      int c = choose((key << 4) | 4, (I128)r.ilo, (int)(r.ihi - r.ilo + 1), what);
      return iconst(r.ilo + c, r.w);
    }
    return r;
  }
  Val iarith(unsigned opc, const Val &a, const Val &b, bool nsw, bool nuw) {
    using namespace llvm;
    unsigned w = a.w; U128 M = mask(w);
    int gen = VN({20, (long long)opc, (long long)w, a.vn, (long long)a.off, (long long)(a.off >> 64), b.vn, (long long)b.off, (long long)(b.off >> 64)});
    if (a.itop || b.itop) {
      if ((nsw || nuw) && (opc == Instruction::Add || opc == Instruction::Sub || opc == Instruction::Mul || opc == Instruction::Shl)) ev(EV_INTUB);
      if (a.nb != b.nb) {                      // sign manipulation of a NaN leaves a NaN
        const Val &k = a.nb ? b : a; U128 sb = (U128)1 << (w - 1);
        bool keepnb = k.single() && ((opc == Instruction::And && (k.ilo | sb) == M) || ((opc == Instruction::Or || opc == Instruction::Xor) && (k.ilo & ~sb) == 0));
        if (keepnb) { Val r = itop(w, gen); r.nb = true; return r; }
      }
      // one bit of an unknown value
      if (opc == Instruction::And && (a.single() || b.single())) {
        U128 k = a.single() ? a.ilo : b.ilo;
        if (k && !(k & (k - 1))) return iconst(choose(((long long)gen << 4) | 6, 0, 2, "bit") ? k : 0, w);
      }
      // masks and shifts of unknown values may still be bounded
      if (opc == Instruction::And && (!a.itop || !b.itop)) {
        const Val &k = a.itop ? b : a; Val r; r.k = K_INT; r.w = w; r.vn = gen; r.ilo = 0; r.ihi = k.ihi; return small_fork(r, "mask");
      }
      if (opc == Instruction::LShr && b.single() && b.ilo < w) {
        Val r; r.k = K_INT; r.w = w; r.vn = gen; r.ilo = 0; r.ihi = M >> (int)b.ilo; return small_fork(r, "shift");
      }
      return itop(w, gen);
    }
    if (a.single() && b.single()) {
      U128 x = a.ilo, y = b.ilo, r = 0; I128 sx = tosigned(x, w), sy = tosigned(y, w), sr = 0;
      I128 smin = -((I128)1 << (w - 1)), smax = ((I128)1 << (w - 1)) - 1;
      switch (opc) {
        case Instruction::Add: sr = sx + sy; r = x + y; if (nsw && (sr < smin || sr > smax)) ev(EV_INTUB); if (nuw && r > M) ev(EV_INTUB); break;
        case Instruction::Sub: sr = sx - sy; r = x - y; if (nsw && (sr < smin || sr > smax)) ev(EV_INTUB); if (nuw && y > x) ev(EV_INTUB); break;
        case Instruction::Mul: sr = sx * sy; r = x * y; if (w <= 32 && nsw && (sr < smin || sr > smax)) ev(EV_INTUB); break;
        case Instruction::And: r = x & y; break;
        case Instruction::Or: r = x | y; break;
        case Instruction::Xor: r = x ^ y; break;
        case Instruction::Shl: if (y >= w) { ev(EV_INTUB); return itop(w, gen); } r = x << (int)y;
          if (nsw) { I128 back = tosigned(r & M, w) >> (int)y; if (back != sx) ev(EV_INTUB); } break;
        case Instruction::LShr: if (y >= w) { ev(EV_INTUB); return itop(w, gen); } r = x >> (int)y; break;
        case Instruction::AShr: if (y >= w) { ev(EV_INTUB); return itop(w, gen); } r = (U128)(sx >> (int)y); break;
        case Instruction::UDiv: if (!y) { ev(EV_INTUB); return itop(w, gen); } r = x / y; break;
        case Instruction::URem: if (!y) { ev(EV_INTUB); return itop(w, gen); } r = x % y; break;
        case Instruction::SDiv: if (!y || (sx == smin && sy == -1)) { ev(EV_INTUB); return itop(w, gen); } r = (U128)(sx / sy); break;
        case Instruction::SRem: if (!y || (sx == smin && sy == -1)) { ev(EV_INTUB); return itop(w, gen); } r = (U128)(sx % sy); break;
        default: throw Unsupported{"int op"};
      }
      return iconst(r & M, w);
    }
    if (nsw && (opc == Instruction::Add || opc == Instruction::Sub || opc == Instruction::Mul)) {
      I128 al = tosigned(a.ilo, w), ah = tosigned(a.ihi, w), bl = tosigned(b.ilo, w), bh = tosigned(b.ihi, w);
      I128 smin = -((I128)1 << (w - 1)), smax = ((I128)1 << (w - 1)) - 1;
      if (al > ah) { al = smin; ah = smax; }
      if (bl > bh) { bl = smin; bh = smax; }
      I128 lo, hi;
      if (opc == Instruction::Add) { lo = al + bl; hi = ah + bh; }
      else if (opc == Instruction::Sub) { lo = al - bh; hi = ah - bl; }
      else { I128 p[4] = {al * bl, al * bh, ah * bl, ah * bh}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); if (w > 63) { lo = smin; hi = smax; if (ah > 0x7fffffff || bh > 0x7fffffff || al < -0x7fffffff || bl < -0x7fffffff) hi = smax + 1; } }
      if (lo < smin || hi > smax) ev(EV_INTUB);
    }
    Val r; r.k = K_INT; r.w = w; r.vn = gen;
    const Val *v = a.single() ? &b : &a; const Val *c = a.single() ? &a : &b;
    switch (opc) {
      case Instruction::Add: case Instruction::Sub: {
        bool sub = opc == Instruction::Sub;
        I128 lo, hi;
        if (!sub) { lo = (I128)a.ilo + (I128)b.ilo; hi = (I128)a.ihi + (I128)b.ihi; }
        else { lo = (I128)a.ilo - (I128)b.ihi; hi = (I128)a.ihi - (I128)b.ilo; }
        I128 mod = (I128)1 << w; I128 k = 0;
        // wrap the whole interval if it fits in one period
        while (lo + k < 0) k += mod;
        while (lo + k >= mod) k -= mod;
        if (hi + k >= mod) return itop(w, gen);
        r.ilo = (U128)(lo + k); r.ihi = (U128)(hi + k);
        if (a.tm || b.tm) {
          TM ta = a.tm ? *a.tm : TM((Q)(I128)a.ilo), tb = b.tm ? *b.tm : TM((Q)(I128)b.ilo);
          if ((a.tm || a.single()) && (b.tm || b.single())) {
            TM t = sub ? tm_sub(ta, tb) : tm_add(ta, tb);
            r.tm = keep(tm_addc(t, (Q)k));
          }
        }
        if (b.single()) { r.vn = a.vn; r.off = a.off + (sub ? -(I128)b.ilo : (I128)b.ilo); }
        else if (a.single() && !sub) { r.vn = b.vn; r.off = b.off + (I128)a.ilo; }
        return small_fork(r, "int");
      }
      case Instruction::And: case Instruction::Or: case Instruction::Xor: {
        if (!c->single()) {
          if (opc == Instruction::And) { r.ilo = 0; r.ihi = std::min(a.ihi, b.ihi); return small_fork(r, "and"); }
          return itop(w, gen);
        }
        U128 k = c->ilo, diff = v->ilo ^ v->ihi, known = M;
        while (diff) { known = (known << 1) & M; diff >>= 1; }
        U128 kv = v->ilo & known;
        I128 delta = 0; bool ok = false;
        if (opc == Instruction::And) {
          U128 clr = ~k & M;
          if ((clr & ~known) == 0) { delta = -(I128)(kv & clr); ok = true; }
          else if ((k & ~known) == 0) return iconst(kv & k, w);
          else {
            // keeps a contiguous low part that stays below the varying bits?
            U128 keep_ = k & M;
            r.ilo = 0; r.ihi = std::min(v->ihi, keep_);
            if (((keep_ + 1) & keep_) == 0 && keep_ >= v->ihi - v->ilo) {
              U128 l = v->ilo & keep_, h = v->ihi & keep_;
              if (l <= h && (v->ihi - v->ilo) == h - l) { r.ilo = l; r.ihi = h; if (v->tm) r.tm = keep(tm_addc(*v->tm, -(Q)(I128)(v->ilo - l))); }
            }
            return small_fork(r, "and");
          }
        } else if (opc == Instruction::Or) {
          if ((k & ~known) == 0) { delta = (I128)(k & ~kv); ok = true; }
        } else {
          if ((k & ~known) == 0) { delta = (I128)(k & ~kv) - (I128)(k & kv); ok = true; }
        }
        if (!ok) return itop(w, gen);
        r.ilo = (U128)((I128)v->ilo + delta); r.ihi = (U128)((I128)v->ihi + delta);
        r.vn = v->vn; r.off = v->off + delta;
        if (v->tm) r.tm = keep(tm_addc(*v->tm, (Q)delta));
        return small_fork(r, "bits");
      }
      case Instruction::LShr: case Instruction::AShr: {
        if (!b.single() || b.ilo >= w) return itop(w, gen);
        int k = (int)b.ilo;
        if (opc == Instruction::AShr) {
          bool sl = (a.ilo >> (w - 1)) & 1, sh = (a.ihi >> (w - 1)) & 1;
          if (sl != sh) return itop(w, gen);
          r.ilo = (U128)(tosigned(a.ilo, w) >> k) & M; r.ihi = (U128)(tosigned(a.ihi, w) >> k) & M;
          return small_fork(r, "shift");
        }
        r.ilo = a.ilo >> k; r.ihi = a.ihi >> k;
        if (a.tm) {
          TM t = tm_ldexp(*a.tm, -k);
          t = tm_addc(t, -(Q)0.5); t.E = (t.E + 0.5L) * UP;   // floor
          r.tm = keep(t);
        }
        return small_fork(r, "shift");
      }
      case Instruction::Shl: {
        if (!b.single() || b.ilo >= w) return itop(w, gen);
        int k = (int)b.ilo;
        if ((a.ihi << k) > M) return itop(w, gen);
        r.ilo = a.ilo << k; r.ihi = a.ihi << k;
        if (a.tm) r.tm = keep(tm_ldexp(*a.tm, k));
        return small_fork(r, "shift");
      }
      case Instruction::UDiv: {
        if (!b.single() || b.ilo == 0) return itop(w, gen);
        r.ilo = a.ilo / b.ilo; r.ihi = a.ihi / b.ilo;
        if (a.tm) { TM t = tm_scale(*a.tm, (Q)1 / (Q)(I128)b.ilo); t = tm_addc(t, -(Q)0.5); t.E = (t.E + 0.5L) * UP; r.tm = keep(t); }
        return small_fork(r, "div");
      }
      case Instruction::Mul: {
        if (a.ihi && b.ihi > M / a.ihi) return itop(w, gen);
        r.ilo = a.ilo * b.ilo; r.ihi = a.ihi * b.ihi;
        if (v->tm && c->single()) r.tm = keep(tm_scale(*v->tm, (Q)(I128)c->ilo));
        return small_fork(r, "mul");
      }
      default: return itop(w, gen);
    }
  }
  Val icmp(unsigned pred, const Val &a, const Val &b) {
    using namespace llvm;
    long long key = VN({21, (long long)pred, a.vn, (long long)a.off, (long long)(a.off >> 64), b.vn, (long long)b.off, (long long)(b.off >> 64)});
    auto undecided = [&]() { return iconst(choose((key << 4) | 5, 0, 2, "icmp"), 1); };
    if (a.itop || b.itop) return undecided();
    unsigned w = a.w;
    I128 al, ah, bl, bh;
    bool sg = CmpInst::isSigned((CmpInst::Predicate)pred);
    if (sg) {
      al = tosigned(a.ilo, w); ah = tosigned(a.ihi, w); bl = tosigned(b.ilo, w); bh = tosigned(b.ihi, w);
      if (al > ah || bl > bh) return undecided();
    } else { al = a.ilo; ah = a.ihi; bl = b.ilo; bh = b.ihi; }
    int res = -1;
    switch (pred) {
      case CmpInst::ICMP_EQ: res = (al == ah && bl == bh && al == bl) ? 1 : (ah < bl || bh < al) ? 0 : -1; break;
      case CmpInst::ICMP_NE: res = (al == ah && bl == bh && al == bl) ? 0 : (ah < bl || bh < al) ? 1 : -1; break;
      case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: res = al > bh ? 1 : ah <= bl ? 0 : -1; break;
      case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: res = al >= bh ? 1 : ah < bl ? 0 : -1; break;
      case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: res = ah < bl ? 1 : al >= bh ? 0 : -1; break;
      case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: res = ah <= bl ? 1 : al > bh ? 0 : -1; break;
    }
    if (res < 0) return undecided();
    return iconst(res, 1);
  }
  Val fcmp(unsigned pred, const Val &a, const Val &b) {
    using namespace llvm;
    nops++;
    bool maynan = a.nan || b.nan || !a.num || !b.num;
    bool mustnan = !a.num || !b.num;
    bool mayLT = false, mayEQ = false, mayGT = false;
    if (!mustnan) {
      bool done = false;
    if (box->nargs == 2 && a.tag && b.tag && abs(a.tag) != abs(b.tag)) {
        int sa = (a.tag > 0 ? 1 : -1) * (abs(a.tag) == 1 ? box->sy : box->sx);
        int sb = (b.tag > 0 ? 1 : -1) * (abs(b.tag) == 1 ? box->sy : box->sx);
        int mag = abs(a.tag) == 1 ? box->order : -box->order;   // sign(|a|-|b|)
        int c = sa > sb ? 1 : sa < sb ? -1 : sa * mag;
        mayLT = c < 0; mayEQ = c == 0; mayGT = c > 0; done = true;
      }
      if (!done) {
        mayLT = a.lo < b.hi; mayGT = a.hi > b.lo; mayEQ = a.lo <= b.hi && b.lo <= a.hi;
        if (a.single() && b.single()) { mayEQ = a.lo == b.lo; }
        if (a.vn && a.vn == b.vn && a.vs == b.vs) { mayLT = mayGT = false; mayEQ = true; }
      }
    }
    unsigned p = pred;
    auto val = [&](int rel) -> bool { // rel: 0 eq 1 gt 2 lt 3 uno ; FCMP predicate bits: eq=1,gt=2,lt=4,uno=8
      return (p >> rel) & 1;
    };
    bool canT = false, canF = false;
    auto upd = [&](int rel) { if (val(rel)) canT = true; else canF = true; };
    if (mayEQ) upd(0);
    if (mayGT) upd(1);
    if (mayLT) upd(2);
    if (maynan) upd(3);
    if (canT && !canF) return iconst(1, 1);
    if (canF && !canT) return iconst(0, 1);
    // canonical key: (x op y) with sign normalised
    int avs = a.vs, bvs = b.vs;
    if (avs < 0) { avs = 1; bvs = -bvs; p = (p & 9) | ((p & 2) << 1) | ((p & 4) >> 1); }
    long long key = VN({22, (long long)p, a.vn, avs, b.vn, bvs});
    int c = choose((key << 4) | 6, 0, 2, "fcmp");
    return iconst(c, 1);
  }
  // --------------------------------------------------------------- execution
  typedef llvm::DenseMap<const llvm::Value *, Val> Env;
  struct Obj { std::map<int64_t, std::pair<int, Val>> cells; int64_t size; };
  std::vector<Obj> heap;

  void leaves(llvm::Type *t, int64_t off, const std::function<void(llvm::Type *, int64_t)> &f) {
    using namespace llvm;
    if (auto *at = dyn_cast<ArrayType>(t)) { int64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, f); return; }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) { int64_t es = DL->getTypeStoreSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) leaves(vt->getElementType(), off + i * es, f); return; }
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i), f); return; }
    f(t, off);
  }
  Val aggregate(const std::vector<Part> &ps) { garena.push_back(ps); Val r; r.k = K_AGG; r.agg = &garena.back(); return r; }
  std::vector<Part> parts(const Val &v, int sz) {
    if (v.k == K_AGG) return *v.agg;
    return {Part{0, sz, v}};
  }
  // the value of type ty at byte off of an aggregate
  Val element(const Val &v, llvm::Type *ty, int64_t off) {
    int64_t sz = DL->getTypeStoreSize(ty);
    if (v.k != K_AGG) { if (off == 0) return reinterpret(v, ty); throw Unsupported{"element of a scalar"}; }
    Obj o; o.size = 1 << 20;
    for (auto &p : *v.agg) o.cells[p.off] = {p.sz, p.v};
    return readcells(o, off, sz, ty);
  }
  Val with_element(const Val &v, const Val &x, int64_t off, int64_t sz) {
    Obj o; o.size = 1 << 20;
    if (v.k == K_AGG) for (auto &p : *v.agg) o.cells[p.off] = {p.sz, p.v};
    else throw Unsupported{"element of a scalar"};
    writecells(o, off, sz, x);
    std::vector<Part> ps;
    for (auto &kv : o.cells) ps.push_back({kv.first, kv.second.first, kv.second.second});
    return aggregate(ps);
  }
  Val constant(const llvm::Constant *c) {
    using namespace llvm;
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
      bool dbl = cf->getType()->isDoubleTy();
      if (!dbl && !cf->getType()->isFloatTy()) throw Unsupported{"fp type"};
      return fconst(dbl ? cf->getValueAPF().convertToDouble() : (double)cf->getValueAPF().convertToFloat(), dbl);
    }
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
      if (ci->getBitWidth() > 64) throw Unsupported{"wide int"};
      return iconst(ci->getZExtValue(), ci->getBitWidth());
    }
    if (c->getType()->isAggregateType() || c->getType()->isVectorTy()) {
      std::vector<Part> ps;
      if (!isa<UndefValue>(c)) leaves(c->getType(), 0, [&](Type *t, int64_t off) {
        Constant *e = ConstantFoldLoadFromConst(const_cast<Constant *>(c), t, APInt(64, off), *DL);
        if (!e) throw Unsupported{"constant"};
        if (!isa<UndefValue>(e)) ps.push_back({off, (int)DL->getTypeStoreSize(t), constant(e)});
      });
      return aggregate(ps);
    }
    if (isa<ConstantPointerNull>(c)) { Val r; r.k = K_PTR; return r; }
    if (isa<UndefValue>(c)) {
      if (c->getType()->isIntegerTy()) return itop(c->getType()->getIntegerBitWidth(), 0x7ffffff);
      Val r; r.k = K_FP; r.dbl = c->getType()->isDoubleTy(); r.num = r.nan = true; r.lo = -INFINITY; r.hi = INFINITY; r.vn = VN({-99}); return r;
    }
    if (auto *gv = dyn_cast<GlobalVariable>(c)) { Val r; r.k = K_PTR; r.gv = gv; return r; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (ce->getOpcode() == Instruction::GetElementPtr) {
        APInt off(64, 0); auto *g = cast<GEPOperator>(ce);
        if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{"constexpr gep"};
        Val r = constant(cast<Constant>(g->getPointerOperand())); r.po += off.getSExtValue(); return r;
      }
    }
    throw Unsupported{"constant"};
  }
  Val get(Env &env, const llvm::Value *v) {
    if (auto *c = llvm::dyn_cast<llvm::Constant>(v)) return constant(c);
    auto it = env.find(v);
    if (it == env.end()) throw Unsupported{"undefined value " + v->getName().str()};
    return it->second;
  }
  Val reinterpret(const Val &v, llvm::Type *ty) {
    if (v.k == K_AGG) {
      if (ty->isAggregateType() || ty->isVectorTy()) return v;
      return element(v, ty, 0);
    }
    if (ty->isAggregateType() || ty->isVectorTy()) return aggregate({Part{0, (int)DL->getTypeStoreSize(ty), v}});
    if (ty->isDoubleTy() || ty->isFloatTy()) {
      bool dbl = ty->isDoubleTy();
      if (v.k == K_FP) { if (v.dbl == dbl) return v; throw Unsupported{"fp pun"}; }
      return bitstofp(v, dbl);
    }
    if (ty->isIntegerTy()) {
      if (v.k == K_INT) { if (v.w == ty->getIntegerBitWidth()) return v; throw Unsupported{"int pun"}; }
      if (v.k == K_FP) return bitcast_fp_int(v);
    }
    if (v.k == K_PTR && ty->isPointerTy()) return v;
    throw Unsupported{"reinterpret"};
  }
  Val load(const Val &p, llvm::Type *ty) {
    using namespace llvm;
    if (p.k != K_PTR) throw Unsupported{"load from non pointer"};
    int64_t sz = DL->getTypeStoreSize(ty);
    if (p.gv) {
      if (!p.gv->isConstant() || !p.gv->hasInitializer()) { ev(EV_STATE); return top_of(ty); }
      int64_t gs = DL->getTypeAllocSize(p.gv->getValueType());
      if (p.po < 0 || p.po + sz > gs) { ev(EV_MEM); return top_of(ty); }
      if (ty->isAggregateType() || ty->isVectorTy()) {
        std::vector<Part> ps;
        leaves(ty, 0, [&](Type *t, int64_t off) { Val q = p; q.po += off; ps.push_back({off, (int)DL->getTypeStoreSize(t), load(q, t)}); });
        return aggregate(ps);
      }
      Constant *c = ConstantFoldLoadFromConst(const_cast<Constant *>(p.gv->getInitializer()), ty, APInt(64, p.po), *DL);
      if (!c) throw Unsupported{"global load"};
      return constant(c);
    }
    if (p.obj < 0) { ev(EV_MEM); return top_of(ty); }
    Obj &o = heap[p.obj];
    if (p.po < 0 || p.po + sz > o.size) { ev(EV_MEM); return top_of(ty); }
    return readcells(o, p.po, sz, ty);
  }
  Val readcells(Obj &o, int64_t po, int64_t sz, llvm::Type *ty) {
    using namespace llvm;
    auto it = o.cells.find(po);
    if (it != o.cells.end() && it->second.first == sz) return reinterpret(it->second.second, ty);
    // part of a wider cell
    for (auto &kv : o.cells) if (kv.first <= po && po + sz <= kv.first + kv.second.first)
      return reinterpret(slice(kv.second.second, po - kv.first, sz), ty);
    // several cells side by side
    std::vector<Part> ps; int64_t covered = 0;
    for (auto &kv : o.cells) if (kv.first >= po && kv.first + kv.second.first <= po + sz) { ps.push_back({kv.first - po, kv.second.first, kv.second.second}); covered += kv.second.first; }
    bool agg = ty->isAggregateType() || ty->isVectorTy();
    if (agg) return aggregate(ps);
    if (!ps.empty()) {
      if (covered == sz && (ty->isFloatTy() || ty->isDoubleTy() || ty->isIntegerTy())) {
        Val j = join(ps, sz);
        if (j.k == K_INT && !(j.itop && ty->isIntegerTy())) return reinterpret(j, ty);
      }
      if (ty->isIntegerTy()) return aggregate(ps);   // padding or unrelated members moved as one word
    }
    // unwritten memory: uninitialised read
    ev(EV_MEM);
    return top_of(ty);
  }
  // sz bytes at byte off of a scalar
  Val slice(Val v, int64_t off, int64_t sz) {
    if (v.k == K_FP) v = bitcast_fp_int(v);
    if (v.k == K_AGG) {
      Obj o; o.size = 1 << 20;
      for (auto &p : *v.agg) o.cells[p.off] = {p.sz, p.v};
      auto it = o.cells.find(off);
      if (it != o.cells.end() && it->second.first == sz) return it->second.second;
    }
    if (v.k != K_INT) throw Unsupported{"part of a value"};
    Val s = iarith(llvm::Instruction::LShr, v, iconst(off * 8, v.w), false, false);
    Val t = itrunc(s, sz * 8);
    if (!t.single() || !v.single()) {
      if (off == 0 && t.vn) lower[t.vn] = {v, t.off};
      if ((off + sz) * 8 == v.w && t.vn) upper[t.vn] = {v, t.off};
    }
    return t;
  }
  // one integer out of neighbouring pieces
  Val join(const std::vector<Part> &ps, int64_t sz) {
    using namespace llvm;
    std::vector<Val> vs;
    for (auto &p : ps) { Val v = p.v.k == K_FP ? bitcast_fp_int(p.v) : p.v; if (v.k != K_INT) return Val(); vs.push_back(v); }
    if (vs.size() == 2) {
      auto l = lower.find(vs[0].vn), u = upper.find(vs[1].vn);
      if (l != lower.end() && u != upper.end() && l->second.base.vn == u->second.base.vn && l->second.base.off == u->second.base.off && l->second.base.w == sz * 8 && vs[0].off == l->second.off) {
        const Val &b = u->second.base;
        I128 d = vs[1].off - u->second.off;
        I128 up = d << (8 * ps[1].off);
        if (up == 0) return b;
        // the pieces are those of b with the upper one shifted by a constant: no carry
        U128 h0 = b.ilo >> (8 * ps[1].off), h1 = b.ihi >> (8 * ps[1].off);
        if (!b.itop && (I128)h0 + d >= 0 && (I128)h1 + d <= (I128)mask(8 * ps[1].sz)) return iarith(Instruction::Add, b, iconst((U128)up & mask(b.w), b.w), false, false);
      }
    }
    Val r = iconst(0, sz * 8); bool first = true;
    for (size_t i = 0; i < vs.size(); i++) {
      Val z = zext(vs[i], sz * 8);
      Val t = iarith(Instruction::Shl, z, iconst(ps[i].off * 8, sz * 8), false, false);
      r = first ? t : iarith(Instruction::Add, r, t, false, false); first = false;
    }
    return r;
  }
  Val zext(const Val &a, unsigned w) {
    if (a.single()) return iconst(a.ilo, w);
    Val r = a; unsigned ow = a.w; r.w = w;
    if (a.itop) { r.itop = false; r.nb = false; r.ilo = 0; r.ihi = mask(ow); r.tm = nullptr; }
    r.vn = VN({25, (long long)w, a.vn, (long long)a.off, (long long)(a.off >> 64)}); r.off = 0;
    return small_fork(r, "zext");
  }
  Val top_of(llvm::Type *ty) {
    if (ty->isIntegerTy()) return itop(ty->getIntegerBitWidth(), nextvn++);
    if (ty->isDoubleTy() || ty->isFloatTy()) { Val r; r.k = K_FP; r.dbl = ty->isDoubleTy(); r.num = r.nan = true; r.lo = -INFINITY; r.hi = INFINITY; r.vn = nextvn++; return r; }
    if (ty->isVoidTy()) return Val();
    if (ty->isAggregateType() || ty->isVectorTy()) {
      std::vector<Part> ps;
      leaves(ty, 0, [&](llvm::Type *t, int64_t off) { ps.push_back({off, (int)DL->getTypeStoreSize(t), top_of(t)}); });
      return aggregate(ps);
    }
    throw Unsupported{"value of unsupported type"};
  }
  Val itrunc(const Val &a, unsigned w) {
    if (a.single()) return iconst(a.ilo, w);
    Val r; r.k = K_INT; r.w = w; r.vn = VN({23, (long long)w, a.vn, (long long)a.off, (long long)(a.off >> 64)});
    if (a.itop) return itop(w, r.vn);
    U128 M = mask(w), base = a.ilo & ~M;
    if ((a.ihi & ~M) != base) return itop(w, r.vn);
    r.ilo = a.ilo & M; r.ihi = a.ihi & M;
    if (a.tm) r.tm = keep(tm_addc(*a.tm, -(Q)(I128)base));
    return small_fork(r, "trunc");
  }
  void store(const Val &p, const Val &v, int64_t sz) {
    if (p.k != K_PTR) throw Unsupported{"store through a non pointer"};
    if (p.gv) { ev(EV_STATE); return; }
    if (p.obj < 0) { ev(EV_MEM); return; }
    Obj &o = heap[p.obj];
    if (p.po < 0 || p.po + sz > o.size) { ev(EV_MEM); return; }
    writecells(o, p.po, sz, v);
  }
  void writecells(Obj &o, int64_t po, int64_t sz, const Val &v) {
    std::vector<std::pair<int64_t, std::pair<int, Val>>> rest;
    for (auto it = o.cells.begin(); it != o.cells.end();) {
      int64_t a = it->first, b = a + it->second.first;
      if (a < po + sz && po < b) {
        // what a narrower store leaves of a wider cell
        if (a < po) rest.push_back({a, {(int)(po - a), slice(it->second.second, 0, po - a)}});
        if (b > po + sz) rest.push_back({po + sz, {(int)(b - po - sz), slice(it->second.second, po + sz - a, b - po - sz)}});
        it = o.cells.erase(it); continue;
      }
      ++it;
    }
    for (auto &r : rest) o.cells[r.first] = r.second;
    if (v.k == K_AGG) { for (auto &p : *v.agg) if (p.off + p.sz <= sz) o.cells[po + p.off] = {p.sz, p.v}; }
    else o.cells[po] = {(int)sz, v};
  }
  static std::string locof(const llvm::Instruction *I) {
    if (auto dl = I->getDebugLoc()) {
      auto *sc = llvm::dyn_cast_or_null<llvm::DIScope>(dl.getScope());
      std::string f = sc ? sc->getFilename().str() : "?";
      auto p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
      std::string fn;
      if (auto *sp = dl->getScope()->getSubprogram()) fn = sp->getName().str();
      return f + ":" + std::to_string(dl.getLine()) + (fn.empty() ? "" : "(" + fn + ")");
    }
    return "?";
  }
  int64_t field(llvm::Type *t, llvm::ArrayRef<unsigned> ix) {
    int64_t off = 0;
    for (unsigned i : ix) {
      if (auto *st = llvm::dyn_cast<llvm::StructType>(t)) { off += DL->getStructLayout(st)->getElementOffset(i); t = st->getElementType(i); }
      else { auto *at = llvm::cast<llvm::ArrayType>(t); t = at->getElementType(); off += i * (int64_t)DL->getTypeAllocSize(t); }
    }
    return off;
  }
  int depth = 0;
  Val call(const llvm::Function *F, std::vector<Val> args) {
    using namespace llvm;
    if (++depth > 40) throw Unsupported{"recursion"};
    Env env; unsigned ai = 0;
    for (auto &A : F->args()) {
      Val v = args[ai++];
      if (A.hasByValAttr()) {                 // the callee works on its own copy
        Obj o; o.size = DL->getTypeAllocSize(A.getParamByValType());
        Val src = v; Val whole = load(src, A.getParamByValType());
        heap.push_back(o); v = Val(); v.k = K_PTR; v.obj = heap.size() - 1;
        store(v, whole, o.size);
      }
      env[&A] = v;
    }
    const BasicBlock *bb = &F->getEntryBlock(), *prev = nullptr;
    Val ret;
    while (true) {
      // phis in parallel
      std::vector<std::pair<const PHINode *, Val>> ph;
      for (auto &I : *bb) {
        auto *p = dyn_cast<PHINode>(&I); if (!p) break;
        ph.push_back({p, get(env, p->getIncomingValueForBlock(prev))});
      }
      for (auto &x : ph) env[x.first] = x.second;
      const BasicBlock *next = nullptr;
      for (auto &I : *bb) {
        if (isa<PHINode>(I)) continue;
        if (++steps > 200000) throw Unsupported{"step budget (loop not bounded by constants?)"};
        switch (I.getOpcode()) {
          case Instruction::FAdd: case Instruction::FSub: note(I); env[&I] = op_add(get(env, I.getOperand(0)), get(env, I.getOperand(1)), I.getOpcode() == Instruction::FSub); break;
          case Instruction::FMul: note(I); env[&I] = op_mul(get(env, I.getOperand(0)), get(env, I.getOperand(1))); break;
          case Instruction::FDiv: note(I); env[&I] = fdiv(get(env, I.getOperand(0)), get(env, I.getOperand(1))); break;
          case Instruction::FNeg: note(I); env[&I] = fneg(get(env, I.getOperand(0))); break;
          case Instruction::FPExt: note(I); env[&I] = fpext(get(env, I.getOperand(0))); break;
          case Instruction::FPTrunc: note(I); env[&I] = fptrunc(get(env, I.getOperand(0))); break;
          case Instruction::SIToFP: note(I); env[&I] = inttofp(get(env, I.getOperand(0)), true, I.getType()->isDoubleTy()); break;
          case Instruction::UIToFP: note(I); env[&I] = inttofp(get(env, I.getOperand(0)), false, I.getType()->isDoubleTy()); break;
          case Instruction::FPToSI: note(I); env[&I] = fptoint(get(env, I.getOperand(0)), true, I.getType()->getIntegerBitWidth()); break;
          case Instruction::FPToUI: note(I); env[&I] = fptoint(get(env, I.getOperand(0)), false, I.getType()->getIntegerBitWidth()); break;
          case Instruction::FCmp: note(I); env[&I] = fcmp(cast<FCmpInst>(I).getPredicate(), get(env, I.getOperand(0)), get(env, I.getOperand(1))); break;
          case Instruction::ICmp: note(I); {
            Val a = get(env, I.getOperand(0)), b = get(env, I.getOperand(1));
            if (a.k == K_PTR && b.k == K_PTR) {
              auto pr = cast<ICmpInst>(I).getPredicate();
              if (a.gv == b.gv && a.obj == b.obj) { env[&I] = icmp(pr, iconst((U128)(uint64_t)a.po + 4096, 64), iconst((U128)(uint64_t)b.po + 4096, 64)); break; }
              if (pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE) { env[&I] = iconst(pr == CmpInst::ICMP_NE, 1); break; }
              throw Unsupported{"pointer compare"};
            }
            env[&I] = icmp(cast<ICmpInst>(I).getPredicate(), a, b); break;
          }
          case Instruction::Select: {
            note(I);
            Val c = get(env, I.getOperand(0));
            if (!c.single()) c = iconst(choose(((long long)VN({24, c.vn, (long long)c.off}) << 4) | 7, 0, 2, "select"), 1);
            env[&I] = c.ilo ? get(env, I.getOperand(1)) : get(env, I.getOperand(2));
            break;
          }
          case Instruction::Freeze: env[&I] = get(env, I.getOperand(0)); break;
          case Instruction::BitCast: note(I); env[&I] = reinterpret(get(env, I.getOperand(0)), I.getType()); break;
          case Instruction::ZExt: {
            note(I);
            Val a = get(env, I.getOperand(0)); unsigned w = I.getType()->getIntegerBitWidth();
            env[&I] = zext(a, w);
            break;
          }
          case Instruction::SExt: {
            note(I);
            Val a = get(env, I.getOperand(0)); unsigned w = I.getType()->getIntegerBitWidth();
            if (a.single()) env[&I] = iconst((U128)tosigned(a.ilo, a.w), w);
            else if (!a.itop && a.ihi < ((U128)1 << (a.w - 1))) { Val r = a; r.w = w; r.vn = VN({26, (long long)w, a.vn, (long long)a.off, (long long)(a.off >> 64)}); r.off = 0; env[&I] = r; }
            else env[&I] = itop(w, VN({26, (long long)w, a.vn, (long long)a.off, (long long)(a.off >> 64)}));
            break;
          }
          case Instruction::Trunc: note(I); env[&I] = itrunc(get(env, I.getOperand(0)), I.getType()->getIntegerBitWidth()); break;
          case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
          case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
            note(I);
            bool nsw = false, nuw = false;
            if (auto *o = dyn_cast<OverflowingBinaryOperator>(&I)) { nsw = o->hasNoSignedWrap(); nuw = o->hasNoUnsignedWrap(); }
            env[&I] = iarith(I.getOpcode(), get(env, I.getOperand(0)), get(env, I.getOperand(1)), nsw, nuw);
            break;
          }
          case Instruction::Alloca: {
            auto &A = cast<AllocaInst>(I);
            if (A.isArrayAllocation()) throw Unsupported{"dynamic alloca"};
            Obj o; o.size = DL->getTypeAllocSize(A.getAllocatedType()); heap.push_back(o);
            Val r; r.k = K_PTR; r.obj = heap.size() - 1; env[&I] = r; break;
          }
          case Instruction::GetElementPtr: {
            auto *g = cast<GEPOperator>(&I);
            Val p = get(env, g->getPointerOperand());
            if (p.k != K_PTR) throw Unsupported{"gep"};
            MapVector<Value *, APInt> vo; APInt co(64, 0);
            if (!g->collectOffset(*DL, 64, vo, co)) throw Unsupported{"gep"};
            int64_t off = co.getSExtValue();
            for (auto &kv : vo) {
              Val i = get(env, kv.first);
              if (!i.single()) throw GiveUp{"table index not constant on the box"};
              off += (int64_t)tosigned(i.ilo, i.w) * kv.second.getSExtValue();
            }
            p.po += off; env[&I] = p; break;
          }
          case Instruction::Load: note(I); env[&I] = load(get(env, I.getOperand(0)), I.getType()); break;
          case Instruction::Store: note(I); store(get(env, I.getOperand(1)), get(env, I.getOperand(0)), DL->getTypeStoreSize(I.getOperand(0)->getType())); break;
          case Instruction::Br: {
            auto &B = cast<BranchInst>(I);
            if (!B.isConditional()) { next = B.getSuccessor(0); break; }
            Val c = get(env, B.getCondition());
            if (!c.single()) { note(I); c = iconst(choose(((long long)VN({24, c.vn, (long long)c.off}) << 4) | 7, 0, 2, "branch"), 1); }
            next = B.getSuccessor(c.ilo ? 0 : 1); break;
          }
          case Instruction::Switch: {
            auto &S = cast<SwitchInst>(I);
            Val c = get(env, S.getCondition());
            if (!c.single()) throw GiveUp{"switch"};
            next = S.getDefaultDest();
            for (auto &cs : S.cases()) if ((U128)cs.getCaseValue()->getZExtValue() == c.ilo) next = cs.getCaseSuccessor();
            break;
          }
          case Instruction::ExtractValue: {
            auto &X = cast<ExtractValueInst>(I); note(I);
            env[&I] = element(get(env, X.getAggregateOperand()), I.getType(), field(X.getAggregateOperand()->getType(), X.getIndices())); break;
          }
          case Instruction::InsertValue: {
            auto &X = cast<InsertValueInst>(I); note(I);
            env[&I] = with_element(get(env, X.getAggregateOperand()), get(env, X.getInsertedValueOperand()), field(I.getType(), X.getIndices()), DL->getTypeStoreSize(X.getInsertedValueOperand()->getType())); break;
          }
          case Instruction::ExtractElement: case Instruction::InsertElement: {
            note(I);
            bool ins = I.getOpcode() == Instruction::InsertElement;
            Val ix = get(env, I.getOperand(ins ? 2 : 1));
            if (!ix.single()) throw GiveUp{"vector index not constant on the box"};
            auto *vt = cast<VectorType>(I.getOperand(0)->getType());
            int64_t es = DL->getTypeStoreSize(vt->getElementType()), off = (int64_t)ix.ilo * es;
            env[&I] = ins ? with_element(get(env, I.getOperand(0)), get(env, I.getOperand(1)), off, es) : element(get(env, I.getOperand(0)), vt->getElementType(), off);
            break;
          }
          case Instruction::ShuffleVector: {
            auto &X = cast<ShuffleVectorInst>(I); note(I);
            auto *vt = cast<FixedVectorType>(X.getOperand(0)->getType()); Type *et = vt->getElementType();
            int64_t es = DL->getTypeStoreSize(et); std::vector<Part> ps; int n = vt->getNumElements(), k = 0;
            for (int m : X.getShuffleMask()) { if (m >= 0) ps.push_back({k * es, (int)es, element(get(env, X.getOperand(m < n ? 0 : 1)), et, (m % n) * es)}); k++; }
            env[&I] = aggregate(ps); break;
          }
          case Instruction::Ret: {
            if (I.getNumOperands()) ret = get(env, I.getOperand(0));
            retI = &I;
            depth--; return ret;
          }
          case Instruction::Call: {
            auto &C = cast<CallInst>(I);
            note(I);
            Val r = docall(env, C);
            if (!I.getType()->isVoidTy()) env[&I] = r;
            break;
          }
          case Instruction::Unreachable: note(I); ev(EV_INTUB); throw Undefined{};
          default: throw Unsupported{std::string("instruction ") + I.getOpcodeName() + " at " + locof(&I)};
        }
        if (next) break;
      }
      prev = bb; bb = next;
      if (!bb) throw Unsupported{"no successor"};
    }
  }
  const llvm::Instruction *retI = nullptr;
  std::set<const llvm::Instruction *> seenI;
  void note(const llvm::Instruction &I) { if (track) seenI.insert(&I); curI = &I; }
  Val minmax(const Val &a, const Val &b, bool mx) {
    Val c = fcmp(mx ? llvm::CmpInst::FCMP_OGT : llvm::CmpInst::FCMP_OLT, a, b);
    return c.ilo ? a : b;
  }
  Val froundto(const Val &a, int mode) { // 0 floor 1 ceil 2 trunc 3 nearest
    nops++;
    int vn = VN({30, mode, a.dbl, a.vn, a.vs});
    if (a.nan || !a.num || has_inf(a)) { Val r = a; r.vn = vn; r.vs = 1; r.tm = nullptr; r.grid = -5000; return r; }
    auto f = [&](double v) { return mode == 0 ? floor(v) : mode == 1 ? ceil(v) : mode == 2 ? trunc(v) : mode == 4 ? round(v) : nearbyint(v); };
    double l = f(a.lo), h = f(a.hi);
    if (h - l > 3) {
      if (a.grid >= 0) return a;
      throw GiveUp{"integer part spans too many values"};
    }
    int c = h > l ? choose(((long long)vn << 4) | 8, (I128)l, (int)(h - l + 1), "floor") : 0;
    return fconst(l + c, a.dbl);
  }
  Val docall(Env &env, const llvm::CallInst &C) {
    using namespace llvm;
    const Function *F = C.getCalledFunction();
    if (!F) throw Unsupported{"indirect call at " + locof(&C)};
    StringRef n = F->getName();
    auto A = [&](unsigned i) { return get(env, C.getArgOperand(i)); };
    if (F->isIntrinsic()) {
      switch (F->getIntrinsicID()) {
        case Intrinsic::fabs: return fabs_(A(0));
        case Intrinsic::sqrt: return fsqrt(A(0));
        case Intrinsic::copysign: return copysign_(A(0), A(1));
        case Intrinsic::minnum: return minmax(A(0), A(1), false);
        case Intrinsic::maxnum: return minmax(A(0), A(1), true);
        case Intrinsic::floor: return froundto(A(0), 0);
        case Intrinsic::ceil: return froundto(A(0), 1);
        case Intrinsic::trunc: return froundto(A(0), 2);
        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return froundto(A(0), 3);
        case Intrinsic::round: return froundto(A(0), 4);
        case Intrinsic::fmuladd: { Val m = fmul(A(0), A(1)); return hull(fadd(m, A(2), false), ffma(A(0), A(1), A(2))); }
        case Intrinsic::fma: return ffma(A(0), A(1), A(2));
        case Intrinsic::abs: { Val a = A(0);
          if (!a.single()) {
            if (a.itop || tosigned(a.ilo, a.w) > tosigned(a.ihi, a.w)) throw GiveUp{"abs"};
            if (tosigned(a.ilo, a.w) >= 0) return a;
            if (tosigned(a.ihi, a.w) > 0) throw GiveUp{"abs"};
            return iarith(Instruction::Sub, iconst(0, a.w), a, false, false);
          }
          I128 s = tosigned(a.ilo, a.w); return iconst((U128)(s < 0 ? -s : s), a.w); }
        case Intrinsic::is_fpclass: {
          Val a = A(0); unsigned m = cast<ConstantInt>(C.getArgOperand(1))->getZExtValue();
          unsigned may = a.nan ? 3 : 0;
          if (a.num) {
            const Fmt &f = a.fmt(); double mn = ldexp(1, f.emin);
            if (a.lo == -INFINITY) may |= 4;
            if (a.hi == INFINITY) may |= 0x200;
            if (a.lo <= -mn && a.hi > -INFINITY) may |= 8;
            if (a.hi >= mn && a.lo < INFINITY) may |= 0x100;
            if (a.lo < 0 && a.hi > -mn) may |= 0x10;
            if (a.hi > 0 && a.lo < mn) may |= 0x80;
            if (a.lo <= 0 && a.hi >= 0) may |= a.sgn > 0 ? 0x40 : a.sgn < 0 ? 0x20 : 0x60;
          }
          if ((may & m) == may) return iconst(1, 1);
          if ((may & m) == 0) return iconst(0, 1);
          return iconst(choose(((long long)VN({31, (long long)m, a.vn, a.vs}) << 4) | 9, 0, 2, "class"), 1);
        }
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: return Val();
        case Intrinsic::memcpy: case Intrinsic::memmove: {
          Val d = A(0), s = A(1), l = A(2);
          if (!l.single() || d.k != K_PTR || s.k != K_PTR || d.gv) throw Unsupported{"memcpy"};
          int64_t len = (int64_t)l.ilo;
          if (s.gv) { // constant table copied to the stack
            leaves(s.gv->getValueType(), 0, [&](Type *t, int64_t off) {
              int64_t sz = DL->getTypeStoreSize(t);
              if (off < s.po || off + sz > s.po + len) return;
              Val sp = s; sp.po = off; Val dp = d; dp.po = d.po + (off - s.po);
              store(dp, load(sp, t), sz);
            });
            return Val();
          }
          if (s.obj < 0 || d.obj < 0 || s.po < 0 || d.po < 0 || s.po + len > heap[s.obj].size || d.po + len > heap[d.obj].size) { ev(EV_MEM); return Val(); }
          std::vector<std::pair<int64_t, std::pair<int, Val>>> cp;
          for (auto &kv : heap[s.obj].cells) {
            int64_t a = std::max(kv.first, s.po), b = std::min(kv.first + kv.second.first, s.po + len);
            if (a >= b) continue;
            if (b - a == kv.second.first) cp.push_back({a - s.po, kv.second});
            else cp.push_back({a - s.po, {(int)(b - a), slice(kv.second.second, a - kv.first, b - a)}});
          }
          for (auto &x : cp) { Val dp = d; dp.po += x.first; store(dp, x.second.second, x.second.first); }
          return Val();
        }
        case Intrinsic::memset: {
          Val d = A(0), v = A(1), l = A(2);
          if (!l.single() || !v.single() || v.ilo != 0 || d.k != K_PTR || d.gv) throw Unsupported{"memset"};
          for (int64_t i = 0; i < (int64_t)l.ilo; i += 8) { Val dp = d; dp.po += i; int sz = std::min<int64_t>(8, (int64_t)l.ilo - i); store(dp, iconst(0, sz * 8), sz); }
          return Val();
        }
        case Intrinsic::ubsantrap: case Intrinsic::trap: ev(EV_INTUB); throw Undefined{};
        default: throw Unsupported{"intrinsic " + n.str()};
      }
    }
    if (F->isDeclaration()) {
      if (n == "sqrt" || n == "sqrtf") return fsqrt(A(0));
      if (n == "fabs" || n == "fabsf") return fabs_(A(0));
      if (n == "copysign" || n == "copysignf") return copysign_(A(0), A(1));
      if (n == "floor" || n == "floorf") return froundto(A(0), 0);
      if (n == "ceil" || n == "ceilf") return froundto(A(0), 1);
      if (n == "trunc" || n == "truncf") return froundto(A(0), 2);
      if (n == "rint" || n == "rintf" || n == "nearbyint" || n == "nearbyintf") return froundto(A(0), 3);
      if (n == "round" || n == "roundf") return froundto(A(0), 4);
      if (n == "fmin" || n == "fminf") return minmax(A(0), A(1), false);
      if (n == "fmax" || n == "fmaxf") return minmax(A(0), A(1), true);
      if (n == "fma" || n == "fmaf") return ffma(A(0), A(1), A(2));
      if (n == "ldexp" || n == "ldexpf" || n == "scalbn" || n == "scalbnf" || n == "scalbln" || n == "scalblnf") {
        Val a = A(0), e = A(1);
        if (!e.single()) throw GiveUp{"ldexp exponent"};
        I128 k = tosigned(e.ilo, e.w);
        if (k > 2200) k = 2200;
        if (k < -2200) k = -2200;
        if (a.single()) return fconst(a.dbl ? ldexp(a.lo, (int)k) : (double)ldexpf((float)a.lo, (int)k), a.dbl);
        if (!a.num || a.nan || has_inf(a)) return a;
        const TM *t = a.tm ? keep(tm_ldexp(*a.tm, (int)k)) : nullptr;
        double mn = a.lo > 0 ? a.lo : a.hi < 0 ? -a.hi : 0;
        bool ex = mn > 0 && qexp(mn) + (int)k >= a.fmt().emin;
        return finish(a.dbl, ldexpq(a.lo, (int)k), ldexpq(a.hi, (int)k), t, a.grid > -5000 ? a.grid + (int)k : -5000, ex, false, true, VN({32, (long long)k, a.vn}), a.vs);
      }
      ev(EV_EXTERN);
      return top_of(C.getType());
    }
    std::vector<Val> args;
    for (unsigned i = 0; i < C.arg_size(); i++) args.push_back(A(i));
    return call(F, args);
  }
  Val ffma(const Val &a, const Val &b, const Val &c) {
    nops++;
    if (a.single() && b.single() && c.single()) return fconst(a.dbl ? fma(a.lo, b.lo, c.lo) : (double)fmaf(a.lo, b.lo, c.lo), a.dbl);
    // product exact, one rounding
    if (!a.num || !b.num || !c.num || a.nan || b.nan || c.nan || has_inf(a) || has_inf(b) || has_inf(c)) { Val m = fmul(a, b); return fadd(m, c, false); }
    Q k[4] = {(Q)a.lo * b.lo, (Q)a.lo * b.hi, (Q)a.hi * b.lo, (Q)a.hi * b.hi};
    Q lo = std::min(std::min(k[0], k[1]), std::min(k[2], k[3])), hi = std::max(std::max(k[0], k[1]), std::max(k[2], k[3]));
    const TM *t = nullptr;
    if (a.tm && b.tm && c.tm) t = keep(tm_add(tm_mul(*a.tm, *b.tm), *c.tm));
    int x = a.vn, y = b.vn; if (x > y) std::swap(x, y);
    int s = a.vs * b.vs;
    int vn = VN({33, a.dbl, x, y, c.vn, s * c.vs});
    int ge = std::min(a.grid > -5000 && b.grid > -5000 ? a.grid + b.grid : -5000, c.grid);
    return finish(a.dbl, lo + (Q)c.lo, hi + (Q)c.hi, t, ge, false, false, true, vn, s);
  }
};
