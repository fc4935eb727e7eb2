// tmai: Taylor-model abstract interpretation of scalar numeric kernels.
//   tmai <module.bc|.ll> <jobs.txt> <workers>
// One job per line: key=value pairs.  See DESIGN.md.
#include "absint.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/InstIterator.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <sys/wait.h>
#include <time.h>
int g_deg = 12;

struct Job {
  std::map<std::string, std::string> kv;
  std::string s(const std::string &k, const std::string &d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
  double d(const std::string &k, double def) const { auto i = kv.find(k); return i == kv.end() ? def : strtod(i->second.c_str(), 0); }
  int i(const std::string &k, int def) const { auto i = kv.find(k); return i == kv.end() ? def : atoi(i->second.c_str()); }
};

static uint64_t ord(double v, bool dbl) { if (dbl) { uint64_t b; memcpy(&b, &v, 8); return b; } float f = (float)v; uint32_t b; memcpy(&b, &f, 4); return b; }
static double unord(uint64_t b, bool dbl) { if (dbl) { double v; memcpy(&v, &b, 8); return v; } uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }

// ------------------------------------------------------------ reference TMs
static const Q PIq = M_PIq, PI2q = M_PI_2q;
static Q qfact(int n) { Q r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
static bool ref_tm(const std::string &f, Q c, Q r, TM &out) {
  int N = g_deg;
  const L slop = 0x1p-104L;
  auto fin = [&](TM &t) { t.E = (t.E + sumabs(t) * slop + QTINY) * UP; };
  TM x; x.n = r == 0 ? 0 : 1; x.c[0] = c; if (r != 0) x.c[1] = r;
  if (f == "exp") {
    Q e = expq(c); out.n = r == 0 ? 0 : N; Q p = 1;
    for (int k = 0; k <= out.n; k++) { out.c[k] = e * p; p = p * r / (Q)(k + 1); }
    out.E = r == 0 ? 0 : labs(p * e * expq(r)) * 1.01L; fin(out); return true;
  }
  if (f == "log") {
    if (!(c > 0)) return false;
    Q u = r / c; if (u > 0.5Q) return false;
    out.n = r == 0 ? 0 : N; out.c[0] = logq(c); Q p = u;
    for (int k = 1; k <= out.n; k++) { out.c[k] = (k & 1) ? p / k : -p / k; p *= u; }
    out.E = r == 0 ? 0 : labs(powq(r / (c - r), N + 1) / (N + 1)) * 1.01L; fin(out);
    return true;
  }
  if (f == "sin" || f == "cos" || f == "sinh" || f == "cosh") {
    bool h = f.size() == 4; bool si = f[0] == 's';
    Q s = h ? sinhq(c) : sinq(c), co = h ? coshq(c) : cosq(c);
    out.n = r == 0 ? 0 : N; Q p = 1;
    for (int k = 0; k <= out.n; k++) {
      Q d;
      if (h) d = ((k & 1) == 0) == si ? s : co;
      else { int m = si ? k & 3 : (k + 1) & 3; d = m == 0 ? s : m == 1 ? co : m == 2 ? -s : -co; }
      out.c[k] = d * p; p = p * r / (Q)(k + 1);
    }
    out.E = r == 0 ? 0 : labs(p) * (h ? labs(coshq(fabsq(c) + r)) : 1.0L) * 1.01L; fin(out);
    return true;
  }
  if (f == "tan" || f == "tanh") {
    TM a, b, ib; bool h = f == "tanh";
    if (h && fabsq(c) - r > 19) { out = TM(c > 0 ? (Q)1 : (Q)-1); out.E = labs(2 * expq(-2 * (fabsq(c) - r))) * 1.01L + 1e-4000L; return true; }
    ref_tm(h ? "sinh" : "sin", c, r, a); ref_tm(h ? "cosh" : "cos", c, r, b);
    if (!tm_inv(b, ib)) return false;
    out = tm_mul(a, ib); return true;
  }
  if (f == "asin" || f == "acos") {
    Q k0 = f == "asin" ? asinq(c) : acosq(c);
    if (r == 0) { out = TM(k0); fin(out); return true; }
    if (c + r >= 1 || c - r <= -1) return false;
    TM d; d.n = 2; d.c[0] = (1 - c) * (1 + c); d.c[1] = -2 * c * r; d.c[2] = -r * r; d.E = sumabs(d) * 0x1p-108L;
    TM s, g; if (!tm_sqrt(d, s) || !tm_inv(s, g)) return false;
    out = tm_integrate(g, f == "asin" ? r : -r, k0); fin(out); return true;
  }
  if (f == "atan") {
    Q k0 = atanq(c);
    if (r == 0) { out = TM(k0); fin(out); return true; }
    TM d; d.n = 2; d.c[0] = 1 + c * c; d.c[1] = 2 * c * r; d.c[2] = r * r; d.E = sumabs(d) * 0x1p-108L;
    TM g; if (!tm_inv(d, g)) return false;
    out = tm_integrate(g, r, k0); fin(out); return true;
  }
  if (f == "isqrt") { TM s; if (!tm_sqrt(x, s)) return false; return tm_inv(s, out); }
  if (f == "inv") return tm_inv(x, out);
  if (f == "id") { out = x; return true; }
  fprintf(stderr, "unknown reference %s\n", f.c_str()); exit(2);
}

enum Status { PROVEN, UNKNOWN_, REFUTED };
struct Report { L E = -1; Status st = PROVEN; std::string why, where, path; L bound = 0, thr = 0; };

struct Result {
  long boxes = 0, traces = 0, ops = 0, splits = 0;
  L maxratio = 0;
  std::vector<std::string> viol;
  bool refuted = false;
  std::string unsupported;
};

struct Runner {
  const llvm::Module *M; const llvm::Function *F; Job job;
  bool dbl; std::string kind, ref; L rel, abs_, sq = 0; int evmask; int parity = 0; std::string expect;
  Result res;
  std::set<const llvm::Instruction *> seen;
  bool two = false;

  static std::string evname(int k) { return k == EV_DIVZERO ? "division by zero" : k == EV_INVALID ? "invalid operation" : k == EV_CONV ? "floating-to-integer conversion out of range" : k == EV_INTUB ? "undefined integer operation" : k == EV_MEM ? "out-of-bounds or uninitialised access" : k == EV_STATE ? "access to mutable global state" : k == EV_EXTERN ? "call to a function outside the library" : "overflow"; }
  static std::string num(L v) { char b[64]; snprintf(b, 64, "%.6Lg", v); return b; }
  static std::string num(double v) { char b[64]; snprintf(b, 64, "%.17g", v); return b; }

  Val make_input(Interp &I, const Box &b) {
    Val v; v.k = K_FP; v.dbl = b.dbl;
    if (b.nan) { v = I.fconst(NAN, b.dbl); return v; }
    v.num = true; v.lo = b.lo; v.hi = b.hi;
    if (b.lo == b.hi) { v = I.fconst(b.negzero ? -0.0 : b.lo, b.dbl); v.tag = 1; return v; }
    v.sgn = b.lo >= 0 ? 1 : -1;
    v.vn = I.VN({-5, 0}); v.vs = v.sgn; v.tag = 1;
    double mn = std::min(fabs(b.lo), fabs(b.hi));
    const Fmt &f = v.fmt();
    v.grid = f.emin - f.p + 1;
    if (mn > 0) v.grid = std::max(v.grid, qexp(mn) - f.p + 1);
    if (!std::isinf(b.lo) && !std::isinf(b.hi)) v.tm = I.keep(I.xtm); else v.grid = -5000;
    return v;
  }
  Val make_arg2(Interp &I, const Box &b, int idx) {
    int s = idx == 0 ? b.sy : b.sx, c = idx == 0 ? b.cy : b.cx;
    if (c == 2) return I.fconst(NAN, b.dbl);
    if (c == 1) return I.fconst(s * INFINITY, b.dbl);
    if (s == 0) return I.fconst(0, b.dbl);
    Val v; v.k = K_FP; v.dbl = b.dbl; v.num = true;
    const Fmt &f = v.fmt();
    double mn = ldexp(1, f.emin - f.p + 1), mx = fmax_of(f);
    v.lo = s > 0 ? mn : -mx; v.hi = s > 0 ? mx : -mn; v.sgn = s; v.vn = I.VN({-5, idx}); v.vs = s; v.tag = idx + 1; v.grid = f.emin - f.p + 1;
    if (b.sy != 0 && b.sx != 0 && b.order == 0) v.vn = I.VN({-5, 7});
    return v;
  }
  void setup(Interp &I, const Box &b) {
    I.DL = &M->getDataLayout(); I.box = &b; I.track = true; I.contract = job.i("contract", 0);
    if (b.nargs == 1 && !b.nan && !std::isinf(b.lo) && !std::isinf(b.hi)) {
      Q c = ((Q)b.lo + (Q)b.hi) / 2, r = ((Q)b.hi - (Q)b.lo) / 2;
      I.xtm = TM(c); if (r != 0) { I.xtm.n = 1; I.xtm.c[1] = r; }
    } else if (b.nargs == 2 && !b.cy && !b.cx && b.sy && b.sx && b.order != 0) {
      Q c = ((Q)b.qlo + (Q)b.qhi) / 2, r = ((Q)b.qhi - (Q)b.qlo) / 2;
      I.xtm = TM(c); if (r != 0) { I.xtm.n = 1; I.xtm.c[1] = r; } I.haveq = true;
    }
  }
  std::string pathstr(Interp &I) {
    std::string p;
    for (size_t i = 0; i < I.dec.size() && i < 8; i++) { if (i) p += "; "; p += std::string(I.decw[i].first) + "#" + std::to_string(I.dec[i]) + " at " + (I.decw[i].second ? Interp::locof(I.decw[i].second) : "?"); }
    return p;
  }
  Val run_fn(Interp &I, const Box &b) {
    I.box = &b;
    std::vector<Val> args;
    if (b.nargs == 1) args.push_back(make_input(I, b));
    else { args.push_back(make_arg2(I, b, 0)); args.push_back(make_arg2(I, b, 1)); }
    I.heap.clear(); I.depth = 0;
    return I.call(F, args);
  }
  bool reference(const Box &b, TM &out) {
    if (b.nargs == 1) {
      Q c = ((Q)b.lo + (Q)b.hi) / 2, r = ((Q)b.hi - (Q)b.lo) / 2;
      return ref_tm(ref, c, r, out);
    }
    // atan2
    TM a;
    if (b.cy == 1 || b.cx == 1) { out = TM(b.cy == 1 ? (b.sy > 0 ? PI2q : -PI2q) : b.sx > 0 ? (Q)0 : b.sy < 0 ? -PIq : PIq); out.E += sumabs(out) * 0x1p-108L; return true; }
    if (b.sy == 0 && b.sx == 0) { out = TM((Q)0); return true; }
    Q base = 0; int sg = 1; // result = sy*( base + sg*atan(q) )
    if (b.sy == 0) { out = TM(b.sx > 0 ? (Q)0 : PIq); return true; }
    if (b.sx == 0) { out = TM(b.sy > 0 ? PI2q : -PI2q); return true; }
    if (b.order == 0) a = TM(atanq((Q)1));
    else { Q c = ((Q)b.qlo + (Q)b.qhi) / 2, r = ((Q)b.qhi - (Q)b.qlo) / 2; if (!ref_tm("atan", c, r, a)) return false; }
    if (b.order <= 0) { if (b.sx > 0) { base = 0; sg = 1; } else { base = PIq; sg = -1; } }
    else { if (b.sx > 0) { base = PI2q; sg = -1; } else { base = PI2q; sg = 1; } }
    if (sg < 0) a = tm_neg(a);
    out = base == 0 ? a : tm_addc(a, base);
    if (b.sy < 0) out = tm_neg(out);
    out.E += sumabs(out) * 0x1p-108L;
    return true;
  }
  Report eval(const Box &b) {
    Report R; Interp I; setup(I, b);
    TM rt; bool haveref = false; L rmin = 0, rmax = 0;
    if (kind == "acc") {
      haveref = reference(b, rt);
      if (!haveref) { R.st = UNKNOWN_; R.why = "reference enclosure"; return R; }
      Q lo, hi; tm_range(rt, lo, hi);
      rmax = std::max(labs(lo), labs(hi)); rmin = lo > 0 ? (L)lo : hi < 0 ? -(L)hi : 0; rmin *= (1 - 0x1p-50L);
    }
    int ntr = 0;
    auto worse = [&](Status s, std::string why, const std::string &where, L bound, L thr) {
      for (auto &e : I.events) if (s != PROVEN && (e.kind & (EV_MEM | EV_STATE | EV_EXTERN)) && why.find(evname(e.kind)) == std::string::npos) { why += " (after " + evname(e.kind) + " at " + Interp::locof(e.at) + ")"; break; }
      if (s > R.st || (s == R.st && s != PROVEN && R.why.empty())) { R.st = s; R.why = why; R.where = where; R.bound = bound; R.thr = thr; R.path = pathstr(I); }
    };
    bool more = true;
    while (more) {
      if (++ntr > 400) { worse(UNKNOWN_, "too many traces", "", 0, 0); break; }
      I.begin_trace();
      bool certain = I.dec.empty();   // refined below
      auto report = [&]() {
        if (evmask) for (auto &e : I.events) if (e.kind & evmask) {
          // an event is certain when the box is a single point and no branch was undecided
          bool cert = certain && b.nargs == 1 && b.lo == b.hi;
          if (b.nargs == 2 && certain && (b.sy == 0 || b.sx == 0)) cert = true;
          worse(cert ? REFUTED : UNKNOWN_, evname(e.kind), Interp::locof(e.at), 0, 0);
        }
      };
      try {
        I.events.clear();
        Val out = run_fn(I, b);
        certain = I.dec.empty();
        const llvm::Instruction *ri = I.retI;
        std::string rl;
        auto RL = [&]() { return ri ? Interp::locof(ri) : std::string("?"); };
        report();
        if (kind == "acc") {
          if (out.k != K_FP) throw Unsupported{"result type"};
          if (!out.num) worse(certain ? REFUTED : UNKNOWN_, "result is NaN", RL(), 0, 0);
          else if (out.nan) worse(UNKNOWN_, "result may be NaN", RL(), 0, 0);
          else if (std::isinf(out.lo) && out.lo == out.hi) worse(certain ? REFUTED : UNKNOWN_, "result is infinite", RL(), 0, 0);
          else {
            L thr = (rel * rmin + abs_ + sq * rmin * rmin) * (1 - 0x1p-50L) + 1e-4500L;
            L thrmax = (rel * rmax + abs_ + sq * rmax * rmax) * UP;
            // interval test first (also the only one when no TM exists)
            Q rlo, rhi; tm_range(rt, rlo, rhi);
            L ib = std::max(labs((Q)out.hi - rlo), labs((Q)out.lo - rhi));
            L bound = ib, lower = 0;
            if (std::isinf(out.lo) || std::isinf(out.hi)) bound = INFINITY;
            else { Q g1 = (Q)out.lo - rhi, g2 = rlo - (Q)out.hi; Q g = g1 > g2 ? g1 : g2; if (g > 0) lower = (L)g; }
            if (out.tm && !(bound <= thr)) {
              TM D = tm_sub(*out.tm, rt);
              Q a, c2; tm_range(D, a, c2);
              L tb = std::max(labs(a), labs(c2));
              if (tb < bound) bound = tb;
              L low = a > 0 ? (L)a : c2 < 0 ? -(L)c2 : 0;
              if (low > lower) lower = low;
            }
            if (bound <= thr) { L ratio = thr > 0 ? bound / thr : 0; if (ratio > res.maxratio) res.maxratio = ratio; }
            else if (lower > thrmax && certain) worse(REFUTED, "error", RL(), lower, thrmax);
            else {
              if (out.tm && out.tm->E > thrmax && ((rel == 0 && sq == 0) || rmax <= 1.1L * rmin)) R.E = std::max(R.E, out.tm->E / thrmax);
              worse(UNKNOWN_, "error", RL(), bound, thr);
            }
          }
        } else if (kind == "val") {
          bool ok = false, defno = false;
          double lo = 0, hi = 0;
          if (expect == "nan") { ok = !out.num && out.nan; defno = out.num && !out.nan; }
          else {
            double e = 0;
            if (expect == "inf") e = INFINITY; else if (expect == "-inf") e = -INFINITY; else e = strtod(expect.c_str(), 0);
            ok = out.num && !out.nan && out.lo == e && out.hi == e;
            defno = !out.num || out.lo > e || out.hi < e;
          }
          (void)lo; (void)hi;
          if (!ok) worse(defno && certain ? REFUTED : UNKNOWN_, "result in [" + num(out.lo) + "," + num(out.hi) + "]" + (out.nan ? " or NaN" : "") + ", required " + expect, RL(), 0, 0);
        } else if (kind == "range") {
          double a = job.d("rlo", -INFINITY), c = job.d("rhi", INFINITY);
          bool ok = out.num && !out.nan && out.lo >= a && out.hi <= c;
          bool defno = !out.num || out.lo > c || out.hi < a;
          if (!ok) worse(defno && certain ? REFUTED : UNKNOWN_, "result in [" + num(out.lo) + "," + num(out.hi) + "]" + (out.nan ? " or NaN" : ""), RL(), 0, 0);
        } else if (kind == "par") {
          Box m = b;
          int want = parity;
          if (b.nargs == 1) { m.lo = -b.hi; m.hi = -b.lo; m.negzero = b.lo == 0 && b.hi == 0 ? !b.negzero : false; }
          else m.sy = -b.sy;
          Interp J; // mirrored run shares value numbers and decisions
          TM save = I.xtm; setup_mirror(I, m);
          Val o2 = run_fn(I, m);
          I.xtm = save; I.box = &b;
          bool ok = false, defno = false;
          if (out.single() && o2.single()) { ok = o2.lo == want * out.lo; defno = !ok; }
          else if (!out.num && !o2.num) ok = true;
          else {
            ok = out.vn == o2.vn && o2.vs == want * out.vs && out.num == o2.num && out.nan == o2.nan;
            if (out.num && o2.num && !out.nan && !o2.nan) {
              double l = want > 0 ? o2.lo : -o2.hi, h = want > 0 ? o2.hi : -o2.lo;
              defno = l > out.hi || h < out.lo;
            }
          }
          if (!ok) worse(defno && I.dec.empty() ? REFUTED : UNKNOWN_, "the mirrored evaluation performs different operations", RL(), 0, 0);
        }
        res.traces++;
      } catch (Undefined &) {
        certain = I.dec.empty();
        if (evmask & EV_INTUB) report();
        else worse(certain ? REFUTED : UNKNOWN_, evname(EV_INTUB), I.curI ? Interp::locof(I.curI) : "", 0, 0);
        res.traces++;
      } catch (GiveUp &g) { worse(UNKNOWN_, g.what, I.curI ? Interp::locof(I.curI) : "", 0, 0); res.ops += I.nops; break; }
      if (R.st == REFUTED) break;
      more = I.next_trace();
    }
    res.ops += I.nops;
    seen.insert(I.seenI.begin(), I.seenI.end());
    return R;
  }
  void setup_mirror(Interp &I, const Box &m) {
    if (m.nargs == 1 && !m.nan && !std::isinf(m.lo) && !std::isinf(m.hi)) {
      Q c = ((Q)m.lo + (Q)m.hi) / 2, r = ((Q)m.hi - (Q)m.lo) / 2;
      I.xtm = TM(c); if (r != 0) { I.xtm.n = 1; I.xtm.c[1] = -r; }
    }
  }
  std::string describe(const Box &b) {
    if (b.nan) return "x=NaN";
    if (b.nargs == 1) {
      if (b.lo == b.hi) return "x=" + num(b.lo);
      return "x in [" + num(b.lo) + "," + num(b.hi) + "]";
    }
    if (b.cy || b.cx) {
      auto d = [](int c, int s) { return std::string(c == 2 ? "=NaN" : c == 1 ? (s > 0 ? "=inf" : "=-inf") : s > 0 ? ">0" : s < 0 ? "<0" : "=0"); };
      return "y" + d(b.cy, b.sy) + ",x" + d(b.cx, b.sx);
    }
    std::string s = std::string("y") + (b.sy > 0 ? ">0" : b.sy < 0 ? "<0" : "=0") + ",x" + (b.sx > 0 ? ">0" : b.sx < 0 ? "<0" : "=0");
    if (b.sy && b.sx) s += b.order < 0 ? ",|y|/|x| in [" + num(b.qlo) + "," + num(b.qhi) + "]" : b.order > 0 ? ",|x|/|y| in [" + num(b.qlo) + "," + num(b.qhi) + "]" : ",|y|=|x|";
    return s;
  }
  bool stop = false; int unknowns = 0; long budget = 400000;
  void record(const Box &b, const Report &r) {
    std::string s = std::string(r.st == REFUTED ? "refuted" : "unproven") + ";;" + describe(b) + ";;" + r.why + (r.why == "error" ? " " + num(r.bound) + " > allowed " + num(r.thr) : "") + ";;" + r.where + ";;" + r.path;
    if (r.st == REFUTED) { res.refuted = true; res.viol.insert(res.viol.begin(), s); stop = true; }
    else { res.viol.push_back(s); if (++unknowns >= 3) stop = true; }
  }
  // recursive subdivision in ordinal space (one-argument functions)
  void go(int sign, uint64_t a, uint64_t c, L pE = INFINITY, int stag = 0) {
    if (stop) return;
    if (res.boxes > budget) { Report r; r.st = UNKNOWN_; r.why = "subdivision budget"; Box b; b.dbl = dbl; b.lo = unord(a, dbl); b.hi = unord(c, dbl); record(b, r); stop = true; return; }
    int mb = dbl ? 52 : 23;
    bool isinf_ = std::isinf(unord(c, dbl));
    bool wide = !isinf_ && (a >> mb) != (c >> mb);
    bool interval_only = kind == "val" || kind == "range";
    if (wide && !interval_only) {
      uint64_t m = (((a >> mb) + (c >> mb) + 1) / 2) << mb; // binade boundary
      go(sign, a, m - 1); go(sign, m, c); return;
    }
    Box b; b.dbl = dbl; b.nargs = 1;
    double l = unord(a, dbl), h = unord(c, dbl);
    b.lo = sign > 0 ? l : -h; b.hi = sign > 0 ? h : -l;
    res.boxes++;
    Report r = eval(b);
    if (r.st == PROVEN) return;
    if (r.st == REFUTED) { record(b, r); return; }
    // the accumulated rounding remainder alone exceeds the bound and no longer
    // shrinks under subdivision: splitting further cannot help
    if (r.E > 0 && r.E > 0.9L * pE) stag++; else stag = 0;
    if (a == c || stag >= 5) { record(b, r); return; }
    res.splits++;
    uint64_t m = a + (c - a) / 2;
    L e = r.E > 0 ? r.E : INFINITY;
    go(sign, a, m, e, stag); go(sign, m + 1, c, e, stag);
  }
  void goq(Box b, int depth, L pE = INFINITY, int stag = 0) {
    if (stop) return;
    res.boxes++;
    Report r = eval(b);
    if (r.st == PROVEN) return;
    if (r.st == REFUTED) { record(b, r); return; }
    if (r.E > 0 && r.E > 0.9L * pE) stag++; else stag = 0;
    if (depth > 60 || b.qlo == b.qhi || stag >= 5) { record(b, r); return; }
    double m;
    if (b.qlo > 0 && b.qhi / b.qlo > 4) { int e1 = ilogb(b.qlo), e2 = ilogb(b.qhi); m = ldexp(1, (e1 + e2 + 1) / 2); if (m <= b.qlo || m >= b.qhi) m = (b.qlo + b.qhi) / 2; }
    else m = b.qlo + (b.qhi - b.qlo) / 2;
    if (m <= b.qlo || m >= b.qhi) { record(b, r); return; }
    Box l = b, h = b; l.qhi = m; h.qlo = m;
    L e = r.E > 0 ? r.E : INFINITY;
    goq(l, depth + 1, e, stag); goq(h, depth + 1, e, stag);
  }
};

struct Task { int kind; int sign; uint64_t a, b; Box box; };

static std::vector<Task> make_tasks(const Job &j) {
  std::vector<Task> ts; bool dbl = j.s("fmt") == "d"; int mb = dbl ? 52 : 23;
  int pre = j.i("presplit", 4);
  if (j.s("args", "1") == "1") {
    std::stringstream ss(j.s("dom")); std::string seg;
    while (std::getline(ss, seg, ',')) {
      if (seg == "nan") { Task t; t.kind = 2; t.box.dbl = dbl; t.box.nan = true; ts.push_back(t); continue; }
      if (seg == "0" || seg == "-0") { Task t; t.kind = 2; t.box.dbl = dbl; t.box.lo = t.box.hi = 0; t.box.negzero = seg == "-0"; ts.push_back(t); continue; }
      size_t p = seg.find(':'); double lo = strtod(seg.substr(0, p).c_str(), 0), hi = strtod(seg.substr(p + 1).c_str(), 0);
      int sign = 1; if (lo < 0 || hi < 0) { sign = -1; double t = -lo; lo = -hi; hi = t; }
      uint64_t a = ord(lo, dbl), b = ord(hi, dbl);
      if (!dbl) { // clip inwards to representable floats
        if (unord(a, dbl) < lo) a++;
        if (unord(b, dbl) > hi) b--;
      }
      if (j.s("kind") == "val" || j.s("kind") == "range") { Task t; t.kind = 0; t.sign = sign; t.a = a; t.b = b; ts.push_back(t); continue; }
      // tasks per binade
      uint64_t x = a;
      while (x <= b) {
        uint64_t e = (((x >> mb) + 1) << mb) - 1; if (e > b) e = b;
        int n = unord(x, dbl) >= 1 ? pre : (unord(x, dbl) > 1e-6 ? 2 : 1);
        uint64_t w = (e - x) / n + 1;
        for (uint64_t s = x; s <= e;) { uint64_t q = s + w - 1; if (q > e || q < s) q = e; Task t; t.kind = 0; t.sign = sign; t.a = s; t.b = q; ts.push_back(t); if (q == e) break; s = q + 1; }
        if (e == b) break;
        x = e + 1;
      }
    }
  } else {
    bool par = j.s("kind") == "par"; std::string dom = j.s("dom", "finite");
    if (dom == "nan" || dom == "inf") {
      for (int cy = 0; cy <= 2; cy++) for (int cx = 0; cx <= 2; cx++) for (int sy = -1; sy <= 1; sy++) for (int sx = -1; sx <= 1; sx++) {
        bool nan = cy == 2 || cx == 2;
        if (nan != (dom == "nan")) continue;
        if (!nan && cy + cx != 1) continue;                  // exactly one infinite argument
        if ((cy == 1 && sy == 0) || (cx == 1 && sx == 0) || (cy == 2 && sy != 1) || (cx == 2 && sx != 1)) continue;
        Task t; t.kind = 2; t.box.dbl = dbl; t.box.nargs = 2; t.box.sy = sy; t.box.sx = sx; t.box.cy = cy; t.box.cx = cx; ts.push_back(t);
      }
      return ts;
    }
    for (int sy = par ? 1 : -1; sy <= 1; sy++) for (int sx = -1; sx <= 1; sx++) {
      Box b; b.dbl = dbl; b.nargs = 2; b.sy = sy; b.sx = sx;
      if (!sy || !sx) { Task t; t.kind = 2; t.box = b; ts.push_back(t); continue; }
      for (int o = -1; o <= 1; o++) {
        b.order = o;
        if (o == 0) { b.qlo = b.qhi = 1; Task t; t.kind = 2; t.box = b; ts.push_back(t); continue; }
        int emin = dbl ? -1074 : -149;
        b.qlo = 0; b.qhi = ldexp(1, emin); { Task t; t.kind = 1; t.box = b; ts.push_back(t); }
        for (int e = emin; e < 0; e++) {
          int n = e >= -6 ? 8 : 1;
          for (int i = 0; i < n; i++) { b.qlo = ldexp(1, e) * (1 + (double)i / n); b.qhi = ldexp(1, e) * (1 + (double)(i + 1) / n); Task t; t.kind = 1; t.box = b; ts.push_back(t); }
        }
      }
    }
  }
  return ts;
}

static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') c = ' '; r += c; } return r; }

int main(int argc, char **argv) {
  if (argc < 4) { fprintf(stderr, "usage: tmai module jobs workers\n"); return 2; }
  llvm::LLVMContext ctx; llvm::SMDiagnostic err;
  auto M = llvm::parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("tmai", llvm::errs()); return 2; }
  std::ifstream jf(argv[2]); std::string line; std::vector<Job> jobs;
  while (std::getline(jf, line)) {
    if (line.empty() || line[0] == '#') continue;
    Job j; std::stringstream ss(line); std::string kv;
    while (ss >> kv) { size_t p = kv.find('='); if (p != std::string::npos) j.kv[kv.substr(0, p)] = kv.substr(p + 1); }
    jobs.push_back(j);
  }
  int nw = atoi(argv[3]);
  std::vector<std::string> outs;
  for (auto &j : jobs) {
    auto ts = make_tasks(j);
    std::vector<int> fds; std::vector<pid_t> pids;
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (int w = 0; w < nw; w++) {
      int fd[2]; if (pipe(fd)) return 2;
      pid_t p = fork();
      if (p < 0) return 2;
      if (p == 0) {
        close(fd[0]);
        Runner R; R.M = M.get(); R.job = j; R.dbl = j.s("fmt") == "d"; R.kind = j.s("kind"); R.ref = j.s("ref");
        R.rel = strtold(j.s("rel", "0").c_str(), 0); R.abs_ = strtold(j.s("abs", "0").c_str(), 0); R.sq = strtold(j.s("sq", "0").c_str(), 0); R.evmask = j.i("ev", 0); R.parity = j.s("parity") == "odd" ? -1 : 1; R.expect = j.s("expect");
        g_deg = std::min(MAXDEG, j.i("deg", 12));
        R.F = M->getFunction(j.s("fn"));
        FILE *o = fdopen(fd[1], "w");
        if (!R.F) { fprintf(o, "U no function %s\n", j.s("fn").c_str()); fclose(o); _exit(0); }
        try {
          for (size_t i = w; i < ts.size() && !R.stop; i += nw) {
            auto &t = ts[i];
            if (t.kind == 0) R.go(t.sign, t.a, t.b);
            else if (t.kind == 1) R.goq(t.box, 0);
            else { R.res.boxes++; Report r = R.eval(t.box); if (r.st != PROVEN) R.record(t.box, r); }
          }
        } catch (Unsupported &u) { fprintf(o, "U %s\n", u.what.c_str()); }
        fprintf(o, "S %ld %ld %ld %ld %.6Lg\n", R.res.boxes, R.res.traces, R.res.ops, R.res.splits, R.res.maxratio);
        for (auto &v : R.res.viol) fprintf(o, "V %s\n", v.c_str());
        std::set<std::string> locs;
        for (auto *I : R.seen) locs.insert(Interp::locof(I));
        for (auto &l : locs) fprintf(o, "L %s\n", l.c_str());
        fclose(o); _exit(0);
      }
      close(fd[1]); fds.push_back(fd[0]); pids.push_back(p);
    }
    long boxes = 0, traces = 0, ops = 0, splits = 0; double ratio = 0; std::vector<std::string> viol; std::set<std::string> locs; std::string unsup; int dead = 0;
    for (int w = 0; w < nw; w++) {
      FILE *f = fdopen(fds[w], "r"); char buf[8192]; bool gotS = false;
      while (fgets(buf, sizeof buf, f)) {
        std::string s(buf); if (!s.empty() && s.back() == '\n') s.pop_back();
        if (s[0] == 'S') { long a, b, c, d; double e; if (sscanf(s.c_str() + 2, "%ld %ld %ld %ld %lf", &a, &b, &c, &d, &e) == 5) { boxes += a; traces += b; ops += c; splits += d; ratio = std::max(ratio, e); gotS = true; } }
        else if (s[0] == 'V') { if (s.substr(2, 7) == "refuted") viol.insert(viol.begin(), s.substr(2)); else viol.push_back(s.substr(2)); }
        else if (s[0] == 'L') locs.insert(s.substr(2));
        else if (s[0] == 'U') { unsup = s.substr(2); gotS = true; }
      }
      fclose(f); int st; waitpid(pids[w], &st, 0);
      if (!gotS || !WIFEXITED(st) || WEXITSTATUS(st)) dead++;
    }
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (dead) unsup = "analysis worker died";
    std::string s = "{\"id\":\"" + esc(j.s("id", j.s("fn"))) + "\",\"fn\":\"" + esc(j.s("fn")) + "\",\"tasks\":" + std::to_string(ts.size()) + ",\"boxes\":" + std::to_string(boxes) + ",\"traces\":" + std::to_string(traces) + ",\"fp_ops\":" + std::to_string(ops) + ",\"splits\":" + std::to_string(splits);
    char rb[160]; snprintf(rb, sizeof rb, ",\"tightness\":%.4g,\"wall_s\":%.2f", ratio, (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec)); s += rb;
    s += ",\"unsupported\":\"" + esc(unsup) + "\",\"violations\":[";
    for (size_t i = 0; i < viol.size() && i < 10; i++) s += std::string(i ? "," : "") + "\"" + esc(viol[i]) + "\"";
    s += "],\"lines\":["; size_t k = 0; for (auto &l : locs) s += std::string(k++ ? "," : "") + "\"" + esc(l) + "\"";
    s += "]}";
    printf("%s\n", s.c_str()); fflush(stdout);
  }
  return 0;
}
