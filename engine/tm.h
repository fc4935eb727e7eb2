// Taylor-model arithmetic over one normalised variable t in [-1,1].
// A TM {c[0..n],E} denotes every real function g with |g(t)-sum c_i t^i| <= E.
// Coefficients are binary128; every operation adds a bound on its own
// rounding and truncation to E, so enclosures are never too narrow.
#pragma once
#include <quadmath.h>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <algorithm>
typedef __float128 Q;
typedef long double L;

static const int MAXDEG = 18;
extern int g_deg;                       // working degree (<= MAXDEG)

static const L UP = 1.0L + 0x1p-58L;    // upward slop for long double sums
static const L QEPS = 0x1p-104L;        // generous bound for a chain of quad ops
static const L QTINY = 0x1p-16300L;     // underflow slop

static inline L labs(Q q) { L v = (L)q; return (v < 0 ? -v : v) * UP; }

struct TM {
  int n;
  L E;
  Q c[MAXDEG + 1];
  TM() : n(0), E(0) { c[0] = 0; }
  explicit TM(Q v) : n(0), E(0) { c[0] = v; }
};

static inline L sumabs(const TM &a, int from = 0) {
  L s = 0;
  for (int i = from; i <= a.n; i++) s += labs(a.c[i]);
  return s * UP;
}
// drop trailing coefficients that are negligible against scale
static inline void sweep(TM &a) {
  L s = sumabs(a);
  L tol = s * 0x1p-96L;
  if (a.E * 0x1p-20L > tol) tol = a.E * 0x1p-20L;
  while (a.n > 0 && labs(a.c[a.n]) <= tol) {
    a.E = (a.E + labs(a.c[a.n])) * UP;
    a.n--;
  }
}
static inline TM tm_neg(const TM &a) {
  TM r = a;
  for (int i = 0; i <= r.n; i++) r.c[i] = -r.c[i];
  return r;
}
// error of r = fl(a+b), exact (Knuth two-sum; no overflow at our magnitudes)
static inline L sum_err(Q a, Q b, Q r) {
  Q bb = r - a;
  return labs((a - (r - bb)) + (b - bb));
}
static const L AEPS = 0x1p-112L;        // one quad addition
static inline TM tm_add(const TM &a, const TM &b) {
  TM r;
  r.n = std::max(a.n, b.n);
  L s = 0;
  r.c[0] = a.c[0] + b.c[0];
  L e0 = sum_err(a.c[0], b.c[0], r.c[0]);
  for (int i = 1; i <= r.n; i++) {
    Q x = i <= a.n ? a.c[i] : (Q)0, y = i <= b.n ? b.c[i] : (Q)0;
    r.c[i] = x + y;
    s += labs(r.c[i]);
  }
  r.E = (a.E + b.E + s * AEPS + e0 + QTINY) * UP;
  return r;
}
static inline TM tm_sub(const TM &a, const TM &b) { return tm_add(a, tm_neg(b)); }
static inline TM tm_mul(const TM &a, const TM &b) {
  TM r;
  int N = std::min(a.n + b.n, g_deg);
  r.n = N;
  for (int i = 0; i <= N; i++) r.c[i] = 0;
  L aa[MAXDEG + 1], bb[MAXDEG + 1];
  L sa = 0, sb = 0;
  for (int i = 0; i <= a.n; i++) { aa[i] = labs(a.c[i]); sa += aa[i]; }
  for (int i = 0; i <= b.n; i++) { bb[i] = labs(b.c[i]); sb += bb[i]; }
  L trunc = 0;
  for (int i = 0; i <= a.n; i++) {
    if (a.c[i] == 0) continue;
    for (int j = 0; j <= b.n; j++) {
      if (i + j <= N) r.c[i + j] += a.c[i] * b.c[j];
      else trunc += aa[i] * bb[j];
    }
  }
  sa *= UP; sb *= UP;
  r.E = (trunc + a.E * sb + b.E * sa + a.E * b.E + sa * sb * QEPS + QTINY) * UP;
  sweep(r);
  return r;
}
static inline TM tm_scale(const TM &a, Q k) {   // k any quad constant
  TM r = a;
  L s = 0;
  for (int i = 0; i <= r.n; i++) { r.c[i] = a.c[i] * k; s += labs(r.c[i]); }
  r.E = (a.E * labs(k) + s * QEPS + QTINY) * UP;
  return r;
}
static inline TM tm_addc(const TM &a, Q k) {
  TM r = a;
  r.c[0] = a.c[0] + k;
  r.E = (a.E + sum_err(a.c[0], k, r.c[0])) * UP;
  return r;
}
static inline TM tm_ldexp(const TM &a, int k) {   // exact
  TM r = a;
  for (int i = 0; i <= r.n; i++) r.c[i] = ldexpq(a.c[i], k);
  r.E = ldexpl(a.E, k) * UP + QTINY;
  return r;
}
// enclosure of the range over t in [-1,1]; exact-ish treatment of even powers
static inline void tm_range(const TM &a, Q &lo, Q &hi) {
  L up = 0, dn = 0;
  for (int i = 1; i <= a.n; i++) {
    L v = labs(a.c[i]);
    if (i & 1) { up += v; dn += v; }
    else if (a.c[i] > 0) up += v;
    else dn += v;
  }
  // for c1 t + c2 t^2 dominated by the linear part this is already tight
  L slop = labs(a.c[0]) * 0x1p-108L + QTINY;
  lo = a.c[0] - (Q)((dn + a.E + slop) * UP);
  hi = a.c[0] + (Q)((up + a.E + slop) * UP);
  lo -= fabsq(lo) * (Q)0x1p-108L;
  hi += fabsq(hi) * (Q)0x1p-108L;
}
// 1/a ; returns false if not enclosable (zero in range or poor convergence)
static inline bool tm_inv(const TM &a, TM &r) {
  if (a.c[0] == 0) return false;
  int N = a.n == 0 ? 0 : g_deg;
  r.n = N;
  Q i0 = (Q)1 / a.c[0];
  r.c[0] = i0;
  for (int k = 1; k <= N; k++) {
    Q s = 0;
    for (int j = 1; j <= std::min(k, a.n); j++) s += a.c[j] * r.c[k - j];
    r.c[k] = -s * i0;
  }
  L sr = sumabs(r), sa = sumabs(a);
  // delta = a*r - 1 : rounding in low part + truncated high part
  L d = sa * sr * QEPS;
  for (int i = 1; i <= a.n; i++)
    for (int j = std::max(0, N + 1 - i); j <= N; j++) d += labs(a.c[i]) * labs(r.c[j]);
  d = (d + a.E * sr) * UP;
  // low-order defect computed explicitly
  for (int k = 0; k <= N; k++) {
    Q s = k == 0 ? (Q)-1 : (Q)0;
    for (int j = 0; j <= std::min(k, a.n); j++) s += a.c[j] * r.c[k - j];
    d += labs(s);
  }
  d *= UP;
  if (!(d < 0.5L)) return false;
  r.E = (sr * d / (1 - d) + QTINY) * UP;
  sweep(r);
  return true;
}
static inline bool tm_sqrt(const TM &a, TM &r) {
  if (!(a.c[0] > 0)) return false;
  int N = a.n == 0 ? 0 : g_deg;
  r.n = N;
  Q s0 = sqrtq(a.c[0]);
  r.c[0] = s0;
  for (int k = 1; k <= N; k++) {
    Q s = k <= a.n ? a.c[k] : (Q)0;
    for (int j = 1; j < k; j++) s -= r.c[j] * r.c[k - j];
    r.c[k] = s / (2 * s0);
  }
  L sr = sumabs(r);
  L d = sr * sr * QEPS;
  for (int k = 0; k <= N; k++) {
    Q s = k <= a.n ? -a.c[k] : (Q)0;
    for (int j = 0; j <= k; j++) s += r.c[j] * r.c[k - j];
    d += labs(s);
  }
  for (int i = 1; i <= N; i++)
    for (int j = N + 1 - i; j <= N; j++) d += labs(r.c[i]) * labs(r.c[j]);
  for (int k = N + 1; k <= a.n; k++) d += labs(a.c[k]);
  d = (d + a.E) * UP;
  L smin = (L)s0 * (1 - 0x1p-50L) - sumabs(r, 1);
  if (!(smin > 0)) return false;
  // range of a must stay non-negative for sqrt to be a real number; callers check
  r.E = (d / smin + QTINY) * UP;
  sweep(r);
  return true;
}
// integral_0^t a dt * scale + k0
static inline TM tm_integrate(const TM &a, Q scale, Q k0) {
  TM r;
  int N = std::min(a.n + 1, g_deg);
  r.n = N;
  r.c[0] = k0;
  L s = labs(k0);
  for (int i = 0; i <= a.n; i++) {
    Q v = a.c[i] * scale / (Q)(i + 1);
    s += labs(v);
    if (i + 1 <= N) r.c[i + 1] = v;
  }
  r.E = a.E * labs(scale);
  if (a.n + 1 > N) r.E += labs(a.c[a.n] * scale / (Q)(a.n + 1));
  r.E = (r.E + s * QEPS + QTINY) * UP;
  return r;
}
