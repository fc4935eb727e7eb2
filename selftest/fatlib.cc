// Controls of the fat library check (P26): multi-versioned element functions, good and bad.
#include <cmath>
double elem(double); void elem2(double, double&, double&);
#define ALL(FUN) double __attribute__((__target__("default"))) FUN double __attribute__((__target__("avx2","fma"))) FUN
#define ALLV(FUN) void __attribute__((__target__("default"))) FUN void __attribute__((__target__("avx2","fma"))) FUN
extern "C" {
double good_s(double x); double bad_s(double x); double bad_version(double x);
void good_v(const double* i, double* o, long n); void good_down_v(const double* i, double* o, long n);
void good_two_v(const double* i, double* o, double* p, long n); void bad_two_v(const double* i, double* o, double* p, long n);
void bad_counter_v(const double* i, double* o, long n); void bad_version_v(const double* i, double* o, long n);
double good_eq(double x, double y, double z); double bad_eq(double x, double y, double z);
}
namespace {
ALL(fs(double x) { return elem(x); })
ALL(fb(double x) { return elem(-x); })
double __attribute__((__target__("default"))) fv(double x) { return elem(x); }
double __attribute__((__target__("avx2","fma"))) fv(double x) { return elem(x + 1); }
ALLV(gv(const double* i, double* o, long n) { for (long k = 0; k < n; ++k) o[k] = elem(i[k]); })
ALLV(gd(const double* i, double* o, long n) { while (n-- > 0) o[n] = elem(i[n]); })
ALLV(g2(const double* i, double* o, double* p, long n) { for (long k = 0; k < n; ++k) elem2(i[k], o[k], p[k]); })
ALLV(b2(const double* i, double* o, double* p, long n) { for (long k = 0; k < n; ++k) elem2(i[k], p[k], o[k]); })
ALLV(bc(const double* i, double* o, long n) { for (unsigned k = 0; k < n; ++k) o[k] = elem(i[k]); })
void __attribute__((__target__("default"))) bv(const double* i, double* o, long n) { for (long k = 0; k < n; ++k) o[k] = elem(i[k]); }
void __attribute__((__target__("avx2","fma"))) bv(const double* i, double* o, long n) { for (long k = 0; k < n / 4 * 4; ++k) o[k] = elem(i[k]); }
}
double good_s(double x) { return fs(x); }
double bad_s(double x) { return fb(x); }
double bad_version(double x) { return fv(x); }
void good_v(const double* i, double* o, long n) { gv(i, o, n); }
void good_down_v(const double* i, double* o, long n) { gd(i, o, n); }
void good_two_v(const double* i, double* o, double* p, long n) { g2(i, o, p, n); }
void bad_two_v(const double* i, double* o, double* p, long n) { b2(i, o, p, n); }
void bad_counter_v(const double* i, double* o, long n) { bc(i, o, n); }
void bad_version_v(const double* i, double* o, long n) { bv(i, o, n); }
double good_eq(double x, double y, double z) { const double p = y * x; return z + p; }
double bad_eq(double x, double y, double z) { return std::fma(x, y, z); }
double ref_eq(double x, double y, double z) { return x * y + z; }
