// Controls of the state analysis: good_* depends on arguments only, bad_* does not.
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cfenv>
static const double table[4] = {1, 2, 3, 4};
static double mutable_never_written[2] = {1, 2};
static double cache;
static int calls;
extern double config;
thread_local double last;
static double helper(double x) { calls++; return x; }
inline double poly(double x) { static const double c[3] = {1, 2, 3}; double r = 0; for (int i = 0; i < 3; ++i) r = r * x + c[i]; return r; }
struct P { double a, b; };
static inline void split(double x, P &p) { p.a = x; p.b = -x; }
double good_plain(double x) { return x * 2; }
double good_table(double x) { return table[x > 0] * x; }
double good_unwritten(double x) { return mutable_never_written[x > 0]; }
double good_sqrt(double x) { return std::sqrt(x) + std::fabs(x); }
double good_static(double x) { return poly(x); }
double good_pun(double x) { unsigned long u; std::memcpy(&u, &x, 8); u ^= 1; std::memcpy(&x, &u, 8); return x; }
double good_struct(double x) { P p; split(x, p); return p.a * p.b; }
void good_out(double x, double &r) { r = x; }
double bad_store(double x) { cache = x; return x; }
double bad_load(double x) { return x + cache; }
double bad_helper(double x) { return helper(x); }
double bad_extern(double x) { return x * config; }
double bad_tls(double x) { last = x; return x; }
double bad_staticlocal(double x) { static double prev = 0; double r = prev; prev = x; return r; }
double bad_lazy(double x) { static double k = std::strtod("1", nullptr); return k * x; }
double bad_io(double x) { std::printf("%g", x); return x; }
double bad_rand(double x) { return x + std::rand(); }
double bad_round(double x) { std::fesetround(FE_UPWARD); return x; }
double bad_alloc(double x) { double *p = new double(x); double r = *p; delete p; return r; }
double bad_ptr(double x) { static double (*volatile f)(double) = good_plain; return f(x); }
