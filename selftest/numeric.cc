// Controls of the numeric analysis: every function named bad_* must be
// reported and every function named good_* must be accepted on every run.
#include <cmath>
#include <cstring>
#include <cstdint>
extern "C" {
// reciprocal, wrong only inside one binade
double bad_inv(double x) { double r = 1. / x; if (x >= 1024. && x < 1024.5) r *= 1. + 1e-9; return r; }
double good_inv(double x) { double r = 1. / x; r *= 1. + 0x1p-60; return r; }
// saturation threshold off by a little
double bad_sat(double x) { return x > 708.5 ? INFINITY : x; }
double good_sat(double x) { return x > 708. ? INFINITY : x; }
// NaN swallowed
double bad_nan(double x) { return x < 0 ? 0. : (x > 1 ? 1. : 0.5); }
double good_nan(double x) { double y = x * 2; if (x > 1) y = 1; return y; }
// not odd: one side is rounded differently
double bad_odd(double x) { return x < 0 ? -(-x * 3 - 1e-3 * x * x) : x * 3 + x * x * 1e-3; }
double good_odd(double x) { double a = x < 0 ? -x : x; double r = a * 3 + a * a; return x < 0 ? -r : r; }
// division by zero at one point, conversion out of range, shift out of range
double bad_div(double x) { return 1. / (x - 3.); }
double good_div(double x) { return 1. / (x + 3.); }
double bad_conv(double x) { return (double)(int)(x * 1e9); }
double good_conv(double x) { return (double)(int)(x * 1e7); }
double bad_shift(double x) { int n = (int)x; return (double)(n << 4); }
double good_shift(double x) { int n = (int)x; return (double)(int)((unsigned)n << 4); }
double bad_return(double x) { if (x < 7.) return x; }
// range
double bad_range(double x) { return x * 1.0000000000000004; }
double good_range(double x) { return x * 0.5; }
// mutable state and tables
static double state = 1.;
double bad_state(double x) { double r = x * state; state = x; return r; }
static const double table[4] = {1., 1., 1., 1.};
double good_table(double x) { int k = (int)x; return x * table[k & 3]; }
// argument reduction: exactness of x - y*C is needed for the bound
double good_red(double x) { int k = (int)(x + 0.5); return x - k; }
}
