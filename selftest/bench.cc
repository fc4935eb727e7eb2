// Controls of the benchmark analysis: good* entries are what they say, bad* are not.
#include <cmath>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <random>
#include <string>
#include <time.h>
#include <vector>
struct CmdOptions {
  std::string getArgument(const std::string &);
};
namespace vdt {
double fast_exp(double);
float fast_expf(float);
double fast_sin(double);
double fast_log(double);
double fast_atan2(double, double);
void fast_expv(uint32_t, double const *, double *);
}
typedef std::vector<double> vec;
typedef std::function<double(double)> fun;
typedef std::function<void(uint32_t, double const *, double *)> funv;

static uint64_t bits(double x) { uint64_t u; std::memcpy(&u, &x, sizeof u); return u; }
static double number(uint64_t u) { double x; std::memcpy(&x, &u, sizeof x); return x; }

// the reader the files are judged with
struct Response {
  vec in, out;
  Response(const std::string &name) {
    std::ifstream f(name);
    std::string l;
    for (int i = 0; i < 3; i++) std::getline(f, l);
    uint64_t a, b;
    while (f >> std::hex >> a >> b) {
      in.push_back(number(a));
      out.push_back(number(b));
    }
  }
  const vec &getInput() { return in; }
  const vec &getOutput() { return out; }
};

static vec pool(double lo, double hi, int n, int seed = 1) {
  std::mt19937_64 e(seed);
  std::uniform_real_distribution<double> d(lo, hi);
  vec v;
  for (int i = 0; i < n; i++) v.push_back(d(e));
  return v;
}
static int size(CmdOptions &o) { return std::stoi(o.getArgument("-s")); }
static int reps(CmdOptions &o) { return std::stoi(o.getArgument("-r")); }

static void save(CmdOptions &o, const std::string &name, const std::string &title, const vec &in, const vec &out) {
  std::ofstream f(o.getArgument("-n") + "__" + name + "__response.txt");
  f << "file\nDouble Precision\nName = " << title << "\n";
  for (size_t i = 0; i < in.size(); i++) f << std::hex << "0x" << bits(in[i]) << " 0x" << bits(out[i]) << "\n";
}
static vec map(const fun &f, const vec &in) {
  vec out;
  for (double x : in) out.push_back(f(x));
  return out;
}
static vec mapv(const funv &f, const vec &in) {
  vec out(in.size());
  f(in.size(), &in[0], &out[0]);
  return out;
}
static double reference(double x) { return std::exp(x); }
static double narrow(float x) { return std::exp((double)x); }
static double overload(double x) { return std::exp((float)x); }
static float rounded(double x) { return std::exp(x); }

void goodScalar() { CmdOptions o; vec p = pool(-700, 700, size(o)); save(o, "Fast_Exp", "Fast_Exp", p, map(vdt::fast_exp, p)); }
void goodReference() { CmdOptions o; vec p = pool(-700, 700, size(o)); save(o, "Exp", "Exp", p, map(reference, p)); }
void goodArray() { CmdOptions o; vec p = pool(-700, 700, size(o)); save(o, "Fast_Expv", "Fast_Expv", p, mapv(vdt::fast_expv, p)); }
void goodLambda() { CmdOptions o; vec p = pool(1e-4, 5000, size(o)); save(o, "Fast_Log", "Fast_Log", p, map([](double x) { return vdt::fast_log(x); }, p)); }
void goodTwo() {
  CmdOptions o;
  const int n = size(o);
  save(o, "Exp", "Exp", pool(-700, 700, n), map(reference, pool(-700, 700, n)));
  save(o, "Fast_Exp", "Fast_Exp", pool(-700, 700, n), map(vdt::fast_exp, pool(-700, 700, n)));
}
void badFunction() { CmdOptions o; vec p = pool(-700, 700, size(o)); save(o, "Fast_Exp", "Fast_Exp", p, map(vdt::fast_sin, p)); }
void badParameter() { CmdOptions o; vec p = pool(-700, 700, size(o)); save(o, "Exp", "Exp", p, map(narrow, p)); }
void badOverload() { CmdOptions o; vec p = pool(-80, 80, size(o)); save(o, "Exp", "Exp", p, map(overload, p)); }
void badResult() { CmdOptions o; vec p = pool(-700, 700, size(o)); save(o, "Exp", "Exp", p, map(rounded, p)); }
void badVariant() { CmdOptions o; vec p = pool(-700, 700, size(o)); save(o, "Fast_Exp", "Fast_Exp", p, map(reference, p)); }
void badPrecision() { CmdOptions o; vec p = pool(-80, 80, size(o)); save(o, "Fast_Exp", "Fast_Exp", p, map([](double x) { return vdt::fast_expf(x); }, p)); }
void badRange() { CmdOptions o; vec p = pool(-5000, 5000, size(o)); save(o, "Fast_Exp", "Fast_Exp", p, map(vdt::fast_exp, p)); }
void badDomain() { CmdOptions o; vec p = pool(-1, 5000, size(o)); save(o, "Fast_Log", "Fast_Log", p, map(vdt::fast_log, p)); }
void badTitle() { CmdOptions o; vec p = pool(-700, 700, size(o)); save(o, "Fast_Exp", "Fast_Sin", p, map(vdt::fast_exp, p)); }
void badPairs() { CmdOptions o; int n = size(o); save(o, "Fast_Exp", "Fast_Exp", pool(-700, 700, n), map(vdt::fast_exp, pool(-600, 700, n))); }
void badSize() { CmdOptions o; vec p = pool(-700, 700, size(o) + 1); save(o, "Fast_Exp", "Fast_Exp", p, map(vdt::fast_exp, p)); }
void badSeeds() {
  CmdOptions o;
  const int n = size(o);
  vec p = pool(-700, 700, n), q = pool(-700, 700, n, 2);
  save(o, "Exp", "Exp", p, map(reference, p));
  save(o, "Fast_Exp", "Fast_Exp", q, map(vdt::fast_exp, q));
}
void badArray() {
  CmdOptions o;
  vec p = pool(-700, 700, size(o)), q(p.size());
  vdt::fast_expv(p.size() - 1, &p[0], &q[0]);
  save(o, "Fast_Expv", "Fast_Expv", p, q);
}

// timing: one policy per way of getting it wrong
struct Right {
  enum { label = 0, digits = 2 };
  static int warm(int r) { return r; }
  static int first(int r) { return r; }
  static bool twice() { return false; }
  static double mean(double t, double n, double r) { return t / (n * r); }
  static double error(double t, double t2, double n, double r) { return r > 1 ? std::sqrt((t2 - t * t / r) / (r - 1) / r) / n : 0.; }
  static int64_t elapsed(const timespec &a, const timespec &b) { return (b.tv_sec - a.tv_sec) * int64_t(1000000000) + (b.tv_nsec - a.tv_nsec); }
  static double call(double x) { return vdt::fast_exp(x); }
};
template <class P> static void measure() {
  CmdOptions o;
  const int n = size(o), r = reps(o);
  vec in = pool(-700, 700, n), out(n);
  uint64_t t = 0, t2 = 0;
  for (int i = 0; i < P::warm(r) + r; i++) {
    timespec a, b;
    clock_gettime(CLOCK_THREAD_CPUTIME_ID, &a);
    for (int j = 0; j < n; j++) out[j] = P::call(in[j]);
    if (P::twice()) vdt::fast_sin(in[0]);
    clock_gettime(CLOCK_THREAD_CPUTIME_ID, &b);
    if (i >= P::first(r)) {
      uint64_t d = P::elapsed(a, b);
      t += d;
      t2 += d * d;
    }
  }
  std::ofstream f(o.getArgument("-n") + "__performance_benchmark.txt");
  f << std::fixed << std::setprecision(P::digits) << "Function " << (P::label ? "Fast_Sin" : "Fast_Exp") << " : " << P::mean(t, n, r) << " +- " << P::error(t, t2, n, r) << " ns\n";
}
#define CASE(name, ...) struct T##name : Right { __VA_ARGS__ }; void name() { measure<T##name>(); }
CASE(goodTiming)
CASE(goodNoWarmup, static int warm(int) { return 0; } static int first(int) { return 0; })
CASE(goodError, static double error(double t, double t2, double n, double r) { double v = t2 / r - (t / r) * (t / r); if (r < 2) return 0; return std::sqrt(v / (r - 1)) / n; })
CASE(badWarmupRecorded, static int first(int) { return 0; })
CASE(badOneMore, static int first(int r) { return r - 1; })
CASE(badMean, static double mean(double t, double n, double) { return t / n; })
CASE(badProduct, static double mean(double t, double n, double r) { return t / (uint32_t(n) * uint32_t(r)); })
CASE(badErrorCalls, static double error(double t, double t2, double n, double r) { return std::sqrt((t2 - t * t / (n * r)) / (n * r - 1) / (n * r)); })
CASE(badErrorRms, static double error(double t, double t2, double n, double r) { return std::sqrt((t2 - t * t / r) / (r - 1)) / n; })
CASE(badErrorOnce, static double error(double t, double t2, double n, double r) { return std::sqrt((t2 - t * t / r) / (r - 1) / r) / n; })
CASE(badDigits, enum { digits = 0 };)
CASE(badSeconds, static int64_t elapsed(const timespec &a, const timespec &b) { return b.tv_nsec - a.tv_nsec; })
CASE(badElapsed32, static int64_t elapsed(const timespec &a, const timespec &b) { return uint32_t((b.tv_sec - a.tv_sec) * 1000000000l + (b.tv_nsec - a.tv_nsec)); })
CASE(badExtra, static bool twice() { return true; })
CASE(badLabel, enum { label = 1 };)
CASE(badCall, static double call(double x) { return vdt::fast_sin(x); })
