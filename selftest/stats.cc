// Controls of the pool and comparison analyses: good* behave as specified, bad* do not.
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <random>
#include <string>
#include <vector>
typedef std::vector<double> vec;

// ---- pools
#define POOL1(NAME, DIST, ENGINE, COUNT, LO, HI)                                        \
  struct NAME {                                                                          \
    vec v;                                                                               \
    uint64_t n;                                                                          \
    NAME(double lo, double hi, uint64_t size, int seed = 1) : n(size) {                  \
      ENGINE;                                                                            \
      std::uniform_real_distribution<DIST> d(LO, HI);                                    \
      for (uint64_t i = 0; i < (COUNT); ++i) v.push_back((double)d(e));                  \
    }                                                                                    \
    const vec &getNumbers() const { return v; }                                          \
    uint64_t getSize() const { return n; }                                               \
  }
POOL1(goodPool, long double, std::mt19937_64 e(seed), size, lo, hi);
POOL1(badPoolNarrow, double, std::mt19937_64 e(seed), size, lo, hi);
POOL1(badPoolSeed, long double, std::mt19937_64 e(1), size, lo, hi);
POOL1(badPoolSeedCut, long double, std::mt19937_64 e(static_cast<short>(seed)), size, lo, hi);
POOL1(badPoolSeedHalf, long double, std::mt19937_64 e(seed >> 1), size, lo, hi);
POOL1(goodPoolSeedMoved, long double, std::mt19937_64 e(seed + 12345), size, lo, hi);
POOL1(badPoolCount, long double, std::mt19937_64 e(seed), size - 1, lo, hi);
POOL1(badPoolLimits, long double, std::mt19937_64 e(seed), size, 0, hi);
struct goodPoolResize {
  vec v;
  goodPoolResize(double lo, double hi, uint64_t size, int seed = 1) {
    std::mt19937_64 e(seed);
    std::uniform_real_distribution<long double> d(lo, hi);
    v.resize(size);
    for (auto &x : v) x = d(e);
  }
  const vec &getNumbers() const { return v; }
};
#define POOL2(NAME, BODY)                                                                \
  struct NAME {                                                                          \
    vec x, y;                                                                            \
    NAME(double lx, double ly, double hx, double hy, uint64_t n, int seed = 1) {         \
      std::mt19937_64 e(seed);                                                           \
      std::uniform_real_distribution<long double> dx(lx, hx), dy(ly, hy);                \
      BODY                                                                               \
    }                                                                                    \
    const vec &getNumbersX() const { return x; }                                         \
    const vec &getNumbersY() const { return y; }                                         \
  }
POOL2(goodPool2, for (uint64_t i = 0; i < n; i++) x.push_back(dx(e)); for (uint64_t i = 0; i < n; i++) y.push_back(dy(e)););
POOL2(goodPool2Interleaved, for (uint64_t i = 0; i < n; i++) { x.push_back(dx(e)); y.push_back(dy(e)); });
POOL2(badPool2Again, std::mt19937_64 f(seed); for (uint64_t i = 0; i < n; i++) x.push_back(dx(e)); for (uint64_t i = 0; i < n; i++) y.push_back(dy(f)););
POOL2(badPool2Limits, for (uint64_t i = 0; i < n; i++) x.push_back(dx(e)); for (uint64_t i = 0; i < n; i++) y.push_back(dx(e)););

// ---- number of differing bits
static uint64_t bits(double x) { uint64_t u; std::memcpy(&u, &x, sizeof u); return u; }
uint16_t goodBits(double a, double b) {
  uint64_t p = bits(a), q = bits(b), c = p > q ? p - q : q - p;
  return c == 0 ? 0 : std::log2(c) + 1;
}
uint16_t goodBitsLoop(double a, double b) {
  uint64_t p = bits(a), q = bits(b), c = std::max(p, q) - std::min(p, q);
  uint16_t n = 0;
  for (; c != 0; c >>= 1) ++n;
  return n;
}
uint16_t goodBitsClz(double a, double b) {
  uint64_t p = bits(a), q = bits(b);
  if (p == q) return 0;
  return 64 - __builtin_clzll(p < q ? q - p : p - q);
}
uint16_t badBitsXor(double a, double b) {
  uint64_t c = bits(a) ^ bits(b);
  return c == 0 ? 0 : std::log2(c) + 1;
}
uint16_t badBitsZero(double a, double b) {
  uint64_t p = bits(a), q = bits(b), c = p > q ? p - q : q - p;
  return std::log2(c + 1) + 1;
}
uint16_t badBitsWrap(double a, double b) {
  uint64_t p = bits(a), q = bits(b), c = p - q;
  return c == 0 ? 0 : std::log2(c) + 1;
}
uint16_t badBitsNarrow(double a, double b) {
  uint64_t p = bits(a), q = bits(b);
  uint32_t c = p > q ? p - q : q - p;
  return c == 0 ? 0 : std::log2(c) + 1;
}

// ---- statistics
#define COMPARISON(NAME, BITS, STATS, FILE, LIST) TABLE(NAME, BITS, STATS, FILE, LIST, " " << high << " " << low << " " << mean << " " << rms)
#define TABLE(NAME, BITS, STATS, FILE, LIST, LINE)                                                        \
  struct NAME {                                                                                          \
    vec in, o1, o2;                                                                                      \
    std::vector<uint16_t> d;                                                                             \
    double mean = 0, rms = 0;                                                                            \
    uint16_t low = 255, high = 0;                                                                        \
    NAME(const std::string &name, const vec &in_, const vec &a, const vec &b) : in(in_), o1(a), o2(b) {  \
      for (size_t i = 0; i < o1.size(); i++) d.push_back(BITS(o1[i], o2[i]));                            \
      double s = 0, s2 = 0;                                                                              \
      const size_t n = d.size();                                                                         \
      STATS                                                                                              \
    }                                                                                                    \
    void printStats(bool tabular = false) {                                                              \
      if (tabular)                                                                                       \
        std::cout << "name" << LINE << "\n";                                                             \
      else {                                                                                             \
        LIST                                                                                             \
      }                                                                                                  \
    }                                                                                                    \
    void writeFile(const std::string &name) {                                                            \
      std::ofstream f(name);                                                                             \
      f << "comparison\n" << high << " " << low << " " << std::hex << bits(mean) << " " << bits(rms) << "\n"; \
      for (size_t i = 0; i < in.size(); i++)                                                             \
        f << std::hex << bits(in[i]) << " " << FILE << " " << std::dec << d[i] << " " << in[i] << "\n";  \
    }                                                                                                    \
    bool hasDifference() { return high > 0; }                                                            \
  };
#define MOMENTS for (auto x : d) { s += x; s2 += x * x; if (x < low) low = x; if (x > high) high = x; }
#define MEAN mean = s / n; rms = n == 1 ? -1 : sqrt((s2 - n * mean * mean) / (n - 1));
#define COLUMNS bits(o1[i]) << " " << bits(o2[i])
#define LINES std::cout << "Max " << high << "\nMin " << low << "\nMean " << mean << "\nRMS " << rms << "\n";
COMPARISON(goodComparison, goodBits, MOMENTS MEAN, COLUMNS, LINES)
COMPARISON(goodComparisonTwoPasses, goodBits, for (auto x : d) s += x; mean = s / n; for (auto x : d) s2 += (double)x * x;
           rms = std::sqrt(s2 / (n - 1) - mean * mean * n / (n - 1)); low = *std::min_element(d.begin(), d.end()); high = *std::max_element(d.begin(), d.end());, COLUMNS, LINES)
COMPARISON(badComparisonVariance, goodBits, MOMENTS mean = s / n; rms = (s2 - n * mean * mean) / (n - 1);, COLUMNS, LINES)
COMPARISON(badComparisonBiased, goodBits, MOMENTS mean = s / n; rms = sqrt((s2 - n * mean * mean) / n);, COLUMNS, LINES)
COMPARISON(badComparisonMean, goodBits, MOMENTS MEAN mean = s / (n - 1);, COLUMNS, LINES)
COMPARISON(badComparisonMax, goodBits, for (auto x : d) { s += x; s2 += x * x; if (x < low) low = x; if (x < high) high = x; } MEAN, COLUMNS, LINES)
COMPARISON(badComparisonBits, badBitsXor, MOMENTS MEAN, COLUMNS, LINES)
COMPARISON(badComparisonLabels, goodBits, MOMENTS MEAN, COLUMNS, std::cout << "Max " << low << "\nMin " << high << "\nMean " << mean << "\nRMS " << rms << "\n";)
COMPARISON(badComparisonColumns, goodBits, MOMENTS MEAN, bits(o2[i]) << " " << bits(o1[i]), LINES)
COMPARISON(badComparisonSkipsFirst, goodBits, for (size_t i = 1; i < n; i++) { s += d[i]; s2 += d[i] * d[i]; } for (auto x : d) { if (x < low) low = x; if (x > high) high = x; } MEAN, COLUMNS, LINES)
COMPARISON(badComparisonManyValues, goodBits, MOMENTS const uint16_t m = n; mean = s / m; rms = m == 1 ? -1 : sqrt((s2 - m * mean * mean) / (m - 1));, COLUMNS, LINES)
COMPARISON(goodComparisonCounts, goodBits, MOMENTS const int m = n; mean = s / m; rms = m < 2 ? -1 : sqrt((s2 - m * mean * mean) / (m - 1));, COLUMNS, LINES)
TABLE(goodComparisonTable, goodBits, MOMENTS MEAN, COLUMNS, LINES, std::setw(5) << high << std::setw(5) << low << std::fixed << std::setprecision(2) << std::setw(7) << mean << " " << rms)
TABLE(badComparisonTouching, goodBits, MOMENTS MEAN, COLUMNS, LINES, std::setw(5) << high << std::setw(5) << low << std::setw(7) << mean << " " << rms)
TABLE(badComparisonLeft, goodBits, MOMENTS MEAN, COLUMNS, LINES, std::left << std::setw(5) << high << std::setw(5) << low << " " << mean << " " << rms)
