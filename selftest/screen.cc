// Controls of the response and printing analyses: good* behave as specified, bad* do not.
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <string>
#include <vector>
typedef std::vector<double> vec;
typedef std::function<double(double)> fun;
typedef std::function<void(uint32_t, double *, double *)> funv;
static uint64_t bits(double x) { uint64_t u; std::memcpy(&u, &x, sizeof u); return u; }

// ---- responses
#define RESPONSE(NAME, FILL, FILLV, PRECISION, TITLE, PRINT)                                          \
  struct NAME {                                                                                       \
    std::string title;                                                                                \
    vec in, out;                                                                                      \
    NAME(const std::string &name, const vec &input, const fun &f) : title(name), in(input) { FILL }   \
    NAME(const std::string &name, const vec &input, const funv &f) : title(name), in(input) { FILLV } \
    const vec &getInput() const { return in; }                                                        \
    const vec &getOutput() const { return out; }                                                      \
    void writeFile(const std::string &name) {                                                         \
      std::ofstream o(name);                                                                          \
      o << "response\n" << PRECISION << "\nFunction Name = " << TITLE << std::endl << "--\n--\n";     \
      for (size_t i = 0; i < in.size(); i++) o << std::hex << bits(in[i]) << " " << bits(out[i]) << "\n"; \
    }                                                                                                 \
    void print() { PRINT }                                                                            \
  };
#define EACH for (double x : in) out.push_back(f(x));
#define ALL out.resize(in.size()); f(in.size(), &in[0], &out[0]);
#define LINES                                                                     \
  const size_t n = in.size();                                                     \
  std::cout << "Response:\n" << std::setprecision(std::numeric_limits<double>::digits10); \
  for (size_t i = 0; i < n; i++) std::cout << i << "/" << n << " " << title << "(" << in[i] << ") = " << out[i] << std::endl;
#define TWICE "Double Precision"
RESPONSE(goodResponse, EACH, ALL, TWICE, title, LINES)
RESPONSE(goodResponseIndexed, out.resize(in.size()); for (size_t i = 0; i < in.size(); ++i) out[i] = f(in[i]);,
         double *r = new double[in.size()]; f(in.size(), in.data(), r); out.assign(r, r + in.size()); delete[] r;, TWICE, title, LINES)
RESPONSE(badResponseTwice, for (double x : in) out.push_back(f(f(x)));, ALL, TWICE, title, LINES)
RESPONSE(badResponseLast, for (size_t i = 0; i + 1 < in.size(); ++i) out.push_back(f(in[i]));, ALL, TWICE, title, LINES)
RESPONSE(badResponseFirst, for (size_t i = 0; i < in.size(); ++i) out.push_back(f(in[0]));, ALL, TWICE, title, LINES)
RESPONSE(badResponseNever, EACH, out.resize(in.size());, TWICE, title, LINES)
RESPONSE(badResponseShort, EACH, out.resize(in.size()); f(in.size() - 1, &in[0], &out[0]);, TWICE, title, LINES)
RESPONSE(badResponseShifted, EACH, out.resize(in.size()); f(in.size(), &in[1], &out[0]);, TWICE, title, LINES)
RESPONSE(badResponsePrecision, EACH, ALL, "Single Precision", title, LINES)
RESPONSE(badResponseTitle, EACH, ALL, TWICE, "function", LINES)

// ---- what is printed
#define LOOP(FROM, BODY) const size_t n = in.size(); std::cout << std::setprecision(15); for (size_t i = FROM; i < n; ++i) { BODY }
RESPONSE(goodPrinted, EACH, ALL, TWICE, title, LINES)
RESPONSE(goodPrintedParts, EACH, ALL, TWICE, title, size_t c = 1; std::cout.precision(17); for (auto p = in.begin(), q = out.begin(); p != in.end(); ++p, ++q) {
  std::cout << c << "/" << in.size(); ++c; std::cout << " " << title << " at " << *p << ": " << *q << '\n'; })
RESPONSE(badPrintedFirst, EACH, ALL, TWICE, title, LOOP(1, std::cout << i << "/" << n << " " << title << "(" << in[i] << ") = " << out[i] << std::endl;))
RESPONSE(badPrintedSwapped, EACH, ALL, TWICE, title, LOOP(0, std::cout << i << "/" << n << " " << title << "(" << out[i] << ") = " << in[i] << std::endl;))
RESPONSE(badPrintedDigits, EACH, ALL, TWICE, title, LOOP(0, std::cout << std::setprecision(6) << i << "/" << n << " " << title << "(" << in[i] << ") = " << out[i] << std::endl;))
RESPONSE(badPrintedHex, EACH, ALL, TWICE, title, LOOP(0, std::cout << std::hex << i << "/" << n << " " << title << "(" << in[i] << ") = " << out[i] << std::endl;))
RESPONSE(badPrintedHexLater, EACH, ALL, TWICE, title, LOOP(0, std::cout << i << "/" << n << " " << title << "(" << in[i] << ") = " << out[i] << std::hex << std::endl;))
RESPONSE(badPrintedJoined, EACH, ALL, TWICE, title, LOOP(0, std::cout << i << "/" << n << " " << title << "(" << in[i] << out[i] << ")" << std::endl;))
RESPONSE(badPrintedOneLine, EACH, ALL, TWICE, title, LOOP(0, std::cout << i << "/" << n << " " << title << "(" << in[i] << ") = " << out[i] << " ";))
RESPONSE(badPrintedCount, EACH, ALL, TWICE, title, LOOP(0, std::cout << 2 * i << "/" << n << " " << title << "(" << in[i] << ") = " << out[i] << std::endl;))

uint16_t diffbit(double, double);
std::string getbsasstr(double);
static void show(double a, double b) { std::cout << std::setprecision(10) << a << " and " << b << ": " << diffbit(a, b) << "\n" << getbsasstr(a) << "\n" << getbsasstr(b) << "\n"; }
void goodPrintedPair(const std::string &name, fun f, fun g, double x) { std::cout << name << "(" << x << ")\n"; show(f(x), g(x)); }
void goodPrintedPairs(const std::string &name, fun f, fun g, double *x, uint32_t n) { for (uint32_t i = 0; i < n; i++) goodPrintedPair(name, f, g, x[i]); }
void goodPrintedArrays(const std::string &name, funv f, funv g, double *x, uint32_t n) {
  std::cout << name << "\n";
  vec a(n), b(n);
  f(n, x, &a[0]);
  g(n, x, &b[0]);
  for (uint32_t i = 0; i < n; i++) { std::cout << "at " << x[i] << std::endl; show(a[i], b[i]); }
}
void badPrintedPairOrder(const std::string &name, fun f, fun g, double x) { std::cout << name << "(" << x << ")\n"; show(g(x), f(x)); }
void badPrintedPairSame(const std::string &name, fun f, fun g, double x) { std::cout << name << "(" << x << ")\n"; show(f(x), f(x)); }
void badPrintedPairBits(const std::string &name, fun f, fun g, double x) {
  std::cout << name << "(" << x << ")\n" << std::setprecision(10) << f(x) << " and " << g(x) << ": " << diffbit(f(x), x) << "\n" << getbsasstr(f(x)) << "\n" << getbsasstr(g(x)) << "\n"; }
void badPrintedPairsSkip(const std::string &name, fun f, fun g, double *x, uint32_t n) { for (uint32_t i = 1; i < n; i++) goodPrintedPair(name, f, g, x[i]); }
void badPrintedArraysOnce(const std::string &name, funv f, funv g, double *x, uint32_t n) {
  std::cout << name << "\n";
  vec a(n), b(n);
  f(n, x, &a[0]);
  for (uint32_t i = 0; i < n; i++) { std::cout << "at " << x[i] << std::endl; show(a[i], b[i]); }
}
