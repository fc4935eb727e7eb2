// Controls of the round-trip analysis: good* come back as written, bad* do not.
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <sstream>
#include <string>
#include <vector>
typedef std::vector<double> vec;
static uint64_t bits(double x) { uint64_t u; std::memcpy(&u, &x, sizeof u); return u; }
static uint64_t bits2(double x) { return *reinterpret_cast<uint64_t *>(&x); }
static double number(uint64_t u) { double x; std::memcpy(&x, &u, sizeof x); return x; }
static void skip(std::istream &s, int n) { std::string l; while (n-- > 0) std::getline(s, l); }
static void copyTail(const std::string &from, std::ostream &to, int drop) {
  std::ifstream in(from);
  skip(in, drop);
  to << in.rdbuf();
}

// plain
struct goodPlain {
  vec m_a;
  bool m_file;
  std::string m_name;
  goodPlain(const vec &a, int) : m_a(a), m_file(false) {}
  goodPlain(const std::string &name) : m_file(true), m_name(name) {
    std::ifstream in(name);
    skip(in, 2);
    uint64_t u;
    while (in >> std::hex >> u) m_a.push_back(number(u));
  }
  void writeFile(const std::string &name) {
    std::ofstream out(name);
    if (m_file) {
      out << "header\n";
      copyTail(m_name, out, 1);
      return;
    }
    out << "header\nsecond line\n";
    for (auto x : m_a) out << "0x" << std::hex << bits(x) << std::endl;
  }
};
// two columns, for(;;) with break, iterators
struct goodPairs {
  vec m_a, m_b;
  int m_n = 0;
  goodPairs(const vec &a, const vec &b) : m_a(a), m_b(b) { m_n = 7; }
  goodPairs(const std::string &name) {
    std::ifstream in(name);
    std::string l;
    getline(in, l);
    in >> m_n;
    in.setf(std::ios_base::hex, std::ios_base::basefield);
    for (;;) {
      uint64_t u, v;
      in >> u >> v;
      if (!in) break;
      m_a.push_back(number(u));
      m_b.push_back(number(v));
    }
  }
  void writeFile(const std::string &name) {
    std::ofstream out(name);
    out << "header\n" << m_n << '\n' << std::hex;
    auto j = m_b.begin();
    for (auto i = m_a.begin(); i != m_a.end(); ++i, ++j) out << bits2(*i) << ' ' << bits(*j) << '\n';
  }
};
// decimal with enough digits, for_each with a lambda
struct goodDecimal {
  vec m_a;
  goodDecimal(const vec &a, int) : m_a(a) {}
  goodDecimal(const std::string &name) {
    std::ifstream in(name);
    double x;
    while (in >> x) m_a.push_back(x);
  }
  void writeFile(const std::string &name) {
    std::ofstream out(name);
    out.precision(std::numeric_limits<double>::max_digits10);
    std::for_each(m_a.begin(), m_a.end(), [&out](double x) { out << x << "\n"; });
  }
};
#define READER(NAME, BODY) NAME(const std::string &name) { std::ifstream in(name); BODY }
#define BAD(NAME, READ, WRITE) \
  struct NAME { vec m_a, m_b; int m_n = 0; NAME(const vec &a, const vec &b) : m_a(a), m_b(b) { m_n = 3; } \
    NAME(const std::string &name) { std::ifstream in(name); uint64_t u, v; READ } \
    void writeFile(const std::string &name) { std::ofstream out(name); WRITE } };
#define R2 while (in >> std::hex >> u >> v) { m_a.push_back(number(u)); m_b.push_back(number(v)); }
#define W2 for (size_t i = 0; i < m_a.size(); ++i) out << std::hex << bits(m_a[i]) << " " << bits(m_b[i]) << "\n";
BAD(goodMacro, skip(in, 1); R2, out << "header\n"; W2)
BAD(badSkip, skip(in, 2); R2, out << "header\n"; W2)
BAD(badHeader, skip(in, 1); R2, out << "header\nanother\n"; W2)
BAD(badBase, skip(in, 1); while (in >> u >> v) { m_a.push_back(number(u)); m_b.push_back(number(v)); }, out << "header\n"; W2)
BAD(badGlued, R2, for (size_t i = 0; i < m_a.size(); ++i) out << std::hex << bits(m_a[i]) << bits(m_b[i]) << "\n";)
BAD(badRecord, R2, for (size_t i = 0; i < m_a.size(); ++i) out << std::hex << bits(m_a[i]) << " " << bits(m_b[i]);)
BAD(badSwap, R2, for (size_t i = 0; i < m_a.size(); ++i) out << std::hex << bits(m_b[i]) << " " << bits(m_a[i]) << "\n";)
BAD(badEof, while (!in.eof()) { in >> std::hex >> u >> v; m_a.push_back(number(u)); m_b.push_back(number(v)); }, W2)
BAD(badShort, R2, for (size_t i = 0; i + 1 < m_a.size(); ++i) out << std::hex << bits(m_a[i]) << " " << bits(m_b[i]) << "\n";)
BAD(badCounter, R2, for (uint16_t i = 0; i < m_a.size(); ++i) out << std::hex << bits(m_a[i]) << " " << bits(m_b[i]) << "\n";)
BAD(badDecimal, double x; double y; while (in >> x >> y) { m_a.push_back(x); m_b.push_back(y); },
    for (size_t i = 0; i < m_a.size(); ++i) out << m_a[i] << " " << m_b[i] << "\n";)
BAD(badNarrow, uint32_t s; while (in >> std::hex >> s >> v) { m_a.push_back(number(s)); m_b.push_back(number(v)); }, W2)
BAD(badSign, int64_t s; while (in >> std::hex >> s >> v) { m_a.push_back(number(s)); m_b.push_back(number(v)); }, W2)
BAD(badField, in >> m_n; R2, out << m_n + 1 << "\n"; W2)
BAD(badChar, in >> m_n; R2, out << char(m_n) << "\n"; W2)
BAD(badColumn, while (in >> std::hex >> u >> v) { m_a.push_back(number(u)); m_b.push_back(number(u)); }, W2)
BAD(badName, R2, out.open("elsewhere"); W2)
BAD(goodMode, R2, out.close(); out.open(name, std::ios::out | std::ios::trunc); W2; out.close();)
BAD(goodAppend, R2, out.close(); out.open(name, std::ios::out | std::ios::app); W2)
struct badMode { vec m_a, m_b; badMode(const vec &a, const vec &b) : m_a(a), m_b(b) {}
  badMode(const std::string &name) { std::ifstream in(name); uint64_t u, v; R2 }
  void writeFile(const std::string &name) { std::ofstream out(name, std::ios::app); W2 } };
BAD(badClosed, R2, out << "1 1\n"; out.close(); W2)
BAD(badConvert, while (in >> std::hex >> u >> v) { m_a.push_back(u); m_b.push_back(number(v)); }, W2)
#define ROTATED in >> std::hex; in >> u >> v; while (in) { m_a.push_back(number(u)); m_b.push_back(number(v)); in >> u >> v; }
BAD(goodRotated, skip(in, 1); ROTATED, out << "header\n"; W2)
BAD(badRotated, skip(in, 1); in >> std::hex; in >> u; while (in) { in >> v; m_a.push_back(number(u)); m_b.push_back(number(v)); in >> u; }, out << "header\n"; W2 out << "\n7";)
#define LINES std::string l; while (std::getline(in, l)) { std::istringstream s(l); if (s >> std::hex >> u >> v) { m_a.push_back(number(u)); m_b.push_back(number(v)); } }
BAD(goodLines, skip(in, 1); LINES, out << "header\n"; W2)
BAD(badLines, skip(in, 1); LINES, out << "header\n"; for (size_t i = 0; i < m_a.size(); ++i) out << std::hex << bits(m_a[i]) << "\n" << bits(m_b[i]) << "\n";)
BAD(goodText, skip(in, 1); R2, std::ostringstream t; t << "header\n"; for (size_t i = 0; i < m_a.size(); ++i) t << std::hex << bits(m_a[i]) << " " << bits(m_b[i]) << "\n"; out << t.str();)
BAD(badText, skip(in, 1); R2, std::ostringstream t; t << "header\n"; for (size_t i = 0; i < m_a.size(); ++i) t << std::hex << bits(m_b[i]) << " " << bits(m_a[i]) << "\n"; out << t.str();)
BAD(goodFlags, skip(in, 1); R2, out << "header\n"; for (size_t i = 0; i < m_a.size(); ++i) { auto keep = out.flags(); out << std::hex << bits(m_a[i]); out.flags(keep); out << " " << std::hex << bits(m_b[i]) << "\n"; })
BAD(badFlags, skip(in, 1); R2, out << "header\n"; for (size_t i = 0; i < m_a.size(); ++i) { auto keep = out.flags(); out << std::hex << bits(m_a[i]); out.flags(keep); out << " " << bits(m_b[i]) << "\n"; })
struct badCopy {
  vec m_a;
  bool m_file;
  std::string m_name;
  badCopy(const vec &a, int) : m_a(a), m_file(false) {}
  badCopy(const std::string &name) : m_file(true), m_name(name) {
    std::ifstream in(name);
    skip(in, 2);
    uint64_t u;
    while (in >> std::hex >> u) m_a.push_back(number(u));
  }
  void writeFile(const std::string &name) {
    std::ofstream out(name);
    if (m_file) {
      out << "header\n";
      copyTail(m_name, out, 0);
      return;
    }
    out << "header\nsecond line\n";
    for (auto x : m_a) out << std::hex << bits(x) << " ";
  }
};
