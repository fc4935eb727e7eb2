// Controls of the comparison-program analysis.
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
class CmdOptions { public: CmdOptions(); int parseCmd(int, char**); bool isSet(const std::string); std::string getArgument(const std::string); };
void list2vector(std::string l, std::vector<std::string>* v, char s = ',');
template <class T> class fcnResponse1D { public: fcnResponse1D(const std::string&); std::vector<T>& getInput(); std::vector<T>& getOutput(); };
template <class T> class fcnResponse2D { public: fcnResponse2D(const std::string&); std::vector<T>& getInput1(); std::vector<T>& getInput2(); std::vector<T>& getOutput(); };
template <class T> class fcnComparison1D { public: fcnComparison1D(const std::string&, const std::vector<T>&, const std::vector<T>&, const std::vector<T>&); void printStats(bool); void writeFile(const std::string&); };
template <class T> class fcnComparison2D { public: fcnComparison2D(const std::string&, const std::vector<T>&, const std::vector<T>&, const std::vector<T>&, const std::vector<T>&); void printStats(bool); void writeFile(const std::string&); };
struct Job { std::string nick, ref, test, name; };
static std::string title(const Job& j){ return j.name + " " + j.ref.substr(0, j.ref.find("__")) + " VS " + j.test.substr(0, j.test.find("__")); }
template <class T> void plain(const Job& j){
    fcnResponse1D<T> r(j.ref), t(j.test);
    fcnComparison1D<T> c(title(j), r.getInput(), r.getOutput(), t.getOutput());
    c.printStats(true); c.writeFile("comparison__" + j.nick + "__" + j.name + ".txt");
}
template <class T> void two(const Job& j){
    fcnResponse2D<T> r(j.ref), t(j.test);
    fcnComparison2D<T> c(title(j), r.getInput1(), r.getInput2(), r.getOutput(), t.getOutput());
    c.writeFile("comparison__" + j.nick + "__" + j.name + ".txt"); c.printStats(true);
}
template <class T> void swapped(const Job& j){
    fcnResponse1D<T> r(j.ref), t(j.test);
    fcnComparison1D<T> c(title(j), r.getInput(), t.getOutput(), r.getOutput());
    c.printStats(true); c.writeFile("comparison__" + j.nick + "__" + j.name + ".txt");
}
template <class T> void otherin(const Job& j){
    fcnResponse2D<T> r(j.ref), t(j.test);
    fcnComparison2D<T> c(title(j), r.getInput1(), r.getInput1(), r.getOutput(), t.getOutput());
    c.writeFile("comparison__" + j.nick + "__" + j.name + ".txt"); c.printStats(true);
}
#define START(BAD) CmdOptions o; if (!o.parseCmd(argc, argv)) return BAD; if (o.isSet("-h")) return 0; \
    Job j; j.nick = o.getArgument("-n"); if (j.nick.empty()) return 1; \
    std::vector<std::string> ref, test; list2vector(o.getArgument("-R"), &ref); list2vector(o.getArgument("-T"), &test);
#define HEAD std::string l; std::getline(f, l); std::getline(f, l); const bool dp = l == "Double Precision"; std::getline(f, l); l = l.substr(l.find('=') + 2); j.name = l.substr(l.find('_') + 1);
#define RUN(P, Q) if (j.ref.find("Atan2") != std::string::npos) { if (dp) Q<double>(j); else Q<float>(j); } else { if (dp) P<double>(j); else P<float>(j); }
int good1(int argc, char** argv){
    START(1)
    if (ref.empty() || test.empty() || ref.size() != test.size()) return 2;
    for (std::size_t i = 0; i < ref.size(); ++i) {
        j.ref = ref[i]; j.test = test[i];
        std::ifstream f(j.ref); if (!f) continue;
        HEAD
        std::ifstream g(j.test); if (!g.good()) { std::cout << "skipped\n"; continue; }
        RUN(plain, two)
    }
    return 0;
}
int good2(int argc, char** argv){
    START(1)
    if (!ref.size() || !test.size()) return 1;
    if (ref.size() != test.size()) { std::cout << "sizes\n"; return 1; }
    unsigned i = 0;
    while (i < test.size()) {
        const std::string& r = ref[i]; const std::string& t = test[i]; ++i;
        std::ifstream f(r); std::ifstream g(t);
        if (f.is_open() && g.is_open()) { j.ref = r; j.test = t; HEAD RUN(plain, two) }
    }
    return 0;
}
#define BODY(FIRST, N, A, B, P, Q) for (std::size_t i = FIRST; i < N; ++i) { j.ref = ref[A]; j.test = test[B]; std::ifstream f(j.ref); if (!f.is_open()) continue; HEAD f.close(); f.open(j.test); if (!f.is_open()) continue; RUN(P, Q) } return 0;
#define GUARD if (ref.empty() || test.empty() || ref.size() != test.size()) return 2;
int good3(int argc, char** argv){ START(1) GUARD BODY(0, ref.size(), i, i, plain, two) }
int bad_swapped(int argc, char** argv){ START(1) GUARD BODY(0, ref.size(), i, i, swapped, two) }
int bad_inputs(int argc, char** argv){ START(1) GUARD BODY(0, ref.size(), i, i, plain, otherin) }
int bad_first(int argc, char** argv){ START(1) GUARD BODY(1, ref.size(), i, i, plain, two) }
int bad_index(int argc, char** argv){ START(1) GUARD BODY(0, ref.size(), i, 0, plain, two) }
int bad_status(int argc, char** argv){ START(0) GUARD BODY(0, ref.size(), i, i, plain, two) }
int bad_lengths(int argc, char** argv){ START(1) if (ref.empty() || test.empty()) return 1; BODY(0, ref.size(), i, i, plain, two) }
int bad_precision(int argc, char** argv){
    START(1) GUARD
    for (std::size_t i = 0; i < ref.size(); ++i) {
        j.ref = ref[i]; j.test = test[i];
        std::ifstream f(j.test); if (!f) continue;
        HEAD
        std::ifstream g(j.ref); if (!g) continue;
        RUN(plain, two)
    }
    return 0;
}
int bad_missing(int argc, char** argv){
    START(1) GUARD
    for (std::size_t i = 0; i < ref.size(); ++i) { j.ref = ref[i]; j.test = test[i]; std::ifstream f(j.ref); if (!f) continue; HEAD RUN(plain, two) }
    return 0;
}
int bad_file(int argc, char** argv){
    START(1) GUARD
    for (std::size_t i = 0; i < ref.size(); ++i) {
        j.ref = ref[i]; j.test = test[i];
        std::ifstream f(j.ref), g(j.test); if (!f || !g) continue;
        HEAD
        j.name = l;
        RUN(plain, two)
    }
    return 0;
}
int bad_break(int argc, char** argv){
    START(1) GUARD
    for (std::size_t i = 0; i < ref.size(); ++i) {
        j.ref = ref[i]; j.test = test[i];
        std::ifstream f(j.ref), g(j.test); if (!f || !g) break;
        HEAD
        RUN(plain, two)
    }
    return 0;
}
