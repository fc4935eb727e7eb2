// Controls of the command-line analysis: each namespace is the body of one translation unit.
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace good_plain {
class CmdOptions {
  std::map<std::string, std::string> got;
  std::vector<std::pair<std::string, std::string>> all;
public:
  CmdOptions() { addOption("-h", "--help"); }
  void addOption(std::string s, std::string l) { all.push_back(std::make_pair(s, l)); }
  int parseCmd(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      const std::string word(argv[i]);
      const std::string::size_type eq = word.find_first_of("=");
      const std::string name = eq == std::string::npos ? word : word.substr(0, eq);
      std::string arg;
      if (eq != std::string::npos) arg = word.substr(eq + 1);
      bool known = false;
      for (const auto& o : all) {
        if (name != o.first && name != o.second) continue;
        if (!got.emplace(o.first, arg).second) return 0;
        known = true;
        break;
      }
      if (!known) return 0;
    }
    if (isSet("-h")) for (const auto& o : all) std::cout << o.first << " or " << o.second << "\n";
    return 1;
  }
  bool isSet(const std::string& s) const { return got.count(s) != 0; }
  std::string getArgument(const std::string& s) const { auto it = got.find(s); return it == got.end() ? std::string() : it->second; }
};
}  // end

namespace bad_last_equal {
class CmdOptions {
  std::map<std::string, std::string> got;
  std::vector<std::pair<std::string, std::string>> all;
public:
  CmdOptions() { addOption("-h", "--help"); }
  void addOption(std::string s, std::string l) { all.push_back(std::make_pair(s, l)); }
  int parseCmd(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string word(argv[i]);
      int eq = word.rfind('=');
      std::string name = eq > 0 ? word.substr(0, eq) : word;
      bool known = false;
      for (unsigned j = 0; j < all.size() && !known; ++j)
        if (name == all[j].first || name == all[j].second) {
          if (got.count(all[j].first)) return 0;
          got[all[j].first] = eq > 0 ? word.substr(eq + 1) : "";
          known = true;
        }
      if (!known) return 0;
    }
    if (isSet("-h")) for (unsigned j = 0; j < all.size(); ++j) std::cout << all[j].first << " " << all[j].second << "\n";
    return 1;
  }
  bool isSet(std::string s) { return got.count(s) > 0; }
  std::string getArgument(std::string s) { return isSet(s) ? got[s] : ""; }
};
}  // end

namespace bad_last_wins {
class CmdOptions {
  std::map<std::string, std::string> got;
  std::vector<std::pair<std::string, std::string>> all;
public:
  CmdOptions() { addOption("-h", "--help"); }
  void addOption(std::string s, std::string l) { all.push_back(std::make_pair(s, l)); }
  int parseCmd(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string word(argv[i]);
      int eq = word.find('=');
      std::string name = eq > 0 ? word.substr(0, eq) : word;
      bool known = false;
      for (unsigned j = 0; j < all.size(); ++j)
        if (name == all[j].first || name == all[j].second) {
          got[all[j].first] = eq > 0 ? word.substr(eq + 1) : "";
          known = true;
        }
      if (!known) return 0;
    }
    if (isSet("-h")) for (unsigned j = 0; j < all.size(); ++j) std::cout << all[j].first << " " << all[j].second << "\n";
    return 1;
  }
  bool isSet(std::string s) { return got.count(s) > 0; }
  std::string getArgument(std::string s) { return isSet(s) ? got[s] : ""; }
};
}  // end

namespace bad_prefix {
class CmdOptions {
  std::map<std::string, std::string> got;
  std::vector<std::pair<std::string, std::string>> all;
public:
  CmdOptions() { addOption("-h", "--help"); }
  void addOption(std::string s, std::string l) { all.push_back(std::make_pair(s, l)); }
  int parseCmd(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string word(argv[i]);
      int eq = word.find('=');
      std::string name = eq > 0 ? word.substr(0, eq) : word;
      bool known = false;
      for (unsigned j = 0; j < all.size(); ++j)
        if (name.compare(0, 2, all[j].first) == 0 || name == all[j].second) {
          if (got.count(all[j].first)) return 0;
          got[all[j].first] = eq > 0 ? word.substr(eq + 1) : "";
          known = true;
        }
      if (!known) return 0;
    }
    if (isSet("-h")) for (unsigned j = 0; j < all.size(); ++j) std::cout << all[j].first << " " << all[j].second << "\n";
    return 1;
  }
  bool isSet(std::string s) { return got.count(s) > 0; }
  std::string getArgument(std::string s) { return isSet(s) ? got[s] : ""; }
};
}  // end

namespace bad_stops_after_first {
class CmdOptions {
  std::map<std::string, std::string> got;
  std::vector<std::pair<std::string, std::string>> all;
public:
  CmdOptions() { addOption("-h", "--help"); }
  void addOption(std::string s, std::string l) { all.push_back(std::make_pair(s, l)); }
  int parseCmd(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string word(argv[i]);
      int eq = word.find('=');
      std::string name = eq > 0 ? word.substr(0, eq) : word;
      for (unsigned j = 0; j < all.size(); ++j)
        if (name == all[j].first || name == all[j].second) {
          if (got.count(all[j].first)) return 0;
          got[all[j].first] = eq > 0 ? word.substr(eq + 1) : "";
          if (j == 0) std::cout << "-h --help -n --nick -x --extra";
          return 1;
        }
      return 0;
    }
    return 1;
  }
  bool isSet(std::string s) { return got.count(s) > 0; }
  std::string getArgument(std::string s) { return isSet(s) ? got[s] : ""; }
};
}  // end

namespace bad_help {
class CmdOptions {
  std::map<std::string, std::string> got;
  std::vector<std::pair<std::string, std::string>> all;
public:
  CmdOptions() { addOption("-h", "--help"); }
  void addOption(std::string s, std::string l) { all.push_back(std::make_pair(s, l)); }
  int parseCmd(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string word(argv[i]);
      int eq = word.find('=');
      std::string name = eq > 0 ? word.substr(0, eq) : word;
      bool known = false;
      for (unsigned j = 0; j < all.size(); ++j)
        if (name == all[j].first || name == all[j].second) {
          if (got.count(all[j].first)) return 0;
          got[all[j].first] = eq > 0 ? word.substr(eq + 1) : "";
          known = true;
        }
      if (!known) return 0;
    }
    if (isSet("-h")) for (unsigned j = 1; j < all.size(); ++j) std::cout << all[j].first << " " << all[j].second << "\n";
    return 1;
  }
  bool isSet(std::string s) { return got.count(s) > 0; }
  std::string getArgument(std::string s) { return isSet(s) ? got[s] : ""; }
};
}  // end

namespace good_split {
void split(std::string s, std::vector<std::string>* v, char sep = ',') {
  v->clear();
  std::string::size_type from = 0, to;
  while ((to = s.find(sep, from)) != std::string::npos) {
    v->push_back(s.substr(from, to - from));
    from = to + 1;
  }
  if (from < s.size()) v->push_back(s.substr(from));
}
}  // end

namespace good_split_stream {
std::vector<std::string> split(const std::string& s) {
  std::vector<std::string> v;
  std::istringstream in(s);
  std::string one;
  while (std::getline(in, one, ',')) v.push_back(one);
  return v;
}
}  // end

namespace bad_split_last {
void split(std::string s, std::vector<std::string>& v, char sep = ',') {
  v.clear();
  std::string::size_type from = 0, to;
  while ((to = s.find(sep, from)) != std::string::npos) {
    v.push_back(s.substr(from, to - from));
    from = to + 1;
  }
}
}  // end

namespace bad_split_length {
void split(std::string s, std::vector<std::string>& v, char sep = ',') {
  v.clear();
  std::string::size_type from = 0, to;
  while ((to = s.find(sep, from)) != std::string::npos) {
    v.push_back(s.substr(from, to));
    from = to + 1;
  }
  if (from < s.size()) v.push_back(s.substr(from));
}
}  // end

namespace bad_split_keeps {
void split(std::string s, std::vector<std::string>& v, char sep = ',') {
  std::string::size_type from = 0, to;
  while ((to = s.find(sep, from)) != std::string::npos) {
    v.push_back(s.substr(from, to - from));
    from = to + 1;
  }
  if (from < s.size()) v.push_back(s.substr(from));
}
}  // end

namespace bad_split_empty {
void split(std::string s, std::vector<std::string>& v, char sep = ',') {
  v.clear();
  std::string::size_type from = 0, to;
  while ((to = s.find(sep, from)) != std::string::npos) {
    if (to > from) v.push_back(s.substr(from, to - from));
    from = to + 1;
  }
  if (from < s.size()) v.push_back(s.substr(from));
}
}  // end

namespace good_split_characters {
void split(std::string s, std::vector<std::string>& v, char sep = ',') {
  v.clear();
  std::string one;
  for (std::string::size_type i = 0; i < s.size(); ++i) {
    if (s[i] == sep) { v.push_back(one); one.clear(); }
    else one += s[i];
  }
  if (!one.empty()) v.push_back(one);
}
}  // end

namespace bad_split_cut {
void split(std::string s, std::vector<std::string>& v, char sep = ',') {
  v.clear();
  std::string::size_type from = 0, to;
  while ((to = s.find(sep, from)) != std::string::npos) {
    v.push_back(s.substr(from, to - from));
    from = to + 1;
  }
  if (from < s.size()) v.push_back(s.substr(from + 1));
}
}  // end
