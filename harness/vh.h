// shared helpers of the bounded native checks
#ifndef VH_H
#define VH_H
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <fstream>
#include <functional>
#include <algorithm>
namespace vh {
struct Opts { std::string tier = "quick", dir = "."; uint64_t seed = 1; int part = 0, parts = 1; bool replay = false; std::vector<std::string> rest; };
inline Opts opts;
inline long cases = 0, fails = 0;
inline std::map<std::string, long> fail_ids;
inline std::string show(const std::string& s) {
  std::string o = "\""; char b[8];
  for (unsigned char c : s) if (c < 32 || c >= 127 || c == '"' || c == '\\') { snprintf(b, 8, "\\x%02x", c); o += b; } else o += c;
  return o + "\"";
}
inline std::string show(const std::vector<std::string>& v) { std::string o = "["; for (auto& x : v) o += (o.size() > 1 ? ", " : "") + show(x); return o + "]"; }
inline void fail(const std::string& id, const std::string& text) {
  ++fails;
  if (fail_ids[id]++ < 3) { printf("FAIL %s %s\n", id.c_str(), text.c_str()); fflush(stdout); }
}
#define VH_CHECK(id, cond, text) do { ++vh::cases; if (!(cond)) { std::ostringstream vh_o; vh_o << text; vh::fail(id, vh_o.str()); } } while (0)
struct Rng { uint64_t s; Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {} 
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  size_t operator()(size_t n) { return n ? (next() >> 11) % n : 0; } bool coin(int p = 50) { return (*this)(100) < (size_t)p; } };
inline void parse(int argc, char** argv) {
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "replay") opts.replay = true;
    else if (!a.compare(0, 5, "tier=")) opts.tier = a.substr(5);
    else if (!a.compare(0, 5, "seed=")) opts.seed = strtoull(a.c_str() + 5, 0, 10);
    else if (!a.compare(0, 4, "dir=")) opts.dir = a.substr(4);
    else if (!a.compare(0, 5, "part=")) sscanf(a.c_str() + 5, "%d/%d", &opts.part, &opts.parts);
    else opts.rest.push_back(a); }
}
inline bool thorough() { return opts.tier == "thorough"; }
inline long scale(long q, long t) { return thorough() ? t : q; }
inline int finish() { printf("CASES %ld\n", cases); if (fails) printf("FAILED %ld\n", fails); fflush(stdout); return fails ? 1 : 0; }
// runs f, reports an escaping exception as a failure
template <class F> bool guarded(const std::string& id, const std::string& what, F f) {
  try { f(); return true; } catch (const std::exception& e) { fail(id, what + " threw " + e.what()); } catch (...) { fail(id, what + " threw"); }
  return false;
}
inline std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
}
#endif
