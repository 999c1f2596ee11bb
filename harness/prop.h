// Registration of properties and reporting.
#pragma once
#include "choices.h"
#include <map>
#include <set>
#include <string>
#include <functional>
#include <sstream>

struct Failure { std::string msg; };
[[noreturn]] inline void fail(const std::string& m) { throw Failure{m}; }
#define REQUIRE(cond, msg) do { if(!(cond)) { std::ostringstream os_; os_ << msg; fail(os_.str()); } } while(0)

// Measured coverage of a run.
struct Stats {
  uint64_t evaluations = 0, nontrivial = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, uint64_t> classes;
  std::vector<std::string> samples;
  std::map<std::string, std::string> known;      // known finding id -> example seen in this run
  bool replaying = false;
  std::string trace;                               // description of the case, when replaying or sampling
  bool want_trace = false;
};
extern Stats g_stats;
inline void count(const std::string& cls, uint64_t n = 1) { g_stats.classes[cls] += n; }
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { for(unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
// Mark the current case non-trivial; key identifies it.
inline void nontrivial(const std::string& key) {
  ++g_stats.nontrivial;
  if(g_stats.distinct.size() < 3000000) g_stats.distinct.insert(fnv(key));
}
inline void trace(const std::string& s) { if(g_stats.want_trace) { if(g_stats.trace.size() < 6000) g_stats.trace += s + "\n"; } }
#define TRACE(x) do { if(g_stats.want_trace) { std::ostringstream os_; os_ << x; trace(os_.str()); } } while(0)
void known_finding(const std::string& id, const std::string& what);

struct Prop {
  std::string name;
  std::string rule;
  std::function<void(Src&)> run;
  std::function<void(int worker, int nworkers, bool thorough)> fixed;   // optional deterministic enumeration
};
std::map<std::string, Prop>& props();
struct Reg { Reg(const std::string& n, const std::string& rule, std::function<void(Src&)> f, std::function<void(int,int,bool)> fx = nullptr) { props()[n] = Prop{n, rule, f, fx}; } };

std::string hex(const std::string& s, size_t maxlen = 200);
