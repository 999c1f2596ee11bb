// Runner: random search, deterministic enumeration, replay and shrinking of choice sequences.
#include "prop.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>

ChoiceLog g_log;
Stats g_stats;
std::map<std::string, Prop>& props() { static std::map<std::string, Prop> p; return p; }
void known_finding(const std::string& id, const std::string& what) { if(!g_stats.known.count(id)) g_stats.known[id] = what; }
std::string hex(const std::string& s, size_t maxlen) {
  static const char* d = "0123456789abcdef"; std::string r;
  for(size_t i = 0; i < s.size() && i < maxlen; ++i) { unsigned char c = s[i]; r += d[c >> 4]; r += d[c & 15]; }
  if(s.size() > maxlen) r += "..(" + std::to_string(s.size()) + " bytes)";
  return r;
}

#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define HAVE_SAN 1
extern "C" void __sanitizer_set_death_callback(void (*cb)(void));
#endif
extern "C" __attribute__((weak)) const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:detect_odr_violation=0"; }
extern "C" __attribute__((weak)) const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=77"; }

static int g_fail_fd = -1;
static const char* g_fixed_msg = nullptr;   // set while in the deterministic part
static volatile int g_dumped = 0;
static void wr(int fd, const char* s) { if(write(fd, s, strlen(s)) < 0) {} }
static void dump_choices(const char* kind) {
  if(g_fail_fd < 0 || g_dumped) return;
  g_dumped = 1;
  wr(g_fail_fd, kind); wr(g_fail_fd, "\n");
  char b[32];
  size_t n = g_log.n;
  for(size_t i = 0; i < n; ++i) { snprintf(b, sizeof b, "%llu\n", (unsigned long long)g_log.v[i]); wr(g_fail_fd, b); }
  fsync(g_fail_fd);
}
static void on_death() { dump_choices(g_fixed_msg ? "FIXEDCRASH" : "CRASH"); }
static void on_alarm(int) { wr(2, "VP-HANG: case exceeded its CPU time limit\n"); dump_choices(g_fixed_msg ? "FIXEDHANG" : "HANG"); _exit(78); }
static void on_sig(int s) { char b[64]; snprintf(b, sizeof b, "VP-SIGNAL %d\n", s); wr(2, b); dump_choices(g_fixed_msg ? "FIXEDCRASH" : "CRASH"); _exit(77); }
static int g_case_limit_s = 20;
static void arm() { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = g_case_limit_s; setitimer(ITIMER_PROF, &t, nullptr); }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// Run one case; returns empty when it held.
static std::string run_case(const Prop& p, Src& s) {
  g_stats.trace.clear();
  arm();
  try { p.run(s); } catch(const Failure& f) { return f.msg.empty() ? "failure" : f.msg; }
  return "";
}
static std::vector<uint64_t> log_copy() { return std::vector<uint64_t>(g_log.v, g_log.v + g_log.n); }
static std::vector<uint64_t> load(const char* path) {
  std::vector<uint64_t> r; FILE* f = fopen(path, "r"); char line[256];
  if(!f) { perror(path); exit(2); }
  while(fgets(line, sizeof line, f)) if(line[0] >= '0' && line[0] <= '9') r.push_back(strtoull(line, nullptr, 10));
  fclose(f); return r;
}
// In a child process: 0 held, 1 failed, 77 crash, 78 hang. used = choices consumed.
static int try_child(const Prop& p, const std::vector<uint64_t>& c, size_t* used) {
  int fd[2]; if(pipe(fd)) return 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if(pid == 0) {
    close(fd[0]); g_fail_fd = -1;
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
    Src s(&c);
    std::string m = run_case(p, s);
    uint64_t n = g_log.n; if(write(fd[1], &n, sizeof n) < 0) {}
    _exit(m.empty() ? 0 : 1);
  }
  close(fd[1]); uint64_t n = c.size(); ssize_t k = read(fd[0], &n, sizeof n); close(fd[0]);
  if(used) *used = k == (ssize_t)sizeof n ? (size_t)n : c.size();
  int st = 0; waitpid(pid, &st, 0);
  if(WIFEXITED(st)) return WEXITSTATUS(st);
  return 77;
}
static std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> c, double budget) {
  const double end = now() + budget; size_t used = 0; long tries = 0;
  int kind = try_child(p, c, &used);
  if(kind == 0) return c;
  g_case_limit_s = kind == 78 ? 3 : 8;
  auto ok = [&](const std::vector<uint64_t>& d) { ++tries; size_t u; int k = try_child(p, d, &u); if(k != 0 && (k == kind)) { used = u; return true; } return false; };
  if(used < c.size()) c.resize(used);
  bool progress = true;
  while(progress && now() < end) {
    progress = false;
    for(size_t len = std::max<size_t>(1, c.size() / 2); len >= 1 && now() < end; len /= 2) {
      for(size_t i = 0; i + len <= c.size() && now() < end; ) {
        std::vector<uint64_t> d(c); d.erase(d.begin() + i, d.begin() + i + len);
        if(ok(d)) { if(used < d.size()) d.resize(used); c = d; progress = true; } else i += len;
      }
      if(len == 1) break;
    }
    for(size_t i = 0; i < c.size() && now() < end; ++i) {
      if(c[i] == 0) continue;
      std::vector<uint64_t> d(c); d[i] = 0;
      if(ok(d)) { if(used < d.size()) d.resize(used); c = d; progress = true; continue; }
      uint64_t lo = 0, hi = c[i];
      while(hi - lo > 1 && now() < end) { uint64_t mid = lo + (hi - lo) / 2; d = c; d[i] = mid; if(ok(d)) { c = d; hi = mid; progress = true; if(i >= c.size()) break; } else lo = mid; }
    }
  }
  return c;
}
static std::string jesc(const std::string& s) {
  std::string r; char b[8];
  for(unsigned char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += c; } else if(c == '\n') r += "\\n"; else if(c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
  return r;
}
static void write_stats(const char* path, const Prop& p, bool fixed_done) {
  FILE* f = fopen(path, "w"); if(!f) return;
  fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"fixed_done\":%s,\"rule\":\"%s\",\"classes\":{", (unsigned long long)g_stats.evaluations, (unsigned long long)g_stats.nontrivial, fixed_done ? "true" : "false", jesc(p.rule).c_str());
  bool first = true;
  for(auto& k : g_stats.classes) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); first = false; }
  fprintf(f, "},\"known\":{"); first = true;
  for(auto& k : g_stats.known) { fprintf(f, "%s\"%s\":\"%s\"", first ? "" : ",", jesc(k.first).c_str(), jesc(k.second).c_str()); first = false; }
  fprintf(f, "},\"samples\":["); first = true;
  for(auto& s : g_stats.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
  fprintf(f, "]}\n"); fclose(f);
  std::string hp = std::string(path) + ".hashes"; f = fopen(hp.c_str(), "wb");
  if(f) { for(uint64_t h : g_stats.distinct) fwrite(&h, 8, 1, f); fclose(f); }
}

// Coverage guided search: the bytes of libFuzzer are the choices of a case.
extern "C" __attribute__((weak)) int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const uint8_t* data, size_t size));
static const Prop* g_fuzz = nullptr; static std::string g_fuzz_out;
static int fuzz_one(const uint8_t* data, size_t n) {
#ifdef HAVE_SAN
  static bool first = true; if(first) { first = false; __sanitizer_set_death_callback(on_death); }   // libFuzzer has put its own
#endif
  Src s(data, n); ++g_stats.evaluations; g_stats.want_trace = false;
  std::string m = run_case(*g_fuzz, s);
  if(!m.empty()) { dump_choices("FAIL"); fprintf(stderr, "FAILED: %s\n", m.c_str()); _exit(1); }
  return 0;
}
static void fuzz_end() { if(g_fuzz && !g_fuzz_out.empty()) write_stats(g_fuzz_out.c_str(), *g_fuzz, false); }

int main(int argc, char** argv) {
  std::string mode, prop, file, out, failfile; uint64_t seed = 1; int worker = 0, nworkers = 1; double secs = 10; uint64_t cases = UINT64_MAX; bool thorough = false;
  for(int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if(a == "--prop") prop = nx(); else if(a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10); else if(a == "--worker") worker = atoi(nx().c_str());
    else if(a == "--workers") nworkers = atoi(nx().c_str()); else if(a == "--secs") secs = atof(nx().c_str()); else if(a == "--cases") cases = strtoull(nx().c_str(), nullptr, 10);
    else if(a == "--stats") out = nx(); else if(a == "--fail") failfile = nx(); else if(a == "--replay") { mode = "replay"; file = nx(); } else if(a == "--shrink") { mode = "shrink"; file = nx(); }
    else if(a == "--fixed") { mode = "fixed"; } else if(a == "--thorough") thorough = true; else if(a == "--list") mode = "list"; else if(a == "--fuzz") { mode = "fuzz"; file = nx(); }
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
  }
  if(mode == "list") { for(auto& k : props()) printf("%s\n", k.first.c_str()); return 0; }
  if(!props().count(prop)) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
  const Prop& p = props()[prop];
#ifdef HAVE_SAN
  __sanitizer_set_death_callback(on_death);
#else
  for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, on_sig);
#endif
  signal(SIGABRT, on_sig);
  signal(SIGPROF, on_alarm);
  if(mode == "replay") {
    auto c = load(file.c_str()); g_stats.replaying = true; g_stats.want_trace = true;
    Src s(&c); std::string m = run_case(p, s);
    printf("%s\n", g_stats.trace.c_str());
    for(auto& k : g_stats.known) printf("known finding %s: %s\n", k.first.c_str(), k.second.c_str());
    if(!m.empty()) { printf("FAILED: %s\n", m.c_str()); return 1; }
    printf("held\n"); return 0;
  }
  if(mode == "shrink") {
    auto c = shrink(p, load(file.c_str()), secs);
    FILE* f = fopen(out.c_str(), "w"); fprintf(f, "CHOICES\n"); for(auto x : c) fprintf(f, "%llu\n", (unsigned long long)x); fclose(f);
    return 0;
  }
  if(!failfile.empty()) g_fail_fd = open(failfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if(mode == "fuzz") {
    if(!LLVMFuzzerRunDriver) { fprintf(stderr, "harness: built without libFuzzer\n"); return 2; }
    g_fuzz = &p; g_fuzz_out = out; atexit(fuzz_end);
    std::vector<std::string> a = {argv[0], "-seed=" + std::to_string(seed * 1000 + (uint64_t)worker + 1), "-max_total_time=" + std::to_string((int)secs), "-max_len=3000", "-timeout=300", "-rss_limit_mb=3500", "-handle_abrt=0", "-handle_segv=0", "-print_final_stats=0", "-verbosity=1", "-use_value_profile=1", file};
    std::vector<char*> v; for(auto& x : a) v.push_back(&x[0]); v.push_back(nullptr);
    int n = (int)a.size(); char** pv = v.data();
    return LLVMFuzzerRunDriver(&n, &pv, fuzz_one);
  }
  bool fixed_done = false;
  if(p.fixed) {
    g_fixed_msg = "fixed"; g_log.n = 0;
    const int save = g_case_limit_s; g_case_limit_s = thorough ? 3000 : 240; arm();
    try { p.fixed(worker, nworkers, thorough); fixed_done = true; }
    catch(const Failure& f) { dump_choices("FIXED"); if(g_fail_fd >= 0) { wr(g_fail_fd, "MSG "); wr(g_fail_fd, f.msg.c_str()); wr(g_fail_fd, "\n"); } fprintf(stderr, "FAILED (fixed part): %s\n", f.msg.c_str()); return 1; }
    g_fixed_msg = nullptr; g_case_limit_s = save;
  }
  if(mode == "fixed") { printf("held\n"); return 0; }
  const double end = now() + secs;
  if(p.run) for(uint64_t i = 0; i < cases; ++i) {
    if((i & 15) == 0 && now() > end) break;
    g_stats.want_trace = worker == 0 && (i == 3 || i == 40 || i == 400 || i == 2000 || i == 9000);
    Src s(seed * 0x100000001B3ull + (uint64_t)worker * 0x9E3779B97F4A7C15ull + i * 0xD1342543DE82EF95ull);
    ++g_stats.evaluations;
    std::string m = run_case(p, s);
    if(!m.empty()) {
      dump_choices("FAIL"); fprintf(stderr, "FAILED: %s\n", m.c_str()); return 1;
    }
    if(g_stats.want_trace && !g_stats.trace.empty()) g_stats.samples.push_back(g_stats.trace.substr(0, 1500));
  }
  if(!out.empty()) write_stats(out.c_str(), p, fixed_done);
  return 0;
}
