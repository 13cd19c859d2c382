// Bounded contract execution harness: common part.
// Every check carries the ids of the properties it belongs to; a run is for one property (--prop) and reports
// only failures of that property; any other disagreement just ends the current history (Skip).
#ifndef VH_HPP
#define VH_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csetjmp>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <unordered_set>
#include <functional>
#include <new>
namespace vh {
static std::string prop = "?";
static uint64_t seed = 1;
static bool thorough = false;
static unsigned long long evals = 0, histories = 0, skipped = 0;
static std::unordered_set<uint64_t> seen;
static std::vector<std::string> samples;
static std::string cur_case;      // configuration
static std::string hist;          // operations so far
static const char* cur_tags = ""; // properties blamed for a crash in the running operation
static std::string only_case;
static double t_start = 0, t_limit = 60;
static sigjmp_buf jb;
static volatile sig_atomic_t armed = 0;
struct Skip {};
inline double now() { timeval tv; gettimeofday(&tv, 0); return tv.tv_sec + tv.tv_usec * 1e-6; }
inline bool time_up() { return now() - t_start > t_limit; }
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  unsigned below(unsigned n) { return n ? unsigned(next() % n) : 0; } bool flip() { return next() & 1; } };
inline bool tagged(const char* tags) { return strstr(tags, prop.c_str()) != 0; }
inline std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') r += ' '; else r += c; } return r; }
inline void stats() {
  printf("STATS {\"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"histories\": %llu, \"skipped\": %llu, \"samples\": [", evals, (unsigned long long)seen.size(), histories, skipped);
  for (size_t i = 0; i < samples.size(); ++i) printf("%s\"%s\"", i ? ", " : "", esc(samples[i]).c_str());
  printf("]}\n"); fflush(stdout);
}
[[noreturn]] inline void fail(const std::string& what) {
  printf("FAIL [%s] %s | history: %s\n", cur_case.c_str(), what.c_str(), hist.c_str()); stats(); fflush(stdout); _exit(1);
}
inline void check(const char* tags, bool ok, const char* what, const std::string& more = std::string()) {
  ++evals;
  if (ok) return;
  if (tagged(tags)) fail(std::string(what) + (more.empty() ? "" : " (" + more + ")"));
  if (getenv("VH_VERBOSE")) fprintf(stderr, "other property: %s %s %s | %s\n", tags, what, more.c_str(), hist.c_str());
  throw Skip();
}
#define CHK(tags, cond, ...) ::vh::check(tags, !!(cond), #cond, ##__VA_ARGS__)
inline void op(const char* tags, const std::string& s) { cur_tags = tags; if (hist.size() < 20000) { hist += s; hist += "; "; } }
inline void handler(int sig) {
  if (tagged(cur_tags)) { std::string w = sig == SIGVTALRM || sig == SIGALRM ? "operation does not terminate" : sig == SIGABRT ? "library assertion failed" : "crash"; fail(w); }
  if (armed) { sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, 0); siglongjmp(jb, sig); }
  stats(); _exit(0);
}
inline void install() {
  static char alt[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = handler; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  int sg[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGVTALRM};
  for (int s : sg) sigaction(s, &sa, 0);
}
inline void timer(int sec) { itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec; setitimer(ITIMER_VIRTUAL, &it, 0); }
// run one history; containers and elements it creates are leaked when it is abandoned
template <class F> void history(const std::string& c, F f, const char* tags0 = "") {
  if (!only_case.empty() && c.find(only_case) == std::string::npos) return;
  cur_case = c; hist.clear(); cur_tags = tags0; ++histories;
  timer(5);
  if (sigsetjmp(jb, 1) == 0) { armed = 1; try { f(); } catch (Skip&) { ++skipped; } } else ++skipped;
  armed = 0; timer(0);
  if (samples.size() < 6 && (histories & (histories - 1)) == 0 && hist.size() < 600) samples.push_back(c + ": " + hist);
}
inline void note_state(uint64_t h) { if (seen.size() < 2000000) seen.insert(h); }
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
inline std::string S(long long v) { return std::to_string(v); }
template <class V> std::string seq(const V& v) { std::string r = "["; for (auto& x : v) { r += std::to_string((long long)x); r += ' '; } return r + "]"; }
inline void init(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--seed" && i + 1 < argc) seed = strtoull(argv[++i], 0, 10);
    else if (a == "--tier" && i + 1 < argc) thorough = std::string(argv[++i]) == "thorough";
    else if (a == "--prop" && i + 1 < argc) prop = argv[++i];
    else if (a == "--case" && i + 1 < argc) only_case = argv[++i];
    else if (a == "--limit" && i + 1 < argc) t_limit = atof(argv[++i]);
  }
  if (thorough) t_limit *= 15;
  t_start = now(); setvbuf(stdout, 0, _IOLBF, 0); if (!getenv("VH_VERBOSE")) { if (!freopen("/dev/null", "w", stderr)) {} } install();
}
inline int done() { stats(); printf("OK %s\n", prop.c_str()); return 0; }
// exception thrown by injected functors
struct Boom { };
static long fuse = -1;      // <0: never
inline void tick() { if (fuse >= 0 && fuse-- == 0) throw Boom(); }
}
using vh::S;
#endif
