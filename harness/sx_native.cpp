// Native implementation of sx_api.h: replays a solver model against the real
// code.  Usage: replay <entry> <model file>.   Exit status:
//   0 property held   1 violated (REPLAY-VIOLATION line)   77 assumptions not met
#include "sx_api.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <mutex>
#include <condition_variable>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <atomic>
#include <pthread.h>
#include <unistd.h>
static std::map<std::string, std::string> g_model;
static std::map<std::string, int> g_cnt;
static bool g_strict = true;
static std::string uniq(const char *n) { int k = g_cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
static bool lookup(const char *n, std::string &v) { auto it = g_model.find(uniq(n)); if (it == g_model.end()) return false; v = it->second; return true; }
static double num(const std::string &v) {
  if (v.rfind("q:", 0) == 0) {
    std::string s = v.substr(2); size_t k = s.find('/'); 
    auto big = [](std::string t) { // "-123.0" style or "(- 5)" decimal integers of any length
      long double r = 0; bool neg = false; for (char c : t) { if (c == '-') neg = true; else if (c >= '0' && c <= '9') r = r * 10 + (c - '0'); else if (c == '.') break; } return neg ? -r : r; };
    if (k == std::string::npos) return (double)big(s);
    return (double)(big(s.substr(0, k)) / big(s.substr(k + 1)));
  }
  if (v.rfind("d:", 0) == 0) { unsigned long u = strtoul(v.c_str() + 2, 0, 10); double d; memcpy(&d, &u, 8); return d; }
  if (v.rfind("f:", 0) == 0) { unsigned u = strtoul(v.c_str() + 2, 0, 10); float d; memcpy(&d, &u, 4); return d; }
  return (double)strtol(v.c_str(), 0, 10);
}
static long geti(const char *n) { std::string v; return lookup(n, v) ? strtol(v.c_str(), 0, 10) : 0; }
[[noreturn]] static void fin(int c) { fflush(stdout); fflush(stderr); _exit(c); }
static void fail(const char *l, const std::string &d = "") { printf("REPLAY-VIOLATION %s %s\n", l, d.c_str()); fin(1); }
extern "C" {
int sx_int(const char *n) { return (int)geti(n); }
long sx_i64(const char *n) { return geti(n); }
unsigned char sx_u8(const char *n) { return (unsigned char)geti(n); }
int sx_bool(const char *n) { return geti(n) != 0; }
double sx_real(const char *n) { std::string v; return lookup(n, v) ? num(v) : 0; }
float sx_realf(const char *n) { std::string v; return lookup(n, v) ? (float)num(v) : 0; }
int sx_range(const char *n, int lo, int hi) { std::string v; int r = lookup(n, v) ? (int)strtol(v.c_str(), 0, 10) : lo; if (r < lo || r > hi) { printf("REPLAY-OUTSIDE %s\n", n); fin(77); } return r; }
int sx_choose(const char *n, int lo, int hi) { return sx_range(n, lo, hi); }
int sx_concrete(int v) { return v; }
int sx_branch(int c) { return c; }
void sx_assume(int c) { if (!c) { printf("REPLAY-ASSUME\n"); fin(77); } }
void sx_prove(int c, const char *l) { if (!c) fail(l); }
static bool near(double a, double b, double t) { return std::fabs(a - b) <= t; }
void sx_prove_eq(double a, double b, const char *l) { if (!near(a, b, 1e-5 * (1 + std::fabs(a) + std::fabs(b)))) { char t[100]; snprintf(t, 100, "%.17g != %.17g", a, b); fail(l, t); } }
void sx_prove_close(double a, double b, double tol, const char *l) { if (!near(a, b, tol * 1.0001 + 1e-9)) { char t[100]; snprintf(t, 100, "%.17g !~ %.17g", a, b); fail(l, t); } }
void sx_prove_eqi(long a, long b, const char *l) { if (a != b) { char t[100]; snprintf(t, 100, "%ld != %ld", a, b); fail(l, t); } }
void sx_reach(const char *) {}
void sx_fault_is_violation(int) {}
int sx_is_sym(double) { return 0; }
int sx_same(double a, double b) { return near(a, b, 1e-5 * (1 + std::fabs(a) + std::fabs(b))); }
int sx_is_symi(int) { return 0; }
void sx_fork_selects(int) {}
void sx_fact_ge(double, double) {}
int sx_symbolic_run(void) { return 0; }
void sx_note(const char *, int) {}
void sx_log(const char *) {}
void sx_logd(const char *s, double v) { if (getenv("SX_LOG")) fprintf(stderr, "%s %.17g\n", s, v); }
void sx_logi(const char *s, int v) { if (getenv("SX_LOG")) fprintf(stderr, "%s %d\n", s, v); }
void sx_unsupported(const char *w) { printf("REPLAY-UNSUPPORTED %s\n", w); fin(77); }
void sx_fault(const char *k, const char *m) { fail(k, m); }
void sx_end_path(void) { printf("REPLAY-OK\n"); fin(0); }
static uint64_t hashS(const char *s, uint64_t h = 1469598103934665603ULL) { for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ULL; return h; }
static double unit(uint64_t &h) { h ^= h >> 12; h ^= h << 25; h ^= h >> 27; return ((h * 2685821657736338717ULL) >> 11) / 9007199254740992.0; }
double sx_uf(const char *n, const double *a, int k) { uint64_t h = hashS(n); for (int i = 0; i < k; i++) { uint64_t u; double d = a[i]; memcpy(&u, &d, 8); h = (h ^ u) * 1099511628211ULL; } h |= 1; unit(h); return unit(h) * 2 - 1; }
double sx_ite(int c, double a, double b) { return c ? a : b; }
int sx_lt(double a, double b) { return a < b; }
void sx_pose_gen(const char *n, double r[3], double t[3]) {
  std::string u = uniq(n); uint64_t h = hashS(u.c_str()) | 1; unit(h); unit(h);
  double s = 0; for (int i = 0; i < 3; i++) { r[i] = unit(h) * 2 - 1; s += r[i] * r[i]; } s = std::sqrt(s); double th = 0.3 + 0.9 * unit(h);
  for (int i = 0; i < 3; i++) { r[i] *= th / s; t[i] = unit(h) * 4 - 2; }
}
int sx_m_mul(const double *, const double *, double *, int) { return 0; }
int sx_m_inv(const double *, double *, int) { return 0; }
int sx_rod_v2m(const double *, double *) { return 0; }
int sx_rod_m2v(const double *, double *) { return 0; }
}
// ---- cooperative tasks: the schedule of the model is replayed at lock operations
// (raw pthread calls: the inline members of std::mutex are redirected, see native_pre.h)
namespace {
struct Task { int id; bool done = false; void *wait = nullptr; bool joining = false; void (*fn)(void *) = nullptr; void *arg = nullptr; pthread_t th; };
std::vector<Task *> tasks; int cur = 0; pthread_mutex_t gm = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t gc = PTHREAD_COND_INITIALIZER; std::map<void *, int> owner; bool coop = false; thread_local int me = 0;
std::vector<pthread_t> thr;
bool runnable(Task *t) { if (t->done) return false; if (t->wait) return !owner.count(t->wait); if (t->joining) { for (auto *o : tasks) if (o->id != t->id && !o->done) return false; return true; } return true; }
void pick() { // called with gm held by the running task
  std::vector<int> r; for (auto *t : tasks) if (runnable(t)) r.push_back(t->id);
  if (r.empty()) { printf("REPLAY-VIOLATION deadlock\n"); fin(1); }
  int p = r[0]; if (r.size() > 1) { int w = (int)geti("sched"); for (int x : r) if (x == w) p = x; }
  cur = p; Task *t = tasks[p]; if (t->wait) { owner[t->wait] = p; t->wait = nullptr; } t->joining = false; pthread_cond_broadcast(&gc);
}
bool realThreads() { return getenv("SX_REAL_THREADS") != nullptr; }
void *body(void *p) {
  Task *t = (Task *)p;
  if (!realThreads()) { me = t->id; pthread_mutex_lock(&gm); while (cur != t->id) pthread_cond_wait(&gc, &gm); pthread_mutex_unlock(&gm); }
  t->fn(t->arg);
  if (!realThreads()) { pthread_mutex_lock(&gm); t->done = true; pick(); pthread_mutex_unlock(&gm); }
  return nullptr;
}
}
extern "C" {
void sx_thread(void (*fn)(void *), void *arg) {
  if (tasks.empty()) tasks.push_back(new Task{0});
  Task *t = new Task; t->id = (int)tasks.size(); t->fn = fn; t->arg = arg; tasks.push_back(t); coop = true;
  pthread_create(&t->th, nullptr, body, t); thr.push_back(t->th);
}
void sx_join(void) {
  if (!realThreads() && coop) { pthread_mutex_lock(&gm); tasks[0]->joining = true; pick(); while (cur != 0) pthread_cond_wait(&gc, &gm); pthread_mutex_unlock(&gm); }
  for (auto t : thr) pthread_join(t, nullptr);
  thr.clear();
}
int sx_mutex_lock(pthread_mutex_t *m) {
  if (realThreads() || !coop) { int r = pthread_mutex_lock(m); if (realThreads() && coop) usleep(20000); return r; } // long critical sections make unsynchronised accesses overlap
  pthread_mutex_lock(&gm); tasks[me]->wait = m; pick(); while (cur != me) pthread_cond_wait(&gc, &gm); pthread_mutex_unlock(&gm); return 0;
}
int sx_mutex_trylock(pthread_mutex_t *m) {
  if (realThreads()) { int r = pthread_mutex_trylock(m); if (!r) usleep(20000); return r; }
  static int fails; if (fails < 2 && geti("trylock")) { fails++; return 16; } return sx_mutex_lock(m);
}
int sx_mutex_unlock(pthread_mutex_t *m) {
  if (realThreads() || !coop) return pthread_mutex_unlock(m);
  pthread_mutex_lock(&gm); owner.erase(m); pthread_mutex_unlock(&gm); return 0;
}
}
int main(int argc, char **argv) {
  if (argc < 3) return 3;
  FILE *f = fopen(argv[2], "r"); char b[4096];
  while (f && fgets(b, sizeof b, f)) { std::string s = b; while (!s.empty() && (s.back() == '\n')) s.pop_back(); size_t k = s.find('\t'); if (k != std::string::npos) g_model[s.substr(0, k)] = s.substr(k + 1); }
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { printf("no entry %s\n", argv[1]); return 3; }
  fn();
  printf("REPLAY-OK\n"); fflush(stdout); _exit(0);
}
