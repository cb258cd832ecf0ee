// Models of the out-of-line parts of libstdc++ (symbolic runs only).
#include "sx_api.h"
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <chrono>
#include <list>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

template class std::basic_string<char>;

namespace std {
// ---- list
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; _List_node_base *t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept { sx_unsupported("list swap"); }
// ---- hashing
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t pr[] = {13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273};
  for (size_t p : pr) if (p >= n) { _M_next_resize = p; return p; }
  _M_next_resize = 2 * n + 1; return 2 * n + 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize) { size_t want = elt + ins; if (want < 11 && _M_next_resize == 0) want = 11; if (want > bkt) { size_t a = want + 1, b = bkt * 2; return {true, _M_next_bkt(a > b ? a : b)}; } _M_next_resize = bkt; return {false, 0}; }
  return {false, 0};
}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) h = h * 31 + c[i]; return h; }
// ---- red-black trees
typedef _Rb_tree_node_base *BP;
static BP incr(BP x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { BP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static BP decr(BP x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { BP y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { BP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
BP _Rb_tree_increment(BP x) throw() { return incr(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return incr((BP)x); }
BP _Rb_tree_decrement(BP x) throw() { return decr(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return decr((BP)x); }
static void rotL(BP x, BP &root) { BP y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotR(BP x, BP &root) { BP y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, BP x, BP p, _Rb_tree_node_base &h) throw() {
  BP &root = h._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    BP pp = x->_M_parent->_M_parent;
    if (x->_M_parent == pp->_M_left) {
      BP y = pp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; pp->_M_color = _S_red; x = pp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; pp->_M_color = _S_red; rotR(pp, root); }
    } else {
      BP y = pp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; pp->_M_color = _S_red; x = pp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; pp->_M_color = _S_red; rotL(pp, root); }
    }
  }
  root->_M_color = _S_black;
}
BP _Rb_tree_rebalance_for_erase(BP const z, _Rb_tree_node_base &h) throw() {
  BP &root = h._M_parent, &lm = h._M_left, &rm = h._M_right; BP y = z, x = 0, xp = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (z->_M_right == 0) lm = z->_M_parent; else { BP q = x; while (q->_M_left) q = q->_M_left; lm = q; } }
    if (rm == z) { if (z->_M_left == 0) rm = z->_M_parent; else { BP q = x; while (q->_M_right) q = q->_M_right; rm = q; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black)) if (x == xp->_M_left) {
      BP w = xp->_M_right;
      if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
      if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
      else { if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; }
    } else {
      BP w = xp->_M_left;
      if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
      if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
      else { if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; }
    }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
// ---- clocks do not advance
namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(); } system_clock::time_point system_clock::now() noexcept { return time_point(); } } }
// ---- paths
namespace filesystem { inline namespace __cxx11 {
void path::_M_split_cmpts() {}
path::_List::_List() : _M_impl(nullptr) {}
path::_List::_List(const _List &) : _M_impl(nullptr) {}
path::_List &path::_List::operator=(const _List &) { return *this; }
void path::_List::_Impl_deleter::operator()(_Impl *) const noexcept {}
path &path::operator=(const path &p) { _M_pathname = p._M_pathname; return *this; }
path &path::operator/=(const path &p) {
  if (!p._M_pathname.empty() && p._M_pathname[0] == '/') { _M_pathname = p._M_pathname; return *this; }
  if (!_M_pathname.empty() && _M_pathname.back() != '/') _M_pathname += '/';
  _M_pathname += p._M_pathname; return *this;
}
path path::parent_path() const { size_t b = _M_pathname.rfind('/'); if (b == string::npos) return path(); while (b > 1 && _M_pathname[b - 1] == '/') b--; return path(_M_pathname.substr(0, b ? b : 1)); }
bool path::has_parent_path() const noexcept { return _M_pathname.find('/') != string::npos; }
bool path::has_root_path() const noexcept { return !_M_pathname.empty() && _M_pathname[0] == '/'; }
bool path::has_root_directory() const noexcept { return has_root_path(); }
path &path::remove_filename() { size_t b = _M_pathname.rfind('/'); _M_pathname.erase(b == string::npos ? 0 : b + 1); return *this; }
path &path::replace_extension(const path &e) { auto x = _M_find_extension(); if (x.first && x.second != string::npos) _M_pathname.erase(_M_pathname.size() - x.first->size() + x.second); if (!e._M_pathname.empty() && e._M_pathname[0] != '.') _M_pathname += '.'; _M_pathname += e._M_pathname; return *this; }
path filenameOf(const path *) asm("_ZNKSt10filesystem7__cxx114path8filenameEv");
path filenameOf(const path *p) { const string &s = p->native(); size_t b = s.rfind('/'); return path(b == string::npos ? s : s.substr(b + 1)); }
int path::compare(const path &p) const noexcept { return _M_pathname.compare(p._M_pathname); }
bool path::has_filename() const noexcept { return !_M_pathname.empty() && _M_pathname.back() != '/'; }
pair<const string *, size_t> path::_M_find_extension() const noexcept {
  size_t b = _M_pathname.rfind('/'); b = b == string::npos ? 0 : b + 1;
  if (b >= _M_pathname.size()) return {nullptr, 0};
  size_t d = _M_pathname.rfind('.'); std::string *n = new std::string(_M_pathname.substr(b)); if (d == string::npos || d <= b) return {n, string::npos}; return {n, d - b}; // offsets count from the start of the file name
}
}
extern "C" int memfs_exists(const char *n);
file_status status(const path &p) { return file_status(memfs_exists(p.c_str()) ? file_type::regular : file_type::not_found); }
bool create_directories(const path &) { return true; }
bool create_directory(const path &) { return true; }
}
}
extern "C" __attribute__((weak)) int memfs_exists(const char *) { return 0; }
// ---- string streams (only what the code needs to build names)
namespace {
struct SS { std::string buf; int width; char fill; };
std::map<void *, SS> *g_ss;
SS &ss(void *os) { if (!g_ss) g_ss = new std::map<void *, SS>(); auto it = g_ss->find(os); if (it == g_ss->end()) { SS s; s.width = 0; s.fill = ' '; it = g_ss->insert(std::make_pair(os, s)).first; } return it->second; }
void *emitS(void *os, const std::string &t) { SS &s = ss(os); while ((int)(s.buf.size() >= 0) && s.width > (int)t.size()) { s.buf += s.fill; s.width--; } s.width = 0; s.buf += t; return os; }
std::string dec(unsigned long v, bool neg) { char b[24]; int i = 24; do { b[--i] = '0' + v % 10; v /= 10; } while (v); if (neg) b[--i] = '-'; return std::string(b + i, 24 - i); }
}
#define SSM(sym) asm(sym)
void ssCtor(char *t) SSM("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev");
void ssCtor(char *t) { SS &s = ss(t + 16); s.buf.clear(); s.width = 0; s.fill = ' '; }
void ssDtor(char *t) SSM("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev");
void ssDtor(char *t) { ss(t + 16).buf.clear(); }
void ossCtor(char *t) SSM("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev");
void ossCtor(char *t) { SS &s = ss(t); s.buf.clear(); s.width = 0; s.fill = ' '; }
void ossDtor(char *t) SSM("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev");
void ossDtor(char *t) { ss(t).buf.clear(); }
std::string ssStr(char *t) SSM("_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string ssStr(char *t) { return ss(t + 16).buf; }
std::string ossStr(char *t) SSM("_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string ossStr(char *t) { return ss(t).buf; }
void *outI(void *o, int v) SSM("_ZNSolsEi");
void *outI(void *o, int v) { return emitS(o, dec(v < 0 ? -(long)v : v, v < 0)); }
void *outJ(void *o, unsigned v) SSM("_ZNSolsEj");
void *outJ(void *o, unsigned v) { return emitS(o, dec(v, false)); }
void *outM(void *o, unsigned long v) SSM("_ZNSolsEm");
void *outM(void *o, unsigned long v) { return emitS(o, dec(v, false)); }
void *outMI(void *o, unsigned long v) SSM("_ZNSo9_M_insertImEERSoT_");
void *outMI(void *o, unsigned long v) { return emitS(o, dec(v, false)); }
void *outL(void *o, long v) SSM("_ZNSolsEl");
void *outL(void *o, long v) { return emitS(o, dec(v < 0 ? -v : v, v < 0)); }
void *outD(void *o, double v) SSM("_ZNSolsEd");
void *outD(void *o, double v) { return emitS(o, "<double>"); }
void *outDI(void *o, double v) SSM("_ZNSo9_M_insertIdEERSoT_");
void *outDI(void *o, double v) { return emitS(o, "<double>"); }
void *outF(void *o, float v) SSM("_ZNSolsEf");
void *outF(void *o, float v) { return emitS(o, "<float>"); }
void *outB(void *o, bool v) SSM("_ZNSolsEb");
void *outB(void *o, bool v) { return emitS(o, v ? "1" : "0"); }
void *outPC(void *o, const char *s) SSM("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
void *outPC(void *o, const char *s) { return emitS(o, s); }
void *outC(void *o, char c) SSM("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c");
void *outC(void *o, char c) { return emitS(o, std::string(1, c)); }
void *outS(void *o, const std::string &s) SSM("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE");
void *outS(void *o, const std::string &s) { return emitS(o, s); }
void *outIns(void *o, const char *s, long n) SSM("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
void *outIns(void *o, const char *s, long n) { return emitS(o, std::string(s, n)); }
void *setW(void *o, int n) SSM("_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St5_Setw");
void *setW(void *o, int n) { ss(o).width = n; return o; }
void *setF(void *o, char c) SSM("_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St8_SetfillIS3_E");
void *setF(void *o, char c) { ss(o).fill = c; return o; }
void *oFlush(void *o) SSM("_ZNSo5flushEv");
void *oFlush(void *o) { return o; }
void *oPut(void *o, char c) SSM("_ZNSo3putEc");
void *oPut(void *o, char c) { return emitS(o, std::string(1, c)); }
// ---- random device: an arbitrary but fixed seed
void rdInit(void *, const std::string &) SSM("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
void rdInit(void *, const std::string &) {}
void rdFini(void *) SSM("_ZNSt13random_device7_M_finiEv");
void rdFini(void *) {}
extern "C" __attribute__((weak)) unsigned env_seed(void) { return 1; }
unsigned rdGet(void *) SSM("_ZNSt13random_device9_M_getvalEv");
unsigned rdGet(void *) { return env_seed(); }
unsigned hwConc() SSM("_ZNSt6thread20hardware_concurrencyEv");
unsigned hwConc() { return 4; }
// a try-lock may fail at any time (at most twice per run here)
#include <pthread.h>
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m) { static int fails; if (fails < 2 && sx_choose("trylock", 0, 1)) { fails++; return 16; } return pthread_mutex_lock(m); }
extern "C" double pow(double x, double y) {
  if (y == 2) return x * x; if (y == 3) return x * x * x; if (y == 1) return x; if (y == 0) return 1; if (y == 0.5) return std::sqrt(x);
  if (y == 4) { double z = x * x; return z * z; }
  double a[2] = {x, y}; return sx_uf("pow", a, 2);
}
extern "C" double atan2(double y, double x) { double a[2] = {y, x}; return sx_uf("atan2", a, 2); }
namespace google { // a failed CHECK aborts the program
struct LM { };
}
void gFatal(void *, const char *, int) SSM("_ZN6google15LogMessageFatalC1EPKci");
void gFatal(void *, const char *, int) { sx_fault("abort", "CHECK failed"); }
void gFatal2(void *, const char *, int, void *) SSM("_ZN6google15LogMessageFatalC1EPKciRKNS_13CheckOpStringE");
void gFatal2(void *, const char *, int, void *) { sx_fault("abort", "CHECK failed"); }
