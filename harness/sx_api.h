// Interface between harnesses, models and the engine.  In symbolic runs the
// engine supplies these functions; native replays link harness/sx_native.cpp.
#pragma once
#include <cstdint>
extern "C" {
int sx_int(const char *name);
long sx_i64(const char *name);
unsigned char sx_u8(const char *name);
int sx_bool(const char *name);
double sx_real(const char *name);
float sx_realf(const char *name);
int sx_range(const char *name, int lo, int hi);  // symbolic integer in [lo, hi]
int sx_choose(const char *name, int lo, int hi); // same, one path per value
int sx_concrete(int v);
int sx_branch(int c);
void sx_assume(int c);
void sx_prove(int c, const char *label);
void sx_prove_eq(double a, double b, const char *label);
void sx_prove_close(double a, double b, double tol, const char *label);
void sx_prove_eqi(long a, long b, const char *label);
void sx_reach(const char *label);
void sx_fault_is_violation(int on);
int sx_is_sym(double v);
int sx_same(double a, double b);                  // identical terms (natively: equal up to rounding)
int sx_is_symi(int v);
void sx_fact_ge(double x, double bound);         // lemma the harness has established: x >= bound, and the engine may use it on branches
void sx_fork_selects(int on);                     // one path per value of a floating-point choice
int sx_symbolic_run(void);
void sx_note(const char *name, int v);
void sx_log(const char *s);
void sx_logd(const char *s, double v);
void sx_logi(const char *s, int v);
void sx_unsupported(const char *why);
void sx_fault(const char *kind, const char *msg);
void sx_end_path(void);
double sx_uf(const char *name, const double *args, int n);
double sx_ite(int c, double a, double b);
int sx_lt(double a, double b);
void sx_pose_gen(const char *name, double r[3], double t[3]);
int sx_m_mul(const double *A, const double *B, double *C, int n);
int sx_m_inv(const double *A, double *C, int n);
int sx_rod_v2m(const double *r, double *R);
int sx_rod_m2v(const double *R, double *r);
void sx_thread(void (*fn)(void *), void *arg);
void sx_join(void);
}
