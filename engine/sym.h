// Harness API. Implemented twice: by the symbolic runtime (symrt.cpp) for instrumented builds, and by
// symnative.cpp for plain builds of the real code, used to replay counterexamples.
#ifndef SYM_H
#define SYM_H
#include <stdint.h>
#include <stddef.h>
extern "C" {
// symbolic inputs; lo/hi are part of the stated bounds (inclusive)
double   sym_f64(const char* name, double def, double lo, double hi);
float    sym_f32(const char* name, double def, double lo, double hi);
uint64_t sym_u64(const char* name, uint64_t def, uint64_t lo, uint64_t hi);
double   sym_f64_any(const char* name, double def);           // any bit pattern
// configuration constant chosen by the driver (not symbolic): enumerated configurations
int64_t  sym_param(const char* name, int64_t def);
void     sym_assume(bool c);
// assertion, decided by the solver for every input on this path
void     sym_check(bool c, const char* label);
// a and b are equal up to rounding: equality over the reals; natively |a-b| <= 1e-7*scale
void     sym_check_eq(double a, double b, double scale, const char* label);
// |a - b| <= tol * |b|, tol arbitrarily small
void     sym_check_rel(double a, double b, double tol, const char* label);
// bit-for-bit equality
void     sym_check_bits(double a, double b, const char* label);
void     sym_check_bits32(float a, float b, const char* label);
void     sym_check_u64(uint64_t a, uint64_t b, const char* label);
// uninterpreted function application: its value is an input "name#k" (k: number of the distinct argument
// tuple) chosen by the solver, or a fixed generic smooth function of the arguments
double   sym_uf(const char* name, const double* args, size_t n);
// branch-free boolean connectives (never fork)
bool     sym_and(bool a, bool b);
bool     sym_or(bool a, bool b);
bool     sym_not(bool a);
double   sym_ite(bool c, double a, double b);
// the concrete value on this run, without its symbolic meaning (for choosing witnesses; never decides a check by itself)
double   sym_concrete(double v);
// fork on selects (1) or keep them as if-then-else terms (0)
void     sym_fork_select(int on);
// reachability marker (vacuity guard)
void     sym_reached(const char* label);
// number of simulated OpenMP threads
void     sym_threads(int n);
// true when running under the symbolic runtime
bool     sym_symbolic(void);
// a concrete note for the evidence
void     sym_note(const char* text);
// scratch directory for files made by the harness (removed by the driver)
const char* sym_scratch(void);
// fault injection hook: see qtmodels
void     sym_fail(const char* label);                          // unconditional violation on this path
}
#endif
