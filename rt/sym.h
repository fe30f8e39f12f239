// API between harnesses and (a) the symbolic executor ipsym, (b) the native replay runtime.
#pragma once
extern "C" {
double __sym_double(const char* name);
int __sym_int(const char* name);
long __sym_long(const char* name);
int __sym_char(const char* name);
int __sym_bool(const char* name);
int __sym_case();
int __sym_mode();                      // 1 real 2 fp 0 native replay
unsigned long __sym_live();
long __sym_concretize(long v);
int __sym_decide(int c);               // forks now
int __sym_is_symbolic(double v);
void __sym_assume(int c);
void __sym_check(int c, const char* label);
void __sym_check_eq(double a, double b, const char* label, double tol);
void __sym_reach(const char* label);
void __sym_print(const char* label, double v);
void __sym_printi(const char* label, long v);
void __sym_trace(const char* label);
int sym_main();
}
static inline double symd(const char* n) { return __sym_double(n); }
static inline double symd(const char* n, double lo, double hi) { double x = __sym_double(n); __sym_assume(x >= lo && x <= hi); return x; }
static inline int symi(const char* n, int lo, int hi) { int x = __sym_int(n); __sym_assume((x >= lo) & (x <= hi)); return x; }
// integer in [lo,hi], made concrete by forking over all its values
static inline int symfork(const char* n, int lo, int hi) { int x = symi(n, lo, hi); return (int) __sym_concretize(x); }
static inline bool symb(const char* n) { return __sym_bool(n) != 0; }
static inline bool symbf(const char* n) { return __sym_decide(__sym_bool(n)) != 0; }
#define CHECK(c, label) __sym_check((c) ? 1 : 0, label)
#define CHECKEQ(a, b, label) __sym_check_eq((a), (b), label, 0.)
#define REACH(label) __sym_reach(label)
#define ASSUME(c) __sym_assume((c) ? 1 : 0)
