// Native replay runtime: feeds the values of a counterexample file to the harness running on the real,
// natively compiled code.  exit 1: a check failed (reproduced); 0: not reproduced; 3: assumption violated.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <map>
#include "sym.h"
static std::map<std::string, unsigned long> vals; static std::map<std::string, int> cnt; static int the_case, the_mode; static int failed; static std::string want; static bool loaded;
static void load() { if( loaded ) return; loaded = true; const char* fn = getenv("SYM_CE"); if( !fn ) return; FILE* f = fopen(fn, "r"); if( !f ) { fprintf(stderr, "cannot open %s\n", fn); exit(4); }
   char line[4096]; while( fgets(line, sizeof line, f) ) { char nm[2048]; unsigned long b; if( sscanf(line, "case %d", &the_case) == 1 ) continue; if( sscanf(line, "mode %d", &the_mode) == 1 ) continue; if( sscanf(line, "var %2047s %lx", nm, &b) == 2 ) vals[nm] = b; } fclose(f); }
static unsigned long get(const char* n) { load(); std::string k = std::string(n) + "#" + std::to_string(cnt[n]++); for( char& ch : k ) if( ch == ' ' ) ch = '_'; auto it = vals.find(k); unsigned long b = it == vals.end() ? 0 : it->second; if( getenv("SYM_VERBOSE") ) { double d; memcpy(&d, &b, 8); fprintf(stderr, "  %s = %ld / %g\n", k.c_str(), (long)b, d); } return b; }
extern "C" {
double __sym_double(const char* n) { unsigned long b = get(n); double d; memcpy(&d, &b, 8); return d; }
int __sym_int(const char* n) { return (int)get(n); }
long __sym_long(const char* n) { return (long)get(n); }
int __sym_char(const char* n) { return (int)(unsigned char)get(n); }
int __sym_bool(const char* n) { return (int)(get(n) & 1); }
int __sym_case() { load(); return the_case; }
int __sym_mode() { load(); return the_mode; }
unsigned long __sym_live() { return 0; }
long __sym_concretize(long v) { return v; }
int __sym_decide(int c) { return c != 0; }
int __sym_is_symbolic(double) { return 0; }
void __sym_assume(int c) { if( !c ) { fprintf(stderr, "[replay] assumption violated\n"); fflush(0); _Exit(failed ? 1 : 3); } }
static void fail(const char* l) { printf("[replay] FAILED CHECK %s\n", l); failed++; }
void __sym_check(int c, const char* l) { if( !c ) fail(l); }
void __sym_check_eq(double a, double b, const char* l, double tol) {
   if( the_mode == 2 ) { if( !(a == b || (a != a && b != b)) ) { printf("  %.17g vs %.17g\n", a, b); fail(l); } return; }
   if( (a != a && b != b) || a == b ) return; double t = tol > 1e-9 ? tol : 1e-9;
   if( !(std::fabs(a - b) <= t * (1 + std::fabs(a) + std::fabs(b))) ) { printf("  %.17g vs %.17g\n", a, b); fail(l); } }
void __sym_reach(const char* l) { if( getenv("SYM_VERBOSE") ) fprintf(stderr, "reach %s\n", l); }
void __sym_print(const char* l, double v) { fprintf(stderr, "[print] %s = %.17g\n", l, v); }
void __sym_printi(const char* l, long v) { fprintf(stderr, "[print] %s = %ld\n", l, v); }
void __sym_trace(const char* l) { if( getenv("SYM_VERBOSE") ) fprintf(stderr, "[trace] %s\n", l); }
}
int main() { load(); sym_main(); fflush(0); _Exit(failed ? 1 : 0); }
