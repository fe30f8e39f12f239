// Symbolic expressions of the engine: hash-consed DAG over bit-vectors (<=64 bit)
// and doubles.  A double expression is interpreted either as a mathematical real
// (mode REAL) or as an IEEE-754 binary64 (mode FP) when translated to z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <algorithm>
#include <cmath>
#include <cassert>
#include <z3.h>

enum Op : uint8_t {
   O_CONST, O_VAR,
   O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
   O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
   O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE,
   O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FABS, O_FSQRT, O_FEQ, O_FLT, O_FLE, O_FISNAN, O_FISINF,
   O_FRND, /* aux: rounding kind 0 floor 1 ceil 2 trunc 3 rint */
   O_UFUN, O_BITS, O_FROMBITS, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_AGG
};
static const char* opname[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr",
   "eq","ult","ule","slt","sle","concat","extract","zext","sext","ite","fadd","fsub","fmul","fdiv","fneg","fabs","fsqrt","feq","flt","fle",
   "isnan","isinf","frnd","ufun","bits","frombits","sitofp","uitofp","fptosi","fptoui","agg"};

enum { S_BV = 0, S_DBL = 1 };
enum NumMode { REAL = 0, FPM = 1 };
extern NumMode g_mode;

struct Expr;
struct SVal {
   Expr* e; uint64_t c;
   SVal() : e(nullptr), c(0) {}
   SVal(uint64_t v) : e(nullptr), c(v) {}
   SVal(Expr* x);
   bool isConst() const { return !e; }
};

typedef std::vector<uint32_t> VarSet;

struct Expr {
   Op op; uint8_t sort; uint8_t w; uint32_t aux; uint64_t c;
   Expr* k[3];
   uint32_t id; uint32_t depth;
   const VarSet* vars;       // sorted
   Z3_ast z;
   std::vector<SVal>* agg;
};

inline double asD(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
inline uint64_t fromD(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { if( w >= 64 ) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

struct VarInfo { std::string name; uint8_t sort; uint8_t w; std::vector<Expr*> side; };
extern std::vector<VarInfo> g_vars;

struct Unsupported { std::string msg; };

Expr* mkConst(uint64_t c, unsigned w);
Expr* mkDConst(uint64_t bits);
Expr* mkVar(const std::string& name, unsigned w, int sort);
Expr* mkBin(Op op, Expr* a, Expr* b);      // BV arithmetic / comparison
Expr* mkNot(Expr* a);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkExtract(Expr* a, unsigned off, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExt(Op op, Expr* a, unsigned w);
Expr* mkF(Op op, Expr* a, Expr* b = nullptr);
Expr* mkFRnd(Expr* a, int kind);
Expr* mkUF(const std::string& name, Expr* a, Expr* b = nullptr);
Expr* mkBits(Expr* d);
Expr* mkFromBits(Expr* b);
Expr* mkCast(Op op, Expr* a, unsigned w, int sort);
Expr* mkAgg(const std::vector<SVal>& v);
inline Expr* toE(const SVal& v, unsigned w, int sort) { return v.e ? v.e : (sort == S_DBL ? mkDConst(v.c) : mkConst(v.c & maskw(w), w)); }
inline SVal::SVal(Expr* x) { if( x && x->op == O_CONST ) { e = nullptr; c = x->c; } else { e = x; c = 0; } }
std::string exprStr(Expr* e, int depth = 6);
const std::string& ufName(uint32_t i);
