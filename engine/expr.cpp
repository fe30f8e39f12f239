#include "expr.h"
NumMode g_mode = REAL;
std::vector<VarInfo> g_vars;

namespace {
struct Key { Op op; uint8_t sort, w; uint32_t aux; uint64_t c; Expr* k[3];
   bool operator==(const Key& o) const { return op == o.op && sort == o.sort && w == o.w && aux == o.aux && c == o.c && k[0] == o.k[0] && k[1] == o.k[1] && k[2] == o.k[2]; } };
struct KH { size_t operator()(const Key& k) const {
   uint64_t h = k.op * 0x9E3779B97F4A7C15ull; auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
   mix(k.sort | (k.w << 8)); mix(k.aux); mix(k.c); for( int i = 0; i < 3; i++ ) mix((uint64_t)k.k[i] >> 3); return h; } };
std::unordered_map<Key, Expr*, KH> table;
uint32_t nextId = 1;
struct VSH { size_t operator()(const VarSet& v) const { uint64_t h = 1469598103934665603ull; for( auto x : v ) { h ^= x; h *= 1099511628211ull; } return h; } };
std::unordered_map<VarSet, VarSet*, VSH> varsets;
const VarSet* internVS(VarSet&& v) { auto it = varsets.find(v); if( it != varsets.end() ) return it->second; VarSet* p = new VarSet(v); varsets[*p] = p; return p; }
std::vector<std::string> ufnames;

Expr* get(Op op, int sort, unsigned w, Expr* a = nullptr, Expr* b = nullptr, Expr* d = nullptr, uint32_t aux = 0, uint64_t c = 0) {
   Key k{op, (uint8_t)sort, (uint8_t)w, aux, c, {a, b, d}};
   auto it = table.find(k);
   if( it != table.end() ) return it->second;
   Expr* e = new Expr();
   e->op = op; e->sort = sort; e->w = w; e->aux = aux; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->id = nextId++; e->z = nullptr; e->agg = nullptr;
   e->depth = 0;
   VarSet vs;
   if( op == O_VAR ) vs.push_back(aux);
   else {
      const VarSet* cur = nullptr;
      for( int i = 0; i < 3; i++ ) if( e->k[i] ) {
         e->depth = std::max(e->depth, e->k[i]->depth + 1);
         if( !cur || cur->empty() ) cur = e->k[i]->vars;
         else if( e->k[i]->vars != cur && !e->k[i]->vars->empty() ) { VarSet t; std::set_union(cur->begin(), cur->end(), e->k[i]->vars->begin(), e->k[i]->vars->end(), std::back_inserter(t)); cur = internVS(std::move(t)); }
      }
      if( op == O_UFUN ) {   // pseudo variable carrying side constraints
         VarSet t = cur ? *cur : VarSet();
         uint32_t pid = g_vars.size(); g_vars.push_back(VarInfo{"!uf", S_DBL, 64, {}});
         t.push_back(pid); e->vars = internVS(std::move(t));
         table[k] = e; return e;
      }
      if( cur ) { e->vars = cur; table[k] = e; return e; }
   }
   e->vars = internVS(std::move(vs));
   table[k] = e;
   return e;
}
bool isC(Expr* e) { return e->op == O_CONST; }
bool iteC(Expr* e) { return e->op == O_ITE && isC(e->k[1]) && isC(e->k[2]); }
uint64_t foldBV(Op op, uint64_t a, uint64_t b, unsigned w, bool& ok) {
   ok = true; uint64_t m = maskw(w); a &= m; b &= m;
   switch( op ) {
      case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
      case O_UDIV: if( !b ) { ok = false; return 0; } return a / b;
      case O_UREM: if( !b ) { ok = false; return 0; } return a % b;
      case O_SDIV: if( !b || (b == m && a == (1ull << (w - 1))) ) { ok = false; return 0; } return (uint64_t)(sx(a, w) / sx(b, w)) & m;
      case O_SREM: if( !b || (b == m && a == (1ull << (w - 1))) ) { ok = false; return 0; } return (uint64_t)(sx(a, w) % sx(b, w)) & m;
      case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
      case O_SHL: return b >= w ? 0 : (a << b) & m; case O_LSHR: return b >= w ? 0 : a >> b;
      case O_ASHR: return b >= w ? (sx(a, w) < 0 ? m : 0) : (uint64_t)(sx(a, w) >> b) & m;
      case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
      case O_SLT: return sx(a, w) < sx(b, w); case O_SLE: return sx(a, w) <= sx(b, w);
      default: ok = false; return 0;
   }
}
}

Expr* mkConst(uint64_t c, unsigned w) { return get(O_CONST, S_BV, w, 0, 0, 0, 0, c & maskw(w)); }
Expr* mkDConst(uint64_t bits) { return get(O_CONST, S_DBL, 64, 0, 0, 0, 0, bits); }
Expr* mkVar(const std::string& name, unsigned w, int sort) {
   static std::unordered_map<std::string, Expr*> byName;
   auto it = byName.find(name); if( it != byName.end() && it->second->w == w && it->second->sort == sort ) return it->second;
   uint32_t i = g_vars.size(); g_vars.push_back(VarInfo{name, (uint8_t)sort, (uint8_t)w, {}});
   return byName[name] = get(O_VAR, sort, w, 0, 0, 0, i);
}
Expr* mkAgg(const std::vector<SVal>& v) { Expr* e = new Expr(); e->op = O_AGG; e->sort = S_BV; e->w = 0; e->agg = new std::vector<SVal>(v); e->vars = internVS(VarSet()); e->id = 0; e->z = nullptr; e->depth = 0; for( auto& k : e->k ) k = nullptr; return e; }

Expr* mkNot(Expr* a) { return mkBin(O_XOR, a, mkConst(1, 1)); }

Expr* mkBin(Op op, Expr* a, Expr* b) {
   unsigned w = a->w; bool ok;
   bool cmp = op >= O_EQ && op <= O_SLE; unsigned rw = cmp ? 1 : w;
   if( isC(a) && isC(b) ) { uint64_t r = foldBV(op, a->c, b->c, w, ok); if( ok ) return mkConst(r, rw); }
   bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ;
   if( comm && (isC(a) || (!isC(b) && a->id > b->id)) ) std::swap(a, b);
   if( isC(b) && iteC(a) ) { bool o1, o2; uint64_t r1 = foldBV(op, a->k[1]->c, b->c, w, o1), r2 = foldBV(op, a->k[2]->c, b->c, w, o2); if( o1 && o2 ) return mkIte(a->k[0], mkConst(r1, rw), mkConst(r2, rw)); }
   if( isC(a) && iteC(b) ) { bool o1, o2; uint64_t r1 = foldBV(op, a->c, b->k[1]->c, w, o1), r2 = foldBV(op, a->c, b->k[2]->c, w, o2); if( o1 && o2 ) return mkIte(b->k[0], mkConst(r1, rw), mkConst(r2, rw)); }
   // bit patterns of doubles
   if( (a->op == O_BITS || b->op == O_BITS) ) {
      if( a->op == O_BITS && isC(b) ) {
         Expr* d = a->k[0];
         if( op == O_AND && b->c == 0x7fffffffffffffffull ) return mkBits(mkF(O_FABS, d));
         if( op == O_XOR && b->c == 0x8000000000000000ull ) return mkBits(mkF(O_FNEG, d));
         if( op == O_SLT && b->c == 0 && g_mode == REAL ) return mkF(O_FLT, d, mkDConst(0));
         if( op == O_EQ && g_mode == REAL && std::isfinite(asD(b->c)) ) return mkF(O_FEQ, d, mkDConst(b->c));
         if( op == O_LSHR && b->c == 63 && g_mode == REAL ) return mkExt(O_ZEXT, mkF(O_FLT, d, mkDConst(0)), 64);
      }
      if( op == O_EQ && a->op == O_BITS && b->op == O_BITS && g_mode == REAL ) return mkF(O_FEQ, a->k[0], b->k[0]);
   }
   switch( op ) {
      case O_ADD: if( isC(b) && b->c == 0 ) return a;
         if( isC(b) && a->op == O_ADD && isC(a->k[1]) ) return mkBin(O_ADD, a->k[0], mkConst(a->k[1]->c + b->c, w)); break;
      case O_SUB: if( isC(b) ) return mkBin(O_ADD, a, mkConst(-b->c, w)); if( a == b ) return mkConst(0, w); break;
      case O_MUL: if( isC(b) && b->c == 0 ) return b; if( isC(b) && b->c == 1 ) return a; break;
      case O_AND: if( a == b ) return a; if( isC(b) && b->c == 0 ) return b; if( isC(b) && b->c == maskw(w) ) return a;
         if( isC(b) && a->op == O_ZEXT && (b->c & maskw(a->k[0]->w)) == maskw(a->k[0]->w) ) return a; break;
      case O_OR: if( a == b ) return a; if( isC(b) && b->c == 0 ) return a; if( isC(b) && b->c == maskw(w) ) return b; break;
      case O_XOR: if( a == b ) return mkConst(0, w); if( isC(b) && b->c == 0 ) return a;
         if( isC(b) && a->op == O_XOR && isC(a->k[1]) ) return mkBin(O_XOR, a->k[0], mkConst(a->k[1]->c ^ b->c, w)); break;
      case O_SHL: case O_LSHR: case O_ASHR: if( isC(b) && b->c == 0 ) return a;
         if( op == O_SHL && isC(b) && b->c >= w ) return mkConst(0, w);
         if( op == O_SHL && isC(b) ) return mkConcat(mkExtract(a, 0, w - b->c), mkConst(0, b->c));
         if( op == O_LSHR && isC(b) && b->c < w ) return mkExt(O_ZEXT, mkExtract(a, b->c, w - b->c), w);
         break;
      case O_UDIV: case O_SDIV: if( isC(b) && b->c == 1 ) return a; break;
      case O_EQ: if( a == b ) return mkConst(1, 1);
         if( w == 1 && isC(b) ) return b->c ? a : mkNot(a);
         if( isC(b) && a->op == O_ZEXT ) { if( b->c > maskw(a->k[0]->w) ) return mkConst(0, 1); return mkBin(O_EQ, a->k[0], mkConst(b->c, a->k[0]->w)); }
         if( isC(b) && a->op == O_SEXT ) { uint64_t lo = b->c & maskw(a->k[0]->w); if( ((uint64_t)sx(lo, a->k[0]->w) & maskw(w)) != b->c ) return mkConst(0, 1); return mkBin(O_EQ, a->k[0], mkConst(lo, a->k[0]->w)); }
         if( isC(b) && a->op == O_ADD && isC(a->k[1]) ) return mkBin(O_EQ, a->k[0], mkConst(b->c - a->k[1]->c, w));
         break;
      case O_ULT: if( a == b ) return mkConst(0, 1); if( isC(b) && b->c == 0 ) return mkConst(0, 1); break;
      case O_SLT: if( a == b ) return mkConst(0, 1); break;
      case O_ULE: case O_SLE: if( a == b ) return mkConst(1, 1); break;
      default: break;
   }
   return get(op, S_BV, rw, a, b);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
   if( isC(c) ) return c->c ? a : b;
   if( a == b ) return a;
   if( c->op == O_XOR && isC(c->k[1]) ) return mkIte(c->k[0], b, a);   // ite(!c,a,b)
   if( a->sort == S_BV && a->w == 1 ) {
      if( isC(a) && isC(b) ) return a->c ? c : mkNot(c);
      if( isC(a) ) return a->c ? mkBin(O_OR, c, b) : mkBin(O_AND, mkNot(c), b);
      if( isC(b) ) return b->c ? mkBin(O_OR, mkNot(c), a) : mkBin(O_AND, c, a);
   }
   if( a->sort == S_BV && a->w == 64 && (a->op == O_BITS || b->op == O_BITS) && (a->op == O_BITS || isC(a)) && (b->op == O_BITS || isC(b)) )
      return mkBits(mkIte(c, mkFromBits(a), mkFromBits(b)));
   return get(O_ITE, a->sort, a->w, c, a, b);
}

Expr* mkExtract(Expr* a, unsigned off, unsigned w) {
   if( off == 0 && w == a->w ) return a;
   if( isC(a) ) return mkConst(a->c >> off, w);
   if( iteC(a) ) return mkIte(a->k[0], mkConst(a->k[1]->c >> off, w), mkConst(a->k[2]->c >> off, w));
   if( a->op == O_EXTRACT ) return mkExtract(a->k[0], off + a->aux, w);
   if( a->op == O_CONCAT ) { unsigned lw = a->k[1]->w; if( off + w <= lw ) return mkExtract(a->k[1], off, w); if( off >= lw ) return mkExtract(a->k[0], off - lw, w); }
   if( (a->op == O_ZEXT || a->op == O_SEXT) ) { unsigned kw = a->k[0]->w; if( off + w <= kw ) return mkExtract(a->k[0], off, w); if( a->op == O_ZEXT && off >= kw ) return mkConst(0, w);
      if( off == 0 ) return mkExt(a->op, a->k[0], w); }
   if( off == 0 && (a->op == O_ADD || a->op == O_MUL || a->op == O_AND || a->op == O_OR || a->op == O_XOR) ) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
   if( a->op == O_BITS ) {
      if( g_mode == REAL ) {
         if( off == 63 && w == 1 ) return mkF(O_FLT, a->k[0], mkDConst(0));
         throw Unsupported{"bits of a symbolic real extracted"};
      }
   }
   return get(O_EXTRACT, S_BV, w, a, 0, 0, off);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
   unsigned w = hi->w + lo->w;
   if( isC(hi) && isC(lo) ) return mkConst((hi->c << lo->w) | lo->c, w);
   if( isC(hi) && hi->c == 0 ) return mkExt(O_ZEXT, lo, w);
   if( hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w ) return mkExtract(hi->k[0], lo->aux, w);
   return get(O_CONCAT, S_BV, w, hi, lo);
}
Expr* mkExt(Op op, Expr* a, unsigned w) {
   if( a->w == w ) return a;
   assert(a->w < w);
   if( isC(a) ) return mkConst(op == O_ZEXT ? a->c : (uint64_t)sx(a->c, a->w), w);
   if( iteC(a) ) return mkIte(a->k[0], mkExt(op, a->k[1], w), mkExt(op, a->k[2], w));
   if( a->op == O_ZEXT ) return mkExt(O_ZEXT, a->k[0], w);
   if( op == O_SEXT && a->op == O_SEXT ) return mkExt(O_SEXT, a->k[0], w);
   return get(op, S_BV, w, a);
}

static bool foldF(Op op, double a, double b, uint64_t& r) {
   switch( op ) {
      case O_FADD: r = fromD(a + b); return true; case O_FSUB: r = fromD(a - b); return true;
      case O_FMUL: r = fromD(a * b); return true; case O_FDIV: r = fromD(a / b); return true;
      case O_FNEG: r = fromD(a) ^ 0x8000000000000000ull; return true; case O_FABS: r = fromD(a) & 0x7fffffffffffffffull; return true;
      case O_FSQRT: r = fromD(std::sqrt(a)); return true;
      case O_FEQ: r = a == b; return true; case O_FLT: r = a < b; return true; case O_FLE: r = a <= b; return true;
      case O_FISNAN: r = std::isnan(a); return true; case O_FISINF: r = std::isinf(a); return true;
      default: return false;
   }
}
static bool isD(Expr* e, double v) { return isC(e) && asD(e->c) == v; }

Expr* mkF(Op op, Expr* a, Expr* b) {
   bool cmp = op >= O_FEQ && op <= O_FISINF;
   uint64_t r;
   if( isC(a) && (!b || isC(b)) && foldF(op, asD(a->c), b ? asD(b->c) : 0, r) ) return cmp ? mkConst(r, 1) : mkDConst(r);
   if( cmp && b ) {   // push comparisons into ite with constant leaves
      if( isC(b) && iteC(a) ) return mkIte(a->k[0], mkF(op, a->k[1], b), mkF(op, a->k[2], b));
      if( isC(a) && iteC(b) ) return mkIte(b->k[0], mkF(op, a, b->k[1]), mkF(op, a, b->k[2]));
   }
   if( g_mode == REAL ) {
      if( op == O_FISNAN || op == O_FISINF ) {
         if( a->op == O_ITE ) return mkIte(a->k[0], mkF(op, a->k[1]), mkF(op, a->k[2]));
         return mkConst(0, 1);
      }
      // comparisons of converted integers are integer comparisons
      if( cmp && b && (a->op == O_SITOFP || b->op == O_SITOFP) ) {
         if( a->op == O_SITOFP && b->op == O_SITOFP && a->k[0]->w == b->k[0]->w ) return mkBin(op == O_FEQ ? O_EQ : op == O_FLT ? O_SLT : O_SLE, a->k[0], b->k[0]);
         Expr* x = a->op == O_SITOFP ? a->k[0] : b->k[0]; Expr* o = a->op == O_SITOFP ? b : a; bool left = a->op == O_SITOFP; unsigned w = x->w;
         if( isC(o) && w <= 32 ) {
            double v = asD(o->c); double lo = -std::ldexp(1., w - 1), hi = std::ldexp(1., w - 1) - 1;
            if( std::isnan(v) ) return mkConst(0, 1);
            if( v < lo || v > hi ) return mkConst(op == O_FEQ ? 0 : left ? v > hi : v < lo, 1);
            auto K = [&](double d) { return mkConst((uint64_t)(int64_t)d, w); };
            if( op == O_FEQ ) return v == std::floor(v) ? mkBin(O_EQ, x, K(v)) : mkConst(0, 1);
            if( left ) return op == O_FLT ? mkBin(O_SLT, x, K(std::ceil(v))) : mkBin(O_SLE, x, K(std::floor(v)));    // ceil/floor stay in [lo,hi]
            return op == O_FLT ? mkBin(O_SLT, K(std::floor(v)), x) : mkBin(O_SLE, K(std::ceil(v)), x);
         }
      }
      // comparison against non-finite constants
      if( cmp && (isC(a) || isC(b)) ) {
         double v = asD(isC(a) ? a->c : b->c); Expr* o = isC(a) ? b : a;
         if( std::isnan(v) ) return mkConst(0, 1);
         if( std::isinf(v) ) {
            if( o->op == O_ITE ) return isC(a) ? mkIte(o->k[0], mkF(op, a, o->k[1]), mkF(op, a, o->k[2])) : mkIte(o->k[0], mkF(op, o->k[1], b), mkF(op, o->k[2], b));
            if( op == O_FEQ ) return mkConst(0, 1);
            bool res = isC(a) ? v < 0 : v > 0;
            return mkConst(res, 1);
         }
      }
      // finite leaves guarded by ite with non-finite constants: distribute
      auto badIte = [](Expr* e) { return e->op == O_ITE && ((isC(e->k[1]) && !std::isfinite(asD(e->k[1]->c))) || (isC(e->k[2]) && !std::isfinite(asD(e->k[2]->c)))); };
      if( badIte(a) ) return mkIte(a->k[0], mkF(op, a->k[1], b), mkF(op, a->k[2], b));
      if( b && badIte(b) ) return mkIte(b->k[0], mkF(op, a, b->k[1]), mkF(op, a, b->k[2]));
      switch( op ) {
         case O_FADD: if( isD(a, 0) ) return b; if( isD(b, 0) ) return a; break;
         case O_FSUB: if( isD(b, 0) ) return a; if( a == b ) return mkDConst(0); if( isD(a, 0) ) return mkF(O_FNEG, b); break;
         case O_FMUL: if( isD(a, 0) || isD(b, 0) ) return mkDConst(0); if( isD(a, 1) ) return b; if( isD(b, 1) ) return a;
            if( isD(a, -1) ) return mkF(O_FNEG, b); if( isD(b, -1) ) return mkF(O_FNEG, a); break;
         case O_FDIV: if( isD(b, 1) ) return a; if( isD(a, 0) ) return a; if( isC(b) && std::isinf(asD(b->c)) ) return mkDConst(0); break;
         case O_FNEG: if( a->op == O_FNEG ) return a->k[0]; if( a->op == O_FSUB ) return mkF(O_FSUB, a->k[1], a->k[0]); break;
         case O_FABS: if( a->op == O_FABS ) return a; if( a->op == O_FNEG ) return mkF(O_FABS, a->k[0]);
            return mkIte(mkF(O_FLT, a, mkDConst(0)), mkF(O_FNEG, a), a);
         case O_FEQ: if( a == b ) return mkConst(1, 1); break;
         case O_FLE: if( a == b ) return mkConst(1, 1); break;
         case O_FLT: if( a == b ) return mkConst(0, 1); break;
         case O_FSQRT: {
            static std::unordered_map<Expr*, Expr*> memo; auto it = memo.find(a); if( it != memo.end() ) return it->second;
            Expr* s = mkVar("!sqrt" + std::to_string(memo.size()), 64, S_DBL);
            g_vars[s->aux].side.push_back(mkF(O_FLE, mkDConst(0), s));
            g_vars[s->aux].side.push_back(mkF(O_FEQ, mkF(O_FMUL, s, s), a));
            return memo[a] = s; }
         default: break;
      }
      if( (op == O_FADD || op == O_FMUL) && !isC(b) && (isC(a) ? false : a->id > b->id) ) std::swap(a, b);
      if( (isC(a) && !std::isfinite(asD(a->c))) || (b && isC(b) && !std::isfinite(asD(b->c))) ) throw Unsupported{"real arithmetic with a non-finite constant"};
   } else {
      if( op == O_FNEG && a->op == O_FNEG ) return a->k[0];
      if( (op == O_FADD || op == O_FMUL) && a->id > b->id ) std::swap(a, b);
      if( op == O_FEQ && a->id > b->id ) std::swap(a, b);
      if( op == O_FLT && a == b ) return mkConst(0, 1);
      if( op == O_FABS && (a->op == O_FABS) ) return a;
   }
   return get(op, cmp ? S_BV : S_DBL, cmp ? 1 : 64, a, b);
}
Expr* mkFRnd(Expr* a, int kind) {
   if( isC(a) ) { double d = asD(a->c); return mkDConst(fromD(kind == 0 ? std::floor(d) : kind == 1 ? std::ceil(d) : kind == 2 ? std::trunc(d) : std::rint(d))); }
   return get(O_FRND, S_DBL, 64, a, 0, 0, kind);
}
const std::string& ufName(uint32_t i) { return ufnames[i]; }
Expr* mkUF(const std::string& name, Expr* a, Expr* b) {
   auto it = std::find(ufnames.begin(), ufnames.end(), name); uint32_t idx = it - ufnames.begin();
   if( it == ufnames.end() ) ufnames.push_back(name);
   size_t before = g_vars.size();
   Expr* e = get(O_UFUN, S_DBL, 64, a, b, 0, idx);
   if( g_vars.size() > before && g_mode == REAL ) {
      auto& side = g_vars[before].side;
      std::vector<Expr*> s;
      Expr* zero = mkDConst(0), *one = mkDConst(fromD(1.0));
      if( name == "exp" ) s.push_back(mkF(O_FLT, zero, e));
      if( name == "pow" ) { s.push_back(mkBin(O_OR, mkNot(mkF(O_FLT, zero, a)), mkF(O_FLT, zero, e))); s.push_back(mkBin(O_OR, mkNot(mkF(O_FLE, zero, a)), mkF(O_FLE, zero, e))); }
      if( name == "log10" ) s.push_back(mkBin(O_OR, mkNot(mkF(O_FLT, zero, a)), mkF(O_FLT, e, a)));
      if( name == "log" ) { // log(x)<=x-1 and sign
         s.push_back(mkBin(O_OR, mkNot(mkF(O_FLT, zero, a)), mkF(O_FLE, e, mkF(O_FSUB, a, one))));
         s.push_back(mkBin(O_OR, mkNot(mkF(O_FLT, one, a)), mkF(O_FLT, zero, e))); }
      g_vars[before].side = s; (void)side;
   }
   return e;
}
Expr* mkBits(Expr* d) {
   if( isC(d) ) return mkConst(d->c, 64);
   if( d->op == O_FROMBITS ) return d->k[0];
   return get(O_BITS, S_BV, 64, d);
}
Expr* mkFromBits(Expr* b) {
   if( isC(b) ) return mkDConst(b->c);
   if( b->op == O_BITS ) return b->k[0];
   if( b->op == O_ITE ) return mkIte(b->k[0], mkFromBits(b->k[1]), mkFromBits(b->k[2]));
   if( g_mode == REAL ) {   // uninitialised / foreign bits: an arbitrary real, functionally dependent on b only by identity
      static std::unordered_map<Expr*, Expr*> memo; auto it = memo.find(b); if( it != memo.end() ) return it->second;
      return memo[b] = mkVar("!fb" + std::to_string(memo.size()), 64, S_DBL);
   }
   return get(O_FROMBITS, S_DBL, 64, b);
}
Expr* mkCast(Op op, Expr* a, unsigned w, int sort) {
   if( isC(a) ) {
      if( op == O_SITOFP ) return mkDConst(fromD((double)sx(a->c, a->w)));
      if( op == O_UITOFP ) return mkDConst(fromD((double)a->c));
      if( op == O_FPTOSI ) return mkConst((uint64_t)(int64_t)asD(a->c), w);
      if( op == O_FPTOUI ) return mkConst((uint64_t)asD(a->c), w);
   }
   if( iteC(a) ) return mkIte(a->k[0], mkCast(op, a->k[1], w, sort), mkCast(op, a->k[2], w, sort));
   if( (op == O_SITOFP || op == O_UITOFP) && a->op == O_ITE ) return mkIte(a->k[0], mkCast(op, a->k[1], w, sort), mkCast(op, a->k[2], w, sort));
   return get(op, sort, w, a);
}
std::string exprStr(Expr* e, int depth) {
   if( !e ) return "null";
   if( e->op == O_CONST ) { char b[64]; if( e->sort == S_DBL ) snprintf(b, 64, "%.17g", asD(e->c)); else snprintf(b, 64, "%llu:%d", (unsigned long long)e->c, e->w); return b; }
   if( e->op == O_VAR ) return g_vars[e->aux].name;
   if( depth == 0 ) return "...";
   std::string s = std::string("(") + (e->op == O_UFUN ? ufName(e->aux).c_str() : opname[e->op]);
   for( int i = 0; i < 3; i++ ) if( e->k[i] ) s += " " + exprStr(e->k[i], depth - 1);
   return s + ")";
}
