#include "solver.h"
#include <gmp.h>
#include <chrono>
#include <unordered_set>
#include <cstdio>
#include <cstdlib>
SolverStats g_ss;
static Z3_context C;
static Z3_sort SR, SF, SB; static Z3_ast RNE, RTN, RTP, RTZ;
static unsigned TMO = 5000, HARD = 60000;
static std::string lastErr;
static void onErr(Z3_context c, Z3_error_code e) { lastErr = Z3_get_error_msg(c, e); fprintf(stderr, "z3 error: %s\n", lastErr.c_str()); }
void solverInit(unsigned t, unsigned h) {
   TMO = t; HARD = h;
   Z3_config cfg = Z3_mk_config();
   C = Z3_mk_context(cfg); Z3_del_config(cfg);   // non-rc context: asts live forever
   Z3_set_error_handler(C, onErr);
   SR = Z3_mk_real_sort(C); SF = Z3_mk_fpa_sort_64(C); SB = Z3_mk_bool_sort(C);
   RNE = Z3_mk_fpa_rne(C); RTN = Z3_mk_fpa_rtn(C); RTP = Z3_mk_fpa_rtp(C); RTZ = Z3_mk_fpa_rtz(C);
}
static Z3_ast ratOfDouble(double d) {
   int ex; double m = std::frexp(d, &ex); // d = m*2^ex
   int64_t mi = (int64_t)std::ldexp(m, 53); ex -= 53;
   while( mi && !(mi & 1) ) { mi >>= 1; ex++; }
   mpz_t n; mpz_init_set_si(n, mi);
   std::string s;
   if( ex >= 0 ) { mpz_mul_2exp(n, n, ex); char* p = mpz_get_str(nullptr, 10, n); s = p; free(p); }
   else { char* p = mpz_get_str(nullptr, 10, n); s = p; free(p); mpz_t q; mpz_init_set_ui(q, 1); mpz_mul_2exp(q, q, -ex); p = mpz_get_str(nullptr, 10, q); s += "/"; s += p; free(p); mpz_clear(q); }
   mpz_clear(n);
   return Z3_mk_numeral(C, s.c_str(), SR);
}
static Z3_ast tr(Expr* e);
static Z3_ast bv(Expr* e) { // as bit-vector of width w
   Z3_ast z = tr(e);
   if( e->w == 1 && e->sort == S_BV ) { Z3_sort s1 = Z3_mk_bv_sort(C, 1); return Z3_mk_ite(C, z, Z3_mk_numeral(C, "1", s1), Z3_mk_numeral(C, "0", s1)); }
   return z;
}
static Z3_ast arr2(Z3_ast (*f)(Z3_context, unsigned, const Z3_ast*), Z3_ast a, Z3_ast b) { Z3_ast v[2] = {a, b}; return f(C, 2, v); }
static Z3_ast tr(Expr* e) {
   if( e->z ) return e->z;
   Z3_ast r = nullptr;
   auto K = [&](int i) { return tr(e->k[i]); };
   auto B = [&](int i) { return bv(e->k[i]); };
   bool b1 = e->sort == S_BV && e->w == 1;
   switch( e->op ) {
      case O_CONST:
         if( e->sort == S_DBL ) { double d = asD(e->c); if( g_mode == REAL ) { if( !std::isfinite(d) ) throw Unsupported{"non-finite constant reaches the real-arithmetic solver"}; r = ratOfDouble(d); } else r = Z3_mk_fpa_numeral_double(C, d, SF); }
         else if( b1 ) r = e->c ? Z3_mk_true(C) : Z3_mk_false(C);
         else r = Z3_mk_unsigned_int64(C, e->c, Z3_mk_bv_sort(C, e->w));
         break;
      case O_VAR: {
         Z3_symbol s = Z3_mk_string_symbol(C, g_vars[e->aux].name.c_str());
         Z3_sort so = e->sort == S_DBL ? (g_mode == REAL ? SR : SF) : b1 ? SB : Z3_mk_bv_sort(C, e->w);
         r = Z3_mk_const(C, s, so); break; }
      case O_ADD: r = b1 ? Z3_mk_xor(C, K(0), K(1)) : Z3_mk_bvadd(C, K(0), K(1)); break;
      case O_SUB: r = b1 ? Z3_mk_xor(C, K(0), K(1)) : Z3_mk_bvsub(C, K(0), K(1)); break;
      case O_MUL: r = b1 ? arr2(Z3_mk_and, K(0), K(1)) : Z3_mk_bvmul(C, K(0), K(1)); break;
      case O_UDIV: r = Z3_mk_bvudiv(C, B(0), B(1)); break;
      case O_SDIV: r = Z3_mk_bvsdiv(C, B(0), B(1)); break;
      case O_UREM: r = Z3_mk_bvurem(C, B(0), B(1)); break;
      case O_SREM: r = Z3_mk_bvsrem(C, B(0), B(1)); break;
      case O_AND: r = b1 ? arr2(Z3_mk_and, K(0), K(1)) : Z3_mk_bvand(C, K(0), K(1)); break;
      case O_OR: r = b1 ? arr2(Z3_mk_or, K(0), K(1)) : Z3_mk_bvor(C, K(0), K(1)); break;
      case O_XOR: if( b1 ) { if( e->k[1]->op == O_CONST && e->k[1]->c ) r = Z3_mk_not(C, K(0)); else r = Z3_mk_xor(C, K(0), K(1)); } else r = Z3_mk_bvxor(C, K(0), K(1)); break;
      case O_SHL: r = Z3_mk_bvshl(C, B(0), B(1)); break;
      case O_LSHR: r = Z3_mk_bvlshr(C, B(0), B(1)); break;
      case O_ASHR: r = Z3_mk_bvashr(C, B(0), B(1)); break;
      case O_EQ: r = Z3_mk_eq(C, K(0), K(1)); break;
      case O_ULT: r = Z3_mk_bvult(C, B(0), B(1)); break;
      case O_ULE: r = Z3_mk_bvule(C, B(0), B(1)); break;
      case O_SLT: r = Z3_mk_bvslt(C, B(0), B(1)); break;
      case O_SLE: r = Z3_mk_bvsle(C, B(0), B(1)); break;
      case O_CONCAT: r = Z3_mk_concat(C, B(0), B(1)); break;
      case O_EXTRACT: r = Z3_mk_extract(C, e->aux + e->w - 1, e->aux, B(0)); if( b1 ) r = Z3_mk_eq(C, r, Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1))); break;
      case O_ZEXT: r = Z3_mk_zero_ext(C, e->w - e->k[0]->w, B(0)); break;
      case O_SEXT: r = Z3_mk_sign_ext(C, e->w - e->k[0]->w, B(0)); break;
      case O_ITE: r = Z3_mk_ite(C, K(0), K(1), K(2)); break;
      case O_FADD: r = g_mode == REAL ? arr2(Z3_mk_add, K(0), K(1)) : Z3_mk_fpa_add(C, RNE, K(0), K(1)); break;
      case O_FSUB: r = g_mode == REAL ? arr2(Z3_mk_sub, K(0), K(1)) : Z3_mk_fpa_sub(C, RNE, K(0), K(1)); break;
      case O_FMUL: r = g_mode == REAL ? arr2(Z3_mk_mul, K(0), K(1)) : Z3_mk_fpa_mul(C, RNE, K(0), K(1)); break;
      case O_FDIV: r = g_mode == REAL ? Z3_mk_div(C, K(0), K(1)) : Z3_mk_fpa_div(C, RNE, K(0), K(1)); break;
      case O_FNEG: r = g_mode == REAL ? Z3_mk_unary_minus(C, K(0)) : Z3_mk_fpa_neg(C, K(0)); break;
      case O_FABS: r = Z3_mk_fpa_abs(C, K(0)); break;
      case O_FSQRT: r = Z3_mk_fpa_sqrt(C, RNE, K(0)); break;
      case O_FEQ: r = g_mode == REAL ? Z3_mk_eq(C, K(0), K(1)) : Z3_mk_fpa_eq(C, K(0), K(1)); break;
      case O_FLT: r = g_mode == REAL ? Z3_mk_lt(C, K(0), K(1)) : Z3_mk_fpa_lt(C, K(0), K(1)); break;
      case O_FLE: r = g_mode == REAL ? Z3_mk_le(C, K(0), K(1)) : Z3_mk_fpa_leq(C, K(0), K(1)); break;
      case O_FISNAN: r = Z3_mk_fpa_is_nan(C, K(0)); break;
      case O_FISINF: r = Z3_mk_fpa_is_infinite(C, K(0)); break;
      case O_FRND: {
         if( g_mode == FPM ) { r = Z3_mk_fpa_round_to_integral(C, e->aux == 0 ? RTN : e->aux == 1 ? RTP : e->aux == 2 ? RTZ : RNE, K(0)); break; }
         Z3_ast x = K(0); Z3_ast fl = Z3_mk_int2real(C, Z3_mk_real2int(C, x)); Z3_ast ce = Z3_mk_unary_minus(C, Z3_mk_int2real(C, Z3_mk_real2int(C, Z3_mk_unary_minus(C, x))));
         if( e->aux == 0 ) r = fl; else if( e->aux == 1 ) r = ce; else if( e->aux == 2 ) r = Z3_mk_ite(C, Z3_mk_ge(C, x, Z3_mk_numeral(C, "0", SR)), fl, ce); else throw Unsupported{"rint on reals"};
         break; }
      case O_UFUN: {
         int n = e->k[1] ? 2 : 1; Z3_sort S = g_mode == REAL ? SR : SF; Z3_sort d[2] = {S, S};
         Z3_func_decl f = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, ("uf_" + ufName(e->aux)).c_str()), n, d, S);
         Z3_ast a[2] = {K(0), n > 1 ? K(1) : nullptr}; r = Z3_mk_app(C, f, n, a); break; }
      case O_BITS: if( g_mode == REAL ) throw Unsupported{"bit pattern of a real"};
         r = Z3_mk_fpa_to_ieee_bv(C, K(0)); break;
      case O_FROMBITS: r = Z3_mk_fpa_to_fp_bv(C, K(0), SF); break;
      case O_SITOFP: if( g_mode == REAL ) r = Z3_mk_int2real(C, Z3_mk_bv2int(C, B(0), true)); else r = Z3_mk_fpa_to_fp_signed(C, RNE, B(0), SF); break;
      case O_UITOFP: if( g_mode == REAL ) r = Z3_mk_int2real(C, Z3_mk_bv2int(C, B(0), false)); else r = Z3_mk_fpa_to_fp_unsigned(C, RNE, B(0), SF); break;
      case O_FPTOSI: if( g_mode == FPM ) { r = Z3_mk_fpa_to_sbv(C, RTZ, K(0), e->w); break; }
      { Z3_ast x = K(0); r = Z3_mk_ite(C, Z3_mk_ge(C, x, Z3_mk_numeral(C, "0", SR)), Z3_mk_real2int(C, x), Z3_mk_unary_minus(C, Z3_mk_real2int(C, Z3_mk_unary_minus(C, x)))); r = Z3_mk_int2bv(C, e->w, r); break; }
      case O_FPTOUI: if( g_mode == FPM ) { r = Z3_mk_fpa_to_ubv(C, RTZ, K(0), e->w); break; } r = Z3_mk_int2bv(C, e->w, Z3_mk_real2int(C, K(0))); break;
      default: throw Unsupported{"expr op"};
   }
   return e->z = r;
}
static bool isNonlinear(Expr* e, std::unordered_set<Expr*>& seen, bool& hasBV) {
   if( !seen.insert(e).second ) return false;
   bool nl = false;
   if( e->sort == S_BV && e->w > 1 ) hasBV = true;
   if( e->op == O_FMUL && !e->k[0]->vars->empty() && !e->k[1]->vars->empty() ) nl = true;
   if( e->op == O_FDIV && !e->k[1]->vars->empty() ) nl = true;
   if( e->op == O_UFUN ) hasBV = true; // not for nlsat
   for( int i = 0; i < 3; i++ ) if( e->k[i] ) nl |= isNonlinear(e->k[i], seen, hasBV);
   return nl;
}
std::vector<Expr*> slice(const std::vector<Expr*>& cs, Expr* q) {
   std::vector<char> in(cs.size(), 0); std::unordered_set<uint32_t> vs(q->vars->begin(), q->vars->end());
   std::vector<Expr*> out; bool ch = true;
   for( size_t i = 0; i < cs.size(); i++ ) if( cs[i]->vars->empty() ) { in[i] = 1; out.push_back(cs[i]); }
   // side constraints introduce variables as well
   std::vector<uint32_t> work(vs.begin(), vs.end()); 
   auto addVars = [&](const VarSet& s) { for( auto v : s ) if( vs.insert(v).second ) work.push_back(v); };
   // "printed with fewer digits reads back differently" constrains nothing unless the value read back is used elsewhere
   std::unordered_map<uint32_t, int> rc; auto rnd = [](uint32_t v) { return g_vars[v].name.compare(0, 7, "rounded") == 0; };
   for( Expr* c : cs ) for( auto v : *c->vars ) if( rnd(v) ) rc[v]++;
   if( !rc.empty() ) for( size_t i = 0; i < cs.size(); i++ ) for( auto v : *cs[i]->vars ) if( rnd(v) && rc[v] == 1 && !vs.count(v) && cs[i]->op == O_XOR ) in[i] = 1;
   while( ch ) {
      ch = false;
      while( !work.empty() ) { uint32_t v = work.back(); work.pop_back(); for( Expr* s : g_vars[v].side ) { out.push_back(s); addVars(*s->vars); } }
      for( size_t i = 0; i < cs.size(); i++ ) if( !in[i] ) {
         bool hit = false; for( auto v : *cs[i]->vars ) if( vs.count(v) ) { hit = true; break; }
         if( hit ) { in[i] = 1; ch = true; out.push_back(cs[i]); addVars(*cs[i]->vars); }
      }
   }
   std::sort(out.begin(), out.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
   out.erase(std::unique(out.begin(), out.end()), out.end());
   return out;
}
static void collectVars(const std::vector<Expr*>& cs, std::set<uint32_t>& vs) { for( Expr* e : cs ) for( auto v : *e->vars ) if( g_vars[v].name != "!uf" ) vs.insert(v); }

static void readModel(Z3_model m, const std::set<uint32_t>& vs, Model& out) {
   for( uint32_t v : vs ) {
      VarInfo& vi = g_vars[v];
      Expr* ve = mkVar(vi.name, vi.w, vi.sort);
      Z3_ast r;
      if( !Z3_model_eval(C, m, tr(ve), true, &r) ) continue;
      double d = 0; uint64_t b = 0;
      if( vi.sort == S_DBL ) {
         if( g_mode == REAL ) {
            if( Z3_is_numeral_ast(C, r) && Z3_get_ast_kind(C, r) == Z3_NUMERAL_AST ) { 
               std::string s = Z3_get_numeral_string(C, r); mpq_t q; mpq_init(q); mpq_set_str(q, s.c_str(), 10); mpq_canonicalize(q); d = mpq_get_d(q); 
               // mpq_get_d truncates; choose the nearest of it and its neighbours
               mpq_t t, best; mpq_init(t); mpq_init(best); double cand[3] = {d, std::nextafter(d, INFINITY), std::nextafter(d, -INFINITY)}; double bd = d; bool first = true;
               for( double c : cand ) if( std::isfinite(c) ) { mpq_set_d(t, c); mpq_sub(t, t, q); mpq_abs(t, t); if( first || mpq_cmp(t, best) < 0 ) { mpq_set(best, t); bd = c; first = false; } }
               d = bd; mpq_clear(t); mpq_clear(best); mpq_clear(q); }
            else if( Z3_is_algebraic_number(C, r) ) { std::string s = Z3_get_numeral_decimal_string(C, r, 30); if( !s.empty() && s.back() == '?' ) s.pop_back(); d = strtod(s.c_str(), nullptr); }
         } else {
            // to_ieee_bv evaluation
            Z3_ast bvz; if( Z3_fpa_is_numeral_nan(C, r) ) { d = NAN; } else { bvz = Z3_mk_fpa_to_ieee_bv(C, r); Z3_ast rr; if( Z3_model_eval(C, m, bvz, true, &rr) ) { uint64_t u = 0; Z3_get_numeral_uint64(C, rr, &u); d = asD(u); } }
         }
         b = fromD(d);
      } else if( vi.w == 1 ) { b = Z3_get_bool_value(C, r) == Z3_L_TRUE; }
      else Z3_get_numeral_uint64(C, r, &b);
      out[v] = {d, b};
   }
}
static Res runSolver(Z3_solver s, const std::vector<Expr*>& cs, unsigned tmo, Model* m, const std::set<uint32_t>& vs) {
   Z3_solver_inc_ref(C, s);
   Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
   Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), tmo);
   Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
   for( Expr* e : cs ) Z3_solver_assert(C, s, tr(e));
   Z3_lbool r = Z3_solver_check(C, s);
   Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
   if( getenv("SYM_DEBUG") && res == UNKNOWN ) fprintf(stderr, "unknown: %s\n%s\n", Z3_solver_get_reason_unknown(C, s), getenv("SYM_DUMP") ? Z3_solver_to_string(C, s) : "");
   if( res == SAT && m ) { Z3_model mo = Z3_solver_get_model(C, s); if( mo ) { Z3_model_inc_ref(C, mo); readModel(mo, vs, *m); Z3_model_dec_ref(C, mo); } }
   Z3_solver_dec_ref(C, s);
   return res;
}
static Z3_solver g_simple = nullptr; static int g_simpleUses = 0;
Res solveRaw(const std::vector<Expr*>& cs, Model* m, const std::vector<Expr*>* mv, bool hard) {
   auto t0 = std::chrono::steady_clock::now();
   g_ss.queries++;
   bool hasBV = false, nl = false; std::unordered_set<Expr*> seen;
   if( g_mode == REAL ) for( Expr* e : cs ) nl |= isNonlinear(e, seen, hasBV);
   std::set<uint32_t> vs; if( m ) { collectVars(cs, vs); if( mv ) collectVars(*mv, vs); }
   Res res = UNKNOWN;
   if( g_mode == REAL && nl && !hasBV ) {
      // smt core first (short), then nlsat
      res = runSolver(Z3_mk_simple_solver(C), cs, std::min(TMO, 1500u), m, vs);
      if( res == UNKNOWN ) { g_ss.fallback++; res = runSolver(Z3_mk_solver_from_tactic(C, Z3_mk_tactic(C, "qfnra-nlsat")), cs, hard ? HARD : TMO, m, vs); }
      if( res == UNKNOWN ) { res = runSolver(Z3_mk_solver(C), cs, hard ? HARD : TMO, m, vs); }
   } else if( g_mode == FPM ) {
      res = runSolver(Z3_mk_solver(C), cs, hard ? HARD : TMO, m, vs);
   } else {
      res = runSolver(Z3_mk_simple_solver(C), cs, hard ? HARD / 2 : TMO, m, vs);
      if( res == UNKNOWN ) { g_ss.fallback++; res = runSolver(Z3_mk_solver(C), cs, hard ? HARD : TMO, m, vs); }
   }
   double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
   g_ss.time += dt; g_ss.maxTime = std::max(g_ss.maxTime, dt);
   if( getenv("SYM_DEBUG") && dt > 0.1 ) { fprintf(stderr, "slow query %.2fs res=%d n=%zu\n", dt, res, cs.size()); if( getenv("SYM_DEBUG")[0] == 0x32 ) for( Expr* e : cs ) fprintf(stderr, "    %s\n", exprStr(e, 20).substr(0, 600).c_str()); }
   if( res == SAT ) g_ss.sat++; else if( res == UNSAT ) g_ss.unsat++; else g_ss.unknown++;
   return res;
}
