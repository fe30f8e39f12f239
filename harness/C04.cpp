//! {"quick":["0-49"],"thorough":["50-99"],"level":"model_checking","mode":"real","reach":["stopped","limit","clock","solved","resto"],
//!  "bounds":["ten concrete problems (equalities, inequalities, fixed variables, square, infeasible, restoration, unbounded, unconstrained), complete runs","stop request at any of the first 25 iteration callbacks (thorough: 61)","max_iter any value 0..24 (thorough: 0..60)","CPU or wall clock passing its limit at any of the first 24 readings (thorough: 60) (everything else finishing in no time)"],
//!  "assumptions":["linear solver replaced by a dense LDL^T stand-in with the MUMPS calling convention","clock readings are 0 before the jump and grow with every reading after it"],
//!  "outside":["time spent inside one user function or linear solve"]}
#include "solve.h"
#include <sys/resource.h>
#include <sys/time.h>
static int ticks = 0, jump = -1, which = 0; static SolveTNLP* cur = NULL; static int jump_iter = -2; static int jump_cb = -1;
static long now(int w) { if( w != which ) return 0; if( jump < 0 ) return 0; if( ticks++ < jump ) return 0; if( jump_iter == -2 && cur ) { jump_iter = cur->last_iter; jump_cb = cur->cb_n; } return 5000L * (ticks - jump); }
extern "C" int getrusage(__rusage_who_t, struct rusage* u) noexcept { char* p = (char*) u; for( unsigned i = 0; i < sizeof(*u); i++ ) p[i] = 0; u->ru_utime.tv_sec = now(1); return 0; }
extern "C" int gettimeofday(struct timeval* t, void*) noexcept { t->tv_sec = now(2); t->tv_usec = 0; return 0; }
struct StopTNLP: public SolveTNLP { int evals_at_stop, stopped_mode, ev; int gap_bad, minit; std::vector<double> xs_; bool started; StopTNLP() : SolveTNLP(0, 0), evals_at_stop(-1), stopped_mode(-1), ev(0), gap_bad(0), minit(-1), started(false) {}
   bool intermediate_callback(AlgorithmMode mode, Index iter, Number obj, Number a, Number b, Number c_, Number d_, Number e, Number f, Number h, Index ls, const IpoptData* d, IpoptCalculatedQuantities* q) {
      if( !started ) { if( iter != 0 ) gap_bad++; started = true; } else if( iter > last_iter + 1 ) gap_bad++; bool r = SolveTNLP::intermediate_callback(mode, iter, obj, a, b, c_, d_, e, f, h, ls, d, q); if( !r ) { stopped_mode = mode; evals_at_stop = calls; if( mode == RegularMode ) xs_ = lastx; } return r; } };
extern "C" int sym_main()
{
   int c = __sym_case(); int p = c % 10, md = c / 10 % 5, lim = c < 50 ? 24 : 60; SmartPtr<SolveTNLP> base = problem(p); SmartPtr<StopTNLP> t = new StopTNLP(); t->take(*base); cur = GetRawPtr(t); t->cb_check = true;
   SmartPtr<IpoptApplication> app = mkapp(); int N = -1, k = -1; bool resto2 = false;
   if( md == 4 ) { md = 1; resto2 = true; app->Options()->SetStringValue("start_with_resto", "yes"); }
   if( md == 0 ) { k = symi("stop_at", 0, lim); t->stop_at = k; }
   if( md == 1 ) { N = symi("max_iter", 0, lim); app->Options()->SetIntegerValue("max_iter", N); }
   if( md == 2 || md == 3 ) { which = md - 1; jump = symi("jump", 1, lim); app->Options()->SetNumericValue(md == 2 ? "max_cpu_time" : "max_wall_time", 1000.); }
   app->Initialize(""); bool threw = false; ApplicationReturnStatus st = Internal_Error;
   try { st = app->OptimizeTNLP(GetRawPtr(t)); } catch( ... ) { threw = true; }
   CHECK(!threw, "no exception escapes"); if( threw ) return 0; CHECK(t->n_fin == 1, "solution delivered exactly once"); if( t->n_fin != 1 ) return 0;
   CHECK(t->finite(), "delivered values are finite"); CHECK(t->consistent(), "reported objective and constraints are those of the reported point"); CHECK(t->order_bad == 0 && t->gap_bad == 0, "iteration numbers start at zero and advance by one"); CHECK(t->cb_bad == 0, "values shown during the run are those of the user functions"); if( t->resto_seen ) REACH("resto");
   CHECK((st == User_Requested_Stop) == (t->status == USER_REQUESTED_STOP) && (st == Maximum_Iterations_Exceeded) == (t->status == MAXITER_EXCEEDED) && (st == Maximum_CpuTime_Exceeded) == (t->status == CPUTIME_EXCEEDED) && (st == Maximum_WallTime_Exceeded) == (t->status == WALLTIME_EXCEEDED) && (st == Solve_Succeeded) == (t->status == SUCCESS) && (st == Infeasible_Problem_Detected) == (t->status == LOCAL_INFEASIBILITY) && (st == Restoration_Failed) == (t->status == RESTORATION_FAILURE) && (st == Diverging_Iterates) == (t->status == DIVERGING_ITERATES), "return code and delivered status agree");
   SmartPtr<SolveStatistics> ss = app->Statistics(); if( IsValid(ss) ) CHECK(ss->IterationCount() >= t->last_iter, "statistics report the iterations performed");
   if( md == 0 ) {
      bool asked = t->n_ic > k; CHECK(asked == (st == User_Requested_Stop), "a stop request, and nothing else, ends the run with that status");
      if( asked ) { REACH("stopped"); CHECK(t->n_ic == k + 1, "no further iteration callback after a stop request"); CHECK(t->calls - t->evals_at_stop <= 5, "no further work after a stop request");
         if( t->stopped_mode == RegularMode && t->xs_.size() ) { bool same = true; for( int i = 0; i < t->n; i++ ) same = same && t->xs_[i] == t->fx[i]; CHECK(same, "the delivered point is the one at which the stop was requested"); } } }
   if( md == 1 ) { CHECK(t->last_iter <= N, "no more iterations than allowed"); if( st == Maximum_Iterations_Exceeded ) { REACH("limit"); CHECK(t->last_iter == N, "iteration limit status only when the limit is reached"); } }
   if( md >= 2 ) { bool hit = st == (md == 2 ? Maximum_CpuTime_Exceeded : Maximum_WallTime_Exceeded); if( hit ) { REACH("clock"); CHECK(jump_iter != -2, "time limit status only after the clock passed the limit"); CHECK(t->last_iter <= jump_iter + 1 && t->cb_n <= jump_cb + 2, "the run ends at the next check of the clock"); } else CHECK(jump_iter == -2 || t->cb_n <= jump_cb + 1, "a run does not go on after its time limit"); }
   CHECK((st != Maximum_CpuTime_Exceeded || (md == 2)) && (st != Maximum_WallTime_Exceeded || md == 3) && (st != User_Requested_Stop || md == 0) && (st != Maximum_Iterations_Exceeded || md == 1), "only the limit that was reached is reported");
   if( st == Solve_Succeeded ) { REACH("solved"); CHECK(t->stat(true) < 1e-3 && t->viol() < 1e-4 && t->comp() < 1.1e-4 && t->sign(), "success is reported for a KKT point only"); }
   return 0;
}
