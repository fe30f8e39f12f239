//! {"quick":["0-3","20-21"],"thorough":["0-3","20-21","50-53"],"level":"model_checking",
//!  "reach":["solved","memory","outofmemory","singular","inertia","fatal","quality","deps","restart"],
//!  "bounds":["every history of 2 (thorough: 3) requests (new or same matrix, request for more accuracy in between, restart with the same structure) with every answer of the factorization library at every phase (ordering, factorization incl. 0, 1, 2, 20, 21 complaints about memory, back solve), arbitrary error codes, inertia counts, matrix values and right-hand sides; pivot tolerances and memory settings from small sets","detection of dependent rows: any answer, any list of up to 3 rows"],
//!  "assumptions":["the factorization library is a stand-in that answers arbitrarily; it keeps its factors until the next factorization"],
//!  "outside":["MUMPS itself (Fortran)","other linear solver libraries (not installed)"]}
#include "fix.h"
#include "IpMumpsSolverInterface.hpp"
#include "dmumps_c.h"
struct Ans { int sym, mem, fac, sol, neg; };
static Ans an; static int jobs[8], memleft; static bool factored, ordered, deprun; static double pv; static int memp; static VD vals; static VD rhs_in; static int nsol; static int IR[3] = {1, 2, 2}, JC[3] = {1, 1, 2}; static std::vector<int> deplist; static bool relaxmem; static double deptol = 0.;
static int neg_code(const char* n, int notA, int notB, int notC) { int e = (int) symi(n, -60, -1); ASSUME(e != notA); ASSUME(e != notB); ASSUME(e != notC); return e; }
static int npiv; static MUMPS_INT pivlist[3];
extern "C" void dmumps_c(DMUMPS_STRUC_C* m)
{
   for( int i = 0; i < 40; i++ ) m->info[i] = m->infog[i] = 0;
   if( m->job == -1 ) { CHECK(m->sym == 2 && m->par == 1, "general symmetric matrix"); jobs[0]++; ordered = factored = false; return; }
   if( m->job == -2 ) { jobs[7]++; return; }
   CHECK(m->n == 2 && m->nz == 3 && m->irn[0] == 1 && m->irn[1] == 2 && m->irn[2] == 2 && m->jcn[0] == 1 && m->jcn[1] == 1 && m->jcn[2] == 2, "structure handed to the library");
   if( m->job == 1 )
   {
      jobs[1]++; ordered = factored = false; CHECKEQ(m->cntl[0], pv, "pivot tolerance (ordering)"); CHECK(m->icntl[13] == memp || relaxmem, "memory setting"); CHECK(m->icntl[12] == 1, "inertia is requested to be exact");
      int e = an.sym == 0 ? 0 : an.sym == 1 ? -6 : neg_code("ordering error", -6, 0, 0); m->info[0] = m->infog[0] = e; if( e >= 0 ) ordered = true; memleft = an.mem; return;
   }
   if( m->job == 2 )
   {
      jobs[2]++; CHECK(ordered, "factorization only after ordering"); factored = false; CHECKEQ(m->cntl[0], pv, "pivot tolerance in force"); CHECK((m->icntl[23] != 0) == deprun, "detection of null pivots only when dependent rows are sought"); if( deprun ) CHECKEQ(m->cntl[2], deptol, "dependency tolerance");
      if( !deprun ) for( int k = 0; k < 3; k++ ) CHECKEQ(m->a[k], vals[k], "the factorized values are those of the current matrix"); 
      CHECK(m->icntl[13] >= memp, "memory is not reduced"); if( jobs[3] ) CHECK(m->icntl[13] > memp, "memory is increased after a complaint"); memp = m->icntl[13];
      if( memleft > 0 ) { memleft--; jobs[3]++; REACH("memory"); m->info[0] = m->infog[0] = (memleft & 1) ? -8 : -9; m->infog[11] = 77; return; }
      jobs[3] = 0; int e = an.fac == 0 ? 0 : an.fac == 1 ? -10 : an.fac == 2 ? -13 : neg_code("factorization error", -8, -9, -10); if( an.fac == 2 ) m->info[1] = symbf("MB") ? -5 : 5; m->info[0] = m->infog[0] = e; m->infog[11] = an.neg; if( e >= 0 ) { factored = true; if( deprun ) { m->infog[27] = npiv; m->pivnul_list = pivlist; } } return;
   }
   if( m->job == 3 )
   {
      CHECK(factored, "back solve only with valid factors"); for( int i = 0; i < 2; i++ ) CHECKEQ(m->rhs[i], rhs_in[nsol * 2 + i], "right-hand side"); nsol++; int e = an.sol == 0 ? 0 : neg_code("solve error", 0, 0, 0); m->info[0] = m->infog[0] = e; for( int i = 0; i < 2; i++ ) m->rhs[i] = m->rhs[i] * 2. + 1.; return;
   }
   CHECK(false, "known phase");
}
static void hist(int mode, int steps)
{
   Fix fx; double piv = 1e-4, pmax = .1; if( mode == 1 ) { piv = .04; pmax = .04; fx.opt().SetNumericValue("mumps_pivtolmax", pmax); } if( mode == 2 ) { piv = .25; pmax = .25; } if( mode == 3 ) pmax = .2;
   fx.opt().SetNumericValue("mumps_pivtol", piv); if( mode == 3 ) fx.opt().SetNumericValue("mumps_pivtolmax", pmax); memp = mode == 1 ? 0 : mode == 2 ? 1 << 29 : 1000; if( mode == 1 || mode == 2 ) fx.opt().SetIntegerValue("mumps_mem_percent", memp);
   SmartPtr<QTNLP> t = new QTNLP(1, 0); fx.build(t); CHECK(fx.ok, "set up"); pv = piv; int mem0 = memp;
   {
   SmartPtr<MumpsSolverInterface> s = new MumpsSolverInterface(); CHECK(s->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, fx.opt(), ""), "initialization"); CHECK(s->MatrixFormat() == SparseSymLinearSolverInterface::Triplet_Format && s->ProvidesInertia(), "kind of solver");
   CHECK(s->InitializeStructure(2, 3, IR, JC) == SYMSOLVER_SUCCESS, "structure"); bool havefac = false, valid = false, needref = false;
   for( int st = 0; st < steps; st++ )
   {
      int pre = st ? symfork("before", 0, 3) : 1; bool nm_ = pre == 1 || pre == 3; if( pre == 2 || (pre == 1 && st && symbf("more accuracy first")) ) { bool r = s->IncreaseQuality(); CHECK(r == (pv != pmax), "more accuracy is possible until the largest pivot tolerance is used"); if( r ) { pv = std::sqrt(pv); if( pv > pmax ) pv = pmax; needref = true; REACH("quality"); } }
      if( pre == 3 ) { fx.opt().SetStringValue("warm_start_same_structure", "yes"); CHECK(s->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, fx.opt(), ""), "initialization again"); CHECK(s->InitializeStructure(2, 3, IR, JC) == SYMSOLVER_SUCCESS, "structure again"); pv = piv; relaxmem = true; memp = mem0; havefac = valid = needref = false; REACH("restart"); }
      if( !nm_ && !valid && !needref ) return;      // nothing to solve with: not a legal request
      if( nm_ ) { vals.resize(3); for( int k = 0; k < 3; k++ ) vals[k] = symdi("a", k); Number* p = s->GetValuesArrayPtr(); for( int k = 0; k < 3; k++ ) p[k] = vals[k]; }
      int nrhs = st == 0 ? symfork("rhs", 1, 2) : 1; rhs_in.clear(); nsol = 0; for( int k = 0; k < 2 * nrhs; k++ ) rhs_in.push_back(symdi("b", k)); VD r(rhs_in); bool chk = symbf("check inertia"); int want = (int) symi("wanted inertia", 0, 2); if( !chk ) want = 0;
      static const int MC[5] = {0, 1, 2, 20, 21}; an.sym = jobs[1] && havefac ? 0 : symfork("ordering", 0, 2); an.mem = an.sym == 0 ? MC[symfork("memory", 0, st == 0 ? 4 : 1)] : 0; an.fac = an.sym == 0 && an.mem < 21 ? symfork("factorization", 0, 3) : 0; an.sol = an.sym == 0 && an.mem < 21 && an.fac == 0 ? symfork("back solve", 0, 1) : 0; an.neg = (int) symi("found inertia", 0, 2); memleft = an.mem; jobs[3] = 0; if( st || mode == 2 ) relaxmem = true;
      bool ovf = false; ESymSolverStatus q; bool refac = nm_ || needref; int j2 = jobs[2];
      try { q = s->MultiSolve(nm_, IR, JC, nrhs, &r[0], chk, want); if( !nm_ && needref ) { CHECK(q == SYMSOLVER_CALL_AGAIN, "values are requested again to refactorize"); Number* p = s->GetValuesArrayPtr(); for( int k = 0; k < 3; k++ ) p[k] = vals[k]; q = s->MultiSolve(nm_, IR, JC, nrhs, &r[0], chk, want); } } catch( std::overflow_error& ) { ovf = true; }
      if( ovf ) { CHECK(memp == 2147483647 && jobs[3] > 0, "giving up only if memory cannot be increased any more"); return; }
      CHECK((jobs[2] > j2) == (refac && an.sym == 0), "factorized exactly when needed");
      ESymSolverStatus e;
      if( !refac ) e = an.sol ? SYMSOLVER_FATAL_ERROR : SYMSOLVER_SUCCESS;
      else if( an.sym ) e = an.sym == 1 ? SYMSOLVER_SINGULAR : SYMSOLVER_FATAL_ERROR; else if( an.mem > 20 ) { e = SYMSOLVER_FATAL_ERROR; REACH("outofmemory"); } else if( an.fac ) e = an.fac == 1 ? SYMSOLVER_SINGULAR : SYMSOLVER_FATAL_ERROR;
      else { CHECK(s->NumberOfNegEVals() == an.neg, "number of negative eigenvalues"); if( chk && want != an.neg ) { e = SYMSOLVER_WRONG_INERTIA; an.sol = 0; REACH("inertia"); } else e = an.sol ? SYMSOLVER_FATAL_ERROR : SYMSOLVER_SUCCESS; }
      CHECK(q == e, "answer of the linear solver"); if( e == SYMSOLVER_SINGULAR ) REACH("singular"); if( e == SYMSOLVER_FATAL_ERROR ) { REACH("fatal"); return; }
      if( e == SYMSOLVER_SUCCESS ) { CHECK(nsol == nrhs, "all systems are solved"); for( int k = 0; k < 2 * nrhs; k++ ) CHECKEQ(r[k], 2. * rhs_in[k] + 1., "solution is returned in place"); valid = true; REACH("solved"); } else valid = false;
      if( refac ) { if( an.sym == 0 ) havefac = true; needref = !(e == SYMSOLVER_SUCCESS) && !nm_; }
   }
   }
   CHECK(jobs[0] == 1 && jobs[7] == 1, "library instance is released exactly once");
}
static void deps(int mode)
{
   Fix fx; deptol = .5; pv = 1e-6; memp = 1000; fx.opt().SetNumericValue("mumps_dep_tol", deptol); if( mode == 1 ) { memp = 5; fx.opt().SetIntegerValue("mumps_mem_percent", 5); } SmartPtr<QTNLP> t = new QTNLP(1, 0); fx.build(t); int mem0 = memp; (void) mem0;
   SmartPtr<MumpsSolverInterface> s = new MumpsSolverInterface(); CHECK(s->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, fx.opt(), ""), "initialization"); CHECK(s->ProvidesDegeneracyDetection(), "detection available"); s->InitializeStructure(2, 3, IR, JC); vals = VD{1., 2., 3.}; Number* p = s->GetValuesArrayPtr(); for( int k = 0; k < 3; k++ ) p[k] = vals[k];
   static const int MC[5] = {0, 1, 2, 20, 21}; an.sym = symfork("ordering", 0, 2); an.mem = an.sym ? 0 : MC[symfork("memory", 0, 4)]; an.fac = an.sym == 0 && an.mem < 21 ? symfork("factorization", 0, 3) : 0; an.neg = 0; memleft = an.mem; npiv = symfork("dependent rows", 0, 3); for( int k = 0; k < npiv; k++ ) pivlist[k] = (int) symi("row", 1, 3);
   deprun = true; std::list<Index> out; out.push_back(55); ESymSolverStatus q = s->DetermineDependentRows(IR, JC, out); deprun = false; bool ok = an.sym == 0 && an.mem < 21 && an.fac == 0; CHECK((q == SYMSOLVER_SUCCESS) == ok, "answer of the detection"); 
   if( ok ) { CHECK((int) out.size() == npiv, "number of dependent rows"); int k = 0; for( std::list<Index>::iterator i = out.begin(); i != out.end(); ++i, ++k ) CHECK(*i == pivlist[k] - 1, "dependent rows counted from zero"); REACH("deps"); } else CHECK(out.empty(), "no rows without a result");
   if( q == SYMSOLVER_SUCCESS ) { an.sol = 0; an.mem = 0; an.neg = 1; an.fac = 0; memleft = 0; rhs_in = VD{1., 2.}; nsol = 0; VD r(rhs_in); CHECK(s->MultiSolve(true, IR, JC, 1, &r[0], true, 1) == SYMSOLVER_SUCCESS, "solving afterwards without detection"); }
}
extern "C" int sym_main()
{
   int c = __sym_case();
   if( c < 10 ) hist(c, 2); else if( c < 30 ) deps(c - 20); else hist(c - 50, 3);
   return 0;
}
