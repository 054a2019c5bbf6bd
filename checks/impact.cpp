// P11: impact step and impact operators
#include "maps.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GRROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorQL.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperatorUtilities.h"
#include "scisim/Math/QL/QLUtilities.h"
#include <limits>
static void impStep( int dim, int which )
{
  World w( dim, 3, some( which ) ); const int n = int( w.act.size() ); const bool warm = vp_choose( "warm", 0, 2 ); Script cb; cb.setCor = vp_choose( "scripted", 0, 2 ); cb.cor = sv( "corS", n, 0, 1 ); const double cor = vp_real( "cor", 0, 0, 1 );
  const bool had0 = vp_choose( "had", 0, 2 ); VectorXs c0( 1 ), cx( 1 ); c0( 0 ) = vp_real( "cached", 0, 0, 50 ); cx( 0 ) = 3.0; if( had0 ) w.cs.cache[0] = c0; w.cs.cache[77] = cx;
  TwoStage um; for( int k = 0; k < 2; ++k ) { um.outQ[k] = sv( k ? "qf" : "qp", w.sys.n, -100, 100 ); um.outV[k] = sv( k ? "vf" : "vp", w.sys.n, -100, 100 ); }
  Recorder op; op.sys = &w.sys; ImpactMap map( warm ); const double dt = vp_real( "dt", 0, 0.0001, 1 ); const unsigned it = 7;
  VectorXs q1( w.sys.n ), v1( w.sys.n ); const VectorXs q0 = w.q0, v0 = w.v0;
  map.flow( cb, w.sys, w.cs, um, op, it, dt, cor, w.q0, w.v0, q1, v1 );
  samev( w.q0, q0, "the start of the step is not modified" ); samev( w.v0, v0, "the start of the step is not modified" );
  vp_check( w.cs.calls == 1, "contacts are detected once" ); samev( w.cs.q0, q0, "contacts are sought from the start configuration" ); samev( w.cs.qp, um.outQ[0], "contacts are sought towards the predicted configuration" ); samev( w.cs.v0, v0, "contacts are sought with the start velocity" );
  vp_check( um.inQ.size() >= 1 && um.its[0] == it, "the predictor runs for this step" ); samev( um.inQ[0], q0, "the predictor starts from the start of the step" ); samev( um.inV[0], v0, "the predictor starts from the start of the step" ); vp_check_same( um.dts[0], dt, "the predictor uses the step size" );
  if( n == 0 )
  {
    vp_check( op.calls == 0 && um.inQ.size() == 1, "without contacts there is no response" ); samev( q1, um.outQ[0], "without contacts the prediction is the result" ); samev( v1, um.outV[0], "without contacts the prediction is the result" ); vp_check( w.cs.cache.empty(), "without contacts no impulse stays cached" );
    vp_cover( "end" ); return;
  }
  vp_check( op.calls == 1, "the response is computed once" ); samev( op.q0, q0, AT_START ); samev( op.v0, v0, "the response is computed from the start velocity" ); samev( op.v0F, v0, "without friction the frictional velocity is the start velocity" );
  vp_check( cb.corCalls == 1 && int( cb.nset ) == n, "scripting may set the restitution of every contact" ); for( int k = 0; k < n; ++k ) { vp_check_same( cb.corIn( k ), cor, "restitution defaults to the given coefficient" ); vp_check_same( op.CoR( k ), cb.setCor ? cb.cor( k ) : cor, "each contact gets its restitution coefficient" ); }
  for( int k = 0; k < n; ++k ) { const Fake& f = static_cast<const Fake&>( *w.act[k] ); vp_check_eq( op.nrel( k ), -f.along( 0 ), "scripted surface motion enters the relative velocity" ); vp_check_same( op.guess( k ), warm && had0 && f.id == 0 ? c0( 0 ) : 0.0, "the initial guess is the impulse cached for the same contact, if caching is on" ); }
  vp_check( um.inQ.size() == 2 && um.its[1] == it, "the final flow runs once for this step" ); samev( um.inQ[1], q0, "the final flow starts from the start configuration" ); eqv( um.inV[1], applyN( w.act, w.sys, v0, op.out ), "the final flow starts from the velocity after the impulses" ); vp_check_same( um.dts[1], dt, "the final flow uses the step size" );
  samev( q1, um.outQ[1], "the step ends where the final flow ends" ); samev( v1, um.outV[1], "the step ends where the final flow ends" );
  vp_check( int( w.cs.cache.size() ) == ( warm ? n : 0 ), "exactly this step's impulses are cached, if caching is on" );
  if( warm ) for( int k = 0; k < n; ++k ) { const VectorXs& r = w.cs.cache[static_cast<const Fake&>( *w.act[k] ).id]; vp_check( r.size() == 1, "one impulse per contact" ); vp_check_same( r( 0 ), op.out( k ), "each contact caches its own impulse" ); }
  vp_cover( "end" );
}
VP_HARNESS( imp_step_none ) { impStep( 2, 0 ); }
VP_HARNESS( imp_step_pair ) { impStep( 2, 1 ); }
VP_HARNESS( imp_step_wall ) { impStep( 2, 2 ); }
VP_HARNESS( imp_step_chain ) { impStep( 2, 3 ); }
VP_HARNESS( imp_step_mixed ) { impStep( 2, 4 ); }
VP_HARNESS( imp_step_3d ) { impStep( 3, 4 ); }
// ---- operators on given problems
struct Problem
{
  World w; int n; SparseMatrixsc N, Q; VectorXs nrel, CoR, v0F;
  Problem( int dim, int nb, std::vector<Spec> k, bool oneCor, bool simple = false ) : w( dim, nb, k ), n( int( k.size() ) ), N( w.sys.n, n ), nrel( n ), CoR( n ), v0F( w.v0 )
  {
    if( simple ) w.fix();
    ImpactOperatorUtilities::computeN( w.sys, w.act, w.q0, N ); Q = N.transpose() * w.sys.MI * N; ImpactOperatorUtilities::evalKinematicRelativeVelocityN( w.q0, w.act, nrel );
    for( int k2 = 0; k2 < n; ++k2 ) CoR( k2 ) = oneCor && k2 ? CoR( 0 ) : vp_real( "cor", k2, 0, 1 );
  }
  double before( int k ) const { return static_cast<const Fake&>( *w.act[k] ).normalVel( w.v0 ); }
  double beforeF( int k ) const { return static_cast<const Fake&>( *w.act[k] ).normalVel( v0F ); }
  double after( int k, const VectorXs& alpha ) const { return static_cast<const Fake&>( *w.act[k] ).normalVel( applyN( w.act, w.sys, v0F, alpha ) ); }
};
// ---- quadratic programming operator: the external solver is replaced by one that records its problem and returns a solution of it
static Problem* gP = nullptr; static int gQL = 0; static double gTol = 0; static bool gSolve = false; static VectorXs gX;
static const char* QLM = "the quadratic program is the contact problem";
extern "C" void ql_( int* m, int* me, int* mmax, int* n, int* nmax, int* mnn, double* c, double* d, double* a, double* b, double* xl, double* xu, double* x, double* u, double* eps, int* mode, int* iout, int* ifail, int* iprint, double* war, int* lwar, int* iwar, int* liwar )
{
  ++gQL; const int k = gP->n; vp_check( *m == 0 && *me == 0 && *n == k && *nmax >= k && *mnn == *m + 2 * *n && *mode == 1, QLM ); vp_check_same( *eps, gTol, "the solver gets the operator's tolerance" );
  vp_check( *lwar >= 3 * *nmax * *nmax / 2 + 10 * *nmax + *mmax + 1 && *liwar >= *n, "the solver gets enough working space" ); war[0] = war[*lwar - 1] = 0.0; iwar[0] = iwar[*liwar - 1] = 0; u[0] = u[*mnn - 1] = 0.0;
  for( int i = 0; i < k; ++i ) for( int j = 0; j < k; ++j ) vp_check_eq( c[i + *nmax * j], at( gP->Q, i, j ), QLM );
  for( int i = 0; i < k; ++i )
  {
    vp_check_eq( d[i], gP->beforeF( i ) + gP->CoR( i ) * gP->before( i ), "the linear term is the approach velocity plus the restitution share of the initial approach velocity" );
    vp_check_eq( xl[i], 0.0, "impulses are bounded below by zero" ); vp_check( xu[i] > 1.0e12, "impulses are not bounded above" );
  }
  gX = sv( "x", k, 0, 1000 );
  if( gSolve ) for( int i = 0; i < k; ++i ) { double w = d[i]; for( int j = 0; j < k; ++j ) w += c[i + *nmax * j] * gX( j ); vp_assume( w >= 0.0 ); if( vp_choose( "on", i, 2 ) ) vp_assume( w == 0.0 ); else { vp_assume( gX( i ) == 0.0 ); } }
  for( int i = 0; i < k; ++i ) x[i] = gX( i );
  *ifail = 0;
}
static void qlLaw( int dim, int nb, std::vector<Spec> k )
{
  Problem p( dim, nb, k, false ); p.v0F = sv( "vF", p.w.sys.n, -100, 100 ); gP = &p; gTol = vp_real( "tol", 0, 0, 1 ); LCPOperatorQL op( gTol ); VectorXs alpha = sv( "guess", p.n, 0, 10 );
  op.flow( p.w.act, p.w.sys.MM, p.w.sys.MI, p.w.q0, p.w.v0, p.v0F, p.N, p.Q, p.nrel, p.CoR, alpha ); vp_check( gQL == 1, "the solver runs once" ); samev( alpha, gX, "the impulses are the solver's solution" ); vp_cover( "end" );
}
VP_HARNESS( imp_ql_one ) { qlLaw( 2, 2, { { 0, 0, 1 } } ); }
VP_HARNESS( imp_ql_two ) { qlLaw( 2, 3, { { 0, 0, 1 }, { 1, 2, -1 } } ); }
VP_HARNESS( imp_ql_chain ) { qlLaw( 2, 3, { { 0, 0, 1 }, { 1, 1, 2 } } ); }
// with a solved contact problem: Newton's restitution law and energy
VP_HARNESS( imp_newton )
{
  Problem p( 2, 2, vp_choose( "wall", 0, 2 ) ? std::vector<Spec>{ { 0, 0, -1 } } : std::vector<Spec>{ { 0, 0, 1 } }, false ); gP = &p; gSolve = true; LCPOperatorQL op( gTol ); VectorXs alpha = VectorXs::Zero( 1 );
  op.flow( p.w.act, p.w.sys.MM, p.w.sys.MI, p.w.q0, p.w.v0, p.w.v0, p.N, p.Q, p.nrel, p.CoR, alpha );
  const double b = p.before( 0 ), a = p.after( 0, alpha ); vp_check_le( 0.0, alpha( 0 ), "impulses push" ); vp_check_le( -p.CoR( 0 ) * b, a, "the separation speed is at least the restitution share of the approach speed" );
  if( alpha( 0 ) > 0.0 ) { vp_check_eq( a, -p.CoR( 0 ) * b, "a contact that pushes separates at exactly the restitution share of its approach speed" ); vp_check_le( b, 0.0, "only approaching contacts push" ); vp_cover( "push" ); } else vp_cover( "idle" );
}
// ---- Gauss-Seidel
static void gsLaw( int dim, int nb, std::vector<Spec> k, int bound, bool oneCor, bool simple = false )
{
  Problem p( dim, nb, k, oneCor, simple ); const double tol = vp_real( "tol", 0, 0, 0.5 ); GaussSeidelOperator op( tol ); VectorXs alpha = VectorXs::Zero( p.n ); int left = bound; for( auto& c : p.w.act ) static_cast<Fake&>( *c ).evals = &left;
  op.flow( p.w.act, p.w.sys.MM, p.w.sys.MI, p.w.q0, p.w.v0, p.w.v0, p.N, p.Q, p.nrel, p.CoR, alpha );
  bool any = false;
  for( int i = 0; i < p.n; ++i )
  {
    vp_check_le( 0.0, alpha( i ), "impulses push" ); vp_check_le( -tol, p.after( i, alpha ), "no contact is left approaching faster than the tolerance" );
    if( left == bound - p.n ) vp_check_eq( alpha( i ), 0.0, "contacts that do not approach are left alone" ); else any = true;
  }
  if( any && p.n == 1 ) vp_check_eq( p.after( 0, alpha ), -p.CoR( 0 ) * p.before( 0 ), "a single contact bounces by its restitution coefficient" );
  if( any ) vp_cover( "hit" ); else vp_cover( "idle" );
}
VP_HARNESS( imp_gs_one ) { gsLaw( 2, 2, { { 0, 0, 1 } }, 2, false ); }
VP_HARNESS( imp_gs_wall ) { gsLaw( 2, 2, { { 0, 0, -1 } }, 2, false ); }
VP_HARNESS( imp_gs_two ) { gsLaw( 2, 3, { { 0, 0, 1 }, { 1, 2, -1 } }, 4, false ); }
VP_HARNESS( imp_gs_chain ) { gsLaw( 2, 3, { { 0, 0, 1 }, { 1, 1, 2 } }, 6, false, true ); }
// ---- GR: repeatedly solves the sub-problem of the contacts still approaching
struct Sub final : ImpactOperator
{
  static Problem* p; static double tol; static VectorXs acc; static int rounds, left;
  void flow( const Set& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q, const VectorXs& v, const VectorXs& vF, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nr, const VectorXs& C, VectorXs& alpha ) override
  {
    vp_assume( left-- > 0 ); ++rounds; const VectorXs now = applyN( p->w.act, p->w.sys, p->w.v0, acc ); eqv( v, now, "each round starts from the velocity after the impulses so far" ); eqv( vF, now, "each round starts from the velocity after the impulses so far" ); samev( q, p->w.q0, AT_START );
    sameSparse( M, p->w.sys.MM, "the inner operator is given the mass matrix" ); sameSparse( Minv, p->w.sys.MI, "the inner operator is given the inverse mass matrix" );
    std::vector<int> idx; for( int k = 0; k < p->n; ++k ) if( static_cast<Fake&>( *p->w.act[k] ).normalVel( now ) < -tol ) idx.push_back( k );
    const int m = int( idx.size() ); vp_check( m > 0 && N.cols() == m && N.rows() == p->w.sys.n && Q.rows() == m && Q.cols() == m && nr.size() == m && C.size() == m && alpha.size() == m, "each round treats exactly the contacts still approaching" );
    for( int k = 0; k < m; ++k )
    {
      for( int r = 0; r < p->w.sys.n; ++r ) vp_check_eq( at( N, r, k ), gdir( p->w.act, idx[k], r, 0 ), "each round treats exactly the contacts still approaching" );
      for( int l = 0; l < m; ++l ) vp_check_eq( at( Q, k, l ), at( p->Q, idx[k], idx[l] ), "the inner problem couples its contacts through the inverse mass" );
      vp_check_eq( nr( k ), p->nrel( idx[k] ), "the inner problem keeps the scripted surface motion" ); vp_check_same( C( k ), p->CoR( idx[k] ), "the inner problem keeps the restitution" ); vp_check_eq( alpha( k ), 0.0, "inner impulses start from zero" );
      alpha( k ) = vp_real( "sub", 4 * rounds + k, 0, 100 ); acc( idx[k] ) += alpha( k );
    }
    const VectorXs then = applyN( p->w.act, p->w.sys, p->w.v0, acc ); for( int k = 0; k < m; ++k ) vp_assume( static_cast<Fake&>( *p->w.act[idx[k]] ).normalVel( then ) >= -tol );
  }
  std::string name() const override { return "sub"; } std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>( new Sub ); } void serialize( std::ostream& ) const override {}
};
Problem* Sub::p = nullptr; double Sub::tol = 0; VectorXs Sub::acc; int Sub::rounds = 0, Sub::left = 0;
static void grLaw( int dim, int nb, std::vector<Spec> k, int bound, bool simple = false )
{
  Problem p( dim, nb, k, true, simple ); Sub::p = &p; Sub::tol = vp_real( "tol", 0, 0, 0.5 ); Sub::acc = VectorXs::Zero( p.n ); Sub::left = bound; GROperator op( Sub::tol, Sub() ); VectorXs alpha = sv( "guess", p.n, 0, 10 );
  op.flow( p.w.act, p.w.sys.MM, p.w.sys.MI, p.w.q0, p.w.v0, p.w.v0, p.N, p.Q, p.nrel, p.CoR, alpha ); eqv( alpha, Sub::acc, "the impulses of all rounds accumulate" );
  for( int i = 0; i < p.n; ++i ) vp_check_le( -Sub::tol, p.after( i, alpha ), "no contact is left approaching faster than the tolerance" );
  if( Sub::rounds ) vp_cover( "hit" ); else vp_cover( "idle" );
}
VP_HARNESS( imp_gr_two ) { grLaw( 2, 3, { { 0, 0, 1 }, { 1, 2, -1 } }, 2, true ); }
VP_HARNESS( imp_gr_chain ) { grLaw( 2, 3, { { 0, 0, 1 }, { 1, 1, 2 } }, 2, true ); }
// ---- GRR: blend of the elastic and the inelastic response
struct Half final : ImpactOperator
{
  bool elastic; static Problem* p; static VectorXs out[2], guess; static int calls[2];
  explicit Half( bool e ) : elastic( e ) {}
  void flow( const Set& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q, const VectorXs& v, const VectorXs& vF, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nr, const VectorXs& C, VectorXs& alpha ) override
  {
    ++calls[elastic]; samev( q, p->w.q0, AT_START ); samev( v, p->w.v0, "both responses start from the initial velocity" ); samev( vF, p->w.v0, "both responses start from the initial velocity" ); sameSparse( M, p->w.sys.MM, "mass" ); sameSparse( Minv, p->w.sys.MI, "mass" ); sameSparse( N, p->N, "both responses get the same contacts" ); sameSparse( Q, p->Q, "both responses get the same contacts" ); samev( nr, p->nrel, "both responses get the same contacts" );
    vp_check( C.size() == p->n && alpha.size() == p->n, "both responses treat every contact" ); for( int k = 0; k < p->n; ++k ) vp_check_same( C( k ), elastic ? 1.0 : 0.0, "the elastic response has restitution one and the inelastic zero" );
    alpha = out[elastic];
  }
  std::string name() const override { return "half"; } std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>( new Half( elastic ) ); } void serialize( std::ostream& ) const override {}
};
Problem* Half::p = nullptr; VectorXs Half::out[2], Half::guess; int Half::calls[2] = { 0, 0 };
VP_HARNESS( imp_grr )
{
  Problem p( 2, 3, { { 0, 0, 1 }, { 1, 1, 2 } }, true ); Half::p = &p; Half::out[0] = sv( "inel", 2, 0, 100 ); Half::out[1] = sv( "el", 2, 0, 100 ); GRROperator op( Half( true ), Half( false ) ); VectorXs alpha = sv( "guess", 2, 0, 10 );
  op.flow( p.w.act, p.w.sys.MM, p.w.sys.MI, p.w.q0, p.w.v0, p.w.v0, p.N, p.Q, p.nrel, p.CoR, alpha );
  for( int k = 0; k < 2; ++k ) vp_check_eq( alpha( k ), ( 1.0 - p.CoR( 0 ) ) * Half::out[0]( k ) + p.CoR( 0 ) * Half::out[1]( k ), "the impulses blend the inelastic and the elastic response by the restitution coefficient" );
  if( p.CoR( 0 ) == 0.0 ) vp_cover( "zero" ); else if( p.CoR( 0 ) == 1.0 ) vp_cover( "one" ); else vp_cover( "between" );
}
VP_HARNESS( imp_mixed_cor )
{
  const bool grr = vp_choose( "grr", 0, 2 ); Problem p( 2, 3, { { 0, 0, 1 }, { 1, 1, 2 } }, false ); vp_assume( p.CoR( 0 ) < p.CoR( 1 ) || p.CoR( 0 ) > p.CoR( 1 ) ); vp_cover( "end" ); VectorXs alpha = VectorXs::Zero( 2 ); GRROperator a( Half( true ), Half( false ) ); GROperator b( 0.0, Half( true ) );
  vp_allow_exit( 1 ); if( grr ) a.flow( p.w.act, p.w.sys.MM, p.w.sys.MI, p.w.q0, p.w.v0, p.w.v0, p.N, p.Q, p.nrel, p.CoR, alpha ); else b.flow( p.w.act, p.w.sys.MM, p.w.sys.MI, p.w.q0, p.w.v0, p.w.v0, p.N, p.Q, p.nrel, p.CoR, alpha );
  vp_check( false, "different restitution coefficients are refused" );
}
