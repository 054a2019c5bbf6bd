// P26: steps with impact and friction
#include "maps.h"
#include "scisim/ConstrainedMaps/GeometricImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/StaggeredProjections.h"
#include "scisim/ConstrainedMaps/GRRFriction.h"
#include "scisim/ConstrainedMaps/FrictionSolver.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FrictionOperator.h"
#include "scisim/ConstrainedMaps/Sobogus.h"
// records the contact problem it is given and answers with arbitrary impulses and velocities
struct RecSolver final : FrictionSolver
{
  int calls = 0; int per; AffineSystem* sys = nullptr; VectorXs CoR, mu, q0, v0, nrel, drel, f0, a0, b0, f, a, b, v2; unsigned it = 0, iters = 0; double dt = 0, tol = 0; std::vector<int> ids; MatrixXXsc bases;
  explicit RecSolver( int p ) : per( p ) {}
  void solve( const unsigned iteration, const scalar& dt_, const FlowableSystem& fsys, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& C, const VectorXs& m, const VectorXs& q, const VectorXs& v, Set& act, const MatrixXXsc& cb, const VectorXs& nr, const VectorXs& dr, const unsigned mi, const scalar& t, VectorXs& f_, VectorXs& alpha, VectorXs& beta, VectorXs& vout, bool& ok, scalar& error ) override
  {
    ++calls; it = iteration; dt = dt_; CoR = C; mu = m; q0 = q; v0 = v; nrel = nr; drel = dr; iters = mi; tol = t; f0 = f_; a0 = alpha; b0 = beta; bases = cb; ids.clear(); for( auto& c : act ) ids.push_back( static_cast<Fake&>( *c ).id );
    vp_check( &fsys == sys, "the solver works on the simulated system" ); sameSparse( M, sys->MM, "the solver is given the mass matrix" ); sameSparse( Minv, sys->MI, "the solver is given the inverse mass matrix" ); vp_check( vout.size() == v.size() && f_.size() == v.size(), "there is room for the result" );
    f = sv( "solF", int( v.size() ), -50, 50 ); a = sv( "solA", int( alpha.size() ), 0, 50 ); b = sv( "solB", int( beta.size() ), -50, 50 ); v2 = sv( "solV", int( v.size() ), -50, 50 );
    f_ = f; alpha = a; beta = b; vout = v2; ok = vp_choose( "solved", 0, 2 ); error = ok ? 0.0 : 1.0;
  }
  unsigned numFrictionImpulsesPerNormal( const unsigned ) const override { return unsigned( per ); }
  void serialize( std::ostream& ) const override {} std::string name() const override { return "rec"; }
};
struct Step
{
  World w; int dim, n; Script cb; double cor, mu, dt; TwoStage um; RecSolver rs; VectorXs q1, v1, q0, v0, m0, f0; const unsigned it = 7, iters = 11; const double tol = 0.125; bool keep;
  std::map<int,VectorXs> before; int mode;
  Step( int dim_, int which, int mode_ ) : w( dim_, 3, some( which ) ), dim( dim_ ), n( int( w.act.size() ) ), rs( dim_ - 1 ), q1( w.sys.n ), v1( w.sys.n ), mode( mode_ )
  {
    w.sys.amb = unsigned( dim ); w.sys.fixed[1] = vp_choose( "fixed", 0, 2 ); const int scripted = vp_choose( "scripted", 0, 3 ); cb.setCor = scripted == 1; cb.setMu = scripted == 2; cb.cor = sv( "corS", n, 0, 1 ); cb.mu = sv( "muS", n, 0, 2 ); cor = vp_real( "cor", 0, 0, 1 ); mu = vp_real( "mu", 0, 0, 2 ); dt = vp_real( "dt", 0, 0.0001, 1 );
    for( int k = 0; k < 2; ++k ) { um.outQ[k] = sv( k ? "qf" : "qp", w.sys.n, -100, 100 ); um.outV[k] = sv( k ? "vf" : "vp", w.sys.n, -100, 100 ); }
    rs.sys = &w.sys; q0 = w.q0; v0 = w.v0; keep = vp_choose( "keep", 0, 2 ); f0 = keep ? sv( "f", w.sys.n, -50, 50 ) : VectorXs( VectorXs::Zero( w.sys.n ) );
    if( mode ) { const int sz = mode == 1 ? 1 : dim == 2 ? 2 : 6; if( vp_choose( "had", 0, 2 ) ) w.cs.cache[0] = sv( "cached", sz, 0.5, 20 ); w.cs.cache[77] = VectorXs::Constant( sz, 3.0 ); before = w.cs.cache; }
  }
  template<class Map> void run( Map& map ) { map.m_f = keep ? f0 : VectorXs( VectorXs::Zero( 1 ) ); map.flow( cb, w.sys, w.cs, um, rs, it, dt, cor, mu, w.q0, w.v0, q1, v1 ); samev( w.q0, q0, "the start of the step is not modified" ); samev( w.v0, v0, "the start of the step is not modified" ); if( n ) samev( map.m_f, rs.f, "the friction impulse is remembered for the next step" ); map.resetCachedData(); for( int r = 0; r < int( map.m_f.size() ); ++r ) vp_check_same( map.m_f( r ), 0.0, "resetting forgets the friction of earlier steps" ); }
  void predictor() { vp_check( um.inQ.size() >= 1 && um.its[0] == it, "the predictor runs for this step" ); samev( um.inQ[0], q0, "the predictor starts from the start of the step" ); samev( um.inV[0], v0, "the predictor starts from the start of the step" ); vp_check_same( um.dts[0], dt, "the predictor uses the step size" ); }
  void sought( const VectorXs& qp, const VectorXs& v ) { vp_check( w.cs.calls == 1, "contacts are detected once" ); samev( w.cs.q0, q0, "contacts are sought from the start configuration" ); eqv( w.cs.qp, qp, "contacts are sought towards the predicted configuration" ); samev( w.cs.v0, v, "contacts are sought with the expected velocity" ); }
  void problem( const VectorXs& from )
  {
    vp_check( rs.calls == 1, "the response is computed once" ); vp_check( rs.it == it && rs.iters == iters, "the solver gets the step number and the iteration limit" ); vp_check_same( rs.dt, dt, "the solver gets the step size" ); vp_check_same( rs.tol, tol, "the solver gets the tolerance" );
    samev( rs.q0, q0, AT_START ); samev( rs.v0, from, "the response starts from the expected velocity" ); samev( w.cs.basisV, from, "contact frames are aligned with the velocity the response starts from" ); samev( rs.f0, f0, "the solver starts from the friction of the last step, if it still fits" );
    vp_check( cb.corCalls == 1 && cb.muCalls == 1 && int( cb.nset ) == n, "scripting may set restitution and friction of every contact" );
    for( int k = 0; k < n; ++k )
    {
      vp_check( rs.ids[k] == static_cast<const Fake&>( *w.act[k] ).id, "contacts keep their order" ); vp_check_same( cb.corIn( k ), cor, "restitution defaults to the given coefficient" ); vp_check_same( rs.CoR( k ), cb.setCor ? cb.cor( k ) : cor, "each contact gets its restitution coefficient" );
      vp_check_same( cb.muIn( k ), mu, "friction defaults to the given coefficient" ); vp_check_same( rs.mu( k ), cb.setMu ? cb.mu( k ) : mu, "each contact gets its friction coefficient" );
      for( int c = 0; c < dim; ++c ) for( int d = 0; d < dim; ++d ) vp_check_same( rs.bases( d, dim * k + c ), static_cast<const Fake&>( *w.act[k] ).B( d, c ), "each contact keeps its own frame" );
    }
    vp_check( rs.a0.size() == n && rs.b0.size() == n * ( dim - 1 ), "one normal impulse and as many friction impulses as the solver asks for per contact" );
  }
  // initial guesses: scalars cached per contact, or a force in space that turns with the normal
  void warm()
  {
    for( int k = 0; k < n; ++k )
    {
      const Fake& F = static_cast<const Fake&>( *w.act[k] ); auto it2 = before.find( F.id ); const bool had = it2 != before.end();
      if( mode < 2 || dim == 2 || !had )
      {
        vp_check_same( rs.a0( k ), mode && had ? it2->second( 0 ) : 0.0, "the initial guess is the impulse cached for the same contact, if caching is on" );
        for( int t = 0; t < dim - 1; ++t ) vp_check_same( rs.b0( ( dim - 1 ) * k + t ), mode == 2 && had ? it2->second( 1 + t ) : 0.0, "the initial friction guess is the one cached for the same contact, if friction caching is on" );
      }
    }
  }
  void cached()
  {
    vp_check( int( w.cs.cache.size() ) == ( mode ? n : 0 ), "exactly this step's impulses are cached, if caching is on" );
    if( mode ) for( int k = 0; k < n; ++k )
    {
      const Fake& F = static_cast<const Fake&>( *w.act[k] ); auto i2 = w.cs.cache.find( F.id ); vp_check( i2 != w.cs.cache.end(), "every contact caches its impulse" ); const VectorXs& r = i2->second;
      if( mode == 1 || dim == 2 ) { vp_check( r.size() == mode, "one impulse per direction" ); vp_check_same( r( 0 ), rs.a( k ), "each contact caches its own impulse" ); if( mode == 2 ) vp_check_same( r( 1 ), rs.b( k ), "each contact caches its own friction" ); }
      else { vp_check( r.size() == 6, "the normal and the force in space are cached" ); for( int d = 0; d < 3; ++d ) { vp_check_same( r( d ), F.B( d, 0 ), "the normal is cached" ); vp_check_eq( r( 3 + d ), rs.a( k ) * F.B( d, 0 ) + rs.b( 2 * k ) * F.B( d, 1 ) + rs.b( 2 * k + 1 ) * F.B( d, 2 ), "the force in space is cached" ); } }
    }
  }
  void predicted() { vp_check( rs.calls == 0 && um.inQ.size() == 1, "without contacts there is no response" ); samev( q1, um.outQ[0], "without contacts the prediction is the result" ); samev( v1, um.outV[0], "without contacts the prediction is the result" ); }
};
static ImpulsesToCache cacheMode( int m ) { return m == 0 ? ImpulsesToCache::NONE : m == 1 ? ImpulsesToCache::NORMAL : ImpulsesToCache::NORMAL_AND_FRICTION; }
static void geometric( int dim, int which )
{
  const int mode = vp_choose( "mode", 0, dim == 2 ? 3 : 2 ); Step s( dim, which, mode ); GeometricImpactFrictionMap map( s.tol, s.iters, cacheMode( mode ) ); s.run( map );
  s.predictor(); s.sought( s.um.outQ[0], s.v0 );
  if( s.n == 0 ) { s.predicted(); vp_check( s.w.cs.cache.empty(), "without contacts no impulse stays cached" ); vp_cover( "end" ); return; }
  s.problem( s.v0 ); vp_check( s.rs.nrel.size() == 0 && s.rs.drel.size() == 0, "no extra relative velocity is asked for" ); s.warm(); s.cached();
  vp_check( s.um.inQ.size() == 2 && s.um.its[1] == s.it, "the final flow runs once for this step" ); samev( s.um.inQ[1], s.q0, "the final flow starts from the start configuration" ); samev( s.um.inV[1], s.rs.v2, "the final flow starts from the velocity after the response" ); vp_check_same( s.um.dts[1], s.dt, "the final flow uses the step size" );
  samev( s.q1, s.um.outQ[1], "the step ends where the final flow ends" ); samev( s.v1, s.um.outV[1], "the step ends where the final flow ends" ); vp_cover( "end" );
}
VP_HARNESS( geo_none ) { geometric( 2, 0 ); }
VP_HARNESS( geo_pair ) { geometric( 2, 1 ); }
VP_HARNESS( geo_mixed ) { geometric( 2, 4 ); }
VP_HARNESS( geo_3d ) { geometric( 3, 4 ); }
static void stabilized( int dim, int which )
{
  Step s( dim, which, 0 ); StabilizedImpactFrictionMap map( s.tol, s.iters, false, false ); s.run( map ); s.predictor(); s.sought( s.um.outQ[0], s.um.outV[0] ); vp_check( s.um.inQ.size() == 1, "only the prediction uses the free flow" );
  if( s.n == 0 ) { s.predicted(); vp_cover( "end" ); return; }
  s.problem( s.um.outV[0] ); vp_check( s.rs.nrel.size() == 0 && s.rs.drel.size() == 0, "no extra relative velocity is asked for" ); s.warm();
  samev( s.v1, s.rs.v2, "the step ends with the velocity after the response" ); eqv( s.q1, s.q0 + s.dt * s.rs.v2, "bodies move with the velocity after the response" ); vp_cover( "end" );
}
VP_HARNESS( stab_none ) { stabilized( 2, 0 ); }
VP_HARNESS( stab_pair ) { stabilized( 2, 1 ); }
VP_HARNESS( stab_mixed ) { stabilized( 2, 4 ); }
VP_HARNESS( stab_3d ) { stabilized( 3, 4 ); }
static void symplectic( int dim, int which, int mode, bool stab )
{
  Step s( dim, which, mode ); const double thr = vp_real( "thr", 0, 0, 1 ); VectorXs gap( s.n );
  for( int k = 0; k < s.n; ++k ) s.w.cs.protos[k]->depth = gap( k ) = vp_real( "gap", k, -3, 3 );
  if( mode == 2 && dim == 3 )
  {
    const Vector2s a = su2( "lean", 0 ), w = su2( "twist", 0 ), t = su2( "old", 0 ); Fake& F = *s.w.cs.protos[0]; const Vector3s nn{ a( 0 ), a( 1 ), 0.0 }, e{ -a( 1 ), a( 0 ), 0.0 }, z{ 0.0, 0.0, 1.0 };
    for( int d = 0; d < 3; ++d ) { F.B( d, 0 ) = nn( d ); F.B( d, 1 ) = w( 0 ) * e( d ) + w( 1 ) * z( d ); F.B( d, 2 ) = w( 0 ) * z( d ) - w( 1 ) * e( d ); } static_cast<Fake&>( *s.w.act[0] ).B = F.B;
    if( s.before.count( 0 ) ) { const VectorXs f = sv( "fo", 3, -9, 9 ); VectorXs r( 6 ); for( int d = 0; d < 3; ++d ) { r( d ) = t( 0 ) * nn( d ) + t( 1 ) * e( d ); r( 3 + d ) = f( d ); } s.before[0] = s.w.cs.cache[0] = r; vp_assume( t( 0 ) > -0.5 ); }
  }
  SymplecticEulerImpactFrictionMap map( s.tol, s.iters, cacheMode( mode ), stab, thr ); s.run( map ); vp_check( s.um.inQ.empty(), "this step integrates forces itself" );
  const VectorXs F = s.w.sys.force( s.q0 ); VectorXs dv( s.w.sys.n ); for( int r = 0; r < s.w.sys.n; ++r ) dv( r ) = s.w.sys.fixed[r / dim] ? 0.0 : s.dt * F( r ) / s.w.sys.m( r );
  s.sought( s.q0 + s.dt * ( s.v0 + dv ), s.v0 );
  if( s.n == 0 ) { vp_check( s.rs.calls == 0, "without contacts there is no response" ); eqv( s.v1, s.v0 + dv, "without contacts forces alone act" ); eqv( s.q1, s.q0 + s.dt * ( s.v0 + dv ), "bodies move with the new velocity" ); vp_check( s.w.cs.cache.empty(), "without contacts no impulse stays cached" ); vp_cover( "end" ); return; }
  s.problem( s.v0 ); s.warm();
  vp_check( s.rs.nrel.size() == s.n && s.rs.drel.size() == s.n * ( dim - 1 ), "the velocity change by forces enters every contact" );
  for( int k = 0; k < s.n; ++k )
  {
    const Fake& K = static_cast<const Fake&>( *s.w.act[k] ); const VectorXs r = K.rel( dv ); VectorXs e( dim ); for( int c = 0; c < dim; ++c ) { double x = 0; for( int d = 0; d < dim; ++d ) x += K.B( d, c ) * r( d ); e( c ) = x; }
    double push = 0; if( stab && gap( k ) < 0.0 && -gap( k ) >= thr ) { push = gap( k ) / s.dt; vp_cover( "deep" ); }
    vp_check_eq( s.rs.nrel( k ), e( 0 ) + push, "normal velocities include the effect of forces and, when stabilising, of penetrations beyond the threshold" );
    for( int c = 1; c < dim; ++c ) vp_check_eq( s.rs.drel( ( dim - 1 ) * k + c - 1 ), e( c ), "sliding velocities include the effect of forces" );
  }
  // a force cached in space turns by the smallest rotation taking the old normal to the new one
  if( mode == 2 && dim == 3 && s.before.count( 0 ) ) for( int k = 0; k < s.n; ++k ) if( static_cast<const Fake&>( *s.w.act[k] ).id == 0 )
  {
    const Fake& K = static_cast<const Fake&>( *s.w.act[k] ); const Vector3s n0 = s.before[0].segment<3>( 0 ), f0 = s.before[0].segment<3>( 3 ), n1 = K.B.col( 0 ); const Vector3s x = cross3( n0, n1 ); const double c = dot3( n0, n1 ); const Vector3s xf = cross3( x, f0 ), xxf = cross3( x, xf );
    vp_check_eq( s.rs.a0( k ) * ( 1 + c ), dot3( f0, n1 ) * ( 1 + c ) + dot3( xf, n1 ) * ( 1 + c ) + dot3( xxf, n1 ), "a cached force turns with the contact normal" );
    for( int t = 0; t < 2; ++t ) { const Vector3s b = K.B.col( 1 + t ); vp_check_eq( s.rs.b0( 2 * k + t ) * ( 1 + c ), dot3( f0, b ) * ( 1 + c ) + dot3( xf, b ) * ( 1 + c ) + dot3( xxf, b ), "a cached force turns with the contact normal" ); }
    vp_cover( "turned" );
  }
  s.cached(); eqv( s.v1, s.rs.v2 + dv, "the step ends with the velocity after response and forces" ); eqv( s.q1, s.q0 + s.dt * s.v1, "bodies move with the new velocity" ); vp_cover( "end" );
}
VP_HARNESS( sym_none ) { symplectic( 2, 0, vp_choose( "mode", 0, 2 ), false ); }
VP_HARNESS( sym_pair ) { symplectic( 2, 1, vp_choose( "mode", 0, 3 ), false ); }
VP_HARNESS( sym_mixed ) { symplectic( 2, 4, 0, false ); }
VP_HARNESS( sym_stab ) { symplectic( 2, 4, 2, true ); }
VP_HARNESS( sym_3d ) { symplectic( 3, 4, 1, true ); }
VP_HARNESS( sym_3d_force ) { symplectic( 3, 2, 2, false ); }
VP_HARNESS( sym_3d_force_two ) { symplectic( 3, 4, 2, false ); }
// ---- solvers that alternate impact and friction
#include "bogusstub.h"
static SobogusSolverType JUDGE_TYPE; static VectorXs JUDGE_MASS; struct Judge { int made = 0, calls = 0; VectorXs q, v, cor, mu, nrel, drel; std::vector<VectorXs> r; std::vector<double> err; }; static Judge JUDGE;
SobogusFrictionProblem::SobogusFrictionProblem( const SobogusSolverType& t ) : m_solver_type( t ) { JUDGE_TYPE = t; }
void SobogusFrictionProblem::flattenMass( const SparseMatrixsc& M, VectorXs& m ) { m = VectorXs::Constant( 1, 42.0 ); }
void SobogusFrictionProblem::initialize( const Set& s, const MatrixXXsc& b, VectorXs& m, const VectorXs& q, const VectorXs& v, const VectorXs& c, const VectorXs& mu, const VectorXs& nr, const VectorXs& dr ) { ++JUDGE.made; vp_check( m.size() == 1 && m( 0 ) == 42.0, "the error is judged with the bodies' masses" ); JUDGE.q = q; JUDGE.v = v; JUDGE.cor = c; JUDGE.mu = mu; JUDGE.nrel = nr; JUDGE.drel = dr; }
scalar SobogusFrictionProblem::computeError( const VectorXs& r ) { JUDGE.r.push_back( r ); return JUDGE.err[JUDGE.calls++]; }
struct Stage { int calls = 0; std::vector<VectorXs> v, guess, out, alphas; }; static Stage IMPS, FRICS; static const AffineSystem* SYS; static World* WORLD; static VectorXs COR, MU, NREL, DREL; static double NOW;
// impulse answered at the k-th call
static VectorXs answer( const char* n, int k, int sz, double lo ) { return sv( ( std::string( n ) + std::to_string( k ) ).c_str(), sz, lo, 20 ); }
struct SpImpact final : ImpactOperator
{
  void flow( const Set& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q, const VectorXs& v, const VectorXs& vF, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nr, const VectorXs& C, VectorXs& alpha ) override
  { samev( q, WORLD->q0, AT_START ); samev( v, WORLD->v0, "restitution refers to the start velocity" ); checkN( cons, *SYS, N, Q ); sameSparse( M, SYS->MM, "the mass matrix is passed on" ); sameSparse( Minv, SYS->MI, "the inverse mass matrix is passed on" ); eqv( nr, NREL, "scripted motion enters the normal velocities" ); samev( C, COR, "each contact keeps its restitution" ); IMPS.v.push_back( vF ); IMPS.guess.push_back( alpha ); alpha = answer( "A", IMPS.calls++, int( alpha.size() ), 0 ); IMPS.out.push_back( alpha ); }
  std::string name() const override { return "imp"; } std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>( new SpImpact ); } void serialize( std::ostream& ) const override {}
};
struct SpFriction final : FrictionOperator
{
  bool lin = false; int m = 1; SpFriction( bool l, int m_ ) : lin( l ), m( m_ ) {}
  static double dcol( const Fake& F, int r, int j, bool lin ) { return lin ? F.sgn( j ) * F.dir( r, F.tcol( j ) ) : F.dir( r, 1 + j ); }
  void flow( const scalar& t, const SparseMatrixsc& Minv, const VectorXs& v, const SparseMatrixsc& D, const SparseMatrixsc& Q, const VectorXs& dr, const VectorXs& mu, const VectorXs& alpha, VectorXs& beta, VectorXs& lambda ) override
  {
    const int n = int( WORLD->act.size() ); vp_check_eq( t, NOW, "the friction stage knows the time" ); sameSparse( Minv, SYS->MI, "the inverse mass matrix is passed on" ); eqv( dr, DREL, "scripted motion enters the sliding velocities" ); samev( mu, MU, "each contact keeps its friction coefficient" ); vp_check( beta.size() == m * n && lambda.size() == n && D.cols() == m * n && D.rows() == SYS->n, "there is one direction per friction impulse" );
    for( int k = 0; k < n; ++k ) for( int j = 0; j < m; ++j ) for( int r = 0; r < SYS->n; ++r ) vp_check_eq( at( D, r, m * k + j ), dcol( static_cast<Fake&>( *WORLD->act[k] ), r, j, lin ), "friction acts along each contact's tangents in order" );
    for( int a = 0; a < m * n; ++a ) for( int b = 0; b < m * n; ++b ) { double x = 0; for( int r = 0; r < SYS->n; ++r ) x += at( D, r, a ) * at( D, r, b ) / SYS->m( r ); vp_check_eq( at( Q, a, b ), x, "friction couples through the inverse mass" ); }
    FRICS.v.push_back( v ); FRICS.guess.push_back( beta ); FRICS.alphas.push_back( alpha ); beta = answer( "B", FRICS.calls++, int( beta.size() ), -20 ); FRICS.out.push_back( beta );
  }
  int numFrictionImpulsesPerNormal() const override { return m; } bool isLinearized() const override { return lin; }
  void formGeneralizedFrictionBasis( const VectorXs& q, const VectorXs& v, const Set& K, SparseMatrixsc& D, VectorXs& drel ) override { samev( v, WORLD->v0, "friction samples are aligned with the start velocity" ); D.reserve( VectorXi::Constant( D.cols(), 2 * WORLD->dim ) ); for( size_t k = 0; k < K.size(); ++k ) K[k]->computeGeneralizedFrictionDisk( q, v, int( k ) * m, m, D, drel ); D.makeCompressed(); }
  std::string name() const override { return "fric"; } std::unique_ptr<FrictionOperator> clone() const override { return std::unique_ptr<FrictionOperator>( new SpFriction( lin, m ) ); } void serialize( std::ostream& ) const override {}
};
static MatrixXXsc basesOf( const World& w ) { const int n = int( w.act.size() ), d = w.dim; MatrixXXsc b( d, d * n ); for( int k = 0; k < n; ++k ) b.block( 0, d * k, d, d ) = static_cast<Fake&>( *w.act[k] ).B; return b; }
static void stage( World& w, bool lin, int m )
{
  const int n = int( w.act.size() ); IMPS = Stage(); FRICS = Stage(); JUDGE = Judge(); WORLD = &w; SYS = &w.sys; COR = sv( "cor", n, 0, 1 ); MU = sv( "mu", n, 0, 2 ); NREL = VectorXs( n ); DREL = VectorXs( m * n );
  for( int k = 0; k < n; ++k ) { const Fake& F = static_cast<Fake&>( *w.act[k] ); NREL( k ) = -F.along( 0 ); for( int j = 0; j < m; ++j ) DREL( m * k + j ) = lin ? -F.sgn( j ) * F.along( F.tcol( j ) ) : -F.along( 1 + j ); }
}
// velocity change by friction impulses
static VectorXs slide( const World& w, const VectorXs& v, const VectorXs& beta, bool lin, int m ) { VectorXs o = v; for( size_t k = 0; k < w.act.size(); ++k ) for( int j = 0; j < m; ++j ) for( int r = 0; r < w.sys.n; ++r ) o( r ) += SpFriction::dcol( static_cast<Fake&>( *w.act[k] ), r, j, lin ) * beta( m * k + j ) / w.sys.m( r ); return o; }
static VectorXs kick( const World& w, const VectorXs& v, const VectorXs& f ) { VectorXs o = v; for( int r = 0; r < w.sys.n; ++r ) o( r ) += f( r ) / w.sys.m( r ); return o; }
static void forceIs( const World& w, const VectorXs& r, const VectorXs& a, const VectorXs& b ) { const int d = w.dim; vp_check( r.size() == d * int( w.act.size() ), "one force per contact is judged" ); for( size_t k = 0; k < w.act.size(); ++k ) for( int e = 0; e < d; ++e ) { const Fake& F = static_cast<Fake&>( *w.act[k] ); double x = a( k ) * F.B( e, 0 ); for( int j = 0; j < d - 1; ++j ) x += b( ( d - 1 ) * k + j ) * F.B( e, 1 + j ); vp_check_eq( r( d * k + e ), x, "the error is that of the current impulses" ); } }
static void staggered( int dim, int which, unsigned limit, bool fixedWorld )
{
  World w( dim, 3, some( which ) ); w.sys.amb = unsigned( dim ); if( fixedWorld ) w.fix(); const int n = int( w.act.size() ), m = dim - 1; stage( w, false, m ); const double dt = vp_real( "dt", 0, 0.0001, 1 ), tol = vp_real( "tol", 0, 0.001, 1 ); NOW = 7 * dt;
  const bool wa = vp_choose( "wa", 0, 2 ), wb = vp_choose( "wb", 0, 2 ); for( unsigned k = 0; k <= limit; ++k ) JUDGE.err.push_back( vp_real( "err", int( k ), 0, 2 ) );
  StaggeredProjections sp( wa, wb, SpImpact(), SpFriction( false, m ) ); vp_check( sp.numFrictionImpulsesPerNormal( unsigned( dim ) ) == unsigned( m ), "the number of friction impulses is the friction stage's" );
  VectorXs f = sv( "f", w.sys.n, -9, 9 ), alpha = sv( "a", n, 0, 9 ), beta = sv( "b", m * n, -9, 9 ), vout = VectorXs::Zero( w.sys.n ); const VectorXs f0 = f, a0 = alpha, b0 = beta; bool ok; double error; VectorXs none; const MatrixXXsc bases = basesOf( w );
  sp.solve( 7, dt, w.sys, w.sys.MM, w.sys.MI, COR, MU, w.q0, w.v0, w.act, bases, none, none, limit, tol, f, alpha, beta, vout, ok, error );
  vp_check( JUDGE.made == 1, "the error is judged on one problem" ); samev( JUDGE.q, w.q0, AT_START ); samev( JUDGE.v, w.v0, "the error is judged from the start velocity" ); samev( JUDGE.cor, COR, "the error is judged with each contact's restitution" ); samev( JUDGE.mu, MU, "the error is judged with each contact's friction" ); eqv( JUDGE.nrel, NREL, "the error includes scripted motion" ); eqv( JUDGE.drel, DREL, "the error includes scripted motion" );
  vp_check( JUDGE_TYPE == ( dim == 2 ? SobogusSolverType::Balls2D : SobogusSolverType::RigidBody2D ), "the error is judged for this kind of bodies" );
  const int done = FRICS.calls; vp_check( done <= int( limit ) && IMPS.calls == done + 1 && JUDGE.calls == done + 1, "impact and friction alternate and end with an impact" );
  int best = -1; double least = std::numeric_limits<double>::infinity(); bool hit = false;
  for( int k = 0; k < done; ++k )
  {
    vp_check( !hit, "it stops as soon as the tolerance is met" );
    eqv( IMPS.v[k], k ? slide( w, w.v0, FRICS.out[k - 1], false, m ) : kick( w, w.v0, f0 ), "impacts see the velocity after friction" ); eqv( IMPS.guess[k], wa ? ( k ? IMPS.out[k - 1] : a0 ) : VectorXs( VectorXs::Zero( n ) ), "impacts start from the last impulses if asked to" );
    eqv( FRICS.v[k], applyN( w.act, w.sys, w.v0, IMPS.out[k] ), "friction sees the velocity after impacts" ); samev( FRICS.alphas[k], IMPS.out[k], "friction is bounded by the current normal impulses" ); eqv( FRICS.guess[k], wb ? ( k ? FRICS.out[k - 1] : b0 ) : VectorXs( VectorXs::Zero( m * n ) ), "friction starts from the last impulses if asked to" );
    forceIs( w, JUDGE.r[k], IMPS.out[k], FRICS.out[k] ); if( JUDGE.err[k] < least ) { least = JUDGE.err[k]; best = k; } hit = JUDGE.err[k] <= tol;
  }
  vp_check( hit || done == int( limit ), "it only gives up at the iteration limit" ); if( hit ) { best = done - 1; vp_cover( "early" ); } else vp_cover( "limit" );
  const VectorXs bb = best >= 0 ? FRICS.out[best] : b0, ba = best >= 0 ? IMPS.out[best] : a0; eqv( IMPS.guess[done], wa ? ba : VectorXs( VectorXs::Zero( n ) ), "the last impact starts from the best impulses if asked to" ); eqv( IMPS.v[done], slide( w, w.v0, bb, false, m ), "the last impact sees the best friction" );
  samev( alpha, IMPS.out[done], "normal impulses are those of the last impact" ); samev( beta, bb, "friction impulses are those of the best iterate" ); forceIs( w, JUDGE.r[done], alpha, beta ); eqv( kick( w, w.v0, f ), slide( w, w.v0, bb, false, m ), "the friction force is that of the best iterate" );
  eqv( vout, slide( w, applyN( w.act, w.sys, w.v0, alpha ), bb, false, m ), "the velocity is that after all impulses" ); vp_check_same( error, JUDGE.err[done], "the error is that of the result" ); vp_check( ok == ( JUDGE.err[done] <= tol ), "success is reported exactly when the tolerance is met" ); vp_cover( "end" );
}
VP_HARNESS( stag_pair ) { staggered( 2, 1, 2, true ); }
VP_HARNESS( stag_wall ) { staggered( 2, 2, 1, false ); }
VP_HARNESS( stag_mixed ) { staggered( 2, 4, 3, true ); }
VP_HARNESS( stag_zero ) { staggered( 2, 1, 0, true ); }
VP_HARNESS( stag_3d ) { staggered( 3, 4, 1, false ); }
static void once( int which, bool lin, int m )
{
  World w( 3, 3, some( which ) ); w.sys.amb = 3; const int n = int( w.act.size() ); stage( w, lin, m ); const double dt = vp_real( "dt", 0, 0.0001, 1 ); NOW = 7 * dt; GRRFriction g( SpImpact(), SpFriction( lin, m ) );
  VectorXs f = sv( "f", w.sys.n, -9, 9 ), alpha = sv( "a", n, 0, 9 ), beta = sv( "b", m * n, -9, 9 ), vout = VectorXs::Zero( w.sys.n ); bool ok = false; double error = 1; VectorXs none; const MatrixXXsc bases = basesOf( w );
  g.solve( 7, dt, w.sys, w.sys.MM, w.sys.MI, COR, MU, w.q0, w.v0, w.act, bases, none, none, 5, 0.1, f, alpha, beta, vout, ok, error );
  vp_check( IMPS.calls == 1 && FRICS.calls == 1 && ok && error == 0.0, "one impact is followed by one friction stage" ); eqv( IMPS.v[0], w.v0, "the impact sees the start velocity" ); eqv( IMPS.guess[0], VectorXs( VectorXs::Zero( n ) ), "the impact starts from zero" ); eqv( FRICS.guess[0], VectorXs( VectorXs::Zero( m * n ) ), "friction starts from zero" );
  eqv( FRICS.v[0], applyN( w.act, w.sys, w.v0, IMPS.out[0] ), "friction sees the velocity after the impact" ); samev( FRICS.alphas[0], IMPS.out[0], "friction is bounded by the normal impulses" ); samev( alpha, IMPS.out[0], "normal impulses are the impact's" ); samev( beta, FRICS.out[0], "friction impulses are the friction stage's" );
  eqv( vout, slide( w, applyN( w.act, w.sys, w.v0, alpha ), beta, lin, m ), "the velocity is that after all impulses" ); vp_cover( "end" );
}
VP_HARNESS( grr_smooth ) { once( 4, false, 2 ); }
VP_HARNESS( grr_linear ) { once( 4, true, 3 ); }
VP_HARNESS( grr_wall ) { once( 2, true, 4 ); }
