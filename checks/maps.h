// A small abstract mechanical system with arbitrary contacts, for checking the impact and friction maps and operators.
#pragma once
#include "sys.h"
#include "scisim/ScriptingCallback.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperator.h"
static const char* AT_START = "contacts are evaluated at the start of the step";
// A contact of body i (and body j, or the fixed world when j<0) with frame B (first column the normal), lever scalings a and b, and a scripted surface velocity
struct Fake final : Constraint
{
  int dim, id, i, j; double a, b; MatrixXXsc B; VectorXs kin; const VectorXs* q0 = nullptr; int* evals = nullptr; double depth = 0.0;
  // counts how often the gradient is evaluated, so the harness can bound iterative solvers
  Fake( int dim_, int id_, int i_, int j_, const MatrixXXsc& B_ ) : dim( dim_ ), id( id_ ), i( i_ ), j( j_ ), B( B_ )
  {
    a = vp_real( "leva", id, 0.5, 2 ); b = j >= 0 ? vp_real( "levb", id, 0.5, 2 ) : 0.0; kin = j >= 0 ? VectorXs( VectorXs::Zero( dim ) ) : sv( ( "kin" + std::to_string( id ) ).c_str(), dim, -10, 10 );
  }
  void seen( const VectorXs& q ) const { if( q0 ) samev( q, *q0, AT_START ); }
  // relative velocity of the two surfaces before subtracting scripted motion
  VectorXs rel( const VectorXs& v ) const { VectorXs r( dim ); for( int d = 0; d < dim; ++d ) r( d ) = a * v( dim * i + d ) - ( j >= 0 ? b * v( dim * j + d ) : 0.0 ); return r; }
  double normalVel( const VectorXs& v ) const { const VectorXs r = rel( v ); double s = 0; for( int d = 0; d < dim; ++d ) s += B( d, 0 ) * ( r( d ) - kin( d ) ); return s; }
  double tangentVel( const VectorXs& v, int k ) const { const VectorXs r = rel( v ); double s = 0; for( int d = 0; d < dim; ++d ) s += B( d, k ) * ( r( d ) - kin( d ) ); return s; }
  double along( int k ) const { double s = 0; for( int d = 0; d < dim; ++d ) s += B( d, k ) * kin( d ); return s; }
  // generalized direction of a unit impulse along basis column k, entry r
  double dir( int r, int k ) const { const int body = r / dim, d = r % dim; return body == i ? a * B( d, k ) : ( j >= 0 && body == j ? -b * B( d, k ) : 0.0 ); }
  scalar evalNdotV( const VectorXs& q, const VectorXs& v ) const override { seen( q ); if( evals ) vp_assume( --*evals >= 0 ); return normalVel( v ); }
  // the impulse that reflects the approach velocity
  void resolveImpact( const scalar& CoR, const SparseMatrixsc& M, const scalar& ndotv, VectorXs& vout, scalar& alpha ) const override
  {
    double g = 0; for( int r = 0; r < vout.size(); ++r ) { const double x = dir( r, 0 ); if( r / dim == i || r / dim == j ) g += x * x / at( M, r, r ); }
    alpha = -( 1.0 + CoR ) * ndotv / g;
    for( int r = 0; r < vout.size(); ++r ) if( r / dim == i || r / dim == j ) vout( r ) += alpha * dir( r, 0 ) / at( M, r, r );
  }
  scalar computePenetrationDepth( const VectorXs& q ) const override { return depth; }
  scalar evaluateGapFunction( const VectorXs& q ) const override { seen( q ); return depth; }
  void insert( const VectorXs& t, int col, SparseMatrixsc& G ) const { for( int d = 0; d < dim; ++d ) G.insert( dim * i + d, col ) = a * t( d ); if( j >= 0 ) for( int d = 0; d < dim; ++d ) G.insert( dim * j + d, col ) = -b * t( d ); }
  void evalgradg( const VectorXs& q, const int col, SparseMatrixsc& G, const FlowableSystem& ) const override { seen( q ); insert( B.col( 0 ), col, G ); }
  void computeGeneralizedFrictionGivenTangentSample( const VectorXs& q, const VectorXs& t, const unsigned col, SparseMatrixsc& D ) const override { seen( q ); insert( t, int( col ), D ); }
  // sample s of the friction disk: the tangents and their opposites in turn
  double sgn( int s ) const { return s % 2 ? -1.0 : 1.0; } int tcol( int s ) const { return 1 + ( s / 2 ) % ( dim - 1 ); }
  void computeGeneralizedFrictionDisk( const VectorXs& q, const VectorXs& v, const int start, const int num, SparseMatrixsc& D, VectorXs& drel ) const override
  { seen( q ); for( int s = 0; s < num; ++s ) { insert( sgn( s ) * B.col( tcol( s ) ), start + s, D ); drel( start + s ) = -sgn( s ) * along( tcol( s ) ); } }
  int impactStencilSize() const override { return j >= 0 ? 2 * dim : dim; } int frictionStencilSize() const override { return j >= 0 ? 2 * dim : dim; }
  void getSimulatedBodyIndices( std::pair<int,int>& p ) const override { p = { i, j }; } void getBodyIndices( std::pair<int,int>& p ) const override { p = { i, j }; }
  void evalKinematicNormalRelVel( const VectorXs& q, const int k, VectorXs& g ) const override { seen( q ); g( k ) = -along( 0 ); }
  void computeContactBasis( const VectorXs& q, const VectorXs& v, MatrixXXsc& basis ) const override { seen( q ); basis = B; }
  VectorXs computeKinematicRelativeVelocity( const VectorXs& q, const VectorXs& ) const override { seen( q ); return kin; }
  VectorXs computeRelativeVelocity( const VectorXs& q, const VectorXs& v ) const override { seen( q ); return rel( v ) - kin; }
  void getWorldSpaceContactNormal( const VectorXs& q, VectorXs& n ) const override { n = B.col( 0 ); }
  void getWorldSpaceContactPoint( const VectorXs& q, VectorXs& p ) const override { seen( q ); p.resize( dim ); for( int d = 0; d < dim; ++d ) p( d ) = q( dim * i + d ) + 0.5 * ( d + 1 ); }
  unsigned getStaticObjectIndex() const override { vp_check( j < 0, "only contacts with the fixed world have a fixed object" ); return unsigned( 3 + id ); }
  bool conservesTranslationalMomentum() const override { return j >= 0; } bool conservesAngularMomentumUnderImpact() const override { return false; } bool conservesAngularMomentumUnderImpactAndFriction() const override { return false; }
  std::string name() const override { return "fake"; }
};
// A right-handed orthonormal frame in general position (no zero entries)
static MatrixXXsc frame( int dim, int id )
{
  MatrixXXsc B( dim, dim );
  if( dim == 2 )
  {
    const Vector2s n = su2( "nrm", id ); vp_assume( n( 0 ) > 0.0 ); vp_assume( n( 1 ) < 0.0 ); B << n( 0 ), -n( 1 ), n( 1 ), n( 0 );
  }
  else
  {
    // one of the frames with rational entries, turned about the normal by any angle
    const Vector3s n{ 2.0 / 3.0, -1.0 / 3.0, 2.0 / 3.0 }, e{ 1.0 / 3.0, -2.0 / 3.0, -2.0 / 3.0 }; const Vector3s f = cross3( n, e ); const Vector2s w = su2( "turn", id );
    for( int d = 0; d < 3; ++d ) { B( d, 0 ) = n( d ); B( d, 1 ) = w( 0 ) * e( d ) + w( 1 ) * f( d ); B( d, 2 ) = w( 0 ) * f( d ) - w( 1 ) * e( d ); vp_assume( B( d, 1 ) > 0.0 || B( d, 1 ) < 0.0 ); vp_assume( B( d, 2 ) > 0.0 || B( d, 2 ) < 0.0 ); }
  }
  return B;
}
struct Spec { int id, i, j; };
// The recipe for the contacts present in a step, and the impulse cache
struct FakeContacts final : ConstrainedSystem
{
  std::vector<std::unique_ptr<Fake>> protos; int dim; VectorXs q0, qp, v0; int calls = 0; int rot = 0;
  std::map<int,VectorXs> cache; VectorXs basisV; std::vector<MatrixXXsc> shown; const VectorXs* expectQ = nullptr; int* evals = nullptr;
  explicit FakeContacts( int d ) : dim( d ) {}
  std::unique_ptr<Constraint> make( const Fake& p ) const;
  void computeActiveSet( const VectorXs& q0_, const VectorXs& qp_, const VectorXs& v_, Set& act ) override { ++calls; q0 = q0_; qp = qp_; v0 = v_; act.clear(); for( auto& p : protos ) act.emplace_back( make( *p ) ); }
  void computeImpactBases( const VectorXs& q, const Set& s, MatrixXXsc& b ) const override { b.resize( dim, s.size() ); for( size_t k = 0; k < s.size(); ++k ) b.col( k ) = static_cast<Fake&>( *s[k] ).B.col( 0 ); }
  void computeContactBases( const VectorXs& q, const VectorXs& v, const Set& s, MatrixXXsc& b ) const override
  { const_cast<FakeContacts*>( this )->basisV = v; b.resize( dim, dim * s.size() ); for( size_t k = 0; k < s.size(); ++k ) { auto& f = static_cast<Fake&>( *s[k] ); f.seen( q ); b.block( 0, dim * k, dim, dim ) = f.B; } }
  void clearConstraintCache() override { cache.clear(); }
  void cacheConstraint( const Constraint& c, const VectorXs& r ) override { cache[static_cast<const Fake&>( c ).id] = r; }
  void getCachedConstraintImpulse( const Constraint& c, VectorXs& r ) const override { auto it = cache.find( static_cast<const Fake&>( c ).id ); if( it == cache.end() ) r.setZero(); else { vp_check( it->second.size() == r.size(), "cached impulses keep their size" ); r = it->second; } }
  bool constraintCacheEmpty() const override { return cache.empty(); }
};
std::unique_ptr<Constraint> FakeContacts::make( const Fake& p ) const
{
  Fake* f = new Fake( p.dim, p.id, p.i, p.j, p.B ); f->a = p.a; f->b = p.b; f->kin = p.kin; f->q0 = expectQ; f->evals = evals; f->depth = p.depth; return std::unique_ptr<Constraint>( f );
}
// Scripted coefficients, possibly leaving the defaults alone
struct Script final : ScriptingCallback
{
  bool setCor = false, setMu = false; VectorXs cor, mu, corIn, muIn; int corCalls = 0, muCalls = 0; size_t nset = 0;
  void restitutionCoefficient( const Set& s, VectorXs& c ) override { ++corCalls; nset = s.size(); corIn = c; if( setCor ) c = cor; }
  void frictionCoefficient( const Set& s, VectorXs& c ) override { ++muCalls; nset = s.size(); muIn = c; if( setMu ) c = mu; }
  void startOfSim() override {} void endOfSim() override {} void startOfStep( const unsigned, const Rational<std::intmax_t>& ) override {} void endOfStep( const unsigned, const Rational<std::intmax_t>& ) override {}
  std::string name() const override { return "script"; }
};
// A flow map whose first call returns the prediction and whose second call returns the final state
struct TwoStage final : UnconstrainedMap
{
  std::vector<VectorXs> inQ, inV; std::vector<double> dts; std::vector<unsigned> its; VectorXs outQ[2], outV[2];
  void flow( const VectorXs& q0, const VectorXs& v0, FlowableSystem&, const unsigned it, const scalar& dt, VectorXs& q1, VectorXs& v1 ) override
  { const size_t k = inQ.size() ? 1 : 0; inQ.push_back( q0 ); inV.push_back( v0 ); dts.push_back( dt ); its.push_back( it ); q1 = outQ[k]; v1 = outV[k]; }
  std::string name() const override { return "twostage"; } void serialize( std::ostream& ) const override {}
};
// Entry (r,k) of the expected generalized direction matrix built from basis column col of every contact
static double gdir( const Set& s, int k, int r, int col ) { return static_cast<const Fake&>( *s[k] ).dir( r, col ); }
static VectorXs applyN( const Set& s, const AffineSystem& sys, const VectorXs& v, const VectorXs& alpha ) { VectorXs w = v; for( int r = 0; r < sys.n; ++r ) for( int k = 0; k < int( s.size() ); ++k ) w( r ) += gdir( s, k, r, 0 ) * alpha( k ) / sys.m( r ); return w; }
static void checkN( const Set& s, const AffineSystem& sys, const SparseMatrixsc& N, const SparseMatrixsc& Q )
{
  const int n = int( s.size() ); vp_check( N.rows() == sys.n && N.cols() == n, "one generalized normal per contact" ); vp_check( Q.rows() == n && Q.cols() == n, "one response entry per pair of contacts" );
  for( int k = 0; k < n; ++k ) for( int r = 0; r < sys.n; ++r ) vp_check_eq( at( N, r, k ), gdir( s, k, r, 0 ), "generalized normals are the contact gradients in order" );
  for( int k = 0; k < n; ++k ) for( int l = 0; l < n; ++l ) { double x = 0; for( int r = 0; r < sys.n; ++r ) { const Fake& A = static_cast<const Fake&>( *s[k] ); const Fake& Bc = static_cast<const Fake&>( *s[l] ); const int bd = r / A.dim; if( ( bd == A.i || bd == A.j ) && ( bd == Bc.i || bd == Bc.j ) ) x += A.dir( r, 0 ) * Bc.dir( r, 0 ) / sys.m( r ); } vp_check_eq( at( Q, k, l ), x, "the response matrix couples contacts through the inverse mass" ); }
}
// records what it is asked and answers with arbitrary impulses
struct Recorder final : ImpactOperator
{
  int calls = 0; int tag = 0; const AffineSystem* sys = nullptr; VectorXs q0, v0, v0F, nrel, CoR, guess, out;
  void flow( const Set& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q, const VectorXs& v, const VectorXs& vF, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nr, const VectorXs& C, VectorXs& alpha ) override
  {
    ++calls; q0 = q; v0 = v; v0F = vF; nrel = nr; CoR = C; guess = alpha; checkN( cons, *sys, N, Q ); sameSparse( M, sys->MM, "the operator is given the mass matrix" ); sameSparse( Minv, sys->MI, "the operator is given the inverse mass matrix" );
    out = sv( "alpha", int( alpha.size() ), 0, 100 ); alpha = out;
  }
  std::string name() const override { return "recorder"; } std::unique_ptr<ImpactOperator> clone() const override { return nullptr; } void serialize( std::ostream& ) const override {}
};
struct World
{
  int dim, nb; AffineSystem sys; FakeContacts cs; VectorXs q0, v0; Set act;
  World( int dim_, int nb_, std::vector<Spec> k ) : dim( dim_ ), nb( nb_ ), sys( nb_, dim_ ), cs( dim_ ), q0( sv( "q", nb_ * dim_, -100, 100 ) ), v0( sv( "v", nb_ * dim_, -100, 100 ) )
  { for( auto& s : k ) cs.protos.emplace_back( new Fake( dim, s.id, s.i, s.j, frame( dim, s.id ) ) ); cs.expectQ = &q0; for( auto& p : cs.protos ) act.emplace_back( cs.make( *p ) ); }
  // fixed masses and directions (every velocity remains arbitrary)
  void fix()
  {
    for( int r = 0; r < sys.n; ++r ) { sys.m( r ) = 1.0 + r / dim; sys.MM.coeffRef( r, r ) = sys.m( r ); sys.MI.coeffRef( r, r ) = 1.0 / sys.m( r ); }
    act.clear(); for( auto& p : cs.protos ) { p->a = p->b = 1.0; p->B << 0.6, 0.8, -0.8, 0.6; act.emplace_back( cs.make( *p ) ); }
  }
};
static std::vector<Spec> some( int which )
{ switch( which ) { case 0: return {}; case 1: return { { 0, 1, 0 } }; case 2: return { { 0, 0, -1 } }; case 3: return { { 0, 0, 1 }, { 1, 1, 2 } }; default: return { { 0, 2, -1 }, { 1, 0, 2 } }; } }
