// Helpers shared by the whole-simulation harnesses.
#pragma once
#include "vp.h"
#include "tape.h"
#include "scisim/Math/MathDefines.h"
#include "scisim/Math/Rational.h"
#include "scisim/Constraints/Constraint.h"
#include "scisim/Constraints/ConstrainedSystem.h"
#include "scisim/UnconstrainedMaps/FlowableSystem.h"
#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#include <vector>
#include <map>
#include <memory>
#include <sstream>
#include <cmath>
static VectorXs sv( const char* nm, int n, double lo, double hi ) { VectorXs r( n ); for( int k = 0; k < n; ++k ) r( k ) = vp_real( nm, k, lo, hi ); return r; }
static Vector2s sv2( const char* nm, int i, double lo, double hi ) { const double a = vp_real( nm, 2 * i, lo, hi ), b = vp_real( nm, 2 * i + 1, lo, hi ); return Vector2s{ a, b }; }
static Vector3s sv3( const char* nm, int i, double lo, double hi ) { const double a = vp_real( nm, 3 * i, lo, hi ), b = vp_real( nm, 3 * i + 1, lo, hi ), c = vp_real( nm, 3 * i + 2, lo, hi ); return Vector3s{ a, b, c }; }
static Vector2s su2( const char* nm, int i ) { double u[2]; vp_unit2( nm, i, u ); return Vector2s{ u[0], u[1] }; }
static Vector3s su3( const char* nm, int i ) { double u[3]; vp_unit3( nm, i, u ); return Vector3s{ u[0], u[1], u[2] }; }
template<class A, class B> static void eqv( const A& a, const B& b, const char* m ) { vp_check( a.size() == b.size(), m ); for( int k = 0; k < (int) b.size(); ++k ) vp_check_eq( a( k ), b( k ), m ); }
template<class A, class B> static void samev( const A& a, const B& b, const char* m ) { vp_check( a.size() == b.size(), m ); for( int k = 0; k < (int) b.size(); ++k ) vp_check_same( a( k ), b( k ), m ); }
static double dot2( const Vector2s& a, const Vector2s& b ) { return a( 0 ) * b( 0 ) + a( 1 ) * b( 1 ); }
static double dot3( const Vector3s& a, const Vector3s& b ) { return a( 0 ) * b( 0 ) + a( 1 ) * b( 1 ) + a( 2 ) * b( 2 ); }
static Vector3s cross3( const Vector3s& a, const Vector3s& b ) { return Vector3s{ a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0) }; }
// entry (r,c) of a sparse matrix, summed from its stored entries
static double at( const SparseMatrixsc& S, int r, int c ) { double x = 0.0; for( SparseMatrixsc::InnerIterator it( S, c ); it; ++it ) if( it.row() == r ) x += it.value(); return x; }
static VectorXs mul( const SparseMatrixsc& S, const VectorXs& v ) { VectorXs r = VectorXs::Zero( S.rows() ); for( int c = 0; c < S.cols(); ++c ) for( SparseMatrixsc::InnerIterator it( S, c ); it; ++it ) r( it.row() ) += it.value() * v( c ); return r; }
static void sameSparse( const SparseMatrixsc& a, const SparseMatrixsc& b, const char* m )
{
  vp_check( a.rows() == b.rows() && a.cols() == b.cols(), m );
  for( int c = 0; c < b.cols(); ++c ) for( int r = 0; r < b.rows(); ++r ) vp_check_same( at( a, r, c ), at( b, r, c ), m );
}
// A flow map that returns a prescribed end state: lets the harness observe what the simulation does around it.
struct GivenMap final : UnconstrainedMap
{
  VectorXs q, v; unsigned it = 0; double dt = 0.0;
  void flow( const VectorXs&, const VectorXs&, FlowableSystem&, const unsigned i, const scalar& h, VectorXs& q1, VectorXs& v1 ) override { it = i; dt = h; q1 = q; v1 = v; }
  std::string name() const override { return "given"; }
  void serialize( std::ostream& ) const override {}
};
// A system with an affine force law and a diagonal mass, all coefficients arbitrary.
struct AffineSystem final : FlowableSystem
{
  int n, per; unsigned amb = 2; VectorXs c, a, m; SparseMatrixsc MM, MI; std::vector<bool> fixed;
  AffineSystem( int nb, int per_ ) : n( nb * per_ ), per( per_ ), c( sv( "Fc", n, -50, 50 ) ), a( sv( "Fa", n, -50, 50 ) ), m( sv( "m", n, 0.01, 100 ) ), MM( n, n ), MI( n, n ), fixed( nb, false )
  {
    for( int k = 0; k < n; ++k ) { MM.insert( k, k ) = m( k ); MI.insert( k, k ) = 1.0 / m( k ); }
    MM.makeCompressed(); MI.makeCompressed();
  }
  // each force component depends on its own and on the next coordinate
  VectorXs force( const VectorXs& q ) const { VectorXs F( n ); for( int k = 0; k < n; ++k ) F( k ) = c( k ) + a( k ) * q( k ) - a( ( k + 1 ) % n ) * q( ( k + 1 ) % n ); return F; }
  int nqdofs() const override { return n; } int nvdofs() const override { return n; }
  unsigned numVelDoFsPerBody() const override { return per; } unsigned ambientSpaceDimensions() const override { return amb; }
  bool isKinematicallyScripted( const int i ) const override { return fixed[i]; }
  std::vector<double> times; void computeForce( const VectorXs& q, const VectorXs&, const scalar& t, VectorXs& F ) override { times.push_back( t ); F = force( q ); }
  void zeroOutForcesOnFixedBodies( VectorXs& F ) const override { for( int k = 0; k < n; ++k ) if( fixed[k / per] ) F( k ) = 0.0; }
  void linearInertialConfigurationUpdate( const VectorXs& q0, const VectorXs& v0, const scalar& dt, VectorXs& q1 ) const override { q1 = q0 + dt * v0; }
  const SparseMatrixsc& M() const override { return MM; } const SparseMatrixsc& Minv() const override { return MI; }
  const SparseMatrixsc& M0() const override { return MM; } const SparseMatrixsc& Minv0() const override { return MI; }
  void computeMomentum( const VectorXs&, VectorXs& ) const override {} void computeAngularMomentum( const VectorXs&, VectorXs& ) const override {}
  std::string name() const override { return "affine"; }
};
// Flow laws over one step
static VectorXs masked( const AffineSystem& s, VectorXs F, bool mask ) { if( mask ) for( int k = 0; k < s.n; ++k ) if( s.fixed[k / s.per] ) F( k ) = 0.0; return F; }
static void inStep( const AffineSystem& s, int it, double dt ) { vp_check( !s.times.empty(), "the forces act" ); for( double t : s.times ) { vp_check_le( ( it - 1 ) * dt, t, "forces are asked for a time inside the step" ); vp_check_le( t, it * dt, "forces are asked for a time inside the step" ); } }
static void eulerLaw( UnconstrainedMap& map, AffineSystem& s, bool mask )
{
  const VectorXs q0 = sv( "q", s.n, -100, 100 ), v0 = sv( "v", s.n, -100, 100 ); const double dt = vp_real( "dt", 0, 0.0001, 1.0 );
  VectorXs q1( s.n ), v1( s.n ); static const int its[3] = { 1, 2, 5 }; const int it = its[vp_choose( "it", 0, 3 )]; map.flow( q0, v0, s, unsigned( it ), dt, q1, v1 ); inStep( s, it, dt );
  const VectorXs F = masked( s, s.force( q0 ), mask );
  for( int k = 0; k < s.n; ++k )
  {
    vp_check_eq( s.m( k ) * ( v1( k ) - v0( k ) ), dt * F( k ), "momentum changes by the time step times the force at the start of the step" );
    vp_check_eq( q1( k ) - q0( k ), dt * v1( k ), "position advances with the new velocity" );
    if( mask && s.fixed[k / s.per] ) vp_check_eq( v1( k ), v0( k ), "scripted bodies keep their velocity" );
  }
  vp_cover( "end" );
}
static void verletLaw( UnconstrainedMap& map, AffineSystem& s, bool mask )
{
  const VectorXs q0 = sv( "q", s.n, -100, 100 ), v0 = sv( "v", s.n, -100, 100 ); const double dt = vp_real( "dt", 0, 0.0001, 1.0 );
  VectorXs q1( s.n ), v1( s.n ); static const int its[3] = { 1, 2, 5 }; const int it = its[vp_choose( "it", 0, 3 )]; map.flow( q0, v0, s, unsigned( it ), dt, q1, v1 ); inStep( s, it, dt );
  const VectorXs F0 = masked( s, s.force( q0 ), mask ), F1 = masked( s, s.force( q1 ), mask );
  for( int k = 0; k < s.n; ++k )
  {
    vp_check_eq( s.m( k ) * ( q1( k ) - q0( k ) - dt * v0( k ) ), 0.5 * dt * dt * F0( k ), "position advances with the velocity and half the squared step times the initial acceleration" );
    vp_check_eq( s.m( k ) * ( v1( k ) - v0( k ) ), 0.5 * dt * ( F0( k ) + F1( k ) ), "momentum changes by the mean of the forces at both ends of the step" );
    if( mask && s.fixed[k / s.per] ) vp_check_eq( v1( k ), v0( k ), "scripted bodies keep their velocity" );
  }
  vp_cover( "end" );
}
// Running a step backwards returns to the start (time reversibility of Verlet)
static void reverseLaw( UnconstrainedMap& map, AffineSystem& s )
{
  const VectorXs q0 = sv( "q", s.n, -100, 100 ), v0 = sv( "v", s.n, -100, 100 ); const double dt = vp_real( "dt", 0, 0.0001, 1.0 );
  VectorXs q1( s.n ), v1( s.n ), q2( s.n ), v2( s.n ); map.flow( q0, v0, s, 1, dt, q1, v1 );
  const VectorXs w = -v1; map.flow( q1, w, s, 2, dt, q2, v2 );
  for( int k = 0; k < s.n; ++k ) { vp_check_eq( q2( k ), q0( k ), "a step with the velocity reversed returns to the start" ); vp_check_eq( v2( k ), -v0( k ), "a step with the velocity reversed returns to the start" ); }
  vp_cover( "end" );
}
typedef std::vector<std::unique_ptr<Constraint>> Set;
// The impulse cache is a map from contacts to impulses: any subset of distinct contacts is stored and read back
static void cacheLaw( ConstrainedSystem& cs, const Set& K, int dim )
{
  const int n = int( K.size() ); std::vector<VectorXs> imp; std::vector<bool> in; bool any = false; const bool rev = vp_choose( "rev", 0, 2 );
  for( int i = 0; i < n; ++i ) { imp.emplace_back( sv( ( "c" + std::to_string( i ) ).c_str(), dim, -9, 9 ) ); in.push_back( vp_choose( "in", i, 2 ) ); any = any || in[i]; }
  vp_check( cs.constraintCacheEmpty(), "a new cache is empty" );
  for( int j = 0; j < n; ++j ) { const int i = rev ? n - 1 - j : j; if( in[i] ) cs.cacheConstraint( *K[i], imp[i] ); }
  vp_check( cs.constraintCacheEmpty() == !any, "the cache is empty exactly when nothing was stored" );
  VectorXs r( dim ), z = VectorXs::Zero( dim );
  for( int i = 0; i < n; ++i ) { r.setConstant( 77.0 ); cs.getCachedConstraintImpulse( *K[i], r ); samev( r, in[i] ? imp[i] : z, "a stored contact gives back its impulse, any other gives zero" ); }
  cs.clearConstraintCache(); vp_check( cs.constraintCacheEmpty(), "clearing empties the cache" );
  for( int i = 0; i < n; ++i ) { r.setConstant( 77.0 ); cs.getCachedConstraintImpulse( *K[i], r ); samev( r, z, "a cleared cache gives zero" ); }
  vp_cover( "end" );
}
// Impact and contact bases list one block per contact, in order, starting with its normal
static void basesLaw( const ConstrainedSystem& cs, const VectorXs& q, const VectorXs& v, const Set& K, int dim )
{
  MatrixXXsc N, B; cs.computeImpactBases( q, K, N ); const int n = int( K.size() );
  vp_check( N.rows() == dim && N.cols() == n, "one impact direction per contact" );
  cs.computeContactBases( q, v, K, B ); vp_check( B.rows() == dim && B.cols() == dim * n, "one frame per contact" );
  for( int k = 0; k < n; ++k )
  {
    VectorXs nn; K[k]->getWorldSpaceContactNormal( q, nn );
    for( int d = 0; d < dim; ++d ) { vp_check_eq( N( d, k ), nn( d ), "impact directions are the contact normals in order" ); vp_check_eq( B( d, dim * k ), nn( d ), "each contact frame starts with the normal" ); }
    for( int a = 0; a < dim; ++a ) for( int b = a; b < dim; ++b ) { double s = 0; for( int d = 0; d < dim; ++d ) s += B( d, dim * k + a ) * B( d, dim * k + b ); vp_check_eq( s, a == b ? 1.0 : 0.0, "each contact frame is orthonormal" ); }
  }
  vp_cover( "end" );
}
