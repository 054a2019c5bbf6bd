// Laws every contact must satisfy, shared by the ball2d / rigidbody2d / rigidbody3d harnesses.
// The oracle is rigid-body kinematics written out here from scratch.
#pragma once
#include "vp.h"
#include "scisim/Math/MathDefines.h"
#include "scisim/Constraints/Constraint.h"
#include "scisim/UnconstrainedMaps/FlowableSystem.h"
#include <vector>
#include <memory>
#include <cmath>
enum Layout { BALL2, RB2, RB3 };
static const int VD[3] = { 2, 3, 6 }, DIM[3] = { 2, 2, 3 };
struct Contact
{
  Layout L; int nb; VectorXs q, v;
  int i, j;                 // simulated bodies, j = -1 for a boundary / scripted partner
  int bj;                   // partner body with configuration dofs (or -1)
  Vector3s n, s, t;         // right-handed contact frame (z = 0 in 2D; t unused in 2D)
  Vector3s ri, rj;          // arms from centres of mass to the contact point
  Vector3s kin;             // velocity of the scripted partner at the contact point
};
static Vector3s lin( const Contact& c, const VectorXs& v, int b )
{
  if( c.L == BALL2 ) return Vector3s{ v( 2 * b ), v( 2 * b + 1 ), 0.0 };
  if( c.L == RB2 ) return Vector3s{ v( 3 * b ), v( 3 * b + 1 ), 0.0 };
  return Vector3s{ v( 3 * b ), v( 3 * b + 1 ), v( 3 * b + 2 ) };
}
static Vector3s ang( const Contact& c, const VectorXs& v, int b )
{
  if( c.L == BALL2 ) return Vector3s::Zero();
  if( c.L == RB2 ) return Vector3s{ 0.0, 0.0, v( 3 * b + 2 ) };
  const int o = 3 * ( c.nb + b );
  return Vector3s{ v( o ), v( o + 1 ), v( o + 2 ) };
}
static Vector3s xpos( const Contact& c, int b )
{
  if( c.L == BALL2 ) return Vector3s{ c.q( 2 * b ), c.q( 2 * b + 1 ), 0.0 };
  if( c.L == RB2 ) return Vector3s{ c.q( 3 * b ), c.q( 3 * b + 1 ), 0.0 };
  return Vector3s{ c.q( 3 * b ), c.q( 3 * b + 1 ), c.q( 3 * b + 2 ) };
}
static Vector3s cr( const Vector3s& a, const Vector3s& b )
{
  return Vector3s{ a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0) };
}
static double dt( const Vector3s& a, const Vector3s& b ) { return a(0) * b(0) + a(1) * b(1) + a(2) * b(2); }
static Vector3s pointVel( const Contact& c )  // without the scripted part
{
  Vector3s u = lin( c, c.v, c.i );
  const Vector3s w = ang( c, c.v, c.i );
  u += cr( w, c.ri );
  if( c.j >= 0 ) { const Vector3s uj = lin( c, c.v, c.j ), wj = ang( c, c.v, c.j ); u -= uj; u -= cr( wj, c.rj ); }
  return u;
}
static Vector3s relVel( const Contact& c ) { return pointVel( c ) - c.kin; }
// symbolic state
static void makeState( Contact& c, Layout L, int nb )
{
  c.L = L; c.nb = nb; c.kin.setZero(); c.ri.setZero(); c.rj.setZero(); c.t.setZero(); c.j = c.bj = -1;
  c.v.resize( VD[L] * nb );
  for( int k = 0; k < VD[L] * nb; ++k ) c.v( k ) = vp_real( "v", k, -100, 100 );
  const int nq = L == RB3 ? 12 * nb : VD[L] * nb;
  c.q.setZero( nq );
  if( L == RB3 )
  {
    for( int k = 0; k < 3 * nb; ++k ) c.q( k ) = vp_real( "q", k, -100, 100 );
    for( int b = 0; b < nb; ++b ) for( int k = 0; k < 3; ++k ) c.q( 3 * nb + 9 * b + 4 * k ) = 1.0;
  }
  else for( int k = 0; k < nq; ++k ) c.q( k ) = vp_real( "q", k, -100, 100 );
}
static void makeFrame( Contact& c )
{
  if( c.L != RB3 )
  {
    double u[2]; vp_unit2( "n", 0, u );
    c.n = Vector3s{ u[0], u[1], 0.0 }; c.s = Vector3s{ -u[1], u[0], 0.0 }; c.t.setZero();
  }
  else
  {
    double h[4]; vp_quat( "f", 0, h );
    const double x = h[0], y = h[1], z = h[2], w = h[3];
    c.n = Vector3s{ 1.0 - 2.0 * ( y * y + z * z ), 2.0 * ( x * y + w * z ), 2.0 * ( x * z - w * y ) };
    c.s = Vector3s{ 2.0 * ( x * y - w * z ), 1.0 - 2.0 * ( x * x + z * z ), 2.0 * ( y * z + w * x ) };
    c.t = Vector3s{ 2.0 * ( x * z + w * y ), 2.0 * ( y * z - w * x ), 1.0 - 2.0 * ( x * x + y * y ) };
  }
}
static void pickPair( Contact& c )
{
  static const int P[3][2] = { { 0, 1 }, { 0, 2 }, { 1, 2 } };
  const int k = c.nb == 2 ? 0 : vp_choose( "pair", 0, 3 );
  c.i = P[k][0]; c.j = P[k][1]; c.bj = c.j;
}
static Vector3s up( const VectorXs& x ) { return x.size() == 2 ? Vector3s{ x( 0 ), x( 1 ), 0.0 } : Vector3s{ x( 0 ), x( 1 ), x( 2 ) }; }
static VectorXs down( const Contact& c, const Vector3s& x ) { VectorXs r( DIM[c.L] ); for( int k = 0; k < r.size(); ++k ) r( k ) = x( k ); return r; }
static MatrixXXsc frame( const Contact& c )
{
  const int d = DIM[c.L]; MatrixXXsc b( d, d );
  for( int k = 0; k < d; ++k ) { b( k, 0 ) = c.n( k ); b( k, 1 ) = c.s( k ); if( d == 3 ) b( k, 2 ) = c.t( k ); }
  return b;
}
static double colDot( const SparseMatrixsc& G, int col, const VectorXs& v )
{
  double r = 0.0;
  for( SparseMatrixsc::InnerIterator it( G, col ); it; ++it ) r += it.value() * v( it.row() );
  return r;
}
static VectorXs denseCol( const SparseMatrixsc& G, int col )
{
  VectorXs r = VectorXs::Zero( G.rows() );
  for( SparseMatrixsc::InnerIterator it( G, col ); it; ++it ) r( it.row() ) += it.value();
  return r;
}
// which optional operations a contact kind implements
enum { HAS_GRAD = 1, HAS_FRIC = 2, HAS_DISK1 = 4, HAS_NREL = 8, HAS_NORMAL = 16, HAS_POINT = 32, HAS_H = 64, HAS_IMPSTENCIL = 128, HAS_BODIES = 256 };
static const int BASIC = HAS_NORMAL | HAS_POINT | HAS_H | HAS_BODIES;
static void indexLaws( const Contact& c, const Constraint& k, int caps )
{
  if( !( caps & HAS_BODIES ) ) return;
  vp_check( k.simulatedBody0() == c.i, "contact reports its first simulated body" );
  vp_check( k.simulatedBody1() == c.j, "contact reports its second simulated body, or none" );
  vp_check( k.body0() == c.i, "contact reports its first body" );
  vp_check( k.body1() == c.bj, "contact reports its partner body, or none" );
}
// relative velocity, Jacobian rows, friction columns, So-bogus blocks
static void velocityLaws( const Contact& c, const Constraint& k, int caps, FlowableSystem* fs )
{
  indexLaws( c, k, caps );
  const int nv = c.v.size();
  const Vector3s rel = relVel( c );
  const VectorXs got = k.computeRelativeVelocity( c.q, c.v );
  vp_check( got.size() == DIM[c.L], "relative velocity has the ambient dimension" );
  for( int d = 0; d < DIM[c.L]; ++d ) vp_check_eq( got( d ), rel( d ), "relative velocity is the velocity difference of the touching points" );
  vp_check_eq( k.evalNdotV( c.q, c.v ), dt( c.n, rel ), "normal relative velocity is the normal part of the relative velocity" );
  const VectorXs kin = k.computeKinematicRelativeVelocity( c.q, c.v );
  for( int d = 0; d < DIM[c.L]; ++d ) vp_check_eq( kin( d ), c.kin( d ), "scripted contribution is the partner's velocity at the contact point" );
  if( caps & HAS_NORMAL ) { VectorXs w; k.getWorldSpaceContactNormal( c.q, w ); for( int d = 0; d < DIM[c.L]; ++d ) vp_check_eq( w( d ), c.n( d ), "reported contact normal" ); }
  if( caps & HAS_POINT ) { VectorXs w; k.getWorldSpaceContactPoint( c.q, w ); const Vector3s p = xpos( c, c.i ) + c.ri; for( int d = 0; d < DIM[c.L]; ++d ) vp_check_eq( w( d ), p( d ), "reported contact point" ); }
  if( caps & HAS_NREL )
  {
    VectorXs g = VectorXs::Constant( 3, 7.0 );
    k.evalKinematicNormalRelVel( c.q, 1, g );
    vp_check_eq( g( 1 ), -dt( c.n, c.kin ), "scripted normal velocity" );
    vp_check_eq( g( 0 ), 7.0, "scripted normal velocity of other contacts untouched" ); vp_check_eq( g( 2 ), 7.0, "scripted normal velocity of other contacts untouched" );
  }
  if( caps & HAS_GRAD )
  {
    SparseMatrixsc N( nv, 2 );
    N.reserve( VectorXi::Constant( 2, nv ) );
    k.evalgradg( c.q, 1, N, *fs );
    N.makeCompressed();
    vp_check_eq( colDot( N, 1, c.v ) - dt( c.n, c.kin ), dt( c.n, rel ), "normal Jacobian column maps velocities to the normal relative velocity" );
    vp_check( N.nonZeros() <= k.impactStencilSize(), "normal Jacobian column fits the declared stencil" );
    vp_check( N.col( 0 ).nonZeros() == 0, "normal Jacobian touches only its own column" );
  }
  if( caps & HAS_FRIC )
  {
    const int nt = DIM[c.L] - 1;
    SparseMatrixsc D( nv, nt + 1 );
    D.reserve( VectorXi::Constant( nt + 1, nv ) );
    for( int a = 0; a < nt; ++a ) k.computeGeneralizedFrictionGivenTangentSample( c.q, down( c, a == 0 ? c.s : c.t ), a + 1, D );
    D.makeCompressed();
    for( int a = 0; a < nt; ++a )
    {
      const Vector3s& x = a == 0 ? c.s : c.t;
      vp_check_eq( colDot( D, a + 1, c.v ) - dt( x, c.kin ), dt( x, rel ), "friction column maps velocities to the tangential relative velocity" );
      vp_check( D.col( a + 1 ).nonZeros() <= k.frictionStencilSize(), "friction column fits the declared stencil" );
    }
    vp_check( D.col( 0 ).nonZeros() == 0, "friction Jacobian touches only its own columns" );
  }
  if( caps & HAS_DISK1 )
  {
    SparseMatrixsc D( nv, 2 ); VectorXs drel = VectorXs::Constant( 2, 7.0 );
    D.reserve( VectorXi::Constant( 2, nv ) );
    k.computeGeneralizedFrictionDisk( c.q, c.v, 1, 1, D, drel );
    D.makeCompressed();
    vp_check_eq( colDot( D, 1, c.v ) + drel( 1 ), dt( c.s, rel ), "2D friction disk column plus scripted part gives the tangential relative velocity" );
    vp_check_eq( drel( 1 ), -dt( c.s, c.kin ), "2D friction disk scripted part" );
  }
  if( caps & HAS_H )
  {
    const int d = DIM[c.L], m = VD[c.L];
    MatrixXXsc H0 = MatrixXXsc::Zero( d, m ), H1 = MatrixXXsc::Zero( d, m );
    k.evalH( c.q, frame( c ), H0, H1 );
    auto loc = [&]( int b, int a ) { return c.L == RB3 ? ( a < 3 ? c.v( 3 * b + a ) : c.v( 3 * ( c.nb + b ) + a - 3 ) ) : c.v( m * b + a ); };
    for( int r = 0; r < d; ++r )
    {
      double x = 0.0;
      for( int a = 0; a < m; ++a ) { x += H0( r, a ) * loc( c.i, a ); if( c.j >= 0 ) x -= H1( r, a ) * loc( c.j, a ); }
      const Vector3s& e = r == 0 ? c.n : r == 1 ? c.s : c.t;
      vp_check_eq( x - dt( e, c.kin ), dt( e, rel ), "contact-frame Jacobian blocks give the relative velocity in the contact frame" );
    }
  }
}
// impulses along columns change exactly the momenta the contact does not claim to conserve
static void columnMomenta( const Contact& c, const VectorXs& col, Vector3s& P, Vector3s& A )
{
  P.setZero(); A.setZero();
  for( int b = 0; b < c.nb; ++b ) { const Vector3s f = lin( c, col, b ); P += f; A += cr( xpos( c, b ), f ); A += ang( c, col, b ); }
}
static void conservationLaws( const Contact& c, const Constraint& k, int caps, FlowableSystem* fs, bool expectTrans, bool expectAng )
{
  const int nv = c.v.size();
  if( expectTrans ) vp_check( k.conservesTranslationalMomentum(), "body-body contact declares momentum conservation" );
  if( !expectTrans ) vp_check( !k.conservesTranslationalMomentum(), "boundary contact does not declare momentum conservation" );
  if( !expectAng ) vp_check( !k.conservesAngularMomentumUnderImpactAndFriction(), "contact that may exert net torque does not declare angular conservation" );
  if( caps & HAS_GRAD )
  {
    SparseMatrixsc N( nv, 1 ); N.reserve( VectorXi::Constant( 1, nv ) ); k.evalgradg( c.q, 0, N, *fs ); N.makeCompressed();
    Vector3s P, A; columnMomenta( c, denseCol( N, 0 ), P, A );
    if( expectTrans || k.conservesTranslationalMomentum() ) for( int d = 0; d < 3; ++d ) vp_check_eq( P( d ), 0.0, "normal impulse leaves total momentum unchanged" );
    if( expectAng || k.conservesAngularMomentumUnderImpact() ) for( int d = 0; d < 3; ++d ) vp_check_eq( A( d ), 0.0, "normal impulse leaves total angular momentum unchanged" );
  }
  if( caps & HAS_FRIC )
  {
    const int nt = DIM[c.L] - 1;
    SparseMatrixsc D( nv, nt ); D.reserve( VectorXi::Constant( nt, nv ) );
    for( int a = 0; a < nt; ++a ) k.computeGeneralizedFrictionGivenTangentSample( c.q, down( c, a == 0 ? c.s : c.t ), a, D );
    D.makeCompressed();
    for( int a = 0; a < nt; ++a )
    {
      Vector3s P, A; columnMomenta( c, denseCol( D, a ), P, A );
      if( expectTrans ) for( int d = 0; d < 3; ++d ) vp_check_eq( P( d ), 0.0, "friction impulse leaves total momentum unchanged" );
      if( k.conservesAngularMomentumUnderImpactAndFriction() ) for( int d = 0; d < 3; ++d ) vp_check_eq( A( d ), 0.0, "friction impulse leaves total angular momentum unchanged" );
    }
  }
  if( caps & HAS_H )
  {
    // wrench of a unit impulse along each frame direction, assembled from the contact-frame blocks
    const int d = DIM[c.L], m = VD[c.L];
    MatrixXXsc H0 = MatrixXXsc::Zero( d, m ), H1 = MatrixXXsc::Zero( d, m );
    k.evalH( c.q, frame( c ), H0, H1 );
    for( int r = 0; r < d; ++r )
    {
      VectorXs col = VectorXs::Zero( nv );
      auto add = [&]( int b, int a, double x ) { col( c.L == RB3 ? ( a < 3 ? 3 * b + a : 3 * ( c.nb + b ) + a - 3 ) : m * b + a ) += x; };
      for( int a = 0; a < m; ++a ) { add( c.i, a, H0( r, a ) ); if( c.j >= 0 ) add( c.j, a, -H1( r, a ) ); }
      Vector3s P, A; columnMomenta( c, col, P, A );
      if( expectTrans || k.conservesTranslationalMomentum() ) for( int x = 0; x < 3; ++x ) vp_check_eq( P( x ), 0.0, "contact impulse leaves total momentum unchanged" );
      if( r == 0 ? k.conservesAngularMomentumUnderImpact() : k.conservesAngularMomentumUnderImpactAndFriction() ) for( int x = 0; x < 3; ++x ) vp_check_eq( A( x ), 0.0, "contact impulse leaves total angular momentum unchanged" );
    }
  }
}
// relative velocity given in frame coordinates: body i moves, everything else rests
static void simpleVelocity( Contact& c, bool sliding )
{
  c.v.setZero();
  const double a = vp_real( "vn", 0, -100, 100 ), b = sliding ? vp_real( "vs", 0, 0.0001, 100 ) : 0.0;
  // the frame is an arbitrary rotation, so sliding along its second axis is sliding in any direction
  for( int k = 0; k < 3; ++k ) c.v( 3 * c.i + k ) = a * c.n( k ) + b * c.s( k );
}
// 3D friction disk: unit tangent directions, leading one opposes sliding, columns dual to the relative velocity
static void diskLaws( Contact& c, const Constraint& k, int ns )
{
  const int nv = c.v.size();
  const VectorXs w = c.v;  // the duality is checked for an independent velocity
  {
    const double a = vp_real( "vn", 0, -100, 100 ), b = vp_real( "vs", 0, 0.0001, 100 );
    const Vector3s d = a * c.n + b * c.s - relVel( c );
    for( int x = 0; x < 3; ++x ) c.v( 3 * c.i + x ) += d( x );
  }
  SparseMatrixsc D( nv, ns + 1 ); VectorXs drel = VectorXs::Constant( ns + 1, 7.0 );
  D.reserve( VectorXi::Constant( ns + 1, nv ) );
  k.computeGeneralizedFrictionDisk( c.q, c.v, 1, ns, D, drel );
  D.makeCompressed();
  Contact o = c; o.v = w;
  const Vector3s rel = relVel( o );
  vp_check( D.col( 0 ).nonZeros() == 0, "friction disk touches only its own columns" );
  vp_check_eq( drel( 0 ), 7.0, "friction disk touches only its own entries" );
  for( int a = 0; a < ns; ++a )
  {
    const VectorXs col = denseCol( D, a + 1 );
    const Vector3s d = lin( c, col, c.i );
    vp_check( D.col( a + 1 ).nonZeros() <= k.frictionStencilSize(), "friction disk column fits the declared stencil" );
    vp_check_eq( dt( d, c.n ), 0.0, "friction disk directions are tangent" );
    vp_check_eq( dt( d, d ), 1.0, "friction disk directions are unit vectors" );
    if( a == 0 ) for( int x = 0; x < 3; ++x ) vp_check_eq( d( x ), -c.s( x ), "leading friction disk direction opposes sliding" );
    const double th = double( a ) * ( 2.0 * 3.14159265358979323846 / double( ns ) );
    vp_check_eq( -dt( d, c.s ), std::cos( th ), "friction disk directions are evenly rotated about the normal" );
    vp_check_eq( -dt( d, c.t ), std::sin( th ), "friction disk directions are evenly rotated about the normal" );
    vp_check_eq( drel( a + 1 ), -dt( d, c.kin ), "friction disk scripted part" );
    double x = 0.0; for( int r = 0; r < nv; ++r ) x += col( r ) * w( r );
    vp_check_eq( x + drel( a + 1 ), dt( d, rel ), "friction disk column plus scripted part gives the relative velocity along its direction" );
  }
}
// orthonormal, right-handed, first axis = contact normal, second axis opposes sliding
static void frameLaws( const Contact& c, const Constraint& k )
{
  MatrixXXsc B; k.computeBasis( c.q, c.v, B );
  const int d = DIM[c.L];
  vp_check( B.rows() == d && B.cols() == d, "contact frame has the ambient dimension" );
  for( int r = 0; r < d; ++r ) vp_check_eq( B( r, 0 ), c.n( r ), "first frame axis is the contact normal" );
  for( int a = 0; a < d; ++a ) for( int b = a; b < d; ++b )
  {
    double x = 0.0; for( int r = 0; r < d; ++r ) x += B( r, a ) * B( r, b );
    vp_check_eq( x, a == b ? 1.0 : 0.0, "contact frame axes are orthonormal" );
  }
  if( d == 2 ) vp_check_eq( B( 0, 0 ) * B( 1, 1 ) - B( 1, 0 ) * B( 0, 1 ), 1.0, "contact frame is right-handed" );
  else
  {
    const Vector3s x = cr( up( B.col( 0 ) ), up( B.col( 1 ) ) );
    for( int r = 0; r < 3; ++r ) vp_check_eq( x( r ), B( r, 2 ), "contact frame is right-handed" );
    const Vector3s rel = relVel( c ), nx = cr( c.n, rel );
    if( dt( nx, nx ) >= 1.0e-9 )
    {
      vp_check_eq( dt( up( B.col( 2 ) ), rel ), 0.0, "second tangent is orthogonal to the sliding direction" );
      vp_check_le( dt( up( B.col( 1 ) ), rel ), 0.0, "first tangent opposes sliding" );
    }
  }
}
struct Sys : public FlowableSystem
{
  int m_nq, m_nv, m_vd, m_dim; SparseMatrixsc m_M, m_Minv;
  std::vector<bool> fixed;
  int nqdofs() const override { return m_nq; }
  int nvdofs() const override { return m_nv; }
  unsigned numVelDoFsPerBody() const override { return m_vd; }
  unsigned ambientSpaceDimensions() const override { return m_dim; }
  bool isKinematicallyScripted( const int i ) const override { return fixed.empty() ? false : bool( fixed[i] ); }
  void computeForce( const VectorXs&, const VectorXs&, const scalar&, VectorXs& F ) override { F.setZero(); }
  void zeroOutForcesOnFixedBodies( VectorXs& F ) const override {}
  void linearInertialConfigurationUpdate( const VectorXs& q0, const VectorXs& v0, const scalar& h, VectorXs& q1 ) const override { q1 = q0 + h * v0; }
  const SparseMatrixsc& M() const override { return m_M; }
  const SparseMatrixsc& Minv() const override { return m_Minv; }
  const SparseMatrixsc& M0() const override { return m_M; }
  const SparseMatrixsc& Minv0() const override { return m_Minv; }
  void computeMomentum( const VectorXs&, VectorXs& ) const override {}
  void computeAngularMomentum( const VectorXs&, VectorXs& ) const override {}
  std::string name() const override { return "harness"; }
  Sys( const Contact& c ) : m_nq( c.q.size() ), m_nv( c.v.size() ), m_vd( VD[c.L] ), m_dim( DIM[c.L] ) {}
  ~Sys() override {}
};
static SparseMatrixsc diag( const VectorXs& m )
{
  SparseMatrixsc M( m.size(), m.size() );
  M.reserve( VectorXi::Constant( m.size(), 1 ) );
  for( int k = 0; k < m.size(); ++k ) M.insert( k, k ) = m( k );
  M.makeCompressed();
  return M;
}
// two-body / boundary impact response
static void impactLaws( const Contact& c, const Constraint& k, FlowableSystem* fs )
{
  VectorXs mass( c.v.size() );
  const int lindofs = c.L == BALL2 ? 2 : 3;
  for( int b = 0; b < c.nb; ++b )
  {
    const double m = vp_real( "m", b, 0.0, 1000.0 ); vp_assume( m > 0.0 );
    for( int a = 0; a < lindofs; ++a ) mass( lindofs * b + a ) = m;
    if( c.L == RB3 ) for( int a = 0; a < 3; ++a ) { const double I = vp_real( "I", 3 * b + a, 0.0, 1000.0 ); vp_assume( I > 0.0 ); mass( 3 * ( c.nb + b ) + a ) = I; }
  }
  const SparseMatrixsc M = diag( mass );
  const double e = vp_real( "cor", 0, 0.0, 1.0 );
  const double vn = dt( c.n, relVel( c ) );
  vp_assume( vn < 0.0 );
  VectorXs w = c.v; double alpha = 0.0;
  k.resolveImpact( e, M, vn, w, alpha );
  Contact a = c; a.v = w;
  vp_check_eq( dt( c.n, relVel( a ) ), -e * vn, "normal relative velocity is reversed and scaled by the restitution coefficient" );
  SparseMatrixsc N( c.v.size(), 1 ); N.reserve( VectorXi::Constant( 1, c.v.size() ) ); k.evalgradg( c.q, 0, N, *fs ); N.makeCompressed();
  const VectorXs col = denseCol( N, 0 );
  for( int d = 0; d < c.v.size(); ++d ) vp_check_eq( mass( d ) * ( w( d ) - c.v( d ) ), alpha * col( d ), "velocity change is the reported impulse along the contact normal" );
}
// kinetic energy never grows (stationary partner)
static void impactEnergy( const Contact& c, const Constraint& k, const VectorXs& mass )
{
  const SparseMatrixsc M = diag( mass );
  const double e = vp_real( "cor", 0, 0.0, 1.0 );
  const double vn = dt( c.n, relVel( c ) );
  vp_assume( vn < 0.0 );
  VectorXs w = c.v; double alpha = 0.0;
  k.resolveImpact( e, M, vn, w, alpha );
  double dE = 0.0;
  for( int d = 0; d < c.v.size(); ++d ) dE += mass( d ) * ( w( d ) * w( d ) - c.v( d ) * c.v( d ) );
  vp_check_le( dE, 0.0, "impact never increases kinetic energy" );
}
