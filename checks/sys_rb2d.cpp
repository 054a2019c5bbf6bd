#include "sys.h"
#include "rigidbody2d/RigidBody2DSim.h"
#include "rigidbody2d/RigidBody2DUtilities.h"
#include "rigidbody2d/PythonScripting.h"
#include "rigidbody2d/SymplecticEulerMap.h"
#include "rigidbody2d/VerletMap.h"
#include "rigidbody2d/NearEarthGravityForce.h"
#include "rigidbody2d/BoxGeometry.h"
#include "rigidbody2d/CircleGeometry.h"
#include "rigidbody2d/CircleCircleConstraint.h"
#include "rigidbody2d/BodyBodyConstraint.h"
#include "rigidbody2d/KinematicObjectCircleConstraint.h"
#include "rigidbody2d/StaticPlaneCircleConstraint.h"
#include "rigidbody2d/StaticPlaneBodyConstraint.h"
#ifdef VP_THOROUGH
static const int NB = 3;
static const double XR = 3.0;
#else
static const int NB = 2;
static const double XR = 2.0;
#endif
typedef std::vector<std::unique_ptr<RigidBody2DGeometry>> Geo;
typedef std::vector<std::unique_ptr<RigidBody2DForce>> Forces;
struct Bodies { int n; VectorXs q, v, m, I; };
static VectorXs interleave( const VectorXs& m, const VectorXs& I ) { const int n = int( m.size() ); VectorXs r( 3 * n ); for( int i = 0; i < n; ++i ) { r( 3 * i ) = m( i ); r( 3 * i + 1 ) = m( i ); r( 3 * i + 2 ) = I( i ); } return r; }
static Bodies some( int n ) { return Bodies{ n, sv( "q", 3 * n, -100, 100 ), sv( "v", 3 * n, -100, 100 ), sv( "m", n, 0.01, 1000 ), sv( "I", n, 0.01, 1000 ) }; }
static VectorXu idxs( int n, unsigned g ) { return VectorXu::Constant( n, g ); }
static void install( RigidBody2DState& s, const Bodies& b, const Forces& f, const std::vector<bool>& fixed, const VectorXu& gi, const Geo& geo ) { s = RigidBody2DState( b.q, b.v, interleave( b.m, b.I ), fixed, gi, geo, f, {}, {} ); }
static Bodies fill( RigidBody2DState& s, int n, const Forces& f )
{
  const Bodies b = some( n ); Geo g; g.emplace_back( new CircleGeometry{ 1.0 } ); install( s, b, f, std::vector<bool>( n, false ), idxs( n, 0 ), g ); return b;
}
static Forces grav( const Vector2s& g ) { Forces f; f.emplace_back( new NearEarthGravityForce{ g } ); return f; }
VP_HARNESS(r2_energy)
{
  const Vector2s g = sv2( "g", 0, -20, 20 ), h = sv2( "h", 0, -20, 20 ); Forces f = grav( g ); f.emplace_back( new NearEarthGravityForce{ h } );
  RigidBody2DSim sim; const Bodies b = fill( sim.state(), NB, f ); const VectorXs w = sv( "w", 3 * NB, -100, 100 );
  double T = 0, U = 0, L = 0, L2 = 0; Vector2s P = Vector2s::Zero(), P2 = Vector2s::Zero();
  for( int i = 0; i < NB; ++i )
  {
    const double vx = b.v( 3 * i ), vy = b.v( 3 * i + 1 ), om = b.v( 3 * i + 2 ), x = b.q( 3 * i ), y = b.q( 3 * i + 1 ), m = b.m( i ), I = b.I( i );
    T += m * ( vx * vx + vy * vy ) / 2.0 + I * om * om / 2.0; U -= m * ( ( g( 0 ) + h( 0 ) ) * x + ( g( 1 ) + h( 1 ) ) * y ); P( 0 ) += m * vx; P( 1 ) += m * vy; L += m * ( x * vy - y * vx ) + I * om;
    P2( 0 ) += m * w( 3 * i ); P2( 1 ) += m * w( 3 * i + 1 ); L2 += m * ( x * w( 3 * i + 1 ) - y * w( 3 * i ) ) + I * w( 3 * i + 2 );
    vp_check_eq( sim.state().m( i ), m, "mass of each body" ); vp_check_eq( sim.state().I( i ), I, "inertia of each body" );
  }
  vp_check_eq( sim.computeKineticEnergy(), T, "kinetic energy is the sum of m v^2 / 2 and I w^2 / 2" ); vp_check_eq( sim.computePotentialEnergy(), U, "potential energy is the sum over all forces" );
  vp_check_eq( sim.computeTotalEnergy(), T + U, "total energy is kinetic plus potential" ); eqv( sim.computeTotalMomentum(), P, "total momentum" ); vp_check_eq( sim.computeTotalAngularMomentum(), L, "total angular momentum about the origin" );
  VectorXs p, l; sim.computeMomentum( w, p ); sim.computeAngularMomentum( w, l ); eqv( p, P2, "momentum of a given velocity" ); vp_check( l.size() == 1, "angular momentum is a scalar in 2D" ); vp_check_eq( l( 0 ), L2, "angular momentum of a given velocity" );
  vp_cover( "end" );
}
VP_HARNESS(r2_mass)
{
  RigidBody2DSim sim; const Bodies b = fill( sim.state(), NB, Forces{} ); const VectorXs mm = interleave( b.m, b.I );
  for( int k = 0; k < 2; ++k )
  {
    const SparseMatrixsc& M = k ? sim.M0() : sim.M(); const SparseMatrixsc& W = k ? sim.Minv0() : sim.Minv();
    vp_check( M.rows() == 3 * NB && M.cols() == 3 * NB && W.rows() == 3 * NB && W.cols() == 3 * NB, "mass matrix has one row per velocity" );
    for( int r = 0; r < 3 * NB; ++r ) for( int c = 0; c < 3 * NB; ++c ) { vp_check_eq( at( M, r, c ), r == c ? mm( r ) : 0.0, "mass matrix is the diagonal of masses and inertias" ); vp_check_eq( at( W, r, c ) * ( r == c ? mm( r ) : 1.0 ), r == c ? 1.0 : 0.0, "inverse mass matrix inverts the mass matrix" ); }
  }
  vp_check( sim.nqdofs() == 3 * NB && sim.nvdofs() == 3 * NB && sim.numBodies() == unsigned( NB ) && sim.ambientSpaceDimensions() == 2, "degrees of freedom are counted" );
  vp_cover( "end" );
}
static const double PI_ = 3.14159265358979323846;
VP_HARNESS(r2_inertia) // uniform density solids
{
  const double rho = vp_real( "rho", 0, 0.01, 100 ), a = vp_real( "a", 0, 0.01, 50 ), c = vp_real( "a", 1, 0.01, 50 ); double m, I;
  CircleGeometry{ a }.computeMassAndInertia( rho, m, I ); vp_check_eq( m, rho * PI_ * a * a, "disc mass" ); vp_check_eq( I, rho * PI_ * a * a * a * a / 2.0, "disc inertia" );
  BoxGeometry{ Vector2s{ a, c } }.computeMassAndInertia( rho, m, I ); vp_check_eq( m, 4 * rho * a * c, "box mass" ); vp_check_eq( I, 4 * rho * a * c * ( a * a + c * c ) / 3.0, "box inertia" );
  vp_cover( "end" );
}
VP_HARNESS(r2_gravity)
{
  const Vector2s g = sv2( "g", 0, -20, 20 ); RigidBody2DSim sim; const Bodies b = fill( sim.state(), NB, grav( g ) ); RigidBody2DState& s = sim.state();
  const VectorXs x = sv( "x", 3 * NB, -100, 100 ), junk = sv( "junk", 3 * NB, -5, 5 ); VectorXs F = junk; sim.computeForce( x, b.v, 0.0, F );
  for( int i = 0; i < NB; ++i ) { for( int d = 0; d < 2; ++d ) vp_check_eq( F( 3 * i + d ), b.m( i ) * g( d ), "gravity pulls every body with mass times acceleration" ); vp_check_eq( F( 3 * i + 2 ), 0.0, "gravity exerts no torque" ); }
  const double h = vp_real( "h", 0, -1, 1 ), U0 = s.forces()[0]->computePotential( x, s.M() );
  for( int k = 0; k < 3 * NB; ++k ) { VectorXs y = x; y( k ) += h; vp_check_eq( s.forces()[0]->computePotential( y, s.M() ) - U0, -F( k ) * h, "gravity is the negative slope of its potential" ); }
  VectorXs G = junk; s.forces()[0]->computeForce( x, b.v, s.M(), G ); eqv( G - junk, F, "a force adds to the vector it is given" );
  const auto c = s.forces()[0]->clone(); VectorXs H = VectorXs::Zero( 3 * NB ); c->computeForce( x, b.v, s.M(), H ); eqv( H, F, "a cloned force acts the same" );
  vp_cover( "end" );
}
static void script( AffineSystem& s ) { for( size_t i = 0; i < s.fixed.size(); ++i ) s.fixed[i] = vp_choose( "fixed", int( i ), 2 ); }
VP_HARNESS(r2_euler) { AffineSystem s( NB, 3 ); script( s ); SymplecticEulerMap m; eulerLaw( m, s, true ); }
VP_HARNESS(r2_verlet) { AffineSystem s( NB, 3 ); script( s ); VerletMap m; verletLaw( m, s, true ); }
VP_HARNESS(r2_verlet_rev) { AffineSystem s( 1, 3 ); VerletMap m; reverseLaw( m, s ); }
static void projectile( UnconstrainedMap& map, bool verlet )
{
  const Vector2s g = sv2( "g", 0, -20, 20 ); RigidBody2DSim sim; RigidBody2DState& s = sim.state(); const Bodies b = some( NB ); Geo geo; geo.emplace_back( new CircleGeometry{ 1.0 } ); std::vector<bool> fx( NB, false ); fx[NB - 1] = vp_choose( "fx", 0, 2 );
  install( s, b, grav( g ), fx, idxs( NB, 0 ), geo ); PythonScripting ps; const Rational<std::intmax_t> dt( 1, 128 ); const double h = 1.0 / 128; const double E0 = sim.computeTotalEnergy();
  sim.flow( ps, 1, dt, map );
  for( int i = 0; i < NB; ++i ) for( int d = 0; d < 3; ++d )
  {
    const int k = 3 * i + d; const double a = d < 2 && !fx[i] ? g( d ) : 0.0;
    vp_check_eq( s.v()( k ), b.v( k ) + h * a, "velocity gains the time step times gravity; scripted bodies and spins keep theirs" );
    vp_check_eq( s.q()( k ), b.q( k ) + h * b.v( k ) + ( verlet ? 0.5 : 1.0 ) * h * h * a, "position and angle follow the integrator" );
  }
  if( verlet && !fx[NB - 1] ) vp_check_eq( sim.computeTotalEnergy(), E0, "free flight conserves energy" );
  vp_cover( "end" );
}
VP_HARNESS(r2_flow_euler) { SymplecticEulerMap m; projectile( m, false ); }
VP_HARNESS(r2_flow_verlet) { VerletMap m; projectile( m, true ); }
VP_HARNESS(r2_linear)
{
  RigidBody2DSim sim; const Bodies b = fill( sim.state(), NB, Forces{} ); const double dt = vp_real( "dt", 0, 0.0001, 1 ); VectorXs q1( 3 * NB ); sim.linearInertialConfigurationUpdate( b.q, b.v, dt, q1 );
  for( int k = 0; k < 3 * NB; ++k ) vp_check_eq( q1( k ), b.q( k ) + dt * b.v( k ), "inertial update moves every coordinate with its velocity" );
  vp_cover( "end" );
}
// ---- bounding boxes
static double mn( double a, double b ) { return a < b ? a : b; }
static double mx( double a, double b ) { return a > b ? a : b; }
VP_HARNESS(r2_aabb_circle)
{
  const Vector2s x = sv2( "x", 0, -100, 100 ), y = sv2( "y", 0, -100, 100 ); const double r = vp_real( "r", 0, 0.01, 50 ), t0 = vp_real( "t", 0, -9, 9 ), t1 = vp_real( "t", 1, -9, 9 ); const CircleGeometry c{ r }; Array2s lo, hi;
  c.computeAABB( x, t0, lo, hi ); for( int d = 0; d < 2; ++d ) { vp_check_eq( lo( d ), x( d ) - r, "tight box around a disc" ); vp_check_eq( hi( d ), x( d ) + r, "tight box around a disc" ); }
  c.computeCollisionAABB( x, t0, y, t1, lo, hi ); for( int d = 0; d < 2; ++d ) { vp_check_eq( lo( d ), mn( x( d ), y( d ) ) - r, "tight box around a disc's motion" ); vp_check_eq( hi( d ), mx( x( d ), y( d ) ) + r, "tight box around a disc's motion" ); }
  vp_cover( "end" );
}
VP_HARNESS(r2_aabb_box)
{
  const Vector2s x = sv2( "x", 0, -100, 100 ), r{ vp_real( "r", 0, 0.01, 50 ), vp_real( "r", 1, 0.01, 50 ) }; const double t = vp_real( "t", 0, -9, 9 ), c = std::cos( t ), s = std::sin( t ); const BoxGeometry b{ r }; Array2s lo, hi;
  if( vp_choose( "swept", 0, 2 ) ) b.computeCollisionAABB( sv2( "y", 0, -100, 100 ), vp_real( "t", 1, -9, 9 ), x, t, lo, hi ); else b.computeAABB( x, t, lo, hi );
  bool hit[4] = { false, false, false, false };
  for( int i = -1; i < 2; i += 2 ) for( int j = -1; j < 2; j += 2 )
  {
    const double p[2] = { x( 0 ) + c * i * r( 0 ) - s * j * r( 1 ), x( 1 ) + s * i * r( 0 ) + c * j * r( 1 ) };
    for( int d = 0; d < 2; ++d ) { vp_check_le( lo( d ), p[d], "the box contains every corner" ); vp_check_le( p[d], hi( d ), "the box contains every corner" ); if( lo( d ) == p[d] ) hit[d] = true; if( hi( d ) == p[d] ) hit[2 + d] = true; }
  }
  vp_check( hit[0] && hit[1] && hit[2] && hit[3], "each side of the box is touched by a corner" );
  vp_cover( "end" );
}
VP_HARNESS(r2_bbox)
{
  RigidBody2DSim sim; Bodies b = some( 2 ); const double r = vp_real( "r", 0, 0.01, 50 ); const Vector2s h{ vp_real( "h", 0, 0.01, 50 ), vp_real( "h", 1, 0.01, 50 ) }; Geo g; g.emplace_back( new BoxGeometry{ h } ); g.emplace_back( new CircleGeometry{ r } ); b.q( 2 ) = 0.0;
  const bool sw = vp_choose( "sw", 0, 2 ); VectorXu gi( 2 ); gi << ( sw ? 1u : 0u ), ( sw ? 0u : 1u ); if( sw ) b.q( 5 ) = 0.0; install( sim.state(), b, Forces{}, { false, false }, gi, g ); const Array4s B = sim.state().computeBoundingBox();
  for( int d = 0; d < 2; ++d )
  {
    double lo[2], hi[2]; for( int i = 0; i < 2; ++i ) { const double e = ( i == 1 ) != sw ? r : h( d ); lo[i] = b.q( 3 * i + d ) - e; hi[i] = b.q( 3 * i + d ) + e; }
    vp_check_eq( B( d ), mn( lo[0], lo[1] ), "bounding box is the union of the bodies' boxes" ); vp_check_eq( B( 2 + d ), mx( hi[0], hi[1] ), "bounding box is the union of the bodies' boxes" );
  }
  vp_cover( "end" );
}
// ---- bodies come and go
VP_HARNESS(r2_add)
{
  RigidBody2DSim sim; RigidBody2DState& s = sim.state(); const int n = vp_choose( "n", 0, NB + 1 ); const Bodies b = some( n ? n : 1 ); const double rad = vp_real( "rad", 0, 0.1, 10 ); Geo g; g.emplace_back( new CircleGeometry{ 1.0 } ); g.emplace_back( new BoxGeometry{ Vector2s{ rad, 2.0 } } );
  const std::vector<bool> fx( n, true ); if( n ) install( s, b, Forces{}, fx, idxs( n, 1 ), g ); else s.geometry() = std::move( g );
  s.addCircleGeometry( rad ); vp_check( s.geometry().size() == 3 && s.geometry()[2]->type() == RigidBody2DGeometryType::CIRCLE, "the new geometry comes last" ); vp_check_eq( static_cast<CircleGeometry&>( *s.geometry()[2] ).r(), rad, "the new geometry has its radius" );
  const Vector2s x = sv2( "nx", 0, -100, 100 ), w = sv2( "nv", 0, -100, 100 ); const double th = vp_real( "nt", 0, -9, 9 ), om = vp_real( "no", 0, -9, 9 ), rho = vp_real( "nr", 0, 0.01, 50 ); const bool f = vp_bool( "nf", 0 ); const unsigned gi = vp_choose( "gi", 0, 2 ) ? 2 : 1;
  s.addBody( x, th, w, om, rho, gi, f ); double m, I; s.geometry()[gi]->computeMassAndInertia( rho, m, I );
  vp_check( int( s.nbodies() ) == n + 1 && s.q().size() == 3 * n + 3 && s.v().size() == 3 * n + 3 && s.geometryIndices().size() == n + 1 && s.M().rows() == 3 * n + 3 && s.Minv().cols() == 3 * n + 3, "the new body is counted everywhere" );
  const double q1[3] = { x( 0 ), x( 1 ), th }, v1[3] = { w( 0 ), w( 1 ), om }, m1[3] = { m, m, I }; const VectorXs mm = interleave( b.m, b.I );
  for( int k = 0; k < 3 * n + 3; ++k )
  {
    const bool nw = k >= 3 * n; vp_check_eq( s.q()( k ), nw ? q1[k - 3 * n] : b.q( k ), "positions kept and appended" ); vp_check_eq( s.v()( k ), nw ? v1[k - 3 * n] : b.v( k ), "velocities kept and appended" ); const double mk = nw ? m1[k - 3 * n] : mm( k );
    for( int j = 0; j < 3 * n + 3; ++j ) { vp_check_eq( at( s.M(), j, k ), j == k ? mk : 0.0, "masses kept and appended" ); vp_check_eq( at( s.Minv(), j, k ) * ( j == k ? mk : 1.0 ), j == k ? 1.0 : 0.0, "inverse masses kept and appended" ); }
  }
  for( int i = 0; i < n; ++i ) vp_check( s.fixed( i ) && s.geometryIndex( i ) == 1, "flags and shapes of the others kept" );
  vp_check( s.fixed( n ) == f && s.geometryIndex( n ) == gi, "flag and shape of the new body" );
  vp_cover( "end" );
}
VP_HARNESS(r2_remove)
{
  RigidBody2DSim sim; RigidBody2DState& s = sim.state(); const int n = NB + 2; const Bodies b = some( n ); const VectorXs mm = interleave( b.m, b.I ); Geo g; for( int i = 0; i < n; ++i ) g.emplace_back( new CircleGeometry{ 1.0 + i } );
  std::vector<bool> fx( n ); VectorXu gi( n ); for( int i = 0; i < n; ++i ) { fx[i] = vp_bool( "fx", i ); gi( i ) = unsigned( n - 1 - i ); } install( s, b, Forces{}, fx, gi, g );
  std::vector<int> gone, kept; for( int i = 0; i < n; ++i ) ( vp_choose( "rm", i, 2 ) ? gone : kept ).push_back( i );
  VectorXu rm( int( gone.size() ) ); const bool rev = vp_choose( "rev", 0, 2 ); for( size_t i = 0; i < gone.size(); ++i ) rm( int( i ) ) = unsigned( rev ? gone[gone.size() - 1 - i] : gone[i] );
  s.removeBodies( rm ); const int k = int( kept.size() );
  vp_check( int( s.nbodies() ) == k && s.v().size() == 3 * k && s.geometryIndices().size() == k && s.M().rows() == 3 * k && s.Minv().rows() == 3 * k && s.M().cols() == 3 * k && s.m_fixed.size() == size_t( k ), "only the named bodies are removed" );
  for( int i = 0; i < k; ++i )
  {
    const int o = kept[i]; vp_check( s.fixed( i ) == fx[o] && s.geometryIndex( i ) == gi( o ), "the remaining bodies keep their flags and shapes, in order" );
    for( int d = 0; d < 3; ++d ) { vp_check_eq( s.q()( 3 * i + d ), b.q( 3 * o + d ), "remaining positions" ); vp_check_eq( s.v()( 3 * i + d ), b.v( 3 * o + d ), "remaining velocities" ); for( int c = 0; c < 3 * k; ++c ) { vp_check_eq( at( s.M(), c, 3 * i + d ), c == 3 * i + d ? mm( 3 * o + d ) : 0.0, "remaining masses" ); vp_check_eq( at( s.Minv(), c, 3 * i + d ) * ( c == 3 * i + d ? mm( 3 * o + d ) : 1.0 ), c == 3 * i + d ? 1.0 : 0.0, "remaining inverse masses" ); } }
  }
  vp_cover( "end" );
}
VP_HARNESS(r2_removegeo)
{
  RigidBody2DSim sim; RigidBody2DState& s = sim.state(); const int n = 4; const VectorXs rad = sv( "rad", n, 0.1, 9 ); Geo g; for( int i = 0; i < n; ++i ) g.emplace_back( new CircleGeometry{ rad( i ) } );
  std::vector<int> gone, kept; for( int i = 0; i < n; ++i ) ( vp_choose( "rm", i, 2 ) ? gone : kept ).push_back( i );
  vp_assume( !kept.empty() ); const Bodies b = some( 2 ); VectorXu gi( 2 ); gi << unsigned( kept.back() ), unsigned( kept.front() ); install( s, b, Forces{}, { false, false }, gi, g );
  VectorXu rm( int( gone.size() ) ); const bool rev = vp_choose( "rev", 0, 2 ); for( size_t i = 0; i < gone.size(); ++i ) rm( int( i ) ) = unsigned( rev ? gone[gone.size() - 1 - i] : gone[i] );
  s.removeGeometry( rm ); vp_check( s.geometry().size() == kept.size(), "only the named shapes are removed" );
  for( size_t i = 0; i < kept.size(); ++i ) vp_check_eq( static_cast<CircleGeometry&>( *s.geometry()[i] ).r(), rad( kept[i] ), "the remaining shapes keep their order" );
  for( int i = 0; i < 2; ++i ) vp_check_eq( static_cast<CircleGeometry&>( *s.bodyGeometry( i ) ).r(), rad( int( gi( i ) ) ), "every body still has its own shape" );
  vp_cover( "end" );
}
// ---- checkpoint
static void planeSame( const RigidBody2DStaticPlane& a, const RigidBody2DStaticPlane& b ) { samev( a.x(), b.x(), "plane position restored" ); samev( a.v(), b.v(), "plane velocity restored" ); samev( a.n(), b.n(), "plane normal restored" ); samev( a.t(), b.t(), "plane tangent restored" ); vp_check_same( a.omega(), b.omega(), "plane spin restored" ); }
static void full( RigidBody2DState& s, const Bodies& b )
{
  Geo g; g.emplace_back( new BoxGeometry{ Vector2s{ vp_real( "h", 0, 0.1, 9 ), vp_real( "h", 1, 0.1, 9 ) } } ); g.emplace_back( new CircleGeometry{ vp_real( "r", 0, 0.1, 9 ) } ); VectorXu gi( 2 ); gi << 1u, 0u;
  Forces f = grav( sv2( "g", 0, -9, 9 ) ); f.emplace_back( new NearEarthGravityForce{ sv2( "g", 1, -9, 9 ) } );
  install( s, b, f, { vp_bool( "fx", 0 ), vp_bool( "fx", 1 ) }, gi, g );
  s.planes().emplace_back( sv2( "px", 0, -9, 9 ), Vector2s{ 0.0, 1.0 } ); s.planes().back().setV( sv2( "pv", 0, -9, 9 ) ); s.planes().back().setOmega( vp_real( "po", 0, -9, 9 ) ); s.planes().emplace_back( sv2( "px", 1, -9, 9 ), Vector2s{ 1.0, 0.0 } );
  s.planarPortals().emplace_back( RigidBody2DStaticPlane{ sv2( "px", 2, -9, 9 ), Vector2s{ 0.0, 1.0 } }, RigidBody2DStaticPlane{ sv2( "px", 3, -9, 9 ), Vector2s{ 0.0, -1.0 } }, vp_real( "lev", 0, -3, 3 ), 4.0 ); s.planarPortals().back().updateMovingPortals( 1.0 );
}
static void stateSame( RigidBody2DState& t, RigidBody2DState& s )
{
  vp_check( t.nbodies() == 2 && t.fixed( 0 ) == s.fixed( 0 ) && t.fixed( 1 ) == s.fixed( 1 ) && t.geometryIndices().size() == 2 && t.geometryIndex( 0 ) == s.geometryIndex( 0 ) && t.geometryIndex( 1 ) == s.geometryIndex( 1 ), "scripting flags and shapes restored" );
  samev( t.q(), s.q(), "positions restored" ); samev( t.v(), s.v(), "velocities restored" ); sameSparse( t.M(), s.M(), "masses restored" ); sameSparse( t.Minv(), s.Minv(), "inverse masses restored" );
  vp_check( t.geometry().size() == 2 && t.geometry()[0]->type() == RigidBody2DGeometryType::BOX && t.geometry()[1]->type() == RigidBody2DGeometryType::CIRCLE && t.planes().size() == 2 && t.planarPortals().size() == 1 && t.forces().size() == 2, "shapes, boundaries and forces restored" );
  samev( static_cast<BoxGeometry&>( *t.geometry()[0] ).r(), static_cast<BoxGeometry&>( *s.geometry()[0] ).r(), "box restored" ); vp_check_same( static_cast<CircleGeometry&>( *t.geometry()[1] ).r(), static_cast<CircleGeometry&>( *s.geometry()[1] ).r(), "circle restored" );
  for( int i = 0; i < 2; ++i ) planeSame( t.planes()[i], s.planes()[i] );
  const PlanarPortal &p = t.planarPortals()[0], &p0 = s.planarPortals()[0]; planeSame( p.planeA(), p0.planeA() ); planeSame( p.planeB(), p0.planeB() ); vp_check_same( p.bounds(), p0.bounds(), "portal bounds restored" ); vp_check_same( p.v(), p0.v(), "portal speed restored" ); vp_check_same( p.delta(), p0.delta(), "portal offset restored" );
  for( int i = 0; i < 2; ++i ) { VectorXs F0 = VectorXs::Zero( 6 ), F1 = VectorXs::Zero( 6 ); s.forces()[i]->computeForce( s.q(), s.v(), s.M(), F0 ); t.forces()[i]->computeForce( s.q(), s.v(), s.M(), F1 ); eqv( F1, F0, "forces restored" ); }
}
static Set someContacts( const RigidBody2DState& s )
{
  Set K; const VectorXs q = VectorXs::Zero( 9 );
  K.emplace_back( new CircleCircleConstraint{ 0, 1, Vector2s{ 0.0, 1.0 }, Vector2s{ 0.0, 0.0 }, 1.0, 1.0 } ); K.emplace_back( new BodyBodyConstraint{ 0, 1, Vector2s{ 1.0, 0.0 }, Vector2s{ 0.0, 1.0 }, q } ); K.emplace_back( new KinematicObjectCircleConstraint{ 0, 1.0, Vector2s{ 0.0, 1.0 }, 1, Vector2s{ 0.0, 0.0 }, Vector2s{ 0.0, 0.0 }, 0.0 } );
  K.emplace_back( new StaticPlaneCircleConstraint{ 1, 0, 1.0, s.planes()[0] } ); K.emplace_back( new StaticPlaneCircleConstraint{ 0, 1, 1.0, s.planes()[1] } ); K.emplace_back( new CircleCircleConstraint{ 1, 2, Vector2s{ 0.0, 1.0 }, Vector2s{ 0.0, 0.0 }, 1.0, 1.0 } );
  K.emplace_back( new KinematicObjectCircleConstraint{ 2, 1.0, Vector2s{ 0.0, 1.0 }, 1, Vector2s{ 0.0, 0.0 }, Vector2s{ 0.0, 0.0 }, 0.0 } ); K.emplace_back( new BodyBodyConstraint{ 0, 2, Vector2s{ 1.0, 0.0 }, Vector2s{ 0.0, 1.0 }, q } );
  return K;
}
VP_HARNESS(r2_checkpoint)
{
  RigidBody2DSim sim; RigidBody2DState& s = sim.state(); const Bodies b = some( 2 ); full( s, b ); const Set K = someContacts( s ); std::vector<VectorXs> c; for( int i = 0; i < 4; ++i ) { c.emplace_back( sv( ( "c" + std::to_string( i ) ).c_str(), 2, -9, 9 ) ); sim.cacheConstraint( *K[i], c[i] ); }
  Tape io; sim.serialize( io ); io.write( "Z", 1 );
  RigidBody2DSim o; { Geo g; g.emplace_back( new CircleGeometry{ 5.0 } ); Bodies d = some( 1 ); install( o.state(), d, grav( Vector2s{ 1.0, 1.0 } ), { false }, idxs( 1, 0 ), g ); } for( int i = 0; i < 6; ++i ) o.cacheConstraint( *K[i], c[( i + 1 ) % 4] );
  o.deserialize( io ); char z = 0; io.read( &z, 1 ); vp_check( z == 'Z', "restoring consumes exactly the checkpoint" ); stateSame( o.state(), s );
  VectorXs r( 2 ); for( int i = 0; i < 6; ++i ) { o.getCachedConstraintImpulse( *K[i], r ); if( i < 4 ) samev( r, c[i], "cached impulses restored" ); else eqv( r, VectorXs::Zero( 2 ), "no other impulses are cached after restoring" ); }
  vp_cover( "end" );
}
VP_HARNESS(r2_copy)
{
  RigidBody2DSim sim; RigidBody2DState& s = sim.state(); const Bodies b = some( 2 ); full( s, b ); RigidBody2DSim ref = sim; RigidBody2DState t; t = s; RigidBody2DState u( s );
  stateSame( t, ref.state() ); stateSame( u, ref.state() ); s.q().setZero(); s.v().setZero(); s.geometry().clear(); s.planes().clear(); s.planarPortals().clear(); stateSame( t, ref.state() ); samev( t.q(), b.q, "a copy does not share storage" );
  vp_cover( "end" );
}
VP_HARNESS(r2_mapio)
{
  std::unique_ptr<UnconstrainedMap> m; const int k = vp_choose( "k", 0, 3 ); if( k == 0 ) m.reset( new VerletMap ); else if( k == 1 ) m.reset( new SymplecticEulerMap );
  Tape io; RigidBody2DUtilities::serialize( m, io ); io.write( "Z", 1 ); const auto r = RigidBody2DUtilities::deserializeUnconstrainedMap( io ); char z = 0; io.read( &z, 1 ); vp_check( z == 'Z', "restoring consumes exactly the checkpoint" );
  vp_check( ( r == nullptr ) == ( m == nullptr ) && ( !m || m->name() == r->name() ), "the integrator is restored" );
  vp_cover( "end" );
}
VP_HARNESS(r2_cache) { RigidBody2DSim sim; const Bodies b = some( 2 ); full( sim.state(), b ); cacheLaw( sim, someContacts( sim.state() ), 2 ); }
VP_HARNESS(r2_bases)
{
  RigidBody2DSim sim; const Bodies b = fill( sim.state(), 3, Forces{} ); RigidBody2DState& s = sim.state(); s.planes().emplace_back( Vector2s{ 0.0, 0.0 }, su2( "pn", 0 ) ); s.planes().emplace_back( Vector2s{ 0.0, 0.0 }, Vector2s{ 1.0, 0.0 } ); Set K = someContacts( s ); K.resize( 5 ); basesLaw( sim, b.q, b.v, K, 2 );
}
// ---- portals
#define PLANE RigidBody2DStaticPlane
#include "portal2d.h"
#include "steps.h"
VP_HARNESS(r2_portal_static) { portalStatic(); }
VP_HARNESS(r2_portal_plain) { portalTeleport( false ); }
VP_HARNESS(r2_portal_wrap) { portalTeleport( true ); }
VP_HARNESS(r2_portal_motion) { portalMotion(); }
VP_HARNESS(r2_portal_inside) { portalInside(); }
VP_HARNESS(r2_portal_touch)
{
  const Portal2 p = somePortal( true ); const PlanarPortal P = mk( p ); const Vector2s x = sv2( "x", 0, -20, 20 ), e{ vp_real( "e", 0, 0.01, 5 ), vp_real( "e", 1, 0.01, 5 ) }; const Array2s lo = x.array() - e.array(), hi = x.array() + e.array();
  auto reach = [&]( const Vector2s& o, const Vector2s& n ) { return dot2( x - o, n ) <= ( n( 0 ) < 0 ? -n( 0 ) : n( 0 ) ) * e( 0 ) + ( n( 1 ) < 0 ? -n( 1 ) : n( 1 ) ) * e( 1 ); };
  const bool ta = reach( p.xa, p.na ), tb = reach( p.xb, p.nb ); vp_assume( !( ta && tb ) ); bool idx = vp_bool( "i", 0 ); const bool t = P.aabbTouchesPortal( lo, hi, idx );
  vp_check( t == ( ta || tb ), "a box touches the portal when it reaches either plane" ); if( !t ) { vp_cover( "apart" ); return; }
  vp_check( idx == tb, "the touched plane is named" );
  vp_assume( dot2( p.xa - x, perp( p.na ) ) <= 2 * p.b && dot2( p.xa - x, perp( p.na ) ) >= -2 * p.b && dot2( p.xb - x, perp( p.nb ) ) <= 2 * p.b && dot2( p.xb - x, perp( p.nb ) ) >= -2 * p.b );
  Vector2s y, z; P.teleportPoint( x, idx, y ); if( tb ) P.teleportPointThroughPlaneB( x, z ); else P.teleportPointThroughPlaneA( x, z ); eqv( y, z, "a body's image is its centre sent through the touched plane" );
  eqv( P.getKinematicVelocityOfAABB( lo, hi ), Vector2s( tb ? -p.v * perp( p.nb ) : -p.v * perp( p.na ) ), "a body's image moves with the portal's speed along the touched plane" ); vp_cover( "touch" );
}
static void portalStep( bool moving, int kind = 0 )
{
  const int nb = kind == 1 ? 1 : 2;
  RigidBody2DSim sim; RigidBody2DState& s = sim.state(); fill( s, nb, Forces{} ); const double W = kind == 1 ? 6.0 : vp_real( "W", 0, 4, 10 ), b = 8.0, v = moving ? vp_real( "lev", 0, -20, 20 ) : 0.0; const bool hor = vp_choose( "hor", 0, 2 );
  if( moving ) vp_assume( v != 0.0 );
  const Vector2s n = hor ? Vector2s{ 1.0, 0.0 } : Vector2s{ 0.0, 1.0 }; s.planarPortals().emplace_back( RigidBody2DStaticPlane{ -W * n, n }, RigidBody2DStaticPlane{ W * n, -n }, v, moving ? b : 0.0 );
  GivenMap m; m.q = sv( "e", 3 * nb, -7.5, 7.5 ); m.v = sv( "ev", 3 * nb, -50, 50 ); for( int i = 0; i < nb; ++i ) m.q( 3 * i + ( hor ? 0 : 1 ) ) *= 1.5; if( kind == 1 ) { m.q( hor ? 1 : 0 ) = 0.25; m.q( 2 ) = 0.0; s.q().setZero(); }
  const Rational<std::intmax_t> dt( 1, 8 ); takeStep( sim, kind, 3, dt, m ); vp_check( m.it == 3, "the integrator is told the step number" ); vp_check_eq( m.dt, 0.125, "the integrator is told the step size" );
  const double dx = v * 0.375;
  for( int i = 0; i < nb; ++i )
  {
    const int N = hor ? 0 : 1, T = 1 - N; const double x = m.q( 3 * i + N ), y = m.q( 3 * i + T ), sg = x < -W ? 1.0 : x > W ? -1.0 : 0.0, tsgn = hor ? 1.0 : -1.0;
    vp_check_eq( s.q()( 3 * i + N ), x + 2 * W * sg, "a body that left re-enters at the opposite side, others keep their position" );
    if( sg == 0.0 || !moving ) vp_check_eq( s.q()( 3 * i + T ), y, "no lateral shift without a moving portal" );
    else wrapped( s.q()( 3 * i + T ), y - sg * tsgn * dx, b, "lateral shift follows the portal's displacement, wrapped into the period" );
    vp_check_eq( s.v()( 3 * i + N ), m.v( 3 * i + N ), "normal velocity unchanged" ); vp_check_eq( s.v()( 3 * i + T ), m.v( 3 * i + T ) - sg * tsgn * v, "crossing a moving portal adds its speed" );
    vp_check_eq( s.q()( 3 * i + 2 ), m.q( 3 * i + 2 ), "angles are unaffected by portals" ); vp_check_eq( s.v()( 3 * i + 2 ), m.v( 3 * i + 2 ), "spins are unaffected by portals" );
  }
  vp_cover( "end" );
}
VP_HARNESS(r2_portal_stepimpact) { portalStep( true, 1 ); }
VP_HARNESS(r2_portal_stepfriction) { portalStep( true, 2 ); }
VP_HARNESS(r2_portal_step) { portalStep( false ); }
VP_HARNESS(r2_portal_stepmoving) { portalStep( true ); }
// ---- which contacts are found
static VectorXs pose( std::initializer_list<double> l ) { VectorXs q( int( l.size() ) ); int k = 0; for( double d : l ) q( k++ ) = d; return q; }
static void circles( RigidBody2DSim& sim, const VectorXs& q, const VectorXs& v, std::initializer_list<double> r, const std::vector<bool>& fx )
{
  const int n = int( r.size() ); Geo g; for( double d : r ) g.emplace_back( new CircleGeometry{ d } ); VectorXu gi( n ); for( int i = 0; i < n; ++i ) gi( i ) = unsigned( i );
  install( sim.state(), Bodies{ n, q, v, VectorXs::Ones( n ), VectorXs::Ones( n ) }, Forces{}, fx, gi, g );
}
VP_HARNESS(r2_active_swept) // two circles moving along a line
{
  RigidBody2DSim sim; const double a0 =
#ifdef VP_THOROUGH
    vp_real( "a", 0, -XR, XR ),
#else
    vp_choose( "a0", 0, 2 ) ? 1.5 : -1.25,
#endif
    a1 = vp_real( "a", 1, -XR, XR ), b0 = 0.25, b1 = vp_real( "b", 1, -XR, XR ), R0 = 0.75, R1 = 0.5;
  const int kin = vp_choose( "kin", 0, 3 ), ax = kin ? kin - 1 : vp_choose( "ax", 0, 2 ); VectorXs q0 = VectorXs::Zero( 6 ), q1 = VectorXs::Zero( 6 ); q0( ax ) = a0; q0( 3 + ax ) = b0; q1( ax ) = a1; q1( 3 + ax ) = b1;
  vp_assume( a0 != b0 ); circles( sim, q0, VectorXs::Zero( 6 ), { R0, R1 }, { kin == 1, kin == 2 } ); Set A; const VectorXs v = sv( "v", 6, -9, 9 ); sim.computeActiveSet( q0, q1, v, A );
  const double d0 = a0 - b0, d1 = a1 - b1, R = R0 + R1; const bool hit = mn( d0, d1 ) <= R && mx( d0, d1 ) >= -R;
  vp_check( int( A.size() ) == ( hit ? 1 : 0 ), "two circles are in contact exactly when they touch at some time of the step" );
  if( !hit ) { vp_cover( "miss" ); return; }
  const int first = kin == 1 ? 1 : 0; vp_check( A[0]->body0() == first && A[0]->body1() == 1 - first && A[0]->simulatedBody1() == ( kin ? -1 : 1 ), "the contact names both bodies; a scripted one comes second and is not simulated" );
  VectorXs n; A[0]->getWorldSpaceContactNormal( q0, n ); const double sg = ( d0 > 0 ? 1.0 : -1.0 ) * ( first ? -1.0 : 1.0 ); vp_check_eq( n( ax ), sg, "the normal points from the second body to the first at the start of the step" ); vp_check_eq( n( 1 - ax ), 0.0, "the normal lies on the centre line" );
  // relative velocity: both bodies move rigidly
  const VectorXs rel = A[0]->computeRelativeVelocity( q0, v ); const double p = kin == 0 ? a0 + ( R0 / R ) * ( b0 - a0 ) : first ? b0 - sg * R1 : a0 - sg * R0; double w[2][2];
  for( int k = 0; k < 2; ++k ) { const double arm = p - ( k ? b0 : a0 ); w[k][ax] = v( 3 * k + ax ); w[k][1 - ax] = v( 3 * k + 1 - ax ) + ( ax ? -1.0 : 1.0 ) * v( 3 * k + 2 ) * arm; }
  if( kin == 0 ) { const double a = -sg * R0, bb = sg * R1; w[0][1 - ax] = v( 1 - ax ) + ( ax ? -1.0 : 1.0 ) * v( 2 ) * a; w[1][1 - ax] = v( 4 - ax ) + ( ax ? -1.0 : 1.0 ) * v( 5 ) * bb; }
  for( int d = 0; d < 2; ++d ) { if( kin == 0 && d != ax ) continue; vp_check_eq( rel( d ), w[first][d] - w[1 - first][d], "relative velocity of the touching points" ); }
  vp_cover( kin ? "scripted" : "hit" );
}
VP_HARNESS(r2_active_rest) // resting circles anywhere in the plane
{
  RigidBody2DSim sim; const VectorXs q = pose( { 0, 0, 0.5, vp_real( "x", 0, -XR, XR ), vp_real( "x", 1, -XR, XR ), 0.25 } ); const int kin = vp_choose( "kin", 0, 2 ); circles( sim, q, VectorXs::Zero( 6 ), { 1.0, 0.5 }, { kin == 1, kin == 1 } );
  const double d2 = q( 3 ) * q( 3 ) + q( 4 ) * q( 4 ); vp_assume( d2 > 0.01 ); Set A; sim.computeActiveSet( q, q, VectorXs::Zero( 6 ), A );
  vp_check( int( A.size() ) == ( d2 <= 2.25 && kin == 0 ? 1 : 0 ), "resting circles are in contact exactly when they touch or overlap; two scripted ones never" );
  if( A.empty() ) { vp_cover( "miss" ); return; }
  vp_check( A[0]->body0() == 0 && A[0]->body1() == 1, "the contact names both bodies" ); VectorXs n; A[0]->getWorldSpaceContactNormal( q, n ); vp_check_eq( n( 0 ) * q( 4 ), n( 1 ) * q( 3 ), "the normal lies on the centre line" ); vp_check_le( n( 0 ) * q( 3 ) + n( 1 ) * q( 4 ), 0.0, "the normal points to the first body" );
  std::vector<Vector2s> P, N; sim.computeContactPoints( P, N ); vp_check( P.size() == 1 && N.size() == 1, "one contact point is reported" ); eqv( N[0], n, "the reported normal is the contact's" ); vp_check_eq( P[0]( 0 ), q( 3 ) * 2.0 / 3.0, "the reported point divides the centre line by the radii" ); vp_check_eq( P[0]( 1 ), q( 4 ) * 2.0 / 3.0, "the reported point divides the centre line by the radii" );
  vp_cover( "hit" );
}
static void shapes( RigidBody2DSim& sim, const VectorXs& q, RigidBody2DGeometry* a, RigidBody2DGeometry* b, const std::vector<bool>& fx )
{
  Geo g; g.emplace_back( a ); g.emplace_back( b ); VectorXu gi( 2 ); gi << 0u, 1u; install( sim.state(), Bodies{ 2, q, VectorXs::Zero( 6 ), VectorXs::Ones( 2 ), VectorXs::Ones( 2 ) }, Forces{}, fx, gi, g );
}
// velocity of the point p of body b, which moves rigidly about its centre at q
static double pointVel( const VectorXs& q, const VectorXs& v, const int b, const Vector2s& p, const int d ) { return v( 3 * b + d ) + ( d ? 1.0 : -1.0 ) * v( 3 * b + 2 ) * ( p( 1 - d ) - q( 3 * b + 1 - d ) ); }
VP_HARNESS(r2_active_boxcircle) // a disc beside or over a box, in either order
{
  RigidBody2DSim sim; const int o = vp_choose( "order", 0, 2 ), kin = vp_choose( "kin", 0, 2 ); const double x = vp_real( "x", 0, -XR, XR ), y = 0.25, R = 0.375, hx = 1.0, hy = 0.5; const int C = o, B = 1 - o;
  VectorXs q1 = VectorXs::Zero( 6 ), q0; q1( 3 * C ) = x; q1( 3 * C + 1 ) = y; q0 = q1; q0( 3 * C ) -= 0.0625; q0( 3 * C + 1 ) += 0.03125; q0( 3 * B ) += 0.015625; RigidBody2DGeometry *c = new CircleGeometry{ R }, *b = new BoxGeometry{ Vector2s{ hx, hy } };
  std::vector<bool> fx{ false, false }; fx[B] = kin == 1; shapes( sim, q0, o ? b : c, o ? c : b, fx ); Set A; const VectorXs v = sv( "v", 6, -9, 9 ); sim.computeActiveSet( q0, q1, v, A );
  const bool hit = x <= hx + R && x >= -hx - R; vp_check( int( A.size() ) == ( hit ? 1 : 0 ), "a disc and a box are in contact exactly when they touch at the end of the step" ); if( !hit ) { vp_cover( "miss" ); return; }
  const int first = kin ? C : 0; vp_check( A[0]->body0() == first && A[0]->body1() == 1 - first && A[0]->simulatedBody1() == ( kin ? -1 : 1 ), "the contact names both bodies; a scripted one comes second and is not simulated" );
  VectorXs n; A[0]->getWorldSpaceContactNormal( q0, n ); const double to = first == C ? 1.0 : -1.0; vp_check_eq( n( 0 ) * n( 0 ) + n( 1 ) * n( 1 ), 1.0, "the normal has unit length" );
  const Vector2s nb{ to * n( 0 ), to * n( 1 ) }; vp_check_le( 0.0, nb( 0 ) * x + nb( 1 ) * y, "the normal points from the second body to the first" ); if( x > hx || x < -hx ) vp_check_eq( nb( 0 ), x > 0 ? 1.0 : -1.0, "the normal is that of the face touched" );
  const double depth = nb( 0 ) * x + nb( 1 ) * y - ( nb( 0 ) == 0.0 ? hy : hx ) - R; Vector2s p{ x - nb( 0 ) * ( R + 0.5 * depth ), y - nb( 1 ) * ( R + 0.5 * depth ) }; if( kin ) p = Vector2s{ q0( 3 * C ) - R * nb( 0 ), q0( 3 * C + 1 ) - R * nb( 1 ) };
  const VectorXs rel = A[0]->computeRelativeVelocity( q0, v ); for( int d = 0; d < 2; ++d ) vp_check_eq( rel( d ), pointVel( q0, v, first, p, d ) - pointVel( q0, v, 1 - first, p, d ), "relative velocity of the touching points, levers as at the start of the step" );
  vp_cover( kin ? "scripted" : "hit" );
}
VP_HARNESS(r2_active_boxes) // two boxes, the second passing over or beside the first
{
  RigidBody2DSim sim; const double x = vp_real( "x", 0, -XR, XR ), y = 0.25; VectorXs q1 = VectorXs::Zero( 6 ), q0; q1( 3 ) = x; q1( 4 ) = y; q0 = q1; q0( 3 ) -= 0.0625; q0( 4 ) += 0.03125; q0( 0 ) += 0.015625;
  const Vector2s ra{ 1.0, 0.75 }, rb{ 0.5, 0.8125 }; shapes( sim, q0, new BoxGeometry{ ra }, new BoxGeometry{ rb }, { false, false } ); Set A; const VectorXs v = sv( "v", 6, -9, 9 ); sim.computeActiveSet( q0, q1, v, A );
  const bool hit = x <= 1.5 && x >= -1.5; vp_check( A.empty() == !hit, "two boxes are in contact exactly when they touch at the end of the step" ); if( !hit ) { vp_cover( "miss" ); return; }
  vp_check( A.size() <= 2, "at most two contacts" ); const double ax = x < 0 ? -x : x, dx = 1.5 - ax, dy = 1.5625 - y; vp_assume( dx != dy ); const bool side = dx < dy; double pt[2];
  for( unsigned k = 0; k < A.size(); ++k )
  {
    vp_check( A[k]->body0() == 0 && A[k]->body1() == 1 && A[k]->simulatedBody1() == 1, "the contact names both bodies" ); VectorXs n; A[k]->getWorldSpaceContactNormal( q0, n );
    vp_check_eq( n( 0 ), side ? ( x > 0 ? -1.0 : 1.0 ) : 0.0, "the normal points from the second box to the first across the least overlap" ); vp_check_eq( n( 1 ), side ? 0.0 : -1.0, "the normal points from the second box to the first across the least overlap" );
    // the contact point is where the relative velocity of both bodies' points agrees: recover it along the face from the response to spin
    VectorXs w = VectorXs::Zero( 6 ); w( 2 ) = 1.0; const VectorXs r = A[k]->computeRelativeVelocity( q0, w ); const Vector2s p{ q0( 0 ) + r( 1 ), q0( 1 ) - r( 0 ) }; pt[k] = side ? p( 1 ) : p( 0 );
    vp_check_eq( side ? p( 0 ) : p( 1 ), side ? ( x > 0 ? 1.0 - 0.5 * dx : -1.0 + 0.5 * dx ) : 0.75 - 0.5 * dy, "the contact lies halfway through the overlap" );
    const VectorXs rel = A[k]->computeRelativeVelocity( q0, v ); for( int d = 0; d < 2; ++d ) vp_check_eq( rel( d ), pointVel( q0, v, 0, p, d ) - pointVel( q0, v, 1, p, d ), "relative velocity of the touching points, levers as at the start of the step" );
  }
  if( side ) { vp_check( A.size() == 2, "faces that meet along an edge have two contacts" ); vp_check_eq( mn( pt[0], pt[1] ), -0.5625, "contacts are the ends of the common edge" ); vp_check_eq( mx( pt[0], pt[1] ), 0.75, "contacts are the ends of the common edge" ); }
  vp_cover( "hit" );
}
VP_HARNESS(r2_active_three)
{
  RigidBody2DSim sim; const VectorXs q = pose( {
#ifdef VP_THOROUGH
    vp_real( "x", 0, -0.4 * XR, 0.4 * XR ),
#else
    -0.25,
#endif
    0, 0, vp_real( "x", 1, -0.5 * XR, 0.5 * XR ), 0.125, 0, vp_real( "x", 2, -0.5 * XR, 0.5 * XR ), 0.25, 0 } ); const int kin = vp_choose( "kin", 0, 2 ); circles( sim, q, VectorXs::Zero( 9 ), { 0.5, 0.4, 0.7 }, { kin == 1, false, false } );
  Set A; sim.computeActiveSet( q, q, VectorXs::Zero( 9 ), A ); const double r[3] = { 0.5, 0.4, 0.7 }; int tot = 0;
  for( int i = 0; i < 3; ++i ) for( int j = i + 1; j < 3; ++j )
  {
    const double dx = q( 3 * i ) - q( 3 * j ), dy = q( 3 * i + 1 ) - q( 3 * j + 1 ); const int w = dx * dx + dy * dy <= ( r[i] + r[j] ) * ( r[i] + r[j] ) ? 1 : 0; tot += w; int got = 0; const bool sw = kin == 1 && i == 0;
    for( const auto& k : A ) if( k->body0() == ( sw ? j : i ) && k->body1() == ( sw ? i : j ) ) ++got;
    vp_check( got == w, "each touching pair is listed exactly once" );
  }
  vp_check( int( A.size() ) == tot, "nothing else is listed" ); vp_cover( "end" );
}
VP_HARNESS(r2_active_plane) // a circle and a box with two planes, discrete test at the end of the step
{
  RigidBody2DSim sim; VectorXs q0 = sv( "q", 6, -9, 9 ), q1 = sv( "p", 6, -9, 9 ); const bool box = vp_choose( "box", 0, 2 ); const double r = vp_real( "r", 0, 0.1, 2 ); const Vector2s h{ r, vp_real( "h", 0, 0.1, 2 ) };
  for( int d = 0; d < 2; ++d ) { q0( 3 + d ) = 200.0; q1( 3 + d ) = 200.0; } // the other body is far away
  const bool fx = vp_choose( "fx", 0, 2 ); Geo g; g.emplace_back( new CircleGeometry{ r } ); g.emplace_back( new BoxGeometry{ h } ); VectorXu gi( 2 ); gi << ( box ? 1u : 0u ), 0u; install( sim.state(), Bodies{ 2, q0, VectorXs::Zero( 6 ), VectorXs::Ones( 2 ), VectorXs::Ones( 2 ) }, Forces{}, { fx, false }, gi, g );
  RigidBody2DState& s = sim.state(); const Vector2s n0 = su2( "n", 0 ), x0 = sv2( "px", 0, -9, 9 ), x1 = sv2( "px", 1, -9, 9 ); s.planes().emplace_back( x0, n0 ); s.planes().emplace_back( x1, Vector2s{ 1.0, 0.0 } ); vp_assume( n0( 0 ) >= 0.0 && n0( 1 ) >= 0.0 );
  Set A; sim.computeBodyPlaneActiveSetAllPairs( q0, q1, A ); int want[2] = { 0, 0 }, got[2] = { 0, 0 }; bool seen[2][4] = {};
  const double t = q1( 2 ), c = std::cos( t ), sn = std::sin( t );
  for( int k = 0; k < 2; ++k )
  {
    const Vector2s n = k ? Vector2s{ 1.0, 0.0 } : n0, x = k ? x1 : x0;
    if( fx ) continue;
    if( !box ) want[k] = dot2( Vector2s{ q1( 0 ), q1( 1 ) } - x, n ) <= r ? 1 : 0;
    else for( int i = -1; i < 2; i += 2 ) for( int j = -1; j < 2; j += 2 ) if( dot2( Vector2s{ q1( 0 ) + c * i * h( 0 ) - sn * j * h( 1 ), q1( 1 ) + sn * i * h( 0 ) + c * j * h( 1 ) } - x, n ) <= 0.0 ) ++want[k];
  }
  for( const auto& k : A )
  {
    vp_check( k->body0() == 0 && k->body1() == -1, "boundary contacts name the body and no partner" ); const unsigned gi0 = k->getStaticObjectIndex(); vp_check( gi0 < 2, "the boundary is identified" ); ++got[gi0];
    VectorXs n; k->getWorldSpaceContactNormal( q0, n ); vp_check_eq( n( 0 ), gi0 ? 1.0 : n0( 0 ), "plane contact has the plane's normal" ); vp_check_eq( n( 1 ), gi0 ? 0.0 : n0( 1 ), "plane contact has the plane's normal" );
    if( box ) { VectorXs p; k->getWorldSpaceContactPoint( q1, p ); const double e = dot2( Vector2s( p ) - ( gi0 ? x1 : x0 ), gi0 ? Vector2s{ 1.0, 0.0 } : n0 ); vp_check_le( e, 0.0, "a box touches with a corner that is below the plane" );
      const double bx = c * ( p( 0 ) - q1( 0 ) ) + sn * ( p( 1 ) - q1( 1 ) ), by = -sn * ( p( 0 ) - q1( 0 ) ) + c * ( p( 1 ) - q1( 1 ) ); const int ci = ( bx > 0 ? 1 : 0 ) + ( by > 0 ? 2 : 0 ); vp_check_eq( bx, bx > 0 ? h( 0 ) : -h( 0 ), "a box touches with a corner" ); vp_check_eq( by, by > 0 ? h( 1 ) : -h( 1 ), "a box touches with a corner" ); vp_check( !seen[gi0][ci], "each corner is listed once" ); seen[gi0][ci] = true; }
  }
  vp_check( got[0] == want[0] && got[1] == want[1], "a boundary contact is listed exactly for a circle or box corner that touches that boundary at the end of the step" ); vp_cover( box ? "box" : "circle" );
}
static void activePortal( bool moving )
{
  RigidBody2DSim sim; const double W = 3.0, v = moving ? 2.0 : 0.0, r0 = 0.75, r1 = 0.5; const double yy = vp_choose( "y", 0, 2 ) ? 0.75 : 0.0; const VectorXs q1 = pose( { vp_real( "x", 0, -3.3, 3.3 ), 0, 0.5, vp_real( "x", 1, -3.3, 3.3 ), yy, 0.25 } );
  VectorXs q0 = q1; const double m = vp_real( "m", 0, -0.1, 0.1 ); q0( 0 ) += m; const VectorXs vv = sv( "v", 6, -9, 9 ); circles( sim, q0, vv, { r0, r1 }, { false, false } );
  sim.state().planarPortals().emplace_back( RigidBody2DStaticPlane{ Vector2s{ -W, 0.0 }, Vector2s{ 1.0, 0.0 } }, RigidBody2DStaticPlane{ Vector2s{ W, 0.0 }, Vector2s{ -1.0, 0.0 } }, v, moving ? 4.0 : 0.0 );
  const double dx = q1( 0 ) - q1( 3 ), dy = -yy, h2 = ( r0 + r1 ) * ( r0 + r1 ) - dy * dy; const bool direct = dx * dx <= h2; vp_assume( direct || ( dx + m ) * ( dx + m ) > h2 ); // no contact that ends within the step
  Set A; sim.computeActiveSet( q0, q1, vv, A );
  const bool l0 = q1( 0 ) - r0 <= -W, l1 = q1( 3 ) - r1 <= -W, R0 = q1( 0 ) + r0 >= W, R1 = q1( 3 ) + r1 >= W;
  const bool seamA = ( l0 || R1 ) && ( dx + 2 * W ) * ( dx + 2 * W ) <= h2, seamB = ( R0 || l1 ) && ( dx - 2 * W ) * ( dx - 2 * W ) <= h2;
  vp_check( int( A.size() ) == ( direct || seamA || seamB ? 1 : 0 ), "circles are in contact exactly when they touch directly or through the portal, listed once" );
  if( A.empty() ) { vp_cover( "miss" ); return; }
  vp_check( A[0]->body0() == 0 && A[0]->body1() == 1, "the contact names both bodies" ); MatrixXXsc n; A[0]->computeBasis( q0, vv, n ); const double ex = q0( 0 ) - q0( 3 ) + ( direct ? 0.0 : seamA ? 2 * W : -2 * W ), ey = dy; vp_assume( ex * ex + ey * ey > 0.01 );
  vp_check_eq( n( 0, 0 ) * ey, n( 1, 0 ) * ex, "the normal lies on the line between the body and the partner's image" ); vp_check_le( 0.0, n( 0, 0 ) * ex + n( 1, 0 ) * ey, "the normal points to the first body" );
  if( vp_choose( "spin", 0, 2 ) == 0 )
  {
    VectorXs w = vv; w( 2 ) = 0; w( 5 ) = 0; const VectorXs rel = A[0]->computeRelativeVelocity( q0, w ); const double k = direct ? 0.0 : seamA ? -v : v;
    vp_check_eq( rel( 0 ), w( 0 ) - w( 3 ), "relative velocity across the portal" ); vp_check_eq( rel( 1 ), w( 1 ) - w( 4 ) + k, "relative velocity across a moving portal includes its speed" );
  }
  vp_cover( direct ? "direct" : "seam" );
}
VP_HARNESS(r2_active_portal) { activePortal( false ); }
VP_HARNESS(r2_active_moving) { activePortal( true ); }
