#include "sys.h"
#include "ball2d/Ball2DSim.h"
#include "ball2d/Ball2DUtilities.h"
#include "ball2d/PythonScripting.h"
#include "ball2d/SymplecticEulerMap.h"
#include "ball2d/VerletMap.h"
#include "ball2d/Forces/Ball2DGravityForce.h"
#include "ball2d/Forces/PenaltyForce.h"
#include "ball2d/Constraints/BallBallConstraint.h"
#include "ball2d/Constraints/BallStaticPlaneConstraint.h"
#include "ball2d/Constraints/BallStaticDrumConstraint.h"
#ifdef VP_THOROUGH
static const int NB = 3;
#else
static const int NB = 2;
#endif
struct Bodies { int n; VectorXs q, v, r, m; };
static Bodies fill( Ball2DState& s, int n )
{
  Bodies b{ n, sv( "q", 2 * n, -100, 100 ), sv( "v", 2 * n, -100, 100 ), sv( "r", n, 0.01, 50 ), sv( "m", n, 0.01, 1000 ) };
  s.q() = b.q; s.v() = b.v; s.r() = b.r; s.fixed() = std::vector<bool>( n, false );
  VectorXs mm( 2 * n ); for( int k = 0; k < 2 * n; ++k ) mm( k ) = b.m( k / 2 );
  s.setMass( mm ); return b;
}
static void gravity( Ball2DState& s, const Vector2s& g ) { s.forces().emplace_back( new Ball2DGravityForce{ g } ); }
VP_HARNESS(b2_energy)
{
  Ball2DSim sim; Ball2DState& s = sim.state(); const Bodies b = fill( s, NB ); const Vector2s g = sv2( "g", 0, -20, 20 ), h = sv2( "h", 0, -20, 20 );
  gravity( s, g ); gravity( s, h );
  double T = 0, U = 0, L = 0; Vector2s P = Vector2s::Zero();
  for( int i = 0; i < NB; ++i )
  {
    const double vx = b.v( 2 * i ), vy = b.v( 2 * i + 1 ), x = b.q( 2 * i ), y = b.q( 2 * i + 1 ), m = b.m( i );
    T += m * ( vx * vx + vy * vy ) / 2.0; U -= m * ( ( g( 0 ) + h( 0 ) ) * x + ( g( 1 ) + h( 1 ) ) * y ); P( 0 ) += m * vx; P( 1 ) += m * vy; L += m * ( x * vy - y * vx );
  }
  vp_check_eq( s.computeKineticEnergy(), T, "kinetic energy is the sum of m v^2 / 2" );
  vp_check_eq( s.computePotentialEnergy(), U, "potential energy is the sum over all forces" );
  vp_check_eq( s.computeTotalEnergy(), T + U, "total energy is kinetic plus potential" );
  eqv( s.computeMomentum(), P, "total momentum" ); vp_check_eq( s.computeAngularMomentum(), L, "total angular momentum about the origin" );
  FlowableSystem& f = sim; VectorXs p, l; const VectorXs w = sv( "w", 2 * NB, -100, 100 );
  f.computeMomentum( w, p ); f.computeAngularMomentum( w, l );
  Vector2s P2 = Vector2s::Zero(); double L2 = 0;
  for( int i = 0; i < NB; ++i ) { P2( 0 ) += b.m( i ) * w( 2 * i ); P2( 1 ) += b.m( i ) * w( 2 * i + 1 ); L2 += b.m( i ) * ( b.q( 2 * i ) * w( 2 * i + 1 ) - b.q( 2 * i + 1 ) * w( 2 * i ) ); }
  eqv( p, P2, "momentum of a given velocity" ); vp_check( l.size() == 1, "angular momentum is a scalar in 2D" ); vp_check_eq( l( 0 ), L2, "angular momentum of a given velocity" );
  vp_cover( "end" );
}
VP_HARNESS(b2_mass)
{
  Ball2DSim sim; Ball2DState& s = sim.state(); const Bodies b = fill( s, NB ); FlowableSystem& f = sim;
  for( int k = 0; k < 2; ++k )
  {
    const SparseMatrixsc& M = k ? f.M0() : f.M(); const SparseMatrixsc& W = k ? f.Minv0() : f.Minv();
    vp_check( M.rows() == 2 * NB && M.cols() == 2 * NB && W.rows() == 2 * NB && W.cols() == 2 * NB, "mass matrix has one row per velocity" );
    for( int r = 0; r < 2 * NB; ++r ) for( int c = 0; c < 2 * NB; ++c )
    {
      vp_check_eq( at( M, r, c ), r == c ? b.m( r / 2 ) : 0.0, "mass matrix is the diagonal of the masses" );
      vp_check_eq( at( W, r, c ) * ( r == c ? b.m( r / 2 ) : 1.0 ), r == c ? 1.0 : 0.0, "inverse mass matrix inverts the mass matrix" );
    }
  }
  vp_check( f.nqdofs() == 2 * NB && f.nvdofs() == 2 * NB && f.numBodies() == unsigned( NB ), "degrees of freedom are counted" );
  vp_cover( "end" );
}
VP_HARNESS(b2_gravity)
{
  Ball2DSim sim; Ball2DState& s = sim.state(); const Bodies b = fill( s, NB ); const Vector2s g = sv2( "g", 0, -20, 20 ); gravity( s, g );
  const VectorXs x = sv( "x", 2 * NB, -100, 100 ), junk = sv( "junk", 2 * NB, -5, 5 ); VectorXs F = junk; FlowableSystem& f = sim; f.computeForce( x, b.v, 0.0, F );
  for( int i = 0; i < NB; ++i ) for( int d = 0; d < 2; ++d ) vp_check_eq( F( 2 * i + d ), b.m( i ) * g( d ), "gravity pulls every ball with mass times acceleration, overwriting the force vector" );
  const double h = vp_real( "h", 0, -1, 1 ); const double U0 = s.forces()[0]->computePotential( x, s.M(), s.r() );
  for( int k = 0; k < 2 * NB; ++k ) { VectorXs y = x; y( k ) += h; vp_check_eq( s.forces()[0]->computePotential( y, s.M(), s.r() ) - U0, -F( k ) * h, "gravity is the negative slope of its potential" ); }
  VectorXs G = junk; s.accumulateForce( x, b.v, G ); eqv( G - junk, F, "accumulating forces adds to the vector" );
  const auto c = s.forces()[0]->clone(); VectorXs H = VectorXs::Zero( 2 * NB ); c->computeForce( x, b.v, s.M(), s.r(), H ); eqv( H, F, "a cloned force acts the same" );
  vp_cover( "end" );
}
// penalty force with exponent p: F along the centre line, F * depth = p * U, so F is -dU/d(distance) for U = c depth^p
static void penalty( double p )
{
  Ball2DState s; const Bodies b = fill( s, 2 ); const double k = vp_real( "k", 0, 0.1, 1000 ); const PenaltyForce pf( k, p );
  VectorXs F = VectorXs::Zero( 4 ); pf.computeForce( b.q, b.v, s.M(), b.r, F ); const double U = pf.computePotential( b.q, s.M(), b.r );
  const double dx = b.q( 2 ) - b.q( 0 ), dy = b.q( 3 ) - b.q( 1 ), R = b.r( 0 ) + b.r( 1 );
  if( dx * dx + dy * dy > R * R )
  {
    for( int i = 0; i < 4; ++i ) vp_check_eq( F( i ), 0.0, "no penalty force between separated balls" );
    vp_check_eq( U, 0.0, "no penalty energy between separated balls" ); vp_cover( "apart" ); return;
  }
  const double d = std::sqrt( dx * dx + dy * dy ); vp_assume( d > 0.01 );
  vp_check_eq( F( 0 ) + F( 2 ), 0.0, "penalty forces are equal and opposite" ); vp_check_eq( F( 1 ) + F( 3 ), 0.0, "penalty forces are equal and opposite" );
  vp_check_eq( F( 2 ) * d * ( R - d ), p * U * dx, "penalty force is the negative slope of its energy, along the centre line" );
  vp_check_eq( F( 3 ) * d * ( R - d ), p * U * dy, "penalty force is the negative slope of its energy, along the centre line" );
  vp_check_eq( U, 0.5 * k * ( p == 2.0 ? ( R - d ) * ( R - d ) : p == 3.0 ? ( R - d ) * ( R - d ) * ( R - d ) : ( R - d ) * ( R - d ) * std::sqrt( R - d ) ), "penalty energy is half the stiffness times the depth to the exponent" );
  vp_cover( "overlap" );
}
// three balls feel the sum of what each pair feels alone
VP_HARNESS(b2_penalty_sum)
{
  Ball2DState s; const Bodies b = fill( s, 3 ); const PenaltyForce pf( 40.0, 2.0 ); VectorXs F = VectorXs::Zero( 6 ), W = VectorXs::Zero( 6 ); double U = 0; pf.computeForce( b.q, b.v, s.M(), b.r, F );
  for( int i = 0; i < 3; ++i ) for( int j = i + 1; j < 3; ++j )
  {
    const Vector2s d = b.q.segment<2>( 2 * j ) - b.q.segment<2>( 2 * i ); vp_assume( d( 0 ) * d( 0 ) + d( 1 ) * d( 1 ) > 0.01 );
    VectorXs q( 4 ), r( 2 ), f = VectorXs::Zero( 4 ); q << b.q.segment<2>( 2 * i ), b.q.segment<2>( 2 * j ); r << b.r( i ), b.r( j ); pf.computeForce( q, q, s.M(), r, f ); W.segment<2>( 2 * i ) += f.segment<2>( 0 ); W.segment<2>( 2 * j ) += f.segment<2>( 2 ); U += pf.computePotential( q, s.M(), r );
  }
  eqv( F, W, "each pair of balls feels its own penalty force" ); vp_check_eq( pf.computePotential( b.q, s.M(), b.r ), U, "each pair of balls has its own penalty energy" ); vp_cover( "end" );
}
VP_HARNESS(b2_penalty2) { penalty( 2.0 ); }
VP_HARNESS(b2_penalty25) { penalty( 2.5 ); }
VP_HARNESS(b2_penalty3) { penalty( 3.0 ); }
VP_HARNESS(b2_penalty_three) // every pair of three balls on a line contributes exactly once
{
  Ball2DState s; const double x1 = vp_real( "x", 1, 0.5, 4 ), x2 = vp_real( "x", 2, 0.5, 4 ); s.q() = ( VectorXs( 6 ) << 0, 0, x1, 0, x1 + x2, 0 ).finished(); s.v() = VectorXs::Zero( 6 );
  s.r() = VectorXs::Constant( 3, 2.0 ); s.fixed() = std::vector<bool>( 3, false ); s.setMass( VectorXs::Ones( 6 ) );
  const PenaltyForce pf( 2.0, 2.0 ); VectorXs F = VectorXs::Zero( 6 ); pf.computeForce( s.q(), s.v(), s.M(), s.r(), F );
  const double d01 = 4.0 - x1, d12 = 4.0 - x2, d02 = x1 + x2 < 4.0 ? 4.0 - x1 - x2 : 0.0;
  vp_check_eq( pf.computePotential( s.q(), s.M(), s.r() ), d01 * d01 + d12 * d12 + d02 * d02, "penalty energy sums over every overlapping pair" );
  vp_check_eq( F( 0 ), -2 * d01 - 2 * d02, "penalty forces sum over every overlapping pair" ); vp_check_eq( F( 2 ), 2 * d01 - 2 * d12, "penalty forces sum over every overlapping pair" ); vp_check_eq( F( 4 ), 2 * d12 + 2 * d02, "penalty forces sum over every overlapping pair" );
  vp_cover( "end" );
}
VP_HARNESS(b2_euler) { AffineSystem s( NB, 2 ); SymplecticEulerMap m; eulerLaw( m, s, false ); }
VP_HARNESS(b2_verlet) { AffineSystem s( NB, 2 ); std::istringstream e; VerletMap m{}; verletLaw( m, s, false ); }
VP_HARNESS(b2_verlet_rev) { AffineSystem s( 1, 2 ); VerletMap m{}; reverseLaw( m, s ); }
// one full simulation step under gravity: projectile motion, energy drift-free for Verlet
static void projectile( UnconstrainedMap& map, bool verlet )
{
  Ball2DSim sim; Ball2DState& s = sim.state(); const Bodies b = fill( s, NB ); const Vector2s g = sv2( "g", 0, -20, 20 ); gravity( s, g );
  PythonScripting ps; const Rational<std::intmax_t> dt( 1, 100 ); const double E0 = s.computeTotalEnergy(); const Vector2s P0 = s.computeMomentum();
  sim.flow( ps, 1, dt, map ); double mt = 0; const double h = scalar( dt );
  for( int i = 0; i < NB; ++i ) { mt += b.m( i ); for( int d = 0; d < 2; ++d )
  {
    const int k = 2 * i + d; vp_check_eq( s.v()( k ), b.v( k ) + h * g( d ), "velocity gains the time step times gravity" );
    vp_check_eq( s.q()( k ), b.q( k ) + h * b.v( k ) + ( verlet ? 0.5 : 1.0 ) * h * h * g( d ), "position follows the integrator's parabola" );
  } }
  for( int d = 0; d < 2; ++d ) vp_check_eq( s.computeMomentum()( d ) - P0( d ), h * mt * g( d ), "total momentum grows by the impulse of gravity" );
  if( verlet ) vp_check_eq( s.computeTotalEnergy(), E0, "free flight conserves energy" );
  vp_cover( "end" );
}
VP_HARNESS(b2_flow_euler) { SymplecticEulerMap m; projectile( m, false ); }
VP_HARNESS(b2_flow_verlet) { VerletMap m{}; projectile( m, true ); }
VP_HARNESS(b2_linear)
{
  Ball2DSim sim; const Bodies b = fill( sim.state(), NB ); FlowableSystem& f = sim; const double dt = vp_real( "dt", 0, 0.0001, 1 ); VectorXs q1( 2 * NB ); f.linearInertialConfigurationUpdate( b.q, b.v, dt, q1 );
  for( int k = 0; k < 2 * NB; ++k ) vp_check_eq( q1( k ), b.q( k ) + dt * b.v( k ), "inertial update moves every coordinate with its velocity" );
  VectorXs F = b.v; f.zeroOutForcesOnFixedBodies( F ); for( int k = 0; k < 2 * NB; ++k ) vp_check_eq( F( k ), b.v( k ), "no ball is scripted" );
  vp_cover( "end" );
}
static double mn( double a, double b ) { return a < b ? a : b; }
static double mx( double a, double b ) { return a > b ? a : b; }
VP_HARNESS(b2_bbox) // one coordinate symbolic at a time
{
  Ball2DState s; Bodies b = fill( s, NB ); const bool dr = vp_choose( "drum", 0, 2 ); Vector2s c = sv2( "c", 0, -100, 100 ); const double R = vp_real( "R", 0, 0.1, 100 );
  const int fixedAxis = vp_choose( "axis", 0, 2 );
  for( int i = 0; i < NB; ++i ) { b.q( 2 * i + fixedAxis ) = 1000.0 * ( i + 1 ); }
  c( fixedAxis ) = 5000.0; s.q() = b.q; if( dr ) s.staticDrums().emplace_back( c, R );
  const Vector4s B = s.computeBoundingBox();
  bool hit[4] = { false, false, false, false };
  auto item = [&]( double x, double y, double r )
  {
    const double e[4] = { x - r, x + r, y - r, y + r };
    vp_check_le( B( 0 ), e[0], "bounding box contains everything" ); vp_check_le( e[1], B( 1 ), "bounding box contains everything" ); vp_check_le( B( 2 ), e[2], "bounding box contains everything" ); vp_check_le( e[3], B( 3 ), "bounding box contains everything" );
    for( int k = 0; k < 4; ++k ) if( e[k] == B( k ) ) hit[k] = true;
  };
  for( int i = 0; i < NB; ++i ) item( b.q( 2 * i ), b.q( 2 * i + 1 ), b.r( i ) );
  if( dr ) item( c( 0 ), c( 1 ), R );
  vp_check( hit[0] && hit[1] && hit[2] && hit[3], "each side of the bounding box is touched by something" );
  vp_cover( "end" );
}
VP_HARNESS(b2_push)
{
  Ball2DState s; const int n = vp_choose( "n", 0, NB + 1 ); Bodies b; if( n ) b = fill( s, n ); else { b.n = 0; s.setMass( VectorXs{} ); }
  const Vector2s x = sv2( "nx", 0, -100, 100 ), w = sv2( "nv", 0, -100, 100 ); const double r = vp_real( "nr", 0, 0.01, 50 ), m = vp_real( "nm", 0, 0.01, 1000 ); const bool fx = vp_bool( "fx", 0 );
  s.pushBallBack( x, w, r, m, fx );
  vp_check( int( s.nballs() ) == n + 1 && s.q().size() == 2 * n + 2 && s.v().size() == 2 * n + 2 && s.r().size() == n + 1 && int( s.fixed().size() ) == n + 1, "the new ball is counted everywhere" );
  for( int k = 0; k < 2 * n + 2; ++k )
  {
    const bool nw = k >= 2 * n; vp_check_eq( s.q()( k ), nw ? x( k - 2 * n ) : b.q( k ), "positions kept and appended" ); vp_check_eq( s.v()( k ), nw ? w( k - 2 * n ) : b.v( k ), "velocities kept and appended" );
    const double mk = nw ? m : b.m( k / 2 );
    for( int j = 0; j < 2 * n + 2; ++j ) { vp_check_eq( at( s.M(), j, k ), j == k ? mk : 0.0, "masses kept and appended" ); vp_check_eq( at( s.Minv(), j, k ) * ( j == k ? mk : 1.0 ), j == k ? 1.0 : 0.0, "inverse masses kept and appended" ); }
  }
  for( int i = 0; i < n; ++i ) { vp_check_eq( s.r()( i ), b.r( i ), "radii kept" ); vp_check( !s.fixed()[i], "flags kept" ); }
  vp_check_eq( s.r()( n ), r, "radius appended" ); vp_check( s.fixed()[n] == fx, "flag appended" );
  vp_cover( "end" );
}
// ---- checkpoint
static void put( Ball2DSim& sim, const Bodies& b )
{
  Ball2DState& s = sim.state(); for( int i = 0; i < b.n; ++i ) s.fixed()[i] = vp_bool( "fixed", i );
  s.staticDrums().emplace_back( sv2( "dx", 0, -9, 9 ), vp_real( "dr", 0, 0.1, 9 ) );
  s.staticPlanes().emplace_back( sv2( "px", 0, -9, 9 ), Vector2s{ 0.0, 1.0 } ); s.staticPlanes().back().v() = sv2( "pv", 0, -9, 9 ); s.staticPlanes().emplace_back( sv2( "px", 1, -9, 9 ), Vector2s{ 1.0, 0.0 } );
  s.planarPortals().emplace_back( StaticPlane{ sv2( "px", 2, -9, 9 ), Vector2s{ 0.0, 1.0 } }, StaticPlane{ sv2( "px", 3, -9, 9 ), Vector2s{ 0.0, -1.0 } }, vp_real( "lev", 0, -3, 3 ), 4.0 );
  s.planarPortals().back().updateMovingPortals( 1.0 );
}
static void planeSame( const StaticPlane& a, const StaticPlane& b ) { samev( a.x(), b.x(), "plane position restored" ); samev( a.v(), b.v(), "plane velocity restored" ); samev( a.n(), b.n(), "plane normal restored" ); samev( a.t(), b.t(), "plane tangent restored" ); }
VP_HARNESS(b2_checkpoint)
{
  Ball2DSim sim; const Bodies b = fill( sim.state(), 2 ); put( sim, b ); Ball2DState& s = sim.state(); gravity( s, sv2( "g", 0, -9, 9 ) ); const double k = vp_real( "k", 0, 0.1, 9 ); const bool pen = vp_choose( "pen", 0, 2 ); if( pen ) s.forces().emplace_back( new PenaltyForce{ k, 2.0 } );
  const VectorXs c0 = sv( "c0", 2, -9, 9 ), c1 = sv( "c1", 2, -9, 9 ), c2 = sv( "c2", 2, -9, 9 );
  const BallBallConstraint bb{ 0, 1, Vector2s{ 0.0, 0.0 }, Vector2s{ 1.0, 0.0 }, 1.0, 1.0, false }; const StaticPlaneConstraint pl{ 1, 1.0, s.staticPlanes()[1], 1 }; const StaticDrumConstraint dc{ 0, ( VectorXs( 4 ) << 3, 0, 1, 0 ).finished(), 1.0, Vector2s{ 0.0, 0.0 }, 0 };
  ConstrainedSystem& cs = sim; cs.cacheConstraint( bb, c0 ); cs.cacheConstraint( pl, c1 ); cs.cacheConstraint( dc, c2 );
  Tape io; sim.serialize( io ); io.write( "Z", 1 );
  Ball2DSim o; Ball2DState& t = o.state(); fill( t, 1 ); static_cast<ConstrainedSystem&>( o ).cacheConstraint( StaticDrumConstraint{ 1, ( VectorXs( 4 ) << 3, 0, 1, 0 ).finished(), 1.0, Vector2s{ 0.0, 0.0 }, 5 }, c0 ); { ConstrainedSystem& oc = o; oc.cacheConstraint( bb, c2 ); oc.cacheConstraint( pl, c0 ); oc.cacheConstraint( dc, c1 ); }
  o.deserialize( io ); char z = 0; io.read( &z, 1 ); vp_check( z == 'Z', "restoring consumes exactly the checkpoint" );
  vp_check( t.nballs() == 2 && t.fixed() == s.fixed(), "scripting flags restored" );
  samev( t.q(), s.q(), "positions restored" ); samev( t.v(), s.v(), "velocities restored" ); samev( t.r(), s.r(), "radii restored" ); sameSparse( t.M(), s.M(), "masses restored" ); sameSparse( t.Minv(), s.Minv(), "inverse masses restored" );
  vp_check( t.staticDrums().size() == 1 && t.staticPlanes().size() == 2 && t.planarPortals().size() == 1 && t.forces().size() == s.forces().size(), "boundaries and forces restored" );
  samev( t.staticDrums()[0].x(), s.staticDrums()[0].x(), "drum restored" ); vp_check_same( t.staticDrums()[0].r(), s.staticDrums()[0].r(), "drum restored" );
  for( int i = 0; i < 2; ++i ) planeSame( t.staticPlanes()[i], s.staticPlanes()[i] );
  const PlanarPortal &p = t.planarPortals()[0], &p0 = s.planarPortals()[0]; planeSame( p.planeA(), p0.planeA() ); planeSame( p.planeB(), p0.planeB() ); vp_check_same( p.bounds(), p0.bounds(), "portal bounds restored" ); samev( p.transformedAx(), p0.transformedAx(), "portal offset restored" ); samev( p.transformedBx(), p0.transformedBx(), "portal offset restored" );
  samev( p.getKinematicVelocityOfPoint( Vector2s{ 0.0, -100.0 } ), p0.getKinematicVelocityOfPoint( Vector2s{ 0.0, -100.0 } ), "portal velocity restored" );
  VectorXs F0 = VectorXs::Zero( 4 ), F1 = VectorXs::Zero( 4 ); s.forces()[0]->computeForce( s.q(), s.v(), s.M(), s.r(), F0 ); t.forces()[0]->computeForce( s.q(), s.v(), s.M(), s.r(), F1 ); eqv( F1, F0, "forces restored" );
  if( pen ) { const VectorXs x = ( VectorXs( 4 ) << 0, 0, 1, 0 ).finished(), r = VectorXs::Ones( 2 ); F0.setZero(); F1.setZero(); s.forces()[1]->computeForce( x, s.v(), s.M(), r, F0 ); t.forces()[1]->computeForce( x, s.v(), s.M(), r, F1 ); eqv( F1, F0, "penalty force restored" ); }
  const ConstrainedSystem& co = o; VectorXs r( 2 ); co.getCachedConstraintImpulse( bb, r ); samev( r, c0, "cached ball-ball impulse restored" ); co.getCachedConstraintImpulse( pl, r ); samev( r, c1, "cached plane impulse restored" ); co.getCachedConstraintImpulse( dc, r ); samev( r, c2, "cached drum impulse restored" );
  co.getCachedConstraintImpulse( StaticDrumConstraint{ 1, ( VectorXs( 4 ) << 3, 0, 1, 0 ).finished(), 1.0, Vector2s{ 0.0, 0.0 }, 5 }, r ); eqv( r, VectorXs::Zero( 2 ), "stale cache entries are gone after restoring" );
  vp_cover( "end" );
}
VP_HARNESS(b2_copy)
{
  Ball2DSim sim; const Bodies b = fill( sim.state(), 2 ); put( sim, b ); gravity( sim.state(), sv2( "g", 0, -9, 9 ) ); Ball2DState t; t = sim.state(); sim.state().q().setZero(); sim.state().v().setZero(); sim.state().forces().clear();
  samev( t.q(), b.q, "a copied state keeps its own positions" ); samev( t.v(), b.v, "a copied state keeps its own velocities" ); samev( t.r(), b.r, "copied radii" ); vp_check( t.forces().size() == 1 && t.staticDrums().size() == 1 && t.staticPlanes().size() == 2 && t.planarPortals().size() == 1 && t.nballs() == 2, "a copied state keeps its boundaries and forces" );
  for( int k = 0; k < 4; ++k ) { vp_check_eq( at( t.M(), k, k ), b.m( k / 2 ), "copied masses" ); vp_check_eq( at( t.Minv(), k, k ) * b.m( k / 2 ), 1.0, "copied inverse masses" ); }
  vp_cover( "end" );
}
VP_HARNESS(b2_mapio)
{
  std::unique_ptr<UnconstrainedMap> m; const int k = vp_choose( "k", 0, 3 ); if( k == 0 ) m.reset( new VerletMap{} ); else if( k == 1 ) m.reset( new SymplecticEulerMap );
  Tape io; Ball2DUtilities::serialize( m, io ); io.write( "Z", 1 ); const auto r = Ball2DUtilities::deserializeUnconstrainedMap( io ); char z = 0; io.read( &z, 1 ); vp_check( z == 'Z', "restoring consumes exactly the checkpoint" );
  vp_check( ( r == nullptr ) == ( m == nullptr ) && ( !m || m->name() == r->name() ), "the integrator is restored" );
  vp_cover( "end" );
}
// ---- portals
#define PLANE StaticPlane
#include "portal2d.h"
#include "steps.h"
VP_HARNESS(b2_portal_static) { portalStatic(); }
VP_HARNESS(b2_portal_plain) { portalTeleport( false ); }
VP_HARNESS(b2_portal_wrap) { portalTeleport( true ); }
VP_HARNESS(b2_portal_motion) { portalMotion(); }
VP_HARNESS(b2_portal_inside) { portalInside(); }
VP_HARNESS(b2_portal_touch)
{
  const Portal2 p = somePortal( true ); const PlanarPortal P = mk( p ); const Vector2s x = sv2( "x", 0, -20, 20 ); const double r = vp_real( "r", 0, 0.01, 5 ); const double da = dot2( x - p.xa, p.na ), db = dot2( x - p.xb, p.nb );
  vp_assume( !( da <= r && db <= r ) ); bool idx = vp_bool( "i", 0 ); const bool t = P.ballTouchesPortal( x, r, idx );
  vp_check( t == ( da <= r || db <= r ), "a ball touches the portal when it reaches either plane" ); if( !t ) { vp_cover( "apart" ); return; }
  vp_check( idx == ( db <= r ), "the touched plane is named" );
  vp_assume( dot2( p.xa - x, perp( p.na ) ) <= 2 * p.b && dot2( p.xa - x, perp( p.na ) ) >= -2 * p.b && dot2( p.xb - x, perp( p.nb ) ) <= 2 * p.b && dot2( p.xb - x, perp( p.nb ) ) >= -2 * p.b );
  Vector2s y, z; P.teleportBall( x, r, y ); if( db <= r ) P.teleportPointThroughPlaneB( x, z ); else P.teleportPointThroughPlaneA( x, z ); eqv( y, z, "a ball's image is its centre sent through the touched plane" );
  eqv( P.getKinematicVelocityOfBall( x, r ), Vector2s( db <= r ? -p.v * perp( p.nb ) : -p.v * perp( p.na ) ), "a ball's image moves with the portal's speed along the touched plane" ); vp_cover( "touch" );
}
// a whole step: bodies that leave through the portal re-enter, others are untouched
static void portalStep( bool moving, int kind = 0 )
{
  const int nb = kind == 1 ? 1 : 2;
  Ball2DSim sim; Ball2DState& s = sim.state(); fill( s, nb ); const double W = kind == 1 ? 6.0 : vp_real( "W", 0, 4, 10 ), b = 8.0, v = moving ? vp_real( "lev", 0, -20, 20 ) : 0.0; const bool hor = vp_choose( "hor", 0, 2 );
  if( moving ) vp_assume( v != 0.0 );
  const Vector2s n = hor ? Vector2s{ 1.0, 0.0 } : Vector2s{ 0.0, 1.0 }; s.planarPortals().emplace_back( StaticPlane{ -W * n, n }, StaticPlane{ W * n, -n }, v, moving ? b : 0.0 );
  GivenMap m; m.q = sv( "e", 2 * nb, -7.5, 7.5 ); m.v = sv( "ev", 2 * nb, -50, 50 ); for( int i = 0; i < nb; ++i ) { const double a = m.q( 2 * i + ( hor ? 0 : 1 ) ); m.q( 2 * i + ( hor ? 0 : 1 ) ) = 1.5 * a; } if( kind == 1 ) { m.q( hor ? 1 : 0 ) = 0.25; s.q().setZero(); s.r().setConstant( 1.0 ); }
  const VectorXs q0 = s.q(), v0 = s.v(); const Rational<std::intmax_t> dt( 1, 8 ); takeStep( sim, kind, 3, dt, m ); vp_check( m.it == 3, "the integrator is told the step number" );
  const double dx = v * 0.375; // displacement at the end of step 3
  for( int i = 0; i < nb; ++i )
  {
    const int N = hor ? 0 : 1, T = 1 - N; const double x = m.q( 2 * i + N ), y = m.q( 2 * i + T ), sg = x < -W ? 1.0 : x > W ? -1.0 : 0.0;
    vp_check_eq( s.q()( 2 * i + N ), x + 2 * W * sg, "a body that left re-enters at the opposite side, others keep their position" );
    // tangents: of the left plane perp(n), of the right plane -perp(n); the shift follows the portal
    const double tsgn = hor ? 1.0 : -1.0, sh = s.q()( 2 * i + T ) - y; 
    if( sg == 0.0 || !moving ) vp_check_eq( sh, 0.0, "no lateral shift without a moving portal" );
    else wrapped( s.q()( 2 * i + T ), y - sg * tsgn * dx, b, "lateral shift follows the portal's displacement, wrapped into the period" );
    vp_check_eq( s.v()( 2 * i + N ), m.v( 2 * i + N ), "normal velocity unchanged" ); vp_check_eq( s.v()( 2 * i + T ), m.v( 2 * i + T ) - sg * tsgn * v, "crossing a moving portal adds its speed" );
  }
  vp_cover( "end" );
}
VP_HARNESS(b2_portal_stepimpact) { portalStep( true, 1 ); }
VP_HARNESS(b2_portal_stepfriction) { portalStep( true, 2 ); }
VP_HARNESS(b2_portal_step) { portalStep( false ); }
VP_HARNESS(b2_portal_stepmoving) { portalStep( true ); }
// ---- which contacts are found
#ifdef VP_THOROUGH
static const double XR = 3.0;
#else
static const double XR = 2.0;
#endif
static void put2( Ball2DSim& sim, const VectorXs& q, const VectorXs& r ) { Ball2DState& s = sim.state(); const int n = r.size(); s.q() = q; s.v() = VectorXs::Zero( 2 * n ); s.r() = r; s.fixed() = std::vector<bool>( n, false ); s.setMass( VectorXs::Ones( 2 * n ) ); }
static int countPair( const Set& A, int i, int j ) { int c = 0; for( const auto& k : A ) if( k->body0() == i && k->body1() == j ) ++c; return c; }
static void onlyPairs( const Set& A, int n ) { for( const auto& k : A ) vp_check( k->body0() >= 0 && k->body0() < k->body1() && k->body1() < n, "contacts name two different balls, smaller index first" ); }
VP_HARNESS(b2_active_swept) // two balls moving along a line: contact iff they touch at some time of the step
{
  Ball2DSim sim; const double a0 =
#ifdef VP_THOROUGH
    vp_real( "a", 0, -XR, XR ),
#else
    vp_choose( "a0", 0, 2 ) ? 1.5 : -1.25,
#endif
    a1 = vp_real( "a", 1, -XR, XR ), b0 = 0.25, b1 = vp_real( "b", 1, -XR, XR ), R0 = 0.75, R1 = 0.5;
  const int ax = vp_choose( "ax", 0, 2 ); VectorXs q0 = VectorXs::Zero( 4 ), q1 = VectorXs::Zero( 4 ); q0( ax ) = a0; q0( 2 + ax ) = b0; q1( ax ) = a1; q1( 2 + ax ) = b1;
  vp_assume( a0 != b0 ); put2( sim, q0, ( VectorXs( 2 ) << R0, R1 ).finished() ); Set A; ConstrainedSystem& cs = sim; cs.computeActiveSet( q0, q1, VectorXs::Zero( 4 ), A );
  const double d0 = a0 - b0, d1 = a1 - b1, R = R0 + R1, lo = mn( d0, d1 ), hi = mx( d0, d1 ); const bool hit = lo <= R && hi >= -R;
  vp_check( int( A.size() ) == ( hit ? 1 : 0 ), "two balls are in contact exactly when they touch at some time of the step" );
  if( hit ) { onlyPairs( A, 2 ); VectorXs n; A[0]->getWorldSpaceContactNormal( q0, n ); vp_check_eq( n( ax ), d0 > 0 ? 1.0 : -1.0, "the normal points from the second ball to the first at the start of the step" ); vp_check_eq( n( 1 - ax ), 0.0, "the normal lies on the centre line" ); vp_cover( "hit" ); }
  else vp_cover( "miss" );
}
VP_HARNESS(b2_active_plane2) // resting balls anywhere in the plane
{
  Ball2DSim sim; const VectorXs q = ( VectorXs( 4 ) << 0, 0, vp_real( "x", 0, -XR, XR ), vp_real( "x", 1, -XR, XR ) ).finished(); put2( sim, q, ( VectorXs( 2 ) << 1.0, 0.5 ).finished() );
  vp_assume( q( 2 ) * q( 2 ) + q( 3 ) * q( 3 ) > 0.01 ); Set A; static_cast<ConstrainedSystem&>( sim ).computeActiveSet( q, q, VectorXs::Zero( 4 ), A ); const double d2 = q( 2 ) * q( 2 ) + q( 3 ) * q( 3 );
  vp_check( int( A.size() ) == ( d2 <= 2.25 ? 1 : 0 ), "resting balls are in contact exactly when they touch or overlap" );
  if( A.empty() ) { vp_cover( "miss" ); return; }
  vp_check( A[0]->body0() == 0 && A[0]->body1() == 1, "the contact names both balls" ); VectorXs n; A[0]->getWorldSpaceContactNormal( q, n ); vp_check_eq( n( 0 ) * q( 3 ), n( 1 ) * q( 2 ), "the normal lies on the centre line" ); vp_check_le( n( 0 ) * q( 2 ) + n( 1 ) * q( 3 ), 0.0, "the normal points to the first ball" );
  std::map<std::string,unsigned> cnt; std::map<std::string,scalar> dep; sim.computeNumberOfCollisions( cnt, dep );
  vp_check( cnt.size() == 1 && cnt.begin()->second == 1 && dep.size() == 1, "the contact is counted once" ); const double g = std::sqrt( d2 ) - 1.5; vp_check_eq( dep.begin()->second, g < 0 ? g : 0.0, "the reported depth is the overlap" ); vp_cover( "hit" );
}
VP_HARNESS(b2_active_three)
{
  Ball2DSim sim; const VectorXs q = ( VectorXs( 6 ) <<
#ifdef VP_THOROUGH
    vp_real( "x", 0, -0.4 * XR, 0.4 * XR ),
#else
    -0.25,
#endif
    0, vp_real( "x", 1, -0.5 * XR, 0.5 * XR ), 0.125, vp_real( "x", 2, -0.5 * XR, 0.5 * XR ), 0.25 ).finished(); put2( sim, q, ( VectorXs( 3 ) << 0.5, 0.4, 0.7 ).finished() );
  Set A; static_cast<ConstrainedSystem&>( sim ).computeActiveSet( q, q, VectorXs::Zero( 6 ), A ); onlyPairs( A, 3 ); const double r[3] = { 0.5, 0.4, 0.7 }; int tot = 0;
  for( int i = 0; i < 3; ++i ) for( int j = i + 1; j < 3; ++j ) { const double dx = q( 2 * i ) - q( 2 * j ), dy = q( 2 * i + 1 ) - q( 2 * j + 1 ); const int w = dx * dx + dy * dy <= ( r[i] + r[j] ) * ( r[i] + r[j] ) ? 1 : 0; tot += w; vp_check( countPair( A, i, j ) == w, "each touching pair is listed exactly once" ); }
  vp_check( int( A.size() ) == tot, "nothing else is listed" ); vp_cover( "end" );
}
VP_HARNESS(b2_active_bounds) // one ball with two planes and a drum: discrete test at the end of the step
{
  Ball2DSim sim; const VectorXs q0 = sv( "q", 2, -9, 9 ), q1 = sv( "p", 2, -9, 9 ); const double r = vp_real( "r", 0, 0.1, 2 ); put2( sim, q0, VectorXs::Constant( 1, r ) ); Ball2DState& s = sim.state();
  const Vector2s n0 = su2( "n", 0 ), x0 = sv2( "px", 0, -9, 9 ), x1 = sv2( "px", 1, -9, 9 ), c = sv2( "c", 0, -3, 3 ); const double R = vp_real( "R", 0, 3, 9 );
  s.staticPlanes().emplace_back( x0, n0 ); s.staticPlanes().emplace_back( x1, Vector2s{ 1.0, 0.0 } ); s.staticDrums().emplace_back( c, R );
  vp_assume( ( q0( 0 ) - c( 0 ) ) * ( q0( 0 ) - c( 0 ) ) + ( q0( 1 ) - c( 1 ) ) * ( q0( 1 ) - c( 1 ) ) > 0.01 );
  Set A; static_cast<ConstrainedSystem&>( sim ).computeActiveSet( q0, q1, VectorXs::Zero( 2 ), A );
  const double dx = q1( 0 ) - c( 0 ), dy = q1( 1 ) - c( 1 ); const bool wd = dx * dx + dy * dy >= ( R - r ) * ( R - r ), w0 = n0( 0 ) * ( q1( 0 ) - x0( 0 ) ) + n0( 1 ) * ( q1( 1 ) - x0( 1 ) ) <= r, w1 = q1( 0 ) - x1( 0 ) <= r;
  bool g[3] = { false, false, false }; unsigned twice = 0;
  for( const auto& k : A )
  {
    vp_check( k->body0() == 0 && k->body1() == -1, "boundary contacts name the ball and no partner" ); VectorXs n; k->getWorldSpaceContactNormal( q0, n ); const unsigned gi = k->name() == "static_drum_constraint" ? 2 : k->getStaticObjectIndex();
    vp_check( gi < 3, "the boundary is identified" ); if( g[gi] ) ++twice; g[gi] = true;
    if( gi == 2 ) { const double ex = c( 0 ) - q0( 0 ), ey = c( 1 ) - q0( 1 ); vp_check_eq( n( 0 ) * ey, n( 1 ) * ex, "drum normal is radial" ); vp_check_le( 0.0, n( 0 ) * ex + n( 1 ) * ey, "drum normal points inwards" ); }
    else { vp_check_eq( n( 0 ), gi == 0 ? n0( 0 ) : 1.0, "plane contact has the plane's normal" ); vp_check_eq( n( 1 ), gi == 0 ? n0( 1 ) : 0.0, "plane contact has the plane's normal" ); }
  }
  vp_check( g[0] == w0 && g[1] == w1 && g[2] == wd && twice == 0, "a boundary contact is listed exactly when the ball touches that boundary at the end of the step" ); vp_cover( "end" );
}
static void activePortal( bool moving )
{
  Ball2DSim sim; const double W = 3.0, v = moving ? 2.0 : 0.0; VectorXs q1 = VectorXs::Zero( 4 ), q0( 4 ); q1( 0 ) = vp_real( "x", 0, -3.3, 3.3 ); q1( 2 ) = vp_real( "x", 1, -3.3, 3.3 ); q1( 3 ) = vp_choose( "y", 0, 2 ) ? 0.75 : 0.0; const double r0 = 0.75, r1 = 0.5;
  q0 = q1; q0( 0 ) += vp_real( "m", 0, -0.1, 0.1 ); put2( sim, q0, ( VectorXs( 2 ) << r0, r1 ).finished() ); sim.state().v() = sv( "v", 4, -9, 9 ); const VectorXs vv = sim.state().v();
  sim.state().planarPortals().emplace_back( StaticPlane{ Vector2s{ -W, 0.0 }, Vector2s{ 1.0, 0.0 } }, StaticPlane{ Vector2s{ W, 0.0 }, Vector2s{ -1.0, 0.0 } }, v, moving ? 4.0 : 0.0 );
  Set A; static_cast<ConstrainedSystem&>( sim ).computeActiveSet( q0, q1, vv, A );
  const double dx = q1( 0 ) - q1( 2 ), dy = q1( 1 ) - q1( 3 ), h2 = ( r0 + r1 ) * ( r0 + r1 ) - dy * dy; // touching iff dx^2 <= h2, directly or across the seam
  const bool direct = dx * dx <= h2, l0 = q1( 0 ) - r0 <= -W, l1 = q1( 2 ) - r1 <= -W, R0 = q1( 0 ) + r0 >= W, R1 = q1( 2 ) + r1 >= W;
  const bool seamA = ( l0 || R1 ) && ( dx + 2 * W ) * ( dx + 2 * W ) <= h2, seamB = ( R0 || l1 ) && ( dx - 2 * W ) * ( dx - 2 * W ) <= h2;
  vp_check( int( A.size() ) == ( direct || seamA || seamB ? 1 : 0 ), "balls are in contact exactly when they touch directly or through the portal, listed once" );
  if( A.empty() ) { vp_cover( "miss" ); return; }
  onlyPairs( A, 2 ); VectorXs n; A[0]->getWorldSpaceContactNormal( q0, n ); const double ex = q0( 0 ) - q0( 2 ) + ( direct ? 0.0 : seamA ? 2 * W : -2 * W ), ey = dy; vp_assume( ex * ex + ey * ey > 0.01 );
  vp_check_eq( n( 0 ) * ey, n( 1 ) * ex, "the normal lies on the line between the ball and the partner's image" ); vp_check_le( 0.0, n( 0 ) * ex + n( 1 ) * ey, "the normal points to the first ball" );
  const VectorXs rel = A[0]->computeRelativeVelocity( q0, vv ); 
  // seamA: ball 0 seen beyond the right plane, its image moves with -v along the left plane's tangent
  const double k = direct ? 0.0 : seamA ? -v : v;
  vp_check_eq( rel( 0 ), vv( 0 ) - vv( 2 ), "relative velocity across the portal" ); vp_check_eq( rel( 1 ), vv( 1 ) - vv( 3 ) + k, "relative velocity across a moving portal includes its speed" ); vp_cover( direct ? "direct" : "seam" );
}
VP_HARNESS(b2_active_portal) { activePortal( false ); }
VP_HARNESS(b2_active_moving) { activePortal( true ); }

static Set someContacts( const Ball2DState& s )
{
  Set K; const VectorXs q = ( VectorXs( 6 ) << 3, 0, 1, 0, 0, 2 ).finished();
  K.emplace_back( new BallBallConstraint{ 0, 1, Vector2s{ 0.0, 0.0 }, Vector2s{ 1.0, 0.0 }, 1.0, 1.0, false } ); K.emplace_back( new StaticPlaneConstraint{ 1, 1.0, s.staticPlanes()[0], 0 } ); K.emplace_back( new StaticDrumConstraint{ 1, q, 1.0, Vector2s{ 0.0, 0.0 }, 0 } );
  K.emplace_back( new BallBallConstraint{ 1, 2, Vector2s{ 0.0, 0.0 }, Vector2s{ 0.0, 1.0 }, 1.0, 1.0, false } ); K.emplace_back( new StaticPlaneConstraint{ 0, 1.0, s.staticPlanes()[1], 1 } ); K.emplace_back( new StaticDrumConstraint{ 0, q, 1.0, Vector2s{ 0.0, 0.0 }, 1 } );
  K.emplace_back( new BallBallConstraint{ 0, 2, Vector2s{ 0.0, 0.0 }, Vector2s{ 0.0, 1.0 }, 1.0, 1.0, false } );
  return K;
}
VP_HARNESS(b2_cache)
{
  Ball2DSim sim; Ball2DState& s = sim.state(); fill( s, 3 ); s.staticPlanes().emplace_back( Vector2s{ 0.0, 0.0 }, Vector2s{ 0.0, 1.0 } ); s.staticPlanes().emplace_back( Vector2s{ 0.0, 0.0 }, Vector2s{ 1.0, 0.0 } );
  cacheLaw( sim, someContacts( s ), 2 );
}
VP_HARNESS(b2_bases)
{
  Ball2DSim sim; Ball2DState& s = sim.state(); const Bodies b = fill( s, 3 ); s.staticPlanes().emplace_back( Vector2s{ 0.0, 0.0 }, su2( "pn", 0 ) ); s.staticPlanes().emplace_back( Vector2s{ 0.0, 0.0 }, Vector2s{ 1.0, 0.0 } );
  Set K = someContacts( s ); K.resize( 3 ); basesLaw( sim, b.q, b.v, K, 2 );
}
