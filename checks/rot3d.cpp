// Orientation updates of the rigidbody3d integrators.
#include "rb3d.h"
#include "rigidbody3d/Forces/Force.h"
// force and torque on every body depend affinely on the positions of all bodies
struct Pull final : Force
{
  VectorXs c; double k; int n; explicit Pull( int nb, const VectorXs& c_, double k_ ) : c( c_ ), k( k_ ), n( nb ) {}
  VectorXs of( const VectorXs& q ) const { VectorXs F( 6 * n ); for( int j = 0; j < 6 * n; ++j ) F( j ) = c( j ) + k * q( j % ( 3 * n ) ); return F; }
  scalar computePotential( const VectorXs&, const SparseMatrixsc& ) const override { return 0.0; }
  void computeForce( const VectorXs& q, const VectorXs&, const SparseMatrixsc&, VectorXs& r ) const override { r += of( q ); }
  std::string name() const override { return "pull"; } std::unique_ptr<Force> clone() const override { return std::unique_ptr<Force>{ new Pull{ n, c, k } }; } void serialize( std::ostream& ) const override {}
};
static Matrix33sr mm( const Matrix33sr& A, const Matrix33sr& B ) { Matrix33sr C; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) C( i, j ) = A( i, 0 ) * B( 0, j ) + A( i, 1 ) * B( 1, j ) + A( i, 2 ) * B( 2, j ); return C; }
static Vector3s mv( const Matrix33sr& A, const Vector3s& x ) { return Vector3s{ A(0,0) * x(0) + A(0,1) * x(1) + A(0,2) * x(2), A(1,0) * x(0) + A(1,1) * x(1) + A(1,2) * x(2), A(2,0) * x(0) + A(2,1) * x(1) + A(2,2) * x(2) }; }
static Vector3s tv( const Matrix33sr& A, const Vector3s& x ) { return Vector3s{ A(0,0) * x(0) + A(1,0) * x(1) + A(2,0) * x(2), A(0,1) * x(0) + A(1,1) * x(1) + A(2,1) * x(2), A(0,2) * x(0) + A(1,2) * x(1) + A(2,2) * x(2) }; }
static Matrix33sr about( int ax, double a )
{
  const double c = std::cos( a ), s = std::sin( a ); const int i = ( ax + 1 ) % 3, j = ( ax + 2 ) % 3; Matrix33sr R = eye(); R( i, i ) = c; R( j, j ) = c; R( i, j ) = -s; R( j, i ) = s; return R;
}
static Matrix33sr orient( const VectorXs& q, int n, int i ) { Matrix33sr R; for( int k = 0; k < 9; ++k ) R( k / 3, k % 3 ) = q( 3 * n + 9 * i + k ); return R; }
static Vector3s seg( const VectorXs& v, int k ) { return Vector3s{ v( k ), v( k + 1 ), v( k + 2 ) }; }
static void orthonormal( const Matrix33sr& R, const char* m ) { for( int i = 0; i < 3; ++i ) for( int j = i; j < 3; ++j ) vp_check_eq( R( i, 0 ) * R( j, 0 ) + R( i, 1 ) * R( j, 1 ) + R( i, 2 ) * R( j, 2 ), i == j ? 1.0 : 0.0, m ); vp_check_eq( dot3( cross3( Vector3s{ R(0,0), R(0,1), R(0,2) }, Vector3s{ R(1,0), R(1,1), R(1,2) } ), Vector3s{ R(2,0), R(2,1), R(2,2) } ), 1.0, m ); }
static void same33( const Matrix33sr& A, const Matrix33sr& B, const char* m ) { for( int k = 0; k < 9; ++k ) vp_check_eq( A( k / 3, k % 3 ), B( k / 3, k % 3 ), m ); }
static void close( double a, double b, const char* m ) { vp_check_le( a - b, 1e-9, m ); vp_check_le( b - a, 1e-9, m ); }
// explicit exponential rotation
VP_HARNESS(rot_linear)
{
  const int n = 2; RigidBody3DSim sim; Bodies b = some( n ); const int sc = vp_choose( "fx", 0, 3 ); if( sc ) b.fx[sc - 1] = true; install( sim.state(), b, ball( 1.0 ) );
  const double dt = vp_real( "dt", 0, 0.0001, 1.0 ); const Vector3s u = su3( "u", 0 ); const double sp = vp_real( "sp", 0, 0.0001, 50.0 ); b.W[0] = sp * u; b.W[1] = Vector3s::Zero();
  const VectorXs q0 = flatq( b ), v0 = flatv( b ); VectorXs q1( q0.size() ); sim.linearInertialConfigurationUpdate( q0, v0, dt, q1 );
  for( int i = 0; i < n; ++i )
  {
    if( b.fx[i] ) { eqv( seg( q1, 3 * i ), b.X[i], "scripted bodies stay where they are" ); same33( orient( q1, n, i ), b.R[i], "scripted bodies keep their orientation" ); continue; }
    eqv( seg( q1, 3 * i ), Vector3s( b.X[i] + dt * b.V[i] ), "centres move with their velocity" );
    if( i == 1 ) { same33( orient( q1, n, i ), b.R[i], "bodies that do not spin keep their orientation" ); continue; }
    const double th = sp * dt, c = std::cos( th ), s = std::sin( th ); Matrix33sr R1 = orient( q1, n, i );
    for( int k = 0; k < 3; ++k ) { const Vector3s a{ b.R[i](0,k), b.R[i](1,k), b.R[i](2,k) }; const Vector3s e = c * a + s * cross3( u, a ) + ( 1.0 - c ) * dot3( u, a ) * u; eqv( Vector3s{ R1(0,k), R1(1,k), R1(2,k) }, e, "bodies turn about their spin axis by the spin times the step" ); }
  }
  vp_cover( "end" );
}
// What both symplectic integrators share: kick, drift, kick
struct Kick { VectorXs q1, v1; Vector3s p; };
static void kickLaw( UnconstrainedMap& map, RigidBody3DSim& sim, Bodies& b, const Pull& F, double dt, Kick& out, bool lin, bool ang, bool tol = false )
{
  const int n = b.n; install( sim.state(), b, ball( 1.0 ) ); sim.state().addForce( F ); const VectorXs q0 = flatq( b ), v0 = flatv( b ); VectorXs q1( 12 * n ), v1( 6 * n ); FlowableSystem& fs = sim;
  map.flow( q0, v0, fs, unsigned( 1 + vp_choose( "it", 0, 2 ) ), dt, q1, v1 ); const VectorXs F0 = F.of( q0 ), F1 = F.of( q1 );
  for( int i = 0; i < n; ++i )
  {
    const int a = 3 * ( n + i );
    if( b.fx[i] ) { eqv( seg( q1, 3 * i ), b.X[i], "scripted bodies stay where they are" ); same33( orient( q1, n, i ), b.R[i], "scripted bodies keep their orientation" ); for( int d = 0; d < 3; ++d ) { vp_check_eq( v1( 3 * i + d ), 0.0, "scripted bodies get no velocity" ); vp_check_eq( v1( a + d ), 0.0, "scripted bodies get no velocity" ); } continue; }
    if( lin ) for( int d = 0; d < 3; ++d )
    {
      vp_check_eq( b.m[i] * ( q1( 3 * i + d ) - q0( 3 * i + d ) - dt * v0( 3 * i + d ) ), 0.5 * dt * dt * F0( 3 * i + d ), "centres advance with the velocity after half a kick" );
      vp_check_eq( b.m[i] * ( v1( 3 * i + d ) - v0( 3 * i + d ) ), 0.5 * dt * ( F0( 3 * i + d ) + F1( 3 * i + d ) ), "momentum changes by the mean force of both ends" );
    }
    if( ang )
    {
      const Matrix33sr R1 = orient( q1, n, i ); const Vector3s L = spin( b.R[i], b.I[i], b.W[i] ), T0 = seg( F0, a ), T1 = seg( F1, a );
      const Vector3s L1 = spin( R1, b.I[i], seg( v1, a ) ); if( tol ) for( int d = 0; d < 3; ++d ) close( L1( d ), L( d ) + 0.5 * dt * ( T0( d ) + T1( d ) ), "world angular momentum changes by the mean torque of both ends" ); else eqv( L1, Vector3s( L + 0.5 * dt * ( T0 + T1 ) ), "world angular momentum changes by the mean torque of both ends" );
    }
  }
  out.q1 = q1; out.v1 = v1;
}
static Pull pull( int n, bool any = true ) { VectorXs c = any ? sv( "F", 6 * n, -9, 9 ) : VectorXs( VectorXs::Zero( 6 * n ) ); return Pull{ n, c, any ? vp_real( "k", 0, -5, 5 ) : 0.0 }; }
VP_HARNESS(rot_split_lin) { RigidBody3DSim sim; Bodies b = some( 2, false ); const int sc = vp_choose( "fx", 0, 3 ); if( sc ) { b.fx[sc - 1] = true; b.V[sc - 1].setZero(); b.W[sc - 1].setZero(); } SplitHamMap m; Kick k; kickLaw( m, sim, b, pull( 2 ), vp_real( "dt", 0, 0.0001, 1.0 ), k, true, false ); vp_cover( "end" ); }
static void splitLaw( bool turned )
{
  RigidBody3DSim sim; Bodies b = some( 1, turned ); const double dt = vp_real( "dt", 0, 0.0001, 1.0 ); SplitHamMap m; Kick k; const Pull F = pull( 1 ); kickLaw( m, sim, b, F, dt, k, false, false );
  const VectorXs F0 = F.of( flatq( b ) ); Vector3s p = tv( b.R[0], Vector3s( spin( b.R[0], b.I[0], b.W[0] ) + 0.5 * dt * seg( F0, 3 ) ) ); Matrix33sr R = b.R[0]; const int ax[5] = { 2, 1, 0, 1, 2 };
  for( int s = 0; s < 5; ++s ) { const double a = ( s == 2 ? 1.0 : 0.5 ) * dt * p( ax[s] ) / b.I[0]( ax[s] ); const Matrix33sr Q = about( ax[s], a ); R = mm( R, Q ); p = tv( Q, p ); }
  same33( orient( k.q1, 1, 0 ), R, "the body turns about its principal axes z, y, x, y, z by the spin about each" ); vp_cover( "end" );
}
VP_HARNESS(rot_split_turn) { splitLaw( false ); }
VP_HARNESS(rot_split_turned) { splitLaw( true ); }
// Discrete Moser-Veselov: body spins from a list (its fixed-point iteration runs on them), everything else free
static const double SPINS[5][3] = { { 0, 0, 0 }, { 0, 0, 2 }, { 1, -2, 0.5 }, { -3, 0.25, 1 }, { 0.5, 2, -1 } }, INER[3][3] = { { 1, 1, 1 }, { 1, 2, 2.5 }, { 4, 1, 3.5 } };
static void dmvLaw( const Matrix33sr& R0, int spins, bool torque )
{
  vp_rounding( 1 );  RigidBody3DSim sim; Bodies b = some( 1, false ); b.R[0] = R0; const double dt = 0.25; const int si = vp_choose( "spin", 0, spins ), ii = vp_choose( "iner", 0, 3 );
  const Vector3s wb{ SPINS[si][0], SPINS[si][1], SPINS[si][2] }; b.I[0] = Vector3s{ INER[ii][0], INER[ii][1], INER[ii][2] }; b.W[0] = mv( R0, wb );
  DMVMap m; Kick k; VectorXs c = VectorXs::Zero( 6 ); double kk = 0.0; if( torque ) { for( int d = 0; d < 3; ++d ) { c( d ) = vp_real( "F", d, -9, 9 ); } kk = vp_real( "k", 0, -5, 5 ); for( int d = 0; d < 3; ++d ) c( 3 + d ) = -kk * b.X[0]( d ); } // no torque at the start of the step, some at its end
  kickLaw( m, sim, b, Pull{ 1, c, kk }, dt, k, true, torque, true );
  const Matrix33sr R1 = orient( k.q1, 1, 0 ); for( int i = 0; i < 3; ++i ) for( int j = i; j < 3; ++j ) close( R1( i, 0 ) * R1( j, 0 ) + R1( i, 1 ) * R1( j, 1 ) + R1( i, 2 ) * R1( j, 2 ), i == j ? 1.0 : 0.0, "orientations stay rotations" ); Matrix33sr D; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) D( i, j ) = R0( 0, i ) * R1( 0, j ) + R0( 1, i ) * R1( 1, j ) + R0( 2, i ) * R1( 2, j );
  // D J - J D' = dt [Pi]x with J = tr(I)/2 - I, the discrete Euler equation
  double J[3], t = 0.5 * ( b.I[0](0) + b.I[0](1) + b.I[0](2) ); for( int i = 0; i < 3; ++i ) J[i] = t - b.I[0]( i );
  for( int i = 0; i < 3; ++i ) { const int x = ( i + 1 ) % 3, y = ( i + 2 ) % 3; close( D( y, x ) * J[x] - J[y] * D( x, y ), dt * b.I[0]( i ) * wb( i ), "the turn solves the discrete Euler equation" ); }
  vp_cover( "end" );
}
static Matrix33sr stood() // the identity, half turns about each axis, and cyclic or quarter turns
{
  const int k = vp_choose( "turn", 0, 6 ); Matrix33sr R = eye(); if( k == 4 ) R << 0, 0, 1, 1, 0, 0, 0, 1, 0; else if( k == 5 ) R << 1, 0, 0, 0, 0, -1, 0, 1, 0; else if( k ) for( int d = 0; d < 3; ++d ) if( d != k - 1 ) R( d, d ) = -1.0; return R;
}
VP_HARNESS(rot_dmv) { dmvLaw( stood(), 5, true ); }
VP_HARNESS(rot_dmv_lin) { RigidBody3DSim sim; Bodies b = some( 2, false ); const int sc = vp_choose( "fx", 0, 3 ); if( sc ) b.fx[sc - 1] = true; for( int i = 0; i < 2; ++i ) { if( b.fx[i] ) b.V[i].setZero(); b.W[i].setZero(); } DMVMap m; Kick k; VectorXs c = sv( "F", 12, -9, 9 ); const double kk = vp_real( "k", 0, -5, 5 ); for( int j = 0; j < 6; ++j ) c( 6 + j ) = -kk * b.X[j / 3]( j % 3 ); kickLaw( m, sim, b, Pull{ 2, c, kk }, vp_real( "dt", 0, 0.0001, 1.0 ), k, true, true ); vp_cover( "end" ); }
// Projected Euler: spins and steps from a list where the orientation is projected, linear motion free
VP_HARNESS(rot_projected)
{
  vp_rounding( 1 );  RigidBody3DSim sim; Bodies b = some( 2, false ); const double dt = vp_choose( "h", 0, 2 ) ? 0.5 : 0.015625; for( int i = 0; i < 2; ++i ) { const int si = vp_choose( "spin", i, i ? 2 : 5 ), qt = vp_choose( "quarter", i, i ? 1 : 3 ); b.W[i] = Vector3s{ SPINS[si][0], SPINS[si][1], SPINS[si][2] }; if( qt ) { const int e = qt % 3, f = ( qt + 1 ) % 3; b.R[i]( e, e ) = 0.0; b.R[i]( f, f ) = 0.0; b.R[i]( e, f ) = -1.0; b.R[i]( f, e ) = 1.0; } }
  const Pull F = pull( 2 ); install( sim.state(), b, ball( 1.0 ) ); sim.state().addForce( F ); const VectorXs q0 = flatq( b ), v0 = flatv( b ); VectorXs q1( 24 ), v1( 12 ); FlowableSystem& fs = sim; ExponentialEulerMap map; map.flow( q0, v0, fs, 1, dt, q1, v1 ); const VectorXs F0 = F.of( q0 );
  for( int i = 0; i < 2; ++i )
  {
    eqv( seg( q1, 3 * i ), Vector3s( b.X[i] + dt * b.V[i] ), "centres move with their velocity" ); for( int d = 0; d < 3; ++d ) vp_check_eq( b.m[i] * ( v1( 3 * i + d ) - v0( 3 * i + d ) ), dt * F0( 3 * i + d ), "momentum changes by the force at the start of the step" );
    const Vector3s dw = seg( v1, 6 + 3 * i ) - b.W[i]; eqv( spin( b.R[i], b.I[i], dw ), Vector3s( dt * seg( F0, 6 + 3 * i ) ), "the spin changes by the torque over the inertia" );
    const Matrix33sr R1 = orient( q1, 2, i ); Matrix33sr A, S; for( int k = 0; k < 3; ++k ) { const Vector3s a{ b.R[i](0,k), b.R[i](1,k), b.R[i](2,k) }, c = a + dt * cross3( b.W[i], a ); for( int d = 0; d < 3; ++d ) A( d, k ) = c( d ); }
    for( int r = 0; r < 3; ++r ) for( int s = 0; s < 3; ++s ) { close( R1( r, 0 ) * R1( s, 0 ) + R1( r, 1 ) * R1( s, 1 ) + R1( r, 2 ) * R1( s, 2 ), r == s ? 1.0 : 0.0, "orientations stay rotations" ); S( r, s ) = R1( 0, r ) * A( 0, s ) + R1( 1, r ) * A( 1, s ) + R1( 2, r ) * A( 2, s ); }
    for( int r = 0; r < 3; ++r ) { for( int s = 0; s < r; ++s ) close( S( r, s ), S( s, r ), "the turned axes are projected to the closest rotation" ); vp_check_le( 0.5, S( r, r ), "the turned axes are projected to the closest rotation" ); }
  }
  vp_cover( "end" );
}
VP_HARNESS(rot_sim_step) // a whole step without contacts hands the state to the integrator and stores what it returns
{
  RigidBody3DSim sim; Bodies b = some( 2, false ); install( sim.state(), b, ball( 1.0 ) ); PythonScripting py; GivenMap g; Bodies e = some( 0 ); e.n = 2; for( int i = 0; i < 2; ++i ) { e.X.push_back( sv3( "y", i, -100, 100 ) ); e.V.push_back( sv3( "vv", i, -9, 9 ) ); e.W.push_back( sv3( "ww", i, -9, 9 ) ); e.R.push_back( rot( "Q", i ) ); }
  g.q = flatq( e ); g.v = flatv( e ); const int it = 1 + vp_choose( "it", 0, 3 ); sim.flow( py, unsigned( it ), Rational<std::intmax_t>{ 1, 4 }, g );
  vp_check( int( g.it ) == it, "the integrator learns the step number" ); vp_check_eq( g.dt, 0.25, "the integrator learns the step size" ); samev( sim.state().q(), g.q, "the new configuration is stored" ); samev( sim.state().v(), g.v, "the new velocity is stored" );
  for( int i = 0; i < 2; ++i ) { VectorXs w = VectorXs::Zero( 12 ); const Vector3s u = sv3( "u", i, -5, 5 ); for( int d = 0; d < 3; ++d ) w( 6 + 3 * i + d ) = u( d ); const VectorXs L = mul( sim.state().M(), w ), U = mul( sim.state().Minv(), L ); eqv( seg( L, 6 + 3 * i ), spin( e.R[i], b.I[i], u ), "inertias are turned with the bodies" ); eqv( U, w, "inverse inertias are turned with the bodies" ); }
  vp_cover( "end" );
}
