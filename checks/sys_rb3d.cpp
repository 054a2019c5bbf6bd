#include "rb3d.h"
#include "steps.h"
VP_HARNESS(r3_energy)
{
  RigidBody3DSim sim; RigidBody3DState& s = sim.state(); const int n = 2; Bodies b = some( n ); install( s, b, ball( 1.0 ) ); const Vector3s g = sv3( "g", 0, -20, 20 ), h = sv3( "g", 1, -20, 20 ); s.addForce( NearEarthGravityForce{ g } ); s.addForce( NearEarthGravityForce{ h } );
  const VectorXs v = sv( "u", 6 * n, -50, 50 ); double T = 0, U = 0; Vector3s P = Vector3s::Zero(), L = P, P2 = P, L2 = P;
  for( int i = 0; i < n; ++i )
  {
    const Vector3s v2{ v( 3 * i ), v( 3 * i + 1 ), v( 3 * i + 2 ) }, w2{ v( 3 * ( n + i ) ), v( 3 * ( n + i ) + 1 ), v( 3 * ( n + i ) + 2 ) }, J = spin( b.R[i], b.I[i], b.W[i] ), J2 = spin( b.R[i], b.I[i], w2 ); const double m = b.m[i];
    T += m * dot3( b.V[i], b.V[i] ) / 2.0 + dot3( b.W[i], J ) / 2.0; U -= m * ( dot3( g, b.X[i] ) + dot3( h, b.X[i] ) ); P += m * b.V[i]; P2 += m * v2; L += m * cross3( b.X[i], b.V[i] ) + J; L2 += m * cross3( b.X[i], v2 ) + J2;
    vp_check_eq( s.getTotalMass( unsigned( i ) ), m, "mass of each body" );
  }
  vp_check_eq( sim.computeKineticEnergy(), T, "kinetic energy is translation plus rotation" ); vp_check_eq( sim.computePotentialEnergy(), U, "potential energy is the sum over all forces" ); vp_check_eq( sim.computeTotalEnergy(), T + U, "total energy is kinetic plus potential" );
  eqv( sim.computeTotalMomentum(), P, "total momentum" ); eqv( sim.computeTotalAngularMomentum(), L, "total angular momentum about the origin" );
  VectorXs p, l; sim.computeMomentum( v, p ); sim.computeAngularMomentum( v, l ); eqv( p, P2, "momentum of a given velocity" ); eqv( l, L2, "angular momentum of a given velocity" );
  vp_cover( "end" );
}
static void massLaw( const RigidBody3DState& s, const Bodies& b )
{
  const int n = b.n; const SparseMatrixsc *A[4] = { &s.M0(), &s.Minv0(), &s.M(), &s.Minv() };
  for( int k = 0; k < 4; ++k )
  {
    vp_check( A[k]->rows() == 6 * n && A[k]->cols() == 6 * n && A[k]->nonZeros() == ( k < 2 ? 6 * n : 12 * n ), "mass matrices have one row per velocity" );
    for( int r = 0; r < 6 * n; ++r ) for( int c = 0; c < 6 * n; ++c )
    {
      double want = 0.0; const int i = ( r % ( 3 * n ) ) / 3; const double m = b.m[i]; const bool lin = r < 3 * n, same = r / 3 == c / 3; const int d = r % 3, e = c % 3; if( k == 1 || k == 3 ) { if( same && lin && d == e ) { vp_check_eq( at( *A[k], r, c ) * m, 1.0, "inverse mass" ); continue; } }
      if( same && lin && d == e ) want = m;
      if( same && !lin && k < 2 && d == e ) { if( k == 0 ) want = b.I[i]( d ); else { vp_check_eq( at( *A[k], r, c ) * b.I[i]( d ), 1.0, "inverse inertia" ); continue; } }
      if( same && !lin && k >= 2 ) for( int j = 0; j < 3; ++j ) want += b.R[i]( d, j ) * b.R[i]( e, j ) * ( k == 2 ? b.I[i]( j ) : 1.0 / b.I[i]( j ) );
      vp_check_eq( at( *A[k], r, c ), want, "mass matrices hold masses and (rotated) inertias" );
    }
  }
}
VP_HARNESS(r3_mass)
{
  RigidBody3DSim sim; RigidBody3DState& s = sim.state(); const int n = 2; Bodies b = some( n ); install( s, b, ball( 1.0 ) ); massLaw( s, b ); samev( s.q(), flatq( b ), "positions and orientations installed" ); samev( s.v(), flatv( b ), "velocities and spins installed" );
  vp_check( sim.nqdofs() == 12 * n && sim.nvdofs() == 6 * n && sim.numBodies() == unsigned( n ) && sim.ambientSpaceDimensions() == 3 && s.nbodies() == unsigned( n ), "degrees of freedom are counted" );
  // turning the bodies: the world space matrices follow, the body space ones stay
  for( int i = 0; i < n; ++i ) b.R[i] = rot( "S", i ); s.q() = flatq( b ); s.updateMandMinv(); massLaw( s, b ); vp_cover( "end" );
}
// x = c y up to the rounding of the constant
static void near( double x, double c, double y, const char* m ) { vp_check_le( x, c * ( 1 + 1e-12 ) * y, m ); vp_check_le( c * ( 1 - 1e-12 ) * y, x, m ); }
VP_HARNESS(r3_inertia)
{
  const double rho = vp_real( "rho", 0, 0.01, 100 ), a = vp_real( "a", 0, 0.01, 50 ), b = vp_real( "a", 1, 0.01, 50 ), c = vp_real( "a", 2, 0.01, 50 ); double m; Vector3s cm, I; Matrix33sr R; vp_divcheck( 1 );
  { const RigidBodySphere g{ a }; g.computeMassAndInertia( rho, m, cm, I, R ); near( g.volume(), 4.0 / 3.0 * PI_, a * a * a, "sphere volume" ); near( m, 4.0 / 3.0 * PI_, rho * a * a * a, "sphere mass" ); eqv( cm, Vector3s::Zero().eval(), "sphere centre" ); for( int d = 0; d < 3; ++d ) near( I( d ), 0.4, m * a * a, "sphere inertia" ); for( int k = 0; k < 9; ++k ) vp_check_eq( R( k / 3, k % 3 ), eye()( k / 3, k % 3 ), "sphere axes" ); }
  { const RigidBodyBox g{ Vector3s{ a, b, c } }; g.computeMassAndInertia( rho, m, cm, I, R ); vp_check_eq( g.volume(), 8.0 * a * b * c, "box volume" ); vp_check_eq( m, 8.0 * rho * a * b * c, "box mass" ); eqv( cm, Vector3s::Zero().eval(), "box centre" ); near( I( 0 ), 1.0 / 3.0, m * ( b * b + c * c ), "box inertia" ); near( I( 1 ), 1.0 / 3.0, m * ( a * a + c * c ), "box inertia" ); near( I( 2 ), 1.0 / 3.0, m * ( a * a + b * b ), "box inertia" ); for( int k = 0; k < 9; ++k ) vp_check_eq( R( k / 3, k % 3 ), eye()( k / 3, k % 3 ), "box axes" ); }
  vp_cover( "end" );
}
VP_HARNESS(r3_inertia_staple) // three solid cylinders: a bar of width w and two legs of length l
{
  const double rho = vp_real( "rho", 0, 0.01, 100 ), w = vp_real( "a", 0, 0.01, 50 ), l = vp_real( "a", 1, 0.01, 50 ), r = vp_real( "a", 2, 0.01, 5 ); double m; Vector3s cm, I; Matrix33sr R; RigidBodyStaple g{ w + 2 * r, l + 2 * r, 2 * r }; vp_divcheck( 1 );
  g.computeMassAndInertia( rho, m, cm, I, R ); const double A = rho * PI_ * r * r, mb = A * w, ml = A * l, y = l * l / ( 2 * l + w ), ax = r * r / 2.0, yl = l / 2.0 - y;
  vp_check_eq( m, mb + 2 * ml, "staple mass" ); eqv( cm, Vector3s{ 0.0, y, 0.0 }, "staple centre of mass" ); for( int k = 0; k < 9; ++k ) vp_check_eq( R( k / 3, k % 3 ), eye()( k / 3, k % 3 ), "staple axes" );
  auto tr = [&]( double L ) { return ( 3 * r * r + L * L ) / 12.0; };
  vp_check_eq( I( 0 ), mb * ( ax + y * y ) + 2 * ml * ( tr( l ) + yl * yl ), "staple inertia" ); vp_check_eq( I( 1 ), mb * tr( w ) + 2 * ml * ( ax + w * w / 4.0 ), "staple inertia" ); vp_check_eq( I( 2 ), mb * ( tr( w ) + y * y ) + 2 * ml * ( tr( l ) + yl * yl + w * w / 4.0 ), "staple inertia" );
  vp_check_eq( g.r(), r, "staple radius" ); for( int k = 0; k < 4; ++k ) eqv( g.points()[k], Vector3s{ k < 2 ? -w / 2.0 : w / 2.0, ( k == 0 || k == 3 ? l : 0.0 ) - y, 0.0 }, "staple corners about its centre of mass" );
  vp_cover( "end" );
}
VP_HARNESS(r3_gravity)
{
  RigidBody3DSim sim; RigidBody3DState& s = sim.state(); const int n = 3; Bodies b = some( n, false ); install( s, b, ball( 1.0 ) ); const Vector3s g = sv3( "g", 0, -20, 20 ); s.addForce( NearEarthGravityForce{ g } );
  const VectorXs junk = sv( "junk", 6 * n, -5, 5 ), q = flatq( b ), v = flatv( b ); VectorXs F = junk; sim.computeForce( q, v, 0.0, F );
  for( int i = 0; i < n; ++i ) for( int d = 0; d < 3; ++d ) { vp_check_eq( F( 3 * i + d ), b.m[i] * g( d ), "gravity pulls every body with mass times acceleration" ); vp_check_eq( F( 3 * ( n + i ) + d ), 0.0, "gravity exerts no torque" ); }
  const double h = vp_real( "h", 0, -1, 1 ), U0 = s.forces()[0]->computePotential( q, s.M() ); for( int k = 0; k < 3 * n; ++k ) { VectorXs y = q; y( k ) += h; vp_check_eq( s.forces()[0]->computePotential( y, s.M() ) - U0, -F( k ) * h, "gravity is the negative slope of its potential" ); }
  VectorXs G = junk; s.forces()[0]->computeForce( q, v, s.M(), G ); eqv( G - junk, F, "a force adds to the vector it is given" ); const auto c = s.forces()[0]->clone(); VectorXs H = VectorXs::Zero( 6 * n ); c->computeForce( q, v, s.M(), H ); eqv( H, F, "a cloned force acts the same" );
  // scripted bodies
  Bodies b2 = b; for( int i = 0; i < n; ++i ) b2.fx[i] = vp_choose( "fx", i, 2 ); RigidBody3DSim sim2; install( sim2.state(), b2, ball( 1.0 ) ); VectorXs Z = junk; sim2.zeroOutForcesOnFixedBodies( Z );
  for( int i = 0; i < n; ++i ) { vp_check( sim2.isKinematicallyScripted( i ) == b2.fx[i], "scripting flags" ); for( int d = 0; d < 3; ++d ) { vp_check_eq( Z( 3 * i + d ), b2.fx[i] ? 0.0 : junk( 3 * i + d ), "scripted bodies feel no force, others keep theirs" ); vp_check_eq( Z( 3 * ( n + i ) + d ), b2.fx[i] ? 0.0 : junk( 3 * ( n + i ) + d ), "scripted bodies feel no torque, others keep theirs" ); } }
  vp_cover( "end" );
}
// ---- bounding volumes
static void aabbLaw( const Array3s& lo, const Array3s& hi, const Array3s& l, const Array3s& h ) { for( int d = 0; d < 3; ++d ) { vp_check_eq( lo( d ), l( d ), "tight lower corner" ); vp_check_eq( hi( d ), h( d ), "tight upper corner" ); } }
static void extent( const Matrix33sr& R, const Vector3s& h, Array3s& e ) { for( int d = 0; d < 3; ++d ) e( d ) = std::fabs( R( d, 0 ) ) * h( 0 ) + std::fabs( R( d, 1 ) ) * h( 1 ) + std::fabs( R( d, 2 ) ) * h( 2 ); }
VP_HARNESS(r3_aabb)
{
  const Vector3s x = sv3( "x", 0, -100, 100 ), h{ vp_real( "h", 0, 0.01, 50 ), vp_real( "h", 1, 0.01, 50 ), vp_real( "h", 2, 0.01, 50 ) }; const Matrix33sr R = rot( "R", 0 ); Array3s lo, hi, e; extent( R, h, e );
  RigidBodySphere{ h( 0 ) }.computeAABB( x, R, lo, hi ); aabbLaw( lo, hi, x.array() - h( 0 ), x.array() + h( 0 ) ); RigidBodyBox{ h }.computeAABB( x, R, lo, hi ); aabbLaw( lo, hi, x.array() - e, x.array() + e ); vp_cover( "end" );
}
static std::unique_ptr<RigidBodyTriangleMesh> tetra( int nv ) { std::unique_ptr<RigidBodyTriangleMesh> m( new RigidBodyTriangleMesh ); m->m_verts.resize( 3, nv ); for( int k = 0; k < 3 * nv; ++k ) m->m_verts( k % 3, k / 3 ) = vp_real( "vert", k, -5, 5 ); return m; }
static void pointsBox( const std::vector<Vector3s>& p, const Vector3s& x, const Matrix33sr& R, double r, int d, double& l, double& h )
{
  for( size_t k = 0; k < p.size(); ++k ) { const double y = R( d, 0 ) * p[k]( 0 ) + R( d, 1 ) * p[k]( 1 ) + R( d, 2 ) * p[k]( 2 ) + x( d ); l = k ? mn( l, y - r ) : y - r; h = k ? mx( h, y + r ) : y + r; }
}
VP_HARNESS(r3_aabb_mesh)
{
  const Vector3s x = sv3( "x", 0, -100, 100 ); const Matrix33sr R = axisTurn(); const int nv = 3; const auto m = tetra( nv ); std::vector<Vector3s> p; for( int k = 0; k < nv; ++k ) p.push_back( Vector3s( m->m_verts.col( k ) ) ); const int d = vp_choose( "d", 0, 3 ); for( int k = 0; k < nv; ++k ) for( int e = 0; e < 3; ++e ) if( R( d, e ) == 0.0 ) m->m_verts( e, k ) = k;
  for( int k = 0; k < nv; ++k ) p[k] = Vector3s( m->m_verts.col( k ) ); Array3s lo, hi; m->computeAABB( x, R, lo, hi ); double l, h; pointsBox( p, x, R, 0.0, d, l, h ); vp_check_eq( lo( d ), l, "tight lower corner of a mesh" ); vp_check_eq( hi( d ), h, "tight upper corner of a mesh" ); vp_cover( "end" );
}
VP_HARNESS(r3_aabb_staple)
{
  const Vector3s x = sv3( "x", 0, -100, 100 ); const Matrix33sr R = axisTurn(); const double w = vp_real( "a", 0, 0.01, 50 ), l0 = vp_real( "a", 1, 0.01, 50 ), r = vp_real( "a", 2, 0.01, 5 ); const RigidBodyStaple g{ w + 2 * r, l0 + 2 * r, 2 * r };
  Array3s lo, hi; g.computeAABB( x, R, lo, hi ); for( int d = 0; d < 3; ++d ) { double l, h; pointsBox( g.points(), x, R, r, d, l, h ); vp_check_eq( lo( d ), l, "the box includes the staple's thickness" ); vp_check_eq( hi( d ), h, "the box includes the staple's thickness" ); } vp_cover( "end" );
}
VP_HARNESS(r3_bbox)
{
  RigidBody3DSim sim; Bodies b = some( 2, false ); const double r = vp_real( "r", 0, 0.01, 50 ); const Vector3s h{ vp_real( "h", 0, 0.01, 50 ), 2.0, vp_real( "h", 1, 0.01, 50 ) }; Geo g; g.emplace_back( new RigidBodyBox{ h } ); g.emplace_back( new RigidBodySphere{ r } ); const bool sw = vp_choose( "sw", 0, 2 ); b.gi = { sw ? 1u : 0u, sw ? 0u : 1u }; install( sim.state(), b, g );
  const int d = vp_choose( "d", 0, 3 ); double lo[2], hi[2], B[3][2], l, u; for( int i = 0; i < 2; ++i ) { const double e = ( i == 1 ) != sw ? r : h( d ); lo[i] = b.X[i]( d ) - e; hi[i] = b.X[i]( d ) + e; } l = mn( lo[0], lo[1] ); u = mx( hi[0], hi[1] );
  sim.computeBoundingBox( B[0][0], B[0][1], B[1][0], B[1][1], B[2][0], B[2][1] ); vp_check_eq( B[d][0], l, "bounding box is the union of the bodies' boxes" ); vp_check_eq( B[d][1], u, "bounding box is the union of the bodies' boxes" );
  double rad; Vector3s c; sim.computeBoundingSphere( rad, c ); double r2 = 0; for( int k = 0; k < 3; ++k ) { vp_check_eq( 2 * c( k ), B[k][0] + B[k][1], "bounding sphere is centred on the bounding box" ); r2 += ( B[k][1] - B[k][0] ) * ( B[k][1] - B[k][0] ) / 4.0; } vp_check_le( 0.0, rad, "radius is not negative" ); vp_check_eq( rad * rad, r2, "bounding sphere passes through the box corners" );
  vp_cover( "end" );
}
VP_HARNESS(r3_boundary) // leaving the simulation domain ends the program, staying inside does not
{
  RigidBody3DSim sim; RigidBody3DState& s = sim.state(); Bodies b = some( 2, false ); const double r = vp_real( "r", 0, 0.01, 5 ); install( s, b, ball( r ) ); const Vector3s lo = sv3( "lo", 0, -100, 0 ), hi = sv3( "hi", 0, 0.5, 100 ); const int mode = vp_choose( "mode", 0, 4 );
  GivenMap m; m.q = flatq( b ); m.v = flatv( b ); const int i = vp_choose( "i", 0, 2 ), d = vp_choose( "d", 0, 3 ); for( int k = 0; k < 6; ++k ) if( k != 3 * i + d ) m.q( k ) = 0.25; 
  const double L = mode == 2 ? -1.0e9 : lo( d ), H = mode == 1 ? 1.0e9 : hi( d ), x = m.q( 3 * i + d ); vp_assume( lo( 0 ) <= -5 && lo( 1 ) <= -5 && lo( 2 ) <= -5 && hi( 0 ) >= 6 && hi( 1 ) >= 6 && hi( 2 ) >= 6 );
  if( mode ) s.setBoundaryBehavior( SimBoundaryBehavior::EXIT ); if( mode != 2 ) s.setBoundaryMin( lo ); if( mode != 1 ) s.setBoundaryMax( hi );
  const bool out = mode && ( x - r < L || x + r > H ); if( out ) vp_allow_exit( 1 );
  const Rational<std::intmax_t> dt( 1, 8 ); vp_cover( out ? "out" : "in" ); takeStep( sim, vp_choose( "step", 0, 2 ) * 2, 1, dt, m ); vp_check( !out, "a step that leaves the domain ends the program" ); vp_cover( "end" );
}
// ---- checkpoint
static void planeSame( const StaticPlane& a, const StaticPlane& b ) { samev( a.x(), b.x(), "plane position restored" ); samev( a.v(), b.v(), "plane velocity restored" ); samev( a.n(), b.n(), "plane normal restored" ); samev( a.omega(), b.omega(), "plane spin restored" ); }
template<class A> static void sameMat( const A& a, const A& b, const char* m ) { vp_check( a.rows() == b.rows() && a.cols() == b.cols(), m ); for( int c = 0; c < b.cols(); ++c ) for( int r = 0; r < b.rows(); ++r ) vp_check_same( a( r, c ), b( r, c ), m ); }
static void meshSame( const RigidBodyTriangleMesh& a, const RigidBodyTriangleMesh& b )
{
  vp_check( a.m_input_file_name == b.m_input_file_name, "mesh name restored" ); sameMat( a.m_verts, b.m_verts, "mesh vertices restored" ); sameMat( a.m_samples, b.m_samples, "mesh samples restored" ); sameMat( a.m_convex_hull_samples, b.m_convex_hull_samples, "mesh hull restored" ); sameMat( a.m_R, b.m_R, "mesh axes restored" ); samev( a.m_signed_distance, b.m_signed_distance, "distance field restored" );
  vp_check( a.m_faces.cols() == b.m_faces.cols(), "mesh faces restored" ); for( int k = 0; k < 3 * b.m_faces.cols(); ++k ) vp_check( a.m_faces( k % 3, k / 3 ) == b.m_faces( k % 3, k / 3 ), "mesh faces restored" );
  samev( a.m_I_on_rho, b.m_I_on_rho, "mesh moments restored" ); samev( a.m_center_of_mass, b.m_center_of_mass, "mesh centre restored" ); samev( a.m_cell_delta, b.m_cell_delta, "grid restored" ); samev( a.m_grid_origin, b.m_grid_origin, "grid restored" ); samev( a.m_grid_end, b.m_grid_end, "grid restored" ); vp_check_same( a.m_volume, b.m_volume, "mesh volume restored" ); for( int d = 0; d < 3; ++d ) vp_check( a.m_grid_dimensions( d ) == b.m_grid_dimensions( d ), "grid restored" );
}
static std::unique_ptr<RigidBodyTriangleMesh> fullMesh()
{
  auto m = tetra( 3 ); m->m_input_file_name = "a.h5"; m->m_faces.resize( 3, 2 ); for( int k = 0; k < 6; ++k ) m->m_faces( k % 3, k / 3 ) = unsigned( vp_int( "face", k, 0, 2 ) ); m->m_volume = vp_real( "vol", 0, 0.1, 9 ); m->m_I_on_rho = sv3( "mi", 0, 0.1, 9 ); m->m_center_of_mass = sv3( "mc", 0, -9, 9 ); for( int k = 0; k < 9; ++k ) m->m_R( k % 3, k / 3 ) = vp_real( "mR", k, -1, 1 );
  m->m_samples.resize( 3, 1 ); m->m_samples.col( 0 ) = sv3( "ms", 0, -9, 9 ); m->m_convex_hull_samples.resize( 3, 2 ); m->m_convex_hull_samples.col( 0 ) = sv3( "mh", 0, -9, 9 ); m->m_convex_hull_samples.col( 1 ) = sv3( "mh", 1, -9, 9 ); m->m_cell_delta = sv3( "cd", 0, 0.1, 2 ); m->m_grid_dimensions << 1u, 2u, 3u; m->m_grid_origin = sv3( "go", 0, -9, 9 ); m->m_signed_distance = sv( "sd", 6, -9, 9 ); m->m_grid_end = sv3( "ge", 0, -9, 9 );
  return m;
}
static void full( RigidBody3DState& s, Bodies& b )
{
  Geo g; g.emplace_back( new RigidBodyBox{ sv3( "h", 0, 0.1, 9 ) } ); g.emplace_back( new RigidBodySphere{ vp_real( "r", 0, 0.1, 9 ) } ); g.emplace_back( fullMesh() ); b.gi = { 2u, 0u }; b.fx = { vp_bool( "fx", 0 ), vp_bool( "fx", 1 ) }; install( s, b, g );
  s.addForce( NearEarthGravityForce{ sv3( "g", 0, -9, 9 ) } ); s.addForce( NearEarthGravityForce{ sv3( "g", 1, -9, 9 ) } ); s.addStaticPlane( StaticPlane{ sv3( "px", 0, -9, 9 ), Vector3s{ 0.0, 1.0, 0.0 } } ); s.addStaticPlane( StaticPlane{ sv3( "px", 1, -9, 9 ), Vector3s{ 1.0, 0.0, 0.0 } } ); s.staticPlane( 0 ).v() = sv3( "pv", 0, -9, 9 ); s.staticPlane( 1 ).omega() = sv3( "pw", 0, -9, 9 );
  s.addStaticCylinder( StaticCylinder{ sv3( "cx", 0, -9, 9 ), Vector3s{ 0.0, 0.0, 1.0 }, vp_real( "cr", 0, 1, 9 ) } ); s.staticCylinder( 0 ).omega() = sv3( "cw", 0, -9, 9 ); s.m_static_cylinders[0].m_theta = vp_real( "ct", 0, -3, 3 ); s.m_static_cylinders[0].m_v = sv3( "cv", 0, -9, 9 );
  s.addPlanarPortal( PlanarPortal{ StaticPlane{ sv3( "px", 2, -9, 9 ), Vector3s{ 0.0, 1.0, 0.0 } }, StaticPlane{ sv3( "px", 3, -9, 9 ), Vector3s{ 0.0, 0.0, 1.0 } }, Array3i{ 1, -1, 1 } } );
  s.setBoundaryBehavior( vp_choose( "bb", 0, 2 ) ? SimBoundaryBehavior::EXIT : SimBoundaryBehavior::NONE ); s.setBoundaryMin( sv3( "lo", 0, -99, 0 ) ); s.setBoundaryMax( sv3( "hi", 0, 1, 99 ) );
}
static void stateSame( RigidBody3DState& t, RigidBody3DState& s )
{
  vp_check( t.nbodies() == 2 && t.fixed() == s.fixed() && t.indices() == s.indices(), "scripting flags and shapes restored" ); samev( t.q(), s.q(), "positions restored" ); samev( t.v(), s.v(), "velocities restored" ); sameSparse( t.M(), s.M(), "masses restored" ); sameSparse( t.Minv(), s.Minv(), "inverse masses restored" ); sameSparse( t.M0(), s.M0(), "body space masses restored" ); sameSparse( t.Minv0(), s.Minv0(), "body space inverse masses restored" );
  vp_check( t.ngeo() == 3 && t.geometry()[0]->getType() == RigidBodyGeometryType::BOX && t.geometry()[1]->getType() == RigidBodyGeometryType::SPHERE && t.geometry()[2]->getType() == RigidBodyGeometryType::TRIANGLE_MESH && t.numStaticPlanes() == 2 && t.numStaticCylinders() == 1 && t.numPlanarPortals() == 1 && t.forces().size() == 2, "shapes, boundaries and forces restored" );
  samev( static_cast<RigidBodyBox&>( *t.geometry()[0] ).halfWidths(), static_cast<RigidBodyBox&>( *s.geometry()[0] ).halfWidths(), "box restored" ); vp_check_same( static_cast<RigidBodySphere&>( *t.geometry()[1] ).r(), static_cast<RigidBodySphere&>( *s.geometry()[1] ).r(), "sphere restored" ); meshSame( static_cast<RigidBodyTriangleMesh&>( *t.geometry()[2] ), static_cast<RigidBodyTriangleMesh&>( *s.geometry()[2] ) );
  for( int i = 0; i < 2; ++i ) planeSame( t.staticPlane( i ), s.staticPlane( i ) ); const StaticCylinder &c = t.staticCylinder( 0 ), &c0 = s.staticCylinder( 0 ); samev( c.x(), c0.x(), "cylinder restored" ); samev( c.axis(), c0.axis(), "cylinder restored" ); samev( c.v(), c0.v(), "cylinder restored" ); samev( c.omega(), c0.omega(), "cylinder restored" ); vp_check_same( c.r(), c0.r(), "cylinder restored" ); vp_check_same( c.m_theta, c0.m_theta, "cylinder restored" );
  const PlanarPortal &p = t.planarPortal( 0 ), &p0 = s.planarPortal( 0 ); planeSame( p.planeA(), p0.planeA() ); planeSame( p.planeB(), p0.planeB() ); for( int d = 0; d < 3; ++d ) vp_check( p.m_portal_multiplier( d ) == p0.m_portal_multiplier( d ), "portal restored" );
  vp_check( t.boundaryBehavior() == s.boundaryBehavior(), "domain treatment restored" ); samev( t.boundaryMin(), s.boundaryMin(), "domain restored" ); samev( t.boundaryMax(), s.boundaryMax(), "domain restored" );
  for( int i = 0; i < 2; ++i ) { VectorXs F0 = VectorXs::Zero( 12 ), F1 = VectorXs::Zero( 12 ); s.forces()[i]->computeForce( s.q(), s.v(), s.M(), F0 ); t.forces()[i]->computeForce( s.q(), s.v(), s.M(), F1 ); eqv( F1, F0, "forces restored" ); }
}
static Set someContacts( const RigidBody3DState& s )
{
  const Vector3s n{ 0.0, 1.0, 0.0 }, o{ 0.0, 0.0, 0.0 }; Set K;
  K.emplace_back( new SphereSphereConstraint{ 0, 1, n, o, 1.0, 1.0 } ); K.emplace_back( new StaticPlaneSphereConstraint{ 0, 1.0, s.staticPlane( 1 ), 1 } ); K.emplace_back( new StaticCylinderSphereConstraint{ 0, 1.0, s.staticCylinder( 0 ), 1 } ); K.emplace_back( new KinematicSphereSphereConstraint{ 0, 1.0, n, 1, o, o, o, 1.0 } );
  K.emplace_back( new SphereSphereConstraint{ 1, 2, n, o, 1.0, 1.0 } ); K.emplace_back( new StaticPlaneSphereConstraint{ 1, 1.0, s.staticPlane( 0 ), 0 } ); K.emplace_back( new StaticCylinderSphereConstraint{ 1, 1.0, s.staticCylinder( 0 ), 0 } ); K.emplace_back( new KinematicSphereSphereConstraint{ 1, 1.0, n, 0, o, o, o, 1.0 } );
  return K;
}
VP_HARNESS(r3_checkpoint)
{
  RigidBody3DSim sim; RigidBody3DState& s = sim.state(); Bodies b = some( 2, false ); full( s, b ); const Set K = someContacts( s ); std::vector<VectorXs> c; for( int i = 0; i < 4; ++i ) { c.emplace_back( sv( ( "c" + std::to_string( i ) ).c_str(), 3, -9, 9 ) ); sim.cacheConstraint( *K[i], c[i] ); }
  Tape io; sim.serialize( io ); io.write( "Z", 1 ); RigidBody3DSim o; install( o.state(), some( 1, false ), ball( 5.0 ) ); o.state().addForce( NearEarthGravityForce{ Vector3s{ 1.0, 2.0, 3.0 } } ); o.state().addStaticPlane( s.staticPlane( 0 ) ); for( int i = 0; i < 8; ++i ) o.cacheConstraint( *K[i], c[( i + 1 ) % 4] );
  o.deserialize( io ); char z = 0; io.read( &z, 1 ); vp_check( z == 'Z', "restoring consumes exactly the checkpoint" ); stateSame( o.state(), s );
  VectorXs r( 3 ); for( int i = 0; i < 8; ++i ) { o.getCachedConstraintImpulse( *K[i], r ); if( i < 4 ) samev( r, c[i], "cached impulses restored" ); else eqv( r, VectorXs::Zero( 3 ), "no other impulses are cached after restoring" ); }
  vp_cover( "end" );
}
VP_HARNESS(r3_copy)
{
  RigidBody3DSim sim; RigidBody3DState& s = sim.state(); Bodies b = some( 2, false ); full( s, b ); RigidBody3DState ref( s ), t; t = s; stateSame( t, s ); stateSame( ref, s ); s.q().setZero(); s.v().setZero(); s.m_geometry.clear(); s.deleteStaticPlane( 0 ); s.m_planar_portals.clear(); stateSame( t, ref ); samev( t.q(), flatq( b ), "a copy does not share storage" );
  vp_check( s.numStaticPlanes() == 1, "deleting a plane removes one" ); planeSame( s.staticPlane( 0 ), t.staticPlane( 1 ) ); vp_cover( "end" );
}
VP_HARNESS(r3_mapio)
{
  std::unique_ptr<UnconstrainedMap> m; const int k = vp_choose( "k", 0, 4 ); if( k == 0 ) m.reset( new DMVMap ); else if( k == 1 ) m.reset( new SplitHamMap ); else if( k == 2 ) m.reset( new ExponentialEulerMap );
  Tape io; RigidBody3DUtilities::serialize( m, io ); io.write( "Z", 1 ); const auto r = RigidBody3DUtilities::deserializeUnconstrainedMap( io ); char z = 0; io.read( &z, 1 ); vp_check( z == 'Z', "restoring consumes exactly the checkpoint" ); vp_check( ( r == nullptr ) == ( m == nullptr ) && ( !m || m->name() == r->name() ), "the integrator is restored" ); vp_cover( "end" );
}
static void scene( RigidBody3DState& s, Bodies& b ) { install( s, b, ball( 1.0 ) ); s.addStaticPlane( StaticPlane{ Vector3s{ 0.0, 0.0, 0.0 }, Vector3s{ 0.0, 0.0, 1.0 } } ); s.addStaticPlane( StaticPlane{ Vector3s{ 0.0, 0.0, 0.0 }, Vector3s{ 1.0, 0.0, 0.0 } } ); s.addStaticCylinder( StaticCylinder{ Vector3s{ 0.0, 0.0, 0.0 }, Vector3s{ 0.0, 0.0, 1.0 }, 300.0 } ); }
VP_HARNESS(r3_cache) { RigidBody3DSim sim; Bodies b = some( 3, false ); scene( sim.state(), b ); Set K = someContacts( sim.state() ); cacheLaw( sim, K, 3 ); }
VP_HARNESS(r3_bases) { RigidBody3DSim sim; Bodies b = some( 3, false ); scene( sim.state(), b ); Set K = someContacts( sim.state() ); K.erase( K.begin() + 6 ); K.erase( K.begin() + 2 ); K.resize( 3 ); VectorXs v = flatv( b ); basesLaw( sim, flatq( b ), v, K, 3 ); }
// ---- portals
static Vector3s someNormal( const char* nm ) { double u[2]; const int k = vp_choose( nm, 0, 4 ); vp_unit2( nm, 1, u ); if( k == 0 ) { vp_assume( u[1] > -0.9 ); return Vector3s{ u[0], u[1], 0.0 }; } if( k == 1 ) { vp_assume( u[1] > -0.9 ); return Vector3s{ 0.0, u[1], u[0] }; } if( k == 2 ) return Vector3s{ u[0], 0.0, u[1] }; return Vector3s{ 0.0, 1.0, 0.0 }; }
static Array3i someMult() { return Array3i{ vp_choose( "mul", 0, 2 ) ? 1 : -1, vp_choose( "mul", 1, 2 ) ? 1 : -1, vp_choose( "mul", 2, 2 ) ? 1 : -1 }; }
VP_HARNESS(r3_portal_frame)
{
  const Vector3s n = someNormal( "na" ); const StaticPlane P{ sv3( "xa", 0, -10, 10 ), 2.0 * n }; const Vector3s N = P.n(), a = P.t0(), b = P.t1(); eqv( N, n, "the plane's normal is normalised" );
  vp_check_eq( dot3( a, a ), 1.0, "unit tangent" ); vp_check_eq( dot3( b, b ), 1.0, "unit tangent" ); vp_check_eq( dot3( a, n ), 0.0, "tangent is orthogonal to the normal" ); vp_check_eq( dot3( b, n ), 0.0, "tangent is orthogonal to the normal" ); eqv( cross3( a, n ), b, "the plane's frame is right-handed" );
  const Vector3s x = sv3( "x", 0, -20, 20 ); vp_check_eq( P.distanceToPoint( x ), dot3( x - P.x(), n ), "signed distance to a plane" ); vp_cover( "end" );
}
VP_HARNESS(r3_portal_teleport)
{
  const Vector3s xa = sv3( "xa", 0, -10, 10 ), xb = sv3( "xb", 0, -10, 10 ), na = someNormal( "na" ), nb = vp_choose( "same", 0, 2 ) ? Vector3s{ 0.0, 1.0, 0.0 } : Vector3s{ 1.0, 0.0, 0.0 }; const StaticPlane A{ xa, na }, B{ xb, nb }; const Array3i m = someMult(); const PlanarPortal P{ A, B, m }; const bool via = vp_choose( "via", 0, 2 ); const StaticPlane &S = via ? B : A, &T = via ? A : B;
  const double c[3] = { vp_real( "c", 0, -5, 5 ), vp_real( "c", 1, -5, 5 ), vp_real( "c", 2, -5, 5 ) }; const Vector3s x = S.x() + c[0] * S.n() + c[1] * S.t0() + c[2] * S.t1(); Vector3s y, z; P.teleportPoint( x, via, y );
  eqv( y, Vector3s( T.x() - m( 0 ) * c[0] * T.n() - m( 1 ) * c[1] * T.t0() - m( 2 ) * c[2] * T.t1() ), "a teleported point has its plane coordinates mirrored behind the other plane" ); P.teleportPoint( y, !via, z ); eqv( z, x, "teleporting back restores the point" );
  Vector3s w = x; if( via ) P.teleportPointThroughPlaneB( w, w ); else P.teleportPointThroughPlaneA( w, w ); eqv( w, y, "teleporting in place gives the same point" ); vp_cover( "end" );
}
VP_HARNESS(r3_portal_touch)
{
  const int oct = vp_choose( "o", 0, 9 ); const Vector3s xa = sv3( "xa", 0, -10, 10 ), xb = sv3( "xb", 0, -10, 10 ), na = oct == 8 ? Vector3s{ 0.6, 0.0, -0.8 } : Vector3s{ oct & 1 ? -0.48 : 0.48, oct & 2 ? -0.6 : 0.6, oct & 4 ? -0.64 : 0.64 }, nb = Vector3s{ 0.0, -0.8, 0.6 }; const PlanarPortal P{ StaticPlane{ xa, na }, StaticPlane{ xb, nb }, Array3i{ 1, 1, 1 } }; const Vector3s x = sv3( "x", 0, -20, 20 ), e{ vp_real( "e", 0, 0.01, 5 ), vp_real( "e", 1, 0.01, 5 ), vp_real( "e", 2, 0.01, 5 ) };
  auto reach = [&]( const Vector3s& o, const Vector3s& n ) { return dot3( x - o, n ) <= std::fabs( n( 0 ) ) * e( 0 ) + std::fabs( n( 1 ) ) * e( 1 ) + std::fabs( n( 2 ) ) * e( 2 ); }; const bool ta = reach( xa, na ), tb = reach( xb, nb ); vp_assume( !( ta && tb ) );
  bool idx = vp_bool( "i", 0 ); const bool t = P.aabbTouchesPortal( x.array() - e.array(), x.array() + e.array(), idx ); vp_check( t == ( ta || tb ), "a box touches the portal when it reaches either plane" ); vp_check( P.pointInsidePortal( x ) == ( dot3( x - xa, na ) < 0 || dot3( x - xb, nb ) < 0 ), "a point is inside the portal when it is behind either plane" );
  if( !t ) { vp_cover( "apart" ); return; } vp_check( idx == tb, "the touched plane is named" ); vp_cover( "touch" );
}
static void portalStep( int kind )
{
  const int nb = kind == 1 ? 1 : 2;
  RigidBody3DSim sim; RigidBody3DState& s = sim.state(); Bodies b = some( nb, false ); install( s, b, ball( 1.0 ) ); const double W = kind == 1 ? 6.0 : vp_real( "W", 0, 4, 10 ); const int N = vp_choose( "ax", 0, 2 ) ? 2 : 0; const Vector3s n = N ? Vector3s{ 0.0, 0.0, 1.0 } : Vector3s{ 1.0, 0.0, 0.0 }; const StaticPlane A{ -W * n, n }, B{ W * n, -n }; const PlanarPortal P{ A, B, Array3i{ 1, vp_choose( "m1", 0, 2 ) ? 1 : -1, vp_choose( "m2", 0, 2 ) ? 1 : -1 } }; s.addPlanarPortal( P );
  GivenMap m; m.q = sv( "e", 12 * nb, -7.5, 7.5 ); m.v = sv( "ev", 6 * nb, -50, 50 ); if( kind == 1 ) { m.q( 1 ) = 0.25; m.q( 2 - N ) = 0.5; s.q().head( 3 ).setZero(); } for( int i = 0; i < nb; ++i ) { m.q( 3 * i + N ) *= 1.5; for( int k = 0; k < 9; ++k ) m.q( 3 * nb + 9 * i + k ) = k % 4 == 0; }
  const Rational<std::intmax_t> dt( 1, 8 ); takeStep( sim, kind, 3, dt, m ); vp_check( m.it == 3, "the integrator is told the step number" ); vp_check_eq( m.dt, 0.125, "the integrator is told the step size" ); samev( s.v(), m.v, "velocities are unaffected by portals" );
  for( int i = 0; i < nb; ++i )
  {
    const Vector3s x{ m.q( 3 * i ), m.q( 3 * i + 1 ), m.q( 3 * i + 2 ) }, y{ s.q()( 3 * i ), s.q()( 3 * i + 1 ), s.q()( 3 * i + 2 ) }; Vector3s z = x; if( x( N ) < -W ) P.teleportPointThroughPlaneA( x, z ); else if( x( N ) > W ) P.teleportPointThroughPlaneB( x, z ); eqv( y, z, "a body that left re-enters through the other plane, others keep their position" );
    vp_check_eq( y( N ), x( N ) < -W ? x( N ) + 2 * W : x( N ) > W ? x( N ) - 2 * W : x( N ), "a body re-enters as deep as it left" ); for( int k = 0; k < 9; ++k ) vp_check_eq( s.q()( 3 * nb + 9 * i + k ), m.q( 3 * nb + 9 * i + k ), "orientations are unaffected by portals" );
  }
  vp_cover( "end" );
}
VP_HARNESS(r3_portal_step) { portalStep( 0 ); }
VP_HARNESS(r3_portal_stepimpact) { portalStep( 1 ); }
VP_HARNESS(r3_portal_stepfriction) { portalStep( 2 ); }
// ---- contacts
static void spheres( RigidBody3DSim& sim, const std::vector<Vector3s>& X, const std::vector<double>& r, const std::vector<bool>& fx )
{
  Bodies b; b.n = int( X.size() ); Geo g; for( int i = 0; i < b.n; ++i ) { b.X.push_back( X[i] ); b.V.push_back( Vector3s::Zero() ); b.W.push_back( Vector3s::Zero() ); b.I.push_back( Vector3s::Ones() ); b.m.push_back( 1.0 ); b.R.push_back( eye() ); b.gi.push_back( unsigned( i ) ); g.emplace_back( new RigidBodySphere{ r[i] } ); } b.fx = fx; install( sim.state(), b, g );
}
VP_HARNESS(r3_active_boxes) // two boxes, the second displaced along one axis
{
  RigidBody3DSim sim; const int kin = vp_choose( "kin", 0, 4 ); const double x = vp_real( "x", 0, -2.5, 2.5 ); Bodies b; b.n = 2; Geo g; const Vector3s r[2] = { Vector3s{ 1.0, 0.75, 0.5 }, Vector3s{ 0.5, 0.8125, 0.25 } };
  for( int i = 0; i < 2; ++i ) { b.X.push_back( i ? Vector3s{ x, 0.25, 0.5 } : Vector3s{ 0, 0, 0 } ); b.V.push_back( Vector3s::Zero() ); b.W.push_back( Vector3s::Zero() ); b.I.push_back( Vector3s::Ones() ); b.m.push_back( 1.0 ); b.R.push_back( eye() ); b.gi.push_back( unsigned( i ) ); g.emplace_back( new RigidBodyBox{ r[i] } ); b.fx.push_back( ( kin >> i ) % 2 == 1 ); } install( sim.state(), b, g );
  const VectorXs q1 = sim.state().q(); VectorXs q0 = q1; if( kin != 1 && kin != 3 ) q0( 1 ) -= 0.0625; const VectorXs v = sv( "v", 12, -9, 9 ); Set A; sim.computeActiveSet( q0, q1, v, A );
  const bool hit = x <= 1.5 && x >= -1.5 && kin != 3; vp_check( A.empty() == !hit, "two boxes are in contact exactly when they touch at the end of the step; two scripted ones never" ); if( !hit ) { vp_cover( "miss" ); return; }
  const double ax = x < 0 ? -x : x, dx = 1.5 - ax, dz = 0.25; vp_assume( dx != dz ); vp_check( A.size() == 4, "two aligned boxes touch in the four corners of the shared face" ); const int first = kin == 1 ? 1 : 0; const double sg = first ? -1 : 1, top = dx < dz ? ( x < 0 ? 1 : -1 ) : -1;
  double seen[4][3];
  for( unsigned k = 0; k < A.size(); ++k )
  {
    vp_check( A[k]->body0() == first && A[k]->body1() == 1 - first && A[k]->simulatedBody1() == ( kin ? -1 : 1 ), "the contact names both bodies; a scripted one comes second and is not simulated" ); VectorXs n, p; A[k]->getWorldSpaceContactNormal( q0, n );
    for( int d = 0; d < 3; ++d ) vp_check_eq( n( d ), d == ( dx < dz ? 0 : 2 ) ? sg * top : 0.0, "the normal is the direction of least overlap, towards the first body" );
    A[k]->getWorldSpaceContactPoint( q0, p ); for( int d = 0; d < 3; ++d ) seen[k][d] = p( d );
    for( int d = 0; d < 3; ++d ) { const double lo0 = -r[0]( d ), hi0 = r[0]( d ), c = d == 0 ? x : d == 1 ? 0.25 : 0.5, lo1 = c - r[1]( d ), hi1 = c + r[1]( d ), lo = mx( lo0, lo1 ), hi = mn( hi0, hi1 ); vp_check( seen[k][d] == lo || seen[k][d] == hi, "the contacts are corners of the shared region" ); }
  }
  for( unsigned k = 0; k < 4; ++k ) for( unsigned j = 0; j < k; ++j ) vp_check( ( dx == 0.0 && dx > dz ) || seen[k][0] != seen[j][0] || seen[k][1] != seen[j][1] || seen[k][2] != seen[j][2], "the contacts are distinct" );
  vp_cover( kin ? "scripted" : "hit" );
}
VP_HARNESS(r3_active_pair)
{
  RigidBody3DSim sim; const double XR = 2.0, r0 = 0.75, r1 = 0.25; const int kin = vp_choose( "kin", 0, 4 ), ax = vp_choose( "ax", 0, 3 ); Vector3s c = Vector3s::Zero(); c( ax ) = vp_real( "c", 0, -XR, XR ); c( ( ax + 1 ) % 3 ) = 0.5; Vector3s o = Vector3s::Zero(); o( ax ) = 0.25;
  spheres( sim, { o, c }, { r0, r1 }, { kin == 1 || kin == 3, kin == 2 || kin == 3 } ); const VectorXs q1 = sim.state().q(); VectorXs q0 = q1; const bool mov = vp_choose( "mov", 0, 2 ); if( mov && kin != 1 && kin != 3 ) q0( 1 ) -= 0.5; else if( mov && kin == 1 ) q0( 4 ) += 0.5;
  Vector3s a0{ q0( 0 ), q0( 1 ), q0( 2 ) }, b0{ q0( 3 ), q0( 4 ), q0( 5 ) }; const Vector3s d = o - c; vp_assume( dot3( a0 - b0, a0 - b0 ) > 0.01 ); Set A; const VectorXs v = sv( "v", 12, -9, 9 ); sim.computeActiveSet( q0, q1, v, A );
  const bool hit = dot3( d, d ) <= ( r0 + r1 ) * ( r0 + r1 ) && kin != 3; vp_check( int( A.size() ) == ( hit ? 1 : 0 ), "two spheres are in contact exactly when they touch at the end of the step; two scripted ones never" ); if( !hit ) { vp_cover( "miss" ); return; }
  const int first = kin == 1 ? 1 : 0; vp_check( A[0]->body0() == first && A[0]->body1() == 1 - first && A[0]->simulatedBody1() == ( kin ? -1 : 1 ), "the contact names both bodies; a scripted one comes second and is not simulated" );
  VectorXs n; A[0]->getWorldSpaceContactNormal( q0, n ); const Vector3s e = first ? Vector3s( b0 - a0 ) : Vector3s( a0 - b0 ); eqv( cross3( Vector3s( n ), e ), Vector3s::Zero().eval(), "the normal lies on the centre line at the start of the step" ); vp_check_le( 0.0, dot3( Vector3s( n ), e ), "the normal points to the first body" );
  VectorXs p; A[0]->getWorldSpaceContactPoint( q0, p ); const double R = first ? r1 : r0; const Vector3s xf = first ? b0 : a0; if( !kin ) eqv( Vector3s( p ), Vector3s( a0 - ( r0 / ( r0 + r1 ) ) * ( a0 - b0 ) ), "the contact point divides the centre line by the radii" ); else eqv( Vector3s( p ), Vector3s( xf - R * Vector3s( n ) ), "the contact point lies on the simulated sphere" );
  vp_cover( "hit" );
}
VP_HARNESS(r3_active_three)
{
  RigidBody3DSim sim; const double r[3] = { 0.5, 0.4, 0.7 }; const int kin = vp_choose( "kin", 0, 2 ), ax = vp_choose( "ax", 0, 3 ); std::vector<Vector3s> X( 3, Vector3s::Zero() ); X[0]( ax ) = -0.25; X[1]( ax ) = vp_real( "x", 1, -1, 1 ); X[2]( ax ) = vp_real( "x", 2, -1, 1 ); X[1]( ( ax + 1 ) % 3 ) = 0.125; X[2]( ( ax + 2 ) % 3 ) = 0.25; spheres( sim, X, { r[0], r[1], r[2] }, { kin == 1, false, false } );
  const VectorXs q = sim.state().q(); Set A; sim.computeActiveSet( q, q, VectorXs::Zero( 18 ), A ); int tot = 0;
  for( int i = 0; i < 3; ++i ) for( int j = i + 1; j < 3; ++j ) { const Vector3s d = X[i] - X[j]; const int w = dot3( d, d ) <= ( r[i] + r[j] ) * ( r[i] + r[j] ) ? 1 : 0; tot += w; int got = 0; const bool sw = kin == 1 && i == 0; for( const auto& k : A ) if( k->body0() == ( sw ? j : i ) && k->body1() == ( sw ? i : j ) ) ++got; vp_check( got == w, "each touching pair is listed exactly once" ); }
  vp_check( int( A.size() ) == tot, "nothing else is listed" ); vp_cover( "end" );
}
VP_HARNESS(r3_active_bounds) // one sphere or box and two planes, a sphere and two cylinders
{
  RigidBody3DSim sim; const bool box = vp_choose( "box", 0, 2 ), fx = vp_choose( "fx", 0, 2 ); Bodies b = some( 2, false ); const double r = vp_real( "r", 0, 0.1, 2 ); const Vector3s h{ r, vp_real( "h", 0, 0.1, 2 ), vp_real( "h", 1, 0.1, 2 ) }; Geo g; g.emplace_back( new RigidBodySphere{ r } ); g.emplace_back( new RigidBodyBox{ h } ); b.gi = { box ? 1u : 0u, box ? 1u : 0u }; b.fx = { fx, false }; b.X[1] = Vector3s{ 500.0, 500.0, 500.0 };
  if( box ) b.R[0] = axisTurn(); install( sim.state(), b, g ); RigidBody3DState& s = sim.state(); const Vector3s x0 = sv3( "px", 0, -9, 9 ), x1{ 0.0, box ? -400.0 : vp_real( "px", 4, -9, 9 ), 0.0 }; double u[2]; vp_unit2( "n", 0, u ); const Vector3s n[2] = { Vector3s{ u[0], u[1], 0.0 }, Vector3s{ 0.0, 1.0, 0.0 } }, px[2] = { x0, x1 }; vp_assume( u[0] >= 0.0 && u[1] >= 0.0 ); for( int k = 0; k < 2; ++k ) s.addStaticPlane( StaticPlane{ px[k], n[k] } );
  Bodies b0 = b; b0.X[0] = sv3( "y", 0, -9, 9 ); const VectorXs q1 = flatq( b ), q0 = flatq( b0 ); Set A; sim.computeBodyPlaneActiveSetAllPairs( q0, q1, A ); int want[2] = { 0, 0 }, got[2] = { 0, 0 };
  if( !fx ) for( int k = 0; k < 2; ++k ) { const double d = dot3( b.X[0] - px[k], n[k] ); if( !box ) want[k] = d <= r; else for( int c = 0; c < 8; ++c ) { double e = d; for( int j = 0; j < 3; ++j ) e += ( ( c >> j & 1 ) ? 1.0 : -1.0 ) * h( j ) * ( b.R[0]( 0, j ) * n[k]( 0 ) + b.R[0]( 1, j ) * n[k]( 1 ) + b.R[0]( 2, j ) * n[k]( 2 ) ); if( e <= 0.0 ) ++want[k]; } }
  for( const auto& k : A ) { vp_check( k->body0() == 0 && k->body1() == -1, "boundary contacts name the body and no partner" ); const unsigned gi = k->getStaticObjectIndex(); vp_check( gi < 2, "the boundary is identified" ); ++got[gi]; VectorXs nn; k->getWorldSpaceContactNormal( q0, nn ); eqv( nn, n[gi], "plane contact has the plane's normal" ); if( !box ) { VectorXs p; k->getWorldSpaceContactPoint( q0, p ); eqv( Vector3s( p ), Vector3s( b0.X[0] - r * n[gi] ), "a sphere touches a plane with its lowest point" ); } }
  vp_check( got[0] == want[0] && got[1] == want[1], "a plane contact is listed exactly for a sphere or box corner that touches that plane at the end of the step" ); vp_cover( box ? "box" : "sphere" );
}
VP_HARNESS(r3_active_cyl)
{
  RigidBody3DSim sim; Bodies b = some( 2, false ); const double r = vp_real( "r", 0, 0.1, 2 ); b.fx = { bool( vp_choose( "fx", 0, 2 ) ), false }; install( sim.state(), b, ball( r ) ); RigidBody3DState& s = sim.state(); const double R0 = vp_real( "R", 0, 3, 20 ); s.addStaticCylinder( StaticCylinder{ Vector3s{ 0.0, 0.0, 0.0 }, Vector3s{ 0.0, 0.0, 1.0 }, R0 } ); const Vector3s c = sv3( "c", 0, -3, 3 ); s.addStaticCylinder( StaticCylinder{ c, Vector3s{ 0.0, 1.0, 0.0 }, R0 + 1.0 } );
  vp_assume( dot3( b.X[0], b.X[0] ) <= 400.0 ); b.X[1] = Vector3s{ 0.0, 0.0, 0.0 }; const VectorXs q1 = flatq( b ); Set A; vp_assume( ( c( 0 ) * c( 0 ) + c( 2 ) * c( 2 ) ) < ( R0 + 1.0 - r ) * ( R0 + 1.0 - r ) ); sim.computeBodyCylinderActiveSetAllPairs( q1, q1, A ); int want[2] = { 0, 0 }, got[2] = { 0, 0 };
  if( !b.fx[0] ) { const Vector3s x = b.X[0]; want[0] = x( 0 ) * x( 0 ) + x( 1 ) * x( 1 ) >= ( R0 - r ) * ( R0 - r ); const Vector3s d = x - c; want[1] = d( 0 ) * d( 0 ) + d( 2 ) * d( 2 ) >= ( R0 + 1.0 - r ) * ( R0 + 1.0 - r ); }
  for( const auto& k : A ) { vp_check( k->body0() == 0 && k->body1() == -1, "boundary contacts name the body and no partner" ); const unsigned gi = k->getStaticObjectIndex(); vp_check( gi < 2, "the boundary is identified" ); ++got[gi]; VectorXs nn; k->getWorldSpaceContactNormal( q1, nn ); const Vector3s d = gi ? Vector3s( b.X[0] - c ) : b.X[0]; vp_check_eq( nn( gi ? 1 : 2 ), 0.0, "the normal is orthogonal to the axis" ); vp_check_lt( nn( 0 ) * d( 0 ) + ( gi ? nn( 2 ) * d( 2 ) : nn( 1 ) * d( 1 ) ), 0.0, "the normal points to the axis" ); }
  vp_check( got[0] == want[0] && got[1] == want[1], "a cylinder contact is listed exactly for a sphere that touches that cylinder's wall" ); vp_cover( want[0] || want[1] ? "hit" : "miss" );
}
VP_HARNESS(r3_active_portal)
{
  RigidBody3DSim sim; const double W = 3.0, r0 = 0.75, r1 = 0.5, yy = vp_choose( "y", 0, 2 ) ? 0.75 : 0.0; const int kin = vp_choose( "kin", 0, 3 ); const Vector3s x0{ vp_real( "x", 0, -3.3, 3.3 ), 0.0, 0.0 }, x1{ vp_real( "x", 1, -3.3, 3.3 ), 0.0, yy }; spheres( sim, { x0, x1 }, { r0, r1 }, { kin == 1, kin == 2 } );
  sim.state().addPlanarPortal( PlanarPortal{ StaticPlane{ Vector3s{ -W, 0.0, 0.0 }, Vector3s{ 1.0, 0.0, 0.0 } }, StaticPlane{ Vector3s{ W, 0.0, 0.0 }, Vector3s{ -1.0, 0.0, 0.0 } }, Array3i{ 1, 1, -1 } } );
  const VectorXs q = sim.state().q(); Set A; sim.computeActiveSet( q, q, VectorXs::Zero( 12 ), A ); const double dx = x0( 0 ) - x1( 0 ), h2 = ( r0 + r1 ) * ( r0 + r1 ) - yy * yy; const bool direct = dx * dx <= h2, l0 = x0( 0 ) - r0 <= -W, l1 = x1( 0 ) - r1 <= -W, R0 = x0( 0 ) + r0 >= W, R1 = x1( 0 ) + r1 >= W;
  const bool sA = ( l0 || R1 ) && ( dx + 2 * W ) * ( dx + 2 * W ) <= h2, sB = ( R0 || l1 ) && ( dx - 2 * W ) * ( dx - 2 * W ) <= h2; vp_check( int( A.size() ) == ( direct || sA || sB ? 1 : 0 ), "spheres are in contact exactly when they touch directly or through the portal, listed once" ); if( A.empty() ) { vp_cover( "miss" ); return; }
  const int first = kin == 1 ? 1 : 0; vp_check( A[0]->body0() == first && ( kin || A[0]->body1() == 1 ) && A[0]->simulatedBody1() == ( kin ? -1 : 1 ), "the contact names the bodies" ); vp_assume( dx * dx + yy * yy > 0.01 ); MatrixXXsc n; VectorXs v = VectorXs::Zero( 12 ); A[0]->computeBasis( q, v, n ); const double ex = ( dx + ( direct ? 0.0 : sA ? 2 * W : -2 * W ) ) * ( first ? -1.0 : 1.0 ), ez = first ? yy : -yy;
  vp_check_eq( n( 0, 0 ) * ez, n( 2, 0 ) * ex, "the normal lies on the line between the body and the partner's image" ); vp_check_eq( n( 1, 0 ), 0.0, "the normal lies on the line between the body and the partner's image" ); vp_check_le( 0.0, n( 0, 0 ) * ex + n( 2, 0 ) * ez, "the normal points to the first body" ); vp_cover( direct ? "direct" : "seam" );
}
