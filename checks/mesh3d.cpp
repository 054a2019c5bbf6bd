// P22: triangle meshes: distance field, contacts
#include "rb3d.h"
#include "rigidbody3d/Constraints/MeshMeshUtilities.h"
typedef std::unique_ptr<RigidBodyTriangleMesh> Mesh;
static Matrix33sr turn( const int w, const int x, const int y, const int z )
{
  const int s = w * w + x * x + y * y + z * z; Matrix33sr R;
  R << vp_rat( s - 2 * ( y * y + z * z ), s ), vp_rat( 2 * ( x * y - w * z ), s ), vp_rat( 2 * ( x * z + w * y ), s ), vp_rat( 2 * ( x * y + w * z ), s ), vp_rat( s - 2 * ( x * x + z * z ), s ), vp_rat( 2 * ( y * z - w * x ), s ), vp_rat( 2 * ( x * z - w * y ), s ), vp_rat( 2 * ( y * z + w * x ), s ), vp_rat( s - 2 * ( x * x + y * y ), s );
  return R;
}
static Vector3s apply( const Matrix33sr& R, const Vector3s& v ) { Vector3s o; for( int k = 0; k < 3; ++k ) o( k ) = R( k, 0 ) * v( 0 ) + R( k, 1 ) * v( 1 ) + R( k, 2 ) * v( 2 ); return o; }
static Vector3s back( const Matrix33sr& R, const Vector3s& v ) { Vector3s o; for( int k = 0; k < 3; ++k ) o( k ) = R( 0, k ) * v( 0 ) + R( 1, k ) * v( 1 ) + R( 2, k ) * v( 2 ); return o; }
struct Grid { int n[3]; double o[3], d[3]; };
static Mesh mesh( const Grid& g )
{
  Mesh m( new RigidBodyTriangleMesh ); for( int k = 0; k < 3; ++k ) { m->m_grid_origin( k ) = g.o[k]; m->m_cell_delta( k ) = g.d[k]; m->m_grid_dimensions( k ) = unsigned( g.n[k] ); m->m_grid_end( k ) = g.o[k] + ( g.n[k] - 1 ) * g.d[k]; }
  m->m_signed_distance.resize( g.n[0] * g.n[1] * g.n[2] ); return m;
}
static double& at3( Mesh& m, const Grid& g, int i, int j, int k ) { return m->m_signed_distance( ( k * g.n[1] + j ) * g.n[0] + i ); }
// the field between grid points is the trilinear one of the surrounding cell, the normal its gradient direction
static void field( const Grid& g, const int ci, const int cj, const int ck, const int top )
{
  Mesh m = mesh( g ); int q = 0; for( int k = 0; k < g.n[2]; ++k ) for( int j = 0; j < g.n[1]; ++j ) for( int i = 0; i < g.n[0]; ++i ) at3( m, g, i, j, k ) = vp_real( "sd", q++, -3, 3 );
  const int c[3] = { ci, cj, ck }; Vector3s x; double b[3]; for( int k = 0; k < 3; ++k ) { b[k] = top >> k & 1 ? 1.0 : vp_real( "b", k, 0, 1 ); if( !( top >> k & 1 ) ) vp_assume( b[k] < 1.0 ); x( k ) = g.o[k] + ( c[k] + b[k] ) * g.d[k]; }
  Vector3s n{ 7, 7, 7 }; const bool on = m->detectCollision( x, n ); double f = 0, G[3] = { 0, 0, 0 };
  for( int w = 0; w < 8; ++w ) { const int i = w & 1, j = w >> 1 & 1, k = w >> 2; const double a = i ? b[0] : 1 - b[0], e = j ? b[1] : 1 - b[1], h = k ? b[2] : 1 - b[2], s = at3( m, g, ci + i, cj + j, ck + k ); f += a * e * h * s; G[0] += ( i ? 1 : -1 ) * e * h * s; G[1] += ( j ? 1 : -1 ) * a * h * s; G[2] += ( k ? 1 : -1 ) * a * e * s; }
  for( int k = 0; k < 3; ++k ) G[k] /= g.d[k];
  if( !on ) { vp_check_lt( 0.0, f, "points inside the mesh collide" ); vp_cover( "outside" ); return; }
  vp_check_le( f, 0.0, "points outside the mesh do not collide" ); vp_cover( "inside" );
  if( !( G[0] * G[0] + G[1] * G[1] + G[2] * G[2] > 0.0 ) ) return;
  vp_check_eq( n( 0 ) * G[1], n( 1 ) * G[0], "the normal is the direction in which the distance grows" ); vp_check_eq( n( 1 ) * G[2], n( 2 ) * G[1], "the normal is the direction in which the distance grows" ); vp_check_eq( n( 0 ) * G[2], n( 2 ) * G[0], "the normal is the direction in which the distance grows" );
  vp_check_eq( n( 0 ) * n( 0 ) + n( 1 ) * n( 1 ) + n( 2 ) * n( 2 ), 1.0, "the normal has unit length" ); vp_check_le( 0.0, n( 0 ) * G[0] + n( 1 ) * G[1] + n( 2 ) * G[2], "the normal points outwards" );
}
static const Grid G2{ { 2, 2, 2 }, { -1, 0.5, 2 }, { 0.5, 1, 2 } }, G3{ { 3, 2, 4 }, { -1, 0.5, 2 }, { 0.5, 1, 2 } };
VP_HARNESS( mesh_cell ) { field( G2, 0, 0, 0, 0 ); }
VP_HARNESS( mesh_cell_a ) { field( G3, 1, 0, 1, 0 ); }
VP_HARNESS( mesh_cell_b ) { field( G3, 0, 0, 2, 0 ); }
VP_HARNESS( mesh_end_x ) { field( G3, 1, 0, 1, 1 ); }
VP_HARNESS( mesh_end_y ) { field( G3, 1, 0, 1, 2 ); }
VP_HARNESS( mesh_end ) { field( G3, 1, 0, 2, 7 ); }
// points outside the grid never collide
VP_HARNESS( mesh_outside )
{
  Mesh m = mesh( G3 ); for( int q = 0; q < 24; ++q ) m->m_signed_distance( q ) = -1.0; const Vector3s x = sv3( "x", 0, -20, 20 ); Vector3s n{ 7, 7, 7 };
  bool in = true; for( int k = 0; k < 3; ++k ) if( x( k ) < G3.o[k] || x( k ) > G3.o[k] + ( G3.n[k] - 1 ) * G3.d[k] ) in = false;
  if( in ) { vp_cover( "in" ); return; } vp_check( !m->detectCollision( x, n ), "points outside the grid do not collide" ); vp_cover( "out" );
}
// ---- two meshes whose solids are slabs below a height in their own frames
static Mesh slab( const int id, const double top, const int ns )
{
  const Grid g{ { 2, 2, 2 }, { -2, -2, -2 }, { 4, 4, 4 } }; Mesh m = mesh( g ); for( int k = 0; k < 2; ++k ) for( int j = 0; j < 2; ++j ) for( int i = 0; i < 2; ++i ) at3( m, g, i, j, k ) = ( k ? 2.0 : -2.0 ) - top;
  m->m_samples.resize( 3, ns ); for( int s = 0; s < ns; ++s ) for( int k = 0; k < 3; ++k ) m->m_samples( k, s ) = 0.25 * ( ( 7 * s + 5 * k + 3 * id ) % 9 ) - 1; return m;
}
static void pair( const Matrix33sr& R0, const Matrix33sr& R1 )
{
  const double t[2] = { 0.5, -0.25 }; const Mesh m[2] = { slab( 0, t[0], 2 ), slab( 1, t[1], 1 ) }; const Matrix33sr R[2] = { R0, R1 }; Vector3s c[2] = { sv3( "x", 0, -20, 20 ), Vector3s{} }; c[1] = c[0] + sv3( "d", 0, -6, 6 );
  std::vector<Vector3s> p, n; MeshMeshUtilities::computeActiveSet( c[0], R[0], *m[0], c[1], R[1], *m[1], p, n ); vp_check( p.size() == n.size(), "each contact has a normal" ); std::size_t w = 0;
  for( int a = 0; a < 2; ++a ) for( int s = 0; s < m[a]->m_samples.cols(); ++s )
  {
    const int b = 1 - a; const Vector3s x = apply( R[a], m[a]->m_samples.col( s ) ) + c[a], y = back( R[b], x - c[b] ); bool hit = y( 2 ) <= t[b]; for( int k = 0; k < 3; ++k ) hit = hit && y( k ) <= 2 && y( k ) >= -2;
    if( !hit ) { vp_cover( "miss" ); continue; }
    vp_check( w < p.size(), "every surface sample inside the other mesh is a contact" ); const double sg = a ? -1 : 1;
    for( int k = 0; k < 3; ++k ) { vp_check_eq( p[w]( k ), x( k ), "the contact is the surface sample" ); vp_check_eq( n[w]( k ), sg * R[b]( k, 2 ), "the normal points from the second body to the first" ); }
    ++w; vp_cover( "hit" );
  }
  vp_check( w == p.size(), "no other contacts" );
}
VP_HARNESS( mesh_pair_0 ) { pair( turn( 1, 0, 0, 0 ), turn( 3, 0, 0, 1 ) ); }
VP_HARNESS( mesh_pair_1 ) { pair( turn( 1, 1, 1, 1 ), turn( 2, 1, 0, 1 ) ); }
static Mesh hull( const int n ) { Mesh m( new RigidBodyTriangleMesh ); m->m_convex_hull_samples.resize( 3, n ); for( int k = 0; k < 3 * n; ++k ) m->m_convex_hull_samples( k % 3, k / 3 ) = vp_real( "vert", k, -5, 5 ); return m; }
// the corners of the hull that touch a plane or the wall of a drum, each once and in order
static void listed( const std::vector<unsigned>& got, const std::vector<double>& h )
{
  std::size_t w = 0; for( std::size_t i = 0; i < h.size(); ++i ) if( w < got.size() && got[w] == i ) { vp_check_le( h[i], 0.0, "a corner away from the boundary does not touch it" ); ++w; vp_cover( "touch" ); } else { vp_check_lt( 0.0, h[i], "a corner at the boundary touches it" ); vp_cover( "apart" ); }
  vp_check( w == got.size(), "each corner is listed once" );
}
VP_HARNESS( mesh_plane )
{
  const Mesh m = hull( 2 ); const Matrix33sr R = turn( 2, 1, 0, 1 ); const Vector3s x = sv3( "x", 0, -20, 20 ), o = sv3( "x", 1, -20, 20 ), n{ vp_rat( 2, 7 ), vp_rat( -3, 7 ), vp_rat( 6, 7 ) }; std::vector<unsigned> got; MeshMeshUtilities::computeMeshHalfPlaneActiveSet( x, R, *m, o, n, got );
  std::vector<double> h; for( int i = 0; i < 2; ++i ) h.push_back( dot3( n, apply( R, m->m_convex_hull_samples.col( i ) ) + x - o ) ); listed( got, h );
}
VP_HARNESS( mesh_drum )
{
  const Mesh m = hull( 2 ); const Matrix33sr R = turn( 1, 1, 1, 1 ); const Vector3s x = sv3( "x", 0, -20, 20 ), o = sv3( "x", 1, -20, 20 ), n{ vp_rat( 3, 5 ), 0, vp_rat( 4, 5 ) }; const double r = vp_real( "r", 0, 0.125, 50 ); std::vector<unsigned> got; MeshMeshUtilities::computeMeshCylinderActiveSet( x, R, *m, o, n, r, got );
  std::vector<double> h; for( int i = 0; i < 2; ++i ) { const Vector3s d = apply( R, m->m_convex_hull_samples.col( i ) ) + x - o; const double a = dot3( n, d ); h.push_back( r * r - ( dot3( d, d ) - a * a ) ); } listed( got, h );
}
