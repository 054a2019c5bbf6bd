// P22: volume, centre and inertia of closed triangle meshes
#include "sys.h"
#include "rigidbody3d/Geometry/MomentTools.h"
namespace vpeig { Eigen::Matrix3d input, vectors; Eigen::Vector3d values; int calls = 0; }
struct Tet { int v[4]; };
// a mesh of the boundary of some tetrahedra, one vertex free; the moments are the sums over the tetrahedra
static void moments( const int nv, const double ( *at )[3], const std::vector<std::array<int,3>>& faces, const std::vector<Tet>& tets, const int free, const int mirror ) // free: bit mask of vertices
{
  Matrix3Xsc V( 3, nv ); for( int i = 0; i < nv; ++i ) for( int k = 0; k < 3; ++k ) V( k, i ) = free >> i & 1 ? at[i][k] + vp_real( "v", 3 * i + k, -0.125, 0.125 ) : at[i][k];
  Matrix3Xuc F( 3, faces.size() ); for( std::size_t i = 0; i < faces.size(); ++i ) for( int k = 0; k < 3; ++k ) F( k, i ) = unsigned( faces[i][k] );
  vpeig::calls = 0; vpeig::values << vp_real( "I", 0, 0.1, 9 ), vp_real( "I", 1, 0.1, 9 ), vp_real( "I", 2, 0.1, 9 ); const double s = mirror ? -1 : 1; vpeig::vectors << s * vp_rat( 2, 7 ), vp_rat( 3, 7 ), vp_rat( 6, 7 ), s * vp_rat( 3, 7 ), vp_rat( -6, 7 ), vp_rat( 2, 7 ), s * vp_rat( 6, 7 ), vp_rat( 2, 7 ), vp_rat( -3, 7 );
  double m = 7; Vector3s I{ 7, 7, 7 }, c{ 7, 7, 7 }; Matrix3s R; R.setConstant( 7 ); MomentTools::computeMoments( V, F, m, I, c, R );
  double vol = 0, S[3] = { 0, 0, 0 }, Q[3][3] = { { 0, 0, 0 }, { 0, 0, 0 }, { 0, 0, 0 } };
  for( const Tet& t : tets )
  {
    Vector3s p[4], sum{ 0, 0, 0 }; for( int i = 0; i < 4; ++i ) { p[i] = V.col( t.v[i] ); sum += p[i]; }
    const double v = dot3( p[1] - p[0], cross3( p[2] - p[0], p[3] - p[0] ) ) * vp_rat( 1, 6 ); vol += v;
    for( int a = 0; a < 3; ++a ) { S[a] += v * sum( a ) * 0.25; for( int b = 0; b < 3; ++b ) { double q = sum( a ) * sum( b ); for( int i = 0; i < 4; ++i ) q += p[i]( a ) * p[i]( b ); Q[a][b] += v * q * vp_rat( 1, 20 ); } }
  }
  vp_check_eq( m, vol, "the volume is that of the solid" ); for( int k = 0; k < 3; ++k ) vp_check_eq( c( k ) * vol, S[k], "the centre is that of the solid" );
  vp_check( vpeig::calls == 1, "the inertia is diagonalised" );
  const double tr = Q[0][0] + Q[1][1] + Q[2][2], cc = ( S[0] * S[0] + S[1] * S[1] + S[2] * S[2] );
  for( int a = 0; a < 3; ++a ) for( int b = 0; b < 3; ++b ) { const double e = ( a == b ? tr : 0.0 ) - Q[a][b], sh = ( a == b ? cc : 0.0 ) - S[a] * S[b]; vp_check_eq( vpeig::input( a, b ) * vol, e * vol - sh, "the inertia is that of the solid about its centre" ); }
  for( int k = 0; k < 3; ++k ) { vp_check_eq( I( k ), vpeig::values( k ), "the principal moments are returned" ); bool same = true, flip = true; for( int j = 0; j < 3; ++j ) { if( R( j, k ) != vpeig::vectors( j, k ) ) same = false; if( R( j, k ) != -vpeig::vectors( j, k ) ) flip = false; } vp_check( same || flip, "the principal axes are returned" ); }
  const Vector3s r0 = R.col( 0 ), r1 = R.col( 1 ), r2 = R.col( 2 ); vp_check_eq( dot3( r0, cross3( r1, r2 ) ), 1.0, "the principal axes are right-handed" ); vp_cover( "end" );
}
static const double A4[4][3] = { { 0.25, -0.5, 0.125 }, { 2, 0.25, -0.25 }, { 0.5, 1.5, 0.375 }, { 0.75, 0.5, 2.5 } };
static const double A5[5][3] = { { 0.25, -0.5, 0.125 }, { 2, 0.25, -0.25 }, { 0.5, 1.5, 0.375 }, { 0.75, 0.5, 2.5 }, { 1, 0.25, -3 } };
static const std::vector<std::array<int,3>> F4{ { 0, 2, 1 }, { 0, 1, 3 }, { 1, 2, 3 }, { 2, 0, 3 } }, F5{ { 0, 1, 3 }, { 1, 2, 3 }, { 2, 0, 3 }, { 1, 0, 4 }, { 4, 2, 1 }, { 0, 2, 4 } };
VP_HARNESS( mom_tet_0 ) { moments( 4, A4, F4, { { { 0, 1, 2, 3 } } }, 1, 0 ); }
VP_HARNESS( mom_tet_1 ) { moments( 4, A4, F4, { { { 0, 1, 2, 3 } } }, 2, 1 ); }
VP_HARNESS( mom_tet_2 ) { moments( 4, A4, F4, { { { 0, 1, 2, 3 } } }, 4, 0 ); }
VP_HARNESS( mom_tet_3 ) { moments( 4, A4, F4, { { { 0, 1, 2, 3 } } }, 8, 1 ); }
VP_HARNESS( mom_two ) { moments( 5, A5, F5, { { { 0, 1, 2, 3 } }, { { 0, 2, 1, 4 } } }, 2, 0 ); }
VP_HARNESS( mom_tet_01 ) { moments( 4, A4, F4, { { { 0, 1, 2, 3 } } }, 3, 0 ); }
VP_HARNESS( mom_tet_23 ) { moments( 4, A4, F4, { { { 0, 1, 2, 3 } } }, 12, 1 ); }
VP_HARNESS( mom_two_34 ) { moments( 5, A5, F5, { { { 0, 1, 2, 3 } }, { { 0, 2, 1, 4 } } }, 24, 0 ); }
VP_HARNESS( mom_tet_all ) { moments( 4, A4, F4, { { { 0, 1, 2, 3 } } }, 15, 0 ); }
