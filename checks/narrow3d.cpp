// P21: contacts between boxes, and distances between segments, in space
#include "rb3d.h"
#include "rigidbody3d/Constraints/BoxBoxUtilities.h"
#include "rigidbody3d/Constraints/CollisionUtilities.h"
#include "rigidbody3d/Constraints/StapleStapleUtilities.h"
static double ab( const double x ) { return x < 0 ? -x : x; }
// rotation of the integer quaternion (w,x,y,z), exactly
static Matrix33sr turn( const int w, const int x, const int y, const int z )
{
  const int s = w * w + x * x + y * y + z * z; Matrix33sr R;
  R << vp_rat( s - 2 * ( y * y + z * z ), s ), vp_rat( 2 * ( x * y - w * z ), s ), vp_rat( 2 * ( x * z + w * y ), s ), vp_rat( 2 * ( x * y + w * z ), s ), vp_rat( s - 2 * ( x * x + z * z ), s ), vp_rat( 2 * ( y * z - w * x ), s ), vp_rat( 2 * ( x * z - w * y ), s ), vp_rat( 2 * ( y * z + w * x ), s ), vp_rat( s - 2 * ( x * x + y * y ), s );
  return R;
}
struct Box { Vector3s x, r, e[3]; Matrix33sr R; };
static Box box( const Vector3s& x, const Vector3s& r, const Matrix33sr& R ) { Box b; b.x = x; b.r = r; b.R = R; for( int k = 0; k < 3; ++k ) b.e[k] = Vector3s{ R( 0, k ), R( 1, k ), R( 2, k ) }; return b; }
static double reach( const Box& b, const Vector3s& n ) { double s = 0; for( int k = 0; k < 3; ++k ) s += b.r( k ) * ab( dot3( b.e[k], n ) ); return s; }
static bool along( const Vector3s& a, const Vector3s& b ) { const double c = dot3( a, b ); return c == 1.0 || c == -1.0; }
static void boxBox( const Box& A, const Box& B, const bool points )
{
  Vector3s n{ 7, 7, 7 }; std::vector<Vector3s> pts; BoxBoxUtilities::isActive( A.x, A.R, A.r, B.x, B.R, B.r, n, pts );
  const Vector3s d = A.x - B.x; bool apart = false, grazing = false; double len2[15];
  double dl[15], sum[15];
  for( int k = 0; k < 15; ++k )
  {
    const Vector3s L = k < 3 ? A.e[k] : k < 6 ? B.e[k - 3] : cross3( A.e[( k - 6 ) / 3], B.e[( k - 6 ) % 3] );
    len2[k] = dot3( L, L ); dl[k] = dot3( d, L ); sum[k] = reach( A, L ) + reach( B, L ); if( len2[k] == 0.0 ) continue; apart |= ( dl[k] > sum[k] ) | ( -dl[k] > sum[k] ); grazing |= ( dl[k] == sum[k] ) | ( -dl[k] == sum[k] );
  }
  if( pts.empty() ) { vp_check( apart || grazing, "boxes that overlap have a contact" ); vp_cover( "apart" ); return; }
  vp_check( !apart, "boxes that are apart have no contact" ); vp_check( pts.size() <= 8, "at most eight contacts" );
  vp_check_eq( dot3( n, n ), 1.0, "the normal has unit length" ); vp_check_le( 0.0, dot3( d, n ), "the normal points from the second box to the first" );
  const double mine = reach( A, n ) + reach( B, n ) - dot3( d, n );
  for( int k = 0; k < 6; ++k ) { vp_check_le( mine, sum[k] - dl[k], "the normal is one of least overlap" ); vp_check_le( mine, sum[k] + dl[k], "the normal is one of least overlap" ); }
  for( int k = 6; k < 15; ++k ) if( len2[k] != 0.0 ) { const double l = std::sqrt( len2[k] ); vp_check_le( mine * l, 1.05 * ( sum[k] - dl[k] ), "the normal is one of least overlap, up to a bias towards faces" ); vp_check_le( mine * l, 1.05 * ( sum[k] + dl[k] ), "the normal is one of least overlap, up to a bias towards faces" ); }
  bool fA = false, fB = false; for( int k = 0; k < 3; ++k ) { if( along( n, A.e[k] ) ) fA = true; if( along( n, B.e[k] ) ) fB = true; }
  const double top = dot3( B.x, n ) + reach( B, n ), bottom = dot3( A.x, n ) - reach( A, n );
  if( fA || fB )
  {
    vp_cover( "face" ); if( !points ) return;
    // each point lies on a face of one box and inside the projection of the face of the other
    for( const Vector3s& p : pts )
    {
      const double h = dot3( p, n ); vp_check_le( bottom, h, "contacts lie in the overlap" ); vp_check_le( h, top, "contacts lie in the overlap" );
      bool ok = false;
      for( int w = 0; w < 2; ++w )
      {
        const Box& F = w ? B : A; const Box& I = w ? A : B; if( !( w ? fB : fA ) ) continue; bool in = true, edge = false;
        for( int k = 0; k < 3; ++k ) { const double a = dot3( p - F.x, F.e[k] ); if( !along( n, F.e[k] ) && ( a > F.r( k ) || a < -F.r( k ) ) ) in = false; const double b = dot3( p - I.x, I.e[k] ); if( b > I.r( k ) || b < -I.r( k ) ) in = false; if( b == I.r( k ) || b == -I.r( k ) ) edge = true; }
        if( in && edge ) ok = true;
      }
      vp_check( ok, "face contacts lie on the surface of one box, over the face of the other" );
    }
    return;
  }
  vp_cover( "edge" ); vp_check( pts.size() == 1, "edges meet in one contact" ); bool ok = false; const Vector3s p = pts[0];
  for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j )
  {
    if( ok || dot3( n, A.e[i] ) != 0.0 || dot3( n, B.e[j] ) != 0.0 ) continue;
    Vector3s a = A.x, b = B.x; for( int k = 0; k < 3; ++k ) { const double sa = dot3( n, A.e[k] ) > 0 ? -1.0 : 1.0, sb = dot3( n, B.e[k] ) > 0 ? 1.0 : -1.0; if( k != i ) a += sa * A.r( k ) * A.e[k]; if( k != j ) b += sb * B.r( k ) * B.e[k]; }
    ok = true;
    vp_check_eq( dot3( p - a, cross3( A.e[i], n ) ), 0.0, "the contact lies over the edge of the first box" ); vp_check_eq( dot3( p - b, cross3( B.e[j], n ) ), 0.0, "the contact lies over the edge of the second box" );
    vp_check_eq( 2.0 * dot3( p, n ), dot3( a, n ) + dot3( b, n ), "the contact lies halfway between the edges" );
  }
  vp_check( ok, "the normal is perpendicular to an edge of each box" );
}
static void bb( const Matrix33sr& R0, const Matrix33sr& R1, const Vector3s& r0, const Vector3s& r1, const double s, const int oct, const bool points = true )
{
  Vector3s x = sv3( "x", 0, -20, 20 ), d; for( int k = 0; k < 3; ++k ) d( k ) = oct < 0 ? vp_real( "d", k, -s, s ) : ( oct >> k ) % 2 ? vp_real( "d", k, -s, 0 ) : vp_real( "d", k, 0, s );
  boxBox( box( x, r0, R0 ), box( x + d, r1, R1 ), points );
}
VP_HARNESS( bb3_aligned ) { bb( turn( 1, 0, 0, 0 ), turn( 1, 0, 0, 0 ), Vector3s{ 1, 2, 0.5 }, Vector3s{ 0.75, 0.75, 3 }, 8, -1 ); }
#define OCT( o ) VP_HARNESS( bb3_z_##o ) { bb( turn( 1, 0, 0, 0 ), turn( 3, 0, 0, 1 ), Vector3s{ 1, 2, 0.5 }, Vector3s{ 0.75, 1.5, 3 }, 8, o ); } \
VP_HARNESS( bb3_x_##o ) { bb( turn( 2, 1, 0, 0 ), turn( 1, 0, 0, 0 ), Vector3s{ 0.5, 2, 1 }, Vector3s{ 3, 0.75, 0.75 }, 8, o ); } \
VP_HARNESS( bb3_gen_##o ) { bb( turn( 1, 0, 0, 0 ), turn( 2, 1, 0, 1 ), Vector3s{ 1, 2, 0.5 }, Vector3s{ 0.75, 1.5, 3 }, 8, o ); }
OCT( 0 ) OCT( 1 ) OCT( 2 ) OCT( 3 ) OCT( 4 ) OCT( 5 ) OCT( 6 ) OCT( 7 )
// ---- segments: the returned pair is the closest pair (optimality conditions of the convex problem)
static void segs( const Vector3s& d1, const Vector3s& d2 )
{
  const Vector3s p1 = sv3( "p", 0, -20, 20 ), p2 = sv3( "p", 1, -20, 20 ); double s = 7, t = 7; Vector3s c1{ 7, 7, 7 }, c2{ 7, 7, 7 };
  const double dd = CollisionUtilities::closestPointSegmentSegment( p1, p1 + d1, p2, p2 + d2, s, t, c1, c2 );
  vp_check_le( 0.0, s, "on the first segment" ); vp_check_le( s, 1.0, "on the first segment" ); vp_check_le( 0.0, t, "on the second segment" ); vp_check_le( t, 1.0, "on the second segment" );
  for( int k = 0; k < 3; ++k ) { vp_check_eq( c1( k ), p1( k ) + s * d1( k ), "the first point is where it is said to be" ); vp_check_eq( c2( k ), p2( k ) + t * d2( k ), "the second point is where it is said to be" ); }
  const Vector3s r = c1 - c2; vp_check_eq( dd, dot3( r, r ), "the squared distance is that of the points" ); const double gs = dot3( d1, r ), gt = -dot3( d2, r );
  if( s == 0.0 ) { vp_check_le( 0.0, gs, "no closer point on the first segment" ); vp_cover( "start" ); } else if( s == 1.0 ) { vp_check_le( gs, 0.0, "no closer point on the first segment" ); vp_cover( "stop" ); } else { vp_check_eq( gs, 0.0, "no closer point on the first segment" ); vp_cover( "inner" ); }
  if( t == 0.0 ) vp_check_le( 0.0, gt, "no closer point on the second segment" ); else if( t == 1.0 ) vp_check_le( gt, 0.0, "no closer point on the second segment" ); else vp_check_eq( gt, 0.0, "no closer point on the second segment" );
}
VP_HARNESS( seg_cross ) { segs( Vector3s{ 4, 0, 0 }, Vector3s{ 0, 3, 0 } ); }
VP_HARNESS( seg_skew ) { segs( Vector3s{ 1, 2, -1 }, Vector3s{ 3, 0.5, 2 } ); }
VP_HARNESS( seg_blunt ) { segs( Vector3s{ 1, 2, -1 }, Vector3s{ -3, -0.5, -2 } ); }
VP_HARNESS( seg_same ) { segs( Vector3s{ 1, 2, -1 }, Vector3s{ 2, 4, -2 } ); }
VP_HARNESS( seg_opposed ) { segs( Vector3s{ 2, 4, -2 }, Vector3s{ -1, -2, 1 } ); }
VP_HARNESS( seg_point1 ) { segs( Vector3s{ 0, 0, 0 }, Vector3s{ 3, 0.5, 2 } ); }
VP_HARNESS( seg_point2 ) { segs( Vector3s{ 1, 2, -1 }, Vector3s{ 0, 0, 0 } ); }
VP_HARNESS( seg_points ) { segs( Vector3s{ 0, 0, 0 }, Vector3s{ 0, 0, 0 } ); }
// ---- sphere against box
static void boxSphere( const Matrix33sr& R )
{
  const Box b = box( sv3( "x", 0, -20, 20 ), sv3( "r", 0, 0.125, 10 ), R ); const Vector3s x = sv3( "x", 1, -20, 20 ); const double r = vp_real( "r", 9, 0.125, 10 ); std::vector<Vector3s> p, n;
  double u[3], g2 = 0; for( int k = 0; k < 3; ++k ) { u[k] = dot3( x - b.x, b.e[k] ); const double c = u[k] > b.r( k ) ? u[k] - b.r( k ) : u[k] < -b.r( k ) ? u[k] + b.r( k ) : 0.0; g2 += c * c; }
  vp_assume( g2 > 0.01 ); CollisionUtilities::computeBoxSphereActiveSet( b.x, R, b.r, x, r, p, n );
  vp_check( p.size() == n.size() && p.size() <= 1, "at most one contact" );
  if( p.empty() ) { vp_check_lt( r * r, g2, "spheres that reach a box have a contact" ); vp_cover( "apart" ); return; }
  vp_check_le( g2, r * r, "spheres that do not reach a box have no contact" );
  for( int k = 0; k < 3; ++k ) { const double a = dot3( p[0] - b.x, b.e[k] ), c = u[k] > b.r( k ) ? b.r( k ) : u[k] < -b.r( k ) ? -b.r( k ) : u[k]; vp_check_eq( a, c, "the contact is the point of the box nearest to the sphere" ); }
  const Vector3s d = p[0] - x; vp_check_eq( dot3( n[0], n[0] ), 1.0, "the normal has unit length" ); vp_check_le( 0.0, dot3( n[0], d ), "the normal points from the sphere to the box" ); for( int k = 0; k < 3; ++k ) vp_check_eq( cross3( n[0], d )( k ), 0.0, "the normal points from the sphere to the box" );
  vp_cover( "touch" );
}
VP_HARNESS( bs_0 ) { boxSphere( turn( 1, 0, 0, 0 ) ); }
VP_HARNESS( bs_1 ) { boxSphere( turn( 3, 0, 0, 1 ) ); }
VP_HARNESS( bs_2 ) { boxSphere( turn( 2, 1, 0, 1 ) ); }
// ---- staples
static void staplePlane( const Matrix33sr& R, const int which )
{
  const double w = vp_real( "w", 0, 0.25, 5 ), l = vp_real( "l", 0, 0.25, 5 ), r = vp_real( "r", 0, 0.0625, 0.25 ); vp_assume( r < w && r < l ); const RigidBodyStaple st{ w, l, r };
  const Vector3s x = sv3( "x", 0, -20, 20 ), o = sv3( "x", 1, -20, 20 ); const Vector3s n = which ? Vector3s{ vp_rat( 2, 7 ), vp_rat( -3, 7 ), vp_rat( 6, 7 ) } : Vector3s{ vp_rat( 3, 5 ), vp_rat( 4, 5 ), 0 }; std::vector<int> got; StapleStapleUtilities::computeStapleHalfPlaneActiveSet( x, R, st, o, n, got );
  std::size_t k = 0; for( int i = 0; i < 4; ++i ) { double h = -0.5 * r; for( int a = 0; a < 3; ++a ) h += n( a ) * ( x( a ) - o( a ) + R( a, 0 ) * st.points()[i]( 0 ) + R( a, 1 ) * st.points()[i]( 1 ) + R( a, 2 ) * st.points()[i]( 2 ) ); if( k < got.size() && got[k] == i ) { vp_check_le( h, 0.0, "a corner away from the plane does not touch it" ); ++k; vp_cover( "touch" ); } else { vp_check_lt( 0.0, h, "a corner at the plane touches it" ); vp_cover( "apart" ); } }
  vp_check( k == got.size(), "each corner is listed once" );
}
VP_HARNESS( staple_plane_0 ) { staplePlane( turn( 1, 0, 0, 0 ), 0 ); }
VP_HARNESS( staple_plane_1 ) { staplePlane( turn( 2, 1, 0, 1 ), 1 ); }
// two staples touch exactly when some pair of their bars comes within the two radii
static void staples( const Matrix33sr& R0, const Matrix33sr& R1, const int free )
{
  const RigidBodyStaple a{ 1.0, 2.0, 0.125 }, b{ 1.5, 1.0, 0.25 }; Vector3s x = sv3( "x", 0, -20, 20 ), d{ 0.25, 0.5, -0.125 }; d( free ) = vp_real( "d", 0, -8, 8 ); d( ( free + 1 ) % 3 ) = vp_real( "d", 1, -8, 8 ); const Vector3s y = x + d;
  const bool on = StapleStapleUtilities::isActive( x, R0, a, y, R1, b ); bool near = false;
  for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) { double s, t; Vector3s c, e; const double q = CollisionUtilities::closestPointSegmentSegment( R0 * a.points()[i] + x, R0 * a.points()[i + 1] + x, R1 * b.points()[j] + y, R1 * b.points()[j + 1] + y, s, t, c, e ); if( q <= 0.03515625 ) near = true; }
  vp_check( on == near, "staples touch exactly when a pair of bars does" ); vp_cover( on ? "touch" : "apart" );
}
VP_HARNESS( staples_0 ) { staples( turn( 1, 0, 0, 0 ), turn( 1, 0, 0, 0 ), 0 ); }
VP_HARNESS( staples_1 ) { staples( turn( 1, 0, 0, 0 ), turn( 1, 1, 1, 1 ), 1 ); }
