// P20: contacts between discs and boxes in the plane
#include "sys.h"
#include "rigidbody2d/CircleBoxTools.h"
#include "rigidbody2d/BoxBoxTools.h"
// an angle with rational sine and cosine, or any angle
static double turned( const char* n, const int i ) { static const int T[5][2] = { { 0, 1 }, { 1, 1 }, { 1, 3 }, { 1, 2 }, { -2, 3 } }; const int k = i ; return vp_angle( n, k, T[k][0], T[k][1] ); }
static double dt2( const Vector2s& a, const Vector2s& b ) { return a( 0 ) * b( 0 ) + a( 1 ) * b( 1 ); }
static void circleBox( const double th )
{
  const Vector2s x1 = sv2( "x", 1, -20, 20 ), r1{ vp_real( "r", 1, 0.01, 10 ), vp_real( "r", 2, 0.01, 10 ) }, x0 = sv2( "x", 0, -20, 20 ); const double r0 = vp_real( "r", 0, 0.01, 10 );
  Vector2s n{ 7, 7 }, p{ 7, 7 }; const bool on = CircleBoxTools::isActive( x0, r0, x1, th, r1, n, p );
  const double c = std::cos( th ), s = std::sin( th ); const Vector2s ex{ c, s }, ey{ -s, c }, d = x0 - x1; const double u = dt2( d, ex ), v = dt2( d, ey );
  // nearest point of the box, in its own frame
  const double a = u > r1( 0 ) ? r1( 0 ) : u < -r1( 0 ) ? -r1( 0 ) : u, b = v > r1( 1 ) ? r1( 1 ) : v < -r1( 1 ) ? -r1( 1 ) : v;
  const double gap2 = ( u - a ) * ( u - a ) + ( v - b ) * ( v - b );
  if( !on ) { vp_check_lt( r0 * r0, gap2, "discs and boxes that touch have a contact" ); vp_cover( "apart" ); return; }
  vp_check_le( gap2, r0 * r0, "discs and boxes that are apart have no contact" );
  vp_check_eq( n( 0 ) * n( 0 ) + n( 1 ) * n( 1 ), 1.0, "the normal has unit length" );
  const double nu = dt2( n, ex ), nv = dt2( n, ey ); double depth;
  if( u != a || v != b ) // centre outside: the normal points from the nearest box point to the centre
  {
    vp_check_eq( nu * ( v - b ), nv * ( u - a ), "the normal points from the box to the disc" ); vp_check_le( 0.0, nu * ( u - a ) + nv * ( v - b ), "the normal points from the box to the disc" );
    depth = nu * ( u - a ) + nv * ( v - b ) - r0; vp_cover( "outside" );
  }
  else
  {
    vp_check( ( nu == 0.0 && ( nv == 1.0 || nv == -1.0 ) ) || ( nv == 0.0 && ( nu == 1.0 || nu == -1.0 ) ), "for a centre inside the box the normal is a face normal" );
    vp_check_le( 0.0, nu * u + nv * v, "the normal points out of the nearer side" ); depth = nu == 0.0 ? nv * v - r1( 1 ) - r0 : nu * u - r1( 0 ) - r0; vp_cover( "inside" );
  }
  const double f = r0 + 0.5 * depth; vp_check_eq( p( 0 ), x0( 0 ) - f * n( 0 ), "the contact lies halfway through the overlap" ); vp_check_eq( p( 1 ), x0( 1 ) - f * n( 1 ), "the contact lies halfway through the overlap" );
}
VP_HARNESS( cb_0 ) { circleBox( turned( "a", 0 ) ); }
VP_HARNESS( cb_1 ) { circleBox( turned( "a", 1 ) ); }
VP_HARNESS( cb_2 ) { circleBox( turned( "a", 2 ) ); }
VP_HARNESS( cb_3 ) { circleBox( turned( "a", 3 ) ); }
VP_HARNESS( cb_4 ) { circleBox( turned( "a", 4 ) ); }
VP_HARNESS( cb_any ) { circleBox( vp_real( "a", 9, -9, 9 ) ); }
// ---- boxes
struct Box { Vector2s x, r, e[2]; double th; };
static Box box( const int i, const double th ) { Box b; b.x = sv2( "x", i, -20, 20 ); b.r = Vector2s{ vp_real( "r", 2 * i, 0.01, 10 ), vp_real( "r", 2 * i + 1, 0.01, 10 ) }; b.th = th; const double c = std::cos( th ), s = std::sin( th ); b.e[0] = Vector2s{ c, s }; b.e[1] = Vector2s{ -s, c }; return b; }
static double ab( const double x ) { return x < 0 ? -x : x; }
static double reach( const Box& b, const Vector2s& n ) { return b.r( 0 ) * ab( dt2( b.e[0], n ) ) + b.r( 1 ) * ab( dt2( b.e[1], n ) ); }
static bool within( const Box& b, const Vector2s& p ) { for( int k = 0; k < 2; ++k ) { const double a = dt2( p - b.x, b.e[k] ); if( a > b.r( k ) || a < -b.r( k ) ) return false; } return true; }
static void boxBox( const double t0, const double t1 )
{
  const Box A = box( 0, t0 ), B = box( 1, t1 ); Vector2s n{ 7, 7 }; std::vector<Vector2s> pts; BoxBoxTools::isActive( A.x, A.th, A.r, B.x, B.th, B.r, n, pts );
  const Vector2s d = A.x - B.x; double ov[4]; bool apart = false, grazing = false; for( int k = 0; k < 4; ++k ) { const Vector2s& e = ( k < 2 ? A : B ).e[k % 2]; ov[k] = reach( A, e ) + reach( B, e ) - ab( dt2( d, e ) ); if( ov[k] < 0 ) apart = true; if( ov[k] == 0 ) grazing = true; }
  if( pts.empty() ) { vp_check( apart, "boxes that touch have a contact" ); vp_cover( "apart" ); return; }
  vp_check( !apart, "boxes that are apart have no contact" ); vp_check( pts.size() <= 2, "at most two contacts" );
  vp_check_eq( n( 0 ) * n( 0 ) + n( 1 ) * n( 1 ), 1.0, "the normal has unit length" ); vp_check_le( 0.0, dt2( d, n ), "the normal points from the second box to the first" );
  const double mine = reach( A, n ) + reach( B, n ) - dt2( d, n ); for( int k = 0; k < 4; ++k ) vp_check_le( mine, ov[k], "the normal is the face normal of least overlap" );
  // the slab of overlap along the normal
  const double top = dt2( B.x, n ) + reach( B, n ), bottom = dt2( A.x, n ) - reach( A, n );
  bool mineA[2], mineB[2]; for( int k = 0; k < 2; ++k ) { const double a = dt2( n, A.e[k] ), b = dt2( n, B.e[k] ); mineA[k] = a == 1.0 || a == -1.0; mineB[k] = b == 1.0 || b == -1.0; }
  for( const Vector2s& p : pts )
  {
    const double h = dt2( p, n ); vp_check_le( bottom, h, "contacts lie in the overlap" ); vp_check_le( h, top, "contacts lie in the overlap" );
    // halfway between a face with this normal and the other box's boundary
    bool ok = false;
    for( int k = 0; k < 2; ++k )
    {
      if( mineA[k] ) { const double t = dt2( p - A.x, A.e[1 - k] ), g = h - bottom; ok = ok || ( t <= A.r( 1 - k ) && t >= -A.r( 1 - k ) && within( B, p + g * n ) ); }
      if( mineB[k] ) { const double t = dt2( p - B.x, B.e[1 - k] ), g = top - h; ok = ok || ( t <= B.r( 1 - k ) && t >= -B.r( 1 - k ) && within( A, p - g * n ) ); }
    }
    vp_check( ok, "contacts lie halfway between a face and the other box" );
  }
  for( int k = 0; k < 2; ++k ) for( int l = 0; l < 2; ++l ) if( mineA[k] && mineB[l] ) // parallel faces: the ends of the common edge
  {
    const Vector2s t = A.e[1 - k]; const double a = dt2( A.x, t ), b = dt2( B.x, t ), lo = std::max( a - A.r( 1 - k ), b - B.r( 1 - l ) ), hi = std::min( a + A.r( 1 - k ), b + B.r( 1 - l ) ), p = dt2( pts.front(), t ), q = dt2( pts.back(), t );
    vp_check( lo == hi ? pts.size() == 1 : pts.size() == 2, "faces that meet along an edge have two contacts" ); vp_check_eq( p < q ? p : q, lo, "the contacts are the ends of the common edge" ); vp_check_eq( p < q ? q : p, hi, "the contacts are the ends of the common edge" );
  }
  if( pts.size() == 2 ) { vp_check( pts[0] != pts[1], "contacts are distinct" ); vp_cover( "two" ); } else vp_cover( "one" );
}
VP_HARNESS( bb_00 ) { boxBox( turned( "a", 0 ), vp_angle( "b", 0, 0, 1 ) ); }
VP_HARNESS( bb_01 ) { boxBox( turned( "a", 0 ), turned( "b", 1 ) ); }
VP_HARNESS( bb_02 ) { boxBox( turned( "a", 0 ), turned( "b", 2 ) ); }
VP_HARNESS( bb_32 ) { boxBox( turned( "a", 3 ), turned( "b", 2 ) ); }
VP_HARNESS( bb_34 ) { boxBox( turned( "a", 3 ), turned( "b", 4 ) ); }
VP_HARNESS( bb_any ) { boxBox( turned( "a", 0 ), vp_real( "b", 9, -9, 9 ) ); }
