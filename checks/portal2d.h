// Laws of 2D portals, shared by ball2d and rigidbody2d (PLANE and PlanarPortal come from the including file).
#pragma once
#include "sys.h"
static Vector2s perp( const Vector2s& n ) { return Vector2s{ -n( 1 ), n( 0 ) }; }
struct Portal2 { Vector2s xa, xb, na, nb; double v, b, dx; };
// arbitrary planes; lateral period 2b (b = 0: none); the offset is set by letting the portal move for unit time
static Portal2 somePortal( bool periodic )
{
  Portal2 p{ sv2( "xa", 0, -10, 10 ), sv2( "xb", 0, -10, 10 ), su2( "na", 0 ), su2( "nb", 0 ), 0.0, 0.0, 0.0 };
  if( periodic ) { p.b = vp_real( "b", 0, 0.5, 10 ); p.dx = vp_real( "dx", 0, -10, 10 ); vp_assume( p.dx >= -p.b && p.dx < p.b ); p.v = p.dx; }
  return p;
}
static PlanarPortal mk( const Portal2& p ) { PlanarPortal r{ PLANE{ p.xa, p.na }, PLANE{ p.xb, p.nb }, p.v, p.b }; r.updateMovingPortals( 1.0 ); return r; }
static void wrapped( double got, double want, double b, const char* m ) // got - want is a multiple of 2b, |got| <= b
{
  const double d = got - want; // |d| stays below 5b in these harnesses
  vp_check_eq( d, d < -3 * b ? -4 * b : d < -b ? -2 * b : d < b ? 0.0 : d < 3 * b ? 2 * b : 4 * b, m );
  vp_check_le( got, b, m ); vp_check_le( -b, got, m );
}
static void portalTeleport( bool periodic )
{
  vp_divcheck( 1 );
  const Portal2 p = somePortal( periodic ); const PlanarPortal P = mk( p ); const bool viaB = vp_choose( "via", 0, 2 );
  const Vector2s &x0 = viaB ? p.xb : p.xa, &n0 = viaB ? p.nb : p.na, &x1 = viaB ? p.xa : p.xb, &n1 = viaB ? p.na : p.nb;
  // the point in coordinates of the plane it goes through: depth below it and offset along it
  const double dep = vp_real( "dep", 0, -5, 5 ), off = vp_real( "off", 0, -20, 20 );
  if( periodic ) vp_assume( off <= 2 * p.b && off >= -2 * p.b );
  const Vector2s x = x0 - dep * n0 + off * perp( n0 );
  Vector2s y; if( viaB ) P.teleportPointThroughPlaneB( x, y ); else P.teleportPointThroughPlaneA( x, y );
  vp_check_eq( dot2( y - x1, n1 ), dep, "a teleported point is as far inside as it was outside" );
  const double got = dot2( y - x1, perp( n1 ) );
  if( periodic ) wrapped( got, p.dx - off, p.b, "a teleported point keeps its lateral offset, shifted by the portal's motion and wrapped into the lateral period" );
  else vp_check_eq( got, -off, "a teleported point keeps its lateral offset" );
  Vector2s z; if( viaB ) P.teleportPointThroughPlaneA( y, z ); else P.teleportPointThroughPlaneB( y, z );
  vp_check_eq( dot2( z - x0, n0 ), -dep, "teleporting back restores the depth" );
  const double bk = dot2( z - x0, perp( n0 ) );
  if( periodic ) wrapped( bk, off, p.b, "teleporting back restores the offset up to the lateral period" ); else vp_check_eq( bk, off, "teleporting back restores the offset" );
  vp_cover( "end" );
}
static void portalMotion() // offset of a moving portal: distance travelled, wrapped
{
  vp_divcheck( 1 );
  const double b = vp_real( "b", 0, 0.5, 10 ), v = vp_real( "v", 0, -10, 10 ), t = vp_real( "t", 0, 0, 10 ); vp_assume( v * t <= 4 * b && v * t >= -4 * b );
  const Vector2s xa = sv2( "xa", 0, -10, 10 ), xb = sv2( "xb", 0, -10, 10 ), na{ 1.0, 0.0 }, nb{ 0.0, 1.0 };
  PlanarPortal P{ PLANE{ xa, na }, PLANE{ xb, nb }, v, b }; P.updateMovingPortals( 0.5 ); P.updateMovingPortals( t );
  const double dx = P.transformedAx()( 1 ) - xa( 1 ); wrapped( dx, v * t, b, "a moving portal is displaced by speed times time, wrapped into its period" );
  vp_check_eq( P.transformedAx()( 0 ), xa( 0 ), "a portal moves along its plane" ); vp_check_eq( P.transformedBx()( 0 ), xb( 0 ) - dx, "both planes move by the same amount" ); vp_check_eq( P.transformedBx()( 1 ), xb( 1 ), "a portal moves along its plane" );
  vp_check( P.isLeesEdwards() == ( v != 0.0 ), "a portal is moving exactly when it has a speed" ); vp_check_eq( P.bounds(), b, "lateral period kept" );
  vp_cover( "end" );
}
static void portalStatic() // no lateral period and no speed: never displaced
{
  vp_divcheck( 1 );
  const Vector2s xa = sv2( "xa", 0, -10, 10 ), xb = sv2( "xb", 0, -10, 10 ); PlanarPortal P{ PLANE{ xa, su2( "na", 0 ) }, PLANE{ xb, su2( "nb", 0 ) }, 0.0, 0.0 }; P.updateMovingPortals( vp_real( "t", 0, 0, 10 ) );
  eqv( P.transformedAx(), xa, "a static portal stays in place" ); eqv( P.transformedBx(), xb, "a static portal stays in place" ); vp_check( !P.isLeesEdwards(), "a static portal is not moving" ); vp_cover( "end" );
}
static void portalInside()
{
  const Portal2 p = somePortal( true ); const PlanarPortal P = mk( p ); const Vector2s x = sv2( "x", 0, -20, 20 ); const double da = dot2( x - p.xa, p.na ), db = dot2( x - p.xb, p.nb );
  vp_check( P.pointInsidePortal( x ) == ( da < 0.0 || db < 0.0 ), "a point is inside the portal when it is beyond either plane" );
  vp_assume( ( da < 0.0 ) != ( db < 0.0 ) ); vp_assume( dot2( p.xa - x, perp( p.na ) ) <= 2 * p.b && dot2( p.xa - x, perp( p.na ) ) >= -2 * p.b && dot2( p.xb - x, perp( p.nb ) ) <= 2 * p.b && dot2( p.xb - x, perp( p.nb ) ) >= -2 * p.b );
  const Vector2s k = P.getKinematicVelocityOfPoint( x ), w = da < 0.0 ? Vector2s( -p.v * perp( p.na ) ) : Vector2s( -p.v * perp( p.nb ) );
  eqv( k, w, "crossing a moving portal changes the velocity by its speed along the crossed plane" );
  Vector2s y, z; P.teleportPointInsidePortal( x, y ); if( da < 0.0 ) P.teleportPointThroughPlaneA( x, z ); else P.teleportPointThroughPlaneB( x, z );
  eqv( y, z, "a point inside goes through the plane it is beyond" ); vp_cover( "end" );
}
