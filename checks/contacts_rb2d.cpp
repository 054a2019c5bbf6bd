#include "contact.h"
#include "rigidbody2d/CircleCircleConstraint.h"
#include "rigidbody2d/BodyBodyConstraint.h"
#include "rigidbody2d/KinematicKickCircleCircleConstraint.h"
#include "rigidbody2d/KinematicObjectCircleConstraint.h"
#include "rigidbody2d/StaticPlaneBodyConstraint.h"
#include "rigidbody2d/StaticPlaneCircleConstraint.h"
#include "rigidbody2d/TeleportedCircleCircleConstraint.h"
#include "rigidbody2d/RigidBody2DStaticPlane.h"
#include <cmath>
typedef std::unique_ptr<Constraint> CP;
struct Made { Contact c; CP k; int caps; std::unique_ptr<RigidBody2DStaticPlane> plane; };
static Vector2s d2( const Vector3s& x ) { return Vector2s{ x(0), x(1) }; }
// 0 circle-circle, 1 body-body, 2 teleported, 3 kicked, 4 kinematic circle, 5 plane-body, 6 plane-circle
static void made( Made& m, int kind, int nb )
{
  Contact& c = m.c;
  makeState( c, RB2, nb ); makeFrame( c );
  const double r0 = vp_real( "r", 0, 0, 10 ), r1 = vp_real( "r", 1, 0, 10 ); vp_assume( r0 > 0 ); vp_assume( r1 > 0 );
  m.caps = BASIC;
  if( kind <= 3 ) pickPair( c ); else c.i = nb == 1 ? 0 : vp_choose( "body", 0, nb );
  const Vector3s xi = xpos( c, c.i ), xj = c.j >= 0 ? xpos( c, c.j ) : Vector3s{ 0, 0, 0 };
  if( kind == 0 )
  {
    // contact point on the line of centres, any depth
    const double a = vp_real( "a", 0, 0, 10 ), b = vp_real( "a", 1, 0, 10 );
    for( int d = 0; d < 2; ++d ) c.q( 3 * c.j + d ) = xi( d ) - ( a + b ) * c.n( d );
    c.ri = -a * c.n; c.rj = b * c.n;
    m.k.reset( new CircleCircleConstraint( c.i, c.j, d2( c.n ), d2( xi - a * c.n ), r0, r1 ) );
    m.caps |= HAS_GRAD | HAS_FRIC | HAS_NREL;
  }
  if( kind == 1 )
  {
    const Vector3s p{ vp_real( "p", 0, -100, 100 ), vp_real( "p", 1, -100, 100 ), 0 };
    c.ri = p - xi; c.rj = p - xj;
    m.k.reset( new BodyBodyConstraint( c.i, c.j, d2( p ), d2( c.n ), c.q ) );
  }
  if( kind == 2 || kind == 3 )
  {
    const double d = vp_real( "d", 0, 0, 10 ); vp_assume( d > 0 );
    const Vector3s y1{ vp_real( "y", 0, -10, 10 ), vp_real( "y", 1, -10, 10 ), 0 }, y0 = y1 + d * c.n;
    c.ri = -( r0 / ( r0 + r1 ) * d ) * c.n; c.rj = ( r1 / ( r0 + r1 ) * d ) * c.n;
    if( kind == 2 ) m.k.reset( new TeleportedCircleCircleConstraint( c.i, c.j, d2( y0 ), d2( y1 ), r0, r1, d2( y0 - xi ), d2( y1 - xj ), r0, r1 ) );
    else
    {
      c.kin = Vector3s{ vp_real( "kick", 0, -10, 10 ), vp_real( "kick", 1, -10, 10 ), 0 };
      m.k.reset( new KinematicKickCircleCircleConstraint( c.i, c.j, d2( y0 ), d2( y1 ), r0, r1, d2( c.kin ) ) );
    }
    m.caps = ( m.caps | HAS_GRAD | HAS_NREL ) & ~HAS_NORMAL;
  }
  if( kind == 4 )
  {
    const Vector3s X{ vp_real( "X", 0, -10, 10 ), vp_real( "X", 1, -10, 10 ), 0 }, U{ vp_real( "U", 0, -10, 10 ), vp_real( "U", 1, -10, 10 ), 0 };
    const double w = vp_real( "W", 0, -10, 10 );
    c.bj = c.i == 0 ? nb - 1 : 0; c.ri = -r0 * c.n;
    c.kin = U + cr( Vector3s{ 0, 0, w }, xi + c.ri - X );
    m.k.reset( new KinematicObjectCircleConstraint( c.i, r0, d2( c.n ), c.bj, d2( X ), d2( U ), w ) );
    m.caps |= HAS_GRAD | HAS_NREL;
  }
  if( kind >= 5 )
  {
    const Vector3s X{ vp_real( "X", 0, -10, 10 ), vp_real( "X", 1, -10, 10 ), 0 };
    m.plane.reset( new RigidBody2DStaticPlane( d2( X ), d2( c.n ) ) );
    if( kind == 5 )
    {
      const double a0 = vp_real( "arm", 0, -10, 10 ), a1 = vp_real( "arm", 1, -10, 10 ), th = c.q( 3 * c.i + 2 );
      const double C = std::cos( th ), S = std::sin( th );
      c.ri = Vector3s{ C * a0 - S * a1, S * a0 + C * a1, 0 };
      m.k.reset( new StaticPlaneBodyConstraint( c.i, Vector2s{ a0, a1 }, *m.plane, 3 ) );
    }
    else
    {
      const Vector3s U{ vp_real( "U", 0, -10, 10 ), vp_real( "U", 1, -10, 10 ), 0 }; const double w = vp_real( "W", 0, -10, 10 );
      m.plane->setV( d2( U ) ); m.plane->setOmega( w );
      c.ri = -r0 * c.n;
      c.kin = U + cr( Vector3s{ 0, 0, w }, xi + c.ri - X );
      m.k.reset( new StaticPlaneCircleConstraint( c.i, 3, r0, *m.plane ) );
      m.caps |= HAS_GRAD | HAS_NREL;
    }
    vp_check( m.k->getStaticObjectIndex() == 3, "boundary contact reports which boundary" );
  }
}
#define KINDS(F) F(circles,0) F(bodies,1) F(teleported,2) F(kicked,3) F(scripted,4) F(planebody,5) F(planecircle,6)
#define VEL(N,K) VP_HARNESS(r2_vel_##N) { Made m; made( m, K, 3 ); Sys s( m.c ); velocityLaws( m.c, *m.k, m.caps, &s ); vp_cover( "end" ); }
KINDS(VEL)
#define FRM(N,K) VP_HARNESS(r2_frame_##N) { Made m; made( m, K, 3 ); frameLaws( m.c, *m.k ); vp_cover( "end" ); }
KINDS(FRM)
#define CON(N,K) VP_HARNESS(r2_cons_##N) { Made m; made( m, K, 3 ); Sys s( m.c ); conservationLaws( m.c, *m.k, m.caps, &s, K <= 3, K <= 1 ); if( K <= 1 ) vp_check( m.k->conservesAngularMomentumUnderImpact() && m.k->conservesAngularMomentumUnderImpactAndFriction(), "body-body contact declares angular conservation" ); vp_cover( "end" ); }
KINDS(CON)
VP_HARNESS(r2_gap)
{
  Made m; made( m, 0, 2 );
  const double r0 = vp_real( "r", 0, 0, 10 ), r1 = vp_real( "r", 1, 0, 10 ), d = vp_real( "a", 0, 0, 10 ) + vp_real( "a", 1, 0, 10 );
  vp_check_eq( m.k->penetrationDepth( m.c.q ), d < r0 + r1 ? d - r0 - r1 : 0.0, "circle-circle penetration is the negative part of the gap" );
  vp_check( CircleCircleConstraint::isActive( d2( xpos( m.c, 0 ) ), d2( xpos( m.c, 1 ) ), r0, r1 ) == ( d <= r0 + r1 ), "circle-circle contact is active exactly when the circles touch or overlap" );
  vp_cover( "end" );
}
VP_HARNESS(r2_gap_teleported)
{
  Made m; made( m, 2, 3 );
  const double r0 = vp_real( "r", 0, 0, 10 ), r1 = vp_real( "r", 1, 0, 10 ), d = vp_real( "d", 0, 0, 10 );
  vp_check_eq( m.k->penetrationDepth( m.c.q ), d < r0 + r1 ? d - r0 - r1 : 0.0, "penetration through a portal is measured between the periodic images" );
  vp_cover( "end" );
}
VP_HARNESS(r2_gap_plane)
{
  Made m; made( m, 6, 3 );
  const Contact& c = m.c; const double r0 = vp_real( "r", 0, 0, 10 );
  const Vector3s X{ vp_real( "X", 0, -10, 10 ), vp_real( "X", 1, -10, 10 ), 0 };
  const double g = dt( c.n, xpos( c, c.i ) - X );
  vp_check_eq( m.k->penetrationDepth( c.q ), g < r0 ? g - r0 : 0.0, "circle-plane penetration is the negative part of the gap" );
  vp_check( StaticPlaneCircleConstraint::isActive( d2( xpos( c, c.i ) ), r0, *m.plane ) == ( g <= r0 ), "circle-plane contact is active exactly when the circle reaches the plane" );
  vp_check_eq( m.plane->distanceToPoint( d2( xpos( c, c.i ) ) ), g, "signed plane distance" );
  vp_check( m.plane->distanceLessThanZero( d2( xpos( c, c.i ) ) ) == ( g < 0 ), "plane side query agrees" );
  vp_cover( "end" );
}
