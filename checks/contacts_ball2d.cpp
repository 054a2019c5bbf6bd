#include "contact.h"
#include "ball2d/Constraints/BallBallConstraint.h"
#include "ball2d/Constraints/BallStaticDrumConstraint.h"
#include "ball2d/Constraints/BallStaticPlaneConstraint.h"
#include "ball2d/Constraints/KinematicKickBallBallConstraint.h"
#include "ball2d/StaticGeometry/StaticPlane.h"
typedef std::unique_ptr<Constraint> CP;
static const int CB = BASIC | HAS_GRAD | HAS_FRIC | HAS_NREL;
// kind: 0 ball-ball, 1 teleported, 2 kicked, 3 drum, 4 plane. Normals come from the real constructors.
struct Made { Contact c; CP k; int caps; std::unique_ptr<StaticPlane> plane; };
static void made( Made& m, int kind, int nb )
{
  Contact& c = m.c;
  makeState( c, BALL2, nb ); makeFrame( c );
  const double r0 = vp_real( "r", 0, 0, 10 ), r1 = vp_real( "r", 1, 0, 10 ); vp_assume( r0 > 0 ); vp_assume( r1 > 0 );
  m.caps = CB;
  if( kind <= 2 )
  {
    pickPair( c );
    // any centre distance d > 0 along the frame's normal
    const double d = vp_real( "d", 0, 0, 10 ); vp_assume( d > 0 );
    Vector2s x1{ c.q( 2 * c.j ), c.q( 2 * c.j + 1 ) }, x0{ x1(0) + d * c.n(0), x1(1) + d * c.n(1) };
    if( kind == 0 || kind == 2 ) { c.q( 2 * c.i ) = x0(0); c.q( 2 * c.i + 1 ) = x0(1); }
    c.ri = -r0 * c.n; c.rj = r1 * c.n;
    if( kind == 0 ) { if( vp_choose( "ctor", 0, 2 ) ) m.k.reset( new BallBallConstraint( c.i, c.j, x0, x1, r0, r1, false ) ); else m.k.reset( new BallBallConstraint( c.i, c.j, c.q, r0, r1, false ) ); }
    if( kind == 1 ) m.k.reset( new BallBallConstraint( c.i, c.j, x0, x1, r0, r1, true ) );
    if( kind == 2 ) { c.kin = Vector3s{ vp_real( "kick", 0, -10, 10 ), vp_real( "kick", 1, -10, 10 ), 0 }; m.k.reset( new KinematicKickBallBallConstraint( c.i, c.j, x0, x1, r0, r1, Vector2s{ c.kin(0), c.kin(1) }, vp_choose( "tele", 0, 2 ) == 1 ) ); }
  }
  else
  {
    c.i = nb == 1 ? 0 : vp_choose( "body", 0, nb ); c.ri = -r0 * c.n;
    if( kind == 3 )
    {
      const double d = vp_real( "d", 0, 0, 10 ); vp_assume( d > 0 );
      m.k.reset( new StaticDrumConstraint( c.i, c.q, r0, Vector2s{ c.q( 2 * c.i ) + d * c.n(0), c.q( 2 * c.i + 1 ) + d * c.n(1) }, 5 ) );
      m.caps |= HAS_DISK1;
    }
    else
    {
      const double len = vp_real( "len", 0, 0, 10 ); vp_assume( len > 0 );
      m.plane.reset( new StaticPlane( Vector2s{ vp_real( "px", 0, -10, 10 ), vp_real( "px", 1, -10, 10 ) }, Vector2s{ len * c.n(0), len * c.n(1) } ) );
      c.kin = Vector3s{ vp_real( "pv", 0, -10, 10 ), vp_real( "pv", 1, -10, 10 ), 0 };
      m.plane->v() = Vector2s{ c.kin(0), c.kin(1) };
      m.k.reset( new StaticPlaneConstraint( c.i, r0, *m.plane, 4 ) );
      m.caps |= HAS_DISK1;
    }
    vp_check( m.k->getStaticObjectIndex() == ( kind == 3 ? 5 : 4 ), "boundary contact reports which boundary" );
  }
}
#define KINDS(F) F(ball,0) F(teleported,1) F(kicked,2) F(drum,3) F(plane,4)
#define VEL(N,K) VP_HARNESS(b2_vel_##N) { Made m; made( m, K, 3 ); Sys s( m.c ); velocityLaws( m.c, *m.k, m.caps, &s ); vp_cover( "end" ); }
KINDS(VEL)
#define FRM(N,K) VP_HARNESS(b2_frame_##N) { Made m; made( m, K, 3 ); frameLaws( m.c, *m.k ); vp_cover( "end" ); }
KINDS(FRM)
#define CON(N,K) VP_HARNESS(b2_cons_##N) { Made m; made( m, K, 3 ); Sys s( m.c ); conservationLaws( m.c, *m.k, m.caps, &s, K <= 2, K == 0 ); vp_cover( "end" ); }
VP_HARNESS(b2_cons_ball) { Made m; made( m, 0, 3 ); Sys s( m.c ); conservationLaws( m.c, *m.k, m.caps, &s, true, false ); vp_check( m.k->conservesAngularMomentumUnderImpact(), "frictionless ball impact declares angular conservation" ); vp_cover( "end" ); }
VP_HARNESS(b2_cons_teleported) { Made m; made( m, 1, 3 ); Sys s( m.c ); conservationLaws( m.c, *m.k, m.caps, &s, true, false ); vp_check( !m.k->conservesAngularMomentumUnderImpact(), "contact through a portal does not declare angular conservation" ); vp_cover( "end" ); }
CON(kicked,2) CON(drum,3) CON(plane,4)
#define IMP(N,K) VP_HARNESS(b2_imp_##N) { Made m; made( m, K, 3 ); Sys s( m.c ); impactLaws( m.c, *m.k, &s ); vp_cover( "end" ); }
IMP(ball,0) IMP(teleported,1) IMP(kicked,2)
VP_HARNESS(b2_energy_ball)
{
  Made m; made( m, 0, 2 );
  VectorXs mass( 4 ); mass(0) = mass(1) = vp_real( "m", 0, 0, 1000 ); mass(2) = mass(3) = vp_real( "m", 1, 0, 1000 ); vp_assume( mass(0) > 0 ); vp_assume( mass(2) > 0 );
  impactEnergy( m.c, *m.k, mass ); vp_cover( "end" );
}
// gap, penetration and activity
VP_HARNESS(b2_gap_ball)
{
  Made m; made( m, 0, 3 );
  const double d = vp_real( "d", 0, 0, 10 ), r0 = vp_real( "r", 0, 0, 10 ), r1 = vp_real( "r", 1, 0, 10 );
  vp_check_eq( m.k->evaluateGapFunction( m.c.q ), d - r0 - r1, "ball-ball gap is centre distance minus radii" );
  const double p = m.k->penetrationDepth( m.c.q );
  vp_check_eq( p, d < r0 + r1 ? d - r0 - r1 : 0.0, "ball-ball penetration is the negative part of the gap" );
  VectorXs r = VectorXs::Constant( 3, 7.0 ); r( m.c.i ) = r0; r( m.c.j ) = r1;
  const bool act = BallBallConstraint::isActive( unsigned( m.c.i ), unsigned( m.c.j ), m.c.q, r );
  vp_check( act == ( d <= r0 + r1 ), "ball-ball contact is active exactly when the balls touch or overlap" );
  vp_check( BallBallConstraint::isActive( m.c.q.segment<2>( 2 * m.c.i ), m.c.q.segment<2>( 2 * m.c.j ), r0, r1 ) == act, "both activity queries agree" );
  vp_cover( "end" );
}
VP_HARNESS(b2_gap_plane)
{
  Made m; made( m, 4, 3 );
  const Contact& c = m.c;
  const double r0 = vp_real( "r", 0, 0, 10 );
  const double g = c.n(0) * ( c.q( 2 * c.i ) - vp_real( "px", 0, -10, 10 ) ) + c.n(1) * ( c.q( 2 * c.i + 1 ) - vp_real( "px", 1, -10, 10 ) ) - r0;
  vp_check_eq( m.k->evaluateGapFunction( c.q ), g, "ball-plane gap is plane distance minus radius" );
  vp_check_eq( m.k->penetrationDepth( c.q ), g < 0 ? g : 0.0, "ball-plane penetration is the negative part of the gap" );
  VectorXs r = VectorXs::Constant( 3, r0 );
  vp_check( StaticPlaneConstraint::isActive( c.i, c.q, r, m.plane->x(), m.plane->n() ) == ( g <= 0 ), "ball-plane contact is active exactly when the ball reaches the plane" );
  vp_check( m.plane->distanceLessThanOrEqualZero( c.q.segment<2>( 2 * c.i ), r0 ) == ( g <= 0 ), "plane proximity query agrees" );
  vp_check( m.plane->distanceLessThanZero( c.q.segment<2>( 2 * c.i ) ) == ( g + r0 < 0 ), "plane side query agrees" );
  vp_cover( "end" );
}
VP_HARNESS(b2_gap_drum)
{
  Made m; made( m, 3, 3 );
  const Contact& c = m.c;
  const double d = vp_real( "d", 0, 0, 10 ), r0 = vp_real( "r", 0, 0, 10 ), R = vp_real( "R", 0, 0, 20 ); vp_assume( R >= r0 );
  VectorXs r = VectorXs::Constant( 3, r0 );
  vp_check( StaticDrumConstraint::isActive( c.i, c.q, r, Vector2s{ c.q( 2 * c.i ) + d * c.n(0), c.q( 2 * c.i + 1 ) + d * c.n(1) }, R ) == ( d + r0 >= R ), "ball-drum contact is active exactly when the ball reaches the rim" );
  vp_cover( "end" );
}
