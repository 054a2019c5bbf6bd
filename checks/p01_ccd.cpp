#include "vp.h"
#include "scisim/Math/MathDefines.h"
#include "scisim/CollisionDetection/CollisionDetectionUtilities.h"
using namespace CollisionDetectionUtilities;
static void verdict( const Vector3s& c, const std::pair<bool,scalar>& r )
{
  const double s = vp_real( "s", 0, 0, 1 );
  auto p = [&]( double t ){ return c(0) + c(1) * t + c(2) * t * t; };
  if( r.first )
  {
    vp_cover( "hit" );
    const double t = r.second;
    vp_check_le( 0, t, "reported collision time is not negative" );
    vp_check_le( t, 1, "reported collision time is within the step" );
    vp_check_le( p( t ), 0, "balls touch or overlap at the reported time" );
    if( s < t ) vp_check_lt( 0, p( s ), "balls are separated at every earlier time" );
  }
  else
  {
    vp_cover( "miss" );
    vp_check_lt( 0, p( s ), "a step without reported collision is separated throughout" );
  }
}
VP_HARNESS(ccd_solve_moving)
{
  vp_divcheck( 1 );
  Vector3s c{ vp_real( "c0", 0, -1000, 1000 ), vp_real( "c1", 0, -1000, 1000 ), vp_real( "c2", 0, 0, 1000 ) };
  vp_assume( c(2) > 0 );
  verdict( c, ballBallCCDCollisionHappens( c ) );
  vp_cover( "end" );
}
VP_HARNESS(ccd_solve_static)
{
  vp_divcheck( 1 );
  Vector3s c{ vp_real( "c0", 0, -1000, 1000 ), 0.0, 0.0 };
  verdict( c, ballBallCCDCollisionHappens( c ) );
  vp_cover( "end" );
}
static void inputs( Vector2s& a0, Vector2s& a1, Vector2s& b0, Vector2s& b1, double& ra, double& rb )
{
  for( int i = 0; i < 2; ++i ) { a0[i] = vp_real( "a0", i, -100, 100 ); a1[i] = vp_real( "a1", i, -100, 100 ); b0[i] = vp_real( "b0", i, -100, 100 ); b1[i] = vp_real( "b1", i, -100, 100 ); }
  ra = vp_real( "ra", 0, 0, 100 ); rb = vp_real( "rb", 0, 0, 100 ); vp_assume( ra > 0 ); vp_assume( rb > 0 );
}
VP_HARNESS(ccd_coeffs)
{
  Vector2s a0, a1, b0, b1; double ra, rb; inputs( a0, a1, b0, b1, ra, rb );
  const Vector3s c = computeCCDQuadraticCoeffs( a0, a1, ra, b0, b1, rb );
  const double t = vp_real( "t", 0, -2, 2 );
  const Vector2s d = ( a0 + t * ( a1 - a0 ) ) - ( b0 + t * ( b1 - b0 ) );
  vp_check_eq( c(0) + t * c(1) + t * t * c(2), d(0) * d(0) + d(1) * d(1) - ( ra + rb ) * ( ra + rb ), "coefficients describe squared gap along the motion" );
  vp_cover( "end" );
}
// the position-level query answers exactly as the coefficient-level query
static void compose( const Vector2s& a0, const Vector2s& a1, double ra, const Vector2s& b0, const Vector2s& b1, double rb )
{
  const Vector3s c = computeCCDQuadraticCoeffs( a0, a1, ra, b0, b1, rb );
  const auto r0 = ballBallCCDCollisionHappens( c );
  const auto r1 = ballBallCCDCollisionHappens( a0, a1, ra, b0, b1, rb );
  vp_check( r0.first == r1.first, "position-level and coefficient-level verdict agree" );
  if( r0.first && r1.first ) vp_check_eq( r0.second, r1.second, "position-level and coefficient-level time agree" );
  vp_cover( "end" );
}
VP_HARNESS(ccd_compose_a)
{
  Vector2s a0{ vp_real( "a0", 0, -100, 100 ), 1.0 }, a1{ vp_real( "a1", 0, -100, 100 ), 3.0 }, b0{ 2.0, 5.0 }, b1{ 4.0, -3.0 };
  double ra = vp_real( "ra", 0, 0, 100 ), rb = vp_real( "rb", 0, 0, 100 ); vp_assume( ra > 0 ); vp_assume( rb > 0 );
  compose( a0, a1, ra, b0, b1, rb );
}
VP_HARNESS(ccd_compose_b)
{
  Vector2s a0{ 0.5, 1.0 }, a1{ 3.0, -2.0 }, b0{ 2.0, vp_real( "b0", 0, -100, 100 ) }, b1{ vp_real( "b1", 0, -100, 100 ), 4.0 };
  double ra = vp_real( "ra", 0, 0, 100 ), rb = vp_real( "rb", 0, 0, 100 ); vp_assume( ra > 0 ); vp_assume( rb > 0 );
  compose( a0, a1, ra, b0, b1, rb );
}
#ifdef VP_THOROUGH
VP_HARNESS(ccd_compose)
{
  Vector2s a0, a1, b0, b1; double ra, rb; inputs( a0, a1, b0, b1, ra, rb );
  compose( a0, a1, ra, b0, b1, rb );
}
#endif
