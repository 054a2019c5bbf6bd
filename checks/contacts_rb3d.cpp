#include "contact.h"
#include "rigidbody3d/Constraints/SphereSphereConstraint.h"
#include "rigidbody3d/Constraints/BodyBodyConstraint.h"
#include "rigidbody3d/Constraints/KinematicObjectBodyConstraint.h"
#include "rigidbody3d/Constraints/KinematicObjectSphereConstraint.h"
#include "rigidbody3d/Constraints/StaticCylinderBodyConstraint.h"
#include "rigidbody3d/Constraints/StaticCylinderSphereConstraint.h"
#include "rigidbody3d/Constraints/StaticPlaneBodyConstraint.h"
#include "rigidbody3d/Constraints/StaticPlaneBoxConstraint.h"
#include "rigidbody3d/Constraints/StaticPlaneSphereConstraint.h"
#include "rigidbody3d/Constraints/TeleportedSphereSphereConstraint.h"
#include "rigidbody3d/StaticGeometry/StaticPlane.h"
#include "rigidbody3d/StaticGeometry/StaticCylinder.h"
#include "rigidbody3d/Constraints/FrictionUtilities.h"
typedef std::unique_ptr<Constraint> CP;
struct Made { Contact c; CP k; int caps; std::unique_ptr<StaticPlane> plane; std::unique_ptr<StaticCylinder> cyl; };
static Vector3s rv( const char* n ) { return Vector3s{ vp_real( n, 0, -10, 10 ), vp_real( n, 1, -10, 10 ), vp_real( n, 2, -10, 10 ) }; }
// 0 spheres, 1 bodies, 2 teleported, 3 plane-body, 4 plane-box, 5 plane-sphere, 6 cylinder-sphere, 7 cylinder-body, 8 scripted-body, 9 scripted-sphere
static void made( Made& m, int kind, int nb, int simple = 0, int rest = 0 )
{
  Contact& c = m.c;
  makeState( c, RB3, nb );
  if( simple == 2 ) { double u[3]; vp_unit3( "n", 0, u ); c.n = Vector3s{ u[0], u[1], u[2] }; c.s.setZero(); c.t.setZero(); }
  else if( simple ) { double u[2]; vp_unit2( "n", 0, u ); c.n = Vector3s{ u[0], 0.0, u[1] }; c.s = Vector3s{ 0, 1, 0 }; c.t = cr( c.n, c.s ); } else makeFrame( c );
  if( rest == 1 ) for( int k = 0; k < 3 * nb; ++k ) c.q( k ) = 0.0;
  const double r0 = vp_real( "r", 0, 0, 10 ), r1 = vp_real( "r", 1, 0, 10 ); vp_assume( r0 > 0 ); vp_assume( r1 > 0 );
  m.caps = BASIC | HAS_GRAD | HAS_FRIC | HAS_NREL;
  if( kind <= 2 ) pickPair( c ); else c.i = nb == 1 ? 0 : vp_choose( "body", 0, nb );
  const Vector3s xi = xpos( c, c.i ), xj = c.j >= 0 ? xpos( c, c.j ) : Vector3s{ 0, 0, 0 };
  if( kind == 0 )
  {
    const double a = vp_real( "a", 0, 0, 10 ), b = vp_real( "a", 1, 0, 10 );
    for( int d = 0; d < 3; ++d ) c.q( 3 * c.j + d ) = xi( d ) - ( a + b ) * c.n( d );
    c.ri = -a * c.n; c.rj = b * c.n;
    m.k.reset( new SphereSphereConstraint( c.i, c.j, c.n, xi - a * c.n, r0, r1 ) );
  }
  if( kind == 1 )
  {
    const Vector3s p = rest == 1 ? Vector3s{ 1, 2, 3 } : rv( "p" );
    c.ri = p - xi; c.rj = p - xj;
    m.k.reset( new BodyBodyConstraint( c.i, c.j, p, c.n, c.q ) );
  }
  if( kind == 2 )
  {
    const double d = vp_real( "d", 0, 0, 10 ); vp_assume( d > 0 );
    const Vector3s y1 = rv( "y" ), y0 = y1 + d * c.n;
    c.ri = -( r0 / ( r0 + r1 ) * d ) * c.n; c.rj = ( r1 / ( r0 + r1 ) * d ) * c.n;
    m.k.reset( new TeleportedSphereSphereConstraint( c.i, c.j, y0, y1, r0, r1 ) );
  }
  if( kind == 3 ) { const Vector3s p = rest == 1 ? Vector3s{ 1, 2, 3 } : rv( "p" ); c.ri = p - xi; m.k.reset( new StaticPlaneBodyConstraint( c.i, p, c.n, c.q, 3 ) ); }
  if( kind == 4 )
  {
    // any orientation of the box; row-major rotation block of the configuration
    double h[4]; vp_quat( "R", 0, h ); const double x = h[0], y = h[1], z = h[2], w = h[3];
    const double R[9] = { 1 - 2 * ( y * y + z * z ), 2 * ( x * y - w * z ), 2 * ( x * z + w * y ), 2 * ( x * y + w * z ), 1 - 2 * ( x * x + z * z ), 2 * ( y * z - w * x ), 2 * ( x * z - w * y ), 2 * ( y * z + w * x ), 1 - 2 * ( x * x + y * y ) };
    for( int k = 0; k < 9; ++k ) c.q( 3 * nb + 9 * c.i + k ) = R[k];
    const Vector3s hw{ r0, r1, vp_real( "r", 2, 0, 10 ) };
    const int corner = vp_choose( "corner", 0, 8 );
    const double bx = corner & 1 ? hw(0) : -hw(0), by = corner & 2 ? hw(1) : -hw(1), bz = corner & 4 ? hw(2) : -hw(2);
    for( int k = 0; k < 3; ++k ) c.ri( k ) = R[3 * k] * bx + R[3 * k + 1] * by + R[3 * k + 2] * bz;
    m.k.reset( new StaticPlaneBoxConstraint( c.i, corner, c.n, hw, c.q, 3 ) );
  }
  if( kind == 5 )
  {
    const double len = vp_real( "len", 0, 0, 10 ); vp_assume( len > 0 );
    m.plane.reset( new StaticPlane( rv( "X" ), Vector3s{ len * c.n } ) );
    if( rest != 1 ) { m.plane->v() = rv( "U" ); m.plane->omega() = rv( "W" ); }
    c.ri = -r0 * c.n;
    const Vector3s d = xi - rv( "X" ), foot = d - dt( c.n, d ) * c.n;
    if( rest != 1 ) c.kin = rv( "U" ) + cr( rv( "W" ), foot );
    m.k.reset( new StaticPlaneSphereConstraint( c.i, r0, *m.plane, 3 ) );
  }
  if( kind == 6 || kind == 7 )
  {
    // axis = frame tangent t, the body sits at distance d from the axis on the side opposite the normal
    const double d = vp_real( "d", 0, 0, 10 ), h = vp_real( "h", 0, -10, 10 ); vp_assume( d > 0 );
    const double R = vp_real( "R", 0, 0, 100 ); vp_assume( R > 0 );
    const double len = kind == 6 ? 2.0 : 1.0;
    m.cyl.reset( new StaticCylinder( xi + d * c.n + h * c.t, len * c.t, R ) );
    if( kind == 6 )
    {
      if( rest != 1 ) { m.cyl->omega() = rv( "W" ); m.cyl->m_v = rv( "U" ); }
      c.ri = -r0 * c.n;
      // the point of the cylinder wall nearest the sphere, relative to the cylinder's reference point
      const Vector3s arm = -R * c.n - h * c.t;
      if( rest != 1 ) c.kin = rv( "U" ) + cr( rv( "W" ), arm );
      m.k.reset( new StaticCylinderSphereConstraint( c.i, r0, *m.cyl, 3 ) );
    }
    else
    {
      const Vector3s p = rest == 1 ? Vector3s{ 1, 2, 3 } : rv( "p" ); c.ri = p - xi;
      m.k.reset( new StaticCylinderBodyConstraint( c.i, p, *m.cyl, 3, c.q ) );
      m.caps = HAS_H;
    }
  }
  if( kind == 8 ) { const Vector3s p = rest == 1 ? Vector3s{ 1, 2, 3 } : rv( "p" ); c.ri = p - xi; c.bj = c.i == 0 ? nb - 1 : 0; m.k.reset( new KinematicObjectBodyConstraint( c.i, c.bj, p, c.n, c.q ) ); }
  if( kind == 9 ) { c.ri = -r0 * c.n; c.bj = c.i == 0 ? nb - 1 : 0; m.k.reset( new KinematicObjectSphereConstraint( c.i, r0, c.n, c.bj, rv( "X" ), Vector3s::Zero(), Vector3s::Zero() ) ); }
  if( kind >= 3 && kind <= 6 ) vp_check( m.k->getStaticObjectIndex() == 3, "boundary contact reports which boundary" );
}
#define KINDS(F) F(spheres,0) F(bodies,1) F(teleported,2) F(planebody,3) F(planebox,4) F(planesphere,5) F(cylsphere,6) F(cylbody,7) F(scriptedbody,8) F(scriptedsphere,9)
#define VEL(N,K) VP_HARNESS(r3_vel_##N) { Made m; made( m, K, K <= 2 ? 3 : 2 ); Sys s( m.c ); velocityLaws( m.c, *m.k, m.caps, &s ); vp_cover( "end" ); }
KINDS(VEL)
#define CON(N,K) VP_HARNESS(r3_cons_##N) { Made m; made( m, K, K <= 2 ? 3 : 2 ); Sys s( m.c ); conservationLaws( m.c, *m.k, m.caps, &s, K <= 2, K <= 1 ); if( K <= 1 ) vp_check( m.k->conservesAngularMomentumUnderImpact() && m.k->conservesAngularMomentumUnderImpactAndFriction(), "body-body contact declares angular conservation" ); vp_cover( "end" ); }
KINDS(CON)
#define FRM(N,K) VP_HARNESS(r3_frame_##N) { Made m; made( m, K, K <= 2 ? 2 : 1, 0, 1 ); simpleVelocity( m.c, true ); frameLaws( m.c, *m.k ); vp_cover( "end" ); } \
  VP_HARNESS(r3_stick_##N) { Made m; made( m, K, K <= 2 ? 2 : 1, K == 6 || K == 7 ? 1 : 2, 1 ); simpleVelocity( m.c, false ); frameLaws( m.c, *m.k ); vp_cover( "end" ); }
KINDS(FRM)
#define DSK(N,K) VP_HARNESS(r3_disk_##N) { Made m; made( m, K, 2, 0, 2 ); diskLaws( m.c, *m.k, 1 + vp_choose( "ns", 0, 3 ) ); vp_cover( "end" ); }
KINDS(DSK)
VP_HARNESS(r3_imp_spheres) { Made m; made( m, 0, 3 ); Sys s( m.c ); impactLaws( m.c, *m.k, &s ); vp_cover( "end" ); }
VP_HARNESS(r3_imp_planesphere) { Made m; made( m, 5, 2 ); Sys s( m.c ); impactLaws( m.c, *m.k, &s ); vp_cover( "end" ); }
VP_HARNESS(r3_energy_spheres)
{
  Made m; made( m, 0, 2, 1 );
  VectorXs mass = VectorXs::Constant( 12, 1.0 ); const double a = vp_real( "m", 0, 0, 1000 ), b = vp_real( "m", 1, 0, 1000 ); vp_assume( a > 0 ); vp_assume( b > 0 );
  for( int k = 0; k < 3; ++k ) { mass( k ) = a; mass( 3 + k ) = b; }
  impactEnergy( m.c, *m.k, mass ); vp_cover( "end" );
}
VP_HARNESS(r3_gap_spheres)
{
  Made m; made( m, 0, 3 );
  const double r0 = vp_real( "r", 0, 0, 10 ), r1 = vp_real( "r", 1, 0, 10 ), d = vp_real( "a", 0, 0, 10 ) + vp_real( "a", 1, 0, 10 );
  vp_check_eq( m.k->evaluateGapFunction( m.c.q ), d - r0 - r1, "sphere-sphere gap is centre distance minus radii" );
  vp_check_eq( m.k->penetrationDepth( m.c.q ), d < r0 + r1 ? d - r0 - r1 : 0.0, "sphere-sphere penetration is the negative part of the gap" );
  vp_check( SphereSphereConstraint::isActive( xpos( m.c, m.c.i ), xpos( m.c, m.c.j ), r0, r1 ) == ( d <= r0 + r1 ), "sphere-sphere contact is active exactly when the spheres touch or overlap" );
  vp_cover( "end" );
}
VP_HARNESS(r3_gap_plane)
{
  Made m; made( m, 5, 3 );
  const Contact& c = m.c; const double r0 = vp_real( "r", 0, 0, 10 );
  const double g = dt( c.n, xpos( c, c.i ) - rv( "X" ) );
  vp_check_eq( m.k->evaluateGapFunction( c.q ), g - r0, "sphere-plane gap is plane distance minus radius" );
  vp_check_eq( m.k->penetrationDepth( c.q ), g < r0 ? g - r0 : 0.0, "sphere-plane penetration is the negative part of the gap" );
  vp_check( StaticPlaneSphereConstraint::isActive( m.plane->x(), m.plane->n(), xpos( c, c.i ), r0 ) == ( g <= r0 ), "sphere-plane contact is active exactly when the sphere reaches the plane" );
  vp_check_eq( m.plane->distanceToPoint( xpos( c, c.i ) ), g, "signed plane distance" );
  vp_cover( "end" );
}
VP_HARNESS(r3_gap_cylinder)
{
  Made m; made( m, 6, 1 );
  const Contact& c = m.c; const double r0 = vp_real( "r", 0, 0, 10 ), d = vp_real( "d", 0, 0, 10 ), R = vp_real( "R", 0, 0, 100 );
  vp_check_eq( m.k->penetrationDepth( c.q ), R - d - r0 < 0 ? R - d - r0 : 0.0, "sphere-cylinder penetration is the negative part of the clearance" );
  vp_assume( R >= r0 );
  vp_check( StaticCylinderSphereConstraint::isActive( m.cyl->x(), m.cyl->axis(), R, xpos( c, c.i ), r0 ) == ( d + r0 >= R ), "sphere-cylinder contact is active exactly when the sphere reaches the wall" );
  vp_cover( "end" );
}
// sphere-sphere overlap volume: zero when apart, smaller sphere when nested, symmetric, bounded by the smaller sphere
VP_HARNESS(r3_overlap)
{
  const double r0 = vp_real( "r", 0, 0, 10 ), r1 = vp_real( "r", 1, 0, 10 ), d = vp_real( "d", 0, 0, 10 ); vp_assume( r0 > 0 ); vp_assume( r1 > 0 ); vp_assume( d > 0 );
  VectorXs q = VectorXs::Zero( 24 ); q( 0 ) = d;
  SphereSphereConstraint k( 0, 1, Vector3s{ 1, 0, 0 }, Vector3s{ 0, 0, 0 }, r0, r1 ), k2( 0, 1, Vector3s{ 1, 0, 0 }, Vector3s{ 0, 0, 0 }, r1, r0 );
  const double V = k.overlapVolume( q ), pi = 3.14159265358979323846;
  const double r = r0 < r1 ? r0 : r1, R = r0 < r1 ? r1 : r0;
  vp_check_eq( V, k2.overlapVolume( q ), "overlap volume does not depend on the order of the spheres" );
  if( d >= r0 + r1 ) vp_check_eq( V, 0.0, "separated spheres have no overlap volume" );
  else if( d + r <= R ) vp_check_eq( V, 4.0 * pi * r * r * r / 3.0, "a nested sphere overlaps with its whole volume" );
  else
  {
    // lens = two spherical caps
    const double h0 = ( r1 - r0 + d ) * ( r1 + r0 - d ) / ( 2.0 * d ), h1 = ( r0 - r1 + d ) * ( r0 + r1 - d ) / ( 2.0 * d );
    vp_check_eq( V, pi * h0 * h0 * ( 3.0 * r0 - h0 ) / 3.0 + pi * h1 * h1 * ( 3.0 * r1 - h1 ) / 3.0, "overlap volume is the sum of the two spherical caps" );
  }
  vp_cover( "end" );
}
