#include "sobogus.h"
#include "rigidbody3d/Constraints/BodyBodyConstraint.h"
#include "rigidbody3d/Constraints/SphereSphereConstraint.h"
#include "rigidbody3d/Constraints/StaticPlaneBodyConstraint.h"
struct W { Masses sys{ 4, 6 }; Set act; MatrixXXsc bases{ 3, 6 }; VectorXs q{ 48 }; };
static void build( W& w )
{
  w.q.setZero(); w.q.segment( 0, 12 ) = sv( "q", 12, -9, 9 ); for( int b = 0; b < 4; ++b ) for( int k = 0; k < 3; ++k ) w.q( 12 + 9 * b + 4 * k ) = 1.0;
  for( int k = 0; k < 2; ++k ) w.bases.block( 0, 3 * k, 3, 3 ) = leaning( 3, k ); const Vector3s n0 = w.bases.col( 0 ), n1 = w.bases.col( 3 ); const VectorXs p = sv( "p", 3, -9, 9 ), X = sv( "X", 3, -9, 9 );
  if( vp_choose( "kind", 0, 2 ) ) w.act.emplace_back( new BodyBodyConstraint( 3, 1, Vector3s{ p( 0 ), p( 1 ), p( 2 ) }, n0, w.q ) ); else w.act.emplace_back( new SphereSphereConstraint( 1, 3, n0, Vector3s{ p( 0 ), p( 1 ), p( 2 ) }, 1.5, 2.5 ) );
  w.act.emplace_back( new StaticPlaneBodyConstraint( 3, Vector3s{ X( 0 ), X( 1 ), X( 2 ) }, n1, w.q, 1 ) );
}
VP_HARNESS( r3_sobogus ) { W w; build( w ); sobogusLaw( w.sys, SobogusSolverType::RigidBodies3D, w.act, w.bases, w.q, { 1, 3 } ); }
VP_HARNESS( r3_judge ) { W w; build( w ); judgeLaw( w.sys, SobogusSolverType::RigidBodies3D, w.act, w.bases, w.q ); }
