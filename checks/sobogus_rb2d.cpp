#include "sobogus.h"
#include "rigidbody2d/BodyBodyConstraint.h"
#include "rigidbody2d/CircleCircleConstraint.h"
#include "rigidbody2d/KinematicObjectCircleConstraint.h"
struct W { Masses sys{ 4, 3 }; Set act; MatrixXXsc bases{ 2, 4 }; VectorXs q = sv( "q", 12, -9, 9 ); };
static void build( W& w )
{
  for( int k = 0; k < 2; ++k ) w.bases.block( 0, 2 * k, 2, 2 ) = leaning( 2, k ); const Vector2s n0 = w.bases.col( 0 ), n1 = w.bases.col( 2 ); const VectorXs p = sv( "p", 2, -9, 9 ), X = sv( "X", 2, -9, 9 ), V = sv( "V", 2, -9, 9 );
  if( vp_choose( "kind", 0, 2 ) ) w.act.emplace_back( new BodyBodyConstraint( 3, 1, Vector2s{ p( 0 ), p( 1 ) }, n0, w.q ) ); else w.act.emplace_back( new CircleCircleConstraint( 1, 3, n0, Vector2s{ p( 0 ), p( 1 ) }, 1.5, 2.5 ) );
  w.act.emplace_back( new KinematicObjectCircleConstraint( 3, 0.5, n1, 2, Vector2s{ X( 0 ), X( 1 ) }, Vector2s{ V( 0 ), V( 1 ) }, vp_real( "W", 0, -9, 9 ) ) );
}
VP_HARNESS( r2_sobogus ) { W w; build( w ); sobogusLaw( w.sys, SobogusSolverType::RigidBody2D, w.act, w.bases, w.q, { 1, 3 } ); }
VP_HARNESS( r2_judge ) { W w; build( w ); judgeLaw( w.sys, SobogusSolverType::RigidBody2D, w.act, w.bases, w.q ); }
