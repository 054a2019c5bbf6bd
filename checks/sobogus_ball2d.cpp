#include "sobogus.h"
#include "ball2d/Constraints/BallBallConstraint.h"
#include "ball2d/Constraints/BallStaticPlaneConstraint.h"
#include "ball2d/StaticGeometry/StaticPlane.h"
struct W { Masses sys{ 4, 2 }; Set act; MatrixXXsc bases{ 2, 4 }; VectorXs q = sv( "q", 8, -9, 9 ); std::unique_ptr<StaticPlane> plane; };
static void build( W& w )
{
  for( int k = 0; k < 2; ++k ) w.bases.block( 0, 2 * k, 2, 2 ) = leaning( 2, k ); const Vector2s n0 = w.bases.col( 0 ), n1 = w.bases.col( 2 ), x{ 1.0, 2.0 };
  w.plane.reset( new StaticPlane( x, n1 ) ); w.plane->v() = sv( "pv", 2, -9, 9 );
  w.act.emplace_back( new BallBallConstraint( 3, 1, Vector2s{ x + 2.0 * n0 }, x, 1.0, 1.0, true ) ); w.act.emplace_back( new StaticPlaneConstraint( 3, 0.5, *w.plane, 4 ) ); if( vp_choose( "swap", 0, 2 ) ) { std::swap( w.act[0], w.act[1] ); const MatrixXXsc b = w.bases; w.bases.block( 0, 0, 2, 2 ) = b.block( 0, 2, 2, 2 ); w.bases.block( 0, 2, 2, 2 ) = b.block( 0, 0, 2, 2 ); }
}
VP_HARNESS( b2_sobogus ) { W w; build( w ); sobogusLaw( w.sys, SobogusSolverType::Balls2D, w.act, w.bases, w.q, { 1, 3 } ); }
VP_HARNESS( b2_judge ) { W w; build( w ); judgeLaw( w.sys, SobogusSolverType::Balls2D, w.act, w.bases, w.q ); }
