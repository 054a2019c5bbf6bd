SEEDS=[]
SEEDS.append(dict(ID="b01-ccd-leaving",PROP="P01",NEEDS="two balls that overlap at the start of the step and separate during it",BREAKS="an initially overlapping but separating pair is no longer reported",
 EDITS=[("scisim/CollisionDetection/CollisionDetectionUtilities.cpp","        if( root0 > 1.0 )","        if( root0 > 1.0 || ( root0 < 0.0 && c(1) > 0.0 && root1 < 0.5 ) )")],
 SRCS=["scisim/CollisionDetection/CollisionDetectionUtilities.cpp"],DEMO='''
#include "scisim/CollisionDetection/CollisionDetectionUtilities.h"
#include <cstdio>
int main() {
  // overlapping at t=0, separating fast
  const auto r = CollisionDetectionUtilities::ballBallCCDCollisionHappens( Vector2s{ 0.0, 0.0 }, Vector2s{ -10.0, 0.0 }, 1.0, Vector2s{ 1.5, 0.0 }, Vector2s{ 11.5, 0.0 }, 1.0 );
  std::printf( "hit=%d t=%g\\n", int( r.first ), r.second );
  return r.first && r.second == 0.0 ? 0 : 1;
}
'''))
SEEDS.append(dict(ID="b02-cyl-spin",PROP="P08",NEEDS="a rotating cylinder with a sphere away from the cylinder's reference point along its axis, and a spin that is not along the axis",BREAKS="velocity of the cylinder wall at the contact ignores the offset along the axis",
 EDITS=[("rigidbody3d/Constraints/StaticCylinderSphereConstraint.cpp","  const Vector3s r{ p + m_cyl.r() * n };","  const Vector3s r{ m_cyl.r() * n };")],
 SRCS=["rigidbody3d/Constraints/StaticCylinderSphereConstraint.cpp","rigidbody3d/Constraints/FrictionUtilities.cpp","rigidbody3d/StaticGeometry/StaticCylinder.cpp","scisim/Constraints/Constraint.cpp","scisim/Math/MathUtilities.cpp","scisim/Utilities.cpp","scisim/StringUtilities.cpp"],DEMO='''
#include "rigidbody3d/Constraints/StaticCylinderSphereConstraint.h"
#include "rigidbody3d/StaticGeometry/StaticCylinder.h"
#include <cstdio>
int main() {
  StaticCylinder cyl( Vector3s{ 0, 0, 0 }, Vector3s{ 0, 1, 0 }, 5.0 );
  cyl.omega() = Vector3s{ 0, 0, 2 };
  StaticCylinderSphereConstraint c( 0, 1.0, cyl, 0 );
  VectorXs q = VectorXs::Zero( 12 ), v = VectorXs::Zero( 6 ); q( 0 ) = 4.0; q( 1 ) = 3.0; q( 3 ) = q( 7 ) = q( 11 ) = 1.0;
  // wall point nearest the sphere: (5,3,0); its velocity is omega x (5,3,0) = (-6,10,0)
  const VectorXs r = c.computeRelativeVelocity( q, v );
  std::printf( "%g %g %g\\n", r(0), r(1), r(2) );
  return std::fabs( r(0) - 6.0 ) < 1e-9 && std::fabs( r(1) + 10.0 ) < 1e-9 && std::fabs( r(2) ) < 1e-9 ? 0 : 1;
}
'''))

SEEDS.append(dict(ID="b03-sparse-nonsquare",PROP="P02",NEEDS="a sparse matrix with more columns than rows or more rows than columns",BREAKS="reading back a non-square sparse matrix uses the wrong number of column starts",
 EDITS=[("scisim/Math/MathUtilities.cpp","outter_indices{ cols + 1 };","outter_indices{ ( nnz > rows ? rows : cols ) + 1 };")],
 SRCS=["scisim/Math/MathUtilities.cpp","scisim/Utilities.cpp","scisim/StringUtilities.cpp"],DEMO='''
#include "scisim/Math/MathUtilities.h"
#include "scisim/Utilities.h"
#include <sstream>
#include <cstdio>
int main() {
  SparseMatrixsc A( 2, 3 ); A.insert( 0, 0 ) = 1; A.insert( 1, 1 ) = 2; A.insert( 0, 2 ) = 3; A.makeCompressed();
  std::stringstream s; MathUtilities::serialize( A, s ); Utilities::serialize( 42u, s );
  const std::streamoff len = s.str().size() - sizeof( unsigned );
  SparseMatrixsc B; MathUtilities::deserialize( B, s );
  const bool consumed = s.good() && std::streamoff( s.tellg() ) == len;
  std::printf( "consumed=%d\\n", int( consumed ) );
  if( !consumed || B.rows() != 2 || B.cols() != 3 ) return 1;
  return ( MatrixXXsc( A ) - MatrixXXsc( B ) ).lpNorm<Eigen::Infinity>() == 0.0 ? 0 : 1;
}
'''))
