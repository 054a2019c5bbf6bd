SEEDS=[]
MATH=["scisim/Math/MathUtilities.cpp","scisim/Utilities.cpp","scisim/StringUtilities.cpp"]
SEEDS.append(dict(ID="b09-fb-index",PROP="P12",NEEDS="two contacts with different friction impulses",BREAKS="the residual of smooth friction reads the second contact's impulse from the wrong place",
 EDITS=[("scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.cpp","const scalar disc_violation{ m_c( con_num ) - beta.segment<2>( 2 * con_num ).norm() };","const scalar disc_violation{ m_c( con_num ) - beta.segment<2>( con_num ).norm() };")],
 SRCS=["scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.cpp","scisim/ConstrainedMaps/QPTerminationOperator.cpp"]+MATH,DEMO='''
#include "scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.h"
#include <cstdio>
int main() {
  VectorXs c( 2 ), b( 4 ), v( 4 ); c << 5, 5; b << 3, 4, 5, 0; v << -3, -4, -1, 0; // both saturated, opposing the sliding
  FischerBurmeisterSmooth f( 1e-9, c ); const double e = f( b, v ); std::printf( "%g\\n", e ); return e < 1e-6 ? 0 : 1;
}
'''))
SEEDS.append(dict(ID="b10-boxbox-face",PROP="P20",NEEDS="two boxes where the reference face looks against the other box's own second axis",BREAKS="the wrong face of the other box is clipped, so contact points are wrong or missing",
 EDITS=[("rigidbody2d/BoxBoxTools.cpp","const int b_nrml_idx{ fabs( n_in_b.y() ) > fabs( n_in_b.x() ) ? 1 : 0 };","const int b_nrml_idx{ n_in_b.y() > fabs( n_in_b.x() ) ? 1 : 0 };")],
 SRCS=["rigidbody2d/BoxBoxTools.cpp"]+MATH,DEMO='''
#include "rigidbody2d/BoxBoxTools.h"
#include <cstdio>
int main() {
  bool ok = true;
  for( int k = 0; k < 8; ++k ) for( int z = -1; z < 2; z += 2 ) {
    const double th = ( k * 90 + 0.5 ) * 3.14159265358979 / 180; const double h = std::fabs( std::sin( th ) ) + std::fabs( std::cos( th ) ); const Vector2s r( 1, 1 ), x1( 0.1, z * ( 0.95 + h ) ); Vector2s n; std::vector<Vector2s> p;
    BoxBoxTools::isActive( Vector2s( 0, 0 ), 0.0, r, x1, th, r, n, p );
    if( p.size() != 2 ) ok = false; for( const Vector2s& x : p ) { std::printf( "%d: %g %g\\n", k, x(0), x(1) ); if( !( z * x(1) > 0.9 && z * x(1) < 1.1 && std::fabs( x(0) ) < 1.1 ) ) ok = false; }
  }
  return ok ? 0 : 1;
}
'''))
SEEDS.append(dict(ID="b11-box-aabb",PROP="P06",NEEDS="a 3D box with unequal sides in an orientation whose matrix is not symmetric",BREAKS="the bounding box of a turned box is computed with the inverse turn and does not contain the box",
 EDITS=[("rigidbody3d/Geometry/RigidBodyBox.cpp","const Array3s extents{ R.array().abs().matrix() * m_half_widths };","const Array3s extents{ R.transpose().array().abs().matrix() * m_half_widths };")],
 SRCS=["rigidbody3d/Geometry/RigidBodyBox.cpp","rigidbody3d/Geometry/RigidBodyGeometry.cpp"]+MATH,DEMO='''
#include "rigidbody3d/Geometry/RigidBodyBox.h"
#include <cstdio>
int main() {
  RigidBodyBox b( Vector3s( 1, 2, 3 ) ); Matrix33sr R; R << 0, 0, 1, 1, 0, 0, 0, 1, 0; Array3s a, c; b.computeAABB( Vector3s::Zero(), R, a, c ); std::printf( "%g %g %g\\n", c(0), c(1), c(2) );
  return c(0) == 3 && c(1) == 1 && c(2) == 2 ? 0 : 1;
}
'''))
SEEDS.append(dict(ID="b12-inverse-inertia",PROP="P19",NEEDS="a body with unequal principal inertias that is turned about more than one axis",BREAKS="the inverse inertia is turned the wrong way, so it is not the inverse of the inertia",
 EDITS=[("rigidbody3d/RigidBody3DState.cpp","      Iinv = R * Iinv0.asDiagonal() * R.transpose();","      Iinv = R.transpose() * Iinv0.asDiagonal() * R;")],
 SRCS=["rigidbody3d/RigidBody3DState.cpp","rigidbody3d/Geometry/*.cpp","rigidbody3d/Forces/*.cpp","rigidbody3d/StaticGeometry/*.cpp","rigidbody3d/Portals/*.cpp"]+MATH,DEMO='''
#include "rigidbody3d/RigidBody3DState.h"
#include "rigidbody3d/Geometry/RigidBodyBox.h"
#include "rigidbody3d/Forces/Force.h"
#include <cstdio>
int main() {
  std::vector<std::unique_ptr<RigidBodyGeometry>> g; g.emplace_back( new RigidBodyBox( Vector3s( 1, 2, 3 ) ) ); RigidBody3DState s;
  std::vector<Vector3s> X( 1, Vector3s::Zero() ), V( 1, Vector3s::Zero() ), W( 1, Vector3s::Zero() ), I( 1, Vector3s( 1, 2, 4 ) ); std::vector<scalar> M( 1, 1.0 ); std::vector<VectorXs> R( 1 ); std::vector<bool> fx( 1, false ); std::vector<unsigned> gi( 1, 0 );
  R[0].resize( 9 ); R[0] << 0, 0, 1, 1, 0, 0, 0, 1, 0; s.setState( X, V, M, R, W, I, fx, gi, g ); s.updateMandMinv();
  const double e = ( MatrixXXsc( s.M() ) * MatrixXXsc( s.Minv() ) - MatrixXXsc::Identity( 6, 6 ) ).lpNorm<Eigen::Infinity>(); std::printf( "%g\\n", e ); return e < 1e-9 ? 0 : 1;
}
'''))
SEEDS.append(dict(ID="b13-segment-clamp",PROP="P21",NEEDS="two segments whose closest point on the second is its far end while the first starts beyond it",BREAKS="the closest point on the first segment is wrong when the second segment's far end is closest",
 EDITS=[("rigidbody3d/Constraints/CollisionUtilities.cpp","        s = clamp( (b - c) / a, 0.0, 1.0 );","        s = clamp( b - c / a, 0.0, 1.0 );")],
 SRCS=["rigidbody3d/Constraints/CollisionUtilities.cpp"]+MATH,DEMO='''
#include "rigidbody3d/Constraints/CollisionUtilities.h"
#include <cstdio>
int main() {
  bool ok = true; const Vector3s p1( 0, 0, 0 ), q1( 4, 0, 0 ), p2( 0, 3, 1 ), q2( 2, 1, 1 ); scalar s, t; Vector3s a, b;
  const double d = CollisionUtilities::closestPointSegmentSegment( p1, q1, p2, q2, s, t, a, b ); std::printf( "%g %g %g\\n", d, s, t );
  for( int i = 0; i <= 20; ++i ) for( int j = 0; j <= 20; ++j ) if( ( p1 + ( q1 - p1 ) * i / 20.0 - p2 - ( q2 - p2 ) * j / 20.0 ).squaredNorm() < d - 1e-9 ) ok = false;
  return ok ? 0 : 1;
}
'''))
SEEDS.append(dict(ID="b15-apgd-last",PROP="P13",NEEDS="a problem whose residual rises again before the iteration limit is reached",BREAKS="the residual reported belongs to the last iterate while the answer is an earlier one",
 EDITS=[("scisim/Math/QPSolvers/ProjectionSolvers.h","""        if( current_residual < best_residual )
        {
          best_residual = current_residual;
          best_solution = x0;
        }""","""        if( current_residual < best_residual )
        {
          best_solution = x0;
        }
        best_residual = current_residual;""")],
 SRCS=["scisim/ConstrainedMaps/ImpactMaps/MinMapImpact.cpp","scisim/ConstrainedMaps/ImpactMaps/NonNegativeProjection.cpp","scisim/Math/QPSolvers/*.cpp"]+MATH,DEMO='''
#include "scisim/Math/QPSolvers/ProjectionSolvers.h"
#include "scisim/Math/QPSolvers/SparseMatrixVectorOperators.h"
#include "scisim/ConstrainedMaps/ImpactMaps/NonNegativeProjection.h"
#include "scisim/ConstrainedMaps/ImpactMaps/MinMapImpact.h"
#include <cstdio>
struct Obj { static constexpr bool columnMajor() { return !SparseMatrixsc::IsRowMajor; } double operator()( const SparseMatrixsc& A, const VectorXs& b, const VectorXs& x ) const { return x.dot( 0.5 * ( A * x ) + b ); } };
struct Gr { static constexpr bool columnMajor() { return !SparseMatrixsc::IsRowMajor; } void operator()( const SparseMatrixsc& A, const VectorXs& b, const VectorXs& x, VectorXs& g ) const { g = A * x + b; } };
struct Mu { static constexpr bool columnMajor() { return !SparseMatrixsc::IsRowMajor; } void operator()( const SparseMatrixsc& A, const VectorXs& x, VectorXs& y ) const { y = A * x; } };
int main() {
  bool ok = true;
  for( int k = 1; k < 200; ++k ) for( unsigned it = 1; it < 12; ++it ) {
    SparseMatrixsc A( 3, 3 ); MatrixXXsc B( 3, 3 ); B << 1, std::sin( k ), 0.3, 0, std::cos( 2 * k ), std::sin( 3 * k ), 0.2, 0, 0.1; const MatrixXXsc S = B.transpose() * B; A = S.sparseView( 0, 0 ); A.makeCompressed();
    VectorXs b( 3 ), x = VectorXs::Zero( 3 ); b << std::sin( 5 * k ), std::cos( 7 * k ), std::sin( 11 * k );
    MinMapImpact term; ProjectionSolveResults r;
    ProjectionSolvers::APGD( NonNegativeProjection{}, term, Obj{}, Gr{}, Mu{}, 1e-12, it, A, b, x, r );
    const VectorXs g = A * x + b; const double e = term( x, g ); if( std::fabs( e - r.achieved_tolerance ) > 1e-9 ) { ok = false; std::printf( "%g %g\\n", e, double( r.achieved_tolerance ) ); break; }
  }
  return ok ? 0 : 1;
}
'''))
