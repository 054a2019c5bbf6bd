SEEDS=[]
MATH=["scisim/Math/MathUtilities.cpp","scisim/Utilities.cpp","scisim/StringUtilities.cpp"]
SEEDS.append(dict(ID="b04-penalty-break",PROP="P16",NEEDS="three balls of which the first does not touch the second but touches the third",BREAKS="the penalty force stops at the first ball out of reach, so later overlapping balls feel nothing",
 EDITS=[("ball2d/Forces/PenaltyForce.cpp","""      if( d > total_radius * total_radius )
      {
        continue;
      }
      // Normalize the vector between the balls""","""      if( d > total_radius * total_radius )
      {
        break;
      }
      // Normalize the vector between the balls""")],
 SRCS=["ball2d/Forces/PenaltyForce.cpp","ball2d/Forces/Ball2DForce.cpp"]+MATH,DEMO='''
#include "ball2d/Forces/PenaltyForce.h"
#include <cstdio>
int main() {
  PenaltyForce f( 10.0, 2.0 ); VectorXs q( 6 ), v = VectorXs::Zero( 6 ), r = VectorXs::Ones( 3 ), F = VectorXs::Zero( 6 ); q << 0, 0, 5, 0, 1, 0; SparseMatrixsc M( 6, 6 );
  f.computeForce( q, v, M, r, F ); std::printf( "%g %g\\n", F(0), F(4) );
  return F(4) > 0.1 && F(0) < -0.1 ? 0 : 1;
}
'''))
SEEDS.append(dict(ID="b05-portal-wrap",PROP="P15",NEEDS="a Lees-Edwards portal and a point whose shifted lateral position lies more than one period below the lower bound",BREAKS="the lateral wrap of points entering through plane B truncates toward zero, so such points leave the domain",
 EDITS=[("rigidbody2d/PlanarPortal.cpp","""  scalar tB{ planeB().t().dot( m_dx * m_plane_b.t() + planeB().x() - xin ) };

  // ...accounting for periodic boundaries
  if( m_bounds > 0.0 )
  {
    const int repeat_x{ int( floor( ( tB + m_bounds ) / ( 2.0 * m_bounds ) ) ) };""","""  scalar tB{ planeB().t().dot( m_dx * m_plane_b.t() + planeB().x() - xin ) };

  // ...accounting for periodic boundaries
  if( m_bounds > 0.0 )
  {
    const int repeat_x{ int( ( tB + m_bounds ) / ( 2.0 * m_bounds ) ) };""")],
 SRCS=["rigidbody2d/PlanarPortal.cpp","rigidbody2d/RigidBody2DStaticPlane.cpp"]+MATH,DEMO='''
#include "rigidbody2d/PlanarPortal.h"
#include <cstdio>
int main() {
  bool ok = true;
  for( int k = -9; k <= 9; ++k ) {
    PlanarPortal p( RigidBody2DStaticPlane( Vector2s( 0, -5 ), Vector2s( 0, 1 ) ), RigidBody2DStaticPlane( Vector2s( 0, 5 ), Vector2s( 0, -1 ) ), 0.0, 2.0 );
    Vector2s o; p.teleportPointThroughPlaneB( Vector2s( k, 5.25 ), o ); std::printf( "%d -> %g %g\\n", k, o.x(), o.y() ); ok = ok && o.x() >= -2.0 && o.x() <= 2.0;
  }
  return ok ? 0 : 1;
}
'''))
SEEDS.append(dict(ID="b06-grid-skip",PROP="P05",NEEDS="two overlapping boxes of which one spans several grid cells and the shared cell is in its last row",BREAKS="the last row of cells of a tall box is left out of the grid, so overlaps there are missed",
 EDITS=[("rigidbody2d/SpatialGrid.cpp","      for( unsigned y_idx = index_lower.y(); y_idx <= index_upper.y(); ++y_idx )","      for( unsigned y_idx = index_lower.y(); y_idx <= ( index_upper.y() > index_lower.y() + 1 ? index_upper.y() - 1 : index_upper.y() ); ++y_idx )")],
 SRCS=["rigidbody2d/SpatialGrid.cpp"]+MATH,DEMO='''
#include "rigidbody2d/SpatialGrid.h"
#include <cstdio>
int main() {
  std::vector<AABB> b; b.emplace_back( Array2s( 0, 0 ), Array2s( 1, 10 ) ); b.emplace_back( Array2s( 0, 9.5 ), Array2s( 1, 10.5 ) ); b.emplace_back( Array2s( 20, 0 ), Array2s( 21, 1 ) ); b.emplace_back( Array2s( 30, 0 ), Array2s( 31, 1 ) ); b.emplace_back( Array2s( 40, 0 ), Array2s( 41, 1 ) );
  std::set<std::pair<unsigned,unsigned>> o; SpatialGrid::getPotentialOverlaps( b, o ); std::printf( "%zu\\n", o.size() );
  return o.size() == 1 && o.begin()->first == 0 && o.begin()->second == 1 ? 0 : 1;
}
'''))
SEEDS.append(dict(ID="b07-remove-mass",PROP="P27",NEEDS="removing a body that is followed by two or more others of different masses, one of them adjacent to another removed body",BREAKS="after removing bodies, inverse masses of later bodies are copied from their old neighbour when two removed bodies are adjacent",
 EDITS=[("rigidbody2d/RigidBody2DState.cpp","    Minv_flat.segment<3>( 3 * copy_to ) = Minv_flat.segment<3>( 3 * copy_from );","    Minv_flat.segment<3>( 3 * copy_to ) = Minv_flat.segment<3>( 3 * ( copy_from > copy_to + 1 ? copy_to + 2 : copy_from ) );")],
 SRCS=["rigidbody2d/*.cpp"]+MATH,DEMO='''
#include "rigidbody2d/RigidBody2DState.h"
#include "rigidbody2d/CircleGeometry.h"
#include <cstdio>
int main() {
  RigidBody2DState s; std::vector<std::unique_ptr<RigidBody2DGeometry>> g; g.emplace_back( new CircleGeometry( 1.0 ) );
  const int n = 7; VectorXs q( 3 * n ), v = VectorXs::Zero( 3 * n ), m( 3 * n ); for( int i = 0; i < 3 * n; ++i ) { q( i ) = i; m( i ) = 1 + i / 3; }
  std::vector<bool> fx( n, false ); VectorXu gi = VectorXu::Zero( n ); s = RigidBody2DState( q, v, m, fx, gi, g, {}, {}, {} );
  VectorXu rm( 3 ); rm << 0, 1, 3; s.removeBodies( rm );
  bool ok = s.q().size() == 12; const double want[] = { 3, 5, 6, 7 }; for( int k = 0; k < 4; ++k ) { const double a = s.M().coeff( 3 * k, 3 * k ), b = s.Minv().coeff( 3 * k, 3 * k ); std::printf( "%g %g\\n", a, b ); ok = ok && a == want[k] && std::fabs( a * b - 1.0 ) < 1e-12; }
  return ok ? 0 : 1;
}
'''))
SEEDS.append(dict(ID="b08-cache-key",PROP="P14",NEEDS="two spheres in contact with the same kinematic sphere, or one sphere in contact with two, where the numbers coincide crosswise",BREAKS="impulses of contacts with kinematic spheres are looked up under swapped numbers when the kinematic body has the larger number",
 EDITS=[("rigidbody3d/ConstraintCache.cpp","m_kinematic_sphere_sphere_constraint_cache.find( std::make_pair( kinematic_sphere_sphere.kinematicIdx(), kinematic_sphere_sphere.sphereIdx() ) ) };","m_kinematic_sphere_sphere_constraint_cache.find( std::make_pair( std::min( kinematic_sphere_sphere.kinematicIdx(), kinematic_sphere_sphere.sphereIdx() ), std::max( kinematic_sphere_sphere.kinematicIdx(), kinematic_sphere_sphere.sphereIdx() ) ) ) };")],
 SRCS=["rigidbody3d/ConstraintCache.cpp","rigidbody3d/Constraints/*.cpp","scisim/Constraints/Constraint.cpp"]+MATH,DEMO='''
#include "rigidbody3d/ConstraintCache.h"
#include "rigidbody3d/Constraints/KinematicObjectSphereConstraint.h"
#include <cstdio>
int main() {
  ConstraintCache c; KinematicSphereSphereConstraint k( 1, 1.0, Vector3s( 1, 0, 0 ), 4, Vector3s( 0, 0, 0 ), Vector3s( 0, 0, 0 ), Vector3s( 0, 0, 0 ), 1.0 );
  c.cacheConstraint( k, Vector3s( 1, 2, 3 ) ); VectorXs r( 3 ); c.getCachedConstraint( k, r ); std::printf( "%g %g %g\\n", r(0), r(1), r(2) );
  return r(0) == 1 && r(1) == 2 && r(2) == 3 ? 0 : 1;
}
'''))
