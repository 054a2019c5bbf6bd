SEEDS=[]
MATH=["scisim/Math/MathUtilities.cpp","scisim/Utilities.cpp","scisim/StringUtilities.cpp"]
SEEDS.append(dict(ID="b16-mesh-gradient",PROP="P22",NEEDS="a distance field whose cells have different side lengths",BREAKS="the contact normal of a mesh is not the direction of the gradient when the cells are not cubes",
 EDITS=[("rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp","  n.array() /= m_cell_delta.array();\n","  n /= m_cell_delta.norm();\n")],
 SRCS=["rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp","rigidbody3d/Geometry/RigidBodyGeometry.cpp"]+MATH,DEMO='''
#include "rigidbody3d/Geometry/RigidBodyTriangleMesh.h"
#include <cstdio>
int main() {
  RigidBodyTriangleMesh m; m.m_cell_delta = Vector3s( 1, 2, 4 ); m.m_grid_dimensions = Vector3u( 2, 2, 2 ); m.m_grid_origin.setZero(); m.m_grid_end = Vector3s( 1, 2, 4 ); m.m_signed_distance.resize( 8 );
  for( int k = 0; k < 2; ++k ) for( int j = 0; j < 2; ++j ) for( int i = 0; i < 2; ++i ) m.m_signed_distance( i + 2 * j + 4 * k ) = 3.0 * i + 4.0 * 2 * j - 50; // gradient (3,4,0)
  Vector3s n; const bool hit = m.detectCollision( Vector3s( 0.5, 0.5, 0.5 ), n ); std::printf( "%d %g %g %g\\n", hit, n(0), n(1), n(2) ); return hit && std::fabs( n(0) - 0.6 ) < 1e-9 && std::fabs( n(1) - 0.8 ) < 1e-9 ? 0 : 1;
}
'''))
SEEDS.append(dict(ID="b17-force-tangents",PROP="P35",NEEDS="two or more contacts with friction in 3D",BREAKS="the recorded force of a contact uses friction impulses of other contacts",EXTRA=["lib/stubs/hdf5.h"],
 EDITS=[("scisim/ConstrainedMaps/ImpactFrictionMap.cpp","        const scalar impulse{ beta( ( ambient_space_dims - 1 ) * con + friction_sample ) };","        const scalar impulse{ beta( ncons * friction_sample + con ) };")],
 SRCS=["rigidbody3d/Constraints/*.cpp","scisim/ConstrainedMaps/ImpactFrictionMap.cpp","scisim/Constraints/Constraint.cpp","scisim/HDF5File.cpp"]+MATH,DEMO='''
#include "scisim/ConstrainedMaps/ImpactFrictionMap.h"
#include "scisim/Constraints/Constraint.h"
#include "scisim/HDF5File.h"
#include <cstdio>
#include "rigidbody3d/Constraints/SphereSphereConstraint.h"
int main() {
  std::vector<std::unique_ptr<Constraint>> c; VectorXs q = VectorXs::Zero( 48 ); q( 3 ) = 2; q( 7 ) = 2;
  c.emplace_back( new SphereSphereConstraint( 0, 1, Vector3s( 1, 0, 0 ), Vector3s( 1, 0, 0 ), 1, 1 ) ); c.emplace_back( new SphereSphereConstraint( 0, 2, Vector3s( 0, 1, 0 ), Vector3s( 0, 1, 0 ), 1, 1 ) );
  MatrixXXsc B( 3, 6 ); B << 1, 0, 0, 0, -1, 0,  0, 1, 0, 1, 0, 0,  0, 0, 1, 0, 0, 1; VectorXs a( 2 ), b( 4 ); a << 10, 20; b << 1, 2, 3, 4;
  { HDF5File f( "x.h5", HDF5AccessType::READ_WRITE ); ImpactFrictionMap::exportConstraintForcesToBinaryFile( q, c, B, a, b, 0.1, f ); }
  MatrixXXsc r; { HDF5File f( "x.h5", HDF5AccessType::READ_ONLY ); r = f.read<MatrixXXsc>( "collision_forces" ); }
  for( int k = 0; k < 2; ++k ) { const Vector3s w = B.middleCols<3>( 3 * k ) * Vector3s( a( k ), b( 2 * k ), b( 2 * k + 1 ) ); std::printf( "%g %g %g\\n", r( 0, k ), r( 1, k ), r( 2, k ) ); if( ( r.col( k ) - w ).norm() > 1e-9 ) return 1; }
  return 0;
}
'''))
SEEDS.append(dict(ID="b18-stag-order",FLAGS="-DQL_FOUND",PROP="P29",NEEDS="a staggered solver that caches only the normal impulses (or only the friction impulses)",BREAKS="after a checkpoint, normal and friction impulses swap which of them is cached",
 EDITS=[("scisim/ConstrainedMaps/StaggeredProjections.cpp","  Utilities::serialize( m_warm_start_alpha, output_stream );\n  Utilities::serialize( m_warm_start_beta, output_stream );","  Utilities::serialize( m_warm_start_beta, output_stream );\n  Utilities::serialize( m_warm_start_alpha, output_stream );")],
 SRCS=["scisim/ConstrainedMaps/*.cpp","scisim/ConstrainedMaps/*Maps/*.cpp","scisim/Math/QL/*.cpp"]+MATH,DEMO='''
#include "scisim/ConstrainedMaps/StaggeredProjections.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.h"
#include "scisim/ConstrainedMaps/FrictionMaps/BoundConstrainedMDPOperatorQL.h"
#include <sstream>
#include <cstdio>
int main() {
  StaggeredProjections a( true, false, GaussSeidelOperator( 0.25 ), BoundConstrainedMDPOperatorQL( 0.5 ) ); std::stringstream s; a.serialize( s ); StaggeredProjections b( s );
  std::printf( "%d %d\\n", b.m_warm_start_alpha, b.m_warm_start_beta ); return b.m_warm_start_alpha && !b.m_warm_start_beta ? 0 : 1;
}
'''))
SEEDS.append(dict(ID="b19-rational-sign",PROP="P32",NEEDS="a fraction whose denominator is negative after reduction while its numerator is positive, such as a quotient by a negative fraction",BREAKS="fractions keep a negative denominator, so equal numbers compare as different",
 EDITS=[("scisim/Math/Rational.h","  if( m_denominator < 0 )\n  {\n    m_numerator = -m_numerator;\n    m_denominator = -m_denominator;","  if( m_denominator < 0 && m_numerator < 0 )\n  {\n    m_numerator = -m_numerator;\n    m_denominator = -m_denominator;")],
 SRCS=MATH,DEMO='''
#include <algorithm>
#include "scisim/Math/Rational.h"
#include <cstdio>
#include <cstdint>
int main() {
  const Rational<std::intmax_t> a( 1, 4 ), b( -1, 2 ); Rational<std::intmax_t> c = a; c /= b; std::printf( "%ld/%ld\\n", long( c.numerator() ), long( c.denominator() ) ); return c.numerator() == -1 && c.denominator() == 2 ? 0 : 1;
}
'''))
SEEDS.append(dict(ID="b20-portal-record",PROP="P34",NEEDS="a 2D rigid body scene with both a static plane and a portal",BREAKS="portals are missing from the state files of scenes that also have planes",EXTRA=["lib/stubs/hdf5.h"],
 EDITS=[("rigidbody2d/RigidBody2DSim.cpp","  if( !m_state.planarPortals().empty() )\n  {\n    RigidBody2DStateOutput::writePlanarPortals","  else if( !m_state.planarPortals().empty() )\n  {\n    RigidBody2DStateOutput::writePlanarPortals")],
 SRCS=["rigidbody2d/*.cpp","scisim/HDF5File.cpp","scisim/Constraints/*.cpp","scisim/CollisionDetection/*.cpp","scisim/UnconstrainedMaps/*.cpp"]+MATH,DEMO='''
#include "rigidbody2d/RigidBody2DSim.h"
#include "rigidbody2d/CircleGeometry.h"
#include "rigidbody2d/RigidBody2DForce.h"
#include "scisim/HDF5File.h"
#include <cstdio>
int main() {
  RigidBody2DSim sim; std::vector<std::unique_ptr<RigidBody2DGeometry>> g; g.emplace_back( new CircleGeometry( 1.0 ) ); VectorXu gi( 1 ); gi << 0u; VectorXs z = VectorXs::Zero( 3 );
  sim.state() = RigidBody2DState( z, z, VectorXs::Ones( 3 ), { false }, gi, g, std::vector<std::unique_ptr<RigidBody2DForce>>{}, {}, {} );
  sim.state().planes().emplace_back( Vector2s( 0, -5 ), Vector2s( 0, 1 ) ); sim.state().planarPortals().emplace_back( RigidBody2DStaticPlane( Vector2s( -5, 0 ), Vector2s( 1, 0 ) ), RigidBody2DStaticPlane( Vector2s( 5, 0 ), Vector2s( -1, 0 ) ), 0.0, 1.0 );
  { HDF5File f( "x.h5", HDF5AccessType::READ_WRITE ); sim.writeBinaryState( f ); }
  const bool a = h5::find( h5::file( "x.h5" ), "static_geometry/static_planes" ), b = h5::find( h5::file( "x.h5" ), "static_geometry/planar_portals" ); std::printf( "%d %d\\n", a, b ); return a && b ? 0 : 1;
}
'''))
