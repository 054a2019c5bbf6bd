// Helpers for the rigidbody3d harnesses.
#pragma once
#include "sys.h"
#include "rigidbody3d/RigidBody3DSim.h"
#include "rigidbody3d/RigidBody3DUtilities.h"
#include "rigidbody3d/PythonScripting.h"
#include "rigidbody3d/Geometry/RigidBodyBox.h"
#include "rigidbody3d/Geometry/RigidBodySphere.h"
#include "rigidbody3d/Geometry/RigidBodyStaple.h"
#include "rigidbody3d/Geometry/RigidBodyTriangleMesh.h"
#include "rigidbody3d/Forces/NearEarthGravityForce.h"
#include "rigidbody3d/StaticGeometry/StaticPlane.h"
#include "rigidbody3d/StaticGeometry/StaticCylinder.h"
#include "rigidbody3d/UnconstrainedMaps/DMVMap.h"
#include "rigidbody3d/UnconstrainedMaps/SplitHamMap.h"
#include "rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.h"
#include "rigidbody3d/Constraints/SphereSphereConstraint.h"
#include "rigidbody3d/Constraints/KinematicObjectSphereConstraint.h"
#include "rigidbody3d/Constraints/StaticPlaneSphereConstraint.h"
#include "rigidbody3d/Constraints/StaticCylinderSphereConstraint.h"
typedef std::vector<std::unique_ptr<RigidBodyGeometry>> Geo;
static const double PI_ = 3.14159265358979323846;
static double mn( double a, double b ) { return a < b ? a : b; }
static double mx( double a, double b ) { return a > b ? a : b; }
static Matrix33sr rot( const char* nm, int i )
{
  double h[4]; vp_quat( nm, i, h ); const double x = h[0], y = h[1], z = h[2], w = h[3]; Matrix33sr R;
  R << 1 - 2 * ( y * y + z * z ), 2 * ( x * y - w * z ), 2 * ( x * z + w * y ), 2 * ( x * y + w * z ), 1 - 2 * ( x * x + z * z ), 2 * ( y * z - w * x ), 2 * ( x * z - w * y ), 2 * ( y * z + w * x ), 1 - 2 * ( x * x + y * y );
  return R;
}
static Matrix33sr eye() { Matrix33sr R; R << 1, 0, 0, 0, 1, 0, 0, 0, 1; return R; }
struct Bodies { int n; std::vector<Vector3s> X, V, W, I; std::vector<double> m; std::vector<Matrix33sr> R; std::vector<bool> fx; std::vector<unsigned> gi; };
static Bodies some( int n, bool turned = true )
{
  Bodies b; b.n = n;
  for( int i = 0; i < n; ++i ) { b.X.push_back( sv3( "x", i, -100, 100 ) ); b.V.push_back( sv3( "v", i, -100, 100 ) ); b.W.push_back( sv3( "w", i, -50, 50 ) ); b.I.push_back( sv3( "I", i, 0.01, 1000 ) ); b.m.push_back( vp_real( "m", i, 0.01, 1000 ) ); b.R.push_back( turned ? rot( "R", i ) : eye() ); b.fx.push_back( false ); b.gi.push_back( 0u ); }
  return b;
}
static void install( RigidBody3DState& s, const Bodies& b, const Geo& g )
{
  std::vector<VectorXs> R; for( const Matrix33sr& r : b.R ) { VectorXs c( 9 ); for( int k = 0; k < 9; ++k ) c( k ) = r( k / 3, k % 3 ); R.push_back( c ); }
  s.setState( b.X, b.V, b.m, R, b.W, b.I, b.fx, b.gi, g );
}
static Geo ball( double r ) { Geo g; g.emplace_back( new RigidBodySphere{ r } ); return g; }
static VectorXs flatq( const Bodies& b ) { VectorXs q( 12 * b.n ); for( int i = 0; i < b.n; ++i ) { for( int d = 0; d < 3; ++d ) q( 3 * i + d ) = b.X[i]( d ); for( int k = 0; k < 9; ++k ) q( 3 * b.n + 9 * i + k ) = b.R[i]( k / 3, k % 3 ); } return q; }
static VectorXs flatv( const Bodies& b ) { VectorXs v( 6 * b.n ); for( int i = 0; i < b.n; ++i ) for( int d = 0; d < 3; ++d ) { v( 3 * i + d ) = b.V[i]( d ); v( 3 * ( b.n + i ) + d ) = b.W[i]( d ); } return v; }
// world space inertia times a vector
static Vector3s spin( const Matrix33sr& R, const Vector3s& I, const Vector3s& w ) { Vector3s b, r; for( int k = 0; k < 3; ++k ) b( k ) = I( k ) * ( R( 0, k ) * w( 0 ) + R( 1, k ) * w( 1 ) + R( 2, k ) * w( 2 ) ); for( int k = 0; k < 3; ++k ) r( k ) = R( k, 0 ) * b( 0 ) + R( k, 1 ) * b( 1 ) + R( k, 2 ) * b( 2 ); return r; }
static Matrix33sr axisTurn() // quarter turns about the axes and arbitrary turns about z
{
  Matrix33sr R; const int k = vp_choose( "turn", 0, 3 ); if( k == 0 ) { double u[2]; vp_unit2( "u", 0, u ); R << u[0], -u[1], 0, u[1], u[0], 0, 0, 0, 1; } else if( k == 1 ) R << 0, 0, 1, 1, 0, 0, 0, 1, 0; else R << 1, 0, 0, 0, 0, -1, 0, 1, 0; return R;
}
