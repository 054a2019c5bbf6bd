// P34: state files of the 2D rigid body simulation
#include "sys.h"
#include "hdf.h"
#include "scisim/HDF5File.h"
#include "rigidbody2d/RigidBody2DSim.h"
#include "rigidbody2d/BoxGeometry.h"
#include "rigidbody2d/CircleGeometry.h"
static const char* F = "f.h5";
typedef std::vector<std::unique_ptr<RigidBody2DGeometry>> Geo;
typedef std::vector<std::unique_ptr<RigidBody2DForce>> Forces;
VP_HARNESS( hdf_rb2d )
{
  h5::reset(); const int n = 2, ng = 3, odd = vp_choose( "fx", 0, 2 ); const VectorXs q = sv( "q", 3 * n, -100, 100 ), v = sv( "v", 3 * n, -100, 100 ), m = sv( "m", n, 0.01, 1000 ), I = sv( "I", n, 0.01, 1000 );
  VectorXs mm( 3 * n ); for( int k = 0; k < n; ++k ) { mm( 3 * k ) = mm( 3 * k + 1 ) = m( k ); mm( 3 * k + 2 ) = I( k ); }
  std::vector<bool> fx; VectorXu gi( n ), fixed( n ); for( int k = 0; k < n; ++k ) { fx.push_back( k == odd ); fixed( k ) = fx[k]; gi( k ) = unsigned( vp_choose( "gi", k, ng ) ); }
  Geo g; std::vector<int> box, local; std::vector<double> r; std::vector<Vector2s> hw; for( int k = 0; k < ng; ++k ) { box.push_back( vp_choose( "box", k, 2 ) ); if( box[k] ) { const Vector2s h = sv2( "hw", k, 0.1, 10 ); local.push_back( int( hw.size() ) ); hw.push_back( h ); g.emplace_back( new BoxGeometry{ h } ); } else { local.push_back( int( r.size() ) ); r.push_back( vp_real( "r", k, 0.1, 10 ) ); g.emplace_back( new CircleGeometry{ r.back() } ); } }
  RigidBody2DSim sim; RigidBody2DState& s = sim.state(); s = RigidBody2DState( q, v, mm, fx, gi, g, Forces{}, {}, {} );
  { HDF5File f{ F, HDF5AccessType::READ_WRITE }; sim.writeBinaryState( f ); }
  table( F, "q", q, "configuration of every body" ); table( F, "v", v, "velocity of every body" ); table( F, "m", mm, "mass and inertia of every body" ); counts( F, "kinematically_scripted", fixed, 4, "which bodies are scripted" );
  const char* W = "each body names the kind of its shape and its number among the shapes of that kind"; const h5::Set* ix = set( F, "geometry/geometry_indices", W ); vp_check( ix->type.kind == 4 && shaped( ix, 2, unsigned( n ) ), W );
  for( int k = 0; k < n; ++k ) { vp_check( val<int>( ix, std::size_t( k ) ) == box[gi( k )], W ); vp_check( val<int>( ix, std::size_t( n + k ) ) == local[gi( k )], W ); }
  const char* C = "every circle's radius is stored"; if( !r.empty() ) { const h5::Set* t = set( F, "geometry/circles", C ); vp_check( records( t, C ) == r.size(), C ); for( std::size_t k = 0; k < r.size(); ++k ) Rec{ t, k, C }.num( "r", r[k] ); } else vp_check( !has( F, "geometry/circles" ), C );
  const char* B = "every box's half widths are stored"; if( !hw.empty() ) { const h5::Set* t = set( F, "geometry/boxes", B ); vp_check( records( t, B ) == hw.size(), B ); for( std::size_t k = 0; k < hw.size(); ++k ) Rec{ t, k, B }.nums( "r", hw[k] ); } else vp_check( !has( F, "geometry/boxes" ), B );
  vp_check( !has( F, "static_geometry/static_planes" ) && !has( F, "static_geometry/planar_portals" ), "no boundaries, no data" );
  samev( s.q(), q, "writing changes nothing" ); samev( s.v(), v, "writing changes nothing" ); vp_check( h5::openIds() == 0, "a closed file leaves nothing open" ); vp_cover( "end" );
}
VP_HARNESS( hdf_rb2d_portals )
{
  h5::reset(); RigidBody2DSim sim; RigidBody2DState& s = sim.state(); Geo g; g.emplace_back( new CircleGeometry{ 1.0 } ); VectorXu gi( 1 ); gi << 0u; s = RigidBody2DState( sv( "q", 3, -9, 9 ), sv( "v", 3, -9, 9 ), VectorXs::Ones( 3 ), { false }, gi, g, Forces{}, {}, {} );
  const int np = 1 + vp_choose( "portals", 0, 2 ); std::vector<Vector2s> xa, na, xb, nb; std::vector<double> w, sp;
  for( int k = 0; k < np; ++k )
  {
    xa.push_back( sv2( "xa", k, -50, 50 ) ); na.push_back( su2( "na", k ) ); xb.push_back( sv2( "xb", k, -50, 50 ) ); nb.push_back( su2( "nb", k ) ); sp.push_back( vp_real( "sp", k, -9, 9 ) ); w.push_back( vp_real( "wd", k, 1, 9 ) );
    s.planarPortals().emplace_back( RigidBody2DStaticPlane{ xa[k], na[k] }, RigidBody2DStaticPlane{ xb[k], nb[k] }, sp[k], w[k] );
  }
  const bool wall = vp_bool( "wall", 0 ); const Vector2s px = sv2( "px", 0, -9, 9 ), pn = su2( "pn", 0 ); if( wall ) s.planes().emplace_back( px, pn );
  { HDF5File f{ F, HDF5AccessType::READ_WRITE }; sim.writeBinaryState( f ); }
  vp_check( has( F, "static_geometry/static_planes" ) == wall, "planes are stored next to portals" ); if( wall ) { const char* Q = "every plane's point and normal are stored"; const h5::Set* t = set( F, "static_geometry/static_planes", Q ); vp_check( records( t, Q ) == 1, Q ); Rec{ t, 0, Q }.nums( "x", px ); Rec{ t, 0, Q }.nums( "n", pn ); }
  const char* P = "every portal's planes, speed and extent are stored"; const h5::Set* t = set( F, "static_geometry/planar_portals", P ); vp_check( records( t, P ) == std::size_t( np ), P );
  for( int k = 0; k < np; ++k ) { const Rec r{ t, std::size_t( k ), P }; r.nums( "x0", xa[k] ); r.nums( "n0", na[k] ); r.nums( "x1", xb[k] ); r.nums( "n1", nb[k] ); r.num( "v", sp[k] ); r.num( "width", w[k] ); r.num( "delta", s.planarPortals()[k].delta() ); }
  vp_check( h5::openIds() == 0, "a closed file leaves nothing open" ); vp_cover( "end" );
}
VP_HARNESS( hdf_rb2d_planes )
{
  h5::reset(); RigidBody2DSim sim; RigidBody2DState& s = sim.state(); Geo g; g.emplace_back( new CircleGeometry{ 1.0 } ); const int n = vp_choose( "n", 0, 4 ); VectorXs mm( 3 * n ); VectorXu gi( n ), fixed( n ); std::vector<bool> fx; for( int k = 0; k < n; ++k ) { mm( 3 * k ) = mm( 3 * k + 1 ) = k + 1.0; mm( 3 * k + 2 ) = k + 5.0; gi( k ) = 0u; fx.push_back( k % 2 ); fixed( k ) = k % 2; }
  const VectorXs q = sv( "q", 3 * n, -9, 9 ), v = sv( "v", 3 * n, -9, 9 ); s = RigidBody2DState( q, v, mm, fx, gi, g, Forces{}, {}, {} );
  const int np = vp_choose( "planes", 0, 3 ); std::vector<Vector2s> X, N; for( int k = 0; k < np; ++k ) { X.push_back( sv2( "px", k, -100, 100 ) ); N.push_back( su2( "pn", k ) ); s.planes().emplace_back( X[k], N[k] ); }
  { HDF5File f{ F, HDF5AccessType::READ_WRITE }; sim.writeBinaryState( f ); }
  table( F, "q", q, "configuration of every body" ); table( F, "v", v, "velocity of every body" ); table( F, "m", mm, "mass and inertia of every body" ); counts( F, "kinematically_scripted", fixed, 4, "which bodies are scripted" );
  const char* P = "every plane's point and normal are stored"; if( np ) { const h5::Set* t = set( F, "static_geometry/static_planes", P ); vp_check( records( t, P ) == std::size_t( np ), P ); for( int k = 0; k < np; ++k ) { Rec{ t, std::size_t( k ), P }.nums( "x", X[k] ); Rec{ t, std::size_t( k ), P }.nums( "n", N[k] ); } } else vp_check( !has( F, "static_geometry/static_planes" ), P );
  vp_check( h5::openIds() == 0, "a closed file leaves nothing open" ); vp_cover( "end" );
}
