// P34: state files of the ball simulation
#include "sys.h"
#include "hdf.h"
#include "scisim/HDF5File.h"
#include "ball2d/Ball2DSim.h"
static const char* F = "f.h5";
VP_HARNESS( hdf_ball2d )
{
  h5::reset(); Ball2DSim sim; Ball2DState& s = sim.state(); const int n = vp_choose( "n", 0, 4 ), np = vp_choose( "planes", 0, 4 ); const VectorXs q = sv( "q", 2 * n, -100, 100 ), v = sv( "v", 2 * n, -100, 100 ), r = sv( "r", n, 0.01, 50 ), m = sv( "m", n, 0.01, 1000 );
  VectorXs mm( 2 * n ); for( int k = 0; k < 2 * n; ++k ) mm( k ) = m( k / 2 ); s.q() = q; s.v() = v; s.r() = r; s.fixed() = std::vector<bool>( n, false ); s.setMass( mm );
  Matrix2Xsc X( 2, np ), N( 2, np ); for( int k = 0; k < np; ++k ) { X.col( k ) = sv2( "px", k, -100, 100 ); N.col( k ) = su2( "pn", k ); s.staticPlanes().emplace_back( Vector2s{ X.col( k ) }, Vector2s{ N.col( k ) } ); N.col( k ) = s.staticPlanes()[k].n(); }
  s.staticDrums().emplace_back( Vector2s{ 0.0, 0.0 }, 9.0 );
  { HDF5File f{ F, HDF5AccessType::READ_WRITE }; sim.writeBinaryState( f ); }
  if( n ) { table( F, "q", q, "positions of every ball" ); table( F, "v", v, "velocities of every ball" ); table( F, "r", r, "radii of every ball" ); table( F, "m", mm, "masses of every ball" ); } else vp_check( !has( F, "q" ) && !has( F, "v" ), "no balls, no data" );
  if( np ) { table( F, "static_plane_centers", X, "centre of every plane" ); table( F, "static_plane_normals", N, "normal of every plane" ); } else vp_check( !has( F, "static_plane_centers" ), "no planes, no data" );
  samev( s.q(), q, "writing changes nothing" ); samev( s.v(), v, "writing changes nothing" ); vp_check( h5::openIds() == 0, "a closed file leaves nothing open" ); vp_cover( "end" );
}
