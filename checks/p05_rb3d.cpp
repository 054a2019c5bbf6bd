#define DIMS 3
#include "rigidbody3d/SpatialGridDetector.h"
#define OVERLAPS SpatialGridDetector::getPotentialOverlaps
#include "broadphase.h"
static std::vector<AABB> toAABB( const Box* B, int n ) { std::vector<AABB> r( n ); for( int b = 0; b < n; ++b ) for( int a = 0; a < 3; ++a ) { r[b].min()( a ) = B[b].lo[a]; r[b].max()( a ) = B[b].hi[a]; } return r; }
VP_HARNESS(r3_broad_x) { broad( 2, 1, 2.0 ); }
VP_HARNESS(r3_broad_y) { broad( 2, 2, 2.0 ); }
VP_HARNESS(r3_broad_z) { broad( 2, 4, 2.0 ); }
VP_HARNESS(r3_broad3_z) { broad( 3, 4, 1.5 ); }
VP_HARNESS(r3_allpairs)
{
  Box B[4]; makeBoxes( B, 3, 4, 2.0 ); const std::vector<AABB> A = toAABB( B, 3 );
  std::set<std::pair<unsigned,unsigned>> S; SpatialGridDetector::getPotentialOverlapsAllPairs( A, S );
  for( unsigned i = 0; i < 3; ++i ) for( unsigned j = 0; j < 3; ++j ) vp_check( S.count( { i, j } ) == ( i < j && ov( B[i], B[j] ) ? 1u : 0u ), "exhaustive search reports exactly the overlapping pairs" );
  vp_cover( "end" );
}
VP_HARNESS(r3_broad_tall_x) { broadTall( 0 ); }
VP_HARNESS(r3_broad_tall_y) { broadTall( 1 ); }
VP_HARNESS(r3_broad_tall_z) { broadTall( 2 ); }
