#define DIMS 2
#include "ball2d/SpatialGridDetector.h"
#define OVERLAPS SpatialGridDetector::getPotentialOverlaps
#include "broadphase.h"
static std::vector<AABB> toAABB( const Box* B, int n ) { std::vector<AABB> r; for( int b = 0; b < n; ++b ) r.emplace_back( Array2s{ B[b].lo[0], B[b].lo[1] }, Array2s{ B[b].hi[0], B[b].hi[1] } ); return r; }
VP_HARNESS(b2_broad_x) { broad( 2, 1, 4.0 ); }
VP_HARNESS(b2_broad_y) { broad( 2, 2, 4.0 ); }
VP_HARNESS(b2_broad_xy) { broad( 2, 3, 1.5 ); }
VP_HARNESS(b2_broad3_x) { broad( 3, 1, 1.25 ); }
VP_HARNESS(b2_broad3_y) { broad( 3, 2, 1.25 ); }
VP_HARNESS(b2_allpairs)
{
  Box B[4]; makeBoxes( B, 3, 1, 2.0 ); const std::vector<AABB> A = toAABB( B, 3 );
  std::set<std::pair<unsigned,unsigned>> S; SpatialGridDetector::getPotentialOverlapsAllPairs( A, S );
  for( unsigned i = 0; i < 3; ++i ) for( unsigned j = 0; j < 3; ++j ) vp_check( S.count( { i, j } ) == ( i < j && ov( B[i], B[j] ) ? 1u : 0u ), "exhaustive search reports exactly the overlapping pairs" );
  vp_cover( "end" );
}
VP_HARNESS(b2_broad_tall_x) { broadTall( 0 ); }
VP_HARNESS(b2_broad_tall_y) { broadTall( 1 ); }
