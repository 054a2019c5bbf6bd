#define DIMS 2
#include "rigidbody2d/SpatialGrid.h"
#define OVERLAPS SpatialGrid::getPotentialOverlaps
#include "broadphase.h"
static std::vector<AABB> toAABB( const Box* B, int n ) { std::vector<AABB> r; for( int b = 0; b < n; ++b ) r.emplace_back( Array2s{ B[b].lo[0], B[b].lo[1] }, Array2s{ B[b].hi[0], B[b].hi[1] } ); return r; }
VP_HARNESS(r2_broad_x) { broad( 2, 1, 4.0 ); }
VP_HARNESS(r2_broad_y) { broad( 2, 2, 4.0 ); }
VP_HARNESS(r2_broad_xy) { broad( 2, 3, 1.5 ); }
VP_HARNESS(r2_broad3_x) { broad( 3, 1, 1.25 ); }
VP_HARNESS(r2_broad3_y) { broad( 3, 2, 1.25 ); }
VP_HARNESS(r2_trial)
{
  Box B[4]; makeBoxes( B, 4, 1, 4.0 ); const std::vector<AABB> A = toAABB( B, 4 ); const std::vector<AABB> L( A.begin() + 1, A.end() );
  std::vector<unsigned> out; SpatialGrid::getPotentialOverlaps( A[0], L, out );
  for( unsigned i = 0; i < 3; ++i ) { int c = 0; for( unsigned k : out ) if( k == i ) ++c; vp_check( c == ( ov( B[0], B[i + 1] ) ? 1 : 0 ), "a trial box reports exactly the boxes it overlaps, once" ); }
  vp_cover( "end" );
}
VP_HARNESS(r2_broad_tall_x) { broadTall( 0 ); }
VP_HARNESS(r2_broad_tall_y) { broadTall( 1 ); }
