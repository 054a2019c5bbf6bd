// Broad phase: the reported candidate pairs are exactly the overlapping pairs, each once, lower index first.
#pragma once
#include "vp.h"
#include <cmath>
#ifdef VP_THOROUGH
static const int NW = 3;
#else
static const int NW = 2;
#endif
// box b along axis a: width from a small menu, any lower corner
struct Box { double lo[3], hi[3]; };
static const double W[3] = { 1.0, 0.25, 3.5 };
// axes with a symbolic position are given by the bit mask sym; other axes take one of two layouts
static void makeBoxes( Box* B, int n, int sym, double range )
{
  for( int b = 0; b < n; ++b ) for( int a = 0; a < DIMS; ++a )
  {
    const bool sy = ( sym >> a ) & 1;
    const double w = sy ? ( n == 2 ? W[ vp_choose( "w", 3 * b + a, b == 0 ? 1 : NW ) ] : b == 1 ? 0.5 : 1.0 ) : 1.0;
    if( sy ) B[b].lo[a] = n > 2 && b == 0 ? 0.0 : vp_real( "lo", 3 * b + a, b == 0 ? -1.0 : -range, b == 0 ? 1.0 : range );
    else B[b].lo[a] = 0.125 * ( a + 1 ) + ( vp_choose( "far", 3 * b + a, b == n - 1 ? 2 : 1 ) ? 2.75 * b : 0.375 * b );
    B[b].hi[a] = B[b].lo[a] + w;
  }
}
static bool ov( const Box& x, const Box& y )
{
  for( int a = 0; a < DIMS; ++a ) { if( x.hi[a] < y.lo[a] ) return false; if( y.hi[a] < x.lo[a] ) return false; }
  return true;
}
static std::vector<AABB> toAABB( const Box* B, int n );
static void broadCheck( const Box* B, int n );
static void broad( int n, int sym, double range )
{
  Box B[4]; makeBoxes( B, n, sym, range ); broadCheck( B, n );
}
// a box many cells long, a small one anywhere along it, and others far away that keep the cells small
static void broadTall( int axis )
{
  Box B[6]; const int tall = vp_choose( "tall", 0, 2 ) ? 4 : 0; int far = 0;
  for( int b = 0; b < 6; ++b ) for( int a = 0; a < DIMS; ++a )
  {
    double lo = 0.125 * a, w = 1.0; if( b == tall ) { if( a == axis ) w = 10.0; } else if( b == 2 ) { if( a == axis ) lo = vp_real( "along", 0, -1.5, 11.0 ); else lo += 0.5; } else { if( a == 0 ) ++far; if( a != axis ) lo += 10.0 * far; else w = 1.0; }
    B[b].lo[a] = lo; B[b].hi[a] = lo + w;
  }
  broadCheck( B, 6 );
}
static void broadCheck( const Box* B, int n )
{
  const std::vector<AABB> A = toAABB( B, n );
  std::set<std::pair<unsigned,unsigned>> S; OVERLAPS( A, S );
  for( const auto& p : S )
  {
    vp_check( p.first < p.second && p.second < unsigned( n ), "candidate pairs name two different boxes, lower index first" );
    vp_check( ov( B[p.first], B[p.second] ), "every candidate pair overlaps" );
  }
  for( int i = 0; i < n; ++i ) for( int j = i + 1; j < n; ++j )
  {
    const bool o = ov( B[i], B[j] );
    vp_check( A[i].overlaps( A[j] ) == o && A[j].overlaps( A[i] ) == o, "box overlap test matches the intervals" );
    if( o ) vp_check( S.count( { unsigned( i ), unsigned( j ) } ) == 1, "every overlapping pair is a candidate" );
    vp_cover( o ? "overlap" : "apart" );
  }
  vp_cover( "end" );
}
