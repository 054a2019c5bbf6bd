// P35: force files
#include "friction.cpp"
#include "hdf.h"
#include "scisim/HDF5File.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactSolution.h"
static const char* F = "forces.h5";
// alpha: normal impulses, beta: impulses along the tangents in order (none without friction)
static void recorded( const Set& act, int dim, const VectorXs& q0, const VectorXs& alpha, const VectorXs& beta )
{
  const int n = int( act.size() ); count( F, "collision_count", unsigned( n ), "the number of contacts is stored" );
  if( !n ) { vp_check( !has( F, "collision_indices" ) && !has( F, "collision_forces" ), "no contacts, no data" ); return; }
  const char *I = "each contact names its bodies, or its body and the fixed object", *P = "each contact's point is the one at the start of the step", *N = "each contact's normal is stored", *R = "each contact's force is its normal and friction impulses along its own frame";
  const h5::Set *i = set( F, "collision_indices", I ), *p = set( F, "collision_points", P ), *m = set( F, "collision_normals", N ), *f = set( F, "collision_forces", R ); vp_check( i->type.kind == 3 && shaped( i, 2, unsigned( n ) ), I ); vp_check( p->type.kind == 1 && shaped( p, unsigned( dim ), unsigned( n ) ), P ); vp_check( m->type.kind == 1 && shaped( m, unsigned( dim ), unsigned( n ) ), N ); vp_check( f->type.kind == 1 && shaped( f, unsigned( dim ), unsigned( n ) ), R );
  for( int k = 0; k < n; ++k )
  {
    const Fake& c = static_cast<const Fake&>( *act[k] ); vp_check( val<int>( i, std::size_t( k ) ) == c.i, I ); vp_check( val<int>( i, std::size_t( n + k ) ) == ( c.j >= 0 ? c.j : -( 3 + c.id ) - 2 ), I );
    for( int d = 0; d < dim; ++d )
    {
      vp_check_same( val<double>( p, std::size_t( d * n + k ) ), q0( dim * c.i + d ) + 0.5 * ( d + 1 ), P ); vp_check_same( val<double>( m, std::size_t( d * n + k ) ), c.B( d, 0 ), N );
      double x = alpha( k ) * c.B( d, 0 ); if( beta.size() ) for( int t = 0; t < dim - 1; ++t ) x += beta( ( dim - 1 ) * k + t ) * c.B( d, 1 + t ); vp_check_eq( val<double>( f, std::size_t( d * n + k ) ), x, R );
    }
  }
}
template<class Map> static void friction( Map& map, int dim, int which, int mode )
{
  h5::reset(); Step s( dim, which, mode ); { HDF5File f{ F, HDF5AccessType::READ_WRITE }; map.exportForcesNextStep( f ); s.run( map ); } recorded( s.w.act, dim, s.q0, s.rs.a, s.rs.b ); vp_check( h5::openIds() == 0, "a closed file leaves nothing open" );
  // only the step asked for is recorded
  const std::size_t sets = h5::file( F )->sets.size(); { HDF5File other{ "g.h5", HDF5AccessType::READ_WRITE }; s.um.inQ.clear(); map.flow( s.cb, s.w.sys, s.w.cs, s.um, s.rs, s.it, s.dt, s.cor, s.mu, s.w.q0, s.w.v0, s.q1, s.v1 ); } vp_check( h5::file( F )->sets.size() == sets && h5::file( "g.h5" )->sets.empty(), "only the step asked for is recorded" ); vp_cover( "end" );
}
static int contacts() { static const int K[3] = { 0, 1, 4 }; return K[vp_choose( "contacts", 0, 3 )]; }
VP_HARNESS( force_geo ) { GeometricImpactFrictionMap map( 0.125, 11, ImpulsesToCache::NONE ); friction( map, 2, contacts(), 0 ); }
VP_HARNESS( force_geo_3d ) { GeometricImpactFrictionMap map( 0.125, 11, ImpulsesToCache::NONE ); friction( map, 3, 4, 0 ); }
VP_HARNESS( force_stab ) { StabilizedImpactFrictionMap map( 0.125, 11, false, false ); friction( map, 2, contacts(), 0 ); }
VP_HARNESS( force_stab_3d ) { StabilizedImpactFrictionMap map( 0.125, 11, false, false ); friction( map, 3, 4, 0 ); }
VP_HARNESS( force_sym ) { SymplecticEulerImpactFrictionMap map( 0.125, 11, ImpulsesToCache::NONE, false, 0.0 ); friction( map, 2, contacts(), 0 ); }
VP_HARNESS( force_sym_3d ) { SymplecticEulerImpactFrictionMap map( 0.125, 11, ImpulsesToCache::NONE, false, 0.0 ); friction( map, 3, 4, 0 ); }
static void impact( int dim, int which )
{
  h5::reset(); World w( dim, 3, some( which ) ); w.sys.amb = unsigned( dim ); const int n = int( w.act.size() ); Script cb; cb.cor = sv( "corS", n, 0, 1 ); TwoStage um; for( int k = 0; k < 2; ++k ) { um.outQ[k] = sv( k ? "qf" : "qp", w.sys.n, -100, 100 ); um.outV[k] = sv( k ? "vf" : "vp", w.sys.n, -100, 100 ); }
  Recorder op; op.sys = &w.sys; ImpactMap map( vp_choose( "warm", 0, 2 ) ); const VectorXs q0 = w.q0; VectorXs q1( w.sys.n ), v1( w.sys.n ); ImpactSolution sol; map.exportForcesNextStep( sol ); map.flow( cb, w.sys, w.cs, um, op, 7, 0.125, 0.5, w.q0, w.v0, q1, v1 ); const VectorXs alpha = op.out;
  { HDF5File f{ F, HDF5AccessType::READ_WRITE }; sol.writeSolution( f ); } recorded( w.act, dim, q0, alpha, VectorXs{} ); vp_check( h5::openIds() == 0, "a closed file leaves nothing open" );
  // a later step leaves the record alone
  um.inQ.clear(); for( int r = 0; r < w.sys.n; ++r ) w.q0( r ) += 1.0; map.flow( cb, w.sys, w.cs, um, op, 8, 0.125, 0.5, w.q0, w.v0, q1, v1 ); { HDF5File f{ F, HDF5AccessType::READ_WRITE }; sol.writeSolution( f ); } recorded( w.act, dim, q0, alpha, VectorXs{} ); vp_cover( "end" );
}
VP_HARNESS( force_impact ) { impact( 2, contacts() ); }
VP_HARNESS( force_impact_3d ) { impact( 3, 4 ); }
