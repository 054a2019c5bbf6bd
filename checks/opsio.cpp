// P29: solver configurations survive checkpoints and copying
#include "sys.h"
#include <sstream>
#include "scisim/ConstrainedMaps/ConstrainedMapUtilities.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GRROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorQL.h"
#include "scisim/ConstrainedMaps/FrictionMaps/LinearMDPOperatorQL.h"
#include "scisim/ConstrainedMaps/FrictionMaps/BoundConstrainedMDPOperatorQL.h"
#include "scisim/ConstrainedMaps/GeometricImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/StaggeredProjections.h"
#include "scisim/ConstrainedMaps/GRRFriction.h"
#include "scisim/ConstrainedMaps/Sobogus.h"
using std::unique_ptr;
namespace CMU = ConstrainedMapUtilities;
static int pick( const char* n, const int lo, const int end ) { return lo + vp_choose( n, 0, end - lo ); }
static const char* RESTORED = "restored settings are the written ones";
static scalar pos( const char* n ) { return vp_real( n, 0, 1e-12, 10.0 ); }
static unsigned cnt( const char* n ) { return unsigned( vp_int( n, 0, 0, 1 << 20 ) ); }
// ---- impact operators
static unique_ptr<ImpactOperator> leaf( const int k, const char* t, const char* c )
{
  unique_ptr<ImpactOperator> r;
  if( k == 1 ) r.reset( new GaussSeidelOperator{ pos( t ) } ); else if( k == 2 ) r.reset( new LCPOperatorAPGD{ pos( t ), cnt( c ) } ); else if( k == 3 ) r.reset( new LCPOperatorQL{ pos( t ) } );
  return r;
}
static unique_ptr<ImpactOperator> impactOp( const int k )
{
  unique_ptr<ImpactOperator> r = leaf( k, "t1", "c1" );
  if( k == 4 ) r.reset( new GROperator{ pos( "gr" ), *leaf( pick( "l1", 1, 4 ), "t1", "c1" ) } );
  if( k == 5 ) r.reset( new GRROperator{ GROperator{ pos( "gr" ), *leaf( pick( "l1", 1, 4 ), "t1", "c1" ) }, *leaf( pick( "l2", 1, 4 ), "t2", "c2" ) } );
  return r;
}
static void same( const ImpactOperator* a, const ImpactOperator* b )
{
  vp_check( ( a == nullptr ) == ( b == nullptr ), "an absent impact operator stays absent" ); if( !a ) return;
  vp_check( a != b && a->name() == b->name(), "the impact operator is of the same kind" ); const std::string n = a->name();
  if( n == "gauss_seidel" ) vp_check_same( static_cast<const GaussSeidelOperator*>( a )->m_v_tol, static_cast<const GaussSeidelOperator*>( b )->m_v_tol, RESTORED );
  else if( n == "lcp_ql" ) vp_check_same( static_cast<const LCPOperatorQL*>( a )->m_tol, static_cast<const LCPOperatorQL*>( b )->m_tol, RESTORED );
  else if( n == "lcp_apgd" ) { auto x = static_cast<const LCPOperatorAPGD*>( a ), y = static_cast<const LCPOperatorAPGD*>( b ); vp_check_same( x->m_tol, y->m_tol, RESTORED ); vp_check( x->m_max_iters == y->m_max_iters, RESTORED ); }
  else if( n == "gr" ) { auto x = static_cast<const GROperator*>( a ), y = static_cast<const GROperator*>( b ); vp_check_same( x->m_v_tol, y->m_v_tol, RESTORED ); same( x->m_impact_operator.get(), y->m_impact_operator.get() ); }
  else if( n == "grr" ) { auto x = static_cast<const GRROperator*>( a ), y = static_cast<const GRROperator*>( b ); same( x->m_elastic_operator.get(), y->m_elastic_operator.get() ); same( x->m_inelastic_operator.get(), y->m_inelastic_operator.get() ); }
  else vp_check( false, "known impact operators only" );
}
// ---- friction operators
static unique_ptr<FrictionOperator> frictionOp( const int k )
{
  unique_ptr<FrictionOperator> r; if( k == 1 ) r.reset( new LinearMDPOperatorQL{ int( cnt( "disk" ) ), pos( "ft" ) } ); else if( k == 2 ) r.reset( new BoundConstrainedMDPOperatorQL{ pos( "ft" ) } ); return r;
}
static void same( const FrictionOperator* a, const FrictionOperator* b )
{
  vp_check( ( a == nullptr ) == ( b == nullptr ), "an absent friction operator stays absent" ); if( !a ) return;
  vp_check( a != b && a->name() == b->name(), "the friction operator is of the same kind" ); const std::string n = a->name();
  vp_check( a->numFrictionImpulsesPerNormal() == b->numFrictionImpulsesPerNormal() && a->isLinearized() == b->isLinearized(), RESTORED );
  if( n == "linear_mdp_ql" ) { auto x = static_cast<const LinearMDPOperatorQL*>( a ), y = static_cast<const LinearMDPOperatorQL*>( b ); vp_check( x->m_disk_samples == y->m_disk_samples, RESTORED ); vp_check_same( x->m_tol, y->m_tol, RESTORED ); }
  else if( n == "bound_constrained_mdp_ql" ) vp_check_same( static_cast<const BoundConstrainedMDPOperatorQL*>( a )->m_tol, static_cast<const BoundConstrainedMDPOperatorQL*>( b )->m_tol, RESTORED );
  else vp_check( false, "known friction operators only" );
}
// ---- friction solvers
static unique_ptr<FrictionSolver> solver( const int k, const int ik, const int fk )
{
  unique_ptr<FrictionSolver> r;
  if( k == 1 ) r.reset( new StaggeredProjections{ vp_bool( "wa", 0 ), vp_bool( "wb", 0 ), *impactOp( ik ), *frictionOp( fk ) } );
  else if( k == 2 ) r.reset( new GRRFriction{ *impactOp( ik ), *frictionOp( fk ) } );
  else if( k == 3 ) { const int t = pick( "type", 0, 3 ); r.reset( new Sobogus{ t == 0 ? SobogusSolverType::Balls2D : t == 1 ? SobogusSolverType::RigidBody2D : SobogusSolverType::RigidBodies3D, cnt( "every" ) } ); }
  return r;
}
static void same( const FrictionSolver* a, const FrictionSolver* b )
{
  vp_check( ( a == nullptr ) == ( b == nullptr ), "an absent friction solver stays absent" ); if( !a ) return;
  vp_check( a->name() == b->name(), "the friction solver is of the same kind" ); const std::string n = a->name();
  if( n == "staggered_projections" ) { auto x = static_cast<const StaggeredProjections*>( a ), y = static_cast<const StaggeredProjections*>( b ); vp_check( x->m_warm_start_alpha == y->m_warm_start_alpha && x->m_warm_start_beta == y->m_warm_start_beta, RESTORED ); same( x->m_impact_operator.get(), y->m_impact_operator.get() ); same( x->m_friction_operator.get(), y->m_friction_operator.get() ); }
  else if( n == "grr_friction" ) { auto x = static_cast<const GRRFriction*>( a ), y = static_cast<const GRRFriction*>( b ); same( x->m_impact_operator.get(), y->m_impact_operator.get() ); same( x->m_friction_operator.get(), y->m_friction_operator.get() ); }
  else if( n == "sobogus" ) { auto x = static_cast<const Sobogus*>( a ), y = static_cast<const Sobogus*>( b ); vp_check( x->m_solver_type == y->m_solver_type && x->m_eval_every == y->m_eval_every, RESTORED ); }
  else vp_check( false, "known friction solvers only" );
}
static void tail( Tape& io ) { char z = 0; io.read( &z, 1 ); vp_check( z == 'Z', "restoring consumes exactly the checkpoint" ); vp_cover( "end" ); }
template<class T, class F> void trip( const unique_ptr<T>& m, F read ) { Tape io; CMU::serialize( m, io ); io.write( "Z", 1 ); const unique_ptr<T> r = read( io ); same( m.get(), r.get() ); tail( io ); }

VP_HARNESS( io_impact ) { trip( impactOp( pick( "k", 0, 6 ) ), []( std::istream& i ) { return CMU::deserializeImpactOperator( i ); } ); }
VP_HARNESS( io_friction ) { trip( frictionOp( pick( "k", 0, 3 ) ), []( std::istream& i ) { return CMU::deserializeFrictionOperator( i ); } ); }
VP_HARNESS( io_solver ) { const int k = pick( "k", 0, 4 ); trip( solver( k, k == 1 || k == 2 ? pick( "ik", 1, 6 ) : 0, k == 1 || k == 2 ? pick( "fk", 1, 3 ) : 0 ), []( std::istream& i ) { return CMU::deserializeFrictionSolver( i ); } ); }
VP_HARNESS( copy_impact ) { auto a = impactOp( pick( "k", 1, 6 ) ); const auto c = a->clone(); same( a.get(), c.get() ); const auto d = c->clone(); same( impactOp( pick( "k", 1, 6 ) ).get(), d.get() ); vp_cover( "end" ); }
VP_HARNESS( copy_friction ) { auto a = frictionOp( pick( "k", 1, 3 ) ); const auto c = a->clone(); same( a.get(), c.get() ); vp_cover( "end" ); }
// ---- maps
static void same( const ImpactMap* a, const ImpactMap* b ) { vp_check( ( a == nullptr ) == ( b == nullptr ), "an absent impact map stays absent" ); if( a ) vp_check( a->m_warm_start == b->m_warm_start, RESTORED ); }
VP_HARNESS( io_map ) { unique_ptr<ImpactMap> m; if( pick( "k", 0, 2 ) ) m.reset( new ImpactMap{ vp_bool( "warm", 0 ) } ); trip( m, []( std::istream& i ) { return CMU::deserializeImpactMap( i ); } ); }
static void same( const ImpactFrictionMap* a, const ImpactFrictionMap* b )
{
  vp_check( ( a == nullptr ) == ( b == nullptr ), "an absent scheme stays absent" ); if( !a ) return;
  vp_check( a->name() == b->name(), "the scheme is of the same kind" ); const std::string n = a->name();
#define COMMON( T ) auto x = static_cast<const T*>( a ), y = static_cast<const T*>( b ); samev( x->m_f, y->m_f, "last contact forces are restored" ); vp_check_same( x->m_abs_tol, y->m_abs_tol, RESTORED ); vp_check( x->m_max_iters == y->m_max_iters, RESTORED );
  if( n == "geometric_impact_friction_map" ) { COMMON( GeometricImpactFrictionMap ) vp_check( x->m_impulses_to_cache == y->m_impulses_to_cache, RESTORED ); }
  else if( n == "stabilized_impact_friction_map" ) { COMMON( StabilizedImpactFrictionMap ) vp_check( x->m_external_warm_start_alpha == y->m_external_warm_start_alpha && x->m_external_warm_start_beta == y->m_external_warm_start_beta, RESTORED ); }
  else if( n == "symplectic_euler_impact_friction_map" ) { COMMON( SymplecticEulerImpactFrictionMap ) vp_check( x->m_impulses_to_cache == y->m_impulses_to_cache && x->m_stabilize == y->m_stabilize, RESTORED ); vp_check_same( x->m_penetration_threshold, y->m_penetration_threshold, RESTORED ); }
  else vp_check( false, "known schemes only" );
}
static ImpulsesToCache mode() { const int k = pick( "mode", 0, 3 ); return k == 0 ? ImpulsesToCache::NONE : k == 1 ? ImpulsesToCache::NORMAL : ImpulsesToCache::NORMAL_AND_FRICTION; }
VP_HARNESS( io_scheme )
{
  unique_ptr<ImpactFrictionMap> m; const int k = pick( "k", 0, 4 ); VectorXs f( pick( "nf", 0, 3 ) ); for( int i = 0; i < f.size(); ++i ) f( i ) = vp_real( "f", i, -100, 100 );
  if( k == 1 ) { auto p = new GeometricImpactFrictionMap{ pos( "t" ), cnt( "n" ), mode() }; p->m_f = f; m.reset( p ); }
  if( k == 2 ) { auto p = new StabilizedImpactFrictionMap{ pos( "t" ), cnt( "n" ), vp_bool( "wa", 0 ), vp_bool( "wb", 0 ) }; p->m_f = f; m.reset( p ); }
  if( k == 3 ) { auto p = new SymplecticEulerImpactFrictionMap{ pos( "t" ), cnt( "n" ), mode(), vp_bool( "s", 0 ), pos( "thr" ) }; p->m_f = f; m.reset( p ); }
  if( k == 1 ) { auto p = static_cast<GeometricImpactFrictionMap*>( m.get() ); vp_check_same( p->m_abs_tol, pos( "t" ), "settings are the given ones" ); vp_check( p->m_max_iters == cnt( "n" ) && p->m_impulses_to_cache == mode(), "settings are the given ones" ); }
  if( k == 2 ) { auto p = static_cast<StabilizedImpactFrictionMap*>( m.get() ); vp_check_same( p->m_abs_tol, pos( "t" ), "settings are the given ones" ); vp_check( p->m_max_iters == cnt( "n" ) && p->m_external_warm_start_alpha == vp_bool( "wa", 0 ) && p->m_external_warm_start_beta == vp_bool( "wb", 0 ), "settings are the given ones" ); }
  if( k == 3 ) { auto p = static_cast<SymplecticEulerImpactFrictionMap*>( m.get() ); vp_check_same( p->m_abs_tol, pos( "t" ), "settings are the given ones" ); vp_check_same( p->m_penetration_threshold, pos( "thr" ), "settings are the given ones" ); vp_check( p->m_max_iters == cnt( "n" ) && p->m_impulses_to_cache == mode() && p->m_stabilize == vp_bool( "s", 0 ), "settings are the given ones" ); }
  trip( m, []( std::istream& i ) { return CMU::deserializeImpactFrictionMap( i ); } );
}
