// Solver, integrator and portal elements of a scene, shared by the three dimensions. P30.
#pragma once
#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#ifndef CACHE_ATTR
#define CACHE_ATTR 1
#endif
template<class T> static void sameThing( const std::unique_ptr<T>& a, const T& b, const char* msg ) { vp_check( a != nullptr, msg ); if( !a ) return; vp_check( a->name() == b.name(), msg ); if( a->name() == b.name() ) sameText( stored( *a ), stored( b ), msg ); }
template<class T> static void sameName( const std::unique_ptr<T>& a, const T& b, const char* msg ) { vp_check( a != nullptr, msg ); if( a ) vp_check( a->name() == b.name(), msg ); }
static double cv( int k ) { return vp_real( "c", k, -1, 2 ); }
static std::string Cc( int k ) { return tokd( k, cv( k ) ); }
static void lcp( Doc& d, const char* e, int kind, int b )
{
  d.open( e ).at( "name", kind == 0 ? "ql" : kind == 1 ? "ql_vp" : kind == 2 ? "apgd" : "newton" ).at( "tol", kind == 2 ? R( b ) : Pp( b ) ); if( kind == 2 ) d.at( "max_iters", I( b + 1, 0, 5000 ) ); d.end();
}
// ---- impact operators
static bool impactDoc( Doc& d, int kind )
{
  head( d ); d.open( "impact_operator" ).at( "type", kind == 0 ? "gauss_seidel" : kind == 1 ? "jacobi" : kind <= 4 ? "lcp" : kind == 5 ? "gr" : kind == 6 ? "grr" : "other" ).at( "CoR", Cc( 60 ) ); if( CACHE_ATTR ) d.at( "cache_impulses", B( 61 ) );
  if( kind <= 1 || kind == 5 ) d.at( "v_tol", R( 62 ) );
  if( kind <= 1 || kind == 7 ) d.end();
  else { d.body(); if( kind <= 4 ) lcp( d, "solver", kind - 2, 63 ); else if( kind == 5 ) lcp( d, "solver", 0, 63 );
    else { d.open( "elastic_operator" ).at( "type", "gr" ).at( "v_tol", R( 65 ) ).body(); lcp( d, "solver", 0, 63 ); d.close( "elastic_operator" ); d.open( "inelastic_operator" ).at( "type", "lcp" ).body(); lcp( d, "solver", 0, 66 ); d.close( "inelastic_operator" ); }
    d.close( "impact_operator" ); }
  d.close( ROOT ); return true;
}
static void impactSame( Scene& s, int kind )
{
  const char* m = "the impact operator is the one described";
  if( kind == 0 ) sameThing<ImpactOperator>( s.iop, GaussSeidelOperator{ rv( 62 ) }, m );
  if( kind == 1 ) sameName<ImpactOperator>( s.iop, JacobiOperator{ rv( 62 ) }, m );
  if( kind == 2 ) sameThing<ImpactOperator>( s.iop, LCPOperatorQL{ pv( 63 ) }, m );
  if( kind == 3 ) sameName<ImpactOperator>( s.iop, LCPOperatorQLVP{ pv( 63 ) }, m );
#if HAS_APGD
  if( kind == 4 ) sameThing<ImpactOperator>( s.iop, LCPOperatorAPGD{ rv( 63 ), unsigned( iv( 64, 0, 5000 ) ) }, m );
#endif
  if( kind == 5 ) sameThing<ImpactOperator>( s.iop, GROperator{ rv( 62 ), LCPOperatorQL{ pv( 63 ) } }, m );
  if( kind == 6 ) sameThing<ImpactOperator>( s.iop, GRROperator{ GROperator{ rv( 65 ), LCPOperatorQL{ pv( 63 ) } }, LCPOperatorQL{ pv( 66 ) } }, m );
}
static void impactKind( int lo, int n )
{
  const int kind = lo + vp_choose( "kind", 0, n ); Doc d; impactDoc( d, kind ); bool want = kind != 7 && ( HAS_APGD || kind != 4 );
  if( kind <= 1 || kind == 5 ) want = want & ( rv( 62 ) >= 0 ); if( kind == 6 ) want = want & ( rv( 65 ) >= 0 ); if( kind == 4 && HAS_APGD ) want = want & ( rv( 63 ) > 0 );
  vp_assume( ( cv( 60 ) >= 0 ) & ( cv( 60 ) <= 1 ) ); Scene s{ d }; vp_check( s.ok == want, "an impact operator is accepted exactly when it is a known one with tolerances in range" ); if( !s.ok ) { vp_cover( "refused" ); return; }
  impactSame( s, kind ); vp_check_same( s.CoR, cv( 60 ), "the coefficient of restitution is the one given" ); vp_check( !s.fs && !s.ifm, "no friction that is not in the file" );
#if CACHE_ATTR
  sameObject<ImpactMap>( s.imap, ImpactMap{ bvv( 61 ) }, "impulses are cached exactly when asked for" );
#endif
  vp_cover( "end" );
}
static void impactBroken() { const int which = vp_choose( "how", 0, 2 ), k = vp_choose( "which", 0, 11 ), kk = vp_choose( "kind", 0, 3 ), kind = kk == 0 ? 0 : kk == 1 ? ( HAS_APGD ? 4 : 2 ) : 6; Doc d; ( which ? d.junk : d.drop ) = k + 2; impactDoc( d, kind ); if( !d.hit ) { vp_cover( "whole" ); return; } Scene s{ d }; vp_check( !s.ok, "an impact operator with a value missing or unreadable is refused" ); vp_cover( "broken" ); }
// ---- friction: so-bogus
static bool sobogusDoc( Doc& d, int stag, int cache )
{
  head( d ); d.open( "sobogus_friction_solver" ).at( "mu", R( 70 ) ).at( "CoR", Cc( 71 ) ).at( "max_iters", I( 72, -3, 5000 ) ).at( "eval_every", I( 73, -3, 5000 ) ).at( "tol", R( 74 ) );
  if( SOB_CACHE || stag == 1 ) d.at( "cache_impulses", cache == 0 ? "none" : cache == 1 ? "normal" : "normal_and_friction" ); d.at( "staggering", stag == 0 ? "geometric" : stag == 1 ? "symplectic_euler" : stag == 2 ? "stabilized" : "other" ); if( stag == 1 ) d.at( "stabilization", B( 75 ) ).at( "penetration_threshold", R( 76 ) ); d.end(); d.close( ROOT ); return true;
}
static bool sobogusFine( int stag ) { const bool base = ( rv( 70 ) >= 0 ) & ( cv( 71 ) >= 0 ) & ( cv( 71 ) <= 1 ) & ( iv( 72, -3, 5000 ) > 0 ) & ( iv( 73, -3, 5000 ) > 0 ) & ( iv( 73, -3, 5000 ) <= iv( 72, -3, 5000 ) ) & ( rv( 74 ) >= 0 ); return stag == 1 ? base & ( cv( 71 ) == 0 ) & ( rv( 76 ) >= 0 ) & ( HAS_SE != 0 ) : base & ( stag != 3 ); }
static void sobogusCase()
{
  const int stag = vp_choose( "stag", 0, 4 ), cache = vp_choose( "cache", 0, 3 ); Doc d; sobogusDoc( d, stag, cache ); const bool clash = stag == 2 && cache != 0 && STAB_CLASH; if( clash ) vp_allow_exit( 1 );
  Scene s{ d }; if( clash ) vp_check( !s.ok, "caching with the stabilized staggering is refused" ); else vp_check( s.ok == sobogusFine( stag ), "a friction solver is accepted exactly when its numbers are in range" ); if( !s.ok ) { vp_cover( "refused" ); return; }
  const ImpulsesToCache ic = !SOB_CACHE && stag != 1 ? ImpulsesToCache::NONE : cache == 0 ? ImpulsesToCache::NONE : cache == 1 ? ImpulsesToCache::NORMAL : ImpulsesToCache::NORMAL_AND_FRICTION; const unsigned mi = unsigned( iv( 72, -3, 5000 ) );
  sameThing<FrictionSolver>( s.fs, Sobogus{ SOBOGUS, unsigned( iv( 73, -3, 5000 ) ) }, "the friction solver is the one described" ); vp_check_same( s.mu, rv( 70 ), "the coefficient of friction is the one given" ); vp_check_same( s.CoR, cv( 71 ), "the coefficient of restitution is the one given" ); vp_check( !s.iop, "no impact operator that is not in the file" );
  const char* m = "the friction map is the one described";
  if( stag == 0 ) sameThing<ImpactFrictionMap>( s.ifm, GeometricImpactFrictionMap{ rv( 74 ), mi, ic }, m );
#if HAS_SE
  if( stag == 1 ) sameThing<ImpactFrictionMap>( s.ifm, SymplecticEulerImpactFrictionMap{ rv( 74 ), mi, ic, bvv( 75 ), rv( 76 ) }, m );
#endif
  if( stag == 2 ) sameThing<ImpactFrictionMap>( s.ifm, StabilizedImpactFrictionMap{ rv( 74 ), mi, false, false }, m );
  vp_cover( "end" );
}
static void sobogusBroken() { const int which = vp_choose( "how", 0, 2 ), k = vp_choose( "which", 0, 9 ), stag = HAS_SE ? vp_choose( "stag", 0, 2 ) : 0; vp_allow_exit( 1 ); Doc d; ( which ? d.junk : d.drop ) = k + 2; sobogusDoc( d, stag, 0 ); if( !d.hit ) { vp_cover( "whole" ); return; } Scene s{ d }; vp_check( !s.ok, "a friction solver with a value missing or unreadable is refused" ); vp_cover( "broken" ); }
// ---- friction: staggered projections
#if HAS_MDP
static bool stagDoc( Doc& d, int stag, int kind )
{
  head( d ); d.open( "staggered_projections_friction_solver" ).at( "mu", R( 70 ) ).at( "CoR", Cc( 71 ) ).at( "max_iters", I( 72, -3, 5000 ) ).at( "tol", R( 74 ) ).at( "internal_warm_start_alpha", B( 77 ) ).at( "internal_warm_start_beta", B( 78 ) ).at( "staggering", stag == 0 ? "geometric" : stag == 1 ? "stabilized" : "other" ).body(); lcp( d, "lcp_impact_solver", kind, 63 ); d.open( "mdp_friction_solver" ).at( "name", "ql" ).at( "tol", R( 79 ) ).end(); d.close( "staggered_projections_friction_solver" ); d.close( ROOT ); return true;
}
static void stagCase()
{
  const int stag = vp_choose( "stag", 0, 3 ), kind = HAS_APGD ? 2 * vp_choose( "kind", 0, 2 ) : 0; Doc d; stagDoc( d, stag, kind ); bool want = ( rv( 70 ) >= 0 ) & ( cv( 71 ) >= 0 ) & ( cv( 71 ) <= 1 ) & ( iv( 72, -3, 5000 ) > 0 ) & ( rv( 74 ) >= 0 ) & ( rv( 79 ) >= 0 ) & ( stag != 2 ); if( kind == 2 ) want = want & ( rv( 63 ) > 0 );
  Scene s{ d }; vp_check( s.ok == want, "a friction solver is accepted exactly when its numbers are in range" ); if( !s.ok ) { vp_cover( "refused" ); return; }
  vp_check_same( s.mu, rv( 70 ), "the coefficient of friction is the one given" ); vp_check_same( s.CoR, cv( 71 ), "the coefficient of restitution is the one given" ); vp_check( !s.iop, "no impact operator that is not in the file" );
  const BoundConstrainedMDPOperatorQL fo{ rv( 79 ) }; const char* m = "the friction solver is the one described";
  if( kind == 0 ) sameThing<FrictionSolver>( s.fs, StaggeredProjections{ bvv( 77 ), bvv( 78 ), LCPOperatorQL{ pv( 63 ) }, fo }, m ); else sameThing<FrictionSolver>( s.fs, StaggeredProjections{ bvv( 77 ), bvv( 78 ), LCPOperatorAPGD{ rv( 63 ), unsigned( iv( 64, 0, 5000 ) ) }, fo }, m );
  const unsigned mi = unsigned( iv( 72, -3, 5000 ) ); if( stag == 0 ) sameThing<ImpactFrictionMap>( s.ifm, GeometricImpactFrictionMap{ rv( 74 ), mi, ImpulsesToCache::NONE }, m ); else sameThing<ImpactFrictionMap>( s.ifm, StabilizedImpactFrictionMap{ rv( 74 ), mi, false, false }, m );
  vp_cover( "end" );
}
static void stagBroken() { const int which = vp_choose( "how", 0, 2 ), k = vp_choose( "which", 0, 12 ); Doc d; ( which ? d.junk : d.drop ) = k + 2; stagDoc( d, 0, HAS_APGD ? 2 : 0 ); if( !d.hit ) { vp_cover( "whole" ); return; } Scene s{ d }; vp_check( !s.ok, "a friction solver with a value missing or unreadable is refused" ); vp_cover( "broken" ); }
#endif
// ---- one way of resolving contact only; integrators; end time
static void together()
{
  const int a = vp_choose( "first", 0, 3 ), b = vp_choose( "second", 0, 3 ); vp_assume( a < b ); Doc d; head( d );
  for( int k = 0; k < 3; ++k ) if( k == a || k == b ) {
    if( k == 0 ) d.open( "impact_operator" ).at( "type", "gauss_seidel" ).at( "CoR", "1" ).at( "cache_impulses", "0" ).at( "v_tol", "0.5" ).end();
    if( k == 1 ) { d.open( "staggered_projections_friction_solver" ).at( "mu", "1" ).at( "CoR", "1" ).at( "max_iters", "5" ).at( "tol", "0.5" ).at( "internal_warm_start_alpha", "0" ).at( "internal_warm_start_beta", "0" ).at( "staggering", "geometric" ).body(); lcp( d, "lcp_impact_solver", 0, 63 ); d.open( "mdp_friction_solver" ).at( "name", "ql" ).at( "tol", "0.5" ).end(); d.close( "staggered_projections_friction_solver" ); }
    if( k == 2 ) d.open( "sobogus_friction_solver" ).at( "mu", "1" ).at( "CoR", "1" ).at( "max_iters", "5" ).at( "eval_every", "1" ).at( "tol", "0.5" ).at( "cache_impulses", "none" ).at( "staggering", "geometric" ).end(); }
  d.close( ROOT ); if( !HAS_MDP ) vp_allow_exit( 1 ); Scene s{ d }; vp_check( !s.ok, "two ways of resolving contact in one scene are refused" ); vp_cover( "end" );
}
// the step: a decimal or a fraction, positive
static void stepCase()
{
  const char* names[] = { INTEGRATORS, "other" }; const int k = vp_choose( "kind", 0, N_INTEGRATORS + 1 ), t = vp_choose( "dt", 0, 7 ); const char* ts[] = { "0.01", "1/200", "2", "0", "-0.5", "x", "1/0" }; const long nn[] = { 1, 1, 2 }, dd[] = { 100, 200, 1 };
  Doc d; d.open( ROOT ).body(); d.open( "integrator" ).at( "type", names[k] ).at( "dt", ts[t] ).end(); d.close( ROOT ); Scene s{ d }; vp_check( s.ok == ( k < N_INTEGRATORS && t < 3 ), "an integrator is accepted exactly when it is known and its step is a positive number" ); if( !s.ok ) { vp_cover( "refused" ); return; }
  vp_check( s.dt.numerator() == nn[t] && s.dt.denominator() == dd[t] && s.dt_string == ts[t], "the step is the one written" ); vp_check( s.integrator != nullptr && s.integrator->name() == names[k], "the integrator is the one named" ); vp_cover( "end" );
}
static void endCase() { Doc d; head( d ); d.open( "end_time" ).at( "t", R( 1 ) ).end(); d.close( ROOT ); Scene s{ d }; vp_check( s.ok == ( rv( 1 ) > 0 ), "an end time is accepted exactly when it is positive" ); if( s.ok ) { vp_check_same( s.end, rv( 1 ), "the end time is the one given" ); vp_cover( "end" ); } else vp_cover( "refused" ); }
