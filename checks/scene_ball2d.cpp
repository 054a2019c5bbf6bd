#include "scene.h"
#include "ball2dutils/Ball2DSceneParser.h"
#include "ball2d/Ball2DState.h"
#include "ball2d/Forces/Ball2DForce.h"
#include "ball2d/Forces/Ball2DGravityForce.h"
#include "ball2d/Forces/PenaltyForce.h"
#include "ball2d/StaticGeometry/StaticDrum.h"
#include "ball2d/StaticGeometry/StaticPlane.h"
#include "ball2d/Portals/PlanarPortal.h"
struct Scene {
  std::string script; Ball2DState state; std::unique_ptr<UnconstrainedMap> integrator; std::string dt_string; Rational<std::intmax_t> dt; scalar end = -7; std::unique_ptr<ImpactOperator> iop; std::unique_ptr<ImpactMap> imap; scalar CoR = -7; std::unique_ptr<FrictionSolver> fs; scalar mu = -7; std::unique_ptr<ImpactFrictionMap> ifm;
  bool cam = false; Eigen::Vector2d cc; double scale = -7; unsigned fps = 0; bool at = false, lock = false; bool ok = false;
  explicit Scene( const Doc& d, bool camera = false ) { putFile( "scene.xml", d.s );
    ok = camera ? Ball2DSceneParser::parseXMLSceneFile( "scene.xml", script, state, integrator, dt_string, dt, end, iop, imap, CoR, fs, mu, ifm, cam, cc, scale, fps, at, lock ) : Ball2DSceneParser::parseXMLSceneFile( "scene.xml", script, state, integrator, dt_string, dt, end, iop, imap, CoR, fs, mu, ifm ); }
};
#define ROOT "ball2d_scene"
#define SOBOGUS SobogusSolverType::Balls2D
#define KIND "type"
static void head( Doc& d, const char* kind = "symplectic_euler" ) { d.open( ROOT ).body(); d.open( "integrator" ).at( KIND, kind ).at( "dt", "0.01" ).end(); }
static void ball( Doc& d, int b ) { d.open( "ball" ).at( "x", R( b ) ).at( "y", R( b + 1 ) ).at( "vx", R( b + 2 ) ).at( "vy", R( b + 3 ) ).at( "m", Pp( b + 4 ) ).at( "r", Pp( b + 5 ) ).at( "fixed", B( b + 6 ) ).end(); }
static void sameBall( Ball2DState& s, int i, int b )
{
  for( int k = 0; k < 2; ++k ) { vp_check_same( s.q()( 2 * i + k ), rv( b + k ), "each body starts where its element says" ); vp_check_same( s.v()( 2 * i + k ), rv( b + 2 + k ), "each body starts with the velocity its element says" ); vp_check_same( s.M().coeff( 2 * i + k, 2 * i + k ), pv( b + 4 ), "each body has the mass its element says" ); }
  vp_check_same( s.r()( i ), pv( b + 5 ), "each body has the size its element says" ); vp_check( s.fixed()[i] == bvv( b + 6 ), "a body is fixed exactly when its element says so" );
}
static bool allOf( Doc& d )
{
  head( d ); d.open( "scripting" ).at( "callback", "my_script" ).end(); d.open( "end_time" ).at( "t", Pp( 1 ) ).end(); d.open( "camera" ).at( "cx", R( 2 ) ).at( "cy", R( 3 ) ).at( "scale_factor", R( 4 ) ).at( "fps", I( 5, 0, 1000 ) ).at( "render_at_fps", B( 6 ) ).at( "locked", B( 7 ) ).end();
  ball( d, 10 ); d.open( "gravity" ).at( "fx", R( 40 ) ).at( "fy", R( 41 ) ).end(); d.open( "static_drum" ).at( "x", R( 42 ) ).at( "y", R( 43 ) ).at( "r", Pp( 44 ) ).end(); ball( d, 20 );
  d.open( "penalty" ).at( "stiffness", Pp( 45 ) ).at( "potential_power", R( 46 ) ).end(); d.open( "static_plane" ).at( "x", R( 47 ) + " " + R( 48 ) ).at( "n", "3 -4" ).end(); d.open( "static_drum" ).at( "x", R( 52 ) ).at( "y", R( 53 ) ).at( "r", Pp( 54 ) ).end(); ball( d, 30 );
  d.open( "gravity" ).at( "fx", R( 55 ) ).at( "fy", R( 56 ) ).end(); d.close( ROOT ); return true;
}
VP_HARNESS(sc2_world)
{
  Doc d; allOf( d ); Scene s{ d, true }; vp_check( s.ok, "a complete scene is accepted" ); if( !s.ok ) return;
  vp_check( s.state.nballs() == 3, "as many bodies as elements" ); if( s.state.nballs() != 3 ) return; sameBall( s.state, 0, 10 ); sameBall( s.state, 1, 20 ); sameBall( s.state, 2, 30 );
  vp_check( s.script == "my_script", "the scripting callback is the one named" ); vp_check_same( s.end, pv( 1 ), "the end time is the one given" );
  vp_check( s.cam && s.fps == unsigned( iv( 5, 0, 1000 ) ) && s.at == bvv( 6 ) && s.lock == bvv( 7 ), "camera settings are the ones given" ); vp_check_same( s.cc.x(), rv( 2 ), "camera" ); vp_check_same( s.cc.y(), rv( 3 ), "camera" ); vp_check_same( s.scale, rv( 4 ), "camera" );
  const auto& D = s.state.staticDrums(); vp_check( D.size() == 2, "as many drums as elements" ); if( D.size() == 2 ) for( int i = 0; i < 2; ++i ) { vp_check_same( D[i].x().x(), rv( 42 + 10 * i ), "drum" ); vp_check_same( D[i].x().y(), rv( 43 + 10 * i ), "drum" ); vp_check_same( D[i].r(), pv( 44 + 10 * i ), "drum" ); }
  const auto& P = s.state.staticPlanes(); vp_check( P.size() == 1, "as many planes as elements" ); if( P.size() == 1 ) { vp_check_same( P[0].x().x(), rv( 47 ), "plane" ); vp_check_same( P[0].x().y(), rv( 48 ), "plane" ); vp_check_eq( P[0].n().x(), 0.6, "plane" ); vp_check_eq( P[0].n().y(), -0.8, "plane" ); }
  auto& F = s.state.forces(); vp_check( F.size() == 3, "as many forces as elements" ); if( F.size() == 3 ) { sameObject<Ball2DForce>( F[0], Ball2DGravityForce{ Vector2s{ rv( 40 ), rv( 41 ) } }, "gravity is the one given" ); sameObject<Ball2DForce>( F[1], Ball2DGravityForce{ Vector2s{ rv( 55 ), rv( 56 ) } }, "gravity is the one given" ); sameObject<Ball2DForce>( F[2], PenaltyForce{ pv( 45 ), rv( 46 ) }, "penalty force is the one given" ); }
  vp_check( s.state.planarPortals().empty() && !s.iop && !s.imap && !s.fs && !s.ifm, "nothing that is not in the file" ); vp_cover( "end" );
}
static void broken( int which ) { Doc d; const int k = vp_choose( which ? "junk" : "drop", 0, 45 ); ( which ? d.junk : d.drop ) = k; if( which ) vp_assume( k != 2 ); allOf( d ); if( !d.hit ) { vp_cover( "whole" ); return; } Scene s{ d, true }; vp_check( !s.ok, which ? "a value that cannot be read is refused" : "a missing value is refused" ); vp_cover( "broken" ); }
VP_HARNESS(sc2_missing) { broken( 0 ); } VP_HARNESS(sc2_junk) { broken( 1 ); }
#define HAS_APGD 1
#define HAS_SE 1
#define HAS_MDP 1
#define SOB_CACHE 1
#define STAB_CLASH 1
#define INTEGRATORS "symplectic_euler", "verlet"
#define N_INTEGRATORS 2
#include "scene_solve.h"
VP_HARNESS(sc2_impact) { impactKind( 0, 5 ); } VP_HARNESS(sc2_restitution) { impactKind( 5, 3 ); } VP_HARNESS(sc2_impact_bad) { impactBroken(); } VP_HARNESS(sc2_sobogus) { sobogusCase(); } VP_HARNESS(sc2_sobogus_bad) { sobogusBroken(); } VP_HARNESS(sc2_stag) { stagCase(); } VP_HARNESS(sc2_stag_bad) { stagBroken(); }
VP_HARNESS(sc2_together) { together(); } VP_HARNESS(sc2_step) { stepCase(); } VP_HARNESS(sc2_end) { endCase(); }
// ---- portals: pairs of distinct planes used once; the planes left over stay in order
static std::string nth( int k ) { return k % 2 ? "0 -1" : "0 1"; }
VP_HARNESS(sc2_portals)
{
  const int np = 5; Doc d; head( d ); for( int k = 0; k < np; ++k ) d.open( "static_plane" ).at( "x", R( 80 + 2 * k ) + " " + R( 81 + 2 * k ) ).at( "n", nth( k ) ).end();
  d.open( "lees_edwards_portal" ).at( "planeA", I( 100, 0, 6 ) ).at( "planeB", I( 101, 0, 6 ) ).at( "v", R( 102 ) ).at( "bounds", R( 103 ) ).end(); d.open( "planar_portal" ).at( "planeA", I( 104, 0, 6 ) ).at( "planeB", I( 105, 0, 6 ) ).end(); d.close( ROOT );
  const long i[4] = { iv( 104, 0, 6 ), iv( 105, 0, 6 ), iv( 100, 0, 6 ), iv( 101, 0, 6 ) }; bool want = rv( 103 ) > 0; for( int a = 0; a < 4; ++a ) { want = want & ( i[a] < np ); for( int b = 0; b < a; ++b ) want = want & ( i[a] != i[b] ); }
  Scene s{ d }; vp_check( s.ok == want, "portals are accepted exactly when they join different existing planes, each used once" ); if( !s.ok ) { vp_cover( "refused" ); return; }
  const auto plane = [&]( int k ) { return StaticPlane{ Vector2s{ rv( 80 + 2 * k ), rv( 81 + 2 * k ) }, Vector2s{ 0, k % 2 ? -1.0 : 1.0 } }; };
  auto& P = s.state.planarPortals(); auto& S = s.state.staticPlanes(); vp_check( P.size() == 2 && S.size() == np - 4, "planes turned into portals are no longer walls" ); if( P.size() != 2 || S.size() != np - 4 ) return;
  long at[4]; for( int a = 0; a < 4; ++a ) { at[a] = 0; for( int k = 1; k < np; ++k ) if( i[a] == k ) at[a] = k; } int left = 0; for( int k = 0; k < np; ++k ) { bool used = false; for( int a = 0; a < 4; ++a ) used = used || at[a] == k; if( !used ) left = k; }
  sameText( stored( P[0] ), stored( PlanarPortal{ plane( at[0] ), plane( at[1] ), 0.0, 0.0 } ), "a portal joins the planes it names" ); sameText( stored( P[1] ), stored( PlanarPortal{ plane( at[2] ), plane( at[3] ), rv( 102 ), rv( 103 ) } ), "a portal joins the planes it names" ); sameText( stored( S[0] ), stored( plane( left ) ), "the planes that are left stay as they were" ); vp_cover( "end" );
}
VP_HARNESS(sc2_portals_bad) { const int k = vp_choose( "which", 0, 6 ), how = vp_choose( "how", 0, 2 ); Doc d; ( how ? d.junk : d.drop ) = 6 + k; head( d ); d.open( "static_plane" ).at( "x", "0 0" ).at( "n", "0 1" ).end().open( "static_plane" ).at( "x", "0 1" ).at( "n", "0 -1" ).end(); if( k < 4 ) d.open( "lees_edwards_portal" ).at( "planeA", "0" ).at( "planeB", "1" ).at( "v", R( 102 ) ).at( "bounds", Pp( 103 ) ).end(); else { d.n += 4; d.open( "planar_portal" ).at( "planeA", "0" ).at( "planeB", "1" ).end(); } d.close( ROOT ); Scene s{ d }; vp_check( !s.ok, "a portal with a value missing or unreadable is refused" ); vp_cover( "broken" ); }
