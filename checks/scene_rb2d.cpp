#include "scene.h"
#include "rigidbody2dutils/RigidBody2DSceneParser.h"
#include "rigidbody2dutils/CameraSettings2D.h"
#include "rigidbody2d/RigidBody2DState.h"
#include "rigidbody2d/RigidBody2DForce.h"
#include "rigidbody2d/NearEarthGravityForce.h"
#include "rigidbody2d/CircleGeometry.h"
#include "rigidbody2d/BoxGeometry.h"
#include "rigidbody2d/PlanarPortal.h"
#include "rigidbody2d/RigidBody2DStaticPlane.h"
struct Scene {
  std::string script; RigidBody2DState state; std::unique_ptr<UnconstrainedMap> integrator; std::string dt_string; Rational<std::intmax_t> dt; scalar end = -7; std::unique_ptr<ImpactOperator> iop; std::unique_ptr<ImpactMap> imap; scalar CoR = -7; std::unique_ptr<FrictionSolver> fs; scalar mu = -7; std::unique_ptr<ImpactFrictionMap> ifm; CameraSettings2D cam; bool ok = false;
  explicit Scene( const Doc& d ) { putFile( "scene.xml", d.s ); ok = RigidBody2DSceneParser::parseXMLSceneFile( "scene.xml", script, state, integrator, dt_string, dt, end, iop, imap, CoR, fs, mu, ifm, cam ); }
};
#define ROOT "rigidbody2d_scene"
#define SOBOGUS SobogusSolverType::RigidBody2D
static void head( Doc& d ) { d.open( ROOT ).body(); d.open( "integrator" ).at( "type", "verlet" ).at( "dt", "0.01" ).end(); }
static std::string R2( int k ) { return R( k ) + " " + R( k + 1 ); }
static std::string P2( int k ) { return Pp( k ) + " " + Pp( k + 1 ); }
static void body( Doc& d, int b, bool fx ) { d.open( "rigid_body" ).at( "x", R2( b ) ).at( "theta", R( b + 2 ) ).at( "v", R2( b + 3 ) ).at( "omega", R( b + 5 ) ).at( "rho", R( b + 6 ) ).at( "geo_idx", I( b + 7, -1, 4 ) ); if( fx ) d.at( "fixed", B( b + 8 ) ); d.end(); }
static void allOf( Doc& d )
{
  head( d ); d.open( "scripting" ).at( "callback", "my_script" ).end(); d.open( "end_time" ).at( "t", Pp( 1 ) ).end(); d.open( "camera" ).at( "center", R2( 2 ) ).at( "scale", R( 4 ) ).at( "fps", I( 5, -2, 1000 ) ).at( "render_at_fps", B( 6 ) ).at( "locked", B( 7 ) ).end();
  d.open( "near_earth_gravity" ).at( "f", R2( 40 ) ).end(); d.open( "geometry" ).at( "type", "circle" ).at( "r", R( 42 ) ).end(); body( d, 10, true ); d.open( "static_plane" ).at( "x", R2( 43 ) ).at( "n", "3 -4" ).end(); d.open( "geometry" ).at( "type", "box" ).at( "r", R2( 45 ) ).end(); d.open( "geometry" ).at( "type", "circle" ).at( "r", Pp( 47 ) ).end(); body( d, 20, true ); d.open( "near_earth_gravity" ).at( "f", R2( 48 ) ).end(); body( d, 30, false ); d.close( ROOT );
}
static double rho( int b ) { return rv( b + 6 ); }
static bool fine() { bool ok = ( rv( 4 ) > 0 ) & ( iv( 5, -2, 1000 ) > 0 ) & ( rv( 42 ) > 0 ) & ( rv( 45 ) > 0 ) & ( rv( 46 ) > 0 ); for( int b = 10; b <= 30; b += 10 ) ok = ok & ( rho( b ) > 0 ) & ( iv( b + 7, -1, 4 ) >= 0 ) & ( iv( b + 7, -1, 4 ) < 3 ); return ok; }
VP_HARNESS(scr2_range) { Doc d; allOf( d ); Scene s{ d }; vp_check( s.ok == fine(), "a scene is accepted exactly when its values are in range" ); if( s.ok ) vp_cover( "end" ); else vp_cover( "refused" ); }
VP_HARNESS(scr2_world)
{
  Doc d; allOf( d ); vp_assume( fine() ); Scene s{ d }; vp_check( s.ok, "a complete scene is accepted" ); if( !s.ok ) return; vp_check( s.state.nbodies() == 3 && s.state.geometry().size() == 3, "as many bodies and shapes as elements" ); if( s.state.nbodies() != 3 || s.state.geometry().size() != 3 ) return;
  const CircleGeometry g0{ rv( 42 ) }, g2{ pv( 47 ) }; const BoxGeometry g1{ Vector2s{ rv( 45 ), rv( 46 ) } }; sameObject<RigidBody2DGeometry>( s.state.geometry()[0], g0, "shape" ); sameObject<RigidBody2DGeometry>( s.state.geometry()[1], g1, "shape" ); sameObject<RigidBody2DGeometry>( s.state.geometry()[2], g2, "shape" );
  for( int i = 0; i < 3; ++i ) { const int b = 10 + 10 * i; const long gi = iv( b + 7, -1, 4 ); const RigidBody2DGeometry& g = gi == 0 ? (const RigidBody2DGeometry&) g0 : gi == 1 ? (const RigidBody2DGeometry&) g1 : (const RigidBody2DGeometry&) g2; scalar m, I; g.computeMassAndInertia( rho( b ), m, I );
    vp_check( s.state.geometryIndex( i ) == unsigned( gi ), "each body has the shape its element says" ); vp_check( s.state.fixed( i ) == ( i == 2 ? false : bvv( b + 8 ) ), "a body is fixed exactly when its element says so" );
    const double q[] = { rv( b ), rv( b + 1 ), rv( b + 2 ) }, v[] = { rv( b + 3 ), rv( b + 4 ), rv( b + 5 ) }; for( int k = 0; k < 3; ++k ) { vp_check_same( s.state.q()( 3 * i + k ), q[k], "each body starts where its element says" ); vp_check_same( s.state.v()( 3 * i + k ), v[k], "each body starts with the velocity its element says" ); vp_check_same( s.state.M().coeff( 3 * i + k, 3 * i + k ), k == 2 ? I : m, "each body has the mass and inertia of its shape and density" ); } }
  vp_check( s.script == "my_script", "the scripting callback is the one named" ); vp_check_same( s.end, pv( 1 ), "the end time is the one given" ); vp_check( s.cam.set && s.cam.fps == unsigned( iv( 5, -2, 1000 ) ) && s.cam.render_at_fps == bvv( 6 ) && s.cam.locked == bvv( 7 ), "camera settings are the ones given" ); vp_check_same( s.cam.center.x(), rv( 2 ), "camera" ); vp_check_same( s.cam.center.y(), rv( 3 ), "camera" ); vp_check_same( s.cam.scale, rv( 4 ), "camera" );
  const auto& F = s.state.forces(); vp_check( F.size() == 2, "as many forces as elements" ); if( F.size() == 2 ) for( int k = 0; k < 2; ++k ) sameObject<RigidBody2DForce>( F[k], NearEarthGravityForce{ Vector2s{ rv( 40 + 8 * k ), rv( 41 + 8 * k ) } }, "gravity is the one given" );
  const auto& P = s.state.planes(); vp_check( P.size() == 1, "as many planes as elements" ); if( P.size() == 1 ) { vp_check_same( P[0].x().x(), rv( 43 ), "plane" ); vp_check_same( P[0].x().y(), rv( 44 ), "plane" ); vp_check_eq( P[0].n().x(), 0.6, "plane" ); vp_check_eq( P[0].n().y(), -0.8, "plane" ); }
  vp_check( s.state.planarPortals().empty() && !s.iop && !s.imap && !s.fs && !s.ifm, "nothing that is not in the file" ); vp_cover( "end" );
}
static void broken( int which ) { Doc d; const int k = vp_choose( which ? "junk" : "drop", 0, 39 ); ( which ? d.junk : d.drop ) = k; allOf( d ); if( which ) vp_assume( k != 2 ); else vp_assume( ( k != 18 ) & ( k != 31 ) ); vp_assume( fine() ); if( !d.hit ) { vp_cover( "whole" ); return; } Scene s{ d }; vp_check( !s.ok, which ? "a value that cannot be read is refused" : "a missing value is refused" ); vp_cover( "broken" ); }
VP_HARNESS(scr2_missing) { broken( 0 ); } VP_HARNESS(scr2_junk) { broken( 1 ); }
#define HAS_APGD 0
#define HAS_SE 0
#define HAS_MDP 0
#define SOB_CACHE 1
#define STAB_CLASH 0
#define INTEGRATORS "symplectic_euler", "verlet"
#define N_INTEGRATORS 2
#include "scene_solve.h"
VP_HARNESS(scr2_impact) { impactKind( 0, 5 ); } VP_HARNESS(scr2_restitution) { impactKind( 5, 3 ); } VP_HARNESS(scr2_impact_bad) { impactBroken(); } VP_HARNESS(scr2_sobogus) { sobogusCase(); } VP_HARNESS(scr2_sobogus_bad) { sobogusBroken(); }
VP_HARNESS(scr2_together) { together(); } VP_HARNESS(scr2_step) { stepCase(); } VP_HARNESS(scr2_end) { endCase(); }
VP_HARNESS(scr2_bare) { Doc d; d.open( ROOT ).body().close( ROOT ); Scene s{ d }; vp_check( s.ok && !s.integrator && s.dt.numerator() == 0 && s.dt_string == "0" && s.state.nbodies() == 0 && !s.cam.set && !s.iop && !s.imap && !s.fs && !s.ifm && s.script.empty(), "an empty scene is a scene without bodies that stands still" ); vp_cover( "end" ); }
VP_HARNESS(scr2_portals)
{
  const int np = 5; Doc d; head( d ); for( int k = 0; k < np; ++k ) d.open( "static_plane" ).at( "x", R2( 80 + 2 * k ) ).at( "n", k % 2 ? "0 -1" : "0 1" ).end();
  d.open( "lees_edwards_portal" ).at( "planeA", I( 100, 0, 6 ) ).at( "planeB", I( 101, 0, 6 ) ).at( "v", R( 102 ) ).at( "bounds", R( 103 ) ).end(); d.open( "planar_portal" ).at( "planeA", I( 104, 0, 6 ) ).at( "planeB", I( 105, 0, 6 ) ).end(); d.close( ROOT );
  const long i[4] = { iv( 104, 0, 6 ), iv( 105, 0, 6 ), iv( 100, 0, 6 ), iv( 101, 0, 6 ) }; bool want = rv( 103 ) >= 0; for( int a = 0; a < 4; ++a ) { want = want & ( i[a] < np ); for( int b = 0; b < a; ++b ) want = want & ( i[a] != i[b] ); }
  Scene s{ d }; vp_check( s.ok == want, "portals are accepted exactly when they join different existing planes, each used once" ); if( !s.ok ) { vp_cover( "refused" ); return; }
  const auto plane = [&]( int k ) { return RigidBody2DStaticPlane{ Vector2s{ rv( 80 + 2 * k ), rv( 81 + 2 * k ) }, Vector2s{ 0, k % 2 ? -1.0 : 1.0 } }; };
  auto& P = s.state.planarPortals(); auto& S = s.state.planes(); vp_check( P.size() == 2 && S.size() == np - 4, "planes turned into portals are no longer walls" ); if( P.size() != 2 || S.size() != np - 4 ) return;
  long at[4]; for( int a = 0; a < 4; ++a ) { at[a] = 0; for( int k = 1; k < np; ++k ) if( i[a] == k ) at[a] = k; } int left = 0; for( int k = 0; k < np; ++k ) { bool used = false; for( int a = 0; a < 4; ++a ) used = used || at[a] == k; if( !used ) left = k; }
  sameText( stored( P[0] ), stored( PlanarPortal{ plane( at[0] ), plane( at[1] ), 0.0, 0.0 } ), "a portal joins the planes it names" ); sameText( stored( P[1] ), stored( PlanarPortal{ plane( at[2] ), plane( at[3] ), rv( 102 ), rv( 103 ) } ), "a portal joins the planes it names" ); sameText( stored( S[0] ), stored( plane( left ) ), "the planes that are left stay as they were" ); vp_cover( "end" );
}
VP_HARNESS(scr2_portals_bad) { const int k = vp_choose( "which", 0, 6 ), how = vp_choose( "how", 0, 2 ); Doc d; ( how ? d.junk : d.drop ) = 6 + k; head( d ); d.open( "static_plane" ).at( "x", "0 0" ).at( "n", "0 1" ).end().open( "static_plane" ).at( "x", "0 1" ).at( "n", "0 -1" ).end(); if( k < 4 ) d.open( "lees_edwards_portal" ).at( "planeA", "0" ).at( "planeB", "1" ).at( "v", R( 102 ) ).at( "bounds", Pp( 103 ) ).end(); else { d.n += 4; d.open( "planar_portal" ).at( "planeA", "0" ).at( "planeB", "1" ).end(); } d.close( ROOT ); Scene s{ d }; vp_check( !s.ok, "a portal with a value missing or unreadable is refused" ); vp_cover( "broken" ); }
