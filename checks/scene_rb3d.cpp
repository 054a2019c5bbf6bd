#include "scene.h"
#include "rigidbody3dutils/RigidBody3DSceneParser.h"
#include "rigidbody3dutils/RenderingState.h"
#include "rigidbody3d/RigidBody3DState.h"
#include "rigidbody3d/Forces/NearEarthGravityForce.h"
#include "rigidbody3d/Geometry/RigidBodySphere.h"
#include "rigidbody3d/Geometry/RigidBodyBox.h"
#include "rigidbody3d/Geometry/RigidBodyStaple.h"
#include "rigidbody3d/StaticGeometry/StaticPlane.h"
#include "rigidbody3d/StaticGeometry/StaticCylinder.h"
#include "rigidbody3d/Portals/PlanarPortal.h"
struct Scene {
  std::string script; RigidBody3DState state; std::unique_ptr<UnconstrainedMap> integrator; std::string dt_string; Rational<std::intmax_t> dt; scalar end = -7; std::unique_ptr<ImpactOperator> iop; scalar CoR = -7; std::unique_ptr<FrictionSolver> fs; scalar mu = -7; std::unique_ptr<ImpactFrictionMap> ifm; RenderingState ren; bool ok = false;
  explicit Scene( const Doc& d ) { putFile( "scene.xml", d.s ); ok = RigidBody3DSceneParser::parseXMLSceneFile( "scene.xml", script, state, integrator, dt_string, dt, end, iop, CoR, fs, mu, ifm, ren ); }
};
#define ROOT "rigidbody3d_scene"
#define SOBOGUS SobogusSolverType::RigidBodies3D
static void head( Doc& d ) { d.open( ROOT ).body(); d.open( "integrator" ).at( "type", "dmv" ).at( "dt", "0.01" ).end(); }
static std::string R3( int k ) { return R( k ) + " " + R( k + 1 ) + " " + R( k + 2 ); }
static Vector3s v3( int k ) { return Vector3s{ rv( k ), rv( k + 1 ), rv( k + 2 ) }; }
// bodies b..b+15: x v omega rho fixed geo_idx [R]
static void body( Doc& d, int b, const char* turn ) { d.open( "rigid_body_with_density" ).at( "x", R3( b ) ).at( "v", R3( b + 3 ) ).at( "omega", R3( b + 6 ) ).at( "rho", Pp( b + 9 ) ).at( "fixed", B( b + 10 ) ).at( "geo_idx", I( b + 11, -5, 5 ) ); if( turn ) d.at( "R", turn ); d.end(); }
static void shapes( Doc& d ) { d.open( "geometry" ).at( "type", "sphere" ).at( "r", R( 10 ) ).end(); d.open( "geometry" ).at( "type", "box" ).at( "r", R3( 11 ) ).end(); d.open( "geometry" ).at( "type", "staple" ).at( "w", R( 14 ) ).at( "l", R( 15 ) ).at( "D", R( 16 ) ).end(); }
static bool shapesFine() { bool ok = rv( 10 ) > 0; for( int k = 11; k <= 16; ++k ) ok = ok & ( rv( k ) > 0 ); return ok & ( rv( 16 ) <= rv( 14 ) ) & ( rv( 16 ) <= rv( 15 ) ); }
static bool idxFine( int b ) { const long i = iv( b + 11, -5, 5 ); return ( i < 3 ) & ( i >= -3 ); }
VP_HARNESS(scr3_shapes) { Doc d; head( d ); shapes( d ); d.close( ROOT ); Scene s{ d }; vp_check( s.ok == shapesFine(), "shapes are accepted exactly when their sizes are in range" ); if( !s.ok ) { vp_cover( "refused" ); return; } const auto& G = s.state.geometry(); vp_check( G.size() == 3, "as many shapes as elements" ); if( G.size() != 3 ) return; sameObject<RigidBodyGeometry>( G[0], RigidBodySphere{ rv( 10 ) }, "sphere" ); sameObject<RigidBodyGeometry>( G[1], RigidBodyBox{ v3( 11 ) }, "box" ); const RigidBodyStaple w{ rv( 14 ), rv( 15 ), rv( 16 ) }; vp_check( G[2]->getType() == w.getType(), "staple" ); if( G[2]->getType() != w.getType() ) return; const RigidBodyStaple& g = static_cast<const RigidBodyStaple&>( *G[2] ); vp_check_same( g.r(), w.r(), "staple" ); for( int k = 0; k < 4; ++k ) for( int c = 0; c < 3; ++c ) vp_check_same( g.points()[k]( c ), w.points()[k]( c ), "staple" ); vp_cover( "end" ); }
VP_HARNESS(scr3_bodies)
{
  // a sphere and a box; one body turned a quarter about z
  Doc d; head( d ); d.open( "geometry" ).at( "type", "sphere" ).at( "r", Pp( 10 ) ).end(); body( d, 20, nullptr ); d.open( "geometry" ).at( "type", "box" ).at( "r", Pp( 11 ) + " " + Pp( 12 ) + " " + Pp( 13 ) ).end(); body( d, 40, "0 0 0" ); d.close( ROOT );
  const long i0 = iv( 31, -5, 5 ), i1 = iv( 51, -5, 5 ); const bool want = ( i0 < 2 ) & ( i0 >= -2 ) & ( i1 < 2 ) & ( i1 >= -2 ); Scene s{ d }; vp_check( s.ok == want, "a body is accepted exactly when its shape exists" ); if( !s.ok ) { vp_cover( "refused" ); return; }
  vp_check( s.state.nbodies() == 2 && s.state.ngeo() == 2, "as many bodies and shapes as elements" ); if( s.state.nbodies() != 2 || s.state.ngeo() != 2 ) return;
  const RigidBodySphere g0{ pv( 10 ) }; const RigidBodyBox g1{ Vector3s{ pv( 11 ), pv( 12 ), pv( 13 ) } };
  for( int i = 0; i < 2; ++i ) { const int b = 20 + 20 * i; const long gi = i ? i1 : i0; const unsigned u = unsigned( gi < 0 ? gi + 2 : gi ); vp_check( s.state.getGeometryIndexOfBody( i ) == u, "each body has the shape its element says, counted from the end when negative" ); scalar M; Vector3s CM, I; Matrix33sr R; if( u == 0 ) g0.computeMassAndInertia( pv( b + 9 ), M, CM, I, R ); else g1.computeMassAndInertia( pv( b + 9 ), M, CM, I, R );
    vp_check( s.state.fixed()[i] == bvv( b + 10 ), "a body is fixed exactly when its element says so" );
    for( int k = 0; k < 3; ++k ) { vp_check_same( s.state.q()( 3 * i + k ), rv( b + k ), "each body starts where its element says" ); vp_check_same( s.state.v()( 3 * i + k ), rv( b + 3 + k ), "each body starts with the velocity its element says" ); vp_check_same( s.state.v()( 6 + 3 * i + k ), rv( b + 6 + k ), "each body starts with the spin its element says" ); vp_check_same( s.state.M0().coeff( 3 * i + k, 3 * i + k ), M, "each body has the mass of its shape and density" ); vp_check_same( s.state.M0().coeff( 6 + 3 * i + k, 6 + 3 * i + k ), I( k ), "each body has the inertia of its shape and density" ); }
    for( int k = 0; k < 9; ++k ) vp_check_eq( s.state.q()( 6 + 9 * i + k ), R.data()[k], "a body without a turn starts in its shape's own frame" ); }
  vp_cover( "end" );
}
VP_HARNESS(scr3_turn)
{
  Doc d; head( d ); d.open( "geometry" ).at( "type", "box" ).at( "r", "1 2 4" ).end(); body( d, 20, "0 0 1.5707963267948966" ); d.close( ROOT ); vp_assume( iv( 31, -5, 5 ) == 0 ); Scene s{ d }; vp_check( s.ok, "a turned body is accepted" ); if( !s.ok || s.state.nbodies() != 1 ) return; RigidBodyBox g{ Vector3s{ 1, 2, 4 } }; scalar M; Vector3s CM, I; Matrix33sr R; g.computeMassAndInertia( pv( 29 ), M, CM, I, R ); const double Q[3][3] = { { 0, -1, 0 }, { 1, 0, 0 }, { 0, 0, 1 } };
  for( int r = 0; r < 3; ++r ) for( int c = 0; c < 3; ++c ) { double w = 0; for( int k = 0; k < 3; ++k ) w += Q[r][k] * R( k, c ); const double e = s.state.q()( 3 + 3 * r + c ) - w; vp_check( ( e < 1e-9 ) & ( e > -1e-9 ), "a body starts turned by its rotation vector" ); } vp_cover( "end" );
}
static void world( Doc& d, int proj = 0 )
{
  head( d ); d.open( "scripting" ).at( "callback", "my_script" ).end(); d.open( "end_time" ).at( "t", Pp( 1 ) ).end(); d.open( "near_earth_gravity" ).at( "f", R3( 60 ) ).end(); d.open( "static_plane" ).at( "x", R3( 63 ) ).at( "n", "0 1 0" ).end(); d.open( "static_cylinder" ).at( "x", R3( 66 ) ).at( "axis", "0 2 0" ).at( "R", Pp( 69 ) ).end(); d.open( "static_plane" ).at( "x", R3( 70 ) ).at( "n", "0 1 0" ).end(); d.open( "near_earth_gravity" ).at( "f", R3( 73 ) ).end();
  d.open( "simulation_boundary" ).at( "violation_behavior", "exit" ).at( "min", R( 76 ) + " " + R( 77 ) + " -50" ).at( "max", R( 78 ) + " " + R( 79 ) + " 1" ).end(); d.open( "static_plane_renderer" ).at( "plane", I( 80, 0, 4 ) ).at( "r", R( 81 ) + " 2" ).end(); d.open( "static_cylinder_renderer" ).at( "cylinder_idx", I( 82, 0, 3 ) ).at( "L", R( 83 ) ).end();
  if( proj == 0 ) d.open( "camera_perspective" ).at( "theta", R( 84 ) ).at( "phi", R( 85 ) ).at( "rho", R( 86 ) ).at( "lookat", R3( 87 ) ).at( "up", R3( 90 ) ).at( "fps", I( 93, 0, 1000 ) ).at( "render_at_fps", B( 94 ) ).at( "locked", B( 95 ) ).end();
  else d.open( "camera_orthographic" ).at( "projection_plane", proj == 1 ? "xy" : proj == 2 ? "zy" : proj == 3 ? "zx" : "yx" ).at( "x", R3( 87 ) ).at( "scale", R( 86 ) ).at( "fps", I( 93, 0, 1000 ) ).at( "render_at_fps", B( 94 ) ).at( "locked", B( 95 ) ).end();
  d.open( "geometry" ).at( "type", "sphere" ).at( "r", "1" ).end(); d.open( "rigid_body_with_density" ).at( "x", R3( 100 ) ).at( "v", R3( 103 ) ).at( "omega", R3( 106 ) ).at( "rho", Pp( 109 ) ).at( "fixed", B( 110 ) ).at( "geo_idx", "0" ).end(); d.close( ROOT );
}
static bool worldFine() { return ( rv( 76 ) < rv( 78 ) ) & ( rv( 77 ) < rv( 79 ) ) & ( iv( 80, 0, 4 ) < 2 ) & ( rv( 81 ) >= 0 ) & ( iv( 82, 0, 3 ) < 1 ) & ( rv( 83 ) >= 0 ) & ( rv( 86 ) > 0 ); }
VP_HARNESS(scr3_world)
{
  const int proj = vp_choose( "camera", 0, 5 ); Doc d; world( d, proj ); Scene s{ d }; vp_check( s.ok == ( worldFine() & ( proj != 4 ) ), "a scene is accepted exactly when its values are in range" ); if( !s.ok ) { vp_cover( "refused" ); return; }
  vp_check( s.script == "my_script", "the scripting callback is the one named" ); vp_check_same( s.end, pv( 1 ), "the end time is the one given" ); vp_check( s.state.numStaticPlanes() == 2 && s.state.numStaticCylinders() == 1 && s.state.forces().size() == 2 && s.state.numPlanarPortals() == 0 && s.state.nbodies() == 1, "as many of everything as elements" ); if( s.state.numStaticPlanes() != 2 || s.state.numStaticCylinders() != 1 || s.state.forces().size() != 2 ) return;
  sameText( stored( s.state.staticPlane( 0 ) ), stored( StaticPlane{ v3( 63 ), Vector3s{ 0, 1, 0 } } ), "plane" ); sameText( stored( s.state.staticPlane( 1 ) ), stored( StaticPlane{ v3( 70 ), Vector3s{ 0, 1, 0 } } ), "plane" ); sameText( stored( s.state.staticCylinder( 0 ) ), stored( StaticCylinder{ v3( 66 ), Vector3s{ 0, 2, 0 }, pv( 69 ) } ), "cylinder" );
  sameObject<Force>( s.state.forces()[0], NearEarthGravityForce{ v3( 60 ) }, "gravity is the one given" ); sameObject<Force>( s.state.forces()[1], NearEarthGravityForce{ v3( 73 ) }, "gravity is the one given" );
  vp_check( s.state.boundaryBehavior() == SimBoundaryBehavior::EXIT, "the boundary is the one given" ); for( int k = 0; k < 2; ++k ) { vp_check_same( s.state.boundaryMin()( k ), rv( 76 + k ), "the boundary is the one given" ); vp_check_same( s.state.boundaryMax()( k ), rv( 78 + k ), "the boundary is the one given" ); } vp_check_same( s.state.boundaryMin()( 2 ), -50, "the boundary is the one given" ); vp_check_same( s.state.boundaryMax()( 2 ), 1, "the boundary is the one given" );
  const RenderingState& r = s.ren; vp_check( r.numPlaneRenderers() == 1 && r.numCylinderRenderers() == 1 && r.numPlanarPortalRenderers() == 0, "as many renderers as elements" ); if( r.numPlaneRenderers() == 1 && r.numCylinderRenderers() == 1 ) { vp_check( r.planeRenderer( 0 ).index() == unsigned( iv( 80, 0, 4 ) ) && r.cylinderRenderer( 0 ).index() == 0, "a renderer draws the object it names" ); vp_check_same( r.planeRenderer( 0 ).r()( 0 ), rv( 81 ), "renderer" ); vp_check_same( r.planeRenderer( 0 ).r()( 1 ), 2, "renderer" ); vp_check_same( r.cylinderRenderer( 0 ).L(), rv( 83 ), "renderer" ); }
  vp_check( r.FPS() == unsigned( iv( 93, 0, 1000 ) ) && r.renderAtFPS() == bvv( 94 ) && r.locked() == bvv( 95 ) && r.cameraSettingsInitialized() && r.perspectiveCameraSelected() == ( proj == 0 ) && r.orthographicCameraSelected() == ( proj != 0 ), "camera settings are the ones given" );
  for( int k = 0; k < 3; ++k ) { if( proj == 0 ) { vp_check_same( r.cameraLookAt()( k ), rv( 87 + k ), "camera" ); vp_check_same( r.cameraUp()( k ), rv( 90 + k ), "camera" ); } else vp_check_same( r.orthographicX()( k ), rv( 87 + k ), "camera" ); }
  if( proj == 0 ) { vp_check_same( r.cameraTheta(), rv( 84 ), "camera" ); vp_check_same( r.cameraPhi(), rv( 85 ), "camera" ); vp_check_same( r.cameraRho(), rv( 86 ), "camera" ); } else { vp_check_same( r.orthographicScale(), rv( 86 ), "camera" ); vp_check( r.orthographicProjectionPlane() == ( proj == 1 ? "xy" : proj == 2 ? "zy" : "zx" ), "camera" ); }
  vp_check( !s.iop && !s.fs && !s.ifm, "nothing that is not in the file" ); vp_cover( "end" );
}
static void broken( int which ) { Doc d; const int k = vp_choose( which ? "junk" : "drop", 0, 36 ); ( which ? d.junk : d.drop ) = k; if( which ) vp_assume( k != 2 ); world( d ); vp_assume( worldFine() ); if( !d.hit ) { vp_cover( "whole" ); return; } Scene s{ d }; vp_check( !s.ok, which ? "a value that cannot be read is refused" : "a missing value is refused" ); vp_cover( "broken" ); }
VP_HARNESS(scr3_missing) { broken( 0 ); } VP_HARNESS(scr3_junk) { broken( 1 ); }
static void shapesBroken() { const int k = vp_choose( "which", 0, 8 ), how = vp_choose( "how", 0, 2 ); Doc d; ( how ? d.junk : d.drop ) = k + 2; head( d ); shapes( d ); vp_assume( shapesFine() ); d.close( ROOT ); if( !d.hit ) { vp_cover( "whole" ); return; } Scene s{ d }; vp_check( !s.ok, "a shape with a value missing or unreadable is refused" ); vp_cover( "broken" ); }
VP_HARNESS(scr3_shapes_bad) { shapesBroken(); }
#define HAS_APGD 0
#define HAS_SE 1
#define HAS_MDP 0
#define SOB_CACHE 0
#define STAB_CLASH 0
#define CACHE_ATTR 0
#define INTEGRATORS "split_ham", "dmv", "exponential_euler"
#define N_INTEGRATORS 3
#include "scene_solve.h"
VP_HARNESS(scr3_impact) { impactKind( 0, 5 ); } VP_HARNESS(scr3_restitution) { impactKind( 5, 3 ); } VP_HARNESS(scr3_impact_bad) { impactBroken(); } VP_HARNESS(scr3_sobogus) { sobogusCase(); } VP_HARNESS(scr3_sobogus_bad) { sobogusBroken(); }
VP_HARNESS(scr3_together) { together(); } VP_HARNESS(scr3_step) { stepCase(); } VP_HARNESS(scr3_end) { endCase(); }
// two pairs out of five planes; three planes are drawn
VP_HARNESS(scr3_portals)
{
  const int np = 4; Doc d; head( d ); for( int k = 0; k < np; ++k ) d.open( "static_plane" ).at( "x", R3( 120 + 3 * k ) ).at( "n", "0 1 0" ).end();
  for( int k = 0; k < np; ++k ) d.open( "static_plane_renderer" ).at( "plane", std::string( 1, char( '0' + k ) ) ).at( "r", Pp( 140 + k ) + " 1" ).end();
  d.open( "planar_portal" ).at( "planeA", I( 104, 0, 6 ) ).at( "planeB", I( 105, 0, 6 ) ).at( "multiplier", I( 106, -2, 2 ) + " 1 -1" ).end(); d.close( ROOT ); const long i[2] = { iv( 104, 0, 6 ), iv( 105, 0, 6 ) }, mu = iv( 106, -2, 2 ); const bool want = ( i[0] < np ) & ( i[1] < np ) & ( i[0] != i[1] ) & ( mu != 0 ) & ( mu >= -1 ) & ( mu <= 1 );
  Scene s{ d }; vp_check( s.ok == want, "portals are accepted exactly when they join different existing planes" ); if( !s.ok ) { vp_cover( "refused" ); return; }
  const auto plane = [&]( int k ) { return StaticPlane{ v3( 120 + 3 * k ), Vector3s{ 0, 1, 0 } }; }; vp_check( s.state.numPlanarPortals() == 1 && s.state.numStaticPlanes() == np - 2, "planes turned into portals are no longer walls" ); if( s.state.numPlanarPortals() != 1 || s.state.numStaticPlanes() != np - 2 ) return;
  int at[2]; for( int a = 0; a < 2; ++a ) { at[a] = 0; for( int k = 1; k < np; ++k ) if( i[a] == k ) at[a] = k; }
  sameText( stored( s.state.planarPortal( 0 ) ), stored( PlanarPortal{ plane( at[0] ), plane( at[1] ), Array3i{ mu == 1 ? 1 : -1, 1, -1 } } ), "a portal joins the planes it names" );
  vp_check( s.ren.numPlanarPortalRenderers() == 1 && s.ren.numPlaneRenderers() == np - 2, "planes turned into portals are drawn as portals" ); if( s.ren.numPlanarPortalRenderers() == 1 ) { const auto& r = s.ren.portalRenderer( 0 ); vp_check( r.portalIndex() == 0, "portal renderer" ); vp_check_same( r.halfWidth0()( 0 ), pv( 140 + at[0] ), "a portal is drawn with its planes' sizes" ); vp_check_same( r.halfWidth1()( 0 ), pv( 140 + at[1] ), "a portal is drawn with its planes' sizes" ); }
  int left = 0; for( int k = 0; k < np; ++k ) if( k != at[0] && k != at[1] ) { sameText( stored( s.state.staticPlane( left ) ), stored( plane( k ) ), "the planes that are left stay as they were" ); if( left < int( s.ren.numPlaneRenderers() ) ) { const auto& r = s.ren.planeRenderer( left ); vp_check( r.index() == unsigned( left ), "a renderer goes on drawing its own plane" ); vp_check_same( r.r()( 0 ), pv( 140 + k ), "a renderer goes on drawing its own plane" ); } ++left; }
  vp_cover( "end" );
}
VP_HARNESS(scr3_portal_pair)
{
  Doc d; head( d ); for( int k = 0; k < 5; ++k ) d.open( "static_plane" ).at( "x", R3( 120 + 3 * k ) ).at( "n", "0 1 0" ).end(); const char* other = vp_bool( "low", 0 ) ? "1" : "3"; for( int k = 0; k < 5; k += 2 ) d.open( "static_plane_renderer" ).at( "plane", std::string( 1, char( '0' + k ) ) ).at( "r", Pp( 140 + k ) + " 1" ).end();
  d.open( "planar_portal" ).at( "planeA", other ).at( "planeB", "0" ).at( "multiplier", "1 1 1" ).end(); d.open( "planar_portal" ).at( "planeA", I( 104, 0, 6 ) ).at( "planeB", "2" ).at( "multiplier", "1 1 1" ).end(); d.close( ROOT ); const long a = iv( 104, 0, 6 ); const bool want = ( a < 5 ) & ( a != 0 ) & ( a != 2 ) & ( a != other[0] - '0' );
  Scene s{ d }; vp_check( s.ok == want, "a plane belongs to one portal at most" ); if( !s.ok ) { vp_cover( "refused" ); return; } vp_check( s.state.numPlanarPortals() == 2 && s.state.numStaticPlanes() == 1, "planes turned into portals are no longer walls" ); if( s.state.numStaticPlanes() != 1 ) return; const int left = a == 4 ? ( other[0] == '1' ? 3 : 1 ) : 4; sameText( stored( s.state.staticPlane( 0 ) ), stored( StaticPlane{ v3( 120 + 3 * left ), Vector3s{ 0, 1, 0 } } ), "the planes that are left stay as they were" );
  vp_check( s.ren.numPlaneRenderers() == ( left == 4 ? 1 : 0 ), "only planes that are left are drawn as planes" ); if( left == 4 && s.ren.numPlaneRenderers() == 1 ) { vp_check( s.ren.planeRenderer( 0 ).index() == 0, "a renderer goes on drawing its own plane" ); vp_check_same( s.ren.planeRenderer( 0 ).r()( 0 ), pv( 144 ), "a renderer goes on drawing its own plane" ); } vp_cover( "end" );
}
