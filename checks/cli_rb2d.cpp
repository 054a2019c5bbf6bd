#include "vp.h"
#define CLI_SOURCE "rigidbody2dcli/rigidbody2d_cli.cpp"
#define ROOT "rigidbody2d_scene"
#define INTEGRATOR "verlet"
#define CACHE_ATTR 1
#define SIM_Q g_sim.state().q()
#define SIM_V g_sim.state().v()
#define CN(x) clir2_##x
struct Doc; static void things( Doc& d ); static void resetMap();
#include "cli.h"
#include "rigidbody2d/RigidBody2DState.h"
static void resetMap() { g_impact_map.reset(); }
static void things( Doc& d ) { if( meeting ) { d.open( "geometry" ).at( "type", "circle" ).at( "r", "0.5" ).end(); for( int k = 0; k < 2; ++k ) d.open( "rigid_body" ).at( "x", k ? "1.125 0.25" : "0 0" ).at( "theta", "0" ).at( "v", k ? "0 0" : "1 0" ).at( "omega", R( 10 ) ).at( "rho", Pp( 5 + 400 * k ) ).at( "geo_idx", "0" ).end(); return; } d.open( "near_earth_gravity" ).at( "f", R( 6 ) + " " + R( 7 ) ).end(); d.open( "geometry" ).at( "type", "circle" ).at( "r", "0.5" ).end(); d.open( "rigid_body" ).at( "x", R( 1 ) + " " + R( 2 ) ).at( "theta", R( 9 ) ).at( "v", R( 3 ) + " " + R( 4 ) ).at( "omega", R( 10 ) ).at( "rho", Pp( 5 ) ).at( "geo_idx", "0" ).end(); }
