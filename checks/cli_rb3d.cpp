#include "vp.h"
#define CLI_SOURCE "rigidbody3dcli/rigidbody3d_cli.cpp"
#define ROOT "rigidbody3d_scene"
#define INTEGRATOR "split_ham"
#define CACHE_ATTR 0
#define SIM_Q g_sim.state().q()
#define SIM_V g_sim.state().v()
#define CN(x) clir3_##x
struct Doc; static void things( Doc& d ); static void resetMap();
#include "cli.h"
#include "rigidbody3d/RigidBody3DState.h"
static void resetMap() {}
static void things( Doc& d ) { if( meeting ) { d.open( "geometry" ).at( "type", "sphere" ).at( "r", "0.5" ).end(); for( int k = 0; k < 2; ++k ) d.open( "rigid_body_with_density" ).at( "x", k ? "1.125 0.25 0" : "0 0 0" ).at( "v", k ? "0 0 0" : "1 0 0" ).at( "omega", "0 0 0" ).at( "rho", Pp( 5 + 400 * k ) ).at( "fixed", "0" ).at( "geo_idx", "0" ).end(); return; } d.open( "near_earth_gravity" ).at( "f", R( 6 ) + " " + R( 7 ) + " 0" ).end(); d.open( "geometry" ).at( "type", "sphere" ).at( "r", "0.5" ).end(); d.open( "rigid_body_with_density" ).at( "x", R( 1 ) + " " + R( 2 ) + " 0" ).at( "v", R( 3 ) + " " + R( 4 ) + " 0" ).at( "omega", "0 0 0" ).at( "rho", Pp( 5 ) ).at( "fixed", "0" ).at( "geo_idx", "0" ).end(); }
