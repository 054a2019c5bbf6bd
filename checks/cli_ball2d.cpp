#include "vp.h"
#define CLI_SOURCE "ball2dcli/ball2d_cli.cpp"
#define ROOT "ball2d_scene"
#define INTEGRATOR "symplectic_euler"
#define CACHE_ATTR 1
#define SIM_Q g_sim.state().q()
#define SIM_V g_sim.state().v()
#define CN(x) cli2_##x
struct Doc; static void things( Doc& d ); static void resetMap();
#include "cli.h"
#include "ball2d/Ball2DState.h"
static void resetMap() { g_impact_map.reset(); }
static void things( Doc& d ) { if( meeting ) { for( int k = 0; k < 2; ++k ) d.open( "ball" ).at( "x", k ? "1.125" : "0" ).at( "y", k ? "0.25" : "0" ).at( "vx", k ? "0" : "1" ).at( "vy", "0" ).at( "m", Pp( 5 + 400 * k ) ).at( "r", "0.5" ).at( "fixed", "0" ).end(); return; } d.open( "ball" ).at( "x", R( 1 ) ).at( "y", R( 2 ) ).at( "vx", R( 3 ) ).at( "vy", R( 4 ) ).at( "m", Pp( 5 ) ).at( "r", "0.5" ).at( "fixed", "0" ).end(); d.open( "gravity" ).at( "fx", R( 6 ) ).at( "fy", R( 7 ) ).end(); }
