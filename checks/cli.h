// The command-line programs: the whole of main runs on a scene held in memory. P31.
#pragma once
#include <getopt.h>
#include <sstream>
#include <iomanip>
#include "scene.h"
#include "scisim/ScriptingCallback.h"
static bool meeting = false; // two bodies about to meet, of any mass
static char* vp_optarg; static int vp_optind = 1;
// options first, then the scene
static int vp_getopt_long( int argc, char* const* argv, const char* spec, const struct option* longs, int* )
{
  if( vp_optind >= argc || argv[vp_optind][0] != '-' ) return -1;
  const char* a = argv[vp_optind++]; int c = '?'; bool arg = false;
  if( a[1] == '-' ) { for( const struct option* o = longs; o->name; ++o ) if( !std::strcmp( o->name, a + 2 ) ) { c = o->val; arg = o->has_arg == required_argument; } }
  else for( const char* s = spec; *s; ++s ) if( *s == a[1] && *s != ':' ) { c = *s; arg = s[1] == ':'; }
  if( c == '?' ) return c;
  if( arg ) { if( vp_optind >= argc ) return '?'; vp_optarg = argv[vp_optind++]; }
  return c;
}
#define getopt_long vp_getopt_long
#define optarg vp_optarg
#define optind vp_optind
#define main cli_main
#include CLI_SOURCE
#undef main
#undef optarg
#undef optind
namespace TimeUtils { std::string currentTime() { return "now"; } }
// everything a run carries from one step to the next
static void fresh() { meeting = false; g_sim = decltype( g_sim ){}; g_iteration = 77; g_unconstrained_map.reset(); g_dt = Rational<std::intmax_t>{ 7, 3 }; g_end_time = -5; g_impact_operator.reset(); g_CoR = -5; g_friction_solver.reset(); g_mu = -5; g_impact_friction_map.reset(); resetMap(); g_steps_per_save = 91; g_output_frame = 92; g_dt_string_precision = 93; g_save_number_width = 94; g_serialize_snapshots = false; g_overwrite_snapshots = true; vp_optind = 1; vp_optarg = nullptr; { PythonScripting p; swap( g_scripting, p ); } }
static int run( const std::vector<std::string>& a ) { std::vector<char*> v; static char name[] = "cli"; v.push_back( name ); for( const std::string& s : a ) v.push_back( const_cast<char*>( s.c_str() ) ); v.push_back( nullptr ); vp_optind = 1; return cli_main( int( v.size() ) - 1, v.data() ); }
static std::string content( const std::string& n ) { VpFile* f = vp_find( n ); vp_check( f != nullptr, "a snapshot is written for every frame" ); return f ? f->data : std::string(); }
static int filesNow() { int n = 0; for( VpFile& f : vp_files ) n += f.used; return n; }
static std::string snap( int k, int width ) { std::string s = std::to_string( k ); while( int( s.size() ) < width ) s = "0" + s; return "serial_" + s + ".bin"; }
static std::string scene( const char* dt, const std::string& end, int solver ) { Doc d; d.open( ROOT ).body(); d.open( "integrator" ).at( "type", INTEGRATOR ).at( "dt", dt ).end(); if( !end.empty() ) d.open( "end_time" ).at( "t", end ).end(); things( d );
  if( solver == 1 ) { d.open( "impact_operator" ).at( "type", "gauss_seidel" ).at( "CoR", "0.5" ); if( CACHE_ATTR ) d.at( "cache_impulses", "1" ); d.at( "v_tol", "0.25" ).end(); }
  if( solver == 2 ) d.open( "sobogus_friction_solver" ).at( "mu", R( 8 ) ).at( "CoR", "0.5" ).at( "max_iters", "5" ).at( "eval_every", "1" ).at( "tol", "0.5" ).at( "cache_impulses", "normal" ).at( "staggering", "geometric" ).end(); d.close( ROOT ); return d.s; }
// a run writes the snapshots it should, under the right names, and stops at the first step at or past the end
VP_HARNESS(CN(run))
{
  fresh(); g_iteration = 0; g_output_frame = 0; const double end = vp_real( "end", 0, 0.125, 2.25 ); const int f = vp_choose( "frequency", 0, 4 ); const char* fs[] = { "", "1", "2", "4" }; putFile( "dir/scene.xml", scene( "0.5", tokd( 300, end ), 0 ) ); const bool sep = vp_bool( "keep", 0 );
  std::vector<std::string> a; a.push_back( "-s" ); a.push_back( sep ? "1" : "0" ); if( f ) { a.push_back( "--frequency" ); a.push_back( fs[f] ); } a.push_back( "dir/scene.xml" ); const int rc = run( a );
  if( f == 3 ) { vp_check( rc != EXIT_SUCCESS && filesNow() == 1, "a save rate that is not a whole number of steps is refused" ); vp_cover( "refused" ); return; }
  vp_check( rc == EXIT_SUCCESS, "the run succeeds" ); const unsigned n = g_iteration; vp_check( ( n * 0.5 >= end ) & ( ( n - 1.0 ) * 0.5 < end ), "the run stops at the first step at or past the end time" );
  const unsigned every = f == 1 ? 2 : 1; vp_check( g_steps_per_save == every, "snapshots are as far apart as asked for" ); const int frames = 1 + n / every; vp_check( g_output_frame == unsigned( frames ), "frames are counted" ); vp_check( filesNow() == 1 + ( sep ? frames : 1 ), "no other file is written" ); if( sep ) for( int k = 0; k < frames; ++k ) content( snap( k, 1 ) ); else content( "serial.bin" );
  vp_check_same( g_end_time, end, "the end time is the one in the scene" ); vp_cover( "end" );
}
// a run resumed from a snapshot writes what the first run wrote
static void resumeCase( int solver )
{
  fresh(); g_iteration = 0; g_output_frame = 0; meeting = solver == 1; const int at = vp_choose( "at", 0, 3 ); putFile( "scene.xml", scene( "0.25", "0.5", solver ) ); vp_check( run( { "-s", "1", "scene.xml" } ) == EXIT_SUCCESS, "the run succeeds" ); std::vector<std::string> w; for( int k = 0; k < 3; ++k ) w.push_back( content( snap( k, 1 ) ) ); const auto q = SIM_Q, v = SIM_V;
  for( int k = at + 1; k < 3; ++k ) vp_find( snap( k, 1 ) )->used = false; fresh(); meeting = solver == 1; vp_check( run( { "-r", snap( at, 1 ) } ) == EXIT_SUCCESS, "a snapshot can be resumed" );
  for( int k = at; k < 3; ++k ) sameText( content( snap( k, 1 ) ), w[k], "a resumed run goes on exactly as the first run did" ); vp_check( filesNow() == 4, "a resumed run writes no other file" );
  vp_check( g_iteration == 2 && SIM_Q.size() == q.size(), "a resumed run ends where the first run ended" ); for( int k = 0; k < q.size(); ++k ) { vp_check_same( SIM_Q( k ), q( k ), "a resumed run ends where the first run ended" ); } for( int k = 0; k < v.size(); ++k ) vp_check_same( SIM_V( k ), v( k ), "a resumed run ends where the first run ended" ); if( solver == 1 && v( SIM_V.size() > 4 ? 3 : 2 ) != 0.0 ) { vp_cover( "met" ); } vp_cover( "end" );
}
VP_HARNESS(CN(resume)) { resumeCase( 0 ); } VP_HARNESS(CN(resume_impact)) { resumeCase( 1 ); }
// every setting survives a snapshot
static unsigned someStep() { const unsigned s[] = { 0, 77777, 4000000000u }; return s[ vp_choose( "iteration", 0, 3 ) ]; }
VP_HARNESS(CN(settings))
{
  fresh(); const int solver = vp_choose( "solver", 0, 3 ); putFile( "scene.xml", scene( "0.25", "0.5", solver ) ); if( solver == 2 ) vp_assume( rv( 8 ) >= 0 ); vp_check( loadXMLScene( "scene.xml" ), "the scene is accepted" );
  const unsigned it = someStep(), st = unsigned( iv( 201, 1, 100000 ) ), fr = unsigned( iv( 202, 0, 100000 ) ), pr = unsigned( iv( 203, 0, 5 ) ), wd = unsigned( iv( 204, 1, 9 ) ); const bool ov = bvv( 205 ); const double en = pv( 206 );
  g_iteration = it; g_steps_per_save = st; g_output_frame = fr; g_dt_string_precision = pr; g_save_number_width = 1; g_serialize_snapshots = true; g_overwrite_snapshots = true; g_end_time = en; g_dt = Rational<std::intmax_t>{ 1, 8 };
  vp_check( serializeSystem() == EXIT_SUCCESS, "a snapshot can be written" ); const std::string one = content( "serial.bin" ); (void) wd; (void) ov; const std::string sim = stored( g_sim ); fresh(); vp_check( deserializeSystem( "serial.bin" ) == EXIT_SUCCESS, "a snapshot can be read" );
  vp_check( g_iteration == it && g_steps_per_save == st && g_output_frame == fr && g_dt_string_precision == pr && g_save_number_width == 1 && g_serialize_snapshots && g_overwrite_snapshots, "settings survive a snapshot" ); vp_check( g_dt.numerator() == 1 && g_dt.denominator() == 8, "the step survives a snapshot" ); vp_check_same( g_end_time, en, "the end time survives a snapshot" ); sameText( stored( g_sim ), sim, "the simulation survives a snapshot" );
  vp_check( g_unconstrained_map && g_unconstrained_map->name() == INTEGRATOR, "the integrator survives a snapshot" ); vp_check( bool( g_impact_operator ) == ( solver == 1 ) && bool( g_friction_solver ) == ( solver == 2 ) && bool( g_impact_friction_map ) == ( solver == 2 ), "solvers survive a snapshot" );
  if( solver ) vp_check_same( g_CoR, 0.5, "the coefficient of restitution survives a snapshot" ); if( solver == 2 ) vp_check_same( g_mu, rv( 8 ), "the coefficient of friction survives a snapshot" );
  vp_check( serializeSystem() == EXIT_SUCCESS, "a snapshot can be written" ); sameText( content( "serial.bin" ), one, "a snapshot of a resumed run is the snapshot it was resumed from" ); vp_cover( "end" );
}
// what is not a snapshot of this program, and options that make no sense, are refused
VP_HARNESS(CN(refused))
{
  fresh(); const int k = vp_choose( "case", 0, 10 ); putFile( "scene.xml", scene( "0.25", "0.5", 0 ) ); std::vector<std::string> a; std::stringstream ss; const unsigned magic = unsigned( iv( 207, 0, 4000000000l ) ); ss.write( reinterpret_cast<const char*>( &magic ), 4 );
  if( k == 0 ) a = { "-r", "missing.bin" }; if( k == 1 ) { vp_assume( magic != MAGIC_BINARY_NUMBER ); putFile( "serial.bin", ss.str() ); a = { "-r", "serial.bin" }; } if( k == 2 ) a = { "missing.xml" }; if( k == 3 ) a = {}; if( k == 4 ) a = { "scene.xml", "scene.xml" }; if( k == 5 ) a = { "-e", tokd( 300, vp_real( "end", 0, -2, 0 ) ), "scene.xml" }; if( k == 6 ) a = { "-e", "soon", "scene.xml" }; if( k == 7 ) a = { "-f", "often", "scene.xml" }; if( k == 8 ) a = { "-s", "maybe", "scene.xml" }; if( k == 9 ) a = { "-z", "scene.xml" };
  const int before = filesNow(); vp_check( run( a ) != EXIT_SUCCESS && filesNow() == before, "what makes no sense is refused" ); vp_cover( "end" );
}
VP_HARNESS(CN(override)) { fresh(); g_iteration = 0; g_output_frame = 0; const double end = vp_real( "end", 0, 0.125, 1 ); putFile( "scene.xml", scene( "0.25", "0.5", 0 ) ); vp_check( run( { "-e", tokd( 300, end ), "scene.xml" } ) == EXIT_SUCCESS && filesNow() == 1, "without snapshots no file is written" ); vp_check_same( g_end_time, end, "the end time asked for replaces the scene's" ); vp_check( ( g_iteration * 0.25 >= end ) & ( ( g_iteration - 1.0 ) * 0.25 < end ), "the run stops at the first step at or past the end time" ); vp_cover( "end" ); }
VP_HARNESS(CN(help)) { fresh(); putFile( "scene.xml", scene( "0.25", "0.5", 0 ) ); vp_check( run( { vp_bool( "long", 0 ) ? "--help" : "-h", "scene.xml" } ) == EXIT_SUCCESS && filesNow() == 1 && g_iteration == 77, "asking for help runs nothing" ); vp_cover( "end" ); }
// ---- one step: who is called with what
static unsigned c_it; static double c_dt, c_CoR, c_mu; static int c_calls; static const void *c_um, *c_fs;
struct StandIn final : public ImpactFrictionMap { virtual void flow( ScriptingCallback&, FlowableSystem&, ConstrainedSystem&, UnconstrainedMap& um, FrictionSolver& fs, const unsigned it, const scalar& dt, const scalar& CoR, const scalar& mu, const VectorXs& q0, const VectorXs& v0, VectorXs& q1, VectorXs& v1 ) override { ++c_calls; c_it = it; c_dt = dt; c_CoR = CoR; c_mu = mu; c_um = &um; c_fs = &fs; q1 = q0; v1 = 2.0 * v0; } virtual void resetCachedData() override {} virtual void serialize( std::ostream& ) const override {} virtual std::string name() const override { return "s"; }
#ifdef USE_HDF5
virtual void exportForcesNextStep( HDF5File& ) override {}
#endif
};
VP_HARNESS(CN(step_friction)) { fresh(); putFile( "scene.xml", scene( "0.25", "0.5", 2 ) ); vp_assume( rv( 8 ) >= 0 ); vp_check( loadXMLScene( "scene.xml" ), "the scene is accepted" ); g_iteration = someStep(); g_steps_per_save = 1; const unsigned it = g_iteration; g_CoR = pv( 206 ); g_impact_friction_map.reset( new StandIn ); c_calls = 0; const auto v = SIM_V; vp_check( stepSystem() == EXIT_SUCCESS, "a step succeeds" ); vp_check( c_calls == 1 && c_it == it + 1 && g_iteration == it + 1, "one step advances the step number by one" ); vp_check_same( c_dt, 0.25, "the solver gets the step" ); vp_check_same( c_CoR, pv( 206 ), "the solver gets the coefficient of restitution" ); vp_check_same( c_mu, rv( 8 ), "the solver gets the coefficient of friction" ); vp_check( c_um == g_unconstrained_map.get() && c_fs == g_friction_solver.get(), "the solver gets its parts" ); for( int k = 0; k < v.size(); ++k ) vp_check_same( SIM_V( k ), 2.0 * v( k ), "the state becomes the solver's answer" ); vp_cover( "end" ); }
VP_HARNESS(CN(step_mixed)) { fresh(); putFile( "scene.xml", scene( "0.25", "0.5", vp_choose( "solver", 0, 3 ) ) ); vp_assume( rv( 8 ) >= 0 ); vp_check( loadXMLScene( "scene.xml" ), "the scene is accepted" ); g_iteration = 5; g_steps_per_save = 1; const int drop = vp_choose( "drop", 0, 3 ); bool had = false; if( drop == 0 ) { had = bool( g_impact_operator ); g_impact_friction_map.reset( new StandIn ); had = had || !g_friction_solver; } if( drop == 1 ) { had = bool( g_friction_solver ); g_friction_solver.reset(); } if( drop == 2 ) { had = g_impact_operator || g_friction_solver; g_unconstrained_map.reset(); } if( !had ) { vp_cover( "plain" ); return; } vp_check( stepSystem() != EXIT_SUCCESS && g_iteration == 5, "a mixture of solvers is refused" ); vp_cover( "end" ); }
