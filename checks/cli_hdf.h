// The command-line programs built with HDF5 output. P34, P35.
#pragma once
#include "cli.h"
#include "hdf.h"
static std::string digits( int k, int width ) { std::string s = std::to_string( k ); while( int( s.size() ) < width ) s = "0" + s; return s; }
static std::string config( int k, int width ) { return "out/config_" + digits( k, width ) + ".h5"; }
static std::string forces( int k, int width ) { return "out/forces_" + digits( k, width ) + ".h5"; }
static void h5fresh( bool dirty ) { fresh(); h5::reset(); g_output_dir_name = dirty ? "elsewhere" : ""; g_output_forces = false; if( !dirty ) { g_iteration = 0; g_output_frame = 0; } }
static void sameValue( const h5::Type& t, const char* a, const char* b, const char* m )
{
  if( t.kind == 1 ) { double x, y; std::memcpy( &x, a, 8 ); std::memcpy( &y, b, 8 ); vp_check_same( x, y, m ); }
  else if( t.kind == 8 ) { for( std::size_t k = 0; k < t.parts.size(); ++k ) sameValue( t.parts[k], a + t.offsets[k], b + t.offsets[k], m ); }
  else if( t.kind == 9 ) { const std::size_t n = t.parts[0].size; for( std::size_t k = 0; k < t.count; ++k ) sameValue( t.parts[0], a + k * n, b + k * n, m ); }
  else if( t.kind == 6 ) { const char *x, *y; std::memcpy( &x, a, sizeof x ); std::memcpy( &y, b, sizeof y ); vp_check( !std::strcmp( x, y ), m ); }
  else for( std::size_t k = 0; k < t.size; ++k ) vp_check( a[k] == b[k], m );
}
// every record of one file is in the other, the other has this many more
static void sameRecords( h5::File* a, h5::File* b, std::size_t extra, const char* m )
{
  vp_check( a && b && b->sets.size() == a->sets.size() + extra, m );
  for( h5::Set* s : a->sets ) { h5::Set* o = h5::find( b, s->name ); vp_check( o && h5::same( s->type, o->type ) && s->dims == o->dims, m ); const std::size_t n = h5::total( s->dims ); for( std::size_t k = 0; k < n; ++k ) sameValue( s->type, s->data + k * s->type.size, o->data + k * o->type.size, m ); }
}
// the state as its own file
static h5::File* reference( const char* name ) { { HDF5File f{ name, HDF5AccessType::READ_WRITE }; g_sim.writeBinaryState( f ); } return h5::file( name ); }
static void stamped( const std::string& f, double dt, unsigned it )
{
  const char* m = "each file tells its step, iteration, time and program version"; one( f.c_str(), "timestep", dt, m ); count( f.c_str(), "iteration", it, m ); one( f.c_str(), "time", dt * it, m );
  const h5::Set* s = set( f.c_str(), "git_hash", m ); vp_check( s->type.kind == 6 && s->n == 1 && std::string( CompileDefinitions::GitSHA1 ) == val<const char*>( s, 0 ), m );
}
VP_HARNESS(CN(h5_run))
{
  h5fresh( false ); const double end = vp_real( "end", 0, 0.125, 1.25 ); const int f = vp_choose( "frequency", 0, 2 ); const std::string text = scene( "0.5", tokd( 300, end ), 0 ); putFile( "scene.xml", text ); std::vector<std::string> a; a.push_back( vp_bool( "long", 0 ) ? "--output_dir" : "-o" ); a.push_back( "out" ); if( f ) { a.push_back( "-f" ); a.push_back( "1" ); } a.push_back( "scene.xml" );
  vp_check( run( a ) == EXIT_SUCCESS && filesNow() == 1, "the run succeeds" ); const unsigned n = g_iteration, every = f ? 2 : 1; vp_check( ( n * 0.5 >= end ) & ( ( n - 1.0 ) * 0.5 < end ), "the run stops at the first step at or past the end time" ); const int frames = 1 + int( n / every ); vp_check( h5::files().size() == std::size_t( frames ) && g_output_frame == unsigned( frames ), "one state file per frame and no other" ); vp_check( h5::openIds() == 0, "a closed file leaves nothing open" );
  for( int k = 0; k < frames; ++k ) { vp_check( h5::file( config( k, 1 ) ) != nullptr, "state files are numbered by frame" ); stamped( config( k, 1 ), 0.5, unsigned( k ) * every ); }
  const char* m = "a state file holds the state at that time"; if( n % every == 0 ) { sameRecords( reference( "last" ), h5::file( config( frames - 1, 1 ) ), 4, m ); vp_cover( "whole" ); }
  const unsigned it = g_iteration; (void) it; fresh(); g_iteration = 0; vp_check( loadXMLScene( "scene.xml" ), "the scene is accepted" ); sameRecords( reference( "first" ), h5::file( config( 0, 1 ) ), 4, m ); vp_cover( "end" );
}
// forces of contacts are saved for every saved state
VP_HARNESS(CN(h5_forces))
{
  h5fresh( false ); const int f = vp_choose( "frequency", 0, 2 ), solver = vp_choose( "solver", 0, 2 ); meeting = solver; const double dt = IMPACTS ? 0.25 : 0.03125; putFile( "scene.xml", IMPACTS ? scene( "0.25", "0.5", solver ) : scene( "0.03125", "0.0625", solver ) ); std::vector<std::string> a; a.push_back( "-o" ); a.push_back( "out" ); a.push_back( vp_bool( "long", 0 ) ? "--impulses" : "-i" ); if( f ) { a.push_back( "-f" ); a.push_back( IMPACTS ? "2" : "16" ); } a.push_back( "scene.xml" );
  vp_check( run( a ) == EXIT_SUCCESS, "the run succeeds" ); const int every = f ? 2 : 1, frames = 1 + 2 / every; vp_check( h5::openIds() == 0, "a closed file leaves nothing open" ); int met = 0;
  for( int k = 0; k < frames; ++k ) { const std::string c = config( k, 1 ), g = forces( k, 1 ); vp_check( h5::file( c ) && h5::file( g ), "every saved state has its forces" ); stamped( c, dt, unsigned( k * every ) ); stamped( g, dt, unsigned( k * every ) );
    if( solver ) { const h5::Set* s = set( g.c_str(), "collision_count", "the number of contacts is stored" ); const unsigned n = val<unsigned>( s, 0 ); met += int( n ); vp_check( h5::file( g )->sets.size() == ( n ? 9u : 5u ), "the forces of all contacts are stored" ); } else vp_check( h5::file( g )->sets.size() == 4u, "without contacts there are no forces" ); }
  vp_check( h5::file( forces( frames, 1 ) ) == nullptr && g_iteration == 3, "one more step gives the forces of the last state" ); if( met ) { vp_cover( "met" ); } vp_cover( "end" );
}
static HDF5File* w_file; static std::string w_name;
struct Forced final : public ImpactFrictionMap { virtual void flow( ScriptingCallback&, FlowableSystem&, ConstrainedSystem&, UnconstrainedMap&, FrictionSolver&, const unsigned, const scalar&, const scalar&, const scalar&, const VectorXs& q0, const VectorXs& v0, VectorXs& q1, VectorXs& v1 ) override { q1 = q0; v1 = v0; if( w_file ) { vp_check( w_file->is_open(), "the file is open during the step" ); w_file->write( "mark", 1 ); } w_file = nullptr; } virtual void resetCachedData() override {} virtual void serialize( std::ostream& ) const override {} virtual std::string name() const override { return "s"; } virtual void exportForcesNextStep( HDF5File& f ) override { w_file = &f; } };
VP_HARNESS(CN(h5_friction))
{
  h5fresh( false ); putFile( "scene.xml", scene( "0.25", "0.5", 2 ) ); vp_assume( rv( 8 ) >= 0 ); vp_check( loadXMLScene( "scene.xml" ), "the scene is accepted" ); g_impact_friction_map.reset( new Forced ); g_steps_per_save = unsigned( 1 + vp_choose( "every", 0, 3 ) ); g_iteration = unsigned( vp_choose( "iteration", 0, 5 ) ); g_output_frame = 1 + g_iteration / g_steps_per_save; g_save_number_width = 3; g_end_time = 100; g_serialize_snapshots = false; g_output_dir_name = "out"; g_output_forces = vp_bool( "forces", 0 ); w_file = nullptr; const unsigned it = g_iteration, fr = g_output_frame;
  const bool saved = g_output_forces && it % g_steps_per_save == 0; vp_check( stepSystem() == EXIT_SUCCESS && g_iteration == it + 1, "a step succeeds" ); const std::string g = forces( int( fr ) - 1, 3 ); vp_check( ( h5::file( g ) != nullptr ) == saved, "forces are saved for saved states only, when asked for" );
  if( saved ) { stamped( g, 0.25, it ); vp_check( h5::find( h5::file( g ), "mark" ) != nullptr, "the forces saved are those of the step" ); } const bool next = g_iteration % g_steps_per_save == 0; vp_check( ( h5::file( config( int( fr ), 3 ) ) != nullptr ) == next && h5::files().size() == std::size_t( saved ) + std::size_t( next ), "states are saved as often as asked for" ); if( next ) stamped( config( int( fr ), 3 ), 0.25, it + 1 ); vp_cover( "end" );
}
// a resumed run goes on saving states where the first run did
VP_HARNESS(CN(h5_resume))
{
  h5fresh( false ); const int at = vp_choose( "at", 0, 3 ); putFile( "scene.xml", scene( "0.25", "0.5", 0 ) ); const bool imp = vp_bool( "impulses", 0 ); std::vector<std::string> a; a.push_back( "-s" ); a.push_back( "1" ); a.push_back( "-o" ); a.push_back( "out" ); if( imp ) a.push_back( "-i" ); a.push_back( "scene.xml" ); vp_check( run( a ) == EXIT_SUCCESS, "the run succeeds" );
  std::vector<h5::File*> old; for( h5::File* f : h5::files() ) old.push_back( f ); const std::string from = "out/" + snap( at, 1 ); const std::size_t n = old.size(); vp_check( n == ( imp ? 7u : 3u ), "one state file per frame and no other" ); h5fresh( true ); vp_check( run( { "-r", from } ) == EXIT_SUCCESS, "a snapshot can be resumed" );
  vp_check( h5::files().size() == n - std::size_t( at ) * ( imp ? 2u : 1u ), "a resumed run saves the remaining states" ); for( h5::File* f : h5::files() ) { h5::File* o = nullptr; for( h5::File* x : old ) if( x->name == f->name ) o = x; vp_check( o != nullptr, "a resumed run writes the same files" ); sameRecords( o, f, 0, "a resumed run saves what the first run saved" ); } vp_cover( "end" );
}
// impossible requests
VP_HARNESS(CN(h5_refused))
{
  h5fresh( false ); putFile( "scene.xml", scene( "0.25", "0.5", 0 ) ); const int k = vp_choose( "case", 0, 3 );
  if( k == 0 ) { vp_check( run( { "-i", "scene.xml" } ) != EXIT_SUCCESS && h5::files().empty() && filesNow() == 1, "forces need a directory" ); } if( k == 1 ) { h5::refuse() = true; vp_check( run( { "-o", "out", "scene.xml" } ) != EXIT_SUCCESS && g_iteration == 0, "a state that cannot be saved ends the run" ); }
  if( k == 2 ) { vp_check( loadXMLScene( "scene.xml" ), "the scene is accepted" ); g_steps_per_save = 1; g_output_frame = 1; g_output_dir_name = "out"; g_output_forces = true; h5::refuse() = true; vp_check( stepSystem() != EXIT_SUCCESS && g_iteration == 0, "forces that cannot be saved end the run" ); } vp_cover( "end" );
}
