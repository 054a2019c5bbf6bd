// Reading the in-memory HDF5 files the checks' stand-in library keeps
#pragma once
#include "vp.h"
#include "hdf5.h"
#include <string>
static h5::Set* set( const char* file, const char* path, const char* m ) { h5::Set* s = h5::find( h5::file( file ), path ); vp_check( s != nullptr, m ); return s; }
static bool has( const char* file, const char* path ) { return h5::find( h5::file( file ), path ) != nullptr; }
static bool shaped( const h5::Set* s, unsigned r, unsigned c ) { return s->dims.size() == 2 && s->dims[0] == r && s->dims[1] == c; }
template<class T> static T val( const h5::Set* s, std::size_t at ) { T t; std::memcpy( &t, s->data + at * sizeof( T ), sizeof( T ) ); return t; }
// an r x c table of reals, row by row
template<class M> static void table( const char* f, const char* path, const M& m, const char* msg )
{
  const h5::Set* s = set( f, path, msg ); vp_check( s->type.kind == 1 && shaped( s, unsigned( m.rows() ), unsigned( m.cols() ) ), msg );
  for( int r = 0; r < m.rows(); ++r ) for( int c = 0; c < m.cols(); ++c ) vp_check_same( val<double>( s, std::size_t( r * m.cols() + c ) ), m( r, c ), msg );
}
template<class M> static void counts( const char* f, const char* path, const M& m, int kind, const char* msg )
{
  const h5::Set* s = set( f, path, msg ); vp_check( s->type.kind == kind && shaped( s, unsigned( m.rows() ), unsigned( m.cols() ) ), msg );
  for( int r = 0; r < m.rows(); ++r ) for( int c = 0; c < m.cols(); ++c ) vp_check( val<int>( s, std::size_t( r * m.cols() + c ) ) == int( m( r, c ) ), msg );
}
static void one( const char* f, const char* path, double x, const char* msg ) { const h5::Set* s = set( f, path, msg ); vp_check( s->type.kind == 1 && shaped( s, 1, 1 ), msg ); vp_check_same( val<double>( s, 0 ), x, msg ); }
static void count( const char* f, const char* path, unsigned x, const char* msg ) { const h5::Set* s = set( f, path, msg ); vp_check( ( s->type.kind == 4 || s->type.kind == 3 ) && shaped( s, 1, 1 ), msg ); vp_check( val<unsigned>( s, 0 ) == x, msg ); }
// record i of a list of records, its field and the number of entries the field has
struct Rec
{
  const h5::Set* s; std::size_t i; const char* m;
  const h5::Type* part( const char* f, std::size_t& off ) const { for( std::size_t k = 0; k < s->type.names.size(); ++k ) if( s->type.names[k] == f ) { off = i * s->type.size + s->type.offsets[k]; return &s->type.parts[k]; } vp_check( false, m ); return nullptr; }
  void num( const char* f, double x ) const { std::size_t o; const h5::Type* t = part( f, o ); vp_check( t->kind == 1, m ); double d; std::memcpy( &d, s->data + o, 8 ); vp_check_same( d, x, m ); }
  template<class V> void nums( const char* f, const V& v ) const { std::size_t o; const h5::Type* t = part( f, o ); vp_check( t->kind == 9 && t->parts[0].kind == 1 && t->count == std::size_t( v.size() ), m ); for( int k = 0; k < v.size(); ++k ) { double d; std::memcpy( &d, s->data + o + 8 * k, 8 ); vp_check_same( d, v( k ), m ); } }
  void text( const char* f, const std::string& x ) const { std::size_t o; const h5::Type* t = part( f, o ); vp_check( t->kind == 6, m ); const char* p; std::memcpy( &p, s->data + o, sizeof p ); vp_check( x == p, m ); }
};
static std::size_t records( const h5::Set* s, const char* m ) { vp_check( s->type.kind == 8 && s->dims.size() == 1, m ); return std::size_t( s->dims[0] ); }
