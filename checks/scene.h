// Scene files as text whose numbers are inputs. P30.
#pragma once
#include "vp.h"
#include "fakefile.h"
#include <vector>
#include <cstdio>
#include <cstring>
#include <memory>
VpFile vp_files[16];
#ifdef VP_SYMBOLIC
extern "C" { extern double vp_tok_d[512]; extern long vp_tok_i[512]; }
static std::string tokd( int k, double v ) { vp_tok_d[k] = v; return "@" + std::string( 1, char( '0' + k / 100 ) ) + std::string( 1, char( '0' + k / 10 % 10 ) ) + std::string( 1, char( '0' + k % 10 ) ); }
static std::string toki( int k, long v ) { vp_tok_i[k] = v; return "@" + std::string( 1, char( '0' + k / 100 ) ) + std::string( 1, char( '0' + k / 10 % 10 ) ) + std::string( 1, char( '0' + k % 10 ) ); }
#else
static std::string tokd( int, double v ) { char b[64]; std::snprintf( b, sizeof b, "%.17g", v ); return b; }
static std::string toki( int, long v ) { char b[64]; std::snprintf( b, sizeof b, "%ld", v ); return b; }
#endif
// input number k: any real, any integer, any flag
static double rv( int k ) { return vp_real( "v", k, -50, 50 ); }
static std::string R( int k ) { return tokd( k, rv( k ) ); }
static std::string R( int k, double v ) { return tokd( k, v ); }
static double pv( int k ) { return vp_real( "p", k, 0.0625, 50 ); }
static std::string Pp( int k ) { return tokd( k, pv( k ) ); }
static long iv( int k, long lo, long hi ) { return long( vp_int( "i", k, lo, hi ) ); }
static std::string I( int k, long lo, long hi ) { return toki( k, iv( k, lo, hi ) ); }
static bool bvv( int k ) { return vp_bool( "f", k ); }
static std::string B( int k ) { return toki( k, bvv( k ) ? 1 : 0 ); }
// ---- text: elements with attributes. One attribute can be dropped or replaced by text that is not a value.
struct Doc {
  std::string s; int n = 0, drop = -1, junk = -1; bool hit = false;
  Doc& open( const char* e ) { s += "<"; s += e; return *this; }
  Doc& at( const char* a, const std::string& v ) { const int k = n++; if( k == drop ) { hit = true; return *this; } s += " "; s += a; s += "=\""; if( k == junk ) { hit = true; s += "?"; } else s += v; s += "\""; return *this; }
  Doc& end() { s += "/>\n"; return *this; }
  Doc& body() { s += ">\n"; return *this; }
  Doc& close( const char* e ) { s += "</"; s += e; s += ">\n"; return *this; }
};
static void putFile( const char* n, const std::string& t ) { VpFile* f = vp_make( n ); f->data = t; }
template<class T> static std::string stored( const T& x ) { std::stringstream ss; x.serialize( ss ); return ss.str(); }
static void sameText( const std::string& a, const std::string& b, const char* msg )
{ vp_check( a.size() == b.size(), msg ); if( a.size() != b.size() ) return; bool eq = true; for( size_t i = 0; i < a.size(); ++i ) eq = eq & ( a[i] == b[i] ); vp_check( eq, msg ); }
template<class T> static void sameObject( const std::unique_ptr<T>& a, const T& b, const char* msg ) { vp_check( a != nullptr, msg ); if( a ) sameText( stored( *a ), stored( b ), msg ); }
#include "scisim/Math/MathDefines.h"
#include <algorithm>
#include <cassert>
#include "scisim/Math/Rational.h"
#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.h"
#include "scisim/ConstrainedMaps/GeometricImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/JacobiOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GRROperator.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FrictionOperator.h"
#include "scisim/ConstrainedMaps/FrictionMaps/BoundConstrainedMDPOperatorQL.h"
#include "scisim/ConstrainedMaps/FrictionMaps/LinearMDPOperatorQL.h"
#include "scisim/ConstrainedMaps/FrictionSolver.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorQL.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorQLVP.h"
#include "scisim/ConstrainedMaps/StaggeredProjections.h"
#include "scisim/ConstrainedMaps/Sobogus.h"
