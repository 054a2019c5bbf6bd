#include "vp.h"
#include <sstream>
#include <memory>
#include "scisim/StringUtilities.h"
#include "scisim/Utilities.h"
#include "scisim/Math/MathUtilities.h"
#ifdef VP_THOROUGH
constexpr int N = 6;
#else
constexpr int N = 4;
#endif
static std::string symStr( const char* nm, int base, int len ) { std::string s; for( int i = 0; i < len; ++i ) s.push_back( char( vp_byte( nm, base + i ) ) ); return s; }
// whatever follows a value in the stream must still be readable, and the stream must end exactly there
static void putGuard( std::ostream& o ) { const unsigned g = 0xA5C3F017u; Utilities::serialize( g, o ); }
static void checkGuard( std::istream& i )
{
  vp_check( i.good(), "reading a value leaves the stream good" );
  const unsigned g = Utilities::deserialize<unsigned>( i );
  vp_check( g == 0xA5C3F017u, "reading a value consumes exactly the bytes written for it" );
  vp_check( i.peek() == std::char_traits<char>::eof(), "nothing is left over after the last value" );
}
VP_HARNESS(rt_string)
{
  const int n = vp_choose( "n", 0, N + 1 ); const std::string s = symStr( "s", 0, n );
  std::stringstream ss; StringUtilities::serialize( s, ss ); putGuard( ss );
  const std::string t = StringUtilities::deserialize( ss );
  vp_check( t.size() == s.size(), "string length survives" );
  vp_check( t == s, "string bytes survive, including zeros and high bytes" );
  checkGuard( ss ); vp_cover( "end" );
}
VP_HARNESS(rt_string_vector)
{
  const int n = vp_choose( "n", 0, 4 ); std::vector<std::string> v;
  for( int i = 0; i < n; ++i ) v.push_back( symStr( "s", 10 * i, vp_choose( "len", i, 3 ) ) );
  std::stringstream ss; StringUtilities::serializeVector( v, ss ); putGuard( ss );
  const std::vector<std::string> w = StringUtilities::deserializeVector( ss );
  vp_check( w.size() == v.size(), "number of strings survives" );
  for( size_t i = 0; i < v.size() && i < w.size(); ++i ) vp_check( v[i] == w[i], "each string survives in order" );
  checkGuard( ss ); vp_cover( "end" );
}
VP_HARNESS(rt_pod)
{
  const double d = vp_real( "d", 0, 1, 0 ); const unsigned u = unsigned( vp_int( "u", 0, 0, 0xFFFFFFFFll ) ); const bool b = vp_bool( "b", 0 ); const int64_t l = vp_int( "l", 0, INT64_MIN, INT64_MAX );
  std::stringstream ss; Utilities::serialize( d, ss ); Utilities::serialize( u, ss ); Utilities::serialize( b, ss ); Utilities::serialize( l, ss ); putGuard( ss );
  vp_check_same( Utilities::deserialize<double>( ss ), d, "scalar survives" );
  vp_check( Utilities::deserialize<unsigned>( ss ) == u, "unsigned survives" );
  vp_check( Utilities::deserialize<bool>( ss ) == b, "bool survives" );
  vp_check( Utilities::deserialize<int64_t>( ss ) == l, "64-bit integer survives" );
  checkGuard( ss ); vp_cover( "end" );
}
VP_HARNESS(rt_vectors)
{
  const int n = vp_choose( "n", 0, N + 1 );
  std::vector<unsigned> u; std::vector<double> d;
  for( int i = 0; i < n; ++i ) { u.push_back( unsigned( vp_int( "u", i, 0, 0xFFFFFFFFll ) ) ); d.push_back( vp_real( "d", i, 1, 0 ) ); }
  std::stringstream ss; Utilities::serialize( u, ss ); Utilities::serialize( d, ss ); putGuard( ss );
  const auto u2 = Utilities::deserialize<std::vector<unsigned>>( ss ); const auto d2 = Utilities::deserialize<std::vector<double>>( ss );
  vp_check( u2.size() == u.size() && d2.size() == d.size(), "vector lengths survive" );
  for( int i = 0; i < n; ++i ) { vp_check( u2[i] == u[i], "vector of unsigned survives" ); vp_check_same( d2[i], d[i], "vector of scalars survives" ); }
  checkGuard( ss ); vp_cover( "end" );
}
VP_HARNESS(rt_bools)
{
  const int n = vp_choose( "n", 0, N + 1 ); std::vector<bool> b; for( int i = 0; i < n; ++i ) b.push_back( vp_bool( "b", i ) );
  std::stringstream ss; Utilities::serialize( b, ss ); putGuard( ss );
  const auto b2 = Utilities::deserialize<std::vector<bool>>( ss );
  vp_check( b2.size() == b.size(), "flag count survives" );
  for( int i = 0; i < n; ++i ) vp_check( b2[i] == b[i], "each flag survives" );
  checkGuard( ss ); vp_cover( "end" );
}
namespace { struct Base { virtual ~Base() = default; double v; Base( double x ) : v( x ) {} Base( std::istream& s ) : v( Utilities::deserialize<double>( s ) ) {} void serialize( std::ostream& s ) const { Utilities::serialize( v, s ); } std::unique_ptr<Base> clone() const { return std::unique_ptr<Base>( new Base( v ) ); } Base( const Base& o ) : v( o.v ) {} Base( Base&& o ) : v( o.v ) {} Base& operator=( const Base& ) = default; }; }
VP_HARNESS(rt_custom)
{
  const int n = vp_choose( "n", 0, 4 ); std::vector<Base> a; std::vector<std::unique_ptr<Base>> p;
  for( int i = 0; i < n; ++i ) { a.emplace_back( vp_real( "d", i, 1, 0 ) ); p.emplace_back( new Base( vp_real( "e", i, 1, 0 ) ) ); }
  const auto q = Utilities::clone( p );
  vp_check( q.size() == p.size(), "clone keeps the number of elements" );
  for( int i = 0; i < n; ++i ) { vp_check( q[i].get() != p[i].get(), "clone makes distinct objects" ); vp_check_same( q[i]->v, p[i]->v, "clone keeps each element" ); }
  std::stringstream ss; Utilities::serialize( a, ss ); Utilities::serialize( p, ss ); putGuard( ss );
  const auto a2 = Utilities::deserialize<std::vector<Base>>( ss ); const auto p2 = Utilities::deserialize<std::vector<Base>>( ss );
  vp_check( a2.size() == a.size() && p2.size() == p.size(), "object counts survive" );
  for( int i = 0; i < n; ++i ) { vp_check_same( a2[i].v, a[i].v, "objects survive in order" ); vp_check_same( p2[i].v, p[i]->v, "owned objects survive in order" ); }
  checkGuard( ss ); vp_cover( "end" );
}
template<class M> static void dense( int r, int c, bool tr = false )
{
  M m; m.resize( r, c ); for( int i = 0; i < r; ++i ) for( int j = 0; j < c; ++j ) m( i, j ) = vp_real( "m", 10 * i + j, 1, 0 );
  std::stringstream ss; MathUtilities::serialize( m, ss ); putGuard( ss );
  const M k = MathUtilities::deserialize<M>( ss );
  vp_check( k.rows() == r && k.cols() == c, "dense matrix shape survives" );
  for( int i = 0; i < r; ++i ) for( int j = 0; j < c; ++j ) vp_check_same( k( i, j ), m( i, j ), "dense matrix entries survive in place" );
  checkGuard( ss );
}
VP_HARNESS(rt_dense)
{
  const int n = vp_choose( "n", 0, N + 1 );
  switch( vp_choose( "type", 0, 5 ) ) { case 0: dense<VectorXs>( n, 1 ); break; case 1: dense<Matrix3Xsc>( 3, n ); break; case 2: dense<MatrixX2sr>( n, 2 ); break; case 3: dense<Matrix33sr>( 3, 3 ); break; default: dense<Vector2s>( 2, 1 ); }
  vp_cover( "end" );
}
VP_HARNESS(rt_sparse)
{
  const int rows = 1 + vp_choose( "rows", 0, 3 ), cols = 1 + vp_choose( "cols", 0, 2 );
  std::vector<Eigen::Triplet<double>> t; SparseMatrixsc A( rows, cols ); double D[3][2] = {};
  for( int j = 0; j < cols; ++j ) for( int i = 0; i < rows; ++i ) if( vp_choose( "nz", 10 * i + j, 2 ) ) { D[i][j] = vp_real( "a", 10 * i + j, 1, 0 ); t.emplace_back( i, j, D[i][j] ); }
  A.setFromTriplets( t.begin(), t.end() ); A.makeCompressed();
  std::stringstream ss; MathUtilities::serialize( A, ss ); putGuard( ss );
  SparseMatrixsc B; MathUtilities::deserialize( B, ss );
  vp_check( B.rows() == rows && B.cols() == cols, "sparse matrix shape survives" );
  vp_check( B.nonZeros() == A.nonZeros() && B.isCompressed(), "sparse matrix structure survives" );
  for( int i = 0; i < rows; ++i ) for( int j = 0; j < cols; ++j ) vp_check_same( B.coeff( i, j ), D[i][j], "sparse matrix entries survive in place" );
  checkGuard( ss ); vp_cover( "end" );
}
