// P32: exact fractions, and what the time step text means. P33: small matrix helpers.
#include "vp.h"
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <string>
#include "scisim/Math/Rational.h"
#include "scisim/Math/MathUtilities.h"
typedef Rational<int> Q; typedef Rational<std::intmax_t> QL;
#ifdef VP_THOROUGH
constexpr int R = 6, NUM = 20, RO = 4, NO = 9;
#else
constexpr int R = 4, NUM = 9, RO = 3, NO = 4;
#endif
template<class T> static void canonical( const Rational<T>& q, int lim )
{
  vp_check( q.denominator() > 0, "the denominator is positive" );
  for( int k = 2; k <= lim; ++k ) vp_check( q.numerator() % k != 0 || q.denominator() % k != 0, "a fraction is in lowest terms" );
  vp_check( q.numerator() != 0 || q.denominator() == 1, "zero is 0/1" );
  vp_check( q.positive() == ( q.numerator() > 0 ) && q.nonNegative() == ( q.numerator() >= 0 ) && q.isInteger() == ( q.denominator() == 1 ), "sign and integrality are those of the value" );
}
// numerators are any number in range; denominators are split into cases
static int nz( const char* n, int i ) { const int d = vp_choose( n, i, 2 * R ) - R; return d < 0 ? d : d + 1; }
static int pos( const char* n, int i ) { return 1 + vp_choose( n, i, RO ); }
static int an( const char* n, int i ) { return int( vp_int( n, i, -NUM, NUM ) ); }
static int sm( const char* n, int i ) { return int( vp_int( n, i, -NO, NO ) ); }
VP_HARNESS(rat_reduce)
{
  const int a = an( "a", 0 ), b = nz( "b", 0 ); Q q{ a, b };
  vp_check( q.numerator() * b == a * q.denominator(), "a fraction keeps its value when reduced" ); canonical( q, R );
  Q s; s.set( a, b ); vp_check( s.numerator() == q.numerator() && s.denominator() == q.denominator(), "set stores the same reduced fraction" );
  vp_check( s == q && !( s != q ), "equal fractions compare equal" ); vp_cover( "end" );
}
VP_HARNESS(rat_unreduce)
{ // two ways of writing one value give the same fraction, different values compare different
  const int a = an( "a", 0 ), b = nz( "b", 0 ), c = an( "c", 0 ), d = nz( "d", 0 ); const Q p{ a, b }, q{ c, d };
  vp_check( ( p == q ) == ( a * d == c * b ), "fractions are equal exactly when their values are" ); vp_check( ( p != q ) == !( p == q ), "unequal is the negation of equal" );
  vp_check( ( p == c ) == ( a == c * b ) && ( c == p ) == ( p == c ), "a fraction equals an integer exactly when its value does" ); vp_cover( "end" );
}
static void ops( int which )
{
  const int a = sm( "a", 0 ), b = pos( "b", 0 ), c = sm( "c", 0 ), d = pos( "d", 0 );
  Q p{ a, b }; const Q q{ c, d }; int n, m; if( which == 3 ) vp_assume( c != 0 );
  if( which == 0 ) { p += q; n = a * d + c * b; m = b * d; } else if( which == 1 ) { p -= q; n = a * d - c * b; m = b * d; } else if( which == 2 ) { p *= q; n = a * c; m = b * d; } else { p /= q; n = a * d; m = b * c; }
  vp_check( p.numerator() * m == n * p.denominator(), "arithmetic on fractions is exact" ); canonical( p, R ); vp_cover( "end" );
}
VP_HARNESS(rat_add) { ops( 0 ); } VP_HARNESS(rat_sub) { ops( 1 ); } VP_HARNESS(rat_mul) { ops( 2 ); } VP_HARNESS(rat_div) { ops( 3 ); }
VP_HARNESS(rat_scale)
{
  const int a = sm( "a", 0 ), b = pos( "b", 0 ), k = sm( "k", 0 ); const Q p{ a, b };
  const Q x = p * k, y = k * p; vp_check( x.numerator() * b == a * k * x.denominator() && y == x, "a multiple of a fraction is exact" ); canonical( x, R );
  vp_assume( k != 0 ); const Q z = p / k; vp_check( z.numerator() * b * k == a * z.denominator(), "a part of a fraction is exact" ); canonical( z, R );
  vp_assume( a != 0 ); const Q w = k / p; vp_check( w.numerator() * a == k * b * w.denominator(), "an integer over a fraction is exact" ); canonical( w, R ); vp_cover( "end" );
}
VP_HARNESS(rat_double)
{ const int a = vp_choose( "a", 0, 13 ) - 6, b = 1 + vp_choose( "b", 0, 6 ); const QL p{ a, b }; vp_check_eq( double( p ) * b, a, "the real value of a fraction is its quotient" ); vp_cover( "end" ); }
// ---- text
static char digit( int i ) { return char( '0' + vp_int( "digit", i, 0, 9 ) ); }
static long value( const std::string& t ) { long v = 0; for( char c : t ) v = 10 * v + ( c - '0' ); return v; }
static std::string digits( int n, int base ) { std::string s; for( int i = 0; i < n; ++i ) s.push_back( digit( base + i ) ); return s; }
static void reads( const std::string& text, long num, long den, int lim )
{
  QL q{ 77, 78 }; const bool ok = extractFromString( text, q ); vp_check( ok, "a well formed number is accepted" ); if( !ok ) return;
  vp_check( q.numerator() * den == num * q.denominator(), "the text of a fraction means its value" ); canonical( q, lim );
}
VP_HARNESS(rat_text_decimal)
{
  #ifdef VP_THOROUGH
  const int l = vp_choose( "left", 0, 3 ), r = vp_choose( "right", 0, 4 ),
#else
  const int l = vp_choose( "left", 0, 2 ), r = vp_choose( "right", 0, 3 ),
#endif
  sg = vp_choose( "sign", 0, 3 ); vp_assume( l + r > 0 );
  const std::string L = digits( l, 0 ), D = digits( r, 10 ); const bool dot = r > 0 || vp_choose( "dot", 0, 2 ) == 1;
  long den = 1; for( int i = 0; i < r; ++i ) den *= 10;
  const long mag = value( L ) * den + value( D );
  reads( std::string( sg == 1 ? "+" : sg == 2 ? "-" : "" ) + L + ( dot ? "." : "" ) + D, sg == 2 ? -mag : mag, den, 2 ); vp_cover( "end" );
}
VP_HARNESS(rat_text_spaces)
{ const std::string a = digits( 1, 0 ), b = digits( 2, 10 ); reads( " " + a + " . " + b + "  ", value( a ) * 100 + value( b ), 100, 2 ); const std::string d = digits( 1, 20 ); vp_assume( d[0] != '0' ); reads( " " + b + " / " + d, value( b ), value( d ), 2 ); vp_cover( "end" ); }
VP_HARNESS(rat_text_fraction)
{
  const std::string a = digits( 1 + vp_choose( "left", 0, 2 ), 0 ), b = digits( 1, 10 ); const int sg = vp_choose( "sign", 0, 4 ); vp_assume( value( b ) != 0 );
  const std::string t = std::string( sg & 1 ? "-" : "" ) + a + "/" + ( sg & 2 ? "-" : "" ) + b; reads( t, sg & 1 ? -value( a ) : value( a ), sg & 2 ? -value( b ) : value( b ), 2 ); vp_cover( "end" );
}
// anything that is not a number is refused
static void refused( const std::string& t ) { QL q; vp_check( !extractFromString( t, q ), "text that is not one number is refused" ); }
VP_HARNESS(rat_text_bad)
{
  const std::string a = digits( 1, 0 ), b = digits( 1, 10 ), c = digits( 1, 20 ); const int k = vp_choose( "kind", 0, 11 );
  switch( k ) {
    case 0: refused( "" ); break; case 1: refused( a + "/" + b + "/" + c ); break; case 2: refused( a + "." + b + "." + c ); break; case 3: refused( a + "." + b + "/" + c ); break;
    case 4: refused( a + "/" + b + "." + c ); break; case 5: refused( a + "/" ); break; case 6: refused( "/" + a ); break; case 7: refused( a + "/0" ); break;
    case 8: refused( a + "." + b + "e-" + c ); break; case 9: refused( "-" ); break; default: refused( "." ); break; }
  vp_cover( "end" );
}
VP_HARNESS(rat_text_junk)
{ // a stray character anywhere in a decimal or a fraction
  const unsigned char j = vp_byte( "junk", 0 ); vp_assume( !( j >= '0' && j <= '9' ) && j != ' ' && !( j >= 9 && j <= 13 ) && j != '.' && j != '/' && j != '+' && j != '-' && j != 0 );
  const int k = vp_choose( "where", 0, 8 ); std::string t = k < 4 ? "1.5" : "1/5"; t.insert( k % 4, 1, char( j ) ); refused( t );
  std::string u = k < 4 ? "1.5" : "1/5"; if( k % 4 == 1 || ( k < 4 && k % 4 ) || k % 4 == 3 ) { u.insert( k % 4, "-" ); refused( u ); } vp_cover( "end" );
}
// ---- matrices
static SparseMatrixsc sp( int n, int m, const char* nm, unsigned mask )
{ SparseMatrixsc A{ n, m }; for( int j = 0; j < m; ++j ) for( int i = 0; i < n; ++i ) if( mask & ( 1u << ( n * j + i ) ) ) A.insert( i, j ) = vp_real( nm, 10 * i + j, -3, 3 ); A.makeCompressed(); return A; }
static double el( const char* nm, int i, int j, int n, unsigned mask ) { return mask & ( 1u << ( n * j + i ) ) ? vp_real( nm, 10 * i + j, -3, 3 ) : 0.0; }
static double ab( double x ) { return x < 0 ? -x : x; }
VP_HARNESS(mat_identity)
{
  const int n = 1 + vp_choose( "n", 0, 2 ); const unsigned mask = n == 1 ? unsigned( vp_choose( "mask1", 0, 2 ) ) : unsigned( vp_choose( "mask", 0, 16 ) ); const double tol = vp_real( "tol", 0, 0, 0.5 );
  const SparseMatrixsc A = sp( n, n, "a", mask ); bool id = true; for( int i = 0; i < n; ++i ) for( int j = 0; j < n; ++j ) if( ab( el( "a", i, j, n, mask ) - ( i == j ? 1 : 0 ) ) > tol ) id = false;
  vp_check( MathUtilities::isIdentity( A, tol ) == id, "identity exactly when every entry is within the tolerance of the identity's" ); vp_check( MathUtilities::isSquare( A ), "n by n is square" ); vp_cover( "end" );
}
VP_HARNESS(mat_symmetric)
{
  const int n = 2; const unsigned mask = unsigned( vp_choose( "mask", 0, 16 ) ); const double tol = vp_real( "tol", 0, 0, 0.5 ); const SparseMatrixsc A = sp( n, n, "a", mask );
  vp_check( MathUtilities::isSymmetric( A, tol ) == ( ab( el( "a", 0, 1, n, mask ) - el( "a", 1, 0, n, mask ) ) <= tol ), "symmetric exactly when mirrored entries agree within the tolerance" );
  SparseMatrixsc B{ 2, 3 }; vp_check( !MathUtilities::isSquare( B ) && !MathUtilities::isIdentity( B, 0.5 ), "2 by 3 is neither square nor the identity" ); vp_cover( "end" );
}
VP_HARNESS(mat_frame2)
{
  double u[2]; vp_unit2( "u", 0, u ); const Vector2s a{ u[0], u[1] }, b{ -u[1], u[0] }; const double tol = vp_real( "tol", 0, 1e-6, 0.1 );
  vp_check( MathUtilities::isRightHandedOrthoNormal( a, b, tol ), "a turned right-handed frame is recognised" );
  vp_check( !MathUtilities::isRightHandedOrthoNormal( b, a, tol ) && !MathUtilities::isRightHandedOrthoNormal( a, Vector2s{ -b }, tol ), "a left-handed frame is refused" );
  const double k = vp_real( "k", 0, 0.25, 4 ); const bool un = ab( k - 1 ) <= tol;
  vp_check( MathUtilities::isRightHandedOrthoNormal( Vector2s{ k * a }, b, tol ) == un && MathUtilities::isRightHandedOrthoNormal( a, Vector2s{ k * b }, tol ) == un, "vectors must be unit" );
  vp_check( !MathUtilities::isRightHandedOrthoNormal( a, Vector2s{ 0.6 * a + 0.8 * b }, tol ), "vectors must be orthogonal" ); vp_cover( "end" );
}
VP_HARNESS(mat_frame3)
{
  static const int W[6][4] = { { 1, 0, 0, 0 }, { 1, 2, 0, 0 }, { 1, 1, 1, 1 }, { 3, 1, 2, 0 }, { 0, 1, 1, 2 }, { 2, 1, 3, 1 } }; const int* t = W[vp_choose( "turn", 0, 6 )]; const int w = t[0], x = t[1], y = t[2], z = t[3], n = w*w + x*x + y*y + z*z;
  const Vector3s a{ vp_rat( w*w + x*x - y*y - z*z, n ), vp_rat( 2*( x*y + w*z ), n ), vp_rat( 2*( x*z - w*y ), n ) }, b{ vp_rat( 2*( x*y - w*z ), n ), vp_rat( w*w - x*x + y*y - z*z, n ), vp_rat( 2*( y*z + w*x ), n ) }, c{ vp_rat( 2*( x*z + w*y ), n ), vp_rat( 2*( y*z - w*x ), n ), vp_rat( w*w - x*x - y*y + z*z, n ) };
  const double tol = vp_real( "tol", 0, 1e-6, 0.1 );
  vp_check( MathUtilities::isRightHandedOrthoNormal( a, b, c, tol ) && MathUtilities::isRightHandedOrthoNormal( b, c, a, tol ), "a turned right-handed frame is recognised" );
  vp_check( !MathUtilities::isRightHandedOrthoNormal( b, a, c, tol ) && !MathUtilities::isRightHandedOrthoNormal( a, b, Vector3s{ -c }, tol ), "a left-handed frame is refused" ); vp_cover( "end" );
}
VP_HARNESS(mat_frame3_each)
{ // each of the six conditions on its own
  const Vector3s x{ 1, 0, 0 }, y{ 0, 1, 0 }, z{ 0, 0, 1 }; const double tol = vp_rat( 1, 1000 ), k = vp_real( "k", 0, 0.25, 4 ); const bool un = ab( k - 1 ) <= tol; const auto f = [&]( const Vector3s& a, const Vector3s& b, const Vector3s& c ) { return MathUtilities::isRightHandedOrthoNormal( a, b, c, tol ); };
  vp_check( f( x, y, Vector3s{ k * z } ) == un, "the third vector must be unit" ); vp_check( !f( Vector3s{ 2 * x }, y, Vector3s{ 2 * z } ) && !f( x, Vector3s{ 2 * y }, Vector3s{ 2 * z } ) && !f( Vector3s{ 2 * x }, Vector3s{ 0.5 * y }, z ), "each vector must be unit" );
  vp_check( !f( x, Vector3s{ 0.6 * x + 0.8 * y }, z ) && !f( x, y, Vector3s{ 0.6 * x + 0.8 * z } ) && !f( x, y, Vector3s{ 0.6 * y + 0.8 * z } ), "each pair must be orthogonal" ); vp_cover( "end" );
}
VP_HARNESS(mat_columns)
{
  const int n = 2, m = 3, k = vp_choose( "k", 0, 4 ); const unsigned mask = unsigned( vp_choose( "mask", 0, 64 ) ); const SparseMatrixsc A = sp( n, m, "a", mask );
  std::vector<unsigned> cols; for( int i = 0; i < k; ++i ) cols.push_back( unsigned( vp_choose( "col", i, m ) ) );
  SparseMatrixsc B{ 5, 1 }; B.insert( 4, 0 ) = 9; MathUtilities::extractColumns( A, cols, B );
  vp_check( B.rows() == n && B.cols() == k && B.isCompressed(), "as many columns as asked for" ); if( B.rows() != n || B.cols() != k ) return;
  int nnz = 0; for( int j = 0; j < k; ++j ) for( int i = 0; i < n; ++i ) { vp_check_same( B.coeff( i, j ), el( "a", i, int( cols[j] ), n, mask ), "column j is the j-th asked for, entry by entry" ); nnz += bool( mask & ( 1u << ( n * cols[j] + i ) ) ); }
  vp_check( B.nonZeros() == nnz, "only stored entries are copied" ); vp_cover( "end" );
}
VP_HARNESS(num_digits)
{
  const unsigned n = unsigned( vp_int( "n", 0, 0, 4294967295ll ) ); const unsigned d = MathUtilities::computeNumDigits( n ); unsigned long p = 1; unsigned e = 1; while( e < 10 && p * 10 <= n ) { p *= 10; ++e; }
  vp_check( d == e, "the number of decimal digits" ); vp_cover( "end" );
}
VP_HARNESS(cross_2d) { const Vector2s a{ vp_real( "a", 0, -9, 9 ), vp_real( "a", 1, -9, 9 ) }, b{ vp_real( "b", 0, -9, 9 ), vp_real( "b", 1, -9, 9 ) }; vp_check_eq( MathUtilities::cross( a, b ), a( 0 ) * b( 1 ) - a( 1 ) * b( 0 ), "the planar cross product" ); vp_cover( "end" ); }
