#include "vp.h"
#include "scisim/StringUtilities.h"
#ifdef VP_THOROUGH
constexpr int N = 6;
#else
constexpr int N = 5;
#endif
static std::string symStr( const char* nm, int len ) { std::string s; for( int i = 0; i < len; ++i ) s.push_back( char( vp_byte( nm, i ) ) ); return s; }
static std::string any( int max = N ) { return symStr( "s", vp_choose( "n", 0, max + 1 ) ); }
static bool ws( char c ) { return c == ' ' || ( c >= '\t' && c <= '\r' ); }
VP_HARNESS(tokenize_join)
{
  const std::string s = any(); const char d = char( vp_byte( "d", 0 ) );
  const std::vector<std::string> t = StringUtilities::tokenize( s, d );
  std::string j; for( size_t i = 0; i < t.size(); ++i ) { if( i ) j.push_back( d ); j += t[i]; }
  vp_check( j == s, "joining the tokens with the delimiter restores the text" );
  size_t cnt = 0; for( char c : s ) if( c == d ) ++cnt;
  if( !s.empty() ) vp_check( t.size() == cnt + 1, "one more token than delimiters" ); else vp_check( t.size() <= 1, "empty text has no content tokens" );
  for( auto& k : t ) for( char c : k ) vp_check( c != d, "no token contains the delimiter" );
  std::vector<std::string> u; u.emplace_back( "keep" ); StringUtilities::tokenize( s, d, u );
  vp_check( u.size() == t.size() + 1 && u[0] == "keep", "appending overload keeps existing tokens" );
  for( size_t i = 0; i < t.size(); ++i ) vp_check( u[i+1] == t[i], "both overloads produce the same tokens" );
  vp_cover( "end" );
}
VP_HARNESS(split_last)
{
  const std::string s = any(); const char d = char( vp_byte( "d", 0 ) );
  std::string l = "stale", r = "stale"; StringUtilities::splitAtLastCharacterOccurence( s, l, r, d );
  bool has = false; for( char c : s ) if( c == d ) has = true;
  for( char c : r ) vp_check( c != d, "right part contains no separator" );
  if( has ) vp_check( l + std::string( 1, d ) + r == s, "left, separator and right restore the text" );
  else vp_check( l == s && r.empty(), "without separator everything is left" );
  vp_cover( "end" );
}
VP_HARNESS(chars_right)
{
  const std::string s = any(); const char d = char( vp_byte( "d", 0 ) );
  const size_t k = StringUtilities::computeNumCharactersToRight( s, d );
  size_t p = s.size(); for( size_t i = s.size(); i-- > 0; ) if( s[i] == d ) p = i;
  vp_check( k == ( p == s.size() ? 0 : s.size() - p - 1 ), "counts the characters after the first occurrence" );
  vp_cover( "end" );
}
VP_HARNESS(trims)
{
  const std::string s = any( N - 1 );
  size_t b = 0; while( b < s.size() && ws( s[b] ) ) ++b;
  size_t e = s.size(); while( e > 0 && ws( s[e-1] ) ) --e;
  vp_check( StringUtilities::trimFront( s ) == s.substr( b ), "leading whitespace, and only it, is removed" );
  vp_check( StringUtilities::trimBack( s ) == s.substr( 0, e ), "trailing whitespace, and only it, is removed" );
  vp_check( StringUtilities::trim( s ) == ( b < e ? s.substr( b, e - b ) : std::string() ), "whitespace at both ends, and only there, is removed" );
  vp_cover( "end" );
}
VP_HARNESS(remove_ws)
{
  const std::string s = any( N - 1 ); std::string r; for( char c : s ) if( !ws( c ) ) r.push_back( c );
  vp_check( StringUtilities::removeWhiteSpace( s ) == r, "all whitespace, and only it, is removed" );
  vp_cover( "end" );
}
VP_HARNESS(trim_char)
{
  const std::string s = any(); const char d = char( vp_byte( "d", 0 ) );
  size_t e = s.size(); while( e > 0 && s[e-1] == d ) --e;
  vp_check( StringUtilities::trimCharacterRight( s, d ) == s.substr( 0, e ), "trailing copies of the character, and only they, are removed" );
  vp_cover( "end" );
}
VP_HARNESS(pad)
{
  const std::string s = any(); const unsigned w = unsigned( vp_choose( "w", 0, N + 3 ) );
  const std::string p = StringUtilities::padWithZeros( s, w );
  const std::string z( w > s.size() ? w - s.size() : 0, '0' );
  vp_check( p == z + s, "text is left-padded with zeros to the width and never cut" );
  vp_cover( "end" );
}
