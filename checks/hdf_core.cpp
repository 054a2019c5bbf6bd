// P34: HDF5 files give back what was written
#include "sys.h"
#include "hdf.h"
#include "scisim/HDF5File.h"
static const char* NAMES[3] = { "a", "g/a", "g/h/a" };
static const char* F = "f.h5";
static const char* STORED = "a value is stored under its name with its type and shape";
static const char* BACK = "reading gives back what was written";
static const char* FAIL = "what cannot be written or read is reported";
template<class W> static bool fails( W w ) { try { w(); } catch( const std::string& e ) { return !e.empty(); } return false; }
static void closed() { vp_check( h5::openIds() == 0, "a closed file leaves nothing open" ); vp_cover( "end" ); }
VP_HARNESS( hdf_scalars )
{
  h5::reset(); const double d = vp_real( "d", 0, -1000, 1000 ); const int i = vp_int( "i", 0, -100000, 100000 ); const unsigned u = unsigned( vp_int( "u", 0, 0, 100000 ) ); const std::string g = vp_choose( "group", 0, 2 ) ? "grp/" : "";
  { const HDF5File f{ F, HDF5AccessType::READ_WRITE }; vp_check( f.is_open(), "an opened file is open" ); f.write( g + "d", d ); f.write( g + "i", i ); f.write( g + "u", u ); f.write( "other", 3.0 ); vp_check( fails( [&] { f.write( g + "d", 1.0 ); } ), FAIL ); }
  one( F, ( g + "d" ).c_str(), d, STORED ); counts( F, ( g + "i" ).c_str(), Eigen::Matrix<int,1,1>::Constant( i ), 3, STORED ); counts( F, ( g + "u" ).c_str(), Eigen::Matrix<unsigned,1,1>::Constant( u ), 4, STORED ); vp_check( h5::file( F )->sets.size() == 4, STORED );
  { const HDF5File f{ F, HDF5AccessType::READ_ONLY }; vp_check_same( f.read<double>( g + "d" ), d, BACK ); vp_check( f.read<int>( g + "i" ) == i, BACK ); vp_check( f.read<unsigned>( g + "u" ) == u, BACK ); vp_check_same( f.read<double>( "other" ), 3.0, BACK );
    vp_check( fails( [&] { f.read<int>( g + "d" ); } ), FAIL ); vp_check( fails( [&] { f.read<double>( g + "u" ); } ), FAIL ); vp_check( fails( [&] { f.read<unsigned>( g + "i" ); } ), FAIL ); vp_check( fails( [&] { f.read<float>( g + "d" ); } ), FAIL ); vp_check( fails( [&] { f.read<double>( "none" ); } ), FAIL ); vp_check( fails( [&] { f.read<double>( "none/d" ); } ), FAIL ); vp_check( fails( [&] { f.write( "new", 1.0 ); } ), FAIL ); }
  vp_check( h5::file( F )->sets.size() == 4, "failed operations change nothing" ); closed();
}
VP_HARNESS( hdf_long )
{
  h5::reset(); const long n = 5000000000l + vp_int( "n", 0, -1000, 1000 ); Eigen::Matrix<long,Eigen::Dynamic,1> w( 2 ); w << n, -n;
  { const HDF5File f{ F, HDF5AccessType::READ_WRITE }; f.write( "n", n ); f.write( "w", w ); }
  const h5::Set* s = set( F, "w", STORED ); vp_check( s->type.kind == 5 && shaped( s, 2, 1 ), STORED ); vp_check( val<long>( s, 0 ) == n && val<long>( s, 1 ) == -n, STORED );
  { const HDF5File f{ F, HDF5AccessType::READ_ONLY }; vp_check( f.read<long>( "n" ) == n, BACK ); const Eigen::Matrix<long,Eigen::Dynamic,1> r = f.read<Eigen::Matrix<long,Eigen::Dynamic,1>>( "w" ); vp_check( r.size() == 2 && r( 0 ) == n && r( 1 ) == -n, BACK ); vp_check( fails( [&] { f.read<int>( "n" ); } ), FAIL ); }
  closed();
}
typedef Eigen::Matrix<scalar,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor> RowM;
typedef Eigen::Matrix<unsigned,Eigen::Dynamic,Eigen::Dynamic> MatrixXXuc;
VP_HARNESS( hdf_tables )
{
  h5::reset(); const int R = 1 + vp_choose( "rows", 0, 3 ), C = 1 + vp_choose( "cols", 0, 3 ); MatrixXXsc A( R, C ); RowM B( R, C ); MatrixXXuc U( R, C ); int k = 0; for( int r = 0; r < R; ++r ) for( int c = 0; c < C; ++c, ++k ) { A( r, c ) = vp_real( "a", k, -9, 9 ); B( r, c ) = vp_real( "b", k, -9, 9 ); U( r, c ) = unsigned( vp_int( "u", k, 0, 1000 ) ); }
  const VectorXs v = sv( "v", R, -9, 9 );
  { const HDF5File f{ F, HDF5AccessType::READ_WRITE }; f.write( "m/A", A ); f.write( "m/B", B ); f.write( "U", U ); f.write( "v", v ); f.write( "map", Eigen::Map<const VectorXs>( v.data(), R ) ); }
  table( F, "m/A", A, STORED ); table( F, "m/B", B, STORED ); counts( F, "U", U, 4, STORED ); table( F, "v", v, STORED ); table( F, "map", v, STORED );
  { const HDF5File f{ F, HDF5AccessType::READ_ONLY };
    const MatrixXXsc a = f.read<MatrixXXsc>( "m/A" ), a2 = f.read<MatrixXXsc>( "m/B" ); const RowM b = f.read<RowM>( "m/B" ), b2 = f.read<RowM>( "m/A" ); const MatrixXXuc u = f.read<MatrixXXuc>( "U" ); const VectorXs w = f.read<VectorXs>( "v" );
    vp_check( a.rows() == R && a.cols() == C && b.rows() == R && b.cols() == C && u.rows() == R && u.cols() == C && a2.rows() == R && b2.cols() == C, BACK );
    for( int r = 0; r < R; ++r ) for( int c = 0; c < C; ++c ) { vp_check_same( a( r, c ), A( r, c ), BACK ); vp_check_same( a2( r, c ), B( r, c ), BACK ); vp_check_same( b( r, c ), B( r, c ), BACK ); vp_check_same( b2( r, c ), A( r, c ), BACK ); vp_check( u( r, c ) == U( r, c ), BACK ); }
    samev( w, v, BACK );
    vp_check( fails( [&] { f.read<Vector2s>( "v" ); } ) == ( R != 2 ), "a size that does not fit the requested type is reported" ); vp_check( fails( [&] { f.read<Matrix2Xsc>( "m/A" ); } ) == ( R != 2 ), "a size that does not fit the requested type is reported" );
    vp_check( fails( [&] { f.read<VectorXs>( "m/A" ); } ) == ( C != 1 ), "a size that does not fit the requested type is reported" ); vp_check( fails( [&] { f.read<MatrixXXuc>( "m/A" ); } ), FAIL ); }
  closed();
}
VP_HARNESS( hdf_sparse )
{
  h5::reset(); SparseMatrixsc S( 3, 2 ); double d[3][2] = {}; int nz = 0; for( int c = 0; c < 2; ++c ) for( int r = 0; r < 3; ++r ) if( vp_choose( "in", 3 * c + r, 2 ) ) { S.insert( r, c ) = d[r][c] = vp_real( "s", 3 * c + r, 1, 9 ); ++nz; } S.makeCompressed(); vp_assume( nz > 0 );
  { const HDF5File f{ F, HDF5AccessType::READ_WRITE }; f.write( "g/S", S ); }
  { const h5::Set* s = set( F, "g/S_nrows", STORED ); vp_check( s->type.kind == 5 && val<long>( s, 0 ) == 3, STORED ); } { const h5::Set* s = set( F, "g/S_ncols", STORED ); vp_check( s->type.kind == 5 && val<long>( s, 0 ) == 2, STORED ); }
  const h5::Set *p = set( F, "g/S_col_ptr", STORED ), *ri = set( F, "g/S_row_ind", STORED ), *v = set( F, "g/S_val", STORED ); vp_check( p->type.kind == 3 && shaped( p, 3, 1 ) && ri->type.kind == 3 && shaped( ri, unsigned( nz ), 1 ) && v->type.kind == 1 && shaped( v, unsigned( nz ), 1 ), STORED );
  double e[3][2] = {}; vp_check( val<int>( p, 0 ) == 0 && val<int>( p, 2 ) == nz, STORED ); for( int c = 0; c < 2; ++c ) for( int k = val<int>( p, std::size_t( c ) ); k < val<int>( p, std::size_t( c + 1 ) ); ++k ) e[val<int>( ri, std::size_t( k ) )][c] += val<double>( v, std::size_t( k ) );
  for( int r = 0; r < 3; ++r ) for( int c = 0; c < 2; ++c ) vp_check_same( e[r][c], d[r][c], "the column form holds every entry" ); closed();
}
VP_HARNESS( hdf_text )
{
  h5::reset(); std::string t; const int n = vp_choose( "len", 0, 5 ); for( int k = 0; k < n; ++k ) t += char( vp_int( "ch", k, 1, 127 ) ); const std::string want = t; const bool g = vp_choose( "group", 0, 2 );
  { const HDF5File f{ F, HDF5AccessType::READ_WRITE }; f.write( g ? "g/t" : "t", t ); t.assign( "zz" ); vp_check( fails( [&] { f.write( g ? "g/t" : "t", t ); } ), FAIL ); }
  const h5::Set* s = set( F, g ? "g/t" : "t", STORED ); vp_check( s->type.kind == 6 && s->n == 1, STORED ); const char* p = val<const char*>( s, 0 ); vp_check( want == p, "the text is stored" ); closed();
}
// a group is created once and found again; a subgroup of a missing group is refused
VP_HARNESS( hdf_groups )
{
  h5::reset(); const HDF5File f{ F, HDF5AccessType::READ_WRITE }; f.write( "g/a", 1.0 ); f.write( "g/b", 2.0 ); f.write( "g/h/a", 3.0 ); f.write( "a", 4.0 ); vp_check( fails( [&] { f.write( "x/y/a", 5.0 ); } ), FAIL ); vp_check( fails( [&] { f.findGroup( "none" ); } ), FAIL ); { const auto id = f.findGroup( "g/h" ); vp_check( id >= 0, "existing groups are found" ); } { const auto id = f.findGroup( "" ); vp_check( id >= 0, "existing groups are found" ); }
  one( F, "g/a", 1.0, STORED ); one( F, "g/b", 2.0, STORED ); one( F, "g/h/a", 3.0, STORED ); one( F, "a", 4.0, STORED ); vp_check( h5::file( F )->groups.size() == 2, "each group is created once" ); vp_check( h5::openIds() == 1, "only the file stays open" ); vp_cover( "end" );
}
VP_HARNESS( hdf_open )
{
  h5::reset(); vp_check( fails( [] { const HDF5File f( "none.h5", HDF5AccessType::READ_ONLY ); } ), "a file that cannot be opened is reported" ); h5::refuse() = true; vp_check( fails( [] { const HDF5File f( F, HDF5AccessType::READ_WRITE ); } ), "a file that cannot be opened is reported" ); h5::refuse() = false;
  const double x = vp_real( "d", 0, -9, 9 );
  { HDF5File a; vp_check( !a.is_open(), "a new file object is not open" ); a.open( F, HDF5AccessType::READ_WRITE ); HDF5File b{ std::move( a ) }; vp_check( b.is_open() && !a.is_open() && h5::openIds() == 1, "moving hands the open file over" ); HDF5File c; c = std::move( b ); vp_check( c.is_open() && h5::openIds() == 1, "moving hands the open file over" ); c.write( "x", x ); }
  vp_check( h5::openIds() == 0, "a closed file leaves nothing open" ); one( F, "x", x, STORED );
  { const HDF5File f{ F, HDF5AccessType::READ_WRITE }; f.write( "y", x ); } vp_check( !has( F, "x" ) && has( F, "y" ), "opening for writing starts an empty file" ); closed();
}
