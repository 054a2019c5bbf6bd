// P34: state files of the 3D rigid body simulation, and triangle meshes read from files
#include "rb3d.h"
#include "hdf.h"
#include "scisim/HDF5File.h"
static const char* F = "f.h5";
static std::string meshFile( int k ) { return "mesh" + std::to_string( k ) + ".h5"; }
// a mesh whose every stored table holds arbitrary values
struct MeshData { Matrix3Xsc V, S, H; Matrix3Xuc T; double vol; Vector3s I, x, d, o; Matrix3s R; Vector3u n; VectorXs f; };
static Matrix3Xsc tab( const char* nm, int id, int c ) { Matrix3Xsc m( 3, c ); for( int k = 0; k < 3 * c; ++k ) m( k % 3, k / 3 ) = vp_real( ( nm + std::to_string( id ) ).c_str(), k, -9, 9 ); return m; }
static MeshData put( int id )
{
  MeshData m; m.V = tab( "vert", id, 4 ); m.S = tab( "samp", id, 2 ); m.H = tab( "hull", id, 3 ); m.T.resize( 3, 2 ); for( int k = 0; k < 6; ++k ) m.T( k % 3, k / 3 ) = unsigned( k % 4 ); m.vol = vp_real( "vol", id, 0.1, 9 ); m.I = sv3( "moi", id, 0.1, 9 ); m.x = sv3( "com", id, -9, 9 ); m.d = sv3( "cell", id, 0.1, 2 ); m.o = sv3( "org", id, -9, 9 ); const Matrix33sr R = rot( "mR", id ); m.R = R; m.n << 2u, 3u, 2u; m.f = sv( ( "sd" + std::to_string( id ) ).c_str(), 12, -3, 3 );
  const HDF5File f{ meshFile( id ), HDF5AccessType::READ_WRITE }; f.write( "mesh/vertices", m.V ); f.write( "mesh/faces", m.T ); f.write( "moments/volume", m.vol ); f.write( "moments/I_on_rho", m.I ); f.write( "moments/x", m.x ); f.write( "moments/R", m.R ); f.write( "surface_samples/samples", m.S ); f.write( "convex_hull/vertices", m.H ); f.write( "sdf/cell_delta", m.d ); f.write( "sdf/grid_dimensions", m.n ); f.write( "sdf/grid_origin", m.o ); f.write( "sdf/signed_distance", m.f ); return m;
}
template<class A, class B> static void tables( const A& a, const B& b, const char* m ) { vp_check( a.rows() == b.rows() && a.cols() == b.cols(), m ); for( int r = 0; r < b.rows(); ++r ) for( int c = 0; c < b.cols(); ++c ) vp_check_same( a( r, c ), b( r, c ), m ); }
VP_HARNESS( hdf_mesh )
{
  h5::reset(); const MeshData m = put( 0 ); const RigidBodyTriangleMesh t{ meshFile( 0 ) }; vp_check( t.inputFileName() == meshFile( 0 ), "a mesh keeps the name of its file" ); tables( t.vertices(), m.V, "vertices are those in the file" ); tables( t.samples(), m.S, "surface samples are those in the file" ); tables( t.convexHullVertices(), m.H, "hull vertices are those in the file" ); vp_check( t.faces().cols() == 2, "faces are those in the file" ); for( int k = 0; k < 6; ++k ) vp_check( t.faces()( k % 3, k / 3 ) == m.T( k % 3, k / 3 ), "faces are those in the file" );
  vp_check_same( t.m_volume, m.vol, "the volume is the one in the file" ); samev( t.m_I_on_rho, m.I, "the moments are those in the file" ); samev( t.m_center_of_mass, m.x, "the centre is the one in the file" ); tables( t.m_R, m.R, "the frame is the one in the file" ); samev( t.m_cell_delta, m.d, "the field's cells are those in the file" ); samev( t.m_grid_origin, m.o, "the field's origin is the one in the file" ); samev( t.m_signed_distance, m.f, "the field is the one in the file" );
  for( int d = 0; d < 3; ++d ) { vp_check( t.m_grid_dimensions( d ) == m.n( d ), "the field's size is the one in the file" ); vp_check_eq( t.m_grid_end( d ), m.o( d ) + ( m.n( d ) - 1.0 ) * m.d( d ), "the field ends where its last point lies" ); }
  vp_check( h5::openIds() == 0, "a closed file leaves nothing open" ); vp_cover( "end" );
}
VP_HARNESS( hdf_rb3d )
{
  h5::reset(); const int n = 2, ng = 3, odd = vp_choose( "fx", 0, 2 ), order = vp_choose( "kinds", 0, 6 ); static const int K[6][3] = { { 0, 1, 2 }, { 2, 1, 0 }, { 1, 1, 0 }, { 2, 2, 1 }, { 0, 0, 2 }, { 1, 2, 0 } }; Bodies b = some( n ); VectorXu fixed( n ); for( int k = 0; k < n; ++k ) { b.fx[k] = k == odd; fixed( k ) = b.fx[k]; b.gi[k] = unsigned( vp_choose( "gi", k, ng ) ); }
  // box, sphere or mesh in every order
  Geo g; std::vector<int> kind, local; std::vector<Vector3s> hw; std::vector<double> r; std::vector<std::string> files;
  for( int k = 0; k < ng; ++k )
  {
    kind.push_back( K[order][k] );
    if( kind[k] == 0 ) { const Vector3s h = sv3( "hw", k, 0.1, 10 ); local.push_back( int( hw.size() ) ); hw.push_back( h ); g.emplace_back( new RigidBodyBox{ h } ); }
    else if( kind[k] == 1 ) { local.push_back( int( r.size() ) ); r.push_back( vp_real( "r", k, 0.1, 10 ) ); g.emplace_back( new RigidBodySphere{ r.back() } ); }
    else { RigidBodyTriangleMesh* m = new RigidBodyTriangleMesh; m->m_input_file_name = "shape" + std::to_string( k ) + ".h5"; local.push_back( int( files.size() ) ); files.push_back( m->m_input_file_name ); g.emplace_back( m ); }
  }
  RigidBody3DSim sim; RigidBody3DState& s = sim.state(); install( s, b, g ); const VectorXs q = s.q(), v = s.v();
  { HDF5File f{ F, HDF5AccessType::READ_WRITE }; sim.writeBinaryState( f ); }
  table( F, "state/q", q, "configuration of every body" ); table( F, "state/v", v, "velocity of every body" ); VectorXs M( 6 * n ); for( int k = 0; k < n; ++k ) for( int d = 0; d < 3; ++d ) { M( 3 * k + d ) = b.m[k]; M( 3 * ( n + k ) + d ) = b.I[k]( d ); } table( F, "state/M0", M, "mass and inertia of every body" ); counts( F, "state/kinematically_scripted", fixed, 4, "which bodies are scripted" );
  const char* W = "each body names the kind of its shape and its number among the shapes of that kind"; const h5::Set* ix = set( F, "geometry/geometry_indices", W ); vp_check( ix->type.kind == 4 && shaped( ix, 2, unsigned( n ) ), W );
  for( int k = 0; k < n; ++k ) { vp_check( val<int>( ix, std::size_t( k ) ) == int( g[b.gi[k]]->getType() ), W ); vp_check( val<int>( ix, std::size_t( n + k ) ) == local[b.gi[k]], W ); }
  const char* C = "every sphere's radius is stored"; if( !r.empty() ) { const h5::Set* t = set( F, "geometry/spheres", C ); vp_check( records( t, C ) == r.size(), C ); for( std::size_t k = 0; k < r.size(); ++k ) Rec{ t, k, C }.num( "r", r[k] ); } else vp_check( !has( F, "geometry/spheres" ), C );
  const char* B = "every box's half widths are stored"; if( !hw.empty() ) { const h5::Set* t = set( F, "geometry/boxes", B ); vp_check( records( t, B ) == hw.size(), B ); for( std::size_t k = 0; k < hw.size(); ++k ) Rec{ t, k, B }.nums( "r", hw[k] ); } else vp_check( !has( F, "geometry/boxes" ), B );
  const char* T = "every mesh's file is named"; if( !files.empty() ) { const h5::Set* t = set( F, "geometry/meshes", T ); vp_check( records( t, T ) == files.size(), T ); for( std::size_t k = 0; k < files.size(); ++k ) Rec{ t, k, T }.text( "file_name", files[k] ); } else vp_check( !has( F, "geometry/meshes" ), T );
  vp_check( !has( F, "static_geometry/static_planes" ) && !has( F, "static_geometry/static_cylinders" ), "no boundaries, no data" ); samev( s.q(), q, "writing changes nothing" ); vp_check( h5::openIds() == 0, "a closed file leaves nothing open" ); vp_cover( "end" );
}
VP_HARNESS( hdf_rb3d_walls )
{
  h5::reset(); Bodies b = some( 1 ); RigidBody3DSim sim; RigidBody3DState& s = sim.state(); install( s, b, ball( 1.0 ) ); const int np = vp_choose( "planes", 0, 3 ), nc = vp_choose( "cyls", 0, 3 ); std::vector<Vector3s> X, N, V, W, cx, cv, cw; std::vector<double> cr; std::vector<VectorXs> cq;
  for( int k = 0; k < np; ++k ) { X.push_back( sv3( "px", k, -50, 50 ) ); N.push_back( su3( "pn", k ) ); V.push_back( sv3( "pv", k, -9, 9 ) ); W.push_back( sv3( "pw", k, -9, 9 ) ); s.addStaticPlane( StaticPlane{ X[k], N[k] } ); StaticPlane& p = s.staticPlane( std::size_t( k ) ); N[k] = p.n(); p.v() = V[k]; p.omega() = W[k]; }
  for( int k = 0; k < nc; ++k ) { cx.push_back( sv3( "cx", k, -50, 50 ) ); cv.push_back( sv3( "cv", k, -9, 9 ) ); cw.push_back( sv3( "cw", k, -9, 9 ) ); cr.push_back( vp_real( "cr", k, 0.1, 9 ) ); const bool turned = vp_choose( "turned", k, 2 ); s.addStaticCylinder( StaticCylinder{ cx[k], turned ? Vector3s{ 0.0, 0.0, 1.0 } : Vector3s{ 0.0, 1.0, 0.0 }, cr[k] } ); StaticCylinder& c = s.staticCylinder( std::size_t( k ) ); c.m_v = cv[k]; c.m_omega = cw[k]; const Quaternions R = c.R(); cq.push_back( ( VectorXs( 4 ) << R.x(), R.y(), R.z(), R.w() ).finished() ); }
  { HDF5File f{ F, HDF5AccessType::READ_WRITE }; sim.writeBinaryState( f ); }
  const char* P = "every plane's point, normal and motion are stored"; if( np ) { const h5::Set* t = set( F, "static_geometry/static_planes", P ); vp_check( records( t, P ) == std::size_t( np ), P ); for( int k = 0; k < np; ++k ) { const Rec r{ t, std::size_t( k ), P }; r.nums( "x", X[k] ); r.nums( "n", N[k] ); r.nums( "v", V[k] ); r.nums( "omega", W[k] ); } } else vp_check( !has( F, "static_geometry/static_planes" ), P );
  const char* Y = "every cylinder's point, orientation, motion and radius are stored"; if( nc ) { const h5::Set* t = set( F, "static_geometry/static_cylinders", Y ); vp_check( records( t, Y ) == std::size_t( nc ), Y ); for( int k = 0; k < nc; ++k ) { const Rec r{ t, std::size_t( k ), Y }; r.nums( "x", cx[k] ); r.nums( "R", cq[k] ); r.nums( "v", cv[k] ); r.nums( "omega", cw[k] ); r.num( "r", cr[k] ); } } else vp_check( !has( F, "static_geometry/static_cylinders" ), Y );
  vp_check( h5::openIds() == 0, "a closed file leaves nothing open" ); vp_cover( "end" );
}
