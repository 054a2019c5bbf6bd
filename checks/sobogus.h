// P28: the contact problem handed to the third-party solver and the use of its answer
#pragma once
#include "maps.h"
#include "bogusstub.h"
// a system of nb bodies with a block-diagonal mass matrix in the simulator's own layout
struct Masses final : FlowableSystem
{
  int nb, per, n; SparseMatrixsc MM; std::vector<MatrixXXsc> blk;
  Masses( int nb_, int per_ ) : nb( nb_ ), per( per_ ), n( nb_ * per_ ), MM( n, n )
  {
    for( int b = 0; b < nb; ++b )
    {
      MatrixXXsc B = MatrixXXsc::Zero( per, per ); const double m = vp_real( "m", b, 0.01, 100 ); for( int k = 0; k < ( per == 3 ? 2 : per == 6 ? 3 : 2 ); ++k ) B( k, k ) = m; if( per == 3 ) B( 2, 2 ) = vp_real( "I", b, 0.01, 100 );
      if( per == 6 ) { const VectorXs s = sv( ( "I" + std::to_string( b ) ).c_str(), 6, -9, 9 ); const int w[9] = { 0, 1, 2, 1, 3, 4, 2, 4, 5 }; for( int k = 0; k < 9; ++k ) { vp_assume( s( w[k] ) > 0.0 ); B( 3 + k / 3, 3 + k % 3 ) = s( w[k] ); } }
      blk.push_back( B );
    }
    if( per < 6 ) for( int k = 0; k < n; ++k ) MM.insert( k, k ) = blk[k / per]( k % per, k % per );
    else { for( int k = 0; k < 3 * nb; ++k ) MM.insert( k, k ) = blk[k / 3]( k % 3, k % 3 ); for( int b = 0; b < nb; ++b ) for( int c = 0; c < 3; ++c ) for( int r = 0; r < 3; ++r ) MM.insert( 3 * nb + 3 * b + r, 3 * nb + 3 * b + c ) = blk[b]( 3 + r, 3 + c ); }
    MM.makeCompressed();
  }
  // the velocity of body b gathered from (or its index in) the simulator's layout
  int at( int b, int k ) const { return per < 6 ? per * b + k : k < 3 ? 3 * b + k : 3 * nb + 3 * b + k - 3; }
  int nqdofs() const override { return per == 6 ? 12 * nb : n; } int nvdofs() const override { return n; } unsigned numVelDoFsPerBody() const override { return per; } unsigned ambientSpaceDimensions() const override { return per == 6 ? 3 : 2; }
  bool isKinematicallyScripted( const int ) const override { return false; } void computeForce( const VectorXs&, const VectorXs&, const scalar&, VectorXs& ) override {} void zeroOutForcesOnFixedBodies( VectorXs& ) const override {}
  void linearInertialConfigurationUpdate( const VectorXs&, const VectorXs&, const scalar&, VectorXs& ) const override {} const SparseMatrixsc& M() const override { return MM; } const SparseMatrixsc& Minv() const override { return MM; } const SparseMatrixsc& M0() const override { return MM; } const SparseMatrixsc& Minv0() const override { return MM; }
  void computeMomentum( const VectorXs&, VectorXs& ) const override {} void computeAngularMomentum( const VectorXs&, VectorXs& ) const override {} std::string name() const override { return "masses"; }
};
// a right-handed contact frame with the given normal as first column: any normal in a plane, tangents at any twist (3D)
static MatrixXXsc leaning( int dim, int id )
{
  MatrixXXsc B( dim, dim ); const Vector2s a = su2( "lean", id );
  if( dim == 2 ) { B << a( 0 ), -a( 1 ), a( 1 ), a( 0 ); return B; }
  const Vector2s w = su2( "twist", id ); const Vector3s e{ -a( 1 ), a( 0 ), 0.0 }, z{ 0.0, 0.0, 1.0 }, n{ a( 0 ), a( 1 ), 0.0 };
  for( int d = 0; d < 3; ++d ) { B( d, 0 ) = n( d ); B( d, 1 ) = w( 0 ) * e( d ) + w( 1 ) * z( d ); B( d, 2 ) = w( 0 ) * z( d ) - w( 1 ) * e( d ); }
  return B;
}
// contacts of real kinds among bodies of which only `in` touch anything
static void sobogusLaw( Masses& sys, SobogusSolverType type, Set& act, const MatrixXXsc& bases, const VectorXs& q0, const std::vector<int>& in )
{
  const int D = int( bases.rows() ), T = D - 1, K = int( act.size() ), P = sys.per, L = int( in.size() ); const VectorXs v0 = sv( "v", sys.n, -50, 50 ), q00 = q0, v00 = v0; ASKED = Asked();
  VectorXs cor = sv( "cor", K, 0, 1 ), mu = sv( "mu", K, 0, 2 ), alpha = sv( "alpha", K, 0, 20 ), beta = sv( "beta", T * K, -20, 20 ), f = sv( "fin", sys.n, -9, 9 ), vout = VectorXs::Zero( sys.n ); const VectorXs alpha0 = alpha, beta0 = beta; if( vp_choose( "smooth", 0, 2 ) ) mu( 0 ) = 0.0; else for( int k = 0; k < K; ++k ) vp_assume( mu( k ) > 0.0 );
  const bool extra = vp_choose( "extra", 0, 2 ); const VectorXs nx = extra ? sv( "nx", K, -9, 9 ) : VectorXs( VectorXs::Zero( 0 ) ), dx = extra ? sv( "dx", T * K, -9, 9 ) : VectorXs( VectorXs::Zero( 0 ) );
  // expectations from the contacts themselves, in global numbering
  std::vector<MatrixXXsc> H0( K, MatrixXXsc( D, P ) ), H1( K, MatrixXXsc( D, P ) ); VectorXs nv( K ), nrel( K ), drel( T * K ); std::vector<std::pair<int,int>> who( K );
  for( int k = 0; k < K; ++k ) { act[k]->evalH( q0, bases.block( 0, D * k, D, D ), H0[k], H1[k] ); nv( k ) = act[k]->evalNdotV( q0, v0 ); act[k]->getSimulatedBodyIndices( who[k] ); }
  Constraint::evalKinematicRelVelGivenBases( q0, v0, act, bases, nrel, drel ); if( extra ) { nrel += nx; drel += dx; }
  ASKED.r = sv( "r", D * K, -20, 20 ); ASKED.v = sv( "lv", P * L, -50, 50 ); const VectorXs r = ASKED.r, lv = ASKED.v; const double tol = 0.25; ASKED.err = vp_real( "err", 0, 0, 1 ); vp_assume( ASKED.err < tol || ASKED.err > tol );
  Sobogus solver( type, 5 ); bool ok; double err = -1; solver.solve( 7, 0.01, sys, sys.MM, sys.MM, cor, mu, q0, v0, act, bases, nx, dx, 11, tol, f, alpha, beta, vout, ok, err );
  auto local = [&]( int b ) { if( b < 0 ) return -1; for( int l = 0; l < L; ++l ) if( in[l] == b ) return l; return -99; };
  vp_check( ASKED.made == 1 && ASKED.solved == 1 && ASKED.type == P, "the problem of this kind of bodies is posed and solved once" ); vp_check( int( ASKED.bodies ) == L && int( ASKED.contacts ) == K, "only bodies in contact enter the problem" ); vp_check( ASKED.masses.size() == L * P * P && ASKED.f.size() == L * P && ASKED.w.size() == D * K && ASKED.vsize == L * P, "the problem has one block per body and contact" );
  for( int l = 0; l < L; ++l ) for( int i = 0; i < P; ++i ) { double p = 0; for( int j = 0; j < P; ++j ) { vp_check_eq( ASKED.masses( P * P * l + P * i + j ), sys.blk[in[l]]( i, j ), "bodies enter with their own mass and inertia" ); p += sys.blk[in[l]]( i, j ) * v0( sys.at( in[l], j ) ); } vp_check_eq( ASKED.f( P * l + i ), -p, "bodies enter with their own momentum" ); }
  for( int k = 0; k < K; ++k )
  {
    vp_check( ASKED.a( k ) == local( who[k].first ) && ASKED.b( k ) == local( who[k].second ), "each contact names its bodies" ); vp_check_same( ASKED.mu( k ), mu( k ), "each contact has its friction coefficient" );
    for( int d = 0; d < D; ++d )
    {
      double w = bases( d, D * k ) * ( cor( k ) * nv( k ) + nrel( k ) ), g = bases( d, D * k ) * alpha0( k ); for( int t = 0; t < T; ++t ) { w += bases( d, D * k + 1 + t ) * drel( T * k + t ); g += bases( d, D * k + 1 + t ) * beta0( T * k + t ); }
      vp_check_eq( ASKED.w( D * k + d ), w, "restitution and scripted motion enter along the contact frame" ); vp_check_eq( ASKED.r0( D * k + d ), g, "the initial guess is expressed in space" );
      for( int c = 0; c < D; ++c ) vp_check_same( ASKED.bases( d, D * k + c ), bases( d, D * k + c ), "each contact has its frame" );
      for( int p = 0; p < P; ++p ) { vp_check_eq( ASKED.HA( D * k + d, p ), H0[k]( d, p ), "each contact has its lever arms" ); if( who[k].second >= 0 ) vp_check_eq( ASKED.HB( D * k + d, p ), H1[k]( d, p ), "each contact has its lever arms" ); }
    }
    std::pair<int,int> now; act[k]->getSimulatedBodyIndices( now ); vp_check( now == who[k], "contacts keep their body numbers" );
  }
  vp_check( ASKED.iters == 11 && ASKED.every == 5 && ASKED.inf, "the solver gets its limits" ); vp_check_same( ASKED.tol, tol, "the solver gets the tolerance" ); vp_check_same( err, ASKED.err, "the achieved error is reported" ); vp_check( ok == ( ASKED.err < tol ), "success is reported exactly when the tolerance is met" );
  // what comes back
  VectorXs F = VectorXs::Zero( sys.n );
  for( int k = 0; k < K; ++k )
  {
    auto comp = [&]( int c ) { double s = 0; for( int d = 0; d < D; ++d ) s += bases( d, D * k + c ) * r( D * k + d ); return s; };
    vp_check_eq( alpha( k ), comp( 0 ), "normal impulses are the answer's normal part" );
    for( int t = 0; t < T; ++t ) { const bool none = D == 2 && mu( k ) == 0.0; vp_check_eq( beta( T * k + t ), none ? 0.0 : comp( 1 + t ), "friction impulses are the answer's tangential part" ); for( int p = 0; p < P; ++p ) { F( sys.at( who[k].first, p ) ) += beta( T * k + t ) * H0[k]( 1 + t, p ); if( who[k].second >= 0 ) F( sys.at( who[k].second, p ) ) -= beta( T * k + t ) * H1[k]( 1 + t, p ); } }
  }
  eqv( f, F, "the friction force acts on both bodies of every contact with its torque" );
  for( int b = 0; b < sys.nb; ++b ) for( int p = 0; p < P; ++p ) { const int l = local( b ); if( l < 0 ) vp_check_same( vout( sys.at( b, p ) ), v0( sys.at( b, p ) ), "bodies without contact keep their velocity" ); else vp_check_same( vout( sys.at( b, p ) ), lv( P * l + p ), "bodies in contact get the solver's velocity" ); }
  samev( q0, q00, "the start of the step is not modified" ); samev( v0, v00, "the start of the step is not modified" ); vp_cover( "end" );
}
// the error of given contact forces is judged on the problem of all bodies
static void judgeLaw( Masses& sys, SobogusSolverType type, Set& act, const MatrixXXsc& bases, const VectorXs& q0 )
{
  const int D = int( bases.rows() ), T = D - 1, K = int( act.size() ), P = sys.per, L = sys.nb; const VectorXs v0 = sv( "v", sys.n, -50, 50 ), cor = sv( "cor", K, 0, 1 ), mu = sv( "mu", K, 0, 2 ), nrel = sv( "nx", K, -9, 9 ), drel = sv( "dx", T * K, -9, 9 ), r = sv( "r", D * K, -20, 20 ); ASKED = Asked();
  SobogusFrictionProblem sp( type ); VectorXs masses; sp.flattenMass( sys.MM, masses ); sp.initialize( act, bases, masses, q0, v0, cor, mu, nrel, drel ); ASKED.err = vp_real( "err", 0, 0, 9 ); const double e = sp.computeError( r );
  vp_check( ASKED.judged == 1 && ASKED.type == P, "the error is that of this kind of bodies" ); vp_check_same( e, ASKED.err, "the error is the solver's" ); samev( ASKED.judgedR, r, "the given forces are judged" ); vp_check( int( ASKED.bodies ) == L && int( ASKED.contacts ) == K, "all bodies enter the problem" ); vp_check( ASKED.masses.size() == L * P * P && ASKED.f.size() == L * P && ASKED.w.size() == D * K, "the problem has one block per body and contact" );
  for( int l = 0; l < L; ++l ) for( int i = 0; i < P; ++i ) { double p = 0; for( int j = 0; j < P; ++j ) { vp_check_eq( ASKED.masses( P * P * l + P * i + j ), sys.blk[l]( i, j ), "bodies enter with their own mass and inertia" ); p += sys.blk[l]( i, j ) * v0( sys.at( l, j ) ); } vp_check_eq( ASKED.f( P * l + i ), -p, "bodies enter with their own momentum" ); }
  for( int k = 0; k < K; ++k )
  {
    std::pair<int,int> who; act[k]->getSimulatedBodyIndices( who ); vp_check( ASKED.a( k ) == who.first && ASKED.b( k ) == who.second, "each contact names its bodies" ); vp_check_same( ASKED.mu( k ), mu( k ), "each contact has its friction coefficient" ); const double nv = act[k]->evalNdotV( q0, v0 );
    for( int d = 0; d < D; ++d ) { double w = bases( d, D * k ) * ( cor( k ) * nv + nrel( k ) ); for( int t = 0; t < T; ++t ) w += bases( d, D * k + 1 + t ) * drel( T * k + t ); vp_check_eq( ASKED.w( D * k + d ), w, "restitution and scripted motion enter along the contact frame" ); }
  }
  vp_cover( "end" );
}
