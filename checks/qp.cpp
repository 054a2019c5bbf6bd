// P12, P13, P25: error measures, projected gradient solver, friction operators
#include "maps.h"
#include "scisim/ConstrainedMaps/ImpactMaps/FischerBurmeisterImpact.h"
#include "scisim/ConstrainedMaps/ImpactMaps/MinMapImpact.h"
#include "scisim/ConstrainedMaps/ImpactMaps/NonNegativeProjection.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterBoundConstrained.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.h"
#include "scisim/ConstrainedMaps/FrictionMaps/BoundConstrainedMDPOperatorQL.h"
#include "scisim/ConstrainedMaps/FrictionMaps/LinearMDPOperatorQL.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FrictionOperatorUtilities.h"
#include "scisim/Math/QPSolvers/ProjectionSolvers.h"
#include "scisim/Math/QPSolvers/SparseMatrixVectorOperators.h"
static double mx( double a, double b ) { return a > b ? a : b; }
static double mn( double a, double b ) { return a < b ? a : b; }
static double ab( double a ) { return a < 0 ? -a : a; }
static const double EPS = 1e-9;
// An error measure is zero on exactly the solutions: checked as "solved => 0" and "zero => solved"
VP_HARNESS( err_minmap )
{
  const int n = vp_choose( "n", 0, 2 ) + 1; const VectorXs x = sv( "x", n, -100, 100 ), y = sv( "y", n, -100, 100 ); const double r = MinMapImpact{}( x, y ); double s = 0;
  for( int k = 0; k < n; ++k ) s = mx( s, ab( mn( x( k ), y( k ) ) ) );
  vp_check_eq( r, s, "the error is the largest complementarity violation" ); vp_cover( "end" );
}
static void fbZero( double r, bool solved )
{
  if( solved ) { vp_check_eq( r, 0.0, "a solution has no error" ); vp_cover( "solved" ); } else { vp_check_lt( 0.0, r, "anything but a solution has an error" ); vp_cover( "unsolved" ); }
}
VP_HARNESS( err_impact_one )
{
  const VectorXs x = sv( "x", 1, -100, 100 ), y = sv( "y", 1, -100, 100 ); const double tol = vp_real( "tol", 0, 0, 1 ); FischerBurmeisterImpact e( tol ); vp_check_same( e.tol(), tol, "the tolerance is kept" );
  fbZero( e( x, y ), x( 0 ) >= 0 && y( 0 ) >= 0 && ( x( 0 ) == 0 || y( 0 ) == 0 ) );
}
VP_HARNESS( err_impact_two )
{
  // second contact fixed to a solution or a violation
  VectorXs x = sv( "x", 2, -100, 100 ), y = sv( "y", 2, -100, 100 ); const int k = vp_choose( "k", 0, 2 ), c = vp_choose( "c", 0, 4 ); x( k ) = c == 0 ? 3.0 : c == 1 ? 0.0 : c == 2 ? -3.0 : 3.0; y( k ) = c == 1 ? 4.0 : c == 3 ? 4.0 : 0.0; const int o = 1 - k;
  const bool ok = x( o ) >= 0 && y( o ) >= 0 && ( x( o ) == 0 || y( o ) == 0 ); fbZero( FischerBurmeisterImpact( 0.1 )( x, y ), ok && c < 2 );
}
VP_HARNESS( err_bound )
{
  // one friction coordinate within [-c,c]: optimal when the gradient vanishes inside, or pushes outward at the end it sits on
  const double c = vp_real( "c", 0, 0, 50 ), b = vp_real( "b", 0, -100, 100 ), g = vp_real( "g", 0, -100, 100 ); VectorXs C( 1 ), B( 1 ), G( 1 ); C( 0 ) = c; B( 0 ) = b; G( 0 ) = g; const double tol = vp_real( "tol", 0, 0, 1 ); FischerBurmeisterBoundConstrained e( tol, C ); vp_check_same( e.tol(), tol, "the tolerance is kept" );
  const bool in = -c <= b && b <= c; const bool opt = in && ( g == 0.0 || ( b == c && g <= 0.0 ) || ( b == -c && g >= 0.0 ) ); fbZero( e( B, G ), opt );
}
VP_HARNESS( err_bound_two )
{
  const int k = vp_choose( "k", 0, 2 ), o = 1 - k; VectorXs C = sv( "c", 2, 0.001, 50 ), B( 2 ), G( 2 ); const bool bad = vp_choose( "bad", 0, 2 ); B( k ) = bad ? 0.0 : C( k ); G( k ) = -1.5; const double b = vp_real( "b", 0, -100, 100 ), g = vp_real( "g", 0, -100, 100 ); B( o ) = b; G( o ) = g; const double c = C( o );
  const bool in = -c <= b && b <= c; const bool opt = in && ( g == 0.0 || ( b == c && g <= 0.0 ) || ( b == -c && g >= 0.0 ) ); fbZero( FischerBurmeisterBoundConstrained( 0.1, C )( B, G ), opt && !bad );
}
// friction impulse in a disc of radius c: impulse of length r along u, gradient in the frame (u, perpendicular)
static void smoothOne( int at, double c, double r )
{
  const Vector2s u = su2( "u", 0 ); const double gr = vp_real( "gr", 0, -100, 100 ), gt = vp_real( "gt", 0, -100, 100 ); VectorXs C( 1 ), B( 2 ), G( 2 ); C( 0 ) = c; B << r * u( 0 ), r * u( 1 ); G << gr * u( 0 ) - gt * u( 1 ), gr * u( 1 ) + gt * u( 0 );
  const bool opt = at == 0 ? ( gr == 0.0 && gt == 0.0 ) : at == 1 ? ( gt == 0.0 && gr <= 0.0 ) : at == 3; const double tol = vp_real( "tol", 0, 0, 1 ); FischerBurmeisterSmooth e( tol, C ); vp_check_same( e.tol(), tol, "the tolerance is kept" ); fbZero( e( B, G ), opt );
}
VP_HARNESS( err_disc_inside ) { const double c = vp_real( "c", 0, 0.001, 50 ), r = vp_real( "r", 0, 0, 50 ); vp_assume( r < c ); smoothOne( 0, c, r ); }
VP_HARNESS( err_disc_edge ) { const double c = vp_real( "c", 0, 0.001, 50 ); smoothOne( 1, c, c ); }
VP_HARNESS( err_disc_outside ) { const double c = vp_real( "c", 0, 0.0, 50 ), r = vp_real( "r", 0, 0, 100 ); vp_assume( r > c ); smoothOne( 2, c, r ); }
VP_HARNESS( err_disc_none ) { smoothOne( 3, 0.0, 0.0 ); }
// three contacts: two solved ones, whatever their bounds, and one off by 2
VP_HARNESS( err_disc_three )
{
  const int bad = vp_choose( "bad", 0, 4 ); VectorXs C( 3 ), B( 6 ), G( 6 );
  for( int k = 0; k < 3; ++k ) { const Vector2s u = k == 0 ? Vector2s{ vp_rat( 3, 5 ), vp_rat( 4, 5 ) } : k == 1 ? Vector2s{ 0.0, -1.0 } : Vector2s{ vp_rat( -4, 5 ), vp_rat( 3, 5 ) }; const double c = vp_real( "c", k, 0.01, 50 ), g = vp_real( "g", k, 0, 50 ); C( k ) = k == bad ? 4.0 : c; if( k == bad ) { B.segment<2>( 2 * k ).setZero(); G.segment<2>( 2 * k ) = 3.0 * u; } else { B.segment<2>( 2 * k ) = c * u; G.segment<2>( 2 * k ) = -g * u; } }
  FischerBurmeisterSmooth e( 0.5, C ); vp_check_eq( e( B, G ), bad < 3 ? 2.0 : 0.0, "the residual is that of the worst contact" ); vp_cover( "end" );
}
VP_HARNESS( err_bound_three )
{
  const int bad = vp_choose( "bad", 0, 4 ); VectorXs C( 3 ), B( 3 ), G( 3 );
  for( int k = 0; k < 3; ++k ) { const double c = vp_real( "c", k, 0.01, 50 ), g = vp_real( "g", k, 0, 50 ), s = k == 1 ? -1.0 : 1.0; C( k ) = k == bad ? 4.0 : c; B( k ) = k == bad ? 0.0 : s * c; G( k ) = k == bad ? 3.0 * s : -g * s; }
  FischerBurmeisterBoundConstrained e( 0.5, C ); const double r = e( B, G ); if( bad < 3 ) vp_check_lt( 0.5, r, "the residual is that of the worst contact" ); else vp_check_eq( r, 0.0, "the residual is that of the worst contact" ); vp_cover( "end" );
}
VP_HARNESS( err_impact_three )
{
  const int bad = vp_choose( "bad", 0, 4 ); VectorXs A( 3 ), G( 3 ); for( int k = 0; k < 3; ++k ) { const double a = vp_real( "a", k, 0, 50 ); const bool up = vp_choose( "up", k, 2 ); A( k ) = k == bad ? 4.0 : up ? a : 0.0; G( k ) = k == bad ? 3.0 : up ? 0.0 : a; }
  vp_check_eq( MinMapImpact{}( A, G ), bad < 3 ? 3.0 : 0.0, "the residual is that of the worst contact" ); vp_check_eq( FischerBurmeisterImpact{ 0.5 }( A, G ), bad < 3 ? 2.0 : 0.0, "the residual is that of the worst contact" ); vp_cover( "end" );
}
// ---- accelerated projected gradient descent
static SparseMatrixsc smat( int n, std::vector<double> v ) { SparseMatrixsc A( n, n ); for( int j = 0; j < n; ++j ) for( int i = 0; i < n; ++i ) if( v[i + n * j] != 0.0 ) A.insert( i, j ) = v[i + n * j]; A.makeCompressed(); return A; }
static double residual( const SparseMatrixsc& A, const VectorXs& b, const VectorXs& x ) { double s = 0; for( int i = 0; i < x.size(); ++i ) { double g = b( i ); for( int j = 0; j < x.size(); ++j ) g += at( A, i, j ) * x( j ); s = mx( s, ab( mn( x( i ), g ) ) ); } return s; }
static ProjectionSolveResults apgd( const SparseMatrixsc& A, const VectorXs& b, VectorXs& x, double tol, unsigned iters )
{ ProjectionSolveResults r; r.status = ProjectionSolveStatus::Success; r.achieved_tolerance = -5; ProjectionSolvers::APGD( NonNegativeProjection{}, MinMapImpact{}, ObjectiveEigenColumnMajor{}, GradientEigenColumnMajor{}, MultiplyEigenColumnMajor{}, tol, iters, A, b, x, r ); return r; }
static void apgdHonest( const SparseMatrixsc& A, const VectorXs& b, const VectorXs& start, const VectorXs& x, double tol, const ProjectionSolveResults& r, unsigned iters )
{
  vp_check( x.size() == start.size(), "the solution has one value per unknown" ); VectorXs s = start; for( int k = 0; k < x.size(); ++k ) { vp_check_le( 0.0, x( k ), "the solution is never negative" ); s( k ) = mx( s( k ), 0.0 ); }
  vp_check( r.num_iterations <= iters, "the iteration limit is kept" );
  if( iters == 0 ) { vp_check( r.status == ProjectionSolveStatus::MaxItersExceeded, "no iterations is not a success" ); vp_cover( "end" ); return; }
  vp_check_eq( r.achieved_tolerance, residual( A, b, x ), "the reported error is the error of the returned solution" ); vp_check_le( r.achieved_tolerance, residual( A, b, s ), "the returned solution is no worse than the start" );
  if( r.status == ProjectionSolveStatus::Success ) { vp_check_le( r.achieved_tolerance, tol, "success means the tolerance was reached" ); vp_cover( "success" ); } else { vp_check_lt( tol, r.achieved_tolerance, "failure means the tolerance was not reached" ); vp_cover( "failure" ); }
}
static void apgdOne( unsigned iters, double lo, double hi )
{
  const double a = vp_real( "a", 0, 0.01, 100 ); VectorXs b = sv( "b", 1, -100, 100 ), x = sv( "x", 1, lo, hi ); const VectorXs s = x; const double tol = vp_real( "tol", 0, 0, 0.5 ); const SparseMatrixsc A = smat( 1, { a } ); const auto r = apgd( A, b, x, tol, iters ); apgdHonest( A, b, s, x, tol, r, iters );
  if( iters >= 2 ) vp_check( r.status == ProjectionSolveStatus::Success, "one unknown is solved within two iterations" );
  // the solution is unique: distance to it is bounded by the error
  const double ex = mx( 0.0, -b( 0 ) / a ); if( iters >= 2 && tol == 0.0 ) vp_check_eq( x( 0 ), ex, "one unknown is solved exactly" );
}
VP_HARNESS( apgd_one ) { apgdOne( 2, 1.5, 100 ); }
VP_HARNESS( apgd_one_neg ) { apgdOne( 2, -100, 0.5 ); }
VP_HARNESS( apgd_one_single ) { apgdOne( 1, 1.5, 100 ); }
VP_HARNESS( apgd_limit_zero ) { VectorXs b = sv( "b", 2, -9, 9 ), x = sv( "x", 2, -9, 9 ); const VectorXs s = x; const SparseMatrixsc A = smat( 2, { 2, 1, 1, 2 } ); vp_assume( x( 0 ) > 1.5 && x( 1 ) < -0.5 ); const auto r = apgd( A, b, x, 0.1, 0 ); apgdHonest( A, b, s, x, 0.1, r, 0 ); }
static void apgdTwo( std::vector<double> M, double x0, double x1, unsigned iters )
{ VectorXs b = sv( "b", 2, -4, 4 ), x( 2 ); x << x0, x1; const VectorXs s = x; const double tol = vp_real( "tol", 0, 0, 0.5 ); const SparseMatrixsc A = smat( 2, M ); const auto r = apgd( A, b, x, tol, iters ); apgdHonest( A, b, s, x, tol, r, iters ); }
VP_HARNESS( apgd_two ) { apgdTwo( { 2, -1, -1, 2 }, 0, 0, 1 ); }
VP_HARNESS( apgd_two_steps ) { apgdTwo( { 2, -1, -1, 2 }, 0, 0, 2 ); }
VP_HARNESS( apgd_two_ones ) { apgdTwo( { 2, -1, -1, 2 }, 1, 1, 2 ); }
VP_HARNESS( apgd_squeezed ) { apgdTwo( { 1, -1, -1, 1 }, 0, 0, 2 ); }
VP_HARNESS( apgd_rise ) { apgdTwo( { 1, -1, -1, 16 }, 2, 1, 2 ); }
VP_HARNESS( apgd_rise_long ) { apgdTwo( { 1, -1, -1, 16 }, 2, 1, 3 ); }

// ---- friction bases
struct Scene { int dim; AffineSystem sys; VectorXs q, v; Set K; Scene( int dim_, std::vector<Spec> k ) : dim( dim_ ), sys( 3, dim_ ), q( sv( "q", 3 * dim_, -9, 9 ) ), v( sv( "v", 3 * dim_, -9, 9 ) ) { for( auto& s : k ) { Fake* f = new Fake( dim, s.id, s.i, s.j, frame( dim, s.id ) ); f->q0 = &q; K.emplace_back( f ); } } const Fake& f( int k ) const { return static_cast<const Fake&>( *K[k] ); } };
static const std::vector<Spec> TWO{ { 0, 0, 1 }, { 1, 2, -1 } };
static void basisLaw( int dim )
{
  Scene s( dim, TWO ); const int n = 2; MatrixXXsc B( dim, dim * n ); for( int k = 0; k < n; ++k ) B.block( 0, dim * k, dim, dim ) = s.f( k ).B; SparseMatrixsc D( 1, 1 );
  FrictionOperator::formGeneralizedSmoothFrictionBasis( s.sys.n, n, s.q, s.K, B, D ); vp_check( D.rows() == s.sys.n && D.cols() == ( dim - 1 ) * n, "one friction direction per tangent and contact" );
  for( int k = 0; k < n; ++k ) for( int t = 0; t < dim - 1; ++t ) for( int r = 0; r < s.sys.n; ++r ) vp_check_eq( at( D, r, ( dim - 1 ) * k + t ), s.f( k ).dir( r, 1 + t ), "friction acts along each contact's tangents in order" );
  VectorXs nrel( n ), drel( ( dim - 1 ) * n ); Constraint::evalKinematicRelVelGivenBases( s.q, s.v, s.K, B, nrel, drel );
  for( int k = 0; k < n; ++k ) { vp_check_eq( nrel( k ), -s.f( k ).along( 0 ), "scripted surface motion is projected on each normal" ); for( int t = 0; t < dim - 1; ++t ) vp_check_eq( drel( ( dim - 1 ) * k + t ), -s.f( k ).along( 1 + t ), "scripted surface motion is projected on each tangent" ); }
  vp_cover( "end" );
}
VP_HARNESS( fric_basis_2d ) { basisLaw( 2 ); }
VP_HARNESS( fric_basis_3d ) { basisLaw( 3 ); }
static void checkDisk( const Scene& s, int m, const SparseMatrixsc& D, const VectorXs& drel )
{ for( int k = 0; k < 2; ++k ) for( int j = 0; j < m; ++j ) { const Fake& f = s.f( k ); for( int r = 0; r < s.sys.n; ++r ) vp_check_eq( at( D, r, m * k + j ), f.sgn( j ) * f.dir( r, f.tcol( j ) ), "friction samples are listed contact by contact" ); vp_check_eq( drel( m * k + j ), -f.sgn( j ) * f.along( f.tcol( j ) ), "scripted surface motion is projected on every sample" ); } }
VP_HARNESS( fric_disk )
{
  const int dim = vp_choose( "dim", 0, 2 ) + 2, m = vp_choose( "samples", 0, 3 ) + 1; Scene s( dim, TWO ); SparseMatrixsc D( s.sys.n, 2 * m ); VectorXs drel( 2 * m ); FrictionOperatorUtilities::formGeneralizedFrictionBasis( s.q, s.v, s.K, m, D, drel ); checkDisk( s, m, D, drel );
  SparseMatrixsc E( 2 * m, 2 ); FrictionOperatorUtilities::formLinearFrictionDiskConstraint( m, E ); for( int c = 0; c < 2; ++c ) for( int r = 0; r < 2 * m; ++r ) vp_check_eq( at( E, r, c ), r / m == c ? 1.0 : 0.0, "each contact bounds the sum of its own samples" );
  vp_cover( "end" );
}
// ---- friction operators: the external solver records its problem and returns arbitrary values
static struct { int calls = 0, n = 0, m = 0; MatrixXXsc C, A; VectorXs d, b, xl, xu, x, u; double eps; bool inf = false; } gq;
extern "C" void ql_( int* m, int* me, int* mmax, int* n, int* nmax, int* mnn, double* c, double* d, double* a, double* b, double* xl, double* xu, double* x, double* u, double* eps, int* mode, int* iout, int* ifail, int* iprint, double* war, int* lwar, int* iwar, int* liwar )
{
  ++gq.calls; gq.n = *n; gq.m = *m; vp_check( *me == 0 && *nmax >= *n && *mmax >= *m && *mnn == *m + 2 * *n && *mode == 1, "the solver is called with consistent sizes" ); vp_check( *lwar >= 3 * *nmax * *nmax / 2 + 10 * *nmax + *mmax + *m + 1 && *liwar >= *n, "the solver gets enough working space" ); war[0] = war[*lwar - 1] = 0.0; iwar[0] = iwar[*liwar - 1] = 0;
  gq.C.resize( *n, *n ); gq.d.resize( *n ); gq.xl.resize( *n ); gq.xu.resize( *n ); gq.A.resize( *m, *n ); gq.b.resize( *m ); gq.eps = *eps; gq.inf = true;
  for( int i = 0; i < *n; ++i ) { gq.d( i ) = d[i]; gq.xl( i ) = xl[i]; if( xu[i] > 1e12 ) gq.xu( i ) = 0.0; else { gq.inf = false; gq.xu( i ) = xu[i]; } for( int j = 0; j < *n; ++j ) gq.C( i, j ) = c[i + *nmax * j]; }
  for( int i = 0; i < *m; ++i ) { gq.b( i ) = b[i]; for( int j = 0; j < *n; ++j ) gq.A( i, j ) = a[i + *mmax * j]; }
  gq.x = sv( "x", *n, -100, 100 ); for( int i = 0; i < *n; ++i ) x[i] = gq.x( i ); gq.u = sv( "u", *mnn, 0, 100 ); for( int i = 0; i < *mnn; ++i ) u[i] = gq.u( i ); *ifail = 0;
}
static void checkObjective( const Scene& s, int m, const SparseMatrixsc& D, const SparseMatrixsc& Q )
{
  const int n = 2 * m; vp_check( gq.calls == 1 && gq.n == n, "the solver runs once over all friction impulses" );
  for( int i = 0; i < n; ++i )
  {
    for( int j = 0; j < n; ++j ) vp_check_eq( gq.C( i, j ), at( Q, i, j ), "the quadratic term couples friction impulses through the inverse mass" );
    const Fake& f = s.f( i / m ); vp_check_eq( gq.d( i ), f.sgn( i % m ) * f.tangentVel( s.v, f.tcol( i % m ) ), "the linear term is the sliding velocity along each sample" );
  }
}
VP_HARNESS( fric_bound_ql )
{
  Scene s( 2, TWO ); SparseMatrixsc D( s.sys.n, 2 ); VectorXs drel( 2 ); const double tol = vp_real( "tol", 0, 0, 1 ); BoundConstrainedMDPOperatorQL op( tol ); vp_check( op.numFrictionImpulsesPerNormal() == 1, "one impulse per contact" ); op.formGeneralizedFrictionBasis( s.q, s.v, s.K, D, drel ); checkDisk( s, 1, D, drel ); SparseMatrixsc Q = D.transpose() * s.sys.MI * D;
  const VectorXs mu = sv( "mu", 2, 0, 2 ), al = sv( "al", 2, 0, 50 ); VectorXs beta = VectorXs::Zero( 2 ), lam = VectorXs::Zero( 2 ); op.flow( 0.1, s.sys.MI, s.v, D, Q, drel, mu, al, beta, lam );
  checkObjective( s, 1, D, Q ); vp_check( gq.m == 0 && !gq.inf, "friction is bounded per contact" ); vp_check_same( gq.eps, tol, "the solver gets the operator's tolerance" ); for( int k = 0; k < 2; ++k ) { vp_check_eq( gq.xu( k ), mu( k ) * al( k ), "friction is bounded by the coefficient times the normal impulse" ); vp_check_eq( gq.xl( k ), -mu( k ) * al( k ), "friction is bounded by the coefficient times the normal impulse" ); vp_check_same( beta( k ), gq.x( k ), "the impulses are the solver's solution" ); vp_check_eq( lam( k ), mx( gq.u( k ), gq.u( k + 2 ) ), "the multiplier is that of the active bound" ); }
  vp_cover( "end" );
}
VP_HARNESS( fric_linear_ql )
{
  const int dim = vp_choose( "dim", 0, 2 ) + 2, m = dim == 2 ? 2 : 4; Scene s( dim, TWO ); SparseMatrixsc D( s.sys.n, 2 * m ); VectorXs drel( 2 * m ); const double tol = vp_real( "tol", 0, 0, 1 ); LinearMDPOperatorQL op( m, tol ); vp_check( op.numFrictionImpulsesPerNormal() == m, "one impulse per sample" ); op.formGeneralizedFrictionBasis( s.q, s.v, s.K, D, drel ); checkDisk( s, m, D, drel ); SparseMatrixsc Q = D.transpose() * s.sys.MI * D;
  const VectorXs mu = sv( "mu", 2, 0, 2 ), al = sv( "al", 2, 0, 50 ); VectorXs beta = VectorXs::Zero( 2 * m ), lam = VectorXs::Zero( 2 ); op.flow( 0.1, s.sys.MI, s.v, D, Q, drel, mu, al, beta, lam );
  checkObjective( s, m, D, Q ); vp_check( gq.m == 2 && gq.inf, "friction is bounded per contact" ); vp_check_same( gq.eps, tol, "the solver gets the operator's tolerance" );
  for( int k = 0; k < 2; ++k ) { vp_check_eq( gq.b( k ), mu( k ) * al( k ), "the sum of a contact's samples is bounded by the coefficient times the normal impulse" ); for( int j = 0; j < 2 * m; ++j ) vp_check_eq( gq.A( k, j ), j / m == k ? -1.0 : 0.0, "the sum of a contact's samples is bounded by the coefficient times the normal impulse" ); vp_check_same( lam( k ), gq.u( k ), "the multipliers are those of the bounds" ); }
  for( int j = 0; j < 2 * m; ++j ) { vp_check_eq( gq.xl( j ), 0.0, "samples only push" ); vp_check_same( beta( j ), gq.x( j ), "the impulses are the solver's solution" ); }
  vp_cover( "end" );
}
