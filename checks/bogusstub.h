// Stand-ins for the third-party contact solver: they record the problem and answer arbitrarily
#pragma once
#include "scisim/ConstrainedMaps/Sobogus.h"
namespace bogus { template<unsigned D> struct PrimalFrictionProblem {}; template<unsigned D> struct DualFrictionProblem {}; }
struct Asked
{
  int made = 0, solved = 0, type = -1, judged = 0; unsigned bodies = 0, contacts = 0; VectorXs masses, f, mu, w, r0, judgedR; MatrixXXsc bases; MatrixXXsr HA, HB; VectorXi a, b; unsigned threads = 0, iters = 0, every = 0; double tol = 0; bool inf = false; int vsize = 0;
  VectorXs r, v; double err = 0;
};
static Asked ASKED;
#define BOGUS( CLS, TYPE ) \
  CLS::CLS() {} CLS::~CLS() {} \
  void CLS::fromPrimal( const unsigned nb, const Eigen::VectorXd& masses, const Eigen::VectorXd& f, const unsigned nc, const Eigen::VectorXd& mu, const Eigen::Matrix<double,Eigen::Dynamic,Eigen::Dynamic,Eigen::ColMajor>& bases, const Eigen::VectorXd& w, const Eigen::VectorXi& a, const Eigen::VectorXi& b, const Eigen::Matrix<double,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>& HA, const Eigen::Matrix<double,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>& HB ) \
  { ++ASKED.made; ASKED.type = TYPE; ASKED.bodies = nb; ASKED.masses = masses; ASKED.f = f; ASKED.contacts = nc; ASKED.mu = mu; ASKED.bases = bases; ASKED.w = w; ASKED.a = a; ASKED.b = b; ASKED.HA = HA; ASKED.HB = HB; } \
  double CLS::solve( Eigen::VectorXd& r, Eigen::VectorXd& v, unsigned& n, const unsigned th, const double& tol, const unsigned mi, const unsigned ev, const bool inf ) \
  { ++ASKED.solved; ASKED.r0 = r; ASKED.vsize = int( v.size() ); ASKED.threads = th; ASKED.tol = tol; ASKED.iters = mi; ASKED.every = ev; ASKED.inf = inf; r = ASKED.r; v = ASKED.v; n = 3; return ASKED.err; } \
  double CLS::evalInfNormError( const Eigen::VectorXd& r ) { ++ASKED.judged; ASKED.judgedR = r; return ASKED.err; }
namespace bogus { BOGUS( Balls2DSobogusInterface, 2 ) BOGUS( RigidBody2DSobogusInterface, 3 ) BOGUS( RigidBodies3DSobogusInterface, 6 ) }
