// Stands in for Eigen's symmetric eigenvalue solver: records the matrix it is given and answers with what the harness chose.
#pragma once
#ifdef __cplusplus
#define EIGEN_EIGENVALUES_MODULE_H
#include <Eigen/Core>
#include <Eigen/LU>
#include <Eigen/Geometry>
namespace vpeig { extern Eigen::Matrix3d input, vectors; extern Eigen::Vector3d values; extern int calls; }
namespace Eigen
{
  template<typename M> class SelfAdjointEigenSolver
  {
  public:
    typedef Eigen::Vector3d RealVectorType;
    SelfAdjointEigenSolver() {}
    template<typename D> explicit SelfAdjointEigenSolver( const D& m, int = ComputeEigenvectors ) { compute( m ); }
    template<typename D> SelfAdjointEigenSolver& compute( const D& m, int = ComputeEigenvectors ) { vpeig::input = m; ++vpeig::calls; return *this; }
    template<typename D> SelfAdjointEigenSolver& computeDirect( const D& m, int = ComputeEigenvectors ) { return compute( m ); }
    ComputationInfo info() const { return Success; }
    const Eigen::Vector3d& eigenvalues() const { return vpeig::values; }
    const Eigen::Matrix3d& eigenvectors() const { return vpeig::vectors; }
  };
}
#endif
