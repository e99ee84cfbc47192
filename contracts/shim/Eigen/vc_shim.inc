// Keeps the entry points of the external linear algebra library out of line: they are dependencies with an
// assumed contract (vc/eigen.py); on replay vc_native.cpp forwards them to the library itself.
#ifndef VC_SHIM
#define VC_SHIM
extern "C" {
void vc_eigh2(const double* m, double* values, double* vectors);
void vc_eig2(const double* m, double* re, double* im);
void vc_svd3(const double* m, double* values);
void vc_eigh4(const double* m, double* values, double* vectors);
void vc_svd2(const double* m, double* values, double* u, double* v);
}
#ifndef VC_NATIVE
namespace Eigen {
template<> template<> __attribute__((noinline)) inline
SelfAdjointEigenSolver<Matrix2d>& SelfAdjointEigenSolver<Matrix2d>::compute<Matrix2d>(const EigenBase<Matrix2d>& a, int o)
{
   vc_eigh2(a.derived().data(), m_eivalues.data(), m_eivec.data());
   m_info = Success;
   m_isInitialized = true;
   m_eigenvectorsOk = (o & ComputeEigenvectors) == ComputeEigenvectors;
   return *this;
}
template<> template<> __attribute__((noinline)) inline
SelfAdjointEigenSolver<Matrix4d>& SelfAdjointEigenSolver<Matrix4d>::compute<Matrix4d>(const EigenBase<Matrix4d>& a, int o)
{
   vc_eigh4(a.derived().data(), m_eivalues.data(), m_eivec.data());
   m_info = Success;
   m_isInitialized = true;
   m_eigenvectorsOk = (o & ComputeEigenvectors) == ComputeEigenvectors;
   return *this;
}
template<> template<> __attribute__((noinline)) inline
EigenSolver<Matrix2d>& EigenSolver<Matrix2d>::compute<Matrix2d>(const EigenBase<Matrix2d>& a, bool)
{
   double re[2], im[2];
   vc_eig2(a.derived().data(), re, im);
   m_eivalues(0) = std::complex<double>(re[0], im[0]);
   m_eivalues(1) = std::complex<double>(re[1], im[1]);
   m_info = Success;
   m_isInitialized = true;
   m_eigenvectorsOk = false;
   return *this;
}
template<> __attribute__((noinline)) inline
JacobiSVD<Matrix3d>& JacobiSVD<Matrix3d>::compute(const Matrix3d& m, unsigned int)
{
   vc_svd3(m.data(), m_singularValues.data());
   m_nonzeroSingularValues = 3;
   m_info = Success;
   m_isInitialized = true;
   return *this;
}
template<> __attribute__((noinline)) inline
JacobiSVD<Matrix2d>& JacobiSVD<Matrix2d>::compute(const Matrix2d& m, unsigned int o)
{
   vc_svd2(m.data(), m_singularValues.data(), m_matrixU.data(), m_matrixV.data());
   m_nonzeroSingularValues = 2;
   m_info = Success;
   m_isInitialized = true;
   m_computeFullU = (o & ComputeFullU) != 0;
   m_computeFullV = (o & ComputeFullV) != 0;
   return *this;
}
}
#endif
#endif
