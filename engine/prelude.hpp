// Everything the verified headers include from outside /repo is included here
// first, with the machine `double`; afterwards, in symbolic mode, `double`
// (and Eigen's double typedefs) mean sym::Real inside /repo's headers.
#pragma once
#include <bits/stdc++.h>
#ifndef VC_NATIVE
#define eigen_assert(X) do { if (!(X)) ::vc_assert_fail("eigen: " #X, __FILE__, __LINE__); } while (0)
#endif
[[noreturn]] inline void vc_assert_fail(const char *what, const char *file, int line);
#ifdef VC_NATIVE
#define eigen_assert(X) do { if (!(X)) ::vc_assert_fail("eigen: " #X, __FILE__, __LINE__); } while (0)
#endif
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <Eigen/StdVector>
#include <Eigen/Eigenvalues>
#include <unsupported/Eigen/KroneckerProduct>
#include <omp.h>
#undef assert
#define assert(X) ((X) ? (void)0 : ::vc_assert_fail("assert: " #X, __FILE__, __LINE__))

typedef double vc_machine_double;
inline double VC_STRTOD(const char *s, char **e) { return ::strtod(s, e); }
#ifndef VC_NATIVE
#include "sym.hpp"
template <class T, class V>
constexpr auto vc_cast(V v) { typedef typename std::decay<T>::type D; if constexpr (std::is_arithmetic<D>::value) return v; else return static_cast<D>(v); }
// c ? A : B with A an integer and B real: A is converted as C++ converts it for doubles
template <class A, class B> using vc_mix = std::integral_constant<bool, std::is_same<typename std::decay<B>::type, sym::Real>::value && (std::is_arithmetic<typename std::decay<A>::type>::value || std::is_enum<typename std::decay<A>::type>::value)>;
template <class A, class B> constexpr typename std::conditional<vc_mix<A, B>::value, sym::Real, A>::type vc_tern(A &&a) { if constexpr (vc_mix<A, B>::value) return sym::Real(a); else return static_cast<A &&>(a); }
namespace sym {
#define SYM_CMIX(op)                                                                      \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type> \
  inline std::complex<Real> operator op(const std::complex<Real> &x, T y) { return x op Real(y); } \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type> \
  inline std::complex<Real> operator op(T x, const std::complex<Real> &y) { return Real(x) op y; }
SYM_CMIX(+) SYM_CMIX(-) SYM_CMIX(*) SYM_CMIX(/)
#undef SYM_CMIX
}  // namespace sym
namespace Eigen {
template <>
struct NumTraits<sym::Real> : GenericNumTraits<sym::Real> {
  typedef sym::Real Real;
  typedef sym::Real NonInteger;
  typedef sym::Real Nested;
  typedef sym::Real Literal;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 1, AddCost = 3, MulCost = 3 };
  static inline Real epsilon() { return sym::Real(std::numeric_limits<double>::epsilon()); }
  static inline Real dummy_precision() { return sym::Real(1e-12); }
  static inline Real highest() { return sym::Real(std::numeric_limits<double>::max()); }
  static inline Real lowest() { return sym::Real(std::numeric_limits<double>::lowest()); }
  static inline int digits10() { return 15; }
};
typedef Matrix<sym::Real, Dynamic, 1> SymVectorX;
typedef Matrix<sym::Real, 1, Dynamic> SymRowVectorX;
typedef Matrix<sym::Real, Dynamic, Dynamic> SymMatrixX;
typedef Matrix<std::complex<sym::Real>, Dynamic, 1> SymVectorXc;
typedef Matrix<std::complex<sym::Real>, Dynamic, Dynamic> SymMatrixXc;
#define SYM_FIXED(N)                                              \
  typedef Matrix<sym::Real, N, 1> SymVector##N;                   \
  typedef Matrix<sym::Real, 1, N> SymRowVector##N;                \
  typedef Matrix<sym::Real, N, N> SymMatrix##N;                   \
  typedef Matrix<std::complex<sym::Real>, N, 1> SymVector##N##c;  \
  typedef Matrix<std::complex<sym::Real>, N, N> SymMatrix##N##c;
SYM_FIXED(2) SYM_FIXED(3) SYM_FIXED(4)
#undef SYM_FIXED
typedef Triplet<sym::Real> SymTriplet;
typedef Array<sym::Real, 2, 1> SymArray2;
typedef Array<sym::Real, 3, 1> SymArray3;
typedef Array<sym::Real, 4, 1> SymArray4;
typedef Array<sym::Real, 2, 2> SymArray22;
typedef Array<sym::Real, 3, 3> SymArray33;
typedef Matrix<sym::Real, 2, Dynamic> SymMatrix2X;
typedef Matrix<sym::Real, 3, Dynamic> SymMatrix3X;
typedef Matrix<sym::Real, 4, Dynamic> SymMatrix4X;
typedef Matrix<sym::Real, Dynamic, 2> SymMatrixX2;
typedef Matrix<sym::Real, Dynamic, 3> SymMatrixX3;
typedef Matrix<sym::Real, Dynamic, 4> SymMatrixX4;
typedef Array<sym::Real, Dynamic, 1> SymArrayX;
typedef Array<sym::Real, Dynamic, Dynamic> SymArrayXX;
}  // namespace Eigen
// square roots of integers and powers are real numbers, not rounded ones
namespace Bembel {
using sym::sqrt;
inline sym::Real sqrt(int x) { return sym::sqrt(sym::Real(x)); }
inline sym::Real sqrt(unsigned x) { return sym::sqrt(sym::Real(x)); }
inline sym::Real sqrt(long x) { return sym::sqrt(sym::Real(x)); }
inline sym::Real sqrt(unsigned long x) { return sym::sqrt(sym::Real(x)); }
inline sym::Real sqrt(double x) { return sym::sqrt(sym::Real(x)); }
}  // namespace Bembel
#undef M_PI
#define M_PI ::sym::Real(3.14159265358979323846)
#define double ::sym::Real
using std::vc_stod; using std::vc_atof; using std::vc_strtod;
#define atof vc_atof
#define stod vc_stod
#define stold vc_stod
#define strtod vc_strtod
#define VectorXd SymVectorX
#define ArrayXd SymArrayX
#define Array2d SymArray2
#define Array3d SymArray3
#define Array4d SymArray4
#define Array22d SymArray22
#define Array33d SymArray33
#define Matrix2Xd SymMatrix2X
#define Matrix3Xd SymMatrix3X
#define Matrix4Xd SymMatrix4X
#define MatrixX2d SymMatrixX2
#define MatrixX3d SymMatrixX3
#define MatrixX4d SymMatrixX4
#define ArrayXXd SymArrayXX
#define RowVectorXd SymRowVectorX
#define MatrixXd SymMatrixX
#define VectorXcd SymVectorXc
#define MatrixXcd SymMatrixXc
#define Vector2d SymVector2
#define Vector3d SymVector3
#define Vector4d SymVector4
#define RowVector2d SymRowVector2
#define RowVector3d SymRowVector3
#define RowVector4d SymRowVector4
#define Matrix2d SymMatrix2
#define Matrix3d SymMatrix3
#define Matrix4d SymMatrix4
#define Vector2cd SymVector2c
#define Vector3cd SymVector3c
#define Vector4cd SymVector4c
#define Matrix2cd SymMatrix2c
#define Matrix3cd SymMatrix3c
#define Matrix4cd SymMatrix4c
#endif
