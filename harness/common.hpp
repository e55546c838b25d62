// helpers shared by the harnesses (both modes)
#pragma once
#include "vc.hpp"
typedef vc::md md;
static const md PI = 3.14159265358979323846;
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> Mat;
typedef Eigen::Matrix<double, Eigen::Dynamic, 1> Vec;
typedef Eigen::Matrix<std::complex<double>, Eigen::Dynamic, Eigen::Dynamic> MatC;
typedef Eigen::Matrix<std::complex<double>, Eigen::Dynamic, 1> VecC;
typedef std::complex<double> C;
inline std::string S_(const std::string &a, int i) { return a + std::to_string(i); }
inline std::string S_(const std::string &a, int i, int j) { return a + std::to_string(i) + "_" + std::to_string(j); }
inline double binom(int n, int k) { double r = 1; for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i; return r; }
inline double ip(double x, int n) { double r = 1; for (int i = 0; i < n; ++i) r = r * x; return r; }
inline double Bern(int p, int i, double x) { if (i < 0 || i > p) return 0.; return binom(p, i) * ip(x, i) * ip(1 - x, p - i); }
inline double BernD(int p, int i, double x) { if (p == 0) return 0.; return p * (Bern(p - 1, i - 1, x) - Bern(p - 1, i, x)); }
inline Vec vin(const std::string &n, int k, md lo = -1, md hi = 1) { Vec v(k); for (int i = 0; i < k; ++i) v(i) = vc::in(S_(n, i), lo, hi); return v; }
inline Mat min_(const std::string &n, int r, int c, md lo = -1, md hi = 1) { Mat v(r, c); for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) v(i, j) = vc::in(S_(n, i, j), lo, hi); return v; }
inline Eigen::Vector3d v3(const std::string &n, md lo = -1, md hi = 1) { return Eigen::Vector3d(vc::in(n + "0", lo, hi), vc::in(n + "1", lo, hi), vc::in(n + "2", lo, hi)); }
inline Eigen::Vector2d v2(const std::string &n, md lo = 0, md hi = 1) { return Eigen::Vector2d(vc::in(n + "0", lo, hi), vc::in(n + "1", lo, hi)); }
inline double dot3(const Eigen::Vector3d &a, const Eigen::Vector3d &b) { return a(0) * b(0) + a(1) * b(1) + a(2) * b(2); }
inline Eigen::Vector3d cross3(const Eigen::Vector3d &a, const Eigen::Vector3d &b) { return Eigen::Vector3d(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0)); }
inline double norm3(const Eigen::Vector3d &a) { using std::sqrt; return sqrt(dot3(a, a)); }
