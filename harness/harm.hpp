// real spherical harmonics from their definition
#pragma once
#include "common.hpp"
static const md PI_ = 3.14159265358979323846;
static double fact(int a, int b) { double r = 1.; for (int k = a + 1; k <= b; ++k) r = r * k; return r; }  // b! / a!
// Y_n^m = norm * P_n^(m)(z) * (x + iy)^m, P^(m): m-th derivative of the Legendre polynomial, by its explicit coefficients
static std::vector<double> legendre(int n, int m) { std::vector<double> c(n + 1, double(0.)); for (int k = 0; 2 * k <= n; ++k) { double b = fact(0, 2 * n - 2 * k) / (fact(0, k) * fact(0, n - k) * fact(0, n - 2 * k) * double(std::ldexp(1., n))); c[n - 2 * k] = k % 2 ? -b : b; }
  for (int j = 0; j < m; ++j) { for (int i = 0; i + 1 < (int)c.size(); ++i) c[i] = c[i + 1] * double(i + 1); c.back() = double(0.); } return c; }
static double norming(int n, int m) { using std::sqrt; return sqrt(double(2 * n + 1) / (fact(n - m, n + m) * 4 * PI_)); }
static double poly(const std::vector<double> &c, double z) { double r = 0.; for (size_t i = 0; i < c.size(); ++i) r += c[i] * ip(z, i); return r; }
static C power(double x, double y, int m) { C r(1., 0.); for (int i = 0; i < m; ++i) r = C(r.real() * x - r.imag() * y, r.real() * y + r.imag() * x); return r; }
struct Y { C v, d[3]; Y(int n, int m, const Eigen::Vector3d &x) {  // value and derivatives of the polynomial
  double a = norming(n, m), p = poly(legendre(n, m), x(2)), q = poly(legendre(n, m + 1), x(2)); C w = power(x(0), x(1), m), u = m ? power(x(0), x(1), m - 1) : C(0., 0.);
  v = a * p * w; d[0] = a * p * double(m) * u; d[1] = C(-d[0].imag(), d[0].real()); d[2] = a * q * w; } };
static double weight(int m) { return double(m ? 2. : 1.); }
