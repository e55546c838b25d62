// tensor-product Bernstein functions through the contract of the 1-D routines (P01)
#pragma once
#include "common.hpp"
#include <Bembel/Spline>
struct Tensor {  // index iy * (p + 1) + ix
  std::vector<double> v, dx, dy;
  Tensor(int p, double s, double t, bool seal) {
    typedef Bembel::Basis::ShapeFunctionHandler H;
    std::vector<double> a(p + 1), b(p + 1), da(p + 1), db(p + 1);
    if (seal) {
      H::evalBasis(p, a.data(), s); H::evalBasis(p, b.data(), t); H::evalDerBasis(p, da.data(), s); H::evalDerBasis(p, db.data(), t);
      for (auto q : {&a, &b, &da, &db}) for (auto &z : *q) vc::seal(z);
    } else for (int i = 0; i <= p; ++i) { a[i] = Bern(p, i, s); b[i] = Bern(p, i, t); da[i] = BernD(p, i, s); db[i] = BernD(p, i, t); }
    for (int y = 0; y <= p; ++y) for (int x = 0; x <= p; ++x) { v.push_back(a[x] * b[y]); dx.push_back(da[x] * b[y]); dy.push_back(a[x] * db[y]); }
  }
};
// the wavenumber after any other one: the one set last counts
template <class T> static void set_k(T &op, double kr, double ki) {
  double r = vc::in("kr0", -3, 3), i = vc::in("ki0", -1, 1); int c = vc::native ? vc::choose("kind-of-kr0", 0, 6) : 0;
  switch (c) { case 1: r = kr; i = -ki; break; case 2: r = -kr; i = ki; break; case 3: r = kr * (1. + 1. / 8192); i = ki; break; case 4: r = kr; i = ki + 1. / 4096; break; case 5: r = 0.; i = 0.; break; case 6: r = kr; break; }
  op.set_wavenumber(std::complex<double>(r, i)); op.set_wavenumber(std::complex<double>(kr, ki)); vc::eq("get_wavenumber", op.get_wavenumber(), std::complex<double>(kr, ki));
}
