#ifndef VERIF_SPEC_COMMON_H_
#define VERIF_SPEC_COMMON_H_
#include "inst.cc"
#include "v.h"
namespace {
double K(const baf::KnotVector &kv, int i) { return kv.GetKnot(i).get(); }
bool far(double a, double b, double t) { return a - b >= t || b - a >= t; }
// Representation invariant of the control net storage, where the representation has this form (no effect otherwise).
template<class P> auto storage(const P &p, int total, int) -> decltype(p.control_points_.size(), void()) {
  v::assume(static_cast<int>(p.control_points_.size()) == p.GetDimension() * total);
}
template<class P> void storage(const P &, int, long) {}
template<class P> auto storage_w(const P &p, int total, int) -> decltype(p.weights_.size(), void()) {
  v::assume(static_cast<int>(p.weights_.size()) == total);
}
template<class P> void storage_w(const P &, int, long) {}
template<class S> auto storage_of(const S &s, int total, int) -> decltype(*s.physical_space_, void()) {
  storage(*s.physical_space_, total, 0);
  storage_w(*s.physical_space_, total, 0);
}
template<class S> void storage_of(const S &, int, long) {}
// the consistency every constructor enforces (C07)
template<class S, int DIM>
void wellformed(const S &s) {
  auto n = s.GetPointsPerDirection();
  int total = 1;
  for (int d = 0; d < DIM; ++d) {
    v::assume(s.GetDegree(d).get() >= 0);
    v::assume(n[d] >= s.GetDegree(d).get() + 1);
    v::assume(s.GetKnotVector(d)->GetNumberOfKnots() == n[d] + s.GetDegree(d).get() + 1);
    total *= n[d];
  }
  v::assume(s.GetPointDim() >= 1);
  storage_of(s, total, 0);
  v::assume(s.GetNumberOfControlPoints() == total);
}
template<int DIM>
std::array<int, DIM> any_index(const char *name, const std::array<int, DIM> &n) {
  std::array<int, DIM> ix;
  for (int d = 0; d < DIM; ++d) {
    ix[d] = v::any_int(name, d);
    v::assume(ix[d] >= 0 && ix[d] < n[d]);
  }
  return ix;
}
// arbitrary knot vectors and degrees as handed to the constructors
template<int DIM> struct input {
  KnotVectors<DIM> kv;
  std::array<Degree, DIM> deg;
};
template<int DIM>
input<DIM> parameters() {
  input<DIM> in;
  for (int d = 0; d < DIM; ++d) {
    in.kv[d] = std::make_shared<baf::KnotVector>(v::any<baf::KnotVector>("k", d));
    in.deg[d] = Degree{v::any_int("p", d)};
    v::assume(in.deg[d].get() >= 0);
  }
  return in;
}
template<int DIM>
bool clamped(const input<DIM> &in) {
  bool ok = true;
  for (int d = 0; d < DIM; ++d) {
    int m = in.kv[d]->GetNumberOfKnots(), p = in.deg[d].get();
    ok = ok && m >= 2 * p + 2;
    ok = ok && v::forall(p, [&](int j) { return K(*in.kv[d], 0) == K(*in.kv[d], j + 1); });
    ok = ok && v::forall(p, [&](int j) { return K(*in.kv[d], m - 1) == K(*in.kv[d], m - 2 - j); });
  }
  return ok;
}
template<int DIM>
int points(const input<DIM> &in) {
  int n = 1;
  for (int d = 0; d < DIM; ++d) n *= static_cast<int>(in.kv[d]->GetNumberOfKnots()) - in.deg[d].get() - 1;
  return n;
}
}
#endif
