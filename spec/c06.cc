#include "common.h"
// AreEqual compares every component.
template<class S, int DIM>
bool parameters_differ(const S &a, const S &b, double t) {
  // some degree, number of knots or knot differs
  int d = v::any_int("d");
  v::assume(d >= 0 && d < DIM);
  bool r = false;
  for (int e = 0; e < DIM; ++e) {
    if (e == d) {
      auto ka = a.GetKnotVector(e), kb = b.GetKnotVector(e);
      int i = v::any_int("i");
      if (a.GetDegree(e).get() != b.GetDegree(e).get()) r = true;
      else if (ka->GetNumberOfKnots() != kb->GetNumberOfKnots()) r = true;
      else if (i >= 0 && i < ka->GetNumberOfKnots() && far(K(*ka, i), K(*kb, i), t)) r = true;
    }
  }
  return r;
}
template<class S, int DIM>
bool net_differs(const S &a, const S &b, double t) {
  auto na = a.GetPointsPerDirection(), nb = b.GetPointsPerDirection();
  for (int e = 0; e < DIM; ++e) if (na[e] != nb[e]) return true;
  if (a.GetPointDim() != b.GetPointDim()) return true;
  std::array<int, DIM> ix = any_index<DIM>("ix", na);
  int c = v::any_int("c");
  v::assume(c >= 0 && c < a.GetPointDim());
  if (far(a.GetControlPoint(ix, c), b.GetControlPoint(ix, c), t)) return true;
  if (far(a.GetWeight(ix), b.GetWeight(ix), t)) return true;
  return false;
}
template<class S, int DIM>
void splines() {
  auto &a = v::any<S>("a");
  auto &b = v::any<S>("b");
  wellformed<S, DIM>(a);
  wellformed<S, DIM>(b);
  double t = v::any_real("t");
  v::assume(t > 0 && t < 0.25);
  bool e = a.AreEqual(b, t);
  v::prove(!e || !parameters_differ<S, DIM>(a, b, t), "splines that differ in a degree or a knot are not equal");
  v::prove(!e || !net_differs<S, DIM>(a, b, t), "splines that differ in a control point, a weight or the size of the net are not equal");
  S copy(a);
  v::prove(a.AreEqual(copy, t), "a spline equals its copy");
}
void spec_BSpline_1() { splines<spl::BSpline<1>, 1>(); }
void spec_BSpline_2() { splines<spl::BSpline<2>, 2>(); }
void spec_BSpline_3() { splines<spl::BSpline<3>, 3>(); }
void spec_BSpline_4() { splines<spl::BSpline<4>, 4>(); }
void spec_NURBS_1() { splines<spl::NURBS<1>, 1>(); }
void spec_NURBS_2() { splines<spl::NURBS<2>, 2>(); }
void spec_NURBS_3() { splines<spl::NURBS<3>, 3>(); }
void spec_NURBS_4() { splines<spl::NURBS<4>, 4>(); }
