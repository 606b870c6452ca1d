#include "common.h"
// Evaluation: the point is the (rational) combination of the control points with the basis functions.
namespace {
template<int DIM> using ix_t = std::array<int, DIM>;
// sum over all index tuples below n, direction by direction
template<int DIM, int D, class F> struct sum_over {
  static double go(const ix_t<DIM> &n, ix_t<DIM> ix, F f) {
    return v::sum(n[D], [&](int k) {
      ix_t<DIM> jx = ix;
      jx[D] = k;
      return sum_over<DIM, D + 1, F>::go(n, jx, f);
    });
  }
};
template<int DIM, class F> struct sum_over<DIM, DIM, F> {
  static double go(const ix_t<DIM> &, ix_t<DIM> ix, F f) { return f(ix); }
};
template<int DIM, class F> double sum_all(const ix_t<DIM> &n, F f) { return sum_over<DIM, 0, F>::go(n, ix_t<DIM>{}, f); }
template<class S, int DIM>
void combination(const S &s, bool rational) {
  wellformed<S, DIM>(s);
  std::array<ParamCoord, DIM> u;
  ix_t<DIM> n, first, order;
  for (int d = 0; d < DIM; ++d) {
    auto kv = s.GetKnotVector(d);
    int m = kv->GetNumberOfKnots();
    u[d] = ParamCoord{v::any_real("u", d)};
    order[d] = v::any_int("k", d);
    v::assume(order[d] >= 0);
    v::assume(K(*kv, 0) <= u[d].get() && u[d].get() <= K(*kv, m - 1));
    n[d] = s.GetDegree(d).get() + 1;
    first[d] = kv->GetKnotSpan(u[d]).get() - s.GetDegree(d).get();
    v::assume(first[d] >= 0 && first[d] + n[d] <= s.GetPointsPerDirection()[d]);
  }
  int c = v::any_int("c");
  v::assume(c >= 0 && c < s.GetPointDim());
  std::array<std::vector<double>, DIM> N;
  for (int d = 0; d < DIM; ++d) N[d] = s.EvaluateAllNonZeroBasisFunctions(d, u[d]);
  auto b = [&](const ix_t<DIM> &k) {
    double r = 1;
    for (int d = 0; d < DIM; ++d) r *= N[d][k[d]];
    return r;
  };
  auto at = [&](const ix_t<DIM> &k) {
    ix_t<DIM> ix;
    for (int d = 0; d < DIM; ++d) ix[d] = first[d] + k[d];
    return ix;
  };
  double num = sum_all<DIM>(n, [&](const ix_t<DIM> &k) { return b(k) * s.GetControlPoint(at(k), c) * s.GetWeight(at(k)); });
  double den = rational ? sum_all<DIM>(n, [&](const ix_t<DIM> &k) { return b(k) * s.GetWeight(at(k)); }) : 1;
  v::assume(den > 0);
  int c2 = v::any_int("c2");
  v::assume(c2 >= 0 && c2 < s.GetPointDim());
  auto e = s.Evaluate(u, {c2, c});
  v::prove(e.size() == 2 && e[1] == num / den, rational ? "a NURBS evaluates to the weighted combination of its control points divided by the sum of the weights"
                                     : "a B-spline evaluates to the combination of its control points with the basis functions");
  if (rational) {
    auto h = s.Evaluate(u, {s.GetPointDim()});
    v::prove(h.size() == 1 && h[0] == den, "the coordinate after the last one is the sum of the weights");
  }
}

// derivatives
template<int DIM>
struct setting {
  std::array<ParamCoord, DIM> u;
  ix_t<DIM> n, first;
  int c;
};
template<class S, int DIM>
setting<DIM> somewhere(const S &s) {
  setting<DIM> g;
  wellformed<S, DIM>(s);
  for (int d = 0; d < DIM; ++d) {
    auto kv = s.GetKnotVector(d);
    int m = kv->GetNumberOfKnots();
    g.u[d] = ParamCoord{v::any_real("u", d)};
    v::assume(K(*kv, 0) <= g.u[d].get() && g.u[d].get() <= K(*kv, m - 1));
    g.n[d] = s.GetDegree(d).get() + 1;
    g.first[d] = kv->GetKnotSpan(g.u[d]).get() - s.GetDegree(d).get();
    v::assume(g.first[d] >= 0 && g.first[d] + g.n[d] <= s.GetPointsPerDirection()[d]);
  }
  g.c = v::any_int("c");
  v::assume(g.c >= 0 && g.c < s.GetPointDim());
  return g;
}
// derivative of the sum of basis functions times weights (times coordinate c)
template<class S, int DIM>
double weighted(const S &s, const setting<DIM> &g, const ix_t<DIM> &order, bool with_point) {
  std::array<std::vector<double>, DIM> N;
  for (int d = 0; d < DIM; ++d) N[d] = s.EvaluateAllNonZeroBasisFunctionDerivatives(d, g.u[d], order[d]);
  return sum_all<DIM>(g.n, [&](const ix_t<DIM> &k) {
    ix_t<DIM> ix;
    double r = 1;
    for (int d = 0; d < DIM; ++d) {
      ix[d] = g.first[d] + k[d];
      r *= N[d][k[d]];
    }
    return r * s.GetWeight(ix) * (with_point ? s.GetControlPoint(ix, g.c) : 1);
  });
}
template<class S, int DIM>
void derivative(const S &s) {
  setting<DIM> g = somewhere<S, DIM>(s);
  ix_t<DIM> order;
  for (int d = 0; d < DIM; ++d) {
    order[d] = v::any_int("k", d);
    v::assume(order[d] >= 0);
  }
  int c2 = v::any_int("c2");
  v::assume(c2 >= 0 && c2 < s.GetPointDim());
  auto e = s.EvaluateDerivative(g.u, {c2, g.c}, order);
  v::prove(e.size() == 2 && e[1] == weighted<S, DIM>(s, g, order, true), "the derivative of a B-spline is the combination of its control points with the derivatives of the basis functions");
}
int choose(int n, int k) { return k == 0 || k == n ? 1 : choose(n - 1, k - 1) + choose(n - 1, k); }
template<class S, int DIM>
void rational_derivative(const S &s, ix_t<DIM> order) {
  setting<DIM> g = somewhere<S, DIM>(s);
  double w = weighted<S, DIM>(s, g, ix_t<DIM>{}, false);
  v::assume(w > 0);
  // Leibniz: the derivative of (weight sum times point) is the derivative of the weighted combination
  int total = 1;
  for (int d = 0; d < DIM; ++d) total *= order[d] + 1;
  double all = 0;
  for (int i = 0; i < total; ++i) {
    ix_t<DIM> a, b;
    int rest = i, f = 1;
    for (int d = 0; d < DIM; ++d) {
      a[d] = rest % (order[d] + 1);
      rest = rest / (order[d] + 1);
      b[d] = order[d] - a[d];
      f *= choose(order[d], a[d]);
    }
    all += f * weighted<S, DIM>(s, g, a, false) * s.EvaluateDerivative(g.u, {g.c}, b)[0];
  }
  v::prove(all == weighted<S, DIM>(s, g, order, true), "derivatives of a NURBS follow the product rule for weight sum and point");
}
}
void spec_BSpline_1() { combination<spl::BSpline<1>, 1>(v::any<spl::BSpline<1>>("s"), false); }
void spec_BSpline_2() { combination<spl::BSpline<2>, 2>(v::any<spl::BSpline<2>>("s"), false); }
void spec_BSpline_3() { combination<spl::BSpline<3>, 3>(v::any<spl::BSpline<3>>("s"), false); }
void spec_NURBS_1() { combination<spl::NURBS<1>, 1>(v::any<spl::NURBS<1>>("s"), true); }
void spec_NURBS_2() { combination<spl::NURBS<2>, 2>(v::any<spl::NURBS<2>>("s"), true); }
void spec_NURBS_3() { combination<spl::NURBS<3>, 3>(v::any<spl::NURBS<3>>("s"), true); }

void spec_derivative_1() { derivative<spl::BSpline<1>, 1>(v::any<spl::BSpline<1>>("s")); }
void spec_derivative_2() { derivative<spl::BSpline<2>, 2>(v::any<spl::BSpline<2>>("s")); }
void spec_derivative_3() { derivative<spl::BSpline<3>, 3>(v::any<spl::BSpline<3>>("s")); }
void spec_rational_1_0() { rational_derivative<spl::NURBS<1>, 1>(v::any<spl::NURBS<1>>("s"), {0}); }
void spec_rational_1_1() { rational_derivative<spl::NURBS<1>, 1>(v::any<spl::NURBS<1>>("s"), {1}); }
void spec_rational_1_2() { rational_derivative<spl::NURBS<1>, 1>(v::any<spl::NURBS<1>>("s"), {2}); }
void spec_rational_1_3() { rational_derivative<spl::NURBS<1>, 1>(v::any<spl::NURBS<1>>("s"), {3}); }
void spec_rational_2_10() { rational_derivative<spl::NURBS<2>, 2>(v::any<spl::NURBS<2>>("s"), {1, 0}); }
void spec_rational_2_01() { rational_derivative<spl::NURBS<2>, 2>(v::any<spl::NURBS<2>>("s"), {0, 1}); }
void spec_rational_2_11() { rational_derivative<spl::NURBS<2>, 2>(v::any<spl::NURBS<2>>("s"), {1, 1}); }
void spec_rational_2_02() { rational_derivative<spl::NURBS<2>, 2>(v::any<spl::NURBS<2>>("s"), {0, 2}); }
void spec_rational_2_12() { rational_derivative<spl::NURBS<2>, 2>(v::any<spl::NURBS<2>>("s"), {1, 2}); }
void spec_rational_2_20() { rational_derivative<spl::NURBS<2>, 2>(v::any<spl::NURBS<2>>("s"), {2, 0}); }
void spec_deep_rational_3_101() { rational_derivative<spl::NURBS<3>, 3>(v::any<spl::NURBS<3>>("s"), {1, 0, 1}); }
