#include "common.h"
// Knot insertion and subdivision: the control net changes by Boehm's affine combinations.
namespace {
template<int DIM> using ix_t = std::array<int, DIM>;
// homogeneous coordinate c (the weight itself for c == point dimension)
template<class S, int DIM>
double hom(const S &s, const ix_t<DIM> &ix, int c, bool rational) {
  double w = s.GetWeight(ix);
  return c == s.GetPointDim() ? w : rational ? w * s.GetControlPoint(ix, c) : s.GetControlPoint(ix, c);
}
template<class S, int DIM, int DIR>
void adjust(S &s, bool rational) {
  wellformed<S, DIM>(s);
  auto n = s.GetPointsPerDirection();
  int first = v::any_int("first"), last = v::any_int("last");
  v::assume(first >= 1 && last >= first - 1 && last < n[DIR]);
  auto &scaling = v::any<std::vector<double>>("a");
  v::assume(static_cast<int>(scaling.size()) == last - first + 1);
  int dim = s.GetPointDim();
  int c = v::any_int("c");
  v::assume(c >= 0 && c < dim);
  auto m = n;
  m[DIR] = n[DIR] + 1;
  auto ix = any_index<DIM>("ix", m);
  auto below = ix;
  below[DIR] = ix[DIR] - 1;
  int k = ix[DIR];
  v::assume(k > last || k < n[DIR]);  // follows, spelled out
  v::assume(!rational || k < first || k > last || scaling[k - first] * s.GetWeight(ix) + (1 - scaling[k - first]) * s.GetWeight(below) > 0);
  S old(s);
  s.AdjustControlPoints(scaling, first, last, DIR);
  for (int d = 0; d < DIM; ++d) v::prove(s.GetPointsPerDirection()[d] == m[d], "the net grows by one layer in the direction of the knot and in no other");
  v::prove(s.GetPointDim() == dim, "the point dimension does not change");
  if (k < first) {
    v::prove(s.GetWeight(ix) == old.GetWeight(ix), "weights before the changed ones stay");
    v::prove(s.GetControlPoint(ix, c) == old.GetControlPoint(ix, c), "control points before the changed ones stay");
  } else if (k > last) {
    v::prove(s.GetWeight(ix) == old.GetWeight(below), "weights after the changed ones move up");
    v::prove(s.GetControlPoint(ix, c) == old.GetControlPoint(below, c), "control points after the changed ones move up");
  } else {
    double a = scaling[k - first], w = 1;
    if (rational) w = a * old.GetWeight(ix) + (1 - a) * old.GetWeight(below);
    v::prove(s.GetWeight(ix) == w, "new weights are the affine combinations of the old ones");
    v::prove(s.GetControlPoint(ix, c) * w == a * old.GetWeight(ix) * old.GetControlPoint(ix, c) + (1 - a) * old.GetWeight(below) * old.GetControlPoint(below, c),
             "new control points are the (homogeneous) affine combinations of the old ones");
  }
}
}
void spec_adjust_1() { adjust<spl::BSpline<1>, 1, 0>(v::any<spl::BSpline<1>>("s"), false); }
void spec_adjust_2_0() { adjust<spl::BSpline<2>, 2, 0>(v::any<spl::BSpline<2>>("s"), false); }
void spec_adjust_2_1() { adjust<spl::BSpline<2>, 2, 1>(v::any<spl::BSpline<2>>("s"), false); }
void spec_rational_1() { adjust<spl::NURBS<1>, 1, 0>(v::any<spl::NURBS<1>>("s"), true); }

// Knot insertion as a whole: knots, degree and every control point, from Boehm's formula
//   Q_k = a_k P_k + (1 - a_k) P_{k-1},  a_k = 1 where U[k+p] <= u, 0 where U[k] >= u, (u - U[k]) / (U[k+p] - U[k]) between
namespace {
template<class S, int DIM, int DIR>
void insert(S &s, bool rational) {
  wellformed<S, DIM>(s);
  auto n = s.GetPointsPerDirection();
  int p = s.GetDegree(DIR).get(), dim = s.GetPointDim();
  auto kv = s.GetKnotVector(DIR);
  int m = static_cast<int>(kv->GetNumberOfKnots());
  v::assume(p >= 1);
  double u = v::any_real("u");
  // the knots below, at and above u
  int span = v::any_int("span"), mult = v::any_int("mult");
  v::assume(span >= p && span < n[DIR] && mult >= 0 && mult < p);
  v::assume(K(*kv, span) <= u && u < K(*kv, span + 1) && K(*kv, span - mult) < u);
  v::assume(mult == 0 || K(*kv, span - mult + 1) == u);
  v::assume(far(K(*kv, m - 1), u, 1e-9));
  v::is(static_cast<int>(kv->GetMultiplicity(ParamCoord{u})), mult);
  int c = v::any_int("c");
  v::assume(c >= 0 && c < dim);
  auto grown = n;
  grown[DIR] = n[DIR] + 1;
  auto ix = any_index<DIM>("ix", grown);
  auto below = ix;
  below[DIR] = ix[DIR] - 1;
  int k = ix[DIR];
  v::prove(kv->GetKnotSpan(ParamCoord{u}).get() == span, "the knot span of a parameter is the last knot not above it");
  v::is(kv->GetKnotSpan(ParamCoord{u}).get(), span);
  S old(s);
  s.InsertKnot(ParamCoord{u}, DIR);
  for (int d = 0; d < DIM; ++d) {
    v::prove(s.GetDegree(d).get() == old.GetDegree(d).get(), "knot insertion keeps the degrees");
    v::prove(s.GetPointsPerDirection()[d] == grown[d], "the net grows by one layer in the direction of the knot and in no other");
  }
  v::prove(s.GetPointDim() == dim, "the point dimension does not change");
  int j = v::any_int("j");
  v::assume(j >= 0 && j <= m);
  auto after = s.GetKnotVector(DIR), before = old.GetKnotVector(DIR);
  v::prove(static_cast<int>(after->GetNumberOfKnots()) == m + 1, "the knot vector grows by one knot");
  v::prove(K(*after, j) == (j <= span ? K(*before, j) : j == span + 1 ? u : K(*before, j - 1)), "the new knot is sorted in, the others stay");
  if (k <= span - p) {
    v::prove(k < n[DIR], "(step) the index is one of the old net");
    v::prove(s.GetControlPoint(ix, c) == old.GetControlPoint(ix, c), "control points whose knots lie below the new one stay");
    v::prove(s.GetWeight(ix) == old.GetWeight(ix), "weights whose knots lie below the new one stay");
  } else if (k > span - mult) {
    v::prove(s.GetControlPoint(ix, c) == old.GetControlPoint(below, c), "control points whose knots lie above the new one move up");
    v::prove(s.GetWeight(ix) == old.GetWeight(below), "weights whose knots lie above the new one move up");
  } else {
    v::prove(k < n[DIR], "(step) the index is one of the old net");
    double a = (u - K(*before, k)) / (K(*before, k + p) - K(*before, k)), w = 1;
    if (rational) w = a * old.GetWeight(ix) + (1 - a) * old.GetWeight(below);
    v::assume(w > 0);
    v::prove(s.GetWeight(ix) == w, "weights in between are Boehm's combinations");
    v::prove(s.GetControlPoint(ix, c) * w == a * old.GetWeight(ix) * old.GetControlPoint(ix, c) + (1 - a) * old.GetWeight(below) * old.GetControlPoint(below, c),
             "control points in between are Boehm's combinations");
  }
}
}
void spec_insert_1() { insert<spl::BSpline<1>, 1, 0>(v::any<spl::BSpline<1>>("s"), false); }
void spec_insert_2_0() { insert<spl::BSpline<2>, 2, 0>(v::any<spl::BSpline<2>>("s"), false); }
void spec_insert_2_1() { insert<spl::BSpline<2>, 2, 1>(v::any<spl::BSpline<2>>("s"), false); }
void spec_insert_rational_1() { insert<spl::NURBS<1>, 1, 0>(v::any<spl::NURBS<1>>("s"), true); }
void spec_deep_insert_rational_2() { insert<spl::NURBS<2>, 2, 1>(v::any<spl::NURBS<2>>("s"), true); }
void spec_deep_insert_3() { insert<spl::BSpline<3>, 3, 1>(v::any<spl::BSpline<3>>("s"), false); }

// Inserting a knot twice at once is inserting it twice.
namespace {
template<class S, int DIM, int DIR>
void twice(S &s, int p, int mult) {
  wellformed<S, DIM>(s);
  auto n = s.GetPointsPerDirection();
  v::is(s.GetDegree(DIR).get(), p);
  auto kv = s.GetKnotVector(DIR);
  int m = static_cast<int>(kv->GetNumberOfKnots());
  double u = v::any_real("u");
  int span = v::any_int("span");
  v::assume(span >= p && span < n[DIR] && mult >= 0 && mult + 1 < p);
  v::assume(K(*kv, span) <= u && u < K(*kv, span + 1) && K(*kv, span - mult) < u);
  v::assume(mult == 0 || K(*kv, span - mult + 1) == u);
  v::assume(far(K(*kv, m - 1), u, 1e-9));
  v::is(static_cast<int>(kv->GetMultiplicity(ParamCoord{u})), mult);
  v::prove(kv->GetKnotSpan(ParamCoord{u}).get() == span, "the knot span of a parameter is the last knot not above it");
  v::is(kv->GetKnotSpan(ParamCoord{u}).get(), span);
  auto grown = n;
  grown[DIR] = n[DIR] + 2;
  auto ix = any_index<DIM>("ix", grown);
  int c = v::any_int("c"), j = v::any_int("j");
  v::assume(c >= 0 && c < s.GetPointDim() && j >= 0 && j < m + 2);
  S once(s);
  s.InsertKnot(ParamCoord{u}, DIR, 2);
  once.InsertKnot(ParamCoord{u}, DIR);
  once.InsertKnot(ParamCoord{u}, DIR);
  for (int d = 0; d < DIM; ++d) v::prove(s.GetPointsPerDirection()[d] == once.GetPointsPerDirection()[d], "as many control points as with two insertions");
  v::prove(K(*s.GetKnotVector(DIR), j) == K(*once.GetKnotVector(DIR), j), "the knots of two insertions");
  v::prove(s.GetWeight(ix) == once.GetWeight(ix), "the weights of two insertions");
  v::prove(s.GetControlPoint(ix, c) == once.GetControlPoint(ix, c), "the control points of two insertions");
}
}
void spec_twice_p2() { twice<spl::BSpline<1>, 1, 0>(v::any<spl::BSpline<1>>("s"), 2, 0); }
void spec_deep_twice_p3() { twice<spl::BSpline<1>, 1, 0>(v::any<spl::BSpline<1>>("s"), 3, 0); }
void spec_deep_twice() { twice<spl::BSpline<1>, 1, 0>(v::any<spl::BSpline<1>>("s"), v::any_int("p"), v::any_int("mult")); }
