#include "common.h"
// Knot removal: a refused removal changes nothing, an accepted one removes one knot and one layer of control points.
namespace {
template<class S, int DIM>
void same(const S &s, const S &old, const char *what) {
  auto n = old.GetPointsPerDirection();
  for (int d = 0; d < DIM; ++d) {
    v::prove(s.GetDegree(d).get() == old.GetDegree(d).get(), what);
    v::prove(s.GetPointsPerDirection()[d] == n[d], what);
    v::prove(s.GetKnotVector(d)->GetNumberOfKnots() == old.GetKnotVector(d)->GetNumberOfKnots(), what);
    int j = v::any_int("j", d);
    v::assume(j >= 0 && j < static_cast<int>(old.GetKnotVector(d)->GetNumberOfKnots()));
    v::prove(K(*s.GetKnotVector(d), j) == K(*old.GetKnotVector(d), j), what);
  }
  auto ix = any_index<DIM>("ix", n);
  int c = v::any_int("c");
  v::assume(c >= 0 && c < old.GetPointDim());
  v::prove(s.GetPointDim() == old.GetPointDim(), what);
  v::prove(s.GetNumberOfControlPoints() == old.GetNumberOfControlPoints(), what);
  v::prove(s.GetControlPoint(ix, c) == old.GetControlPoint(ix, c), what);
  v::prove(s.GetWeight(ix) == old.GetWeight(ix), what);
}
template<class S, int DIM, int DIR>
void removal(S &s, int p, int mult) {
  wellformed<S, DIM>(s);
  auto n = s.GetPointsPerDirection();
  v::is(s.GetDegree(DIR).get(), p);
  int dim = s.GetPointDim();
  auto kv = s.GetKnotVector(DIR);
  int m = static_cast<int>(kv->GetNumberOfKnots());
  double u = v::any_real("u");
  int span = v::any_int("span");
  v::assume(span - mult >= p && span < n[DIR]);
  v::assume(K(*kv, span) == u && u < K(*kv, span + 1) && K(*kv, span - mult) < u);
  v::assume(K(*kv, span - mult + 1) == u);
  v::assume(far(K(*kv, m - 1), u, 1e-9));
  v::is(static_cast<int>(kv->GetMultiplicity(ParamCoord{u})), mult);
  v::prove(kv->GetKnotSpan(ParamCoord{u}).get() == span, "the knot span of a parameter is the last knot not above it");
  v::is(kv->GetKnotSpan(ParamCoord{u}).get(), span);
  double tol = v::any_real("tol");
  v::assume(tol >= 0);
  S old(s);
  int removed = static_cast<int>(s.RemoveKnot(ParamCoord{u}, DIR, tol));
  v::prove(removed == 0 || removed == 1, "the number of removals is at most the requested one");
  if (removed == 0) {
    same<S, DIM>(s, old, "a refused removal leaves the spline as it was");
  } else {
    auto after = s.GetKnotVector(DIR), before = old.GetKnotVector(DIR);
    v::prove(static_cast<int>(after->GetNumberOfKnots()) == m - 1, "an accepted removal removes one knot");
    int j = v::any_int("j");
    v::assume(j >= 0 && j < m - 1);
    v::prove(K(*after, j) == (j < span ? K(*before, j) : K(*before, j + 1)), "the other knots stay");
    for (int d = 0; d < DIM; ++d) {
      v::prove(s.GetDegree(d).get() == old.GetDegree(d).get(), "knot removal keeps the degrees");
      v::prove(s.GetPointsPerDirection()[d] == (d == DIR ? n[d] - 1 : n[d]), "an accepted removal removes one layer of control points");
    }
    auto shrunk = n;
    shrunk[DIR] = n[DIR] - 1;
    auto ix = any_index<DIM>("ix", shrunk);
    int c = v::any_int("c");
    v::assume(c >= 0 && c < dim);
    int k = ix[DIR];
    auto above = ix;
    above[DIR] = k + 1;
    if (k < span - p) {
      v::prove(s.GetControlPoint(ix, c) == old.GetControlPoint(ix, c), "control points whose knots lie below the removed one stay");
      v::prove(s.GetWeight(ix) == old.GetWeight(ix), "weights whose knots lie below the removed one stay");
    } else if (k >= span - mult) {
      v::prove(s.GetControlPoint(ix, c) == old.GetControlPoint(above, c), "control points whose knots lie above the removed one move down");
      v::prove(s.GetWeight(ix) == old.GetWeight(above), "weights whose knots lie above the removed one move down");
    }
  }
}
}
void spec_p1_1() { removal<spl::BSpline<1>, 1, 0>(v::any<spl::BSpline<1>>("s"), 1, 1); }
void spec_p2_1() { removal<spl::BSpline<1>, 1, 0>(v::any<spl::BSpline<1>>("s"), 2, 1); }
void spec_p3_1() { removal<spl::BSpline<1>, 1, 0>(v::any<spl::BSpline<1>>("s"), 3, 1); }
void spec_deep_p1_2_0() { removal<spl::BSpline<2>, 2, 0>(v::any<spl::BSpline<2>>("s"), 1, 1); }
void spec_p2_2_1() { removal<spl::BSpline<2>, 2, 1>(v::any<spl::BSpline<2>>("s"), 2, 1); }
void spec_rational_p1_1() { removal<spl::NURBS<1>, 1, 0>(v::any<spl::NURBS<1>>("s"), 1, 1); }
void spec_deep_rational_p2_1() { removal<spl::NURBS<1>, 1, 0>(v::any<spl::NURBS<1>>("s"), 2, 1); }
void spec_deep_any_1() { removal<spl::BSpline<1>, 1, 0>(v::any<spl::BSpline<1>>("s"), v::any_int("p"), v::any_int("mult")); }
