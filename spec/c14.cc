#include "common.h"
// Degree elevation and reduction of single (Bezier) segments; several segments are split by knot insertion (C13).
namespace {
// the storage holds exactly these points, where the representation has this form
template<class S> auto stored(const S &s, int total, int) -> decltype(s.physical_space_->control_points_.size(), void()) {
  v::is(static_cast<int>(s.physical_space_->control_points_.size()), s.GetPointDim() * total);
}
template<class S> void stored(const S &, int, long) {}
template<class S, int DIM, int DIR>
void segment(S &s, int p, int other) {
  wellformed<S, DIM>(s);
  v::is(s.GetDegree(DIR).get(), p);
  v::is(s.GetPointsPerDirection()[DIR], p + 1);
  int total = 1;
  for (int d = 0; d < DIM; ++d) {
    if (d != DIR) v::is(s.GetPointsPerDirection()[d], other);
    total *= s.GetPointsPerDirection()[d];
  }
  stored(s, total, 0);
  v::is(s.GetNumberOfControlPoints(), total);
  auto kv = s.GetKnotVector(DIR);
  v::is(static_cast<int>(kv->GetNumberOfKnots()), 2 * p + 2);
  v::assume(p >= 1 && K(*kv, 0) == K(*kv, p) && K(*kv, p + 1) == K(*kv, 2 * p + 1) && K(*kv, p) + 1e-9 <= K(*kv, p + 1));
  v::is(static_cast<int>(kv->GetNumberOfDifferentKnots()), 2);
  v::prove(kv->GetKnotSpan(ParamCoord{K(*kv, 0)}).get() == p, "(step) the span of the first knot");
  v::is(kv->GetKnotSpan(ParamCoord{K(*kv, 0)}).get(), p);
}
template<int DIM>
int size(const std::array<int, DIM> &n) {
  int r = 1;
  for (int d = 0; d < DIM; ++d) r *= n[d];
  return r;
}
template<int DIM>
std::array<int, DIM> place(int i, const std::array<int, DIM> &n) {
  std::array<int, DIM> ix;
  for (int d = 0; d < DIM; ++d) {
    ix[d] = i % n[d];
    i = i / n[d];
  }
  return ix;
}
template<class S, int DIM, int DIR>
void elevate(S &s, int p, bool rational, int other = 1) {
  segment<S, DIM, DIR>(s, p, other);
  auto n = s.GetPointsPerDirection();
  int dim = s.GetPointDim();
  S old(s);
  s.ElevateDegreeForDimension(DIR);
  auto grown = n;
  ++grown[DIR];
  for (int d = 0; d < DIM; ++d) {
    v::prove(s.GetDegree(d).get() == old.GetDegree(d).get() + (d == DIR ? 1 : 0), "the degree rises by one in the given direction only");
    v::prove(s.GetPointsPerDirection()[d] == grown[d], "one layer of control points is added in the given direction only");
  }
  auto kv = s.GetKnotVector(DIR), ko = old.GetKnotVector(DIR);
  int j = v::any_int("j");
  v::assume(j >= 0 && j < 2 * p + 4);
  v::prove(static_cast<int>(kv->GetNumberOfKnots()) == 2 * p + 4, "each different knot occurs once more");
  v::prove(K(*kv, j) == (j < p + 2 ? K(*ko, 0) : K(*ko, p + 1)), "the knots keep their values");
  int c = v::any_int("c");
  v::assume(c >= 0 && c < dim);
  for (int i = 0; i < size<DIM>(grown); ++i) {
    auto ix = place<DIM>(i, grown);
    auto below = ix;
    below[DIR] = ix[DIR] - 1;
    int k = ix[DIR];
    if (k == 0) {
      v::assume(old.GetWeight(ix) > 0);
      v::prove(s.GetWeight(ix) == old.GetWeight(ix), "the first weight stays");
      v::prove(s.GetControlPoint(ix, c) == old.GetControlPoint(ix, c), "the first control point stays");
    } else if (k == p + 1) {
      v::assume(old.GetWeight(below) > 0);
      v::prove(s.GetWeight(ix) == old.GetWeight(below), "the last weight stays");
      v::prove(s.GetControlPoint(ix, c) == old.GetControlPoint(below, c), "the last control point stays");
    } else {
      double a = k / (p + 1.0), w = 1;
      if (rational) w = a * old.GetWeight(below) + (1 - a) * old.GetWeight(ix);
      v::assume(w > 0);
      v::prove(s.GetWeight(ix) == w, "weights in between are the elevated ones");
      v::prove(s.GetControlPoint(ix, c) * w == a * old.GetWeight(below) * old.GetControlPoint(below, c) + (1 - a) * old.GetWeight(ix) * old.GetControlPoint(ix, c),
               "control points in between are the elevated ones");
    }
  }
}
// what elevation did is undone by reduction; a refused reduction changes nothing
template<class S, int DIM, int DIR>
void same(const S &s, const S &old, const char *what) {
  auto n = old.GetPointsPerDirection();
  for (int d = 0; d < DIM; ++d) {
    v::prove(s.GetDegree(d).get() == old.GetDegree(d).get() && s.GetPointsPerDirection()[d] == n[d], what);
    v::prove(s.GetKnotVector(d)->GetNumberOfKnots() == old.GetKnotVector(d)->GetNumberOfKnots(), what);
    int j = v::any_int("j", d);
    v::assume(j >= 0 && j < static_cast<int>(old.GetKnotVector(d)->GetNumberOfKnots()));
    v::prove(K(*s.GetKnotVector(d), j) == K(*old.GetKnotVector(d), j), what);
  }
  int c = v::any_int("c");
  v::assume(c >= 0 && c < old.GetPointDim());
  for (int i = 0; i < size<DIM>(n); ++i) {
    auto ix = place<DIM>(i, n);
    v::assume(old.GetWeight(ix) > 0);
    v::prove(s.GetWeight(ix) == old.GetWeight(ix), what);
    v::prove(s.GetControlPoint(ix, c) == old.GetControlPoint(ix, c), what);
  }
}
template<class S, int DIM, int DIR>
void undone(S &s, int p, int other = 1) {
  segment<S, DIM, DIR>(s, p, other);
  S old(s);
  s.ElevateDegreeForDimension(DIR);
  double tol = v::any_real("tol");
  v::assume(tol > 0);
  bool done = s.ReduceDegreeForDimension(DIR, tol);
  v::prove(done, "an elevated segment can be reduced");
  v::assume(done);
  same<S, DIM, DIR>(s, old, "reduction undoes elevation");
}
template<class S, int DIM, int DIR>
void reduce(S &s, int p, int other = 1) {
  segment<S, DIM, DIR>(s, p, other);
  S old(s);
  double tol = v::any_real("tol");
  v::assume(tol > 0);
  bool done = s.ReduceDegreeForDimension(DIR, tol);
  if (!done) {
    same<S, DIM, DIR>(s, old, "a refused reduction leaves the spline as it was");
  } else {
    auto n = old.GetPointsPerDirection();
    auto small = n;
    --small[DIR];
    for (int d = 0; d < DIM; ++d) {
      v::prove(s.GetDegree(d).get() == old.GetDegree(d).get() - (d == DIR ? 1 : 0), "the degree falls by one in the given direction only");
      v::prove(s.GetPointsPerDirection()[d] == small[d], "one layer of control points is removed in the given direction only");
    }
    auto kv = s.GetKnotVector(DIR), ko = old.GetKnotVector(DIR);
    v::prove(static_cast<int>(kv->GetNumberOfKnots()) == 2 * p, "each different knot occurs once less");
    int j = v::any_int("j");
    v::assume(j >= 0 && j < 2 * p);
    v::prove(K(*kv, j) == (j < p ? K(*ko, 0) : K(*ko, p + 1)), "the knots keep their values");
    int c = v::any_int("c");
    v::assume(c >= 0 && c < old.GetPointDim());
    for (int i = 0; i < size<DIM>(small); ++i) {
      auto ix = place<DIM>(i, small);
      auto last = ix;
      if (ix[DIR] == 0) {
        v::assume(old.GetWeight(ix) > 0);
        v::prove(s.GetWeight(ix) == old.GetWeight(ix), "the first weight stays");
        v::prove(s.GetControlPoint(ix, c) == old.GetControlPoint(ix, c), "the first control point stays");
      } else if (ix[DIR] == p - 1) {
        last[DIR] = p;
        v::assume(old.GetWeight(last) > 0);
        v::prove(s.GetWeight(ix) == old.GetWeight(last), "the last weight stays");
        v::prove(s.GetControlPoint(ix, c) == old.GetControlPoint(last, c), "the last control point stays");
      }
    }
  }
}
}
using B1 = spl::BSpline<1>;
using B2 = spl::BSpline<2>;
using N1 = spl::NURBS<1>;
using N2 = spl::NURBS<2>;
void spec_elevate_p1() { elevate<B1, 1, 0>(v::any<B1>("s"), 1, false); }
void spec_elevate_p2() { elevate<B1, 1, 0>(v::any<B1>("s"), 2, false); }
void spec_elevate_p3() { elevate<B1, 1, 0>(v::any<B1>("s"), 3, false); }
void spec_elevate_rational_p1() { elevate<N1, 1, 0>(v::any<N1>("s"), 1, true); }
void spec_elevate_rational_p2() { elevate<N1, 1, 0>(v::any<N1>("s"), 2, true); }
void spec_deep_elevate_2_0() { elevate<B2, 2, 0>(v::any<B2>("s"), 2, false, 2); }
void spec_deep_elevate_2_1() { elevate<B2, 2, 1>(v::any<B2>("s"), 1, false, 3); }
void spec_deep_elevate_rational_2() { elevate<N2, 2, 1>(v::any<N2>("s"), 1, true, 2); }
void spec_undone_p1() { undone<B1, 1, 0>(v::any<B1>("s"), 1); }
void spec_undone_p2() { undone<B1, 1, 0>(v::any<B1>("s"), 2); }
void spec_deep_undone_p3() { undone<B1, 1, 0>(v::any<B1>("s"), 3); }
void spec_undone_rational_p1() { undone<N1, 1, 0>(v::any<N1>("s"), 1); }
void spec_deep_undone_rational_p2() { undone<N1, 1, 0>(v::any<N1>("s"), 2); }
void spec_deep_undone_2() { undone<B2, 2, 1>(v::any<B2>("s"), 1, 2); }
void spec_reduce_p2() { reduce<B1, 1, 0>(v::any<B1>("s"), 2); }
void spec_reduce_p3() { reduce<B1, 1, 0>(v::any<B1>("s"), 3); }
void spec_reduce_rational_p2() { reduce<N1, 1, 0>(v::any<N1>("s"), 2); }
void spec_deep_reduce_2() { reduce<B2, 2, 1>(v::any<B2>("s"), 2, 2); }
