#include "inst.cc"
#include "v.h"
using baf::KnotVector;
namespace {
double K(const KnotVector &kv, int i) { return kv.GetKnot(i).get(); }
// an arbitrary knot vector with at least two knots and a proper range; a parameter in its range which is either the last
// knot or further away from it than the library's comparison tolerance
void usual(const KnotVector &kv, double u) {
  int n = kv.GetNumberOfKnots();
  v::assume(n >= 2);
  double last = K(kv, n - 1);
  v::assume(u >= K(kv, 0) && u <= last);
  v::assume(u == last || last - u >= 1e-9);
  v::assume(last - K(kv, 0) >= 1e-9);
}
}
void spec_GetKnotSpan() {
  auto &kv = v::any<KnotVector>("U");
  double u = v::any_real("u");
  usual(kv, u);
  int n = kv.GetNumberOfKnots();
  double last = K(kv, n - 1);
  int s = kv.GetKnotSpan(ParamCoord(u)).get();
  v::prove(s >= 0 && s <= n - 2, "GetKnotSpan yields an existing span");
  if (u == last) {
    v::prove(K(kv, s) < u && u <= K(kv, s + 1), "GetKnotSpan of the last knot is the last span of positive length");
  } else {
    v::prove(K(kv, s) <= u && u < K(kv, s + 1), "GetKnotSpan encloses the parameter half-open from the right");
  }
}
void spec_InsertKnot() {
  auto &kv = v::any<KnotVector>("U");
  double u = v::any_real("u");
  usual(kv, u);
  KnotVector old(kv);
  int n = old.GetNumberOfKnots();
  int k = v::any_int("k");
  v::assume(k >= 0 && k < n - 1);
  v::assume(K(old, k) <= u && u <= K(old, k + 1));
  kv.InsertKnot(ParamCoord(u));
  v::prove(kv.GetNumberOfKnots() == n + 1, "InsertKnot adds exactly one knot");
  v::each(n + 1, [&](int i) {
    v::prove(K(kv, i) == (i <= k ? K(old, i) : i == k + 1 ? u : K(old, i - 1)), "InsertKnot keeps every knot, adds the new one, in order");
  });
}
void spec_RemoveKnot() {
  auto &kv = v::any<KnotVector>("U");
  double u = v::any_real("u");
  usual(kv, u);
  KnotVector old(kv);
  int n = old.GetNumberOfKnots();
  int k = v::any_int("k");
  v::assume(k >= 0 && k < n);
  v::assume(K(old, k) == u);
  kv.RemoveKnot(ParamCoord(u));
  v::prove(kv.GetNumberOfKnots() == n - 1, "RemoveKnot removes exactly one knot");
  v::each(n - 1, [&](int i) {
    v::prove(K(kv, i) == (i < k ? K(old, i) : K(old, i + 1)), "RemoveKnot removes the given knot and keeps the others in order");
  });
}
void spec_GetMultiplicity() {
  auto &kv = v::any<KnotVector>("U");
  double u = v::any_real("u");
  int n = kv.GetNumberOfKnots();
  v::prove(kv.GetMultiplicity(ParamCoord(u)) == v::sum(n, [&](int i) { return K(kv, i) == u ? 1 : 0; }), "GetMultiplicity counts the knots equal to the parameter");
}
void spec_GetNumberOfDifferentKnots() {
  auto &kv = v::any<KnotVector>("U");
  int n = kv.GetNumberOfKnots();
  v::assume(n >= 1);
  v::prove(kv.GetNumberOfDifferentKnots() == 1 + v::sum(n - 1, [&](int i) { return K(kv, i + 1) > K(kv, i) ? 1 : 0; }), "GetNumberOfDifferentKnots counts the distinct knots");
}
void spec_range() {
  auto &kv = v::any<KnotVector>("U");
  double u = v::any_real("u");
  int n = kv.GetNumberOfKnots();
  v::assume(n >= 1);
  v::prove(kv.IsInKnotVectorRange(ParamCoord(u)) == (u >= K(kv, 0) && u <= K(kv, n - 1)), "IsInKnotVectorRange is the closed interval from first to last knot");
  v::prove(kv.GetLastKnot().get() == K(kv, n - 1), "GetLastKnot is the last knot");
  v::prove(u != K(kv, n - 1) || kv.IsLastKnot(ParamCoord(u)), "IsLastKnot recognises the last knot");
  v::prove(!kv.IsLastKnot(ParamCoord(u)) || (u - K(kv, n - 1) < 1e-9 && K(kv, n - 1) - u < 1e-9), "IsLastKnot only accepts the last knot up to rounding");
}
void spec_average() {
  auto &c = v::any<std::vector<ParamCoord>>("c");
  int p = v::any_int("p");
  int n = v::any_int("n");
  v::assume(p >= 1 && n >= p + 1);
  v::assume(static_cast<int>(c.size()) == n);
  KnotVector kv(c, Degree(p), n);
  v::prove(kv.GetNumberOfKnots() == n + p + 1, "the averaging constructor yields degree + control points + 1 knots");
  v::each(p + 1, [&](int i) {
    v::prove(K(kv, n + i) == c[n - 1].get(), "the averaging constructor ends with degree + 1 equal knots");
    v::prove(K(kv, i) == K(kv, 0), "the averaging constructor starts with degree + 1 equal knots");
  });
  v::each(n - 1 - p, [&](int i) {
    v::prove(K(kv, p + 1 + i) * p == v::sum(p, [&](int j) { return c[i + 1 + j].get(); }), "interior knots are averages of degree many parameters");
  });
}
