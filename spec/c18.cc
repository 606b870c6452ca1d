#include "common.h"
#include "element_generator.h"
#include "weighted_physical_space.h"
// No operation uses a subscript outside its container.
namespace {
template<class S, int DIM>
void usual(const S &s) {
  wellformed<S, DIM>(s);
  for (int d = 0; d < DIM; ++d) {
    v::is(static_cast<int>(s.GetKnotVector(d)->GetNumberOfKnots()), s.GetPointsPerDirection()[d] + s.GetDegree(d).get() + 1);
  }
}
template<class S, int DIM>
std::array<ParamCoord, DIM> parameter(const S &s) {
  std::array<ParamCoord, DIM> u;
  for (int d = 0; d < DIM; ++d) {
    auto kv = s.GetKnotVector(d);
    int m = kv->GetNumberOfKnots();
    u[d] = ParamCoord{v::any_real("u", d)};
    v::assume(K(*kv, 0) <= u[d].get() && u[d].get() <= K(*kv, m - 1));
    int first = kv->GetKnotSpan(u[d]).get() - s.GetDegree(d).get();   // C12
    v::assume(first >= 0 && first + s.GetDegree(d).get() + 1 <= s.GetPointsPerDirection()[d]);
  }
  return u;
}
template<class S, int DIM>
void reading(S &s) {
  usual<S, DIM>(s);
  auto ix = any_index<DIM>("ix", s.GetPointsPerDirection());
  int c = v::any_int("c");
  v::assume(c >= 0 && c < s.GetPointDim());
  v::prove(v::inside([&] { s.GetControlPoint(ix, c); s.GetControlPoint(ix); s.GetWeight(ix); }), "reading a control point stays inside the net");
  v::prove(v::inside([&] { S t(s); }), "copying stays inside the spline");
}
template<class S, int DIM>
void evaluating(S &s) {
  usual<S, DIM>(s);
  S t(s);
  auto u = parameter<S, DIM>(s);
  int c = v::any_int("c");
  v::assume(c >= 0 && c < s.GetPointDim());
  v::prove(v::inside([&] { t.Evaluate(u, {c}); }), "evaluation stays inside the spline");
}
template<class S, int DIM>
void deriving(S &s) {
  usual<S, DIM>(s);
  S t(s);
  auto u = parameter<S, DIM>(s);
  int c = v::any_int("c");
  v::assume(c >= 0 && c < s.GetPointDim());
  std::array<int, DIM> one{};
  one[DIM - 1] = 1;
  v::prove(v::inside([&] { t.EvaluateDerivative(u, {c}, one); }), "evaluation of a derivative stays inside the spline");
}
template<int DIM>
void writing() {
  auto &s = v::any<spl::WeightedPhysicalSpace<DIM>>("s");
  auto n = s.GetPointsPerDirection();
  int total = 1;
  for (int d = 0; d < DIM; ++d) {
    v::assume(n[d] >= 1);
    total *= n[d];
  }
  v::assume(s.GetDimension() >= 1);
  storage(s, total, 0);
  storage_w(s, total, 0);
  v::assume(s.GetNumberOfControlPoints() == total);
  auto ix = any_index<DIM>("ix", n);
  auto &cp = v::any<baf::ControlPoint>("cp");
  v::assume(cp.GetDimension() == s.GetDimension());
  v::prove(v::inside([&] { s.SetControlPoint(ix, cp); }), "setting a control point stays inside the net");
  v::prove(v::inside([&] { s.SetWeight(ix, 2.0); }), "setting a weight stays inside the net");
  v::prove(v::inside([&] { s.GetHomogenousControlPoint(ix); }), "reading a homogeneous control point stays inside the net");
}
template<int DIM>
void constructing() {
  auto in = parameters<DIM>();
  v::assume(clamped<DIM>(in));
  auto &cp = v::any<std::vector<baf::ControlPoint>>("cp");
  int dim = v::any_int("dim");
  v::assume(dim >= 1 && static_cast<int>(cp.size()) == points<DIM>(in));
  v::assume(v::forall(static_cast<int>(cp.size()), [&](int i) { return cp[i].GetDimension() == dim; }));
  v::prove(v::inside([&] { spl::BSpline<DIM> s(in.kv, in.deg, cp); }), "construction stays inside the arguments");
}
template<int DIM>
void refusing() {
  auto in = parameters<DIM>();
  auto &cp = v::any<std::vector<baf::ControlPoint>>("cp");
  auto &w = v::any<std::vector<double>>("w");
  v::prove(v::inside([&] { spl::ParameterSpace<DIM> s(in.kv, in.deg); }), "refusing a parameter space stays inside the arguments");
  v::prove(v::inside([&] { spl::BSpline<DIM> s(in.kv, in.deg, cp); }), "refusing a B-spline stays inside the arguments");
  v::prove(v::inside([&] { spl::NURBS<DIM> s(in.kv, in.deg, cp, w); }), "refusing a NURBS stays inside the arguments");
}
template<int DIM>
void elements(spl::BSpline<DIM> &s) {
  usual<spl::BSpline<DIM>, DIM>(s);
  auto sp = std::make_shared<spl::BSpline<DIM>>(s);
  v::prove(v::inside([&] { util::ElementGenerator<DIM> g(sp); }), "listing the elements stays inside the knot vectors");
}
}
void spec_reading_1() { reading<spl::BSpline<1>, 1>(v::any<spl::BSpline<1>>("s")); }
void spec_reading_2() { reading<spl::BSpline<2>, 2>(v::any<spl::BSpline<2>>("s")); }
void spec_reading_3() { reading<spl::BSpline<3>, 3>(v::any<spl::BSpline<3>>("s")); }
void spec_reading_rational_1() { reading<spl::NURBS<1>, 1>(v::any<spl::NURBS<1>>("s")); }
void spec_reading_rational_2() { reading<spl::NURBS<2>, 2>(v::any<spl::NURBS<2>>("s")); }
void spec_reading_rational_3() { reading<spl::NURBS<3>, 3>(v::any<spl::NURBS<3>>("s")); }
void spec_evaluating_1() { evaluating<spl::BSpline<1>, 1>(v::any<spl::BSpline<1>>("s")); }
void spec_evaluating_2() { evaluating<spl::BSpline<2>, 2>(v::any<spl::BSpline<2>>("s")); }
void spec_evaluating_rational_1() { evaluating<spl::NURBS<1>, 1>(v::any<spl::NURBS<1>>("s")); }
void spec_evaluating_rational_2() { evaluating<spl::NURBS<2>, 2>(v::any<spl::NURBS<2>>("s")); }
void spec_deriving_1() { deriving<spl::BSpline<1>, 1>(v::any<spl::BSpline<1>>("s")); }
void spec_deriving_2() { deriving<spl::BSpline<2>, 2>(v::any<spl::BSpline<2>>("s")); }
void spec_deriving_rational_1() { deriving<spl::NURBS<1>, 1>(v::any<spl::NURBS<1>>("s")); }
void spec_constructing_1() { constructing<1>(); }
void spec_constructing_2() { constructing<2>(); }
void spec_refusing_1() { refusing<1>(); }
void spec_refusing_2() { refusing<2>(); }
void spec_elements_1() { elements<1>(v::any<spl::BSpline<1>>("s")); }
void spec_elements_2() { elements<2>(v::any<spl::BSpline<2>>("s")); }
void spec_factory() {
  auto &kv = v::any<baf::KnotVector>("U");
  int i = v::any_int("i"), p = v::any_int("p");
  v::assume(i >= 0 && p >= 0 && i + p + 1 < static_cast<int>(kv.GetNumberOfKnots()));
  v::prove(v::inside([&] { baf::BasisFunctionFactory().CreateDynamic(kv, KnotSpan{i}, Degree{p}); }), "creating a basis function stays inside the knot vector");
}
void spec_searching() {
  auto &kv = v::any<baf::KnotVector>("U");
  int n = kv.GetNumberOfKnots();
  double u = v::any_real("u");
  v::assume(n >= 2 && K(kv, 0) <= u && u <= K(kv, n - 1));
  int i = v::any_int("i");
  v::assume(i >= 0 && i < n);
  v::prove(v::inside([&] { kv.GetKnot(i); kv.GetLastKnot(); kv.IsLastKnot(ParamCoord{u}); kv.IsInKnotVectorRange(ParamCoord{u}); }), "reading knots stays inside the knot vector");
  v::prove(v::inside([&] { kv.GetKnotSpan(ParamCoord{u}); }), "searching a span stays inside the knot vector");
  v::prove(v::inside([&] { kv.GetMultiplicity(ParamCoord{u}); }), "counting equal knots stays inside the knot vector");
  v::prove(v::inside([&] { kv.GetNumberOfDifferentKnots(); }), "counting different knots stays inside the knot vector");
}
void spec_points() {
  auto &a = v::any<baf::ControlPoint>("a");
  auto &b = v::any<baf::ControlPoint>("b");
  v::assume(a.GetDimension() == b.GetDimension());
  v::prove(v::inside([&] { a + b; }), "adding points stays inside them");
  v::prove(v::inside([&] { a - b; }), "subtracting points stays inside them");
  v::prove(v::inside([&] { a * 2.0; a.GetEuclideanNorm(); }), "scaling and measuring a point stays inside it");
}
void spec_writing_1() { writing<1>(); }
void spec_writing_2() { writing<2>(); }
void spec_writing_3() { writing<3>(); }
