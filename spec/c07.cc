#include "common.h"
// Construction accepts exactly the well-formed input and stores it.
bool same_dim(const std::vector<baf::ControlPoint> &cps) {
  return v::forall(cps.size(), [&](int i) { return cps[i].GetDimension() == cps[0].GetDimension(); });
}
template<int DIM>
void parameter_space() {
  auto in = parameters<DIM>();
  v::prove(v::throws_a<std::runtime_error>([&]() { spl::ParameterSpace<DIM> s(in.kv, in.deg); }) == !clamped(in),
           "a parameter space is refused unless each direction has 2p+2 knots and p+1 equal knots at both ends");
}
template<int DIM>
void b_spline() {
  auto in = parameters<DIM>();
  auto &cps = v::any<std::vector<baf::ControlPoint>>("cp");
  v::assume(clamped(in));
  v::prove(v::throws_a<std::runtime_error>([&]() { spl::BSpline<DIM> s(in.kv, in.deg, cps); })
               == (static_cast<int>(cps.size()) != points(in) || !same_dim(cps)),
           "a B-spline is refused unless the control points fill the net and agree in dimension");
  v::prove(v::throws_a<std::runtime_error>([&]() { spl::BSplineGenerator<DIM> s(in.kv, in.deg, cps); })
               == (static_cast<int>(cps.size()) != points(in) || !same_dim(cps)),
           "a B-spline generator is refused unless the control points fill the net and agree in dimension");
}
template<int DIM>
void nurbs() {
  auto in = parameters<DIM>();
  auto &cps = v::any<std::vector<baf::ControlPoint>>("cp");
  auto &w = v::any<std::vector<double>>("w");
  v::assume(clamped(in));
  bool bad = static_cast<int>(cps.size()) != points(in) || !same_dim(cps) || w.size() != cps.size();
  v::prove(v::throws_a<std::runtime_error>([&]() { spl::NURBS<DIM> s(in.kv, in.deg, cps, w); }) == bad,
           "a NURBS is refused unless control points and weights fill the net and control points agree in dimension");
  v::prove(v::throws_a<std::runtime_error>([&]() { spl::NURBSGenerator<DIM> s(in.kv, in.deg, cps, w); }) == bad,
           "a NURBS generator is refused unless control points and weights fill the net and control points agree in dimension");
}
template<int DIM>
void unclamped() {
  auto in = parameters<DIM>();
  auto &cps = v::any<std::vector<baf::ControlPoint>>("cp");
  auto &w = v::any<std::vector<double>>("w");
  v::assume(!clamped(in));
  v::prove(v::throws_a<std::runtime_error>([&]() { spl::BSpline<DIM> s(in.kv, in.deg, cps); }),
           "a B-spline over an ill-formed parameter space is refused");
  v::prove(v::throws_a<std::runtime_error>([&]() { spl::NURBS<DIM> s(in.kv, in.deg, cps, w); }),
           "a NURBS over an ill-formed parameter space is refused");
}
void spec_ParameterSpace_1() { parameter_space<1>(); }
void spec_ParameterSpace_2() { parameter_space<2>(); }
void spec_ParameterSpace_3() { parameter_space<3>(); }
void spec_ParameterSpace_4() { parameter_space<4>(); }
void spec_BSpline_1() { b_spline<1>(); }
void spec_BSpline_2() { b_spline<2>(); }
void spec_BSpline_3() { b_spline<3>(); }
void spec_BSpline_4() { b_spline<4>(); }
void spec_NURBS_1() { nurbs<1>(); }
void spec_NURBS_2() { nurbs<2>(); }
void spec_NURBS_3() { nurbs<3>(); }
void spec_NURBS_4() { nurbs<4>(); }
void spec_unclamped_1() { unclamped<1>(); }
void spec_unclamped_2() { unclamped<2>(); }
