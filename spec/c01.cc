#include "inst.cc"
#include "v.h"
// Evaluation outside the knot range is refused with an error, inside it is not.
template<class S, int DIM>
void range_of(S &s) {
  std::array<ParamCoord, DIM> u;
  std::array<int, DIM> order;
  for (int d = 0; d < DIM; ++d) u[d] = ParamCoord(v::any_real("u", d));
  for (int d = 0; d < DIM; ++d) order[d] = v::any_int("order", d);
  bool outside = false;
  for (int d = 0; d < DIM; ++d) {
    auto kv = s.GetKnotVector(d);
    v::assume(kv->GetNumberOfKnots() >= 2);
    v::assume(order[d] >= 0);
    if (u[d].get() < kv->GetKnot(0).get() || u[d].get() > kv->GetKnot(kv->GetNumberOfKnots() - 1).get()) outside = true;
  }
  std::vector<int> dims{v::any_int("component")};
  bool refused = v::throws([&]() { s.Evaluate(u, dims); });
  v::prove(outside || !refused, "Evaluate accepts every parameter inside the closed knot range");
  v::prove(!outside || refused, "Evaluate refuses every parameter with a coordinate outside its knot range");
  bool drefused = v::throws([&]() { s.EvaluateDerivative(u, dims, order); });
  v::prove(outside || !drefused, "EvaluateDerivative accepts every parameter inside the closed knot range");
  v::prove(!outside || drefused, "EvaluateDerivative refuses every parameter with a coordinate outside its knot range");
}
void spec_BSpline_1() { range_of<spl::BSpline<1>, 1>(v::any<spl::BSpline<1>>("s")); }
void spec_BSpline_2() { range_of<spl::BSpline<2>, 2>(v::any<spl::BSpline<2>>("s")); }
void spec_BSpline_3() { range_of<spl::BSpline<3>, 3>(v::any<spl::BSpline<3>>("s")); }
void spec_BSpline_4() { range_of<spl::BSpline<4>, 4>(v::any<spl::BSpline<4>>("s")); }
void spec_NURBS_1() { range_of<spl::NURBS<1>, 1>(v::any<spl::NURBS<1>>("s")); }
void spec_NURBS_2() { range_of<spl::NURBS<2>, 2>(v::any<spl::NURBS<2>>("s")); }
void spec_NURBS_3() { range_of<spl::NURBS<3>, 3>(v::any<spl::NURBS<3>>("s")); }
void spec_NURBS_4() { range_of<spl::NURBS<4>, 4>(v::any<spl::NURBS<4>>("s")); }
