#include "common.h"
// Basis functions: Cox-de Boor recursion, by induction over the degree.
namespace {
using BF = baf::BasisFunction;
// distinct knots, and the parameter and a knot, are told apart
bool apart(double a, double b) { return a == b || far(a, b, 1e-9); }
bool inside(const baf::KnotVector &kv, int i, int p, double u) {
  double last = K(kv, static_cast<int>(kv.GetNumberOfKnots()) - 1);
  return (K(kv, i) <= u && u < K(kv, i + p + 1)) || (K(kv, i + p + 1) == last && u == last);
}
BF *lower(const baf::KnotVector &kv, int i, int p) {
  return v::abstractly([&]() { return baf::BasisFunctionFactory::CreateDynamic(kv, KnotSpan{i}, Degree{p}); });
}
double inverse(double d) { return d == 0 ? 0.0 : 1.0 / d; }
const baf::KnotVector &knots(int i, int p) {
  auto &kv = v::any<baf::KnotVector>("U");
  int m = static_cast<int>(kv.GetNumberOfKnots());
  v::assume(i >= 0 && i + p + 1 < m);
  v::assume(apart(K(kv, m - 1), K(kv, i + p + 1)) && apart(K(kv, i + p), K(kv, i)) && apart(K(kv, i + p + 1), K(kv, i + 1)));
  v::assume(apart(K(kv, m - 1), K(kv, i + p)));
  return kv;
}
}
void spec_degree_zero() {
  int i = v::any_int("i");
  auto &kv = knots(i, 0);
  double u = v::any_real("u");
  BF *n = baf::BasisFunctionFactory::CreateDynamic(kv, KnotSpan{i}, Degree{0});
  v::prove(n->Evaluate(ParamCoord{u}) == (inside(kv, i, 0, u) ? 1 : 0), "a basis function of degree zero is the indicator of its knot span");
  int k = v::any_int("k");
  v::assume(k >= 1);
  v::prove(n->EvaluateDerivative(ParamCoord{u}, Derivative{k}) == 0, "derivatives of a basis function of degree zero vanish");
  v::prove(n->EvaluateDerivative(ParamCoord{u}, Derivative{0}) == (inside(kv, i, 0, u) ? 1 : 0), "the derivative of order zero is the value");
}
void spec_recursion() {
  int i = v::any_int("i"), p = v::any_int("p");
  v::assume(p >= 1);
  auto &kv = knots(i, p);
  double u = v::any_real("u");
  BF *n = baf::BasisFunctionFactory::CreateDynamic(kv, KnotSpan{i}, Degree{p});
  double l = lower(kv, i, p - 1)->Evaluate(ParamCoord{u}), r = lower(kv, i + 1, p - 1)->Evaluate(ParamCoord{u});
  v::assume(inside(kv, i, p - 1, u) || l == 0);
  v::assume(inside(kv, i + 1, p - 1, u) || r == 0);
  double a = (u - K(kv, i)) * inverse(K(kv, i + p) - K(kv, i));
  double b = (K(kv, i + p + 1) - u) * inverse(K(kv, i + p + 1) - K(kv, i + 1));
  v::prove(n->Evaluate(ParamCoord{u}) == a * l + b * r, "a basis function is the Cox-de Boor combination of the two of lower degree");
  v::prove(inside(kv, i, p, u) || n->Evaluate(ParamCoord{u}) == 0, "a basis function vanishes outside its support");
}
void spec_derivative() {
  int i = v::any_int("i"), p = v::any_int("p"), k = v::any_int("k");
  v::assume(p >= 1);
  v::assume(k >= 1);
  auto &kv = knots(i, p);
  double u = v::any_real("u");
  BF *n = baf::BasisFunctionFactory::CreateDynamic(kv, KnotSpan{i}, Degree{p});
  double l = lower(kv, i, p - 1)->EvaluateDerivative(ParamCoord{u}, Derivative{k - 1});
  double r = lower(kv, i + 1, p - 1)->EvaluateDerivative(ParamCoord{u}, Derivative{k - 1});
  v::assume(inside(kv, i, p - 1, u) || l == 0);
  v::assume(inside(kv, i + 1, p - 1, u) || r == 0);
  double want = p * (inverse(K(kv, i + p) - K(kv, i)) * l - inverse(K(kv, i + p + 1) - K(kv, i + 1)) * r);
  v::prove(n->EvaluateDerivative(ParamCoord{u}, Derivative{k}) == want, "derivatives of a basis function follow the derivative recursion");
  v::prove(inside(kv, i, p, u) || n->EvaluateDerivative(ParamCoord{u}, Derivative{k}) == 0, "derivatives vanish outside the support");
  v::prove(n->EvaluateDerivative(ParamCoord{u}, Derivative{0}) == n->Evaluate(ParamCoord{u}), "the derivative of order zero is the value");
}
void spec_negative_degree() {
  int i = v::any_int("i"), p = v::any_int("p");
  auto &kv = v::any<baf::KnotVector>("U");
  v::assume(i >= 0 && i + p + 1 < static_cast<int>(kv.GetNumberOfKnots()) && p >= -1);
  v::prove(v::throws([&]() { baf::BasisFunctionFactory::CreateDynamic(kv, KnotSpan{i}, Degree{p}); }) == (p < 0), "exactly negative degrees are refused");
}

// Parameter spaces: basis function i of a direction is the one of this direction's current knots and degree.
namespace {
template<int DIM>
void belongs(const spl::ParameterSpace<DIM> &s, const char *what) {
  std::array<int, DIM> ix;
  std::array<ParamCoord, DIM> u;
  std::array<int, DIM> k;
  double value = 1, derivative = 1;
  for (int d = 0; d < DIM; ++d) {
    ix[d] = v::any_int("ix", d);
    k[d] = v::any_int("k", d);
    u[d] = ParamCoord{v::any_real("u", d)};
    v::assume(k[d] >= 0);
    v::assume(ix[d] >= 0 && ix[d] < static_cast<int>(s.GetKnotVector(d)->GetNumberOfKnots()) - s.GetDegree(d).get() - 1);
    value *= lower(*s.GetKnotVector(d), ix[d], s.GetDegree(d).get())->Evaluate(u[d]);
    derivative *= lower(*s.GetKnotVector(d), ix[d], s.GetDegree(d).get())->EvaluateDerivative(u[d], Derivative{k[d]});
  }
  v::prove(s.GetBasisFunctions(ix, u) == value, what);
  v::prove(s.GetBasisFunctionDerivatives(ix, u, k) == derivative, what);
}
template<int DIM>
void space() {
  auto in = parameters<DIM>();
  v::assume(clamped(in));
  spl::ParameterSpace<DIM> s(in.kv, in.deg);
  belongs(s, "a parameter space evaluates the basis functions of its knots and degrees");
  spl::ParameterSpace<DIM> t(s);
  belongs(t, "a copied parameter space evaluates the basis functions of its knots and degrees");
}
template<int DIM, int DIR>
void nonzero() {
  auto in = parameters<DIM>();
  v::assume(clamped(in));
  spl::ParameterSpace<DIM> s(in.kv, in.deg);
  double u = v::any_real("u");
  int m = in.kv[DIR]->GetNumberOfKnots();
  v::assume(K(*in.kv[DIR], 0) <= u && (u + 1e-9 <= K(*in.kv[DIR], m - 1) || u == K(*in.kv[DIR], m - 1)));
  v::assume(K(*in.kv[DIR], 0) < K(*in.kv[DIR], m - 1));
  int p = in.deg[DIR].get();
  int j = v::any_int("j"), k = v::any_int("k");
  v::assume(j >= 0 && j <= p && k >= 0);
  int span = in.kv[DIR]->GetKnotSpan(ParamCoord{u}).get();
  auto val = s.EvaluateAllNonZeroBasisFunctions(DIR, ParamCoord{u});
  v::prove(static_cast<int>(val.size()) == p + 1, "p+1 basis functions are evaluated");
  v::prove(val[j] == lower(*in.kv[DIR], span - p + j, p)->Evaluate(ParamCoord{u}), "the nonzero basis functions are those that start p spans before the span of the parameter");
  auto der = s.EvaluateAllNonZeroBasisFunctionDerivatives(DIR, ParamCoord{u}, k);
  v::prove(static_cast<int>(der.size()) == p + 1, "p+1 basis function derivatives are evaluated");
  v::prove(der[j] == lower(*in.kv[DIR], span - p + j, p)->EvaluateDerivative(ParamCoord{u}, Derivative{k}), "the derivatives are those of the nonzero basis functions");
}
}
void spec_space_1() { space<1>(); }
void spec_space_2() { space<2>(); }
void spec_space_3() { space<3>(); }
void spec_nonzero_1() { nonzero<1, 0>(); }
void spec_nonzero_2() { nonzero<2, 1>(); }
void spec_nonzero_3() { nonzero<3, 1>(); }
namespace {
template<int DIM, int DIR>
void changed() {
  {
    auto in = parameters<DIM>();
    v::assume(clamped(in));
    spl::ParameterSpace<DIM> s(in.kv, in.deg);
    double u = v::any_real("x");
    int m = s.GetKnotVector(DIR)->GetNumberOfKnots();
    v::assume(K(*s.GetKnotVector(DIR), 0) <= u && u <= K(*s.GetKnotVector(DIR), m - 1));
    v::assume(s.GetDegree(DIR).get() >= 1);
    spl::ParameterSpace<DIM> t(s);
    t.InsertKnot(ParamCoord{u}, DIR);
    belongs(t, "after a knot is inserted the basis functions are those of the new knots");
  }
  {
    auto in = parameters<DIM>();
    v::assume(clamped(in));
    spl::ParameterSpace<DIM> t(in.kv, in.deg);
    v::assume(t.GetKnotVector(DIR)->GetNumberOfKnots() >= 2 * static_cast<size_t>(t.GetDegree(DIR).get()) + 3);
    t.ElevateDegree(DIR);
    v::prove(t.GetDegree(DIR).get() == in.deg[DIR].get() + 1, "ElevateDegree raises the degree by one");
    belongs(t, "after the degree is raised the basis functions are those of the new degree");
  }
  {
    auto in = parameters<DIM>();
    v::assume(clamped(in));
    spl::ParameterSpace<DIM> t(in.kv, in.deg);
    v::assume(t.GetDegree(DIR).get() >= 1);
    t.ReduceDegree(DIR);
    v::prove(t.GetDegree(DIR).get() == in.deg[DIR].get() - 1, "ReduceDegree lowers the degree by one");
    belongs(t, "after the degree is lowered the basis functions are those of the new degree");
  }
}
template<int DIM, int DIR>
void removed() {
  auto in = parameters<DIM>();
  v::assume(clamped(in));
  spl::ParameterSpace<DIM> t(in.kv, in.deg);
  int m = t.GetKnotVector(DIR)->GetNumberOfKnots(), j = v::any_int("j");
  v::assume(j > t.GetDegree(DIR).get() && j < m - t.GetDegree(DIR).get() - 1);
  double u = K(*t.GetKnotVector(DIR), j);
  t.RemoveKnot(ParamCoord{u}, DIR);
  belongs(t, "after a knot is removed the basis functions are those of the remaining knots");
}
}
void spec_changed_1() { changed<1, 0>(); }
void spec_changed_2() { changed<2, 1>(); }
void spec_changed_3() { changed<3, 1>(); }
void spec_removed_1() { removed<1, 0>(); }
void spec_removed_2() { removed<2, 0>(); }
void spec_removed_21() { removed<2, 1>(); }
void spec_removed_3() { removed<3, 2>(); }
