#include "common.h"
#include "square_generator.h"
#include "surface_generator.h"
#include "element_generator.h"
// Surfaces built from two curves, the square, and the list of elements.
namespace {
template<class G, class T, class C>
void sums(const G &s, const T &t, const C &c, std::array<int, 2> ix, int k) {
  v::prove(s.GetControlPoint(ix, k) == t.GetControlPoint({ix[0]}, k) + c.GetControlPoint({ix[1]}, k), "control points of the joined surface are the sums of those of the curves");
  v::prove(s.GetWeight(ix) == t.GetWeight({ix[0]}) * c.GetWeight({ix[1]}), "weights of the joined surface are the products of those of the curves");
}
}
void spec_joined() {
  auto &t = v::any<spl::NURBS<1>>("T");
  auto &c = v::any<spl::NURBS<1>>("C");
  wellformed<spl::NURBS<1>, 1>(t);
  wellformed<spl::NURBS<1>, 1>(c);
  v::is(c.GetPointDim(), t.GetPointDim());
  auto tp = std::make_shared<spl::NURBS<1>>(t);
  auto cp = std::make_shared<spl::NURBS<1>>(c);
  spl::SurfaceGenerator g(tp, cp);
  spl::NURBS<2> s(g);
  int nt = t.GetPointsPerDirection()[0], nc = c.GetPointsPerDirection()[0];
  v::prove(s.GetPointsPerDirection()[0] == nt, "the joined surface has the control points of the first curve in the first direction");
  v::prove(s.GetPointsPerDirection()[1] == nc, "the joined surface has the control points of the second curve in the second direction");
  v::prove(s.GetDegree(0).get() == t.GetDegree(0).get(), "the joined surface has the degree of the first curve in the first direction");
  v::prove(s.GetDegree(1).get() == c.GetDegree(0).get(), "the joined surface has the degree of the second curve in the second direction");
  int j = v::any_int("j");
  v::assume(j >= 0 && j < static_cast<int>(t.GetKnotVector(0)->GetNumberOfKnots()) && j < static_cast<int>(c.GetKnotVector(0)->GetNumberOfKnots()));
  v::prove(s.GetKnotVector(0)->GetNumberOfKnots() == t.GetKnotVector(0)->GetNumberOfKnots() && K(*s.GetKnotVector(0), j) == K(*t.GetKnotVector(0), j), "the joined surface has the knots of the first curve in the first direction");
  v::prove(s.GetKnotVector(1)->GetNumberOfKnots() == c.GetKnotVector(0)->GetNumberOfKnots() && K(*s.GetKnotVector(1), j) == K(*c.GetKnotVector(0), j), "the joined surface has the knots of the second curve in the second direction");
  auto ix = any_index<2>("ix", {nt, nc});
  int k = v::any_int("k");
  v::assume(k >= 0 && k < t.GetPointDim());
  sums(s, t, c, ix, k);
}
void spec_square() {
  int p = v::any_int("p"), n = v::any_int("n"), m = n + p + 1;
  v::assume(p >= 1 && n >= p + 1);
  spl::SquareGenerator g(Degree{p}, static_cast<uint64_t>(m));
  auto s = g.CreateSquare();
  int j = v::any_int("j");
  v::assume(j >= 0 && j < m);
  for (int d = 0; d < 2; ++d) {
    v::prove(s->GetDegree(d).get() == p, "the square has the requested degree in each direction");
    v::prove(s->GetPointsPerDirection()[d] == n, "the square has as many control points per direction as its knots ask for");
    v::prove(static_cast<int>(s->GetKnotVector(d)->GetNumberOfKnots()) == m, "the square has the requested number of knots in each direction");
    v::prove(K(*s->GetKnotVector(d), j) == (j <= p ? 0.0 : j >= m - p - 1 ? 1.0 : (j - p) / (m - 2.0 * p - 1)), "the knots of the square are uniform over the unit interval");
  }
  auto ix = any_index<2>("ix", {n, n});
  v::prove(s->GetPointDim() == 2, "the square lies in the plane");
  v::prove(s->GetControlPoint(ix, 0) == -1 + ix[0] * 2.0 / (n - 1.0), "the first coordinate runs uniformly from -1 to 1 in the first direction");
  v::prove(s->GetControlPoint(ix, 1) == -1 + ix[1] * 2.0 / (n - 1.0), "the second coordinate runs uniformly from -1 to 1 in the second direction");
}
namespace {
template<int DIM, int DIR>
void elements(spl::BSpline<DIM> &s) {
  wellformed<spl::BSpline<DIM>, DIM>(s);
  auto sp = std::make_shared<spl::BSpline<DIM>>(s);
  util::ElementGenerator<DIM> g(sp);
  auto list = g.GetElementList(DIR);
  int n = s.GetPointsPerDirection()[DIR];
  auto kv = s.GetKnotVector(DIR);
  v::prove(static_cast<double>(list.size()) == v::sum(n, [&](int i) { return K(*kv, i) != K(*kv, i + 1) ? 1.0 : 0.0; }), "there is one element per span of positive length");
  int j = v::any_int("j");
  v::assume(j >= 0 && j < n && K(*kv, j) != K(*kv, j + 1));
  int e = static_cast<int>(v::sum(j, [&](int i) { return K(*kv, i) != K(*kv, i + 1) ? 1.0 : 0.0; }));
  v::prove(list[e].GetLowerBound().get() == K(*kv, j), "the elements start at the start of their span, in order");
  v::prove(list[e].GetUpperBound().get() == K(*kv, j + 1), "the elements end at the end of their span, in order");
}
}
void spec_elements_1() { elements<1, 0>(v::any<spl::BSpline<1>>("s")); }
void spec_elements_2_0() { elements<2, 0>(v::any<spl::BSpline<2>>("s")); }
void spec_elements_2_1() { elements<2, 1>(v::any<spl::BSpline<2>>("s")); }
