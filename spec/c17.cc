#include "common.h"
#include "xml_writer.h"
#include "xml_reader.h"
#include "any_casts.h"
// An XML file read back yields the splines that were written.
namespace {
template<class S, int DIM>
void same(const S &t, const S &s) {
  auto n = s.GetPointsPerDirection();
  for (int d = 0; d < DIM; ++d) {
    v::prove(t.GetDegree(d).get() == s.GetDegree(d).get(), "the degrees are read back");
    auto kt = t.GetKnotVector(d), ks = s.GetKnotVector(d);
    int j = v::any_int("j", d);
    v::assume(j >= 0 && j < static_cast<int>(ks->GetNumberOfKnots()));
    v::prove(kt->GetNumberOfKnots() == ks->GetNumberOfKnots() && K(*kt, j) == K(*ks, j), "the knots are read back");
    v::prove(t.GetPointsPerDirection()[d] == n[d], "the numbers of control points are read back");
  }
  v::prove(t.GetPointDim() == s.GetPointDim(), "the dimension of the control points is read back");
  auto ix = any_index<DIM>("ix", n);
  int c = v::any_int("c");
  v::assume(c >= 0 && c < s.GetPointDim());
  v::prove(t.GetControlPoint(ix, c) == s.GetControlPoint(ix, c), "the control points are read back");
  v::prove(t.GetWeight(ix) == s.GetWeight(ix), "the weights are read back");
}
template<class S, int DIM>
void xml(S &s) {
  wellformed<S, DIM>(s);
  for (int d = 0; d < DIM; ++d) {
    v::is(static_cast<int>(s.GetKnotVector(d)->GetNumberOfKnots()), s.GetPointsPerDirection()[d] + s.GetDegree(d).get() + 1);
  }
  io::XMLWriter w;
  w.WriteFile({std::make_any<std::shared_ptr<S>>(std::make_shared<S>(s))}, "file.xml");
  io::XMLReader r;
  auto got = r.ReadFile("file.xml");
  v::prove(got.size() == 1, "as many splines are read as were written");
  auto t = std::any_cast<std::shared_ptr<S>>(got[0]);
  same<S, DIM>(*t, s);
}
}
void spec_xml_1() { xml<spl::BSpline<1>, 1>(v::any<spl::BSpline<1>>("s")); }
void spec_xml_2() { xml<spl::BSpline<2>, 2>(v::any<spl::BSpline<2>>("s")); }
void spec_xml_3() { xml<spl::BSpline<3>, 3>(v::any<spl::BSpline<3>>("s")); }
void spec_xml_4() { xml<spl::BSpline<4>, 4>(v::any<spl::BSpline<4>>("s")); }
void spec_xml_rational_1() { xml<spl::NURBS<1>, 1>(v::any<spl::NURBS<1>>("s")); }
void spec_xml_rational_2() { xml<spl::NURBS<2>, 2>(v::any<spl::NURBS<2>>("s")); }
void spec_xml_rational_3() { xml<spl::NURBS<3>, 3>(v::any<spl::NURBS<3>>("s")); }
void spec_xml_rational_4() { xml<spl::NURBS<4>, 4>(v::any<spl::NURBS<4>>("s")); }
#include "irit_writer.h"
#include "iges_writer.h"
#include "iges_reader.h"
namespace {
// the numbers of an IRIT entry: sizes, orders, dimension, knots, points (weight first, homogeneous)
template<class S, int DIM>
void irit(S &s, bool rational) {
  wellformed<S, DIM>(s);
  auto n = s.GetPointsPerDirection();
  io::IRITWriter w;
  w.WriteFile({std::make_any<std::shared_ptr<S>>(std::make_shared<S>(s))}, "file.itd");
  std::vector<double> f = v::written();
  int width = s.GetPointDim() + (rational ? 1 : 0);
  int at = 1, total = 1;
  v::prove(f[0] == 1, "the entries are numbered from one");
  for (int d = 0; d < DIM; ++d) {
    v::prove(f[at + d] == n[d], "the numbers of control points come first");
    v::prove(f[at + DIM + d] == s.GetDegree(d).get() + 1, "the orders are the degrees plus one");
    total *= n[d];
  }
  at += 2 * DIM;
  v::prove(f[at] == s.GetPointDim(), "the dimension of the points is given");
  ++at;
  for (int d = 0; d < DIM; ++d) {
    auto kv = s.GetKnotVector(d);
    int j = v::any_int("j", d);
    v::assume(j >= 0 && j < static_cast<int>(kv->GetNumberOfKnots()));
    v::prove(f[at + j] == K(*kv, j), "the knots of all directions follow in order");
    at += kv->GetNumberOfKnots();
  }
  v::prove(static_cast<int>(f.size()) == at + total * width, "every control point is written once");
  auto ix = any_index<DIM>("ix", n);
  int c = v::any_int("c");
  v::assume(c >= 0 && c < s.GetPointDim());
  int i = 0;
  for (int d = DIM - 1; d >= 0; --d) i = i * n[d] + ix[d];
  v::prove(f[at + i * width + (rational ? 1 : 0) + c] == s.GetControlPoint(ix, c) * s.GetWeight(ix), "the points are homogeneous");
  if (rational) v::prove(f[at + i * width] == s.GetWeight(ix), "the weight precedes the point");
}
// IGES: the numbers of the parameter data that the writer produces are read back as the same spline
template<class W, class = void> struct writes1 : std::false_type {};
template<class W> struct writes1<W, std::void_t<decltype(std::declval<W>().GetParameterData1D((std::string *) nullptr, std::string(), std::any()))>> : std::true_type {};
template<class R, class = void> struct reads1 : std::false_type {};
template<class R> struct reads1<R, std::void_t<decltype(std::declval<R>().Create1DSpline(std::vector<double>()))>> : std::true_type {};
template<class S, int DIM, class W, class R>
void iges(S &s, W &w, R &r) {
  if constexpr (writes1<W>::value && reads1<R>::value) {
    wellformed<S, DIM>(s);
    for (int d = 0; d < DIM; ++d) {
      v::is(static_cast<int>(s.GetKnotVector(d)->GetNumberOfKnots()), s.GetPointsPerDirection()[d] + s.GetDegree(d).get() + 1);
    }
    v::assume(s.GetPointDim() <= 3);
    std::string text;
    std::any got;
    if constexpr (DIM == 1) {
      w.GetParameterData1D(&text, ",", std::make_any<std::shared_ptr<S>>(std::make_shared<S>(s)));
      got = r.Create1DSpline(v::numbers(text));
    } else {
      w.GetParameterData2D(&text, ",", std::make_any<std::shared_ptr<S>>(std::make_shared<S>(s)));
      got = r.Create2DSpline(v::numbers(text));
    }
    auto t = std::any_cast<std::shared_ptr<S>>(got);
    auto n = s.GetPointsPerDirection();
    for (int d = 0; d < DIM; ++d) {
      v::prove(t->GetDegree(d).get() == s.GetDegree(d).get(), "the degrees are read back");
      auto kt = t->GetKnotVector(d), ks = s.GetKnotVector(d);
      int j = v::any_int("j", d);
      v::assume(j >= 0 && j < static_cast<int>(ks->GetNumberOfKnots()));
      v::prove(kt->GetNumberOfKnots() == ks->GetNumberOfKnots() && K(*kt, j) == K(*ks, j), "the knots are read back");
    }
    v::prove(t->GetPointDim() == 3, "points of an IGES file are three-dimensional");
    auto ix = any_index<DIM>("ix", n);
    for (int c = 0; c < 3; ++c) {
      v::prove(t->GetControlPoint(ix, c) == (c < s.GetPointDim() ? s.GetControlPoint(ix, c) : 0.0), "the control points are read back");
    }
    v::prove(t->GetWeight(ix) == s.GetWeight(ix), "the weights are read back");
  }
}
}
void spec_irit_1() { irit<spl::BSpline<1>, 1>(v::any<spl::BSpline<1>>("s"), false); }
void spec_irit_2() { irit<spl::BSpline<2>, 2>(v::any<spl::BSpline<2>>("s"), false); }
void spec_irit_3() { irit<spl::BSpline<3>, 3>(v::any<spl::BSpline<3>>("s"), false); }
void spec_irit_rational_1() { irit<spl::NURBS<1>, 1>(v::any<spl::NURBS<1>>("s"), true); }
void spec_irit_rational_2() { irit<spl::NURBS<2>, 2>(v::any<spl::NURBS<2>>("s"), true); }
void spec_irit_rational_3() { irit<spl::NURBS<3>, 3>(v::any<spl::NURBS<3>>("s"), true); }
void spec_iges_1() { io::IGESWriter w; io::IGESReader r; iges<spl::BSpline<1>, 1>(v::any<spl::BSpline<1>>("s"), w, r); }
void spec_iges_2() { io::IGESWriter w; io::IGESReader r; iges<spl::BSpline<2>, 2>(v::any<spl::BSpline<2>>("s"), w, r); }
void spec_iges_rational_1() { io::IGESWriter w; io::IGESReader r; iges<spl::NURBS<1>, 1>(v::any<spl::NURBS<1>>("s"), w, r); }
void spec_iges_rational_2() { io::IGESWriter w; io::IGESReader r; iges<spl::NURBS<2>, 2>(v::any<spl::NURBS<2>>("s"), w, r); }
// what the reader uses of the parameter data is there
template<class S, int DIM, class W, class R>
void iges_inside(S &s, W &w, R &r) {
  if constexpr (writes1<W>::value && reads1<R>::value) {
    wellformed<S, DIM>(s);
    for (int d = 0; d < DIM; ++d) {
      v::is(static_cast<int>(s.GetKnotVector(d)->GetNumberOfKnots()), s.GetPointsPerDirection()[d] + s.GetDegree(d).get() + 1);
    }
    v::assume(s.GetPointDim() <= 3);
    std::string text;
    if constexpr (DIM == 1) {
      w.GetParameterData1D(&text, ",", std::make_any<std::shared_ptr<S>>(std::make_shared<S>(s)));
      v::prove(v::inside([&] { r.Create1DSpline(v::numbers(text)); }), "nothing beyond the parameter data is read");
    } else {
      w.GetParameterData2D(&text, ",", std::make_any<std::shared_ptr<S>>(std::make_shared<S>(s)));
      v::prove(v::inside([&] { r.Create2DSpline(v::numbers(text)); }), "nothing beyond the parameter data is read");
    }
  }
}
void spec_iges_inside_1() { io::IGESWriter w; io::IGESReader r; iges_inside<spl::BSpline<1>, 1>(v::any<spl::BSpline<1>>("s"), w, r); }
void spec_iges_inside_2() { io::IGESWriter w; io::IGESReader r; iges_inside<spl::BSpline<2>, 2>(v::any<spl::BSpline<2>>("s"), w, r); }
// several splines in one file
void spec_xml_several() {
  auto &a = v::any<spl::BSpline<1>>("a");
  auto &b = v::any<spl::NURBS<2>>("b");
  wellformed<spl::BSpline<1>, 1>(a);
  wellformed<spl::NURBS<2>, 2>(b);
  v::is(static_cast<int>(a.GetKnotVector(0)->GetNumberOfKnots()), a.GetPointsPerDirection()[0] + a.GetDegree(0).get() + 1);
  for (int d = 0; d < 2; ++d) {
    v::is(static_cast<int>(b.GetKnotVector(d)->GetNumberOfKnots()), b.GetPointsPerDirection()[d] + b.GetDegree(d).get() + 1);
  }
  io::XMLWriter w;
  w.WriteFile({std::make_any<std::shared_ptr<spl::NURBS<2>>>(std::make_shared<spl::NURBS<2>>(b)),
               std::make_any<std::shared_ptr<spl::BSpline<1>>>(std::make_shared<spl::BSpline<1>>(a))}, "file.xml");
  io::XMLReader r;
  auto got = r.ReadFile("file.xml");
  v::prove(got.size() == 2, "as many splines are read as were written");
  same<spl::NURBS<2>, 2>(*std::any_cast<std::shared_ptr<spl::NURBS<2>>>(got[0]), b);
  same<spl::BSpline<1>, 1>(*std::any_cast<std::shared_ptr<spl::BSpline<1>>>(got[1]), a);
}
