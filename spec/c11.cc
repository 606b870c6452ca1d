#include "common.h"
// Multi-index numbering: the flat index is the mixed-radix number of the index tuple, first direction running fastest.
template<int DIM>
int rank_of(const std::array<int, DIM> &n, const std::array<int, DIM> &ix) {
  int r = 0, f = 1;
  for (int d = 0; d < DIM; ++d) {
    r += ix[d] * f;
    f *= n[d];
  }
  return r;
}
template<int DIM>
std::array<int, DIM> lengths() {
  std::array<int, DIM> n;
  for (int d = 0; d < DIM; ++d) {
    n[d] = v::any_int("n", d);
    v::assume(n[d] >= 1);
  }
  return n;
}
template<int DIM>
bool next(const std::array<int, DIM> &n, const std::array<int, DIM> &a, const std::array<int, DIM> &b) {
  // b is the successor of a (cyclically)
  bool carry = true, ok = true;
  for (int d = 0; d < DIM; ++d) {
    int want = carry ? (a[d] + 1 == n[d] ? 0 : a[d] + 1) : a[d];
    ok = ok && b[d] == want;
    carry = carry && a[d] + 1 == n[d];
  }
  return ok;
}
template<int DIM>
void numbering() {
  auto n = lengths<DIM>();
  auto ix = any_index<DIM>("ix", n);
  int total = 1;
  for (int d = 0; d < DIM; ++d) total *= n[d];
  util::MultiIndexHandler<DIM> h(n);
  v::prove(h.Get1DIndex() == 0, "a new multi-index starts at zero");
  v::prove(h.Get1DLength() == total, "Get1DLength is the product of the lengths");
  h.SetIndices(ix);
  for (int d = 0; d < DIM; ++d) {
    v::prove(h[d] == ix[d] && h.GetIndices()[d] == ix[d], "indices are read back as set");
    v::prove(h.GetDifferenceIndices()[d] == n[d] - 1 - ix[d], "GetDifferenceIndices counts from the end");
  }
  v::prove(h.Get1DIndex() == rank_of<DIM>(n, ix), "Get1DIndex is the mixed-radix number of the current indices");
  v::prove(h.Get1DIndex(ix) == rank_of<DIM>(n, ix), "Get1DIndex is the mixed-radix number of given indices");
  auto m = lengths<DIM>();
  v::prove(h.Get1DIndex(m, ix) == rank_of<DIM>(m, ix), "Get1DIndex with explicit lengths uses these lengths");
}
template<int DIM>
void stepping() {
  auto n = lengths<DIM>();
  auto ix = any_index<DIM>("ix", n);
  util::MultiIndexHandler<DIM> h(n);
  h.SetIndices(ix);
  ++h;
  v::prove(next<DIM>(n, ix, h.GetIndices()), "++ moves to the next index tuple, carrying into the following direction");
  util::MultiIndexHandler<DIM> g(n);
  g.SetIndices(ix);
  --g;
  v::prove(next<DIM>(n, g.GetIndices(), ix), "-- moves to the previous index tuple");
  util::MultiIndexHandler<DIM> p(n);
  p.SetIndices(ix);
  auto old = p++;
  for (int d = 0; d < DIM; ++d) v::prove(p.GetIndices()[d] == h.GetIndices()[d], "postfix ++ moves to the next index tuple");
  for (int d = 0; d < DIM; ++d) v::prove(old.GetIndices()[d] == ix[d], "postfix ++ yields the previous tuple");
}
template<int DIM>
void jumping() {
  auto n = lengths<DIM>();
  auto ix = any_index<DIM>("ix", n);
  util::MultiIndexHandler<DIM> a(n), b(n), c(n);
  a.SetIndices(ix);
  b.SetIndices(ix);
  c.SetIndices(ix);
  a + 2;
  ++b;
  ++b;
  for (int d = 0; d < DIM; ++d) v::prove(a.GetIndices()[d] == b.GetIndices()[d], "+ i is i times ++");
  a - 1;
  ++c;
  for (int d = 0; d < DIM; ++d) v::prove(a.GetIndices()[d] == c.GetIndices()[d], "- i is i times --");
}
template<int DIM, int OUT>
void extract() {
  auto n = lengths<DIM>();
  auto ix = any_index<DIM>("ix", n);
  util::MultiIndexHandler<DIM> h(n);
  h.SetIndices(ix);
  int r = 0, f = 1;
  for (int d = 0; d < DIM; ++d) {
    if (d == OUT) continue;
    r += ix[d] * f;
    f *= n[d];
  }
  v::prove(h.ExtractDimension(OUT) == r, "ExtractDimension numbers the tuple without that direction");
}
void spec_raw_numbering_1() { numbering<1>(); }
void spec_raw_numbering_2() { numbering<2>(); }
void spec_raw_numbering_3() { numbering<3>(); }
void spec_raw_numbering_4() { numbering<4>(); }
void spec_raw_stepping_1() { stepping<1>(); }
void spec_raw_stepping_2() { stepping<2>(); }
void spec_raw_stepping_3() { stepping<3>(); }
void spec_raw_stepping_4() { stepping<4>(); }
void spec_raw_jumping_1() { jumping<1>(); }
void spec_raw_jumping_2() { jumping<2>(); }
void spec_raw_extract_2() { extract<2, 0>(); extract<2, 1>(); }
void spec_raw_extract_3() { extract<3, 0>(); extract<3, 1>(); extract<3, 2>(); }
void spec_raw_extract_4() { extract<4, 0>(); extract<4, 1>(); extract<4, 2>(); extract<4, 3>(); }

// Control net storage.
template<int DIM>
int product(const std::array<int, DIM> &n) {
  int t = 1;
  for (int d = 0; d < DIM; ++d) t *= n[d];
  return t;
}
template<int DIM>
void stored() {
  auto n = lengths<DIM>();
  auto &cps = v::any<std::vector<baf::ControlPoint>>("cp");
  auto &w = v::any<std::vector<double>>("w");
  int dim = v::any_int("dim");
  v::assume(dim >= 1);
  v::assume(static_cast<int>(cps.size()) == product<DIM>(n));
  v::assume(static_cast<int>(w.size()) == product<DIM>(n));
  v::assume(v::forall(cps.size(), [&](int i) { return cps[i].GetDimension() == dim; }));
  auto ix = any_index<DIM>("ix", n);
  int c = v::any_int("c");
  v::assume(c >= 0 && c < dim);
  spl::WeightedPhysicalSpace<DIM> s(cps, w, n);
  v::prove(s.GetDimension() == dim && s.GetNumberOfControlPoints() == product<DIM>(n), "a control net has the size and dimension it was given");
  v::prove(s.GetControlPoint(ix).GetValue(c) == cps[rank_of<DIM>(n, ix)].GetValue(c), "a control net stores the given control points in order");
  v::prove(s.GetWeight(ix) == w[rank_of<DIM>(n, ix)], "a control net stores the given weights in order");
}
template<int DIM>
void spaces(spl::WeightedPhysicalSpace<DIM> &s) {
  auto n = s.GetPointsPerDirection();
  for (int d = 0; d < DIM; ++d) v::assume(n[d] >= 1);
  v::assume(s.GetDimension() >= 1);
  storage(s, product<DIM>(n), 0);
  storage_w(s, product<DIM>(n), 0);
}
template<int DIM>
void written() {
  auto &s = v::any<spl::WeightedPhysicalSpace<DIM>>("s");
  spaces<DIM>(s);
  auto n = s.GetPointsPerDirection();
  auto ix = any_index<DIM>("ix", n);
  auto jx = any_index<DIM>("jx", n);
  int c = v::any_int("c");
  v::assume(c >= 0 && c < s.GetDimension());
  auto &cp = v::any<baf::ControlPoint>("cp");
  v::assume(cp.GetDimension() == s.GetDimension());
  spl::WeightedPhysicalSpace<DIM> old(s);
  s.SetControlPoint(ix, cp);
  double w = v::any_real("w");
  s.SetWeight(ix, w);
  v::prove(s.GetControlPoint(ix).GetValue(c) == cp.GetValue(c), "a control point is read back as set");
  v::prove(s.GetWeight(ix) == w, "a weight is read back as set");
  bool same = true;
  for (int d = 0; d < DIM; ++d) same = same && ix[d] == jx[d];
  v::prove(same || s.GetControlPoint(jx).GetValue(c) == old.GetControlPoint(jx).GetValue(c), "setting a control point keeps all others");
  v::prove(same || s.GetWeight(jx) == old.GetWeight(jx), "setting a weight keeps all others");
  for (int d = 0; d < DIM; ++d) v::prove(s.GetPointsPerDirection()[d] == n[d], "setting a control point keeps the size of the net");
}
template<int DIM, int DIR>
void relocated() {
  auto &s = v::any<spl::WeightedPhysicalSpace<DIM>>("s");
  spaces<DIM>(s);
  auto n = s.GetPointsPerDirection();
  auto m = n;
  m[DIR] = n[DIR] - 1;
  v::assume(m[DIR] >= 1);
  auto ix = any_index<DIM>("ix", m);
  auto jx = ix;  // the last length does not matter for the place
  if (DIR < DIM - 1) {
    jx = any_index<DIM>("jx", n);
    v::assume(rank_of<DIM>(m, ix) == rank_of<DIM>(n, jx));
  }
  int c = v::any_int("c");
  v::assume(c >= 0 && c < s.GetDimension());
  auto &cp = v::any<baf::ControlPoint>("cp");
  v::assume(cp.GetDimension() == s.GetDimension());
  s.SetControlPoint(ix, cp, DIR, [](int k) -> int { return k - 1; });
  v::prove(s.GetControlPoint(jx).GetValue(c) == cp.GetValue(c), "a control point set with another net length lands at that net's place");
  double w = v::any_real("w");
  s.SetWeight(ix, w, DIR, [](int k) -> int { return k - 1; });
  v::prove(s.GetWeight(jx) == w, "a weight set with another net length lands at that net's place");
  for (int d = 0; d < DIM; ++d) v::prove(s.GetPointsPerDirection()[d] == n[d], "setting a control point with another net length keeps the size of the net");
}
template<int DIM>
void homogenous() {
  auto &s = v::any<spl::WeightedPhysicalSpace<DIM>>("s");
  spaces<DIM>(s);
  auto n = s.GetPointsPerDirection();
  auto ix = any_index<DIM>("ix", n);
  int c = v::any_int("c");
  v::assume(c >= 0 && c < s.GetDimension());
  v::prove(s.GetHomogenousControlPoint(ix).GetDimension() == s.GetDimension() + 1, "a homogeneous control point has one more coordinate");
  v::prove(s.GetHomogenousControlPoint(ix).GetValue(c) == s.GetControlPoint(ix).GetValue(c) * s.GetWeight(ix), "homogeneous coordinates are weighted");
  v::prove(s.GetHomogenousControlPoint(ix).GetValue(s.GetDimension()) == s.GetWeight(ix), "the last homogeneous coordinate is the weight");
  auto &p = static_cast<spl::PhysicalSpace<DIM> &>(v::any<spl::PhysicalSpace<DIM>>("p"));
  auto m = p.GetPointsPerDirection();
  v::prove(p.GetWeight(ix) == 1, "control points without weights weigh one");
}
void spec_stored_1() { stored<1>(); }
void spec_stored_2() { stored<2>(); }
void spec_stored_3() { stored<3>(); }
void spec_stored_4() { stored<4>(); }
void spec_written_1() { written<1>(); }
void spec_written_2() { written<2>(); }
void spec_written_3() { written<3>(); }
void spec_written_4() { written<4>(); }
void spec_relocated_1() { relocated<1, 0>(); }
void spec_relocated_2() { relocated<2, 0>(); relocated<2, 1>(); }
void spec_relocated_3() { relocated<3, 1>(); relocated<3, 2>(); }
void spec_relocated_3_0() { relocated<3, 0>(); }
void spec_relocated_4_0() { relocated<4, 0>(); }
void spec_relocated_4_1() { relocated<4, 1>(); }
void spec_relocated_4_2() { relocated<4, 2>(); }
void spec_relocated_4_3() { relocated<4, 3>(); }
void spec_homogenous_1() { homogenous<1>(); }
void spec_homogenous_2() { homogenous<2>(); }
void spec_homogenous_3() { homogenous<3>(); }
void spec_homogenous_4() { homogenous<4>(); }
