#include "common.h"
// Vector and control point arithmetic, for vectors of any length.
using Vec = std::vector<double>;
using VU = util::VectorUtils<double>;
void spec_vectors() {
  auto &a = v::any<Vec>("a");
  auto &b = v::any<Vec>("b");
  int n = static_cast<int>(a.size());
  v::assume(n >= 1);
  v::is(static_cast<int>(b.size()), n);
  double f = v::any_real("f");
  int k = v::any_int("k");
  v::assume(k >= 0 && k < n);
  Vec a0(a), b0(b);
  Vec d = VU::ComputeDifference(a, b);
  v::prove(static_cast<int>(d.size()) == n && d[k] == a0[k] - b0[k], "ComputeDifference subtracts elementwise");
  v::prove(VU::ComputeScalarProduct(a, b) == v::sum(n, [&](int i) { return a0[i] * b0[i]; }), "ComputeScalarProduct is the sum of the products");
  Vec s = VU::ScaleVector(a, f);
  v::prove(static_cast<int>(s.size()) == n && s[k] == f * a0[k], "ScaleVector multiplies each element");
  v::prove(a[k] == a0[k] && b[k] == b0[k], "the arguments stay as they were");
}
void spec_norms() {
  auto &a = v::any<Vec>("a");
  auto &b = v::any<Vec>("b");
  int n = static_cast<int>(a.size());
  v::assume(n >= 1);
  v::is(static_cast<int>(b.size()), n);
  v::prove(VU::ComputeTwoNorm(a) == sqrt(v::sum(n, [&](int i) { return a[i] * a[i]; })), "ComputeTwoNorm is the root of the sum of squares");
  v::prove(VU::ComputeDistance(a, b) == sqrt(v::sum(n, [&](int i) { return (a[i] - b[i]) * (a[i] - b[i]); })), "ComputeDistance is the norm of the difference");
}
void spec_cross() {
  auto &a = v::any<Vec>("a");
  auto &b = v::any<Vec>("b");
  v::assume(a.size() == 3 && b.size() == 3);
  Vec c = VU::CrossProduct(a, b);
  v::prove(c.size() == 3, "CrossProduct yields three coordinates");
  v::prove(c[0] * a[0] + c[1] * a[1] + c[2] * a[2] == 0, "CrossProduct is orthogonal to the first vector");
  v::prove(c[0] * b[0] + c[1] * b[1] + c[2] * b[2] == 0, "CrossProduct is orthogonal to the second vector");
  v::prove(c[0] == a[1] * b[2] - a[2] * b[1] && c[1] == a[2] * b[0] - a[0] * b[2] && c[2] == a[0] * b[1] - a[1] * b[0], "CrossProduct is right-handed and bilinear");
}
void spec_filter() {
  auto &a = v::any<Vec>("a");
  auto &ix = v::any<std::vector<int>>("ix");
  int n = static_cast<int>(a.size()), m = static_cast<int>(ix.size());
  int k = v::any_int("k");
  v::assume(n >= 1 && k >= 0 && k < m);
  v::assume(v::forall(m, [&](int i) { return ix[i] >= 0 && ix[i] < n; }));
  Vec r = VU::FilterVector(a, ix);
  v::prove(static_cast<int>(r.size()) == m, "FilterVector yields one element per position");
  v::prove(r[k] == a[ix[k]], "FilterVector yields the elements at the positions, in order");
}
void spec_filter_throws() {
  auto &a = v::any<Vec>("a");
  auto &ix = v::any<std::vector<int>>("ix");
  int n = static_cast<int>(a.size()), m = static_cast<int>(ix.size());
  int k = v::any_int("k");
  v::assume(n >= 0 && k >= 0 && k < m);
  v::assume(v::forall(m, [&](int i) { return ix[i] >= 0; }));
  v::assume(ix[k] >= n);
  v::prove(v::throws_a<std::runtime_error>([&] { VU::FilterVector(a, ix); }), "FilterVector refuses positions beyond the end");
}
void spec_points() {
  auto &a = v::any<baf::ControlPoint>("a");
  auto &b = v::any<baf::ControlPoint>("b");
  int n = a.GetDimension();
  v::assume(n >= 1 && b.GetDimension() == n);
  double f = v::any_real("f");
  int k = v::any_int("k");
  v::assume(k >= 0 && k < n);
  baf::ControlPoint s = a + b, d = a - b, p = a * f;
  v::prove(s.GetDimension() == n && s.GetValue(k) == a.GetValue(k) + b.GetValue(k), "points are added coordinate by coordinate");
  v::prove(d.GetDimension() == n && d.GetValue(k) == a.GetValue(k) - b.GetValue(k), "points are subtracted coordinate by coordinate");
  v::prove(p.GetDimension() == n && p.GetValue(k) == f * a.GetValue(k), "a multiple of a point scales every coordinate");
  v::prove(a.GetEuclideanNorm() == sqrt(v::sum(n, [&](int i) { return a.GetValue(i) * a.GetValue(i); })), "GetEuclideanNorm is the root of the sum of squares");
}
void spec_set() {
  auto &a = v::any<baf::ControlPoint>("a");
  int n = a.GetDimension(), k = v::any_int("k"), j = v::any_int("j");
  v::assume(k >= 0 && k < n && j >= 0 && j < n);
  baf::ControlPoint old(a);
  double x = v::any_real("x");
  a.SetValue(k, x);
  v::prove(a.GetDimension() == n, "SetValue keeps the dimension");
  v::prove(a.GetValue(j) == (j == k ? x : old.GetValue(j)), "SetValue sets this coordinate only");
  baf::ControlPoint z(static_cast<uint64_t>(n));
  v::prove(z.GetDimension() == n && z.GetValue(k) == 0, "a point of a given dimension is the origin");
}
void spec_transform() {
  auto &a = v::any<baf::ControlPoint>("a");
  v::assume(a.GetDimension() == 3);
  auto &m = v::any<std::array<std::array<double, 4>, 4>>("M");
  auto &s = v::any<std::array<double, 3>>("S");
  baf::ControlPoint t = a.Transform(m, s);
  v::prove(t.GetDimension() == 3, "a transformed point has three coordinates");
  for (int j = 0; j < 3; ++j) {
    v::prove(t.GetValue(j) == m[j][3] + m[j][0] * s[0] * a.GetValue(0) + m[j][1] * s[1] * a.GetValue(1) + m[j][2] * s[2] * a.GetValue(2),
             "Transform scales, rotates and translates");
  }
}
