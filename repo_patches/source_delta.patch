From b87a63f1faf64aa8686ebcdc8587bac6957a0fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:15 +0000
Subject: [PATCH 1/9] fix: degree elevation computes every inner control point
 of a Bezier segment

The loop over the inner control points stopped one short, so point p of every
elevated segment kept its initial zero value (zero weight, NaN coordinates).
---
 src/spl/spline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 41658fb..2022f07 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -350,7 +350,7 @@ class Spline {
     for (int i = 0; i < segment_length; ++i) {
       new_cps[cp_handler_new.Get1DIndex({0, i})] = bezier_cps[cp_handler_old.Get1DIndex({0, i})];
       new_cps[cp_handler_new.Get1DIndex({width - 1, i})] = bezier_cps[cp_handler_old.Get1DIndex({width - 2, i})];
-      for (int j = 1; j < GetDegree(dimension).get(); ++j) {
+      for (int j = 1; j < width - 1; ++j) {
         new_cps[cp_handler_new.Get1DIndex({j, i})] = bezier_cps[cp_handler_old.Get1DIndex({j, i})] * (1 - alpha[j]) +
             bezier_cps[cp_handler_old.Get1DIndex({j - 1, i})] * alpha[j];
       }
-- 
2.43.0


From 83e2c8042bde761375d2666ce0a334065bc46141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:56 +0000
Subject: [PATCH 2/9] fix: copy assignment of splines and parameter spaces
 copies instead of sharing

The implicit copy assignment operators shared knot vectors, control points and
weights between both objects, so refining one spline changed the other one,
whereas the copy constructors already made independent copies.
---
 src/spl/b_spline.h        | 6 ++++++
 src/spl/nurbs.h           | 6 ++++++
 src/spl/parameter_space.h | 8 ++++++++
 src/spl/spline.h          | 5 +++++
 4 files changed, 25 insertions(+)

diff --git a/src/spl/b_spline.h b/src/spl/b_spline.h
index 9d7446c..62d214c 100644
--- a/src/spl/b_spline.h
+++ b/src/spl/b_spline.h
@@ -50,6 +50,12 @@ class BSpline : public Spline<DIM> {
     physical_space_ = std::make_shared<PhysicalSpace<DIM>>(physical_space);
   }
 
+  BSpline<DIM> &operator=(const BSpline<DIM> &bspline) {
+    Spline<DIM>::operator=(bspline);
+    physical_space_ = std::make_shared<PhysicalSpace<DIM>>(*bspline.physical_space_);
+    return *this;
+  }
+
   virtual ~BSpline() = default;
 
   bool AreEqual(const BSpline<DIM> &rhs, double tolerance = util::NumericSettings<double>::kEpsilon()) const {
diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index 712e1f3..e52f238 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -50,6 +50,12 @@ class NURBS : public Spline<DIM> {
     physical_space_ = std::make_shared<WeightedPhysicalSpace<DIM>>(weighted_physical_space);
   }
 
+  NURBS<DIM> &operator=(const NURBS<DIM> &nurbs) {
+    Spline<DIM>::operator=(nurbs);
+    physical_space_ = std::make_shared<WeightedPhysicalSpace<DIM>>(*nurbs.physical_space_);
+    return *this;
+  }
+
   NURBS(const NURBS<DIM> &nurbs, const std::vector<baf::ControlPoint> &control_points) : Spline<DIM>(nurbs) {
     WeightedPhysicalSpace<DIM>
         weighted_physical_space(control_points, nurbs.physical_space_->GetWeights(), nurbs.GetPointsPerDirection());
diff --git a/src/spl/parameter_space.h b/src/spl/parameter_space.h
index e0b6395..9fce52e 100644
--- a/src/spl/parameter_space.h
+++ b/src/spl/parameter_space.h
@@ -60,6 +60,14 @@ class ParameterSpace {
     }
   }
 
+  ParameterSpace<DIM> &operator=(const ParameterSpace<DIM> &parameter_space) {
+    ParameterSpace<DIM> copy(parameter_space);
+    knot_vector_ = copy.knot_vector_;
+    degree_ = copy.degree_;
+    basis_functions_ = copy.basis_functions_;
+    return *this;
+  }
+
   virtual ~ParameterSpace() = default;
 
   std::vector<double> EvaluateAllNonZeroBasisFunctions(int direction, ParamCoord param_coord) const {
diff --git a/src/spl/spline.h b/src/spl/spline.h
index 2022f07..dce9471 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -46,6 +46,11 @@ class Spline {
     parameter_space_ = std::make_shared<ParameterSpace<DIM>>(parameter_space);
   }
 
+  Spline<DIM> &operator=(const Spline<DIM> &spline) {
+    parameter_space_ = std::make_shared<ParameterSpace<DIM>>(*spline.parameter_space_);
+    return *this;
+  }
+
   virtual std::vector<double> Evaluate(std::array<ParamCoord, DIM> param_coord,
                                        const std::vector<int> &dimensions) const {
     this->ThrowIfParametricCoordinateOutsideKnotVectorRange(param_coord);
-- 
2.43.0


From ef0068eecc07b7b764c0895d67cfb7988578f4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:45 +0000
Subject: [PATCH 3/9] fix: geometric comparison samples the actual parameter
 range

The sample parameters started at zero instead of the first knot, so comparing
splines whose knot vectors do not start at zero either threw a range error or
compared only a part of the splines.
---
 src/spl/spline.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index dce9471..9d3ba82 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -113,8 +113,10 @@ class Spline {
     for (int i = 0; i < point_handler.Get1DLength(); ++i, ++point_handler) {
       std::array<ParamCoord, DIM> param_coord;
       for (int dim = 0; dim < DIM; ++dim) {
-        double span = GetKnotVector(dim)->GetLastKnot().get() - GetKnotVector(dim)->GetKnot(0).get();
-        param_coord[dim] = ParamCoord(span / number * point_handler[dim]);
+        double first_knot = GetKnotVector(dim)->GetKnot(0).get();
+        double last_knot = GetKnotVector(dim)->GetLastKnot().get();
+        double span = last_knot - first_knot;
+        param_coord[dim] = ParamCoord(std::min(first_knot + span / number * point_handler[dim], last_knot));
       }
       std::vector<double> evaluate_this = Evaluate(param_coord, dimensions);
       std::vector<double> evaluate_rhs = rhs.Evaluate(param_coord, dimensions);
-- 
2.43.0


From d709d5ad5310662489b25434564f8f030f56f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:45 +0000
Subject: [PATCH 4/9] fix: projection starts inside the parameter range of the
 spline

The initial parameters ignored the first knot of each direction, so projecting
on a spline whose knot vectors do not start at zero threw a range error or
started from a wrong parameter.
---
 src/spl/projection.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/spl/projection.h b/src/spl/projection.h
index 1d24fc5..f544bc0 100644
--- a/src/spl/projection.h
+++ b/src/spl/projection.h
@@ -15,6 +15,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #ifndef SRC_SPL_PROJECTION_H_
 #define SRC_SPL_PROJECTION_H_
 
+#include <algorithm>
 #include <vector>
 
 #include "b_spline.h"
@@ -85,10 +86,12 @@ class Projection {
     util::ElementGenerator<1> element_generator(spline);
     std::vector<util::Element> elements = element_generator.GetElementList(0);
     std::array<ParamCoord, DIM> paramCoords = {ParamCoord{0}};
-    std::vector<double> splinePhysicalCoords = spline->Evaluate({ParamCoord{(0.5 * (
-        elements[0].GetUpperBound() - elements[0].GetLowerBound()).get())}}, dimensions);
+    std::vector<double> splinePhysicalCoords = spline->Evaluate({ParamCoord{0.5 * (
+        elements[0].GetUpperBound() - elements[0].GetLowerBound()).get() + elements[0].GetLowerBound().get()}},
+            dimensions);
     double distance = util::VectorUtils<double>::ComputeDistance(point_phys_coords, splinePhysicalCoords);
-    paramCoords[0] = ParamCoord{{0.5 * (elements[0].GetUpperBound() - elements[0].GetLowerBound()).get()}};
+    paramCoords[0] = ParamCoord{0.5 * (
+        elements[0].GetUpperBound() - elements[0].GetLowerBound()).get() + elements[0].GetLowerBound().get()};
     for (auto i = 1u; i < elements.size(); ++i) {
       splinePhysicalCoords = spline->Evaluate({ParamCoord{0.5 * (
           elements[i].GetUpperBound() - elements[i].GetLowerBound()).get() + elements[i].GetLowerBound().get()}},
@@ -115,8 +118,10 @@ class Projection {
     double distance = util::VectorUtils<double>::ComputeDistance(point_phys_coords, physical_coords);
     for (int i = 1; i <= scattering[0]; ++i) {
       for (int j = 1; j <= scattering[1]; ++j) {
-        ParamCoord coord1 = ParamCoord(i * (last_knot1 - first_knot1) / scattering[0]);
-        ParamCoord coord2 = ParamCoord(j * (last_knot2 - first_knot2) / scattering[1]);
+        ParamCoord coord1 = ParamCoord(
+            std::min(first_knot1 + i * (last_knot1 - first_knot1) / scattering[0], last_knot1));
+        ParamCoord coord2 = ParamCoord(
+            std::min(first_knot2 + j * (last_knot2 - first_knot2) / scattering[1], last_knot2));
         physical_coords = spline->Evaluate({coord1, coord2}, dimensions);
         double current_dist = util::VectorUtils<double>::ComputeTwoNorm(util::VectorUtils<double>::ComputeDifference(
             point_phys_coords,
-- 
2.43.0


From 029e85c5a1b30910f677f89a75bd8ffdbd14b20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:45 +0000
Subject: [PATCH 5/9] fix: projection clamps every parameter to the range of
 its own direction

All parametric coordinates were clamped with the knot vector of direction 0.
---
 src/spl/projection.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/spl/projection.h b/src/spl/projection.h
index f544bc0..51826a5 100644
--- a/src/spl/projection.h
+++ b/src/spl/projection.h
@@ -145,11 +145,11 @@ class Projection {
 
   static std::array<ParamCoord, DIM> CheckParametricCoordinates(std::array<ParamCoord, DIM> param_coords,
                                                                 const std::shared_ptr<spl::Spline<DIM>> &spline) {
-    for (auto &coord : param_coords) {
-      if (coord < spline->GetKnotVector(0)->GetKnot(0)) {
-        coord = spline->GetKnotVector(0)->GetKnot(0);
-      } else if (coord > spline->GetKnotVector(0)->GetLastKnot()) {
-        coord = spline->GetKnotVector(0)->GetLastKnot();
+    for (int i = 0; i < DIM; ++i) {
+      if (param_coords[i] < spline->GetKnotVector(i)->GetKnot(0)) {
+        param_coords[i] = spline->GetKnotVector(i)->GetKnot(0);
+      } else if (param_coords[i] > spline->GetKnotVector(i)->GetLastKnot()) {
+        param_coords[i] = spline->GetKnotVector(i)->GetLastKnot();
       }
     }
     return param_coords;
-- 
2.43.0


From 7d311a7dfbe9308e8f9ab039d4c2572dd73543bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:45 +0000
Subject: [PATCH 6/9] fix: file conversion releases the reader it creates

The reader was allocated with new and never deleted.
---
 src/io/io_converter.cc | 8 ++++----
 src/io/io_converter.h  | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/io/io_converter.cc b/src/io/io_converter.cc
index a538e1f..8c11999 100644
--- a/src/io/io_converter.cc
+++ b/src/io/io_converter.cc
@@ -54,15 +54,15 @@ io::IOConverter::file_format io::IOConverter::GetFileFormat(const char *filename
   return error;
 }
 
-io::Reader *io::IOConverter::GetReader() const {
+std::unique_ptr<io::Reader> io::IOConverter::GetReader() const {
   if (input_format_ == iges) {
-    return new io::IGESReader;
+    return std::make_unique<io::IGESReader>();
   }
   if (input_format_ == irit) {
-    return new io::IRITReader;
+    return std::make_unique<io::IRITReader>();
   }
   if (input_format_ == xml) {
-    return new io::XMLReader;
+    return std::make_unique<io::XMLReader>();
   }
   throw std::runtime_error(R"(Only files of format ".iges", ".itd" and ".xml" can be read.)");
 }
diff --git a/src/io/io_converter.h b/src/io/io_converter.h
index 88ee4a5..f329198 100644
--- a/src/io/io_converter.h
+++ b/src/io/io_converter.h
@@ -16,6 +16,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #define SRC_IO_IO_CONVERTER_H_
 
 #include <any>
+#include <memory>
 #include <string>
 #include <vector>
 
@@ -44,7 +45,7 @@ class IOConverter {
  private:
   file_format GetFileFormat(const char *filename) const;
 
-  io::Reader *GetReader() const;
+  std::unique_ptr<io::Reader> GetReader() const;
   void GetWriter(const std::vector<std::any> &splines, const std::vector<int> &positions,
                  const std::vector<std::vector<int>> &scattering);
   void WriteFile(const std::vector<std::any> &splines, const std::vector<int> &positions, int max_dim,
-- 
2.43.0


From ceb1338eb481ad3dd951db0cb48a200eacc28336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:45 +0000
Subject: [PATCH 7/9] fix: repeated conversions with one converter start from
 an empty selection

The positions selected by an earlier conversion were kept and written again.
---
 src/io/io_converter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/io_converter.cc b/src/io/io_converter.cc
index 8c11999..80ed423 100644
--- a/src/io/io_converter.cc
+++ b/src/io/io_converter.cc
@@ -100,6 +100,7 @@ void io::IOConverter::GetPositions(const std::vector<int> &positions,
   if (positions.empty()) {
     written_ = possible_positions;
   } else {
+    written_.clear();
     for (const auto &pos : positions) {
       if (std::find(possible_positions.begin(), possible_positions.end(), pos) != possible_positions.end()) {
         written_.emplace_back(pos);
-- 
2.43.0


From 38698d9040bdc4b69420f137d387d0eac62e5b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:26 +0000
Subject: [PATCH 8/9] fix: IGES surfaces are read without going beyond the
 parameter data

The number of coordinates of a surface is 3 (K1+1)(K2+1); the reader copied
two elements more, which lie beyond the end of the data when nothing follows
the control points (as in the files of IGESWriter), and skipped them later.
---
 src/io/iges_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/iges_reader.cc b/src/io/iges_reader.cc
index 9082e2a..d05b984 100644
--- a/src/io/iges_reader.cc
+++ b/src/io/iges_reader.cc
@@ -120,7 +120,7 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   weightsStartEnd[0] = knotsStartEnd[1][1] + 1;
   weightsStartEnd[1] = weightsStartEnd[0] - 1 + ((1 + upperSumIndex[0]) * (1 + upperSumIndex[1]));
   controlPointsStartEnd[0] = weightsStartEnd[1] + 1;
-  controlPointsStartEnd[1] = controlPointsStartEnd[0] - 1 + (3 * (1 + upperSumIndex[0]) * (1 + upperSumIndex[1])) + 2;
+  controlPointsStartEnd[1] = controlPointsStartEnd[0] - 1 + (3 * (1 + upperSumIndex[0]) * (1 + upperSumIndex[1]));
   std::array<std::vector<ParamCoord>, 2> knots;
   for (int i = knotsStartEnd[0][0]; i <= knotsStartEnd[0][1]; ++i) {
     knots[0].push_back(ParamCoord{parameterData[i]});
@@ -137,7 +137,7 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   for (int i = controlPointsStartEnd[0]; i <= controlPointsStartEnd[1]; ++i) {
     controlPointCoordinates.push_back(parameterData[i]);
   }
-  for (auto i = 0u; i < controlPointCoordinates.size() - 2; i += 3) {
+  for (auto i = 0u; i < controlPointCoordinates.size(); i += 3) {
     control_points.push_back(baf::ControlPoint({controlPointCoordinates[i],
                                                 controlPointCoordinates[i + 1],
                                                 controlPointCoordinates[i + 2]}));
-- 
2.43.0


From d8e6e8bf4bb1b776fa3432d11f6b26f34196ec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:01 +0000
Subject: [PATCH 9/9] fix: constructing a spline without control points is
 refused instead of reading the first one

---
 src/spl/physical_space.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spl/physical_space.h b/src/spl/physical_space.h
index 5814e76..ce5f9d0 100644
--- a/src/spl/physical_space.h
+++ b/src/spl/physical_space.h
@@ -30,7 +30,8 @@ class PhysicalSpace {
   PhysicalSpace() = default;
   virtual ~PhysicalSpace() = default;
   PhysicalSpace(const std::vector<baf::ControlPoint> &control_points, std::array<int, DIM> number_of_points)
-      : dimension_(control_points[0].GetDimension()), number_of_points_(number_of_points) {
+      : dimension_(control_points.empty() ? 0 : control_points[0].GetDimension()),
+        number_of_points_(number_of_points) {
     uint64_t total_number_of_points = 1;
     for (int dim = 0; dim < DIM; dim++) {
       total_number_of_points *= number_of_points[dim];
-- 
2.43.0

