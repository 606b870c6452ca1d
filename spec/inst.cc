// Explicit instantiation of every class template of the library, so that the analyses see the type-checked body of
// every member function for spline dimensions 1 to 4.
#include <array>
#include <memory>
#include <vector>
#include "b_spline.h"
#include "nurbs.h"
#include "b_spline_generator.h"
#include "nurbs_generator.h"
#include "random_b_spline_generator.h"
#include "random_nurbs_generator.h"
#include "projection.h"
#include "surface_generator.h"
#include "square_generator.h"
#include "element_generator.h"
#include "multi_index_handler.h"
#include "numeric_operations.h"
#include "numeric_settings.h"
#include "vector_utils.h"
#include "string_operations.h"

#define INST(D)                                \
  template class util::MultiIndexHandler<D>;   \
  template class spl::ParameterSpace<D>;       \
  template class spl::PhysicalSpace<D>;        \
  template class spl::WeightedPhysicalSpace<D>;\
  template class spl::Spline<D>;               \
  template class spl::BSpline<D>;              \
  template class spl::NURBS<D>;                \
  template class spl::SplineGenerator<D>;      \
  template class spl::BSplineGenerator<D>;     \
  template class spl::NURBSGenerator<D>;       \
  template class spl::RandomBSplineGenerator<D>;\
  template class spl::RandomNURBSGenerator<D>;
INST(1)
INST(2)
INST(3)
INST(4)
template class util::NumericSettings<double>;
template class util::NumericOperations<int>;
template class util::VectorUtils<double>;
template class util::ElementGenerator<1>;
template class util::ElementGenerator<2>;
auto use_projection1 = &spl::Projection<1>::ProjectionOnCurve;
auto use_projection2 = &spl::Projection<2>::ProjectionOnSurface;

// implicitly defined special members are only type-checked when used
#define USE(D)                                                              \
  void use(spl::ParameterSpace<D> &a, const spl::ParameterSpace<D> &b) { a = b; }        \
  void use(spl::PhysicalSpace<D> &a, const spl::PhysicalSpace<D> &b) { a = b; }          \
  void use(spl::WeightedPhysicalSpace<D> &a, const spl::WeightedPhysicalSpace<D> &b) { a = b; } \
  void use(spl::BSpline<D> &a, const spl::BSpline<D> &b) { a = b; }         \
  void use(spl::NURBS<D> &a, const spl::NURBS<D> &b) { a = b; }             \
  void use2(spl::BSpline<D> &a, spl::BSpline<D> &b) { a = std::move(b); }   \
  void use2(spl::NURBS<D> &a, spl::NURBS<D> &b) { a = std::move(b); }
USE(1)
USE(2)
USE(3)
USE(4)
void use(baf::KnotVector &a, const baf::KnotVector &b) { a = b; }
void use(baf::ControlPoint &a, const baf::ControlPoint &b) { a = b; }
