From dab0a133ddb93ab4b99b628c51edcf39966d9690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:16 +0000
Subject: [PATCH 01/36] fix: derivative splines of higher order than the degree
 are zero

The degree underflowed and the control points were accessed out of bounds.
---
 src/bezier_spline.inc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 62a5ebb..c63596e 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -243,6 +243,21 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
         return result + "]";
       }(orders));
 
+  // Differentiating more often than the degree permits results in the zero
+  // function, which is returned with the lowest degrees that are left
+  bool exceeds_degree = false;
+  auto zero_degrees = degrees;
+  for (IndexingType i_para_dim{}; i_para_dim < parametric_dimension;
+       i_para_dim++) {
+    exceeds_degree =
+        exceeds_degree || (orders[i_para_dim] > degrees[i_para_dim]);
+    zero_degrees[i_para_dim] -=
+        std::min(orders[i_para_dim], degrees[i_para_dim]);
+  }
+  if (exceeds_degree) {
+    return BezierSpline{zero_degrees};
+  }
+
   // Create a copy of the new degrees which will be updated in every iteration
   auto new_degrees = degrees;
   // Create a copy of control points (later be used for in place operations)
-- 
2.43.0


From fb86e82365a7ce6151a5e23e47063633aad4c934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 02/36] fix: subtraction of a spline of higher degree does not
 terminate

The loops compared the degrees of the minuend, which never change, instead
of those of the elevated copy.
---
 src/bezier_spline.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index c63596e..ddf2b2a 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -671,13 +671,13 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-(
   // Increase the order of return_spline to be greater or equal to the
   // RHSs order
   for (IndexingType par_dim{0}; par_dim < parametric_dimension; par_dim++) {
-    while (rhs.GetDegrees()[par_dim] > degrees[par_dim]) {
+    while (rhs.GetDegrees()[par_dim] > return_spline.GetDegrees()[par_dim]) {
       return_spline.OrderElevateAlongParametricDimension(par_dim);
     }
   }
   // Do the same thing to the rhs
   for (IndexingType par_dim{0}; par_dim < parametric_dimension; par_dim++) {
-    while (rhs.GetDegrees()[par_dim] < degrees[par_dim]) {
+    while (rhs.GetDegrees()[par_dim] < return_spline.GetDegrees()[par_dim]) {
       rhs.OrderElevateAlongParametricDimension(par_dim);
     }
   }
-- 
2.43.0


From 1fa1d589063a697b37ff3225fc992524f00af6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 03/36] fix: shifting or scaling a spline by one of its own
 control points

The argument was overwritten while it was still in use.
---
 src/bezier_spline.inc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index ddf2b2a..688f1f6 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -517,8 +517,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator*=(
     const ScalarType& scalar) {
+  // Copy, as the argument might refer to (a component of) a control point
+  const ScalarType factor{scalar};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] *= scalar;
+    control_points[i] *= factor;
   }
   return (*this);
 }
@@ -528,8 +530,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator+=(
     const PhysicalPointType& point_shift) {
+  // Copy, as the argument might refer to one of the control points
+  const PhysicalPointType shift{point_shift};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] += point_shift;
+    control_points[i] += shift;
   }
   return (*this);
 }
@@ -549,8 +553,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-=(
     const PhysicalPointType& point_shift) {
+  // Copy, as the argument might refer to one of the control points
+  const PhysicalPointType shift{point_shift};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] -= point_shift;
+    control_points[i] -= shift;
   }
   return (*this);
 }
-- 
2.43.0


From 4e6cc36cd1aa68945cf3044787ec0e937f717b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 04/36] fix: subtraction of a spline of higher degree skips
 control points

Only as many control points as the minuend had before its order elevation
were subtracted.
---
 src/bezier_spline.inc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 688f1f6..f6b565c 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -688,7 +688,8 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-(
     }
   }
   // Add control points
-  for (IndexingType i_ctps{}; i_ctps < GetNumberOfControlPoints(); i_ctps++) {
+  for (IndexingType i_ctps{}; i_ctps < return_spline.GetNumberOfControlPoints();
+       i_ctps++) {
     return_spline.control_points[i_ctps] -= rhs.control_points[i_ctps];
   }
   return return_spline;
-- 
2.43.0


From 6c3cd9a33d1fbfc5e1636fb8c7fd13abc6d4a756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 05/36] fix: composition with a list of inner splines does not
 compile

The unit cube check was called on the list instead of its elements, and
scalar valued inner splines were not accepted.
---
 src/bezier_spline.inc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index f6b565c..8df685c 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -1080,17 +1080,23 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::Compose(
   ReturnType composition_group;
   composition_group.reserve(number_of_splines);
 
-  // Check if the inner function fits into the unit cube
-  if (!inner_function_group.FitsIntoUnitCube()) {
-    utils::Logger::TerminatingError(
-        "Inner function must fit unit cube to "
-        "perform composition");
+  // Check if the inner functions fit into the unit cube
+  for (IndexingType i_spline{}; i_spline < number_of_splines; i_spline++) {
+    if (!inner_function_group[i_spline].FitsIntoUnitCube()) {
+      utils::Logger::TerminatingError(
+          "Inner function must fit unit cube to "
+          "perform composition");
+    }
   }
 
-  // Check Dimensions
-  static_assert(
-      SplineType::PhysicalPointType_::kSpatialDimension == parametric_dimension,
-      "Dimension mismatch");
+  // Check Dimensions (Scalar Value splines to be treaded as kSpDim = 1)
+  if constexpr (std::is_arithmetic_v<typename SplineType::PhysicalPointType_>) {
+    static_assert(parametric_dimension == 1, "Dimension mismatch");
+  } else {
+    static_assert(SplineType::PhysicalPointType_::kSpatialDimension ==
+                      parametric_dimension,
+                  "Dimension mismatch");
+  }
 
   for (IndexingType i_spline{}; i_spline < number_of_splines; i_spline++) {
     composition_group.push_back(Compose(inner_function_group[i_spline]));
-- 
2.43.0


From 4959952e0454b670f62f72b896281b6c41586405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 06/36] fix: rational control point access with several indices

The fold over the comma operator discarded all indices but the last.
---
 src/rational_bezier_spline.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 9378e1a..5c00fe7 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -31,7 +31,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType,
   static_assert(sizeof...(T) == parametric_dimension,
                 "Unspecified number of indices.");
   const std::array<IndexingType, parametric_dimension> indices{
-      (static_cast<IndexingType>(index), ...)};
+      static_cast<IndexingType>(index)...};
   return ControlPoint(indices);
 }
 
-- 
2.43.0


From ddc21be988738ce857d0e77861089760d26d889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:46 +0000
Subject: [PATCH 07/36] fix: rational ForwardEvaluate lacks the division by the
 weight function

---
 src/rational_bezier_spline.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 5c00fe7..7ea2614 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -201,8 +201,8 @@ constexpr PhysicalPointType RationalBezierSpline<
   // Check sanity
   assert(CheckSplineCompatibility());
 
-  // Evaluiere Basis Functions
-  const auto factors = weighted_spline_.BasisFunctions(par_coords);
+  // Evaluate Basis Functions (divided by the weight function)
+  const auto factors = UnweightedBasisFunctions(par_coords);
 
   // Initialize values
   PhysicalPointType evaluation_point{};
-- 
2.43.0


From c1101837d1767f7b6d32ee736bffbefe596de194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:52 +0000
Subject: [PATCH 08/36] fix: rational-rational composition accepts inner
 splines outside the unit cube

---
 src/rational_bezier_spline.hpp | 6 ++++++
 src/rational_bezier_spline.inc | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/src/rational_bezier_spline.hpp b/src/rational_bezier_spline.hpp
index 8689289..c959026 100644
--- a/src/rational_bezier_spline.hpp
+++ b/src/rational_bezier_spline.hpp
@@ -511,6 +511,12 @@ class RationalBezierSpline {
   Compose(const RationalBezierSpline<parametric_dimension_inner_spline,
                                      PointTypeRHS, ScalarRHS>& inner_function)
       const {
+    // Check if the inner function fits into the unit cube
+    if (!inner_function.FitsIntoUnitCube()) {
+      utils::Logger::TerminatingError(
+          "Inner function must fit unit cube to "
+          "perform composition");
+    }
     return RationalBezierSpline<parametric_dimension_inner_spline,
                                 PhysicalPointType,
                                 decltype(ScalarType_{} * ScalarRHS{})>{
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 7ea2614..5a8229f 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -785,6 +785,13 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
                            decltype(ScalarType_{} * ScalarRHS{}),
                            decltype(ScalarType_{} * ScalarRHS{})>;
 
+  // Check if the inner function fits into the unit cube
+  if (!inner_function.FitsIntoUnitCube()) {
+    utils::Logger::TerminatingError(
+        "Inner function must fit unit cube to "
+        "perform composition");
+  }
+
   // Precompute numerators
   const auto &numerator_derivatives =
       weighted_spline_.ComposeNumeratorSensitivity(inner_function);
-- 
2.43.0


From 1d2ea4521a459294c5f848031cdb241f215f805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:46 +0000
Subject: [PATCH 09/36] fix: rational derivative spline along a direction of
 degree zero

The derivative of a degree zero direction keeps its degree, so elevating the
numerator unconditionally left it one degree above the weight function.
---
 src/rational_bezier_spline.inc | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 5a8229f..1752cd2 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -528,18 +528,24 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     std::array<IndexingType, parametric_dimension> order_{};
     order_[i_para_dim]++;
     for (IndexingType i_order{}; i_order < orders[i_para_dim]; i_order++) {
-      derivative = RationalBezierSpline(
-          // u' * w - w' * u
-          ((derivative.GetNumeratorSpline().DerivativeWRTParametricDimension(
-                order_) *
-            derivative.GetWeightFunctionSpline()) -
-           (derivative.GetWeightFunctionSpline()
-                .DerivativeWRTParametricDimension(order_) *
-            derivative.GetNumeratorSpline()))
-              .OrderElevateAlongParametricDimension(i_para_dim),
-          // v^2
+      // u' * w - w' * u
+      PolynomialBezier numerator{
+          (derivative.GetNumeratorSpline().DerivativeWRTParametricDimension(
+               order_) *
+           derivative.GetWeightFunctionSpline()) -
+          (derivative.GetWeightFunctionSpline()
+               .DerivativeWRTParametricDimension(order_) *
+           derivative.GetNumeratorSpline())};
+      // w^2
+      const PolynomialScalarBezier denominator{
           derivative.GetWeightFunctionSpline() *
-              derivative.GetWeightFunctionSpline());
+          derivative.GetWeightFunctionSpline()};
+      // Match the degrees (they already do along dimensions with degree zero)
+      if (numerator.GetDegrees()[i_para_dim] <
+          denominator.GetDegrees()[i_para_dim]) {
+        numerator.OrderElevateAlongParametricDimension(i_para_dim);
+      }
+      derivative = RationalBezierSpline(numerator, denominator);
     }
   }
   return derivative;
-- 
2.43.0


From 599afdd8384d9acbbdf65a64480dda8cd9375f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:52 +0000
Subject: [PATCH 10/36] fix: shifting a rational spline by one of its own
 weighted control points

---
 src/rational_bezier_spline.inc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 1752cd2..7dc6379 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -580,11 +580,13 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
                                ScalarType>
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator+=(const PhysicalPointType &point_shift) {
+  // Copy, as point_shift might refer to one of the weighted control points
+  const PhysicalPointType shift{point_shift};
   // Add up contributions to control points with weights
   for (IndexingType i_ctps{};
        i_ctps < weighted_spline_.GetNumberOfControlPoints(); i_ctps++) {
     weighted_spline_.control_points[i_ctps] +=
-        point_shift * weight_function_.control_points[i_ctps];
+        shift * weight_function_.control_points[i_ctps];
   }
   // Check sanity
   assert(CheckSplineCompatibility());
@@ -609,11 +611,13 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
                                ScalarType>
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator-=(const PhysicalPointType &point_shift) {
+  // Copy, as point_shift might refer to one of the weighted control points
+  const PhysicalPointType shift{point_shift};
   // Add up contributions to control points with weights
   for (IndexingType i_ctps{};
        i_ctps < weighted_spline_.GetNumberOfControlPoints(); i_ctps++) {
     weighted_spline_.control_points[i_ctps] -=
-        point_shift * weight_function_.control_points[i_ctps];
+        shift * weight_function_.control_points[i_ctps];
   }
   return (*this);
 }
-- 
2.43.0


From e28660720bdc9dac0b85643eb0bdf47e5ce2573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 11/36] fix: fitting a spline with a flat component into the
 unit cube divides by zero

---
 src/bezier_spline.inc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 8df685c..3758533 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -858,12 +858,18 @@ BezierSpline<parametric_dimension, PhysicalPointType,
   const auto maximum_corner = MaximumCorner();
   const auto minimum_corner = MinimumCorner();
   auto scale_vector = maximum_corner - minimum_corner;
+  // Components without any extent can not be stretched
+  const auto invert_extent = [](const ScalarType& extent) -> ScalarType {
+    return (extent > static_cast<ScalarType>(0))
+               ? static_cast<ScalarType>(1) / extent
+               : static_cast<ScalarType>(1);
+  };
   if constexpr (std::is_scalar_v<PhysicalPointType>) {
-    scale_vector = static_cast<ScalarType>(1) / scale_vector;
+    scale_vector = invert_extent(scale_vector);
   } else {
     for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
          i_dim++) {
-      scale_vector[i_dim] = static_cast<ScalarType>(1) / scale_vector[i_dim];
+      scale_vector[i_dim] = invert_extent(scale_vector[i_dim]);
     }
   }
   return TransposeAndScale(-minimum_corner, scale_vector);
-- 
2.43.0


From 9e42f226b9141630a9ffe10aef0b58297d5bda19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:08 +0000
Subject: [PATCH 12/36] fix: transposing and scaling a spline by its own
 control points

---
 src/bezier_spline.inc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 3758533..1e451d5 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -835,15 +835,17 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
                       const PhysicalPointType& scale_vector) {
   utils::Logger::ExtendedInformation(
       "Starting scaling and transposing spline to move bounds");
+  // Copy, as the arguments might refer to control points of this spline
+  const PhysicalPointType shift{transposition};
+  const PhysicalPointType scale{scale_vector};
   for (IndexingType i{}; i < GetNumberOfControlPoints(); i++) {
     if constexpr (std::is_scalar_v<PhysicalPointType>) {
-      control_points[i] = (transposition + control_points[i]) * scale_vector;
+      control_points[i] = (shift + control_points[i]) * scale;
     } else {
       for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
            i_dim++) {
         control_points[i][i_dim] =
-            (transposition[i_dim] + control_points[i][i_dim]) *
-            scale_vector[i_dim];
+            (shift[i_dim] + control_points[i][i_dim]) * scale[i_dim];
       }
     }
   }
-- 
2.43.0


From 6ed3c4e5662628390d02b543a701f8490c1be7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 13/36] fix: power zero of a differentiated variable with value
 zero is NaN

---
 .../computational_differentiation/algo_diff_type.inc      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index 9eb3385..e80bade 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -261,14 +261,20 @@ template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives> pow(
     const AlgoDiffType<Scalar, numberOfDerivatives>& base,
     const Scalar& power) {
+  AlgoDiffType<Scalar, numberOfDerivatives> result_value{base};
   Scalar tmp;
   if constexpr (std::is_arithmetic_v<Scalar>) {
+    if (power == Scalar{}) {
+      // x^0 is constant, also where x^(-1) is not defined
+      result_value.v_ = static_cast<Scalar>(1);
+      std::fill(result_value.d_.begin(), result_value.d_.end(), Scalar{});
+      return result_value;
+    }
     // Use STD namespace function
     tmp = std::pow(base.v_, power - 1.0);
   } else {
     tmp = pow(base.v_, power - 1.0);
   }
-  AlgoDiffType<Scalar, numberOfDerivatives> result_value{base};
   result_value.v_ *= tmp;
   for (std::size_t i{}; i < base.GetNumberOfDerivatives(); i++) {
     result_value.d_[i] *= power * tmp;
-- 
2.43.0


From 73982dd38d864037cda145bb8795bddb47a48887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:20 +0000
Subject: [PATCH 14/36] fix: atan of single precision differentiation type does
 not compile

---
 src/utils/computational_differentiation/algo_diff_type.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index e80bade..dd2f6d7 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -448,7 +448,7 @@ template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives> atan(
     const AlgoDiffType<Scalar, numberOfDerivatives>& rad) {
   AlgoDiffType<Scalar, numberOfDerivatives> result_value{rad};
-  const Scalar auxiliary_value{1. / (1. + rad.v_ * rad.v_)};
+  const Scalar auxiliary_value = 1. / (1. + rad.v_ * rad.v_);
   if constexpr (std::is_arithmetic_v<Scalar>) {
     // Use STD namespace function
     result_value.v_ = std::atan(rad.v_);
-- 
2.43.0


From a47fce121b2d82e6791c421e091198fa035ae007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:25 +0000
Subject: [PATCH 15/36] fix: log10 derivative is limited to double precision

---
 src/utils/computational_differentiation/algo_diff_type.inc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index dd2f6d7..623caaf 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -330,12 +330,15 @@ template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives> log10(
     const AlgoDiffType<Scalar, numberOfDerivatives>& a) {
   using namespace std;  // requ ired for intrinsic types
-  const Scalar& temp = 1.0 / (a.v_ * std::log(10.));
+  Scalar temp;
   AlgoDiffType<Scalar, numberOfDerivatives> result_value{a};
   if constexpr (std::is_arithmetic_v<Scalar>) {
+    // Constant in the precision of the intrinsic type
+    temp = 1.0 / (a.v_ * std::log(static_cast<Scalar>(10)));
     // Use STD namespace function
     result_value.v_ = std::log10(a.v_);
   } else {
+    temp = 1.0 / (a.v_ * std::log(10.));
     result_value.v_ = log10(a.v_);
   }
   for (std::size_t i{}; i < a.GetNumberOfDerivatives(); i++) {
-- 
2.43.0


From b4a313d79832f0c2d2d332529ec43a4d386fbad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:46 +0000
Subject: [PATCH 16/36] fix: inverse sine, inverse cosine and scalar division
 of nested differentiation types

---
 .../computational_differentiation/algo_diff_type.inc      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index 623caaf..6dd5136 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -185,7 +185,7 @@ AlgoDiffType<Scalar, numberOfDerivatives>::operator/(const Scalar& b) const {
 template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives>&
 AlgoDiffType<Scalar, numberOfDerivatives>::operator/=(const Scalar& b) {
-  const Scalar inverse_b{1 / b};
+  const Scalar inverse_b = 1. / b;
   v_ *= inverse_b;
   for (IndexingType_ i{}; i < GetNumberOfDerivatives(); i++) {
     d_[i] *= inverse_b;
@@ -419,8 +419,8 @@ constexpr AlgoDiffType<Scalar, numberOfDerivatives> acos(
     auxiliary_value = -1. / std::sqrt(1 - rad.v_ * rad.v_);
     result_value.v_ = std::acos(rad.v_);
   } else {
-    auxiliary_value = -1. / sqrt(1 - rad.v_ * rad.v_);
-    result_value.v_ = cos(rad.v_);
+    auxiliary_value = -1. / sqrt(1. - rad.v_ * rad.v_);
+    result_value.v_ = acos(rad.v_);
   }
   for (std::size_t i{}; i < rad.GetNumberOfDerivatives(); i++) {
     result_value.d_[i] *= auxiliary_value;
@@ -438,7 +438,7 @@ constexpr AlgoDiffType<Scalar, numberOfDerivatives> asin(
     auxiliary_value = 1. / std::sqrt(1 - rad.v_ * rad.v_);
     result_value.v_ = std::asin(rad.v_);
   } else {
-    auxiliary_value = 1. / std::sqrt(1 - rad.v_ * rad.v_);
+    auxiliary_value = 1. / sqrt(1. - rad.v_ * rad.v_);
     result_value.v_ = asin(rad.v_);
   }
   for (std::size_t i{}; i < rad.GetNumberOfDerivatives(); i++) {
-- 
2.43.0


From 4010b51db14fe2ddf9be904f76643568d9bd6ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:46 +0000
Subject: [PATCH 17/36] fix: base64 encoding reads beyond the end of the data

---
 src/utils/base64.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/base64.hpp b/src/utils/base64.hpp
index 1ba3576..5356380 100644
--- a/src/utils/base64.hpp
+++ b/src/utils/base64.hpp
@@ -88,7 +88,7 @@ class Base64_ {
       std::enable_if_t<!type_traits::isPoint_v<BaseType>, void*> = nullptr>
   static std::string Encode(const std::vector<BaseType>& data_vector) {
     const ByteRepresentation* vector_as_bytes =
-        reinterpret_cast<const ByteRepresentation*>(&data_vector[0]);
+        reinterpret_cast<const ByteRepresentation*>(data_vector.data());
 
     // Number of bytes for an entry
     constexpr const std::size_t length_of_entry{sizeof(BaseType{})};
@@ -113,10 +113,10 @@ class Base64_ {
       buffer[0] = buffer_index < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 0]
                       : 0;
-      buffer[1] = buffer_index < minimum_n_bytes_required
+      buffer[1] = buffer_index + 1 < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 1]
                       : 0;
-      buffer[2] = buffer_index < minimum_n_bytes_required
+      buffer[2] = buffer_index + 2 < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 2]
                       : 0;
 
-- 
2.43.0


From a7a815843d79115de4f71871aebe6cc1e15de997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:49 +0000
Subject: [PATCH 18/36] fix: base64 decoding writes beyond the result and adds
 elements for padding

---
 src/utils/base64.hpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/utils/base64.hpp b/src/utils/base64.hpp
index 5356380..528c2a3 100644
--- a/src/utils/base64.hpp
+++ b/src/utils/base64.hpp
@@ -204,14 +204,25 @@ class Base64_ {
     // Init return value
     const std::size_t number_of_groups{base64string.size() / 4};
     constexpr const std::size_t length_of_entry{sizeof(OutputType{})};
-    const std::size_t number_of_output_values{(number_of_groups * 3) /
-                                              length_of_entry};
+    // Padding characters at the end of the string represent no bytes
+    std::size_t number_of_padding_chars{};
+    while (number_of_padding_chars < 2 &&
+           number_of_padding_chars < base64string.size() &&
+           base64string[base64string.size() - number_of_padding_chars - 1] ==
+               '=') {
+      number_of_padding_chars++;
+    }
+    const std::size_t number_of_output_values{
+        (number_of_groups * 3 - number_of_padding_chars) / length_of_entry};
+    // Bytes beyond the last complete value are not part of the output
+    const std::size_t number_of_output_bytes{number_of_output_values *
+                                             length_of_entry};
     std::vector<OutputType> return_value;
     return_value.resize(number_of_output_values);
 
     // Access as byte stream
     ByteRepresentation* vector_as_bytes =
-        reinterpret_cast<ByteRepresentation*>(&return_value[0]);
+        reinterpret_cast<ByteRepresentation*>(return_value.data());
 
     // Start the reverse process
     for (std::size_t i_group{}; i_group < number_of_groups; i_group++) {
@@ -219,21 +230,21 @@ class Base64_ {
       std::array<unsigned, 4> buffer{};
       for (unsigned i{}; i < 4; i++) {
         buffer[i] = base64string[buffer_index + i] != '='
-                        ? char_decode_table[static_cast<unsigned>(
+                        ? char_decode_table[static_cast<ByteRepresentation>(
                               base64string[buffer_index + i])]
                         : 255;
       }
 
       // Write bytes
-      if (buffer[1] != 255) {
+      if (buffer[1] != 255 && i_group * 3 < number_of_output_bytes) {
         vector_as_bytes[i_group * 3] =
             ((buffer[0] & 0x3f) << 2) + ((buffer[1] & 0x30) >> 4);
       }
-      if (buffer[2] != 255) {
+      if (buffer[2] != 255 && i_group * 3 + 1 < number_of_output_bytes) {
         vector_as_bytes[i_group * 3 + 1] =
             ((buffer[1] & 0x0f) << 4) + ((buffer[2] & 0x3c) >> 2);
       }
-      if (buffer[3] != 255) {
+      if (buffer[3] != 255 && i_group * 3 + 2 < number_of_output_bytes) {
         vector_as_bytes[i_group * 3 + 2] =
             ((buffer[2] & 0x03) << 6) + ((buffer[3] & 0x3f) >> 0);
       }
-- 
2.43.0


From 5a2ee7aca4f634198af6491ca8f8bcfa23ea45b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:41 +0000
Subject: [PATCH 19/36] fix: scaling a point by one of its own components

---
 src/point.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/point.hpp b/src/point.hpp
index 8a2f8e4..b918da7 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -107,7 +107,9 @@ class Point : public std::array<BaseType, spatial_dimension> {
 
   /// Multiplication with a scalar
   constexpr Point& operator*=(const BaseType& scale) {
-    for (unsigned int i = 0; i < spatial_dimension; ++i) (*this)[i] *= scale;
+    // scale might be one of the components of this point
+    const BaseType factor{scale};
+    for (unsigned int i = 0; i < spatial_dimension; ++i) (*this)[i] *= factor;
     return (*this);
   }
 
-- 
2.43.0


From 2a702d6e0fec5766a6b24cf3c9409ad063ce79d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:48 +0000
Subject: [PATCH 20/36] fix: scalar factors on the left of a point are limited
 to double

---
 src/point.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/point.hpp b/src/point.hpp
index b918da7..0365a86 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -121,7 +121,7 @@ class Point : public std::array<BaseType, spatial_dimension> {
   }
 
   /// Friend injection for reversed arguments (facilitates readability)
-  friend constexpr Point operator*(const double& scale, const Point& point) {
+  friend constexpr Point operator*(const BaseType& scale, const Point& point) {
     return point * scale;
   }
 
@@ -140,7 +140,7 @@ class Point : public std::array<BaseType, spatial_dimension> {
   }
 
   /// Friend injection for reversed arguments (facilitates readability)
-  friend constexpr Point operator/(const double& scale, const Point& point) {
+  friend constexpr Point operator/(const BaseType& scale, const Point& point) {
     Point<spatial_dimension, BaseType> division{};
     for (unsigned int i = 0; i < spatial_dimension; ++i)
       division[i] = scale / point[i];
-- 
2.43.0


From 67b11754efe1927d70de16a6a9ac197434be38f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 21/36] fix: norm of points of differentiated scalars does not
 compile

---
 src/point.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/point.hpp b/src/point.hpp
index 0365a86..5f8127f 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -170,7 +170,8 @@ class Point : public std::array<BaseType, spatial_dimension> {
 
   /// Calculate norm
   BaseType EuclidianNorm() const {
-    return std::sqrt((*this).SquaredEuclidianNorm());
+    using std::sqrt;  // other scalar types provide their own
+    return sqrt((*this).SquaredEuclidianNorm());
   }
 
   /// Facilitate User Output
-- 
2.43.0


From 74b1eeb4a6cda5e2409b98498ca4297c042da550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 22/36] fix: division of integer points multiplies by zero

---
 src/point.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/point.hpp b/src/point.hpp
index 5f8127f..a5b709f 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -127,8 +127,9 @@ class Point : public std::array<BaseType, spatial_dimension> {
 
   /// Division with a scalar
   constexpr Point& operator/=(const BaseType& scale) {
-    const BaseType inv_scale{static_cast<BaseType>(1.) / scale};
-    (*this) *= inv_scale;
+    // scale might be one of the components of this point
+    const BaseType divisor{scale};
+    for (unsigned int i = 0; i < spatial_dimension; ++i) (*this)[i] /= divisor;
     return (*this);
   }
 
-- 
2.43.0


From c7eea443b9ae3c6fc949b818426be63fa87efc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:48 +0000
Subject: [PATCH 23/36] fix: integer powers of types other than int

---
 src/utils/algorithms/int_power.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/algorithms/int_power.hpp b/src/utils/algorithms/int_power.hpp
index f3f627f..2d95923 100644
--- a/src/utils/algorithms/int_power.hpp
+++ b/src/utils/algorithms/int_power.hpp
@@ -25,6 +25,8 @@ SOFTWARE.
 #ifndef UTILS_ALGORITHMS_INT_POWER_HPP
 #define UTILS_ALGORITHMS_INT_POWER_HPP
 
+#include <type_traits>
+
 namespace bezman::utils::algorithms {
 
 /**
@@ -37,7 +39,7 @@ constexpr IntegralType IntPower(const IntegralType& base,
   if (power == 0) return 1;
   if (power == 1) return base;
 
-  int tmp = IntPower(base, power / 2);
+  const IntegralType tmp = IntPower<IntegralType>(base, power / 2);
   if ((power % 2) == 0) {
     return tmp * tmp;
   } else {
-- 
2.43.0


From 17700f95d151f30985a0bf9154e7a4650ed2323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:16 +0000
Subject: [PATCH 24/36] fix: log messages before a critical error are erased by
 the next message

---
 src/utils/logger.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index a74c5a9..a678531 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -310,8 +310,9 @@ class Logger {
                  << "]" << GetTimeStamp_() << " : " << error_text << "\n";
     }
 #endif
-    // Close file streams in order to save error files
-    close();
+    // Write all messages, so that they are not lost if the program terminates.
+    // The files stay open, as opening them again would erase these messages
+    flush();
     // Throw exception
     throw ExceptionType(error_text);
   }
@@ -354,6 +355,15 @@ class Logger {
 #endif
   }
 
+  /// Write all messages to the files
+  void flush() {
+#ifdef ENABLE_LOGGING
+    log_file.flush();
+    warning_file.flush();
+    error_file.flush();
+#endif
+  }
+
   /// Close File-Streams to save log files
   void close() {
 #ifdef ENABLE_LOGGING
-- 
2.43.0


From 3d4277e11a12a7c77496b2c602c86628cf186c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:04 +0000
Subject: [PATCH 25/36] fix: messages of concurrent threads race

---
 src/utils/logger.hpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index a678531..d2e75fb 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -29,6 +29,7 @@ SOFTWARE.
 #include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <mutex>
 #include <stdexcept>
 #include <string>
 
@@ -154,7 +155,6 @@ class Logger {
    */
   static Logger& Get() {
     static Logger singleton_instance;
-    singleton_instance.init();
     return singleton_instance;
   }
 
@@ -166,6 +166,7 @@ class Logger {
    * of all chosen enum objects, see OutputLevel
    */
   void SetOutputLevel_(unsigned int outputlevel) {
+    const std::lock_guard<std::mutex> lock{mutex_};
     outputlevel_ = outputlevel;
     init();
   }
@@ -180,6 +181,7 @@ class Logger {
    */
   void SetOutputLevel_(
       const std::initializer_list<OutputLevel>& output_options) {
+    const std::lock_guard<std::mutex> lock{mutex_};
     outputlevel_ = 0;
     for (auto i_option = output_options.begin();
          i_option != output_options.end(); ++i_option) {
@@ -196,6 +198,8 @@ class Logger {
    */
   void Warning_([[maybe_unused]] const std::string& warning_text) {
 #ifdef ENABLE_LOGGING
+    const std::lock_guard<std::mutex> lock{mutex_};
+    init();
     if (static_cast<unsigned>(OutputLevel::warnings) & outputlevel_) {
       std::cout << "[" << std::setw(padding_first_col_console)
                 << ColorText("warning", Color::yellow) << "]" << GetTimeStamp_()
@@ -216,6 +220,8 @@ class Logger {
    */
   void UserInfo_([[maybe_unused]] const std::string& info_text) {
 #ifdef ENABLE_LOGGING
+    const std::lock_guard<std::mutex> lock{mutex_};
+    init();
     if (static_cast<unsigned>(OutputLevel::userinfo) & outputlevel_) {
       std::cout << "[" << std::setw(padding_first_col_console)
                 << ColorText("user info", Color::blue) << "]" << GetTimeStamp_()
@@ -236,6 +242,8 @@ class Logger {
    */
   void Logging_([[maybe_unused]] const std::string& log_text) {
 #ifdef ENABLE_LOGGING
+    const std::lock_guard<std::mutex> lock{mutex_};
+    init();
     if (static_cast<unsigned>(OutputLevel::logging) & outputlevel_) {
       std::cout << "[" << std::setw(padding_first_col_console)
                 << ColorText("log", Color::shell_default) << "]"
@@ -258,6 +266,8 @@ class Logger {
    */
   void ExtendedInformation_([[maybe_unused]] const std::string& log_text) {
 #ifdef ENABLE_LOGGING
+    const std::lock_guard<std::mutex> lock{mutex_};
+    init();
     if (static_cast<unsigned>(OutputLevel::logging_verbose) & outputlevel_) {
       std::cout << "[" << std::setw(padding_first_col_console)
                 << ColorText("log", Color::green) << "]" << GetTimeStamp_()
@@ -278,6 +288,8 @@ class Logger {
    */
   void Error_([[maybe_unused]] const std::string& error_text) {
 #ifdef ENABLE_LOGGING
+    const std::lock_guard<std::mutex> lock{mutex_};
+    init();
     if (static_cast<unsigned>(OutputLevel::errors) & outputlevel_) {
       std::cout << "[" << std::setw(padding_first_col_console)
                 << ColorText("error", Color::red) << "]" << GetTimeStamp_()
@@ -298,6 +310,17 @@ class Logger {
    */
   template <typename ExceptionType = std::runtime_error>
   void TerminatingError_(const std::string& error_text) {
+    WriteTerminatingError_(error_text);
+    // Throw exception
+    throw ExceptionType(error_text);
+  }
+
+  /**
+   * @brief Write the message of a terminating error to its sinks
+   */
+  void WriteTerminatingError_(const std::string& error_text) {
+    const std::lock_guard<std::mutex> lock{mutex_};
+    init();
     if (static_cast<unsigned>(OutputLevel::errors) & outputlevel_) {
       std::cout << "[" << std::setw(padding_first_col_console)
                 << ColorText("crit. error", Color::red) << "]"
@@ -313,8 +336,6 @@ class Logger {
     // Write all messages, so that they are not lost if the program terminates.
     // The files stay open, as opening them again would erase these messages
     flush();
-    // Throw exception
-    throw ExceptionType(error_text);
   }
 
   /**
@@ -329,6 +350,9 @@ class Logger {
   /// Padding in text files
   const unsigned int padding_first_col_files{10};
 
+  /// Messages of different threads are written one after the other
+  std::mutex mutex_;
+
   /// File Streams
   std::ofstream log_file;
   std::ofstream warning_file;
-- 
2.43.0


From f835871f66e9eabe04f8d0dfbcc1f9ffcd0183a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 26/36] fix: lists of split planes are rounded to double
 precision

---
 src/bezier_spline.inc          | 2 +-
 src/rational_bezier_spline.inc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 1e451d5..3253218 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -1480,7 +1480,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
   return_value.push_back(split_spline[0]);
   for (std::size_t i_split{1}; i_split < splitting_planes.size(); i_split++) {
     // Calculate the position of the split position in the remaining spline
-    const double split_in_remaining_part =
+    const ScalarType split_in_remaining_part =
         (splitting_planes[i_split] - splitting_planes[i_split - 1]) /
         (1. - splitting_planes[i_split - 1]);
     // Split remainder
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 7dc6379..96cc193 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -492,7 +492,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
   return_value.push_back(split_spline[0]);
   for (std::size_t i_split{1}; i_split < splitting_planes.size(); i_split++) {
     // Calculate the position of the split position in the remaining spline
-    const double split_in_remaining_part =
+    const ScalarType split_in_remaining_part =
         (splitting_planes[i_split] - splitting_planes[i_split - 1]) /
         (1. - splitting_planes[i_split - 1]);
     // Split remainder
-- 
2.43.0


From da5cb151df0bd39ebc2ad577c783e0eb0c3d6de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 27/36] fix: type traits headers can be included on their own

is_bezier_spline.hpp and is_rational_bezier_spline.hpp use std::size_t
without including the header that declares it.
---
 src/utils/type_traits/is_bezier_spline.hpp          | 2 ++
 src/utils/type_traits/is_rational_bezier_spline.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/utils/type_traits/is_bezier_spline.hpp b/src/utils/type_traits/is_bezier_spline.hpp
index abcdd70..0a3fa44 100644
--- a/src/utils/type_traits/is_bezier_spline.hpp
+++ b/src/utils/type_traits/is_bezier_spline.hpp
@@ -25,6 +25,8 @@ SOFTWARE.
 #ifndef UTILS_TYPE_TRAITS_IS_BEZIER_SPLINE_HPP
 #define UTILS_TYPE_TRAITS_IS_BEZIER_SPLINE_HPP
 
+#include <cstddef>
+
 namespace bezman {
 // Forward declaration for later use
 template <std::size_t parametric_dimension, typename PhysicalPointType,
diff --git a/src/utils/type_traits/is_rational_bezier_spline.hpp b/src/utils/type_traits/is_rational_bezier_spline.hpp
index b0088ce..3f46123 100644
--- a/src/utils/type_traits/is_rational_bezier_spline.hpp
+++ b/src/utils/type_traits/is_rational_bezier_spline.hpp
@@ -25,6 +25,8 @@ SOFTWARE.
 #ifndef UTILS_TYPE_TRAITS_IS_RATIONAL_BEZIER_SPLINE_HPP
 #define UTILS_TYPE_TRAITS_IS_RATIONAL_BEZIER_SPLINE_HPP
 
+#include <cstddef>
+
 namespace bezman {
 // Forward declaration for later use
 template <std::size_t parametric_dimension, typename PhysicalPointType,
-- 
2.43.0


From 26b1c7a7a66607b6b018a5d9b5c3b11b11218035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 28/36] fix: order elevation and pointwise derivatives of
 differentiated scalars do not compile

---
 src/bezier_spline.inc                         | 2 +-
 src/rational_bezier_spline.inc                | 5 +++--
 src/utils/algorithms/bernstein_polynomial.hpp | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 3253218..cdc1633 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -202,7 +202,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
         control_points[global_index] =
             control_points[first_index_in_group + index_in_group +
                            index_offsets[par_dim] * i] *
-                (1 - factor) +
+                (static_cast<ScalarType_>(1) - factor) +
             control_points[first_index_in_group + index_in_group +
                            index_offsets[par_dim] * (i - 1)] *
                 factor;
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 96cc193..901f335 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -312,7 +312,8 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
       }
       // Substract low-order function
       derivatives[i_deriv] -=
-          binom_fact * w_derivatives[j_deriv] * derivatives[i_deriv - j_deriv];
+          static_cast<ScalarType>(binom_fact) * w_derivatives[j_deriv] *
+          derivatives[i_deriv - j_deriv];
     }
     // Finalize
     derivatives[i_deriv] *= inv_w_fact;
@@ -421,7 +422,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
       // Substract low-order function
       for (std::size_t i_basis{}; i_basis < n_basis_functions; i_basis++) {
         derivatives[i_deriv][i_basis] -=
-            binom_fact * w_derivatives[j_deriv] *
+            static_cast<ScalarType>(binom_fact) * w_derivatives[j_deriv] *
             derivatives[i_deriv - j_deriv][i_basis];
       }
     }
diff --git a/src/utils/algorithms/bernstein_polynomial.hpp b/src/utils/algorithms/bernstein_polynomial.hpp
index 05fb16c..8bfb584 100644
--- a/src/utils/algorithms/bernstein_polynomial.hpp
+++ b/src/utils/algorithms/bernstein_polynomial.hpp
@@ -124,7 +124,8 @@ class BernsteinPolynomial {
         for (std::size_t k{k_min}; k <= std::min(i_basis, deriv); k++) {
           // Check if is even using binary operation
           const ScalarType eval_v =
-              utils::FastBinomialCoefficient::choose(deriv, k) *
+              static_cast<ScalarType>(
+                  utils::FastBinomialCoefficient::choose(deriv, k)) *
               basis[i_basis - k];
           evaluations[i_basis] += ((k + deriv) & 1) ? -eval_v : eval_v;
         }
-- 
2.43.0


From 1b8e34e197f135b10735664749ba86ee66cd6c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 29/36] fix: splines with differentiated scalars as control
 points are taken for splines of points

---
 src/bezier_spline.hpp          |  1 +
 src/bezier_spline.inc          | 27 ++++++++++++++-------------
 src/rational_bezier_spline.inc |  6 +++---
 3 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/bezier_spline.hpp b/src/bezier_spline.hpp
index 9b0afc0..0dffdd8 100644
--- a/src/bezier_spline.hpp
+++ b/src/bezier_spline.hpp
@@ -37,6 +37,7 @@ SOFTWARE.
 #include "bezman/src/utils/fastbinomialcoefficient.hpp"
 #include "bezman/src/utils/logger.hpp"
 #include "bezman/src/utils/type_traits/is_bezier_spline.hpp"
+#include "bezman/src/utils/type_traits/is_point.hpp"
 #include "bezman/src/utils/type_traits/is_rational_bezier_spline.hpp"
 
 namespace bezman {
diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index cdc1633..1915927 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -726,7 +726,7 @@ constexpr BezierSpline<parametric_dimension, ScalarType, ScalarType>
 BezierSpline<parametric_dimension, PhysicalPointType,
              ScalarType>::ExtractDimension(const IndexingType& dimension)
     const {
-  if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+  if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
     if (dimension != 0ul) {
       utils::Logger::TerminatingError(
           "Extraction of Scalar-value spline requested");
@@ -752,7 +752,7 @@ constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::RaisePower(
     const IndexingType power) const {
   // Implements Recursive function of integer powers (can be storage intense)
-  if constexpr (std::is_scalar_v<PhysicalPointType>) {
+  if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
     if (power == 0) {
       utils::Logger::Error("Raising to 0 is inefficient. Please revisit");
       return BezierSpline<parametric_dimension, ScalarType_, ScalarType_>{
@@ -792,7 +792,7 @@ BezierSpline<parametric_dimension, PhysicalPointType,
   }
   PhysicalPointType maximum{control_points[0]};
   for (IndexingType i{1}; i < GetNumberOfControlPoints(); i++) {
-    if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+    if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
       maximum = std::max(maximum, control_points[i]);
     } else {
       for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
@@ -815,7 +815,7 @@ BezierSpline<parametric_dimension, PhysicalPointType,
   }
   PhysicalPointType minimum{control_points[0]};
   for (IndexingType i{1}; i < GetNumberOfControlPoints(); i++) {
-    if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+    if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
       minimum = std::min(minimum, control_points[i]);
     } else {
       for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
@@ -839,7 +839,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
   const PhysicalPointType shift{transposition};
   const PhysicalPointType scale{scale_vector};
   for (IndexingType i{}; i < GetNumberOfControlPoints(); i++) {
-    if constexpr (std::is_scalar_v<PhysicalPointType>) {
+    if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
       control_points[i] = (shift + control_points[i]) * scale;
     } else {
       for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
@@ -866,7 +866,7 @@ BezierSpline<parametric_dimension, PhysicalPointType,
                ? static_cast<ScalarType>(1) / extent
                : static_cast<ScalarType>(1);
   };
-  if constexpr (std::is_scalar_v<PhysicalPointType>) {
+  if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
     scale_vector = invert_extent(scale_vector);
   } else {
     for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
@@ -883,7 +883,7 @@ constexpr bool BezierSpline<parametric_dimension, PhysicalPointType,
                             ScalarType>::FitsIntoUnitCube() const {
   const auto maximum_corner = MaximumCorner();
   const auto minimum_corner = MinimumCorner();
-  if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+  if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
     if ((maximum_corner > static_cast<ScalarType>(1)) ||
         (minimum_corner < static_cast<ScalarType>(0))) {
       return false;
@@ -951,7 +951,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::Compose(
   }
 
   // Check Dimensions (Scalar Value splines to be treaded as kSpDim = 1)
-  if constexpr (std::is_arithmetic_v<PointTypeRHS>) {
+  if constexpr (!utils::type_traits::isPoint_v<PointTypeRHS>) {
     static_assert(parametric_dimension == 1, "Dimension mismatch");
   } else {
     static_assert(PointTypeRHS::kSpatialDimension == parametric_dimension,
@@ -977,7 +977,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
   }
 
   // Check Dimensions (Scalar Value splines to be treaded as kSpDim = 1)
-  if constexpr (std::is_arithmetic_v<PointTypeRHS>) {
+  if constexpr (!utils::type_traits::isPoint_v<PointTypeRHS>) {
     static_assert(parametric_dimension == 1, "Dimension mismatch");
   } else {
     static_assert(PointTypeRHS::kSpatialDimension == parametric_dimension,
@@ -1002,7 +1002,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::Compose(
   }
 
   // Check Dimensions (Scalar Value splines to be treaded as kSpDim = 1)
-  if constexpr (std::is_arithmetic_v<PointTypeRHS>) {
+  if constexpr (!utils::type_traits::isPoint_v<PointTypeRHS>) {
     static_assert(parametric_dimension == 1, "Dimension mismatch");
   } else {
     static_assert(PointTypeRHS::kSpatialDimension == parametric_dimension,
@@ -1039,7 +1039,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
   }
 
   // Check Dimensions (Scalar Value splines to be treaded as kSpDim = 1)
-  if constexpr (std::is_arithmetic_v<PointTypeRHS>) {
+  if constexpr (!utils::type_traits::isPoint_v<PointTypeRHS>) {
     static_assert(parametric_dimension == 1, "Dimension mismatch");
   } else {
     static_assert(PointTypeRHS::kSpatialDimension == parametric_dimension,
@@ -1098,7 +1098,8 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::Compose(
   }
 
   // Check Dimensions (Scalar Value splines to be treaded as kSpDim = 1)
-  if constexpr (std::is_arithmetic_v<typename SplineType::PhysicalPointType_>) {
+  if constexpr (!utils::type_traits::isPoint_v<
+                    typename SplineType::PhysicalPointType_>) {
     static_assert(parametric_dimension == 1, "Dimension mismatch");
   } else {
     static_assert(SplineType::PhysicalPointType_::kSpatialDimension ==
@@ -1130,7 +1131,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
       SplineType::kParametricDimensions;
 
   // Sanity check
-  if constexpr (std::is_arithmetic_v<PointTypeInnerFunction>) {
+  if constexpr (!utils::type_traits::isPoint_v<PointTypeInnerFunction>) {
     static_assert(parametric_dimension == 1, "Dimension mismatch");
   } else {
     static_assert(
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 901f335..40b29c8 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -832,7 +832,7 @@ constexpr bool RationalBezierSpline<parametric_dimension, PhysicalPointType,
                                     ScalarType>::FitsIntoUnitCube() const {
   const auto maximum_corner = MaximumCorner();
   const auto minimum_corner = MinimumCorner();
-  if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+  if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
     if ((maximum_corner > static_cast<ScalarType>(1)) ||
         (minimum_corner < static_cast<ScalarType>(0))) {
       return false;
@@ -860,7 +860,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType,
   }
   PhysicalPointType minimum{ControlPoint(LocalToGlobalIndex(0))};
   for (IndexingType i{1}; i < GetNumberOfControlPoints(); i++) {
-    if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+    if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
       minimum =
           std::min(minimum, GetWeightedControlPoints()[i] / GetWeights()[i]);
     } else {
@@ -887,7 +887,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType,
   }
   PhysicalPointType maximum{ControlPoint(LocalToGlobalIndex(0))};
   for (IndexingType i{1}; i < GetNumberOfControlPoints(); i++) {
-    if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+    if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
       maximum =
           std::max(maximum, GetWeightedControlPoints()[i] / GetWeights()[i]);
     } else {
-- 
2.43.0


From 94900ecfb521f4fb921d3afefa46bfd08347d54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 30/36] fix: splines of differentiated scalars can not be split

---
 src/bezier_spline.hpp |  3 +++
 src/bezier_spline.inc | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/bezier_spline.hpp b/src/bezier_spline.hpp
index 0dffdd8..bd50a43 100644
--- a/src/bezier_spline.hpp
+++ b/src/bezier_spline.hpp
@@ -29,6 +29,9 @@ SOFTWARE.
 #include <array>
 #include <cassert>
 #include <numeric>
+#include <sstream>
+#include <string>
+#include <type_traits>
 #include <vector>
 
 #include "bezman/src/point.hpp"
diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 1915927..c72dbb9 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -1365,10 +1365,20 @@ BezierSpline<parametric_dimension, PhysicalPointType,
              ScalarType>::SplitAtPosition(const ScalarType& splitting_plane,
                                           const IndexingType
                                               splitting_dimension) const {
+  // Text form of the position, also for scalars that are not arithmetic types
+  const auto position_as_text = [&splitting_plane]() -> std::string {
+    if constexpr (std::is_arithmetic_v<ScalarType>) {
+      return std::to_string(splitting_plane);
+    } else {
+      std::ostringstream text;
+      text << splitting_plane;
+      return text.str();
+    }
+  };
   utils::Logger::ExtendedInformation(
       "Splitting spline along parametric dimension " +
       std::to_string(splitting_dimension) + " at position " +
-      std::to_string(splitting_plane));
+      position_as_text());
   /*
    * Notation:
    * A group the number of all starting points that are subsequent, i.e. the
@@ -1396,7 +1406,7 @@ BezierSpline<parametric_dimension, PhysicalPointType,
   // Check bounds (as default knot-vector is [0,0,..,1,1,...])
   if (!(splitting_plane > 0. && splitting_plane < 1.)) {
     utils::Logger::TerminatingError("Split Plane is at " +
-                                    std::to_string(splitting_plane) +
+                                    position_as_text() +
                                     ", which is out of bounds (0,1)");
   }
 
-- 
2.43.0


From 48772a7185aef86963f9c6a1c65af58868cb7b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 31/36] fix: operations on differentiated scalars of other
 precisions do not compile

---
 src/bezier_spline.inc          | 22 ++++++++++++----------
 src/rational_bezier_spline.inc |  2 +-
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index c72dbb9..f16775b 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -298,7 +298,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
                                   const IndexingType& k) -> ScalarType {
       ScalarType factor{static_cast<ScalarType>(p)};
       for (IndexingType i{1}; i < k; i++) {
-        factor *= p - i;
+        factor *= static_cast<ScalarType>(p - i);
       }
       return factor;
     }(degrees[i_para_dim], orders[i_para_dim]);
@@ -313,15 +313,16 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
            j_point_offset++) {
         multi_index[i_para_dim]++;
         const ScalarType local_coefficient =
-            (j_point_offset % 2 == 0 ? 1.0 : -1.0) *
-            utils::FastBinomialCoefficient::choose(orders[i_para_dim],
-                                                   j_point_offset);
+            static_cast<ScalarType>(j_point_offset % 2 == 0 ? 1 : -1) *
+            static_cast<ScalarType>(utils::FastBinomialCoefficient::choose(
+                orders[i_para_dim], j_point_offset));
         new_control_points[i_point_index] +=
             local_coefficient *
             new_control_points[GlobalToLocalIndex(multi_index)];
       }
       new_control_points[i_point_index] *=
-          (orders[i_para_dim] % 2 == 0 ? 1.0 : -1.0) * factor;
+          static_cast<ScalarType>(orders[i_para_dim] % 2 == 0 ? 1 : -1) *
+          factor;
     }
   }
 
@@ -361,7 +362,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::Evaluate(
 
   for (IndexingType par_dim{0}; par_dim < parametric_dimension; par_dim++) {
     ScalarType_ factor = par_coords[par_dim];
-    ScalarType_ inv_factor = 1. - par_coords[par_dim];
+    ScalarType_ inv_factor = -par_coords[par_dim] + 1;
 
     ctps_to_consider /= degrees[par_dim] + 1;
 
@@ -1259,8 +1260,8 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
          i_ctps_in_par_dim++) {
       bernstein_spline[degrees[i_outer_parametric_dimension] -
                        i_ctps_in_par_dim] *=
-          utils::FastBinomialCoefficient::choose(
-              degrees[i_outer_parametric_dimension], i_ctps_in_par_dim);
+          static_cast<ScalarReturnT>(utils::FastBinomialCoefficient::choose(
+              degrees[i_outer_parametric_dimension], i_ctps_in_par_dim));
     }
   }
 
@@ -1426,7 +1427,8 @@ BezierSpline<parametric_dimension, PhysicalPointType,
 
   // Evaluation factors
   const ScalarType_ factor = splitting_plane;
-  const ScalarType_ inv_factor = 1. - splitting_plane;
+  const ScalarType_ inv_factor =
+      static_cast<ScalarType_>(1) - splitting_plane;
 
   // Auxiliary index offsets
   const IndexingType starting_points_per_index_group =
@@ -1493,7 +1495,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     // Calculate the position of the split position in the remaining spline
     const ScalarType split_in_remaining_part =
         (splitting_planes[i_split] - splitting_planes[i_split - 1]) /
-        (1. - splitting_planes[i_split - 1]);
+        (static_cast<ScalarType>(1) - splitting_planes[i_split - 1]);
     // Split remainder
     split_spline = split_spline[1].SplitAtPosition(split_in_remaining_part,
                                                    splitting_dimension);
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 40b29c8..dea2b7b 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -495,7 +495,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     // Calculate the position of the split position in the remaining spline
     const ScalarType split_in_remaining_part =
         (splitting_planes[i_split] - splitting_planes[i_split - 1]) /
-        (1. - splitting_planes[i_split - 1]);
+        (static_cast<ScalarType>(1) - splitting_planes[i_split - 1]);
     // Split remainder
     split_spline = split_spline[1].SplitAtPosition(split_in_remaining_part,
                                                    splitting_dimension);
-- 
2.43.0


From ddaf1a839ae1fb350121f0b8aa4b5d104f72718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:43 +0000
Subject: [PATCH 32/36] fix: power zero of splines of nested differentiated
 scalars is zero

---
 src/bezier_spline.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index f16775b..a73dc27 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -760,7 +760,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::RaisePower(
           // Degree 0 (use zero default initialization)
           std::array<std::size_t, parametric_dimension>{},
           // Set the single remaining ctps to 1
-          std::vector<ScalarType>{1.}};
+          std::vector<ScalarType>(1, static_cast<ScalarType>(1.))};
     }
     if (power == 1) {
       return BezierSpline<parametric_dimension, ScalarType_, ScalarType_>{
-- 
2.43.0


From 45c036c98390b49944a786d24cb888bbf48296e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:43 +0000
Subject: [PATCH 33/36] fix: derivatives of the second operand's weights are
 lost in sums of rational splines with equal weights

---
 src/rational_bezier_spline.hpp | 43 ++++++++++++++++++++++++++++++++++
 src/rational_bezier_spline.inc |  8 +++----
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/rational_bezier_spline.hpp b/src/rational_bezier_spline.hpp
index c959026..fbb8149 100644
--- a/src/rational_bezier_spline.hpp
+++ b/src/rational_bezier_spline.hpp
@@ -80,6 +80,49 @@ class RationalBezierSpline {
     return compatible;
   }
 
+  /**
+   * @brief  Compares scalars including all derivatives they carry (their
+   * comparison operators only take values into account)
+   */
+  template <typename T>
+  static constexpr bool IsIdentical(const T& lhs, const T& rhs) {
+    return IsIdentical(lhs, rhs, 0);
+  }
+  template <typename T>
+  static constexpr auto IsIdentical(const T& lhs, const T& rhs, int)
+      -> decltype(lhs.GetDerivatives(), bool{}) {
+    const auto lhs_derivatives = lhs.GetDerivatives();
+    const auto rhs_derivatives = rhs.GetDerivatives();
+    if (!IsIdentical(lhs.GetValue(), rhs.GetValue()) ||
+        lhs_derivatives.size() != rhs_derivatives.size()) {
+      return false;
+    }
+    for (IndexingType i{}; i < lhs_derivatives.size(); i++) {
+      if (!IsIdentical(lhs_derivatives[i], rhs_derivatives[i])) return false;
+    }
+    return true;
+  }
+  template <typename T>
+  static constexpr bool IsIdentical(const T& lhs, const T& rhs, long) {
+    return lhs == rhs;
+  }
+
+  /**
+   * @brief  Checks if both splines share the same weight function, including
+   * its derivatives
+   */
+  template <typename SplineType>
+  constexpr bool HasSameWeightFunction(const SplineType& rhs) const {
+    if (!(weight_function_ == rhs.weight_function_)) return false;
+    for (IndexingType i{}; i < weight_function_.control_points.size(); i++) {
+      if (!IsIdentical(weight_function_.control_points[i],
+                       rhs.weight_function_.control_points[i])) {
+        return false;
+      }
+    }
+    return true;
+  }
+
   // Friend declarations
   template <std::size_t parent_parametric_dimension,
             typename ParentPhysicalPointType, typename ParentScalarType>
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index dea2b7b..f6de373 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -653,7 +653,7 @@ constexpr auto
 RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
 operator+(const RationalBezierSpline<parametric_dimension, PointTypeRHS,
                                      ScalarRHS> &rhs) const {
-  if (weight_function_ == rhs.weight_function_) {
+  if (HasSameWeightFunction(rhs)) {
     return RationalBezierSpline{weighted_spline_ + rhs.weighted_spline_,
                                 weight_function_};
   } else {
@@ -670,7 +670,7 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator+=(const RationalBezierSpline<parametric_dimension,
                                           PhysicalPointType, ScalarType> &rhs) {
-  if (weight_function_ == rhs.weight_function_) {
+  if (HasSameWeightFunction(rhs)) {
     weighted_spline_ += rhs.weighted_spline_;
     return (*this);
   } else {
@@ -690,7 +690,7 @@ constexpr auto
 RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
 operator-(const RationalBezierSpline<parametric_dimension, PointTypeRHS,
                                      ScalarRHS> &rhs) const {
-  if (weight_function_ == rhs.weight_function_) {
+  if (HasSameWeightFunction(rhs)) {
     return RationalBezierSpline{weighted_spline_ - rhs.weighted_spline_,
                                 weight_function_};
   } else {
@@ -707,7 +707,7 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator-=(const RationalBezierSpline<parametric_dimension,
                                           PhysicalPointType, ScalarType> &rhs) {
-  if (weight_function_ == rhs.weight_function_) {
+  if (HasSameWeightFunction(rhs)) {
     weighted_spline_ -= rhs.weighted_spline_;
     return (*this);
   } else {
-- 
2.43.0


From 946cc1f7ee2113b7e6b87d059a51d8731fbebb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:07 +0000
Subject: [PATCH 34/36] fix: splitting at positions next to one another close
 to the end

The position of a plane within the remaining part, (b - a) / (1 - a), is
rounded to one if b is next to one, and the valid list was refused. Split
from the last plane to the first, where the relative position is the ratio
of two increasing values and stays below one.
---
 src/bezier_spline.inc          | 30 ++++++++++++++++--------------
 src/rational_bezier_spline.inc | 30 ++++++++++++++++--------------
 2 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index a73dc27..111ca12 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -1487,21 +1487,23 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     return return_value;
   }
 
-  // Loop over all split planes and assign the first part to the vector,
-  // then split the remaining part at the relative required position
-  auto split_spline = SplitAtPosition(splitting_planes[0], splitting_dimension);
-  return_value.push_back(split_spline[0]);
-  for (std::size_t i_split{1}; i_split < splitting_planes.size(); i_split++) {
-    // Calculate the position of the split position in the remaining spline
+  // Loop over all split planes from the last to the first, assign the second
+  // part to the vector and continue with the first part. There, the relative
+  // position is the ratio of two increasing values (which can not be rounded to
+  // one of the bounds, not even if the planes are close to the end)
+  BezierSpline remaining_part{(*this)};
+  for (std::size_t i_split{splitting_planes.size()}; i_split > 0; i_split--) {
     const ScalarType split_in_remaining_part =
-        (splitting_planes[i_split] - splitting_planes[i_split - 1]) /
-        (static_cast<ScalarType>(1) - splitting_planes[i_split - 1]);
-    // Split remainder
-    split_spline = split_spline[1].SplitAtPosition(split_in_remaining_part,
-                                                   splitting_dimension);
-    return_value.push_back(split_spline[0]);
+        (i_split == splitting_planes.size())
+            ? splitting_planes[i_split - 1]
+            : splitting_planes[i_split - 1] / splitting_planes[i_split];
+    const auto split_spline = remaining_part.SplitAtPosition(
+        split_in_remaining_part, splitting_dimension);
+    return_value.push_back(split_spline[1]);
+    remaining_part = split_spline[0];
   }
-  // Assign last section to last element
-  return_value.push_back(split_spline[1]);
+  // Assign first section and restore the order of the parts
+  return_value.push_back(remaining_part);
+  std::reverse(return_value.begin(), return_value.end());
   return return_value;
 }
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index f6de373..91ff5c2 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -487,22 +487,24 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     return return_value;
   }
 
-  // Loop over all split planes and assign the first part to the vector,
-  // then split the remaining part at the relative required position
-  auto split_spline = SplitAtPosition(splitting_planes[0], splitting_dimension);
-  return_value.push_back(split_spline[0]);
-  for (std::size_t i_split{1}; i_split < splitting_planes.size(); i_split++) {
-    // Calculate the position of the split position in the remaining spline
+  // Loop over all split planes from the last to the first, assign the second
+  // part to the vector and continue with the first part. There, the relative
+  // position is the ratio of two increasing values (which can not be rounded to
+  // one of the bounds, not even if the planes are close to the end)
+  RationalBezierSpline remaining_part{(*this)};
+  for (std::size_t i_split{splitting_planes.size()}; i_split > 0; i_split--) {
     const ScalarType split_in_remaining_part =
-        (splitting_planes[i_split] - splitting_planes[i_split - 1]) /
-        (static_cast<ScalarType>(1) - splitting_planes[i_split - 1]);
-    // Split remainder
-    split_spline = split_spline[1].SplitAtPosition(split_in_remaining_part,
-                                                   splitting_dimension);
-    return_value.push_back(split_spline[0]);
+        (i_split == splitting_planes.size())
+            ? splitting_planes[i_split - 1]
+            : splitting_planes[i_split - 1] / splitting_planes[i_split];
+    const auto split_spline = remaining_part.SplitAtPosition(
+        split_in_remaining_part, splitting_dimension);
+    return_value.push_back(split_spline[1]);
+    remaining_part = split_spline[0];
   }
-  // Assign last section to last element
-  return_value.push_back(split_spline[1]);
+  // Assign first section and restore the order of the parts
+  return_value.push_back(remaining_part);
+  std::reverse(return_value.begin(), return_value.end());
   return return_value;
 }
 
-- 
2.43.0


From fc84b31e6a1347724ef36315ea80a7fd414ca065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:07 +0000
Subject: [PATCH 35/36] fix: divide differentiated values without squaring the
 divisor

The square of the divisor over- or underflows for divisors whose quotients
and derivatives are well within the range of the scalar.
---
 .../algo_diff_type.inc                             | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index 6dd5136..c0a4a73 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -165,12 +165,12 @@ constexpr AlgoDiffType<Scalar, numberOfDerivatives>&
 AlgoDiffType<Scalar, numberOfDerivatives>::operator/=(
     const AlgoDiffType<Scalar, numberOfDerivatives>& b) {
   assert(b.GetNumberOfDerivatives() == GetNumberOfDerivatives());
-  const Scalar_ inverse_b_squared = 1.0 / (b.v_ * b.v_);
+  const Scalar_ quotient = v_ / b.v_;
   for (IndexingType_ i{}; i < GetNumberOfDerivatives(); i++) {
-    // f'(x) = (u'*v -  u*v') / v^2
-    d_[i] = (b.v_ * d_[i] - b.d_[i] * v_) * inverse_b_squared;
+    // f'(x) = (u' - (u/v)*v') / v, v^2 might leave the range of the scalar
+    d_[i] = (d_[i] - quotient * b.d_[i]) / b.v_;
   }
-  v_ /= b.v_;
+  v_ = quotient;
   return (*this);
 }
 
@@ -226,8 +226,10 @@ template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives> operator/(
     const Scalar& a, const AlgoDiffType<Scalar, numberOfDerivatives>& b) {
   AlgoDiffType<Scalar, numberOfDerivatives> result_value{b};
-  Scalar deriv = -a / (b.v_ * b.v_);
-  result_value.v_ *= -deriv;
+  // The square of the divisor might leave the range of the scalar
+  const Scalar quotient = a / b.v_;
+  const Scalar deriv = -quotient / b.v_;
+  result_value.v_ = quotient;
   for (std::size_t i{}; i < result_value.GetNumberOfDerivatives(); i++) {
     result_value.d_[i] *= deriv;
   }
-- 
2.43.0


From f6154b4b51ae7ccb6508ab649d22ac77d119d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:07 +0000
Subject: [PATCH 36/36] fix: power of a differentiated value not as multiple of
 a lower power

For small or large bases, x^(n-1) leaves the range of the scalar although
x^n does not, which gave infinite values (or zero).
---
 src/utils/computational_differentiation/algo_diff_type.inc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index c0a4a73..e1c0116 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -274,10 +274,12 @@ constexpr AlgoDiffType<Scalar, numberOfDerivatives> pow(
     }
     // Use STD namespace function
     tmp = std::pow(base.v_, power - 1.0);
+    // Not as a multiple of x^(n-1), which might leave the range of the scalar
+    result_value.v_ = std::pow(base.v_, power);
   } else {
     tmp = pow(base.v_, power - 1.0);
+    result_value.v_ = pow(base.v_, power);
   }
-  result_value.v_ *= tmp;
   for (std::size_t i{}; i < base.GetNumberOfDerivatives(); i++) {
     result_value.d_[i] *= power * tmp;
   }
-- 
2.43.0

