From 38a1addc3f7515fc2961be123db26037cfb5a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:12 +0000
Subject: [PATCH 01/37] fix: restore ball2d snapshots that use the
 symplectic_euler integrator

---
 ball2d/Ball2DUtilities.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ball2d/Ball2DUtilities.cpp b/ball2d/Ball2DUtilities.cpp
index 05b78c2..374046a 100644
--- a/ball2d/Ball2DUtilities.cpp
+++ b/ball2d/Ball2DUtilities.cpp
@@ -8,6 +8,7 @@
 #include <cassert>
 #include "scisim/StringUtilities.h"
 #include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
+#include "ball2d/SymplecticEulerMap.h"
 #include "ball2d/VerletMap.h"
 
 #include <iostream>
@@ -34,7 +35,11 @@ std::unique_ptr<UnconstrainedMap> Ball2DUtilities::deserializeUnconstrainedMap(
   std::unique_ptr<UnconstrainedMap> unconstrained_map{ nullptr };
 
   const std::string integrator_name{ StringUtilities::deserialize( input_stream ) };
-  if( "verlet" == integrator_name )
+  if( "symplectic_euler" == integrator_name )
+  {
+    unconstrained_map.reset( new SymplecticEulerMap{ input_stream } );
+  }
+  else if( "verlet" == integrator_name )
   {
     unconstrained_map.reset( new VerletMap{ input_stream } );
   }
-- 
2.43.0


From 721e5d359b02a682a72be8e0e5d79efa350b08b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:12 +0000
Subject: [PATCH 02/37] fix: restore rigidbody3d snapshots that use the
 exponential_euler integrator

---
 rigidbody3d/RigidBody3DUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigidbody3d/RigidBody3DUtilities.cpp b/rigidbody3d/RigidBody3DUtilities.cpp
index b384d0e..bf21694 100644
--- a/rigidbody3d/RigidBody3DUtilities.cpp
+++ b/rigidbody3d/RigidBody3DUtilities.cpp
@@ -11,6 +11,7 @@
 
 #include "rigidbody3d/UnconstrainedMaps/DMVMap.h"
 #include "rigidbody3d/UnconstrainedMaps/SplitHamMap.h"
+#include "rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.h"
 
 #include <iostream>
 
@@ -45,6 +46,10 @@ std::unique_ptr<UnconstrainedMap> RigidBody3DUtilities::deserializeUnconstrained
   {
     unconstrained_map.reset( new SplitHamMap );
   }
+  else if( "exponential_euler" == integrator_name )
+  {
+    unconstrained_map.reset( new ExponentialEulerMap );
+  }
   else if( "NULL" == integrator_name )
   {
     unconstrained_map.reset( nullptr );
-- 
2.43.0


From af39f83177c07dfb6d98ebb00810ee40478f34c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:12 +0000
Subject: [PATCH 03/37] fix: restore ball2d snapshots that use a penalty force

---
 ball2d/Ball2DState.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ball2d/Ball2DState.cpp b/ball2d/Ball2DState.cpp
index 5af2610..4b3641f 100644
--- a/ball2d/Ball2DState.cpp
+++ b/ball2d/Ball2DState.cpp
@@ -9,6 +9,7 @@
 #include "scisim/Utilities.h"
 #include "scisim/StringUtilities.h"
 #include "Forces/Ball2DGravityForce.h"
+#include "Forces/PenaltyForce.h"
 
 #include "StaticGeometry/StaticDrum.h"
 #include "StaticGeometry/StaticPlane.h"
@@ -303,6 +304,10 @@ void Ball2DState::deserialize( std::istream& input_stream )
       {
         m_forces[force_idx] = std::unique_ptr<Ball2DForce>{ new Ball2DGravityForce{ input_stream } };
       }
+      else if( "hertzian_penalty" == force_name )
+      {
+        m_forces[force_idx] = std::unique_ptr<Ball2DForce>{ new PenaltyForce{ input_stream } };
+      }
       else
       {
         std::cerr << "Unknown force in deserialize." << std::endl;
-- 
2.43.0


From f53a1f0566bde83bc21cab3149714402a327c044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:13 +0000
Subject: [PATCH 04/37] fix: restore snapshots that use the grr_friction solver

---
 scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp b/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp
index 74647d3..e9173f2 100644
--- a/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp
+++ b/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp
@@ -18,6 +18,7 @@
 #include "scisim/ConstrainedMaps/ImpactFrictionMap.h"
 #include "scisim/ConstrainedMaps/StaggeredProjections.h"
 #include "scisim/ConstrainedMaps/Sobogus.h"
+#include "scisim/ConstrainedMaps/GRRFriction.h"
 #include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
 
 #ifdef IPOPT_FOUND
@@ -218,6 +219,10 @@ std::unique_ptr<FrictionSolver> ConstrainedMapUtilities::deserializeFrictionSolv
   {
     friction_solver.reset( new Sobogus{ input_stream } );
   }
+  else if( "grr_friction" == friction_solver_name )
+  {
+    friction_solver.reset( new GRRFriction{ input_stream } );
+  }
   else if( "NULL" == friction_solver_name )
   {
     friction_solver.reset( nullptr );
-- 
2.43.0


From cb064cffa1dd3ad5f73d94cbcfd329cac2b2d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:50 +0000
Subject: [PATCH 05/37] fix: keep the sign of negative decimals between -1 and
 0 when parsing rationals

---
 scisim/Math/Rational.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scisim/Math/Rational.h b/scisim/Math/Rational.h
index dd4e4d2..a6caf78 100644
--- a/scisim/Math/Rational.h
+++ b/scisim/Math/Rational.h
@@ -236,7 +236,8 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
     T denominator = 1;
     for( std::string::size_type i = 0; i < num_digits; ++i ) { denominator *= 10; }
     // Compute the denominator
-    const T numerator{ left_int * denominator + ( left_int < 0 ? -1 : 1 ) * right_int };
+    // N.B. the sign can not be taken from left_int, as it is lost in, for example, -0.5
+    const T numerator{ left_int * denominator + ( left_substring.front() == '-' ? -1 : 1 ) * right_int };
     output.set( numerator, denominator );
   }
   else
-- 
2.43.0


From 5f556e6c8c8aa0363c4377bcde39db1e9352f9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 06/37] fix: reject malformed and unrepresentable numbers when
 parsing rationals

---
 scisim/Math/Rational.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/scisim/Math/Rational.h b/scisim/Math/Rational.h
index a6caf78..ada5cd3 100644
--- a/scisim/Math/Rational.h
+++ b/scisim/Math/Rational.h
@@ -197,7 +197,13 @@ std::ostream& operator<<( std::ostream& os, const Rational<T>& r )
   return os << r.numerator() << " / " << r.denominator();
 }
 
-// TODO: This is super adhoc, and will parse in strange things as numbers, but works well enough for now.
+// Returns true if the input is a string of digits with an optional leading sign
+inline bool isIntegerString( const std::string& in_string )
+{
+  const std::string::size_type first_digit{ !in_string.empty() && ( in_string.front() == '+' || in_string.front() == '-' ) ? std::string::size_type{ 1 } : std::string::size_type{ 0 } };
+  return first_digit < in_string.length() && in_string.find_first_not_of( "0123456789", first_digit ) == std::string::npos;
+}
+
 // TODO: Once C++ regex are widely available in various compilers, clean this up a lot.
 // TODO: Handle, for example, 1.0e-4
 template<class T>
@@ -225,6 +231,9 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
     if( left_substring.empty() ) { left_substring = "0"; }
     if( left_substring == "+" ) { left_substring = "+0"; }
     if( left_substring == "-" ) { left_substring = "-0"; }
+    // Reject anything that is not a number, for example 1.0e-4 or 1.2.3
+    if( !isIntegerString( left_substring ) ) { return false; }
+    if( right_substring.find_first_not_of( "0123456789" ) != std::string::npos ) { return false; }
     // Load the left and right portions into integers
     T left_int;
     if( !StringUtilities::extractFromString( left_substring, left_int ) ) { return false; }
@@ -234,7 +243,14 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
     const std::string::size_type num_digits{ right_substring.length() };
     // The denominator will be the power of ten needed to shift the decimal place all the way to the right
     T denominator = 1;
-    for( std::string::size_type i = 0; i < num_digits; ++i ) { denominator *= 10; }
+    for( std::string::size_type i = 0; i < num_digits; ++i )
+    {
+      // Reject numbers with too many digits to represent exactly
+      if( denominator > std::numeric_limits<T>::max() / 10 ) { return false; }
+      denominator *= 10;
+    }
+    const T max_left{ std::numeric_limits<T>::max() / denominator - 1 };
+    if( num_digits != 0 && ( left_int > max_left || left_int < -max_left ) ) { return false; }
     // Compute the denominator
     // N.B. the sign can not be taken from left_int, as it is lost in, for example, -0.5
     const T numerator{ left_int * denominator + ( left_substring.front() == '-' ? -1 : 1 ) * right_int };
@@ -246,11 +262,15 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
     std::string left_substring;
     std::string right_substring;
     StringUtilities::splitAtLastCharacterOccurence( StringUtilities::removeWhiteSpace( in_string ), left_substring, right_substring, '/' );
+    // Reject anything that is not a fraction of two integers
+    if( !isIntegerString( left_substring ) ) { return false; }
+    if( !isIntegerString( right_substring ) ) { return false; }
     // Load the left and right portions into integers
     T left_int;
     if( !StringUtilities::extractFromString( left_substring, left_int ) ) { return false; }
     T right_int;
     if( !StringUtilities::extractFromString( right_substring, right_int ) ) { return false; }
+    if( right_int == 0 ) { return false; }
     // Left part is the numerator, right part is the denominator
     output.set( left_int, right_int );
   }
-- 
2.43.0


From 2d75e96048c80c064d59d3df134a03264ae1d549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 07/37] fix: do not read past the end when tokenizing an empty
 string

---
 scisim/StringUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scisim/StringUtilities.cpp b/scisim/StringUtilities.cpp
index 437e79a..e759afd 100644
--- a/scisim/StringUtilities.cpp
+++ b/scisim/StringUtilities.cpp
@@ -136,7 +136,7 @@ void StringUtilities::tokenize( const std::string& str, const char chr, std::vec
     tokens.emplace_back( str.substr( substring_start ) );
   }
   // Case of final character the delimiter
-  if( str.back() == chr )
+  if( !str.empty() && str.back() == chr )
   {
     tokens.emplace_back( "" );
   }
-- 
2.43.0


From c09be887dcb9e4ae4a40102d05b6716930306074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:03 +0000
Subject: [PATCH 08/37] fix: reject numbers followed by garbage when parsing
 text

---
 scisim/StringUtilities.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scisim/StringUtilities.h b/scisim/StringUtilities.h
index ad6cd78..b3aa41c 100644
--- a/scisim/StringUtilities.h
+++ b/scisim/StringUtilities.h
@@ -65,7 +65,8 @@ namespace StringUtilities
   {
     std::stringstream input_stream( in_string );
     input_stream >> output;
-    return !input_stream.fail();
+    // The entire string, up to trailing whitespace, must be part of the value
+    return !input_stream.fail() && ( input_stream >> std::ws ).eof();
   }
 
   template<class T>
@@ -75,7 +76,8 @@ namespace StringUtilities
     input_stream >> output;
     if( !input_stream.fail() )
     {
-      return true;
+      // The entire string, up to trailing whitespace, must be part of the value
+      return ( input_stream >> std::ws ).eof();
     }
     if( in_string == "-inf" )
     {
-- 
2.43.0


From 054f4be59f674050583fa9dcdc06bfed5d7d4491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:29 +0000
Subject: [PATCH 09/37] fix: a matrix with an empty diagonal entry is not the
 identity

---
 scisim/Math/MathUtilities.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scisim/Math/MathUtilities.cpp b/scisim/Math/MathUtilities.cpp
index 4a69725..4fa396f 100644
--- a/scisim/Math/MathUtilities.cpp
+++ b/scisim/Math/MathUtilities.cpp
@@ -46,12 +46,14 @@ bool MathUtilities::isIdentity( const SparseMatrixsc& A, const scalar& tol )
   {
     return false;
   }
+  Eigen::Index num_diagonal_entries{ 0 };
   for( int outer_idx = 0; outer_idx < A.outerSize(); ++outer_idx )
   {
     for( SparseMatrixsc::InnerIterator it( A, outer_idx ); it; ++it )
     {
       if( it.row() == it.col() )
       {
+        ++num_diagonal_entries;
         if( fabs( it.value() - 1.0 ) > tol )
         {
           return false;
@@ -66,7 +68,8 @@ bool MathUtilities::isIdentity( const SparseMatrixsc& A, const scalar& tol )
       }
     }
   }
-  return true;
+  // Entries that are not stored are zero
+  return num_diagonal_entries == A.rows();
 }
 
 bool MathUtilities::isSymmetric( const SparseMatrixsc& A, const scalar& tol )
-- 
2.43.0


From 73c57761e3e668b87aef8c6d920f9fd1da2e97c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:38 +0000
Subject: [PATCH 10/37] fix: static cylinder vs mesh contact normal taken at
 the contact point

---
 rigidbody3d/Constraints/StaticCylinderBodyConstraint.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rigidbody3d/Constraints/StaticCylinderBodyConstraint.cpp b/rigidbody3d/Constraints/StaticCylinderBodyConstraint.cpp
index 519ff4f..d23bb1b 100644
--- a/rigidbody3d/Constraints/StaticCylinderBodyConstraint.cpp
+++ b/rigidbody3d/Constraints/StaticCylinderBodyConstraint.cpp
@@ -83,9 +83,10 @@ std::string StaticCylinderBodyConstraint::name() const
 
 Vector3s StaticCylinderBodyConstraint::computeN( const VectorXs& q ) const
 {
-  const Vector3s x_body{ q.segment<3>( 3 * m_idx_body ) };
+  // The normal is that of the cylinder at the point of contact, not at the body's center
+  const Vector3s x_contact{ q.segment<3>( 3 * m_idx_body ) + m_r };
   const Vector3s axis{ m_cyl.axis() };
-  Vector3s n{ - ( x_body - m_cyl.x() - axis.dot( x_body - m_cyl.x() ) * axis ) };
+  Vector3s n{ - ( x_contact - m_cyl.x() - axis.dot( x_contact - m_cyl.x() ) * axis ) };
   assert( n.norm() > 0.0 );
   return n / n.norm();
 }
-- 
2.43.0


From a8937960253871f59ef8e45a2ac083aba1cbc10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:38 +0000
Subject: [PATCH 11/37] fix: Lees-Edwards circle contacts report unknown
 penetration depth, not zero

---
 rigidbody2d/KinematicKickCircleCircleConstraint.cpp | 6 ++++++
 rigidbody2d/KinematicKickCircleCircleConstraint.h   | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/rigidbody2d/KinematicKickCircleCircleConstraint.cpp b/rigidbody2d/KinematicKickCircleCircleConstraint.cpp
index 8d54365..424de62 100644
--- a/rigidbody2d/KinematicKickCircleCircleConstraint.cpp
+++ b/rigidbody2d/KinematicKickCircleCircleConstraint.cpp
@@ -54,6 +54,12 @@ VectorXs KinematicKickCircleCircleConstraint::computeRelativeVelocity( const Vec
   return v.segment<2>( 3 * m_idx0 ) + v( 3 * m_idx0 + 2 ) * t0 - v.segment<2>( 3 * m_idx1 ) - v( 3 * m_idx1 + 2 ) * t1 - m_kinematic_kick;
 }
 
+scalar KinematicKickCircleCircleConstraint::computePenetrationDepth( const VectorXs& q ) const
+{
+  // Displacements are not tracked, so the depth is not known
+  return SCALAR_NAN;
+}
+
 VectorXs KinematicKickCircleCircleConstraint::computeKinematicRelativeVelocity( const VectorXs& q, const VectorXs& v ) const
 {
   return m_kinematic_kick;
diff --git a/rigidbody2d/KinematicKickCircleCircleConstraint.h b/rigidbody2d/KinematicKickCircleCircleConstraint.h
index 64f9893..b734db1 100644
--- a/rigidbody2d/KinematicKickCircleCircleConstraint.h
+++ b/rigidbody2d/KinematicKickCircleCircleConstraint.h
@@ -28,6 +28,8 @@ private:
 
   virtual VectorXs computeRelativeVelocity( const VectorXs& q, const VectorXs& v ) const override;
 
+  virtual scalar computePenetrationDepth( const VectorXs& q ) const override;
+
   virtual VectorXs computeKinematicRelativeVelocity( const VectorXs& q, const VectorXs& v ) const override;
 
 };
-- 
2.43.0


From af7aad3b0db392e65b3622ba4c086f3ade5625d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:22 +0000
Subject: [PATCH 12/37] fix: APGD hangs when its initial Lipschitz estimate is
 degenerate

---
 scisim/Math/QPSolvers/ProjectionSolvers.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scisim/Math/QPSolvers/ProjectionSolvers.h b/scisim/Math/QPSolvers/ProjectionSolvers.h
index e66228b..eadfdb6 100644
--- a/scisim/Math/QPSolvers/ProjectionSolvers.h
+++ b/scisim/Math/QPSolvers/ProjectionSolvers.h
@@ -52,12 +52,16 @@ namespace ProjectionSolvers
 
     VectorXs y0{ x0 };
     scalar theta0{ 1.0 };
-    assert( ( x0.array() != x1.array() ).any() );
     g = x0 - x1;
     mult( A, g, y1 );
     // Initial estimate of the Lipschitz constant
     scalar Lk{ y1.norm() / ( x0 - x1 ).norm() };
-    assert( Lk != 0.0 );
+    // The estimate is degenerate if x0 is the probe point or if the probe direction is in the null space of A. The
+    // line search below increases Lk as needed, so any positive value will do.
+    if( !( Lk > 0.0 ) )
+    {
+      Lk = 1.0;
+    }
     scalar tk{ 1.0 / Lk };
 
     scalar best_residual{ SCALAR_INFINITY };
-- 
2.43.0


From b82e7d97644c06d8aeb18f34147bd795e4b2390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:40 +0000
Subject: [PATCH 13/37] fix: GaussSeidelOperator adds cached warm start
 impulses to its result

---
 scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp b/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
index a71e630..ba03651 100644
--- a/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
+++ b/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
@@ -22,9 +22,11 @@ GaussSeidelOperator::GaussSeidelOperator( std::istream& input_stream )
 void GaussSeidelOperator::flow( const std::vector<std::unique_ptr<Constraint>>& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha )
 {
   // TODO: Check input sizes, etc
-  assert( ( alpha.array() == 0.0 ).all() );
   assert( ( v0.array() == v0F.array() ).all() );
 
+  // Impulses are accumulated into alpha starting from v0, so discard any cached warm start values
+  alpha.setZero();
+
   const unsigned ncons{ unsigned( cons.size() ) };
 
   VectorXs v1 = v0;
-- 
2.43.0


From b4489e697d5c11618afdaad911589aa824ffb9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:25 +0000
Subject: [PATCH 14/37] fix: APGD line search never ends once the objective
 change is below roundoff

---
 scisim/Math/QPSolvers/ProjectionSolvers.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scisim/Math/QPSolvers/ProjectionSolvers.h b/scisim/Math/QPSolvers/ProjectionSolvers.h
index eadfdb6..3194634 100644
--- a/scisim/Math/QPSolvers/ProjectionSolvers.h
+++ b/scisim/Math/QPSolvers/ProjectionSolvers.h
@@ -103,6 +103,11 @@ namespace ProjectionSolvers
         {
           break;
         }
+        // The comparison can fail for every step size if the change in the objective is below roundoff
+        if( Lk > 0.5 * std::numeric_limits<scalar>::max() )
+        {
+          break;
+        }
         Lk = 2.0 * Lk;
         assert( Lk != 0.0 );
         tk = 1.0 / Lk;
-- 
2.43.0


From 1ab2449f983e8fa1bb25bffe2fdc841429eeb8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:54 +0000
Subject: [PATCH 15/37] fix: exponential_euler integrates fixed bodies

---
 .../UnconstrainedMaps/ExponentialEulerMap.cpp | 31 ++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.cpp b/rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.cpp
index 6f1080d..dec5baa 100644
--- a/rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.cpp
+++ b/rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.cpp
@@ -36,17 +36,6 @@ void ExponentialEulerMap::flow( const VectorXs& q0, const VectorXs& v0, Flowable
   assert( iteration > 0 );
   const scalar next_time{ iteration * dt };
 
-  // Until kinematic sripting support is added, make sure code not called
-  #ifndef NDEBUG
-  {
-    const unsigned nbodies{ static_cast<unsigned>(q0.size() / 12) };
-    for( unsigned i = 0; i < nbodies; ++i )
-    {
-      assert( !fsys.isKinematicallyScripted( i ) );
-    }
-  }
-  #endif
-
   assert( q0.size() % 12 == 0 );
   assert( q0.size() == 2 * v0.size() );
 
@@ -55,6 +44,14 @@ void ExponentialEulerMap::flow( const VectorXs& q0, const VectorXs& v0, Flowable
   // For each body
   for( unsigned i = 0; i < nbodies; ++i )
   {
+    // Kinematic bodies are not integrated
+    if( fsys.isKinematicallyScripted( i ) )
+    {
+      q1.segment<3>( 3 * i ) = q0.segment<3>( 3 * i );
+      q1.segment<9>( 3 * nbodies + 9 * i ) = q0.segment<9>( 3 * nbodies + 9 * i );
+      continue;
+    }
+
     // Update the center of mass position
     q1.segment<3>( 3 * i ) = q0.segment<3>( 3 * i ) + dt * v0.segment<3>( 3 * i );
 
@@ -78,6 +75,13 @@ void ExponentialEulerMap::flow( const VectorXs& q0, const VectorXs& v0, Flowable
   // For each body
   for( unsigned i = 0; i < nbodies; ++i )
   {
+    if( fsys.isKinematicallyScripted( i ) )
+    {
+      v1.segment<3>( 3 * i ) = v0.segment<3>( 3 * i );
+      v1.segment<3>( 3 * ( nbodies + i ) ) = v0.segment<3>( 3 * ( nbodies + i ) );
+      continue;
+    }
+
     // Update the linear velocity
     v1.segment<3>( 3 * i ) = v0.segment<3>( 3 * i ) + dt * A.segment<3>( 3 * i );
 
@@ -88,6 +92,11 @@ void ExponentialEulerMap::flow( const VectorXs& q0, const VectorXs& v0, Flowable
   // For each body
   for( unsigned i = 0; i < nbodies; ++i )
   {
+    if( fsys.isKinematicallyScripted( i ) )
+    {
+      continue;
+    }
+
     // Project the orientation back to a rotation
     projectOrientation( i, q1 );
   }
-- 
2.43.0


From 0cffd60efa4eb7cc222c139b2c75b7eae67ac0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:10 +0000
Subject: [PATCH 16/37] fix: build teleported contacts from the image detected
 at the end of the step (Lees-Edwards wrap)

---
 ball2d/Ball2DSim.cpp           |  6 +++++-
 rigidbody2d/RigidBody2DSim.cpp | 22 +++++++---------------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/ball2d/Ball2DSim.cpp b/ball2d/Ball2DSim.cpp
index d14ce47..be672f5 100644
--- a/ball2d/Ball2DSim.cpp
+++ b/ball2d/Ball2DSim.cpp
@@ -656,9 +656,13 @@ void Ball2DSim::generateTeleportedBallBallCollision( const VectorXs& q0, const V
   assert( q0.size() % 2 == 0 ); assert( q0.size() == q1.size() );
 
   // Get the center of mass of each body after the teleportation using start of step state
+  // N.B. the end of step teleportation is applied to the start of step state; teleporting the start of step state
+  //      could select a different periodic image when a body crosses a Lees-Edwards portal's tangential bounds
   Vector2s x0;
   Vector2s x1;
-  getTeleportedBallBallCenters( q0, teleported_collision, x0, x1 );
+  getTeleportedBallBallCenters( q1, teleported_collision, x0, x1 );
+  x0 += q0.segment<2>( 2 * teleported_collision.bodyIndex0() ) - q1.segment<2>( 2 * teleported_collision.bodyIndex0() );
+  x1 += q0.segment<2>( 2 * teleported_collision.bodyIndex1() ) - q1.segment<2>( 2 * teleported_collision.bodyIndex1() );
   const scalar ri{ r( teleported_collision.bodyIndex0() ) };
   const scalar rj{ r( teleported_collision.bodyIndex1() ) };
 
diff --git a/rigidbody2d/RigidBody2DSim.cpp b/rigidbody2d/RigidBody2DSim.cpp
index 56466e2..d95caf6 100644
--- a/rigidbody2d/RigidBody2DSim.cpp
+++ b/rigidbody2d/RigidBody2DSim.cpp
@@ -486,25 +486,17 @@ void RigidBody2DSim::dispatchTeleportedNarrowPhaseCollision( const TeleportedCol
   }
 
   // Get the center of mass of each body after the teleportation for the start and end of the step
-  Vector2s x0_t0;
-  Vector2s x1_t0;
-  getTeleportedCollisionCenters( q0, teleported_collision, x0_t0, x1_t0 );
-  const Vector2s delta0_t0{ x0_t0 - q0.segment<2>( 3 * teleported_collision.bodyIndex0() ) };
-  const Vector2s delta1_t0{ x1_t0 - q0.segment<2>( 3 * teleported_collision.bodyIndex1() ) };
-
   Vector2s x0_t1;
   Vector2s x1_t1;
   getTeleportedCollisionCenters( q1, teleported_collision, x0_t1, x1_t1 );
+  // N.B. the end of step teleportation is applied to the start of step state; teleporting the start of step state
+  //      could select a different periodic image when a body crosses a Lees-Edwards portal's tangential bounds
   // TODO: If Lees-Edwards conditions are updated to have different locations at start and end of step
-  //       (instead of same at each, as now) these tests will no longer hold
-  #ifndef NDEBUG
-  {
-    const Vector2s delta0_t1{ x0_t1 - q1.segment<2>( 3 * teleported_collision.bodyIndex0() ) };
-    assert( ( delta0_t0 - delta0_t1 ).lpNorm<Eigen::Infinity>() <= 1.0e-6 );
-    const Vector2s delta1_t1{ x1_t1 - q1.segment<2>( 3 * teleported_collision.bodyIndex1() ) };
-    assert( ( delta1_t0 - delta1_t1 ).lpNorm<Eigen::Infinity>() <= 1.0e-6 );
-  }
-  #endif
+  //       (instead of same at each, as now) this will no longer hold
+  const Vector2s delta0_t0{ x0_t1 - q1.segment<2>( 3 * teleported_collision.bodyIndex0() ) };
+  const Vector2s delta1_t0{ x1_t1 - q1.segment<2>( 3 * teleported_collision.bodyIndex1() ) };
+  const Vector2s x0_t0{ q0.segment<2>( 3 * teleported_collision.bodyIndex0() ) + delta0_t0 };
+  const Vector2s x1_t0{ q0.segment<2>( 3 * teleported_collision.bodyIndex1() ) + delta1_t0 };
 
   // At least one of the bodies must have been teleported
   assert( teleported_collision.portalIndex0() != std::numeric_limits<unsigned>::max() || teleported_collision.portalIndex1() != std::numeric_limits<unsigned>::max() );
-- 
2.43.0


From 5efa1d66a0bbfa7291dd634058d14c1b50dafd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:41 +0000
Subject: [PATCH 17/37] fix: use the squared length in the staple's inertia

---
 rigidbody3d/Geometry/RigidBodyStaple.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rigidbody3d/Geometry/RigidBodyStaple.cpp b/rigidbody3d/Geometry/RigidBodyStaple.cpp
index fab5f7e..84cee1c 100644
--- a/rigidbody3d/Geometry/RigidBodyStaple.cpp
+++ b/rigidbody3d/Geometry/RigidBodyStaple.cpp
@@ -39,21 +39,21 @@ void RigidBodyStaple::computeMassAndInertia( const scalar& density, scalar& M, V
     I.x() += 2.0 * My * ( CMy.y() * CMy.y() + CMy.z() * CMy.z() );
     // Contributions from cylinders' centers of mass
     I.x() += Mx * ( m_r * m_r ) / 2.0;
-    I.x() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l * m_l ) / 12.0;
+    I.x() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l ) / 12.0;
 
     // Contributions from translating the cylinders
     I.y() = Mx * ( CMx.x() * CMx.x() + CMx.z() * CMx.z() );
     I.y() += 2.0 * My * ( CMy.x() * CMy.x() + CMy.z() * CMy.z() );
     // Contributions from cylinders' centers of mass
-    I.y() += Mx * ( 3.0 * m_r * m_r + m_w * m_w * m_w ) / 12.0;
+    I.y() += Mx * ( 3.0 * m_r * m_r + m_w * m_w ) / 12.0;
     I.y() += My * ( m_r * m_r );
 
     // Contributions from translating the cylinders
     I.z() = Mx * ( CMx.x() * CMx.x() + CMx.y() * CMx.y() );
     I.z() += 2.0 * My * ( CMy.x() * CMy.x() + CMy.y() * CMy.y() );
     // Contributions from cylinders' centers of mass
-    I.z() += Mx * ( 3.0 * m_r * m_r + m_w * m_w * m_w ) / 12.0;
-    I.z() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l * m_l ) / 12.0;
+    I.z() += Mx * ( 3.0 * m_r * m_r + m_w * m_w ) / 12.0;
+    I.z() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l ) / 12.0;
   }
 
   R.setIdentity();
-- 
2.43.0


From f4e7c096afc3a81bd1ca658271557a503278bafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:41 +0000
Subject: [PATCH 18/37] fix: include the staple's thickness in its bounding box

---
 rigidbody3d/Geometry/RigidBodyStaple.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rigidbody3d/Geometry/RigidBodyStaple.cpp b/rigidbody3d/Geometry/RigidBodyStaple.cpp
index 84cee1c..d914c23 100644
--- a/rigidbody3d/Geometry/RigidBodyStaple.cpp
+++ b/rigidbody3d/Geometry/RigidBodyStaple.cpp
@@ -108,6 +108,9 @@ void RigidBodyStaple::computeAABB( const Vector3s& cm, const Matrix33sr& R, Arra
     min = min.min( transformed_vertex );
     max = max.max( transformed_vertex );
   }
+  // The corners lie on the center line of the staple
+  min -= m_r;
+  max += m_r;
   assert( ( min < max ).all() );
 }
 
-- 
2.43.0


From 0ac17670cb1c95c00a94e16f1a002580f505e6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:52 +0000
Subject: [PATCH 19/37] fix: clear the mass matrices when a 3D state is
 replaced by one without bodies

---
 rigidbody3d/RigidBody3DState.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rigidbody3d/RigidBody3DState.cpp b/rigidbody3d/RigidBody3DState.cpp
index 17dfd0a..638b645 100644
--- a/rigidbody3d/RigidBody3DState.cpp
+++ b/rigidbody3d/RigidBody3DState.cpp
@@ -294,6 +294,13 @@ void RigidBody3DState::setState( const std::vector<Vector3s>& X, const std::vect
     m_M = formWorldSpaceMassMatrix( M, I0, R );
     m_Minv = formWorldSpaceInverseMassMatrix( M, I0, R );
   }
+  else
+  {
+    m_M0.resize( 0, 0 );
+    m_Minv0.resize( 0, 0 );
+    m_M.resize( 0, 0 );
+    m_Minv.resize( 0, 0 );
+  }
 
   assert( MathUtilities::isIdentity( m_M0 * m_Minv0, 1.0e-9 ) );
   assert( MathUtilities::isIdentity( m_M * m_Minv, 1.0e-9 ) );
-- 
2.43.0


From c1d3325ddc0334c1d24bbe69134a6b6f886edc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:40 +0000
Subject: [PATCH 20/37] fix: keep the line breaks of scene files, which
 separate attributes

---
 ball2dutils/Ball2DSceneParser.cpp           | 2 ++
 rigidbody2dutils/RigidBody2DSceneParser.cpp | 2 ++
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index 52dfa8c..b633a52 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -66,6 +66,8 @@ static bool loadTextFileIntoVector( const std::string& filename, std::vector<cha
   while( getline( textfile, line ) )
   {
     std::copy( line.cbegin(), line.cend(), back_inserter( xmlchars ) );
+    // A line break separates tokens like any other whitespace
+    xmlchars.emplace_back( '\n' );
   }
   xmlchars.emplace_back( '\0' );
 
diff --git a/rigidbody2dutils/RigidBody2DSceneParser.cpp b/rigidbody2dutils/RigidBody2DSceneParser.cpp
index 0082c68..cfed7a4 100644
--- a/rigidbody2dutils/RigidBody2DSceneParser.cpp
+++ b/rigidbody2dutils/RigidBody2DSceneParser.cpp
@@ -62,6 +62,8 @@ static bool loadTextFileIntoVector( const std::string& filename, std::vector<cha
   while( getline( textfile, line ) )
   {
     std::copy( line.cbegin(), line.cend(), back_inserter( xmlchars ) );
+    // A line break separates tokens like any other whitespace
+    xmlchars.emplace_back( '\n' );
   }
   xmlchars.emplace_back( '\0' );
 
diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 2b013f9..6678042 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -68,6 +68,8 @@ static bool loadTextFileIntoVector( const std::string& filename, std::vector<cha
   while( getline( textfile, line ) )
   {
     std::copy( line.cbegin(), line.cend(), back_inserter( xmlchars ) );
+    // A line break separates tokens like any other whitespace
+    xmlchars.emplace_back( '\n' );
   }
   xmlchars.emplace_back( '\0' );
 
-- 
2.43.0


From 481d0fd7f4f4f7578de87526e4f0458b339af863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:12 +0000
Subject: [PATCH 21/37] fix: reject malformed and nonpositive attributes in
 ball2d scenes

---
 ball2dutils/Ball2DSceneParser.cpp | 47 +++++++++++++++----------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index b633a52..80c78b7 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -249,40 +249,40 @@ static bool loadBalls( const rapidxml::xml_node<>& node, std::vector<Ball2D>& ba
 
     const rapidxml::xml_attribute<>* const x_attrib{ nd->first_attribute( "x" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), x.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), x.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const y_attrib{ nd->first_attribute( "y" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), x.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), x.y() ) ) { return false; }
 
     // Attempt to parse the ball's velocity
     Vector2s v;
 
     const rapidxml::xml_attribute<>* const vx_attrib{ nd->first_attribute( "vx" ) };
     if( !vx_attrib ) { return false; }
-    StringUtilities::extractFromString( vx_attrib->value(), v.x() );
+    if( !StringUtilities::extractFromString( vx_attrib->value(), v.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const vy_attrib{ nd->first_attribute( "vy" ) };
     if( !vy_attrib ) { return false; }
-    StringUtilities::extractFromString( vy_attrib->value(), v.y() );
+    if( !StringUtilities::extractFromString( vy_attrib->value(), v.y() ) ) { return false; }
 
     // Attempt to parse the ball's mass
     scalar m;
     const rapidxml::xml_attribute<>* const m_attrib{ nd->first_attribute( "m" ) };
     if( !m_attrib ) { return false; }
-    StringUtilities::extractFromString( m_attrib->value(), m );
+    if( !StringUtilities::extractFromString( m_attrib->value(), m ) || !( m > 0.0 ) ) { return false; }
 
     // Attempt to parse the ball's radius
     scalar r;
     const rapidxml::xml_attribute<>* const r_attrib{ nd->first_attribute( "r" ) };
     if( !r_attrib ) { return false; }
-    StringUtilities::extractFromString( r_attrib->value(), r );
+    if( !StringUtilities::extractFromString( r_attrib->value(), r ) || !( r > 0.0 ) ) { return false; }
 
     // Attempt to parse whether the ball is fixed
     bool fixed;
     const rapidxml::xml_attribute<>* const fixed_attrib{ nd->first_attribute( "fixed" ) };
     if( !fixed_attrib ) { return false; }
-    StringUtilities::extractFromString( fixed_attrib->value(), fixed );
+    if( !StringUtilities::extractFromString( fixed_attrib->value(), fixed ) ) { return false; }
 
     balls.emplace_back( x, v, m, r, fixed );
   }
@@ -299,17 +299,17 @@ static bool loadStaticDrums( const rapidxml::xml_node<>& node, std::vector<Stati
 
     const rapidxml::xml_attribute<>* const x_attrib{ nd->first_attribute( "x" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), x.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), x.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const y_attrib{ nd->first_attribute( "y" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), x.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), x.y() ) ) { return false; }
 
     // Attempt to parse the drums's radius
     scalar r;
     const rapidxml::xml_attribute<>* const r_attrib{ nd->first_attribute( "r" ) };
     if( !r_attrib ) { return false; }
-    StringUtilities::extractFromString( r_attrib->value(), r );
+    if( !StringUtilities::extractFromString( r_attrib->value(), r ) || !( r > 0.0 ) ) { return false; }
 
     drums.emplace_back( x, r );
   }
@@ -329,16 +329,12 @@ static bool loadStaticPlanes( const rapidxml::xml_node<>& node, std::vector<Stat
 
       std::stringstream ss;
       ss << attrib->value();
-      scalar component;
-      std::vector<scalar> components;
-      while( ss >> component ) { components.emplace_back( component ); }
-      if( components.size() != 2 )
+      ss >> x.x() >> x.y();
+      if( ss.fail() || !( ss >> std::ws ).eof() )
       {
         std::cerr << "Invalid number of components for static_plane x. Two required." << std::endl;
         return false;
       }
-
-      x << components[0], components[1];
     }
 
     // Read the normal
@@ -349,16 +345,17 @@ static bool loadStaticPlanes( const rapidxml::xml_node<>& node, std::vector<Stat
 
       std::stringstream ss;
       ss << attrib->value();
-      scalar component;
-      std::vector<scalar> components;
-      while( ss >> component ) { components.emplace_back( component ); }
-      if( components.size() != 2 )
+      ss >> n.x() >> n.y();
+      if( ss.fail() || !( ss >> std::ws ).eof() )
       {
         std::cerr << "Invalid number of components for static_plane n. Two required." << std::endl;
         return false;
       }
-
-      n << components[0], components[1];
+      if( !( n.norm() > 0.0 ) )
+      {
+        std::cerr << "Invalid static_plane n. A nonzero vector is required." << std::endl;
+        return false;
+      }
     }
 
     planes.emplace_back( x, n );
@@ -1433,11 +1430,11 @@ static bool loadGravityForce( const rapidxml::xml_node<>& node, std::vector<std:
 
     const rapidxml::xml_attribute<>* x_attrib{ nd->first_attribute( "fx" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), f.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), f.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* y_attrib{ nd->first_attribute( "fy" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), f.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), f.y() ) ) { return false; }
 
     forces.emplace_back( new Ball2DGravityForce{ f } );
   }
@@ -1457,7 +1454,7 @@ static bool loadPenaltyForce( const rapidxml::xml_node<>& node, std::vector<std:
         std::cerr << "Failed to locate stiffness attribute for penalty." << std::endl;
         return false;
       }
-      if( !StringUtilities::extractFromString( stiffness_attrib->value(), stiffness ) || stiffness < 0.0 )
+      if( !StringUtilities::extractFromString( stiffness_attrib->value(), stiffness ) || stiffness <= 0.0 )
       {
         std::cerr << "Failed to load stiffness attribute for penalty. Value must be a positive scalar." << std::endl;
         return false;
-- 
2.43.0


From 287f7ef191302d51e44d60e2f0e76fb00732f0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:01 +0000
Subject: [PATCH 22/37] fix: reject negative text for unsigned values instead
 of wrapping around

---
 scisim/StringUtilities.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scisim/StringUtilities.h b/scisim/StringUtilities.h
index b3aa41c..f88beb7 100644
--- a/scisim/StringUtilities.h
+++ b/scisim/StringUtilities.h
@@ -12,6 +12,7 @@
 #include <vector>
 #include <sstream>
 #include <limits>
+#include <type_traits>
 
 namespace Eigen { template <typename Derived> class DenseBase; }
 
@@ -63,6 +64,11 @@ namespace StringUtilities
   template<class T>
   bool extractFromString( const std::string& in_string, T& output )
   {
+    // A minus sign is not part of an unsigned value, but the stream operator would wrap it around
+    if( std::is_unsigned<T>::value && in_string.find( '-' ) != std::string::npos )
+    {
+      return false;
+    }
     std::stringstream input_stream( in_string );
     input_stream >> output;
     // The entire string, up to trailing whitespace, must be part of the value
-- 
2.43.0


From cfa9f7dc8556ae734694090c85e568775310d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:01 +0000
Subject: [PATCH 23/37] fix: reject a zero lees_edwards_portal bound in
 rigidbody2d scenes

---
 rigidbody2dutils/RigidBody2DSceneParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigidbody2dutils/RigidBody2DSceneParser.cpp b/rigidbody2dutils/RigidBody2DSceneParser.cpp
index cfed7a4..c0052d2 100644
--- a/rigidbody2dutils/RigidBody2DSceneParser.cpp
+++ b/rigidbody2dutils/RigidBody2DSceneParser.cpp
@@ -463,7 +463,7 @@ static bool loadPlanarPortals( const rapidxml::xml_node<>& node, std::vector<Rig
           std::cerr << "Could not load bounds attribue for lees_edwards_portal, value must be a scalar" << std::endl;
           return false;
         }
-        if( bounds < 0 )
+        if( bounds <= 0 )
         {
           std::cerr << "Failed to load bounds attribute for lees_edwards_portal, value must be positive" << std::endl;
           return false;
-- 
2.43.0


From f4b18a6fa38e12f5c7049dd7cfc7b46a3659db7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:01 +0000
Subject: [PATCH 24/37] fix: reject malformed vectors, nonpositive densities
 and invalid indices in rigidbody3d scenes

---
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 60 ++++++++-------------
 1 file changed, 22 insertions(+), 38 deletions(-)

diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 6678042..8f0f74d 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -297,19 +297,12 @@ static bool loadSimState( const rapidxml::xml_node<>& node, RigidBody3DState& si
 
       std::stringstream ss;
       ss << attrib->value();
-      std::vector<scalar> vals;
-      scalar input_scalar;
-      while( ss >> input_scalar )
-      {
-        vals.emplace_back( input_scalar );
-      }
-      if( vals.size() != 3 )
+      ss >> x.x() >> x.y() >> x.z();
+      if( ss.fail() || !( ss >> std::ws ).eof() )
       {
         std::cerr << "Failed to load x" << std::endl;
         return false;
       }
-
-      x << vals[0], vals[1], vals[2];
     }
     // Load the center of mass' velocity
     Vector3s v;
@@ -323,19 +316,12 @@ static bool loadSimState( const rapidxml::xml_node<>& node, RigidBody3DState& si
 
       std::stringstream ss;
       ss << attrib->value();
-      std::vector<scalar> vals;
-      scalar input_scalar;
-      while( ss >> input_scalar )
-      {
-        vals.emplace_back( input_scalar );
-      }
-      if( vals.size() != 3 )
+      ss >> v.x() >> v.y() >> v.z();
+      if( ss.fail() || !( ss >> std::ws ).eof() )
       {
         std::cerr << "Failed to load v" << std::endl;
         return false;
       }
-
-      v << vals[0], vals[1], vals[2];
     }
     vs.emplace_back( v );
     // Load the angular velocity about the center of mass
@@ -350,19 +336,12 @@ static bool loadSimState( const rapidxml::xml_node<>& node, RigidBody3DState& si
 
       std::stringstream ss;
       ss << attrib->value();
-      std::vector<scalar> vals;
-      scalar input_scalar;
-      while( ss >> input_scalar )
-      {
-        vals.emplace_back( input_scalar );
-      }
-      if( vals.size() != 3 )
+      ss >> omega.x() >> omega.y() >> omega.z();
+      if( ss.fail() || !( ss >> std::ws ).eof() )
       {
         std::cerr << "Failed to load omega" << std::endl;
         return false;
       }
-
-      omega << vals[0], vals[1], vals[2];
     }
     omegas.emplace_back( omega );
     // Load the density of the body
@@ -375,7 +354,7 @@ static bool loadSimState( const rapidxml::xml_node<>& node, RigidBody3DState& si
         return false;
       }
       const bool parsed{ StringUtilities::extractFromString( attrib->value(), rho ) };
-      if( !parsed )
+      if( !parsed || rho <= 0.0 )
       {
         std::cerr << "Failed to load rho" << std::endl;
         return false;
@@ -416,8 +395,7 @@ static bool loadSimState( const rapidxml::xml_node<>& node, RigidBody3DState& si
     }
     if( geometry_index < 0 )
     {
-      using std::abs;
-      if( static_cast<unsigned long>(abs(geometry_index)) > geometry.size() )
+      if( geometry_index < -int(geometry.size()) )
       {
         std::cerr << "Invalid geometry index specified: " << geometry_index << std::endl;
         std::cerr << "Valid indices: [" << -int(geometry.size()) << ", " << geometry.size() - 1 << "]" << std::endl;
@@ -539,6 +517,11 @@ static bool loadStaticPlanes( const rapidxml::xml_node<>& node, RigidBody3DState
         std::cerr << "Failed to load n attribute for static_plane, must provide 3 scalars." << std::endl;
         return false;
       }
+      if( n.norm() == 0.0 )
+      {
+        std::cerr << "Failed to load n attribute for static_plane, must provide a nonzero vector." << std::endl;
+        return false;
+      }
       assert( x.size() == 3 );
     }
     // Create the plane
@@ -772,6 +755,11 @@ static bool loadStaticCylinders( const rapidxml::xml_node<>& node, RigidBody3DSt
         std::cerr << "Failed to load axis attribute for static_cylinder. Must provide 3 scalars." << std::endl;
         return false;
       }
+      if( axis.norm() == 0.0 )
+      {
+        std::cerr << "Failed to load axis attribute for static_cylinder. Must provide a nonzero vector." << std::endl;
+        return false;
+      }
       assert( axis.size() == 3 );
     }
     // Read the radius of the cylinder
@@ -809,14 +797,12 @@ static bool loadStaticPlaneRenderers( const rapidxml::xml_node<>& node, const st
         std::cerr << "Failed to locate plane attribute for static_plane_renderer." << std::endl;
         return false;
       }
-      std::stringstream ss;
-      ss << attrib->value();
-      if( !( ss >> idx ) )
+      if( !StringUtilities::extractFromString( attrib->value(), idx ) )
       {
         std::cerr << "Failed to load plane attribute for static_plane_renderer. Must provide a non-negative integer." << std::endl;
         return false;
       }
-      if( idx > planes.size() )
+      if( idx >= planes.size() )
       {
         std::cerr << "Failed to load plane attribute for static_plane_renderer. Invalid plane index specified." << std::endl;
         return false;
@@ -859,14 +845,12 @@ static bool loadStaticCylinderRenderers( const rapidxml::xml_node<>& node, const
         std::cerr << "Failed to locate cylinder_idx attribute for static_cylinder_renderer." << std::endl;
         return false;
       }
-      std::stringstream ss;
-      ss << attrib->value();
-      if( !( ss >> idx ) )
+      if( !StringUtilities::extractFromString( attrib->value(), idx ) )
       {
         std::cerr << "Failed to load cylinder_idx attribute for static_cylinder_renderer. Must provide a non-negative integer." << std::endl;
         return false;
       }
-      if( idx > cylinders.size() )
+      if( idx >= cylinders.size() )
       {
         std::cerr << "Failed to load cylinder_idx attribute for static_cylinder_renderer. Invalid cylinder index specified." << std::endl;
         return false;
-- 
2.43.0


From 9243dd9b483a7ac87b0c61f98b98b55116ef2b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:09 +0000
Subject: [PATCH 25/37] fix: report snapshots that could not be written
 completely

---
 ball2dcli/ball2d_cli.cpp           | 9 +++++++++
 rigidbody2dcli/rigidbody2d_cli.cpp | 9 +++++++++
 rigidbody3dcli/rigidbody3d_cli.cpp | 9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/ball2dcli/ball2d_cli.cpp b/ball2dcli/ball2d_cli.cpp
index 5d0ea40..4ae1be9 100644
--- a/ball2dcli/ball2d_cli.cpp
+++ b/ball2dcli/ball2d_cli.cpp
@@ -247,6 +247,15 @@ static int serializeSystem()
   Utilities::serialize( g_serialize_snapshots, serial_stream );
   Utilities::serialize( g_overwrite_snapshots, serial_stream );
 
+  // Verify that the snapshot made it to disk
+  serial_stream.close();
+  if( serial_stream.fail() )
+  {
+    std::cerr << "Failed to write serialization file: " << serialized_file_name << std::endl;
+    std::cerr << "Exiting." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
 
diff --git a/rigidbody2dcli/rigidbody2d_cli.cpp b/rigidbody2dcli/rigidbody2d_cli.cpp
index 4c713f8..3d32202 100644
--- a/rigidbody2dcli/rigidbody2d_cli.cpp
+++ b/rigidbody2dcli/rigidbody2d_cli.cpp
@@ -238,6 +238,15 @@ static int serializeSystem()
   Utilities::serialize( g_serialize_snapshots, serial_stream );
   Utilities::serialize( g_overwrite_snapshots, serial_stream );
 
+  // Verify that the snapshot made it to disk
+  serial_stream.close();
+  if( serial_stream.fail() )
+  {
+    std::cerr << "Failed to write serialization file: " << serialized_file_name << std::endl;
+    std::cerr << "Exiting." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
 
diff --git a/rigidbody3dcli/rigidbody3d_cli.cpp b/rigidbody3dcli/rigidbody3d_cli.cpp
index 602b8f3..50009ef 100644
--- a/rigidbody3dcli/rigidbody3d_cli.cpp
+++ b/rigidbody3dcli/rigidbody3d_cli.cpp
@@ -252,6 +252,15 @@ static int serializeSystem()
   Utilities::serialize( g_serialize_snapshots, serial_stream );
   Utilities::serialize( g_overwrite_snapshots, serial_stream );
 
+  // Verify that the snapshot made it to disk
+  serial_stream.close();
+  if( serial_stream.fail() )
+  {
+    std::cerr << "Failed to write serialization file: " << serialized_file_name << std::endl;
+    std::cerr << "Exiting." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
 
-- 
2.43.0


From e70a085f8dfb25b72a96c7faa6ae7d73ecd758a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:25 +0000
Subject: [PATCH 26/37] fix: planar portals without a period no longer divide
 by it and convert the result to int

---
 ball2d/Portals/PlanarPortal.cpp | 22 +++++++++++++++++-----
 rigidbody2d/PlanarPortal.cpp    | 22 +++++++++++++++++-----
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/ball2d/Portals/PlanarPortal.cpp b/ball2d/Portals/PlanarPortal.cpp
index f0b5415..b73d237 100644
--- a/ball2d/Portals/PlanarPortal.cpp
+++ b/ball2d/Portals/PlanarPortal.cpp
@@ -194,8 +194,11 @@ void PlanarPortal::teleportPointThroughPlaneA( const Vector2s& xin, Vector2s& xo
   scalar tA{ planeA().t().dot( m_dx * m_plane_a.t() + planeA().x() - xin ) };
 
   // ...accounting for periodic boundaries
-  const int repeat_x{ int( floor( ( tA + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
-  tA -= 2.0 * repeat_x * m_bounds;
+  if( m_bounds > 0.0 )
+  {
+    const scalar repeat_x{ floor( ( tA + m_bounds ) / ( 2.0 * m_bounds ) ) };
+    tA -= 2.0 * repeat_x * m_bounds;
+  }
   assert( tA >= -m_bounds || !isLeesEdwards() );
   assert( tA <= m_bounds || !isLeesEdwards() );
 
@@ -210,8 +213,11 @@ void PlanarPortal::teleportPointThroughPlaneB( const Vector2s& xin, Vector2s& xo
   scalar tB{ planeB().t().dot( m_dx * m_plane_b.t() + planeB().x() - xin ) };
 
   // ...accounting for periodic boundaries
-  const int repeat_x{ int( floor( ( tB + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
-  tB -= 2.0 * repeat_x * m_bounds;
+  if( m_bounds > 0.0 )
+  {
+    const scalar repeat_x{ floor( ( tB + m_bounds ) / ( 2.0 * m_bounds ) ) };
+    tB -= 2.0 * repeat_x * m_bounds;
+  }
   assert( tB >= -m_bounds || !isLeesEdwards() );
   assert( tB <= m_bounds || !isLeesEdwards() );
 
@@ -231,7 +237,13 @@ void PlanarPortal::serialize( std::ostream& output_stream ) const
 
 void PlanarPortal::updateMovingPortals( const scalar& t )
 {
-  const int repeat_x{ int( floor( ( m_v * t + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
+  // Only Lees-Edwards portals move, and only they have a positive period
+  if( !isLeesEdwards() )
+  {
+    m_dx = 0.0;
+    return;
+  }
+  const scalar repeat_x{ floor( ( m_v * t + m_bounds ) / ( 2.0 * m_bounds ) ) };
   m_dx = m_v * t - 2.0 * repeat_x * m_bounds;
   assert( m_dx >= -m_bounds ); assert( m_dx <= m_bounds );
 }
diff --git a/rigidbody2d/PlanarPortal.cpp b/rigidbody2d/PlanarPortal.cpp
index b8ee9ed..878e136 100644
--- a/rigidbody2d/PlanarPortal.cpp
+++ b/rigidbody2d/PlanarPortal.cpp
@@ -302,8 +302,11 @@ void PlanarPortal::teleportPointThroughPlaneA( const Vector2s& xin, Vector2s& xo
   scalar tA{ planeA().t().dot( m_dx * m_plane_a.t() + planeA().x() - xin ) };
 
   // ...accounting for periodic boundaries
-  const int repeat_x{ int( floor( ( tA + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
-  tA -= 2.0 * repeat_x * m_bounds;
+  if( m_bounds > 0.0 )
+  {
+    const scalar repeat_x{ floor( ( tA + m_bounds ) / ( 2.0 * m_bounds ) ) };
+    tA -= 2.0 * repeat_x * m_bounds;
+  }
   assert( tA >= -m_bounds || !isLeesEdwards() );
   assert( tA <= m_bounds || !isLeesEdwards() );
 
@@ -318,8 +321,11 @@ void PlanarPortal::teleportPointThroughPlaneB( const Vector2s& xin, Vector2s& xo
   scalar tB{ planeB().t().dot( m_dx * m_plane_b.t() + planeB().x() - xin ) };
 
   // ...accounting for periodic boundaries
-  const int repeat_x{ int( floor( ( tB + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
-  tB -= 2.0 * repeat_x * m_bounds;
+  if( m_bounds > 0.0 )
+  {
+    const scalar repeat_x{ floor( ( tB + m_bounds ) / ( 2.0 * m_bounds ) ) };
+    tB -= 2.0 * repeat_x * m_bounds;
+  }
   assert( tB >= -m_bounds || !isLeesEdwards() );
   assert( tB <= m_bounds || !isLeesEdwards() );
 
@@ -339,7 +345,13 @@ void PlanarPortal::serialize( std::ostream& output_stream ) const
 
 void PlanarPortal::updateMovingPortals( const scalar& t )
 {
-  const int repeat_x{ int( floor( ( m_v * t + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
+  // Only Lees-Edwards portals move, and only they have a positive period
+  if( !isLeesEdwards() )
+  {
+    m_dx = 0.0;
+    return;
+  }
+  const scalar repeat_x{ floor( ( m_v * t + m_bounds ) / ( 2.0 * m_bounds ) ) };
   m_dx = m_v * t - 2.0 * repeat_x * m_bounds;
   assert( m_dx >= -m_bounds ); assert( m_dx <= m_bounds );
 }
-- 
2.43.0


From 3dbd03182c90efd789448820b27dac9c9aa7787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:08 +0000
Subject: [PATCH 27/37] fix: check the friction impulses of the frictionless
 contact, not of a range running past the end

---
 scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp       | 2 +-
 scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp b/scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp
index 180af4c..8d44ab8 100644
--- a/scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp
+++ b/scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp
@@ -387,7 +387,7 @@ void GeometricImpactFrictionMap::flow( ScriptingCallback& call_back, FlowableSys
     {
       if( mu(col_idx) == 0.0 )
       {
-        assert( ( beta.segment( friction_impulses_per_collision, col_idx * friction_impulses_per_collision ).array() == 0.0 ).all() );
+        assert( ( beta.segment( col_idx * friction_impulses_per_collision, friction_impulses_per_collision ).array() == 0.0 ).all() );
       }
     }
   }
diff --git a/scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp b/scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp
index 2c5dd2a..4c2a220 100644
--- a/scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp
+++ b/scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp
@@ -360,7 +360,7 @@ void SymplecticEulerImpactFrictionMap::flow( ScriptingCallback& call_back, Flowa
     {
       if( mu(col_idx) == 0.0 )
       {
-        assert( ( beta.segment( friction_impulses_per_collision, col_idx * friction_impulses_per_collision ).array() == 0.0 ).all() );
+        assert( ( beta.segment( col_idx * friction_impulses_per_collision, friction_impulses_per_collision ).array() == 0.0 ).all() );
       }
     }
   }
-- 
2.43.0


From 9aeb5589a181e279f18342c010d7c14aa5dcd79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:08 +0000
Subject: [PATCH 28/37] fix: allow rounding error in Gauss-Seidel's check that
 a resolved contact separates

---
 scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp b/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
index ba03651..2c7b942 100644
--- a/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
+++ b/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
@@ -47,7 +47,7 @@ void GaussSeidelOperator::flow( const std::vector<std::unique_ptr<Constraint>>&
         // Reflect about this constraint
         scalar local_alpha;
         cons[current_idx]->resolveImpact( CoR( current_idx ), M, ndotv, v1, local_alpha );
-        assert( local_alpha >= 0.0 ); assert( cons[current_idx]->evalNdotV( q0, v1 ) >= 0.0 );
+        assert( local_alpha >= 0.0 ); assert( cons[current_idx]->evalNdotV( q0, v1 ) >= - m_v_tol );
         alpha( current_idx ) += local_alpha;
         // And remember that a collision happend
         collision_happened = true;
-- 
2.43.0


From 1be1ff550ebc9b10bb276c603c5c5506d57b5fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:39 +0000
Subject: [PATCH 29/37] fix: do not build a collision detection grid for zero
 bodies (0/0 converted to unsigned)

---
 ball2d/SpatialGridDetector.cpp      | 6 ++++++
 rigidbody2d/SpatialGrid.cpp         | 6 ++++++
 rigidbody3d/SpatialGridDetector.cpp | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/ball2d/SpatialGridDetector.cpp b/ball2d/SpatialGridDetector.cpp
index f055301..250b81f 100644
--- a/ball2d/SpatialGridDetector.cpp
+++ b/ball2d/SpatialGridDetector.cpp
@@ -105,6 +105,12 @@ static void initializeSpatialGrid( const std::vector<AABB>& aabbs, Array2s& min_
 
 void SpatialGridDetector::getPotentialOverlaps( const std::vector<AABB>& aabbs, std::set<std::pair<unsigned,unsigned>>& overlaps )
 {
+  // The grid is not defined if there is nothing to put in it
+  if( aabbs.empty() )
+  {
+    return;
+  }
+
   Array2s min_coord;
   Array2u dimensions;
   scalar h;
diff --git a/rigidbody2d/SpatialGrid.cpp b/rigidbody2d/SpatialGrid.cpp
index d3f423d..4e00a6f 100644
--- a/rigidbody2d/SpatialGrid.cpp
+++ b/rigidbody2d/SpatialGrid.cpp
@@ -113,6 +113,12 @@ static void initializeSpatialGrid( const std::vector<AABB>& aabbs, Array2s& min_
 
 void SpatialGrid::getPotentialOverlaps( const std::vector<AABB>& aabbs, std::set<std::pair<unsigned,unsigned>>& overlaps )
 {
+  // The grid is not defined if there is nothing to put in it
+  if( aabbs.empty() )
+  {
+    return;
+  }
+
   Array2s min_coord;
   Array2u dimensions;
   scalar h;
diff --git a/rigidbody3d/SpatialGridDetector.cpp b/rigidbody3d/SpatialGridDetector.cpp
index e2218eb..d3a89be 100644
--- a/rigidbody3d/SpatialGridDetector.cpp
+++ b/rigidbody3d/SpatialGridDetector.cpp
@@ -109,6 +109,12 @@ static void initializeSpatialGrid( const std::vector<AABB>& aabbs, Array3s& min_
 
 void SpatialGridDetector::getPotentialOverlaps( const std::vector<AABB>& aabbs, std::set<std::pair<unsigned,unsigned>>& overlaps )
 {
+  // The grid is not defined if there is nothing to put in it
+  if( aabbs.empty() )
+  {
+    return;
+  }
+
   Array3s min_coord;
   Array3u dimensions;
   scalar h;
-- 
2.43.0


From 74913d90380b8288ff8323546386385cf15d0bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:44 +0000
Subject: [PATCH 30/37] fix: contacts of two bodies that both were teleported
 by a Lees-Edwards portal, and rounding in the mu = 0 check

---
 ball2d/Ball2DSim.cpp                                 | 12 +++++-------
 rigidbody2d/RigidBody2DSim.cpp                       | 10 +++++-----
 .../ConstrainedMaps/GeometricImpactFrictionMap.cpp   |  2 +-
 .../SymplecticEulerImpactFrictionMap.cpp             |  2 +-
 4 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/ball2d/Ball2DSim.cpp b/ball2d/Ball2DSim.cpp
index be672f5..eb93e8b 100644
--- a/ball2d/Ball2DSim.cpp
+++ b/ball2d/Ball2DSim.cpp
@@ -703,8 +703,6 @@ void Ball2DSim::generateTeleportedBallBallCollision( const VectorXs& q0, const V
     }
   }
 
-  assert( !( portal0_is_lees_edwards && portal1_is_lees_edwards ) );
-
   // If neither portal is Lees-Edwards
   if( !portal0_is_lees_edwards && !portal1_is_lees_edwards )
   {
@@ -713,19 +711,19 @@ void Ball2DSim::generateTeleportedBallBallCollision( const VectorXs& q0, const V
   // Otherwise, there is a relative velocity contribution from the Lees-Edwards boundary condition
   else
   {
-    Vector2s kinematic_kick;
-    assert( portal0_is_lees_edwards != portal1_is_lees_edwards );
+    // N.B. both bodies can be teleported by a Lees-Edwards portal, if just one of them wraps around the portal's tangential bounds
+    Vector2s kinematic_kick{ Vector2s::Zero() };
     if( portal1_is_lees_edwards )
     {
       assert( second_was_teleported );
       // N.B. q1 because collision detection was performed with q1
-      kinematic_kick = m_state.planarPortals()[teleported_collision.portalIndex1()].getKinematicVelocityOfBall( q1.segment<2>( 2 * teleported_collision.bodyIndex1() ), rj );
+      kinematic_kick += m_state.planarPortals()[teleported_collision.portalIndex1()].getKinematicVelocityOfBall( q1.segment<2>( 2 * teleported_collision.bodyIndex1() ), rj );
     }
-    else // portal0_is_lees_edwards
+    if( portal0_is_lees_edwards )
     {
       assert( first_was_teleported );
       // N.B. q1 because collision detection was performed with q1
-      kinematic_kick = -m_state.planarPortals()[teleported_collision.portalIndex0()].getKinematicVelocityOfBall( q1.segment<2>( 2 * teleported_collision.bodyIndex0() ), ri );
+      kinematic_kick -= m_state.planarPortals()[teleported_collision.portalIndex0()].getKinematicVelocityOfBall( q1.segment<2>( 2 * teleported_collision.bodyIndex0() ), ri );
     }
     active_set.emplace_back( new KinematicKickBallBallConstraint{ teleported_collision.bodyIndex0(), teleported_collision.bodyIndex1(), x0, x1, ri, rj, kinematic_kick, true } );
   }
diff --git a/rigidbody2d/RigidBody2DSim.cpp b/rigidbody2d/RigidBody2DSim.cpp
index d95caf6..6371b0e 100644
--- a/rigidbody2d/RigidBody2DSim.cpp
+++ b/rigidbody2d/RigidBody2DSim.cpp
@@ -573,8 +573,8 @@ void RigidBody2DSim::dispatchTeleportedNarrowPhaseCollision( const TeleportedCol
   // Otherwise, there is a relative velocity contribution from the Lees-Edwards boundary condition
   else
   {
-    Vector2s kinematic_kick;
-    assert( portal0_is_lees_edwards != portal1_is_lees_edwards );
+    // N.B. both bodies can be teleported by a Lees-Edwards portal, if just one of them wraps around the portal's tangential bounds
+    Vector2s kinematic_kick{ Vector2s::Zero() };
     if( portal1_is_lees_edwards )
     {
       assert( second_was_teleported );
@@ -582,16 +582,16 @@ void RigidBody2DSim::dispatchTeleportedNarrowPhaseCollision( const TeleportedCol
       Array2s min;
       Array2s max;
       geo1->computeAABB( q1.segment<2>( 3 * teleported_collision.bodyIndex1() ), q1( 3 * teleported_collision.bodyIndex1() + 2 ), min, max );
-      kinematic_kick = m_state.planarPortals()[teleported_collision.portalIndex1()].getKinematicVelocityOfAABB( min, max );
+      kinematic_kick += m_state.planarPortals()[teleported_collision.portalIndex1()].getKinematicVelocityOfAABB( min, max );
     }
-    else // portal0_is_lees_edwards
+    if( portal0_is_lees_edwards )
     {
       assert( first_was_teleported );
       // N.B. q1 because collision detection was performed with q1
       Array2s min;
       Array2s max;
       geo0->computeAABB( q1.segment<2>( 3 * teleported_collision.bodyIndex0() ), q1( 3 * teleported_collision.bodyIndex0() + 2 ), min, max );
-      kinematic_kick = -m_state.planarPortals()[teleported_collision.portalIndex0()].getKinematicVelocityOfAABB( min, max );
+      kinematic_kick -= m_state.planarPortals()[teleported_collision.portalIndex0()].getKinematicVelocityOfAABB( min, max );
     }
     switch( geo0->type() )
     {
diff --git a/scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp b/scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp
index 8d44ab8..7772d95 100644
--- a/scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp
+++ b/scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp
@@ -387,7 +387,7 @@ void GeometricImpactFrictionMap::flow( ScriptingCallback& call_back, FlowableSys
     {
       if( mu(col_idx) == 0.0 )
       {
-        assert( ( beta.segment( col_idx * friction_impulses_per_collision, friction_impulses_per_collision ).array() == 0.0 ).all() );
+        assert( beta.segment( col_idx * friction_impulses_per_collision, friction_impulses_per_collision ).lpNorm<Eigen::Infinity>() <= 1.0e-9 * std::max( 1.0, alpha(col_idx) ) );
       }
     }
   }
diff --git a/scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp b/scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp
index 4c2a220..61beae4 100644
--- a/scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp
+++ b/scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp
@@ -360,7 +360,7 @@ void SymplecticEulerImpactFrictionMap::flow( ScriptingCallback& call_back, Flowa
     {
       if( mu(col_idx) == 0.0 )
       {
-        assert( ( beta.segment( col_idx * friction_impulses_per_collision, friction_impulses_per_collision ).array() == 0.0 ).all() );
+        assert( beta.segment( col_idx * friction_impulses_per_collision, friction_impulses_per_collision ).lpNorm<Eigen::Infinity>() <= 1.0e-9 * std::max( 1.0, alpha(col_idx) ) );
       }
     }
   }
-- 
2.43.0


From a6efca824c3d6d96c26229e2f1f79e0668aaa3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:19 +0000
Subject: [PATCH 31/37] fix: penalty force of balls that exactly touch no
 longer fails its depth check

---
 ball2d/Forces/PenaltyForce.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ball2d/Forces/PenaltyForce.cpp b/ball2d/Forces/PenaltyForce.cpp
index b9ab207..f97644d 100644
--- a/ball2d/Forces/PenaltyForce.cpp
+++ b/ball2d/Forces/PenaltyForce.cpp
@@ -38,13 +38,13 @@ scalar PenaltyForce::computePotential( const VectorXs& q, const SparseMatrixsc&
       // Compute a vector pointing from ball0 to ball1
       const Vector2s n{ q.segment<2>( 2 * ball1 ) - q.segment<2>( 2 * ball0 ) };
       // If the squared distance is greater or equal to the sum of the radii squared, no force
-      if( n.squaredNorm() > total_radius * total_radius )
+      if( n.squaredNorm() >= total_radius * total_radius )
       {
         continue;
       }
       // Compute the penetration depth
       const scalar delta{ n.norm() - total_radius };
-      assert( delta < 0.0 );
+      assert( delta <= 0.0 );
       // U = 0.5 * k * pen_depth ^ power
       U += 0.5 * m_k * std::pow( -delta, m_power );
     }
@@ -71,7 +71,7 @@ void PenaltyForce::computeForce( const VectorXs& q, const VectorXs& v, const Spa
       // Compute the squared length of the vector
       scalar d{ n.squaredNorm() };
       // If the squared distance is greater or equal to the sum of the radii squared, no force
-      if( d > total_radius * total_radius )
+      if( d >= total_radius * total_radius )
       {
         continue;
       }
@@ -82,7 +82,7 @@ void PenaltyForce::computeForce( const VectorXs& q, const VectorXs& v, const Spa
       assert( fabs( n.norm() - 1.0 ) <= 1.0e-6 );
       // Compute the penetration depth
       d -= total_radius;
-      assert( d < 0.0 );
+      assert( d <= 0.0 );
       // F = 5 * k * pen_depth^(3/2) * n
       // F = 0.5 * k * power * pen_depth ^ ( power - 1.0 )
       const Vector2s F{ 0.5 * m_k * m_power * std::pow( -d, m_power - 1.0 ) * n };
-- 
2.43.0


From 069df819fba8ccc82a5ce65533759a8e77bf88a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:37 +0000
Subject: [PATCH 32/37] fix: points on the far side of a mesh's distance grid
 no longer read past it

---
 rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp b/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp
index 3cba189..80fecc7 100644
--- a/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp
+++ b/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp
@@ -288,11 +288,12 @@ bool RigidBodyTriangleMesh::detectCollision( const Vector3s& x, Vector3s& n ) co
   assert( ( x.array() <= m_grid_end.array() ).all() );
 
   // Determine which cell this point lies within
-  const Array3u indices{ ( ( x - m_grid_origin ).array() / m_cell_delta.array() ).unaryExpr( [](const scalar& y) { return floor(y); } ).cast<unsigned>() };
+  // N.B. points on the end of the grid belong to the last cell
+  const Array3u indices{ ( ( x - m_grid_origin ).array() / m_cell_delta.array() ).unaryExpr( [](const scalar& y) { return floor(y); } ).cast<unsigned>().min( m_grid_dimensions.array() - 2 ) };
   assert( ( indices + 1 < m_grid_dimensions.array() ).all() );
 
   // Compute the 'barycentric' coordinates of the point in the cell
-  const Vector3s bc{ ( x.array() - ( m_grid_origin.array() + indices.cast<scalar>().array() * m_cell_delta.array() ) ) / m_cell_delta.array() };
+  const Vector3s bc{ ( ( x.array() - ( m_grid_origin.array() + indices.cast<scalar>().array() * m_cell_delta.array() ) ) / m_cell_delta.array() ).max( 0.0 ).min( 1.0 ) };
   assert( ( bc.array() >= 0.0 ).all() ); assert( ( bc.array() <= 1.0 ).all() );
 
   // One minus the barycentric coordinates
-- 
2.43.0


From 5c9c8f963409e2c33363580f2c739a4ff3128b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:59 +0000
Subject: [PATCH 33/37] fix: command-line programs no longer convert an
 infinite number of steps to unsigned

---
 ball2dcli/ball2d_cli.cpp           | 6 +++++-
 rigidbody2dcli/rigidbody2d_cli.cpp | 6 +++++-
 rigidbody3dcli/rigidbody3d_cli.cpp | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/ball2dcli/ball2d_cli.cpp b/ball2dcli/ball2d_cli.cpp
index 4ae1be9..3d4609c 100644
--- a/ball2dcli/ball2d_cli.cpp
+++ b/ball2dcli/ball2d_cli.cpp
@@ -7,7 +7,9 @@
 #include <Python.h>
 #endif
 
+#include <algorithm>
 #include <iostream>
+#include <limits>
 #include <iomanip>
 #include <fstream>
 #include <string>
@@ -704,7 +706,9 @@ int main( int argc, char** argv )
     g_steps_per_save = 1;
   }
   assert( g_end_time > 0.0 );
-  g_save_number_width = MathUtilities::computeNumDigits( 1 + unsigned( ceil( g_end_time / scalar( g_dt ) ) ) / g_steps_per_save );
+  // N.B. the end time can be infinite
+  const unsigned max_steps{ unsigned( std::min( ceil( g_end_time / scalar( g_dt ) ), scalar( std::numeric_limits<unsigned>::max() - 1 ) ) ) };
+  g_save_number_width = MathUtilities::computeNumDigits( 1 + max_steps / g_steps_per_save );
 
   printCompileInfo( std::cout );
   std::cout << "Body count: " << g_sim.state().nballs() << std::endl;
diff --git a/rigidbody2dcli/rigidbody2d_cli.cpp b/rigidbody2dcli/rigidbody2d_cli.cpp
index 3d32202..ab60d48 100644
--- a/rigidbody2dcli/rigidbody2d_cli.cpp
+++ b/rigidbody2dcli/rigidbody2d_cli.cpp
@@ -3,7 +3,9 @@
 // Breannan Smith
 // Last updated: 10/01/2015
 
+#include <algorithm>
 #include <iostream>
+#include <limits>
 #include <iomanip>
 #include <fstream>
 #include <getopt.h>
@@ -695,7 +697,9 @@ int main( int argc, char** argv )
     g_steps_per_save = 1;
   }
   assert( g_end_time > 0.0 );
-  g_save_number_width = MathUtilities::computeNumDigits( 1 + unsigned( ceil( g_end_time / scalar( g_dt ) ) ) / g_steps_per_save );
+  // N.B. the end time can be infinite
+  const unsigned max_steps{ unsigned( std::min( ceil( g_end_time / scalar( g_dt ) ), scalar( std::numeric_limits<unsigned>::max() - 1 ) ) ) };
+  g_save_number_width = MathUtilities::computeNumDigits( 1 + max_steps / g_steps_per_save );
 
   printCompileInfo( std::cout );
   std::cout << "Body count: " << g_sim.state().nbodies() << std::endl;
diff --git a/rigidbody3dcli/rigidbody3d_cli.cpp b/rigidbody3dcli/rigidbody3d_cli.cpp
index 50009ef..264c56d 100644
--- a/rigidbody3dcli/rigidbody3d_cli.cpp
+++ b/rigidbody3dcli/rigidbody3d_cli.cpp
@@ -7,7 +7,9 @@
 #include <Python.h>
 #endif
 
+#include <algorithm>
 #include <iostream>
+#include <limits>
 #include <iomanip>
 #include <cstdlib>
 #include <cstdint>
@@ -707,7 +709,9 @@ int main( int argc, char** argv )
     g_steps_per_save = 1;
   }
   assert( g_end_time > 0.0 );
-  g_save_number_width = MathUtilities::computeNumDigits( 1 + unsigned( ceil( g_end_time / scalar( g_dt ) ) ) / g_steps_per_save );
+  // N.B. the end time can be infinite
+  const unsigned max_steps{ unsigned( std::min( ceil( g_end_time / scalar( g_dt ) ), scalar( std::numeric_limits<unsigned>::max() - 1 ) ) ) };
+  g_save_number_width = MathUtilities::computeNumDigits( 1 + max_steps / g_steps_per_save );
 
   printCompileInfo( std::cout );
   std::cout << "Geometry count: " << g_sim.state().ngeo() << std::endl;
-- 
2.43.0


From f073fcb26e8fbc4ef4014a7b89dea67f1ab5cb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:19 +0000
Subject: [PATCH 34/37] fix: reject fractions whose simplification would
 overflow (division of the most negative integer by -1)

---
 scisim/Math/Rational.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scisim/Math/Rational.h b/scisim/Math/Rational.h
index ada5cd3..581a200 100644
--- a/scisim/Math/Rational.h
+++ b/scisim/Math/Rational.h
@@ -271,6 +271,8 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
     T right_int;
     if( !StringUtilities::extractFromString( right_substring, right_int ) ) { return false; }
     if( right_int == 0 ) { return false; }
+    // The most negative integer has no counterpart of the other sign, so simplifying the fraction could overflow
+    if( left_int < -std::numeric_limits<T>::max() || right_int < -std::numeric_limits<T>::max() ) { return false; }
     // Left part is the numerator, right part is the denominator
     output.set( left_int, right_int );
   }
-- 
2.43.0


From ec59f5f750c0cb0d1be39ce58204674fe1448b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:38 +0000
Subject: [PATCH 35/37] fix: reject scenes whose masses or inertias are not
 representable, and renderers of zero size

---
 rigidbody2dutils/RigidBody2DSceneParser.cpp | 10 ++++++++++
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 14 ++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/rigidbody2dutils/RigidBody2DSceneParser.cpp b/rigidbody2dutils/RigidBody2DSceneParser.cpp
index c0052d2..f7e452d 100644
--- a/rigidbody2dutils/RigidBody2DSceneParser.cpp
+++ b/rigidbody2dutils/RigidBody2DSceneParser.cpp
@@ -5,6 +5,7 @@
 
 #include "RigidBody2DSceneParser.h"
 
+#include <cmath>
 #include <iostream>
 #include <fstream>
 
@@ -1501,6 +1502,15 @@ static bool loadBodies( const rapidxml::xml_node<>& node, const std::vector<std:
     scalar mass;
     scalar inertia;
     geometry[ indices(bdy_idx) ]->computeMassAndInertia( densities[bdy_idx], mass, inertia );
+    // The state also needs the inverses
+    for( const scalar val : { mass, inertia } )
+    {
+      if( !( val > 0.0 ) || !std::isfinite( val ) || !( 1.0 / val > 0.0 ) || !std::isfinite( 1.0 / val ) )
+      {
+        std::cerr << "Failed to load rigid_body_with_density, the size and density give a mass or inertia that is out of range" << std::endl;
+        return false;
+      }
+    }
     m.segment<2>( 3 * bdy_idx ).setConstant( mass );
     m( 3 * bdy_idx + 2 ) = inertia;
   }
diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 8f0f74d..16c07e9 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -6,6 +6,7 @@
 #include "RigidBody3DSceneParser.h"
 
 #include <fstream>
+#include <cmath>
 #include <iostream>
 #include <algorithm>
 
@@ -446,6 +447,15 @@ static bool loadSimState( const rapidxml::xml_node<>& node, RigidBody3DState& si
     Vector3s I;
     Matrix33sr R;
     geometry[geo_indices.back()]->computeMassAndInertia( rho, M, CM, I, R );
+    // The state also needs the inverses, and the determinants of the inertia and of its inverse
+    for( const scalar val : { M, I.x(), I.y(), I.z(), I.prod() } )
+    {
+      if( !( val > 0.0 ) || !std::isfinite( val ) || !( 1.0 / val > 0.0 ) || !std::isfinite( 1.0 / val ) )
+      {
+        std::cerr << "Failed to load rigid_body_with_density, the size and density give a mass or inertia that is out of range" << std::endl;
+        return false;
+      }
+    }
     Ms.emplace_back( M );
     xs.emplace_back( x + CM );
     I0s.emplace_back( I );
@@ -817,7 +827,7 @@ static bool loadStaticPlaneRenderers( const rapidxml::xml_node<>& node, const st
         std::cerr << "Failed to locate r attribute for static_plane_renderer." << std::endl;
         return false;
       }
-      if( !StringUtilities::readScalarList( attrib->value(), 2, ' ', r ) || !( r.array() >= 0.0 ).all() )
+      if( !StringUtilities::readScalarList( attrib->value(), 2, ' ', r ) || !( r.array() > 0.0 ).all() )
       {
         std::cerr << "Failed to load r attribute for static_plane_renderer. Must provide 2 positive scalars." << std::endl;
         return false;
@@ -865,7 +875,7 @@ static bool loadStaticCylinderRenderers( const rapidxml::xml_node<>& node, const
         std::cerr << "Failed to locate L attribute for static_cylinder_renderer." << std::endl;
         return false;
       }
-      if( !StringUtilities::extractFromString( attrib->value(), L ) || L < 0.0 )
+      if( !StringUtilities::extractFromString( attrib->value(), L ) || L <= 0.0 )
       {
         std::cerr << "Failed to load L attribute for static_cylinder_renderer. Must provide a positive scalar." << std::endl;
         return false;
-- 
2.43.0


From 853025bff9de9ac7faa794c2f558ee234b138006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:33 +0000
Subject: [PATCH 36/37] fix: check the principal moments of inertia, not
 determinants that round to zero for thin bodies

---
 rigidbody3d/RigidBody3DState.cpp            | 8 ++++----
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rigidbody3d/RigidBody3DState.cpp b/rigidbody3d/RigidBody3DState.cpp
index 638b645..685391c 100644
--- a/rigidbody3d/RigidBody3DState.cpp
+++ b/rigidbody3d/RigidBody3DState.cpp
@@ -172,7 +172,7 @@ static SparseMatrixsc formWorldSpaceMassMatrix( const std::vector<scalar>& M, co
     assert( fabs( Rmat.determinant() - 1.0 ) <= 1.0e-9 );
     const Matrix33sr I = Rmat * I0[bdy_idx].asDiagonal() * Rmat.transpose();
     assert( ( I - I.transpose() ).lpNorm<Eigen::Infinity>() <= 1.0e-12 );
-    assert( I.determinant() > 0.0 );
+    assert( ( I0[bdy_idx].array() > 0.0 ).all() );
     for( unsigned row_idx = 0; row_idx < 3; ++row_idx )
     {
       const unsigned col{ 3 * nbodies + 3 * bdy_idx + row_idx };
@@ -223,7 +223,7 @@ static SparseMatrixsc formWorldSpaceInverseMassMatrix( const std::vector<scalar>
     assert( fabs( Rmat.determinant() - 1.0 ) <= 1.0e-9 );
     const Matrix33sr Iinv = Rmat * I0[bdy_idx].array().inverse().matrix().asDiagonal() * Rmat.transpose();
     assert( ( Iinv - Iinv.transpose() ).lpNorm<Eigen::Infinity>() <= 1.0e-12 );
-    assert( Iinv.determinant() > 0.0 );
+    assert( ( I0[bdy_idx].array() > 0.0 ).all() );
     for( unsigned row_idx = 0; row_idx < 3; ++row_idx )
     {
       const unsigned col{ 3 * nbodies + 3 * bdy_idx + row_idx };
@@ -452,7 +452,7 @@ void RigidBody3DState::updateMandMinv()
       const Eigen::Map<const Vector3s> I0{ &m_M0.data().value( 3 * m_nbodies + 3 * bdy_idx ) };
       I = R * I0.asDiagonal() * R.transpose();
       assert( ( I - I.transpose() ).lpNorm<Eigen::Infinity>() <= 1.0e-12 );
-      assert( I.determinant() > 0.0 );
+      assert( ( I0.array() > 0.0 ).all() );
     }
 
     // Inverse of the inertia tensor of the ith body
@@ -461,7 +461,7 @@ void RigidBody3DState::updateMandMinv()
       const Eigen::Map<const Vector3s> Iinv0{ &m_Minv0.data().value( 3 * m_nbodies + 3 * bdy_idx ) };
       Iinv = R * Iinv0.asDiagonal() * R.transpose();
       assert( ( Iinv - Iinv.transpose() ).lpNorm<Eigen::Infinity>() <= 1.0e-11 );
-      assert( Iinv.determinant() > 0.0 );
+      assert( ( Iinv0.array() > 0.0 ).all() );
     }
   }
 
diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 16c07e9..ff03caf 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -447,8 +447,8 @@ static bool loadSimState( const rapidxml::xml_node<>& node, RigidBody3DState& si
     Vector3s I;
     Matrix33sr R;
     geometry[geo_indices.back()]->computeMassAndInertia( rho, M, CM, I, R );
-    // The state also needs the inverses, and the determinants of the inertia and of its inverse
-    for( const scalar val : { M, I.x(), I.y(), I.z(), I.prod() } )
+    // The state also needs the inverses
+    for( const scalar val : { M, I.x(), I.y(), I.z() } )
     {
       if( !( val > 0.0 ) || !std::isfinite( val ) || !( 1.0 / val > 0.0 ) || !std::isfinite( 1.0 / val ) )
       {
-- 
2.43.0


From ad49dc864dea9b597d0ecd1204f7eee230197743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:34 +0000
Subject: [PATCH 37/37] fix: a pair of bodies that touches twice no longer
 fails a check in the constraint cache

---
 ball2d/ConstraintCache.cpp      | 5 +----
 rigidbody2d/ConstraintCache.cpp | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/ball2d/ConstraintCache.cpp b/ball2d/ConstraintCache.cpp
index 5cfff48..c79e510 100644
--- a/ball2d/ConstraintCache.cpp
+++ b/ball2d/ConstraintCache.cpp
@@ -23,11 +23,8 @@ void ConstraintCache::cacheConstraint( const Constraint& constraint, const Vecto
   {
     const BallBallConstraint& ball_ball{ static_cast<const BallBallConstraint&>( constraint ) };
     // Insert this constraint into the cache
-    #ifndef NDEBUG
-    const auto insert_return =
-    #endif
+    // N.B. two balls can touch both directly and through a portal, the first contact is remembered
     m_ball_ball_constraints.insert( std::make_pair( std::make_pair( ball_ball.idx0(), ball_ball.idx1() ), r ) );
-    assert( insert_return.second ); // Should not re-encounter constraints
   }
   else if( constraint.name() == "static_plane_constraint" )
   {
diff --git a/rigidbody2d/ConstraintCache.cpp b/rigidbody2d/ConstraintCache.cpp
index dbab56c..5774790 100644
--- a/rigidbody2d/ConstraintCache.cpp
+++ b/rigidbody2d/ConstraintCache.cpp
@@ -27,11 +27,8 @@ void ConstraintCache::cacheConstraint( const Constraint& constraint, const Vecto
   else if( constraint_type == "body_body" )
   {
     assert( constraint.simulatedBody0() < constraint.simulatedBody1() );
-    #ifndef NDEBUG
-    const auto insert_return =
-    #endif
+    // N.B. two boxes can touch at two points, the first one is remembered
     m_body_body_constraints.insert( std::make_pair( std::make_pair( constraint.simulatedBody0(), constraint.simulatedBody1() ), r ) );
-    assert( insert_return.second ); // Should not re-encounter constraints
   }
   else if( constraint_type == "kinematic_object_circle" )
   {
-- 
2.43.0

