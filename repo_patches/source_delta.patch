From af4e36f2a4b6f32dea9c7aae8fbfc719926539d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:57 +0000
Subject: [PATCH 01/21] fix: restore penalty forces from ball2d checkpoints

---
 ball2d/Ball2DState.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ball2d/Ball2DState.cpp b/ball2d/Ball2DState.cpp
index 5af2610..4b3641f 100644
--- a/ball2d/Ball2DState.cpp
+++ b/ball2d/Ball2DState.cpp
@@ -9,6 +9,7 @@
 #include "scisim/Utilities.h"
 #include "scisim/StringUtilities.h"
 #include "Forces/Ball2DGravityForce.h"
+#include "Forces/PenaltyForce.h"
 
 #include "StaticGeometry/StaticDrum.h"
 #include "StaticGeometry/StaticPlane.h"
@@ -303,6 +304,10 @@ void Ball2DState::deserialize( std::istream& input_stream )
       {
         m_forces[force_idx] = std::unique_ptr<Ball2DForce>{ new Ball2DGravityForce{ input_stream } };
       }
+      else if( "hertzian_penalty" == force_name )
+      {
+        m_forces[force_idx] = std::unique_ptr<Ball2DForce>{ new PenaltyForce{ input_stream } };
+      }
       else
       {
         std::cerr << "Unknown force in deserialize." << std::endl;
-- 
2.43.0


From 7052139e4a380767018037901df4a32239ede861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:57 +0000
Subject: [PATCH 02/21] fix: restore every integrator written to ball2d
 checkpoints

---
 ball2d/Ball2DUtilities.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ball2d/Ball2DUtilities.cpp b/ball2d/Ball2DUtilities.cpp
index 05b78c2..91a4fc4 100644
--- a/ball2d/Ball2DUtilities.cpp
+++ b/ball2d/Ball2DUtilities.cpp
@@ -8,6 +8,7 @@
 #include <cassert>
 #include "scisim/StringUtilities.h"
 #include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
+#include "ball2d/SymplecticEulerMap.h"
 #include "ball2d/VerletMap.h"
 
 #include <iostream>
@@ -38,6 +39,14 @@ std::unique_ptr<UnconstrainedMap> Ball2DUtilities::deserializeUnconstrainedMap(
   {
     unconstrained_map.reset( new VerletMap{ input_stream } );
   }
+  else if( "symplectic_euler" == integrator_name )
+  {
+    unconstrained_map.reset( new SymplecticEulerMap{ input_stream } );
+  }
+  else if( "NULL" == integrator_name )
+  {
+    unconstrained_map.reset( nullptr );
+  }
   else
   {
     std::cerr << "Deserialization not supported for: " << integrator_name << std::endl;
-- 
2.43.0


From 9a19adc9d21378660e482e27c3f4ed2bf49bf223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:57 +0000
Subject: [PATCH 03/21] fix: restore the absence of an integrator from
 rigidbody2d checkpoints

---
 rigidbody2d/RigidBody2DUtilities.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rigidbody2d/RigidBody2DUtilities.cpp b/rigidbody2d/RigidBody2DUtilities.cpp
index 625255f..24bb230 100644
--- a/rigidbody2d/RigidBody2DUtilities.cpp
+++ b/rigidbody2d/RigidBody2DUtilities.cpp
@@ -44,6 +44,10 @@ std::unique_ptr<UnconstrainedMap> RigidBody2DUtilities::deserializeUnconstrained
   {
     unconstrained_map.reset( new VerletMap{ input_stream } );
   }
+  else if( "NULL" == integrator_name )
+  {
+    unconstrained_map.reset( nullptr );
+  }
   else
   {
     std::cerr << "Deserialization not supported for: " << integrator_name << std::endl;
-- 
2.43.0


From 1fddf44795d9fec37a7f60703ec306107f065079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:11 +0000
Subject: [PATCH 04/21] fix: restore the exponential Euler integrator from
 rigidbody3d checkpoints

---
 rigidbody3d/RigidBody3DUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigidbody3d/RigidBody3DUtilities.cpp b/rigidbody3d/RigidBody3DUtilities.cpp
index b384d0e..13fbe36 100644
--- a/rigidbody3d/RigidBody3DUtilities.cpp
+++ b/rigidbody3d/RigidBody3DUtilities.cpp
@@ -10,6 +10,7 @@
 #include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
 
 #include "rigidbody3d/UnconstrainedMaps/DMVMap.h"
+#include "rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.h"
 #include "rigidbody3d/UnconstrainedMaps/SplitHamMap.h"
 
 #include <iostream>
@@ -45,6 +46,10 @@ std::unique_ptr<UnconstrainedMap> RigidBody3DUtilities::deserializeUnconstrained
   {
     unconstrained_map.reset( new SplitHamMap );
   }
+  else if( "exponential_euler" == integrator_name )
+  {
+    unconstrained_map.reset( new ExponentialEulerMap );
+  }
   else if( "NULL" == integrator_name )
   {
     unconstrained_map.reset( nullptr );
-- 
2.43.0


From a7e782986aa49d16549f414eb847ccd3d7f516cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:18 +0000
Subject: [PATCH 05/21] fix: do not divide by the lateral extent of portals
 that have none

---
 ball2d/Portals/PlanarPortal.cpp | 25 ++++++++++++++++++-------
 rigidbody2d/PlanarPortal.cpp    | 25 ++++++++++++++++++-------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/ball2d/Portals/PlanarPortal.cpp b/ball2d/Portals/PlanarPortal.cpp
index f0b5415..e114ed4 100644
--- a/ball2d/Portals/PlanarPortal.cpp
+++ b/ball2d/Portals/PlanarPortal.cpp
@@ -194,8 +194,11 @@ void PlanarPortal::teleportPointThroughPlaneA( const Vector2s& xin, Vector2s& xo
   scalar tA{ planeA().t().dot( m_dx * m_plane_a.t() + planeA().x() - xin ) };
 
   // ...accounting for periodic boundaries
-  const int repeat_x{ int( floor( ( tA + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
-  tA -= 2.0 * repeat_x * m_bounds;
+  if( m_bounds > 0.0 )
+  {
+    const int repeat_x{ int( floor( ( tA + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
+    tA -= 2.0 * repeat_x * m_bounds;
+  }
   assert( tA >= -m_bounds || !isLeesEdwards() );
   assert( tA <= m_bounds || !isLeesEdwards() );
 
@@ -210,8 +213,11 @@ void PlanarPortal::teleportPointThroughPlaneB( const Vector2s& xin, Vector2s& xo
   scalar tB{ planeB().t().dot( m_dx * m_plane_b.t() + planeB().x() - xin ) };
 
   // ...accounting for periodic boundaries
-  const int repeat_x{ int( floor( ( tB + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
-  tB -= 2.0 * repeat_x * m_bounds;
+  if( m_bounds > 0.0 )
+  {
+    const int repeat_x{ int( floor( ( tB + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
+    tB -= 2.0 * repeat_x * m_bounds;
+  }
   assert( tB >= -m_bounds || !isLeesEdwards() );
   assert( tB <= m_bounds || !isLeesEdwards() );
 
@@ -231,9 +237,14 @@ void PlanarPortal::serialize( std::ostream& output_stream ) const
 
 void PlanarPortal::updateMovingPortals( const scalar& t )
 {
-  const int repeat_x{ int( floor( ( m_v * t + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
-  m_dx = m_v * t - 2.0 * repeat_x * m_bounds;
-  assert( m_dx >= -m_bounds ); assert( m_dx <= m_bounds );
+  m_dx = m_v * t;
+  // Portals without a lateral extent do not wrap
+  if( m_bounds > 0.0 )
+  {
+    const int repeat_x{ int( floor( ( m_v * t + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
+    m_dx -= 2.0 * repeat_x * m_bounds;
+    assert( m_dx >= -m_bounds ); assert( m_dx <= m_bounds );
+  }
 }
 
 bool PlanarPortal::isLeesEdwards() const
diff --git a/rigidbody2d/PlanarPortal.cpp b/rigidbody2d/PlanarPortal.cpp
index b8ee9ed..a8b6da2 100644
--- a/rigidbody2d/PlanarPortal.cpp
+++ b/rigidbody2d/PlanarPortal.cpp
@@ -302,8 +302,11 @@ void PlanarPortal::teleportPointThroughPlaneA( const Vector2s& xin, Vector2s& xo
   scalar tA{ planeA().t().dot( m_dx * m_plane_a.t() + planeA().x() - xin ) };
 
   // ...accounting for periodic boundaries
-  const int repeat_x{ int( floor( ( tA + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
-  tA -= 2.0 * repeat_x * m_bounds;
+  if( m_bounds > 0.0 )
+  {
+    const int repeat_x{ int( floor( ( tA + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
+    tA -= 2.0 * repeat_x * m_bounds;
+  }
   assert( tA >= -m_bounds || !isLeesEdwards() );
   assert( tA <= m_bounds || !isLeesEdwards() );
 
@@ -318,8 +321,11 @@ void PlanarPortal::teleportPointThroughPlaneB( const Vector2s& xin, Vector2s& xo
   scalar tB{ planeB().t().dot( m_dx * m_plane_b.t() + planeB().x() - xin ) };
 
   // ...accounting for periodic boundaries
-  const int repeat_x{ int( floor( ( tB + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
-  tB -= 2.0 * repeat_x * m_bounds;
+  if( m_bounds > 0.0 )
+  {
+    const int repeat_x{ int( floor( ( tB + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
+    tB -= 2.0 * repeat_x * m_bounds;
+  }
   assert( tB >= -m_bounds || !isLeesEdwards() );
   assert( tB <= m_bounds || !isLeesEdwards() );
 
@@ -339,9 +345,14 @@ void PlanarPortal::serialize( std::ostream& output_stream ) const
 
 void PlanarPortal::updateMovingPortals( const scalar& t )
 {
-  const int repeat_x{ int( floor( ( m_v * t + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
-  m_dx = m_v * t - 2.0 * repeat_x * m_bounds;
-  assert( m_dx >= -m_bounds ); assert( m_dx <= m_bounds );
+  m_dx = m_v * t;
+  // Portals without a lateral extent do not wrap
+  if( m_bounds > 0.0 )
+  {
+    const int repeat_x{ int( floor( ( m_v * t + m_bounds ) / ( 2.0 * m_bounds ) ) ) };
+    m_dx -= 2.0 * repeat_x * m_bounds;
+    assert( m_dx >= -m_bounds ); assert( m_dx <= m_bounds );
+  }
 }
 
 bool PlanarPortal::isLeesEdwards() const
-- 
2.43.0


From 8f39ce39a6c526bb2255d99f6b964be41ff15ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:18 +0000
Subject: [PATCH 06/21] fix: use the cylinder formula for the inertia of
 staples

The transverse inertia of a solid cylinder is m (3 r^2 + h^2) / 12; the length was cubed.
---
 rigidbody3d/Geometry/RigidBodyStaple.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rigidbody3d/Geometry/RigidBodyStaple.cpp b/rigidbody3d/Geometry/RigidBodyStaple.cpp
index fab5f7e..84cee1c 100644
--- a/rigidbody3d/Geometry/RigidBodyStaple.cpp
+++ b/rigidbody3d/Geometry/RigidBodyStaple.cpp
@@ -39,21 +39,21 @@ void RigidBodyStaple::computeMassAndInertia( const scalar& density, scalar& M, V
     I.x() += 2.0 * My * ( CMy.y() * CMy.y() + CMy.z() * CMy.z() );
     // Contributions from cylinders' centers of mass
     I.x() += Mx * ( m_r * m_r ) / 2.0;
-    I.x() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l * m_l ) / 12.0;
+    I.x() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l ) / 12.0;
 
     // Contributions from translating the cylinders
     I.y() = Mx * ( CMx.x() * CMx.x() + CMx.z() * CMx.z() );
     I.y() += 2.0 * My * ( CMy.x() * CMy.x() + CMy.z() * CMy.z() );
     // Contributions from cylinders' centers of mass
-    I.y() += Mx * ( 3.0 * m_r * m_r + m_w * m_w * m_w ) / 12.0;
+    I.y() += Mx * ( 3.0 * m_r * m_r + m_w * m_w ) / 12.0;
     I.y() += My * ( m_r * m_r );
 
     // Contributions from translating the cylinders
     I.z() = Mx * ( CMx.x() * CMx.x() + CMx.y() * CMx.y() );
     I.z() += 2.0 * My * ( CMy.x() * CMy.x() + CMy.y() * CMy.y() );
     // Contributions from cylinders' centers of mass
-    I.z() += Mx * ( 3.0 * m_r * m_r + m_w * m_w * m_w ) / 12.0;
-    I.z() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l * m_l ) / 12.0;
+    I.z() += Mx * ( 3.0 * m_r * m_r + m_w * m_w ) / 12.0;
+    I.z() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l ) / 12.0;
   }
 
   R.setIdentity();
-- 
2.43.0


From e6caa73e8166a4bd86bf4b15f148b5b5091ba2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:18 +0000
Subject: [PATCH 07/21] fix: include the thickness of staples in their bounding
 boxes

Staples whose surfaces overlap while their center lines' boxes do not were never tested for collisions.
---
 rigidbody3d/Geometry/RigidBodyStaple.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rigidbody3d/Geometry/RigidBodyStaple.cpp b/rigidbody3d/Geometry/RigidBodyStaple.cpp
index 84cee1c..1a2338f 100644
--- a/rigidbody3d/Geometry/RigidBodyStaple.cpp
+++ b/rigidbody3d/Geometry/RigidBodyStaple.cpp
@@ -108,6 +108,9 @@ void RigidBodyStaple::computeAABB( const Vector3s& cm, const Matrix33sr& R, Arra
     min = min.min( transformed_vertex );
     max = max.max( transformed_vertex );
   }
+  // Account for the thickness of the staple
+  min -= m_r;
+  max += m_r;
   assert( ( min < max ).all() );
 }
 
-- 
2.43.0


From febe5dcc7d738b28acd09386e1591a6f2d5c86b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:18 +0000
Subject: [PATCH 08/21] fix: leave the simulation domain unbounded below by
 default

numeric_limits::min() is the smallest positive value, so with the exit treatment and no explicit minimum every body with a non-positive coordinate ended the program.
---
 rigidbody3d/RigidBody3DState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigidbody3d/RigidBody3DState.cpp b/rigidbody3d/RigidBody3DState.cpp
index 17dfd0a..e9aa233 100644
--- a/rigidbody3d/RigidBody3DState.cpp
+++ b/rigidbody3d/RigidBody3DState.cpp
@@ -35,7 +35,7 @@ RigidBody3DState::RigidBody3DState()
 , m_static_cylinders()
 , m_planar_portals()
 , m_boundary_behavior( SimBoundaryBehavior::NONE )
-, m_boundary_min( Vector3s::Constant( std::numeric_limits<scalar>::min() ) )
+, m_boundary_min( Vector3s::Constant( std::numeric_limits<scalar>::lowest() ) )
 , m_boundary_max( Vector3s::Constant( std::numeric_limits<scalar>::max() ) )
 {}
 
-- 
2.43.0


From 19d7a59a50f4fc71d319e14c9ef0ec284521e707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:07 +0000
Subject: [PATCH 09/21] fix: evaluate rigidbody3d forces at the given
 configuration and velocity

---
 rigidbody3d/RigidBody3DSim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigidbody3d/RigidBody3DSim.cpp b/rigidbody3d/RigidBody3DSim.cpp
index 946e86a..b2fa54f 100644
--- a/rigidbody3d/RigidBody3DSim.cpp
+++ b/rigidbody3d/RigidBody3DSim.cpp
@@ -176,7 +176,7 @@ void RigidBody3DSim::computeForce( const VectorXs& q, const VectorXs& v, const s
 
   for( std::vector<std::unique_ptr<Force>>::size_type frc_idx = 0; frc_idx < m_sim_state.forces().size(); ++frc_idx )
   {
-    m_sim_state.forces()[frc_idx]->computeForce( m_sim_state.q(), m_sim_state.v(), m_sim_state.M(), F );
+    m_sim_state.forces()[frc_idx]->computeForce( q, v, m_sim_state.M(), F );
   }
 }
 
-- 
2.43.0


From d4c456a933ad05ed693699c634f4e5f3630c0b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:32 +0000
Subject: [PATCH 10/21] fix: flag friction at its upper bound that acts along
 the sliding direction

---
 .../FrictionMaps/FischerBurmeisterBoundConstrained.cpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterBoundConstrained.cpp b/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterBoundConstrained.cpp
index fd681e9..47e37eb 100644
--- a/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterBoundConstrained.cpp
+++ b/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterBoundConstrained.cpp
@@ -46,7 +46,7 @@ scalar FischerBurmeisterBoundConstrained::operator()( const VectorXs& beta, cons
     }
     else if( beta( i ) >= m_c( i ) )
     {
-      lambda( i ) = std::max<scalar>( lambda( i ), 0.0 );
+      lambda( i ) = std::min<scalar>( - lambda( i ), 0.0 );
     }
   }
 
-- 
2.43.0


From 3c2d6714569d0fbc1c7188b0ef94eaab0e4ad5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:32 +0000
Subject: [PATCH 11/21] fix: flag saturated smooth friction that acts along the
 sliding direction

---
 .../ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.cpp  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.cpp b/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.cpp
index 045295a..071e9d3 100644
--- a/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.cpp
+++ b/scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.cpp
@@ -5,6 +5,8 @@
 
 #include "FischerBurmeisterSmooth.h"
 
+#include <algorithm>
+
 FischerBurmeisterSmooth::FischerBurmeisterSmooth( const scalar& tol, const VectorXs& c )
 : m_tol( tol )
 , m_c( c )
@@ -36,7 +38,7 @@ static scalar getSignedTangentMagnitude( const Vector2s& x, const scalar& c, con
       }
     }
 
-    const Vector2s t{ grad - grad.dot( n ) * n };
+    const Vector2s t{ grad - std::min<scalar>( grad.dot( n ), 0.0 ) * n };
     return - t.norm();
   }
   else
-- 
2.43.0


From bc140ccd8299fe2dce4887cfd7b6471db161145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:32 +0000
Subject: [PATCH 12/21] fix: keep the initial iterate when projected gradient
 descent gets no iterations

---
 scisim/Math/QPSolvers/ProjectionSolvers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scisim/Math/QPSolvers/ProjectionSolvers.h b/scisim/Math/QPSolvers/ProjectionSolvers.h
index e66228b..175acba 100644
--- a/scisim/Math/QPSolvers/ProjectionSolvers.h
+++ b/scisim/Math/QPSolvers/ProjectionSolvers.h
@@ -61,7 +61,7 @@ namespace ProjectionSolvers
     scalar tk{ 1.0 / Lk };
 
     scalar best_residual{ SCALAR_INFINITY };
-    VectorXs best_solution;
+    VectorXs best_solution{ x0 };
     results.status = ProjectionSolveStatus::MaxItersExceeded;
     unsigned iteration;
     for( iteration = 0; iteration < max_iters; ++iteration )
-- 
2.43.0


From d267f3fb8096b36ac702c0e6c8b756b2a239da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:32 +0000
Subject: [PATCH 13/21] fix: start projected gradient descent from a valid step
 size

---
 scisim/Math/QPSolvers/ProjectionSolvers.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scisim/Math/QPSolvers/ProjectionSolvers.h b/scisim/Math/QPSolvers/ProjectionSolvers.h
index 175acba..be2a63a 100644
--- a/scisim/Math/QPSolvers/ProjectionSolvers.h
+++ b/scisim/Math/QPSolvers/ProjectionSolvers.h
@@ -52,12 +52,15 @@ namespace ProjectionSolvers
 
     VectorXs y0{ x0 };
     scalar theta0{ 1.0 };
-    assert( ( x0.array() != x1.array() ).any() );
     g = x0 - x1;
     mult( A, g, y1 );
     // Initial estimate of the Lipschitz constant
     scalar Lk{ y1.norm() / ( x0 - x1 ).norm() };
-    assert( Lk != 0.0 );
+    // The estimate degenerates if x0 and x1 coincide or if their difference is in the kernel of A
+    if( !( Lk > 0.0 ) )
+    {
+      Lk = 1.0;
+    }
     scalar tk{ 1.0 / Lk };
 
     scalar best_residual{ SCALAR_INFINITY };
-- 
2.43.0


From 39557cb3cdd0a9bbc04c702b6015d07850ebc047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:37 +0000
Subject: [PATCH 14/21] fix: restore a checkpointed friction solver of
 generalised reflection kind

---
 scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp b/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp
index 74647d3..e9173f2 100644
--- a/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp
+++ b/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp
@@ -18,6 +18,7 @@
 #include "scisim/ConstrainedMaps/ImpactFrictionMap.h"
 #include "scisim/ConstrainedMaps/StaggeredProjections.h"
 #include "scisim/ConstrainedMaps/Sobogus.h"
+#include "scisim/ConstrainedMaps/GRRFriction.h"
 #include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
 
 #ifdef IPOPT_FOUND
@@ -218,6 +219,10 @@ std::unique_ptr<FrictionSolver> ConstrainedMapUtilities::deserializeFrictionSolv
   {
     friction_solver.reset( new Sobogus{ input_stream } );
   }
+  else if( "grr_friction" == friction_solver_name )
+  {
+    friction_solver.reset( new GRRFriction{ input_stream } );
+  }
   else if( "NULL" == friction_solver_name )
   {
     friction_solver.reset( nullptr );
-- 
2.43.0


From ba54ea0528593b446c76fe318936a2f632d33937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:59 +0000
Subject: [PATCH 15/21] fix: use the last cell of the distance field for points
 on its far faces

---
 rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp b/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp
index 3cba189..5b44fbd 100644
--- a/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp
+++ b/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp
@@ -288,7 +288,8 @@ bool RigidBodyTriangleMesh::detectCollision( const Vector3s& x, Vector3s& n ) co
   assert( ( x.array() <= m_grid_end.array() ).all() );
 
   // Determine which cell this point lies within
-  const Array3u indices{ ( ( x - m_grid_origin ).array() / m_cell_delta.array() ).unaryExpr( [](const scalar& y) { return floor(y); } ).cast<unsigned>() };
+  // Note: Points on the far faces of the grid belong to the last cell
+  const Array3u indices{ ( ( x - m_grid_origin ).array() / m_cell_delta.array() ).unaryExpr( [](const scalar& y) { return floor(y); } ).cast<unsigned>().min( m_grid_dimensions.array() - 2 ) };
   assert( ( indices + 1 < m_grid_dimensions.array() ).all() );
 
   // Compute the 'barycentric' coordinates of the point in the cell
-- 
2.43.0


From 13fb6dc3386ea3d8b4cfa809240c5c73a18b2e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:56 +0000
Subject: [PATCH 16/21] fix: read the sign of fractional time steps and refuse
 text that is not a number

---
 scisim/Math/Rational.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/scisim/Math/Rational.h b/scisim/Math/Rational.h
index dd4e4d2..b3ad786 100644
--- a/scisim/Math/Rational.h
+++ b/scisim/Math/Rational.h
@@ -197,7 +197,13 @@ std::ostream& operator<<( std::ostream& os, const Rational<T>& r )
   return os << r.numerator() << " / " << r.denominator();
 }
 
-// TODO: This is super adhoc, and will parse in strange things as numbers, but works well enough for now.
+// Checks that a string is a possibly signed integer and nothing else
+inline bool isIntegerString( const std::string& input )
+{
+  const std::string::size_type first_digit{ ( !input.empty() && ( input[0] == '+' || input[0] == '-' ) ) ? 1u : 0u };
+  return first_digit < input.length() && input.find_first_not_of( "0123456789", first_digit ) == std::string::npos;
+}
+
 // TODO: Once C++ regex are widely available in various compilers, clean this up a lot.
 // TODO: Handle, for example, 1.0e-4
 template<class T>
@@ -207,8 +213,8 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
   const unsigned period_count{ static_cast<unsigned>( std::count( in_string.cbegin(), in_string.cend(), '.' ) ) };
 
   // Valid input: 1 slash 0 periods, 0 slashes 1 period, 0 slashes 0 periods
-  if( slash_count > 2 ) { return false; }
-  if( period_count > 2 ) { return false; }
+  if( slash_count > 1 ) { return false; }
+  if( period_count > 1 ) { return false; }
   if( slash_count == 1 && period_count != 0 ) { return false; }
   if( period_count == 1 && slash_count != 0 ) { return false; }
 
@@ -219,6 +225,9 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
     std::string left_substring;
     std::string right_substring;
     StringUtilities::splitAtLastCharacterOccurence( StringUtilities::removeWhiteSpace( in_string ), left_substring, right_substring, '.' );
+    // There must be at least one digit, and only digits to the right of the period
+    if( ( left_substring + right_substring ).find_first_of( "0123456789" ) == std::string::npos ) { return false; }
+    if( right_substring.find_first_not_of( "0123456789" ) != std::string::npos ) { return false; }
     // Trailing zeros in the mantissa are meaningless, strip them to save computation later
     right_substring = StringUtilities::trimCharacterRight( right_substring, '0' );
     // User might have provided a number of the form .### or + .### or - .###
@@ -226,6 +235,7 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
     if( left_substring == "+" ) { left_substring = "+0"; }
     if( left_substring == "-" ) { left_substring = "-0"; }
     // Load the left and right portions into integers
+    if( !isIntegerString( left_substring ) ) { return false; }
     T left_int;
     if( !StringUtilities::extractFromString( left_substring, left_int ) ) { return false; }
     T right_int = 0;
@@ -236,7 +246,7 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
     T denominator = 1;
     for( std::string::size_type i = 0; i < num_digits; ++i ) { denominator *= 10; }
     // Compute the denominator
-    const T numerator{ left_int * denominator + ( left_int < 0 ? -1 : 1 ) * right_int };
+    const T numerator{ left_int * denominator + ( left_substring[0] == '-' ? -1 : 1 ) * right_int };
     output.set( numerator, denominator );
   }
   else
@@ -246,10 +256,12 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
     std::string right_substring;
     StringUtilities::splitAtLastCharacterOccurence( StringUtilities::removeWhiteSpace( in_string ), left_substring, right_substring, '/' );
     // Load the left and right portions into integers
+    if( !isIntegerString( left_substring ) || !isIntegerString( right_substring ) ) { return false; }
     T left_int;
     if( !StringUtilities::extractFromString( left_substring, left_int ) ) { return false; }
     T right_int;
     if( !StringUtilities::extractFromString( right_substring, right_int ) ) { return false; }
+    if( right_int == 0 ) { return false; }
     // Left part is the numerator, right part is the denominator
     output.set( left_int, right_int );
   }
-- 
2.43.0


From bc38bdcd721088acba00090e86791928c53cbb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:32 +0000
Subject: [PATCH 17/21] fix: a matrix that misses a diagonal entry is not the
 identity

---
 scisim/Math/MathUtilities.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scisim/Math/MathUtilities.cpp b/scisim/Math/MathUtilities.cpp
index 4a69725..69081c1 100644
--- a/scisim/Math/MathUtilities.cpp
+++ b/scisim/Math/MathUtilities.cpp
@@ -48,14 +48,13 @@ bool MathUtilities::isIdentity( const SparseMatrixsc& A, const scalar& tol )
   }
   for( int outer_idx = 0; outer_idx < A.outerSize(); ++outer_idx )
   {
+    // An entry that is not stored is zero
+    scalar diagonal_entry{ 0.0 };
     for( SparseMatrixsc::InnerIterator it( A, outer_idx ); it; ++it )
     {
       if( it.row() == it.col() )
       {
-        if( fabs( it.value() - 1.0 ) > tol )
-        {
-          return false;
-        }
+        diagonal_entry = it.value();
       }
       else
       {
@@ -65,6 +64,10 @@ bool MathUtilities::isIdentity( const SparseMatrixsc& A, const scalar& tol )
         }
       }
     }
+    if( fabs( diagonal_entry - 1.0 ) > tol )
+    {
+      return false;
+    }
   }
   return true;
 }
-- 
2.43.0


From b5e59e31f49fa3ee5a0ff2e3dffa6d3123a5456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:32 +0000
Subject: [PATCH 18/21] fix: extract no columns without writing past the index
 array

---
 scisim/Math/MathUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scisim/Math/MathUtilities.cpp b/scisim/Math/MathUtilities.cpp
index 69081c1..f6ee6ff 100644
--- a/scisim/Math/MathUtilities.cpp
+++ b/scisim/Math/MathUtilities.cpp
@@ -122,6 +122,11 @@ void MathUtilities::extractColumns( const SparseMatrixsc& A0, const std::vector<
 
   // Resize A1 and reserve space
   A1.resize( A0.rows(), ncols_to_extract );
+  // Eigen can not reserve space in a matrix with no columns
+  if( ncols_to_extract == 0 )
+  {
+    return;
+  }
   A1.reserve( column_nonzeros );
   // Copy the data over, column by column
   for( unsigned cur_col = 0; cur_col < ncols_to_extract; ++cur_col )
-- 
2.43.0


From b8ab86d31ab486f31c7eeb89a78a78d02925d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:32 +0000
Subject: [PATCH 19/21] fix: refuse balls, drums and gravity with values that
 cannot be read

---
 ball2dutils/Ball2DSceneParser.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index 52dfa8c..bf8cdf0 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -247,40 +247,40 @@ static bool loadBalls( const rapidxml::xml_node<>& node, std::vector<Ball2D>& ba
 
     const rapidxml::xml_attribute<>* const x_attrib{ nd->first_attribute( "x" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), x.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), x.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const y_attrib{ nd->first_attribute( "y" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), x.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), x.y() ) ) { return false; }
 
     // Attempt to parse the ball's velocity
     Vector2s v;
 
     const rapidxml::xml_attribute<>* const vx_attrib{ nd->first_attribute( "vx" ) };
     if( !vx_attrib ) { return false; }
-    StringUtilities::extractFromString( vx_attrib->value(), v.x() );
+    if( !StringUtilities::extractFromString( vx_attrib->value(), v.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const vy_attrib{ nd->first_attribute( "vy" ) };
     if( !vy_attrib ) { return false; }
-    StringUtilities::extractFromString( vy_attrib->value(), v.y() );
+    if( !StringUtilities::extractFromString( vy_attrib->value(), v.y() ) ) { return false; }
 
     // Attempt to parse the ball's mass
     scalar m;
     const rapidxml::xml_attribute<>* const m_attrib{ nd->first_attribute( "m" ) };
     if( !m_attrib ) { return false; }
-    StringUtilities::extractFromString( m_attrib->value(), m );
+    if( !StringUtilities::extractFromString( m_attrib->value(), m ) ) { return false; }
 
     // Attempt to parse the ball's radius
     scalar r;
     const rapidxml::xml_attribute<>* const r_attrib{ nd->first_attribute( "r" ) };
     if( !r_attrib ) { return false; }
-    StringUtilities::extractFromString( r_attrib->value(), r );
+    if( !StringUtilities::extractFromString( r_attrib->value(), r ) ) { return false; }
 
     // Attempt to parse whether the ball is fixed
     bool fixed;
     const rapidxml::xml_attribute<>* const fixed_attrib{ nd->first_attribute( "fixed" ) };
     if( !fixed_attrib ) { return false; }
-    StringUtilities::extractFromString( fixed_attrib->value(), fixed );
+    if( !StringUtilities::extractFromString( fixed_attrib->value(), fixed ) ) { return false; }
 
     balls.emplace_back( x, v, m, r, fixed );
   }
@@ -297,17 +297,17 @@ static bool loadStaticDrums( const rapidxml::xml_node<>& node, std::vector<Stati
 
     const rapidxml::xml_attribute<>* const x_attrib{ nd->first_attribute( "x" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), x.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), x.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const y_attrib{ nd->first_attribute( "y" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), x.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), x.y() ) ) { return false; }
 
     // Attempt to parse the drums's radius
     scalar r;
     const rapidxml::xml_attribute<>* const r_attrib{ nd->first_attribute( "r" ) };
     if( !r_attrib ) { return false; }
-    StringUtilities::extractFromString( r_attrib->value(), r );
+    if( !StringUtilities::extractFromString( r_attrib->value(), r ) ) { return false; }
 
     drums.emplace_back( x, r );
   }
@@ -1431,11 +1431,11 @@ static bool loadGravityForce( const rapidxml::xml_node<>& node, std::vector<std:
 
     const rapidxml::xml_attribute<>* x_attrib{ nd->first_attribute( "fx" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), f.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), f.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* y_attrib{ nd->first_attribute( "fy" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), f.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), f.y() ) ) { return false; }
 
     forces.emplace_back( new Ball2DGravityForce{ f } );
   }
-- 
2.43.0


From 9ccca1ceaba96caa07ef16837fd4e545fbc202ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:29 +0000
Subject: [PATCH 20/21] fix: refuse renderers of planes and cylinders that do
 not exist

---
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 2b013f9..a777996 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -814,7 +814,7 @@ static bool loadStaticPlaneRenderers( const rapidxml::xml_node<>& node, const st
         std::cerr << "Failed to load plane attribute for static_plane_renderer. Must provide a non-negative integer." << std::endl;
         return false;
       }
-      if( idx > planes.size() )
+      if( idx >= planes.size() )
       {
         std::cerr << "Failed to load plane attribute for static_plane_renderer. Invalid plane index specified." << std::endl;
         return false;
@@ -864,7 +864,7 @@ static bool loadStaticCylinderRenderers( const rapidxml::xml_node<>& node, const
         std::cerr << "Failed to load cylinder_idx attribute for static_cylinder_renderer. Must provide a non-negative integer." << std::endl;
         return false;
       }
-      if( idx > cylinders.size() )
+      if( idx >= cylinders.size() )
       {
         std::cerr << "Failed to load cylinder_idx attribute for static_cylinder_renderer. Invalid cylinder index specified." << std::endl;
         return false;
-- 
2.43.0


From 0f6a6fada0244dc1d329321b58445d4e3a5cf932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 21/21] fix: read values of type long back from HDF5 files

---
 scisim/HDF5File.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scisim/HDF5File.h b/scisim/HDF5File.h
index 3e930dd..ad5deac 100644
--- a/scisim/HDF5File.h
+++ b/scisim/HDF5File.h
@@ -432,6 +432,10 @@ private:
     {
       return H5T_NATIVE_UINT;
     }
+    else if( H5Tequal( dtype_id, H5T_NATIVE_LONG ) > 0 )
+    {
+      return H5T_NATIVE_LONG;
+    }
     else return -1;
   }
 
-- 
2.43.0

