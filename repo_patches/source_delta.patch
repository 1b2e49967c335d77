From 4a8a3a662ed7c6ce47c7ee9853bcfd3141fd9d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 01/42] fix: Symplectic10th applied the stage coefficients in
 the wrong order, so the method was only 4th order

---
 .../symplectic/symplectic-integrator.hpp      | 68 +++++++++----------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/integrator/symplectic/symplectic-integrator.hpp b/src/integrator/symplectic/symplectic-integrator.hpp
index 091f3c1..cb1ce42 100644
--- a/src/integrator/symplectic/symplectic-integrator.hpp
+++ b/src/integrator/symplectic/symplectic-integrator.hpp
@@ -297,39 +297,7 @@ namespace hub::integrator {
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
     void Symplectic10th<TypeSystem>::integrate(ParticleSys &system, typename ParticleSys::Scalar step_size) {
         /*unroll loop manually*/
-        system.drift(3.0610967201933609e-01 * step_size);
-        system.kick(6.1221934403867218e-01 * step_size);
-        system.drift(-9.4012698954724694e-02 * step_size);
-        system.kick(-8.0024474194812156e-01 * step_size);
-        system.drift(-6.6002635995076209e-01 * step_size);
-        system.kick(-5.1980797795340250e-01 * step_size);
-        system.drift(-1.5240397828727220e-01 * step_size);
-        system.kick(2.1500002137885812e-01 * step_size);
-        system.drift(-1.1750569210727700e-01 * step_size);
-        system.kick(-4.5001140559341213e-01 * step_size);
-        system.drift(2.2250778443570857e-01 * step_size);
-        system.kick(8.9502697446482926e-01 * step_size);
-        system.drift(5.1288848042847668e-01 * step_size);
-        system.kick(1.3074998639212410e-01 * step_size);
-        system.drift(3.3095796002497074e-01 * step_size);
-        system.kick(5.3116593365781739e-01 * step_size);
-        system.drift(-6.0050191119721985e-02 * step_size);
-        system.kick(-6.5126631589726136e-01 * step_size);
-        system.drift(-7.6956706144236287e-01 * step_size);
-        system.kick(-8.8786780698746448e-01 * step_size);
-        system.drift(-7.6872229417056015e-02 * step_size);
-        system.kick(7.3412334815335245e-01 * step_size);
-        system.drift(4.2477286784491525e-01 * step_size);
-        system.kick(1.1542238753647800e-01 * step_size);
-        system.drift(4.3160892192959932e-01 * step_size);
-        system.kick(7.4779545632272060e-01 * step_size);
-        system.drift(5.5434862753225678e-02 * step_size);
-        system.kick(-6.3692573081626924e-01 * step_size);
-        system.drift(-1.9288621063874828e-01 * step_size);
-        system.kick(2.5115330953877268e-01 * step_size);
-        system.drift(3.3904387248169282e-01 * step_size);
-        system.kick(4.2693443542461296e-01 * step_size);
-        system.drift(3.3904387248169282e-01 * step_size);
+        system.drift(1.2557665476938634e-01 * step_size);
         system.kick(2.5115330953877268e-01 * step_size);
         system.drift(-1.9288621063874828e-01 * step_size);
         system.kick(-6.3692573081626924e-01 * step_size);
@@ -359,6 +327,38 @@ namespace hub::integrator {
         system.kick(-8.0024474194812156e-01 * step_size);
         system.drift(-9.4012698954724694e-02 * step_size);
         system.kick(6.1221934403867218e-01 * step_size);
-        system.drift(3.0610967201933609e-01 * step_size);
+        system.drift(5.1957688973164256e-01 * step_size);
+        system.kick(4.2693443542461296e-01 * step_size);
+        system.drift(5.1957688973164256e-01 * step_size);
+        system.kick(6.1221934403867218e-01 * step_size);
+        system.drift(-9.4012698954724694e-02 * step_size);
+        system.kick(-8.0024474194812156e-01 * step_size);
+        system.drift(-6.6002635995076209e-01 * step_size);
+        system.kick(-5.1980797795340250e-01 * step_size);
+        system.drift(-1.5240397828727220e-01 * step_size);
+        system.kick(2.1500002137885812e-01 * step_size);
+        system.drift(-1.1750569210727700e-01 * step_size);
+        system.kick(-4.5001140559341213e-01 * step_size);
+        system.drift(2.2250778443570857e-01 * step_size);
+        system.kick(8.9502697446482926e-01 * step_size);
+        system.drift(5.1288848042847668e-01 * step_size);
+        system.kick(1.3074998639212410e-01 * step_size);
+        system.drift(3.3095796002497074e-01 * step_size);
+        system.kick(5.3116593365781739e-01 * step_size);
+        system.drift(-6.0050191119721985e-02 * step_size);
+        system.kick(-6.5126631589726136e-01 * step_size);
+        system.drift(-7.6956706144236287e-01 * step_size);
+        system.kick(-8.8786780698746448e-01 * step_size);
+        system.drift(-7.6872229417056015e-02 * step_size);
+        system.kick(7.3412334815335245e-01 * step_size);
+        system.drift(4.2477286784491525e-01 * step_size);
+        system.kick(1.1542238753647800e-01 * step_size);
+        system.drift(4.3160892192959932e-01 * step_size);
+        system.kick(7.4779545632272060e-01 * step_size);
+        system.drift(5.5434862753225678e-02 * step_size);
+        system.kick(-6.3692573081626924e-01 * step_size);
+        system.drift(-1.9288621063874828e-01 * step_size);
+        system.kick(2.5115330953877268e-01 * step_size);
+        system.drift(1.2557665476938634e-01 * step_size);
     }
 }  // namespace hub::integrator
-- 
2.43.0


From c1917904305812d73c95b975ce0ddcadd44f977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 02/42] fix: GaussRadau::integrate ran a single corrector pass,
 so constant-step Radau was only 4th order

---
 src/integrator/Gauss-Radau.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/integrator/Gauss-Radau.hpp b/src/integrator/Gauss-Radau.hpp
index fb7e82d..7738b1c 100644
--- a/src/integrator/Gauss-Radau.hpp
+++ b/src/integrator/Gauss-Radau.hpp
@@ -29,6 +29,7 @@ License
 
 #include "../core-computation.hpp"
 #include "../dev-tools.hpp"
+#include "../math.hpp"
 
 namespace hub::integrator {
 
@@ -238,6 +239,7 @@ namespace hub::integrator {
 
         static constexpr size_t order{15};
         static constexpr size_t final_point{7};
+        static constexpr size_t max_correction{12};
 
         GaussRadau();
 
@@ -347,7 +349,21 @@ namespace hub::integrator {
     template <typename TypeSystem>
     template <typename ParticleSys>
     void GaussRadau<TypeSystem>::integrate(ParticleSys &particles, Scalar step_size) {
-        correct(particles, step_size);
+        // the implicit scheme reaches its order only if the corrector is iterated to convergence
+        Scalar last_diff = math::max_value_v<Scalar>;
+        for (size_t k = 0; k < max_correction; ++k) {
+            correct(particles, step_size);
+            Scalar max_diff = 0;
+            Scalar max_scale = 0;
+            for (size_t i = 0; i < var_num_; ++i) {
+                max_diff = std::max(max_diff, static_cast<Scalar>(fabs(dg_array_[i])));
+                max_scale = std::max(max_scale, static_cast<Scalar>(fabs(dydh_[i])));
+            }
+            if (max_diff <= math::epsilon_v<Scalar> * max_scale || (k > 1 && max_diff >= last_diff)) {
+                break;
+            }
+            last_diff = max_diff;
+        }
         evaluate(particles, step_size);
         predict(static_cast<Scalar>(1.0));
     }
-- 
2.43.0


From e4f389385222cd78befbb2e8b38a18ab6c43dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 03/42] fix: chain construction never re-examined the second
 shortest pair, so chains were not nearest-neighbour chains

---
 src/particle-system/chain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particle-system/chain.hpp b/src/particle-system/chain.hpp
index 3e3f8ff..62ffb16 100644
--- a/src/particle-system/chain.hpp
+++ b/src/particle-system/chain.hpp
@@ -272,7 +272,7 @@ namespace hub {
                     if (chained_num == num) {
                         break;
                     } else {
-                        k = 1;
+                        k = 0;  // rescan from dist[1] (dist[0] is the first link)
                     }
                 }
             }
-- 
2.43.0


From f389b64a7087349d6ccb91580eba7811971794ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 04/42] fix: AR_Radau fed the Newtonian acceleration into the
 binding-energy derivative, so any extra force corrupted the orbit

---
 src/particle-system/archain.hpp     | 6 +++++-
 src/particle-system/regu-system.hpp | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/particle-system/archain.hpp b/src/particle-system/archain.hpp
index ed47b0d..1b83bae 100644
--- a/src/particle-system/archain.hpp
+++ b/src/particle-system/archain.hpp
@@ -302,8 +302,12 @@ namespace hub::system {
         dy_dh.emplace_back(pos_regu);
 
         Interactions::eval_newtonian_acc(*this, accels_.newtonian_acc());
+
+        StateScalar dbindE_dt{0};
+
         if constexpr (Interactions::ext_vel_indep || Interactions::ext_vel_dep) {
             Interactions::eval_extra_acc(*this, accels_.acc());
+            dbindE_dt = calc_dbindE_dt(this->vel(), accels_.acc());  // only the extra forces change the binding energy
             calc::array_add(accels_.acc(), accels_.acc(), accels_.newtonian_acc());
         }
 
@@ -322,7 +326,7 @@ namespace hub::system {
 
         dy_dh.emplace_back(calc_domega_dt(this->vel(), accels_.newtonian_acc()) * vel_regu);
 
-        dy_dh.emplace_back(calc_dbindE_dt(this->vel(), accels_.acc()) * vel_regu);
+        dy_dh.emplace_back(dbindE_dt * vel_regu);
     }
     template <CONCEPT_PARTICLES Particles, CONCEPT_INTERACTION Interactions, ReguType RegType>
     template <typename Array>
diff --git a/src/particle-system/regu-system.hpp b/src/particle-system/regu-system.hpp
index d4c32d9..acf5521 100644
--- a/src/particle-system/regu-system.hpp
+++ b/src/particle-system/regu-system.hpp
@@ -319,8 +319,11 @@ namespace hub::system {
 
         Interactions::eval_newtonian_acc(*this, accels_.newtonian_acc());
 
+        StateScalar dbindE_dt{0};
+
         if constexpr (Interactions::ext_vel_indep || Interactions::ext_vel_dep) {
             Interactions::eval_extra_acc(*this, accels_.acc());
+            dbindE_dt = calc_dbindE_dt(this->vel(), accels_.acc());  // only the extra forces change the binding energy
             calc::array_add(accels_.acc(), accels_.acc(), accels_.newtonian_acc());
         }
 
@@ -336,7 +339,7 @@ namespace hub::system {
 
         dy_dh.emplace_back(calc_domega_dt(this->vel(), accels_.newtonian_acc()) * vel_regu);
 
-        dy_dh.emplace_back(calc_dbindE_dt(this->vel(), accels_.acc()) * vel_regu);
+        dy_dh.emplace_back(dbindE_dt * vel_regu);
     }
 
     template <CONCEPT_PARTICLES Particles, CONCEPT_INTERACTION Interactions, ReguType RegType>
-- 
2.43.0


From b78124f7f3a9b3d632ca0f31db2fa1de3f8a133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 05/42] fix: stop conditions were copied on every check, so
 stateful ones (e.g. a TimeSlice) never kept their state

---
 src/simulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator.hpp b/src/simulator.hpp
index 9f4bf5c..a0ee5ce 100644
--- a/src/simulator.hpp
+++ b/src/simulator.hpp
@@ -317,7 +317,7 @@ namespace hub {
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
     bool RunArgs<ParticleSys>::check_stops(ParticleSys &particle_system, Scalar step_size) const {
         return std::any_of(stop_cond_.begin(), stop_cond_.end(),
-                           [&](auto cond) { return cond(particle_system, step_size); });
+                           [&](auto const &cond) { return cond(particle_system, step_size); });
     }
 
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
-- 
2.43.0


From 73d72efb1096d5d695dad3f7085c8a4572adc691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 06/42] fix: a run ending at time zero never converged because
 the end time was used as the only tolerance scale

---
 src/simulator.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simulator.hpp b/src/simulator.hpp
index a0ee5ce..12b1ddd 100644
--- a/src/simulator.hpp
+++ b/src/simulator.hpp
@@ -408,7 +408,10 @@ namespace hub {
 
         // Dipto's changes here
 
-        for (; std::abs((particles_.time() - end_time) / end_time) > time_rtol_ &&
+        // the end time itself is not a usable scale if it is (close to) zero
+        Scalar const time_scale = std::max<Scalar>(std::abs(end_time), std::abs(particles_.time()));
+
+        for (; std::abs(particles_.time() - end_time) > time_rtol_ * time_scale &&
                !run_args.check_stops(particles_, step_size_);) {
             Scalar rest_step = (end_time - particles_.time()) * particles_.step_scale();
 
-- 
2.43.0


From 3dfd37930caed1a437b0e62e889d3d9915f6c62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 07/42] fix: LogTimeSlice::reset_slice_params kept the old
 start time, so the spacing after a reset was wrong

---
 src/args-callback/callbacks.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 1d9df24..3cfd1dd 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -424,6 +424,7 @@ namespace hub::callback {
     void LogTimeSlice<Operation, Scalar>::reset_slice_params(Scalar start, Scalar end, size_t opt_num) {
         opt_interval_ = POW(end - start, 1.0 / opt_num);
         opt_time_ = start + opt_interval_;
+        start_time_ = start;
         end_time_ = end;
     }
 
-- 
2.43.0


From fae936565d21f9860caaf23e2c283350dec974d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 08/42] fix: EnergyErrWriter shared one reference energy
 between all writers, so every run but the first reported a wrong error

---
 src/args-callback/callbacks.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 3cfd1dd..58c9418 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -25,6 +25,7 @@ License
  */
 #pragma once
 
+#include <any>
 #include <cassert>
 #include <cmath>
 #include <fstream>
@@ -296,6 +297,7 @@ namespace hub::callback {
 
        private:
         std::shared_ptr<std::ofstream> fstream_;
+        std::any E0_;  // energy at the first call
     };
 
     /*---------------------------------------------------------------------------*\
@@ -472,8 +474,11 @@ namespace hub::callback {
 
     template <typename ParticleSys>
     void EnergyErrWriter::operator()(ParticleSys& ptc, typename ParticleSys::Scalar step_size) {
-        static typename ParticleSys::Scalar E0 = calc::calc_total_energy(ptc);
-        *fstream_ << ptc.time() << ',' << calc::calc_energy_error(ptc, E0) << '\n';
+        using Scalar = typename ParticleSys::Scalar;
+        if (std::any_cast<Scalar>(&E0_) == nullptr) {
+            E0_ = static_cast<Scalar>(calc::calc_total_energy(ptc));
+        }
+        *fstream_ << ptc.time() << ',' << calc::calc_energy_error(ptc, *std::any_cast<Scalar>(&E0_)) << '\n';
     }
 
     template <typename T>
-- 
2.43.0


From b4c848c6a8989584b53850dc90e6ee1db51607f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 09/42] fix: coord_to_orbit was not the inverse of
 orbit_to_coord (periapsis half a turn off, planar and circular orbits
 scrambled)

---
 src/orbits/orbits.hpp | 78 +++++++++----------------------------------
 1 file changed, 15 insertions(+), 63 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 639e5e5..b30b64d 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -564,54 +564,6 @@ namespace hub::orbit {
         orbit::euler_rotate(vel, args.Omega, args.i, args.omega + consts::pi);
     }
 
-    template <typename Vector, typename Scalar>
-    void coord_to_orbit(Scalar m1, Scalar m2, const Vector &dr, const Vector &dv, KeplerOrbit<Scalar> &args) {
-        Vector L = cross(dr, dv);
-        Vector N = cross(Vector(0, 0, 1.0), L);
-        Scalar r = norm(dr);
-        Scalar n = norm(N);
-        Scalar l = norm(L);
-        Scalar rv = dot(dr, dv);
-        Scalar u = (m1 + m2) * consts::G;
-        Vector E = (dr * (norm2(dv) - u * re_norm(dr)) - dv * rv) / u;
-
-        args.m1 = m1;
-        args.m2 = m2;
-        args.e = norm(E);
-        args.orbit_type = classify_orbit(args.e);
-
-        if (args.orbit_type == OrbitType::Parabola) {
-            Scalar a = -u * r / (r * norm2(dv) - 2.0 * u);
-            args.p = semi_latus_rectum(a, args.e);
-        } else {
-            args.p = l * l / u;
-        }
-
-        args.i = acos(L.z / l);
-
-        if (args.e != 0) {
-            args.nu = math::sign(rv) * myacos(dot(E / args.e, dr / r));
-
-            if (n != 0) {
-                args.Omega = math::sign(N.y) * myacos(N.x / n);
-                args.omega = math::sign(E.z) * myacos(dot(E / args.e, N / n));
-            } else {
-                args.omega = -math::sign(E.y) * myacos(-E.x / args.e);
-                args.Omega = args.omega;
-            }
-        } else {
-            if (n != 0) {
-                args.Omega = math::sign(N.y) * myacos(N.x / n);
-                args.omega = 0;
-                Vector peri = cross(L, N);
-                args.nu = -math::sign(dot(N, dr)) * myacos(dot(peri / norm(peri), dr / r));
-            } else {
-                args.Omega = args.omega = 0;
-                args.nu = math::sign(dr.y) * acos(dot(Vector(1.0, 0, 0), dr / r));
-            }
-        }
-    }
-
     /**
      * @brief Tranfer relative position and velocity between two particles to Kepler orbit parameters.
      *
@@ -641,39 +593,39 @@ namespace hub::orbit {
         args.e = norm(E);
         args.orbit_type = classify_orbit(args.e);
 
-        if (args.orbit_type != OrbitType::Parabola) {
-            Scalar a = -u * r / (r * norm2(dv) - 2.0 * u);
-            args.p = semi_latus_rectum(a, args.e);
-        } else {
-            args.p = l * l / u;
-        }
+        args.p = l * l / u;
 
-        args.i = acos(L.z / l);
+        args.i = myacos(L.z / l);
 
+        // inverse of orbit_to_coord, which puts the periapsis at the angle omega + pi from the ascending node.
         if (args.e != 0) {
             args.nu = math::sign(rv) * myacos(dot(E / args.e, dr / r));
 
             if (n != 0) {
                 args.Omega = math::sign(N.y) * myacos(N.x / n);
-                args.omega = math::sign(E.z) * myacos(dot(E / args.e, N / n));
+                args.omega = -math::sign(E.z) * myacos(-dot(E / args.e, N / n));
             } else {
-                args.omega = -math::sign(E.y) * myacos(-E.x / args.e);
-                args.Omega = args.omega;
+                args.Omega = 0;
+                args.omega = -math::sign(E.y * L.z) * myacos(-E.x / args.e);
             }
         } else {
+            args.omega = 0;
             if (n != 0) {
                 args.Omega = math::sign(N.y) * myacos(N.x / n);
-                args.omega = 0;
-                Vector peri = cross(L, N);
-                args.nu = -math::sign(dot(N, dr)) * myacos(dot(peri / norm(peri), dr / r));
+                args.nu = -math::sign(dr.z) * myacos(-dot(N / n, dr / r));
             } else {
-                args.Omega = args.omega = 0;
-                args.nu = math::sign(dr.y) * acos(dot(Vector(1.0, 0, 0), dr / r));
+                args.Omega = 0;
+                args.nu = -math::sign(dr.y * L.z) * myacos(-dr.x / r);
             }
         }
         return args;
     }
 
+    template <typename Vector, typename Scalar>
+    void coord_to_orbit(Scalar m1, Scalar m2, const Vector &dr, const Vector &dv, KeplerOrbit<Scalar> &args) {
+        args = coord_to_orbit(m1, m2, dr, dv);
+    }
+
     /**
      * @brief Transfer Kepler orbit parameters to relative position and velocity between two component in orbit.
      *
-- 
2.43.0


From aaa2a4eb02b00c562cbd52b6bbda436ac59eb246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 10/42] fix: tidal_factor of two clusters compared the first
 cluster with itself

---
 src/orbits/particle-manip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index 49e53bf..b749a29 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -800,7 +800,7 @@ namespace hub::orbit {
     auto tidal_factor(Cluster1 const &cluster1, Cluster2 const &cluster2) {
         auto R1 = orbit::cluster_size(cluster1);
         auto R2 = orbit::cluster_size(cluster2);
-        return tidal_factor(cluster1, cluster1, R1, R2);
+        return tidal_factor(cluster1, cluster2, R1, R2);
     }
 
     /**
-- 
2.43.0


From baf78ef14ca72cf327c02f4f3a10ecb66a68e840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 11/42] fix: the two-argument E_tid did not compile (it dropped
 const while forwarding)

---
 src/orbits/particle-manip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index b749a29..3198d37 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -755,7 +755,7 @@ namespace hub::orbit {
     auto E_tid(Cluster1 const &cluster1, Cluster2 const &cluster2) {
         auto R1 = orbit::cluster_size(cluster1);
         auto R2 = orbit::cluster_size(cluster2);
-        return E_tid(std::forward<Cluster1>(cluster1), std::forward<Cluster2>(cluster2), R1, R2);
+        return E_tid(cluster1, cluster2, R1, R2);
     }
 
     /**
-- 
2.43.0


From c85129c6e4cdcf50763cde7d2e33d05d1b33b4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 12/42] fix: time_to_periapsis of two clusters was NaN at the
 apsides, where rounding pushes the cosine past one

---
 src/orbits/particle-manip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index 3198d37..66b1283 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -489,7 +489,7 @@ namespace hub::orbit {
             auto h = cross(dr, dv);
             auto h2 = dot(h, h);
             auto p = h2 / u;
-            auto T_anomaly = acos((p / r - 1) / e);
+            auto T_anomaly = myacos((p / r - 1) / e);
             auto M_anomaly = E_anomaly_to_M_anomaly(T_anomaly_to_E_anomaly(T_anomaly, e), e);
 
             if (orbit_type == OrbitType::Parabola) {
-- 
2.43.0


From 54006c476f0dab544c38424fa66d7abbfdcda8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 13/42] fix: M_anomaly_to_E_anomaly searched only [-pi, pi], so
 larger anomalies came back as the end of the bracket

---
 src/orbits/orbits.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index b30b64d..9ad0aff 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -324,13 +324,15 @@ namespace hub::orbit {
 
         if (0 <= e && e < 1)
             return math::root_bisection([=](Scalar x) -> Scalar { return (x - e * sin(x) - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
-        else if (e > 1)
-            return math::root_bisection([=](Scalar x) -> Scalar { return (e * sinh(x) - x - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
-        else if (fabs(e - 1) < math::epsilon<Scalar>::value)
+                                        M_anomaly - 1, M_anomaly + 1);
+        else if (e > 1) {
+            Scalar bound = hub::consts::pi;
+            while (e * sinh(bound) - bound < fabs(M_anomaly)) bound *= 2;
+            return math::root_bisection([=](Scalar x) -> Scalar { return (e * sinh(x) - x - M_anomaly); }, -bound,
+                                        bound);
+        } else if (fabs(e - 1) < math::epsilon<Scalar>::value)
             return math::root_bisection([=](Scalar x) -> Scalar { return (x + x * x * x / 3 - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
+                                        -fabs(M_anomaly), fabs(M_anomaly));
         else {
             spacehub_abort("Eccentricity cannot be negative, Nan or inf!");
         }
-- 
2.43.0


From 3247c856db0622ba7681b1991ab95a729062736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 14/42] fix: multi_threads_loop dropped the remainder of the
 range (e.g. 3 of 7 items on 4 threads)

---
 src/multi-thread/multi-thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi-thread/multi-thread.hpp b/src/multi-thread/multi-thread.hpp
index 923af2c..b7858db 100644
--- a/src/multi-thread/multi-thread.hpp
+++ b/src/multi-thread/multi-thread.hpp
@@ -63,7 +63,7 @@ namespace hub::multi_thread {
         for (size_t th_id = 0; th_id < thread_num; ++th_id) {
             size_t begin = th_id * len_pth;
             size_t end = begin + len_pth;
-            if (end + len_pth > total_len) end = total_len;
+            if (th_id + 1 == thread_num) end = total_len;  // the last thread takes the remainder
             threads.emplace_back(std::thread(std::forward<Lambda>(task), begin, end));
         }
 
-- 
2.43.0


From 6cd55681ba2c5b7bce2f0c87e84b3b1a9b990a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 15/42] fix: the multi-thread helpers moved the job and its
 arguments into the first thread, leaving the others moved-from copies

---
 src/multi-thread/multi-thread.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/multi-thread/multi-thread.hpp b/src/multi-thread/multi-thread.hpp
index b7858db..ed20b53 100644
--- a/src/multi-thread/multi-thread.hpp
+++ b/src/multi-thread/multi-thread.hpp
@@ -64,7 +64,7 @@ namespace hub::multi_thread {
             size_t begin = th_id * len_pth;
             size_t end = begin + len_pth;
             if (th_id + 1 == thread_num) end = total_len;  // the last thread takes the remainder
-            threads.emplace_back(std::thread(std::forward<Lambda>(task), begin, end));
+            threads.emplace_back(std::thread(task, begin, end));
         }
 
         for (auto &thread : threads) {
@@ -77,7 +77,7 @@ namespace hub::multi_thread {
         std::vector<std::thread> threads;
         threads.reserve(thread_num);
         for (size_t i = 0; i < thread_num; ++i) {
-            threads.emplace_back(std::thread(std::forward<Callable>(job), std::forward<Args>(args)...));
+            threads.emplace_back(std::thread(job, args...));
         }
 
         for (auto &th : threads) {
@@ -90,7 +90,7 @@ namespace hub::multi_thread {
         std::vector<std::thread> threads;
         threads.reserve(thread_num);
         for (size_t i = 0; i < thread_num; ++i) {
-            threads.emplace_back(std::thread(std::forward<Callable>(job), i, std::forward<Args>(args)...));
+            threads.emplace_back(std::thread(job, i, args...));
         }
 
         for (auto &th : threads) {
-- 
2.43.0


From 1d662120fdcfd03899ad0df54f862c087ad2a79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 16/42] fix: constant-step Radau stopped its corrector after
 the first sweep pair that did not improve, leaving steps unconverged

---
 src/integrator/Gauss-Radau.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/integrator/Gauss-Radau.hpp b/src/integrator/Gauss-Radau.hpp
index 7738b1c..b96a03e 100644
--- a/src/integrator/Gauss-Radau.hpp
+++ b/src/integrator/Gauss-Radau.hpp
@@ -239,7 +239,8 @@ namespace hub::integrator {
 
         static constexpr size_t order{15};
         static constexpr size_t final_point{7};
-        static constexpr size_t max_correction{12};
+        static constexpr size_t max_correction{24};
+        static constexpr size_t min_correction{5};
 
         GaussRadau();
 
@@ -351,6 +352,7 @@ namespace hub::integrator {
     void GaussRadau<TypeSystem>::integrate(ParticleSys &particles, Scalar step_size) {
         // the implicit scheme reaches its order only if the corrector is iterated to convergence
         Scalar last_diff = math::max_value_v<Scalar>;
+        Scalar before_last_diff = math::max_value_v<Scalar>;
         for (size_t k = 0; k < max_correction; ++k) {
             correct(particles, step_size);
             Scalar max_diff = 0;
@@ -359,9 +361,10 @@ namespace hub::integrator {
                 max_diff = std::max(max_diff, static_cast<Scalar>(fabs(dg_array_[i])));
                 max_scale = std::max(max_scale, static_cast<Scalar>(fabs(dydh_[i])));
             }
-            if (max_diff <= math::epsilon_v<Scalar> * max_scale || (k > 1 && max_diff >= last_diff)) {
+            if (max_diff <= math::epsilon_v<Scalar> * max_scale || (k >= min_correction && max_diff >= before_last_diff)) {
                 break;
             }
+            before_last_diff = last_diff;  // two sweeps, one for the velocities and one for the positions
             last_diff = max_diff;
         }
         evaluate(particles, step_size);
-- 
2.43.0


From faa2fc23c8236adf4c36865dc9fc62a4c56e7567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 17/42] fix: IAS15 accepted unconverged steps because one
 stalled corrector sweep counted as convergence

---
 src/ode-iterator/IAS15.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ode-iterator/IAS15.hpp b/src/ode-iterator/IAS15.hpp
index 6d4a67c..c5fb4dd 100644
--- a/src/ode-iterator/IAS15.hpp
+++ b/src/ode-iterator/IAS15.hpp
@@ -64,6 +64,9 @@ namespace hub::ode {
         StepController step_ctrl_;
         ErrEstimator PC_err_checker_;
         Scalar last_PC_error_{math::max_value<Scalar>::value};
+        Scalar before_last_PC_error_{math::max_value<Scalar>::value};
+        size_t PC_sweeps_{0};
+        static constexpr size_t min_sweeps_{5};
         static constexpr size_t max_iter_{30};
         bool warmed_up{false};
 
@@ -117,15 +120,21 @@ namespace hub::ode {
     template <typename Integrator, typename ErrEstimator, typename StepController>
     void IAS15<Integrator, ErrEstimator, StepController>::reset_PC_iteration() {
         last_PC_error_ = math::max_value<Scalar>::value;
+        before_last_PC_error_ = math::max_value<Scalar>::value;
+        PC_sweeps_ = 0;
     }
 
     template <typename Integrator, typename ErrEstimator, typename StepController>
     bool IAS15<Integrator, ErrEstimator, StepController>::in_converged_window() {
         Scalar PC_error = PC_err_checker_.error(integrator_.dy_h(), integrator_.diff_b6());
-        if (PC_error < static_cast<Scalar>(1) || PC_error >= last_PC_error_) {
+        // A sweep improves either the velocities or the positions and the first ones can even move away from the
+        // solution, so a stalled error only means "as converged as it gets" after a few pairs of sweeps.
+        ++PC_sweeps_;
+        if (PC_error < static_cast<Scalar>(1) || (PC_sweeps_ > min_sweeps_ && PC_error >= before_last_PC_error_)) {
             reset_PC_iteration();
             return true;
         } else {
+            before_last_PC_error_ = last_PC_error_;
             last_PC_error_ = PC_error;
             return false;
         }
-- 
2.43.0


From 869abdc57068fa092cf02b325672e27719060bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 18/42] fix: Symplectic10th was an 8th order composition; use
 the 35-stage scheme of order 10

---
 .../symplectic/symplectic-integrator.hpp      | 135 ++++++++++--------
 1 file changed, 72 insertions(+), 63 deletions(-)

diff --git a/src/integrator/symplectic/symplectic-integrator.hpp b/src/integrator/symplectic/symplectic-integrator.hpp
index cb1ce42..3705777 100644
--- a/src/integrator/symplectic/symplectic-integrator.hpp
+++ b/src/integrator/symplectic/symplectic-integrator.hpp
@@ -297,68 +297,77 @@ namespace hub::integrator {
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
     void Symplectic10th<TypeSystem>::integrate(ParticleSys &system, typename ParticleSys::Scalar step_size) {
         /*unroll loop manually*/
-        system.drift(1.2557665476938634e-01 * step_size);
-        system.kick(2.5115330953877268e-01 * step_size);
-        system.drift(-1.9288621063874828e-01 * step_size);
-        system.kick(-6.3692573081626924e-01 * step_size);
-        system.drift(5.5434862753225678e-02 * step_size);
-        system.kick(7.4779545632272060e-01 * step_size);
-        system.drift(4.3160892192959932e-01 * step_size);
-        system.kick(1.1542238753647800e-01 * step_size);
-        system.drift(4.2477286784491525e-01 * step_size);
-        system.kick(7.3412334815335245e-01 * step_size);
-        system.drift(-7.6872229417056015e-02 * step_size);
-        system.kick(-8.8786780698746448e-01 * step_size);
-        system.drift(-7.6956706144236287e-01 * step_size);
-        system.kick(-6.5126631589726136e-01 * step_size);
-        system.drift(-6.0050191119721985e-02 * step_size);
-        system.kick(5.3116593365781739e-01 * step_size);
-        system.drift(3.3095796002497074e-01 * step_size);
-        system.kick(1.3074998639212410e-01 * step_size);
-        system.drift(5.1288848042847668e-01 * step_size);
-        system.kick(8.9502697446482926e-01 * step_size);
-        system.drift(2.2250778443570857e-01 * step_size);
-        system.kick(-4.5001140559341213e-01 * step_size);
-        system.drift(-1.1750569210727700e-01 * step_size);
-        system.kick(2.1500002137885812e-01 * step_size);
-        system.drift(-1.5240397828727220e-01 * step_size);
-        system.kick(-5.1980797795340250e-01 * step_size);
-        system.drift(-6.6002635995076209e-01 * step_size);
-        system.kick(-8.0024474194812156e-01 * step_size);
-        system.drift(-9.4012698954724694e-02 * step_size);
-        system.kick(6.1221934403867218e-01 * step_size);
-        system.drift(5.1957688973164256e-01 * step_size);
-        system.kick(4.2693443542461296e-01 * step_size);
-        system.drift(5.1957688973164256e-01 * step_size);
-        system.kick(6.1221934403867218e-01 * step_size);
-        system.drift(-9.4012698954724694e-02 * step_size);
-        system.kick(-8.0024474194812156e-01 * step_size);
-        system.drift(-6.6002635995076209e-01 * step_size);
-        system.kick(-5.1980797795340250e-01 * step_size);
-        system.drift(-1.5240397828727220e-01 * step_size);
-        system.kick(2.1500002137885812e-01 * step_size);
-        system.drift(-1.1750569210727700e-01 * step_size);
-        system.kick(-4.5001140559341213e-01 * step_size);
-        system.drift(2.2250778443570857e-01 * step_size);
-        system.kick(8.9502697446482926e-01 * step_size);
-        system.drift(5.1288848042847668e-01 * step_size);
-        system.kick(1.3074998639212410e-01 * step_size);
-        system.drift(3.3095796002497074e-01 * step_size);
-        system.kick(5.3116593365781739e-01 * step_size);
-        system.drift(-6.0050191119721985e-02 * step_size);
-        system.kick(-6.5126631589726136e-01 * step_size);
-        system.drift(-7.6956706144236287e-01 * step_size);
-        system.kick(-8.8786780698746448e-01 * step_size);
-        system.drift(-7.6872229417056015e-02 * step_size);
-        system.kick(7.3412334815335245e-01 * step_size);
-        system.drift(4.2477286784491525e-01 * step_size);
-        system.kick(1.1542238753647800e-01 * step_size);
-        system.drift(4.3160892192959932e-01 * step_size);
-        system.kick(7.4779545632272060e-01 * step_size);
-        system.drift(5.5434862753225678e-02 * step_size);
-        system.kick(-6.3692573081626924e-01 * step_size);
-        system.drift(-1.9288621063874828e-01 * step_size);
-        system.kick(2.5115330953877268e-01 * step_size);
-        system.drift(1.2557665476938634e-01 * step_size);
+        // The symmetric 35-stage composition of order 10 of Sofroniou & Spaletta, Optim. Methods Softw. 20 (2005) 597.
+        system.drift(3.9397861260843209632e-02 * step_size);
+        system.kick(7.8795722521686419264e-02 * step_size);
+        system.drift(1.9594591296839747351e-01 * step_size);
+        system.kick(3.1309610341510852776e-01 * step_size);
+        system.drift(1.7050724332509329694e-01 * step_size);
+        system.kick(2.7918383235078066110e-02 * step_size);
+        system.drift(-1.0083722917941451402e-01 * step_size);
+        system.kick(-2.2959284159390709415e-01 * step_size);
+        system.drift(-4.9315390258371115488e-02 * step_size);
+        system.kick(1.3096206107716486317e-01 * step_size);
+        system.drift(-6.9385672288672925585e-02 * step_size);
+        system.kick(-2.6973340565451071434e-01 * step_size);
+        system.drift(-9.7380031249309639339e-02 * step_size);
+        system.kick(7.4973343155891435666e-02 * step_size);
+        system.drift(9.3483383577850820278e-02 * step_size);
+        system.kick(1.1199342399981020489e-01 * step_size);
+        system.drift(2.3906343677301847804e-01 * step_size);
+        system.kick(3.6613344954622675119e-01 * step_size);
+        system.drift(-1.6486090294904573343e-02 * step_size);
+        system.kick(-3.9910563013603589788e-01 * step_size);
+        system.drift(-1.4800911580428241028e-01 * step_size);
+        system.kick(1.0308739852747107732e-01 * step_size);
+        system.drift(2.5725913624168065757e-01 * step_size);
+        system.kick(4.1143087395589023782e-01 * step_size);
+        system.drift(2.0328225668637748803e-01 * step_size);
+        system.kick(-4.8663605831352617622e-03 * step_size);
+        system.drift(-1.9844985714588758411e-01 * step_size);
+        system.kick(-3.9203335370863990645e-01 * step_size);
+        system.drift(-1.7004542537309512971e-01 * step_size);
+        system.kick(5.1942502962449647037e-02 * step_size);
+        system.drift(5.1303796861187071687e-02 * step_size);
+        system.kick(5.0665090759924496336e-02 * step_size);
+        system.drift(5.0169730699827187695e-02 * step_size);
+        system.kick(4.9674370639729879055e-02 * step_size);
+        system.drift(4.9496053199662208486e-02 * step_size);
+        system.kick(4.9317735759594537918e-02 * step_size);
+        system.drift(4.9496053199662208486e-02 * step_size);
+        system.kick(4.9674370639729879055e-02 * step_size);
+        system.drift(5.0169730699827187695e-02 * step_size);
+        system.kick(5.0665090759924496336e-02 * step_size);
+        system.drift(5.1303796861187071687e-02 * step_size);
+        system.kick(5.1942502962449647037e-02 * step_size);
+        system.drift(-1.7004542537309512971e-01 * step_size);
+        system.kick(-3.9203335370863990645e-01 * step_size);
+        system.drift(-1.9844985714588758411e-01 * step_size);
+        system.kick(-4.8663605831352617622e-03 * step_size);
+        system.drift(2.0328225668637748803e-01 * step_size);
+        system.kick(4.1143087395589023782e-01 * step_size);
+        system.drift(2.5725913624168065757e-01 * step_size);
+        system.kick(1.0308739852747107732e-01 * step_size);
+        system.drift(-1.4800911580428241028e-01 * step_size);
+        system.kick(-3.9910563013603589788e-01 * step_size);
+        system.drift(-1.6486090294904573343e-02 * step_size);
+        system.kick(3.6613344954622675119e-01 * step_size);
+        system.drift(2.3906343677301847804e-01 * step_size);
+        system.kick(1.1199342399981020489e-01 * step_size);
+        system.drift(9.3483383577850820278e-02 * step_size);
+        system.kick(7.4973343155891435666e-02 * step_size);
+        system.drift(-9.7380031249309639339e-02 * step_size);
+        system.kick(-2.6973340565451071434e-01 * step_size);
+        system.drift(-6.9385672288672925585e-02 * step_size);
+        system.kick(1.3096206107716486317e-01 * step_size);
+        system.drift(-4.9315390258371115488e-02 * step_size);
+        system.kick(-2.2959284159390709415e-01 * step_size);
+        system.drift(-1.0083722917941451402e-01 * step_size);
+        system.kick(2.7918383235078066110e-02 * step_size);
+        system.drift(1.7050724332509329694e-01 * step_size);
+        system.kick(3.1309610341510852776e-01 * step_size);
+        system.drift(1.9594591296839747351e-01 * step_size);
+        system.kick(7.8795722521686419264e-02 * step_size);
+        system.drift(3.9397861260843209632e-02 * step_size);
     }
 }  // namespace hub::integrator
-- 
2.43.0


From e833d5597e31db27ff8011ee61a09397cb3246aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 19/42] fix: Bulirsch-Stoer read past its tables after a first
 step that needed the last column, and could not shrink a first step that was
 too large

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index e153035..44d715b 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -491,7 +491,7 @@ namespace hub::ode {
             }
         } else {
             if (!step_reject_) {
-                ideal_rank_ = k;
+                ideal_rank_ = allowed(k);
             }
             return ideal_step_size_[k];
         }
@@ -510,7 +510,7 @@ namespace hub::ode {
             }  // else k == iterDepth+1 and error >1 reject directly
             return error > r * r;
         } else {
-            return false;
+            return k == ideal_rank_ + 1;  // no convergence within the whole table
         }
     }
 
-- 
2.43.0


From ab21be97f985c0ca9949db85986238ac8f82ec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:33 +0000
Subject: [PATCH 20/42] fix: the generic Bulirsch-Stoer iterate advanced the
 clock by every trial column instead of the accepted step

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index 44d715b..615d855 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -125,7 +125,7 @@ namespace hub::ode {
         void integrate_by_n_steps(U &particles, Scalar macro_step_size, size_t steps);
 
         void integrate_by_n_steps(std::function<void(StateScalarArray const &, StateScalarArray &, Scalar)> func,
-                                  StateScalarArray &data_out, Scalar &time, Scalar step_size, size_t steps);
+                                  StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps);
 
         void extrapolate(size_t k);
 
@@ -408,7 +408,7 @@ namespace hub::ode {
 
     template <typename Integrator, typename ErrEstimator, typename StepController, size_t MaxIter>
     void BulirschStoer<Integrator, ErrEstimator, StepController, MaxIter>::integrate_by_n_steps(
-        EvaluateFun func, StateScalarArray &data_out, Scalar &time, Scalar step_size, size_t steps) {
+        EvaluateFun func, StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps) {
         data_out = input_;
         Scalar h = step_size / steps;
         StateScalarArray dxdt(input_.size());
-- 
2.43.0


From 39eadee68aa8f358aa47820016968fa21ea1c4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 21/42] fix: SequentOdeIterator accepted steps whose error was
 far above the tolerance after its last subdivision

---
 src/ode-iterator/sequent-iterator.hpp | 43 ++++++++++++++++-----------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/ode-iterator/sequent-iterator.hpp b/src/ode-iterator/sequent-iterator.hpp
index 57d8582..21ef94c 100644
--- a/src/ode-iterator/sequent-iterator.hpp
+++ b/src/ode-iterator/sequent-iterator.hpp
@@ -115,12 +115,6 @@ namespace hub::ode {
 
         Scalar error = 0;
 
-        // Scalar last_error = math::max_value<Scalar>::value;
-
-        integrator_.integrate(particles, h);
-
-        particles.write_to_scalar_array(output_);
-
         /*for (size_t i = 0; i < max_iter_; ++i) {
             h /= 2;
             n_steps *= 2;
@@ -140,20 +134,35 @@ namespace hub::ode {
             //}
             std::swap(output_, dual_steps_output_);
         }*/
-        for (size_t i = 1; i <= max_iter_; ++i) {
-            h = macro_step_size / ns[i];
-            particles.read_from_scalar_array(input_);
-            for (size_t j = 0; j < ns[i]; ++j) {
-                integrator_.integrate(particles, h);
+        Scalar last_error = math::max_value<Scalar>::value;
+
+        for (;;) {
+            h = macro_step_size;
+            integrator_.integrate(particles, h);
+            particles.write_to_scalar_array(output_);
+
+            for (size_t i = 1; i <= max_iter_; ++i) {
+                h = macro_step_size / ns[i];
+                particles.read_from_scalar_array(input_);
+                for (size_t j = 0; j < ns[i]; ++j) {
+                    integrator_.integrate(particles, h);
+                }
+                particles.write_to_scalar_array(dual_steps_output_);
+                auto bisec_error_scale = 1.0 / (integer_pow(double(ns[i]) / double(ns[i - 1]), Integrator::order) - 1);
+                error = bisec_error_scale * err_checker_.error(input_, output_, dual_steps_output_);
+                // std::cout << i << ' ' << error << '\n';
+                if (error <= 1) {
+                    break;
+                }
+                std::swap(output_, dual_steps_output_);
             }
-            particles.write_to_scalar_array(dual_steps_output_);
-            auto bisec_error_scale = 1.0 / (integer_pow(double(ns[i]) / double(ns[i - 1]), Integrator::order) - 1);
-            error = bisec_error_scale * err_checker_.error(input_, output_, dual_steps_output_);
-            // std::cout << i << ' ' << error << '\n';
-            if (error <= 1) {
+            // not converged: redo with a smaller step as long as that still helps (it does not once rounding dominates)
+            if (error <= 1 || !(error < 0.5 * last_error)) {
                 break;
             }
-            std::swap(output_, dual_steps_output_);
+            last_error = error;
+            macro_step_size *= step_ctrl_.next_with_limiter(Integrator::order, error);
+            particles.read_from_scalar_array(input_);
         }
         particles.read_from_scalar_array(dual_steps_output_);
         return macro_step_size * step_ctrl_.next_with_limiter(Integrator::order, error);
-- 
2.43.0


From fb69c72dbbed539437d8a66d52d976eaf1f76a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 22/42] fix: SequentOdeIterator gave up on close encounters its
 step did not resolve

---
 src/ode-iterator/sequent-iterator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ode-iterator/sequent-iterator.hpp b/src/ode-iterator/sequent-iterator.hpp
index 21ef94c..42c28b4 100644
--- a/src/ode-iterator/sequent-iterator.hpp
+++ b/src/ode-iterator/sequent-iterator.hpp
@@ -136,6 +136,8 @@ namespace hub::ode {
         }*/
         Scalar last_error = math::max_value<Scalar>::value;
 
+        size_t redo = 0;
+
         for (;;) {
             h = macro_step_size;
             integrator_.integrate(particles, h);
@@ -156,8 +158,9 @@ namespace hub::ode {
                 }
                 std::swap(output_, dual_steps_output_);
             }
-            // not converged: redo with a smaller step as long as that still helps (it does not once rounding dominates)
-            if (error <= 1 || !(error < 0.5 * last_error)) {
+            // not converged: redo with a smaller step, unless that no longer helps because rounding dominates
+            bool const rounding = error * err_checker_.rtol() < 1e4 * math::epsilon<Scalar>::value;
+            if (error <= 1 || (rounding && error >= 0.5 * last_error) || ++redo > 50 || error != error) {
                 break;
             }
             last_error = error;
-- 
2.43.0


From 5649226594a4686e589c934e72894fee1619a1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:40 +0000
Subject: [PATCH 23/42] fix: extended-precision norms and roots were computed
 in double (unqualified sqrt/fabs resolved to the C double functions)

---
 src/math.hpp           | 2 +-
 src/orbits/orbits.hpp  | 2 +-
 src/vector/vector3.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math.hpp b/src/math.hpp
index 0efb0d0..8b6a972 100644
--- a/src/math.hpp
+++ b/src/math.hpp
@@ -24,7 +24,7 @@ License
  */
 #pragma once
 
-#include <cmath>
+#include <math.h>
 
 #include "dev-tools.hpp"
 
diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 9ad0aff..7eecf74 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -24,7 +24,7 @@ License
  */
 #pragma once
 
-#include <cmath>
+#include <math.h>
 #include <variant>
 
 #include "../IO.hpp"
diff --git a/src/vector/vector3.hpp b/src/vector/vector3.hpp
index 1a09c65..77d16cf 100644
--- a/src/vector/vector3.hpp
+++ b/src/vector/vector3.hpp
@@ -24,7 +24,7 @@ License
  */
 #pragma once
 
-#include <cmath>
+#include <math.h>
 #include <iostream>
 
 #include "../dev-tools.hpp"
-- 
2.43.0


From b3b5030c87fc1dd7e396d69f3739bb4d389d51c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 24/42] fix: LogTimeSlice over a unit time interval looped
 forever at its end

---
 src/args-callback/callbacks.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 58c9418..e93f00c 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -401,7 +401,7 @@ namespace hub::callback {
         if (t >= static_cast<Scalar>(opt_time_) && t <= end_time_) {
             do {
                 opt_time_ = (opt_time_ - start_time_) * opt_interval_ + start_time_;
-            } while (opt_time_ <= t);
+            } while (opt_time_ <= t && opt_interval_ > 1);
             opt_(ptc, step_size);
         }
     }
@@ -415,7 +415,7 @@ namespace hub::callback {
         if (ptc.time() >= static_cast<Scalar>(opt_time_) && t <= end_time_) {
             do {
                 opt_time_ = (opt_time_ - start_time_) * opt_interval_ + start_time_;
-            } while (opt_time_ <= t);
+            } while (opt_time_ <= t && opt_interval_ > 1);
             return opt_(ptc, step_size);
         } else {
             return false;
-- 
2.43.0


From ef9a65c5a67a7d4a257263fc1cbbc30c41eb0a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:59 +0000
Subject: [PATCH 25/42] fix: chain-coordinate methods read out of bounds with a
 single particle

---
 src/interaction/newtonian.hpp      |  4 ++--
 src/interaction/post-newtonian.hpp | 12 ++++++------
 src/interaction/tidal.hpp          |  4 ++--
 src/particle-system/chain.hpp      |  8 ++++++++
 4 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/interaction/newtonian.hpp b/src/interaction/newtonian.hpp
index bf3500a..6f280e9 100644
--- a/src/interaction/newtonian.hpp
+++ b/src/interaction/newtonian.hpp
@@ -101,11 +101,11 @@ namespace hub::force {
                 }
             }
 
-            for (size_t i = 0; i < size - 2; ++i) {
+            for (size_t i = 0; i + 2 < size; ++i) {
                 force(ch_p[i] + ch_p[i + 1], idx[i], idx[i + 2]);
             }
 
-            for (size_t i = 0; i < size - 1; ++i) {
+            for (size_t i = 0; i + 1 < size; ++i) {
                 force(ch_p[i], idx[i], idx[i + 1]);
             }
         } else {
diff --git a/src/interaction/post-newtonian.hpp b/src/interaction/post-newtonian.hpp
index 56f39c1..c170134 100644
--- a/src/interaction/post-newtonian.hpp
+++ b/src/interaction/post-newtonian.hpp
@@ -174,11 +174,11 @@ namespace hub::force {
             auto const &idx = particles.index();
 
             size_t size = particles.number();
-            for (size_t i = 0; i < size - 1; ++i) {
+            for (size_t i = 0; i + 1 < size; ++i) {
                 force(ch_p[i], ch_v[i], idx[i], idx[i + 1]);
             }
 
-            for (size_t i = 0; i < size - 2; ++i) {
+            for (size_t i = 0; i + 2 < size; ++i) {
                 force(ch_p[i] + ch_p[i + 1], ch_v[i] + ch_v[i + 1], idx[i], idx[i + 2]);
             }
 
@@ -261,11 +261,11 @@ namespace hub::force {
             auto const &idx = particles.index();
 
             size_t size = particles.number();
-            for (size_t i = 0; i < size - 1; ++i) {
+            for (size_t i = 0; i + 1 < size; ++i) {
                 force(ch_p[i], ch_v[i], idx[i], idx[i + 1]);
             }
 
-            for (size_t i = 0; i < size - 2; ++i) {
+            for (size_t i = 0; i + 2 < size; ++i) {
                 force(ch_p[i] + ch_p[i + 1], ch_v[i] + ch_v[i + 1], idx[i], idx[i + 2]);
             }
 
@@ -326,11 +326,11 @@ namespace hub::force {
             auto const &idx = particles.index();
 
             size_t size = particles.number();
-            for (size_t i = 0; i < size - 1; ++i) {
+            for (size_t i = 0; i + 1 < size; ++i) {
                 force(ch_p[i], ch_v[i], idx[i], idx[i + 1]);
             }
 
-            for (size_t i = 0; i < size - 2; ++i) {
+            for (size_t i = 0; i + 2 < size; ++i) {
                 force(ch_p[i] + ch_p[i + 1], ch_v[i] + ch_v[i + 1], idx[i], idx[i + 2]);
             }
 
diff --git a/src/interaction/tidal.hpp b/src/interaction/tidal.hpp
index ee18e21..f879112 100644
--- a/src/interaction/tidal.hpp
+++ b/src/interaction/tidal.hpp
@@ -92,11 +92,11 @@ namespace hub::force {
                 }
             }
 
-            for (size_t i = 0; i < size - 2; ++i) {
+            for (size_t i = 0; i + 2 < size; ++i) {
                 force(ch_p[i] + ch_p[i + 1], ch_v[i] + ch_v[i + 1], idx[i], idx[i + 2]);
             }
 
-            for (size_t i = 0; i < size - 1; ++i) {
+            for (size_t i = 0; i + 1 < size; ++i) {
                 force(ch_p[i], ch_v[i], idx[i], idx[i + 1]);
             }
         } else {
diff --git a/src/particle-system/chain.hpp b/src/particle-system/chain.hpp
index 62ffb16..aee86fc 100644
--- a/src/particle-system/chain.hpp
+++ b/src/particle-system/chain.hpp
@@ -256,6 +256,14 @@ namespace hub {
 
     template <typename IdxArray>
     void Chain::create_index_from_dist_array(std::vector<Node> &dist, IdxArray &idx, size_t num) {
+        if (dist.empty()) {  // fewer than two particles, nothing to link
+            idx.clear();
+            for (size_t i = 0; i < num; ++i) {
+                idx.emplace_back(i);
+            }
+            return;
+        }
+
         auto head = dist[0].i;
         auto tail = dist[0].j;
         dist[0].avail = false;
-- 
2.43.0


From 08d8a4a3c80a029cc36bfabc0dda205b133d2d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:59 +0000
Subject: [PATCH 26/42] fix: 2PN acceleration of the second particle of a pair
 used the wrong radial velocity (not symmetric under exchange)

---
 src/interaction/post-newtonian.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interaction/post-newtonian.hpp b/src/interaction/post-newtonian.hpp
index c170134..cc5fdcf 100644
--- a/src/interaction/post-newtonian.hpp
+++ b/src/interaction/post-newtonian.hpp
@@ -245,7 +245,7 @@ namespace hub::force {
             auto Bi = v1s * nv2 + 4 * v2s * nv1 - 5 * v2s * nv2 - 4 * v12 * nv1 + 4 * v12 * nv2 - 6 * nv1 * nv2s +
                       4.5 * nv2 * nv2s + gmr1 * (-15.75 * nv1 + 13.75 * nv2) + gmr2 * (-2 * nv1 - 2 * nv2);
 
-            auto Bj = -v2s * nv1 - 4 * v1s * nv2 + 5 * v1s * nv2 + 4 * v12 * nv2 - 4 * v12 * nv1 + 6 * nv2 * nv1s -
+            auto Bj = -v2s * nv1 - 4 * v1s * nv2 + 5 * v1s * nv1 + 4 * v12 * nv2 - 4 * v12 * nv1 + 6 * nv2 * nv1s -
                       4.5 * nv1 * nv1s + gmr2 * (15.75 * nv2 - 13.75 * nv1) + gmr1 * (2 * nv2 + 2 * nv1);
 
             auto coef = consts::G / r2 * INV_C4;
-- 
2.43.0


From 6898a6cadd12ef76a4f3f76f247cae245acff040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:59 +0000
Subject: [PATCH 27/42] fix: disk drag on a particle co-moving with the gas was
 NaN

---
 src/interaction/alpha-disk.hpp        | 6 ++++--
 src/interaction/disk-capture-star.hpp | 6 ++++--
 src/interaction/magneto-disk.hpp      | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/interaction/alpha-disk.hpp b/src/interaction/alpha-disk.hpp
index f2ee780..9021381 100644
--- a/src/interaction/alpha-disk.hpp
+++ b/src/interaction/alpha-disk.hpp
@@ -138,8 +138,10 @@ namespace hub::force {
                 double aeo = 4 * consts::pi * rd * rd * rho * v2;
                 f = df + aeo;
             }
-            acceleration[i] -= f * v_rel / vabs / m[i];
-            acceleration[0] += f * v_rel / vabs / m[0];
+            if (vabs > 0) {  // no drag (and no direction) on a particle that moves with the gas
+                acceleration[i] -= f * v_rel / vabs / m[i];
+                acceleration[0] += f * v_rel / vabs / m[0];
+            }
         }
     }
 
diff --git a/src/interaction/disk-capture-star.hpp b/src/interaction/disk-capture-star.hpp
index 2285f38..ccda40c 100644
--- a/src/interaction/disk-capture-star.hpp
+++ b/src/interaction/disk-capture-star.hpp
@@ -79,8 +79,10 @@ namespace hub::force {
             acceleration[0] -= std::max(f1, f2) * v_rel / vabs;*/
             // double f1 = consts::pi * rd * rd * rho * dot(v_rel, v_rel);
             double f = consts::pi * rd * rd * rho * dot(v_rel, v_rel);
-            acceleration[i] -= f * v_rel / vabs / m[i];
-            acceleration[0] += f * v_rel / vabs / m[0];
+            if (vabs > 0) {  // no drag (and no direction) on a particle that moves with the gas
+                acceleration[i] -= f * v_rel / vabs / m[i];
+                acceleration[0] += f * v_rel / vabs / m[0];
+            }
         }
     }
 
diff --git a/src/interaction/magneto-disk.hpp b/src/interaction/magneto-disk.hpp
index 1e3b620..a990a63 100644
--- a/src/interaction/magneto-disk.hpp
+++ b/src/interaction/magneto-disk.hpp
@@ -611,8 +611,10 @@ namespace hub::force {
             double aeo = 4 * consts::pi * rd * rd * rho * v2;
             double f = df + aeo;
 
-            acceleration[i] -= f * v_rel / vabs / m[i];
-            acceleration[0] += f * v_rel / vabs / m[0];
+            if (vabs > 0) {  // no drag (and no direction) on a particle that moves with the gas
+                acceleration[i] -= f * v_rel / vabs / m[i];
+                acceleration[0] += f * v_rel / vabs / m[0];
+            }
         }
     }
 
-- 
2.43.0


From 2eb9d5fd8147829553dddb6ca6871ce7ff4ea11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:12 +0000
Subject: [PATCH 28/42] fix: MagnetoDisk table interpolation used neighbouring
 cells and read past the end of the table

---
 src/interaction/magneto-disk.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/interaction/magneto-disk.hpp b/src/interaction/magneto-disk.hpp
index a990a63..77617b4 100644
--- a/src/interaction/magneto-disk.hpp
+++ b/src/interaction/magneto-disk.hpp
@@ -24,6 +24,8 @@ License
  */
 #pragma once
 
+#include <algorithm>
+
 #include "../dev-tools.hpp"
 #include "../macros.hpp"
 #include "../spacehub-concepts.hpp"
@@ -570,7 +572,8 @@ namespace hub::force {
         }
         template <typename Scalar>
         static double interpolate(Scalar x, std::vector<double> const &xarry, std::vector<double> const &yarray) {
-            size_t idx = int((x - xarry[0]) / (xarry[1] - xarry[0]));
+            // the tables are not exactly equidistant, so look the cell up instead of calculating it
+            size_t idx = std::upper_bound(xarry.begin() + 1, xarry.end() - 1, x) - xarry.begin() - 1;
             double x0 = xarry[idx];
             double x1 = xarry[idx + 1];
             double y0 = yarray[idx];
-- 
2.43.0


From 5f5492c47a258d703c03fad601ab7c7e3f6117ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 29/42] fix: SmallVector::erase of an empty range and insert of
 no elements moved the following elements onto themselves, which empties
 strings

---
 src/small-vector.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/small-vector.hpp b/src/small-vector.hpp
index 15430ca..15b0c3d 100644
--- a/src/small-vector.hpp
+++ b/src/small-vector.hpp
@@ -846,6 +846,8 @@ namespace llvm {
             assert(E <= this->end() && "Trying to erase past the end.");
 
             iterator N = S;
+            // Nothing to erase: shifting would move every element onto itself.
+            if (S == E) return N;
             // Shift all elts down.
             iterator I = std::move(E, this->end(), S);
             // Drop the last elts.
@@ -924,6 +926,9 @@ namespace llvm {
             assert(I >= this->begin() && "Insertion iterator is out of bounds.");
             assert(I <= this->end() && "Inserting past the end of the vector.");
 
+            // Nothing to insert: shifting would move every element onto itself.
+            if (NumToInsert == 0) return I;
+
             // Ensure there is enough hub.
             reserve(this->size() + NumToInsert);
 
@@ -981,6 +986,9 @@ namespace llvm {
 
             size_t NumToInsert = std::distance(From, To);
 
+            // Nothing to insert: shifting would move every element onto itself.
+            if (NumToInsert == 0) return I;
+
             // Ensure there is enough hub.
             reserve(this->size() + NumToInsert);
 
-- 
2.43.0


From e09b103e99600311845bb8f6963eb8d16303e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:53 +0000
Subject: [PATCH 30/42] fix: scaling a compensated number scales its
 compensation too

operator*= and operator/= of Kahan, Neumaier and Klein numbers left the compensation term unscaled,
so that the next addition applied the old, wrong-sized correction.
---
 src/kahan-number.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kahan-number.hpp b/src/kahan-number.hpp
index 415af89..ea197a3 100644
--- a/src/kahan-number.hpp
+++ b/src/kahan-number.hpp
@@ -118,6 +118,7 @@ namespace hub {
          */
         friend inline Kahan &operator/=(Kahan &lhs, const Kahan &rhs) {
             lhs.real /= rhs.real;
+            lhs.err /= rhs.real;
             return lhs;
         }
 
@@ -126,6 +127,7 @@ namespace hub {
          */
         friend inline Kahan &operator*=(Kahan &lhs, const Kahan &rhs) {
             lhs.real *= rhs.real;
+            lhs.err *= rhs.real;
             return lhs;
         }
 
@@ -236,6 +238,7 @@ namespace hub {
          */
         friend inline Neumaier &operator/=(Neumaier &lhs, const Neumaier &rhs) {
             lhs.real /= rhs.real;
+            lhs.err /= rhs.real;
             return lhs;
         }
 
@@ -244,6 +247,7 @@ namespace hub {
          */
         friend inline Neumaier &operator*=(Neumaier &lhs, const Neumaier &rhs) {
             lhs.real *= rhs.real;
+            lhs.err *= rhs.real;
             return lhs;
         }
 
@@ -373,6 +377,8 @@ namespace hub {
          */
         friend inline Klein &operator/=(Klein &lhs, const Klein &rhs) {
             lhs.real /= rhs.real;
+            lhs.err /= rhs.real;
+            lhs.err_of_err /= rhs.real;
             return lhs;
         }
 
@@ -381,6 +387,8 @@ namespace hub {
          */
         friend inline Klein &operator*=(Klein &lhs, const Klein &rhs) {
             lhs.real *= rhs.real;
+            lhs.err *= rhs.real;
+            lhs.err_of_err *= rhs.real;
             return lhs;
         }
 
-- 
2.43.0


From 4ca061abfb8bf5c4346e5ea9989fb3f31cc7f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:53 +0000
Subject: [PATCH 31/42] fix: reading a Klein number clears its second-order
 compensation

---
 src/kahan-number.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kahan-number.hpp b/src/kahan-number.hpp
index ea197a3..b34b569 100644
--- a/src/kahan-number.hpp
+++ b/src/kahan-number.hpp
@@ -406,6 +406,7 @@ namespace hub {
         friend std::istream &operator>>(std::istream &input, Klein &v) {
             input >> v.real;
             v.err = 0;
+            v.err_of_err = 0;
             return input;
         }
     };
-- 
2.43.0


From 353312d09e768221e6fa56b7ab49eec052810feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:53 +0000
Subject: [PATCH 32/42] fix: the adaptive ExtPlus methods keep their state in
 compensated numbers

---
 src/spaceHub.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spaceHub.hpp b/src/spaceHub.hpp
index ff5acc6..5e754f8 100644
--- a/src/spaceHub.hpp
+++ b/src/spaceHub.hpp
@@ -269,7 +269,7 @@ namespace hub {
                                                                                                                        \
     template <typename interactions = DefaultForce, template <typename> typename particle = DefaultParticles>          \
     using NAME##_ExtPlus =                                                                                             \
-        Simulator<system::SYSTEM<particle<details::extended_type>, interactions>, details::ITER##_extplus>;            \
+        Simulator<system::SYSTEM<particle<details::extended_precise_type>, interactions>, details::ITER##_extplus>;    \
                                                                                                                        \
     template <typename interactions = DefaultForce, template <typename> typename particle = DefaultParticles>          \
     using Const_##NAME##_Ext =                                                                                         \
-- 
2.43.0


From 85bfcfbb0e96e206ea7fb7332cb4847db49e015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:53 +0000
Subject: [PATCH 33/42] fix: potential energy of a chain of one particle reads
 outside the chain

---
 src/core-computation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core-computation.hpp b/src/core-computation.hpp
index 8e30dd5..3a6417f 100644
--- a/src/core-computation.hpp
+++ b/src/core-computation.hpp
@@ -503,11 +503,11 @@ namespace hub::calc {
             auto const &ch_p = particles.chain_pos();
             auto const &idx = particles.index();
 
-            for (size_t i = 0; i < size - 1; ++i) {
+            for (size_t i = 0; i + 1 < size; ++i) {
                 potential_eng -= m[idx[i]] * m[idx[i + 1]] / norm(ch_p[i]);
             }
 
-            for (size_t i = 0; i < size - 2; ++i) {
+            for (size_t i = 0; i + 2 < size; ++i) {
                 decltype(ch_p[i]) dr = ch_p[i] + ch_p[i + 1];
                 potential_eng -= m[idx[i]] * m[idx[i + 2]] / norm(dr);
             }
-- 
2.43.0


From 36f98b13db22a7f8d8e00b8bdea2a87b0be7f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:53 +0000
Subject: [PATCH 34/42] fix: random::Parameter rejects negative draws and zero
 when no bound is set

---
 src/rand-generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand-generator.hpp b/src/rand-generator.hpp
index 30edbe1..d7a0499 100644
--- a/src/rand-generator.hpp
+++ b/src/rand-generator.hpp
@@ -195,7 +195,7 @@ namespace hub::random {
         void set_boundary(double min, double max) { min_ = min, max_ = max; }
 
        private:
-        double min_{std::numeric_limits<double>::min()};
+        double min_{std::numeric_limits<double>::lowest()};
         double max_{std::numeric_limits<double>::max()};
         std::function<double()> dist_;
     };
-- 
2.43.0


From d9c3dc9dd995a629907609a2106b353a10f190fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:53 +0000
Subject: [PATCH 35/42] fix: bisection compares signs, not products that
 underflow, and ends at a root at zero

---
 src/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math.hpp b/src/math.hpp
index 8b6a972..d1fc682 100644
--- a/src/math.hpp
+++ b/src/math.hpp
@@ -245,7 +245,9 @@ namespace hub::math {
 
         for (; fabs((high - low)) > fabs(high) * math::epsilon<Scalar>::value;) {
             Scalar mid = 0.5 * (high + low);
-            if (f(mid) * f(high) > 0)
+            if (mid == low || mid == high) break;  // no number in between
+            Scalar f_mid = f(mid), f_high = f(high);
+            if ((f_mid > 0 && f_high > 0) || (f_mid < 0 && f_high < 0))  // the product may underflow
                 high = mid;
             else
                 low = mid;
-- 
2.43.0


From 8f634313fc564d54d9550f6e3850d89ebbe94be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:20 +0000
Subject: [PATCH 36/42] fix: SmallVector's push, insert, append, assign and
 resize with one of its own elements used freed or overwritten memory

---
 src/small-vector.hpp | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/small-vector.hpp b/src/small-vector.hpp
index 15b0c3d..fdbbaa6 100644
--- a/src/small-vector.hpp
+++ b/src/small-vector.hpp
@@ -610,15 +610,23 @@ namespace llvm {
         /// element, or MinSize more elements if specified.
         void grow(size_t MinSize = 0);
 
+        /// The element is passed by value because the argument of push_back may be an element of this vector, which
+        /// does not survive the growth.
+        void grow_and_push_back(T Elt) {
+            this->grow();
+            ::new ((void *)this->end()) T(::std::move(Elt));
+            this->setEnd(this->end() + 1);
+        }
+
        public:
         void push_back(const T &Elt) {
-            if (LLVM_UNLIKELY(this->EndX >= this->CapacityX)) this->grow();
+            if (LLVM_UNLIKELY(this->EndX >= this->CapacityX)) return grow_and_push_back(T(Elt));
             ::new ((void *)this->end()) T(Elt);
             this->setEnd(this->end() + 1);
         }
 
         void push_back(T &&Elt) {
-            if (LLVM_UNLIKELY(this->EndX >= this->CapacityX)) this->grow();
+            if (LLVM_UNLIKELY(this->EndX >= this->CapacityX)) return grow_and_push_back(T(::std::move(Elt)));
             ::new ((void *)this->end()) T(::std::move(Elt));
             this->setEnd(this->end() + 1);
         }
@@ -697,9 +705,17 @@ namespace llvm {
         /// least one more element or MinSize if specified.
         void grow(size_t MinSize = 0) { this->grow_pod(MinSize * sizeof(T), sizeof(T)); }
 
+        /// The element is passed by value because the argument of push_back may be an element of this vector, which
+        /// does not survive the growth.
+        void grow_and_push_back(T Elt) {
+            this->grow();
+            memcpy(this->end(), &Elt, sizeof(T));
+            this->setEnd(this->end() + 1);
+        }
+
        public:
         void push_back(const T &Elt) {
-            if (LLVM_UNLIKELY(this->EndX >= this->CapacityX)) this->grow();
+            if (LLVM_UNLIKELY(this->EndX >= this->CapacityX)) return grow_and_push_back(Elt);
             memcpy(this->end(), &Elt, sizeof(T));
             this->setEnd(this->end() + 1);
         }
@@ -749,7 +765,7 @@ namespace llvm {
             }
         }
 
-        void resize(size_type N, const T &NV) {
+        void resize(size_type N, T NV) {  // by value: it may be an element of this vector
             if (N < this->size()) {
                 this->destroy_range(this->begin() + N, this->end());
                 this->setEnd(this->begin() + N);
@@ -787,7 +803,7 @@ namespace llvm {
         }
 
         /// Add the specified range to the end of the SmallVector.
-        void append(size_type NumInputs, const T &Elt) {
+        void append(size_type NumInputs, T Elt) {  // by value: it may be an element of this vector
             // Grow allocated hub if needed.
             if (NumInputs > size_type(this->capacity_ptr() - this->end())) this->grow(this->size() + NumInputs);
 
@@ -801,7 +817,7 @@ namespace llvm {
         // FIXME: Consider assigning over existing elements, rather than clearing &
         // re-initializing them - for all assign(...) variants.
 
-        void assign(size_type NumElts, const T &Elt) {
+        void assign(size_type NumElts, T Elt) {  // by value: it may be an element of this vector
             clear();
             if (this->capacity() < NumElts) this->grow(NumElts);
             this->setEnd(this->begin() + NumElts);
@@ -867,8 +883,9 @@ namespace llvm {
 
             if (this->EndX >= this->CapacityX) {
                 size_t EltNo = I - this->begin();
+                T Value(::std::move(Elt));  // may be an element of this vector, which does not survive the growth
                 this->grow();
-                I = this->begin() + EltNo;
+                return this->insert(this->begin() + EltNo, ::std::move(Value));
             }
 
             ::new ((void *)this->end()) T(::std::move(this->back()));
@@ -896,8 +913,9 @@ namespace llvm {
 
             if (this->EndX >= this->CapacityX) {
                 size_t EltNo = I - this->begin();
+                T Value(Elt);  // may be an element of this vector, which does not survive the growth
                 this->grow();
-                I = this->begin() + EltNo;
+                return this->insert(this->begin() + EltNo, ::std::move(Value));
             }
             ::new ((void *)this->end()) T(std::move(this->back()));
             // Push everything else over.
@@ -913,7 +931,7 @@ namespace llvm {
             return I;
         }
 
-        iterator insert(iterator I, size_type NumToInsert, const T &Elt) {
+        iterator insert(iterator I, size_type NumToInsert, T Elt) {  // by value: it may be an element of this vector
             // Convert iterator to elt# to avoid invalidating iterator when we
             // reserve()
             size_t InsertElt = I - this->begin();
@@ -1036,7 +1054,9 @@ namespace llvm {
 
         template <typename... ArgTypes>
         void emplace_back(ArgTypes &&...Args) {
-            if (LLVM_UNLIKELY(this->EndX >= this->CapacityX)) this->grow();
+            if (LLVM_UNLIKELY(this->EndX >= this->CapacityX)) {
+                return this->grow_and_push_back(T(std::forward<ArgTypes>(Args)...));
+            }
             ::new ((void *)this->end()) T(std::forward<ArgTypes>(Args)...);
             this->setEnd(this->end() + 1);
         }
-- 
2.43.0


From fce5cd9f1af22a97331f813c0cb7f7fd093e2914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:31 +0000
Subject: [PATCH 37/42] fix: configuration files that may only be read could
 not be opened

---
 src/tools/config-reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/config-reader.hpp b/src/tools/config-reader.hpp
index 95a2524..075ab97 100644
--- a/src/tools/config-reader.hpp
+++ b/src/tools/config-reader.hpp
@@ -66,7 +66,7 @@ namespace hub::tools {
           Class ConfigReader Implementation
     \*---------------------------------------------------------------------------*/
     ConfigReader::ConfigReader(std::string const &file_name, char divider, char commenter) {
-        std::fstream file(file_name);
+        std::ifstream file(file_name);
         if (file.is_open()) {
             std::string line;
             while (std::getline(file, line)) {
-- 
2.43.0


From 7a140f4760746dbc3ae9ac1a22af3043ad709fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:31 +0000
Subject: [PATCH 38/42] fix: command line options as bool fell off the end of
 as() and as char pointers did not compile

---
 src/tools/config-reader.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/config-reader.hpp b/src/tools/config-reader.hpp
index 075ab97..26f4fff 100644
--- a/src/tools/config-reader.hpp
+++ b/src/tools/config-reader.hpp
@@ -157,10 +157,12 @@ namespace hub::tools {
                 return std::stoul(opt_);
             } else if constexpr (std::is_same_v<T, unsigned long long>) {
                 return std::stoull(opt_);
-            } else if constexpr (std::is_same_v<T, char *>) {
+            } else if constexpr (std::is_same_v<T, char const *>) {
                 return opt_.c_str();
             } else if constexpr (std::is_same_v<T, std::string>) {
                 return opt_;
+            } else if constexpr (std::is_same_v<T, bool>) {
+                return static_cast<bool>(std::stoi(opt_));
             }
         }
 
-- 
2.43.0


From f9ea41882e323454e21d704ee76c41f6a15b0820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:31 +0000
Subject: [PATCH 39/42] fix: a thread pool worker could miss the end of the
 pool and keep its destructor waiting for ever

---
 src/multi-thread/thread_pool.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/multi-thread/thread_pool.h b/src/multi-thread/thread_pool.h
index 39f2d64..f89c3a8 100644
--- a/src/multi-thread/thread_pool.h
+++ b/src/multi-thread/thread_pool.h
@@ -69,7 +69,10 @@ namespace hub::multi_thread {
     }
 
     ThreadPool::~ThreadPool() {
-        stop_ = true;
+        {
+            std::lock_guard<std::mutex> lock(lock_);  // no worker is between checking stop_ and waiting
+            stop_ = true;
+        }
         cv_.notify_all();
         for (auto &worker : workers_) {
             if (worker.joinable()) worker.join();
-- 
2.43.0


From 1086514fbf086d8e8c576004c8a7859edfc20a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:31 +0000
Subject: [PATCH 40/42] fix: PIDController::set_limiter had no effect on the
 limits

---
 .../step-controller/PID-controller.hpp          | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/ode-iterator/step-controller/PID-controller.hpp b/src/ode-iterator/step-controller/PID-controller.hpp
index 546b3c7..612f477 100644
--- a/src/ode-iterator/step-controller/PID-controller.hpp
+++ b/src/ode-iterator/step-controller/PID-controller.hpp
@@ -122,6 +122,14 @@ namespace hub::ode {
     void PIDController<TypeSystem>::set_limiter(Scalar S3, Scalar S4) {
         safe_guard3_ = S3;
         safe_guard4_ = S4;
+        expon_[0] = 0.0;
+        limiter_max_[0] = safe_guard4_;
+        limiter_min_[0] = 1.0 / safe_guard4_;
+        for (size_t i = 1; i < max_order; i++) {
+            expon_[i] = 1.0 / static_cast<Scalar>(i);
+            limiter_max_[i] = POW(1.0 / safe_guard3_, expon_[i]);
+            limiter_min_[i] = POW(safe_guard3_, expon_[i]) / safe_guard4_;
+        }
     }
 
     template <typename TypeSystem>
@@ -162,14 +170,7 @@ namespace hub::ode {
 
     template <typename TypeSystem>
     PIDController<TypeSystem>::PIDController() {
-        expon_[0] = 0.0;
-        limiter_max_[0] = safe_guard4_;
-        limiter_min_[0] = 1.0 / safe_guard4_;
-        for (size_t i = 1; i < max_order; i++) {
-            expon_[i] = 1.0 / static_cast<Scalar>(i);
-            limiter_max_[i] = POW(1.0 / safe_guard3_, expon_[i]);
-            limiter_min_[i] = POW(safe_guard3_, expon_[i]) / safe_guard4_;
-        }
+        set_limiter(safe_guard3_, safe_guard4_);
     }
 
 }  // namespace hub::ode
-- 
2.43.0


From 2cacdf630bec349a727bd08bc17958c303f49237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:31 +0000
Subject: [PATCH 41/42] fix: Bulirsch-Stoer for equations mixed odd and even
 numbers of midpoint steps, which cannot be extrapolated

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index 615d855..75a360b 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -409,6 +409,8 @@ namespace hub::ode {
     template <typename Integrator, typename ErrEstimator, typename StepController, size_t MaxIter>
     void BulirschStoer<Integrator, ErrEstimator, StepController, MaxIter>::integrate_by_n_steps(
         EvaluateFun func, StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps) {
+        // the error of the modified midpoint rule is a series in h^2 common to all step numbers of the same parity only
+        steps *= 2;
         data_out = input_;
         Scalar h = step_size / steps;
         StateScalarArray dxdt(input_.size());
-- 
2.43.0


From 1d739e19162654a5abb82f70c4b8943c5a46c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:56 +0000
Subject: [PATCH 42/42] fix: IAS15 ended the process when the corrector
 converged too slowly over a step

---
 src/ode-iterator/IAS15.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ode-iterator/IAS15.hpp b/src/ode-iterator/IAS15.hpp
index c5fb4dd..a276af2 100644
--- a/src/ode-iterator/IAS15.hpp
+++ b/src/ode-iterator/IAS15.hpp
@@ -68,6 +68,7 @@ namespace hub::ode {
         size_t PC_sweeps_{0};
         static constexpr size_t min_sweeps_{5};
         static constexpr size_t max_iter_{30};
+        static constexpr double slow_step_ratio{0.25};
         bool warmed_up{false};
 
         CREATE_STATIC_MEMBER_CHECK(regu_type);
@@ -90,6 +91,7 @@ namespace hub::ode {
     template <typename U>
     auto IAS15<Integrator, ErrEstimator, StepController>::iterate(U& particles, Scalar macro_step_size) -> Scalar {
         Scalar iter_h = macro_step_size;
+        size_t slow_steps = 0;
         for (size_t k = 0; k < max_iter_; ++k) {
             integrator_.correct(particles, iter_h);
             if (in_converged_window()) {
@@ -112,6 +114,14 @@ namespace hub::ode {
 
                     continue;
                 }
+            } else if (k + 1 == max_iter_ && ++slow_steps < max_iter_) {
+                // the sweeps converge too slowly over a step this large, redo it with a smaller one
+                if (warmed_up) {
+                    integrator_.predict(slow_step_ratio);
+                }
+                iter_h *= slow_step_ratio;
+                k = 0;
+                reset_PC_iteration();
             }
         }
         spacehub_abort("Exceed the max iteration number");
-- 
2.43.0

