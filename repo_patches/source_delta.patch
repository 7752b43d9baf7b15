From a848e30322c1bc37e6298e8e3e8e26a43039f9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 1/7] fix: correct the maximum extension of FRC chains with an
 odd number of links

The fully extended (zigzag) freely rotating chain has ceil(N/2) links along
one direction and floor(N/2) along the other; the former expression is that
of an even number of links only, so sampling any odd number of links (or two
links, through rounding alone) panicked.
---
 .../frc/thermodynamics/isometric/monte_carlo/mod.rs         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
index edf1dad..a403875 100644
--- a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
+++ b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
@@ -57,7 +57,9 @@ pub fn nondimensional_equilibrium_radial_distribution<const NUMBER_OF_BINS: usiz
 {
     let mut rng = rand::thread_rng();
     let number_of_links_f64 = NUMBER_OF_LINKS as f64;
-    let gamma_max = (2.0 - 2.0*(PI - theta).cos()).sqrt()/2.0;
+    let number_of_even_links = (NUMBER_OF_LINKS / 2) as f64;
+    let number_of_odd_links = number_of_links_f64 - number_of_even_links;
+    let gamma_max = (number_of_odd_links.powi(2) + number_of_even_links.powi(2) - 2.0*number_of_odd_links*number_of_even_links*(PI - theta).cos()).sqrt()/number_of_links_f64;
     let mut bin_edges = [0.0_f64; NUMBER_OF_BINS];
     bin_edges.iter_mut().enumerate().for_each(|(bin_index, bin_edge)|
         *bin_edge = gamma_max * (bin_index as f64 + 1.0)/(NUMBER_OF_BINS as f64)
@@ -68,7 +70,7 @@ pub fn nondimensional_equilibrium_radial_distribution<const NUMBER_OF_BINS: usiz
         gamma = random_nondimensional_end_to_end_length::<NUMBER_OF_LINKS>(theta, &mut rng)/number_of_links_f64;
         for (bin_edge, bin_count) in bin_edges.iter().zip(bin_counts.iter_mut())
         {
-            if gamma > gamma_max
+            if gamma > gamma_max + 1e-10
             {
                 panic!()
             }
-- 
2.43.0


From 79f2b88e920d6fe4494904f9e77c67f8e47f9f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 2/7] fix: count Monte Carlo samples at the maximum extension

A sample at (or, through rounding, just above) the last bin edge fell in no
bin and was silently lost, so the distributions were not normalized: one FJC
link kept 23% of its samples and a straight FRC chain kept none. NaN samples
were lost in the same way and are now reported like those out of range.
---
 .../thermodynamics/isometric/monte_carlo/mod.rs    | 14 ++++----------
 .../thermodynamics/isometric/monte_carlo/mod.rs    | 14 ++++----------
 .../thermodynamics/isometric/monte_carlo/mod.rs    | 10 ++--------
 .../thermodynamics/isometric/monte_carlo/mod.rs    | 14 ++++----------
 4 files changed, 14 insertions(+), 38 deletions(-)

diff --git a/src/physics/single_chain/efjc/thermodynamics/isometric/monte_carlo/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isometric/monte_carlo/mod.rs
index 5ef79ba..f4d0562 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isometric/monte_carlo/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isometric/monte_carlo/mod.rs
@@ -45,18 +45,12 @@ pub fn nondimensional_equilibrium_radial_distribution<const NUMBER_OF_BINS: usiz
     let mut gamma: f64 = 0.0;
     (0..number_of_samples).for_each(|_|{
         gamma = random_nondimensional_end_to_end_length::<NUMBER_OF_LINKS>(dist, &mut rng)/number_of_links_f64;
-        for (bin_edge, bin_count) in bin_edges.iter().zip(bin_counts.iter_mut())
+        if !(&gamma <= gamma_max)
         {
-            if &gamma > gamma_max
-            {
-                panic!()
-            }
-            if &gamma < bin_edge
-            {
-                *bin_count += 1;
-                break
-            }
+            panic!()
         }
+        let bin_index = bin_edges.iter().position(|bin_edge| &gamma < bin_edge).unwrap_or(NUMBER_OF_BINS - 1);
+        bin_counts[bin_index] += 1;
     });
     let normalization = gamma_max * (number_of_samples as f64)/(NUMBER_OF_BINS as f64);
     let mut bin_probabilities = [0.0_f64; NUMBER_OF_BINS];
diff --git a/src/physics/single_chain/efrc/thermodynamics/isometric/monte_carlo/mod.rs b/src/physics/single_chain/efrc/thermodynamics/isometric/monte_carlo/mod.rs
index ec9fd90..1b0a08e 100644
--- a/src/physics/single_chain/efrc/thermodynamics/isometric/monte_carlo/mod.rs
+++ b/src/physics/single_chain/efrc/thermodynamics/isometric/monte_carlo/mod.rs
@@ -69,18 +69,12 @@ pub fn nondimensional_equilibrium_radial_distribution<const NUMBER_OF_BINS: usiz
     let mut gamma: f64 = 0.0;
     (0..number_of_samples).for_each(|_|{
         gamma = random_nondimensional_end_to_end_length::<NUMBER_OF_LINKS>(theta, dist, &mut rng)/number_of_links_f64;
-        for (bin_edge, bin_count) in bin_edges.iter().zip(bin_counts.iter_mut())
+        if !(&gamma <= gamma_max)
         {
-            if &gamma > gamma_max
-            {
-                panic!()
-            }
-            if &gamma < bin_edge
-            {
-                *bin_count += 1;
-                break
-            }
+            panic!()
         }
+        let bin_index = bin_edges.iter().position(|bin_edge| &gamma < bin_edge).unwrap_or(NUMBER_OF_BINS - 1);
+        bin_counts[bin_index] += 1;
     });
     let normalization = gamma_max * (number_of_samples as f64)/(NUMBER_OF_BINS as f64);
     let mut bin_probabilities = [0.0_f64; NUMBER_OF_BINS];
diff --git a/src/physics/single_chain/fjc/thermodynamics/isometric/monte_carlo/mod.rs b/src/physics/single_chain/fjc/thermodynamics/isometric/monte_carlo/mod.rs
index 2baba63..200fba5 100644
--- a/src/physics/single_chain/fjc/thermodynamics/isometric/monte_carlo/mod.rs
+++ b/src/physics/single_chain/fjc/thermodynamics/isometric/monte_carlo/mod.rs
@@ -40,14 +40,8 @@ pub fn nondimensional_equilibrium_radial_distribution<const NUMBER_OF_BINS: usiz
     let mut bin_counts = [0_u128; NUMBER_OF_BINS];
     (0..number_of_samples).for_each(|_sample_num|{
         gamma = random_nondimensional_end_to_end_length::<NUMBER_OF_LINKS>(&mut rng)/number_of_links_f64;
-        for (bin_edge, bin_count) in bin_edges.iter().zip(bin_counts.iter_mut())
-        {
-            if &gamma < bin_edge
-            {
-                *bin_count += 1;
-                break
-            }
-        }
+        let bin_index = bin_edges.iter().position(|bin_edge| &gamma < bin_edge).unwrap_or(NUMBER_OF_BINS - 1);
+        bin_counts[bin_index] += 1;
     });
     let normalization = (number_of_samples as f64)/(NUMBER_OF_BINS as f64);
     let mut bin_probabilities = [0.0_f64; NUMBER_OF_BINS];
diff --git a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
index a403875..56ce42f 100644
--- a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
+++ b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
@@ -68,18 +68,12 @@ pub fn nondimensional_equilibrium_radial_distribution<const NUMBER_OF_BINS: usiz
     let mut gamma: f64 = 0.0;
     (0..number_of_samples).for_each(|_|{
         gamma = random_nondimensional_end_to_end_length::<NUMBER_OF_LINKS>(theta, &mut rng)/number_of_links_f64;
-        for (bin_edge, bin_count) in bin_edges.iter().zip(bin_counts.iter_mut())
+        if !(gamma <= gamma_max + 1e-10)
         {
-            if gamma > gamma_max + 1e-10
-            {
-                panic!()
-            }
-            if &gamma < bin_edge
-            {
-                *bin_count += 1;
-                break
-            }
+            panic!()
         }
+        let bin_index = bin_edges.iter().position(|bin_edge| &gamma < bin_edge).unwrap_or(NUMBER_OF_BINS - 1);
+        bin_counts[bin_index] += 1;
     });
     let normalization = gamma_max * (number_of_samples as f64)/(NUMBER_OF_BINS as f64);
     let mut bin_probabilities = [0.0_f64; NUMBER_OF_BINS];
-- 
2.43.0


From 88eed456c866fbd04d6e8115ca3124419c572fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 3/7] fix: FRC configurations when the auxiliary vector is
 parallel to a link

The cross product of the last link and the randomly drawn auxiliary vector
was normalized even if (nearly) zero, which made the rest of the
configuration NaN or inaccurate. Any perpendicular vector will do, as the
torsion angle is drawn independently.
---
 .../thermodynamics/isometric/monte_carlo/mod.rs |  7 ++++++-
 .../thermodynamics/isometric/monte_carlo/mod.rs | 17 +++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/physics/single_chain/efrc/thermodynamics/isometric/monte_carlo/mod.rs b/src/physics/single_chain/efrc/thermodynamics/isometric/monte_carlo/mod.rs
index 1b0a08e..b01c2f9 100644
--- a/src/physics/single_chain/efrc/thermodynamics/isometric/monte_carlo/mod.rs
+++ b/src/physics/single_chain/efrc/thermodynamics/isometric/monte_carlo/mod.rs
@@ -6,7 +6,7 @@ use rand_distr::{Normal, Distribution};
 
 use std::f64::consts::TAU as TWO_PI;
 
-use crate::physics::single_chain::frc::thermodynamics::isometric::monte_carlo::cross;
+use crate::physics::single_chain::frc::thermodynamics::isometric::monte_carlo::{cross, perpendicular};
 
 pub fn random_configuration<const NUMBER_OF_LINKS: usize>(theta: &f64, dist: Normal<f64>, rng: &mut ThreadRng) -> [[f64; 3]; NUMBER_OF_LINKS]
 {
@@ -36,6 +36,11 @@ pub fn random_configuration<const NUMBER_OF_LINKS: usize>(theta: &f64, dist: Nor
         t = std::array::from_fn(|_| rng.gen::<f64>());
         u = cross(&r_n, &t);
         u_normalization = u.iter().map(|u_i| u_i * u_i).sum::<f64>().sqrt();
+        if u_normalization < 1e-3
+        {
+            u = perpendicular(&r_n);
+            u_normalization = u.iter().map(|u_i| u_i * u_i).sum::<f64>().sqrt();
+        }
         u.iter_mut().for_each(|u_i| *u_i /= u_normalization);
         v = cross(&r_n, &u);
         r.iter_mut().zip(r_n.iter().zip(u.iter().zip(v.iter()))).for_each(|(r_i, (r_n_i, (u_i, v_i)))|
diff --git a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
index 56ce42f..95fad89 100644
--- a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
+++ b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
@@ -12,6 +12,18 @@ pub fn cross(u: &[f64; 3], v: &[f64; 3]) -> [f64; 3]
      u[0] * v[1] - u[1] * v[0]]
 }
 
+pub(crate) fn perpendicular(u: &[f64; 3]) -> [f64; 3]
+{
+    if u[0].abs() < 0.6
+    {
+        cross(u, &[1.0, 0.0, 0.0])
+    }
+    else
+    {
+        cross(u, &[0.0, 1.0, 0.0])
+    }
+}
+
 pub fn random_configuration<const NUMBER_OF_LINKS: usize>(theta: &f64, rng: &mut ThreadRng) -> [[f64; 3]; NUMBER_OF_LINKS]
 {
     let mut phi: f64 = 0.0;
@@ -33,6 +45,11 @@ pub fn random_configuration<const NUMBER_OF_LINKS: usize>(theta: &f64, rng: &mut
         t = std::array::from_fn(|_| rng.gen::<f64>());
         u = cross(&r, &t);
         u_normalization = u.iter().map(|u_i| u_i * u_i).sum::<f64>().sqrt();
+        if u_normalization < 1e-3
+        {
+            u = perpendicular(&r);
+            u_normalization = u.iter().map(|u_i| u_i * u_i).sum::<f64>().sqrt();
+        }
         u.iter_mut().for_each(|u_i| *u_i /= u_normalization);
         v = cross(&r, &u);
         r.iter_mut().zip(u.iter().zip(v.iter())).for_each(|(r_i, (u_i, v_i))|
-- 
2.43.0


From 34b606a9b6c71e6e8e6d6ac34024ebacdc2edd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 4/7] fix: chains broken in the initial configuration do not
 heal under loading

A chain is intact if it was never extended past the critical extension, which
in uniaxial tension is largest either initially or at the maximum stretch.
Only the latter was checked, so chains already past the critical extension
initially (which the normalization rightly excludes) counted as intact again
once the deformation had shortened them, and the probability of intact chains
recovered upon reloading (e.g. 0.66 to 0.90 for a critical extension of 0.2).
---
 src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs b/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
index 89682db..99b2c8d 100644
--- a/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
+++ b/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
@@ -95,6 +95,7 @@ pub fn uniaxial_tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64],
                     ).exp() * ((
                         ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                         <= *nondimensional_critical_extension
+                        && ((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt() <= *nondimensional_critical_extension
                     ) as u8 as f64)
                 )
             ).sum::<f64>() / normalization;
@@ -105,6 +106,7 @@ pub fn uniaxial_tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64],
                     ).exp() * ((
                         ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                         <= *nondimensional_critical_extension
+                        && ((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt() <= *nondimensional_critical_extension
                     ) as u8 as f64)
                 )
             ).sum::<f64>() / normalization * 4.0 * PI * ((grid[1] - grid[0]) / swelling_ratio).powi(2);
@@ -115,6 +117,7 @@ pub fn uniaxial_tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64],
                     element_ij / (factor * ((*z_i / stretch).powi(2) + stretch * r_j.powi(2)) / j_1_3.powi(2)).exp() * ((
                         ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                         <= *nondimensional_critical_extension
+                        && ((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt() <= *nondimensional_critical_extension
                     ) as u8 as f64)
                 )
             ).sum::<f64>() / normalization;
@@ -123,6 +126,7 @@ pub fn uniaxial_tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64],
                     r_j / (factor * ((*z_i / stretch).powi(2) + stretch * r_j.powi(2)) / j_1_3.powi(2)).exp() * ((
                         ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                         <= *nondimensional_critical_extension
+                        && ((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt() <= *nondimensional_critical_extension
                     ) as u8 as f64)
                 )
             ).sum::<f64>() / normalization * 4.0 * PI * ((grid[1] - grid[0]) / swelling_ratio).powi(2);
-- 
2.43.0


From 889dc26580e9fa3ccc6b4b2e16c06127f8fe53f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 5/7] fix: NaN force of extensible chains at and just below
 full contour length

The root finder was started from zero force at an extension of exactly one,
and from inverse_langevin evaluated (nearly) at one just below it, so the
force was NaN; the Buche-Silberstein models then return a NaN stress whenever
one of their grid points falls there, e.g. for a critical extension of 0.8 or
1.0. Starting at or below the root always converges.
---
 .../isometric/asymptotic/alternative/legendre/mod.rs          | 4 ++--
 .../efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs  | 4 ++--
 .../isometric/asymptotic/reduced/legendre/mod.rs              | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs
index d9a3cb8..e0e1896 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs
@@ -44,13 +44,13 @@ pub fn force(number_of_links: &u8, link_length: &f64, link_stiffness: &f64, end_
 /// The expected nondimensional force as a function of the applied nondimensional end-to-end length per link, parameterized by the nondimensional link stiffness.
 pub fn nondimensional_force(nondimensional_link_stiffness: &f64, nondimensional_end_to_end_length_per_link: &f64) -> f64
 {
-    let guess: f64 = if nondimensional_end_to_end_length_per_link < &1.0
+    let guess: f64 = if nondimensional_end_to_end_length_per_link < &0.999
     {
         inverse_langevin(nondimensional_end_to_end_length_per_link)
     }
     else
     {
-        nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)
+        (nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)).max(1.0)
     };
     inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &|nondimensional_force: &f64| 1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + (nondimensional_force + 1.0/nondimensional_force.tanh() - nondimensional_force/nondimensional_force.sinh().powi(2))/nondimensional_link_stiffness, &|nondimensional_force: &f64| 1.0/nondimensional_force.powi(2) - 1.0/nondimensional_force.sinh().powi(2) + (1.0 + 2.0*(nondimensional_force/nondimensional_force.tanh() - 1.0)/nondimensional_force.sinh().powi(2))/nondimensional_link_stiffness, &guess, &1e-6, &100)
 }
diff --git a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs
index 364f853..61feffc 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs
@@ -44,13 +44,13 @@ pub fn force(number_of_links: &u8, link_length: &f64, link_stiffness: &f64, end_
 /// The expected nondimensional force as a function of the applied nondimensional end-to-end length per link, parameterized by the nondimensional link stiffness.
 pub fn nondimensional_force(nondimensional_link_stiffness: &f64, nondimensional_end_to_end_length_per_link: &f64) -> f64
 {
-    let guess: f64 = if nondimensional_end_to_end_length_per_link < &1.0
+    let guess: f64 = if nondimensional_end_to_end_length_per_link < &0.999
     {
         inverse_langevin(nondimensional_end_to_end_length_per_link)
     }
     else
     {
-        nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)
+        (nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)).max(1.0)
     };
     inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &|nondimensional_force: &f64| 1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/nondimensional_link_stiffness)), &|nondimensional_force: &f64| 1.0/nondimensional_force.powi(2) - 1.0/nondimensional_force.sinh().powi(2) + (nondimensional_link_stiffness*nondimensional_force.powi(2)/nondimensional_force.sinh().powi(4) - (2.0*nondimensional_link_stiffness + 1.0)*(nondimensional_link_stiffness - nondimensional_force.powi(2))/nondimensional_force.sinh().powi(2) + 2.0*nondimensional_link_stiffness*nondimensional_force/nondimensional_force.tanh()*(nondimensional_link_stiffness/nondimensional_force.sinh().powi(2) + 1.0) + (nondimensional_link_stiffness - 1.0)*nondimensional_link_stiffness + nondimensional_force.powi(2))/(nondimensional_link_stiffness + nondimensional_force/nondimensional_force.tanh()).powi(2)/nondimensional_link_stiffness, &guess, &1e-6, &100)
 }
diff --git a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs
index a10fb29..5a0777c 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs
@@ -44,13 +44,13 @@ pub fn force(number_of_links: &u8, link_length: &f64, link_stiffness: &f64, end_
 /// The expected nondimensional force as a function of the applied nondimensional end-to-end length per link, parameterized by the nondimensional link stiffness.
 pub fn nondimensional_force(nondimensional_link_stiffness: &f64, nondimensional_end_to_end_length_per_link: &f64) -> f64
 {
-    let guess: f64 = if nondimensional_end_to_end_length_per_link < &1.0
+    let guess: f64 = if nondimensional_end_to_end_length_per_link < &0.999
     {
         inverse_langevin(nondimensional_end_to_end_length_per_link)
     }
     else
     {
-        nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)
+        (nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)).max(1.0)
     };
     inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &|nondimensional_force: &f64| 1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness, &|nondimensional_force: &f64| 1.0/nondimensional_force.powi(2) - 1.0/nondimensional_force.sinh().powi(2) + 1.0/nondimensional_link_stiffness, &guess, &1e-6, &100)
 }
-- 
2.43.0


From 419d6ee9e282a99f099a2f7df5f2cca40596c874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:45 +0000
Subject: [PATCH 6/7] fix: EFRC configurations after a link of zero length

---
 .../efrc/thermodynamics/isometric/monte_carlo/mod.rs     | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/physics/single_chain/efrc/thermodynamics/isometric/monte_carlo/mod.rs b/src/physics/single_chain/efrc/thermodynamics/isometric/monte_carlo/mod.rs
index b01c2f9..bf0dd7e 100644
--- a/src/physics/single_chain/efrc/thermodynamics/isometric/monte_carlo/mod.rs
+++ b/src/physics/single_chain/efrc/thermodynamics/isometric/monte_carlo/mod.rs
@@ -27,9 +27,12 @@ pub fn random_configuration<const NUMBER_OF_LINKS: usize>(theta: &f64, dist: Nor
     let mut r_normalization = 0.0;
     configuration.iter_mut().for_each(|coordinate|{
         lambda = dist.sample(rng);
-        r_n = r;
-        r_normalization = r_n.iter().map(|r_n_i| r_n_i * r_n_i).sum::<f64>().sqrt();
-        r_n.iter_mut().for_each(|r_n_i| *r_n_i /= r_normalization);
+        r_normalization = r.iter().map(|r_i| r_i * r_i).sum::<f64>().sqrt();
+        if r_normalization > 0.0
+        {
+            r_n = r;
+            r_n.iter_mut().for_each(|r_n_i| *r_n_i /= r_normalization);
+        }
         phi = TWO_PI * rng.gen::<f64>();
         phi_cos = phi.cos();
         phi_sin = phi.sin();
-- 
2.43.0


From 38e33760c531f9b6209a3b6b2d5672488ee0c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:06 +0000
Subject: [PATCH 7/7] fix: maximum extension of FRC chains with a link angle
 near pi

---
 .../frc/thermodynamics/isometric/monte_carlo/mod.rs            | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
index 95fad89..20685ea 100644
--- a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
+++ b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
@@ -2,7 +2,6 @@ mod test;
 
 use rand::prelude::*;
 
-use std::f64::consts::PI;
 use std::f64::consts::TAU as TWO_PI;
 
 pub fn cross(u: &[f64; 3], v: &[f64; 3]) -> [f64; 3]
@@ -76,7 +75,7 @@ pub fn nondimensional_equilibrium_radial_distribution<const NUMBER_OF_BINS: usiz
     let number_of_links_f64 = NUMBER_OF_LINKS as f64;
     let number_of_even_links = (NUMBER_OF_LINKS / 2) as f64;
     let number_of_odd_links = number_of_links_f64 - number_of_even_links;
-    let gamma_max = (number_of_odd_links.powi(2) + number_of_even_links.powi(2) - 2.0*number_of_odd_links*number_of_even_links*(PI - theta).cos()).sqrt()/number_of_links_f64;
+    let gamma_max = ((number_of_odd_links - number_of_even_links).powi(2) + 4.0*number_of_odd_links*number_of_even_links*(theta/2.0).cos().powi(2)).sqrt()/number_of_links_f64;
     let mut bin_edges = [0.0_f64; NUMBER_OF_BINS];
     bin_edges.iter_mut().enumerate().for_each(|(bin_index, bin_edge)|
         *bin_edge = gamma_max * (bin_index as f64 + 1.0)/(NUMBER_OF_BINS as f64)
-- 
2.43.0

