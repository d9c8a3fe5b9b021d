From 15854fdca11cc6fce93d1973501340ca34cd2d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 01/33] fix: particles imports integrators that do not exist,
 so the package cannot be imported

---
 particles/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 75db7ed..28a10a8 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -12,8 +12,8 @@ import os
 import environment
 from common import GRID, UNITS, kinematics, statistics as STATISTICS
 from common.integrators import (
-    adams_bashforth_correction, adams_moulton_solver, implicit_euler, backward_differentiation, heun_method,
-    MAX_ADAMS_BASHFORTH_ORDER, MAX_ADAMS_MOULTON_ORDER, MAX_BACKWARD_DIFF_ORDER
+    adams_bashforth_correction, adams_moulton_solver, implicit_euler,
+    MAX_ADAMS_BASHFORTH_ORDER, MAX_ADAMS_MOULTON_ORDER
 )
 from common.utils import Dynamic2DArray, DynamicRecArray
 from scipy.integrate import simps
-- 
2.43.0


From 373365721a9e3684bc37bf3c9db101c7de63d692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 02/33] fix: first-order Adams-Moulton step fails when a
 derivative history is passed

---
 common/integrators/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/integrators/__init__.py b/common/integrators/__init__.py
index 1860899..78c1fe4 100644
--- a/common/integrators/__init__.py
+++ b/common/integrators/__init__.py
@@ -104,7 +104,7 @@ def adams_moulton_solver(y, fs, A, B, h, order=None):
         order = min(MAX_ADAMS_MOULTON_ORDER, len(fs) + 1)
 
     bs, divider = ADAMS_MOULTON_COEFFICIENTS[order]
-    fs = fs[-(order-1):] + [A]
+    fs = (fs[-(order-1):] if order > 1 else []) + [A]
     assert len(fs) == order, (len(fs), order)
 
     return (
-- 
2.43.0


From 6e3e1e5a2f1f118f45d9f28a7bb46e8bea1ae5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 03/33] fix: collision integral was set to the predicted
 distribution instead of its rate of change

---
 particles/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 28a10a8..13f39af 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -320,8 +320,11 @@ class DistributionParticle(AbstractParticle):
             # Adams-Moulton method
             fs = list(self.data['collision_integral'][-MAX_ADAMS_MOULTON_ORDER:])
 
-            I_coll = adams_moulton_solver(y=self.distribution(ps), fs=fs,
-                                            A=AB, B=B, h=self.params.h)
+            # The solver predicts the new distribution for $f' = A + B f$, while the collision
+            # integral is its rate of change
+            y = self.distribution(ps)
+            prediction = adams_moulton_solver(y=y, fs=fs, A=AB - B * y, B=B, h=self.params.h)
+            I_coll = (prediction - y) / self.params.h
 
             # # Backward differentiation method
             # ys = list(self.data['distribution'][-MAX_BACKWARD_DIFF_ORDER:])
-- 
2.43.0


From 72d808970ed7844bdf7869f167804d00a65ad7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 04/33] fix: DynamicRecArray row access returned rows that were
 never recorded

---
 common/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/common/utils.py b/common/utils.py
index 2d602ab..07e032b 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -247,10 +247,7 @@ class DynamicRecArray(object):
     def __getitem__(self, index):
         if index in self.columns:
             return self._data[index][:self.length]
-        index = int(index)
-        if index < 0:
-            index = self.length+1-index
-        return self._data[:][index]
+        return self.data[int(index)]
 
     def append(self, rec):
         if isinstance(rec, dict):
-- 
2.43.0


From 4235c1a6e6eb9a7b07e44f97aecb1e600f0b7804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 05/33] fix: printoptions did not restore the print options
 after an exception

---
 common/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/utils.py b/common/utils.py
index 07e032b..83fc9a7 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -95,8 +95,10 @@ class benchmark(object):
 def printoptions(*args, **kwargs):
     original = numpy.get_printoptions()
     numpy.set_printoptions(*args, **kwargs)
-    yield
-    numpy.set_printoptions(**original)
+    try:
+        yield
+    finally:
+        numpy.set_printoptions(**original)
 
 
 def getenv(var, default=None):
-- 
2.43.0


From ba75120c416cd04dcdfab6d344a1888a9a1a174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 06/33] fix: fast decay collision integral failed while
 classifying its reactions

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index eb87f66..2eb3f37 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -411,7 +411,7 @@ def Icoll_fast_decay(particle, ps):
 
     for index, Ff in enumerate(Ffs_temp):
         integral = particle.collision_integrals[index]
-        if utils.reaction_type(integral.reaction).DECAY: # line not necessary
+        if utils.reaction_type(integral).DECAY: # line not necessary
             sym = ''.join([item.specie.symbol for item in integral.reaction[1:]])
             for key in integral.reaction[0].specie.BR:
                 if Counter(sym) == Counter(key):
-- 
2.43.0


From 7e08a8f1c8951dc8b242ceaaca715fc8cfb9c894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 07/33] fix: coarse four-particle grid needs an integer number
 of points

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 2eb3f37..de16299 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -353,7 +353,7 @@ def interpolation_4p(interaction, ps, slice_1):
     grid = interaction.particle.grid
     if grid.MAX_MOMENTUM / (grid.MOMENTUM_SAMPLES - 1) < environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV:
         steps = np.ceil(slice_1[-1] / (environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV))
-        interp_pos = np.searchsorted(ps, np.linspace(ps[0], ps[-1], steps))
+        interp_pos = np.searchsorted(ps, np.linspace(ps[0], ps[-1], int(steps)))
         ps = ps[interp_pos]
         interpolate = True
     return ps, interpolate
-- 
2.43.0


From 6f015f4a73fcf297394d076efdb866bdd14cd2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 08/33] fix: number of degrees of freedom above the QCD scale
 was overwritten

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index de16299..4655dd8 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -159,7 +159,7 @@ def decoupling_temperature_relativistic(mass, mixing_angle):
 
     if mass > CONST.lambda_QCD:
         g_star = 61.75
-    if muon_mass < mass < CONST.lambda_QCD:
+    elif muon_mass < mass < CONST.lambda_QCD:
         g_star = 14.25
     else:
         g_star = 10.75
-- 
2.43.0


From 11dde5daf58da9f835cd80713811e91629e6b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 09/33] fix: truth value of the rescaled collision integral
 array is ambiguous

---
 interactions/four_particle/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions/four_particle/__init__.py b/interactions/four_particle/__init__.py
index 186f4ef..31734da 100755
--- a/interactions/four_particle/__init__.py
+++ b/interactions/four_particle/__init__.py
@@ -188,7 +188,7 @@ class FourParticleIntegral(BoltzmannIntegral):
         fullstack = numpy.append(fullstack, slice_2)
 
         scaled_output = kinematics.scaling(self, fullstack, constant)
-        if not scaled_output:
+        if scaled_output is False:
             return kinematics.return_function(self, fullstack)
         else:
             fullstack = scaled_output
-- 
2.43.0


From 2bcb85eb18e0170bf98775c1c5a8cedee3221790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 10/33] fix: linear and cubic interpolation used the grid cell
 above the one containing x

---
 common/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/__init__.py b/common/__init__.py
index cff3255..71ee59f 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -308,7 +308,8 @@ def linear_interpolation(function, grid):
     """ ### Linear interpolation """
 
     def interpolation(x):
-        index = numpy.searchsorted(grid, x)
+        # The grid point preceding `x`
+        index = max(numpy.searchsorted(grid, x, side='right') - 1, 0)
 
         if index >= len(grid) - 1:
             return function[len(grid) - 1]
@@ -334,7 +335,8 @@ def cubic_interpolation(function, grid):
     """ # Cubic interpolation """
 
     def interpolation(x):
-        index = numpy.searchsorted(grid, x)
+        # The grid point preceding `x`
+        index = max(numpy.searchsorted(grid, x, side='right') - 1, 0)
 
         if index >= len(grid) - 1:
             return function[len(grid) - 1]
-- 
2.43.0


From 2ef71e84ca0649781718d55045d152816624d0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 11/33] fix: binary_find returned arrays of indices for momenta
 that are on the grid

---
 common/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/__init__.py b/common/__init__.py
index 71ee59f..8febb3b 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -386,11 +386,11 @@ def binary_find(grid, x):
     if temp[0] > x:
         return -1, head
 
-    if x in temp:
-        pos = numpy.where(temp == x)
+    pos = numpy.searchsorted(temp, x, side='right') - 1
+    if temp[pos] == x:
         return pos, pos
 
-    return numpy.searchsorted(temp, x, side='right') - 1, numpy.searchsorted(temp, x, side='right')
+    return pos, pos + 1
 
 
 def interp(particle, p, conformal_mass):
-- 
2.43.0


From 166c9acb88ce5239ffbb481c00cd8607ab12cff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 12/33] fix: metre was converted with h c instead of hbar c

---
 common/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/__init__.py b/common/__init__.py
index 8febb3b..82f2bbb 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -28,7 +28,7 @@ class UNITS(object):
         UNITS.TeV = UNITS.GeV * 1e3
         UNITS.s = 1e22 / 6.582119 / UNITS.MeV
         UNITS.kg = 1e27 / 1.782662 * UNITS.GeV
-        UNITS.m = 1e15 / 1.239842 / UNITS.GeV
+        UNITS.m = 1e15 / 0.1973270 / UNITS.GeV
         UNITS.N = 1e-5 / 8.19 * UNITS.GeV**2
 
         # Temperature: $10^9 K$
-- 
2.43.0


From e4a7cf3c3d07e2d294b6b5a73fa7a5805ffc00f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 13/33] fix: every Universe shared (and appended to) the same
 evolution history

---
 evolution.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/evolution.py b/evolution.py
index c0506af..7df2126 100755
--- a/evolution.py
+++ b/evolution.py
@@ -33,17 +33,7 @@ class Universe(object):
 
     step_monitor = None
 
-    data = utils.DynamicRecArray([
-        ['aT', 'MeV', UNITS.MeV],
-        ['T', 'MeV', UNITS.MeV],
-        ['a', None, 1],
-        ['x', 'MeV', UNITS.MeV],
-        ['t', 's', UNITS.s],
-        ['rho', 'MeV^4', UNITS.MeV**4],
-        ['N_eff', None, 1],
-        ['fraction', None, 1],
-        ['S', 'MeV^3', UNITS.MeV**3]
-    ])
+    data = None
 
     def __init__(self, folder=None, params=None, max_log_rate=2):
         """
@@ -53,6 +43,18 @@ class Universe(object):
         self.particles = []
         self.interactions = []
 
+        self.data = utils.DynamicRecArray([
+            ['aT', 'MeV', UNITS.MeV],
+            ['T', 'MeV', UNITS.MeV],
+            ['a', None, 1],
+            ['x', 'MeV', UNITS.MeV],
+            ['t', 's', UNITS.s],
+            ['rho', 'MeV^4', UNITS.MeV**4],
+            ['N_eff', None, 1],
+            ['fraction', None, 1],
+            ['S', 'MeV^3', UNITS.MeV**3]
+        ])
+
         self.clock_start = time.time()
         self.log_throttler = utils.Throttler(max_log_rate)
 
-- 
2.43.0


From 0a462618c7f383d0ebff64a471f1ff505bbec6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 14/33] fix: semianalytic step monitor failed reading the weak
 rates

---
 semianalytic.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/semianalytic.py b/semianalytic.py
index 640e4c1..9204119 100644
--- a/semianalytic.py
+++ b/semianalytic.py
@@ -8,10 +8,7 @@ def step_monitor(universe):
     from copy import deepcopy
 
     if not hasattr(universe, 'neutron_decoupling_parameters') and len(universe.kawano_data):
-        print([field[0] for field in universe.kawano_data.data.dtype[-6:]])
-        rates = universe.kawano_data.data[-1][
-            [field[0] for field in universe.kawano_data.data.dtype[-6:]]
-        ]
+        rates = list(universe.kawano_data.data[-1])[-6:]
         neutron_equilibration = (sum(rates[0::2]) / sum(rates[1::2]))
         if neutron_equilibration > 10 or neutron_equilibration < 0.1:
             universe.neutron_decoupling_parameters = deepcopy(universe.params)
-- 
2.43.0


From af8e942055ad907f6d266ebe0beadae351943a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 15/33] fix: charged vector meson channel used the mixing angle
 of an unrelated flavour

---
 library/NuMSM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/NuMSM.py b/library/NuMSM.py
index d124624..9fde38b 100755
--- a/library/NuMSM.py
+++ b/library/NuMSM.py
@@ -322,7 +322,7 @@ class interactions(object):
                                                                kind=kind)
 
                         if particle.type == "vector":
-                            inters += cls.charged_vector_meson(theta=thetas[neutrino.flavour],
+                            inters += cls.charged_vector_meson(theta=thetas[lepton.flavour],
                                                                sterile=sterile,
                                                                lepton=lepton,
                                                                meson=particle,
-- 
2.43.0


From 0f9098fe39e61ab7cb7ce5a06a1709709ba38d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:15 +0000
Subject: [PATCH 16/33] fix: constant matrix elements were lost when matrix
 elements are combined

---
 interactions/four_particle/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interactions/four_particle/__init__.py b/interactions/four_particle/__init__.py
index 31734da..9992094 100755
--- a/interactions/four_particle/__init__.py
+++ b/interactions/four_particle/__init__.py
@@ -42,16 +42,19 @@ class FourParticleM(object):
     def __iadd__(self, M):
         self.K1 += M.K1
         self.K2 += M.K2
+        self.K += M.K
         return self
 
     def __idiv__(self, div):
         self.K1 /= div
         self.K2 /= div
+        self.K /= div
         return self
 
     def __imul__(self, mul):
         self.K1 *= mul
         self.K2 *= mul
+        self.K *= mul
         return self
 
     def __setattr__(self, name, value):
-- 
2.43.0


From 5498db23984b0f1fb67447877ca501a82dc887f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:28 +0000
Subject: [PATCH 17/33] fix: switches could not be turned off with an
 environment variable such as False or 0

---
 environment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/environment.py b/environment.py
index 730d871..c3451d0 100755
--- a/environment.py
+++ b/environment.py
@@ -61,7 +61,10 @@ def get(name):
     default = defaults.get(name)
     val = os.environ.get(name, default)
 
-    if default:
+    if isinstance(default, bool):
+        if isinstance(val, str):
+            val = val.lower() not in ['', 'false', 'f', '0', '-1']
+    elif default:
         typ = type(default)
         val = typ(val)
 
-- 
2.43.0


From b399a209b55dc7e26aa3f59403b369f6c6ed8f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:48 +0000
Subject: [PATCH 18/33] fix: K2 terms of the zero-momentum collision kernel did
 not vanish for a massless particle

---
 interactions/four_particle/cpp/Ds.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interactions/four_particle/cpp/Ds.cpp b/interactions/four_particle/cpp/Ds.cpp
index 8b521e1..a260ddf 100644
--- a/interactions/four_particle/cpp/Ds.cpp
+++ b/interactions/four_particle/cpp/Ds.cpp
@@ -278,7 +278,10 @@ dbl Db(const std::array<dbl, 4> &p, const std::array<dbl, 4> &E, const std::arra
         dbl subresult = 0.;
 
         if (i * j == 0.) {
-            subresult += m[i+j] * (E[k] * E[l] * Db1(p[1], p[2], p[3]) + sksl * Db2(p[i+j], p[k], p[l]));
+            // m_0 / E_0 is 1 at zero momentum, unless the particle is massless
+            if (m[0] != 0.) {
+                subresult += m[i+j] * (E[k] * E[l] * Db1(p[1], p[2], p[3]) + sksl * Db2(p[i+j], p[k], p[l]));
+            }
         }
         else if (k * l == 0.) {
             subresult += m[i] * m[j] * E[k+l] * Db1(p[1], p[2], p[3]);
-- 
2.43.0


From 42bdedc3e7686507ed0989e930fa821f24dbbdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:37 +0000
Subject: [PATCH 19/33] fix: integration range of one momentum leaked into the
 collision rates of the following ones

---
 interactions/four_particle/cpp/integral.cpp | 24 ++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/interactions/four_particle/cpp/integral.cpp b/interactions/four_particle/cpp/integral.cpp
index 8390b80..02c83d3 100644
--- a/interactions/four_particle/cpp/integral.cpp
+++ b/interactions/four_particle/cpp/integral.cpp
@@ -618,8 +618,11 @@ std::vector<dbl> integration(
     for (size_t i = 0; i < ps.size(); ++i) {
         dbl p0 = ps[i];
 
+        // The bounds of one momentum must not affect the following ones
+        dbl lower_1 = min_1, upper_1 = max_1;
+
         if (reaction_type == Kinematics::DECAY) {
-            max_1 = sqrt(
+            upper_1 = sqrt(
                 pow(energy(p0, reaction[0].specie.m) - reaction[2].specie.m - reaction[3].specie.m, 2)
                 - pow(reaction[1].specie.m, 2)
             );
@@ -628,16 +631,13 @@ std::vector<dbl> integration(
             dbl min = reaction[2].specie.m + reaction[3].specie.m - energy(p0, reaction[0].specie.m);
             dbl min2 = pow(min, 2) - pow(reaction[1].specie.m, 2);
             if (min <= 0 || min2 <= 0) {
-                min_1 = 0.;
+                lower_1 = 0.;
             }
             else {
-                min_1 = sqrt(min2);
-            }
-            if (max_1 > 3. * min_1) {
-                max_1 = max_1;
+                lower_1 = sqrt(min2);
             }
-            else {
-                max_1 = 3. * min_1;
+            if (upper_1 <= 3. * lower_1) {
+                upper_1 = 3. * lower_1;
             }
         }
         if (reaction_type == Kinematics::CREATION) {
@@ -648,9 +648,9 @@ std::vector<dbl> integration(
                 continue;
             }
             else {
-                max_1 = sqrt(max2);
+                upper_1 = sqrt(max2);
             }
-            min_1 = 0.;
+            lower_1 = 0.;
         }
 
         dbl result(0.), error(0.);
@@ -676,7 +676,7 @@ std::vector<dbl> integration(
         struct integration_params params = {
             p0, 0., 0.,
             &reaction, &Ms,
-            min_1, max_1, min_2, max_2, max_3,
+            lower_1, upper_1, min_2, max_2, max_3,
             kind, releps, abseps,
             subdivisions, w2
         };
@@ -684,7 +684,7 @@ std::vector<dbl> integration(
 
         gsl_set_error_handler_off();
 
-        status = gsl_integration_qag(&F, min_1, max_1, abseps, releps, subdivisions, GSL_INTEG_GAUSS15, w1, &result, &error);
+        status = gsl_integration_qag(&F, lower_1, upper_1, abseps, releps, subdivisions, GSL_INTEG_GAUSS15, w1, &result, &error);
         if (status) {
             printf("2nd integration_1 result: %e ± %e. %i intervals. %s\n", result, error, (int) w1->size, gsl_strerror(status));
             throw std::runtime_error("Integrator failed to reach required accuracy");
-- 
2.43.0


From cd3056e9d497bbcb09c5a70b7dd49386e825dad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:14 +0000
Subject: [PATCH 20/33] fix: decays of kaons and omega mesons did not conserve
 electric charge, so their pions were never created

The second product of a four-particle decay is declared on the side of the decaying meson, where its charge has to be the opposite one.
---
 library/SM.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/SM.py b/library/SM.py
index 8c60e28..73e7b3b 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -777,7 +777,7 @@ class interactions(object):
                                                     ME=matrix_elements['KaonMinPi0ElecNue'],
                                                     kind=kind)
             inters += cls.four_particle_meson_decay(parts=[charged_kaon, charged_pion, charged_pion, charged_pion],
-                                                    antiparts=[False, True, False, False],
+                                                    antiparts=[False, False, False, False],
                                                     ME=matrix_elements['KaonMinPiPlusTwoPiMin'],
                                                     kind=kind)
             inters += cls.three_particle_meson_decay(parts=[charged_kaon, muon, neutrino_mu],
@@ -802,11 +802,11 @@ class interactions(object):
                                                 kind=kind)
 
             inters += cls.four_particle_meson_decay(parts=[kaon_long, charged_pion, electron, neutrino_e],
-                                                    antiparts=[False, True, False, True],
+                                                    antiparts=[False, False, False, True],
                                                     ME=matrix_elements['KaonLPiPlusElecNue'],
                                                     kind=kind)
             inters += cls.four_particle_meson_decay(parts=[kaon_long, charged_pion, muon, neutrino_mu],
-                                                    antiparts=[False, True, False, True],
+                                                    antiparts=[False, False, False, True],
                                                     ME=matrix_elements['KaonLPiPlusMuonNumu'],
                                                     kind=kind)
             inters += cls.four_particle_meson_decay(parts=[kaon_long, neutral_pion, neutral_pion, neutral_pion],
@@ -887,7 +887,7 @@ class interactions(object):
                 neutral_pion_decay(inters)
 
             inters += cls.four_particle_meson_decay(parts=[omega, charged_pion, charged_pion, neutral_pion],
-                                                    antiparts=[False, True, False, False],
+                                                    antiparts=[False, False, False, False],
                                                     ME=matrix_elements['OmegaPiPlusPiMinPi0'],
                                                     kind=kind)
             inters += cls.three_particle_meson_decay(parts=[omega, neutral_pion, photon],
-- 
2.43.0


From e5e794118b8f2e067a2131711923f0beecc1976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:49 +0000
Subject: [PATCH 21/33] fix: only one charge of kaons and rho mesons decayed,
 so that half of their decay products were never created

---
 library/SM.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/library/SM.py b/library/SM.py
index 73e7b3b..4b9b8d8 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -772,22 +772,24 @@ class interactions(object):
                                                 neutrinos=neutrinos,
                                                 kind=kind)
 
-            inters += cls.four_particle_meson_decay(parts=[charged_kaon, neutral_pion, electron, neutrino_e],
-                                                    antiparts=[False, False, False, True],
-                                                    ME=matrix_elements['KaonMinPi0ElecNue'],
-                                                    kind=kind)
+            for anti in [False, True]:
+                inters += cls.four_particle_meson_decay(parts=[charged_kaon, neutral_pion, electron, neutrino_e],
+                                                        antiparts=[anti, False, anti, not anti],
+                                                        ME=matrix_elements['KaonMinPi0ElecNue'],
+                                                        kind=kind)
             inters += cls.four_particle_meson_decay(parts=[charged_kaon, charged_pion, charged_pion, charged_pion],
                                                     antiparts=[False, False, False, False],
                                                     ME=matrix_elements['KaonMinPiPlusTwoPiMin'],
                                                     kind=kind)
-            inters += cls.three_particle_meson_decay(parts=[charged_kaon, muon, neutrino_mu],
-                                                    antiparts=[False, False, True],
-                                                    ME=matrix_elements['KaonMinMuonNumu'],
-                                                    kind=kind)
-            inters += cls.three_particle_meson_decay(parts=[charged_kaon, charged_pion, neutral_pion],
-                                                    antiparts=[False, False, False],
-                                                    ME=matrix_elements['KaonMinPiMinPi0'],
-                                                    kind=kind)
+            for anti in [False, True]:
+                inters += cls.three_particle_meson_decay(parts=[charged_kaon, muon, neutrino_mu],
+                                                        antiparts=[anti, anti, not anti],
+                                                        ME=matrix_elements['KaonMinMuonNumu'],
+                                                        kind=kind)
+                inters += cls.three_particle_meson_decay(parts=[charged_kaon, charged_pion, neutral_pion],
+                                                        antiparts=[anti, anti, False],
+                                                        ME=matrix_elements['KaonMinPiMinPi0'],
+                                                        kind=kind)
 
         def kaon_long_decay(inters=None):
             if not already_there(inters, 'Charged pion'):
@@ -874,10 +876,11 @@ class interactions(object):
             if not already_there(inters, 'Neutral pion'):
                 neutral_pion_decay(inters)
 
-            inters += cls.three_particle_meson_decay(parts=[charged_rho, charged_pion, neutral_pion],
-                                                    antiparts=[False, False, False],
-                                                    ME=matrix_elements['RhoPlusPiPlusPi0'],
-                                                    kind=kind)
+            for anti in [False, True]:
+                inters += cls.three_particle_meson_decay(parts=[charged_rho, charged_pion, neutral_pion],
+                                                        antiparts=[anti, anti, False],
+                                                        ME=matrix_elements['RhoPlusPiPlusPi0'],
+                                                        kind=kind)
 
         def omega_decay(inters=None):
             if not already_there(inters, 'Charged pion'):
-- 
2.43.0


From 8b917222b75f95471140f9e8b27f105354e320f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:08 +0000
Subject: [PATCH 22/33] fix: only one charge state of the semileptonic decays
 of long-lived kaons was included, with the branching ratio of both

---
 library/SM.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/library/SM.py b/library/SM.py
index 4b9b8d8..e03028c 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -149,8 +149,8 @@ class particles(object):
             'fast_decay': True,
             'lifetime': 5.116e-8 * UNITS.s,
             'BR': {
-                'πeν_e': 0.4055,
-                'πμν_μ': 0.2704,
+                'πeν_e': 0.4055 / 2, # for each charge of the pion
+                'πμν_μ': 0.2704 / 2, # for each charge of the pion
                 'π0π0π0': 0.1952,
                 'πππ0': 0.1254
             }
@@ -803,14 +803,16 @@ class interactions(object):
                                                 neutrinos=neutrinos,
                                                 kind=kind)
 
-            inters += cls.four_particle_meson_decay(parts=[kaon_long, charged_pion, electron, neutrino_e],
-                                                    antiparts=[False, False, False, True],
-                                                    ME=matrix_elements['KaonLPiPlusElecNue'],
-                                                    kind=kind)
-            inters += cls.four_particle_meson_decay(parts=[kaon_long, charged_pion, muon, neutrino_mu],
-                                                    antiparts=[False, False, False, True],
-                                                    ME=matrix_elements['KaonLPiPlusMuonNumu'],
-                                                    kind=kind)
+            for anti in [False, True]:
+                inters += cls.four_particle_meson_decay(parts=[kaon_long, charged_pion, electron, neutrino_e],
+                                                        antiparts=[False, anti, anti, not anti],
+                                                        ME=matrix_elements['KaonLPiPlusElecNue'],
+                                                        kind=kind)
+            for anti in [False, True]:
+                inters += cls.four_particle_meson_decay(parts=[kaon_long, charged_pion, muon, neutrino_mu],
+                                                        antiparts=[False, anti, anti, not anti],
+                                                        ME=matrix_elements['KaonLPiPlusMuonNumu'],
+                                                        kind=kind)
             inters += cls.four_particle_meson_decay(parts=[kaon_long, neutral_pion, neutral_pion, neutral_pion],
                                                     antiparts=[False, False, False, False],
                                                     ME=matrix_elements['KaonLThreePi0'],
-- 
2.43.0


From 7eb9c3c6d263388a4fb2c450b8271204c827036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:47 +0000
Subject: [PATCH 23/33] fix: decays into several identical particles injected
 only one of them

Rescaling the injected spectrum to the number of decays cancelled the multiplicity of the product.
---
 common/kinematics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 4655dd8..3a51ed6 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -369,7 +369,8 @@ def scaling(interaction, fullstack, constant):
         created = simps(fullstack * constant * dof * grid.TEMPLATE**2, grid.TEMPLATE)
         if created == 0.:
             return False
-        scaling = BR * interaction.reaction[-1].specie.num_creation / created
+        multiplicity = CollisionMultiplier3p(interaction) if len(interaction.reaction) == 3 else CollisionMultiplier4p(interaction)
+        scaling = multiplicity * BR * interaction.reaction[-1].specie.num_creation / created
         fullstack *= scaling
     return fullstack
 
-- 
2.43.0


From cb42895085f311d565b5550a687cf0671d637ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:17 +0000
Subject: [PATCH 24/33] fix: decays of muons and of secondary mesons could be
 included twice

---
 library/SM.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/SM.py b/library/SM.py
index e03028c..ff84f1a 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -750,7 +750,7 @@ class interactions(object):
                                             kind=kind)
 
         def charged_pion_decay(inters=None):
-            if not (muon_tau[0] or already_there(inters, 'Muon')):
+            if not (muon_tau[0] or muon_tau[1] or already_there(inters, 'Muon')):
                 inters += cls.lepton_interactions(leptons=leptons,
                                                 neutrinos=neutrinos,
                                                 kind=kind)
@@ -956,6 +956,10 @@ class interactions(object):
                                                     kind=kind)
 
         for meson in primary_mesons:
+            # Skip mesons that are decay products of those already considered
+            if already_there(inters, meson.name):
+                continue
+
             if meson.name == 'Neutral pion':
                 neutral_pion_decay(inters)
 
-- 
2.43.0


From 0f1df26b403cc58a23a55ec36b1a63f537a2ff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:51 +0000
Subject: [PATCH 25/33] fix: left- and right-handed couplings of neutrinos were
 exchanged between leptons and antileptons

---
 library/SM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/SM.py b/library/SM.py
index ff84f1a..821f5e1 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -501,8 +501,8 @@ class interactions(object):
             antiparticles=((False, True), (False, True)),
             washout_temperature=0 * UNITS.MeV,
             Ms=(
-                WeakM(K1=4 * CONST.g_R**2, order=(0, 3, 1, 2)),
-                WeakM(K1=4 * g_L**2, order=(0, 2, 1, 3)),
+                WeakM(K1=4 * CONST.g_R**2, order=(0, 2, 1, 3)),
+                WeakM(K1=4 * g_L**2, order=(0, 3, 1, 2)),
                 WeakM(K2=4 * g_L * CONST.g_R, order=(2, 3, 0, 1)),
             ),
             integral_type=FourParticleIntegral,
-- 
2.43.0


From b1c7f3d656b2597ac62977fcc85046ff2bfe79f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:51 +0000
Subject: [PATCH 26/33] fix: squared amplitude was negative when a vector meson
 is heavier than the neutral lepton

---
 library/NuMSM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/NuMSM.py b/library/NuMSM.py
index 9fde38b..3ff54cf 100755
--- a/library/NuMSM.py
+++ b/library/NuMSM.py
@@ -404,7 +404,7 @@ class interactions(object):
             antiparticles=antiparticles,
             Ms=(ThreeParticleM(K=(CONST.G_F * theta * meson.decay_constant * kappa)**2
                                 * sterile.mass**4 * (1 + 2 * (meson.mass / sterile.mass)**2)
-                                * (1 - (meson.mass / sterile.mass)**2)), ),
+                                * np.abs(1 - (meson.mass / sterile.mass)**2)), ),
             integral_type=ThreeParticleIntegral,
             kind=kind
         ) for antiparticles in [
@@ -427,7 +427,7 @@ class interactions(object):
             particles=((sterile, ), (lepton, meson)),
             antiparticles=antiparticles,
             Ms=(ThreeParticleM(
-                K=2 * (CONST.G_F * theta * meson.decay_constant * CKM)**2 * sterile.mass**4 * (
+                K=2 * (CONST.G_F * theta * meson.decay_constant * CKM)**2 * sterile.mass**4 * np.abs(
                     (1 - (lepton.mass / sterile.mass)**2)**2 + (meson.mass / sterile.mass)**2
                     * (1 + (lepton.mass / sterile.mass)**2) - 2 * (meson.mass / sterile.mass)**4
                 )
-- 
2.43.0


From f4f487330a767ea0aaded433690ffcd55b56f668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:22 +0000
Subject: [PATCH 27/33] fix: temperature correction counted the initial state
 as a recorded derivative

---
 evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index 7df2126..0ff46ce 100755
--- a/evolution.py
+++ b/evolution.py
@@ -187,7 +187,8 @@ class Universe(object):
             self.step_monitor(self)
 
         if environment.get('ADAMS_BASHFORTH_TEMPERATURE_CORRECTION'):
-            fs = (list(self.data['fraction'][-MAX_ADAMS_BASHFORTH_ORDER:]) + [self.fraction])
+            # The first record is the initial state, for which no derivative has been computed
+            fs = (list(self.data['fraction'][1:][-MAX_ADAMS_BASHFORTH_ORDER:]) + [self.fraction])
 
             self.params.aT += adams_bashforth_correction(fs=fs, h=self.params.h)
         else:
-- 
2.43.0


From 87628d707f286209464c353e366f50a3c3493f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:55 +0000
Subject: [PATCH 28/33] fix: continuing an evolution recorded its last state
 twice

---
 evolution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index 0ff46ce..a0e3e9f 100755
--- a/evolution.py
+++ b/evolution.py
@@ -131,7 +131,9 @@ class Universe(object):
         if self.params.rho is None:
 #            self.update_particles()
             self.params.update(self.total_energy_density(), self.total_entropy())
-        self.save_params()
+        # When a computation is continued, its last step is already recorded
+        if not len(self.data) or self.data['x'][-1] != self.params.x:
+            self.save_params()
 
         while self.params.T > T_final:
             try:
-- 
2.43.0


From 95be128e58c007c4082811656a9e8307fcbe7d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:55 +0000
Subject: [PATCH 29/33] fix: continuing an evolution reset the elapsed time

---
 evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index a0e3e9f..67dbab7 100755
--- a/evolution.py
+++ b/evolution.py
@@ -125,7 +125,8 @@ class Universe(object):
         print("\n")
 
         # TODO: test if changing updating particles beforehand changes the computed time
-        if init_time:
+        # The clock of a computation that is being continued keeps running
+        if init_time and not len(self.data):
             self.params.init_time(self.total_energy_density())
 
         if self.params.rho is None:
-- 
2.43.0


From c506af0e4e8161d87911ad7dfd530652c647de52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 30/33] fix: spectrum of a species in equilibrium lagged behind
 the plasma temperature

---
 particles/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 13f39af..221f595 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -220,8 +220,8 @@ class DistributionParticle(AbstractParticle):
         # Update particle internal params only while it is in equilibrium
         if self.in_equilibrium or (not self.thermal_dyn and self.Q != 0):
             # Particle species has temperature only when it is in equilibrium
-            self.init_distribution()
             self.aT = self.params.aT
+            self.init_distribution()
 
         self.T = self.aT / self.params.a
 
-- 
2.43.0


From 263bf80b9f6654a947b750418ed5334bb8dab93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:03 +0000
Subject: [PATCH 31/33] fix: decay-only reactions entered the implicit step
 with the wrong linear coefficient

Reactions evaluated as the term proportional to the distribution, G = B f, were passed
to the Adams-Moulton solver with B = G instead of G / f, so a freely decaying species
was depleted too fast (f = 1e-3, decay rate * step = 0.2: 30 times too few particles
left after ten steps)
---
 particles/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 221f595..8a7063f 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -301,15 +301,17 @@ class DistributionParticle(AbstractParticle):
             Fs = []
             ABs = []
             Bs = []
+            y = self.distribution(ps)
 
             for integral in self.collision_integrals:
                 if integral.kind in [CollisionIntegralKind.Full, CollisionIntegralKind.Full_vacuum_decay]:
                     C,B = integral.integrate(ps, stepsize=self.params.h)
                     ABs.append(C)
                     Bs.append(B)
-                elif integral.kind in [CollisionIntegralKind.F_f_vacuum_decay, CollisionIntegralKind.F_decay]:
+                elif integral.kind in [CollisionIntegralKind.F_f, CollisionIntegralKind.F_f_vacuum_decay, CollisionIntegralKind.F_decay]:
+                    # Only the term proportional to the distribution: G = B f
                     G = integral.integrate(ps, stepsize=self.params.h)
-                    Bs.append(G)
+                    Bs.append(G / numpy.where(y > 0, y, 1.))
                     ABs.append(G)
                 else:
                     ABs.append(integral.integrate(ps, stepsize=self.params.h))
@@ -322,7 +324,6 @@ class DistributionParticle(AbstractParticle):
 
             # The solver predicts the new distribution for $f' = A + B f$, while the collision
             # integral is its rate of change
-            y = self.distribution(ps)
             prediction = adams_moulton_solver(y=y, fs=fs, A=AB - B * y, B=B, h=self.params.h)
             I_coll = (prediction - y) / self.params.h
 
-- 
2.43.0


From 861afb2833f21a5de5579fa9ad9173fb5a6a1833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:35 +0000
Subject: [PATCH 32/33] fix: the proton has charge +1, so that neutron decay
 conserves charge

---
 library/SM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/SM.py b/library/SM.py
index 821f5e1..5adb772 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -82,7 +82,7 @@ class particles(object):
             'mass': 938.272046 * UNITS.MeV,
             'dof': 4,
             'majorana': False,
-            'Q': -1
+            'Q': 1
         }
         neutral_pion = {
             'name': 'Neutral pion',
-- 
2.43.0


From 0b8a6c4cca54739e98155043b3dbc9d4fd879337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:41 +0000
Subject: [PATCH 33/33] fix: a constant matrix element absorbed elements that
 depend on the particle order

---
 interactions/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interactions/__init__.py b/interactions/__init__.py
index a8981ae..32348b0 100755
--- a/interactions/__init__.py
+++ b/interactions/__init__.py
@@ -267,7 +267,10 @@ class IntegralDeduplicator:
         for new_M in new_integral.Ms:
             reduced = False
             for old_M in old_integral.Ms:
-                if old_M.K != 0.:
+                # Constant matrix elements do not depend on the order of the particles; any other
+                # matrix element can only be merged if the orders agree
+                is_constant = not (getattr(new_M, 'K1', 0.) or getattr(new_M, 'K2', 0.))
+                if old_M.K != 0. and is_constant:
                     reduced = True
                     old_M += new_M
                     break
-- 
2.43.0

