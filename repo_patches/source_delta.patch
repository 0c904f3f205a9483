From 837c89fa48056cf436dffb9044f4be13e657ac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 01/49] fix: selection-rule pre-check handles triads other than
 (1, 2, 3)

---
 .../aesolver/pre_checks/generic/generic_quadratic_checks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
index 813cfb5..b739374 100644
--- a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
+++ b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
@@ -58,7 +58,7 @@ class PreCheckQuadratic:
         if triads is None:
             triads = [(1, 2, 3)]
         if conjugation is None or isinstance(conjugation[0], bool):
-            conjugation = [(True, False, False)]
+            conjugation = [(True, False, False)] * len(triads)
         # store the boolean that dictates how outputs are generated
         self._all_fulfilled = all_fulfilled
         # store the mode info object
@@ -173,8 +173,8 @@ class PreCheckQuadratic:
         _m_list = self._m_list[lm_index]
         # return the meridional order list
         return [
-            self._compute_k_grav_in(_l_list[mnr - 1], _m_list[mnr - 1])
-            for mnr in my_mode_nrs
+            self._compute_k_grav_in(_l_val, _m_val)
+            for _l_val, _m_val in zip(_l_list, _m_list)
         ]
 
     # utility method used to perform 'm' conjugation
-- 
2.43.0


From 661ce8c12a7b88c308c08a16031cd1eebf2dc5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 02/49] fix: polytropic structure profiles given on another
 grid than the modes are interpolated consistently

---
 .../super_coupling_coefficients.py                       | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index 33e4a21..33f3eee 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -786,6 +786,9 @@ class SuperCouplingCoefficient:
             )
             # loop over the dictionary items
             for _k, _v in my_internal_structure_dict.items():
+                # check if it should be extracted
+                if _k in _exclude_list:
+                    continue
                 # do interpolation, set the interpolated attribute and add profile suffix to parameter to distinguish it
                 if (
                     isinstance(_v, float)
@@ -793,7 +796,7 @@ class SuperCouplingCoefficient:
                     or isinstance(_v, int)
                 ):
                     # no profile --> no interpolation
-                    setattr(self, f'_{_k}', _v)
+                    setattr(self, f'_{_k}_profile', _v)
                 else:
                     # profile --> needs interpolation
                     if self._use_polytropic:
@@ -1213,7 +1216,7 @@ class SuperCouplingCoefficient:
                 my_interp := np.interp(
                     self._x, radial_structure_profile, _my_att
                 )
-            ):  # if it is NaN, _my_att is None!
+            ).any():  # if it is NaN, _my_att is None!
                 return None
             else:
                 return my_interp
@@ -1239,7 +1242,7 @@ class SuperCouplingCoefficient:
             The dictionary containing the attributes that need to be unpacked and stored in the object.
         """
         # compute the helper normalized radius model grid for possibly necessary interpolations
-        _help_r = self._r_profile / self._R_star
+        _help_r = my_dict['r'] / self._R_star
         # check if interpolations are needed
         _interp_needed = not (_help_r.shape[0] == self._x.shape[0])
         # store common kwargs for interpolation
-- 
2.43.0


From 0241a4c2047cc3843d0ed2c66259f5f3f81e102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 03/49] fix: polytropic profile derivatives use the polytrope's
 own gravitational constant and density

---
 .../super_coupling_coefficients.py                          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index 33f3eee..cf633da 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -1057,7 +1057,7 @@ class SuperCouplingCoefficient:
                 _, self._drho = self._compute_der(
                     _grad,
                     x=self._r_profile,
-                    y=self._rho,
+                    y=self._rho_profile,
                     kwargs_diff=kwargs_diff,
                 )
         else:
@@ -1089,7 +1089,9 @@ class SuperCouplingCoefficient:
                 4.0 * np.pi * self._G_profile * self._rho_profile
             ) - (self._dgravpot * (2.0 / self._r_profile))
             # derivative of Poisson's equation: d^3 Phi / dr^3 = 4 * Pi * G * drho/dr = 4.0 * np.pi * self._G * self._drho
-            self._dgravpot3 = (4.0 * np.pi * self._G * self._drho) + (
+            self._dgravpot3 = (
+                4.0 * np.pi * self._G_profile * self._drho
+            ) + (
                 2.0 / self._r_profile
             ) * ((self._dgravpot / self._r_profile) - self._dgravpot2)
         else:
-- 
2.43.0


From 9e84224cd920d04add8814d162da87e561c423d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 04/49] fix: self-coupling coefficients weight the symmetrised
 terms with their factors

---
 .../quadratic_coupling_coefficient_rotating.py   | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 775fa1a..734b76c 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -1109,12 +1109,12 @@ class QuadraticCouplingCoefficientRotating(CCR):
             ):
                 _ang_integration_result = 0.0
                 # compute the angular integration result
-                for _ang_term, _div_by_sin_term in zip(
-                    angular_terms, div_by_sin
+                for _ang_term, _div_by_sin_term, _ang_fac in zip(
+                    angular_terms, div_by_sin, ang_factor
                 ):
                     if TYPE_CHECKING:
                         assert isinstance(_ang_term, list)
-                    _ang_integration_result += HI.quadratic_angular_integral(
+                    _ang_integration_result += _ang_fac * HI.quadratic_angular_integral(
                         my_obj=self,
                         m_list_for_azimuthal_check=self._m_list,
                         conj=self._conj_cc,
@@ -1132,7 +1132,9 @@ class QuadraticCouplingCoefficientRotating(CCR):
             else:
                 if TYPE_CHECKING:
                     assert isinstance(div_by_sin, bool)
-                _ang_integration_result = HI.quadratic_angular_integral(
+                _ang_integration_result = ang_factor[
+                    0
+                ] * HI.quadratic_angular_integral(
                     my_obj=self,
                     m_list_for_azimuthal_check=self._m_list,
                     conj=self._conj_cc,
@@ -1156,16 +1158,16 @@ class QuadraticCouplingCoefficientRotating(CCR):
                 if isinstance(radial_terms[0], list):
                     _rad_integration_result = 0.0
                     # compute the radial integration result
-                    for _rad_term in radial_terms:
+                    for _rad_term, _rad_fac in zip(radial_terms, rad_factor):
                         if TYPE_CHECKING:
                             assert isinstance(_rad_term, list)
-                        _rad_integration_result += self._rad_int(
+                        _rad_integration_result += _rad_fac * self._rad_int(
                             radial_terms=_rad_term,
                             indexer=rad_indexer,
                             multiplying_term=radial_multiplier,
                         )
                 else:
-                    _rad_integration_result = self._rad_int(
+                    _rad_integration_result = rad_factor[0] * self._rad_int(
                         radial_terms=radial_terms,  # type: ignore (I don't know how to convince pyright this is of the right type!)
                         indexer=rad_indexer,
                         multiplying_term=radial_multiplier,
-- 
2.43.0


From 797fbe77597e7b0bdd212c2d00f3a5e326287bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 05/49] fix: dimensionless frequencies requested in uHz or
 cycles per day use the inverse time conversion

---
 .../enumeration_freq_converter_normalization.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py b/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
index a438b76..80e6f2d 100644
--- a/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
+++ b/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
@@ -383,7 +383,7 @@ class EnumerationGYREFreqConverter(Enum):
         # compose the dimensioning factor conversion function
         if is_angular:
             # the conversion factor needs to be in the correct cyclic frequency unit: therefore one needs to divide by the nr. of radians included in the angular frequency conversion factor
-            return lambda dim_fac: _req_fac(dim_fac) / (2.0 * np.pi)
+            return lambda dim_fac: dim_fac * (2.0 * np.pi) / _req_fac(1.0)
         else:
-            # no conversion needs to be done with respect to angularity of the frequency (conversion only needs to take care of difference between Hz and cpd)
-            return _req_fac
+            # no conversion needs to be done with respect to angularity of the frequency: the dimensioning factor is a time, so that it converts inversely to the frequencies
+            return lambda dim_fac: dim_fac / _req_fac(1.0)
-- 
2.43.0


From 0e1c67b6b462ed6b3042ce49628ad71eec829a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 06/49] fix: co-rotating cyclic frequencies of inertial-frame
 input in angular units follow from the angular ones

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index 641d8a8..b0dcb56 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -876,7 +876,7 @@ class FrequencyHandler:
                     self._corot_mode_omegas[_i] = _convert_freq_omega.real - (
                         _m * self._rot_freq
                     )
-                    self._corot_mode_freqs[_i] = self._corot_mode_freqs[_i] / (
+                    self._corot_mode_freqs[_i] = self._corot_mode_omegas[_i] / (
                         2.0 * np.pi
                     )
                 else:
-- 
2.43.0


From 1f9afdfaa2bbe05ffa71d4524f21fca1bc6ef365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 07/49] fix: nonadiabatic modes in dimensionless units no
 longer stop the solver when the adiabatic ones have other units

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index b0dcb56..bfcdcc9 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -1039,7 +1039,9 @@ class FrequencyHandler:
             # obtain the additional conversion functions for nonadiabatic input
             enummeta_nad = EnumGYREFreqConv.factor_from_dict
             return [
-                enummeta_nad(_m_dict_n, self._requested_units)
+                enummeta_nad(
+                    _m_dict_n, self._requested_units, no_exit=True
+                )
                 for _m_dict_n in gyre_nad_dicts
             ]
 
-- 
2.43.0


From 41d80abcb7c19ed2d419f3169ab9b7193e0171e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 08/49] fix: unit conversions recognise the unit system
 regardless of case, as the gravitational constant does

---
 aesolver/aesolver/model_handling/load_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/model_handling/load_models.py b/aesolver/aesolver/model_handling/load_models.py
index 505fd6e..0dad513 100644
--- a/aesolver/aesolver/model_handling/load_models.py
+++ b/aesolver/aesolver/model_handling/load_models.py
@@ -483,7 +483,7 @@ class ModelLoader:
         """
         # get the unit conversion function dictionary
         _conversion_dict = my_unit_converter_class.unit_conversions(
-            unit_system=unit_system
+            unit_system=unit_system.upper()
         )
         # use the conversion dict to recreate the data dictionary, with updated values
         return [
-- 
2.43.0


From 748cfc9e5911cc0db0747a3c5d6b86df48f35058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:20 +0000
Subject: [PATCH 09/49] fix: structure files are selected by their actual
 suffix, and any GYRE output is excluded

---
 aesolver/aesolver/model_handling/subselection_classes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/model_handling/subselection_classes.py b/aesolver/aesolver/model_handling/subselection_classes.py
index 7ca2077..2bc7f15 100644
--- a/aesolver/aesolver/model_handling/subselection_classes.py
+++ b/aesolver/aesolver/model_handling/subselection_classes.py
@@ -187,8 +187,8 @@ class MESAProfileSubSelector(SubSelectorFiles):
                 'not_gyre': ('gyre', False),
             },
             pattern_dictionary={
-                'file_suffix': re.compile(rf'.+\.({mesa_file_suffix})'),
-                'not_gyre': re.compile(r'.+(gyre|GYRE).*'),
+                'file_suffix': re.compile(rf'.+\.({mesa_file_suffix})$'),
+                'not_gyre': re.compile(r'.*(gyre|GYRE).*'),
             },
         )
 
@@ -439,7 +439,7 @@ class PolytropeModelSubSelector(SubSelectorFiles):
         super().__init__(
             search_elements={'file_suffix': (polytrope_model_suffix, True)},
             pattern_dictionary={
-                'file_suffix': re.compile(rf'.+\.({polytrope_model_suffix})')
+                'file_suffix': re.compile(rf'.+\.({polytrope_model_suffix})$')
             },
         )
 
-- 
2.43.0


From 080977a1ece9cea98d7248af1375462da764c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 10/49] fix: second derivatives of the radial Hough function
 keep its parity on the southern hemisphere

---
 hough-func-tools/hough_function/hough_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index 113c5d7..521825b 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -332,7 +332,7 @@ class HoughFunction:
             Parity-adjusted (second derivative of radial Hough function) part of the theta-space ranging from mu = -1 to 0.
         """
         return check_if_none(
-            value=self._hrpp, my_func_if_not_none=self._mul_kgrav_1()
+            value=self._hrpp, my_func_if_not_none=self._mul_kgrav()
         )
 
     @property
@@ -345,7 +345,7 @@ class HoughFunction:
             Parity-adjusted second theta derivative of the radial Hough function for mu = -1 to 0.
         """
         return check_if_none(
-            value=self._hrpp_theta, my_func_if_not_none=self._mul_kgrav_1()
+            value=self._hrpp_theta, my_func_if_not_none=self._mul_kgrav()
         )
 
     @property
-- 
2.43.0


From a215eb482855d65e92dc4918dc386563990ace09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 11/49] fix: the derivative of the azimuthal Hough function
 follows the sign convention of the function itself

---
 hough-func-tools/hough_function/hough_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index 521825b..90080d4 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -869,6 +869,9 @@ class HoughFunction:
                 )
                 / self._s**3.0
             )
+            # multiplicative factor if Lee & Saio def. is to be followed.
+            if self._my_instructions['adjust_phi_sign']:
+                self._hpp *= -1.0
             # adjust form if necessary (GYRE definition)
             if self._my_instructions['sin_factor']:
                 self._hpp = (self._s * self._hpp) - (
-- 
2.43.0


From c634328d91d66bd703ca20dd0c7ccff7f0a61375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 12/49] fix: integrate with the equal-spacing rules only if the
 grid is equally spaced

---
 .../num_integrator/num_integration.cpp        | 22 ++++++++++++++++++-
 .../num_integrator/num_integration.h          |  2 ++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/cpp-numintegrator/num_integrator/num_integration.cpp b/cpp-numintegrator/num_integrator/num_integration.cpp
index ca1f3e4..7b05545 100644
--- a/cpp-numintegrator/num_integrator/num_integration.cpp
+++ b/cpp-numintegrator/num_integrator/num_integration.cpp
@@ -9,6 +9,7 @@
  *
  */
 #include "num_integration.h"
+#include <cmath>
 
 // enum that allows mapping for the integration functions
 enum IntegrationOptions {
@@ -37,7 +38,6 @@ NumericalDoubleInputIntegrator::NumericalDoubleInputIntegrator(
     int arrsize, double *integrand, double *var, bool es,
     string integration_string, int num_threads, bool para) {
   // initialize the boolean attributes
-  this->equally_spaced = es;
   this->paral = para;
   // initialize the number of threads attribute
   this->numthreads = num_threads;
@@ -46,10 +46,30 @@ NumericalDoubleInputIntegrator::NumericalDoubleInputIntegrator(
   // initialize the pointer attributes
   this->my_var = var;
   this->my_integrand = integrand;
+  // only use the methods for equally spaced grids if the grid is one
+  this->equally_spaced = es && grid_is_equally_spaced();
   // obtain the mapping of the string to the switch variable
   this->integration_switch = my_integration_mapper[integration_string];
 };
 
+/**
+ * @brief Checks whether the grid of the integration variable has (up to
+ * round-off) a constant, well-defined spacing.
+ */
+bool NumericalDoubleInputIntegrator::grid_is_equally_spaced() {
+  if (this->arr_size < 2) {
+    return false;
+  }
+  double increment = my_var[1] - my_var[0];
+  for (int i = 2; i < this->arr_size; i++) {
+    if (std::fabs(my_var[i] - my_var[i - 1] - increment) >
+        1.0e-6 * std::fabs(increment)) {
+      return false;
+    }
+  }
+  return true;
+};
+
 /**
  * @brief Performs numerical integration using the trapezoid scheme, and inputs.
  *
diff --git a/cpp-numintegrator/num_integrator/num_integration.h b/cpp-numintegrator/num_integrator/num_integration.h
index 8e72634..cc31bd4 100644
--- a/cpp-numintegrator/num_integrator/num_integration.h
+++ b/cpp-numintegrator/num_integrator/num_integration.h
@@ -52,6 +52,8 @@ private:
    * @name Internal integration methods
    * Contains the numerical integration methods implemented for this class.
    */
+  /** @brief Check whether the integration variable is equally spaced. */
+  bool grid_is_equally_spaced();
   /** @brief Perform numerical integration using the trapezoid scheme. */
   double trapz();
   double trapz_parallel();
-- 
2.43.0


From 0f4e2c7443b394c5b6794d12233996b49789bc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 13/49] fix: the parallel trapezoid keeps its temporaries
 private to each iteration

---
 cpp-numintegrator/num_integrator/num_integration.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp-numintegrator/num_integrator/num_integration.cpp b/cpp-numintegrator/num_integrator/num_integration.cpp
index 7b05545..695fac2 100644
--- a/cpp-numintegrator/num_integrator/num_integration.cpp
+++ b/cpp-numintegrator/num_integrator/num_integration.cpp
@@ -124,13 +124,13 @@ double NumericalDoubleInputIntegrator::trapz_parallel() {
     return sum_result * increment;
   } else {
     // initialize local variables
-    double local_integrand_sum, local_increment, integration_result = 0.0;
+    double integration_result = 0.0;
 // update the integration result using the non-equal spaced grid
 #pragma omp parallel for num_threads(numthreads) shared(my_var, my_integrand)  \
     reduction(+ : integration_result)
     for (int i = 1; i < this->arr_size; i++) {
-      local_increment = my_var[i] - my_var[i - 1];
-      local_integrand_sum = (my_integrand[i] + my_integrand[i - 1]) / 2.0;
+      double local_increment = my_var[i] - my_var[i - 1];
+      double local_integrand_sum = (my_integrand[i] + my_integrand[i - 1]) / 2.0;
       integration_result += local_integrand_sum * local_increment;
     }
     // return the integration result
-- 
2.43.0


From 6f8ec4669da5939890e4087961da9df59f3f18ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 14/49] fix: the native wrappers refuse arrays of different
 lengths and strided arrays

---
 .../disc_integrator/libcpp_disc_integration.pyx            | 7 +++++++
 cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx                  | 7 +++++--
 cpp-numintegrator/num_integrator/libcpp_num_integrator.pyx | 3 +++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/cpp-disc-integrator/disc_integrator/libcpp_disc_integration.pyx b/cpp-disc-integrator/disc_integrator/libcpp_disc_integration.pyx
index 36b153c..bf5de53 100644
--- a/cpp-disc-integrator/disc_integrator/libcpp_disc_integration.pyx
+++ b/cpp-disc-integrator/disc_integrator/libcpp_disc_integration.pyx
@@ -39,6 +39,13 @@ def get_integrals(
     ):
     # get the array size
     cdef int origi = mus.shape[0]
+    # the arrays need to have the same size
+    if (
+        angular_function.shape[0] != origi
+        or first_mu_der.shape[0] != origi
+        or second_mu_der.shape[0] != origi
+    ):
+        raise ValueError('The mu and angular function arrays differ in size!')
     # compute the disc factor integrals
     return _integrals(
         origi, mus, angular_function, first_mu_der,
diff --git a/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx b/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx
index 9218998..904f7d4 100644
--- a/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx
+++ b/cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx
@@ -11,7 +11,7 @@ import numpy as np
 @cython.boundscheck(False)
 @cython.wraparound(False)
 cdef _comp(
-    int asize, double[:] kap, double[:] res,
+    int asize, double[::1] kap, double[::1] res,
     cpp_string myselvar, int num_threads, cpp_bool paral
     ):
     # create pointer to LimbDarkeningFunctions object
@@ -25,11 +25,14 @@ cdef _comp(
 
 
 def compute(
-    double[:] kap, double[:] res,
+    double[::1] kap, double[::1] res,
     str myselvar, int num_threads, cpp_bool paral
     ):
     # compute the array size
     cdef int asize = kap.shape[0]
+    # the arrays need to have the same size
+    if res.shape[0] != asize:
+        raise ValueError('The mu and result arrays differ in size!')
     # compute the ld function
     _comp(
         asize, kap, res, myselvar.encode('utf-8'),
diff --git a/cpp-numintegrator/num_integrator/libcpp_num_integrator.pyx b/cpp-numintegrator/num_integrator/libcpp_num_integrator.pyx
index 266c6a6..d1a0654 100644
--- a/cpp-numintegrator/num_integrator/libcpp_num_integrator.pyx
+++ b/cpp-numintegrator/num_integrator/libcpp_num_integrator.pyx
@@ -36,6 +36,9 @@ def integrate(
     ):
     # compute the array size
     cdef int arrsize = integrand.shape[0]
+    # the arrays need to have the same size
+    if variable.shape[0] != arrsize:
+        raise ValueError('The integrand and variable arrays differ in size!')
     # call the c/cython function wrapper
     return _integrate(
         arrsize, integration_method.encode('utf-8'), equally_spaced, integrand, variable,
-- 
2.43.0


From e27de84d69b9207f07362ecab16e22b0dfddd021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 15/49] fix: sample derivatives at the input values when
 interpolating internally

---
 num-tools/num_deriv/num_deriv.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/num-tools/num_deriv/num_deriv.py b/num-tools/num_deriv/num_deriv.py
index 3705dd7..1ee9147 100644
--- a/num-tools/num_deriv/num_deriv.py
+++ b/num-tools/num_deriv/num_deriv.py
@@ -271,10 +271,13 @@ class NumericalDifferentiator:
         if self._perform_interpolation:
             # get the linear 1D interpolation
             _interpolator = interp1d(x, y)
-            _x = np.linspace(
-                x.min(),
-                x.max(),
-                num=((x.shape[0]) * self._interpolation_factor) - 1,
+            # - divide each interval between successive input values, so that
+            # the input values are part of the interpolation grid
+            _factor = self._interpolation_factor
+            _x = np.interp(
+                np.arange((x.shape[0] - 1) * _factor + 1) / _factor,
+                np.arange(x.shape[0]),
+                x,
             )
             _y = _interpolator(_x)
         else:
@@ -290,15 +293,15 @@ class NumericalDifferentiator:
         )
         # check if sub-sampling needs to be done after interpolation
         if self._perform_interpolation:
-            # perform the mapping from one to the other
-            _map_idx = np.in1d(_x, x).nonzero()[0]
             der_sub_sample = []
             # perform sub-sampling
             for _my_der in derivatives[0]:
                 if _my_der is None:
                     der_sub_sample.append(None)
                 else:
-                    der_sub_sample.append(_my_der[_map_idx])
+                    der_sub_sample.append(
+                        _my_der[:: self._interpolation_factor]
+                    )
             return (der_sub_sample, derivatives[1])
         else:
             return derivatives
-- 
2.43.0


From 04435485afc86994c9e1064e7a61f758ef9af159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:29 +0000
Subject: [PATCH 16/49] fix: keep the derivative routine within its arrays for
 every accepted request

---
 fornberg-num-deriv/fornberg_num_deriv/fornberg.f90 | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90 b/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90
index 6eff78a..eabdaa0 100644
--- a/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90
+++ b/fornberg-num-deriv/fornberg_num_deriv/fornberg.f90
@@ -1,7 +1,7 @@
 module fornberg_deriv
     implicit none
     ! define parameters used in the subroutines
-    integer, parameter :: mmax=8, nmax=20, iaccuracy_max=20
+    integer, parameter :: mmax=8, nmax=21, iaccuracy_max=20
     
 contains
 
@@ -51,9 +51,13 @@ contains
         real(8), intent(in), dimension(ngrid) :: grid, u
         real(8), intent(out), dimension(ngrid) :: du
         integer :: m, n, i, imid, jend
-        real(8), dimension(iaccuracy_max) :: coef
+        real(8), dimension(nmax) :: coef
         ! Check if requested accuracy is reasonable
         if (iaccuracy .gt. iaccuracy_max) stop 'requested accuracy order too large in routine'
+        if (iaccuracy .lt. 0) stop 'requested accuracy order is negative'
+        ! Check if the derivative order can be handled, and if there are enough grid points
+        if (iorder .lt. 0 .or. iorder .ge. mmax) stop 'requested derivative order not supported in routine'
+        if (ngrid .le. iaccuracy) stop 'not enough grid points for the requested accuracy order'
         ! Declare aliases
         m = iorder + 1
         n = iaccuracy + 1
-- 
2.43.0


From df1aee1e0af72330ab4219d70baa6abbb5fc88f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:28 +0000
Subject: [PATCH 17/49] fix: print the selected bin width with the keyword its
 printer has

---
 histogram_maker/hogg_jacky/blas_jacky.py            | 2 +-
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 histogram_maker/hogg_jacky/numpy_iterator_jacky.py  | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 265854f..9d39add 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -592,7 +592,7 @@ def hogg_jackknife_likelihood_blas(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 6cef928..4a8a6c6 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -469,7 +469,7 @@ def hogg_jackknife_likelihood_cython(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index aca69e0..05c5151 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -550,7 +550,7 @@ def hogg_jackknife_likelihood_numexpr(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
index 66b77ef..e4d82bc 100644
--- a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
+++ b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
@@ -342,7 +342,7 @@ def hogg_jackknife_likelihood_numpy(
                 # if verbose: print output
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=max_bin_width, max_combo=_max_combo
+                        max_bin_width_edges=max_bin_width, max_combo=_max_combo
                     )
                 # compute the optimal histogram and corresponding bin edges
                 hist_counts, hist_edges = np.histogram(
@@ -516,7 +516,7 @@ def hogg_jackknife_likelihood_iterator(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width, max_combo=my_combination
+                        max_bin_width_edges=my_bin_width, max_combo=my_combination
                     )
                 # compute the optimal histogram and corresponding bin edges
                 hist_counts, hist_edges = np.histogram(
-- 
2.43.0


From 5ca7e0856c24e9b92004c44169a5c5c9af67d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:28 +0000
Subject: [PATCH 18/49] fix: hand the specified bin width over under its name

---
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 4a8a6c6..8605311 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -809,7 +809,7 @@ def histogram_cython_spec_width(
         # get the histogram counts
         hist_counts = _cython_histogram_counts(
             my_data=my_data,
-            my_bw=my_bw,
+            bin_width=my_bw,
             bin_phase=bin_phase,
             min_nr_bins=min_nr_bins,
             nr_bins=nr_bins,
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 05c5151..17ac80f 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -838,7 +838,7 @@ def histogram_numexpr_spec_width(
         # get the histogram counts
         hist_counts = _numexpr_histogram_counts(
             my_data=my_data,
-            my_bw=my_bw,
+            bin_width=my_bw,
             bin_phase=bin_phase,
             min_nr_bins=min_nr_bins,
             nr_bins=nr_bins,
-- 
2.43.0


From b78e7668ab019e439c89dbb7acd1d2dbcda2430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 19/49] fix: normalise the cython jackknife likelihood with the
 counted data points

---
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 8605311..48f4e88 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -451,8 +451,8 @@ def hogg_jackknife_likelihood_cython(
                         use_parallel=use_parallel,
                     )
                     # compute the empirical probability conversion factor
-                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_no_loop(
-                        _my_bin_values.shape[0], _my_alpha
+                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_serial_loop(
+                        _my_bin_values, _my_alpha
                     )
                     # compute the jackknife likelihood
                     _my_jackknife_likelihood = _my_jacky_func(
@@ -644,8 +644,8 @@ def hogg_jackknife_likelihood_cython_log(
                         bin_phase=0.0,
                     )
                     # compute the empirical probability conversion factor
-                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_no_loop(
-                        _my_bin_values.shape[0], _my_alpha
+                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_serial_loop(
+                        _my_bin_values, _my_alpha
                     )
                     # compute the jackknife likelihood in a parallel or serial way
                     _my_jackknife_likelihood = _my_jacky_func(
-- 
2.43.0


From 6080499a6d3608710eaba1485b5858caf9701bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 20/49] fix: divide each log bin by its own width in the BLAS
 density histogram

---
 histogram_maker/hogg_jacky/blas_jacky.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 9d39add..3301e52 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -208,16 +208,15 @@ def empirical_density_histogram_blas(
         additional_checks=additional_checks,
         my_data_min=my_data_min,
     )
-    # compute empirical density histogram and return it together with the bin edges
-    try:
-        return (
-            dscal(1.0 / (my_data.shape[0] * bin_width), count_histogram),
-            bin_edges,
-            bin_width,
-        )
-    except AttributeError:
-        # returned value from histogram_blas = None, None, None
+    # returned value from histogram_blas = None, None, None
+    if count_histogram is None:
         return None, None, None
+    # compute empirical density histogram and return it together with the bin edges
+    return (
+        count_histogram / (my_data.shape[0] * bin_width),
+        bin_edges,
+        bin_width,
+    )
 
 
 def _blas_histogram_counts(
-- 
2.43.0


From 2e0dc612f5d22b010dddcce8f2bdce8deb6ff385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 21/49] fix: normalise the numexpr log histogram with the
 counted data points

---
 histogram_maker/hogg_jacky/numexpr_jacky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 17ac80f..84922a4 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -745,7 +745,7 @@ def hogg_jackknife_likelihood_numexpr_log(
                             'hist_counts / empirical_probability_conversion_fac',
                             {
                                 'hist_counts': hist_counts,
-                                'empirical_probability_conversion_fac': my_data.shape[
+                                'empirical_probability_conversion_fac': _valued_data.shape[
                                     0
                                 ],
                             },
@@ -763,7 +763,7 @@ def hogg_jackknife_likelihood_numexpr_log(
                             'hist_counts / (empirical_probability_conversion_fac * (ha - hb))',
                             {
                                 'hist_counts': hist_counts,
-                                'empirical_probability_conversion_fac': my_data.shape[
+                                'empirical_probability_conversion_fac': _valued_data.shape[
                                     0
                                 ],
                                 'ha': hist_edges[1:],
-- 
2.43.0


From f286db455046b11d08ea09947713b9f88d5acd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 22/49] fix: report the selected binning phase with the binning
 parameters

---
 histogram_maker/hogg_jacky/blas_jacky.py            | 2 +-
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 3301e52..12ca1eb 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -598,7 +598,7 @@ def hogg_jackknife_likelihood_blas(
                 # store the optimal binning parameters, if needed
                 if return_binning_parameters:
                     binning_params = handle_return_binning_parameters(
-                        combination_obj=my_combination
+                        combination_obj=(*my_combination, my_bin_phase)
                     )
                 else:
                     binning_params = None
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 48f4e88..a60a580 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -476,7 +476,7 @@ def hogg_jackknife_likelihood_cython(
                 # store the optimal binning parameters, if needed
                 if return_binning_parameters:
                     binning_params = handle_return_binning_parameters(
-                        combination_obj=my_combination
+                        combination_obj=(*my_combination, my_bin_phase)
                     )
                 else:
                     binning_params = None
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 84922a4..8a16e6b 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -557,7 +557,7 @@ def hogg_jackknife_likelihood_numexpr(
                 # store the optimal binning parameters, if needed
                 if return_binning_parameters:
                     binning_params = handle_return_binning_parameters(
-                        combination_obj=my_combination
+                        combination_obj=(*my_combination, my_bin_phase)
                     )
                 else:
                     binning_params = None
-- 
2.43.0


From e09baf7313e5fc59b5c76a1f2cba195501d22fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 23/49] fix: return one count per requested histogram bin

---
 histogram_maker/hogg_jacky/blas_jacky.py                        | 2 +-
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py             | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py                     | 2 +-
 .../hogg_jacky/shared/shared_computation_functions.py           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 12ca1eb..953d55d 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -276,7 +276,7 @@ def _blas_histogram_counts(
                 )
                 sys.exit()
         # return the bin counts
-        return np.bincount(_binning_result, minlength=min_nr_bins).astype(
+        return np.bincount(_binning_result, minlength=max(min_nr_bins, nr_bins)).astype(
             np.float64, copy=False
         )
 
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index a60a580..3411be3 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -276,7 +276,7 @@ def _cython_histogram_counts(
                 )
                 sys.exit()
         # return the bin counts
-        return np.bincount(_binning_result, minlength=min_nr_bins).astype(
+        return np.bincount(_binning_result, minlength=max(min_nr_bins, nr_bins)).astype(
             np.float64, copy=False
         )
 
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 8a16e6b..978202b 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -228,7 +228,7 @@ def _numexpr_histogram_counts(
                 )
                 sys.exit()
         # return the bin counts
-        return np.bincount(_binning_result, minlength=min_nr_bins).astype(
+        return np.bincount(_binning_result, minlength=max(min_nr_bins, nr_bins)).astype(
             np.float64, copy=False
         )
 
diff --git a/histogram_maker/hogg_jacky/shared/shared_computation_functions.py b/histogram_maker/hogg_jacky/shared/shared_computation_functions.py
index dc02c41..5090eb7 100644
--- a/histogram_maker/hogg_jacky/shared/shared_computation_functions.py
+++ b/histogram_maker/hogg_jacky/shared/shared_computation_functions.py
@@ -189,7 +189,7 @@ def histogram_log_counts(
         f'Cannot use a constant binning phase ({binning_phase}), when generating log-transformed data histograms (whose bins are not of equal width).'
     )
     # return the histogram bin counts and edges
-    return np.bincount(_binning_result, minlength=min_nr_bins).astype(
+    return np.bincount(_binning_result, minlength=max(min_nr_bins, bin_nr)).astype(
         np.float64, copy=False
     )
 
-- 
2.43.0


From cb3da002fba03b14ad72aa1fddaa67cd66ef309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 24/49] fix: return a tuple from the inverse pairing functions
 instead of adding an integer to it

---
 py-combinations/pairing_functions/cantor_pairing.py    | 4 ++--
 py-combinations/pairing_functions/symmetric_pairing.py | 2 +-
 py-combinations/pairing_functions/xie_pairing.py       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/py-combinations/pairing_functions/cantor_pairing.py b/py-combinations/pairing_functions/cantor_pairing.py
index 11c5d77..bd33def 100644
--- a/py-combinations/pairing_functions/cantor_pairing.py
+++ b/py-combinations/pairing_functions/cantor_pairing.py
@@ -24,7 +24,7 @@ def cantor_pair(my_pair, lowest_integer=0):
         The paired/mapped integer.
     """
     # adjust the mapping pair: subtract the lowest integer considered
-    mapping_pair = my_pair - lowest_integer
+    mapping_pair = np.array(my_pair) - lowest_integer
     # compute the sum of the mapping integer pair
     int_sum = mapping_pair.sum()
     # compute and return the paired/mapped integer
@@ -54,4 +54,4 @@ def invert_cantor_pair(cantor_integer, lowest_integer=0):
     # - tuple generation
     reconstructed_tuple = (_w - cantor_integer + _t, cantor_integer - _t)
     # - return result
-    return reconstructed_tuple + lowest_integer  # type: ignore
+    return tuple(_x + lowest_integer for _x in reconstructed_tuple)
diff --git a/py-combinations/pairing_functions/symmetric_pairing.py b/py-combinations/pairing_functions/symmetric_pairing.py
index 5c1f8cd..c5197f4 100644
--- a/py-combinations/pairing_functions/symmetric_pairing.py
+++ b/py-combinations/pairing_functions/symmetric_pairing.py
@@ -54,4 +54,4 @@ def invert_symmetric_pair(my_sym_number, lowest_integer=0):
     # compute the paired integers
     reconstructed_tuple = (my_sym_number - _t, _w + 1)
     # return the previously mapped tuple
-    return reconstructed_tuple + lowest_integer - 1
+    return tuple(_x + lowest_integer - 1 for _x in reconstructed_tuple)
diff --git a/py-combinations/pairing_functions/xie_pairing.py b/py-combinations/pairing_functions/xie_pairing.py
index 773e51e..d5799e8 100644
--- a/py-combinations/pairing_functions/xie_pairing.py
+++ b/py-combinations/pairing_functions/xie_pairing.py
@@ -83,4 +83,4 @@ def invert_xie_symmetric_pair(xie_number, lowest_integer):
     m = _first_fac + _a * ((_t + 1) * (_t + 1 + _b) - xie_number)
     n = _first_fac + _a * (xie_number - (_t * (_t + _b)))
     # return the reconstructed pair
-    return (m, n) + lowest_integer - 1
+    return m + lowest_integer - 1, n + lowest_integer - 1
-- 
2.43.0


From 43c4a7048613f1d9df8bc6e3ec35f17f52e7b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 25/49] fix: invert the symmetric pairing of equal integers

---
 py-combinations/pairing_functions/symmetric_pairing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-combinations/pairing_functions/symmetric_pairing.py b/py-combinations/pairing_functions/symmetric_pairing.py
index c5197f4..331e0f2 100644
--- a/py-combinations/pairing_functions/symmetric_pairing.py
+++ b/py-combinations/pairing_functions/symmetric_pairing.py
@@ -49,7 +49,7 @@ def invert_symmetric_pair(my_sym_number, lowest_integer=0):
         The tuple/list that was mapped by the simplistic symmetric pairing function.
     """
     # compute intermediate quantities
-    _w = floor(0.5 * np.sqrt(8.0 * my_sym_number + 1.0) - 0.5)
+    _w = floor(0.5 * np.sqrt(8.0 * (my_sym_number - 1) + 1.0) - 0.5)
     _t = int(((_w * _w) + _w) / 2)
     # compute the paired integers
     reconstructed_tuple = (my_sym_number - _t, _w + 1)
-- 
2.43.0


From 5aceb624f1400cbba1f7b6f6ecf7621b0901c19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 26/49] fix: renormalise surface terms with the normalisation
 factors instead of the adiabatic flag

---
 aesolver/aesolver/solver/quadratic_solver.py              | 8 ++++----
 .../solver/solver_base_classes/quadratic_solver.py        | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/aesolver/aesolver/solver/quadratic_solver.py b/aesolver/aesolver/solver/quadratic_solver.py
index c59b88a..9f498fa 100644
--- a/aesolver/aesolver/solver/quadratic_solver.py
+++ b/aesolver/aesolver/solver/quadratic_solver.py
@@ -1043,7 +1043,7 @@ class QuadraticAESolver:
         # perform the normalization for Lag(L)/L
         _lag_rad_lum_norm = (
             _lag_rad_lum_gyre_surface
-            * self._coupling_info[radial_order_combo_nr][-3]
+            * self._coupling_info[radial_order_combo_nr][5]
         )
         # compute the radiative luminosity at the surface L_rad/L
         _rad_lum = np.array(
@@ -1071,7 +1071,7 @@ class QuadraticAESolver:
         )  # based on the adiabatic eigenfunction
         # renormalize
         self._xir_terms_norm = (
-            _xir_terms * self._coupling_info[radial_order_combo_nr][-3]
+            _xir_terms * self._coupling_info[radial_order_combo_nr][5]
         )
 
     # print mode information
@@ -1092,8 +1092,8 @@ class QuadraticAESolver:
         _log_lag_var = np.log10(self._lag_var_surf_lum)
         _q_factor_prod = np.sqrt(self._quality_factor_products[-1])
         _log_q_factor_prod = np.log10(_q_factor_prod)
-        _dimless_omega_a_cor = self._coupling_info[radial_order_combo_nr][-4][0]
-        _dimless_omega_a_in = self._coupling_info[radial_order_combo_nr][-4][1]
+        _dimless_omega_a_cor = self._coupling_info[radial_order_combo_nr][4][0]
+        _dimless_omega_a_in = self._coupling_info[radial_order_combo_nr][4][1]
         # compute the equilibrium amplitudes --> TODO: update this!!!
         coefficient_factor = _abs_eta * _q_factor_prod
         coefficient_factor = 1.0 / coefficient_factor
diff --git a/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py b/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
index f3a8aad..7b5dc2c 100644
--- a/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
+++ b/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
@@ -808,7 +808,7 @@ class QuadraticAESolver:
         # perform the normalization for Lag(L)/L
         _lag_rad_lum_norm = (
             _lag_rad_lum_gyre_surface
-            * self._coupling_info[radial_order_combo_nr][-3]
+            * self._coupling_info[radial_order_combo_nr][5]
         )
         # compute the radiative luminosity at the surface L_rad/L
         _rad_lum = np.array(
@@ -836,7 +836,7 @@ class QuadraticAESolver:
         )  # based on the adiabatic eigenfunction
         # renormalize
         self._xir_terms_norm = (
-            _xir_terms * self._coupling_info[radial_order_combo_nr][-3]
+            _xir_terms * self._coupling_info[radial_order_combo_nr][5]
         )
 
     # load 1 specific mode triad and compute the necessary details and  coupling coefficients (NOT THE COUPLING COEFFICIENT PROFILE)
-- 
2.43.0


From d5cbf5aee66a65bf133428ccc057d5e65499ecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 27/49] fix: store the result of the selection-rule validity
 check instead of the average under mode_statistics/wu

---
 aesolver/aesolver/data_handling/unpacker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/data_handling/unpacker.py b/aesolver/aesolver/data_handling/unpacker.py
index 75913de..0e808cc 100644
--- a/aesolver/aesolver/data_handling/unpacker.py
+++ b/aesolver/aesolver/data_handling/unpacker.py
@@ -334,7 +334,7 @@ class UnPacker:
         self._wu_rule = np.empty((self._nr_combos,), dtype=np.int64)
         # - unpack the data and store it
         for _i, _couple_stat in enumerate(self._coupling_stats):
-            self._wu_rule[_i] = _couple_stat[0]
+            self._wu_rule[_i] = _couple_stat[1]
 
     def _unpack_mode_information(self) -> None:
         """Method that unpacks the (GYRE) mode information: the quantum numbers."""
-- 
2.43.0


From ddcd7cd24311bfa9537023d77a6a148a4ae23b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:10 +0000
Subject: [PATCH 28/49] fix: insert the quantum numbers in front of the suffix
 of every result file name

---
 .../aesolver/data_handling/data_specific/hdf5_saver.py    | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
index 9ed1193..6caff7c 100644
--- a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
+++ b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
@@ -4,7 +4,6 @@ Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 """
 # import statements
 import logging
-import re
 import h5py as h5
 import numpy as np
 
@@ -81,10 +80,9 @@ class HDF5Saver:
         """Adjusts the file path to a name that incorporates quantum number information."""
         # construct the quantum number based string
         _qnr_string = f"_k_{'_'.join(self._unpacked_data._mode_k.astype(str))}_m_{'_'.join(self._unpacked_data._mode_m.astype(str))}"
-        # substitute this string into the file path name
-        self._file_path = re.sub(
-            r'(.*\/\w+)(\.\w+)', rf'\1{_qnr_string}\2', self._file_path
-        )
+        # insert this string in front of the suffix of the file path name
+        _path_stem, _dot, _suffix = self._file_path.rpartition('.')
+        self._file_path = f'{_path_stem}{_qnr_string}{_dot}{_suffix}'
 
     def _create_base_attribute(
         self,
-- 
2.43.0


From c1cdb3dcb38a06c41954c3c69b24c209e6b04f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:10 +0000
Subject: [PATCH 29/49] fix: store result files inside the requested
 subdirectory

---
 aesolver/aesolver/data_handling/storer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/data_handling/storer.py b/aesolver/aesolver/data_handling/storer.py
index 2b2eb94..5e2612b 100644
--- a/aesolver/aesolver/data_handling/storer.py
+++ b/aesolver/aesolver/data_handling/storer.py
@@ -202,7 +202,7 @@ class NumericalSaver:
         Path(f'{_sub_directory_name}').mkdir(parents=True, exist_ok=True)
         # -- store full path/name of file
         self._save_name = (
-            f'{_sub_directory_name}{save_name}.{self._save_suffix}'
+            f'{_sub_directory_name.rstrip("/")}/{save_name}.{self._save_suffix}'
         )
 
     def _read_data_from_solver(self) -> None:
-- 
2.43.0


From 91eada2357159daccc2dfed77d62a59d6d189177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:16 +0000
Subject: [PATCH 30/49] fix: read the dimensionless angular frequencies under
 the name of the quantity they hold

---
 aesolver/ae_analyzer/data_files/hdf5_data_path_mapper.py | 4 ++--
 aesolver/aeplotter/data_files/hdf5_data_path_mapper.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aesolver/ae_analyzer/data_files/hdf5_data_path_mapper.py b/aesolver/ae_analyzer/data_files/hdf5_data_path_mapper.py
index d6e3cb8..b51a2fe 100644
--- a/aesolver/ae_analyzer/data_files/hdf5_data_path_mapper.py
+++ b/aesolver/ae_analyzer/data_files/hdf5_data_path_mapper.py
@@ -27,7 +27,7 @@ if TYPE_CHECKING:
         corot_mode_freqs: tuple[str, str]
         inert_mode_omegas: tuple[str, str]
         inert_mode_freqs: tuple[str, str]
-        inert_dimless_mode_freqs: tuple[str, str]
+        inert_dimless_mode_omegas: tuple[str, str]
         kappa: tuple[str, str]
         kappa_norm: tuple[str, str]
         stationary_relative_luminosity_phase: tuple[str, str]
@@ -102,7 +102,7 @@ class HDF5MappingsArrays:
         'mode_frequency_info/inert_mode_freqs',
         '',
     )
-    inert_dimless_mode_freqs: tuple[str, str] = (
+    inert_dimless_mode_omegas: tuple[str, str] = (
         'mode_frequency_info/inert_dimless_mode_omegas',
         '',
     )
diff --git a/aesolver/aeplotter/data_files/hdf5_data_path_mapper.py b/aesolver/aeplotter/data_files/hdf5_data_path_mapper.py
index d6b5972..8a4d97a 100644
--- a/aesolver/aeplotter/data_files/hdf5_data_path_mapper.py
+++ b/aesolver/aeplotter/data_files/hdf5_data_path_mapper.py
@@ -29,7 +29,7 @@ if TYPE_CHECKING:
         corot_mode_freqs: tuple[str, str]
         inert_mode_omegas: tuple[str, str]
         inert_mode_freqs: tuple[str, str]
-        inert_dimless_mode_freqs: tuple[str, str]
+        inert_dimless_mode_omegas: tuple[str, str]
         kappa: tuple[str, str]
         kappa_norm: tuple[str, str]
         stationary_relative_luminosity_phase: tuple[str, str]
@@ -104,7 +104,7 @@ class HDF5MappingsArrays:
         'mode_frequency_info/inert_mode_freqs',
         '',
     )
-    inert_dimless_mode_freqs: tuple[str, str] = (
+    inert_dimless_mode_omegas: tuple[str, str] = (
         'mode_frequency_info/inert_dimless_mode_omegas',
         '',
     )
-- 
2.43.0


From 7acb81af5181e6e4a57934ce6faf440351cf712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:50 +0000
Subject: [PATCH 31/49] fix: keep dots in the name of the inlist that is read

---
 util-tools/generic_parser/generic_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util-tools/generic_parser/generic_parser.py b/util-tools/generic_parser/generic_parser.py
index 9b42a62..0209d1d 100644
--- a/util-tools/generic_parser/generic_parser.py
+++ b/util-tools/generic_parser/generic_parser.py
@@ -186,7 +186,7 @@ class GenericParser:
             _inlist_suffix = full_inlist_path.name.split('.')[-1]  # type: ignore
             # - get file name
             try:
-                _inlist_name = full_inlist_path.name.split('.')[0]  # type: ignore
+                _inlist_name = full_inlist_path.stem  # type: ignore
             except AttributeError:
                 my_exceptions.append(
                     TypeError(f'The inlist name {_common_error}')
-- 
2.43.0


From e5eb3fdfcef5fe7230da4864adb35379a05ca274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:50 +0000
Subject: [PATCH 32/49] fix: register the --save_file_name argument of solve
 runs

---
 aesolver/aerunners/solve_quadratic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aerunners/solve_quadratic.py b/aesolver/aerunners/solve_quadratic.py
index 5c5ab3b..6f221e5 100644
--- a/aesolver/aerunners/solve_quadratic.py
+++ b/aesolver/aerunners/solve_quadratic.py
@@ -63,7 +63,7 @@ class QuadraticSolveParser(GenericParser):
         )
 
     # overload the read_specific_arguments method
-    def _set_up_specific_argparser(self) -> None:
+    def _set_up_specific_argparser_groups_arguments(self) -> None:
         """Overloaded method used to set up a limited amount of parser groups and arguments.
         The majority of all solve run configuration items are passed through an inlist.
         """
-- 
2.43.0


From e2833966ad062c8848e3931a399226d1d71b4edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:50 +0000
Subject: [PATCH 33/49] fix: look for the inlists of analysis and plot runs in
 the AESolver directory, like solve runs do

---
 aesolver/aerunners/analyze_quadratic.py | 2 +-
 aesolver/aerunners/plot_quadratic.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aerunners/analyze_quadratic.py b/aesolver/aerunners/analyze_quadratic.py
index 52409c5..87b47f5 100644
--- a/aesolver/aerunners/analyze_quadratic.py
+++ b/aesolver/aerunners/analyze_quadratic.py
@@ -40,7 +40,7 @@ class QuadraticAnalysisParser(GenericParser):
         full_inlist_path=None,
     ) -> None:
         super().__init__(
-            base_directory_name='amplitude_equations_solver',
+            base_directory_name='AESolver',
             full_inlist_path=full_inlist_path,
             base_dir=None,
             inlist_name=None,
diff --git a/aesolver/aerunners/plot_quadratic.py b/aesolver/aerunners/plot_quadratic.py
index 64cd2ee..d16028f 100644
--- a/aesolver/aerunners/plot_quadratic.py
+++ b/aesolver/aerunners/plot_quadratic.py
@@ -46,7 +46,7 @@ class QuadraticPlotParser(GenericParser):
         full_inlist_path=None,
     ) -> None:
         super().__init__(
-            base_directory_name='amplitude_equations_solver',
+            base_directory_name='AESolver',
             full_inlist_path=full_inlist_path,
             base_dir=None,
             inlist_name=None,
-- 
2.43.0


From 97e4ee4670b713e06f75b92820fbb5b747763a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 34/49] fix: mirror frequencies in the third Nyquist zone into
 the observable range

---
 aesolver/aeplotter/quadratic_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aeplotter/quadratic_plotter.py b/aesolver/aeplotter/quadratic_plotter.py
index 33c61c9..85d9efb 100644
--- a/aesolver/aeplotter/quadratic_plotter.py
+++ b/aesolver/aeplotter/quadratic_plotter.py
@@ -761,7 +761,7 @@ class QuadraticAEPlotter:
                 & neg_mask
             )
             _dd['min_inertial_freq_stack'][three_mirror] = (
-                -3.0 * kepler_notional_nyquist
+                -2.0 * kepler_notional_nyquist
             ) - my_minimal_frequency[three_mirror]
             # --- 4 mirroring operations ---
             four_mirror = (
-- 
2.43.0


From adb1c801f8994f7db0429e08058475f836217ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 35/49] fix: isolation mask crashed for parents that take part
 in a single parametric triad

---
 aesolver/ae_analyzer/library_functions/masking.py | 4 ++++
 aesolver/aeplotter/library_functions/masking.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/aesolver/ae_analyzer/library_functions/masking.py b/aesolver/ae_analyzer/library_functions/masking.py
index 1a2b944..a1bd703 100644
--- a/aesolver/ae_analyzer/library_functions/masking.py
+++ b/aesolver/ae_analyzer/library_functions/masking.py
@@ -251,6 +251,10 @@ def compare_second_lowest_thresholds_with_lowest_threshold_equilibrium_amp(
         # get equilibrium and threshold amplitudes
         _eqs = eq_amps[_mask_parent]
         _threshs = threshs[_mask_parent]
+        # a parent that takes part in a single triad has no second smallest threshold amplitude
+        if _threshs.size < 2:
+            mask_arr[_mask_parent] = True
+            continue
         # determine the second smallest threshold amplitude
         _arg_part = np.argpartition(_threshs, 1)
         _second_lowest_thresh = _threshs[_arg_part[1]]
diff --git a/aesolver/aeplotter/library_functions/masking.py b/aesolver/aeplotter/library_functions/masking.py
index 6989083..6285a4b 100644
--- a/aesolver/aeplotter/library_functions/masking.py
+++ b/aesolver/aeplotter/library_functions/masking.py
@@ -251,6 +251,10 @@ def compare_second_lowest_thresholds_with_lowest_threshold_equilibrium_amp(
         # get equilibrium and threshold amplitudes
         _eqs = eq_amps[_mask_parent]
         _threshs = threshs[_mask_parent]
+        # a parent that takes part in a single triad has no second smallest threshold amplitude
+        if _threshs.size < 2:
+            mask_arr[_mask_parent] = True
+            continue
         # determine the second smallest threshold amplitude
         _arg_part = np.argpartition(_threshs, 1)
         _second_lowest_thresh = _threshs[_arg_part[1]]
-- 
2.43.0


From 55fa124e18d30b24f519fbefe986b7a987f1e6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 36/49] fix: harmonic triads were flagged as isolated if
 another triad of their modes has a lower threshold

---
 aesolver/ae_analyzer/library_functions/masking.py | 2 ++
 aesolver/aeplotter/library_functions/masking.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/aesolver/ae_analyzer/library_functions/masking.py b/aesolver/ae_analyzer/library_functions/masking.py
index a1bd703..fdfb29c 100644
--- a/aesolver/ae_analyzer/library_functions/masking.py
+++ b/aesolver/ae_analyzer/library_functions/masking.py
@@ -158,6 +158,8 @@ def _get_isolation_mask_lowest_thresh_amp(data_dict):
     )
     # look for mode triads that have the same surface threshold luminosities: THESE ARE ISOLATED MODE TRIADS (IF OTHER TRIADS HAVE HIGHER THRESHOLDS)!
     _all_same = _get_isolation_mask(lowest_thresholds=_lowest_thresh_surf)
+    # (this needs to be the threshold of the triad itself, and not that of another triad of the same modes, which can happen if the daughters are equal)
+    _all_same &= _valued_thresh <= _lowest_thresh_surf[:, 0]
     # get original-size mask
     og_size_mask = np.zeros_like(_is_valued_and_parametric, dtype=np.bool_)
     og_size_mask[_is_valued_and_parametric] = _all_same
diff --git a/aesolver/aeplotter/library_functions/masking.py b/aesolver/aeplotter/library_functions/masking.py
index 6285a4b..dc6db34 100644
--- a/aesolver/aeplotter/library_functions/masking.py
+++ b/aesolver/aeplotter/library_functions/masking.py
@@ -158,6 +158,8 @@ def _get_isolation_mask_lowest_thresh_amp(data_dict):
     )
     # look for mode triads that have the same surface threshold luminosities: THESE ARE ISOLATED MODE TRIADS (IF OTHER TRIADS HAVE HIGHER THRESHOLDS)!
     _all_same = _get_isolation_mask(lowest_thresholds=_lowest_thresh_surf)
+    # (this needs to be the threshold of the triad itself, and not that of another triad of the same modes, which can happen if the daughters are equal)
+    _all_same &= _valued_thresh <= _lowest_thresh_surf[:, 0]
     # get original-size mask
     og_size_mask = np.zeros_like(_is_valued_and_parametric, dtype=np.bool_)
     og_size_mask[_is_valued_and_parametric] = _all_same
-- 
2.43.0


From 526028fd546724588c8c49a983b8c26478944b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:57 +0000
Subject: [PATCH 37/49] fix: accept profiles for which the TAR is valid at
 every point

---
 aesolver/aesolver/solver/quadratic_profile.py | 9 ++++++++-
 aesolver/aesolver/solver/quadratic_solver.py  | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/solver/quadratic_profile.py b/aesolver/aesolver/solver/quadratic_profile.py
index 6f1f877..a9b492a 100644
--- a/aesolver/aesolver/solver/quadratic_profile.py
+++ b/aesolver/aesolver/solver/quadratic_profile.py
@@ -162,11 +162,18 @@ class QuadraticAEProfileSolver(QuadraticAESolver):
             (tar_valid[:-1] > tar_valid[1:]).nonzero()[0]
         ).tolist()
         # get separate masks for zones in which the TAR holds due to frequency hierarchy of the individual modes (in the co-rotating frame) and Coriolis frequency
-        # - NO TAR VALID ZONES
+        # - NOT ON THE SLOW MANIFOLD
         if not slow_manifold_check:
             raise PhysicsError(
                 msg='The modes in the triad are not on the slow manifold (i.e. the absolute values of their quality factors = co-rotating angular mode frequencies / linear driving or damping rates are not all greater than 10.0). This triad cannot be described using amplitude equations!'
             )
+        # - TAR VALID EVERYWHERE
+        elif tar_valid.all():
+            validity_zone_masks = [np.s_[:]]
+            non_validity_indices = [(0, 0)]
+            non_validity_zone_masks = [np.s_[:0]]
+            fully_invalid = False
+        # - NO TAR VALID ZONES
         elif ((start_len := len(_mask_start_validity)) == 0) & (
             (end_len := len(_mask_end_validity)) == 0
         ):
diff --git a/aesolver/aesolver/solver/quadratic_solver.py b/aesolver/aesolver/solver/quadratic_solver.py
index 9f498fa..fbb3d5f 100644
--- a/aesolver/aesolver/solver/quadratic_solver.py
+++ b/aesolver/aesolver/solver/quadratic_solver.py
@@ -1298,11 +1298,18 @@ class QuadraticAESolver:
             (tar_valid[:-1] > tar_valid[1:]).nonzero()[0]
         ).tolist()
         # get separate masks for zones in which the TAR holds due to frequency hierarchy of the individual modes (in the co-rotating frame) and Coriolis frequency
-        # - NO TAR VALID ZONES
+        # - NOT ON THE SLOW MANIFOLD
         if not slow_manifold_check:
             raise PhysicsError(
                 msg='The modes in the triad are not on the slow manifold (i.e. the absolute values of their quality factors = co-rotating angular mode frequencies / linear driving or damping rates are not all greater than 10.0). This triad cannot be described using amplitude equations!'
             )
+        # - TAR VALID EVERYWHERE
+        elif tar_valid.all():
+            validity_zone_masks = [np.s_[:]]
+            non_validity_indices = [(0, 0)]
+            non_validity_zone_masks = [np.s_[:0]]
+            fully_invalid = False
+        # - NO TAR VALID ZONES
         elif ((start_len := len(_mask_start_validity)) == 0) & (
             (end_len := len(_mask_end_validity)) == 0
         ):
-- 
2.43.0


From a94ba7303f889bf151fad802435d275d6cb5b2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:22 +0000
Subject: [PATCH 38/49] fix: align adjustments with TAR-valid zones that start
 at the first point

---
 .../plot_template.py                          | 33 +++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py b/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py
index c8d8920..76856a4 100644
--- a/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py
+++ b/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py
@@ -55,6 +55,29 @@ def get_contribution_due_to_convective_zone(
     return end_value - start_value
 
 
+def get_validity_zone_adjustments(
+    zone_indices: list[tuple[int, int]], summed_contributions: np.ndarray
+) -> list[float]:
+    """Computes the values that need to be subtracted from the radial profile in each of the TAR-valid zones.
+
+    Parameters
+    ----------
+    zone_indices : list[tuple[int, int]]
+        The indices of the zones that are not TAR-valid.
+    summed_contributions : np.ndarray
+        The cumulative sums of the contributions due to the zones that are not TAR-valid.
+
+    Returns
+    -------
+    list[float]
+        The adjustment value for each of the TAR-valid zones.
+    """
+    # nothing precedes the first TAR-valid zone if that zone starts at the first point
+    if zone_indices[0][0] == 0:
+        return [*summed_contributions]
+    return [0.0, *summed_contributions]
+
+
 # single profile figure template function
 def single_integrated_radial_profile_figure_template_function(
     fractional_radius: np.ndarray,
@@ -270,7 +293,10 @@ def double_masking_integrated_radial_profile_figure_template_function(
                 y_ax_data, _adjusted_tar_profile, _summed_contributions
             ):
                 for _adjustment_value, _valid_mask in zip(
-                    _summed_contrib, validity_zone_masks
+                    get_validity_zone_adjustments(
+                        convection_zone_selection_indices, _summed_contrib
+                    ),
+                    validity_zone_masks,
                 ):
                     _adj_tar[_valid_mask] = (
                         _y_ax[_valid_mask] - _adjustment_value
@@ -367,7 +393,10 @@ def double_masking_integrated_radial_profile_figure_template_function(
                 else:
                     _adjusted_tar_profile[_convection_mask] = _conv
             for _adjustment_value, _valid_mask in zip(
-                _summed_contributions, validity_zone_masks
+                get_validity_zone_adjustments(
+                    convection_zone_selection_indices, _summed_contributions
+                ),
+                validity_zone_masks,
             ):
                 _adjusted_tar_profile[_valid_mask] = (
                     y_ax_data[_valid_mask] - _adjustment_value
-- 
2.43.0


From f20be11eff70bec0c87a27d721e30369efa036a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:11 +0000
Subject: [PATCH 39/49] fix: scale amplitudes with the magnitude of the
 adjusted coupling coefficient

---
 .../coupling_coefficient_print_functions.py                   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_print_functions/coupling_coefficient_print_functions.py b/aesolver/aesolver/solver/profile_print_functions/coupling_coefficient_print_functions.py
index 4a46f07..17052f5 100644
--- a/aesolver/aesolver/solver/profile_print_functions/coupling_coefficient_print_functions.py
+++ b/aesolver/aesolver/solver/profile_print_functions/coupling_coefficient_print_functions.py
@@ -23,8 +23,8 @@ def print_normed_cc_and_get_adjust_ratio(cc_val: float | np.float64, adjusted_cc
     print(
         f'Normed coupling coefficient eta: {cc_val}, after adjustment for TAR validity: {adjusted_cc_val}'
     )
-    # compute and return the adjustment ratio
-    return adjusted_cc_val / cc_val
+    # compute and return the adjustment ratio (amplitudes scale with the absolute value of eta)
+    return np.abs(adjusted_cc_val / cc_val)
 
 
 def print_theoretical_amplitudes(
-- 
2.43.0


From 21e28dd63f80016c6c33361afa6719f9c313ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:12 +0000
Subject: [PATCH 40/49] fix: apply the scaling factors of angular kernels
 in-place

---
 .../angular_kernels/angular_kernel_helper.py        | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
index e5d91f9..87bf741 100644
--- a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
+++ b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
@@ -193,17 +193,14 @@ class AngularKernelData:
         """
         match (mul_with_mu, div_by_sin):
             case (False, False):
-                my_kernel = my_kernel * multiplying_factor
+                my_kernel *= multiplying_factor
             case (True, False):
-                my_kernel = my_kernel * multiplying_factor * self._mu_vals
+                my_kernel *= multiplying_factor * self._mu_vals
             case (False, True):
-                my_kernel = (
-                    my_kernel * multiplying_factor * self._div_by_sin_scaling
-                )
+                my_kernel *= multiplying_factor * self._div_by_sin_scaling
             case (True, True):
-                my_kernel = (
-                    my_kernel
-                    * multiplying_factor
+                my_kernel *= (
+                    multiplying_factor
                     * self._mu_vals
                     * self._div_by_sin_scaling
                 )
-- 
2.43.0


From f5f8e431cf12e9b1d320d91e6cbc967d7f8dc9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:26 +0000
Subject: [PATCH 41/49] fix: squared-stretch angular kernels of the third
 contribution carry no inverse sine

---
 .../angular_kernels/angular_kernel_helper.py                  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
index 87bf741..dca9f38 100644
--- a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
+++ b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
@@ -466,7 +466,7 @@ class AngularKernelData:
         self.angular_kernel_terms['term_18'] = self._load_angular_kernel_term(
             symmetrized_term_list=['hr', 'phi_phi', 'phi_phi'],
             mul_with_mu=False,
-            div_by_sin=True,
+            div_by_sin=False,
         )
         self.angular_kernel_terms['term_19'] = self._load_angular_kernel_term(
             symmetrized_term_list=[
@@ -475,7 +475,7 @@ class AngularKernelData:
                 'theta_der_ht_theta',
             ],
             mul_with_mu=False,
-            div_by_sin=True,
+            div_by_sin=False,
         )
         self.angular_kernel_terms['term_20'] = self._load_angular_kernel_term(
             symmetrized_term_list=['hr', 'hr', 'theta_der_ht_theta'],
-- 
2.43.0


From ea8ce66be3b9966fadd3fb2a89abb8015c12f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:26 +0000
Subject: [PATCH 42/49] fix: name the single-term angular kernel figure after
 angular kernels

---
 .../profile_plot_classes/kernel_plots/angular_kernel_plots.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/solver/profile_plot_classes/kernel_plots/angular_kernel_plots.py b/aesolver/aesolver/solver/profile_plot_classes/kernel_plots/angular_kernel_plots.py
index 0047a9d..0549de6 100644
--- a/aesolver/aesolver/solver/profile_plot_classes/kernel_plots/angular_kernel_plots.py
+++ b/aesolver/aesolver/solver/profile_plot_classes/kernel_plots/angular_kernel_plots.py
@@ -137,7 +137,7 @@ def _create_single_figure_angular_contribution(
         fig=fig_ax_gs_list[0]['fig'],
         ax=axes_list[0],
         gs=fig_ax_gs_list[0]['gs'],
-        save_name=f'{angular_kernel_path}/cc_contribution_{ylabel_number}_radial_kernels{model_name_part}.png',
+        save_name=f'{angular_kernel_path}/cc_contribution_{ylabel_number}_angular_kernels{model_name_part}.png',
         save_format='png',
         plot_legend=False,
         leftmost_x_ticks=[-1.0, 0.0, 1.0],
-- 
2.43.0


From 585ca7d6d56a468fc421c58adee8d7ec0dd66b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:12 +0000
Subject: [PATCH 43/49] fix: close the error message that kept the GYRE
 eigenvalue module from being imported

---
 gyre-tools/lam_tar_gyre/lam_tar_gyre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
index 3551f9f..ec90460 100644
--- a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
+++ b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
@@ -86,7 +86,7 @@ class GyreLambdas:
                 sys.exit()
         else:
             logger.error(
-                f"The provided 'base_gyre_dir' ({base_gyre_dir}) was not provided in a suitable way.'
+                f"The provided 'base_gyre_dir' ({base_gyre_dir}) was not provided in a suitable way."
             )
             sys.exit()
 
-- 
2.43.0


From 9000e94d83b6b725ba79998fdda98b3bb6439aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:12 +0000
Subject: [PATCH 44/49] fix: name the GYRE tables of negative orders with a
 single sign

---
 gyre-tools/lam_tar_gyre/lam_tar_gyre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
index ec90460..9d15d6b 100644
--- a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
+++ b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
@@ -106,7 +106,7 @@ class GyreLambdas:
         str
             The string representing the sign of the input number.
         """
-        return f'+{number}' if (number >= 0) else f'-{number}'
+        return f'+{number}' if (number >= 0) else f'{number}'
 
     @staticmethod
     def get_k(degree, azimuthal):
-- 
2.43.0


From b1bb0d39ab82c0413be1d84c7cec09e5a850570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:09 +0000
Subject: [PATCH 45/49] fix: the data files of the analysis export only names
 they have

---
 aesolver/ae_analyzer/data_files/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aesolver/ae_analyzer/data_files/__init__.py b/aesolver/ae_analyzer/data_files/__init__.py
index 332ac26..25c2068 100644
--- a/aesolver/ae_analyzer/data_files/__init__.py
+++ b/aesolver/ae_analyzer/data_files/__init__.py
@@ -10,6 +10,5 @@ __version__ = '1.0.0'
 __all__ = [
     'HDF5MappingsAttributes',
     'HDF5MappingsArrays',
-    'OverviewPlotOptions',
 ]
 __author__ = 'Jordan Van Beeck'
-- 
2.43.0


From aa9b2ef4cb00a4342e2d8bac9cd80024142945da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:41 +0000
Subject: [PATCH 46/49] fix: a comparison figure with the wrong number of
 labels reports it

---
 aesolver/aesolver/ad_nad_comparer/plotting/gyre_plotter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/ad_nad_comparer/plotting/gyre_plotter.py b/aesolver/aesolver/ad_nad_comparer/plotting/gyre_plotter.py
index e0a1f05..27eba84 100644
--- a/aesolver/aesolver/ad_nad_comparer/plotting/gyre_plotter.py
+++ b/aesolver/aesolver/ad_nad_comparer/plotting/gyre_plotter.py
@@ -208,9 +208,8 @@ class AdNadComparisonGYREPlotter(SanCP):
             isinstance(real_quantity_y, list)
             or isinstance(real_quantity_y, tuple)
         ):
-            if (length_labels := len(y_label)) == 2 and (
-                length_reals := len(real_quantity_y) == 2
-            ):
+            length_labels, length_reals = len(y_label), len(real_quantity_y)
+            if length_labels == 2 and length_reals == 2:
                 # create the figure containing the double axes object
                 _fig, (_ax1, _ax2) = plt.subplots(
                     nrows=2, ncols=1, sharex=True, dpi=200
-- 
2.43.0


From fe5c4a53cc40080a9cf6a2fd45bb9c0c45d714b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:59 +0000
Subject: [PATCH 47/49] fix: custom inlist lists and tuples keep their
 elements' types, negative exponents are numbers

---
 util-tools/inlist_handler/inlist_handler.py | 39 +++++++--------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/util-tools/inlist_handler/inlist_handler.py b/util-tools/inlist_handler/inlist_handler.py
index acd0be6..9e1e626 100644
--- a/util-tools/inlist_handler/inlist_handler.py
+++ b/util-tools/inlist_handler/inlist_handler.py
@@ -68,12 +68,6 @@ class InlistHandler:
     bool_false_check = partialmethod(
         _multi_check_method, check_values=['False', 'FALSE'], any_check=True
     )
-    list_check = partialmethod(
-        _multi_check_method, check_values=['[', ']'], all_check=True
-    )
-    tuple_check = partialmethod(
-        _multi_check_method, check_values=['(', ')'], all_check=True
-    )
     none_check = partialmethod(
         _multi_check_method, check_values=['None'], all_check=True
     )
@@ -84,7 +78,7 @@ class InlistHandler:
     # define and compile the regular expression used to select the defaults inlist
     compiled_regex_defaults = re.compile(r'(.*)\/.*\/(.*)\..*')
     # define and compile the regular expression used to parse floats
-    compiled_float_regex = re.compile(r'\d+[eE]-*\d+')
+    compiled_float_regex = re.compile(r'-?\d+[eE]-*\d+')
 
     @classmethod
     def _typer(cls, value_string):
@@ -100,18 +94,19 @@ class InlistHandler:
         typed_value : Any
             The value_string converted to the appropriate type.
         """
+        # check for a list or a tuple input first: its elements
+        # can be strings, booleans, None or numbers themselves
+        if value_string.startswith(('[', '(')):
+            logger.debug(f'{value_string} is considered a list or a tuple.')
+            typed_value = ast.literal_eval(value_string)
         # check for common symbols that indicate the presence of string input
-        if cls.__dict__['string_check'].__get__(cls)(value_string):
-            if cls.__dict__['list_check'].__get__(cls)(value_string):
-                logger.debug(f'{value_string} is considered a list of strings.')
-                typed_value = ast.literal_eval(value_string)
-            else:
-                _de_quoted_string = value_string.strip('"').strip("'")
-                logger.debug(
-                    f'{value_string} is considered a string, so is replaced '
-                    f'with {_de_quoted_string}.'
-                )
-                typed_value = str(_de_quoted_string)
+        elif cls.__dict__['string_check'].__get__(cls)(value_string):
+            _de_quoted_string = value_string.strip('"').strip("'")
+            logger.debug(
+                f'{value_string} is considered a string, so is replaced '
+                f'with {_de_quoted_string}.'
+            )
+            typed_value = str(_de_quoted_string)
         # check for input that is reminiscent of a boolean value
         elif cls.__dict__['bool_check'].__get__(cls)(value_string):
             logger.debug(f'{value_string} is considered a boolean.')
@@ -123,14 +118,6 @@ class InlistHandler:
         elif cls.__dict__['none_check'].__get__(cls)(value_string):
             logger.debug(f'{value_string} is considered a boolean.')
             typed_value = None
-        # check for a list input
-        elif cls.__dict__['list_check'].__get__(cls)(value_string):
-            logger.debug(f'{value_string} is considered a list.')
-            typed_value = ast.literal_eval(value_string)
-        # check for a tuple input
-        elif cls.__dict__['tuple_check'].__get__(cls)(value_string):
-            logger.debug(f'{value_string} is considered a tuple.')
-            typed_value = ast.literal_eval(value_string)
         # check for a decimal point in the input
         elif cls.__dict__['float_check'].__get__(cls)(value_string) or (
             cls.compiled_float_regex.match(value_string)
-- 
2.43.0


From adde18db593ca526bc0878086d2eb0307ddce16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:53 +0000
Subject: [PATCH 48/49] fix: report normalized structure profiles in the debug
 record

---
 .../super_coupling_coefficients.py                 | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index cf633da..04a0141 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -618,8 +618,18 @@ class SuperCouplingCoefficient:
         )
         # try to add attributes
         try:
-            # get the value of the attribute
-            _my_attr_val = getattr(self, my_attr)
+            # get the value of the attribute: normalized structure profiles
+            # are stored under their own names (Hough functions are not)
+            _norm_attr = {
+                '_p_profile': '_P_normed',
+                '_rho_profile': '_rho_normed',
+            }.get(my_attr, f'{my_attr}_normed')
+            _my_attr_val = getattr(
+                self,
+                _norm_attr
+                if (normed and hasattr(self, _norm_attr))
+                else my_attr,
+            )
             # set the attribute to a specific value (numpy array)
             setattr(
                 self,
-- 
2.43.0


From e14f592ece04f006f553499c11ee4792a70e9273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:25 +0000
Subject: [PATCH 49/49] fix: state the defaults that take effect in the
 documentation

---
 aesolver/aesolver/ad_nad_comparer/plotting/gyre_plotter.py    | 2 +-
 .../aesolver/pre_checks/generic/generic_quadratic_checks.py   | 2 +-
 aesolver/aesolver/solver/quadratic_profile.py                 | 4 ++--
 aesolver/aesolver/solver/quadratic_solver.py                  | 4 ++--
 gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py                 | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/aesolver/aesolver/ad_nad_comparer/plotting/gyre_plotter.py b/aesolver/aesolver/ad_nad_comparer/plotting/gyre_plotter.py
index 27eba84..9fca997 100644
--- a/aesolver/aesolver/ad_nad_comparer/plotting/gyre_plotter.py
+++ b/aesolver/aesolver/ad_nad_comparer/plotting/gyre_plotter.py
@@ -191,7 +191,7 @@ class AdNadComparisonGYREPlotter(SanCP):
         real_quantity_x : bool or None, optional
             Real (TRUE) or imaginary (FALSE) part of quantity to be displayed on the x-axis, or just its value (NONE); by default None.
         real_quantity_y : bool or None, optional
-            Real (TRUE) or imaginary (FALSE) part of quantity to be displayed on the y-axis, or just its value (NONE); by default None.
+            Real (TRUE) or imaginary (FALSE) part of quantity to be displayed on the y-axis, or just its value (NONE); by default True.
         x_label : str, optional
             Label for the x-axis. Default: r'r / R$_*$'.
         y_label : str or list[str], optional
diff --git a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
index b739374..075a2ef 100644
--- a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
+++ b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
@@ -34,7 +34,7 @@ class PreCheckQuadratic:
     conjugation : list[tuple[bool, bool, bool]] | None, optional
         Denotes which of the modes are complex-conjugated in the integrals over the volume implied by the inner product of modes, that is, which of the modes :math: `\neq 1` that are complex conjugated (i.e. barred index), and whether mode 1 is barred in the symbol for the coupling coefficient. NOTE: This differs from the frequency handler implementation!
     all_fulfilled : bool, optional
-        Determines whether one should check whether all conditions are OK for the generic check (if True), or whether conditions are handled on a case-by-case basis, by default False.
+        Determines whether one should check whether all conditions are OK for the generic check (if True), or whether conditions are handled on a case-by-case basis; by default True.
     """
 
     # attribute type declarations
diff --git a/aesolver/aesolver/solver/quadratic_profile.py b/aesolver/aesolver/solver/quadratic_profile.py
index a9b492a..7e11bfb 100644
--- a/aesolver/aesolver/solver/quadratic_profile.py
+++ b/aesolver/aesolver/solver/quadratic_profile.py
@@ -60,9 +60,9 @@ class QuadraticAEProfileSolver(QuadraticAESolver):
     Parameters
     ----------
     view_kernels : bool, optional
-        If True, view the radial and angular term contributions of each of the four individual terms to the coupling coefficient. If False, do not show term contribution; by default False.
+        If True, view the radial and angular term contributions of each of the four individual terms to the coupling coefficient. If False, do not show term contribution; by default True.
     view_term_by_term : bool, optional
-        If True, view radial kernels of each of the four individual terms of the coupling coefficient. If False, do not show these radial kernels; by default False.
+        If True, view radial kernels of each of the four individual terms of the coupling coefficient. If False, do not show these radial kernels; by default True.
     """
     
     # attribute type declarations
diff --git a/aesolver/aesolver/solver/quadratic_solver.py b/aesolver/aesolver/solver/quadratic_solver.py
index fbb3d5f..510f0fd 100644
--- a/aesolver/aesolver/solver/quadratic_solver.py
+++ b/aesolver/aesolver/solver/quadratic_solver.py
@@ -1470,9 +1470,9 @@ class QuadraticAESolver:
             The index number of the set of different combinations of
             radial orders; by default 0.
         view_kernels : bool, optional
-            If True, view the radial and angular term contributions of each of the four individual terms to the coupling coefficient. If False, do not show term contribution; by default False.
+            If True, view the radial and angular term contributions of each of the four individual terms to the coupling coefficient. If False, do not show term contribution; by default True.
         view_term_by_term : bool, optional
-            If True, view radial kernels of each of the four individual terms of the coupling coefficient. If False, do not show these radial kernels; by default False.
+            If True, view radial kernels of each of the four individual terms of the coupling coefficient. If False, do not show these radial kernels; by default True.
         """
         if typing.TYPE_CHECKING:
             assert self._coupler
diff --git a/gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py b/gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py
index d52b4b0..1b4bd8c 100644
--- a/gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py
+++ b/gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py
@@ -34,7 +34,7 @@ class GYREEigenFunctionNormalizer:
     Parameters
     ----------
     norm_convention : str, optional
-        The string that denotes the normalization convention. NOTE: Only 'lee_2012' and 'schenk_2002' are supported; by default 'lee_2012'.
+        The string that denotes the normalization convention. NOTE: Only 'lee2012' and 'schenk_2002' are supported; by default 'lee2012'.
     my_obj : QuadraticCouplingCoefficientRotating or None, optional
         The object holding the eigenfunctions; by default None (no object used).
     nr_modes : int, optional
-- 
2.43.0

