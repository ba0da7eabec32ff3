From 38c2c3610cbdb18c2cb1bea6327ef020bf9bcf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:28 +0000
Subject: [PATCH 01/38] fix: keep the survey date and defaults when the
 magnetic field lookup fails

A failed lookup replaced the caller's survey_date with today's date, an
incomplete answer made the header (or get_factors_from_x_y) fail or hold None,
and a bare except swallowed KeyboardInterrupt.
---
 welleng/survey.py | 74 +++++++++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 454a7f1..116132d 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -48,6 +48,34 @@ from numpy.typing import NDArray, ArrayLike
 AZI_REF = ["true", "magnetic", "grid"]
 
 
+def _get_magnetic_field(latitude, longitude, altitude, date):
+    """
+    Look up the magnetic field with the online calculator.
+
+    Returns
+    -------
+    result: dict or None
+        The calculator's result, or None if there's no calculator, no
+        connection or if the answer is incomplete.
+    """
+    if not MAG_CALC:
+        return None
+    try:
+        result = MagneticFieldCalculator().calculate(
+            latitude=latitude, longitude=longitude, altitude=altitude,
+            date=date
+        )
+        for key in ('total-intensity', 'inclination', 'declination'):
+            field = result['field-value'][key]
+            if not (math.isfinite(field['value']) and field['units']):
+                return None
+    except Exception:  # prevents crashing if there's no connection to the internet - need to have a log that captures when this occurs.
+        # TODO: log when no internet connection prvents updating the result var
+        return None
+
+    return result
+
+
 class SurveyParameters(Proj):
     """Class for calculating survey parameters for input to a Survey Header.
 
@@ -175,18 +203,9 @@ class SurveyParameters(Proj):
             datetime.today().strftime('%Y-%m-%d') if date is None
             else date
         )
-        if MAG_CALC:
-            magnetic_calculator = MagneticFieldCalculator()
-            try:
-                result_magnetic = magnetic_calculator.calculate(
-                    latitude=latitude, longitude=longitude,
-                    altitude=0 if altitude is None else altitude,
-                    date=date
-                )
-            except Exception:
-                result_magnetic = None
-        else:
-            result_magnetic = None
+        result_magnetic = _get_magnetic_field(
+            latitude, longitude, 0 if altitude is None else altitude, date
+        )
 
         data = dict(
             x=x,
@@ -416,26 +435,17 @@ class SurveyHeader:
             }
         }
 
-        if MAG_CALC:
-            calculator = MagneticFieldCalculator()
-            try:
-                result = calculator.calculate(
-                    latitude=self.latitude,
-                    longitude=self.longitude,
-                    altitude=self.altitude,
-                    date=self.survey_date
-                )
-            except:
-                try:
-                    result = calculator.calculate(
-                        latitude=self.latitude,
-                        longitude=self.longitude,
-                        altitude=self.altitude,
-                        date=self._get_date(date=None)
-                    )
-                except:  # prevents crashing if there's no connection to the internet - need to have a log that captures when this occurs.
-                    # TODO: log when no internet connection prvents updating the result var
-                    pass
+        # The service rejects dates outside the validity of its model, in which
+        # case the current field is used (the survey date is left as is).
+        for date in (
+            self.survey_date, datetime.today().strftime('%Y-%m-%d')
+        ):
+            answer = _get_magnetic_field(
+                self.latitude, self.longitude, self.altitude, date
+            )
+            if answer is not None:
+                result = answer
+                break
 
         if self.b_total is None:
             self.b_total = result['field-value']['total-intensity']['value']
-- 
2.43.0


From b4acab3c6ede5f7c408dac54cea992bf4f86c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 02/38] fix: keep a survey's header when deriving surveys with
 grid azimuths

---
 welleng/clearance.py    | 12 +++++++-----
 welleng/exchange/wbp.py |  4 ++--
 welleng/survey.py       | 35 ++++++++++++++++++++++++++++-------
 welleng/torque_drag.py  |  5 ++---
 4 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 8de993c..9262a05 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -14,7 +14,10 @@ from scipy.spatial import KDTree
 from scipy.spatial.distance import cdist
 
 from .mesh import WellMesh, to_trimesh
-from .survey import Survey, _interpolate_survey, _interpolate_pos_nev, slice_survey
+from .survey import (
+    Survey, _interpolate_survey, _interpolate_pos_nev, get_grid_header,
+    slice_survey
+)
 from .utils import NEV_to_HLA
 
 
@@ -197,7 +200,7 @@ class Clearance:
                 tvd=self.reference.tvd[self.kop_index:],
                 vec=self.reference.vec_nev[self.kop_index:],
                 radius=self.reference.radius[self.kop_index:],
-                header=self.reference.header,
+                header=get_grid_header(self.reference.header),
                 cov_nev=cov_nev,
                 cov_hla=cov_hla,
                 error_model=None,
@@ -531,8 +534,7 @@ class IscwsaClearance(Clearance):
 
                 node = self.ref.interpolate_md(md)
 
-                sh = self.ref.header
-                sh.azi_reference = 'grid'
+                sh = get_grid_header(self.ref.header)
 
                 survey = Survey(
                     md=np.insert(
@@ -700,7 +702,7 @@ class IscwsaClearance(Clearance):
             n=n,
             e=e,
             tvd=tvd,
-            header=self.offset.header,
+            header=get_grid_header(self.offset.header),
             error_model=None,
             cov_hla=cov_hla,
             cov_nev=cov_nev,
diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 0a781e4..1ea4689 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -4,6 +4,7 @@ from ..survey import (
     TurnPoint,
     Survey,
     SurveyHeader,
+    get_grid_header,
     get_sections,
     from_connections,
 )
@@ -779,8 +780,7 @@ def strip_duplicates(survey):
         else:
             temp.append(s)
 
-    sh = survey.header
-    sh.azi_reference = 'grid'
+    sh = get_grid_header(survey.header)
 
     md, inc, azi, radius = np.array(temp).reshape(-1, 4).T
 
diff --git a/welleng/survey.py b/welleng/survey.py
index 116132d..b3e631b 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1507,8 +1507,7 @@ class Survey:
         survey_new[-1] = self.survey_deg[-1]
 
         # Update the new survey header as the new azimuth reference is 'grid'.
-        sh = self.header
-        sh.azi_reference = 'grid'
+        sh = get_grid_header(self.header)
 
         # Create a new Survey instance
         survey = Survey(
@@ -1899,8 +1898,7 @@ def _interpolate_survey(survey, x=0, index=0):
         )
     ).reshape(3, 3)
 
-    sh = survey.header
-    sh.azi_reference = 'grid'
+    sh = get_grid_header(survey.header)
 
     s = Survey(
         md=np.array(
@@ -2113,7 +2111,7 @@ def slice_survey(survey: Survey, start: int, stop: int = None):
         n=n,
         e=e,
         tvd=tvd,
-        header=survey.header,
+        header=get_grid_header(survey.header),
         radius=survey.radius[start:stop],
         cov_hla=cov_hla,
         cov_nev=cov_nev,
@@ -2397,6 +2395,29 @@ def get_unit(unit):
         return None
 
 
+def get_grid_header(header):
+    """
+    Make a copy of a survey header that references azimuths to grid north.
+
+    Surveys derived from the calculated (grid) azimuths of another survey need
+    a header that says so, but the header of that other survey (which may be
+    shared by many surveys) should not be changed.
+
+    Parameters
+    ----------
+    header: SurveyHeader object
+
+    Returns
+    -------
+    header: SurveyHeader object
+        A copy of the header with "grid" as the azimuth reference.
+    """
+    header = copy(header)
+    header.azi_reference = 'grid'
+
+    return header
+
+
 def make_survey_header(data):
     """
     Takes a dictionary of survey header data with the same keys as the
@@ -2921,7 +2942,7 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
         azi=azi,
         interpolated=interpolated,
         deg=False,
-        header=survey.header
+        header=get_grid_header(survey.header)
     )
 
     return s_interp
@@ -3068,7 +3089,7 @@ def project_to_target(
     survey_to_target = from_connections(
         connectors,
         step=step,
-        survey_header=survey.header,
+        survey_header=get_grid_header(survey.header),
         start_cov_nev=cov_nev,
         radius=survey.radius[-1], deg=False, error_model=survey.error_model,
         depth_unit=survey.header.depth_unit,
diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 6524a19..7b3c29e 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -10,7 +10,7 @@ try:
 except ImportError:
     PLOTLY = False
 
-from .survey import interpolate_md, Survey
+from .survey import get_grid_header, interpolate_md, Survey
 from .units import ureg
 
 
@@ -136,8 +136,7 @@ class TorqueDrag:
 
         md, inc, azi = zip(*sorted(zip(md, inc, azi)))
 
-        sh = self.survey_original.header
-        sh.azi_reference = 'grid'
+        sh = get_grid_header(self.survey_original.header)
 
         self.survey = Survey(
             md=md, inc=inc, azi=azi, header=sh, deg=False
-- 
2.43.0


From 981fe30ffa419a8b40ead382b9c06023c86f5d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 03/38] fix: leave azimuths and shared headers alone when
 setting a vertical section

---
 welleng/survey.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index b3e631b..c871ed3 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1317,7 +1317,7 @@ class Survey:
         azi_temp = getattr(
             self,
             f"azi_{self.azi_ref_lookup[self.header.azi_reference]}_rad"
-        )
+        ).copy()
         azi_temp[np.where(self.inc_rad == 0.0)] = (
             vertical_section_azimuth
         )
@@ -1346,7 +1346,12 @@ class Survey:
             Indicates whether the vertical section azimuth parameter is in
             degrees or radians (True or False respectively).
         """
-        self.header.vertical_section_azimuth = vertical_section_azimuth
+        # The header may be shared with other surveys, so update a copy of it.
+        self.header = copy(self.header)
+        self.header.vertical_section_azimuth = (
+            vertical_section_azimuth if not deg
+            else math.radians(vertical_section_azimuth)
+        )
         self.vertical_section = self.get_vertical_section(
             vertical_section_azimuth, deg
         )
-- 
2.43.0


From 09d363083f46eb6296e8e06bd3377d95f33e4d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 04/38] fix: do not add the start covariance to the caller's
 array

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index c871ed3..f409032 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -980,7 +980,7 @@ class Survey:
             self.start_cov_nev is not None
             and self.cov_nev is not None
         ):
-            self.cov_nev += self.start_cov_nev
+            self.cov_nev = self.cov_nev + self.start_cov_nev
             self.cov_hla = NEV_to_HLA(self.survey_rad, self.cov_nev)
 
     def _curvature_to_rate(self, curvature):
-- 
2.43.0


From 33ca33405bd6f4f69076b9b2f7e4fbbc3aa288a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 05/38] fix: support the magnetic azimuth reference in CNA and
 when splicing surveys

---
 welleng/errors/tool_errors.py | 12 ++++++++----
 welleng/survey.py             |  4 ++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index ea036c2..55b3a22 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -935,17 +935,21 @@ def CNA(
         return error._generate_error(code, e_DIA, propagation, NEV)
     else:
         e_NEV = error._e_NEV(e_DIA)
+        azi_ref = error.survey.azi_ref_lookup[
+            error.survey.header.azi_reference
+        ]
+        azi_ref = f"azi_{azi_ref}_rad"
         n = (
             np.array(0.5 * error.drdp_sing['double_delta_md'])
             * -sin(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
+                error.survey, azi_ref
             )[1: -1])
             * mag
         )
         e = (
             np.array(0.5 * error.drdp_sing['double_delta_md'])
             * cos(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
+                error.survey, azi_ref
             )[1: -1])
             * mag
         )
@@ -963,14 +967,14 @@ def CNA(
         n = (
             np.array(0.5 * error.drdp_sing['delta_md'])
             * -sin(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
+                error.survey, azi_ref
             )[1: -1])
             * mag
         )
         e = (
             np.array(0.5 * error.drdp_sing['delta_md'])
             * cos(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
+                error.survey, azi_ref
             )[1: -1])
             * mag
         )
diff --git a/welleng/survey.py b/welleng/survey.py
index f409032..51f6638 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3124,7 +3124,7 @@ class SurveyData:
         self.md = survey.md
         self.inc = survey.inc_rad
         self.azi = getattr(
-            survey, f"azi_{getattr(self.header, 'azi_reference')}_rad"
+            survey, f"azi_{survey.azi_ref_lookup[self.header.azi_reference]}_rad"
         )
         self.start_nev = survey.start_nev
         self.start_xyz = survey.start_xyz
@@ -3147,7 +3147,7 @@ class SurveyData:
             (
                 self.azi,
                 getattr(
-                    survey, f"azi_{getattr(self.header, 'azi_reference')}_rad"
+                    survey, f"azi_{survey.azi_ref_lookup[self.header.azi_reference]}_rad"
                 )[1:]
             )
         )
-- 
2.43.0


From b719614942288ad59b86795b993eb4486531b269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 06/38] fix: tell floating rig tool models from fixed platform
 ones

Both variants carry the same model_id, so which of the two was used for a
tool depended on the order in which the file system lists the files.
---
 welleng/errors/tool_errors.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 55b3a22..1ea2bf4 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -47,7 +47,9 @@ def _resolve_json_model(model_name: str) -> str | None:
     `model_name` may be either an OWSG prefix (e.g. 'A020Gb') or a
     Short Name (e.g. 'GYRO-NS'). Searches every JSON under
     welleng/errors/iscwsa_json/ and matches against the file basename,
-    its metadata.model_id, and its metadata.short_name.
+    its metadata.model_id, and its metadata.short_name. The floating rig
+    variant of a tool shares its model_id with the fixed platform variant
+    and is known by that id with a '_Fl' suffix (as it is in the tool index).
 
     Returns the absolute path of the first match, or None if no JSON
     file matches.
@@ -76,8 +78,10 @@ def _resolve_json_model(model_name: str) -> str | None:
                     md = json.load(f).get("metadata", {})
             except Exception:
                 continue
-            if (md.get("model_id") == model_name
-                    or md.get("short_name") == model_name):
+            model_id, short_name = md.get("model_id"), md.get("short_name")
+            if model_id and str(short_name).endswith("_Fl"):
+                model_id = f"{model_id}_Fl"
+            if model_name in (model_id, short_name):
                 return path
     return None
 
-- 
2.43.0


From 1f8f60037771139f6f1c4f6f4ba616a28c468f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:48 +0000
Subject: [PATCH 07/38] fix: do not fall back to another definition of a tool
 model when its file cannot be read

---
 welleng/errors/tool_errors.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 1ea2bf4..cd0e139 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -177,13 +177,19 @@ class ToolError:
         # default), so we walk the iscwsa_json/ tree looking at both
         # the OWSG prefix and the metadata.short_name of each JSON.
         yaml_filename = os.path.join(PATH, 'tool_codes', f"{model}.yaml")
-        json_filename = _resolve_json_model(model)
 
         self._json_path = None
-        if os.path.isfile(yaml_filename):
+        try:
             with open(yaml_filename, 'r') as file:
                 self.em = yaml.safe_load(file)
-        elif json_filename is not None:
+        except FileNotFoundError:
+            json_filename = _resolve_json_model(model)
+            if json_filename is None:
+                raise FileNotFoundError(
+                    f"No tool model file found for {model!r}. Searched:\n"
+                    f"  YAML: {yaml_filename}\n"
+                    f"  JSON: {os.path.join(PATH, 'iscwsa_json', '**')}"
+                )
             with open(json_filename) as file:
                 self._json_model = json.load(file)
             self._json_path = json_filename
@@ -191,12 +197,6 @@ class ToolError:
             # downstream code that expects ``self.em['header']`` and
             # ``self.em['codes']`` keeps working without a refactor.
             self.em = _json_to_em_adapter(self._json_model)
-        else:
-            raise FileNotFoundError(
-                f"No tool model file found for {model!r}. Searched:\n"
-                f"  YAML: {yaml_filename}\n"
-                f"  JSON: {os.path.join(PATH, 'iscwsa_json', '**')}"
-            )
 
         # self.em = iscwsa_error_models[model]
         #     iscwsa_error_models = yaml.safe_load(file)
-- 
2.43.0


From 5425b3e8c83a126a15729d3cf675e427eeafa8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:16 +0000
Subject: [PATCH 08/38] fix: only treat formula errors as schema gaps when
 evaluating a tool model term

---
 welleng/errors/tool_errors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index cd0e139..993b9dd 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -328,7 +328,9 @@ class ToolError:
             d = evaluate_formula(term["depth_formula"], bindings)
             i = evaluate_formula(term["inclination_formula"], bindings)
             a = evaluate_formula(term["azimuth_formula"], bindings)
-        except Exception as exc:
+        except (
+            NameError, SyntaxError, TypeError, ValueError, ArithmeticError
+        ) as exc:
             # Term references variables the interpreter doesn't know how
             # to bind -- typically cross-station refs (MDPrev/AzPrev/
             # IncPrev) or per-tool calibration constants
-- 
2.43.0


From ddacacd3dc6b1caa7adc274344aab8b389b79d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 09/38] fix: keep a survey's error model when applying another
 one fails

---
 welleng/survey.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 51f6638..2fe2627 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -943,8 +943,14 @@ class Survey:
         """
         assert error_model in ERROR_MODELS, "Undefined error model"
 
+        previous = self.error_model
         self.error_model = error_model
-        self._get_errors()
+        try:
+            self._get_errors()
+        except BaseException:
+            # The covariances are still those of the previous model.
+            self.error_model = previous
+            raise
 
         if return_error:
             return self.err
-- 
2.43.0


From 35341b568790ed714264a6a0439d0ce8957ed24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 10/38] fix: do not move a connector's target at random when it
 is straight ahead

---
 welleng/connector.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index ff4bb2c..495c8fc 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -13,6 +13,9 @@ from .utils import (
     radius_from_dls, get_arc
 )
 
+# distance by which a target straight ahead is displaced (see _get_distances)
+MOD_POS = 1e-3
+
 
 class Connector:
     """Solves minimum-MD wellbore trajectories between two survey stations.
@@ -1273,9 +1276,11 @@ class Connector:
 
         return tangent_temp
 
-    def _mod_pos(self, pos):
-        pos_rand = np.random.random(3)  # * self.delta_radius
-        pos += pos_rand
+    def _mod_pos(self, pos, vec):
+        # Move a copy of the position slightly to the side of the vector, in
+        # a way that depends on the inputs only.
+        perp = np.cross(vec, np.eye(3)[np.argmin(np.abs(vec))])
+        return pos + MOD_POS * perp / np.linalg.norm(perp)
 
     def _get_distances(self, pos1, vec1, pos_target):
         # When initializing a `curve_hold_curve` and pos_target is directly
@@ -1286,7 +1291,7 @@ class Connector:
         with np.errstate(divide='ignore', invalid='ignore'):
             vec_temp = vec_temp / np.linalg.norm(vec_temp)
         if np.array_equal(vec1, vec_temp):
-            self._mod_pos(pos_target)
+            pos_target = self._mod_pos(pos_target, vec1)
         if np.allclose(pos1, pos_target):
             return (0, 0, 0)
 
-- 
2.43.0


From d1a46dec3d5a5811628d6a8b407eff5be1f96524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 11/38] fix: leave the caller's node and vector alone when
 dropping off, extending to a depth and transforming arcs

---
 welleng/connector.py | 5 ++---
 welleng/utils.py     | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 495c8fc..fd72c21 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2596,7 +2596,7 @@ def drop_off(
             )
             return abs(inc - target_inc)
 
-    node = Node() if node is None else node
+    node = Node() if node is None else copy(node)
     node.md = 0 if node.md is None else node.md
     radius = radius_from_dls(dls)
     if isinstance(delta_md, np.ndarray):
@@ -2676,8 +2676,7 @@ def extend_to_tvd(
     ...     target_tvd=3200, node=node, target_inc=0, dls=3
     ... )
     """
-    if node is None:
-        node = Node()
+    node = Node() if node is None else copy(node)
     node.md = 0 if node.md is None else node.md  # default value is None which complicates things
     _delta_md = 1e-8 if delta_md is None else delta_md
     connections = []
diff --git a/welleng/utils.py b/welleng/utils.py
index ef36bdc..0f5bcfb 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -592,7 +592,7 @@ class Arc:
         if vec is None:
             vec = np.array([0., 0., 1.])
         if target:
-            vec *= -1
+            vec = -np.asarray(vec)
         inc, azi = get_angles(vec, nev=True).reshape(2)
         angles = [
             toolface,
-- 
2.43.0


From edf00eab3e210f11b839ebf9695fbcae5aebbf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:49 +0000
Subject: [PATCH 12/38] fix: read string and wellbore sections by value in
 torque and drag

---
 welleng/torque_drag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 7b3c29e..ec8390a 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -195,7 +195,7 @@ class TorqueDrag:
     def get_weight_buoyed_and_radius(self):
         """Calculate buoyed weight and contact radius for each survey interval."""
         sections = self.string.sections
-        bottoms = np.array([s['bottom'] for s in sections])
+        bottoms = np.array([s['bottom'] for s in sections.values()])
         mds = self.survey.md[1:]
         delta_mds = self.survey.delta_md[1:]
         mask = mds <= self.string.bottom
@@ -211,7 +211,7 @@ class TorqueDrag:
     def get_coeff_friction_sliding(self):
         """Build an array of sliding friction coefficients mapped to survey stations."""
         sections = self.wellbore.sections
-        bottoms = np.array([s['bottom'] for s in sections])
+        bottoms = np.array([s['bottom'] for s in sections.values()])
         mds = self.survey.md[1:]
         mask = mds <= self.wellbore.bottom
         mds = mds[mask]
-- 
2.43.0


From 5b11c0215e53384f1f740d6ae097ba5a5fa1201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:49 +0000
Subject: [PATCH 13/38] fix: do not write buoyancy factors into the caller's
 string

---
 welleng/torque_drag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index ec8390a..da3adc9 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -82,7 +82,8 @@ class TorqueDrag:
 
         self.survey_original = survey
         self.wellbore = wellbore
-        self.string = string
+        # own copy, as the sections get a buoyancy factor for this fluid
+        self.string = deepcopy(string)
         self.fluid_density = fluid_density
         self.name = name
         self.add_survey_points_from_strings()
-- 
2.43.0


From ca13d7dc0a1b381c8bf6d154d5ae1a0503cbbb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 14/38] fix: leave a string alone when a section is rejected,
 and accept sections given by top or without length

---
 welleng/architecture.py | 54 ++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index f626079..c5c49a6 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -49,7 +49,11 @@ class String:
                     if k not in ['top', 'bottom', 'length', 'buoyancy_factor']
             }
             string_new.add_section(
-                length=self.sections[section]['length'], **params
+                length=(
+                    self.sections[section]['bottom']
+                    - self.sections[section]['top']
+                ),
+                **params
             )
             if string_new.sections[0]['top'] == self.top:
                 reached_top = True
@@ -83,24 +87,26 @@ class String:
             temp = len(self.sections)
             top = self.sections[temp - 1]['bottom']
 
-        self.sections[temp] = {}
-        self.sections[temp]['top'] = top
+        # work on a copy, so that a rejected section leaves the string alone
+        sections = dict(self.sections)
+        sections[temp] = {}
+        sections[temp]['top'] = top
 
         # add the section to the sections dict
         for k, v in kwargs.items():
-            self.sections[temp][k] = v
+            sections[temp][k] = v
 
         # sort the dict on depth of tops
-        self.sections = {
+        sections = {
             k: v
             for k, v in sorted(
-                self.sections.items(), key=lambda item: item[1]['top']
+                sections.items(), key=lambda item: item[1]['top']
             )
         }
 
         # re-index the keys
         temp = {}
-        for i, (k, v) in enumerate(self.sections.items()):
+        for i, (k, v) in enumerate(sections.items()):
             temp[i] = v
 
         # check inputs
@@ -111,10 +117,9 @@ class String:
                 assert v['top'] == temp[k - 1]['bottom']
             assert v['bottom'] <= self.bottom
 
-        if temp[len(temp) - 1]['bottom'] == self.bottom:
-            self.complete = True
-
-        self.sections = temp
+        self.sections, self.complete = temp, (
+            self.complete or temp[len(temp) - 1]['bottom'] == self.bottom
+        )
 
     def add_section_bottom_up(
         self, **kwargs
@@ -141,32 +146,32 @@ class String:
             top = bottom - kwargs.get('length')
             if top < self.top:
                 top = self.top
-                length = bottom - top
         elif bool(kwargs.get('top')):
-            length = bottom - kwargs.get('top')
+            top = kwargs.get('top')
         else:
             top = self.top
-            length = self.sections[0]['top']
 
-        self.sections[temp] = {}
-        self.sections[temp]['top'] = top
-        self.sections[temp]['bottom'] = bottom
+        # work on a copy, so that a rejected section leaves the string alone
+        sections = dict(self.sections)
+        sections[temp] = {}
+        sections[temp]['top'] = top
+        sections[temp]['bottom'] = bottom
 
         # add the section to the sections dict
         for k, v in kwargs.items():
-            self.sections[temp][k] = v
+            sections[temp][k] = v
 
         # sort the dict on depth of tops
-        self.sections = {
+        sections = {
             k: v
             for k, v in sorted(
-                self.sections.items(), key=lambda item: item[1]['bottom']
+                sections.items(), key=lambda item: item[1]['bottom']
             )
         }
 
         # re-index the keys
         temp = {}
-        for i, (k, v) in enumerate(self.sections.items()):
+        for i, (k, v) in enumerate(sections.items()):
             temp[i] = v
 
         # check inputs
@@ -178,10 +183,9 @@ class String:
                 assert v['bottom'] == temp[k + 1]['top']
             assert v['top'] >= self.top
 
-        if temp[0]['top'] == self.top:
-            self.complete = True
-
-        self.sections = temp
+        self.sections, self.complete = temp, (
+            self.complete or temp[0]['top'] == self.top
+        )
 
 
 class WellBore(String):
-- 
2.43.0


From d1668139cccdebf232ab7a1594d52ab69fed9bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:13 +0000
Subject: [PATCH 15/38] fix: keep exact section depths when adding survey
 points for torque and drag

---
 welleng/torque_drag.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index da3adc9..589a2df 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -113,17 +113,17 @@ class TorqueDrag:
             if v['bottom'] in self.survey_original.md:
                 continue
             else:
-                q.append(interpolate_md(
+                q.append((v['bottom'], interpolate_md(
                     self.survey_original, v['bottom']
-                ))
+                )))
 
         for k, v in self.string.sections.items():
             if v['bottom'] in self.survey_original.md:
                 continue
             else:
-                q.append(interpolate_md(
+                q.append((v['bottom'], interpolate_md(
                     self.survey_original, v['bottom']
-                ))
+                )))
 
         md, inc, azi = (
             self.survey_original.md.tolist(),
@@ -131,9 +131,10 @@ class TorqueDrag:
             self.survey_original.azi_grid_rad.tolist()
         )
 
-        md.extend([station.md[-1] for station in q])
-        inc.extend([station.inc_rad[-1] for station in q])
-        azi.extend([station.azi_grid_rad[-1] for station in q])
+        # use the exact depths, since the interpolated ones may be rounded
+        md.extend([depth for depth, _ in q])
+        inc.extend([station.inc_rad[-1] for _, station in q])
+        azi.extend([station.azi_grid_rad[-1] for _, station in q])
 
         md, inc, azi = zip(*sorted(zip(md, inc, azi)))
 
-- 
2.43.0


From c81c888f274dfe202c33a4b53371d47aa14abae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 16/38] fix: give every well plan target its own geometry

---
 welleng/exchange/wbp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 1ea4689..ed820ee 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -1,4 +1,5 @@
 import os
+from copy import deepcopy
 import yaml
 from ..survey import (
     TurnPoint,
@@ -56,7 +57,8 @@ class Target:
     ):
         self.name = name
         self.location = location
-        self.geometry = geometry
+        # each target owns its geometry, also when it's the default one
+        self.geometry = deepcopy(geometry)
 
 
 class SurveyPoint:
-- 
2.43.0


From 0077b788c51a278c15688ec84cab1b7dfc726908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 17/38] fix: do not share the default targets between well
 plans

---
 welleng/exchange/wbp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index ed820ee..a296e8b 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -110,7 +110,7 @@ class WellPlan:
         dls=3.0,
         extension=0,
         wbp_data=None,
-        targets=[],
+        targets=None,
         line=None,
         parent_wbp_file=None,
     ):
@@ -153,7 +153,8 @@ class WellPlan:
                 A list of strings with each string representing a line from
                 of text loaded from a .wbp file. Used for importing .wbp
                 data.
-            targets: list of welleng.exchange.wbp.Target objects (default: [])
+            targets: list of welleng.exchange.wbp.Target objects
+                (default: None, no targets)
                 A list of target objects, but more of a future function.
             line: int (default: None)
                 Used for processing .wbp files that contain multiple well
@@ -179,7 +180,7 @@ class WellPlan:
 
         self.depth_unit = depth_unit
         self.surface_unit = surface_unit
-        self.targets = targets
+        self.targets = [] if targets is None else targets
         if line is None:
             self.lines = 0
         else:
-- 
2.43.0


From d0a9f17ec43eb686a77b791e13f70fdf28421e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 18/38] fix: skip blank lines in a .wbp file

---
 welleng/exchange/wbp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index a296e8b..948e4b0 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -249,7 +249,7 @@ class WellPlan:
             # first split the line and look for section headers
             l = line.split()
             m = line.split(':')
-            if l[0] == '!':
+            if not l or l[0] == '!':
                 pass
             elif l[0] == "DEPTH":
                 self._get_units(l[1])
-- 
2.43.0


From 81ad41bbceca09147625a5be6ee4b1b91cfd3d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 19/38] fix: do not swallow interrupts when reading a turn
 point

---
 welleng/exchange/wbp.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 948e4b0..30aabc2 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -342,10 +342,7 @@ class WellPlan:
             to.tie_on = True
         else:
             to.method = string_strip(data[7])
-            try:
-                to.target = string_strip(data[8])
-            except:
-                to.target = None
+            to.target = string_strip(data[8]) if len(data) > 8 else None
         self.steps.append(to)
 
     def _add_extended_survey_point(self, data):
-- 
2.43.0


From 0a02cb6d86998bd90ca73751eba44e8d26953626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 20/38] fix: read the surface location of a parent .wbp file
 with current numpy

---
 welleng/exchange/wbp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 30aabc2..7710c78 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -227,7 +227,7 @@ class WellPlan:
             for line in self.parent_data:
                 if "L:" in line:
                     code, e, n, v = line.split()
-                    self.surface_datum = np.array([e, n, v]).astype(np.float)
+                    self.surface_datum = np.array([e, n, v]).astype(float)
                     break
         else:
             self.surface_datum = np.array([
-- 
2.43.0


From a1f535124ce8ffe1cf84c2109ba96845a12ceba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 21/38] fix: read target geometry from a .wbp file

---
 welleng/exchange/wbp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 7710c78..3e0fab3 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -300,9 +300,9 @@ class WellPlan:
 
     def _add_target_geometry(self, data):
         tg = self.targets[-1].geometry
-        tg.type = self.wbp_dict['TARGETS']['type'][data[2]]
-        tg.locked = data[3]
-        tg.offset = [float(data[4:13], float(data[13:23]))]
+        tg['type'] = self.wbp_dict['TARGETS']['type'][data[2]]
+        tg['locked'] = data[3]
+        tg['offset'] = [float(data[4:13]), float(data[13:23])]
 
     def _add_target_color(self, data):
         tgc = self.targets[-1].geometry['color']
-- 
2.43.0


From d52dff804132cce3deff97dd251c91f3f773ca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 22/38] fix: start every parent search of an EDM wellbore from
 an empty list

---
 welleng/exchange/edm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index fe17ccf..c44dc24 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -174,7 +174,9 @@ class EDM:
 
         return attributes
 
-    def get_parents(self, wellbore_id, predecessors=[]):
+    def get_parents(self, wellbore_id, predecessors=None):
+        if predecessors is None:
+            predecessors = []
         for child in self.root:
             if (
                 child.tag == "CD_WELLBORE"
-- 
2.43.0


From 51f58decb50129af4a7e9e4054bd9cb9e535585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 23/38] fix: start every parent survey search from an empty
 dictionary

---
 welleng/exchange/edm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index c44dc24..e5c9fe0 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -401,7 +401,9 @@ class Well:
                 survey[item[0]] = sorted(survey[item[0]], key=lambda k: float(k['md']))
         case.survey = survey
 
-    def get_parent_surveys(self, survey_header_id, data=OrderedDict()):
+    def get_parent_surveys(self, survey_header_id, data=None):
+        if data is None:
+            data = OrderedDict()
         for sh in self.well_data['CD_SURVEY_HEADER']:
             if (
                 sh['survey_header_id'] == survey_header_id
-- 
2.43.0


From d75fb6ac2c4386ce7efa444d79d555be4e535c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 24/38] fix: judge an EDM row on all the attributes asked for,
 once

---
 welleng/exchange/edm.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index e5c9fe0..e198830 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -63,15 +63,14 @@ class EDM:
                             booleans.append(True)
                         else:
                             booleans.append(False)
-                        if bool(booleans):
-                            if (
-                                logic == 'AND' and all(booleans)
-                                or logic == 'OR' and any(booleans)
-                            ):
-                                try:
-                                    data[child.tag].append(child.attrib)
-                                except KeyError:
-                                    data[child.tag] = [child.attrib]
+                    if (
+                        logic == 'AND' and all(booleans)
+                        or logic == 'OR' and any(booleans)
+                    ):
+                        try:
+                            data[child.tag].append(child.attrib)
+                        except KeyError:
+                            data[child.tag] = [child.attrib]
                 else:
                     try:
                         data[child.tag].append(child.attrib)
-- 
2.43.0


From d52e296fa5dc2587ebf49a0eaf71f6f54f5dfcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 25/38] fix: list the well and datum of a wellbore without
 parents once

---
 welleng/exchange/edm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index e198830..4966cf0 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -169,7 +169,7 @@ class EDM:
             additional = self.get_attributes(
                 tags=tags, attributes={'wellbore_id': predecessors}
             )
-        attributes = self.add_attributes(attributes, additional)
+            attributes = self.add_attributes(attributes, additional)
 
         return attributes
 
-- 
2.43.0


From cdc2cfbd4522238265c657597b888770e1e39da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 26/38] fix: list hole sections in file order

---
 welleng/exchange/edm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index 4966cf0..1e3b7f8 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -439,7 +439,7 @@ class Well:
                     if t == "hole_sect_group_id"
                 ]
             )
-        return list(set(hole_sect_group_ids))
+        return list(dict.fromkeys(hole_sect_group_ids))
 
     def _get_hole_section_data(self, group_id):
         hole_section_data = {}
-- 
2.43.0


From 53d4daf7220c3dddd2bf671a34504fcc9d2154ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 27/38] fix: propagate the well-by-well terms of JSON tool
 models

---
 welleng/errors/tool_errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 993b9dd..1eb3170 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -18,7 +18,7 @@ _JSON_PROP_TO_LEGACY = {
     "Random": "random",
     "Systematic": "systematic",
     "Global": "global",
-    "Well": "well",
+    "Well": "within_pad",
 }
 
 
-- 
2.43.0


From 2ce9730ab5794f51c4bb5e61c45cb17ecc81d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 28/38] fix: save well plans loaded from a .wbp file without
 side track id or dirty flag

---
 welleng/exchange/wbp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 3e0fab3..793bfcc 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -481,15 +481,16 @@ def add_header(doc, data):
     ignored_integer_2 = " 123"
     plan_name = "" if data.plan_name is None else data.plan_name
     parent_name = "" if data.parent_name is None else data.parent_name
+    sidetrack_id = "" if data.sidetrack_id is None else data.sidetrack_id
     doc.append((
         f"W:"
         f"{get_key(d['type'], data.location_type)}"
         f"{get_unit_key(data)}"
         f"{get_key(d['plan_method'], data.plan_method)}"
-        f"{get_key(d['dirty_flag'], data.dirty_flag)}"
+        f"{get_key(d['dirty_flag'], str(data.dirty_flag))}"
         f"{ignored_integer_1}"
         f"{ignored_integer_2}"
-        f" {data.sidetrack_id:>7}"
+        f" {sidetrack_id:>7}"
         f" {plan_name:<60}"
         f" {parent_name:<60}"
         f" {data.dls:>6.2f}"
-- 
2.43.0


From 5e3bf649f5533df1a7b29c89359516bf680988ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 29/38] fix: evaluate the inclination only models, which state
 no tortuosity

---
 welleng/errors/tool_errors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 1eb3170..7a934fb 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -208,6 +208,10 @@ class ToolError:
             # be the case
             # TODO use pint to handle this string inputs
             self.tortuosity = (np.radians(1.) / 100) * 3.281
+        elif any(code.startswith('XCL') for code in self.em['codes']):
+            # some of the OWSG inclination only models carry XCL terms but no
+            # tortuosity, in which case the standard value applies too.
+            self.tortuosity = (np.radians(1.) / 100) * 3.281
         else:
             self.tortuosity = None
 
-- 
2.43.0


From 569b99ee7440115d893539332d3c8fc6097ab9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 30/38] fix: fall back to the sheet name for blank names when
 converting tool model workbooks

---
 welleng/errors/tools/owsg_to_json.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/welleng/errors/tools/owsg_to_json.py b/welleng/errors/tools/owsg_to_json.py
index 6d18eb6..dbec0b9 100644
--- a/welleng/errors/tools/owsg_to_json.py
+++ b/welleng/errors/tools/owsg_to_json.py
@@ -217,11 +217,11 @@ def convert_sheet(
     warnings: list[str] = []
     kv = _extract_metadata_kv(df)
 
-    short_name = _scrub(kv.get("Short Name") or sheet_name)
-    long_name = _scrub(kv.get("Long Name") or short_name)
-    owsg_prefix = _scrub(kv.get("OWSG Prefix") or sheet_name)
+    short_name = _scrub(kv.get("Short Name")) or sheet_name
+    long_name = _scrub(kv.get("Long Name")) or short_name
+    owsg_prefix = _scrub(kv.get("OWSG Prefix")) or sheet_name
 
-    raw_tool_type = _scrub(kv.get("Tool Type") or short_name)
+    raw_tool_type = _scrub(kv.get("Tool Type")) or short_name
     tool_type = TOOL_TYPE_MAP.get(raw_tool_type, None)
     if tool_type is None:
         # Try to infer from sheet name keywords.
-- 
2.43.0


From 9ba7bef13961f2b8414e692ec73cb5a2067ff8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 31/38] fix: read and write tool model definitions as UTF-8
 whatever the locale

---
 welleng/errors/conformance.py         | 4 ++--
 welleng/errors/copsegrove_validate.py | 2 +-
 welleng/errors/tool_errors.py         | 4 ++--
 welleng/errors/tools/owsg_to_json.py  | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/welleng/errors/conformance.py b/welleng/errors/conformance.py
index ddc9147..15c51c3 100644
--- a/welleng/errors/conformance.py
+++ b/welleng/errors/conformance.py
@@ -142,7 +142,7 @@ def compare_model(json_path: str, survey, *,
     means welleng has no implementation yet, or the term was added in
     a tool model variant we haven't built coverage for).
     """
-    with open(json_path) as f:
+    with open(json_path, encoding="utf-8") as f:
         model = json.load(f)
     bindings = _bindings_from_survey(survey)
     n = len(survey.md)
@@ -205,7 +205,7 @@ def standard_test_survey():
     """ISCWSA Test Well 1 with the standard environmental setup."""
     here = Path(__file__).parent
     json_path = here.parent.parent / "tests" / "test_data" / "error_mwdrev5_1_iscwsa_data.json"
-    with open(json_path) as f:
+    with open(json_path, encoding="utf-8") as f:
         d = json.load(f)
     h = d["header"]
     sv = d["survey"]
diff --git a/welleng/errors/copsegrove_validate.py b/welleng/errors/copsegrove_validate.py
index 85687aa..b1fd792 100644
--- a/welleng/errors/copsegrove_validate.py
+++ b/welleng/errors/copsegrove_validate.py
@@ -91,7 +91,7 @@ def validate_random_terms(
     dip / G) are taken from the kwargs above (defaulting to the ISCWSA
     Standard Test Well 1 values: 60 N / 50000 nT / 72° / 9.80665 m/s²).
     """
-    with open(json_path) as f:
+    with open(json_path, encoding="utf-8") as f:
         model = json.load(f)
     stations = parse_copsegrove(copsegrove_path)
 
diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 7a934fb..6cb79b5 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -74,7 +74,7 @@ def _resolve_json_model(model_name: str) -> str | None:
                 continue
             path = os.path.join(sub_p, fn)
             try:
-                with open(path) as f:
+                with open(path, encoding="utf-8") as f:
                     md = json.load(f).get("metadata", {})
             except Exception:
                 continue
@@ -190,7 +190,7 @@ class ToolError:
                     f"  YAML: {yaml_filename}\n"
                     f"  JSON: {os.path.join(PATH, 'iscwsa_json', '**')}"
                 )
-            with open(json_filename) as file:
+            with open(json_filename, encoding="utf-8") as file:
                 self._json_model = json.load(file)
             self._json_path = json_filename
             # Adapter: shape the JSON into a YAML-like dict so the
diff --git a/welleng/errors/tools/owsg_to_json.py b/welleng/errors/tools/owsg_to_json.py
index dbec0b9..1a58289 100644
--- a/welleng/errors/tools/owsg_to_json.py
+++ b/welleng/errors/tools/owsg_to_json.py
@@ -368,7 +368,7 @@ def convert_workbook(xlsx_path: str, out_dir: str, set_label: str) -> dict[str,
             continue
         json_obj, warns = convert_sheet(df, sheet, set_label, xlsx_path)
         out_path = out_dir_p / f"{_safe_filename(sheet)}.json"
-        with open(out_path, "w") as f:
+        with open(out_path, "w", encoding="utf-8") as f:
             json.dump(json_obj, f, indent=2, ensure_ascii=False)
         all_warnings[sheet] = warns
     return all_warnings
-- 
2.43.0


From f8fdaca7a93281771736085289dee08957eccfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 32/38] fix: give each OWSG sheet a file of its own when the
 sanitised names collide

---
 welleng/errors/tools/owsg_to_json.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/welleng/errors/tools/owsg_to_json.py b/welleng/errors/tools/owsg_to_json.py
index 1a58289..c19f497 100644
--- a/welleng/errors/tools/owsg_to_json.py
+++ b/welleng/errors/tools/owsg_to_json.py
@@ -361,13 +361,21 @@ def convert_workbook(xlsx_path: str, out_dir: str, set_label: str) -> dict[str,
     out_dir_p.mkdir(parents=True, exist_ok=True)
     xl = pd.ExcelFile(xlsx_path)
     all_warnings: dict[str, list[str]] = {}
+    used: set[str] = set()
     for sheet in xl.sheet_names:
         df = xl.parse(sheet_name=sheet, header=None)
         # Skip non-tool sheets if any (heuristic: must have at least 1 term row)
         if not _term_rows(df):
             continue
         json_obj, warns = convert_sheet(df, sheet, set_label, xlsx_path)
-        out_path = out_dir_p / f"{_safe_filename(sheet)}.json"
+        # Sheet names that only differ in replaced characters get a file each.
+        stem = name = _safe_filename(sheet)
+        count = 1
+        while name in used:
+            count += 1
+            name = f"{stem}_{count}"
+        used.add(name)
+        out_path = out_dir_p / f"{name}.json"
         with open(out_path, "w", encoding="utf-8") as f:
             json.dump(json_obj, f, indent=2, ensure_ascii=False)
         all_warnings[sheet] = warns
-- 
2.43.0


From ad12034103bd7baeaad01dafdc804dfbd70d542c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 33/38] fix: keep every wellbore id of an EDM file when
 wellbore names are not unique

---
 welleng/exchange/edm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index 1e3b7f8..2668295 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -86,10 +86,16 @@ class EDM:
         """
         self.wellbore_id_to_name = {}
         self.wellbore_name_to_id = {}
-        for _, v in self.get_wellbore_ids().items():
+        for v in self._get_wellbores():
             self.wellbore_id_to_name[v['wellbore_id']] = v['wellbore_name']
             self.wellbore_name_to_id[v['wellbore_name']] = v['wellbore_id']
 
+    def _get_wellbores(self):
+        # names are not unique in a database, so can't be used as the keys
+        return [
+            child.attrib for child in self.root if child.tag == 'CD_WELLBORE'
+        ]
+
     def get_wells(self):
         return {
             f"{child.attrib['well_common_name']}": child.attrib
@@ -131,7 +137,7 @@ class EDM:
         # get nodes
         G = nx.Graph()
 
-        for _, v in self.get_wellbore_ids().items():
+        for v in self._get_wellbores():
             if 'parent_wellbore_id' in v:
                 G.add_edge(v['parent_wellbore_id'], v['wellbore_id'])
             else:
-- 
2.43.0


From 233a3f332b54b25487bb44f3aa7f009796f0f788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 34/38] fix: reject string sections without a length

---
 welleng/architecture.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index c5c49a6..57f193b 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -116,6 +116,7 @@ class String:
             else:
                 assert v['top'] == temp[k - 1]['bottom']
             assert v['bottom'] <= self.bottom
+            assert v['top'] < v['bottom']
 
         self.sections, self.complete = temp, (
             self.complete or temp[len(temp) - 1]['bottom'] == self.bottom
@@ -182,6 +183,7 @@ class String:
             else:
                 assert v['bottom'] == temp[k + 1]['top']
             assert v['top'] >= self.top
+            assert v['top'] < v['bottom']
 
         self.sections, self.complete = temp, (
             self.complete or temp[0]['top'] == self.top
-- 
2.43.0


From 2511d7532b79f27ff49f28aeded7032f5b8a05db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 35/38] fix: publish a survey's error model and covariances
 (and vertical section) together

---
 welleng/survey.py | 63 ++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 2fe2627..5035cba 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -943,51 +943,56 @@ class Survey:
         """
         assert error_model in ERROR_MODELS, "Undefined error model"
 
-        previous = self.error_model
-        self.error_model = error_model
-        try:
-            self._get_errors()
-        except BaseException:
-            # The covariances are still those of the previous model.
-            self.error_model = previous
-            raise
+        self._get_errors(error_model)
 
         if return_error:
             return self.err
         else:
             return self
 
-    def _get_errors(self):
+    def _get_errors(self, error_model=None):
         """
         Initiate a welleng.error.ErrorModel object and calculate the
         covariance matrices with the specified error model.
         """
-        if self.error_model:
+        if error_model is None:
+            error_model = self.error_model
+        cov_hla, cov_nev = self.cov_hla, self.cov_nev
+        result = {'error_model': error_model}
+
+        if error_model:
             # if self.error_model == "iscwsa_mwd_rev4":
-            self.err = ErrorModel(
+            err = ErrorModel(
                 self,
-                error_model=self.error_model
+                error_model=error_model
+            )
+            cov_hla = err.errors.cov_HLAs
+            cov_nev = err.errors.cov_NEVs
+            result.update(
+                err=err,
+                cov_nev_random=err.errors.cov_NEVs_random,
+                cov_nev_systematic=err.errors.cov_NEVs_systematic,
+                cov_nev_global=err.errors.cov_NEVs_global,
+                cov_nev_within_pad=err.errors.cov_NEVs_within_pad
             )
-            self.cov_hla = self.err.errors.cov_HLAs
-            self.cov_nev = self.err.errors.cov_NEVs
-            self.cov_nev_random = self.err.errors.cov_NEVs_random
-            self.cov_nev_systematic = self.err.errors.cov_NEVs_systematic
-            self.cov_nev_global = self.err.errors.cov_NEVs_global
-            self.cov_nev_within_pad = self.err.errors.cov_NEVs_within_pad
         else:
-            if self.cov_nev is not None and self.cov_hla is None:
-                self.cov_hla = NEV_to_HLA(self.survey_rad, self.cov_nev)
-            elif self.cov_nev is None and self.cov_hla is not None:
-                self.cov_nev = HLA_to_NEV(self.survey_rad, self.cov_hla)
+            if cov_nev is not None and cov_hla is None:
+                cov_hla = NEV_to_HLA(self.survey_rad, cov_nev)
+            elif cov_nev is None and cov_hla is not None:
+                cov_nev = HLA_to_NEV(self.survey_rad, cov_hla)
             else:
                 pass
 
         if (
             self.start_cov_nev is not None
-            and self.cov_nev is not None
+            and cov_nev is not None
         ):
-            self.cov_nev = self.cov_nev + self.start_cov_nev
-            self.cov_hla = NEV_to_HLA(self.survey_rad, self.cov_nev)
+            cov_nev = cov_nev + self.start_cov_nev
+            cov_hla = NEV_to_HLA(self.survey_rad, cov_nev)
+
+        # Publish the model and its covariances together, so that a failure
+        # or an interruption can't leave a mixture of two models.
+        vars(self).update(result, cov_hla=cov_hla, cov_nev=cov_nev)
 
     def _curvature_to_rate(self, curvature):
         with np.errstate(divide='ignore', invalid='ignore'):
@@ -1353,14 +1358,16 @@ class Survey:
             degrees or radians (True or False respectively).
         """
         # The header may be shared with other surveys, so update a copy of it.
-        self.header = copy(self.header)
-        self.header.vertical_section_azimuth = (
+        header = copy(self.header)
+        header.vertical_section_azimuth = (
             vertical_section_azimuth if not deg
             else math.radians(vertical_section_azimuth)
         )
-        self.vertical_section = self.get_vertical_section(
+        vertical_section = self.get_vertical_section(
             vertical_section_azimuth, deg
         )
+        # Publish both together, the header goes with the vertical section.
+        vars(self).update(header=header, vertical_section=vertical_section)
 
     def modified_tortuosity_index(
         self, rtol=1.0, dls_tol=1e-3, step=1.0, dls_noise=1.0, data=False,
-- 
2.43.0


From 11c3931cfe2c4cd0b04f994404d9c9206e35dd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:35 +0000
Subject: [PATCH 36/38] fix: keep colons and spaces in target names when
 loading .wbp files

---
 welleng/exchange/wbp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 793bfcc..df3ba09 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -248,7 +248,7 @@ class WellPlan:
                 continue
             # first split the line and look for section headers
             l = line.split()
-            m = line.split(':')
+            m = line.split(':', 1)
             if not l or l[0] == '!':
                 pass
             elif l[0] == "DEPTH":
@@ -330,7 +330,7 @@ class WellPlan:
 
     def _add_turn_point(self, line):
         to = TurnPoint()
-        data = line.split(':')[1].split()
+        data = line.split(':', 1)[1].split(maxsplit=8)
         to.md = float(data[0])
         to.azi = float(data[1])
         to.inc = float(data[2])
-- 
2.43.0


From 69d6cb3a50494da859b542e70fb1688e9f75cbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:09 +0000
Subject: [PATCH 37/38] fix: save targets without a color so that the plan can
 be loaded

---
 welleng/exchange/wbp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index df3ba09..0cb09d2 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -457,10 +457,12 @@ def add_targets(doc, targets):
     for t in targets:
         doc.append(f"T:{t.name}")
         doc = add_location(doc, t.location)
-        doc.append((
-            f"C:"
-            f"{str(t.geometry['color']['color']).rjust(3)}"
-        ))
+        # a color that isn't set can't be read back, so has no line
+        if t.geometry['color']['color'] is not None:
+            doc.append((
+                f"C:"
+                f"{str(t.geometry['color']['color']).rjust(3)}"
+            ))
     return doc
 
 
-- 
2.43.0


From 21d7e992d7a1ee4013c3f953e96d50895873bfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:14 +0000
Subject: [PATCH 38/38] fix: give each survey its own start position and
 covariances

---
 welleng/survey.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 5035cba..b4552ce 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -714,10 +714,10 @@ class Survey:
 
         self.unit = unit
         self.deg = deg
-        self.start_xyz = start_xyz
+        self.start_xyz = copy(start_xyz)
         self.start_nev = start_nev
         self.md = np.array(md).astype('float64')
-        self.start_cov_nev = start_cov_nev
+        self.start_cov_nev = copy(start_cov_nev)
 
         self._process_azi_ref(inc, azi, deg)
 
@@ -761,8 +761,8 @@ class Survey:
             assert error_model in error_models, "Unrecognized error model"
         self.error_model = error_model
 
-        self.cov_hla = cov_hla
-        self.cov_nev = cov_nev
+        self.cov_hla = copy(cov_hla)
+        self.cov_nev = copy(cov_nev)
         self.cov_nev_random = None
         self.cov_nev_systematic = None
         self.cov_nev_global = None
-- 
2.43.0

