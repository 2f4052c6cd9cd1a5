From 7e7bbc03f5d1e157c08e35db1b6216d055554612 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 001/105] fix: import sibling modules through the phyem package

Function-level imports such as 'from src.config import ...' and 'from msepy.main
import base' only resolve when the repository directory itself is on sys.path
(and then load a second, empty copy of the module); with 'import phyem' they
raise ModuleNotFoundError.
---
 msehtt/adaptive/main.py                           |  2 +-
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py   |  6 +++---
 msehtt/static/form/export/main.py                 |  2 +-
 msehtt/tools/nonlinear_system/dynamic/main.py     |  2 +-
 msehtt/tools/nonlinear_system/static/main.py      |  2 +-
 msepy/form/main.py                                |  6 +++---
 msepy/form/numeric/main.py                        |  2 +-
 msepy/form/visualize/matplot.py                   |  2 +-
 msepy/manifold/visualize/matplot.py               |  2 +-
 msepy/mesh/boundary_section/main.py               |  2 +-
 msepy/mesh/boundary_section/visualize/matplot.py  |  2 +-
 msepy/mesh/visualize/matplot.py                   |  2 +-
 msepy/space/degree.py                             |  2 +-
 msepy/space/gathering_matrix/Lambda.py            |  2 +-
 msepy/space/mass_matrix/Lambda.py                 |  2 +-
 msepy/space/reconstruct/Lambda.py                 |  2 +-
 msepy/space/reduce/Lambda.py                      |  2 +-
 msepy/space/trace_matrix/Lambda.py                |  2 +-
 msepy/tools/linear_system/dynamic/_arr_par.py     |  6 +++---
 msepy/tools/linear_system/dynamic/main.py         |  2 +-
 msepy/tools/linear_system/static/local/main.py    |  2 +-
 msepy/tools/nonlinear_system/dynamic/main.py      |  6 +++---
 msepy/tools/nonlinear_system/static/customize.py  |  8 ++++----
 msepy/tools/nonlinear_system/static/local.py      |  2 +-
 msepy/tools/polynomials.py                        |  4 ++--
 src/algebra/array.py                              |  2 +-
 src/algebra/linear_system.py                      | 12 ++++++------
 src/time_sequence.py                              |  4 ++--
 src/wf/term/ap.py                                 |  4 ++--
 tools/functions/time_space/_2d/wrappers/scalar.py |  8 ++++----
 tools/functions/time_space/_2d/wrappers/vector.py |  8 ++++----
 tools/miscellaneous/undirected_graph.py           |  2 +-
 32 files changed, 57 insertions(+), 57 deletions(-)

diff --git a/msehtt/adaptive/main.py b/msehtt/adaptive/main.py
index 8fb4f64..730103e 100644
--- a/msehtt/adaptive/main.py
+++ b/msehtt/adaptive/main.py
@@ -406,7 +406,7 @@ def info(*others_2b_printed):
         else:
             pass
     print(f"\n~) Existing time sequences --------- ")
-    from src.time_sequence import _global_abstract_time_sequence
+    from phyem.src.time_sequence import _global_abstract_time_sequence
     for ats_lin in _global_abstract_time_sequence:
         ats = _global_abstract_time_sequence[ats_lin]
         ats.info()
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
index bd5cf77..6df07fc 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
@@ -45,9 +45,9 @@ def bi_vc__m3n3k0(rf0, t, vc, boundary_section):
     return data_dict
 
 
-from msehtt.static.space.reconstruction_matrix.Lambda.RM_m3n3k0 import ___rm330_msepy_hexahedral___
-from msehtt.static.space.find.local_dofs_on_face.Lambda.m3n3k0 import __m3n3k0_msepy_hexahedral_
-from msehtt.static.space.num_local_dofs.Lambda.num_local_dofs_m3n3k0 import _num_local_dofs__m3n3k0_msepy_hexahedral_
+from phyem.msehtt.static.space.reconstruction_matrix.Lambda.RM_m3n3k0 import ___rm330_msepy_hexahedral___
+from phyem.msehtt.static.space.find.local_dofs_on_face.Lambda.m3n3k0 import __m3n3k0_msepy_hexahedral_
+from phyem.msehtt.static.space.num_local_dofs.Lambda.num_local_dofs_m3n3k0 import _num_local_dofs__m3n3k0_msepy_hexahedral_
 
 
 def ___bi_vc_330_orthogonal_hexahedral___(element, degree, face, tvc):
diff --git a/msehtt/static/form/export/main.py b/msehtt/static/form/export/main.py
index a6e1733..f210b73 100644
--- a/msehtt/static/form/export/main.py
+++ b/msehtt/static/form/export/main.py
@@ -29,7 +29,7 @@ class MseHtt_Static_Form_Export(Frozen):
 
     def vtk(self, filename, ddf=1):
         r""""""
-        from tools.vtk_.msehtt_form_static_copy import ___ph_vtk_msehtt_static_copy___
+        from phyem.tools.vtk_.msehtt_form_static_copy import ___ph_vtk_msehtt_static_copy___
         ___ph_vtk_msehtt_static_copy___(filename, self._f[self._t], ddf=ddf)
 
     def tsf(self, filename, ddf=1):
diff --git a/msehtt/tools/nonlinear_system/dynamic/main.py b/msehtt/tools/nonlinear_system/dynamic/main.py
index fde2b62..b28d3d2 100644
--- a/msehtt/tools/nonlinear_system/dynamic/main.py
+++ b/msehtt/tools/nonlinear_system/dynamic/main.py
@@ -213,7 +213,7 @@ class MseHttDynamicNonLinearSystem(Frozen):
         plt.axis((0, 1, 0, 1))
         plt.axis('off')
         plt.text(0.05, 0.5, text + bc_text, ha='left', va='center', size=15)
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
 
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_DynamicNoneLinearSystem')
diff --git a/msehtt/tools/nonlinear_system/static/main.py b/msehtt/tools/nonlinear_system/static/main.py
index d330073..67fa7c3 100644
--- a/msehtt/tools/nonlinear_system/static/main.py
+++ b/msehtt/tools/nonlinear_system/static/main.py
@@ -330,7 +330,7 @@ class MseHttStaticNonLinearSystem(Frozen):
 
         plt.title(f'Local-Linear-System evaluated @ [{self._str_args}].')
 
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_staticLocalNonLinearSystem')
         else:
diff --git a/msepy/form/main.py b/msepy/form/main.py
index d1925d3..39b9c26 100644
--- a/msepy/form/main.py
+++ b/msepy/form/main.py
@@ -80,7 +80,7 @@ class MsePyRootForm(Frozen):
             t = self.cochain.newest  # newest time
         elif isinstance(t, str):
             # when use str, we are looking for the form at a time step.
-            from src.time_sequence import _global_abstract_time_sequence
+            from phyem.src.time_sequence import _global_abstract_time_sequence
             if len(_global_abstract_time_sequence) == 1:
                 ts_indicator = list(_global_abstract_time_sequence.keys())[0]
                 ts = _global_abstract_time_sequence[ts_indicator]
@@ -106,7 +106,7 @@ class MsePyRootForm(Frozen):
             t = self.cochain.newest  # newest time
         elif isinstance(t, str):
             # when use str, we are looking for the form at a time step.
-            from src.time_sequence import _global_abstract_time_sequence
+            from phyem.src.time_sequence import _global_abstract_time_sequence
             if len(_global_abstract_time_sequence) == 1:
                 ts_indicator = list(_global_abstract_time_sequence.keys())[0]
                 ts = _global_abstract_time_sequence[ts_indicator]
@@ -485,7 +485,7 @@ class MsePyRootForm(Frozen):
         inner_product_matrix = self.space.inner_product(
             self.degree, (other_form.space, other_form.degree)
         )
-        from msepy.tools.matrix.static.local import MsePyStaticLocalMatrix
+        from phyem.msepy.tools.matrix.static.local import MsePyStaticLocalMatrix
 
         inner_product_matrix = MsePyStaticLocalMatrix(
             inner_product_matrix,
diff --git a/msepy/form/numeric/main.py b/msepy/form/numeric/main.py
index 8ae6c05..f2b9706 100644
--- a/msepy/form/numeric/main.py
+++ b/msepy/form/numeric/main.py
@@ -305,7 +305,7 @@ class MsePyRootFormNumeric(Frozen):
             pass
         else:
             import pickle
-            from src.config import SIZE
+            from phyem.src.config import SIZE
             if SIZE == 1:
                 # we are only calling one thread, so just go ahead with it.
                 with open(saveto, 'wb') as output:
diff --git a/msepy/form/visualize/matplot.py b/msepy/form/visualize/matplot.py
index 85b8e3b..ed9a95a 100644
--- a/msepy/form/visualize/matplot.py
+++ b/msepy/form/visualize/matplot.py
@@ -358,7 +358,7 @@ class MsePyRootFormVisualizeMatplot(Frozen):
     ):
         """"""
         mesh = self._mesh
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/manifold/visualize/matplot.py b/msepy/manifold/visualize/matplot.py
index c494b79..a8f77c5 100644
--- a/msepy/manifold/visualize/matplot.py
+++ b/msepy/manifold/visualize/matplot.py
@@ -144,7 +144,7 @@ class MsePyManifoldVisualizeMatplot(Frozen):
         if saveto is not None and saveto != '':
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
 
         return fig
diff --git a/msepy/mesh/boundary_section/main.py b/msepy/mesh/boundary_section/main.py
index e130b92..178abfa 100644
--- a/msepy/mesh/boundary_section/main.py
+++ b/msepy/mesh/boundary_section/main.py
@@ -87,7 +87,7 @@ class MsePyBoundarySectionMesh(Frozen):
         If the target is the gathering matrix, then we find all global dofs on the
         boundary section.
         """
-        from msepy.form.main import MsePyRootForm
+        from phyem.msepy.form.main import MsePyRootForm
         assert f.__class__ is MsePyRootForm, f"f must be a msepy root form."
         gathering_matrix = f.cochain.gathering_matrix
 
diff --git a/msepy/mesh/boundary_section/visualize/matplot.py b/msepy/mesh/boundary_section/visualize/matplot.py
index 9d55f95..9a5da5a 100644
--- a/msepy/mesh/boundary_section/visualize/matplot.py
+++ b/msepy/mesh/boundary_section/visualize/matplot.py
@@ -112,7 +112,7 @@ class Matplot(Frozen):
         if saveto is not None and saveto != '':
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshBoundarySection')
             else:
diff --git a/msepy/mesh/visualize/matplot.py b/msepy/mesh/visualize/matplot.py
index 55aec64..388edb9 100644
--- a/msepy/mesh/visualize/matplot.py
+++ b/msepy/mesh/visualize/matplot.py
@@ -186,7 +186,7 @@ class MsePyMeshVisualizeMatplot(Frozen):
         if saveto is not None and saveto != '':
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshVisualization')
             else:
diff --git a/msepy/space/degree.py b/msepy/space/degree.py
index 613f627..b156e7c 100644
--- a/msepy/space/degree.py
+++ b/msepy/space/degree.py
@@ -160,7 +160,7 @@ class PySpaceDegree(Frozen):
     @property
     def gathering_matrix(self):
         """For msehy-py spaces, access gathering matrix here only for more recent generation mesh!"""
-        from msepy.mesh.main import MsePyMesh
+        from phyem.msepy.mesh.main import MsePyMesh
         mesh_class = self._space.mesh.__class__
         if mesh_class is MsePyMesh:
             return self._space.gathering_matrix(self._degree)
diff --git a/msepy/space/gathering_matrix/Lambda.py b/msepy/space/gathering_matrix/Lambda.py
index 5fef6b1..a0bb713 100644
--- a/msepy/space/gathering_matrix/Lambda.py
+++ b/msepy/space/gathering_matrix/Lambda.py
@@ -1340,7 +1340,7 @@ class MsePyGatheringMatrixLambda(Frozen):
 
     def _m2_n1_k1(self, p):
         """"""
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = self._mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/mass_matrix/Lambda.py b/msepy/space/mass_matrix/Lambda.py
index 0c088ef..425ba2b 100644
--- a/msepy/space/mass_matrix/Lambda.py
+++ b/msepy/space/mass_matrix/Lambda.py
@@ -338,7 +338,7 @@ class MsePyMassMatrixLambda(Frozen):
         quad_nodes, quad_weights = quad.quad
         xi_et, bfs = self._space.basis_functions[degree](quad_nodes)
 
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = self._mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/reconstruct/Lambda.py b/msepy/space/reconstruct/Lambda.py
index ab7776d..9194250 100644
--- a/msepy/space/reconstruct/Lambda.py
+++ b/msepy/space/reconstruct/Lambda.py
@@ -223,7 +223,7 @@ class MsePySpaceReconstructLambda(Frozen):
         nodes, bfs = self._space.basis_functions[degree](xi)
 
         mesh = self._mesh
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/reduce/Lambda.py b/msepy/space/reduce/Lambda.py
index 4eab720..2eb47c3 100644
--- a/msepy/space/reduce/Lambda.py
+++ b/msepy/space/reduce/Lambda.py
@@ -385,7 +385,7 @@ class MsePySpaceReduceLambda(Frozen):
             dtype=float
         )
 
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/trace_matrix/Lambda.py b/msepy/space/trace_matrix/Lambda.py
index 0525c40..d8372b6 100644
--- a/msepy/space/trace_matrix/Lambda.py
+++ b/msepy/space/trace_matrix/Lambda.py
@@ -46,7 +46,7 @@ class MsePyTraceMatrixLambda(Frozen):
 
     def _m2_n2_k1_outer(self, degree):
         """"""
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = self._mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/tools/linear_system/dynamic/_arr_par.py b/msepy/tools/linear_system/dynamic/_arr_par.py
index 51d7211..9792186 100644
--- a/msepy/tools/linear_system/dynamic/_arr_par.py
+++ b/msepy/tools/linear_system/dynamic/_arr_par.py
@@ -209,7 +209,7 @@ def Parse__trace_matrix(space_lin_repr, degree_str):
     degree = _str_degree_parser(degree_str)
     space = _find_space_through_pure_lin_repr(space_lin_repr)
     gm_space_1 = space.gathering_matrix(degree)
-    from src.spaces.operators import trace as space_trace
+    from phyem.src.spaces.operators import trace as space_trace
     trace_space = _find_space_through_pure_lin_repr(space_trace(space.abstract)._pure_lin_repr)
     gm_trace_0 = trace_space.gathering_matrix(degree)
     tM = space.trace_matrix(degree)
@@ -262,7 +262,7 @@ def Parse__pi_matrix(from_space, to_space, from_d, to_d):
     to_d = _str_degree_parser(to_d)
     from_space = _find_space_through_pure_lin_repr(from_space)
     to_space = _find_space_through_pure_lin_repr(to_space)
-    from msepy.space.addons.projection import MsePySpaceProjection
+    from phyem.msepy.space.addons.projection import MsePySpaceProjection
     pi = MsePySpaceProjection(from_space, to_space, from_d, to_d)
     return pi.matrix, None
 
@@ -273,7 +273,7 @@ def Parse__star_matrix(from_space, to_space, from_d, to_d):
     to_d = _str_degree_parser(to_d)
     from_space = _find_space_through_pure_lin_repr(from_space)
     to_space = _find_space_through_pure_lin_repr(to_space)
-    from msepy.space.addons.Hodge import MsePySpaceHodge
+    from phyem.msepy.space.addons.Hodge import MsePySpaceHodge
     H = MsePySpaceHodge(from_space, to_space, from_d, to_d)
     return H.matrix, None
 
diff --git a/msepy/tools/linear_system/dynamic/main.py b/msepy/tools/linear_system/dynamic/main.py
index 971f4b2..69cf925 100644
--- a/msepy/tools/linear_system/dynamic/main.py
+++ b/msepy/tools/linear_system/dynamic/main.py
@@ -347,7 +347,7 @@ class MsePyDynamicLinearSystem(Frozen):
 
     def pr(self, figsize=(10, 4)):
         """pr"""
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         plt.rcParams.update({
             "text.usetex": True,
             "font.family": "DejaVu Sans",
diff --git a/msepy/tools/linear_system/static/local/main.py b/msepy/tools/linear_system/static/local/main.py
index 363ca40..8c1761d 100644
--- a/msepy/tools/linear_system/static/local/main.py
+++ b/msepy/tools/linear_system/static/local/main.py
@@ -274,7 +274,7 @@ class MsePyStaticLocalLinearSystem(Frozen):
             plt.text(0.05, 0.47, text, ha='left', va='top', size=15)
         plt.title(f'Local-Linear-System evaluated @ [{self._str_args}]')
         plt.tight_layout()
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_staticLocalLinearSystem')
         else:
diff --git a/msepy/tools/nonlinear_system/dynamic/main.py b/msepy/tools/nonlinear_system/dynamic/main.py
index b804cbc..f9772de 100644
--- a/msepy/tools/nonlinear_system/dynamic/main.py
+++ b/msepy/tools/nonlinear_system/dynamic/main.py
@@ -146,7 +146,7 @@ class MsePyDynamicNonLinearSystem(Frozen):
         """the test forms."""
         if self._tfs is None:
             self._tfs = list()
-            from msepy.main import base
+            from phyem.msepy.main import base
             msepy_forms = base['forms']
             abstract_tfs = self._mp_nls._mp._wf.test_forms
             for atf in abstract_tfs:
@@ -163,7 +163,7 @@ class MsePyDynamicNonLinearSystem(Frozen):
     def unknowns(self):
         if self._unknowns is None:
             self._unknowns = list()
-            from msepy.main import base
+            from phyem.msepy.main import base
             msepy_forms = base['forms']
             abstract_ufs = self._mp_nls._mp._wf.unknowns
             for auf in abstract_ufs:
@@ -250,7 +250,7 @@ class MsePyDynamicNonLinearSystem(Frozen):
         plt.axis((0, 1, 0, 1))
         plt.axis('off')
         plt.text(0.05, 0.5, text + bc_text, ha='left', va='center', size=15)
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_DynamicNoneLinearSystem')
         else:
diff --git a/msepy/tools/nonlinear_system/static/customize.py b/msepy/tools/nonlinear_system/static/customize.py
index bfe8b48..cf62d5b 100644
--- a/msepy/tools/nonlinear_system/static/customize.py
+++ b/msepy/tools/nonlinear_system/static/customize.py
@@ -150,8 +150,8 @@ class MsePyStaticNonlinearSystemCustomize(Frozen):
 
         # now we parse the boundary section
         the_msepy_boundary_section = None   # to store the found msepy boundary section
-        from msepy.manifold.main import MsePyManifold
-        from msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.main import base
         if boundary_section.__class__ is MsePyManifold:
 
             meshes = base['meshes']
@@ -229,8 +229,8 @@ class MsePyStaticNonlinearSystemCustomize(Frozen):
 
         # now we parse the boundary section
         the_msepy_boundary_section = None   # to store the found msepy boundary section
-        from msepy.manifold.main import MsePyManifold
-        from msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.main import base
         if boundary_section.__class__ is MsePyManifold:
 
             meshes = base['meshes']
diff --git a/msepy/tools/nonlinear_system/static/local.py b/msepy/tools/nonlinear_system/static/local.py
index 3847e3e..3382cea 100644
--- a/msepy/tools/nonlinear_system/static/local.py
+++ b/msepy/tools/nonlinear_system/static/local.py
@@ -285,7 +285,7 @@ class MsePyStaticLocalNonLinearSystem(Frozen):
 
         plt.title(f'Local-Linear-System evaluated @ [{self._str_args}]')
 
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_staticLocalNonLinearSystem')
         else:
diff --git a/msepy/tools/polynomials.py b/msepy/tools/polynomials.py
index b1d4129..184cace 100644
--- a/msepy/tools/polynomials.py
+++ b/msepy/tools/polynomials.py
@@ -297,7 +297,7 @@ class _OneDimPolynomial(Frozen):
         if saveto is not None:
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshVisualization')
             else:
@@ -426,7 +426,7 @@ class _OneDimPolynomial(Frozen):
         if saveto is not None:
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshVisualization')
             else:
diff --git a/src/algebra/array.py b/src/algebra/array.py
index 1569463..bcc2d41 100644
--- a/src/algebra/array.py
+++ b/src/algebra/array.py
@@ -182,7 +182,7 @@ class AbstractArray(Frozen):
             plt.axis('off')
             plt.text(0.05, 0.5, text, ha='left', va='center', size=15)
             plt.tight_layout()
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
 
     def __repr__(self):
diff --git a/src/algebra/linear_system.py b/src/algebra/linear_system.py
index 884d534..335d6e1 100644
--- a/src/algebra/linear_system.py
+++ b/src/algebra/linear_system.py
@@ -88,7 +88,7 @@ class BlockMatrix(Frozen):
 
     def pr(self, figsize=(12, 6)):
         """"""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -100,7 +100,7 @@ class BlockMatrix(Frozen):
         plt.axis('off')
         plt.text(0.05, 0.5, symbolic, ha='left', va='center', size=15)
         plt.tight_layout()
-        from src.config import _setting
+        from phyem.src.config import _setting
         plt.show(block=_setting['block'])
         return fig
 
@@ -168,7 +168,7 @@ class BlockColVector(Frozen):
 
     def pr(self, figsize=(8, 6)):
         """"""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -178,7 +178,7 @@ class BlockColVector(Frozen):
             plt.axis('off')
             plt.text(0.05, 0.5, symbolic, ha='left', va='center', size=15)
             plt.tight_layout()
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
             return fig
 
@@ -290,7 +290,7 @@ class LinearSystem(Frozen):
 
     def pr(self, figsize=(12, 6)):
         """pr"""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -300,7 +300,7 @@ class LinearSystem(Frozen):
             plt.axis('off')
             plt.text(0.05, 0.5, symbolic, ha='left', va='center', size=15)
             plt.tight_layout()
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
             return fig
 
diff --git a/src/time_sequence.py b/src/time_sequence.py
index f7c49b7..ebf3ef0 100644
--- a/src/time_sequence.py
+++ b/src/time_sequence.py
@@ -331,7 +331,7 @@ class ConstantTimeSequence(TimeSequence):
 
     def pr(self, obj=None):
         """print this constant interval time sequence together with an object."""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -458,7 +458,7 @@ class ConstantTimeSequence(TimeSequence):
                 )
             # ----- save -----------------------------------------------------
             plt.tight_layout()
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='constantTimeSequence')
             else:
diff --git a/src/wf/term/ap.py b/src/wf/term/ap.py
index f31f4a5..47da4ec 100644
--- a/src/wf/term/ap.py
+++ b/src/wf/term/ap.py
@@ -1835,7 +1835,7 @@ class _SimplePatternAPParser(Frozen):
 
         mass_matrix = _VarPar_M(A.space, A.space, A.degree, A.degree)
 
-        from src.spaces.operators import codifferential
+        from phyem.src.spaces.operators import codifferential
         pi_B_space = codifferential(A.space)
         pi_B_degree = A.degree
 
@@ -1873,7 +1873,7 @@ class _SimplePatternAPParser(Frozen):
 
         M = _VarPar_M(B.space, B.space, B.degree, B.degree)
 
-        from src.spaces.operators import codifferential
+        from phyem.src.spaces.operators import codifferential
         star_A_space = codifferential(B.space)
         star_A_degree = A.degree  # This Hodge could be inaccurate.
 
diff --git a/tools/functions/time_space/_2d/wrappers/scalar.py b/tools/functions/time_space/_2d/wrappers/scalar.py
index 08587a8..3a21729 100644
--- a/tools/functions/time_space/_2d/wrappers/scalar.py
+++ b/tools/functions/time_space/_2d/wrappers/scalar.py
@@ -253,7 +253,7 @@ class T2dScalar(TimeSpaceFunctionBase):
             else:
                 bounds = mesh_or_bounds
 
-            from msepy.main import _quick_mesh
+            from phyem.msepy.main import _quick_mesh
             mesh = _quick_mesh(*bounds)
         elif mesh_or_bounds is None:
             mesh = self.mesh
@@ -477,9 +477,9 @@ class T2dScalar(TimeSpaceFunctionBase):
         -------
 
         """
-        from msepy.main import base
-        from msepy.manifold.main import MsePyManifold
-        from msepy.mesh.main import MsePyMesh
+        from phyem.msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.mesh.main import MsePyMesh
         mesh = msepy_form.mesh
         assert mesh.__class__ is MsePyMesh, f"mesh must be a MsePyMesh!"
         assert boundary_msepy_manifold.__class__ is MsePyManifold, f"boundary_msepy_manifold must be a msepy manifold!"
diff --git a/tools/functions/time_space/_2d/wrappers/vector.py b/tools/functions/time_space/_2d/wrappers/vector.py
index ba71e4e..2757384 100644
--- a/tools/functions/time_space/_2d/wrappers/vector.py
+++ b/tools/functions/time_space/_2d/wrappers/vector.py
@@ -269,7 +269,7 @@ class T2dVector(TimeSpaceFunctionBase):
             else:
                 bounds = mesh_or_bounds
 
-            from msepy.main import _quick_mesh
+            from phyem.msepy.main import _quick_mesh
             mesh = _quick_mesh(*bounds)
         elif mesh_or_bounds is None:
             mesh = self.mesh
@@ -774,9 +774,9 @@ class T2dVector(TimeSpaceFunctionBase):
         -------
 
         """
-        from msepy.main import base
-        from msepy.manifold.main import MsePyManifold
-        from msepy.mesh.main import MsePyMesh
+        from phyem.msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.mesh.main import MsePyMesh
         mesh = msepy_form.mesh
         assert mesh.__class__ is MsePyMesh, f"mesh must be a MsePyMesh!"
         assert boundary_msepy_manifold.__class__ is MsePyManifold, f"boundary_msepy_manifold must be a msepy manifold!"
diff --git a/tools/miscellaneous/undirected_graph.py b/tools/miscellaneous/undirected_graph.py
index b6aa9b9..d5c94d0 100644
--- a/tools/miscellaneous/undirected_graph.py
+++ b/tools/miscellaneous/undirected_graph.py
@@ -217,7 +217,7 @@ class CoordinatedUndirectedGraph(Frozen):
             if saveto is not None and saveto != '':
                 plt.savefig(saveto, bbox_inches='tight', pad_inches=pad_inches)
             else:
-                from src.config import _setting, _pr_cache
+                from phyem.src.config import _setting, _pr_cache
                 if _setting['pr_cache']:
                     _pr_cache(fig, filename='msehtt_elements')
                 else:
-- 
2.43.0


From 26a910e9e94e55ee22446850a48bc0f9ee55b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 002/105] fix: drop cached mass matrices when msehtt is applied
 anew

The parser's mass matrix cache is keyed by id(space) and outlived the spaces: after
a second ph.fem.apply('msehtt', ...) a new space could get the mass matrices of a
dead one. The adaptive and multigrid implementations already clear it.
---
 msehtt/static/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msehtt/static/main.py b/msehtt/static/main.py
index 52c92ae..ae61100 100644
--- a/msehtt/static/main.py
+++ b/msehtt/static/main.py
@@ -62,6 +62,8 @@ def _clear_self():
     base['forms'] = dict()
     base['the_great_mesh'] = None
 
+    PARSER._setting_['_cache_M_'] = {}  # keyed by space id, which a new space may reuse.
+
     if RANK == MASTER_RANK:
         _info_cache['start_time'] = -1.
         _info_cache['info_count'] = 0
-- 
2.43.0


From e64d692b9698c7f36ed90c5f6586164b4939f279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 003/105] fix: do not serve msehtt caches of vanished meshes,
 spaces and forms

Caches of gathering, incidence and mass matrices, found dofs and trilinear
data use repr() as the key; the memory address in it is reused once an
instance is gone, so a new mesh could get the data of an old one.
---
 msehtt/static/form/main.py         | 9 +++++++--
 msehtt/static/mesh/great/main.py   | 7 ++++++-
 msehtt/static/mesh/partial/main.py | 8 +++++++-
 msehtt/static/space/main.py        | 8 +++++++-
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/msehtt/static/form/main.py b/msehtt/static/form/main.py
index feb688e..0908d57 100644
--- a/msehtt/static/form/main.py
+++ b/msehtt/static/form/main.py
@@ -4,6 +4,7 @@ r"""
 import numpy as np
 from typing import Dict
 import pickle
+from itertools import count
 
 from phyem.tools.frozen import Frozen
 from phyem.src.form.main import Form
@@ -24,8 +25,12 @@ from phyem.msehtt.static.form.print_.main import MseHtt_Static_Form_Print
 class MseHttForm(Frozen):
     r""""""
 
+    # Caches use repr as the key. The memory address in it can be reused once an instance is gone, thus a serial number.
+    ___serial___ = count()
+
     def __init__(self, abstract_root_form, SPECIAL=None):
         r""""""
+        self._serial_number = next(self.___serial___)
         self._pAti_form: Dict = {
             'base_form': None,  # the base form
             'ats': None,  # abstract time sequence
@@ -79,10 +84,10 @@ class MseHttForm(Frozen):
         r"""repr"""
         if self._ftype == 'regular':
             ab_rf_repr = self.abstract.__repr__().split(' at ')[0][1:]
-            return "<MseHtt " + ab_rf_repr + super().__repr__().split(" object")[1]
+            return f"<MseHtt #{self._serial_number} " + ab_rf_repr + super().__repr__().split(" object")[1]
         elif self._ftype == 'IMPLEMENTATION':
             ab_rf_repr = 'IMPLEMENTATION-form'
-            return "<MseHtt " + ab_rf_repr + super().__repr__().split(" object")[1]
+            return f"<MseHtt #{self._serial_number} " + ab_rf_repr + super().__repr__().split(" object")[1]
         else:
             raise Exception()
 
diff --git a/msehtt/static/mesh/great/main.py b/msehtt/static/mesh/great/main.py
index 101886f..173e8f3 100644
--- a/msehtt/static/mesh/great/main.py
+++ b/msehtt/static/mesh/great/main.py
@@ -2,6 +2,7 @@
 r"""
 """
 import pickle
+from itertools import count
 import numpy as np
 
 from phyem.tools.frozen import Frozen
@@ -34,8 +35,12 @@ from phyem.msehtt.static.mesh.great.config.trf import TRF
 class MseHttGreatMesh(Frozen):
     r""""""
 
+    # Caches use repr as the key. The memory address in it can be reused once an instance is gone, thus a serial number.
+    ___serial___ = count()
+
     def __init__(self):
         r""""""
+        self._serial_number = next(self.___serial___)
         self._msepy_manifold = None  # only for configuring msepy elements. It can be None for else situation.
         self._elements = None
         self._visualize = None
@@ -56,7 +61,7 @@ class MseHttGreatMesh(Frozen):
     def __repr__(self):
         r""""""
         super_repr = super().__repr__().split('object')[1]
-        return f"<{self.__class__.__name__}" + super_repr
+        return f"<{self.__class__.__name__} #{self._serial_number}" + super_repr
 
     @property
     def ___is_msehtt_great_mesh___(self):
diff --git a/msehtt/static/mesh/partial/main.py b/msehtt/static/mesh/partial/main.py
index 2557284..9a41ffe 100644
--- a/msehtt/static/mesh/partial/main.py
+++ b/msehtt/static/mesh/partial/main.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 r"""
 """
+from itertools import count
+
 import numpy as np
 
 from phyem.tools.miscellaneous.geometries.m2n2 import Point2, StraightLine2, whether_point_on_straight_line
@@ -21,8 +23,12 @@ class EmptyCompositionError(Exception):
 class MseHttMeshPartial(Frozen):
     """"""
 
+    # Caches use repr as the key. The memory address in it can be reused once an instance is gone, thus a serial number.
+    ___serial___ = count()
+
     def __init__(self, abstract_mesh):
         """"""
+        self._serial_number = next(self.___serial___)
         assert abstract_mesh.__class__ is Mesh, f"I need an abstract mesh."
         self._abstract = abstract_mesh
         self._tgm = None
@@ -88,7 +94,7 @@ class MseHttMeshPartial(Frozen):
 
     def __repr__(self):
         super_repr = super().__repr__().split('object')[1]
-        return f"<{self.__class__.__name__} " + self._abstract._sym_repr + super_repr
+        return f"<{self.__class__.__name__} #{self._serial_number} " + self._abstract._sym_repr + super_repr
 
     def _config(self, tgm, including):
         r""""""
diff --git a/msehtt/static/space/main.py b/msehtt/static/space/main.py
index 545d549..a3d056a 100644
--- a/msehtt/static/space/main.py
+++ b/msehtt/static/space/main.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 r"""
 """
+from itertools import count
+
 from phyem.tools.frozen import Frozen
 from phyem.msehtt.static.space.gathering_matrix.main import MseHttSpaceGatheringMatrix
 from phyem.msehtt.static.space.reduce.main import MseHttSpaceReduce
@@ -74,8 +76,12 @@ class _IMPLEMENTATION_AbstractSpace_(Frozen):
 class MseHttSpace(Frozen):
     r""""""
 
+    # Caches use repr as the key. The memory address in it can be reused once an instance is gone, thus a serial number.
+    ___serial___ = count()
+
     def __init__(self, abstract_space):
         """"""
+        self._serial_number = next(self.___serial___)
         self._abstract = abstract_space
         self._tpm = None
 
@@ -225,7 +231,7 @@ class MseHttSpace(Frozen):
     def __repr__(self):
         """repr"""
         ab_space_repr = self.abstract.__repr__().split(' at ')[0][1:]
-        return '<MseHtt ' + ab_space_repr + super().__repr__().split('object')[1]
+        return f'<MseHtt #{self._serial_number} ' + ab_space_repr + super().__repr__().split('object')[1]
 
     @property
     def gathering_matrix(self):
-- 
2.43.0


From c2a885ca527a0edd9db8054cfd99072d780e5e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 004/105] fix: tell elements of different shape or size apart

Metric signatures were rounded to a few absolute digits (and, for quads, left
the position of two vertices undetermined), so different elements, for example
all elements of a small domain, could share one cached metric or mass matrix.
---
 msehtt/static/mesh/great/elements/types/base.py |  9 +++++++++
 .../elements/types/orthogonal_hexahedron.py     |  6 +++---
 .../elements/types/orthogonal_rectangle.py      |  2 +-
 .../mesh/great/elements/types/vtu_5_triangle.py | 12 ++----------
 .../mesh/great/elements/types/vtu_9_quad.py     | 17 ++---------------
 msepy/manifold/predefined/crazy.py              |  2 +-
 msepy/manifold/predefined/crazy_multi.py        |  2 +-
 msepy/manifold/regions/standard/ct.py           | 15 ++++-----------
 8 files changed, 23 insertions(+), 42 deletions(-)

diff --git a/msehtt/static/mesh/great/elements/types/base.py b/msehtt/static/mesh/great/elements/types/base.py
index 6c0c45b..21ec986 100644
--- a/msehtt/static/mesh/great/elements/types/base.py
+++ b/msehtt/static/mesh/great/elements/types/base.py
@@ -592,6 +592,15 @@ def ___clean_cache_msehtt_element_ct___():
 from phyem.tools.miscellaneous.ndarray_cache import add_to_ndarray_cache, ndarray_key_comparer
 
 
+def ___polygon_metric_signature___(etype, parameters):
+    r"""Two polygon elements only share a signature when they are translations of each other (up to rounding error)."""
+    vertices = np.array(parameters, dtype=float)
+    edges = vertices[1:] - vertices[0]
+    size = np.max(np.abs(edges))
+    shape = np.round(edges / size, 9) + 0.0    # + 0.0: no negative zero
+    return f"{etype}:%.10e:" % size + ','.join(["%.9f" % _ for _ in shape.ravel()])
+
+
 class MseHttGreatMeshBaseElementCooTrans(Frozen):
     r""""""
     def __init__(self, element, metric_signature):
diff --git a/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py b/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
index b307315..4237ef1 100644
--- a/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
+++ b/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
@@ -48,9 +48,9 @@ class MseHttGreatMeshOrthogonalHexahedronElement(MseHttGreatMeshBaseElement):
         """"""
         origin_x, origin_y, origin_z = parameters['origin']
         delta_x, delta_y, delta_z = parameters['delta']
-        self._metric_signature = (f"OR:x%.5f" % round(delta_x, 5) +
-                                  "y%.5f" % round(delta_y, 5) +
-                                  "y%.5f" % round(delta_z, 5))
+        self._metric_signature = ("OR:x%.10e" % delta_x +
+                                  "y%.10e" % delta_y +
+                                  "z%.10e" % delta_z)
         super().__init__()
         self._index = element_index
         self._parameters = parameters
diff --git a/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py b/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
index ca11849..185bc12 100644
--- a/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
+++ b/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
@@ -47,7 +47,7 @@ class MseHttGreatMeshOrthogonalRectangleElement(MseHttGreatMeshBaseElement):
         r""""""
         origin_x, origin_y = parameters['origin']
         delta_x, delta_y = parameters['delta']
-        self._metric_signature = f"OR:x%.5f" % round(delta_x, 5) + "y%.5f" % round(delta_y, 5)
+        self._metric_signature = "OR:x%.10e" % delta_x + "y%.10e" % delta_y
         self._polygon = None
 
         super().__init__()
diff --git a/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py b/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py
index f29aec2..8081247 100644
--- a/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py
+++ b/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py
@@ -4,10 +4,8 @@ r"""
 import numpy as np
 
 from phyem.tools.frozen import Frozen
-from phyem.tools.functions.space._2d.angle import angle
 from phyem.tools.functions.space._2d.angles_of_triangle import angles_of_triangle
-from phyem.tools.functions.space._2d.distance import distance
-from phyem.msehtt.static.mesh.great.elements.types.base import MseHttGreatMeshBaseElement
+from phyem.msehtt.static.mesh.great.elements.types.base import MseHttGreatMeshBaseElement, ___polygon_metric_signature___
 
 
 class Vtu5Triangle(MseHttGreatMeshBaseElement):
@@ -36,13 +34,7 @@ class Vtu5Triangle(MseHttGreatMeshBaseElement):
 
     def __init__(self, element_index, parameters, _map):
         """"""
-        a, b, _ = angles_of_triangle(*parameters)
-        c = angle(parameters[0], parameters[1])
-        d = distance(parameters[0], parameters[1])
-        self._metric_signature = (f"5:a%.3f" % round(a, 3) +
-                                  "b%.3f" % round(b, 3) +
-                                  "c%.3f" % round(c, 3) +
-                                  "d%.6f" % round(d, 6))
+        self._metric_signature = ___polygon_metric_signature___(5, parameters)
 
         super().__init__()
         self._index = element_index
diff --git a/msehtt/static/mesh/great/elements/types/vtu_9_quad.py b/msehtt/static/mesh/great/elements/types/vtu_9_quad.py
index c35723d..ebcbe9f 100644
--- a/msehtt/static/mesh/great/elements/types/vtu_9_quad.py
+++ b/msehtt/static/mesh/great/elements/types/vtu_9_quad.py
@@ -7,11 +7,9 @@ from phyem.tools.frozen import Frozen
 
 from phyem.tools.miscellaneous.geometries.m2n2 import Point2, Polygon2, whether_point_in_polygon
 
-from phyem.tools.functions.space._2d.angle import angle
 from phyem.tools.functions.space._2d.angles_of_triangle import angles_of_triangle
-from phyem.tools.functions.space._2d.distance import distance
 
-from phyem.msehtt.static.mesh.great.elements.types.base import MseHttGreatMeshBaseElement
+from phyem.msehtt.static.mesh.great.elements.types.base import MseHttGreatMeshBaseElement, ___polygon_metric_signature___
 
 from phyem.msehtt.static.space.reconstruct.Lambda.Rc_m2n2k2 import ___rc222_msepy_quadrilateral___
 from phyem.msehtt.static.space.reconstruct.Lambda.Rc_m2n2k1 import ___rc221i_msepy_quadrilateral___
@@ -63,18 +61,7 @@ class Vtu9Quad(MseHttGreatMeshBaseElement):
 
     def __init__(self, element_index, parameters, _map):
         r""""""
-        a0, b, c0 = angles_of_triangle(parameters[0], parameters[1], parameters[2])   # in degree
-        a1, c1, _ = angles_of_triangle(parameters[0], parameters[2], parameters[3])   # in degree
-        a = a0 + a1
-        c = c0 + c1
-
-        d = angle(parameters[0], parameters[2])
-        dist = distance(parameters[0], parameters[2])
-        self._metric_signature = (f"9:a%.2f" % round(a, 2) +
-                                  "b%.2f" % round(b, 2) +
-                                  "c%.2f" % round(c, 2) +
-                                  "d%.3f" % round(d, 3) +
-                                  "dis%.5f" % round(dist, 5))
+        self._metric_signature = ___polygon_metric_signature___(9, parameters)
         self._polygon = None
 
         super().__init__()
diff --git a/msepy/manifold/predefined/crazy.py b/msepy/manifold/predefined/crazy.py
index b895436..781c7fa 100644
--- a/msepy/manifold/predefined/crazy.py
+++ b/msepy/manifold/predefined/crazy.py
@@ -180,7 +180,7 @@ def _crazy(mf, bounds=None, c=0, periodic=False):
         for i, lb_ub in enumerate(bounds):
             xyz = 'xyz'[i]
             lb, ub = lb_ub
-            d = str(round(ub - lb, 5))  # do this to round off the truncation error.
+            d = '%.10e' % (ub - lb)  # do this to round off the truncation error.
             mtype['parameters'].append(xyz + d)
     else:
         mtype = None  # this is a unique region. Its metric does not like any other.
diff --git a/msepy/manifold/predefined/crazy_multi.py b/msepy/manifold/predefined/crazy_multi.py
index 4c2ee74..90eb2ef 100644
--- a/msepy/manifold/predefined/crazy_multi.py
+++ b/msepy/manifold/predefined/crazy_multi.py
@@ -317,7 +317,7 @@ def _crazy_multi(mf, bounds=None, c=0, Ns=None, periodic=False):
             for i, lb_ub in enumerate(region_mappings._regions[r]._bounds):
                 xyz = 'xyz'[i]
                 lb, ub = lb_ub
-                d = str(round(ub - lb, 5))  # do this to round off the truncation error.
+                d = '%.10e' % (ub - lb)  # do this to round off the truncation error.
                 mtype['parameters'].append(xyz + d)
         else:
             mtype = None  # this is a unique region. Its metric does not like any other.
diff --git a/msepy/manifold/regions/standard/ct.py b/msepy/manifold/regions/standard/ct.py
index 4d8f133..fbcf33b 100644
--- a/msepy/manifold/regions/standard/ct.py
+++ b/msepy/manifold/regions/standard/ct.py
@@ -1,7 +1,6 @@
 # -*- coding: utf-8 -*-
 r"""
 """
-import numpy as np
 
 from phyem.tools.frozen import Frozen
 
@@ -93,7 +92,7 @@ class _MsePyRegionMtype(Frozen):
             assert len(layout) == len(self._parameters), f"layout or parameters dimensions wrong."
             assert len(layout) == element_numbering.ndim, f"layout or element_numbering dimensions wrong."
 
-            LayOut = [np.round(_, 5) for _ in layout]
+            LayOut = layout
             parameters = self._parameters
             axis = [_[0] for _ in parameters]
             para = [float(_[1:]) for _ in parameters]
@@ -102,8 +101,7 @@ class _MsePyRegionMtype(Frozen):
                 for i in range(len(LayOut[0])):
                     Li = LayOut[0][i]
                     pi = para[0] * Li
-                    pi = round(pi, 5)
-                    key = 'Linear:' + axis[0] + str(pi)
+                    key = 'Linear:' + axis[0] + '%.10e' % pi
 
                     element_number = element_numbering[i, ]
                     if key in element_mtype_dict:
@@ -117,9 +115,7 @@ class _MsePyRegionMtype(Frozen):
 
                         Li, Lj = LayOut[0][i], LayOut[1][j]
                         pi, pj = para[0] * Li, para[1] * Lj
-                        pi = round(pi, 5)
-                        pj = round(pj, 5)
-                        key = 'Linear:' + axis[0] + str(pi) + axis[1] + str(pj)
+                        key = 'Linear:' + axis[0] + '%.10e' % pi + axis[1] + '%.10e' % pj
 
                         element_number = element_numbering[i, j]
                         if key in element_mtype_dict:
@@ -134,10 +130,7 @@ class _MsePyRegionMtype(Frozen):
 
                             Li, Lj, Lk = LayOut[0][i], LayOut[1][j], LayOut[2][k]
                             pi, pj, pk = para[0] * Li, para[1] * Lj, para[2] * Lk
-                            pi = round(pi, 5)
-                            pj = round(pj, 5)
-                            pk = round(pk, 5)
-                            key = 'Linear:' + axis[0] + str(pi) + axis[1] + str(pj) + axis[2] + str(pk)
+                            key = 'Linear:' + axis[0] + '%.10e' % pi + axis[1] + '%.10e' % pj + axis[2] + '%.10e' % pk
 
                             element_number = element_numbering[i, j, k]
                             if key in element_mtype_dict:
-- 
2.43.0


From 29aebc53f30ecbdc698be8b481ec831b86ac56b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 005/105] fix: recognise boundary faces when numbering msepy 3d
 2-forms

---
 msepy/space/gathering_matrix/Lambda.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/msepy/space/gathering_matrix/Lambda.py b/msepy/space/gathering_matrix/Lambda.py
index a0bb713..6d5cf88 100644
--- a/msepy/space/gathering_matrix/Lambda.py
+++ b/msepy/space/gathering_matrix/Lambda.py
@@ -60,7 +60,7 @@ class MsePyGatheringMatrixLambda(Frozen):
         for n in range(self._mesh.elements._num):  # currently, we are numbering nth element.
             # we first see the north side__________________________________________
             what_north = element_map[n][0]
-            if isinstance(what_north, str):
+            if what_north == -1:  # the element map uses -1 for the boundary
                 # the north side of nth element is on domain boundary. So we just number it.
                 gn0[n, 0, :, :] = np.arange(current_number,
                                             current_number + num_basis_on_sides_dict['N']).reshape(
@@ -86,7 +86,7 @@ class MsePyGatheringMatrixLambda(Frozen):
             current_number += (p[0]-1)*p[1]*p[2]
             # next, we look at south side__________________________________________
             what_south = element_map[n][1]
-            if isinstance(what_south, str):
+            if what_south == -1:
                 # the south side of nth element is on domain boundary. So we just number it.
                 gn0[n, -1, :, :] = np.arange(current_number,
                                              current_number + num_basis_on_sides_dict['S']).reshape(
@@ -108,7 +108,7 @@ class MsePyGatheringMatrixLambda(Frozen):
 
             # we then look at the west side________________________________________
             what_west = element_map[n][2]
-            if isinstance(what_west, str):
+            if what_west == -1:
                 # the west side of nth element is on domain boundary. So we just number it.
                 gn1[n, :, 0, :] = np.arange(current_number,
                                             current_number + num_basis_on_sides_dict['W']).reshape(
@@ -134,7 +134,7 @@ class MsePyGatheringMatrixLambda(Frozen):
             current_number += p[0]*(p[1]-1)*p[2]
             # next, we look at east side___________________________________________
             what_east = element_map[n][3]
-            if isinstance(what_east, str):
+            if what_east == -1:
                 # the east side of nth element is on domain boundary. So we just number it.
                 gn1[n, :, -1, :] = np.arange(current_number,
                                              current_number + num_basis_on_sides_dict['E']).reshape(
@@ -155,7 +155,7 @@ class MsePyGatheringMatrixLambda(Frozen):
                 raise Exception()
             # we then look at the back side________________________________________
             what_back = element_map[n][4]
-            if isinstance(what_back, str):
+            if what_back == -1:
                 # the back side of nth element is on domain boundary. So we just number it.
                 gn2[n, :, :, 0] = np.arange(current_number,
                                             current_number + num_basis_on_sides_dict['B']).reshape(
@@ -182,7 +182,7 @@ class MsePyGatheringMatrixLambda(Frozen):
 
             # next, we look at front side__________________________________________
             what_front = element_map[n][5]
-            if isinstance(what_front, str):
+            if what_front == -1:
                 # the front side of nth element is on domain boundary. So we just number it.
                 gn2[n, :, :, -1] = np.arange(current_number,
                                              current_number + num_basis_on_sides_dict['F']).reshape(
-- 
2.43.0


From 87497133f930d0df7ae217027126db98f6dd7f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 006/105] fix: give triangles their own cache key for the inner
 1-form incidence matrix

---
 msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py b/msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py
index 8750393..f2f8aca 100644
--- a/msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py
+++ b/msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py
@@ -378,7 +378,7 @@ def _im221i_vtu5_(element, degree):
                 E[dn[i, j], sn[0][i, j + 1]] = -1   # y+
 
         E = csr_matrix(E)
-        cache_key = f"mq{p}"
+        cache_key = f"vtu5i{p}"
         _cache_vtu5_i_[p] = E, cache_key
 
     if 'm2n2k1_inner' not in element.dof_reverse_info:
-- 
2.43.0


From f3c0ee5742ea51d0108350b855f9858e00049e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 007/105] fix: use the Jacobian at every quadrature point in
 the msehtt inner product of 1-forms

---
 msehtt/static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msehtt/static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py b/msehtt/static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py
index 7c7d6a2..5991c14 100644
--- a/msehtt/static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py
+++ b/msehtt/static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py
@@ -70,7 +70,7 @@ def ___Lambda_ip_Lambda_over_SameTPM_m2n2k1___(
         v2 = V2[e]
 
         element = elements[e]
-        detJM = element.ct.Jacobian(quad_nodes, quad_nodes)
+        detJM = element.ct.Jacobian(*np.meshgrid(quad_nodes, quad_nodes, indexing='ij'))
 
         if inner_type == 'L2':
             ipe = np.einsum(
-- 
2.43.0


From 22be30a426ceef1d9cc5270cb98b1d2ba1557dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 008/105] fix: integrate over all three axes in the mass of
 msehtt 3d scalar forms

---
 msehtt/static/space/mass/Lambda/mass_m3n3k0.py | 2 +-
 msehtt/static/space/mass/Lambda/mass_m3n3k3.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/static/space/mass/Lambda/mass_m3n3k0.py b/msehtt/static/space/mass/Lambda/mass_m3n3k0.py
index 21a708f..0b76daa 100644
--- a/msehtt/static/space/mass/Lambda/mass_m3n3k0.py
+++ b/msehtt/static/space/mass/Lambda/mass_m3n3k0.py
@@ -40,7 +40,7 @@ def _mass330_msepy_quadrilateral_(element, local_cochain, degree):
     meshgrid = np.meshgrid(*nodes, indexing='ij')
     J = element.ct.Jacobian(*meshgrid)
     mass = np.einsum(
-        'ij, i, j -> ',
+        'ijk, i, j, k -> ',
         J * u, *weights,
         optimize='optimal'
     )
diff --git a/msehtt/static/space/mass/Lambda/mass_m3n3k3.py b/msehtt/static/space/mass/Lambda/mass_m3n3k3.py
index 7016b4a..042d64a 100644
--- a/msehtt/static/space/mass/Lambda/mass_m3n3k3.py
+++ b/msehtt/static/space/mass/Lambda/mass_m3n3k3.py
@@ -40,7 +40,7 @@ def _mass333_msepy_quadrilateral_(element, local_cochain, degree):
     meshgrid = np.meshgrid(*nodes, indexing='ij')
     J = element.ct.Jacobian(*meshgrid)
     mass = np.einsum(
-        'ij, i, j -> ',
+        'ijk, i, j, k -> ',
         J * u, *weights,
         optimize='optimal'
     )
-- 
2.43.0


From 82b2f2dc778262bd05e253308859c47a9881445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 009/105] fix: keep off-diagonal metric terms in mass matrices
 of curvilinear hexahedra

---
 .../space/mass_matrix/Lambda/MM_m3n3k1.py     | 35 ++++++++++++----
 .../space/mass_matrix/Lambda/MM_m3n3k2.py     | 41 +++++++++++++------
 2 files changed, 55 insertions(+), 21 deletions(-)

diff --git a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py
index 73a7bb7..a1c67f7 100644
--- a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py
+++ b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py
@@ -119,15 +119,32 @@ def ___mm331_unique_hexahedron___(element, degree):
         bf[2], bf[2],
         optimize='optimal'
     )
-    M00 = csr_matrix(M00)
-    M11 = csr_matrix(M11)
-    M22 = csr_matrix(M22)
-    M = bmat(
-        [
-            (M00, None, None),
-            (None, M11, None),
-            (None, None, M22)
-        ], format='csr'
+    M01 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * G[0][1],
+        bf[0], bf[1],
+        optimize='optimal'
+    )
+    M02 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * G[0][2],
+        bf[0], bf[2],
+        optimize='optimal'
+    )
+    M12 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * G[1][2],
+        bf[1], bf[2],
+        optimize='optimal'
+    )
+    M = csr_matrix(
+        np.block(
+            [
+                [M00, M01, M02],
+                [M01.T, M11, M12],
+                [M02.T, M12.T, M22]
+            ]
+        )
     )
 
     return M, 'unique'
diff --git a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py
index 664fa9b..33678da 100644
--- a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py
+++ b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py
@@ -103,31 +103,48 @@ def ___mm332_unique_hexahedron___(element, degree):
     g = element.ct.inverse_metric_matrix(*xi_et_sg)
     M00 = np.einsum(
         'm, im, jm -> ij',
-        quad_weights * detJM * g[1][1]*g[2][2],
+        quad_weights * detJM * (g[1][1]*g[2][2] - g[1][2]*g[2][1]),
         bf[0], bf[0],
         optimize='optimal'
     )
     M11 = np.einsum(
         'm, im, jm -> ij',
-        quad_weights * detJM * g[2][2]*g[0][0],
+        quad_weights * detJM * (g[2][2]*g[0][0] - g[2][0]*g[0][2]),
         bf[1], bf[1],
         optimize='optimal'
     )
     M22 = np.einsum(
         'm, im, jm -> ij',
-        quad_weights * detJM * g[0][0]*g[1][1],
+        quad_weights * detJM * (g[0][0]*g[1][1] - g[0][1]*g[1][0]),
         bf[2], bf[2],
         optimize='optimal'
     )
-    M00 = csr_matrix(M00)
-    M11 = csr_matrix(M11)
-    M22 = csr_matrix(M22)
-    M = bmat(
-        [
-            (M00, None, None),
-            (None, M11, None),
-            (None, None, M22)
-        ], format='csr'
+    M01 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * (g[1][2]*g[2][0] - g[1][0]*g[2][2]),
+        bf[0], bf[1],
+        optimize='optimal'
+    )
+    M02 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * (g[1][0]*g[2][1] - g[1][1]*g[2][0]),
+        bf[0], bf[2],
+        optimize='optimal'
+    )
+    M12 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * (g[2][0]*g[0][1] - g[2][1]*g[0][0]),
+        bf[1], bf[2],
+        optimize='optimal'
+    )
+    M = csr_matrix(
+        np.block(
+            [
+                [M00, M01, M02],
+                [M01.T, M11, M12],
+                [M02.T, M12.T, M22]
+            ]
+        )
     )
 
     return M, 'unique'
-- 
2.43.0


From 85e94e38ce6ba35e2167ca53dd0f70f348f334c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 010/105] fix: look up the local index of a dof before
 numbering it in a chained msehtt gathering matrix

---
 msehtt/tools/gathering_matrix.py                    | 12 ++++++++++--
 .../tools/nonlinear_system/static/solve/Picard.py   | 13 ++++++++-----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/msehtt/tools/gathering_matrix.py b/msehtt/tools/gathering_matrix.py
index ac3a580..6c80f64 100644
--- a/msehtt/tools/gathering_matrix.py
+++ b/msehtt/tools/gathering_matrix.py
@@ -304,8 +304,16 @@ class MseHttGatheringMatrix(Frozen):
         And 1536 will be returned in all ranks. So, this method should be called at the same time
         in all ranks with the same inputs.
         """
-        e, i = self._gms[ith_composition].find_representative_location(locally_global_dof)
-        return self.find_global_numbering_of_ith_composition_local_dof(ith_composition, e, i)
+        gm = self._gms[ith_composition]
+        _, element = gm.find_representative_location(locally_global_dof)
+        local_dof = None
+        for e, i in gm.find_rank_locations_of_global_dofs(locally_global_dof)[locally_global_dof]:
+            if e == element:
+                local_dof = i
+                break
+            else:
+                pass
+        return self.find_global_numbering_of_ith_composition_local_dof(ith_composition, element, local_dof)
 
     def find_global_numbering_of_ith_composition_local_dof(
             self, ith_composition, element_index, local_dof
diff --git a/msehtt/tools/nonlinear_system/static/solve/Picard.py b/msehtt/tools/nonlinear_system/static/solve/Picard.py
index 76a025a..221a65d 100644
--- a/msehtt/tools/nonlinear_system/static/solve/Picard.py
+++ b/msehtt/tools/nonlinear_system/static/solve/Picard.py
@@ -184,11 +184,14 @@ class MseHtt_NonlinearSystem_Picard(Frozen):
 
                     the_unknown = xi[ith_unknown]
                     the_gm = the_unknown._gm
-                    e, local_dof = the_gm.find_representative_location(global_dof)
-                    if e in the_unknown:
-                        initial_guess = the_unknown[e][global_dof]
-                    else:
-                        initial_guess = 0
+                    _, element = the_gm.find_representative_location(global_dof)
+                    initial_guess = 0
+                    for e, local_dof in the_gm.find_rank_locations_of_global_dofs(global_dof)[global_dof]:
+                        if e == element:
+                            initial_guess = the_unknown[e][local_dof]
+                            break
+                        else:
+                            pass
                     initial_guess = COMM.allreduce(initial_guess, op=MPI.SUM)
 
                     if insert_place == -1:
-- 
2.43.0


From 58b3154e94420fe190d27b4486a4c9fa2baa80cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 011/105] fix: use the x-extent for the x-bounds of an
 OrthogonalHexahedron

---
 tools/miscellaneous/geometries/m3n3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/miscellaneous/geometries/m3n3.py b/tools/miscellaneous/geometries/m3n3.py
index 641ced2..73c15e0 100644
--- a/tools/miscellaneous/geometries/m3n3.py
+++ b/tools/miscellaneous/geometries/m3n3.py
@@ -503,7 +503,7 @@ class OrthogonalHexahedron(Frozen):
 
         self._d_xyz = (abs(dx), abs(dy), abs(dz))
 
-        self._bounds0 = [x0, x0 + dy]
+        self._bounds0 = [x0, x0 + dx]
         self._bounds1 = [y0, y0 + dy]
         self._bounds2 = [z0, z0 + dz]
 
-- 
2.43.0


From 77a029fe37adfb802f58359aa8fc9bf18c5bdf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 012/105] fix: map all four corners when locating a 2-form dof
 in a quad element

---
 .../find/dof_geometry/local/findLocalDof_Lambda.py   | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/msehtt/static/space/find/dof_geometry/local/findLocalDof_Lambda.py b/msehtt/static/space/find/dof_geometry/local/findLocalDof_Lambda.py
index 9a1b5fe..2665786 100644
--- a/msehtt/static/space/find/dof_geometry/local/findLocalDof_Lambda.py
+++ b/msehtt/static/space/find/dof_geometry/local/findLocalDof_Lambda.py
@@ -156,14 +156,10 @@ def _find_geo_local_dof_m2n2k2_(degree, element, local_dof_index):
         xi_1 = nodes_xi[i+1]
         et_0 = nodes_et[j]
         et_1 = nodes_et[j+1]
-        x, y = element.ct.mapping(np.array([xi_0, xi_1]), np.array([et_0, et_1]))
-        x0, x1 = x
-        y0, y1 = y
-        point0 = Point2(x0, y0)
-        point1 = Point2(x1, y0)
-        point2 = Point2(x1, y1)
-        point3 = Point2(x0, y1)
-        return Polygon2(point0, point1, point2, point3)
+        x, y = element.ct.mapping(
+            np.array([xi_0, xi_1, xi_1, xi_0]), np.array([et_0, et_0, et_1, et_1])
+        )
+        return Polygon2(*[Point2(_x, _y) for _x, _y in zip(x, y)])
 
     else:
         raise NotImplementedError()
-- 
2.43.0


From 999dc074fc7341a221b200dab21d74ec65894360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 013/105] fix: find the tangential edges of a face for 3d msepy
 1-forms

---
 msepy/space/find/local_dofs.py | 40 ++++++++++++----------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/msepy/space/find/local_dofs.py b/msepy/space/find/local_dofs.py
index b2da771..cc44828 100644
--- a/msepy/space/find/local_dofs.py
+++ b/msepy/space/find/local_dofs.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 r"""
 """
+import numpy as np
+
 from phyem.tools.frozen import Frozen
 
 
@@ -214,40 +216,26 @@ class _MsePySpaceFindLocalDofs(Frozen):
         return face_local_numbering
 
     def _Lambda_m3_n3_k1(self, m, n, degree):
-        """"""
+        """The edges on a face are those along the two axes tangential to the face."""
         local_numbering_dx, local_numbering_dy, local_numbering_dz = self._space.local_numbering(degree)
 
-        if m == 0:
-            local_numbering = local_numbering_dx
-            if n == 0:
-                face_local_numbering = local_numbering[0, :, :]
-            elif n == 1:
-                face_local_numbering = local_numbering[-1, :, :]
-            else:
-                raise Exception()
+        if n == 0:
+            side = 0
+        elif n == 1:
+            side = -1
+        else:
+            raise Exception()
 
+        if m == 0:
+            tangential_edges = (local_numbering_dy[side, :, :], local_numbering_dz[side, :, :])
         elif m == 1:
-            local_numbering = local_numbering_dy
-            if n == 0:
-                face_local_numbering = local_numbering[:, 0, :]
-            elif n == 1:
-                face_local_numbering = local_numbering[:, -1, :]
-            else:
-                raise Exception()
-
+            tangential_edges = (local_numbering_dx[:, side, :], local_numbering_dz[:, side, :])
         elif m == 2:
-            local_numbering = local_numbering_dz
-            if n == 0:
-                face_local_numbering = local_numbering[:, :, 0]
-            elif n == 1:
-                face_local_numbering = local_numbering[:, :, -1]
-            else:
-                raise Exception()
-
+            tangential_edges = (local_numbering_dx[:, :, side], local_numbering_dy[:, :, side])
         else:
             raise Exception()
 
-        return face_local_numbering
+        return np.concatenate([edges.ravel('F') for edges in tangential_edges])
 
     def _Lambda_m3_n3_k2(self, m, n, degree):
         """"""
-- 
2.43.0


From 53c1fe86ec84185de39c82d05e7546f961bb3a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 014/105] fix: match cached evaluation points and node sets
 exactly instead of approximately

---
 msepy/tools/polynomials.py           | 2 +-
 tools/miscellaneous/ndarray_cache.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msepy/tools/polynomials.py b/msepy/tools/polynomials.py
index 184cace..d0e46ef 100644
--- a/msepy/tools/polynomials.py
+++ b/msepy/tools/polynomials.py
@@ -69,7 +69,7 @@ class _OneDimPolynomial(Frozen):
             if node in (-1, 1):
                 str_nodes_key.append(str(node))
             else:
-                str_nodes_key.append("%.5f" % node)
+                str_nodes_key.append(repr(float(node)))
         self._str_nodes_key = '|'.join(str_nodes_key)
         self._p_ = np.size(self.nodes) - 1
         self._isKronecker_ = True
diff --git a/tools/miscellaneous/ndarray_cache.py b/tools/miscellaneous/ndarray_cache.py
index 53b39e6..f6e03af 100644
--- a/tools/miscellaneous/ndarray_cache.py
+++ b/tools/miscellaneous/ndarray_cache.py
@@ -89,7 +89,7 @@ def ndarray_key_comparer(cache, arrays, check_str=''):
                         t_o_f = False
                         break
 
-                    if not np.allclose(ca, ia):
+                    if not np.array_equal(ca, ia):
                         t_o_f = False
                         break
 
@@ -105,7 +105,7 @@ def ndarray_key_comparer(cache, arrays, check_str=''):
 
         cache_arrays = keys[key]
         assert (len(cache_arrays) == len(arrays) and
-                all([np.allclose(cache_arrays[_], arrays[_]) for _ in range(len(cache_arrays))]) and
+                all([np.array_equal(cache_arrays[_], arrays[_]) for _ in range(len(cache_arrays))]) and
                 check_strings[key] == check_str), \
             f"safety check!"
         _, __ = 1, values[key]
@@ -173,6 +173,6 @@ def add_to_ndarray_cache(cache, arrays, results, check_str='', maximum=25):
     else:
         current_key = 0
 
-    keys[current_key] = arrays
+    keys[current_key] = [ar.copy() for ar in arrays]  # the caller may change its arrays later on.
     values[current_key] = results
     check_strings[current_key] = check_str
-- 
2.43.0


From eba581cce6604ba147379ee1909c56b5823e3407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 015/105] fix: convection_by of 2d/3d scalars and 3d vectors
 accepts the vector classes

---
 tools/functions/time_space/_2d/wrappers/scalar.py | 2 +-
 tools/functions/time_space/_3d/wrappers/scalar.py | 2 +-
 tools/functions/time_space/_3d/wrappers/vector.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/functions/time_space/_2d/wrappers/scalar.py b/tools/functions/time_space/_2d/wrappers/scalar.py
index 3a21729..ef108d3 100644
--- a/tools/functions/time_space/_2d/wrappers/scalar.py
+++ b/tools/functions/time_space/_2d/wrappers/scalar.py
@@ -372,7 +372,7 @@ class T2dScalar(TimeSpaceFunctionBase):
         -------
 
         """
-        assert u.__class__.__name__ == "t2dVector", f"I need a t2dVector."
+        assert u.__class__.__name__ == "T2dVector", f"I need a T2dVector."
 
         if self._dx is None:
             px = self._NPD_('x')
diff --git a/tools/functions/time_space/_3d/wrappers/scalar.py b/tools/functions/time_space/_3d/wrappers/scalar.py
index d310ca2..64f8afa 100644
--- a/tools/functions/time_space/_3d/wrappers/scalar.py
+++ b/tools/functions/time_space/_3d/wrappers/scalar.py
@@ -233,7 +233,7 @@ class T3dScalar(TimeSpaceFunctionBase):
         -------
 
         """
-        assert u.__class__.__name__ == "t3dVector", f"I need a t3dVector."
+        assert u.__class__.__name__ == "T3dVector", f"I need a T3dVector."
 
         if self._dx is None:
             px = self._NPD_('x')
diff --git a/tools/functions/time_space/_3d/wrappers/vector.py b/tools/functions/time_space/_3d/wrappers/vector.py
index 7c0d528..e34bcf4 100644
--- a/tools/functions/time_space/_3d/wrappers/vector.py
+++ b/tools/functions/time_space/_3d/wrappers/vector.py
@@ -408,7 +408,7 @@ class T3dVector(TimeSpaceFunctionBase):
         -------
 
         """
-        assert u.__class__.__name__ == "t3dVector", f"I need a t3dVector."
+        assert u.__class__.__name__ == "T3dVector", f"I need a T3dVector."
 
         if self._du_dx is None:
             v0px = self._NPD0_('x')
@@ -435,7 +435,7 @@ class T3dVector(TimeSpaceFunctionBase):
         else:
             v1py = self._dv_dy
 
-        if self._dv_dz:
+        if self._dv_dz is None:
             v1pz = self._NPD1_('z')
         else:
             v1pz = self._dv_dz
-- 
2.43.0


From e86eb2eb9176cfe09b6cbcc5c3e446e8829667d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 016/105] fix: 3d vectors pass z to their linked object and to
 the check of given derivatives

---
 tools/functions/time_space/_3d/wrappers/vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/functions/time_space/_3d/wrappers/vector.py b/tools/functions/time_space/_3d/wrappers/vector.py
index e34bcf4..adeec3a 100644
--- a/tools/functions/time_space/_3d/wrappers/vector.py
+++ b/tools/functions/time_space/_3d/wrappers/vector.py
@@ -162,7 +162,7 @@ class T3dVector(TimeSpaceFunctionBase):
         if self._v0v1v2_linked_object is None:
             return self._v0_(t, x, y, z), self._v1_(t, x, y, z), self._v2_(t, x, y, z)
         else:
-            return self._v0v1v2_linked_object(t, x, y)
+            return self._v0v1v2_linked_object(t, x, y, z)
 
     def __getitem__(self, t):
         """return functions evaluated at time `t`."""
@@ -237,7 +237,7 @@ class T3dVector(TimeSpaceFunctionBase):
         else:
             # 4.1) do dt, dx, dy checking ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             for i in X:
-                x, y, z = X[i], Y[i], X[i]
+                x, y, z = X[i], Y[i], Z[i]
                 t = self._find_random_testing_time_instance_()
                 npd_u = NumericalPartialDerivativeTxyz(self._v0_, t, x, y, z)
                 npd_v = NumericalPartialDerivativeTxyz(self._v1_, t, x, y, z)
-- 
2.43.0


From a50c4e15c296f5da79646b4d58b2656a41833d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 017/105] fix: numerical 3d Jacobian returns the total
 derivatives

---
 tools/numerical/space/_3d/Jacobian_33.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/numerical/space/_3d/Jacobian_33.py b/tools/numerical/space/_3d/Jacobian_33.py
index de2b860..ba27c74 100644
--- a/tools/numerical/space/_3d/Jacobian_33.py
+++ b/tools/numerical/space/_3d/Jacobian_33.py
@@ -29,11 +29,11 @@ class NumericalJacobianXYZrst33(ABC):
 
     def Jacobian_matrix(self, r, s, t, h=1e-6):
         xr, xs, xt = NumericalPartialDerivativeXYZ(self._evaluate_func33_for_x_rst,
-                                                   r, s, t, h=h)
+                                                   r, s, t, h=h).total_derivative
         yr, ys, yt = NumericalPartialDerivativeXYZ(self._evaluate_func33_for_y_rst,
-                                                   r, s, t, h=h)
+                                                   r, s, t, h=h).total_derivative
         zr, zs, zt = NumericalPartialDerivativeXYZ(self._evaluate_func33_for_z_rst,
-                                                   r, s, t, h=h)
+                                                   r, s, t, h=h).total_derivative
         return ((xr, xs, xt),
                 (yr, ys, yt),
                 (zr, zs, zt))
-- 
2.43.0


From 8e744be0a16da81ee5d603e050afb8b706fc06b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 018/105] fix: assembling with a threshold does not change the
 local matrices

---
 msehtt/tools/matrix/static/local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/tools/matrix/static/local.py b/msehtt/tools/matrix/static/local.py
index a45ca09..d46fd56 100644
--- a/msehtt/tools/matrix/static/local.py
+++ b/msehtt/tools/matrix/static/local.py
@@ -734,7 +734,7 @@ class MseHttStaticLocalMatrixAssemble(Frozen):
             if threshold is None:
                 pass
             else:
-                data[np.abs(data) < threshold] = 0.
+                data = np.where(np.abs(data) < threshold, 0., data)  # the local matrix itself must stay.
 
             nums: list = list(diff(indptr))
             row = []
@@ -874,7 +874,7 @@ class MseHttStaticLocalMatrixAssemble(Frozen):
             if threshold is None:
                 pass
             else:
-                data[np.abs(data) < threshold] = 0.
+                data = np.where(np.abs(data) < threshold, 0., data)  # the local matrix itself must stay.
 
             nums: list = list(diff(indptr))
             row = []
-- 
2.43.0


From a0f2f352f37af07500d179dce5d7c8b6abfddb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 019/105] fix: operations on customized msehtt local matrices
 use the customized elements

---
 msehtt/tools/matrix/static/local.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/msehtt/tools/matrix/static/local.py b/msehtt/tools/matrix/static/local.py
index d46fd56..1ce028c 100644
--- a/msehtt/tools/matrix/static/local.py
+++ b/msehtt/tools/matrix/static/local.py
@@ -81,21 +81,28 @@ class MseHttStaticLocalMatrix(Frozen):
     def _parse_cache_key(self, cache_key):
         r""""""
         if cache_key is None:
-            self._cache_key = self._unique_cache_key
+            self.___raw_cache_key___ = self._unique_cache_key
         elif cache_key == 'unique':
-            self._cache_key = self._unique_cache_key
+            self.___raw_cache_key___ = self._unique_cache_key
         elif isinstance(cache_key, dict):
             self.___cache_key_dict___ = cache_key
-            self._cache_key = self._dict_cache_key_caller
+            self.___raw_cache_key___ = self._dict_cache_key_caller
         elif callable(cache_key):
-            self._cache_key = cache_key
+            self.___raw_cache_key___ = cache_key
         elif cache_key == 'zero':
-            self._cache_key = self.___zero_cache_key___
+            self.___raw_cache_key___ = self.___zero_cache_key___
         else:
             raise NotImplementedError()
 
         for i in self:
-            _ = self._cache_key(i)  # make sure cache key is valid for all rank great elements.
+            _ = self.___raw_cache_key___(i)  # make sure cache key is valid for all rank great elements.
+
+    def _cache_key(self, i):
+        r"""A customized element matrix is not the one that its cache key stands for."""
+        if self._customize is not None and i in self._customize:
+            return 'unique'
+        else:
+            return self.___raw_cache_key___(i)
 
     def ___zero_cache_key___(self, i):
         r""""""
-- 
2.43.0


From 1a30e1c33d33f7d738478ff4693d3c086b8c6957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 020/105] fix: cache keys of products of msehtt local matrices
 are unambiguous

---
 msehtt/tools/matrix/static/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msehtt/tools/matrix/static/local.py b/msehtt/tools/matrix/static/local.py
index 1ce028c..721cd92 100644
--- a/msehtt/tools/matrix/static/local.py
+++ b/msehtt/tools/matrix/static/local.py
@@ -373,7 +373,7 @@ class MseHttStaticLocalMatrix(Frozen):
                     if key2 == 'unique':
                         return 'unique'
                     else:
-                        return key1 + key2
+                        return key1 + '@' + key2
 
             if 'unique' in self._signature or 'unique' in other._signature:
                 signature = '[unique]'
-- 
2.43.0


From 8e88064bdf0940124307dc221d7165f021cc9c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:58 +0000
Subject: [PATCH 021/105] fix: arithmetic on msehtt static cochain vectors
 gives local vectors

---
 msehtt/tools/vector/static/local.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/msehtt/tools/vector/static/local.py b/msehtt/tools/vector/static/local.py
index 4d9ee0e..62e8c6e 100644
--- a/msehtt/tools/vector/static/local.py
+++ b/msehtt/tools/vector/static/local.py
@@ -245,7 +245,7 @@ class MseHttStaticLocalVector(Frozen):
         if isinstance(other, (int, float)):
             def data_caller(i):
                 return other * self[i]
-            return self.__class__(data_caller, self._gm)
+            return MseHttStaticLocalVector(data_caller, self._gm)
         else:
             raise NotImplementedError()
 
@@ -259,7 +259,7 @@ class MseHttStaticLocalVector(Frozen):
             for e in self._gm:
                 data_dict[e] = self[e] + other[e]
 
-            return self.__class__(data_dict, self._gm)
+            return MseHttStaticLocalVector(data_dict, self._gm)
         else:
             raise NotImplementedError(other.__class__)
 
@@ -273,7 +273,7 @@ class MseHttStaticLocalVector(Frozen):
             for e in self._gm:
                 data_dict[e] = self[e] - other[e]
 
-            return self.__class__(data_dict, self._gm)
+            return MseHttStaticLocalVector(data_dict, self._gm)
         else:
             raise NotImplementedError(other.__class__)
 
@@ -282,7 +282,7 @@ class MseHttStaticLocalVector(Frozen):
         def data_caller(i):
             return - self[i]
 
-        return self.__class__(data_caller, self._gm)
+        return MseHttStaticLocalVector(data_caller, self._gm)
 
 
 class _MseHtt_StaticVector_Customize(Frozen):
-- 
2.43.0


From 6a6d072c7450d005952c4bfacbcef9de067e485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 022/105] fix: msepy cochains interpolate between the two
 enclosing instants

---
 msepy/form/cochain/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/form/cochain/main.py b/msepy/form/cochain/main.py
index 277c4ee..623c728 100644
--- a/msepy/form/cochain/main.py
+++ b/msepy/form/cochain/main.py
@@ -178,7 +178,7 @@ class MsePyRootFormCochain(Frozen):
                         segment_lb = None
                         segment_ub = None
                         for i, segment_lb in enumerate(cochain_times):
-                            if t >= segment_lb:
+                            if segment_lb <= t <= cochain_times[i+1]:
                                 segment_ub = cochain_times[i+1]
                                 break
                             else:
-- 
2.43.0


From 249f82b52883f2bac37d54c2bd6f50ab279b71ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 023/105] fix: cleaning the cochain of an msepy form that has
 none

---
 msepy/form/cochain/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/form/cochain/main.py b/msepy/form/cochain/main.py
index 623c728..36c3bbb 100644
--- a/msepy/form/cochain/main.py
+++ b/msepy/form/cochain/main.py
@@ -95,7 +95,7 @@ class MsePyRootFormCochain(Frozen):
             new_tcd = {}
             if what is None:  # clear all t except the newest t
                 newest_t = self._newest_t
-                if new_tcd is None:
+                if newest_t is None:
                     pass
                 else:
                     new_tcd[newest_t] = self._tcd[newest_t]
-- 
2.43.0


From 922cb6f50933e52de3cf24c55fc7c91eef5120c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 024/105] fix: cleaning the newest cochain of an msehtt form
 updates the newest instant

---
 msehtt/static/form/cochain/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msehtt/static/form/cochain/main.py b/msehtt/static/form/cochain/main.py
index 6ee4b92..6272e4a 100644
--- a/msehtt/static/form/cochain/main.py
+++ b/msehtt/static/form/cochain/main.py
@@ -144,6 +144,7 @@ class MseHttCochain(Frozen):
 
                 if t in self._tcd:
                     del self._tcd[t]
+                    self._newest_t = max(self._tcd) if len(self._tcd) > 0 else None
                 else:
                     pass
 
-- 
2.43.0


From fdc83afb397674b647c0cbda7bb0058de718a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 025/105] fix: customizing an msepy local vector does not
 change its data

---
 msepy/tools/vector/static/local.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msepy/tools/vector/static/local.py b/msepy/tools/vector/static/local.py
index 5fa9756..db6fe4e 100644
--- a/msepy/tools/vector/static/local.py
+++ b/msepy/tools/vector/static/local.py
@@ -286,11 +286,11 @@ class MsePyStaticLocalVectorCustomize(Frozen):
         dof = list(elements_local_rows.keys())[0]
         elements, local_rows = elements_local_rows[dof]
         element, local_row = elements[0], local_rows[0]
-        data = self._v[element]
+        data = self._v[element].copy()
         data[local_row] = value
         self._customizations[element] = data
         for element, local_row in zip(elements[1:], local_rows[1:]):
-            data = self._v[element]
+            data = self._v[element].copy()
             data[local_row] = 0
             self._customizations[element] = data
 
@@ -320,7 +320,7 @@ class MsePyStaticLocalVectorCustomize(Frozen):
 
         involved_data = dict()
         for element in involved_elements:
-            involved_data[element] = self._v[element]
+            involved_data[element] = self._v[element].copy()
 
         for dof in dof_cochain_dict:
             cochain = dof_cochain_dict[dof]
-- 
2.43.0


From 65696148efb1be3d1a3565f827b1b9f87a6a0a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 026/105] fix: arithmetic on msepy static cochain vectors gives
 local vectors

---
 msepy/tools/vector/static/local.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/msepy/tools/vector/static/local.py b/msepy/tools/vector/static/local.py
index db6fe4e..37b2c01 100644
--- a/msepy/tools/vector/static/local.py
+++ b/msepy/tools/vector/static/local.py
@@ -190,7 +190,7 @@ class MsePyStaticLocalVector(Frozen):
 
                 data = other * self.data
 
-                return self.__class__(data, self._gm)
+                return MsePyStaticLocalVector(data, self._gm)
 
             elif self._dtype == 'callable':
                 raise NotImplementedError()
@@ -208,13 +208,13 @@ class MsePyStaticLocalVector(Frozen):
             elif self._dtype in ("homogeneous", "2d") and other._dtype in ("homogeneous", "2d"):
 
                 data = self.data + other.data
-                return self.__class__(data, self._gm)
+                return MsePyStaticLocalVector(data, self._gm)
 
             elif self._dtype == 'callable' or other._dtype == 'callable':
                 def ___add___(i):
                     return self[i] + other[i]
 
-                return self.__class__(___add___, self._gm)
+                return MsePyStaticLocalVector(___add___, self._gm)
 
         else:
             raise NotImplementedError(f"{other}")
@@ -229,7 +229,7 @@ class MsePyStaticLocalVector(Frozen):
             if len(self._customize) == 0:
                 data = - self.data
 
-                return self.__class__(data, self._gm)
+                return MsePyStaticLocalVector(data, self._gm)
 
             else:
 
@@ -237,14 +237,14 @@ class MsePyStaticLocalVector(Frozen):
                     """"""
                     return - self[i]
 
-                return self.__class__(___neg_data___, self._gm)
+                return MsePyStaticLocalVector(___neg_data___, self._gm)
 
         elif self._dtype == 'callable':
 
             def ___neg_callable___(i):
                 return - self[i]
 
-            return self.__class__(___neg_callable___, self._gm)
+            return MsePyStaticLocalVector(___neg_callable___, self._gm)
 
         else:
             raise NotImplementedError()
-- 
2.43.0


From f58a627465ed00c68f6d467f358038c721c97241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 027/105] fix: set_values of msepy local matrices handles
 repeated rows and columns

---
 msepy/tools/matrix/static/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/matrix/static/local.py b/msepy/tools/matrix/static/local.py
index eaf3b57..8031fdb 100644
--- a/msepy/tools/matrix/static/local.py
+++ b/msepy/tools/matrix/static/local.py
@@ -642,7 +642,7 @@ class _MsePyStaticLocalMatrixCustomize(Frozen):
 
         all_positions = dict()
 
-        for global_row, global_col, val in zip(elements_local_rows, elements_local_cols, vals):
+        for global_row, global_col, val in zip(rows, cols, vals):  # rows and cols can be repeated.
             row_elements_indices = elements_local_rows[global_row]
             col_elements_indices = elements_local_cols[global_col]
 
-- 
2.43.0


From 6bfa446527f92b61abf1255ad2ae5fcd72b37703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 028/105] fix: negative element index in
 set_local_dof_ij_of_unknown_k_to_value counts from the last element

---
 msepy/tools/linear_system/static/local/customize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/linear_system/static/local/customize.py b/msepy/tools/linear_system/static/local/customize.py
index 133121a..3ad1c60 100644
--- a/msepy/tools/linear_system/static/local/customize.py
+++ b/msepy/tools/linear_system/static/local/customize.py
@@ -71,7 +71,7 @@ class MsePyStaticLinearSystemCustomize(Frozen):
         num_elements, k_num_local_dofs = k_gm.shape
 
         if i < 0:
-            _i = i + k_num_local_dofs
+            _i = i + num_elements
         else:
             _i = i
 
-- 
2.43.0


From 7a1cbe8f1b6e0e068bbc3f3dea80c44565615b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 029/105] fix: msepy lgmres accepts its default
 preconditioner=False

---
 msepy/tools/linear_system/static/assembled/solvers/_scipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/linear_system/static/assembled/solvers/_scipy.py b/msepy/tools/linear_system/static/assembled/solvers/_scipy.py
index ec48dc7..aba9be8 100644
--- a/msepy/tools/linear_system/static/assembled/solvers/_scipy.py
+++ b/msepy/tools/linear_system/static/assembled/solvers/_scipy.py
@@ -74,7 +74,7 @@ class _PackageScipy(Frozen):
                 }
 
         """
-        if preconditioner_parameters is None:
+        if preconditioner_parameters is None or preconditioner_parameters is False:
             return None
         else:
             if preconditioner_parameters is True:  # use the default preconditioner: spilu
-- 
2.43.0


From 4552a9b2b5c3bd2643cb4a50cba19b32000c429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 030/105] fix: gmres/lgmres survive (lucky) breakdown and a
 zero residual instead of returning NaN

---
 .../static/global_/solvers/mpi_py.py          | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py b/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
index ce503e1..ad219eb 100644
--- a/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
+++ b/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
@@ -111,7 +111,7 @@ def gmres(
         COMM.Reduce(v0, VV, op=MPI.SUM, root=MASTER_RANK)
         if RANK == MASTER_RANK:
             beta = np.sum(VV ** 2) ** 0.5
-            v0 = VV / beta
+            v0 = VV if beta == 0 else VV / beta
         else:
             beta = None
 
@@ -181,7 +181,10 @@ def gmres(
                 Hm[j + 1, j] = np.sum(hat_v_jp1 ** 2) ** 0.5
 
                 if j < restart - 1:
-                    v_jp1 = hat_v_jp1 / Hm[j+1, j]
+                    if Hm[j+1, j] == 0:  # (lucky) breakdown: no new direction
+                        v_jp1 = hat_v_jp1
+                    else:
+                        v_jp1 = hat_v_jp1 / Hm[j+1, j]
                 else:
                     del v_jp1
 
@@ -203,11 +206,9 @@ def gmres(
         COMM.Reduce(Hm, HM, op=MPI.SUM, root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
-            HMT = HM.T
-            ls_A = HMT @ HM
-            ls_b = HMT[:, 0] * beta
-            ym = np.linalg.solve(ls_A, ls_b)
-            # del HMT, ls_A, ls_b
+            ls_b = np.zeros(restart + 1)
+            ls_b[0] = beta
+            ym = np.linalg.lstsq(HM, ls_b, rcond=None)[0]
             x0 += ym.T @ Vm
 
         COMM.Bcast(x0, root=MASTER_RANK)
@@ -326,7 +327,7 @@ def lgmres(
         COMM.Reduce(v0, VV, op=MPI.SUM, root=MASTER_RANK)
         if RANK == MASTER_RANK:
             beta = np.sum(VV ** 2) ** 0.5
-            v0 = VV / beta
+            v0 = VV if beta == 0 else VV / beta
         else:
             beta = None
 
@@ -416,7 +417,10 @@ def lgmres(
                 Hm[j + 1, j] = np.sum(hat_v_jp1 ** 2) ** 0.5
 
                 if j < restart - 1:
-                    v_jp1 = hat_v_jp1 / Hm[j + 1, j]
+                    if Hm[j + 1, j] == 0:  # (lucky) breakdown: no new direction
+                        v_jp1 = hat_v_jp1
+                    else:
+                        v_jp1 = hat_v_jp1 / Hm[j + 1, j]
                 else:
                     del v_jp1
 
@@ -438,10 +442,9 @@ def lgmres(
         COMM.Reduce(Hm, HM, op=MPI.SUM, root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
-            HMT = HM.T
-            ls_A = HMT @ HM
-            ls_b = HMT[:, 0] * beta
-            ym = np.linalg.solve(ls_A, ls_b)
+            ls_b = np.zeros(restart + 1)
+            ls_b[0] = beta
+            ym = np.linalg.lstsq(HM, ls_b, rcond=None)[0]
         else:
             pass
 
-- 
2.43.0


From 894bfe227a6d5e5d116bcdbd6c2f2c99c9b60954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 031/105] fix: add up the boundary integrals of all faces at
 shared dofs of an element

A 0-form (2D, 3D) or 1-form (3D) dof at a corner or edge belongs to several boundary faces
of one element; the contribution of the last face replaced the others.
---
 msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py               | 4 ++--
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py               | 2 +-
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py               | 2 +-
 .../with_vc_over_boundary_section/Lambda.py                   | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py
index 9bc8340..25461ea 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py
@@ -50,7 +50,7 @@ def bi_vc__m2n2k0_outer(rf0, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
@@ -146,7 +146,7 @@ def bi_vc__m2n2k0_inner(rf0, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
index 6df07fc..094cc02 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
@@ -40,7 +40,7 @@ def bi_vc__m3n3k0(rf0, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py
index e19fa76..b4e77da 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py
@@ -43,7 +43,7 @@ def bi_vc__m3n3k1(rf1, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
diff --git a/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py b/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
index 3044be7..e31fa7f 100644
--- a/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
+++ b/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
@@ -123,7 +123,7 @@ class BoundaryIntegrateVCBSLambda(Frozen):
                     Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
 
                 boundary_integration = np.sum(trStar_1f * tr_0f * weights * Jacobian, axis=1)
-                bi_data[element, local_dofs] = boundary_integration
+                bi_data[element, local_dofs] += boundary_integration
 
             return bi_data
 
@@ -196,7 +196,7 @@ class BoundaryIntegrateVCBSLambda(Frozen):
                     Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
 
                 boundary_integration = np.sum(trStar_1f * tr_0f * weights * Jacobian, axis=1)
-                bi_data[element, local_dofs] = boundary_integration
+                bi_data[element, local_dofs] += boundary_integration
 
             return bi_data
 
-- 
2.43.0


From b70bda8dd5320bb4790b7a9f1066b935c634e843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 032/105] fix: sign of the boundary integral for inner 1-forms
 in 2D

(d* f, g) = (f, d g) - < tr star f | tr g > requires tr g = g_y n_x - g_x n_y
for rot g = d_x g_y - d_y g_x, as used by the incidence matrix and codifferential.
---
 msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py               | 4 ++--
 .../with_vc_over_boundary_section/Lambda.py                   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py
index 2177b4b..4299408 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py
@@ -234,7 +234,7 @@ def ___bi_vc_221i_msepy_quadrilateral___(element, degree, face, tvc):
     onv = face.ct.outward_unit_normal_vector(nodes)
     nx, ny = onv
     trStar_vc = tvc(*xy)[0]
-    trace_1f = vx * ny - vy * nx  # <~ | trace-inner-f>;
+    trace_1f = vy * nx - vx * ny  # <~ | trace-inner-f>;
     JM = face.ct.Jacobian_matrix(nodes)
     Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
     face_boundary_integration_vec = np.sum(trStar_vc * trace_1f * weights * Jacobian, axis=1)
@@ -280,7 +280,7 @@ def ___bi_vc_221i_quad_9___(element, degree, face, tvc):
     onv = face.ct.outward_unit_normal_vector(nodes)
     nx, ny = onv
     trStar_vc = tvc(*xy)[0]
-    trace_1f = vx * ny - vy * nx  # <~ | trace-inner-f>;
+    trace_1f = vy * nx - vx * ny  # <~ | trace-inner-f>;
     JM = face.ct.Jacobian_matrix(nodes)
     Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
     face_boundary_integration_vec = np.sum(trStar_vc * trace_1f * weights * Jacobian, axis=1)
diff --git a/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py b/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
index e31fa7f..78e37fd 100644
--- a/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
+++ b/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
@@ -332,7 +332,7 @@ class BoundaryIntegrateVCBSLambda(Frozen):
             # below, we evaluate vc on the boundary
             trStar_vc = vc(t, *xy)[0]
             # this vector calculus object (a scalar) is for all regions; # <trStar_vc | ~>
-            trace_1f = vx * ny - vy * nx  # <~ | trace-inner-1-f>
+            trace_1f = vy * nx - vx * ny  # <~ | trace-inner-1-f>
 
             if face.is_orthogonal():
                 length = face.length
-- 
2.43.0


From 5cb02c489fa94bb393cf11bea9d6bf17b7d9a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 033/105] fix: msehtt natural bc on more than one boundary
 section for the same form

Only the last section given for a form contributed to the right-hand side, the others were dropped.
---
 msehtt/static/implementation_array_parser.py | 59 ++++++++++++--------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/msehtt/static/implementation_array_parser.py b/msehtt/static/implementation_array_parser.py
index fe86a1a..b9287d6 100644
--- a/msehtt/static/implementation_array_parser.py
+++ b/msehtt/static/implementation_array_parser.py
@@ -297,8 +297,8 @@ class _TrStarRf0DualPairingTrS1(Frozen):
             base_form = found_root_form
             self._ati = None
 
-        found_natural_bc = None
-        found_boundary_section_sym_repr = None
+        found_natural_bcs = list()  # the form can be given as natural bc on multiple boundary sections.
+        found_boundary_section_sym_reprs = list()
         for boundary_section in dls.bc:
             bcs = dls.bc[boundary_section]
             for bc in bcs:
@@ -310,34 +310,36 @@ class _TrStarRf0DualPairingTrS1(Frozen):
 
                     if self._ati is None:  # provided_root_form is the base (general) form
                         if base_form._pure_lin_repr == provided_root_form._pure_lin_repr:
-                            found_natural_bc = bc
-                            found_boundary_section_sym_repr = boundary_section
+                            found_natural_bcs.append(bc)
+                            found_boundary_section_sym_reprs.append(boundary_section)
                             break
                         else:
                             pass
                     else:  # provided_root_form is an abstract form
                         if found_root_form._pure_lin_repr == provided_root_form._pure_lin_repr:
-                            found_natural_bc = bc
-                            found_boundary_section_sym_repr = boundary_section
+                            found_natural_bcs.append(bc)
+                            found_boundary_section_sym_reprs.append(boundary_section)
                             break
                         else:
                             pass
                 else:
                     pass
 
-        assert found_natural_bc is not None, f"we must have found a dls natural bc!"
-        assert found_boundary_section_sym_repr is not None, f"We must have found an abstract manifold sym repr."
+        assert len(found_natural_bcs) > 0, f"we must have found a dls natural bc!"
 
-        self._dls_natural_bc = found_natural_bc
+        self._dls_natural_bcs = found_natural_bcs
 
-        self._partial_mesh_boundary_section = None
+        self._partial_mesh_boundary_sections = list()
         partial_meshes = _base_meshes()
-        for partial_mesh_sym_repr in partial_meshes:
-            msehtt_partial_mesh = partial_meshes[partial_mesh_sym_repr]
-            if msehtt_partial_mesh.abstract.manifold._sym_repr == found_boundary_section_sym_repr:
-                self._partial_mesh_boundary_section = msehtt_partial_mesh
-                break
-        assert self._partial_mesh_boundary_section is not None, f"we must have found a msehtt partial boundary section"
+        for found_boundary_section_sym_repr in found_boundary_section_sym_reprs:
+            partial_mesh_boundary_section = None
+            for partial_mesh_sym_repr in partial_meshes:
+                msehtt_partial_mesh = partial_meshes[partial_mesh_sym_repr]
+                if msehtt_partial_mesh.abstract.manifold._sym_repr == found_boundary_section_sym_repr:
+                    partial_mesh_boundary_section = msehtt_partial_mesh
+                    break
+            assert partial_mesh_boundary_section is not None, f"we must have found a msehtt partial boundary section"
+            self._partial_mesh_boundary_sections.append(partial_mesh_boundary_section)
 
         rf0 = None
         msehtt_forms = _base_forms()
@@ -369,6 +371,21 @@ class _TrStarRf0DualPairingTrS1(Frozen):
         """"""
         t = self._time_caller(*args, **kwargs)
 
+        data = dict()
+        for natural_bc, place in zip(self._dls_natural_bcs, self._partial_mesh_boundary_sections):
+            section_data = self._section_data(t, natural_bc, place)
+            for e in section_data:  # contributions of all sections add up.
+                if e in data:
+                    data[e] = data[e] + section_data[e]
+                else:
+                    data[e] = section_data[e]
+
+        # -- make the static local vector representing the natural bc at this particular time ``t`` ------------
+        full_vector = MseHttStaticLocalVector(data, self._rf1.cochain.gathering_matrix)
+        return full_vector
+
+    def _section_data(self, t, natural_bc, partial_mesh_boundary_section):
+        r"""The data of the natural bc on one boundary section."""
         # find from all configurations the correct one for this natural BC ----------------------------------
         configurations = self._dls.config._configurations
         the_configuration = None
@@ -376,7 +393,7 @@ class _TrStarRf0DualPairingTrS1(Frozen):
             _type = config['type']
             if _type == 'natural bc':
                 place = config['place']
-                if place is self._partial_mesh_boundary_section:
+                if place is partial_mesh_boundary_section:
                     config_root_form = config['root_form']
                     if self._rf0 is config_root_form:  # note that self._rf0 must be a base-form already
                         the_configuration = config
@@ -387,7 +404,7 @@ class _TrStarRf0DualPairingTrS1(Frozen):
                     pass
             else:
                 pass
-        assert the_configuration is not None, f'BC: {self._dls_natural_bc} is not configured!'
+        assert the_configuration is not None, f'BC: {natural_bc} is not configured!'
 
         category = the_configuration['category']
         # ----- study the configuration to choose a correct way to use it --------------------------------------
@@ -403,14 +420,12 @@ class _TrStarRf0DualPairingTrS1(Frozen):
             data = self._rf1.bi.with_vc_over_boundary_section(
                 t,
                 exact_function,    # the vc
-                self._partial_mesh_boundary_section  # over this msehtt partial mesh boundary section.
+                partial_mesh_boundary_section  # over this msehtt partial mesh boundary section.
             )
         else:
             raise NotImplementedError(f"not implemented for natural bc of category = {category}.")
 
-        # -- make the static local vector representing the natural bc at this particular time ``t`` ------------
-        full_vector = MseHttStaticLocalVector(data, self._rf1.cochain.gathering_matrix)
-        return full_vector
+        return data
 
 
 # - (A x B, C) ------------------------------------------------------------------------------------
-- 
2.43.0


From 1839cba1b9b5f3fd4a2a9d8227e98c07c09566d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:02 +0000
Subject: [PATCH 034/105] fix: msepy essential bc reused the values of an
 earlier time instant

The cache of boundary dofs and values was keyed by a repr containing a memory address that is reused
once the previous static unknown has been deleted.
---
 msepy/tools/linear_system/dynamic/bc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/msepy/tools/linear_system/dynamic/bc.py b/msepy/tools/linear_system/dynamic/bc.py
index 7a85834..ef7a28b 100644
--- a/msepy/tools/linear_system/dynamic/bc.py
+++ b/msepy/tools/linear_system/dynamic/bc.py
@@ -236,6 +236,7 @@ class MsePyDLSEssentialBoundaryCondition(MsePyDLSBoundaryCondition):
         super().__init__(msepy_boundary_manifold, raw_ls_bc)
         self._melt()
         self._cache1 = {
+            'unknown': None,
             'key': '',
             'find': tuple()
         }
@@ -301,12 +302,12 @@ class MsePyDLSEssentialBoundaryCondition(MsePyDLSBoundaryCondition):
         i = self._raw_ls_bc._i
         unknown = unknowns[i]
 
-        key = unknown.__repr__() + global_or_local
-
-        if key == self._cache1['key']:
+        # do not use the repr as key: The memory address in it can be reused once an unknown is gone.
+        if unknown is self._cache1['unknown'] and global_or_local == self._cache1['key']:
             return self._cache1['find']
         else:
-            self._cache1['key'] = key
+            self._cache1['unknown'] = unknown
+            self._cache1['key'] = global_or_local
 
         # below, we try to find the msepy mesh boundary section where the essential bc will apply.
         from phyem.msepy.main import base
-- 
2.43.0


From 21853af7ee8b150257dbe76c95d88a032f6c1b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 035/105] fix: local dofs of 0- and 2-forms on a face of a 3d
 msepy element are a 1d array

---
 msepy/space/find/local_dofs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msepy/space/find/local_dofs.py b/msepy/space/find/local_dofs.py
index cc44828..2072ceb 100644
--- a/msepy/space/find/local_dofs.py
+++ b/msepy/space/find/local_dofs.py
@@ -48,13 +48,13 @@ class _MsePySpaceFindLocalDofs(Frozen):
                     local_dofs = self._Lambda_m2_n2_k0(m, n, degree)
 
                 elif _m == _n == 3 and _k == 0:
-                    local_dofs = self._Lambda_m3_n3_k0(m, n, degree)
+                    local_dofs = self._Lambda_m3_n3_k0(m, n, degree).ravel('F')
 
                 elif _m == _n == 3 and _k == 1:
                     local_dofs = self._Lambda_m3_n3_k1(m, n, degree)
 
                 elif _m == _n == 3 and _k == 2:
-                    local_dofs = self._Lambda_m3_n3_k2(m, n, degree)
+                    local_dofs = self._Lambda_m3_n3_k2(m, n, degree).ravel('F')
 
                 elif _m == _n == _k:
                     raise Exception(f"top-form has no dofs on element face!")
-- 
2.43.0


From 043bd22ddabd1a212ca48b515b32c5cca947a27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 036/105] fix: constant time sequences accept k that is an
 integer up to rounding from below

---
 src/time_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time_sequence.py b/src/time_sequence.py
index ebf3ef0..bc734cf 100644
--- a/src/time_sequence.py
+++ b/src/time_sequence.py
@@ -302,7 +302,7 @@ class ConstantTimeSequence(TimeSequence):
         """
         assert isinstance(k, (int, float)), f"specific time sequence must use number for time instant."
         time = self.t_0 + k * self._dt
-        remainder = round(k % 1, 8)
+        remainder = round(k % 1, 8) % 1  # % 1: k slightly below an integer rounds up to 1
         if time < self.t_0 - self._dt:  # leave a dt as lower margin
             raise TimeInstantError(
                 f"t[{k}] = {time} is lower than t0: {self.t_0} - dt: {self._dt}.")
-- 
2.43.0


From cedb05797f9a2e9beca473b46bf06090edb045c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 037/105] fix: abstract time instants substitute negative and
 exponent-notation values as values

---
 src/time_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time_sequence.py b/src/time_sequence.py
index bc734cf..f29234e 100644
--- a/src/time_sequence.py
+++ b/src/time_sequence.py
@@ -548,10 +548,10 @@ class AbstractTimeInstant(Frozen):
 
     def __call__(self, **kwargs):
         """call, return a TimeInstant object."""
-        time_instance_str = self._k
         for key in kwargs:
             assert key in self._kwarg_keys, f"key={key} is not found for ati: {self}."
-            time_instance_str = time_instance_str.replace(key, str(kwargs[key]))
+        # all variables are of one letter; the parentheses are for negative values.
+        time_instance_str = ''.join([f"({kwargs[_]})" if _ in kwargs else _ for _ in self._k])
         time = eval(time_instance_str)
         assert isinstance(time, (int, float)), f"format wrong, 'eval' does not return a number."
         assert self.time_sequence._object is not None, \
-- 
2.43.0


From 2829626eef98cb297f23072439ecf088ab50d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 038/105] fix: a failing step function does not leave a
 function time sequence with a step without time

---
 src/time_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time_sequence.py b/src/time_sequence.py
index f29234e..0754bee 100644
--- a/src/time_sequence.py
+++ b/src/time_sequence.py
@@ -212,9 +212,9 @@ class FunctionTimeSequence(TimeSequence):
         if k > self._step_sequence[-1]:
             # looking for a time step ahead. We first make a new time instant ahead.
             _new_time_step = round(self._step_sequence[-1] + self._step_interval, 8)
-            self._step_sequence.append(_new_time_step)
             dt = self._func()
             assert dt > 0, f"time interval must be larger than 0. Now it is {dt}."
+            self._step_sequence.append(_new_time_step)
             self._time_sequence.append(self._time_sequence[-1] + dt)
         else:
             pass
-- 
2.43.0


From 699ba5285794f600fdfa625d1ce36647e5908f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 039/105] fix: steps of a function time sequence do not
 accumulate rounding

---
 src/time_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time_sequence.py b/src/time_sequence.py
index 0754bee..f9e13d0 100644
--- a/src/time_sequence.py
+++ b/src/time_sequence.py
@@ -211,7 +211,7 @@ class FunctionTimeSequence(TimeSequence):
         k = round(k, 8)
         if k > self._step_sequence[-1]:
             # looking for a time step ahead. We first make a new time instant ahead.
-            _new_time_step = round(self._step_sequence[-1] + self._step_interval, 8)
+            _new_time_step = round(len(self._step_sequence) * self._step_interval, 8)
             dt = self._func()
             assert dt > 0, f"time interval must be larger than 0. Now it is {dt}."
             self._step_sequence.append(_new_time_step)
-- 
2.43.0


From 7462e6213c7c0e158ee64e5879b86fbee3fa11bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 040/105] fix: msehtt interpolations do not outlive the cochain
 they are made of

---
 msehtt/static/form/numeric/main.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/msehtt/static/form/numeric/main.py b/msehtt/static/form/numeric/main.py
index 90c4691..12bcc4d 100644
--- a/msehtt/static/form/numeric/main.py
+++ b/msehtt/static/form/numeric/main.py
@@ -22,6 +22,7 @@ class MseHtt_Form_Numeric(Frozen):
         self._tsp = None
         self._cache_key_ = ''
         self._cache_itp_ = None
+        self._cache_data_ = None  # the cochain data the cached interpolation is made of.
         self._export = None
         self._freeze()
 
@@ -140,14 +141,14 @@ class MseHtt_Form_Numeric(Frozen):
 
         assert t is not None, f"I must have a t!"
 
+        key = f"{t}={ddf}={component_wise}"
+        data = self._f.cochain[t]._cochain
         if data_only:
             pass
+        elif key == self._cache_key_ and data is self._cache_data_:
+            return self._cache_itp_
         else:
-            key = f"{t}={ddf}={component_wise}"
-            if key == self._cache_key_:
-                return self._cache_itp_
-            else:
-                self._cache_key_ = key
+            pass
 
         n = self._f.space.n
         total_num_elements = self._f.tpm.composition.num_global_elements
@@ -287,6 +288,8 @@ class MseHtt_Form_Numeric(Frozen):
         else:
             raise NotImplementedError()
 
+        self._cache_key_ = key
+        self._cache_data_ = data
         return self._cache_itp_
 
     def _interpolate_global_(self, t=None, ddf=1, data_only=False, component_wise=False):
-- 
2.43.0


From 2a7d3b3e8b05fbad3e54d78698f4fc9fc789585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 041/105] fix: msepy interpolations do not outlive the cochain,
 density and factor they are made of

---
 msepy/form/numeric/main.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/msepy/form/numeric/main.py b/msepy/form/numeric/main.py
index f2b9706..1402e51 100644
--- a/msepy/form/numeric/main.py
+++ b/msepy/form/numeric/main.py
@@ -26,7 +26,8 @@ class MsePyRootFormNumeric(Frozen):
         self._sf = None
         self._interp_cache = {
             'time': None,
-            'cochain_id': -1,
+            'cochain': None,
+            'density_factor': None,
             'interp': None
         }
         self._freeze()
@@ -342,9 +343,10 @@ class MsePyRootFormNumeric(Frozen):
 
         if isinstance(self._interp_cache['time'], (float, int)):
             cached_time = self._interp_cache['time']
-            cochain_id = self._interp_cache['cochain_id']   # check whether cochain at time t is changed.
-            current_cochain_id = id(self._f.cochain[time])
-            if cached_time == time and cochain_id == current_cochain_id:
+            # check whether cochain at time t is changed; an id may be reused, so keep and compare the object itself.
+            same_cochain = self._interp_cache['cochain'] is self._f.cochain[time]
+            same_samples = self._interp_cache['density_factor'] == (density, factor)
+            if cached_time == time and same_cochain and same_samples:
                 return self._interp_cache['interp']
 
             else:
@@ -415,7 +417,8 @@ class MsePyRootFormNumeric(Frozen):
             raise NotImplementedError()
 
         self._interp_cache['time'] = time
-        self._interp_cache['cochain_id'] = id(self._f.cochain[time])
+        self._interp_cache['cochain'] = self._f.cochain[time]
+        self._interp_cache['density_factor'] = (density, factor)
         # noinspection PyTypedDict
         self._interp_cache['interp'] = _2b_return_
 
-- 
2.43.0


From e430fc7575dd946a255fe175197e4db67b3d04ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 042/105] fix: interpolated msepy cochains are cochains at a
 time instant as stored ones are

---
 msepy/form/cochain/main.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/msepy/form/cochain/main.py b/msepy/form/cochain/main.py
index 36c3bbb..dfdc28b 100644
--- a/msepy/form/cochain/main.py
+++ b/msepy/form/cochain/main.py
@@ -185,10 +185,11 @@ class MsePyRootFormCochain(Frozen):
                                 pass
                         assert segment_lb is not None and segment_ub is not None, \
                             f"something is wrong."
-                        cochain_lb = self[segment_lb]
-                        cochain_ub = self[segment_ub]
+                        local_lb = self[segment_lb].local
+                        local_ub = self[segment_ub].local
                         ratio = (t - segment_lb) / (segment_ub - segment_lb)
-                        cochain_t = cochain_lb + ratio * (cochain_ub - cochain_lb)
+                        cochain_t = _CochainAtOneTime(self._f, t)
+                        cochain_t._receive(local_lb + ratio * (local_ub - local_lb))
                         return cochain_t
         else:
             return rf._base.cochain(t)
-- 
2.43.0


From a170d079b1da95b835646150553c2a8857b473b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 043/105] fix: a runner that iterates again does not skip what
 only its previous table holds

---
 tools/legacy/serialRunners/_runner_.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/legacy/serialRunners/_runner_.py b/tools/legacy/serialRunners/_runner_.py
index 5c0b6bf..f438626 100644
--- a/tools/legacy/serialRunners/_runner_.py
+++ b/tools/legacy/serialRunners/_runner_.py
@@ -290,6 +290,7 @@ class Runner(Frozen):
         """
         print("-<{}>-<total iterations> : {}.".format(self.__class__.__name__, self.num_iterations), flush=True)
         self.___initialize_dataframe___()
+        self._computed_pool_ = ()  # it must match the (new, empty) data frame.
         if writeto is None:
             return
         self._readwritefilename_ = writeto
-- 
2.43.0


From bf5041466af2cc1af2d0b37e779b97349033103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 044/105] fix: read runner tables with a single output

---
 tools/legacy/serialRunners/_runner_.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/legacy/serialRunners/_runner_.py b/tools/legacy/serialRunners/_runner_.py
index f438626..73d8efa 100644
--- a/tools/legacy/serialRunners/_runner_.py
+++ b/tools/legacy/serialRunners/_runner_.py
@@ -207,7 +207,7 @@ class Runner(Frozen):
                 if ctt[0:13] == '<input names>':
                     if initializing: # if we are initializing it, we get input names from the file
                         ins = ctt[17:-2]
-                        self._input_names_ = tuple(ins.replace("'", "").split(', '))
+                        self._input_names_ = tuple(_ for _ in ins.replace("'", "").replace(' ', '').split(',') if _)
                     else: #otherwise we check the consistence
                         assert ctt == '<input names> : '+str(self._input_names_)+'\n', \
                             " <Runner> : writeto file does not match input names."
@@ -223,7 +223,7 @@ class Runner(Frozen):
                 elif ctt[0:14] == '<output names>':
                     if initializing: # if we are initializing it, we get output names from the file
                         ons = ctt[18:-2]
-                        self._output_names_ = tuple(ons.replace("'", "").split(', '))
+                        self._output_names_ = tuple(_ for _ in ons.replace("'", "").replace(' ', '').split(',') if _)
                     else: #otherwise we check the consistence
                         assert ctt == '<output names> : '+str(self._output_names_)+'\n', \
                             " <Runner> : writeto file does not match output names."
-- 
2.43.0


From eaac5d953a86081eca46d6540a0e9a4234a4d68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 045/105] fix: continue a runner table on a new line when its
 last row was not terminated

---
 tools/legacy/serialRunners/_runner_.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/legacy/serialRunners/_runner_.py b/tools/legacy/serialRunners/_runner_.py
index 73d8efa..4d06873 100644
--- a/tools/legacy/serialRunners/_runner_.py
+++ b/tools/legacy/serialRunners/_runner_.py
@@ -254,6 +254,8 @@ class Runner(Frozen):
                     assert len(Di) == 1 + len(self.input_names) + len(self.output_names) + 1 + 3
                     # 1: index; +1: '|'; +3: 'ITC', 'TTC', 'ERT'
                     self._computed_pool_ += (self.___read_to_rdf___(Di)[0],)
+                    if contents[i][-1] != '\n':  # interrupted just before the end of the row.
+                        contents[i] += '\n'
                     i += 1
                 except IndexError:
                     # we reach the end of the file.
-- 
2.43.0


From fb7af38310e582921cf46b2e9b57958e1094617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 046/105] fix: cached iterator inputs that are small floats do
 not share a key

---
 tools/iterator/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index d43ed83..2445a13 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -336,7 +336,7 @@ class Iterator(Frozen):
                 if i % 1 == 0:
                     i = int(i)
                 else:
-                    i = "%.5f" % i
+                    i = "%.10e" % i  # relative, such that small time steps do not share a key
                 return i
             else:
                 raise NotImplementedError()
-- 
2.43.0


From d850af6ca5e60d94fbaaf668fe1b169804f76d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 047/105] fix: keep the cache count of an iterator across runs

---
 tools/iterator/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index 2445a13..03f6029 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -649,7 +649,7 @@ class Iterator(Frozen):
                             'RES': cache_res,
                             'cache data': obj_coding_data,
                             'log': log,
-                            'cache_count': cache_count
+                            'cache count': cache_count
                         }
                         with open(self._cache_filename_, 'wb') as cf:
                             # noinspection PyTypeChecker
-- 
2.43.0


From a9b45954f1a15480aae0603c0c26a27d43a82ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 048/105] fix: an interrupted write never damages the existing
 iterator cache

---
 tools/iterator/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index 03f6029..8479647 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -651,10 +651,12 @@ class Iterator(Frozen):
                             'log': log,
                             'cache count': cache_count
                         }
-                        with open(self._cache_filename_, 'wb') as cf:
+                        # write to another file first such that an interruption never damages the last cache.
+                        with open(self._cache_filename_ + '.tmp', 'wb') as cf:
                             # noinspection PyTypeChecker
                             pickle.dump(cache_dict, cf, pickle.HIGHEST_PROTOCOL)
                         cf.close()
+                        os.replace(self._cache_filename_ + '.tmp', self._cache_filename_)
                         # noinspection PyUnboundLocalVariable
                         self._cache_time_ = now
                         del obj_coding_data, cache_dict
-- 
2.43.0


From 23e7898b9d6df109a21aa230f1cc94ba8d679d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 049/105] fix: an iterator with integer initial values records
 small float outputs

---
 tools/iterator/main.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index 8479647..645bed2 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -441,7 +441,12 @@ class Iterator(Frozen):
             rdf_ret = self._solver_ret[2:]
             RDF = dict()
             for k, key in enumerate(rdf_ret):
-                RDF[key] = self._initials[k]
+                initial = self._initials[k]
+                if isinstance(initial, (int, np.integer)):
+                    initial = float(initial)  # a column of integers would lose small float outputs.
+                else:
+                    pass
+                RDF[key] = initial
             self._RDF = pd.DataFrame(RDF, index=[0, ])
         else:
             self._monitor_ = None
-- 
2.43.0


From bd96213adc859a12f4ad2956a437e1f2ad164c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:59 +0000
Subject: [PATCH 050/105] fix: unions and intersections of polygons do not
 repeat their first vertex

---
 tools/miscellaneous/geometries/m2n2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/miscellaneous/geometries/m2n2.py b/tools/miscellaneous/geometries/m2n2.py
index 0abe94d..6950351 100644
--- a/tools/miscellaneous/geometries/m2n2.py
+++ b/tools/miscellaneous/geometries/m2n2.py
@@ -677,7 +677,7 @@ class Polygon2(Frozen):
             return f'MultiPolygon-NotImplemented!'  # basically, a not implemented error
         else:
             # noinspection PyUnresolvedReferences
-            points = np.array(union_polygon.exterior.coords)
+            points = np.array(union_polygon.exterior.coords)[:-1]  # the last one repeats the first one
             Points = list()
             for v in points:
                 Points.append(Point2(*v))
@@ -702,7 +702,7 @@ class Polygon2(Frozen):
             return f'LineString@x{x}y{y}'  # basically, a not implemented error
         else:
             # noinspection PyUnresolvedReferences
-            points = np.array(intersection.exterior.coords)
+            points = np.array(intersection.exterior.coords)[:-1]  # the last one repeats the first one
             Points = list()
             for v in points:
                 Points.append(Point2(*v))
-- 
2.43.0


From 55edfaf25044e415d4b0478a360b41fa319c8a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:59 +0000
Subject: [PATCH 051/105] fix: polygons that do not meet a polygon are not part
 of its union

---
 tools/miscellaneous/geometries/m2n2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/miscellaneous/geometries/m2n2.py b/tools/miscellaneous/geometries/m2n2.py
index 6950351..1c810ac 100644
--- a/tools/miscellaneous/geometries/m2n2.py
+++ b/tools/miscellaneous/geometries/m2n2.py
@@ -753,7 +753,7 @@ class Polygon2(Frozen):
         intersections = []
         for geo in geometries:
             its = self.intersection(geo)
-            if its.__class__ is self.__class__:
+            if its.__class__ is self.__class__ and len(its) > 0:
                 intersections.append(geo)
             else:
                 pass
-- 
2.43.0


From ea8cb1d96d01e8602d801c564c4ea333f3433c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:59 +0000
Subject: [PATCH 052/105] fix: a non-convex polygon does not contain what only
 has its vertices in it

---
 tools/miscellaneous/geometries/m2n2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/miscellaneous/geometries/m2n2.py b/tools/miscellaneous/geometries/m2n2.py
index 1c810ac..7233a82 100644
--- a/tools/miscellaneous/geometries/m2n2.py
+++ b/tools/miscellaneous/geometries/m2n2.py
@@ -731,7 +731,9 @@ class Polygon2(Frozen):
                         pass
                     else:
                         return False
-                return True
+                # for a non-convex polygon, having all vertices is not enough.
+                outside = geo.shapely_Polygon.difference(self.shapely_Polygon).area
+                return math.isclose(outside, 0, abs_tol=1e-8)
 
     def is_equal_to_a_union_of_a_part_of_separate_geometries_of_same_type(self, geometries):
         r"""check whether this geo is equal to the Union of some of `geometries`.
-- 
2.43.0


From 9c1c1cac4a5e6f9d3244f5d7c4b482b25f8fc54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:59 +0000
Subject: [PATCH 053/105] fix: the length of an orthogonal segment given
 backwards is positive

---
 tools/miscellaneous/geometries/m3n3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/miscellaneous/geometries/m3n3.py b/tools/miscellaneous/geometries/m3n3.py
index 73c15e0..27dfb9f 100644
--- a/tools/miscellaneous/geometries/m3n3.py
+++ b/tools/miscellaneous/geometries/m3n3.py
@@ -213,7 +213,7 @@ class OrthogonalSegment3(Frozen):
         assert isinstance(length, (int, float))
         assert abs(length) > 1e-4, f"length too small."
         self._axis = axis
-        self._length = length
+        self._length = abs(length)
         x, y, z = origin._x, origin._y, origin._z
         if self._axis == 'x':
             self._bounds = [x, x+length]
-- 
2.43.0


From e5b25b294e6a28107cd7903cf209895cbaec1c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 054/105] fix: angles of collinear points are not NaN

---
 tools/miscellaneous/geometries/m3n3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/miscellaneous/geometries/m3n3.py b/tools/miscellaneous/geometries/m3n3.py
index 27dfb9f..d30441a 100644
--- a/tools/miscellaneous/geometries/m3n3.py
+++ b/tools/miscellaneous/geometries/m3n3.py
@@ -348,7 +348,7 @@ def angle3(A, o, B):
     vec_oB = np.array([B.x - o.x, B.y - o.y, B.z - o.z])
     norm_oA = np.linalg.norm(vec_oA)
     norm_oB = np.linalg.norm(vec_oB)
-    return np.arccos(vec_oA.dot(vec_oB) / (norm_oA * norm_oB))
+    return np.arccos(np.clip(vec_oA.dot(vec_oB) / (norm_oA * norm_oB), -1, 1))
 
 
 class PerpRectangle(Frozen):
-- 
2.43.0


From 026ffbe50393a3ffe1ce9ecad8acde04382553d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 055/105] fix: rref applies its cut-off while looking for
 pivots

---
 tools/miscellaneous/rref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/miscellaneous/rref.py b/tools/miscellaneous/rref.py
index 5c81271..a2e8499 100644
--- a/tools/miscellaneous/rref.py
+++ b/tools/miscellaneous/rref.py
@@ -25,7 +25,7 @@ def rref(A, coe=1e-10, rzr=True):
     """
     if isinstance(A, np.ndarray):
         assert A.ndim == 2, f"rref needs a 2d array."
-        rref = np.array(Matrix(A).rref()[0])
+        rref = np.array(Matrix(A).rref(iszerofunc=lambda x: abs(x) < coe)[0])
     else:
         raise NotImplementedError()
 
-- 
2.43.0


From 1d5124758b43df6d84778a366ac25c34c560f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 056/105] fix: curves invert x(t) inside their interval of t
 only

---
 tools/miscellaneous/geometries/m2n2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/miscellaneous/geometries/m2n2.py b/tools/miscellaneous/geometries/m2n2.py
index 7233a82..bef5350 100644
--- a/tools/miscellaneous/geometries/m2n2.py
+++ b/tools/miscellaneous/geometries/m2n2.py
@@ -861,7 +861,8 @@ class Curve2(Frozen):
         self._x_interval = x_interval
         self._xt = xt
         self._yt = yt
-        self._tx = inversefunc(xt)  # inverse function of xt, it must exist since x(t) is monotone!
+        # inverse function of xt, it must exist since x(t) is monotone (in the interval of t)!
+        self._tx = inversefunc(xt, domain=[self._interval._lb, self._interval._ub])
         self._freeze()
 
     def x_from_t(self, t):
-- 
2.43.0


From e6555cf1a14dca358ea2d302c9a4c94cc4a22560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 057/105] fix: genpiecewise accepts a default function with
 numpy >= 2

---
 tools/gen_piece_wise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gen_piece_wise.py b/tools/gen_piece_wise.py
index 167b796..38689a8 100644
--- a/tools/gen_piece_wise.py
+++ b/tools/gen_piece_wise.py
@@ -112,7 +112,7 @@ def genpiecewise(xi, condlist, funclist, fillvalue=0, args=(), **kw):
 
     if not isinstance(xi, (list, tuple)):
         xi = (xi,)
-    condlist = np.broadcast_arrays(*condlist)
+    condlist = list(np.broadcast_arrays(*condlist))
     # noinspection PyTypeChecker
     if len(condlist) == len(funclist) - 1:
         # noinspection PyUnresolvedReferences
-- 
2.43.0


From f777cdca1027bee428ceb5a11311747a9d1c4cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:29 +0000
Subject: [PATCH 058/105] fix: curl_f of ManufacturedSolutionMHD3_1 is not
 drowned in numerical noise

---
 tools/samples/manuSolution_MHD3.py | 44 +++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/tools/samples/manuSolution_MHD3.py b/tools/samples/manuSolution_MHD3.py
index 7267f30..bacaf9b 100644
--- a/tools/samples/manuSolution_MHD3.py
+++ b/tools/samples/manuSolution_MHD3.py
@@ -28,6 +28,41 @@ def uz(t, x, y, z):
     return -2 * sin(x) * sin(y) * cos(z) * exp(t)
 
 
+def dux_dx(t, x, y, z):
+    """"""
+    return - sin(x) * sin(y) * sin(z) * exp(t)
+
+
+def dux_dy(t, x, y, z):
+    """It is also duy_dx."""
+    return cos(x) * cos(y) * sin(z) * exp(t)
+
+
+def dux_dz(t, x, y, z):
+    """"""
+    return cos(x) * sin(y) * cos(z) * exp(t)
+
+
+def duy_dz(t, x, y, z):
+    """"""
+    return sin(x) * cos(y) * cos(z) * exp(t)
+
+
+def duz_dx(t, x, y, z):
+    """"""
+    return -2 * cos(x) * sin(y) * cos(z) * exp(t)
+
+
+def duz_dy(t, x, y, z):
+    """"""
+    return -2 * sin(x) * cos(y) * cos(z) * exp(t)
+
+
+def duz_dz(t, x, y, z):
+    """"""
+    return 2 * sin(x) * sin(y) * sin(z) * exp(t)
+
+
 def _P_function(t, x, y, z):
     return cos(x) * cos(y) * cos(z) * exp(-t)
 
@@ -305,7 +340,14 @@ class ManufacturedSolutionMHD3_1(Frozen):
     def u(self):
         """fluid velocity field"""
 
-        return T3dVector(ux, uy, uz)
+        return T3dVector(
+            ux, uy, uz,
+            Jacobian_matrix=(
+                [dux_dx, dux_dy, dux_dz],
+                [dux_dy, dux_dx, duy_dz],
+                [duz_dx, duz_dy, duz_dz],
+            ),
+        )
 
     @property
     def P(self):
-- 
2.43.0


From 500e127ba382601cbf8ee08452dc84c973a9ee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 059/105] fix: saving a group of data sets keeps the names of
 its variables

---
 tools/dds/region_wise_structured_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/dds/region_wise_structured_group.py b/tools/dds/region_wise_structured_group.py
index b211f23..092b9f7 100644
--- a/tools/dds/region_wise_structured_group.py
+++ b/tools/dds/region_wise_structured_group.py
@@ -94,7 +94,7 @@ class DDS_RegionWiseStructured_Group(Frozen):
         data_dict = {
             'key': 'dds-rws-grouped',
             'coo_dict_list': self._coo_dict_list,
-            'val_dict_list_group': self._val_dict_list_group,
+            'val_dict_list_group': dict(zip(self._value_names, self._val_dict_list_group)),
         }
         with open(filename, 'wb') as output:
             pickle.dump(data_dict, output, pickle.HIGHEST_PROTOCOL)
-- 
2.43.0


From 98acae1318cb839817a9b9dc9c0486f31ecdbce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 060/105] fix: the L2 norm of a data set takes the number of
 samples of each axis

---
 tools/dds/region_wise_structured.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/dds/region_wise_structured.py b/tools/dds/region_wise_structured.py
index f05286f..07a5949 100644
--- a/tools/dds/region_wise_structured.py
+++ b/tools/dds/region_wise_structured.py
@@ -191,10 +191,10 @@ class DDSRegionWiseStructured(Frozen):
                 component_integral = 0
                 for region_key in val_dict:
                     h = list()
-                    for coo_dict in self._coo_dict_list:
+                    for axis, coo_dict in enumerate(self._coo_dict_list):
                         coo = coo_dict[region_key]
                         MAX, MIn = np.max(coo), np.min(coo)
-                        shape = coo.shape[0]
+                        shape = coo.shape[axis]
                         dh = (MAX - MIn) / shape
                         h.append(dh)
                     volume = np.prod(h)
-- 
2.43.0


From 2f8f3b2162a0a831c75e9f808ad12b8c1f9c8712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 061/105] fix: corners at zero coordinates connect the regions
 of a streamfunction

---
 tools/dds/region_wise_structured.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/tools/dds/region_wise_structured.py b/tools/dds/region_wise_structured.py
index 07a5949..41c2fe2 100644
--- a/tools/dds/region_wise_structured.py
+++ b/tools/dds/region_wise_structured.py
@@ -703,7 +703,7 @@ class DDSRegionWiseStructured(Frozen):
                 s_c00, s_sf = starting_coo_and_sf
                 if self.classification == '2d vector':
                     # noinspection PyTypeChecker
-                    corner_pool['%.7f-%.7f' % (s_c00[0], s_c00[1])] = s_sf
+                    corner_pool[self._corner_key_2d_(s_c00[0], s_c00[1])] = s_sf
                 else:
                     raise Exception()
                 empty_corner_pool = False
@@ -778,34 +778,37 @@ class DDSRegionWiseStructured(Frozen):
             return self.__class__(self._coo_dict_list, [sf_dict, ])
 
     @staticmethod
-    def _renew_starting_point_2d_(corner_pool, x, y):
+    def _corner_key_2d_(x, y):
+        """The key of a corner; `+ 0.0` since `-0.0` must be the same as `0.0`."""
+        return '%.7f-%.7f' % (round(float(x), 7) + 0.0, round(float(y), 7) + 0.0)
+
+    def _renew_starting_point_2d_(self, corner_pool, x, y):
         """"""
-        xm_ym = '%.7f-%.7f' % (x[0, 0], y[0, 0])
+        xm_ym = self._corner_key_2d_(x[0, 0], y[0, 0])
         if xm_ym in corner_pool:
             return (0, 0), corner_pool[xm_ym]
 
-        xp_ym = '%.7f-%.7f' % (x[-1, 0], y[-1, 0])
+        xp_ym = self._corner_key_2d_(x[-1, 0], y[-1, 0])
         if xp_ym in corner_pool:
             return (-1, 0), corner_pool[xp_ym]
 
-        xm_yp = '%.7f-%.7f' % (x[0, -1], y[0, -1])
+        xm_yp = self._corner_key_2d_(x[0, -1], y[0, -1])
         if xm_yp in corner_pool:
             return (0, -1), corner_pool[xm_yp]
 
-        xp_yp = '%.7f-%.7f' % (x[-1, -1], y[-1, -1])
+        xp_yp = self._corner_key_2d_(x[-1, -1], y[-1, -1])
         if xp_yp in corner_pool:
             return (-1, -1), corner_pool[xp_yp]
 
         return None  # Cannot find a starting point for the region, do it for other regions first
 
-    @staticmethod
-    def _find_corner_xy_sf_(x, y, sf):
+    def _find_corner_xy_sf_(self, x, y, sf):
         """"""
         corner_sf_pool = {
-            '%.7f-%.7f' % (x[0, 0], y[0, 0]): sf[0, 0],
-            '%.7f-%.7f' % (x[-1, 0], y[-1, 0]): sf[-1, 0],
-            '%.7f-%.7f' % (x[0, -1], y[0, -1]): sf[0, -1],
-            '%.7f-%.7f' % (x[-1, -1], y[-1, -1]): sf[-1, -1]
+            self._corner_key_2d_(x[0, 0], y[0, 0]): sf[0, 0],
+            self._corner_key_2d_(x[-1, 0], y[-1, 0]): sf[-1, 0],
+            self._corner_key_2d_(x[0, -1], y[0, -1]): sf[0, -1],
+            self._corner_key_2d_(x[-1, -1], y[-1, -1]): sf[-1, -1]
         }
         return corner_sf_pool
 
-- 
2.43.0


From 76cab06507c48880b1499f508ea7bd9ef11a8be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 062/105] fix: the directions of the edges of periodic or tiny
 unstructured meshes are compared reliably

---
 msehtt/static/mesh/great/elements/main.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/msehtt/static/mesh/great/elements/main.py b/msehtt/static/mesh/great/elements/main.py
index 093a0ed..98c2e10 100644
--- a/msehtt/static/mesh/great/elements/main.py
+++ b/msehtt/static/mesh/great/elements/main.py
@@ -477,7 +477,9 @@ class MseHttGreatMeshElements(Frozen):
 
             # noinspection PyUnusedLocal
             def test_field_3(t, x, y):
-                return 0.5 * np.ones_like(x)
+                # an irrational number; the integral over an edge must not vanish. With 0.5, for example,
+                # it vanishes on all edges of slope 2.
+                return 0.5 * (np.sqrt(5) - 1) * np.ones_like(x)
 
             # noinspection PyUnusedLocal
             def test_field_4(t, x, y):
@@ -643,8 +645,8 @@ class MseHttGreatMeshElements(Frozen):
                 elif len(positions) == 2:
                     values = pool_value[undirected_face]
                     v0, v1 = values
-                    if np.isclose(v0, v1):
-                        pass
+                    if abs(v0 - v1) <= abs(v0 + v1):
+                        assert np.isclose(v0, v1), f"must be v0 - v1 == 0, now v0={v0}, v1={v1}"
                     else:
                         assert np.isclose(v0, -v1), f"must be v0 + v1 == 0, now v0={v0}, v1={v1}"
                         pos0, pos1 = positions
-- 
2.43.0


From 58c9d034d458d681d6a4a0abec13a1e45cee3adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:18 +0000
Subject: [PATCH 063/105] fix: the signatures of small elements are different

---
 msehtt/static/form/main.py                    | 27 ++++++++++---------
 .../static/mesh/great/elements/types/base.py  |  7 +++--
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/msehtt/static/form/main.py b/msehtt/static/form/main.py
index 0908d57..cf692a5 100644
--- a/msehtt/static/form/main.py
+++ b/msehtt/static/form/main.py
@@ -338,11 +338,7 @@ class MseHttForm(Frozen):
         Element_signature_dict = COMM.gather(self.element_signature_dict, root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
-            Element_Signature_Dict = {}
-            for _ in Element_signature_dict:
-                Element_Signature_Dict.update(_)
-
-            return Element_Signature_Dict
+            return self._merge_element_signature_dict(Element_signature_dict)
         else:
             return None
 
@@ -353,8 +349,20 @@ class MseHttForm(Frozen):
         for e in self.tpm.composition:
             element = self.tpm.composition[e]
             element_signature_dict[element.signature] = e
+        assert len(element_signature_dict) == len(self.tpm.composition), \
+            f"different elements have the same signature; the elements are too small."
         return element_signature_dict
 
+    @staticmethod
+    def _merge_element_signature_dict(element_signature_dicts):
+        r"""Merge the element signature dicts gathered from all ranks."""
+        merged = {}
+        for _ in element_signature_dicts:
+            merged.update(_)
+        assert len(merged) == sum([len(_) for _ in element_signature_dicts]), \
+            f"different elements have the same signature; the elements are too small."
+        return merged
+
     def saveto(self, filename, what=None):
         r"""save me to a file.
 
@@ -366,10 +374,7 @@ class MseHttForm(Frozen):
             self._base.saveto(filename, what=what)
             return
 
-        element_signature_dict = {}
-        for e in self.tpm.composition:
-            element = self.tpm.composition[e]
-            element_signature_dict[element.signature] = e
+        element_signature_dict = self.element_signature_dict
 
         if what is None:  # save all existing cochain
             time_range = self.cochain._tcd.keys()
@@ -395,9 +400,7 @@ class MseHttForm(Frozen):
         element_signature_dict = COMM.gather(element_signature_dict, root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
-            Element_Signature_Dict = {}
-            for _ in element_signature_dict:
-                Element_Signature_Dict.update(_)
+            Element_Signature_Dict = self._merge_element_signature_dict(element_signature_dict)
             del element_signature_dict
             form_para_dict = {
                 'key': 'msehtt-static-form',
diff --git a/msehtt/static/mesh/great/elements/types/base.py b/msehtt/static/mesh/great/elements/types/base.py
index 21ec986..8df6667 100644
--- a/msehtt/static/mesh/great/elements/types/base.py
+++ b/msehtt/static/mesh/great/elements/types/base.py
@@ -153,13 +153,16 @@ class MseHttGreatMeshBaseElement(Frozen):
             X, Y = self.ct.mapping(___xi2___, ___et2___)
             signature = list()
             for x, y in zip(X, Y):
-                signature.append("({:.4f},{:.4f})".format(round(x, 4), round(y, 4)))
+                # `+ 0.0` since `-0.0` must be the same as `0.0`.
+                signature.append("({:.8f},{:.8f})".format(round(x, 8) + 0.0, round(y, 8) + 0.0))
             signature = ''.join(signature)
         elif self.m() == self.n() == 3:  # 3d element in 3d space
             X, Y, Z = self.ct.mapping(___xi3___, ___et3___, ___sg3___)
             signature = list()
             for x, y, z in zip(X, Y, Z):
-                signature.append("({:.3f},{:.3f},{:.3f})".format(round(x, 3), round(y, 3), round(z, 3)))
+                signature.append(
+                    "({:.8f},{:.8f},{:.8f})".format(round(x, 8) + 0.0, round(y, 8) + 0.0, round(z, 8) + 0.0)
+                )
             signature = ''.join(signature)
         else:
             raise NotImplementedError((self.m(), self.n()))
-- 
2.43.0


From 76dbcb27b83ede5dae4756540e099e11478f58ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 064/105] fix: the saved cochains remember which dofs are
 reversed

---
 msehtt/static/form/main.py | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/msehtt/static/form/main.py b/msehtt/static/form/main.py
index cf692a5..a58b26a 100644
--- a/msehtt/static/form/main.py
+++ b/msehtt/static/form/main.py
@@ -353,6 +353,18 @@ class MseHttForm(Frozen):
             f"different elements have the same signature; the elements are too small."
         return element_signature_dict
 
+    @property
+    def _dof_reverse_info(self):
+        r"""Return the faces of the local elements on which the dofs of this form are reversed. Elements without
+        such a face are not included."""
+        indicator = self.space.str_indicator
+        dof_reverse_info = {}
+        for e in self.tpm.composition:
+            faces = self.tpm.composition[e].dof_reverse_info.get(indicator, [])
+            if len(faces) > 0:
+                dof_reverse_info[e] = list(faces)
+        return dof_reverse_info
+
     @staticmethod
     def _merge_element_signature_dict(element_signature_dicts):
         r"""Merge the element signature dicts gathered from all ranks."""
@@ -375,6 +387,7 @@ class MseHttForm(Frozen):
             return
 
         element_signature_dict = self.element_signature_dict
+        dof_reverse_info = self._dof_reverse_info
 
         if what is None:  # save all existing cochain
             time_range = self.cochain._tcd.keys()
@@ -398,15 +411,20 @@ class MseHttForm(Frozen):
             cochain[t] = total_cochain
 
         element_signature_dict = COMM.gather(element_signature_dict, root=MASTER_RANK)
+        dof_reverse_info = COMM.gather(dof_reverse_info, root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
             Element_Signature_Dict = self._merge_element_signature_dict(element_signature_dict)
             del element_signature_dict
+            Dof_Reverse_Info = {}
+            for _ in dof_reverse_info:
+                Dof_Reverse_Info.update(_)
             form_para_dict = {
                 'key': 'msehtt-static-form',
                 'name': self.name,
                 'cochain': cochain,
-                'element signature dict': Element_Signature_Dict
+                'element signature dict': Element_Signature_Dict,
+                'dof reverse info': Dof_Reverse_Info,
             }
             with open(filename, 'wb') as output:
                 # noinspection PyTypeChecker
@@ -427,6 +445,7 @@ class MseHttForm(Frozen):
         for e in self.tpm.composition:
             element = self.tpm.composition[e]
             element_signature_dict[e] = element.signature
+        dof_reverse_info = self._dof_reverse_info
 
         for rank in range(SIZE):
             if RANK == rank:
@@ -437,6 +456,8 @@ class MseHttForm(Frozen):
                 local_cochain = {}
                 cochain = obj['cochain']
                 Element_Signature_Dict = obj['element signature dict']
+                # which dofs are reversed depends on the numbering of the elements. (not in files of old versions)
+                Dof_Reverse_Info = obj.get('dof reverse info', None)
                 for t in cochain:
                     total_t_cochain = cochain[t]
                     local_t_cochain = {}
@@ -446,6 +467,17 @@ class MseHttForm(Frozen):
                             f"Miss cochain for element indexed {e}: {self.tpm.composition[e]}"
                         index_in_file = Element_Signature_Dict[element_signature]
                         local_t_cochain[e] = total_t_cochain[index_in_file]
+                        if Dof_Reverse_Info is None:
+                            pass
+                        else:
+                            faces = set(Dof_Reverse_Info.get(index_in_file, [])) ^ set(dof_reverse_info.get(e, []))
+                            if len(faces) > 0:
+                                local_t_cochain[e] = np.array(local_t_cochain[e])
+                            for face in faces:
+                                dofs = self.tpm.composition[e].find_local_dofs_on_face(
+                                    self.space.str_indicator, self.degree, face
+                                )
+                                local_t_cochain[e][dofs] *= -1
                     local_cochain[t] = local_t_cochain
                 del obj
             else:
-- 
2.43.0


From 15e6ec3da0e89d0486e3c2396e07ce8d7c046e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 065/105] fix: 3d great meshes can be read from .phm files

---
 msehtt/static/mesh/great/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msehtt/static/mesh/great/main.py b/msehtt/static/mesh/great/main.py
index 173e8f3..3520f86 100644
--- a/msehtt/static/mesh/great/main.py
+++ b/msehtt/static/mesh/great/main.py
@@ -177,6 +177,9 @@ class MseHttGreatMesh(Frozen):
         ):
             # _config_method == 'msepy' means we config the great mesh from a msepy mesh.
             self._elements = MseHttGreatMeshElements(self, rank_element_dict, element_face_topology_mismatch=False)
+        elif self._config_method == 'reading' and all([_.n() == 3 for _ in rank_element_dict.values()]):
+            # meshes of 3d elements (all of them are structured) can only be made by the above-mentioned methods.
+            self._elements = MseHttGreatMeshElements(self, rank_element_dict, element_face_topology_mismatch=False)
         else:
             self._elements = MseHttGreatMeshElements(self, rank_element_dict)
 
-- 
2.43.0


From e221fff7cf8d7b3d10e218ffd91cdc9bcc1f6b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 066/105] fix: splitting a term without giving factors keeps
 the factor of the term

---
 src/wf/term/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wf/term/main.py b/src/wf/term/main.py
index acd7282..2c093ab 100644
--- a/src/wf/term/main.py
+++ b/src/wf/term/main.py
@@ -286,7 +286,7 @@ class _WeakFormulationTerm(Frozen):
             assert len(into) >= 1, f"number of split objects must be equal to or larger than 1."
             assert len(into) == len(signs), f"objects and signs length dis-match."
             if factors is None:
-                factors = [1 for _ in range(len(into))]
+                factors = [self._factor for _ in range(len(into))]
             else:
                 if not isinstance(factors, (list, tuple)):
                     factors = [factors, ]
-- 
2.43.0


From ef6c872a32d70073fef437b7a3c6f8a6afe98214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 067/105] fix: differentiating a term in time keeps the factor
 of the term

---
 src/ode/discretize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode/discretize.py b/src/ode/discretize.py
index f77ff45..3607cc6 100644
--- a/src/ode/discretize.py
+++ b/src/ode/discretize.py
@@ -69,7 +69,7 @@ class OrdinaryDifferentialEquationDiscretize(Frozen):
                 bf0_ke = bf0 @ dt.end
                 bf1 = ptm._f1
                 term0 = (bf0_ke - bf0_ks) / dt
-                diff_term = (ptm.__class__(term0, bf1), '+')
+                diff_term = (ptm.__class__(term0, bf1, factor=ptm._factor), '+')
                 self._eq_terms[index] = [diff_term, ]
             else:
                 raise NotImplementedError(pattern)
-- 
2.43.0


From 539935ff5d7da0a92bf21133a78d9c26a4034ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 068/105] fix: mp.parse takes more targets than there are
 equations

---
 src/wf/mp/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wf/mp/main.py b/src/wf/mp/main.py
index b006b45..91c9b74 100644
--- a/src/wf/mp/main.py
+++ b/src/wf/mp/main.py
@@ -202,7 +202,7 @@ class MatrixProxy(Frozen):
 
         lbv = self._lbv
         rbv = self._rbv
-        bb = BlockColVector(self._num_equations)
+        bb = BlockColVector(len(targets))
 
         for i, target in enumerate(targets):
             if target.__class__.__name__ == 'Form':
-- 
2.43.0


From 2798b8c6517e1e10764d1bc03d020390ca9ab820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:19 +0000
Subject: [PATCH 069/105] fix: a minus sign without a term in an expression is
 refused

---
 src/pde.py     | 3 ++-
 src/wf/main.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pde.py b/src/pde.py
index da71e30..c1447ac 100644
--- a/src/pde.py
+++ b/src/pde.py
@@ -280,7 +280,8 @@ class PartialDifferentialEquations(Frozen):
                 local_terms = lor.split('+')
 
                 for loc_term in local_terms:
-                    if loc_term == '' or loc_term == '-':  # found empty terms, just ignore.
+                    assert loc_term != '-', f"found a minus sign without a term in {expression[i]}."
+                    if loc_term == '':  # found empty terms, just ignore.
                         pass
                     else:
                         if loc_term == '0':
diff --git a/src/wf/main.py b/src/wf/main.py
index 7407aab..b42aa0d 100644
--- a/src/wf/main.py
+++ b/src/wf/main.py
@@ -403,7 +403,8 @@ class WeakFormulation(Frozen):
                 local_terms = lor.split('+')
 
                 for loc_term in local_terms:
-                    if loc_term == '' or loc_term == '-':  # found empty terms, just ignore.
+                    assert loc_term != '-', f"found a minus sign without a term in {expression[i]}."
+                    if loc_term == '':  # found empty terms, just ignore.
                         pass
                     else:
                         if loc_term == '0':
-- 
2.43.0


From 7897e560aae35eebacfb227a24cd7ad6daf7fd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 070/105] fix: the curved chaotic domain covers its bounds

---
 msehtt/static/manifold/predefined/chaotic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/msehtt/static/manifold/predefined/chaotic.py b/msehtt/static/manifold/predefined/chaotic.py
index 325fa1f..ca20ee4 100644
--- a/msehtt/static/manifold/predefined/chaotic.py
+++ b/msehtt/static/manifold/predefined/chaotic.py
@@ -254,8 +254,8 @@ class TotalMapping2D(Frozen):
             s = (q - c) / (d - c)
             x = r + 0.5 * self._c * sin(2 * pi * r) * sin(2 * pi * s)
             y = s + 0.5 * self._c * sin(2 * pi * r) * sin(2 * pi * s)
-            x += a
-            c += c
+            x = a + x * (b - a)
+            y = c + y * (d - c)
         return x, y
 
     def Jacobian_matrix(self, p, q):
@@ -277,10 +277,10 @@ class TotalMapping2D(Frozen):
             yr = 0.5 * self._c * 2 * pi * cos(2 * pi * r) * sin(2 * pi * s)
             ys = 1 + 0.5 * self._c * sin(2 * pi * r) * 2 * pi * cos(2 * pi * s)
 
-            xp = xr / (b - a)
-            xq = xs / (d - c)
-            yp = yr / (b - a)
-            yq = ys / (d - c)
+            xp = xr
+            xq = xs * (b - a) / (d - c)
+            yp = yr * (d - c) / (b - a)
+            yq = ys
 
         return ((xp, xq),
                 (yp, yq))
-- 
2.43.0


From 52c46cc39fd68b30f709d0f81ab1dd832b42aba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 071/105] fix: refined quads of opposite edge directions share
 the right nodes

---
 msehtt/static/mesh/great/config/msehtt_trf.py | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/msehtt/static/mesh/great/config/msehtt_trf.py b/msehtt/static/mesh/great/config/msehtt_trf.py
index 3dc6cac..ba856d9 100644
--- a/msehtt/static/mesh/great/config/msehtt_trf.py
+++ b/msehtt/static/mesh/great/config/msehtt_trf.py
@@ -529,21 +529,13 @@ def _make_element_map_m2n2_(base_mesh, element_indices):
                 elif x == 1 and y == 1:  # this vortex is the South-East corner of the quad element
                     node_indicator = element_nodes[2]
                 elif x == -1:  # on north edge
-                    face_nodes = [element_nodes[0], element_nodes[3]]
-                    face_nodes.sort()
-                    node_indicator = tuple(face_nodes) + (y, )
+                    node_indicator = _edge_node_indicator_(element_nodes[0], element_nodes[3], y)
                 elif x == 1:  # on South edge
-                    face_nodes = [element_nodes[1], element_nodes[2]]
-                    face_nodes.sort()
-                    node_indicator = tuple(face_nodes) + (y, )
+                    node_indicator = _edge_node_indicator_(element_nodes[1], element_nodes[2], y)
                 elif y == -1:  # on West edge
-                    face_nodes = [element_nodes[0], element_nodes[1]]
-                    face_nodes.sort()
-                    node_indicator = tuple(face_nodes) + (x, )
+                    node_indicator = _edge_node_indicator_(element_nodes[0], element_nodes[1], x)
                 elif y == 1:  # on East edge
-                    face_nodes = [element_nodes[3], element_nodes[2]]
-                    face_nodes.sort()
-                    node_indicator = tuple(face_nodes) + (x, )
+                    node_indicator = _edge_node_indicator_(element_nodes[3], element_nodes[2], x)
                 else:
                     node_indicator = (e[0], x, y)
 
@@ -572,6 +564,14 @@ def _make_element_map_m2n2_(base_mesh, element_indices):
     return element_map
 
 
+def _edge_node_indicator_(start_node, end_node, coordinate):
+    r"""Indicate a node on a quad edge, seen in the same way by both quads even if their edge directions are opposite."""
+    if start_node > end_node:
+        return end_node, start_node, - coordinate
+    else:
+        return start_node, end_node, coordinate
+
+
 _msehtt_trf_cache_vortices_of_triangle_ = {}
 
 
-- 
2.43.0


From ba22c00c1ae6092cb98ef011a99a0729ddec9b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 072/105] fix: uniform refinement of more than one level of a
 msehtt domain

---
 msehtt/static/mesh/great/config/msehtt_trf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msehtt/static/mesh/great/config/msehtt_trf.py b/msehtt/static/mesh/great/config/msehtt_trf.py
index ba856d9..1d43f4f 100644
--- a/msehtt/static/mesh/great/config/msehtt_trf.py
+++ b/msehtt/static/mesh/great/config/msehtt_trf.py
@@ -382,6 +382,10 @@ def _level_high_refining_m2n2_(base_mesh, rff, rft_i, rcm, element_indices):
                         raise NotImplementedError(f"_level_high_refining_ not implemented for rcm={rcm}.")
 
                     # --- check `refine_checking_val` ---------------------------------------------------------------
+                    if isinstance(refine_checking_val, np.ndarray) and refine_checking_val.ndim == 0:
+                        refine_checking_val = float(refine_checking_val)
+                    else:
+                        pass
                     if isinstance(refine_checking_val, (list, tuple)):
                         assert len(refine_checking_val) == 1 and isinstance(refine_checking_val[0], (int, float)), \
                             f"refine_checking_val={refine_checking_val} can be a list or tuple of one number!"
-- 
2.43.0


From b17200a5d2accca1664b02278f6a36597e5b3877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 073/105] fix: refining is not affected by an earlier failed
 one

---
 msehtt/static/mesh/great/config/msehtt_trf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msehtt/static/mesh/great/config/msehtt_trf.py b/msehtt/static/mesh/great/config/msehtt_trf.py
index 1d43f4f..60ed803 100644
--- a/msehtt/static/mesh/great/config/msehtt_trf.py
+++ b/msehtt/static/mesh/great/config/msehtt_trf.py
@@ -155,6 +155,8 @@ def _refining_(base_mesh, rff, rft, rcm):
     else:
         raise NotImplementedError()
 
+    ___a_cache___['boundary_faces'] = None  # a former refining may have been interrupted
+
     # --- do the first level refining, different from higher levels -------------------------
     elements_2be_refined = _level_one_refining_(mn, base_mesh, rff, rft[0], rcm)
     new_element_indices = _parse_level_one_elements_(mn, elements_2be_refined, base_mesh)
-- 
2.43.0


From fa0042a58ca8d78c862017a6661ccf43c10fa946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:54 +0000
Subject: [PATCH 074/105] fix: customizing a block of a msehtt linear system
 does not change the shared matrix behind it

---
 msehtt/tools/linear_system/dynamic/main.py | 6 +++++-
 msehtt/tools/matrix/static/local.py        | 8 ++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/msehtt/tools/linear_system/dynamic/main.py b/msehtt/tools/linear_system/dynamic/main.py
index 86233a0..5c71864 100644
--- a/msehtt/tools/linear_system/dynamic/main.py
+++ b/msehtt/tools/linear_system/dynamic/main.py
@@ -541,7 +541,11 @@ class DynamicBlockEntry(Frozen):
 
         static = factor_terms[0]
         if len(factor_terms) == 1:
-            pass
+            if static.__class__ is MseHttStaticLocalMatrix:
+                # the term may be shared (like the mass matrix), make sure it is not affected by customizations.
+                static = static.copy()
+            else:
+                pass
         else:
             for ft in factor_terms[1:]:
                 static += ft
diff --git a/msehtt/tools/matrix/static/local.py b/msehtt/tools/matrix/static/local.py
index 721cd92..0c5ed8e 100644
--- a/msehtt/tools/matrix/static/local.py
+++ b/msehtt/tools/matrix/static/local.py
@@ -254,6 +254,14 @@ class MseHttStaticLocalMatrix(Frozen):
         for i in self._gm_row:
             yield i
 
+    def copy(self):
+        r"""The same matrix. But customizing the copy does not affect self."""
+        return self.__class__(
+            self.__getitem__, self._gm_row, self._gm_col, cache_key=self._cache_key,
+            special_indicator=self.___special_indicator___,
+            signature=self._signature
+        )
+
     def __neg__(self):
         r""""""
         def data_caller(e):
-- 
2.43.0


From 3e0519a4bcb7d6cf9678c35663c95e4b926f8fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:54 +0000
Subject: [PATCH 075/105] fix: customizing a block of a msepy system does not
 change the systems made later

---
 msepy/tools/linear_system/dynamic/main.py | 6 +++++-
 msepy/tools/matrix/static/local.py        | 7 +++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/msepy/tools/linear_system/dynamic/main.py b/msepy/tools/linear_system/dynamic/main.py
index 69cf925..35afdb8 100644
--- a/msepy/tools/linear_system/dynamic/main.py
+++ b/msepy/tools/linear_system/dynamic/main.py
@@ -522,7 +522,11 @@ class DynamicBlockEntry(Frozen):
 
         static = factor_terms[0]
         if len(factor_terms) == 1:
-            pass
+            if static.__class__ is MsePyStaticLocalMatrix:
+                # the term is shared by all calls, make sure it is not affected by customizations.
+                static = static.copy()
+            else:
+                pass
         else:
             for ft in factor_terms[1:]:
                 static += ft
diff --git a/msepy/tools/matrix/static/local.py b/msepy/tools/matrix/static/local.py
index 8031fdb..a91eb90 100644
--- a/msepy/tools/matrix/static/local.py
+++ b/msepy/tools/matrix/static/local.py
@@ -215,6 +215,13 @@ class MsePyStaticLocalMatrix(Frozen):
             self._irs = np.all(self._gm0_row._gm == self._gm1_col._gm)
         return self._irs
 
+    def copy(self):
+        """The same matrix. But customizing the copy does not affect self."""
+        if self._dtype in ('ddd', 'constant') and self.is_untouched():
+            return self.__class__(self._data, self._gm0_row, self._gm1_col)
+        else:
+            return self.__class__(self.__getitem__, self._gm0_row, self._gm1_col, cache_key=self._cache_key)
+
     @property
     def T(self):
         """The `customization` will not have an effect. The adjustment will be taken into account."""
-- 
2.43.0


From 2f2be94b72347f02c74ed2cad23c152ff2ecb5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:54 +0000
Subject: [PATCH 076/105] fix: setting initial values of a nonlinear system
 leaves the cochain of the given form alone

---
 msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
index 9076858..30ea414 100644
--- a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
+++ b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
@@ -108,7 +108,7 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
                 i, elements, local_dofs, local_values = method_para
                 assert len(elements) == len(local_dofs) == len(local_values), f"positions are not correct."
 
-                x0_i = x0[i]
+                x0_i = x0[i].copy()  # do not change the cochain of the given form.
                 assert isinstance(x0_i, np.ndarray) and x0_i.ndim == 2, f'safety check'
 
                 for j,  e in enumerate(elements):
-- 
2.43.0


From 781650e2037313fcdb06a9be2697e36fc00bc99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:54 +0000
Subject: [PATCH 077/105] fix: the msepy Newton solver stops at norm(dx) < atol

---
 msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
index 30ea414..3957af8 100644
--- a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
+++ b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
@@ -274,7 +274,7 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
                 [
                     np.sum(_**2) for _ in dx
                 ]
-            )
+            ) ** 0.5
 
             BETA.append(beta)
             JUDGE, stop_iteration, convergence_info, JUDGE_explanation = _check_stop_criterion_(
-- 
2.43.0


From 6fc596a4603979061ddba4bbe92a8f757354fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 078/105] fix: each essential condition of a msepy nonlinear
 system fixes its own dofs

---
 .../nonlinear_system/static/solve/Newton_Raphson.py    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
index 3957af8..125d0a0 100644
--- a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
+++ b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
@@ -122,7 +122,7 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
         xi = x0
 
         # --- some caches ----------------------------
-        _global_dofs_cache = None
+        _global_dofs_cache = dict()
 
         # -- start the Newton iterations ----------------------------
         while 1:
@@ -221,7 +221,7 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
             ls = MsePyStaticLocalLinearSystem(LHS, x, f)
 
             # adopt customizations: important ------------------------------------------ 2
-            for customization in self._nls.customize._customizations:
+            for c_i, customization in enumerate(self._nls.customize._customizations):
                 method_name = customization[0]
                 method_para = customization[1]
 
@@ -236,13 +236,13 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
 
                 elif method_name == 'set_no_evaluation_for_overall_local_dofs':
 
-                    if _global_dofs_cache is None:
+                    if c_i not in _global_dofs_cache:
                         elements, overall_local_dofs = method_para
                         gm = A._gm0_row
                         global_dofs = gm._find_global_numbering(elements, overall_local_dofs)
-                        _global_dofs_cache = global_dofs
+                        _global_dofs_cache[c_i] = global_dofs
                     else:
-                        global_dofs = _global_dofs_cache
+                        global_dofs = _global_dofs_cache[c_i]
 
                     A.customize.identify_diagonal(global_dofs)
                     f.customize.set_values(global_dofs, 0)
-- 
2.43.0


From 0012f33a309e649d7c7693b6f3d6091e2c66605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 079/105] fix: values set to the initial guess of a msepy
 nonlinear system hold in all elements

---
 .../nonlinear_system/static/solve/Newton_Raphson.py   | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
index 125d0a0..76b0b4f 100644
--- a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
+++ b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
@@ -111,8 +111,17 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
                 x0_i = x0[i].copy()  # do not change the cochain of the given form.
                 assert isinstance(x0_i, np.ndarray) and x0_i.ndim == 2, f'safety check'
 
+                gm = self._nls.unknowns[i]._f.cochain.gathering_matrix
+                global_values = np.zeros(gm.num_dofs)
+                given = np.zeros(gm.num_dofs, dtype=bool)
                 for j,  e in enumerate(elements):
-                    x0_i[e, local_dofs[j]] = local_values[j]
+                    numbering = gm._gm[e, local_dofs[j]]
+                    global_values[numbering] = local_values[j]
+                    given[numbering] = True
+
+                # a dof can be shared with other elements; set its value there as well.
+                positions = given[gm._gm]
+                x0_i[positions] = global_values[gm._gm][positions]
 
                 x0[i] = x0_i
 
-- 
2.43.0


From 7addf79a1d0777eedb5f1d2150be394e60203a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:53 +0000
Subject: [PATCH 080/105] fix: the default initial guess of the msepy Newton
 solver holds floats

---
 msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
index 76b0b4f..843d56a 100644
--- a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
+++ b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
@@ -37,7 +37,7 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
                 gm = f.cochain.gathering_matrix
                 if newest_time is None:  # no newest cochain at all.
                     # then use 0-cochain
-                    local_cochain = np.zeros_like(gm._gm)
+                    local_cochain = np.zeros_like(gm._gm, dtype=float)
 
                 else:
                     local_cochain = f.cochain[newest_time].local
-- 
2.43.0


From 8baf28b0802c3ad2afc89dcdfe3dd5a394d1b180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:11 +0000
Subject: [PATCH 081/105] fix: renewing cochains by the global interpolation
 returns the renew info

---
 msehtt/adaptive/form/renew/method_1_global_interpolation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/msehtt/adaptive/form/renew/method_1_global_interpolation.py b/msehtt/adaptive/form/renew/method_1_global_interpolation.py
index a45db51..0ef4e68 100644
--- a/msehtt/adaptive/form/renew/method_1_global_interpolation.py
+++ b/msehtt/adaptive/form/renew/method_1_global_interpolation.py
@@ -68,6 +68,11 @@ class MseHtt_FormCochainRenew_Method1_GlobalInterpolation(Frozen):
         else:
             pass
 
+        # the same renew info as the other methods give.
+        from phyem.msehtt.adaptive.form.renew.method_3_local_interpolation import compare_two_meshes
+        all_same = compare_two_meshes(self._ff.tpm.composition, self._tf.tpm.composition)[2]
+        return {'all same': all_same}
+
     # noinspection PyUnboundLocalVariable
     def ___renew_a_cochain___(self, t, NODES):
         r""""""
-- 
2.43.0


From 39daa317c19c29255aca60557ea6eb6897e5af7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:11 +0000
Subject: [PATCH 082/105] fix: local renewing finds the base elements of meshes
 without symmetric refinement

---
 .../form/renew/method_3_local_interpolation.py         | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/msehtt/adaptive/form/renew/method_3_local_interpolation.py b/msehtt/adaptive/form/renew/method_3_local_interpolation.py
index 3676bdd..3412d33 100644
--- a/msehtt/adaptive/form/renew/method_3_local_interpolation.py
+++ b/msehtt/adaptive/form/renew/method_3_local_interpolation.py
@@ -374,6 +374,16 @@ def compare_two_meshes(elements0, elements1):
 
 def ___find_base_element_index___(e):
     r""""""
+    if isinstance(e, tuple):  # an element made by triangular refinement of a base element.
+        e = e[0]
+    else:
+        pass
+
+    if isinstance(e, int):    # a base element
+        return e
+    else:
+        pass
+
     if e[0] == '(':
         s_ind = e.split(')')[0][1:].split(',')[0]
     else:
-- 
2.43.0


From e5e4e013cde350d6b60e79273be35c3178fd56ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:38 +0000
Subject: [PATCH 083/105] fix: the caches of the local renewing compare objects
 instead of ids

---
 .../renew/method_3_local_interpolation.py     | 38 ++++++++++---------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/msehtt/adaptive/form/renew/method_3_local_interpolation.py b/msehtt/adaptive/form/renew/method_3_local_interpolation.py
index 3412d33..c7bb171 100644
--- a/msehtt/adaptive/form/renew/method_3_local_interpolation.py
+++ b/msehtt/adaptive/form/renew/method_3_local_interpolation.py
@@ -291,8 +291,8 @@ class MseHtt_FormCochainRenew_Method3_LocalInterpolation(Frozen):
 
 
 ___compare_two_meshes_cache___ = {
-    'id0': 0,
-    'id1': 0,
+    'elements0': None,
+    'elements1': None,
     'not_changed_elements': None,
     'changed_elements': None,
     'all_same': -1
@@ -301,14 +301,15 @@ ___compare_two_meshes_cache___ = {
 
 def compare_two_meshes(elements0, elements1):
     r""""""
-    if (id(elements0) == ___compare_two_meshes_cache___['id0'] and
-            id(elements1) == ___compare_two_meshes_cache___['id1']):
+    # we compare the objects instead of their ids since an id can be reused after the object is deleted.
+    if (elements0 is ___compare_two_meshes_cache___['elements0'] and
+            elements1 is ___compare_two_meshes_cache___['elements1']):
         return (___compare_two_meshes_cache___['not_changed_elements'],
                 ___compare_two_meshes_cache___['changed_elements'],
                 ___compare_two_meshes_cache___['all_same'])
     else:
-        ___compare_two_meshes_cache___['id0'] = id(elements0)
-        ___compare_two_meshes_cache___['id1'] = id(elements1)
+        ___compare_two_meshes_cache___['elements0'] = elements0
+        ___compare_two_meshes_cache___['elements1'] = elements1
 
     assert isinstance(elements0, MseHttElementsPartialMesh) and isinstance(elements1, MseHttElementsPartialMesh)
 
@@ -393,15 +394,14 @@ def ___find_base_element_index___(e):
 
 
 _local_cache_1_ = {
-    'id': 0,
+    'changed_elements': None,
     'indices': [],
 }
 
 
 def ___find_needed_base_element_indices___(changed_elements):
     r""""""
-    ID = id(changed_elements)
-    if ID == _local_cache_1_['id']:
+    if changed_elements is _local_cache_1_['changed_elements']:
         return _local_cache_1_['indices']
     else:
         indices = list()
@@ -409,7 +409,7 @@ def ___find_needed_base_element_indices___(changed_elements):
             base_element_index = ___find_base_element_index___(e_ind)
             indices.append(base_element_index)
 
-        _local_cache_1_['id'] = ID
+        _local_cache_1_['changed_elements'] = changed_elements
         _local_cache_1_['indices'] = indices
 
         return indices
@@ -433,18 +433,19 @@ def ___bcast___(base_elements, data_id):
 
 
 _local_cache_ff_ = {
-    'id': '',
+    'base_elements': None,
+    'elements': None,
     'ff_reconstruction': [],
 }
 
 
 def ___find_ff_reconstruction_elements___(base_elements, elements):
     r""""""
-    ID = str(id(base_elements)) + '=' + str(id(elements))
-    if ID == _local_cache_ff_['id']:
+    if base_elements is _local_cache_ff_['base_elements'] and elements is _local_cache_ff_['elements']:
         return _local_cache_ff_['ff_reconstruction']
     else:
-        _local_cache_ff_['id'] = ID
+        _local_cache_ff_['base_elements'] = base_elements
+        _local_cache_ff_['elements'] = elements
         local_reconstruction_elements = list()
         for e in elements:
             base_ele_index = ___find_base_element_index___(e)
@@ -459,18 +460,19 @@ def ___find_ff_reconstruction_elements___(base_elements, elements):
 
 
 _local_cache_tf_ = {
-    'id': '',
+    'base_elements': None,
+    'elements': None,
     'tf_reconstruction': [],
 }
 
 
 def ___find_tf_reconstruction_elements___(base_elements, elements):
     r""""""
-    ID = str(id(base_elements)) + '=' + str(id(elements))
-    if ID == _local_cache_tf_['id']:
+    if base_elements is _local_cache_tf_['base_elements'] and elements is _local_cache_tf_['elements']:
         return _local_cache_tf_['tf_reconstruction']
     else:
-        _local_cache_tf_['id'] = ID
+        _local_cache_tf_['base_elements'] = base_elements
+        _local_cache_tf_['elements'] = elements
         local_reconstruction_elements = list()
         for e in elements:
             base_ele_index = ___find_base_element_index___(e)
-- 
2.43.0


From d74475a1cb6170b902ced57757716045025e6130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:47 +0000
Subject: [PATCH 084/105] fix: configurations of an adaptive (non)linear system
 hold also when it was applied before

---
 msehtt/adaptive/tools/linear_system.py    | 1 +
 msehtt/adaptive/tools/nonlinear_system.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/msehtt/adaptive/tools/linear_system.py b/msehtt/adaptive/tools/linear_system.py
index 8c22cd8..2a21200 100644
--- a/msehtt/adaptive/tools/linear_system.py
+++ b/msehtt/adaptive/tools/linear_system.py
@@ -91,6 +91,7 @@ class _MSEHTT_ADAPTIVE_LINEAR_SYSTEM_CONFIG_(Frozen):
             raise NotImplementedError()
 
         self._configurations.append(configuration)
+        self._ada_ls._generation_cache_ = -1  # a system applied before does not have this configuration.
 
     def _conf__natural_bc___1_(self, place, condition, root_form=None):
         r""""""
diff --git a/msehtt/adaptive/tools/nonlinear_system.py b/msehtt/adaptive/tools/nonlinear_system.py
index d9f518a..d041131 100644
--- a/msehtt/adaptive/tools/nonlinear_system.py
+++ b/msehtt/adaptive/tools/nonlinear_system.py
@@ -90,6 +90,7 @@ class _MSEHTT_ADAPTIVE_NON_LINEAR_SYSTEM_CONFIG_(Frozen):
             raise NotImplementedError()
 
         self._configurations.append(configuration)
+        self._ada_nls._generation_cache_ = -1  # a system applied before does not have this configuration.
 
     def _conf__natural_bc___1_(self, place, condition, root_form=None):
         r""""""
-- 
2.43.0


From 18341011f85a8b9a8d7f30d2e5903b9a740011c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 085/105] fix: a static msehtt implementation applied after an
 adaptive or multi-grid one uses its own forms

---
 msehtt/static/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msehtt/static/main.py b/msehtt/static/main.py
index ae61100..a5448c4 100644
--- a/msehtt/static/main.py
+++ b/msehtt/static/main.py
@@ -62,6 +62,8 @@ def _clear_self():
     base['forms'] = dict()
     base['the_great_mesh'] = None
 
+    PARSER._setting_['base'] = base      # an adaptive or multi-grid implementation may have put its own base.
+    NOC_PARSER._setting_['base'] = base
     PARSER._setting_['_cache_M_'] = {}  # keyed by space id, which a new space may reuse.
 
     if RANK == MASTER_RANK:
-- 
2.43.0


From 9c86e4c75cedb8d7dea4c3fc7a4f7de620992414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:16 +0000
Subject: [PATCH 086/105] fix: the correction of a coarser level is taken off
 in multi-grid cycles

---
 .../multigrid/tools/linear_system/static/solvers/multigrid.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msehtt/multigrid/tools/linear_system/static/solvers/multigrid.py b/msehtt/multigrid/tools/linear_system/static/solvers/multigrid.py
index a3b9590..4501852 100644
--- a/msehtt/multigrid/tools/linear_system/static/solvers/multigrid.py
+++ b/msehtt/multigrid/tools/linear_system/static/solvers/multigrid.py
@@ -218,7 +218,8 @@ def _msehtt_multigrid_solver_(
                 upper_dx = A._gm_col.merge(*upper_dxs)
                 x, _, BV = stepIOs[restriction_index].Input
                 assert isinstance(x, MseHttGlobalVectorGathered) and isinstance(upper_dx, MseHttGlobalVectorGathered)
-                x._V = x._V + upper_dx._V
+                # The lower level solved A dx = error where error = A x - b, so dx is taken off.
+                x._V = x._V - upper_dx._V
                 error = A.M @ x.V - BV
                 stepIOs[s].output = [x, error, BV]
                 stepIOs[s].o_type = 'SOLUTION-ERROR-RHS'
-- 
2.43.0


From 8e98e0ea1830faff95254b08e23dbea9ec4a7c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:58 +0000
Subject: [PATCH 087/105] fix: the group keys of points and segments do not
 distinguish -0 from 0

---
 tools/miscellaneous/geometries/m2n2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/miscellaneous/geometries/m2n2.py b/tools/miscellaneous/geometries/m2n2.py
index bef5350..358595b 100644
--- a/tools/miscellaneous/geometries/m2n2.py
+++ b/tools/miscellaneous/geometries/m2n2.py
@@ -69,7 +69,7 @@ class Point2(Frozen):
         r"""Return a key-string, and other objects of the same key-string can be a subset
         of me. Or the other way around.
         """
-        return "p%.6f" % round(self._x, 8)
+        return "p%.6f" % (round(self._x, 8) + 0.)  # + 0.: the key of -0. is that of 0.
 
     def __eq__(self, other):
         r""""""
@@ -248,7 +248,7 @@ class StraightSegment2(Frozen):
         """
         slope = self.slope
         if abs(slope) == np.inf:
-            return "ss:inf%.6f" % round(self.A.x, 8)
+            return "ss:inf%.6f" % (round(self.A.x, 8) + 0.)
         else:
             if abs(slope) < 1e-8:
                 slope = 0
@@ -256,7 +256,7 @@ class StraightSegment2(Frozen):
                 pass
             x0, y0 = self.A.x, self.A.y
             y = y0 - slope * x0
-            return f"ss%.6f" % round(y, 8) + ":%.6f" % round(slope, 8)
+            return f"ss%.6f" % (round(y, 8) + 0.) + ":%.6f" % (round(slope, 8) + 0.)
 
     def whether_contain__input__as_a_part_of_same_type(self, geo):
         r"""Return True iff `geo` is also a StraightSegment and it is a subset of self."""
-- 
2.43.0


From 44552185367f94b17166828eead18cc96a5e5266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:12 +0000
Subject: [PATCH 088/105] fix: the group keys of 3d geometries do not
 distinguish -0 from 0

---
 tools/miscellaneous/geometries/m3n3.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/miscellaneous/geometries/m3n3.py b/tools/miscellaneous/geometries/m3n3.py
index d30441a..b8e2a9b 100644
--- a/tools/miscellaneous/geometries/m3n3.py
+++ b/tools/miscellaneous/geometries/m3n3.py
@@ -60,7 +60,7 @@ class Point3(Frozen):
         r"""Return a key-string, and other objects of the same key-string can be a subset
         of me. Or the other way around.
         """
-        return "%.6f" % round(self._x, 6) + "P%.6f" % round(self._y, 6)
+        return "%.6f" % (round(self._x, 6) + 0.) + "P%.6f" % (round(self._y, 6) + 0.)  # 0. for -0.
 
     def whether_contain__input__as_a_part_of_same_type(self, geo):
         r""""""
@@ -259,7 +259,8 @@ class OrthogonalSegment3(Frozen):
         r"""Return a key-string, and other objects of the same key-string can be a subset
         of me. Or the other way around.
         """
-        return rf"S{self._axis}" + '%.5f' % round(self._line[0], 5) + '-%.5f' % round(self._line[1], 5)
+        return (rf"S{self._axis}" + '%.5f' % (round(self._line[0], 5) + 0.) +
+                '-%.5f' % (round(self._line[1], 5) + 0.))
 
     def whether_contain__input__as_a_part_of_same_type(self, geo):
         r"""Return True iff `geo` is also a StraightSegment3 and it is a subset of self."""
@@ -429,7 +430,7 @@ class PerpRectangle(Frozen):
         r"""Return a key-string, and other objects of the same key-string can be a subset
         of me. Or the other way around.
         """
-        return rf"pR{self._perp_axis}" + '%.6f' % round(self._face, 6)
+        return rf"pR{self._perp_axis}" + '%.6f' % (round(self._face, 6) + 0.)
 
     def whether_contain__input__as_a_part_of_same_type(self, geo):
         r"""Return True iff `geo` is also a perp-rectangle and it is a subset of self."""
-- 
2.43.0


From 5fe2def84a904ad118a516ce73a9d10ff8ae02cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:46 +0000
Subject: [PATCH 089/105] fix: local renewing of the triangles keeps the
 direction of degrees of freedom

---
 .../renew/method_3_local_interpolation.py     | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/msehtt/adaptive/form/renew/method_3_local_interpolation.py b/msehtt/adaptive/form/renew/method_3_local_interpolation.py
index c7bb171..de55d1b 100644
--- a/msehtt/adaptive/form/renew/method_3_local_interpolation.py
+++ b/msehtt/adaptive/form/renew/method_3_local_interpolation.py
@@ -139,6 +139,7 @@ class MseHtt_FormCochainRenew_Method3_LocalInterpolation(Frozen):
         nodes = (nodes[1:] + nodes[:-1]) / 2
 
         mn = self._ff.space.mn
+        to_be_reversed = self.___find_to_be_reversed_dofs___()
 
         if self._ff.space.indicator == 'Lambda' and mn == (2, 2):
             NODES = (nodes, nodes)
@@ -160,11 +161,46 @@ class MseHtt_FormCochainRenew_Method3_LocalInterpolation(Frozen):
                     cochain_dict[e] = new_cochain[e]
                 else:
                     cochain_dict[e] = old_cochain[e]
+                    if e in to_be_reversed:
+                        cochain_dict[e] = cochain_dict[e].copy()
+                        cochain_dict[e][to_be_reversed[e]] *= -1
+                    else:
+                        pass
 
             COMM.barrier()
             self._tf[t].cochain = cochain_dict
             self._tf[t].cochain.homogenous()
 
+    def ___find_to_be_reversed_dofs___(self):
+        r"""Which element of two sharing a face takes the minus (see `dof_reverse_info`) depends on the mesh. So an
+        element of the same index may have different dof directions in two meshes.
+
+        Return a dict whose keys are local element indices of the new mesh, and whose values are the local numbering
+        of dofs which are of different directions in the old mesh.
+        """
+        space = self._tf.space.abstract
+        if self._tf.space.mn == (2, 2) and space.k == 1:
+            indicator = f"m2n2k1_{space.orientation}"
+        else:
+            return {}
+        old_info = {}
+        for e in self._ff.tpm.composition:
+            old_info[e] = self._ff.tpm.composition[e].dof_reverse_info.get(indicator, [])
+        all_old_info = {}
+        for _ in COMM.allgather(old_info):
+            all_old_info.update(_)
+        to_be_reversed = {}
+        for e in self._tf.tpm.composition:
+            if e in all_old_info:
+                element = self._tf.tpm.composition[e]
+                new_faces = element.dof_reverse_info.get(indicator, [])
+                dofs = []
+                for face_index in set(new_faces) ^ set(all_old_info[e]):
+                    dofs.extend(element.find_local_dofs_on_face(indicator, self._tf.degree, face_index))
+                if dofs:
+                    to_be_reversed[e] = dofs
+        return to_be_reversed
+
     def ___renew_a_cochain___(self, t, NODES, local_ff_elements, local_tf_elements):
         r""""""
         ff = self._ff[t]
-- 
2.43.0


From 9755ba84f23aae3d76d81c3da0d302716f75e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:01 +0000
Subject: [PATCH 090/105] fix: the order of elements, and so the direction of
 dofs, is the same on all levels on several ranks

---
 msehtt/static/mesh/great/main.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/msehtt/static/mesh/great/main.py b/msehtt/static/mesh/great/main.py
index 3520f86..8d44b80 100644
--- a/msehtt/static/mesh/great/main.py
+++ b/msehtt/static/mesh/great/main.py
@@ -649,6 +649,18 @@ class MseHttGreatMesh(Frozen):
         else:
             pass
 
+        # ----- the global order of elements is that of the ranks (also when elements are split) -----
+        if SIZE > 1:
+            rank_indices = COMM.gather(list(element_type_dict), root=MASTER_RANK)
+            if RANK == MASTER_RANK:
+                order = [e for indices in rank_indices for e in indices]
+                self._global_element_type_dict = {e: self._global_element_type_dict[e] for e in order}
+                self._global_element_map_dict = {e: self._global_element_map_dict[e] for e in order}
+            else:
+                pass
+        else:
+            pass
+
         # ----------- do triangle/tetrahedron-split----------------------------------------------
         # noinspection PySimplifyBooleanCheck
         if ts is False:
-- 
2.43.0


From 9798d97e869c05872224cef05afe74c444682c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:01 +0000
Subject: [PATCH 091/105] fix: fewer elements than ranks are refused with the
 message

---
 msehtt/static/mesh/great/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msehtt/static/mesh/great/main.py b/msehtt/static/mesh/great/main.py
index 8d44b80..84315b1 100644
--- a/msehtt/static/mesh/great/main.py
+++ b/msehtt/static/mesh/great/main.py
@@ -801,7 +801,7 @@ class MseHttGreatMesh(Frozen):
                 num_total_elements = len(elements_indices)
 
                 if num_total_elements < SIZE:
-                    raise r"number of elements is lower than SIZE, reduce SIZE."
+                    raise Exception(r"number of elements is lower than SIZE, reduce SIZE.")
                 elif num_total_elements == SIZE:
                     for rank, e in enumerate(all_element_type_dict):
                         element_distribution[rank] = [e]
-- 
2.43.0


From 92f22ddf9c8920d7d2137e297c2c341fb4002f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:44 +0000
Subject: [PATCH 092/105] fix: fewer cells than ranks are refused with the
 message

---
 msehtt/static/mesh/great/config/vtu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msehtt/static/mesh/great/config/vtu.py b/msehtt/static/mesh/great/config/vtu.py
index d484eb7..e1eb1bc 100644
--- a/msehtt/static/mesh/great/config/vtu.py
+++ b/msehtt/static/mesh/great/config/vtu.py
@@ -103,7 +103,7 @@ class MseHttVtuInterface(Frozen):
 
                 if distribution_method == 'Naive':
                     if num_total_elements < SIZE:
-                        raise r"number of elements is lower than SIZE, reduce SIZE."
+                        raise Exception(r"number of elements is lower than SIZE, reduce SIZE.")
 
                     elif SIZE == 1:
                         element_distribution[0] = list(self._global_element_type_dict.keys())
-- 
2.43.0


From c898b56fe79777d88a2fb73a91b9221c2e52d14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:17 +0000
Subject: [PATCH 093/105] fix: cached data are not changed through what has
 been handed out

---
 tools/miscellaneous/ndarray_cache.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/miscellaneous/ndarray_cache.py b/tools/miscellaneous/ndarray_cache.py
index f6e03af..f5ff27c 100644
--- a/tools/miscellaneous/ndarray_cache.py
+++ b/tools/miscellaneous/ndarray_cache.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 r"""
 """
+from copy import deepcopy
+
 import numpy as np
 
 
@@ -108,7 +110,7 @@ def ndarray_key_comparer(cache, arrays, check_str=''):
                 all([np.array_equal(cache_arrays[_], arrays[_]) for _ in range(len(cache_arrays))]) and
                 check_strings[key] == check_str), \
             f"safety check!"
-        _, __ = 1, values[key]
+        _, __ = 1, deepcopy(values[key])  # the caller may change what it gets.
         hit_it = 1
 
     else:
@@ -174,5 +176,5 @@ def add_to_ndarray_cache(cache, arrays, results, check_str='', maximum=25):
         current_key = 0
 
     keys[current_key] = [ar.copy() for ar in arrays]  # the caller may change its arrays later on.
-    values[current_key] = results
+    values[current_key] = deepcopy(results)  # `results` are also handed out to the caller.
     check_strings[current_key] = check_str
-- 
2.43.0


From d4c98e454f90e62574222432fa6db79495e23506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:17 +0000
Subject: [PATCH 094/105] fix: quadrature rules are not changed through
 handed-out nodes and weights

---
 tools/quadrature.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/tools/quadrature.py b/tools/quadrature.py
index fd0eab8..f607330 100644
--- a/tools/quadrature.py
+++ b/tools/quadrature.py
@@ -2,6 +2,7 @@
 r"""
 """
 import math
+from copy import deepcopy
 
 import numpy as np
 from functools import partial
@@ -150,7 +151,7 @@ class Quadrature(object):
     def quad_weights_ravel(self):
         """"""
         if self._cache_key in _global_cache_0:
-            data = _global_cache_0[self._cache_key]
+            data = deepcopy(_global_cache_0[self._cache_key])
 
         else:
             if self.ndim == 1:
@@ -164,7 +165,7 @@ class Quadrature(object):
                         temp_weights = np.tensordot(temp_weights, self.quad[1][i], axes=0)
                 data = temp_weights.ravel('F')
 
-            _global_cache_0[self._cache_key] = data
+            _global_cache_0[self._cache_key] = deepcopy(data)
 
         return data
 
@@ -172,7 +173,7 @@ class Quadrature(object):
     def quad(self):
         """(Tuple) ``quad[0]`` are the nodes, ``quad[1]`` are the weights."""
         if self._cache_key in _global_cache_1:
-            _quad_ = _global_cache_1[self._cache_key]
+            _quad_ = deepcopy(_global_cache_1[self._cache_key])
 
         else:
             if self.ndim == 1:
@@ -201,7 +202,7 @@ class Quadrature(object):
                     _quad_[0].append(nodes)
                     _quad_[1].append(weights)
 
-            _global_cache_1[self._cache_key] = _quad_
+            _global_cache_1[self._cache_key] = deepcopy(_quad_)
 
         return _quad_
         
@@ -212,7 +213,7 @@ class Quadrature(object):
         nodes and the nd weights; in total the quad_ndim is of shape(n+1,x,y,z)
         """
         if self._cache_key in _global_cache_2:
-            quad_ndim = _global_cache_2[self._cache_key]
+            quad_ndim = deepcopy(_global_cache_2[self._cache_key])
 
         else:
             if self.ndim == 1:
@@ -227,7 +228,7 @@ class Quadrature(object):
                 nodes = np.meshgrid(*self.quad[0], indexing='ij')
                 quad_ndim = *nodes, temp_weights
 
-            _global_cache_2[self._cache_key] = quad_ndim
+            _global_cache_2[self._cache_key] = deepcopy(quad_ndim)
 
         return quad_ndim
         
@@ -235,12 +236,12 @@ class Quadrature(object):
     def quad_ndim_ravel(self):
         """Same as `quad_ndim` but now we have raveled it, so it is of shape (n+1, x*y*z)."""
         if self._cache_key in _global_cache_3:
-            quad_ndim = _global_cache_3[self._cache_key]
+            quad_ndim = deepcopy(_global_cache_3[self._cache_key])
 
         else:
             quad_ndim = [qn.ravel('F') for qn in self.quad_ndim]
 
-            _global_cache_3[self._cache_key] = quad_ndim
+            _global_cache_3[self._cache_key] = deepcopy(quad_ndim)
 
         return quad_ndim
 
@@ -276,7 +277,7 @@ class Quadrature(object):
 
         """
         if partition in ___cus_nodes_cache___:
-            return ___cus_nodes_cache___[partition]
+            return deepcopy(___cus_nodes_cache___[partition])
         else:
             pass
         assert partition[:10] == "CUS-NODES@", f"partition={partition} is wrong."
@@ -292,13 +293,13 @@ class Quadrature(object):
         nodes[-1] = 1
         ___cus_nodes_cache___[partition] = np.array(nodes), None
         # weights are None, do not use these nodes for numerical quadrature.
-        return ___cus_nodes_cache___[partition]
+        return deepcopy(___cus_nodes_cache___[partition])
 
     @classmethod
     def ___PRIVATE_compute_NodeDistribution___(cls, nd):
         r""""""
         if nd in ___NodeDistributionCache___:
-            return ___NodeDistributionCache___[nd]
+            return deepcopy(___NodeDistributionCache___[nd])
         else:
             pass
         assert nd[:3] == "nd@", f"node distribution={nd} is wrong."
@@ -307,7 +308,7 @@ class Quadrature(object):
         np.testing.assert_almost_equal(nodes[0], -1)
         np.testing.assert_almost_equal(nodes[-1], 1)
         ___NodeDistributionCache___[nd] = nodes, None
-        return ___NodeDistributionCache___[nd]
+        return deepcopy(___NodeDistributionCache___[nd])
 
     @staticmethod
     def ___PRIVATE_legendre_prime___(x, n):
-- 
2.43.0


From 1fe9f80c978b63d5e4b7831137d68b3a5dc631aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:56 +0000
Subject: [PATCH 095/105] fix: gmres and lgmres leave the initial guess as it
 is

---
 msehtt/tools/linear_system/static/global_/solvers/mpi_py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py b/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
index ad219eb..ee321ea 100644
--- a/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
+++ b/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
@@ -75,7 +75,7 @@ def gmres(
     if isinstance(x0, (int, float)) and x0 == 0:
         x0 = np.zeros(A.shape[1])
     else:
-        x0 = x0.V               # x0 is a shell of the gathered global vector, x0； x0.V is a 1d np.ndarray.
+        x0 = x0.V.copy()        # x0 is a shell of the gathered global vector, x0； x0.V is a 1d np.ndarray.
 
     shape0, shape1 = A.shape
     assert f.shape[0] == x0.shape[0] == shape0 == shape1, "Ax=f shape dis-match."
@@ -276,7 +276,7 @@ def lgmres(
     if isinstance(x0, (int, float)) and x0 == 0:
         x0 = np.zeros(A.shape[1])
     else:
-        x0 = x0.V               # x0 is a shell of the gathered global vector, x0； x0.V is a 1d np.ndarray.
+        x0 = x0.V.copy()        # x0 is a shell of the gathered global vector, x0； x0.V is a 1d np.ndarray.
 
     shape0, shape1 = A.shape
     assert f.shape[0] == x0.shape[0] == shape0 == shape1, "Ax=f shape dis-match."
-- 
2.43.0


From f3a5ae01b8591d7a92208e66a4483e25067bd953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:50 +0000
Subject: [PATCH 096/105] fix: a dict of local vectors given by the caller
 stays as it is

---
 msehtt/tools/vector/static/local.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msehtt/tools/vector/static/local.py b/msehtt/tools/vector/static/local.py
index 62e8c6e..b150416 100644
--- a/msehtt/tools/vector/static/local.py
+++ b/msehtt/tools/vector/static/local.py
@@ -128,6 +128,7 @@ class MseHttStaticLocalVector(Frozen):
 
         elif isinstance(data, dict):
             self._dtype = "dict"
+            data = data.copy()  # the dict given by the caller stays as it is.
             for i in data:
                 assert i in self._gm, f"element #{i} is not a local element"
                 assert isinstance(data[i], np.ndarray), f"each local vector must be 1d array."
-- 
2.43.0


From e826c0b8ab4df9cc2062d436b30331ceccc27fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:31 +0000
Subject: [PATCH 097/105] fix: dofs found on a boundary section are not changed
 through a former answer

---
 msehtt/static/mesh/partial/boundary_section/main.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/msehtt/static/mesh/partial/boundary_section/main.py b/msehtt/static/mesh/partial/boundary_section/main.py
index b976ad8..0b0aae3 100644
--- a/msehtt/static/mesh/partial/boundary_section/main.py
+++ b/msehtt/static/mesh/partial/boundary_section/main.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 r"""
 """
+from copy import deepcopy
+
 from phyem.tools.frozen import Frozen
 from phyem.src.config import RANK, MASTER_RANK, COMM, MPI
 from phyem.msehtt.static.mesh.partial.boundary_section.visualize.main import MseHttBoundarySectionPartialMeshVisualize
@@ -129,7 +131,7 @@ class MseHttBoundarySectionPartialMesh(Frozen):
         key += str(local)
 
         if key in self._find_cache_:
-            return self._find_cache_[key]
+            return deepcopy(self._find_cache_[key])
         else:
             pass
 
@@ -165,7 +167,7 @@ class MseHttBoundarySectionPartialMesh(Frozen):
             #
             # Thus, element #14 will not appear in the output of any other ranks.
             self._find_cache_[key] = local_wise_dofs
-            return local_wise_dofs
+            return deepcopy(local_wise_dofs)
 
         else:
             # While if local is False, then we collect the global numbering of all found dofs, gather them and bcast
@@ -185,4 +187,4 @@ class MseHttBoundarySectionPartialMesh(Frozen):
                 DOFS = None
 
             self._find_cache_[key] = COMM.bcast(DOFS, root=MASTER_RANK)
-            return self._find_cache_[key]
+            return deepcopy(self._find_cache_[key])
-- 
2.43.0


From 73c4272e50a26b7a9df12a92071f7490cbe4275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:19 +0000
Subject: [PATCH 098/105] fix: locations of dofs are not changed through a
 former answer

---
 msehtt/tools/gathering_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/tools/gathering_matrix.py b/msehtt/tools/gathering_matrix.py
index 6c80f64..588f7bf 100644
--- a/msehtt/tools/gathering_matrix.py
+++ b/msehtt/tools/gathering_matrix.py
@@ -409,7 +409,7 @@ class MseHttGatheringMatrix(Frozen):
         hash_key = hash(tuple(global_dofs))
 
         if hash_key == self._total_find_key_:
-            return self._total_find_cache_
+            return self._total_find_cache_.copy()
         else:
             pass
 
@@ -435,7 +435,7 @@ class MseHttGatheringMatrix(Frozen):
 
         self._total_find_key_ = hash_key
         self._total_find_cache_ = location_dict
-        return location_dict
+        return location_dict.copy()  # the caller may change what it gets.
 
     def find_representative_location(self, i):
         r"""For global dof #i that at shared by multiple elements,
-- 
2.43.0


From 72050fcf9933cfec408e819ffc5074090036acc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 099/105] fix: essential values do not enter the vector given
 as the initial guess

---
 msehtt/tools/linear_system/static/global_/solve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msehtt/tools/linear_system/static/global_/solve.py b/msehtt/tools/linear_system/static/global_/solve.py
index 616abdd..7c62622 100644
--- a/msehtt/tools/linear_system/static/global_/solve.py
+++ b/msehtt/tools/linear_system/static/global_/solve.py
@@ -121,6 +121,7 @@ class MseHttLinearSystemSolve(Frozen):
         sft = ___local_setting___['safe first try']
         if sft > 0:
             essential_dofs, essential_values = self.A.___find_essential_dof_coefficients___(self.b)
+            x0 = MseHttGlobalVectorGathered(x0._V.copy(), gm=x0._gm)  # leave the given vector as it is.
             x0._V[essential_dofs] = essential_values
             ___local_setting___['safe first try'] = sft - 1
 
-- 
2.43.0


From 58c4ff8bbfcc8ccde7f8020ef966dfb7fc12d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:02 +0000
Subject: [PATCH 100/105] fix: terms (A x B, C x D) of the common cross product
 are recognised

---
 src/wf/term/pattern.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wf/term/pattern.py b/src/wf/term/pattern.py
index e054c77..e2767f1 100644
--- a/src/wf/term/pattern.py
+++ b/src/wf/term/pattern.py
@@ -910,6 +910,10 @@ def _inner_simpler_pattern_examiner_scalar_valued_forms(factor, f0, f1, extra_in
                 pass
 
         # --- (A x B, C x D) type terms ----------------------------------------------------------------------
+        if _global_operator_lin_repr_setting['cross_product'] in f0._lin_repr:
+            cross_product_lin = _global_operator_lin_repr_setting['cross_product']
+        else:
+            pass
         existing0 = cross_product_lin in f0._lin_repr
         amount0 = f0._lin_repr.count(cross_product_lin)
         existing1 = cross_product_lin in f1._lin_repr
-- 
2.43.0


From a3974568b6c245f7a05ea1f3e39e1c64e4ed36d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:45 +0000
Subject: [PATCH 101/105] fix: a region-wise field may name the regions in any
 order

---
 msepy/form/cf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/msepy/form/cf.py b/msepy/form/cf.py
index 35f5901..e0cc74b 100644
--- a/msepy/form/cf.py
+++ b/msepy/form/cf.py
@@ -97,7 +97,11 @@ class MsePyContinuousForm(Frozen):
         """"""
         regions = self._regions
         if isinstance(_field, dict):
-            pass
+            if list(_field) != list(regions) and set(_field) == set(regions):
+                # the data of the regions are put together in the order of the regions.
+                _field = RegionWiseFunctionWrapper({i: _field[i] for i in regions})
+            else:
+                pass
         elif isinstance(_field, RegionWiseFunctionWrapper):
             pass
         else:
-- 
2.43.0


From c1bc5c4ef8bf250e251d1c9d1aa7e2d2009fa1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:45 +0000
Subject: [PATCH 102/105] fix: caches of msepy gathering matrices do not depend
 on addresses

---
 msepy/tools/gathering_matrix.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/msepy/tools/gathering_matrix.py b/msepy/tools/gathering_matrix.py
index a6e3e5e..12cc5fc 100644
--- a/msepy/tools/gathering_matrix.py
+++ b/msepy/tools/gathering_matrix.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 r"""
 """
+from itertools import count
+
 import numpy as np
 
 from phyem.tools.frozen import Frozen
@@ -13,6 +15,7 @@ _cgm_cache = {
 }
 
 _msepy_rgm_find_cache = {}
+_msepy_rgm_serial_numbers = count()  # an address (thus the repr) may be used again after a gm is gone.
 
 
 class RegularGatheringMatrix(Frozen):
@@ -29,7 +32,7 @@ class RegularGatheringMatrix(Frozen):
             self._redundant_dof_setting = self._check_redundant_dof_setting(
                 redundant_dof_setting
             )
-            _find_cache_signature = self.__repr__()
+            _find_cache_signature = f"#{next(_msepy_rgm_serial_numbers)}"
 
         elif isinstance(gms, (list, tuple)):
             # we merge some gathering matrices into one
@@ -44,7 +47,7 @@ class RegularGatheringMatrix(Frozen):
             for gm in gms:
                 assert gm.__class__ is RegularGatheringMatrix, f"can only chain msepy gm."
 
-                signatures.append(gm.__repr__())
+                signatures.append(gm._signature)
 
                 if num_elements is None:
                     num_elements = gm.num_elements
@@ -52,7 +55,7 @@ class RegularGatheringMatrix(Frozen):
                     assert num_elements == gm.num_elements
                 num_local_dofs += gm.num_local_dofs
 
-            signatures = '-o-'.join(signatures)
+            signatures = '(' + '-o-'.join(signatures) + ')'
 
             if signatures == _cgm_cache['signatures']:
                 cgm = _cgm_cache['cgm']
@@ -121,6 +124,7 @@ class RegularGatheringMatrix(Frozen):
         else:
             _msepy_rgm_find_cache[_find_cache_signature] = {}
         self._find_cache = _msepy_rgm_find_cache[_find_cache_signature]
+        self._signature = _find_cache_signature
         self._freeze()
 
     def __getitem__(self, i):
-- 
2.43.0


From c8f1e8e1c1bc1892510641448527ed014a08179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:45 +0000
Subject: [PATCH 103/105] fix: number the msepy dofs of a periodic mesh of one
 layer of elements

---
 msepy/space/gathering_matrix/Lambda.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/msepy/space/gathering_matrix/Lambda.py b/msepy/space/gathering_matrix/Lambda.py
index 6d5cf88..6c049f5 100644
--- a/msepy/space/gathering_matrix/Lambda.py
+++ b/msepy/space/gathering_matrix/Lambda.py
@@ -1128,7 +1128,9 @@ class MsePyGatheringMatrixLambda(Frozen):
                         attached_edge_id = edge_pair[numbering_edge_id]
                         assert edge_pair[attached_edge_id] == numbering_edge_id
                         # __ another mesh element is not numbered yet _____________
-                        if attached_element > numbering_element:
+                        if attached_element > numbering_element or (
+                                # or the element is attached to itself (periodic, one layer of elements).
+                                attached_element == numbering_element and number_where in ('U', 'L')):
                             # the attached_edge can not be numbered, we number numbering_edge
                             axis, start_end = _dict_[number_where]
                             if axis == 0:
@@ -1209,7 +1211,9 @@ class MsePyGatheringMatrixLambda(Frozen):
                         attached_edge_id = edge_pair[numbering_edge_id]
                         assert edge_pair[attached_edge_id] == numbering_edge_id
                         # ___ another mesh element is not numbered yet _____________
-                        if attached_element > numbering_element:
+                        if attached_element > numbering_element or (
+                                # or the element is attached to itself (periodic, one layer of elements).
+                                attached_element == numbering_element and number_where in ('U', 'L')):
                             # the attached_edge can not be numbered, we number numbering_edge
                             axis, start_end = _dict_[number_where]
                             if axis == 0:
@@ -1297,7 +1301,9 @@ class MsePyGatheringMatrixLambda(Frozen):
                         attached_edge_id = edge_pair[numbering_edge_id]
                         assert edge_pair[attached_edge_id] == numbering_edge_id
                         # ___ another mesh element is not numbered yet _____________
-                        if attached_element > numbering_element:
+                        if attached_element > numbering_element or (
+                                # or the element is attached to itself (periodic, one layer of elements).
+                                attached_element == numbering_element and number_where in ('U', 'L')):
                             # the attached_edge can not be numbered, we number numbering_edge
                             axis, start_end = _dict_[number_where]
                             if axis == 0:
@@ -1415,7 +1421,7 @@ class MsePyGatheringMatrixLambda(Frozen):
         for e, mp in enumerate(element_map):
             # number x- node
             x_m = mp[0]
-            if x_m == -1 or x_m > e:  # x- side of element #e is a boundary or not numbered
+            if x_m == -1 or x_m >= e:  # x- side of element #e is a boundary or not numbered
                 gm[e, 0] = current
                 current += 1
             else:
-- 
2.43.0


From 8f917101a7b0a33ae0a32726b6a0b10d833e3a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:45 +0000
Subject: [PATCH 104/105] fix: assembling a vector sums repeated dofs of one
 element

---
 msehtt/tools/vector/static/local.py | 2 +-
 msepy/tools/vector/static/local.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/tools/vector/static/local.py b/msehtt/tools/vector/static/local.py
index b150416..cf65c63 100644
--- a/msehtt/tools/vector/static/local.py
+++ b/msehtt/tools/vector/static/local.py
@@ -36,7 +36,7 @@ class MseHttStaticLocalVectorAssemble(Frozen):
                 gm = self._v._gm
                 v = np.zeros(gm.num_global_dofs)
                 for i in self:
-                    v[gm[i]] += self[i]  # must do this to be consistent with the matrix assembling.
+                    np.add.at(v, gm[i], self[i])  # must do this to be consistent with the matrix assembling.
                 RETURN = MseHttGlobalVectorDistributed(v, gm)
             else:
                 raise NotImplementedError(f"mode={mode} not implemented for {vtype} assembling")
diff --git a/msepy/tools/vector/static/local.py b/msepy/tools/vector/static/local.py
index 37b2c01..06e5f10 100644
--- a/msepy/tools/vector/static/local.py
+++ b/msepy/tools/vector/static/local.py
@@ -23,7 +23,7 @@ class MsePyStaticLocalVectorAssemble(Frozen):
 
         for i in self._v:
             Vi = self._v[i]  # all adjustments and customizations take effect.
-            v[gm[i]] += Vi  # must do this to be consistent with the matrix assembling.
+            np.add.at(v, gm[i], Vi)  # must do this to be consistent with the matrix assembling.
 
         return MsePyStaticAssembledVector(v, gm)
 
-- 
2.43.0


From a5634671c41c74076edc5aa90db1a39583564784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:28 +0000
Subject: [PATCH 105/105] fix: customizing a mass matrix that was asked for
 leaves the cached one alone

---
 msehtt/static/implementation_array_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msehtt/static/implementation_array_parser.py b/msehtt/static/implementation_array_parser.py
index b9287d6..48b438f 100644
--- a/msehtt/static/implementation_array_parser.py
+++ b/msehtt/static/implementation_array_parser.py
@@ -186,7 +186,8 @@ def Parse__M_matrix(space, str_degree0, str_degree1):
     space = _find_space_through_pure_lin_repr(space)
     key = (id(space), str_degree0, str_degree1)
     if key in _setting_['_cache_M_']:
-        return _setting_['_cache_M_'][key]
+        M, time_indicator = _setting_['_cache_M_'][key]
+        return M.copy(), time_indicator  # customizing what is returned must not affect the cached one.
     else:
         if degree0 == degree1:
             degree = degree0
@@ -204,7 +205,7 @@ def Parse__M_matrix(space, str_degree0, str_degree1):
             raise NotImplementedError()
 
         _setting_['_cache_M_'][key] = RETURN
-        return RETURN
+        return RETURN[0].copy(), RETURN[1]
 
 
 def Parse__E_matrix(space, degree):
-- 
2.43.0

