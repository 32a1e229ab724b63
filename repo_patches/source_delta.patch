From c54bedb705a9937b596cbb21713c6f7407507a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 01/56] fix: keep list and padded views of point cloud
 attributes in sync

The normals/colors/features list setters cleared a misspelt attribute, leaving the
padded view stale, and recomputing the padded points dropped attributes that only
had a padded view.
---
 gradslam/structures/pointclouds.py | 47 ++++++++++++------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 0dc49cd..8ffc8f3 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -847,7 +847,7 @@ class Pointclouds(object):
         """
         self._assert_set_list(value)
         self._normals_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._normals_padded = None
 
     @colors_list.setter
     def colors_list(self, value: List[torch.Tensor]):
@@ -861,7 +861,7 @@ class Pointclouds(object):
         """
         self._assert_set_list(value)
         self._colors_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._colors_padded = None
 
     @features_list.setter
     def features_list(self, value: List[torch.Tensor]):
@@ -875,7 +875,7 @@ class Pointclouds(object):
         """
         self._assert_set_list(value, first_dim_only=True)
         self._features_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._features_padded = None
 
     @points_padded.setter
     def points_padded(self, value: torch.Tensor):
@@ -954,45 +954,36 @@ class Pointclouds(object):
         if not self.has_points:
             return
 
-        if not (refresh or self._points_padded is None):
-            return
-
-        self._points_padded = structutils.list_to_padded(
-            self._points_list,
-            (self._N, 3),
-            pad_value=0.0,
-            equisized=self.equisized,
-        )
-        self._normals_padded = (
-            None
-            if self._normals_list is None
-            else structutils.list_to_padded(
+        if self._points_list is not None and (refresh or self._points_padded is None):
+            self._points_padded = structutils.list_to_padded(
+                self._points_list,
+                (self._N, 3),
+                pad_value=0.0,
+                equisized=self.equisized,
+            )
+        if self._normals_list is not None and (refresh or self._normals_padded is None):
+            self._normals_padded = structutils.list_to_padded(
                 self._normals_list,
                 (self._N, 3),
                 pad_value=0.0,
                 equisized=self.equisized,
             )
-        )
-        self._colors_padded = (
-            None
-            if self._colors_list is None
-            else structutils.list_to_padded(
+        if self._colors_list is not None and (refresh or self._colors_padded is None):
+            self._colors_padded = structutils.list_to_padded(
                 self._colors_list,
                 (self._N, 3),
                 pad_value=0.0,
                 equisized=self.equisized,
             )
-        )
-        self._features_padded = (
-            None
-            if self._features_list is None
-            else structutils.list_to_padded(
+        if self._features_list is not None and (
+            refresh or self._features_padded is None
+        ):
+            self._features_padded = structutils.list_to_padded(
                 self._features_list,
-                (self._N, self.num_features),
+                (self._N, self._features_list[0].shape[-1]),
                 pad_value=0.0,
                 equisized=self.equisized,
             )
-        )
 
     def clone(self):
         r"""Returns deep copy of Pointclouds object. All internal tensors are cloned individually.
-- 
2.43.0


From 3505c55e066dbf59e0f488dd58855433d6c0f27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 02/56] fix: cloning a ragged point cloud batch after an
 in-place operation

A clone made from the padded view was marked as equally sized, so its padding mask
covered padding, and attributes held only as lists were dropped.
---
 gradslam/structures/pointclouds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 8ffc8f3..44421ef 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1011,6 +1011,7 @@ class Pointclouds(object):
                 else [f.clone() for f in self._features_list]
             )
         elif self._points_padded is not None:
+            self._compute_padded()
             new_points = self._points_padded.clone()
             new_normals = (
                 None if self._normals_padded is None else self._normals_padded.clone()
@@ -1032,6 +1033,7 @@ class Pointclouds(object):
             v = getattr(self, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.clone())
+        other.equisized = self.equisized
         return other
 
     def detach(self):
-- 
2.43.0


From 69c44a24dba894c56e14d8bcd885c4b7497fef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 03/56] fix: has_normals/has_colors/has_features after
 assigning a new attribute

The flags are cached, so an attribute assigned after they were first read was
reported as missing.
---
 gradslam/structures/pointclouds.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 44421ef..7d47070 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -848,6 +848,7 @@ class Pointclouds(object):
         self._assert_set_list(value)
         self._normals_list = [v.clone().to(self.device) for v in value]
         self._normals_padded = None
+        self._has_normals = True
 
     @colors_list.setter
     def colors_list(self, value: List[torch.Tensor]):
@@ -862,6 +863,7 @@ class Pointclouds(object):
         self._assert_set_list(value)
         self._colors_list = [v.clone().to(self.device) for v in value]
         self._colors_padded = None
+        self._has_colors = True
 
     @features_list.setter
     def features_list(self, value: List[torch.Tensor]):
@@ -876,6 +878,7 @@ class Pointclouds(object):
         self._assert_set_list(value, first_dim_only=True)
         self._features_list = [v.clone().to(self.device) for v in value]
         self._features_padded = None
+        self._has_features = True
 
     @points_padded.setter
     def points_padded(self, value: torch.Tensor):
@@ -910,6 +913,7 @@ class Pointclouds(object):
         self._assert_set_padded(value)
         self._normals_padded = value.clone().to(self.device)
         self._normals_list = None
+        self._has_normals = True
 
     @colors_padded.setter
     def colors_padded(self, value: torch.Tensor):
@@ -927,6 +931,7 @@ class Pointclouds(object):
         self._assert_set_padded(value)
         self._colors_padded = value.clone().to(self.device)
         self._colors_list = None
+        self._has_colors = True
 
     @features_padded.setter
     def features_padded(self, value: torch.Tensor):
@@ -944,6 +949,7 @@ class Pointclouds(object):
         self._assert_set_padded(value, first_2_dims_only=True)
         self._features_padded = value.clone().to(self.device)
         self._features_list = None
+        self._has_features = True
 
     def _compute_padded(self, refresh: bool = False):
         r"""Computes the padded version of pointclouds.
-- 
2.43.0


From cc4fa4900a85108722a6e8d72653a7c8076bf635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 04/56] fix: detached point clouds shared padded tensors with
 their source

detach() clones first, but then took the padded tensors, mask and counts from the
source again, so in-place changes showed in both objects.
---
 gradslam/structures/pointclouds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 7d47070..48a1ed5 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1058,7 +1058,7 @@ class Pointclouds(object):
         if other._features_list is not None:
             other._features_list = [f.detach() for f in other._features_list]
         for k in self._INTERNAL_TENSORS:
-            v = getattr(self, k)
+            v = getattr(other, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.detach())
         return other
-- 
2.43.0


From fd3c360cc5e1a3ec5be5ba68bbbbbccd5b207f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 05/56] fix: Pointclouds.to() with a device given as a string

A string never compared equal to the current device, so to("cpu") returned a new
object, and to("cpu", copy=True) replaced the copied tensors by the originals.
---
 gradslam/structures/pointclouds.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 48a1ed5..a9fd1b6 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1076,13 +1076,14 @@ class Pointclouds(object):
         Returns:
             gradslam.Pointclouds
         """
+        # hack to know which gpu is used when device("cuda")
+        device = torch.Tensor().to(device).device
         if not copy and self.device == device:
             return self
 
         other = self.clone()
         if self.device != device:
-            # hack to know which gpu is used when device("cuda")
-            other.device = torch.Tensor().to(device).device
+            other.device = device
             if other._points_list is not None:
                 other._points_list = [p.to(device) for p in other._points_list]
             if other._normals_list is not None:
-- 
2.43.0


From dc8e7f2f69e115fd6c2614f54a4ed75cd061699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 06/56] fix: assigning a depth image to RGBDImages

The setter read an attribute the constructor never defines and kept the stale validity mask.
---
 gradslam/structures/rgbdimages.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 4ab0011..3c4d44f 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -118,7 +118,7 @@ class RGBDImages(object):
             raise ValueError(msg)
 
         self._rgb_image_shape = rgb_image.shape
-        self._depth_shape = tuple(
+        self._depth_image_shape = tuple(
             v if i != self.cdim else 1 for i, v in enumerate(rgb_image.shape)
         )
         self._intrinsics_shape = (rgb_image.shape[0], 1, 4, 4)
@@ -133,9 +133,9 @@ class RGBDImages(object):
         if rgb_image.shape[self.cdim] != 3:
             msg = "Expected rgb_image to have 3 channels on dimension {0}. Got {1} instead"
             raise ValueError(msg.format(self.cdim, rgb_image.shape[self.cdim]))
-        if depth_image.shape != self._depth_shape:
+        if depth_image.shape != self._depth_image_shape:
             msg = "Expected depth_image to have shape {0}. Got {1} instead"
-            raise ValueError(msg.format(self._depth_shape, depth_image.shape))
+            raise ValueError(msg.format(self._depth_image_shape, depth_image.shape))
         if intrinsics.shape != self._intrinsics_shape:
             msg = "Expected intrinsics to have shape {0}. Got {1} instead"
             raise ValueError(msg.format(self._intrinsics_shape, intrinsics.shape))
@@ -423,6 +423,7 @@ class RGBDImages(object):
         if value is not None:
             self._assert_shape(value, self._depth_image_shape)
         self._depth_image = value
+        self._valid_depth_mask = None
         self._vertex_map = None
         self._normal_map = None
         self._global_vertex_map = None
-- 
2.43.0


From ac12c88e3b99bd2181e663a44c03f2a9fd85e594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 07/56] fix: RGBDImages layout conversion kept the validity
 mask in the old layout

---
 gradslam/structures/rgbdimages.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 3c4d44f..d077d60 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -585,6 +585,7 @@ class RGBDImages(object):
         permute = RGBDImages._permute_if_not_None
         self._rgb_image = permute(self._rgb_image, ordering)
         self._depth_image = permute(self._depth_image, ordering)
+        self._valid_depth_mask = permute(self._valid_depth_mask, ordering)
         self._vertex_map = permute(self._vertex_map, ordering)
         self._global_vertex_map = permute(self._global_vertex_map, ordering)
         self._normal_map = permute(self._normal_map, ordering)
@@ -607,6 +608,7 @@ class RGBDImages(object):
         permute = RGBDImages._permute_if_not_None
         self._rgb_image = permute(self._rgb_image, ordering)
         self._depth_image = permute(self._depth_image, ordering)
+        self._valid_depth_mask = permute(self._valid_depth_mask, ordering)
         self._vertex_map = permute(self._vertex_map, ordering)
         self._global_vertex_map = permute(self._global_vertex_map, ordering)
         self._normal_map = permute(self._normal_map, ordering)
-- 
2.43.0


From 732343f77ec6dd235743aa5d0acc06b2bed6f77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 08/56] fix: detached or copied RGBDImages shared tensors with
 their source

---
 gradslam/structures/rgbdimages.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index d077d60..303445a 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -471,7 +471,7 @@ class RGBDImages(object):
         """
         other = self.clone()
         for k in self._INTERNAL_TENSORS:
-            v = getattr(self, k)
+            v = getattr(other, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.detach())
 
@@ -519,7 +519,7 @@ class RGBDImages(object):
         other.device = device
 
         for k in self._INTERNAL_TENSORS:
-            v = getattr(self, k)
+            v = getattr(other, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.to(device))
 
-- 
2.43.0


From 5dfe10a372150dba645b1ea1e8894a077514f585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 09/56] fix: RGBDImages refused the slice, list and mask
 indices it documents

---
 gradslam/structures/rgbdimages.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 303445a..8379dd5 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -191,6 +191,8 @@ class RGBDImages(object):
         Returns:
             gradslam.RGBDImages: Selected rgbdimages. The rgbdimages tensors are not cloned.
         """
+        if isinstance(index, (slice, list)) or torch.is_tensor(index):
+            index = (index, slice(None, None))
         if isinstance(index, tuple) or isinstance(index, int):
             _index_slices = ()
             if isinstance(index, int):
-- 
2.43.0


From aec39666034442b9afb9412e54d5be05b60d916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 10/56] fix: downsample_rgbdimages on channels first frames

---
 gradslam/odometry/icputils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index b7ecc42..f767ec2 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -649,6 +649,7 @@ def downsample_rgbdimages(rgbdimages: RGBDImages, ds_ratio: int) -> Pointclouds:
         )
 
     B = len(rgbdimages)
+    rgbdimages = rgbdimages.to_channels_last()
 
     # Valid depths mask
     mask = rgbdimages.valid_depth_mask.squeeze(-1)[..., ::ds_ratio, ::ds_ratio]
-- 
2.43.0


From 3ac4efb00d92c60047671e6008abb6cca7c77018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 11/56] fix: inverting and composing batches of 4 x 4
 transforms

The translations were multiplied as one matrix, and the shape check indexed a shape with a tuple.
---
 gradslam/geometry/geometryutils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index f594540..3fdd450 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -219,7 +219,7 @@ def inverse_transfom_3d(trans: torch.Tensor):
                 type(trans)
             )
         )
-    if not trans.dim() in (2, 3) and trans.shape[-2, :] == (4, 4):
+    if not (trans.dim() in (2, 3) and trans.shape[-2:] == (4, 4)):
         raise ValueError(
             "Input size must be N x 4 x 4 or 4 x 4. Got {} instead.".format(trans.shape)
         )
@@ -230,7 +230,7 @@ def inverse_transfom_3d(trans: torch.Tensor):
 
     # Compute the inverse
     rmat_inv: torch.Tensor = torch.transpose(rmat, -1, -2)
-    tvec_inv: torch.Tensor = torch.matmul(-rmat_inv, tvec)
+    tvec_inv: torch.Tensor = torch.matmul(-rmat_inv, tvec.unsqueeze(-1)).squeeze(-1)
 
     # Pack the inverse rotation and translation into tensor
     trans_inv: torch.Tensor = torch.zeros_like(trans)
@@ -260,7 +260,7 @@ def compose_transforms_3d(trans1: torch.Tensor, trans2: torch.Tensor) -> torch.T
                 type(trans1)
             )
         )
-    if not trans1.dim() in (2, 3) and trans1.shape[-2, :] == (4, 4):
+    if not (trans1.dim() in (2, 3) and trans1.shape[-2:] == (4, 4)):
         raise ValueError(
             "Input size must be N x 4 x 4 or 4 x 4. Got {} instead.".format(
                 trans1.shape
@@ -272,7 +272,7 @@ def compose_transforms_3d(trans1: torch.Tensor, trans2: torch.Tensor) -> torch.T
                 type(trans2)
             )
         )
-    if not trans2.dim() in (2, 3) and trans2.shape[-2, :] == (4, 4):
+    if not (trans2.dim() in (2, 3) and trans2.shape[-2:] == (4, 4)):
         raise ValueError(
             "Input size must be N x 4 x 4 or 4 x 4. Got {} instead.".format(
                 trans2.shape
@@ -290,7 +290,9 @@ def compose_transforms_3d(trans1: torch.Tensor, trans2: torch.Tensor) -> torch.T
 
     # Compute the composition
     rmat_cat: torch.Tensor = torch.matmul(rmat1, rmat2)
-    tvec_cat: torch.Tensor = torch.matmul(rmat1, tvec2) + tvec1
+    tvec_cat: torch.Tensor = (
+        torch.matmul(rmat1, tvec2.unsqueeze(-1)).squeeze(-1) + tvec1
+    )
 
     # Pack into output tensor
     trans_cat: torch.Tensor = torch.zeros_like(trans1)
-- 
2.43.0


From a25f55bc18df65b7050980e432dde95eb447f188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 12/56] fix: quaternion_to_rotation_matrix flattened the
 leading dimensions

---
 gradslam/geometry/geometryutils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 3fdd450..49d710c 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -195,10 +195,8 @@ def quaternion_to_rotation_matrix(quaternion: torch.Tensor) -> torch.Tensor:
             one - (txx + tyy),
         ],
         dim=-1,
-    ).view(-1, 3, 3)
+    ).view(*quaternion.shape[:-1], 3, 3)
 
-    if len(quaternion.shape) == 1:
-        matrix = torch.squeeze(matrix, dim=0)
     return matrix
 
 
-- 
2.43.0


From ac411dbdea370e1110b1ba563778daa5069eac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 13/56] fix: transform_pts_3d, cam2pixel and pixel2cam on the
 documented input shapes

A missing squeeze returned no coordinates for N x 3 points, and the pixel/camera helpers refused H x W inputs.
---
 gradslam/geometry/geometryutils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 49d710c..e59f144 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -352,7 +352,7 @@ def transform_pts_3d(pts_b: torch.Tensor, t_ab: torch.Tensor) -> torch.Tensor:
             t_ab.unsqueeze(0).unsqueeze(0), pts_b.unsqueeze(-1)
         ).squeeze(-1)
     else:
-        pts_a_homo = torch.matmul(t_ab.unsqueeze(0), pts_b.unsqueeze(-1))
+        pts_a_homo = torch.matmul(t_ab.unsqueeze(0), pts_b.unsqueeze(-1)).squeeze(-1)
     pts_a = unhomogenize_points(pts_a_homo)
 
     return pts_a[..., :3]
@@ -641,7 +641,6 @@ def cam2pixel(
         and dst_proj_src.shape[0] == 4
     )
 
-    _, h, w, _ = cam_coords_src.shape
     pts: torch.Tensor = transform_pts_3d(cam_coords_src, dst_proj_src)
     x: torch.Tensor = pts[..., 0]
     y: torch.Tensor = pts[..., 1]
@@ -697,7 +696,9 @@ def pixel2cam(
         pixel_coords, intrinsics_inv
     )  # .permute(0, 3, 1, 2)
 
-    return cam_coords * depth.permute(0, 2, 3, 1)
+    depth = depth.unsqueeze(-1) if depth.dim() == 2 else depth.permute(0, 2, 3, 1)
+
+    return cam_coords * depth
 
 
 def cam2pixel_KF(
-- 
2.43.0


From 7bf05efcf7946ab355b2b1b0bc00c0ab55d7a424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 14/56] fix: first order term of the SE(3) exponential's
 translation at small angles

V is I + hat(w) / 2 + O(|w|^2); the missing factor also doubled its derivative.
---
 gradslam/geometry/se3utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/geometry/se3utils.py b/gradslam/geometry/se3utils.py
index e2fd57e..9794545 100644
--- a/gradslam/geometry/se3utils.py
+++ b/gradslam/geometry/se3utils.py
@@ -88,7 +88,7 @@ def se3_exp(xi: torch.Tensor) -> torch.Tensor:
 
     if omega.norm() < _eps:
         R = torch.eye(3, 3).type(omega.dtype).to(omega.device) + omega_hat
-        V = torch.eye(3, 3).type(omega.dtype).to(omega.device) + omega_hat
+        V = torch.eye(3, 3).type(omega.dtype).to(omega.device) + 0.5 * omega_hat
     else:
         theta = omega.norm()
         s = theta.sin()
-- 
2.43.0


From 2e13c6842e7ec7cdf4bf45e28ead37e409c33c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 15/56] fix: ICP and gradICP without an initial transform

The documented default, None, failed in the shape checks.
---
 gradslam/odometry/icputils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index f767ec2..ea591ee 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -295,13 +295,13 @@ def point_to_plane_ICP(
         raise TypeError(
             "Expected numiters to be of type int. Got {0}.".format(type(numiters))
         )
-    if initial_transform.ndim != 2:
+    if initial_transform is not None and initial_transform.ndim != 2:
         raise ValueError(
             "Expected initial_transform.ndim to be 2. Got {0}.".format(
                 initial_transform.ndim
             )
         )
-    if not (initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4):
+    if initial_transform is not None and initial_transform.shape != (4, 4):
         raise ValueError(
             "Expected initial_transform.shape to be (4, 4). Got {0}.".format(
                 initial_transform.shape
@@ -464,13 +464,13 @@ def point_to_plane_gradICP(
         raise TypeError(
             "Expected nu to be of type float or int; got {0}".format(type(nu))
         )
-    if initial_transform.ndim != 2:
+    if initial_transform is not None and initial_transform.ndim != 2:
         raise ValueError(
             "Expected initial_transform.ndim to be 2. Got {0}.".format(
                 initial_transform.ndim
             )
         )
-    if not (initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4):
+    if initial_transform is not None and initial_transform.shape != (4, 4):
         raise ValueError(
             "Expected initial_transform.shape to be (4, 4). Got {0}.".format(
                 initial_transform.shape
-- 
2.43.0


From adb005ad288597e82fee20427a7c874f143d739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 16/56] fix: distance threshold of the ICP linearisation was
 compared with squared distances

---
 gradslam/odometry/icputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index ea591ee..77d6bed 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -203,7 +203,7 @@ def gauss_newton_solve(
     dist_filter = (
         torch.ones_like(dist1[0], dtype=torch.bool)
         if dist_thresh is None
-        else dist1[0] < dist_thresh
+        else dist1[0].sqrt() < dist_thresh  # knn_points returns squared distances
     )
     chamfer_indices = idx1[0][dist_filter].long()
 
-- 
2.43.0


From 5f0f895c31859e04926d31acd35a22eace6352cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 17/56] fix: map association and fusion on channels first
 frames

The maps were indexed as B x 1 x H x W x 3 whatever the layout of the frame, as update_map_aggregate already avoids.
---
 gradslam/slam/fusionutils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index b5d89a2..2ac0ee5 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -378,6 +378,7 @@ def find_similar_map_points(
             "Pointclouds must have normals for finding similar map points, but did not."
         )
 
+    rgbdimages = rgbdimages.to_channels_last()
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
 
@@ -492,6 +493,7 @@ def find_best_unique_correspondences(
         pointclouds.features_padded[pc2im_bnhw[:, 0], pc2im_bnhw[:, 1]] + 1e-20
     )  # shape: [P 1]
     # compute ray dist
+    rgbdimages = rgbdimages.to_channels_last()
     frame_points = rgbdimages.global_vertex_map[
         pc2im_bnhw[:, 0], 0, pc2im_bnhw[:, 2], pc2im_bnhw[:, 3]
     ]
@@ -651,6 +653,7 @@ def fuse_with_map(
             )
 
     # Fuse points (from live frame) with corresponding global map points
+    rgbdimages = rgbdimages.to_channels_last()
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
     rgb_image = rgbdimages.rgb_image
-- 
2.43.0


From ef974f3a945a6083605adf359f5f98af0e99095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 18/56] fix: map point indices beyond 2**24

Indices of active and one-to-one map points went through float32, which merges neighbouring indices of maps with more than 2**24 points.
---
 gradslam/slam/fusionutils.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 2ac0ee5..8e57399 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -4,7 +4,6 @@ from typing import Union
 import torch
 from kornia.geometry.linalg import inverse_transformation
 
-from ..geometry.geometryutils import create_meshgrid
 from ..structures.pointclouds import Pointclouds
 from ..structures.rgbdimages import RGBDImages
 from ..structures.utils import pointclouds_from_rgbdimages
@@ -274,11 +273,11 @@ def find_active_map_points(
     )  # height, width
     batch_size, num_points = in_plane_pos.shape[:2]
     batch_point_idx = (
-        create_meshgrid(batch_size, num_points, normalized_coords=False)
-        .squeeze(0)
-        .to(device)
+        torch.stack(
+            torch.meshgrid([torch.arange(batch_size), torch.arange(num_points)]), -1
+        ).to(device)
     )
-    idx_and_plane_pos = torch.cat([batch_point_idx.long(), in_plane_pos], -1)
+    idx_and_plane_pos = torch.cat([batch_point_idx, in_plane_pos], -1)
     pc2im_bnhw = idx_and_plane_pos[is_in_frame]  # (?, 4)
 
     if pc2im_bnhw.shape[0] == 0:
@@ -510,11 +509,11 @@ def find_best_unique_correspondences(
     )
     # unique criteria: [B, H, W, 1/ccounts, ray_dists, N]
     unique_criteria_bhwcrn = [
-        pc2im_bnhw[:, 0:1].float(),
-        pc2im_bnhw[:, 2:4].float(),
-        inv_ccounts,
-        ray_dists,
-        pc2im_bnhw[:, 1:2].float(),
+        pc2im_bnhw[:, 0:1].double(),
+        pc2im_bnhw[:, 2:4].double(),
+        inv_ccounts.double(),
+        ray_dists.double(),
+        pc2im_bnhw[:, 1:2].double(),  # float32 cannot represent all indices > 2 ** 24
     ]
     unique_criteria_bhwcrn = torch.cat(unique_criteria_bhwcrn, -1)
 
-- 
2.43.0


From 082814a531b425233828fcf019eaaf04afd87078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 19/56] fix: fuse_with_map changed the caller's map when not in
 place

The map was only cloned after the matched points had been merged into it.
---
 gradslam/slam/fusionutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 8e57399..a1b3707 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -651,6 +651,9 @@ def fuse_with_map(
                 "Pointclouds must have features (ccounts) for map fusion, but did not."
             )
 
+    if not inplace:
+        pointclouds = pointclouds.clone()
+
     # Fuse points (from live frame) with corresponding global map points
     rgbdimages = rgbdimages.to_channels_last()
     vertex_maps = rgbdimages.global_vertex_map
@@ -717,8 +720,6 @@ def fuse_with_map(
     new_pointclouds = Pointclouds(
         points=new_points, normals=new_normals, colors=new_colors, features=new_features
     )
-    if not inplace:
-        pointclouds = pointclouds.clone()
     pointclouds.append_points(new_pointclouds)
 
     return pointclouds
-- 
2.43.0


From bd38f506a1803e0658cb93c7c2816aa9b054ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 20/56] fix: fuse_with_map changed map points without a
 correspondence

They were multiplied by their confidence count and divided by it again: a
point of count zero was moved to the origin, all others drifted by rounding.
---
 gradslam/slam/fusionutils.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index a1b3707..8455776 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -694,13 +694,20 @@ def fuse_with_map(
             frame_alphas * frame_colors
         )
 
-        # Merge corresponding points
+        # Merge corresponding points (and leave all others as they are)
+        is_fused = frame_alphas != 0
         inv_updated_ccounts = 1 / torch.where(
             updated_ccounts == 0, torch.ones_like(updated_ccounts), updated_ccounts
         )
-        pointclouds.points_padded = updated_points * inv_updated_ccounts
-        pointclouds.normals_padded = updated_normals * inv_updated_ccounts
-        pointclouds.colors_padded = updated_colors * inv_updated_ccounts
+        pointclouds.points_padded = torch.where(
+            is_fused, updated_points * inv_updated_ccounts, pointclouds.points_padded
+        )
+        pointclouds.normals_padded = torch.where(
+            is_fused, updated_normals * inv_updated_ccounts, pointclouds.normals_padded
+        )
+        pointclouds.colors_padded = torch.where(
+            is_fused, updated_colors * inv_updated_ccounts, pointclouds.colors_padded
+        )
         pointclouds.features_padded = updated_ccounts
 
     # Append points (from live frame) that did not have correspondences (from global map)
-- 
2.43.0


From 47832c6dd7ceb47b7e69bac3966c8304a9f72811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 21/56] fix: SLAM step changed the poses of the caller's frame
 when not in place

step(inplace=False) is documented to leave the poses of live_frame alone,
but always assigned the recovered poses to it.
---
 gradslam/slam/icpslam.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gradslam/slam/icpslam.py b/gradslam/slam/icpslam.py
index ea337f7..85f6bac 100644
--- a/gradslam/slam/icpslam.py
+++ b/gradslam/slam/icpslam.py
@@ -1,3 +1,4 @@
+import copy
 from typing import Optional, Union
 import warnings
 
@@ -173,6 +174,8 @@ class ICPSLAM(nn.Module):
                     type(live_frame)
                 )
             )
+        if not inplace:
+            live_frame = copy.copy(live_frame)
         live_frame.poses = self._localize(pointclouds, live_frame, prev_frame)
         pointclouds = self._map(pointclouds, live_frame, inplace)
         return pointclouds, live_frame.poses
-- 
2.43.0


From 2c72ba1c0b249487960d76aad47490ac6f74b3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 22/56] fix: TUM associations were ordered by timestamp text,
 not by time

associate() sorted the matched stamps as strings, so frames whose stamps
differ in their number of digits came out of order.
---
 gradslam/datasets/tumutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index 156068e..cdc1bcd 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -212,5 +212,5 @@ def associate(
             second_keys.remove(b)
             matches.append((a, b))
 
-    matches.sort()
+    matches.sort(key=lambda match: (float(match[0]), float(match[1])))
     return matches
-- 
2.43.0


From 47be54db3fef24dab1a990bbe62c7038617877e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 23/56] fix: TUM trajectories with NaN rows could not be read

read_trajectory() writes its warning to sys.stderr without importing sys,
so a row it means to skip raised NameError.
---
 gradslam/datasets/tumutils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index cdc1bcd..22fe91c 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -43,6 +43,7 @@ images to depth images.
 This script contains helpers for reading the time stamps from e.g. the "rgb.txt" file and the "depth.txt" file, 
 and joining them by finding the best matches.
 """
+import sys
 from typing import Optional
 
 import numpy as np
-- 
2.43.0


From 4188b7293ec9c346bd64d330fda3635e2e77519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 24/56] fix: transform44 raised TypeError for a near-zero
 quaternion

The rows of the identity rotation it falls back to lacked the commas
between them.
---
 gradslam/datasets/tumutils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index 22fe91c..34a1d9c 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -74,9 +74,10 @@ def transform44(l: tuple):
     if nq < _EPS:
         return np.array(
             (
-                (1.0, 0.0, 0.0, t[0])(0.0, 1.0, 0.0, t[1])(0.0, 0.0, 1.0, t[2])(
-                    0.0, 0.0, 0.0, 1.0
-                )
+                (1.0, 0.0, 0.0, t[0]),
+                (0.0, 1.0, 0.0, t[1]),
+                (0.0, 0.0, 1.0, t[2]),
+                (0.0, 0.0, 0.0, 1.0),
             ),
             dtype=np.float64,
         )
-- 
2.43.0


From b18012c349fa7d70470fb0a7e327c712f7c137dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 25/56] fix: TUM sequence lists ending in a newline were
 refused

The empty line after the last newline was taken for a sequence name.
---
 gradslam/datasets/tum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/tum.py b/gradslam/datasets/tum.py
index 41e2a70..415edbb 100644
--- a/gradslam/datasets/tum.py
+++ b/gradslam/datasets/tum.py
@@ -196,7 +196,7 @@ class TUM(data.Dataset):
         if isinstance(sequences, str):
             if os.path.isfile(sequences):
                 with open(sequences, "r") as f:
-                    sequences = tuple(f.read().split("\n"))
+                    sequences = tuple(f.read().split())
             else:
                 raise ValueError(
                     "incorrect filename: {} doesn't exist".format(sequences)
-- 
2.43.0


From 9ae2c8c2503feb722fd8233bb3a47ec9f21bc7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 26/56] fix: blank lines with spaces in TUM text files

A line of spaces raised IndexError in a trajectory file, and was counted as
a frame of the requested start/end range in an image list.
---
 gradslam/datasets/tumutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index 34a1d9c..c128796 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -115,7 +115,7 @@ def read_trajectory(filename: str, matrix: bool = True):
     list = []
     for line in lines:
         line_list = []
-        if len(line) > 0 and line[0] != "#":
+        if len(line.strip()) > 0 and line[0] != "#":
             for n, v in enumerate(line.split(" ")):
                 v = v.strip()
                 if v != "":
@@ -169,7 +169,7 @@ def read_file_list(
     list = [
         [v.strip() for v in line.split(" ") if v.strip() != ""]
         for num, line in enumerate(lines)
-        if len(line) > 0 and line[0] != "#"
+        if len(line.strip()) > 0 and line[0] != "#"
     ]
     start = start if start is not None else 0
     end = end if end is not None else len(lines)
-- 
2.43.0


From bc563cb688c322678d1e37742aa32ca42dcdf601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 27/56] fix: ICL trajectory lists ending in a newline were
 refused

The empty line after the last newline was taken for a trajectory name.
---
 gradslam/datasets/icl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index a1f5e1c..f0b9eee 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -211,7 +211,7 @@ class ICL(data.Dataset):
         if isinstance(trajectories, str):
             if os.path.isfile(trajectories):
                 with open(trajectories, "r") as f:
-                    trajectories = tuple(f.read().split("\n"))
+                    trajectories = tuple(f.read().split())
                 valid_trajectory_dirs = list(trajectories)
             else:
                 raise ValueError(
-- 
2.43.0


From 1a83d844baa54e0cbb94f3ce2048de10f1894d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 28/56] fix: ICL base directories whose path contains
 "living_room_traj"

The trajectory number was looked for at the first occurrence in the whole
path rather than in the trajectory's own folder name.
---
 gradslam/datasets/icl.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index f0b9eee..22d43a7 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -277,9 +277,7 @@ class ICL(data.Dataset):
                 raise ValueError(msg + dirmsg)
             associationsfiles.append(associationsfile)
             if self.load_poses:
-                trajectory_num = trajectory_path[
-                    trajectory_path.index("living_room_traj") + 16 :
-                ].split("_")[0]
+                trajectory_num = os.path.basename(trajectory_path)[16:].split("_")[0]
                 posesfile = os.path.join(
                     trajectory_path, "livingRoom{0}n.gt.sim".format(trajectory_num)
                 )
-- 
2.43.0


From dbea83b3e966ff2d1482c05cd0a7167fec603cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 29/56] fix: ICL poses were those of other frames when start
 was given

The line of a frame's pose was counted from the first requested frame
instead of the first frame of the trajectory.
---
 gradslam/datasets/icl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index 22d43a7..8821c64 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -318,7 +318,7 @@ class ICL(data.Dataset):
                 with open(posesfile, "r") as f:
                     len_posesfile = sum(1 for line in f)
 
-            for line_num, line in enumerate(lines):
+            for line_num, line in enumerate(lines, start):
                 line = line.strip().split()
                 msg = "incorrect reading from ICL associations"
                 if line[3][:3] != "rgb":
-- 
2.43.0


From db4986f71776df33270c86ff1782b28c21ac575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 30/56] fix: ICL items could hold fewer poses than frames

A frame whose pose is cut off at the end of the poses file was accepted and
its item delivered without it.
---
 gradslam/datasets/icl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index 8821c64..6bf9ef3 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -333,7 +333,7 @@ class ICL(data.Dataset):
                 )
 
                 if self.load_poses:
-                    if line_num * 4 > len_posesfile:
+                    if line_num * 4 + 3 > len_posesfile:
                         msg = '{0}th pose should start from line {1} of file "{2}", but said file has only {3} lines.'
                         raise ValueError(
                             msg.format(
-- 
2.43.0


From d6fcb6a4e3f13741655062d5434e31be3353f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 31/56] fix: ScanNet sequences of different lengths were cut or
 unreadable

With end=-1 every sequence was read with the length of the last one.
---
 gradslam/datasets/scannet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/scannet.py b/gradslam/datasets/scannet.py
index 9871eb6..1b224c0 100644
--- a/gradslam/datasets/scannet.py
+++ b/gradslam/datasets/scannet.py
@@ -228,7 +228,7 @@ class Scannet(data.Dataset):
 
         color_seq, depth_seq, pose_seq, label_seq = [], [], [], []
         poses = []
-        for i in range(self.seqlen):
+        for i in range(len(color_seq_path)):
             color = np.asarray(imageio.imread(color_seq_path[i]), dtype=float)
             color = self._preprocess_color(color)
             color = torch.from_numpy(color)
-- 
2.43.0


From a3b798b55cbfb73c58e053ba48a75cad35792b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 32/56] fix: ScanNet accepted an end frame beyond the end of a
 sequence

Only end - start was compared with the length of the sequence, so items
could be shorter than requested.
---
 gradslam/datasets/scannet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gradslam/datasets/scannet.py b/gradslam/datasets/scannet.py
index 1b224c0..459c42c 100644
--- a/gradslam/datasets/scannet.py
+++ b/gradslam/datasets/scannet.py
@@ -144,9 +144,9 @@ class Scannet(data.Dataset):
                 if full_sequence:
                     self.end = len(lines)
                     self.seqlen = self.end - self.start
-                if self.seqlen > len(lines):
-                    msg = "sequence length can't be larger than dataset sequence length but it was: %r > %r"
-                    raise ValueError(msg % (self.seqlen, len(lines)))
+                if self.end > len(lines):
+                    msg = "end frame can't be larger than dataset sequence length but it was: %r > %r"
+                    raise ValueError(msg % (self.end, len(lines)))
                 lines = lines[self.start : self.end]
 
             for line in lines:
-- 
2.43.0


From 5e7b9d30cfd03621b4f1672e32aa718cb805a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 33/56] fix: pointquaternion_to_homogeneous normalised its
 input in place

For float32 tensors the quaternion was a view of the input.
---
 gradslam/datasets/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/datautils.py b/gradslam/datasets/datautils.py
index 5e2f3f2..9e3e348 100644
--- a/gradslam/datasets/datautils.py
+++ b/gradslam/datasets/datautils.py
@@ -177,7 +177,7 @@ def pointquaternion_to_homogeneous(
         )
 
     q_norm = (0.5 * (q ** 2).sum(-1)[..., None]) ** 0.5
-    q /= (
+    q = q / (
         torch.max(q_norm, torch.tensor(eps))
         if torch.is_tensor(q_norm)
         else np.maximum(q_norm, eps)
-- 
2.43.0


From 5c2c591bb8513347f7c5ff8491779cc675d2e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 34/56] fix: create_label_image painted class names instead of
 colors

It iterated over the keys of the palette, which are the class names, and
failed on every palette of the documented kind.
---
 gradslam/datasets/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/datautils.py b/gradslam/datasets/datautils.py
index 9e3e348..6caac5c 100644
--- a/gradslam/datasets/datautils.py
+++ b/gradslam/datasets/datautils.py
@@ -258,6 +258,6 @@ def create_label_image(prediction: np.ndarray, color_palette: OrderedDict):
     label_image = np.zeros(
         (prediction.shape[0], prediction.shape[1], 3), dtype=np.uint8
     )
-    for idx, color in enumerate(color_palette):
+    for idx, color in enumerate(color_palette.values()):
         label_image[prediction == idx] = color
     return label_image
-- 
2.43.0


From 9b56fc2e8f3d2e70bc338c86da7ca022e5a490e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 35/56] fix: deprecated and renamed keys were merged where new
 keys are allowed

They are documented to be ignored and refused, but nodes that allow new keys
took them over as new ones.
---
 gradslam/config/cfgnode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index 661eda1..717a9ea 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -450,13 +450,13 @@ def _merge_a_into_b(a: CfgNode, b: CfgNode, root: CfgNode, key_list: list):
                     raise
             else:
                 b[k] = v
-        elif b.is_new_allowed():
-            b[k] = v
         else:
             if root.key_is_deprecated(full_key):
                 continue
             elif root.key_is_renamed(full_key):
                 root.raise_key_rename_error(full_key)
+            elif b.is_new_allowed():
+                b[k] = v
             else:
                 raise KeyError("Non-existent config key: {}".format(full_key))
 
-- 
2.43.0


From cf91dd74075267917fb0b00a2a2a22dc705e8409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 36/56] fix: configurations shared list values with the key
 list they merged

merge_from_list() stored the caller's list itself, so later changes to it
showed in the configuration. merge_from_other_cfg() already copies.
---
 gradslam/config/cfgnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index 717a9ea..de3fedf 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -231,7 +231,7 @@ class CfgNode(dict):
                 d = d[subkey]
             subkey = key_list[-1]
             _assert_with_logging(subkey in d, "Non-existent key: {}".format(full_key))
-            value = self._decode_cfg_value(v)
+            value = self._decode_cfg_value(copy.deepcopy(v))
             value = _check_and_coerce_cfg_value_type(value, d[subkey], subkey, full_key)
             d[subkey] = value
 
-- 
2.43.0


From 41cc79ebe1c9f69bf41bb9f95e09c90e50b3b1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 37/56] fix: exported point colors depended on the subsample,
 and empty clouds failed

open3d() and plotly() judged the range of the colors (0-1 or 0-255) by the
points that happened to be kept, so near black points of a 0-255 cloud could
come out bright, and max() raised for a cloud without points.
---
 gradslam/structures/pointclouds.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index a9fd1b6..e29ef8b 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1275,11 +1275,11 @@ class Pointclouds(object):
 
         if self.has_colors and include_colors:
             torch_colors = self.colors_list[index]
-            if subsample:
-                torch_colors = torch_colors[point_inds]
             # if colors > 1, assume 255 range
-            if (torch_colors.max() > 1.1).item():
+            if (torch_colors > 1.1).any().item():
                 torch_colors = torch_colors / 255
+            if subsample:
+                torch_colors = torch_colors[point_inds]
             torch_colors = torch.clamp(torch_colors, min=0.0, max=1.0)
             numpy_colors = torch_colors.detach().cpu().numpy()
             pcd.colors = o3d.utility.Vector3dVector(numpy_colors)
@@ -1335,11 +1335,11 @@ class Pointclouds(object):
 
         if self.has_colors and include_colors:
             torch_colors = self.colors_list[index]
-            if subsample:
-                torch_colors = torch_colors[point_inds]
             # if colors > 1, assume 255 range
-            if (torch_colors.max() < 1.1).item():
+            if (torch_colors < 1.1).all().item():
                 torch_colors = torch_colors * 255
+            if subsample:
+                torch_colors = torch_colors[point_inds]
             torch_colors = torch.clamp(torch_colors, min=0.0, max=255.0)
             numpy_colors = torch_colors.detach().cpu().numpy().astype("uint8")
             marker_dict["color"] = numpy_colors
-- 
2.43.0


From 372c6009416b790f2af483fcf77201752340429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 38/56] fix: plotly export of channels first RGB-D images

The images were taken apart as channels last: color failed or came out
garbled, and the depth picture was the first image column.
---
 gradslam/structures/rgbdimages.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 8379dd5..3c9fcff 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -814,6 +814,11 @@ class RGBDImages(object):
                 "transition": {"duration": duration, "easing": "linear"},
             }
 
+        if self.channels_first:
+            return self.to_channels_last().plotly(
+                index, include_depth, as_figure, ms_per_frame
+            )
+
         torch_rgb = self.rgb_image[index]
         if (torch_rgb.max() < 1.1).item():
             torch_rgb = torch_rgb * 255
-- 
2.43.0


From 58750a1c8f7f4581f0b3ad0ddabf519ac15105f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 39/56] fix: plotly export of RGB-D images without any valid
 depth

The display scale of the depth pictures was infinite and raised
OverflowError.
---
 gradslam/structures/rgbdimages.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 3c9fcff..61408cb 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -830,7 +830,12 @@ class RGBDImages(object):
             frames = [{"data": [frame], "name": i} for i, frame in enumerate(Image_rgb)]
         else:
             torch_depth = self.depth_image[index, ..., 0]
-            scale = 10 ** torch.log10(255.0 / torch_depth.detach().max()).floor().item()
+            max_depth = torch_depth.detach().max()
+            scale = (
+                10 ** torch.log10(255.0 / max_depth).floor().item()
+                if max_depth > 0
+                else 1
+            )
             numpy_depth = (torch_depth * scale).detach().cpu().numpy().astype("uint8")
             Image_depth = [
                 numpy_to_plotly_image(d, i, True, scale)
-- 
2.43.0


From c182f0269a0666db5da84942e959b41cd0383005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 40/56] fix: find_best_unique_correspondences did not check the
 type of rgbdimages

Anything but an RGBDImages ended in an AttributeError; the sibling find_similar_map_points raises TypeError.
---
 gradslam/slam/fusionutils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 8455776..e0ef15c 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -443,6 +443,12 @@ def find_best_unique_correspondences(
                 type(pointclouds)
             )
         )
+    if not isinstance(rgbdimages, RGBDImages):
+        raise TypeError(
+            "Expected rgbdimages to be of type gradslam.RGBDImages. Got {0}.".format(
+                type(rgbdimages)
+            )
+        )
     if not torch.is_tensor(pc2im_bnhw):
         raise TypeError(
             "Expected input pc2im_bnhw to be of type torch.Tensor. Got {0} instead.".format(
-- 
2.43.0


From 123233c27af4287eb6b41b2a7957a2d2a2aff52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 41/56] fix: update_map_fusion raised AttributeError for
 anything but RGBDImages

An unused read of rgbdimages.shape came before the type checks.
---
 gradslam/slam/fusionutils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index e0ef15c..c4cff31 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -798,7 +798,6 @@ def update_map_fusion(
         gradslam.Pointclouds: Updated Pointclouds object containing global maps.
 
     """
-    batch_size, seq_len, height, width = rgbdimages.shape
     pc2im_bnhw = find_correspondences(pointclouds, rgbdimages, dist_th, dot_th)
     pointclouds = fuse_with_map(pointclouds, rgbdimages, pc2im_bnhw, sigma, inplace)
 
-- 
2.43.0


From 2fd92802e721ea7f84c5ecbf9c026c4cfda34bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 42/56] fix: find_active_map_points raised AttributeError for
 frames without poses

---
 gradslam/slam/fusionutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index c4cff31..8e3ce9d 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -242,6 +242,10 @@ def find_active_map_points(
                 len(pointclouds), len(rgbdimages)
             )
         )
+    if not rgbdimages.has_poses:
+        raise ValueError(
+            "rgbdimages must have poses for finding active map points, but did not."
+        )
 
     batch_size, seq_len, height, width = rgbdimages.shape
 
-- 
2.43.0


From 5d6d2560a061376f2fee776330dbd9c5b39dfc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 43/56] fix: fuse_with_map refused mismatching maps only after
 merging into them

With a different batch size or another number of features the matched points were
merged first, and appending the new points then raised.
---
 gradslam/slam/fusionutils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 8e3ce9d..25ee266 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -660,6 +660,18 @@ def fuse_with_map(
             raise ValueError(
                 "Pointclouds must have features (ccounts) for map fusion, but did not."
             )
+        if pointclouds.num_features != 1:
+            raise ValueError(
+                "Pointclouds must have 1 feature (ccounts) for map fusion. Got {0}.".format(
+                    pointclouds.num_features
+                )
+            )
+        if len(rgbdimages) != len(pointclouds):
+            raise ValueError(
+                "Expected equal batch sizes for pointclouds and rgbdimages. Got {0} and {1} respectively.".format(
+                    len(pointclouds), len(rgbdimages)
+                )
+            )
 
     if not inplace:
         pointclouds = pointclouds.clone()
-- 
2.43.0


From 757e558095d8ced8d2c2e787ba8d3070f54582a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 44/56] fix: a refused in-place SLAM step left other poses in
 the live frame

The live frame got the poses of the previous frame before the remaining arguments were checked.
---
 gradslam/slam/icpslam.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gradslam/slam/icpslam.py b/gradslam/slam/icpslam.py
index 85f6bac..6ab96b2 100644
--- a/gradslam/slam/icpslam.py
+++ b/gradslam/slam/icpslam.py
@@ -174,11 +174,12 @@ class ICPSLAM(nn.Module):
                     type(live_frame)
                 )
             )
-        if not inplace:
-            live_frame = copy.copy(live_frame)
-        live_frame.poses = self._localize(pointclouds, live_frame, prev_frame)
-        pointclouds = self._map(pointclouds, live_frame, inplace)
-        return pointclouds, live_frame.poses
+        frame = copy.copy(live_frame)
+        frame.poses = self._localize(pointclouds, frame, prev_frame)
+        pointclouds = self._map(pointclouds, frame, inplace)
+        if inplace:
+            live_frame.poses = frame.poses
+        return pointclouds, frame.poses
 
     def _localize(
         self, pointclouds: Pointclouds, live_frame: RGBDImages, prev_frame: RGBDImages
-- 
2.43.0


From 5f6f14c9afbfe99b7b761a9a2a19f2f4e705b11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 45/56] fix: ICP silently ignored all but the first of several
 source clouds

Only src_pc[0] was used, so that the check for a batch size of 1 never saw the others.
---
 gradslam/odometry/icputils.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 77d6bed..8cbd844 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -307,6 +307,14 @@ def point_to_plane_ICP(
                 initial_transform.shape
             )
         )
+    if src_pc.ndim != 3:
+        raise ValueError(
+            "src_pc should have ndim=3, but had ndim={}".format(src_pc.ndim)
+        )
+    if src_pc.shape[0] != 1:
+        raise ValueError(
+            "src_pc.shape[0] should be 1, but was {} instead".format(src_pc.shape[0])
+        )
     src_pc = src_pc.contiguous()
     tgt_pc = tgt_pc.contiguous()
     tgt_normals = tgt_normals.contiguous()
@@ -476,6 +484,14 @@ def point_to_plane_gradICP(
                 initial_transform.shape
             )
         )
+    if src_pc.ndim != 3:
+        raise ValueError(
+            "src_pc should have ndim=3, but had ndim={}".format(src_pc.ndim)
+        )
+    if src_pc.shape[0] != 1:
+        raise ValueError(
+            "src_pc.shape[0] should be 1, but was {} instead".format(src_pc.shape[0])
+        )
     src_pc = src_pc.contiguous()
     tgt_pc = tgt_pc.contiguous()
     tgt_normals = tgt_normals.contiguous()
-- 
2.43.0


From c3203d298bdefbcb172322b19e8d8952f7880d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 46/56] fix: deliver a copy of the intrinsics with every TUM
 and ICL item

__getitem__ handed out the dataset's own intrinsics tensor, so scaling or
normalising the intrinsics of one item in place changed those of every
item read afterwards.
---
 gradslam/datasets/icl.py | 2 +-
 gradslam/datasets/tum.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index 6bf9ef3..7080844 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -444,7 +444,7 @@ class ICL(data.Dataset):
             output.append(depth_seq)
 
         if self.return_intrinsics:
-            intrinsics = self.intrinsics
+            intrinsics = self.intrinsics.clone()
             output.append(intrinsics)
 
         if self.return_pose:
diff --git a/gradslam/datasets/tum.py b/gradslam/datasets/tum.py
index 415edbb..3706f06 100644
--- a/gradslam/datasets/tum.py
+++ b/gradslam/datasets/tum.py
@@ -408,7 +408,7 @@ class TUM(data.Dataset):
             output.append(depth_seq)
 
         if self.return_intrinsics:
-            intrinsics = self.intrinsics
+            intrinsics = self.intrinsics.clone()
             output.append(intrinsics)
 
         if self.return_pose:
-- 
2.43.0


From 90d70ba69d8ef1cb8f44a40b9f147d9ec1a0bc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:26 +0000
Subject: [PATCH 47/56] fix: refuse a padding size that is too small instead of
 losing a row

A single row or column was silently dropped when the target size was 0 in
that dimension (the assignment broadcasts); other too small sizes ended in
a RuntimeError of the assignment.
---
 gradslam/structures/structutils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gradslam/structures/structutils.py b/gradslam/structures/structutils.py
index d114a4c..dcb4cf5 100644
--- a/gradslam/structures/structutils.py
+++ b/gradslam/structures/structutils.py
@@ -82,6 +82,12 @@ def list_to_padded(
         if len(y) > 0:
             if y.ndim != 2:
                 raise ValueError("Supports only 2-dimensional tensor items")
+            if y.shape[0] > pad_dim0 or y.shape[1] > pad_dim1:
+                raise ValueError(
+                    "Pad size {0} is too small for item of shape {1}".format(
+                        (pad_dim0, pad_dim1), tuple(y.shape)
+                    )
+                )
             x_padded[i, : y.shape[0], : y.shape[1]] = y
     return x_padded
 
-- 
2.43.0


From c8be0b613df8c704e7be41193649f4f7d29e2646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:55 +0000
Subject: [PATCH 48/56] fix: refuse matrices that are not 4x4 in
 relative_transformation as documented

---
 gradslam/geometry/geometryutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index e59f144..89e75c6 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -453,12 +453,12 @@ def relative_transformation(
         raise TypeError(
             "Input trans_02 type is not a torch.Tensor. Got {}".format(type(trans_02))
         )
-    if not trans_01.dim() in (2, 3) and trans_01.shape[-2:] == (4, 4):
+    if not (trans_01.dim() in (2, 3) and trans_01.shape[-2:] == (4, 4)):
         raise ValueError(
             "Input must be a of the shape Nx4x4 or 4x4."
             " Got {}".format(trans_01.shape)
         )
-    if not trans_02.dim() in (2, 3) and trans_02.shape[-2:] == (4, 4):
+    if not (trans_02.dim() in (2, 3) and trans_02.shape[-2:] == (4, 4)):
         raise ValueError(
             "Input must be a of the shape Nx4x4 or 4x4."
             " Got {}".format(trans_02.shape)
-- 
2.43.0


From 6a69cf24726c8dea54d7edc524fb07dcb7c1b2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:55 +0000
Subject: [PATCH 49/56] fix: report short TUM folder names as the documented
 ValueError

---
 gradslam/datasets/tum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/datasets/tum.py b/gradslam/datasets/tum.py
index 3706f06..4d1140a 100644
--- a/gradslam/datasets/tum.py
+++ b/gradslam/datasets/tum.py
@@ -223,10 +223,10 @@ class TUM(data.Dataset):
             if os.path.isdir(os.path.join(basedir, item)):
                 split = item.split("_")
                 if (
-                    split[0] != "rgbd"
+                    len(split) < 4
+                    or split[0] != "rgbd"
                     or split[1] != "dataset"
                     or split[2][:-1] != "freiburg"
-                    or len(split) < 4
                 ):
                     msg = 'Incorrect folder names in "basedir" ({0}). '.format(basedir)
                     msg += "Folder names of extracted .tgz files from TUM should follow the following naming "
-- 
2.43.0


From f72f251b32828272a2a075d60a68ff9c4f5997d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:11 +0000
Subject: [PATCH 50/56] fix: exponential maps lost their digits and gradients
 at small rotations

---
 gradslam/geometry/se3utils.py | 83 +++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 39 deletions(-)

diff --git a/gradslam/geometry/se3utils.py b/gradslam/geometry/se3utils.py
index 9794545..d5af843 100644
--- a/gradslam/geometry/se3utils.py
+++ b/gradslam/geometry/se3utils.py
@@ -5,7 +5,29 @@ Operations over the Lie Group SE(3), for rigid-body transformations in 3D
 import torch
 
 # Threshold to determine if a quantity can be considered 'small'
-_eps = 1e-6
+_eps = 1e-1
+
+
+def _rodrigues_coefficients(omega: torch.Tensor):
+    """Computes sin(t) / t, (1 - cos(t)) / t^2 and (t - sin(t)) / t^3, where t is the norm of omega. For small t, these
+    quotients and (even more so) their gradients lose all of their digits to cancellation, and are replaced by their
+    Taylor series.
+
+    """
+    if omega.norm() < _eps:
+        t2 = (omega ** 2).sum()
+        A = 1 - t2 / 6 * (1 - t2 / 20 * (1 - t2 / 42 * (1 - t2 / 72)))
+        B = (1 - t2 / 12 * (1 - t2 / 30 * (1 - t2 / 56 * (1 - t2 / 90)))) / 2
+        C = (1 - t2 / 20 * (1 - t2 / 42 * (1 - t2 / 72 * (1 - t2 / 110)))) / 6
+    else:
+        theta = omega.norm()
+        s = theta.sin()
+        c = theta.cos()
+        A = s / theta
+        B = (1 - c) / torch.pow(theta, 2)
+        C = (theta - s) / torch.pow(theta, 3)
+
+    return A, B, C
 
 
 def so3_hat(omega: torch.Tensor) -> torch.Tensor:
@@ -54,22 +76,14 @@ def so3_exp(omega: torch.Tensor) -> torch.Tensor:
 
     omega_hat = so3_hat(omega)
 
-    if omega.norm() < _eps:
-        R = torch.eye(3, 3).type(omega.dtype).to(omega.device) + omega_hat
-    else:
-        theta = omega.norm()
-        s = theta.sin()
-        c = theta.cos()
-        omega_hat_sq = omega_hat.mm(omega_hat)
-        # Coefficients of the Rodrigues formula
-        A = s / theta
-        B = (1 - c) / torch.pow(theta, 2)
-        C = (theta - s) / torch.pow(theta, 3)
-        R = (
-            torch.eye(3, 3).type(omega.dtype).to(omega.device)
-            + A * omega_hat
-            + B * omega_hat_sq
-        )
+    omega_hat_sq = omega_hat.mm(omega_hat)
+    # Coefficients of the Rodrigues formula
+    A, B, _ = _rodrigues_coefficients(omega)
+    R = (
+        torch.eye(3, 3).type(omega.dtype).to(omega.device)
+        + A * omega_hat
+        + B * omega_hat_sq
+    )
 
     return R
 
@@ -86,28 +100,19 @@ def se3_exp(xi: torch.Tensor) -> torch.Tensor:
     omega = xi[3:]
     omega_hat = so3_hat(omega)
 
-    if omega.norm() < _eps:
-        R = torch.eye(3, 3).type(omega.dtype).to(omega.device) + omega_hat
-        V = torch.eye(3, 3).type(omega.dtype).to(omega.device) + 0.5 * omega_hat
-    else:
-        theta = omega.norm()
-        s = theta.sin()
-        c = theta.cos()
-        omega_hat_sq = omega_hat.mm(omega_hat)
-        # Coefficients of the Rodrigues formula
-        A = s / theta
-        B = (1 - c) / torch.pow(theta, 2)
-        C = (theta - s) / torch.pow(theta, 3)
-        R = (
-            torch.eye(3, 3).type(omega.dtype).to(omega.device)
-            + A * omega_hat
-            + B * omega_hat_sq
-        )
-        V = (
-            torch.eye(3, 3).type(omega.dtype).to(omega.device)
-            + B * omega_hat
-            + C * omega_hat_sq
-        )
+    omega_hat_sq = omega_hat.mm(omega_hat)
+    # Coefficients of the Rodrigues formula
+    A, B, C = _rodrigues_coefficients(omega)
+    R = (
+        torch.eye(3, 3).type(omega.dtype).to(omega.device)
+        + A * omega_hat
+        + B * omega_hat_sq
+    )
+    V = (
+        torch.eye(3, 3).type(omega.dtype).to(omega.device)
+        + B * omega_hat
+        + C * omega_hat_sq
+    )
 
     t = torch.mm(V, v.view(3, 1))
     last_row = torch.tensor([0, 0, 0, 1]).type(omega.dtype).to(omega.device)
-- 
2.43.0


From 0843d4270077b060032c9c7124ac2b23d88e54e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:11 +0000
Subject: [PATCH 51/56] fix: registration against an empty cloud crashed
 instead of finding no correspondences

---
 gradslam/odometry/icputils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 8cbd844..b31072d 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -205,6 +205,9 @@ def gauss_newton_solve(
         if dist_thresh is None
         else dist1[0].sqrt() < dist_thresh  # knn_points returns squared distances
     )
+    if tgt_pc.shape[1] == 0:
+        # no point of src_pc has a closest point
+        dist_filter = torch.zeros_like(dist_filter)
     chamfer_indices = idx1[0][dist_filter].long()
 
     sx = src_pc[0, dist_filter, 0].view(-1, 1)
@@ -212,8 +215,8 @@ def gauss_newton_solve(
     sz = src_pc[0, dist_filter, 2].view(-1, 1)
 
     # Closest point/normal to each source point
-    assoc_pts = torch.index_select(tgt_pc, 1, chamfer_indices)
-    assoc_normals = torch.index_select(tgt_normals, 1, chamfer_indices)
+    assoc_pts = tgt_pc[:, chamfer_indices]
+    assoc_normals = tgt_normals[:, chamfer_indices]
 
     # Closest destination point to each source point
     dx = assoc_pts[0, :, 0].view(-1, 1)
-- 
2.43.0


From 20b2f2d4778bd9b3bc8cfbe9842325270ed39682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:20 +0000
Subject: [PATCH 52/56] fix: quaternion_to_axisangle gave NaN gradients at the
 identity rotation

---
 gradslam/geometry/geometryutils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 89e75c6..5f12ddc 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -104,7 +104,12 @@ def quaternion_to_axisangle(quat: torch.Tensor) -> torch.Tensor:
     qy: torch.Tensor = quat[..., 1]
     qz: torch.Tensor = quat[..., 2]
     sin_sq_theta: torch.Tensor = qx * qx + qy * qy + qz * qz
-    sin_theta: torch.Tensor = torch.sqrt(sin_sq_theta)
+    # The square root has no gradient at zero (where sin_theta is not used)
+    sin_theta: torch.Tensor = torch.sqrt(
+        torch.where(
+            sin_sq_theta > 0.0, sin_sq_theta, torch.ones_like(sin_sq_theta)
+        )
+    )
     cos_theta: torch.Tensor = quat[..., 3]
     two_theta: torch.Tensor = 2.0 * torch.where(
         cos_theta < 0.0,
-- 
2.43.0


From c3c52b2182981a57fbbcb81e31bf15eebcea2846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:33 +0000
Subject: [PATCH 53/56] fix: unhomogenize_points gave NaN gradients for points
 at infinity

---
 gradslam/geometry/geometryutils.py | 3 ++-
 gradslam/geometry/projutils.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 5f12ddc..a0e02d7 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -71,7 +71,8 @@ def unhomogenize_points(pts: torch.Tensor, eps: float = 1e-6) -> torch.Tensor:
     # For points at infinity, use a scale factor of 1 (used by OpenCV
     # and by kornia)
     # https://github.com/opencv/opencv/pull/14411/files
-    scale: torch.Tensor = torch.where(torch.abs(w) > eps, 1.0 / w, torch.ones_like(w))
+    # (selected before the division, whose gradient is not defined at 0)
+    scale: torch.Tensor = 1.0 / torch.where(torch.abs(w) > eps, w, torch.ones_like(w))
 
     return scale * pts[..., :-1]
 
diff --git a/gradslam/geometry/projutils.py b/gradslam/geometry/projutils.py
index c02a8d6..df45b41 100644
--- a/gradslam/geometry/projutils.py
+++ b/gradslam/geometry/projutils.py
@@ -84,7 +84,8 @@ def unhomogenize_points(pts: torch.Tensor, eps: float = 1e-6) -> torch.Tensor:
     # For points at infinity, use a scale factor of 1 (used by OpenCV
     # and by kornia)
     # https://github.com/opencv/opencv/pull/14411/files
-    scale: torch.Tensor = torch.where(torch.abs(w) > eps, 1.0 / w, torch.ones_like(w))
+    # (selected before the division, whose gradient is not defined at 0)
+    scale: torch.Tensor = 1.0 / torch.where(torch.abs(w) > eps, w, torch.ones_like(w))
 
     return scale * pts[..., :-1]
 
-- 
2.43.0


From c964d489d4d5282c1082dc6cfa335a41407476fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:36 +0000
Subject: [PATCH 54/56] fix: merging a string that only looks like a Python
 literal raised TypeError, MemoryError or RecursionError

---
 gradslam/config/cfgnode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index de3fedf..b8b6f7d 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -411,6 +411,9 @@ class CfgNode(dict):
             pass
         except SyntaxError:
             pass
+        # Strings may also look like literals that cannot be built (eg. `{[1]: 2}`) or are nested too deeply.
+        except (TypeError, MemoryError, RecursionError):
+            pass
         return value
 
 
-- 
2.43.0


From e79fadc6507ea9705f5d4c9082e0dac9d6846eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:32 +0000
Subject: [PATCH 55/56] fix: gradLM registration dropped its step and gave NaN
 gradients when B or B2 times a large error change overflowed

---
 gradslam/odometry/icputils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index b31072d..f37fee9 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -548,13 +548,12 @@ def point_to_plane_gradICP(
         # NEW ADDITION: clamping to ensure gradient flow
         errdiff = errdiff.clamp(-70.0, 70.0)
 
-        damp_new = lambda_min + (lambda_max - lambda_min) / (
-            1 + torch.exp(-B * errdiff)
-        )
+        # torch.sigmoid does not overflow, whatever the sharpness parameters
+        damp_new = lambda_min + (lambda_max - lambda_min) * torch.sigmoid(B * errdiff)
         damp = damp * damp_new
 
         # residual transform should be perturbed by sigmoid
-        sigmoid = 1 / ((1 + torch.exp(-B2 * errdiff)) ** (1 / nu))
+        sigmoid = torch.exp(torch.nn.functional.logsigmoid(B2 * errdiff) / nu)
 
         # calculate perturbation
         residual_transform = se3_exp(sigmoid * xi)
-- 
2.43.0


From 0ce57249ddf5d79d6a5ad824d0a10d9cafecdda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:40 +0000
Subject: [PATCH 56/56] fix: pixel positions of channels-first frames were
 refused in their documented shape (B, L, 3, H, W)

---
 gradslam/structures/rgbdimages.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 61408cb..4af9491 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -123,10 +123,8 @@ class RGBDImages(object):
         )
         self._intrinsics_shape = (rgb_image.shape[0], 1, 4, 4)
         self._poses_shape = (*rgb_image.shape[:2], 4, 4)
-        self._pixel_pos_shape = (
-            *rgb_image.shape[: self.cdim],
-            *rgb_image.shape[self.cdim + 1 :],
-            3,
+        self._pixel_pos_shape = tuple(
+            v if i != self.cdim else 3 for i, v in enumerate(rgb_image.shape)
         )
 
         # input shape checks
@@ -588,6 +586,7 @@ class RGBDImages(object):
         self._rgb_image = permute(self._rgb_image, ordering)
         self._depth_image = permute(self._depth_image, ordering)
         self._valid_depth_mask = permute(self._valid_depth_mask, ordering)
+        self._pixel_pos = permute(self._pixel_pos, ordering)
         self._vertex_map = permute(self._vertex_map, ordering)
         self._global_vertex_map = permute(self._global_vertex_map, ordering)
         self._normal_map = permute(self._normal_map, ordering)
@@ -611,6 +610,7 @@ class RGBDImages(object):
         self._rgb_image = permute(self._rgb_image, ordering)
         self._depth_image = permute(self._depth_image, ordering)
         self._valid_depth_mask = permute(self._valid_depth_mask, ordering)
+        self._pixel_pos = permute(self._pixel_pos, ordering)
         self._vertex_map = permute(self._vertex_map, ordering)
         self._global_vertex_map = permute(self._global_vertex_map, ordering)
         self._normal_map = permute(self._normal_map, ordering)
@@ -664,13 +664,15 @@ class RGBDImages(object):
                 ],
                 -1,
             )
+            if self.channels_first:
+                self._pixel_pos = self._pixel_pos.permute(0, 1, 4, 2, 3).contiguous()
         Kinv = inverse_intrinsics(self._intrinsics)[..., :3, :3]
         # TODO: Time tests for all einsums. Might not be efficient (especially on cpu).
         Kinv = Kinv.repeat(1, L, 1, 1)
         # Add an extra channel of ones to meshgrid for z values
         if self.channels_first:
             self._vertex_map = (
-                torch.einsum("bsjc,bshwc->bsjhw", Kinv, self._pixel_pos)
+                torch.einsum("bsjc,bschw->bsjhw", Kinv, self._pixel_pos)
                 * self._depth_image
             )
         else:
-- 
2.43.0

