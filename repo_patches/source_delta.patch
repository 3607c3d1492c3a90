From 0c90206877b9c0c8e780afdd2c02f29f990bc71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 001/110] fix: keep gridunits in step with n_properties in
 Grid.add_new_prop

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 84e099e..485d497 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -570,6 +570,7 @@ class Grid():
 
             self.grid = np.concatenate((self.grid,value),axis=-1)
             self.n_properties += value.shape[-1]
+            self.gridunits = np.concatenate((self.gridunits,[None]*value.shape[-1]))
 
         # Different behavior if grid isn't activated yet
         if not self.grid_active:
@@ -577,6 +578,7 @@ class Grid():
                 raise ValueError("data array for this Grid has not been initialized, cannot add new values in property array -- use add_new_prop(value=None) to add an empty new property without initializing grid")
             else:
                 self.n_properties += 1
+                self.gridunits = np.concatenate((self.gridunits,[None]))
 
 
 
-- 
2.43.0


From c47c1720035e462a895d935f1aa8b3a5b7185263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 002/110] fix: Grid.add_from_cat pairs value columns with the
 requested properties

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 485d497..6176cf5 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -659,11 +659,11 @@ class Grid():
                 if values.shape[1] != len(properties) and values.shape[1] != 1:
                     raise ValueError("Values array does not contain the correct number of properties.")
 
-                for ip in properties:
+                for iv,ip in enumerate(properties):
                     if values.shape[1] == 1:
                         v = values.flatten()
                     else:
-                        v = values[:,ip]
+                        v = values[:,iv]
                     np.add.at(self.grid,positions+(ip,),v)
 
             # Count the number of objects
-- 
2.43.0


From 4a5dc7eab64cff1fb8f8e445bae49cc3ef0796b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 003/110] fix: Grid.add_from_cat adds new (empty) properties
 for any empty catalog

---
 simim/map/gridder.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 6176cf5..ac9ef05 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -613,13 +613,10 @@ class Grid():
         
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                positions = positions.reshape((positions.shape[0],1))
-
-                if new_props:
-                    new_n_properties = values.shape[1]
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[new_n_properties])))
-                    self.add_new_prop(new_grid)
+            if new_props:
+                new_n_properties = 1 if np.ndim(values) < 2 else np.shape(values)[1]
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[new_n_properties])))
+                self.add_new_prop(new_grid)
 
         # Otherwise make sure the positions array is in the right shape and matches the shape of the grid
         else:
-- 
2.43.0


From 04cea280e5cbecd67270f4b92c710d30fd564120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 004/110] fix: accept integer positions in Grid.add_from_cat
 and Grid.sample

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index ac9ef05..33a163a 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -620,7 +620,7 @@ class Grid():
 
         # Otherwise make sure the positions array is in the right shape and matches the shape of the grid
         else:
-            positions = np.array(positions,ndmin=1,copy=True)
+            positions = np.array(positions,dtype=float,ndmin=1,copy=True)
             if positions.shape[0] > 0:
                 if positions.shape[1] !=self.n_dimensions:
                     raise ValueError('positions (dim={}) does not have the right number of dimensions for the grid (dim={})'.format(positions.shape[1],self.n_dimensions))
@@ -1023,7 +1023,7 @@ class Grid():
         properties = tuple(properties)
 
         # Make sure the positions array is in the right shape and matches the dimensions of the grid
-        positions = np.array(positions,ndmin=1,copy=True)
+        positions = np.array(positions,dtype=float,ndmin=1,copy=True)
         if positions.shape[0] > 0:
             if positions.shape[1] != self.n_dimensions:
                 raise ValueError('positions (dim={}) does not have the right number of dimensions for the grid (dim={})'.format(positions.shape[1],self.n_dimensions))
-- 
2.43.0


From af8c5a63f1bfe2fc44c977fa54e28fc6709acbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 005/110] fix: fourier axis bin edges lie midway between bin
 centers

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 33a163a..210619a 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -19,7 +19,7 @@ from matplotlib import animation
 def _axis_edges(ax):
     """Given bin centers (ax) along an axis return the bin edges"""
     diff = np.diff(ax)
-    newax = ax[:-1] + diff
+    newax = ax[:-1] + diff/2
     newax = np.concatenate(([ax[0]-diff[0]/2], newax, [ax[-1]+diff[-1]/2]))
     return newax
     
-- 
2.43.0


From e8a88dbd90ad033188a949d1cebab0dafbee1bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 006/110] fix: allow grids with a single cell along an axis

---
 simim/map/gridder.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 210619a..e12ba2e 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -16,8 +16,11 @@ from matplotlib import animation
 ###############################################################################
 ##### SECTION 0: Helper Functions #############################################
 ###############################################################################
-def _axis_edges(ax):
-    """Given bin centers (ax) along an axis return the bin edges"""
+def _axis_edges(ax,width=1):
+    """Given bin centers (ax) along an axis return the bin edges. If there is
+    only a single bin its edges are set by width"""
+    if len(ax) == 1:
+        return np.array([ax[0]-width/2,ax[0]+width/2])
     diff = np.diff(ax)
     newax = ax[:-1] + diff/2
     newax = np.concatenate(([ax[0]-diff[0]/2], newax, [ax[-1]+diff[-1]/2]))
@@ -190,7 +193,7 @@ class Grid():
             self.axes.append(axis)
 
             self.fourier_axes_centers.append(np.fft.fftshift(np.fft.fftfreq(self.n_pixels[i],self.pixel_size[i])))
-            self.fourier_axes.append(_axis_edges(self.fourier_axes_centers[i]))
+            self.fourier_axes.append(_axis_edges(self.fourier_axes_centers[i],1/self.side_length[i]))
 
         self.fourier_space = np.zeros(self.n_dimensions,dtype=bool)
 
@@ -318,7 +321,7 @@ class Grid():
                     new_axes_centers[i] = new_axes[i][:-1] + new_pixel_size[i]/2
 
                     new_fourier_axes_centers[i] = np.fft.fftshift(np.fft.fftfreq(new_n_pixels[i],new_pixel_size[i]))
-                    new_fourier_axes[i] = _axis_edges(new_fourier_axes_centers[i])
+                    new_fourier_axes[i] = _axis_edges(new_fourier_axes_centers[i],1/new_side_length[i])
 
         # Won't pad properties array:
         pad_full.append((0,0))
@@ -394,7 +397,7 @@ class Grid():
         self.side_length[ax] = np.ptp(self.axes[ax])
         self.center_point[ax] = np.min(self.axes[ax]) + self.side_length[ax]/2
         self.fourier_axes_centers[ax] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[ax],self.pixel_size[ax]))
-        self.fourier_axes[ax] = _axis_edges(self.fourier_axes_centers[ax])
+        self.fourier_axes[ax] = _axis_edges(self.fourier_axes_centers[ax],1/self.side_length[ax])
 
 
     # Should expand this method to support linear transformations
@@ -1215,7 +1218,7 @@ class Grid():
             self.side_length[axi] = np.ptp(self.axes[axi])
             self.center_point[axi] = np.min(self.axes[axi]) + self.side_length[axi]/2
             self.fourier_axes_centers[axi] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[axi],self.pixel_size[axi]))
-            self.fourier_axes[axi] = _axis_edges(self.fourier_axes_centers[axi])
+            self.fourier_axes[axi] = _axis_edges(self.fourier_axes_centers[axi],1/self.side_length[axi])
 
 
     def collapse_dimension(self,ax,in_place=True,weights=None,mode='average'):
-- 
2.43.0


From 6a006787a5e75d4f2947d52d37a252e9f2563182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 007/110] fix: Gridder fitted to a catalog covers its extreme
 positions

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index e12ba2e..4b0a6b7 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2086,8 +2086,8 @@ class Gridder(Grid):
 
         # Handle side_length inputs:
         if side_length is None:
-            side_length = ptps * 1.0000001 # Expand slightly so both extrema get gridded
-            side_length[ptps==0] = 1 # In case dimension is flat
+            pixels = np.ones(n_dimensions)*np.array(pixel_size,ndmin=1)
+            side_length = (np.floor(ptps/pixels)+1) * pixels # Expand to whole pixels so both extrema get gridded
         else:
             side_length = np.array(side_length,ndmin=1,copy=True)
             if len(side_length) == 1:
-- 
2.43.0


From efd4790c477512d7783425c48f35ba5239a7c11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 008/110] fix: gridding an empty list of spectra with new_prop
 adds an empty property

---
 simim/map/gridder.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 4b0a6b7..73414b1 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -712,10 +712,9 @@ class Grid():
 
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                if new_prop:
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
-                    self.add_new_prop(new_grid)
+            if new_prop:
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
+                self.add_new_prop(new_grid)
             
             return
 
@@ -875,10 +874,9 @@ class Grid():
 
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                if new_prop:
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
-                    self.new_prop(new_grid)
+            if new_prop:
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
+                self.add_new_prop(new_grid)
             
             return
 
-- 
2.43.0


From f6311da8fd7d4dbba2d3940c5862122aedbc23ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 009/110] fix: Grid.pad uses the padding given for each axis

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 73414b1..037ef9c 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -309,7 +309,7 @@ class Grid():
                         pad_full.append((0,0))
                         unpad_full.append((-pad[i_pad],-pad[i_pad]))
 
-                    new_n_pixels[i] = self.n_pixels[i] + 2*pad[ax[i]]
+                    new_n_pixels[i] = self.n_pixels[i] + 2*pad[i_pad]
                     if self.fourier_space[i]:
                         new_side_length[i] = self.side_length[i]
                         new_pixel_size[i] = self.side_length[i] / new_n_pixels[i]
-- 
2.43.0


From 65035d671535943b56625d07ba0bb13280524937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 010/110] fix: store Grid geometry as floats so cropping and
 scaling do not truncate it

---
 simim/map/gridder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 037ef9c..88abab8 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -131,18 +131,18 @@ class Grid():
         self.n_objects = 0
 
         # Handle center_point inputs:
-        self.center_point = np.array(center_point,ndmin=1,copy=True)
+        self.center_point = np.array(center_point,dtype=float,ndmin=1,copy=True)
         self.n_dimensions = len(self.center_point)
 
         # Handle side_length inputs:
-        self.side_length = np.array(side_length,ndmin=1,copy=True)
+        self.side_length = np.array(side_length,dtype=float,ndmin=1,copy=True)
         if len(self.side_length) == 1:
             self.side_length = np.ones(self.n_dimensions)*self.side_length[0]
         if len(self.side_length) != self.n_dimensions:
             raise ValueError("side_length don't match data dimensionality")
 
         # Handle pixel_size inputs
-        self.pixel_size = np.array(pixel_size,ndmin=1,copy=True)
+        self.pixel_size = np.array(pixel_size,dtype=float,ndmin=1,copy=True)
         if len(self.pixel_size) != self.n_dimensions:
             if len(self.pixel_size) == 1:
                 self.pixel_size = np.ones(self.n_dimensions)*self.pixel_size[0]
-- 
2.43.0


From 77921f4e368c3df8569350f3c1a3e6474c446ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:34 +0000
Subject: [PATCH 011/110] fix: Grid.scale_axis pairs factors and units with the
 axes given, and finds the center

---
 simim/map/gridder.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 88abab8..cbb1e8d 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -435,11 +435,11 @@ class Grid():
         elif len(factor) != len(ax):
             raise ValueError('length of factor must be 1 or match the length of ax')
             
-        for i in ax:
+        for i_ax,i in enumerate(ax):
             if scalecenter:
-                self.center_point[i] *= factor[i]
-            self.side_length[i] *= factor[i]
-            self.pixel_size[i] *= factor[i]
+                self.center_point[i] *= factor[i_ax]
+            self.side_length[i] *= factor[i_ax]
+            self.pixel_size[i] *= factor[i_ax]
 
             # Handle units inputs:
             if axunits is None:
@@ -452,22 +452,22 @@ class Grid():
                 self.axunits[i] = axunits
                 self.fourier_axunits[i] = axunits+'^-1'
             elif len(np.array(axunits,ndmin=1,copy=True))==len(ax):
-                self.axunits[i] = axunits[i]
-                self.fourier_axunits[i] = axunits[i]+'^-1'
+                self.axunits[i] = axunits[i_ax]
+                self.fourier_axunits[i] = axunits[i_ax]+'^-1'
             else:
                 raise ValueError('length of axunits must be 1 or match the length of ax')
 
             # Set up the grid - make sure the side length is compatible with
             # number of pixels
             if scalecenter:
-                self.axes[i] = self.axes[i]*factor[i]
-                self.axes_centers[i] = self.axes_centers[i]*factor[i]
+                self.axes[i] = self.axes[i]*factor[i_ax]
+                self.axes_centers[i] = self.axes_centers[i]*factor[i_ax]
             else:
-                self.axes[i] = (self.axes[i]-self.center[i])*factor[i] + self.center[i]
-                self.axes_centers[i] = (self.axes_centers[i]-self.center[i])*factor[i] + self.center[i]
+                self.axes[i] = (self.axes[i]-self.center_point[i])*factor[i_ax] + self.center_point[i]
+                self.axes_centers[i] = (self.axes_centers[i]-self.center_point[i])*factor[i_ax] + self.center_point[i]
 
-            self.fourier_axes[i] = self.fourier_axes[i]/factor[i]
-            self.fourier_axes_centers[i] = self.fourier_axes_centers[i]/factor[i]
+            self.fourier_axes[i] = self.fourier_axes[i]/factor[i_ax]
+            self.fourier_axes_centers[i] = self.fourier_axes_centers[i]/factor[i_ax]
 
 
     def copy_axes(self,n_properties=1):
-- 
2.43.0


From 2db297c28dc48329ad65719c982d814a7fd747d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:34 +0000
Subject: [PATCH 012/110] fix: Grid units are not truncated to the length of
 the first unit given

---
 simim/map/gridder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index cbb1e8d..25a06e9 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -154,17 +154,17 @@ class Grid():
             self.axunits = np.array([None for i in range(self.n_dimensions)])
             self.fourier_axunits = np.array([None for i in range(self.n_dimensions)])
         else:
-            self.axunits = np.array(axunits,ndmin=1,copy=True)
+            self.axunits = np.array(axunits,dtype=object,ndmin=1,copy=True)
             if len(self.axunits) == 1:
                 self.axunits = np.array([self.axunits[0] for i in range(self.n_dimensions)])
             if len(self.axunits) != self.n_dimensions:
                 raise ValueError("axunits don't match data dimensionality")
-            self.fourier_axunits = np.array([i+'^-1' if i is not None else None for i in self.axunits],ndmin=1)
+            self.fourier_axunits = np.array([i+'^-1' if i is not None else None for i in self.axunits],dtype=object,ndmin=1)
 
         if gridunits is None:
             self.gridunits = np.array([None for i in range(self.n_properties)])
         else:
-            self.gridunits = np.array(gridunits,ndmin=1,copy=True)
+            self.gridunits = np.array(gridunits,dtype=object,ndmin=1,copy=True)
             if len(self.gridunits) == 1:
                 self.gridunits = np.array([self.gridunits[0] for i in range(self.n_properties)])
             if len(self.gridunits) != self.n_properties:
-- 
2.43.0


From 7eb1730f849e6c3f688265cd2cb20b1f4a8fc833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:34 +0000
Subject: [PATCH 013/110] fix: Grid copies with a different number of
 properties keep consistent units

---
 simim/map/gridder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 25a06e9..d83608e 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -484,8 +484,8 @@ class Grid():
                           side_length=np.copy(self.side_length),
                           pixel_size=np.copy(self.pixel_size),
                           axunits=np.copy(self.axunits),
-                          gridunits=np.copy(self.gridunits))
-        
+                          gridunits=np.copy(self.gridunits) if n_properties == self.n_properties else None)
+
         return grid_copy
 
 
@@ -503,7 +503,8 @@ class Grid():
         n_properties = len(properties)
 
         grid_copy = self.copy_axes(n_properties)
-        
+        grid_copy.gridunits = np.copy(self.gridunits[properties])
+
         if self.grid_active:
             grid_copy.grid = np.copy(self.grid[...,tuple(properties)])
             grid_copy.grid_active = True
-- 
2.43.0


From 9101f3680a47c7380ea71c37aa21d07e7107bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 014/110] fix: Grid.down_sample bins the axes it is given

---
 simim/map/gridder.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index d83608e..ffe7900 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1175,7 +1175,7 @@ class Grid():
         
         factor = np.array(factor,ndmin=1).astype(int)
         if len(factor) == 1:
-            factor = np.ones(len(ax))*factor[0]
+            factor = np.ones(len(ax),dtype=int)*factor[0]
         elif len(factor) != len(ax):
             raise ValueError('length of factor must be 1 or match the length of ax')
             
@@ -1191,29 +1191,29 @@ class Grid():
         else:
             raise ValueError("mode not recognized - must be 'average' or 'sum'.")
 
-        for axi in ax:
+        for i_ax,axi in enumerate(ax):
             shape = np.concatenate((self.n_pixels,[self.n_properties]))
-            shape[axi] = shape[axi]//factor[axi]
+            shape[axi] = shape[axi]//factor[i_ax]
 
             # Downsample
-            new_ax_centers = np.zeros(self.axes_centers[axi].shape)
+            new_ax_centers = np.zeros(shape[axi])
             new_grid = np.zeros(shape)
             for i in range(shape[axi]):
-                slice_ax = slice(i*factor[axi],(i+1)*factor[axi])
+                slice_ax = slice(i*factor[i_ax],(i+1)*factor[i_ax])
                 slices = [slice(0,None) if j!=axi else slice_ax for j in range(self.n_dimensions+1)]
                 slices_new = [slice(0,None) if j!=axi else i for j in range(self.n_dimensions+1)]
 
                 if self.grid_active:
-                    new_grid[slices_new] = use_function(self.grid[slices],axis=axi)
+                    new_grid[tuple(slices_new)] = use_function(self.grid[tuple(slices)],axis=axi)
                 new_ax_centers[i] = np.mean(self.axes_centers[axi][slice_ax])
 
             # Set up new grid
             if self.grid_active:
                 self.grid = new_grid
             self.axes_centers[axi] = new_ax_centers
-            self.axes[axi] = np.concatenate((new_ax_centers-(factor[axi]*self.pixel_size[axi])/2, [new_ax_centers[-1]+(factor[axi]*self.pixel_size[axi])/2]))
-            self.pixel_size[axi] = self.pixel_size[axi]*factor[axi]
-            self.n_pixels[axi] = self.n_pixels[axi]//factor[axi]
+            self.axes[axi] = np.concatenate((new_ax_centers-(factor[i_ax]*self.pixel_size[axi])/2, [new_ax_centers[-1]+(factor[i_ax]*self.pixel_size[axi])/2]))
+            self.pixel_size[axi] = self.pixel_size[axi]*factor[i_ax]
+            self.n_pixels[axi] = self.n_pixels[axi]//factor[i_ax]
             self.side_length[axi] = np.ptp(self.axes[axi])
             self.center_point[axi] = np.min(self.axes[axi]) + self.side_length[axi]/2
             self.fourier_axes_centers[axi] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[axi],self.pixel_size[axi]))
-- 
2.43.0


From 4b0533c5979fa7d63af09df3e6bb2a0f6a5a5c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 015/110] fix: Grid.down_sample keeps complex values when other
 axes are in fourier space

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index ffe7900..e944b99 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1197,7 +1197,7 @@ class Grid():
 
             # Downsample
             new_ax_centers = np.zeros(shape[axi])
-            new_grid = np.zeros(shape)
+            new_grid = np.zeros(shape,dtype=complex if self.grid_active and np.iscomplexobj(self.grid) else float)
             for i in range(shape[axi]):
                 slice_ax = slice(i*factor[i_ax],(i+1)*factor[i_ax])
                 slices = [slice(0,None) if j!=axi else slice_ax for j in range(self.n_dimensions+1)]
-- 
2.43.0


From 6e6b9cc13b54f9f09bb1b95e71d4db5ae0fd243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:33 +0000
Subject: [PATCH 016/110] fix: Grid.collapse_dimension collapses several axes
 together and accepts per-property weights

---
 simim/map/gridder.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index e944b99..5426669 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1267,6 +1267,8 @@ class Grid():
             weights = [np.ones(len(self.axes_centers[i])) for i in ax]
         elif len(ax) == 1:
             weights = [weights]
+        else:
+            weights = list(weights)
 
         if len(weights) != len(ax):
             raise ValueError("Must provide a weights array for each axis to collapse")
@@ -1287,26 +1289,24 @@ class Grid():
                 elif weights[i].ndim == self.n_dimensions+1:
                     if weights[i].shape != self.grid.shape:
                         raise ValueError("Weights must match shape of grid")
-                    weights[i] = np.expand_dims(weights[i],-1)
                 else:
                     raise ValueError("Weights for axis {} must match size of grid. {} // {}".format(ax[i],len(weights[i]),len(self.axes_centers[ax[i]])))
         
+        # Combine the weights, so that all axes are collapsed together
+        total_weights = np.ones([1 for i in range(self.n_dimensions)]+[1])
+        for i in range(len(ax)):
+            total_weights = total_weights * weights[i]
+
         if mode=='sum':
-            norm = [1 for i in ax]
+            norm = 1
         elif mode=='average':
-            norm = []
-            for i in range(len(ax)):
-                if weights[i].ndim == 1:
-                    norm.append(np.sum(weights[i]))
-                else:
-                    norm.append(np.sum(weights[i],axis=ax[i]))
+            norm = np.sum(total_weights,axis=tuple(ax))
         else:
             raise ValueError("mode not recognized - options are 'sum','average'")
 
         # Do the dang thing
         if in_place:
-            for i in range(len(ax)):
-                self.grid = np.sum(self.grid*weights[i],axis=ax[i]) / norm[i]
+            self.grid = np.sum(self.grid*total_weights,axis=tuple(ax)) / norm
 
             # Update grid
             self.n_pixels = self.n_pixels[ax_keep]
@@ -1329,8 +1329,7 @@ class Grid():
         else:
             newgrid = self.copy()
 
-            for i in range(len(ax)):
-                newgrid.grid = np.sum(newgrid.grid*weights[i],axis=ax[i]) / norm[i]
+            newgrid.grid = np.sum(newgrid.grid*total_weights,axis=tuple(ax)) / norm
 
             # Update grid
             newgrid.n_pixels = self.n_pixels[ax_keep]
-- 
2.43.0


From 7da43c006972de0bd8669d7895c9f7dac80e95ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 017/110] fix: GridFromAxes does not gain a cell from rounding
 of the cell size

---
 simim/map/gridder.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 5426669..b98f4d8 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2364,14 +2364,6 @@ class GridFromAxes(Grid):
 
         super().__init__(n_properties,center_point,side_length,pixel_size,axunits,gridunits)
 
-        n_pixels_decimal = self.side_length/self.pixel_size
-        n_pixels_ceil = np.ceil(n_pixels_decimal)
-        if np.any(n_pixels_decimal != n_pixels_ceil):
-            self.side_length = self.pixel_size * n_pixels_ceil
-            if (not side_length is None) and (not center_point is None):
-                warnings.warn("Side lengths increased to accomodate integer number of pixels")
-        self.n_pixels = n_pixels_ceil.astype('int')
-
 class GridFromAxesAndFunction(GridFromAxes):
     def __init__(self,function,*axes,function_kwargs={},n_properties=1,axunits=None,gridunits=None):
         """Initialize a Grid from a set of axes and populate it using a function
-- 
2.43.0


From cac7e0a9cc4f63574cb22ada2fde5f6c62fe861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 018/110] fix: Grid.power_spectrum leaves the original grids
 exactly as they were

---
 simim/map/gridder.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index b98f4d8..ec6c402 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1486,6 +1486,10 @@ class Grid():
             if self.fourier_space[i]:
                 transform_list.append(i)
 
+        # Keep the original data, so that the grids can be returned to
+        # their initial state once the power spectrum is computed
+        original = self.grid, np.copy(self.fourier_space)
+
         # Make appropriate fourier_transform call
         self.fourier_transform(transform_list,normalize=normalize)
 
@@ -1500,6 +1504,7 @@ class Grid():
                     cross_transform_list.append(i)
 
             # Make appropriate fourier_transform call
+            cross_original = cross_grid.grid, np.copy(cross_grid.fourier_space)
             cross_grid.fourier_transform(cross_transform_list,normalize=normalize)
 
         # Figure out the units to assign
@@ -1532,7 +1537,7 @@ class Grid():
 
             # Invert fourier transforms
             if not cross_grid is None:
-                cross_grid.fourier_transform(cross_transform_list,normalize=normalize)
+                cross_grid.grid, cross_grid.fourier_space = cross_original
 
             return self
 
@@ -1566,8 +1571,8 @@ class Grid():
 
             # Invert fourier transforms
             if not cross_grid is None:
-                cross_grid.fourier_transform(cross_transform_list,normalize=normalize)
-            self.fourier_transform(transform_list,normalize=normalize)
+                cross_grid.grid, cross_grid.fourier_space = cross_original
+            self.grid, self.fourier_space = original
 
             return powspec
 
-- 
2.43.0


From 55070db143f5a3b5a2123aa4b4de4190fd09a9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 019/110] fix: a power spectrum along some axes does not claim
 the others are in fourier space

---
 simim/map/gridder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index ec6c402..aa67d62 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1567,7 +1567,6 @@ class Grid():
             powspec.is_power_spectrum = True
             powspec.n_objects = self.n_objects
             powspec.fourier_space = np.copy(self.fourier_space)
-            powspec.fourier_space[:] = True
 
             # Invert fourier transforms
             if not cross_grid is None:
-- 
2.43.0


From 1cbe3f8b93927546def1f69284681fe92e5f805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 020/110] fix: cross-power of one property with several counts
 the resulting properties

---
 simim/map/gridder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index aa67d62..be1719d 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1521,6 +1521,9 @@ class Grid():
         if in_place:
             if not cross_grid is None:
                 self.grid = (self.grid * cross_grid.grid.conj()).real
+                if self.n_properties != self.grid.shape[-1]: # one property crossed with several
+                    self.n_properties = self.grid.shape[-1]
+                    self.gridunits = np.repeat(self.gridunits,self.n_properties)
                 # for i in range(len(self.gridunits)):
                 #     if not self.gridunits[i] is None:
                 #         self.gridunits[i] += cross_grid.gridunits[i] + unit_end
@@ -1545,7 +1548,10 @@ class Grid():
         # spectrum and return it, plus invert the fourier transforms
         # to the original grid
         else:
-            powspec = Grid(self.n_properties,self.center_point,self.side_length,self.pixel_size,self.axunits,self.gridunits)
+            n_properties = self.n_properties
+            if cross_grid is not None:
+                n_properties = max(n_properties,cross_grid.n_properties)
+            powspec = Grid(n_properties,self.center_point,self.side_length,self.pixel_size,self.axunits,self.gridunits)
 
             # TO DO!! Tidy up the units
             # for i in range(len(powspec.gridunits)):
-- 
2.43.0


From bdb7519a577cbb6e97b29b44e714a7be23ef762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 021/110] fix: spherical_average does not truncate weights to
 integers

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index be1719d..9b69a96 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1757,7 +1757,7 @@ class Grid():
         binned_averages = np.zeros(binned_shape,dtype=dtype_data)
         np.add.at(binned_averages,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(self.grid*weights).flatten()[good_inds].reshape(-1,1))
 
-        binned_weights = np.zeros(binned_shape,dtype=int)
+        binned_weights = np.zeros(binned_shape,dtype=float)
         np.add.at(binned_weights,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(np.ones(self.grid.shape)*weights).flatten()[good_inds].reshape(-1,1))
 
         binned_averages /= binned_weights
@@ -1782,7 +1782,7 @@ class Grid():
             if biased_std:
                 binned_std = np.sqrt(binned_std/binned_weights)
             else:
-                binned_weights2 = np.zeros(binned_shape,dtype=int)
+                binned_weights2 = np.zeros(binned_shape,dtype=float)
                 np.add.at(binned_weights2,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(np.ones(self.grid.shape)*weights**2).flatten()[good_inds].reshape(-1,1))
 
                 binned_std = np.sqrt(binned_std/(binned_weights-binned_weights2/binned_weights))
-- 
2.43.0


From 927f00ab0708ed1fdca7ec2295af559a5ecce4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 022/110] fix: spherical_average includes the outermost shell

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 9b69a96..1b027fc 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1736,7 +1736,7 @@ class Grid():
         # Determine the correct bin for each cell - digitize data into shells
         # and then get indices of dimensions that aren't being flattened
         bins_for_cells = np.digitize(rad,shells) - 1
-        good_inds = np.nonzero((bins_for_cells>-1) & (bins_for_cells<len(shells)-2))
+        good_inds = np.nonzero((bins_for_cells>-1) & (bins_for_cells<len(shells)-1))
         coords_for_cells = np.indices(self.grid.shape)
         coords_for_cells = [bins_for_cells] + \
                            [coords_for_cells[i_ax].flatten() for i_ax in range(self.n_dimensions) if keep_axes[i_ax]] + \
@@ -1770,7 +1770,7 @@ class Grid():
         # Compute standard deviation if requested
         if return_std:
 
-            good_inds_grid = np.nonzero((bins_for_cells.reshape(self.grid.shape)>-1) & (bins_for_cells.reshape(self.grid.shape)<len(shells)-2))
+            good_inds_grid = np.nonzero((bins_for_cells.reshape(self.grid.shape)>-1) & (bins_for_cells.reshape(self.grid.shape)<len(shells)-1))
             means = binned_averages[tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1))].flatten()
             std_vals = np.copy(self.grid)
             std_vals[good_inds_grid] = std_vals[good_inds_grid] - means
-- 
2.43.0


From 986d4fa1d8c1ec650bc4f44e45f5b88936be0693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 023/110] fix: spherical_average returns the spread before the
 counts, as documented

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 1b027fc..c3839cf 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1788,7 +1788,7 @@ class Grid():
                 binned_std = np.sqrt(binned_std/(binned_weights-binned_weights2/binned_weights))
 
         if return_std and return_n:
-            return binned_axes, binned_averages, binned_n, binned_std
+            return binned_axes, binned_averages, binned_std, binned_n
         elif return_std:
             return binned_axes, binned_averages, binned_std
         elif return_n:
-- 
2.43.0


From 31b0829e70931431b17288cad16acb63879d03fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 024/110] fix: spherical_average computes the spread of complex
 values from their modulus

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index c3839cf..d17e31d 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1774,9 +1774,9 @@ class Grid():
             means = binned_averages[tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1))].flatten()
             std_vals = np.copy(self.grid)
             std_vals[good_inds_grid] = std_vals[good_inds_grid] - means
-            std_vals = std_vals**2 * weights
+            std_vals = np.abs(std_vals)**2 * weights
 
-            binned_std = np.zeros(binned_shape,dtype=dtype_data)
+            binned_std = np.zeros(binned_shape,dtype=float)
             np.add.at(binned_std,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),std_vals.flatten()[good_inds].reshape(-1,1))
             
             if biased_std:
-- 
2.43.0


From 41431dd2d2100ed0060611ae61700ac484075f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 025/110] fix: Grid.save does not overwrite an existing file
 when the extension is left out

---
 simim/map/gridder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index d17e31d..496b673 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -536,6 +536,10 @@ class Grid():
         else:
             savefunc = np.savez
 
+        # numpy adds the extension to names that lack it
+        if not os.fspath(path).endswith('.npz'):
+            path = os.fspath(path) + '.npz'
+
         if os.path.exists(path) and not overwrite:
             raise ValueError("The file you are trying to create already exists")
 
-- 
2.43.0


From 6aff84df656be9960689f5a6d44442280eedd9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 026/110] fix: Grid.convolve accepts padding given as a list
 for each axis

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 496b673..6b93262 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1132,6 +1132,8 @@ class Grid():
             pad = np.array([pad for i in range(len(ax))]).astype(int)
         elif pad is None:
             pad = np.array([0 for i in range(len(ax))]).astype(int)
+        else:
+            pad = np.array(pad).astype(int)
 
         # Do the dang thing
         if in_place:
-- 
2.43.0


From 06f3a861cba909110266c0b8b118b3f33d105ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 027/110] fix: the spectral axis of a SpectralPSF holds cell
 edges like every other axis

---
 simim/map/gridder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 6b93262..5bebfa5 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2305,7 +2305,6 @@ class SpectralPSF(Grid):
         pixel_size = np.concatenate((pixel_size,[np.abs(spec_axis[1]-spec_axis[0])]))
 
         super().__init__(n_properties,center_point,side_length,pixel_size,axunits,gridunits=None)
-        self.axes[-1] = spec_axis
 
         # Make the grid
         sig = self.fwhm0 / (2*np.sqrt(2*np.log(2)))
-- 
2.43.0


From c5115d66fc7d029ce26937c5b23c53acca1f4b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 028/110] fix: MultiProp keeps units and h dependence given per
 property

---
 simim/galprops/galprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index f4c950d..043ba55 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -65,7 +65,7 @@ class MultiProp():
         if len(h_dependence)==1:
             self.h_dependence = {key:h_dependence[0] for key in self.names}
         elif len(h_dependence)==len(self.names):
-            self.units = {self.names[i]:h_dependence[i] for i in range(len(self.names))}
+            self.h_dependence = {self.names[i]:h_dependence[i] for i in range(len(self.names))}
         else:
             raise ValueError("h_dependence shape not compatible with prop_names shape")
 
-- 
2.43.0


From 178d6f02259d67abe8f3dbe20f6cd3396843f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 029/110] fix: MultiProp.evaluate passes kw_arguments on

---
 simim/galprops/galprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index 043ba55..601d97d 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -136,7 +136,7 @@ class MultiProp():
     def evaluate(self,target,use_all_inds=False,kw_remap={},kw_arguments={}):
         """See evaluate_all - identical functionality. This
         is just a wrapper to match the prop subclass"""
-        return self.evaluate_all(target,use_all_inds,kw_remap)
+        return self.evaluate_all(target,use_all_inds,kw_remap,kw_arguments)
 
 # Function should return an array of length n, where n is the number
 # of objects it is evaluated over, or should be of shape n x m
-- 
2.43.0


From 564cd4d24f5681f8da47e838e0c6b6cfbbdd6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 030/110] fix: MultiProp accepts tuples and arrays from prop
 functions and does not modify them

---
 simim/galprops/galprops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index 601d97d..ab13ab0 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -121,6 +121,7 @@ class MultiProp():
 
         if self.wrap:
             vals = [vals]
+        vals = list(vals)
         if len(vals) != len(self.names):
             raise ValueError("prop_function does not return a number of properties matching prop_names")
 
-- 
2.43.0


From 5a9681055991218f6e9292178b054e35aa8f45a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 031/110] fix: make_property accepts functions returning
 integers, booleans and single numbers

---
 simim/_handlers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 2bd3339..9a206e7 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -323,9 +323,13 @@ class Handler():
             name = property.names[i]
             newname = names[i]
 
-            prop_values = np.empty(self.nhalos_all,dtype=all_values[i].dtype)
-            prop_values[:] = np.nan
-            prop_values[inds] = all_values[i]
+            new_values = np.asarray(all_values[i])
+            if len(np.unique(inds)) == self.nhalos_all:
+                prop_values = np.empty(self.nhalos_all,dtype=new_values.dtype)
+            else:
+                # some halos will be left as nan, so the type has to allow that
+                prop_values = np.full(self.nhalos_all,np.nan,dtype=np.result_type(new_values.dtype,float))
+            prop_values[inds] = new_values
 
             self.properties_loaded[newname] = prop_values
             self.properties_units[newname] = property.units[name]
-- 
2.43.0


From b0a032527560e3dc9c7cc6e3fee359f834c2da0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 032/110] fix: make_property never writes a restricted
 selection to disk

---
 simim/_handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 9a206e7..d689c7b 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -290,7 +290,7 @@ class Handler():
             inds = self.inds_all
         else:
             inds = self.inds_active
-            if write_to_disk and not np.all(inds==self.inds_all):
+            if write_to_disk and not np.array_equal(inds,self.inds_all):
                 raise ValueError("Cannot write to disk when using restricted index")
 
         # Handle renaming
-- 
2.43.0


From 011b3f3ccb6ce72218f98409c98090553f154995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 033/110] fix: write_property keeps the type of overwritten
 properties

---
 simim/_handlers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index d689c7b..86b0931 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -380,7 +380,9 @@ class Handler():
                 if not property_name in file[self.groupname].keys():
                     file[self.groupname].create_dataset(property_name,data=property_value,dtype=dtype)
                 else:
-                    file[self.groupname][property_name][:] = property_value
+                    # replace the dataset so the new values are not cast to the type of the old ones
+                    del file[self.groupname][property_name]
+                    file[self.groupname].create_dataset(property_name,data=property_value,dtype=dtype)
 
                 file[self.groupname][property_name].attrs['units'] = self.properties_units[property_name]
                 file[self.groupname][property_name].attrs['h dependence'] = self.properties_h_dependence[property_name]
-- 
2.43.0


From 4c458b65ab6ec7e90b027a71a3997a0c30e3e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 034/110] fix: delete_property forgets the property entirely,
 and does not list mass_cuts as one

---
 simim/_handlers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 86b0931..5dd6ba7 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -414,7 +414,9 @@ class Handler():
                 else:
                     del file[self.groupname][property_name]
 
-                    self.properties_saved = [key for key in file[self.groupname].keys()]
+                    self.properties_saved = [key for key in file[self.groupname].keys() if key not in ['mass_cuts']]
+                    self.properties_loaded.pop(property_name,None)
+                    self.properties_generated = [i for i in self.properties_generated if i != property_name]
                     properties_all_new = []
                     for i in self.properties_all:
                         if i != property_name:
-- 
2.43.0


From 52a49f5004ddea0f2a15d728dd4dbcecc3419f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 035/110] fix: unloading a property leaves only what is on
 disk, with the units it has there

---
 simim/_handlers.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 5dd6ba7..b24e49f 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -164,6 +164,7 @@ class Handler():
                     property_value = property_value.flatten()
 
             self.properties_loaded[property_name] = property_value
+            self._read_property_units(property_name)
 
     def unload_property(self, *property_names):
         """Remove a property from memory (does not erase from file on disk)
@@ -184,6 +185,22 @@ class Handler():
 
             self.properties_loaded.pop(property_name, None)
 
+            if property_name in self.properties_saved:
+                self._read_property_units(property_name)
+            elif property_name in self.properties_all:
+                # existed only in memory
+                self.properties_all.remove(property_name)
+                self.properties_units.pop(property_name, None)
+                self.properties_h_dependence.pop(property_name, None)
+                self.properties_generated = [i for i in self.properties_generated if i != property_name]
+
+    def _read_property_units(self, property_name):
+        """Set the units and h dependence of a property to those saved on disk"""
+
+        with h5py.File(self.path,'r') as file:
+            self.properties_units[property_name] = file[self.groupname][property_name].attrs['units']
+            self.properties_h_dependence[property_name] = file[self.groupname][property_name].attrs['h dependence']
+
     def return_property(self, property_name, use_all_inds=False, in_h_units=None):
         """Load a property from file and return
 
-- 
2.43.0


From f4b594145a2302b1e916963c9ea29c00a69ae5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 036/110] fix: extract_keys does not hand out the handler's own
 lists

---
 simim/_handlers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index b24e49f..e3682f9 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -91,13 +91,13 @@ class Handler():
         """
 
         if set == 'any':
-            return self.properties_all
+            return list(self.properties_all)
         elif set == 'loaded':
             return [k for k in self.properties_loaded.keys()]
         elif set == 'saved':
-            return self.properties_saved
+            return list(self.properties_saved)
         elif set == 'generated':
-            return self.properties_generated
+            return list(self.properties_generated)
         else:
             raise ValueError("set not recognized")
 
-- 
2.43.0


From 06a42d03caa9ea749e793ed4747a9cdd36e020bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:42 +0000
Subject: [PATCH 037/110] fix: Grid.sum_properties returns a map in the same
 space as the original

---
 simim/map/gridder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 5bebfa5..0fba028 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -986,6 +986,9 @@ class Grid():
             new_grid = self.copy_axes(n_properties=1)
             new_grid.init_grid()
             new_grid.grid = sum_grid
+            new_grid.n_objects = self.n_objects
+            new_grid.fourier_space = np.copy(self.fourier_space)
+            new_grid.is_power_spectrum = self.is_power_spectrum
 
             return new_grid
 
-- 
2.43.0


From d074b30e354f4d803413ee58a1621bb589a43b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 038/110] fix: z_to_snap handles the limits of the redshift
 range

---
 simim/siminterface/simhandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 8702687..40e070c 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -360,9 +360,10 @@ class SimHandler():
             The index number of the snapshot matching the requested redshift
         """
 
-        if z > np.amax(self.z_bins) or z < 0:
+        if z > np.amax(self.z_bins) or z < np.amin(self.z_bins):
             raise ValueError("z out of range")
         bin = np.digitize(z,self.z_bins)-1
+        bin = min(bin,len(self.z_bin_snaps)-1) # maximum redshift is in the last bin
         bin_id = self.z_bin_snaps[bin]
 
         return bin_id
-- 
2.43.0


From 6afa16da6c2ff871497758e20cb224847615c153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 039/110] fix: number_volumes returns how often the volume fits
 in the box

---
 simim/siminterface/simhandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 40e070c..e968799 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -322,9 +322,9 @@ class SimHandler():
             in_h_units = self.default_in_h_units
 
         if in_h_units:
-            return volume / self.box_edge_h**3
+            return self.box_edge_h**3 / volume
         else:
-            return volume / self.box_edge_no_h**3
+            return self.box_edge_no_h**3 / volume
 
     def extract_snap_meta(self,snap):
         """Get the meta-data for a snapshot
-- 
2.43.0


From 33b9b55feaf75b81fd959ba598d89919b7afef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 040/110] fix: SimHandler can be created with init_snaps=True

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index e968799..2bbda52 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -256,7 +256,7 @@ class SimHandler():
 
         self.init_snaps = init_snaps
         if self.init_snaps:
-            self.initialize_all_snaps(redo=True)
+            self.initialize_all_snaps(remake=True)
 
     def initialize_all_snaps(self,remake=False):
         """Initialize SnapHandlers for each snapshot
-- 
2.43.0


From 092d74dd5ddd9bd79c915bff0293092e05256d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 041/110] fix: get_snap hands out snapshots with the default
 units of the simulation

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 2bbda52..0a58ad1 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -447,7 +447,7 @@ class SimHandler():
         else:
             snap = snap_meta['index']
             redshift = snap_meta['redshift']
-            return SnapHandler(self.path+'/data.hdf5',snap,redshift,self.cosmo,self.box_edge_h)
+            return SnapHandler(self.path+'/data.hdf5',snap,redshift,self.cosmo,self.box_edge_h,in_h_units=self.default_in_h_units)
 
     def get_snap_from_z(self,z):
         """Return a SnapHandler instance for the snapshot closest to a requested redshift
-- 
2.43.0


From 2bd99165d1290d817dfd5e0d5cadf9a6774cb3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 042/110] fix: get_mass_index converts masses to the Msun/h of
 the catalog

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 0a58ad1..b61c586 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -414,7 +414,7 @@ class SimHandler():
             if in_h_units:
                 mass_check = mass
             else:
-                mass_check = mass / self.h
+                mass_check = mass * self.h
             vals = mass_cuts['min_mass'] - mass_check
             vals = vals[vals>0]
             if len(vals) < 1:
-- 
2.43.0


From f8530d6691102d3d408134dc237d21949349da23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 043/110] fix: get_mass_index includes all halos for masses
 below the lowest mass cut

---
 simim/siminterface/simhandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index b61c586..e136246 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -409,7 +409,8 @@ class SimHandler():
             raise ValueError("Snapshot not found")
 
         with h5py.File(os.path.join(self.path,'data.hdf5'),'r') as file:
-            mass_cuts = file["Snapshot {}".format(snap)]['mass_cuts']
+            snap_grp = file["Snapshot {}".format(snap)]
+            mass_cuts = snap_grp['mass_cuts']
 
             if in_h_units:
                 mass_check = mass
@@ -420,7 +421,8 @@ class SimHandler():
             if len(vals) < 1:
                 index = 0
             elif len(vals) == len(mass_cuts):
-                index = mass_cuts['index'][-1]
+                # Below the lowest mass cut - use everything
+                index = snap_grp['mass'].shape[0]
             else:
                 index = mass_cuts['index'][len(vals)]
 
-- 
2.43.0


From 8affe6976cd25378d97db36dc621ef3fa1a61107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 044/110] fix: snap_stat identifies snapshots by their index
 number

---
 simim/siminterface/simhandler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index e136246..e5367a7 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -662,11 +662,10 @@ class SimHandler():
         redshifts = []
 
         if snaps is None:
-            snaps = np.arange(len(self.snap_meta))
-        for i in snaps:
-            snap = self.snap_meta['index'][i]
+            snaps = self.snap_meta['index']
+        for snap in snaps:
             print("\033[1m"+"Collecting sources from Snapshot {}.  ".format(snap)+"\033[0m",end='\r')
-            redshifts.append(self.snap_meta['redshift'][i])
+            redshifts.append(self.extract_snap_meta(snap)['redshift'])
 
             handler = self.get_snap(snap)
             vals.append(handler.eval_stat(stat_function,kwargs,kw_remap,other_kws=other_kws,use_all_inds=use_all_inds,give_args_in_h_units=give_args_in_h_units))
-- 
2.43.0


From 02f1b3898385b45713fdeaea61c3f8656fd7bce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 045/110] fix: SnapHandler.grid gives an empty grid when no
 halos are selected

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index e5367a7..751802d 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -149,7 +149,7 @@ class SnapHandler(Handler):
 
         grid = Gridder(np.array([x, y, z]).T, props,
                        center_point=c, side_length=l,
-                       pixel_size=res)
+                       pixel_size=res,setndims=3)
 
         if norm is None:
             norm = 1
-- 
2.43.0


From a57f4f11182efd6b366cd0fffe9902e6612f01a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 046/110] fix: LCHandler.grid gives an empty grid when no halos
 are selected

---
 simim/lightcone/lchandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index ddc9032..23257b0 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -300,7 +300,7 @@ class LCHandler(Handler):
 
         grid = Gridder(np.array([x, y, z]).T, props,
                        center_point=c, side_length=l,
-                       pixel_size=res)
+                       pixel_size=res,setndims=3)
 
         if norm is None:
             norm = 1        
-- 
2.43.0


From cdde99c3155ea89a7ce047915322abc43bf0fb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 047/110] fix: LCHandler.volume checks whether the requested
 shape fits in the light cone

---
 simim/lightcone/lchandler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 23257b0..8bb1041 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -148,15 +148,19 @@ class LCHandler(Handler):
         if shape not in ['box','circle']:
             raise ValueError("Shape not recognized")
 
+        if shape == 'circle': # diameter of the circle in both directions
+            aspect_ratio = 1
+
         if shape == self.metadata['shape'] or self.metadata['shape'] == 'box':
             if open_angle > self.metadata['open angle']:
                 raise ValueError("openangle larger than lightcone")
+        if self.metadata['shape'] == 'box':
             if open_angle*aspect_ratio > self.metadata['open angle']*self.metadata['aspect ratio']:
                 raise ValueError("secondary angle (openangle * aspect) larger than lightcone")
 
         if shape == 'box' and self.metadata['shape'] == 'circle':
-            radius2 = open_angle**2 + (open_angle*aspect_ratio)**2
-            if radius2 > self.metadata['open angle']:
+            diagonal2 = open_angle**2 + (open_angle*aspect_ratio)**2
+            if diagonal2 > self.metadata['open angle']**2:
                 raise ValueError("specified box does not fit in circular lightcone")
 
         # Figure out the volume
-- 
2.43.0


From dde8d63ab45bf8b7a230c667848bb36b96015db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 048/110] fix: LCHandler.volume works for light spheres

---
 simim/lightcone/lchandler.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 8bb1041..e5a6af8 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -111,7 +111,8 @@ class LCHandler(Handler):
             The aspect ratio of the box sides (for square lightcones) -
             by default matches the lightcone
         shape : 'box', 'circle', optional
-            The shape of the box - by default matches the lightcone
+            The shape of the box - by default matches the lightcone. Light spheres
+            (or parts of them) only have their own shape.
         in_h_units : bool (default is determined by self.default_in_h_units)
             If True, values will be returned in units including little h.
             If False, little h dependence will be removed. Defaults to whatever
@@ -123,6 +124,8 @@ class LCHandler(Handler):
             The volume of the lightcone in comoving Mpc^3
         """
 
+        sphere_areas = {'sphere':4*np.pi,'hemisphere':2*np.pi,'quarter':np.pi,'eighth':np.pi/2}
+
         if in_h_units is None:
             in_h_units = self.default_in_h_units
 
@@ -134,10 +137,11 @@ class LCHandler(Handler):
         if shape == None:
             shape=self.metadata['shape']
         
-        if open_angle == None:
-            open_angle=self.metadata['open angle']
-        if aspect_ratio == None:
-            aspect_ratio=self.metadata['aspect ratio']
+        if self.metadata['shape'] not in sphere_areas:
+            if open_angle == None:
+                open_angle=self.metadata['open angle']
+            if aspect_ratio == None:
+                aspect_ratio=self.metadata['aspect ratio']
 
         # Check everything
         if redshift_min < self.metadata['minimum redshift']:
@@ -145,13 +149,16 @@ class LCHandler(Handler):
         if redshift_max > self.metadata['maximum redshift']:
             raise ValueError("redshift_max higher than maximum of lightcone")
 
-        if shape not in ['box','circle']:
+        if self.metadata['shape'] in sphere_areas:
+            if shape != self.metadata['shape']:
+                raise ValueError("Shape does not match the lightcone")
+        elif shape not in ['box','circle']:
             raise ValueError("Shape not recognized")
 
         if shape == 'circle': # diameter of the circle in both directions
             aspect_ratio = 1
 
-        if shape == self.metadata['shape'] or self.metadata['shape'] == 'box':
+        if shape in ['box','circle'] and self.metadata['shape'] in [shape,'box']:
             if open_angle > self.metadata['open angle']:
                 raise ValueError("openangle larger than lightcone")
         if self.metadata['shape'] == 'box':
@@ -168,6 +175,8 @@ class LCHandler(Handler):
             area = open_angle * open_angle * aspect_ratio
         elif shape == 'circle':
             area = np.pi * (open_angle/2)**2
+        else:
+            area = sphere_areas[shape]
 
         v2 = self.cosmo.comoving_volume(redshift_max).value
         v1 = self.cosmo.comoving_volume(redshift_min).value
-- 
2.43.0


From 8403ff23573ce3f6b541335c54710c1953c8bbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 049/110] fix: eval_stat_evo does not modify the keywords it is
 given

---
 simim/lightcone/lchandler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index e5a6af8..cd8f830 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -199,6 +199,8 @@ class LCHandler(Handler):
         
         inds_active_save = np.copy(self.inds_active)
 
+        other_kws = dict(other_kws) # leave the original as it is
+
         vals = []
         for bin in range(len(redshift_bins)-1):
             self.set_property_range('redshift',
@@ -222,9 +224,6 @@ class LCHandler(Handler):
                                        use_all_inds=False,
                                        give_args_in_h_units=give_args_in_h_units))
 
-            other_kws.pop('zmin',None)
-            other_kws.pop('zmax',None)
-
         # Reset active inds
         self.inds_active = np.copy(inds_active_save)
 
-- 
2.43.0


From e446785970c8f9bde9aff17350f8ee8ba86f0678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 050/110] fix: eval_stat_evo restores the number of active
 halos

---
 simim/lightcone/lchandler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index cd8f830..7fe77dc 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -198,6 +198,7 @@ class LCHandler(Handler):
         redshift_bins = np.sort(redshift_bins)
         
         inds_active_save = np.copy(self.inds_active)
+        nhalos_active_save = self.nhalos_active
 
         other_kws = dict(other_kws) # leave the original as it is
 
@@ -226,6 +227,7 @@ class LCHandler(Handler):
 
         # Reset active inds
         self.inds_active = np.copy(inds_active_save)
+        self.nhalos_active = nhalos_active_save
 
         return redshift_bins, vals
 
-- 
2.43.0


From a451055cb1b471e5d98f3749c7d7de355a408de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 051/110] fix: LCIterator works for light spheres and compares
 the shapes of light cones

---
 simim/lightcone/lchandler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 7fe77dc..9cbdff4 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -563,10 +563,10 @@ class LCIterator():
 
         # Check for consistency of metadata
         ref_lc = self.lc_handlers[str(self.lc_numbers[0])]
-        for attr in ['cosmo','open_angle','aspect_ratio','minimum_redshift','maximum_redshift']:
-            setattr(self,attr,getattr(ref_lc,attr))
+        for attr in ['cosmo','shape','open_angle','aspect_ratio','minimum_redshift','maximum_redshift']:
+            setattr(self,attr,getattr(ref_lc,attr,None)) # (spheres have no opening angle)
             for i_lc in self.lc_numbers[1:]:
-                if getattr(self.lc_handlers[str(i_lc)],attr) != getattr(self,attr):
+                if getattr(self.lc_handlers[str(i_lc)],attr,None) != getattr(self,attr):
                     if self.require_consistent:
                         raise ValueError("Attribute {} does not match for light cones {} and {}".format(attr, self.lc_numbers[0],i_lc))
                     else:
-- 
2.43.0


From c45a89db3b16e495c2690cdb3d94dc125a0dec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 052/110] fix: SphereMaker checks whether the sphere fits in
 units of Mpc/h throughout

---
 simim/lightcone/lcmaker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 257055c..c3e2921 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -908,11 +908,11 @@ class SphereMaker(GenericLCMaker):
 
         # Check that we haven't requested something too big to fit in the box
         if mode == 'eighth':
-            dmax = self.sim_handler.box_edge_no_h
+            dmax = self.box_edge
         else:
-            dmax = self.sim_handler.box_edge_no_h/2
+            dmax = self.box_edge/2
         if self.assign_D(redshift_max) > dmax:
-            raise ValueError(f"Simulation box (edge={self.sim_handler.box_edge_no_h:.1f}) is not large enough to contain the desired shell (rad={self.assign_D(redshift_max):.1f})")
+            raise ValueError(f"Simulation box (edge={self.box_edge:.1f}) is not large enough to contain the desired shell (rad={self.assign_D(redshift_max):.1f})")
 
         # Figure out the range of snapshots needed
         self.snapshots_use = np.zeros(0,dtype=self.snap_meta.dtype)
-- 
2.43.0


From c9f83cf172243db2540bce0ee303d8fe3fea47a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 053/110] fix: light cones keep clear of all faces of the box

---
 simim/lightcone/lcmaker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index c3e2921..199dc5d 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -492,10 +492,10 @@ class LCMaker(GenericLCMaker):
             LOS_unit = LOS_vec/np.linalg.norm(LOS_vec)
 
             # Now test that there's enough room in the box for this thing...
-            angles = np.arctan([LOS_unit[1]/LOS_unit[0], LOS_unit[2]/LOS_unit[0], LOS_unit[2]/LOS_unit[1],
-                                LOS_unit[0]/LOS_unit[1], LOS_unit[0]/LOS_unit[2], LOS_unit[1]/LOS_unit[2]])
+            # (the smallest angle between the line of sight and a face of the box sets the distance needed)
+            angle = np.arcsin(np.amin(LOS_unit))
 
-            buffer_coef = 1.01 * np.tan(openradius) / np.sin(np.amin(angles)) # 1.01 is just to provide some padding
+            buffer_coef = 1.01 * (np.tan(openradius) / np.tan(angle) + 1 - np.cos(openradius)) # 1.01 is just to provide some padding
 
             max_distance = np.amax(self.snapshots_use['transverse_distance_max'])
             buffer_distance_max = buffer_coef * max_distance
-- 
2.43.0


From 541002ff1a42079ab2e28c7c98ff4173f9861995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:57 +0000
Subject: [PATCH 054/110] fix: light cones may end where a snapshot ends

---
 simim/lightcone/lcmaker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 199dc5d..5d3de7a 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -437,8 +437,8 @@ class LCMaker(GenericLCMaker):
         # Figure out the range of snapshots needed
         self.snapshots_use = np.zeros(0,dtype=self.snap_meta.dtype)
         for i in self.snap_meta:
-            if self.redshift_min <= i['redshift_max']:
-                if self.redshift_max >= i['redshift_min']:
+            if self.redshift_min < i['redshift_max']:
+                if self.redshift_max > i['redshift_min']:
                     self.snapshots_use = np.concatenate((self.snapshots_use,[i]))
         self.snapshots_use = np.sort(self.snapshots_use,order='redshift')
 
-- 
2.43.0


From c7bf1b4024cade9ffb79acb7abcd4928b44bbb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 055/110] fix: properties can be added to light cones without
 objects

---
 simim/lightcone/lcmaker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 5d3de7a..0f9017f 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -162,7 +162,7 @@ class GenericLCMaker():
                 shape = file['Indexing']['sim_indices'].shape
                 chunks = file['Indexing']['sim_indices'].chunks
                 if shape[0] < chunks[0]:
-                    chunks = shape
+                    chunks = shape if shape[0] > 0 else None
                 for key in keys:
                     file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks)
                     if key == 'masscheck':
@@ -269,7 +269,7 @@ class GenericLCMaker():
                 shape = file['Indexing']['sim_indices'].shape
                 chunks = file['Indexing']['sim_indices'].chunks
                 if shape[0] < chunks[0]:
-                    chunks = shape
+                    chunks = shape if shape[0] > 0 else None
                 for key in keys:
                     for subkey in ['_x','_y','_z']:
                         file['Lightcone Full'].create_dataset(key+subkey,shape=shape,chunks=chunks)
-- 
2.43.0


From a8877bb682ef9f3d29bdbf35eecfe2ceba70448c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 056/110] fix: properties added to light cones keep their data
 type

---
 simim/lightcone/lcmaker.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 0f9017f..5525a0e 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -153,6 +153,14 @@ class GenericLCMaker():
 
         keys = np.sort(new_lc_keys)
 
+        # Keep the data types of the properties
+        dtypes = {}
+        if len(self.snapshots_use) > 0:
+            with h5py.File(os.path.join(self.sim_path,'data.hdf5'),"r") as sim_file:
+                snap_grp = sim_file['Snapshot {}'.format(self.snapshots_use[0]['index'])]
+                for key in keys:
+                    dtypes[key] = snap_grp['mass' if key == 'masscheck' else key].dtype
+
         # Note in LC files that we're adding properties
         for i in range(self.n):
             with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
@@ -164,7 +172,7 @@ class GenericLCMaker():
                 if shape[0] < chunks[0]:
                     chunks = shape if shape[0] > 0 else None
                 for key in keys:
-                    file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks)
+                    file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks,dtype=dtypes.get(key))
                     if key == 'masscheck':
                         file['Lightcone Full'][key].attrs['units'] = self.sim_handler.key_units['mass']
                         file['Lightcone Full'][key].attrs['h dependence'] = self.sim_handler.key_h_dependence['mass']
-- 
2.43.0


From 76f07a32162561928a51403a5039e02cecb46c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:46 +0000
Subject: [PATCH 057/110] fix: positional properties can be added to light
 spheres

---
 simim/lightcone/lcmaker.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 5525a0e..4380ee3 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -331,16 +331,17 @@ class GenericLCMaker():
                             lc_values = values[:,indexing['index']]
 
                             # Get the matrices and do transformation
-                            los_matrix = lc_file.attrs['line of sight transformation matrix']
-                            pa_matrix = lc_file.attrs['position angle transformation matrix']
-                            lc_values = np.matmul(los_matrix,lc_values)
-                            lc_values = np.matmul(pa_matrix,lc_values)
-
+                            if 'line of sight transformation matrix' in lc_file.attrs:
+                                los_matrix = lc_file.attrs['line of sight transformation matrix']
+                                pa_matrix = lc_file.attrs['position angle transformation matrix']
+                                lc_values = np.matmul(los_matrix,lc_values)
+                                lc_values = np.matmul(pa_matrix,lc_values)
+                                lc_values = lc_values[[1,2,0]]
 
                             # Append the data
-                            lc_file['Lightcone Full'][key+'_x'][start:start+len(indexing)] = lc_values[1]
-                            lc_file['Lightcone Full'][key+'_y'][start:start+len(indexing)] = lc_values[2]
-                            lc_file['Lightcone Full'][key+'_z'][start:start+len(indexing)] = lc_values[0]
+                            lc_file['Lightcone Full'][key+'_x'][start:start+len(indexing)] = lc_values[0]
+                            lc_file['Lightcone Full'][key+'_y'][start:start+len(indexing)] = lc_values[1]
+                            lc_file['Lightcone Full'][key+'_z'][start:start+len(indexing)] = lc_values[2]
 
         # Note in LC files that we're done
         for i in range(self.n):
-- 
2.43.0


From 8fd7bd6a7b39c159eea56f1788e3b0f79b7e89fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:50 +0000
Subject: [PATCH 058/110] fix: positional properties are flipped along with the
 positions of light cones

---
 simim/lightcone/lcmaker.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 4380ee3..597bbdb 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -330,6 +330,14 @@ class GenericLCMaker():
                             # Trim values to the indices
                             lc_values = values[:,indexing['index']]
 
+                            # Flip the box as was done for the positions
+                            # (spin is an axial vector, which mirroring an axis
+                            # leaves as it is along that axis only)
+                            flips = np.array(lc_file.attrs['box flips'])
+                            if key == 'spin':
+                                flips = flips * np.prod(flips)
+                            lc_values = lc_values * flips[:,np.newaxis]
+
                             # Get the matrices and do transformation
                             if 'line of sight transformation matrix' in lc_file.attrs:
                                 los_matrix = lc_file.attrs['line of sight transformation matrix']
-- 
2.43.0


From a4b60f79db7a1c46cebc66e3bbebf188980c3ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:01 +0000
Subject: [PATCH 059/110] Revert "fix: SphereMaker checks whether the sphere
 fits in units of Mpc/h throughout"

This reverts commit c45a89db3b16e495c2690cdb3d94dc125a0dec9d.
---
 simim/lightcone/lcmaker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 597bbdb..963b4da 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -925,11 +925,11 @@ class SphereMaker(GenericLCMaker):
 
         # Check that we haven't requested something too big to fit in the box
         if mode == 'eighth':
-            dmax = self.box_edge
+            dmax = self.sim_handler.box_edge_no_h
         else:
-            dmax = self.box_edge/2
+            dmax = self.sim_handler.box_edge_no_h/2
         if self.assign_D(redshift_max) > dmax:
-            raise ValueError(f"Simulation box (edge={self.box_edge:.1f}) is not large enough to contain the desired shell (rad={self.assign_D(redshift_max):.1f})")
+            raise ValueError(f"Simulation box (edge={self.sim_handler.box_edge_no_h:.1f}) is not large enough to contain the desired shell (rad={self.assign_D(redshift_max):.1f})")
 
         # Figure out the range of snapshots needed
         self.snapshots_use = np.zeros(0,dtype=self.snap_meta.dtype)
-- 
2.43.0


From a7f64feea84f927b165ebbfba14073ae36954439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 060/110] fix: paths with spaces are read back from the path
 lists

---
 simim/_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/_paths.py b/simim/_paths.py
index 1761fe5..9ab055a 100644
--- a/simim/_paths.py
+++ b/simim/_paths.py
@@ -18,7 +18,7 @@ def _checkload_path_file(path):
     if os.path.exists(path):
         with open(path) as file:
             for line in file.readlines():
-                line_split = line.replace('\n','').split(' ')
+                line_split = line.replace('\n','').split(' ',1)
                 endpoint[line_split[0]] = line_split[1]
     return endpoint
 
-- 
2.43.0


From a88f8a8af45dbb5ae2db754847ced523cac4f8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 061/110] fix: UniverseMachine text catalogs of a single halo
 can be formatted

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index b601357..cdfe23c 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -232,7 +232,7 @@ class UniversemachineCatalogs(SimCatalogs):
                                     ('m','f'),('v','f'),('mp','f'),('vmp','f'),('r','f'),
                                     ('rank1','f'),('rank2','f'),('ra','f'),('rarank','f'),
                                     ('sm','f'),('icl','f'),('sfr','f'),('obs_sm','f'),('obs_sfr','f'),('obs_ssfr','f'),('smhm','f'),('obs_uv','f')])
-        data_raw = np.loadtxt(os.path.join(path,self.web_files[snapshot]), dtype=dtype_raw, comments='#')
+        data_raw = np.loadtxt(os.path.join(path,self.web_files[snapshot]), dtype=dtype_raw, comments='#', ndmin=1)
         subhalos = {}
         for key in fields:
             subhalos[key] = data_raw[key]
-- 
2.43.0


From 1f4511d36f9517bfd35d0b86c3a2cf8d144ab7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 062/110] fix: UniverseMachine halo radii are labelled with the
 unit they are converted to

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index cdfe23c..a7158e2 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -137,7 +137,7 @@ class UniversemachineCatalogs(SimCatalogs):
             'vmp':[('vmax_peak','f','km/s',0)],
 
             #R: Halo radius (BN98 vir, comoving kpc/h)
-            'r':[('r','f','kpc/h',-1)],
+            'r':[('r','f','Mpc/h',-1)],
 
             #Rank1: halo rank in Delta_vmax (see UniverseMachine paper)
             'rank1':[('Rank1','f','None',0)],
-- 
2.43.0


From cb741972fca6664f8175bdfbad14dff5494d36f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 063/110] fix: positions of UniverseMachine binary catalogs are
 wrapped into the box

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index a7158e2..419108f 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -282,7 +282,7 @@ class UniversemachineCatalogs(SimCatalogs):
         subhalos = {}
         for key in fields:
             subhalos[key] = data_raw[key]
-        subhalos['pos'][:,0:3] % self.box_edge
+        subhalos['pos'][:,0:3] = subhalos['pos'][:,0:3] % self.box_edge
         n_halos = len(data_raw)
 
         return subhalos, n_halos
-- 
2.43.0


From 42439ca3cb68f7974a22b0adfaef1219b8ae3113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 064/110] fix: star formation rates in UniverseMachine binary
 catalogs are floating point numbers

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 419108f..2f39cd9 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -271,7 +271,7 @@ class UniversemachineCatalogs(SimCatalogs):
                                     ('mp', 'f4'), ('m', 'f4'), ('v', 'f4'), ('r', 'f4'),
                                     ('rank1', 'f4'), ('rank2', 'f4'), ('ra', 'f4'),
                                     ('rarank', 'f4'), ('a_uv', 'f4'), ('sm', 'f4'),
-                                    ('icl', 'f4'), ('sfr', 'i4'), ('obs_sm', 'f4'),
+                                    ('icl', 'f4'), ('sfr', 'f4'), ('obs_sm', 'f4'),
                                     ('obs_sfr', 'f4'), ('obs_uv', 'f4'), ('empty', 'f4')],
                              align=True)
 
-- 
2.43.0


From fd931deaeda9ec6a3ecab540d95bacb60b357e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 065/110] fix: properties of snapshots without halos have the
 same number of dimensions as others

---
 simim/siminterface/_rawsiminterface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index e7ca882..5146af0 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -526,7 +526,8 @@ class SimCatalogs():
                 if n_halos > 0:
                     subhalos[key] = subhalos[key][sorted_inds]
                 else:
-                    subhalos[key] = np.zeros((0,len(self.other_fields[key])))
+                    n_subkeys = len(self.other_fields[key])
+                    subhalos[key] = np.zeros((0,n_subkeys) if n_subkeys > 1 else 0)
 
             # Now we want to know the indices where various mass cuts can
             # be applied. We'll do it in steps of 0.1 dex
-- 
2.43.0


From 5f06a066e4c57e201828612ec361f9c35068f53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 066/110] fix: Illustris star formation rates within one and
 two half mass radii are separate properties

---
 simim/siminterface/illustris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index d37573a..564805e 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -191,7 +191,7 @@ class IllustrisCatalogs(SimCatalogs):
                             'SubhaloSFRinMaxRad':[('sfr_maxr','f','Msun/yr',0)],
                             # Same as SubhaloSFR, but restricted to cells within
                             # twice the stellar half mass radius.
-                            'SubhaloSFRinHalfRad':[('sfr_2hr','f','Msun/yr',0)],
+                            'SubhaloSFRinRad':[('sfr_2hr','f','Msun/yr',0)],
 
                             # Mass-weighted average metallicity (Mz/Mtot, where
                             # Z = any element above He) of the star particles bound
-- 
2.43.0


From 836ffe3baa0a428a6ece6b26a24b3b9dd8b1b956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 067/110] fix: Illustris black hole accretion rates are
 converted to Msun/h / (Gyr/h)

---
 simim/siminterface/illustris.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 564805e..7b67362 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -253,9 +253,8 @@ class IllustrisCatalogs(SimCatalogs):
         def kpc_to_mpc(x,h):
             return x / 1000
         def illustris_bhmassunit(x,h):
-            return x * 0.978
+            return x * 1e10 / 0.978
         self.transform_keys = {'SubhaloBHMass':power_10,
-                               'SubhaloBHMdot':power_10,
                                'SubhaloMass':power_10,
                                'SubhaloMassInHalfRad':power_10,
                                'SubhaloMassInHalfRadType':power_10,
-- 
2.43.0


From ed63226e11a4936bb4770a0de831ea35b38f060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:22 +0000
Subject: [PATCH 068/110] fix: Illustris snapshots are put in order once,
 whatever order they are listed in

---
 simim/siminterface/illustris.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 7b67362..ab7e53c 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -453,8 +453,7 @@ class IllustrisCatalogs(SimCatalogs):
         for i in snap_meta_raw:
             snap_meta_classes.append(Snapshot(i['number'],i['redshift'],self.metadata))
             numbers.append(i['number'])
-        snap_meta_classes = [snap_meta_classes[i] for i in np.argsort(numbers)]
-        
+
         order = np.argsort(numbers)
         snap_meta_classes = [snap_meta_classes[i] for i in order if numbers[i] in self.snaps]
 
-- 
2.43.0


From 9e5419130c531ca25a4cf5e803ff1f396d5a2bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:22 +0000
Subject: [PATCH 069/110] fix: UniverseMachine files are put in the order of
 the snapshots, whatever order they are listed in

---
 simim/siminterface/universemachine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 2f39cd9..63c40a4 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -83,6 +83,10 @@ class UniversemachineCatalogs(SimCatalogs):
                 self.web_files = np.array(web_files)
             except:
                 raise ValueError("Unable to access file names on {}".format(self.webpage))
+            # Order files with highest redshift first
+            a = np.array([float(t.split('_')[-1][:-4]) for t in self.web_files])
+            self.web_files = self.web_files[np.argsort(a)]
+
             np.save(self.web_path,self.web_files)
 
         # Identify keys that will require unit conversions
-- 
2.43.0


From 448350ab60ebd73be398ea37b24779aed157b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:40 +0000
Subject: [PATCH 070/110] fix: all twelve raw data files of an Uchuu snapshot
 are known

---
 simim/siminterface/uchuu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index da962a7..15e56a9 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -242,7 +242,7 @@ class UchuuCatalogs(SimCatalogs):
 
     def _get_rawsnapfiles(self, snapshot):
         """Get path to a snapshot's raw file"""
-        rawsnapfiles = [self.web_files[snapshot].replace('data1',f'data{i}') for i in range(1,12)]
+        rawsnapfiles = [self.web_files[snapshot].replace('data1',f'data{i}') for i in range(1,13)]
         return rawsnapfiles
 
     def download_meta(self, redownload=False):
-- 
2.43.0


From d1a3ce51ac3017b5275d253a989e0994fc273c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:40 +0000
Subject: [PATCH 071/110] fix: raw data are removed from (only) the directory
 they are in, also if its path has spaces

---
 simim/siminterface/_rawsiminterface.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index 5146af0..52cdaf5 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -1,4 +1,5 @@
 import os
+import shutil
 import warnings
 
 from astropy.cosmology import FlatLambdaCDM
@@ -337,7 +338,8 @@ class SimCatalogs():
 
         # Remove stuff
         file_path = os.path.join(self.path,'raw')
-        os.system("rm -r {}".format(file_path))
+        if os.path.exists(file_path):
+            shutil.rmtree(file_path)
 
     def format(self,remake=False,overwrite=False,basic=False,realtime_clean_raw=False,realtime_clean_raw_check=True):
         """Convert the unformatted simulation data into the uniform format used by 
@@ -578,6 +580,9 @@ class SimCatalogs():
                 rawsnapfiles = self._get_rawsnapfiles(snap)
                 for file in rawsnapfiles:
                     file_path = os.path.join(self.path,'raw',file)
-                    os.system("rm -r {}".format(file_path))
+                    if os.path.isdir(file_path):
+                        shutil.rmtree(file_path)
+                    elif os.path.exists(file_path):
+                        os.remove(file_path)
 
 
-- 
2.43.0


From 83f4a102f114fda12555807939a06bbf8fccd7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:47 +0000
Subject: [PATCH 072/110] fix: formatted catalogs list the snapshots they hold

---
 simim/siminterface/_rawsiminterface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index 52cdaf5..cf968ec 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -423,7 +423,9 @@ class SimCatalogs():
                 for key in self.metadata.keys():
                     file.attrs[key] = self.metadata[key]
 
-                file.attrs['snapshots'] = self.snap_meta
+                meta_snaps = self.snap_meta[np.isin(self.snap_meta['index'], snaps_to_do)]
+                file.attrs['snapshots'] = meta_snaps
+                file.attrs['number_snaps'] = len(meta_snaps)
 
         # Cases 2 and 3 - need to first get the fields to write and figure out what snaps are called for and get current metadata
         # Then sort through the requested snaps and decide whether to overwrite them or not when duplicated
-- 
2.43.0


From 55779e4abfde1b1bae8a5f445ce02f82d06feb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 073/110] fix: snapshots which an interrupted format left out
 are not listed

---
 simim/siminterface/_rawsiminterface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index cf968ec..4a635b4 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -444,7 +444,9 @@ class SimCatalogs():
                         self.all_fields[f] = other_fields_start[f]
                 
                 meta_snaps = file.attrs['snapshots']
-                meta_numsnaps = file.attrs['number_snaps']
+                # Snapshots may be missing if formatting was interrupted
+                present = [i for i in meta_snaps['index'] if 'Snapshot {}'.format(i) in file.keys()]
+                meta_snaps = meta_snaps[np.isin(meta_snaps['index'], present)]
 
             if overwrite:
                 snaps_to_do = np.concatenate((add_snaps,replace_snaps))
-- 
2.43.0


From 1699c31df4bad887442a8e519d42a6c9615c64f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 074/110] fix: kernel_size for map_fields may be a single
 number of pixels, as documented

---
 simim/instrument/instrument.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 29b5777..bb02352 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -784,6 +784,7 @@ class Instrument:
 
         if kernel_size is None:
             kernel_size = np.round(self.best_spatial_res / field.pixel_size[:2]).astype(int) * 10 + 1
+        kernel_size = np.broadcast_to(kernel_size,2)
         
         # Check that the value of norm is recognized
         if spatial_response_norm not in ['peak','area','none']:
-- 
2.43.0


From 50d9cedfe3f4951ef656410611dba2340f1ae387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 075/110] fix: a field's property index is compared to the
 number of properties of the grid

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index bb02352..8727f14 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -672,7 +672,7 @@ class Instrument:
 
         if field_property_idx is None:
             field_property_idx = 0
-        if field_property_idx > grid.n_dimensions-1 or field_property_idx < 0:
+        if field_property_idx > grid.n_properties-1 or field_property_idx < 0:
             raise ValueError(f"grid does not have property {field_property_idx}")
         if _check:
             _check_grid_detector_compatibility(self,grid,field_property_idx)
-- 
2.43.0


From 2a4f841a54d58bfa234a83f3f843e12a9e3a334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 076/110] fix: map_fields observes the property of the grid
 that was given when adding the field

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 8727f14..c22089a 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -868,7 +868,7 @@ class Instrument:
 
         # Iterate through fields
         for f in field_names:
-            field = self.fields[f]
+            field = self.fields[f].copy(properties=self.field_props[f])
 
             all_detector_maps = [None for i in range(len(self.detector_names))]
             
-- 
2.43.0


From ba5f3ba2cd9af5b6fe51ce34f57626661f1cf8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 077/110] fix: the flux unit of a field is the unit of the
 property it observes

---
 simim/instrument/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/_helpers.py b/simim/instrument/_helpers.py
index a35f977..3cca116 100644
--- a/simim/instrument/_helpers.py
+++ b/simim/instrument/_helpers.py
@@ -89,7 +89,7 @@ def _check_grid_detector_compatibility(detector,grid,field_property_idx):
         warnings.warn("Detector unit for flux not specified. Assuming it matches grid unit")
     else:
         try: 
-            _check_unit(grid.gridunits,'flux')
+            _check_unit(grid.gridunits[field_property_idx],'flux')
         except:
             raise ValueError("grid flux unit not recognized")
         if grid.gridunits[field_property_idx] != detector.flux_unit:
-- 
2.43.0


From 2d260eaeaeb3dd2a6d3b4fb8aedb1f1b1529f3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 078/110] fix: maps of several detectors have one unit per
 detector

---
 simim/instrument/instrument.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index c22089a..0d65db4 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -896,6 +896,7 @@ class Instrument:
             # Hijack last 2d grid and turn it into a grid with each map as a property
             detector_map.grid = all_detector_maps
             detector_map.n_properties = len(self.detector_names)
+            detector_map.gridunits = np.repeat(detector_map.gridunits,len(self.detector_names))
 
             # Save the result
             self.maps[f] = detector_map
-- 
2.43.0


From 42512000d3e9c7a3654f5b95ab4fe461e2b5af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:43 +0000
Subject: [PATCH 079/110] fix: plot_spectral_response uses the reference
 frequencies of the detectors

---
 simim/instrument/instrument.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 0d65db4..ff9cef3 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -1084,9 +1084,9 @@ class Instrument:
         """
     
         if fmin is None:
-            fmin = 0.9 * np.min([d.reffreq for d in self.detectors.values])
+            fmin = 0.9 * np.min([d.reffreq for d in self.detectors.values()])
         if fmax is None:
-            fmax = 1.1 * np.max([d.reffreq for d in self.detectors.values])
+            fmax = 1.1 * np.max([d.reffreq for d in self.detectors.values()])
 
         fig,axes = plt.subplots(1,1,figsize=figsize)
         fig.subplots_adjust(left=.1,right=.95,top=.95,bottom=.15,wspace=.35)
@@ -1102,8 +1102,7 @@ class Instrument:
         else: 
             cmap = colormaps['Spectral']
 
-        order = np.argsort(self.detector_freqs)
-        for i in np.argsort(self.detector_freqs):
+        for i in np.argsort([self.detectors[d].reffreq for d in self.detector_names]):
             d = self.detectors[self.detector_names[i]]
             axes.plot(f, d.spectral_response(f, **d.spectral_kwargs), color=cmap(i/(len(self.detectors)-.99)))
 
-- 
2.43.0


From 232bd4f21c67928ca3ebef108069b50f06183a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 080/110] fix: kamenetzky16 computes the IR and FIR
 luminosities it uses

---
 simim/galprops/line_co.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simim/galprops/line_co.py b/simim/galprops/line_co.py
index 435d8cb..00b801d 100644
--- a/simim/galprops/line_co.py
+++ b/simim/galprops/line_co.py
@@ -257,7 +257,9 @@ def kamenetzky16(sfr,
     b_not         = np.array([ 0.8,  0.4,  0.9,  1.2,  2.1,  2.3,  2.8,  2.5,  2.7,  2.5,  2.7,  3.4,  2.2])
     b_sig_not     = np.array([ 0.8,  0.9,  0.4,  0.5,  0.5,  0.4,  0.4,  0.5,  0.5,  0.5,  0.6,  0.4,  0.5])
 
-    L_fir = sfr/d_mf*1e10*fircor
+    sfr = np.array(sfr, ndmin=1)
+    L_ir = sfr/d_mf*1e10
+    L_fir = L_ir*fircor
 
     a_gal = np.zeros((len(sfr), len(lines)))
     b_gal = np.zeros((len(sfr), len(lines)))
@@ -276,8 +278,8 @@ def kamenetzky16(sfr,
         a_gal[:,:] = a[lines]
         b_gal[:,:] = b[lines]
 
-    L_ir = L_ir.reshape(len(sfr),1) * np.ones((1,len(lines)))
-    log_L_co_p = (np.log10(L_ir) - b_gal) / a_gal
+    L_fir = L_fir.reshape(len(sfr),1) * np.ones((1,len(lines)))
+    log_L_co_p = (np.log10(L_fir) - b_gal) / a_gal
     L_co_p = np.power(10,log_L_co_p)
     L_co = L_co_p * 4.9e-5 * (f[lines]/constants.nu_co10)**3
 
-- 
2.43.0


From 11967feec494be1b230673151e966bec4d6ade4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 081/110] fix: unknown lines are refused by uzgil14 and
 spinoglio12, and the sulfur lines have their names in the documentation

---
 simim/galprops/line_fir.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/line_fir.py b/simim/galprops/line_fir.py
index 8aecd04..68451b6 100644
--- a/simim/galprops/line_fir.py
+++ b/simim/galprops/line_fir.py
@@ -153,7 +153,7 @@ def uzgil14(sfr,
 
     The lines available are:
         '[CII]', '[NII]', '[OI]', '[OIII]88um', '[OIII]52um',
-        '[SiII]', '[SiIII]33um', '[SiIII]19um', '[NeII]',
+        '[SiII]', '[SIII]33um', '[SIII]19um', '[NeII]',
         and '[NeIII]'
 
     Parameters
@@ -231,6 +231,8 @@ def uzgil14(sfr,
         sigma_A = 0.07
         B = 3.72
         sigma_B = 0.23
+    else:
+        raise ValueError("line not recognized")
 
     sfr = np.array(sfr, ndmin=1)
     L_ir = sfr/d_mf*1e10
@@ -258,7 +260,7 @@ def spinoglio12(sfr,
 
     The lines available are:
         '[CII]', '[NII]', '[OI]', '[OIII]88um', '[OIII]52um',
-        '[SiII]', '[SiIII]33um', '[SiIII]19um', '[NeII]',
+        '[SiII]', '[SIII]33um', '[SIII]19um', '[NeII]',
         and '[NeIII]'
 
     Parameters
@@ -335,6 +337,8 @@ def spinoglio12(sfr,
         sigma_A = 0.07
         B = 4.00
         sigma_B = 0.25
+    else:
+        raise ValueError("line not recognized")
 
     sfr = np.array(sfr, ndmin=1)
     L_ir = sfr/d_mf*1e10
-- 
2.43.0


From 54b4756b870aa982c9735f2cfab992807e7fc1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 082/110] fix: the documentation of delooze14 names the set of
 composite galaxies and AGN as the function does

---
 simim/galprops/line_fir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir.py b/simim/galprops/line_fir.py
index 68451b6..e365793 100644
--- a/simim/galprops/line_fir.py
+++ b/simim/galprops/line_fir.py
@@ -13,7 +13,7 @@ def delooze14(sfr,
     Most lines and galaxy subsets are included. Options for line are:
         '[CII]', '[OI]', and '[OIII]'
     Options for galaxy sets are
-        None, 'DGS', 'dwarfs', 'starbursts', 'comp/agn'
+        None, 'DGS', 'dwarfs', 'starbursts', 'comp/AGN'
     For line='[CII]' you can also select the galaxy set 'high z'.
 
     Parameters
-- 
2.43.0


From 8f489efc7512183e41ecb29517dff01340d63f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 083/110] fix: the [CI] lines of yang22 are looked up in their
 own table

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 55eb1be..4a6f475 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -232,7 +232,7 @@ def _yang22_ci_fit(redshift,line):
 
     if line not in ['CI1-0','CI2-1']:
         raise ValueError('CI line not recognized')
-    pars = _yang22_ci_params[_yang22_co_params['name']==line][0]
+    pars = _yang22_ci_params[_yang22_ci_params['name']==line][0]
 
     return_scalar = np.isscalar(redshift)
     redshift = np.array(redshift)
-- 
2.43.0


From c59d6b9be92a06d58b6e16ce52f2cc0006c08317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 084/110] fix: sign of the CI2-1 normalization of yang22 at
 z>=5

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 4a6f475..5c91f81 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -204,7 +204,7 @@ _yang22_ci_params['n4b'] = np.array([0.750,0.05632])
 _yang22_ci_params['n4c'] = np.array([-0.0807,0])
 _yang22_ci_params['n5a'] = np.array([1.89,1.48])
 _yang22_ci_params['n5b'] = np.array([5.73,6.14])
-_yang22_ci_params['n5c'] = np.array([-6.03,5.31])
+_yang22_ci_params['n5c'] = np.array([-6.03,-5.31])
 
 _yang22_ci_params['a1a'] = np.array([-0.741,-1.16])
 _yang22_ci_params['a1b'] = np.array([0.739,0.706])
-- 
2.43.0


From 6254602fb63f66469d6c0d9e51a0f91eeae493d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 085/110] fix: yang22 [CI] and CO luminosities can be computed
 for a single redshift

---
 simim/galprops/line_fir_yang.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 5c91f81..52c333a 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -148,7 +148,7 @@ def _yang22_co_fit(redshift,line):
     pars = _yang22_co_params[_yang22_co_params['name']==line][0]
 
     return_scalar = np.isscalar(redshift)
-    redshift = np.array(redshift)
+    redshift = np.array(redshift,ndmin=1)
 
     m1 = np.zeros(len(redshift))
     m1[redshift<4.0] = (pars['m1a'] + pars['m1b']*redshift)[redshift<4.0]
@@ -235,7 +235,7 @@ def _yang22_ci_fit(redshift,line):
     pars = _yang22_ci_params[_yang22_ci_params['name']==line][0]
 
     return_scalar = np.isscalar(redshift)
-    redshift = np.array(redshift)
+    redshift = np.array(redshift,ndmin=1)
 
     m1 = np.zeros(len(redshift))
     m1[redshift<4.0] = (pars['m1a']*np.exp(-redshift/pars['m1b']) + pars['m1c'])[redshift<4.0]
-- 
2.43.0


From 62a4f8a232bbee17de94df2c320e43e294386113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 086/110] fix: the duty cycle of yang22 is drawn from the
 generator that is given

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 52c333a..ea72761 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -57,7 +57,7 @@ def yang22(mass,redshift,line='CII',
 
     if fduty:
         f = _yang22_fduty(mass, redshift)
-        L[np.random.rand(len(L))>f] = 0
+        L[rng.random(len(L))>f] = 0
 
     return L
 
-- 
2.43.0


From 25ac1c007c79dba033c6bb06fbd3b57d036a8e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 087/110] fix: yang22 accepts a single mass, and a single mass
 with several redshifts

---
 simim/galprops/line_fir_yang.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index ea72761..6acce02 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -50,7 +50,7 @@ def yang22(mass,redshift,line='CII',
 
     m1 = 10**m1
     n = 10**n
-    L = 2 * n * mass * ((mass/m1)**-a + (mass/m1)**b)**-1
+    L = np.array(2 * n * mass * ((mass/m1)**-a + (mass/m1)**b)**-1, ndmin=1)
 
     if scatter:
         L = log10normal(L, sig, preserve_linear_mean=False, rng=rng)
@@ -265,14 +265,16 @@ def _yang22_ci_fit(redshift,line):
 
 def _yang22_fduty(mass,redshift):
     """Duty cycle for Yang model"""
-    f = np.ones(len(np.array(mass,ndmin=1)))
+    return_scalar = np.isscalar(mass) and np.isscalar(redshift)
+    mass, redshift = np.broadcast_arrays(np.array(mass,ndmin=1), np.array(redshift,ndmin=1))
+    f = np.ones(len(mass))
     m2lowz = 10**(11.73+0.6634*redshift)
     glowz = 1.37 - 0.190*redshift + 0.0215*redshift**2
 
 
-    f[redshift<4] = ((1+(np.array(mass,ndmin=1)/m2lowz)**glowz)**-1)[redshift<4]
+    f[redshift<4] = ((1+(mass/m2lowz)**glowz)**-1)[redshift<4]
     # Higher redshift f duty is always 1
 
-    if np.isscalar(mass) and np.isscalar(redshift):
+    if return_scalar:
         return f[0]
     return f
\ No newline at end of file
-- 
2.43.0


From 8d05d32382d464b356df766630cd16e7311723be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 088/110] fix: scatter of the Behroozi et al. model is drawn
 from the generator that is given

---
 simim/galprops/sfr_behroozi13.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/sfr_behroozi13.py b/simim/galprops/sfr_behroozi13.py
index 9a291c0..0957d79 100644
--- a/simim/galprops/sfr_behroozi13.py
+++ b/simim/galprops/sfr_behroozi13.py
@@ -170,7 +170,7 @@ class behroozi13_base():
         sfrval = self.sfr_function.ev(redshift,mass)
 
         if scatter:
-            sfrval = log10normal(sfrval, sigma_scatter, preserve_linear_mean=True)
+            sfrval = log10normal(sfrval, sigma_scatter, preserve_linear_mean=True, rng=rng)
 
         return sfrval
 
@@ -210,7 +210,7 @@ class behroozi13_base():
         stellarmassval = self.stellarmass_function.ev(redshift,mass)
 
         if scatter:
-            stellarmassval = log10normal(stellarmassval, sigma_scatter, preserve_linear_mean=True)
+            stellarmassval = log10normal(stellarmassval, sigma_scatter, preserve_linear_mean=True, rng=rng)
 
         return stellarmassval
 
-- 
2.43.0


From ce4f30aa2fe60f61bd1665ec38f1f68cfe8bec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 089/110] fix: the Behroozi et al. model raises when it was not
 set up

---
 simim/galprops/sfr_behroozi13.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/sfr_behroozi13.py b/simim/galprops/sfr_behroozi13.py
index 0957d79..4e7455c 100644
--- a/simim/galprops/sfr_behroozi13.py
+++ b/simim/galprops/sfr_behroozi13.py
@@ -159,7 +159,7 @@ class behroozi13_base():
         """
 
         if self.path is None:
-            return ValueError("model setup not complete - make sure setupsimim has been run")
+            raise ValueError("model setup not complete - make sure setupsimim has been run")
 
         if np.any(redshift > np.amax(self.grid_redshift)) and self.warn:
             warnings.warn('redshift exceeds maximum in Behroozi model range')
@@ -199,7 +199,7 @@ class behroozi13_base():
         """
 
         if self.path is None:
-            return ValueError("model setup not complete - make sure setupsimim has been run")
+            raise ValueError("model setup not complete - make sure setupsimim has been run")
 
         if np.any(redshift > np.amax(self.grid_redshift)) and self.warn:
             warnings.warn('redshift exceeds maximum in Behroozi model range')
-- 
2.43.0


From f38b86058d99c920149c9257fa0fb0ce4bbde672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 090/110] fix: am_dfdf fills unmatched values of property 1
 with that property's own limits

---
 simim/galprops/galprops_am.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 534f644..98954f3 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -246,13 +246,13 @@ def am_dfdf(prop1_rv:rv_continuous, prop2_rv:rv_continuous,
         if np.asarray(cum1).ndim > 0:
             ppf = np.zeros(len(cum1))
             ppf[(cum1>missing_pmass_low_p1) & (cum1<(1-missing_pmass_high_p1))] = prop1_rv.ppf(cstar[(cum1>missing_pmass_low_p1) & (cum1<(1-missing_pmass_high_p1))])
-            ppf[cum1<missing_pmass_low_p1] = fillers[2]
-            ppf[cum1>(1-missing_pmass_high_p1)] = fillers[3]
+            ppf[cum1<missing_pmass_low_p1] = fillers[0]
+            ppf[cum1>(1-missing_pmass_high_p1)] = fillers[1]
         else:
             if cum1<missing_pmass_low_p1:
-                ppf = fillers[2]
+                ppf = fillers[0]
             elif cum1>1-missing_pmass_high_p1:
-                ppf = fillers[3]
+                ppf = fillers[1]
             else:
                 ppf = prop1_rv.ppf(cstar)
     
-- 
2.43.0


From b48d151b9d4450efcd81e5574bd4cbbc7cb9e809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 091/110] fix: probability densities of the Schechter functions
 are normalized

---
 simim/galprops/galprops_am.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 98954f3..de06d1c 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -414,7 +414,7 @@ class schechter_gen(rv_continuous):
     
     def _pdf(self, x, x0, alpha, phi0, xmin):
         norm = self.lum_function_int(xmin, x0, alpha, phi0, xmin)
-        p = self.lum_function(x, x0, alpha, phi0, xmin)
+        p = self.lum_function(x, x0, alpha, phi0, xmin) / norm
         p[x<xmin] = 0
 
         return p
@@ -556,7 +556,7 @@ class double_schechter_gen(rv_continuous):
     
     def _pdf(self, x, x0, alpha1, phi1, alpha2, phi2, xmin):
         norm = self.lum_function_int(xmin, x0, alpha1, phi1, alpha2, phi2, xmin)
-        p = self.lum_function(x, x0, alpha1, phi1, alpha2, phi2, xmin)
+        p = self.lum_function(x, x0, alpha1, phi1, alpha2, phi2, xmin) / norm
         p[x<xmin] = 0
 
         return p
-- 
2.43.0


From ce102f401c5898a862c5d538dda495b1eeb745cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 092/110] fix: incomplete gamma function of the Schechter
 functions works element by element on arrays

---
 simim/galprops/galprops_am.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index de06d1c..17798fd 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -377,7 +377,7 @@ class schechter_gen(rv_continuous):
             elif a<0 and amod!=0:
                 gp = gamma(amod) * gammaincc(amod, x)
 
-        elif np.asarray(x).shape == np.asarray(a.shape):
+        elif np.asarray(x).shape == np.asarray(a).shape:
             gp = np.zeros(x.shape)
 
             c1 = np.asarray(a) > 0
@@ -389,6 +389,7 @@ class schechter_gen(rv_continuous):
             gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x[c3])
 
         elif np.asarray(x).size == 1:
+            x = np.broadcast_to(x, a.shape)
             gp = np.zeros(a.shape)
             c1 = np.asarray(a) > 0
             c2 = (np.asarray(a) <= 0) & (np.asarray(amod)==0)
@@ -408,7 +409,7 @@ class schechter_gen(rv_continuous):
                 gp = (gp - x**(amod-(i+1))*np.exp(-x)) / (amod - (i+1))
 
             else:
-                gp[n>1] = (gp[n>1] - x**(amod[n>1]-(i+1))*np.exp(-x[n>1])) / (amod[n>1] - (i+1))
+                gp[n>i] = (gp[n>i] - x[n>i]**(amod[n>i]-(i+1))*np.exp(-x[n>i])) / (amod[n>i] - (i+1))
 
         return gp
     
@@ -519,7 +520,7 @@ class double_schechter_gen(rv_continuous):
             elif a<0 and amod!=0:
                 gp = gamma(amod) * gammaincc(amod, x)
 
-        elif np.asarray(x).shape == np.asarray(a.shape):
+        elif np.asarray(x).shape == np.asarray(a).shape:
             gp = np.zeros(x.shape)
 
             c1 = np.asarray(a) > 0
@@ -531,6 +532,7 @@ class double_schechter_gen(rv_continuous):
             gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x[c3])
 
         elif np.asarray(x).size == 1:
+            x = np.broadcast_to(x, a.shape)
             gp = np.zeros(a.shape)
             c1 = np.asarray(a) > 0
             c2 = (np.asarray(a) <= 0) & (np.asarray(amod)==0)
@@ -550,7 +552,7 @@ class double_schechter_gen(rv_continuous):
                 gp = (gp - x**(amod-(i+1))*np.exp(-x)) / (amod - (i+1))
 
             else:
-                gp[n>1] = (gp[n>1] - x**(amod[n>1]-(i+1))*np.exp(-x[n>1])) / (amod[n>1] - (i+1))
+                gp[n>i] = (gp[n>i] - x[n>i]**(amod[n>i]-(i+1))*np.exp(-x[n>i])) / (amod[n>i] - (i+1))
 
         return gp
     
-- 
2.43.0


From 9e7b53afbc2444e4d5172c6767e9c69f97fc481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 093/110] fix: integrated Schechter functions below the minimum
 count everything above it, for numbers and arrays

---
 simim/galprops/galprops_am.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 17798fd..0d3c0b7 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -329,10 +329,10 @@ class schechter_gen(rv_continuous):
     def lum_function_int(self, x, x0, alpha, phi0, xmin):
         int = phi0 * self._uppergammamod(alpha+1, x/x0)
         if np.asarray(x).ndim > 0:
-            int[x<xmin] = phi0 * self._uppergammamod(alpha+1, xmin/x0)
+            int = np.where(x<xmin, phi0 * self._uppergammamod(alpha+1, xmin/x0), int)
         else:
             if x<xmin:
-                int = 1
+                int = phi0 * self._uppergammamod(alpha+1, xmin/x0)
 
         return int
 
@@ -472,10 +472,10 @@ class double_schechter_gen(rv_continuous):
     def lum_function_int(self, x, x0, alpha1, phi1, alpha2, phi2, xmin):
         int = phi1 * self._uppergammamod(alpha1+1, x/x0) + phi2 * self._uppergammamod(alpha2+1,x/x0)
         if np.asarray(x).ndim > 0:
-            int[x<xmin] = phi1 * self._uppergammamod(alpha1+1, xmin/x0) + phi2 * self._uppergammamod(alpha2+1,xmin/x0)
+            int = np.where(x<xmin, phi1 * self._uppergammamod(alpha1+1, xmin/x0) + phi2 * self._uppergammamod(alpha2+1,xmin/x0), int)
         else:
             if x<xmin:
-                int = 1
+                int = phi1 * self._uppergammamod(alpha1+1, xmin/x0) + phi2 * self._uppergammamod(alpha2+1,xmin/x0)
 
         return int
 
-- 
2.43.0


From 1dbdcdc583ff18556314a340b27bcd2a40039293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 094/110] fix: luminosity function parameters given to the
 Gruppioni et al. model are used

---
 simim/galprops/sfr_ir.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/simim/galprops/sfr_ir.py b/simim/galprops/sfr_ir.py
index 7c9e6e5..4422a64 100644
--- a/simim/galprops/sfr_ir.py
+++ b/simim/galprops/sfr_ir.py
@@ -58,9 +58,6 @@ class g13irlf_base():
         
         self.path = paths.props[self.name]
 
-        self.init_lir_function = False
-        self._load_lir_function(comp=comp, remake=remake, haloprop=haloprop, halomassmin=halomassmin, lirmin=lirmin)
-
         # Save pars
         self.lf_alpha0 = lf_alpha0
         self.lf_sigma0 = lf_sigma0
@@ -69,6 +66,9 @@ class g13irlf_base():
 
         self.lir_to_sfr = lir_to_sfr
 
+        self.init_lir_function = False
+        self._load_lir_function(comp=comp, remake=remake, haloprop=haloprop, halomassmin=halomassmin, lirmin=lirmin)
+
     def _load_lir_function(self, comp, remake, haloprop, halomassmin, lirmin):
         """Load or compute halo mass-ir luminosity relation"""
 
@@ -140,12 +140,15 @@ class g13irlf_base():
         np.save(os.path.join(self.path,'redshift_axis.npy'), zgrid)
         np.save(os.path.join(self.path,'lir.npy'), irgrid.T)
 
-    def get_irlf_pars(self, z, alpha0=1.2, sigma0=0.5, lstar0=10**9.95, phistar0=10**-2.25):
+    def get_irlf_pars(self, z, alpha0=None, sigma0=None, lstar0=None, phistar0=None):
         """Use the redshift scaling from Gruppioni et al. 2013 to get IRLF parameters"""
         if alpha0 is None:
             alpha0 = self.lf_alpha0
+        if sigma0 is None:
             sigma0 = self.lf_sigma0
+        if lstar0 is None:
             lstar0 = self.lf_lstar0
+        if phistar0 is None:
             phistar0 = self.lf_phistar0
 
 
-- 
2.43.0


From 34f7a83c94723b2f5809d0c3914d9cfba26fbec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:08 +0000
Subject: [PATCH 095/110] fix: Grid.visualize draws the axes in the order
 given, with frequencies for axes in fourier space

---
 simim/map/gridder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 0fba028..5022783 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1863,7 +1863,10 @@ class Grid():
                     slice_idx += 1
             image = self.grid[tuple(slices)][:,:,property]
 
-        cb=plot.pcolor(self.axes[ax[0]],self.axes[ax[1]],image.real.T,**plotkws)
+        if ax[0] < ax[1]:
+            image = image.T
+        edges = [self.fourier_axes[i] if self.fourier_space[i] else self.axes[i] for i in ax]
+        cb=plot.pcolor(edges[0],edges[1],image.real,**plotkws)
         fig.colorbar(cb)
         plt.show()
 
-- 
2.43.0


From e188ec530fd83bd79a07575a3568f446bcef88be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:22 +0000
Subject: [PATCH 096/110] fix: Grid.animate slides along the cells of the axis,
 not halfway between them

---
 simim/map/gridder.py | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 5022783..7162953 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1900,24 +1900,10 @@ class Grid():
 
         flatten_dims = np.setdiff1d(np.arange(self.n_dimensions),np.concatenate(([slide_dim],face_dims)))
 
-        if self.fourier_space[slide_dim]:
-            ax0 = self.fourier_axes_centers[slide_dim]
-        else:
-            ax0 = self.axes_centers[slide_dim] - self.pixel_size[slide_dim]/2
-        slide_ax = np.copy(ax0)
-        ax0 = _axis_edges(np.copy(ax0))
-
-        if self.fourier_space[face_dims[0]]:
-            ax1 = self.fourier_axes_centers[face_dims[0]]
-        else:
-            ax1 = self.axes_centers[face_dims[0]]
-        ax1 = _axis_edges(np.copy(ax1))
-
-        if self.fourier_space[face_dims[1]]:
-            ax2 = self.fourier_axes_centers[face_dims[1]]
-        else:
-            ax2 = self.axes_centers[face_dims[1]]
-        ax2 = _axis_edges(np.copy(ax2))
+        # Cell edges (and centers for the slide axis)
+        edges = [self.fourier_axes[i] if self.fourier_space[i] else self.axes[i] for i in range(self.n_dimensions)]
+        ax0, ax1, ax2 = edges[slide_dim], edges[face_dims[0]], edges[face_dims[1]]
+        slide_ax = self.fourier_axes_centers[slide_dim] if self.fourier_space[slide_dim] else self.axes_centers[slide_dim]
 
         # Determine property range allowed
         if logscale:
-- 
2.43.0


From 61fde35232f00dc51aa38451877a31be98e5c7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:22 +0000
Subject: [PATCH 097/110] fix: Grid.animate works whichever of more than three
 dimensions are summed

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 7162953..53c4e89 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1939,7 +1939,7 @@ class Grid():
         plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[0]))
         # plot_face.set(xlabel='Axis {}'.format(face_dims[0]),ylabel='Axis {}'.format(face_dims[1]))
 
-        map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i0,axis=slide_dim)
+        map_face = np.sum(np.take(self.grid[...,prop_ind].real,indices=[i0],axis=slide_dim),axis=tuple(flatten_dims)+(slide_dim,))
         if face_dims[0] < face_dims[1]:
             map_face = map_face.T
         if logscale:
@@ -1955,7 +1955,7 @@ class Grid():
             plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[i]))
             box.set_data([ax0[i],ax0[i],ax0[i+1],ax0[i+1],ax0[i]],
                          [ax2[0],ax2[-1],ax2[-1],ax2[0],ax2[0]])
-            map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i,axis=slide_dim)
+            map_face = np.sum(np.take(self.grid[...,prop_ind].real,indices=[i],axis=slide_dim),axis=tuple(flatten_dims)+(slide_dim,))
             if face_dims[0] < face_dims[1]:
                 map_face = map_face.T
             if logscale:
-- 
2.43.0


From 12a3014353bc725835b9c7326814676cd6ec84aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:22 +0000
Subject: [PATCH 098/110] fix: Grid.animate returns None for still images

---
 simim/map/gridder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 53c4e89..647dbfa 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1970,6 +1970,7 @@ class Grid():
         else:
             if save != None:
                 plt.savefig(save)
+            anim = None
 
         plt.show()
         return anim
-- 
2.43.0


From f13b7bb078e5a18120848b3149b2c622bbecdcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:37 +0000
Subject: [PATCH 099/110] fix: the title of the first frame of Grid.animate is
 that of the slice shown

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 647dbfa..941d894 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1936,7 +1936,7 @@ class Grid():
                      [ax2[0],ax2[-1],ax2[-1],ax2[0],ax2[0]])
 
         plot_face = plt.subplot(122)
-        plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[0]))
+        plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[i0]))
         # plot_face.set(xlabel='Axis {}'.format(face_dims[0]),ylabel='Axis {}'.format(face_dims[1]))
 
         map_face = np.sum(np.take(self.grid[...,prop_ind].real,indices=[i0],axis=slide_dim),axis=tuple(flatten_dims)+(slide_dim,))
-- 
2.43.0


From cc4d6da1e2a58fa67eb72717ef717e232a4e494c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:37 +0000
Subject: [PATCH 100/110] fix: Grid.animate casts complex values to real for
 the color range too

---
 simim/map/gridder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 941d894..6fd7739 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1907,11 +1907,11 @@ class Grid():
 
         # Determine property range allowed
         if logscale:
-            vmax = np.log10(np.amax(self.grid[...,prop_ind]))
+            vmax = np.log10(np.amax(self.grid[...,prop_ind].real))
             vmin = vmax-10
         else:
-            vmin = minrescale*np.amin(self.grid[...,prop_ind])
-            vmax = maxrescale*np.amax(self.grid[...,prop_ind])
+            vmin = minrescale*np.amin(self.grid[...,prop_ind].real)
+            vmax = maxrescale*np.amax(self.grid[...,prop_ind].real)
 
         # Set up plots
         figure = plt.figure(figsize=(10,5))
-- 
2.43.0


From fbeab842640b5763636d9ff418caf914c419e0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:37 +0000
Subject: [PATCH 101/110] fix: Handler.plot does not modify the keywords it is
 given

---
 simim/_handlers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index e3682f9..e4c7750 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -609,6 +609,7 @@ class Handler():
         fig.subplots_adjust(left=.15,right=.95,bottom=.15,top=.95)
         ax.set(**axkws)
         
+        plotkws = dict(plotkws)
         if 'ls' not in plotkws and 'linestyle' not in plotkws:
             plotkws['ls'] = ''
         if 'marker' not in plotkws:
-- 
2.43.0


From 302d0b50ec8d46ee44065428082533800f876525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:37 +0000
Subject: [PATCH 102/110] fix: LCHandler.animate uses one unit for distances

---
 simim/lightcone/lchandler.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 9cbdff4..a8f182b 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -362,10 +362,11 @@ class LCHandler(Handler):
         dec = self.return_property('dec',use_all_inds=use_all_inds,in_h_units=in_h_units)
         redshift = self.return_property('redshift',use_all_inds=use_all_inds,in_h_units=in_h_units)
 
-        # Get limits
-        phys_lim_xy = self.cosmo.comoving_transverse_distance(self.metadata['maximum redshift']).value * self.h * self.metadata['open angle']
-        phys_lim_zmax = self.cosmo.comoving_distance(self.metadata['maximum redshift']).value * self.h
-        phys_lim_zmin = self.cosmo.comoving_distance(self.metadata['minimum redshift']).value * self.h
+        # Get limits (in Mpc/h if positions are)
+        h = self.h if in_h_units else 1
+        phys_lim_xy = self.cosmo.comoving_transverse_distance(self.metadata['maximum redshift']).value * h * self.metadata['open angle']
+        phys_lim_zmax = self.cosmo.comoving_distance(self.metadata['maximum redshift']).value * h
+        phys_lim_zmin = self.cosmo.comoving_distance(self.metadata['minimum redshift']).value * h
         obs_lim_xy = self.metadata['open angle'] * 180/np.pi*60
         obs_lim_zmax = self.metadata['maximum redshift']
         obs_lim_zmin = self.metadata['minimum redshift']
@@ -460,7 +461,7 @@ class LCHandler(Handler):
 
         def animate(i):
             #title
-            redshift = z_at_value(self.cosmo.comoving_distance, (phys_lim_zmin+step*(i+.5))*u.Mpc)
+            redshift = z_at_value(self.cosmo.comoving_distance, (phys_lim_zmin+step*(i+.5))/h*u.Mpc)
             title.set_text('redshift = {:.2f}'.format(redshift))
 
             #animate p1
@@ -468,7 +469,7 @@ class LCHandler(Handler):
                          [-phys_lim_xy/2,phys_lim_xy/2,phys_lim_xy/2,-phys_lim_xy/2,-phys_lim_xy/2])
 
             #select halos to show in p2 and p3
-            inds = np.where((z > phys_lim_zmin + step*i) & (z < phys_lim_zmin + step*(i+1)))
+            inds = np.where((z >= phys_lim_zmin + step*i) & (z < phys_lim_zmin + step*(i+1)))
             new_sizes = np.zeros(len(z))
             new_sizes[inds] = sizes[inds]
 
@@ -478,7 +479,7 @@ class LCHandler(Handler):
             #animate p3
             radec_scatter.set_sizes(new_sizes)
 
-            r = self.cosmo.comoving_transverse_distance(redshift) * self.metadata['open angle']/2
+            r = self.cosmo.comoving_transverse_distance(redshift).value * h * self.metadata['open angle']/2
             if outline == 'circle':
                 xy_outline.set_data(r*np.cos(theta),r*np.sin(theta))
             else:
-- 
2.43.0


From 1a407ba134f680fddcc00da627fde73538834453 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:27:32 +0000
Subject: [PATCH 103/110] fix: Uchuu data files are saved in the simulation's
 directory, also if its path contains 'data1'

---
 simim/siminterface/uchuu.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index 15e56a9..a790aa6 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -355,10 +355,9 @@ class UchuuCatalogs(SimCatalogs):
         else:
             self.download_snaps = [(s,[]) for s in self.snaps]
             for i,snap in enumerate(self.snaps):
-                file_path = os.path.join(self.path,'raw',self.web_files[snap])
-                
                 for df in datafiles:
-                    if os.path.exists(file_path.replace('data1',f'data{df}')):
+                    file_path = os.path.join(self.path,'raw',self.web_files[snap].replace('data1',f'data{df}'))
+                    if os.path.exists(file_path):
                         warnings.warn(f"Skipping snapshot {snap} / datafile {df} as it appears to exist already")
                     else:
                         self.download_snaps[i][1].append(df)
@@ -367,12 +366,12 @@ class UchuuCatalogs(SimCatalogs):
         # Download each snap
         for i in range(len(self.download_snaps)):
             snap_id, snap_df = self.download_snaps[i]
-            file_path = os.path.join(self.path,'raw',self.web_files[snap_id])
             for df in snap_df:
+                file_path = os.path.join(self.path,'raw',self.web_files[snap_id].replace('data1',f'data{df}'))
                 if df <= 3:
                     webpage = self.webpage + 'SFR/'
                 if df > 3:
                     webpage = self.webpage + 'SFH/'
                 print("downloading snapshot {} of {} ({})".format(i+1,len(self.download_snaps),self.web_files[snap_id].replace('data1',f'data{df}')))
-                urlretrieve(webpage+self.web_files[snap_id].replace('data1',f'data{df}'),file_path.replace('data1',f'data{df}'))
+                urlretrieve(webpage+self.web_files[snap_id].replace('data1',f'data{df}'),file_path)
 
-- 
2.43.0


From bbbc5ccfc81f72936a47537b4678315b10d132f0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:27:32 +0000
Subject: [PATCH 104/110] fix: interrupted downloads of UniverseMachine
 catalogs are not taken for finished ones

---
 simim/siminterface/uchuu.py           | 5 ++++-
 simim/siminterface/universemachine.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index a790aa6..3f8007d 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -373,5 +373,8 @@ class UchuuCatalogs(SimCatalogs):
                 if df > 3:
                     webpage = self.webpage + 'SFH/'
                 print("downloading snapshot {} of {} ({})".format(i+1,len(self.download_snaps),self.web_files[snap_id].replace('data1',f'data{df}')))
-                urlretrieve(webpage+self.web_files[snap_id].replace('data1',f'data{df}'),file_path)
+                # Only give the file its name once it's complete, so an
+                # interrupted download isn't mistaken for a finished one
+                urlretrieve(webpage+self.web_files[snap_id].replace('data1',f'data{df}'),file_path+'.part')
+                os.replace(file_path+'.part',file_path)
 
diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 63c40a4..d39a4bd 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -415,7 +415,10 @@ class UniversemachineCatalogs(SimCatalogs):
             if self.sim == '_testbox':
                 shutil.copy(self.webpage.joinpath(self.web_files[snap]),file_path)
             else:
-                urlretrieve(self.webpage+self.web_files[snap],file_path)
+                # Only give the file its name once it's complete, so an
+                # interrupted download isn't mistaken for a finished one
+                urlretrieve(self.webpage+self.web_files[snap],file_path+'.part')
+                os.replace(file_path+'.part',file_path)
 
 # Wrapper for back compatibility
 def universemachine_catalogs(*args, **kwargs):
-- 
2.43.0


From de2b8a94e4fc5dace1d2af3b0f516fd0f43f41b5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:27:32 +0000
Subject: [PATCH 105/110] fix: Illustris/TNG catalogs are downloaded into the
 simulation's directory, also if its path has spaces

---
 simim/siminterface/illustris.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index ab7e53c..8e85082 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -1,4 +1,5 @@
 import os
+import shlex
 import requests
 import warnings
 
@@ -369,7 +370,7 @@ class IllustrisCatalogs(SimCatalogs):
             wget_cmd += '--header="API-Key: {}" '.format(self.api_key)
             wget_cmd += '"http://www.tng-project.org/api/{}'.format(self.sim)
             wget_cmd += '/files/groupcat-{}/?format=api" '.format(i)
-            wget_cmd += '-P {}'.format(file_path)
+            wget_cmd += '-P {}'.format(shlex.quote(file_path))
 
             # Download the data and check that it all arrives, retry if it doesn't
             print("\nDownloading Snapshot {}".format(i))
-- 
2.43.0


From f4f4ea06805cbae5da29bc8cb2b41aaf70cba28d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:27:32 +0000
Subject: [PATCH 106/110] fix: Illustris/TNG snapshots are only skipped when
 all of their files have been downloaded

---
 simim/siminterface/illustris.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 8e85082..8bcdfe5 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -351,7 +351,9 @@ class IllustrisCatalogs(SimCatalogs):
             self.download_snaps = []
             for i in self.snaps:
                 file_path = os.path.join(self.path,'raw','groups_{:03d}'.format(i))
-                if os.path.exists(os.path.join(file_path,self.raw_fname+'{:03d}.0.hdf5'.format(i))):
+                number_files = self.metadata['groupcat_number_files'] if self.metadata else 1
+                if np.all([os.path.exists(os.path.join(file_path,self.raw_fname+'{:03d}.{}.hdf5'.format(i,j)))
+                           for j in range(number_files)]):
                     warnings.warn("Skipping snapshot {} as it appears to exist already".format(i))
                 else:
                     self.download_snaps.append(i)
-- 
2.43.0


From 358a621716b1f93c6e5155bb6f3046261c97ca0c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:27:32 +0000
Subject: [PATCH 107/110] fix: redownload replaces the files of Illustris/TNG
 snapshots which exist already

---
 simim/siminterface/illustris.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 8bcdfe5..047e4dd 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -366,6 +366,11 @@ class IllustrisCatalogs(SimCatalogs):
             if not os.path.exists(file_path):
                 os.mkdir(file_path)
 
+            # wget doesn't replace files which exist
+            if redownload:
+                for f in os.listdir(file_path):
+                    os.remove(os.path.join(file_path,f))
+
             # Construcg wget command
             wget_cmd  = 'wget -nd -nc -nv -e robots=off '
             wget_cmd += '-l 1 -r -A hdf5 --content-disposition '
-- 
2.43.0


From 8344051b347aa92503f42dd6d9790add12e03dca Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:55:01 +0000
Subject: [PATCH 108/110] fix: loaded maps do not share the number of objects
 with their copies

---
 simim/map/gridder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 6fd7739..544623c 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2119,7 +2119,7 @@ class LoadGrid(Grid):
 
         input = np.load(path,allow_pickle=True)
 
-        super().__init__(n_properties=input['n_properties'],
+        super().__init__(n_properties=int(input['n_properties']),
                          center_point=input['center_point'],
                          side_length=input['side_length'],
                          pixel_size=input['pixel_size'],
@@ -2129,9 +2129,9 @@ class LoadGrid(Grid):
         if input['grid_active']:
             self.grid_active = True
             self.grid = input['grid']
-            self.n_objects = input['n_objects']
+            self.n_objects = int(input['n_objects'])
         self.fourier_space = input['fourier_space']
-        self.is_power_spectrum = input['is_power_spectrum']
+        self.is_power_spectrum = bool(input['is_power_spectrum'])
 
 
 def gridder_function(positions, values = None, center_point = None, side_length = None, pixel_size = 1, setndims = None):
-- 
2.43.0


From 46b5cccef40a6fbe6e42b61d1b5e30532e0e1a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:04 +0000
Subject: [PATCH 109/110] fix: loading, writing or deleting several properties
 does nothing if one of them is refused

---
 simim/_handlers.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index e4c7750..001dffb 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -152,11 +152,12 @@ class Handler():
         none
         """
 
+        # Check properties exist
         for property_name in property_names:
-            # Check property exists
             if not property_name in self.properties_saved:
                 raise ValueError("{} does not have property {} saved".format(self.objectname,property_name))
 
+        for property_name in property_names:
             # Get the values
             with h5py.File(self.path,'r') as file:
                 property_value = file[self.groupname][property_name][:]
@@ -383,15 +384,15 @@ class Handler():
 
         for property_name in property_names:
             if not property_name in self.properties_loaded.keys():
-                raise ValueError("Property {} not loaded, cannot write to disk")
-            else:
-                property_value = self.properties_loaded[property_name]
+                raise ValueError("Property {} not loaded, cannot write to disk".format(property_name))
+            if property_name in self.properties_saved and not overwrite:
+                raise ValueError("Property {} already exists".format(property_name))
+
+        for property_name in property_names:
+            property_value = self.properties_loaded[property_name]
 
             if property_name in self.properties_saved:
-                if overwrite:
-                    warnings.warn("Property {} already exists, overwriting".format(property_name))
-                else:
-                    raise ValueError("Property {} already exists".format(property_name))
+                warnings.warn("Property {} already exists, overwriting".format(property_name))
 
             with h5py.File(self.path,'a') as file:
                 if not property_name in file[self.groupname].keys():
@@ -425,6 +426,7 @@ class Handler():
             if property_name not in self.properties_saved:
                 raise ValueError("Property {} is not in the saved file".format(property_name))
 
+        for property_name in property_names:
             with h5py.File(self.path,'a') as file:
                 if property_name not in file[self.groupname].keys():
                     raise ValueError("This property cannot be deleted")
-- 
2.43.0


From 8528a387e8f32723a323c357785ea97d74e4afa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:23 +0000
Subject: [PATCH 110/110] fix: making properties for a simulation does nothing
 if they cannot be written

---
 simim/siminterface/simhandler.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 751802d..12ad693 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -556,13 +556,7 @@ class SimHandler():
             print("\033[1m"+"Assigning props for Snapshot {}.  ".format(snap)+"\033[0m",end='\r')
             handler = self.get_snap(snap)
 
-            handler.make_property(property=property,
-                                  rename=rename,
-                                  kw_remap=kw_remap,
-                                  other_kws=other_kws,
-                                  overwrite=overwrite,
-                                  use_all_inds=use_all_inds)
-
+            # Make sure the property can be written before changing anything
             if write:
                 if isinstance(rename,str):
                     rename = [rename]
@@ -584,6 +578,14 @@ class SimHandler():
                                 else:
                                     warnings.warn("Property {} already exists, overwriting".format(name))
 
+            handler.make_property(property=property,
+                                  rename=rename,
+                                  kw_remap=kw_remap,
+                                  other_kws=other_kws,
+                                  overwrite=overwrite,
+                                  use_all_inds=use_all_inds)
+
+            if write:
                 handler.write_property(*names,overwrite=overwrite,dtype=writedtype)
                 handler.unload_property(*names)
         print("")
-- 
2.43.0

