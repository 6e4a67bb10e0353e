From 1c72bf823c6907af5d3d6f69dd238eb17c35cd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 01/79] fix: find derived data from any derivative of a
 datastore, not only the first

---
 defdap/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 4e4bf6e..5c600f4 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -265,8 +265,8 @@ class Datastore(object):
         for derivative in self._derivatives:
             if key in self.lookup_derivative_keys(derivative):
                 break
-            else:
-                raise KeyError(f'Data with name `{key}` does not exist.')
+        else:
+            raise KeyError(f'Data with name `{key}` does not exist.')
         source = derivative['source']
 
         ## TODO: fix derived metadata
-- 
2.43.0


From e2b371453cbbac48a641598b8adc9fb286a37732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 02/79] fix: always reset the visited set after looking up
 derived data

---
 defdap/utils.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 5c600f4..0e09cfc 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -243,23 +243,25 @@ class Datastore(object):
         if Datastore._been_to is None:
             root_call = True
             Datastore._been_to = set()
-        Datastore._been_to.add(self._group_id)
 
-        source = derivative['source']
-        matched_keys = []
-        if source._group_id in Datastore._been_to:
-            return matched_keys
-        for key in source:
-            for meta_key in derivative['in_props']:
-                if source.get_metadata(key, meta_key) != derivative['in_props'][meta_key]:
-                    break
-            else:
-                matched_keys.append(key)
-
-        if root_call:
-            Datastore._been_to = None
+        try:
+            Datastore._been_to.add(self._group_id)
+
+            source = derivative['source']
+            matched_keys = []
+            if source._group_id in Datastore._been_to:
+                return matched_keys
+            for key in source:
+                for meta_key in derivative['in_props']:
+                    if source.get_metadata(key, meta_key) != derivative['in_props'][meta_key]:
+                        break
+                else:
+                    matched_keys.append(key)
 
-        return matched_keys
+            return matched_keys
+        finally:
+            if root_call:
+                Datastore._been_to = None
 
     def _get_derived_item(self, key, attr):
         for derivative in self._derivatives:
-- 
2.43.0


From e2e83ec0a3a840ece865b07252c6b20faf3c7843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 03/79] fix: do not change the other datastore when updating
 with priority self

---
 defdap/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 0e09cfc..aab43dc 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -419,8 +419,7 @@ class Datastore(object):
 
         """
         if priority == 'self':
-            other._store.update(self._store)
-            self._store = other._store
+            self._store = {**other._store, **self._store}
         else:
             self._store.update(other._store)
 
-- 
2.43.0


From 5a4f6fea7c8fdd2ce141c84ed7aed275b385f785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 04/79] fix: image of an empty set of boundary points is all
 False

---
 defdap/ebsd.py  | 3 ++-
 defdap/hrdic.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 56ee7ee..3e6e0f3 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1604,7 +1604,8 @@ class BoundarySet(object):
 
     def _image(self, points):
         image = np.zeros(self.ebsd_map.shape, dtype=bool)
-        image[tuple(zip(*points))[::-1]] = True
+        if points:
+            image[tuple(zip(*points))[::-1]] = True
         return image
 
     @property
diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index edf939c..2df795f 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -897,7 +897,8 @@ class BoundarySet(object):
 
     def _image(self, points):
         image = np.zeros(self.dic_map.shape, dtype=bool)
-        image[tuple(zip(*points))[::-1]] = True
+        if points:
+            image[tuple(zip(*points))[::-1]] = True
         return image
 
     @property
-- 
2.43.0


From 7386ddaba7266854e4adc390ec6445362c041059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 05/79] fix: flood fill stays inside maps that are one pixel
 wide or high

---
 defdap/_accelerated.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/defdap/_accelerated.py b/defdap/_accelerated.py
index dd90896..3a9ca78 100644
--- a/defdap/_accelerated.py
+++ b/defdap/_accelerated.py
@@ -58,12 +58,12 @@ def flood_fill(seed, index, points_remaining, grains, boundary_x, boundary_y,
         # get rid of any that go out of the map area
         if x <= 0:
             moves.pop(1)
-        elif x > grains.shape[1] - 2:
+        if x >= grains.shape[1] - 1:
             moves.pop(0)
+        if y >= grains.shape[0] - 1:
+            moves.pop(-2)
         if y <= 0:
             moves.pop(-1)
-        elif y > grains.shape[0] - 2:
-            moves.pop(-2)
 
         for (s, t) in moves:
             if grains[t, s] > 0:
@@ -137,12 +137,12 @@ def flood_fill_dic(seed, index, points_remaining, grains, added_coords):
         # get rid of any that go out of the map area
         if x <= 0:
             moves.pop(1)
-        elif x >= grains.shape[1] - 1:
+        if x >= grains.shape[1] - 1:
             moves.pop(0)
+        if y >= grains.shape[0] - 1:
+            moves.pop(-2)
         if y <= 0:
             moves.pop(-1)
-        elif y >= grains.shape[0] - 1:
-            moves.pop(-2)
 
         for (s, t) in moves:
             add_point = False
-- 
2.43.0


From cddd773f48ef6c5c973d5adc6ccfefacb6b0a289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 06/79] fix: allow a map to be created from a python dictionary

---
 defdap/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index f4f2401..f11daaa 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -83,8 +83,13 @@ class Map(ABC):
         self.grain_plot = None
         self.profile_plot = None
 
-        self.file_name = Path(file_name)
-        self.load_data(self.file_name, data_type=data_type)
+        if isinstance(file_name, dict):
+            # data already in memory, passed straight to the loader
+            self.file_name = None
+            self.load_data(file_name, data_type=data_type)
+        else:
+            self.file_name = Path(file_name)
+            self.load_data(self.file_name, data_type=data_type)
 
         self.data.add_generator(
             'proxigram', self.calc_proxigram, unit='', type='map', order=0,
-- 
2.43.0


From 2d2a49d56963bffe1e48bfa34dfa9c39e3ce0c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 07/79] fix: finding grains in a map with no grains gives an
 empty list of grains

---
 defdap/ebsd.py  | 19 ++++++++++---------
 defdap/hrdic.py | 19 ++++++++++---------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 3e6e0f3..ce6615a 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -930,15 +930,16 @@ class Map(base.Map):
             grain.phase = self.phases[phase_id]
 
         ## TODO: this will get duplicated if find grains called again
-        self.data.add_derivative(
-            grain_list[0].data, self.grain_data_to_map, pass_ref=True,
-            in_props={
-                'type': 'list'
-            },
-            out_props={
-                'type': 'map'
-            }
-        )
+        if grain_list:
+            self.data.add_derivative(
+                grain_list[0].data, self.grain_data_to_map, pass_ref=True,
+                in_props={
+                    'type': 'list'
+                },
+                out_props={
+                    'type': 'map'
+                }
+            )
 
         self._grains = grain_list
         return grains
diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 2df795f..3031ced 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -689,15 +689,16 @@ class Map(base.Map):
             raise ValueError(f"Unknown grain finding algorithm '{algorithm}'.")
 
         ## TODO: this will get duplicated if find grains called again
-        self.data.add_derivative(
-            grain_list[0].data, self.grain_data_to_map, pass_ref=True,
-            in_props={
-                'type': 'list'
-            },
-            out_props={
-                'type': 'map'
-            }
-        )
+        if grain_list:
+            self.data.add_derivative(
+                grain_list[0].data, self.grain_data_to_map, pass_ref=True,
+                in_props={
+                    'type': 'list'
+                },
+                out_props={
+                    'type': 'map'
+                }
+            )
 
         self._grains = grain_list
         return grains
-- 
2.43.0


From afeb9d2340211c4f53053a48d6a70a7143e4cd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 08/79] fix: rotate the orientations of a map when they were
 already calculated

---
 defdap/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index ce6615a..2fd517d 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -252,7 +252,7 @@ class Map(base.Map):
         self.data.band_contrast = self.data.band_contrast[::-1, ::-1]
         self.data.band_slope = self.data.band_slope[::-1, ::-1]
         self.data.phase = self.data.phase[::-1, ::-1]
-        self.calc_quat_array()
+        self.data.generate('orientation')
 
         # Rotation from old coord system to new
         transform_quat = Quat.from_axis_angle(np.array([0, 0, 1]), np.pi).conjugate
-- 
2.43.0


From 9973da9a9b1726d72e89e2280b281d37b8aec628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 09/79] fix: do not change the list of colours passed to
 highlight grains

---
 defdap/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index d490bfd..0a5450c 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -533,8 +533,9 @@ class MapPlot(Plot):
 
         # Custom colour map where 0 is transparent white for bg and
         # then a patch for each grain colour
-        grain_colours.insert(0, 'white')
-        highlightsCmap = mpl.colors.ListedColormap(grain_colours)
+        highlightsCmap = mpl.colors.ListedColormap(
+            ['white'] + list(grain_colours)
+        )
         highlightsCmap._init()
         alphaMap = np.full(highlightsCmap.N + 3, alpha)
         alphaMap[0] = 0
-- 
2.43.0


From 83990901e987fd7f52c050cca005f5646e488acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 10/79] fix: highlight each grain in its own colour when not
 all colours are used

---
 defdap/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 0a5450c..9b8036b 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -543,7 +543,8 @@ class MapPlot(Plot):
 
         if self.highlights_layer_id is None or new_layer:
             img = self.ax.imshow(outline, interpolation='none',
-                                 cmap=highlightsCmap)
+                                 cmap=highlightsCmap,
+                                 vmin=0, vmax=highlightsCmap.N - 1)
             if self.highlights_layer_id is None:
                 self.highlights_layer_id = len(self.img_layers)
             self.img_layers.append(img)
@@ -551,7 +552,7 @@ class MapPlot(Plot):
             img = self.img_layers[self.highlights_layer_id]
             img.set_data(outline)
             img.set_cmap(highlightsCmap)
-            img.autoscale()
+            img.set_clim(0, highlightsCmap.N - 1)
 
         self.draw()
 
-- 
2.43.0


From 10bcdef7a273c0bd2eca26fecbfb44e96f75aa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 11/79] fix: use the boundaries of the newly linked EBSD map
 when linking again

---
 defdap/hrdic.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 3031ced..2e3e0e9 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -395,14 +395,27 @@ class Map(base.Map):
         self.experiment.link_frames(self.frame, ebsd_map.frame, kwargs)
         self.data.add_derivative(
             self.ebsd_map.data,
-            lambda boundaries: BoundarySet.from_ebsd_boundaries(
-                self, boundaries
-            ),
+            self.warp_ebsd_boundaries,
             in_props={
                 'type': 'boundaries'
             }
         )
 
+    def warp_ebsd_boundaries(self, boundaries):
+        """Warp boundaries of the linked EBSD map to the DIC frame.
+
+        Parameters
+        ----------
+        boundaries : defdap.ebsd.BoundarySet
+            Boundaries to warp.
+
+        Returns
+        ----------
+        defdap.hrdic.BoundarySet
+
+        """
+        return BoundarySet.from_ebsd_boundaries(self, boundaries)
+
     def check_ebsd_linked(self):
         """Check if an EBSD map has been linked.
 
-- 
2.43.0


From 9c5636a91d19cc6f07f0ca4b0ab660c9e0ae8964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 12/79] fix: proxigram property of a map returns the proxigram

---
 defdap/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index f11daaa..f958239 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -394,7 +394,7 @@ class Map(ABC):
             Distance from a grain boundary at each point in map.
 
         """
-        self.calc_proxigram(force_calc=False)
+        self.proxigram_arr = self.data.proxigram
 
         return self.proxigram_arr
 
-- 
2.43.0


From 35191d1db4cf31888dca419dee8b9cb8b56f9a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 13/79] fix: outline of a grain is nan outside of the grain by
 default

---
 defdap/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index f958239..eba11c1 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -878,7 +878,8 @@ class Grain(ABC):
         x0, y0, xmax, ymax = self.extreme_coords
 
         # initialise array with nans so area not in grain displays white
-        outline = np.full((ymax - y0 + 1, xmax - x0 + 1), bg, dtype=int)
+        outline = np.full((ymax - y0 + 1, xmax - x0 + 1), bg,
+                          dtype=np.result_type(bg, fg))
 
         for coord in self.data.point:
             outline[coord[1] - y0, coord[0] - x0] = fg
-- 
2.43.0


From e5050cfd6cc3b68d3fea282126d37c1900ea3d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 14/79] fix: keep the x and y derivatives apart when
 calculating the Nye tensor

---
 defdap/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 2fd517d..818f77e 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -510,7 +510,7 @@ class Map(base.Map):
 
         # calculate relative elastic distortion tensors at each point in the two directions
         betaderx = np.zeros((3, 3) + self.shape)
-        betadery = betaderx
+        betadery = np.zeros_like(betaderx)
         for i in range(self.x_dim - 1):
             for j in range(self.y_dim - 1):
                 q0x = Quat(quat_comps[0, 0, j, i], quat_comps[0, 1, j, i],
-- 
2.43.0


From 6859eea1219ff6e47d2a2a9daa308bfefb40529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 15/79] fix: average orientations on the same side of the
 quaternion sphere

---
 defdap/quat.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/defdap/quat.py b/defdap/quat.py
index d3a8d00..b5a8446 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -757,8 +757,12 @@ class Quat(object):
             ))
 
             # find min misorientation with current average then add to it
+            # (q and -q are the same orientation so use the closest)
             max_idx = np.argmax(curr_mis_oris[:])
-            av_ori += quat_comps[max_idx, :, i]
+            if np.dot(quat_comps[max_idx, :, i], av_ori) < 0:
+                av_ori -= quat_comps[max_idx, :, i]
+            else:
+                av_ori += quat_comps[max_idx, :, i]
 
         # Convert components back to a quat and normalise
         av_ori = Quat(av_ori)
-- 
2.43.0


From 52677dcd51d9ff055cfafea37997a464d563cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 16/79] fix: average on the same side of the quaternion sphere
 when filtering a map

---
 defdap/ebsd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 818f77e..aee277c 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -640,10 +640,10 @@ class Map(base.Map):
                 ]
                 quats = quadrants[min_mis_ori_quadrant[i, j]]
 
-                mis_oris_quad = np.abs(
-                    np.einsum("ijk,i->jk", quats, ref_quat)
-                )
-                quats = quats[:, mis_oris_quad > misori_tol]
+                dot_quad = np.einsum("ijk,i->jk", quats, ref_quat)
+                # q and -q are the same orientation so use the closest
+                quats = np.where(dot_quad < 0, -quats, quats)
+                quats = quats[:, np.abs(dot_quad) > misori_tol]
 
                 avOri = np.einsum("ij->i", quats)
                 # avOri /= np.sqrt(np.dot(avOri, avOri))
-- 
2.43.0


From 318e762a85edfceabf232c00e118deeb6158b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 17/79] fix: columns read from an EDAX ang file match the data
 format

---
 defdap/file_readers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 74eb1bc..7bb68a4 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -301,7 +301,7 @@ class EdaxAngLoader(EBSDDataLoader):
             # ('SE_signal', 'float32'),
             ('FF', 'float32'),
         ])
-        load_cols = (0, 1, 2, 5, 6, 7, 8, 9)
+        load_cols = (0, 1, 2, 5, 6, 7, 9)
 
         # now read the data from file
         data = np.loadtxt(
-- 
2.43.0


From 89d5c7867806175818753b5c871e061b670ec16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 18/79] fix: keep reading the fields after an unknown field of
 an Oxford binary file

---
 defdap/file_readers.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 7bb68a4..d0610e6 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -492,15 +492,17 @@ class OxfordBinaryLoader(EBSDDataLoader):
             12: ('IB6', 'float32')  # ?
         }
         field_lookup.update(edx_fields)
-        try:
-            for i in range(int(metadata['Fields']['Count'])):
-                field_id = int(metadata['Fields']['Field{:}'.format(i + 1)])
+        for i in range(int(metadata['Fields']['Count'])):
+            field_id = int(metadata['Fields']['Field{:}'.format(i + 1)])
+            try:
                 data_format.append(field_lookup[field_id])
-        except KeyError:
-            print(f'\nUnknown field in file with key {field_id}. '
-                  f'Assuming float32 data.')
-            unknown_field_count += 1
-            data_format.append((f'unknown_{unknown_field_count}', 'float32'))
+            except KeyError:
+                print(f'\nUnknown field in file with key {field_id}. '
+                      f'Assuming float32 data.')
+                unknown_field_count += 1
+                data_format.append(
+                    (f'unknown_{unknown_field_count}', 'float32')
+                )
 
         self.data_format = np.dtype(data_format)
 
-- 
2.43.0


From b03e2281faa66e896f01c3097fd2854e9b341d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 19/79] fix: only flip OpenPIV data if y is descending

---
 defdap/file_readers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index d0610e6..f4ff5f7 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -791,8 +791,9 @@ class OpenPivTextLoader(DICDataLoader):
         self.checkMetadata()
         
         # if y descending, flip
-        if np.all(np.diff(data[:, col['y']].reshape(shape)[:,0])) > 0:
-            data = data.reshape(shape + (-1,))[::-1].transpose((2, 0, 1))
+        data = data.reshape(shape + (-1,)).transpose((2, 0, 1))
+        if np.all(np.diff(data[col['y'], :, 0]) < 0):
+            data = data[:, ::-1]
 
         self.loaded_data.coordinate = data[[col['x'], col['y']]]
         self.loaded_data.displacement = data[[col['u'], col['v']]]
@@ -825,7 +826,7 @@ class OpenPivBinaryLoader(DICDataLoader):
         self.checkMetadata()
         
         # if y descending, flip
-        if np.all(np.diff(data['y'][:,0])) > 0:
+        if np.all(np.diff(data['y'][:,0]) < 0):
             self.loaded_data.coordinate = np.array([data['x'][::-1], data['y'][::-1]])
             self.loaded_data.displacement = np.array([data['u'][::-1], data['v'][::-1]])
         else:
-- 
2.43.0


From 5084e2ebb2b0a3f838814036fc68074faee86a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 20/79] fix: write the space group of phases to ctf files

---
 defdap/file_writers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/file_writers.py b/defdap/file_writers.py
index d7c85a6..4ed5093 100644
--- a/defdap/file_writers.py
+++ b/defdap/file_writers.py
@@ -107,7 +107,7 @@ class OxfordTextWriter(EBSDDataWriter):
                 angles = "{:.3f};{:.3f};{:.3f}".format(*angles)
 
                 ctf_file.write(f"{dims}\t{angles}\t{phase.name}"
-                               f"\t{phase.laue_group}\t0\t\t\t\n")
+                               f"\t{phase.laue_group}\t{phase.spaceGroup or 0}\t\t\t\n")
 
             ctf_file.write("Phase\tX\tY\tBands\tError\tEuler1\tEuler2"
                            "\tEuler3\tMAD\tBC\tBS\n")
-- 
2.43.0


From 30ce4c33fb47d7ed66e336c59ca17ead9d675acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 21/79] fix: do not overflow large crystal indices

---
 defdap/crystal_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/crystal_utils.py b/defdap/crystal_utils.py
index 18018b5..c287bad 100644
--- a/defdap/crystal_utils.py
+++ b/defdap/crystal_utils.py
@@ -335,7 +335,7 @@ def reduce_idc(vec):
         The reduced indices.
 
     """
-    return tuple((np.array(vec) / np.gcd.reduce(vec)).astype(np.int8))
+    return tuple((np.array(vec) / np.gcd.reduce(vec)).astype(int))
 
 
 def safe_int_cast(vec, tol=1e-3):
@@ -366,7 +366,7 @@ def safe_int_cast(vec, tol=1e-3):
     if np.any(np.abs(vec - vec_rounded) > tol):
         raise ValueError('Rounding too large', np.abs(vec - vec_rounded))
 
-    return tuple(vec_rounded.astype(np.int8))
+    return tuple(vec_rounded.astype(int))
 
 
 def idc_to_string(idc, brackets=None, str_type='unicode'):
-- 
2.43.0


From c8e35d2caa3e03e100aa96572ec1b3d1ea23413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 22/79] fix: guess the linked grain in the other maps when
 clicking the first map

---
 defdap/ebsd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index aee277c..1527110 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1858,7 +1858,7 @@ class Linker(object):
         if event.inaxes is not plot.ax:
             return
 
-        curr_ebsd_map = plot.callingMap
+        curr_ebsd_map = plot.calling_map
 
         if curr_ebsd_map is self.ebsd_maps[0]:
             # clicked on 'master' map so highlight and guess grain on others
@@ -1880,7 +1880,9 @@ class Linker(object):
                 y = int((event.ydata - y0m) * scaling + y0)
 
                 grain_id = int(ebsd_map.data.grains[y, x]) - 1
-                grain = self[grain_id]
+                if grain_id < 0:
+                    continue
+                grain = ebsd_map[grain_id]
                 ebsd_map.sel_grain = grain
                 print(grain_id)
 
-- 
2.43.0


From 8eb644feea6c840c5d437458a9d6a19e8186b6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 23/79] fix: draw the slip bands of grouped lines in the grain
 inspector

---
 defdap/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 8a77a39..d706990 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -331,7 +331,7 @@ class GrainInspector:
         # Draw slip bands
         bands = [elem[1] for elem in self.selected_dic_grain.groups_list]
         if self.selected_dic_grain.groups_list != None:
-            slipPlot.add_slip_bands(top_only=True, angles=list(np.deg2rad(bands)))
+            slipPlot.add_traces(list(np.deg2rad(bands)), ['black'], top_only=True)
 
     def run_rdr_group(self,
                       event: int,
-- 
2.43.0


From ac407f2f3da4a2d317a28da71d1bf7c6479f24b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 24/79] fix: lines saved by the grain inspector can be loaded
 again

---
 defdap/inspector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index d706990..e7d40af 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -195,7 +195,7 @@ class GrainInspector:
                 else:  # If there is more that one angle
                     if np.any(np.abs(np.array([x[1] for x in grain.groups_list]) - angle) < 10):
                         # If within +- 5 degrees of existing group, set that as the group
-                        group = np.argmin(np.abs(np.array([x[1] for x in grain.groups_list]) - angle))
+                        group = int(np.argmin(np.abs(np.array([x[1] for x in grain.groups_list]) - angle)))
                         grain.points_list[i][2] = group
                         new_average = float('{0:.2f}'.format(
                             np.average([x[1] for x in grain.points_list if x[2] == group])))
@@ -430,7 +430,7 @@ class GrainInspector:
         lin_reg_result = linregress(x=np.array(v_list).flatten(), y=np.array(u_list).flatten())
 
         # Save measured RDR
-        grain.groups_list[group][4] = lin_reg_result.slope
+        grain.groups_list[group][4] = float(lin_reg_result.slope)
 
         if show_plot:
             self.plot_rdr(grain, group, u_list, v_list, x_list, y_list, lin_reg_result)
-- 
2.43.0


From 680c1ae009ed0942ed4fb3223dfc3094094d1102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 25/79] fix: slip trace analysis of all grains gives the
 orientation of each grain

---
 defdap/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index e7d40af..ba58347 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -364,7 +364,7 @@ class GrainInspector:
             if grain.points_list != []:
                 for group in grain.groups_list:
                     maxSF = np.max([item for sublist in grain.ebsd_grain.average_schmid_factors for item in sublist])
-                    eulers = self.selected_ebsd_grain.ref_ori.euler_angles() * 180 / np.pi
+                    eulers = grain.ebsd_grain.ref_ori.euler_angles() * 180 / np.pi
                     text = '{0}\t{1:.1f}\t{2:.1f}\t{3:.1f}\t{4:.3f}\t'.format(
                         idx, eulers[0], eulers[1], eulers[2], maxSF)
                     text += '{0}\t{1:.1f}\t{2}\t{3}\t{4:.2f}'.format(
-- 
2.43.0


From 9b504780847f08ad20dcf30de11d3fd1ecaae52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 26/79] fix: keep an own list of homologous points in a frame

---
 defdap/experiment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index 5642aa0..3fc5828 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -182,7 +182,7 @@ class Frame(object):
         points : numpy.ndarray, optional
             Array of (x,y) homologous points to set explicitly.
         """
-        self.homog_points = points
+        self.homog_points = [tuple(point) for point in points]
 
     def set_homog_point(self, map_obj, map_name=None, **kwargs):
         """
-- 
2.43.0


From 1ca5c3f94032e6987c0dcd2cf0f98f8840e7f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 27/79] fix: place warped points correctly when a map is not
 square

---
 defdap/experiment.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index 3fc5828..ec953f8 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -98,10 +98,11 @@ class Experiment(object):
         if not crop and isinstance(transform, tf.AffineTransform):
             # copy transform and change translation to give an extra
             # 5% border to show the entire image after rotation/shearing
+            # (transforms act on (x, y) coordinates, shapes are (y, x))
             input_shape = np.array(map_data.shape)
             transform = tf.AffineTransform(matrix=np.copy(transform.params))
-            transform.params[0:2, 2] = -0.05 * input_shape
-            output_shape = input_shape * 1.4 / transform.scale
+            transform.params[0:2, 2] = -0.05 * input_shape[::-1]
+            output_shape = input_shape * 1.4 / transform.scale[::-1]
             kwargs['output_shape'] = output_shape.astype(int)
 
         return tf.warp(map_data, transform, **kwargs)
@@ -144,7 +145,7 @@ class Experiment(object):
             # the crop is defined in EBSD coords so need to transform it
             crop = np.matmul(
                 np.linalg.inv(transform.params[0:2, 0:2]),
-                transform.params[0:2, 2] + 0.05*input_shape
+                transform.params[0:2, 2] + 0.05*input_shape[::-1]
             )
             crop = crop.round().astype(int)
             points_img = points_img[crop[1]:crop[1] + kwargs['output_shape'][0],
-- 
2.43.0


From 7e585217fbd5ca516cfacc2327706a069212bb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 28/79] fix: keep warped points when the map they are warped to
 starts outside

---
 defdap/experiment.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index ec953f8..2edfb3e 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -148,6 +148,10 @@ class Experiment(object):
                 transform.params[0:2, 2] + 0.05*input_shape[::-1]
             )
             crop = crop.round().astype(int)
+            # add empty points where the crop starts outside of the image
+            pad = np.maximum(-crop, 0)
+            points_img = np.pad(points_img, ((pad[1], 0), (pad[0], 0)))
+            crop = crop + pad
             points_img = points_img[crop[1]:crop[1] + kwargs['output_shape'][0],
                                     crop[0]:crop[0] + kwargs['output_shape'][1]]
 
-- 
2.43.0


From 6770c2e6c12ca7f481aa842a3c3a6c2bf4c25cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 29/79] fix: finding grains in a map where no point can be in a
 grain

---
 defdap/ebsd.py  | 2 +-
 defdap/hrdic.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 1527110..bf04718 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -871,8 +871,8 @@ class Map(base.Map):
         # List of points where no grain has be set yet
         points_left = self.data.phase != 0
         total_points = points_left.sum()
-        found_point = 0
         next_point = points_left.tobytes().find(b'\x01')
+        found_point = next_point
 
         # Start counter for grains
         grain_index = 1
diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 2e3e0e9..bc53efd 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -641,8 +641,8 @@ class Map(base.Map):
             points_left = grains == 0
             coords_buffer = np.zeros((points_left.size, 2), dtype=np.intp)
             total_points = points_left.sum()
-            found_point = 0
             next_point = points_left.tobytes().find(b'\x01')
+            found_point = next_point
 
             # Start counter for grains
             grain_index = 1
-- 
2.43.0


From c71f1966fc8d30a6ba11eee8ec942f21939ef29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 30/79] fix: only link HRDIC grains to EBSD grains, not to
 points outside of grains

---
 defdap/hrdic.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index bc53efd..687f5d0 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -14,6 +14,7 @@
 # limitations under the License.
 
 from pathlib import Path
+from warnings import warn
 
 import numpy as np
 from matplotlib.pyplot import imread
@@ -690,11 +691,15 @@ class Map(base.Map):
             for i, grain in enumerate(grain_list):
                 # Find grain by masking the native ebsd grain image with
                 # selected grain from the warped dic grain image. The modal
-                # value is the EBSD grain label.
-                mode_id, _ = mode(
-                    self.ebsd_map.data.grains[warped_dic_grains == i+1],
-                    keepdims=False
-                )
+                # value is the EBSD grain label. Points that are not in an
+                # EBSD grain are not considered.
+                ebsd_ids = self.ebsd_map.data.grains[warped_dic_grains == i+1]
+                ebsd_ids = ebsd_ids[ebsd_ids > 0]
+                if len(ebsd_ids) == 0:
+                    warn(f"Grain {grain.grain_id} could not be linked to an "
+                         f"EBSD grain.")
+                    continue
+                mode_id, _ = mode(ebsd_ids, keepdims=False)
                 grain.ebsd_grain = self.ebsd_map[mode_id - 1]
                 grain.ebsd_map = self.ebsd_map
 
-- 
2.43.0


From 7d4ed0b0a8140fd5efffe59ec53b933ceaff265f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 31/79] fix: link maps using transform type piecewiseAffine as
 documented

---
 defdap/experiment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index 2edfb3e..2dfa2e7 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -44,6 +44,7 @@ class Experiment(object):
     def get_frame_transform(self, frame_1, frame_2):
         transform_lookup = {
             'piecewise_affine': tf.PiecewiseAffineTransform,
+            'piecewiseaffine': tf.PiecewiseAffineTransform,
             'projective': tf.ProjectiveTransform,
             'polynomial': tf.PolynomialTransform,
             'affine': tf.AffineTransform,
-- 
2.43.0


From 16370467786687fd49f78db25fa51c5611fd6c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 32/79] fix: find the fundamental direction of poles on the
 edges and corners of the triangle

---
 defdap/quat.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/defdap/quat.py b/defdap/quat.py
index b5a8446..40aabe1 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -1039,8 +1039,14 @@ class Quat(object):
             'ijk,ijk->jk', direction_crystal, direction_crystal
         ))
 
+        # tolerance for directions on the edge of the hemisphere or sector
+        tol = 1000 * np.finfo(dtype).eps
+
         # move all vectors into north hemisphere
-        direction_crystal[:, direction_crystal[2, :, :] < 0] *= -1
+        x, y, z = direction_crystal
+        direction_crystal[
+            :, (z < -tol) | ((z <= tol) & (y < 0))
+        ] *= -1
 
         # convert to spherical coordinates
         alpha, beta = Quat.polar_angles(
@@ -1049,29 +1055,30 @@ class Quat(object):
 
         # find the poles in the fundamental triangle
         if sym_group == "cubic":
-            beta_range = (np.pi / 2, 3/4 * np.pi, 3)
+            beta_range = (np.pi / 2, 3/4 * np.pi)
 
         elif sym_group == "hexagonal":
             if triangle is None:
                 triangle = defaults['ipf_triangle_convention']
 
             if triangle == 'up':
-                beta_range = (np.pi / 2, 2/3 * np.pi, 1)
+                beta_range = (np.pi / 2, 2/3 * np.pi)
             elif triangle == 'down':
-                beta_range = (1/3 * np.pi, np.pi / 2, 1)
+                beta_range = (1/3 * np.pi, np.pi / 2)
             else:
                 ValueError("`triangle` must be 'up' or 'down'")
         else:
             raise ValueError("sym_group must be cubic or hexagonal")
         
-        trial_poles = np.logical_and(beta >= beta_range[0], beta <= beta_range[1])
-        # expand search slightly to catch edge cases if needed
-        if np.any(np.sum(trial_poles, axis=0) < beta_range[2]):
-            delta_beta = 1e-8
-            trial_poles = np.logical_and(
-                beta >= beta_range[0] - delta_beta,
-                beta <= beta_range[1] + delta_beta
-            )
+        # distance from the sides of the sector is used, because the
+        # azimuthal angle is not defined for a pole at its corner
+        x, y, z = direction_crystal
+        trial_poles = np.logical_and(
+            y * np.cos(beta_range[0]) - x * np.sin(beta_range[0]) >= -tol,
+            x * np.sin(beta_range[1]) - y * np.cos(beta_range[1]) >= -tol
+        )
+        alpha = np.minimum(alpha, np.pi / 2)
+        beta = np.clip(beta, *beta_range)
 
         if sym_group == "cubic":
             # now of symmetric equivalents left we want the one with
-- 
2.43.0


From 2a8e357003fa148e5ec25493e2208a8b98717fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 33/79] fix: correct planes of bcc {123} slip systems that do
 not hold the slip direction

---
 defdap/slip_systems/cubic_bcc.txt | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/defdap/slip_systems/cubic_bcc.txt b/defdap/slip_systems/cubic_bcc.txt
index a852e6d..c48512d 100644
--- a/defdap/slip_systems/cubic_bcc.txt
+++ b/defdap/slip_systems/cubic_bcc.txt
@@ -26,25 +26,25 @@ green,green,green,green,red,red,red,red,blue,blue,blue,blue
 1	-1	2	-1	1	1
 1	2	3	1	1	-1
 2	1	3	1	1	-1
-3	2	1	1	1	-1
-2	3	1	1	1	-1
+3	-2	1	1	1	-1
+-2	3	1	1	1	-1
 -1	3	2	1	1	-1
 3	-1	2	1	1	-1
 1	3	2	1	-1	1
 2	3	1	1	-1	1
-3	1	2	1	-1	1
-2	1	3	1	-1	1
+3	1	-2	1	-1	1
+-2	1	3	1	-1	1
 -1	2	3	1	-1	1
 3	2	-1	1	-1	1
 3	1	2	-1	1	1
 3	2	1	-1	1	1
-1 	2 	3	-1	1	1
-1	3	2	-1	1	1
+1	-2	3	-1	1	1
+1	3	-2	-1	1	1
 2	-1	3	-1	1	1
 2	3	-1	-1	1	1
-1	2	3	1	1	1
-1	3	2	1	1	1
-3	1	2	1	1	1
-2	1	3	1	1 	1
-2	3	1 	1	1	1
-3	1	2	1	1	1
\ No newline at end of file
+1	2	-3	1	1	1
+1	-3	2	1	1	1
+-3	1	2	1	1	1
+2	1	-3	1	1	1
+2	-3	1	1	1	1
+-3	2	1	1	1	1
\ No newline at end of file
-- 
2.43.0


From 0c78750e82b95a0efb4bee68546b8566e7a0c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 34/79] fix: list a colour for each slip plane of bcc, so that
 all are printed

---
 defdap/slip_systems/cubic_bcc.txt         | 2 +-
 defdap/slip_systems/cubic_bcc_110only.txt | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/slip_systems/cubic_bcc.txt b/defdap/slip_systems/cubic_bcc.txt
index c48512d..544b8e1 100644
--- a/defdap/slip_systems/cubic_bcc.txt
+++ b/defdap/slip_systems/cubic_bcc.txt
@@ -1,5 +1,5 @@
 # Plane normal then slip direction
-green,green,green,green,red,red,red,red,blue,blue,blue,blue
+green,green,green,green,green,green,red,red,red,red,red,red,red,red,red,red,red,red,blue,blue,blue,blue,blue,blue,blue,blue,blue,blue,blue,blue,blue,blue,blue,blue,blue,blue,blue,blue,blue,blue,blue,blue
 0	1	-1	1	1	1
 -1	0	1	1	1	1
 1	-1	0	1	1	1
diff --git a/defdap/slip_systems/cubic_bcc_110only.txt b/defdap/slip_systems/cubic_bcc_110only.txt
index d2e62b6..3ed2532 100644
--- a/defdap/slip_systems/cubic_bcc_110only.txt
+++ b/defdap/slip_systems/cubic_bcc_110only.txt
@@ -1,5 +1,5 @@
 # Plane normal then slip direction
-green,green,green,green
+green,green,green,green,green,green
 0	1	-1	1	1	1
 -1	0	1	1	1	1
 1	-1	0	1	1	1
-- 
2.43.0


From 47d11e6952e65130a7cb1e9c6f9a962222ef3090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 35/79] fix: load slip system files with a single slip system

---
 defdap/crystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/crystal.py b/defdap/crystal.py
index b38c418..4e6662a 100755
--- a/defdap/crystal.py
+++ b/defdap/crystal.py
@@ -421,7 +421,7 @@ class SlipSystem(object):
             vect_size = 3
 
         ss_data = np.loadtxt(filepath, delimiter='\t', skiprows=2,
-                            dtype=np.int8)
+                            dtype=np.int8, ndmin=2)
         if ss_data.shape[1] != 2 * vect_size:
             raise IOError("Slip system file not valid")
 
-- 
2.43.0


From aa25a8f04979be15b6f792e7e4fbc579f5640777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 36/79] fix: calculate Schmid factors for load vectors that are
 not unit vectors

---
 defdap/ebsd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index bf04718..7aaf57f 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1456,7 +1456,8 @@ class Grain(base.Grain):
         # orientation of grain
         grain_av_ori = self.ref_ori
 
-        # Transform the load vector into crystal coordinates
+        # Transform the (normalised) load vector into crystal coordinates
+        load_vector = np.array(load_vector) / np.linalg.norm(load_vector)
         load_vector_crystal = grain_av_ori.transform_vector(load_vector)
 
         self.average_schmid_factors = []
-- 
2.43.0


From b40cd3e9d4de366426889f4ccb5551f40cff4e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 37/79] fix: inclination of slip planes parallel to the surface

---
 defdap/ebsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 7aaf57f..5b27337 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1552,7 +1552,9 @@ class Grain(base.Grain):
             intersection_crystal = np.cross(screen_plane_norm_crystal, slip_plane_norm)
 
             # Calculate angle between slip plane and screen plane
-            inclination = np.arccos(np.dot(screen_plane_norm_crystal, slip_plane_norm))
+            inclination = np.arccos(np.clip(
+                np.dot(screen_plane_norm_crystal, slip_plane_norm), -1, 1
+            ))
             if inclination > np.pi / 2:
                 inclination = np.pi - inclination
             # print("{} inclination: {:.1f}".format(planeLabel, inclination * 180 / np.pi))
-- 
2.43.0


From ca2c732cd7fa764bdedc816348839ccaca5f1913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 38/79] fix: filter maps that are smaller than the filter
 window

---
 defdap/ebsd.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 5b27337..233ee8d 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -659,8 +659,6 @@ class Map(base.Map):
 
         self.data.orientation = quat_array_new
 
-        return quats
-
     @report_progress("finding grain boundaries")
     def find_boundaries(self, misori_tol=10):
         """Find grain and phase boundaries
-- 
2.43.0


From bbea9e8767a07ceac947f4feab55fa642d7b4fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:52 +0000
Subject: [PATCH 39/79] fix: only read the header fields of ctf files from
 their own lines

---
 defdap/file_readers.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index f4ff5f7..a6962a7 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -132,19 +132,19 @@ class OxfordTextLoader(EBSDDataLoader):
         acq_eulers = [0., 0., 0.]
         with open(str(file_name), 'r') as ctf_file:
             for i, line in enumerate(ctf_file):
-                if 'XCells' in line:
+                if line.startswith('XCells'):
                     x_dim = int(line.split()[-1])
-                elif 'YCells' in line:
+                elif line.startswith('YCells'):
                     y_dim = int(line.split()[-1])
-                elif 'XStep' in line:
+                elif line.startswith('XStep'):
                     self.loaded_metadata['step_size'] = float(line.split()[-1])
-                elif 'AcqE1' in line:
+                elif line.startswith('AcqE1'):
                     acq_eulers[0] = float(line.split()[-1])
-                elif 'AcqE2' in line:
+                elif line.startswith('AcqE2'):
                     acq_eulers[1] = float(line.split()[-1])
-                elif 'AcqE3' in line:
+                elif line.startswith('AcqE3'):
                     acq_eulers[2] = float(line.split()[-1])
-                elif 'Phases' in line:
+                elif line.startswith('Phases'):
                     num_phases = int(line.split()[-1])
                     self.loaded_data['phase', 'plot_params']['vmax'] = num_phases
                     for j in range(num_phases):
-- 
2.43.0


From 1904101207664323ac8276b4ad8e39f1d02965e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:52 +0000
Subject: [PATCH 40/79] fix: read the whole name of phases with several words
 from ang files

---
 defdap/file_readers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index a6962a7..fb8f824 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -351,7 +351,7 @@ class EdaxAngLoader(EBSDDataLoader):
             line = line.split()
 
             if line[0] == 'MaterialName':
-                name = line[1]
+                name = ' '.join(line[1:])
             if line[0] == 'Symmetry':
                 point_group = line[1]
                 if point_group in ('43', 'm3m'):
-- 
2.43.0


From 3ae33a57489b14a9e667270b755c957bda931a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:01 +0000
Subject: [PATCH 41/79] fix: load Oxford binary files with a dot in their name

---
 defdap/file_readers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index fb8f824..730d785 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -402,6 +402,9 @@ class OxfordBinaryLoader(EBSDDataLoader):
         """
         comment_char = ';'
 
+        if file_name.suffix.lower() not in ('.cpr', '.crc'):
+            # extension not given, so any dot is part of the name
+            file_name = file_name.with_name(file_name.name + '.cpr')
         file_name = file_name.with_suffix('.cpr')
         if not file_name.is_file():
             raise FileNotFoundError("Cannot open file {}".format(file_name))
@@ -517,6 +520,9 @@ class OxfordBinaryLoader(EBSDDataLoader):
         """
         shape = self.loaded_metadata['shape']
 
+        if file_name.suffix.lower() not in ('.cpr', '.crc'):
+            # extension not given, so any dot is part of the name
+            file_name = file_name.with_name(file_name.name + '.crc')
         file_name = file_name.with_suffix('.crc')
         if not file_name.is_file():
             raise FileNotFoundError("Cannot open file {}".format(file_name))
-- 
2.43.0


From baba0e38fb448d2f148c473d0cfc1fa561eec120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 42/79] fix: refuse PyVale data with points between those of
 the grid

---
 defdap/file_readers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 730d785..91da183 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -895,7 +895,7 @@ class PyValeLoader(DICDataLoader):
         yx_min = yx_array.min(axis=0)
         yx_max = yx_array.max(axis=0)
         shape = yx_max - yx_min
-        assert np.allclose(shape % binning, 0.)
+        assert np.all((yx_array - yx_min) % binning == 0)
         shape = tuple((shape // binning + 1).tolist())
         self.loaded_metadata['shape'] = shape
 
-- 
2.43.0


From 3d69fa56acf7a4647fc1c1fadbc06e784b4b4d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 43/79] fix: average map data over a single grain given by its
 ID

---
 defdap/base.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index eba11c1..796046d 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -610,8 +610,11 @@ class Map(ABC):
             Array containing the grain average values.
 
         """
-        if type(grain_ids) is int and grain_ids == -1:
-            grain_ids = range(len(self))
+        if type(grain_ids) is int:
+            if grain_ids == -1:
+                grain_ids = range(len(self))
+            else:
+                grain_ids = [grain_ids]
 
         grain_average_data = np.zeros(len(grain_ids))
 
@@ -756,8 +759,11 @@ class Map(ABC):
             else:
                 grain_data = self.calc_grain_average(map_data, grain_ids=grain_ids)
 
-        if type(grain_ids) is int and grain_ids == -1:
-            grain_ids = range(len(self))
+        if type(grain_ids) is int:
+            if grain_ids == -1:
+                grain_ids = range(len(self))
+            else:
+                grain_ids = [grain_ids]
 
         if len(grain_data) != len(grain_ids):
             raise Exception("Must be 1 value for each grain in grain_data.")
-- 
2.43.0


From 8dd26a6df601f4cad769be2d994f4a3405343e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 44/79] fix: fill grain maps of integer data with a background
 that is not an integer

---
 defdap/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index 796046d..db827ba 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -671,7 +671,8 @@ class Map(ABC):
             raise ValueError("The grain data supplied must be either a"
                              "single value or RGB values per grain.")
 
-        grain_map = np.full(mapShape, bg, dtype=grain_data.dtype)
+        grain_map = np.full(mapShape, bg,
+                            dtype=np.result_type(grain_data, bg))
         for grainId, grain_value in zip(grain_ids, grain_data):
             for point in self[grainId].data.point:
                 grain_map[point[1], point[0]] = grain_value
@@ -968,7 +969,8 @@ class Grain(ABC):
             map_shape = map_shape + grain_data.shape[1:]
         
         # Create output array with appropriate dtype
-        grain_map_data = np.full(map_shape, bg, dtype=grain_data.dtype)
+        grain_map_data = np.full(map_shape, bg,
+                                 dtype=np.result_type(grain_data, bg))
 
         for coord, data in zip(self.data.point, grain_data):
             grain_map_data[coord[1] - y0, coord[0] - x0] = data
-- 
2.43.0


From 2194f700addd4aa8831d7b88e77eea593fc892dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 45/79] fix: select the grain of the pixel under the cursor,
 and none outside of the map

---
 defdap/base.py | 14 ++++++++++++--
 defdap/ebsd.py |  6 +++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index db827ba..f6f4ac4 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -184,6 +184,16 @@ class Map(ABC):
 
         return plot
 
+    def _grain_id_at(self, x, y):
+        """ID of the grain at a position in the map, negative if there is
+        no grain. Pixels are centred at integer positions.
+
+        """
+        x, y = int(np.floor(x + 0.5)), int(np.floor(y + 0.5))
+        if not (0 <= x < self.x_dim and 0 <= y < self.y_dim):
+            return -1
+        return int(self.data.grains[y, x]) - 1
+
     def click_grain_id(self, event, plot, display_grain):
         """Event handler to capture clicking on a map.
 
@@ -202,7 +212,7 @@ class Map(ABC):
             return
 
         # grain id of selected grain
-        grain_id = self.data.grains[int(event.ydata), int(event.xdata)] - 1
+        grain_id = self._grain_id_at(event.xdata, event.ydata)
         if grain_id < 0:
             return
         grain = self[grain_id]
@@ -354,7 +364,7 @@ class Map(ABC):
             return
 
         # grain id of selected grain
-        grain_id = self.data.grains[int(event.ydata), int(event.xdata)] - 1
+        grain_id = self._grain_id_at(event.xdata, event.ydata)
         if grain_id < 0:
             return
         grain = self[grain_id]
diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 233ee8d..d2496f6 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1877,10 +1877,10 @@ class Linker(object):
                 y0 = ebsd_map.origin[1]
                 scaling = curr_ebsd_map.step_size / ebsd_map.step_size
 
-                x = int((event.xdata - x0m) * scaling + x0)
-                y = int((event.ydata - y0m) * scaling + y0)
+                x = (event.xdata - x0m) * scaling + x0
+                y = (event.ydata - y0m) * scaling + y0
 
-                grain_id = int(ebsd_map.data.grains[y, x]) - 1
+                grain_id = ebsd_map._grain_id_at(x, y)
                 if grain_id < 0:
                     continue
                 grain = ebsd_map[grain_id]
-- 
2.43.0


From 415874ff4f5b4cce5f7107d9fa59615b9590ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 46/79] fix: pick the pixel under the cursor as homologous
 point and origin

---
 defdap/ebsd.py       | 3 ++-
 defdap/experiment.py | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index d2496f6..c107e8e 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1825,7 +1825,8 @@ class Linker(object):
         if event.inaxes is not plot.ax:
             return
 
-        origin = (int(event.xdata), int(event.ydata))
+        origin = (int(np.floor(event.xdata + 0.5)),
+                  int(np.floor(event.ydata + 0.5)))
         plot.calling_map.origin = origin
         plot.add_points([origin[0]], [origin[1]], update_layer=0)
         print(f"Origin set to ({origin[0]}, {origin[1]})")
diff --git a/defdap/experiment.py b/defdap/experiment.py
index 2dfa2e7..f42e10f 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -249,7 +249,9 @@ class Frame(object):
         # right mouse click or shift + left mouse click
         # shift click doesn't work in osx backend
         if event.button == 3 or (event.button == 1 and event.key == 'shift'):
-            plot.add_points([int(event.xdata)], [int(event.ydata)], update_layer=1)
+            # pixels are centred at integer positions
+            plot.add_points([int(np.floor(event.xdata + 0.5))],
+                            [int(np.floor(event.ydata + 0.5))], update_layer=1)
 
     @staticmethod
     def homog_key(event, plot):
@@ -264,6 +266,9 @@ class Frame(object):
             Plot to monitor.
 
         """
+        if event.key is None:
+            return
+
         arrow_keys = ['left', 'right', 'up', 'down']
         keys = event.key.split('+')
         key = keys[-1]
-- 
2.43.0


From 37e53e7265ac9ee41c5d1dd49751edf27f7e6c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 47/79] fix: average the angle of a group over the lines that
 were put in it

---
 defdap/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index ba58347..c79b53d 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -198,7 +198,7 @@ class GrainInspector:
                         group = int(np.argmin(np.abs(np.array([x[1] for x in grain.groups_list]) - angle)))
                         grain.points_list[i][2] = group
                         new_average = float('{0:.2f}'.format(
-                            np.average([x[1] for x in grain.points_list if x[2] == group])))
+                            np.average([x[1] for x in grain.points_list[:i + 1] if x[2] == group])))
                         grain.groups_list[group][1] = new_average
                     else:
                         # Make new group and set
-- 
2.43.0


From b2b208f20f0848c8f98edf8b48b20d737ae14bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 48/79] fix: keep angles of corrected and reversed slip lines
 between 0 and 180 degrees

---
 defdap/inspector.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index c79b53d..6034bad 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -147,12 +147,8 @@ class GrainInspector:
         # Get angle of lines
         line_angle = 90 - np.rad2deg(np.arctan2(self.grain_plot.p2[1] - self.grain_plot.p1[1],
                                                 self.grain_plot.p2[0] - self.grain_plot.p1[0]))
-        if line_angle > 180:
-            line_angle -= 180
-        elif line_angle < 0:
-            line_angle += 180
-
-        line_angle -= self.correction_angle
+        # Lines have no sense so angles repeat after 180 degrees
+        line_angle = (line_angle - self.correction_angle) % 180
 
         # Two decimal places
         points = [float("{:.2f}".format(point)) for point in self.grain_plot.p1 + self.grain_plot.p2]
-- 
2.43.0


From 57f4de8f5e0ad3802b102b66707140a3388abbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 49/79] fix: detect active slip planes with traces on either
 side of 0 and 180 degrees

---
 defdap/inspector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 6034bad..e31a5a2 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -208,9 +208,11 @@ class GrainInspector:
                 deviation = []
                 experimental_angle = group[1]
                 for idx, theoretical_angle in enumerate(np.rad2deg(grain.ebsd_grain.slip_trace_angles)):
-                    if theoretical_angle - 5 < experimental_angle < theoretical_angle + 5:
+                    # Traces have no sense so angles repeat after 180 degrees
+                    angle_deviation = (experimental_angle - theoretical_angle + 90) % 180 - 90
+                    if -5 < angle_deviation < 5:
                         active_planes.append(idx)
-                        deviation.append(float('{0:.2f}'.format(experimental_angle - theoretical_angle)))
+                        deviation.append(float('{0:.2f}'.format(angle_deviation)))
                 group[2] = active_planes
                 group[3] = deviation
 
-- 
2.43.0


From 81367bc9d23ae86d23487df75737ae127d3dc774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 50/79] fix: stay at the current grain when going to a grain
 that does not exist

---
 defdap/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index e31a5a2..3ab8f92 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -126,9 +126,9 @@ class GrainInspector:
 
         """
         # Go to grain ID specified in event
+        self.selected_dic_grain = self.selected_dic_map[int(event)]
         self.grain_id = int(event)
         self.grain_plot.arrow = None
-        self.selected_dic_grain = self.selected_dic_map[self.grain_id]
         self.selected_ebsd_grain = self.selected_dic_grain.ebsd_grain
         self.redraw()
 
-- 
2.43.0


From ab0dd4b89ef49cf094c43647a5e8d90ea98d149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 51/79] fix: calculate the displacement ratio of the grain that
 was given

---
 defdap/inspector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 3ab8f92..8c763a4 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -410,11 +410,11 @@ class GrainInspector:
             x, y = skimage_line(int(x0), int(y0), int(x1), int(y1))
 
             # Get x and y coordinates for points to be samples for RDR
-            xmap = np.array(x).T[:, None] + coordinateOffsets[:,0] + self.selected_dic_grain.extreme_coords[0]
-            ymap = np.array(y).T[:, None] + coordinateOffsets[:,1] + self.selected_dic_grain.extreme_coords[1]
+            xmap = np.array(x).T[:, None] + coordinateOffsets[:,0] + grain.extreme_coords[0]
+            ymap = np.array(y).T[:, None] + coordinateOffsets[:,1] + grain.extreme_coords[1]
 
-            x_list.extend(xmap - self.selected_dic_grain.extreme_coords[0])
-            y_list.extend(ymap - self.selected_dic_grain.extreme_coords[1])
+            x_list.extend(xmap - grain.extreme_coords[0])
+            y_list.extend(ymap - grain.extreme_coords[1])
 
             # Get u and v values at each coordinate
             u = self.selected_dic_map.data.displacement[0][ymap, xmap]
-- 
2.43.0


From 8fb3f0518d6460b103efe81a29131dd03108c99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 52/79] fix: ignore releasing the mouse over a plot where no
 line was started

---
 defdap/plotting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 9b8036b..7326996 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -54,8 +54,6 @@ class Plot(object):
             self.btn_store = []
             self.txt_store = []
             self.txt_box_store = []
-            self.p1 = []
-            self.p2 = []
 
         else:
             self.fig = fig
@@ -67,6 +65,8 @@ class Plot(object):
                 self.ax = ax
         self.colour_bar = None
         self.arrow = None
+        self.p1 = []
+        self.p2 = []
 
         if title is not None:
             self.set_title(title)
@@ -279,6 +279,9 @@ class Plot(object):
         if event.name == 'button_press_event':
             self.p1 = (event.xdata, event.ydata)  # save 1st point
         elif event.name == 'button_release_event':
+            # not dragged from a point on the map
+            if len(self.p1) == 0:
+                return
             self.p2 = (event.xdata, event.ydata)  # save 2nd point
             self.add_arrow(start_end=(self.p1[0], self.p1[1], self.p2[0], self.p2[1]))
             self.fig.canvas.draw_idle()
-- 
2.43.0


From 104fbe91d0dbe8c1a8ecc50935f10819d526e218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:06 +0000
Subject: [PATCH 53/79] fix: plot on given axes when the figure is not given as
 well

---
 defdap/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 7326996..667ec1f 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -63,6 +63,8 @@ class Plot(object):
                 self.ax = self.fig.add_subplot(111, **ax_params)
             else:
                 self.ax = ax
+                if fig is None:
+                    self.fig = ax.figure
         self.colour_bar = None
         self.arrow = None
         self.p1 = []
-- 
2.43.0


From 0c5959ce865411d631d3d0887fe17c7b20fa4122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:06 +0000
Subject: [PATCH 54/79] fix: draw exactly four boundary lines in the colour
 that was given

---
 defdap/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 667ec1f..f75e662 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -461,16 +461,16 @@ class MapPlot(Plot):
 
         if kind == "line":
             if isinstance(colour, str):
-                colour = mpl.colors.to_rgba(colour)
-
-            if len(colour) == len(boundaries.lines):
+                colour_array = None
+                colour_lc = mpl.colors.to_rgba(colour)
+            elif len(colour) == len(boundaries.lines):
                 colour_array = colour
                 colour_lc = None
             elif len(colour) == 4:
                 colour_array = None
                 colour_lc = colour
             else:
-                ValueError('Issue with passed colour')
+                raise ValueError('Issue with passed colour')
 
             lc = LineCollection(boundaries.lines, colors=colour_lc, **kwargs)
             lc.set_array(colour_array)
-- 
2.43.0


From 0301feafafb81d499af85dca07e0a11bf67fc610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:46 +0000
Subject: [PATCH 55/79] fix: rotating the data of a map twice restores the
 orientations

---
 defdap/ebsd.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index c107e8e..46f6a3c 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -247,18 +247,17 @@ class Map(base.Map):
         """Rotate map by 180 degrees and transform quats accordingly.
 
         """
-
+        orientation = self.data.orientation[::-1, ::-1]
         self.data.euler_angle = self.data.euler_angle[:, ::-1, ::-1]
         self.data.band_contrast = self.data.band_contrast[::-1, ::-1]
         self.data.band_slope = self.data.band_slope[::-1, ::-1]
         self.data.phase = self.data.phase[::-1, ::-1]
-        self.data.generate('orientation')
 
         # Rotation from old coord system to new
         transform_quat = Quat.from_axis_angle(np.array([0, 0, 1]), np.pi).conjugate
 
         # Perform vectorised multiplication
-        quats = Quat.multiply_many_quats(self.data.orientation.flatten(), transform_quat)
+        quats = Quat.multiply_many_quats(orientation.flatten(), transform_quat)
         self.data.orientation = np.array(quats).reshape(self.shape)
 
         yield 1.
-- 
2.43.0


From 1a983b0f6aefda4de7a1433a10a3f598d1a97a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:45 +0000
Subject: [PATCH 56/79] fix: draw pole plot markers of one or two given colours

---
 defdap/plotting.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index f75e662..7d00735 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1182,11 +1182,17 @@ class PolePlot(Plot):
         if marker_colour is None:
             points = self.ax.scatter(xp, yp, **kwargs)
             self.img_layers.append(points)
+        elif len(marker_colour) == 1:
+            points = self.ax.scatter(xp, yp, c=marker_colour[0], **kwargs)
+            self.img_layers.append(points)
         elif len(marker_colour) == 2:
+            # the two semicircles replace any other marker
+            kwargs.pop('marker', None)
             pos = (xp, yp)
             r1 = 0.5
             r2 = r1 + 0.5
-            marker_size = np.sqrt(marker_size)
+            if marker_size is not None:
+                marker_size = np.sqrt(marker_size)
 
             x = [0] + np.cos(np.linspace(0, 2 * np.pi * r1, 10)).tolist()
             y = [0] + np.sin(np.linspace(0, 2 * np.pi * r1, 10)).tolist()
@@ -1197,12 +1203,12 @@ class PolePlot(Plot):
             xy2 = list(zip(x, y))
 
             points = self.ax.scatter(
-                pos[0], pos[1], marker=(xy1, 0),
+                pos[0], pos[1], marker=xy1,
                 s=marker_size, c=marker_colour[0], **kwargs
             )
             self.img_layers.append(points)
             points = self.ax.scatter(
-                pos[0], pos[1], marker=(xy2, 0),
+                pos[0], pos[1], marker=xy2,
                 s=marker_size, c=marker_colour[1], **kwargs
             )
             self.img_layers.append(points)
-- 
2.43.0


From 89a2eaeb3de31d54cd4d3396fb4872b7e5c0f7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:45 +0000
Subject: [PATCH 57/79] fix: keep both ends of symmetric lines of pole plots in
 one hemisphere

---
 defdap/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 7d00735..71ba0dd 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1081,9 +1081,9 @@ class PolePlot(Plot):
                 start_point_symm = symm.transform_vector(start_point)
                 end_point_symm = symm.transform_vector(end_point)
 
-                if start_point_symm[2] < 0:
+                # use the end of both directions in the upper hemisphere
+                if start_point_symm[2] + end_point_symm[2] < 0:
                     start_point_symm *= -1
-                if end_point_symm[2] < 0:
                     end_point_symm *= -1
 
                 lines.append((start_point_symm, end_point_symm))
-- 
2.43.0


From fe1b3900f307db7743928c376710a2fc0bfd1041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 58/79] fix: use the range of the data for histograms by
 default

---
 defdap/plotting.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 71ba0dd..e3d5cee 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1444,6 +1444,13 @@ class HistPlot(Plot):
         """
 
         # Generate the x bins with appropriate spaceing for linear or log
+        if range is None:
+            # whole range of the data (only positive values on a log axis)
+            values = hist_data[np.isfinite(hist_data)]
+            if self.axes_type == 'logx' or self.axes_type == 'loglog':
+                values = values[values > 0]
+            range = (values.min(), values.max())
+
         if self.axes_type == 'logx' or self.axes_type == 'loglog':
             bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins)
         else:
-- 
2.43.0


From 053c586ac31301ccd62c0e0f7a442cf6891dbf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 59/79] fix: use the number of bins that was given for
 histograms

---
 defdap/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index e3d5cee..1938f04 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1452,9 +1452,9 @@ class HistPlot(Plot):
             range = (values.min(), values.max())
 
         if self.axes_type == 'logx' or self.axes_type == 'loglog':
-            bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins)
+            bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins + 1)
         else:
-            bin_list = np.linspace(range[0], range[1], bins)
+            bin_list = np.linspace(range[0], range[1], bins + 1)
 
         if self.plot_type == 'scatter':
             # Generate the histogram data and plot as a scatter plot
-- 
2.43.0


From 58ac92771afb18b5c78a825b6984b81eacb9109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 60/79] fix: keep colours of orientation maps with an integer
 background colour

---
 defdap/ebsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 46f6a3c..b147f31 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -273,7 +273,7 @@ class Map(base.Map):
         if bg_colour is None:
             bg_colour = np.array([0., 0., 0.])
 
-        map_colours = np.tile(bg_colour, self.shape + (1,))
+        map_colours = np.tile(np.asarray(bg_colour, dtype=float), self.shape + (1,))
 
         for phase, phase_id in zip(phases, phase_ids):
             if phase.crystal_structure.name == 'cubic':
@@ -301,7 +301,7 @@ class Map(base.Map):
         if bg_colour is None:
             bg_colour = np.array([0., 0., 0.])
 
-        map_colours = np.tile(bg_colour, self.shape + (1,))
+        map_colours = np.tile(np.asarray(bg_colour, dtype=float), self.shape + (1,))
 
         for phase, phase_id in zip(phases, phase_ids):
             # calculate IPF colours for phase
-- 
2.43.0


From 962ab8aae1ff3e93e536712f1ccb8861c82f416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 61/79] fix: plot the boundary map in black

---
 defdap/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index b147f31..a989cb6 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -839,7 +839,7 @@ class Map(base.Map):
         # Set default plot parameters then update with any input
         plot_params = {
             'plot_gbs': True,
-            'boundaryColour': 'black'
+            'boundary_colour': 'black'
         }
         plot_params.update(kwargs)
 
-- 
2.43.0


From cdee89eb9db6a3d98efaa5ec892abd557b106e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 62/79] fix: give no rotation where there is no misorientation
 in a grain

---
 defdap/ebsd.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index a989cb6..5b4f397 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1274,7 +1274,11 @@ class Grain(base.Grain):
             dq[:, dq[0] < 0] = -dq[:, dq[0] < 0]
 
             # numpy broadcasting taking care of different array sizes
-            mis_ori_axis[:, :] = (2 * dq[1:4, :] * np.arccos(dq[0, :])) / np.sqrt(1 - np.power(dq[0, :], 2))
+            # 2 * dq is the limit where there is no misorientation
+            cos = np.minimum(dq[0, :], 1.)
+            mis_ori_axis[:, :] = 2 * dq[1:4, :]
+            np.divide(2 * dq[1:4, :] * np.arccos(cos), np.sqrt(1 - np.power(cos, 2)),
+                      out=mis_ori_axis, where=cos < 1)
 
             # hack it back into a list. Need to change self.*List to be arrays, it was a bad decision to
             # make them lists in the beginning
@@ -1304,7 +1308,11 @@ class Grain(base.Grain):
         dq[3] = (ref_ori_inv[3]*quat_comps[0] + ref_ori_inv[0]*quat_comps[3] +
                  ref_ori_inv[2]*quat_comps[1] - ref_ori_inv[1]*quat_comps[2])
         dq[:, dq[0] < 0] *= -1
-        misori_axis = (2 * dq[1:4] * np.arccos(dq[0])) / np.sqrt(1 - dq[0]**2)
+        # 2 * dq is the limit where there is no misorientation
+        cos = np.minimum(dq[0], 1.)
+        misori_axis = 2 * dq[1:4]
+        np.divide(2 * dq[1:4] * np.arccos(cos), np.sqrt(1 - cos**2),
+                  out=misori_axis, where=cos < 1)
 
         return misori, misori_axis
     
-- 
2.43.0


From f786bbc3aebb9839a74dc82ff40a6cace83ca6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:43 +0000
Subject: [PATCH 63/79] fix: count values at the ends of the range of
 logarithmic histograms

---
 defdap/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 1938f04..63d8b38 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1452,7 +1452,7 @@ class HistPlot(Plot):
             range = (values.min(), values.max())
 
         if self.axes_type == 'logx' or self.axes_type == 'loglog':
-            bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins + 1)
+            bin_list = np.geomspace(range[0], range[1], bins + 1)
         else:
             bin_list = np.linspace(range[0], range[1], bins + 1)
 
-- 
2.43.0


From ff5c4f20bb1b760803b3e6443d18f30c4f9c3eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 64/79] fix: cosine of a misorientation not over 1 by rounding

---
 defdap/quat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/defdap/quat.py b/defdap/quat.py
index 40aabe1..e9bfc09 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -402,6 +402,9 @@ class Quat(object):
                     min_mis_ori = current_mis_ori
                     min_quat_sym = quat_sym
 
+            # rounding can give a value just over 1
+            min_mis_ori = min(min_mis_ori, 1.)
+
             if return_quat == 1:
                 return min_quat_sym
             elif return_quat == 2:
-- 
2.43.0


From 15d276d1dcdf691630f508ba173efe72c7ab2379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 65/79] fix: misorientation axis of equal orientations is not
 NaN

---
 defdap/quat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/defdap/quat.py b/defdap/quat.py
index e9bfc09..b7f9f8f 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -432,6 +432,9 @@ class Quat(object):
         if isinstance(right, type(self)):
             Dq = right * self.conjugate
             Dq = Dq.quat_coef
+            if abs(Dq[0]) >= 1:
+                # limit where there is no misorientation
+                return 2 * Dq[1:4]
             mis_ori_axis = 2 * Dq[1:4] * np.arccos(Dq[0]) / np.sqrt(1 - Dq[0]**2)
             return mis_ori_axis
         raise TypeError("Input must be a quaternion.")
-- 
2.43.0


From e70bef7dba0fcd85e647d898a416cc545982a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:33 +0000
Subject: [PATCH 66/79] fix: use the marker size for points of one colour on
 pole plots

---
 defdap/plotting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 63d8b38..6a22716 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1179,6 +1179,10 @@ class PolePlot(Plot):
         if type(marker_colour) is str:
             marker_colour = [marker_colour]
 
+        if (marker_size is not None
+                and (marker_colour is None or len(marker_colour) == 1)):
+            kwargs.setdefault('s', marker_size)
+
         if marker_colour is None:
             points = self.ax.scatter(xp, yp, **kwargs)
             self.img_layers.append(points)
-- 
2.43.0


From 0d190727dc63efd75fdff848e868208496c33c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 67/79] fix: put the marker size legend on the axes of the pole
 plot

---
 defdap/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 6a22716..7cce088 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1260,7 +1260,7 @@ class PolePlot(Plot):
 
         """
         img = self.img_layers[layer]
-        self.legend = plt.legend(
+        self.legend = self.ax.legend(
             *img.legend_elements("sizes", num=number, func=lambda s: s / scaling), 
             title=label, 
             **kwargs
-- 
2.43.0


From 6018e597d75fe062dece541db40d3245837bff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:04 +0000
Subject: [PATCH 68/79] fix: detect slip bands at 0 degrees

---
 defdap/hrdic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 687f5d0..4b1fae8 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -883,8 +883,11 @@ class Grain(base.Grain):
 
         x = np.arange(180)
 
-        indexes = peakutils.indexes(profile, thres=thres, min_dist=min_dist)
-        peaks = x[indexes]
+        # the profile repeats after 180 degrees, so there can be a peak at its ends
+        indexes = peakutils.indexes(
+            np.tile(profile, 3), thres=thres, min_dist=min_dist
+        )
+        peaks = x[indexes[(indexes >= 180) & (indexes < 360)] - 180]
         # peaks = peakutils.interpolate(x, profile, ind=indexes)
         print("Number of bands detected: {:}".format(len(peaks)))
 
-- 
2.43.0


From 1a88d6974336d0c87c1a03d6d0206526c298b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:08 +0000
Subject: [PATCH 69/79] fix: do not limit the distance to a grain boundary to
 1000 pixels

---
 defdap/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index f6f4ac4..05b47d8 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -430,8 +430,9 @@ class Map(ABC):
         )
 
         # array to store trial distance from each boundary point
+        no_distance = 1000 if len(index_boundaries) == 0 else np.inf
         trial_distances = np.full((num_trials + 1,) + self.shape,
-                                  1000, dtype=float)
+                                  no_distance, dtype=float)
 
         # loop over each boundary point (p) and calculate distance from
         # p to all points in the map store minimum once numTrails have
-- 
2.43.0


From f988649aa1df724952bad0fb5fa98cb32162808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:08 +0000
Subject: [PATCH 70/79] fix: use the symmetry of the grains for the
 misorientation of their boundary

---
 defdap/ebsd.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 5b4f397..4605e61 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1754,8 +1754,13 @@ class BoundarySegment(object):
         return lines
 
     def misorientation(self):
+        # use the symmetry of the grains, if they have the same
+        crystal_sym = self.grain1.crystal_sym
+        if self.grain2.crystal_sym != crystal_sym:
+            crystal_sym = self.ebsdMap.crystal_sym
+
         mis_ori, minSymm = self.grain1.ref_ori.mis_ori(
-            self.grain2.ref_ori, self.ebsdMap.crystal_sym, return_quat=2
+            self.grain2.ref_ori, crystal_sym, return_quat=2
         )
         mis_ori = 2 * np.arccos(mis_ori)
         mis_ori_axis = self.grain1.ref_ori.mis_ori_axis(minSymm)
-- 
2.43.0


From 132436030f3e91a0395506723d1ce067d7a3108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:44 +0000
Subject: [PATCH 71/79] fix: allow arrows to be added after the last one was
 taken away

---
 defdap/plotting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 7cce088..10aa120 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -221,7 +221,9 @@ class Plot(object):
 
         # If not persistent, save a reference so that it can be removed later
         if not persistent:
-            if clear_previous and (self.arrow is not None): self.arrow.remove()
+            if clear_previous and (self.arrow is not None):
+                self.arrow.remove()
+                self.arrow = None
             if None not in start_end:
                 self.arrow = self.ax.annotate("", **arrow_params)
 
-- 
2.43.0


From 43eb96e6264bd8703ad74943f29e9d9e941ff905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:20 +0000
Subject: [PATCH 72/79] fix: act once on a number typed in the grain inspector

---
 defdap/inspector.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 8c763a4..af02258 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -87,10 +87,12 @@ class GrainInspector:
         # Text boxes
         self.plot.add_text_box(label='', loc=(0.7, 0.02, 0.13, 0.04),
                                change_handler=self.update_filename, initial=self.filename)
-        self.plot.add_text_box(label='Go to \ngrain ID:', loc=(div_frac + 0.17, 0.94, 0.05, 0.04),
-                               submit_handler=self.goto_grain)
-        self.plot.add_text_box(label='Remove\nID:', loc=(div_frac + 0.1, 0.48, 0.05, 0.04),
-                               submit_handler=self.remove_line)
+        self.goto_grain_text_box = self.plot.add_text_box(label='Go to \ngrain ID:',
+                                                          loc=(div_frac + 0.17, 0.94, 0.05, 0.04),
+                                                          submit_handler=self.goto_grain)
+        self.remove_line_text_box = self.plot.add_text_box(label='Remove\nID:',
+                                                           loc=(div_frac + 0.1, 0.48, 0.05, 0.04),
+                                                           submit_handler=self.remove_line)
         self.rdr_group_text_box = self.plot.add_text_box(label='Run RDR only\non group:', loc=(0.78, 0.07, 0.05, 0.04),
                                                          submit_handler=self.run_rdr_group)
 
@@ -125,12 +127,17 @@ class GrainInspector:
             Grain ID to go to.
 
         """
+        # The text box submits again when it is left
+        if event == '':
+            return
+
         # Go to grain ID specified in event
         self.selected_dic_grain = self.selected_dic_map[int(event)]
         self.grain_id = int(event)
         self.grain_plot.arrow = None
         self.selected_ebsd_grain = self.selected_dic_grain.ebsd_grain
         self.redraw()
+        self.goto_grain_text_box.set_val('')
 
     def save_line(self,
                   event: np.ndarray,
@@ -238,10 +245,15 @@ class GrainInspector:
             Line ID to remove.
 
         """
+        # The text box submits again when it is left
+        if event == '':
+            return
+
         # Remove single line
         del self.selected_dic_grain.points_list[int(event)]
         self.group_lines()
         self.redraw()
+        self.remove_line_text_box.set_val('')
 
     def redraw(self):
         """Draw items which need to be redrawn when changing grain ID.
-- 
2.43.0


From f074080d7f77dce16e3eff66938be22ecfb8a324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:40 +0000
Subject: [PATCH 73/79] fix: statistics table of a masked map does not include
 masked points

---
 defdap/hrdic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 4b1fae8..f18e77a 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -309,7 +309,9 @@ class Map(base.Map):
         for c in components:
             # Iterate over tensor components (i.e. e11, e22, e12)
             for i in np.ndindex(self.data[c].shape[:len(np.shape(self.data[c]))-2]):
-                per = [np.nanpercentile(self.data[c][i], p) for p in percentiles]
+                # masked points are not included
+                values = np.ma.compressed(self.data[c][i])
+                per = [np.nanpercentile(values, p) for p in percentiles]
                 print(str_format.format(c+''.join([str(t+1) for t in i]), *per))
 
     def set_crop(self, *, left=None, right=None, top=None, bottom=None,
-- 
2.43.0


From 6877949b9316e2b99b75bb2476060bd42f926b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:40 +0000
Subject: [PATCH 74/79] fix: norm of masked data is masked

---
 defdap/base.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index 05b47d8..a896018 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -536,7 +536,12 @@ class Map(ABC):
                 else:
                     raise ValueError('Unsupported data for norm.')
 
-                return np.linalg.norm(map_data, axis=axis)
+                norm = np.linalg.norm(map_data, axis=axis)
+                if isinstance(map_data, np.ma.MaskedArray):
+                    # keep the mask, which the norm does not
+                    mask = np.ma.getmaskarray(map_data).any(axis=axis)
+                    norm = np.ma.array(norm, mask=mask)
+                return norm
 
             if comp == 'all_euler':
                 return self.calc_euler_colour(map_data)
@@ -1164,7 +1169,12 @@ class Grain(ABC):
                 else:
                     raise ValueError('Unsupported data for norm.')
 
-                return np.linalg.norm(map_data, axis=axis)
+                norm = np.linalg.norm(map_data, axis=axis)
+                if isinstance(map_data, np.ma.MaskedArray):
+                    # keep the mask, which the norm does not
+                    mask = np.ma.getmaskarray(map_data).any(axis=axis)
+                    norm = np.ma.array(norm, mask=mask)
+                return norm
 
             if comp == 'all_euler':
                 return self.calc_euler_colour(map_data)
-- 
2.43.0


From 6827566cae4fabc981b899e9941e0d954b93de7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:40 +0000
Subject: [PATCH 75/79] fix: histogram does not count masked points

---
 defdap/plotting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 10aa120..ffd7fb2 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1449,6 +1449,10 @@ class HistPlot(Plot):
 
         """
 
+        # masked points are not counted
+        if isinstance(hist_data, np.ma.MaskedArray):
+            hist_data = hist_data.compressed()
+
         # Generate the x bins with appropriate spaceing for linear or log
         if range is None:
             # whole range of the data (only positive values on a log axis)
-- 
2.43.0


From b24a0ec98f3743bf95782d931935f0832d212c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:40 +0000
Subject: [PATCH 76/79] fix: line profile has no value at masked points

---
 defdap/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index a896018..bb31b51 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -268,12 +268,15 @@ class Map(ABC):
         profile_length = np.sqrt((y1 - y0) ** 2 + (x1 - x0) ** 2)
 
         # Extract the values along the line
-        zi = profile_line(
-            plot.img_layers[0].get_array(),
-            (start_end[1], start_end[0]),
-            (start_end[3], start_end[2]),
+        map_data = plot.img_layers[0].get_array()
+        line_ends = ((y0, x0), (y1, x1))
+        zi = profile_line(np.ma.getdata(map_data), *line_ends, mode='nearest')
+        # no value where masked points contribute
+        masked = profile_line(
+            np.ma.getmaskarray(map_data).astype(float), *line_ends,
             mode='nearest'
         )
+        zi = np.where(masked > 0, np.nan, zi)
         xi = np.linspace(0, profile_length, len(zi))
 
         if self.profile_plot is None or not self.profile_plot.exists:
-- 
2.43.0


From f7ee640d265f2bb240316790ef6a761e4e47e3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:56 +0000
Subject: [PATCH 77/79] fix: hexagonal slip system with indices that have a
 common factor is in its family

---
 defdap/crystal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/defdap/crystal.py b/defdap/crystal.py
index 4e6662a..04fe2de 100755
--- a/defdap/crystal.py
+++ b/defdap/crystal.py
@@ -347,12 +347,12 @@ class SlipSystem(object):
 
             if self.crystal_structure.name == 'hexagonal':
                 # q_matrix inverse is equal to l_matrix transposed and vice-versa
-                plane_symm = reduce_idc(convert_idc(
+                plane_symm = convert_idc(
                     'm', plane=safe_int_cast(np.matmul(l_matrix.T, plane_symm))
-                ))
-                dir_symm = reduce_idc(convert_idc(
+                )
+                dir_symm = convert_idc(
                     'm', dir=safe_int_cast(np.matmul(q_matrix.T, dir_symm))
-                ))
+                )
 
             ss_family.add(SlipSystem(
                 pos_idc(safe_int_cast(plane_symm)),
-- 
2.43.0


From 3cf9070ecf9f514b64aef5b7b35164bbbfa947e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:56 +0000
Subject: [PATCH 78/79] fix: equivalents of a hexagonal direction in
 three-index notation

---
 defdap/crystal_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/crystal_utils.py b/defdap/crystal_utils.py
index c287bad..ed4d7bc 100644
--- a/defdap/crystal_utils.py
+++ b/defdap/crystal_utils.py
@@ -238,8 +238,9 @@ def equavlent_indicies(
             if dir_symm[2] < 0:
                 dir_symm *= -1
             if crystal_symm == 'hexagonal':
+                # three times the direction so the indices are integers
                 dir_symm = reduce_idc(convert_idc(
-                    'm', dir=safe_int_cast(np.matmul(q_matrix.T, dir_symm))
+                    'm', dir=safe_int_cast(3 * np.matmul(q_matrix.T, dir_symm))
                 ))
             dirs.append(safe_int_cast(dir_symm))
     
-- 
2.43.0


From ae4ded38711a713d95472c036f476d280e29eee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:47 +0000
Subject: [PATCH 79/79] fix: allow an arrow to be added to a plot that was
 cleared

---
 defdap/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index ffd7fb2..7ee4bdd 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -309,6 +309,8 @@ class Plot(object):
             self.colour_bar.remove()
             self.colour_bar = None
         self.ax.clear()
+        # removed with everything else on the axis
+        self.arrow = None
         self.set_empty_state()
         self.draw()
 
-- 
2.43.0

