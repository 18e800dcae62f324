From e5702ff6d58baf1dabd8f5e691d123f356cbf4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:46 +0000
Subject: [PATCH 01/32] fix: report qhull failures as panics instead of jumping
 through an unset jmp_buf

qhull's error handler longjmps to qh->errexit, which was never set, so any
input qhull rejects (for example colors that are all coplanar) was a segfault.
---
 qhull-rs/src/raw.rs                  | 42 ++++++++++++++++++----------
 qhull-sys/src/bindings/unix_64bit.rs | 10 +++++++
 qhull-sys/src/bindings/wasm_32bit.rs | 10 +++++++
 qhull-sys/src/ext.c                  | 24 ++++++++++++++++
 4 files changed, 71 insertions(+), 15 deletions(-)

diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index 04f2f4f..9c9e331 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -55,16 +55,23 @@ impl<N: DimName> ConvexHull<N> {
         let stdout = qhull_sys::rqh_stdout();
         let stderr = qhull_sys::rqh_stderr();
         qhull_sys::qh_init_A(qh, stdin, stdout, stderr, 0, ptr::null_mut());
-        *qhull_sys::rqh_get_NOerrexit(qh) = 0;
-        let mut cmd = *b"qhull   Qc Qx         Qt\0";
-        qhull_sys::qh_initflags(qh, cmd.as_mut_ptr().cast());
-        qhull_sys::qh_init_B(qh, buf, len as _, N::dim() as _, 1);
-        qhull_sys::qh_qhull(qh);
-        qhull_sys::qh_triangulate(qh);
-        ConvexHull {
+        let hull = ConvexHull {
             qh: NonNull::new(qh).unwrap(),
             pd: PhantomData,
+        };
+        let mut cmd = *b"qhull   Qc Qx         Qt\0";
+        let exit_code = qhull_sys::rqh_build(
+            qh,
+            cmd.as_mut_ptr().cast(),
+            0,
+            buf,
+            len as _,
+            N::dim() as _,
+        );
+        if exit_code != 0 {
+            panic!("qhull failed to compute a convex hull (exit code {})", exit_code);
         }
+        hull
     }
 
     pub fn facets<'a>(&'a self) -> FacetListIterator<'a, N> {
@@ -417,18 +424,23 @@ impl<N: DimName> Delaunay<N>
         let stdout = qhull_sys::rqh_stdout();
         let stderr = qhull_sys::rqh_stderr();
         qhull_sys::qh_init_A(qh, stdin, stdout, stderr, 0, ptr::null_mut());
-        *qhull_sys::rqh_get_NOerrexit(qh) = 0;
-        let mut cmd = *b"qhull d Qc Qx Qbb Q12 Qt Qz\0";
-        qhull_sys::qh_initflags(qh, cmd.as_mut_ptr().cast());
-        *qhull_sys::rqh_get_PROJECTdelaunay(qh) = 1;
-        qhull_sys::qh_init_B(qh, buf, len as _, N::dim() as _, 1);
-        qhull_sys::qh_qhull(qh);
-        qhull_sys::qh_triangulate(qh);
-
         let cv = ConvexHull {
             qh: NonNull::new(qh).unwrap(),
             pd: PhantomData,
         };
+        let mut cmd = *b"qhull d Qc Qx Qbb Q12 Qt Qz\0";
+        let exit_code = qhull_sys::rqh_build(
+            qh,
+            cmd.as_mut_ptr().cast(),
+            1,
+            buf,
+            len as _,
+            N::dim() as _,
+        );
+        if exit_code != 0 {
+            panic!("qhull failed to compute a Delaunay triangulation (exit code {})", exit_code);
+        }
+
         let mut max_bounds = OVector::from_element(f64::MIN);
         let mut min_bounds = OVector::from_element(f64::MAX);
         for vertex in cv.vertices() {
diff --git a/qhull-sys/src/bindings/unix_64bit.rs b/qhull-sys/src/bindings/unix_64bit.rs
index 8f5103b..81dc2be 100644
--- a/qhull-sys/src/bindings/unix_64bit.rs
+++ b/qhull-sys/src/bindings/unix_64bit.rs
@@ -1065,3 +1065,13 @@ extern "C" {
 extern "C" {
     pub fn rqh_stderr() -> *mut FILE;
 }
+extern "C" {
+    pub fn rqh_build(
+        qh: *mut qhT,
+        flags: *mut ::std::os::raw::c_char,
+        delaunay: ::std::os::raw::c_uint,
+        points: *mut f64,
+        numpoints: ::std::os::raw::c_int,
+        dim: ::std::os::raw::c_int,
+    ) -> ::std::os::raw::c_int;
+}
diff --git a/qhull-sys/src/bindings/wasm_32bit.rs b/qhull-sys/src/bindings/wasm_32bit.rs
index 8f4835b..30f0721 100644
--- a/qhull-sys/src/bindings/wasm_32bit.rs
+++ b/qhull-sys/src/bindings/wasm_32bit.rs
@@ -1070,3 +1070,13 @@ extern "C" {
 extern "C" {
     pub fn rqh_stderr() -> *mut FILE;
 }
+extern "C" {
+    pub fn rqh_build(
+        qh: *mut qhT,
+        flags: *mut ::std::os::raw::c_char,
+        delaunay: ::std::os::raw::c_uint,
+        points: *mut f64,
+        numpoints: ::std::os::raw::c_int,
+        dim: ::std::os::raw::c_int,
+    ) -> ::std::os::raw::c_int;
+}
diff --git a/qhull-sys/src/ext.c b/qhull-sys/src/ext.c
index c0e324b..2cbe0d1 100644
--- a/qhull-sys/src/ext.c
+++ b/qhull-sys/src/ext.c
@@ -57,3 +57,27 @@ FILE* rqh_stdout() {
 FILE* rqh_stderr() {
     return stderr;
 }
+
+/* Builds a hull (or Delaunay triangulation) in a freshly initialized qhT.
+
+   qhull reports errors by jumping to qh->errexit, so qh->NOerrexit must only be
+   cleared while the matching setjmp is still on the stack. Returns 0 or qhull's
+   exit code. Ownership of points passes to qh.
+   */
+int rqh_build(qhT *qh, char *flags, boolT delaunay, coordT *points, int numpoints, int dim) {
+    int exitcode = 0;
+#ifndef WASM
+    exitcode = setjmp(qh->errexit);
+#endif
+    if (!exitcode) {
+        qh->NOerrexit = False;
+        qh_initflags(qh, flags);
+        if (delaunay)
+            qh->PROJECTdelaunay = True;
+        qh_init_B(qh, points, numpoints, dim, True);
+        qh_qhull(qh);
+        qh_triangulate(qh);
+    }
+    qh->NOerrexit = True;
+    return exitcode;
+}
-- 
2.43.0


From 46835eb494663cd45d91bf6c21ea11391b46805c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:46 +0000
Subject: [PATCH 02/32] fix: start simplex searches at a simplex that always
 exists

A triangulation may consist of a single simplex (a 2x3 image, for example), so
index 1 is not always valid.
---
 qhull-rs/src/delaunay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 180c2d7..4c91244 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -399,7 +399,7 @@ impl<'a, N> SimplexSearcher<'a, N>
         }
 
 
-        let start_simplex_idx = self.start_hint.get().unwrap_or(1);
+        let start_simplex_idx = self.start_hint.get().unwrap_or(0);
         let mut simplex = Simplex { delaunay: self.delaunay, idx: start_simplex_idx };
 
         let lifted_point = self.delaunay.lift_point(point);
-- 
2.43.0


From 7e9235efae0ad1c77a118a6d1203a609b585a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:46 +0000
Subject: [PATCH 03/32] fix: compute the coordinates that are checked next to a
 degenerate simplex

The bruteforce search compared whatever coordinates were left over from an
earlier simplex (or an earlier point), and ignored those opposite to the
boundary, so it could return a simplex that does not contain the point.
---
 qhull-rs/src/delaunay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 4c91244..ea5a0a4 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -462,9 +462,9 @@ impl<'a, N> SimplexSearcher<'a, N>
                         // This neighbor is degenerate too, skip it
                         continue
                     }
+                    transform.solve(point.clone(), bcoords);
                     let inside = self.delaunay.neighbors[neighbor].iter()
                         .zip(bcoords.iter())
-                        .filter(|(i, _)| **i != NON_SIMPLEX_IDX)
                         .all(|(inner_neighbor, coord)| {
                             if inner_neighbor == &i {
                                 *coord >= -eps_broad && *coord <= 1.0 + self.eps
-- 
2.43.0


From 6a6345d2ef47c44f1f1c18a2e74727ee00d4af3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:46 +0000
Subject: [PATCH 04/32] fix: treat almost singular simplices as degenerate

Only an exactly singular matrix was recognised. Simplices that are flat up to
rounding gave junk barycentric coordinates, and pixels with junk colors.
---
 qhull-rs/src/delaunay.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index ea5a0a4..939e4df 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -578,6 +578,16 @@ impl<'a, N> SimplexSearcher<'a, N>
 }
 
 
+/// The maximum absolute column sum of a matrix
+fn one_norm<N>(mat: &OMatrix<f64, N, N>) -> f64
+    where DefaultAllocator: Allocator<f64, N, N>,
+          N: DimName,
+{
+    mat.column_iter()
+        .map(|col| col.iter().map(|f| f.abs()).sum())
+        .fold(0.0, f64::max)
+}
+
 struct BarycentricTransformation<N>
     where DefaultAllocator: Allocator<f64, N>,
           DefaultAllocator: Allocator<f64, N, N>,
@@ -612,9 +622,15 @@ impl<N> BarycentricTransformation<N>
                 .map(move |vert| vert[i] - rn)
             );
         let t = OMatrix::<f64, N, N>::from_row_iterator(iter);
+        let t_norm = one_norm(&t);
         let decomp = t.lu();
         let mut t_inv = OMatrix::<f64, N, N>::from_element(f64::NAN);
-        let _ = decomp.try_inverse_to(&mut t_inv);
+        let invertible = decomp.try_inverse_to(&mut t_inv);
+        // Rounding errors can make the matrix of a flat simplex invertible, but the coordinates
+        // that come out of such an inverse are junk. (This is the same limit SciPy uses.)
+        if !invertible || !(t_norm * one_norm(&t_inv) < 1.0 / (1000.0 * f64::EPSILON)) {
+            t_inv.fill(f64::NAN);
+        }
 
         BarycentricTransformation {
             t_inv,
-- 
2.43.0


From 2c46ddfa21e1403c9a7e4bbc6dcf1dbe4649b29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:46 +0000
Subject: [PATCH 05/32] fix: compute plane distances and the lifting as qhull
 does

Simplex::plane_distance added the coordinates to the normal instead of
multiplying them, and the paraboloid parameters lacked parentheses and a sign.
---
 qhull-rs/src/delaunay.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 939e4df..5600345 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -103,7 +103,7 @@ impl<N> Delaunay<N>
         let last_high = delaunay.last_high();
         let last_newhigh = delaunay.last_newhigh();
 
-        let paraboloid_scale = last_newhigh / last_high - last_low;
+        let paraboloid_scale = last_newhigh / (last_high - last_low);
 
         Delaunay {
             vertices: vertices.into_boxed_slice(),
@@ -112,7 +112,7 @@ impl<N> Delaunay<N>
             normals_and_offsets: normals_and_offsets.into_boxed_slice(),
 
             paraboloid_scale,
-            paraboloid_shift: last_low * paraboloid_scale,
+            paraboloid_shift: -last_low * paraboloid_scale,
         }
     }
 
@@ -245,7 +245,7 @@ impl<'a, N> Simplex<'a, N>
         let (normal, offset) = self.delaunay.normals_and_offsets.get(self.idx).unwrap();
         let mut sum = *offset;
         for (a, b) in point.as_slice().iter().zip(normal.as_slice()) {
-            sum += a + b;
+            sum += a * b;
         }
         sum
     }
-- 
2.43.0


From 68926b3ae2bce4a48f6d25f37f8741a250afc9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:56 +0000
Subject: [PATCH 06/32] fix: stop simplifying a palette when no edge can be
 collapsed

For some hulls (the RGB cube, for example) no edge has a feasible collapse.
compute_palette panicked instead of returning the palette it had.
---
 image-palette-recoloring/src/palette.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index c264838..cbd17ea 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -78,7 +78,11 @@ pub fn compute_palette(
     while ch.vertices().len() > min_palette_size {
         // TODO: We need to calculate the level of error we've created here. This gives us a better
         //       idea of when we should exit the loop
-        let (new_vertex, vertices_to_remove) = locate_edge_to_collapse(&ch);
+        let Some((new_vertex, vertices_to_remove)) = locate_edge_to_collapse(&ch) else {
+            // There is no edge left that could be collapsed, for example because the hull already
+            // is the entire RGB cube.
+            break
+        };
         let new_hull = ch.vertices()
             .filter(|v| !vertices_to_remove.contains(&v.index()))
             .map(|v| v.point())
@@ -228,7 +232,7 @@ impl<'a> EdgeData<'a> {
 }
 
 
-fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> ([f64; 3], [usize; 2]) {
+fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> Option<([f64; 3], [usize; 2])> {
 
     let edge_data = EdgeData::new(ch);
 
@@ -293,10 +297,9 @@ fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> ([f64; 3], [usize; 2])
     }
     let (edge_vertices, new_point, _vol) = edge_candidates.iter()
         .min_by(|(_, _, vol_a), (_, _, vol_b)| vol_a.partial_cmp(vol_b).unwrap())
-        .cloned()
-        .unwrap();
+        .cloned()?;
 
-    (new_point, edge_vertices)
+    Some((new_point, edge_vertices))
 }
 
 fn tetrahedron_volume(a: &Vector3<f64>, b: &Vector3<f64>, c: &Vector3<f64>, d: &Vector3<f64>)
-- 
2.43.0


From efd3db93417b88c29f9f11cf3f46a344efdabc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:56 +0000
Subject: [PATCH 07/32] fix: measure the palette error on the palette that
 would be returned

The error bound was compared to the error of the previous hull, so the result
could exceed it by a step, and pixels were only counted if they were outside
of the hull before its vertices are clamped to the RGB cube, which none are.
---
 image-palette-recoloring/src/palette.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index cbd17ea..f4cb3b2 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -83,7 +83,7 @@ pub fn compute_palette(
             // is the entire RGB cube.
             break
         };
-        let new_hull = ch.vertices()
+        let new_hull: ConvexHull<Const<3>> = ch.vertices()
             .filter(|v| !vertices_to_remove.contains(&v.index()))
             .map(|v| v.point())
             .cloned()
@@ -93,7 +93,7 @@ pub fn compute_palette(
         // Calculating the average error can be expensive, so only do it for the last 6 or so
         // iterations
         if ch.vertices().len() <= max_palette_size {
-            let error = compute_pixel_error(&ch, &pixel_counts, total_count);
+            let error = compute_pixel_error(&new_hull, &pixel_counts, total_count);
             if error > error_bound {
                 // We've reached or exceeded the error bound, so we are exiting here.
                 // We return the previous hull that still was inside the error bound.
@@ -131,7 +131,7 @@ fn compute_pixel_error(
         .map(|v| v.point())
         .map(|p| [p.x.clamp(0.0, 1.0), p.y.clamp(0.0, 1.0), p.z.clamp(0.0, 1.0)].into())
         .collect();
-    let tri = Delaunay::from_arrays(ch.vertices()
+    let tri = Delaunay::from_arrays(new_ch.vertices()
         .map(|v| v.point())
         .map(|p| [p.x, p.y, p.z])
         .collect::<Vec<[f64; 3]>>()
-- 
2.43.0


From 8f1846b3eccab5451a4904e6db45190e295db339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 08/32] fix: never return redundant (or coplanar) palette
 colors

---
 image-palette-recoloring/src/palette.rs | 45 ++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index f4cb3b2..93c408d 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -75,6 +75,7 @@ pub fn compute_palette(
         .map(|(_, count)| *count)
         .sum();
 
+    let mut palette = palette_colors(&ch);
     while ch.vertices().len() > min_palette_size {
         // TODO: We need to calculate the level of error we've created here. This gives us a better
         //       idea of when we should exit the loop
@@ -89,6 +90,10 @@ pub fn compute_palette(
             .cloned()
             .chain(std::iter::once(new_vertex.into()))
             .collect();
+        let new_palette = palette_colors(&new_hull);
+        if new_palette.len() < min_palette_size {
+            break
+        }
 
         // Calculating the average error can be expensive, so only do it for the last 6 or so
         // iterations
@@ -101,6 +106,7 @@ pub fn compute_palette(
             }
         }
         ch = new_hull;
+        palette = new_palette;
 
         let vcount = ch.vertices().len();
         if vcount == previous_vcount {
@@ -110,16 +116,53 @@ pub fn compute_palette(
         previous_vcount = vcount;
     }
 
-    ch.vertices()
+    palette
+}
+
+/// The palette colors for a hull, ie its vertices after clamping and rounding.
+///
+/// Both of those can move a vertex into the hull of the others, so any colors which that made
+/// redundant are left out. If all of the colors end up in a single plane, they can't be used as a
+/// palette and the result is empty.
+fn palette_colors(ch: &ConvexHull<Const<3>>) -> Vec<Rgb<u8>> {
+    let colors = ch.vertices()
         .map(|v| v.point())
         .map(|p| Rgb([
             (p[0].clamp(0.0, 1.0) * 255.0).round() as u8,
             (p[1].clamp(0.0, 1.0) * 255.0).round() as u8,
             (p[2].clamp(0.0, 1.0) * 255.0).round() as u8,
         ]))
+        .collect::<Vec<_>>();
+    if is_flat(&colors) {
+        return vec![]
+    }
+    let color_ch: ConvexHull<Const<3>> = colors.iter()
+        .map(|c| [c[0] as f64, c[1] as f64, c[2] as f64].into())
+        .collect();
+    color_ch.vertices()
+        .map(|v| v.point())
+        .map(|p| Rgb([p[0] as u8, p[1] as u8, p[2] as u8]))
         .collect()
 }
 
+/// Returns `true` if all of the colors lie in a single plane.
+pub(crate) fn is_flat(colors: &[Rgb<u8>]) -> bool {
+    let points = colors.iter()
+        .map(|c| Vector3::new(c[0] as i64, c[1] as i64, c[2] as i64))
+        .collect::<Vec<_>>();
+    let Some(origin) = points.first() else {
+        return true
+    };
+    let Some(a) = points.iter().map(|p| p - origin).find(|a| *a != Vector3::zeros()) else {
+        return true
+    };
+    let normal = points.iter().map(|p| a.cross(&(p - origin))).find(|n| *n != Vector3::zeros());
+    match normal {
+        Some(normal) => points.iter().all(|p| normal.dot(&(p - origin)) == 0),
+        None => true,
+    }
+}
+
 // TODO: Something about how I'm computing the error is wrong or at least doesn't capture the
 //       actual reproduction error. :\
 fn compute_pixel_error(
-- 
2.43.0


From 69f9abb60ae706102233e09ed7eefc208c616e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:36 +0000
Subject: [PATCH 09/32] fix: skip flat tetrahedra in the star triangulation of
 a palette

---
 image-palette-recoloring/src/palette.rs | 51 ++++++++++++-------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 93c408d..cb2134d 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -382,10 +382,10 @@ pub(crate) fn compute_star_triangulation_coordinates(
     // hull - the "star". (Naturally, we exclude the triangles that include the star itself to
     // avoid degenerate tetrahedrons.)
 
-    let solvers: Vec<_> = palette_ch.facets()
+    let (solvers, simplex_indices): (Vec<_>, Vec<_>) = palette_ch.facets()
         // Facets involving the star vertex would create degenerate tetrahedrons, so skip them.
         .filter(|f| f.vertices().all(|v| v.index() != star_index))
-        .map(|f| {
+        .filter_map(|f| {
             // TODO: Is there a better way to do this??? Can I do this with an iterator without
             //       completely losing my mind?
             let mut output = Matrix4::from_element(1.0);
@@ -401,18 +401,20 @@ pub(crate) fn compute_star_triangulation_coordinates(
                 col[2] = point[2];
                 // col[3] = 1.0;
             }
-            output
-        })
-        // XXX QR or LU? They both should work, I think, but I think QR can handle a greater range
-        //     of matrices?
-        .map(|mat| mat.lu().try_inverse().unwrap())
-        .collect();
-    let simplex_indices: Vec<_> = palette_ch.facets()
-        .filter(|f| f.vertices().all(|v| v.index() != star_index))
-        .map(|f| Vector4::from_iterator(
+            // XXX QR or LU? They both should work, I think, but I think QR can handle a greater
+            //     range of matrices?
+            let lu = output.lu();
+            // Facets in the same plane as the star vertex (without involving it) would create
+            // degenerate tetrahedrons as well. The colors are integers, so the determinant is too.
+            if lu.determinant().abs() < 0.5 {
+                return None
+            }
+            let indices = Vector4::from_iterator(
                 std::iter::once(star_index).chain(f.vertices().map(|v| v.index()))
-            ))
-        .collect();
+            );
+            Some((lu.try_inverse().unwrap(), indices))
+        })
+        .unzip();
 
     // TODO: Should we be using a sparse matrix? Is it likely to matter?
     //       Maybe we could benchmark to get an idea of how it affects performance?
@@ -435,7 +437,7 @@ pub(crate) fn compute_star_triangulation_coordinates(
         } else {
             // If this point is outside of the convex hull, then we want to find the point on the
             // hull closest to the point.
-            let (closest_facet, projected_point, _) = palette_ch.facets()
+            let (projected_point, _) = palette_ch.facets()
                 .map(|f| {
                     let mut it = f.vertices();
                     let v0 = it.next().unwrap().point().clone();
@@ -446,25 +448,22 @@ pub(crate) fn compute_star_triangulation_coordinates(
                     );
                     let diff = pixel - projected_point;
                     let dist = diff.dot(&diff);
-                    (f, projected_point, dist)
+                    (projected_point, dist)
                 })
-                .min_by(|(_, _, left), (_, _, right)| left.total_cmp(right))
+                .min_by(|(_, left), (_, right)| left.total_cmp(right))
                 .unwrap();
 
-            let solver_index = simplex_indices.iter().enumerate()
-                .find(|(_, indices)| {
-                    // This is a match if the simplex has all 3 of the vertices of closest facet.
-                    // There should only every be 1 simplex for which that is true.
-                    let indices = indices.as_slice();
-                    closest_facet.vertices()
-                        .map(|v| v.index())
-                        .all(|i| indices.contains(&i))
-                })
+            // The closest facet doesn't need to be part of any simplex (it can be in the same
+            // plane as the star), so look for the simplex that contains the point the best.
+            let vec = Vector4::new(projected_point[0], projected_point[1], projected_point[2], 1.0);
+            let solver_index = solvers.iter()
+                .enumerate()
+                .map(|(i, solver)| (i, (solver * vec).min()))
+                .max_by(|(_, left), (_, right)| left.total_cmp(right))
                 .map(|(i, _)| i)
                 .unwrap();
 
             let solver = &solvers[solver_index];
-            let vec = Vector4::new(projected_point[0], projected_point[1], projected_point[2], 1.0);
             solver.mul_to(&vec, &mut bcoords);
             &simplex_indices[solver_index]
         };
-- 
2.43.0


From 8115449154c80a43f8b36f2994873585b586cdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 10/32] fix: reject palettes with duplicate or coplanar colors
 instead of panicking

---
 image-palette-recoloring/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/image-palette-recoloring/src/lib.rs b/image-palette-recoloring/src/lib.rs
index 71e0462..2adfd36 100644
--- a/image-palette-recoloring/src/lib.rs
+++ b/image-palette-recoloring/src/lib.rs
@@ -160,6 +160,9 @@ impl DecomposedImage {
                 palette.len()
             ))
         }
+        if palette::is_flat(palette) {
+            return Err("All of the colors in the palette are in a single plane".into())
+        }
         let palette_ch: ConvexHull<Const<3>> = palette.iter()
             .map(|p| [p[0] as f64, p[1] as f64, p[2] as f64].into())
             .collect();
@@ -174,6 +177,10 @@ impl DecomposedImage {
             }
         }
 
+        if palette_ch.vertices().len() != palette.len() {
+            return Err("The palette contains the same color more than once".into())
+        }
+
         let palette_matrix = crate::palette::compute_star_triangulation_coordinates(
             &palette,
             &palette_ch,
-- 
2.43.0


From a0af0232bd876f223f81c864a02dcfdce2b915d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 11/32] fix: declare the max_palette_size parameter of
 compute_palette in the C header

---
 image-palette-recoloring-c/image-palette-recoloring.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/image-palette-recoloring-c/image-palette-recoloring.h b/image-palette-recoloring-c/image-palette-recoloring.h
index 2e1799a..0b0dde4 100644
--- a/image-palette-recoloring-c/image-palette-recoloring.h
+++ b/image-palette-recoloring-c/image-palette-recoloring.h
@@ -27,6 +27,7 @@ uint8_t *compute_palette(
     uint32_t img_heigh,
     const uint8_t *rgb_img_bytes,
     uint8_t min_palette_size,
+    uint8_t max_palette_size,
     double error_bound,
     uint8_t *out_palette_color_count
 );
-- 
2.43.0


From c8f60debe5bb098367cd396e53f6842621689455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:10 +0000
Subject: [PATCH 12/32] fix: report degenerate images to C callers instead of
 aborting

---
 .../image-palette-recoloring.h                    |  8 +++++++-
 image-palette-recoloring-c/src/lib.rs             | 15 ++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/image-palette-recoloring-c/image-palette-recoloring.h b/image-palette-recoloring-c/image-palette-recoloring.h
index 0b0dde4..ca1122c 100644
--- a/image-palette-recoloring-c/image-palette-recoloring.h
+++ b/image-palette-recoloring-c/image-palette-recoloring.h
@@ -13,7 +13,9 @@ typedef struct image_weights image_weights;
 /// This is the most expensive part of the process, so save the return to avoid
 /// unnecessarily recomputing it where possible.
 ///
-/// This computation shouldn't be able to fail.
+/// On failure, the function returns NULL. That only happens for degenerate
+/// images, ie ones whose pixels all lie in a single (hyper)plane of the RGBXY
+/// space. (For example, because there is only a single color in the image.)
 image_weights* create_image_weights(uint32_t width, uint32_t height, const uint8_t *rgb_bytes);
 void free_image_weights(image_weights *weights);
 
@@ -22,6 +24,10 @@ void free_image_weights(image_weights *weights);
 /// buffer returned is 3 times the value stored into out_palette_color_count.
 ///
 /// The return palette will never be smaller than 4 colors.
+///
+/// If the colors of the image all lie in a single plane, then there is no such
+/// palette and the function will return NULL. In this case,
+/// `out_palette_color_count` is set to 0.
 uint8_t *compute_palette(
     uint32_t img_width,
     uint32_t img_heigh,
diff --git a/image-palette-recoloring-c/src/lib.rs b/image-palette-recoloring-c/src/lib.rs
index b0ed75c..fe27b15 100644
--- a/image-palette-recoloring-c/src/lib.rs
+++ b/image-palette-recoloring-c/src/lib.rs
@@ -1,5 +1,6 @@
 use libc::c_void;
 
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::ptr;
 use std::slice;
 
@@ -29,7 +30,11 @@ unsafe extern "C" fn create_image_weights(width: u32, height: u32, bytes: *const
     let Some(img) = ImageBuffer::<Rgb<u8>, _>::from_raw(width, height, bytes_slice) else {
         return ptr::null()
     };
-    let weights = Box::new(ImageWeights::new(&img));
+    // Degenerate images cause a panic, which can't be allowed to reach the C code.
+    let Ok(weights) = catch_unwind(AssertUnwindSafe(|| ImageWeights::new(&img))) else {
+        return ptr::null()
+    };
+    let weights = Box::new(weights);
 
     Box::into_raw(weights) as *const _
 }
@@ -55,12 +60,16 @@ unsafe extern "C" fn compute_palette(
         return ptr::null_mut()
     };
 
-    let palette = image_palette_recoloring::compute_palette(
+    // Degenerate images cause a panic, which can't be allowed to reach the C code.
+    let Ok(palette) = catch_unwind(AssertUnwindSafe(|| image_palette_recoloring::compute_palette(
         &img,
         min_palette_size as usize,
         max_palette_size as usize,
         error_bound
-    );
+    ))) else {
+        *out_palette_size = 0;
+        return ptr::null_mut()
+    };
 
     *out_palette_size = palette.len() as u8;
     Box::into_raw(palette.into_boxed_slice()) as *mut [u8; 3]
-- 
2.43.0


From 458c8839ef25f2ce53e7e0f48d97c4b856680155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:10 +0000
Subject: [PATCH 13/32] fix: don't accept signs in the color lists of the CLI

---
 image-palette-recoloring-cli/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image-palette-recoloring-cli/src/main.rs b/image-palette-recoloring-cli/src/main.rs
index 6da768d..d80aa66 100644
--- a/image-palette-recoloring-cli/src/main.rs
+++ b/image-palette-recoloring-cli/src/main.rs
@@ -66,6 +66,10 @@ fn parse_color_list(list: &str) -> Result<ColorList, String> {
         if !color_str.is_ascii() {
             Err(format!("Color list contains non-ascii characters."))?
         }
+        if color_str.contains('+') {
+            // `from_str_radix` allows a sign
+            Err(format!("Color {i} isn't valid: contains a sign."))?
+        }
         colors.push(Rgb([
             u8::from_str_radix(&color_str[..2], 16)
                 .map_err(|e| format!("Invalid R comp. in color {i}: {e}"))?,
-- 
2.43.0


From 340e0acd069bc2d9273a39da5bc2677f4ba305d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 14/32] fix: accept the digit 6 in the color text fields of the
 web UI

---
 image-palette-recoloring-web/src/js/index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 52e8f5e..16da71b 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -34,7 +34,7 @@ function textInputUpdateColorInput(event) {
     let isValidHexString = value[0] == '#' && value.length == 7;
 
     for (let i = 1; i < value.length; i++) {
-        if (!'012345789abcdefABCDEF'.includes(value[i])) {
+        if (!'0123456789abcdefABCDEF'.includes(value[i])) {
             isValidHexString = false;
             break;
         }
-- 
2.43.0


From c1c717840e797affa64ac29699a1565f528d34c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 15/32] fix: release the image buffers of failed web worker
 requests

---
 image-palette-recoloring-web/src/js/webworker.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/webworker.js b/image-palette-recoloring-web/src/js/webworker.js
index 55bfdca..c5a1e9e 100644
--- a/image-palette-recoloring-web/src/js/webworker.js
+++ b/image-palette-recoloring-web/src/js/webworker.js
@@ -182,6 +182,7 @@ class RecoloringThreadWorker extends ThreadWorker {
                 let blob = await createBlobForArray(outputArray, width, height);
                 this.sendResponse(id, blob);
             } else {
+                wasmInst.exports.free_image_buffer(width * height * 3, imagePtr);
                 this.sendError(id, "Invalid palette size");
             }
         } else if (method == "grayscaleImageChannel") {
@@ -195,7 +196,7 @@ class RecoloringThreadWorker extends ThreadWorker {
             try {
                 success = wasmInst.exports.grayscale_image_channel(decompImagePtr, n, imagePtr);
             } catch (e) {
-                wasmInst.exports.free_image_buffer(width * height * 3, imagePtr);
+                wasmInst.exports.free_image_buffer(width * height, imagePtr);
                 throw e;
             }
 
@@ -213,6 +214,7 @@ class RecoloringThreadWorker extends ThreadWorker {
                 let blob = await createBlobForArray(outputArray, width, height);
                 this.sendResponse(id, blob);
             } else {
+                wasmInst.exports.free_image_buffer(width * height, imagePtr);
                 this.sendError(id, "Invalid palette channel");
             }
         } else {
-- 
2.43.0


From cc9142c4cbe98cc137c84b525efc93270814a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:15 +0000
Subject: [PATCH 16/32] fix: map the neighbors of hull facets to the right
 facets

---
 qhull-rs/src/convex_hull.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/convex_hull.rs b/qhull-rs/src/convex_hull.rs
index f9c1425..4eea3cf 100644
--- a/qhull-rs/src/convex_hull.rs
+++ b/qhull-rs/src/convex_hull.rs
@@ -49,7 +49,7 @@ impl<N> ConvexHull<N>
         let mut offsets_and_normals = vec![];
         let mut facet_id_map = HashMap::<u64, usize>::new();
         for facet in hull.facets() {
-            facet_id_map.insert(facet.id(), facets.len());
+            facet_id_map.insert(facet.id(), facet_id_map.len());
             offsets_and_normals.push((
                 // XXX This feels really gross, but it's necessary until a change is made to the
                 //     facet api :(
-- 
2.43.0


From c47b4d6143e7812a3ca2724418ded7b79750f3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 17/32] fix: don't lose extreme points of hulls in less than 5
 dimensions

---
 qhull-rs/src/raw.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index 9c9e331..ea27fbf 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -59,7 +59,13 @@ impl<N: DimName> ConvexHull<N> {
             qh: NonNull::new(qh).unwrap(),
             pd: PhantomData,
         };
-        let mut cmd = *b"qhull   Qc Qx         Qt\0";
+        // Exact merges (Qx) are meant for 5 or more dimensions. In lower dimensions they can drop
+        // extreme points, which the default of qhull (C-0) doesn't.
+        let mut cmd = if N::dim() < 5 {
+            *b"qhull   Qc            Qt\0"
+        } else {
+            *b"qhull   Qc Qx         Qt\0"
+        };
         let exit_code = qhull_sys::rqh_build(
             qh,
             cmd.as_mut_ptr().cast(),
-- 
2.43.0


From f0302ffc4d8c1044c1b193fed555130e5fed6b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:43 +0000
Subject: [PATCH 18/32] fix: treat almost singular simplices as degenerate in
 the raw API too

---
 qhull-rs/src/delaunay.rs | 2 +-
 qhull-rs/src/raw.rs      | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 5600345..86c6aa3 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -579,7 +579,7 @@ impl<'a, N> SimplexSearcher<'a, N>
 
 
 /// The maximum absolute column sum of a matrix
-fn one_norm<N>(mat: &OMatrix<f64, N, N>) -> f64
+pub(crate) fn one_norm<N>(mat: &OMatrix<f64, N, N>) -> f64
     where DefaultAllocator: Allocator<f64, N, N>,
           N: DimName,
 {
diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index ea27fbf..7083bd5 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -10,6 +10,8 @@ use nalgebra::{OMatrix, OVector};
 use nalgebra::base::allocator::{Allocator, Reallocator};
 use nalgebra::{Const, DefaultAllocator, DimAdd, DimName, DimSum, U1};
 
+use crate::delaunay::one_norm;
+
 
 /// Nth dimensional convex hull
 ///
@@ -911,12 +913,18 @@ impl<N: DimName> Delaunay<N>
                 continue;
             }
 
+            let mat_norm = one_norm(&mat);
             let lu = mat.clone().lu();
             let mat = if let Some(mat) = lu.try_inverse() {
                 mat
             } else {
                 continue;
             };
+            // Rounding errors can make the matrix of a flat simplex invertible, but the
+            // coordinates that come out of such an inverse are junk.
+            if !(mat_norm * one_norm(&mat) < 1.0 / (1000.0 * f64::EPSILON)) {
+                continue;
+            }
             solvers[simplex.id() as usize] = Some(BarycentricSolver {
                 mat,
             });
-- 
2.43.0


From 7ea1c4966666c96d2726c8b9267fb880af9452eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:20 +0000
Subject: [PATCH 19/32] fix: don't let the random order of a hash map decide
 about the palette

With an error bound of 0 (the default of the web UI), rounding errors decide
whether a hull is accepted, and those depended on the order of the pixels.
---
 image-palette-recoloring/src/palette.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index cb2134d..d62f817 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use good_lp::{ProblemVariables, VariableDefinition, SolverModel};
 use good_lp::solvers::Solution;
@@ -55,10 +55,11 @@ pub fn compute_palette(
         .collect();
     let mut previous_vcount = ch.vertices().len();
 
-    // Build up the list of unique pixels and their counts
-    let mut pixel_map = HashMap::new();
+    // Build up the list of unique pixels and their counts. Its order has an effect on rounding (and
+    // with that on whether a tight bound is met), so it must not be random.
+    let mut pixel_map = BTreeMap::new();
     for (_, _, pixel) in img.pixels() {
-        let count = pixel_map.entry(pixel).or_insert(0);
+        let count = pixel_map.entry(pixel.0).or_insert(0);
         *count += 1
     }
     let pixel_counts = pixel_map.into_iter()
-- 
2.43.0


From 47413eaa172e580219f22a91df314e5730a2daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:46 +0000
Subject: [PATCH 20/32] fix: report failures of the library to the page instead
 of passing null handles on

---
 .../src/js/webworker.js                       | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/image-palette-recoloring-web/src/js/webworker.js b/image-palette-recoloring-web/src/js/webworker.js
index c5a1e9e..dddd55b 100644
--- a/image-palette-recoloring-web/src/js/webworker.js
+++ b/image-palette-recoloring-web/src/js/webworker.js
@@ -66,7 +66,11 @@ class RecoloringThreadWorker extends ThreadWorker {
                 // We don't want to leak wasm memory :(
                 wasmInst.exports.free_image_buffer(width * height * 3, bufPtr);
             }
-            this.sendResponse(id, [weightsPtr, array], [array.buffer]);
+            if (weightsPtr) {
+                this.sendResponse(id, [weightsPtr, array], [array.buffer]);
+            } else {
+                this.sendError(id, "Invalid image");
+            }
         } else if (method == "computePalette") {
             let [array, width, height, minPaletteSize, maxPaletteSize, errorBound] = args;
             let bufPtr = wasmInst.exports.create_image_buffer(width * height * 3 + 1);
@@ -102,6 +106,11 @@ class RecoloringThreadWorker extends ThreadWorker {
                 wasmInst.exports.free_image_buffer(width * height * 3 + 1, bufPtr);
             }
 
+            if (!palettePtr) {
+                this.sendError(id, "Invalid image");
+                return;
+            }
+
             let paletteBuf = new Uint8ClampedArray(wasmInst.exports.memory.buffer, palettePtr, 3 * paletteSize);
             let palette = [];
             for (let i = 0; i < paletteSize; i++) {
@@ -134,7 +143,11 @@ class RecoloringThreadWorker extends ThreadWorker {
                 wasmInst.exports.free_image_buffer(paletteColors.length * 3, palettePtr);
             }
 
-            this.sendResponse(id, decomposedImagePtr);
+            if (decomposedImagePtr) {
+                this.sendResponse(id, decomposedImagePtr);
+            } else {
+                this.sendError(id, "Invalid palette");
+            }
         } else if (method == "freeImageWeights") {
             let [ptr] = args;
             wasmInst.exports.free_image_weights(ptr);
@@ -146,6 +159,12 @@ class RecoloringThreadWorker extends ThreadWorker {
         } else if (method == "reconstructImage") {
             let [decompImagePtr, paletteColors] = args;
 
+            // The library reads a color for each of the channels
+            if (paletteColors.length != wasmInst.exports.get_decomposed_image_num_channels(decompImagePtr)) {
+                this.sendError(id, "Invalid palette size");
+                return;
+            }
+
             let palettePtr = wasmInst.exports.create_image_buffer(3 * paletteColors.length);
             let paletteBuf = new Uint8ClampedArray(wasmInst.exports.memory.buffer, palettePtr, 3 * paletteColors.length);
 
-- 
2.43.0


From 2f96d92c0f31330bc44e965aceddb2c03fca636a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:10 +0000
Subject: [PATCH 21/32] fix: run operations of the page one after another, and
 enable the controls after failures

---
 image-palette-recoloring-web/src/js/index.js | 43 +++++++++++++-------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 16da71b..49e1f85 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -23,6 +23,30 @@ let g_imageWeightsPtr;
 let g_deconstructedImagePtr;
 let g_savedDecompositionPalette;
 
+let g_lastOperation = Promise.resolve();
+let g_operationCount = 0;
+
+// The operations on the image share the handles and the palette's fields, so each of them has to
+// wait for the ones before it. The controls are disabled until all of them are done, successfully
+// or not.
+function startOperation(operation) {
+    g_operationCount++;
+    setControlsDisabled(true);
+    g_lastOperation = g_lastOperation.then(operation).catch((e) => console.error(e)).then(() => {
+        g_operationCount--;
+        if (g_operationCount == 0) {
+            setControlsDisabled(false);
+        }
+    });
+}
+
+function setControlsDisabled(disabled) {
+    dstSpinner.style.visibility = disabled ? "visible" : "hidden";
+    recomputeOutputButton.disabled = disabled;
+    recomputePaletteButton.disabled = disabled;
+    srcImgPicker.disabled = disabled;
+}
+
 function colorInputUpdateTextInput(event) {
     event.target.nextElementSibling.value = event.target.value;
 }
@@ -83,11 +107,6 @@ function colorValuesToString(values) {
 async function initialSetup() {
     // TODO: Replace the dest image with a placeholder that is the same size
     offscreenImg.src = srcImg.src;
-    // TODO: Disable all controls until we're done
-    dstSpinner.style.visibility = "visible";
-    recomputeOutputButton.disabled = true;
-    recomputePaletteButton.disabled = true;
-    srcImgPicker.disabled = true;
 
     if (g_imageWeightsPtr != undefined) {
         await thread.sendRequest({
@@ -257,16 +276,12 @@ async function reconstructImage() {
         URL.revokeObjectURL(dstImg.src);
     }
     dstImg.src = url;
-    dstSpinner.style.visibility = "hidden";
-    recomputeOutputButton.disabled = false;
-    recomputePaletteButton.disabled = false;
-    srcImgPicker.disabled = false;
 }
 
 window.addEventListener("load", (event) => {
     // We need some event handlers
     // When the image in srcImg changes, we need to recompute the palette
-    srcImg.addEventListener("load", async () => await initialSetup());
+    srcImg.addEventListener("load", () => startOperation(initialSetup));
 
     srcImgPicker.addEventListener("change", (event) => {
         var selectedFile = event.target.files[0];
@@ -277,11 +292,11 @@ window.addEventListener("load", (event) => {
 
     });
 
-    recomputeOutputButton.addEventListener("click", async () => {
-        await reconstructImage();
+    recomputeOutputButton.addEventListener("click", () => {
+        startOperation(reconstructImage);
     });
-    recomputePaletteButton.addEventListener("click", async () => {
-        await recomputePalette();
+    recomputePaletteButton.addEventListener("click", () => {
+        startOperation(() => recomputePalette());
     });
 
     // Load "example.png" into the main image
-- 
2.43.0


From 82a5285053e2355516b8f39cd96dd2e39289e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:10 +0000
Subject: [PATCH 22/32] fix: don't decompose an image before there are weights

---
 image-palette-recoloring-web/src/js/index.js | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 49e1f85..999242a 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -212,6 +212,11 @@ async function recomputePalette(array) {
 }
 
 async function reconstructImage() {
+    if (g_imageWeightsPtr == undefined) {
+        // There is no image yet, or it couldn't be processed.
+        return;
+    }
+
     const currentPaletteColors = [];
     for (const paletteNode of paletteWrapper.children) {
         const value = paletteNode.children["palette-src-color"].value;
-- 
2.43.0


From 25ca84140cc9c89c15f02e2c3d4b92a5812acd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:22 +0000
Subject: [PATCH 23/32] fix: forget the handle of a decomposition that was
 freed

---
 image-palette-recoloring-web/src/js/index.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 999242a..a33152a 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -236,6 +236,7 @@ async function reconstructImage() {
                 method: "freeDecomposedImage",
                 args: [g_deconstructedImagePtr],
             })
+            g_deconstructedImagePtr = undefined;
         }
         g_deconstructedImagePtr = await thread.sendRequest({
             method: "createDecomposedImage",
-- 
2.43.0


From 2e03201e4da1cdba8e5750ff9f5ab1f938936ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:36 +0000
Subject: [PATCH 24/32] fix: keep the image when the file selection is cleared

---
 image-palette-recoloring-web/src/js/index.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index a33152a..c39d753 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -291,6 +291,10 @@ window.addEventListener("load", (event) => {
 
     srcImgPicker.addEventListener("change", (event) => {
         var selectedFile = event.target.files[0];
+        if (selectedFile == undefined) {
+            // The selection was cleared, keep the current image.
+            return;
+        }
         if (srcImg.src.length != 0) {
             URL.revokeObjectURL(srcImg.src);
         }
-- 
2.43.0


From c081d02a8f4d025c77ca31c80028f0904d8ee58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:45 +0000
Subject: [PATCH 25/32] fix: don't replace an image that was picked by the
 example when it arrives later

---
 image-palette-recoloring-web/src/js/index.js | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index c39d753..254a54b 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -313,6 +313,9 @@ window.addEventListener("load", (event) => {
     (async () => {
         let response = await fetch("example.png");
         let blob = await response.blob();
-        srcImg.src = URL.createObjectURL(blob);
+        // Don't replace an image that was picked in the meantime
+        if (srcImg.src.length == 0) {
+            srcImg.src = URL.createObjectURL(blob);
+        }
     })();
 });
-- 
2.43.0


From e555e069532a77e2f667546c336e64f0a8f08def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 26/32] fix: don't measure the error of a hull that clamping
 flattened

---
 image-palette-recoloring/src/palette.rs | 31 +++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index d62f817..ce4a466 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -99,7 +99,7 @@ pub fn compute_palette(
         // Calculating the average error can be expensive, so only do it for the last 6 or so
         // iterations
         if ch.vertices().len() <= max_palette_size {
-            let error = compute_pixel_error(&new_hull, &pixel_counts, total_count);
+            let error = compute_pixel_error(&new_hull, &new_palette, &pixel_counts, total_count);
             if error > error_bound {
                 // We've reached or exceeded the error bound, so we are exiting here.
                 // We return the previous hull that still was inside the error bound.
@@ -164,17 +164,40 @@ pub(crate) fn is_flat(colors: &[Rgb<u8>]) -> bool {
     }
 }
 
+/// An estimate of how far away the points are from all being in a single plane.
+fn thickness(points: &[Vector3<f64>]) -> f64 {
+    let origin = points[0];
+    let a = points.iter().map(|p| p - origin)
+        .max_by(|x, y| x.norm().total_cmp(&y.norm()))
+        .unwrap();
+    let normal = points.iter().map(|p| a.cross(&(p - origin)))
+        .max_by(|x, y| x.norm().total_cmp(&y.norm()))
+        .unwrap();
+    points.iter()
+        .map(|p| (p - origin).dot(&normal).abs() / normal.norm())
+        .fold(0.0, f64::max)
+}
+
 // TODO: Something about how I'm computing the error is wrong or at least doesn't capture the
 //       actual reproduction error. :\
 fn compute_pixel_error(
     ch: &ConvexHull<Const<3>>,
+    palette: &[Rgb<u8>],
     pixel_counts: &[(Vector3<f64>, f64)],
     total_count: f64,
 ) -> f64 {
-    let new_ch: ConvexHull<Const<3>> = ch.vertices()
+    let mut points = ch.vertices()
         .map(|v| v.point())
-        .map(|p| [p.x.clamp(0.0, 1.0), p.y.clamp(0.0, 1.0), p.z.clamp(0.0, 1.0)].into())
-        .collect();
+        .map(|p| Vector3::new(p.x.clamp(0.0, 1.0), p.y.clamp(0.0, 1.0), p.z.clamp(0.0, 1.0)))
+        .collect::<Vec<_>>();
+    if thickness(&points) < 1e-9 {
+        // Clamping flattened the hull and only rounding gave it a volume again, so all that can be
+        // measured are the rounded colors.
+        points = palette.iter()
+            .map(|c| Vector3::new(c[0] as f64, c[1] as f64, c[2] as f64) / 255.0)
+            .collect();
+    }
+    let new_ch: ConvexHull<Const<3>> = points.into_iter().collect();
     let tri = Delaunay::from_arrays(new_ch.vertices()
         .map(|v| v.point())
         .map(|p| [p.x, p.y, p.z])
-- 
2.43.0


From daa1ed015496ebfa04aebebdeb604db1f385fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 27/32] fix: handle addresses from 2 GiB on in the web worker

---
 image-palette-recoloring-web/src/js/webworker.js | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/image-palette-recoloring-web/src/js/webworker.js b/image-palette-recoloring-web/src/js/webworker.js
index dddd55b..28d237f 100644
--- a/image-palette-recoloring-web/src/js/webworker.js
+++ b/image-palette-recoloring-web/src/js/webworker.js
@@ -38,13 +38,14 @@ async function createBlobForArray(array, width, height) {
     return await canvas.convertToBlob();
 }
 
+// Addresses from 2 GiB on are negative numbers in the eyes of JS (hence each `>>> 0`).
 class RecoloringThreadWorker extends ThreadWorker {
     async onRequest(id, payload) {
         const wasmInst = await wasmInstPromise;
         let { method, args } = payload;
         if (method == "createImageWeights") {
             let [array, width, height] = args;
-            let bufPtr = wasmInst.exports.create_image_buffer(width * height * 3);
+            let bufPtr = wasmInst.exports.create_image_buffer(width * height * 3) >>> 0;
             let buf = new Uint8ClampedArray(wasmInst.exports.memory.buffer, bufPtr, width * height * 3);
             console.log(`bufPtr: ${bufPtr}`);
 
@@ -73,7 +74,7 @@ class RecoloringThreadWorker extends ThreadWorker {
             }
         } else if (method == "computePalette") {
             let [array, width, height, minPaletteSize, maxPaletteSize, errorBound] = args;
-            let bufPtr = wasmInst.exports.create_image_buffer(width * height * 3 + 1);
+            let bufPtr = wasmInst.exports.create_image_buffer(width * height * 3 + 1) >>> 0;
             let buf = new Uint8ClampedArray(wasmInst.exports.memory.buffer, bufPtr, width * height * 3 + 1);
             for (let i = 0; i < width * height; i++) {
                 buf[i * 3] = array[i * 4];
@@ -94,7 +95,7 @@ class RecoloringThreadWorker extends ThreadWorker {
                     maxPaletteSize,
                     errorBound,
                     bufPtr + width * height * 3,
-                );
+                ) >>> 0;
                 let paletteSizeBuf = new Uint8ClampedArray(wasmInst.exports.memory.buffer, bufPtr + width * height * 3, 1);
                 paletteSize = paletteSizeBuf[0];
             } catch (e) {
@@ -125,7 +126,7 @@ class RecoloringThreadWorker extends ThreadWorker {
             this.sendResponse(id, [palette, array], [array.buffer]);
         } else if (method == "createDecomposedImage") {
             let [imageWeightsPtr, paletteColors] = args;
-            let palettePtr = wasmInst.exports.create_image_buffer(3 * paletteColors.length);
+            let palettePtr = wasmInst.exports.create_image_buffer(3 * paletteColors.length) >>> 0;
             let paletteBuf = new Uint8ClampedArray(wasmInst.exports.memory.buffer, palettePtr, 3 * paletteColors.length);
 
             for (let i = 0; i < paletteColors.length; i++) {
@@ -165,7 +166,7 @@ class RecoloringThreadWorker extends ThreadWorker {
                 return;
             }
 
-            let palettePtr = wasmInst.exports.create_image_buffer(3 * paletteColors.length);
+            let palettePtr = wasmInst.exports.create_image_buffer(3 * paletteColors.length) >>> 0;
             let paletteBuf = new Uint8ClampedArray(wasmInst.exports.memory.buffer, palettePtr, 3 * paletteColors.length);
 
             for (let i = 0; i < paletteColors.length; i++) {
@@ -175,7 +176,7 @@ class RecoloringThreadWorker extends ThreadWorker {
             }
             let width = wasmInst.exports.get_decomposed_image_width(decompImagePtr);
             let height = wasmInst.exports.get_decomposed_image_height(decompImagePtr);
-            let imagePtr = wasmInst.exports.create_image_buffer(width * height * 3);
+            let imagePtr = wasmInst.exports.create_image_buffer(width * height * 3) >>> 0;
 
             let success;
             try {
@@ -209,7 +210,7 @@ class RecoloringThreadWorker extends ThreadWorker {
 
             let width = wasmInst.exports.get_decomposed_image_width(decompImagePtr);
             let height = wasmInst.exports.get_decomposed_image_height(decompImagePtr);
-            let imagePtr = wasmInst.exports.create_image_buffer(width * height);
+            let imagePtr = wasmInst.exports.create_image_buffer(width * height) >>> 0;
 
             let success;
             try {
-- 
2.43.0


From 59609b3c399c354d93eaf4bfa42e50ab0afba20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:42 +0000
Subject: [PATCH 28/32] fix: don't truncate the size of palettes with more than
 255 colors in the C interface

---
 image-palette-recoloring-c/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring-c/src/lib.rs b/image-palette-recoloring-c/src/lib.rs
index fe27b15..0540ce5 100644
--- a/image-palette-recoloring-c/src/lib.rs
+++ b/image-palette-recoloring-c/src/lib.rs
@@ -71,7 +71,13 @@ unsafe extern "C" fn compute_palette(
         return ptr::null_mut()
     };
 
-    *out_palette_size = palette.len() as u8;
+    // More colors than can be counted aren't a usable result either.
+    let Ok(palette_size) = u8::try_from(palette.len()) else {
+        *out_palette_size = 0;
+        return ptr::null_mut()
+    };
+
+    *out_palette_size = palette_size;
     Box::into_raw(palette.into_boxed_slice()) as *mut [u8; 3]
 }
 
-- 
2.43.0


From 2fb53ace7c7cb45badcfd68121c047a01e632b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 29/32] fix: handle images of 4 GiB and more in the C interface

---
 image-palette-recoloring-c/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/image-palette-recoloring-c/src/lib.rs b/image-palette-recoloring-c/src/lib.rs
index 0540ce5..943acfe 100644
--- a/image-palette-recoloring-c/src/lib.rs
+++ b/image-palette-recoloring-c/src/lib.rs
@@ -26,7 +26,7 @@ unsafe extern "C" fn free_image_buffer(size: u32, buf: *mut u8) {
 unsafe extern "C" fn create_image_weights(width: u32, height: u32, bytes: *const u8)
     -> *const c_void
 {
-    let bytes_slice = slice::from_raw_parts(bytes, 3 * (width * height) as usize);
+    let bytes_slice = slice::from_raw_parts(bytes, 3 * width as usize * height as usize);
     let Some(img) = ImageBuffer::<Rgb<u8>, _>::from_raw(width, height, bytes_slice) else {
         return ptr::null()
     };
@@ -55,7 +55,7 @@ unsafe extern "C" fn compute_palette(
     out_palette_size: *mut u8
 ) -> *mut [u8; 3]
 {
-    let bytes_slice = slice::from_raw_parts(img_bytes, (img_width * img_height * 3) as usize);
+    let bytes_slice = slice::from_raw_parts(img_bytes, 3 * img_width as usize * img_height as usize);
     let Some(img) = ImageBuffer::<Rgb<u8>, _>::from_raw(img_width, img_height, bytes_slice) else {
         return ptr::null_mut()
     };
@@ -139,7 +139,7 @@ unsafe extern "C" fn reconstruct_image(
 
     let output_slice = slice::from_raw_parts_mut(
         output_buffer,
-        (reconstructed.width() * reconstructed.height() * 3) as usize,
+        3 * reconstructed.width() as usize * reconstructed.height() as usize,
     );
     output_slice.copy_from_slice(&reconstructed);
     1
@@ -159,7 +159,7 @@ unsafe extern "C" fn grayscale_image_channel(
 
     let output_slice = slice::from_raw_parts_mut(
         output_buffer,
-        (reconstructed.width() * reconstructed.height()) as usize,
+        reconstructed.width() as usize * reconstructed.height() as usize,
     );
     output_slice.copy_from_slice(&reconstructed);
     1
-- 
2.43.0


From d0c1d55cfea4cab5cc12dc37a1866e18e96ab303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 30/32] fix: don't read past the end of the normals of raw
 hulls

---
 qhull-rs/src/raw.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index 7083bd5..e40b200 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -222,7 +222,9 @@ impl<'a, N: DimName> Facet<'a, N> {
     pub fn normal(&self) -> &'a [f64] {
         unsafe {
             let normal_ptr = ptr::addr_of!((*self.ptr.as_ptr()).normal).read();
-            std::slice::from_raw_parts(normal_ptr, N::dim() + 1)
+            // The facets of a triangulation have one dimension more than its points. Each facet is
+            // a simplex (Qt), so it has as many vertices as its normal has components.
+            std::slice::from_raw_parts(normal_ptr, self.vertices().count())
         }
     }
 
-- 
2.43.0


From 4f9dd5cc3c7675c2a8e81498847c2161e46e7813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 31/32] fix: compute the neighbors of the vertices of raw hulls

---
 qhull-sys/src/ext.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qhull-sys/src/ext.c b/qhull-sys/src/ext.c
index 2cbe0d1..f6b1072 100644
--- a/qhull-sys/src/ext.c
+++ b/qhull-sys/src/ext.c
@@ -77,6 +77,8 @@ int rqh_build(qhT *qh, char *flags, boolT delaunay, coordT *points, int numpoint
         qh_init_B(qh, points, numpoints, dim, True);
         qh_qhull(qh);
         qh_triangulate(qh);
+        /* Otherwise they're only there if something needed them along the way. */
+        qh_vertexneighbors(qh);
     }
     qh->NOerrexit = True;
     return exitcode;
-- 
2.43.0


From 617b2e2f80871f85f47ec3143c086abfa84b967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:41 +0000
Subject: [PATCH 32/32] fix: a panic of the LP solver is no reason to give up
 on the palette

---
 image-palette-recoloring/src/palette.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index ce4a466..61ba42f 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -351,15 +351,17 @@ fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> Option<([f64; 3], [usiz
         for (coefs, bound) in a.iter().zip(&b) {
             model.add_constraint((px * coefs[0] + py * coefs[1] + pz * coefs[2]).leq(*bound));
         }
-        match model.solve() {
-            Ok(solution) => {
+        // The solver panics (instead of returning an error) if rounding makes the planes singular.
+        let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| model.solve()));
+        match result {
+            Ok(Ok(solution)) => {
                 let p = [solution.value(px), solution.value(py), solution.value(pz)];
                 let vol = face_points.iter()
                     .map(|(p0, p1, p2)| tetrahedron_volume(p0, p1, p2, &p.into()))
                     .sum::<f64>();
                 edge_candidates.push(([edge[0].index(), edge[1].index()], p, vol));
             }
-            Err(_e) => (),
+            Ok(Err(_)) | Err(_) => (),
         }
     }
     let (edge_vertices, new_point, _vol) = edge_candidates.iter()
-- 
2.43.0

