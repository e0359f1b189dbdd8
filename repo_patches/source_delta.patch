From 6ee41d6d37f57baf8ac9e98a456370a5646ea00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 1/9] fix: use the 7-alpha range for the endpoints of the
 7-alpha codebook

The encoder matched pixels against the endpoints of the 5-alpha range but
wrote those of the 7-alpha range, so pixels equal to the former decoded to a
value other than the nearest one.
---
 lib/src/alpha.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/alpha.rs b/lib/src/alpha.rs
index d5cde06..c53e3d6 100644
--- a/lib/src/alpha.rs
+++ b/lib/src/alpha.rs
@@ -235,8 +235,8 @@ pub fn compress_bc3(rgba: &[[u8; 4]; 16], channel: usize, mask: u32, block: &mut
 
     // set up the 7-alpha codebook
     let mut codes7 = [0u8; 8];
-    codes7[0] = min5;
-    codes7[1] = max5;
+    codes7[0] = min7;
+    codes7[1] = max7;
     for i in 1..7i32 {
         codes7[1 + i as usize] = (((7 - i) * i32::from(min7) + i * i32::from(max7)) / 7) as u8;
     }
-- 
2.43.0


From 9af26fbaf42842cf904382eae09e516dea3c889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 2/9] fix: accept output buffers larger than the image needs

Rows of the output past the last row of blocks were processed as well: compress
panicked on a partial trailing block or overwrote the excess, decompress read
past the end of the compressed data.
---
 lib/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index ea15d64..8453719 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -130,7 +130,8 @@ impl Format {
         #[cfg(not(feature = "rayon"))]
         let output_rows = output.chunks_mut(width * 4 * 4);
 
-        // loop over blocks
+        // loop over blocks, leaving any excess output untouched
+        let output_rows = output_rows.take(num_blocks(height));
         output_rows.enumerate().for_each(|(y, output_row)| {
             for x in 0..blocks_wide {
                 // decompress the block
@@ -302,6 +303,8 @@ impl Format {
         #[cfg(not(feature = "rayon"))]
         let output_rows = output.chunks_mut(blocks_wide * block_size);
 
+        // leave any output in excess of the compressed size untouched
+        let output_rows = output_rows.take(num_blocks(height));
         output_rows.enumerate().for_each(|(y, output_row)| {
             let mut source_rgba = [[0u8; 4]; 16];
             let output_blocks = output_row.chunks_mut(block_size);
-- 
2.43.0


From b2beeb375e313d6381d8e387d93bad0b9d566d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 3/9] fix: do not panic on images of zero width

The output was split into chunks of zero bytes, which panics. An image of zero
height was already handled.
---
 lib/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index 8453719..a33f16b 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -125,6 +125,11 @@ impl Format {
         let blocks_wide = num_blocks(width);
         let block_size = self.block_size();
 
+        // an image without pixels has no rows to iterate over
+        if blocks_wide == 0 {
+            return;
+        }
+
         #[cfg(feature = "rayon")]
         let output_rows = output.par_chunks_mut(width * 4 * 4);
         #[cfg(not(feature = "rayon"))]
@@ -298,6 +303,11 @@ impl Format {
         let block_size = self.block_size();
         let blocks_wide = num_blocks(width);
 
+        // an image without pixels has no rows to iterate over
+        if blocks_wide == 0 {
+            return;
+        }
+
         #[cfg(feature = "rayon")]
         let output_rows = output.par_chunks_mut(blocks_wide * block_size);
         #[cfg(not(feature = "rayon"))]
-- 
2.43.0


From 26ce5216980a2bd92917a8c93efaabaf5aab21a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 4/9] fix: keep the principal axis finite when it is orthogonal
 to grey

Power iteration started from (1,1,1), which the covariance matrix maps to zero
when the colours differ along an axis orthogonal to grey. The axis became NaN,
range fit then mapped every pixel to the first colour and cluster fit lost the
other colours of the block, e.g. for a checkerboard of pure red and green.
---
 lib/src/math.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/src/math.rs b/lib/src/math.rs
index 1012f8f..100e516 100644
--- a/lib/src/math.rs
+++ b/lib/src/math.rs
@@ -80,6 +80,21 @@ impl Sym3x3 {
         let row2 = Vec4::new(self.x[2], self.x[4], self.x[5], 0.0);
         let mut v = Vec4::new(1.0, 1.0, 1.0, 1.0);
 
+        // Power iteration can't leave the null space of the matrix. If the start vector lies in
+        // it (e.g. the principal axis of pure red and pure green is orthogonal to grey), start
+        // from the dominant row instead, which always has a component along the principal axis.
+        let w = row0 + row1 + row2;
+        let w = libm::fabsf(w.x()).max(libm::fabsf(w.y()).max(libm::fabsf(w.z())));
+        if w <= (self.x[0] + self.x[3] + self.x[5]) * 1e-5 {
+            v = if self.x[0] >= self.x[3] && self.x[0] >= self.x[5] {
+                row0
+            } else if self.x[3] >= self.x[5] {
+                row1
+            } else {
+                row2
+            };
+        }
+
         for _ in 0..POWER_ITERATION_COUNT {
             // matrix multiplication
             let w = row0 * v.splat_x();
-- 
2.43.0


From 6abfa0c0999b17f715e39a3ec3b2fab58ff7591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 5/9] fix: encode the PNG before creating the output file

Decompressing a DDS of zero width or height failed in the PNG encoder after
the output file had been created, replacing an existing file by a truncated
one.
---
 cli/src/image/png.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cli/src/image/png.rs b/cli/src/image/png.rs
index f7e5c3d..4b63a29 100644
--- a/cli/src/image/png.rs
+++ b/cli/src/image/png.rs
@@ -19,8 +19,7 @@
 // TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE
 // SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
-use std::fs::File;
-use std::io::BufWriter;
+use std::fs::{self, File};
 use std::path::Path;
 
 use png::{BitDepth, ColorType, Transformations};
@@ -70,13 +69,16 @@ pub fn read(path: &Path) -> RawImage {
 }
 
 pub fn write(path: &Path, width: u32, height: u32, data: &[u8]) {
-    let file = File::create(path).expect("Unable to create file");
-    let w = &mut BufWriter::new(file);
+    // encode everything before creating the file, so that failure leaves an existing file alone
+    let mut out = Vec::new();
 
-    let mut encoder = png::Encoder::new(w, width, height);
+    let mut encoder = png::Encoder::new(&mut out, width, height);
     encoder.set_color(ColorType::Rgba);
     encoder.set_depth(BitDepth::Eight);
     let mut writer = encoder.write_header().unwrap();
 
     writer.write_image_data(data).unwrap();
+    writer.finish().unwrap();
+
+    fs::write(path, out).expect("Unable to create file");
 }
-- 
2.43.0


From dfc9c48bf5068797785e105f59685f542952e6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 6/9] fix: refuse a DDS whose payload cannot fill its
 dimensions

With a width and height of 2^31 the size of the output wrapped around to zero
in release builds, so that a truncated file was turned into an invalid PNG with
exit status 0.  A truncated file of 2^31 rows printed a panic message for each
of them.
---
 cli/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 5f82454..a85c9f9 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -188,7 +188,12 @@ fn decompress_file(outfile: Option<PathBuf>, infile: &Path) {
 
     let width = dds.header.width as usize;
     let height = dds.header.height as usize;
-    let mut decompressed = vec![0u8; 4 * width * height];
+    let size = width.checked_mul(height).and_then(|n| n.checked_mul(4));
+    let size = size.expect("Image dimensions are too large");
+    if dds.data.len() < format.compressed_size(width, height) {
+        panic!("Not enough data for an image of this size");
+    }
+    let mut decompressed = vec![0u8; size];
 
     format.decompress(&dds.data, width, height, &mut decompressed);
 
-- 
2.43.0


From 7bd0c048283814010ff6a0de7e0e8aef99c90efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 7/9] fix: find the principal axis when the power iteration
 starts orthogonal to it

---
 lib/src/math.rs | 58 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/lib/src/math.rs b/lib/src/math.rs
index 100e516..9cf23f3 100644
--- a/lib/src/math.rs
+++ b/lib/src/math.rs
@@ -72,28 +72,23 @@ impl Sym3x3 {
         covariance
     }
 
-    pub fn principle_component(&self) -> Vec3 {
+    /// Variance along a direction
+    fn variance_along(&self, v: &Vec3) -> f32 {
+        let row0 = Vec3::new(self.x[0], self.x[1], self.x[2]);
+        let row1 = Vec3::new(self.x[1], self.x[3], self.x[4]);
+        let row2 = Vec3::new(self.x[2], self.x[4], self.x[5]);
+        let w = Vec3::new(row0.dot(v), row1.dot(v), row2.dot(v));
+
+        w.dot(v) / v.dot(v)
+    }
+
+    fn power_iteration(&self, start: Vec4) -> Vec3 {
         const POWER_ITERATION_COUNT: usize = 8;
 
         let row0 = Vec4::new(self.x[0], self.x[1], self.x[2], 0.0);
         let row1 = Vec4::new(self.x[1], self.x[3], self.x[4], 0.0);
         let row2 = Vec4::new(self.x[2], self.x[4], self.x[5], 0.0);
-        let mut v = Vec4::new(1.0, 1.0, 1.0, 1.0);
-
-        // Power iteration can't leave the null space of the matrix. If the start vector lies in
-        // it (e.g. the principal axis of pure red and pure green is orthogonal to grey), start
-        // from the dominant row instead, which always has a component along the principal axis.
-        let w = row0 + row1 + row2;
-        let w = libm::fabsf(w.x()).max(libm::fabsf(w.y()).max(libm::fabsf(w.z())));
-        if w <= (self.x[0] + self.x[3] + self.x[5]) * 1e-5 {
-            v = if self.x[0] >= self.x[3] && self.x[0] >= self.x[5] {
-                row0
-            } else if self.x[3] >= self.x[5] {
-                row1
-            } else {
-                row2
-            };
-        }
+        let mut v = start;
 
         for _ in 0..POWER_ITERATION_COUNT {
             // matrix multiplication
@@ -110,6 +105,35 @@ impl Sym3x3 {
 
         v.to_vec3()
     }
+
+    pub fn principle_component(&self) -> Vec3 {
+        let mut axis = self.power_iteration(Vec4::new(1.0, 1.0, 1.0, 1.0));
+        let mut variance = self.variance_along(&axis);
+
+        // Power iteration can't find an axis the start vector has no component along (e.g. that of
+        // as much pure red as pure green is orthogonal to grey). An axis with half of all variance
+        // is the principal one; otherwise look from the rows, of which at least one has a component
+        // along it. The result is NaN if the start vector is in the null space of the matrix.
+        let half = 0.5 * (self.x[0] + self.x[3] + self.x[5]);
+        if variance.is_nan() || variance < half {
+            let rows = [
+                Vec4::new(self.x[0], self.x[1], self.x[2], 0.0),
+                Vec4::new(self.x[1], self.x[3], self.x[4], 0.0),
+                Vec4::new(self.x[2], self.x[4], self.x[5], 0.0),
+            ];
+
+            for &row in &rows {
+                let other = self.power_iteration(row);
+                let other_variance = self.variance_along(&other);
+                if variance.is_nan() || other_variance > variance {
+                    axis = other;
+                    variance = other_variance;
+                }
+            }
+        }
+
+        axis
+    }
 }
 
 pub fn f32_to_i32_clamped(a: f32, limit: i32) -> i32 {
-- 
2.43.0


From c9427b1d813765c68be8039c5424fd52172c381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 8/9] fix: look for the principal axis from the rows of the
 covariance too, not only as a fallback

For mirrored colours, such as as much of one as of its mirror image, the iteration from grey has
hardly a component along the principal axis. After eight steps it may have found it in part and
have half of all variance, yet be tilted so far that range fit takes the wrong ends.
---
 lib/src/math.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/lib/src/math.rs b/lib/src/math.rs
index 9cf23f3..91dfe9c 100644
--- a/lib/src/math.rs
+++ b/lib/src/math.rs
@@ -111,24 +111,22 @@ impl Sym3x3 {
         let mut variance = self.variance_along(&axis);
 
         // Power iteration can't find an axis the start vector has no component along (e.g. that of
-        // as much pure red as pure green is orthogonal to grey). An axis with half of all variance
-        // is the principal one; otherwise look from the rows, of which at least one has a component
-        // along it. The result is NaN if the start vector is in the null space of the matrix.
-        let half = 0.5 * (self.x[0] + self.x[3] + self.x[5]);
-        if variance.is_nan() || variance < half {
-            let rows = [
-                Vec4::new(self.x[0], self.x[1], self.x[2], 0.0),
-                Vec4::new(self.x[1], self.x[3], self.x[4], 0.0),
-                Vec4::new(self.x[2], self.x[4], self.x[5], 0.0),
-            ];
-
-            for &row in &rows {
-                let other = self.power_iteration(row);
-                let other_variance = self.variance_along(&other);
-                if variance.is_nan() || other_variance > variance {
-                    axis = other;
-                    variance = other_variance;
-                }
+        // as much pure red as pure green is orthogonal to grey), or finds it only in part, from
+        // rounding errors. At least one of the rows has a large component along the principal axis,
+        // so start from these as well and keep the axis with the most variance. The result is NaN
+        // if the start vector is in the null space of the matrix.
+        let rows = [
+            Vec4::new(self.x[0], self.x[1], self.x[2], 0.0),
+            Vec4::new(self.x[1], self.x[3], self.x[4], 0.0),
+            Vec4::new(self.x[2], self.x[4], self.x[5], 0.0),
+        ];
+
+        for &row in &rows {
+            let other = self.power_iteration(row);
+            let other_variance = self.variance_along(&other);
+            if variance.is_nan() || other_variance > variance {
+                axis = other;
+                variance = other_variance;
             }
         }
 
-- 
2.43.0


From 7c4445bb7d942a536d6abe750e320d967a111057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:13 +0000
Subject: [PATCH 9/9] fix: accept the name of a format in upper case, as
 documented

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index a85c9f9..6c64eaf 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -60,7 +60,7 @@ enum Opt {
         infile: PathBuf,
 
         /// Compression format
-        #[arg(short = 'f', long = "format")]
+        #[arg(short = 'f', long = "format", ignore_case = true)]
         format: CliFormat,
 
         /// Compressor profile (speed, balanced, quality).
-- 
2.43.0

