From 7a1ed6c1010492e0ec231e1a3073e324683af15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 01/13] fix: multi-value reads of 32-bit, mixed-width and
 zero-width values return the written values

---
 src/unaligned_rw.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/unaligned_rw.rs b/src/unaligned_rw.rs
index 05ff6a4..802df6b 100644
--- a/src/unaligned_rw.rs
+++ b/src/unaligned_rw.rs
@@ -55,7 +55,7 @@ impl<R: Read> UnalignedReader<R> {
         if mode.0 == 0 {
             return Ok((0, 0));
         }
-        if mode.0 > (u64::BITS / 2) as u8 {
+        if mode.0 >= (u64::BITS / 2) as u8 {
             Ok((self.read_unaligned(mode)?, self.read_unaligned(mode)?))
         } else {
             let read_size = UnalignedRWMode(mode.0 * 2);
@@ -70,17 +70,20 @@ impl<R: Read> UnalignedReader<R> {
         mode1: UnalignedRWMode,
         mode2: UnalignedRWMode,
     ) -> Result<(u64, u64)> {
-        if mode1.0 + mode2.0 > u64::BITS as u8 {
+        if mode1.0 + mode2.0 >= u64::BITS as u8 || mode2.0 == 0 {
             Ok((self.read_unaligned(mode1)?, self.read_unaligned(mode2)?))
         } else {
             let read_size = UnalignedRWMode(mode1.0 + mode2.0);
             let data = self.read_unaligned(read_size)?;
-            let r1 = data >> mode1.0;
-            let r2 = data << (u64::BITS as u8 - mode1.0) >> (u64::BITS as u8 - mode1.0);
+            let r1 = data >> mode2.0;
+            let r2 = data << (u64::BITS as u8 - mode2.0) >> (u64::BITS as u8 - mode2.0);
             Ok((r1, r2))
         }
     }
     pub fn read3_unaligned(&mut self, mode: UnalignedRWMode) -> Result<(u64, u64, u64)> {
+        if mode.0 == 0 {
+            return Ok((0, 0, 0));
+        }
         if mode.0 > (u64::BITS / 3) as u8 {
             let res_1_2 = self.read2_unaligned(mode)?;
             Ok((res_1_2.0, res_1_2.1, self.read_unaligned(mode)?))
-- 
2.43.0


From 979ab36e40f2dd3f3997d4a4c8fb733af963f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 02/13] fix: bit-packed streams survive interrupted reads and
 report a lost last byte

---
 src/unaligned_rw.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/unaligned_rw.rs b/src/unaligned_rw.rs
index 802df6b..6d5ea9f 100644
--- a/src/unaligned_rw.rs
+++ b/src/unaligned_rw.rs
@@ -25,7 +25,13 @@ impl<R: Read> UnalignedReader<R> {
         } else {
             let mut tmp: [u8; std::mem::size_of::<UnalignedStorage>()] =
                 [0; std::mem::size_of::<UnalignedStorage>()];
-            let bits_read = self.reader.read(&mut tmp)? * 8;
+            let bits_read = loop {
+                match self.reader.read(&mut tmp) {
+                    Ok(bytes_read) => break bytes_read * 8,
+                    Err(err) if err.kind() == std::io::ErrorKind::Interrupted => continue,
+                    Err(err) => return Err(err),
+                }
+            };
             if bits_read == 0 {
                 return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, ""));
             }
@@ -152,14 +158,8 @@ pub struct UnalignedWriter<W: Write> {
 }
 impl<W: Write> Drop for UnalignedWriter<W> {
     fn drop(&mut self) {
-        if self.written > 0 {
-            self.writer
-                .write_all(&[self.next_byte])
-                .expect("Unaligned writer failed to write last byte when dropped")
-        };
-        self.writer
-            .flush()
-            .expect("Unaligned writer failed to flush when dropped");
+        // Errors can't be returned from here. Those who need to handle them call `flush` before dropping the writer.
+        let _ = self.flush();
     }
 }
 impl<W: Write> UnalignedWriter<W> {
@@ -219,6 +219,11 @@ impl<W: Write> UnalignedWriter<W> {
     }
     /// This function should be called when and *ONLY* when writer is no longer in use. It flushes the writer an allows user to handle errors.
     pub fn flush(&mut self) -> Result<()> {
+        if self.written > 0 {
+            self.writer.write_all(&[self.next_byte])?;
+            self.written = 0;
+            self.next_byte = 0;
+        }
         self.writer.flush()
     }
 }
-- 
2.43.0


From ce5b7740d7ed9f119c0d1d93521cebd8c2616d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 03/13] fix: vertices are saved relative to their own bounding
 box

---
 src/vertices.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 9f97f85..33149cd 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -44,10 +44,10 @@ pub fn save_tmf_vertices<W: Write>(
     //Get min and max x,y,z coords
     for vertex in vertices {
         min_x = min_x.min(vertex.0);
-        max_x = max_y.max(vertex.1);
-        min_y = min_z.min(vertex.2);
-        max_y = max_x.max(vertex.0);
-        min_z = min_y.min(vertex.1);
+        max_x = max_x.max(vertex.0);
+        min_y = min_y.min(vertex.1);
+        max_y = max_y.max(vertex.1);
+        min_z = min_z.min(vertex.2);
         max_z = max_z.max(vertex.2);
     }
     writer.write_all(&(min_x as f64).to_le_bytes())?;
@@ -67,7 +67,7 @@ pub fn save_tmf_vertices<W: Write>(
     //Calculate minimal increment
     let inc_x = (shortest_edge / sx) * precision.0;
     let inc_y = (shortest_edge / sy) * precision.0;
-    let inc_z = (shortest_edge / sy) * precision.0;
+    let inc_z = (shortest_edge / sz) * precision.0;
     //Calculate write precision
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
-- 
2.43.0


From 78db4bdc35e140b8560c04702fb87aebe178f914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 04/13] fix: empty vertex arrays and degenerate triangles can
 be saved

---
 src/tmf_exporter.rs | 13 +++++++++++--
 src/utilis.rs       |  9 +++++----
 src/vertices.rs     | 13 +++++++------
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 0f59737..39d7be5 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -49,9 +49,18 @@ fn calc_shortest_edge(
                     vertices[vertex_triangles[i * 3 + 2] as usize],
                     vertices[vertex_triangles[i * 3] as usize],
                 );
-                shortest_edge = shortest_edge.min(d1.min(d2.min(d3)));
+                // Degenerate triangles have edges of length 0, which say nothing about the scale of the mesh.
+                for edge in [d1, d2, d3] {
+                    if edge > 0.0 {
+                        shortest_edge = shortest_edge.min(edge);
+                    }
+                }
+            }
+            if shortest_edge.is_finite() {
+                shortest_edge
+            } else {
+                0.1
             }
-            shortest_edge
         }
         // TODO: Calculate distance between closest points for point cloud
         None => 0.1,
diff --git a/src/utilis.rs b/src/utilis.rs
index 1afb596..5b84864 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -61,10 +61,11 @@ pub(crate) fn normalize(i: Vector3) -> Vector3 {
     }
 }
 pub(crate) fn distance(a: Vector3, b: Vector3) -> FloatType {
-    let dx = a.0 - b.0;
-    let dy = a.1 - b.1;
-    let dz = a.2 - b.2;
-    (dx * dx + dy * dy + dz * dz).sqrt()
+    // Squares of very small or very big differences don't fit in single precision.
+    let dx = a.0 as f64 - b.0 as f64;
+    let dy = a.1 as f64 - b.1 as f64;
+    let dz = a.2 as f64 - b.2 as f64;
+    (dx * dx + dy * dy + dz * dz).sqrt() as FloatType
 }
 pub(crate) fn dot(a: Vector3, b: Vector3) -> FloatType {
     a.0 * b.0 + a.1 * b.1 + a.2 * b.2
diff --git a/src/vertices.rs b/src/vertices.rs
index 33149cd..858bd3f 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -34,12 +34,13 @@ pub fn save_tmf_vertices<W: Write>(
     writer: &mut W,
     shortest_edge: FloatType,
 ) -> std::io::Result<()> {
-    let mut min_x = vertices[0].0;
-    let mut max_x = vertices[0].0;
-    let mut min_y = vertices[0].1;
-    let mut max_y = vertices[0].1;
-    let mut min_z = vertices[0].2;
-    let mut max_z = vertices[0].2;
+    let first = vertices.first().copied().unwrap_or((0.0, 0.0, 0.0));
+    let mut min_x = first.0;
+    let mut max_x = first.0;
+    let mut min_y = first.1;
+    let mut max_y = first.1;
+    let mut min_z = first.2;
+    let mut max_z = first.2;
     writer.write_all(&(vertices.len() as u64).to_le_bytes())?;
     //Get min and max x,y,z coords
     for vertex in vertices {
-- 
2.43.0


From 3eaaef838426f7c1d0ec43d1450fd887988382f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 05/13] fix: saved values are rounded to the nearest
 representable step, at any precision

---
 src/custom_data.rs | 24 +++++++++++++-----------
 src/normals.rs     |  6 +++---
 src/utilis.rs      |  4 ++++
 src/uv.rs          |  7 ++++---
 src/vertices.rs    | 39 ++++++++++++++++++++-------------------
 5 files changed, 44 insertions(+), 36 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index ab95fe6..d90b914 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -1,5 +1,6 @@
 use crate::read_extension::ReadExt;
 use crate::tmf::SectionType;
+use crate::utilis::quantize;
 use crate::{FloatType, IndexType, TMFImportError, Vector4, MAX_SEG_SIZE};
 #[derive(Clone, Debug)]
 pub(crate) struct CustomDataSegment {
@@ -97,11 +98,11 @@ impl CustomData {
                     max = max.max(*entry);
                     min = min.min(*entry);
                 }
-                let span = max - min;
-                let prec = (span / prec).log2().ceil() as u8;
-                //Ensure precision is never 0(messes up the reader/writer);
-                let prec = prec.max(1);
-                let mul = ((1 << prec) - 1) as FloatType;
+                let span = max as f64 - min as f64;
+                let prec = (span / *prec as f64).log2().ceil() as u8;
+                //Ensure precision is never 0(messes up the reader/writer), or above what can be read;
+                let prec = prec.clamp(1, 63);
+                let mul = ((1_u64 << prec) - 1) as f64;
                 target.write_all(&(data.len() as u64).to_le_bytes())?;
                 target.write_all(&(min as f64).to_le_bytes())?;
                 target.write_all(&(max as f64).to_le_bytes())?;
@@ -109,7 +110,7 @@ impl CustomData {
                 let prec = UnalignedRWMode::precision_bits(prec);
                 let mut writer = UnalignedWriter::new(target);
                 for entry in data.iter() {
-                    let entry = (((entry - min) / span) * mul) as u64;
+                    let entry = quantize((*entry as f64 - min as f64) / span, mul, prec.bits());
                     writer.write_unaligned(prec, entry)?;
                 }
                 Ok(())
@@ -117,16 +118,17 @@ impl CustomData {
             Self::CustomColorRGBA(data, prec) => {
                 use crate::unaligned_rw::{UnalignedRWMode, UnalignedWriter};
                 let prec_bits = (1.0 / prec.min(1.0)).log2().ceil() as u8;
-                let mul = ((1 << prec_bits) - 1) as FloatType;
+                let prec_bits = prec_bits.clamp(1, 63);
+                let mul = ((1_u64 << prec_bits) - 1) as f64;
                 target.write_all(&(data.len() as u64).to_le_bytes())?;
                 target.write_all(&[prec_bits])?;
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut writer = UnalignedWriter::new(target);
                 for entry in data.iter() {
-                    let entry_r = (entry.0 * mul) as u64;
-                    let entry_g = (entry.1 * mul) as u64;
-                    let entry_b = (entry.2 * mul) as u64;
-                    let entry_a = (entry.3 * mul) as u64;
+                    let entry_r = quantize(entry.0 as f64, mul, prec_bits);
+                    let entry_g = quantize(entry.1 as f64, mul, prec_bits);
+                    let entry_b = quantize(entry.2 as f64, mul, prec_bits);
+                    let entry_a = quantize(entry.3 as f64, mul, prec_bits);
                     writer.write_unaligned(prec, entry_r)?;
                     writer.write_unaligned(prec, entry_g)?;
                     writer.write_unaligned(prec, entry_b)?;
diff --git a/src/normals.rs b/src/normals.rs
index 9282d50..7034004 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -68,7 +68,7 @@ pub(crate) fn normal_to_encoding(
     normal: Vector3,
     precision: &NormalPrecisionMode,
 ) -> (u64, u64, bool, bool, bool) {
-    let multiplier = ((1 << precision.0) - 1) as FloatType;
+    let multiplier = ((1_u64 << precision.0) - 1) as FloatType as f64;
     //Calculate asine
     let xy = (normal.0.abs(), normal.1.abs());
     let xy_mag = (xy.0 * xy.0 + xy.1 * xy.1).sqrt();
@@ -77,8 +77,8 @@ pub(crate) fn normal_to_encoding(
 
     let asine = asine / (PI / 2.0);
     //
-    let asine = (asine * multiplier) as u64;
-    let z = (normal.2.abs() * multiplier) as u64;
+    let asine = quantize(asine as f64, multiplier, precision.0);
+    let z = quantize(normal.2.abs() as f64, multiplier, precision.0);
     let sx = normal.0 < 0.0;
     let sy = normal.1 < 0.0;
     let sz = normal.2 < 0.0;
diff --git a/src/utilis.rs b/src/utilis.rs
index 5b84864..8bb0a3f 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -43,6 +43,10 @@ pub(crate) fn fsin(mut x: fprec) -> fprec {
     let z = (k as fprec) * x;
     x - z
 }
+/// Maps `value` to the nearest of the steps 0..=`scale` that fits in `bits` bits.
+pub(crate) fn quantize(value: f64, scale: f64, bits: u8) -> u64 {
+    ((value * scale).round() as u64).min((1_u64 << bits) - 1)
+}
 pub(crate) fn magnitude(i: Vector3) -> FloatType {
     let xx = i.0 * i.0;
     let yy = i.1 * i.1;
diff --git a/src/uv.rs b/src/uv.rs
index 73b8db9..707b17e 100644
--- a/src/uv.rs
+++ b/src/uv.rs
@@ -1,5 +1,6 @@
 use crate::read_extension::ReadExt;
 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
+use crate::utilis::quantize;
 use crate::TMFImportError;
 use crate::MAX_SEG_SIZE;
 use crate::{FloatType, Vector2};
@@ -36,14 +37,14 @@ pub fn save_uvs<W: Write>(
     precision: UvPrecisionMode,
 ) -> std::io::Result<()> {
     let precision = precision.0;
-    let multpiler = ((1 << precision) - 1) as FloatType;
+    let multpiler = ((1_u64 << precision) - 1) as FloatType as f64;
     writer.write_all(&[precision])?;
     writer.write_all(&(uvs.len() as u64).to_le_bytes())?;
     let precision = UnalignedRWMode::precision_bits(precision);
     let mut writer = UnalignedWriter::new(writer);
     for uv in uvs.iter() {
-        let x = (uv.0 * multpiler) as u64;
-        let y = (uv.1 * multpiler) as u64;
+        let x = quantize(uv.0 as f64, multpiler, precision.bits());
+        let y = quantize(uv.1 as f64, multpiler, precision.bits());
         writer.write_unaligned(precision, x)?;
         writer.write_unaligned(precision, y)?;
     }
diff --git a/src/vertices.rs b/src/vertices.rs
index 858bd3f..c55ea97 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -1,5 +1,6 @@
 use crate::read_extension::ReadExt;
 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
+use crate::utilis::quantize;
 use crate::TMFImportError;
 use crate::MAX_SEG_SIZE;
 use crate::{FloatType, IndexType, Vector3};
@@ -58,33 +59,33 @@ pub fn save_tmf_vertices<W: Write>(
     writer.write_all(&(min_z as f64).to_le_bytes())?;
     writer.write_all(&(max_z as f64).to_le_bytes())?;
     //Calculate size of the model
-    let sx = max_x - min_x;
-    let sy = max_y - min_y;
-    let sz = max_z - min_z;
+    let sx = max_x as f64 - min_x as f64;
+    let sy = max_y as f64 - min_y as f64;
+    let sz = max_z as f64 - min_z as f64;
     // Ensure model size is not 0(prevents bugs)
-    let sx = sx.max(0.000_001);
-    let sy = sy.max(0.000_001);
-    let sz = sz.max(0.000_001);
+    let sx = sx.max(f64::MIN_POSITIVE);
+    let sy = sy.max(f64::MIN_POSITIVE);
+    let sz = sz.max(f64::MIN_POSITIVE);
     //Calculate minimal increment
-    let inc_x = (shortest_edge / sx) * precision.0;
-    let inc_y = (shortest_edge / sy) * precision.0;
-    let inc_z = (shortest_edge / sz) * precision.0;
+    let inc_x = (shortest_edge as f64 / sx) * precision.0 as f64;
+    let inc_y = (shortest_edge as f64 / sy) * precision.0 as f64;
+    let inc_z = (shortest_edge as f64 / sz) * precision.0 as f64;
     //Calculate write precision
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
     let prec_z = (1.0 / inc_z).log2().ceil() as u8;
-    //Ensure precision is never below 1
-    let prec_x = prec_x.max(1);
-    let prec_y = prec_y.max(1);
-    let prec_z = prec_z.max(1);
+    //Ensure precision is never below 1, or above what can be read
+    let prec_x = prec_x.clamp(1, 63);
+    let prec_y = prec_y.clamp(1, 63);
+    let prec_z = prec_z.clamp(1, 63);
     // Write precision info
     writer.write_all(&[prec_x])?;
     writer.write_all(&[prec_y])?;
     writer.write_all(&[prec_z])?;
     // Calculate float save multiplier
-    let mul_x = ((1 << prec_x) - 1) as FloatType;
-    let mul_y = ((1 << prec_y) - 1) as FloatType;
-    let mul_z = ((1 << prec_z) - 1) as FloatType;
+    let mul_x = ((1_u64 << prec_x) - 1) as FloatType as f64;
+    let mul_y = ((1_u64 << prec_y) - 1) as FloatType as f64;
+    let mul_z = ((1_u64 << prec_z) - 1) as FloatType as f64;
     // Create unaligned rw modes
     let prec_x = UnalignedRWMode::precision_bits(prec_x);
     let prec_y = UnalignedRWMode::precision_bits(prec_y);
@@ -92,9 +93,9 @@ pub fn save_tmf_vertices<W: Write>(
     // Create writer
     let mut writer = UnalignedWriter::new(writer);
     for vertex in vertices {
-        let x = (((vertex.0 - min_x) / sx) * mul_x) as u64;
-        let y = (((vertex.1 - min_y) / sy) * mul_y) as u64;
-        let z = (((vertex.2 - min_z) / sz) * mul_z) as u64;
+        let x = quantize((vertex.0 as f64 - min_x as f64) / sx, mul_x, prec_x.bits());
+        let y = quantize((vertex.1 as f64 - min_y as f64) / sy, mul_y, prec_y.bits());
+        let z = quantize((vertex.2 as f64 - min_z as f64) / sz, mul_z, prec_z.bits());
 
         writer.write_unaligned(prec_x, x)?;
         writer.write_unaligned(prec_y, y)?;
-- 
2.43.0


From 299522d526dda0fa9cc43704372c26c48278dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 06/13] fix: custom floats and colours keep their size when
 saved again after loading

---
 src/custom_data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index d90b914..f73d026 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -241,7 +241,7 @@ impl CustomDataSegment {
                     let val = reader.read_unaligned(prec)?;
                     *float = (((val as f64) / div) * span + min) as FloatType;
                 }
-                let prec = (((max - min) / ((1_u64 << prec_bits) as f64)) as FloatType) * 0.99999;
+                let prec = (((max - min) / ((1_u64 << prec_bits) as f64)) as FloatType) * 1.00001;
                 Ok(Self::new_raw(
                     CustomData::new_float(&res, prec),
                     name,
@@ -266,7 +266,7 @@ impl CustomDataSegment {
                         ((a as f64) / div) as FloatType,
                     );
                 }
-                let prec = ((1.0 / ((1_u64 << prec_bits) as f64)) as FloatType) * 0.99999;
+                let prec = ((1.0 / ((1_u64 << prec_bits) as f64)) as FloatType) * 1.00001;
                 Ok(Self::new_raw(
                     CustomData::new_color_rgba(&res, prec),
                     name,
-- 
2.43.0


From f361e4173f0ce46e241a282fd5747c1650e86bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 07/13] fix: names and segment counts over 65535 are refused
 instead of cut

---
 src/tmf_exporter.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 39d7be5..38cb7a0 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -72,9 +72,13 @@ fn calc_shortest_edge(
     shortest_edge
 }
 
+// Counts are saved as 16 bit integers, and bigger ones can't be represented.
+fn checked_u16(count: usize, msg: &'static str) -> std::io::Result<u16> {
+    u16::try_from(count).map_err(|_| std::io::Error::new(std::io::ErrorKind::InvalidInput, msg))
+}
 pub(crate) fn write_mesh_name<W: std::io::Write>(w: &mut W, s: &str) -> std::io::Result<()> {
     let bytes = s.as_bytes();
-    w.write_all(&(bytes.len() as u16).to_le_bytes())?;
+    w.write_all(&checked_u16(bytes.len(), "Mesh name too long.")?.to_le_bytes())?;
     w.write_all(bytes)
 }
 fn merge_segments(segments: &[DecodedSegment]) -> Box<[DecodedSegment]> {
@@ -114,7 +118,8 @@ async fn write_mesh<W: std::io::Write>(
         encoded.push(seg.encode(p_info, &ei));
     }
     let encoded = futures::future::join_all(encoded).await;
-    target.write_all(&(encoded.len() as u16).to_le_bytes())?;
+    let segment_count = checked_u16(encoded.len(), "Too many segments in a mesh.")?;
+    target.write_all(&segment_count.to_le_bytes())?;
     for seg in encoded {
         seg?.write(target)?;
     }
-- 
2.43.0


From 84c5cb593c00d2a6e52f24a34547c309e3bd6924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 08/13] fix: custom data keeps its order in saved files

---
 src/tmf_exporter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 38cb7a0..4381691 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -92,6 +92,8 @@ fn merge_segments(segments: &[DecodedSegment]) -> Box<[DecodedSegment]> {
             new_segments.push(segment);
         }
     }
+    // Segments were taken from the end, so restore their order.
+    new_segments.reverse();
     new_segments.into()
 }
 async fn write_mesh<W: std::io::Write>(
-- 
2.43.0


From 0bc73276332cee0470ac3cdc5454f50bba090634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 09/13] fix: meshes without triangles don't shift the indices
 of later meshes in .obj files

---
 src/obj.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/obj.rs b/src/obj.rs
index 665f30c..6b91d9d 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -156,7 +156,11 @@ fn save_obj<W: Write>(
                     "If vertex triangles data is not present, uv triangle data must not be present either!",
                 ));
             }
-            return Ok((0, 0, 0));
+            return Ok((
+                vertex_count as IndexType,
+                mesh.get_uvs().map_or(0, |uvs| uvs.len()) as IndexType,
+                mesh.get_normals().map_or(0, |normals| normals.len()) as IndexType,
+            ));
         }
     };
     // Ensure normal triangle array, if present, has the right length.
-- 
2.43.0


From f6179334208682cee05a66ac1bcd9d160741c0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:47 +0000
Subject: [PATCH 10/13] fix: reading a damaged file needs no more memory than
 the data it contains, and never overflows

---
 src/custom_data.rs  | 22 ++++++++++++++--------
 src/normals.rs      |  2 +-
 src/tangents.rs     |  3 ++-
 src/tmf.rs          |  9 +++++++--
 src/tmf_importer.rs | 19 ++++++++++---------
 src/utilis.rs       |  4 ++++
 src/uv.rs           |  4 ++--
 src/vertices.rs     | 18 +++++++++++-------
 8 files changed, 51 insertions(+), 30 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index f73d026..e6f73b7 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -1,6 +1,6 @@
 use crate::read_extension::ReadExt;
 use crate::tmf::SectionType;
-use crate::utilis::quantize;
+use crate::utilis::{initial_capacity, quantize};
 use crate::{FloatType, IndexType, TMFImportError, Vector4, MAX_SEG_SIZE};
 #[derive(Clone, Debug)]
 pub(crate) struct CustomDataSegment {
@@ -236,10 +236,10 @@ impl CustomDataSegment {
                 let span = max - min;
                 let prec = UnalignedRWMode::precision_bits(prec);
                 let mut reader = UnalignedReader::new(src);
-                let mut res = vec![0.0; len as usize];
-                for float in &mut res {
+                let mut res = Vec::with_capacity(initial_capacity(len as usize));
+                for _ in 0..len {
                     let val = reader.read_unaligned(prec)?;
-                    *float = (((val as f64) / div) * span + min) as FloatType;
+                    res.push((((val as f64) / div) * span + min) as FloatType);
                 }
                 let prec = (((max - min) / ((1_u64 << prec_bits) as f64)) as FloatType) * 1.00001;
                 Ok(Self::new_raw(
@@ -251,20 +251,26 @@ impl CustomDataSegment {
             SectionType::CustomColorRGBASegment => {
                 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader};
                 let len = src.read_u64()?;
+                if len > MAX_SEG_SIZE as u64 {
+                    return Err(TMFImportError::SegmentTooLong);
+                }
                 let prec_bits = src.read_u8()?;
+                if prec_bits >= u64::BITS as u8 {
+                    return Err(TMFImportError::InvalidPrecision(prec_bits));
+                }
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut reader = UnalignedReader::new(src);
-                let mut res = vec![(0.0, 0.0, 0.0, 0.0); len as usize];
+                let mut res = Vec::with_capacity(initial_capacity(len as usize));
                 let div = ((1_u64 << prec_bits) - 1) as f64;
-                for vec4 in &mut res {
+                for _ in 0..len {
                     let (r, g) = reader.read2_unaligned(prec)?;
                     let (b, a) = reader.read2_unaligned(prec)?;
-                    *vec4 = (
+                    res.push((
                         ((r as f64) / div) as FloatType,
                         ((g as f64) / div) as FloatType,
                         ((b as f64) / div) as FloatType,
                         ((a as f64) / div) as FloatType,
-                    );
+                    ));
                 }
                 let prec = ((1.0 / ((1_u64 << prec_bits) as f64)) as FloatType) * 1.00001;
                 Ok(Self::new_raw(
diff --git a/src/normals.rs b/src/normals.rs
index 7034004..d5a1220 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -179,7 +179,7 @@ pub(crate) fn read_normal_array<R: Read>(reader: &mut R) -> Result<Box<[Vector3]
     }
     let precision = NormalPrecisionMode(precision);
     let mut reader = UnalignedReader::new(reader);
-    let mut normals = Vec::with_capacity(count);
+    let mut normals = Vec::with_capacity(initial_capacity(count));
     for _ in 0..count {
         let normal = read_normal(precision, &mut reader)?;
         normals.push(normal);
diff --git a/src/tangents.rs b/src/tangents.rs
index f90622d..4989715 100644
--- a/src/tangents.rs
+++ b/src/tangents.rs
@@ -1,4 +1,5 @@
 use crate::read_extension::ReadExt;
+use crate::utilis::initial_capacity;
 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
 use crate::FloatType;
 use crate::NormalPrecisionMode;
@@ -102,7 +103,7 @@ pub(crate) fn read_tangents<R: std::io::Read>(
     let mut reader = UnalignedReader::new(src);
     let prec = UnalignedRWMode::precision_bits(bits_prec);
     let tan_prec = TangentPrecisionMode::from_bits(bits_prec);
-    let mut tangents = Vec::with_capacity(count as usize);
+    let mut tangents = Vec::with_capacity(initial_capacity(count as usize));
     for _ in 0..count {
         let handeness = reader.read_bit()?;
         let sx = reader.read_bit()?;
diff --git a/src/tmf.rs b/src/tmf.rs
index 3029058..a80bc10 100644
--- a/src/tmf.rs
+++ b/src/tmf.rs
@@ -10,6 +10,7 @@ use crate::{
     Tangent, Vector2, Vector3,
 };
 use smallvec::{smallvec, SmallVec};
+use std::io::Read;
 #[repr(u16)]
 #[derive(Debug, PartialEq, Clone, Copy)]
 pub(crate) enum SectionType {
@@ -146,8 +147,12 @@ impl EncodedSegment {
             return Err(TMFImportError::SegmentTooLong);
         }
         let compresion_type = CompressionType::from_u8(src.read_u8()?)?;
-        let mut data = vec![0; data_length];
-        src.read_exact(&mut data)?;
+        // The buffer grows with the data really present, since the declared length can't be trusted.
+        let mut data = Vec::new();
+        src.take(data_length as u64).read_to_end(&mut data)?;
+        if data.len() < data_length {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(Self {
             data: data.into(),
             compresion_type,
diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index 040f45f..d967ec9 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -4,6 +4,7 @@ use crate::tmf::{DecodedSegment, EncodedSegment, SectionType};
 use crate::unaligned_rw::UnalignedRWMode;
 use crate::unaligned_rw::UnalignedReader;
 use crate::CustomDataSegment;
+use crate::utilis::initial_capacity;
 use crate::IndexType;
 use crate::MAX_SEG_SIZE;
 use crate::{TMFImportError, TMFMesh, TMF_MAJOR, TMF_MINOR};
@@ -261,30 +262,30 @@ pub(crate) fn read_default_triangles<R: std::io::Read>(
     ctx: &crate::tmf_importer::TMFImportContext,
 ) -> Result<(), TMFImportError> {
     let precision_bits = src.read_u8()?;
+    if precision_bits >= u64::BITS as u8 {
+        return Err(TMFImportError::InvalidPrecision(precision_bits));
+    }
     let length = src.read_u64()?;
     let min = ctx.read_traingle_min(&mut src)?;
     if length > MAX_SEG_SIZE as u64 {
         return Err(TMFImportError::SegmentTooLong);
     }
-    data.reserve(length as usize);
-    let buf = data.spare_capacity_mut();
+    data.reserve(initial_capacity(length as usize));
     let precision = UnalignedRWMode::precision_bits(precision_bits);
     let mut reader = UnalignedReader::new(src);
     if precision_bits == 0 {
-        use std::mem::MaybeUninit;
-        buf.fill(MaybeUninit::new(0));
+        data.resize(length as usize, 0);
     } else {
-        for index in 0..(length as usize) / 2 {
+        for _ in 0..(length as usize) / 2 {
             let (i1, i2) = reader.read2_unaligned(precision)?;
-            buf[index * 2].write((i1 + min) as IndexType);
-            buf[index * 2 + 1].write((i2 + min) as IndexType);
+            data.push(i1.wrapping_add(min) as IndexType);
+            data.push(i2.wrapping_add(min) as IndexType);
         }
         if length % 2 != 0 {
             let i = reader.read_unaligned(precision)?;
-            buf[(length - 1) as usize].write((i + min) as IndexType);
+            data.push(i.wrapping_add(min) as IndexType);
         }
     }
-    unsafe { data.set_len(length as usize) }
     Ok(())
 }
 #[allow(dead_code)]
diff --git a/src/utilis.rs b/src/utilis.rs
index 8bb0a3f..fbd7575 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -43,6 +43,10 @@ pub(crate) fn fsin(mut x: fprec) -> fprec {
     let z = (k as fprec) * x;
     x - z
 }
+/// Initial capacity of an array with a declared length of `len`, which can't be trusted before the data is read.
+pub(crate) fn initial_capacity(len: usize) -> usize {
+    len.min(0x1000)
+}
 /// Maps `value` to the nearest of the steps 0..=`scale` that fits in `bits` bits.
 pub(crate) fn quantize(value: f64, scale: f64, bits: u8) -> u64 {
     ((value * scale).round() as u64).min((1_u64 << bits) - 1)
diff --git a/src/uv.rs b/src/uv.rs
index 707b17e..d9d4abc 100644
--- a/src/uv.rs
+++ b/src/uv.rs
@@ -1,6 +1,6 @@
 use crate::read_extension::ReadExt;
 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
-use crate::utilis::quantize;
+use crate::utilis::{initial_capacity, quantize};
 use crate::TMFImportError;
 use crate::MAX_SEG_SIZE;
 use crate::{FloatType, Vector2};
@@ -63,7 +63,7 @@ pub fn read_uvs<R: Read>(reader: &mut R) -> Result<Box<[Vector2]>, TMFImportErro
     if precision >= u64::BITS as u8 {
         return Err(TMFImportError::InvalidPrecision(precision));
     }
-    let mut uvs = Vec::with_capacity(count as usize);
+    let mut uvs = Vec::with_capacity(initial_capacity(count as usize));
     let divisor = ((1_u64 << precision) - 1) as FloatType;
     let precision = UnalignedRWMode::precision_bits(precision);
     let mut reader = UnalignedReader::new(reader);
diff --git a/src/vertices.rs b/src/vertices.rs
index c55ea97..d8ea81c 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -1,6 +1,6 @@
 use crate::read_extension::ReadExt;
 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
-use crate::utilis::quantize;
+use crate::utilis::{initial_capacity, quantize};
 use crate::TMFImportError;
 use crate::MAX_SEG_SIZE;
 use crate::{FloatType, IndexType, Vector3};
@@ -142,7 +142,7 @@ pub fn read_tmf_vertices<R: Read>(reader: &mut R) -> Result<Box<[Vector3]>, TMFI
     if vertex_count > MAX_SEG_SIZE {
         return Err(TMFImportError::SegmentTooLong);
     }
-    let mut vertices = Vec::with_capacity(vertex_count);
+    let mut vertices = Vec::with_capacity(initial_capacity(vertex_count));
     let mut reader = UnalignedReader::new(reader);
     for _ in 0..vertex_count {
         //let (x,y) = reader.read_pair_unaligned(prec_x,prec_y)?;
@@ -184,7 +184,8 @@ pub fn save_triangles<W: Write>(
     writer: &mut W,
 ) -> std::io::Result<()> {
     let min = *triangles.iter().min().unwrap_or(&0);
-    let precision = calc_prec(max_index);
+    // No index needs more bits than its type has.
+    let precision = calc_prec(max_index).min(IndexType::BITS as u8);
     writer.write_all(&precision.to_le_bytes())?;
     writer.write_all(&(triangles.len() as u64).to_le_bytes())?;
     writer.write_all(&u64::from(min).to_le_bytes())?;
@@ -200,21 +201,24 @@ pub(crate) fn read_triangles<R: Read>(
     ctx: &crate::tmf_importer::TMFImportContext,
 ) -> Result<Box<[IndexType]>, TMFImportError> {
     let precision = reader.read_u8()?;
+    if precision >= u64::BITS as u8 {
+        return Err(TMFImportError::InvalidPrecision(precision));
+    }
     let length = reader.read_u64()?;
     let min = ctx.read_traingle_min(reader)?;
     if length > MAX_SEG_SIZE as u64 {
         return Err(TMFImportError::SegmentTooLong);
     }
-    let mut res = Vec::with_capacity(length as usize);
+    let mut res = Vec::with_capacity(initial_capacity(length as usize));
     let precision = UnalignedRWMode::precision_bits(precision);
     let mut reader = UnalignedReader::new(reader);
     for _ in 0..(length / 2) {
         let (i1, i2) = reader.read2_unaligned(precision)?;
-        res.push((i1 + min) as IndexType);
-        res.push((i2 + min) as IndexType);
+        res.push(i1.wrapping_add(min) as IndexType);
+        res.push(i2.wrapping_add(min) as IndexType);
     }
     for _i in 0..length % 2 {
-        res.push((reader.read_unaligned(precision)? + min) as IndexType);
+        res.push(reader.read_unaligned(precision)?.wrapping_add(min) as IndexType);
     }
     Ok(res.into())
 }
-- 
2.43.0


From 08761f2a51efec06bc2f757ae70c4914d23543ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 11/13] fix: meshes of huge extent can be saved

---
 src/tmf_exporter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 4381691..c1edebf 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -304,7 +304,7 @@ fn range_to_vertex_bit_count(span: std::ops::Range<Vector3>, shortest_edge: Floa
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
     let prec_z = (1.0 / inc_z).log2().ceil() as u8;
-    prec_x + prec_y + prec_z
+    prec_x.saturating_add(prec_y).saturating_add(prec_z)
 }
 fn expand_vertex_span(span: std::ops::Range<Vector3>, point: Vector3) -> std::ops::Range<Vector3> {
     let min = span.start;
-- 
2.43.0


From 44fb961f2bbfca48206dc4e41a6f9f876a134aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 12/13] fix: triangulating a face with missing vertices is an
 error, not a panic

---
 src/model_importer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/model_importer.rs b/src/model_importer.rs
index 7a3e8b3..c81697e 100644
--- a/src/model_importer.rs
+++ b/src/model_importer.rs
@@ -137,6 +137,13 @@ impl ModelImporter {
                 }
                 #[cfg(feature = "triangulation")]
                 {
+                    // Triangulation looks at the positions of the vertices, so they must be present.
+                    if vertex_indices
+                        .iter()
+                        .any(|index| *index as usize >= self.vertices.len())
+                    {
+                        return Err("Encountered a face using a vertex which is not present".to_owned());
+                    }
                     let vertex_indices = SmallVec::from_slice(vertex_indices);
                     let normal_indices = SmallVec::from_slice(normal_indices);
                     let uv_indices = SmallVec::from_slice(uv_indices);
-- 
2.43.0


From 175fcde244db5ea625d4da6822e022fbd0392669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 13/13] fix: triangulation finds the corner before the first
 one for any number of corners

---
 src/triangulation.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/triangulation.rs b/src/triangulation.rs
index bde76a0..1f321e7 100644
--- a/src/triangulation.rs
+++ b/src/triangulation.rs
@@ -37,9 +37,9 @@ fn calc_ear_val_at_index(
     vertices: &[Vector3],
 ) -> FloatType {
     let tri = (
-        index.wrapping_sub(1) % indices.len(),
+        (index + indices.len() - 1) % indices.len(),
         index,
-        index.wrapping_add(1) % indices.len(),
+        (index + 1) % indices.len(),
     );
     let p0 = indices[tri.0] as usize;
     let p1 = indices[tri.1] as usize;
@@ -66,9 +66,9 @@ fn triangulate(
                 best_index = index;
             }
         }
-        let prev_index = best_index.wrapping_sub(1) % vertex_indices.len();
+        let prev_index = (best_index + vertex_indices.len() - 1) % vertex_indices.len();
         let curr_index = best_index;
-        let next_index = best_index.wrapping_add(1) % vertex_indices.len();
+        let next_index = (best_index + 1) % vertex_indices.len();
         
         mi.push_vertex_index(vertex_indices[prev_index]);
         mi.push_vertex_index(vertex_indices[curr_index]);
@@ -89,7 +89,7 @@ fn triangulate(
         ear_vals.remove(curr_index);
         
         let curr_index = curr_index % vertex_indices.len();
-        let prev_index = best_index.wrapping_sub(1) % vertex_indices.len();
+        let prev_index = (best_index + vertex_indices.len() - 1) % vertex_indices.len();
         ear_vals[curr_index] = calc_ear_val_at_index(&vertex_indices, curr_index, &mi.vertices);
         ear_vals[prev_index] = calc_ear_val_at_index(&vertex_indices, prev_index, &mi.vertices);
         
-- 
2.43.0

