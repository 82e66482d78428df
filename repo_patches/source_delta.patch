From 401a7033f4bbededcf2e96a2f289f85e7376785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 01/77] fix: read legacy artifacts shorter than an envelope
 header from files

deserialize_from_file insisted on 20 header bytes before looking at the
format, so a raw-msgpack file of fewer than 20 bytes (for example a bundle
manifest without metadata) failed although deserialize_from_bytes reads it.
---
 rust/jstprove_io/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_io/src/lib.rs b/rust/jstprove_io/src/lib.rs
index 01feaea..86f6a07 100644
--- a/rust/jstprove_io/src/lib.rs
+++ b/rust/jstprove_io/src/lib.rs
@@ -76,8 +76,12 @@ pub fn deserialize_from_bytes<T: DeserializeOwned>(data: &[u8]) -> Result<T> {
 pub fn deserialize_from_file<T: DeserializeOwned>(path: &Path) -> Result<T> {
     let file = std::fs::File::open(path)?;
     let mut reader = BufReader::new(file);
-    let mut header_buf = [0u8; ENVELOPE_HEADER_LEN];
-    reader.read_exact(&mut header_buf)?;
+    // Legacy artifacts can be shorter than an envelope header.
+    let mut header_buf = Vec::with_capacity(ENVELOPE_HEADER_LEN);
+    reader
+        .by_ref()
+        .take(ENVELOPE_HEADER_LEN as u64)
+        .read_to_end(&mut header_buf)?;
 
     match envelope::detect_format(&header_buf) {
         DetectedFormat::Envelope => {
-- 
2.43.0


From 01a8594737c37f3f32f49ee0e7d2e7361ea0acf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 02/77] fix: checksum the whole payload when reading a
 compressed artifact file

The reader stopped once the value was decoded. When the last bytes of the
zstd frame (an empty final block) fell just behind a read boundary they
were never fed to the CRC, and a valid file was rejected with a CRC
mismatch.
---
 rust/jstprove_io/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rust/jstprove_io/src/lib.rs b/rust/jstprove_io/src/lib.rs
index 86f6a07..c97e63f 100644
--- a/rust/jstprove_io/src/lib.rs
+++ b/rust/jstprove_io/src/lib.rs
@@ -87,16 +87,19 @@ pub fn deserialize_from_file<T: DeserializeOwned>(path: &Path) -> Result<T> {
         DetectedFormat::Envelope => {
             let header = envelope::parse_header(&header_buf)?;
             let crc_state = std::rc::Rc::new(std::cell::Cell::new(0u32));
-            let crc_reader = Crc32cReader {
+            let mut crc_reader = Crc32cReader {
                 inner: reader.take(header.payload_len),
                 crc: std::rc::Rc::clone(&crc_state),
             };
             let result = if header.compressed {
-                let decoder = zstd::stream::read::Decoder::new(crc_reader)?;
+                let decoder = zstd::stream::read::Decoder::new(&mut crc_reader)?;
                 rmp_serde::from_read(BufReader::new(decoder))?
             } else {
-                rmp_serde::from_read(BufReader::new(crc_reader))?
+                rmp_serde::from_read(BufReader::new(&mut crc_reader))?
             };
+            // The value can be complete before the payload is (a zstd frame may
+            // end in an empty block); the checksum covers all of it.
+            std::io::copy(&mut crc_reader, &mut std::io::sink())?;
             envelope::verify_crc_computed(crc_state.get(), header.crc32)?;
             Ok(result)
         }
-- 
2.43.0


From 80395517b46c91eb944afcab237cae75d637ba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 03/77] fix: keep uncompressed bundle blobs that start with the
 zstd magic intact

---
 rust/jstprove_io/src/bundle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/jstprove_io/src/bundle.rs b/rust/jstprove_io/src/bundle.rs
index 304cc1e..09b0111 100644
--- a/rust/jstprove_io/src/bundle.rs
+++ b/rust/jstprove_io/src/bundle.rs
@@ -5,6 +5,7 @@ use anyhow::Result;
 use serde::{de::DeserializeOwned, Serialize};
 
 use crate::compress::{auto_reader, compressed_writer};
+use crate::envelope::ZSTD_MAGIC;
 use crate::version::ArtifactVersion;
 
 const CIRCUIT_FILENAME: &str = "circuit.bin";
@@ -204,6 +205,9 @@ pub fn read_bundle_metadata<M: DeserializeOwned>(
 
 fn write_blob(path: impl AsRef<Path>, data: &[u8], compress: bool) -> Result<()> {
     let file = std::fs::File::create(path.as_ref())?;
+    // Readers recognise compressed blobs by the zstd magic, so a plain blob
+    // that happens to start with it has to be framed as well.
+    let compress = compress || data.starts_with(&ZSTD_MAGIC);
     let mut writer = compressed_writer(file, compress)?;
     writer.write_all(data)?;
     writer.finish()?;
-- 
2.43.0


From bf488c7635134d81a52c459936f0dcf01ccc6d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 04/77] fix: remove the partly written file when a bundle write
 fails

The guard only learned of a file after it had been written completely, so
a write that failed half-way left that file and the bundle directory behind.
---
 rust/jstprove_io/src/bundle.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rust/jstprove_io/src/bundle.rs b/rust/jstprove_io/src/bundle.rs
index 09b0111..a2f1dbb 100644
--- a/rust/jstprove_io/src/bundle.rs
+++ b/rust/jstprove_io/src/bundle.rs
@@ -33,14 +33,13 @@ impl WriteGuard {
     }
 
     fn write_blob(&mut self, path: PathBuf, data: &[u8], compress: bool) -> Result<()> {
-        write_blob(&path, data, compress)?;
-        self.paths.push(path);
-        Ok(())
+        self.paths.push(path.clone());
+        write_blob(&path, data, compress)
     }
 
     fn serialize_to_file<T: Serialize>(&mut self, val: &T, path: PathBuf) -> Result<()> {
+        self.paths.push(path.clone());
         crate::serialize_to_file(val, &path, false)?;
-        self.paths.push(path);
         Ok(())
     }
 
-- 
2.43.0


From a7ad433c84b60145cf853a5c566f9c22e4e90200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:16 +0000
Subject: [PATCH 05/77] fix: report write errors when finishing a compressed
 stream

finish() dropped the buffered writer below the zstd encoder without
flushing it, so an error while writing the last buffer (disk full, file
size limit) was lost and a truncated blob was reported as written.
---
 rust/jstprove_io/src/compress.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rust/jstprove_io/src/compress.rs b/rust/jstprove_io/src/compress.rs
index 733fee0..051dc95 100644
--- a/rust/jstprove_io/src/compress.rs
+++ b/rust/jstprove_io/src/compress.rs
@@ -55,10 +55,7 @@ impl Write for MaybeCompressed {
 impl MaybeCompressed {
     pub fn finish(self) -> io::Result<()> {
         match self {
-            Self::Compressed(enc) => {
-                enc.finish()?;
-                Ok(())
-            }
+            Self::Compressed(enc) => enc.finish()?.flush(),
             Self::Plain(mut w) => w.flush(),
         }
     }
-- 
2.43.0


From a03bbb491d737e4f48471858cc59c4102ae73b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:34 +0000
Subject: [PATCH 06/77] fix: broadcast all operands when inferring the shape of
 Max and Min

---
 rust/jstprove_onnx/src/shape_inference.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 7dde0bb..47095c0 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -682,9 +682,8 @@ fn infer_layer_output_shape(
         OpType::Conv => infer_conv(layer, shapes),
         OpType::Gemm => infer_gemm(layer, shapes),
         OpType::BatchNormalization => passthrough_shape(layer, input_shape),
-        OpType::Relu | OpType::Max | OpType::Min | OpType::Clip => {
-            passthrough_shape(layer, input_shape)
-        }
+        OpType::Relu | OpType::Clip => passthrough_shape(layer, input_shape),
+        OpType::Max | OpType::Min => infer_broadcast_variadic(layer, shapes),
         OpType::MaxPool => infer_maxpool(layer, input_shape),
         OpType::Add | OpType::Sub | OpType::Div => infer_broadcast_binary(layer, shapes),
         OpType::Mul => infer_broadcast_binary(layer, shapes),
@@ -1183,6 +1182,22 @@ fn infer_broadcast_binary(
         .collect())
 }
 
+/// Max/Min take any number of operands and broadcast all of them.
+fn infer_broadcast_variadic(
+    layer: &LayerNode,
+    shapes: &HashMap<String, Vec<usize>>,
+) -> Result<Vec<(String, Vec<usize>)>> {
+    let mut out_shape: Option<Vec<usize>> = None;
+    for shape in layer.inputs.iter().filter_map(|n| get_shape(shapes, n)) {
+        out_shape = Some(match out_shape {
+            Some(acc) => broadcast_shapes(&acc, shape)
+                .map_err(|e| anyhow::anyhow!("layer {}: {e}", layer.name))?,
+            None => shape.clone(),
+        });
+    }
+    passthrough_shape(layer, out_shape.as_ref())
+}
+
 fn infer_reshape(
     layer: &LayerNode,
     input_shape: Option<&Vec<usize>>,
-- 
2.43.0


From 2cebb44391f6afab5fd3fa608e71373568cc77ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:34 +0000
Subject: [PATCH 07/77] fix: honour pooling dilations and refuse implicit
 padding in shape inference

---
 rust/jstprove_onnx/src/shape_inference.rs | 49 +++++++++++++++++++----
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 47095c0..c68253d 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -817,6 +817,18 @@ fn infer_range(
     Ok(vec![(out_name.clone(), vec![n])])
 }
 
+/// Only explicit padding is modelled; computing with zero pads instead of the
+/// implied ones would silently change the model.
+fn reject_implicit_padding(layer: &LayerNode) -> Result<()> {
+    match layer.get_string_attr("auto_pad") {
+        Some(mode @ ("SAME_UPPER" | "SAME_LOWER")) => bail!(
+            "layer {}: auto_pad='{mode}' is not supported; use explicit pads",
+            layer.name
+        ),
+        _ => Ok(()),
+    }
+}
+
 fn infer_conv(
     layer: &LayerNode,
     shapes: &HashMap<String, Vec<usize>>,
@@ -833,6 +845,8 @@ fn infer_conv(
         .and_then(|n| get_shape(shapes, n))
         .ok_or_else(|| anyhow::anyhow!("layer {}: Conv missing weight shape", layer.name))?;
 
+    reject_implicit_padding(layer)?;
+
     let kernel_shape = if let Some(v) = layer.get_ints_attr("kernel_shape") {
         nonneg_to_usize(v, "kernel_shape", &layer.name)?
     } else if weight_shape.len() >= 3 {
@@ -1063,6 +1077,8 @@ fn infer_maxpool(
     let input_shape = input_shape
         .ok_or_else(|| anyhow::anyhow!("layer {}: MaxPool missing input shape", layer.name))?;
 
+    reject_implicit_padding(layer)?;
+
     let kernel_raw = layer
         .get_ints_attr("kernel_shape")
         .ok_or_else(|| anyhow::anyhow!("layer {}: MaxPool missing kernel_shape", layer.name))?;
@@ -1085,6 +1101,13 @@ fn infer_maxpool(
         vec![0; kernel.len() * 2]
     };
 
+    let dilations = if let Some(v) = layer.get_ints_attr("dilations") {
+        nonneg_to_usize(v, "dilations", &layer.name)?
+    } else {
+        vec![1; kernel.len()]
+    };
+    let ceil_mode = layer.get_int_attr("ceil_mode").unwrap_or(0) != 0;
+
     let spatial_dims = kernel.len();
 
     if input_shape.len() < 2 + spatial_dims {
@@ -1094,12 +1117,16 @@ fn infer_maxpool(
             input_shape.len()
         );
     }
-    if pads.len() < 2 * spatial_dims || strides.len() < spatial_dims {
+    if pads.len() < 2 * spatial_dims
+        || strides.len() < spatial_dims
+        || dilations.len() < spatial_dims
+    {
         bail!(
-            "layer {}: MaxPool attribute length mismatch: pads={} strides={} spatial_dims={spatial_dims}",
+            "layer {}: MaxPool attribute length mismatch: pads={} strides={} dilations={} spatial_dims={spatial_dims}",
             layer.name,
             pads.len(),
-            strides.len()
+            strides.len(),
+            dilations.len()
         );
     }
 
@@ -1114,14 +1141,20 @@ fn infer_maxpool(
                 layer.name
             );
         }
-        if padded < kernel[i] {
+        let effective_kernel = (kernel[i] - 1) * dilations[i] + 1;
+        if padded < effective_kernel {
             bail!(
-                "layer {}: MaxPool padded input {padded} < kernel {k} at spatial dim {i}",
+                "layer {}: MaxPool padded input {padded} < effective kernel {effective_kernel} at spatial dim {i}",
                 layer.name,
-                k = kernel[i]
             );
         }
-        let out_dim = (padded - kernel[i]) / strides[i] + 1;
+        if ceil_mode && (padded - effective_kernel) % strides[i] != 0 {
+            bail!(
+                "layer {}: ceil_mode=1 adds a partial window at spatial dim {i}, which is not supported",
+                layer.name
+            );
+        }
+        let out_dim = (padded - effective_kernel) / strides[i] + 1;
         out_shape.push(out_dim);
     }
 
@@ -2793,6 +2826,8 @@ fn infer_conv_transpose(
     let group = group_raw as usize;
     let c_out = c_out_per_group * group;
 
+    reject_implicit_padding(layer)?;
+
     let kernel_shape = if let Some(v) = layer.get_ints_attr("kernel_shape") {
         nonneg_to_usize(v, "kernel_shape", &layer.name)?
     } else if weight_shape.len() >= 3 {
-- 
2.43.0


From 70ab74fad0a79d29dd762e2633806ee642ba435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:34 +0000
Subject: [PATCH 08/77] fix: treat empty reduction axes as ONNX does in shape
 inference

---
 rust/jstprove_onnx/src/shape_inference.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index c68253d..82f63f1 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -2418,10 +2418,13 @@ fn infer_reduce(
         );
     }
 
-    let axes: Vec<usize> = if let Some(raw_axes) = axes_from_input
+    // Absent and empty axes mean the same: reduce everything, or nothing when
+    // noop_with_empty_axes is set.
+    let raw_axes = axes_from_input
         .as_deref()
         .or_else(|| layer.get_ints_attr("axes"))
-    {
+        .unwrap_or(&[]);
+    let axes: Vec<usize> = if !raw_axes.is_empty() {
         raw_axes
             .iter()
             .map(|&a| {
@@ -2437,6 +2440,8 @@ fn infer_reduce(
                 Ok(a as usize)
             })
             .collect::<Result<Vec<usize>>>()?
+    } else if layer.get_int_attr("noop_with_empty_axes").unwrap_or(0) != 0 {
+        vec![]
     } else {
         (0..rank).collect()
     };
-- 
2.43.0


From f2f2a7864eb963c738d26f68c9d5be4d5aedada2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:07 +0000
Subject: [PATCH 09/77] fix: do not order layers by omitted optional inputs and
 outputs

---
 rust/jstprove_onnx/src/graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/graph.rs b/rust/jstprove_onnx/src/graph.rs
index be49eef..3efd223 100644
--- a/rust/jstprove_onnx/src/graph.rs
+++ b/rust/jstprove_onnx/src/graph.rs
@@ -311,7 +311,8 @@ impl LayerNode {
 fn topological_sort(layers: &[LayerNode]) -> Result<Vec<usize>> {
     let mut output_to_layer: HashMap<&str, usize> = HashMap::new();
     for (idx, layer) in layers.iter().enumerate() {
-        for out in &layer.outputs {
+        // An empty name marks an omitted optional value, not a tensor.
+        for out in layer.outputs.iter().filter(|o| !o.is_empty()) {
             output_to_layer.insert(out.as_str(), idx);
         }
     }
-- 
2.43.0


From c0957186b401476e99014873b255a18c11407fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:47 +0000
Subject: [PATCH 10/77] fix: fold constant slices along axis -1 and
 concatenations with empty parts

---
 rust/jstprove_onnx/src/shape_inference.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 82f63f1..a58a616 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -471,7 +471,7 @@ fn fold_concat(
         let data_type = first.data_type;
         if all_inputs
             .iter()
-            .any(|td| td.data_type != data_type || td.int_data.is_empty())
+            .any(|td| td.data_type != data_type || !td.float_data.is_empty())
         {
             return None;
         }
@@ -531,7 +531,7 @@ fn fold_slice(
         vec![1; starts.len()]
     };
 
-    if axes.len() != 1 || axes[0] != 0 {
+    if axes.len() != 1 || (axes[0] != 0 && axes[0] != -1) {
         return None;
     }
 
@@ -556,7 +556,7 @@ fn fold_slice(
         let mut i = start;
         while i < end {
             v.push(data[i as usize]);
-            i += step;
+            i = i.saturating_add(step);
         }
         v
     } else {
@@ -576,7 +576,7 @@ fn fold_slice(
         let mut i = start;
         while i > end {
             v.push(data[i as usize]);
-            i += step;
+            i = i.saturating_add(step);
         }
         v
     };
-- 
2.43.0


From 3cc31e478fdd891933b1610ab62f8f85fb29c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:47 +0000
Subject: [PATCH 11/77] fix: keep floating-point constants exact when folding
 Gather, Slice and Cast

---
 rust/jstprove_onnx/src/shape_inference.rs | 83 +++++++++++++----------
 1 file changed, 46 insertions(+), 37 deletions(-)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index a58a616..262c191 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -131,6 +131,26 @@ fn fold_shape(layer: &LayerNode, shapes: &HashMap<String, Vec<usize>>) -> Option
     })
 }
 
+/// The elements of `td` at the given flat positions, in the representation
+/// (integer or floating point) that `td` has.
+fn select_elements(td: &TensorData, dims: Vec<i64>, picked: &[usize]) -> Option<TensorData> {
+    let (mut float_data, mut int_data) = (vec![], vec![]);
+    for &i in picked {
+        if td.float_data.is_empty() {
+            int_data.push(*td.int_data.get(i)?);
+        } else {
+            float_data.push(*td.float_data.get(i)?);
+        }
+    }
+    Some(TensorData {
+        name: String::new(),
+        dims,
+        data_type: td.data_type,
+        float_data,
+        int_data,
+    })
+}
+
 #[allow(clippy::cast_possible_wrap, clippy::cast_sign_loss)]
 fn fold_gather(
     layer: &LayerNode,
@@ -159,29 +179,18 @@ fn fold_gather(
         return None;
     }
 
-    let data_vals = data_td.as_i64_vec();
     let indices_vals = indices_td.as_i64_vec();
     let indices_shape = indices_td.shape();
     let dim_size = data_shape[axis] as i64;
 
     if data_shape.len() == 1 {
-        let gathered: Option<Vec<i64>> = indices_vals
+        let picked: Vec<usize> = indices_vals
             .iter()
-            .map(|&idx| {
-                let idx = if idx < 0 { idx + dim_size } else { idx };
-                data_vals.get(idx as usize).copied()
-            })
+            .map(|&idx| (if idx < 0 { idx + dim_size } else { idx }) as usize)
             .collect();
-        let gathered = gathered?;
 
         let out_dims: Vec<i64> = indices_shape.iter().map(|&d| d as i64).collect();
-        return Some(TensorData {
-            name: String::new(),
-            dims: out_dims,
-            data_type: data_td.data_type,
-            float_data: vec![],
-            int_data: gathered,
-        });
+        return select_elements(data_td, out_dims, &picked);
     }
 
     let outer_size: usize = data_shape[..axis].iter().product();
@@ -189,7 +198,7 @@ fn fold_gather(
     let axis_size = data_shape[axis];
     let n_indices = indices_vals.len();
 
-    let mut gathered = Vec::with_capacity(outer_size * n_indices * inner_size);
+    let mut picked = Vec::with_capacity(outer_size * n_indices * inner_size);
     for o in 0..outer_size {
         for &idx_raw in &indices_vals {
             let idx = if idx_raw < 0 {
@@ -201,7 +210,7 @@ fn fold_gather(
                 return None;
             }
             let src_base = o * axis_size * inner_size + idx * inner_size;
-            gathered.extend_from_slice(&data_vals[src_base..src_base + inner_size]);
+            picked.extend(src_base..src_base + inner_size);
         }
     }
 
@@ -209,13 +218,7 @@ fn fold_gather(
     out_dims.extend(indices_shape.iter().map(|&d| d as i64));
     out_dims.extend(data_shape[axis + 1..].iter().map(|&d| d as i64));
 
-    Some(TensorData {
-        name: String::new(),
-        dims: out_dims,
-        data_type: data_td.data_type,
-        float_data: vec![],
-        int_data: gathered,
-    })
+    select_elements(data_td, out_dims, &picked)
 }
 
 #[allow(clippy::cast_possible_wrap, clippy::cast_sign_loss)]
@@ -516,8 +519,7 @@ fn fold_slice(
 
     let starts = starts_td.as_i64_vec();
     let ends = ends_td.as_i64_vec();
-    let data = input_td.as_i64_vec();
-    let dim = data.len() as i64;
+    let dim = input_shape[0] as i64;
 
     let axes: Vec<i64> = if let Some(axes_name) = layer.inputs.get(3).filter(|n| !n.is_empty()) {
         lookup_constant(axes_name, initializers, constant_tensors)?.as_i64_vec()
@@ -551,11 +553,11 @@ fn fold_slice(
     start = start.clamp(0, dim);
     end = end.clamp(0, dim);
 
-    let sliced: Vec<i64> = if step > 0 {
+    let picked: Vec<usize> = if step > 0 {
         let mut v = Vec::new();
         let mut i = start;
         while i < end {
-            v.push(data[i as usize]);
+            v.push(i as usize);
             i = i.saturating_add(step);
         }
         v
@@ -575,19 +577,13 @@ fn fold_slice(
         let mut v = Vec::new();
         let mut i = start;
         while i > end {
-            v.push(data[i as usize]);
+            v.push(i as usize);
             i = i.saturating_add(step);
         }
         v
     };
 
-    Some(TensorData {
-        name: String::new(),
-        dims: vec![sliced.len() as i64],
-        data_type: input_td.data_type,
-        float_data: vec![],
-        int_data: sliced,
-    })
+    select_elements(input_td, vec![picked.len() as i64], &picked)
 }
 
 fn fold_cast(
@@ -599,12 +595,25 @@ fn fold_cast(
     let input_td = lookup_constant(input_name, initializers, constant_tensors)?;
     let to = layer.get_int_attr("to")?;
 
+    let (float_data, int_data) = match to {
+        // FLOAT, DOUBLE
+        1 | 11 => (input_td.as_f64_vec(), vec![]),
+        // BOOL
+        9 => {
+            let truth = |v: f64| i64::from(v != 0.0);
+            (vec![], input_td.as_f64_vec().into_iter().map(truth).collect())
+        }
+        // INT32, INT64: floating-point values are truncated
+        6 | 7 => (vec![], input_td.as_i64_vec()),
+        _ => return None,
+    };
+
     Some(TensorData {
         name: String::new(),
         dims: input_td.dims.clone(),
         data_type: to as i32,
-        float_data: input_td.float_data.clone(),
-        int_data: input_td.int_data.clone(),
+        float_data,
+        int_data,
     })
 }
 
-- 
2.43.0


From 3c1e2f2955a5ae7aaf13f2ddb6192872491ab277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:43 +0000
Subject: [PATCH 12/77] fix: refuse tensors whose values cannot be read instead
 of dropping them

---
 rust/jstprove_onnx/src/parser.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/parser.rs b/rust/jstprove_onnx/src/parser.rs
index 8fe2bd9..748dc64 100644
--- a/rust/jstprove_onnx/src/parser.rs
+++ b/rust/jstprove_onnx/src/parser.rs
@@ -5,7 +5,7 @@ use anyhow::{bail, Context, Result};
 use prost::Message;
 
 use super::attribute_proto::AttributeType;
-use super::tensor_proto::DataType;
+use super::tensor_proto::{DataLocation, DataType};
 use super::{AttributeProto, GraphProto, ModelProto, TensorProto};
 
 pub struct ParsedModel {
@@ -96,6 +96,10 @@ fn extract_tensor_data(tensor: &TensorProto) -> Result<TensorData> {
     let data_type = tensor.data_type.unwrap_or(0);
     let dt = DataType::try_from(data_type).unwrap_or(DataType::Undefined);
 
+    if tensor.data_location == Some(DataLocation::External as i32) {
+        bail!("tensor '{name}' is stored in an external file, which is not supported");
+    }
+
     let mut float_data = Vec::new();
     let mut int_data = Vec::new();
 
@@ -129,12 +133,30 @@ fn extract_tensor_data(tensor: &TensorProto) -> Result<TensorData> {
             other => bail!("unsupported tensor data type in raw_data: {other:?}"),
         }
     } else {
+        // int32_data holds the bit patterns of these types, not their values.
+        if matches!(dt, DataType::Float16 | DataType::Bfloat16) {
+            bail!("unsupported tensor data type: {dt:?}");
+        }
         float_data.extend(tensor.float_data.iter().map(|f| *f as f64));
         float_data.extend(tensor.double_data.iter().copied());
         int_data.extend(tensor.int32_data.iter().map(|i| *i as i64));
         int_data.extend(tensor.int64_data.iter().copied());
     }
 
+    let expected = dims
+        .iter()
+        .try_fold(1usize, |n, &d| n.checked_mul(usize::try_from(d).ok()?));
+    let raw_len = match (&tensor.raw_data, dt) {
+        (None, _) => None,
+        (Some(raw), DataType::Bool) => Some((raw.len(), 1)),
+        (Some(raw), DataType::Float | DataType::Int32) => Some((raw.len(), 4)),
+        (Some(raw), _) => Some((raw.len(), 8)),
+    };
+    let actual = float_data.len() + int_data.len();
+    if expected != Some(actual) || raw_len.is_some_and(|(len, size)| len != actual * size) {
+        bail!("tensor '{name}' with dims {dims:?} does not hold the values its dims call for");
+    }
+
     Ok(TensorData {
         name,
         dims,
-- 
2.43.0


From 117b1999cc083628f9338731a69909f94ab53feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:10 +0000
Subject: [PATCH 13/77] fix: size quantized reductions with the inferred tensor
 shapes

---
 rust/jstprove_onnx/src/quantizer.rs       | 27 +++++++++++++++++++----
 rust/jstprove_onnx/src/shape_inference.rs |  4 ++--
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 02455b3..7f78a89 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -5,6 +5,7 @@ use anyhow::Result;
 use super::graph::{LayerGraph, LayerNode, OpType};
 use super::ops;
 use super::parser::{AttrValue, TensorData};
+use super::shape_inference::{fold_constants, infer_layer_output_shape};
 
 pub const DEFAULT_SCALE_BASE: u64 = 2;
 pub const DEFAULT_SCALE_EXPONENT: u32 = 18;
@@ -438,8 +439,24 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
         }
     }
 
+    let mut constants: HashMap<String, TensorData> = HashMap::new();
+    for layer in &graph.layers {
+        // Shapes, axes, pads and the like are at most one-dimensional.
+        for (name, td) in layer.weights.iter().filter(|(_, td)| td.dims.len() <= 1) {
+            constants.insert(name.clone(), td.clone());
+        }
+    }
+
     // Propagate shapes topologically.
     for layer in graph.iter_topo() {
+        // The full inference decides wherever the known input shapes allow it;
+        // the rules below only stand in where it has no answer.
+        if let Ok(inferred) = infer_layer_output_shape(layer, &shapes, &constants, &constants) {
+            shapes.extend(inferred);
+            fold_constants(layer, &shapes, &HashMap::new(), &mut constants);
+            continue;
+        }
+
         let input_shape: Option<Vec<usize>> = layer
             .inputs
             .first()
@@ -686,10 +703,12 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                         (axis as usize).min(rank.saturating_sub(1))
                     };
                     let mut out = (*first).clone();
-                    out[ax] = in_shapes
-                        .iter()
-                        .map(|s| s.get(ax).copied().unwrap_or(0))
-                        .sum();
+                    if let Some(dim) = out.get_mut(ax) {
+                        *dim = in_shapes
+                            .iter()
+                            .map(|s| s.get(ax).copied().unwrap_or(0))
+                            .sum();
+                    }
                     out
                 } else {
                     input_shape.unwrap_or_default()
diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 262c191..a903d4f 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -70,7 +70,7 @@ fn lookup_constant<'a>(
         .or_else(|| constant_tensors.get(name))
 }
 
-fn fold_constants(
+pub(crate) fn fold_constants(
     layer: &LayerNode,
     shapes: &HashMap<String, Vec<usize>>,
     initializers: &HashMap<String, TensorData>,
@@ -679,7 +679,7 @@ fn nonneg_to_usize(vals: &[i64], attr: &str, layer_name: &str) -> Result<Vec<usi
         .collect()
 }
 
-fn infer_layer_output_shape(
+pub(crate) fn infer_layer_output_shape(
     layer: &LayerNode,
     shapes: &HashMap<String, Vec<usize>>,
     initializers: &HashMap<String, TensorData>,
-- 
2.43.0


From 03831b6a42d4e6b85b18483f38b1fa418a847789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:51 +0000
Subject: [PATCH 14/77] fix: bound Max, Min, Clip, constants and vector-matrix
 products when sizing n_bits

---
 rust/jstprove_onnx/src/quantizer.rs | 37 ++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 7f78a89..44f4bbb 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1529,13 +1529,33 @@ fn compute_layer_bound(
             let m_in = get_input_bound(0);
             Ok(m_in)
         }
-        OpType::MaxPool | OpType::Max | OpType::Min => {
+        OpType::MaxPool => {
             let m_in = get_input_bound(0);
             Ok(m_in)
         }
+        // Max/Min select from any of their operands.
+        OpType::Max | OpType::Min => {
+            let mut max_bound = 0.0_f64;
+            for i in 0..layer.inputs.len() {
+                max_bound = max_bound.max(get_input_bound(i));
+            }
+            Ok(max_bound)
+        }
+        // Clip moves values outside [min, max] onto the interval, so an
+        // interval that excludes zero can raise the magnitude.
         OpType::Clip => {
             let m_in = get_input_bound(0);
-            Ok(m_in)
+            let limit = |idx: usize, attr: &str| -> f64 {
+                let constant = layer
+                    .inputs
+                    .get(idx)
+                    .and_then(|name| layer.weights.get(name))
+                    .and_then(|w| w.as_f64_vec().first().copied());
+                constant
+                    .or_else(|| layer.get_float_attr(attr).map(f64::from))
+                    .unwrap_or(0.0)
+            };
+            Ok(m_in.max(limit(1, "min")).max(-limit(2, "max")))
         }
         OpType::Cast
         | OpType::Reshape
@@ -1620,7 +1640,7 @@ fn compute_layer_bound(
                     if !vals.is_empty() {
                         let m_b = get_input_bound(1);
                         let d = w.shape();
-                        let n_cols = if d.len() >= 2 { *d.last().unwrap() } else { 1 };
+                        let n_cols = d.last().copied().unwrap_or(1);
                         let n_rows = if n_cols > 0 { vals.len() / n_cols } else { 1 };
                         let max_row_l1 = if n_rows > 0 && n_cols > 0 {
                             (0..n_rows)
@@ -1801,7 +1821,13 @@ fn compute_layer_bound(
             let m_in = get_input_bound(0);
             Ok(m_in)
         }
-        OpType::Constant => Ok(1.0),
+        OpType::Constant | OpType::ConstantOfShape => Ok(match layer.attributes.get("value") {
+            Some(AttrValue::Tensor(td)) => {
+                let vals = td.as_f64_vec();
+                vals.iter().map(|v| v.abs()).fold(0.0_f64, f64::max)
+            }
+            _ => 1.0,
+        }),
         OpType::HardSwish => {
             let m_in = get_input_bound(0);
             Ok(m_in)
@@ -1848,8 +1874,7 @@ fn compute_layer_bound(
         | OpType::And
         | OpType::Equal
         | OpType::Greater
-        | OpType::Less
-        | OpType::ConstantOfShape => Ok(1.0),
+        | OpType::Less => Ok(1.0),
         OpType::Sin | OpType::Cos => Ok(1.0),
         OpType::Range => Ok(1.0),
         OpType::ReduceMax => {
-- 
2.43.0


From d3f900f5ec56351302f02289a6fdc7d125fdafe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:51 +0000
Subject: [PATCH 15/77] fix: size n_bits of layers that share a name for the
 largest of them

---
 rust/jstprove_onnx/src/quantizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 44f4bbb..f0955bc 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1319,7 +1319,11 @@ fn compute_bounds(graph: &LayerGraph, config: &ScaleConfig) -> Result<HashMap<St
                 );
             }
             let n_bits = compute_n_bits(alpha, bound);
-            n_bits_config.insert(layer.name.clone(), n_bits);
+            // Layers that share a name share an entry, which must suit them all.
+            n_bits_config
+                .entry(layer.name.clone())
+                .and_modify(|n: &mut usize| *n = (*n).max(n_bits))
+                .or_insert(n_bits);
         }
 
         // TopK output[0] = values (bound = m_in), output[1] = indices
-- 
2.43.0


From b4c91a86219bd03b922d5e3fe4bf1320e4655147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:51 +0000
Subject: [PATCH 16/77] fix: name nodes with an empty name like nodes without
 one

---
 rust/jstprove_onnx/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/parser.rs b/rust/jstprove_onnx/src/parser.rs
index 748dc64..4e0b82a 100644
--- a/rust/jstprove_onnx/src/parser.rs
+++ b/rust/jstprove_onnx/src/parser.rs
@@ -169,7 +169,11 @@ fn extract_tensor_data(tensor: &TensorProto) -> Result<TensorData> {
 fn parse_nodes(graph: &GraphProto) -> Result<Vec<ParsedNode>> {
     let mut result = Vec::new();
     for (idx, node) in graph.node.iter().enumerate() {
-        let name = node.name.clone().unwrap_or_else(|| format!("node_{idx}"));
+        let name = node
+            .name
+            .clone()
+            .filter(|name| !name.is_empty())
+            .unwrap_or_else(|| format!("node_{idx}"));
         let op_type = node.op_type.clone().unwrap_or_default();
         let domain = node.domain.clone().unwrap_or_default();
 
-- 
2.43.0


From 31f53b3097785d761b5ef88133ff808609ae9dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:08 +0000
Subject: [PATCH 17/77] fix: give injected Conv biases unique names and the
 size of their type

---
 rust/jstprove_onnx/src/compat.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_onnx/src/compat.rs b/rust/jstprove_onnx/src/compat.rs
index b7b1675..9e77a62 100644
--- a/rust/jstprove_onnx/src/compat.rs
+++ b/rust/jstprove_onnx/src/compat.rs
@@ -98,6 +98,13 @@ pub fn add_zero_bias_to_conv(path: &Path, output_path: &Path) -> Result<()> {
     let graph = model.graph.as_mut().context("model has no graph")?;
 
     let mut new_initializers = Vec::new();
+    let mut taken: HashSet<String> = graph
+        .initializer
+        .iter()
+        .filter_map(|i| i.name.clone())
+        .chain(graph.input.iter().filter_map(|i| i.name.clone()))
+        .chain(graph.node.iter().flat_map(|n| n.output.iter().cloned()))
+        .collect();
 
     for node in &mut graph.node {
         let op = node.op_type.as_deref().unwrap_or("");
@@ -126,11 +133,19 @@ pub fn add_zero_bias_to_conv(path: &Path, output_path: &Path) -> Result<()> {
             .clone()
             .or_else(|| node.output.first().cloned())
             .unwrap_or_else(|| weight_name.clone());
-        let bias_name = format!("{node_id}_zero_bias");
+        let mut bias_name = format!("{node_id}_zero_bias");
+        let mut suffix = 1;
+        while !taken.insert(bias_name.clone()) {
+            bias_name = format!("{node_id}_zero_bias_{suffix}");
+            suffix += 1;
+        }
 
         let data_type = weight_init.and_then(|i| i.data_type).unwrap_or(1);
         let raw_data = match DataType::try_from(data_type) {
-            Ok(DataType::Double) => vec![0u8; out_channels * 8],
+            Ok(DataType::Double | DataType::Int64 | DataType::Uint64) => {
+                vec![0u8; out_channels * 8]
+            }
+            Ok(DataType::Float16 | DataType::Bfloat16) => vec![0u8; out_channels * 2],
             _ => vec![0u8; out_channels * 4],
         };
 
-- 
2.43.0


From a5a66b8a74ac3f41c9345a3481b79fb5389fb83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:50 +0000
Subject: [PATCH 18/77] fix: report impossible tensor sizes instead of
 panicking on them

---
 rust/jstprove_onnx/src/compat.rs          | 3 ++-
 rust/jstprove_onnx/src/quantizer.rs       | 6 +++++-
 rust/jstprove_onnx/src/shape_inference.rs | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/rust/jstprove_onnx/src/compat.rs b/rust/jstprove_onnx/src/compat.rs
index 9e77a62..65bc69a 100644
--- a/rust/jstprove_onnx/src/compat.rs
+++ b/rust/jstprove_onnx/src/compat.rs
@@ -123,7 +123,8 @@ pub fn add_zero_bias_to_conv(path: &Path, output_path: &Path) -> Result<()> {
                 if init.dims.is_empty() {
                     continue;
                 }
-                init.dims[0] as usize
+                usize::try_from(init.dims[0])
+                    .with_context(|| format!("Conv weight '{weight_name}' has a negative size"))?
             }
             None => continue,
         };
diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index f0955bc..7291b36 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1149,7 +1149,7 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                         if ax >= out.len() {
                             continue;
                         }
-                        let dim = out[ax] as i64;
+                        let dim = i64::try_from(out[ax]).unwrap_or(i64::MAX);
                         let s = starts.get(idx).copied().unwrap_or(0).clamp(-dim, dim);
                         let e = ends.get(idx).copied().unwrap_or(dim).clamp(-dim, dim);
                         let step = steps.get(idx).copied().unwrap_or(1).max(1);
@@ -1237,6 +1237,10 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
             _ => input_shape.unwrap_or_default(),
         };
 
+        // A size that no tensor can have says nothing about the shape.
+        if out_shape.iter().any(|&d| i64::try_from(d).is_err()) {
+            continue;
+        }
         for out_name in &layer.outputs {
             shapes.insert(out_name.clone(), out_shape.clone());
         }
diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index a903d4f..4e721c0 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -2157,7 +2157,7 @@ fn infer_slice(
             );
         }
 
-        let dim = input_shape[axis] as i64;
+        let dim = i64::try_from(input_shape[axis])?;
 
         let start = {
             let s = starts.get(i).copied().unwrap_or(0);
-- 
2.43.0


From d86ad3e9dca3b6a110230044e3935058c61b8ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:52 +0000
Subject: [PATCH 19/77] fix: refuse dilated, implicitly padded and ceil-mode
 windows the layer parameters cannot express

---
 rust/jstprove_onnx/src/layer_params.rs | 35 ++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_onnx/src/layer_params.rs b/rust/jstprove_onnx/src/layer_params.rs
index f0a9fd7..753d243 100644
--- a/rust/jstprove_onnx/src/layer_params.rs
+++ b/rust/jstprove_onnx/src/layer_params.rs
@@ -25,7 +25,7 @@ impl GemmParams {
             .get(1)
             .ok_or_else(|| anyhow::anyhow!("Gemm {} has no weight", layer.name))?
             .clone();
-        let bias_tensor_name = layer.inputs.get(2).cloned();
+        let bias_tensor_name = layer.inputs.get(2).filter(|n| !n.is_empty()).cloned();
 
         let trans_a = layer
             .get_int_attr("transA")
@@ -71,6 +71,28 @@ impl GemmParams {
     }
 }
 
+/// The window parameters represent neither dilations nor implicit padding.
+fn ensure_explicit_window(layer: &LayerNode) -> Result<()> {
+    ensure!(
+        layer
+            .get_ints_attr("dilations")
+            .is_none_or(|d| d.iter().all(|&v| v == 1)),
+        "{:?} {}: dilations are not supported",
+        layer.op_type,
+        layer.name
+    );
+    ensure!(
+        matches!(
+            layer.get_string_attr("auto_pad"),
+            None | Some("" | "NOTSET" | "VALID")
+        ),
+        "{:?} {}: implicit padding is not supported",
+        layer.op_type,
+        layer.name
+    );
+    Ok(())
+}
+
 pub struct ConvParams {
     pub input_name: String,
     pub weight_tensor_name: String,
@@ -108,7 +130,7 @@ impl ConvParams {
             .get(1)
             .ok_or_else(|| anyhow::anyhow!("Conv {} has no weight", layer.name))?
             .clone();
-        let bias_tensor_name = layer.inputs.get(2).cloned();
+        let bias_tensor_name = layer.inputs.get(2).filter(|n| !n.is_empty()).cloned();
 
         let weight_data = layer.weights.get(&weight_tensor_name).ok_or_else(|| {
             anyhow::anyhow!("Conv {} missing weight {}", layer.name, weight_tensor_name)
@@ -134,6 +156,8 @@ impl ConvParams {
             group
         );
 
+        ensure_explicit_window(layer)?;
+
         ensure!(
             input_ch == c_in,
             "Conv {}: weight c_in {} does not match input channels {}",
@@ -287,6 +311,13 @@ impl MaxPoolParams {
             layer.name
         );
 
+        ensure_explicit_window(layer)?;
+        ensure!(
+            layer.get_int_attr("ceil_mode").unwrap_or(0) == 0,
+            "MaxPool {}: ceil_mode is not supported",
+            layer.name
+        );
+
         ensure!(
             in_h >= pool_h && in_w >= pool_w,
             "MaxPool {}: input {}x{} smaller than kernel {}x{}",
-- 
2.43.0


From d7999662c1727f5cd80226e5fb8855d03632ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:17 +0000
Subject: [PATCH 20/77] fix: GF2::exp of zero to a non-zero even power is zero

---
 prover/arith/gf2/src/gf2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prover/arith/gf2/src/gf2.rs b/prover/arith/gf2/src/gf2.rs
index 83b64b8..315ee7e 100644
--- a/prover/arith/gf2/src/gf2.rs
+++ b/prover/arith/gf2/src/gf2.rs
@@ -91,7 +91,7 @@ impl Field for GF2 {
 
     #[inline(always)]
     fn exp(&self, exponent: u128) -> Self {
-        if exponent % 2 == 0 {
+        if exponent == 0 {
             Self::one()
         } else {
             *self
-- 
2.43.0


From 311c072465ec4ca389925722ee482dba2f0b1672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:39 +0000
Subject: [PATCH 21/77] fix: packed M31 compares, hashes, serializes and reads
 elements by value

---
 prover/arith/mersenne31/src/m31x16.rs            | 14 ++++++++++++++
 prover/arith/mersenne31/src/m31x16/m31_avx256.rs | 10 +++++-----
 prover/arith/mersenne31/src/m31x16/m31_avx512.rs |  6 +++---
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/prover/arith/mersenne31/src/m31x16.rs b/prover/arith/mersenne31/src/m31x16.rs
index ad91702..c1e63c6 100644
--- a/prover/arith/mersenne31/src/m31x16.rs
+++ b/prover/arith/mersenne31/src/m31x16.rs
@@ -18,6 +18,20 @@ mod m31_avx256;
 #[cfg(all(target_arch = "x86_64", not(target_feature = "avx512f")))]
 pub type M31x16 = m31_avx256::AVXM31;
 
+#[cfg(target_arch = "x86_64")]
+/// Packed elements, like scalar ones, are only read from canonical bytes.
+#[inline(always)]
+fn check_canonical(data: &[u8; 64]) -> serdes::SerdeResult<()> {
+    let canonical = data
+        .chunks_exact(4)
+        .all(|lane| u32::from_le_bytes([lane[0], lane[1], lane[2], lane[3]]) < crate::m31::M31_MOD);
+    if canonical {
+        Ok(())
+    } else {
+        Err(serdes::SerdeError::DeserializeError)
+    }
+}
+
 impl Ord for M31x16 {
     #[inline(always)]
     fn cmp(&self, _: &Self) -> std::cmp::Ordering {
diff --git a/prover/arith/mersenne31/src/m31x16/m31_avx256.rs b/prover/arith/mersenne31/src/m31x16/m31_avx256.rs
index cf8a33d..1156668 100644
--- a/prover/arith/mersenne31/src/m31x16/m31_avx256.rs
+++ b/prover/arith/mersenne31/src/m31x16/m31_avx256.rs
@@ -21,7 +21,7 @@ const PACKED_INV_2: __m256i = unsafe { transmute([1 << 30; M31_PACK_SIZE / 2]) }
 
 #[inline(always)]
 unsafe fn mod_reduce_epi32(x: __m256i) -> __m256i {
-    _mm256_add_epi32(_mm256_and_si256(x, PACKED_MOD), _mm256_srli_epi32(x, 31))
+    _mm256_min_epu32(x, _mm256_sub_epi32(x, PACKED_MOD))
 }
 
 #[inline(always)]
@@ -40,7 +40,7 @@ impl ExpSerde for AVXM31 {
     #[inline(always)]
     /// serialize self into bytes
     fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
-        let data = unsafe { transmute::<[__m256i; 2], [u8; 64]>(self.v) };
+        let data = unsafe { transmute::<[__m256i; 2], [u8; 64]>(mod_reduce_epi32_2(self.v)) };
         writer.write_all(&data)?;
         Ok(())
     }
@@ -50,9 +50,9 @@ impl ExpSerde for AVXM31 {
     fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
         let mut data = [0; 64];
         reader.read_exact(&mut data)?;
+        super::check_canonical(&data)?;
         unsafe {
-            let mut value = transmute::<[u8; 64], [__m256i; 2]>(data);
-            value = mod_reduce_epi32_2(value);
+            let value = transmute::<[u8; 64], [__m256i; 2]>(data);
             Ok(AVXM31 { v: value })
         }
     }
@@ -549,7 +549,7 @@ impl std::hash::Hash for AVXM31 {
     #[inline(always)]
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         unsafe {
-            state.write(transmute::<[__m256i; 2], [u8; 64]>(self.v).as_ref());
+            state.write(transmute::<[__m256i; 2], [u8; 64]>(mod_reduce_epi32_2(self.v)).as_ref());
         }
     }
 }
diff --git a/prover/arith/mersenne31/src/m31x16/m31_avx512.rs b/prover/arith/mersenne31/src/m31x16/m31_avx512.rs
index 57c993c..7d6bff6 100644
--- a/prover/arith/mersenne31/src/m31x16/m31_avx512.rs
+++ b/prover/arith/mersenne31/src/m31x16/m31_avx512.rs
@@ -47,9 +47,9 @@ impl ExpSerde for AVXM31 {
     fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
         let mut data = [0; 64];
         reader.read_exact(&mut data)?;
+        super::check_canonical(&data)?;
         unsafe {
-            let mut value = transmute::<[u8; 64], __m512i>(data);
-            value = mod_reduce_epi32(value); // ZZ: this step seems unnecessary
+            let value = transmute::<[u8; 64], __m512i>(data);
             Ok(AVXM31 { v: value })
         }
     }
@@ -440,7 +440,7 @@ impl Hash for AVXM31 {
     #[inline(always)]
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         unsafe {
-            state.write(transmute::<__m512i, [u8; 64]>(self.v).as_ref());
+            state.write(transmute::<__m512i, [u8; 64]>(mod_reduce_epi32(self.v)).as_ref());
         }
     }
 }
-- 
2.43.0


From e11e9b7b6554b6746040166dceb505563bab5357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:19 +0000
Subject: [PATCH 22/77] fix: packed BabyBear tests both halves for zero, and
 hashes and reads elements within bounds and by value

---
 prover/arith/babybear/src/babybearx16.rs      | 14 +++++++++++++
 .../src/babybearx16/babybear_avx256.rs        | 20 ++++++++++---------
 .../src/babybearx16/babybear_avx512.rs        |  7 ++++---
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/prover/arith/babybear/src/babybearx16.rs b/prover/arith/babybear/src/babybearx16.rs
index ef30f46..f480483 100644
--- a/prover/arith/babybear/src/babybearx16.rs
+++ b/prover/arith/babybear/src/babybearx16.rs
@@ -20,6 +20,20 @@ mod babybear_avx256;
 #[cfg(all(target_arch = "x86_64", not(target_feature = "avx512f")))]
 pub type BabyBearx16 = babybear_avx256::AVXBabyBear;
 
+/// Packed elements, like scalar ones, are only read from canonical bytes.
+#[cfg(target_arch = "x86_64")]
+#[inline(always)]
+fn check_canonical(data: &[u8; 64]) -> serdes::SerdeResult<()> {
+    let canonical = data
+        .chunks_exact(4)
+        .all(|lane| u32::from_le_bytes([lane[0], lane[1], lane[2], lane[3]]) < crate::babybear::BABY_BEAR_MOD);
+    if canonical {
+        Ok(())
+    } else {
+        Err(serdes::SerdeError::DeserializeError)
+    }
+}
+
 impl Ord for BabyBearx16 {
     #[inline(always)]
     fn cmp(&self, _: &Self) -> std::cmp::Ordering {
diff --git a/prover/arith/babybear/src/babybearx16/babybear_avx256.rs b/prover/arith/babybear/src/babybearx16/babybear_avx256.rs
index 0d65c32..b22b2eb 100644
--- a/prover/arith/babybear/src/babybearx16/babybear_avx256.rs
+++ b/prover/arith/babybear/src/babybearx16/babybear_avx256.rs
@@ -47,7 +47,12 @@ impl ExpSerde for AVXBabyBear {
     #[inline(always)]
     /// serialize self into bytes
     fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
-        let data = unsafe { transmute::<[__m256i; 2], [u8; 64]>(self.v) };
+        let data = unsafe {
+            transmute::<[__m256i; 2], [u8; 64]>([
+                mod_reduce_epi32(self.v[0]),
+                mod_reduce_epi32(self.v[1]),
+            ])
+        };
         writer.write_all(&data)?;
         Ok(())
     }
@@ -57,11 +62,10 @@ impl ExpSerde for AVXBabyBear {
     fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
         let mut data = [0; 64];
         reader.read_exact(&mut data)?;
+        super::check_canonical(&data)?;
         unsafe {
             let value = transmute::<[u8; 64], [__m256i; 2]>(data);
-            let v0 = mod_reduce_epi32(value[0]);
-            let v1 = mod_reduce_epi32(value[1]);
-            Ok(AVXBabyBear { v: [v0, v1] })
+            Ok(AVXBabyBear { v: value })
         }
     }
 }
@@ -113,7 +117,7 @@ impl Field for AVXBabyBear {
             let pcmp2_1 = _mm256_movemask_ps(_mm256_castsi256_ps(_mm256_cmpeq_epi32(
                 self.v[1], PACKED_MOD,
             )));
-            (pcmp0 | pcmp1 | pcmp2_0 | pcmp2_1) == 0xFF
+            ((pcmp0 | pcmp2_0) & (pcmp1 | pcmp2_1)) == 0xFF
         }
     }
 
@@ -393,10 +397,8 @@ impl Hash for AVXBabyBear {
     #[inline(always)]
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         unsafe {
-            let mut data = [0; BABY_BEAR_PACK_SIZE];
-            _mm256_storeu_si256(data[..8].as_mut_ptr() as *mut __m256i, self.v[0]);
-            _mm256_storeu_si256(data[8..].as_mut_ptr() as *mut __m256i, self.v[1]);
-            state.write(data.as_ref());
+            let value = [mod_reduce_epi32(self.v[0]), mod_reduce_epi32(self.v[1])];
+            state.write(transmute::<[__m256i; 2], [u8; 64]>(value).as_ref());
         }
     }
 }
diff --git a/prover/arith/babybear/src/babybearx16/babybear_avx512.rs b/prover/arith/babybear/src/babybearx16/babybear_avx512.rs
index 73d9a14..b6076b2 100644
--- a/prover/arith/babybear/src/babybearx16/babybear_avx512.rs
+++ b/prover/arith/babybear/src/babybearx16/babybear_avx512.rs
@@ -18,8 +18,8 @@ use crate::{babybear::BABY_BEAR_MOD, BabyBear};
 #[inline]
 unsafe fn mod_reduce_epi32(x: __m512i) -> __m512i {
     // Compare each element with modulus
-    let mask = _mm512_cmpgt_epu32_mask(x, PACKED_MOD);
-    // If element > modulus, subtract modulus
+    let mask = _mm512_cmpge_epu32_mask(x, PACKED_MOD);
+    // If element >= modulus, subtract modulus
     _mm512_mask_sub_epi32(x, mask, x, PACKED_MOD)
 }
 
@@ -59,6 +59,7 @@ impl ExpSerde for AVXBabyBear {
     fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
         let mut data = [0; 64];
         reader.read_exact(&mut data)?;
+        super::check_canonical(&data)?;
         unsafe {
             let value = transmute::<[u8; 64], __m512i>(data);
             Ok(AVXBabyBear { v: value })
@@ -336,7 +337,7 @@ impl Hash for AVXBabyBear {
     #[inline(always)]
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         unsafe {
-            state.write(transmute::<__m512i, [u8; 64]>(self.v).as_ref());
+            state.write(transmute::<__m512i, [u8; 64]>(mod_reduce_epi32(self.v)).as_ref());
         }
     }
 }
-- 
2.43.0


From 0b5563eb6d9c4cd6070fcd2edd47a65b40909815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:20 +0000
Subject: [PATCH 23/77] fix: packed Goldilocks converts from u32, hashes,
 negates and reads elements by value

---
 prover/arith/goldilocks/src/goldilocksx8.rs          | 10 ++++++++++
 .../goldilocks/src/goldilocksx8/goldilocks_avx256.rs | 12 ++++--------
 .../goldilocks/src/goldilocksx8/goldilocks_avx512.rs |  5 +++--
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/prover/arith/goldilocks/src/goldilocksx8.rs b/prover/arith/goldilocks/src/goldilocksx8.rs
index d0612c3..7dc6901 100644
--- a/prover/arith/goldilocks/src/goldilocksx8.rs
+++ b/prover/arith/goldilocks/src/goldilocksx8.rs
@@ -19,6 +19,16 @@ mod goldilocks_avx256;
 #[cfg(all(target_arch = "x86_64", not(target_feature = "avx512f")))]
 pub type Goldilocksx8 = goldilocks_avx256::AVXGoldilocks;
 
+/// Packed elements, like scalar ones, are only read from canonical bytes.
+#[cfg(target_arch = "x86_64")]
+#[inline(always)]
+fn check_canonical(data: &[u8; 64]) -> serdes::SerdeResult<()> {
+    for lane in data.chunks_exact(8) {
+        <crate::Goldilocks as serdes::ExpSerde>::deserialize_from(lane)?;
+    }
+    Ok(())
+}
+
 impl Ord for Goldilocksx8 {
     #[inline(always)]
     fn cmp(&self, _: &Self) -> std::cmp::Ordering {
diff --git a/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx256.rs b/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx256.rs
index 9c60743..597685c 100644
--- a/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx256.rs
+++ b/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx256.rs
@@ -55,6 +55,7 @@ impl ExpSerde for AVXGoldilocks {
     fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
         let mut data = [0u8; 64];
         reader.read_exact(&mut data)?;
+        super::check_canonical(&data)?;
         Ok(AVXGoldilocks {
             v: unsafe { transmute::<[u8; 64], [__m256i; 2]>(data) },
         })
@@ -331,8 +332,8 @@ impl Hash for AVXGoldilocks {
     #[inline(always)]
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         unsafe {
-            state.write(transmute::<__m256i, [u8; 32]>(self.v[0]).as_ref());
-            state.write(transmute::<__m256i, [u8; 32]>(self.v[1]).as_ref());
+            state.write(transmute::<__m256i, [u8; 32]>(mod_reduce_epi64(self.v[0])).as_ref());
+            state.write(transmute::<__m256i, [u8; 32]>(mod_reduce_epi64(self.v[1])).as_ref());
         }
     }
 }
@@ -352,12 +353,7 @@ impl Neg for AVXGoldilocks {
 impl From<u32> for AVXGoldilocks {
     #[inline(always)]
     fn from(x: u32) -> Self {
-        Self {
-            v: [
-                unsafe { p3_instructions::shift(_mm256_set1_epi64x(x as i64)) },
-                unsafe { p3_instructions::shift(_mm256_set1_epi64x(x as i64)) },
-            ],
-        }
+        Self::pack_full(&Goldilocks::from(x))
     }
 }
 
diff --git a/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx512.rs b/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx512.rs
index 3a19371..52761e6 100644
--- a/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx512.rs
+++ b/prover/arith/goldilocks/src/goldilocksx8/goldilocks_avx512.rs
@@ -50,6 +50,7 @@ impl ExpSerde for AVXGoldilocks {
     fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
         let mut data = [0; 64];
         reader.read_exact(&mut data)?;
+        super::check_canonical(&data)?;
         unsafe {
             let value = transmute::<[u8; 64], __m512i>(data);
             Ok(Self { v: value })
@@ -275,7 +276,7 @@ impl Hash for AVXGoldilocks {
     #[inline(always)]
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         unsafe {
-            state.write(transmute::<__m512i, [u8; 64]>(self.v).as_ref());
+            state.write(transmute::<__m512i, [u8; 64]>(mod_reduce_epi64(self.v)).as_ref());
         }
     }
 }
@@ -288,7 +289,7 @@ impl Neg for AVXGoldilocks {
             self
         } else {
             Self {
-                v: unsafe { _mm512_sub_epi64(PACKED_GOLDILOCKS_MOD, self.v) },
+                v: unsafe { _mm512_sub_epi64(PACKED_GOLDILOCKS_MOD, mod_reduce_epi64(self.v)) },
             }
         }
     }
-- 
2.43.0


From b7cfd059299217fb7cab0d8d9176ebf9e2679532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:08 +0000
Subject: [PATCH 24/77] fix: MontyField31::from_u256 reduces modulo the field
 order

---
 prover/arith/src/monty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prover/arith/src/monty.rs b/prover/arith/src/monty.rs
index 930d24a..5a1bb41 100644
--- a/prover/arith/src/monty.rs
+++ b/prover/arith/src/monty.rs
@@ -391,7 +391,7 @@ impl<MP: FieldParameters> Field for MontyField31<MP> {
 
     #[inline(always)]
     fn from_u256(v: U256) -> Self {
-        Self::new(v.as_u32())
+        Self::new((v % Self::MODULUS).as_u32())
     }
 }
 
-- 
2.43.0


From 947351b645cf7e26516ecb7b338731e1a6df8b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:08 +0000
Subject: [PATCH 25/77] fix: packed BabyBear random_bool yields the field's 0
 and 1

---
 .../src/babybearx16/babybear_avx256.rs        | 27 +++----------------
 .../src/babybearx16/babybear_avx512.rs        | 25 +++--------------
 2 files changed, 8 insertions(+), 44 deletions(-)

diff --git a/prover/arith/babybear/src/babybearx16/babybear_avx256.rs b/prover/arith/babybear/src/babybearx16/babybear_avx256.rs
index b22b2eb..ae6287a 100644
--- a/prover/arith/babybear/src/babybearx16/babybear_avx256.rs
+++ b/prover/arith/babybear/src/babybearx16/babybear_avx256.rs
@@ -156,29 +156,10 @@ impl Field for AVXBabyBear {
     #[inline(always)]
     fn random_bool(mut rng: impl RngCore) -> Self {
         // Caution: this may not produce uniformly random elements
-        unsafe {
-            let v0 = _mm256_setr_epi32(
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-            );
-            let v1 = _mm256_setr_epi32(
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-            );
-            Self { v: [v0, v1] }
-        }
+        let sample = (0..BABY_BEAR_PACK_SIZE)
+            .map(|_| BabyBear::random_bool(&mut rng))
+            .collect::<Vec<_>>();
+        Self::pack(&sample)
     }
 
     #[inline(always)]
diff --git a/prover/arith/babybear/src/babybearx16/babybear_avx512.rs b/prover/arith/babybear/src/babybearx16/babybear_avx512.rs
index b6076b2..29e47f3 100644
--- a/prover/arith/babybear/src/babybearx16/babybear_avx512.rs
+++ b/prover/arith/babybear/src/babybearx16/babybear_avx512.rs
@@ -133,27 +133,10 @@ impl Field for AVXBabyBear {
     #[inline(always)]
     fn random_bool(mut rng: impl RngCore) -> Self {
         // Caution: this may not produce uniformly random elements
-        unsafe {
-            let v = _mm512_setr_epi32(
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-                rng.gen::<bool>() as i32,
-            );
-            Self { v }
-        }
+        let sample = (0..BABY_BEAR_PACK_SIZE)
+            .map(|_| BabyBear::random_bool(&mut rng))
+            .collect::<Vec<_>>();
+        Self::pack(&sample)
     }
 
     #[inline(always)]
-- 
2.43.0


From f5a9f38cd70abaa7e67f9c853d9888f2d86ad338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:58 +0000
Subject: [PATCH 26/77] fix: deserializing strings and maps does not allocate
 what an untrusted length prefix asks for

---
 prover/serdes/src/serdes.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/prover/serdes/src/serdes.rs b/prover/serdes/src/serdes.rs
index 26d61a4..3a33e68 100644
--- a/prover/serdes/src/serdes.rs
+++ b/prover/serdes/src/serdes.rs
@@ -163,7 +163,8 @@ impl<K: ExpSerde + Eq + Hash, V: ExpSerde> ExpSerde for HashMap<K, V> {
 
     fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
         let len = usize::deserialize_from(&mut reader)?;
-        let mut map = HashMap::with_capacity(len);
+        // grow with the entries actually read: the length prefix is not trusted
+        let mut map = HashMap::new();
         for _ in 0..len {
             let k = K::deserialize_from(&mut reader)?;
             let v = V::deserialize_from(&mut reader)?;
@@ -203,8 +204,12 @@ impl ExpSerde for String {
     }
     fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
         let len = usize::deserialize_from(&mut reader)?;
-        let mut buf = vec![0u8; len];
-        reader.read_exact(&mut buf)?;
+        // grow with the bytes actually read: the length prefix is not trusted
+        let mut buf = Vec::new();
+        reader.by_ref().take(len as u64).read_to_end(&mut buf)?;
+        if buf.len() != len {
+            return Err(SerdeError::DeserializeError);
+        }
         String::from_utf8(buf).map_err(|_| SerdeError::DeserializeError)
     }
 }
-- 
2.43.0


From bc974f5a3d919fd2a32c0a672e6f64d6424cf9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:15 +0000
Subject: [PATCH 27/77] fix: MultiLinearPoly::fix_bottom_variable folds the
 pair (2i, 2i+1)

---
 prover/arith/polynomials/src/mle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prover/arith/polynomials/src/mle.rs b/prover/arith/polynomials/src/mle.rs
index 55b2307..1253481 100644
--- a/prover/arith/polynomials/src/mle.rs
+++ b/prover/arith/polynomials/src/mle.rs
@@ -95,7 +95,7 @@ impl<F: Field> MultiLinearPoly<F> {
 
         for i in 0..n {
             self.coeffs[i] =
-                self.coeffs[i] + (self.coeffs[(i << 1) + 1] - self.coeffs[i << 1]) * point;
+                self.coeffs[i << 1] + (self.coeffs[(i << 1) + 1] - self.coeffs[i << 1]) * point;
         }
         self.coeffs.truncate(n);
     }
-- 
2.43.0


From 69734e776b8c855ba4918e31f0ed2ca6afac21cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:15 +0000
Subject: [PATCH 28/77] fix: Merkle path verification rejects indices and
 ranges that are not in the tree

---
 prover/tree/src/path.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/prover/tree/src/path.rs b/prover/tree/src/path.rs
index 5e1ef63..1b7ba21 100644
--- a/prover/tree/src/path.rs
+++ b/prover/tree/src/path.rs
@@ -55,6 +55,12 @@ impl Path {
     /// `true` if the path is valid, `false` otherwise.
     #[inline]
     pub fn verify(&self, root: &Node) -> bool {
+        // an index outside the tree would verify like its lower bits
+        if self.path_nodes.len() >= usize::BITS as usize || self.index >> self.path_nodes.len() != 0
+        {
+            return false;
+        }
+
         let timer = start_timer!(|| "path verify");
 
         let position_list = self.position_list().collect::<Vec<_>>();
@@ -160,8 +166,23 @@ impl RangePath {
         current_node
     }
 
+    /// The leaves fill exactly the aligned index range [left, right] of a tree of this height.
+    #[inline]
+    fn is_well_formed(&self) -> bool {
+        let num_leaves = self.leaves.len();
+        if !num_leaves.is_power_of_two() {
+            return false;
+        }
+        let tree_depth = num_leaves.ilog2() as usize + self.path_nodes.len();
+
+        self.left % num_leaves == 0
+            && self.right.checked_sub(self.left) == Some(num_leaves - 1)
+            && tree_depth < usize::BITS as usize - 1
+            && self.right >> tree_depth == 0
+    }
+
     #[inline]
     pub fn verify(&self, root: &Node) -> bool {
-        self.root() == *root
+        self.is_well_formed() && self.root() == *root
     }
 }
-- 
2.43.0


From d65c9b678e45d2838575673e7a78c90ad56b8067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:15 +0000
Subject: [PATCH 29/77] fix: append_commitment keeps what the transcript
 absorbed before

---
 prover/transcript/src/byte_hash_transcript.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/prover/transcript/src/byte_hash_transcript.rs b/prover/transcript/src/byte_hash_transcript.rs
index a721860..9b358cb 100644
--- a/prover/transcript/src/byte_hash_transcript.rs
+++ b/prover/transcript/src/byte_hash_transcript.rs
@@ -26,17 +26,15 @@ pub struct BytesHashTranscript<H: FiatShamirHasher> {
 }
 
 impl<H: FiatShamirHasher> BytesHashTranscript<H> {
-    /// When appending the initial commitment, we hash the commitment bytes
-    /// for sufficient number of times, so that the FS hash has a sufficient circuit depth
+    /// Absorb a commitment that was just appended, together with everything before it, and hash
+    /// the state for sufficient number of times, so that the FS hash has a sufficient circuit depth
     #[cfg(not(feature = "recursion"))]
     #[inline(always)]
-    fn hash_init_commitment(&mut self, commitment_bytes: &[u8]) -> Vec<u8> {
-        let mut digest = vec![0u8; H::DIGEST_SIZE];
-        self.hasher.hash(&mut digest, commitment_bytes);
+    fn absorb_commitment(&mut self) {
+        self.refresh_digest();
         for _ in 0..PCS_DIGEST_LOOP {
-            self.hasher.hash_inplace(&mut digest);
+            self.hasher.hash_inplace(&mut self.digest);
         }
-        digest
     }
 }
 
@@ -57,10 +55,7 @@ impl<H: FiatShamirHasher> Transcript for BytesHashTranscript<H> {
         self.append_u8_slice(commitment_bytes);
 
         #[cfg(not(feature = "recursion"))]
-        {
-            let digest = self.hash_init_commitment(commitment_bytes);
-            self.set_state(&digest);
-        }
+        self.absorb_commitment();
     }
 
     /// Append a byte slice to the transcript.
-- 
2.43.0


From 8c1e60f6f2d850673ba0cccc0f0aac255bb92e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:15 +0000
Subject: [PATCH 30/77] fix: layering counts a constraint output only when the
 root circuit has one

---
 compiler/expander_compiler/src/layering/ir_split.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compiler/expander_compiler/src/layering/ir_split.rs b/compiler/expander_compiler/src/layering/ir_split.rs
index e1d6efa..50c51f6 100644
--- a/compiler/expander_compiler/src/layering/ir_split.rs
+++ b/compiler/expander_compiler/src/layering/ir_split.rs
@@ -21,6 +21,8 @@ struct SplitContext<'a, C: Config> {
     cc_occured_layers: HashMap<(usize, Vec<usize>), Vec<usize>>,
     splitted_circuits: HashMap<(usize, Vec<usize>, Vec<usize>), SplittedCircuit>,
     new_circuit0: Option<IrCircuit<C>>,
+    /// constraint outputs put in front of the root circuit's own outputs (0 or 1)
+    root_constraint_outputs: usize,
 }
 
 struct SplittedCircuit {
@@ -295,6 +297,7 @@ impl<'a, C: Config> SplitContext<'a, C> {
         }
         if circuit_id == 0 {
             assert_eq!(circuit.constraints.len(), 0);
+            self.root_constraint_outputs = add_outputs.len();
             add_outputs.extend(outputs);
             circuit.outputs = add_outputs;
             self.new_circuit0 = Some(circuit);
@@ -475,6 +478,7 @@ pub fn split_to_single_layer<C: Config>(root: &IrRootCircuit<C>) -> IrRootCircui
         cc_occured_layers: HashMap::new(),
         splitted_circuits: HashMap::new(),
         new_circuit0: None,
+        root_constraint_outputs: 0,
     };
     ctx.new_circuits.add(&IrCircuit {
         num_inputs: !0,
@@ -493,8 +497,7 @@ pub fn split_to_single_layer<C: Config>(root: &IrRootCircuit<C>) -> IrRootCircui
     IrRootCircuit {
         circuits: new_circuits,
         num_public_inputs: root.num_public_inputs,
-        expected_num_output_zeroes: root.expected_num_output_zeroes
-            + C::ENABLE_RANDOM_COMBINATION as usize,
+        expected_num_output_zeroes: root.expected_num_output_zeroes + ctx.root_constraint_outputs,
     }
 }
 
-- 
2.43.0


From 853e7152b4c0d2b67182c8aa58a275ea04cfdbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:49 +0000
Subject: [PATCH 31/77] fix: a value too large for a bit decomposition is a
 witness solving error, not a panic

---
 compiler/expander_compiler/src/hints/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/expander_compiler/src/hints/mod.rs b/compiler/expander_compiler/src/hints/mod.rs
index 5b56752..57fa19d 100644
--- a/compiler/expander_compiler/src/hints/mod.rs
+++ b/compiler/expander_compiler/src/hints/mod.rs
@@ -14,6 +14,7 @@ pub fn safe_impl<F: Field>(
     num_outputs: usize,
 ) -> Result<Vec<F>, Error> {
     match BuiltinHintIds::from_usize(hint_id) {
+        Some(BuiltinHintIds::ToBinary) => to_binary(inputs[0], num_outputs),
         Some(hint_id) => Ok(impl_builtin_hint(hint_id, inputs, num_outputs)),
         None => hint_caller.call(hint_id, inputs, num_outputs),
     }
-- 
2.43.0


From 893326e8d44293aab6e30a91b8cb782d4330e0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:07 +0000
Subject: [PATCH 32/77] fix: marking an expression boolean does not drop a
 boolean assertion already made on it

---
 compiler/expander_compiler/src/builder/basic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/expander_compiler/src/builder/basic.rs b/compiler/expander_compiler/src/builder/basic.rs
index 2d5a2bc..c289c26 100644
--- a/compiler/expander_compiler/src/builder/basic.rs
+++ b/compiler/expander_compiler/src/builder/basic.rs
@@ -241,7 +241,8 @@ impl<'a, C: Config, IrcIn: IrConfig<Config = C>, IrcOut: IrConfig<Config = C>>
         self.constraints
             .entry(constraint_type)
             .or_default()
-            .insert(expr, ConstraintStatus::Marked);
+            .entry(expr)
+            .or_insert(ConstraintStatus::Marked);
     }
 
     fn add_input(&mut self) {
-- 
2.43.0


From 4ac58c1ea11aeb1d32bad1a312602fa040aa4e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:01 +0000
Subject: [PATCH 33/77] fix: comparison hints compare values, not Montgomery
 words

---
 compiler/expander_compiler/src/hints/builtin.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/compiler/expander_compiler/src/hints/builtin.rs b/compiler/expander_compiler/src/hints/builtin.rs
index e0949be..08bbefb 100644
--- a/compiler/expander_compiler/src/hints/builtin.rs
+++ b/compiler/expander_compiler/src/hints/builtin.rs
@@ -231,10 +231,18 @@ pub fn impl_builtin_hint<F: Field>(
         }
         BuiltinHintIds::ShiftL => binop_hint_on_u256(inputs, |x, y| circom_shift_l_impl::<F>(x, y)),
         BuiltinHintIds::ShiftR => binop_hint_on_u256(inputs, |x, y| circom_shift_r_impl::<F>(x, y)),
-        BuiltinHintIds::LesserEq => binop_hint(inputs, |x, y| F::from((x <= y) as u32)),
-        BuiltinHintIds::GreaterEq => binop_hint(inputs, |x, y| F::from((x >= y) as u32)),
-        BuiltinHintIds::Lesser => binop_hint(inputs, |x, y| F::from((x < y) as u32)),
-        BuiltinHintIds::Greater => binop_hint(inputs, |x, y| F::from((x > y) as u32)),
+        BuiltinHintIds::LesserEq => binop_hint(inputs, |x, y| {
+            F::from((x.to_u256() <= y.to_u256()) as u32)
+        }),
+        BuiltinHintIds::GreaterEq => binop_hint(inputs, |x, y| {
+            F::from((x.to_u256() >= y.to_u256()) as u32)
+        }),
+        BuiltinHintIds::Lesser => binop_hint(inputs, |x, y| {
+            F::from((x.to_u256() < y.to_u256()) as u32)
+        }),
+        BuiltinHintIds::Greater => binop_hint(inputs, |x, y| {
+            F::from((x.to_u256() > y.to_u256()) as u32)
+        }),
         BuiltinHintIds::ToBinary => to_binary(inputs[0], num_outputs).unwrap(), // TODO: error propagation
     }
 }
-- 
2.43.0


From de9f78a81302b88b937fa32c832c4cb6bba2e774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:12 +0000
Subject: [PATCH 34/77] fix: a bit decomposition as wide as the field has one
 solution

---
 .../src/builder/hint_normalize.rs             | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/compiler/expander_compiler/src/builder/hint_normalize.rs b/compiler/expander_compiler/src/builder/hint_normalize.rs
index 9bc2f73..a3a81a8 100644
--- a/compiler/expander_compiler/src/builder/hint_normalize.rs
+++ b/compiler/expander_compiler/src/builder/hint_normalize.rs
@@ -84,6 +84,31 @@ impl<'a, C: Config> Builder<'a, C> {
         let t = self.bool_cond(a);
         self.mark((), t);
     }
+    /// Bits (least significant first) that are wide enough to hold a value of at least the field
+    /// order must hold a value below it, or a field element would have several decompositions.
+    fn assert_canonical_bits(&mut self, bits: &[usize]) {
+        let max = CircuitField::<C>::MODULUS - 1;
+        let max_bits = 256 - max.leading_zeros() as usize;
+        if bits.len() < max_bits || max.count_ones() as usize >= bits.len() {
+            return;
+        }
+        // whether all bits above i where `max` has a one are set
+        let mut prefix: Option<usize> = None;
+        for (i, &bit) in bits.iter().enumerate().rev() {
+            if i < max_bits && (max >> i).as_u64() & 1 == 1 {
+                prefix = Some(match prefix {
+                    None => bit,
+                    Some(p) => self.push_mul(p, bit),
+                });
+            } else {
+                let excess = match prefix {
+                    None => bit,
+                    Some(p) => self.push_mul(p, bit),
+                };
+                self.assert((), excess);
+            }
+        }
+    }
 }
 
 impl<'a, C: Config> InsnTransformAndExecute<'a, C, IrcIn<C>, IrcOut<C>> for Builder<'a, C> {
@@ -299,6 +324,7 @@ impl<'a, C: Config> InsnTransformAndExecute<'a, C, IrcIn<C>, IrcOut<C>> for Buil
                     }))
                     .unwrap();
                 self.assert((), sum);
+                self.assert_canonical_bits(&bits);
                 return self.copys(&bits);
             }
         })
-- 
2.43.0


From 819c73cc9de4966ef6a02e06c4ba44fd94bbbcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 35/77] fix: flattening a circuit orders gates
 deterministically

---
 prover/circuit/src/ecc_circuit.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prover/circuit/src/ecc_circuit.rs b/prover/circuit/src/ecc_circuit.rs
index c8cb782..ccf34c0 100644
--- a/prover/circuit/src/ecc_circuit.rs
+++ b/prover/circuit/src/ecc_circuit.rs
@@ -90,6 +90,9 @@ impl<C: FieldEngine> RecursiveCircuit<C> {
                 output_var_num: max(layer_seg.o_var_num, 1), // var_num >= 1
                 ..Default::default()
             };
+            // in a fixed order: the gates' order decides which random coefficient each of them gets
+            let mut leaves: Vec<_> = leaves.into_iter().collect();
+            leaves.sort_by_key(|(leaf_seg_id, _)| *leaf_seg_id);
             for (leaf_seg_id, leaf_allocs) in leaves {
                 let leaf_seg = &self.segments[leaf_seg_id];
                 for alloc in leaf_allocs {
-- 
2.43.0


From 1c2ef37580acc055eed6d55e4aa72a13a6f53c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 36/77] fix: a witness header is not trusted with sizes that
 overflow or allocate

---
 .../src/circuit/layered/witness.rs                 | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/compiler/expander_compiler/src/circuit/layered/witness.rs b/compiler/expander_compiler/src/circuit/layered/witness.rs
index c8313af..1c26afe 100644
--- a/compiler/expander_compiler/src/circuit/layered/witness.rs
+++ b/compiler/expander_compiler/src/circuit/layered/witness.rs
@@ -305,10 +305,16 @@ impl<C: Config> ExpSerde for Witness<C> {
                 "invalid modulus",
             ))?;
         }
-        let mut values = Vec::with_capacity(
-            num_witnesses * (num_inputs_per_witness + num_public_inputs_per_witness),
-        );
-        for _ in 0..num_witnesses * (num_inputs_per_witness + num_public_inputs_per_witness) {
+        let num_values = num_inputs_per_witness
+            .checked_add(num_public_inputs_per_witness)
+            .and_then(|n| n.checked_mul(num_witnesses))
+            .filter(|n| *n > 0 || num_witnesses == 0)
+            .ok_or_else(|| {
+                std::io::Error::new(std::io::ErrorKind::InvalidData, "invalid witness size")
+            })?;
+        // the header is not trusted with the allocation
+        let mut values = Vec::with_capacity(num_values.min(1 << 16));
+        for _ in 0..num_values {
             values.push(CircuitField::<C>::deserialize_from(&mut reader)?);
         }
         let mut res = Self {
-- 
2.43.0


From 62c928f1cbfd6b175ad84e5e15fa48aa01f4b983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:29 +0000
Subject: [PATCH 37/77] fix: bad circuit and witness files are errors, not
 panics, and other-field witnesses are refused

---
 prover/circuit/src/layered/serde.rs | 24 ++++++++++++++++-------
 prover/circuit/src/serde.rs         | 30 +++++++++++++++++++----------
 2 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/prover/circuit/src/layered/serde.rs b/prover/circuit/src/layered/serde.rs
index 1efd5af..1ab4b75 100644
--- a/prover/circuit/src/layered/serde.rs
+++ b/prover/circuit/src/layered/serde.rs
@@ -1,12 +1,16 @@
-use std::io::{Read, Write};
+use std::io::{Error as IoError, ErrorKind, Read, Write};
 
 use arith::Field;
 use gkr_engine::FieldEngine;
-use serdes::{ExpSerde, SerdeResult};
+use serdes::{ExpSerde, SerdeError, SerdeResult};
 
 use super::circuit::{Circuit, CircuitLayer, StructureInfo};
 use super::gates::{CoefType, Gate, GateAdd, GateConst, GateMul, GateUni};
 
+fn invalid(msg: &str) -> SerdeError {
+    IoError::new(ErrorKind::InvalidData, msg).into()
+}
+
 impl ExpSerde for CoefType {
     fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
         match self {
@@ -29,7 +33,7 @@ impl ExpSerde for CoefType {
                 let idx = usize::deserialize_from(&mut reader)?;
                 Ok(CoefType::PublicInput(idx))
             }
-            _ => panic!("Invalid tag for CoefType"),
+            _ => Err(invalid("invalid tag for CoefType")),
         }
     }
 }
@@ -76,7 +80,9 @@ impl<C: FieldEngine, const INPUT_NUM: usize> ExpSerde for Gate<C, INPUT_NUM> {
             2 => (CoefType::Random, C::CircuitField::ZERO),
             3 => {
                 if INPUT_NUM > 0 {
-                    panic!("Public Input can only be used with constant gates")
+                    return Err(invalid(
+                        "public input can only be used with constant gates",
+                    ));
                 };
 
                 (
@@ -84,7 +90,7 @@ impl<C: FieldEngine, const INPUT_NUM: usize> ExpSerde for Gate<C, INPUT_NUM> {
                     C::CircuitField::ZERO,
                 )
             }
-            _ => unreachable!(),
+            _ => return Err(invalid("invalid coefficient type")),
         };
 
         Ok(Self {
@@ -145,10 +151,14 @@ impl<C: FieldEngine> ExpSerde for Circuit<C> {
 
     fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
         let version = usize::deserialize_from(&mut reader)?;
-        assert_eq!(version, CIRCUIT_VERSION, "Circuit file version mismatch");
+        if version != CIRCUIT_VERSION {
+            return Err(invalid("circuit file version mismatch"));
+        }
         let mut sentinel = [0u8; 32];
         reader.read_exact(&mut sentinel)?;
-        assert_eq!(sentinel, C::SENTINEL, "Circuit field type mismatch");
+        if sentinel != C::SENTINEL {
+            return Err(invalid("circuit field type mismatch"));
+        }
         let expected_num_output_zeros = usize::deserialize_from(&mut reader)?;
         let layers = Vec::<CircuitLayer<C>>::deserialize_from(&mut reader)?;
         Ok(Circuit {
diff --git a/prover/circuit/src/serde.rs b/prover/circuit/src/serde.rs
index 822f53b..6648dce 100644
--- a/prover/circuit/src/serde.rs
+++ b/prover/circuit/src/serde.rs
@@ -1,6 +1,8 @@
+use arith::Field;
+use ethnum::U256;
 use gkr_engine::FieldEngine;
 use serdes::{ExpSerde, SerdeResult};
-use std::io::Read;
+use std::io::{Error as IoError, ErrorKind, Read};
 
 use super::Witness;
 
@@ -10,17 +12,25 @@ impl<C: FieldEngine> ExpSerde for Witness<C> {
     }
 
     fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
-        let num_witnesses = <usize as ExpSerde>::deserialize_from(&mut reader).unwrap();
-        let num_private_inputs_per_witness =
-            <usize as ExpSerde>::deserialize_from(&mut reader).unwrap();
-        let num_public_inputs_per_witness =
-            <usize as ExpSerde>::deserialize_from(&mut reader).unwrap();
-        let _modulus = <[u64; 4]>::deserialize_from(&mut reader).unwrap();
+        let num_witnesses = usize::deserialize_from(&mut reader)?;
+        let num_private_inputs_per_witness = usize::deserialize_from(&mut reader)?;
+        let num_public_inputs_per_witness = usize::deserialize_from(&mut reader)?;
+        let modulus = U256::deserialize_from(&mut reader)?;
+        if modulus != C::CircuitField::MODULUS {
+            return Err(IoError::new(
+                ErrorKind::InvalidData,
+                "witness is over another field",
+            ))?;
+        }
 
+        let num_values = num_private_inputs_per_witness
+            .checked_add(num_public_inputs_per_witness)
+            .and_then(|n| n.checked_mul(num_witnesses))
+            .filter(|n| *n > 0 || num_witnesses == 0)
+            .ok_or_else(|| IoError::new(ErrorKind::InvalidData, "invalid witness size"))?;
         let mut values = vec![];
-        for _ in 0..num_witnesses * (num_private_inputs_per_witness + num_public_inputs_per_witness)
-        {
-            values.push(C::CircuitField::deserialize_from(&mut reader).unwrap());
+        for _ in 0..num_values {
+            values.push(C::CircuitField::deserialize_from(&mut reader)?);
         }
 
         Ok(Self {
-- 
2.43.0


From e52a08cdd245f072634671703bfe6f27a4e1571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:06 +0000
Subject: [PATCH 38/77] fix: circuit files keep the type of univariate gates

---
 prover/circuit/src/layered/serde.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prover/circuit/src/layered/serde.rs b/prover/circuit/src/layered/serde.rs
index 1ab4b75..3d6fdc2 100644
--- a/prover/circuit/src/layered/serde.rs
+++ b/prover/circuit/src/layered/serde.rs
@@ -111,6 +111,10 @@ impl<C: FieldEngine> ExpSerde for CircuitLayer<C> {
         self.add.serialize_into(&mut writer)?;
         self.const_.serialize_into(&mut writer)?;
         self.uni.serialize_into(&mut writer)?;
+        // gates do not carry their type themselves; for all other kinds it is fixed
+        for gate in &self.uni {
+            gate.gate_type.serialize_into(&mut writer)?;
+        }
         Ok(())
     }
 
@@ -120,7 +124,10 @@ impl<C: FieldEngine> ExpSerde for CircuitLayer<C> {
         let mul = Vec::<GateMul<C>>::deserialize_from(&mut reader)?;
         let add = Vec::<GateAdd<C>>::deserialize_from(&mut reader)?;
         let const_ = Vec::<GateConst<C>>::deserialize_from(&mut reader)?;
-        let uni = Vec::<GateUni<C>>::deserialize_from(&mut reader)?;
+        let mut uni = Vec::<GateUni<C>>::deserialize_from(&mut reader)?;
+        for gate in &mut uni {
+            gate.gate_type = usize::deserialize_from(&mut reader)?;
+        }
         Ok(CircuitLayer {
             input_var_num,
             output_var_num,
-- 
2.43.0


From 51b00681dc5b7502195c0cb70093197d37293fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:28 +0000
Subject: [PATCH 39/77] fix: a linear combination's length prefix is not
 trusted with the allocation

---
 compiler/expander_compiler/src/circuit/ir/expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/expander_compiler/src/circuit/ir/expr.rs b/compiler/expander_compiler/src/circuit/ir/expr.rs
index 6f279a1..fb11f8b 100644
--- a/compiler/expander_compiler/src/circuit/ir/expr.rs
+++ b/compiler/expander_compiler/src/circuit/ir/expr.rs
@@ -533,7 +533,8 @@ impl<C: Config> ExpSerde for LinComb<C> {
 
     fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
         let len = usize::deserialize_from(&mut reader)?;
-        let mut terms = Vec::with_capacity(len);
+        // the length is not trusted with the allocation
+        let mut terms = Vec::with_capacity(len.min(1 << 12));
         for _ in 0..len {
             let var = usize::deserialize_from(&mut reader)?;
             terms.push(LinCombTerm {
-- 
2.43.0


From d3e0bc66898db445ea6d4e90a6127682c4d1fa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:28 +0000
Subject: [PATCH 40/77] fix: layered circuit validation covers input layers,
 public inputs, outputs and overflow

---
 .../src/circuit/layered/mod.rs                | 37 ++++++++++++++++---
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/compiler/expander_compiler/src/circuit/layered/mod.rs b/compiler/expander_compiler/src/circuit/layered/mod.rs
index b473e7f..97a8c0e 100644
--- a/compiler/expander_compiler/src/circuit/layered/mod.rs
+++ b/compiler/expander_compiler/src/circuit/layered/mod.rs
@@ -395,13 +395,13 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 )));
             }
             for m in seg.gate_muls.iter() {
-                if m.inputs[0].layer() >= self.layer_ids.len() {
+                if m.inputs[0].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} mul gate ({:?}, {:?}, {}) input 0 layer out of range",
                         i, m.inputs[0], m.inputs[1], m.output
                     )));
                 }
-                if m.inputs[1].layer() >= self.layer_ids.len() {
+                if m.inputs[1].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} mul gate ({:?}, {:?}, {}) input 1 layer out of range",
                         i, m.inputs[0], m.inputs[1], m.output
@@ -427,7 +427,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 }
             }
             for a in seg.gate_adds.iter() {
-                if a.inputs[0].layer() >= self.layer_ids.len() {
+                if a.inputs[0].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} add gate ({:?}, {}) input layer out of range",
                         i, a.inputs[0], a.output
@@ -456,7 +456,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
             }
             for cu in seg.gate_customs.iter() {
                 for input in cu.inputs.iter() {
-                    if input.layer() >= self.layer_ids.len() {
+                    if input.layer() >= seg.num_inputs.len() {
                         return Err(Error::InternalError(format!(
                             "segment {} custom gate {} input layer out of range",
                             i, cu.output
@@ -476,6 +476,20 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                     )));
                 }
             }
+            for coef in seg
+                .gate_muls
+                .iter()
+                .map(|g| &g.coef)
+                .chain(seg.gate_adds.iter().map(|g| &g.coef))
+                .chain(seg.gate_consts.iter().map(|g| &g.coef))
+                .chain(seg.gate_customs.iter().map(|g| &g.coef))
+            {
+                if matches!(coef, Coef::PublicInput(id) if *id >= self.num_public_inputs) {
+                    return Err(Error::InternalError(format!(
+                        "segment {i} coefficient {coef} out of range"
+                    )));
+                }
+            }
             for (sub_id, allocs) in seg.child_segs.iter() {
                 if *sub_id >= i {
                     return Err(Error::InternalError(format!(
@@ -513,7 +527,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                                 "segment {i} subcircuit {sub_id} input offset {x} not aligned to {y}"
                             )));
                         }
-                        if x + y > z {
+                        if x.checked_add(y).map_or(true, |end| end > z) {
                             return Err(Error::InternalError(format!(
                                 "segment {i} subcircuit {sub_id} input offset {x} out of range"
                             )));
@@ -525,7 +539,10 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                             i, sub_id, a.output_offset, subc.num_outputs
                         )));
                     }
-                    if a.output_offset + subc.num_outputs > seg.num_outputs {
+                    if a.output_offset
+                        .checked_add(subc.num_outputs)
+                        .map_or(true, |end| end > seg.num_outputs)
+                    {
                         return Err(Error::InternalError(format!(
                             "segment {} subcircuit {} output offset {} out of range",
                             i, sub_id, a.output_offset
@@ -547,6 +564,14 @@ impl<C: Config, I: InputType> Circuit<C, I> {
         for l in self.layer_ids.iter() {
             layer_sizes.push(self.segments[*l].num_outputs);
         }
+        if self.expected_num_output_zeroes > self.num_actual_outputs
+            || self.num_actual_outputs > layer_sizes[self.layer_ids.len()]
+        {
+            return Err(Error::InternalError(format!(
+                "{} outputs, {} of them zero, do not fit the last layer",
+                self.num_actual_outputs, self.expected_num_output_zeroes
+            )));
+        }
         for (i, l) in self.layer_ids.iter().enumerate() {
             let cur = &self.segments[*l];
             if cur.num_inputs.len() > i + 1 {
-- 
2.43.0


From 569050c7999d304c94adf6e3ac6f41570dde4345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:28 +0000
Subject: [PATCH 41/77] fix: a circuit with a single input can be loaded and
 evaluated by the prover

---
 prover/circuit/src/layered/circuit.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/prover/circuit/src/layered/circuit.rs b/prover/circuit/src/layered/circuit.rs
index 8f7554a..d93bed1 100644
--- a/prover/circuit/src/layered/circuit.rs
+++ b/prover/circuit/src/layered/circuit.rs
@@ -1,3 +1,4 @@
+use std::cmp::max;
 use std::fs;
 use std::io::Cursor;
 
@@ -184,10 +185,11 @@ impl<C: FieldEngine> Circuit<C> {
         let cursor = Cursor::new(file_bytes);
         let mut witness = Witness::<C>::deserialize_from(cursor).unwrap();
 
-        let private_input_size = 1 << self.log_input_size();
+        let private_input_size = witness.num_private_inputs_per_witness;
         let public_input_size = witness.num_public_inputs_per_witness;
         let total_size = private_input_size + public_input_size;
-        assert_eq!(witness.num_private_inputs_per_witness, private_input_size);
+        // a single input is padded, since a layer has at least one variable
+        assert_eq!(max(private_input_size, 2), 1 << self.log_input_size());
         root_println!(
             mpi_config,
             "Witness loaded: {} private inputs, {} public inputs, x{} witnesses",
@@ -236,10 +238,10 @@ impl<C: FieldEngine> Circuit<C> {
 
     pub fn prover_process_witness(&mut self, witness: Witness<C>, mpi_config: &MPIConfig) {
         let rank = mpi_config.world_rank();
-        let private_input_size = 1 << self.log_input_size();
+        let private_input_size = witness.num_private_inputs_per_witness;
         let public_input_size = witness.num_public_inputs_per_witness;
-        let total_size =
-            witness.num_private_inputs_per_witness + witness.num_public_inputs_per_witness;
+        let total_size = private_input_size + public_input_size;
+        let padded_input_size = 1 << self.log_input_size();
         let input = &witness.values[rank * total_size * C::get_field_pack_size()
             ..(rank + 1) * total_size * C::get_field_pack_size()];
         let private_input = &mut self.layers[0].input_vals;
@@ -255,6 +257,7 @@ impl<C: FieldEngine> Circuit<C> {
             }
             private_input.push(C::SimdCircuitField::pack(&private_wit_i));
         }
+        private_input.resize(padded_input_size, C::SimdCircuitField::zero());
 
         for i in 0..public_input_size {
             let mut public_wit_i = vec![];
@@ -266,10 +269,9 @@ impl<C: FieldEngine> Circuit<C> {
     }
 
     pub fn verifier_process_witness(&mut self, witness: Witness<C>, mpi_config: &MPIConfig) {
-        let private_input_size = 1 << self.log_input_size();
+        let private_input_size = witness.num_private_inputs_per_witness;
         let public_input_size = witness.num_public_inputs_per_witness;
-        let total_size =
-            witness.num_private_inputs_per_witness + witness.num_public_inputs_per_witness;
+        let total_size = private_input_size + public_input_size;
 
         let public_input = &mut self.public_input;
         public_input.clear();
@@ -302,6 +304,13 @@ impl<C: FieldEngine> Circuit<C> {
     }
 
     pub fn evaluate(&mut self) {
+        // a single input is padded, since a layer has at least one variable
+        let input_size = 1 << self.log_input_size();
+        if self.layers[0].input_vals.len() == 1 {
+            self.layers[0]
+                .input_vals
+                .resize(input_size, C::SimdCircuitField::zero());
+        }
         for i in 0..self.layers.len() - 1 {
             let (layer_p_1, layer_p_2) = self.layers.split_at_mut(i + 1);
             layer_p_1
-- 
2.43.0


From 015681f3dd22dfc2043c7cd4c486ddb3a44c14a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:49 +0000
Subject: [PATCH 42/77] fix: raw commitments of the wrong size are rejected
 instead of panicking the verifier

---
 prover/poly_commit/src/raw.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/prover/poly_commit/src/raw.rs b/prover/poly_commit/src/raw.rs
index ece451f..dd853e3 100644
--- a/prover/poly_commit/src/raw.rs
+++ b/prover/poly_commit/src/raw.rs
@@ -7,7 +7,7 @@ use gkr_engine::{
 };
 use polynomials::{MultiLinearPoly, MultilinearExtension};
 use rand::RngCore;
-use serdes::{ExpSerde, SerdeResult};
+use serdes::{ExpSerde, SerdeError, SerdeResult};
 
 use crate::PolynomialCommitmentScheme;
 
@@ -37,7 +37,8 @@ impl<F: Field> ExpSerde for RawCommitment<F> {
 
         let len = U256::deserialize_from(&mut reader)?;
 
-        for _ in 0..len.as_usize() {
+        let len = usize::try_from(len).map_err(|_| SerdeError::DeserializeError)?;
+        for _ in 0..len {
             v.evals.push(F::deserialize_from(&mut reader)?);
         }
         Ok(v)
@@ -107,6 +108,9 @@ impl<F: ExtensionField> PolynomialCommitmentScheme<F> for RawMultiLinearPCS {
         _transcript: &mut impl Transcript,
     ) -> bool {
         assert!(x.len() == *params);
+        if commitment.evals.len() != 1 << x.len() {
+            return false;
+        }
         MultiLinearPoly::<F>::evaluate_with_buffer(
             &commitment.evals,
             x,
@@ -203,6 +207,9 @@ impl<C: FieldEngine> ExpanderPCS<C> for RawExpanderGKR<C> {
         _transcript: &mut impl Transcript,
         _opening: &Self::Opening,
     ) -> bool {
+        if commitment.evals.len() != 1 << (challenge.rz.len() + challenge.r_mpi.len()) {
+            return false;
+        }
         let v_target =
             C::single_core_eval_circuit_vals_at_expander_challenge(&commitment.evals, challenge);
         v == v_target
-- 
2.43.0


From 2eb93a8a7abf1c1e3c82f75f55e984552646ff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:49 +0000
Subject: [PATCH 43/77] fix: circuits whose output layer is wider than every
 input layer can be proved

---
 prover/sumcheck/src/scratch_pad.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prover/sumcheck/src/scratch_pad.rs b/prover/sumcheck/src/scratch_pad.rs
index bd3f4eb..b7418ee 100644
--- a/prover/sumcheck/src/scratch_pad.rs
+++ b/prover/sumcheck/src/scratch_pad.rs
@@ -39,7 +39,7 @@ impl<F: FieldEngine> ProverScratchPad<F> {
             v_evals: vec![F::Field::default(); max_input_size],
             hg_evals_5: vec![F::ChallengeField::default(); max_input_size],
             hg_evals_1: vec![F::ChallengeField::default(); max_input_size],
-            hg_evals: vec![F::Field::default(); max_input_size],
+            hg_evals: vec![F::Field::default(); max_io_size],
             simd_var_v_evals: vec![F::ChallengeField::default(); F::get_field_pack_size()],
             simd_var_hg_evals: vec![F::ChallengeField::default(); F::get_field_pack_size()],
             mpi_var_v_evals: vec![F::ChallengeField::default(); mpi_world_size],
-- 
2.43.0


From f32ddb5e100925f4225ef22f90751e52713d5fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:33 +0000
Subject: [PATCH 44/77] fix: a Hyrax commitment's length prefix is not trusted
 with the allocation

---
 prover/poly_commit/src/hyrax/hyrax_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prover/poly_commit/src/hyrax/hyrax_impl.rs b/prover/poly_commit/src/hyrax/hyrax_impl.rs
index f17fa4c..a86eb1f 100644
--- a/prover/poly_commit/src/hyrax/hyrax_impl.rs
+++ b/prover/poly_commit/src/hyrax/hyrax_impl.rs
@@ -86,7 +86,7 @@ where
         let num_elements = usize::deserialize_from(&mut reader)?;
         let mut uncompressed = <C as UncompressedEncoding>::Uncompressed::default();
 
-        let mut elements = Vec::with_capacity(num_elements);
+        let mut elements = Vec::new();
         for _ in 0..num_elements {
             reader.read_exact(uncompressed.as_mut())?;
             elements.push(
-- 
2.43.0


From 7228493cca41486505b2c0a20ac87f57193f42db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:49 +0000
Subject: [PATCH 45/77] fix: the KZG verifier returns the result of its pairing
 check

---
 prover/poly_commit/src/kzg/uni_kzg/hyper_kzg.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/prover/poly_commit/src/kzg/uni_kzg/hyper_kzg.rs b/prover/poly_commit/src/kzg/uni_kzg/hyper_kzg.rs
index a3f4534..7b78230 100644
--- a/prover/poly_commit/src/kzg/uni_kzg/hyper_kzg.rs
+++ b/prover/poly_commit/src/kzg/uni_kzg/hyper_kzg.rs
@@ -240,9 +240,7 @@ where
         tau,
         lagrange_eval,
         opening.quotient_delta_x_commitment,
-    );
-
-    true
+    )
 }
 
 pub fn multiple_points_batch_open_impl<E, PCS>(
-- 
2.43.0


From 0aacf32ccc441b7854ad707765c425ed2772365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:02 +0000
Subject: [PATCH 46/77] fix: Hyrax commitments and openings of the wrong size
 are rejected instead of panicking

---
 prover/poly_commit/src/hyrax/expander_api.rs | 3 +++
 prover/poly_commit/src/hyrax/hyrax_impl.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/prover/poly_commit/src/hyrax/expander_api.rs b/prover/poly_commit/src/hyrax/expander_api.rs
index da56bf1..e5e9a2f 100644
--- a/prover/poly_commit/src/hyrax/expander_api.rs
+++ b/prover/poly_commit/src/hyrax/expander_api.rs
@@ -140,6 +140,9 @@ where
         non_row_vars.extend_from_slice(&x.r_mpi);
 
         let eq_combination: Vec<C::Scalar> = EqPolynomial::build_eq_x_r(&non_row_vars);
+        if commitment.0.len() != eq_combination.len() || opening.0.len() != pedersen_len {
+            return false;
+        }
         let row_comm = msm::best_multiexp(&eq_combination, &commitment.0);
 
         if pedersen_commit(verifying_key, &opening.0) != row_comm.into() {
diff --git a/prover/poly_commit/src/hyrax/hyrax_impl.rs b/prover/poly_commit/src/hyrax/hyrax_impl.rs
index a86eb1f..0af4fc0 100644
--- a/prover/poly_commit/src/hyrax/hyrax_impl.rs
+++ b/prover/poly_commit/src/hyrax/hyrax_impl.rs
@@ -190,6 +190,9 @@ where
     let pedersen_vars = pedersen_len.ilog2() as usize;
 
     let eq_combination: Vec<C::Scalar> = EqPolynomial::build_eq_x_r(&eval_point[pedersen_vars..]);
+    if comm.0.len() != eq_combination.len() || proof.0.len() != pedersen_len {
+        return false;
+    }
     let row_comm = msm::best_multiexp(&eq_combination, &comm.0);
 
     let pedersen_commitment = pedersen_commit(params, &proof.0);
-- 
2.43.0


From 3c32aba7597bd6adf389dbf9af9d123d0c3182b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:47 +0000
Subject: [PATCH 47/77] fix: Orion verification lifts small evaluation points
 the way opening does

---
 prover/poly_commit/src/orion/expander_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prover/poly_commit/src/orion/expander_api.rs b/prover/poly_commit/src/orion/expander_api.rs
index 5a82bb4..9fffcf7 100644
--- a/prover/poly_commit/src/orion/expander_api.rs
+++ b/prover/poly_commit/src/orion/expander_api.rs
@@ -171,7 +171,7 @@ where
                                            * interactive arguments */
         opening: &Self::Opening,
     ) -> bool {
-        if eval_point.num_vars() < *params {
+        if eval_point.rz.len() < *params {
             let eval_point = lift_expander_challenge_to_n_vars(eval_point, *params);
             return <Self as ExpanderPCS<C>>::verify(
                 params,
-- 
2.43.0


From a40cdd2296620241769585ec45a3e8e97214c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 48/77] fix: membership proofs for single-leaf Merkle trees do
 not panic

---
 prover/tree/src/tree.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/prover/tree/src/tree.rs b/prover/tree/src/tree.rs
index d74e07d..8056163 100644
--- a/prover/tree/src/tree.rs
+++ b/prover/tree/src/tree.rs
@@ -192,13 +192,11 @@ impl Tree {
         let leaf_index_in_tree = convert_index_to_last_level(index, tree_height);
         let leaf = self.leaves[index];
 
-        // Path nodes
-        let sibling_index_in_tree = sibling_index(leaf_index_in_tree).unwrap();
+        // Path nodes: none for a single-leaf tree, whose leaf hash is the root
         let mut path_nodes = Vec::with_capacity(tree_height - 1);
-        path_nodes.push(self.nodes[sibling_index_in_tree]);
 
-        // Iterate from the bottom layer after the leaves to the top
-        let mut current_node = parent_index(leaf_index_in_tree).unwrap();
+        // Iterate from the leaves to the top
+        let mut current_node = leaf_index_in_tree;
         while current_node != 0 {
             let sibling_node = sibling_index(current_node).unwrap();
             path_nodes.push(self.nodes[sibling_node]);
-- 
2.43.0


From 0d10e42a222a49dfaceba04df37a084e340b7ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 49/77] fix: Merkle leaves hold canonical field elements, so
 honest Basefold proofs verify

---
 prover/tree/src/tree.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/prover/tree/src/tree.rs b/prover/tree/src/tree.rs
index 8056163..d8a4061 100644
--- a/prover/tree/src/tree.rs
+++ b/prover/tree/src/tree.rs
@@ -60,6 +60,17 @@ impl Tree {
         F: Field,
         PackF: SimdField<Scalar = F>,
     {
+        // Verifiers read leaves as serialized elements: store canonical representatives only.
+        let mut bytes = Vec::with_capacity(F::SIZE);
+        let field_elems: Vec<F> = field_elems
+            .iter()
+            .map(|e| {
+                bytes.clear();
+                e.serialize_into(&mut bytes).unwrap();
+                F::deserialize_from(bytes.as_slice()).unwrap()
+            })
+            .collect();
+
         let packed_elems: Vec<PackF> = field_elems
             .chunks(PackF::PACK_SIZE)
             .map(SimdField::pack)
-- 
2.43.0


From c4aa4f2d39868f118e7d86f38976fb3cd29a01a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:46 +0000
Subject: [PATCH 50/77] fix: GKR^2 folds the inputs once in the first sumcheck
 round

---
 prover/sumcheck/src/prover_helper/power_gate.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/prover/sumcheck/src/prover_helper/power_gate.rs b/prover/sumcheck/src/prover_helper/power_gate.rs
index 8e7266b..cab88d3 100644
--- a/prover/sumcheck/src/prover_helper/power_gate.rs
+++ b/prover/sumcheck/src/prover_helper/power_gate.rs
@@ -172,8 +172,7 @@ impl<const D: usize> SumcheckPowerGateHelper<D> {
             for i in 0..self.cur_eval_size {
                 bk_f[i] = r * (init_v[2 * i + 1] - init_v[2 * i]) + init_v[2 * i];
             }
-        }
-        {
+        } else {
             for i in 0..self.cur_eval_size {
                 bk_f[i] = bk_f[2 * i] + (bk_f[2 * i + 1] - bk_f[2 * i]).scale(&r);
             }
-- 
2.43.0


From 004549394626edbda2c0b954e36111e3b9377d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:12 +0000
Subject: [PATCH 51/77] fix: the parallel verifier parses GKR^2 proofs with the
 degree they have

---
 prover/gkr/src/verifier/structs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prover/gkr/src/verifier/structs.rs b/prover/gkr/src/verifier/structs.rs
index 8bc9436..904ffc2 100644
--- a/prover/gkr/src/verifier/structs.rs
+++ b/prover/gkr/src/verifier/structs.rs
@@ -104,6 +104,8 @@ pub fn parse_proof<F: FieldEngine>(
         vec![SumcheckVerificationUnit::<F>::default(); circuit.layers.len()];
     let n_simd_vars = <F::SimdCircuitField as SimdField>::PACK_SIZE.trailing_zeros() as usize;
     let n_mpi_vars = proving_time_mpi_size.trailing_zeros() as usize;
+    // all rounds of GKR^2 have its degree, which exceeds that of vanilla SIMD and MPI rounds
+    let simd_mpi_var_degree = xy_var_degree.max(SUMCHECK_GKR_SIMD_MPI_DEGREE);
     let mut ok = true;
 
     let mut challenge: ExpanderDualVarChallenge<F> =
@@ -150,7 +152,7 @@ pub fn parse_proof<F: FieldEngine>(
         parse_sumcheck_rounds::<F>(
             &mut proof_reader,
             n_simd_vars,
-            SUMCHECK_GKR_SIMD_MPI_DEGREE,
+            simd_mpi_var_degree,
             transcript,
             &mut challenge.r_simd,
             sumcheck_proof,
@@ -161,7 +163,7 @@ pub fn parse_proof<F: FieldEngine>(
         parse_sumcheck_rounds::<F>(
             &mut proof_reader,
             n_mpi_vars,
-            SUMCHECK_GKR_SIMD_MPI_DEGREE,
+            simd_mpi_var_degree,
             transcript,
             &mut challenge.r_mpi,
             sumcheck_proof,
-- 
2.43.0


From 0a260c2289d4a9c6673c4a1a72c0bcc9493160c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 52/77] fix: M31 reduces the all-ones word fully

---
 prover/arith/mersenne31/src/m31.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prover/arith/mersenne31/src/m31.rs b/prover/arith/mersenne31/src/m31.rs
index 6cb800c..15b8b16 100644
--- a/prover/arith/mersenne31/src/m31.rs
+++ b/prover/arith/mersenne31/src/m31.rs
@@ -13,8 +13,8 @@ pub const M31_MOD: u32 = 2147483647;
 
 pub(crate) fn mod_reduce_u32_safe(x: u32) -> u32 {
     let x = (x & M31_MOD) + (x >> 31);
-    if x == M31_MOD {
-        0
+    if x >= M31_MOD {
+        x - M31_MOD
     } else {
         x
     }
-- 
2.43.0


From b70e3f3b49032704d031ff360d8d849d7fce5da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 53/77] fix: malformed sumcheck proofs are rejected instead of
 panicking the verifier

---
 prover/poly_commit/src/batching.rs      | 7 +++----
 prover/sumcheck/src/sumcheck_generic.rs | 6 ++++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/prover/poly_commit/src/batching.rs b/prover/poly_commit/src/batching.rs
index c259aa8..e854b4c 100644
--- a/prover/poly_commit/src/batching.rs
+++ b/prover/poly_commit/src/batching.rs
@@ -128,10 +128,9 @@ where
     let k = padded_commitments.len();
     let ell = log2(k) as usize;
     let num_var = sumcheck_proof.point.len();
-    assert!(
-        num_var == padded_points[0].len(),
-        "Number of variables in sumcheck proof must match the number of variables in points"
-    );
+    if num_var != padded_points[0].len() {
+        return (false, C::Scalar::zero(), Vec::new());
+    }
 
     // sum check point (a2)
     let a2 = sumcheck_proof.export_point_to_expander();
diff --git a/prover/sumcheck/src/sumcheck_generic.rs b/prover/sumcheck/src/sumcheck_generic.rs
index e2f8e43..b0d6704 100644
--- a/prover/sumcheck/src/sumcheck_generic.rs
+++ b/prover/sumcheck/src/sumcheck_generic.rs
@@ -127,9 +127,11 @@ impl<F: Field> SumCheck<F> {
         num_vars: usize,
         transcript: &mut impl Transcript,
     ) -> (bool, SumCheckSubClaim<F>) {
+        if proof.proofs.len() != num_vars || proof.proofs.iter().any(|m| m.evaluations.len() != 3) {
+            return (false, SumCheckSubClaim::default());
+        }
         let mut verifier_state = IOPVerifierState::verifier_init(num_vars);
-        for i in 0..num_vars {
-            let prover_msg = proof.proofs.get(i).expect("proof is incomplete");
+        for prover_msg in &proof.proofs {
             transcript.append_serializable_data(prover_msg);
             IOPVerifierState::verify_round_and_update_state(
                 &mut verifier_state,
-- 
2.43.0


From 0245e46fdfb78db13f1e4672fb72b16ad1af3da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:55 +0000
Subject: [PATCH 54/77] fix: batch openings are made at the point the
 transcript yields

---
 prover/poly_commit/src/batching.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prover/poly_commit/src/batching.rs b/prover/poly_commit/src/batching.rs
index e854b4c..42e42eb 100644
--- a/prover/poly_commit/src/batching.rs
+++ b/prover/poly_commit/src/batching.rs
@@ -175,6 +175,9 @@ where
 
     let tilde_g_eval = subclaim.expected_evaluation;
 
+    // the point comes with the proof; it has to be the one the transcript yields
+    let verified = verified && subclaim.point == sumcheck_proof.point;
+
     (verified, tilde_g_eval, g_prime_commit_affine)
 }
 
-- 
2.43.0


From 55de277e51565e6b744131a2fcedb31997160ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:21 +0000
Subject: [PATCH 55/77] fix: batch openings bind the claimed values to the
 transcript

---
 prover/poly_commit/src/batching.rs            | 12 ++++++++++
 prover/poly_commit/src/hyrax/hyrax_impl.rs    | 24 ++++++++++++-------
 prover/poly_commit/src/kzg/uni_kzg/batch.rs   | 15 +++++++-----
 .../poly_commit/src/kzg/uni_kzg/hyper_kzg.rs  |  4 +++-
 4 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/prover/poly_commit/src/batching.rs b/prover/poly_commit/src/batching.rs
index 42e42eb..19e812f 100644
--- a/prover/poly_commit/src/batching.rs
+++ b/prover/poly_commit/src/batching.rs
@@ -13,6 +13,18 @@ use serdes::ExpSerde;
 use sumcheck::{IOPProof, SumCheck};
 use utils::timer::Timer;
 
+/// Bind the claims of a batch opening to the transcript, before the challenges that merge them
+/// are drawn.
+pub(crate) fn append_claims<F: Field>(
+    points: &[impl AsRef<[F]>],
+    values: &[F],
+    transcript: &mut impl Transcript,
+) {
+    for x in points.iter().flat_map(|p| p.as_ref()).chain(values) {
+        transcript.append_field_element(x);
+    }
+}
+
 /// Merge a list of polynomials and its corresponding points into a single polynomial
 /// Returns
 /// - the new point for evaluation
diff --git a/prover/poly_commit/src/hyrax/hyrax_impl.rs b/prover/poly_commit/src/hyrax/hyrax_impl.rs
index 0af4fc0..bf33ade 100644
--- a/prover/poly_commit/src/hyrax/hyrax_impl.rs
+++ b/prover/poly_commit/src/hyrax/hyrax_impl.rs
@@ -9,7 +9,7 @@ use rayon::iter::{IndexedParallelIterator, IntoParallelRefIterator, ParallelIter
 use serdes::ExpSerde;
 use utils::timer::Timer;
 
-use crate::batching::{prover_merge_points, verifier_merge_points};
+use crate::batching::{append_claims, prover_merge_points, verifier_merge_points};
 use crate::traits::BatchOpening;
 use crate::{
     hyrax::{
@@ -232,23 +232,28 @@ where
     let pedersen_len = params.msm_len();
     let pedersen_vars = pedersen_len.ilog2() as usize;
 
-    let challenge = transcript.generate_field_element::<C::Scalar>();
-    let challenge_power = powers_series(&challenge, len);
-
-    // the opening is the random linearly combine all the polynomials
-    let mut res = vec![C::Scalar::default(); 1 << pedersen_vars];
     let mut evals = vec![];
+    let mut rows = vec![];
     let mut buffer = vec![C::Scalar::default(); 1 << pedersen_vars];
 
-    for (mle_poly, challenge) in mle_poly_list.iter().zip(challenge_power.iter()) {
+    for mle_poly in mle_poly_list {
         let mut local_basis = mle_poly.hypercube_basis();
         let mut local_mle = MutRefMultiLinearPoly::from_ref(&mut local_basis);
         local_mle.fix_variables(&eval_point[pedersen_vars..]);
 
         evals.push(local_mle.evaluate_with_buffer(&eval_point[..pedersen_vars], &mut buffer));
+        rows.push(local_basis);
+    }
+    append_claims(&[eval_point], &evals, transcript);
 
+    let challenge = transcript.generate_field_element::<C::Scalar>();
+    let challenge_power = powers_series(&challenge, len);
+
+    // the opening is the random linearly combine all the polynomials
+    let mut res = vec![C::Scalar::default(); 1 << pedersen_vars];
+    for (row, challenge) in rows.iter().zip(challenge_power.iter()) {
         res.iter_mut()
-            .zip(local_mle.coeffs.iter())
+            .zip(row.iter())
             .for_each(|(r, c)| {
                 *r += *challenge * *c;
             });
@@ -277,6 +282,7 @@ where
     let pedersen_len = params.msm_len();
     let pedersen_vars = pedersen_len.ilog2() as usize;
 
+    append_claims(&[eval_point], eval_list, transcript);
     let challenge = transcript.generate_field_element::<C::Scalar>();
     let challenge_power = powers_series(&challenge, len);
 
@@ -359,6 +365,7 @@ where
         .map(|(poly, point)| poly.evaluate(point))
         .collect();
     eval_timer.stop();
+    append_claims(points, &evals, transcript);
 
     let merger_timer = Timer::new("merging points", true);
     let (new_point, g_prime, proof) = prover_merge_points::<C>(polys, points, transcript);
@@ -407,6 +414,7 @@ where
         .iter()
         .map(|c| c.as_ref().0.clone())
         .collect::<Vec<_>>();
+    append_claims(points, values, transcript);
 
     let (sumcheck_verified, tilde_g_eval, g_prime_commit) = verifier_merge_points(
         &commitments,
diff --git a/prover/poly_commit/src/kzg/uni_kzg/batch.rs b/prover/poly_commit/src/kzg/uni_kzg/batch.rs
index 709fb34..2c8c530 100644
--- a/prover/poly_commit/src/kzg/uni_kzg/batch.rs
+++ b/prover/poly_commit/src/kzg/uni_kzg/batch.rs
@@ -5,6 +5,7 @@ use halo2curves::{group::Curve, msm::multiexp_serial, pairing::MultiMillerLoop,
 use polynomials::MultiLinearPoly;
 use serdes::ExpSerde;
 
+use crate::batching::append_claims;
 use crate::{
     coeff_form_uni_hyperkzg_open, coeff_form_uni_hyperkzg_verify, powers_series, CoefFormUniKZGSRS,
     HyperUniKZGOpening, UniKZGVerifierParams,
@@ -22,10 +23,16 @@ where
     E::G2Affine: CurveAffine<ScalarExt = E::Fr, CurveExt = E::G2> + ExpSerde,
     E::Fr: ExtensionField,
 {
+    let mut buf = vec![E::Fr::default(); polys[0].coeffs.len()];
+    let mut evals = polys
+        .iter()
+        .map(|p| MultiLinearPoly::evaluate_with_buffer(p.coeffs.as_ref(), x, &mut buf))
+        .collect::<Vec<_>>();
+    append_claims(&[x], &evals, transcript);
+
     let rlc_randomness = transcript.generate_field_element::<E::Fr>();
     let num_poly = polys.len();
     let rlcs = powers_series(&rlc_randomness, num_poly);
-    let mut buf = vec![E::Fr::default(); polys[0].coeffs.len()];
 
     let merged_poly = polys
         .iter()
@@ -33,11 +40,6 @@ where
         .skip(1)
         .fold(polys[0].clone(), |acc, (poly, r)| acc + &(poly * r));
 
-    let mut evals = polys
-        .iter()
-        .map(|p| MultiLinearPoly::evaluate_with_buffer(p.coeffs.as_ref(), x, &mut buf))
-        .collect::<Vec<_>>();
-
     let (_batch_eval, open) =
         coeff_form_uni_hyperkzg_open(proving_key, &merged_poly.coeffs, x, transcript);
 
@@ -68,6 +70,7 @@ where
     E::G2Affine: ExpSerde,
     E::Fr: ExtensionField + ExpSerde,
 {
+    append_claims(&[x], evals, transcript);
     let rlc_randomness = transcript.generate_field_element::<E::Fr>();
     let num_poly = commitments.len();
     let rlcs = powers_series(&rlc_randomness, num_poly);
diff --git a/prover/poly_commit/src/kzg/uni_kzg/hyper_kzg.rs b/prover/poly_commit/src/kzg/uni_kzg/hyper_kzg.rs
index 7b78230..a6c20b0 100644
--- a/prover/poly_commit/src/kzg/uni_kzg/hyper_kzg.rs
+++ b/prover/poly_commit/src/kzg/uni_kzg/hyper_kzg.rs
@@ -15,7 +15,7 @@ use rayon::iter::{IndexedParallelIterator, IntoParallelRefIterator, ParallelIter
 use serdes::ExpSerde;
 
 use crate::{
-    batching::{prover_merge_points, verifier_merge_points},
+    batching::{append_claims, prover_merge_points, verifier_merge_points},
     traits::BatchOpening,
     *,
 };
@@ -266,6 +266,7 @@ where
         .map(|(poly, point)| poly.evaluate(point))
         .collect();
     eval_timer.stop();
+    append_claims(&points, &evals, transcript);
 
     let merger_timer = Timer::new("merging points", true);
     let (new_point, g_prime, proof) =
@@ -308,6 +309,7 @@ where
         .iter()
         .map(|c| vec![c.as_ref().0])
         .collect::<Vec<_>>();
+    append_claims(points, values, transcript);
 
     let (verified, tilde_g_eval, g_prime_commit) = verifier_merge_points::<E::G1Affine>(
         &commitments,
-- 
2.43.0


From 1d11d36c0ce54df1151a9f10ff8349a141dee358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:12 +0000
Subject: [PATCH 56/77] fix: the LogUp range proof bounds a value from below as
 well as from above

A width that is not a multiple of the chunk width was proved by shifting
the value and decomposing only the shifted value, which also accepts
negative values. Decompose the value itself, and bound its top chunk.
---
 compiler/circuit-std-rs/src/logup.rs | 41 +++++++++++-----------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/compiler/circuit-std-rs/src/logup.rs b/compiler/circuit-std-rs/src/logup.rs
index 66524ef..7ac564c 100644
--- a/compiler/circuit-std-rs/src/logup.rs
+++ b/compiler/circuit-std-rs/src/logup.rs
@@ -368,33 +368,15 @@ impl LogUpRangeProofTable {
             self.rangeproof_onechunk(builder, a, n);
             return;
         }
-        //add a shift value
-        let mut n = n;
-        let mut new_a = a;
+        //round n up to whole chunks
         let rem = n % self.rangeproof_bits;
-        if rem != 0 {
-            let shift = self.rangeproof_bits - rem;
-            let constant = (1 << shift) - 1;
-
-            let mut mul_factor: u128 = 1;
-            mul_factor <<= n;
-            let mul_factor_u256 = U256::new(mul_factor);
-            let mul_factor_var = CircuitField::<C>::from_u256(mul_factor_u256);
-            let mul_factor = builder.constant(mul_factor_var);
-            let a_shift = builder.mul(constant, mul_factor);
-            new_a = builder.add(a, a_shift);
-            n += shift;
-        }
+        let n_chunks = n.div_ceil(self.rangeproof_bits);
         let hint_input = vec![
-            builder.constant(n as u32),
+            builder.constant((n_chunks * self.rangeproof_bits) as u32),
             builder.constant(self.rangeproof_bits as u32),
-            new_a,
+            a,
         ];
-        let witnesses = builder.new_hint(
-            "myhint.rangeproofhint",
-            &hint_input,
-            n / self.rangeproof_bits,
-        );
+        let witnesses = builder.new_hint("myhint.rangeproofhint", &hint_input, n_chunks);
         let mut sum = witnesses[0];
         for (i, witness) in witnesses.iter().enumerate().skip(1) {
             let constant = 1u128 << (self.rangeproof_bits * i);
@@ -404,10 +386,17 @@ impl LogUpRangeProofTable {
             let mul = builder.mul(witness, constant);
             sum = builder.add(sum, mul);
         }
-        builder.assert_is_equal(sum, new_a);
-        for witness in witnesses.iter().take(n / self.rangeproof_bits) {
+        builder.assert_is_equal(sum, a);
+        for witness in &witnesses {
             self.query_range(*witness);
         }
+        //the top chunk only has rem bits left
+        if rem != 0 {
+            let shift = (1u64 << self.rangeproof_bits) - (1u64 << rem);
+            let shift = CircuitField::<C>::from_u256(U256::from(shift));
+            let top = builder.add(witnesses[n_chunks - 1], shift);
+            self.query_range(top);
+        }
     }
 
     pub fn rangeproof_onechunk<C: Config, B: RootAPI<C>>(
@@ -433,6 +422,8 @@ impl LogUpRangeProofTable {
             let mul_factor = builder.constant(mul_factor_var);
             let a_shift = builder.mul(constant, mul_factor);
             new_a = builder.add(a, a_shift);
+            //the shifted query bounds a from above only; a itself must be in the table too
+            self.query_range(a);
         }
         self.query_range(new_a);
     }
-- 
2.43.0


From 0819e8e36455d141ab9931006aa36cb5e5abdc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:12 +0000
Subject: [PATCH 57/77] fix: lookup multiplicities are counted by the whole key

Keys were truncated to 32 bits, so over Goldilocks the table keys -1 and 0
were both credited with the other's queries and no proof could be made.
---
 compiler/circuit-std-rs/src/logup.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/compiler/circuit-std-rs/src/logup.rs b/compiler/circuit-std-rs/src/logup.rs
index 7ac564c..a0bc5ea 100644
--- a/compiler/circuit-std-rs/src/logup.rs
+++ b/compiler/circuit-std-rs/src/logup.rs
@@ -485,10 +485,9 @@ pub fn query_count_by_key_hint<F: Field>(inputs: &[F], outputs: &mut [F]) -> Res
     let table = &inputs[1..=table_size];
     let query_keys = &inputs[(table_size + 1)..];
 
-    let mut table_map: HashMap<u32, usize> = HashMap::new();
+    let mut table_map: HashMap<U256, usize> = HashMap::new();
     for key in query_keys {
-        let key_value = key.to_u256().as_u32();
-        *table_map.entry(key_value).or_insert(0) += 1;
+        *table_map.entry(key.to_u256()).or_insert(0) += 1;
     }
 
     for (i, value) in table.iter().enumerate() {
@@ -497,8 +496,7 @@ pub fn query_count_by_key_hint<F: Field>(inputs: &[F], outputs: &mut [F]) -> Res
                 "table entry index exceeds output length".into(),
             ));
         }
-        let key_value = value.to_u256().as_u32();
-        let count = table_map.get(&key_value).copied().unwrap_or(0);
+        let count = table_map.get(&value.to_u256()).copied().unwrap_or(0);
         outputs_u32[i] = count as u32;
     }
     for i in 0..outputs.len() {
-- 
2.43.0


From 37739c446e349f9a2f9cfc398b5cde6d0eb9924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:12 +0000
Subject: [PATCH 58/77] fix: the quotient and remainder of the two-table
 exponential are unique

The remainder was only bounded by a power of two above the scale and the
quotient not at all, so a prover could choose the exponential's value.
---
 .../gadgets/function_lookup.rs                | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/rust/jstprove_circuits/src/circuit_functions/gadgets/function_lookup.rs b/rust/jstprove_circuits/src/circuit_functions/gadgets/function_lookup.rs
index 20d80f1..ffc22bc 100644
--- a/rust/jstprove_circuits/src/circuit_functions/gadgets/function_lookup.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/gadgets/function_lookup.rs
@@ -7,6 +7,7 @@ use crate::circuit_functions::{
 };
 
 pub const MAX_FUNCTION_LOOKUP_BITS: usize = 24;
+const MAX_EXP_QUOTIENT_BITS: usize = 96;
 
 #[must_use]
 pub fn function_lookup_bits(scale_exponent: u32) -> usize {
@@ -88,14 +89,25 @@ impl FunctionLookupTable {
     }
 }
 
+/// Width of the exp quotient: wide enough for any product of two table values
+/// the field can hold, and narrow enough that `y * scale` stays below the modulus.
+fn quotient_bits<C: Config>(scale_bits: usize) -> usize {
+    let modulus_bits = 256 - CircuitField::<C>::MODULUS.leading_zeros() as usize;
+    modulus_bits
+        .saturating_sub(1 + scale_bits)
+        .clamp(1, MAX_EXP_QUOTIENT_BITS)
+}
+
 pub struct DecomposedExpLookup {
     high_table: FunctionLookupTable,
     low_table: FunctionLookupTable,
     chunk_bits: usize,
     scale_bits: usize,
+    quotient_bits: usize,
     half_var: Variable,
     chunk_var: Variable,
     scale_var: Variable,
+    scale_minus_one_var: Variable,
     high_offset_var: Variable,
 }
 
@@ -130,16 +142,22 @@ impl DecomposedExpLookup {
             1u64 << (high_bits - 1),
         )));
 
+        let scale_minus_one_var =
+            api.constant(CircuitField::<C>::from_u256(U256::from(scale.saturating_sub(1))));
+
         let scale_bits = 64 - scale.leading_zeros() as usize;
+        let quotient_bits = quotient_bits::<C>(scale_bits);
 
         Self {
             high_table,
             low_table,
             chunk_bits,
             scale_bits,
+            quotient_bits,
             half_var,
             chunk_var,
             scale_var,
+            scale_minus_one_var,
             high_offset_var,
         }
     }
@@ -182,7 +200,13 @@ impl DecomposedExpLookup {
         let y_recon = api.mul(y, self.scale_var);
         let y_recon = api.add(y_recon, remainder);
         api.assert_is_equal(y_recon, product);
+
+        // 0 <= remainder < scale, and y * scale cannot wrap around the modulus:
+        // together they leave the floored quotient as the only solution.
+        let headroom = api.sub(self.scale_minus_one_var, remainder);
         logup_ctx.range_check::<C, B>(api, remainder, self.scale_bits)?;
+        logup_ctx.range_check::<C, B>(api, headroom, self.scale_bits)?;
+        logup_ctx.range_check::<C, B>(api, y, self.quotient_bits)?;
 
         Ok(y)
     }
-- 
2.43.0


From 63dc7efb7c781efda7009fbd2fd574812a64d905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 59/77] fix: scale the float constants of elementwise, Clip and
 Pad layers

---
 rust/jstprove_onnx/src/ops.rs       | 26 ++++++++++++++++++++++++++
 rust/jstprove_onnx/src/quantizer.rs |  6 +++++-
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/ops.rs b/rust/jstprove_onnx/src/ops.rs
index 16cc47e..6b8bf22 100644
--- a/rust/jstprove_onnx/src/ops.rs
+++ b/rust/jstprove_onnx/src/ops.rs
@@ -46,6 +46,32 @@ pub fn get_scale_plan(op: OpType) -> HashMap<usize, usize> {
             m.insert(2, 2);
             m
         }
+        // A constant operand of an elementwise op meets activations at α¹.
+        OpType::Add
+        | OpType::Sub
+        | OpType::Mul
+        | OpType::Max
+        | OpType::Min
+        | OpType::Equal
+        | OpType::Greater
+        | OpType::Less => {
+            let mut m = HashMap::new();
+            m.insert(0, 1);
+            m.insert(1, 1);
+            m
+        }
+        OpType::Pad => {
+            let mut m = HashMap::new();
+            m.insert(2, 1); // constant_value
+            m
+        }
+        OpType::Clip => {
+            let mut m = HashMap::new();
+            m.insert(0, 1);
+            m.insert(1, 1); // min
+            m.insert(2, 1); // max
+            m
+        }
         _ => HashMap::new(),
     }
 }
diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 7291b36..0721df0 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -152,7 +152,11 @@ pub fn quantize_model(mut graph: LayerGraph, config: &ScaleConfig) -> Result<Qua
 }
 
 fn quantize_layer_weights(layer: &mut LayerNode, alpha: i64) -> Result<()> {
-    let scale_plan = ops::get_scale_plan(layer.op_type);
+    let mut scale_plan = ops::get_scale_plan(layer.op_type);
+    if matches!(layer.op_type, OpType::Max | OpType::Min) {
+        // Variadic: every operand is an activation-scale value.
+        scale_plan.extend((0..layer.inputs.len()).map(|pos| (pos, 1)));
+    }
 
     for (&input_pos, &scale_factor) in &scale_plan {
         if let Some(input_name) = layer.inputs.get(input_pos) {
-- 
2.43.0


From ac07d83a2a942e6d70c3ff4eed43ebf3159c015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 60/77] fix: Slice shape with a huge step no longer overflows

---
 rust/jstprove_onnx/src/quantizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 0721df0..3f03d31 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1160,7 +1160,7 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                         let s_norm = if s < 0 { s + dim } else { s };
                         let e_norm = if e < 0 { e + dim } else { e };
                         let len = (e_norm - s_norm).max(0);
-                        out[ax] = ((len + step - 1) / step).max(0) as usize;
+                        out[ax] = (len as usize).div_ceil(step as usize);
                     }
                     out
                 } else {
-- 
2.43.0


From 684368d67b8d2b5c49cee1d5c56de0947c47e511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 61/77] fix: bit widths contain the bound itself when it is a
 power of two

---
 rust/jstprove_onnx/src/quantizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 3f03d31..caf82c8 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1965,5 +1965,6 @@ fn compute_n_bits(alpha: i64, bound: f64) -> usize {
     if val <= 1.0 {
         return 2;
     }
-    (val.log2().ceil() as usize) + 1
+    // The signed range [-2^(n-1), 2^(n-1)) must contain `val` itself.
+    (val.log2().floor() as usize) + 2
 }
-- 
2.43.0


From a0bec547bc339f1bd78141eebfce1b0bafb2e12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 62/77] fix: Greater and Less compare signed values

---
 .../src/circuit_functions/layers/greater.rs              | 9 ++++++++-
 .../src/circuit_functions/layers/less.rs                 | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/greater.rs b/rust/jstprove_circuits/src/circuit_functions/layers/greater.rs
index 8522788..297d4bf 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/greater.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/greater.rs
@@ -93,10 +93,17 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GreaterLayer {
                     msg: "B tensor is not contiguous after broadcast".to_string(),
                 })?;
 
+                // `gt` compares canonical representatives; moving zero to the middle
+                // of the field makes that the order of signed values.
+                let middle = CircuitField::<C>::from_u256(CircuitField::<C>::MODULUS / 2);
                 let out_flat: Vec<Variable> = a_flat
                     .iter()
                     .zip(b_flat.iter())
-                    .map(|(&a_val, &b_val)| api.gt(a_val, b_val))
+                    .map(|(&a_val, &b_val)| {
+                        let a_val = api.add(a_val, middle);
+                        let b_val = api.add(b_val, middle);
+                        api.gt(a_val, b_val)
+                    })
                     .collect();
 
                 let out_array =
diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/less.rs b/rust/jstprove_circuits/src/circuit_functions/layers/less.rs
index 756c13b..595fa4d 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/less.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/less.rs
@@ -93,10 +93,17 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for LessLayer {
                     msg: "B tensor is not contiguous after broadcast".to_string(),
                 })?;
 
+                // `gt` compares canonical representatives; moving zero to the middle
+                // of the field makes that the order of signed values.
+                let middle = CircuitField::<C>::from_u256(CircuitField::<C>::MODULUS / 2);
                 let out_flat: Vec<Variable> = a_flat
                     .iter()
                     .zip(b_flat.iter())
-                    .map(|(&a_val, &b_val)| api.gt(b_val, a_val))
+                    .map(|(&a_val, &b_val)| {
+                        let a_val = api.add(a_val, middle);
+                        let b_val = api.add(b_val, middle);
+                        api.gt(b_val, a_val)
+                    })
                     .collect();
 
                 let out_array =
-- 
2.43.0


From ede2955662d1e3d415572e955068f9e04264fb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 63/77] fix: Gemm broadcasts its bias as ONNX does

---
 .../jstprove_circuits/src/circuit_functions/layers/gemm.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/gemm.rs b/rust/jstprove_circuits/src/circuit_functions/layers/gemm.rs
index 53f7d40..4b8ddc3 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/gemm.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/gemm.rs
@@ -214,10 +214,11 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GemmLayer {
         )?;
 
         // ONNX Gemm broadcasts bias C to match the core product shape.
-        // Bias may be scalar, [N], or [1, N]; core_product is [M, N].
+        // Bias may be scalar, [N], [1, N], [M, 1] or [M, N]; core_product is [M, N].
         let target = core_product.shape();
-        let bias_broadcast = if bias_array.shape() == target {
-            bias_array
+        let numpy_broadcast = bias_array.broadcast(target).map(|b| b.to_owned());
+        let bias_broadcast = if let Some(bias) = numpy_broadcast {
+            bias
         } else if core_product.ndim() == 2 {
             let rows = target[0];
             let cols = target[1];
-- 
2.43.0


From ab5c88d89c75325715437ff96eb356bdd6a0c2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 64/77] fix: Gather with a scalar index and a negative axis
 uses the right axis

---
 .../src/circuit_functions/layers/gather.rs                 | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/gather.rs b/rust/jstprove_circuits/src/circuit_functions/layers/gather.rs
index 28df60b..e130872 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/gather.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/gather.rs
@@ -256,7 +256,12 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GatherLayer {
             }
             .into());
         }
-        let data_rank = output_shape.len() + 1 - indices_rank;
+        // A scalar index may have been loaded as one element, so the recorded
+        // rank of the data, when there is one, decides.
+        let data_rank = layer_context
+            .shapes_map
+            .get(layer.inputs[0].as_str())
+            .map_or(output_shape.len() + 1 - indices_rank, Vec::len);
 
         let axis = if raw_axis < 0 {
             let a = data_rank as i64 + raw_axis;
-- 
2.43.0


From ce73b55ebbc9e9ddace46306aa3378f99445839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 65/77] fix: refuse the Indices output of MaxPool instead of
 returning values

---
 .../src/circuit_functions/layers/maxpool.rs                | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/maxpool.rs b/rust/jstprove_circuits/src/circuit_functions/layers/maxpool.rs
index 8eecd14..b631e80 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/maxpool.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/maxpool.rs
@@ -99,6 +99,13 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for MaxPoolLayer {
         _index: usize,
         layer_context: &crate::circuit_functions::utils::build_layers::BuildLayerContext,
     ) -> Result<Box<dyn LayerOp<C, Builder>>, CircuitError> {
+        if layer.outputs.iter().filter(|o| !o.is_empty()).count() > 1 {
+            return Err(LayerError::UnsupportedConfig {
+                layer: LayerKind::MaxPool,
+                msg: "the optional Indices output is not supported".to_string(),
+            }
+            .into());
+        }
         let (params, expected_shape) = extract_params_and_expected_shape(layer_context, layer)?;
 
         // Get kernel_shape first, because its length defines spatial dims
-- 
2.43.0


From cb1ee948588ff500b27df548ea2aa5696fa5fab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 66/77] fix: Max and Min take every operand into account

---
 .../layers/binary_compare.rs                  | 117 ++++++++++--------
 1 file changed, 66 insertions(+), 51 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/binary_compare.rs b/rust/jstprove_circuits/src/circuit_functions/layers/binary_compare.rs
index a8ae7cf..24f6656 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/binary_compare.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/binary_compare.rs
@@ -20,8 +20,7 @@ pub struct BinaryCompareLayer {
     kind: LayerKind,
     inputs: Vec<String>,
     outputs: Vec<String>,
-    initializer_a: Option<ArrayD<i64>>,
-    initializer_b: Option<ArrayD<i64>>,
+    initializers: Vec<Option<ArrayD<i64>>>,
     shift_exponent: usize,
 }
 
@@ -33,27 +32,76 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for BinaryCompareLayer
         input: &HashMap<String, ArrayD<Variable>>,
     ) -> Result<(Vec<String>, ArrayD<Variable>), CircuitError> {
         let a_name = get_input_name(&self.inputs, 0, self.kind.clone(), INPUT)?;
-        let b_name = get_input_name(&self.inputs, 1, self.kind.clone(), INPUT)?;
-
-        let a_input = load_array_constants_or_get_inputs(
+        let mut acc = load_array_constants_or_get_inputs(
             api,
             input,
             a_name,
-            &self.initializer_a,
+            &self.initializers[0],
             self.kind.clone(),
         )?;
 
-        let b_input = load_array_constants_or_get_inputs(
-            api,
-            input,
-            b_name,
-            &self.initializer_b,
-            self.kind.clone(),
-        )?;
+        let shift_ctx = ShiftRangeContext::new(api, self.kind.clone(), self.shift_exponent)?;
 
-        let (a_bc, b_bc) = broadcast_two_arrays(&a_input, &b_input)?;
+        // Max and Min are variadic: fold the operands from left to right.
+        for (name, initializer) in self.inputs.iter().zip(&self.initializers).skip(1) {
+            let operand = load_array_constants_or_get_inputs(
+                api,
+                input,
+                name,
+                initializer,
+                self.kind.clone(),
+            )?;
+            acc = self.combine(api, logup_ctx, &shift_ctx, &acc, &operand)?;
+        }
 
-        let shift_ctx = ShiftRangeContext::new(api, self.kind.clone(), self.shift_exponent)?;
+        Ok((self.outputs.clone(), acc))
+    }
+
+    fn build(
+        layer: &crate::circuit_functions::utils::onnx_types::ONNXLayer,
+        _circuit_params: &crate::circuit_functions::utils::onnx_model::CircuitParams,
+        _optimization_pattern: crate::circuit_functions::utils::graph_pattern_matching::PatternRegistry,
+        _is_rescale: bool,
+        _index: usize,
+        layer_context: &crate::circuit_functions::utils::build_layers::BuildLayerContext,
+    ) -> Result<Box<dyn LayerOp<C, Builder>>, CircuitError> {
+        let kind = LayerKind::try_from(layer.op_type.as_str())?;
+
+        get_input_name(&layer.inputs, 0, kind.clone(), INPUT)?;
+        let initializers = layer
+            .inputs
+            .iter()
+            .map(|name| get_optional_w_or_b(layer_context, name))
+            .collect::<Result<Vec<_>, _>>()?;
+
+        let shift_exponent = layer_context
+            .n_bits_for(&layer.name)
+            .checked_sub(1)
+            .ok_or_else(|| LayerError::Other {
+                layer: kind.clone(),
+                msg: "n_bits too small to derive shift_exponent".to_string(),
+            })?;
+
+        Ok(Box::new(Self {
+            kind,
+            inputs: layer.inputs.clone(),
+            outputs: layer.outputs.clone(),
+            initializers,
+            shift_exponent,
+        }))
+    }
+}
+
+impl BinaryCompareLayer {
+    fn combine<C: Config, Builder: RootAPI<C>>(
+        &self,
+        api: &mut Builder,
+        logup_ctx: &mut LogupRangeCheckContext,
+        shift_ctx: &ShiftRangeContext,
+        a: &ArrayD<Variable>,
+        b: &ArrayD<Variable>,
+    ) -> Result<ArrayD<Variable>, CircuitError> {
+        let (a_bc, b_bc) = broadcast_two_arrays(a, b)?;
 
         let shape = a_bc.shape().to_vec();
         if a_bc.len() != b_bc.len() {
@@ -72,8 +120,8 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for BinaryCompareLayer
 
         for (a_val, b_val) in a_bc.iter().zip(b_bc.iter()) {
             let result_var = match self.kind {
-                LayerKind::Max => constrained_max_2(api, &shift_ctx, logup_ctx, *a_val, *b_val)?,
-                LayerKind::Min => constrained_min_2(api, &shift_ctx, logup_ctx, *a_val, *b_val)?,
+                LayerKind::Max => constrained_max_2(api, shift_ctx, logup_ctx, *a_val, *b_val)?,
+                LayerKind::Min => constrained_min_2(api, shift_ctx, logup_ctx, *a_val, *b_val)?,
                 ref kind => {
                     return Err(LayerError::UnsupportedConfig {
                         layer: kind.clone(),
@@ -92,39 +140,6 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for BinaryCompareLayer
             }
         })?;
 
-        Ok((self.outputs.clone(), result))
-    }
-
-    fn build(
-        layer: &crate::circuit_functions::utils::onnx_types::ONNXLayer,
-        _circuit_params: &crate::circuit_functions::utils::onnx_model::CircuitParams,
-        _optimization_pattern: crate::circuit_functions::utils::graph_pattern_matching::PatternRegistry,
-        _is_rescale: bool,
-        _index: usize,
-        layer_context: &crate::circuit_functions::utils::build_layers::BuildLayerContext,
-    ) -> Result<Box<dyn LayerOp<C, Builder>>, CircuitError> {
-        let kind = LayerKind::try_from(layer.op_type.as_str())?;
-
-        let a_name = get_input_name(&layer.inputs, 0, kind.clone(), INPUT)?;
-        let b_name = get_input_name(&layer.inputs, 1, kind.clone(), INPUT)?;
-        let initializer_a = get_optional_w_or_b(layer_context, a_name)?;
-        let initializer_b = get_optional_w_or_b(layer_context, b_name)?;
-
-        let shift_exponent = layer_context
-            .n_bits_for(&layer.name)
-            .checked_sub(1)
-            .ok_or_else(|| LayerError::Other {
-                layer: kind.clone(),
-                msg: "n_bits too small to derive shift_exponent".to_string(),
-            })?;
-
-        Ok(Box::new(Self {
-            kind,
-            inputs: layer.inputs.clone(),
-            outputs: layer.outputs.clone(),
-            initializer_a,
-            initializer_b,
-            shift_exponent,
-        }))
+        Ok(result)
     }
 }
-- 
2.43.0


From 0bc93d363c8e37c1858656e0bf242bcb4d781571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 67/77] fix: ReduceMax honours noop_with_empty_axes

---
 .../src/circuit_functions/layers/reduce_max.rs    | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_max.rs b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_max.rs
index 9fc57a8..6f22d4d 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_max.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_max.rs
@@ -192,6 +192,14 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMaxLayer {
             .unwrap_or(1)
             != 0;
 
+        let noop_with_empty_axes = match layer.params.as_ref() {
+            Some(rmpv::Value::Map(m)) => m.iter().any(|(k, v)| {
+                k == &rmpv::Value::String("noop_with_empty_axes".into())
+                    && v.as_i64().is_some_and(|i| i != 0)
+            }),
+            _ => false,
+        };
+
         let axes: Vec<usize> = {
             let from_input: Option<Vec<i64>> = if let Some(axes_name) = layer.inputs.get(1) {
                 let arr = get_w_or_b(layer_context.w_and_b_map, axes_name).map_err(|e| {
@@ -254,7 +262,11 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMaxLayer {
             match raw {
                 Some(v) => {
                     if v.is_empty() {
-                        (0..rank).collect()
+                        if noop_with_empty_axes {
+                            vec![]
+                        } else {
+                            (0..rank).collect()
+                        }
                     } else {
                         let mut axes: Vec<usize> = v
                             .iter()
@@ -275,6 +287,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMaxLayer {
                         axes
                     }
                 }
+                None if noop_with_empty_axes => vec![],
                 None => (0..rank).collect(),
             }
         };
-- 
2.43.0


From 0ae847f90d6aec5b2b11ca8a982e4807696d4d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 68/77] fix: Clip honours attribute bounds and bounds outside
 the checked range

---
 .../src/circuit_functions/layers/clip.rs      | 45 ++++++++++++++++---
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/clip.rs b/rust/jstprove_circuits/src/circuit_functions/layers/clip.rs
index dfc2396..7cd2e9f 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/clip.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/clip.rs
@@ -15,7 +15,7 @@
 use std::collections::HashMap;
 
 /// External crate imports
-use ndarray::ArrayD;
+use ndarray::{ArrayD, IxDyn};
 
 /// `ExpanderCompilerCollection` imports
 use expander_compiler::frontend::{Config, RootAPI, Variable};
@@ -27,7 +27,9 @@ use crate::circuit_functions::{
     utils::{
         constants::INPUT,
         onnx_model::{get_input_name, get_optional_w_or_b},
-        tensor_ops::{broadcast_two_arrays, load_array_constants_or_get_inputs},
+        tensor_ops::{
+            broadcast_two_arrays, load_array_constants, load_array_constants_or_get_inputs,
+        },
     },
 };
 
@@ -80,7 +82,10 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ClipLayer {
                     LayerKind::Clip,
                 )?)
             }
-            None => None,
+            None => self
+                .initializer_min
+                .as_ref()
+                .map(|bound| load_array_constants(api, bound)),
         };
 
         let max_input = match self.inputs.get(2).filter(|n| !n.is_empty()) {
@@ -94,7 +99,10 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ClipLayer {
                     LayerKind::Clip,
                 )?)
             }
-            None => None,
+            None => self
+                .initializer_max
+                .as_ref()
+                .map(|bound| load_array_constants(api, bound)),
         };
 
         // Fast path: if both bounds are missing, Clip is the identity.
@@ -223,7 +231,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ClipLayer {
 
     fn build(
         layer: &crate::circuit_functions::utils::onnx_types::ONNXLayer,
-        _circuit_params: &crate::circuit_functions::utils::onnx_model::CircuitParams,
+        circuit_params: &crate::circuit_functions::utils::onnx_model::CircuitParams,
         _optimization_pattern: crate::circuit_functions::utils::graph_pattern_matching::PatternRegistry,
         _is_rescale: bool,
         _index: usize,
@@ -255,6 +263,19 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ClipLayer {
                 msg: "n_bits too small to derive shift_exponent".to_string(),
             })?;
 
+        // Before opset 11 the bounds are attributes.
+        let alpha = f64::from(circuit_params.scale_base)
+            .powf(f64::from(circuit_params.scale_exponent));
+        let initializer_min = initializer_min.or_else(|| attribute_bound(layer, "min", alpha));
+        let initializer_max = initializer_max.or_else(|| attribute_bound(layer, "max", alpha));
+
+        // No value of this layer leaves [-2^s, 2^s], so a bound outside of it is
+        // equivalent to the nearer end, which the range checks can handle.
+        let reach = 1i64 << shift_exponent.min(62);
+        let within = |bounds: ArrayD<i64>| bounds.mapv(|v| v.clamp(-reach, reach));
+        let initializer_min = initializer_min.map(within);
+        let initializer_max = initializer_max.map(within);
+
         let clip_layer = Self {
             inputs: layer.inputs.clone(),
             outputs: layer.outputs.clone(),
@@ -267,3 +288,17 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ClipLayer {
         Ok(Box::new(clip_layer))
     }
 }
+
+#[allow(clippy::cast_possible_truncation)]
+fn attribute_bound(
+    layer: &crate::circuit_functions::utils::onnx_types::ONNXLayer,
+    name: &str,
+    alpha: f64,
+) -> Option<ArrayD<i64>> {
+    let Some(rmpv::Value::Map(entries)) = layer.params.as_ref() else {
+        return None;
+    };
+    let (_, value) = entries.iter().find(|(k, _)| k.as_str() == Some(name))?;
+    let scaled = (value.as_f64()? * alpha).round() as i64;
+    Some(ArrayD::from_elem(IxDyn(&[]), scaled))
+}
-- 
2.43.0


From f8b223b852398f48d0f87c6f8b25f4215bccccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 69/77] fix: TopK enforces the sorted order and distinct
 indices

---
 .../src/circuit_functions/layers/topk.rs      | 117 +++++++++---------
 1 file changed, 57 insertions(+), 60 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/topk.rs b/rust/jstprove_circuits/src/circuit_functions/layers/topk.rs
index 8c2b2fe..f2070a5 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/topk.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/topk.rs
@@ -95,20 +95,12 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for TopKLayer {
             msg: "data tensor is not contiguous".to_string(),
         })?;
 
-        let shift_n_bits = self.n_bits + 1;
-        let offset_val = 1u64
-            .checked_shl(self.n_bits as u32)
-            .ok_or_else(|| LayerError::Other {
-                layer: LayerKind::TopK,
-                msg: format!("n_bits {} too large for shift offset", self.n_bits),
-            })?;
-        let offset = api.constant(CircuitField::<C>::from_u256(ethnum::U256::from(offset_val)));
         let scale_var = api.constant(CircuitField::<C>::from_u256(ethnum::U256::from(
             self.scaling,
         )));
 
         let (values_array, _) =
-            self.compute(api, logup_ctx, data_flat, scale_var, offset, shift_n_bits)?;
+            self.compute(api, logup_ctx, data_flat, scale_var, self.n_bits + 1)?;
         Ok((vec![self.values_output_name.clone()], values_array))
     }
 
@@ -131,20 +123,12 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for TopKLayer {
             msg: "data tensor is not contiguous".to_string(),
         })?;
 
-        let shift_n_bits = self.n_bits + 1;
-        let offset_val = 1u64
-            .checked_shl(self.n_bits as u32)
-            .ok_or_else(|| LayerError::Other {
-                layer: LayerKind::TopK,
-                msg: format!("n_bits {} too large for shift offset", self.n_bits),
-            })?;
-        let offset = api.constant(CircuitField::<C>::from_u256(ethnum::U256::from(offset_val)));
         let scale_var = api.constant(CircuitField::<C>::from_u256(ethnum::U256::from(
             self.scaling,
         )));
 
         let (values_array, indices_array) =
-            self.compute(api, logup_ctx, data_flat, scale_var, offset, shift_n_bits)?;
+            self.compute(api, logup_ctx, data_flat, scale_var, self.n_bits + 1)?;
         let mut out = vec![(self.values_output_name.clone(), values_array)];
         if let Some(ref name) = self.indices_output_name {
             out.push((name.clone(), indices_array));
@@ -425,8 +409,7 @@ impl TopKLayer {
         logup_ctx: &mut LogupRangeCheckContext,
         data_flat: &[Variable],
         scale_var: Variable,
-        offset: Variable,
-        shift_n_bits: usize,
+        value_bits: usize,
     ) -> Result<(ArrayD<Variable>, ArrayD<Variable>), CircuitError> {
         let axis = self.axis;
         let k = self.k;
@@ -442,6 +425,7 @@ impl TopKLayer {
         )));
         let idx_bits = (usize::BITS - axis_dim.saturating_sub(1).leading_zeros()) as usize;
         let idx_bits = idx_bits.max(1);
+        let gap_bits = value_bits + idx_bits + 1;
 
         for o in 0..outer {
             for inr in 0..inner {
@@ -457,56 +441,17 @@ impl TopKLayer {
                 let values = &hint_out[..k];
                 let indices = &hint_out[k..];
 
-                let mut membership_prods: Vec<Variable> =
-                    (0..k).map(|_| api.constant(1u32)).collect();
-                let min_val = values[k - 1];
-
-                for &elem in &lane {
-                    let mut qi = api.constant(1u32);
-                    for j in 0..k {
-                        let factor = api.sub(values[j], elem);
-                        membership_prods[j] = api.mul(membership_prods[j], factor);
-                        qi = api.mul(qi, factor);
-                    }
-
-                    let is_sel = api.is_zero(qi);
-                    let one_c = api.constant(1u32);
-                    let not_sel = api.sub(one_c, is_sel);
-
-                    let delta = api.sub(min_val, elem);
-                    let check_val = api.mul(not_sel, delta);
-
-                    logup_ctx
-                        .range_check::<C, Builder>(api, check_val, shift_n_bits)
-                        .map_err(|e| LayerError::Other {
-                            layer: LayerKind::TopK,
-                            msg: format!("top-K bound range check failed: {e}"),
-                        })?;
-                }
-
                 for j in 0..k {
-                    api.assert_is_zero(membership_prods[j]);
-
                     let out_idx = (o * k + j) * inner + inr;
                     out_flat[out_idx] = values[j];
                     idx_flat[out_idx] = indices[j];
                 }
 
-                for j in 0..k.saturating_sub(1) {
-                    let diff = api.sub(values[j], values[j + 1]);
-                    let shifted = api.add(diff, offset);
-                    logup_ctx
-                        .range_check::<C, Builder>(api, shifted, shift_n_bits)
-                        .map_err(|e| LayerError::Other {
-                            layer: LayerKind::TopK,
-                            msg: format!("sorted order range check failed: {e}"),
-                        })?;
-                }
-
                 // Constrain each indices[j] in [0, axis_dim) and that
                 // lane[indices[j]] == values[j].  Without these the
                 // hint could return arbitrary indices and break
                 // soundness.
+                let mut selections = vec![api.constant(0u32); axis_dim];
                 for j in 0..k {
                     let idx_var = indices[j];
                     logup_ctx
@@ -534,11 +479,44 @@ impl TopKLayer {
                         let contrib = api.mul(is_match, elem);
                         selected = api.add(selected, contrib);
                         matched_sum = api.add(matched_sum, is_match);
+                        selections[a] = api.add(selections[a], is_match);
                     }
                     let one = api.constant(1u32);
                     api.assert_is_equal(matched_sum, one);
                     api.assert_is_equal(selected, values[j]);
                 }
+
+                // Elements are ordered by value and, among equal values, by index.
+                // The selection is strictly descending in that order (so no element
+                // is selected twice), and everything else comes after its last one.
+                for j in 0..k.saturating_sub(1) {
+                    let gap = rank_gap(
+                        api,
+                        (values[j], indices[j]),
+                        (values[j + 1], indices[j + 1]),
+                        axis_dim,
+                    );
+                    logup_ctx
+                        .range_check::<C, Builder>(api, gap, gap_bits)
+                        .map_err(|e| LayerError::Other {
+                            layer: LayerKind::TopK,
+                            msg: format!("sorted order range check failed: {e}"),
+                        })?;
+                }
+                let last = (values[k - 1], indices[k - 1]);
+                for (a, &elem) in lane.iter().enumerate() {
+                    let a_var = api.constant(a as u32);
+                    let gap = rank_gap(api, last, (elem, a_var), axis_dim);
+                    let one = api.constant(1u32);
+                    let not_sel = api.sub(one, selections[a]);
+                    let check_val = api.mul(not_sel, gap);
+                    logup_ctx
+                        .range_check::<C, Builder>(api, check_val, gap_bits)
+                        .map_err(|e| LayerError::Other {
+                            layer: LayerKind::TopK,
+                            msg: format!("top-K bound range check failed: {e}"),
+                        })?;
+                }
             }
         }
 
@@ -559,3 +537,22 @@ impl TopKLayer {
         Ok((values_array, indices_array))
     }
 }
+
+/// `(a.value - b.value) * axis_dim + (b.index - a.index) - 1`, which is
+/// non-negative exactly when `a` strictly precedes `b`.
+fn rank_gap<C: Config, Builder: RootAPI<C>>(
+    api: &mut Builder,
+    a: (Variable, Variable),
+    b: (Variable, Variable),
+    axis_dim: usize,
+) -> Variable {
+    let dim = api.constant(CircuitField::<C>::from_u256(ethnum::U256::from(
+        axis_dim as u64,
+    )));
+    let value_diff = api.sub(a.0, b.0);
+    let value_diff = api.mul(value_diff, dim);
+    let index_diff = api.sub(b.1, a.1);
+    let gap = api.add(value_diff, index_diff);
+    let one = api.constant(1u32);
+    api.sub(gap, one)
+}
-- 
2.43.0


From 71f880aedd1dc6247bacb1a7e2857e0400bf9d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 70/77] fix: Erf constrains its output to the error function

---
 .../src/circuit_functions/layers/erf.rs       | 58 +++++++++++--------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/erf.rs b/rust/jstprove_circuits/src/circuit_functions/layers/erf.rs
index f28efff..2a7aef9 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/erf.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/erf.rs
@@ -39,6 +39,7 @@ fn erf_div_rem<C: Config, B: RootAPI<C>>(
     num: Variable,
     den: Variable,
     rem_bits: usize,
+    quot_bits: usize,
 ) -> Result<Variable, CircuitError> {
     let q = api.unconstrained_int_div(num, den);
     let r = api.unconstrained_mod(num, den);
@@ -46,6 +47,8 @@ fn erf_div_rem<C: Config, B: RootAPI<C>>(
     let recon = api.add(recon, r);
     api.assert_is_equal(recon, num);
     logup_ctx.range_check::<C, B>(api, r, rem_bits)?;
+    // Without a bound on q, any r would do: q = (num - r) / den in the field.
+    logup_ctx.range_check::<C, B>(api, q, quot_bits)?;
     Ok(q)
 }
 
@@ -90,18 +93,20 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ErfLayer {
         let abs_a2_var = api.constant(CircuitField::<C>::from_u256(U256::from(abs_a2_q)));
         let abs_a4_var = api.constant(CircuitField::<C>::from_u256(U256::from(abs_a4_q)));
 
-        let cross_tolerance = 4u64 * scale;
+        // Every term of the polynomial is below four.
+        let poly_bits = se + 2;
+        // `n_bits` sizes the output; the exponential's table takes any x with x^2 in it.
+        let abs_bits = self.n_bits.max((function_lookup_bits(self.scale_exponent) + se) / 2 + 1);
+        let x_sq_bits = (2 * abs_bits).saturating_sub(se).max(1);
+
+        // Compared at the scale of the output: a few truncations of one step each.
+        let cross_tolerance = 16u64;
         let cross_tol_var = api.constant(CircuitField::<C>::from_u256(U256::from(cross_tolerance)));
         let two_cross_tol_var = api.constant(CircuitField::<C>::from_u256(U256::from(
             2 * cross_tolerance,
         )));
         let cross_tol_bits = (2 * cross_tolerance).next_power_of_two().trailing_zeros() as usize;
 
-        let t_tolerance = 2u64 * scale;
-        let t_tol_var = api.constant(CircuitField::<C>::from_u256(U256::from(t_tolerance)));
-        let two_t_tol_var = api.constant(CircuitField::<C>::from_u256(U256::from(2 * t_tolerance)));
-        let t_tol_bits = (2 * t_tolerance).next_power_of_two().trailing_zeros() as usize;
-
         let lookup_bits = function_lookup_bits(self.scale_exponent);
         let mut decomposed = DecomposedExpLookup::build::<C, Builder>(
             api,
@@ -125,52 +130,57 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ErfLayer {
             let sign = api.sub(two_is_nonneg, one_var);
             let signed_abs = api.mul(sign, abs_x);
             api.assert_is_equal(signed_abs, x);
-            logup_ctx.range_check::<C, Builder>(api, abs_x, self.n_bits)?;
+            logup_ctx.range_check::<C, Builder>(api, abs_x, abs_bits)?;
 
             let p_abs = api.mul(p_var, abs_x);
-            let p_scaled = erf_div_rem::<C, Builder>(api, logup_ctx, p_abs, scale_var, se)?;
+            let p_scaled = erf_div_rem::<C, Builder>(api, logup_ctx, p_abs, scale_var, se, abs_bits)?;
             let denom = api.add(scale_var, p_scaled);
 
-            let t = erf_div_rem::<C, Builder>(api, logup_ctx, scale_sq_var, denom, se + 1)?;
-            logup_ctx.range_check::<C, Builder>(api, t, self.n_bits)?;
+            let t = erf_div_rem::<C, Builder>(
+                api,
+                logup_ctx,
+                scale_sq_var,
+                denom,
+                abs_bits + 1,
+                poly_bits,
+            )?;
             let t_denom = api.mul(t, denom);
-            let t_diff = api.sub(t_denom, scale_sq_var);
-            let t_shifted = api.add(t_diff, t_tol_var);
-            logup_ctx.range_check::<C, Builder>(api, t_shifted, t_tol_bits)?;
-            let t_upper = api.sub(two_t_tol_var, t_shifted);
-            logup_ctx.range_check::<C, Builder>(api, t_upper, t_tol_bits)?;
+            let t_rem = api.sub(scale_sq_var, t_denom);
+            let t_headroom = api.sub(denom, t_rem);
+            let t_headroom = api.sub(t_headroom, one_var);
+            logup_ctx.range_check::<C, Builder>(api, t_headroom, abs_bits + 1)?;
 
             let t_sq = api.mul(t, t);
-            let t_sq_div = erf_div_rem::<C, Builder>(api, logup_ctx, t_sq, scale_var, se)?;
+            let t_sq_div = erf_div_rem::<C, Builder>(api, logup_ctx, t_sq, scale_var, se, poly_bits)?;
 
             let a5_tsq = api.mul(a5_var, t_sq_div);
-            let a5_tsq_div = erf_div_rem::<C, Builder>(api, logup_ctx, a5_tsq, scale_var, se)?;
+            let a5_tsq_div = erf_div_rem::<C, Builder>(api, logup_ctx, a5_tsq, scale_var, se, poly_bits)?;
             let pos_inner2 = api.add(a3_var, a5_tsq_div);
 
             let pi2_tsq = api.mul(pos_inner2, t_sq_div);
-            let pi2_tsq_div = erf_div_rem::<C, Builder>(api, logup_ctx, pi2_tsq, scale_var, se)?;
+            let pi2_tsq_div = erf_div_rem::<C, Builder>(api, logup_ctx, pi2_tsq, scale_var, se, poly_bits)?;
             let pos_inner1 = api.add(a1_var, pi2_tsq_div);
 
             let pos_t = api.mul(t, pos_inner1);
-            let pos_val = erf_div_rem::<C, Builder>(api, logup_ctx, pos_t, scale_var, se)?;
+            let pos_val = erf_div_rem::<C, Builder>(api, logup_ctx, pos_t, scale_var, se, poly_bits)?;
 
             let a4_tsq = api.mul(abs_a4_var, t_sq_div);
-            let a4_tsq_div = erf_div_rem::<C, Builder>(api, logup_ctx, a4_tsq, scale_var, se)?;
+            let a4_tsq_div = erf_div_rem::<C, Builder>(api, logup_ctx, a4_tsq, scale_var, se, poly_bits)?;
             let neg_inner = api.add(abs_a2_var, a4_tsq_div);
 
             let neg_tsq = api.mul(neg_inner, t_sq_div);
-            let neg_val = erf_div_rem::<C, Builder>(api, logup_ctx, neg_tsq, scale_var, se)?;
+            let neg_val = erf_div_rem::<C, Builder>(api, logup_ctx, neg_tsq, scale_var, se, poly_bits)?;
 
             let abs_x_sq = api.mul(abs_x, abs_x);
-            let x_sq = erf_div_rem::<C, Builder>(api, logup_ctx, abs_x_sq, scale_var, se)?;
+            let x_sq = erf_div_rem::<C, Builder>(api, logup_ctx, abs_x_sq, scale_var, se, x_sq_bits)?;
             let neg_x_sq = api.sub(zero_var, x_sq);
             let exp_neg_x_sq = decomposed.verify_exp::<C, Builder>(api, logup_ctx, neg_x_sq)?;
 
             let pos_exp_prod = api.mul(pos_val, exp_neg_x_sq);
-            let pos_exp = erf_div_rem::<C, Builder>(api, logup_ctx, pos_exp_prod, scale_var, se)?;
+            let pos_exp = erf_div_rem::<C, Builder>(api, logup_ctx, pos_exp_prod, scale_var, se, poly_bits)?;
 
             let neg_exp_prod = api.mul(neg_val, exp_neg_x_sq);
-            let neg_exp = erf_div_rem::<C, Builder>(api, logup_ctx, neg_exp_prod, scale_var, se)?;
+            let neg_exp = erf_div_rem::<C, Builder>(api, logup_ctx, neg_exp_prod, scale_var, se, poly_bits)?;
 
             let erf_abs = api.sub(scale_var, pos_exp);
             let erf_abs = api.add(erf_abs, neg_exp);
-- 
2.43.0


From 2019edc2651e54610e614a9b181b71ee444ca95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 71/77] fix: Gelu is provable for negative inputs and bounds
 its quotients

---
 .../src/circuit_functions/layers/gelu.rs      | 32 ++++++++++++++++---
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/gelu.rs b/rust/jstprove_circuits/src/circuit_functions/layers/gelu.rs
index 7dfbd58..231c0ab 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/gelu.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/gelu.rs
@@ -8,7 +8,7 @@ use expander_compiler::frontend::{CircuitField, Config, FieldArith, RootAPI, Var
 use crate::circuit_functions::{
     CircuitError,
     gadgets::{DecomposedExpLookup, function_lookup_bits, range_check::LogupRangeCheckContext},
-    hints::{exp::compute_exp_quantized, gelu::GELU_HINT_KEY},
+    hints::{erf::ERF_ABS_HINT_KEY, exp::compute_exp_quantized, gelu::GELU_HINT_KEY},
     layers::{LayerError, LayerKind, layer_ops::LayerOp},
     utils::{
         constants::INPUT,
@@ -52,17 +52,22 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GeluLayer {
         let scale_sq_var = api.constant(CircuitField::<C>::from_u256(U256::from(scale * scale)));
         let zero_var = api.constant(CircuitField::<C>::from_u256(U256::from(0u64)));
 
+        let one_var = api.constant(CircuitField::<C>::from_u256(U256::from(1u64)));
+
         let coef_q = (GELU_COEF * scale as f64).round() as u64;
         let coef_var = api.constant(CircuitField::<C>::from_u256(U256::from(coef_q)));
 
         let outer_coef_q = (2.0 * SQRT_2_OVER_PI * scale as f64).round() as u64;
         let outer_coef_var = api.constant(CircuitField::<C>::from_u256(U256::from(outer_coef_q)));
 
-        let cross_tolerance = 5u64 * scale;
+        let cross_tolerance = 8u64 * scale;
         let cross_tol_var = api.constant(CircuitField::<C>::from_u256(U256::from(cross_tolerance)));
         let cross_tol_bits = (2 * cross_tolerance).next_power_of_two().trailing_zeros() as usize;
 
         let lookup_bits = function_lookup_bits(self.scale_exponent);
+        // Quotients are bounded, or any remainder would do.  Inputs the exponential's
+        // table cannot take are refused by it anyway.
+        let quotient_bits = 2 * lookup_bits - self.scale_exponent as usize;
         let mut decomposed = DecomposedExpLookup::build::<C, Builder>(
             api,
             lookup_bits,
@@ -76,6 +81,16 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GeluLayer {
             let hint_out = api.new_hint(GELU_HINT_KEY, &[x, scale_var], 1);
             let y = hint_out[0];
 
+            // z is odd in x, and x * sigmoid(z) = x - x * sigmoid(-z): checked at |x|, where
+            // the divisions are exact floors, the exponential is at most one and rounding
+            // y costs at most `denom / 2 <= scale`.
+            let is_nonneg = api.new_hint(ERF_ABS_HINT_KEY, &[x], 2)[1];
+            api.assert_is_bool(is_nonneg);
+            let two_is_nonneg = api.add(is_nonneg, is_nonneg);
+            let sign = api.sub(two_is_nonneg, one_var);
+            let abs_x = api.mul(sign, x);
+            logup_ctx.range_check::<C, Builder>(api, abs_x, lookup_bits)?;
+
             let x_sq = api.mul(x, x);
             let x_sq_div_alpha = api.unconstrained_int_div(x_sq, scale_var);
             let x_sq_rem = api.unconstrained_mod(x_sq, scale_var);
@@ -83,8 +98,9 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GeluLayer {
             let x_sq_recon = api.add(x_sq_recon, x_sq_rem);
             api.assert_is_equal(x_sq_recon, x_sq);
             logup_ctx.range_check::<C, Builder>(api, x_sq_rem, self.scale_exponent as usize)?;
+            logup_ctx.range_check::<C, Builder>(api, x_sq_div_alpha, quotient_bits)?;
 
-            let x_cubed_a2 = api.mul(x_sq_div_alpha, x);
+            let x_cubed_a2 = api.mul(x_sq_div_alpha, abs_x);
 
             let coef_x3 = api.mul(coef_var, x_cubed_a2);
             let coef_x3_div = api.unconstrained_int_div(coef_x3, scale_sq_var);
@@ -97,8 +113,9 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GeluLayer {
                 coef_x3_rem,
                 2 * self.scale_exponent as usize,
             )?;
+            logup_ctx.range_check::<C, Builder>(api, coef_x3_div, lookup_bits)?;
 
-            let inner = api.add(x, coef_x3_div);
+            let inner = api.add(abs_x, coef_x3_div);
 
             let z_a2 = api.mul(outer_coef_var, inner);
             let z = api.unconstrained_int_div(z_a2, scale_var);
@@ -111,11 +128,16 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GeluLayer {
             let neg_z = api.sub(zero_var, z);
             let exp_neg_z = decomposed.verify_exp::<C, Builder>(api, logup_ctx, neg_z)?;
 
+            let is_neg = api.sub(one_var, is_nonneg);
+            let reflected = api.mul(is_neg, x);
+            let signed_y = api.mul(sign, y);
+            let y_abs = api.add(reflected, signed_y);
+
             let denom = api.add(scale_var, exp_neg_z);
             let sigmoid_times_denom = api.mul(scale_var, denom);
 
             let x_times_scale = api.mul(x, scale_var);
-            let lhs = api.mul(y, denom);
+            let lhs = api.mul(y_abs, denom);
             let diff = api.sub(lhs, x_times_scale);
             let shifted = api.add(diff, cross_tol_var);
             logup_ctx.range_check::<C, Builder>(api, shifted, cross_tol_bits)?;
-- 
2.43.0


From a706c6341ab86e1785fca33b9767611dd8198e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 72/77] fix: Sigmoid and Tanh are provable for inputs of either
 sign

---
 .../src/circuit_functions/layers/sigmoid.rs   | 25 +++++++++++++----
 .../src/circuit_functions/layers/tanh.rs      | 28 +++++++++++++------
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/sigmoid.rs b/rust/jstprove_circuits/src/circuit_functions/layers/sigmoid.rs
index 9d16b69..4e82bb6 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/sigmoid.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/sigmoid.rs
@@ -8,7 +8,7 @@ use expander_compiler::frontend::{CircuitField, Config, FieldArith, RootAPI, Var
 use crate::circuit_functions::{
     CircuitError,
     gadgets::{DecomposedExpLookup, function_lookup_bits, range_check::LogupRangeCheckContext},
-    hints::{exp::compute_exp_quantized, sigmoid::SIGMOID_HINT_KEY},
+    hints::{erf::ERF_ABS_HINT_KEY, exp::compute_exp_quantized, sigmoid::SIGMOID_HINT_KEY},
     layers::{LayerError, LayerKind, layer_ops::LayerOp},
     utils::{constants::INPUT, onnx_model::get_input_name},
 };
@@ -43,7 +43,9 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for SigmoidLayer {
         )));
         let zero_var = api.constant(CircuitField::<C>::from_u256(U256::from(0u64)));
 
-        let cross_tolerance = 2u64 * self.scaling;
+        let one_var = api.constant(CircuitField::<C>::from_u256(U256::from(1u64)));
+
+        let cross_tolerance = 4u64 * self.scaling;
         let cross_tol_var = api.constant(CircuitField::<C>::from_u256(U256::from(cross_tolerance)));
         let cross_tol_bits = (2 * cross_tolerance).next_power_of_two().trailing_zeros() as usize;
 
@@ -65,11 +67,24 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for SigmoidLayer {
             let upper = api.sub(scale_var, y);
             logup_ctx.range_check::<C, Builder>(api, upper, self.n_bits)?;
 
-            let neg_x = api.sub(zero_var, x);
-            let exp_neg_x = decomposed.verify_exp::<C, Builder>(api, logup_ctx, neg_x)?;
+            // sigmoid(x) = 1 - sigmoid(-x): checked at -|x|, where the exponential is at
+            // most one and rounding y costs at most `denom / 2 <= scale`.  Either sign
+            // states the same equation, so it only has to be a sign.
+            let is_nonneg = api.new_hint(ERF_ABS_HINT_KEY, &[x], 2)[1];
+            api.assert_is_bool(is_nonneg);
+            let two_is_nonneg = api.add(is_nonneg, is_nonneg);
+            let sign = api.sub(two_is_nonneg, one_var);
+            let abs_x = api.mul(sign, x);
+            let neg_abs_x = api.sub(zero_var, abs_x);
+            let exp_neg_x = decomposed.verify_exp::<C, Builder>(api, logup_ctx, neg_abs_x)?;
+
+            let is_neg = api.sub(one_var, is_nonneg);
+            let reflected = api.mul(is_neg, scale_var);
+            let signed_y = api.mul(sign, y);
+            let y_abs = api.add(reflected, signed_y);
 
             let denom = api.add(scale_var, exp_neg_x);
-            let lhs = api.mul(y, denom);
+            let lhs = api.mul(y_abs, denom);
             let diff = api.sub(lhs, scale_sq);
             let shifted = api.add(diff, cross_tol_var);
             logup_ctx.range_check::<C, Builder>(api, shifted, cross_tol_bits)?;
diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/tanh.rs b/rust/jstprove_circuits/src/circuit_functions/layers/tanh.rs
index b4b1b73..2042cc7 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/tanh.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/tanh.rs
@@ -8,7 +8,7 @@ use expander_compiler::frontend::{CircuitField, Config, FieldArith, RootAPI, Var
 use crate::circuit_functions::{
     CircuitError,
     gadgets::{DecomposedExpLookup, function_lookup_bits, range_check::LogupRangeCheckContext},
-    hints::{exp::compute_exp_quantized, tanh::TANH_HINT_KEY},
+    hints::{erf::ERF_ABS_HINT_KEY, exp::compute_exp_quantized, tanh::TANH_HINT_KEY},
     layers::{LayerError, LayerKind, layer_ops::LayerOp},
     utils::{constants::INPUT, onnx_model::get_input_name},
 };
@@ -39,7 +39,9 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for TanhLayer {
         let shape = x_input.shape().to_vec();
         let scale = self.scaling;
         let scale_var = api.constant(CircuitField::<C>::from_u256(U256::from(scale)));
-        let cross_tolerance = 3u64 * scale;
+        let zero_var = api.constant(CircuitField::<C>::from_u256(U256::from(0u64)));
+        let one_var = api.constant(CircuitField::<C>::from_u256(U256::from(1u64)));
+        let cross_tolerance = 8u64 * scale;
         let cross_tol_var = api.constant(CircuitField::<C>::from_u256(U256::from(cross_tolerance)));
         let two_cross_tol_var = api.constant(CircuitField::<C>::from_u256(U256::from(
             2 * cross_tolerance,
@@ -65,12 +67,22 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for TanhLayer {
             let scale_minus_y = api.sub(scale_var, y);
             logup_ctx.range_check::<C, Builder>(api, scale_minus_y, self.n_bits + 1)?;
 
-            let two_x = api.add(x, x);
-            let exp_2x = decomposed.verify_exp::<C, Builder>(api, logup_ctx, two_x)?;
-
-            let denom = api.add(exp_2x, scale_var);
-            let lhs = api.mul(y, denom);
-            let rhs = api.sub(exp_2x, scale_var);
+            // tanh is odd: checked at -2|x|, where the exponential is at most one and
+            // rounding y costs at most `denom / 2 <= scale`.  Either sign states the
+            // same equation, so it only has to be a sign.
+            let is_nonneg = api.new_hint(ERF_ABS_HINT_KEY, &[x], 2)[1];
+            api.assert_is_bool(is_nonneg);
+            let two_is_nonneg = api.add(is_nonneg, is_nonneg);
+            let sign = api.sub(two_is_nonneg, one_var);
+            let abs_x = api.mul(sign, x);
+            let two_abs_x = api.add(abs_x, abs_x);
+            let neg_two_abs_x = api.sub(zero_var, two_abs_x);
+            let exp_neg = decomposed.verify_exp::<C, Builder>(api, logup_ctx, neg_two_abs_x)?;
+
+            let denom = api.add(scale_var, exp_neg);
+            let y_abs = api.mul(sign, y);
+            let lhs = api.mul(y_abs, denom);
+            let rhs = api.sub(scale_var, exp_neg);
             let rhs = api.mul(rhs, scale_var);
             let diff = api.sub(lhs, rhs);
             let shifted = api.add(diff, cross_tol_var);
-- 
2.43.0


From 9d85cae902af2f4c5eeffcd794a5f2600370a751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 73/77] fix: Sqrt accepts the rounded root its hint computes

---
 rust/jstprove_circuits/src/circuit_functions/layers/sqrt.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/sqrt.rs b/rust/jstprove_circuits/src/circuit_functions/layers/sqrt.rs
index ab2dfe8..73d5845 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/sqrt.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/sqrt.rs
@@ -63,7 +63,9 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for SqrtLayer {
 
             let x_times_scale = api.mul(x, scale_var);
             let y_sq = api.mul(y, y);
+            // y is the nearest integer to the root: y^2 - y <= x * scale <= y^2 + y.
             let remainder = api.sub(x_times_scale, y_sq);
+            let remainder = api.add(remainder, y);
             logup_ctx.range_check::<C, Builder>(api, remainder, remainder_bits)?;
 
             let two_y = api.add(y, y);
-- 
2.43.0


From e6a40bfc1f59cd50447d9aa919b680571b74b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 74/77] fix: ReduceMean honours noop_with_empty_axes

---
 .../src/circuit_functions/layers/reduce_mean.rs        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs
index 985b83c..4306170 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs
@@ -242,7 +242,14 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMeanLayer {
                     }
                 })
             });
-            match raw {
+            let noop_with_empty_axes = match layer.params.as_ref() {
+                Some(rmpv::Value::Map(m)) => m.iter().any(|(k, v)| {
+                    k == &rmpv::Value::String("noop_with_empty_axes".into())
+                        && v.as_i64().is_some_and(|i| i != 0)
+                }),
+                _ => false,
+            };
+            match raw.filter(|v| !v.is_empty()) {
                 Some(v) => {
                     let mut axes: Vec<usize> = v
                         .iter()
@@ -262,6 +269,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMeanLayer {
                     axes.dedup();
                     axes
                 }
+                None if noop_with_empty_axes => vec![],
                 None => (0..rank).collect(),
             }
         };
-- 
2.43.0


From 91cdf94810999a6c8bcb19060fe84d84658ccddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 75/77] fix: refuse AveragePool dilations instead of ignoring
 them

---
 .../src/circuit_functions/layers/averagepool.rs           | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/averagepool.rs b/rust/jstprove_circuits/src/circuit_functions/layers/averagepool.rs
index 5ba1655..3c8cf7d 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/averagepool.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/averagepool.rs
@@ -366,6 +366,14 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for AveragePoolLayer {
             )
             .into());
         }
+        if let Some(dilations) = parse_usize_list(layer, "dilations").map_err(mk_other)? {
+            if dilations.iter().any(|&d| d != 1) {
+                return Err(mk_other(format!(
+                    "AveragePool dilations={dilations:?} are not supported"
+                ))
+                .into());
+            }
+        }
         let auto_pad = get_str_param(layer, "auto_pad").map_err(mk_other)?;
         if auto_pad
             .as_deref()
-- 
2.43.0


From 656ca1a7b47042ad94e4360cd20401eed64b94a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 76/77] fix: refuse fractional divisors and exponents and
 constants needed at two scales

---
 .../src/expander_metadata.rs                  | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/rust/jstprove_circuits/src/expander_metadata.rs b/rust/jstprove_circuits/src/expander_metadata.rs
index 66657ca..7e63f47 100644
--- a/rust/jstprove_circuits/src/expander_metadata.rs
+++ b/rust/jstprove_circuits/src/expander_metadata.rs
@@ -351,18 +351,34 @@ fn build_wandb(
     all_shapes: &HashMap<String, Vec<usize>>,
 ) -> Result<WANDB> {
     let mut layers = Vec::new();
-    let mut seen = std::collections::HashSet::new();
+    let mut seen: HashMap<String, Vec<i64>> = HashMap::new();
     let mut id = 0;
 
     for layer in &quantized.graph.layers {
         for (name, td) in &layer.weights {
-            if seen.contains(name) {
-                continue;
+            // Divisors and exponents enter the circuit as integers, unscaled.
+            if matches!(layer.op_type, OpType::Div | OpType::Pow)
+                && layer.inputs.get(1) == Some(name)
+                && td.float_data.iter().any(|v| v.fract() != 0.0)
+            {
+                anyhow::bail!(
+                    "layer {}: {:?} by the fractional constant '{name}' is not supported",
+                    layer.name,
+                    layer.op_type
+                );
             }
-            seen.insert(name.clone());
-
             let shape = td.shape();
             let tensor_data = td.as_i64_vec();
+            if let Some(first) = seen.get(name) {
+                // The circuit knows one value per name.
+                anyhow::ensure!(
+                    *first == tensor_data,
+                    "constant '{name}' is needed at two different scales (layer {})",
+                    layer.name
+                );
+                continue;
+            }
+            seen.insert(name.clone(), tensor_data.clone());
             let tensor_value = nest_flat_data(&tensor_data, &shape)
                 .with_context(|| format!("nesting tensor '{name}'"))?;
 
-- 
2.43.0


From e7a3cc81f6a5c5eb0857e91b7818be99b5921f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:10 +0000
Subject: [PATCH 77/77] fix: Softmax leaves room for the error of the looked-up
 exponentials

---
 .../src/circuit_functions/layers/softmax.rs                  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/softmax.rs b/rust/jstprove_circuits/src/circuit_functions/layers/softmax.rs
index c525b2d..85282bd 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/softmax.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/softmax.rs
@@ -99,7 +99,10 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for SoftmaxLayer {
             compute_exp_quantized,
         );
 
-        let cross_tolerance = n as u64 * self.scaling;
+        // Rounding y costs sum_exp / 2 <= n * scale / 2; on top of that every
+        // looked-up exponential is off by a few units, which weighs in once per
+        // lane element through sum_exp and once through exp_i * scale.
+        let cross_tolerance = (2 * n as u64 + 4) * self.scaling;
         let cross_tol_var = api.constant(CircuitField::<C>::from_u256(U256::from(cross_tolerance)));
         let cross_tol_bits = (2 * cross_tolerance).next_power_of_two().trailing_zeros() as usize;
 
-- 
2.43.0

