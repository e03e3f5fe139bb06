From da53895a27c4a25eab08fc2cd5b9438de7810dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:17 +0000
Subject: [PATCH 01/48] fix: remove a partially written bundle file when
 writing it fails

---
 rust/jstprove_io/src/bundle.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rust/jstprove_io/src/bundle.rs b/rust/jstprove_io/src/bundle.rs
index 304cc1e..d9e4b94 100644
--- a/rust/jstprove_io/src/bundle.rs
+++ b/rust/jstprove_io/src/bundle.rs
@@ -32,14 +32,13 @@ impl WriteGuard {
     }
 
     fn write_blob(&mut self, path: PathBuf, data: &[u8], compress: bool) -> Result<()> {
-        write_blob(&path, data, compress)?;
-        self.paths.push(path);
-        Ok(())
+        self.paths.push(path.clone());
+        write_blob(&path, data, compress)
     }
 
     fn serialize_to_file<T: Serialize>(&mut self, val: &T, path: PathBuf) -> Result<()> {
+        self.paths.push(path.clone());
         crate::serialize_to_file(val, &path, false)?;
-        self.paths.push(path);
         Ok(())
     }
 
-- 
2.43.0


From 0bad4fa4ba22bdcf9287b21e2b5531b3a0eb96ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:17 +0000
Subject: [PATCH 02/48] fix: report a failed final flush when finishing a
 compressed writer

---
 rust/jstprove_io/src/compress.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rust/jstprove_io/src/compress.rs b/rust/jstprove_io/src/compress.rs
index 733fee0..051dc95 100644
--- a/rust/jstprove_io/src/compress.rs
+++ b/rust/jstprove_io/src/compress.rs
@@ -55,10 +55,7 @@ impl Write for MaybeCompressed {
 impl MaybeCompressed {
     pub fn finish(self) -> io::Result<()> {
         match self {
-            Self::Compressed(enc) => {
-                enc.finish()?;
-                Ok(())
-            }
+            Self::Compressed(enc) => enc.finish()?.flush(),
             Self::Plain(mut w) => w.flush(),
         }
     }
-- 
2.43.0


From 75dd0040a4797b8b7fd46e32a033c7d75adb58ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:17 +0000
Subject: [PATCH 03/48] fix: read legacy files shorter than an envelope header

---
 rust/jstprove_io/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_io/src/lib.rs b/rust/jstprove_io/src/lib.rs
index 01feaea..45ce5e8 100644
--- a/rust/jstprove_io/src/lib.rs
+++ b/rust/jstprove_io/src/lib.rs
@@ -76,8 +76,11 @@ pub fn deserialize_from_bytes<T: DeserializeOwned>(data: &[u8]) -> Result<T> {
 pub fn deserialize_from_file<T: DeserializeOwned>(path: &Path) -> Result<T> {
     let file = std::fs::File::open(path)?;
     let mut reader = BufReader::new(file);
-    let mut header_buf = [0u8; ENVELOPE_HEADER_LEN];
-    reader.read_exact(&mut header_buf)?;
+    let mut header_buf = Vec::with_capacity(ENVELOPE_HEADER_LEN);
+    reader
+        .by_ref()
+        .take(ENVELOPE_HEADER_LEN as u64)
+        .read_to_end(&mut header_buf)?;
 
     match envelope::detect_format(&header_buf) {
         DetectedFormat::Envelope => {
-- 
2.43.0


From 60971ef370f8127bdddb10fb682ac5c1d1e746fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:17 +0000
Subject: [PATCH 04/48] fix: check the file CRC over the whole declared payload

---
 rust/jstprove_io/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rust/jstprove_io/src/lib.rs b/rust/jstprove_io/src/lib.rs
index 45ce5e8..0ed4181 100644
--- a/rust/jstprove_io/src/lib.rs
+++ b/rust/jstprove_io/src/lib.rs
@@ -86,16 +86,17 @@ pub fn deserialize_from_file<T: DeserializeOwned>(path: &Path) -> Result<T> {
         DetectedFormat::Envelope => {
             let header = envelope::parse_header(&header_buf)?;
             let crc_state = std::rc::Rc::new(std::cell::Cell::new(0u32));
-            let crc_reader = Crc32cReader {
+            let mut crc_reader = Crc32cReader {
                 inner: reader.take(header.payload_len),
                 crc: std::rc::Rc::clone(&crc_state),
             };
             let result = if header.compressed {
-                let decoder = zstd::stream::read::Decoder::new(crc_reader)?;
+                let decoder = zstd::stream::read::Decoder::new(&mut crc_reader)?;
                 rmp_serde::from_read(BufReader::new(decoder))?
             } else {
-                rmp_serde::from_read(BufReader::new(crc_reader))?
+                rmp_serde::from_read(BufReader::new(&mut crc_reader))?
             };
+            std::io::copy(&mut crc_reader, &mut std::io::sink())?;
             envelope::verify_crc_computed(crc_state.get(), header.crc32)?;
             Ok(result)
         }
-- 
2.43.0


From a5139889a3a2ef9dbf9b904284e5d86c66144022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:10 +0000
Subject: [PATCH 05/48] fix: reject an envelope file shorter than its declared
 payload

---
 rust/jstprove_io/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rust/jstprove_io/src/lib.rs b/rust/jstprove_io/src/lib.rs
index 0ed4181..89cf014 100644
--- a/rust/jstprove_io/src/lib.rs
+++ b/rust/jstprove_io/src/lib.rs
@@ -97,6 +97,13 @@ pub fn deserialize_from_file<T: DeserializeOwned>(path: &Path) -> Result<T> {
                 rmp_serde::from_read(BufReader::new(&mut crc_reader))?
             };
             std::io::copy(&mut crc_reader, &mut std::io::sink())?;
+            let missing = crc_reader.inner.limit();
+            if missing > 0 {
+                anyhow::bail!(
+                    "truncated envelope: declared payload {} bytes but {missing} are missing",
+                    header.payload_len
+                );
+            }
             envelope::verify_crc_computed(crc_state.get(), header.crc32)?;
             Ok(result)
         }
-- 
2.43.0


From 0ed588afcd3920bb230d3a6fb559cea7cb060318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:00 +0000
Subject: [PATCH 06/48] fix: do not treat unused outputs and omitted inputs as
 a dependency

---
 rust/jstprove_onnx/src/graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/graph.rs b/rust/jstprove_onnx/src/graph.rs
index be49eef..9ab11da 100644
--- a/rust/jstprove_onnx/src/graph.rs
+++ b/rust/jstprove_onnx/src/graph.rs
@@ -311,7 +311,8 @@ impl LayerNode {
 fn topological_sort(layers: &[LayerNode]) -> Result<Vec<usize>> {
     let mut output_to_layer: HashMap<&str, usize> = HashMap::new();
     for (idx, layer) in layers.iter().enumerate() {
-        for out in &layer.outputs {
+        // an empty name marks an unused output, not a tensor
+        for out in layer.outputs.iter().filter(|out| !out.is_empty()) {
             output_to_layer.insert(out.as_str(), idx);
         }
     }
-- 
2.43.0


From be5643db3db8bf88392c190ca7064fc175b3b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:00 +0000
Subject: [PATCH 07/48] fix: refuse tensors whose values are stored in an
 external file

---
 rust/jstprove_onnx/src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/parser.rs b/rust/jstprove_onnx/src/parser.rs
index 8fe2bd9..b4d5fc4 100644
--- a/rust/jstprove_onnx/src/parser.rs
+++ b/rust/jstprove_onnx/src/parser.rs
@@ -5,7 +5,7 @@ use anyhow::{bail, Context, Result};
 use prost::Message;
 
 use super::attribute_proto::AttributeType;
-use super::tensor_proto::DataType;
+use super::tensor_proto::{DataLocation, DataType};
 use super::{AttributeProto, GraphProto, ModelProto, TensorProto};
 
 pub struct ParsedModel {
@@ -92,6 +92,9 @@ fn parse_initializers(graph: &GraphProto) -> Result<HashMap<String, TensorData>>
 
 fn extract_tensor_data(tensor: &TensorProto) -> Result<TensorData> {
     let name = tensor.name.clone().unwrap_or_default();
+    if tensor.data_location == Some(DataLocation::External as i32) {
+        bail!("tensor {name:?} stores its values in an external file, which is not supported");
+    }
     let dims = tensor.dims.clone();
     let data_type = tensor.data_type.unwrap_or(0);
     let dt = DataType::try_from(data_type).unwrap_or(DataType::Undefined);
-- 
2.43.0


From d3268d8db7843c0b31c369afac69ab60e25b235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:00 +0000
Subject: [PATCH 08/48] fix: read tensor values stored as uint64_data instead
 of dropping them

---
 rust/jstprove_onnx/src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/jstprove_onnx/src/parser.rs b/rust/jstprove_onnx/src/parser.rs
index b4d5fc4..e75286a 100644
--- a/rust/jstprove_onnx/src/parser.rs
+++ b/rust/jstprove_onnx/src/parser.rs
@@ -136,6 +136,9 @@ fn extract_tensor_data(tensor: &TensorProto) -> Result<TensorData> {
         float_data.extend(tensor.double_data.iter().copied());
         int_data.extend(tensor.int32_data.iter().map(|i| *i as i64));
         int_data.extend(tensor.int64_data.iter().copied());
+        for &v in &tensor.uint64_data {
+            int_data.push(i64::try_from(v).context("uint64 tensor value out of range")?);
+        }
     }
 
     Ok(TensorData {
-- 
2.43.0


From 6f155bf07db45ff24eb0509a8ae855feaf193102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:00 +0000
Subject: [PATCH 09/48] fix: refuse raw tensor data that ends within an element

---
 rust/jstprove_onnx/src/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rust/jstprove_onnx/src/parser.rs b/rust/jstprove_onnx/src/parser.rs
index e75286a..1dea893 100644
--- a/rust/jstprove_onnx/src/parser.rs
+++ b/rust/jstprove_onnx/src/parser.rs
@@ -103,6 +103,14 @@ fn extract_tensor_data(tensor: &TensorProto) -> Result<TensorData> {
     let mut int_data = Vec::new();
 
     if let Some(ref raw) = tensor.raw_data {
+        let elem_size = match dt {
+            DataType::Float | DataType::Int32 => 4,
+            DataType::Double | DataType::Int64 => 8,
+            _ => 1,
+        };
+        if raw.len() % elem_size != 0 {
+            bail!("raw_data of tensor {name:?} ends within an element");
+        }
         match dt {
             DataType::Float => {
                 for chunk in raw.chunks_exact(4) {
-- 
2.43.0


From 9478bf86ee1ea0acce1997330a12226076ab8fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 10/48] fix: give unnamed convolutions distinct zero biases

---
 rust/jstprove_onnx/src/compat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/jstprove_onnx/src/compat.rs b/rust/jstprove_onnx/src/compat.rs
index b7b1675..9e7ce2d 100644
--- a/rust/jstprove_onnx/src/compat.rs
+++ b/rust/jstprove_onnx/src/compat.rs
@@ -124,6 +124,7 @@ pub fn add_zero_bias_to_conv(path: &Path, output_path: &Path) -> Result<()> {
         let node_id = node
             .name
             .clone()
+            .filter(|name| !name.is_empty())
             .or_else(|| node.output.first().cloned())
             .unwrap_or_else(|| weight_name.clone());
         let bias_name = format!("{node_id}_zero_bias");
-- 
2.43.0


From a5e11d7cf9ab5be1cb30004bd60e9ca83218454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 11/48] fix: size the zero bias of a half-precision convolution
 correctly

---
 rust/jstprove_onnx/src/compat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/jstprove_onnx/src/compat.rs b/rust/jstprove_onnx/src/compat.rs
index 9e7ce2d..d8fb0c5 100644
--- a/rust/jstprove_onnx/src/compat.rs
+++ b/rust/jstprove_onnx/src/compat.rs
@@ -132,6 +132,7 @@ pub fn add_zero_bias_to_conv(path: &Path, output_path: &Path) -> Result<()> {
         let data_type = weight_init.and_then(|i| i.data_type).unwrap_or(1);
         let raw_data = match DataType::try_from(data_type) {
             Ok(DataType::Double) => vec![0u8; out_channels * 8],
+            Ok(DataType::Float16 | DataType::Bfloat16) => vec![0u8; out_channels * 2],
             _ => vec![0u8; out_channels * 4],
         };
 
-- 
2.43.0


From bf2ff324be1587b0432e4c9dbc29c782c2ae5bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 12/48] fix: refuse convolution and pooling layers with
 implicit padding

---
 rust/jstprove_onnx/src/shape_inference.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 7dde0bb..6a6aa9b 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -670,6 +670,17 @@ fn nonneg_to_usize(vals: &[i64], attr: &str, layer_name: &str) -> Result<Vec<usi
         .collect()
 }
 
+/// Only explicit pads are implemented, so a layer that asks for implicit ones is
+/// refused instead of being given the wrong size.
+fn ensure_explicit_padding(layer: &LayerNode) -> Result<()> {
+    if let Some(auto_pad) = layer.get_string_attr("auto_pad") {
+        if !matches!(auto_pad, "" | "NOTSET" | "VALID") {
+            bail!("layer {}: auto_pad={auto_pad} is not supported", layer.name);
+        }
+    }
+    Ok(())
+}
+
 fn infer_layer_output_shape(
     layer: &LayerNode,
     shapes: &HashMap<String, Vec<usize>>,
@@ -827,6 +838,7 @@ fn infer_conv(
         .first()
         .and_then(|n| get_shape(shapes, n))
         .ok_or_else(|| anyhow::anyhow!("layer {}: Conv missing input shape", layer.name))?;
+    ensure_explicit_padding(layer)?;
 
     let weight_shape = layer
         .inputs
@@ -1063,6 +1075,7 @@ fn infer_maxpool(
 ) -> Result<Vec<(String, Vec<usize>)>> {
     let input_shape = input_shape
         .ok_or_else(|| anyhow::anyhow!("layer {}: MaxPool missing input shape", layer.name))?;
+    ensure_explicit_padding(layer)?;
 
     let kernel_raw = layer
         .get_ints_attr("kernel_shape")
@@ -2856,6 +2869,7 @@ fn infer_conv_transpose(
             2 * spatial_dims
         );
     }
+    ensure_explicit_padding(layer)?;
     if dilations.len() != spatial_dims {
         bail!(
             "layer {}: ConvTranspose dilations length {} != spatial_dims {}",
-- 
2.43.0


From ff18f4edfa368a8adc8029371f6d3ee03c614807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 13/48] fix: refuse pooling layers that would need ceil
 rounding

---
 rust/jstprove_onnx/src/shape_inference.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 6a6aa9b..625bacd 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -1117,6 +1117,7 @@ fn infer_maxpool(
         );
     }
 
+    let ceil_mode = layer.get_int_attr("ceil_mode").unwrap_or(0) != 0;
     let mut out_shape = vec![input_shape[0], input_shape[1]];
     for i in 0..spatial_dims {
         let in_dim = input_shape[2 + i];
@@ -1135,6 +1136,12 @@ fn infer_maxpool(
                 k = kernel[i]
             );
         }
+        if ceil_mode && (padded - kernel[i]) % strides[i] != 0 {
+            bail!(
+                "layer {}: ceil_mode=1 is not supported at spatial dim {i}",
+                layer.name
+            );
+        }
         let out_dim = (padded - kernel[i]) / strides[i] + 1;
         out_shape.push(out_dim);
     }
-- 
2.43.0


From c3da3490a9a8781a9eb3c8cb5c8779500e824bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 14/48] fix: honour dilations when inferring pooling shapes

---
 rust/jstprove_onnx/src/shape_inference.rs | 26 ++++++++++++++++-------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index 625bacd..af53175 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -1099,6 +1099,12 @@ fn infer_maxpool(
         vec![0; kernel.len() * 2]
     };
 
+    let dilations = if let Some(v) = layer.get_ints_attr("dilations") {
+        nonneg_to_usize(v, "dilations", &layer.name)?
+    } else {
+        vec![1; kernel.len()]
+    };
+
     let spatial_dims = kernel.len();
 
     if input_shape.len() < 2 + spatial_dims {
@@ -1108,11 +1114,15 @@ fn infer_maxpool(
             input_shape.len()
         );
     }
-    if pads.len() < 2 * spatial_dims || strides.len() < spatial_dims {
+    if pads.len() < 2 * spatial_dims
+        || dilations.len() < spatial_dims
+        || strides.len() < spatial_dims
+    {
         bail!(
-            "layer {}: MaxPool attribute length mismatch: pads={} strides={} spatial_dims={spatial_dims}",
+            "layer {}: MaxPool attribute length mismatch: pads={} dilations={} strides={} spatial_dims={spatial_dims}",
             layer.name,
             pads.len(),
+            dilations.len(),
             strides.len()
         );
     }
@@ -1129,20 +1139,20 @@ fn infer_maxpool(
                 layer.name
             );
         }
-        if padded < kernel[i] {
+        let effective_kernel = (kernel[i] - 1) * dilations[i] + 1;
+        if padded < effective_kernel {
             bail!(
-                "layer {}: MaxPool padded input {padded} < kernel {k} at spatial dim {i}",
-                layer.name,
-                k = kernel[i]
+                "layer {}: MaxPool padded input {padded} < effective kernel {effective_kernel} at spatial dim {i}",
+                layer.name
             );
         }
-        if ceil_mode && (padded - kernel[i]) % strides[i] != 0 {
+        if ceil_mode && (padded - effective_kernel) % strides[i] != 0 {
             bail!(
                 "layer {}: ceil_mode=1 is not supported at spatial dim {i}",
                 layer.name
             );
         }
-        let out_dim = (padded - kernel[i]) / strides[i] + 1;
+        let out_dim = (padded - effective_kernel) / strides[i] + 1;
         out_shape.push(out_dim);
     }
 
-- 
2.43.0


From 4261c6ecadb35675c8a24cecba54c6997a2ead11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:07 +0000
Subject: [PATCH 15/48] fix: bound Max, Min and Clip by all their operands

The bit width of a comparison was derived from the first operand alone, so
Max(x, 1000) or a ReLU6 style Clip got too few bits for its other operands.
---
 rust/jstprove_onnx/src/quantizer.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 02455b3..0abca34 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1510,13 +1510,17 @@ fn compute_layer_bound(
             let m_in = get_input_bound(0);
             Ok(m_in)
         }
-        OpType::MaxPool | OpType::Max | OpType::Min => {
+        OpType::MaxPool => {
             let m_in = get_input_bound(0);
             Ok(m_in)
         }
-        OpType::Clip => {
-            let m_in = get_input_bound(0);
-            Ok(m_in)
+        // Every operand is compared with the others, so the largest one sets the range.
+        OpType::Max | OpType::Min | OpType::Clip => {
+            let mut max_bound = 0.0_f64;
+            for i in 0..layer.inputs.len() {
+                max_bound = max_bound.max(get_input_bound(i));
+            }
+            Ok(max_bound)
         }
         OpType::Cast
         | OpType::Reshape
-- 
2.43.0


From 3146e3fdd8d238a3dbcabe4468e1b075a7f1fbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:07 +0000
Subject: [PATCH 16/48] fix: bound a Constant node by its values

Mul(x, Constant(1000)) was given the bit width of Mul(x, Constant(1)), while
the same tensor as an initializer was bounded by its values.
---
 rust/jstprove_onnx/src/quantizer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 0abca34..44b132b 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1786,7 +1786,14 @@ fn compute_layer_bound(
             let m_in = get_input_bound(0);
             Ok(m_in)
         }
-        OpType::Constant => Ok(1.0),
+        OpType::Constant => match layer.attributes.get("value") {
+            Some(AttrValue::Tensor(td)) => Ok(td
+                .as_f64_vec()
+                .iter()
+                .map(|v| v.abs())
+                .fold(1.0_f64, f64::max)),
+            _ => Ok(1.0),
+        },
         OpType::HardSwish => {
             let m_in = get_input_bound(0);
             Ok(m_in)
-- 
2.43.0


From 6bbf1a18f1099f555a5bbdce89a014cbed00629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:07 +0000
Subject: [PATCH 17/48] fix: layers that share a name get the widest of their
 bit widths

Bit widths are recorded by layer name, and ONNX node names may be empty or
repeat: the last layer of a name decided the width of all of them.
---
 rust/jstprove_onnx/src/quantizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 44b132b..af7eb47 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1300,7 +1300,10 @@ fn compute_bounds(graph: &LayerGraph, config: &ScaleConfig) -> Result<HashMap<St
                 );
             }
             let n_bits = compute_n_bits(alpha, bound);
-            n_bits_config.insert(layer.name.clone(), n_bits);
+            // ONNX node names are optional and need not be unique: layers that
+            // share a name share the widest of their bit widths.
+            let recorded = n_bits_config.entry(layer.name.clone()).or_insert(n_bits);
+            *recorded = n_bits.max(*recorded);
         }
 
         // TopK output[0] = values (bound = m_in), output[1] = indices
-- 
2.43.0


From 4a0da130b1840af24f900052a0852a3f3ef647c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:25 +0000
Subject: [PATCH 18/48] fix: trace the quantizer's shapes with the batch
 dimension

The tracer seeded batch-less input shapes but interprets dimensions 0 and 1 as
N and C and axes as ONNX axes. A convolution or pooling followed by a Reshape
to the right number of elements was refused, and ReduceSum over a positive
axis counted the elements of the next axis, giving too few bits.
---
 rust/jstprove_onnx/src/quantizer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index af7eb47..9e86188 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -417,8 +417,15 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
     let mut shapes: HashMap<String, Vec<usize>> = HashMap::new();
 
     // Seed with model-level input shapes.
+    // `input_shapes` leaves out the batch dimension of inputs of rank two and
+    // more, while the operators below count their dimensions and axes with it.
+    // A single remaining dimension may also be a rank one input: it is kept.
     for (name, shape) in &graph.input_shapes {
-        shapes.insert(name.clone(), shape.clone());
+        let mut shape = shape.clone();
+        if shape.len() >= 2 {
+            shape.insert(0, 1);
+        }
+        shapes.insert(name.clone(), shape);
     }
 
     // Seed with all weight tensor shapes.
-- 
2.43.0


From 9f47ebe89e4cb64d89dc105c3455c6ca34f1b9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:25 +0000
Subject: [PATCH 19/48] fix: trace the broadcast shape of elementwise operators

The first operand's shape was taken for the result, so ReduceSum over c + x
with a scalar c counted a single element and got too few bits.
---
 rust/jstprove_onnx/src/quantizer.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 9e86188..211ac7a 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -915,6 +915,22 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                     vec![]
                 }
             }
+            // Elementwise operators: numpy-style broadcast of all operands.
+            OpType::Add
+            | OpType::Sub
+            | OpType::Mul
+            | OpType::Div
+            | OpType::Pow
+            | OpType::Max
+            | OpType::Min
+            | OpType::And
+            | OpType::Equal
+            | OpType::Greater
+            | OpType::Less => layer
+                .inputs
+                .iter()
+                .filter_map(|n| shapes.get(n.as_str()))
+                .fold(vec![], |out, s| broadcast_two(&out, s)),
             // Gemm: [M, K] x [K, N] → [M, N] (with optional transA/transB).
             OpType::Gemm => {
                 let trans_a = layer.get_int_attr("transA").unwrap_or(0) != 0;
-- 
2.43.0


From 7eea39eaa03230274a05b5abd4ec7e0b9adee42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:35 +0000
Subject: [PATCH 20/48] fix: trace Gemm, MatMul and Flatten of a batch-less row

A model whose input is [1, K] is traced as [K]; Gemm and MatMul then kept the
input's shape and Flatten put the row in the wrong dimension, so a Reshape of
the result to the right number of elements was refused.
---
 rust/jstprove_onnx/src/quantizer.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 211ac7a..fd7aabb 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -536,6 +536,12 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                         out.push(*b.last().unwrap()); // N
                         out
                     }
+                    // A vector (or a batch-less row): [K] × [.., K, N] → [.., N].
+                    (Some(a), Some(b)) if a.len() == 1 && b.len() >= 2 => {
+                        let mut out = b[..b.len() - 2].to_vec();
+                        out.push(*b.last().unwrap()); // N
+                        out
+                    }
                     _ => input_shape.unwrap_or_default(),
                 }
             }
@@ -943,6 +949,10 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                         let n = if trans_b { b[0] } else { b[1] };
                         vec![m, n]
                     }
+                    // A batch-less row: [K] x [K, N] → [N].
+                    (Some(a), Some(b)) if a.len() == 1 && b.len() == 2 => {
+                        vec![if trans_b { b[0] } else { b[1] }]
+                    }
                     _ => input_shape.unwrap_or_default(),
                 }
             }
@@ -951,7 +961,9 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                 if let Some(ref in_shape) = input_shape {
                     let axis_raw = layer.get_int_attr("axis").unwrap_or(1);
                     let rank = in_shape.len();
-                    let axis = if axis_raw < 0 {
+                    let axis = if rank == 1 {
+                        0 // a batch-less row
+                    } else if axis_raw < 0 {
                         (axis_raw + rank as i64).max(0) as usize
                     } else {
                         (axis_raw as usize).min(rank)
-- 
2.43.0


From a39fe1d762b97ce7b53aeb3fed6b112d8b5944de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:41 +0000
Subject: [PATCH 21/48] fix: trace the shape of ReduceMean and ReduceMax like
 that of ReduceSum

Both kept their input's shape, so a Reshape of the reduced tensor to the right
number of elements was refused.
---
 rust/jstprove_onnx/src/quantizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index fd7aabb..ee4267b 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -454,7 +454,7 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
             .cloned();
 
         let out_shape: Vec<usize> = match layer.op_type {
-            OpType::ReduceSum => {
+            OpType::ReduceSum | OpType::ReduceMean | OpType::ReduceMax => {
                 // Compute the output shape from axes + keepdims.
                 if let Some(ref in_shape) = input_shape {
                     let rank = in_shape.len();
-- 
2.43.0


From ff18bb75c6718e5132fc9b9dcc795d2f83dabbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:41 +0000
Subject: [PATCH 22/48] fix: trace the dilations of pooling in the quantizer

A dilated MaxPool followed by a Reshape to the right number of elements was
refused.
---
 rust/jstprove_onnx/src/quantizer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index ee4267b..5a0f55c 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -724,6 +724,10 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                             .get_ints_attr("pads")
                             .map(|v| v.iter().map(|&p| p.max(0) as usize).collect())
                             .unwrap_or_else(|| vec![0; kernel.len() * 2]);
+                        let dilations: Vec<usize> = layer
+                            .get_ints_attr("dilations")
+                            .map(|v| v.iter().map(|&d| d.max(1) as usize).collect())
+                            .unwrap_or_else(|| vec![1; kernel.len()]);
                         let spatial_dims = kernel.len();
                         let mut out = in_shape[..2].to_vec();
                         for i in 0..spatial_dims {
@@ -732,8 +736,9 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                             let s = strides.get(i).copied().unwrap_or(1).max(1);
                             let ph = pads.get(i).copied().unwrap_or(0);
                             let pe = pads.get(spatial_dims + i).copied().unwrap_or(0);
+                            let d = dilations.get(i).copied().unwrap_or(1).max(1);
                             let padded = in_d + ph + pe;
-                            let out_d = padded.saturating_sub(k) / s + 1;
+                            let out_d = padded.saturating_sub((k - 1) * d + 1) / s + 1;
                             out.push(out_d);
                         }
                         out
-- 
2.43.0


From 736235dc72357b99cf3248dab7fc135d65f81c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:41 +0000
Subject: [PATCH 23/48] fix: trace GatherElements as the shape of its indices

The data's shape was taken for the result, so a Reshape of the result to the
right number of elements was refused.
---
 rust/jstprove_onnx/src/quantizer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 5a0f55c..ad6b86a 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1101,6 +1101,14 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                     vec![]
                 }
             }
+            // GatherElements: the shape of the indices.
+            OpType::GatherElements => layer
+                .inputs
+                .get(1)
+                .and_then(|n| shapes.get(n.as_str()))
+                .cloned()
+                .or(input_shape)
+                .unwrap_or_default(),
             // Gather: index along axis — output has shape with axis dim replaced.
             OpType::Gather => {
                 if let Some(ref in_shape) = input_shape {
-- 
2.43.0


From 49bdd6efe9f59f4a2e608d0c716c25d82193be0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:22 +0000
Subject: [PATCH 24/48] fix: trace the shapes of Resize and GridSample in the
 quantizer

Both kept their input's shape, so a Reshape of the result to the right number
of elements was refused and a ReduceSum of it counted too few elements.
---
 rust/jstprove_onnx/src/quantizer.rs | 33 +++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index ad6b86a..fd333ba 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -1101,6 +1101,39 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                     vec![]
                 }
             }
+            // Resize: the constant sizes, or the scaled input dims.
+            OpType::Resize => match input_shape {
+                Some(in_shape) => {
+                    let weight = |i: usize| {
+                        let name = layer.inputs.get(i)?;
+                        layer.weights.get(name.as_str())
+                    };
+                    let sizes = weight(3).map(TensorData::as_i64_vec).unwrap_or_default();
+                    let scales = weight(2).map(TensorData::as_f64_vec).unwrap_or_default();
+                    if sizes.len() == in_shape.len() {
+                        sizes.iter().map(|&s| s.max(0) as usize).collect()
+                    } else if scales.len() == in_shape.len() {
+                        in_shape
+                            .iter()
+                            .zip(scales.iter())
+                            .map(|(&d, &s)| (d as f64 * s).floor() as usize)
+                            .collect()
+                    } else {
+                        in_shape
+                    }
+                }
+                None => vec![],
+            },
+            // GridSample: [N, C, H, W] sampled at [N, H_out, W_out, 2] → [N, C, H_out, W_out].
+            OpType::GridSample => {
+                let grid = layer.inputs.get(1).and_then(|n| shapes.get(n.as_str()));
+                match (input_shape, grid) {
+                    (Some(x), Some(g)) if x.len() == 4 && g.len() == 4 => {
+                        vec![x[0], x[1], g[1], g[2]]
+                    }
+                    (x, _) => x.unwrap_or_default(),
+                }
+            }
             // GatherElements: the shape of the indices.
             OpType::GatherElements => layer
                 .inputs
-- 
2.43.0


From 4477ad5514294c0672d0a296d8706113d5a1b50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:38 +0000
Subject: [PATCH 25/48] fix: tell folded batch normalisations apart by their
 outputs

---
 rust/jstprove_onnx/src/quantizer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index fd333ba..ce8bc11 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -251,8 +251,10 @@ fn fold_batchnorm_params(layer: &mut LayerNode) -> Result<()> {
         add.push(bias[i] - mean[i] * m);
     }
 
-    let mul_tensor_name = format!("{}_folded_mul", layer.name);
-    let add_tensor_name = format!("{}_folded_add", layer.name);
+    // ONNX node names are optional and need not be unique: outputs are.
+    let layer_id = layer.outputs.first().unwrap_or(&layer.name);
+    let mul_tensor_name = format!("{layer_id}_folded_mul");
+    let add_tensor_name = format!("{layer_id}_folded_add");
 
     layer.weights.insert(
         mul_tensor_name.clone(),
-- 
2.43.0


From 720fa3354641e235d54920e72facc8ec8f57f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:06 +0000
Subject: [PATCH 26/48] fix: trace a concatenation of scalars or untraced
 tensors

---
 rust/jstprove_onnx/src/quantizer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index ce8bc11..2d6af1f 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -701,10 +701,13 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                         (axis as usize).min(rank.saturating_sub(1))
                     };
                     let mut out = (*first).clone();
-                    out[ax] = in_shapes
-                        .iter()
-                        .map(|s| s.get(ax).copied().unwrap_or(0))
-                        .sum();
+                    // an untraced or scalar operand has no such dimension
+                    if let Some(dim) = out.get_mut(ax) {
+                        *dim = in_shapes
+                            .iter()
+                            .map(|s| s.get(ax).copied().unwrap_or(0))
+                            .sum();
+                    }
                     out
                 } else {
                     input_shape.unwrap_or_default()
-- 
2.43.0


From 94c72f394e30d903b03803f101569e5f6c09d29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:52 +0000
Subject: [PATCH 27/48] fix: reduce over an empty or absent axes list as
 noop_with_empty_axes says

---
 rust/jstprove_onnx/src/quantizer.rs       | 5 ++++-
 rust/jstprove_onnx/src/shape_inference.rs | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/quantizer.rs b/rust/jstprove_onnx/src/quantizer.rs
index 2d6af1f..761bfe9 100644
--- a/rust/jstprove_onnx/src/quantizer.rs
+++ b/rust/jstprove_onnx/src/quantizer.rs
@@ -493,9 +493,12 @@ fn propagate_shapes(graph: &LayerGraph) -> Result<HashMap<String, Vec<usize>>> {
                             None => {
                                 // Fallback: try attributes.
                                 match layer.attributes.get("axes") {
-                                    Some(AttrValue::Ints(v)) => {
+                                    Some(AttrValue::Ints(v)) if !v.is_empty() => {
                                         v.iter().map(|&a| normalize_axis(a)).collect()
                                     }
+                                    _ if layer.get_int_attr("noop_with_empty_axes") == Some(1) => {
+                                        vec![]
+                                    }
                                     // No axes = reduce all.
                                     _ => (0..rank).collect(),
                                 }
diff --git a/rust/jstprove_onnx/src/shape_inference.rs b/rust/jstprove_onnx/src/shape_inference.rs
index af53175..d0731b4 100644
--- a/rust/jstprove_onnx/src/shape_inference.rs
+++ b/rust/jstprove_onnx/src/shape_inference.rs
@@ -2400,9 +2400,12 @@ fn infer_reduce(
         );
     }
 
+    // Absent and empty axes alike reduce over every axis, or over none with
+    // noop_with_empty_axes.
     let axes: Vec<usize> = if let Some(raw_axes) = axes_from_input
         .as_deref()
         .or_else(|| layer.get_ints_attr("axes"))
+        .filter(|raw_axes| !raw_axes.is_empty())
     {
         raw_axes
             .iter()
@@ -2419,6 +2422,8 @@ fn infer_reduce(
                 Ok(a as usize)
             })
             .collect::<Result<Vec<usize>>>()?
+    } else if layer.get_int_attr("noop_with_empty_axes").unwrap_or(0) != 0 {
+        Vec::new()
     } else {
         (0..rank).collect()
     };
-- 
2.43.0


From 4198b8cba5d25c1cdab2bae31f9ebe31b1436677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:01 +0000
Subject: [PATCH 28/48] fix: treat an omitted bias (empty name) of Gemm and
 Conv as no bias

---
 rust/jstprove_onnx/src/layer_params.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_onnx/src/layer_params.rs b/rust/jstprove_onnx/src/layer_params.rs
index f0a9fd7..0b1a4b7 100644
--- a/rust/jstprove_onnx/src/layer_params.rs
+++ b/rust/jstprove_onnx/src/layer_params.rs
@@ -25,7 +25,7 @@ impl GemmParams {
             .get(1)
             .ok_or_else(|| anyhow::anyhow!("Gemm {} has no weight", layer.name))?
             .clone();
-        let bias_tensor_name = layer.inputs.get(2).cloned();
+        let bias_tensor_name = layer.inputs.get(2).filter(|n| !n.is_empty()).cloned();
 
         let trans_a = layer
             .get_int_attr("transA")
@@ -108,7 +108,7 @@ impl ConvParams {
             .get(1)
             .ok_or_else(|| anyhow::anyhow!("Conv {} has no weight", layer.name))?
             .clone();
-        let bias_tensor_name = layer.inputs.get(2).cloned();
+        let bias_tensor_name = layer.inputs.get(2).filter(|n| !n.is_empty()).cloned();
 
         let weight_data = layer.weights.get(&weight_tensor_name).ok_or_else(|| {
             anyhow::anyhow!("Conv {} missing weight {}", layer.name, weight_tensor_name)
-- 
2.43.0


From e6d45dacdeee77a581e1928b48e2a1738dd0b281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:01 +0000
Subject: [PATCH 29/48] fix: refuse Gemm factors alpha and beta other than one
 instead of ignoring them

---
 rust/jstprove_onnx/src/layer_params.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rust/jstprove_onnx/src/layer_params.rs b/rust/jstprove_onnx/src/layer_params.rs
index 0b1a4b7..c5d361e 100644
--- a/rust/jstprove_onnx/src/layer_params.rs
+++ b/rust/jstprove_onnx/src/layer_params.rs
@@ -40,6 +40,16 @@ impl GemmParams {
             .get_int_attr("transB")
             .map(|v| v != 0)
             .unwrap_or(false);
+        for factor in ["alpha", "beta"] {
+            let value = layer.get_float_attr(factor).unwrap_or(1.0);
+            ensure!(
+                value == 1.0,
+                "Gemm {} has {}={} which is not supported",
+                layer.name,
+                factor,
+                value
+            );
+        }
 
         let weight_data = layer.weights.get(&weight_tensor_name).ok_or_else(|| {
             anyhow::anyhow!("Gemm {} missing weight {}", layer.name, weight_tensor_name)
-- 
2.43.0


From 765dd35622d5627c4e1517728b70524edfea529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:01 +0000
Subject: [PATCH 30/48] fix: refuse dilations, auto_pad and ceil_mode the
 window sizes do not account for

---
 rust/jstprove_onnx/src/layer_params.rs | 31 ++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/rust/jstprove_onnx/src/layer_params.rs b/rust/jstprove_onnx/src/layer_params.rs
index c5d361e..16cc004 100644
--- a/rust/jstprove_onnx/src/layer_params.rs
+++ b/rust/jstprove_onnx/src/layer_params.rs
@@ -81,6 +81,28 @@ impl GemmParams {
     }
 }
 
+/// The output sizes below hold for explicit pads and undilated windows only.
+fn ensure_plain_window(op: &str, layer: &LayerNode) -> Result<()> {
+    let auto_pad = layer.get_string_attr("auto_pad").unwrap_or("NOTSET");
+    ensure!(
+        matches!(auto_pad, "" | "NOTSET" | "VALID"),
+        "{} {}: auto_pad={} is not supported",
+        op,
+        layer.name,
+        auto_pad
+    );
+    let dilated = layer
+        .get_ints_attr("dilations")
+        .is_some_and(|d| d.iter().any(|&v| v != 1));
+    ensure!(
+        !dilated,
+        "{} {}: dilations are not supported",
+        op,
+        layer.name
+    );
+    Ok(())
+}
+
 pub struct ConvParams {
     pub input_name: String,
     pub weight_tensor_name: String,
@@ -144,6 +166,8 @@ impl ConvParams {
             group
         );
 
+        ensure_plain_window("Conv", layer)?;
+
         ensure!(
             input_ch == c_in,
             "Conv {}: weight c_in {} does not match input channels {}",
@@ -297,6 +321,13 @@ impl MaxPoolParams {
             layer.name
         );
 
+        ensure_plain_window("MaxPool", layer)?;
+        ensure!(
+            layer.get_int_attr("ceil_mode").unwrap_or(0) == 0,
+            "MaxPool {}: ceil_mode is not supported",
+            layer.name
+        );
+
         ensure!(
             in_h >= pool_h && in_w >= pool_w,
             "MaxPool {}: input {}x{} smaller than kernel {}x{}",
-- 
2.43.0


From ae05df0616290ebec70c7a9c45f48bb615b4854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:01 +0000
Subject: [PATCH 31/48] fix: refuse an unfolded batch normalisation instead of
 reading its scale and bias as factors

---
 rust/jstprove_onnx/src/layer_params.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust/jstprove_onnx/src/layer_params.rs b/rust/jstprove_onnx/src/layer_params.rs
index 16cc004..ceafcb2 100644
--- a/rust/jstprove_onnx/src/layer_params.rs
+++ b/rust/jstprove_onnx/src/layer_params.rs
@@ -384,6 +384,11 @@ impl BatchNormParams {
             .get(2)
             .ok_or_else(|| anyhow::anyhow!("BatchNorm {} missing add input", layer.name))?
             .clone();
+        ensure!(
+            layer.inputs.len() < 5,
+            "BatchNorm {} has not been folded into a multiplication and an addition",
+            layer.name
+        );
         Ok(Self {
             input_name,
             mul_tensor_name,
-- 
2.43.0


From b3adb66d49090185bfddefef312f994b7f7a0f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:53 +0000
Subject: [PATCH 32/48] fix: par_verify parses GKR^2 proofs with their own
 round degrees and without phase two

---
 prover/gkr/src/verifier/snark.rs   |  9 ++-------
 prover/gkr/src/verifier/structs.rs | 24 ++++++++++++++++++------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/prover/gkr/src/verifier/snark.rs b/prover/gkr/src/verifier/snark.rs
index c067db1..505d064 100644
--- a/prover/gkr/src/verifier/snark.rs
+++ b/prover/gkr/src/verifier/snark.rs
@@ -14,7 +14,7 @@ use rayon::iter::{
     IndexedParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelIterator,
 };
 use serdes::ExpSerde;
-use sumcheck::{VerifierScratchPad, SUMCHECK_GKR_DEGREE, SUMCHECK_GKR_SQUARE_DEGREE};
+use sumcheck::VerifierScratchPad;
 use transcript::transcript_verifier_sync;
 use utils::timer::Timer;
 
@@ -158,16 +158,11 @@ impl<Cfg: GKREngine> Verifier<Cfg> {
         Option<<Cfg::FieldConfig as FieldEngine>::ChallengeField>,
     ) {
         let parse_proof_timer = Timer::new("parse_proof", true);
-        let xy_var_degree = match Cfg::SCHEME {
-            GKRScheme::Vanilla => SUMCHECK_GKR_DEGREE,
-            GKRScheme::GkrSquare => SUMCHECK_GKR_SQUARE_DEGREE,
-        };
-
         let (mut verification_units, challenge, claim_x, claim_y, parse_ok) = parse_proof(
             &mut proof_reader,
             circuit,
             proving_time_mpi_size,
-            xy_var_degree,
+            Cfg::SCHEME,
             *claimed_v,
             transcript,
         );
diff --git a/prover/gkr/src/verifier/structs.rs b/prover/gkr/src/verifier/structs.rs
index 8bc9436..3e198f3 100644
--- a/prover/gkr/src/verifier/structs.rs
+++ b/prover/gkr/src/verifier/structs.rs
@@ -2,8 +2,10 @@ use std::io::{Cursor, Read};
 
 use arith::{ExtensionField, SimdField};
 use circuit::Circuit;
-use gkr_engine::{ExpanderDualVarChallenge, ExpanderSingleVarChallenge, FieldEngine, Transcript};
-use sumcheck::SUMCHECK_GKR_SIMD_MPI_DEGREE;
+use gkr_engine::{
+    ExpanderDualVarChallenge, ExpanderSingleVarChallenge, FieldEngine, GKRScheme, Transcript,
+};
+use sumcheck::{SUMCHECK_GKR_DEGREE, SUMCHECK_GKR_SIMD_MPI_DEGREE, SUMCHECK_GKR_SQUARE_DEGREE};
 use transcript::RandomTape;
 
 // ================ Structured Claims ================
@@ -79,7 +81,7 @@ pub fn parse_proof<F: FieldEngine>(
     mut proof_reader: impl Read,
     circuit: &Circuit<F>,
     proving_time_mpi_size: usize,
-    xy_var_degree: usize,
+    scheme: GKRScheme,
     claimed_v: F::ChallengeField,
     transcript: &mut impl Transcript,
 ) -> (
@@ -100,6 +102,16 @@ pub fn parse_proof<F: FieldEngine>(
     };
     let n_output_vars = last_layer.output_var_num;
 
+    // GKR^2 uses one degree for every round and has no phase two
+    let (xy_var_degree, simd_mpi_var_degree, has_phase_two) = match scheme {
+        GKRScheme::Vanilla => (SUMCHECK_GKR_DEGREE, SUMCHECK_GKR_SIMD_MPI_DEGREE, true),
+        GKRScheme::GkrSquare => (
+            SUMCHECK_GKR_SQUARE_DEGREE,
+            SUMCHECK_GKR_SQUARE_DEGREE,
+            false,
+        ),
+    };
+
     let mut verification_units =
         vec![SumcheckVerificationUnit::<F>::default(); circuit.layers.len()];
     let n_simd_vars = <F::SimdCircuitField as SimdField>::PACK_SIZE.trailing_zeros() as usize;
@@ -150,7 +162,7 @@ pub fn parse_proof<F: FieldEngine>(
         parse_sumcheck_rounds::<F>(
             &mut proof_reader,
             n_simd_vars,
-            SUMCHECK_GKR_SIMD_MPI_DEGREE,
+            simd_mpi_var_degree,
             transcript,
             &mut challenge.r_simd,
             sumcheck_proof,
@@ -161,7 +173,7 @@ pub fn parse_proof<F: FieldEngine>(
         parse_sumcheck_rounds::<F>(
             &mut proof_reader,
             n_mpi_vars,
-            SUMCHECK_GKR_SIMD_MPI_DEGREE,
+            simd_mpi_var_degree,
             transcript,
             &mut challenge.r_mpi,
             sumcheck_proof,
@@ -176,7 +188,7 @@ pub fn parse_proof<F: FieldEngine>(
             &mut ok,
         );
 
-        if !layer.structure_info.skip_sumcheck_phase_two {
+        if has_phase_two && !layer.structure_info.skip_sumcheck_phase_two {
             challenge.rz_1 = Some(vec![]);
             parse_sumcheck_rounds::<F>(
                 &mut proof_reader,
-- 
2.43.0


From f79f074e09ce8811d67331ab94294439542b5bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:31 +0000
Subject: [PATCH 33/48] fix: verify_ref uses the sampled random coefficients in
 GKR^2 circuits

---
 prover/gkr/src/verifier/gkr_square.rs | 27 +++++++++++++++++++++++----
 prover/gkr/src/verifier/snark.rs      |  3 +++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/prover/gkr/src/verifier/gkr_square.rs b/prover/gkr/src/verifier/gkr_square.rs
index af95ee1..2ddfa3d 100644
--- a/prover/gkr/src/verifier/gkr_square.rs
+++ b/prover/gkr/src/verifier/gkr_square.rs
@@ -1,13 +1,15 @@
 use super::{common::try_deserialize_field, verify_sumcheck_step};
 use arith::Field;
 use ark_std::{end_timer, start_timer};
-use circuit::{Circuit, CircuitLayer};
+use circuit::{Circuit, CircuitLayer, RndCoefMap};
 use gkr_engine::{
     ExpanderDualVarChallenge, ExpanderSingleVarChallenge, FieldEngine, FieldType, Transcript,
 };
 use std::io::Read;
 use sumcheck::{GKRVerifierHelper, VerifierScratchPad, SUMCHECK_GKR_SQUARE_DEGREE};
 
+/// With `rnd_map`, the random coefficients are taken from it instead of the circuit.
+#[allow(clippy::too_many_arguments)]
 #[allow(clippy::type_complexity)]
 pub fn gkr_square_verify<C: FieldEngine>(
     proving_time_mpi_size: usize,
@@ -16,6 +18,7 @@ pub fn gkr_square_verify<C: FieldEngine>(
     claimed_v: &C::ChallengeField,
     transcript: &mut impl Transcript,
     mut proof_reader: impl Read,
+    rnd_map: Option<&RndCoefMap<C::CircuitField>>,
     on_layer_verified: Option<&dyn Fn(usize, usize, bool)>,
 ) -> (bool, ExpanderSingleVarChallenge<C>, C::ChallengeField) {
     assert_ne!(
@@ -57,6 +60,7 @@ pub fn gkr_square_verify<C: FieldEngine>(
             &mut sp,
             i == layer_num - 1,
             false,
+            rnd_map.map(|map| (i, map)),
         );
         log::trace!("Layer {i} verified? {cur_verified}");
         verified &= cur_verified;
@@ -82,6 +86,7 @@ pub fn sumcheck_verify_gkr_square_layer<C: FieldEngine>(
     sp: &mut VerifierScratchPad<C>,
     is_output_layer: bool,
     parallel_verify: bool,
+    rnd_coefs: Option<(usize, &RndCoefMap<C::CircuitField>)>,
 ) -> bool {
     // GKR2 with Power5 gate has degree 6 polynomial
     let degree = SUMCHECK_GKR_SQUARE_DEGREE;
@@ -96,7 +101,12 @@ pub fn sumcheck_verify_gkr_square_layer<C: FieldEngine>(
 
     let var_num = layer.input_var_num;
     let mut sum = *current_claim;
-    sum -= GKRVerifierHelper::eval_cst(&layer.const_, public_input, sp);
+    sum -= match rnd_coefs {
+        Some((idx, map)) => {
+            GKRVerifierHelper::eval_cst_ref(&layer.const_, public_input, sp, idx, map)
+        }
+        None => GKRVerifierHelper::eval_cst(&layer.const_, public_input, sp),
+    };
 
     *challenge = ExpanderSingleVarChallenge::default();
     let mut verified = true;
@@ -144,8 +154,17 @@ pub fn sumcheck_verify_gkr_square_layer<C: FieldEngine>(
     verified &= v_ok;
     log::trace!("v_claim: {v_claim:?}");
 
-    sum -= v_claim * GKRVerifierHelper::eval_pow_1(&layer.uni, sp)
-        + v_claim.exp(5) * GKRVerifierHelper::eval_pow_5(&layer.uni, sp);
+    let (pow_1, pow_5) = match rnd_coefs {
+        Some((idx, map)) => (
+            GKRVerifierHelper::eval_pow_1_ref(&layer.uni, sp, idx, map),
+            GKRVerifierHelper::eval_pow_5_ref(&layer.uni, sp, idx, map),
+        ),
+        None => (
+            GKRVerifierHelper::eval_pow_1(&layer.uni, sp),
+            GKRVerifierHelper::eval_pow_5(&layer.uni, sp),
+        ),
+    };
+    sum -= v_claim * pow_1 + v_claim.exp(5) * pow_5;
     transcript.append_field_element(&v_claim);
 
     verified &= sum == C::ChallengeField::ZERO;
diff --git a/prover/gkr/src/verifier/snark.rs b/prover/gkr/src/verifier/snark.rs
index 505d064..9ac232c 100644
--- a/prover/gkr/src/verifier/snark.rs
+++ b/prover/gkr/src/verifier/snark.rs
@@ -124,6 +124,7 @@ impl<Cfg: GKREngine> Verifier<Cfg> {
                     claimed_v,
                     transcript,
                     &mut proof_reader,
+                    None,
                     on_layer_verified,
                 );
 
@@ -230,6 +231,7 @@ impl<Cfg: GKREngine> Verifier<Cfg> {
                             &mut sp,
                             false,
                             true,
+                            None,
                         )
                     })
                     .all(|verified| verified);
@@ -522,6 +524,7 @@ impl<Cfg: GKREngine> Verifier<Cfg> {
                     claimed_v,
                     transcript,
                     &mut proof_reader,
+                    Some(rnd_map),
                     on_layer_verified,
                 );
 
-- 
2.43.0


From fdbbc35afae5a3c89a2a34cd7c78eca8c03343f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 34/48] fix: give added zero biases names that are not in use

---
 rust/jstprove_onnx/src/compat.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_onnx/src/compat.rs b/rust/jstprove_onnx/src/compat.rs
index d8fb0c5..301d0e8 100644
--- a/rust/jstprove_onnx/src/compat.rs
+++ b/rust/jstprove_onnx/src/compat.rs
@@ -97,6 +97,15 @@ pub fn add_zero_bias_to_conv(path: &Path, output_path: &Path) -> Result<()> {
 
     let graph = model.graph.as_mut().context("model has no graph")?;
 
+    let mut used_names: HashSet<String> = graph
+        .node
+        .iter()
+        .flat_map(|n| n.input.iter().chain(&n.output))
+        .chain(graph.initializer.iter().filter_map(|i| i.name.as_ref()))
+        .chain(graph.input.iter().filter_map(|i| i.name.as_ref()))
+        .cloned()
+        .collect();
+
     let mut new_initializers = Vec::new();
 
     for node in &mut graph.node {
@@ -127,7 +136,10 @@ pub fn add_zero_bias_to_conv(path: &Path, output_path: &Path) -> Result<()> {
             .filter(|name| !name.is_empty())
             .or_else(|| node.output.first().cloned())
             .unwrap_or_else(|| weight_name.clone());
-        let bias_name = format!("{node_id}_zero_bias");
+        let mut bias_name = format!("{node_id}_zero_bias");
+        while !used_names.insert(bias_name.clone()) {
+            bias_name.push('_');
+        }
 
         let data_type = weight_init.and_then(|i| i.data_type).unwrap_or(1);
         let raw_data = match DataType::try_from(data_type) {
-- 
2.43.0


From 050a00676dffdd4220275b5cc6c2ef274fb31ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 35/48] fix: keep array sizes of kernel parameters together
 when computing offsets

---
 compiler/expander_compiler/macros/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/expander_compiler/macros/src/lib.rs b/compiler/expander_compiler/macros/src/lib.rs
index fccffc8..c727b2e 100644
--- a/compiler/expander_compiler/macros/src/lib.rs
+++ b/compiler/expander_compiler/macros/src/lib.rs
@@ -372,7 +372,7 @@ fn generate_unflatten_code(
     let mut steps = Vec::with_capacity(dims.len());
     let mut step = quote! { 1 };
     for &dim in dims.iter().skip(1).rev() {
-        step = quote! { #dim * (#step) };
+        step = quote! { (#dim) * (#step) };
         steps.push(step.clone());
     }
     steps.reverse();
@@ -454,7 +454,7 @@ fn generate_flatten_code(
     let mut steps = Vec::with_capacity(dims.len());
     let mut step = quote! { 1 };
     for &dim in dims.iter().skip(1).rev() {
-        step = quote! { #dim * (#step) };
+        step = quote! { (#dim) * (#step) };
         steps.push(step.clone());
     }
     steps.reverse();
-- 
2.43.0


From 1dab8f9476bdfc1324f9b82d4db18c2fd2fc661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 36/48] fix: give different memorized functions different
 sub-circuit keys

---
 compiler/expander_compiler/macros/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/expander_compiler/macros/src/lib.rs b/compiler/expander_compiler/macros/src/lib.rs
index c727b2e..5de50b7 100644
--- a/compiler/expander_compiler/macros/src/lib.rs
+++ b/compiler/expander_compiler/macros/src/lib.rs
@@ -252,6 +252,7 @@ pub fn memorized(_attr: TokenStream, item: TokenStream) -> TokenStream {
 
             let mut hasher = tiny_keccak::Keccak::v256();
             hasher.update(b"memorized");
+            hasher.update(concat!(module_path!(), "::", stringify!(#user_fn_name), ";").as_bytes());
 
             #(#hash_primitive_calls)*
 
-- 
2.43.0


From e3fb6bde2a80b9d6501d58b662de048dcf396ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 37/48] fix: bound memory by the input when reading strings and
 maps

---
 prover/serdes/src/serdes.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/prover/serdes/src/serdes.rs b/prover/serdes/src/serdes.rs
index 26d61a4..97715fb 100644
--- a/prover/serdes/src/serdes.rs
+++ b/prover/serdes/src/serdes.rs
@@ -163,7 +163,7 @@ impl<K: ExpSerde + Eq + Hash, V: ExpSerde> ExpSerde for HashMap<K, V> {
 
     fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
         let len = usize::deserialize_from(&mut reader)?;
-        let mut map = HashMap::with_capacity(len);
+        let mut map = HashMap::new();
         for _ in 0..len {
             let k = K::deserialize_from(&mut reader)?;
             let v = V::deserialize_from(&mut reader)?;
@@ -203,8 +203,11 @@ impl ExpSerde for String {
     }
     fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
         let len = usize::deserialize_from(&mut reader)?;
-        let mut buf = vec![0u8; len];
-        reader.read_exact(&mut buf)?;
+        let mut buf = Vec::new();
+        reader.by_ref().take(len as u64).read_to_end(&mut buf)?;
+        if buf.len() != len {
+            return Err(SerdeError::DeserializeError);
+        }
         String::from_utf8(buf).map_err(|_| SerdeError::DeserializeError)
     }
 }
-- 
2.43.0


From 308161ae530e73371955c69c2858e096a877812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:40 +0000
Subject: [PATCH 38/48] fix: LogUp range proof accepted negative values when
 the width is not a multiple of the chunk size

Only the value shifted to the next chunk boundary was looked up, so a + (2^shift - 1) 2^n in
[0, 2^(n + shift)) let every a >= -(2^shift - 1) 2^n pass.  The chunks of the value itself are now
looked up, and the top one again after a shift that leaves just the bits of the range.  The 128-bit
shift factor no longer overflows for n = 128.
---
 compiler/circuit-std-rs/src/logup.rs | 58 +++++++++-------------------
 1 file changed, 18 insertions(+), 40 deletions(-)

diff --git a/compiler/circuit-std-rs/src/logup.rs b/compiler/circuit-std-rs/src/logup.rs
index 66524ef..d359b10 100644
--- a/compiler/circuit-std-rs/src/logup.rs
+++ b/compiler/circuit-std-rs/src/logup.rs
@@ -368,33 +368,13 @@ impl LogUpRangeProofTable {
             self.rangeproof_onechunk(builder, a, n);
             return;
         }
-        //add a shift value
-        let mut n = n;
-        let mut new_a = a;
-        let rem = n % self.rangeproof_bits;
-        if rem != 0 {
-            let shift = self.rangeproof_bits - rem;
-            let constant = (1 << shift) - 1;
-
-            let mut mul_factor: u128 = 1;
-            mul_factor <<= n;
-            let mul_factor_u256 = U256::new(mul_factor);
-            let mul_factor_var = CircuitField::<C>::from_u256(mul_factor_u256);
-            let mul_factor = builder.constant(mul_factor_var);
-            let a_shift = builder.mul(constant, mul_factor);
-            new_a = builder.add(a, a_shift);
-            n += shift;
-        }
+        let n_chunks = n.div_ceil(self.rangeproof_bits);
         let hint_input = vec![
-            builder.constant(n as u32),
+            builder.constant((n_chunks * self.rangeproof_bits) as u32),
             builder.constant(self.rangeproof_bits as u32),
-            new_a,
+            a,
         ];
-        let witnesses = builder.new_hint(
-            "myhint.rangeproofhint",
-            &hint_input,
-            n / self.rangeproof_bits,
-        );
+        let witnesses = builder.new_hint("myhint.rangeproofhint", &hint_input, n_chunks);
         let mut sum = witnesses[0];
         for (i, witness) in witnesses.iter().enumerate().skip(1) {
             let constant = 1u128 << (self.rangeproof_bits * i);
@@ -404,10 +384,13 @@ impl LogUpRangeProofTable {
             let mul = builder.mul(witness, constant);
             sum = builder.add(sum, mul);
         }
-        builder.assert_is_equal(sum, new_a);
-        for witness in witnesses.iter().take(n / self.rangeproof_bits) {
+        builder.assert_is_equal(sum, a);
+        for witness in witnesses.iter().take(n_chunks - 1) {
             self.query_range(*witness);
         }
+        //the top chunk has only the bits that are left
+        let top_bits = n - (n_chunks - 1) * self.rangeproof_bits;
+        self.rangeproof_onechunk(builder, witnesses[n_chunks - 1], top_bits);
     }
 
     pub fn rangeproof_onechunk<C: Config, B: RootAPI<C>>(
@@ -420,21 +403,16 @@ impl LogUpRangeProofTable {
         if n > self.rangeproof_bits {
             panic!("n must be less than self.rangeproof_bits");
         }
-        //add a shift value
-        let mut new_a = a;
-        if n % self.rangeproof_bits != 0 {
-            let rem = n % self.rangeproof_bits;
-            let shift = self.rangeproof_bits - rem;
-            let constant = (1 << shift) - 1;
-            let mut mul_factor: u128 = 1;
-            mul_factor <<= n;
-            let mul_factor_u256 = U256::new(mul_factor);
-            let mul_factor_var = CircuitField::<C>::from_u256(mul_factor_u256);
-            let mul_factor = builder.constant(mul_factor_var);
-            let a_shift = builder.mul(constant, mul_factor);
-            new_a = builder.add(a, a_shift);
+        //a must be in the table itself
+        self.query_range(a);
+        if n < self.rangeproof_bits {
+            //and so must a shifted by 2^rangeproof_bits - 2^n, which leaves a < 2^n:
+            //the shifted value alone would also let negative values through
+            let shift = (U256::new(1) << self.rangeproof_bits) - (U256::new(1) << n);
+            let shift = builder.constant(CircuitField::<C>::from_u256(shift));
+            let a_shift = builder.add(a, shift);
+            self.query_range(a_shift);
         }
-        self.query_range(new_a);
     }
 
     pub fn query_range(&mut self, key: Variable) {
-- 
2.43.0


From 9b2b48afddb8b0a9a7496788cc236f5d2d8f02b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:28 +0000
Subject: [PATCH 39/48] fix: the exponential lookup confines the quotient and
 the remainder of its division by the scale

The remainder was confined to [0, 2 scale) for a power-of-two scale and the
quotient not at all, so a prover could return exp(x) - 1 step or any field
element (product - r) / scale instead of the exponential.
---
 .../gadgets/function_lookup.rs                | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/gadgets/function_lookup.rs b/rust/jstprove_circuits/src/circuit_functions/gadgets/function_lookup.rs
index 20d80f1..12086af 100644
--- a/rust/jstprove_circuits/src/circuit_functions/gadgets/function_lookup.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/gadgets/function_lookup.rs
@@ -93,6 +93,7 @@ pub struct DecomposedExpLookup {
     low_table: FunctionLookupTable,
     chunk_bits: usize,
     scale_bits: usize,
+    quotient_bits: usize,
     half_var: Variable,
     chunk_var: Variable,
     scale_var: Variable,
@@ -130,13 +131,29 @@ impl DecomposedExpLookup {
             1u64 << (high_bits - 1),
         )));
 
-        let scale_bits = 64 - scale.leading_zeros() as usize;
+        // The remainder of a division by the scale is below the scale.
+        let scale_bits = 64 - scale.saturating_sub(1).leading_zeros() as usize;
+
+        // The quotient is at most the product of the largest table entries
+        // divided by the scale.
+        let half_high = 1i64 << (high_bits - 1);
+        let max_high = (-half_high..half_high)
+            .map(|x_high| compute_exp(x_high.saturating_mul(chunk), scale).max(0) as u128)
+            .max()
+            .unwrap_or(0);
+        let max_low = (0..chunk)
+            .map(|x_low| compute_exp(x_low, scale).max(0) as u128)
+            .max()
+            .unwrap_or(0);
+        let max_quotient = max_high * max_low / u128::from(scale.max(1));
+        let quotient_bits = (128 - max_quotient.leading_zeros() as usize).max(1);
 
         Self {
             high_table,
             low_table,
             chunk_bits,
             scale_bits,
+            quotient_bits,
             half_var,
             chunk_var,
             scale_var,
@@ -182,7 +199,12 @@ impl DecomposedExpLookup {
         let y_recon = api.mul(y, self.scale_var);
         let y_recon = api.add(y_recon, remainder);
         api.assert_is_equal(y_recon, product);
-        logup_ctx.range_check::<C, B>(api, remainder, self.scale_bits)?;
+        if self.scale_bits == 0 {
+            api.assert_is_zero(remainder);
+        } else {
+            logup_ctx.range_check::<C, B>(api, remainder, self.scale_bits)?;
+        }
+        logup_ctx.range_check::<C, B>(api, y, self.quotient_bits)?;
 
         Ok(y)
     }
-- 
2.43.0


From d6b3f2783c0a2869c70b9e655f470aa7d834383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:22 +0000
Subject: [PATCH 40/48] fix: Less and Greater compare signed quantised values
 instead of unsigned field elements

---
 .../src/circuit_functions/layers/greater.rs   | 30 ++++++++++++++-----
 .../src/circuit_functions/layers/less.rs      | 30 ++++++++++++++-----
 2 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/greater.rs b/rust/jstprove_circuits/src/circuit_functions/layers/greater.rs
index 8522788..32d757e 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/greater.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/greater.rs
@@ -7,7 +7,7 @@ use expander_compiler::frontend::{CircuitField, Config, FieldArith, RootAPI, Var
 
 use crate::circuit_functions::{
     CircuitError,
-    gadgets::LogupRangeCheckContext,
+    gadgets::{LogupRangeCheckContext, ShiftRangeContext, constrained_max_2},
     layers::{LayerError, LayerKind, layer_ops::LayerOp},
     utils::{
         onnx_model::get_optional_w_or_b,
@@ -23,6 +23,7 @@ enum GreaterMode {
     Runtime {
         initializer_a: Option<ArrayD<i64>>,
         initializer_b: Option<ArrayD<i64>>,
+        shift_exponent: usize,
     },
 }
 
@@ -36,7 +37,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GreaterLayer {
     fn apply(
         &self,
         api: &mut Builder,
-        _logup_ctx: &mut LogupRangeCheckContext,
+        logup_ctx: &mut LogupRangeCheckContext,
         input: &HashMap<String, ArrayD<Variable>>,
     ) -> Result<(Vec<String>, ArrayD<Variable>), CircuitError> {
         match &self.mode {
@@ -63,6 +64,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GreaterLayer {
             GreaterMode::Runtime {
                 initializer_a,
                 initializer_b,
+                shift_exponent,
             } => {
                 let a_name = &self.inputs[0];
                 let b_name = &self.inputs[1];
@@ -93,11 +95,16 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GreaterLayer {
                     msg: "B tensor is not contiguous after broadcast".to_string(),
                 })?;
 
-                let out_flat: Vec<Variable> = a_flat
-                    .iter()
-                    .zip(b_flat.iter())
-                    .map(|(&a_val, &b_val)| api.gt(a_val, b_val))
-                    .collect();
+                // Quantised values are signed, so the comparison goes through the
+                // range-checked maximum: a > b iff max(a, b) != b.
+                let shift_ctx = ShiftRangeContext::new(api, LayerKind::Greater, *shift_exponent)?;
+                let mut out_flat: Vec<Variable> = Vec::with_capacity(a_flat.len());
+                for (&a_val, &b_val) in a_flat.iter().zip(b_flat.iter()) {
+                    let max = constrained_max_2(api, &shift_ctx, logup_ctx, a_val, b_val)?;
+                    let diff = api.sub(max, b_val);
+                    let is_equal = api.is_zero(diff);
+                    out_flat.push(api.sub(1, is_equal));
+                }
 
                 let out_array =
                     ArrayD::from_shape_vec(IxDyn(a_bc.shape()), out_flat).map_err(|e| {
@@ -204,9 +211,18 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GreaterLayer {
                 output_shape,
             }
         } else {
+            let shift_exponent = layer_context
+                .n_bits_for(&layer.name)
+                .checked_sub(1)
+                .ok_or_else(|| LayerError::Other {
+                    layer: LayerKind::Greater,
+                    msg: "n_bits too small to derive shift_exponent".to_string(),
+                })?;
+
             GreaterMode::Runtime {
                 initializer_a: a_opt,
                 initializer_b: b_opt,
+                shift_exponent,
             }
         };
 
diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/less.rs b/rust/jstprove_circuits/src/circuit_functions/layers/less.rs
index 756c13b..ca93c7c 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/less.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/less.rs
@@ -7,7 +7,7 @@ use expander_compiler::frontend::{CircuitField, Config, FieldArith, RootAPI, Var
 
 use crate::circuit_functions::{
     CircuitError,
-    gadgets::LogupRangeCheckContext,
+    gadgets::{LogupRangeCheckContext, ShiftRangeContext, constrained_max_2},
     layers::{LayerError, LayerKind, layer_ops::LayerOp},
     utils::{
         onnx_model::get_optional_w_or_b,
@@ -23,6 +23,7 @@ enum LessMode {
     Runtime {
         initializer_a: Option<ArrayD<i64>>,
         initializer_b: Option<ArrayD<i64>>,
+        shift_exponent: usize,
     },
 }
 
@@ -36,7 +37,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for LessLayer {
     fn apply(
         &self,
         api: &mut Builder,
-        _logup_ctx: &mut LogupRangeCheckContext,
+        logup_ctx: &mut LogupRangeCheckContext,
         input: &HashMap<String, ArrayD<Variable>>,
     ) -> Result<(Vec<String>, ArrayD<Variable>), CircuitError> {
         match &self.mode {
@@ -63,6 +64,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for LessLayer {
             LessMode::Runtime {
                 initializer_a,
                 initializer_b,
+                shift_exponent,
             } => {
                 let a_name = &self.inputs[0];
                 let b_name = &self.inputs[1];
@@ -93,11 +95,16 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for LessLayer {
                     msg: "B tensor is not contiguous after broadcast".to_string(),
                 })?;
 
-                let out_flat: Vec<Variable> = a_flat
-                    .iter()
-                    .zip(b_flat.iter())
-                    .map(|(&a_val, &b_val)| api.gt(b_val, a_val))
-                    .collect();
+                // Quantised values are signed, so the comparison goes through the
+                // range-checked maximum: a < b iff max(a, b) != a.
+                let shift_ctx = ShiftRangeContext::new(api, LayerKind::Less, *shift_exponent)?;
+                let mut out_flat: Vec<Variable> = Vec::with_capacity(a_flat.len());
+                for (&a_val, &b_val) in a_flat.iter().zip(b_flat.iter()) {
+                    let max = constrained_max_2(api, &shift_ctx, logup_ctx, a_val, b_val)?;
+                    let diff = api.sub(max, a_val);
+                    let is_equal = api.is_zero(diff);
+                    out_flat.push(api.sub(1, is_equal));
+                }
 
                 let out_array =
                     ArrayD::from_shape_vec(IxDyn(a_bc.shape()), out_flat).map_err(|e| {
@@ -204,9 +211,18 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for LessLayer {
                 output_shape,
             }
         } else {
+            let shift_exponent = layer_context
+                .n_bits_for(&layer.name)
+                .checked_sub(1)
+                .ok_or_else(|| LayerError::Other {
+                    layer: LayerKind::Less,
+                    msg: "n_bits too small to derive shift_exponent".to_string(),
+                })?;
+
             LessMode::Runtime {
                 initializer_a: a_opt,
                 initializer_b: b_opt,
+                shift_exponent,
             }
         };
 
-- 
2.43.0


From f09155c6bb05049532f5164549218a4a74d43303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:43 +0000
Subject: [PATCH 41/48] fix: a Gemm bias broadcasts to [M, N], a column [M, 1]
 of length N included

---
 .../src/circuit_functions/layers/gemm.rs      | 49 ++-----------------
 1 file changed, 4 insertions(+), 45 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/gemm.rs b/rust/jstprove_circuits/src/circuit_functions/layers/gemm.rs
index 53f7d40..832a887 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/gemm.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/gemm.rs
@@ -57,7 +57,7 @@ use crate::circuit_functions::{
         onnx_model::{extract_params, get_input_name, get_param_or_default, get_w_or_b},
         quantization::{MaybeRescaleParams, maybe_rescale},
         shaping::check_and_apply_transpose_array,
-        tensor_ops::load_array_constants_or_get_inputs,
+        tensor_ops::{broadcast_array, load_array_constants_or_get_inputs},
     },
 };
 
@@ -213,50 +213,9 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GemmLayer {
             self.freivalds_reps,
         )?;
 
-        // ONNX Gemm broadcasts bias C to match the core product shape.
-        // Bias may be scalar, [N], or [1, N]; core_product is [M, N].
-        let target = core_product.shape();
-        let bias_broadcast = if bias_array.shape() == target {
-            bias_array
-        } else if core_product.ndim() == 2 {
-            let rows = target[0];
-            let cols = target[1];
-            // Reshape bias to [1, cols] then tile across rows.
-            let row: Vec<Variable> = if bias_array.len() == cols {
-                bias_array.iter().copied().collect()
-            } else if bias_array.len() == 1 {
-                vec![
-                    bias_array
-                        .iter()
-                        .next()
-                        .copied()
-                        .unwrap_or_else(|| api.constant(0));
-                    cols
-                ]
-            } else {
-                return Err(LayerError::InvalidShape {
-                    layer: LayerKind::Gemm,
-                    msg: format!(
-                        "bias length {} incompatible with core_product cols {cols} for layer {}",
-                        bias_array.len(),
-                        self.name
-                    ),
-                }
-                .into());
-            };
-            let flat: Vec<Variable> = (0..rows).flat_map(|_| row.iter().copied()).collect();
-            ndarray::ArrayD::from_shape_vec(ndarray::IxDyn(&[rows, cols]), flat).map_err(|_| {
-                LayerError::InvalidShape {
-                    layer: LayerKind::Gemm,
-                    msg: format!(
-                        "bias broadcast to [{rows}, {cols}] failed for layer {}",
-                        self.name
-                    ),
-                }
-            })?
-        } else {
-            bias_array
-        };
+        // ONNX Gemm broadcasts bias C to the core product shape [M, N]: a scalar,
+        // [N], [1, N], [M, 1] or [M, N].
+        let bias_broadcast = broadcast_array(&bias_array, &core_product.shape().to_vec())?;
         let result = matrix_addition(api, &core_product, bias_broadcast, LayerKind::Gemm)?;
 
         let out_array = maybe_rescale(
-- 
2.43.0


From d21c754a134690b5297db73d9888dea763efaa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:43 +0000
Subject: [PATCH 42/48] fix: the mean of a lane whose sum is negative is
 provable

---
 .../src/circuit_functions/layers/reduce_mean.rs     | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs
index 985b83c..f6ecb0b 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs
@@ -73,13 +73,16 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMeanLayer {
 
         let n_const = api.constant(CircuitField::<C>::from_u256(U256::from(n as u64)));
         let half_n = n / 2;
-        let half_n_const = api.constant(CircuitField::<C>::from_u256(U256::from(half_n as u64)));
         let remainder_bits = n.next_power_of_two().trailing_zeros() as usize;
         let remainder_bits = remainder_bits.max(1);
 
         let n_bits_u32 = u32::try_from(self.n_bits).unwrap_or(u32::MAX);
         let offset = U256::from(1u64) << (n_bits_u32 - 1);
         let offset_var = api.constant(CircuitField::<C>::from_u256(offset));
+        // The quotient of field elements is unsigned: the sum is shifted by
+        // n * 2^(n_bits - 1) before the division, the quotient by 2^(n_bits - 1) after it.
+        let sum_offset = offset * U256::from(n as u64) + U256::from(half_n as u64);
+        let sum_offset_var = api.constant(CircuitField::<C>::from_u256(sum_offset));
 
         let mut out_storage: Vec<Variable> = Vec::with_capacity(total_out);
 
@@ -103,11 +106,11 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMeanLayer {
                 acc
             };
 
-            let biased_sum = api.add(sum, half_n_const);
-            let mean_q = api.unconstrained_int_div(biased_sum, n_const);
+            let biased_sum = api.add(sum, sum_offset_var);
+            let mean_shifted = api.unconstrained_int_div(biased_sum, n_const);
             let remainder = api.unconstrained_mod(biased_sum, n_const);
 
-            let rhs = api.mul(n_const, mean_q);
+            let rhs = api.mul(n_const, mean_shifted);
             let rhs = api.add(rhs, remainder);
             api.assert_is_equal(biased_sum, rhs);
 
@@ -130,7 +133,6 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMeanLayer {
                     })?;
             }
 
-            let mean_shifted = api.add(mean_q, offset_var);
             logup_ctx
                 .range_check::<C, Builder>(api, mean_shifted, self.n_bits)
                 .map_err(|e| LayerError::Other {
@@ -138,6 +140,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMeanLayer {
                     msg: format!("mean output range check: {e}"),
                 })?;
 
+            let mean_q = api.sub(mean_shifted, offset_var);
             out_storage.push(mean_q);
         }
 
-- 
2.43.0


From a141392c65f8e1bb70ac64330f89b33d72ada951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:43 +0000
Subject: [PATCH 43/48] fix: the remainder of a mean over one element is zero,
 not one bit

---
 .../src/circuit_functions/layers/reduce_mean.rs                | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs
index f6ecb0b..d94f17a 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs
@@ -121,7 +121,8 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMeanLayer {
                     msg: format!("remainder range check: {e}"),
                 })?;
 
-            if !n.is_power_of_two() {
+            // A lane of one element has remainder 0, not a remainder of one bit.
+            if n != 1 << remainder_bits {
                 let n_minus_one =
                     api.constant(CircuitField::<C>::from_u256(U256::from(n as u64 - 1)));
                 let upper = api.sub(n_minus_one, remainder);
-- 
2.43.0


From 9b125c4c251253e895642f964ed48f3eff47631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:43 +0000
Subject: [PATCH 44/48] fix: ReduceMean and ReduceMax follow
 noop_with_empty_axes, ReduceMean empty axes

---
 .../circuit_functions/layers/reduce_max.rs    | 13 +++++--
 .../circuit_functions/layers/reduce_mean.rs   |  7 ++--
 .../circuit_functions/layers/reduce_sum.rs    | 35 +++++++------------
 3 files changed, 29 insertions(+), 26 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_max.rs b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_max.rs
index 9fc57a8..5ba80be 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_max.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_max.rs
@@ -7,7 +7,11 @@ use expander_compiler::frontend::{Config, RootAPI, Variable};
 use crate::circuit_functions::{
     CircuitError,
     gadgets::{LogupRangeCheckContext, ShiftRangeContext, constrained_max},
-    layers::{LayerError, LayerKind, layer_ops::LayerOp, reduce_sum::collect_reduction_inputs},
+    layers::{
+        LayerError, LayerKind,
+        layer_ops::LayerOp,
+        reduce_sum::{collect_reduction_inputs, noop_with_empty_axes},
+    },
     utils::onnx_model::get_w_or_b,
 };
 
@@ -254,7 +258,11 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMaxLayer {
             match raw {
                 Some(v) => {
                     if v.is_empty() {
-                        (0..rank).collect()
+                        if noop_with_empty_axes(layer) {
+                            vec![]
+                        } else {
+                            (0..rank).collect()
+                        }
                     } else {
                         let mut axes: Vec<usize> = v
                             .iter()
@@ -275,6 +283,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMaxLayer {
                         axes
                     }
                 }
+                None if noop_with_empty_axes(layer) => vec![],
                 None => (0..rank).collect(),
             }
         };
diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs
index d94f17a..0d7c0ba 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_mean.rs
@@ -11,7 +11,7 @@ use crate::circuit_functions::{
     layers::{
         LayerError, LayerKind,
         layer_ops::LayerOp,
-        reduce_sum::{collect_reduction_inputs, unravel},
+        reduce_sum::{collect_reduction_inputs, noop_with_empty_axes, unravel},
     },
     utils::onnx_model::get_w_or_b,
 };
@@ -246,7 +246,9 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMeanLayer {
                     }
                 })
             });
-            match raw {
+            // ONNX: empty axes, like omitted ones, reduce over every axis, or over
+            // none with noop_with_empty_axes.
+            match raw.filter(|v| !v.is_empty()) {
                 Some(v) => {
                     let mut axes: Vec<usize> = v
                         .iter()
@@ -266,6 +268,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceMeanLayer {
                     axes.dedup();
                     axes
                 }
+                None if noop_with_empty_axes(layer) => vec![],
                 None => (0..rank).collect(),
             }
         };
diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_sum.rs b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_sum.rs
index 988a486..26acc83 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/reduce_sum.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/reduce_sum.rs
@@ -39,6 +39,18 @@ pub struct ReduceSumLayer {
 
 // -------- Implementation --------
 
+/// ONNX `noop_with_empty_axes` (default 0): empty axes reduce over no axis, not over all.
+pub(crate) fn noop_with_empty_axes(
+    layer: &crate::circuit_functions::utils::onnx_types::ONNXLayer,
+) -> bool {
+    let Some(rmpv::Value::Map(params)) = layer.params.as_ref() else {
+        return false;
+    };
+    let key = rmpv::Value::String("noop_with_empty_axes".into());
+    let attr = params.iter().find(|(k, _)| k == &key);
+    attr.and_then(|(_, v)| v.as_i64()).unwrap_or(0) != 0
+}
+
 impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceSumLayer {
     fn apply(
         &self,
@@ -206,28 +218,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ReduceSumLayer {
             .unwrap_or(1)
             != 0;
 
-        let noop_with_empty_axes = layer
-            .params
-            .as_ref()
-            .and_then(|p| {
-                if let rmpv::Value::Map(m) = p {
-                    m.iter().find_map(|(k, v)| {
-                        if k == &rmpv::Value::String("noop_with_empty_axes".into()) {
-                            if let rmpv::Value::Integer(i) = v {
-                                i.as_i64()
-                            } else {
-                                None
-                            }
-                        } else {
-                            None
-                        }
-                    })
-                } else {
-                    None
-                }
-            })
-            .unwrap_or(0)
-            != 0;
+        let noop_with_empty_axes = noop_with_empty_axes(layer);
 
         // Parse axes from input[1] (opset 13+) or attribute.
         let axes: Vec<usize> = {
-- 
2.43.0


From cd1a1c8aba5bd5b2f6f7dcc4bb62162bc5948b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:32 +0000
Subject: [PATCH 45/48] fix: TopK orders its outputs and selects each position
 once

---
 .../src/circuit_functions/layers/topk.rs      | 132 +++++++-----------
 1 file changed, 51 insertions(+), 81 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/topk.rs b/rust/jstprove_circuits/src/circuit_functions/layers/topk.rs
index 8c2b2fe..4e95d8a 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/topk.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/topk.rs
@@ -5,29 +5,19 @@
 // selection is performed outside the circuit by a hint function that returns
 // K values in descending order.
 //
-// Verification follows the `constrained_max` pattern generalised to K values:
+// Every element of a lane of N has a distinct key `value·N − index`, and the
+// outputs are the K greatest keys in descending order (the lower index first
+// among equal values, as ONNX requires):
 //
-// (a) **Membership via product trick** — for each output v[j], accumulate the
-//     running product P[j] = ∏_i (v[j] − input[i]) across all lane elements.
-//     Assert P[j] == 0.  This proves v[j] equals some input element.
+// (a) **Membership** — each index matches exactly one position of the lane and
+//     each value is the element there.
 //
-// (b) **Top-K bound** — for each lane element input[i], compute
-//     Q_i = ∏_j (v[j] − input[i]).  When Q_i == 0 the element is one of the
-//     selected values; otherwise range-check the **raw** difference
-//     (v[K−1] − input[i]) to prove v[K−1] ≥ input[i].  The raw field
-//     encoding wraps to near-p for negative differences, failing the range
-//     check.  No offset shift is applied — this is the same technique
-//     `constrained_max` uses.
+// (b) **Sorted, distinct** — the keys of consecutive outputs descend strictly:
+//     `key[j] − key[j+1] − 1` is range-checked.
 //
-// (c) **Sorted order** — consecutive output values satisfy v[i] ≥ v[i+1],
-//     verified by shifting to unsigned and range-checking the difference.
-//
-// Uniqueness is implied: if the prover duplicates a value, some input
-// exceeding v[K−1] is classified as non-selected and the raw range check
-// on (v[K−1] − that_input) fails.
-//
-// No indices or multiplexers are needed.  The hint returns only K values.
-// Cost per lane: O(K·N) multiplications + O(N) range checks + O(K) asserts.
+// (c) **Top-K bound** — for each element that no index selects,
+//     `key[K−1] − key − 1` is range-checked. The raw field encoding wraps to
+//     near-p for negative differences, failing the range check.
 //
 // # Outputs
 // TopK has two ONNX outputs: Values (output[0]) and Indices (output[1]).
@@ -95,20 +85,11 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for TopKLayer {
             msg: "data tensor is not contiguous".to_string(),
         })?;
 
-        let shift_n_bits = self.n_bits + 1;
-        let offset_val = 1u64
-            .checked_shl(self.n_bits as u32)
-            .ok_or_else(|| LayerError::Other {
-                layer: LayerKind::TopK,
-                msg: format!("n_bits {} too large for shift offset", self.n_bits),
-            })?;
-        let offset = api.constant(CircuitField::<C>::from_u256(ethnum::U256::from(offset_val)));
         let scale_var = api.constant(CircuitField::<C>::from_u256(ethnum::U256::from(
             self.scaling,
         )));
 
-        let (values_array, _) =
-            self.compute(api, logup_ctx, data_flat, scale_var, offset, shift_n_bits)?;
+        let (values_array, _) = self.compute(api, logup_ctx, data_flat, scale_var)?;
         Ok((vec![self.values_output_name.clone()], values_array))
     }
 
@@ -131,20 +112,11 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for TopKLayer {
             msg: "data tensor is not contiguous".to_string(),
         })?;
 
-        let shift_n_bits = self.n_bits + 1;
-        let offset_val = 1u64
-            .checked_shl(self.n_bits as u32)
-            .ok_or_else(|| LayerError::Other {
-                layer: LayerKind::TopK,
-                msg: format!("n_bits {} too large for shift offset", self.n_bits),
-            })?;
-        let offset = api.constant(CircuitField::<C>::from_u256(ethnum::U256::from(offset_val)));
         let scale_var = api.constant(CircuitField::<C>::from_u256(ethnum::U256::from(
             self.scaling,
         )));
 
-        let (values_array, indices_array) =
-            self.compute(api, logup_ctx, data_flat, scale_var, offset, shift_n_bits)?;
+        let (values_array, indices_array) = self.compute(api, logup_ctx, data_flat, scale_var)?;
         let mut out = vec![(self.values_output_name.clone(), values_array)];
         if let Some(ref name) = self.indices_output_name {
             out.push((name.clone(), indices_array));
@@ -425,8 +397,6 @@ impl TopKLayer {
         logup_ctx: &mut LogupRangeCheckContext,
         data_flat: &[Variable],
         scale_var: Variable,
-        offset: Variable,
-        shift_n_bits: usize,
     ) -> Result<(ArrayD<Variable>, ArrayD<Variable>), CircuitError> {
         let axis = self.axis;
         let k = self.k;
@@ -442,6 +412,11 @@ impl TopKLayer {
         )));
         let idx_bits = (usize::BITS - axis_dim.saturating_sub(1).leading_zeros()) as usize;
         let idx_bits = idx_bits.max(1);
+        let axis_dim_var = api.constant(CircuitField::<C>::from_u256(ethnum::U256::from(
+            axis_dim as u64,
+        )));
+        // Differences of keys of n_bits-wide signed values.
+        let key_bits = self.n_bits + idx_bits;
 
         for o in 0..outer {
             for inr in 0..inner {
@@ -457,51 +432,15 @@ impl TopKLayer {
                 let values = &hint_out[..k];
                 let indices = &hint_out[k..];
 
-                let mut membership_prods: Vec<Variable> =
-                    (0..k).map(|_| api.constant(1u32)).collect();
-                let min_val = values[k - 1];
-
-                for &elem in &lane {
-                    let mut qi = api.constant(1u32);
-                    for j in 0..k {
-                        let factor = api.sub(values[j], elem);
-                        membership_prods[j] = api.mul(membership_prods[j], factor);
-                        qi = api.mul(qi, factor);
-                    }
-
-                    let is_sel = api.is_zero(qi);
-                    let one_c = api.constant(1u32);
-                    let not_sel = api.sub(one_c, is_sel);
-
-                    let delta = api.sub(min_val, elem);
-                    let check_val = api.mul(not_sel, delta);
-
-                    logup_ctx
-                        .range_check::<C, Builder>(api, check_val, shift_n_bits)
-                        .map_err(|e| LayerError::Other {
-                            layer: LayerKind::TopK,
-                            msg: format!("top-K bound range check failed: {e}"),
-                        })?;
-                }
-
                 for j in 0..k {
-                    api.assert_is_zero(membership_prods[j]);
-
                     let out_idx = (o * k + j) * inner + inr;
                     out_flat[out_idx] = values[j];
                     idx_flat[out_idx] = indices[j];
                 }
 
-                for j in 0..k.saturating_sub(1) {
-                    let diff = api.sub(values[j], values[j + 1]);
-                    let shifted = api.add(diff, offset);
-                    logup_ctx
-                        .range_check::<C, Builder>(api, shifted, shift_n_bits)
-                        .map_err(|e| LayerError::Other {
-                            layer: LayerKind::TopK,
-                            msg: format!("sorted order range check failed: {e}"),
-                        })?;
-                }
+                // How many of the indices point at each element of the lane.
+                let mut selections: Vec<Variable> =
+                    (0..axis_dim).map(|_| api.constant(0u32)).collect();
 
                 // Constrain each indices[j] in [0, axis_dim) and that
                 // lane[indices[j]] == values[j].  Without these the
@@ -534,11 +473,42 @@ impl TopKLayer {
                         let contrib = api.mul(is_match, elem);
                         selected = api.add(selected, contrib);
                         matched_sum = api.add(matched_sum, is_match);
+                        selections[a] = api.add(selections[a], is_match);
                     }
                     let one = api.constant(1u32);
                     api.assert_is_equal(matched_sum, one);
                     api.assert_is_equal(selected, values[j]);
                 }
+
+                let mut keys = Vec::with_capacity(k);
+                for j in 0..k {
+                    let scaled = api.mul(values[j], axis_dim_var);
+                    keys.push(api.sub(scaled, indices[j]));
+                }
+                for j in 1..k {
+                    let diff = api.sub(keys[j - 1], keys[j]);
+                    let gap = api.sub(diff, 1u32);
+                    logup_ctx
+                        .range_check::<C, Builder>(api, gap, key_bits)
+                        .map_err(|e| LayerError::Other {
+                            layer: LayerKind::TopK,
+                            msg: format!("sorted order range check failed: {e}"),
+                        })?;
+                }
+                for (a, &elem) in lane.iter().enumerate() {
+                    let scaled = api.mul(elem, axis_dim_var);
+                    let key = api.sub(scaled, a as u32);
+                    let diff = api.sub(keys[k - 1], key);
+                    let gap = api.sub(diff, 1u32);
+                    let not_selected = api.sub(1u32, selections[a]);
+                    let check_val = api.mul(not_selected, gap);
+                    logup_ctx
+                        .range_check::<C, Builder>(api, check_val, key_bits)
+                        .map_err(|e| LayerError::Other {
+                            layer: LayerKind::TopK,
+                            msg: format!("top-K bound range check failed: {e}"),
+                        })?;
+                }
             }
         }
 
-- 
2.43.0


From e787bd3a7555f392ce8a2a8d4309ae38c91246b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:32 +0000
Subject: [PATCH 46/48] fix: ScatterND refuses indices out of range and
 unsupported reductions

---
 .../circuit_functions/layers/scatter_nd.rs    | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/scatter_nd.rs b/rust/jstprove_circuits/src/circuit_functions/layers/scatter_nd.rs
index d0c0aae..02246a2 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/scatter_nd.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/scatter_nd.rs
@@ -118,6 +118,21 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ScatterNDLayer {
             .into());
         }
 
+        // Only the default reduction (the update replaces the element) is supported.
+        if let Some(rmpv::Value::Map(params)) = layer.params.as_ref() {
+            let key = rmpv::Value::String("reduction".into());
+            let reduction = params.iter().find(|(k, _)| k == &key);
+            if let Some((_, value)) = reduction {
+                if value.as_str() != Some("none") {
+                    return Err(LayerError::UnsupportedConfig {
+                        layer: LayerKind::ScatterND,
+                        msg: format!("reduction {value} is not supported"),
+                    }
+                    .into());
+                }
+            }
+        }
+
         let data_name = &layer.inputs[0];
         let indices_name = &layer.inputs[1];
 
@@ -195,16 +210,20 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for ScatterNDLayer {
 
         for update_idx in 0..num_updates {
             let coord_start = update_idx * last_dim;
-            let coords: Vec<usize> = (0..last_dim)
+            let coords = (0..last_dim)
                 .map(|j| {
                     let v = indices_flat[coord_start + j];
-                    if v < 0 {
-                        (v + data_shape[j] as i64) as usize
-                    } else {
-                        v as usize
+                    let dim = data_shape[j] as i64;
+                    if v < -dim || v >= dim {
+                        return Err(LayerError::InvalidShape {
+                            layer: LayerKind::ScatterND,
+                            msg: format!("index {v} out of range for axis {j} of size {dim}"),
+                        }
+                        .into());
                     }
+                    Ok(if v < 0 { v + dim } else { v } as usize)
                 })
-                .collect();
+                .collect::<Result<Vec<usize>, CircuitError>>()?;
 
             let mut base_flat = ravel(&coords, &data_shape[..last_dim]);
             let remaining_stride: usize = if last_dim < data_shape.len() {
-- 
2.43.0


From 5d808f8745f0ed2cdaaf3ad6297b4b0aa55ca87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:32 +0000
Subject: [PATCH 47/48] fix: GatherElements accepts negative elements

---
 .../src/circuit_functions/layers/gather_elements.rs      | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/gather_elements.rs b/rust/jstprove_circuits/src/circuit_functions/layers/gather_elements.rs
index 4a7af9e..de958cf 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/gather_elements.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/gather_elements.rs
@@ -28,7 +28,6 @@ enum GatherElementsMode {
         indices_name: String,
         indices_shape: Vec<usize>,
         axis: usize,
-        n_bits: usize,
     },
 }
 
@@ -63,7 +62,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GatherElementsLayer
     fn apply(
         &self,
         api: &mut Builder,
-        logup_ctx: &mut LogupRangeCheckContext,
+        _logup_ctx: &mut LogupRangeCheckContext,
         input: &HashMap<String, ArrayD<Variable>>,
     ) -> Result<(Vec<String>, ArrayD<Variable>), CircuitError> {
         let data_name = self
@@ -109,7 +108,6 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GatherElementsLayer
                 indices_name,
                 indices_shape,
                 axis,
-                n_bits,
             } => {
                 let indices_input =
                     input
@@ -200,8 +198,6 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GatherElementsLayer
                     let one = api.constant(1u32);
                     api.assert_is_equal(matched_sum, one);
                     api.assert_is_equal(y, mux_sum);
-
-                    logup_ctx.range_check::<C, Builder>(api, y, *n_bits)?;
                     out_vars.push(y);
                 }
 
@@ -394,13 +390,10 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for GatherElementsLayer
                 .into());
             }
 
-            let n_bits = layer_context.n_bits_for(&layer.name);
-
             GatherElementsMode::Dynamic {
                 indices_name: indices_name.clone(),
                 indices_shape,
                 axis,
-                n_bits,
             }
         };
 
-- 
2.43.0


From 7a09ed2bda60d2690aa3bb07fcdb485f6841e265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:33 +0000
Subject: [PATCH 48/48] fix: Range does not overflow on limits far apart

---
 rust/jstprove_circuits/src/circuit_functions/layers/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/jstprove_circuits/src/circuit_functions/layers/range.rs b/rust/jstprove_circuits/src/circuit_functions/layers/range.rs
index 55857bf..5a9bbae 100644
--- a/rust/jstprove_circuits/src/circuit_functions/layers/range.rs
+++ b/rust/jstprove_circuits/src/circuit_functions/layers/range.rs
@@ -114,7 +114,7 @@ impl<C: Config, Builder: RootAPI<C>> LayerOp<C, Builder> for RangeLayer {
         }
 
         let range_len: usize = if (delta > 0 && start < limit) || (delta < 0 && start > limit) {
-            let diff = (limit - start).unsigned_abs();
+            let diff = limit.abs_diff(start);
             let step = delta.unsigned_abs();
             diff.div_ceil(step) as usize
         } else {
-- 
2.43.0

