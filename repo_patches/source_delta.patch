From 1d9e145c6984379664c93b29be495e5a2b5f1b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 01/45] fix: emit the block weight layout in parameters.c as in
 parameters.dat

direct_block convolutions reorder their weights (layer.layout); the binary
parameter file used that order but the C initialisers kept the original one,
so the generated text parameters did not match the generated loops.
---
 src/acetone_nnet/generator/neural_network.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index eacb50f..05c59bc 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1026,6 +1026,8 @@ class CodeGenerator(ABC):
 
             if hasattr(layer, "weights"):
                 layer_hash["nb_weights"] = layer.nb_weights
+                if (layout := getattr(layer, "layout", None)) is not None:
+                    layer_hash["nb_weights"] = layout.size
                 self.nb_weights_max = max(layer.nb_weights, self.nb_weights_max)
                 to_print = True
 
@@ -1174,8 +1176,11 @@ class CodeGenerator(ABC):
             layer_hash = {"name": layer.name, "idx": f"{layer.idx:02d}"}
 
             if (w := getattr(layer, "weights", None)) is not None:
-                layer_hash["nb_weights"] = layer.nb_weights
-                layer_hash["weights"] = self.flatten_array_order_c(layer.weights)
+                # As in the binary file, implementations may lay weights out differently
+                if (layout := getattr(layer, "layout", None)) is not None:
+                    w = layout
+                layer_hash["nb_weights"] = w.size
+                layer_hash["weights"] = self.flatten_array_order_c(w)
 
             if isinstance(layer, ConstantLayer):
                 layer_hash["nb_weights"] = layer.constant.size
-- 
2.43.0


From f62783a8d422ef28cdc768ce9e30d8377a95515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 02/45] fix: honour dilation and groups in the Python reference
 of Conv2D

---
 .../generator/layers/convolution/Conv2D.py           | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2D.py b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
index 09d82eb..acbeda5 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2D.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
@@ -267,15 +267,21 @@ class Conv2D(Layer):
         else:
             input_padded = input_array
 
+        extent_h = (self.kernel_h - 1) * self.dilation_rate + 1
+        extent_w = (self.kernel_w - 1) * self.dilation_rate + 1
+        group_channels = self.input_channels // self.group
+        group_filters = self.nb_filters // self.group
+
         for f in range(self.nb_filters):
+            first_channel = (f // group_filters) * group_channels
             for i in range(self.output_height):
                 for j in range(self.output_width):
                     w = (
                         self.weights[f, :, :, :]
                         * input_padded[
-                            ::self.group,
-                            i * self.strides : i * self.strides + self.kernel_h,
-                            j * self.strides : j * self.strides + self.kernel_w,
+                            first_channel : first_channel + group_channels,
+                            i * self.strides : i * self.strides + extent_h : self.dilation_rate,
+                            j * self.strides : j * self.strides + extent_w : self.dilation_rate,
                         ]
                     )
                     output[f, i, j] = np.sum(w) + self.biases[f]
-- 
2.43.0


From a96ca9d3830776fc52ba011f68d70693c3cc7407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 03/45] fix: use the Winograd kernel only when 2x2 tiles cover
 the whole output

The tile loops skip an odd last row or column, leaving those outputs
uninitialised, but only the parity of the width was checked. Also form the
input row pointer only for rows inside the image.
---
 .../generator/layers/convolution/Conv2Ddirect_block.py        | 4 ++--
 .../templates/layers/Conv/template_Conv3x3_winograd.c.tpl     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
index f0473fa..35fe26e 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
@@ -35,7 +35,7 @@ class Conv2Ddirect_block(Conv2D):
         '''
         converts weight shape to layout dedicated to optimized template
         '''
-        even_image = self.input_width%2==0
+        even_image = self.output_width%2==0 and self.output_height%2==0
         K, C, KH, KW = self.weights.shape
         assert C==self.input_channels//self.group
         assert K==self.nb_filters
@@ -110,7 +110,7 @@ class Conv2Ddirect_block(Conv2D):
         elif self.kernel_h==1 and self.kernel_w==1 and self.padding==1:
             tpl = "template_Conv1x1_block.c.tpl"
         #case 3x3, stride 1, even size, winograd
-        elif self.kernel_h==3 and self.kernel_w==3 and self.strides==1 and self.input_width%2==0:
+        elif self.kernel_h==3 and self.kernel_w==3 and self.strides==1 and self.output_width%2==0 and self.output_height%2==0:
             tpl = "template_Conv3x3_winograd.c.tpl"
         else:
             tpl = "template_Conv_direct_block.c.tpl"
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
index 151c83f..94abde5 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
@@ -18,8 +18,8 @@
                 /* Chargement du bloc 4x4 d'entrée avec gestion du padding sans IF */
                 for(int r = 0; r < 4; ++r) {
                     int ih = oh + r - {{PAD}};
-                    const float* row_ptr = &ctx->{{output_str}}[ih * {{W_in}} * {{C}} + ic];
                     int valid_h = (ih >= 0 && ih < {{H_in}});
+                    const float* row_ptr = &ctx->{{output_str}}[(valid_h ? ih : 0) * {{W_in}} * {{C}} + ic];
                     
                     for(int c = 0; c < 4; ++c) {
                         int iw = ow + c - {{PAD}};
-- 
2.43.0


From 955d1751f2c0f34553e8f611c36aa422764cba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 04/45] fix: make the std_gemm_nt/tn/tt convolutions compile
 and compute the product

The nt/tn/tt templates used buffers without the inference context, read the
weights and patches with the wrong leading dimension, tn added the bias at
every step of the accumulation, im2row stored patches in column-major order,
and both patch builders ignored the dilation.
---
 .../generator/layers/convolution/Conv2DGemm.py       |  8 ++++----
 .../generator/layers/convolution/Conv2DGemmTarget.py |  1 +
 .../generator/layers/convolution/Conv2DStdGemm.py    |  6 ++++++
 .../layers/Conv/template_Conv_gemm_nt.c.tpl          |  2 +-
 .../layers/Conv/template_Conv_gemm_tn.c.tpl          | 12 ++++++------
 .../layers/Conv/template_Conv_gemm_tt.c.tpl          |  4 ++--
 .../templates/layers/Conv/template_im2col.c.tpl      |  4 ++--
 .../templates/layers/Conv/template_im2row.c.tpl      |  6 +++---
 8 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
index 892a83d..5c156f1 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
@@ -99,7 +99,7 @@ class Conv2DGemm(Conv2D):
         mustach_hash["A"] = a
         mustach_hash["ldA"] = k
         mustach_hash["B"] = b
-        mustach_hash["ldB"] = n
+        mustach_hash["ldB"] = k
         mustach_hash["C"] = c
         mustach_hash["ldC"] = n
         mustach_hash["activation_function"] = self.activation_function.write_activation_str(
@@ -132,7 +132,7 @@ class Conv2DGemm(Conv2D):
         mustach_hash["n"] = n
         mustach_hash["k"] = k
         mustach_hash["A"] = a
-        mustach_hash["ldA"] = k
+        mustach_hash["ldA"] = m
         mustach_hash["B"] = b
         mustach_hash["ldB"] = n
         mustach_hash["C"] = c
@@ -167,9 +167,9 @@ class Conv2DGemm(Conv2D):
         mustach_hash["n"] = n
         mustach_hash["k"] = k
         mustach_hash["A"] = a
-        mustach_hash["ldA"] = k
+        mustach_hash["ldA"] = m
         mustach_hash["B"] = b
-        mustach_hash["ldB"] = n
+        mustach_hash["ldB"] = k
         mustach_hash["C"] = c
         mustach_hash["ldC"] = n
         mustach_hash["activation_function"] = self.activation_function.write_activation_str(
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py b/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
index 00cd4f7..7b1e64d 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
@@ -86,6 +86,7 @@ class Conv2DGemmTarget(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
index 5f01a03..bdccebd 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
@@ -40,6 +40,10 @@ class Conv2DStdGemm(Conv2DGemm):
                                             "gemm_tn": self.write_im2col,
                                             "gemm_tt": self.write_im2row}
 
+        if self.conv_algorithm in ("gemm_tn", "gemm_tt"):
+            # These algorithms read the transposed weight matrix
+            self.layout = self.weights.reshape(self.nb_filters, -1).transpose().copy("C")
+
     def write_im2col(self: Self) -> str:
         """Generate im to col code."""
         output_str = self.previous_layer[0].output_str
@@ -54,6 +58,7 @@ class Conv2DStdGemm(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
@@ -82,6 +87,7 @@ class Conv2DStdGemm(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
index 3881f78..e07dcf8 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
@@ -6,7 +6,7 @@
             register float output =0;
             for (p = 0; p < {{k}}; ++p)
             {
-                output += {{A}}[i*{{ldA}}+p]* {{#direct}}*{{/direct}}({{B}}[j*{{ldB}}+p]);
+                output += {{A}}[i*{{ldA}}+p]* {{#direct}}*{{/direct}}(ctx->{{B}}[j*{{ldB}}+p]);
             }
             output += biases_{{name}}_{{idx}}[i];
             ctx->tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
index 9d139f2..8fadcb3 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
@@ -6,12 +6,12 @@
             float register weight = {{A}}[p*{{ldA}}+i];
             for (j = 0; j < {{n}}; ++j)
             {
-                ctx->tensor_temp[i*{{ldC}}+j] += weight * {{#direct}}*{{/direct}}({{B}}[p*{{ldB}}+j]);
-            }
-            for(j = 0; j < {{n}}; ++j){
-                register float output = ctx->tensor_temp[i*{{ldC}} + j];
-                output += biases_{{name}}_{{idx}}[i];
-                ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
+                ctx->tensor_temp[i*{{ldC}}+j] += weight * {{#direct}}*{{/direct}}(ctx->{{B}}[p*{{ldB}}+j]);
             }
         }
+        for(j = 0; j < {{n}}; ++j){
+            register float output = ctx->tensor_temp[i*{{ldC}} + j];
+            output += biases_{{name}}_{{idx}}[i];
+            ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
+        }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
index f8fc0c8..e1a9a56 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
@@ -6,9 +6,9 @@
             float register sum = 0;
             for (p = 0; p < {{k}}; ++p)
             {
-                sum += {{A}}[p*{{ldA}} +i]* {{#direct}}*{{/direct}}({{B}}[j*{{ldB}}+p]);
+                sum += {{A}}[p*{{ldA}} +i]* {{#direct}}*{{/direct}}(ctx->{{B}}[j*{{ldB}}+p]);
             }
             sum += biases_{{name}}_{{idx}}[i];
-            tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
+            ctx->tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
index f64e496..b596f51 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
@@ -9,8 +9,8 @@
         {
             for (w = 0; w < {{output_width}}; ++w)
             {
-                int ii = h * {{strides}} - {{pad_top}} + i_offset;
-                int jj = w * {{strides}} - {{pad_left}} + j_offset;
+                int ii = h * {{strides}} - {{pad_top}} + i_offset*{{dilation_rate}};
+                int jj = w * {{strides}} - {{pad_left}} + j_offset*{{dilation_rate}};
 
                 int j = h*{{output_width}} + w;
                 if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
diff --git a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
index 9d5e2e0..b97e375 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
@@ -8,9 +8,9 @@
         {
             for (w = 0; w < {{output_width}}; ++w)
             {
-                int ii = h * {{strides}} - {{pad_top}} + i_offset;
-                int jj = w * {{strides}} - {{pad_left}} + j_offset;
-                int j = w*{{output_height}} + h;
+                int ii = h * {{strides}} - {{pad_top}} + i_offset*{{dilation_rate}};
+                int jj = w * {{strides}} - {{pad_left}} + j_offset*{{dilation_rate}};
+                int j = h*{{output_width}} + w;
                 if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
                     ctx->output_{{road}}[j*{{patches_height}} + i] = ctx->{{output_str}}[(c_offset*{{input_height}} + ii)*{{input_width}} + jj];
                 else
-- 
2.43.0


From 80b8266c78980315ce0d9a1e9c0f6664fb9a3037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 05/45] fix: rebuild the indirect_gemm convolutions on the
 inference context

The table of patch pointers was initialised with addresses of global buffers
that now live in the per-call context, so none of the four variants compiled;
the padded table was also wrong for strides that skip inputs and ignored the
dilation. Store positions in the input (or -1 in the padding) instead.
---
 .../layers/convolution/Conv2DGemm.py          |  4 ++
 .../layers/convolution/Conv2DIndirectGemm.py  | 60 +++++--------------
 .../layers/convolution/Conv2DStdGemm.py       |  4 --
 src/acetone_nnet/generator/neural_network.py  |  4 ++
 .../layers/Conv/template_Conv_gemm_nn.c.tpl   |  2 +-
 .../layers/Conv/template_Conv_gemm_nt.c.tpl   |  2 +-
 .../layers/Conv/template_Conv_gemm_tn.c.tpl   |  2 +-
 .../layers/Conv/template_Conv_gemm_tt.c.tpl   |  2 +-
 .../templates/template_header_file.c.tpl      |  2 +-
 .../templates/template_parameter_file.c.tpl   |  2 +-
 10 files changed, 28 insertions(+), 56 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
index 5c156f1..214f810 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
@@ -41,6 +41,10 @@ class Conv2DGemm(Conv2D):
                                   "gemm_tn": self.write_gemm_tn,
                                   "gemm_tt": self.write_gemm_tt}
 
+        if self.conv_algorithm in ("gemm_tn", "gemm_tt"):
+            # These algorithms read the transposed weight matrix
+            self.layout = self.weights.reshape(self.nb_filters, -1).transpose().copy("C")
+
     def write_gemm_nn(
             self: Self,
             m: int,
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DIndirectGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DIndirectGemm.py
index 96ada2b..559de41 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DIndirectGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DIndirectGemm.py
@@ -38,58 +38,26 @@ class Conv2DIndirectGemm(Conv2DGemm):
 
     def create_ppatches(self: Self) -> str:
         """Generate the new matrix to multiply in the Gemm algorithm."""
-        if self.pad_right or self.pad_left or self.pad_bottom or self.pad_top:
-            self.input_h_padded = self.input_height + self.pad_top + self.pad_bottom
-            self.input_w_padded = self.input_width + self.pad_left + self.pad_right
-
-            start_idx = np.arange(self.kernel_h)[:, None] * self.input_w_padded + np.arange(self.kernel_w)
-            c = self.input_h_padded * self.input_w_padded * np.arange(self.input_channels)
-            start_idx = (c[:, None] + start_idx.ravel()).reshape((-1, self.kernel_h, self.kernel_w))
-            offset_idx = np.arange(self.output_height * self.strides, step=self.strides)[:,
-                         None] * self.input_w_padded + np.arange(self.output_width * self.strides, step=self.strides)
-            idx_padded_input = (start_idx.ravel()[:, None] + offset_idx.ravel()).flatten()
-
-            idx_of_zeros = []
-            j_zeros = np.concatenate(
-                (np.arange(self.pad_left), np.arange(self.pad_right) + (self.input_w_padded - self.pad_right)))
-            i_zeros = np.concatenate(
-                (np.arange(self.pad_top), np.arange(self.pad_bottom) + (self.input_h_padded - self.pad_bottom)))
-            for c in range(self.input_channels):
-                for i in range(self.input_h_padded):
-                    for j in range(self.input_w_padded):
-                        if np.isin(i, i_zeros) or np.isin(j, j_zeros):
-                            idx_of_zeros.append(j + self.input_w_padded * (i + self.input_h_padded * c))
-
-            idx_padded_input = np.where(np.isin(idx_padded_input, idx_of_zeros), np.nan, idx_padded_input)
-            _, idx_padded_input = np.unique(idx_padded_input, return_inverse=True)
-            self.ppatches = np.where(idx_padded_input == self.input_channels * self.input_height * self.input_width,
-                                     np.nan, idx_padded_input)
-
-        else:
-            start_idx = np.arange(self.kernel_h)[:, None] * self.input_width + np.arange(self.kernel_w)
-            c = self.input_height * self.input_width * np.arange(self.input_channels)
-            start_idx = (c[:, None] + start_idx.ravel()).reshape((-1, self.kernel_h, self.kernel_w))
-            offset_idx = np.arange(self.output_height * self.strides, step=self.strides)[:,
-                         None] * self.input_width + np.arange(self.output_width * self.strides, step=self.strides)
-            self.ppatches = (start_idx.ravel()[:, None] + offset_idx.ravel()).flatten()
+        # Position in the input of each element of the patches, or -1 in the padding
+        rows = (np.arange(self.kernel_h)[:, None] * self.dilation_rate - self.pad_top
+                + np.arange(self.output_height) * self.strides)
+        cols = (np.arange(self.kernel_w)[:, None] * self.dilation_rate - self.pad_left
+                + np.arange(self.output_width) * self.strides)
+        rows, cols = rows[None, :, None, :, None], cols[None, None, :, None, :]
+        channels = np.arange(self.input_channels)[:, None, None, None, None]
+        positions = (channels * self.input_height + rows) * self.input_width + cols
+        inside = (rows >= 0) & (rows < self.input_height) & (cols >= 0) & (cols < self.input_width)
+        self.ppatches = np.where(inside, positions, -1).flatten()
 
         if "gemm_nt" in self.conv_algorithm or "gemm_tt" in self.conv_algorithm:
             self.ppatches = self.ppatches.reshape((self.patches_height, self.patches_width)).transpose().flatten()
 
-        output_str = self.previous_layer[0].output_str
-
         s = "\n        {"
-        for i in range(len(self.ppatches)):
-            if np.isnan(self.ppatches[i]):
-                s += "&zero, "
-            else:
-                s += "&" + output_str + "[" + str(int(self.ppatches[i])) + "], "
+        s += ", ".join(str(int(p)) for p in self.ppatches)
+        s += "}"
 
         print(self.name, self.idx, "patches size:", self.ppatches.shape)
 
-        s = s[:-2]
-        s += "}"
-
         return s
 
     def generate_inference_code_layer(self: Self) -> str:
@@ -110,8 +78,8 @@ class Conv2DIndirectGemm(Conv2DGemm):
             self.patches_width,
             self.patches_height,
             f"weights_{self.name}_{self.idx:02d}",
-            f"ppatches_{self.name}_{self.idx:02d}",
-            f"output_{self.path}",
+            self.previous_layer[0].output_str,
+            "tensor_temp",
             True)
         mustach_hash["gemm_code"] = gemm_code
 
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
index bdccebd..5708bc6 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
@@ -40,10 +40,6 @@ class Conv2DStdGemm(Conv2DGemm):
                                             "gemm_tn": self.write_im2col,
                                             "gemm_tt": self.write_im2row}
 
-        if self.conv_algorithm in ("gemm_tn", "gemm_tt"):
-            # These algorithms read the transposed weight matrix
-            self.layout = self.weights.reshape(self.nb_filters, -1).transpose().copy("C")
-
     def write_im2col(self: Self) -> str:
         """Generate im to col code."""
         output_str = self.previous_layer[0].output_str
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 05c59bc..5dd0a38 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1138,6 +1138,10 @@ class CodeGenerator(ABC):
                 else:
                     symtab[f"weights_{layer.name}_{layer.idx:02d}"] = layer.weights
 
+            if isinstance(layer, Conv2DIndirectGemm):
+                layer.create_ppatches()
+                symtab[f"ppatches_{layer.name}_{layer.idx:02d}"] = layer.ppatches.astype(np.int32)
+
             if isinstance(layer, ConstantLayer):
                 symtab[f"weights_{layer.name}_{layer.idx:02d}"] = layer.constant
 
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl
index 14077ca..0bf2748 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl
@@ -6,7 +6,7 @@
             register float weight = {{A}}[i*{{ldA}}+p];
             for(j = 0; j < {{n}}; ++j)
             {
-                ctx->tensor_temp[i*{{ldC}} + j] += weight * {{#direct}}*{{/direct}}(ctx->{{B}}[p*{{ldB}} + j]);
+                ctx->tensor_temp[i*{{ldC}} + j] += weight * {{#direct}}(ppatches_{{name}}_{{idx}}[p*{{ldB}} + j] < 0 ? 0 : ctx->{{B}}[ppatches_{{name}}_{{idx}}[p*{{ldB}} + j]]){{/direct}}{{^direct}}(ctx->{{B}}[p*{{ldB}} + j]){{/direct}};
             }
         }
         for(j = 0; j < {{n}}; ++j)
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
index e07dcf8..34bc18f 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
@@ -6,7 +6,7 @@
             register float output =0;
             for (p = 0; p < {{k}}; ++p)
             {
-                output += {{A}}[i*{{ldA}}+p]* {{#direct}}*{{/direct}}(ctx->{{B}}[j*{{ldB}}+p]);
+                output += {{A}}[i*{{ldA}}+p]* {{#direct}}(ppatches_{{name}}_{{idx}}[j*{{ldB}}+p] < 0 ? 0 : ctx->{{B}}[ppatches_{{name}}_{{idx}}[j*{{ldB}}+p]]){{/direct}}{{^direct}}(ctx->{{B}}[j*{{ldB}}+p]){{/direct}};
             }
             output += biases_{{name}}_{{idx}}[i];
             ctx->tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
index 8fadcb3..1c4916a 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
@@ -6,7 +6,7 @@
             float register weight = {{A}}[p*{{ldA}}+i];
             for (j = 0; j < {{n}}; ++j)
             {
-                ctx->tensor_temp[i*{{ldC}}+j] += weight * {{#direct}}*{{/direct}}(ctx->{{B}}[p*{{ldB}}+j]);
+                ctx->tensor_temp[i*{{ldC}}+j] += weight * {{#direct}}(ppatches_{{name}}_{{idx}}[p*{{ldB}}+j] < 0 ? 0 : ctx->{{B}}[ppatches_{{name}}_{{idx}}[p*{{ldB}}+j]]){{/direct}}{{^direct}}(ctx->{{B}}[p*{{ldB}}+j]){{/direct}};
             }
         }
         for(j = 0; j < {{n}}; ++j){
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
index e1a9a56..ebb7675 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
@@ -6,7 +6,7 @@
             float register sum = 0;
             for (p = 0; p < {{k}}; ++p)
             {
-                sum += {{A}}[p*{{ldA}} +i]* {{#direct}}*{{/direct}}(ctx->{{B}}[j*{{ldB}}+p]);
+                sum += {{A}}[p*{{ldA}} +i]* {{#direct}}(ppatches_{{name}}_{{idx}}[j*{{ldB}}+p] < 0 ? 0 : ctx->{{B}}[ppatches_{{name}}_{{idx}}[j*{{ldB}}+p]]){{/direct}}{{^direct}}(ctx->{{B}}[j*{{ldB}}+p]){{/direct}};
             }
             sum += biases_{{name}}_{{idx}}[i];
             ctx->tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
diff --git a/src/acetone_nnet/templates/template_header_file.c.tpl b/src/acetone_nnet/templates/template_header_file.c.tpl
index a551a42..83dc713 100644
--- a/src/acetone_nnet/templates/template_header_file.c.tpl
+++ b/src/acetone_nnet/templates/template_header_file.c.tpl
@@ -26,7 +26,7 @@ extern const {{data_type}} weights_{{name}}_{{idx}}[{{nb_weights}}];
 extern const {{data_type}} biases_{{name}}_{{idx}}[{{nb_biases}}];
     {{/nb_biases}}
     {{#patches_size}}
-extern {{data_type}} *ppatches_{{name}}_{{idx}}[{{patches_size}}];
+extern const int ppatches_{{name}}_{{idx}}[{{patches_size}}];
     {{/patches_size}}
     {{#channels}}
 extern const {{data_type}} mean_{{name}}_{{idx}}[{{channels}}];
diff --git a/src/acetone_nnet/templates/template_parameter_file.c.tpl b/src/acetone_nnet/templates/template_parameter_file.c.tpl
index 44c66f5..f3e79e0 100644
--- a/src/acetone_nnet/templates/template_parameter_file.c.tpl
+++ b/src/acetone_nnet/templates/template_parameter_file.c.tpl
@@ -13,7 +13,7 @@ const {{data_type}} biases_{{name}}_{{idx}}[{{nb_biases}}]  __attribute__((align
 
     {{/nb_biases}}
     {{#patches_size}}
-{{data_type}} *ppatches_{{name}}_{{idx}}[{{patches_size}}] __attribute__((aligned({{page_size}}))) = {{{patches}}};
+const int ppatches_{{name}}_{{idx}}[{{patches_size}}] __attribute__((aligned({{page_size}}))) = {{{patches}}};
 
     {{/patches_size}}
     {{#channels}}
-- 
2.43.0


From 24005cbdc974655d659f28a0dc92e722d34f235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 06/45] fix: restore the output layout when the model ends with
 an activation layer

With gen_data_format=channels_last the prediction was left in channels-last
order when the last layer was an (unfused) activation.
---
 src/acetone_nnet/generator/neural_network.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 5dd0a38..f15bccc 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -53,6 +53,7 @@ from acetone_nnet.quantize.activation import QuantizeShiftActivation
 from acetone_nnet.templates.template_makefile import TemplateMakefile
 from acetone_nnet.versioning.versioning import versioning
 from .layers import (
+    ActivationLayer,
     InputLayer,
     AveragePooling2D,
     BatchNormalization,
@@ -929,10 +930,14 @@ class CodeGenerator(ABC):
 
         # Generate code to output graph data
         output_hash = {"path": self.layers[-1].path}
-        if hasattr(self.layers[-1], "output_channels"):
-            output_hash["output_height"] = self.layers[-1].output_height
-            output_hash["output_width"] = self.layers[-1].output_width
-            output_hash["output_channels"] = self.layers[-1].output_channels
+        # Activation layers have no shape of their own, the data keeps its layout
+        shaped_layer = self.layers[-1]
+        while isinstance(shaped_layer, ActivationLayer):
+            shaped_layer = shaped_layer.previous_layer[0]
+        if hasattr(shaped_layer, "output_channels"):
+            output_hash["output_height"] = shaped_layer.output_height
+            output_hash["output_width"] = shaped_layer.output_width
+            output_hash["output_channels"] = shaped_layer.output_channels
             if (self.data_format == "channels_first") and (self.gen_data_format=="channels_last"):
                 output_hash["channels_last_to_first"] = True
             elif (self.data_format == "channels_last") and (self.gen_data_format=="channels_first"):
-- 
2.43.0


From d972df5e147f296ad25b00f58c8cbb75f81e9dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 07/45] fix: a dilated kernel is larger, not smaller, when
 computing 'same' padding

---
 src/acetone_nnet/ir/layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/ir/layer.py b/src/acetone_nnet/ir/layer.py
index 5856c45..aa345e0 100644
--- a/src/acetone_nnet/ir/layer.py
+++ b/src/acetone_nnet/ir/layer.py
@@ -127,8 +127,8 @@ class Layer(ABCHasTraits):
         if isinstance(padding, str):
             # Compute 'same' padding tensorflow
 
-            filter_height = kernel_h - (kernel_h - 1) * (dilation_rate - 1)
-            filter_width = kernel_w - (kernel_w - 1) * (dilation_rate - 1)
+            filter_height = kernel_h + (kernel_h - 1) * (dilation_rate - 1)
+            filter_width = kernel_w + (kernel_w - 1) * (dilation_rate - 1)
 
             # The total padding applied along the height and width is computed as:
             if padding in ("VALID", "valid"):
-- 
2.43.0


From 1bcd19570ce73cc831a40e5afa89ae78417416c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 08/45] fix: pooling layers with padding and fused activations

The Python reference only padded when the four pads were non-zero, let the
zeros of the padding win maxima of negative values and weigh in averages, and
ignored the activation; the CHW template swapped the top and left pads; the
HWC template used the left pad for both axes, averaged over the padding and
applied activations to an undeclared variable.
---
 .../generator/layers/pooling/Pooling2D.py        | 16 ++++++----------
 .../average_pooling/AveragePooling2DDefault.py   |  2 +-
 .../pooling/max_pooling/MaxPooling2DDefault.py   |  2 +-
 .../templates/layers/template_Pooling2D.c.tpl    |  4 ++--
 .../layers/template_Pooling2D_HWC.c.tpl          | 15 ++++++---------
 5 files changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
index 802675f..5fb222a 100644
--- a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
+++ b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
@@ -145,18 +145,14 @@ class Pooling2D(Layer):
 
         output = np.zeros((self.input_channels, self.output_height, self.output_width))
 
-        if self.pad_right and self.pad_left and self.pad_top and self.pad_bottom:
-            input_padded = np.zeros((self.input_channels, self.input_height + self.pad_top + self.pad_bottom,
-                                     self.input_width + self.pad_left + self.pad_right))
-            input_padded[:, self.pad_top:-self.pad_bottom, self.pad_left:-self.pad_right] = input_array
-        else:
-            input_padded = input_array
-
+        # The padding does not take part in the maximum or the average
         for c in range(self.input_channels):
             for i in range(self.output_height):
                 for j in range(self.output_width):
+                    top = i * self.strides - self.pad_top
+                    left = j * self.strides - self.pad_left
                     output[c, i, j] = self.pooling_function(
-                        input_padded[c, i * self.strides:i * self.strides + self.pool_size,
-                        j * self.strides:j * self.strides + self.pool_size])
+                        input_array[c, max(top, 0):top + self.pool_size,
+                        max(left, 0):left + self.pool_size])
 
-        return output
\ No newline at end of file
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py b/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
index 38575a5..eea6369 100644
--- a/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
+++ b/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
@@ -80,7 +80,7 @@ class AveragePooling2DDefault(AveragePooling2D):
             suffix = "_HWC"
             mustach_hash["is_avgpool"] = True
             if self.activation_function.name != "linear":
-                mustach_hash["activation_function"] = self.activation_function.write_activation_str("o_ptr[c]")
+                mustach_hash["activation_function"] = self.activation_function.write_activation_str("out_ptr[c]")
             mustach_hash["specific_function"] = self.specific_function(
             f"f + {self.input_width}*(ii + {self.input_height}*jj)", output_str)
         else:
diff --git a/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py b/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
index ef83e4b..7554713 100644
--- a/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
+++ b/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
@@ -79,7 +79,7 @@ class MaxPooling2DDefault(MaxPooling2D):
             suffix = "_HWC"
             mustach_hash["is_maxpool"] = True
             if self.activation_function.name != "linear":
-                mustach_hash["activation_function"] = self.activation_function.write_activation_str("o_ptr[c]")
+                mustach_hash["activation_function"] = self.activation_function.write_activation_str("out_ptr[c]")
             mustach_hash["specific_function"] = self.specific_function(
             f"f + {self.input_width}*(ii + {self.input_height}*jj)", output_str)
         else:
diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
index 5bf6825..2f68a14 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
@@ -10,8 +10,8 @@
                 {
                     for (w = 0; w < {{pool_size}}; ++w)
                     {
-                        int ii = i*{{strides}} + h - {{pad_left}};
-                        int jj = j*{{strides}} + w - {{pad_top}};
+                        int ii = i*{{strides}} + h - {{pad_top}};
+                        int jj = j*{{strides}} + w - {{pad_left}};
                         if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
                         {
                             {{{specific_function}}}
diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
index cad8b88..8c6da7f 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
@@ -1,14 +1,10 @@
     // {{name}}_{{idx}}{{comment}} {{#channels_last}}HWC layout{{/channels_last}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
     {
-        {{#is_avgpool}}
-        // Calcul de l'aire inverse déplacé au début (invariant)
-        float inv_area = 1.0f / (float)({{pool_size}} * {{pool_size}});
-        {{/is_avgpool}}
         for (int oh = 0; oh < {{output_height}}; ++oh) {
-            int temp_h_start = {{pad_left}} - oh * {{strides}};
+            int temp_h_start = {{pad_top}} - oh * {{strides}};
             int kh_start = (0 > temp_h_start) ? 0 : temp_h_start;
             
-            int temp_h_end = {{input_height}} + {{pad_left}} - oh * {{strides}};
+            int temp_h_end = {{input_height}} + {{pad_top}} - oh * {{strides}};
             int kh_end = ({{pool_size}} < temp_h_end) ? {{pool_size}} : temp_h_end;
 
             for (int ow = 0; ow < {{output_width}}; ++ow) {
@@ -27,7 +23,7 @@
 
                 // Spatial window loops
                 for (int kh = kh_start; kh < kh_end; ++kh) {
-                    int ih = oh * {{strides}} + kh - {{pad_left}};
+                    int ih = oh * {{strides}} + kh - {{pad_top}};
                     for (int kw = kw_start; kw < kw_end; ++kw) {
                         int iw = ow * {{strides}} + kw - {{pad_left}};
                         
@@ -46,9 +42,10 @@
                 }
 
                 {{#is_avgpool}}
-                // Averaging
+                // Averaging, over the part of the window that is inside the image
+                int area = (kh_end - kh_start) * (kw_end - kw_start);
                 for (int c = 0; c < {{input_channels}}; ++c) {
-                    out_ptr[c] *= inv_area;
+                    out_ptr[c] /= area;
                 }
                 {{/is_avgpool}}
                 {{#activation_function}}
-- 
2.43.0


From 4e9436038e7aba79717b555aec8a301125b8446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 09/45] fix: Reduce over two axes, over the batch axis and with
 a fused activation

---
 src/acetone_nnet/generator/layers/reduce/Reduce.py     | 10 +++++-----
 .../generator/layers/reduce/reduce_max/ReduceMax.py    |  6 +++---
 .../generator/layers/reduce/reduce_mean/ReduceMean.py  |  6 +++---
 .../generator/layers/reduce/reduce_min/ReduceMin.py    |  6 +++---
 .../generator/layers/reduce/reduce_prod/ReduceProd.py  |  6 +++---
 .../generator/layers/reduce/reduce_sum/ReduceSum.py    |  6 +++---
 .../templates/layers/template_Reduce.c.tpl             |  4 ++--
 7 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/reduce/Reduce.py b/src/acetone_nnet/generator/layers/reduce/Reduce.py
index 00cb37d..0400a5a 100644
--- a/src/acetone_nnet/generator/layers/reduce/Reduce.py
+++ b/src/acetone_nnet/generator/layers/reduce/Reduce.py
@@ -169,10 +169,10 @@ class Reduce(Layer):
             mustach_hash["func"] = "*"
 
         if len(which_dim_to_reduc) == 0:
-            if self.noop_with_empty_axes:
+            if self.noop_with_empty_axes or self.axes:
                 mustach_hash["none"] = True
                 mustach_hash["activation_function"] = self.activation_function.write_activation_str(
-                    f"ctx->output_{self.path}[k]")
+                    f"ctx->{output_str}[k]")
             else:
                 mustach_hash["all"] = True
                 mustach_hash["activation_function"] = self.activation_function.write_activation_str("reduced")
@@ -221,7 +221,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_height
                 mustach_hash["position"] = f"f + {self.input_width}*(j + {self.input_height}*i)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[f]"
 
             elif which_dim_to_reduc == "cw":
                 mustach_hash["output_dimension"] = self.output_height
@@ -229,7 +229,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_width
                 mustach_hash["position"] = f"j + {self.input_width}*(f + {self.input_height}*i)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_height}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width}*f]"
 
             elif which_dim_to_reduc == "hw":
                 mustach_hash["output_dimension"] = self.output_channels
@@ -237,7 +237,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_width
                 mustach_hash["position"] = f"j + {self.input_width}*(i + {self.input_height}*f)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_channels}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width * self.input_height}*f]"
 
             if self.reduce_func == "Mean":
                 mustach_hash["nb_elements"] = mustach_hash["reduced_dimension_1"] * mustach_hash["reduced_dimension_2"]
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py b/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
index 4a71509..2608dea 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
@@ -137,9 +137,9 @@ class ReduceMax(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.max(input_array, axis=None, keepdims=self.keepdims)
-        return np.max(input_array, axis=self.axes, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.max(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.max(input_array, axis=self.axes, keepdims=self.keepdims))
 
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py b/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
index a24ff1b..17bbf06 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
@@ -119,9 +119,9 @@ class ReduceMean(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.mean(input_array, axis=None, keepdims=self.keepdims)
-        return np.mean(input_array, axis=self.axes, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.mean(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.mean(input_array, axis=self.axes, keepdims=self.keepdims))
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py b/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
index 8a864e2..413b0e7 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
@@ -123,6 +123,6 @@ class ReduceMin(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.min(input_array, axis=None, keepdims=self.keepdims)
-        return np.min(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.min(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.min(input_array, axis=self.axes, keepdims=self.keepdims))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py b/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
index 881090c..05a0a19 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
@@ -124,6 +124,6 @@ class ReduceProd(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.multiply.reduce(input_array, axis=None, keepdims=self.keepdims)
-        return np.multiply.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.multiply.reduce(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.multiply.reduce(input_array, axis=self.axes, keepdims=self.keepdims))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py b/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
index 66bfbfb..d791707 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
@@ -124,6 +124,6 @@ class ReduceSum(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.add.reduce(input_array, axis=None, keepdims=self.keepdims)
-        return np.add.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.add.reduce(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.add.reduce(input_array, axis=self.axes, keepdims=self.keepdims))
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/template_Reduce.c.tpl b/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
index a6f7f1e..ca70a3e 100644
--- a/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
@@ -35,13 +35,13 @@
             for (j = 0; j < {{reduced_dimension_2}}; ++j)
             {
                 {{#Max}}
-                if (ctx->output_{{road}}[{{position}}] > ctx->tensor_temp[f])
+                if (ctx->{{output_str}}[{{position}}] > ctx->tensor_temp[f])
                 {
                     ctx->tensor_temp[f] = ctx->{{output_str}}[{{position}}];
                 }
                 {{/Max}}
                 {{#Min}}
-                if (ctx->output_{{road}}[{{position}}] < ctx->tensor_temp[f])
+                if (ctx->{{output_str}}[{{position}}] < ctx->tensor_temp[f])
                 {
                     ctx->tensor_temp[f] = ctx->{{output_str}}[{{position}}];
                 }
-- 
2.43.0


From 0d864442f0bead7200026fe700a5ed50c8970427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 10/45] fix: ONNX broadcast operators keep constant operands
 and operand order; import Reduce axes attributes

---
 .../generator/layers/broadcast/add/Add.py     |  14 +-
 .../layers/broadcast/average/Average.py       |   8 +-
 .../layers/broadcast/divide/Divide.py         |   4 +-
 .../layers/broadcast/maximum/Maximum.py       |   8 +-
 .../layers/broadcast/minimum/Minimum.py       |   8 +-
 .../layers/broadcast/multiply/Multiply.py     |   4 +-
 .../layers/broadcast/subtract/Subtract.py     |   4 +-
 .../importers/ONNX_importer/create_layer.py   | 134 +++++-------------
 8 files changed, 69 insertions(+), 115 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/broadcast/add/Add.py b/src/acetone_nnet/generator/layers/broadcast/add/Add.py
index 6e5ba75..697ea54 100644
--- a/src/acetone_nnet/generator/layers/broadcast/add/Add.py
+++ b/src/acetone_nnet/generator/layers/broadcast/add/Add.py
@@ -112,19 +112,17 @@ class Add(Layer):
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
         if len(self.previous_layer) > 1:
-            output = (
-                np.copy(input_arrays[0])
-                .reshape(self.input_shapes[0][1:])
-                .astype(dtype=getattr(self, "temp_pydtype", input_arrays[0].dtype))
+            output_shape = (self.output_channels, self.output_height, self.output_width)
+            first = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+            first = np.broadcast_to(first, output_shape)
+            output = first.astype(
+                dtype=getattr(self, "temp_pydtype", input_arrays[0].dtype),
             )
             for i in range(1, len(input_arrays)):
                 output += np.reshape(input_arrays[i], self.input_shapes[i][1:])
             """ checks that accumulator does not overflow in low precision integer """
             if np.issubdtype(input_arrays[0].dtype,np.integer):
-                out_i64 = (
-                    np.copy(input_arrays[0])
-                    .reshape(self.input_shapes[0][1:])
-                    .astype(dtype=np.int64))
+                out_i64 = first.astype(dtype=np.int64)
                 out_i64 += np.reshape(input_arrays[i], self.input_shapes[i][1:]).astype(dtype=np.int64)
                 if (output != out_i64).all():
                     logging.warning("Add integer overflow !!!")
diff --git a/src/acetone_nnet/generator/layers/broadcast/average/Average.py b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
index befd1f7..1f67e42 100644
--- a/src/acetone_nnet/generator/layers/broadcast/average/Average.py
+++ b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
@@ -113,9 +113,11 @@ class Average(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        output = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            output += input_array
+        if len(self.previous_layer) == 1:
+            input_arrays = [input_arrays]
+        output = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for i in range(1, len(input_arrays)):
+            output = output + np.reshape(input_arrays[i], self.input_shapes[i][1:])
         return self.activation_function.compute(output / (len(input_arrays)))
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py b/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
index 29f1557..c688c20 100644
--- a/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
+++ b/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
@@ -129,7 +129,9 @@ class Divide(Layer):
         else:
             constant = np.reshape(self.constant, self.input_shapes[-1][1:])
         if len(self.previous_layer) > 1:
-            output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
+            output_shape = (self.output_channels, self.output_height, self.output_width)
+            output = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+            output = np.array(np.broadcast_to(output, output_shape))
             for i in range(1, len(input_arrays)):
                 output /= np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
diff --git a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
index d36fe5e..1546f59 100644
--- a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
@@ -124,9 +124,11 @@ class Maximum(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        maxi = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            maxi = np.maximum(maxi, input_array)
+        if len(self.previous_layer) == 1:
+            input_arrays = [input_arrays]
+        maxi = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for i in range(1, len(input_arrays)):
+            maxi = np.maximum(maxi, np.reshape(input_arrays[i], self.input_shapes[i][1:]))
         return self.activation_function.compute(maxi)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
index 479c5e0..be19bc1 100644
--- a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
@@ -124,9 +124,11 @@ class Minimum(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        mini = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            mini = np.minimum(mini, input_array)
+        if len(self.previous_layer) == 1:
+            input_arrays = [input_arrays]
+        mini = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for i in range(1, len(input_arrays)):
+            mini = np.minimum(mini, np.reshape(input_arrays[i], self.input_shapes[i][1:]))
         return self.activation_function.compute(mini)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py b/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
index 392e569..cd92200 100644
--- a/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
+++ b/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
@@ -129,7 +129,9 @@ class Multiply(Layer):
         else:
             constant = np.reshape(self.constant, self.input_shapes[-1][1:])
         if len(self.previous_layer) > 1:
-            output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
+            output_shape = (self.output_channels, self.output_height, self.output_width)
+            output = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+            output = np.array(np.broadcast_to(output, output_shape))
             for i in range(1, len(input_arrays)):
                 output *= np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
diff --git a/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py b/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
index db4bde4..3c86670 100644
--- a/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
+++ b/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
@@ -129,7 +129,9 @@ class Subtract(Layer):
         else:
             constant = np.reshape(self.constant, self.input_shapes[-1][1:])
         if len(self.previous_layer) > 1:
-            output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
+            output_shape = (self.output_channels, self.output_height, self.output_width)
+            output = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+            output = np.array(np.broadcast_to(output, output_shape))
             for i in range(1, len(input_arrays)):
                 output -= np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 7217f56..6be6fba 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -751,7 +751,7 @@ def create_tile(
     input_shape = get_shape(node.input[0], model)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     repeats = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
     repeats = [int(rep) for rep in repeats]
@@ -784,14 +784,14 @@ def create_reduce_sum(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -802,7 +802,7 @@ def create_reduce_sum(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -838,14 +838,14 @@ def create_reduce_max(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -856,7 +856,7 @@ def create_reduce_max(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -892,14 +892,14 @@ def create_reduce_min(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -910,7 +910,7 @@ def create_reduce_min(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -946,14 +946,14 @@ def create_reduce_mean(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -964,7 +964,7 @@ def create_reduce_mean(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -1000,14 +1000,14 @@ def create_reduce_prod(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -1018,7 +1018,7 @@ def create_reduce_prod(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -1165,6 +1165,21 @@ def _collect_node_inputs(
     return collected
 
 
+def _broadcast_input_shapes(
+    model: onnx.ModelProto,
+    node: onnx.NodeProto,
+    idx: int,
+    dict_input: dict,
+) -> np.ndarray:
+    """Register the operands (tensors and initializers) and return their 4D shapes."""
+    input_shapes = []
+    dict_input[idx] = []
+    for name, shape in _collect_node_inputs(model, node):
+        dict_input[idx].append(name)
+        input_shapes.append([1] * (4 - len(shape)) + list(shape))
+    return np.array(input_shapes)
+
+
 # create a layer Add
 def create_add(
     node: onnx.NodeProto,
@@ -1204,31 +1219,10 @@ def create_div(
     model: onnx.ModelProto,
 ) -> Divide:
     """Create a Divide layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.ones(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant / onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
-
+    input_shapes = _broadcast_input_shapes(model, node, idx, dict_input)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    # FIXME It seems like a test is missing here on the values of constant
-    if (constant != np.ones(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
     return Divide(
         original_name=node.name,
         idx=idx,
@@ -1236,7 +1230,6 @@ def create_div(
         input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
@@ -1249,29 +1242,10 @@ def create_mul(
     model: onnx.ModelProto,
 ) -> Multiply:
     """Create Multiply layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.ones(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant * onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
+    input_shapes = _broadcast_input_shapes(model, node, idx, dict_input)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    if (constant != np.ones(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
     return Multiply(
         original_name=node.name,
         idx=idx,
@@ -1279,7 +1253,6 @@ def create_mul(
         input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
@@ -1292,29 +1265,10 @@ def create_sub(
     model: onnx.ModelProto,
 ) -> Subtract:
     """Create a Subtract layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.zeros(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant - onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
+    input_shapes = _broadcast_input_shapes(model, node, idx, dict_input)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    if (constant != np.zeros(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
     return Subtract(
         original_name=node.name,
         idx=idx,
@@ -1322,7 +1276,6 @@ def create_sub(
         input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
@@ -1335,18 +1288,15 @@ def create_max(
     model: onnx.ModelProto,
 ) -> Maximum:
     """Create a Max layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
+    input_shapes = _broadcast_input_shapes(model, node, idx, dict_input)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     return Maximum(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=np.array(input_shapes),
+        input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
     )
@@ -1361,18 +1311,15 @@ def create_min(
     model: onnx.ModelProto,
 ) -> Minimum:
     """Create a Min layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
+    input_shapes = _broadcast_input_shapes(model, node, idx, dict_input)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     return Minimum(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=np.array(input_shapes),
+        input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
     )
@@ -1387,12 +1334,9 @@ def create_avg(
     model: onnx.ModelProto,
 ) -> Average:
     """Create an Average layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
+    input_shapes = _broadcast_input_shapes(model, node, idx, dict_input)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     return Average(
         original_name=node.name,
-- 
2.43.0


From b38b941a4086d0726737f25601b9a304aacd5bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 11/45] fix: optimisation patterns keep layer indices unique
 and skip layers without activation

---
 src/acetone_nnet/pattern_matching/Pattern.py  | 29 ++++++-------------
 .../patterns/FuseActivationLayers.py          | 17 ++++++++---
 .../patterns/FuseConvBatchNorm.py             |  8 ++---
 .../patterns/FuseMatMulAdd.py                 |  2 +-
 .../patterns/FuseSigmoidMul.py                |  2 +-
 5 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/src/acetone_nnet/pattern_matching/Pattern.py b/src/acetone_nnet/pattern_matching/Pattern.py
index d3e06e2..77dbb6b 100644
--- a/src/acetone_nnet/pattern_matching/Pattern.py
+++ b/src/acetone_nnet/pattern_matching/Pattern.py
@@ -52,29 +52,18 @@ class Pattern(ABC):
         """Apply the pattern to the layer."""
 
 def update_indices(
-        index: int,
         layers: list[Layer],
-        shift: int,
         dict_cst: dict[int,int],
 ) -> None:
-    """Update the indices of the layers after index by shifting them of shift."""
-    nb_layers = len(layers)
-    ref = layers[index].idx
-
-    if index >= nb_layers:
-        m = f"Index out of bound ({index} > {nb_layers})"
-        raise ValueError(m)
-    if shift > index:
-        m = f"Shift can't superior to the index ({shift} > {index})"
-        raise ValueError(m)
-
-    for i in range(nb_layers):
-        if layers[i].idx > ref:
-            cst_index = dict_cst.get(layers[i].idx, None)
-            if cst_index is not None:
-                dict_cst.pop(layers[i].idx)
-                dict_cst[layers[i].idx - shift] = cst_index
-            layers[i].idx = layers[i].idx - shift
+    """Renumber the layers consecutively once some have been removed."""
+    indices = sorted(layer.idx for layer in layers)
+    new_indices = {idx: indices[0] + rank for rank, idx in enumerate(indices)}
+
+    cst = {new_indices[idx]: cst_index for idx, cst_index in dict_cst.items()}
+    dict_cst.clear()
+    dict_cst.update(cst)
+    for layer in layers:
+        layer.idx = new_indices[layer.idx]
 
 def update_next_layers(removed_layer: Layer, replacement_layer:Layer) -> None:
     """Link the layers in removed_layer.next_layer to the replacement_layer as input."""
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
index 560173d..c5901e8 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
@@ -21,7 +21,13 @@
 from typing_extensions import Self
 
 from acetone_nnet.generator.activation_functions import Linear
-from acetone_nnet.generator.layers import ActivationLayer
+from acetone_nnet.generator.layers import (
+    ActivationLayer,
+    ConstantLayer,
+    Flatten,
+    InputLayer,
+    Softmax,
+)
 from acetone_nnet.ir import Layer
 from acetone_nnet.pattern_matching.Pattern import (
     Pattern,
@@ -51,12 +57,15 @@ class FuseActivationLayer(Pattern):
 
         #Check if the previous layer:
         #   - exists
-        #   - is not an activation layer
+        #   - is not an activation layer, nor one that never applies an activation
         #   - can be fused with an activation function
         #   - only has one child
         if len(layer.previous_layer) != 1:
             return False
-        if isinstance(layer.previous_layer[0], ActivationLayer):
+        if isinstance(
+            layer.previous_layer[0],
+            (ActivationLayer, ConstantLayer, Flatten, InputLayer, Softmax),
+        ):
             return False
         if not hasattr(layer.previous_layer[0], "activation_function"):
             return False
@@ -86,7 +95,7 @@ class FuseActivationLayer(Pattern):
 
         # Updating the list of layers
         layers.pop(index)
-        update_indices(index - 1, layers, 1, dict_cst)
+        update_indices(layers, dict_cst)
 
         return self.pattern.format(
             layer.idx,
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
index 5a7daf5..2d0a34a 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
@@ -75,11 +75,11 @@ class FuseConvBatchNorm(Pattern):
     ) -> tuple[str, int]:
         """Apply the pattern to the layer."""
         batch_norm: BatchNormalization = layers[index]
-        conv: Conv2D = layers[index - 1]
+        conv: Conv2D = batch_norm.previous_layer[0]
 
         # Retrieve the constant
-        weights: np.array = conv.weights
-        biases = conv.biases
+        weights: np.array = np.array(conv.weights)
+        biases = np.array(conv.biases)
 
         scale = batch_norm.scale
         bias = batch_norm.biases
@@ -104,7 +104,7 @@ class FuseConvBatchNorm(Pattern):
 
         # Updating the list of layers
         layers.pop(index)
-        update_indices(index - 1, layers, 1, dict_cst)
+        update_indices(layers, dict_cst)
 
         return self.pattern.format(index - 1, index, index - 1), layers.index(conv)
 
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py b/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
index 8e18e08..9967db0 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
@@ -117,7 +117,7 @@ class MatMulAddToDense(Pattern):
         # Updating the list of layers
         layers[index] = dense
         layers.pop(index + 1)
-        update_indices(index, layers, 1, dict_cst)
+        update_indices(layers, dict_cst)
 
         return self.pattern.format(index, index + 1, index), layers.index(dense)
 
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
index 7d4d79a..1c86566 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
@@ -118,7 +118,7 @@ class SigmoidMultiplyToSilu(Pattern):
         # Updating the list of layers
         layers[index] = silu
         layers.remove(multiply)
-        update_indices(index, layers, 1, dict_cst)
+        update_indices(layers, dict_cst)
 
         return (self.pattern.format(layer.idx, sigmoid.idx, multiply.idx, silu.idx),
                 layers.index(layer))
-- 
2.43.0


From 67fe570bb2ed25ea6e9dc5ec3228e288e873b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 12/45] fix: MatMul broadcasts a two-dimensional operand over
 the channels

---
 src/acetone_nnet/generator/layers/matmul/MatMul.py        | 6 +++++-
 src/acetone_nnet/generator/layers/matmul/MatMulDefault.py | 4 ++++
 src/acetone_nnet/templates/layers/template_MatMul.c.tpl   | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/matmul/MatMul.py b/src/acetone_nnet/generator/layers/matmul/MatMul.py
index e72904a..a3559bf 100644
--- a/src/acetone_nnet/generator/layers/matmul/MatMul.py
+++ b/src/acetone_nnet/generator/layers/matmul/MatMul.py
@@ -50,7 +50,7 @@ class MatMul(Layer):
         self.local_var = "dotproduct"
         self.input_shapes = input_shapes
 
-        self.output_channels = self.input_shapes[0][1]
+        self.output_channels = max(self.input_shapes[0][1], self.input_shapes[1][1])
         self.output_height = self.input_shapes[0][-2]
         self.output_width = self.input_shapes[1][-1]
         self.shared_dimension = self.input_shapes[0][-1]
@@ -60,6 +60,10 @@ class MatMul(Layer):
         if self.input_shapes[1][-2] != self.input_shapes[0][-1]:
             msg = f"Error: non consistency between weight shape and input shape in MatMul ({self.input_shapes[1][-2]}!={self.input_shapes[0][-1]})"
             msg += "\n"
+        for shape in self.input_shapes:
+            if shape[1] not in (1, self.output_channels):
+                msg += f"Error: non consistency between the channels of the inputs in MatMul ({shape[1]}!={self.output_channels})"
+                msg += "\n"
         if (
             self.size
             != self.input_shapes[1][-1]
diff --git a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
index 1f3de4b..b90dbfc 100644
--- a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
+++ b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
@@ -53,6 +53,10 @@ class MatMulDefault(MatMul):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
 
+        # An operand with a single channel is broadcast over the channels
+        mustach_hash["channel_left"] = "f" if self.input_shapes[0][1] > 1 else "0"
+        mustach_hash["channel_right"] = "f" if self.input_shapes[1][1] > 1 else "0"
+
         mustach_hash["output_str_left"] = self.previous_layer[0].output_str
         mustach_hash["output_str_right"] = self.previous_layer[1].output_str
 
diff --git a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
index 178ca93..384b48e 100644
--- a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
@@ -8,7 +8,7 @@
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = 0;
                 for (k = 0; k < {{shared_dimension}}; ++k)
                 {
-                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*f)]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*f)];
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*{{channel_left}})]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*{{channel_right}})];
                 }
             }
         }
-- 
2.43.0


From 19816da7c5180b6abca19c823dcc1631530a4689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 13/45] fix: Gemm without bias, with broadcast biases, scaling
 factors and double precision

---
 .../generator/layers/gemm/Gemm.py             | 11 +++----
 .../generator/layers/gemm/GemmDefault.py      | 29 ++++++++++++++++---
 .../importers/ONNX_importer/create_layer.py   |  6 ++--
 .../layers/Gemm/template_gemm_nn.c.tpl        |  6 ++--
 .../layers/Gemm/template_gemm_nt.c.tpl        |  6 ++--
 .../layers/Gemm/template_gemm_tn.c.tpl        |  6 ++--
 .../layers/Gemm/template_gemm_tt.c.tpl        |  6 ++--
 7 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gemm/Gemm.py b/src/acetone_nnet/generator/layers/gemm/Gemm.py
index e865827..e71260d 100644
--- a/src/acetone_nnet/generator/layers/gemm/Gemm.py
+++ b/src/acetone_nnet/generator/layers/gemm/Gemm.py
@@ -80,7 +80,7 @@ class Gemm(Layer):
             self.input_width = 1
 
         self.weights = weights
-        self.biases = bias
+        self.biases = np.atleast_1d(bias)
         self.activation_function = activation_function
         self.nb_weights = self.count_elements_array(self.weights)
         self.nb_biases = self.count_elements_array(self.biases)
@@ -96,12 +96,12 @@ class Gemm(Layer):
             msg += "Error: size type in Gemm (size must be int)"
             msg += "\n"
         if self.alpha != [] and (
-            type(self.alpha[0]) is not float and type(self.alpha[0]) is int
+            type(self.alpha[0]) is not float and type(self.alpha[0]) is not int
         ):
             msg += "Error: alpha type in Gemm (alpha must be int or float)"
             msg += "\n"
-        if self.alpha != [] and (
-            type(self.beta[0]) is not float and type(self.beta[0]) is int
+        if self.beta != [] and (
+            type(self.beta[0]) is not float and type(self.beta[0]) is not int
         ):
             msg += "Error: beta type in Gemm (beta must be int or float)"
             msg += "\n"
@@ -148,7 +148,8 @@ class Gemm(Layer):
             msg += f"Error: non consistency between output shape and output weight in Gemm ({self.output_width}!={self.weights.shape[1 - self.transpo[1]]})"
             msg += "\n"
         if any(
-            self.biases.shape[i] != 1 and self.biases.shape[i] != output_shape[3 - i]
+            self.biases.shape[-1 - i] != 1
+            and self.biases.shape[-1 - i] != output_shape[3 - i]
             for i in range(len(self.biases.shape))
         ):
             msg = f"Error: biases ({self.biases.shape}) in Gemm not broadcastable to dim ({self.output_height},{self.output_width})"
diff --git a/src/acetone_nnet/generator/layers/gemm/GemmDefault.py b/src/acetone_nnet/generator/layers/gemm/GemmDefault.py
index 4af7e0c..b3b92ec 100644
--- a/src/acetone_nnet/generator/layers/gemm/GemmDefault.py
+++ b/src/acetone_nnet/generator/layers/gemm/GemmDefault.py
@@ -42,6 +42,15 @@ class GemmDefault(Gemm):
             (1, 0): self.write_gemm_tn,
         }
 
+    def bias_index(self: Self) -> str:
+        """Index of the bias added to element (i, j), the biases being broadcast."""
+        height, width = ([1, 1] + list(self.biases.shape))[-2:]
+        if height > 1 and width > 1:
+            return f"i*{width} + j"
+        if height > 1:
+            return "i"
+        return "j" if width > 1 else "0"
+
     # The various ways to compute the operation:
 
     # None of the tensor ar transposed
@@ -65,10 +74,13 @@ class GemmDefault(Gemm):
         mustach_hash["A"] = a
         mustach_hash["B"] = b
         mustach_hash["activation_function"] = (
-            self.activation_function.write_activation_str("output")
+            self.activation_function.write_activation_str(
+                f"ctx->tensor_temp[(i * {n}) + j]",
+            )
         )
         mustach_hash["alpha"] = self.alpha
         mustach_hash["beta"] = self.beta
+        mustach_hash["bias_index"] = self.bias_index()
 
         with open(
             self.template_path / "layers" / "Gemm" / "template_gemm_nn.c.tpl"
@@ -97,10 +109,13 @@ class GemmDefault(Gemm):
         mustach_hash["A"] = a
         mustach_hash["B"] = b
         mustach_hash["activation_function"] = (
-            self.activation_function.write_activation_str("output")
+            self.activation_function.write_activation_str(
+                f"ctx->tensor_temp[i*{n}+j]",
+            )
         )
         mustach_hash["alpha"] = self.alpha
         mustach_hash["beta"] = self.beta
+        mustach_hash["bias_index"] = self.bias_index()
 
         with open(
             self.template_path / "layers" / "Gemm" / "template_gemm_nt.c.tpl"
@@ -129,10 +144,13 @@ class GemmDefault(Gemm):
         mustach_hash["A"] = a
         mustach_hash["B"] = b
         mustach_hash["activation_function"] = (
-            self.activation_function.write_activation_str("output")
+            self.activation_function.write_activation_str(
+                f"ctx->tensor_temp[i*{n} + j]",
+            )
         )
         mustach_hash["alpha"] = self.alpha
         mustach_hash["beta"] = self.beta
+        mustach_hash["bias_index"] = self.bias_index()
 
         with open(
             self.template_path / "layers" / "Gemm" / "template_gemm_tn.c.tpl"
@@ -161,10 +179,13 @@ class GemmDefault(Gemm):
         mustach_hash["A"] = a
         mustach_hash["B"] = b
         mustach_hash["activation_function"] = (
-            self.activation_function.write_activation_str("sum")
+            self.activation_function.write_activation_str(
+                f"ctx->tensor_temp[i*{n}+j]",
+            )
         )
         mustach_hash["alpha"] = self.alpha
         mustach_hash["beta"] = self.beta
+        mustach_hash["bias_index"] = self.bias_index()
 
         with open(
             self.template_path / "layers" / "Gemm" / "template_gemm_tt.c.tpl"
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 6be6fba..1dc710b 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -576,9 +576,9 @@ def create_gemm(
     attributes = extract_attributes(node)
     b_tensor = look_for_initializer(node.input[1], model)
     if len(node.input) == 3:  # noqa: PLR2004
-        c_tensor = look_for_initializer(node.input[2], model)
+        bias = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))
     else:
-        c_tensor = np.zeros((1, 1))
+        bias = np.zeros((1, 1))
     if "transA" not in attributes:
         attributes["transA"] = 0
     if "transB" not in attributes:
@@ -596,7 +596,7 @@ def create_gemm(
         transA=attributes["transA"],
         transB=attributes["transB"],
         weights=onnx.numpy_helper.to_array(b_tensor),
-        bias=onnx.numpy_helper.to_array(c_tensor),
+        bias=bias,
         input_shape=input_shape,
         output_shape=output_shape,
         activation_function=Linear(),
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
index 2186fe0..24ed67d 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
@@ -3,12 +3,12 @@
     {
         for(j = 0; j< {{n}}; ++j)
         {
-            register float output = 0;
+            ctx->tensor_temp[(i * {{n}}) + j] = 0;
             for (p = 0; p < {{k}}; ++p)
             {
-                output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[(i * {{k}}) + p]*({{B}}[(p * {{n}}) + j]);
+                ctx->tensor_temp[(i * {{n}}) + j] += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[(i * {{k}}) + p]*({{B}}[(p * {{n}}) + j]);
             }
-            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[j];
+            ctx->tensor_temp[(i * {{n}}) + j] += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[{{{bias_index}}}];
             ctx->tensor_temp[(i * {{n}}) + j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
index 91d9da8..1c0ffe7 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
@@ -3,12 +3,12 @@
     {
         for (j = 0; j < {{n}}; ++j)
         {
-            register float output = 0;
+            ctx->tensor_temp[i*{{n}}+j] = 0;
             for (p = 0; p < {{k}}; ++p)
             {
-                output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[(i * {{k}}) + p]*({{B}}[(j * {{k}}) + p]);
+                ctx->tensor_temp[i*{{n}}+j] += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[(i * {{k}}) + p]*({{B}}[(j * {{k}}) + p]);
             }
-            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[j];
+            ctx->tensor_temp[i*{{n}}+j] += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[{{{bias_index}}}];
             ctx->tensor_temp[i*{{n}}+j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
index ae27567..ed72d9b 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
@@ -3,12 +3,12 @@
     {
         for(j = 0; j < {{n}}; ++j)
         {
-            float register output = 0;
+            ctx->tensor_temp[i*{{n}} + j] = 0;
             for (p = 0; p < {{k}}; ++p)
             {
-                output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[p*{{m}}+i]*{{#direct}}*{{/direct}}({{B}}[p*{{n}}+j]);
+                ctx->tensor_temp[i*{{n}} + j] += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[p*{{m}}+i]*{{#direct}}*{{/direct}}({{B}}[p*{{n}}+j]);
             }   
-            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[j];
+            ctx->tensor_temp[i*{{n}} + j] += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[{{{bias_index}}}];
             ctx->tensor_temp[i*{{n}} + j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
index 186f4e8..e426678 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
@@ -3,12 +3,12 @@
     {
         for (j = 0; j < {{n}}; ++j)
         {
-            float register sum = 0;
+            ctx->tensor_temp[i*{{n}}+j] = 0;
             for (p = 0; p < {{k}}; ++p)
             {
-                sum += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[p*{{m}} +i]*{{#direct}}*{{/direct}}({{B}}[j*{{k}}+p]);
+                ctx->tensor_temp[i*{{n}}+j] += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[p*{{m}} +i]*{{#direct}}*{{/direct}}({{B}}[j*{{k}}+p]);
             }
-            sum += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[j];
+            ctx->tensor_temp[i*{{n}}+j] += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[{{{bias_index}}}];
             ctx->tensor_temp[i*{{n}}+j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
-- 
2.43.0


From 72b75171807265125c250ce37ea2e21cb8afbe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 14/45] fix: data movement layers: negative indices, fused
 activations, single operand, shared tensors

Gather/GatherElements no longer write into the read-only ONNX indices,
the Python references of Gather, GatherElements, Transpose and Tile apply
the fused activation, a Concat of one tensor works, and a tensor seen
through Dropout/Reshape/... keeps its other users.
---
 .../generator/layers/concatenate/Concatenate.py             | 2 ++
 src/acetone_nnet/generator/layers/gather/Gather.py          | 4 +++-
 .../generator/layers/gather_elements/GatherElements.py      | 2 +-
 src/acetone_nnet/generator/layers/tile/Tile.py              | 4 +++-
 src/acetone_nnet/generator/layers/transpose/Transpose.py    | 2 +-
 src/acetone_nnet/importers/ONNX_importer/create_layer.py    | 6 +++---
 6 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/concatenate/Concatenate.py b/src/acetone_nnet/generator/layers/concatenate/Concatenate.py
index d49a16f..7d54900 100644
--- a/src/acetone_nnet/generator/layers/concatenate/Concatenate.py
+++ b/src/acetone_nnet/generator/layers/concatenate/Concatenate.py
@@ -138,6 +138,8 @@ class Concatenate(Layer):
             inputs_array: np.ndarray,
     ) -> np.ndarray:
         """Compute output of layer."""
+        if len(self.input_shapes) == 1:
+            inputs_array = [inputs_array]
         output = inputs_array[0]
         output = output.reshape(
             self.input_shapes[0][1],
diff --git a/src/acetone_nnet/generator/layers/gather/Gather.py b/src/acetone_nnet/generator/layers/gather/Gather.py
index 55a87d0..1697c08 100644
--- a/src/acetone_nnet/generator/layers/gather/Gather.py
+++ b/src/acetone_nnet/generator/layers/gather/Gather.py
@@ -130,4 +130,6 @@ class Gather(Layer):
             self.input_channels,
             self.input_height,
             self.input_width)
-        return np.take(input_array, indices=self.indices, axis=self.axis - 1)
\ No newline at end of file
+        return self.activation_function.compute(
+            np.take(input_array, indices=self.indices, axis=self.axis - 1),
+        )
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py b/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
index 127a1d6..acd32da 100644
--- a/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
+++ b/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
@@ -155,4 +155,4 @@ class GatherElements(Layer):
                         output[f, i, j] = input_array[f, self.indices[0, f, i, j], j]
                     elif self.axis == 3:
                         output[f, i, j] = input_array[f, i, self.indices[0, f, i, j]]
-        return output
\ No newline at end of file
+        return self.activation_function.compute(output)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/tile/Tile.py b/src/acetone_nnet/generator/layers/tile/Tile.py
index af388e9..9a32080 100644
--- a/src/acetone_nnet/generator/layers/tile/Tile.py
+++ b/src/acetone_nnet/generator/layers/tile/Tile.py
@@ -107,4 +107,6 @@ class Tile(Layer):
     ) -> np.ndarray:
         """Compute output of layer."""
         input_array = input_array.reshape((self.input_channels, self.input_height, self.input_width))
-        return np.tile(input_array, self.repeats[1:])
\ No newline at end of file
+        return self.activation_function.compute(
+            np.tile(input_array, self.repeats[1:]),
+        )
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/transpose/Transpose.py b/src/acetone_nnet/generator/layers/transpose/Transpose.py
index b29936f..cee3d6c 100644
--- a/src/acetone_nnet/generator/layers/transpose/Transpose.py
+++ b/src/acetone_nnet/generator/layers/transpose/Transpose.py
@@ -117,4 +117,4 @@ class Transpose(Layer):
             input_array,
             (1, self.input_channels, self.input_height, self.input_width),
         )
-        return np.transpose(input_array, self.perm)
\ No newline at end of file
+        return self.activation_function.compute(np.transpose(input_array, self.perm))
\ No newline at end of file
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 1dc710b..64c6fbf 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -495,7 +495,7 @@ def create_gather(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
+    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)).copy()
     if "axis" not in attributes:
         attributes["axis"] = 0
     elif attributes["axis"] < 0:
@@ -534,7 +534,7 @@ def create_gather_elements(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
+    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)).copy()
     if "axis" not in attributes:
         attributes["axis"] = 0
     elif attributes["axis"] < 0:
@@ -1450,7 +1450,7 @@ def bypass(
     model: onnx.ModelProto,
 ) -> None:
     """Bypass the layer (output=input)."""
-    dict_output[node.output[0]] = dict_output.pop(node.input[0])
+    dict_output[node.output[0]] = dict_output[node.input[0]]
 
 
 def create_initializer(
-- 
2.43.0


From a43d77a6adda2ed9224028ae358eab18db48c07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 15/45] fix: Pad with optional inputs, axes, infinite
 constants, size-one reflection and fused activations

---
 .../constant_pad/ConstantPadDefault.py        |  3 +-
 .../padding/reflect_pad/ReflectPadDefault.py  |  4 +++
 .../importers/ONNX_importer/create_layer.py   | 31 +++++++++++--------
 .../Pad/template_Pad_Non_Constant.c.tpl       |  3 --
 .../layers/Pad/template_Reflect_Pad.c.tpl     |  6 ++--
 .../layers/Pad/template_Wrap_Pad.c.tpl        | 27 ++++++----------
 6 files changed, 36 insertions(+), 38 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/padding/constant_pad/ConstantPadDefault.py b/src/acetone_nnet/generator/layers/padding/constant_pad/ConstantPadDefault.py
index ea0a564..2b109df 100644
--- a/src/acetone_nnet/generator/layers/padding/constant_pad/ConstantPadDefault.py
+++ b/src/acetone_nnet/generator/layers/padding/constant_pad/ConstantPadDefault.py
@@ -63,7 +63,8 @@ class ConstantPadDefault(ConstantPad):
         mustach_hash["height_without_pads_bottom"] = self.output_height - self.pads[6]
         mustach_hash["pads_left"] = self.pads[3]
         mustach_hash["width_without_pads_right"] = self.output_width - self.pads[7]
-        mustach_hash["constant"] = self.constant_value
+        # Python's "inf" is spelled INFINITY in C
+        mustach_hash["constant"] = str(self.constant_value).replace("inf", "INFINITY")
         mustach_hash["input_width"] = self.input_shape[3]
         mustach_hash["input_height"] = self.input_shape[2]
 
diff --git a/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py b/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py
index 22efb2f..d7eb09f 100644
--- a/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py
+++ b/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py
@@ -47,6 +47,10 @@ class ReflectPadDefault(ReflectPad):
         mustach_hash["channels_max"] = self.input_shape[1] - 1
         mustach_hash["height_max"] = self.input_shape[2] - 1
         mustach_hash["width_max"] = self.input_shape[3] - 1
+        # A dimension of size one has a single element to reflect
+        mustach_hash["reflect_channels"] = self.input_shape[1] > 1
+        mustach_hash["reflect_height"] = self.input_shape[2] > 1
+        mustach_hash["reflect_width"] = self.input_shape[3] > 1
 
         with open(self.template_path / "layers" / "Pad" / "template_Reflect_Pad.c.tpl") as template_file:
             template = template_file.read()
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 64c6fbf..29d10a1 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -456,23 +456,28 @@ def create_pad(
     ]
     attributes = extract_attributes(node)
 
-    initializer_length = 2
-    if len(initializers) == initializer_length:
-        axes = []
-    else:
-        axes = onnx.numpy_helper.to_array(initializers[2])
-        for i in range(len(axes)):
-            axe = axes[i]
-            if axe < 0:
-                axe = len(input_shape) - axe
-            axes[i] = axe
+    # The constant value and the axes are optional
+    constant_value = 0.0
+    if len(initializers) > 1 and initializers[1]:
+        constant_value = onnx.numpy_helper.to_array(initializers[1]).item()
+    original_len_shape = len(get_shape(node.input[0], model, extend=False))
+    axes = list(range(original_len_shape))
+    if len(initializers) > 2 and initializers[2]:  # noqa: PLR2004
+        axes = onnx.numpy_helper.to_array(initializers[2]).tolist()
+    # Extend the pads to the four dimensions of the layer's tensors
+    onnx_pads = list(map(int, onnx.numpy_helper.to_array(initializers[0])))
+    pads = [0] * 8
+    for i, axe in enumerate(axes):
+        axes[i] = axe % original_len_shape + 4 - original_len_shape
+        pads[axes[i]] = onnx_pads[i]
+        pads[axes[i] + 4] = onnx_pads[i + len(axes)]
     return create_pad_obj(
-        mode=attributes["mode"],
+        mode=attributes.get("mode", b"constant"),
         original_name=node.name,
         idx=idx,
         size=size,
-        pads=list(map(int, onnx.numpy_helper.to_array(initializers[0]))),
-        constant_value=float(onnx.numpy_helper.to_array(initializers[1])),
+        pads=pads,
+        constant_value=float(constant_value),
         axes=axes,
         input_shape=list(map(int, input_shape)),
         activation_function=Linear(),
diff --git a/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
index 7f732aa..5584388 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
@@ -12,9 +12,6 @@
                 {{{change_indice}}}
 
                 ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = ctx->{{output_str}}[new_j + {{input_width}} * (new_i + {{input_height}} * new_f)];
-                {{^linear}}
-                ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = {{{activation_function}}};
-                {{/linear}}
                 {{#activation_function}}
                 ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = {{{activation_function}}};
                 {{/activation_function}}
diff --git a/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl
index 639089c..f5c8c74 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl
@@ -1,4 +1,4 @@
-                new_f = ({{pads_front}} - f) % (2*{{channels_max}});
+                new_f = {{#reflect_channels}}({{pads_front}} - f) % (2*{{channels_max}}){{/reflect_channels}}{{^reflect_channels}}0{{/reflect_channels}};
                 if(new_f < 0)
                 {
                     new_f = 2*{{channels_max}} + new_f;
@@ -8,7 +8,7 @@
                     new_f = 2*{{channels_max}} - new_f;
                 }
 
-                new_i = ({{pads_top}} - i) % (2*{{height_max}});
+                new_i = {{#reflect_height}}({{pads_top}} - i) % (2*{{height_max}}){{/reflect_height}}{{^reflect_height}}0{{/reflect_height}};
                 if(new_i < 0)
                 {
                     new_i = 2*{{height_max}} + new_i;
@@ -18,7 +18,7 @@
                     new_i = 2*{{height_max}} - new_i;
                 }
 
-                new_j = ({{pads_left}} - j) % (2*{{width_max}});
+                new_j = {{#reflect_width}}({{pads_left}} - j) % (2*{{width_max}}){{/reflect_width}}{{^reflect_width}}0{{/reflect_width}};
                 if(new_j < 0)
                 {
                     new_j = 2*{{width_max}} + new_j;
diff --git a/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
index 5bf4f2f..2c2e3e5 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
@@ -1,26 +1,17 @@
-                if(f >= {{channels_and_pad_front}})
+                new_f = (f - {{pads_front}}) % {{input_channels}};
+                if(new_f < 0)
                 {
-                    new_f = (new_f) % ({{input_channels}});
-                }
-                if(f < {{pads_front}})
-                {
-                    new_f = (new_f) % ({{input_channels}}) +  {{input_channels}};
+                    new_f = new_f + {{input_channels}};
                 }
 
-                if(i >= {{height_and_pad_top}})
-                {
-                    new_i = (new_i) % ({{input_height}});
-                }
-                if(i < {{pads_top}})
+                new_i = (i - {{pads_top}}) % {{input_height}};
+                if(new_i < 0)
                 {
-                    new_i = (new_i) % ({{input_height}}) + {{input_height}};
+                    new_i = new_i + {{input_height}};
                 }
 
-                if(j >= {{width_and_pad_left}})
-                {
-                    new_j = (new_j) % ({{input_width}});
-                }
-                if(j < {{pads_left}})
+                new_j = (j - {{pads_left}}) % {{input_width}};
+                if(new_j < 0)
                 {
-                    new_j = (new_j) % ({{input_width}}) + {{input_width}};
+                    new_j = new_j + {{input_width}};
                 }
\ No newline at end of file
-- 
2.43.0


From 34883702a7d00cfaaf657febb874a0e622de1664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 16/45] fix: Softmax over an axis of a flat tensor, with large
 inputs and with the semantics of opsets before 13

---
 .../generator/layers/softmax/Softmax.py       |  9 ++++--
 .../layers/softmax/SoftmaxDefault.py          | 14 +++-----
 src/acetone_nnet/generator/neural_network.py  |  2 +-
 .../importers/ONNX_importer/create_layer.py   | 13 +++++---
 .../templates/layers/template_Softmax.c.tpl   | 32 +++++++++++--------
 5 files changed, 38 insertions(+), 32 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/softmax/Softmax.py b/src/acetone_nnet/generator/layers/softmax/Softmax.py
index bc792ff..f617b27 100644
--- a/src/acetone_nnet/generator/layers/softmax/Softmax.py
+++ b/src/acetone_nnet/generator/layers/softmax/Softmax.py
@@ -47,7 +47,7 @@ class Softmax(Layer):
             self.original_name = original_name
         self.axis = axis
 
-        if self.size in output_shape:
+        if self.size in output_shape and (axis is None or output_shape[axis] == self.size):
             self.one_dimension = True
         else:
             self.output_channels = output_shape[1]
@@ -101,11 +101,14 @@ class Softmax(Layer):
             input_array: np.ndarray,
     ) -> np.ndarray:
         """Compute output of layer."""
+        axis = self.axis
         if not self.one_dimension:
             input_array = input_array.reshape(1, self.output_channels, self.output_height, self.output_width)
         else:
             input_array = input_array.flatten()
-            self.axis = -1
+            axis = -1
 
+        # Shift by the maximum so that the exponentials cannot overflow
+        input_array = input_array - np.max(input_array, keepdims=True, axis=axis)
         exp = np.exp(input_array, dtype=float)
-        return exp / np.sum(exp, keepdims=True, axis=self.axis)
\ No newline at end of file
+        return exp / np.sum(exp, keepdims=True, axis=axis)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
index 9bdc014..244a1e4 100644
--- a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
+++ b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
@@ -60,25 +60,19 @@ class SoftmaxDefault(Softmax):
                 mustach_hash["sum_dimension_1"] = self.output_height
                 mustach_hash["sum_dimension_2"] = self.output_width
                 mustach_hash["reduced_dimension"] = self.output_channels
-                mustach_hash["reduced_position_1"] = f"i + {self.output_width}*f"
-                mustach_hash["reduced_position_2"] = f"i + {self.output_width}*(f + {self.output_height}*j)"
-                mustach_hash["softmax_indice"] = f"j + {self.output_width}*i"
+                mustach_hash["reduced_position"] = f"i + {self.output_width}*(f + {self.output_height}*j)"
 
             elif self.axis == 2:
                 mustach_hash["sum_dimension_1"] = self.output_channels
                 mustach_hash["sum_dimension_2"] = self.output_width
                 mustach_hash["reduced_dimension"] = self.output_height
-                mustach_hash["reduced_position_1"] = f"i + {self.output_width}*f"
-                mustach_hash["reduced_position_2"] = f"i + {self.output_width}*(j + {self.output_height}*f)"
-                mustach_hash["softmax_indice"] = f"j + {self.output_width}*f"
+                mustach_hash["reduced_position"] = f"i + {self.output_width}*(j + {self.output_height}*f)"
 
             elif self.axis == 3:
                 mustach_hash["sum_dimension_1"] = self.output_channels
                 mustach_hash["sum_dimension_2"] = self.output_height
                 mustach_hash["reduced_dimension"] = self.output_width
-                mustach_hash["reduced_position_1"] = f"i + {self.output_height}*f"
-                mustach_hash["reduced_position_2"] = f"j + {self.output_width}*(i + {self.output_height}*f)"
-                mustach_hash["softmax_indice"] = f"i + {self.output_height}*f"
+                mustach_hash["reduced_position"] = f"j + {self.output_width}*(i + {self.output_height}*f)"
 
         mustach_hash["activation_function"] = self.activation_function.write_activation_str(f"ctx->output_{self.path}[j]")
 
@@ -104,7 +98,7 @@ def softmax_default_implementation(
         idx=old_layer.idx,
         size=old_layer.size,
         output_shape=output_shape,
-        axis=old_layer.axis,
+        axis=None if old_layer.one_dimension else old_layer.axis,
     )
 
 softmax_factory.register_implementation(
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index f15bccc..7f3997f 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -861,7 +861,7 @@ class CodeGenerator(ABC):
         ):
             mustach_hash["is_sum"] = True
 
-        if any(isinstance(i, MaxPooling2D) for i in self.layers):
+        if any(isinstance(i, MaxPooling2D | Softmax) for i in self.layers):
             mustach_hash["is_max"] = True
 
         if any(isinstance(i, AveragePooling2D) for i in self.layers):
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 29d10a1..4e480e0 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -244,11 +244,14 @@ def create_softmax(
     dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if "axis" not in attributes:
-        if model.opset_import[0].version < onnx_version_change_implementation:
-            attributes["axis"] = 1
-        else:
-            attributes["axis"] = len(output_shape) - 1
+    if model.opset_import[0].version < onnx_version_change_implementation:
+        # The input is coerced to two dimensions, split at the axis
+        axis = attributes.get("axis", 1)
+        inner = find_size(get_shape(node.output[0], model, extend=False)[axis:])
+        output_shape = [1, 1, size // inner, inner]
+        attributes["axis"] = 3
+    elif "axis" not in attributes:
+        attributes["axis"] = len(output_shape) - 1
     elif attributes["axis"] < 0:
         attributes["axis"] = len(output_shape) + attributes["axis"]
     else:
diff --git a/src/acetone_nnet/templates/layers/template_Softmax.c.tpl b/src/acetone_nnet/templates/layers/template_Softmax.c.tpl
index 3715fc7..268a6f7 100644
--- a/src/acetone_nnet/templates/layers/template_Softmax.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Softmax.c.tpl
@@ -1,11 +1,17 @@
     // {{name}}_{{idx}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
     {{#1D}}
+    max = ctx->{{output_str}}[0];
+    for (i = 1; i < {{size}}; ++i)
+    {
+        if (ctx->{{output_str}}[i] > max)
+            max = ctx->{{output_str}}[i];
+    }
     sum = 0;
     for (i = 0; i < {{size}}; ++i)
-        sum += exp(ctx->{{output_str}}[i]);
+        sum += exp(ctx->{{output_str}}[i] - max);
     for (j = 0; j < {{size}}; ++j)
     {
-        ctx->output_{{road}}[j] = exp(ctx->{{output_str}}[j])/sum;
+        ctx->output_{{road}}[j] = exp(ctx->{{output_str}}[j] - max)/sum;
         ctx->output_{{road}}[j] = {{{activation_function}}};
     }
     {{/1D}}
@@ -14,21 +20,21 @@
     {
         for (i = 0; i < {{sum_dimension_2}}; ++i)
         {
-            ctx->tensor_temp[{{reduced_position_1}}] = 0;
+            j = 0;
+            max = ctx->{{output_str}}[{{reduced_position}}];
+            for (j = 1; j < {{reduced_dimension}}; ++j)
+            {
+                if (ctx->{{output_str}}[{{reduced_position}}] > max)
+                    max = ctx->{{output_str}}[{{reduced_position}}];
+            }
+            sum = 0;
             for (j = 0; j < {{reduced_dimension}}; ++j)
             {
-                ctx->tensor_temp[{{reduced_position_1}}] += exp(ctx->{{output_str}}[{{reduced_position_2}}]);
+                sum += exp(ctx->{{output_str}}[{{reduced_position}}] - max);
             }
-        }
-    }
-
-    for (f = 0; f < {{output_channels}}; ++f)
-    {
-        for (i = 0; i < {{output_height}}; ++i)
-        {
-            for (j = 0; j < {{output_width}}; ++j)
+            for (j = 0; j < {{reduced_dimension}}; ++j)
             {
-                ctx->output_{{road}}[j + {{output_width}}*(i +  {{output_height}}*f)] = exp(ctx->{{output_str}}[j + {{output_width}}*(i +  {{output_height}}*f)])/ctx->tensor_temp[{{softmax_indice}}];
+                ctx->output_{{road}}[{{reduced_position}}] = exp(ctx->{{output_str}}[{{reduced_position}}] - max)/sum;
             }
         }
     }
-- 
2.43.0


From 5c3b67bd476c4b9dc2e50098934e202e18fd349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 17/45] fix: a layer fused with a Silu writes the buffer its
 consumers read

---
 .../pattern_matching/patterns/FuseActivationLayers.py           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
index c5901e8..0aa1ffa 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
@@ -87,6 +87,8 @@ class FuseActivationLayer(Pattern):
         layer: Layer = activation_layer.previous_layer[0]
 
         layer.activation_function = activation_layer.activation_function
+        # The consumers read the buffer that was allocated to the activation
+        layer.path = activation_layer.path
         update_dict_cst(activation_layer,layer,dict_cst)
 
         layer.next_layer.remove(activation_layer)
-- 
2.43.0


From 53630f5dc172c501ccb495d4a4d34665be2bcbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 18/45] fix: import Clip with scalar, missing, infinite or
 attribute bounds

---
 src/acetone_nnet/generator/activation_functions.py  | 11 +++++++----
 .../importers/ONNX_importer/create_layer.py         | 13 ++++++++-----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/acetone_nnet/generator/activation_functions.py b/src/acetone_nnet/generator/activation_functions.py
index afa6338..167a176 100644
--- a/src/acetone_nnet/generator/activation_functions.py
+++ b/src/acetone_nnet/generator/activation_functions.py
@@ -267,18 +267,21 @@ class Clip(ActivationFunctions):
         """Generate the string to print."""
         # output = condition ? value_if_true : value_if_false
         # output = input > max ? max : (input < min ? min : input)
+        # Python's "inf" is spelled INFINITY in C
+        max_value = str(self.max).replace("inf", "INFINITY")
+        min_value = str(self.min).replace("inf", "INFINITY")
         return (
             local_var
             + " > "
-            + str(self.max)
+            + max_value
             + " ? "
-            + str(self.max)
+            + max_value
             + " : ("
             + local_var
             + " < "
-            + str(self.min)
+            + min_value
             + " ? "
-            + str(self.min)
+            + min_value
             + " : "
             + local_var
             + ")"
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 4e480e0..c118676 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1378,11 +1378,14 @@ def instantiate_activation_layer(
                 attribute["alpha"] = 0.01
             return LeakyReLu(attribute["alpha"])
         case "Clip":
-            mini, maxi = float("-inf"), float("inf")
-            if node.input[1]:
-                mini = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))[0]
-            if node.input[2]:
-                maxi = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))[0]
+            # The bounds are optional, and attributes before opset 11
+            attribute = extract_attributes(node)
+            mini = attribute.get("min", float("-inf"))
+            maxi = attribute.get("max", float("inf"))
+            if len(node.input) > 1 and node.input[1]:
+                mini = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)).item()
+            if len(node.input) > 2 and node.input[2]:  # noqa: PLR2004
+                maxi = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model)).item()
             return Clip(maxi,mini)
         case _:
             return None
-- 
2.43.0


From 06a3e95d51d62ca9668f3afdf27fbfa8a2b58570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 19/45] fix: std_gemm convolutions and Flatten read the buffer
 of their input

---
 .../layers/convolution/Conv2DGemmTarget.py         |  1 +
 .../generator/layers/convolution/Conv2DStdGemm.py  |  1 +
 .../generator/layers/flatten/FlattenDefault.py     | 14 +++++++++-----
 .../layers/Conv/template_Conv_std_gemm.c.tpl       |  2 +-
 .../templates/layers/template_Flatten.c.tpl        | 10 ++++++++--
 5 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py b/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
index 7b1e64d..e7fa6a6 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
@@ -127,6 +127,7 @@ class Conv2DGemmTarget(Conv2DGemm):
 
         if "cst" not in self.previous_layer[0].output_str:
             mustach_hash["cst"] = True
+            mustach_hash["input_str"] = self.previous_layer[0].output_str
             mustach_hash["input_size"] = (
                 self.input_channels * self.input_height * self.input_width
             )
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
index 5708bc6..765f3b7 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
@@ -121,6 +121,7 @@ class Conv2DStdGemm(Conv2DGemm):
 
         if "cst" not in self.previous_layer[0].output_str:
             mustach_hash["cst"] = True
+            mustach_hash["input_str"] = self.previous_layer[0].output_str
             mustach_hash["input_size"] = self.input_channels * self.input_height * self.input_width
 
         with open(self.template_path / "layers" / "Conv" / "template_Conv_std_gemm.c.tpl") as template_file:
diff --git a/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py b/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py
index a619314..fc4f011 100644
--- a/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py
+++ b/src/acetone_nnet/generator/layers/flatten/FlattenDefault.py
@@ -39,16 +39,20 @@ class FlattenDefault(Flatten):
         """Generate computation code for layer."""
         mustach_hash = {}
 
+        mustach_hash["name"] = self.name
+        mustach_hash["original_name"] = self.original_name
+        mustach_hash["idx"] = f"{self.idx:02d}"
+        mustach_hash["path"] = self.path
+        mustach_hash["size"] = self.size
+        mustach_hash["input_str"] = self.previous_layer[0].output_str
+
         if self.data_format == "channels_last":
             mustach_hash["channels_last"] = True
             mustach_hash["input_channels"] = self.input_shape[1]
             mustach_hash["input_height"] = self.input_shape[2]
             mustach_hash["input_width"] = self.input_shape[3]
-            mustach_hash["name"] = self.name
-            mustach_hash["original_name"] = self.original_name
-            mustach_hash["idx"] = f"{self.idx:02d}"
-            mustach_hash["path"] = self.path
-            mustach_hash["size"] = self.size
+        elif self.previous_layer[0].output_str != f"output_{self.path}":
+            mustach_hash["copy"] = True
 
         with open(self.template_path / "layers" / "template_Flatten.c.tpl") as template_file:
             template = template_file.read()
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_std_gemm.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_std_gemm.c.tpl
index af87b11..75be157 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_std_gemm.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_std_gemm.c.tpl
@@ -2,7 +2,7 @@
     {{#cst}}
     for (k = 0; k < {{input_size}}; ++k)
     {
-        ctx->tensor_temp[k] = ctx->output_{{road}}[k];
+        ctx->tensor_temp[k] = ctx->{{input_str}}[k];
     }
     {{/cst}}
 {{{patch_building_code}}}
diff --git a/src/acetone_nnet/templates/layers/template_Flatten.c.tpl b/src/acetone_nnet/templates/layers/template_Flatten.c.tpl
index c0d2587..7472274 100644
--- a/src/acetone_nnet/templates/layers/template_Flatten.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Flatten.c.tpl
@@ -7,7 +7,7 @@
         {
             for (j = 0; j < {{input_width}};  ++j)
             {
-                ctx->tensor_temp[(i*{{input_width}} + j)*{{input_channels}} + f] = ctx->output_{{path}}[(f*{{input_height}} + i)*{{input_width}} + j];
+                ctx->tensor_temp[(i*{{input_width}} + j)*{{input_channels}} + f] = ctx->{{input_str}}[(f*{{input_height}} + i)*{{input_width}} + j];
             }
         }
     }
@@ -15,4 +15,10 @@
     {
         ctx->output_{{path}}[k] = ctx->tensor_temp[k];
     }
-{{/channels_last}}
\ No newline at end of file
+{{/channels_last}}{{#copy}}
+    //{{name}}_{{idx}}  {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
+    for (k = 0; k < {{size}}; ++k)
+    {
+        ctx->output_{{path}}[k] = ctx->{{input_str}}[k];
+    }
+{{/copy}}
\ No newline at end of file
-- 
2.43.0


From 947b51343d5aa1948d88a5fbbee30a7981f8cfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 20/45] fix: Resize coordinates, borders, weights and optional
 inputs follow the ONNX definition

---
 .../generator/layers/resize/Resize.py         | 49 ++++++------
 .../layers/resize/resize_cubic/ResizeCubic.py | 76 ++++++++-----------
 .../resize/resize_cubic/ResizeCubicDefault.py | 29 +++----
 .../resize/resize_linear/ResizeLinear.py      |  4 +-
 .../resize_linear/ResizeLinearDefault.py      | 36 +++------
 .../resize/resize_nearest/ResizeNearest.py    |  6 +-
 .../resize_nearest/ResizeNearestDefault.py    |  2 +
 src/acetone_nnet/generator/neural_network.py  |  1 +
 .../importers/ONNX_importer/create_layer.py   | 49 ++++++++----
 .../layers/Resize/template_ResizeCubic.c.tpl  | 61 +++++++++++++++
 .../Resize/template_ResizeCubic1D.c.tpl       | 29 -------
 .../Resize/template_ResizeCubic2D.c.tpl       | 58 --------------
 ...ar2D.c.tpl => template_ResizeLinear.c.tpl} |  0
 .../Resize/template_ResizeLinear1D.c.tpl      | 26 -------
 .../Resize/template_ResizeNearest.c.tpl       |  6 +-
 .../templates/template_source_file.c.tpl      | 23 +++---
 16 files changed, 194 insertions(+), 261 deletions(-)
 create mode 100644 src/acetone_nnet/templates/layers/Resize/template_ResizeCubic.c.tpl
 delete mode 100644 src/acetone_nnet/templates/layers/Resize/template_ResizeCubic1D.c.tpl
 delete mode 100644 src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl
 rename src/acetone_nnet/templates/layers/Resize/{template_ResizeLinear2D.c.tpl => template_ResizeLinear.c.tpl} (100%)
 delete mode 100644 src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl

diff --git a/src/acetone_nnet/generator/layers/resize/Resize.py b/src/acetone_nnet/generator/layers/resize/Resize.py
index b9cc327..b0d2038 100644
--- a/src/acetone_nnet/generator/layers/resize/Resize.py
+++ b/src/acetone_nnet/generator/layers/resize/Resize.py
@@ -105,10 +105,11 @@ class Resize(Layer):
         self.input_width = input_shape[3]
         self.scale = [1., 0., 0., 0.]
         if boolean_resize:
-            self.scale = target_size
-            self.output_channels = int(self.input_channels * target_size[1])  # should be equal to input_channels
-            self.output_height = int(self.input_height * target_size[2])
-            self.output_width = int(self.input_width * target_size[3])
+            self.scale = [float(scale) for scale in target_size]
+            # The product is rounded so that the scale n/m applied to m yields n
+            self.output_channels = int(round(self.input_channels * self.scale[1], 4))  # should be equal to input_channels
+            self.output_height = int(round(self.input_height * self.scale[2], 4))
+            self.output_width = int(round(self.input_width * self.scale[3], 4))
         else:
             self.output_channels = int(target_size[1])  # should be equal to input_channels
             self.output_height = int(target_size[2])
@@ -242,19 +243,23 @@ class Resize(Layer):
             coord_original: str,
     ) -> str:
         """Generate the half-pixel-symmetric coordinate transformation code."""
+        return (f"{coord_original} = {self.half_pixel_symmetric_offset(coord_dim)}"
+                f" + ({coord_resized} + 0.5)/{self.scale[coord_dim]} - 0.5;")
+
+    def half_pixel_symmetric_offset(
+            self: Self,
+            coord_dim: int,
+    ) -> float:
+        """Compute the offset that centers the resized tensor."""
         if coord_dim == 2:
-            target_length = self.output_height * self.scale[2]
+            output_length = self.output_height
             input_length = self.input_height
         else:
-            target_length = self.output_width * self.scale[3]
+            output_length = self.output_width
             input_length = self.input_width
 
-        s = f"float adjustment = {int(target_length)}/{target_length};\n"
-        s += f"                float center = {input_length}/2;\n"
-        s += "                float offset = center*(1 - adjustment);\n"
-        s += (f"                {coord_original} = offset + ({coord_resized} + 0.5)"
-              f"/{self.scale[coord_dim]} - 0.5;")
-        return s
+        adjustment = output_length / (input_length * self.scale[coord_dim])
+        return input_length / 2 * (1 - adjustment)
 
     def half_pixel_symmetric_implem(
             self: Self,
@@ -262,16 +267,7 @@ class Resize(Layer):
             coordinate_dimension: int,
     ) -> float:
         """Compute the half-pixel-symmetric coordinate transformation code."""
-        if coordinate_dimension == 2:
-            target_length = self.output_height * self.scale[2]
-            input_length = self.input_height
-        else:
-            target_length = self.output_width * self.scale[3]
-            input_length = self.input_width
-
-        adjustment = int(target_length) / target_length
-        center = input_length / 2
-        offset = center * (1 - adjustment)
+        offset = self.half_pixel_symmetric_offset(coordinate_dimension)
         return offset + (coordinate + 0.5) / self.scale[coordinate_dimension] - 0.5
 
     def pytorch_half_pixel(
@@ -319,9 +315,10 @@ class Resize(Layer):
             length_original = self.input_width
             length_resized = self.output_width
 
-        s = (f"{coord_original} = {coord_resized}*({length_original} - 1)"
-             f"/({length_resized} - 1);")
-        return s
+        if length_resized == 1:
+            return f"{coord_original} = 0;"
+        return (f"{coord_original} = {coord_resized}*({length_original} - 1)"
+                f"/({length_resized} - 1.);")
 
     def align_corners_implem(
             self: Self,
@@ -336,6 +333,8 @@ class Resize(Layer):
             length_original = self.input_width
             length_resized = self.output_width
 
+        if length_resized == 1:
+            return 0
         return coordinate * (length_original - 1) / (length_resized - 1)
 
     def asymmetric(
diff --git a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
index eab6b2e..058f6bf 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
@@ -37,8 +37,6 @@ class ResizeCubic(Resize):
         super().__init__(**kwargs)
         self.name = "ResizeCubic"
         self.mode = "cubic"
-        self.template_dict = {"1D": self.template_path / "layers" / "Resize" / "template_ResizeCubic1D.c.tpl",
-                              "2D": self.template_path / "layers" / "Resize" / "template_ResizeCubic2D.c.tpl"}
 
         ####### Checking the instantiation#######
 
@@ -47,30 +45,25 @@ class ResizeCubic(Resize):
             msg = "Error: cubic coeff a type in Resize Cubic (must be int or float)"
             raise TypeError(msg)
 
-    def cubic_interpolation_1_d(
+    def cubic_weights(
             self: Self,
-            input_array: np.ndarray,
-            f: int,
-            x: int,
-            y: int,
             s: float,
-    ) -> float:
-        """Compute the 1D cubic interpolation."""
-        col_index = max(0, min(self.input_width - 1, y))
-        f_1 = input_array[f, max(0, min(self.input_height - 1, x - 1)), col_index]
-        f0 = input_array[f, max(0, min(self.input_height - 1, x)), col_index]
-        f1 = input_array[f, max(0, min(self.input_height - 1, x + 1)), col_index]
-        f2 = input_array[f, max(0, min(self.input_height - 1, x + 2)), col_index]
-
-        coeff1 = (((self.cubic_coeff_a * (s + 1) - 5 * self.cubic_coeff_a) * (s + 1)
-                   + 8 * self.cubic_coeff_a) * (s + 1) - 4 * self.cubic_coeff_a)
-        coeff2 = (((self.cubic_coeff_a + 2) * s - (self.cubic_coeff_a + 3)) * s * s + 1)
-        coeff3 = (((self.cubic_coeff_a + 2) * (1 - s)
-                   - (self.cubic_coeff_a + 3)) * (1 - s) * (1 - s) + 1)
-        coeff4 = (((self.cubic_coeff_a * (2 - s) - 5 * self.cubic_coeff_a) * (2 - s)
-                   + 8 * self.cubic_coeff_a) * (2 - s) - 4 * self.cubic_coeff_a)
-
-        return f_1 * coeff1 + f0 * coeff2 + f1 * coeff3 + f2 * coeff4
+            first: int,
+            length: int,
+    ) -> np.ndarray:
+        """Compute the weights of the samples first to first + 3."""
+        a = self.cubic_coeff_a
+        weights = np.array([
+            ((a * (s + 1) - 5 * a) * (s + 1) + 8 * a) * (s + 1) - 4 * a,
+            ((a + 2) * s - (a + 3)) * s * s + 1,
+            ((a + 2) * (1 - s) - (a + 3)) * (1 - s) * (1 - s) + 1,
+            ((a * (2 - s) - 5 * a) * (2 - s) + 8 * a) * (2 - s) - 4 * a,
+        ])
+        if self.exclude_outside:
+            samples = np.arange(first, first + 4)
+            weights[(samples < 0) | (samples >= length)] = 0
+            weights = weights / np.sum(weights)
+        return weights
 
     def forward_path_layer(
             self: Self,
@@ -79,27 +72,20 @@ class ResizeCubic(Resize):
         """Compute output of layer."""
         input_array = input_array.reshape(self.input_channels, self.input_height, self.input_width)
         output = np.zeros((self.output_channels, self.output_height, self.output_width))
-        for f in range(self.output_channels):
-            for i in range(self.output_height):
-                for j in range(self.output_width):
-                    x = self.coordinate_transformation_mode_implem_mapping[self.coordinate_transformation_mode](i, 2)
-                    x0 = math.floor(x)
-                    y = self.coordinate_transformation_mode_implem_mapping[self.coordinate_transformation_mode](j, 3)
-                    y0 = math.floor(y)
-
-                    s = y - y0
-                    coeff1 = (((self.cubic_coeff_a * (s + 1) - 5 * self.cubic_coeff_a) * (s + 1)
-                               + 8 * self.cubic_coeff_a) * (s + 1) - 4 * self.cubic_coeff_a)
-                    coeff2 = (((self.cubic_coeff_a + 2) * s - (self.cubic_coeff_a + 3)) * s * s + 1)
-                    coeff3 = (((self.cubic_coeff_a + 2) * (1 - s) - (self.cubic_coeff_a + 3)) * (1 - s) * (1 - s) + 1)
-                    coeff4 = (((self.cubic_coeff_a * (2 - s) - 5 * self.cubic_coeff_a) * (2 - s)
-                               + 8 * self.cubic_coeff_a) * (2 - s) - 4 * self.cubic_coeff_a)
-
-                    output[f, i, j] = (coeff1 * self.cubic_interpolation_1_d(input_array, f, x0, y0 - 1, x - x0)
-                                       + coeff2 * self.cubic_interpolation_1_d(input_array, f, x0, y0, x - x0)
-                                       + coeff3 * self.cubic_interpolation_1_d(input_array, f, x0, y0 + 1, x - x0)
-                                       + coeff4 * self.cubic_interpolation_1_d(input_array, f, x0, y0 + 2, x - x0))
-        return output
+        transform = self.coordinate_transformation_mode_implem_mapping[self.coordinate_transformation_mode]
+        for i in range(self.output_height):
+            x = transform(i, 2)
+            x0 = math.floor(x)
+            weights_x = self.cubic_weights(x - x0, x0 - 1, self.input_height)
+            rows = np.clip(np.arange(x0 - 1, x0 + 3), 0, self.input_height - 1)
+            for j in range(self.output_width):
+                y = transform(j, 3)
+                y0 = math.floor(y)
+                weights_y = self.cubic_weights(y - y0, y0 - 1, self.input_width)
+                cols = np.clip(np.arange(y0 - 1, y0 + 3), 0, self.input_width - 1)
+                for f in range(self.output_channels):
+                    output[f, i, j] = weights_x @ input_array[f][np.ix_(rows, cols)] @ weights_y
+        return self.activation_function.compute(output)
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
index cf27bbd..75eea17 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
@@ -59,26 +59,15 @@ class ResizeCubicDefault(ResizeCubic):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
 
-        if (self.input_height == 1) and (self.input_width > 1):
-            mustach_hash["dimension"] = self.input_width
-            mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("j", 3, "x")
-            dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width == 1):
-            mustach_hash["dimension"] = self.input_height
-            mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("i", 2, "x")
-            dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width > 1):
-            mustach_hash["input_width"] = self.input_width
-            mustach_hash["input_height"] = self.input_height
-            mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("i", 2, "x")
-            mustach_hash["coordinate_transformation_mode_y"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("j", 3, "y")
-            dimension = "2D"
-
-        with open(self.template_dict[dimension]) as template_file:
+        mustach_hash["exclude_outside"] = bool(self.exclude_outside)
+        mustach_hash["input_width"] = self.input_width
+        mustach_hash["input_height"] = self.input_height
+        mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
+            self.coordinate_transformation_mode]("i", 2, "x")
+        mustach_hash["coordinate_transformation_mode_y"] = self.coordinate_transformation_mode_mapping[
+            self.coordinate_transformation_mode]("j", 3, "y")
+
+        with open(self.template_path / "layers" / "Resize" / "template_ResizeCubic.c.tpl") as template_file:
             template = template_file.read()
         template_file.close()
 
diff --git a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
index c980e42..840f591 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
@@ -36,8 +36,6 @@ class ResizeLinear(Resize):
         super().__init__(**kwargs)
         self.name = "ResizeLinear"
         self.mode = "linear"
-        self.template_dict = {"1D": self.template_path / "layers" / "Resize" / "template_ResizeLinear1D.c.tpl",
-                              "2D": self.template_path / "layers" / "Resize" / "template_ResizeLinear2D.c.tpl"}
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
@@ -73,4 +71,4 @@ class ResizeLinear(Resize):
                                         + f12 * (x1 - x) * (y - y0) + f22 * (x - x0) * (y - y0))
                                        / ((x1 - x0) * (y1 - y0)))
 
-        return output
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
index 748ed76..2f9f186 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
@@ -37,8 +37,6 @@ class ResizeLinearDefault(ResizeLinear):
         self.name = "ResizeLinear"
         self.mode = "linear"
         self.version = version
-        self.template_dict = {"1D": self.template_path / "layers" / "Resize" / "template_ResizeLinear1D.c.tpl",
-                              "2D": self.template_path / "layers" / "Resize" / "template_ResizeLinear2D.c.tpl"}
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
@@ -61,30 +59,16 @@ class ResizeLinearDefault(ResizeLinear):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
 
-        if (self.input_height == 1) and (self.input_width > 1):
-            mustach_hash["len_dimension"] = self.input_width - 1
-            mustach_hash["dimension"] = self.input_width
-            mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("j", 3, "x")
-            dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width == 1):
-            mustach_hash["len_dimension"] = self.input_height - 1
-            mustach_hash["dimension"] = self.input_height
-            mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("i", 2, "x")
-            dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width > 1):
-            mustach_hash["len_height"] = self.input_height - 1
-            mustach_hash["len_width"] = self.input_width - 1
-            mustach_hash["input_width"] = self.input_width
-            mustach_hash["input_height"] = self.input_height
-            mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("i", 2, "x")
-            mustach_hash["coordinate_transformation_mode_y"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("j", 3, "y")
-            dimension = "2D"
-
-        with open(self.template_dict[dimension]) as template_file:
+        mustach_hash["len_height"] = self.input_height - 1
+        mustach_hash["len_width"] = self.input_width - 1
+        mustach_hash["input_width"] = self.input_width
+        mustach_hash["input_height"] = self.input_height
+        mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
+            self.coordinate_transformation_mode]("i", 2, "x")
+        mustach_hash["coordinate_transformation_mode_y"] = self.coordinate_transformation_mode_mapping[
+            self.coordinate_transformation_mode]("j", 3, "y")
+
+        with open(self.template_path / "layers" / "Resize" / "template_ResizeLinear.c.tpl") as template_file:
             template = template_file.read()
         template_file.close()
 
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
index fdf8b18..4440c27 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
@@ -88,5 +88,9 @@ class ResizeNearest(Resize):
                     y = self.coordinate_transformation_mode_implem_mapping[self.coordinate_transformation_mode](j, 3)
                     y0 = self.nearest_mode_implem_mapping[self.nearest_mode](y)
 
+                    # Coordinates out of the tensor designate its border
+                    x0 = max(0, min(self.input_height - 1, x0))
+                    y0 = max(0, min(self.input_width - 1, y0))
+
                     output[f, i, j] = input_array[f, x0, y0]
-        return output
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
index 66df2fd..d68ddc8 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
@@ -71,6 +71,8 @@ class ResizeNearestDefault(ResizeNearest):
         mustach_hash["activation_function"] = self.activation_function.write_activation_str(
             f"ctx->{output_str}[y0 + {self.input_width}*(x0 + {self.input_height}*f)]")
 
+        mustach_hash["input_height_max"] = self.input_height - 1
+        mustach_hash["input_width_max"] = self.input_width - 1
         mustach_hash["output_channels"] = self.output_channels
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 7f3997f..50dcce8 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -872,6 +872,7 @@ class CodeGenerator(ABC):
             for i in self.layers
         ):
             mustach_hash["is_resize"] = True
+            mustach_hash["coordinate_type"] = "double" if self.data_type == "double" else "float"
 
         if any(isinstance(layer, ResizeCubic) for layer in self.layers):
             mustach_hash["is_cubic_interpolation"] = True
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index c118676..fbd6be0 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -365,13 +365,12 @@ def resize_set_default_attributes_values(
     input_shape: list[int] | np.ndarray,
 ) -> dict[str, Any]:
     """Set default value in attributes."""
-    if "axes" not in attributes:
-        attributes["axes"] = []
-    else:
-        for i in range(len(attributes["axes"])):
-            axe = attributes["axes"][i]
-            if axe < 0:
-                axe = len(input_shape) - axe
+    rank = len(input_shape)
+    attributes["axes"] = [
+        axe + rank if axe < 0 else axe for axe in attributes.get("axes", [])
+    ]
+    if "mode" not in attributes:
+        attributes["mode"] = b"nearest"
     if "coordinate_transformation_mode" not in attributes:
         attributes["coordinate_transformation_mode"] = "half_pixel"
     if "exclude_outside" not in attributes:
@@ -401,23 +400,45 @@ def create_resize(
     size = find_size(output_shape)
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
+    # The region of interest, the scales and the sizes are optional
     initializers = [
         look_for_initializer(initializer_name, model)
         for initializer_name in node.input[1:]
     ]
+    initializers += [[]] * (3 - len(initializers))
+    rank = len(get_shape(node.input[0], model, extend=False))
     attributes = extract_attributes(node)
-    attributes = resize_set_default_attributes_values(attributes, input_shape)
+    attributes = resize_set_default_attributes_values(attributes, [1] * rank)
+
+    if attributes["coordinate_transformation_mode"] == b"tf_crop_and_resize":
+        msg = "Error: Resize coordinate transformation mode tf_crop_and_resize not implemented"
+        raise ValueError(msg)
+    if attributes.get("antialias", 0):
+        msg = "Error: Resize with antialiasing not implemented"
+        raise ValueError(msg)
+    if attributes["keep_aspect_ratio_policy"] not in ("stretch", b"stretch"):
+        msg = "Error: Resize aspect ratio policy not implemented"
+        raise ValueError(msg)
 
     if initializers[2]:
         # target size
         targ_size = onnx.numpy_helper.to_array(initializers[2])
         bool_resize = 0
-    else:
+        full_target = list(input_shape)
+    elif initializers[1]:
         # scale
         targ_size = onnx.numpy_helper.to_array(initializers[1])
         bool_resize = 1
+        full_target = [1.0] * len(input_shape)
+    else:
+        msg = "Error: Resize without constant scales or sizes"
+        raise ValueError(msg)
 
-    roi = onnx.numpy_helper.to_array(initializers[0]) if initializers[0] else []
+    # The tensor has four dimensions, and the axes not given are left unchanged
+    offset = len(input_shape) - rank
+    axes = [offset + axe for axe in attributes["axes"]] or range(offset, len(input_shape))
+    for axe, target in zip(axes, targ_size):
+        full_target[axe] = target
 
     return create_resize_obj(
         mode=attributes["mode"],
@@ -425,13 +446,13 @@ def create_resize(
         idx=idx,
         size=size,
         input_shape=input_shape,
-        axes=attributes["axes"],
+        axes=[],
         coordinate_transformation_mode=attributes["coordinate_transformation_mode"],
         exclude_outside=attributes["exclude_outside"],
-        keep_aspect_ratio_policy=attributes["keep_aspect_ratio_policy"],
-        target_size=targ_size,
+        keep_aspect_ratio_policy="stretch",
+        target_size=full_target,
         boolean_resize=bool_resize,
-        roi=roi,
+        roi=[],
         extrapolation_value=attributes["extrapolation_value"],
         nearest_mode=attributes["nearest_mode"],
         cubic_coeff_a=attributes["cubic_coeff_a"],
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic.c.tpl
new file mode 100644
index 0000000..0d8d6e0
--- /dev/null
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic.c.tpl
@@ -0,0 +1,61 @@
+    // {{name}}_{{idx}}{{comment}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
+    a = {{cubic_coeff_a}};
+
+    for (f = 0; f < {{output_channels}}; ++f)
+    {
+        for (i = 0; i < {{output_height}}; ++i)
+        {
+            for(j = 0; j < {{output_width}}; ++j)
+            {
+                {{{coordinate_transformation_mode_x}}}
+                x0 = floor(x);
+                s = x - x0;
+                wx[0] = ((a*(s + 1) - 5*a)*(s + 1) + 8*a)*(s + 1) - 4*a;
+                wx[1] = ((a + 2)*s - (a + 3))*s*s + 1;
+                wx[2] = ((a + 2)*(1 - s) - (a + 3))*(1 - s)*(1 - s) + 1;
+                wx[3] = ((a*(2 - s) - 5*a)*(2 - s) + 8*a)*(2 - s) - 4*a;
+
+                {{{coordinate_transformation_mode_y}}}
+                y0 = floor(y);
+                s = y - y0;
+                wy[0] = ((a*(s + 1) - 5*a)*(s + 1) + 8*a)*(s + 1) - 4*a;
+                wy[1] = ((a + 2)*s - (a + 3))*s*s + 1;
+                wy[2] = ((a + 2)*(1 - s) - (a + 3))*(1 - s)*(1 - s) + 1;
+                wy[3] = ((a*(2 - s) - 5*a)*(2 - s) + 8*a)*(2 - s) - 4*a;
+                {{#exclude_outside}}
+
+                s = 0;
+                for (k = 0; k < 4; ++k)
+                {
+                    if (x0 + k - 1 < 0 || x0 + k - 1 >= {{input_height}}) wx[k] = 0;
+                    s += wx[k];
+                }
+                for (k = 0; k < 4; ++k) wx[k] = wx[k]/s;
+                s = 0;
+                for (k = 0; k < 4; ++k)
+                {
+                    if (y0 + k - 1 < 0 || y0 + k - 1 >= {{input_width}}) wy[k] = 0;
+                    s += wy[k];
+                }
+                for (k = 0; k < 4; ++k) wy[k] = wy[k]/s;
+                {{/exclude_outside}}
+
+                s = 0;
+                for (k = 0; k < 16; ++k)
+                {
+                    row_index = x0 + k/4 - 1;
+                    row_index = row_index < 0 ? 0 : (row_index >= {{input_height}} ? {{input_height}} - 1 : row_index);
+                    col_index = y0 + k%4 - 1;
+                    col_index = col_index < 0 ? 0 : (col_index >= {{input_width}} ? {{input_width}} - 1 : col_index);
+                    s += wx[k/4]*wy[k%4]*ctx->{{output_str}}[col_index + {{input_width}}*(row_index + {{input_height}}*f)];
+                }
+                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = s;
+                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
+            }
+        }
+    }
+
+    for(k = 0; k < {{size}}; ++k)
+    {
+        ctx->output_{{road}}[k] = ctx->tensor_temp[k];
+    }
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic1D.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic1D.c.tpl
deleted file mode 100644
index b7b7e4f..0000000
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic1D.c.tpl
+++ /dev/null
@@ -1,29 +0,0 @@
-    // {{name}}_{{idx}}{{comment}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
-    a = {{cubic_coeff_a}};
-
-    for (f = 0; f < {{output_channels}}; ++f)
-    {
-        for (i = 0; i < {{output_height}}; ++i)
-        {
-            for(j = 0; j < {{output_width}}; ++j)
-            {
-                {{{coordinate_transformation_mode}}}
-                x0 = floor(x);
-
-                f_1 = x0-1 < 0 ? ctx->{{output_str}}[0 + {{dimension}}*f] : x0-1 >= {{dimension}} ? ctx->{{output_str}}[{{dimension}} - 1 + {{dimension}}*f] : ctx->{{output_str}}[x0-1 + {{dimension}}*f];
-                f0 = x0 < 0 ? ctx->{{output_str}}[0 + {{dimension}}*f] : x0 >= {{dimension}} ? ctx->{{output_str}}[{{dimension}} - 1 + {{dimension}}*f] : ctx->{{output_str}}[x0 + {{dimension}}*f];
-                f1 = x0+1 < 0 ? ctx->{{output_str}}[0 + {{dimension}}*f] : x0+1 >= {{dimension}} ? ctx->{{output_str}}[{{dimension}} - 1 + {{dimension}}*f] : ctx->{{output_str}}[x0+1 + {{dimension}}*f];
-                f2 = x0+ 2 < 0 ? ctx->{{output_str}}[0 + {{dimension}}*f] : x0+2 >= {{dimension}} ? ctx->{{output_str}}[{{dimension}} - 1 + {{dimension}}*f] : ctx->{{output_str}}[x0+2 + {{dimension}}*f];
-
-                s = x - x0;
-
-                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
-                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
-            }
-        }
-    }
-
-    for(k = 0; k < {{size}}; ++k)
-    {
-        ctx->output_{{road}}[k] = ctx->tensor_temp[k];
-    }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl
deleted file mode 100644
index 41542cf..0000000
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl
+++ /dev/null
@@ -1,58 +0,0 @@
-    // {{name}}_{{idx}}{{comment}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
-    a = {{cubic_coeff_a}};
-
-    for (f = 0; f < {{output_channels}}; ++f)
-    {
-        for (i = 0; i < {{output_height}}; ++i)
-        {
-            for(j = 0; j < {{output_width}}; ++j)
-            {
-                {{{coordinate_transformation_mode_x}}}
-                x0 = floor(x);
-                {{{coordinate_transformation_mode_y}}}
-                y0 = floor(y);
-
-                col_index = y0-1 < 0 ? 0 : y0-1 >= {{input_width}} ? {{input_width}} - 1 : y0-1;
-                f_1 = x0-1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0-1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0-1 + {{input_height}}*f)];
-                f0 = x0 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0 + {{input_height}}*f)];
-                f1 = x0+1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+1 + {{input_height}}*f)];
-                f2 = x0+2 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+2 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+2 + {{input_height}}*f)];
-                s = x - x0;
-                float register b_1 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
-
-                col_index = y0 < 0 ? 0 : y0 >= {{input_width}} ? {{input_width}} - 1 : y0;
-                f_1 = x0-1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0-1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0-1 + {{input_height}}*f)];
-                f0 = x0 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0 + {{input_height}}*f)];
-                f1 = x0+1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+1 + {{input_height}}*f)];
-                f2 = x0+2 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+2 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+2 + {{input_height}}*f)];
-                s = x - x0;
-                float register b0 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
-
-                col_index = y0+1 < 0 ? 0 : y0+1 >= {{input_width}} ? {{input_width}} - 1 : y0+1;
-                f_1 = x0-1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0-1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0-1 + {{input_height}}*f)];
-                f0 = x0 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0 + {{input_height}}*f)];
-                f1 = x0+1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+1 + {{input_height}}*f)];
-                f2 = x0+2 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+2 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+2 + {{input_height}}*f)];
-                s = x - x0;
-                float register b1 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
-
-                col_index = y0+2 < 0 ? 0 : y0+2 >= {{input_width}} ? {{input_width}} - 1 : y0+2;
-                f_1 = x0-1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0-1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0-1 + {{input_height}}*f)];
-                f0 = x0 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0 + {{input_height}}*f)];
-                f1 = x0+1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+1 + {{input_height}}*f)];
-                f2 = x0+2 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+2 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+2 + {{input_height}}*f)];
-                s = x - x0;
-                float register b2 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
-
-                s = y - y0;
-
-                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = b_1*a*s*(1 + s*(s - 2)) + b0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + b1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + b2*a*s*s*(1 - s);
-                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
-            }
-        }
-    }
-
-    for(k = 0; k < {{size}}; ++k)
-    {
-        ctx->output_{{road}}[k] = ctx->tensor_temp[k];
-    }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear2D.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear.c.tpl
similarity index 100%
rename from src/acetone_nnet/templates/layers/Resize/template_ResizeLinear2D.c.tpl
rename to src/acetone_nnet/templates/layers/Resize/template_ResizeLinear.c.tpl
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
deleted file mode 100644
index 6fd876a..0000000
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
+++ /dev/null
@@ -1,26 +0,0 @@
-    // {{name}}_{{idx}}{{comment}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
-    x1 = {{len_dimension}};
-    x0 = 0;
-
-    for (f = 0; f < {{output_channels}}; ++f)
-    {
-        f11 = ctx->{{output_str}}[x0 + {{dimension}}*f];
-        f22 = ctx->{{output_str}}[x1 + {{dimension}}*f];
-
-        for (i = 0; i < {{output_height}}; ++i)
-        {
-            for(j = 0; j < {{output_width}}; ++j)
-            {
-                {{{coordinate_transformation_mode}}}
-                x = x<x0 ? x0 : (x>x1 ? x1: x);
-
-                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = (f11*(x1 - x) + f22*(x - x0))/(x1 - x0);
-                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
-            }
-        }
-    }
-
-    for(k = 0; k < {{size}}; ++k)
-    {
-        ctx->output_{{road}}[k] = ctx->tensor_temp[k];
-    }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
index 243cd4c..9fea63b 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
@@ -7,8 +7,10 @@
             {
                 {{{coordinate_transformation_mode_x}}}
                 {{{coordinate_transformation_mode_y}}}
-                {{nearest_mode_x}}
-                {{nearest_mode_y}}
+                {{{nearest_mode_x}}}
+                {{{nearest_mode_y}}}
+                x0 = x0 < 0 ? 0 : (x0 > {{input_height_max}} ? {{input_height_max}} : x0);
+                y0 = y0 < 0 ? 0 : (y0 > {{input_width_max}} ? {{input_width_max}} : y0);
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
             }
         }
diff --git a/src/acetone_nnet/templates/template_source_file.c.tpl b/src/acetone_nnet/templates/template_source_file.c.tpl
index 3d9f9a1..b74e3c6 100644
--- a/src/acetone_nnet/templates/template_source_file.c.tpl
+++ b/src/acetone_nnet/templates/template_source_file.c.tpl
@@ -52,27 +52,26 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
     int count;
 {{/is_count}}
 {{#is_resize}}
-    float x;
-    float y;
+    {{coordinate_type}} x;
+    {{coordinate_type}} y;
     int x0;
     int y0;
 {{/is_resize}}
 {{#is_cubic_interpolation}}
+    int row_index;
     int col_index;
-    float a;
-    float f_1;
-    float f0;
-    float f1;
-    float f2;
-    float s;
+    {{coordinate_type}} a;
+    {{coordinate_type}} wx[4];
+    {{coordinate_type}} wy[4];
+    {{coordinate_type}} s;
 {{/is_cubic_interpolation}}
 {{#is_linear_interpolation}}
     int y1;
     int x1;
-    float f11;
-    float f12;
-    float f21;
-    float f22;
+    {{coordinate_type}} f11;
+    {{coordinate_type}} f12;
+    {{coordinate_type}} f21;
+    {{coordinate_type}} f22;
 {{/is_linear_interpolation}}
 {{#is_gather}}
     int position;
-- 
2.43.0


From 42a1938c5b27792eb2305838d4ea6125884fa6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 21/45] fix: a layer reading one tensor twice does not free its
 buffer twice

---
 src/acetone_nnet/graph/graph_interpretor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/graph/graph_interpretor.py b/src/acetone_nnet/graph/graph_interpretor.py
index 0663cf2..137a78d 100644
--- a/src/acetone_nnet/graph/graph_interpretor.py
+++ b/src/acetone_nnet/graph/graph_interpretor.py
@@ -90,7 +90,8 @@ def assign_liveliness_index(execution_order: list[Layer]) -> dict[int, int]:
     for n in execution_order:
         assert n.idx not in indexes
         # Free the indices of all predecessors' outputs after use
-        for p in n.previous_layer:
+        # (a predecessor may appear several times in the inputs of a layer)
+        for p in {p.idx: p for p in n.previous_layer}.values():
             assert p.idx in indexes
             # Check all consumers of a tensor have been executed (except the current one)
             if all(s.idx in indexes for s in p.next_layer if s.idx != n.idx):
@@ -116,7 +117,7 @@ def assign_cst(
     for layer in execution_order:
         visited_layers.add(layer.idx)
         # Free cst if all successors have been visited
-        for parent in layer.previous_layer:
+        for parent in {p.idx: p for p in layer.previous_layer}.values():
             if parent.idx in dict_cst and all(
                 s.idx in visited_layers for s in parent.next_layer
             ):
-- 
2.43.0


From 2afd4d4d62f4b7585936570cbad49e45c61a42a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 22/45] fix: gemm and channels-last templates compute in the
 data type of the network

---
 .../layers/Conv/template_Conv1x1_block.c.tpl  |  8 +++---
 .../Conv/template_Conv3x3_winograd.c.tpl      | 26 +++++++++----------
 .../layers/Conv/template_Conv_DW_HWC.c.tpl    |  8 +++---
 .../Conv/template_Conv_direct_block.c.tpl     |  8 +++---
 .../layers/Conv/template_Conv_gemm_nn.c.tpl   |  4 +--
 .../layers/Conv/template_Conv_gemm_nt.c.tpl   |  2 +-
 .../layers/Conv/template_Conv_gemm_tn.c.tpl   |  4 +--
 .../layers/Conv/template_Conv_gemm_tt.c.tpl   |  2 +-
 .../layers/template_Pooling2D_HWC.c.tpl       |  4 +--
 .../templates/template_header_file.c.tpl      |  4 +++
 10 files changed, 37 insertions(+), 33 deletions(-)

diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv1x1_block.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv1x1_block.c.tpl
index 853061e..9905cfc 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv1x1_block.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv1x1_block.c.tpl
@@ -5,8 +5,8 @@
      */
     for (int oh = 0; oh < {{H_in}} / {{STRIDE}}; ++oh) {
         for (int ow = 0; ow < {{W_in}} / {{STRIDE}}; ++ow) {            
-            const float* restrict pixel_in = &ctx->{{output_str}}[(oh * {{STRIDE}} * {{W_in}} + ow * {{STRIDE}}) * {{C}}];
-            float* restrict o_ptr = &ctx->tensor_temp[(oh * ({{W_in}} / {{STRIDE}}) + ow) * {{K}}];
+            const nn_data_t* restrict pixel_in = &ctx->{{output_str}}[(oh * {{STRIDE}} * {{W_in}} + ow * {{STRIDE}}) * {{C}}];
+            nn_temp_t* restrict o_ptr = &ctx->tensor_temp[(oh * ({{W_in}} / {{STRIDE}}) + ow) * {{K}}];
 
             for (int ok_b = 0; ok_b < {{K}}; ok_b += {{BLOCK_K}}) {
                 
@@ -14,9 +14,9 @@
                     o_ptr[ok_b+k] = biases_{{name}}_{{idx}}[ok_b + k];
 
                 for (int ic = 0; ic < {{C}}; ++ic) {
-                    float val_in = pixel_in[ic];
+                    nn_data_t val_in = pixel_in[ic];
                     // Weights layout: [NB_BK][C][BK] = [{{NB_BLOCK_K}}][{{C}}][{{BLOCK_K}}]
-                    const float* restrict w_ptr = &weights_{{name}}_{{idx}}[(ok_b / {{BLOCK_K}}) * {{C}} * {{BLOCK_K}} + (ic * {{BLOCK_K}})];
+                    const nn_data_t* restrict w_ptr = &weights_{{name}}_{{idx}}[(ok_b / {{BLOCK_K}}) * {{C}} * {{BLOCK_K}} + (ic * {{BLOCK_K}})];
                     #pragma omp simd
                     for (int k = 0; k < {{BLOCK_K}}; ++k)
                         o_ptr[ok_b+k] += val_in * w_ptr[k];
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
index 94abde5..fde6e2a 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
@@ -10,16 +10,16 @@
         for (int oh = 0; oh < ({{H_out}} / 2) * 2; oh += 2){
         for (int ow = 0; ow < ({{W_out}} / 2) * 2; ow += 2){
             /* Accumulateurs pour les 16 points du domaine Winograd sur BK canaux */
-            float acc[4][4][{{BLOCK_K}}] = {0};
+            nn_temp_t acc[4][4][{{BLOCK_K}}] = {0};
 
             for (int ic = 0; ic < {{C}}; ic++) {
-                float d[4][4];
+                nn_data_t d[4][4];
                 
                 /* Chargement du bloc 4x4 d'entrée avec gestion du padding sans IF */
                 for(int r = 0; r < 4; ++r) {
                     int ih = oh + r - {{PAD}};
                     int valid_h = (ih >= 0 && ih < {{H_in}});
-                    const float* row_ptr = &ctx->{{output_str}}[(valid_h ? ih : 0) * {{W_in}} * {{C}} + ic];
+                    const nn_data_t* row_ptr = &ctx->{{output_str}}[(valid_h ? ih : 0) * {{W_in}} * {{C}} + ic];
                     
                     for(int c = 0; c < 4; ++c) {
                         int iw = ow + c - {{PAD}};
@@ -29,7 +29,7 @@
                 }
 
                 /* 1. Transformation de l'entrée (Data Transform BT * d * B) */
-                float temp[4][4];
+                nn_temp_t temp[4][4];
                 for(int i = 0; i < 4; i++) {
                     temp[0][i] = d[0][i] - d[2][i];
                     temp[1][i] = d[1][i] + d[2][i];
@@ -40,25 +40,25 @@
                 /* 2. Transformation horizontale + Multiplication + Accumulation */
                 for(int i = 0; i < 4; i++) {
                     {
-                        const float* __restrict w0 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 0)*{{C}} + ic)*{{BLOCK_K}}];
+                        const nn_data_t* __restrict w0 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 0)*{{C}} + ic)*{{BLOCK_K}}];
                         for(int k = 0; k < {{BLOCK_K}}; k++) acc[i][0][k] += (temp[i][0] - temp[i][2]) * w0[k];
                     }
                     {
-                        const float* __restrict w1 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 1)*{{C}} + ic)*{{BLOCK_K}}];
+                        const nn_data_t* __restrict w1 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 1)*{{C}} + ic)*{{BLOCK_K}}];
                         for(int k = 0; k < {{BLOCK_K}}; k++) acc[i][1][k] += (temp[i][1] + temp[i][2]) * w1[k];
                     }
                     {
-                        const float* __restrict w2 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 2)*{{C}} + ic)*{{BLOCK_K}}];
+                        const nn_data_t* __restrict w2 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 2)*{{C}} + ic)*{{BLOCK_K}}];
                         for(int k = 0; k < {{BLOCK_K}}; k++) acc[i][2][k] += (temp[i][2] - temp[i][1]) * w2[k];
                     }
                     {
-                        const float* __restrict w3 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 3)*{{C}} + ic)*{{BLOCK_K}}];
+                        const nn_data_t* __restrict w3 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 3)*{{C}} + ic)*{{BLOCK_K}}];
                         for(int k = 0; k < {{BLOCK_K}}; k++) acc[i][3][k] += (temp[i][1] - temp[i][3]) * w3[k];
                     }
                 }
             }
 
-            float m_temp[2][4][{{BLOCK_K}}] __attribute__((aligned(64)));
+            nn_temp_t m_temp[2][4][{{BLOCK_K}}] __attribute__((aligned(64)));
             /* 3. Transformation de sortie (AT * M * A) + Biais + Activation */
             for (int k = 0; k < {{BLOCK_K}}; k++) {
                 m_temp[0][0][k] = acc[0][0][k] + acc[1][0][k] + acc[2][0][k];
@@ -72,22 +72,22 @@
 
             }
             {
-                float *restrict o_ptr = &ctx->tensor_temp[((oh + 0) * {{W_out}} + (ow + 0)) * {{K}} + k_base];
+                nn_temp_t *restrict o_ptr = &ctx->tensor_temp[((oh + 0) * {{W_out}} + (ow + 0)) * {{K}} + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; k++)
                     o_ptr[k] = m_temp[0][0][k] + m_temp[0][1][k] + m_temp[0][2][k] + biases_{{name}}_{{idx}}[k_base + k];
             }
             {    
-                float *restrict o_ptr = &ctx->tensor_temp[((oh + 0) * {{W_out}} + (ow + 1)) * {{K}} + k_base];
+                nn_temp_t *restrict o_ptr = &ctx->tensor_temp[((oh + 0) * {{W_out}} + (ow + 1)) * {{K}} + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; k++)
                     o_ptr[k] = m_temp[0][1][k] - m_temp[0][2][k] - m_temp[0][3][k] + biases_{{name}}_{{idx}}[k_base + k];
             }
             {
-                float *restrict o_ptr = &ctx->tensor_temp[((oh + 1) * {{W_out}} + (ow + 0)) * {{K}} + k_base];
+                nn_temp_t *restrict o_ptr = &ctx->tensor_temp[((oh + 1) * {{W_out}} + (ow + 0)) * {{K}} + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; k++)
                     o_ptr[k] = m_temp[1][0][k] + m_temp[1][1][k] + m_temp[1][2][k] + biases_{{name}}_{{idx}}[k_base + k];
             }
             {    
-                float *restrict o_ptr = &ctx->tensor_temp[((oh + 1) * {{W_out}} + (ow + 1)) * {{K}} + k_base];
+                nn_temp_t *restrict o_ptr = &ctx->tensor_temp[((oh + 1) * {{W_out}} + (ow + 1)) * {{K}} + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; k++)
                     o_ptr[k] = m_temp[1][1][k] - m_temp[1][2][k] - m_temp[1][3][k] + biases_{{name}}_{{idx}}[k_base + k];
             }        
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_DW_HWC.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_DW_HWC.c.tpl
index 8e155e6..bb99499 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_DW_HWC.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_DW_HWC.c.tpl
@@ -12,10 +12,10 @@
 
         for (int ow = 0; ow < {{W_out}}; ++ow) {
             // Accès direct avec restrict pour l'écriture
-            float * restrict out_ptr = (float * restrict)&ctx->tensor_temp[(oh * {{W_out}} * {{K}}) + (ow * {{K}})];
+            nn_temp_t * restrict out_ptr = (nn_temp_t * restrict)&ctx->tensor_temp[(oh * {{W_out}} * {{K}}) + (ow * {{K}})];
             #pragma omp simd
             for (int k = 0; k < {{K}}; ++k) {
-                out_ptr[k] = ((const float * restrict)biases_{{name}}_{{idx}})[k];
+                out_ptr[k] = ((const nn_data_t * restrict)biases_{{name}}_{{idx}})[k];
             }
 
             const int w_start_idx = ow * {{STRIDE}} - {{PAD}};
@@ -26,8 +26,8 @@
                 const int ih = h_start_idx + kh;
                 for (int kw = kw_start; kw < kw_end; ++kw) {
                     const int iw = w_start_idx + kw;
-                    const float * restrict in_ptr = (const float * restrict)&ctx->{{output_str}}[(ih * {{W_in}} * {{K}}) + (iw * {{K}})];
-                    const float * restrict w_ptr  = (const float * restrict)&weights_{{name}}_{{idx}}[(kh * {{KW}} * {{K}}) + (kw * {{K}})];
+                    const nn_data_t * restrict in_ptr = (const nn_data_t * restrict)&ctx->{{output_str}}[(ih * {{W_in}} * {{K}}) + (iw * {{K}})];
+                    const nn_data_t * restrict w_ptr  = (const nn_data_t * restrict)&weights_{{name}}_{{idx}}[(kh * {{KW}} * {{K}}) + (kw * {{K}})];
 
                     #pragma omp simd
                     for (int k = 0; k < {{K}}; ++k) {
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_direct_block.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_direct_block.c.tpl
index 6994e7c..42a242b 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_direct_block.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_direct_block.c.tpl
@@ -14,7 +14,7 @@
                 const int kw_s = ({{PAD}} - ow * {{STRIDE}} > 0) ? ({{PAD}} - ow * {{STRIDE}}) : 0;
                 const int kw_e = ({{KW}} < ({{W_in}} + {{PAD}} - ow * {{STRIDE}})) ? {{KW}} : ({{W_in}} + {{PAD}} - ow * {{STRIDE}});
                 
-                float* restrict o_ptr = &ctx->tensor_temp[(oh * {{W_out}} * {{K}}) + (ow * {{K}}) + k_base];
+                nn_temp_t* restrict o_ptr = &ctx->tensor_temp[(oh * {{W_out}} * {{K}}) + (ow * {{K}}) + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; ++k) 
                     o_ptr[k] = biases_{{name}}_{{idx}}[k_base + k];
 
@@ -24,10 +24,10 @@
                         const int ih = oh * {{STRIDE}} - {{PAD}} + kh;
                         for (int kw = kw_s; kw < kw_e; ++kw) {
                             const int iw = ow * {{STRIDE}} - {{PAD}} + kw;
-                            const float* restrict i_ptr = &ctx->{{output_str}}[(ih * {{W_in}} + iw) * {{BLOCK_C}}*{{NB_BLOCK_C}} + c_base];
-                            const float* restrict w_ptr_base = &weights_{{name}}_{{idx}}[((((bk * {{NB_BLOCK_C}} + bc) * {{KH}} + kh) * {{KW}} + kw) * {{BLOCK_C}} * {{BLOCK_K}})];
+                            const nn_data_t* restrict i_ptr = &ctx->{{output_str}}[(ih * {{W_in}} + iw) * {{BLOCK_C}}*{{NB_BLOCK_C}} + c_base];
+                            const nn_data_t* restrict w_ptr_base = &weights_{{name}}_{{idx}}[((((bk * {{NB_BLOCK_C}} + bc) * {{KH}} + kh) * {{KW}} + kw) * {{BLOCK_C}} * {{BLOCK_K}})];
                             for (int c = 0; c < {{BLOCK_C}}; ++c) {
-                                float iv = i_ptr[c];
+                                nn_data_t iv = i_ptr[c];
                                 #pragma omp simd
                                 for (int k = 0; k < {{BLOCK_K}}; ++k) 
                                     o_ptr[k] += iv * w_ptr_base[c * {{BLOCK_K}} + k];
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl
index 0bf2748..2371d1f 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl
@@ -3,7 +3,7 @@
     {
         for (p = 0; p < {{k}}; ++p)
         {
-            register float weight = {{A}}[i*{{ldA}}+p];
+            register nn_data_t weight = {{A}}[i*{{ldA}}+p];
             for(j = 0; j < {{n}}; ++j)
             {
                 ctx->tensor_temp[i*{{ldC}} + j] += weight * {{#direct}}(ppatches_{{name}}_{{idx}}[p*{{ldB}} + j] < 0 ? 0 : ctx->{{B}}[ppatches_{{name}}_{{idx}}[p*{{ldB}} + j]]){{/direct}}{{^direct}}(ctx->{{B}}[p*{{ldB}} + j]){{/direct}};
@@ -11,7 +11,7 @@
         }
         for(j = 0; j < {{n}}; ++j)
         {
-            register float output = ctx->tensor_temp[i*{{ldC}} + j];
+            register nn_temp_t output = ctx->tensor_temp[i*{{ldC}} + j];
             output += biases_{{name}}_{{idx}}[i];
             ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
         }
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
index 34bc18f..c4ce792 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
@@ -3,7 +3,7 @@
     {
         for (j = 0; j < {{n}}; ++j)
         {
-            register float output =0;
+            register nn_temp_t output =0;
             for (p = 0; p < {{k}}; ++p)
             {
                 output += {{A}}[i*{{ldA}}+p]* {{#direct}}(ppatches_{{name}}_{{idx}}[j*{{ldB}}+p] < 0 ? 0 : ctx->{{B}}[ppatches_{{name}}_{{idx}}[j*{{ldB}}+p]]){{/direct}}{{^direct}}(ctx->{{B}}[j*{{ldB}}+p]){{/direct}};
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
index 1c4916a..2a13758 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
@@ -3,14 +3,14 @@
     {
         for (p = 0; p < {{k}}; ++p)
         {
-            float register weight = {{A}}[p*{{ldA}}+i];
+            nn_data_t register weight = {{A}}[p*{{ldA}}+i];
             for (j = 0; j < {{n}}; ++j)
             {
                 ctx->tensor_temp[i*{{ldC}}+j] += weight * {{#direct}}(ppatches_{{name}}_{{idx}}[p*{{ldB}}+j] < 0 ? 0 : ctx->{{B}}[ppatches_{{name}}_{{idx}}[p*{{ldB}}+j]]){{/direct}}{{^direct}}(ctx->{{B}}[p*{{ldB}}+j]){{/direct}};
             }
         }
         for(j = 0; j < {{n}}; ++j){
-            register float output = ctx->tensor_temp[i*{{ldC}} + j];
+            register nn_temp_t output = ctx->tensor_temp[i*{{ldC}} + j];
             output += biases_{{name}}_{{idx}}[i];
             ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
         }
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
index ebb7675..b29b040 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
@@ -3,7 +3,7 @@
     {
         for (j = 0; j < {{n}}; ++j)
         {
-            float register sum = 0;
+            nn_temp_t register sum = 0;
             for (p = 0; p < {{k}}; ++p)
             {
                 sum += {{A}}[p*{{ldA}} +i]* {{#direct}}(ppatches_{{name}}_{{idx}}[j*{{ldB}}+p] < 0 ? 0 : ctx->{{B}}[ppatches_{{name}}_{{idx}}[j*{{ldB}}+p]]){{/direct}}{{^direct}}(ctx->{{B}}[j*{{ldB}}+p]){{/direct}};
diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
index 8c6da7f..1092e7f 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
@@ -13,7 +13,7 @@
                 
                 int temp_w_end = {{input_width}} + {{pad_left}} - ow * {{strides}};
                 int kw_end = ({{pool_size}} < temp_w_end) ? {{pool_size}} : temp_w_end;
-                float* out_ptr = &ctx->tensor_temp[(oh * {{output_width}} + ow) * {{input_channels}}];
+                nn_temp_t* out_ptr = &ctx->tensor_temp[(oh * {{output_width}} + ow) * {{input_channels}}];
 
                 // Initialize channel accumulators
                 for (int c = 0; c < {{input_channels}}; ++c) {
@@ -27,7 +27,7 @@
                     for (int kw = kw_start; kw < kw_end; ++kw) {
                         int iw = ow * {{strides}} + kw - {{pad_left}};
                         
-                        const float* in_ptr = &ctx->{{output_str}}[(ih * {{input_width}} + iw) * {{input_channels}}];
+                        const nn_data_t* in_ptr = &ctx->{{output_str}}[(ih * {{input_width}} + iw) * {{input_channels}}];
 
                         // Innermost Channel Loop 
                         for (int c = 0; c < {{input_channels}}; ++c) {
diff --git a/src/acetone_nnet/templates/template_header_file.c.tpl b/src/acetone_nnet/templates/template_header_file.c.tpl
index 83dc713..7c764f9 100644
--- a/src/acetone_nnet/templates/template_header_file.c.tpl
+++ b/src/acetone_nnet/templates/template_header_file.c.tpl
@@ -1,6 +1,10 @@
 #ifndef INFERENCE_H_ 
 #define INFERENCE_H_ 
 
+/* Types of the tensors, and of the temporary tensor */
+typedef {{data_type}} nn_data_t;
+typedef {{temp_data_type}} nn_temp_t;
+
 typedef struct inference_t{
 {{#path}}
 // output list for path {{.}}
-- 
2.43.0


From afd6f3312e3bafde41524200667b12ec07d057f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 23/45] fix: binary parameters and test inputs are written in
 the data type of the network

---
 src/acetone_nnet/generator/neural_network.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 50dcce8..ab1f671 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -659,8 +659,8 @@ class CodeGenerator(ABC):
     ) -> None:
         """Generate C code for graph test dataset."""
         if self.bin_dataset:
-            with Path.open(output_dir / "test_dataset.dat", "w+") as test_dataset_bin:
-                self.test_dataset.copy("C").tofile(test_dataset_bin)
+            with Path.open(output_dir / "test_dataset.dat", "wb") as test_dataset_bin:
+                self.test_dataset.astype(self.data_type_py).tofile(test_dataset_bin)
         elif not self.read_ext_input:
             # Generate test source file
             dataset = "{"
@@ -1134,7 +1134,7 @@ class CodeGenerator(ABC):
         """Generate binary file for layer data."""
         symtab = {}
         if any(isinstance(layer, Conv2DIndirectGemm) for layer in self.layers):
-            symtab["zero"] = np.array([0.0], dtype=np.float32)
+            symtab["zero"] = np.array([0.0])
 
         for layer in self.layers:
             if (w := getattr(layer, "weights", None)) is not None:
@@ -1159,16 +1159,23 @@ class CodeGenerator(ABC):
                 symtab[f"var_{layer.name}_{layer.idx:02d}"] = layer.var
                 symtab[f"scale_{layer.name}_{layer.idx:02d}"] = layer.scale
 
+            if issubclass(type(layer), Broadcast) and layer.constant is not None:
+                symtab[f"constant_{layer.name}_{layer.idx:02d}"] = layer.constant
+
         def align_up(value, alignment):
             return (value + (alignment - 1)) & ~(alignment - 1)
 
-        with Path.open(output_dir / "parameters.dat", "w+") as parameters_bin:
+        with Path.open(output_dir / "parameters.dat", "wb") as parameters_bin:
             self.symtab = ""
             for s in symtab:
                 #print(f"{s} {symtab[s].shape} {symtab[s].dtype}")
                 parameters_bin.seek(align_up(parameters_bin.tell(),self.target_page_size),0)
                 self.symtab += f"--add-symbol {s}=.rodata:{parameters_bin.tell()} "
-                symtab[s].tofile(parameters_bin)
+                # The C arrays hold the data type of the network, or indices
+                data = np.asarray(symtab[s])
+                if not s.startswith("ppatches_"):
+                    data = data.astype(self.data_type_py)
+                data.tofile(parameters_bin)
         logging.info("Generated parameter .dat file.")
 
     def generate_parameter_file(self: Self, output_dir: Path) -> None:
-- 
2.43.0


From 5b70d28f47e3d9f35e763718369da02ba8e442ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 24/45] fix: batch_loop works on the data type of the network

---
 src/acetone_nnet/templates/template_train_hook_file.c.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/templates/template_train_hook_file.c.tpl b/src/acetone_nnet/templates/template_train_hook_file.c.tpl
index 7bbd6a5..22c8202 100644
--- a/src/acetone_nnet/templates/template_train_hook_file.c.tpl
+++ b/src/acetone_nnet/templates/template_train_hook_file.c.tpl
@@ -4,7 +4,7 @@
 #include "inference.h"
 #include "test_dataset.h"
 
-void batch_loop(float * restrict predictions, float * restrict nn_input, int batch_size)
+void batch_loop({{data_type}} * restrict predictions, {{data_type}} * restrict nn_input, int batch_size)
 {
     int i,j;
     for (j = 0; j < batch_size; j+=MAX_BATCH_SIZE){
-- 
2.43.0


From 125a4ebc2015e64400048b74396ce3c240df9319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 25/45] fix: the generated program reads external inputs in the
 data type of the network

---
 src/acetone_nnet/generator/neural_network.py        | 10 ++++++++++
 src/acetone_nnet/templates/template_main_file.c.tpl |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index ab1f671..b52c06f 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -700,6 +700,16 @@ class CodeGenerator(ABC):
                             if np.issubdtype(self.data_type_py, np.integer)
                             else "%a" if self.to_hex else "%9g"
                         ),
+                        "input_format": {
+                            "double": "%lf",
+                            "float": "%f",
+                            "long int": "%ld",
+                            "int": "%d",
+                            "short": "%hd",
+                            "int16_t": "%hd",
+                            "signed char": "%hhd",
+                            "int8_t": "%hhd",
+                        }.get(self.data_type, "%d"),
                     },
                 ),
             )
diff --git a/src/acetone_nnet/templates/template_main_file.c.tpl b/src/acetone_nnet/templates/template_main_file.c.tpl
index 2fe02ca..114f55d 100644
--- a/src/acetone_nnet/templates/template_main_file.c.tpl
+++ b/src/acetone_nnet/templates/template_main_file.c.tpl
@@ -29,7 +29,7 @@ int main(int argc, char** argv)
     {
         for (j = 0; j < nn_input_size; ++j)
         {
-            fscanf(input_file, "%f", &nn_test_inputs[i][j]);
+            fscanf(input_file, "{{input_format}}", &nn_test_inputs[i][j]);
         }
     }
     fclose(input_file);
-- 
2.43.0


From 214437619cfe5738693a7b36d38853abc57ad470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 26/45] fix: compute_inference of a generator with external
 input

---
 src/acetone_nnet/generator/neural_network.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index b52c06f..e94b41c 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -480,7 +480,6 @@ class CodeGenerator(ABC):
             dataset = self._initialise_dataset(
                 dataset_or_path=dataset_or_path,
                 nb_tests=self.nb_tests,
-                data_type=self.data_type_py,
             )
         else:
             dataset = self.test_dataset
-- 
2.43.0


From 8b1dcf3afc9f60852070cc5b3cb4b5cea083842f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 27/45] fix: generate a parameters.dat objcopy accepts for
 networks without parameters

---
 src/acetone_nnet/generator/neural_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index e94b41c..6ae25fe 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1185,6 +1185,9 @@ class CodeGenerator(ABC):
                 if not s.startswith("ppatches_"):
                     data = data.astype(self.data_type_py)
                 data.tofile(parameters_bin)
+            if not symtab:
+                # objcopy does not accept an empty file
+                parameters_bin.write(bytes(self.target_page_size))
         logging.info("Generated parameter .dat file.")
 
     def generate_parameter_file(self: Self, output_dir: Path) -> None:
-- 
2.43.0


From b39f3886e6b4cd93e6c91c91642d7186df92ecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 28/45] fix: define the inputs of a program with external
 inputs once

---
 src/acetone_nnet/templates/template_main_file.c.tpl           | 4 ++++
 src/acetone_nnet/templates/template_test_dataset_header.c.tpl | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/templates/template_main_file.c.tpl b/src/acetone_nnet/templates/template_main_file.c.tpl
index 114f55d..7d8be7f 100644
--- a/src/acetone_nnet/templates/template_main_file.c.tpl
+++ b/src/acetone_nnet/templates/template_main_file.c.tpl
@@ -14,6 +14,10 @@
 {{/min}}
 
 struct timeval GetTimeStamp();
+{{#read_input}}
+
+{{data_type}} nn_test_inputs[nb_samples][nn_input_size];
+{{/read_input}}
 
 int main(int argc, char** argv)
 {
diff --git a/src/acetone_nnet/templates/template_test_dataset_header.c.tpl b/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
index ac70931..6e5d090 100644
--- a/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
+++ b/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
@@ -5,6 +5,6 @@
 #define nn_input_size {{nb_inputs}}
 #define nn_output_size {{nb_outputs}}
 
-{{^read_input}}extern{{/read_input}} {{data_type}} nn_test_inputs[nb_samples][nn_input_size];
+extern {{data_type}} nn_test_inputs[nb_samples][nn_input_size];
 
 #endif
\ No newline at end of file
-- 
2.43.0


From 1e566895a33b90bf18537d104a91dc780a1ff965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 29/45] fix: acetone_compare does not pass over missing values,
 NaN, overflows and decimal files

---
 src/acetone_nnet/cli/compare.py | 59 +++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/src/acetone_nnet/cli/compare.py b/src/acetone_nnet/cli/compare.py
index 3dc3abb..c4a9e68 100644
--- a/src/acetone_nnet/cli/compare.py
+++ b/src/acetone_nnet/cli/compare.py
@@ -33,22 +33,33 @@ def compare_floats(
     abs_th: float = sys.float_info.min,
 ) -> tuple[bool, float, float]:
     """Compare a-b to abs_th."""
-    diff = abs(a - b)
+    # Differences and sums of single precision values may exceed their range
+    a, b = float(a), float(b)
 
     if a == b:
-        return True, diff, 0.0
+        return True, 0.0, 0.0
 
+    diff = abs(a - b)
     norm = min((abs(a) + abs(b)), sys.float_info.max)
-    rel_diff = diff / (norm / 2) if norm != 0 else 0.0
+    rel_diff = diff / norm * 2
     if diff < max(abs_th, epsilon * norm):
         return True, diff, rel_diff
 
     return False, diff, rel_diff
 
 
+def max_or_nan(a: float, b: float) -> float:
+    """Return the largest value, or nan if one of them is."""
+    return a if a != a or a > b else b
+
+
 def preprocess_line(line: str, precision: str) -> list:
-    """Cast a list of str to a list of float."""
-    values: list = [float.fromhex(x) for x in line.split(" ") if x.strip()]
+    """Cast the values of a line, raw or in JSON, to a list of float."""
+    line = line.translate(str.maketrans('[],"', "    "))
+    values: list = [
+        float.fromhex(x) if "x" in x.lower() else float(x)
+        for x in line.split()
+    ]
     if precision == "double":
         values = list(map(np.float64, values))
     elif precision == "float":
@@ -66,14 +77,16 @@ def compare_lines(
     values_f2 = preprocess_line(line_f2, precision)
     max_diff = 0.0
     max_rel_diff = 0.0
-    length = len(values_f1)
+    if len(values_f1) != len(values_f2):
+        # Nothing to compare the additional values to
+        return False, float("inf"), float("inf")
     line_comparison = True
 
-    for j in range(length):
-        float_comparison, diff, rel_diff = compare_floats(values_f1[j], values_f2[j])
+    for value_f1, value_f2 in zip(values_f1, values_f2, strict=True):
+        float_comparison, diff, rel_diff = compare_floats(value_f1, value_f2)
         line_comparison = float_comparison & line_comparison
-        max_diff = max(diff, max_diff)
-        max_rel_diff = max(rel_diff, max_rel_diff)
+        max_diff = max_or_nan(diff, max_diff)
+        max_rel_diff = max_or_nan(rel_diff, max_rel_diff)
 
     if line_comparison:
         return True, max_diff, max_rel_diff
@@ -95,22 +108,20 @@ def compare_files(
     max_rel_diff_file = 0.0
     line_comparison = True
 
-    for line_f1, line_f2, line_counter in zip(
-        f1,
-        f2,
-        range(nb_tests + 1),
-        strict=False,
-    ):
-        float_comparison, max_diff_line, max_rel_diff_line = (
-            compare_lines(line_f1, line_f2, precision)
-        )
+    for _ in range(int(nb_tests)):
+        line_f1, line_f2 = f1.readline(), f2.readline()
+        if line_f1 and line_f2:
+            float_comparison, max_diff_line, max_rel_diff_line = (
+                compare_lines(line_f1, line_f2, precision)
+            )
+        else:
+            # The result of an inference is missing
+            float_comparison = False
+            max_diff_line = max_rel_diff_line = float("inf")
         line_comparison = float_comparison & line_comparison
 
-        max_diff_file = max(max_diff_line, max_diff_file)
-        max_rel_diff_file = max(max_rel_diff_line, max_rel_diff_file)
-
-        if line_counter == int(nb_tests):
-            break
+        max_diff_file = max_or_nan(max_diff_line, max_diff_file)
+        max_rel_diff_file = max_or_nan(max_rel_diff_line, max_rel_diff_file)
 
     f1.close()
     f2.close()
-- 
2.43.0


From 8bf4de34b704921a206031a148f8d60cf98b93f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 30/45] fix: generation in binary mode does not overwrite
 existing data files

---
 src/acetone_nnet/generator/neural_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 6ae25fe..2c01155 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -773,7 +773,8 @@ class CodeGenerator(ABC):
         c_files_directory = Path(c_files_directory)
         c_files_directory.mkdir(exist_ok=True, parents=True)
 
-        for file in self.files_to_gen:
+        binary_files = ["parameters.dat", "test_dataset.dat"] if self.bin_dataset else []
+        for file in [*self.files_to_gen, *binary_files]:
             if (c_files_directory / file).exists():
                 raise FileExistsError(c_files_directory / file)
 
-- 
2.43.0


From ee939d884fb8833a3dd1446b894266dc276826d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 31/45] fix: normalization does not overwrite the caller's
 input

---
 .../normalization/template_pre_processing.c.tpl          | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl b/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
index 12419d3..2414852 100644
--- a/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
+++ b/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
@@ -1,18 +1,19 @@
     // pre-processing for the normalization
+    float normalized_input[{{input_size}}];
     for (i = 0; i < {{input_size}}; ++i) 
     { 
         if ( nn_input[i] < input_min[i]){
-            nn_input[i] = (input_min[i]-input_mean[i])/input_range[i];
+            normalized_input[i] = (input_min[i]-input_mean[i])/input_range[i];
         }
         else
         {
             if (nn_input[i] > input_max[i]){
-                nn_input[i] = (input_max[i]-input_mean[i])/input_range[i];
+                normalized_input[i] = (input_max[i]-input_mean[i])/input_range[i];
             }
             else
             {
-                nn_input[i] = (nn_input[i]-input_mean[i])/input_range[i];
+                normalized_input[i] = (nn_input[i]-input_mean[i])/input_range[i];
             }
         }
     }
-    
\ No newline at end of file
+    nn_input = normalized_input;
-- 
2.43.0


From 291468fa16ececefd769ef73059cebf77739e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 32/45] fix: import JSON models with keyword arguments, weight
 layouts, batch normalisation and shifted indices

---
 .../importers/JSON_importer/parser_JSON.py    | 63 ++++++++++---------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 378d7e6..6e196a0 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -113,20 +113,22 @@ def load_json(
     layers = []
 
     l_temp = InputLayer(
-        0,
-        model["config"]["layers"][0]["config"]["size"],
-        model["config"]["layers"][0]["config"]["input_shape"],
-        data_format,
+        original_name=model["config"]["layers"][0]["config"]["name"],
+        idx=0,
+        size=model["config"]["layers"][0]["config"]["size"],
+        input_shape=model["config"]["layers"][0]["config"]["input_shape"],
+        data_format=data_format,
     )
 
     layers.append(l_temp)
 
-    nb_softmax_layers = 0
+    # Layer computing the output of each layer of the description
+    imported = {0: l_temp}
 
-    for idx, layer in list(islice(enumerate(model["config"]["layers"]), 1, None)):
+    for json_idx, layer in list(islice(enumerate(model["config"]["layers"]), 1, None)):
         add_softmax_layer = False
 
-        idx += nb_softmax_layers
+        idx = len(layers)
 
         if (
             "activation" in layer["config"]
@@ -136,11 +138,15 @@ def load_json(
             add_softmax_layer = True
 
         if layer["class_name"] == "Dense":
+            # Add B and C dimensions if missing
+            weights = data_type_py(layer["weights"])
+            while weights.ndim < 4:
+                weights = np.expand_dims(weights, axis=0)
             current_layer = Dense(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["units"],
-                weights=np.array(data_type_py(layer["weights"])),
+                weights=weights,
                 biases=data_type_py(layer["biases"]),
                 activation_function=create_actv_function_obj(
                     layer["config"]["activation"],
@@ -148,6 +154,8 @@ def load_json(
             )
 
         elif layer["class_name"] == "Conv2D":
+            # Reorder weights from [C,H,W,F] into [F,C,H,W]
+            weights = np.moveaxis(data_type_py(layer["weights"]), -1, 0)
             current_layer = Conv2D(
                 conv_algorithm="specs",
                 original_name=layer["config"]["name"],
@@ -161,7 +169,7 @@ def load_json(
                 nb_filters=layer["config"]["filters"],
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
-                weights=np.array(data_type_py(layer["weights"])),
+                weights=weights,
                 biases=data_type_py(layer["biases"]),
                 activation_function=create_actv_function_obj(
                     layer["config"]["activation"],
@@ -206,7 +214,7 @@ def load_json(
         elif layer["class_name"] == "Add":
             current_layer = Add(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -216,7 +224,7 @@ def load_json(
         elif layer["class_name"] == "Multiply":
             current_layer = Multiply(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -226,7 +234,7 @@ def load_json(
         elif layer["class_name"] == "Subtract":
             current_layer = Subtract(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -239,7 +247,7 @@ def load_json(
                 axis = 1 if axis == 3 else axis + 1
             current_layer = Concatenate(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 axis=axis,
                 input_shapes=layer["config"]["input_shape"],
@@ -250,7 +258,7 @@ def load_json(
         elif layer["class_name"] == "Maximum":
             current_layer = Maximum(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -260,7 +268,7 @@ def load_json(
         elif layer["class_name"] == "Minimum":
             current_layer = Minimum(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -270,7 +278,7 @@ def load_json(
         elif layer["class_name"] == "Average":
             current_layer = Average(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -280,7 +288,7 @@ def load_json(
         elif layer["class_name"] == "ZeroPadding2D":
             pads = layer["config"]["padding"]
             if type(pads) is int:
-                pads = [pads for i in range(8)]
+                pads = [0, 0, pads, pads, 0, 0, pads, pads]
             else:
                 if type(pads[0]) is int:
                     pad_top, pad_bottom = pads[0], pads[0]
@@ -292,7 +300,7 @@ def load_json(
 
             current_layer = ConstantPad(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 pads=pads,
                 constant_value=0,
@@ -302,9 +310,9 @@ def load_json(
             )
 
         elif layer["class_name"] == "BatchNormalization":
-            BatchNormalization(
+            current_layer = BatchNormalization(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shape=layer["config"]["input_shape"],
                 epsilon=layer["config"]["epsilon"],
@@ -315,26 +323,24 @@ def load_json(
                 activation_function=Linear(),
             )
 
-        elif (
-            "Normalization" in layer["class_name"]
-            or "Dropout" in layer["class_name"]
-            or layer["class_name"] == "Reshape"
-        ):
+        elif "Dropout" in layer["class_name"] or layer["class_name"] == "Reshape":
+            # The layer leaves the data unchanged
+            imported[json_idx] = imported[layer["config"]["prev_layer_idx"][0]]
             continue
 
         else:
             raise TypeError("Error: layer" + layer["class_name"] + " not supported\n")
 
         for i in layer["config"]["prev_layer_idx"]:
-            current_layer.previous_layer.append(layers[i])
-            layers[i].next_layer.append(current_layer)
+            current_layer.previous_layer.append(imported[i])
+            imported[i].next_layer.append(current_layer)
 
         l_temp = current_layer
         layers.append(current_layer)
+        imported[json_idx] = current_layer
 
         # Separated method to generate softmax
         if add_softmax_layer:
-            nb_softmax_layers += 1
             current_layer = Softmax(
                 original_name=f"Softmax_{idx+1}",
                 idx=idx + 1,
@@ -346,6 +352,7 @@ def load_json(
             current_layer.previous_layer.append(l_temp)
             l_temp = current_layer
             layers.append(current_layer)
+            imported[json_idx] = current_layer
 
     layers, max_road, dict_cst = graph_interpretor.tri_topo(layers)
     layers = [x.find_output_str(dict_cst) for x in layers]
-- 
2.43.0


From 8fb53f42014538f79cd6a92020321d4bb242594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:48 +0000
Subject: [PATCH 33/45] fix: import PyTorch and JSON operations with their
 parameters, refuse those that are not supported

---
 .../layers/convolution/Conv2Ddirect_block.py  |   5 +
 src/acetone_nnet/generator/neural_network.py  |  57 +++---
 .../importers/JSON_importer/parser_JSON.py    |  38 ++--
 .../PYTORCH_importer/parse_pytorch.py         | 164 ++++++++++++++----
 4 files changed, 192 insertions(+), 72 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
index 35fe26e..a1aca4b 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
@@ -63,6 +63,11 @@ class Conv2Ddirect_block(Conv2D):
     def __init__(self: Self, **kwargs: Any) -> None:
         """Build a Convolution layer with 6 loops implementation."""
         super().__init__(**kwargs)
+        if self.group != 1 and not self.group == self.input_channels == self.nb_filters:
+            raise ValueError(
+                f"Error: grouped convolution other than depth-wise in Conv2D "
+                f"({self.group} groups, {self.input_channels} channels, {self.nb_filters} filters)",
+            )
         #output channel block size for 3x3 <= 64, and for 1x1 <= 512
         self.block_k = min(64,self.nb_filters) if self.weights.shape[-1]>1 else min(512,self.nb_filters)
         self.block_c = self.input_channels
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 2c01155..97fcbe1 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -47,6 +47,7 @@ from typing_extensions import Self
 
 from acetone_nnet import templates
 from acetone_nnet.importers.parser import parser
+from acetone_nnet.ir import Layer
 from acetone_nnet.pattern_matching.PatternMatcher import pattern_matcher
 from acetone_nnet.quantize import qform
 from acetone_nnet.quantize.activation import QuantizeShiftActivation
@@ -470,6 +471,18 @@ class CodeGenerator(ABC):
             train_hook_file.write(pystache.render(template, mustach_hash))
         logging.info("Generated train hook .c file.")
 
+    @staticmethod
+    def _spatial_shape(layer: Layer) -> tuple[int, int, int] | None:
+        """Return the channels, height and width of the output of a layer, if any."""
+        # Activation layers have no shape of their own, the data keeps its layout
+        while isinstance(layer, ActivationLayer):
+            layer = layer.previous_layer[0]
+        if isinstance(layer, InputLayer) and len(layer.input_shape) == 4:  # noqa: PLR2004
+            return tuple(layer.input_shape[1:])
+        if hasattr(layer, "output_channels"):
+            return layer.output_channels, layer.output_height, layer.output_width
+        return None
+
     def compute_inference(
         self: Self,
         c_files_directory: str,
@@ -556,12 +569,10 @@ class CodeGenerator(ABC):
                         if not isinstance(layer, ConstantLayer):
                             # Add the inference result of the layer to debug_output
                             debug_output.append(layer_output)
-                            if (self.data_format == "channels_last") and hasattr(
-                                layer,
-                                "output_channels",
-                            ):
+                            shape = self._spatial_shape(layer)
+                            if self.data_format == "channels_last" and shape:
                                 debug_output[-1] = np.transpose(
-                                    debug_output[-1],
+                                    np.reshape(debug_output[-1], shape),
                                     (1, 2, 0),
                                 )
                             debug_output[-1] = debug_output[-1].flatten()
@@ -571,11 +582,9 @@ class CodeGenerator(ABC):
                 nn_output = layer_output
 
                 # Write results in text files to compare prediction.
-                if (self.data_format == "channels_last") and hasattr(
-                    layer,
-                    "output_channels",
-                ):
-                    nn_output = np.transpose(nn_output, (1, 2, 0))
+                shape = self._spatial_shape(layer)
+                if self.data_format == "channels_last" and shape:
+                    nn_output = np.transpose(np.reshape(nn_output, shape), (1, 2, 0))
                 nn_output = np.reshape(nn_output, -1)
 
                 if self.normalize:
@@ -924,13 +933,14 @@ class CodeGenerator(ABC):
                 layer_hash["name"] = layer.name
                 layer_hash["idx"] = layer.idx
                 layer_hash["to_transpose"] = 0
-                if (self.data_format == "channels_last") and (
-                    hasattr(layer, "output_channels")
-                ):
+                shape = self._spatial_shape(layer)
+                if self.data_format == "channels_last" and shape:
                     layer_hash["to_transpose"] = 1
-                    layer_hash["channels"] = layer.output_channels
-                    layer_hash["height"] = layer.output_height
-                    layer_hash["width"] = layer.output_width
+                    (
+                        layer_hash["channels"],
+                        layer_hash["height"],
+                        layer_hash["width"],
+                    ) = shape
 
             if self.debug_mode in ["time"]:
                 layer_hash["time"] = True
@@ -941,14 +951,13 @@ class CodeGenerator(ABC):
 
         # Generate code to output graph data
         output_hash = {"path": self.layers[-1].path}
-        # Activation layers have no shape of their own, the data keeps its layout
-        shaped_layer = self.layers[-1]
-        while isinstance(shaped_layer, ActivationLayer):
-            shaped_layer = shaped_layer.previous_layer[0]
-        if hasattr(shaped_layer, "output_channels"):
-            output_hash["output_height"] = shaped_layer.output_height
-            output_hash["output_width"] = shaped_layer.output_width
-            output_hash["output_channels"] = shaped_layer.output_channels
+        shape = self._spatial_shape(self.layers[-1])
+        if shape:
+            (
+                output_hash["output_channels"],
+                output_hash["output_height"],
+                output_hash["output_width"],
+            ) = shape
             if (self.data_format == "channels_first") and (self.gen_data_format=="channels_last"):
                 output_hash["channels_last_to_first"] = True
             elif (self.data_format == "channels_last") and (self.gen_data_format=="channels_first"):
diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 6e196a0..952b4d2 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -71,6 +71,16 @@ def create_actv_function_obj(activation_str: str) -> ActivationFunctions:
     raise TypeError("Activation layer " + activation_str + " not implemented")
 
 
+def uniform_parameter(layer: dict, parameter: str) -> int:
+    """Return the value of a parameter, shared by both spatial dimensions."""
+    values = layer["config"][parameter]
+    if len(set(values)) != 1:
+        raise NotImplementedError(
+            f"Error: {parameter} {values} in layer {layer['config']['name']} not supported",
+        )
+    return values[0]
+
+
 def create_resize_obj(
     mode: str,
     **kwargs: object,
@@ -162,10 +172,10 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 padding=layer["config"]["padding"],
-                strides=layer["config"]["strides"][0],
+                strides=uniform_parameter(layer, "strides"),
                 kernel_h=layer["config"]["kernel_size"][0],
                 kernel_w=layer["config"]["kernel_size"][1],
-                dilation_rate=layer["config"]["dilation_rate"][0],
+                dilation_rate=uniform_parameter(layer, "dilation_rate"),
                 nb_filters=layer["config"]["filters"],
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -182,8 +192,8 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 padding=layer["config"]["padding"],
-                strides=layer["config"]["strides"][0],
-                pool_size=layer["config"]["pool_size"][0],
+                strides=uniform_parameter(layer, "strides"),
+                pool_size=uniform_parameter(layer, "pool_size"),
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
@@ -195,8 +205,8 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 padding=layer["config"]["padding"],
-                strides=layer["config"]["strides"][0],
-                pool_size=layer["config"]["pool_size"][0],
+                strides=uniform_parameter(layer, "strides"),
+                pool_size=uniform_parameter(layer, "pool_size"),
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
@@ -216,7 +226,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -226,7 +236,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -236,13 +246,15 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
 
         elif layer["class_name"] == "Concatenate":
             axis = layer["config"]["axis"]
+            if axis < 0:
+                axis += len(layer["config"]["output_shape"])
             if data_format == "channels_last":
                 axis = 1 if axis == 3 else axis + 1
             current_layer = Concatenate(
@@ -250,7 +262,7 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 axis=axis,
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -260,7 +272,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -270,7 +282,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -280,7 +292,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 202e0de..4868df6 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -4,6 +4,7 @@ import numpy as np
 
 from acetone_nnet.generator import (
     ActivationFunctions,
+    ActivationLayer,
     Add,
     Clip,
     Average,
@@ -70,6 +71,8 @@ class ShapeAwareVisitor(FXGraphVisitor):
     A visitor that prints the execution trace alongside
     inferred tensor shapes and data types derived from node.meta['val'].
     """
+    data_types = {torch.float32: ("float", np.float32), torch.float64: ("double", np.float64)}
+
     def __init__(self):
         self.indent = "  "
         self.idx=0
@@ -108,6 +111,65 @@ class ShapeAwareVisitor(FXGraphVisitor):
         left_col = f"{self.indent}[{kind}] {node_name:<15} {extra}"
         logging.info(f"{left_col:<60} -> {shape_info}")
 
+    @staticmethod
+    def _is_channels_last(val: torch.Tensor) -> bool:
+        """Tell the memory layout of a tensor, the default one if both describe it."""
+        return val.is_contiguous(memory_format=torch.channels_last) and not val.is_contiguous()
+
+    @staticmethod
+    def _uniform(name: str, value: Any) -> int:
+        """Return the value shared by both spatial dimensions."""
+        values = set(value) if isinstance(value, (list, tuple)) else {value}
+        if len(values) != 1:
+            raise NotImplementedError(f"Error: non uniform {name} {value} not supported")
+        return values.pop()
+
+    @staticmethod
+    def _padding(value: Any, kernel: list[int], dilation: int) -> list[int]:
+        """Return the padding as [top, left, bottom, right]."""
+        if value == "valid":
+            value = [0, 0]
+        if value == "same":
+            total = [(k - 1) * dilation for k in kernel]
+            return [t // 2 for t in total] + [t - t // 2 for t in total]
+        if isinstance(value, int):
+            value = [value]
+        value = list(value) * (2 // len(value))
+        return value + value
+
+    def _is_fusible(self, node: torch.fx.Node) -> bool:
+        """Tell if an operation on a node can be computed by the layer producing it."""
+        layer = self.layerdic[node.name][0]
+        return (
+            not isinstance(layer, InputLayer)
+            and isinstance(layer.activation_function, Linear)
+            and all(
+                len(alias.users) == 1
+                for alias in self.module.graph.nodes
+                if alias.name in self.layerdic and self.layerdic[alias.name][0] is layer
+            )
+        )
+
+    def _append_layer(self, node: torch.fx.Node, this_layer: Layer) -> None:
+        """Register a layer taking as input the first argument of the node."""
+        self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
+        this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
+        self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
+        self.idx+=1
+
+    def _visit_activation(self, node: torch.fx.Node, activation: ActivationFunctions) -> None:
+        """Set the activation of the previous layer, or add an activation layer."""
+        if self._is_fusible(node.args[0]):
+            self.layerdic[node.args[0].name][0].activation_function = activation
+            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register
+        else:
+            self._append_layer(node, ActivationLayer(
+                original_name=node.name,
+                idx=self.idx,
+                size=node.meta['val'].numel(),
+                activation_function=activation,
+            ))
+
     # --- Visitor Implementation ---
 
     def visit(self, graph_module: torch.fx.GraphModule):
@@ -124,8 +186,11 @@ class ShapeAwareVisitor(FXGraphVisitor):
             idx=self.idx,
             size=node.meta['val'].numel(),
             input_shape=node.meta['val'].shape,
-            data_format="channels_last" if node.meta['val'].is_contiguous(memory_format=torch.channels_last) else "channels_first",
+            data_format="channels_last" if self._is_channels_last(node.meta['val']) else "channels_first",
         )
+        if node.meta['val'].dtype not in self.data_types:
+            raise TypeError(f"Error: data type {node.meta['val'].dtype} not supported")
+        self.data_type = node.meta['val'].dtype
         self.data_format = this_layer.data_format
         logging.info(f"[LAYOUT] : {self.data_format}")
         self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
@@ -135,36 +200,42 @@ class ShapeAwareVisitor(FXGraphVisitor):
     def visit_call_function(self, node: torch.fx.Node):
         target_name = node.target.__name__ if hasattr(node.target, '__name__') else str(node.target)
         self._print_node("FUNC", node, f"call: {target_name}(args={node.args})")
-        if "linear" in target_name:
+        operation = target_name.split(".")[0]
+        if operation.endswith("_"):
+            # In-place operation, equivalent if nothing else reads the tensor
+            if len(node.args[0].users) > 1:
+                raise NotImplementedError(f"Error: {target_name} on a shared tensor not supported")
+            operation = operation.rstrip("_")
+        if operation == "linear":
             this_layer = Dense(
                 original_name=node.name,
                 idx=self.idx,
                 size=node.meta['val'].numel(),
                 weights=self.module.state_dict()[node.args[1].target].numpy().T,
-                biases=self.module.state_dict()[node.args[2].target].numpy(),
+                biases=self.module.state_dict()[node.args[2].target].numpy() if len(node.args) > 2 and node.args[2] is not None else np.zeros(node.meta['val'].shape[-1],dtype=self.data_types[self.data_type][1]),
                 activation_function=Linear()
             )
             self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "relu" in target_name:
-            self.layerdic[node.args[0].name][0].activation_function=ReLu() # set previous layer activation 
-            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
-        elif "clamp" in target_name:
-            self.layerdic[node.args[0].name][0].activation_function=Clip( # set previous layer activation 
-                max_value=node.args[2],
-                min_value=node.args[1]
-            )
-            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
-        elif "conv2d" in target_name:
+        elif operation == "relu":
+            self._visit_activation(node, ReLu())
+        elif operation == "clamp":
+            bounds = [*node.args[1:], None, None]
+            self._visit_activation(node, Clip(
+                max_value=float("inf") if bounds[1] is None else bounds[1],
+                min_value=float("-inf") if bounds[0] is None else bounds[0],
+            ))
+        elif operation == "conv2d":
             #first call to conv2d is expected to decide memory layout format based on its input tensor
             if not hasattr(self,"data_format"):
-                self.data_format = "channels_last" if self.module.state_dict()[node.args[1].target].is_contiguous(memory_format=torch.channels_last) else "channels_first"
+                self.data_format = "channels_last" if self._is_channels_last(self.module.state_dict()[node.args[1].target]) else "channels_first"
                 logging.info(f"[LAYOUT] : {self.data_format}")
-            stride = node.args[3][0] if len(node.args) > 3 else 1
-            padding = node.args[4] + node.args[4] if len(node.args) > 4 else [0,0,0,0]
-            dilation = node.args[5][0] if len(node.args) > 5 else 1
+            kernel = list(self.module.state_dict()[node.args[1].target].shape[-2:])
+            stride = self._uniform("strides", node.args[3]) if len(node.args) > 3 else 1
+            dilation = self._uniform("dilation", node.args[5]) if len(node.args) > 5 else 1
+            padding = self._padding(node.args[4], kernel, dilation) if len(node.args) > 4 else [0,0,0,0]
             group = node.args[6] if len(node.args) > 6 else 1
             this_layer = Conv2D(
                     conv_algorithm="specs",
@@ -174,36 +245,52 @@ class ShapeAwareVisitor(FXGraphVisitor):
                     padding=padding,
                     strides=stride,
                     group=group,
-                    kernel_h=self.module.state_dict()[node.args[1].target].shape[-1],
-                    kernel_w=self.module.state_dict()[node.args[1].target].shape[-1],
+                    kernel_h=kernel[0],
+                    kernel_w=kernel[1],
                     dilation_rate=dilation,
                     nb_filters=node.meta['val'].shape[1],
                     input_shape=self.layerdic[node.args[0].name][1],
                     output_shape=node.meta['val'].shape,
                     weights=self.module.state_dict()[node.args[1].target].numpy(),
-                    biases=self.module.state_dict()[node.args[2].target].numpy() if node.args[2] is not None else np.zeros(node.meta['val'].shape[1],dtype=np.float32),
+                    biases=self.module.state_dict()[node.args[2].target].numpy() if len(node.args) > 2 and node.args[2] is not None else np.zeros(node.meta['val'].shape[1],dtype=self.data_types[self.data_type][1]),
                     activation_function=Linear()
                 )
             self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "batch_norm" in target_name:
+        elif operation == "batch_norm":
             # Fusing batch normalization to previous conv2d https://pytorch-cn.com/tutorials/intermediate/fx_conv_bn_fuser.html
-            self.layerdic[node.name] = self.layerdic[node.args[0].name]
             bn_w = self.module.state_dict()[node.args[1].target]
             bn_b = self.module.state_dict()[node.args[2].target]
             bn_rm = self.module.state_dict()[node.args[3].target]
             bn_rv = self.module.state_dict()[node.args[4].target]
             bn_eps = node.args[7]
             bn_var_rsqrt = torch.rsqrt(bn_rv + bn_eps)
+            if type(self.layerdic[node.args[0].name][0]) is not Conv2D or not self._is_fusible(node.args[0]):
+                self._append_layer(node, BatchNormalization(
+                    original_name=node.name,
+                    idx=self.idx,
+                    size=node.meta['val'].numel(),
+                    input_shape=self.layerdic[node.args[0].name][1],
+                    epsilon=bn_eps,
+                    scale=bn_w.numpy(),
+                    biases=bn_b.numpy(),
+                    mean=bn_rm.numpy(),
+                    var=bn_rv.numpy(),
+                    activation_function=Linear(),
+                ))
+                return
+            self.layerdic[node.name] = self.layerdic[node.args[0].name]
             conv_w = torch.from_numpy(self.layerdic[node.args[0].name][0].weights)
             conv_b = torch.from_numpy(self.layerdic[node.args[0].name][0].biases)
             conv_w = conv_w * (bn_w * bn_var_rsqrt).reshape([-1] + [1] * (len(conv_w.shape) - 1))
             conv_b = (conv_b - bn_rm) * bn_var_rsqrt * bn_w + bn_b
-            self.layerdic[node.args[0].name][0].weights = conv_w.numpy().astype(np.float32)
-            self.layerdic[node.args[0].name][0].biases = conv_b.numpy().astype(np.float32)
-        elif "add" in target_name:
+            self.layerdic[node.args[0].name][0].weights = conv_w.numpy()
+            self.layerdic[node.args[0].name][0].biases = conv_b.numpy()
+        elif operation == "add":
+            if node.kwargs.get("alpha", 1) != 1:
+                raise NotImplementedError("Error: add with a scaling factor not supported")
             if node.args[0].name in self.layerdic.keys(): # bypass bn2_num_batches_tracked + 1
                 this_layer =  Add(
                     original_name=node.name,
@@ -220,7 +307,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 self.idx+=1
             else:
                 logging.info(f"Add layer bypassed: {node.args[0].name}")
-        elif "cat" in target_name:
+        elif operation == "cat":
             this_layer = Concatenate(
                     original_name=node.name,
                     idx=self.idx,
@@ -235,15 +322,17 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 this_layer.previous_layer.append(self.layerdic[node.args[0][i].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "dropout" in target_name:
+        elif operation == "dropout":
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
-        elif "flatten" in target_name:
+        elif operation == "flatten":
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
-        elif "max_pool2d" in target_name:
-            kernel = node.args[1][0] if len(node.args) > 1 else 1
-            stride = node.args[2][0] if len(node.args) > 2 else 1
-            padding = node.args[3] + node.args[3] if len(node.args) > 3 else [0,0,0,0]
-            dilation = node.args[4][0] if len(node.args) > 4 else 1
+        elif operation == "max_pool2d":
+            kernel = self._uniform("kernel size", node.args[1])
+            stride = self._uniform("strides", node.args[2]) if len(node.args) > 2 and node.args[2] else kernel
+            padding = self._padding(node.args[3], [kernel, kernel], 1) if len(node.args) > 3 else [0,0,0,0]
+            dilation = self._uniform("dilation", node.args[4]) if len(node.args) > 4 else 1
+            if dilation != 1:
+                raise NotImplementedError("Error: max_pool2d with dilation not supported")
             this_layer = MaxPooling2D(
                     original_name=node.name,
                     idx=self.idx,
@@ -260,7 +349,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "adaptive_avg_pool2d" in target_name:
+        elif operation == "adaptive_avg_pool2d":
             this_layer = AveragePooling2D(
                 original_name=node.name,
                 idx=self.idx,
@@ -292,6 +381,11 @@ class ShapeAwareVisitor(FXGraphVisitor):
         # The output node usually contains the return value in args[0]
         # We look at the meta of the output node itself if available, or the inputs
         logging.info(f"{self.indent}[OUTPUT] return {node.args[0]}")
+        outputs = [out for out in node.args[0] if out is not None]
+        if len(outputs) != 1:
+            raise NotImplementedError(f"Error: {len(outputs)} outputs not supported")
+        if outputs[0].name not in self.layerdic:
+            raise TypeError(f"Error: layer {outputs[0]} not supported")
 
 
 
@@ -301,4 +395,4 @@ def load_pytorch(program : ExportedProgram):
     layers, max_road, dict_cst = graph_interpretor.tri_topo([l[0] for l in visitor.layerdic.values()])
     layers = [x.find_output_str(dict_cst) for x in layers]
     print("Finished model initialization.")    
-    return layers, "float", np.float32, visitor.data_format,max_road, dict_cst
\ No newline at end of file
+    return layers, *visitor.data_types[visitor.data_type], visitor.data_format,max_road, dict_cst
\ No newline at end of file
-- 
2.43.0


From 8a296d89749f905800378a64d48580148084c0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:05 +0000
Subject: [PATCH 34/45] fix: refuse the ONNX graphs, operands and attributes
 that are not supported, drop unused results

---
 .../importers/ONNX_importer/create_layer.py   | 87 +++++++++++++++----
 .../importers/ONNX_importer/parser_ONNX.py    | 49 +++++++++--
 2 files changed, 114 insertions(+), 22 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index fbd6be0..49f0002 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -169,11 +169,21 @@ def get_shape(
             shape[i] = 1
         elif shape[i] < 0:
             shape[i] = len(shape) + shape[i]
+    if extend and len(shape) > shape_length:
+        msg = f"Error: tensor {shape_name} of rank {len(shape)} not supported"
+        raise NotImplementedError(msg)
     if extend and shape and len(shape) <= shape_length:
         shape = [1 for _i in range(4 - len(shape))] + shape
     return shape
 
 
+def check_batch(node: onnx.NodeProto, shape: list[int]) -> None:
+    """Refuse the layers that do not handle several elements in the batch."""
+    if shape[0] != 1:
+        msg = f"Error: batch of {shape[0]} in {node.op_type} not supported"
+        raise NotImplementedError(msg)
+
+
 # Return the size of the layer when given the list output_shape
 def find_size(output_shape: list) -> int:
     """Compute the size of a tensor."""
@@ -199,6 +209,9 @@ def create_input_layer(
         input_layer.type.tensor_type.shape.dim[i].dim_value
         for i in range(len(input_layer.type.tensor_type.shape.dim))
     ]
+    if 0 in output_shape[1:]:
+        msg = f"Error: input shape {output_shape} not known in the model"
+        raise ValueError(msg)
     size = find_size(output_shape)
 
     return InputLayer(
@@ -210,6 +223,15 @@ def create_input_layer(
     )
 
 
+def get_uniform_value(attributes: dict, name: str) -> int:
+    """Return the value of an attribute, identical along both spatial dimensions."""
+    values = set(attributes.get(name, [1]))
+    if len(values) != 1:
+        msg = f"Error: {name} differ between dimensions, not supported\n"
+        raise NotImplementedError(msg)
+    return values.pop()
+
+
 def create_initializer_layer(
     idx: int,
     initializer: onnx.TensorProto,
@@ -313,10 +335,10 @@ def create_conv(
         idx=idx,
         size=size,
         padding=attributes["auto_pad"],
-        strides=attributes["strides"][0],
+        strides=get_uniform_value(attributes, "strides"),
         kernel_h=attributes["kernel_shape"][0],
         kernel_w=attributes["kernel_shape"][1],
-        dilation_rate=attributes["dilations"][0],
+        dilation_rate=get_uniform_value(attributes, "dilations"),
         nb_filters=initializers[0].dims[0],
         input_shape=input_shape,
         output_shape=output_shape,
@@ -434,6 +456,10 @@ def create_resize(
         msg = "Error: Resize without constant scales or sizes"
         raise ValueError(msg)
 
+    if input_shape[0] != 1 or output_shape[:2] != input_shape[:2]:
+        msg = "Error: Resize of the batch or of the channels not implemented"
+        raise ValueError(msg)
+
     # The tensor has four dimensions, and the axes not given are left unchanged
     offset = len(input_shape) - rank
     axes = [offset + axe for axe in attributes["axes"]] or range(offset, len(input_shape))
@@ -490,6 +516,9 @@ def create_pad(
         axes = onnx.numpy_helper.to_array(initializers[2]).tolist()
     # Extend the pads to the four dimensions of the layer's tensors
     onnx_pads = list(map(int, onnx.numpy_helper.to_array(initializers[0])))
+    if any(pad < 0 for pad in onnx_pads):
+        msg = "Error: Pad with negative pads not implemented"
+        raise ValueError(msg)
     pads = [0] * 8
     for i, axe in enumerate(axes):
         axes[i] = axe % original_len_shape + 4 - original_len_shape
@@ -810,6 +839,7 @@ def create_reduce_sum(
     onnx_version_change_implementation = 13
 
     input_shape = get_shape(node.input[0], model)
+    check_batch(node, input_shape)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
@@ -864,6 +894,7 @@ def create_reduce_max(
     onnx_version_change_implementation = 18
 
     input_shape = get_shape(node.input[0], model)
+    check_batch(node, input_shape)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
@@ -918,6 +949,7 @@ def create_reduce_min(
     onnx_version_change_implementation = 18
 
     input_shape = get_shape(node.input[0], model)
+    check_batch(node, input_shape)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
@@ -972,6 +1004,7 @@ def create_reduce_mean(
     onnx_version_change_implementation = 18
 
     input_shape = get_shape(node.input[0], model)
+    check_batch(node, input_shape)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
@@ -1026,6 +1059,7 @@ def create_reduce_prod(
     onnx_version_change_implementation = 18
 
     input_shape = get_shape(node.input[0], model)
+    check_batch(node, input_shape)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
@@ -1087,8 +1121,9 @@ def create_max_pool(
     dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if "dilations" not in attributes:
-        attributes["dilations"] = [1]
+    if get_uniform_value(attributes, "dilations") != 1:
+        msg = "Error: dilated pooling not supported\n"
+        raise NotImplementedError(msg)
     if ("auto_pad" not in attributes) or (attributes["auto_pad"].decode() == "NOTSET"):
         if "pads" not in attributes:
             attributes["auto_pad"] = "VALID"
@@ -1103,8 +1138,8 @@ def create_max_pool(
         idx=idx,
         size=size,
         padding=attributes["auto_pad"],
-        strides=attributes["strides"][0],
-        pool_size=attributes["kernel_shape"][0],
+        strides=get_uniform_value(attributes, "strides"),
+        pool_size=get_uniform_value(attributes, "kernel_shape"),
         input_shape=input_shape,
         output_shape=output_shape,
         activation_function=Linear(),
@@ -1126,8 +1161,9 @@ def create_average_pool(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if "dilations" not in attributes:
-        attributes["dilations"] = [1]
+    if get_uniform_value(attributes, "dilations") != 1:
+        msg = "Error: dilated pooling not supported\n"
+        raise NotImplementedError(msg)
     if ("auto_pad" not in attributes) or (attributes["auto_pad"].decode() == "NOTSET"):
         if "pads" not in attributes:
             attributes["auto_pad"] = "VALID"
@@ -1137,13 +1173,19 @@ def create_average_pool(
         attributes["auto_pad"] = attributes["auto_pad"].decode()
     if "strides" not in attributes:
         attributes["strides"] = [1, 1]
+    if attributes.get("count_include_pad", 0) and attributes["auto_pad"] not in (
+        "VALID",
+        [0, 0, 0, 0],
+    ):
+        msg = "Error: AveragePool counting the padding not supported\n"
+        raise NotImplementedError(msg)
     return AveragePooling2D(
         original_name=node.name,
         idx=idx,
         size=size,
         padding=attributes["auto_pad"],
-        strides=attributes["strides"][0],
-        pool_size=attributes["kernel_shape"][0],
+        strides=get_uniform_value(attributes, "strides"),
+        pool_size=get_uniform_value(attributes, "kernel_shape"),
         input_shape=input_shape,
         output_shape=output_shape,
         activation_function=Linear(),
@@ -1485,26 +1527,41 @@ def bypass(
     dict_output[node.output[0]] = dict_output[node.input[0]]
 
 
+def create_dropout(
+    node: onnx.NodeProto,
+    dict_output: dict,
+    model: onnx.ModelProto,
+) -> None:
+    """Bypass the dropout, which does nothing but in training."""
+    if len(node.input) > 2 and node.input[2]:  # noqa: PLR2004
+        training = look_for_initializer(node.input[2], model)
+        if not training or onnx.numpy_helper.to_array(training).item():
+            msg = "Error: Dropout in training mode not supported"
+            raise ValueError(msg)
+    bypass(node, dict_output, model)
+
+
 def create_initializer(
     node: onnx.NodeProto,
     dict_output: dict,
     model: onnx.ModelProto,
 ) -> None:
     """Change a constant layer into an initializer."""
+    attribute = node.attribute[0]
+    if attribute.name != "value":
+        msg = f"Error: Constant with attribute {attribute.name} not supported\n"
+        raise NotImplementedError(msg)
     const = model.graph.initializer.add()
+    const.CopyFrom(attribute.t)
     const.name = node.output[0]
-    const.data_type = node.attribute[0].t.data_type
-    const.raw_data = node.attribute[0].t.raw_data
 
 
 ###### Dict of all the functions ######
 unused_layers = {
-    "Dropout": bypass,
+    "Dropout": create_dropout,
     "Constant": create_initializer,
     "Unsqueeze": bypass,
     "Reshape": bypass,
-    "LRN": bypass,
-    "Shape": bypass,
     "Flatten": bypass,
 }
 
diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index aaecadb..c7ea3e0 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -19,6 +19,7 @@
 ******************************************************************************
 """
 
+import copy
 from pathlib import Path
 
 import numpy as np
@@ -60,6 +61,25 @@ def find_data_type(
     return data_type, data_type_py
 
 
+def find_useful_nodes(model: onnx.ModelProto) -> (list[onnx.NodeProto], set[str]):
+    """Find the nodes the output of the model depends on, and the tensors they read."""
+    useful = {output.name for output in model.graph.output}
+    if len(useful) != 1:
+        msg = f"Error: {len(useful)} outputs in the model, only one supported\n"
+        raise NotImplementedError(msg)
+    nodes = []
+    for node in reversed(model.graph.node):
+        if not useful.intersection(node.output):
+            continue
+        if useful.intersection(node.output[1:]):
+            msg = f"Error: secondary outputs of layer {node.op_type} not supported\n"
+            raise NotImplementedError(msg)
+        nodes.insert(0, node)
+        # The other inputs of a bypassed layer do not change the data
+        useful.update(node.input[:1] if node.op_type in unused_layers else node.input)
+    return nodes, useful
+
+
 def load_onnx(
     file_to_parse: Path | str | onnx.ModelProto
 ) -> (list[Layer], str, type, str, int, dict[int, int]):
@@ -71,6 +91,8 @@ def load_onnx(
         else file_to_parse
     )
 
+    # Importing modifies the graph, not the user's
+    model = copy.deepcopy(model)
     if not model.graph.value_info:
         model = onnx.shape_inference.infer_shapes(model)
 
@@ -85,13 +107,21 @@ def load_onnx(
     # Indices of the layer
     idx = 0
 
-    # Creating and adding all the input layers to the list
-    for i in model.graph.input:
-        layers.append(create_input_layer(i, idx, dict_output))
-        idx += 1
-
     # Create constant for all initializers
     init_dict = {i.name:i for i in model.graph.initializer}
+
+    # Creating and adding the input layer to the list
+    nodes, useful_tensors = find_useful_nodes(model)
+    inputs = [
+        i
+        for i in model.graph.input
+        if i.name in useful_tensors and i.name not in init_dict
+    ]
+    if len(inputs) != 1:
+        msg = f"Error: {len(inputs)} inputs in the model, only one supported\n"
+        raise NotImplementedError(msg)
+    layers.append(create_input_layer(inputs[0], idx, dict_output))
+    idx += 1
     '''for initializer in model.graph.initializer:
         layers.append(
             create_initializer_layer(
@@ -103,7 +133,7 @@ def load_onnx(
         idx += 1'''
 
     # Going through all the nodes to create the layers and add them to the list
-    for node in model.graph.node:
+    for node in nodes:
         if node.op_type in layer_type:
             # If the node is a useful layer, we add it to the list
             layers.append(
@@ -145,9 +175,14 @@ def load_onnx(
             parent.next_layer.append(layer)
 
     data_type = onnx.helper.tensor_dtype_to_np_dtype(
-        model.graph.input[0].type.tensor_type.elem_type,
+        inputs[0].type.tensor_type.elem_type,
     )
 
+    if np.issubdtype(data_type, np.integer) and any(
+        node.op_type in ("Div", "ReduceMean") for node in nodes
+    ):
+        msg = "Error: division of integers not supported\n"
+        raise NotImplementedError(msg)
     data_type, data_type_py = find_data_type(str(data_type))
 
     # Sorting the graph and adding the road to the layers
-- 
2.43.0


From f215a8d6a1838fc85f0b4955fec8d55f3d36af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 35/45] fix: refuse the layers which do not support the data
 format of the generated code

---
 src/acetone_nnet/generator/neural_network.py | 53 ++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 97fcbe1..a1d5c03 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -79,6 +79,7 @@ from .layers import (
     ResizeNearest,
     Softmax,
 )
+from .layers.convolution import Conv2Ddirect_block
 
 from torch.export import ExportedProgram
 
@@ -200,6 +201,8 @@ class CodeGenerator(ABC):
         self.versions = self.select_layers_implementation(versions)
         self.layers = versioning(self.layers, self.versions)
 
+        self.check_data_format()
+
         self.quantize_layers()
 
         ##### Debug Mode #####
@@ -483,6 +486,56 @@ class CodeGenerator(ABC):
             return layer.output_channels, layer.output_height, layer.output_width
         return None
 
+    def check_data_format(self: Self) -> None:
+        """Refuse the layers which do not support the data format of the generated code."""
+        if self.gen_data_format not in ("channels_first", "channels_last"):
+            msg = f"Error: data format {self.gen_data_format} not supported"
+            raise ValueError(msg)
+
+        def same_in_both(shape: tuple[int, int, int] | None) -> bool:
+            return shape is None or shape[0] == 1 or shape[1] * shape[2] == 1
+
+        # Data format and shape of the output of each layer
+        formats: dict[int, tuple[str, tuple[int, int, int] | None]] = {}
+        for layer in self.layers:
+            inputs = [formats[previous.idx] for previous in layer.previous_layer]
+            shape = self._spatial_shape(layer)
+            data_format = "channels_first"
+            if isinstance(layer, InputLayer):
+                if not same_in_both(shape):
+                    data_format = self.gen_data_format
+                supported = True
+            elif isinstance(layer, ActivationLayer):
+                data_format = inputs[0][0]
+                supported = True
+            elif isinstance(layer, Conv2Ddirect_block) or (
+                isinstance(layer, Pooling2D) and layer.version == "channels_last"
+            ):
+                view = (layer.input_channels, layer.input_height, layer.input_width)
+                if not same_in_both(shape):
+                    data_format = "channels_last"
+                supported = inputs[0] == ("channels_last", view) or (
+                    same_in_both(view) and inputs[0][0] == "channels_first"
+                )
+            elif isinstance(layer, Broadcast) and all(
+                i == ("channels_last", shape) for i in inputs
+            ):
+                data_format = "channels_last"
+                supported = layer.constant is None or layer.constant_size == 1
+            else:
+                supported = all(i[0] == "channels_first" for i in inputs)
+            if not supported:
+                msg = (
+                    f"Error: {layer.name} {layer.idx} (version {layer.version}) does not "
+                    f"support data format {self.gen_data_format} of the generated code"
+                )
+                raise NotImplementedError(msg)
+            formats[layer.idx] = (data_format, shape)
+
+        if not same_in_both(shape) and data_format != self.gen_data_format:
+            msg = f"Error: output of {layer.name} {layer.idx} is in {data_format} format"
+            raise NotImplementedError(msg)
+
     def compute_inference(
         self: Self,
         c_files_directory: str,
-- 
2.43.0


From dae3334a09927afe0dc19a044af27b1362c9a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:00 +0000
Subject: [PATCH 36/45] fix: fixed-point targets: fused layers, missing
 configurations, scaling to more fractional bits and stored type

---
 src/acetone_nnet/generator/neural_network.py | 16 +++++++++++++---
 src/acetone_nnet/quantize/activation.py      | 20 +++++++++-----------
 src/acetone_nnet/quantize/qform.py           |  5 +++--
 3 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index a1d5c03..732a030 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -609,6 +609,11 @@ class CodeGenerator(ABC):
 
                     # Compute layer output
                     layer_output = layer.forward_path_layer(forward_inputs)
+                    if self.target_cfg is not None:
+                        # Outputs are stored in the data type of the target
+                        layer_output = np.asarray(layer_output).astype(
+                            self.data_type_py,
+                        )
 
                     # Write Layer output into successors' input
                     for successor in layer.next_layer:
@@ -1151,8 +1156,9 @@ class CodeGenerator(ABC):
         if self.target_cfg is not None:
             for l in self.layers:
                 try:
+                    # Fused layers are configured as the layer they were fused to
                     layer_qconf = self.target_cfg["quantization"]["layers"][
-                        l.original_name
+                        l.original_name.split(" fused with ")[0]
                     ]
                     if isinstance(l, ConstantLayer):
                         l.qparam = layer_qconf["out"]
@@ -1190,14 +1196,18 @@ class CodeGenerator(ABC):
                         )
                         if (constant != l.constant).all():
                             logging.warning("Constant MSB truncated")
-                    l.qin = layer_qconf["in"]
+                    l.qin = layer_qconf.get("in")
                     l.qout = layer_qconf["out"]
                     logging.info(f"Quantize {l.name}_{l.idx} format {l.qparam}")
                     l.temp_pydtype = self.target_cfg["quantization"]["temp_pydtype"]
                     l.cdtype = self.target_cfg["quantization"]["dtype"]
 
                 except KeyError:
-                    if hasattr(l, "weights") or hasattr(l, "biases"):
+                    if (
+                        hasattr(l, "weights")
+                        or hasattr(l, "biases")
+                        or isinstance(l, ConstantLayer | MatMul)
+                    ):
                         raise KeyError(
                             f"Cannot quantize layer {l.name}_{l.idx}, missing data in target config",
                         )
diff --git a/src/acetone_nnet/quantize/activation.py b/src/acetone_nnet/quantize/activation.py
index c550242..560110e 100644
--- a/src/acetone_nnet/quantize/activation.py
+++ b/src/acetone_nnet/quantize/activation.py
@@ -30,7 +30,10 @@ class QuantizeShiftActivation(ActivationFunctions):
 
     def compute(self: Self, z: np.ndarray) -> np.ndarray:
         """Compute the python output."""
-        out = np.right_shift(z, self.shift)
+        if self.shift >= 0:
+            out = np.right_shift(z, self.shift)
+        else:
+            out = np.left_shift(z, -self.shift)
         out1 = out.astype(self.pytype)
         if (out!=out1).all():
             logging.warning(f"Q Activation shift truncated MSB {out}, {out1}")
@@ -38,9 +41,10 @@ class QuantizeShiftActivation(ActivationFunctions):
 
     def write_activation_str(self: Self, var: str) -> str:
         """Generate the string to print."""
-        return self.activation.write_activation_str(
-            f"({self.ctype})({var} >> {self.shift})",
-        )
+        scaled = f"{var} >> {self.shift}"
+        if self.shift < 0:
+            scaled = f"{var} * {2 ** -self.shift}"
+        return self.activation.write_activation_str(f"({self.ctype})({scaled})")
 
     def _compute_post_shift(
         self,
@@ -52,10 +56,4 @@ class QuantizeShiftActivation(ActivationFunctions):
         (_, mparam) = qform.parse_q_format(qparam)
         (_, min) = qform.parse_q_format(qin)
         (_, mout) = qform.parse_q_format(qout)
-        qshift = min + mparam - mout
-        if qshift < 0:
-            logging.warning(
-                f"{self} qpost_shift invalid {qshift}, take 0",
-            )
-            qshift = 0
-        return qshift
+        return min + mparam - mout
diff --git a/src/acetone_nnet/quantize/qform.py b/src/acetone_nnet/quantize/qform.py
index 14e0184..485fe58 100644
--- a/src/acetone_nnet/quantize/qform.py
+++ b/src/acetone_nnet/quantize/qform.py
@@ -25,8 +25,9 @@ def parse_q_format(q_string: str) -> tuple[int, int] | None:
     # - $ asserts position at the end of the string.
     pattern = r"^Q(-?\d+)\.(\d+)$"
 
-    # Use re.match() to find a match at the beginning of the string.
-    match = re.match(pattern, q_string)
+    # Use re.fullmatch() as $ also matches before a newline at the end of the string,
+    # and re.ASCII as \d also matches digits other than 0 to 9.
+    match = re.fullmatch(pattern, q_string, re.ASCII)
 
     # Check if a match was found.
     if match:
-- 
2.43.0


From f30e60394a17d2c0ae88634067d7810e0c6ffe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 37/45] fix: constant nodes used as layers of the network

---
 src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index c7ea3e0..23d0a4f 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -107,15 +107,15 @@ def load_onnx(
     # Indices of the layer
     idx = 0
 
-    # Create constant for all initializers
-    init_dict = {i.name:i for i in model.graph.initializer}
+    # Names of the initializers
+    initializers = {i.name for i in model.graph.initializer}
 
     # Creating and adding the input layer to the list
     nodes, useful_tensors = find_useful_nodes(model)
     inputs = [
         i
         for i in model.graph.input
-        if i.name in useful_tensors and i.name not in init_dict
+        if i.name in useful_tensors and i.name not in initializers
     ]
     if len(inputs) != 1:
         msg = f"Error: {len(inputs)} inputs in the model, only one supported\n"
@@ -154,6 +154,9 @@ def load_onnx(
         else:
             raise TypeError("Error: layer " + node.op_type + " not supported\n")
 
+    # Create constant for all initializers, and the constant nodes turned into such
+    init_dict = {i.name: i for i in model.graph.initializer}
+
     # Attach layers to their inputs and outputs
     for layer_idx, layer_inputs in dict_input.items():
         # The indices of a layer is the same as it's position in the list
-- 
2.43.0


From c720dd1067ef30167fe32509b7ded294e6b9d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 38/45] fix: debug mode: values written to the debug file,
 layers and outputs matched with the model's

---
 src/acetone_nnet/debug/debug_onnx.py          | 94 +++++++++++++------
 src/acetone_nnet/debug/debug_tools.py         | 10 +-
 src/acetone_nnet/generator/neural_network.py  | 17 +++-
 .../importers/ONNX_importer/parser_ONNX.py    | 10 +-
 .../templates/template_source_file.c.tpl      |  5 +-
 5 files changed, 96 insertions(+), 40 deletions(-)

diff --git a/src/acetone_nnet/debug/debug_onnx.py b/src/acetone_nnet/debug/debug_onnx.py
index 0a53e32..405b053 100644
--- a/src/acetone_nnet/debug/debug_onnx.py
+++ b/src/acetone_nnet/debug/debug_onnx.py
@@ -25,6 +25,9 @@ import numpy as np
 import onnx
 import onnxruntime as rt
 
+from acetone_nnet.importers.ONNX_importer.create_layer import unused_layers
+from acetone_nnet.importers.ONNX_importer.parser_ONNX import find_useful_nodes
+
 
 def clean_inputs(model: onnx.ModelProto) -> None:
     """Remove unused inputs from an ONNX model."""
@@ -44,30 +47,58 @@ def extract_node_outputs(
         optimized_model: bool = False,
 ) -> list[str]:
     """Get outputs name of layers of an ONNX model."""
+    outputs_name, _ = _extract_layers(model, optimized_model)
+    return outputs_name
+
+
+def _extract_layers(
+        model: onnx.ModelProto,
+        optimized_model: bool = False,
+) -> (list[str], dict[str, str]):
+    """Get outputs name of layers, and the one computing each tensor."""
     activation = ["Relu", "Tanh", "Sigmoid", "Clip", "Exp", "Log", "LeakyRelu"]
-    ignored = ["Dropout", "Reshape","Flatten"]
-    outputs_name = []
-    for node in model.graph.node:
-        if optimized_model and (node.op_type in activation):
-            outputs_name[-1] = node.output[0]
-        elif node.op_type in ignored:
+    nodes, _ = find_useful_nodes(model)
+    readers = [name for node in nodes for name in node.input]
+    outputs_name: list[str] = []
+    computed_by: dict[str, str] = {}
+    not_fusible: list[str] = []
+    for node in nodes:
+        output = node.output[0]
+        source = computed_by.get(node.input[0]) if node.input else None
+        if node.op_type in unused_layers:
+            # The layer is not in ACETONE: its output is the one of the previous layer
+            if source:
+                computed_by[output] = source
+            if source and readers.count(node.input[0]) > 1:
+                not_fusible.append(source)
             continue
+        if (
+            optimized_model
+            and node.op_type in activation
+            and source
+            and source not in not_fusible
+            and readers.count(node.input[0]) == 1
+        ):
+            outputs_name[outputs_name.index(source)] = output
+            for name in [n for n, layer in computed_by.items() if layer == source]:
+                computed_by[name] = output
         else:
-            outputs_name.append(node.output[0])
-    return outputs_name
+            outputs_name.append(output)
+        computed_by[output] = output
+        if node.op_type in [*activation, "Softmax"]:
+            not_fusible.append(output)
+    return outputs_name, computed_by
 
 
 def extract_targets_indices(
         model: onnx.ModelProto,
         outputs_name: list[str],
+        optimized_model: bool = False,
 ) -> list[int]:
     """Extract the indices each layer will have in ACETONE."""
-    targets_indices = []
-    for name in outputs_name:
-        for i in range(len(model.graph.node)):
-            if model.graph.node[i].output[0] == name:
-                targets_indices.append(i)
-    return targets_indices
+    layers, computed_by = _extract_layers(model, optimized_model)
+    # The input layer has the indice 0
+    return sorted({layers.index(computed_by[name]) + 1 for name in outputs_name})
 
 
 def run_model_onnx(
@@ -87,7 +118,7 @@ def run_model_onnx(
 
 
 def debug_onnx(
-        target_model: onnx.ModelProto | str,
+        target_model: onnx.ModelProto | str | Path,
         dataset: np.ndarray,
         debug_target: list[str] | None = None,
         to_save: bool = False,
@@ -97,24 +128,30 @@ def debug_onnx(
 ) -> (onnx.ModelProto, list[int], list[np.ndarray]):
     """Debug an ONNX model."""
     # Loading the model
-    model = onnx.load(target_model) if isinstance(target_model, str) else target_model
+    model = (
+        onnx.load(target_model)
+        if isinstance(target_model, (str, Path))
+        else target_model
+    )
 
     # Tensor output name and indices for acetone debug
-    if not debug_target:
-        inter_layers = extract_node_outputs(model, optimized_model)
+    inter_layers, computed_by = _extract_layers(model, optimized_model)
+    if debug_target is None or len(debug_target) == 0:
         targets_indices = []
     else:
-        inter_layers = debug_target
-        targets_indices = extract_targets_indices(model, inter_layers)
+        # The output of the model is always extracted
+        debug_target = [*debug_target, model.graph.output[0].name]
+        targets_indices = extract_targets_indices(model, debug_target, optimized_model)
+        inter_layers = [inter_layers[idx - 1] for idx in targets_indices]
 
-    # Add an output after each name of inter_layers
-    value_info_protos = []
+    # Add an output after each name of inter_layers, the last one being the model output
     shape_info = onnx.shape_inference.infer_shapes(model)
-    for _idx, node in enumerate(shape_info.graph.value_info):
-        if node.name in inter_layers:
-            value_info_protos.append(node)
-
-    model.graph.output.extend(value_info_protos)  # in inference stage, these tensor will be added to output dict.
+    infos = {info.name: info for info in shape_info.graph.value_info}
+    # in inference stage, these tensor will be added to output dict.
+    del model.graph.output[1:]
+    model.graph.output.extend(
+        infos.get(name, onnx.ValueInfoProto(name=name)) for name in inter_layers[:-1]
+    )
 
     # Optimizing the model by removing the useless inputs
     if optimize_inputs:
@@ -127,7 +164,6 @@ def debug_onnx(
         onnx.save(model, path)
 
     # Model inference
-    run_model = model if type(model) is str | Path else model.SerializeToString()
-    outputs = run_model_onnx(run_model, dataset)
+    outputs = run_model_onnx(model.SerializeToString(), dataset)
 
     return model, targets_indices, outputs
diff --git a/src/acetone_nnet/debug/debug_tools.py b/src/acetone_nnet/debug/debug_tools.py
index 71423d4..27bb39c 100644
--- a/src/acetone_nnet/debug/debug_tools.py
+++ b/src/acetone_nnet/debug/debug_tools.py
@@ -112,7 +112,7 @@ def extract_outputs_c(
                     shape = (int(line[3]), int(line[4]), int(line[5]))
             else:
                 line = line[:-2].split(" ")
-                if data_type == "int":
+                if data_type not in ("double", "float"):
                     line = list(map(int, line))
                 elif data_type == "double":
                     line = list(map(float, line))
@@ -120,10 +120,14 @@ def extract_outputs_c(
                     line = list(map(np.float32, line))
                 line = np.array(line)
 
-                if to_transpose:
+                if to_transpose == 1:
                     line = np.reshape(line, shape)
                     line = np.transpose(line, (1, 2, 0))
                     line = line.flatten()
+                elif to_transpose:
+                    line = np.reshape(line, (*shape[1:], shape[0]))
+                    line = np.transpose(line, (2, 0, 1))
+                    line = line.flatten()
 
                 list_result.append(line)
 
@@ -142,7 +146,7 @@ def extract_outputs_python(
     targets = []
     for indices in targets_indices:
         for i in range(len(result_python[1])):
-            if indices == int(result_python[1][i][-1]):
+            if indices == int(result_python[1][i].split(" ")[-1]):
                 outputs.append(result_python[0][i])
                 targets.append(result_python[1][i])
 
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 732a030..494acf6 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -366,7 +366,7 @@ class CodeGenerator(ABC):
         """Identify list of layers indices to debug."""
         targets: list[int] = []
         for layer in self.layers[1:]:
-            if debug_mode == "keras" and layer.name == "Softmax":
+            if debug_mode == "keras" and layer.name == "Softmax" and targets:
                 targets[-1] = layer.idx
             else:
                 targets.append(layer.idx)
@@ -531,6 +531,7 @@ class CodeGenerator(ABC):
                 )
                 raise NotImplementedError(msg)
             formats[layer.idx] = (data_format, shape)
+        self.data_formats = {idx: fmt[0] for idx, fmt in formats.items()}
 
         if not same_in_both(shape) and data_format != self.gen_data_format:
             msg = f"Error: output of {layer.name} {layer.idx} is in {data_format} format"
@@ -962,6 +963,13 @@ class CodeGenerator(ABC):
 
         if self.debug_mode in ["onnx", "keras"]:
             mustach_hash["debug_file"] = output_dir / "debug_file.txt"
+            if np.issubdtype(self.data_type_py, np.integer):
+                mustach_hash["debug_format"] = "%ld"
+                mustach_hash["debug_cast"] = "(long int)"
+            else:
+                # Enough digits to identify the value
+                digits = 17 if self.data_type == "double" else 9
+                mustach_hash["debug_format"] = f"%.{digits}g"
 
         if self.debug_mode in ["time"]:
             mustach_hash["time"] = True
@@ -992,8 +1000,11 @@ class CodeGenerator(ABC):
                 layer_hash["idx"] = layer.idx
                 layer_hash["to_transpose"] = 0
                 shape = self._spatial_shape(layer)
-                if self.data_format == "channels_last" and shape:
-                    layer_hash["to_transpose"] = 1
+                if shape and self.data_formats[layer.idx] != self.data_format:
+                    # 1: to channels_last, 2: to channels_first
+                    layer_hash["to_transpose"] = (
+                        1 if self.data_format == "channels_last" else 2
+                    )
                     (
                         layer_hash["channels"],
                         layer_hash["height"],
diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index 23d0a4f..5d6811a 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -63,10 +63,7 @@ def find_data_type(
 
 def find_useful_nodes(model: onnx.ModelProto) -> (list[onnx.NodeProto], set[str]):
     """Find the nodes the output of the model depends on, and the tensors they read."""
-    useful = {output.name for output in model.graph.output}
-    if len(useful) != 1:
-        msg = f"Error: {len(useful)} outputs in the model, only one supported\n"
-        raise NotImplementedError(msg)
+    useful = {model.graph.output[0].name}
     nodes = []
     for node in reversed(model.graph.node):
         if not useful.intersection(node.output):
@@ -77,6 +74,11 @@ def find_useful_nodes(model: onnx.ModelProto) -> (list[onnx.NodeProto], set[str]
         nodes.insert(0, node)
         # The other inputs of a bypassed layer do not change the data
         useful.update(node.input[:1] if node.op_type in unused_layers else node.input)
+    # The values computed on the way to the first output (debug mode) are not outputs
+    outputs = {output.name for output in model.graph.output[1:]} - useful
+    if outputs:
+        msg = f"Error: {len(outputs) + 1} outputs in the model, only one supported\n"
+        raise NotImplementedError(msg)
     return nodes, useful
 
 
diff --git a/src/acetone_nnet/templates/template_source_file.c.tpl b/src/acetone_nnet/templates/template_source_file.c.tpl
index b74e3c6..154e2c7 100644
--- a/src/acetone_nnet/templates/template_source_file.c.tpl
+++ b/src/acetone_nnet/templates/template_source_file.c.tpl
@@ -99,7 +99,7 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
     fprintf(fp, "{{name}} {{idx}} {{to_transpose}} {{channels}} {{height}} {{width}}\n");
     for (k = 0; k < {{size}}; ++k)
     {
-        fprintf(fp,"%.9g ", output_{{path}}[k]);
+        fprintf(fp,"{{debug_format}} ", {{debug_cast}}ctx->output_{{path}}[k]);
         if (k == {{size}} - 1)
         {
             fprintf(fp, "\n");
@@ -129,5 +129,8 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
 
 
 {{{post_processing}}}
+    {{#debug_file}}
+    fclose(fp);
+    {{/debug_file}}
     return 0;
 }
\ No newline at end of file
-- 
2.43.0


From afe5332f711051568e4c561b6fc74ededc9d58bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:52 +0000
Subject: [PATCH 39/45] fix: datasets: rows of the wrong size or type, fewer
 rows than tests, decimal values read as hexadecimal, no test at all, 64-bit
 integers

---
 src/acetone_nnet/generator/neural_network.py  | 45 +++++++++++++++----
 .../importers/JSON_importer/parser_JSON.py    |  2 +-
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 494acf6..83b085b 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -21,6 +21,7 @@
 
 import json
 import logging
+import operator
 from abc import ABC
 from collections.abc import Callable
 from pathlib import Path
@@ -182,6 +183,8 @@ class CodeGenerator(ABC):
         self.nb_tests = int(nb_tests)
 
         self.test_dataset = self._initialise_dataset(test_dataset, int(nb_tests))
+        # The number of tests is the one of the rows in the dataset
+        self.nb_tests = len(self.test_dataset)
 
         self.target = target
         self.target_page_size = target_page_size
@@ -399,12 +402,23 @@ class CodeGenerator(ABC):
                         dtype=self.data_type_py,
                     )
             case np.ndarray() as dataset:
-                d = dataset
-                self.nb_tests = dataset.shape[0]
+                d = dataset.astype(self.data_type_py)
+                if np.issubdtype(self.data_type_py, np.integer) and np.any(
+                    d != dataset,
+                ):
+                    msg = f"Error: the dataset has values that are not {self.data_type}"
+                    raise ValueError(msg)
             case Path() | str() as path:
                 d = self._load_dataset(Path(path), self.data_type_py, nb_tests)
             case _:
                 raise ValueError
+        size = int(self.layers[0].size)
+        if d.size != len(d) * size:
+            msg = (
+                f"Error: dataset of {len(d)} rows and {d.size} values, "
+                f"the network has {size} inputs"
+            )
+            raise ValueError(msg)
         return d
 
     def _load_dataset(
@@ -426,9 +440,15 @@ class CodeGenerator(ABC):
                 if i >= nb_tests:
                     break
                 contents = json.loads(line)
+                if not isinstance(contents, list):
+                    msg = f"Error: line {i + 1} of {path} is not a list of values"
+                    raise TypeError(msg)
                 contents = [self.c2data(c) for c in contents]
-                test_dataset.append(list(map(dtype, contents)))
-        return np.array(test_dataset)
+                test_dataset.append(np.array(contents).astype(dtype))
+                if np.issubdtype(dtype, np.integer) and contents != list(test_dataset[-1]):
+                    msg = f"Error: line {i + 1} of {path} has values that are not {dtype}"
+                    raise ValueError(msg)
+        return np.array(test_dataset, dtype=dtype)
 
     def get_input_shape(self: Self) -> list[int]:
         """Return the input shape of the model."""
@@ -551,11 +571,16 @@ class CodeGenerator(ABC):
         else:
             dataset = self.test_dataset
 
+        # Results of the last test
+        nn_output = np.array([], dtype=self.data_type_py)
+        debug_output: list[np.ndarray] = []
+        targets: list[str] = []
+
         with (Path(c_files_directory) / "output_python.txt").open("w") as fi:
             for nn_input in dataset:
                 # Debug Mode output
-                debug_output: list[np.ndarray] = []
-                targets: list[str] = []
+                debug_output = []
+                targets = []
 
                 # Prepare graph input
                 if (self.data_format == "channels_last") and (
@@ -666,7 +691,11 @@ class CodeGenerator(ABC):
         return str(float(d))
 
     def c2data(self, c):
-        return float.fromhex(c) if self.to_hex else float(c)
+        if np.issubdtype(self.data_type_py, np.integer):
+            return int(c) if isinstance(c, str) else operator.index(c)
+        if isinstance(c, str) and "x" in c.lower():
+            return float.fromhex(c)
+        return float(c)
 
     def flatten_array_order_c(self: Self, array: np.ndarray) -> str:
         """Generate C flat array initializer in C order."""
@@ -763,7 +792,7 @@ class CodeGenerator(ABC):
                         "read_input": self.read_ext_input,
                         "verbose": self.verbose,
                         "format": (
-                            "%d"
+                            ("%ld" if self.data_type == "long int" else "%d")
                             if np.issubdtype(self.data_type_py, np.integer)
                             else "%a" if self.to_hex else "%9g"
                         ),
diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 952b4d2..a6057d1 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -118,7 +118,7 @@ def load_json(
 
     elif data_type == "int":
         data_type = "long int"
-        data_type_py = np.int32
+        data_type_py = np.int64
 
     layers = []
 
-- 
2.43.0


From a13c39e8636ef36213954ff926dc1226dce75121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:37 +0000
Subject: [PATCH 40/45] fix: command line: booleans given as False were true,
 and could not be given as flags

---
 src/acetone_nnet/cli/generate.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/cli/generate.py b/src/acetone_nnet/cli/generate.py
index 6782ee0..e9f59d8 100644
--- a/src/acetone_nnet/cli/generate.py
+++ b/src/acetone_nnet/cli/generate.py
@@ -66,6 +66,16 @@ def cli_acetone(
     net.compute_inference(output_dir)
 
 
+def parse_bool(value: str) -> bool:
+    """Read a boolean from the command line."""
+    if value.lower() in ("true", "yes", "on", "1"):
+        return True
+    if value.lower() in ("false", "no", "off", "0"):
+        return False
+    msg = f"{value!r} is not a boolean"
+    raise argparse.ArgumentTypeError(msg)
+
+
 def acetone_generate() -> None:
     """Generate C code from a neural network model description file."""
     parser = argparse.ArgumentParser(
@@ -115,7 +125,10 @@ def acetone_generate() -> None:
     parser.add_argument(
         "--optimization",
         help="Activate model optimization on the internal representation.",
+        nargs="?",
+        const=True,
         default=False,
+        type=parse_bool,
     )
 
     parser.add_argument(
@@ -133,15 +146,19 @@ def acetone_generate() -> None:
 
     parser.add_argument(
         "--bin_dataset",
+        nargs="?",
+        const=True,
         default=False,
-        type=bool,
+        type=parse_bool,
         help="generate dataset as a binary file (not source compiled file)",
     )
 
     parser.add_argument(
         "--verbose",
+        nargs="?",
+        const=True,
         default=False,
-        type=bool,
+        type=parse_bool,
         help="verbose logging at INFO level else WARNING level",
     )
 
-- 
2.43.0


From dc95aaea4590051f4aa4701edfe4fa87d63a48d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:57 +0000
Subject: [PATCH 41/45] fix: constant operands have the data type of the
 network

---
 src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index 5d6811a..204c74a 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -25,6 +25,7 @@ from pathlib import Path
 import numpy as np
 import onnx
 
+from acetone_nnet.generator.layers import ConstantLayer
 from acetone_nnet.graph.graph_interpretor import tri_topo
 from acetone_nnet.importers.ONNX_importer.create_layer import (
     activation_layers,
@@ -189,6 +190,9 @@ def load_onnx(
         msg = "Error: division of integers not supported\n"
         raise NotImplementedError(msg)
     data_type, data_type_py = find_data_type(str(data_type))
+    for layer in layers:
+        if isinstance(layer, ConstantLayer):
+            layer.constant = layer.constant.astype(data_type_py)
 
     # Sorting the graph and adding the road to the layers
     layers, max_road, dict_cst = tri_topo(layers)
-- 
2.43.0


From 707cc1b63052ab45250392f3eb91368884aa50fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:57 +0000
Subject: [PATCH 42/45] fix: generation functions and Makefile properties of
 the user: lists of files, keys set to an empty list, flags left as given

---
 src/acetone_nnet/generator/neural_network.py  | 30 +++++++++++++------
 .../templates/template_makefile.tpl           | 10 +++----
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 83b085b..21396b1 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -125,6 +125,7 @@ class CodeGenerator(ABC):
         self.to_hex = to_hex
         self.target_cfg = None
         self.bin_dataset = bin_dataset
+        self.symtab = ""
         self.gen_data_format = gen_data_format
         if target != "generic":
             try:
@@ -322,11 +323,20 @@ class CodeGenerator(ABC):
                 lambda s,path: s.generate_target_header_file(path),
             ]
 
-        for k in custom_generation_functions:
-            name, generation_function = custom_generation_functions.get(k, ("", []))
-            if generation_function:
-                file_names.append(name)
-                generation_functions[k] = generation_function
+        for k, functions in custom_generation_functions.items():
+            if isinstance(functions, tuple):
+                # One file written by several functions: (name, functions)
+                name, generation_function = functions
+                functions = [(name, f) for f in generation_function]
+            if functions:
+                for name, _ in functions:
+                    if name not in file_names:
+                        file_names.append(name)
+                generation_functions[k] = [f for _, f in functions]
+
+        # The Makefile describes the other files: it comes last
+        if "Makefile" in generation_functions:
+            generation_functions["Makefile"] = generation_functions.pop("Makefile")
 
         return file_names, generation_functions
 
@@ -813,12 +823,14 @@ class CodeGenerator(ABC):
 
     def _get_makefile_properties(self) -> dict[str, str | list[str]]:
         """Get makefile properties."""
+        def flags(name: str, default: list[str]) -> list[str]:
+            value = self.makefile_properties.get(name, default)
+            return [value] if isinstance(value, str) else list(value)
+
         return {
             "compiler": self.makefile_properties.get("compiler", "gcc"),
-            "linker_flags": self.makefile_properties.get("linker_flags", ["-lm"]),
-            "compiler_flags": self.makefile_properties.get(
-                "compiler_flags", ["-g", "-w"],
-            ),
+            "linker_flags": flags("linker_flags", ["-lm"]),
+            "compiler_flags": flags("compiler_flags", ["-g", "-w"]),
         }
 
     def generate_makefile(
diff --git a/src/acetone_nnet/templates/template_makefile.tpl b/src/acetone_nnet/templates/template_makefile.tpl
index db22a0f..6004169 100644
--- a/src/acetone_nnet/templates/template_makefile.tpl
+++ b/src/acetone_nnet/templates/template_makefile.tpl
@@ -1,23 +1,23 @@
-CC = {{compiler}}
+CC = {{{compiler}}}
 
 CFLAGS =
 {{#compiler_flags}}
-CFLAGS += {{.}}
+CFLAGS += {{{.}}}
 {{/compiler_flags}}
 
 LDFLAGS =
 {{#linker_flags}}
-LDFLAGS += {{.}}
+LDFLAGS += {{{.}}}
 {{/linker_flags}}
 
 SRC =
 {{#source_files}}
-SRC += {{.}}
+SRC += {{{.}}}
 {{/source_files}}
 
 HEADERS =
 {{#header_files}}
-HEADERS += {{.}}
+HEADERS += {{{.}}}
 {{/header_files}}
 
 OBJ = $(SRC:.c=.o) $(HEADERS)
-- 
2.43.0


From 3f40d2d85cdbe624fee0e12e1d97bec883e4f1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:39 +0000
Subject: [PATCH 43/45] fix: name the layer that is refused in a data format

---
 src/acetone_nnet/generator/neural_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 21396b1..6d54863 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -556,7 +556,7 @@ class CodeGenerator(ABC):
                 supported = all(i[0] == "channels_first" for i in inputs)
             if not supported:
                 msg = (
-                    f"Error: {layer.name} {layer.idx} (version {layer.version}) does not "
+                    f"Error: {layer.name} {layer.idx} (version {getattr(layer, 'version', 'default')}) does not "
                     f"support data format {self.gen_data_format} of the generated code"
                 )
                 raise NotImplementedError(msg)
-- 
2.43.0


From 5ee2a655b7e7849dc0683738bd831dcc8deea760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:53 +0000
Subject: [PATCH 44/45] fix: refuse JSON networks of integers whose layers or
 parameters are not integers

---
 .../importers/JSON_importer/parser_JSON.py    | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index a6057d1..c5e664f 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -81,6 +81,23 @@ def uniform_parameter(layer: dict, parameter: str) -> int:
     return values[0]
 
 
+def check_integer_network(layers: list[Layer], descriptions: list[dict]) -> None:
+    """Refuse a network of integers whose parameters or results are not integers."""
+    for layer in layers:
+        if isinstance(
+            layer,
+            Average | AveragePooling2D | BatchNormalization | Softmax,
+        ) or isinstance(layer.activation_function, LeakyReLu | Sigmoid | TanH):
+            msg = f"Error: layer {layer.original_name} of integers not supported"
+            raise NotImplementedError(msg)
+    for description in descriptions:
+        for parameter in ("weights", "biases"):
+            if np.any(np.mod(description.get(parameter, 0), 1)):
+                name = description["config"]["name"]
+                msg = f"Error: {parameter} of layer {name} are not integers"
+                raise NotImplementedError(msg)
+
+
 def create_resize_obj(
     mode: str,
     **kwargs: object,
@@ -366,6 +383,9 @@ def load_json(
             layers.append(current_layer)
             imported[json_idx] = current_layer
 
+    if np.issubdtype(data_type_py, np.integer):
+        check_integer_network(layers, model["config"]["layers"])
+
     layers, max_road, dict_cst = graph_interpretor.tri_topo(layers)
     layers = [x.find_output_str(dict_cst) for x in layers]
     print("Finished model initialization.")
-- 
2.43.0


From 553f7b9466fa5e586cc48caa1ea8d16ddeedfb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:26 +0000
Subject: [PATCH 45/45] fix: multiply the operands of MatMul in the temporary
 type

---
 src/acetone_nnet/templates/layers/template_MatMul.c.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
index 384b48e..c0f66cf 100644
--- a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
@@ -8,7 +8,7 @@
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = 0;
                 for (k = 0; k < {{shared_dimension}}; ++k)
                 {
-                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*{{channel_left}})]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*{{channel_right}})];
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += (nn_temp_t)ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*{{channel_left}})]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*{{channel_right}})];
                 }
             }
         }
-- 
2.43.0

