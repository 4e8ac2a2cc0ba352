From 1f3e2fee7c295dfb66daa73da80d6ff899a0e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:06 +0000
Subject: [PATCH 01/19] fix: keep reduced dimensions when recording min/max and
 deriving bits

Without keepdims the per-group reductions could not be broadcast against the
bitwidth tensor when the shared dimensions are not all leading ones (e.g.
skip_dims='except_1st'), and silently mixed up axes for square kernels.
---
 src/HGQ/quantizer/quantizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HGQ/quantizer/quantizer.py b/src/HGQ/quantizer/quantizer.py
index f6050e4..94f3d55 100644
--- a/src/HGQ/quantizer/quantizer.py
+++ b/src/HGQ/quantizer/quantizer.py
@@ -168,8 +168,8 @@ class HGQ:
             return x + delta
         xq = x + delta
         if self.skip_dims:
-            min_xq = tf.reduce_min(xq, axis=self.skip_dims)
-            max_xq = tf.reduce_max(xq, axis=self.skip_dims)
+            min_xq = tf.reduce_min(xq, axis=self.skip_dims, keepdims=True)
+            max_xq = tf.reduce_max(xq, axis=self.skip_dims, keepdims=True)
         else:
             min_xq = max_xq = xq
 
@@ -227,8 +227,8 @@ class HGQ:
             _ref = tf.abs(_ref)
             int_bits = tf.floor(tf.math.log(_ref) / log2) + 1
             if self.skip_dims:
-                int_bits = tf.reduce_max(int_bits, axis=self.skip_dims)
-                kn = tf.reduce_max(kn, axis=self.skip_dims)
+                int_bits = tf.reduce_max(int_bits, axis=self.skip_dims, keepdims=True)
+                kn = tf.reduce_max(kn, axis=self.skip_dims, keepdims=True)
         else:
             assert self.minmax_record
             if pos_only:
-- 
2.43.0


From 3e989d1013e101b4973515c72efa933914128dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:17 +0000
Subject: [PATCH 02/19] fix: HActivation must not modify the quantizer config
 passed by the user

The dictionary may be shared with other layers, for which 'auto' then silently
turned into 'standard_round'.
---
 src/HGQ/layers/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HGQ/layers/misc.py b/src/HGQ/layers/misc.py
index b8ea203..24c35a2 100644
--- a/src/HGQ/layers/misc.py
+++ b/src/HGQ/layers/misc.py
@@ -34,7 +34,7 @@ class HActivation(HLayerBase, tf.keras.layers.Activation):
 
     def post_build(self, input_shape):
         if self.paq_config['rnd_strategy'] == 'auto':
-            self.paq_config['rnd_strategy'] = 'standard_round'
+            self.paq_config = {**self.paq_config, 'rnd_strategy': 'standard_round'}
 
         if self.paq_config['rnd_strategy'] not in ('floor', 3):
             # Jit when using standard round. Very unlikely to have errors.
-- 
2.43.0


From 3852e38d53f7ad7f29b62bf154fea42d4615d3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:17 +0000
Subject: [PATCH 03/19] fix: fused batch norm trains with the same bias it uses
 at inference

In training bn_beta was ignored (and never received a gradient), the bias was
dropped with center=False, and with scale=False inference scaled the moving
mean by rsqrt(1 + epsilon) while training did not.
---
 src/HGQ/layers/batchnorm_base.py | 2 ++
 src/HGQ/layers/conv.py           | 6 +++++-
 src/HGQ/layers/dense.py          | 6 +++++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index 6458383..c96b06a 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -106,6 +106,8 @@ class HBatchNormBase(HLayerBase):
     def fused_bias(self):  # type: ignore
         if not self.center:
             return self.bias
+        if not self.scale:
+            return self.bias - self.moving_mean + self.bn_beta
         scale = self.bn_gamma * tf.math.rsqrt(self.moving_variance + self.epsilon)
         return self.bias - self.moving_mean * scale + self.bn_beta
 
diff --git a/src/HGQ/layers/conv.py b/src/HGQ/layers/conv.py
index a2776bc..ec03f8d 100644
--- a/src/HGQ/layers/conv.py
+++ b/src/HGQ/layers/conv.py
@@ -383,7 +383,11 @@ class HConvBatchNorm(HConv, HBatchNormBase):
             scale = tf.constant(1.0, dtype=self.dtype)
 
         if self.center:
-            train_fused_bias = self.bias - mean * scale  # type: ignore
+            train_fused_bias = self.bias - mean * scale + self.bn_beta  # type: ignore
+        else:
+            train_fused_bias = self.bias
+
+        if self.use_bias:
             bq = self.paq.bias_forward(train_fused_bias, training, self.channel_loc)  # type: ignore
             z = tf.nn.bias_add(z, bq, data_format=self._tf_data_format)  # type: ignore
 
diff --git a/src/HGQ/layers/dense.py b/src/HGQ/layers/dense.py
index 5fb2147..74d8d3b 100644
--- a/src/HGQ/layers/dense.py
+++ b/src/HGQ/layers/dense.py
@@ -201,7 +201,11 @@ class HDenseBatchNorm(HDense, HBatchNormBase):
             scale = tf.constant(1.0, dtype=self.dtype)
 
         if self.center:
-            train_fused_bias = self.bias - mean * scale  # type: ignore
+            train_fused_bias = self.bias - mean * scale + self.bn_beta  # type: ignore
+        else:
+            train_fused_bias = self.bias
+
+        if self.use_bias:
             bq = self.paq.bias_forward(train_fused_bias, training, self.channel_loc)  # type: ignore
             z = tf.nn.bias_add(z, bq)  # type: ignore
 
-- 
2.43.0


From 1b5a8baf70eac5f218e5a9e86cc15d03de944301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:17 +0000
Subject: [PATCH 04/19] fix: save the batch norm parameters of batch-norm-fused
 layers

momentum, epsilon, center, scale and the initializers, regularizers and
constraints were reset to their defaults when a saved model was reloaded.
---
 src/HGQ/layers/batchnorm_base.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index c96b06a..90c22ad 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -111,6 +111,24 @@ class HBatchNormBase(HLayerBase):
         scale = self.bn_gamma * tf.math.rsqrt(self.moving_variance + self.epsilon)
         return self.bias - self.moving_mean * scale + self.bn_beta
 
+    def get_config(self):
+        config = super().get_config()
+        config.update({
+            'momentum': float(self.momentum),
+            'epsilon': float(self.epsilon),
+            'center': self.center,
+            'scale': self.scale,
+            'beta_initializer': keras.initializers.serialize(self.beta_initializer),
+            'gamma_initializer': keras.initializers.serialize(self.gamma_initializer),
+            'moving_mean_initializer': keras.initializers.serialize(self.moving_mean_initializer),
+            'moving_variance_initializer': keras.initializers.serialize(self.moving_variance_initializer),
+            'beta_regularizer': keras.regularizers.serialize(self.beta_regularizer),
+            'gamma_regularizer': keras.regularizers.serialize(self.gamma_regularizer),
+            'beta_constraint': keras.constraints.serialize(self.beta_constraint),
+            'gamma_constraint': keras.constraints.serialize(self.gamma_constraint),
+        })
+        return config
+
     def adapt_fused_bn_kernel_bw_bits(self, x: tf.Tensor):
         """Adapt the bitwidth of the kernel quantizer to the input tensor, such that each input is represented with approximately the same number of bits after fused batchnormalization."""
         if not self.scale:
-- 
2.43.0


From b1b4d65be91dd9927d400d5e7c52b40d8011df4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:47 +0000
Subject: [PATCH 05/19] fix: stand-alone batch norm subtracts mean times
 kernel, not mean over kernel

---
 src/HGQ/layers/batchnorm_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index 90c22ad..f5ea834 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -217,7 +217,7 @@ class HBatchNormalization(HBatchNormBase):
             var = self.moving_variance
 
         ker = self.bn_gamma * tf.math.rsqrt(var + self.epsilon)
-        bias = self.bn_beta - mean / ker
+        bias = self.bn_beta - mean * ker
 
         if self._do_adapt_kernel_bits and self._delayed_kernel_bits_adaption:
             self.kq.adapt_bw_bits(ker)
-- 
2.43.0


From e43f851bd02351404ef814a4aafa09130818a0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:48 +0000
Subject: [PATCH 06/19] fix: save do_adapt_kernel_bits in the layer
 configuration

A layer created with do_adapt_kernel_bits=False was rebuilt from its
configuration with kernel bit adaption switched on.
---
 src/HGQ/layers/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index c86464a..8c4ac05 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -52,7 +52,8 @@ class HLayerBase(ABSBaseLayer):
         "BOPs-regularization strength"
         self.record_minmax = False
         self._has_last_layer = False
-        self._do_adapt_kernel_bits = kwargs.pop('do_adapt_kernel_bits', True)
+        self.do_adapt_kernel_bits = kwargs.pop('do_adapt_kernel_bits', True)
+        self._do_adapt_kernel_bits = self.do_adapt_kernel_bits
         self._delayed_kernel_bits_adaption = False
 
         activation = kwargs.get('activation', None)
@@ -250,7 +251,8 @@ class HLayerBase(ABSBaseLayer):
         config = dict(
             kq_conf=self.kq_config,
             paq_conf=self.paq_config,
-            beta=float(self.beta.numpy())  # type: ignore
+            beta=float(self.beta.numpy()),  # type: ignore
+            do_adapt_kernel_bits=self.do_adapt_kernel_bits
         )
         return {**base_config, **config}
 
-- 
2.43.0


From 00aaadc61d17c24515f875d81f1790f87d721bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:48 +0000
Subject: [PATCH 07/19] fix: PPermute permutes the bitwidths it reports instead
 of reshaping them

---
 src/HGQ/layers/passive_layers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/HGQ/layers/passive_layers.py b/src/HGQ/layers/passive_layers.py
index 28ef324..4f438a8 100644
--- a/src/HGQ/layers/passive_layers.py
+++ b/src/HGQ/layers/passive_layers.py
@@ -179,4 +179,11 @@ class PDropout(PLayerBase, tf.keras.layers.Dropout):
 
 @register_keras_serializable(package="HGQ")
 class PPermute(PLayerBase, tf.keras.layers.Permute):
-    pass
+
+    @property
+    def act_bw(self):
+        return tf.transpose(self.input_bw, (0,) + tuple(self.dims))
+
+    @property
+    def act_bw_exact(self) -> np.ndarray:
+        return np.transpose(self.input_bw_exact, (0,) + tuple(self.dims))
-- 
2.43.0


From a1f8df4fe404ab8bed3e5c86b77bf1db40d3f678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:48 +0000
Subject: [PATCH 08/19] fix: locate the channel axis correctly in
 channels_first convolutions

The bias was quantized with the bitwidths along the last axis, the bias was
never considered able to absorb the rounding offset, and BOPs were divided by
the channel count.
---
 src/HGQ/layers/base.py | 2 +-
 src/HGQ/layers/conv.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index 8c4ac05..1d2cc84 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -84,7 +84,7 @@ class HLayerBase(ABSBaseLayer):
         if self.channel_loc == -1:
             return np.prod(quantizer_shape[:-1]) == 1 and bias_shape == quantizer_shape[-1:]
         elif self.channel_loc == 1:
-            return np.prod(quantizer_shape[1:]) == 1 and bias_shape == quantizer_shape[0:1]
+            return np.prod(quantizer_shape[:1] + quantizer_shape[2:]) == 1 and bias_shape == quantizer_shape[1:2]
         return False
 
     @property
diff --git a/src/HGQ/layers/conv.py b/src/HGQ/layers/conv.py
index ec03f8d..8c3095c 100644
--- a/src/HGQ/layers/conv.py
+++ b/src/HGQ/layers/conv.py
@@ -76,7 +76,8 @@ class HConv(HLayerBase, Conv):
         self.strides = list(self.strides)
         self.dilation_rate = list(self.dilation_rate)
         output_shape = self.compute_output_shape(input_shape)
-        self.total_channels = tf.cast(tf.reduce_prod(output_shape[1:-1]), dtype=tf.float32)
+        spatial_shape = output_shape[2:] if self.channel_loc == 1 else output_shape[1:-1]
+        self.total_channels = tf.cast(tf.reduce_prod(spatial_shape), dtype=tf.float32)
         self.kq.degeneracy *= float(self.parallel_factor)
         return r
 
@@ -119,7 +120,7 @@ class HConv(HLayerBase, Conv):
         kq = self.kq(self.fused_kernel, training, False)  # type: ignore
         z = self.convolution_op(x, kq)  # type: ignore
         if self.use_bias:
-            b = self.paq.bias_forward(self.fused_bias, training)  # type: ignore
+            b = self.paq.bias_forward(self.fused_bias, training, self.channel_loc)  # type: ignore
             z = tf.nn.bias_add(z, b, data_format=self._tf_data_format)
         z = self.paq(z, training, record_minmax)  # type: ignore
         a = self.activation(z)  # type: ignore
-- 
2.43.0


From 50ba459a546e60f6e694f5105c4b40df0ab9bba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:48 +0000
Subject: [PATCH 09/19] fix: pad the input of causal convolutions

HLayerBase.call does not go through keras' Conv.call, which is where the causal
padding used to be applied.
---
 src/HGQ/layers/conv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HGQ/layers/conv.py b/src/HGQ/layers/conv.py
index 8c3095c..b46ed78 100644
--- a/src/HGQ/layers/conv.py
+++ b/src/HGQ/layers/conv.py
@@ -84,7 +84,8 @@ class HConv(HLayerBase, Conv):
     @tf.function(jit_compile=True)
     def convolution_op(self, inputs, kernel):
         if self.padding == "causal":
-            tf_padding = "VALID"  # Causal padding handled in `call`.
+            inputs = tf.pad(inputs, self._compute_causal_padding(inputs))
+            tf_padding = "VALID"
         elif isinstance(self.padding, str):
             tf_padding = self.padding.upper()
         else:
-- 
2.43.0


From 8dbc6ff25ec50c3fe2fa2bfb4850c641e76c6460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:48 +0000
Subject: [PATCH 10/19] fix: stop recording after tracing without BOPs
 computation

---
 src/HGQ/bops/bops.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HGQ/bops/bops.py b/src/HGQ/bops/bops.py
index a681cb3..49aef87 100644
--- a/src/HGQ/bops/bops.py
+++ b/src/HGQ/bops/bops.py
@@ -109,13 +109,16 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
             aq._min.assign(tf.maximum(aq._min, -tf.ones_like(aq._min)))  # type: ignore
             aq._max.assign(tf.minimum(aq._max, tf.ones_like(aq._max)))  # type: ignore
 
+    for layer in model.layers:
+        if isinstance(layer, HLayerBase):
+            layer.record_minmax = False
+
     if no_bops_computation:
         return -1
 
     bops = 0
     for layer in model.layers:
         if isinstance(layer, HLayerBase):
-            layer.record_minmax = False
             dbops = layer.compute_exact_bops  # type: ignore
             bops += dbops
             if verbose:
-- 
2.43.0


From ada7d56d872c2c4146da3c910c77b3a325cd3ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:48 +0000
Subject: [PATCH 11/19] fix: accept lookup tables of exactly the maximum size

---
 src/HGQ/proxy/unary_lut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/proxy/unary_lut.py b/src/HGQ/proxy/unary_lut.py
index 93a7f72..5b014be 100644
--- a/src/HGQ/proxy/unary_lut.py
+++ b/src/HGQ/proxy/unary_lut.py
@@ -21,7 +21,7 @@ class UnaryLUT(Layer):
         assert sum(kif_in) > 0, 'Input to activation is constantly zero'
         assert sum(kif_out) > 0, 'Output of activation is constantly zero'
         if LUT_SIZE_LIMITATION > 0:
-            assert 2**sum(kif_in) < LUT_SIZE_LIMITATION, f'Input to activation is too large ({2**sum(kif_in)} > {LUT_SIZE_LIMITATION}). If you want to raise this limit, set the LUT_SIZE_LIMITATION environment variable.'
+            assert 2**sum(kif_in) <= LUT_SIZE_LIMITATION, f'Input to activation is too large ({2**sum(kif_in)} > {LUT_SIZE_LIMITATION}). If you want to raise this limit, set the LUT_SIZE_LIMITATION environment variable.'
         self.kif_in = kif_in
         self.kif_out = kif_out
         k, i, f = kif_in
@@ -64,7 +64,7 @@ class UnaryLUT(Layer):
         kif_in = k, i, f
         assert k + i + f > 0, 'Activation function is applied to an zero array. Something is wrong.'
         N = 2**(k + i + f)
-        assert N < int(os.environ.get('HLS_MAX_ACTIVATION_LUT_SIZE', 2**16)), f'Input to activation function is too large ({N} > {os.environ.get("HLS_MAX_ACTIVATION_LUT_SIZE", 2**16)}). If you want to raise this limit, set the HLS_MAX_ACTIVATION_LUT_SIZE environment variable.'
+        assert N <= int(os.environ.get('HLS_MAX_ACTIVATION_LUT_SIZE', 2**16)), f'Input to activation function is too large ({N} > {os.environ.get("HLS_MAX_ACTIVATION_LUT_SIZE", 2**16)}). If you want to raise this limit, set the HLS_MAX_ACTIVATION_LUT_SIZE environment variable.'
         if k:
             inp_table = np.empty(N, dtype=np.float64)
             inp_table[:N // 2] = np.linspace(0, 2.**i - 2.**-f, N // 2, dtype=np.float64)
-- 
2.43.0


From cfb7059ac251a98aa255b420a44d9793df267647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:48 +0000
Subject: [PATCH 12/19] fix: do not rename the layers of the source model
 during conversion

---
 src/HGQ/proxy/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HGQ/proxy/convert.py b/src/HGQ/proxy/convert.py
index 93a5397..b58f6d8 100644
--- a/src/HGQ/proxy/convert.py
+++ b/src/HGQ/proxy/convert.py
@@ -160,9 +160,9 @@ def apply_layer(
 
     if layer_xf is not None:
         name = namer.next_name(layer_xf.name)
-        layer_xf._name = name
         # Remove all inbound and outbound nodes to clean up the graph.
         layer_xf = copy(layer_xf)
+        layer_xf._name = name
         layer_xf._inbound_nodes = []
         layer_xf._outbound_nodes = []
         return layer_xf(inp_tensors)
-- 
2.43.0


From 54d0ab320f0d042449b2f1b5713daac1a0c254a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:48 +0000
Subject: [PATCH 13/19] fix: narrowing a heterogeneous quantizer keeps its
 fractional bits

Clamping the integer and total widths independently refined the grid of
elements with few fractional bits whose integer bits were reduced.
---
 src/HGQ/proxy/precision_derivation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index 151f21a..4bf2147 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -99,8 +99,9 @@ def _(layer: FixedPointQuantizer):
         i += 1
     if k != ok or i != oi or f != of:
         layer.keep_negative.assign(tf.minimum(layer.keep_negative, k))
+        fractions = tf.minimum(layer.bits - layer.integers, f)
         layer.integers.assign(tf.minimum(layer.integers, k + i))
-        layer.bits.assign(tf.minimum(layer.bits, k + i + f))
+        layer.bits.assign(tf.maximum(layer.integers + fractions, 0))
 
     return k, i, f
 
-- 
2.43.0


From f1fe2a996a4e56315fa1ed174856cdf039130e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:48 +0000
Subject: [PATCH 14/19] fix: the difference of unsigned values is signed

---
 src/HGQ/proxy/precision_derivation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index 4bf2147..dbca310 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -135,6 +135,8 @@ def _(layer: keras.layers.Add | keras.layers.Subtract):
     k, i, f = np.max(kifs, axis=0)  # type: ignore
     # being lazy here. But this will never overflow.
     i += int(np.ceil(np.log2(len(kifs))))
+    if isinstance(layer, keras.layers.Subtract):
+        k = 1
     return k, i, f
 
 
-- 
2.43.0


From 169cb0bb6ffcecc8233a75f9b6df70e349d4f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:15 +0000
Subject: [PATCH 15/19] fix: account for the summation in the precision of dot
 products

---
 src/HGQ/proxy/precision_derivation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index dbca310..1342a85 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -147,7 +147,8 @@ def _(layer: keras.layers.Dot):
     k1, i1, f1 = kinfs[0]
     k2, i2, f2 = kinfs[1]
     k = max(k1, k2)
-    i = i1 + i2
+    axis = layer.axes if isinstance(layer.axes, int) else layer.axes[0]
+    i = i1 + i2 + int(np.ceil(np.log2(layer.input_shape[0][axis])))
     f = f1 + f2
     return k, i, f
 
-- 
2.43.0


From af066296b8ca88f9c347b5e5b76b6462324a94ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:15 +0000
Subject: [PATCH 16/19] fix: account for the bias in the precision of dense and
 convolution layers

A bias with more fractional bits than the products was truncated by the
accumulator type derived from this.
---
 src/HGQ/proxy/precision_derivation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index 1342a85..289fbcf 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -175,6 +175,9 @@ def _(layer: keras.layers.Dense | Conv):
 
     multiplicity = np.prod(layer.kernel.shape) / div
     i += int(np.ceil(np.log2(multiplicity)))
+    if layer.use_bias and np.any(layer.bias != 0):
+        b_k, b_i, b_f = get_arr_container(layer.bias.numpy())
+        i, f = max(i, b_i) + 1, max(f, b_f)
     return k, i, f
 
 
-- 
2.43.0


From f8ed99e8dc9ce0b44d71c2b1014c979732ce5442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:32 +0000
Subject: [PATCH 17/19] fix: wire the outputs of nested multi-output models
 individually during conversion

---
 src/HGQ/proxy/convert.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/HGQ/proxy/convert.py b/src/HGQ/proxy/convert.py
index b58f6d8..40658e6 100644
--- a/src/HGQ/proxy/convert.py
+++ b/src/HGQ/proxy/convert.py
@@ -104,6 +104,13 @@ class Namer:
         return name
 
 
+def _select_output(outputs, tensor: KerasTensor):
+    """Given the output(s) generated by the node of a tensor, return the output corresponding to the tensor."""
+    if isinstance(outputs, (list, tuple)):
+        return outputs[tensor._keras_history.tensor_index]
+    return outputs
+
+
 def _get_out_tensor(
     dependencies_dict: dict[Node, tuple[keras.layers.Layer, list[Node]]],
     satisfied: dict[Node, Any],
@@ -119,12 +126,12 @@ def _get_out_tensor(
     namer = namer or Namer()
     layer, requires = dependencies_dict[node]
     inps = []
-    for req in requires:
+    for req, tensor in zip(requires, node.keras_inputs):
         if req in satisfied:
-            inps.append(satisfied[req])
+            inp = satisfied[req]
         else:
             inp = _get_out_tensor(dependencies_dict, satisfied, req, namer, layer_xformer)
-            inps.append(inp)
+        inps.append(_select_output(inp, tensor))
     if len(inps) == 1:
         inps = inps[0]
 
@@ -190,7 +197,7 @@ def _(
     input_nodes, output_nodes, dependencies_dict = solve_dependencies(model)
     satisfied = {node: tensor for node, tensor in zip(input_nodes, inp_tensors)}
     get_out_tensor = partial(_get_out_tensor, dependencies_dict, satisfied, namer=namer, layer_xformer=layer_xformer)
-    outs = [get_out_tensor(output_node) for output_node in output_nodes]
+    outs = [_select_output(get_out_tensor(output_node), tensor) for output_node, tensor in zip(output_nodes, model.outputs)]
     return outs[0] if len(outs) == 1 else outs
 
 
-- 
2.43.0


From 2cd3eeb729b7bec406b85f1b275266cceb75c666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:24 +0000
Subject: [PATCH 18/19] fix: report flattened bitwidths in the order of the
 flattened values

---
 src/HGQ/layers/passive_layers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/HGQ/layers/passive_layers.py b/src/HGQ/layers/passive_layers.py
index 4f438a8..3348086 100644
--- a/src/HGQ/layers/passive_layers.py
+++ b/src/HGQ/layers/passive_layers.py
@@ -85,7 +85,17 @@ class PReshape(tf.keras.layers.Reshape, PLayerBase):
 
 @register_keras_serializable(package="HGQ")
 class PFlatten(tf.keras.layers.Flatten, PLayerBase):
-    pass
+
+    @property
+    @tf.function(jit_compile=True)
+    def act_bw(self):
+        """Returns the bitwidth of the pre-activation values. Differentiable."""
+        return self.call(self.input_bw)
+
+    @property
+    def act_bw_exact(self) -> np.ndarray:
+        """Returns the exact bitwidth of the pre-activation values. Non-differentiable. For post-training use."""
+        return self.call(tf.constant(self.input_bw_exact)).numpy()  # type: ignore
 
 
 @register_keras_serializable(package="HGQ")
-- 
2.43.0


From 6d8cf03d12d1ca5e04fd691a462b8d15db5f16a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:27 +0000
Subject: [PATCH 19/19] fix: guard the rounding carry of every element when
 narrowing a quantizer

---
 src/HGQ/proxy/precision_derivation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index 289fbcf..e564b38 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -94,7 +94,9 @@ def _(layer: FixedPointQuantizer):
     # If the quantizer bit width is unnecessarily large, reduce it.
     ok, oi, of = layer.result_t_kif
     k, i, f = min(_ik, ok), min(_ii, oi), min(_if, of)
-    if _ii <= oi and _if > f:
+    bits, fracs = layer.bits.numpy(), (layer.bits - layer.integers).numpy()
+    min_of = np.min(np.where(bits > 0, fracs, of))  # Coarsest element decides if anything may be rounded up.
+    if _ii <= oi and _if > min_of:
         # May overflow otherwise, like (8,4) & (8,5) should result in (9,4) instead of (8,4) to avoid overflow.
         i += 1
     if k != ok or i != oi or f != of:
-- 
2.43.0

