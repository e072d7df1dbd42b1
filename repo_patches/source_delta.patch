From 96297860aad6cf3ab7e2f0935a25f93e98fe39fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 001/205] fix: Div on integer tensors truncates towards zero
 and keeps the integer type

---
 onnx_tool/node.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1a7b996..1a50a69 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -338,13 +338,13 @@ class DivNode(NpMathBase):
         self.op_mac = DIV_MACS
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if intensors[0].dtype == intensors[1].dtype:
-            if intensors[0].dtype in [numpy.int64]:
-                result = intensors[0].get_numpy() // intensors[1].get_numpy()
-            else:
-                result = intensors[0].get_numpy() / intensors[1].get_numpy()
+        a = intensors[0].get_numpy()
+        b = intensors[1].get_numpy()
+        if numpy.issubdtype(a.dtype, numpy.integer) and numpy.issubdtype(b.dtype, numpy.integer):
+            # ONNX integer division truncates towards zero
+            result = (a - numpy.fmod(a, b)) // b
         else:
-            result = intensors[0].get_numpy() / intensors[1].get_numpy()
+            result = a / b
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From 7b513626208da09a4eaed697eba71baa4404a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 002/205] fix: Mod honours its fmod attribute

---
 onnx_tool/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1a50a69..17e9f38 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -353,9 +353,11 @@ class ModNode(NpMathBase):
     def __init__(self, n):
         super().__init__(n)
         self.op_mac = ADD_MACS
+        self.add_default_value('fmod', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = numpy.mod(intensors[0].get_numpy(), intensors[1].get_numpy())
+        modfunc = numpy.fmod if self.fmod else numpy.mod
+        result = modfunc(intensors[0].get_numpy(), intensors[1].get_numpy())
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From e618f7a50fba8a1180b8604861291260b6bcf330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 003/205] fix: Min computes the minimum instead of its logical
 negation

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 17e9f38..535a390 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -308,7 +308,7 @@ class MinNode(NpMathBase):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         result = intensors[0].get_numpy()
         for i in range(1, len(intensors)):
-            result = not numpy.minimum(result, intensors[i].get_numpy())
+            result = numpy.minimum(result, intensors[i].get_numpy())
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From d7ce32725eefac0929358864f782d66668ccac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 004/205] fix: Sum broadcasts its operand shapes

---
 onnx_tool/node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 535a390..ec080d0 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -724,6 +724,10 @@ class SumNode(PWNode):
         self.op_mac = ADD_MACS
         self.ratio = len(nodeproto.input) - 1
 
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        outtensors[0].update_shape(_broadcast_shape([t.get_shape() for t in intensors]))
+        outtensors[0].update_dtype(intensors[0].dtype)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         y = intensors[0].get_numpy()
         for i in range(1, len(intensors)):
-- 
2.43.0


From d2d1e4d8f613eca44f1f4d934623ed0f411a20ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 005/205] fix: Round keeps the element type of its input

---
 onnx_tool/node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index ec080d0..9826d2a 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -790,6 +790,10 @@ class LessOrEqualNode(LessNode):
 
 @NODE_REGISTRY.register()
 class RoundNode(LessNode):
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        outtensors[0].update_shape(intensors[0].get_shape())
+        outtensors[0].update_dtype(intensors[0].dtype)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         result = numpy.round(intensors[0].get_numpy())
         outtensors[0].update_tensor(result)
-- 
2.43.0


From 0c3dd912af2b9bd57779ae75e8e777a32c68e671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 006/205] fix: LeakyRelu, HardSigmoid and HardSwish evaluate
 elementwise

---
 onnx_tool/node.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 9826d2a..4a6e306 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -589,7 +589,7 @@ class HardSigmoidNode(PWNode):
         self.add_default_value('beta', 0.5)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = max(0, min(1, self.alpha * intensors[0].get_numpy() + self.beta))
+        result = numpy.clip(self.alpha * intensors[0].get_numpy() + self.beta, 0, 1)
         outtensors[0].update_tensor(result)
 
 
@@ -602,7 +602,7 @@ class HardSwishNode(PWNode):
         self.add_default_value('beta', 0.5)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = intensors[0].get_numpy() * max(0, min(1, self.alpha * intensors[0].get_numpy() + self.beta))
+        result = intensors[0].get_numpy() * numpy.clip(self.alpha * intensors[0].get_numpy() + self.beta, 0, 1)
         outtensors[0].update_tensor(result)
 
 
@@ -710,11 +710,7 @@ class LeakyReluNode(PWNode):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        outtensor = numpy.zeros_like(x)
-        for i in numpy.ndindex(x.shape):
-            x = x[i]
-            outtensor[i] = x if x >= 0 else x * self.alpha
-        outtensors[0].update_tensor(outtensor)
+        outtensors[0].update_tensor(numpy.where(x >= 0, x, x * self.alpha).astype(x.dtype))
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 8a1480f8bee991fb16899670488b4a0334f66718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 007/205] fix: Softmax without an axis attribute normalises
 over the last axis

---
 onnx_tool/node.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4a6e306..5810ab5 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -408,6 +408,7 @@ class SoftmaxNode(ExpNode):
         super().__init__(node_proto)
         self.op_mac = EXP_MACS + DIV_MACS
         self.ratio = 1
+        self.add_default_value('axis', -1)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xexp = numpy.exp(intensors[0].get_numpy())
-- 
2.43.0


From c906548b1fab29dc4b70369168dfe63f0daad1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 008/205] fix: Clip accepts absent bounds and bounds given as
 attributes

---
 onnx_tool/node.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 5810ab5..b2a0821 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -995,13 +995,11 @@ class ClipNode(PWNode):
         self.ratio = 1
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if intensors[1].name == '':
-            minval = None
-        else:
+        minval = getattr(self, 'min', None)
+        maxval = getattr(self, 'max', None)
+        if len(intensors) > 1 and intensors[1].name != '':
             minval = intensors[1].get_numpy()
-        if intensors[2].name == '':
-            maxval = None
-        else:
+        if len(intensors) > 2 and intensors[2].name != '':
             maxval = intensors[2].get_numpy()
         y = numpy.clip(intensors[0].get_numpy(), minval, maxval)
         outtensors[0].update_tensor(y)
-- 
2.43.0


From 4a8c3bb834a292d84fa556c324c07c2783aba960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 009/205] fix: Dropout evaluates its mask output

---
 onnx_tool/node.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b2a0821..806ca2f 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1503,6 +1503,11 @@ class DropoutNode(FusedBase):
             outtensors[1].update_shape(intensors[0].get_shape())
             outtensors[1].update_dtype(numpy.bool_)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        outtensors[0].update_tensor(intensors[0].get_numpy())
+        if len(outtensors) == 2:
+            outtensors[1].update_tensor(numpy.ones(intensors[0].get_shape(), dtype=numpy.bool_))
+
 
 @NODE_REGISTRY.register()
 class GlobalAveragePoolNode(Node):
-- 
2.43.0


From 3b6a42c785be651a1cb7b55706d3c4ad3698ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 010/205] fix: CumSum keeps the element type of its input

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 806ca2f..a9549bc 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2269,7 +2269,8 @@ class CumSumNode(PWNode):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if self.exclusive == 0 and self.reverse == 0:
-            y = numpy.cumsum(intensors[0].get_numpy(), intensors[1].get_numpy())
+            x = intensors[0].get_numpy()
+            y = numpy.cumsum(x, int(intensors[1].get_numpy().item()), dtype=x.dtype)
             outtensors[0].update_tensor(y)
             return
         raise NotImplementedError(f"CumSum doesnt support {self.exclusive} {self.reverse}")
-- 
2.43.0


From 052f4e5ad43802ae81ab3b0c9e9e225c035d5b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 011/205] fix: GatherElements keeps the element type of the
 data

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index a9549bc..4b2050b 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2799,7 +2799,7 @@ class GatherElementsNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
         indice = intensors[1].get_numpy()
-        outtensor = numpy.zeros_like(indice)
+        outtensor = numpy.zeros(indice.shape, dtype=x.dtype)
         for i in numpy.ndindex(outtensor.shape):
             idx = list(i)
             idx[self.axis] = indice[i]
-- 
2.43.0


From ff03a037ae4c9916067951c631fdde103a0ba960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 012/205] fix: ScatterND applies its reduction attribute

---
 onnx_tool/node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4b2050b..bb476ad 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2417,6 +2417,10 @@ def gather_nd_impl(
 
 @NODE_REGISTRY.register()
 class ScatterNDNode(Node):
+    def __init__(self, n):
+        super().__init__(n)
+        self.add_default_value('reduction', b'none')
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
         outtensors[0].update_dtype(intensors[0].dtype)
@@ -2425,7 +2429,8 @@ class ScatterNDNode(Node):
         data = intensors[0].get_numpy()
         indices = intensors[1].get_numpy()
         updates = intensors[2].get_numpy()
-        outtensors[0].update_tensor(scatter_nd_impl(data, indices, updates))
+        reduction = self.reduction.decode('utf-8') if isinstance(self.reduction, bytes) else self.reduction
+        outtensors[0].update_tensor(scatter_nd_impl(data, indices, updates, reduction))
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 3056f04a25e5e2c8f68dacb2ccfcc8182def9028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 013/205] fix: GatherND honours batch_dims

---
 onnx_tool/node.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index bb476ad..62fba21 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2435,10 +2435,14 @@ class ScatterNDNode(Node):
 
 @NODE_REGISTRY.register()
 class GatherNDNode(Node):
+    def __init__(self, n):
+        super().__init__(n)
+        self.add_default_value('batch_dims', 0)
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data_shape = intensors[0].get_shape()
         indice_shape = intensors[1].get_shape()
-        batch_dims = 0
+        batch_dims = self.batch_dims
         # Note the data rank - will be reused multiple times later
         data_rank = len(data_shape)
 
@@ -2472,7 +2476,7 @@ class GatherNDNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
         indices = intensors[1].get_numpy()
-        ret = gather_nd_impl(data, indices, 0)
+        ret = gather_nd_impl(data, indices, self.batch_dims)
         outtensors[0].update_tensor(ret)
 
 
-- 
2.43.0


From 8d7b3fa8dff93907160cf172ae8c94820822fc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 014/205] fix: Split without an axis attribute splits axis 0

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 62fba21..a3643f9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2938,7 +2938,7 @@ class MQANode(SDPANode):
 class SplitNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('axis', None)
+        self.add_default_value('axis', 0)
         self.add_default_value('split', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 7b1c235e01f8a0259ec424b3a3d55bd8dfa08d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 015/205] fix: Slice handles omitted axes and steps, negative
 axes and any rank

---
 onnx_tool/node.py | 102 ++++++++++++----------------------------------
 1 file changed, 25 insertions(+), 77 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index a3643f9..8a9a0e0 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1716,34 +1716,27 @@ class ZipMapNode(Node):
 class SliceNode(Node):
     def __init__(self, n):
         super(SliceNode, self).__init__(n)
+        self.add_default_value('axes', None)
         self.add_default_value('steps', None)
 
+    def _get_params(self, intensors: List[Tensor]):
+        """starts, ends, axes, steps from attributes or input tensors; axes and steps may be None"""
+        if len(intensors) == 1:
+            params = [self.starts, self.ends, self.axes, self.steps]
+        else:
+            params = [None if t.name == '' else t.get_numpy() for t in intensors[1:5]]
+            params += [None] * (4 - len(params))
+        return [None if p is None else [int(v) for v in p] for p in params]
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
         # Prepare inputs (from attributes or input tensors)
-        if len(intensors) == 1:
-            starts = list(self.starts)
-            ends = list(self.ends)
-            axes = None if self.axes is None else list(self.axes)
-            steps = None if self.steps is None else list(self.steps)
-        else:
-            starts = list(intensors[1].get_numpy())
-            ends = list(intensors[2].get_numpy())
-            axes = None
-            steps = None
-            if len(intensors) == 3:
-                # fallback behaviour when axes/steps omitted
-                axes = None
-            else:
-                if len(intensors) >= 4:
-                    axes = list(intensors[3].get_numpy())
-                if len(intensors) >= 5:
-                    steps = list(intensors[4].get_numpy())
+        starts, ends, axes, steps = self._get_params(intensors)
 
         r = len(inshape)
-        # If axes omitted, set to [0..r-1]
+        # If axes omitted, set to [0..len(starts)-1]
         if axes is None:
-            axes = list(range(r))
+            axes = list(range(len(starts)))
         # Normalize negative axes
         axes = _axes_neg2pos(r, list(axes))
 
@@ -1854,63 +1847,18 @@ class SliceNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        datashape = intensors[0].get_shape()
-        if len(intensors) == 3:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            x = data[starts[0]:ends[0]]
-        if len(intensors) == 4:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            axes = intensors[3].get_numpy()
-            index = 0
-            x = data.copy()
-            for i in axes:
-                if i == 0:
-                    x = x[starts[index]:ends[index], ...]
-                if i == 1:
-                    x = x[:, starts[index]:ends[index], ...]
-                if i == 2:
-                    x = x[:, :, starts[index]:ends[index], ...]
-                if i == 3:
-                    x = x[:, :, :, starts[index]:ends[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, starts[index]:ends[index], ...]
-                index += 1
-        if len(intensors) == 5:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            axes = intensors[3].get_numpy()
-            steps = intensors[4].get_numpy()
-            index = 0
-            x = data.copy()
-            for i in axes:
-                if i == 0:
-                    x = x[starts[index]:ends[index]:steps[index], ...]
-                if i == 1:
-                    x = x[:, starts[index]:ends[index]:steps[index], ...]
-                if i == 2:
-                    x = x[:, :, starts[index]:ends[index]:steps[index], ...]
-                if i == 3:
-                    x = x[:, :, :, starts[index]:ends[index]:steps[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, starts[index]:ends[index]:steps[index], ...]
-                index += 1
-        if len(intensors) == 1:
-            index = 0
-            x = data.copy()
-            for i in self.axes:
-                if i == 0:
-                    x = x[self.starts[index]:self.ends[index], ...]
-                if i == 1:
-                    x = x[:, self.starts[index]:self.ends[index], ...]
-                if i == 2:
-                    x = x[:, :, self.starts[index]:self.ends[index], ...]
-                if i == 3:
-                    x = x[:, :, :, self.starts[index]:self.ends[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, self.starts[index]:self.ends[index], ...]
-                index += 1
+        starts, ends, axes, steps = self._get_params(intensors)
+        if axes is None:
+            axes = range(len(starts))
+        if steps is None:
+            steps = [1] * len(starts)
+        slices = [slice(None)] * data.ndim
+        for axis, start, end, step in zip(axes, starts, ends, steps):
+            dim = data.shape[axis]
+            if step < 0 and end < -dim:
+                end = None  # up to and including the first element
+            slices[axis] = slice(start, end, step)
+        x = data[tuple(slices)].copy()
         outtensors[0].update_tensor(x)
 
 
-- 
2.43.0


From 08399baef2f2d0ae069d4d20b8aea2a224376307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 016/205] fix: Reshape handles scalars, empty tensors and
 allowzero

---
 onnx_tool/node.py | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8a9a0e0..fb66c7b 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2705,41 +2705,30 @@ class ConvTransposeNode(Node):
 
 @NODE_REGISTRY.register()
 class ReshapeNode(Node):
+    def __init__(self, n):
+        super().__init__(n)
+        self.add_default_value('allowzero', 0)
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         srcshape = intensors[0].get_shape()
-        if not is_valid_ndarray(intensors[1].get_numpy()):
-            outtensors[0].update_shape([1, ])
-            outtensors[0].update_dtype(intensors[0].dtype)
-            return
         shape = intensors[1].get_numpy()
         newshape = []
         for i in range(len(shape)):
-            if shape[i] == 0:
+            if shape[i] == 0 and not self.allowzero:
                 newshape.append(int(srcshape[i]))
             else:
                 newshape.append(int(shape[i]))
-        sum = volume(newshape)
-        raw = volume(srcshape)
-        if sum < 0:
-            remain = raw // -sum
-            for i, val in enumerate(newshape):
-                if val == -1:
-                    newshape[i] = remain
-                    break
-        assert raw == volume(newshape)
+        raw = math.prod(srcshape)
+        if -1 in newshape:
+            known = math.prod([v for v in newshape if v != -1])
+            newshape[newshape.index(-1)] = raw // known if known else 0
+        assert raw == math.prod(newshape)
         outtensors[0].update_shape(newshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        shape = []
-        xtensor = intensors[0].get_numpy()
-        stensor = intensors[1].get_numpy()
-        for i, v in enumerate(stensor):
-            if v == 0:
-                shape.append(xtensor.shape[i])
-            else:
-                shape.append(v)
-        ret = xtensor.reshape(shape)
+        self.shape_infer(intensors, outtensors)
+        ret = intensors[0].get_numpy().reshape(outtensors[0].get_shape())
         outtensors[0].update_tensor(ret)
 
 
-- 
2.43.0


From 16054ef04e7bf61f7d21048312eef080c59f6003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 017/205] fix: Flatten handles negative axes

---
 onnx_tool/node.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index fb66c7b..e3264b3 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1663,17 +1663,12 @@ class BatchNormalizationNode(FusedBase):
 class FlattenNode(Node):
     def __init__(self, node):
         super().__init__(node)
-        self.add_default_value('axis', None)
+        self.add_default_value('axis', 1)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        if self.axis is None:
-            y = x.reshape((x.shape[0], -1))
-        else:
-            vol = 1
-            for i in range(self.axis):
-                vol *= x.shape[i]
-            y = x.reshape((vol, -1))
+        axis = self.axis + x.ndim if self.axis < 0 else self.axis
+        y = x.reshape((math.prod(x.shape[:axis]), math.prod(x.shape[axis:])))
         outtensors[0].update_tensor(y)
 
 
-- 
2.43.0


From 1cedec2e71d7e796f304b5f389572b5605c53170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 018/205] fix: Squeeze without axes removes all unit dimensions
 and takes axes in any order

---
 onnx_tool/node.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e3264b3..4a15a91 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1305,14 +1305,21 @@ class UnsqueezeNode(Node):
 class SqueezeNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('axes', [0])
+        self.add_default_value('axes', None)
+
+    def _get_axes(self, intensors: List[Tensor]):
+        inshape = intensors[0].get_shape()
+        axes = self.axes
+        if len(intensors) == 2 and intensors[1].name != '':
+            axes = intensors[1].get_numpy()
+        if axes is None:
+            return [i for i, v in enumerate(inshape) if v == 1]
+        return _axes_neg2pos(len(inshape), axes)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
         outshape = []
-        if len(intensors) == 2:
-            self.axes = intensors[1].get_numpy()
-        axes = _axes_neg2pos(len(inshape), self.axes)
+        axes = self._get_axes(intensors)
         for i in range(len(inshape)):
             if i in axes:
                 continue
@@ -1322,14 +1329,8 @@ class SqueezeNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        outtensor = intensors[0].get_numpy().copy()
-        idx = 0
-        if len(intensors) == 2:
-            self.axes = intensors[1].get_numpy()
-        for axis in self.axes:
-            outtensor = numpy.squeeze(outtensor, axis=axis - idx)
-            idx += 1
-        outtensors[0].update_tensor(outtensor)
+        axes = tuple(int(axis) for axis in self._get_axes(intensors))
+        outtensors[0].update_tensor(numpy.squeeze(intensors[0].get_numpy(), axis=axes).copy())
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 400cb59dc8628271fe7963a6748f2ea48f5629e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 019/205] fix: Unsqueeze takes axes in any order

---
 onnx_tool/node.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4a15a91..1bb24d5 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1291,13 +1291,8 @@ class UnsqueezeNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        outtensor = intensors[0].get_numpy()
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
-        for axis in axes:
-            outtensor = numpy.expand_dims(outtensor, axis=axis)
+        self.shape_infer(intensors, outtensors)
+        outtensor = intensors[0].get_numpy().reshape(outtensors[0].get_shape())
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From 519c7e2e7f4adda45cfa4929f89ba487fe1fed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 020/205] fix: Pad evaluates with attribute pads, default mode,
 negative pads, axes and non-constant modes

---
 onnx_tool/node.py | 50 +++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1bb24d5..4d465c7 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1578,35 +1578,43 @@ class PadNode(Node):
         self.add_default_value('value', 0)
         self.add_default_value('mode', 'constant')
 
+    def _get_pads(self, intensors: List[Tensor]):
+        """begin and end padding of every axis"""
+        rank = len(intensors[0].get_shape())
+        pads = self.pads if self.pads is not None else intensors[1].get_numpy()
+        axes = list(range(rank))
+        if len(intensors) > 3 and intensors[3].name != '':
+            axes = [int(a) % rank for a in intensors[3].get_numpy()]
+        full = [0] * (2 * rank)
+        for i, axis in enumerate(axes):
+            full[axis] = int(pads[i])
+            full[axis + rank] = int(pads[i + len(axes)])
+        return full
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
         newshape = []
-        if self.pads is None:
-            if len(intensors) > 1:
-                pads = intensors[1].get_numpy()
-                for i, v in enumerate(inshape):
-                    newshape.append(v + pads[i] + pads[i + len(inshape)])
-        else:
-            for i, v in enumerate(inshape):
-                newshape.append(v + self.pads[i] + self.pads[i + len(inshape)])
-        newshape = [int(val) for val in newshape]
+        pads = self._get_pads(intensors)
+        for i, v in enumerate(inshape):
+            newshape.append(v + pads[i] + pads[i + len(inshape)])
         outtensors[0].update_shape(newshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if self.pads is not None:
-            pads = self.pads
-        elif len(intensors) > 1:
-            pads = intensors[1].get_numpy()
+        x = intensors[0].get_numpy()
+        pads = self._get_pads(intensors)
         nrank = len(pads) // 2
-        start = pads[:nrank].reshape(nrank, 1)
-        end = pads[nrank:].reshape(nrank, 1)
-        pad_width = numpy.concatenate([start, end], axis=-1)
-        value = self.value
-        if len(intensors) > 2:
-            value = intensors[2].get_numpy()
-        outtensor = numpy.pad(intensors[0].get_numpy(), pad_width=pad_width, mode=self.mode.decode("utf-8"),
-                              constant_values=value)
+        # negative pads crop
+        x = x[tuple(slice(max(-pads[i], 0), x.shape[i] - max(-pads[i + nrank], 0)) for i in range(nrank))]
+        pad_width = [(max(pads[i], 0), max(pads[i + nrank], 0)) for i in range(nrank)]
+        mode = self.mode.decode("utf-8") if isinstance(self.mode, bytes) else self.mode
+        if mode == 'constant':
+            value = self.value
+            if len(intensors) > 2 and intensors[2].name != '':
+                value = intensors[2].get_numpy()
+            outtensor = numpy.pad(x, pad_width, mode, constant_values=value)
+        else:
+            outtensor = numpy.pad(x, pad_width, mode)
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From 877ee2904d8b188641557905e2c19fbd777363d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 021/205] fix: Shape honours its start and end attributes

---
 onnx_tool/node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4d465c7..d1d6084 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1330,8 +1330,13 @@ class SqueezeNode(Node):
 
 @NODE_REGISTRY.register()
 class ShapeNode(Node):
+    def __init__(self, n):
+        super().__init__(n)
+        self.add_default_value('start', 0)
+        self.add_default_value('end', None)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        ret = numpy.array(intensors[0].get_shape(), dtype=numpy.int64)
+        ret = numpy.array(intensors[0].get_shape()[self.start:self.end], dtype=numpy.int64)
         outtensors[0].update_tensor(ret)
 
 
-- 
2.43.0


From 166819767fd8d9d27405aa6049c4f6135c9bcde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 022/205] fix: ConstantOfShape without a value produces float
 zeros

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d1d6084..4ab6d0f 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2809,7 +2809,8 @@ class ConstantOfShapeNode(Node):
             outtensors[0].update_dtype(self.value.dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        arr = numpy.zeros(intensors[0].get_numpy(), dtype=self.value.dtype)
+        dtype = numpy.float32 if self.value is None else self.value.dtype
+        arr = numpy.zeros(intensors[0].get_numpy(), dtype=dtype)
         if self.value is not None and len(self.value) == 1:
             arr.fill(self.value[0])
         outtensors[0].update_tensor(arr)
-- 
2.43.0


From 7265ca77812e486e42bf7decf5a4442b1d330381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 023/205] fix: OneHot uses its on and off values

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4ab6d0f..746d09c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1119,7 +1119,8 @@ class OneHotNode(Node):
         indices = intensors[0].get_numpy()
         depth = intensors[1].get_numpy()
         values = intensors[2].get_numpy()
-        y = one_hot(indices, depth, self.axis)
+        off, on = values[0], values[1]
+        y = numpy.where(one_hot(indices, depth, self.axis, numpy.bool_), on, off).astype(values.dtype)
         outtensors[0].update_tensor(y)
 
 
-- 
2.43.0


From 5bc91b1515680fa25c0ab93197f70a1a3e0fcad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 024/205] fix: TopK without an axis attribute selects along the
 last axis

---
 onnx_tool/node.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 746d09c..e6f46c5 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1968,14 +1968,11 @@ class ReduceMaxNode(ReduceMinNode):
 class TopKNode(Node):
     def __init__(self, node):
         super().__init__(node)
-        self.add_default_value('axis', None)
+        self.add_default_value('axis', -1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         k = intensors[1].get_numpy()[0]
-        # when the input tensor only contain 1 dimension, the axis attribute (default: 0) may not appear in the node
-        if len(xshape) == 1 and self.axis is None:
-            self.axis = 0
         axis = _axes_neg2pos(len(xshape), [self.axis])[0]
         newshape = []
         for i in range(len(xshape)):
-- 
2.43.0


From c2b8e7f334d4387e25d90158d39ce69c271be6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 025/205] fix: ArgMax honours select_last_index

---
 onnx_tool/node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e6f46c5..c2c793f 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1696,10 +1696,15 @@ class ArgMaxNode(Node):
         super().__init__(n)
         self.add_default_value('axis', 0)
         self.add_default_value('keepdims', 1)
+        self.add_default_value('select_last_index', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        out = argmax_use_numpy(data, self.axis, self.keepdims)
+        if self.select_last_index:
+            dim = data.shape[self.axis]
+            out = dim - 1 - argmax_use_numpy(numpy.flip(data, self.axis), self.axis, self.keepdims)
+        else:
+            out = argmax_use_numpy(data, self.axis, self.keepdims)
         outtensors[0].update_tensor(out)
 
 
-- 
2.43.0


From c825bc07ddf023299b7b027884ea1da705c840a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 026/205] fix: Constant accepts scalar and list value
 attributes

---
 onnx_tool/node.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index c2c793f..07396c5 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1032,6 +1032,11 @@ class Relu6Node(PWNode):
 class ConstantNode(Node):
     def __init__(self, n):
         super().__init__(n)
+        # value_float, value_int, value_floats and value_ints are shorthands of value
+        for key, dtype in (('value_float', numpy.float32), ('value_floats', numpy.float32),
+                           ('value_int', numpy.int64), ('value_ints', numpy.int64)):
+            if hasattr(self, key):
+                self.value = numpy.array(getattr(self, key), dtype=dtype)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(self.value.shape)
-- 
2.43.0


From d62bd0b5abda157cc9d69267a2d0dc3ea8ad9ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 027/205] fix: reductions handle omitted axes, empty axes and
 axes given as an input

---
 onnx_tool/node.py | 57 +++++++++++++++++------------------------------
 1 file changed, 20 insertions(+), 37 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 07396c5..6c0723c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1883,19 +1883,22 @@ class ReduceMeanNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('axes', None)
         self.add_default_value('keepdims', 1)
+        self.add_default_value('noop_with_empty_axes', 0)
+
+    def _get_axes(self, intensors: List[Tensor]):
+        """reduced axes as a tuple of non-negative numbers"""
+        rank = len(intensors[0].get_shape())
+        axes = self.axes
+        if len(intensors) == 2 and intensors[1].name != '':
+            axes = intensors[1].get_numpy()
+        if axes is None or len(axes) == 0:
+            return () if self.noop_with_empty_axes else tuple(range(rank))
+        return tuple(int(axis) for axis in _axes_neg2pos(rank, axes))
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         yshape = []
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
-        if axes is None:
-            return [[1]]
-        else:
-            axes = _axes_neg2pos(len(xshape), axes)
-
+        axes = self._get_axes(intensors)
         for i in range(len(xshape)):
             if i in axes:
                 if self.keepdims:
@@ -1906,10 +1909,7 @@ class ReduceMeanNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
+        axes = self._get_axes(intensors)
         reduced = numpy.mean(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -1921,10 +1921,7 @@ class ReduceMeanNode(Node):
 @NODE_REGISTRY.register()
 class ReduceProdNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
+        axes = self._get_axes(intensors)
         reduced = numpy.prod(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -1937,10 +1934,7 @@ class ReduceProdNode(ReduceMeanNode):
 @NODE_REGISTRY.register()
 class ReduceSumNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = tuple(intensors[1].get_numpy().tolist())
-        else:
-            axes = self.axes
+        axes = self._get_axes(intensors)
         reduced = numpy.sum(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -1949,10 +1943,7 @@ class ReduceSumNode(ReduceMeanNode):
 class ReduceMinNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
+        axes = self._get_axes(intensors)
         reduced = numpy.minimum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -1966,10 +1957,7 @@ class ReduceMinNode(ReduceMeanNode):
 class ReduceMaxNode(ReduceMinNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
+        axes = self._get_axes(intensors)
         reduced = numpy.maximum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -2201,16 +2189,11 @@ class ConvNode(Node):
 
 
 @NODE_REGISTRY.register()
-class ReduceL2Node(Node):
-    def __init__(self, nodeproto):
-        super().__init__(nodeproto)
-        self.add_default_value('axes', None)
-        self.add_default_value('keepdims', 1)
-        self.axes = tuple(self.axes) if self.axes is not None else None
-
+class ReduceL2Node(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        axes = self._get_axes(intensors)
         reduced = numpy.sqrt(
-            numpy.sum(intensors[0].get_numpy() * intensors[0].get_numpy(), axis=self.axes, keepdims=self.keepdims == 1))
+            numpy.sum(intensors[0].get_numpy() * intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1))
         outtensors[0].update_tensor(reduced)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 3cb59c1238a81d8e645fbc8abd8f7bf4e057d721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 028/205] fix: reductions keep the element type of their input

---
 onnx_tool/node.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 6c0723c..1227ca8 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1910,7 +1910,8 @@ class ReduceMeanNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         axes = self._get_axes(intensors)
-        reduced = numpy.mean(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
+        data = intensors[0].get_numpy()
+        reduced = numpy.mean(data, axis=axes, keepdims=self.keepdims == 1).astype(data.dtype)
         outtensors[0].update_tensor(reduced)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -1922,7 +1923,8 @@ class ReduceMeanNode(Node):
 class ReduceProdNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         axes = self._get_axes(intensors)
-        reduced = numpy.prod(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
+        data = intensors[0].get_numpy()
+        reduced = numpy.prod(data, axis=axes, keepdims=self.keepdims == 1).astype(data.dtype)
         outtensors[0].update_tensor(reduced)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -1935,7 +1937,8 @@ class ReduceProdNode(ReduceMeanNode):
 class ReduceSumNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         axes = self._get_axes(intensors)
-        reduced = numpy.sum(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
+        data = intensors[0].get_numpy()
+        reduced = numpy.sum(data, axis=axes, keepdims=self.keepdims == 1).astype(data.dtype)
         outtensors[0].update_tensor(reduced)
 
 
-- 
2.43.0


From 4cbeecab30a52d5eeba23f5fbfbd9d99d27d2570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 029/205] fix: MatMul broadcasts batch dimensions and accepts
 1-D operands

---
 onnx_tool/node.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1227ca8..da2f901 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -162,6 +162,22 @@ def _broadcast_shape(shapes: []):
     return outshape
 
 
+def _matmul_shape(a_shape, b_shape):
+    """Output shape of numpy.matmul: batch dimensions broadcast, 1-D operands lose their added dimension"""
+    if len(a_shape) < 1 or len(b_shape) < 1:
+        raise RuntimeError('MatMul inputs must have rank >= 1')
+    a_k = a_shape[-1]
+    b_k = b_shape[-2] if len(b_shape) > 1 else b_shape[0]
+    if a_k != b_k:
+        raise RuntimeError(f'Incompatible MatMul shapes: A K={a_k} != B K={b_k}')
+    yshape = _broadcast_shape([a_shape[:-2], b_shape[:-2]])
+    if len(a_shape) > 1:
+        yshape = yshape + [a_shape[-2]]
+    if len(b_shape) > 1:
+        yshape = yshape + [b_shape[-1]]
+    return yshape
+
+
 class TmpNodeProto:
     def __init__(self, name, op_type, attributes):
         self.name = name
@@ -870,9 +886,9 @@ class GemmNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         a_shape = intensors[0].get_shape()
         b_shape = intensors[1].get_shape()
-        if len(a_shape) < 2 or len(b_shape) < 2:
-            raise RuntimeError('Gemm inputs must have rank >= 2')
         if self.__class__ == GemmNode:
+            if len(a_shape) < 2 or len(b_shape) < 2:
+                raise RuntimeError('Gemm inputs must have rank >= 2')
             # determine M,K from A depending on transA
             if self.transA > 0:
                 a_m = a_shape[-1]
@@ -894,17 +910,13 @@ class GemmNode(Node):
             batchshape = a_batch if volume(a_batch) >= volume(b_batch) else b_batch
             yshape = batchshape + [a_m, b_n]
         else:
-            # broadcast support for MatMul-like nodes
-            batchshape = a_shape[:-2] if volume(a_shape[:-2]) >= volume(b_shape[:-2]) else b_shape[:-2]
-            yshape = batchshape + [a_shape[-2], b_shape[-1]]
+            # numpy.matmul rules for MatMul-like nodes
+            yshape = _matmul_shape(a_shape, b_shape)
         outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if self.__class__ == MatMulNode:
-            ashape = intensors[0].get_shape()
-            bshape = intensors[1].get_shape()
-            assert (ashape[-1] == bshape[-2])
             result = numpy.matmul(intensors[0].get_numpy(), intensors[1].get_numpy())
             outtensors[0].update_tensor(result)
             return
-- 
2.43.0


From 4439367871e78bee370a0db6e4da838a3bb63c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 030/205] fix: Gemm applies alpha and beta

---
 onnx_tool/node.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index da2f901..c99d2fd 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -882,6 +882,8 @@ class GemmNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('transA', 0)
         self.add_default_value('transB', 0)
+        self.add_default_value('alpha', 1.0)
+        self.add_default_value('beta', 1.0)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         a_shape = intensors[0].get_shape()
@@ -927,8 +929,13 @@ class GemmNode(Node):
         if self.transB > 0:
             B = numpy.swapaxes(B, -1, -2)
         C = numpy.matmul(A, B)
-        if len(intensors) > 2:
-            C = numpy.add(C, intensors[2].get_numpy())
+        if self.alpha != 1:
+            C = (self.alpha * C).astype(A.dtype)
+        if len(intensors) > 2 and intensors[2].name != '':
+            bias = intensors[2].get_numpy()
+            if self.beta != 1:
+                bias = (self.beta * bias).astype(bias.dtype)
+            C = numpy.add(C, bias)
         outtensors[0].update_tensor(C)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 6813dbd032fc741642811a740e5ca1f657d02e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 031/205] fix: MatMulInteger subtracts zero points and
 accumulates in int32

---
 onnx_tool/node.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index c99d2fd..6ab86c8 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2534,6 +2534,16 @@ class MatMulIntegerNode(GemmNode):
         super().shape_infer(intensors, outtensors)
         outtensors[0].update_dtype(numpy.int32)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        a = intensors[0].get_numpy().astype(numpy.int32)
+        b = intensors[1].get_numpy().astype(numpy.int32)
+        if len(intensors) > 2 and intensors[2].name != '':
+            zero = intensors[2].get_numpy().astype(numpy.int32)
+            a = a - (zero.reshape(-1, 1) if zero.ndim == 1 else zero)
+        if len(intensors) > 3 and intensors[3].name != '':
+            b = b - intensors[3].get_numpy().astype(numpy.int32)
+        outtensors[0].update_tensor(numpy.matmul(a, b))
+
 
 @NODE_REGISTRY.register()
 class QLinearMatMulNode(GemmNode):
-- 
2.43.0


From 9c59878f9016a6ab4f9488b82e16c1dd6b06a004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 032/205] fix: QLinearMatMul broadcasts batch dimensions and
 evaluates in the quantized domain

---
 onnx_tool/node.py | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 6ab86c8..54c16cd 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2555,30 +2555,19 @@ class QLinearMatMulNode(GemmNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[3].get_shape()
+        outtensors[0].update_shape(_matmul_shape(xshape, wshape))
+        outtensors[0].update_dtype(intensors[7].dtype)
 
-        if self.__class__ == GemmNode:
-            if self.transA is not None and self.transA > 0:
-                xshape = xshape[::-1]
-            else:
-                xshape = xshape
-            if self.transB is not None and self.transB > 0:
-                yshape = xshape[:-1] + [wshape[-2], ]
-            else:
-                yshape = xshape[:-1] + [wshape[-1], ]
-        else:
-            yshape = xshape[:-1] + [wshape[-1], ]
-        outtensors[0].update_shape(yshape)
-        outtensors[0].update_dtype(intensors[-1].dtype)
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        a, a_scale, a_zero, b, b_scale, b_zero, y_scale, y_zero = [t.get_numpy() for t in intensors[:8]]
+        acc = numpy.matmul(a.astype(numpy.int32) - a_zero.astype(numpy.int32),
+                           b.astype(numpy.int32) - b_zero.astype(numpy.int32))
+        info = numpy.iinfo(y_zero.dtype)
+        y = numpy.round(acc * (a_scale * b_scale / y_scale)) + y_zero
+        outtensors[0].update_tensor(numpy.clip(y, info.min, info.max).astype(y_zero.dtype))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xshape = intensors[0].get_shape()
-        weight_shape = intensors[3].get_shape()
-        macs = volume(xshape)
-        if self.__class__ == GemmNode:
-            macs *= weight_shape[0]
-        else:
-            macs *= weight_shape[-1]
-        return macs
+        return volume(outtensors[0].get_shape()) * intensors[0].get_shape()[-1]
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 80ea28136c9f5b0ddf3cab8b57062c373462c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 033/205] fix: convolutions apply auto_pad to every spatial
 dimension and to dilated kernels

---
 onnx_tool/node.py | 108 ++++++++++++++++------------------------------
 1 file changed, 37 insertions(+), 71 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 54c16cd..13fdc77 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -60,6 +60,20 @@ def _auto_pad_same_shape_calc(x, stride):
     return math.ceil((x) / stride)
 
 
+def _auto_pads(auto_pad, xshape, kshape, strides, dilations):
+    """Explicit pads (all begins, then all ends) of an auto_pad mode, spatial dimensions only"""
+    begins = []
+    ends = []
+    for x, k, s, d in zip(xshape, kshape, strides, dilations):
+        total = 0
+        if auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
+            total = max((math.ceil(x / s) - 1) * s + (k - 1) * d + 1 - x, 0)
+        small = total // 2
+        begins.append(total - small if auto_pad == b'SAME_LOWER' else small)
+        ends.append(small if auto_pad == b'SAME_LOWER' else total - small)
+    return begins + ends
+
+
 def _pooling_shape_calc(inshape, pad, kshape, dilation, stride, ceilmode):
     outshape = (inshape + pad - ((kshape - 1) * dilation + 1)) / stride + 1
     if ceilmode:
@@ -2120,43 +2134,26 @@ class ConvNode(Node):
         self.add_default_value('dilations', (1, 1, 1))
         self.add_default_value('group', 1)
 
+    def _get_pads(self, xshape, wshape):
+        """begin pads, then end pads of the spatial dimensions"""
+        rank = len(xshape) - 2
+        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
+            return _auto_pads(self.auto_pad, xshape[2:], wshape[2:], self.strides, self.dilations)
+        return list(self.pads[:2 * rank])
+
+    def _output_shape(self, xshape, wshape):
+        rank = len(xshape) - 2
+        pads = self._get_pads(xshape, wshape)
+        shape = [xshape[0], wshape[0]]
+        for i in range(rank):
+            shape.append(_conv_output_shape(xshape[2 + i], pads[i] + pads[i + rank], wshape[2 + i], self.strides[i],
+                                            self.dilations[i]))
+        return shape
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-        shape = []
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                shape = (xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0]))
-                if len(xshape) == 4:
-                    shape += (math.ceil(xshape[3] / self.strides[1]),)
-            elif self.auto_pad == b'VALID':
-                oh = math.ceil((xshape[2] - wshape[2] + 1) / self.strides[0])
-                shape = (xshape[0], wshape[0], oh)
-                if len(xshape) == 4:
-                    ow = math.ceil((xshape[3] - wshape[3] + 1) / self.strides[1])
-                    shape += (ow,)
-            else:
-                assert 0
-
-        else:
-            if len(xshape) == 5:
-                od = _conv_output_shape(xshape[2], self.pads[0] + self.pads[3], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                oh = _conv_output_shape(xshape[3], self.pads[1] + self.pads[4], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                ow = _conv_output_shape(xshape[4], self.pads[2] + self.pads[5], wshape[4], self.strides[2],
-                                        self.dilations[2])
-                shape = (xshape[0], wshape[0], od, oh, ow)
-            if len(xshape) == 4:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                ow = _conv_output_shape(xshape[3], self.pads[1] + self.pads[3], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                shape = (xshape[0], wshape[0], oh, ow)
-            elif len(xshape) == 3:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[1], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                shape = (xshape[0], wshape[0], oh)
+        shape = self._output_shape(xshape, wshape)
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
@@ -2165,12 +2162,13 @@ class ConvNode(Node):
             raise NotImplementedError()
         self.shape_infer(intensors, outtensors)
         outshape = outtensors[0].get_shape()
-        outtensor = outtensors[0].get_numpy()
+        outtensor = numpy.zeros(outshape, dtype=intensors[0].dtype)
         has_bias = len(intensors) > 2
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         if len(wshape) != 4:
             raise NotImplementedError()
+        pads = self._get_pads(xshape, wshape)
 
         reduce_shape = tuple(wshape[1:])
         for i in numpy.ndindex(tuple(outshape)):
@@ -2185,8 +2183,8 @@ class ConvNode(Node):
                 icn = j[0]
                 kh = j[1]
                 kw = j[2]
-                srch = oh * self.strides[0] + kh * self.dilations[0] - self.pads[0]
-                srcw = ow * self.strides[1] + kw * self.dilations[1] - self.pads[1]
+                srch = oh * self.strides[0] + kh * self.dilations[0] - pads[0]
+                srcw = ow * self.strides[1] + kw * self.dilations[1] - pads[1]
                 if srch < 0 or srch >= xshape[2] or srcw < 0 or srcw >= xshape[3]:
                     srcv = 0
                 else:
@@ -2575,23 +2573,7 @@ class QLinearConvNode(ConvNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[3].get_shape()
-        shape = []
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                shape = [xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0])]
-                if len(xshape) == 4:
-                    shape += [math.ceil(xshape[3] / self.strides[1]), ]
-        else:
-            if len(xshape) == 4:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                ow = _conv_output_shape(xshape[3], self.pads[1] + self.pads[3], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                shape = [xshape[0], wshape[0], oh, ow]
-            elif len(xshape) == 3:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[1], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                shape = [xshape[0], wshape[0], oh]
+        shape = self._output_shape(xshape, wshape)
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[-2].dtype)
 
@@ -2619,23 +2601,7 @@ class ConvIntegerNode(ConvNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-        shape = []
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                shape = [xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0])]
-                if len(xshape) == 4:
-                    shape += [math.ceil(xshape[3] / self.strides[1]), ]
-        else:
-            if len(xshape) == 4:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                ow = _conv_output_shape(xshape[3], self.pads[1] + self.pads[3], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                shape = [xshape[0], wshape[0], oh, ow]
-            elif len(xshape) == 3:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[1], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                shape = [xshape[0], wshape[0], oh]
+        shape = self._output_shape(xshape, wshape)
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(numpy.int32)
 
-- 
2.43.0


From fe07c0fb5a7d2d7c5ca873c219e8f118933dc3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 034/205] fix: QLinearConv produces the element type of its
 output zero point

---
 onnx_tool/node.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 13fdc77..c5bd2f5 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2575,7 +2575,10 @@ class QLinearConvNode(ConvNode):
         wshape = intensors[3].get_shape()
         shape = self._output_shape(xshape, wshape)
         outtensors[0].update_shape(shape)
-        outtensors[0].update_dtype(intensors[-2].dtype)
+        outtensors[0].update_dtype(intensors[7].dtype)
+
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
-- 
2.43.0


From 9503a7d1e50c78f4ba478ef4ac006a1213fe0741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 035/205] fix: ConvInteger does not evaluate its zero point as
 a bias

---
 onnx_tool/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index c5bd2f5..98f3693 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2608,6 +2608,9 @@ class ConvIntegerNode(ConvNode):
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(numpy.int32)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
+
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
         outshape = outtensors[0].get_shape()
-- 
2.43.0


From dd7bb9f024a04f631750c5b8f6f976b96b23aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 036/205] fix: pooling infers any spatial rank, asymmetric 3-D
 pads, auto_pad with dilations and the indices output

---
 onnx_tool/node.py | 64 ++++++++++++++---------------------------------
 1 file changed, 19 insertions(+), 45 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 98f3693..2204d19 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1435,58 +1435,32 @@ class PoolBase(Node):
         super().__init__(nodeproto)
         self.op_mac = CMP_MACS
         self.add_default_value('kernel_shape', (3, 3))
+        rank = len(self.kernel_shape)
         self.add_default_value('ceil_mode', 0)
-        self.add_default_value('pads', (0, 0, 0, 0))
-        self.add_default_value('strides', (1, 1))
-        self.add_default_value('dilations', (1, 1))
+        self.add_default_value('pads', (0,) * (2 * rank))
+        self.add_default_value('strides', (1,) * rank)
+        self.add_default_value('dilations', (1,) * rank)
         self.add_default_value('auto_pad', None)
 
+    def _get_pads(self, xshape):
+        """begin pads, then end pads of the spatial dimensions"""
+        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
+            return _auto_pads(self.auto_pad, xshape[2:], self.kernel_shape, self.strides, self.dilations)
+        return list(self.pads)
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            outshape = inshape[:2]
-            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                outshape += (_auto_pad_same_shape_calc(inshape[2], self.strides[0]),)
-                if len(self.strides) == 2:
-                    outshape += [_auto_pad_same_shape_calc(inshape[3], self.strides[1]), ]
-            elif self.auto_pad == b'VALID':
-                outshape += [_auto_pad_valid_shape_calc(inshape[2], self.kernel_shape[0], self.strides[0]), ]
-                if len(self.strides) == 2:
-                    outshape += [_auto_pad_valid_shape_calc(inshape[3], self.kernel_shape[1], self.strides[1]), ]
-        else:
-            if len(self.kernel_shape) == 1:
-                outshape = inshape[:2] + [
-                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[1], self.kernel_shape[0],
-                                        self.dilations[0],
-                                        self.strides[0], self.ceil_mode), ]
-            if len(self.kernel_shape) == 2:
-                outshape = inshape[:2] + [
-                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[2], self.kernel_shape[0],
-                                        self.dilations[0],
-                                        self.strides[0],
-                                        self.ceil_mode),
-                    _pooling_shape_calc(inshape[3], self.pads[1] + self.pads[3], self.kernel_shape[1],
-                                        self.dilations[1],
-                                        self.strides[1],
-                                        self.ceil_mode),
-                ]
-            if len(self.kernel_shape) == 3:
-                outshape = inshape[:2] + [
-                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[0], self.kernel_shape[0],
-                                        self.dilations[0],
-                                        self.strides[0],
-                                        self.ceil_mode),
-                    _pooling_shape_calc(inshape[3], self.pads[1] + self.pads[1], self.kernel_shape[1],
-                                        self.dilations[1],
-                                        self.strides[1],
-                                        self.ceil_mode),
-                    _pooling_shape_calc(inshape[4], self.pads[2] + self.pads[2], self.kernel_shape[2],
-                                        self.dilations[1],
-                                        self.strides[2],
-                                        self.ceil_mode),
-                ]
+        rank = len(self.kernel_shape)
+        outshape = inshape[:2]
+        pads = self._get_pads(inshape)
+        for i in range(rank):
+            outshape.append(_pooling_shape_calc(inshape[2 + i], pads[i] + pads[i + rank], self.kernel_shape[i],
+                                                self.dilations[i], self.strides[i], self.ceil_mode))
         outtensors[0].update_shape(outshape)
         outtensors[0].update_dtype(intensors[0].dtype)
+        if len(outtensors) > 1:  # indices of MaxPool
+            outtensors[1].update_shape(list(outshape))
+            outtensors[1].update_dtype(numpy.int64)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outshape = outtensors[0].get_shape()
-- 
2.43.0


From b954040228d304be64d61840c3b5ed473983178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 037/205] fix: MaxPool evaluates negative inputs, dilations,
 auto_pad and any spatial rank

---
 onnx_tool/node.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 2204d19..0d58916 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1487,25 +1487,21 @@ class MaxPoolNode(PoolBase):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         self.shape_infer(intensors, outtensors)
-        ot = outtensors[0].get_numpy()
+        if len(outtensors) > 1:
+            raise NotImplementedError(f'this Node {self.op_type}-{self.name} does not evaluate indices')
+        x = intensors[0].get_numpy()
+        ot = numpy.zeros(outtensors[0].get_shape(), dtype=x.dtype)
+        pads = self._get_pads(xshape)
         for i in numpy.ndindex(ot.shape):
-            batch = i[0]
-            ocn = i[1]
-            oh = i[2]
-            ow = i[3]
-            t = ot[i]
-            ks = tuple(self.kernel_shape)
-            for j in numpy.ndindex(ks):
-                kh = j[0]
-                kw = j[1]
-                srch = oh * self.strides[0] + kh - self.pads[0]
-                srcw = ow * self.strides[1] + kw - self.pads[1]
-                if srch < 0 or srch >= xshape[2] or srcw < 0 or srcw >= xshape[3]:
+            t = None
+            for j in numpy.ndindex(tuple(self.kernel_shape)):
+                src = tuple(i[2 + k] * self.strides[k] + j[k] * self.dilations[k] - pads[k] for k in range(len(j)))
+                if any(p < 0 or p >= dim for p, dim in zip(src, xshape[2:])):
                     continue
-                else:
-                    srcv = intensors[0].get_numpy()[batch, ocn, srch, srcw]
-                t = max(srcv, t)
+                srcv = x[i[:2] + src]
+                t = srcv if t is None else max(srcv, t)
             ot[i] = t
+        outtensors[0].update_tensor(ot)
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From b935c8164cb7d8904745781df01a31e4b18bb45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 038/205] fix: GlobalAveragePool keeps the reduced spatial
 dimensions and the element type

---
 onnx_tool/node.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 0d58916..1ceab6b 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1531,16 +1531,7 @@ class GlobalAveragePoolNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        h = x.shape[2]
-        w = x.shape[3]
-        y = numpy.zeros(x.shape[:2], dtype=numpy.float32)
-        for i in numpy.ndindex(y.shape):
-            t = 0
-            for j in numpy.ndindex((h, w)):
-                xi = i + j
-                t += x[xi]
-            t /= (h * w)
-            y[i] = t
+        y = numpy.mean(x, axis=tuple(range(2, x.ndim)), keepdims=True).astype(x.dtype)
         outtensors[0].update_tensor(y)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 6499dc81f9c5cbca4610c8d6616300d4c1ce0250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 039/205] fix: ConvTranspose defaults cover three spatial
 dimensions

---
 onnx_tool/node.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1ceab6b..1920e4b 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2593,10 +2593,10 @@ class ConvIntegerNode(ConvNode):
 class ConvTransposeNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('pads', (0, 0, 0, 0))
+        self.add_default_value('pads', (0, 0, 0, 0, 0, 0))
         self.add_default_value('output_padding', (0, 0, 0, 0))
-        self.add_default_value('strides', (1, 1))
-        self.add_default_value('dilations', (1, 1))
+        self.add_default_value('strides', (1, 1, 1))
+        self.add_default_value('dilations', (1, 1, 1))
         self.add_default_value('output_shape', (0, 0))
         self.add_default_value('group', 1)
 
-- 
2.43.0


From b0237779d62f1c6ba1b586de0b5a24ecdc65201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 040/205] fix: GRU accepts a single output

---
 onnx_tool/node.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1920e4b..b928519 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2714,8 +2714,9 @@ class GRUNode(Node):
         h_len = wshape[1] // 3
         outtensors[0].update_shape([seq_len, num_dir, batch, h_len])
         outtensors[0].update_dtype(intensors[0].dtype)
-        outtensors[1].update_shape([num_dir, batch, h_len])
-        outtensors[1].update_dtype(intensors[0].dtype)
+        if len(outtensors) > 1:
+            outtensors[1].update_shape([num_dir, batch, h_len])
+            outtensors[1].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-- 
2.43.0


From 414f62cd3a640cd5e12940a1904954a83fb5800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 041/205] fix: QuantizeLinear without a zero point produces
 uint8

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b928519..68380b1 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2484,7 +2484,8 @@ class QuantizeLinearNode(PWNode):
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
-        outtensors[0].update_dtype(intensors[2].dtype)
+        has_zero = len(intensors) > 2 and intensors[2].name != ''
+        outtensors[0].update_dtype(intensors[2].dtype if has_zero else numpy.uint8)
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 4c2d4823e6d835983d7f67d72b79be6f5012efb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 042/205] fix: Expand broadcasts zero dimensions and refuses
 incompatible shapes

---
 onnx_tool/node.py | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 68380b1..12f2541 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1548,25 +1548,7 @@ class ExpandNode(Node):
         expandshape = intensors[1].get_numpy().tolist()
         if not isinstance(expandshape, list):
             expandshape = [expandshape, ]
-        # Ensure both shapes have the same rank by prepending 1s to the shorter one.
-        xshape = list(xshape)
-        expandshape = list(expandshape)
-        if len(xshape) < len(expandshape):
-            xshape = [1] * (len(expandshape) - len(xshape)) + xshape
-        elif len(expandshape) < len(xshape):
-            expandshape = [1] * (len(xshape) - len(expandshape)) + expandshape
-
-        yshape = []
-        for x, e in zip(xshape, expandshape):
-            try:
-                xi = int(x)
-            except Exception:
-                xi = x
-            try:
-                ei = int(e)
-            except Exception:
-                ei = e
-            yshape.append(max(xi, ei))
+        yshape = _broadcast_shape([xshape, [int(v) for v in expandshape]])
         outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From 37a08729407882aa77dea1097b43b5b894577e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 043/205] fix: pooling in ceil mode ignores windows which start
 in the end padding

---
 onnx_tool/node.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 12f2541..6457513 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -74,10 +74,14 @@ def _auto_pads(auto_pad, xshape, kshape, strides, dilations):
     return begins + ends
 
 
-def _pooling_shape_calc(inshape, pad, kshape, dilation, stride, ceilmode):
+def _pooling_shape_calc(inshape, pad, kshape, dilation, stride, ceilmode, padbegin=0):
     outshape = (inshape + pad - ((kshape - 1) * dilation + 1)) / stride + 1
     if ceilmode:
-        return math.ceil(outshape)
+        outshape = math.ceil(outshape)
+        # windows which would start behind the input and its begin padding are ignored
+        if (outshape - 1) * stride >= inshape + padbegin:
+            outshape -= 1
+        return outshape
     return math.floor(outshape)
 
 
@@ -1455,7 +1459,7 @@ class PoolBase(Node):
         pads = self._get_pads(inshape)
         for i in range(rank):
             outshape.append(_pooling_shape_calc(inshape[2 + i], pads[i] + pads[i + rank], self.kernel_shape[i],
-                                                self.dilations[i], self.strides[i], self.ceil_mode))
+                                                self.dilations[i], self.strides[i], self.ceil_mode, pads[i]))
         outtensors[0].update_shape(outshape)
         outtensors[0].update_dtype(intensors[0].dtype)
         if len(outtensors) > 1:  # indices of MaxPool
-- 
2.43.0


From 8add5ad34cc9978abc56011d60b8c30169cec0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 044/205] fix: pooling counts every kernel dimension

---
 onnx_tool/node.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 6457513..bd76995 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1469,9 +1469,7 @@ class PoolBase(Node):
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outshape = outtensors[0].get_shape()
         outvol = volume(outshape)
-        macs = outvol * CMP_MACS * self.kernel_shape[0]
-        if len(self.kernel_shape) == 2:
-            macs *= self.kernel_shape[1]
+        macs = outvol * CMP_MACS * volume(self.kernel_shape)
         return macs
 
 
-- 
2.43.0


From 96fc95662030d50a22b302aa1fba3df78cbe5845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 045/205] fix: ConvTranspose MACs reduce over the input
 channels

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index bd76995..b62f73a 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2629,8 +2629,8 @@ class ConvTransposeNode(Node):
             if len(intensors) == 3 or len(intensors) == 2:
                 kernel_shape = intensors[1].get_shape()
                 outvol = volume(outtensors[0].get_shape())
-                reduce_shape = kernel_shape[1:]
-                reduce_vol = volume(reduce_shape)
+                # the weight layout is (C, M/group, k...): C/group channels reduce into an output element
+                reduce_vol = kernel_shape[0] // self.group * volume(kernel_shape[2:])
                 macs += outvol * reduce_vol * MUL_MACS
                 if len(intensors) > 2:
                     macs += (outvol * ADD_MACS)
-- 
2.43.0


From 18b1f08e99aa7ea3389015963eb5704d8aa54818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 046/205] fix: Resize honours its axes attribute and defaults
 to nearest mode

---
 onnx_tool/node.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b62f73a..229de13 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1385,6 +1385,16 @@ class ShapeNode(Node):
 
 @NODE_REGISTRY.register()
 class ResizeNode(Node):
+    def __init__(self, n):
+        super().__init__(n)
+        self.add_default_value('mode', b'nearest')
+        self.add_default_value('axes', None)
+
+    def _get_axes(self, xshape):
+        if self.axes is not None:
+            return _axes_neg2pos(len(xshape), self.axes)
+        return list(range(len(xshape)))
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         roi = []
@@ -1401,13 +1411,14 @@ class ResizeNode(Node):
         if is_valid_ndarray(sizes):
             if len(sizes) == len(xshape):
                 newshape = sizes
-            if len(sizes) == 2:
-                newshape = xshape[:2] + sizes
+            else:
+                newshape = numpy.array(xshape)
+                newshape[self._get_axes(xshape)] = sizes
         else:
             if is_valid_ndarray(scales):
-                newshape = []
-                for src, scale in zip(xshape, scales):
-                    newshape.append(math.floor(src * scale))
+                newshape = list(xshape)
+                for axis, scale in zip(self._get_axes(xshape), scales):
+                    newshape[axis] = math.floor(xshape[axis] * scale)
 
         if is_valid_ndarray(newshape):
             if newshape.dtype != numpy.int64:
-- 
2.43.0


From 758bc6b82aee2e1f33f27ada7f9a795c1f6f769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 047/205] fix: uint32 and uint64 element types are known

---
 onnx_tool/tensor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index f773fde..11fa889 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -53,6 +53,10 @@ def onnxdtype2npdtype(data_type):
         return numpy.uint8
     if data_type == onnx.TensorProto.UINT16:
         return numpy.uint16
+    if data_type == onnx.TensorProto.UINT32:
+        return numpy.uint32
+    if data_type == onnx.TensorProto.UINT64:
+        return numpy.uint64
     if data_type == onnx.TensorProto.BOOL:
         return numpy.bool_
     if data_type == onnx.TensorProto.STRING:
@@ -82,6 +86,10 @@ def npdtype2onnxdtype(npdtype):
         return onnx.TensorProto.UINT8
     if npdtype == numpy.uint16:
         return onnx.TensorProto.UINT16
+    if npdtype == numpy.uint32:
+        return onnx.TensorProto.UINT32
+    if npdtype == numpy.uint64:
+        return onnx.TensorProto.UINT64
     if npdtype == numpy.bool_:
         return onnx.TensorProto.BOOL
     if npdtype == numpy.bytes_:
-- 
2.43.0


From 73cb2098124f822bfedf541522b39024ad962a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 048/205] fix: tensors of small integer, bool and unsigned
 types are decoded from their typed data field

---
 onnx_tool/tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 11fa889..8e85c53 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -120,6 +120,10 @@ def tensorproto2ndarray(initial):
 
         elif ndtype == numpy.float64:
             arr = numpy.fromiter(initial.double_data, dtype=ndtype)
+        elif ndtype in (numpy.int8, numpy.uint8, numpy.int16, numpy.uint16, numpy.bool_):
+            arr = numpy.fromiter(initial.int32_data, dtype=numpy.int32).astype(ndtype)
+        elif ndtype in (numpy.uint32, numpy.uint64):
+            arr = numpy.fromiter(initial.uint64_data, dtype=numpy.uint64).astype(ndtype)
         elif ndtype == numpy.bytes_:
             arr = numpy.array(initial.string_data, dtype=ndtype)
     else:
-- 
2.43.0


From 86e5c34abcc23a09e2c1a2b9b0286ecdbaa328d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 049/205] fix: tensors of an unsupported element type are
 refused instead of decoded as other values

---
 onnx_tool/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 8e85c53..a46fb37 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -101,6 +101,8 @@ def npdtype2onnxdtype(npdtype):
 def tensorproto2ndarray(initial):
     shape = shape_of_initializer(initial)
     ndtype = onnxdtype2npdtype(initial.data_type)
+    if ndtype is None:
+        raise NotImplementedError(f'tensor {initial.name} has an unsupported element type {initial.data_type}')
     if initial.raw_data == b'':
         arr = numpy.zeros(shape, ndtype).reshape((-1))
         if ndtype == numpy.float32:
-- 
2.43.0


From 56118d02ffb731e648209d56c078010fa7e71bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 050/205] fix: axes inputs of every reduction and of Pad are
 evaluated during shape inference

---
 onnx_tool/graph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 80de650..ef4b822 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -30,13 +30,17 @@ _SHAPE_TENSORS = {
     'Range': ('0,1,2of3',),
     'OneHot': ('1of3',),
     'TopK': ('1of2',),
-    'Pad': ('1of2', '1of3',),
+    'Pad': ('1of2', '1of3', '1,3of4'),
     'NonMaxSuppression': ('2of5', '2of4'),
     'Split': ('1of2',),
     'Unsqueeze': ('1of2',),
     'Squeeze': ('1of2',),
     'ReduceSum': ('1of2',),
-    'ReduceMean': ('1of2',)
+    'ReduceMean': ('1of2',),
+    'ReduceMax': ('1of2',),
+    'ReduceMin': ('1of2',),
+    'ReduceProd': ('1of2',),
+    'ReduceL2': ('1of2',),
 }
 
 
-- 
2.43.0


From 77029452c88442e16874b5b08fa432aff471391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 051/205] fix: constant folding keeps operators it cannot
 evaluate

---
 onnx_tool/graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index ef4b822..b9794e5 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -300,7 +300,12 @@ class Graph():
                         otensors = []
                         for output in this_node.output:
                             otensors.append(self.tensormap[output])
-                        this_node.value_infer(itensors, otensors)
+                        try:
+                            this_node.value_infer(itensors, otensors)
+                        except NotImplementedError:
+                            # an operator without value evaluation stays in the graph
+                            this_node.constant = False
+                            continue
                         if len(otensors) > 0:
                             for i, output in enumerate(this_node.output):
                                 self.tensormap[output].type = STATIC_TENSOR
-- 
2.43.0


From 0cf57bd048971e4e36e2df677530ae55209181fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 052/205] fix: saved nodes keep their operator domain and empty
 list attributes

---
 onnx_tool/node.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 229de13..e68aaf7 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -238,7 +238,22 @@ class Node():
             setattr(self, attname, defaultvalue)
 
     def make_nodeproto(self):
-        return onnx.helper.make_node(self.op_type, self.input, self.output, self.name, **self.attr)
+        node = onnx.helper.make_node(self.op_type, self.input, self.output, self.name,
+                                     domain=getattr(self.proto, 'domain', ''))
+        raw_types = {}
+        if isinstance(self.proto, onnx.NodeProto):
+            raw_types = {att.name: att.type for att in self.proto.attribute}
+        for key in sorted(self.attr):
+            val = self.attr[key]
+            if val is None:
+                continue
+            if isinstance(val, (list, tuple)) and len(val) == 0:
+                # the type of an empty list is only known from the raw attribute
+                node.attribute.append(onnx.helper.make_attribute(key, val, attr_type=raw_types.get(
+                    key, onnx.AttributeProto.INTS)))
+            else:
+                node.attribute.append(onnx.helper.make_attribute(key, val))
+        return node
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         self.value_infer(intensors, outtensors)
-- 
2.43.0


From 7583c335f245d91cf6ec174cb71fc8761d34c477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 053/205] fix: graph inputs keep their order

---
 onnx_tool/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index b9794e5..e46581f 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -264,6 +264,10 @@ class Graph():
                     if tensor not in self.consumedby or len(self.consumedby[tensor]) == 0:
                         if tensor not in self.output:
                             self.output.append(tensor)
+        if self.rawgraph is not None:
+            # list the inputs in the order of the raw graph
+            raworder = {v.name: i for i, v in enumerate(self.rawgraph.input)}
+            self.input.sort(key=lambda t: raworder.get(t, len(raworder)))
         self.__update_consumer_producer__()
         self.log(f'Update Nodes Tensors  Time Elapsed {tm.stop()}')
 
-- 
2.43.0


From 884db7750f380633d2862470ded577cf1b10d037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 054/205] fix: saved graphs do not turn unused weights into
 inputs

---
 onnx_tool/graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index e46581f..7731827 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -893,9 +893,14 @@ class Graph():
             else:
                 inputs.append(onnx.helper.make_tensor_value_info(name, 1, None))
         # 把没有 numpy 数据的 initializer 也作为 graph input（保留 shape 信息）
+        consumed_names = set()
+        for name in nodenames:
+            consumed_names.update(self.nodemap[name].input)
         for name in self.initials:
             if name in initializer_names:
                 continue  # 已有 numpy 数据，作为 initializer 导出
+            if name not in consumed_names:
+                continue  # a weight these nodes do not use is no input of theirs
             if name in self.tensormap:
                 proto = self.tensormap[name].make_value_proto(make_dummy=True)
                 if proto is not None:
-- 
2.43.0


From e3586c81d50a18b5515d35777bf31428d8da45ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 055/205] fix: weights used inside control flow bodies are
 saved

---
 onnx_tool/graph.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 7731827..ae72f82 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -44,6 +44,21 @@ _SHAPE_TENSORS = {
 }
 
 
+def _captured_tensors(g):
+    # names which a subgraph (If branch, Loop body) takes from the graph around it
+    own = {v.name for v in g.input} | {v.name for v in g.initializer}
+    for n in g.node:
+        own.update(n.output)
+    names = []
+    for n in g.node:
+        names.extend(n.input)
+        for att in n.attribute:
+            if att.type == onnx.AttributeProto.GRAPH:
+                names.extend(_captured_tensors(att.g))
+    names.extend(o.name for o in g.output)
+    return [name for name in names if name not in own]
+
+
 def _contains_shape_tensor(n):
     nodeset = _SHAPE_TENSORS.keys()
     shape_tensors = []
@@ -640,7 +655,11 @@ class Graph():
         initializer = []
         enqueued = []
         for name in nodenames:
-            for input in self.nodemap[name].input:
+            inputs = list(self.nodemap[name].input)
+            for val in self.nodemap[name].attr.values():
+                if isinstance(val, onnx.GraphProto):
+                    inputs.extend(_captured_tensors(val))
+            for input in inputs:
                 if input in self.initials and input not in enqueued:
                     proto = self.tensormap[input].make_tensor_proto()
                     if proto is not None:
-- 
2.43.0


From 45a52babf909b77d6e9029a92afb11a9ed4fd037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 056/205] fix: scalar and unknown dimensions survive saving

---
 onnx_tool/tensor.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index a46fb37..a06c5c3 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -489,7 +489,15 @@ class Tensor():
     def make_value_proto(self, make_dummy=False):
         shape = self.get_shape()
         if len(self.shape) == 0:
-            shape = None
+            # no dimension means unknown shape unless the tensor is known to be a scalar
+            known = self.numpy is not None
+            if isinstance(self.proto, onnx.ValueInfoProto):
+                known = self.proto.type.tensor_type.HasField('shape')
+            if not known:
+                shape = None
+        else:
+            # -1 is the placeholder of an unknown dimension
+            shape = [None if not isinstance(v, str) and v < 0 else v for v in shape]
         if self.numpy is None:
             dtype = npdtype2onnxdtype(self.dtype)
         else:
-- 
2.43.0


From 5f0c0c32828b1348b25c94221692191ce1a8bf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 057/205] fix: constant folding keeps graph outputs which are
 constant

---
 onnx_tool/graph.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index ae72f82..a489ada 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -232,6 +232,10 @@ class Graph():
                 self.nodemap.pop(key)
 
         if constant_folding:
+            for tname in self.output:
+                # a folded graph output is a constant of the saved model
+                if self.tensormap[tname].type == STATIC_TENSOR and tname not in self.initials:
+                    self.initials.append(tname)
             for name in self.nodemap.keys():
                 for tname in self.nodemap[name].input:
                     if self.tensormap[tname].type == STATIC_TENSOR:
@@ -896,6 +900,11 @@ class Graph():
         initializer = None
         if with_initializer:
             initializer = self.get_initials_from_nodenames(nodenames)
+            for name in outputnames:
+                if name in self.initials and name not in [proto.name for proto in initializer]:
+                    proto = self.tensormap[name].make_tensor_proto()
+                    if proto is not None:
+                        initializer.append(proto)
 
         inputs = []
         outputs = []
-- 
2.43.0


From de6c6dccf83bc57db4dbe86cf315fc56ea6a30f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 058/205] fix: Softmax and Softplus do not overflow for large
 values

---
 onnx_tool/node.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e68aaf7..8ba4f74 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -460,7 +460,10 @@ class SoftmaxNode(ExpNode):
         self.add_default_value('axis', -1)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xexp = numpy.exp(intensors[0].get_numpy())
+        x = intensors[0].get_numpy()
+        if x.size:
+            x = x - x.max(axis=self.axis, keepdims=True)  # large values must not overflow
+        xexp = numpy.exp(x)
         result = xexp / numpy.sum(xexp, axis=self.axis, keepdims=True)
         outtensors[0].update_tensor(result)
 
@@ -474,9 +477,8 @@ class SoftplusNode(ExpNode):
         self.ratio = 1
 
     def value_infer(self, intensors: list[Tensor], outtensors: list[Tensor]):
-        # Can overflow to inf if intensor is too large,
-        # but we don't need precise inference anyway so maybe its good enough.
-        result = numpy.log1p(numpy.exp(intensors[0].get_numpy()))
+        x = intensors[0].get_numpy()
+        result = numpy.logaddexp(x, numpy.zeros_like(x))
         outtensors[0].update_tensor(result)
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From cb9423d144afd2f8d0257e111eaa3f4da90df824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 059/205] fix: omitted optional inputs and outputs are not
 connections between nodes

---
 onnx_tool/graph.py | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index a489ada..be7d7af 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -238,6 +238,8 @@ class Graph():
                     self.initials.append(tname)
             for name in self.nodemap.keys():
                 for tname in self.nodemap[name].input:
+                    if tname == '':
+                        continue
                     if self.tensormap[tname].type == STATIC_TENSOR:
                         if tname not in self.initials:
                             self.initials.append(tname)
@@ -245,7 +247,7 @@ class Graph():
                         if tname not in self.dynamics:
                             self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
-                    if tname not in self.dynamics:
+                    if tname != '' and tname not in self.dynamics:
                         self.dynamics.append(tname)
         else:
             for initial in self.rawgraph.initializer:
@@ -253,13 +255,13 @@ class Graph():
             self.dynamics.extend(self.input)
             for name in self.nodemap.keys():
                 for tname in self.nodemap[name].input:
-                    if tname not in self.initials and tname not in self.dynamics:
+                    if tname != '' and tname not in self.initials and tname not in self.dynamics:
                         self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
-                    if tname not in self.dynamics:
+                    if tname != '' and tname not in self.dynamics:
                         self.dynamics.append(tname)
 
-        valid_tensors = []
+        valid_tensors = ['']
         valid_tensors.extend(self.initials)
         valid_tensors.extend(self.dynamics)
         rm_list = []
@@ -280,7 +282,7 @@ class Graph():
                         self.input.append(tensor)
             if not self.cfg.remove_dangling:
                 for tensor in node.output:
-                    if tensor not in self.consumedby or len(self.consumedby[tensor]) == 0:
+                    if tensor != '' and (tensor not in self.consumedby or len(self.consumedby[tensor]) == 0):
                         if tensor not in self.output:
                             self.output.append(tensor)
         if self.rawgraph is not None:
@@ -322,7 +324,7 @@ class Graph():
                                 warnings.warn(f'Tensor {input} has shape only, {name} may has wrong value infer result')
                         otensors = []
                         for output in this_node.output:
-                            otensors.append(self.tensormap[output])
+                            otensors.append(self.tensormap[output] if output != '' else Tensor(''))
                         try:
                             this_node.value_infer(itensors, otensors)
                         except NotImplementedError:
@@ -350,10 +352,14 @@ class Graph():
         for name in self.nodemap:
             node = self.nodemap[name]
             for tensor in node.input:
+                if tensor == '':  # an omitted optional input
+                    continue
                 if tensor not in self.consumedby:
                     self.consumedby[tensor] = []
                 self.consumedby[tensor].append(node.name)
             for tensor in node.output:
+                if tensor == '':  # an omitted optional output
+                    continue
                 if tensor not in self.producedby:
                     self.producedby[tensor] = []
                 self.producedby[tensor].append(node.name)
@@ -451,18 +457,22 @@ class Graph():
             newnode.name = newnode.op_type + '_' + str(self.node_count)
         self.node_count += 1
         for tensor in node_proto.input:
+            newnode.input.append(tensor)
+            if tensor == '':
+                continue
             if tensor in self.producedby:
                 for producer in self.producedby[tensor]:
                     newnode.prevnodes.append(self.nodemap[producer])
             if tensor not in self.consumedby:
                 self.consumedby[tensor] = []
             self.consumedby[tensor].append(newnode.name)
-            newnode.input.append(tensor)
         for tensor in node_proto.output:
+            newnode.output.append(tensor)
+            if tensor == '':
+                continue
             if tensor not in self.producedby:
                 self.producedby[tensor] = []
             self.producedby[tensor].append(newnode.name)
-            newnode.output.append(tensor)
         self.nodemap[newnode.name] = newnode
 
     def __init_graph_from_onnxproto__(self, g, noderename):
@@ -479,18 +489,22 @@ class Graph():
                 newnode.name = newnode.op_type + '_' + str(self.node_count)
             self.node_count += 1
             for tensor in node.input:
+                newnode.input.append(tensor)
+                if tensor == '':  # an omitted optional input
+                    continue
                 if tensor in self.producedby:
                     for producer in self.producedby[tensor]:
                         newnode.prevnodes.append(self.nodemap[producer])
                 if tensor not in self.consumedby:
                     self.consumedby[tensor] = []
                 self.consumedby[tensor].append(newnode.name)
-                newnode.input.append(tensor)
             for tensor in node.output:
+                newnode.output.append(tensor)
+                if tensor == '':  # an omitted optional output
+                    continue
                 if tensor not in self.producedby:
                     self.producedby[tensor] = []
                 self.producedby[tensor].append(newnode.name)
-                newnode.output.append(tensor)
 
             self.nodemap[newnode.name] = newnode
 
@@ -965,7 +979,8 @@ class Graph():
         for name in node_names:
             node = self.nodemap[name]
             for tname in node.output:
-                produced_by[tname] = name
+                if tname != '':
+                    produced_by[tname] = name
 
         consumed_by = {}
         dependencies = {}
@@ -1030,6 +1045,8 @@ class Graph():
                     intensors.append(input)
 
             for output in self.nodemap[name].output:
+                if len(output) == 0:
+                    continue
                 if remove_initials and output in self.initials:
                     continue
                 if output in self.consumedby:
@@ -1087,7 +1104,7 @@ class Graph():
                 itensors.append(self.tensormap[input])
             otensors = []
             for output in node.output:
-                otensors.append(self.tensormap[output])
+                otensors.append(self.tensormap[output] if output != '' else Tensor(''))
             try:
                 if node.shape_calc:
                     node.value_infer(itensors, otensors)
@@ -1112,7 +1129,7 @@ class Graph():
                 itensors.append(self.tensormap[input])
             otensors = []
             for output in node.output:
-                otensors.append(self.tensormap[output])
+                otensors.append(self.tensormap[output] if output != '' else Tensor(''))
             node.value_infer(itensors, otensors)
         outputs = []
         for output in self.output:
-- 
2.43.0


From 7d4c1aae5450ddcfd0e4d13e7e1ff466c5ab3b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 060/205] fix: string tensors and NaN payloads survive
 re-encoding

---
 onnx_tool/tensor.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index a06c5c3..b1d27fa 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -92,9 +92,7 @@ def npdtype2onnxdtype(npdtype):
         return onnx.TensorProto.UINT64
     if npdtype == numpy.bool_:
         return onnx.TensorProto.BOOL
-    if npdtype == numpy.bytes_:
-        return onnx.TensorProto.STRING
-    if npdtype == numpy.bytes_:
+    if numpy.dtype(npdtype).kind in 'SUO':
         return onnx.TensorProto.STRING
 
 
@@ -127,7 +125,9 @@ def tensorproto2ndarray(initial):
         elif ndtype in (numpy.uint32, numpy.uint64):
             arr = numpy.fromiter(initial.uint64_data, dtype=numpy.uint64).astype(ndtype)
         elif ndtype == numpy.bytes_:
-            arr = numpy.array(initial.string_data, dtype=ndtype)
+            # numpy's fixed-width bytes would drop trailing zero bytes
+            arr = numpy.empty(len(initial.string_data), dtype=object)
+            arr[:] = list(initial.string_data)
     else:
         arr = numpy.frombuffer(initial.raw_data, dtype=ndtype)
     # if len(shape):
@@ -511,18 +511,15 @@ class Tensor():
     def make_tensor_proto(self):
         if self.numpy is None:
             return None
-        if len(self.numpy.shape) == 0:
-            tproto = onnx.helper.make_tensor(self.name, npdtype2onnxdtype(self.numpy.dtype)
-                                             , [], [self.numpy.item()])
+        if self.numpy.dtype.kind in 'SUO':
+            tproto = onnx.TensorProto()
+            tproto.name = self.name
+            tproto.data_type = onnx.TensorProto.STRING
+            tproto.dims.extend(self.numpy.shape)
+            tproto.string_data.extend([v.encode() if isinstance(v, str) else v for v in self.numpy.flatten().tolist()])
         else:
-            if self.numpy.dtype not in [numpy.float32, numpy.int32]:
-                raw = True
-                data = self.numpy.tobytes()
-            else:
-                raw = False
-                data = self.numpy.flatten()
             tproto = onnx.helper.make_tensor(self.name, npdtype2onnxdtype(self.numpy.dtype)
-                                             , self.numpy.shape, data, raw=raw)
+                                             , self.numpy.shape, self.numpy.tobytes(), raw=True)
         return tproto
 
 
-- 
2.43.0


From e17afa22acb72b05dc37079165df2dc3d3761126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 061/205] fix: sparse initializers are decoded instead of lost

---
 onnx_tool/graph.py  |  6 +++++-
 onnx_tool/tensor.py | 11 +++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index be7d7af..28500bd 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -7,7 +7,7 @@ import onnx
 
 from .node import create_node
 from .tensor import STATIC_TENSOR, DYNAMIC_TENSOR
-from .tensor import get_attribute_data, Tensor, volume
+from .tensor import get_attribute_data, sparsetensorproto2ndarray, Tensor, volume
 from .utils import VERSION, tuple2str, ModelConfig, print_table, num2str
 
 
@@ -516,6 +516,10 @@ class Graph():
             tensor = Tensor(initial)
             self.tensormap[initial.name] = tensor
 
+        for initial in g.sparse_initializer:
+            # hold sparse weights as dense ones
+            self.add_initial(initial.values.name, sparsetensorproto2ndarray(initial))
+
         for input in g.input:
             if input.name not in self.tensormap.keys():
                 self.tensormap[input.name] = Tensor(input)
diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index b1d27fa..a4ebb88 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -135,6 +135,17 @@ def tensorproto2ndarray(initial):
     return arr
 
 
+def sparsetensorproto2ndarray(sparse):
+    values = tensorproto2ndarray(sparse.values)
+    indices = tensorproto2ndarray(sparse.indices)
+    arr = numpy.zeros(list(sparse.dims), dtype=values.dtype)
+    if len(indices.shape) == 2:
+        arr[tuple(indices.T)] = values
+    else:
+        arr.reshape(-1)[indices] = values
+    return arr
+
+
 def get_attribute_data(att):
     if att.type == att.INTS:
         val = []
-- 
2.43.0


From f0e304121bbc498ec849a97fa89f5077656adceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 062/205] fix: MACs of MatMul with vectors, MatMulInteger and
 Gemm with an omitted bias

---
 onnx_tool/node.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8ba4f74..6e77666 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -976,18 +976,17 @@ class GemmNode(Node):
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         yshape = outtensors[0].get_shape()
         if len(intensors) >= 2:
-            weight_shape = intensors[1].get_shape()
-            macs = volume(yshape)
+            a_shape = intensors[0].get_shape()
+            macs = math.prod(yshape)  # the product of two vectors is a scalar
             if self.__class__ == GemmNode:
-                if self.transB > 0:
-                    macs *= weight_shape[-1]
+                if self.transA > 0:
+                    macs *= a_shape[-2]
                 else:
-                    macs *= weight_shape[-2]
+                    macs *= a_shape[-1]
+                if len(intensors) > 2 and intensors[2].name != '':
+                    macs += volume(yshape) * ADD_MACS
             else:
-                if len(weight_shape) > 1:
-                    macs *= weight_shape[-2]
-            if len(intensors) == 3:
-                macs += volume(yshape) * ADD_MACS
+                macs *= a_shape[-1]
         else:
             raise NotImplementedError()
         return macs
@@ -2539,7 +2538,7 @@ class QLinearMatMulNode(GemmNode):
         outtensors[0].update_tensor(numpy.clip(y, info.min, info.max).astype(y_zero.dtype))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        return volume(outtensors[0].get_shape()) * intensors[0].get_shape()[-1]
+        return math.prod(outtensors[0].get_shape()) * intensors[0].get_shape()[-1]
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From c8a9a3becb8094d76c1b94f59638c208bb7211eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 063/205] fix: MACs of 3-D quantized convolutions and of
 convolutions with an omitted bias

---
 onnx_tool/node.py | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 6e77666..9f56910 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2175,7 +2175,7 @@ class ConvNode(Node):
                 reduce_shape = kernel_shape[1:]
                 reduce_vol = volume(reduce_shape)
                 macs += outvol * reduce_vol * MUL_MACS
-                if len(intensors) > 2:
+                if len(intensors) > 2 and intensors[2].name != '':
                     macs += (outvol * ADD_MACS)
         return macs
 
@@ -2558,16 +2558,9 @@ class QLinearConvNode(ConvNode):
         outshape = outtensors[0].get_shape()
         if len(outtensors) == 1:
             kernel_shape = intensors[3].get_shape()
-            if len(kernel_shape) > 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2] * kernel_shape[3]
-            elif len(kernel_shape) == 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2]
-            else:
-                outvol = 0
-                raise NotImplementedError()
-            if len(intensors) == 9:
+            outvol = volume(outshape)
+            macs += outvol * volume(kernel_shape[1:])
+            if len(intensors) == 9 and intensors[8].name != '':
                 macs += (outvol * ADD_MACS)
         return macs
 
@@ -2589,15 +2582,7 @@ class ConvIntegerNode(ConvNode):
         outshape = outtensors[0].get_shape()
         if len(outtensors) == 1:
             kernel_shape = intensors[1].get_shape()
-            if len(kernel_shape) > 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2] * kernel_shape[3]
-            elif len(kernel_shape) == 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2]
-            else:
-                outvol = 0
-                raise NotImplementedError()
+            macs += volume(outshape) * volume(kernel_shape[1:])
         return macs
 
 
@@ -2659,7 +2644,7 @@ class ConvTransposeNode(Node):
                 # the weight layout is (C, M/group, k...): C/group channels reduce into an output element
                 reduce_vol = kernel_shape[0] // self.group * volume(kernel_shape[2:])
                 macs += outvol * reduce_vol * MUL_MACS
-                if len(intensors) > 2:
+                if len(intensors) > 2 and intensors[2].name != '':
                     macs += (outvol * ADD_MACS)
         return macs
 
-- 
2.43.0


From d14b2fd8297d697889d9cced514c28a4ccd53572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 064/205] fix: MACs of Einsum with an ellipsis or with one or
 three operands

---
 onnx_tool/node.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 9f56910..e23bf61 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1311,16 +1311,20 @@ class EinsumNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        macs = 1
-        map = {}
-        shape0 = intensors[0].get_shape()
-        shape1 = intensors[1].get_shape()
-        for i, v in enumerate(shape0):
-            map[self.input_labels[0].replace('.', '')[i]] = v
-        for i, v in enumerate(shape1):
-            map[self.input_labels[1].replace('.', '')[i]] = v
-        for key in map.keys():
-            macs *= map[key]
+        # one multiply-add per point of the index space and per product of two operands
+        macs = max(len(intensors) - 1, 1)
+        sizes = {}
+        for labels, tensor in zip(self.input_labels, intensors):
+            shape = tensor.get_shape()
+            head, _, tail = labels.partition('...')
+            keys = list(head)
+            # dimensions of the ellipsis are aligned from the right
+            keys += [f'...{i}' for i in range(len(shape) - len(head) - len(tail), 0, -1)]
+            keys += list(tail)
+            for key, v in zip(keys, shape):
+                sizes[key] = max(sizes.get(key, v), v)
+        for v in sizes.values():
+            macs *= v
         return macs
 
 
-- 
2.43.0


From 407aacead166c93174b87a18cc9e283e70451830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 065/205] fix: LayerNormalization MACs count all normalized
 dimensions

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e23bf61..ee18ca1 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2485,7 +2485,7 @@ class LayerNormalizationNode(Node):
         tshape = intensors[0].get_shape()
         axis = _axes_neg2pos(len(tshape), [self.axis])[0]
         vol = volume(tshape)
-        tshape[axis] = 1
+        tshape[axis:] = [1] * (len(tshape) - axis)  # all dimensions from axis on are normalized together
         vol2 = volume(tshape)
         return vol * (MUL_MACS * 3 + ADD_MACS * 4) + vol2 * (ADD_MACS + SQRT_MACS + DIV_MACS)
 
-- 
2.43.0


From 98be04d10e450beb266099b86327684c2c1089a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 066/205] fix: Min and Max with more than two inputs count one
 comparison per further input

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index ee18ca1..5f0bfd1 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -317,7 +317,6 @@ class NpMathBase(Node):
     def __init__(self, n):
         super().__init__(n)
         self.op_mac = ADD_MACS
-        self.ratio = max(1, len(self.input) - 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshapes = []
@@ -330,7 +329,8 @@ class NpMathBase(Node):
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outshape = outtensors[0].get_shape()
-        macs = volume(outshape) * self.ratio * self.op_mac
+        ratio = max(1, len(intensors) - 1)  # inputs are only known after the constructor
+        macs = volume(outshape) * ratio * self.op_mac
         return macs
 
 
-- 
2.43.0


From 5f4b3eadc1c8ac5cfa6c3b0c660bd5c742add351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 067/205] fix: LSTM and GRU MACs without bias and of
 bidirectional layers

---
 onnx_tool/node.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 5f0bfd1..66ee566 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2076,14 +2076,16 @@ class LSTMNode(Node):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         rshape = intensors[2].get_shape()
-        bshape = intensors[3].get_shape()
+        bvol = 0
+        if len(intensors) > 3 and intensors[3].name != '':
+            bvol = volume(intensors[3].get_shape())
         seq = xshape[0]
         batch = xshape[1]
         num_dir = wshape[0]
         h_len = wshape[1] // 4
         if self.hidden_size is not None:
             assert (h_len == self.hidden_size)
-        ht_size = volume([batch, seq, h_len])
+        ht_size = volume([num_dir, batch, seq, h_len])
         # ft = sig(W*X+U*Ht-1+B)
         # it = sig(W*X+U*Ht-1+B)
         # ot = sig(W*X+U*Ht-1+B)
@@ -2091,7 +2093,7 @@ class LSTMNode(Node):
         # ct = ft*Ct-1+it*ct'
         # ht = ot*tanh(ct)
         gemm_macs = (volume(wshape) + volume(rshape)) * batch * seq
-        gemm_bias_macs = volume(bshape) * ADD_MACS * batch * seq
+        gemm_bias_macs = bvol * ADD_MACS * batch * seq
         gemm_add_macs = ht_size * ADD_MACS * 4
         sig_macs = ht_size * EXP_MACS * 3
         tanh_macs = ht_size * TANH_MACS * 2
@@ -2723,17 +2725,20 @@ class GRUNode(Node):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         rshape = intensors[2].get_shape()
-        bshape = intensors[3].get_shape()
+        bvol = 0
+        if len(intensors) > 3 and intensors[3].name != '':
+            bvol = volume(intensors[3].get_shape())
         batch = xshape[1]
         seq = xshape[0]
+        num_dir = wshape[0]
         h_len = wshape[1] // 3
-        ht_size = volume([batch, seq, h_len])
+        ht_size = volume([num_dir, batch, seq, h_len])
         # r = sigmoid(Wr*X+Wr*Ht-1+br)
         # z = sigmoid(Wz*X+Wz*Ht-1+bz)
         # h' = tanh(W*X+W*(r*Ht-1)+bh)
         # Ht = (1-z)*Ht-1 + z*h'
         gemm_macs = (volume(wshape) + volume(rshape)) * batch * seq
-        gemm_bias_macs = volume(bshape) * ADD_MACS * batch * seq
+        gemm_bias_macs = bvol * ADD_MACS * batch * seq
         gemm_add_macs = ht_size * ADD_MACS * 3
         sig_macs = ht_size * EXP_MACS * 2
         tanh_macs = ht_size * TANH_MACS
-- 
2.43.0


From 5c598000cf935040928ba651f01341aac0caaabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 068/205] fix: node memory uses the element size of each output
 and weight, Gather of dynamic data has no static memory

---
 onnx_tool/graph.py | 15 ++++++++++++---
 onnx_tool/node.py  | 12 ++++++------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 28500bd..5cb74c0 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1497,6 +1497,14 @@ class Graph():
 
         return cg
 
+    def __memory_of_tensors__(self, count, tensors, default_names):
+        # a node may report fewer or more elements than its tensors hold, then all have the first tensor's element size
+        if count == sum(volume(t.get_shape()) for t in tensors):
+            return sum(t.get_memsize() for t in tensors)
+        if len(tensors) == 0:
+            tensors = [self.tensormap[name] for name in default_names]
+        return count * (tensors[0].get_elementsize() if len(tensors) else 4)
+
     def profile(self, exclude_ops = None):
         self.valid_profile = False
         if not self.valid_shape:
@@ -1530,9 +1538,10 @@ class Graph():
             macs = ret[0]
             # params: sum of all static input volumes (not deduped)
             _params = sum(volume(itensors[i].get_shape()) for i in node.static_inputs)
-            io_elesize = self.tensormap[node.output[0]].get_elementsize() if node.output else 4
-            static_elesize = self.tensormap[node.input[0]].get_elementsize() if node.input else 4
-            _memory = ret[1] * io_elesize + ret[2] * static_elesize
+            # outputs and weights of one node may differ in their element sizes
+            static_tensors = [itensors[i] for i in node.static_inputs]
+            _memory = self.__memory_of_tensors__(ret[1], otensors, node.output[:1])
+            _memory += self.__memory_of_tensors__(ret[2], static_tensors, node.input[:1])
             outshape = (0,)
             if len(node.output) > 0:
                 outshape = self.tensormap[node.output[0]].get_shape()
diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 66ee566..f8c14ea 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1026,13 +1026,13 @@ class GatherNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def profile(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        # Embedding lookup: only seq_len rows of the weight table are accessed
-        weight_shape = intensors[0].get_shape()
-        ids_shape = intensors[1].get_shape()
-        seq_tokens = volume(ids_shape)
-        hidden = weight_shape[-1]
         io_params = volume(outtensors[0].get_shape())  # output activation
-        static_params = seq_tokens * hidden  # weight rows accessed
+        static_params = 0
+        if 0 in self.static_inputs:
+            # Embedding lookup: only seq_len rows of the weight table are accessed, each makes one slice of the output
+            static_params += io_params
+        if 1 in self.static_inputs:
+            static_params += volume(intensors[1].get_shape())
         return [0, io_params, static_params]
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 5a162c9789317f4937cabe798b489a8a6a3b2615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 069/205] fix: the profile report lists the profiled nodes in
 model order

---
 onnx_tool/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 5cb74c0..ea43c11 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1513,7 +1513,8 @@ class Graph():
         self.macs = [0.0, 0.0]
         self.params = 0
         self.memory = 0
-        ops_to_cover = {k for k, v in self.nodemap.items() if v.op_type not in exclude_ops} if exclude_ops else self.nodemap.keys()
+        ops_to_cover = [k for k, v in self.nodemap.items() if not exclude_ops or v.op_type not in exclude_ops]
+        self.profiled_nodes = ops_to_cover
         for key in ops_to_cover:
             node = self.nodemap[key]
             itensors = []
@@ -1618,7 +1619,8 @@ class Graph():
         params += 1e-18
         memory += 1e-18
         forward_macs += 1e-18
-        ops_to_cover = {k for k, v in self.nodemap.items() if v.op_type not in exclude_ops} if exclude_ops else self.nodemap.keys()
+        # nodes the profile excluded have no figures to print
+        ops_to_cover = [k for k in self.profiled_nodes if not exclude_ops or self.nodemap[k].op_type not in exclude_ops]
         for key in ops_to_cover:
             node = self.nodemap[key]
             row = [key, self.nodemap[key].op_type]
-- 
2.43.0


From dcd225b0c03430b064048557cdb8332850b5cbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 070/205] fix: CSV reports quote node names which contain
 commas

---
 onnx_tool/utils.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/onnx_tool/utils.py b/onnx_tool/utils.py
index 2e6311b..ab34f94 100644
--- a/onnx_tool/utils.py
+++ b/onnx_tool/utils.py
@@ -1,3 +1,4 @@
+import csv
 import time
 import warnings
 from tabulate import tabulate
@@ -54,21 +55,10 @@ def print_table(ptable, header, f):
     else:
         fp = open(f, 'w')
         if saveformat == 'csv':
-            headerstr = ''
-            for i, item in enumerate(header):
-                headerstr += item
-                if i < len(header) - 1:
-                    headerstr += ','
-            headerstr += '\n'
-            fp.write(headerstr)
-            for row in ptable:
-                str = ''
-                for i, ele in enumerate(row):
-                    str += ele
-                    if i != len(row) - 1:
-                        str += ','
-                str += '\n'
-                fp.write(str)
+            # node names with commas or quotes need quoting
+            writer = csv.writer(fp, lineterminator='\n')
+            writer.writerow(header)
+            writer.writerows(ptable)
         else:
             fp.write(tabulate(ptable, headers=header))
         fp.close()
-- 
2.43.0


From bb815c035ef13417ec8a78ce3e18dc5cc3a42538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 071/205] fix: model_profile does not remember the excluded
 operators of earlier calls

---
 onnx_tool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index b7d892a..653b1d7 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -86,7 +86,7 @@ def model_profile(m, dynamic_shapes: {str: tuple} = None,
         all_ops = {op.name for op in get_all_schemas()}
         for item in exclude_ops:
             assert item in all_ops, f"Provided exclude op is not a valid onnx op: {item}"
-        hidden_ops.update(exclude_ops)
+        hidden_ops = set(hidden_ops or ()) | set(exclude_ops)  # the default set is shared by all calls
     gtmr.start()
     g.shape_infer(dynamic_shapes)
     g.log(f'infered all tensor shapes, time cost {gtmr.stop():.3f} s')
-- 
2.43.0


From cdbcdd8ee4028e98c4168e8e5818e538b06ca724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 072/205] fix: de-duplicated params count the weights stored as
 Constant nodes

---
 onnx_tool/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index ea43c11..d7fd958 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1565,7 +1565,11 @@ class Graph():
 
         # Dedup params: sum each static tensor's volume only once
         self.dedup_params = 0
-        for key in self.initials:
+        static_names = list(self.initials)
+        for name in self.nodemap:
+            if self.nodemap[name].op_type == 'Constant':  # a weight stored as a node
+                static_names.extend(self.nodemap[name].output)
+        for key in dict.fromkeys(static_names):
             if key in self.consumedby and len(self.consumedby[key]) > 0:
                 self.dedup_params += volume(self.tensormap[key].get_shape())
 
-- 
2.43.0


From a25c7cf94cd66e598d910a61b351ee14b2f8227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 073/205] fix: scalar tensors have the memory size of one
 element

---
 onnx_tool/tensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index a4ebb88..87fc3c2 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -1,3 +1,5 @@
+import math
+
 import numpy
 import onnx
 
@@ -481,7 +483,9 @@ class Tensor():
         return numpy_dtype2bytes(self.numpy.dtype)
 
     def get_memsize(self):
-        return volume(self.get_shape()) * self.get_elementsize()
+        if self.name == '':  # an omitted optional tensor
+            return 0
+        return math.prod(self.get_shape()) * self.get_elementsize()  # a scalar holds one element
 
     def sparsity_search(self, thres_size=4096, thres_ratio=0.4):
         if self.type == DYNAMIC_TENSOR:
-- 
2.43.0


From 649ea91236da638639e7d348651404e40b081692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 074/205] fix: compress_memory of graphs without inner tensors

---
 onnx_tool/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index d7fd958..cf34180 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1444,7 +1444,8 @@ class Graph():
 
         self.log(f"Raw memory size (without parameter memory): {raw_memsize:,} bytes")
         self.log(f"Compressed memory size: {compress_size:,} bytes")
-        self.log(f'Comression ratio: {compress_size / raw_memsize * 100:.3f}%')
+        if raw_memsize > 0:
+            self.log(f'Comression ratio: {compress_size / raw_memsize * 100:.3f}%')
         return compress_mem, compress_size
 
     def get_compute_graph(self):
-- 
2.43.0


From 9db27b6b70cee0a894b9800a5b2faad3d68a6946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 075/205] fix: graph inputs stay dynamic tensors when the
 relations are updated

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index cf34180..3e19944 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -366,7 +366,7 @@ class Graph():
 
     def update_tensor_relations(self):
         self.__update_consumer_producer__()
-        self.dynamics = list(self.producedby.keys())
+        self.dynamics = list(dict.fromkeys([*self.input, *self.producedby.keys()]))
 
     def __remove_if__(self):
         while True:
-- 
2.43.0


From 490fba4a7aec7c951ef45084f86f17b4c828288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 076/205] fix: compress_memory keeps graph outputs which are
 also consumed until the end

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 3e19944..6a3d49e 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1276,7 +1276,7 @@ class Graph():
                         tensor_consumed[name] = [node]
                     consumers = self.consumedby[name]
                     if len(tensor_consumed[name]) == len(consumers):
-                        if name in tensor_in_mem:
+                        if name in tensor_in_mem and name not in self.output:
                             tensor_in_mem.remove(name)
         for output in self.output:
             if output not in tensor_in_mem:
-- 
2.43.0


From 492808df1e36d1aa1872766c3b69ced218e3bf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 077/205] fix: shape regression predicts affine and scaled
 dimensions exactly for every value of the range

---
 onnx_tool/graph.py | 249 ++++++++++++++++++++++++++++-----------------
 1 file changed, 156 insertions(+), 93 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 6a3d49e..17193a3 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -75,6 +75,9 @@ def _contains_shape_tensor(n):
     return shape_tensors
 
 
+_MAX_REGRESS_SAMPLES = 64  # of one variable
+
+
 class ValueExpr():
     def __init__(self, srcrange: [], dstrange: []):
         self.alpha = 1
@@ -89,11 +92,76 @@ class ValueExpr():
             err += abs(self.__call__(sval) - dval)
         return err
 
+    @staticmethod
+    def divisions(srcrange, dstrange):
+        # all (divisor, lowest and highest shift) with dst = floor((src + shift) / divisor) for every sample
+        srclen = srcrange[-1] - srcrange[0]
+        dstlen = dstrange[-1] - dstrange[0]
+        if srclen <= 0 or dstlen <= 0 or dstlen > srclen:
+            return []
+        limit = srclen // (dstlen - 1) + 1 if dstlen > 1 else 2 * srclen + 1
+        fits = []
+        for div in range(max(2, srclen // (dstlen + 1)), limit + 1):
+            low = max(d * div - s for s, d in zip(srcrange, dstrange))
+            high = min(d * div - s for s, d in zip(srcrange, dstrange)) + div - 1
+            if low <= high:
+                fits.append((div, low, high))
+        fits.sort(key=lambda fit: abs(fit[0] * dstlen - srclen))
+        return fits
+
+    @staticmethod
+    def shift_of_division(fit):
+        # an exact or a rounded up division is the simplest explanation of the samples
+        div, low, high = fit
+        for shift in (low // div * div, low // div * div + div - 1, high // div * div):
+            if low <= shift <= high:
+                return shift
+        return low
+
+    @staticmethod
+    def ambiguous_value(srcrange, dstrange):
+        # a source value for which the divisions that match the samples give different results
+        fits = ValueExpr.divisions(srcrange, dstrange)
+        if sum(high - low + 1 for _, low, high in fits) <= 1:
+            return None
+        samples = set(srcrange)
+        div, low, high = fits[0]
+        others = [(div, low), (div, high)] + [(f[0], ValueExpr.shift_of_division(f)) for f in fits[1:]]
+        shift = (low + high) // 2
+        middle = (srcrange[0] + srcrange[-1]) // 2
+        for val in sorted(range(srcrange[0], srcrange[-1] + 1), key=lambda v: abs(v - middle)):
+            if val not in samples and any((val + s) // d != (val + shift) // div for d, s in others):
+                return val
+        return None
+
+    def build_exact(self, srcrange, dstrange):
+        srclen = srcrange[-1] - srcrange[0]
+        dstlen = dstrange[-1] - dstrange[0]
+        if srclen > 0 and dstlen % srclen == 0:
+            alpha = dstlen // srclen
+            beta = dstrange[0] - srcrange[0] * alpha
+            if all(s * alpha + beta == d for s, d in zip(srcrange, dstrange)):
+                self.factor, self.alpha, self.beta, self.truncmode = 0, alpha, beta, 0
+                return True
+        fits = ValueExpr.divisions(srcrange, dstrange)
+        if len(fits) > 0:
+            self.factor, self.alpha, self.truncmode = 1, fits[0][0], 1
+            # half a step keeps clear of rounding errors
+            self.beta = (ValueExpr.shift_of_division(fits[0]) + 0.5) / self.alpha
+            return True
+        return False
+
     def build_expr(self, srcrange: [], dstrange: []):
+        if self.build_exact(srcrange, dstrange):
+            return
         lastidx = len(srcrange) - 1
         srclen = srcrange[lastidx] - srcrange[0]
         dstlen = dstrange[lastidx] - dstrange[0]
-        if srclen <= dstlen:
+        if srclen <= 0 or dstlen <= 0:
+            self.factor = 0
+            self.alpha = 0
+            self.beta = dstrange[lastidx]
+        elif srclen <= dstlen:
             self.factor = 0
             self.alpha = round(dstlen / srclen)
             self.beta = round(dstrange[lastidx] - srcrange[lastidx] * self.alpha)
@@ -126,6 +194,7 @@ class ValueExpr():
 class ShapeEngine():
     def __init__(self, input_desc):
         self.input_desc = input_desc
+        self.input_dtype = {}
         self.variables = {}
         self.tensor_desc = {}
         self.tensor_epxr = {}
@@ -175,7 +244,7 @@ class ShapeEngine():
         tmp_input = {}
         for key in self.input_desc:
             shape = self.get_tensorshape(key)
-            tmp_input[key] = numpy.zeros(shape)
+            tmp_input[key] = numpy.zeros(shape, dtype=self.input_dtype.get(key, numpy.float32))
         return tmp_input
 
 
@@ -1147,104 +1216,98 @@ class Graph():
                     self.output.append(name)
 
     def shape_regress(self, input_desc: {}, input_range: {}):
-        shapeengine = ShapeEngine(input_desc)
-        for key in input_range.keys():
-            shapeengine.update_variable(key, input_range[key][1])
-        tmp_input = shapeengine.generate_input()
-        self.shape_infer(tmp_input)
-        maxtensormap = self.get_dynamic_tensors()
+        shapeengine = ShapeEngine({key: list(input_desc[key]) for key in input_desc})
+        for key in input_desc.keys():
+            if key in self.tensormap:
+                shapeengine.input_dtype[key] = self.tensormap[key].dtype
+
+        def sample_shapes(key=None, val=None):
+            # all shapes with one variable at val and the others at their minimum
+            for rkey in input_range.keys():
+                shapeengine.update_variable(rkey, input_range[rkey][0])
+            if key is not None:
+                shapeengine.update_variable(key, val)
+            self.shape_infer(shapeengine.generate_input())
+            return {name: self.tensormap[name].get_shape() for name in self.dynamics}
 
-        for key in input_range.keys():
-            shapeengine.update_variable(key, input_range[key][0])
-        tmp_input = shapeengine.generate_input()
-        self.shape_infer(tmp_input)
-        mintensormap = self.get_dynamic_tensors()
-
-        for key in mintensormap.keys():
-            if key in input_desc.keys():
-                continue
-            shape_desc = []
-            minshape = mintensormap[key].shape
-            maxshape = maxtensormap[key].shape
-            for i, a in zip(minshape, maxshape):
-                if i == a:
-                    shape_desc.append(i)
-                else:
-                    shape_desc.append('')
-            shapeengine.add_tensor_desc(key, shape_desc)
+        minshapes = sample_shapes()
+        for tname in minshapes.keys():
+            if tname not in input_desc.keys():
+                shapeengine.add_tensor_desc(tname, list(minshapes[tname]))
 
         vcount = 0
         for key in input_range.keys():
             minv = input_range[key][0]
             maxv = input_range[key][1]
-            vranges = [(minv + maxv) // 2, maxv]
-            shapes_range = []
-
-            for val in vranges:
-                shapeengine.update_variable(key, val)
-                tmpinputs = shapeengine.generate_input()
-                self.shape_infer(tmpinputs)
-                shapes_range.append(self.get_dynamic_tensors())
-
-            shapeengine.update_variable(key, input_range[key][0])
-            srcrange = [minv, ] + vranges
-            dstranges = [srcrange]
-            tensor_range_map = {}
-
-            def range_in_rangelist(range, rangelist):
-                for i, r in enumerate(rangelist):
-                    flag = True
-                    for sv, dv in zip(range, r):
-                        if sv != dv:
-                            flag = False
+            samples = {minv: minshapes}
+
+            def sample(vals):
+                for val in vals:
+                    if minv <= val <= maxv and val not in samples:
+                        samples[val] = sample_shapes(key, val)
+
+            def varying_ranges():
+                # {values of a dimension over the samples: [(tensor, axis)]}
+                vals = sorted(samples.keys())
+                ranges = {}
+                for tname in minshapes.keys():
+                    if tname in input_desc.keys():
+                        continue
+                    for axis in range(len(minshapes[tname])):
+                        dstrange = tuple(samples[val][tname][axis] for val in vals)
+                        if any(v != dstrange[0] for v in dstrange):
+                            ranges.setdefault(dstrange, []).append((tname, axis))
+                return vals, ranges
+
+            sample([minv + 1, (minv + maxv) // 2, maxv - 1, maxv])
+            while len(samples) < _MAX_REGRESS_SAMPLES:
+                # values at which several expressions for the samples so far disagree
+                vals, ranges = varying_ranges()
+                news = []
+                for dstrange in ranges.keys():
+                    val = ValueExpr.ambiguous_value(vals, dstrange)
+                    if val is not None and val not in news:
+                        news.append(val)
+                if len(news) == 0:
+                    break
+                sample(news[:_MAX_REGRESS_SAMPLES - len(samples)])
+
+            vals, ranges = varying_ranges()
+            tensor_range_map = {key: vals}
+            for dstrange in ranges.keys():
+                if list(dstrange) == vals:
+                    valkey = key
+                else:
+                    vcount += 1
+                    valkey = str(vcount)
+                    tname = ranges[dstrange][0][0]
+                    srckeys = []
+                    for iname in self.nodemap[self.producedby[tname][0]].input:
+                        for ele in shapeengine.get_tensor_desc(iname) or []:
+                            if ele in tensor_range_map and ele not in srckeys:
+                                srckeys.append(ele)
+                    expr = None
+                    for srckey in [key] + srckeys + list(tensor_range_map.keys()):
+                        expr = ValueExpr(tensor_range_map[srckey], dstrange)
+                        if expr.error(tensor_range_map[srckey], dstrange) == 0:
                             break
-                    if flag:
-                        return i
-                return -1
-
-            for vkey in mintensormap.keys():
-                if vkey in input_desc.keys():
-                    continue
-                shapes = [mintensormap[vkey].shape, shapes_range[0][vkey].shape, shapes_range[1][vkey].shape]
-                for i in range(len(shapes[0])):
-                    if shapes[0][i] != shapes[1][i] or shapes[0][i] != shapes[2][i]:
-                        newrange = [val[i] for val in shapes]
-                        idx = range_in_rangelist(newrange, dstranges)
-                        if idx == -1:
-                            nodename = self.producedby[vkey][0]
-                            srcvalkey = []
-                            for iname in self.nodemap[nodename].input:
-                                desc = shapeengine.get_tensor_desc(iname)
-                                if desc is not None:
-                                    for ele in desc:
-                                        if not isinstance(ele, int) and ele.isnumeric():
-                                            if int(ele) >= vcount:
-                                                srcvalkey.append(ele)
-                            dstranges.append(newrange)
-                            vidx = vcount + len(dstranges) - 1
-                            if len(srcvalkey) == 0:
-                                expr = ValueExpr(dstranges[0], newrange)
-                                err = expr.error(dstranges[0], newrange)
-                                srckey = key
-                            else:
-                                # TODO multiple src variables comparison
-                                srckey = srcvalkey[0]
-                                expr = ValueExpr(tensor_range_map[srckey], newrange)
-                                err = expr.error(tensor_range_map[srckey], newrange)
-                            if err > 0:
-                                warnings.warn(f'src key {srckey} dst key {vidx} error:{err}')
-
-                            shapeengine.add_expr(str(vidx), srckey, expr)
-                            tensor_range_map[str(vidx)] = newrange
-                            valkey = str(vidx)
-                        else:
-                            if idx == 0:
-                                valkey = key
-                            else:
-                                vidx = vcount + idx
-                                valkey = str(vidx)
-                        shapeengine.update_tensor_desc(vkey, i, valkey)
-            vcount += len(dstranges)
+                    else:
+                        srckey = (srckeys + [key])[0]
+                        expr = ValueExpr(tensor_range_map[srckey], dstrange)
+                        err = expr.error(tensor_range_map[srckey], dstrange)
+                        warnings.warn(f'src key {srckey} dst key {valkey} error:{err}')
+                    shapeengine.add_expr(valkey, srckey, expr)
+                    tensor_range_map[valkey] = dstrange
+                for tname, axis in ranges[dstrange]:
+                    shapeengine.tensor_desc[tname][axis] = valkey
+            vcount += 1
+
+        # the graph is left with its largest inputs
+        for key in input_range.keys():
+            shapeengine.update_variable(key, input_range[key][1])
+        self.shape_infer(shapeengine.generate_input())
+        for key in input_range.keys():
+            shapeengine.update_variable(key, input_range[key][0])
         return shapeengine
 
     def compress_memory(self, size_padding=64):
-- 
2.43.0


From 58f76d7745594b4f045974cf9c3b4a8090dd09f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 078/205] fix: the compute graph keeps shapes used as data,
 graph outputs and nodes with other used outputs, and leaves the graph as it
 is

---
 onnx_tool/graph.py | 70 ++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 40 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 17193a3..a308b5d 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -59,7 +59,7 @@ def _captured_tensors(g):
     return [name for name in names if name not in own]
 
 
-def _contains_shape_tensor(n):
+def _contains_shape_tensor(n, positions=False):
     nodeset = _SHAPE_TENSORS.keys()
     shape_tensors = []
     if n.op_type in nodeset:
@@ -71,7 +71,7 @@ def _contains_shape_tensor(n):
             if len(n.input) == count:
                 indistr = indice.split(',')
                 for istr in indistr:
-                    shape_tensors.append(n.input[int(istr)])
+                    shape_tensors.append(int(istr) if positions else n.input[int(istr)])
     return shape_tensors
 
 
@@ -1512,52 +1512,42 @@ class Graph():
         return compress_mem, compress_size
 
     def get_compute_graph(self):
+        # the graph itself is left as it is
         cg = copy.copy(self)
-        nodes = []
-        rmnodes = []
+        cg.nodemap = dict(self.nodemap)
+        cg.producedby = {key: list(val) for key, val in self.producedby.items()}
+        cg.consumedby = {key: list(val) for key, val in self.consumedby.items()}
+        cg.input = list(self.input)
+        cg.output = list(self.output)
+
+        # results, and whatever they are computed from, are no shape computation
+        searchnodes = []
         for key in cg.nodemap.keys():
-            node = cg.nodemap[key]
-            if node.shape_calc:
-                rmnodes.append(key)
-                continue
-            dummy_node = True
-            for output in node.output:
-                dummy = True
-                if output in cg.consumedby.keys():
-                    for consumer in cg.consumedby[output]:
-                        if not cg.nodemap[consumer].shape_calc:
-                            dummy = False
-                            break
-                else:
-                    dummy = False
-                dummy_node = dummy_node and dummy
-            if dummy_node:
-                rmnodes.append(key)
-                searchnodes = [key]
-                while len(searchnodes) > 0:
-                    this_node = self.nodemap[searchnodes[0]]
-                    searchnodes.pop(0)
-                    for input in this_node.input:
-                        if input in self.producedby:
-                            if len(self.consumedby[input]) == 1:
-                                pnodename = self.producedby[input][0]
-                                if pnodename not in rmnodes:
-                                    rmnodes.append(pnodename)
-                                searchnodes.append(pnodename)
-                continue
-            nodes.append(node.name)
+            outputs = cg.nodemap[key].output
+            if any(o in cg.output for o in outputs) or not any(o in cg.consumedby for o in outputs):
+                searchnodes.append(key)
+        compnodes = set(searchnodes)
+        while len(searchnodes) > 0:
+            node = cg.nodemap[searchnodes.pop()]
+            shape_inputs = _contains_shape_tensor(node, positions=True)
+            for i, input in enumerate(node.input):
+                if i in shape_inputs:
+                    continue
+                for producer in cg.producedby.get(input, []):
+                    if producer not in compnodes:
+                        compnodes.add(producer)
+                        searchnodes.append(producer)
+
+        rmnodes = [key for key in cg.nodemap.keys() if key not in compnodes]
         self.log(f'Total Nodes:{len(cg.nodemap)} Removed Shape Nodes:{len(rmnodes)}')
         for key in rmnodes:
             cg.remove_node(key)
         self.log(f'Compute Graph Nodes:{len(cg.nodemap)}')
 
-        cg.dynamics = []
-        cg.dynamics.extend(cg.input)
-        cg.dynamics.extend(cg.output)
+        cg.dynamics = [*cg.input, *cg.output]
         for name in cg.nodemap.keys():
-            for output in cg.nodemap[name].output:
-                if name not in cg.dynamics:
-                    cg.dynamics.append(output)
+            cg.dynamics.extend(output for output in cg.nodemap[name].output if output != '')
+        cg.dynamics = list(dict.fromkeys(cg.dynamics))
 
         return cg
 
-- 
2.43.0


From 750c9cdb75fd3166b7d11a6e451875694b3edf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 079/205] fix: the inference engine transposes MatMul weights
 of safetensors files only, not those in the model

---
 inference/infer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index 3667ca0..77b02cb 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -630,6 +630,7 @@ class GraphInfer:
 
             tensor_obj = self._cg.tensormap[tname]
             t = None
+            op_type = const_consumer.get(tname, ('', {}))[0]
 
             # 1. 尝试从 safetensors 加载
             if self.safetensors_path:
@@ -640,6 +641,9 @@ class GraphInfer:
                 elif tname in self.weight_map and self.weight_map[tname] in safetensors_data:
                     st_name = self.weight_map[tname]
                     t = safetensors_data[st_name].to(device=self.device, dtype=self.dtype)
+                # safetensors 的 2D weight 为 [N, K]，MatMul 的 weight 转置为 [K, N]（ONNX 内嵌数据已是 [K, N]）
+                if t is not None:
+                    t = self._transpose_safetensors_tensor(t, op_type)
 
             # 2. fallback: 从 ONNX 内嵌数据加载
             if t is None and tensor_obj.numpy is not None:
@@ -648,10 +652,6 @@ class GraphInfer:
                 )).to(device=self.device)
 
             if t is not None:
-                # safetensors 的 2D weight 为 [N, K]，MatMul 的 weight 转置为 [K, N]
-                op_type = const_consumer.get(tname, ('', {}))[0] if tname in const_consumer else ''
-                t = self._transpose_safetensors_tensor(t, op_type)
-
                 # 如果该 constant 有消费者 kernel 且实现了 preprocess_weight，则调用
                 if tname in const_consumer:
                     op_type, attrs = const_consumer[tname]
-- 
2.43.0


From 4ec03d6f8d2f8e0d79d103750540c76aaefb8489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 080/205] fix: the inference engine takes the dimensions of
 every input from that input

---
 inference/infer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index 77b02cb..3a164cc 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -146,7 +146,7 @@ class GraphInfer:
             self._node_input_names.append(list(node.input))
             self._node_output_names.append(list(node.output))
 
-        # shape 缓存：forward 中 _update_shape_from_input 之后批量刷新，
+        # shape 缓存：forward 中 _update_shape_from_inputs 之后批量刷新，
         # 避免每个 tensor 都调用 shape_engine.get_tensorshape()
         self._tensor_shape_cache: Dict[str, List[int]] = {}
 
@@ -246,8 +246,7 @@ class GraphInfer:
             当 profile=True 时，outputs 额外包含 '__profile__' key
         """
         # 根据输入 tensor 的实际形状更新 shape_engine 变量
-        first_input = next(iter(inputs.values()))
-        shape_changed = self._update_shape_from_input(first_input)
+        shape_changed = self._update_shape_from_inputs(inputs)
 
         # 批量刷新所有 tensor 的 shape 缓存（仅当 shape 实际变化时）
         if shape_changed or not self._tensor_shape_cache:
@@ -705,7 +704,7 @@ class GraphInfer:
         """将 self.dtype (torch.dtype) 转为对应的 numpy dtype"""
         return np.dtype(self._get_torch_dtype_name(self.dtype))
 
-    def _update_shape_from_input(self, input_tensor: torch.Tensor) -> bool:
+    def _update_shape_from_inputs(self, inputs: Dict[str, torch.Tensor]) -> bool:
         """根据实际输入 tensor 的形状，更新 shape_engine 中的变量。
 
         Returns:
@@ -715,7 +714,8 @@ class GraphInfer:
             self._last_var_values = {}
         changed = False
         for input_name, desc in self.input_desc.items():
-            if len(desc) == len(input_tensor.shape):
+            input_tensor = inputs.get(input_name)
+            if input_tensor is not None and len(desc) == len(input_tensor.shape):
                 for i, dim_var in enumerate(desc):
                     if isinstance(dim_var, str) and dim_var in self.input_range:
                         actual_val = int(input_tensor.shape[i])
-- 
2.43.0


From 59dd3b645e4e2c99acea136b51a686251fe4b85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 081/205] fix: pattern search checks every declared link and
 attribute, finds every isolated instance and reports no node twice

---
 onnx_tool/fusion.py | 224 +++++++++++++++++---------------------------
 1 file changed, 86 insertions(+), 138 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index bdf20e5..59a7a2a 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -116,7 +116,7 @@ MHAint8_Pattern = [
         'op': 'QuantizeLinear',
         'attrs': [
         ],
-        'inport': [[0, 'Add_0', 0]],
+        'inport': [[0, 'Softmax_0', 0]],
         'outport': [[0, 'MatMul_1', 0]],
     },
     {
@@ -233,7 +233,9 @@ class AttrExpr():
             if self.idx == -1:
                 return self.logical(x.__getattribute__(self.attrname))
             else:
-                return self.logical(x.__getattribute__(self.attrname)[self.idx])
+                values = x.__getattribute__(self.attrname)
+                if values is not None and self.idx < len(values):
+                    return self.logical(values[self.idx])
         return False
 
     def logical(self, attr):
@@ -311,151 +313,97 @@ class FusionPattern():
         for desc in nodedescs:
             self.nodedesc[desc['name']] = NodeCondition(desc)
 
-    def search_node(self, nodepair, graph, searched):
-        curdescname = nodepair[0]
-        curnodename = nodepair[1]
-
-        desc = self.nodedesc[curdescname]
-        node = graph.nodemap[curnodename]
-        searched.append(curnodename)
-
-        # expand in nodes
-        invalid = False if len(desc.inport) > 0 else True
-        uppaths = []
-        for inset in desc.inport:
-            inidx = inset[0]
-            indesckey = inset[1]
-            prev_outidx = inset[2]
-            nextdesc = self.nodedesc[indesckey]
-            if inidx == -1:
-                for tname in node.input:
-                    if tname not in graph.producedby:
-                        continue
-                    producer_node = graph.producedby[tname]
-                    for nodename in producer_node:
-                        nodeobject = graph.nodemap[nodename]
-                        if prev_outidx == -1 or nodeobject.output.index(tname) == prev_outidx:
-                            if nextdesc.is_node(nodeobject):
-                                if nodename not in searched:
-                                    invalid, uppath = self.search_node((indesckey, nodename), graph, searched)
-                                    if invalid:
-                                        uppaths.append(uppath)
-                                        break
-                                else:
-                                    invalid = True
-                            else:
-                                invalid = False
-                        else:
-                            invalid = False
-            elif inidx < len(node.input):
-                tname = node.input[inidx]
-                producer_node = graph.producedby[tname]
-                for nodename in producer_node:
-                    nodeobject = graph.nodemap[nodename]
-                    if prev_outidx == -1 or nodeobject.output.index(tname) == prev_outidx:
-                        if nextdesc.is_node(nodeobject):
-                            if nodename not in searched:
-                                invalid, uppath = self.search_node((indesckey, nodename), graph, searched)
-                                if invalid:
-                                    uppaths.append(uppath)
-                                    break
-                            else:
-                                invalid = True
-                        else:
-                            invalid = False
-                    else:
-                        invalid = False
-
-        if not invalid:
-            searched.remove(curnodename)
-            return False, None
-        outpath = []
-        for uppath in uppaths:
-            if uppath is not None:
-                for v in uppath:
-                    outpath.append(v)
-        outpath.append(nodepair)
-
-        outvalid = False if len(desc.outport) > 0 else True
-        downpaths = []
-        for outset in desc.outport:
-            outidx = outset[0]
-            outdescky = outset[1]
-            next_inidx = outset[2]
-            nextdesc = self.nodedesc[outdescky]
-            if outidx == -1:
-                for output in node.output:
-                    if outvalid:
-                        break
-                    if output in graph.consumedby:
-                        consumed_nodes = graph.consumedby[output]
-                        if self.append_fusion and len(consumed_nodes) > 1:
-                            # inpalce_fusion the consumer op will be appended to this op as postop
-                            # it requires that the output of this op is consumed by next op only
-                            continue
-                        for nodename in consumed_nodes:
-                            nodeobject = graph.nodemap[nodename]
-                            if next_inidx == -1 or nodeobject.input.index(output) == next_inidx:
-                                if nextdesc.is_node(nodeobject):
-                                    if nodename not in searched:
-                                        outvalid, downpath = self.search_node((outdescky, nodename), graph, searched)
-                                        if outvalid:
-                                            downpaths.append(downpath)
-                                            break
-                                    else:
-                                        outvalid = True
-
-
-            elif outidx < len(node.output):
-                tname = node.output[outidx]
-                if tname in graph.consumedby:
-                    consumed_nodes = graph.consumedby[tname]
-                    if self.append_fusion and len(consumed_nodes) > 1:
-                        # inpalce_fusion the consumer op will be appended to this op as postop
-                        # it requires that the output of this op is consumed by next op only
-                        continue
-                    for nodename in consumed_nodes:
-                        nodeobject = graph.nodemap[nodename]
-                        if next_inidx == -1 or nodeobject.input.index(tname) == next_inidx:
-                            if nextdesc.is_node(nodeobject):
-                                if nodename not in searched:
-                                    outvalid, downpath = self.search_node((outdescky, nodename), graph, searched)
-                                    if outvalid:
-                                        downpaths.append(downpath)
-                                        break
-                                else:
-                                    outvalid = True
-                                    break
-
-        if outvalid:
-            for downpath in downpaths:
-                if downpath is not None:
-                    for v in downpath:
-                        outpath.append(v)
-            return True, outpath
-        else:
-            searched.remove(curnodename)
-            return False, None
+    def linked(self, graph, link, src, dst):
+        # is there a tensor from node src to node dst satisfying this link?
+        srcnode, dstnode = graph.nodemap[src], graph.nodemap[dst]
+        outputs = srcnode.output if link[1] == -1 else srcnode.output[link[1]:link[1] + 1]
+        inputs = dstnode.input if link[3] == -1 else dstnode.input[link[3]:link[3] + 1]
+        for tname in outputs:
+            if tname == '' or tname not in inputs:
+                continue
+            if self.append_fusion and (len(graph.consumedby.get(tname, [])) > 1 or tname in graph.output):
+                # inpalce_fusion the consumer op will be appended to this op as postop
+                # it requires that the output of this op is consumed by next op only
+                continue
+            return True
+        return False
+
+    def search_order(self):
+        # every desc, starting with the first one, follows a desc it is linked with
+        links = []
+        for key, desc in self.nodedesc.items():
+            for port, other, otherport in desc.outport:
+                links.append((key, port, other, otherport))
+            for port, other, otherport in desc.inport:
+                links.append((other, otherport, key, port))
+        links = list(dict.fromkeys(links))
+        order = [(self.first_key, [link for link in links if link[0] == link[2] == self.first_key])]
+        placed = [self.first_key]
+        while True:
+            for link in links:
+                if (link[0] in placed) != (link[2] in placed):
+                    key = link[2] if link[0] in placed else link[0]
+                    placed.append(key)
+                    order.append((key, [val for val in links
+                                        if key in (val[0], val[2]) and val[0] in placed and val[2] in placed]))
+                    break
+            else:
+                return order
+
+    def candidates(self, graph, key, links, matched):
+        # the neighbours of the matched nodes which satisfy the desc and all its links
+        names = []
+        for link in links:
+            if link[0] != key and link[0] in matched:
+                for tname in graph.nodemap[matched[link[0]]].output:
+                    names.extend(graph.consumedby.get(tname, []))
+            elif link[2] != key and link[2] in matched:
+                for tname in graph.nodemap[matched[link[2]]].input:
+                    names.extend(graph.producedby.get(tname, []))
+        for name in dict.fromkeys(names):
+            if name in matched.values() or name in self.found_node_names:
+                continue
+            if not self.nodedesc[key].is_node(graph.nodemap[name]):
+                continue
+            nodes = {**matched, key: name}
+            if all(self.linked(graph, link, nodes[link[0]], nodes[link[2]]) for link in links):
+                yield name
+
+    def search_node(self, name, graph, order):
+        # match all descs in order, backtracking to the next candidate where a desc has none
+        matched = {self.first_key: name}
+        if not all(self.linked(graph, link, name, name) for link in order[0][1]):
+            return None
+        pending = []
+        while len(matched) < len(order):
+            key, links = order[len(matched)]
+            if len(pending) < len(matched):
+                pending.append(self.candidates(graph, key, links, matched))
+            nodename = next(pending[-1], None)
+            if nodename is not None:
+                matched[key] = nodename
+                continue
+            pending.pop()
+            if len(pending) == 0:
+                return None
+            matched.pop(order[len(pending)][0])
+        return matched
 
     def search_pattern(self, graph: Graph):
         ls_nodes = []
         first_desc = self.nodedesc[self.first_key]
-        self.found_node_names = []
-        self.tmp_names = []
+        order = self.search_order()
+        self.found_node_names = set()
         for name in graph.nodemap.keys():
             if name in self.found_node_names:
                 continue
             node = graph.nodemap[name]
             if first_desc.is_node(node):
-                searched = []
-                valid, path = self.search_node((self.first_key, name), graph, searched)
-                if valid:
-                    desckeys = list(self.nodedesc.keys())
-                    nodes = ['a'] * len(desckeys)
-                    for val in path:
-                        idx = desckeys.index(val[0])
-                        nodes[idx] = val[1]
-                    ls_nodes.append(nodes)
+                matched = self.search_node(name, graph, order)
+                if matched is not None:
+                    ls_nodes.append([matched.get(key, 'a') for key in self.nodedesc])
+                    # the groups can be fused one by one: none shares a node with another
+                    self.found_node_names.update(matched.values())
         return ls_nodes
 
 
-- 
2.43.0


From e75cddef7be4d85075a61f22aafccc04640d1833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 082/205] fix: ConvBNFusion keeps graph outputs, shared
 weights, other users of the convolution, biases and weights of any rank and
 type

---
 onnx_tool/fusion.py | 66 ++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 59a7a2a..d8f4f86 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -408,39 +408,49 @@ class FusionPattern():
 
 
 def ConvBNFusion(graph: Graph):
-    import math
     pattern = FusionPattern(ConvBN)
     node_sets = pattern.search_pattern(graph)
+    outputs = list(graph.output)
     for nodes in node_sets:
         conv_node = graph.nodemap[nodes[0]]
         bn_node = graph.nodemap[nodes[1]]
-        weight = graph.tensormap[conv_node.input[1]]
-        gamma = graph.tensormap[bn_node.input[1]]
-        beta = graph.tensormap[bn_node.input[2]]
-        mean = graph.tensormap[bn_node.input[3]]
-        var = graph.tensormap[bn_node.input[4]]
-        wshape = weight.shape
-        if len(conv_node.input) == 3:
-            hasbias = True
-            newbias = graph.nodemap[conv_node.input[2]].numpy
+        if not can_fold_bn(graph, conv_node, bn_node):
+            continue
+        weight = graph.tensormap[conv_node.input[1]].numpy
+        gamma, beta, mean, var = (graph.tensormap[tname].numpy.astype(numpy.float64) for tname in bn_node.input[1:5])
+        if len(conv_node.input) == 3 and conv_node.input[2] != '':
+            bias = graph.tensormap[conv_node.input[2]].numpy
         else:
-            hasbias = False
-            newbias = numpy.zeros((wshape[0],), dtype=numpy.float32)
-        for i in range(wshape[0]):
-            sm = gamma.numpy[i] / math.sqrt(var.numpy[i] + bn_node.epsilon)
-            sv = beta.numpy[i]
-            for j in range(wshape[1]):
-                for k in range(wshape[2]):
-                    for l in range(wshape[3]):
-                        weight.numpy[i, j, k, l] = sm * weight.numpy[i, j, k, l]
-            newbias[i] = sm * (newbias[i] - mean.numpy[i]) + sv
-        weight.update_proto(weight.numpy)
-        newbiasname = conv_node.name + "_bias_"
-        graph.add_initial(newbiasname, newbias)
-        graph.remove_node(nodes[1])
-        if hasbias:
-            conv_node.input[2] = newbiasname
+            bias = numpy.zeros((weight.shape[0],), dtype=weight.dtype)
+        scale = gamma / numpy.sqrt(var + bn_node.epsilon)
+        newbias = ((bias - mean) * scale + beta).astype(weight.dtype)
+        newweight = (weight * scale.reshape((-1,) + (1,) * (weight.ndim - 1))).astype(weight.dtype)
+        if len(graph.consumedby[conv_node.input[1]]) == 1 and conv_node.input[1] not in outputs:
+            graph.tensormap[conv_node.input[1]].update_proto(newweight)
         else:
-            conv_node.input.append(newbiasname)
-        graph.producedby[bn_node.output[0]] = [conv_node.name]
+            conv_node.input[1] = add_initial_of_node(graph, conv_node.name + "_weight_", newweight)
+        conv_node.input[2:] = [add_initial_of_node(graph, conv_node.name + "_bias_", newbias)]
+        graph.remove_node(nodes[1])
         conv_node.output[0] = bn_node.output[0]
+        graph.update_tensor_relations()
+    graph.output = outputs
+
+
+def add_initial_of_node(graph: Graph, name: str, data: numpy.ndarray):
+    while name in graph.tensormap:
+        name += '_'
+    graph.add_initial(name, data)
+    return name
+
+
+def can_fold_bn(graph: Graph, conv_node: Node, bn_node: Node):
+    if bn_node.training_mode or any(tname != '' for tname in bn_node.output[1:]):
+        return False
+    # the result of the convolution is used by nothing else
+    if conv_node.output[0] in graph.output or len(graph.consumedby[conv_node.output[0]]) > 1:
+        return False
+    # all parameters are known
+    for tname in [*conv_node.input[1:], *bn_node.input[1:5]]:
+        if tname != '' and (tname not in graph.initials or graph.tensormap[tname].numpy is None):
+            return False
+    return True
-- 
2.43.0


From fc93ac69a7e7dec1c9f9a458a3e05f6211efd5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 083/205] fix: fusing and removing nodes keeps graph outputs,
 positions of inputs, attributes and consistent relations

---
 onnx_tool/graph.py | 130 ++++++++++++++++++++-------------------------
 1 file changed, 57 insertions(+), 73 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index a308b5d..69c97e1 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -742,14 +742,20 @@ class Graph():
 
         return graph_level0, graph_level1, graph_level2
 
+    def get_captured_tensors(self, nodenames):
+        # tensors which the bodies of control-flow nodes take from this graph
+        captured = []
+        for name in nodenames:
+            for val in self.nodemap[name].attr.values():
+                if isinstance(val, onnx.GraphProto):
+                    captured.extend(_captured_tensors(val))
+        return captured
+
     def get_initials_from_nodenames(self, nodenames):
         initializer = []
         enqueued = []
         for name in nodenames:
-            inputs = list(self.nodemap[name].input)
-            for val in self.nodemap[name].attr.values():
-                if isinstance(val, onnx.GraphProto):
-                    inputs.extend(_captured_tensors(val))
+            inputs = [*self.nodemap[name].input, *self.get_captured_tensors([name])]
             for input in inputs:
                 if input in self.initials and input not in enqueued:
                     proto = self.tensormap[input].make_tensor_proto()
@@ -779,14 +785,7 @@ class Graph():
                 if len(self.consumedby[i]) == 1 and i in self.producedby:
                     pnode = self.producedby[i][0]
                     assert (len(self.producedby[i]) == 1)
-                    dangle_node = True
-                    for o in self.nodemap[pnode].output:
-                        if o == i:
-                            continue
-                        if o in self.consumedby.keys() or o in self.output:
-                            dangle_node = False
-                            break
-                    if dangle_node:
+                    if pnode not in newnodes:
                         newnodes.append(pnode)
                 if nodename in self.consumedby[i]:
                     self.consumedby[i].remove(nodename)
@@ -795,22 +794,32 @@ class Graph():
         self.nodemap.pop(nodename)
         if recursive:
             for node in newnodes:
-                self.remove_node(node)
+                if self.__is_dangling__(node):
+                    self.remove_node(node, recursive=True)
+
+    def __is_dangling__(self, nodename):
+        outputs = self.nodemap[nodename].output
+        if any(o in self.output or o in self.consumedby for o in outputs):
+            return False
+        captured = self.get_captured_tensors(self.nodemap)
+        return all(o not in captured for o in outputs)
 
     def remove_subtree(self, nodename, nodeset=None):
         if nodeset is not None:
             if nodename in self.nodemap:  # may be already removed?
                 node = self.nodemap[nodename]
 
-                for n in node.nextnodes:
-                    nodeset.add(n.name)
-                    nodeset.union(self.remove_subtree(n.name, nodeset))
+                for o in node.output:
+                    for consumer in self.consumedby.get(o, []):
+                        if consumer not in nodeset:
+                            nodeset.add(consumer)
+                            self.remove_subtree(consumer, nodeset)
                 return nodeset
             return nodeset
 
         nodeset = set()
         nodeset.add(nodename)
-        nodeset.union(self.remove_subtree(nodename, nodeset))
+        self.remove_subtree(nodename, nodeset)
 
         for node in nodeset:
             if node not in self.nodemap:
@@ -822,22 +831,9 @@ class Graph():
         while try_to_remove:
             try_to_remove = False
             for nodename in list(self.nodemap.keys()):
-                node = self.nodemap[nodename]
-                node_used = False
-                for o in node.output:
-                    if o in self.output:
-                        node_used = True
-
-                for nnode in node.nextnodes:
-                    if nnode.name in self.nodemap:
-                        node_used = True
-                        break
-
-                if node_used:
-                    continue
-
-                self.remove_node(nodename, recursive=True)
-                try_to_remove = True
+                if nodename in self.nodemap and self.__is_dangling__(nodename):
+                    self.remove_node(nodename, recursive=True)
+                    try_to_remove = True
 
     def skip_node(self, nodename):
         node = self.nodemap[nodename]
@@ -863,43 +859,43 @@ class Graph():
                     pro_node.output[0] = node.output[0]
         self.nodemap.pop(nodename)
 
+    def __replace_nodes__(self, nodes: [str], newnode):
+        outputs = list(self.output)
+        for name in nodes:
+            self.remove_node(name)
+        self.output = outputs
+        for i in newnode.input:
+            if i != '':
+                self.consumedby.setdefault(i, []).append(newnode.name)
+        for o in newnode.output:
+            if o != '':
+                self.producedby[o] = [newnode.name]
+        self.nodemap[newnode.name] = newnode
+
     def fuse_subgraph_node_names(self, nodes: [str], nodeop: str, nodename: str, keep_attr=True):
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
         newnode_prot = onnx.helper.make_node(nodeop, _inputs, _outputs, name=nodename)
         count = 0
         if keep_attr:
             for node in nodes:
-                for attribute in self.nodemap[node].proto.attribute:
-                    attr = onnx.helper.make_attribute(
-                        self.nodemap[node].proto.op_type + str(count) + '_' + attribute.name,
-                        get_attribute_data(attribute))
-                    newnode_prot.attribute.append(attr)
+                for attribute in self.nodemap[node].make_nodeproto().attribute:
+                    attribute.name = self.nodemap[node].op_type + str(count) + '_' + attribute.name
+                    newnode_prot.attribute.append(attribute)
                 count += 1
-        from .node import create_node
-        for name in nodes:
-            self.remove_node(name)
         newnode = create_node(newnode_prot)
         newnode.input = _inputs
         newnode.output = _outputs
-        for i in _inputs:
-            if i in self.consumedby:
-                self.consumedby[i].append(nodename)
-            else:
-                self.consumedby[i] = [nodename]
-            if i in self.producedby.keys():
-                newnode.prevnodes.append(self.producedby[i])
-        for o in _outputs:
-            self.producedby[o] = [nodename]
-            if o in self.consumedby.keys():
-                newnode.nextnodes.append(self.consumedby[o])
-        self.nodemap[nodename] = newnode
+        self.__replace_nodes__(nodes, newnode)
 
     def fuse_postop_node_names(self, nodes: [str], append_attr: bool, **extrakeys):
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
         mainnode = self.nodemap[nodes[0]]
-        newnode = onnx.helper.make_node(mainnode.op_type, _inputs, _outputs, name=mainnode.name)
+        # the inputs of the main node keep their positions
+        _inputs = [*mainnode.input, *[i for i in _inputs if i not in mainnode.input]]
+        newnode = mainnode.make_nodeproto()
+        del newnode.attribute[:]
         count = 0
-        for attr in mainnode.proto.attribute:
+        for attr in mainnode.make_nodeproto().attribute:
             if attr.name == 'postop_count':
                 count = onnx.helper.get_attribute_value(attr)
             else:
@@ -917,31 +913,18 @@ class Graph():
                 attr = onnx.helper.make_attribute(
                     'postop_' + str(count), pnode.op_type)
                 newnode.attribute.append(attr)
-                for attribute in pnode.proto.attribute:
-                    attr = onnx.helper.make_attribute(
-                        'postop_' + str(count) + '_' + attribute.name,
-                        get_attribute_data(attribute))
-                    newnode.attribute.append(attr)
+                for attribute in pnode.make_nodeproto().attribute:
+                    attribute.name = 'postop_' + str(count) + '_' + attribute.name
+                    newnode.attribute.append(attribute)
                 count += 1
 
         attr = onnx.helper.make_attribute('postop_count', count)
         newnode.attribute.append(attr)
 
-        for name in nodes:
-            self.remove_node(name)
         newnode = create_node(newnode)
         newnode.input = _inputs
         newnode.output = _outputs
-        for i in _inputs:
-            if i in self.consumedby.keys():
-                self.consumedby[i].append(mainnode.name)
-            if i in self.producedby.keys():
-                newnode.prevnodes.append(self.producedby[i])
-        for o in _outputs:
-            self.producedby[o] = [mainnode.name]
-            if o in self.consumedby.keys():
-                newnode.nextnodes.append(self.consumedby[o])
-        self.nodemap[mainnode.name] = newnode
+        self.__replace_nodes__(nodes, newnode)
 
     def fuse_subgraph_iotensors(self, inputs: [], outputs: [], nodeop: str, name_prefix: str = None, keep_attr=True):
         _, nodes, _ = self.__get_subnodes_byio__(inputs, outputs)
@@ -1099,6 +1082,7 @@ class Graph():
     def get_iotensors(self, nodenames, remove_initials=True):
         intensors = []
         outtensors = []
+        used = [*self.output, *self.get_captured_tensors([name for name in self.nodemap if name not in nodenames])]
         for name in nodenames:
             for input in self.nodemap[name].input:
                 if len(input) == 0:
@@ -1122,7 +1106,7 @@ class Graph():
                     continue
                 if remove_initials and output in self.initials:
                     continue
-                if output in self.consumedby:
+                if output in self.consumedby and output not in used:
                     consumers = self.consumedby[output]
                     inner = True
                     for consumer in consumers:
-- 
2.43.0


From a6499898732ebf5774ef7ce4c8e38eb8044e5c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:55 +0000
Subject: [PATCH 084/205] fix: create_descs_from_nodenames does not link
 omitted outputs with omitted inputs

---
 onnx_tool/fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index d8f4f86..f52f8cf 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -295,7 +295,7 @@ def create_descs_from_nodenames(graph: Graph, nodenames: [str]):
     for i, name in enumerate(nodenames):
         node = graph.nodemap[name]
         for j, t in enumerate(node.input):
-            if t in consumed_by.keys():
+            if t != '' and t in consumed_by.keys():  # not an omitted input
                 pnode = produced_by[t]
                 pidx = nodenames.index(pnode)
                 prodnode = graph.nodemap[pnode]
-- 
2.43.0


From 1fc49a9311da90f81ef2fedb537296fb3ba3e6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 085/205] fix: model_opfusion passes the names its graph
 functions take and saves nodes in execution order

---
 onnx_tool/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 653b1d7..9c21bf1 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -185,9 +185,11 @@ def model_opfusion(m, op_type: str, op_name: str, save_file: str, in_tensor_name
     model = loadmodel(m)
     graph = model.graph
     if in_tensor_names is not None and out_tensor_names is not None:
-        graph.fuse_subgraph_iotensors(inputs=in_tensor_names, outputs=out_tensor_names, name=op_name,
+        graph.fuse_subgraph_iotensors(inputs=in_tensor_names, outputs=out_tensor_names, name_prefix=op_name,
                                       nodeop=op_type, keep_attr=keep_attr)
+        graph.graph_reorder_nodes()
         model.save_model(save_file)
     if nodenames is not None:
-        graph.fuse_subgraph_node_names(nodenames, nodeop=op_type, name=op_name, keep_attr=keep_attr)
+        graph.fuse_subgraph_node_names(nodenames, nodeop=op_type, nodename=op_name, keep_attr=keep_attr)
+        graph.graph_reorder_nodes()
         model.save_model(save_file)
-- 
2.43.0


From 317a03eb8a40feca9944b13616aac5e6cf184243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 086/205] fix: fuse_subgraph_iotensors always fuses the
 selected subgraph, patterns with unlinked nodes match nothing

---
 onnx_tool/fusion.py | 4 +++-
 onnx_tool/graph.py  | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index f52f8cf..7caa9c7 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -394,6 +394,8 @@ class FusionPattern():
         first_desc = self.nodedesc[self.first_key]
         order = self.search_order()
         self.found_node_names = set()
+        if len(order) < len(self.nodedesc):  # some desc is not linked with the first one
+            return ls_nodes
         for name in graph.nodemap.keys():
             if name in self.found_node_names:
                 continue
@@ -401,7 +403,7 @@ class FusionPattern():
             if first_desc.is_node(node):
                 matched = self.search_node(name, graph, order)
                 if matched is not None:
-                    ls_nodes.append([matched.get(key, 'a') for key in self.nodedesc])
+                    ls_nodes.append([matched[key] for key in self.nodedesc])
                     # the groups can be fused one by one: none shares a node with another
                     self.found_node_names.update(matched.values())
         return ls_nodes
diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 69c97e1..229b0a5 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -891,7 +891,8 @@ class Graph():
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
         mainnode = self.nodemap[nodes[0]]
         # the inputs of the main node keep their positions
-        _inputs = [*mainnode.input, *[i for i in _inputs if i not in mainnode.input]]
+        _inputs = [*[i for i in mainnode.input if i == '' or i in _inputs],
+                   *[i for i in _inputs if i not in mainnode.input]]
         newnode = mainnode.make_nodeproto()
         del newnode.attribute[:]
         count = 0
@@ -932,6 +933,9 @@ class Graph():
         descs = create_descs_from_nodenames(self, nodes)
         pattern = FusionPattern(descs)
         nodesls = pattern.search_pattern(self)
+        if not any(set(nodes) == set(found) for found in nodesls):
+            # the subgraph itself has to be one of the groups
+            nodesls = [nodes] + [found for found in nodesls if not set(nodes) & set(found)]
         for i, nodes in enumerate(nodesls):
             name = name_prefix + '_' + str(i) if name_prefix is not None else nodes[0]
             self.fuse_subgraph_node_names(nodes, nodeop, name, keep_attr)
-- 
2.43.0


From 8f71bd3866425d71b4d0aaf71cb8404c47b5e247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 087/205] fix: skip_node reconnects every consumer, whatever
 reads or produces the data, and keeps graph outputs

---
 onnx_tool/graph.py | 46 ++++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 229b0a5..d070169 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -836,28 +836,34 @@ class Graph():
                     try_to_remove = True
 
     def skip_node(self, nodename):
+        from .fusion import ShapeOps
         node = self.nodemap[nodename]
-        count = 0
-        for input in node.input:
-            if input in self.dynamics:
-                count += 1
-                indtensor = input
-        if count == 1 and len(node.output) == 1:
-            self.consumedby[indtensor].remove(nodename)
-            if node.output[0] in self.consumedby:
-                for con in self.consumedby[node.output[0]]:
-                    con_node = self.nodemap[con]
-                    for i in range(len(con_node.input)):
-                        if con_node.input[i] == node.output[0]:
-                            con_node.input[i] = indtensor
-                            self.consumedby[indtensor].append(con)
-                            break
-            else:
-                for pro in self.producedby[indtensor]:
-                    pro_node = self.nodemap[pro]
-                    assert (len(pro_node.output) == 1)
-                    pro_node.output[0] = node.output[0]
+        # the data input: the only dynamic one, or the first one
+        dynamic_inputs = [i for i in dict.fromkeys(node.input) if i in self.dynamics]
+        indtensor = node.input[0]
+        if len(dynamic_inputs) == 1 and node.op_type not in ShapeOps:
+            indtensor = dynamic_inputs[0]
+        outtensor = node.output[0]
+        captured = self.get_captured_tensors(self.nodemap)
+        if any(o in self.consumedby or o in self.output or o in captured for o in node.output[1:]):
+            return
+        oldname, newname = outtensor, indtensor
+        if outtensor in self.output:
+            # the producer of the input takes over the name of the graph output, unless nothing else can produce it
+            if indtensor not in self.producedby or indtensor in self.output:
+                return
+            oldname, newname = indtensor, outtensor
+        if oldname in captured:
+            return
         self.nodemap.pop(nodename)
+        for other in self.nodemap.values():
+            for i in range(len(other.input)):
+                if other.input[i] == oldname:
+                    other.input[i] = newname
+            for i in range(len(other.output)):
+                if other.output[i] == oldname:
+                    other.output[i] = newname
+        self.update_tensor_relations()
 
     def __replace_nodes__(self, nodes: [str], newnode):
         outputs = list(self.output)
-- 
2.43.0


From a4162189133de86e68d597eae92efc40e0b7f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 088/205] fix: fixing an If branch or a TopK size keeps all
 results, weights, captured tensors and names, and drops only unneeded nodes

---
 onnx_tool/graph.py | 224 +++++++++++++++++++++++++--------------------
 1 file changed, 123 insertions(+), 101 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index d070169..d69458d 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -59,6 +59,33 @@ def _captured_tensors(g):
     return [name for name in names if name not in own]
 
 
+def _rename_tensors(n, names):
+    # a copy of the node whose tensors have other names, also where its subgraphs take them
+    node = onnx.NodeProto()
+    node.CopyFrom(n)
+    node.input[:] = [names.get(name, name) for name in n.input]
+    node.output[:] = [names.get(name, name) for name in n.output]
+    for att in node.attribute:
+        if att.type == onnx.AttributeProto.GRAPH:
+            captured = _captured_tensors(att.g)
+            taken = {name: names[name] for name in captured if name in names}
+            if taken:
+                _rename_captured(att.g, taken)
+    return node
+
+
+def _rename_captured(g, names):
+    own = {v.name for v in g.input} | {v.name for v in g.initializer}
+    for n in g.node:
+        own.update(n.output)
+    names = {name: names[name] for name in names if name not in own}
+    renamed = [_rename_tensors(n, names) for n in g.node]
+    del g.node[:]
+    g.node.extend(renamed)
+    for o in g.output:
+        o.name = names.get(o.name, o.name)
+
+
 def _contains_shape_tensor(n, positions=False):
     nodeset = _SHAPE_TENSORS.keys()
     shape_tensors = []
@@ -438,111 +465,105 @@ class Graph():
         self.dynamics = list(dict.fromkeys([*self.input, *self.producedby.keys()]))
 
     def __remove_if__(self):
+        selected_branch = 'else_branch' if self.cfg.if_fixed_branch == 'else' else 'then_branch'
         while True:
-            prekeys = list(self.nodemap.keys())
-            remove_list = []
-            selected_branch = 'else_branch' if self.cfg.if_fixed_branch == 'else' else 'then_branch'
-            for n in prekeys:
-                node = self.nodemap[n]
-                if node.op_type == 'If':
-                    # remove condition node chain
-                    sub_input = []
-                    for node_proto in node.attr[selected_branch].node:
-                        for ipn in node_proto.input:
-                            sub_input.append(ipn)
-                    node_list = [node.name]
-                    while len(node_list):
-                        remove = True
-                        sname = node_list.pop(0)
-                        snode = self.nodemap[sname]
-                        for ipn in snode.input:
-                            if len(self.consumedby[ipn]) == 1 and ipn not in sub_input:  # consumed by this node
-                                if ipn in self.producedby.keys():
-                                    node_list.append(self.producedby[ipn][0])
-                            self.consumedby[ipn].remove(sname)
-                        if remove:
-                            remove_list.append(sname)
-                    # add branch node
-                    names = []
-                    for node_proto in node.attr[selected_branch].node:
-                        self.__add_node_from_proto__(node_proto)
-                        names.append(node_proto.name)
-
-                    # revise output name
-                    preoutput = node.attr[selected_branch].output[0].name
-                    newoutput = node.output[0]
-                    for newname in names:
-                        newnode = self.nodemap[newname]
-                        for tensor in newnode.input:
-                            if tensor not in self.tensormap.keys():
-                                self.tensormap[tensor] = Tensor(tensor)
-                        for tensor in newnode.output:
-                            if tensor not in self.tensormap.keys():
-                                self.tensormap[tensor] = Tensor(tensor)
-                            if tensor in self.consumedby:
-                                for consumer in self.consumedby[tensor]:
-                                    self.nodemap[newnode.name].nextnodes.append(self.nodemap[consumer])
-                        for i, v in enumerate(newnode.output):
-                            if v == preoutput:
-                                newnode.output[i] = newoutput
-                                self.producedby[newoutput].append(newname)
-            if len(remove_list)==0:
+            ifnodes = [n for n in self.nodemap if self.nodemap[n].op_type == 'If']
+            if len(ifnodes) == 0:
                 break
-            for n in remove_list:
-                self.remove_node(n)
+            for n in ifnodes:
+                self.__inline_if__(n, selected_branch)
+
+    def __inline_if__(self, nodename, selected_branch):
+        ifnode = self.nodemap[nodename]
+        branch = ifnode.attr[selected_branch]
+        taken = [*ifnode.input, *self.get_captured_tensors([nodename])]
+        names = set(self.tensormap) | set(self.producedby) | set(self.consumedby)
+        names.update(self.get_captured_tensors(self.nodemap))
+
+        def unique(name, used):
+            while name in used:
+                name += '_'
+            return name
+
+        # the tensors of the branch: its results become the results of the node, the others keep their names if possible
+        rename = {}
+        local = [initial.name for initial in branch.initializer]
+        local.extend(initial.values.name for initial in branch.sparse_initializer)
+        produced = [tname for node in branch.node for tname in node.output if tname != '']
+        copies = []
+        for result, tname in zip(branch.output, ifnode.output):
+            if tname == '':
+                continue
+            if result.name in produced and result.name not in rename:
+                rename[result.name] = tname
+            else:
+                copies.append((result.name, tname))
+        for tname in [*local, *produced]:
+            if tname not in rename:
+                rename[tname] = unique(tname, names)
+                names.add(rename[tname])
+
+        newnodes = []
+        protos = [_rename_tensors(node, rename) for node in branch.node]
+        for source, tname in copies:
+            protos.append(onnx.helper.make_node('Identity', [rename.get(source, source)], [tname]))
+        nodenames = set(self.nodemap)
+        for proto in protos:
+            newnode = create_node(proto)
+            if len(newnode.name) == 0:
+                newnode.name = newnode.op_type + '_' + str(self.node_count)
+            newnode.name = unique(newnode.name, nodenames)
+            nodenames.add(newnode.name)
+            self.node_count += 1
+            newnode.input = list(proto.input)
+            newnode.output = list(proto.output)
+            newnodes.append(newnode)
+
+        for valinfo in branch.value_info:
+            if valinfo.name in rename and rename[valinfo.name] not in self.tensormap:
+                tensor = Tensor(valinfo)
+                tensor.name = rename[valinfo.name]
+                self.tensormap[tensor.name] = tensor
+        for initial in branch.initializer:
+            self.add_initial(rename[initial.name], Tensor(initial).numpy)
+        for initial in branch.sparse_initializer:
+            self.add_initial(rename[initial.values.name], sparsetensorproto2ndarray(initial))
+        for newnode in newnodes:
+            for tname in [*newnode.input, *newnode.output]:
+                if tname not in self.tensormap:
+                    self.tensormap[tname] = Tensor(tname)
+
+        # the branch takes the place of the node
+        nodemap = {}
+        for name in self.nodemap:
+            if name == nodename:
+                nodemap.update({newnode.name: newnode for newnode in newnodes})
+            else:
+                nodemap[name] = self.nodemap[name]
+        self.nodemap = nodemap
+        self.__update_consumer_producer__()
+        self.__remove_unused_producers__(taken)
+
+    def __remove_unused_producers__(self, tensornames):
+        for tname in tensornames:
+            for producer in list(self.producedby.get(tname, [])):
+                if self.__is_dangling__(producer):
+                    self.remove_node(producer, recursive=True)
 
     def __set_fixed_topk(self, fixed_k):
-        prekeys = list(self.nodemap.keys())
+        topk_nodes = [node for node in self.nodemap.values() if node.op_type == 'TopK' and len(node.input) > 1]
+        if len(topk_nodes) == 0:
+            return
         fixed_k_tensor_name = 'constant_fixed_topk_k'
-        remove_list = []
-        topk_node = 0
-        for n in prekeys:
-            node = self.nodemap[n]
-            if node.op_type == 'TopK':
-                # remove condition node chain
-                node_list = []
-                ktensor = node.input[1]
-                if len(self.consumedby[ktensor]) == 1:
-                    node_list = [self.producedby[ktensor][0]]
-                while len(node_list):
-                    remove = True
-                    sname = node_list.pop(0)
-                    snode = self.nodemap[sname]
-                    for ipn in snode.input:
-                        if len(self.consumedby[ipn]) == 1:  # consumed by this node
-                            node_list.append(self.producedby[ipn][0])
-                    if remove:
-                        remove_list.append(sname)
-                topk_node += 1
-                node.input[1] = fixed_k_tensor_name
-        if topk_node > 0:
-            self.add_initial(fixed_k_tensor_name, numpy.array([fixed_k]))
-        for n in remove_list:
-            self.remove_node(n)
-
-    def __add_node_from_proto__(self, node_proto):
-        newnode = create_node(node_proto)
-        if len(newnode.name) == 0:
-            newnode.name = newnode.op_type + '_' + str(self.node_count)
-        self.node_count += 1
-        for tensor in node_proto.input:
-            newnode.input.append(tensor)
-            if tensor == '':
-                continue
-            if tensor in self.producedby:
-                for producer in self.producedby[tensor]:
-                    newnode.prevnodes.append(self.nodemap[producer])
-            if tensor not in self.consumedby:
-                self.consumedby[tensor] = []
-            self.consumedby[tensor].append(newnode.name)
-        for tensor in node_proto.output:
-            newnode.output.append(tensor)
-            if tensor == '':
-                continue
-            if tensor not in self.producedby:
-                self.producedby[tensor] = []
-            self.producedby[tensor].append(newnode.name)
-        self.nodemap[newnode.name] = newnode
+        while fixed_k_tensor_name in self.tensormap and fixed_k_tensor_name not in self.initials:
+            fixed_k_tensor_name += '_'
+        ktensors = [node.input[1] for node in topk_nodes if node.input[1] != fixed_k_tensor_name]
+        for node in topk_nodes:
+            node.input[1] = fixed_k_tensor_name
+        self.add_initial(fixed_k_tensor_name, numpy.array([fixed_k], dtype=numpy.int64))
+        self.__update_consumer_producer__()
+        # remove the nodes which only computed the former k
+        self.__remove_unused_producers__(ktensors)
 
     def __init_graph_from_onnxproto__(self, g, noderename):
         if g is None:
@@ -692,7 +713,8 @@ class Graph():
 
     def add_initial(self, name, data):
         from .tensor import create_initial_Tensor
-        self.initials.append(name)
+        if name not in self.initials:
+            self.initials.append(name)
         if isinstance(data, numpy.ndarray):
             self.tensormap[name] = create_initial_Tensor(name, data)
         else:
-- 
2.43.0


From 3112a46fcb41a5e9586698b55ed15deeb9d44909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 089/205] fix: declared outputs stay outputs where dangling
 results become outputs as well

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index d69458d..3155ce2 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -369,7 +369,7 @@ class Graph():
 
         self.input = []
         if not self.cfg.remove_dangling:
-            self.output = []
+            self.output = [o.name for o in self.rawgraph.output] if self.rawgraph is not None else []
         for name in self.nodemap.keys():
             node = self.nodemap[name]
             for tensor in node.input:
-- 
2.43.0


From 3fa6cd41b003b1b5cde18720ee55b9408f3daaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 090/205] fix: removing nodes while loading keeps the declared
 outputs with remove_dangling off

---
 onnx_tool/graph.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 3155ce2..27f539a 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -617,10 +617,9 @@ class Graph():
         for output in g.output:
             if output.name not in self.tensormap.keys():
                 self.tensormap[output.name] = Tensor(output)
-        if self.cfg.remove_dangling:
-            self.output = []
-            for o in g.output:
-                self.output.append(o.name)
+        self.output = []
+        for o in g.output:
+            self.output.append(o.name)
         # init dynamic tensor info
         for valinfo in g.value_info:
             if valinfo.name not in self.tensormap.keys():
-- 
2.43.0


From 1e6b4547423b920e8b218c3f5818a1214512365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 091/205] fix: graph inputs and folded constants which only
 control flow bodies use are kept

---
 onnx_tool/graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 27f539a..a96e9ef 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -333,8 +333,8 @@ class Graph():
                 if self.tensormap[tname].type == STATIC_TENSOR and tname not in self.initials:
                     self.initials.append(tname)
             for name in self.nodemap.keys():
-                for tname in self.nodemap[name].input:
-                    if tname == '':
+                for tname in [*self.nodemap[name].input, *self.get_captured_tensors([name])]:
+                    if tname == '' or tname not in self.tensormap:
                         continue
                     if self.tensormap[tname].type == STATIC_TENSOR:
                         if tname not in self.initials:
@@ -350,7 +350,7 @@ class Graph():
                 self.initials.append(initial.name)
             self.dynamics.extend(self.input)
             for name in self.nodemap.keys():
-                for tname in self.nodemap[name].input:
+                for tname in [*self.nodemap[name].input, *self.get_captured_tensors([name])]:
                     if tname != '' and tname not in self.initials and tname not in self.dynamics:
                         self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
@@ -372,7 +372,7 @@ class Graph():
             self.output = [o.name for o in self.rawgraph.output] if self.rawgraph is not None else []
         for name in self.nodemap.keys():
             node = self.nodemap[name]
-            for tensor in node.input:
+            for tensor in [*node.input, *self.get_captured_tensors([name])]:
                 if tensor not in self.producedby and tensor in self.dynamics:
                     if tensor not in self.input:
                         self.input.append(tensor)
-- 
2.43.0


From b3c398c2852780ca38cefcc420c857c0a3b1f42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:22 +0000
Subject: [PATCH 092/205] fix: nested If nodes are inlined before the nodes
 only other branches used are dropped

---
 onnx_tool/graph.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index a96e9ef..14cbb9e 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -466,11 +466,8 @@ class Graph():
 
     def __remove_if__(self):
         selected_branch = 'else_branch' if self.cfg.if_fixed_branch == 'else' else 'then_branch'
-        while True:
-            ifnodes = [n for n in self.nodemap if self.nodemap[n].op_type == 'If']
-            if len(ifnodes) == 0:
-                break
-            for n in ifnodes:
+        for n in list(self.nodemap):
+            if n in self.nodemap and self.nodemap[n].op_type == 'If':
                 self.__inline_if__(n, selected_branch)
 
     def __inline_if__(self, nodename, selected_branch):
@@ -543,6 +540,9 @@ class Graph():
         self.nodemap = nodemap
         self.__update_consumer_producer__()
         self.__remove_unused_producers__(taken)
+        for newnode in newnodes:
+            if newnode.op_type == 'If' and newnode.name in self.nodemap:
+                self.__inline_if__(newnode.name, selected_branch)
 
     def __remove_unused_producers__(self, tensornames):
         for tname in tensornames:
-- 
2.43.0


From 982037df644ae5796bc8ee1f18644016b899b5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 093/205] fix: recursive removal passes over producers which
 are already removed

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 14cbb9e..bf5893c 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -815,7 +815,7 @@ class Graph():
         self.nodemap.pop(nodename)
         if recursive:
             for node in newnodes:
-                if self.__is_dangling__(node):
+                if node in self.nodemap and self.__is_dangling__(node):
                     self.remove_node(node, recursive=True)
 
     def __is_dangling__(self, nodename):
-- 
2.43.0


From 5a2f4ff7497686a8ee18052192442da959a0d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 094/205] fix: zero, tiny and huge weights are quantized
 without dividing by zero or overflow

---
 onnx_tool/quantization.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 6b2781f..9747204 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -34,17 +34,22 @@ def find_min_max(f32: numpy.ndarray, block):
         return numpy.array(fmin), numpy.array(fmax)
 
 
+def valid_scale(scale):
+    # constant zero (or denormal) weights have no range to divide by
+    return scale if scale >= numpy.finfo(numpy.float32).tiny else 1.0
+
+
 def get_symmetric_parameter(fmin, fmax, bits):
-    alpha = max(abs(fmin), abs(fmax))
-    scale = alpha / (2 ** (bits - 1) - 1)
+    alpha = max(abs(float(fmin)), abs(float(fmax)))
+    scale = valid_scale(alpha / (2 ** (bits - 1) - 1))
     return scale, 0
 
 
 def get_asymmetric_u8_parameter(fmin, fmax, bits):
-    fmin = min(fmin, 0)
-    fmax = max(fmax, 0)
+    fmin = min(float(fmin), 0)
+    fmax = max(float(fmax), 0)
     delta = fmax - fmin
-    scale = delta / (2 ** bits - 1)
+    scale = valid_scale(delta / (2 ** bits - 1))
     zp = round(-fmin / scale)
     return scale, zp
 
-- 
2.43.0


From 8efc0d630e0112642bd24046ad6fa6f633acf94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:34 +0000
Subject: [PATCH 095/205] fix: quantized codes stay within the range of their
 bit width

---
 onnx_tool/quantization.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 9747204..a46afeb 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -54,12 +54,12 @@ def get_asymmetric_u8_parameter(fmin, fmax, bits):
     return scale, zp
 
 
-def symmetric_quant(fval, scale, *agrs):
-    return numpy.clip(round(fval / scale), -128, 127)
+def symmetric_quant(fval, scale, zp=0, bits=8):
+    return numpy.clip(round(float(fval) / float(scale)), -2 ** (bits - 1), 2 ** (bits - 1) - 1)
 
 
-def asymmetric_quant(fval, scale, zp):
-    return numpy.clip(round(fval / scale) + zp, 0, 255)
+def asymmetric_quant(fval, scale, zp, bits=8):
+    return numpy.clip(round(float(fval) / float(scale)) + zp, 0, 2 ** bits - 1)
 
 
 def symmetric_dequant(qval, scale, *agrs):
@@ -82,7 +82,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
         scale, zp = get_param(fmin, fmax, bits)
         for i in numpy.ndindex(*f32.shape):
-            Q[i] = quant_val(f32[i], scale, zp)
+            Q[i] = quant_val(f32[i], scale, zp, bits)
         return Q, numpy.array(scale), numpy.array(zp)
     if len(fmin.shape) == 1:
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
@@ -91,7 +91,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
         for i in range(len(fmin)):
             scale[i], zp[i] = get_param(fmin[i], fmax[i], bits)
         for i in numpy.ndindex(*f32.shape):
-            Q[i] = quant_val(f32[i], scale[i[0]], zp[i[0]])
+            Q[i] = quant_val(f32[i], scale[i[0]], zp[i[0]], bits)
         return Q, scale, zp
     if len(fmin.shape) == 2:
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
@@ -101,7 +101,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
             scale[i], zp[i] = get_param(fmin[i], fmax[i], bits)
         for i in numpy.ndindex(*f32.shape):
             blk_idx = i[1] // block
-            Q[i] = quant_val(f32[i], scale[i[0], blk_idx], zp[i[0], blk_idx])
+            Q[i] = quant_val(f32[i], scale[i[0], blk_idx], zp[i[0], blk_idx], bits)
         return Q, scale, zp
 
 def pack_4bits(Q_int:numpy.ndarray):
-- 
2.43.0


From 35176260645563e381c487500fc96c28835932e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 096/205] fix: per channel quantization has one scale per first
 dimension for every rank

---
 onnx_tool/quantization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index a46afeb..1d7da35 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -17,8 +17,8 @@ def find_min_max(f32: numpy.ndarray, block):
     if block == 0:
         return numpy.array(f32.min(keepdims=False)), numpy.array(f32.max(keepdims=False))
     if block == -1:
-        fmin = [f32[i, :].min() for i in numpy.ndindex(*f32.shape[:-1])]
-        fmax = [f32[i, :].max() for i in numpy.ndindex(*f32.shape[:-1])]
+        fmin = [f32[i].min() for i in range(f32.shape[0])]
+        fmax = [f32[i].max() for i in range(f32.shape[0])]
         return numpy.array(fmin), numpy.array(fmax)
     if block > 0:
         fmin = []
-- 
2.43.0


From a4eba2160cfbedd6439f9082977b16c4d10832d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 097/205] fix: 4-bit packing keeps unsigned codes and the last
 code of odd rows

---
 onnx_tool/quantization.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 1d7da35..6f611c3 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -107,21 +107,20 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
 def pack_4bits(Q_int:numpy.ndarray):
     shape=Q_int.shape
     s4shape=list(shape)
-    s4shape[-1]=shape[-1]//2
+    s4shape[-1]=(shape[-1]+1)//2
     s4arr=numpy.ones(s4shape,dtype=numpy.uint8)
     import ctypes
     def cvt_s8bits_to_s4bits(v8):
-        sigbit=v8&0x80
-        sigbit=sigbit>>4
-        v8=v8&0x7
-        return v8|sigbit
+        return v8&0xF
     for i in numpy.ndindex(*s4shape):
         rawi=list(i)
         rawi[-1]*=2
         rawi1=list(rawi)
         rawi1[-1]+=1
         lo4=cvt_s8bits_to_s4bits(ctypes.c_uint8(Q_int[tuple(rawi)]).value)
-        hi4=cvt_s8bits_to_s4bits(ctypes.c_uint8(Q_int[tuple(rawi1)]).value)
+        hi4=0
+        if rawi1[-1]<shape[-1]:
+            hi4=cvt_s8bits_to_s4bits(ctypes.c_uint8(Q_int[tuple(rawi1)]).value)
         val=lo4|(hi4<<4)
         s4arr[i]=val
     return s4arr
-- 
2.43.0


From bbb87463ffffd26ee093933af315706bb63d5763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 098/205] fix: weights are quantized with the scale that is
 returned

---
 onnx_tool/quantization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 6f611c3..84a3ab6 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -78,15 +78,17 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
     elif type == 'asym':
         get_param = get_asymmetric_u8_parameter
         quant_val = asymmetric_quant
+    stype = numpy.promote_types(f32.dtype, numpy.float32)
     if len(fmin.shape) == 0:
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
         scale, zp = get_param(fmin, fmax, bits)
+        scale = stype.type(scale)
         for i in numpy.ndindex(*f32.shape):
             Q[i] = quant_val(f32[i], scale, zp, bits)
         return Q, numpy.array(scale), numpy.array(zp)
     if len(fmin.shape) == 1:
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
-        scale = numpy.ones_like(fmin, dtype=numpy.float32)
+        scale = numpy.ones_like(fmin, dtype=stype)
         zp = numpy.zeros_like(fmin, dtype=numpy.int32)
         for i in range(len(fmin)):
             scale[i], zp[i] = get_param(fmin[i], fmax[i], bits)
@@ -95,7 +97,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
         return Q, scale, zp
     if len(fmin.shape) == 2:
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
-        scale = numpy.ones_like(fmin, dtype=numpy.float32)
+        scale = numpy.ones_like(fmin, dtype=stype)
         zp = numpy.zeros_like(fmin, dtype=numpy.int32)
         for i in numpy.ndindex(*fmin.shape):
             scale[i], zp[i] = get_param(fmin[i], fmax[i], bits)
-- 
2.43.0


From 35e5c2fde465e859f2c9cc2c574c86487c5360d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 099/205] fix: graph_quantize handles weights with several
 consumers, uses, layouts and graph output weights

---
 onnx_tool/quantization.py | 54 ++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 84a3ab6..041844c 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -135,21 +135,38 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
     for suf in quantized_suffix:
         if tname.endswith(suf):
             return
+    if tname in g.output or tname in g.get_captured_tensors(g.nodemap):
+        warnings.warn(f"{tname} is also used outside of the graph nodes, it is not quantized")
+        return
+    if tname not in g.consumedby:
+        return
     f32arr = g.tensormap[tname].numpy
-    if f32arr.dtype not in [numpy.float32, numpy.float16, numpy.float64]:
+    if f32arr is None or f32arr.dtype not in [numpy.float32, numpy.float16, numpy.float64]:
         return
     if len(f32arr.shape) != 2:
         return
     if f32arr.dtype is not numpy.float32:
         f32arr = f32arr.astype(numpy.float32)
-    name=g.consumedby[tname][0]
-    node=g.nodemap[name]
-    if isinstance(node,onnx_tool.node.GemmNode):
-        if node.transB==0:
-            f32arr=f32arr.transpose()
-    node.set_attr('OTQ_Block',block)
-    node.set_attr('OTQ_Type',type)
-    node.set_attr('OTQ_Bits',bits)
+    consumers = list(dict.fromkeys(g.consumedby[tname]))
+    # the B of a Gemm is stored as OCxIC, all other weights as they are
+    layouts = set()
+    for nname in consumers:
+        node = g.nodemap[nname]
+        for i, input in enumerate(node.input):
+            if input == tname:
+                layouts.add(isinstance(node, onnx_tool.node.GemmNode) and i == 1 and node.transB == 0)
+    if len(layouts) != 1:
+        warnings.warn(f"{tname} is shared by nodes with different weight layouts, it is not quantized")
+        return
+    if True in layouts:
+        f32arr = f32arr.transpose()
+    # the caller may be iterating over the weights of the graph
+    g.initials = list(g.initials)
+    for nname in consumers:
+        node = g.nodemap[nname]
+        node.set_attr('OTQ_Block', block)
+        node.set_attr('OTQ_Type', type)
+        node.set_attr('OTQ_Bits', bits)
     Q, scale, zp = quantize(f32arr, block, type, bits)
     tname_q = tname + '_ot_q'
     tname_s = tname + '_ot_s'
@@ -172,22 +189,17 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
     g.add_initial(tname_s, scale)
     if type == 'asym':
         g.add_initial(tname_z, zp)
+    newnames = [tname_q, tname_s]
+    if type == 'asym':
+        newnames.append(tname_z)
     for nname in g.consumedby[tname]:
         node = g.nodemap[nname]
         idx = node.input.index(tname)
         node.input.remove(tname)
-        if type == 'asym':
-            node.input.insert(idx, tname_z)
-        node.input.insert(idx, tname_s)
-        node.input.insert(idx, tname_q)
-        if tname_q not in g.consumedby.keys():
-            g.consumedby[tname_q] = nname
-            g.consumedby[tname_s] = nname
-            g.consumedby[tname_z] = nname
-        else:
-            g.consumedby[tname_q].append(nname)
-            g.consumedby[tname_s].append(nname)
-            g.consumedby[tname_z].append(nname)
+        for name in reversed(newnames):
+            node.input.insert(idx, name)
+        for name in newnames:
+            g.consumedby.setdefault(name, []).append(nname)
     g.consumedby.pop(tname)
     g.initials.remove(tname)
     g.tensormap.pop(tname)
-- 
2.43.0


From 97f6ac619e0967473e0cb865a311b84f6f30441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 100/205] fix: scales which float16 can not hold stay float32

---
 onnx_tool/quantization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 041844c..4e1b0f5 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -178,7 +178,9 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
         else:
             Q = Q.astype(numpy.int8)
     if bits == 4:
-        scale = scale.astype(numpy.float16)
+        f16 = numpy.finfo(numpy.float16)
+        if scale.min() >= f16.tiny and scale.max() <= f16.max:
+            scale = scale.astype(numpy.float16)
         if type == 'asym':
             Q = pack_4bits(Q)
             zp = zp.astype(numpy.uint8)
-- 
2.43.0


From ab2226ed608d09886aaab476a600293dd51cf7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:20 +0000
Subject: [PATCH 101/205] fix: nodes with several quantized weights keep the
 layout of each of them

---
 onnx_tool/quantization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 4e1b0f5..1cfe76f 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -152,7 +152,9 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
     layouts = set()
     for nname in consumers:
         node = g.nodemap[nname]
-        for i, input in enumerate(node.input):
+        # positions before other weights of the node were quantized
+        inputs = [input for input in node.input if not input.endswith(('_ot_s', '_ot_z'))]
+        for i, input in enumerate(inputs):
             if input == tname:
                 layouts.add(isinstance(node, onnx_tool.node.GemmNode) and i == 1 and node.transB == 0)
     if len(layouts) != 1:
-- 
2.43.0


From 38c05d0bf94409d5008d2defd71bb2dd87bcbc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 102/205] fix: serialized attributes hold large integers, empty
 lists, tensors and numpy numbers; others are refused

---
 onnx_tool/serialization.py | 71 +++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 32 deletions(-)

diff --git a/onnx_tool/serialization.py b/onnx_tool/serialization.py
index 15edf42..ee64629 100644
--- a/onnx_tool/serialization.py
+++ b/onnx_tool/serialization.py
@@ -1,4 +1,6 @@
 import numpy
+import onnx
+import onnx.numpy_helper
 
 import onnx_tool
 from .graph import ShapeEngine, ValueExpr
@@ -12,7 +14,7 @@ def __write_float2buf(buf, f):
 
 
 def __write_int2buf(buf, i, bytes=4):
-    ba = i.to_bytes(bytes, 'little', signed=True)
+    ba = int(i).to_bytes(bytes, 'little', signed=True)
     buf += ba
     return buf
 
@@ -24,10 +26,10 @@ def __write_len2buf(buf, src, bytes=4):
 
 
 def __write_str2buf(buf, string):
-    if not '\0' in string:
-        string += '\0'
-    barr = bytes(string, 'utf-8')
-    buf += barr
+    barr = string if isinstance(string, bytes) else bytes(string, 'utf-8')
+    if b'\0' in barr:
+        raise ValueError(f'Unsupported string {string}: zero terminates strings')
+    buf += barr + b'\0'
     return buf
 
 
@@ -41,29 +43,44 @@ DTYPE_UINT8 = 6
 DTYPE_INT16 = 7
 DTYPE_UINT16 = 8
 DTYPE_INT64 = 9
+DTYPE_TENSOR = 10  # attributes only: each value is an array (data type, rank, shape, elements)
 
 
-def __write_data_type(buf, data):
-    if isinstance(data, str) or isinstance(data, bytes):
-        buf = __write_int2buf(buf, DTYPE_STR)
-    if isinstance(data, int):
-        buf = __write_int2buf(buf, DTYPE_INT)
-    if isinstance(data, float):
-        buf = __write_int2buf(buf, DTYPE_FLOAT)
-    return buf
+def __data_type(values):
+    # one type for all values
+    if all(isinstance(v, (str, bytes)) for v in values) and len(values) > 0:
+        return DTYPE_STR
+    if all(isinstance(v, (int, numpy.integer, numpy.bool_)) for v in values):
+        return DTYPE_INT if all(-2 ** 31 <= int(v) < 2 ** 31 for v in values) else DTYPE_INT64
+    if all(isinstance(v, (float, int, numpy.floating, numpy.integer)) for v in values):
+        return DTYPE_FLOAT
+    if all(isinstance(v, (numpy.ndarray, onnx.TensorProto)) for v in values):
+        return DTYPE_TENSOR
+    raise ValueError(f'Unsupported values {values}')
 
 
-def __write_data(buf, data):
-    buf = __write_data_type(buf, data)
-    if isinstance(data, str):
+def __write_value(buf, data, dtype):
+    if dtype == DTYPE_STR:
         buf = __write_str2buf(buf, data)
-    if isinstance(data, int):
+    elif dtype == DTYPE_INT:
         buf = __write_int2buf(buf, data)
-    if isinstance(data, float):
+    elif dtype == DTYPE_INT64:
+        buf = __write_int2buf(buf, data, 8)
+    elif dtype == DTYPE_FLOAT:
         buf = __write_float2buf(buf, data)
+    elif dtype == DTYPE_TENSOR:
+        if isinstance(data, onnx.TensorProto):
+            data = onnx.numpy_helper.to_array(data)
+        buf = __write_ndarray(buf, data)
     return buf
 
 
+def __write_data(buf, data):
+    dtype = __data_type([data])
+    buf = __write_int2buf(buf, dtype)
+    return __write_value(buf, data, dtype)
+
+
 def __write_ndarray(buf, array: numpy.ndarray):
     def write_npdtype(buf, type):
         if type == numpy.float32:
@@ -142,23 +159,13 @@ def serialize_graph(graph: onnx_tool.Graph, filepath):
         writebuf = __write_len2buf(writebuf, node.attr.keys())
 
         def write_attribute(buf, attrval):
-            def write_value(buf, val):
-                if isinstance(val, str):
-                    buf = __write_str2buf(buf, val)
-                if isinstance(val, bytes):
-                    buf += val + b'\0'
-                if isinstance(val, int):
-                    buf = __write_int2buf(buf, val)
-                if isinstance(val, float):
-                    buf = __write_float2buf(buf, val)
-                return buf
-
-            if not isinstance(attrval, list):
+            if not isinstance(attrval, (list, tuple)):
                 attrval = [attrval]
             buf = __write_len2buf(buf, attrval)
-            buf = __write_data_type(buf, attrval[0])
+            dtype = __data_type(attrval)
+            buf = __write_int2buf(buf, dtype)
             for val in attrval:
-                buf = write_value(buf, val)
+                buf = __write_value(buf, val, dtype)
             return buf
 
         for key in node.attr.keys():
-- 
2.43.0


From 8c19c296f6a5c997ca57abc73032e943ddfdaf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 103/205] fix: weights of all declared serialization types are
 written

---
 onnx_tool/serialization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/onnx_tool/serialization.py b/onnx_tool/serialization.py
index ee64629..4da2f75 100644
--- a/onnx_tool/serialization.py
+++ b/onnx_tool/serialization.py
@@ -95,6 +95,12 @@ def __write_ndarray(buf, array: numpy.ndarray):
             buf = __write_int2buf(buf, DTYPE_UINT8)
         elif type == numpy.int64:
             buf = __write_int2buf(buf, DTYPE_INT64)
+        elif type == numpy.float64:
+            buf = __write_int2buf(buf, DTYPE_DOUBLE)
+        elif type == numpy.int16:
+            buf = __write_int2buf(buf, DTYPE_INT16)
+        elif type == numpy.uint16:
+            buf = __write_int2buf(buf, DTYPE_UINT16)
         else:
             raise ValueError(f'Unsupported dtype {type}')
         return buf
-- 
2.43.0


From 84a2d24efe39c8a595ba000fca9acb3f252c3b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 104/205] fix: a refused object leaves no partly written file

---
 onnx_tool/serialization.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/onnx_tool/serialization.py b/onnx_tool/serialization.py
index 4da2f75..df17e41 100644
--- a/onnx_tool/serialization.py
+++ b/onnx_tool/serialization.py
@@ -114,7 +114,6 @@ def __write_ndarray(buf, array: numpy.ndarray):
 
 
 def serialize_shape_engine(engine: ShapeEngine, filepath):
-    binfile = open(filepath, 'wb')
     writebuf = bytearray(0)
     writebuf = __write_len2buf(writebuf, engine.variables.keys())
     for name in engine.variables.keys():
@@ -143,12 +142,11 @@ def serialize_shape_engine(engine: ShapeEngine, filepath):
         writebuf = __write_str2buf(writebuf, srcname)
         writebuf = serialize_expr(writebuf, expr[1])
 
-    binfile.write(writebuf)
-    binfile.close()
+    with open(filepath, 'wb') as binfile:
+        binfile.write(writebuf)
 
 
 def serialize_graph(graph: onnx_tool.Graph, filepath):
-    binfile = open(filepath, 'wb')
     writebuf = bytearray(0)
     writebuf = __write_len2buf(writebuf, graph.nodemap.keys())
     for name in graph.nodemap.keys():
@@ -182,12 +180,11 @@ def serialize_graph(graph: onnx_tool.Graph, filepath):
         writebuf = __write_str2buf(writebuf, name)
         tensor = graph.tensormap[name]
         writebuf = __write_ndarray(writebuf, tensor.numpy)
-    binfile.write(writebuf)
-    binfile.close()
+    with open(filepath, 'wb') as binfile:
+        binfile.write(writebuf)
 
 
 def serialize_memory_compression(compressed_mem: {}, max_shape: {}, filepath):
-    binfile = open(filepath, 'wb')
     writebuf = bytearray(0)
     writebuf = __write_int2buf(writebuf, compressed_mem[1], 8)
     compress_map = compressed_mem[0]
@@ -201,5 +198,5 @@ def serialize_memory_compression(compressed_mem: {}, max_shape: {}, filepath):
     for key in max_shape.keys():
         writebuf = __write_str2buf(writebuf, key)
         writebuf = __write_int2buf(writebuf, max_shape[key], 8)
-    binfile.write(writebuf)
-    binfile.close()
+    with open(filepath, 'wb') as binfile:
+        binfile.write(writebuf)
-- 
2.43.0


From c4bc4a26fd81afef5a904562c5efe8c52dd24e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 105/205] fix: shape expressions which float32 can not hold are
 refused

---
 onnx_tool/serialization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/serialization.py b/onnx_tool/serialization.py
index df17e41..9773830 100644
--- a/onnx_tool/serialization.py
+++ b/onnx_tool/serialization.py
@@ -129,6 +129,9 @@ def serialize_shape_engine(engine: ShapeEngine, filepath):
     writebuf = __write_len2buf(writebuf, engine.tensor_epxr.keys())
 
     def serialize_expr(buf, expr: ValueExpr):
+        for val in (expr.alpha, expr.beta):
+            if isinstance(val, int) and int(numpy.float32(val)) != val:
+                raise ValueError(f'Unsupported expression value {val}: float32 can not hold it')
         buf = __write_float2buf(buf, float(expr.alpha))
         buf = __write_float2buf(buf, float(expr.beta))
         buf = __write_int2buf(buf, int(expr.factor))
-- 
2.43.0


From 8365a0d5fc58dbbd9b0a5f3c4f5423503440464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 106/205] fix: subgraphs are extracted with the configuration
 of their graph

---
 onnx_tool/__init__.py | 2 +-
 onnx_tool/graph.py    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 9c21bf1..45ddeaf 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -176,7 +176,7 @@ def model_subgraph(m, in_tensor_names: [str] = None, out_tensor_names: [str] = N
         graph_lvl2.save_model(os.path.join(save_folder, model.modelname + '_level2.onnx'), rawmodel=model.mproto)
     if nodenames is not None:
         rawgraph = graph.get_onnxgraph_by_nodenames(nodenames)
-        subgraph = Graph(rawgraph)
+        subgraph = Graph(rawgraph, model.cfg)
         subgraph.save_model(os.path.join(save_folder, model.modelname + '_subgraph.onnx'), rawmodel=model.mproto)
 
 
diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index bf5893c..f50e29f 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -732,9 +732,9 @@ class Graph():
     def get_subgraph(self, inputs: [], outputs: []):
         graph_level0, graph_level1, graph_level2 = self.__get_subnodes_byio__(inputs, outputs)
 
-        graph_level0 = Graph(self.get_onnxgraph_by_nodenames(graph_level0))
-        graph_level1 = Graph(self.get_onnxgraph_by_nodenames(graph_level1))
-        graph_level2 = Graph(self.get_onnxgraph_by_nodenames(graph_level2))
+        graph_level0 = Graph(self.get_onnxgraph_by_nodenames(graph_level0), self.cfg)
+        graph_level1 = Graph(self.get_onnxgraph_by_nodenames(graph_level1), self.cfg)
+        graph_level2 = Graph(self.get_onnxgraph_by_nodenames(graph_level2), self.cfg)
 
         group_outputs = [graph_level0.output, graph_level1.output, graph_level2.output]
         group_inputs = [graph_level0.input, graph_level1.input, graph_level2.input]
-- 
2.43.0


From f75d3db6eee02881d6db74cf72a121e0e785f25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:02 +0000
Subject: [PATCH 107/205] fix: every exported tensor has a file of its own

---
 onnx_tool/__init__.py | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 45ddeaf..1c214d5 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -40,27 +40,18 @@ def model_export_tensors_numpy(m, tensornames: [str] = None, savefolder: str = N
     else:
         savefolder = './'
     if tensornames is None:
-        for key in g.initials:
-            name = key
-            if '/' in key:
-                name = key.replace('/', '_')
-            if '\\' in key:
-                name = key.replace('\\', '_')
-            narr = g.tensormap[key].numpy
-            save_numpy(narr, fp16, os.path.join(savefolder, name + '.npy'))
-
-    else:
-        for name in tensornames:
-            if name not in g.initials:
-                warnings.warn(f'tensor {name} not found ')
-                continue
-            fname = name
-            if '/' in name:
-                fname = name.replace('/', '_')
-            if '\\' in name:
-                fname = name.replace('\\', '_')
-            narr = g.tensormap[name].numpy
-            save_numpy(narr, fp16, os.path.join(savefolder, fname + '.npy'))
+        tensornames = g.initials
+    fnames = set()
+    for name in tensornames:
+        if name not in g.initials:
+            warnings.warn(f'tensor {name} not found ')
+            continue
+        fname = name.replace('/', '_').replace('\\', '_')
+        while fname in fnames:  # one file per tensor
+            fname += '_'
+        fnames.add(fname)
+        narr = g.tensormap[name].numpy
+        save_numpy(narr, fp16, os.path.join(savefolder, fname + '.npy'))
 
 
 # These ops are created by onnx exporter, they are out of programmer's sense
-- 
2.43.0


From ac50bdfbe701d7b41d7ad36131ff9baef2ad4b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 108/205] fix: model_io_modify leaves the model of the caller
 as it is

---
 onnx_tool/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 1c214d5..95cab9f 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -118,7 +118,8 @@ def model_io_modify(m, save_model: str, custom_io):
 
     '''
     model = loadmodel(m)
-    graph = model.mproto.graph
+    graph = onnx.GraphProto()
+    graph.CopyFrom(model.mproto.graph)
     if custom_io is not None:
         keylist = list(custom_io.keys())
         for i, input in enumerate(graph.input):
-- 
2.43.0


From 442c3e0912c91d9baddcc74c5f0cfbd008062e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 109/205] fix: subgraphs take the tensors which control flow
 bodies use

---
 onnx_tool/graph.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index f50e29f..83657fc 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -678,12 +678,18 @@ class Graph():
         graph_level0 = []
         graph_level1 = []
         graph_level2 = []
+        # also the nodes whose bodies take a tensor consume it
+        consumedby = {}
+        for name in self.nodemap:
+            for tensor in [*self.nodemap[name].input, *self.get_captured_tensors([name])]:
+                if tensor != '':
+                    consumedby.setdefault(tensor, []).append(name)
         searchlist = outputs
         while len(searchlist):
             newlist = []
             for name in searchlist:
-                if name in self.consumedby:
-                    for consumer in self.consumedby[name]:
+                if name in consumedby:
+                    for consumer in consumedby[name]:
                         if consumer in graph_level2:
                             continue
                         graph_level2.append(consumer)
@@ -695,8 +701,8 @@ class Graph():
         while len(searchlist):
             newlist = []
             for name in searchlist:
-                if name in self.consumedby:
-                    for consumer in self.consumedby[name]:
+                if name in consumedby:
+                    for consumer in consumedby[name]:
                         if consumer in graph_level2 or consumer in graph_level1:
                             continue
                         graph_level1.append(consumer)
@@ -1074,7 +1080,7 @@ class Graph():
         for name in node_names:
             node = self.nodemap[name]
             count = 0
-            for tname in node.input:
+            for tname in [*node.input, *self.get_captured_tensors([name])]:
                 if tname in produced_by.keys():
                     count += 1
                     if tname in consumed_by.keys():
@@ -1115,7 +1121,7 @@ class Graph():
         outtensors = []
         used = [*self.output, *self.get_captured_tensors([name for name in self.nodemap if name not in nodenames])]
         for name in nodenames:
-            for input in self.nodemap[name].input:
+            for input in [*self.nodemap[name].input, *self.get_captured_tensors([name])]:
                 if len(input) == 0:
                     continue
                 if remove_initials and input in self.initials:
-- 
2.43.0


From 2b2454f2292cba5018acbbe3df8c1e0399ef4c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:04 +0000
Subject: [PATCH 110/205] fix: a tensor only control flow inside a node group
 reads is not an output of it

---
 onnx_tool/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 83657fc..d41607f 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1120,6 +1120,7 @@ class Graph():
         intensors = []
         outtensors = []
         used = [*self.output, *self.get_captured_tensors([name for name in self.nodemap if name not in nodenames])]
+        captured = self.get_captured_tensors(nodenames)
         for name in nodenames:
             for input in [*self.nodemap[name].input, *self.get_captured_tensors([name])]:
                 if len(input) == 0:
@@ -1143,8 +1144,8 @@ class Graph():
                     continue
                 if remove_initials and output in self.initials:
                     continue
-                if output in self.consumedby and output not in used:
-                    consumers = self.consumedby[output]
+                if (output in self.consumedby or output in captured) and output not in used:
+                    consumers = self.consumedby.get(output, [])
                     inner = True
                     for consumer in consumers:
                         if consumer not in nodenames:
-- 
2.43.0


From 63b5c9fac1557cb3ab4b4f26e530f5b8879618ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 111/205] fix: a tensor which is named twice is exported once

---
 onnx_tool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 95cab9f..63323b8 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -42,7 +42,7 @@ def model_export_tensors_numpy(m, tensornames: [str] = None, savefolder: str = N
     if tensornames is None:
         tensornames = g.initials
     fnames = set()
-    for name in tensornames:
+    for name in dict.fromkeys(tensornames):
         if name not in g.initials:
             warnings.warn(f'tensor {name} not found ')
             continue
-- 
2.43.0


From 416ea7a57aba0d9e839c5dddae51f30086037b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:00 +0000
Subject: [PATCH 112/205] fix: a model's bias settings stay out of the shared
 architecture table

---
 onnx_tool/llm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 72520c5..2703815 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -248,9 +248,9 @@ class Builder():
         if not hasattr(self, 'model_type'):
             setattr(self, 'model_type', '')
         if ArchMap.__contains__(self.architectures[0]):
-            self.arch_config = ArchMap[self.architectures[0]]
+            self.arch_config = dict(ArchMap[self.architectures[0]])
         else:
-            self.arch_config = ArchMap['LlamaForCausalLM']
+            self.arch_config = dict(ArchMap['LlamaForCausalLM'])
         if hasattr(self, 'mlp_bias'):
             self.arch_config['mlp_bias'] = self.mlp_bias
         if hasattr(self, 'attention_bias'):
-- 
2.43.0


From f1e5370e8c5dde3e788cb77cbbc1b2624ba9222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 113/205] fix: the gate of a shared expert is counted when
 there is one

---
 onnx_tool/node.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f8c14ea..7703aa9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -3080,7 +3080,8 @@ class MoENode(Node):
             # down_proj: B × S × SI × H
             macs += B * S * SI * H
 
-        if not self.no_shared_gate:
+        has_shared_gate = not self.no_shared_expert and not self.no_shared_gate
+        if has_shared_gate:
             # Shared expert gate (Qwen3.5-MoE): sigmoid + multiply
             macs += B * S * H * (EXP_MACS + MUL_MACS)
 
@@ -3093,6 +3094,8 @@ class MoENode(Node):
         # Static params: router(full) + routed experts(scaled if partial) + shared expert(full, if present)
         total_activations = B * S * k
         shared_static = 0 if self.no_shared_expert else 3 * SI * H
+        if has_shared_gate:
+            shared_static += H
         if total_activations < E:
             static_params = H * E + total_activations * 3 * I * H + shared_static
         else:
-- 
2.43.0


From c8baee8fe0df8b2696440cb8e215e64a17651ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 114/205] fix: a linear attention layer has its output
 projection and its projections are counted once

---
 onnx_tool/llm.py  |  6 ++++--
 onnx_tool/node.py | 41 +++++++++++++----------------------------
 2 files changed, 17 insertions(+), 30 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 2703815..c529898 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -750,11 +750,13 @@ class Builder():
         nod = create_node(TmpNodeProto(self.layer_prefix + 'gdn', 'GDN', attrs))
         nod.input = [q.name, k.name, v.name]
         o = create_tensor(self.layer_prefix + 'gdn.output', DYNAMIC_TENSOR,
-                          [self.batch, self.seq_len, self.hidden_size], numpy.float32)
+                          [self.batch, self.seq_len, v_out], numpy.float32)
         nod.output = [o.name]
         self.graph.tensormap[o.name] = o
         self.graph.nodemap[nod.name] = nod
-        return o
+        # 输出投影
+        return self.add_mm(o, v_out, self.hidden_size, o_bias,
+                           self.layer_prefix + self.w_map['attention']['o'])
 
     def add_lm_head(self, inp):
         cur = self.add_layernorm(inp, self.w_map['lm_head']['input_norm'])
diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 7703aa9..e69ead9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2904,14 +2904,12 @@ class GDNNode(Node):
 
     GDN replaces standard self-attention with a linear attention mechanism.
     It computes:
-      1. Q/K/V projections (with optional bias)
-      2. Q/K per-head RMS norm
-      3. Depthwise convolution on Q/K
-      4. Gated linear attention (DeltaNet)
-      5. Output projection
+      1. Depthwise convolution on Q/K
+      2. Gated linear attention (DeltaNet)
+      3. Output gate
 
-    Inputs: [hidden_states]  shape: [B, S, hidden_size]
-    Output: [attn_output]    shape: [B, S, hidden_size]
+    Inputs: [Q, K, V]        Q shape: [B, S, num_q_heads * qk_head_dim]
+    Output: [attn_output]    shape: [B, S, num_v_heads * v_head_dim]
 
     Attributes (from node proto):
         hidden_size: int
@@ -2935,9 +2933,9 @@ class GDNNode(Node):
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         # GDN 输入: [Q, K, V]，Q shape = [B, S, num_q_heads * qk_head_dim]
-        # GDN 输出: [B, S, hidden_size]
+        # GDN 输出: [B, S, num_v_heads * v_head_dim]
         q_shape = intensors[0].get_shape()
-        out_shape = [q_shape[0], q_shape[1], self.hidden_size]
+        out_shape = [q_shape[0], q_shape[1], self.num_v_heads * self.v_head_dim]
         outtensors[0].update_shape(out_shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
@@ -2945,11 +2943,11 @@ class GDNNode(Node):
         """Calculate MACs for Gated DeltaNet.
 
         Operations:
-        - Q/K/V projections: 3 × (B × S × hidden_size × head_dim × num_heads)
-        - Q/K norm: 2 × (B × S × num_q_heads × qk_head_dim)
         - Conv1d on Q/K: 2 × (B × num_q_heads × S × qk_head_dim × conv_kernel)
         - DeltaNet attention: B × num_v_heads × S × qk_head_dim × S (simplified)
-        - Output projection: B × S × hidden_size × hidden_size
+        - Output gate: B × S × num_v_heads × v_head_dim
+
+        Q/K/V/O projections and Q/K norms are separate nodes of the graph.
         """
         x_shape = intensors[0].get_shape()
         B = x_shape[0]
@@ -2963,16 +2961,7 @@ class GDNNode(Node):
 
         macs = 0
 
-        # Q projection: B × S × H × (Nq × Dqk)
-        macs += B * S * H * Nq * Dqk
-        # K projection: B × S × H × (Nq × Dqk)
-        macs += B * S * H * Nq * Dqk
-        # V projection: B × S × H × (Nv × Dv)
-        macs += B * S * H * Nv * Dv
-
-        # Q/K RMS norm: 2 × B × S × Nq × Dqk
-        macs += 2 * B * S * Nq * Dqk
-
+        # Q/K/V/O projections and Q/K norms are separate nodes, not counted here.
         # Depthwise conv on Q: B × Nq × S × Dqk × K
         macs += B * Nq * S * Dqk * K
         # Depthwise conv on K: B × Nq × S × Dqk × K
@@ -2986,13 +2975,9 @@ class GDNNode(Node):
         macs += B * Nv * S * S * Dv  # attn @ V
 
         # Output gate (element-wise multiply + sigmoid)
-        macs += B * S * H * (EXP_MACS + MUL_MACS)
-
-        # Output projection: B × S × (Nv × Dv) × H
-        macs += B * S * Nv * Dv * H
+        macs += B * S * Nv * Dv * (EXP_MACS + MUL_MACS)
 
-        io_params = B * S * H * 2  # input + output
-        # Q/K/V/O projections are separate MatMul nodes, not counted here.
+        io_params = B * S * Nv * Dv * 2  # input + output
         # GDN itself has no static weights (all weights are in the projection nodes).
         static_params = 0
         return [macs, io_params, static_params]
-- 
2.43.0


From d48e8a40c339556ecd4e5015af8f804b79ae4413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 115/205] fix: the norm weights of a linear attention layer
 have the size of its own heads

---
 onnx_tool/llm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index c529898..d181753 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -734,8 +734,8 @@ class Builder():
         v = self.add_mm(inp, self.hidden_size, v_out, qkv_bias, namev)
 
         # Q/K per-head RMS norm
-        q = self.add_qk_norm(q, self.layer_prefix + 'self_attn.q_norm', num_q_heads)
-        k = self.add_qk_norm(k, self.layer_prefix + 'self_attn.k_norm', num_q_heads)
+        q = self.add_qk_norm(q, self.layer_prefix + 'self_attn.q_norm', num_q_heads, qk_head_dim)
+        k = self.add_qk_norm(k, self.layer_prefix + 'self_attn.k_norm', num_q_heads, qk_head_dim)
 
         # GDN 融合算子
         attrs = {
@@ -990,14 +990,15 @@ class Builder():
 
         self.graph.output.append(vision_features.name)
 
-    def add_qk_norm(self, inp, name, num_heads):
+    def add_qk_norm(self, inp, name, num_heads, head_dim=None):
         """Per-head Q/K RMS norm (Qwen3 特有).
         
         输入: [B, S, num_heads * head_dim]
         输出: [B, S, num_heads * head_dim]
         对每个 head 独立做 RMS norm，weight shape = [head_dim]
         """
-        head_dim = self.head_size
+        if head_dim is None:
+            head_dim = self.head_size
         # Reshape: [B, S, num_heads * head_dim] -> [B, S, num_heads, head_dim]
         # 做 LayerNormalization（沿最后一个维度，即 head_dim）
         attrs = {'epsilon': self.rms_norm_eps, 'type': 'rms'}
-- 
2.43.0


From 511a465bdc05f758c7ca9552839be6edca97473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:28 +0000
Subject: [PATCH 116/205] fix: Phi and GPT-J have biases in their feed-forward
 layers, GPT-J one in its head

---
 onnx_tool/llm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index d181753..e7279eb 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -145,7 +145,7 @@ ArchMap['PhiForCausalLM'] = {
     "fuse_qkv": False,
     "qkv_bias": True,
     "o_bias": True,
-    "mlp_bias": False,
+    "mlp_bias": True,
     "lm_head_bias": True,
 }
 
@@ -167,8 +167,8 @@ ArchMap['GPTJForCausalLM'] = {
     "fuse_qkv": False,
     "qkv_bias": False,
     "o_bias": False,
-    "mlp_bias": False,
-    "lm_head_bias": False,
+    "mlp_bias": True,
+    "lm_head_bias": True,
 }
 
 ArchMap['GPT2LMHeadModel'] = {
-- 
2.43.0


From f30d4399f7f2e9e8e78d0f0ea597cbbdb9c74db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 117/205] fix: Phi and GPT-J blocks share one layer norm
 between attention and feed-forward

---
 onnx_tool/llm.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index e7279eb..8d7cc5a 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -147,6 +147,7 @@ ArchMap['PhiForCausalLM'] = {
     "o_bias": True,
     "mlp_bias": True,
     "lm_head_bias": True,
+    "parallel_block": True,
 }
 
 ArchMap['Phi3SmallForCausalLM'] = {
@@ -169,6 +170,7 @@ ArchMap['GPTJForCausalLM'] = {
     "o_bias": False,
     "mlp_bias": True,
     "lm_head_bias": True,
+    "parallel_block": True,
 }
 
 ArchMap['GPT2LMHeadModel'] = {
@@ -1059,6 +1061,7 @@ class Builder():
             else:
                 # ---- 标准 Attention 层（支持 QKV gating） ----
                 cur = self.add_layernorm(cur, self.layer_prefix + self.w_map['attention']['input_norm'])
+                normed = cur
                 if self.arch_config.get('qkv_gated', False):
                     q, k, v, gate = self.add_qkv_gated(cur)
                 else:
@@ -1083,7 +1086,11 @@ class Builder():
                     cur = self.add_layernorm(cur, self.layer_prefix + self.w_map['attention']['output_norm'])
                 cur = self.add_eltop(inp, cur, 'Add', self.layer_prefix + 'attention_add')
                 inp = cur
-                cur = self.add_layernorm(cur, self.layer_prefix + self.w_map['mlp']['input_norm'])
+                if self.arch_config.get('parallel_block', False):
+                    # Phi/GPT-J: attention and MLP read the same normalized input
+                    cur = normed
+                else:
+                    cur = self.add_layernorm(cur, self.layer_prefix + self.w_map['mlp']['input_norm'])
                 cur = self.add_moe(cur) if is_moe else self.add_mlp(cur)
                 if self.arch_config.get('post_mlp_norm', False):
                     cur = self.add_layernorm(cur, self.layer_prefix + self.w_map['mlp']['output_norm'])
-- 
2.43.0


From 6afe260dde9fc44fce21ab536f4effc432493ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 118/205] fix: the default weight names include the position
 embedding

---
 onnx_tool/llm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 8d7cc5a..21f20bc 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -188,7 +188,8 @@ ArchMap['GPT2LMHeadModel'] = {
 
 WeightMap = {
     'embedding': {
-        'embed': 'model.embed_tokens'
+        'embed': 'model.embed_tokens',
+        'pos': 'model.embed_positions'
     },
     'layer_prefix': 'model.layers.',
     'attention': {
-- 
2.43.0


From 511f6dfef9bc08b1aedc80b2634a5c5675fded50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 119/205] fix: rotary tables honour partial_rotary_factor

---
 onnx_tool/llm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 21f20bc..bf7d28c 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -333,7 +333,9 @@ class Builder():
         if not hasattr(self, '_rope_cos_sin_added'):
             max_pos = getattr(self, 'max_position_embeddings', 4096)
             # rotary_dim: 部分 RoPE 时仅前 rotary_dim 维参与旋转（如 MiniMax-M2 的 rotary_dim=64）
-            rotary_dim = getattr(self, 'rotary_dim', self.head_size)
+            # partial_rotary_factor: 同样的含义，以 head_dim 的比例给出（如 Phi-2 的 0.4）
+            rotary_dim = getattr(self, 'rotary_dim',
+                                 int(self.head_size * getattr(self, 'partial_rotary_factor', 1)))
             half = rotary_dim // 2
             theta = getattr(self, 'rope_theta', 10000.0)
 
-- 
2.43.0


From 7b90c1d83e5065797d9b983d58fdf7d13c70adea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:50 +0000
Subject: [PATCH 120/205] fix: the weights of a built language model are known
 as consumed, so its parameters without duplicates are counted

---
 onnx_tool/llm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index bf7d28c..e04cf0d 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -994,6 +994,7 @@ class Builder():
         # vision_features: [B, num_patches, llm_hidden_size]
 
         self.graph.output.append(vision_features.name)
+        self.graph.__update_consumer_producer__()
 
     def add_qk_norm(self, inp, name, num_heads, head_dim=None):
         """Per-head Q/K RMS norm (Qwen3 特有).
@@ -1271,6 +1272,7 @@ class Builder():
         if getattr(self, 'final_logit_softcapping', None) is not None:
             cur = self.add_softcapping(cur, self.final_logit_softcapping, 'models.final_logit_softcapping')
         self.graph.output.append(cur.name)
+        self.graph.__update_consumer_producer__()
 
     def set_past_kv_length(self, n_past):
         self.graph.tensormap['n_past'].update_tensor(numpy.array(n_past, dtype=numpy.int64))
@@ -1295,6 +1297,7 @@ class Builder():
             if self.graph.nodemap[n].op_type == 'SDPA':
                 self.graph.nodemap[n].input.append('n_past')
                 self.graph.nodemap[n].input.append('kv_cache')
+        self.graph.__update_consumer_producer__()
 
     def save_graph(self, path):
         self.graph.graph_reorder_nodes()
-- 
2.43.0


From c71677fa1510d9808bd70b57574a714b38496a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 121/205] fix: linear attention layers are not part of the KV
 cache size

---
 onnx_tool/llm.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index e04cf0d..24b5c3a 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -1254,7 +1254,7 @@ class Builder():
             kv_size = self.head_size  # MLA: single head_dim for joint KV
         else:
             kv_size = self.hidden_kv_size
-        self.kv_params = self.batch * self.seq_len * kv_size * 2 * self.num_hidden_layers
+        self.kv_params = self.batch * self.seq_len * kv_size * 2 * self.kv_layers()
         ids = create_tensor('ids', DYNAMIC_TENSOR, [self.batch, self.seq_len], numpy.int64)
         self.graph.input.append('ids')
         self.graph.tensormap[ids.name] = ids
@@ -1274,6 +1274,11 @@ class Builder():
         self.graph.output.append(cur.name)
         self.graph.__update_consumer_producer__()
 
+    def kv_layers(self):
+        # linear attention layers keep no keys and values
+        layer_types = (getattr(self, 'layer_types', None) or [])[:self.num_hidden_layers]
+        return self.num_hidden_layers - list(layer_types).count('linear_attention')
+
     def set_past_kv_length(self, n_past):
         self.graph.tensormap['n_past'].update_tensor(numpy.array(n_past, dtype=numpy.int64))
 
@@ -1287,7 +1292,7 @@ class Builder():
             kv_size = self.head_size
         else:
             kv_size = self.hidden_kv_size
-        self.kv_params = self.batch * (self.seq_len + n_past) * kv_size * 2 * self.num_hidden_layers
+        self.kv_params = self.batch * (self.seq_len + n_past) * kv_size * 2 * self.kv_layers()
         kv_cache = create_tensor('kv_cache', DYNAMIC_TENSOR,
                                  [self.batch, self.num_hidden_layers * 2, n_context, kv_size],
                                  numpy.float32)
-- 
2.43.0


From 9ba66a0a14c4052f94364bc0d9a4444fa7ca2bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 122/205] fix: the latency column of a language model report is
 in milliseconds as its header says

---
 onnx_tool/llm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 24b5c3a..962c8d8 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -1221,7 +1221,7 @@ class Builder():
             row.append(num2str(int(node.llm_profile['Memory']), csvformat))
             Device = node.llm_profile['Device']
             if self.llm_profile[2] > 0:
-                row.append('{:.5f}'.format(Device['latency'][2]))
+                row.append('{:.5f}'.format(Device['latency'][2] * 1e3))
                 row.append(Device['Bottleneck'])
             row.append(tuple2str(node.inshape, splitch))
             row.append(tuple2str(node.outshape, splitch))
@@ -1231,7 +1231,7 @@ class Builder():
         row.append(num2str(self.llm_profile[0], csvformat))
         row.append(num2str(self.llm_profile[1], csvformat))
         if self.llm_profile[2] > 0:
-            row.append(num2str(self.llm_profile[2], csvformat))
+            row.append('{:.5f}'.format(self.llm_profile[2] * 1e3))
             row.append('_')
         row.append('_')
         row.append('_')
-- 
2.43.0


From f62a209b82afeef8ea62cc84071a97f397da87c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:20 +0000
Subject: [PATCH 123/205] fix: the memory plan of a built language model holds
 its activations

---
 onnx_tool/llm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 962c8d8..d064d86 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -994,7 +994,7 @@ class Builder():
         # vision_features: [B, num_patches, llm_hidden_size]
 
         self.graph.output.append(vision_features.name)
-        self.graph.__update_consumer_producer__()
+        self.graph.update_tensor_relations()
 
     def add_qk_norm(self, inp, name, num_heads, head_dim=None):
         """Per-head Q/K RMS norm (Qwen3 特有).
@@ -1272,7 +1272,7 @@ class Builder():
         if getattr(self, 'final_logit_softcapping', None) is not None:
             cur = self.add_softcapping(cur, self.final_logit_softcapping, 'models.final_logit_softcapping')
         self.graph.output.append(cur.name)
-        self.graph.__update_consumer_producer__()
+        self.graph.update_tensor_relations()
 
     def kv_layers(self):
         # linear attention layers keep no keys and values
@@ -1302,7 +1302,7 @@ class Builder():
             if self.graph.nodemap[n].op_type == 'SDPA':
                 self.graph.nodemap[n].input.append('n_past')
                 self.graph.nodemap[n].input.append('kv_cache')
-        self.graph.__update_consumer_producer__()
+        self.graph.update_tensor_relations()
 
     def save_graph(self, path):
         self.graph.graph_reorder_nodes()
-- 
2.43.0


From 6bb3597ddd091a2e809eda69d40b73456206dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:32 +0000
Subject: [PATCH 124/205] fix: a sparse block is reported with the ratio of its
 own block size

---
 onnx_tool/tensor.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 87fc3c2..6530559 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -281,7 +281,8 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
         validsize = 1
         prevalid0 = True
         prevalid1 = True
-        validratio = ratio
+        validratio0 = ratio
+        validratio1 = ratio
         while True:
             # try axis=1
             if prevalid1 and arr.shape[1] % initsize == 0:
@@ -291,7 +292,7 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
                 ratio1 = (arrsum == initsize).sum() / arrsum.size
                 if ratio1 > ratio - deltar_thres:
                     valid1 = True
-                    validratio = ratio1
+                    validratio1 = ratio1
                 else:
                     valid1 = False
             else:
@@ -305,7 +306,7 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
                 ratio0 = (arrsum == initsize).sum() / arrsum.size
                 if ratio0 > ratio - deltar_thres:
                     valid0 = True
-                    validratio = ratio0
+                    validratio0 = ratio0
                 else:
                     valid0 = False
             else:
@@ -327,7 +328,10 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
             if ratios > ratio - deltar_thres:
                 return (validsize, validsize), ratios
 
-        return (validsize if prevalid0 else 1, validsize if prevalid1 else 1), validratio
+        # blocks of one axis only, the ratio belongs to its block size
+        if prevalid0 and (not prevalid1 or validratio0 > validratio1):
+            return (validsize, 1), validratio0
+        return (1, validsize), validratio1
 
     if len(arr.shape) == 4:  # conv2d
         initsize = 2
@@ -380,7 +384,7 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
             ratios = (arrsum == (validsize * validsize)).sum() / arrsum.size
             if ratios > ratio - deltar_thres:
                 return (validsize, validsize), ratios
-        if validratio0 > validratio1:
+        if prevalid0 and (not prevalid1 or validratio0 > validratio1):
             return (validsize, 1), validratio0
         return (1, validsize), validratio1
 
-- 
2.43.0


From 752e41eb18a07b270b98b3c115f00df3bb668adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:33 +0000
Subject: [PATCH 125/205] fix: the sparsity of folded and rewritten weights is
 that of their values

---
 onnx_tool/graph.py  | 4 ++++
 onnx_tool/tensor.py | 1 +
 2 files changed, 5 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index d41607f..c9b42fe 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -300,6 +300,7 @@ class Graph():
             self.__constant_search__(self.cfg.constant_folding)
             self.__update_nodes_tensors__(self.cfg.constant_folding)
             self.__find_shape_tensors__()
+            self.__find_sparse_tensors__()
 
     def update_graph(self):
         if self.cfg.if_fixed_branch is not None:
@@ -309,6 +310,7 @@ class Graph():
         self.__constant_search__(self.cfg.constant_folding)
         self.__update_nodes_tensors__(self.cfg.constant_folding)
         self.__find_shape_tensors__()
+        self.__find_sparse_tensors__()
 
     def log(self, str):
         if self.cfg.verbose:
@@ -430,6 +432,7 @@ class Graph():
                         if len(otensors) > 0:
                             for i, output in enumerate(this_node.output):
                                 self.tensormap[output].type = STATIC_TENSOR
+                                self.tensormap[output].sparsity_search()
                     else:
                         for i, output in enumerate(this_node.output):
                             self.tensormap[output].type = STATIC_TENSOR
@@ -642,6 +645,7 @@ class Graph():
                         self.nodemap[node.name].nextnodes.append(self.nodemap[consumer])
         self.log(f'IO Tensor Init Time Elapsed {tm.stop()}')
 
+    def __find_sparse_tensors__(self):
         self.sparse_model = False
         for key in self.tensormap.keys():
             tensor = self.tensormap[key]
diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 6530559..39b43ba 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -435,6 +435,7 @@ class Tensor():
     def update_proto(self, data: numpy.ndarray):
         self.update_tensor(data)
         self.proto = self.make_tensor_proto()
+        self.sparsity_search()
 
     def update_shape(self, shape: list):
         if isinstance(shape, numpy.ndarray):
-- 
2.43.0


From bead7e8801bbd5a3843bae8a02e502ce80270f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 126/205] fix: weights stored as sparse tensors have their
 sparsity

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index c9b42fe..99807e2 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -611,7 +611,7 @@ class Graph():
 
         for initial in g.sparse_initializer:
             # hold sparse weights as dense ones
-            self.add_initial(initial.values.name, sparsetensorproto2ndarray(initial))
+            self.add_initial(initial.values.name, sparsetensorproto2ndarray(initial)).sparsity_search()
 
         for input in g.input:
             if input.name not in self.tensormap.keys():
-- 
2.43.0


From f3fccd4da5e393252944c4740727152553d8a395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:14 +0000
Subject: [PATCH 127/205] fix: sparse columns are reported for weights which
 became sparse after loading

---
 onnx_tool/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 99807e2..5de50b5 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1590,6 +1590,7 @@ class Graph():
         if not self.valid_shape:
             warnings.warn('Please perform a valid shape_infer() before profile().')
             return
+        self.__find_sparse_tensors__()
         self.macs = [0.0, 0.0]
         self.params = 0
         self.memory = 0
-- 
2.43.0


From 42c08bd02bfabafc9fc5d601d40ea3a0c4cd6a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 128/205] fix: a report is only given for the profile of the
 last inference

---
 onnx_tool/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 5de50b5..9238521 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1186,6 +1186,7 @@ class Graph():
 
     def shape_infer(self, inputs: {} = None):
         self.valid_shape = False
+        self.valid_profile = False  # it was the one of the shapes before
         if inputs is not None:
             self.update_input_by_map(inputs)
         in_valid, tname = self.check_inputs()
-- 
2.43.0


From c9886c2c59c1ebaa9824888e90cb23e372295b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 129/205] fix: an input without any shape is not taken for a
 scalar

---
 onnx_tool/graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 9238521..7e8353f 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1176,7 +1176,12 @@ class Graph():
 
     def check_inputs(self):
         for name in self.input:
-            shape = self.tensormap[name].shape
+            tensor = self.tensormap[name]
+            shape = tensor.shape
+            if len(shape) == 0 and tensor.numpy is None and isinstance(tensor.proto, onnx.ValueInfoProto):
+                ttype = tensor.proto.type
+                if ttype.HasField('tensor_type') and not ttype.tensor_type.HasField('shape'):
+                    return False, name  # a missing shape is not the one of a scalar
             for val in shape:
                 if isinstance(val, str):
                     return False, name
-- 
2.43.0


From 1b9be4b02e7a2af45ff76f34a51c61000c442c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:09 +0000
Subject: [PATCH 130/205] fix: the command line feeds tensors of the data type
 it was given

---
 onnx_tool/__main__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/__main__.py b/onnx_tool/__main__.py
index a7a8a54..f74cd17 100644
--- a/onnx_tool/__main__.py
+++ b/onnx_tool/__main__.py
@@ -55,10 +55,12 @@ args = parser.parse_args()
 
 
 def __str2numpytype__(strtype):
-    if strtype == 'f32':
-        return numpy.float32
-    if strtype == 'int32':
-        return numpy.int32
+    floats = {'f16': numpy.float16, 'f32': numpy.float32, 'f64': numpy.float64}
+    if strtype in floats:
+        return floats[strtype]
+    if strtype in ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'bool'):
+        return numpy.dtype(strtype).type
+    raise ValueError(f'unsupported data type {strtype}')
 
 
 def __str2list__(strshape, type):
-- 
2.43.0


From a5e4b164707b19a7d448e26db27586ea1b89fb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:10 +0000
Subject: [PATCH 131/205] fix: io_modify on the command line writes its model
 also without new shapes

---
 onnx_tool/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/__main__.py b/onnx_tool/__main__.py
index f74cd17..154bc47 100644
--- a/onnx_tool/__main__.py
+++ b/onnx_tool/__main__.py
@@ -105,6 +105,7 @@ elif args.mode == 'export_tensors':
 elif args.mode == 'constant_folding':
     onnx_tool.model_constant_folding(args.in_, args.out)
 elif args.mode == 'io_modify':
+    shapedic = None
     if args.dynamic_shapes is not None:
         shapedic = __args2strshapes__(args.dynamic_shapes)
-        onnx_tool.model_io_modify(args.in_, args.out, shapedic)
+    onnx_tool.model_io_modify(args.in_, args.out, shapedic)
-- 
2.43.0


From df6ba7bc7759bae8b8f45ac3de71b7a7a7570002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 132/205] fix: boolean values on the command line are 0 or 1

---
 onnx_tool/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/__main__.py b/onnx_tool/__main__.py
index 154bc47..e1afc94 100644
--- a/onnx_tool/__main__.py
+++ b/onnx_tool/__main__.py
@@ -78,7 +78,8 @@ def __args2dynamicshapes__(args: [str]):
         dtype = __str2numpytype__(strs[1])
         shape = __str2list__(strs[2], int)
         if len(strs) > 3:
-            arr = numpy.array(__str2list__(strs[3], dtype), dtype=dtype).reshape(shape)
+            parse = int if dtype == numpy.bool_ else dtype  # any text is true
+            arr = numpy.array(__str2list__(strs[3], parse), dtype=dtype).reshape(shape)
         else:
             arr = numpy.zeros(shape, dtype=dtype)
         dic[strs[0]] = arr
-- 
2.43.0


From ba08da6abcd5ea103a84b6ee879c8bc9d4595549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 133/205] fix: Reshape refuses a second unknown dimension

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e69ead9..12a64c0 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2674,7 +2674,7 @@ class ReshapeNode(Node):
         if -1 in newshape:
             known = math.prod([v for v in newshape if v != -1])
             newshape[newshape.index(-1)] = raw // known if known else 0
-        assert raw == math.prod(newshape)
+        assert raw == math.prod(newshape) and all(v >= 0 for v in newshape)
         outtensors[0].update_shape(newshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From b97b382bef3608c4580e55c4fe168229db432c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:55 +0000
Subject: [PATCH 134/205] fix: inputs too small for a kernel are refused

---
 onnx_tool/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 7e8353f..9eb7566 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1215,6 +1215,9 @@ class Graph():
                     node.value_infer(itensors, otensors)
                 else:
                     node.shape_infer(itensors, otensors)
+                for tensor in otensors:
+                    if any(not isinstance(val, str) and val < 0 for val in tensor.get_shape()):
+                        raise RuntimeError(f'{tensor.name} has the negative shape {tensor.shape2str()}')
             except Exception as e:
                 raise ValueError(f"Error occurred while inferring shape for node {node.name}: {e}")
 
-- 
2.43.0


From b19556a980f8f4e71e0534f16de9a428e4ed8937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 135/205] fix: Conv refuses inputs whose channels do not fit
 its weight

---
 onnx_tool/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 12a64c0..f93aacd 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2121,6 +2121,8 @@ class ConvNode(Node):
 
     def _output_shape(self, xshape, wshape):
         rank = len(xshape) - 2
+        if len(wshape) != len(xshape) or wshape[1] * self.group != xshape[1]:
+            raise RuntimeError(f'Incompatible Conv shapes: X={xshape} W={wshape} group={self.group}')
         pads = self._get_pads(xshape, wshape)
         shape = [xshape[0], wshape[0]]
         for i in range(rank):
-- 
2.43.0


From 7cea7b1727c64c07c6f6f40d6d4622c62b1e0adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:09 +0000
Subject: [PATCH 136/205] fix: Concat refuses inputs which differ in other
 dimensions

---
 onnx_tool/node.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f93aacd..57973f2 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1103,9 +1103,12 @@ class ConstantNode(Node):
 class ConcatNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outshape = intensors[0].get_shape()
+        axis = self.axis % len(outshape)
         for i in range(len(intensors) - 1):
             shape = intensors[i + 1].get_shape()
-            outshape[self.axis] += shape[self.axis]
+            if len(shape) != len(outshape) or shape[:axis] != outshape[:axis] or shape[axis + 1:] != outshape[axis + 1:]:
+                raise RuntimeError(f'Incompatible Concat shapes: {outshape} and {shape} on axis {axis}')
+            outshape[axis] += shape[axis]
         outtensors[0].update_shape(outshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From c1f78b057639e92a3cc0be15a0803e8b9c9950c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 137/205] fix: Squeeze refuses dimensions other than 1

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 57973f2..6d0aa07 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1383,7 +1383,8 @@ class SqueezeNode(Node):
         axes = self._get_axes(intensors)
         for i in range(len(inshape)):
             if i in axes:
-                continue
+                if inshape[i] != 1:
+                    raise RuntimeError(f'Squeeze can not remove dimension {i} of {inshape}')
             else:
                 outshape.append(inshape[i])
         outtensors[0].update_shape(outshape)
-- 
2.43.0


From ec29fecc2de92220f76d38360d84257df7282acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:59 +0000
Subject: [PATCH 138/205] fix: fix: a node without a name never replaces a node
 whose name is the generated one

---
 onnx_tool/graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 9eb7566..21c6bd4 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -576,10 +576,15 @@ class Graph():
 
         tm = timer()
         tm.start()
+        given_names = set() if noderename else {node.name for node in g.node}
         for node in g.node:
             newnode = create_node(node)
             if noderename or len(newnode.name) == 0:
                 newnode.name = newnode.op_type + '_' + str(self.node_count)
+                while newnode.name in given_names:
+                    newnode.name += '_'
+            while newnode.name in self.nodemap:
+                newnode.name += '_'
             self.node_count += 1
             for tensor in node.input:
                 newnode.input.append(tensor)
-- 
2.43.0


From f8e84ecfc7ed35f05d51c6bd9b2288bdc8605b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:41 +0000
Subject: [PATCH 139/205] fix: shape of PRelu and InstanceNormalization of an
 empty tensor

---
 onnx_tool/node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 6d0aa07..8415c22 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -96,6 +96,10 @@ def _axes_neg2pos(len, axes):
 
 
 def _max_shape(shapes: [numpy.ndarray]):
+    # an empty tensor stays empty whatever it is broadcast with
+    empty = [shape for shape in shapes if 0 in shape]
+    if empty:
+        shapes = empty
     maxshape = shapes[0]
     maxvol = volume(maxshape)
     for shape in shapes:
-- 
2.43.0


From 9e698f6b8d563508cba2e006746d36e44c55f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:42 +0000
Subject: [PATCH 140/205] fix: Conv values with an omitted bias given as an
 empty name

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8415c22..ffec8bb 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2151,7 +2151,7 @@ class ConvNode(Node):
         self.shape_infer(intensors, outtensors)
         outshape = outtensors[0].get_shape()
         outtensor = numpy.zeros(outshape, dtype=intensors[0].dtype)
-        has_bias = len(intensors) > 2
+        has_bias = len(intensors) > 2 and intensors[2].name != ''
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         if len(wshape) != 4:
-- 
2.43.0


From d3c8eff86b3e01cdd4f0609ec667c0eb1d5d3497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:43 +0000
Subject: [PATCH 141/205] fix: Resize and Split with an omitted last input
 given as an empty name

---
 onnx_tool/node.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index ffec8bb..57b3646 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1432,7 +1432,7 @@ class ResizeNode(Node):
         elif len(intensors) >= 3:
             roi = intensors[1].get_numpy()
             scales = intensors[2].get_numpy()
-            if len(intensors) >= 4:
+            if len(intensors) >= 4 and intensors[3].name != '':
                 sizes = intensors[3].get_numpy()
 
         newshape = []
@@ -2849,7 +2849,7 @@ class SplitNode(Node):
         end = 0
         inshape = intensors[0].get_shape()
         if self.split is None:
-            if len(intensors) == 2:
+            if len(intensors) == 2 and intensors[1].name != '':
                 split = intensors[1].get_numpy()
             else:
                 if inshape[self.axis] % len(outtensors) == 0:
@@ -2884,7 +2884,7 @@ class SplitNode(Node):
         end = 0
         inshape = intensors[0].get_shape()
         if self.split is None:
-            if len(intensors) == 2:
+            if len(intensors) == 2 and intensors[1].name != '':
                 split = intensors[1].get_numpy()
             else:
                 if inshape[self.axis] % len(outtensors) == 0:
-- 
2.43.0


From bafddd48562fca527e60e9b43db8460e336c7418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:44 +0000
Subject: [PATCH 142/205] fix: Split values of trailing empty parts

---
 onnx_tool/node.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 57b3646..81f539e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2898,9 +2898,7 @@ class SplitNode(Node):
             split = self.split
 
         axis = _axes_neg2pos(len(inshape), [self.axis])[0]
-        for v in split:
-            if end + v >= inshape[axis]:
-                break
+        for v in split[:-1]:
             splitpos.append(end + v)
             end += v
         ret = numpy.split(intensors[0].get_numpy(), splitpos, axis)
-- 
2.43.0


From 671726698fcc80c96109ebbcb8d2ba251808bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:46 +0000
Subject: [PATCH 143/205] fix: shape of the running mean and variance of
 BatchNormalization

---
 onnx_tool/node.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 81f539e..7b76fc6 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1668,6 +1668,12 @@ class BatchNormalizationNode(FusedBase):
         self.add_default_value('momentum', 0.9)
         self.add_default_value('training_mode', int(0))
 
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        super().shape_infer(intensors, outtensors)
+        for i in range(1, len(outtensors)):  # running mean and running variance of the training mode
+            outtensors[i].update_shape(intensors[i + 2].get_shape())
+            outtensors[i].update_dtype(intensors[i + 2].dtype)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
         scale = intensors[1].get_numpy()
-- 
2.43.0


From 0596836a2eb8bcde54fe749881f61d655af5e77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:47 +0000
Subject: [PATCH 144/205] fix: shape of the mean and deviation outputs of
 LayerNormalization

---
 onnx_tool/node.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 7b76fc6..f68f663 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2498,6 +2498,11 @@ class LayerNormalizationNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
         outtensors[0].update_dtype(intensors[0].dtype)
+        for i in range(1, len(outtensors)):  # Mean and InvStdDev
+            xshape = intensors[0].get_shape()
+            axis = _axes_neg2pos(len(xshape), [self.axis])[0]
+            outtensors[i].update_shape(xshape[:axis] + [1] * (len(xshape) - axis))
+            outtensors[i].update_dtype(onnxdtype2npdtype(self.stash_type))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         tshape = intensors[0].get_shape()
-- 
2.43.0


From 2f30e02067ef14d087f993b71ca5c03cea226cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:26 +0000
Subject: [PATCH 145/205] fix: BatchNormalization evaluated in training mode

---
 onnx_tool/node.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f68f663..39e8d45 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1670,9 +1670,9 @@ class BatchNormalizationNode(FusedBase):
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         super().shape_infer(intensors, outtensors)
-        for i in range(1, len(outtensors)):  # running mean and running variance of the training mode
-            outtensors[i].update_shape(intensors[i + 2].get_shape())
-            outtensors[i].update_dtype(intensors[i + 2].dtype)
+        for i in range(1, len(outtensors)):  # mean and variance of the training mode, in turns
+            outtensors[i].update_shape(intensors[4 - i % 2].get_shape())
+            outtensors[i].update_dtype(intensors[4 - i % 2].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
@@ -1680,6 +1680,17 @@ class BatchNormalizationNode(FusedBase):
         b = intensors[2].get_numpy()
         mean = intensors[3].get_numpy()
         var = intensors[4].get_numpy()
+        if self.training_mode:
+            axes = (0,) + tuple(range(2, x.ndim))
+            runnings = [mean * self.momentum, var * self.momentum]
+            mean = numpy.mean(x, axis=axes)
+            var = numpy.var(x, axis=axes)
+            for i, current in enumerate((mean, var)):
+                if len(outtensors) > i + 1:
+                    running = runnings[i] + current * (1 - self.momentum)
+                    outtensors[i + 1].update_tensor(running.astype(intensors[3 + i].dtype))
+        elif len(outtensors) > 1:
+            raise NotImplementedError(f'this Node {self.op_type}-{self.name} does not evaluate its statistics')
         y = numpy.zeros_like(x)
         for i in numpy.ndindex(y.shape):
             cn = i[1]
-- 
2.43.0


From e7eb745d9297a416935861664165bd2cf92ce27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:27 +0000
Subject: [PATCH 146/205] fix: LSTM and GRU output shapes of the batch-first
 layout

---
 onnx_tool/node.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 39e8d45..9e5783c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -200,6 +200,13 @@ def _matmul_shape(a_shape, b_shape):
     return yshape
 
 
+def _rnn_output_shapes(xshape, num_dir, h_len, layout):
+    """Shapes of Y and of Y_h; layout 1 puts the batch dimension first"""
+    if layout:
+        return [xshape[0], xshape[1], num_dir, h_len], [xshape[0], num_dir, h_len]
+    return [xshape[0], num_dir, xshape[1], h_len], [num_dir, xshape[1], h_len]
+
+
 class TmpNodeProto:
     def __init__(self, name, op_type, attributes):
         self.name = name
@@ -2077,24 +2084,24 @@ class LSTMNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('direction', None)
         self.add_default_value('hidden_size', None)
+        self.add_default_value('layout', 0)
         # TODO(Shinji) add activation types support in attributes
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-        seq_len = xshape[0]
-        batch = xshape[1]
         num_dir = wshape[0]
         h_len = wshape[1] // 4
         if self.hidden_size is not None:
             assert (h_len == self.hidden_size)
-        outtensors[0].update_shape([seq_len, num_dir, batch, h_len])
+        yshape, hshape = _rnn_output_shapes(xshape, num_dir, h_len, self.layout)
+        outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[0].dtype)
         if len(outtensors) > 1:
-            outtensors[1].update_shape([num_dir, batch, h_len])
+            outtensors[1].update_shape(hshape)
             outtensors[1].update_dtype(intensors[0].dtype)
             if len(outtensors) > 2:
-                outtensors[2].update_shape([num_dir, batch, h_len])
+                outtensors[2].update_shape(list(hshape))
                 outtensors[2].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -2739,18 +2746,21 @@ class GatherElementsNode(Node):
 
 @NODE_REGISTRY.register()
 class GRUNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('layout', 0)
+
     # TODO(Shinji) add activation types support in attributes
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-        seq_len = xshape[0]
-        batch = xshape[1]
         num_dir = wshape[0]
         h_len = wshape[1] // 3
-        outtensors[0].update_shape([seq_len, num_dir, batch, h_len])
+        yshape, hshape = _rnn_output_shapes(xshape, num_dir, h_len, self.layout)
+        outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[0].dtype)
         if len(outtensors) > 1:
-            outtensors[1].update_shape([num_dir, batch, h_len])
+            outtensors[1].update_shape(hshape)
             outtensors[1].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From ab1c34e1e34ae0a7380b506ee522dbc6424dc8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 147/205] fix: Einsum output shapes with the ellipsis behind or
 between labels

---
 onnx_tool/node.py | 98 ++++++++++-------------------------------------
 1 file changed, 21 insertions(+), 77 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 9e5783c..7e8968e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1250,93 +1250,37 @@ class EinsumNode(Node):
                 if ch != '.' and all_labels.count(ch) == 1:
                     if ch not in unique_labels:
                         unique_labels.append(ch)
-            self.output_label_str = ''.join(sorted(unique_labels))
+            # broadcast dimensions come first
+            self.output_label_str = ('...' if '...' in lhs else '') + ''.join(sorted(unique_labels))
 
-    def _has_ellipsis(self, label_str):
-        return '...' in label_str
+    def _expand_labels(self, label_str, ellipsis_ndim):
+        """One key per dimension; dimensions of the ellipsis are aligned from the right"""
+        head, ellipsis, tail = label_str.partition('...')
+        keys = [f'...{i}' for i in range(ellipsis_ndim, 0, -1)] if ellipsis else []
+        return list(head) + keys + list(tail)
 
-    def _get_non_ellipsis_labels(self, label_str):
-        """Get the labels after the ellipsis part."""
-        if '...' in label_str:
-            idx = label_str.index('...')
-            return label_str[idx + 3:]
-        return label_str
-
-    def _get_ellipsis_ndim(self, label_str, total_ndim):
-        """Compute how many dimensions the ellipsis covers."""
-        non_ellipsis = self._get_non_ellipsis_labels(label_str)
-        return total_ndim - len(non_ellipsis)
+    def _label_sizes(self, intensors: List[Tensor]):
+        """Size of every label and dimension of the ellipsis, and the number of dimensions of the ellipsis"""
+        sizes = {}
+        max_ndim = 0
+        for labels, tensor in zip(self.input_labels, intensors):
+            shape = tensor.get_shape()
+            ndim = len(shape) - len(labels.replace('...', ''))
+            max_ndim = max(max_ndim, ndim)
+            for key, v in zip(self._expand_labels(labels, ndim), shape):
+                sizes[key] = v if sizes.get(key, 1) == 1 else sizes[key]
+        return sizes, max_ndim
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        shape = []
-        # Map from label character -> list of dimension values across inputs
-        label_to_dims = {}
-        ellipsis_dims_list = []  # list of (ndim, shape_slice) for each input with ellipsis
-
-        for idx, tensor in enumerate(intensors):
-            label_str = self.input_labels[idx]
-            tshape = tensor.get_shape()
-            if self._has_ellipsis(label_str):
-                non_ellipsis = self._get_non_ellipsis_labels(label_str)
-                ellipsis_ndim = len(tshape) - len(non_ellipsis)
-                # Record ellipsis dimensions for broadcasting
-                ellipsis_dims_list.append(tshape[:ellipsis_ndim])
-                offset = ellipsis_ndim
-            else:
-                non_ellipsis = label_str
-                offset = 0
-
-            for i, ch in enumerate(non_ellipsis):
-                if ch == '.':
-                    continue
-                dim_val = tshape[offset + i]
-                if ch not in label_to_dims:
-                    label_to_dims[ch] = []
-                label_to_dims[ch].append(dim_val)
-
-        # Compute broadcast shape for ellipsis dimensions
-        ellipsis_shape = []
-        if ellipsis_dims_list:
-            max_ndim = max(len(d) for d in ellipsis_dims_list)
-            # Pad shorter ellipsis shapes with 1s on the left (broadcast semantics)
-            padded_shapes = []
-            for d in ellipsis_dims_list:
-                if len(d) < max_ndim:
-                    padded_shapes.append([1] * (max_ndim - len(d)) + list(d))
-                else:
-                    padded_shapes.append(list(d))
-            for dims in zip(*padded_shapes):
-                ellipsis_shape.append(max(dims))
-
-        # Build output shape: first ellipsis dims, then output labels
-        shape.extend(ellipsis_shape)
-
-        # For each output label, take the max across all inputs (broadcast)
-        for ch in self.output_label_str:
-            if ch == '.':
-                continue
-            if ch in label_to_dims:
-                shape.append(max(label_to_dims[ch]))
-            else:
-                # Label not found in any input (shouldn't happen in valid equations)
-                shape.append(1)
-
+        sizes, ellipsis_ndim = self._label_sizes(intensors)
+        shape = [sizes.get(key, 1) for key in self._expand_labels(self.output_label_str, ellipsis_ndim)]
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         # one multiply-add per point of the index space and per product of two operands
         macs = max(len(intensors) - 1, 1)
-        sizes = {}
-        for labels, tensor in zip(self.input_labels, intensors):
-            shape = tensor.get_shape()
-            head, _, tail = labels.partition('...')
-            keys = list(head)
-            # dimensions of the ellipsis are aligned from the right
-            keys += [f'...{i}' for i in range(len(shape) - len(head) - len(tail), 0, -1)]
-            keys += list(tail)
-            for key, v in zip(keys, shape):
-                sizes[key] = max(sizes.get(key, v), v)
+        sizes, _ = self._label_sizes(intensors)
         for v in sizes.values():
             macs *= v
         return macs
-- 
2.43.0


From 176cd5ff33e77e2cbf3ccf6652b95bc671234441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:05 +0000
Subject: [PATCH 148/205] fix: bfloat16 and float8 element types are known to
 the tool

---
 onnx_tool/tensor.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 39b43ba..5a662ce 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -36,6 +36,12 @@ def shape_of_initializer(initial):
     return shape
 
 
+# float types of whole bytes which numpy itself does not have
+_EXTENDED_TYPES = [getattr(onnx.TensorProto, key) for key in
+                   ('BFLOAT16', 'FLOAT8E4M3FN', 'FLOAT8E4M3FNUZ', 'FLOAT8E5M2', 'FLOAT8E5M2FNUZ')
+                   if hasattr(onnx.TensorProto, key)]
+
+
 def onnxdtype2npdtype(data_type):
     if data_type == onnx.TensorProto.FLOAT:
         return numpy.float32
@@ -63,6 +69,8 @@ def onnxdtype2npdtype(data_type):
         return numpy.bool_
     if data_type == onnx.TensorProto.STRING:
         return numpy.bytes_
+    if data_type in _EXTENDED_TYPES:
+        return onnx.helper.tensor_dtype_to_np_dtype(data_type).type
 
 
 def type_of_tensor(tensor):
@@ -96,6 +104,9 @@ def npdtype2onnxdtype(npdtype):
         return onnx.TensorProto.BOOL
     if numpy.dtype(npdtype).kind in 'SUO':
         return onnx.TensorProto.STRING
+    for data_type in _EXTENDED_TYPES:
+        if npdtype == onnxdtype2npdtype(data_type):
+            return data_type
 
 
 def tensorproto2ndarray(initial):
@@ -130,6 +141,9 @@ def tensorproto2ndarray(initial):
             # numpy's fixed-width bytes would drop trailing zero bytes
             arr = numpy.empty(len(initial.string_data), dtype=object)
             arr[:] = list(initial.string_data)
+        elif initial.data_type in _EXTENDED_TYPES:
+            raw = numpy.fromiter(initial.int32_data, dtype=numpy.int32)
+            arr = raw.astype(f'uint{8 * numpy.dtype(ndtype).itemsize}').view(ndtype)
     else:
         arr = numpy.frombuffer(initial.raw_data, dtype=ndtype)
     # if len(shape):
-- 
2.43.0


From 17c7fe78b1e05e5b4b8709fa0b3c0c7f2a9d4e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:06 +0000
Subject: [PATCH 149/205] fix: Upsample with scales given as attribute

---
 onnx_tool/node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 7e8968e..767cf25 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1368,6 +1368,8 @@ class ResizeNode(Node):
         super().__init__(n)
         self.add_default_value('mode', b'nearest')
         self.add_default_value('axes', None)
+        self.add_default_value('scales', None)  # attribute of the first Upsample
+        self.add_default_value('keep_aspect_ratio_policy', b'stretch')
 
     def _get_axes(self, xshape):
         if self.axes is not None:
@@ -1378,7 +1380,10 @@ class ResizeNode(Node):
         xshape = intensors[0].get_shape()
         roi = []
         sizes = []
-        if len(intensors) == 2:
+        scales = []
+        if len(intensors) == 1:
+            scales = numpy.array(self.scales)
+        elif len(intensors) == 2:
             scales = intensors[1].get_numpy()
         elif len(intensors) >= 3:
             roi = intensors[1].get_numpy()
-- 
2.43.0


From fa72f372dbea0215f3dffc76e79d42fb5e6f7e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:08 +0000
Subject: [PATCH 150/205] fix: Resize which keeps the aspect ratio

---
 onnx_tool/node.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 767cf25..051c387 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1393,7 +1393,14 @@ class ResizeNode(Node):
 
         newshape = []
         if is_valid_ndarray(sizes):
-            if len(sizes) == len(xshape):
+            if self.keep_aspect_ratio_policy != b'stretch':
+                # one scale for all resized axes
+                axes = self._get_axes(xshape)
+                ratios = [int(size) / xshape[axis] for axis, size in zip(axes, sizes)]
+                scale = min(ratios) if self.keep_aspect_ratio_policy == b'not_larger' else max(ratios)
+                newshape = numpy.array(xshape)
+                newshape[axes] = [math.floor(scale * xshape[axis] + 0.5) for axis in axes]
+            elif len(sizes) == len(xshape):
                 newshape = sizes
             else:
                 newshape = numpy.array(xshape)
-- 
2.43.0


From 573714d861e5db0ff25d2a46702b2a4275806a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:09 +0000
Subject: [PATCH 151/205] fix: default output size of RoiAlign

---
 onnx_tool/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 051c387..99ca64c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2245,6 +2245,8 @@ class FloorNode(FusedBase):
 class RoiAlignNode(Node):
     def __init__(self, node):
         super().__init__(node)
+        self.add_default_value('output_height', 1)
+        self.add_default_value('output_width', 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-- 
2.43.0


From c62de15becaad555dd82713f9f775afa6d1db6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:10 +0000
Subject: [PATCH 152/205] fix: ConvTranspose with SAME auto_pad

---
 onnx_tool/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 99ca64c..c78fccb 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2599,6 +2599,7 @@ class ConvTransposeNode(Node):
         self.add_default_value('dilations', (1, 1, 1))
         self.add_default_value('output_shape', (0, 0))
         self.add_default_value('group', 1)
+        self.add_default_value('auto_pad', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
@@ -2635,6 +2636,8 @@ class ConvTransposeNode(Node):
             shape = [xshape[0], outc, ow]
             if volume(self.output_shape) != 0:
                 shape[2] = self.output_shape[0]
+        if self.auto_pad in [b'SAME_UPPER', b'SAME_LOWER'] and volume(self.output_shape) == 0:
+            shape[2:] = [x * s for x, s in zip(xshape[2:], self.strides)]
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From 27f8c119fc9b304717a5567832236501ff1f111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:12 +0000
Subject: [PATCH 153/205] fix: TopK with k given as attribute

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index c78fccb..1cd2f0a 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1967,10 +1967,11 @@ class TopKNode(Node):
     def __init__(self, node):
         super().__init__(node)
         self.add_default_value('axis', -1)
+        self.add_default_value('k', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-        k = intensors[1].get_numpy()[0]
+        k = intensors[1].get_numpy()[0] if self.k is None else self.k
         axis = _axes_neg2pos(len(xshape), [self.axis])[0]
         newshape = []
         for i in range(len(xshape)):
-- 
2.43.0


From fbadb2ef685fab0db794880096a075b972ab26f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:36 +0000
Subject: [PATCH 154/205] fix: element type of QuantizeLinear with output_dtype

---
 onnx_tool/node.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1cd2f0a..eefa809 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2496,11 +2496,17 @@ class QuantizeLinearNode(PWNode):
         super().__init__(node_proto)
         self.op_mac = MUL_MACS + ADD_MACS
         self.ratio = 1
+        self.add_default_value('output_dtype', 0)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
         has_zero = len(intensors) > 2 and intensors[2].name != ''
-        outtensors[0].update_dtype(intensors[2].dtype if has_zero else numpy.uint8)
+        if has_zero:
+            outtensors[0].update_dtype(intensors[2].dtype)
+        elif self.output_dtype:
+            outtensors[0].update_dtype(onnxdtype2npdtype(self.output_dtype))
+        else:
+            outtensors[0].update_dtype(numpy.uint8)
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 028ff2c1e96a8a749685e657b761cb1dd51641da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:57 +0000
Subject: [PATCH 155/205] fix: Slice of an empty dimension with a negative step
 is empty

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index eefa809..4ac3a07 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1788,7 +1788,7 @@ class SliceNode(Node):
             if isinstance(st, int) and st < 0:
                 # negative stepping: start clamped to [0, dim-1]
                 if isinstance(dim, int):
-                    s = max(0, min(s, dim - 1))
+                    s = min(max(0, s), dim - 1)  # -1 on an empty dimension, nothing is left of it
                 else:
                     s = max(0, s)
             else:
-- 
2.43.0


From 41f480a00912f5d952ed8b49270f699bb1d56f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:58 +0000
Subject: [PATCH 156/205] fix: ReduceMin and ReduceMax over an empty set of
 values

---
 onnx_tool/node.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4ac3a07..73b8c63 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1939,12 +1939,22 @@ class ReduceSumNode(ReduceMeanNode):
         outtensors[0].update_tensor(reduced)
 
 
+def _type_limits(dtype):
+    """smallest and largest value of an element type"""
+    if numpy.issubdtype(dtype, numpy.integer):
+        return numpy.iinfo(dtype).min, numpy.iinfo(dtype).max
+    if dtype == numpy.bool_:
+        return False, True
+    return -numpy.inf, numpy.inf
+
+
 @NODE_REGISTRY.register()
 class ReduceMinNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
         axes = self._get_axes(intensors)
-        reduced = numpy.minimum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
+        reduced = numpy.minimum.reduce(data, axis=axes, keepdims=self.keepdims == 1,
+                                       initial=_type_limits(data.dtype)[1])
         outtensors[0].update_tensor(reduced)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -1958,7 +1968,8 @@ class ReduceMaxNode(ReduceMinNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
         axes = self._get_axes(intensors)
-        reduced = numpy.maximum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
+        reduced = numpy.maximum.reduce(data, axis=axes, keepdims=self.keepdims == 1,
+                                       initial=_type_limits(data.dtype)[0])
         outtensors[0].update_tensor(reduced)
 
 
-- 
2.43.0


From 66df52d6d3279146e4e40f267e0de138be136931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:32 +0000
Subject: [PATCH 157/205] fix: Pow keeps the element type of its base

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 73b8c63..c480294 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -550,7 +550,8 @@ class PowNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(sel, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = numpy.power(intensors[0].get_numpy(), intensors[1].get_numpy())
+        base = intensors[0].get_numpy()
+        result = numpy.power(base, intensors[1].get_numpy()).astype(base.dtype)
         outtensors[0].update_tensor(result)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From ed3d822733910e77ee990ef190a12f146314306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 158/205] fix: ReduceL2 of integers keeps the element type

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index c480294..4ad69e4 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2193,8 +2193,8 @@ class ConvNode(Node):
 class ReduceL2Node(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         axes = self._get_axes(intensors)
-        reduced = numpy.sqrt(
-            numpy.sum(intensors[0].get_numpy() * intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1))
+        data = intensors[0].get_numpy()
+        reduced = numpy.sqrt(numpy.sum(data * data, axis=axes, keepdims=self.keepdims == 1)).astype(data.dtype)
         outtensors[0].update_tensor(reduced)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From a16ec0d5cb3d4e9312a4f6e2f4eba36636bc7463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:34 +0000
Subject: [PATCH 159/205] fix: OneHot of indices outside of its range has no
 hot value

---
 onnx_tool/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4ad69e4..87b8a43 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1168,7 +1168,9 @@ def one_hot(indices, depth, axis=-1, dtype=numpy.float32):  # type: ignore
     ls = values.shape[0:axis]
     rs = values.shape[axis:rank]
     targets = numpy.reshape(depth_range, (1,) * len(ls) + depth_range.shape + (1,) * len(rs))
-    values = numpy.reshape(numpy.mod(values, depth), ls + (1,) + rs)
+    # indices outside of [-depth, depth - 1] select nothing
+    values = numpy.where((values >= -depth) & (values < depth), numpy.mod(values, depth), depth)
+    values = numpy.reshape(values, ls + (1,) + rs)
     return numpy.asarray(targets == values, dtype=dtype)
 
 
-- 
2.43.0


From 0585b1267a090800fd057a90170638fe664ca956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:04 +0000
Subject: [PATCH 160/205] fix: Constant nodes holding a sparse tensor or
 strings

---
 onnx_tool/node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 87b8a43..7f84d9c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -3,7 +3,7 @@ import onnx
 import math
 import warnings
 from typing import List
-from .tensor import get_attribute_data, volume, is_valid_ndarray, create_ndarray_f32, onnxdtype2npdtype, Tensor
+from .tensor import get_attribute_data, volume, is_valid_ndarray, create_ndarray_f32, onnxdtype2npdtype, sparsetensorproto2ndarray, Tensor
 from .utils import NODE_REGISTRY
 
 '''
@@ -1102,6 +1102,11 @@ class ConstantNode(Node):
                            ('value_int', numpy.int64), ('value_ints', numpy.int64)):
             if hasattr(self, key):
                 self.value = numpy.array(getattr(self, key), dtype=dtype)
+        for key in ('value_string', 'value_strings'):
+            if key in self.attr:
+                self.value = numpy.array(self.attr[key], dtype=object)
+        if 'sparse_value' in self.attr:
+            self.value = sparsetensorproto2ndarray(self.attr['sparse_value'])
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(self.value.shape)
-- 
2.43.0


From ffc98f8e939c3d9667e0538d3d942bd60bdd5e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:03 +0000
Subject: [PATCH 161/205] fix: filling a pool tensor with fewer elements than
 its padded slot holds

---
 inference/memory_pool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inference/memory_pool.py b/inference/memory_pool.py
index 9fe5d9f..3178d67 100644
--- a/inference/memory_pool.py
+++ b/inference/memory_pool.py
@@ -196,7 +196,8 @@ class MemoryPool:
         t = self.get(key)
         if isinstance(value, np.ndarray):
             value = torch.from_numpy(value)
-        t.copy_(value.flatten()[:t.numel()].to(device=self._device, dtype=self._dtype))
+        value = value.flatten()[:t.numel()]
+        t[:value.numel()].copy_(value.to(device=self._device, dtype=self._dtype))
 
     def __repr__(self) -> str:
         return (
-- 
2.43.0


From 2e18e4b59b9aacc2f190bfb3d0d053365a74324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:39 +0000
Subject: [PATCH 162/205] fix: functions of a model are kept when it is saved

---
 onnx_tool/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 21c6bd4..bb11842 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1006,6 +1006,8 @@ class Graph():
                 model.opset_import.pop()
                 for opset in rawmodel.opset_import:
                     model.opset_import.append(opset)
+                # nodes may call the functions of their model
+                model.functions.extend(rawmodel.functions)
             onnx.save_model(model, f)
 
     def make_graph_onnx(self, nodenames, gname, inputnames, outputnames, with_initializer=True, with_shape_info=True):
-- 
2.43.0


From e57db05f8a40f9b59968e037a4481c6cd282360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:41 +0000
Subject: [PATCH 163/205] fix: inputs and outputs without a numpy type keep
 their declaration

---
 onnx_tool/tensor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 5a662ce..e82e350 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -538,6 +538,11 @@ class Tensor():
             dtype = npdtype2onnxdtype(self.numpy.dtype.type)
         if self.name == '':
             return None
+        if dtype is None and isinstance(self.proto, onnx.ValueInfoProto):
+            # a sequence, map or optional value or an element type without a numpy type stays as it was declared
+            vinf = onnx.ValueInfoProto()
+            vinf.CopyFrom(self.proto)
+            return vinf
         # shape = [int(i) for i in shape]
         vinf = onnx.helper.make_tensor_value_info(self.name, dtype, shape)
         return vinf
-- 
2.43.0


From 68d1b2672780bce8c1ecaead48896a18bc63fed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:04 +0000
Subject: [PATCH 164/205] fix: fusing by tensors leaves instances which would
 need their own results

---
 onnx_tool/graph.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index bb11842..535c6a6 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -969,6 +969,22 @@ class Graph():
         newnode.output = _outputs
         self.__replace_nodes__(nodes, newnode)
 
+    def __is_feeding_back__(self, nodenames):
+        # whether nodes outside need results of these nodes and these nodes need results of the nodes outside
+        outside = set()
+        search = list(nodenames)
+        while len(search):
+            for output in self.nodemap[search.pop()].output:
+                for consumer in self.consumedby.get(output, []):
+                    if consumer not in nodenames and consumer not in outside:
+                        outside.add(consumer)
+                        search.append(consumer)
+        for name in nodenames:
+            for tensor in self.nodemap[name].input:
+                if outside & set(self.producedby.get(tensor, [])):
+                    return True
+        return False
+
     def fuse_subgraph_iotensors(self, inputs: [], outputs: [], nodeop: str, name_prefix: str = None, keep_attr=True):
         _, nodes, _ = self.__get_subnodes_byio__(inputs, outputs)
         from .fusion import create_descs_from_nodenames, FusionPattern
@@ -978,7 +994,12 @@ class Graph():
         if not any(set(nodes) == set(found) for found in nodesls):
             # the subgraph itself has to be one of the groups
             nodesls = [nodes] + [found for found in nodesls if not set(nodes) & set(found)]
-        for i, nodes in enumerate(nodesls):
+        requested = set(nodes)
+        i = -1
+        for nodes in nodesls:
+            if set(nodes) != requested and self.__is_feeding_back__(nodes):
+                continue  # fused, this instance would need its own results
+            i += 1
             name = name_prefix + '_' + str(i) if name_prefix is not None else nodes[0]
             self.fuse_subgraph_node_names(nodes, nodeop, name, keep_attr)
 
-- 
2.43.0


From 0b581046ddb62ee8e036021042e1478892793f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:33 +0000
Subject: [PATCH 165/205] fix: attributes of custom operators do not replace
 members of the node

---
 onnx_tool/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 7f84d9c..16821d6 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -235,6 +235,8 @@ class Node():
         else:
             for att in n.attribute:
                 self.attr[att.name] = onnx.helper.get_attribute_value(att)
+                if hasattr(self, att.name) or att.name == 'constant':
+                    continue  # an attribute of a custom operator does not replace a member of the node
                 self.__setattr__(att.name, get_attribute_data(att))
                 if att.name == 'axes':
                     if isinstance(self.axes, list):
-- 
2.43.0


From c98ddce642225146eba1b1053eed74cfbed94454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:35 +0000
Subject: [PATCH 166/205] fix: calls keep the overload of the function they
 name

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 16821d6..1bb79f3 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -252,7 +252,8 @@ class Node():
 
     def make_nodeproto(self):
         node = onnx.helper.make_node(self.op_type, self.input, self.output, self.name,
-                                     domain=getattr(self.proto, 'domain', ''))
+                                     domain=getattr(self.proto, 'domain', ''),
+                                     overload=getattr(self.proto, 'overload', ''))
         raw_types = {}
         if isinstance(self.proto, onnx.NodeProto):
             raw_types = {att.name: att.type for att in self.proto.attribute}
-- 
2.43.0


From c257628370bbc89bd9c550f17e6b5bb0d1071156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:36 +0000
Subject: [PATCH 167/205] fix: ConstantOfShape takes a scalar value

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1bb79f3..dc303a1 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2795,8 +2795,8 @@ class ConstantOfShapeNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         dtype = numpy.float32 if self.value is None else self.value.dtype
         arr = numpy.zeros(intensors[0].get_numpy(), dtype=dtype)
-        if self.value is not None and len(self.value) == 1:
-            arr.fill(self.value[0])
+        if self.value is not None and self.value.size == 1:
+            arr.fill(self.value.reshape(-1)[0])
         outtensors[0].update_tensor(arr)
 
 
-- 
2.43.0


From de2152c713983d8dfb1ec723a6bcd3fd0574204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:22 +0000
Subject: [PATCH 168/205] fix: expressions of the shape engine take no names of
 the variables

---
 onnx_tool/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 535c6a6..fcac638 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1342,6 +1342,8 @@ class Graph():
                     valkey = key
                 else:
                     vcount += 1
+                    while str(vcount) in input_range:
+                        vcount += 1  # the name of a variable of the caller
                     valkey = str(vcount)
                     tname = ranges[dstrange][0][0]
                     srckeys = []
-- 
2.43.0


From 917863a4a6a26cbb539c32d371c254f869209011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:30 +0000
Subject: [PATCH 169/205] fix: a fused node does not take the place of another
 node of its name

---
 onnx_tool/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index fcac638..8ac1559 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -916,6 +916,8 @@ class Graph():
 
     def fuse_subgraph_node_names(self, nodes: [str], nodeop: str, nodename: str, keep_attr=True):
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
+        while nodename in self.nodemap and nodename not in nodes:
+            nodename += '_'  # another node has this name
         newnode_prot = onnx.helper.make_node(nodeop, _inputs, _outputs, name=nodename)
         count = 0
         if keep_attr:
-- 
2.43.0


From dea34ae7488daf818d19cd47e3147da53276b457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:38 +0000
Subject: [PATCH 170/205] fix: quantized codes do not replace a tensor of their
 name

---
 onnx_tool/quantization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 1cfe76f..6e87e2b 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -153,13 +153,17 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
     for nname in consumers:
         node = g.nodemap[nname]
         # positions before other weights of the node were quantized
-        inputs = [input for input in node.input if not input.endswith(('_ot_s', '_ot_z'))]
+        inputs = [input for input in node.input if not (input.endswith(('_ot_s', '_ot_z'))
+                                                        and input[:-1] + 'q' in node.input)]
         for i, input in enumerate(inputs):
             if input == tname:
                 layouts.add(isinstance(node, onnx_tool.node.GemmNode) and i == 1 and node.transB == 0)
     if len(layouts) != 1:
         warnings.warn(f"{tname} is shared by nodes with different weight layouts, it is not quantized")
         return
+    if any(tname + suf in g.tensormap for suf in quantized_suffix):
+        warnings.warn(f"{tname} is not quantized, another tensor has the name of its codes")
+        return
     if True in layouts:
         f32arr = f32arr.transpose()
     # the caller may be iterating over the weights of the graph
-- 
2.43.0


From c93b8267ad718258f9477a91edb53484d1cbd82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:57 +0000
Subject: [PATCH 171/205] fix: attribute conditions read attributes named like
 members of a node

---
 onnx_tool/fusion.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 7caa9c7..22b5160 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -229,13 +229,13 @@ class AttrExpr():
             self.idx = -1
 
     def __call__(self, x):
-        if hasattr(x, self.attrname):
+        if self.attrname in x.attr or hasattr(x, self.attrname):
+            # a member of the node may have the name of an attribute
+            values = x.attr[self.attrname] if self.attrname in x.attr else x.__getattribute__(self.attrname)
             if self.idx == -1:
-                return self.logical(x.__getattribute__(self.attrname))
-            else:
-                values = x.__getattribute__(self.attrname)
-                if values is not None and self.idx < len(values):
-                    return self.logical(values[self.idx])
+                return self.logical(values)
+            if values is not None and self.idx < len(values):
+                return self.logical(values[self.idx])
         return False
 
     def logical(self, attr):
-- 
2.43.0


From 2568b80285d9e4b34e311b27b0c731162cbd5f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:58 +0000
Subject: [PATCH 172/205] fix: attribute conditions compare strings

---
 onnx_tool/fusion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 22b5160..d89f60f 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -239,6 +239,8 @@ class AttrExpr():
         return False
 
     def logical(self, attr):
+        if isinstance(attr, bytes) and isinstance(self.num, str):
+            attr = attr.decode()
         if self.expr == '<=':
             return attr <= self.num
         if self.expr == '<':
-- 
2.43.0


From fe8c47078305f0ae26ca5de1af02e5f5e902074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:16 +0000
Subject: [PATCH 173/205] fix: an input which is an output stays one when no
 node reads it

---
 onnx_tool/graph.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 8ac1559..8bcb82d 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -359,6 +359,12 @@ class Graph():
                     if tname != '' and tname not in self.dynamics:
                         self.dynamics.append(tname)
 
+        raworder = {v.name: i for i, v in enumerate(self.rawgraph.input)} if self.rawgraph is not None else {}
+        for tname in self.output:
+            # an input may be an output without any node in between
+            if tname in raworder and tname not in self.initials and tname not in self.dynamics:
+                self.dynamics.append(tname)
+
         valid_tensors = ['']
         valid_tensors.extend(self.initials)
         valid_tensors.extend(self.dynamics)
@@ -383,10 +389,11 @@ class Graph():
                     if tensor != '' and (tensor not in self.consumedby or len(self.consumedby[tensor]) == 0):
                         if tensor not in self.output:
                             self.output.append(tensor)
-        if self.rawgraph is not None:
-            # list the inputs in the order of the raw graph
-            raworder = {v.name: i for i, v in enumerate(self.rawgraph.input)}
-            self.input.sort(key=lambda t: raworder.get(t, len(raworder)))
+        for tensor in self.output:
+            if tensor in raworder and tensor in self.dynamics and tensor not in self.input:
+                self.input.append(tensor)
+        # list the inputs in the order of the raw graph
+        self.input.sort(key=lambda t: raworder.get(t, len(raworder)))
         self.__update_consumer_producer__()
         self.log(f'Update Nodes Tensors  Time Elapsed {tm.stop()}')
 
-- 
2.43.0


From c0aa7d916429ab6ecb35e9a7b9cb9d67bac6d9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:21 +0000
Subject: [PATCH 174/205] fix: the results of a Scan have the shapes its body
 gives

---
 onnx_tool/node.py | 52 +++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index dc303a1..ad0a32b 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2013,25 +2013,43 @@ class ScanNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
         self.add_default_value('num_scan_inputs', None)
-        self.add_default_value('scan_input_directions', None)
+        self.add_default_value('scan_input_axes', None)
+        self.add_default_value('scan_output_axes', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(self.output) == 2:
-            outtensors[0].update_shape(intensors[3].get_shape())
-            outtensors[0].update_dtype(intensors[3].dtype)
-            outtensors[1].update_shape(intensors[3].get_shape())
-            outtensors[1].update_dtype(intensors[3].dtype)
-        # TODO
-        outtensors[0].update_shape([1, 1])
-        outtensors[0].update_dtype(intensors[3].dtype)
-        outtensors[1].update_shape([1, 1])
-        outtensors[1].update_dtype(intensors[3].dtype)
-        outtensors[2].update_shape([1, ])
-        outtensors[2].update_dtype(intensors[3].dtype)
-        outtensors[3].update_shape(intensors[3].get_shape())
-        outtensors[3].update_dtype(intensors[3].dtype)
-        outtensors[4].update_shape(intensors[3].get_shape())
-        outtensors[4].update_dtype(intensors[3].dtype)
+        from .graph import Graph, _captured_tensors
+        from .tensor import npdtype2onnxdtype
+        from .utils import ModelConfig
+        body = onnx.GraphProto()
+        body.CopyFrom(self.attr['body'])
+        if any(name != '' for name in _captured_tensors(body)):
+            raise NotImplementedError('a Scan body taking tensors of the graph around it')
+        # before opset 9 the sequence lengths come first and every tensor has a batch axis
+        batched = len(intensors) == len(body.input) + 1
+        if batched:
+            intensors = intensors[1:]
+        states = len(body.input) - self.num_scan_inputs
+        in_axes = self.scan_input_axes or [0] * self.num_scan_inputs
+        out_axes = self.scan_output_axes or [0] * (len(body.output) - states)
+        for i, vinfo in enumerate(body.input):
+            shape = list(intensors[i].get_shape())
+            if batched:
+                batch = shape.pop(0)
+            if i >= states:
+                length = shape.pop(in_axes[i - states])
+            vinfo.CopyFrom(onnx.helper.make_tensor_value_info(vinfo.name, npdtype2onnxdtype(intensors[i].dtype), shape))
+        graph = Graph(body, ModelConfig())
+        graph.shape_infer()
+        for i, (vinfo, outtensor) in enumerate(zip(body.output, outtensors)):
+            result = graph.tensormap[vinfo.name]
+            shape = list(result.get_shape())
+            if i >= states:
+                axis = out_axes[i - states]
+                shape.insert(axis if axis >= 0 else axis + len(shape) + 1, length)
+            if batched:
+                shape.insert(0, batch)
+            outtensor.update_shape(shape)
+            outtensor.update_dtype(result.dtype)
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From ff3bbd79b68399e983e0e246e639a9b9492971f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:24 +0000
Subject: [PATCH 175/205] fix: average precision counts the precision at a
 recall which is reached exactly

---
 inference/yolo_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index 6010959..b88bb28 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -323,7 +323,7 @@ def _compute_ap(recalls: np.ndarray, precisions: np.ndarray) -> float:
     # 在 101 个 recall 点采样
     ap = 0.0
     for t in np.linspace(0, 1, 101):
-        idx = np.searchsorted(recalls, t, side='right')
+        idx = np.searchsorted(recalls, t, side='left')
         if idx < len(precisions):
             ap += precisions[idx]
     return ap / 101.0
-- 
2.43.0


From 19fc2716dc1f734b3481d9e21c351d18f2f93570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:25 +0000
Subject: [PATCH 176/205] fix: detections are compared with the categories of
 their class

---
 inference/yolo_eval.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index b88bb28..7613876 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -209,10 +209,15 @@ def compute_coco_metrics(
     if iou_thresholds is None:
         iou_thresholds = np.linspace(0.5, 0.95, 10).tolist()
 
+    # 模型的第 k 类是 id 第 k 小的 category (COCO 的 category id 从 1 开始且不连续)
+    category_ids = sorted(cat['id'] for cat in gt_annotations.get('categories', []))
+    class_of = {cat_id: k for k, cat_id in enumerate(category_ids)}
+
     # 构建 GT 索引: image_id -> [annotations]
     gt_by_image = defaultdict(list)
     for ann in gt_annotations['annotations']:
-        gt_by_image[ann['image_id']].append(ann)
+        gt_by_image[ann['image_id']].append(
+            {**ann, 'category_id': class_of.get(ann['category_id'], ann['category_id'])})
 
     # 按类别组织预测
     preds_by_class = defaultdict(list)  # class_id -> [(image_id, score, box, matched)]
-- 
2.43.0


From 94f91126fdbeb900fbd777e6e38682a42b2ee2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:26 +0000
Subject: [PATCH 177/205] fix: detections are compared with annotations in the
 coordinates of the original image

---
 inference/yolo_eval.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index 7613876..89d4e19 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -578,6 +578,12 @@ def load_image(image_path: str, target_size: Tuple[int, int] = (640, 640)) -> Tu
         return img[np.newaxis, ...], letterbox_info
 
 
+def to_original_boxes(boxes: np.ndarray, letterbox_info: Tuple[float, float, float]) -> np.ndarray:
+    """将 letterbox 坐标的 xyxy 框 [N, 4] 映射回原始图像坐标"""
+    pad_left, pad_top, scale = letterbox_info
+    return (boxes - np.array([pad_left, pad_top, pad_left, pad_top])) / scale
+
+
 # ===========================================================================
 # 主评估流程
 # ===========================================================================
@@ -703,7 +709,7 @@ class YOLOEvaluator:
 
             all_dets.append({
                 'image_id': image_id,
-                'boxes': dets[:, 1:5] if len(dets) > 0 else np.zeros((0, 4)),
+                'boxes': to_original_boxes(dets[:, 1:5], lb_info),
                 'scores': dets[:, 6] if len(dets) > 0 else np.zeros(0),
                 'labels': dets[:, 5] if len(dets) > 0 else np.zeros(0),
             })
@@ -787,7 +793,7 @@ class YOLOEvaluator:
             all_dets.append({
                 'image_id': idx,
                 'file_name': file_name,
-                'boxes': dets[:, 1:5] if len(dets) > 0 else np.zeros((0, 4)),
+                'boxes': to_original_boxes(dets[:, 1:5], lb_info),
                 'scores': dets[:, 6] if len(dets) > 0 else np.zeros(0),
                 'labels': dets[:, 5] if len(dets) > 0 else np.zeros(0),
             })
@@ -916,16 +922,16 @@ def export_pr_curve(
         image_path = os.path.join(image_dir, file_name)
         if not os.path.isfile(image_path):
             continue
-        img, _ = load_image(image_path, evaluator.input_size)
+        img, lb_info = load_image(image_path, evaluator.input_size)
         output = evaluator.infer_single(img)
 
         if output.ndim == 3:
             output = output[0]
 
-        for det in output:
+        for det, box in zip(output, to_original_boxes(output[:, :4], lb_info)):
             all_preds.append({
                 'image_id': img_info['id'],
-                'box': det[:4].tolist(),
+                'box': box.tolist(),
                 'score': float(det[4]),
                 'cls': int(det[5]),
             })
-- 
2.43.0


From f127d62e2e6a89f782c65c6cf15a7be5aea3fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:27 +0000
Subject: [PATCH 178/205] fix: annotations of images which were not evaluated
 are no missed objects

---
 inference/yolo_eval.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index 89d4e19..4ed97cf 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -730,6 +730,8 @@ class YOLOEvaluator:
 
         # 计算指标
         print(f"\nComputing COCO metrics...")
+        evaluated = {det['image_id'] for det in all_dets}
+        gt = {**gt, 'annotations': [ann for ann in gt['annotations'] if ann['image_id'] in evaluated]}
         metrics = compute_coco_metrics(all_dets, gt, num_classes=num_classes)
 
         metrics['num_images'] = len(images)
@@ -917,12 +919,14 @@ def export_pr_curve(
 
     # 收集所有预测（不设置信度阈值）
     all_preds = []
+    evaluated = set()
     for idx, img_info in enumerate(images):
         file_name = img_info['file_name']
         image_path = os.path.join(image_dir, file_name)
         if not os.path.isfile(image_path):
             continue
         img, lb_info = load_image(image_path, evaluator.input_size)
+        evaluated.add(img_info['id'])
         output = evaluator.infer_single(img)
 
         if output.ndim == 3:
@@ -936,6 +940,8 @@ def export_pr_curve(
                 'cls': int(det[5]),
             })
 
+    gt = {**gt, 'annotations': [ann for ann in gt['annotations'] if ann['image_id'] in evaluated]}
+
     # 按置信度排序
     all_preds.sort(key=lambda x: -x['score'])
 
-- 
2.43.0


From 6a0171d27572ae66df47421da47787fba2ae10a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:28 +0000
Subject: [PATCH 179/205] fix: images of a directory are compared with the
 annotations of their file

---
 inference/yolo_eval.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index 4ed97cf..12df934 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -773,6 +773,12 @@ class YOLOEvaluator:
         if max_images > 0:
             image_files = image_files[:max_images]
 
+        # 标注文件中的 image_id，按文件名对应
+        image_ids = {}
+        if anno_file and os.path.isfile(anno_file):
+            image_ids = {img_info['file_name']: img_info['id']
+                         for img_info in load_coco_annotations(anno_file).get('images', [])}
+
         all_dets = []
         total_time = 0.0
 
@@ -793,7 +799,7 @@ class YOLOEvaluator:
             )[0]
 
             all_dets.append({
-                'image_id': idx,
+                'image_id': image_ids.get(file_name, idx if not image_ids else file_name),
                 'file_name': file_name,
                 'boxes': to_original_boxes(dets[:, 1:5], lb_info),
                 'scores': dets[:, 6] if len(dets) > 0 else np.zeros(0),
@@ -809,7 +815,7 @@ class YOLOEvaluator:
                     image_path, dets, save_dir, file_name,
                     lb_info=lb_info,
                     gt_annotations=gt,
-                    image_id=idx,
+                    image_id=all_dets[-1]['image_id'],
                 )
 
             if (idx + 1) % 10 == 0 or idx == len(image_files) - 1:
@@ -829,6 +835,8 @@ class YOLOEvaluator:
         if anno_file and os.path.isfile(anno_file):
             gt = load_coco_annotations(anno_file)
             num_classes = len(gt.get('categories', []))
+            evaluated = {det['image_id'] for det in all_dets}
+            gt = {**gt, 'annotations': [ann for ann in gt['annotations'] if ann['image_id'] in evaluated]}
             coco_metrics = compute_coco_metrics(all_dets, gt, num_classes=num_classes)
             metrics.update(coco_metrics)
 
-- 
2.43.0


From 47c6953d885a9354f9e3cec7b06a635b9ec3e437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:13 +0000
Subject: [PATCH 180/205] fix: convolutions pad the width by its own padding
 and both ends by theirs

---
 inference/kernels.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 7a56599..a6127f1 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -125,7 +125,11 @@ class ConvKernel(Kernel):
         if len(pads) == 2:
             pad_h, pad_w = pads[0], pads[1]
         elif len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
+            pad_h, pad_w = pads[0], pads[1]
+            if pads[0] != pads[2] or pads[1] != pads[3]:
+                # 不对称 padding: F.conv2d 只支持对称，先显式填充
+                x = F.pad(x, (pads[1], pads[3], pads[0], pads[2]))
+                pad_h, pad_w = 0, 0
         else:
             pad_h, pad_w = 0, 0
 
-- 
2.43.0


From 920179a595a411de559b51f9bad93d8739951dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:14 +0000
Subject: [PATCH 181/205] fix: pooling pads the width by its own padding

---
 inference/kernels.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index a6127f1..ca906bb 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -356,8 +356,9 @@ class AveragePoolKernel(Kernel):
         strides = attrs.get('strides', (1, 1))
         pads = attrs.get('pads', (0, 0, 0, 0))
 
+        # ONNX pads 格式: [h_begin, w_begin, h_end, w_end]
         if len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
+            pad_h, pad_w = pads[0], pads[1]
         else:
             pad_h, pad_w = 0, 0
 
@@ -377,8 +378,9 @@ class MaxPoolKernel(Kernel):
         strides = attrs.get('strides', (1, 1))
         pads = attrs.get('pads', (0, 0, 0, 0))
 
+        # ONNX pads 格式: [h_begin, w_begin, h_end, w_end]
         if len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
+            pad_h, pad_w = pads[0], pads[1]
         else:
             pad_h, pad_w = 0, 0
 
-- 
2.43.0


From affd7252a1e29cd6ffbb45999eafdf0af3d2ea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:15 +0000
Subject: [PATCH 182/205] fix: average pooling does not count padding unless
 told to

---
 inference/kernels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index ca906bb..db922c9 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -363,7 +363,8 @@ class AveragePoolKernel(Kernel):
             pad_h, pad_w = 0, 0
 
         outputs[0].copy_(
-            F.avg_pool2d(x, kernel_shape, stride=strides, padding=(pad_h, pad_w))
+            F.avg_pool2d(x, kernel_shape, stride=strides, padding=(pad_h, pad_w),
+                         count_include_pad=bool(attrs.get('count_include_pad', 0)))
         )
 
 
-- 
2.43.0


From 666d947e48beb5e7647e4f81a32f2a5d58788982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:16 +0000
Subject: [PATCH 183/205] fix: Pad takes the beginnings and ends in their order

---
 inference/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index db922c9..a81cff6 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -720,11 +720,11 @@ class PadKernel(Kernel):
         # F.pad: (x1_begin, x1_end, x2_begin, x2_end, ...)
         ndim = len(pads) // 2
         pad_tuple = []
-        for i in range(ndim):
+        # F.pad 格式从最后一个维度开始
+        for i in reversed(range(ndim)):
             pad_tuple.append(pads[i])           # begin
             pad_tuple.append(pads[i + ndim])     # end
-        # F.pad 格式从最后一个维度开始
-        pad_tuple = tuple(pad_tuple[::-1])
+        pad_tuple = tuple(pad_tuple)
 
         torch_mode = {'constant': 'constant', 'reflect': 'reflect', 'edge': 'replicate'}.get(mode, 'constant')
         outputs[0].copy_(F.pad(x, pad_tuple, mode=torch_mode, value=value))
-- 
2.43.0


From 5ef4b86a8045fe4572c221462fadbb3b19a83107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:17 +0000
Subject: [PATCH 184/205] fix: Gather takes negative, scalar and several
 dimensions of indices

---
 inference/kernels.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index a81cff6..aee27b1 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -501,16 +501,14 @@ class GatherKernel(Kernel):
         axis = attrs.get('axis', 0)
         data = inputs[0]
         indices = inputs[1].long()
+        # 负索引从末尾开始计数
+        indices = torch.where(indices < 0, indices + data.shape[axis], indices)
         # ONNX Gather: data[indices, ...] 沿 axis 维收集
         # 使用 torch.index_select 更高效且语义正确
-        if indices.dim() > 1:
-            # 多维 indices: 需要先展平再 reshape
-            flat_idx = indices.reshape(-1)
-            result = torch.index_select(data, axis, flat_idx)
-            # 恢复 indices 的维度
-            out_shape = list(data.shape)
-            out_shape[axis] = indices.numel()
-            outputs[0].copy_(result.reshape(out_shape))
+        if indices.dim() != 1:
+            # 标量或多维 indices: 需要先展平再恢复 indices 的维度
+            result = torch.index_select(data, axis, indices.reshape(-1))
+            outputs[0].copy_(result.reshape(outputs[0].shape))
         else:
             outputs[0].copy_(torch.index_select(data, axis, indices))
 
-- 
2.43.0


From 5db7fda17f1b2edf2b9af994fdb2ea71e7fc4513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:18 +0000
Subject: [PATCH 185/205] fix: GatherElements takes negative indices

---
 inference/kernels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inference/kernels.py b/inference/kernels.py
index aee27b1..0effde3 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -1088,6 +1088,8 @@ class GatherElementsKernel(Kernel):
         axis = attrs.get('axis', 0)
         data = inputs[0]
         indices = inputs[1].long()
+        # 负索引从末尾开始计数
+        indices = torch.where(indices < 0, indices + data.shape[axis], indices)
         outputs[0].copy_(torch.gather(data, axis, indices))
 
 
-- 
2.43.0


From c4c243ef6ce053bf64915fa6d844730b53f1629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:19 +0000
Subject: [PATCH 186/205] fix: cached attention over separate heads keeps its
 keys and values by token

---
 inference/kernels.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 0effde3..f99ed55 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -916,7 +916,7 @@ class SDPAKernel(Kernel):
             kv_hidden_size = k.shape[-1]  # 保存原始 K 的最后一维
         else:
             head_dim = q.shape[-1]
-            kv_hidden_size = k.shape[-1] * k.shape[-2] if k.dim() == 4 else k.shape[-1]
+            kv_hidden_size = k.shape[-1] * k.shape[1] if k.dim() == 4 else k.shape[-1]
 
         # 统一转为 4D [B, N, S, head_dim]
         if q.dim() == 3:
@@ -949,13 +949,15 @@ class SDPAKernel(Kernel):
             cache_k = cache_k.reshape(B, n_past, kv_head_num, head_dim).transpose(1, 2)
             cache_v = cache_v.reshape(B, n_past, kv_head_num, head_dim).transpose(1, 2)
 
+            # 当前 K/V，按 kv_cache 的布局 [B, S, kv_hidden_size]
+            curr_k_flat = k.transpose(1, 2).reshape(B, S, -1)
+            curr_v_flat = v.transpose(1, 2).reshape(B, S, -1)
+
             # 拼接历史和当前
             k = torch.cat([cache_k, k], dim=2)  # [B, kv_head_num, n_past+S, head_dim]
             v = torch.cat([cache_v, v], dim=2)
 
             # 把当前 K/V 写回 kv_cache（只写 kv_hidden_size 个元素）
-            curr_k_flat = inputs[1].reshape(B, S, -1)  # [B, S, kv_hidden_size]
-            curr_v_flat = inputs[2].reshape(B, S, -1)  # [B, S, kv_hidden_size]
             kv_cache[:, layer_i * 2, n_past:n_past + S, :kv_hidden_size] = curr_k_flat
             kv_cache[:, layer_i * 2 + 1, n_past:n_past + S, :kv_hidden_size] = curr_v_flat
 
-- 
2.43.0


From 02206c82f2aa6fccb88db84ae52a0e447f6ef847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:20 +0000
Subject: [PATCH 187/205] fix: Unsqueeze takes negative axes

---
 inference/kernels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index f99ed55..5742bbb 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -475,7 +475,8 @@ class UnsqueezeKernel(Kernel):
 
         if axes is not None:
             t = inputs[0]
-            for ax in sorted(axes):
+            ndim = t.dim() + len(axes)
+            for ax in sorted(ax % ndim for ax in axes):
                 t = t.unsqueeze(ax)
             outputs[0].copy_(t)
         else:
-- 
2.43.0


From ca056bcce626d0c4b3000457819dea526808e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:21 +0000
Subject: [PATCH 188/205] fix: Squeeze takes its axes from its second input

---
 inference/kernels.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 5742bbb..5ad241e 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -454,7 +454,11 @@ class SqueezeKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        axes = attrs.get('axes', None)
+        # axes 来源: inputs[1] (ONNX 13+) 或 attrs['axes'] (ONNX 11-)
+        if len(inputs) > 1 and inputs[1] is not None:
+            axes = [int(x) for x in inputs[1].cpu().tolist()]
+        else:
+            axes = attrs.get('axes', None)
         if axes is not None:
             outputs[0].copy_(inputs[0].squeeze(dim=tuple(axes)))
         else:
-- 
2.43.0


From a82bb083a24edec4f18abf0044845475c65dd0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:22 +0000
Subject: [PATCH 189/205] fix: reductions without axes go over all of them

---
 inference/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 5ad241e..ed698a6 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -654,7 +654,7 @@ class ReduceMeanKernel(Kernel):
         if axes is not None:
             outputs[0].copy_(inputs[0].mean(dim=tuple(axes), keepdim=bool(keepdims)))
         else:
-            outputs[0].copy_(inputs[0].mean(keepdim=bool(keepdims)))
+            outputs[0].copy_(inputs[0].mean(dim=tuple(range(inputs[0].dim())), keepdim=bool(keepdims)))
 
 
 @KernelRegistry.register("ReduceSum")
@@ -672,7 +672,7 @@ class ReduceSumKernel(Kernel):
         if axes is not None:
             outputs[0].copy_(inputs[0].sum(dim=tuple(axes), keepdim=bool(keepdims)))
         else:
-            outputs[0].copy_(inputs[0].sum(keepdim=bool(keepdims)))
+            outputs[0].copy_(inputs[0].sum(dim=tuple(range(inputs[0].dim())), keepdim=bool(keepdims)))
 
 
 @KernelRegistry.register("Identity")
-- 
2.43.0


From 3ffd7f658ab57a0be8cae88a15edd83c79b6ecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:23 +0000
Subject: [PATCH 190/205] fix: Pad modes are recognized

---
 inference/kernels.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/inference/kernels.py b/inference/kernels.py
index ed698a6..1f876b5 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -717,6 +717,8 @@ class PadKernel(Kernel):
         x = inputs[0]
         pads = inputs[1].cpu().tolist() if len(inputs) > 1 else attrs.get('pads', [0, 0, 0, 0])
         mode = attrs.get('mode', 'constant')
+        if isinstance(mode, bytes):
+            mode = mode.decode()
         value = inputs[2].item() if len(inputs) > 2 else attrs.get('value', 0.0)
 
         # ONNX pads: [x1_begin, x2_begin, ..., x1_end, x2_end, ...]
@@ -730,6 +732,11 @@ class PadKernel(Kernel):
         pad_tuple = tuple(pad_tuple)
 
         torch_mode = {'constant': 'constant', 'reflect': 'reflect', 'edge': 'replicate'}.get(mode, 'constant')
+        if torch_mode != 'constant':
+            # 非 constant 模式只接受空间维度的 pad
+            spatial = 2 * max(1, x.dim() - 2)
+            if not any(pad_tuple[spatial:]):
+                pad_tuple = pad_tuple[:spatial]
         outputs[0].copy_(F.pad(x, pad_tuple, mode=torch_mode, value=value))
 
 
-- 
2.43.0


From 0ccdecedfdd280792c14ad68dbd68e277da1460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:24 +0000
Subject: [PATCH 191/205] fix: sizes and paddings of weights are integers

---
 inference/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 1f876b5..33a3a09 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -548,7 +548,7 @@ class ExpandKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        shape = inputs[1].cpu().tolist()
+        shape = [int(s) for s in inputs[1].cpu().tolist()]
         outputs[0].copy_(inputs[0].expand(shape))
 
 
@@ -715,7 +715,7 @@ class PadKernel(Kernel):
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
-        pads = inputs[1].cpu().tolist() if len(inputs) > 1 else attrs.get('pads', [0, 0, 0, 0])
+        pads = [int(p) for p in inputs[1].cpu().tolist()] if len(inputs) > 1 else attrs.get('pads', [0, 0, 0, 0])
         mode = attrs.get('mode', 'constant')
         if isinstance(mode, bytes):
             mode = mode.decode()
-- 
2.43.0


From 362ae2e7b3cf4e933e240d9a37f527efb369458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:55 +0000
Subject: [PATCH 192/205] fix: the RMS norm of a model read from a file is not
 computed as a layer norm

---
 inference/kernels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inference/kernels.py b/inference/kernels.py
index 33a3a09..d23176f 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -866,6 +866,8 @@ class LayerNormKernel(Kernel):
         bias = inputs[2] if len(inputs) > 2 else None
         eps = attrs.get('epsilon', 1e-5)
         norm_type = attrs.get('type', 'layer')
+        if isinstance(norm_type, bytes):
+            norm_type = norm_type.decode()
 
         # 检测 per-head norm：weight 维度小于 x 最后一维
         head_dim = weight.shape[-1]
-- 
2.43.0


From b512cef49ac88245f5962e1fb173f073ea426733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:56 +0000
Subject: [PATCH 193/205] fix: token ids are not fed into weights whose names
 contain input or token

---
 inference/llm_infer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inference/llm_infer.py b/inference/llm_infer.py
index 13f71cf..9dc72bf 100644
--- a/inference/llm_infer.py
+++ b/inference/llm_infer.py
@@ -201,6 +201,9 @@ class LLMInfer:
                     input_desc[name] = tuple(desc)
                     # 不 break，继续处理其他 input（如 position）
 
+        # Builder 导出的 ONNX 把 weight 也放在 graph input 中，推理时只传 input_desc 中的动态输入
+        self.input_names = [n for n in input_names if n in input_desc]
+
         print(f"Input desc: {input_desc}")
         print(f"Input range: {input_range}")
 
-- 
2.43.0


From 4ab1a873aa76532444bd00e7607f679600d816a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:57 +0000
Subject: [PATCH 194/205] fix: generation stops at max_length tokens, prompt
 included

---
 inference/llm_infer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inference/llm_infer.py b/inference/llm_infer.py
index 9dc72bf..7ba3176 100644
--- a/inference/llm_infer.py
+++ b/inference/llm_infer.py
@@ -300,7 +300,7 @@ class LLMInfer:
         if verbose:
             print("Warmup done.\n")
 
-        for step in range(max_length - prompt_len + 1):
+        for step in range(max_length - prompt_len):
             if step == 0:
                 # Prefill: 输入所有 prompt tokens
                 step_input = torch.tensor([input_ids], device=device, dtype=torch.int64)
@@ -395,7 +395,7 @@ class LLMInfer:
         total_time = (time.perf_counter() - t_start) * 1000
         generated_text = self.tokenizer.decode(generated, skip_special_tokens=True)
 
-        if verbose:
+        if verbose and total_tokens > 0:
             print(f"\n{total_tokens} tokens in {total_time:.1f}ms "
                   f"({total_time/total_tokens:.1f}ms/token)")
 
@@ -451,7 +451,7 @@ class LLMInfer:
         with torch.no_grad():
             hf_output = hf_model.generate(
                 input_ids,
-                max_length=max_length + input_ids.shape[1],
+                max_length=max_length,
                 do_sample=False,
                 pad_token_id=hf_tokenizer.eos_token_id,
             )
-- 
2.43.0


From aa64e58f44b52f48a0560baf65769c80b0ffefed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:58 +0000
Subject: [PATCH 195/205] fix: Qwen3 attention has no biases unless
 attention_bias asks for them

---
 onnx_tool/llm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index d064d86..20cdec9 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -49,7 +49,7 @@ ArchMap = {
         "norm_scale": True,
         "norm_bias": False,
         "fuse_qkv": False,
-        "qkv_bias": True,
+        "qkv_bias": False,
         "o_bias": False,
         "mlp_bias": False,
         "lm_head_bias": False,
-- 
2.43.0


From 7f5dc7539b161d887c7913a740b04d5f8d6bf240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:43 +0000
Subject: [PATCH 196/205] fix: Reshape takes the shape of its output where its
 shape is computed at run time

---
 inference/kernels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index d23176f..1bd77d3 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -246,7 +246,8 @@ class ReshapeKernel(Kernel):
         if len(inputs) > 1 and inputs[1] is not None:
             shape = inputs[1].cpu().tolist()
         else:
-            shape = attrs.get('shape', [])
+            # 运行时计算的 shape 不在 compute graph 中，此时 output 的 shape 已由 shape engine 确定
+            shape = attrs.get('shape', list(outputs[0].shape))
         # 处理 0 维度: 保持原形状
         x = inputs[0]
         new_shape = []
-- 
2.43.0


From 6e2cc44378d5c97563ce50fe8c3f0aceb9696a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:44 +0000
Subject: [PATCH 197/205] fix: Resize fills its output when the sizes are
 computed at run time, takes sizes of any element type and aligns corners when
 asked to

---
 inference/kernels.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 1bd77d3..60588bd 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -748,22 +748,25 @@ class ResizeKernel(Kernel):
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
+        mode = attrs.get('mode', 'nearest')
+        if isinstance(mode, bytes):
+            mode = mode.decode()
+        coordinate = attrs.get('coordinate_transformation_mode', 'half_pixel')
+        if isinstance(coordinate, bytes):
+            coordinate = coordinate.decode()
+        torch_mode = {'nearest': 'nearest', 'linear': 'bilinear', 'cubic': 'bicubic'}.get(mode, 'nearest')
+        align_corners = coordinate == 'align_corners' if torch_mode != 'nearest' else None
         # inputs[1] = roi (optional), inputs[2] = scales (optional), inputs[3] = sizes
         if len(inputs) > 3 and inputs[3] is not None:
-            sizes = inputs[3].cpu().tolist()
             # sizes 是 [N, C, H, W] 格式
-            mode = attrs.get('mode', 'nearest').decode() if isinstance(attrs.get('mode', ''), bytes) else attrs.get('mode', 'nearest')
-            align_corners = attrs.get('coordinate_transformation_mode', 'half_pixel') == 'align_corners'
-            torch_mode = {'nearest': 'nearest', 'linear': 'bilinear', 'cubic': 'bicubic'}.get(mode, 'nearest')
-            result = F.interpolate(x, size=sizes[2:], mode=torch_mode, align_corners=align_corners if torch_mode != 'nearest' else None)
-            outputs[0].copy_(result)
+            sizes = [int(s) for s in inputs[3].cpu().tolist()]
         elif len(inputs) > 2 and inputs[2] is not None:
             scales = inputs[2].cpu().tolist()
             sizes = [int(x.shape[i] * scales[i]) for i in range(len(scales))]
-            mode = attrs.get('mode', 'nearest').decode() if isinstance(attrs.get('mode', ''), bytes) else attrs.get('mode', 'nearest')
-            torch_mode = {'nearest': 'nearest', 'linear': 'bilinear', 'cubic': 'bicubic'}.get(mode, 'nearest')
-            result = F.interpolate(x, size=sizes[2:], mode=torch_mode)
-            outputs[0].copy_(result)
+        else:
+            # 运行时计算的 sizes 不在 compute graph 中，output 的 shape 已由 shape engine 确定
+            sizes = list(outputs[0].shape)
+        outputs[0].copy_(F.interpolate(x, size=sizes[2:], mode=torch_mode, align_corners=align_corners))
 
 
 # ===========================================================================
-- 
2.43.0


From fb1fd61a58f5aae2ffb6e8d965c7e4f015b19e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:45 +0000
Subject: [PATCH 198/205] fix: Expand takes the shape of its output, which also
 holds when the shape is computed at run time

---
 inference/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 60588bd..cec77c3 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -549,8 +549,8 @@ class ExpandKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        shape = [int(s) for s in inputs[1].cpu().tolist()]
-        outputs[0].copy_(inputs[0].expand(shape))
+        # Expand 是双向广播，output 的 shape 已由 shape engine 确定
+        outputs[0].copy_(inputs[0].expand(list(outputs[0].shape)))
 
 
 @KernelRegistry.register("Tile")
-- 
2.43.0


From b0c6d802a96d486a632a9dbfd7536871b483c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:46 +0000
Subject: [PATCH 199/205] fix: Gemm transposes its second operand itself, a
 weight may have other users and the operand may be computed

---
 inference/infer.py   |  2 +-
 inference/kernels.py | 13 ++-----------
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index 3a164cc..3cafe06 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -510,7 +510,7 @@ class GraphInfer:
         """判断该 op_type 是否需要将 safetensors 的 [N, K] 转置为 [K, N]。
 
         MatMul: 需要，ONNX MatMul 期望 weight 为 [K, N]
-        Gemm: 不需要，Gemm 有 transB 属性，由 preprocess_weight 处理
+        Gemm: 不需要，Gemm 有 transB 属性，由 kernel 处理
         Gather/其他: 不需要，embed_tokens 等保持原样
         """
         return op_type == 'MatMul'
diff --git a/inference/kernels.py b/inference/kernels.py
index cec77c3..c401dab 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -292,9 +292,8 @@ class GemmKernel(Kernel):
 
         if transA:
             A = A.T
-        # B 已在 preprocess_weight 中预转置，无需再次转置
-        # if transB:
-        #     B = B.T
+        if transB:
+            B = B.T
 
         torch.mm(A, B, out=outputs[0])
         if alpha != 1.0:
@@ -302,14 +301,6 @@ class GemmKernel(Kernel):
         if C is not None:
             outputs[0].add_(beta * C)
 
-    @staticmethod
-    def preprocess_weight(src_name: str, tensor: torch.Tensor, attrs: Dict) -> torch.Tensor:
-        """Gemm weight 前处理：如果 transB=1，预转置 weight 矩阵。"""
-        transB = attrs.get('transB', 0)
-        if transB:
-            tensor = tensor.T.contiguous()
-        return tensor
-
 
 @KernelRegistry.register("MatMul")
 class MatMulKernel(Kernel):
-- 
2.43.0


From 1e892e84cb748d011a9d322d3c07c0ce624c61f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:47 +0000
Subject: [PATCH 200/205] fix: memory is planned with the element size of the
 pool, comparisons were given a quarter of what they fill

---
 inference/infer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/inference/infer.py b/inference/infer.py
index 3cafe06..c5a8c88 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -78,6 +78,13 @@ class GraphInfer:
 
         # 6. 内存压缩 + MemoryPool（compress_memory 基于最大 shape 分配）
         # 使用 graph.py 的 compress_memory（Best-Fit 策略，按大小降序重排以减少碎片）
+        # pool 中所有 tensor（包括 bool 的比较结果）都按 self.dtype 存放，规划时使用同样的元素大小
+        for tname in self._cg.dynamics:
+            tensor = self._cg.tensormap.get(tname)
+            if tensor is not None and tensor.get_elementsize() < np_dtype.itemsize:
+                tensor.dtype = np_dtype
+                if tensor.numpy is not None:
+                    tensor.numpy = tensor.numpy.astype(np_dtype)
         # 检测是否有 kv_cache tensor，有则使用 llm_test 的双池压缩
         has_kv_cache = 'kv_cache' in self._cg.tensormap
         if has_kv_cache:
-- 
2.43.0


From 8fd5d63a300e7445d8aeb876a62f30ea29d9ccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:48 +0000
Subject: [PATCH 201/205] fix: integer constants stay integers in the inference
 engine, float16 cannot hold them

---
 inference/infer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inference/infer.py b/inference/infer.py
index c5a8c88..e92ee63 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -653,8 +653,10 @@ class GraphInfer:
 
             # 2. fallback: 从 ONNX 内嵌数据加载
             if t is None and tensor_obj.numpy is not None:
+                # 整数常量（索引、尺寸等）保持整数：float16 无法精确表示 2048 以上的值
+                is_index = tensor_obj.numpy.dtype.kind in 'iu'
                 t = torch.from_numpy(tensor_obj.numpy.astype(
-                    np.dtype(self._get_torch_dtype_name(self.dtype))
+                    np.int64 if is_index else np.dtype(self._get_torch_dtype_name(self.dtype))
                 )).to(device=self.device)
 
             if t is not None:
-- 
2.43.0


From 07cb6ab6e9aaba7d57ea12df583e6cbf63fd59d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:24 +0000
Subject: [PATCH 202/205] fix: a failed forward leaves no tensors of other
 sizes, or of half of the nodes, for the next one

---
 inference/infer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index e92ee63..27e5ca0 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -255,6 +255,9 @@ class GraphInfer:
         # 根据输入 tensor 的实际形状更新 shape_engine 变量
         shape_changed = self._update_shape_from_inputs(inputs)
 
+        if shape_changed:
+            self._last_node_tensors = None  # 本次 forward 若失败，旧 shape 的视图不再可用
+
         # 批量刷新所有 tensor 的 shape 缓存（仅当 shape 实际变化时）
         if shape_changed or not self._tensor_shape_cache:
             self._tensor_shape_cache.clear()
@@ -306,8 +309,9 @@ class GraphInfer:
         rebuild_cache = (shape_changed
                          or not hasattr(self, '_last_node_tensors')
                          or self._last_node_tensors is None)
+        node_tensors = []
         if rebuild_cache:
-            self._last_node_tensors = []
+            self._last_node_tensors = None  # 直到本次 forward 成功完成前，缓存无效
 
         for idx, node_name in enumerate(self._node_names):
             node = self._cg.nodemap[node_name]
@@ -413,12 +417,15 @@ class GraphInfer:
 
             # 缓存本次构建的 tensor 视图
             if rebuild_cache:
-                self._last_node_tensors.append((input_tensors, output_tensors))
+                node_tensors.append((input_tensors, output_tensors))
 
             # --- 检查输入输出重叠 ---
             if debug:
                 self._check_overlap(node)
 
+        if rebuild_cache:
+            self._last_node_tensors = node_tensors
+
         # XPU 同步，确保所有 kernel 执行完毕
         if self.device == 'xpu' and not profile:
             torch.xpu.synchronize()
-- 
2.43.0


From f6d18788f40615ab225b2bf74878377f5b6531de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:25 +0000
Subject: [PATCH 203/205] fix: image values are rounded to the nearest level,
 an image turned into a tensor and back was darker

---
 inference/sr_gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/sr_gui.py b/inference/sr_gui.py
index 580415d..81910a7 100644
--- a/inference/sr_gui.py
+++ b/inference/sr_gui.py
@@ -60,7 +60,7 @@ def tensor_to_image(tensor: torch.Tensor) -> np.ndarray:
     if arr.ndim == 4:
         arr = arr[0]
     arr = np.clip(arr, 0.0, 1.0)
-    arr = (arr * 255.0).astype(np.uint8)
+    arr = np.rint(arr * 255.0).astype(np.uint8)
     arr = np.transpose(arr, (1, 2, 0))
     return arr
 
-- 
2.43.0


From 06c2c3c7477cf34fa29c5643471678d2b064ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:26 +0000
Subject: [PATCH 204/205] fix: images up to the maximum size fit into the
 engine once they are padded

---
 inference/sr_gui.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inference/sr_gui.py b/inference/sr_gui.py
index 81910a7..00ea8e4 100644
--- a/inference/sr_gui.py
+++ b/inference/sr_gui.py
@@ -156,9 +156,10 @@ class SREngine:
         self.output_name = output_name
 
         input_desc = {input_name: (1, 3, "height", "width")}
+        # process() 会将图像 pad 到 4 的倍数
         input_range = {
-            "height": (1, max_height),
-            "width": (1, max_width),
+            "height": (1, (max_height + 3) // 4 * 4),
+            "width": (1, (max_width + 3) // 4 * 4),
         }
 
         t0 = time.perf_counter()
-- 
2.43.0


From e7b0949412d1ee40bd1c198ead1fbb2954b7abf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:27 +0000
Subject: [PATCH 205/205] fix: threads of the window take turns on the engine,
 they overwrote each other's memory

---
 inference/sr_gui.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/inference/sr_gui.py b/inference/sr_gui.py
index 00ea8e4..9d5b79b 100644
--- a/inference/sr_gui.py
+++ b/inference/sr_gui.py
@@ -131,6 +131,8 @@ class SREngine:
         self.dtype = dtype
         self.scale = self._detect_scale(onnx_path)
         self.engine = None
+        # 多个 GUI 线程共享同一个 memory pool
+        self.lock = threading.Lock()
 
     @staticmethod
     def _detect_scale(onnx_path: str) -> int:
@@ -196,14 +198,16 @@ class SREngine:
 
         tensor = image_to_tensor(img, device=self.device, dtype=self.dtype)
 
-        t0 = time.perf_counter()
-        outputs = self.engine.forward({self.input_name: tensor}, debug=False)
-        if self.device == "xpu":
-            torch.xpu.synchronize()
-        elapsed = (time.perf_counter() - t0) * 1000
+        with self.lock:
+            t0 = time.perf_counter()
+            outputs = self.engine.forward({self.input_name: tensor}, debug=False)
+            if self.device == "xpu":
+                torch.xpu.synchronize()
+            elapsed = (time.perf_counter() - t0) * 1000
 
-        sr_tensor = outputs[self.output_name]
-        sr_img = tensor_to_image(sr_tensor)
+            # 输出是 memory pool 的视图，转换完成前不能被覆盖
+            sr_tensor = outputs[self.output_name]
+            sr_img = tensor_to_image(sr_tensor)
         sr_img = sr_img[:h * self.scale, :w * self.scale, :]
 
         return sr_img, elapsed
@@ -495,9 +499,10 @@ class SRApp:
         def task():
             try:
                 tensor = image_to_tensor(self.current_img, device=self.engine.device, dtype=self.engine.dtype)
-                result = self.engine.engine.forward({self.engine.input_name: tensor}, debug=False, profile=True)
-                if self.engine.device == "xpu":
-                    torch.xpu.synchronize()
+                with self.engine.lock:
+                    result = self.engine.engine.forward({self.engine.input_name: tensor}, debug=False, profile=True)
+                    if self.engine.device == "xpu":
+                        torch.xpu.synchronize()
 
                 # 收集 profile 输出到字符串
                 import io
-- 
2.43.0

