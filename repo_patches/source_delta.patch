From d199a7e5b4226f2fe10b3d06cff9c72ff408cfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 001/136] fix: infer Sum shape by broadcasting

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1a7b996..e1f8ec5 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -716,7 +716,7 @@ class LeakyReluNode(PWNode):
 
 
 @NODE_REGISTRY.register()
-class SumNode(PWNode):
+class SumNode(NpMathBase):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
         self.op_mac = ADD_MACS
-- 
2.43.0


From 60ba7aeb4d91b402685aa34796a3fcfc707c55ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 002/136] fix: Round keeps its input element type

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e1f8ec5..cb0fcd6 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -783,7 +783,7 @@ class LessOrEqualNode(LessNode):
 
 
 @NODE_REGISTRY.register()
-class RoundNode(LessNode):
+class RoundNode(NpMathBase):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         result = numpy.round(intensors[0].get_numpy())
         outtensors[0].update_tensor(result)
-- 
2.43.0


From 00b44e07b594f79813a84d06404fe7c29ee34ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 003/136] fix: parameterised elementwise operators take the
 data input shape

---
 onnx_tool/node.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index cb0fcd6..b438069 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -252,10 +252,7 @@ class PWNode(Node):
         self.ratio = max(1, len(self.input) - 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        inshapes = []
-        for tensor in intensors:
-            inshapes.append(tensor.get_shape())
-        outtensors[0].update_shape(_max_shape(inshapes))
+        outtensors[0].update_shape(intensors[0].get_shape())
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 508e9ca94a848ca3f75a5c496a68850378bba9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 004/136] fix: Flatten negative axis and empty extents

---
 onnx_tool/node.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b438069..829188b 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1650,17 +1650,18 @@ class BatchNormalizationNode(FusedBase):
 class FlattenNode(Node):
     def __init__(self, node):
         super().__init__(node)
-        self.add_default_value('axis', None)
+        self.add_default_value('axis', 1)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        if self.axis is None:
-            y = x.reshape((x.shape[0], -1))
-        else:
-            vol = 1
-            for i in range(self.axis):
-                vol *= x.shape[i]
-            y = x.reshape((vol, -1))
+        axis = _axes_neg2pos(len(x.shape), [self.axis])[0]
+        rows = 1
+        for v in x.shape[:axis]:
+            rows *= v
+        cols = 1
+        for v in x.shape[axis:]:
+            cols *= v
+        y = x.reshape((rows, cols))
         outtensors[0].update_tensor(y)
 
 
-- 
2.43.0


From 7d1aa997d27b059a88058f90ba073b602cef53d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 005/136] fix: Squeeze without axes and with unsorted or
 negative axes

---
 onnx_tool/node.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 829188b..cb524a2 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1297,14 +1297,17 @@ class UnsqueezeNode(Node):
 class SqueezeNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('axes', [0])
+        self.add_default_value('axes', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
         outshape = []
         if len(intensors) == 2:
             self.axes = intensors[1].get_numpy()
-        axes = _axes_neg2pos(len(inshape), self.axes)
+        if self.axes is None:
+            axes = [i for i, v in enumerate(inshape) if v == 1]
+        else:
+            axes = _axes_neg2pos(len(inshape), self.axes)
         for i in range(len(inshape)):
             if i in axes:
                 continue
@@ -1315,12 +1318,10 @@ class SqueezeNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensor = intensors[0].get_numpy().copy()
-        idx = 0
         if len(intensors) == 2:
             self.axes = intensors[1].get_numpy()
-        for axis in self.axes:
-            outtensor = numpy.squeeze(outtensor, axis=axis - idx)
-            idx += 1
+        axes = None if self.axes is None else tuple(_axes_neg2pos(len(outtensor.shape), self.axes))
+        outtensor = numpy.squeeze(outtensor, axis=axes)
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From 5b69c03a058d9eee87880dda346d0e2466da95bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 006/136] fix: Unsqueeze value with several or negative axes

---
 onnx_tool/node.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index cb524a2..cabff0a 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1288,8 +1288,7 @@ class UnsqueezeNode(Node):
             axes = intensors[1].get_numpy()
         else:
             axes = self.axes
-        for axis in axes:
-            outtensor = numpy.expand_dims(outtensor, axis=axis)
+        outtensor = numpy.expand_dims(outtensor, axis=tuple(int(axis) for axis in axes))
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From 921950431c00386c2523263a38ff9e31f21fe5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 007/136] fix: Slice with fewer starts than rank and
 out-of-range negative starts

---
 onnx_tool/node.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index cabff0a..0af5937 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1704,6 +1704,7 @@ class ZipMapNode(Node):
 class SliceNode(Node):
     def __init__(self, n):
         super(SliceNode, self).__init__(n)
+        self.add_default_value('axes', None)
         self.add_default_value('steps', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -1729,9 +1730,9 @@ class SliceNode(Node):
                     steps = list(intensors[4].get_numpy())
 
         r = len(inshape)
-        # If axes omitted, set to [0..r-1]
+        # If axes omitted, set to [0..len(starts)-1]
         if axes is None:
-            axes = list(range(r))
+            axes = list(range(len(starts)))
         # Normalize negative axes
         axes = _axes_neg2pos(r, list(axes))
 
-- 
2.43.0


From a54e56f80d13aeb20bb65c1337546621509bdbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 008/136] fix: Slice values for negative axes, omitted axes and
 any rank

---
 onnx_tool/node.py | 74 ++++++++++++-----------------------------------
 1 file changed, 18 insertions(+), 56 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 0af5937..5567155 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1843,64 +1843,26 @@ class SliceNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        datashape = intensors[0].get_shape()
-        if len(intensors) == 3:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            x = data[starts[0]:ends[0]]
-        if len(intensors) == 4:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            axes = intensors[3].get_numpy()
-            index = 0
-            x = data.copy()
-            for i in axes:
-                if i == 0:
-                    x = x[starts[index]:ends[index], ...]
-                if i == 1:
-                    x = x[:, starts[index]:ends[index], ...]
-                if i == 2:
-                    x = x[:, :, starts[index]:ends[index], ...]
-                if i == 3:
-                    x = x[:, :, :, starts[index]:ends[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, starts[index]:ends[index], ...]
-                index += 1
-        if len(intensors) == 5:
+        if len(intensors) == 1:
+            starts, ends, axes, steps = self.starts, self.ends, self.axes, self.steps
+        else:
             starts = intensors[1].get_numpy()
             ends = intensors[2].get_numpy()
-            axes = intensors[3].get_numpy()
-            steps = intensors[4].get_numpy()
-            index = 0
-            x = data.copy()
-            for i in axes:
-                if i == 0:
-                    x = x[starts[index]:ends[index]:steps[index], ...]
-                if i == 1:
-                    x = x[:, starts[index]:ends[index]:steps[index], ...]
-                if i == 2:
-                    x = x[:, :, starts[index]:ends[index]:steps[index], ...]
-                if i == 3:
-                    x = x[:, :, :, starts[index]:ends[index]:steps[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, starts[index]:ends[index]:steps[index], ...]
-                index += 1
-        if len(intensors) == 1:
-            index = 0
-            x = data.copy()
-            for i in self.axes:
-                if i == 0:
-                    x = x[self.starts[index]:self.ends[index], ...]
-                if i == 1:
-                    x = x[:, self.starts[index]:self.ends[index], ...]
-                if i == 2:
-                    x = x[:, :, self.starts[index]:self.ends[index], ...]
-                if i == 3:
-                    x = x[:, :, :, self.starts[index]:self.ends[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, self.starts[index]:self.ends[index], ...]
-                index += 1
-        outtensors[0].update_tensor(x)
+            axes = intensors[3].get_numpy() if len(intensors) >= 4 else None
+            steps = intensors[4].get_numpy() if len(intensors) >= 5 else None
+        if axes is None:
+            axes = range(len(starts))
+        if steps is None:
+            steps = [1] * len(starts)
+        slices = [slice(None)] * len(data.shape)
+        for axis, start, end, step in zip(axes, starts, ends, steps):
+            # ONNX clamps the start of a backward slice to the first element.
+            dim = data.shape[axis]
+            start, end, step = int(start), int(end), int(step)
+            if step < 0 and start < -dim:
+                start = -dim
+            slices[axis] = slice(start, end, step)
+        outtensors[0].update_tensor(data[tuple(slices)].copy())
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From d7dbebdc791fa768ad6f2702aa3ff93ba3f6bc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 009/136] fix: Split default axis is 0

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 5567155..f5412b2 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2879,7 +2879,7 @@ class MQANode(SDPANode):
 class SplitNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('axis', None)
+        self.add_default_value('axis', 0)
         self.add_default_value('split', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From f7945525f7bacf01ca953da047e746942c69c892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 010/136] fix: reductions without axes reduce every dimension

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f5412b2..130fb0c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1880,7 +1880,7 @@ class ReduceMeanNode(Node):
         else:
             axes = self.axes
         if axes is None:
-            return [[1]]
+            axes = range(len(xshape))
         else:
             axes = _axes_neg2pos(len(xshape), axes)
 
-- 
2.43.0


From ea1187a9bbe6865cd46993fcc6c626f820ccdacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 011/136] fix: reduction values with axes given as an input

---
 onnx_tool/node.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 130fb0c..b2d2c70 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1895,7 +1895,7 @@ class ReduceMeanNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
+            axes = tuple(intensors[1].get_numpy().tolist())
         else:
             axes = self.axes
         reduced = numpy.mean(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
@@ -1910,7 +1910,7 @@ class ReduceMeanNode(Node):
 class ReduceProdNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
+            axes = tuple(intensors[1].get_numpy().tolist())
         else:
             axes = self.axes
         reduced = numpy.prod(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
@@ -1938,7 +1938,7 @@ class ReduceMinNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
         if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
+            axes = tuple(intensors[1].get_numpy().tolist())
         else:
             axes = self.axes
         reduced = numpy.minimum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
@@ -1955,7 +1955,7 @@ class ReduceMaxNode(ReduceMinNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
         if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
+            axes = tuple(intensors[1].get_numpy().tolist())
         else:
             axes = self.axes
         reduced = numpy.maximum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
-- 
2.43.0


From 45f4bba3867eadc4cecaeb00dff3eb5acc9eda0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 012/136] fix: TopK default axis is the last one

---
 onnx_tool/node.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b2d2c70..fc1592c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1966,14 +1966,11 @@ class ReduceMaxNode(ReduceMinNode):
 class TopKNode(Node):
     def __init__(self, node):
         super().__init__(node)
-        self.add_default_value('axis', None)
+        self.add_default_value('axis', -1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         k = intensors[1].get_numpy()[0]
-        # when the input tensor only contain 1 dimension, the axis attribute (default: 0) may not appear in the node
-        if len(xshape) == 1 and self.axis is None:
-            self.axis = 0
         axis = _axes_neg2pos(len(xshape), [self.axis])[0]
         newshape = []
         for i in range(len(xshape)):
-- 
2.43.0


From 10501173b1162bc756ab6c0e4a65b314286a8d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 013/136] fix: 3-D convolution with automatic padding

---
 onnx_tool/node.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index fc1592c..d241d2f 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2105,14 +2105,18 @@ class ConvNode(Node):
         if self.auto_pad is not None and self.auto_pad != b'NOTSET':
             if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
                 shape = (xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0]))
-                if len(xshape) == 4:
+                if len(xshape) >= 4:
                     shape += (math.ceil(xshape[3] / self.strides[1]),)
+                if len(xshape) == 5:
+                    shape += (math.ceil(xshape[4] / self.strides[2]),)
             elif self.auto_pad == b'VALID':
                 oh = math.ceil((xshape[2] - wshape[2] + 1) / self.strides[0])
                 shape = (xshape[0], wshape[0], oh)
-                if len(xshape) == 4:
+                if len(xshape) >= 4:
                     ow = math.ceil((xshape[3] - wshape[3] + 1) / self.strides[1])
                     shape += (ow,)
+                if len(xshape) == 5:
+                    shape += (math.ceil((xshape[4] - wshape[4] + 1) / self.strides[2]),)
             else:
                 assert 0
 
-- 
2.43.0


From 10bcbf16aae49c2148168e54a9bca50b8e0fd742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 014/136] fix: 3-D transposed convolution defaults

---
 onnx_tool/node.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d241d2f..93fffd9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2638,10 +2638,10 @@ class ConvIntegerNode(ConvNode):
 class ConvTransposeNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('pads', (0, 0, 0, 0))
-        self.add_default_value('output_padding', (0, 0, 0, 0))
-        self.add_default_value('strides', (1, 1))
-        self.add_default_value('dilations', (1, 1))
+        self.add_default_value('pads', (0, 0, 0, 0, 0, 0))
+        self.add_default_value('output_padding', (0, 0, 0))
+        self.add_default_value('strides', (1, 1, 1))
+        self.add_default_value('dilations', (1, 1, 1))
         self.add_default_value('output_shape', (0, 0))
         self.add_default_value('group', 1)
 
-- 
2.43.0


From fabe280978df21e7c6942c3f8929d8df637454f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 015/136] fix: pooling over 1 and 3 spatial dimensions

---
 onnx_tool/node.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 93fffd9..bd1ce3c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1388,9 +1388,10 @@ class PoolBase(Node):
         self.op_mac = CMP_MACS
         self.add_default_value('kernel_shape', (3, 3))
         self.add_default_value('ceil_mode', 0)
-        self.add_default_value('pads', (0, 0, 0, 0))
-        self.add_default_value('strides', (1, 1))
-        self.add_default_value('dilations', (1, 1))
+        ndim = len(self.kernel_shape)
+        self.add_default_value('pads', (0,) * (2 * ndim))
+        self.add_default_value('strides', (1,) * ndim)
+        self.add_default_value('dilations', (1,) * ndim)
         self.add_default_value('auto_pad', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -1399,12 +1400,16 @@ class PoolBase(Node):
             outshape = inshape[:2]
             if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
                 outshape += (_auto_pad_same_shape_calc(inshape[2], self.strides[0]),)
-                if len(self.strides) == 2:
+                if len(self.strides) >= 2:
                     outshape += [_auto_pad_same_shape_calc(inshape[3], self.strides[1]), ]
+                if len(self.strides) == 3:
+                    outshape += [_auto_pad_same_shape_calc(inshape[4], self.strides[2]), ]
             elif self.auto_pad == b'VALID':
                 outshape += [_auto_pad_valid_shape_calc(inshape[2], self.kernel_shape[0], self.strides[0]), ]
-                if len(self.strides) == 2:
+                if len(self.strides) >= 2:
                     outshape += [_auto_pad_valid_shape_calc(inshape[3], self.kernel_shape[1], self.strides[1]), ]
+                if len(self.strides) == 3:
+                    outshape += [_auto_pad_valid_shape_calc(inshape[4], self.kernel_shape[2], self.strides[2]), ]
         else:
             if len(self.kernel_shape) == 1:
                 outshape = inshape[:2] + [
@@ -1424,16 +1429,16 @@ class PoolBase(Node):
                 ]
             if len(self.kernel_shape) == 3:
                 outshape = inshape[:2] + [
-                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[0], self.kernel_shape[0],
+                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[3], self.kernel_shape[0],
                                         self.dilations[0],
                                         self.strides[0],
                                         self.ceil_mode),
-                    _pooling_shape_calc(inshape[3], self.pads[1] + self.pads[1], self.kernel_shape[1],
+                    _pooling_shape_calc(inshape[3], self.pads[1] + self.pads[4], self.kernel_shape[1],
                                         self.dilations[1],
                                         self.strides[1],
                                         self.ceil_mode),
-                    _pooling_shape_calc(inshape[4], self.pads[2] + self.pads[2], self.kernel_shape[2],
-                                        self.dilations[1],
+                    _pooling_shape_calc(inshape[4], self.pads[2] + self.pads[5], self.kernel_shape[2],
+                                        self.dilations[2],
                                         self.strides[2],
                                         self.ceil_mode),
                 ]
-- 
2.43.0


From 7c90e57a6f3c4e5803efbd496b64e57f6eed9080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 016/136] fix: pooling cost counts every kernel dimension

---
 onnx_tool/node.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index bd1ce3c..7ef385c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1448,9 +1448,9 @@ class PoolBase(Node):
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outshape = outtensors[0].get_shape()
         outvol = volume(outshape)
-        macs = outvol * CMP_MACS * self.kernel_shape[0]
-        if len(self.kernel_shape) == 2:
-            macs *= self.kernel_shape[1]
+        macs = outvol * CMP_MACS
+        for k in self.kernel_shape:
+            macs *= k
         return macs
 
 
-- 
2.43.0


From d899209e8b1f03588a3f3d19ca4f2132c1fe079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 017/136] fix: MatMul of vectors and of broadcast batches

---
 onnx_tool/node.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 7ef385c..94cfc3a 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -860,7 +860,7 @@ class GemmNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         a_shape = intensors[0].get_shape()
         b_shape = intensors[1].get_shape()
-        if len(a_shape) < 2 or len(b_shape) < 2:
+        if self.__class__ == GemmNode and (len(a_shape) < 2 or len(b_shape) < 2):
             raise RuntimeError('Gemm inputs must have rank >= 2')
         if self.__class__ == GemmNode:
             # determine M,K from A depending on transA
@@ -885,16 +885,18 @@ class GemmNode(Node):
             yshape = batchshape + [a_m, b_n]
         else:
             # broadcast support for MatMul-like nodes
-            batchshape = a_shape[:-2] if volume(a_shape[:-2]) >= volume(b_shape[:-2]) else b_shape[:-2]
-            yshape = batchshape + [a_shape[-2], b_shape[-1]]
+            k_dim = b_shape[-2] if len(b_shape) > 1 else b_shape[-1]
+            if a_shape[-1] != k_dim:
+                raise RuntimeError(f'Incompatible MatMul shapes: A K={a_shape[-1]} != B K={k_dim}')
+            # a vector operand is a matrix whose extra dimension does not show in the output
+            yshape = _broadcast_shape([a_shape[:-2], b_shape[:-2]]) + a_shape[-2:-1]
+            if len(b_shape) > 1:
+                yshape = yshape + b_shape[-1:]
         outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if self.__class__ == MatMulNode:
-            ashape = intensors[0].get_shape()
-            bshape = intensors[1].get_shape()
-            assert (ashape[-1] == bshape[-2])
             result = numpy.matmul(intensors[0].get_numpy(), intensors[1].get_numpy())
             outtensors[0].update_tensor(result)
             return
-- 
2.43.0


From a01fe782f8564dba18f23e800964a3fdfe10e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 018/136] fix: matrix-vector products cost the reduction length

---
 onnx_tool/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 94cfc3a..61e9005 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -924,6 +924,8 @@ class GemmNode(Node):
             else:
                 if len(weight_shape) > 1:
                     macs *= weight_shape[-2]
+                else:
+                    macs *= weight_shape[-1]
             if len(intensors) == 3:
                 macs += volume(yshape) * ADD_MACS
         else:
-- 
2.43.0


From 4b9b76654ddaf22fed2f2806e48cdad191a84ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 019/136] fix: integer Div truncates and keeps its type

---
 onnx_tool/node.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 61e9005..f6bf2c8 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -336,8 +336,11 @@ class DivNode(NpMathBase):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if intensors[0].dtype == intensors[1].dtype:
-            if intensors[0].dtype in [numpy.int64]:
-                result = intensors[0].get_numpy() // intensors[1].get_numpy()
+            if numpy.issubdtype(intensors[0].dtype, numpy.integer):
+                a, b = intensors[0].get_numpy(), intensors[1].get_numpy()
+                # ONNX integer division truncates towards zero
+                quotient = numpy.floor_divide(a, b)
+                result = quotient + ((quotient < 0) & (quotient * b != a)).astype(quotient.dtype)
             else:
                 result = intensors[0].get_numpy() / intensors[1].get_numpy()
         else:
-- 
2.43.0


From 48d9651677b5b9777c07fdc9392aff456f1b63c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 020/136] fix: Min computes the elementwise minimum

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f6bf2c8..4903234 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -305,7 +305,7 @@ class MinNode(NpMathBase):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         result = intensors[0].get_numpy()
         for i in range(1, len(intensors)):
-            result = not numpy.minimum(result, intensors[i].get_numpy())
+            result = numpy.minimum(result, intensors[i].get_numpy())
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From 20c4b30a43ee6e892da4959bce22a5612dee90b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 021/136] fix: LeakyRelu values beyond the first element

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4903234..f09f8e7 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -710,8 +710,8 @@ class LeakyReluNode(PWNode):
         x = intensors[0].get_numpy()
         outtensor = numpy.zeros_like(x)
         for i in numpy.ndindex(x.shape):
-            x = x[i]
-            outtensor[i] = x if x >= 0 else x * self.alpha
+            v = x[i]
+            outtensor[i] = v if v >= 0 else v * self.alpha
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From 889b848c7184ee2ca14115b16c41706d901cac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 022/136] fix: HardSigmoid and HardSwish values on arrays

---
 onnx_tool/node.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f09f8e7..f638c8e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -587,7 +587,7 @@ class HardSigmoidNode(PWNode):
         self.add_default_value('beta', 0.5)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = max(0, min(1, self.alpha * intensors[0].get_numpy() + self.beta))
+        result = numpy.clip(self.alpha * intensors[0].get_numpy() + self.beta, 0, 1)
         outtensors[0].update_tensor(result)
 
 
@@ -600,7 +600,8 @@ class HardSwishNode(PWNode):
         self.add_default_value('beta', 0.5)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = intensors[0].get_numpy() * max(0, min(1, self.alpha * intensors[0].get_numpy() + self.beta))
+        x = intensors[0].get_numpy()
+        result = x * numpy.clip(self.alpha * x + self.beta, 0, 1)
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From 82dfc798172712b20d0010b4dba099f12efb4e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 023/136] fix: Erf values on initializers

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f638c8e..b1b99b8 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1623,7 +1623,7 @@ class IdentityNode(FusedBase):
 class ErfNode(FusedBase):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensor = numpy.zeros_like(intensors[0].get_numpy())
-        for i in numpy.ndindex(intensors[0].shape):
+        for i in numpy.ndindex(outtensor.shape):
             outtensor[i] = math.erf(intensors[0].get_numpy()[i])
         outtensors[0].update_tensor(outtensor)
 
-- 
2.43.0


From 5f178a10894a9f0d4680365fed2eee2b21ab0d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 024/136] fix: GatherElements values have the data element type

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b1b99b8..747ae51 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2763,7 +2763,7 @@ class GatherElementsNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
         indice = intensors[1].get_numpy()
-        outtensor = numpy.zeros_like(indice)
+        outtensor = numpy.zeros(indice.shape, dtype=x.dtype)
         for i in numpy.ndindex(outtensor.shape):
             idx = list(i)
             idx[self.axis] = indice[i]
-- 
2.43.0


From 98cdaeae19af97953e2323ee6e47deddd0d04a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 025/136] fix: Pad values for attribute pads and every mode

---
 onnx_tool/node.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 747ae51..ad03478 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1580,7 +1580,7 @@ class PadNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('pads', None)
         self.add_default_value('value', 0)
-        self.add_default_value('mode', 'constant')
+        self.add_default_value('mode', b'constant')
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
@@ -1602,6 +1602,7 @@ class PadNode(Node):
             pads = self.pads
         elif len(intensors) > 1:
             pads = intensors[1].get_numpy()
+        pads = numpy.array(pads)
         nrank = len(pads) // 2
         start = pads[:nrank].reshape(nrank, 1)
         end = pads[nrank:].reshape(nrank, 1)
@@ -1609,8 +1610,9 @@ class PadNode(Node):
         value = self.value
         if len(intensors) > 2:
             value = intensors[2].get_numpy()
-        outtensor = numpy.pad(intensors[0].get_numpy(), pad_width=pad_width, mode=self.mode.decode("utf-8"),
-                              constant_values=value)
+        mode = self.mode.decode("utf-8")
+        kwargs = {'constant_values': value} if mode == 'constant' else {}
+        outtensor = numpy.pad(intensors[0].get_numpy(), pad_width=pad_width, mode=mode, **kwargs)
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From 45ad2b3a19297d9a4a8bc41f2710894f13db4acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 026/136] fix: OneHot values use the off and on values

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index ad03478..a98b2ac 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1119,7 +1119,8 @@ class OneHotNode(Node):
         indices = intensors[0].get_numpy()
         depth = intensors[1].get_numpy()
         values = intensors[2].get_numpy()
-        y = one_hot(indices, depth, self.axis)
+        off, on = values
+        y = one_hot(indices, depth, self.axis, dtype=values.dtype) * (on - off) + off
         outtensors[0].update_tensor(y)
 
 
-- 
2.43.0


From c674d8953da5ccc6bc0691049f67b6a43ccf869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 027/136] fix: CumSum keeps its input element type

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index a98b2ac..fbae6cd 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2237,7 +2237,8 @@ class CumSumNode(PWNode):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if self.exclusive == 0 and self.reverse == 0:
-            y = numpy.cumsum(intensors[0].get_numpy(), intensors[1].get_numpy())
+            x = intensors[0].get_numpy()
+            y = numpy.cumsum(x, intensors[1].get_numpy(), dtype=x.dtype)
             outtensors[0].update_tensor(y)
             return
         raise NotImplementedError(f"CumSum doesnt support {self.exclusive} {self.reverse}")
-- 
2.43.0


From 7ee38594f63160334d23aedf4b3fc54b7083b963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 028/136] fix: ConstantOfShape without a value

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index fbae6cd..2566019 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2827,7 +2827,7 @@ class ConstantOfShapeNode(Node):
             outtensors[0].update_dtype(self.value.dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        arr = numpy.zeros(intensors[0].get_numpy(), dtype=self.value.dtype)
+        arr = numpy.zeros(intensors[0].get_numpy(), dtype=numpy.float32 if self.value is None else self.value.dtype)
         if self.value is not None and len(self.value) == 1:
             arr.fill(self.value[0])
         outtensors[0].update_tensor(arr)
-- 
2.43.0


From bddd6f8a06605c900a52d195ba4af6c4e7e3d48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 029/136] fix: Dropout mask value

---
 onnx_tool/node.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 2566019..99bfbd9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1509,6 +1509,12 @@ class DropoutNode(FusedBase):
             outtensors[1].update_shape(intensors[0].get_shape())
             outtensors[1].update_dtype(numpy.bool_)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        x = intensors[0].get_numpy()
+        outtensors[0].update_tensor(x)
+        if len(outtensors) == 2:
+            outtensors[1].update_tensor(numpy.ones(x.shape, dtype=numpy.bool_))
+
 
 @NODE_REGISTRY.register()
 class GlobalAveragePoolNode(Node):
-- 
2.43.0


From d37dac062351ae81862a79889803125e002d0531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 030/136] fix: Gemm alpha and beta

---
 onnx_tool/node.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 99bfbd9..c94371a 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -860,6 +860,8 @@ class GemmNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('transA', 0)
         self.add_default_value('transB', 0)
+        self.add_default_value('alpha', 1.0)
+        self.add_default_value('beta', 1.0)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         a_shape = intensors[0].get_shape()
@@ -911,8 +913,13 @@ class GemmNode(Node):
         if self.transB > 0:
             B = numpy.swapaxes(B, -1, -2)
         C = numpy.matmul(A, B)
+        if self.alpha != 1:
+            C = C * self.alpha
         if len(intensors) > 2:
-            C = numpy.add(C, intensors[2].get_numpy())
+            bias = intensors[2].get_numpy()
+            if self.beta != 1:
+                bias = bias * self.beta
+            C = numpy.add(C, bias)
         outtensors[0].update_tensor(C)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 2716ccbafd71e5181d97d308aace1cd011f1df8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 031/136] fix: GlobalAveragePool values keep rank and element
 type

---
 onnx_tool/node.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index c94371a..dfb0b28 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1535,16 +1535,7 @@ class GlobalAveragePoolNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        h = x.shape[2]
-        w = x.shape[3]
-        y = numpy.zeros(x.shape[:2], dtype=numpy.float32)
-        for i in numpy.ndindex(y.shape):
-            t = 0
-            for j in numpy.ndindex((h, w)):
-                xi = i + j
-                t += x[xi]
-            t /= (h * w)
-            y[i] = t
+        y = numpy.mean(x, axis=tuple(range(2, len(x.shape))), keepdims=True, dtype=x.dtype)
         outtensors[0].update_tensor(y)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 82354347e3e68a1daeb776ff2faa9c4c607a5c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 032/136] fix: Softmax default axis and overflow

---
 onnx_tool/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index dfb0b28..2443a0e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -406,9 +406,11 @@ class SoftmaxNode(ExpNode):
         super().__init__(node_proto)
         self.op_mac = EXP_MACS + DIV_MACS
         self.ratio = 1
+        self.add_default_value('axis', -1)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xexp = numpy.exp(intensors[0].get_numpy())
+        x = intensors[0].get_numpy()
+        xexp = numpy.exp(x - numpy.max(x, axis=self.axis, keepdims=True))
         result = xexp / numpy.sum(xexp, axis=self.axis, keepdims=True)
         outtensors[0].update_tensor(result)
 
-- 
2.43.0


From 39e3d99aa31a29bcc69b647fa9ebe85b0b1b0f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 033/136] fix: Softplus does not overflow

---
 onnx_tool/node.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 2443a0e..3019d68 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -424,9 +424,8 @@ class SoftplusNode(ExpNode):
         self.ratio = 1
 
     def value_infer(self, intensors: list[Tensor], outtensors: list[Tensor]):
-        # Can overflow to inf if intensor is too large,
-        # but we don't need precise inference anyway so maybe its good enough.
-        result = numpy.log1p(numpy.exp(intensors[0].get_numpy()))
+        x = intensors[0].get_numpy()
+        result = numpy.logaddexp(numpy.zeros_like(x), x)
         outtensors[0].update_tensor(result)
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 87b16ccd05153ff1bdcbba97e57050b02f052a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 034/136] fix: Clip without bounds

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 3019d68..2993d8a 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1001,11 +1001,11 @@ class ClipNode(PWNode):
         self.ratio = 1
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if intensors[1].name == '':
+        if len(intensors) < 2 or intensors[1].name == '':
             minval = None
         else:
             minval = intensors[1].get_numpy()
-        if intensors[2].name == '':
+        if len(intensors) < 3 or intensors[2].name == '':
             maxval = None
         else:
             maxval = intensors[2].get_numpy()
-- 
2.43.0


From 6a6bdd569097e698dd3c6c9cc75e65a09485898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 035/136] fix: automatic VALID padding accounts for dilation

---
 onnx_tool/node.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 2993d8a..94753e0 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -52,8 +52,8 @@ def _convtranspose_output_shape(xin, output_padding, pad, ksize, stride, dilatio
     return stride * (xin - 1) + output_padding + ((ksize - 1) * dilation + 1) - pad
 
 
-def _auto_pad_valid_shape_calc(x, ksize, stride):
-    return math.ceil((x - ksize + 1) / stride)
+def _auto_pad_valid_shape_calc(x, ksize, stride, dilation=1):
+    return math.ceil((x - dilation * (ksize - 1)) / stride)
 
 
 def _auto_pad_same_shape_calc(x, stride):
@@ -1422,11 +1422,14 @@ class PoolBase(Node):
                 if len(self.strides) == 3:
                     outshape += [_auto_pad_same_shape_calc(inshape[4], self.strides[2]), ]
             elif self.auto_pad == b'VALID':
-                outshape += [_auto_pad_valid_shape_calc(inshape[2], self.kernel_shape[0], self.strides[0]), ]
+                outshape += [_auto_pad_valid_shape_calc(inshape[2], self.kernel_shape[0], self.strides[0],
+                                                        self.dilations[0]), ]
                 if len(self.strides) >= 2:
-                    outshape += [_auto_pad_valid_shape_calc(inshape[3], self.kernel_shape[1], self.strides[1]), ]
+                    outshape += [_auto_pad_valid_shape_calc(inshape[3], self.kernel_shape[1], self.strides[1],
+                                                            self.dilations[1]), ]
                 if len(self.strides) == 3:
-                    outshape += [_auto_pad_valid_shape_calc(inshape[4], self.kernel_shape[2], self.strides[2]), ]
+                    outshape += [_auto_pad_valid_shape_calc(inshape[4], self.kernel_shape[2], self.strides[2],
+                                                            self.dilations[2]), ]
         else:
             if len(self.kernel_shape) == 1:
                 outshape = inshape[:2] + [
@@ -2131,13 +2134,14 @@ class ConvNode(Node):
                 if len(xshape) == 5:
                     shape += (math.ceil(xshape[4] / self.strides[2]),)
             elif self.auto_pad == b'VALID':
-                oh = math.ceil((xshape[2] - wshape[2] + 1) / self.strides[0])
+                oh = _auto_pad_valid_shape_calc(xshape[2], wshape[2], self.strides[0], self.dilations[0])
                 shape = (xshape[0], wshape[0], oh)
                 if len(xshape) >= 4:
-                    ow = math.ceil((xshape[3] - wshape[3] + 1) / self.strides[1])
+                    ow = _auto_pad_valid_shape_calc(xshape[3], wshape[3], self.strides[1], self.dilations[1])
                     shape += (ow,)
                 if len(xshape) == 5:
-                    shape += (math.ceil((xshape[4] - wshape[4] + 1) / self.strides[2]),)
+                    shape += (_auto_pad_valid_shape_calc(xshape[4], wshape[4], self.strides[2],
+                                                         self.dilations[2]),)
             else:
                 assert 0
 
-- 
2.43.0


From ada07c55f2b3765745431a2c015ebe888b4fe383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 036/136] fix: transposed convolution with automatic padding

---
 onnx_tool/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 94753e0..4e88a18 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2669,6 +2669,7 @@ class ConvTransposeNode(Node):
         self.add_default_value('strides', (1, 1, 1))
         self.add_default_value('dilations', (1, 1, 1))
         self.add_default_value('output_shape', (0, 0))
+        self.add_default_value('auto_pad', None)
         self.add_default_value('group', 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -2706,6 +2707,8 @@ class ConvTransposeNode(Node):
             shape = [xshape[0], outc, ow]
             if volume(self.output_shape) != 0:
                 shape[2] = self.output_shape[0]
+        if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER'] and volume(self.output_shape) == 0:
+            shape[2:] = [x * s for x, s in zip(xshape[2:], self.strides)]
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From b8b5fddee18805b9eef649025153c7ee2c1602d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 037/136] fix: quantised convolutions share the convolution
 shape rule

---
 onnx_tool/node.py | 44 +++-----------------------------------------
 1 file changed, 3 insertions(+), 41 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4e88a18..38ba999 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2577,27 +2577,8 @@ class QLinearMatMulNode(GemmNode):
 @NODE_REGISTRY.register()
 class QLinearConvNode(ConvNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xshape = intensors[0].get_shape()
-        wshape = intensors[3].get_shape()
-        shape = []
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                shape = [xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0])]
-                if len(xshape) == 4:
-                    shape += [math.ceil(xshape[3] / self.strides[1]), ]
-        else:
-            if len(xshape) == 4:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                ow = _conv_output_shape(xshape[3], self.pads[1] + self.pads[3], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                shape = [xshape[0], wshape[0], oh, ow]
-            elif len(xshape) == 3:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[1], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                shape = [xshape[0], wshape[0], oh]
-        outtensors[0].update_shape(shape)
-        outtensors[0].update_dtype(intensors[-2].dtype)
+        super().shape_infer([intensors[0], intensors[3]], outtensors)
+        outtensors[0].update_dtype(intensors[7].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
@@ -2621,26 +2602,7 @@ class QLinearConvNode(ConvNode):
 @NODE_REGISTRY.register()
 class ConvIntegerNode(ConvNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xshape = intensors[0].get_shape()
-        wshape = intensors[1].get_shape()
-        shape = []
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                shape = [xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0])]
-                if len(xshape) == 4:
-                    shape += [math.ceil(xshape[3] / self.strides[1]), ]
-        else:
-            if len(xshape) == 4:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                ow = _conv_output_shape(xshape[3], self.pads[1] + self.pads[3], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                shape = [xshape[0], wshape[0], oh, ow]
-            elif len(xshape) == 3:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[1], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                shape = [xshape[0], wshape[0], oh]
-        outtensors[0].update_shape(shape)
+        super().shape_infer(intensors, outtensors)
         outtensors[0].update_dtype(numpy.int32)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 41b0efd8e323919f039d83e2fddbd291efec334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 038/136] fix: quantised convolution cost counts every kernel
 dimension

---
 onnx_tool/node.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 38ba999..aee27a8 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2585,12 +2585,9 @@ class QLinearConvNode(ConvNode):
         outshape = outtensors[0].get_shape()
         if len(outtensors) == 1:
             kernel_shape = intensors[3].get_shape()
-            if len(kernel_shape) > 3:
+            if len(kernel_shape) >= 3:
                 outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2] * kernel_shape[3]
-            elif len(kernel_shape) == 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2]
+                macs += outvol * volume(kernel_shape[1:])
             else:
                 outvol = 0
                 raise NotImplementedError()
@@ -2610,12 +2607,9 @@ class ConvIntegerNode(ConvNode):
         outshape = outtensors[0].get_shape()
         if len(outtensors) == 1:
             kernel_shape = intensors[1].get_shape()
-            if len(kernel_shape) > 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2] * kernel_shape[3]
-            elif len(kernel_shape) == 3:
+            if len(kernel_shape) >= 3:
                 outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2]
+                macs += outvol * volume(kernel_shape[1:])
             else:
                 outvol = 0
                 raise NotImplementedError()
-- 
2.43.0


From b8932e509b10088eead88879b4e9fc27b60535b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 039/136] fix: QLinearMatMul batch broadcasting and cost

---
 onnx_tool/node.py | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index aee27a8..ca0c59d 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2546,32 +2546,11 @@ class QLinearMatMulNode(GemmNode):
         self.add_default_value('transB', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xshape = intensors[0].get_shape()
-        wshape = intensors[3].get_shape()
-
-        if self.__class__ == GemmNode:
-            if self.transA is not None and self.transA > 0:
-                xshape = xshape[::-1]
-            else:
-                xshape = xshape
-            if self.transB is not None and self.transB > 0:
-                yshape = xshape[:-1] + [wshape[-2], ]
-            else:
-                yshape = xshape[:-1] + [wshape[-1], ]
-        else:
-            yshape = xshape[:-1] + [wshape[-1], ]
-        outtensors[0].update_shape(yshape)
+        super().shape_infer([intensors[0], intensors[3]], outtensors)
         outtensors[0].update_dtype(intensors[-1].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xshape = intensors[0].get_shape()
-        weight_shape = intensors[3].get_shape()
-        macs = volume(xshape)
-        if self.__class__ == GemmNode:
-            macs *= weight_shape[0]
-        else:
-            macs *= weight_shape[-1]
-        return macs
+        return super()._profile_core([intensors[0], intensors[3]], outtensors)
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From ab752a09c7eb899096a591e41c91476d7c8c04d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 040/136] fix: MatMulInteger values

---
 onnx_tool/node.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index ca0c59d..f42277e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2537,6 +2537,19 @@ class MatMulIntegerNode(GemmNode):
         super().shape_infer(intensors, outtensors)
         outtensors[0].update_dtype(numpy.int32)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        A = intensors[0].get_numpy().astype(numpy.int32)
+        B = intensors[1].get_numpy().astype(numpy.int32)
+        if len(intensors) > 2 and intensors[2].name != '':
+            zp = intensors[2].get_numpy().astype(numpy.int32)
+            A = A - (zp[..., numpy.newaxis] if len(zp.shape) == 1 and zp.size > 1 else zp)
+        if len(intensors) > 3:
+            B = B - intensors[3].get_numpy().astype(numpy.int32)
+        outtensors[0].update_tensor(numpy.matmul(A, B))
+
+    def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        return super()._profile_core(intensors[:2], outtensors)
+
 
 @NODE_REGISTRY.register()
 class QLinearMatMulNode(GemmNode):
-- 
2.43.0


From 5ec19897697af1d083f7503e1c57281e4e8b904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 041/136] fix: quantised operators do not compute values with
 the float rule

---
 onnx_tool/node.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f42277e..fe3840a 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2565,6 +2565,9 @@ class QLinearMatMulNode(GemmNode):
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         return super()._profile_core([intensors[0], intensors[3]], outtensors)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        return Node.value_infer(self, intensors, outtensors)
+
 
 @NODE_REGISTRY.register()
 class QLinearConvNode(ConvNode):
@@ -2572,6 +2575,9 @@ class QLinearConvNode(ConvNode):
         super().shape_infer([intensors[0], intensors[3]], outtensors)
         outtensors[0].update_dtype(intensors[7].dtype)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        return Node.value_infer(self, intensors, outtensors)
+
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
         outshape = outtensors[0].get_shape()
@@ -2594,6 +2600,9 @@ class ConvIntegerNode(ConvNode):
         super().shape_infer(intensors, outtensors)
         outtensors[0].update_dtype(numpy.int32)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        return Node.value_infer(self, intensors, outtensors)
+
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
         outshape = outtensors[0].get_shape()
-- 
2.43.0


From d94855a2b705502d53c10b72fe08cf3c1ffd22f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 042/136] fix: convolution values honour automatic padding and
 repeated evaluation

---
 onnx_tool/node.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index fe3840a..afbe2d6 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -60,6 +60,19 @@ def _auto_pad_same_shape_calc(x, stride):
     return math.ceil((x) / stride)
 
 
+def _resolve_pads(auto_pad, pads, inshape, outshape, kshape, strides, dilations):
+    """Explicit begin/end pads of a convolution or pooling window over the spatial shape."""
+    if auto_pad is None or auto_pad == b'NOTSET':
+        return list(pads)
+    begins, ends = [], []
+    for x, y, k, s, d in zip(inshape, outshape, kshape, strides, dilations):
+        total = max(0, (y - 1) * s + (k - 1) * d + 1 - x) if auto_pad != b'VALID' else 0
+        begin = total // 2 if auto_pad == b'SAME_UPPER' else total - total // 2
+        begins.append(begin)
+        ends.append(total - begin)
+    return begins + ends
+
+
 def _pooling_shape_calc(inshape, pad, kshape, dilation, stride, ceilmode):
     outshape = (inshape + pad - ((kshape - 1) * dilation + 1)) / stride + 1
     if ceilmode:
@@ -2180,6 +2193,9 @@ class ConvNode(Node):
             raise NotImplementedError()
 
         reduce_shape = tuple(wshape[1:])
+        pads = _resolve_pads(self.auto_pad, self.pads, xshape[2:], outshape[2:], wshape[2:], self.strides,
+                             self.dilations)
+        outtensor = numpy.zeros_like(outtensor)
         for i in numpy.ndindex(tuple(outshape)):
             batch = i[0]
             ocn = i[1]
@@ -2192,8 +2208,8 @@ class ConvNode(Node):
                 icn = j[0]
                 kh = j[1]
                 kw = j[2]
-                srch = oh * self.strides[0] + kh * self.dilations[0] - self.pads[0]
-                srcw = ow * self.strides[1] + kw * self.dilations[1] - self.pads[1]
+                srch = oh * self.strides[0] + kh * self.dilations[0] - pads[0]
+                srcw = ow * self.strides[1] + kw * self.dilations[1] - pads[1]
                 if srch < 0 or srch >= xshape[2] or srcw < 0 or srcw >= xshape[3]:
                     srcv = 0
                 else:
-- 
2.43.0


From f4670576856ec55e3011957f311e1085cbdd0df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 043/136] fix: max pooling values

---
 onnx_tool/node.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index afbe2d6..5bae795 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1501,27 +1501,24 @@ class MaxPoolNode(PoolBase):
         self.op_mac = CMP_MACS
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xshape = intensors[0].get_shape()
+        if len(outtensors) > 1:
+            raise NotImplementedError('MaxPool indices are not computed')
+        x = intensors[0].get_numpy()
         self.shape_infer(intensors, outtensors)
-        ot = outtensors[0].get_numpy()
+        outshape = outtensors[0].get_shape()
+        ot = numpy.zeros(outshape, dtype=x.dtype)
+        ks = tuple(self.kernel_shape)
+        pads = _resolve_pads(self.auto_pad, self.pads, x.shape[2:], outshape[2:], ks, self.strides, self.dilations)
         for i in numpy.ndindex(ot.shape):
-            batch = i[0]
-            ocn = i[1]
-            oh = i[2]
-            ow = i[3]
-            t = ot[i]
-            ks = tuple(self.kernel_shape)
+            t = None
             for j in numpy.ndindex(ks):
-                kh = j[0]
-                kw = j[1]
-                srch = oh * self.strides[0] + kh - self.pads[0]
-                srcw = ow * self.strides[1] + kw - self.pads[1]
-                if srch < 0 or srch >= xshape[2] or srcw < 0 or srcw >= xshape[3]:
+                src = tuple(i[2 + a] * self.strides[a] + j[a] * self.dilations[a] - pads[a] for a in range(len(ks)))
+                if any(p < 0 or p >= dim for p, dim in zip(src, x.shape[2:])):
                     continue
-                else:
-                    srcv = intensors[0].get_numpy()[batch, ocn, srch, srcw]
-                t = max(srcv, t)
+                srcv = x[i[:2] + src]
+                t = srcv if t is None else max(srcv, t)
             ot[i] = t
+        outtensors[0].update_tensor(ot)
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From aa5c6531afa8bc21ba7d02f3945e40d89849002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 044/136] fix: ReduceL2 with axes given as an input

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 5bae795..e851688 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2239,8 +2239,9 @@ class ReduceL2Node(Node):
         self.axes = tuple(self.axes) if self.axes is not None else None
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        axes = tuple(intensors[1].get_numpy().tolist()) if len(intensors) == 2 else self.axes
         reduced = numpy.sqrt(
-            numpy.sum(intensors[0].get_numpy() * intensors[0].get_numpy(), axis=self.axes, keepdims=self.keepdims == 1))
+            numpy.sum(intensors[0].get_numpy() * intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1))
         outtensors[0].update_tensor(reduced)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From a97acb9695713b13630f5c4c8c5e45bc7a6ee266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 045/136] fix: Mod with the C remainder attribute

---
 onnx_tool/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e851688..162e912 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -366,9 +366,11 @@ class ModNode(NpMathBase):
     def __init__(self, n):
         super().__init__(n)
         self.op_mac = ADD_MACS
+        self.add_default_value('fmod', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = numpy.mod(intensors[0].get_numpy(), intensors[1].get_numpy())
+        mod = numpy.fmod if self.fmod else numpy.mod
+        result = mod(intensors[0].get_numpy(), intensors[1].get_numpy())
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From 3d4eb959e7ab9f8413cf4152312bf3c1433dfc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 046/136] fix: GatherND batch dimensions

---
 onnx_tool/node.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 162e912..a80223f 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2423,10 +2423,14 @@ class ScatterNDNode(Node):
 
 @NODE_REGISTRY.register()
 class GatherNDNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('batch_dims', 0)
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data_shape = intensors[0].get_shape()
         indice_shape = intensors[1].get_shape()
-        batch_dims = 0
+        batch_dims = self.batch_dims
         # Note the data rank - will be reused multiple times later
         data_rank = len(data_shape)
 
@@ -2460,7 +2464,7 @@ class GatherNDNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
         indices = intensors[1].get_numpy()
-        ret = gather_nd_impl(data, indices, 0)
+        ret = gather_nd_impl(data, indices, self.batch_dims)
         outtensors[0].update_tensor(ret)
 
 
-- 
2.43.0


From 629d4a530d10c8e407447a99e2651b1902f5f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 047/136] fix: ScatterND reduction

---
 onnx_tool/node.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index a80223f..e4ac768 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2410,6 +2410,10 @@ def gather_nd_impl(
 
 @NODE_REGISTRY.register()
 class ScatterNDNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('reduction', b'none')
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
         outtensors[0].update_dtype(intensors[0].dtype)
@@ -2418,7 +2422,7 @@ class ScatterNDNode(Node):
         data = intensors[0].get_numpy()
         indices = intensors[1].get_numpy()
         updates = intensors[2].get_numpy()
-        outtensors[0].update_tensor(scatter_nd_impl(data, indices, updates))
+        outtensors[0].update_tensor(scatter_nd_impl(data, indices, updates, self.reduction.decode('utf-8')))
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 685c4bde5762778754560032a2493b31043c63b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 048/136] fix: GRU with a single output and recurrent layers
 without bias

---
 onnx_tool/node.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e4ac768..70d4e0e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2100,7 +2100,7 @@ class LSTMNode(Node):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         rshape = intensors[2].get_shape()
-        bshape = intensors[3].get_shape()
+        bshape = intensors[3].get_shape() if len(intensors) > 3 else []
         seq = xshape[0]
         batch = xshape[1]
         num_dir = wshape[0]
@@ -2780,14 +2780,15 @@ class GRUNode(Node):
         h_len = wshape[1] // 3
         outtensors[0].update_shape([seq_len, num_dir, batch, h_len])
         outtensors[0].update_dtype(intensors[0].dtype)
-        outtensors[1].update_shape([num_dir, batch, h_len])
-        outtensors[1].update_dtype(intensors[0].dtype)
+        if len(outtensors) > 1:
+            outtensors[1].update_shape([num_dir, batch, h_len])
+            outtensors[1].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         rshape = intensors[2].get_shape()
-        bshape = intensors[3].get_shape()
+        bshape = intensors[3].get_shape() if len(intensors) > 3 else []
         batch = xshape[1]
         seq = xshape[0]
         h_len = wshape[1] // 3
-- 
2.43.0


From be1d07e95a2af17324da16696bd95d5b819426b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 049/136] fix: bidirectional recurrent cost counts both
 directions

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 70d4e0e..8227635 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2107,7 +2107,7 @@ class LSTMNode(Node):
         h_len = wshape[1] // 4
         if self.hidden_size is not None:
             assert (h_len == self.hidden_size)
-        ht_size = volume([batch, seq, h_len])
+        ht_size = volume([num_dir, batch, seq, h_len])
         # ft = sig(W*X+U*Ht-1+B)
         # it = sig(W*X+U*Ht-1+B)
         # ot = sig(W*X+U*Ht-1+B)
@@ -2792,7 +2792,7 @@ class GRUNode(Node):
         batch = xshape[1]
         seq = xshape[0]
         h_len = wshape[1] // 3
-        ht_size = volume([batch, seq, h_len])
+        ht_size = volume([wshape[0], batch, seq, h_len])
         # r = sigmoid(Wr*X+Wr*Ht-1+br)
         # z = sigmoid(Wz*X+Wz*Ht-1+bz)
         # h' = tanh(W*X+W*(r*Ht-1)+bh)
-- 
2.43.0


From 8af3cd209dcc3b2e27733599648169f4280b82b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 050/136] fix: Einsum with one operand, leading labels before
 an ellipsis, and its cost

---
 onnx_tool/node.py | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8227635..0d09b9d 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1227,20 +1227,16 @@ class EinsumNode(Node):
         for idx, tensor in enumerate(intensors):
             label_str = self.input_labels[idx]
             tshape = tensor.get_shape()
+            non_ellipsis = label_str.replace('...', '')
             if self._has_ellipsis(label_str):
-                non_ellipsis = self._get_non_ellipsis_labels(label_str)
                 ellipsis_ndim = len(tshape) - len(non_ellipsis)
                 # Record ellipsis dimensions for broadcasting
-                ellipsis_dims_list.append(tshape[:ellipsis_ndim])
-                offset = ellipsis_ndim
-            else:
-                non_ellipsis = label_str
-                offset = 0
+                pos = label_str.index('...')
+                ellipsis_dims_list.append(tshape[pos:pos + ellipsis_ndim])
+                tshape = tshape[:pos] + tshape[pos + ellipsis_ndim:]
 
             for i, ch in enumerate(non_ellipsis):
-                if ch == '.':
-                    continue
-                dim_val = tshape[offset + i]
+                dim_val = tshape[i]
                 if ch not in label_to_dims:
                     label_to_dims[ch] = []
                 label_to_dims[ch].append(dim_val)
@@ -1259,14 +1255,17 @@ class EinsumNode(Node):
             for dims in zip(*padded_shapes):
                 ellipsis_shape.append(max(dims))
 
-        # Build output shape: first ellipsis dims, then output labels
-        shape.extend(ellipsis_shape)
+        self.label_sizes = list(ellipsis_shape) + [max(dims) for dims in label_to_dims.values()]
+        # Build output shape: the ellipsis dims where the output has them (first in implicit mode)
+        output_labels = self.output_label_str
+        if ellipsis_dims_list and '...' not in output_labels:
+            output_labels = '...' + output_labels
 
         # For each output label, take the max across all inputs (broadcast)
-        for ch in self.output_label_str:
+        for ch in output_labels.replace('...', '.'):
             if ch == '.':
-                continue
-            if ch in label_to_dims:
+                shape.extend(ellipsis_shape)
+            elif ch in label_to_dims:
                 shape.append(max(label_to_dims[ch]))
             else:
                 # Label not found in any input (shouldn't happen in valid equations)
@@ -1277,15 +1276,9 @@ class EinsumNode(Node):
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 1
-        map = {}
-        shape0 = intensors[0].get_shape()
-        shape1 = intensors[1].get_shape()
-        for i, v in enumerate(shape0):
-            map[self.input_labels[0].replace('.', '')[i]] = v
-        for i, v in enumerate(shape1):
-            map[self.input_labels[1].replace('.', '')[i]] = v
-        for key in map.keys():
-            macs *= map[key]
+        self.shape_infer(intensors, outtensors)
+        for size in self.label_sizes:
+            macs *= size
         return macs
 
 
-- 
2.43.0


From 4781d16f9950abd22f5a461277ea771e623e75ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 051/136] fix: get_subgraph and model_subgraph pass a model
 configuration

---
 onnx_tool/__init__.py | 2 +-
 onnx_tool/graph.py    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index b7d892a..c0fb112 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -176,7 +176,7 @@ def model_subgraph(m, in_tensor_names: [str] = None, out_tensor_names: [str] = N
         graph_lvl2.save_model(os.path.join(save_folder, model.modelname + '_level2.onnx'), rawmodel=model.mproto)
     if nodenames is not None:
         rawgraph = graph.get_onnxgraph_by_nodenames(nodenames)
-        subgraph = Graph(rawgraph)
+        subgraph = Graph(rawgraph, model.cfg)
         subgraph.save_model(os.path.join(save_folder, model.modelname + '_subgraph.onnx'), rawmodel=model.mproto)
 
 
diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 80de650..a4e1f00 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -592,9 +592,9 @@ class Graph():
     def get_subgraph(self, inputs: [], outputs: []):
         graph_level0, graph_level1, graph_level2 = self.__get_subnodes_byio__(inputs, outputs)
 
-        graph_level0 = Graph(self.get_onnxgraph_by_nodenames(graph_level0))
-        graph_level1 = Graph(self.get_onnxgraph_by_nodenames(graph_level1))
-        graph_level2 = Graph(self.get_onnxgraph_by_nodenames(graph_level2))
+        graph_level0 = Graph(self.get_onnxgraph_by_nodenames(graph_level0), self.cfg)
+        graph_level1 = Graph(self.get_onnxgraph_by_nodenames(graph_level1), self.cfg)
+        graph_level2 = Graph(self.get_onnxgraph_by_nodenames(graph_level2), self.cfg)
 
         group_outputs = [graph_level0.output, graph_level1.output, graph_level2.output]
         group_inputs = [graph_level0.input, graph_level1.input, graph_level2.input]
-- 
2.43.0


From 3d19ee0b671e5c59537e55f38e5974d741aaafcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 052/136] fix: model_opfusion passes the fused node name

---
 onnx_tool/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index c0fb112..139d624 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -185,9 +185,9 @@ def model_opfusion(m, op_type: str, op_name: str, save_file: str, in_tensor_name
     model = loadmodel(m)
     graph = model.graph
     if in_tensor_names is not None and out_tensor_names is not None:
-        graph.fuse_subgraph_iotensors(inputs=in_tensor_names, outputs=out_tensor_names, name=op_name,
+        graph.fuse_subgraph_iotensors(inputs=in_tensor_names, outputs=out_tensor_names, name_prefix=op_name,
                                       nodeop=op_type, keep_attr=keep_attr)
         model.save_model(save_file)
     if nodenames is not None:
-        graph.fuse_subgraph_node_names(nodenames, nodeop=op_type, name=op_name, keep_attr=keep_attr)
+        graph.fuse_subgraph_node_names(nodenames, nodeop=op_type, nodename=op_name, keep_attr=keep_attr)
         model.save_model(save_file)
-- 
2.43.0


From ab3766caef2c379030c64f72d38cd7baf1a3e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 053/136] fix: model_profile no longer changes the default
 exclusions

---
 onnx_tool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 139d624..209e0fb 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -86,7 +86,7 @@ def model_profile(m, dynamic_shapes: {str: tuple} = None,
         all_ops = {op.name for op in get_all_schemas()}
         for item in exclude_ops:
             assert item in all_ops, f"Provided exclude op is not a valid onnx op: {item}"
-        hidden_ops.update(exclude_ops)
+        hidden_ops = set(hidden_ops or ()) | set(exclude_ops)
     gtmr.start()
     g.shape_infer(dynamic_shapes)
     g.log(f'infered all tensor shapes, time cost {gtmr.stop():.3f} s')
-- 
2.43.0


From b062944c376f93fa1165949aa329c91e3b3592fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 054/136] fix: update_tensor_relations keeps graph inputs
 dynamic

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index a4e1f00..d782a16 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -328,7 +328,7 @@ class Graph():
 
     def update_tensor_relations(self):
         self.__update_consumer_producer__()
-        self.dynamics = list(self.producedby.keys())
+        self.dynamics = [t for t in self.input if t not in self.producedby] + list(self.producedby.keys())
 
     def __remove_if__(self):
         while True:
-- 
2.43.0


From 0b72c1d34b7a03772f3b0eb50c87cc7b57902051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 055/136] fix: declared graph outputs that are also consumed
 stay outputs

---
 onnx_tool/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index d782a16..f91e975 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -248,7 +248,8 @@ class Graph():
 
         self.input = []
         if not self.cfg.remove_dangling:
-            self.output = []
+            declared = [] if self.rawgraph is None else [o.name for o in self.rawgraph.output]
+            self.output = [o for o in declared if o in self.producedby]
         for name in self.nodemap.keys():
             node = self.nodemap[name]
             for tensor in node.input:
-- 
2.43.0


From dffbcc54bca74125e3e222c4d72a43bbcf61cdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 056/136] fix: fused nodes record predecessor and successor
 nodes

---
 onnx_tool/graph.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index f91e975..d61f958 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -764,12 +764,14 @@ class Graph():
                 self.consumedby[i].append(nodename)
             else:
                 self.consumedby[i] = [nodename]
-            if i in self.producedby.keys():
-                newnode.prevnodes.append(self.producedby[i])
+            for pname in self.producedby.get(i, []):
+                newnode.prevnodes.append(self.nodemap[pname])
+                self.nodemap[pname].nextnodes.append(newnode)
         for o in _outputs:
             self.producedby[o] = [nodename]
-            if o in self.consumedby.keys():
-                newnode.nextnodes.append(self.consumedby[o])
+            for cname in self.consumedby.get(o, []):
+                newnode.nextnodes.append(self.nodemap[cname])
+                self.nodemap[cname].prevnodes.append(newnode)
         self.nodemap[nodename] = newnode
 
     def fuse_postop_node_names(self, nodes: [str], append_attr: bool, **extrakeys):
@@ -813,12 +815,16 @@ class Graph():
         for i in _inputs:
             if i in self.consumedby.keys():
                 self.consumedby[i].append(mainnode.name)
-            if i in self.producedby.keys():
-                newnode.prevnodes.append(self.producedby[i])
+            else:
+                self.consumedby[i] = [mainnode.name]
+            for pname in self.producedby.get(i, []):
+                newnode.prevnodes.append(self.nodemap[pname])
+                self.nodemap[pname].nextnodes.append(newnode)
         for o in _outputs:
             self.producedby[o] = [mainnode.name]
-            if o in self.consumedby.keys():
-                newnode.nextnodes.append(self.consumedby[o])
+            for cname in self.consumedby.get(o, []):
+                newnode.nextnodes.append(self.nodemap[cname])
+                self.nodemap[cname].prevnodes.append(newnode)
         self.nodemap[mainnode.name] = newnode
 
     def fuse_subgraph_iotensors(self, inputs: [], outputs: [], nodeop: str, name_prefix: str = None, keep_attr=True):
-- 
2.43.0


From de867dfb98a8023127eaf329bb7e4b6252de228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 057/136] fix: graph outputs survive fusing the nodes that
 compute them

---
 onnx_tool/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index d61f958..c93cdd1 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -754,8 +754,10 @@ class Graph():
                     newnode_prot.attribute.append(attr)
                 count += 1
         from .node import create_node
+        graph_outputs = list(self.output)
         for name in nodes:
             self.remove_node(name)
+        self.output = graph_outputs
         newnode = create_node(newnode_prot)
         newnode.input = _inputs
         newnode.output = _outputs
@@ -807,8 +809,10 @@ class Graph():
         attr = onnx.helper.make_attribute('postop_count', count)
         newnode.attribute.append(attr)
 
+        graph_outputs = list(self.output)
         for name in nodes:
             self.remove_node(name)
+        self.output = graph_outputs
         newnode = create_node(newnode)
         newnode.input = _inputs
         newnode.output = _outputs
@@ -993,7 +997,7 @@ class Graph():
             for output in self.nodemap[name].output:
                 if remove_initials and output in self.initials:
                     continue
-                if output in self.consumedby:
+                if output in self.consumedby and output not in self.output:
                     consumers = self.consumedby[output]
                     inner = True
                     for consumer in consumers:
-- 
2.43.0


From 252569e171649744f3cbc470f56440bcd49aa5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 058/136] fix: skip_node rewires every use and keeps the
 relations

---
 onnx_tool/graph.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index c93cdd1..c3e1d13 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -725,20 +725,26 @@ class Graph():
                 count += 1
                 indtensor = input
         if count == 1 and len(node.output) == 1:
-            self.consumedby[indtensor].remove(nodename)
-            if node.output[0] in self.consumedby:
-                for con in self.consumedby[node.output[0]]:
-                    con_node = self.nodemap[con]
-                    for i in range(len(con_node.input)):
-                        if con_node.input[i] == node.output[0]:
-                            con_node.input[i] = indtensor
-                            self.consumedby[indtensor].append(con)
-                            break
-            else:
-                for pro in self.producedby[indtensor]:
+            outtensor = node.output[0]
+            if outtensor in self.output and indtensor in self.producedby and indtensor not in self.output:
+                # keep the name of the graph output: the producer writes it directly
+                oldname, newname = indtensor, outtensor
+                for pro in self.producedby.pop(indtensor):
                     pro_node = self.nodemap[pro]
-                    assert (len(pro_node.output) == 1)
-                    pro_node.output[0] = node.output[0]
+                    pro_node.output = [outtensor if t == indtensor else t for t in pro_node.output]
+                    self.producedby[outtensor] = [pro]
+            else:
+                oldname, newname = outtensor, indtensor
+                self.producedby.pop(outtensor, None)
+                self.output = [indtensor if t == outtensor else t for t in self.output]
+            for t in node.input:
+                self.consumedby[t].remove(nodename)
+                if len(self.consumedby[t]) == 0:
+                    self.consumedby.pop(t)
+            for con in self.consumedby.pop(oldname, []):
+                con_node = self.nodemap[con]
+                con_node.input = [newname if t == oldname else t for t in con_node.input]
+                self.consumedby.setdefault(newname, []).append(con)
         self.nodemap.pop(nodename)
 
     def fuse_subgraph_node_names(self, nodes: [str], nodeop: str, nodename: str, keep_attr=True):
-- 
2.43.0


From 1caa24aee0f123968b738e6e0d1c2ddbdb68700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 059/136] fix: get_compute_graph leaves the source graph alone

---
 onnx_tool/graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index c3e1d13..9707a0e 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1399,6 +1399,11 @@ class Graph():
 
     def get_compute_graph(self):
         cg = copy.copy(self)
+        cg.nodemap = dict(self.nodemap)
+        cg.producedby = {k: list(v) for k, v in self.producedby.items()}
+        cg.consumedby = {k: list(v) for k, v in self.consumedby.items()}
+        cg.input = list(self.input)
+        cg.output = list(self.output)
         nodes = []
         rmnodes = []
         for key in cg.nodemap.keys():
@@ -1442,7 +1447,7 @@ class Graph():
         cg.dynamics.extend(cg.output)
         for name in cg.nodemap.keys():
             for output in cg.nodemap[name].output:
-                if name not in cg.dynamics:
+                if output not in cg.dynamics:
                     cg.dynamics.append(output)
 
         return cg
-- 
2.43.0


From 08bd7246b6cc6b68f1b06deefac4dad37bfac01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 060/136] fix: memory plan keeps graph outputs live

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 9707a0e..3755f99 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1226,7 +1226,7 @@ class Graph():
                         tensor_consumed[name] = [node]
                     consumers = self.consumedby[name]
                     if len(tensor_consumed[name]) == len(consumers):
-                        if name in tensor_in_mem:
+                        if name in tensor_in_mem and name not in self.output:
                             tensor_in_mem.remove(name)
         for output in self.output:
             if output not in tensor_in_mem:
-- 
2.43.0


From c1048831f6eb043cabf181ffaa04b09b1b198a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 061/136] fix: memory plan of a graph without intermediate
 tensors

---
 onnx_tool/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 3755f99..add8dbf 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1394,7 +1394,8 @@ class Graph():
 
         self.log(f"Raw memory size (without parameter memory): {raw_memsize:,} bytes")
         self.log(f"Compressed memory size: {compress_size:,} bytes")
-        self.log(f'Comression ratio: {compress_size / raw_memsize * 100:.3f}%')
+        if raw_memsize > 0:
+            self.log(f'Comression ratio: {compress_size / raw_memsize * 100:.3f}%')
         return compress_mem, compress_size
 
     def get_compute_graph(self):
-- 
2.43.0


From 5d31d9681ae906428baead68b0fd927fac1710ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 062/136] fix: extracted graphs list only the constants their
 nodes use

---
 onnx_tool/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index add8dbf..4180036 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -897,8 +897,11 @@ class Graph():
             else:
                 inputs.append(onnx.helper.make_tensor_value_info(name, 1, None))
         # 把没有 numpy 数据的 initializer 也作为 graph input（保留 shape 信息）
+        used_names = set()
+        for name in nodenames:
+            used_names.update(self.nodemap[name].input)
         for name in self.initials:
-            if name in initializer_names:
+            if name in initializer_names or name not in used_names:
                 continue  # 已有 numpy 数据，作为 initializer 导出
             if name in self.tensormap:
                 proto = self.tensormap[name].make_value_proto(make_dummy=True)
-- 
2.43.0


From 04fe141532f3379b13840b02f5515f7e229f13c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 063/136] fix: load small integer and boolean tensors from
 typed fields

---
 onnx_tool/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index f773fde..d2420c2 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -112,6 +112,8 @@ def tensorproto2ndarray(initial):
 
         elif ndtype == numpy.float64:
             arr = numpy.fromiter(initial.double_data, dtype=ndtype)
+        elif ndtype in (numpy.int8, numpy.uint8, numpy.int16, numpy.uint16, numpy.bool_):
+            arr = numpy.fromiter(initial.int32_data, dtype=numpy.int32).astype(ndtype)
         elif ndtype == numpy.bytes_:
             arr = numpy.array(initial.string_data, dtype=ndtype)
     else:
-- 
2.43.0


From 7fe865721c6dab45b4fd0a6d7588e3d569a24f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 064/136] fix: save string constants

---
 onnx_tool/tensor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index d2420c2..5eed269 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -492,16 +492,19 @@ class Tensor():
         if self.numpy is None:
             return None
         if len(self.numpy.shape) == 0:
-            tproto = onnx.helper.make_tensor(self.name, npdtype2onnxdtype(self.numpy.dtype)
+            tproto = onnx.helper.make_tensor(self.name, npdtype2onnxdtype(self.numpy.dtype.type)
                                              , [], [self.numpy.item()])
         else:
-            if self.numpy.dtype not in [numpy.float32, numpy.int32]:
+            if self.numpy.dtype.type is numpy.bytes_:
+                raw = False
+                data = self.numpy.flatten().tolist()
+            elif self.numpy.dtype not in [numpy.float32, numpy.int32]:
                 raw = True
                 data = self.numpy.tobytes()
             else:
                 raw = False
                 data = self.numpy.flatten()
-            tproto = onnx.helper.make_tensor(self.name, npdtype2onnxdtype(self.numpy.dtype)
+            tproto = onnx.helper.make_tensor(self.name, npdtype2onnxdtype(self.numpy.dtype.type)
                                              , self.numpy.shape, data, raw=raw)
         return tproto
 
-- 
2.43.0


From 3ac8b802084c61a05f1687fd81d68c8f96271e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 065/136] fix: quantisation of all-zero data

---
 onnx_tool/quantization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 6b2781f..1ce5965 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -36,7 +36,7 @@ def find_min_max(f32: numpy.ndarray, block):
 
 def get_symmetric_parameter(fmin, fmax, bits):
     alpha = max(abs(fmin), abs(fmax))
-    scale = alpha / (2 ** (bits - 1) - 1)
+    scale = alpha / (2 ** (bits - 1) - 1) if alpha > 0 else 1.0
     return scale, 0
 
 
@@ -44,7 +44,7 @@ def get_asymmetric_u8_parameter(fmin, fmax, bits):
     fmin = min(fmin, 0)
     fmax = max(fmax, 0)
     delta = fmax - fmin
-    scale = delta / (2 ** bits - 1)
+    scale = delta / (2 ** bits - 1) if delta > 0 else 1.0
     zp = round(-fmin / scale)
     return scale, zp
 
-- 
2.43.0


From 2b3a409d566754e21f72b906be830a427e933d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 066/136] fix: quantised codes are clipped to their own bit
 width

---
 onnx_tool/quantization.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 1ce5965..b7c26b3 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -49,12 +49,12 @@ def get_asymmetric_u8_parameter(fmin, fmax, bits):
     return scale, zp
 
 
-def symmetric_quant(fval, scale, *agrs):
-    return numpy.clip(round(fval / scale), -128, 127)
+def symmetric_quant(fval, scale, zp=0, bits=8):
+    return numpy.clip(round(fval / scale), -2 ** (bits - 1), 2 ** (bits - 1) - 1)
 
 
-def asymmetric_quant(fval, scale, zp):
-    return numpy.clip(round(fval / scale) + zp, 0, 255)
+def asymmetric_quant(fval, scale, zp, bits=8):
+    return numpy.clip(round(fval / scale) + zp, 0, 2 ** bits - 1)
 
 
 def symmetric_dequant(qval, scale, *agrs):
@@ -77,7 +77,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
         scale, zp = get_param(fmin, fmax, bits)
         for i in numpy.ndindex(*f32.shape):
-            Q[i] = quant_val(f32[i], scale, zp)
+            Q[i] = quant_val(f32[i], scale, zp, bits)
         return Q, numpy.array(scale), numpy.array(zp)
     if len(fmin.shape) == 1:
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
@@ -86,7 +86,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
         for i in range(len(fmin)):
             scale[i], zp[i] = get_param(fmin[i], fmax[i], bits)
         for i in numpy.ndindex(*f32.shape):
-            Q[i] = quant_val(f32[i], scale[i[0]], zp[i[0]])
+            Q[i] = quant_val(f32[i], scale[i[0]], zp[i[0]], bits)
         return Q, scale, zp
     if len(fmin.shape) == 2:
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
@@ -96,7 +96,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
             scale[i], zp[i] = get_param(fmin[i], fmax[i], bits)
         for i in numpy.ndindex(*f32.shape):
             blk_idx = i[1] // block
-            Q[i] = quant_val(f32[i], scale[i[0], blk_idx], zp[i[0], blk_idx])
+            Q[i] = quant_val(f32[i], scale[i[0], blk_idx], zp[i[0], blk_idx], bits)
         return Q, scale, zp
 
 def pack_4bits(Q_int:numpy.ndarray):
-- 
2.43.0


From a33a63350e14ef1aba002a7c8c743e7e3562af8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 067/136] fix: pack_4bits keeps bit 3 of unsigned codes

---
 onnx_tool/quantization.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index b7c26b3..8ed7530 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -106,10 +106,7 @@ def pack_4bits(Q_int:numpy.ndarray):
     s4arr=numpy.ones(s4shape,dtype=numpy.uint8)
     import ctypes
     def cvt_s8bits_to_s4bits(v8):
-        sigbit=v8&0x80
-        sigbit=sigbit>>4
-        v8=v8&0x7
-        return v8|sigbit
+        return v8&0xF
     for i in numpy.ndindex(*s4shape):
         rawi=list(i)
         rawi[-1]*=2
-- 
2.43.0


From cd7b18c880f196609fac0f7e0558e9c2bdc06892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 068/136] fix: pack_4bits keeps the last column of odd widths

---
 onnx_tool/quantization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 8ed7530..8062333 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -102,7 +102,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
 def pack_4bits(Q_int:numpy.ndarray):
     shape=Q_int.shape
     s4shape=list(shape)
-    s4shape[-1]=shape[-1]//2
+    s4shape[-1]=(shape[-1]+1)//2
     s4arr=numpy.ones(s4shape,dtype=numpy.uint8)
     import ctypes
     def cvt_s8bits_to_s4bits(v8):
@@ -113,7 +113,9 @@ def pack_4bits(Q_int:numpy.ndarray):
         rawi1=list(rawi)
         rawi1[-1]+=1
         lo4=cvt_s8bits_to_s4bits(ctypes.c_uint8(Q_int[tuple(rawi)]).value)
-        hi4=cvt_s8bits_to_s4bits(ctypes.c_uint8(Q_int[tuple(rawi1)]).value)
+        hi4=0
+        if rawi1[-1]<shape[-1]:
+            hi4=cvt_s8bits_to_s4bits(ctypes.c_uint8(Q_int[tuple(rawi1)]).value)
         val=lo4|(hi4<<4)
         s4arr[i]=val
     return s4arr
-- 
2.43.0


From 2e68cd51000b579ba0c55c641ae3977a2f0bc3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 069/136] fix: graph_quantize handles weights with several
 consumers

---
 onnx_tool/quantization.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 8062333..b2d42a1 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -174,13 +174,15 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
         node.input.insert(idx, tname_s)
         node.input.insert(idx, tname_q)
         if tname_q not in g.consumedby.keys():
-            g.consumedby[tname_q] = nname
-            g.consumedby[tname_s] = nname
-            g.consumedby[tname_z] = nname
+            g.consumedby[tname_q] = [nname]
+            g.consumedby[tname_s] = [nname]
+            if type == 'asym':
+                g.consumedby[tname_z] = [nname]
         else:
             g.consumedby[tname_q].append(nname)
             g.consumedby[tname_s].append(nname)
-            g.consumedby[tname_z].append(nname)
+            if type == 'asym':
+                g.consumedby[tname_z].append(nname)
     g.consumedby.pop(tname)
     g.initials.remove(tname)
     g.tensormap.pop(tname)
-- 
2.43.0


From 3f6ddc88f8d6cd009fb96a18ba3b2bf29bfb50bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 070/136] fix: serialise empty list attributes

---
 onnx_tool/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/serialization.py b/onnx_tool/serialization.py
index 15edf42..b3d14ad 100644
--- a/onnx_tool/serialization.py
+++ b/onnx_tool/serialization.py
@@ -156,7 +156,7 @@ def serialize_graph(graph: onnx_tool.Graph, filepath):
             if not isinstance(attrval, list):
                 attrval = [attrval]
             buf = __write_len2buf(buf, attrval)
-            buf = __write_data_type(buf, attrval[0])
+            buf = __write_data_type(buf, attrval[0] if len(attrval) > 0 else 0)
             for val in attrval:
                 buf = write_value(buf, val)
             return buf
-- 
2.43.0


From 1f910f40f89cbf207fe231e2a093e8021af2dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 071/136] fix: serialise tensor-valued attributes

---
 onnx_tool/serialization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_tool/serialization.py b/onnx_tool/serialization.py
index b3d14ad..93505ea 100644
--- a/onnx_tool/serialization.py
+++ b/onnx_tool/serialization.py
@@ -41,6 +41,7 @@ DTYPE_UINT8 = 6
 DTYPE_INT16 = 7
 DTYPE_UINT16 = 8
 DTYPE_INT64 = 9
+DTYPE_NDARRAY = 10
 
 
 def __write_data_type(buf, data):
@@ -50,6 +51,8 @@ def __write_data_type(buf, data):
         buf = __write_int2buf(buf, DTYPE_INT)
     if isinstance(data, float):
         buf = __write_int2buf(buf, DTYPE_FLOAT)
+    if isinstance(data, numpy.ndarray):
+        buf = __write_int2buf(buf, DTYPE_NDARRAY)
     return buf
 
 
@@ -151,6 +154,8 @@ def serialize_graph(graph: onnx_tool.Graph, filepath):
                     buf = __write_int2buf(buf, val)
                 if isinstance(val, float):
                     buf = __write_float2buf(buf, val)
+                if isinstance(val, numpy.ndarray):
+                    buf = __write_ndarray(buf, val)
                 return buf
 
             if not isinstance(attrval, list):
-- 
2.43.0


From 188f2c36510b21efe45a7a7d0fc7f11d4d7fcdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 072/136] fix: square sparsity blocks report their own ratio

---
 onnx_tool/tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 5eed269..e7fa1df 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -266,6 +266,7 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
                 ratio1 = (arrsum == initsize).sum() / arrsum.size
                 if ratio1 > ratio - deltar_thres:
                     valid1 = True
+                    rowratio = ratio1
                     validratio = ratio1
                 else:
                     valid1 = False
@@ -301,6 +302,7 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
             ratios = (arrsum == (validsize * validsize)).sum() / arrsum.size
             if ratios > ratio - deltar_thres:
                 return (validsize, validsize), ratios
+            return (1, validsize), rowratio
 
         return (validsize if prevalid0 else 1, validsize if prevalid1 else 1), validratio
 
@@ -355,7 +357,7 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
             ratios = (arrsum == (validsize * validsize)).sum() / arrsum.size
             if ratios > ratio - deltar_thres:
                 return (validsize, validsize), ratios
-        if validratio0 > validratio1:
+        if prevalid0 and (validratio0 > validratio1 or not prevalid1):
             return (validsize, 1), validratio0
         return (1, validsize), validratio1
 
-- 
2.43.0


From 0cfb07caff45704f418dae7447501920a2d96380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 073/136] fix: an attribute condition on a missing element does
 not match

---
 onnx_tool/fusion.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index bdf20e5..44e51ad 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -230,10 +230,13 @@ class AttrExpr():
 
     def __call__(self, x):
         if hasattr(x, self.attrname):
+            attr = x.__getattribute__(self.attrname)
+            if attr is None:
+                return False
             if self.idx == -1:
-                return self.logical(x.__getattribute__(self.attrname))
-            else:
-                return self.logical(x.__getattribute__(self.attrname)[self.idx])
+                return self.logical(attr)
+            elif self.idx < len(attr):
+                return self.logical(attr[self.idx])
         return False
 
     def logical(self, attr):
-- 
2.43.0


From de74d473e5cb1727ba7ca5db7aadc924d76cccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 074/136] fix: pattern search tolerates inputs without a
 producer

---
 onnx_tool/fusion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 44e51ad..0d00416 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -352,7 +352,9 @@ class FusionPattern():
                             invalid = False
             elif inidx < len(node.input):
                 tname = node.input[inidx]
-                producer_node = graph.producedby[tname]
+                producer_node = graph.producedby.get(tname, [])
+                if len(producer_node) == 0:
+                    invalid = False
                 for nodename in producer_node:
                     nodeobject = graph.nodemap[nodename]
                     if prev_outidx == -1 or nodeobject.output.index(tname) == prev_outidx:
-- 
2.43.0


From 00af3d6f44dd00a21f9dedf59e5148257002db74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 075/136] fix: serial patterns match whatever the operand order

---
 onnx_tool/fusion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 0d00416..7830458 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -331,7 +331,10 @@ class FusionPattern():
             prev_outidx = inset[2]
             nextdesc = self.nodedesc[indesckey]
             if inidx == -1:
+                invalid = False
                 for tname in node.input:
+                    if invalid:
+                        break
                     if tname not in graph.producedby:
                         continue
                     producer_node = graph.producedby[tname]
-- 
2.43.0


From 1a86638c76ba85d022b31d48fef44794f5419d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 076/136] fix: reported pattern matches never share a node

---
 onnx_tool/fusion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 7830458..cff1232 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -463,6 +463,9 @@ class FusionPattern():
                     for val in path:
                         idx = desckeys.index(val[0])
                         nodes[idx] = val[1]
+                    if any(n in self.found_node_names for n in nodes):
+                        continue
+                    self.found_node_names.extend(nodes)
                     ls_nodes.append(nodes)
         return ls_nodes
 
-- 
2.43.0


From 031089faa06b3b228c857eba8f7feba7ba7a4f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 077/136] fix: building a model leaves the shared architecture
 table alone

---
 onnx_tool/llm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 72520c5..2703815 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -248,9 +248,9 @@ class Builder():
         if not hasattr(self, 'model_type'):
             setattr(self, 'model_type', '')
         if ArchMap.__contains__(self.architectures[0]):
-            self.arch_config = ArchMap[self.architectures[0]]
+            self.arch_config = dict(ArchMap[self.architectures[0]])
         else:
-            self.arch_config = ArchMap['LlamaForCausalLM']
+            self.arch_config = dict(ArchMap['LlamaForCausalLM'])
         if hasattr(self, 'mlp_bias'):
             self.arch_config['mlp_bias'] = self.mlp_bias
         if hasattr(self, 'attention_bias'):
-- 
2.43.0


From df18a7a813a083cd4cb9208dd49596e5ac6efa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 078/136] fix: batch-norm folding with a convolution bias

---
 onnx_tool/fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index cff1232..a692974 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -485,7 +485,7 @@ def ConvBNFusion(graph: Graph):
         wshape = weight.shape
         if len(conv_node.input) == 3:
             hasbias = True
-            newbias = graph.nodemap[conv_node.input[2]].numpy
+            newbias = graph.tensormap[conv_node.input[2]].numpy.copy()
         else:
             hasbias = False
             newbias = numpy.zeros((wshape[0],), dtype=numpy.float32)
-- 
2.43.0


From 071fbe68e74dcb7a3aa90952c5be7dd020b81907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 079/136] fix: batch-norm folding of read-only weights

---
 onnx_tool/fusion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index a692974..81f4056 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -478,6 +478,7 @@ def ConvBNFusion(graph: Graph):
         conv_node = graph.nodemap[nodes[0]]
         bn_node = graph.nodemap[nodes[1]]
         weight = graph.tensormap[conv_node.input[1]]
+        weight.numpy = weight.numpy.copy()
         gamma = graph.tensormap[bn_node.input[1]]
         beta = graph.tensormap[bn_node.input[2]]
         mean = graph.tensormap[bn_node.input[3]]
-- 
2.43.0


From 084979592a13b5bb1518bb00d3f4a65d3fdbb3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 080/136] fix: batch-norm folding only where it preserves the
 graph

---
 onnx_tool/fusion.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 81f4056..0c1e89d 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -477,6 +477,12 @@ def ConvBNFusion(graph: Graph):
     for nodes in node_sets:
         conv_node = graph.nodemap[nodes[0]]
         bn_node = graph.nodemap[nodes[1]]
+        conv_out = conv_node.output[0]
+        constants = conv_node.input[1:] + bn_node.input[1:]
+        if len(graph.consumedby[conv_out]) > 1 or conv_out in graph.output \
+                or len(graph.consumedby[conv_node.input[1]]) > 1 \
+                or any(t not in graph.initials or graph.tensormap[t].numpy is None for t in constants):
+            continue
         weight = graph.tensormap[conv_node.input[1]]
         weight.numpy = weight.numpy.copy()
         gamma = graph.tensormap[bn_node.input[1]]
-- 
2.43.0


From 6823826a0e35e871ad8d3073effbaf133ce03c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 081/136] fix: batch-norm folding keeps graph outputs and
 relations

---
 onnx_tool/fusion.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 0c1e89d..c8959f5 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -507,10 +507,17 @@ def ConvBNFusion(graph: Graph):
         weight.update_proto(weight.numpy)
         newbiasname = conv_node.name + "_bias_"
         graph.add_initial(newbiasname, newbias)
+        graph_outputs = list(graph.output)
         graph.remove_node(nodes[1])
+        graph.output = graph_outputs
         if hasbias:
+            graph.consumedby[conv_node.input[2]].remove(conv_node.name)
+            if len(graph.consumedby[conv_node.input[2]]) == 0:
+                graph.consumedby.pop(conv_node.input[2])
             conv_node.input[2] = newbiasname
         else:
             conv_node.input.append(newbiasname)
+        graph.consumedby[newbiasname] = [conv_node.name]
+        graph.producedby.pop(conv_out, None)
         graph.producedby[bn_node.output[0]] = [conv_node.name]
         conv_node.output[0] = bn_node.output[0]
-- 
2.43.0


From ae46a61d90de4e369d6829630636909e57f1bf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 082/136] fix: QuantizeLinear without zero point

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 0d09b9d..1c9b314 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2545,7 +2545,8 @@ class QuantizeLinearNode(PWNode):
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
-        outtensors[0].update_dtype(intensors[2].dtype)
+        has_zp = len(intensors) > 2 and intensors[2].name != ''
+        outtensors[0].update_dtype(intensors[2].dtype if has_zp else numpy.uint8)
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From c5fd83fa9ab7458a76a42f944611fb4d672e7fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 083/136] fix: attention cost of a 4-D query

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1c9b314..855924e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2850,7 +2850,7 @@ class SDPANode(Node):
         Q = intensors[0]
         q_shape = Q.get_shape()
         bs = q_shape[0]
-        seq = q_shape[1]
+        seq = q_shape[2] if len(q_shape) == 4 else q_shape[1]
         if len(intensors) >= 5:  # with KV cache
             t_n_past = intensors[3]
             t_kv_cache = intensors[4]
-- 
2.43.0


From e94ea7e2419f98094b07d33759b4739d2adf49a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 084/136] fix: Resize without mode attribute

---
 onnx_tool/node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 855924e..70766c4 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1358,6 +1358,10 @@ class ShapeNode(Node):
 
 @NODE_REGISTRY.register()
 class ResizeNode(Node):
+    def __init__(self, node_proto):
+        super().__init__(node_proto)
+        self.add_default_value('mode', b'nearest')
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         roi = []
-- 
2.43.0


From 8092a3190e03dbabe38049804947a93c41b2a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 085/136] fix: ArgMax honours select_last_index

---
 onnx_tool/node.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 70766c4..8598f5e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1712,10 +1712,14 @@ class ArgMaxNode(Node):
         super().__init__(n)
         self.add_default_value('axis', 0)
         self.add_default_value('keepdims', 1)
+        self.add_default_value('select_last_index', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        out = argmax_use_numpy(data, self.axis, self.keepdims)
+        if self.select_last_index:
+            out = data.shape[self.axis] - 1 - argmax_use_numpy(numpy.flip(data, self.axis), self.axis, self.keepdims)
+        else:
+            out = argmax_use_numpy(data, self.axis, self.keepdims)
         outtensors[0].update_tensor(out)
 
 
-- 
2.43.0


From 42e49222c93053a79f0e90ff684cee761c511544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 086/136] fix: saved nodes keep their domain

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8598f5e..7851d45 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -217,7 +217,8 @@ class Node():
             setattr(self, attname, defaultvalue)
 
     def make_nodeproto(self):
-        return onnx.helper.make_node(self.op_type, self.input, self.output, self.name, **self.attr)
+        domain = getattr(self.proto, 'domain', '') or None
+        return onnx.helper.make_node(self.op_type, self.input, self.output, self.name, domain=domain, **self.attr)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         self.value_infer(intensors, outtensors)
-- 
2.43.0


From 8998075d9b2c8b5cf7fb569dc9872c4b34927186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 087/136] fix: saved nodes keep empty list attributes

---
 onnx_tool/node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 7851d45..2418f13 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -218,7 +218,12 @@ class Node():
 
     def make_nodeproto(self):
         domain = getattr(self.proto, 'domain', '') or None
-        return onnx.helper.make_node(self.op_type, self.input, self.output, self.name, domain=domain, **self.attr)
+        empty = [k for k, v in self.attr.items() if isinstance(v, (list, tuple)) and len(v) == 0]
+        attrs = {k: v for k, v in self.attr.items() if k not in empty}
+        proto = onnx.helper.make_node(self.op_type, self.input, self.output, self.name, domain=domain, **attrs)
+        if not isinstance(self.proto.attribute, dict):
+            proto.attribute.extend(a for a in self.proto.attribute if a.name in empty)
+        return proto
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         self.value_infer(intensors, outtensors)
-- 
2.43.0


From d54c35d033a1667470267fd699166d39cba7efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 088/136] fix: a mixture-of-experts layer without shared expert
 has no shared-expert gate

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 2418f13..37acd86 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -3147,7 +3147,7 @@ class MoENode(Node):
             # down_proj: B × S × SI × H
             macs += B * S * SI * H
 
-        if not self.no_shared_gate:
+        if not self.no_shared_expert and not self.no_shared_gate:
             # Shared expert gate (Qwen3.5-MoE): sigmoid + multiply
             macs += B * S * H * (EXP_MACS + MUL_MACS)
 
-- 
2.43.0


From 9619d7e3e7ef042b6679fe44345b1d672503c35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 089/136] fix: attention costs with a KV cache are exact for
 any length

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 37acd86..86f2466 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2868,7 +2868,7 @@ class SDPANode(Node):
         if len(intensors) >= 5:  # with KV cache
             t_n_past = intensors[3]
             t_kv_cache = intensors[4]
-            max_past = t_n_past.numpy.max()
+            max_past = int(t_n_past.numpy.max())
             n_conxt = t_kv_cache.get_shape()[2]
             assert (max_past + seq <= n_conxt)
             seq_all = max_past + seq
-- 
2.43.0


From 3b7b78d21ec4a215de9acb7611da7e92c84b3a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 090/136] fix: profile totals are exact integers

---
 onnx_tool/graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 4180036..1f1239d 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1461,7 +1461,7 @@ class Graph():
         if not self.valid_shape:
             warnings.warn('Please perform a valid shape_infer() before profile().')
             return
-        self.macs = [0.0, 0.0]
+        self.macs = [0, 0]
         self.params = 0
         self.memory = 0
         ops_to_cover = {k for k, v in self.nodemap.items() if v.op_type not in exclude_ops} if exclude_ops else self.nodemap.keys()
@@ -1592,11 +1592,11 @@ class Graph():
             row.append('_')
             row.append('_')
             row.append('_')
-        row.append(num2str(int(forward_macs * factor), csvformat))
+        row.append(num2str(int(round(self.macs[0])) * factor, csvformat))
         row.append('100%')
-        row.append(num2str(int(memory), csvformat))
+        row.append(num2str(int(self.memory), csvformat))
         row.append('100%')
-        row.append(num2str(int(params), csvformat))
+        row.append(num2str(int(self.params), csvformat))
         row.append('100%')
         row.append('_')
         row.append('_')
-- 
2.43.0


From 8e24f9e337ae8c4cb3274014054f7dc54d694997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 091/136] fix: fix: fusing nodes keeps every attribute,
 whatever its type

---
 onnx_tool/graph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 1f1239d..27342b3 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -754,9 +754,9 @@ class Graph():
         if keep_attr:
             for node in nodes:
                 for attribute in self.nodemap[node].proto.attribute:
-                    attr = onnx.helper.make_attribute(
-                        self.nodemap[node].proto.op_type + str(count) + '_' + attribute.name,
-                        get_attribute_data(attribute))
+                    attr = onnx.AttributeProto()
+                    attr.CopyFrom(attribute)
+                    attr.name = self.nodemap[node].proto.op_type + str(count) + '_' + attribute.name
                     newnode_prot.attribute.append(attr)
                 count += 1
         from .node import create_node
@@ -806,9 +806,9 @@ class Graph():
                     'postop_' + str(count), pnode.op_type)
                 newnode.attribute.append(attr)
                 for attribute in pnode.proto.attribute:
-                    attr = onnx.helper.make_attribute(
-                        'postop_' + str(count) + '_' + attribute.name,
-                        get_attribute_data(attribute))
+                    attr = onnx.AttributeProto()
+                    attr.CopyFrom(attribute)
+                    attr.name = 'postop_' + str(count) + '_' + attribute.name
                     newnode.attribute.append(attr)
                 count += 1
 
-- 
2.43.0


From 107fc76fab84c6850da82380b4f7bd481ec448fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 092/136] fix: fix: removing dangling nodes does not revisit a
 node it already removed

---
 onnx_tool/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 27342b3..d3adaff 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -700,6 +700,8 @@ class Graph():
         while try_to_remove:
             try_to_remove = False
             for nodename in list(self.nodemap.keys()):
+                if nodename not in self.nodemap:
+                    continue
                 node = self.nodemap[nodename]
                 node_used = False
                 for o in node.output:
-- 
2.43.0


From 55f0533ccaf0bae2f933f517f31b365a77fed3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 093/136] fix: fix: sparsity block search keeps a row ratio
 when no larger block is sparse

---
 onnx_tool/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index e7fa1df..198884d 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -257,6 +257,7 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
         prevalid0 = True
         prevalid1 = True
         validratio = ratio
+        rowratio = ratio
         while True:
             # try axis=1
             if prevalid1 and arr.shape[1] % initsize == 0:
-- 
2.43.0


From 20dccd477f34e29aa1eb08b0434d26f389adfa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:56 +0000
Subject: [PATCH 094/136] fix: serialize tensor attributes and refuse attribute
 kinds the format cannot hold

---
 onnx_tool/serialization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/serialization.py b/onnx_tool/serialization.py
index 93505ea..49ab0d5 100644
--- a/onnx_tool/serialization.py
+++ b/onnx_tool/serialization.py
@@ -1,4 +1,5 @@
 import numpy
+import onnx
 
 import onnx_tool
 from .graph import ShapeEngine, ValueExpr
@@ -158,8 +159,12 @@ def serialize_graph(graph: onnx_tool.Graph, filepath):
                     buf = __write_ndarray(buf, val)
                 return buf
 
-            if not isinstance(attrval, list):
+            if not isinstance(attrval, (list, tuple)):
                 attrval = [attrval]
+            attrval = [onnx.numpy_helper.to_array(val) if isinstance(val, onnx.TensorProto) else val for val in attrval]
+            for val in attrval:
+                if not isinstance(val, (str, bytes, int, float, numpy.ndarray)):
+                    raise ValueError(f'Unsupported attribute type {type(val)}')
             buf = __write_len2buf(buf, attrval)
             buf = __write_data_type(buf, attrval[0] if len(attrval) > 0 else 0)
             for val in attrval:
-- 
2.43.0


From f8184e84011e8242577c68dc8fc3c97f9d996d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:31 +0000
Subject: [PATCH 095/136] fix: count one element in the memory size of a scalar
 tensor

---
 onnx_tool/tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 198884d..87162ca 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -461,7 +461,9 @@ class Tensor():
         return numpy_dtype2bytes(self.numpy.dtype)
 
     def get_memsize(self):
-        return volume(self.get_shape()) * self.get_elementsize()
+        shape = self.get_shape()
+        count = volume(shape) if len(shape) > 0 else 1
+        return count * self.get_elementsize()
 
     def sparsity_search(self, thres_size=4096, thres_ratio=0.4):
         if self.type == DYNAMIC_TENSOR:
-- 
2.43.0


From 5ebd50ab1478d77f9818b45ad9a44220979fb1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 096/136] fix: do not count an omitted optional input when
 skipping a node

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index d3adaff..01d1849 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -723,7 +723,7 @@ class Graph():
         node = self.nodemap[nodename]
         count = 0
         for input in node.input:
-            if input in self.dynamics:
+            if input != '' and input in self.dynamics:
                 count += 1
                 indtensor = input
         if count == 1 and len(node.output) == 1:
-- 
2.43.0


From 6dc835c5f58c0d50093ee0a89200e540a5640de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 097/136] fix: describe constant extents by plain integers in
 shape engines

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 01d1849..764cb85 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1123,7 +1123,7 @@ class Graph():
             maxshape = maxtensormap[key].shape
             for i, a in zip(minshape, maxshape):
                 if i == a:
-                    shape_desc.append(i)
+                    shape_desc.append(int(i))
                 else:
                     shape_desc.append('')
             shapeengine.add_tensor_desc(key, shape_desc)
-- 
2.43.0


From dca9a8322efcabbff7ec89c856678931baf47b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 098/136] fix: regress an extent on the source variable that
 explains it

---
 onnx_tool/graph.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 764cb85..425fa83 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1182,10 +1182,14 @@ class Graph():
                                 err = expr.error(dstranges[0], newrange)
                                 srckey = key
                             else:
-                                # TODO multiple src variables comparison
-                                srckey = srcvalkey[0]
-                                expr = ValueExpr(tensor_range_map[srckey], newrange)
-                                err = expr.error(tensor_range_map[srckey], newrange)
+                                # keep the source variable with the least error, the input variable included
+                                err = None
+                                for candidate in srcvalkey + [key]:
+                                    srcvals = dstranges[0] if candidate == key else tensor_range_map[candidate]
+                                    newexpr = ValueExpr(srcvals, newrange)
+                                    newerr = newexpr.error(srcvals, newrange)
+                                    if err is None or newerr < err:
+                                        srckey, expr, err = candidate, newexpr, newerr
                             if err > 0:
                                 warnings.warn(f'src key {srckey} dst key {vidx} error:{err}')
 
-- 
2.43.0


From 221224c069ad0da87432f6d7a801d81631ed0da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 099/136] fix: regress extents that decrease with their source
 variable

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 425fa83..9aa4054 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -74,7 +74,7 @@ class ValueExpr():
         lastidx = len(srcrange) - 1
         srclen = srcrange[lastidx] - srcrange[0]
         dstlen = dstrange[lastidx] - dstrange[0]
-        if srclen <= dstlen:
+        if abs(srclen) <= abs(dstlen):
             self.factor = 0
             self.alpha = round(dstlen / srclen)
             self.beta = round(dstrange[lastidx] - srcrange[lastidx] * self.alpha)
-- 
2.43.0


From e3c55401965fe7f07aed8799f067296d9f565e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:44 +0000
Subject: [PATCH 100/136] fix: keep tensor relations when skipping a node that
 has no single data input

---
 onnx_tool/graph.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 9aa4054..55d2988 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -739,10 +739,15 @@ class Graph():
                 oldname, newname = outtensor, indtensor
                 self.producedby.pop(outtensor, None)
                 self.output = [indtensor if t == outtensor else t for t in self.output]
-            for t in node.input:
-                self.consumedby[t].remove(nodename)
-                if len(self.consumedby[t]) == 0:
-                    self.consumedby.pop(t)
+        else:
+            oldname = newname = None
+            for t in node.output:
+                self.producedby.pop(t, None)
+        for t in node.input:
+            self.consumedby[t].remove(nodename)
+            if len(self.consumedby[t]) == 0:
+                self.consumedby.pop(t)
+        if oldname is not None:
             for con in self.consumedby.pop(oldname, []):
                 con_node = self.nodemap[con]
                 con_node.input = [newname if t == oldname else t for t in con_node.input]
-- 
2.43.0


From c5664c1b6ec9fce79b105b23b226064b009ca048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:52 +0000
Subject: [PATCH 101/136] fix: pattern search reports only groups of nodes that
 satisfy every link of the description and finds every serial chain

---
 onnx_tool/fusion.py | 193 +++++++++++++-------------------------------
 1 file changed, 55 insertions(+), 138 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index c8959f5..3b257af 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -314,136 +314,60 @@ class FusionPattern():
         for desc in nodedescs:
             self.nodedesc[desc['name']] = NodeCondition(desc)
 
-    def search_node(self, nodepair, graph, searched):
-        curdescname = nodepair[0]
-        curnodename = nodepair[1]
-
-        desc = self.nodedesc[curdescname]
-        node = graph.nodemap[curnodename]
-        searched.append(curnodename)
-
-        # expand in nodes
-        invalid = False if len(desc.inport) > 0 else True
-        uppaths = []
-        for inset in desc.inport:
-            inidx = inset[0]
-            indesckey = inset[1]
-            prev_outidx = inset[2]
-            nextdesc = self.nodedesc[indesckey]
-            if inidx == -1:
-                invalid = False
-                for tname in node.input:
-                    if invalid:
-                        break
-                    if tname not in graph.producedby:
+    def links(self, desckey):
+        # every described tensor link of this node, as (producer desc, output, consumer desc, input)
+        desc = self.nodedesc[desckey]
+        ins = [(key, outidx, desckey, inidx) for inidx, key, outidx in desc.inport]
+        outs = [(desckey, outidx, key, inidx) for outidx, key, inidx in desc.outport]
+        return ins + outs
+
+    def linked(self, graph, producer, outidx, consumer, inidx):
+        outputs = graph.nodemap[producer].output
+        inputs = graph.nodemap[consumer].input
+        outputs = outputs if outidx == -1 else outputs[outidx:outidx + 1]
+        inputs = inputs if inidx == -1 else inputs[inidx:inidx + 1]
+        for tname in outputs:
+            if tname in inputs and tname != '':
+                # inplace_fusion: the consumer op will be appended to the producer op as postop
+                # it requires that the output of the producer is consumed by this op only
+                if not self.append_fusion or len(graph.consumedby[tname]) == 1:
+                    return True
+        return False
+
+    def search_node(self, assigned, graph):
+        """extend a partial assignment of nodes to descriptions, return it when complete and None when impossible"""
+        if len(assigned) == len(self.nodedesc):
+            return assigned
+        for curkey in list(assigned):
+            for prodkey, outidx, conkey, inidx in self.links(curkey):
+                newkey = conkey if prodkey == curkey else prodkey
+                if newkey in assigned:
+                    continue
+                node = graph.nodemap[assigned[curkey]]
+                if newkey == conkey:
+                    candidates = [name for tname in node.output for name in graph.consumedby.get(tname, [])]
+                else:
+                    candidates = [name for tname in node.input for name in graph.producedby.get(tname, [])]
+                for name in dict.fromkeys(candidates):
+                    if name in assigned.values() or name in self.found_node_names:
                         continue
-                    producer_node = graph.producedby[tname]
-                    for nodename in producer_node:
-                        nodeobject = graph.nodemap[nodename]
-                        if prev_outidx == -1 or nodeobject.output.index(tname) == prev_outidx:
-                            if nextdesc.is_node(nodeobject):
-                                if nodename not in searched:
-                                    invalid, uppath = self.search_node((indesckey, nodename), graph, searched)
-                                    if invalid:
-                                        uppaths.append(uppath)
-                                        break
-                                else:
-                                    invalid = True
-                            else:
-                                invalid = False
-                        else:
-                            invalid = False
-            elif inidx < len(node.input):
-                tname = node.input[inidx]
-                producer_node = graph.producedby.get(tname, [])
-                if len(producer_node) == 0:
-                    invalid = False
-                for nodename in producer_node:
-                    nodeobject = graph.nodemap[nodename]
-                    if prev_outidx == -1 or nodeobject.output.index(tname) == prev_outidx:
-                        if nextdesc.is_node(nodeobject):
-                            if nodename not in searched:
-                                invalid, uppath = self.search_node((indesckey, nodename), graph, searched)
-                                if invalid:
-                                    uppaths.append(uppath)
-                                    break
-                            else:
-                                invalid = True
-                        else:
-                            invalid = False
-                    else:
-                        invalid = False
-
-        if not invalid:
-            searched.remove(curnodename)
-            return False, None
-        outpath = []
-        for uppath in uppaths:
-            if uppath is not None:
-                for v in uppath:
-                    outpath.append(v)
-        outpath.append(nodepair)
-
-        outvalid = False if len(desc.outport) > 0 else True
-        downpaths = []
-        for outset in desc.outport:
-            outidx = outset[0]
-            outdescky = outset[1]
-            next_inidx = outset[2]
-            nextdesc = self.nodedesc[outdescky]
-            if outidx == -1:
-                for output in node.output:
-                    if outvalid:
-                        break
-                    if output in graph.consumedby:
-                        consumed_nodes = graph.consumedby[output]
-                        if self.append_fusion and len(consumed_nodes) > 1:
-                            # inpalce_fusion the consumer op will be appended to this op as postop
-                            # it requires that the output of this op is consumed by next op only
-                            continue
-                        for nodename in consumed_nodes:
-                            nodeobject = graph.nodemap[nodename]
-                            if next_inidx == -1 or nodeobject.input.index(output) == next_inidx:
-                                if nextdesc.is_node(nodeobject):
-                                    if nodename not in searched:
-                                        outvalid, downpath = self.search_node((outdescky, nodename), graph, searched)
-                                        if outvalid:
-                                            downpaths.append(downpath)
-                                            break
-                                    else:
-                                        outvalid = True
-
-
-            elif outidx < len(node.output):
-                tname = node.output[outidx]
-                if tname in graph.consumedby:
-                    consumed_nodes = graph.consumedby[tname]
-                    if self.append_fusion and len(consumed_nodes) > 1:
-                        # inpalce_fusion the consumer op will be appended to this op as postop
-                        # it requires that the output of this op is consumed by next op only
+                    if not self.nodedesc[newkey].is_node(graph.nodemap[name]):
                         continue
-                    for nodename in consumed_nodes:
-                        nodeobject = graph.nodemap[nodename]
-                        if next_inidx == -1 or nodeobject.input.index(tname) == next_inidx:
-                            if nextdesc.is_node(nodeobject):
-                                if nodename not in searched:
-                                    outvalid, downpath = self.search_node((outdescky, nodename), graph, searched)
-                                    if outvalid:
-                                        downpaths.append(downpath)
-                                        break
-                                else:
-                                    outvalid = True
-                                    break
-
-        if outvalid:
-            for downpath in downpaths:
-                if downpath is not None:
-                    for v in downpath:
-                        outpath.append(v)
-            return True, outpath
-        else:
-            searched.remove(curnodename)
-            return False, None
+                    extended = {**assigned, newkey: name}
+                    if self.links_hold(graph, extended):
+                        extended = self.search_node(extended, graph)
+                        if extended is not None:
+                            return extended
+                return None
+        return None
+
+    def links_hold(self, graph, assigned):
+        for key in assigned:
+            for prodkey, outidx, conkey, inidx in self.links(key):
+                if prodkey in assigned and conkey in assigned:
+                    if not self.linked(graph, assigned[prodkey], outidx, assigned[conkey], inidx):
+                        return False
+        return True
 
     def search_pattern(self, graph: Graph):
         ls_nodes = []
@@ -455,16 +379,9 @@ class FusionPattern():
                 continue
             node = graph.nodemap[name]
             if first_desc.is_node(node):
-                searched = []
-                valid, path = self.search_node((self.first_key, name), graph, searched)
-                if valid:
-                    desckeys = list(self.nodedesc.keys())
-                    nodes = ['a'] * len(desckeys)
-                    for val in path:
-                        idx = desckeys.index(val[0])
-                        nodes[idx] = val[1]
-                    if any(n in self.found_node_names for n in nodes):
-                        continue
+                assigned = self.search_node({self.first_key: name}, graph)
+                if assigned is not None:
+                    nodes = [assigned[key] for key in self.nodedesc.keys()]
                     self.found_node_names.extend(nodes)
                     ls_nodes.append(nodes)
         return ls_nodes
-- 
2.43.0


From dd2397a04407f312b76951220eea2948dbf61887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 102/136] fix: the int8 attention pattern links its
 quantisation to the softmax it follows

---
 onnx_tool/fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 3b257af..f27282f 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -116,7 +116,7 @@ MHAint8_Pattern = [
         'op': 'QuantizeLinear',
         'attrs': [
         ],
-        'inport': [[0, 'Add_0', 0]],
+        'inport': [[0, 'Softmax_0', 0]],
         'outport': [[0, 'MatMul_1', 0]],
     },
     {
-- 
2.43.0


From 18757ab934bbe9dca4ba71c767bb333db1fd889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 103/136] fix: batch-norm folding creates a bias of the weight
 element type

---
 onnx_tool/fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index f27282f..f22407a 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -412,7 +412,7 @@ def ConvBNFusion(graph: Graph):
             newbias = graph.tensormap[conv_node.input[2]].numpy.copy()
         else:
             hasbias = False
-            newbias = numpy.zeros((wshape[0],), dtype=numpy.float32)
+            newbias = numpy.zeros((wshape[0],), dtype=weight.numpy.dtype)
         for i in range(wshape[0]):
             sm = gamma.numpy[i] / math.sqrt(var.numpy[i] + bn_node.epsilon)
             sv = beta.numpy[i]
-- 
2.43.0


From 6c93182d7bfa026d97e179830f1cef2542c126a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 104/136] fix: batch-norm folding leaves normalisations in
 training mode alone

---
 onnx_tool/fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index f22407a..0a3f24c 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -397,7 +397,7 @@ def ConvBNFusion(graph: Graph):
         conv_out = conv_node.output[0]
         constants = conv_node.input[1:] + bn_node.input[1:]
         if len(graph.consumedby[conv_out]) > 1 or conv_out in graph.output \
-                or len(graph.consumedby[conv_node.input[1]]) > 1 \
+                or len(graph.consumedby[conv_node.input[1]]) > 1 or bn_node.training_mode \
                 or any(t not in graph.initials or graph.tensormap[t].numpy is None for t in constants):
             continue
         weight = graph.tensormap[conv_node.input[1]]
-- 
2.43.0


From 5f864e5aef54684a0cfc546bfc6e308d6999b6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 105/136] fix: saved models carry no element type for tensors
 whose type is unknown

---
 onnx_tool/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 55d2988..02f7553 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -925,6 +925,8 @@ class Graph():
                 if key in self.input or key in self.output:
                     continue
                 tensor = self.tensormap[key]
+                if tensor.proto is None and tensor.numpy is None and len(tensor.shape) == 0:
+                    continue  # neither declared nor inferred
                 vinfo = tensor.make_value_proto()
                 if vinfo is None:
                     continue
-- 
2.43.0


From 03c020d84d2ae18c530baef5c924d5f33c468c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:39 +0000
Subject: [PATCH 106/136] fix: constants and inputs read only by a nested graph
 are kept

---
 onnx_tool/graph.py |  8 ++++----
 onnx_tool/node.py  | 23 +++++++++++++++++++++++
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 02f7553..2881238 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -229,7 +229,7 @@ class Graph():
                 self.initials.append(initial.name)
             self.dynamics.extend(self.input)
             for name in self.nodemap.keys():
-                for tname in self.nodemap[name].input:
+                for tname in self.nodemap[name].read_names():
                     if tname not in self.initials and tname not in self.dynamics:
                         self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
@@ -252,7 +252,7 @@ class Graph():
             self.output = [o for o in declared if o in self.producedby]
         for name in self.nodemap.keys():
             node = self.nodemap[name]
-            for tensor in node.input:
+            for tensor in node.read_names():
                 if tensor not in self.producedby and tensor in self.dynamics:
                     if tensor not in self.input:
                         self.input.append(tensor)
@@ -493,7 +493,7 @@ class Graph():
         # dynamic tensor info
         for key in self.nodemap.keys():
             node = self.nodemap[key]
-            for tensor in node.input:
+            for tensor in node.read_names():
                 if tensor not in self.tensormap.keys():
                     self.tensormap[tensor] = Tensor(tensor)
             for tensor in node.output:
@@ -628,7 +628,7 @@ class Graph():
         initializer = []
         enqueued = []
         for name in nodenames:
-            for input in self.nodemap[name].input:
+            for input in self.nodemap[name].read_names():
                 if input in self.initials and input not in enqueued:
                     proto = self.tensormap[input].make_tensor_proto()
                     if proto is not None:
diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 86f2466..32f6eb4 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -182,6 +182,20 @@ class TmpNodeProto:
         self.attribute = attributes
 
 
+def outer_names(graph: onnx.GraphProto):
+    """names of the tensors of the enclosing graph that a nested graph reads"""
+    local = [i.name for i in graph.input] + [i.name for i in graph.initializer]
+    for node in graph.node:
+        local.extend(node.output)
+    used = [o.name for o in graph.output]
+    for node in graph.node:
+        used.extend(node.input)
+        for att in node.attribute:
+            if att.type == onnx.AttributeProto.GRAPH:
+                used.extend(outer_names(att.g))
+    return [name for name in dict.fromkeys(used) if name != '' and name not in local]
+
+
 class Node():
     def __init__(self, n: onnx.NodeProto | TmpNodeProto):
         self.name = n.name
@@ -216,6 +230,15 @@ class Node():
         if not hasattr(self, attname):
             setattr(self, attname, defaultvalue)
 
+    def read_names(self):
+        """names of the inputs and of the tensors that nested graphs read"""
+        names = list(self.input)
+        if not isinstance(self.proto.attribute, dict):
+            for att in self.proto.attribute:
+                if att.type == onnx.AttributeProto.GRAPH:
+                    names.extend(outer_names(att.g))
+        return names
+
     def make_nodeproto(self):
         domain = getattr(self.proto, 'domain', '') or None
         empty = [k for k, v in self.attr.items() if isinstance(v, (list, tuple)) and len(v) == 0]
-- 
2.43.0


From 253da56becbbc071ef6653a3aeabfd4435a65df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:58 +0000
Subject: [PATCH 107/136] fix: deduplicated parameters count the constants the
 nodes read

---
 onnx_tool/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 2881238..99c3422 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1527,8 +1527,9 @@ class Graph():
 
         # Dedup params: sum each static tensor's volume only once
         self.dedup_params = 0
-        for key in self.initials:
-            if key in self.consumedby and len(self.consumedby[key]) > 0:
+        consumed = {name for node in self.nodemap.values() for name in node.input}
+        for key in dict.fromkeys(self.initials):
+            if key in consumed:
                 self.dedup_params += volume(self.tensormap[key].get_shape())
 
         self.valid_profile = True
-- 
2.43.0


From 151e0c335cdc4d547184be1d00eb9bf70b69727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:58 +0000
Subject: [PATCH 108/136] fix: expert sizes do not need a dense intermediate
 size

---
 onnx_tool/llm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 2703815..e71439a 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -528,7 +528,8 @@ class Builder():
         """
         num_experts = getattr(self, 'num_experts', 256)
         num_experts_per_tok = getattr(self, 'num_experts_per_tok', 8)
-        moe_intermediate_size = getattr(self, 'moe_intermediate_size', self.intermediate_size)
+        moe_intermediate_size = self.moe_intermediate_size if hasattr(self, 'moe_intermediate_size') \
+            else self.intermediate_size
         shared_expert_intermediate_size = getattr(self, 'shared_expert_intermediate_size', moe_intermediate_size)
         no_shared_gate = self.arch_config.get('no_shared_gate', False)
         no_shared_expert = self.arch_config.get('no_shared_expert', False)
-- 
2.43.0


From 578c5cf909e5deee68fe17de2356ea6bf8051262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:58 +0000
Subject: [PATCH 109/136] fix: a null head_dim and missing key-value heads mean
 the defaults

---
 onnx_tool/llm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index e71439a..bdaacef 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -260,10 +260,12 @@ class Builder():
         self.node_count = 0
         self.tensor_count = 0
         # head_size: 优先使用配置中的 head_dim，否则用 hidden_size / num_heads
-        if hasattr(self, 'head_dim'):
+        if getattr(self, 'head_dim', None) is not None:
             self.head_size = self.head_dim
         else:
             self.head_size = self.hidden_size // self.num_attention_heads
+        if getattr(self, 'num_key_value_heads', None) is None:
+            self.num_key_value_heads = self.num_attention_heads
         self.hidden_kv_size = self.head_size * self.num_key_value_heads
         self.device_perf = []
 
-- 
2.43.0


From a0503379aa0141bb12377d73bb41cfba19b796f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:58 +0000
Subject: [PATCH 110/136] fix: the default weight map names the position
 embedding

---
 onnx_tool/llm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index bdaacef..50a9e3e 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -186,7 +186,8 @@ ArchMap['GPT2LMHeadModel'] = {
 
 WeightMap = {
     'embedding': {
-        'embed': 'model.embed_tokens'
+        'embed': 'model.embed_tokens',
+        'pos': 'model.embed_positions'
     },
     'layer_prefix': 'model.layers.',
     'attention': {
-- 
2.43.0


From 5a5d692550af7760f0eab52768f227ca61ab0363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:23 +0000
Subject: [PATCH 111/136] fix: one-hot indices outside the range give rows of
 off values

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 32f6eb4..a997dfd 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1147,7 +1147,7 @@ def one_hot(indices, depth, axis=-1, dtype=numpy.float32):  # type: ignore
     ls = values.shape[0:axis]
     rs = values.shape[axis:rank]
     targets = numpy.reshape(depth_range, (1,) * len(ls) + depth_range.shape + (1,) * len(rs))
-    values = numpy.reshape(numpy.mod(values, depth), ls + (1,) + rs)
+    values = numpy.reshape(numpy.where(values < 0, values + depth, values), ls + (1,) + rs)
     return numpy.asarray(targets == values, dtype=dtype)
 
 
-- 
2.43.0


From 225b078edda28154d350491747b5dae0964be9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:35 +0000
Subject: [PATCH 112/136] fix: keep the producer of a graph output when its
 last reader is removed

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 99c3422..e7bbd31 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -657,7 +657,7 @@ class Graph():
                 if len(self.consumedby[i]) == 1 and i in self.producedby:
                     pnode = self.producedby[i][0]
                     assert (len(self.producedby[i]) == 1)
-                    dangle_node = True
+                    dangle_node = i not in self.output
                     for o in self.nodemap[pnode].output:
                         if o == i:
                             continue
-- 
2.43.0


From 0eb597949c2cb1b09960b71d4a4ab8f586e4e153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:35 +0000
Subject: [PATCH 113/136] fix: keep nodes graph outputs depend on through data
 in the compute graph

---
 onnx_tool/graph.py | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index e7bbd31..3762d8e 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -40,20 +40,18 @@ _SHAPE_TENSORS = {
 }
 
 
-def _contains_shape_tensor(n):
-    nodeset = _SHAPE_TENSORS.keys()
-    shape_tensors = []
-    if n.op_type in nodeset:
-        tensor_descs = _SHAPE_TENSORS[n.op_type]
-        for desc in tensor_descs:
+def _shape_tensor_indices(n):
+    indices = []
+    if n.op_type in _SHAPE_TENSORS:
+        for desc in _SHAPE_TENSORS[n.op_type]:
             strs = desc.split('of')
-            indice = strs[0]
-            count = int(strs[1])
-            if len(n.input) == count:
-                indistr = indice.split(',')
-                for istr in indistr:
-                    shape_tensors.append(n.input[int(istr)])
-    return shape_tensors
+            if len(n.input) == int(strs[1]):
+                indices.extend(int(istr) for istr in strs[0].split(','))
+    return indices
+
+
+def _contains_shape_tensor(n):
+    return [n.input[i] for i in _shape_tensor_indices(n)]
 
 
 class ValueExpr():
@@ -1421,10 +1419,25 @@ class Graph():
         cg.consumedby = {k: list(v) for k, v in self.consumedby.items()}
         cg.input = list(self.input)
         cg.output = list(self.output)
+        # nodes the graph outputs depend on other than through shape tensors
+        used = set()
+        searchnodes = [n for n in cg.nodemap.keys() if any(o in cg.output for o in cg.nodemap[n].output)]
+        while len(searchnodes) > 0:
+            key = searchnodes.pop()
+            if key in used:
+                continue
+            used.add(key)
+            node = cg.nodemap[key]
+            for i, input in enumerate(node.read_names()):
+                if i not in _shape_tensor_indices(node):
+                    searchnodes.extend(cg.producedby.get(input, []))
         nodes = []
         rmnodes = []
         for key in cg.nodemap.keys():
             node = cg.nodemap[key]
+            if key in used:
+                nodes.append(node.name)
+                continue
             if node.shape_calc:
                 rmnodes.append(key)
                 continue
@@ -1449,6 +1462,8 @@ class Graph():
                         if input in self.producedby:
                             if len(self.consumedby[input]) == 1:
                                 pnodename = self.producedby[input][0]
+                                if pnodename in used:
+                                    continue
                                 if pnodename not in rmnodes:
                                     rmnodes.append(pnodename)
                                 searchnodes.append(pnodename)
-- 
2.43.0


From 59a3b1a78822446effb50816fdf95044a7c46d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:35 +0000
Subject: [PATCH 114/136] fix: save out-of-order models in topological order

---
 onnx_tool/graph.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 3762d8e..d552ceb 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -864,7 +864,16 @@ class Graph():
         if len(self.nodemap.keys()) == 0:
             warnings.warn(f'Empty graph {f} to save')
             return
-        graph = self.make_graph_onnx(self.nodemap.keys(), 'graph', self.input, self.output,
+        nodenames = list(self.nodemap.keys())
+        made, written = {}, set()
+        for name in nodenames:
+            made.update((t, name) for t in self.nodemap[name].output)
+        for name in nodenames:
+            if any(t in made and made[t] not in written for t in self.nodemap[name].read_names()):
+                nodenames = self.topsort_nodes(nodenames, self.input)
+                break
+            written.add(name)
+        graph = self.make_graph_onnx(nodenames, 'graph', self.input, self.output,
                                      with_initializer=not shape_only, with_shape_info=not no_shape)
         if graph is not None and f is not None:
             attr = {}
-- 
2.43.0


From adc6fd5bde897d77b558ffc82196c1e0f1d6228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:35 +0000
Subject: [PATCH 115/136] fix: order nodes after the tensors their nested
 graphs read

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index d552ceb..6278e47 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -962,7 +962,7 @@ class Graph():
         for name in node_names:
             node = self.nodemap[name]
             count = 0
-            for tname in node.input:
+            for tname in node.read_names():
                 if tname in produced_by.keys():
                     count += 1
                     if tname in consumed_by.keys():
-- 
2.43.0


From b65d0fa38a3c62b1428af76fcd2e2ffa66ef683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:37 +0000
Subject: [PATCH 116/136] fix: find the readers of a node by its tensors when
 removing dangling nodes and subtrees

---
 onnx_tool/graph.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 6278e47..40b54db 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -678,15 +678,17 @@ class Graph():
             if nodename in self.nodemap:  # may be already removed?
                 node = self.nodemap[nodename]
 
-                for n in node.nextnodes:
-                    nodeset.add(n.name)
-                    nodeset.union(self.remove_subtree(n.name, nodeset))
+                for o in node.output:
+                    for n in self.consumedby.get(o, []):
+                        if n not in nodeset:
+                            nodeset.add(n)
+                            self.remove_subtree(n, nodeset)
                 return nodeset
             return nodeset
 
         nodeset = set()
         nodeset.add(nodename)
-        nodeset.union(self.remove_subtree(nodename, nodeset))
+        self.remove_subtree(nodename, nodeset)
 
         for node in nodeset:
             if node not in self.nodemap:
@@ -697,24 +699,20 @@ class Graph():
         try_to_remove = True
         while try_to_remove:
             try_to_remove = False
+            inner_names = {t for n in self.nodemap.values() for t in n.read_names()[len(n.input):]}
             for nodename in list(self.nodemap.keys()):
                 if nodename not in self.nodemap:
                     continue
                 node = self.nodemap[nodename]
                 node_used = False
                 for o in node.output:
-                    if o in self.output:
-                        node_used = True
-
-                for nnode in node.nextnodes:
-                    if nnode.name in self.nodemap:
+                    if o in self.output or o in inner_names or len(self.consumedby.get(o, [])) > 0:
                         node_used = True
-                        break
 
                 if node_used:
                     continue
 
-                self.remove_node(nodename, recursive=True)
+                self.remove_node(nodename)
                 try_to_remove = True
 
     def skip_node(self, nodename):
-- 
2.43.0


From 1a4c2555d5bb2d93c7661c8f20b16b3569d58da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:02 +0000
Subject: [PATCH 117/136] fix: keep constant nodes that produce graph outputs
 when folding

---
 onnx_tool/graph.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 40b54db..09ac3cb 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -202,8 +202,10 @@ class Graph():
         tm = timer()
         if constant_folding:
             rmlist = []
+            declared = [] if self.rawgraph is None else [o.name for o in self.rawgraph.output]
             for key in self.nodemap:
-                if self.nodemap[key].constant:
+                # the producer of a graph output stays, its constant value is part of the model's interface
+                if self.nodemap[key].constant and not any(o in declared for o in self.nodemap[key].output):
                     rmlist.append(key)
             self.log(f'GraphProto Nodes Count:{len(self.rawgraph.node)}')
             self.log(f'Contant folding {rmlist[:3]}... {len(rmlist)} Nodes')
@@ -211,14 +213,14 @@ class Graph():
                 self.nodemap.pop(key)
 
         if constant_folding:
+            made = set(o for node in self.nodemap.values() for o in node.output)
             for name in self.nodemap.keys():
                 for tname in self.nodemap[name].input:
-                    if self.tensormap[tname].type == STATIC_TENSOR:
+                    if self.tensormap[tname].type == STATIC_TENSOR and tname not in made:
                         if tname not in self.initials:
                             self.initials.append(tname)
-                    if self.tensormap[tname].type == DYNAMIC_TENSOR:
-                        if tname not in self.dynamics:
-                            self.dynamics.append(tname)
+                    elif tname not in self.dynamics:
+                        self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
                     if tname not in self.dynamics:
                         self.dynamics.append(tname)
-- 
2.43.0


From 076e6a25c85493e9098370f0a7ee01a00fad65c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:02 +0000
Subject: [PATCH 118/136] fix: keep folded constants that only nested graphs
 read

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 09ac3cb..6335711 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -215,7 +215,7 @@ class Graph():
         if constant_folding:
             made = set(o for node in self.nodemap.values() for o in node.output)
             for name in self.nodemap.keys():
-                for tname in self.nodemap[name].input:
+                for tname in self.nodemap[name].read_names():
                     if self.tensormap[tname].type == STATIC_TENSOR and tname not in made:
                         if tname not in self.initials:
                             self.initials.append(tname)
-- 
2.43.0


From 70ceb9532103288d85881478d38f344931c203c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:02 +0000
Subject: [PATCH 119/136] fix: forget folded nodes as predecessors and
 successors

---
 onnx_tool/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 6335711..64aeaa4 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -211,6 +211,9 @@ class Graph():
             self.log(f'Contant folding {rmlist[:3]}... {len(rmlist)} Nodes')
             for key in rmlist:
                 self.nodemap.pop(key)
+            for node in self.nodemap.values():
+                node.prevnodes = [n for n in node.prevnodes if n.name in self.nodemap]
+                node.nextnodes = [n for n in node.nextnodes if n.name in self.nodemap]
 
         if constant_folding:
             made = set(o for node in self.nodemap.values() for o in node.output)
-- 
2.43.0


From 700ee77ae4ce895591f107b8f77c98a631fa9dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:02 +0000
Subject: [PATCH 120/136] fix: a node is constant only when what its nested
 graphs read is

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 64aeaa4..261cc03 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -271,7 +271,7 @@ class Graph():
         constant_node = True
         if node.op_type in ['DequantizeLinear']:
             return False
-        for tname in node.input:
+        for tname in node.read_names():
             if self.tensormap[tname].type == DYNAMIC_TENSOR:
                 constant_node = False
                 break
-- 
2.43.0


From 8dbec5a49b4a4f7065fab664e01cfcaa14983941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:02 +0000
Subject: [PATCH 121/136] fix: Constant nodes with scalar and list value
 attributes

---
 onnx_tool/node.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index a997dfd..78560cf 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1084,6 +1084,11 @@ class Relu6Node(PWNode):
 class ConstantNode(Node):
     def __init__(self, n):
         super().__init__(n)
+        # the value may also be given as a scalar or list attribute
+        for key, dtype in (('float', numpy.float32), ('int', numpy.int64), ('string', None)):
+            for name in ('value_' + key, 'value_' + key + 's'):
+                if name in self.attr:
+                    self.value = numpy.asarray(self.attr[name], dtype)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(self.value.shape)
-- 
2.43.0


From 1e7e104b425afd272c63ae0ca9c21583547ce454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:02 +0000
Subject: [PATCH 122/136] fix: save declared scalars with their shape

---
 onnx_tool/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 87162ca..c663c4f 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -482,7 +482,8 @@ class Tensor():
     def make_value_proto(self, make_dummy=False):
         shape = self.get_shape()
         if len(self.shape) == 0:
-            shape = None
+            scalar = isinstance(self.proto, onnx.ValueInfoProto) and self.proto.type.tensor_type.HasField('shape')
+            shape = [] if scalar else None
         if self.numpy is None:
             dtype = npdtype2onnxdtype(self.dtype)
         else:
-- 
2.43.0


From 2162665fdcb6bb5f196e23ea0a83a0495e499a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:02 +0000
Subject: [PATCH 123/136] fix: export constants whose names have both kinds of
 slashes

---
 onnx_tool/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 209e0fb..7a5da8e 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -45,7 +45,7 @@ def model_export_tensors_numpy(m, tensornames: [str] = None, savefolder: str = N
             if '/' in key:
                 name = key.replace('/', '_')
             if '\\' in key:
-                name = key.replace('\\', '_')
+                name = name.replace('\\', '_')
             narr = g.tensormap[key].numpy
             save_numpy(narr, fp16, os.path.join(savefolder, name + '.npy'))
 
@@ -58,7 +58,7 @@ def model_export_tensors_numpy(m, tensornames: [str] = None, savefolder: str = N
             if '/' in name:
                 fname = name.replace('/', '_')
             if '\\' in name:
-                fname = name.replace('\\', '_')
+                fname = fname.replace('\\', '_')
             narr = g.tensormap[name].numpy
             save_numpy(narr, fp16, os.path.join(savefolder, fname + '.npy'))
 
-- 
2.43.0


From 2461640297ed31f548bb8352bd8863ae21bb11be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:27 +0000
Subject: [PATCH 124/136] fix: Slice whose axes or steps operand is left out
 with an empty name

---
 onnx_tool/node.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 78560cf..4f841be 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -90,6 +90,11 @@ def _axes_neg2pos(len, axes):
     return newaxes
 
 
+def _given(tensors, i):
+    """whether operand i is there; an omitted one ends the list or has an empty name"""
+    return len(tensors) > i and tensors[i].name != ''
+
+
 def _max_shape(shapes: [numpy.ndarray]):
     maxshape = shapes[0]
     maxvol = volume(maxshape)
@@ -1789,16 +1794,8 @@ class SliceNode(Node):
         else:
             starts = list(intensors[1].get_numpy())
             ends = list(intensors[2].get_numpy())
-            axes = None
-            steps = None
-            if len(intensors) == 3:
-                # fallback behaviour when axes/steps omitted
-                axes = None
-            else:
-                if len(intensors) >= 4:
-                    axes = list(intensors[3].get_numpy())
-                if len(intensors) >= 5:
-                    steps = list(intensors[4].get_numpy())
+            axes = list(intensors[3].get_numpy()) if _given(intensors, 3) else None
+            steps = list(intensors[4].get_numpy()) if _given(intensors, 4) else None
 
         r = len(inshape)
         # If axes omitted, set to [0..len(starts)-1]
@@ -1919,8 +1916,8 @@ class SliceNode(Node):
         else:
             starts = intensors[1].get_numpy()
             ends = intensors[2].get_numpy()
-            axes = intensors[3].get_numpy() if len(intensors) >= 4 else None
-            steps = intensors[4].get_numpy() if len(intensors) >= 5 else None
+            axes = intensors[3].get_numpy() if _given(intensors, 3) else None
+            steps = intensors[4].get_numpy() if _given(intensors, 4) else None
         if axes is None:
             axes = range(len(starts))
         if steps is None:
-- 
2.43.0


From 0b457def1c8bb3fbcd0e4281f4182021673b21a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:27 +0000
Subject: [PATCH 125/136] fix: Pad with an axes operand

---
 onnx_tool/node.py | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4f841be..c3dd657 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1639,33 +1639,28 @@ class PadNode(Node):
         self.add_default_value('value', 0)
         self.add_default_value('mode', b'constant')
 
+    def _pad_width(self, rank, intensors: List[Tensor]):
+        """[begin, end] for every dimension"""
+        pads = self.pads if self.pads is not None else intensors[1].get_numpy()
+        axes = range(rank)
+        if _given(intensors, 3):
+            axes = _axes_neg2pos(rank, [int(axis) for axis in intensors[3].get_numpy()])
+        width = [[0, 0] for _ in range(rank)]
+        for i, axis in enumerate(axes):
+            width[axis] = [int(pads[i]), int(pads[i + len(axes)])]
+        return width
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
-        newshape = []
-        if self.pads is None:
-            if len(intensors) > 1:
-                pads = intensors[1].get_numpy()
-                for i, v in enumerate(inshape):
-                    newshape.append(v + pads[i] + pads[i + len(inshape)])
-        else:
-            for i, v in enumerate(inshape):
-                newshape.append(v + self.pads[i] + self.pads[i + len(inshape)])
-        newshape = [int(val) for val in newshape]
+        width = self._pad_width(len(inshape), intensors)
+        newshape = [int(v + begin + end) for v, (begin, end) in zip(inshape, width)]
         outtensors[0].update_shape(newshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if self.pads is not None:
-            pads = self.pads
-        elif len(intensors) > 1:
-            pads = intensors[1].get_numpy()
-        pads = numpy.array(pads)
-        nrank = len(pads) // 2
-        start = pads[:nrank].reshape(nrank, 1)
-        end = pads[nrank:].reshape(nrank, 1)
-        pad_width = numpy.concatenate([start, end], axis=-1)
+        pad_width = self._pad_width(len(intensors[0].get_shape()), intensors)
         value = self.value
-        if len(intensors) > 2:
+        if _given(intensors, 2):
             value = intensors[2].get_numpy()
         mode = self.mode.decode("utf-8")
         kwargs = {'constant_values': value} if mode == 'constant' else {}
-- 
2.43.0


From cb849092685ca9a7f7e58bbb8b2a4348f8ef8bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:27 +0000
Subject: [PATCH 126/136] fix: Resize whose sizes operand is left out with an
 empty name

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index c3dd657..38c90dd 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1410,7 +1410,7 @@ class ResizeNode(Node):
         elif len(intensors) >= 3:
             roi = intensors[1].get_numpy()
             scales = intensors[2].get_numpy()
-            if len(intensors) >= 4:
+            if _given(intensors, 3):
                 sizes = intensors[3].get_numpy()
 
         newshape = []
-- 
2.43.0


From 2261f0ddaba4509020992c3aaa37ccae60ac524c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:27 +0000
Subject: [PATCH 127/136] fix: reductions whose axes operand is left out with
 an empty name or empty

---
 onnx_tool/node.py | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 38c90dd..1d4aea8 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -95,6 +95,14 @@ def _given(tensors, i):
     return len(tensors) > i and tensors[i].name != ''
 
 
+def _reduce_axes(node, intensors):
+    """axes that a reduction node reduces; None for all of them"""
+    axes = intensors[1].get_numpy().tolist() if _given(intensors, 1) else node.axes
+    if axes is None or len(axes) == 0:
+        return () if node.noop_with_empty_axes else None
+    return tuple(axes)
+
+
 def _max_shape(shapes: [numpy.ndarray]):
     maxshape = shapes[0]
     maxvol = volume(maxshape)
@@ -1934,14 +1942,12 @@ class ReduceMeanNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('axes', None)
         self.add_default_value('keepdims', 1)
+        self.add_default_value('noop_with_empty_axes', 0)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         yshape = []
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
+        axes = _reduce_axes(self, intensors)
         if axes is None:
             axes = range(len(xshape))
         else:
@@ -1957,10 +1963,7 @@ class ReduceMeanNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = tuple(intensors[1].get_numpy().tolist())
-        else:
-            axes = self.axes
+        axes = _reduce_axes(self, intensors)
         reduced = numpy.mean(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -1972,10 +1975,7 @@ class ReduceMeanNode(Node):
 @NODE_REGISTRY.register()
 class ReduceProdNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = tuple(intensors[1].get_numpy().tolist())
-        else:
-            axes = self.axes
+        axes = _reduce_axes(self, intensors)
         reduced = numpy.prod(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -1988,10 +1988,7 @@ class ReduceProdNode(ReduceMeanNode):
 @NODE_REGISTRY.register()
 class ReduceSumNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = tuple(intensors[1].get_numpy().tolist())
-        else:
-            axes = self.axes
+        axes = _reduce_axes(self, intensors)
         reduced = numpy.sum(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -2000,10 +1997,7 @@ class ReduceSumNode(ReduceMeanNode):
 class ReduceMinNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        if len(intensors) == 2:
-            axes = tuple(intensors[1].get_numpy().tolist())
-        else:
-            axes = self.axes
+        axes = _reduce_axes(self, intensors)
         reduced = numpy.minimum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -2017,10 +2011,7 @@ class ReduceMinNode(ReduceMeanNode):
 class ReduceMaxNode(ReduceMinNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        if len(intensors) == 2:
-            axes = tuple(intensors[1].get_numpy().tolist())
-        else:
-            axes = self.axes
+        axes = _reduce_axes(self, intensors)
         reduced = numpy.maximum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -2265,10 +2256,11 @@ class ReduceL2Node(Node):
         super().__init__(nodeproto)
         self.add_default_value('axes', None)
         self.add_default_value('keepdims', 1)
+        self.add_default_value('noop_with_empty_axes', 0)
         self.axes = tuple(self.axes) if self.axes is not None else None
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        axes = tuple(intensors[1].get_numpy().tolist()) if len(intensors) == 2 else self.axes
+        axes = _reduce_axes(self, intensors)
         reduced = numpy.sqrt(
             numpy.sum(intensors[0].get_numpy() * intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1))
         outtensors[0].update_tensor(reduced)
-- 
2.43.0


From 0495953ac2228d1a1d58609f1fd9ca1395b97207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:27 +0000
Subject: [PATCH 128/136] fix: Squeeze, Split and Trilu whose second operand is
 left out with an empty name

---
 onnx_tool/node.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1d4aea8..de24e4c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1201,7 +1201,7 @@ class TriluNode(FusedBase):
         self.add_default_value('upper', 1)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
+        if _given(intensors, 1):
             k = intensors[1].get_numpy()
         else:
             k = numpy.array(0).astype(numpy.int64)
@@ -1373,7 +1373,7 @@ class SqueezeNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
         outshape = []
-        if len(intensors) == 2:
+        if _given(intensors, 1):
             self.axes = intensors[1].get_numpy()
         if self.axes is None:
             axes = [i for i, v in enumerate(inshape) if v == 1]
@@ -1389,7 +1389,7 @@ class SqueezeNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensor = intensors[0].get_numpy().copy()
-        if len(intensors) == 2:
+        if _given(intensors, 1):
             self.axes = intensors[1].get_numpy()
         axes = None if self.axes is None else tuple(_axes_neg2pos(len(outtensor.shape), self.axes))
         outtensor = numpy.squeeze(outtensor, axis=axes)
@@ -2918,7 +2918,7 @@ class SplitNode(Node):
         end = 0
         inshape = intensors[0].get_shape()
         if self.split is None:
-            if len(intensors) == 2:
+            if _given(intensors, 1):
                 split = intensors[1].get_numpy()
             else:
                 if inshape[self.axis] % len(outtensors) == 0:
@@ -2953,7 +2953,7 @@ class SplitNode(Node):
         end = 0
         inshape = intensors[0].get_shape()
         if self.split is None:
-            if len(intensors) == 2:
+            if _given(intensors, 1):
                 split = intensors[1].get_numpy()
             else:
                 if inshape[self.axis] % len(outtensors) == 0:
-- 
2.43.0


From 0381a98ea6cd19b4078f74a4686b0cfdd3ed46f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:27 +0000
Subject: [PATCH 129/136] fix: Conv, ConvTranspose, Gemm, QLinearConv and
 MatMulInteger operands left out with an empty name

---
 onnx_tool/node.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index de24e4c..9b7aee1 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -973,7 +973,7 @@ class GemmNode(Node):
         C = numpy.matmul(A, B)
         if self.alpha != 1:
             C = C * self.alpha
-        if len(intensors) > 2:
+        if _given(intensors, 2):
             bias = intensors[2].get_numpy()
             if self.beta != 1:
                 bias = bias * self.beta
@@ -995,7 +995,7 @@ class GemmNode(Node):
                     macs *= weight_shape[-2]
                 else:
                     macs *= weight_shape[-1]
-            if len(intensors) == 3:
+            if _given(intensors, 2):
                 macs += volume(yshape) * ADD_MACS
         else:
             raise NotImplementedError()
@@ -2203,7 +2203,7 @@ class ConvNode(Node):
         self.shape_infer(intensors, outtensors)
         outshape = outtensors[0].get_shape()
         outtensor = outtensors[0].get_numpy()
-        has_bias = len(intensors) > 2
+        has_bias = _given(intensors, 2)
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         if len(wshape) != 4:
@@ -2245,7 +2245,7 @@ class ConvNode(Node):
                 reduce_shape = kernel_shape[1:]
                 reduce_vol = volume(reduce_shape)
                 macs += outvol * reduce_vol * MUL_MACS
-                if len(intensors) > 2:
+                if _given(intensors, 2):
                     macs += (outvol * ADD_MACS)
         return macs
 
@@ -2584,10 +2584,10 @@ class MatMulIntegerNode(GemmNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         A = intensors[0].get_numpy().astype(numpy.int32)
         B = intensors[1].get_numpy().astype(numpy.int32)
-        if len(intensors) > 2 and intensors[2].name != '':
+        if _given(intensors, 2):
             zp = intensors[2].get_numpy().astype(numpy.int32)
             A = A - (zp[..., numpy.newaxis] if len(zp.shape) == 1 and zp.size > 1 else zp)
-        if len(intensors) > 3:
+        if _given(intensors, 3):
             B = B - intensors[3].get_numpy().astype(numpy.int32)
         outtensors[0].update_tensor(numpy.matmul(A, B))
 
@@ -2633,7 +2633,7 @@ class QLinearConvNode(ConvNode):
             else:
                 outvol = 0
                 raise NotImplementedError()
-            if len(intensors) == 9:
+            if _given(intensors, 8):
                 macs += (outvol * ADD_MACS)
         return macs
 
@@ -2722,7 +2722,7 @@ class ConvTransposeNode(Node):
                 reduce_shape = kernel_shape[1:]
                 reduce_vol = volume(reduce_shape)
                 macs += outvol * reduce_vol * MUL_MACS
-                if len(intensors) > 2:
+                if _given(intensors, 2):
                     macs += (outvol * ADD_MACS)
         return macs
 
-- 
2.43.0


From 4f1c269001fc06a8b7417f94f48678db309bb066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:35 +0000
Subject: [PATCH 130/136] fix: an empty result name links no nodes

---
 onnx_tool/graph.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 261cc03..b3b3abe 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -256,11 +256,11 @@ class Graph():
         for name in self.nodemap.keys():
             node = self.nodemap[name]
             for tensor in node.read_names():
-                if tensor not in self.producedby and tensor in self.dynamics:
+                if tensor not in self.producedby and tensor in self.dynamics and tensor != '':
                     if tensor not in self.input:
                         self.input.append(tensor)
             if not self.cfg.remove_dangling:
-                for tensor in node.output:
+                for tensor in filter(None, node.output):
                     if tensor not in self.consumedby or len(self.consumedby[tensor]) == 0:
                         if tensor not in self.output:
                             self.output.append(tensor)
@@ -321,11 +321,12 @@ class Graph():
         self.consumedby = {}
         for name in self.nodemap:
             node = self.nodemap[name]
-            for tensor in node.input:
+            # an empty name is an operand or a result left out: it links no nodes
+            for tensor in filter(None, node.input):
                 if tensor not in self.consumedby:
                     self.consumedby[tensor] = []
                 self.consumedby[tensor].append(node.name)
-            for tensor in node.output:
+            for tensor in filter(None, node.output):
                 if tensor not in self.producedby:
                     self.producedby[tensor] = []
                 self.producedby[tensor].append(node.name)
@@ -352,7 +353,7 @@ class Graph():
                         remove = True
                         sname = node_list.pop(0)
                         snode = self.nodemap[sname]
-                        for ipn in snode.input:
+                        for ipn in filter(None, snode.input):
                             if len(self.consumedby[ipn]) == 1 and ipn not in sub_input:  # consumed by this node
                                 if ipn in self.producedby.keys():
                                     node_list.append(self.producedby[ipn][0])
@@ -405,7 +406,7 @@ class Graph():
                     remove = True
                     sname = node_list.pop(0)
                     snode = self.nodemap[sname]
-                    for ipn in snode.input:
+                    for ipn in filter(None, snode.input):
                         if len(self.consumedby[ipn]) == 1:  # consumed by this node
                             node_list.append(self.producedby[ipn][0])
                     if remove:
@@ -423,18 +424,22 @@ class Graph():
             newnode.name = newnode.op_type + '_' + str(self.node_count)
         self.node_count += 1
         for tensor in node_proto.input:
+            newnode.input.append(tensor)
+            if tensor == '':
+                continue
             if tensor in self.producedby:
                 for producer in self.producedby[tensor]:
                     newnode.prevnodes.append(self.nodemap[producer])
             if tensor not in self.consumedby:
                 self.consumedby[tensor] = []
             self.consumedby[tensor].append(newnode.name)
-            newnode.input.append(tensor)
         for tensor in node_proto.output:
+            newnode.output.append(tensor)
+            if tensor == '':
+                continue
             if tensor not in self.producedby:
                 self.producedby[tensor] = []
             self.producedby[tensor].append(newnode.name)
-            newnode.output.append(tensor)
         self.nodemap[newnode.name] = newnode
 
     def __init_graph_from_onnxproto__(self, g, noderename):
@@ -451,18 +456,22 @@ class Graph():
                 newnode.name = newnode.op_type + '_' + str(self.node_count)
             self.node_count += 1
             for tensor in node.input:
+                newnode.input.append(tensor)
+                if tensor == '':
+                    continue
                 if tensor in self.producedby:
                     for producer in self.producedby[tensor]:
                         newnode.prevnodes.append(self.nodemap[producer])
                 if tensor not in self.consumedby:
                     self.consumedby[tensor] = []
                 self.consumedby[tensor].append(newnode.name)
-                newnode.input.append(tensor)
             for tensor in node.output:
+                newnode.output.append(tensor)
+                if tensor == '':
+                    continue
                 if tensor not in self.producedby:
                     self.producedby[tensor] = []
                 self.producedby[tensor].append(newnode.name)
-                newnode.output.append(tensor)
 
             self.nodemap[newnode.name] = newnode
 
@@ -744,7 +753,7 @@ class Graph():
             oldname = newname = None
             for t in node.output:
                 self.producedby.pop(t, None)
-        for t in node.input:
+        for t in filter(None, node.input):
             self.consumedby[t].remove(nodename)
             if len(self.consumedby[t]) == 0:
                 self.consumedby.pop(t)
@@ -957,7 +966,7 @@ class Graph():
         produced_by = {}
         for name in node_names:
             node = self.nodemap[name]
-            for tname in node.output:
+            for tname in filter(None, node.output):
                 produced_by[tname] = name
 
         consumed_by = {}
@@ -1022,7 +1031,7 @@ class Graph():
                 if input not in intensors:
                     intensors.append(input)
 
-            for output in self.nodemap[name].output:
+            for output in filter(None, self.nodemap[name].output):
                 if remove_initials and output in self.initials:
                     continue
                 if output in self.consumedby and output not in self.output:
-- 
2.43.0


From 3039a4e1411d8351e8e84ec2a770f4072819ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:35 +0000
Subject: [PATCH 131/136] fix: do not count the elements of results left out

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 9b7aee1..4cb33dc 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -279,7 +279,7 @@ class Node():
         to provide seq_len-aware static_params.
         """
         macs = self._profile_core(intensors, outtensors)
-        io_params = sum(volume(t.get_shape()) for t in outtensors)
+        io_params = sum(volume(t.get_shape()) for t in outtensors if t.name != '')
         static_params = sum(volume(intensors[i].get_shape()) for i in self.static_inputs)
         return [macs, io_params, static_params]
 
@@ -735,7 +735,7 @@ class RopeNode(PWNode):
     def profile(self, intensors: List[Tensor], outtensors: List[Tensor]):
         """Rope: cos/sin 表按实际使用的 seq_len 缩放 static_params。"""
         macs = self._profile_core(intensors, outtensors)
-        io_params = sum(volume(t.get_shape()) for t in outtensors)
+        io_params = sum(volume(t.get_shape()) for t in outtensors if t.name != '')
         # cos/sin 表 shape: [1, 1, max_pos, half]，实际只用 seq_len 行
         x_shape = intensors[0].get_shape()  # [B, S, num_heads*head_dim]
         seq_len = x_shape[1] if len(x_shape) > 1 else 1
-- 
2.43.0


From 8a7e6e7d6c89f019c67a56341ff32f9c4299e227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:35 +0000
Subject: [PATCH 132/136] fix: no link through an empty name in pattern
 descriptions

---
 onnx_tool/fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 0a3f24c..9d8370f 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -296,7 +296,7 @@ def create_descs_from_nodenames(graph: Graph, nodenames: [str]):
     for i, name in enumerate(nodenames):
         node = graph.nodemap[name]
         for j, t in enumerate(node.input):
-            if t in consumed_by.keys():
+            if t != '' and t in consumed_by.keys():
                 pnode = produced_by[t]
                 pidx = nodenames.index(pnode)
                 prodnode = graph.nodemap[pnode]
-- 
2.43.0


From 3ec085ef7829c0c02af77837a229ae020b57c93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:16 +0000
Subject: [PATCH 133/136] fix: Resize ignored the axes and
 keep_aspect_ratio_policy attributes

---
 onnx_tool/node.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4cb33dc..994dfa1 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1408,6 +1408,8 @@ class ResizeNode(Node):
     def __init__(self, node_proto):
         super().__init__(node_proto)
         self.add_default_value('mode', b'nearest')
+        self.add_default_value('axes', None)
+        self.add_default_value('keep_aspect_ratio_policy', b'stretch')
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
@@ -1422,20 +1424,27 @@ class ResizeNode(Node):
                 sizes = intensors[3].get_numpy()
 
         newshape = []
+        axes = None if self.axes is None else _axes_neg2pos(len(xshape), self.axes)
         if is_valid_ndarray(sizes):
-            if len(sizes) == len(xshape):
-                newshape = sizes
-            if len(sizes) == 2:
-                newshape = xshape[:2] + sizes
-        else:
-            if is_valid_ndarray(scales):
-                newshape = []
-                for src, scale in zip(xshape, scales):
-                    newshape.append(math.floor(src * scale))
-
-        if is_valid_ndarray(newshape):
-            if newshape.dtype != numpy.int64:
-                newshape = newshape.astype(dtype=numpy.int64)
+            if axes is None and len(sizes) == 2:
+                axes = (len(xshape) - 2, len(xshape) - 1)
+            pairs = [(axis, int(size)) for axis, size in zip(range(len(xshape)) if axes is None else axes, sizes)]
+            if self.keep_aspect_ratio_policy != b'stretch':
+                # one ratio for all resized axes, the smallest (not_larger) or the largest (not_smaller) of those asked for
+                num, den = pairs[0][1], xshape[pairs[0][0]]
+                for axis, size in pairs[1:]:
+                    smaller = size * den < num * xshape[axis]
+                    if smaller == (self.keep_aspect_ratio_policy == b'not_larger'):
+                        num, den = size, xshape[axis]
+                pairs = [(axis, (2 * num * xshape[axis] + den) // (2 * den)) for axis, size in pairs]
+            newshape = list(xshape)
+            for axis, size in pairs:
+                newshape[axis] = size
+        elif is_valid_ndarray(scales):
+            newshape = list(xshape)
+            for axis, scale in zip(range(len(xshape)) if axes is None else axes, scales):
+                newshape[axis] = math.floor(xshape[axis] * scale)
+
         outtensors[0].update_shape(list(newshape))
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From ddb7474665dda8b04d8f7aa4d784dee26bcb39ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:16 +0000
Subject: [PATCH 134/136] fix: MaxPool gave its Indices result no shape

---
 onnx_tool/node.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 994dfa1..7aa0fa6 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1555,6 +1555,12 @@ class MaxPoolNode(PoolBase):
         super().__init__(nodeproto)
         self.op_mac = CMP_MACS
 
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        super().shape_infer(intensors, outtensors)
+        for tensor in outtensors[1:]:  # Indices
+            tensor.update_shape(outtensors[0].get_shape())
+            tensor.update_dtype(numpy.int64)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if len(outtensors) > 1:
             raise NotImplementedError('MaxPool indices are not computed')
-- 
2.43.0


From e1c9a339a276f9f687807486fe03b57a4ba0ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:16 +0000
Subject: [PATCH 135/136] fix: LayerNormalization and BatchNormalization gave
 their statistics no shape

---
 onnx_tool/node.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 7aa0fa6..9f08bdc 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1713,6 +1713,12 @@ class BatchNormalizationNode(FusedBase):
         self.add_default_value('momentum', 0.9)
         self.add_default_value('training_mode', int(0))
 
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        super().shape_infer(intensors, outtensors)
+        for tensor, stat in zip(outtensors[1:3], intensors[3:5]):  # running mean and variance
+            tensor.update_shape(stat.get_shape())
+            tensor.update_dtype(stat.dtype)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
         scale = intensors[1].get_numpy()
@@ -2565,8 +2571,14 @@ class LayerNormalizationNode(Node):
         self.add_default_value('stash_type', 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        outtensors[0].update_shape(intensors[0].get_shape())
+        xshape = intensors[0].get_shape()
+        outtensors[0].update_shape(xshape)
         outtensors[0].update_dtype(intensors[0].dtype)
+        if len(outtensors) > 1:
+            axis = _axes_neg2pos(len(xshape), [self.axis])[0]
+            for tensor in outtensors[1:]:  # Mean and InvStdDev
+                tensor.update_shape(list(xshape[:axis]) + [1] * (len(xshape) - axis))
+                tensor.update_dtype(numpy.float32)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         tshape = intensors[0].get_shape()
-- 
2.43.0


From 0995bdafce9a8ebfd51ee6acd13e53fde20991cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:16 +0000
Subject: [PATCH 136/136] fix: uint32 and uint64 constants were read as float64

---
 onnx_tool/tensor.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index c663c4f..978da67 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -53,6 +53,10 @@ def onnxdtype2npdtype(data_type):
         return numpy.uint8
     if data_type == onnx.TensorProto.UINT16:
         return numpy.uint16
+    if data_type == onnx.TensorProto.UINT32:
+        return numpy.uint32
+    if data_type == onnx.TensorProto.UINT64:
+        return numpy.uint64
     if data_type == onnx.TensorProto.BOOL:
         return numpy.bool_
     if data_type == onnx.TensorProto.STRING:
@@ -82,6 +86,10 @@ def npdtype2onnxdtype(npdtype):
         return onnx.TensorProto.UINT8
     if npdtype == numpy.uint16:
         return onnx.TensorProto.UINT16
+    if npdtype == numpy.uint32:
+        return onnx.TensorProto.UINT32
+    if npdtype == numpy.uint64:
+        return onnx.TensorProto.UINT64
     if npdtype == numpy.bool_:
         return onnx.TensorProto.BOOL
     if npdtype == numpy.bytes_:
@@ -116,6 +124,8 @@ def tensorproto2ndarray(initial):
             arr = numpy.fromiter(initial.int32_data, dtype=numpy.int32).astype(ndtype)
         elif ndtype == numpy.bytes_:
             arr = numpy.array(initial.string_data, dtype=ndtype)
+        elif ndtype in (numpy.uint32, numpy.uint64):
+            arr = numpy.fromiter(initial.uint64_data, dtype=ndtype)
     else:
         arr = numpy.frombuffer(initial.raw_data, dtype=ndtype)
     # if len(shape):
-- 
2.43.0

